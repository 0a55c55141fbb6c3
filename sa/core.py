"""Gated value-numbering dataflow over the exported tree.

Every function is walked once, structurally.  The state at a program point is one map from
locations to hash-consed value terms plus the control-dependence guard of that point (a BDD over
condition terms); branches are joined with gated (case) values and loops over collections are
summarised as comprehensions / quantified guards - there is no path enumeration and no solver.
The result is a list of effects (calls, writes, container updates, lock operations), each with the
guard under which it happens, the collection elements it happens for and the locks held.
"""
import re
from fractions import Fraction
from .bdd import *
from . import bdd as B

# ------------------------------------------------------------------ names
_bn = {}
def base_name(fn):
    r = _bn.get(fn)
    if r is None:
        out, d = [], 0
        s = fn.replace('operator<<', 'operator@shl').replace('operator>>', 'operator@shr').replace('operator->', 'operator@arrow').replace('operator<=', 'operator@le').replace('operator>=', 'operator@ge')
        s = re.sub(r'operator<(?!\w)', 'operator@lt', s); s = re.sub(r'operator>(?!\w)', 'operator@gt', s)
        for ch in s:
            if ch == '<': d += 1
            elif ch == '>': d -= 1
            elif d == 0: out.append(ch)
        r = ''.join(out).replace('@shl', '<<').replace('@shr', '>>').replace('@arrow', '->').replace('@le', '<=').replace('@ge', '>=').replace('@lt', '<').replace('@gt', '>')
        r = r.replace('std::__cxx11::', 'std::').replace('__gnu_cxx::', 'std::')
        _bn[fn] = r
    return r

SEQ_RE = re.compile(r'^(const )?std::(vector|list|deque|set|multiset|unordered_set|forward_list)<')
MAP_RE = re.compile(r'^(const )?std::(map|unordered_map|multimap)<')
STR_RE = re.compile(r'^(const )?std::(basic_string<|string\b)')
PTR_RE = re.compile(r'^(const )?std::(shared_ptr|unique_ptr|weak_ptr)<')
LOCK_RE = re.compile(r'^(const )?std::(lock_guard|unique_lock|scoped_lock|shared_lock)<')
ATOMIC_RE = re.compile(r'^(const )?(volatile )?std::(atomic|__atomic_base)<')

def is_container(t): return bool(SEQ_RE.match(t or '') or MAP_RE.match(t or ''))

# ------------------------------------------------------------------ constants and arithmetic
def C(v):
    if isinstance(v, float) and v == int(v) and abs(v) < 1e15: v = int(v)
    return mk('c', v)
NULL = mk('c', None)
TRUE_T, FALSE_T = mk('c', True), mk('c', False)
SEQ0 = mk('seq0')
EMPTY_STR = C('')

def is_num(t): return t.op == 'c' and isinstance(t.args[0], (int, float, Fraction)) and not isinstance(t.args[0], bool)
def num(t): return Fraction(t.args[0]) if is_num(t) else None

def _polyd(t):
    """term -> {monomial: coeff}; monomial = tuple of (term, exp)."""
    if is_num(t): return {(): Fraction(t.args[0])} if t.args[0] != 0 else {}
    if t.op == 'c' and isinstance(t.args[0], bool): return {(): Fraction(int(t.args[0]))} if t.args[0] else {}
    if t.op == 'poly': return {m: c for m, c in t.args}
    return {((t, 1),): Fraction(1)}

def _mkpoly(d):
    d = {m: c for m, c in d.items() if c != 0}
    if not d: return C(0)
    if len(d) == 1:
        (m, c), = d.items()
        if m == (): return C(int(c)) if c.denominator == 1 else mk('c', float(c))
        if c == 1 and len(m) == 1 and m[0][1] == 1: return m[0][0]
    return mk('poly', *sorted(d.items(), key=lambda x: [(t.id, e) for t, e in x[0]]))

def add(a, b):
    r = _case2(add, a, b)
    if r is not None: return r
    d = dict(_polyd(a))
    for m, c in _polyd(b).items(): d[m] = d.get(m, 0) + c
    return _mkpoly(d)
def neg(a):
    return mul(C(-1), a)
def sub(a, b): return add(a, neg(b))
def _mm(m1, m2):
    e = {}
    for t, k in m1 + m2: e[t] = e.get(t, 0) + k
    return tuple(sorted(((t, k) for t, k in e.items() if k), key=lambda x: x[0].id))
def mul(a, b):
    r = _case2(mul, a, b)
    if r is not None: return r
    d = {}
    for m1, c1 in _polyd(a).items():
        for m2, c2 in _polyd(b).items():
            m = _mm(m1, m2); d[m] = d.get(m, 0) + c1 * c2
    return _mkpoly(d)
def inv(a):
    if a.op == 'case': return mk_case([(g.args[0], inv(v)) for v, g in a.args])
    d = _polyd(a)
    if len(d) == 1:
        (m, c), = d.items()
        if c != 0: return _mkpoly({tuple((t, -k) for t, k in m): 1 / c})
    return mk('inv', a)
def div(a, b): return mul(a, inv(b))

ARITH_CASES = True
def _case2(op, a, b):
    """Arithmetic distributes over gated values."""
    if not ARITH_CASES: return None
    if a.op == 'case' and len(a.args) <= 4: return mk_case([(g.args[0], op(v, b)) for v, g in a.args])
    if b.op == 'case' and len(b.args) <= 4: return mk_case([(g.args[0], op(a, v)) for v, g in b.args])
    return None

# ------------------------------------------------------------------ fields that only hold 0 or 1
BINARY = {'current_controllers_list_'}
def is_bin(t): return t.op == 'f' and t.args[1] in BINARY
def bin_mod(a):
    """a % 2 for a = k + x with a binary x."""
    d = dict(_polyd(a)); k = d.pop((), Fraction(0))
    if len(d) != 1 or k.denominator != 1: return None
    (m, c), = d.items()
    if len(m) != 1 or m[0][1] != 1 or not is_bin(m[0][0]) or c not in (1, -1): return None
    x = m[0][0]
    if c == -1 and k < 1 or c == 1 and k < 0: return None
    return x if int(k) % 2 == 0 else sub(C(1), x)
def bin_of_bool(f):
    """A condition on a binary field used as a number."""
    s = B.single(f)
    if s and s[0].op == 'eq' and is_bin(s[0].args[0]) and is_num(s[0].args[1]):
        x = s[0].args[0]
        return sub(C(1), x) if s[1] else x
    return None

# ------------------------------------------------------------------ booleans
def fm(f): return mk('fm', f)
def bterm(f):
    if f == 1: return TRUE_T
    if f == 0: return FALSE_T
    s = B.single(f)
    if s and s[1] and s[0].op not in ('eq', 'pos', 'nn', 'ex', 'empty', 'has', 'hasge', 'hasname', 'truthy', 'throws', 'isa', 'excisa'): return s[0]
    return mk('b', f)

NONNULL_FIELDS = set()          # field names whose pointer values rules may take as non-null

def nonnull(p):
    if p.op == 'c':
        return FALSE if p.args[0] is None or p.args[0] == 0 and not isinstance(p.args[0], bool) else TRUE
    if p.op == 'case': return OR(*[AND(g.args[0], nonnull(v)) for v, g in p.args])
    if p.op in ('new', 'addr', 'lambda', 'b', 'obj', 'new0', 'seq0', 'app'): return TRUE
    if p.op == 'f' and p.args[1] in NONNULL_FIELDS: return TRUE
    return atom(mk('nn', p))

def truth(t):
    """Formula of a boolean-valued term."""
    if t.op == 'b': return t.args[0]
    if t.op == 'c': return TRUE if t.args[0] else FALSE
    if t.op == 'case': return OR(*[AND(g.args[0], truth(v)) for v, g in t.args])
    return atom(t)

def lenform(s):
    """Formula: the sequence is empty."""
    if s.op == 'seq0': return TRUE
    if s.op == 'app':
        base, segs = s.args
        return AND(lenform(base), NOT(seg_exists(segs, lambda x: TRUE)))
    if s.op == 'case': return OR(*[AND(g.args[0], lenform(v)) for v, g in s.args])
    if s.op == 'arr': return TRUE if not s.args else FALSE
    if s.op == 'c' and isinstance(s.args[0], str): return TRUE if s.args[0] == '' else FALSE
    if s.op in ('fill',): return eq(s.args[0], C(0))
    if s.op == 'updlast': return FALSE
    if s.op == 'mset': return FALSE
    if s.op == 'union': return AND(*[lenform(x) for x in s.args])
    if s.op == 'sorted': return lenform(s.args[0])
    if s.op == 'concat' and any(x.op == 'c' and x.args[0] for x in s.args): return FALSE
    return atom(mk('empty', s))

def is_boolt(t): return t.op == 'b' or (t.op == 'c' and isinstance(t.args[0], bool))

BOOLFN = set()      # functions known to return a truth value
def eq(a, b):
    if a is b: return TRUE
    if a.op == 'lbkey' and a.args[1] is b or b.op == 'lbkey' and b.args[1] is a: return FALSE
    if a.op == 'c' and b.op == 'c':
        x, y = a.args[0], b.args[0]
        if x is None or y is None: return TRUE if x is y or (x in (None, 0) and y in (None, 0)) else FALSE
        return TRUE if x == y else FALSE
    if a.op == 'case': return OR(*[AND(g.args[0], eq(v, b)) for v, g in a.args])
    if b.op == 'case': return OR(*[AND(g.args[0], eq(a, v)) for v, g in b.args])
    if a is NULL: return NOT(nonnull(b))
    if b is NULL: return NOT(nonnull(a))
    for x, y in ((a, b), (b, a)):
        if x.op == 'c' and y.op in ('call', 'vcall') and y.args[0] in BOOLFN and not isinstance(x.args[0], bool) and x.args[0] in (0, 1): return atom(y) if x.args[0] else NOT(atom(y))
    if is_boolt(a): return XNOR(truth(a), truth(b))
    if is_boolt(b): return XNOR(truth(a), truth(b))
    for x, y in ((a, b), (b, a)):
        if y.op == 'end' and x.op == 'iter': return FALSE
        if x.op in ('size', 'ssize') and y.op == 'c' and y.args[0] == 0: return lenform(x.args[0])
        if x.op == 'count' and y.op == 'c' and y.args[0] == 0: return NOT(x.args[-1].args[0])
        if y.op == 'end' and x.op == 'find': return NOT(x.args[2].args[0])
        if y.op == 'end' and x.op == 'mfind': return NOT(has(x.args[0], x.args[1]))
        if y.op == 'end' and x.op == 'beg': return lenform(x.args[0])
        if y is EMPTY_STR and x.op in ('app', 'seq0'): return lenform(x)
    if a.op in ('new', 'addr') and b.op in ('new', 'addr'): return FALSE
    if a.op == 'f' and b.op == 'f' and a.args[1] == b.args[1]:
        ka = ukey(a); kb = ukey(b) if ka is not None else None
        if kb is not None and ka[1] == kb[1] and ka[2] is kb[2]:
            for p in [z[0].args[1] for z in (ka, kb) if z[0].op == 'byname'] + [UNIQ[0]]:
                if p != ka[1]: return eq(get_path(ka[0], p), get_path(kb[0], p))
                break
    if a.op == 'poly' or b.op == 'poly':
        d = _polyd(sub(a, b))
        if not d: return TRUE
        if set(d) == {()}: return FALSE
        # canonical up to a non-zero factor
        ms = sorted(d.items(), key=lambda x: [(t.id, e) for t, e in x[0]])
        c0 = next(c for m, c in ms if m != ())
        t = _mkpoly({m: c / c0 for m, c in ms})
        if t.op == 'poly' and len(t.args) == 2 and t.args[0][0] == () and t.args[1][1] == 1 and len(t.args[1][0]) == 1 and t.args[1][0][0][1] == 1:
            return eq(t.args[1][0][0][0], C(-t.args[0][1] if t.args[0][1].denominator != 1 else int(-t.args[0][1])))
        return atom(mk('eq', t, C(0)))
    if b < a: a, b = b, a
    if a.op == 'c': a, b = b, a
    if is_bin(a) and is_num(b):
        if num(b) == 1: return NOT(eq(a, C(0)))
        if num(b) != 0: return FALSE
    return atom(mk('eq', a, b))

def lt(a, b):
    """a < b (total order assumed: NaN is out of the abstraction)."""
    if b.op == 'lbkey' and b.args[1] is a: return TRUE
    if a.op == 'lbkey' and a.args[1] is b: return FALSE
    if a.op == 'case': return OR(*[AND(g.args[0], lt(v, b)) for v, g in a.args])
    if b.op == 'case': return OR(*[AND(g.args[0], lt(a, v)) for v, g in b.args])
    if a.op == 'c' and b.op == 'c' and isinstance(a.args[0], str):
        return TRUE if a.args[0] < b.args[0] else FALSE
    if b.op in ('size', 'ssize', 'count') and is_num(a) and num(a) == 0: return NOT(eq(b, a))
    if a.op in ('size', 'ssize', 'count') and is_num(b):
        if num(b) <= 0: return FALSE
        if num(b) == 1: return eq(a, C(0))
        if a.op == 'size' and num(b).denominator == 1 and num(b) <= 3: return OR(*[eq(a, C(n)) for n in range(int(num(b)))])
    if b.op == 'size' and is_num(a) and num(a).denominator == 1 and 0 < num(a) <= 3: return NOT(lt(b, C(int(num(a)) + 1)))
    if b.op in ('size', 'ssize', 'count') and is_num(a) and num(a) < 0: return TRUE
    if a.op == 'ix' and b.op == 'size' and a.args[1] is b.args[0]: return TRUE
    d = _polyd(sub(b, a))
    if not d: return FALSE
    if set(d) == {()}: return TRUE if d[()] > 0 else FALSE
    ms = sorted(d.items(), key=lambda x: [(t.id, e) for t, e in x[0]])
    c0 = abs(next(c for m, c in ms if m != ()))
    return atom(mk('pos', _mkpoly({m: c / c0 for m, c in ms})))

def own_elem(m, k):
    """e if k is e.first for an element e of the map m."""
    if k.op == 'f' and k.args[1] == 'first' and k.args[0].op == 'bv' and BVCOLL.get(k.args[0]) is m: return k.args[0]
# ------------------------------------------------------------------ small instances
# When a loop has no closed form, the two summaries are compared for collections of at most two elements: every
# collection the code iterates over stands for [x0 if it is not empty] ++ [x1 if it has a second element].
INST = False
ANYKIND = False     # without static types: whatever is iterated over is a sequence
ANYLEAF = {'call', 'vcall', 'f', 'p', 'idx', 'mget', 'glob', 'cbarg', 'cap', 'shared', 'items', 'keys'}
KIND = {}           # collection term -> 'seq' | 'set' | 'map' (from its static type)
def setkind(v, t):
    if not t or not is_container(t): return
    if v.op == 'case':
        for w, _ in v.args: setkind(w, t)
        return
    if v.op in ('app', 'mset', 'gmap'): return setkind(v.args[0], t)
    if v.op in ('seq0', 'app', 'case', 'arr', 'c', 'mset', 'gmap', 'mapc', 'fill', 'union', 'sorted', 'concat', 'undef', 'new0', 'phi', 'removed', 'obj'): return
    t = t or ''
    if MAP_RE.match(t): KIND[v] = 'map'
    elif SEQ_RE.match(t): KIND[v] = 'set' if 'set<' in t.split('<')[0] + '<' else 'seq'
def presence(coll):
    e = atom(mk('empty', coll)); o = atom(mk('single', coll))
    return [NOT(e), AND(NOT(e), NOT(o))]
def mk_addr(L): return L.args[0] if L.op == 'd' else mk('addr', L)
def elems(coll):
    """The elements of a collection of the instance, as guarded single elements."""
    if not INST: return coll
    if coll.op == 'mset':
        b = elems(coll.args[0]); k, v = coll.args[1], coll.args[2]
        if b.op == 'seq0': segs = ()
        elif b.op == 'app' and b.args[0].op == 'seq0' and all(not bs for bs, _, _ in b.args[1]): segs = b.args[1]
        else: return coll
        out = [((), g, mk('pair', mk_field(x, 'first'), mk_ite(eq(mk_field(x, 'first'), k), v, mk_field(x, 'second')))) for _, g, x in segs]
        h = AND(*[NOT(AND(g.args[0], eq(mk_field(x, 'first'), k))) for _, g, x in segs])
        if h != 0: out.append(((), fm(h), mk('pair', k, v)))
        return mk('app', SEQ0, tuple(out))
    if coll.op == 'chain':
        p, v = coll.args[0], mk('bvc', 0)
        q = Subst({v: p}).term(coll.args[1])
        if p.op in ('case', 'c') or q.op in ('case', 'c'): return coll
        n0, n1 = atom(mk('nn', p)), atom(mk('nn', q))
        return mk('app', SEQ0, (((), fm(n0), mk_deref(p)), ((), fm(AND(n0, n1)), mk_deref(q))))
    if ANYKIND and coll.op == 'sorted':
        b = elems(coll.args[0])
        if b.op == 'seq0': return b
        if b.op == 'app' and b.args[0].op == 'seq0' and len(b.args[1]) == 2 and all(not bs for bs, _, _ in b.args[1]):
            (_, g0, x), (_, g1, y) = b.args[1]
            g0, g1 = g0.args[0], g1.args[0]
            sw = lt(y, x)
            return mk('app', SEQ0, (((), fm(OR(g0, g1)), mk_ite(AND(g0, NOT(AND(g1, sw))), x, y)), ((), fm(AND(g0, g1)), mk_ite(sw, x, y))))
        return b if b.op == 'app' and len(b.args[1]) == 1 and not b.args[1][0][0] and b.args[0].op == 'seq0' else coll
    if ANYKIND and coll.op == 'toset':
        b = elems(coll.args[0])
        if b.op == 'seq0': return b
        if b.op == 'app' and b.args[0].op == 'seq0' and len(b.args[1]) <= 4 and all(not bs for bs, _, _ in b.args[1]):
            out = []
            for bs, g, x in b.args[1]: out.append((bs, fm(AND(g.args[0], *[NOT(AND(h.args[0], eq(x, y))) for _, h, y in out])), x))
            return mk('app', SEQ0, tuple(out))
        return coll
    if ANYKIND and coll.op == 'app' and any(bs for bs, _, _ in coll.args[1]):
        out = coll.args[0]
        for bs, g, x in coll.args[1]:
            fs, f, y = fresh_binders(bs, g, x)
            out = append_seg(out, fs, f, y)
        return out
    if ANYKIND and coll.op in ANYLEAF: KIND[coll] = 'seq'
    if coll not in KIND: return coll
    return mk('app', SEQ0, tuple(((), fm(g), mk('idx', coll, C(i))) for i, g in enumerate(presence(coll))))
def first_of(coll, f):
    """The first element satisfying f, for a collection of known elements; None if it is not one."""
    e = elems(coll)
    if not INST or e.op != 'app' or e.args[0].op != 'seq0' or any(bs for bs, _, _ in e.args[1]): return None
    out = []; rest = TRUE
    for _, g, x in e.args[1]:
        h = AND(rest, g.args[0], f(x)); out.append((h, x)); rest = AND(rest, NOT(h))
    if not out: return None
    return mk_case(out[:-1] + [(OR(out[-1][0], rest), out[-1][1])])

def has(m, k):
    if INST and KIND.get(m): return seq_exists(elems(m), lambda x: eq(mk_field(x, 'first') if KIND[m] == 'map' else x, k))
    if own_elem(m, k) is not None: return TRUE
    if m.op == 'mset': return OR(eq(m.args[1], k), has(m.args[0], k))
    if m.op == 'seq0': return FALSE
    if m.op == 'case': return OR(*[AND(g.args[0], has(v, k)) for v, g in m.args])
    if m.op in ('app', 'arr'): return seq_exists(m, lambda x: eq(x, k))
    if m.op in ('gmap', 'mapc'):
        bs, g, kv = fresh_binders(m.args[1], m.args[2], m.args[3])
        f = AND(g, eq(kv.args[0], k))
        for v, c in reversed(bs): f = exists_over(c, v, f)
        return OR(has(m.args[0], k), f)
    return atom(mk('has', m, k))

def hasge(m, k):
    """Whether the map, which does not have k, has a key above it."""
    if m.op == 'seq0': return FALSE
    if m.op == 'case': return OR(*[AND(g.args[0], hasge(v, k)) for v, g in m.args])
    if m.op == 'mset': return OR(lt(k, m.args[1]), hasge(m.args[0], k))
    if INST and KIND.get(m): return seq_exists(elems(m), lambda x: lt(k, mk_field(x, 'first') if KIND[m] == 'map' else x))
    return AND(NOT(lenform(m)), atom(mk('hasge', m, k)))

def mk_lb(op, m, k):
    for i, t in enumerate((m, k)):
        if t.op == 'case': return mk_case([(g.args[0], mk_lb(op, v, k) if i == 0 else mk_lb(op, m, v)) for v, g in t.args])
    return mk(op, m, k)

def fresh_binders(cbs, g, x):
    """Instantiates the canonical binders of a comprehension with fresh variables."""
    m, out = {}, []
    for v, c in cbs:
        c2 = Subst(m).term(c) if m else c
        w = fresh_bv(c2); out.append((w, c2)); m[v] = w
    S = Subst(m)
    return out, (S.formula(g.args[0]) if m else g.args[0]), (S.term(x) if m else x)

def mget(m, k):
    e = own_elem(m, k)
    if e is not None: return mk('f', e, 'second')
    if m.op == 'mset':
        e = eq(m.args[1], k)
        return mk_ite(e, m.args[2], mget(m.args[0], k) if e != 1 else m.args[2])
    if m.op == 'case': return mk_case([(g.args[0], mget(v, k)) for v, g in m.args])
    if m.op == 'gmap':
        bs, g, kv = fresh_binders(m.args[1], m.args[2], m.args[3])
        base = SEQ0 if m.args[0].op == 'seq0' else mget(m.args[0], k)
        return append_seg(base, bs, AND(g, eq(kv.args[0], k)), kv.args[1])
    if INST and KIND.get(m) == 'map':
        out = [(AND(g.args[0], eq(mk_field(x, 'first'), k)), mk_field(x, 'second')) for _, g, x in elems(m).args[1]]
        return mk_case(out + [(NOT(OR(*[g for g, _ in out])), mk('mget', m, k))])
    return mk('mget', m, k)

# ------------------------------------------------------------------ gated values
def leaves(t):
    return [(g.args[0], v) for v, g in t.args] if t.op == 'case' else [(TRUE, t)]

def mk_case(pairs):
    """pairs: disjoint (formula, value) covering the care set; the last one also takes the rest."""
    acc, order = {}, []
    for f, v in pairs:
        if f == 0: continue
        for g, w in leaves(v):
            h = AND(f, g)
            if h == 0: continue
            if w in acc: acc[w] = OR(acc[w], h)
            else: acc[w] = h; order.append(w)
    if not order: return pairs[0][1] if pairs else mk('undef')
    if len(order) == 1: return order[0]
    if all(is_boolt(w) or (w.op in ('call', 'f', 'p', 'var', 'phi') and any(is_boolt(x) for x in order)) for w in order):
        return bterm(OR(*[AND(acc[w], truth(w)) for w in order]))
    if len(order) == 2 and is_num(order[0]) and is_num(order[1]):
        x = bin_of_bool(acc[order[0]])
        if x is not None: return add(order[1], mul(sub(order[0], order[1]), x))
    if len(order) == 2:
        r = _minmax(acc[order[0]], order[0], acc[order[1]], order[1])
        if r is not None: return r
        r = _seqjoin(acc[order[0]], order[0], acc[order[1]], order[1])
        if r is not None: return r
    return mk('case', *[(w, fm(acc[w])) for w in sorted(order)])

def mk_ite(c, a, b):
    if c == 1: return a
    if c == 0: return b
    if a is b: return a
    if is_boolt(a) and is_boolt(b): return bterm(ITE(c, truth(a), truth(b)))
    return mk_case([(c, a), (NOT(c), b)])

def _minmax(f, x, g, y):
    if g != NOT(f): return None
    if f == lt(x, y): return mk_min(x, y)
    if f == lt(y, x): return mk_max(x, y)
    if g == lt(x, y): return mk_max(x, y)
    if g == lt(y, x): return mk_min(x, y)
    return None
def _flat(op, xs):
    out = set()
    for x in xs:
        if x.op == op: out |= set(x.args)
        else: out.add(x)
    return sorted(out)
def _fold(op, xs):
    ns = [x for x in xs if is_num(x)]
    if len(ns) > 1:
        k = min if op == 'min' else max
        xs = [x for x in xs if not is_num(x)] + [k(ns, key=num)]
    return xs[0] if len(xs) == 1 else mk(op, *sorted(xs))
def mk_min(*xs):
    return _fold('min', _flat('min', xs))
def mk_max(*xs):
    return _fold('max', _flat('max', xs))
def absval(x):
    return mk_max(x, neg(x))

# ------------------------------------------------------------------ sequences
# app(base, segs): base followed by segments; segment = (binders, guard-fm, elem); binders = tuple of (bvc, coll)
def depth_of(t):
    if t._h is None:
        h = 0
        if t.op == 'ex': h = t.args[2]
        elif t.op == 'bvc': h = 0
        def sub_(a):
            if isinstance(a, T): return depth_of(a)
            if isinstance(a, tuple): return max([sub_(x) for x in a] or [0])
            return 0
        if t.op == 'fm' or t.op == 'b': h = max([depth_of(a) for a in support(t.args[0])] or [0])
        else: h = max([h] + [sub_(a) for a in t.args])
        if t.op == 'app':
            for seg in t.args[1]:
                for v, c in seg[0]: h = max(h, v.args[0] if v.op == 'bvc' else 0)
        t._h = h
    return t._h

def fdepth(f): return max([depth_of(a) for a in support(f)] or [0])

def bvs(t):
    """Free (unclosed) binder variables of a term."""
    if t._bvs is None:
        if t.op == 'bv': t._bvs = frozenset([t])
        else:
            s = set()
            def go(a):
                if isinstance(a, T): s.update(bvs(a))
                elif isinstance(a, tuple):
                    for x in a: go(x)
            if t.op in ('fm', 'b'):
                for a in support(t.args[0]): s.update(bvs(a))
            else:
                for a in t.args: go(a)
            t._bvs = frozenset(s)
    return t._bvs
def fbvs(f):
    s = set()
    for a in support(f): s |= bvs(a)
    return s

class Subst:
    def __init__(self, m): self.m = m; self.memo = {}; self.fmemo = {}
    def formula(self, f):
        if f < 2: return f
        r = self.fmemo.get(f)
        if r is None:
            r = self.fmemo[f] = map_atoms(f, lambda a: truth_atom(self.term(a)))
        return r
    def any(self, a):
        if isinstance(a, T): return self.term(a)
        if isinstance(a, tuple): return tuple(self.any(x) for x in a)
        return a
    def term(self, t):
        r = self.memo.get(t)
        if r is not None: return r
        if t in self.m: r = self.m[t]
        elif not t.args: r = t
        else: r = rebuild(t.op, self, t)
        self.memo[t] = r
        return r

def truth_atom(t):
    """An atom rebuilt after substitution: may have become a constant or a formula."""
    if t.op == 'b': return t.args[0]
    if t.op == 'c': return TRUE if t.args[0] else FALSE
    if t.op == 'case': return truth(t)
    return atom(t)

def rebuild(op, S, t):
    a = t.args
    if op in ('c', 'bv', 'bvc', 'this', 'p'): return t
    if op == 'byname': return mk_byname(S.term(a[0]), a[1], S.term(a[2]))[0]
    if op in ('first', 'find', 'erase1') and False: pass
    if op == 'b': return bterm(S.formula(a[0]))
    if op == 'fm': return fm(S.formula(a[0]))
    if op == 'addr': return mk_addr(S.term(a[0]))
    if op == 'eq': return mk('b', eq(S.term(a[0]), S.term(a[1])))
    if op == 'pos': return mk('b', lt(C(0), S.term(a[0])))
    if op == 'nn': return mk('b', nonnull(S.term(a[0])))
    if op == 'empty': return mk('b', lenform(S.term(a[0])))
    if op in ('gmap', 'mapc'):
        bs, g, kv = fresh_binders(a[1], a[2], a[3])
        h = 4000
        init = S.term(a[0])
        m2 = {}; out = []
        bs = [(v, S.term(c)) for v, c in bs]; g = S.formula(g); kv = S.term(kv)
        h = max([fdepth(g), depth_of(kv)] + [depth_of(c) for _, c in bs]) + 1
        for i, (v, c) in enumerate(bs):
            out.append((mk('bvc', h + i), Subst(m2).term(c) if m2 else c)); m2[v] = mk('bvc', h + i)
        S2 = Subst(m2)
        return mk(op, init, tuple(out), fm(S2.formula(g)), S2.term(kv))
    if op == 'has': return mk('b', has(S.term(a[0]), S.term(a[1])))
    if op == 'mget': return mget(S.term(a[0]), S.term(a[1]))
    if op in ('lbkey', 'lbval'): return mk_lb(op, S.term(a[0]), S.term(a[1]))
    if op == 'hasge': return mk('b', hasge(S.term(a[0]), S.term(a[1])))
    if op == 'poly':
        r = C(0)
        for mono, c in a:
            p = mk('c', c) if c.denominator != 1 else C(int(c))
            for x, e in mono:
                y = S.term(x)
                for _ in range(abs(e)): p = mul(p, y if e > 0 else inv(y))
            r = add(r, p)
        return r
    if op == 'inv': return inv(S.term(a[0]))
    if op == 'min': return mk_min(*[S.term(x) for x in a])
    if op == 'max': return mk_max(*[S.term(x) for x in a])
    if op == 'case': return mk_case([(S.formula(g.args[0]), S.term(v)) for v, g in a])
    if op == 'hasname':
        return mk('b', hasname(S.term(a[0]), a[1], S.term(a[2])))
    if op == 'f': return mk_field(S.term(a[0]), a[1])
    if op == 'd': return mk_deref(S.term(a[0]))
    if op == 'ex':
        coll, body, h = a
        v = fresh_bv(coll)
        inner = Subst({mk('bvc', h): v}).formula(body.args[0])
        inner = S.formula(inner)
        return mk('b', exists_over(S.term(coll), v, inner))
    if op == 'size': return mk_size(S.term(a[0]))
    if op == 'ssize': return mk_ssize(S.term(a[0]))
    if op == 'idx': return mk_idx(S.term(a[0]), S.term(a[1]))
    if op == 'app':
        base, segs = a
        out = S.term(base)
        for bs, g, x in segs:
            fresh, m = [], {}
            for v, c in bs:
                c2 = S.term(Subst(m).term(c) if m else c); w = fresh_bv(c2); fresh.append((w, c2)); m[v] = w
            g2, x2 = g.args[0], x
            if m:
                s0 = Subst(m); g2 = s0.formula(g2); x2 = s0.term(x2)
            out = append_seg(out, fresh, S.formula(g2), S.term(x2))
        return out
    return mk(op, *[S.any(x) for x in a])

_bvn = [0]
BVCOLL = {}
def fresh_bv(coll):
    _bvn[0] += 1
    v = mk('bv', _bvn[0]); BVCOLL[v] = coll
    return v
def strip_path(x, path):
    for n in reversed(path):
        if x.op != 'f' or x.args[1] != n: return None
        x = x.args[0]
    return x
def get_path(x, path):
    for n in path: x = mk_field(x, n)
    return x
def ukey(x):
    """(element, key path, collection) if x is a unique key of a known element of a collection."""
    if x.op != 'f': return None
    for path in UNIQ:
        y = strip_path(x, path)
        if y is None: continue
        if y.op == 'byname': return y, path, y.args[0]
        if y.op == 'bv' and y in BVCOLL: return y, path, BVCOLL[y]
    return None
def mk_byname(coll, path, y):
    """(element of coll whose key is y, formula that there is one)."""
    k = ukey(y)
    if k is not None and k[1] == path and k[2] is coll:
        return k[0], (TRUE if k[0].op == 'bv' else hasname(coll, k[0].args[1], k[0].args[2]))
    return mk('byname', coll, path, y), hasname(coll, path, y)

def one_point(v, f):
    """f determines the element: ('elem', k) if f => v == k, ('key', k) if f => v.first == k."""
    for t in support(f):
        if t.op != 'eq': continue
        a, b = t.args
        for x, y in ((a, b), (b, a)):
            if v in bvs(y): continue
            if x is v and B.implies(f, atom(t)): return 'elem', y
            if x.op == 'f' and x.args[0] is v and x.args[1] == 'first' and B.implies(f, atom(t)): return 'key', y
    return None

UNIQ = [('info', 'name'), ('c',)]        # unique keys of collection elements (established by the checks themselves)
def is_path(x, v, path):
    for n in reversed(path):
        if x.op != 'f' or x.args[1] != n: return False
        x = x.args[0]
    return x is v
def byname_path(b, n):
    """k if b.n is the key of an element found by key."""
    path = [n]; x = b
    while x.op == 'f': path.insert(0, x.args[1]); x = x.args[0]
    if x.op == 'byname' and tuple(path) == x.args[1]: return x.args[2]
    return None
def core_uniq(v, f, coll):
    """(element, membership formula) if f fixes a unique key of v."""
    if coll.op in ('app', 'case', 'arr', 'seq0', 'union', 'sorted', 'until'): return None
    for t in support(f):
        if t.op != 'eq': continue
        a, b = t.args
        for x, y in ((a, b), (b, a)):
            if v in bvs(y) or x.op != 'f': continue
            for path in UNIQ:
                if is_path(x, v, path) and B.implies(f, atom(t)):
                    return mk_byname(coll, path, y)
    k = one_point(v, f)
    if k is not None and k[0] == 'key': return mk('pair', k[1], mget(coll, k[1])), has(coll, k[1])
    return None

def hasname(coll, path, y):
    if coll.op in ('seq0', 'app', 'case', 'arr', 'union', 'sorted'):
        def fld(x):
            for n in path: x = mk_field(x, n)
            return x
        return seq_exists(coll, lambda x: eq(fld(x), y))
    k = ukey(y)
    if k is not None and k[1] == path and k[2] is coll:
        return TRUE if k[0].op == 'bv' else atom(mk('hasname', coll, k[0].args[1], k[0].args[2]))
    return atom(mk('hasname', coll, path, y))

def exists_over(coll, v, f):
    """exists v in coll. f   (v is a free 'bv'); miniscoped and renamed canonically."""
    if f == 0: return FALSE
    if INST: coll = elems(coll)
    if coll.op in ('seq0', 'app', 'case', 'arr', 'union', 'sorted', 'mset'):
        return seq_exists(coll, lambda x: Subst({v: x}).formula(f))
    if coll.op == 'gmap':
        bs, g, kv = fresh_binders(coll.args[1], coll.args[2], coll.args[3])
        r = AND(g, Subst({v: mk('pair', kv.args[0], mget(coll, kv.args[0]))}).formula(f))
        for w, c in reversed(bs): r = exists_over(c, w, r)
        return OR(exists_over(coll.args[0], v, f), r)
    u = core_uniq(v, f, coll)
    if u is not None: return AND(u[1], Subst({v: u[0]}).formula(f))
    k = one_point(v, f)
    if k is not None:
        t, val = k
        if t == 'elem': return AND(has(coll, val), Subst({v: val}).formula(f))
        return AND(has(coll, val), Subst({v: mk('pair', val, mget(coll, val))}).formula(f))
    memo = {}
    def go(g):
        if g == 0: return FALSE
        if g == 1: return NOT(lenform(coll))
        r = memo.get(g)
        if r is not None: return r
        ind = [t for t in support(g) if v not in bvs(t)]
        if ind:
            t = ind[0]
            r = ITE(atom(t), go(restrict(g, t, True)), go(restrict(g, t, False)))
        else:
            h = 1 + max(fdepth(g), 0)
            r = atom(mk('ex', coll, fm(Subst({v: mk('bvc', h)}).formula(g)), h))
        memo[g] = r
        return r
    return go(f)

def seg_exists(segs, fn):
    r = FALSE
    for bs, g, x in segs:
        m, fresh = {}, []
        for v, c in bs:
            c2 = Subst(m).term(c) if m else c
            w = fresh_bv(c2); fresh.append((w, c2)); m[v] = w
        s = Subst(m)
        f = AND(s.formula(g.args[0]), fn(s.term(x)))
        for w, c in reversed(fresh): f = exists_over(c, w, f)
        r = OR(r, f)
    return r

def seq_exists(s, fn):
    """Formula: some element x of sequence s satisfies fn(x)."""
    if s.op == 'seq0': return FALSE
    if s.op == 'app': return OR(seq_exists(s.args[0], fn), seg_exists(s.args[1], fn))
    if s.op == 'case': return OR(*[AND(g.args[0], seq_exists(v, fn)) for v, g in s.args])
    if s.op == 'arr': return OR(*[fn(x) for x in s.args])
    if s.op == 'union': return OR(*[seq_exists(x, fn) for x in s.args])
    if s.op == 'sorted': return seq_exists(s.args[0], fn)
    v = fresh_bv(s)
    return exists_over(s, v, fn(v))

def append_seg(base, binders, g, x):
    """base ++ [x | binders, g] with canonical binder names; binders: [(bv, coll)]."""
    if g == 0: return base
    for i, (v, c) in enumerate(binders):
        if INST:
            e = elems(c)
            if e.op == 'app' and e.args[0].op == 'seq0' and all(not bs for bs, _, _ in e.args[1]):
                for _, h, y in e.args[1]:
                    S = Subst({v: y})
                    base = append_seg(base, [(w, S.term(d)) for w, d in binders[:i] + binders[i + 1:]], AND(h.args[0], S.formula(g)), S.term(x))
                return base
        u = core_uniq(v, g, c)
        if u is not None:
            S = Subst({v: u[0]})
            return append_seg(base, [(w, S.term(d)) for w, d in binders[:i] + binders[i + 1:]], AND(S.formula(g), u[1]), S.term(x))
    h = max([fdepth(g), depth_of(x)] + [depth_of(c) for _, c in binders])
    m, bs = {}, []
    for i, (v, c) in enumerate(binders):
        m[v] = mk('bvc', h + len(binders) - i)
    s = Subst(m) if m else None
    for v, c in binders: bs.append((m[v], s.term(c)))
    if g == 1 and len(bs) == 1 and base.op == 'seq0' and (s.term(x) if s else x) is bs[0][0] and bs[0][1].op != 'chain': return bs[0][1]
    seg = (tuple(bs), fm(s.formula(g) if s else g), s.term(x) if s else x)
    if base.op == 'app':
        b0, segs = base.args
        return mk('app', b0, segs + (seg,))
    return mk('app', base, (seg,))

def _seqjoin(f, x, g, y):
    """Join of two sequences that share a prefix: push the guards into the segments."""
    def split(t): return (t.args[0], t.args[1]) if t.op == 'app' else (t, ())
    if not (x.op == 'app' or y.op == 'app'): return None
    bx, sx = split(x); by, sy = split(y)
    if bx is not by: return None
    n = 0
    while n < len(sx) and n < len(sy) and sx[n] == sy[n]: n += 1
    out = mk('app', bx, sx[:n]) if n else bx
    res = list(sx[:n])
    for c, ss in ((f, sx[n:]), (g, sy[n:])):
        for bs, gg, e in ss:
            h = AND(c, gg.args[0])
            if h: res.append((bs, fm(h), e))
    return mk('app', bx, tuple(res)) if res else bx

def mk_size(s):
    if INST and s in KIND:
        e = atom(mk('empty', s)); o = atom(mk('single', s))
        return mk_case([(e, C(0)), (AND(NOT(e), o), C(1)), (AND(NOT(e), NOT(o)), C(2))])
    if INST and s.op == 'app' and s.args[0].op == 'seq0' and all(not bs for bs, _, _ in s.args[1]) and len(s.args[1]) <= 8:
        n = C(0)
        for _, g, _ in s.args[1]: n = add(n, mk_ite(g.args[0], C(1), C(0)))
        return n
    if s.op == 'seq0': return C(0)
    if s.op == 'arr': return C(len(s.args))
    if s.op == 'fill': return s.args[0]
    if s.op == 'updlast': return mk_size(s.args[0])
    if s.op == 'elw' and len(s.args) == 2: return mk_size(s.args[1])
    if s.op == 'resized': return s.args[1]
    if s.op == 'c' and isinstance(s.args[0], str): return C(len(s.args[0]))
    if s.op == 'sorted': return mk_size(s.args[0])
    if s.op == 'case': return mk_case([(g.args[0], mk_size(v)) for v, g in s.args])
    if s.op == 'app' and all(not bs and g.args[0] == 1 for bs, g, x in s.args[1]):
        return add(mk_size(s.args[0]), C(len(s.args[1])))
    if s.op == 'app' and any(x is not C1 for _, _, x in s.args[1]):
        # which elements are appended does not matter, only how many
        b = s.args[0]
        for bs, g, x in s.args[1]: b = append_seg(b, bs, g.args[0], C1)
        return mk_size(b)
    return mk('size', s)

C1 = C(1)
def mk_ssize(s):
    """Size of a set: depends on which elements coincide."""
    if s.op == 'seq0': return C(0)
    if s.op == 'case': return mk_case([(g.args[0], mk_ssize(v)) for v, g in s.args])
    return mk('ssize', s)

def inst_idx(c, i):
    if i.args[0] == 'back' and c in KIND: return mk_case([(atom(mk('single', c)), mk('idx', c, C(0))), (NOT(atom(mk('single', c))), mk('idx', c, C(1)))])
    if c.op != 'app' or c.args[0].op != 'seq0' or any(bs for bs, _, _ in c.args[1]) or len(c.args[1]) > 8: return None
    segs = [(g.args[0], x) for _, g, x in c.args[1]]
    if i.args[0] == 'back': segs.reverse()
    k = 0 if i.args[0] == 'back' else i.args[0]
    if not isinstance(k, int) or isinstance(k, bool) or k < 0: return None
    cnt = {0: TRUE}; out = []           # cnt[n]: exactly n of the elements so far are present
    for g, x in segs:
        out.append((AND(g, cnt.get(k, FALSE)), x))
        nc = {}
        for n, f in cnt.items():
            nc[n] = OR(nc.get(n, FALSE), AND(f, NOT(g))); nc[n + 1] = OR(nc.get(n + 1, FALSE), AND(f, g))
        cnt = nc
    out = [(f, x) for f, x in out if f != 0]
    if not out: return None
    rest = NOT(OR(*[f for f, _ in out]))
    return mk_case(out[:-1] + [(OR(out[-1][0], rest), out[-1][1])])
def mk_idx(c, i):
    if c.op == 'arr' and is_num(i) and 0 <= num(i) < len(c.args): return c.args[int(num(i))]
    if c.op == 'fill': return c.args[1]
    if c.op == 'concat' and is_num(i) and num(i) == -1 and c.args[-1].op == 'c' and c.args[-1].args[0]: return C(c.args[-1].args[0][-1])
    if i.op == 'ix' and i.args[1] is c: return i.args[0]
    if c.op == 'case' and is_num(i) and all(v.op == 'arr' and 0 <= num(i) < len(v.args) for v, _ in c.args): return mk_case([(g.args[0], mk_idx(v, i)) for v, g in c.args])
    if i.op == 'case' and len(i.args) <= 4 and all(is_num(v) for v, _ in i.args): return mk_case([(g.args[0], mk_idx(c, v)) for v, g in i.args])
    if INST and i.op == 'c':
        r = inst_idx(c, i)
        if r is not None: return r
    if i.op == 'c' and i.args[0] == 'back':
        if c.op == 'app' and not c.args[1][-1][0] and c.args[1][-1][1].args[0] == 1: return c.args[1][-1][2]
        if c.op == 'arr' and c.args: return c.args[-1]
        if c.op == 'updlast': return c.args[1]
    if c.op == 'app' and is_num(i) and c.args[0].op == 'seq0' and all(not bs and g.args[0] == 1 for bs, g, x in c.args[1]) and 0 <= num(i) < len(c.args[1]):
        return c.args[1][int(num(i))][2]
    return mk('idx', c, i)

def mk_deref(p):
    if INST and p.op == 'find' and not isinstance(p.args[3], T):
        h = mk('bvc', p.args[3]); r = first_of(p.args[0], lambda x: Subst({h: x}).formula(p.args[1].args[0]))
        if r is not None: return r
    if p.op == 'addr': return p.args[0]
    if p.op == 'iter': return p.args[0]
    if p.op == 'find': return p.args[3] if isinstance(p.args[3], T) else mk('first', p.args[0], p.args[1], p.args[3])
    if p.op == 'mfind': return mk('pair', p.args[1], mget(p.args[0], p.args[1]))
    if p.op == 'beg': return mk_idx(p.args[0], C(0))
    if p.op == 'case': return mk_case([(g.args[0], mk_deref(v)) for v, g in p.args])
    return mk('d', p)

REC = {}
def mk_field(b, n):
    if UNIQ:
        k = byname_path(b, n)
        if k is not None: return k
    if b.op == 'obj':
        for k, v in b.args[1:]:
            if k == n: return v
        return mk_field(b.args[0], n)
    if b.op == 'pair':
        if n == 'first': return b.args[0]
        if n == 'second': return b.args[1]
    if b.op == 'case': return mk_case([(g.args[0], mk_field(v, n)) for v, g in b.args])
    if b.op == 'new0':
        rec = REC.get(b.args[0])
        if rec:
            for f in rec['fields']:
                if f['n'] == n:
                    if 'i' in f and f['i'] is not None:
                        v = const_expr(f['i'])
                        if v is not None: return v
                    return default_value(f['t'])
    return mk('f', b, n)

def const_expr(e):
    if e is None: return None
    k = e.get('k')
    if k == 'lit': return C(e['v'])
    if k == 'null': return NULL
    if k == 'init':
        if len(e['a']) == 1: return const_expr(e['a'][0])
        if not e['a']: return zero_value(e.get('t', ''))
    if k == 'un' and e['op'] == '-':
        v = const_expr(e['a']); return neg(v) if v is not None else None
    if k == 'ref' and e.get('d') == 'enum': return mk('c', ('enum', e['q'], e['v']))
    if k == 'ref' and e.get('d') == 'global':
        if 'init' in e: return const_expr(e['init'])
        return mk('glob', e['q'])
    if k in ('copy',): return const_expr(e['a'])
    if k == 'tobool':
        v = const_expr(e['a'])
        return C(bool(v.args[0])) if v is not None and v.op == 'c' and isinstance(v.args[0], (int, float, Fraction)) else None
    if k == 'zero': return zero_value(e['t'])
    if k == 'ctor' and not e['a']: return default_value(e['t'])
    return None

def default_value(t):
    t = t or ''
    if t.startswith('const '): t = t[6:]
    if is_container(t): return SEQ0
    if STR_RE.match(t): return EMPTY_STR
    if PTR_RE.match(t): return NULL
    if t in REC: return mk('new0', t)
    if t in ('double', 'float', 'int', 'unsigned int', 'long', 'unsigned long', 'bool', 'unsigned char', 'char') or t.endswith('*'):
        return mk('undef', t)
    return mk('new0', t)

def zero_value(t):
    if t.endswith('*'): return NULL
    if t == 'bool': return FALSE_T
    if t in ('double', 'float', 'int', 'unsigned int', 'long', 'unsigned long', 'unsigned char', 'char'): return C(0)
    return default_value(t)
