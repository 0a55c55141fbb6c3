"""Normal-form comparison of two summaries of a function: the repository's and the reference's.

Two values / guards / effects differ only if their normal forms differ on a part of the state space
that is not excluded by the axioms in `axioms` (order, emptiness, membership...).  A difference that
involves a construct the evaluator could not normalise is "undecided" and never reported.
"""
from .core import *
from .core import _polyd
from . import bdd as B
from . import pwl, core
from .ev import subterms, root_of, Ev, mk_obj, parent_loc
from .rules import uniq_point

SOFT = {'unk', 'phi', 'fold', 'acc', 'removed', 'inserted', 'erased', 'erase1', 'popped', 'without', 'next', 'prev', 'iter', 'iteri', 'iter+', 'last', 'mapc', 'sorted', 'union',
        'firstn', 'first', 'find', 'until', 'elw', 'tmp', 'var', 'lambda', 'strctor', 'ctor', 'resized', 'undef', 'end', 'beg', 'rbegin', 'rend', 'chain', 'pos_of', 'ix', 'excobj', 'trunc', 'trylock', 'inserter', 'indirect', 'tuple', 'dyncast'}
HARD_IMPRECISE = {'unk', 'phi', 'acc', 'tmp', 'var', 'fold', 'lambda', 'elw'}

def plain_name(n):
    out = []; d = 0
    for c in n:
        if c == '<': d += 1
        elif c == '>': d -= 1
        elif d == 0: out.append(c)
    return ''.join(out)

class Mismatch:
    def __init__(self, kind, what, d, got, want, where): self.kind = kind; self.what = what; self.d = d; self.got = got; self.want = want; self.where = where
    def __repr__(self): return '%s: %s %s got %s want %s when %s' % (self.where, self.kind, self.what, self.got, self.want, self.cube())
    cubef = None
    def cube(self): return showf(self.d if self.cubef is None else self.cubef, 1)

class Comparer:
    def __init__(self, known_fields=None, known_fns=None, assume=TRUE):
        self.kf = known_fields; self.kn = known_fns; self.assume = assume
        self._imp = {}; self._df = {}; self._same = {}; self._own = {}; self._exb = {}; self.toolarge = []; self.soft = 0
    # ------------------------------------------------ imprecision
    def imprecise(self, t):
        r = self._imp.get(t)
        if r is None:
            r = False
            for x in subterms(t):
                if x.op in HARD_IMPRECISE: r = True; break
                if x.op == 'eq' and any(y.op in ('mset', 'gmap') for y in x.args): r = True; break
                if x.op == 'f' and self.kf is not None and x.args[1] not in self.kf: r = True; break
                if x.op in ('call', 'vcall') and self.kn is not None and isinstance(x.args[0], str) and not self.known_call(x.args[0]): r = True; break
            self._imp[t] = r
        return r
    def known_call(self, fn):
        return fn in self.kn or fn in ('isnan', 'isfinite', 'isinf', 'signbit', 'try_lock') or '<' in fn and plain_name(fn) in self.kn
    def fimprecise(self, f): return any(self.imprecise(a) for a in support(f))

    # ------------------------------------------------ value difference
    def diff(self, a, b):
        """Formula under which a and b are certainly written differently (soft differences excluded)."""
        if a is b: return FALSE
        k = (a, b)
        r = self._df.get(k)
        if r is None:
            self._df[k] = TRUE      # recursion guard
            r = self._df[k] = self._diff(a, b)
        return r
    def _diff(self, a, b):
        if a is None or b is None: return TRUE
        if (pwl.piecewise(a) or pwl.piecewise(b)) and not self.imprecise(a) and not self.imprecise(b):
            d = pwl.value_diff(a, b)
            if d is not None: return d
            self.toolarge.append(show(a)[:80]); return FALSE
        if a is not b and (self.ismap(a) or self.ismap(b)):
            d = self.mapdiff(a, b)
            if d is not None: return d
        if a.op == 'case' or b.op == 'case':
            d = FALSE
            for f, x in leaves(a):
                for g, y in leaves(b):
                    h = AND(f, g)
                    if h != 0: d = OR(d, AND(h, self.diff(x, y)))
            return d
        if is_boolt(a) or is_boolt(b):
            if a.op in ('b', 'c') and b.op in ('b', 'c') or is_boolt(a) and b.op in ('call', 'f', 'p', 'vcall', 'out', 'mget') or is_boolt(b) and a.op in ('call', 'f', 'p', 'vcall', 'out', 'mget'):
                return self.fdiff(truth(a), truth(b))
            if self.imprecise(a) or self.imprecise(b): self.soft += 1; return FALSE
        if a.op == 'fm' and b.op == 'fm': return self.fdiff(a.args[0], b.args[0])
        if a.op == 'obj' or b.op == 'obj' or a.op == 'new0' and b.op == 'pair' or a.op == 'pair' and b.op == 'pair':
            ks = {k for t in (a, b) if t.op == 'obj' for k, _ in t.args[1:]} | ({'first', 'second'} if 'pair' in (a.op, b.op) else set())
            d = FALSE
            ba = a.args[0] if a.op == 'obj' else a; bb = b.args[0] if b.op == 'obj' else b
            if ba is not bb and not ('pair' in (ba.op, bb.op)) and not self.covered(a, b):
                d = self.diff(ba, bb)
            for k in ks:
                if not isinstance(k, str): 
                    return FALSE
                if self.kf is not None and k not in self.kf and k not in ('first', 'second'): continue
                d = OR(d, self.diff(mk_field(a, k), mk_field(b, k)))
            return d
        if self.imprecise(a) or self.imprecise(b): self.soft += 1; return FALSE
        if a.op == 'toset' and b.op == 'toset':
            A, B = a.args[0], b.args[0]
            return self.harden(OR(seq_exists(A, lambda x: NOT(has(B, x))), seq_exists(B, lambda x: NOT(has(A, x)))))
        if a.op == b.op == 'tuple' and len(a.args) == len(b.args):
            return OR(*[self.diff(x, y) for x, y in zip(a.args, b.args)])
        if a.op == 'app' or b.op == 'app':
            return self.seqdiff(a, b)
        if a.op == b.op and len(a.args) == len(b.args) and a.op in ('f', 'd', 'idx', 'call', 'vcall', 'out', 'mget', 'pair', 'size', 'ssize', 'inv', 'concat', 'arr', 'fill', 'min', 'max', 'addr', 'first', 'find', 'last', 'byname', 'mset', 'merase', 'iter', 'ctor', 'count', 'until', 'dyncast', 'union', 'sorted', 'trunc', 'obj', 'strctor', 'without', 'mod', 'idiv', 'n', 'excobj', 'mfind', 'ix', 'next', 'erase1', 'resized', 'mval'):
            if a.op in ('call', 'vcall') and a.args[0] != b.args[0]: return TRUE
            if a.op in ('f',) and a.args[1] != b.args[1]: return TRUE
            d = FALSE; any_ = False
            for x, y in zip(a.args, b.args):
                if isinstance(x, T) and isinstance(y, T):
                    d = OR(d, self.diff(x, y))
                elif isinstance(x, T) or isinstance(y, T): d = TRUE
                elif x != y:
                    if a.op in ('first', 'find', 'last', 'erase1') and isinstance(x, int): continue
                    d = TRUE
            return d
        if a.op == 'c' and b.op == 'c':
            return TRUE
        for x, y in ((a, b), (b, a)):
            if x.op == 'until' and y.op != 'until' and x.args[0] is y:
                # a proper prefix as soon as some element ends the loop
                v = fresh_bv(y)
                return self.harden(exists_over(y, v, Subst({mk('bvc', x.args[2]): v}).formula(x.args[1].args[0])))
        if self.positions(a, b): return TRUE
        if a.op in SOFT or b.op in SOFT or self.hassoft(a) or self.hassoft(b): self.soft += 1; return FALSE
        # numeric values that may coincide
        return TRUE
    def positions(self, a, b):
        """Two positions computed from the position of the same element, plainly different."""
        def ok(t):
            if t.op == 'ix': return True
            return t.op == 'poly' and all(x.op in ('ix', 'size', 'ssize') for m, _ in t.args for x, _ in m)
        if not (ok(a) or a.op == 'c') or not (ok(b) or b.op == 'c') or a.op == 'c' and b.op == 'c': return False
        ps = [{x for x in subterms(t) if x.op == 'ix'} for t in (a, b)]
        return len(ps[0]) == 1 and ps[0] == ps[1]
    def ismap(self, t): return t.op == 'mset' or t.op == 'case' and any(self.ismap(v) for v, _ in t.args)
    def mapdiff(self, a, b):
        """Two maps written key by key: they differ where what they started from differs, or what is at a written key."""
        keys = []
        def bases(t, g):
            if t.op == 'case': return [x for v, h in t.args for x in bases(v, AND(g, h.args[0]))]
            if t.op == 'mset':
                if t.args[1] not in keys: keys.append(t.args[1])
                return bases(t.args[0], g)
            return [(g, t)]
        ba, bb = bases(a, TRUE), bases(b, TRUE)
        if len(keys) > 12: return None
        d = FALSE
        for f, x in ba:
            for g, y in bb:
                h = AND(f, g)
                if h != 0 and x is not y: d = OR(d, AND(h, self.diff(x, y)))
        for k in keys:
            p, q = has(a, k), has(b, k)
            d = OR(d, self.fdiff(p, q))
            if p != 0 and q != 0: d = OR(d, AND(p, q, self.diff(mget(a, k), mget(b, k))))
        return d
    def covered(self, a, b):
        """Both objects of one class with every field written: what they started from does not matter."""
        if not (a.op == 'obj' and b.op == 'obj'): return False
        for x in (a, b):
            t = x.args[0]
            if t.op in ('new0', 'ctor') and isinstance(t.args[0], str):
                rec = REC.get(t.args[0])
                if rec and not rec.get('bases'):
                    n = {f['n'] for f in rec['fields']}
                    return n <= {k for k, _ in a.args[1:]} and n <= {k for k, _ in b.args[1:]}
        return False
    def hassoft(self, t):
        return any(x.op in ('removed', 'inserted', 'erased', 'popped', 'sorted', 'resized', 'strctor', 'lambda', 'mapc', 'elw') for x in subterms(t))
    def fdiff(self, f, g):
        """Where two formulas differ, whatever the undecided atoms are."""
        if f == g: return FALSE
        d = OR(AND(f, NOT(g)), AND(NOT(f), g))
        g2 = self.unify(f, g)
        if g2 != g: d = OR(AND(f, NOT(g2)), AND(NOT(f), g2))
        # atoms paired up by structure: an atom of one side whose counterpart only differs softly
        return self.harden(d)
    def unify(self, f, g):
        """g with the atoms that say the same as an atom of f, written differently, replaced by it."""
        sf, sg = set(support(f)), set(support(g))
        tf, tg = sorted(sf - sg), sorted(sg - sf)
        if not tf or not tg or len(tf) * len(tg) > 100: return g
        for u in tg:
            for t in tf:
                if t.op == u.op and len(t.args) == len(u.args) and self.same(t, u):
                    g = map_atoms(g, lambda a: atom(t) if a is u else atom(a)); break
        return g
    def same(self, t, u):
        k = (t, u); r = self._same.get(k)
        if r is None:
            self._same[k] = False; r = self._same[k] = self._samev(t, u)
        return r
    def _samev(self, t, u):
        if t.op in ('ex', 'first'):
            if self.imprecise(t) or self.imprecise(u): return False
            f, g = t.args[1].args[0], u.args[1].args[0]
            if t.args[2] != u.args[2]: g = Subst({mk('bvc', u.args[2]): mk('bvc', t.args[2])}).formula(g)
            return self.alike(t.args[0], u.args[0]) and self.real(self.fdiff(f, g)) == 0
        if t.op not in ('call', 'vcall', 'has', 'empty', 'mget', 'size', 'out'): return False
        return all(self.alike(x, y) for x, y in zip(t.args, u.args))
    def alike(self, x, y):
        if x is y or not isinstance(x, T) and x == y: return True
        if not isinstance(x, T) or not isinstance(y, T): return False
        if self.imprecise(x) or self.imprecise(y) or any(a.op in SOFT for a in subterms(x)) or any(a.op in SOFT for a in subterms(y)): return False
        return self.real(self.diff(x, y)) == 0
    def harden(self, d):
        for t in support(d):
            if self.imprecise(t): self.soft += 1; d = AND(restrict(d, t, False), restrict(d, t, True))
        return d
    def seqdiff(self, a, b):
        def split(t):
            if t.op == 'app': return t.args[0], list(t.args[1])
            if t.op == 'arr': return SEQ0, [((), fm(TRUE), x) for x in t.args]
            return t, []
        ba, sa = split(a); bb, sb = split(b)
        d = self.diff(ba, bb) if ba is not bb else FALSE
        if ba is not bb and not sa and not sb: return d
        def merge(ss):
            out = []
            for bs, g, x in ss:
                if out and out[-1][0] == bs and out[-1][2] is x: out[-1] = (bs, OR(out[-1][1], g.args[0]), x)
                else: out.append((bs, g.args[0], x))
            return out
        sa, sb = merge(expand_segs(sa)), merge(expand_segs(sb))
        if sa == sb: return d
        if [(s[0], s[2]) for s in sa] == [(s[0], s[2]) for s in sb]:
            for x, y in zip(sa, sb): d = OR(d, self.seg_close(x[0], self.fdiff(x[1], y[1])))
            return d
        # as sets of guarded elements
        for P, Q in ((sa, sb), (sb, sa)):
            for bs, g, x in P:
                if bs: bs, g, x = self.named(bs, g, x)      # names of their own: segments nest
                rest = g
                for cs, h, y in Q:
                    m = self.same_binders(bs, cs)
                    if m is None: continue
                    S = Subst(m) if m else None
                    h2 = S.formula(h) if S else h; y2 = S.term(y) if S else y
                    rest = AND(rest, NOT(AND(h2, NOT(self.diff(x, y2)))))
                    if rest == 0: break
                rest = self.harden(rest)
                if rest != 0: d = OR(d, self.seg_close(bs, rest))
        if d == 0:
            # same members; the order differs
            if [s[2] for s in sa] != [s[2] for s in sb] and all(not s[0] for s in sa + sb) and len(sa) == len(sb): return AND(*[s[1] for s in sa + sb])
        return d
    def named(self, bs, g, x):
        m, out = {}, []
        for v, c in bs:
            c2 = Subst(m).term(c) if m else c
            w = self._own.get((v, c2))
            if w is None: w = self._own[(v, c2)] = fresh_bv(c2)
            out.append((w, c2)); m[v] = w
        S = Subst(m)
        return out, S.formula(g), S.term(x)
    def seg_close(self, bs, f):
        if f == 0: return FALSE
        if not bs: return f
        # keep the element variables of the binders as a witness (satisfiability only)
        return AND(f, *[NOT(lenform(c)) for _, c in bs])
    def same_binders(self, bs, cs):
        if len(bs) != len(cs): return None
        m = {}
        for (v, c), (w, e) in zip(bs, cs):
            e2 = Subst(m).term(e) if m else e
            if c is not e2 and self.diff(c, e2) != 0: return None
            if v is not w: m[w] = v
        return m

    # ------------------------------------------------ axioms
    def care(self, D, hint=()):
        """What holds of the atoms of D whatever the program does."""
        at = list(support(D))
        if len(at) > 120: at = at[:120]
        L = [self.assume]; ax = L.append
        n = len(at)
        pos = [t for t in at if t.op == 'pos']; eqs = [t for t in at if t.op == 'eq']
        byl = {}
        for t in eqs:
            x, y = t.args
            for u, w in ((x, y), (y, x)):
                byl.setdefault(u, []).append((w, t))
        for u, l in byl.items():
            cs = [(w, t) for w, t in l if w.op == 'c']
            for i in range(len(cs)):
                for j in range(i):
                    if cs[i][0] is not cs[j][0]: ax(NOT(AND(atom(cs[i][1]), atom(cs[j][1]))))
            # transitivity
            for i in range(len(l)):
                for j in range(i):
                    e = eq(l[i][0], l[j][0])
                    if e in (0, 1) or B.single(e) and B.single(e)[0] in at:
                        ax(B.IMP(AND(atom(l[i][1]), atom(l[j][1])), e))
        # order
        lin = [(t, dict(_polyd(t.args[0]))) for t in pos]
        for i, (t, p) in enumerate(lin):
            x = t.args[0]
            e, l = eq(x, C(0)), lt(x, C(0))
            ax(AND(NOT(AND(atom(t), e)), NOT(AND(atom(t), l))))
            if self.known(e, at) and self.known(l, at): ax(OR(atom(t), e, l))
            elif B.single(l) and B.single(l)[0] in at or B.single(e) and B.single(e)[0] in at: pass
            for j, (u, q) in enumerate(lin):
                if i == j: continue
                # scale q's non-constant part onto p's
                r = self.offset(p, q)
                if r is not None:
                    sgn, k = r      # q = sgn*p' + ...: p - q = k  (sgn=1)   or p + q = k (sgn=-1)
                    if sgn == 1:
                        if k >= 0: ax(B.IMP(atom(u), atom(t)))
                    else:
                        if k <= 0: ax(NOT(AND(atom(t), atom(u))))
            for u in eqs:
                q = self.eqpoly(u)
                if q is None: continue
                r = self.offset(p, q)
                if r is None: continue
                sgn, k = r
                # q = 0 => p = k (sgn 1 : p - q = k) ; (sgn -1 : p + q = k => p = k)
                ax(B.IMP(atom(u), atom(t) if k > 0 else NOT(atom(t))))
        # sizes are whole numbers >= 0
        sz = {}
        for t, p in lin:
            ms = [m for m in p if m != ()]
            if len(ms) == 1 and len(ms[0]) == 1 and ms[0][0][1] == 1 and ms[0][0][0].op == 'size':
                sz.setdefault(ms[0][0][0], []).append((t, lambda n, p=p, m=ms[0]: p[m] * n + p.get((), 0) > 0, abs(p.get((), 0) / p[ms[0]])))
        for u, l in byl.items():
            if u.op == 'size':
                for w, t in l:
                    if is_num(w): sz.setdefault(u, []).append((t, lambda n, w=w: num(w) == n, abs(num(w))))
        for u, l in sz.items():
            top = int(max(b for _, _, b in l)) + 2
            if top > 12: continue
            e0 = lenform(u.args[0])
            ax(OR(*[AND(*[atom(t) if f(n) else NOT(atom(t)) for t, f, _ in l], *([e0 if n == 0 else NOT(e0)] if not any(x.op in ('app',) for x in (u.args[0],)) or set(support(e0)) <= set(at) else [])) for n in range(top + 1)]))
        # chains of three
        if len(lin) <= 24:
            for i, (t, p) in enumerate(lin):
                for j, (u, q) in enumerate(lin):
                    if j <= i: continue
                    s = {}
                    for d in (p, q):
                        for m, k in d.items(): s[m] = s.get(m, 0) + k
                    s = {m: k for m, k in s.items() if k}
                    from .core import _mkpoly
                    if not s: continue
                    x = _mkpoly(s)
                    f = lt(C(0), x)
                    if f == 0: ax(NOT(AND(atom(t), atom(u))))
                    elif f != 1 and B.single(f)[0] in at: ax(B.IMP(AND(atom(t), atom(u)), f))
        if core.INST:       # the keys of a map and the elements of a set are distinct
            for t in eqs:
                for m in {x.args[0] for x in subterms(t) if x.op == 'idx' and core.KIND.get(x.args[0]) in ('map', 'set')}:
                    p, q = [mk_field(mk('idx', m, C(i)), 'first') if core.KIND[m] == 'map' else mk('idx', m, C(i)) for i in (0, 1)]
                    if B.single(eq(p, q)) and B.single(eq(p, q))[0] is t: ax(NOT(atom(t)))
        # emptiness, membership and quantifiers
        exs = [t for t in at if t.op == 'ex']
        for t in exs:
            ax(B.IMP(atom(t), NOT(lenform(t.args[0]))))
            for u in exs:
                if u is t or u.args[0] is not t.args[0]: continue
                v = mk('bvc', 3000)
                f = Subst({mk('bvc', t.args[2]): v}).formula(t.args[1].args[0]); g = Subst({mk('bvc', u.args[2]): v}).formula(u.args[1].args[0])
                if implies(f, g): ax(B.IMP(atom(t), atom(u)))
                # ex f and not ex (f & g) ... : splits
                h = AND(f, g)
        for t in at:
            if t.op == 'has':
                ax(B.IMP(atom(t), NOT(lenform(t.args[0]))))
                for n in range(1, 5):
                    e = eq(mk_size(t.args[0]), C(n))
                    if e == 0 or not self.known(e, at): continue
                    es = [eq(mk_idx(t.args[0], C(i)), t.args[1]) for i in range(n)]      # a sequence of n elements
                    if not any(self.known(x, at) for x in es): continue
                    f = OR(*es); ax(B.IMP(e, OR(AND(atom(t), f), AND(NOT(atom(t)), NOT(f)))))
        firsts = set()
        for t in at:
            for x in subterms(t):
                if x.op == 'first' or x.op == 'find' and not isinstance(x.args[3], T): firsts.add(x)
        for x in firsts:
            coll = x.args[0]; h = x.args[2] if x.op == 'first' else x.args[3]
            el = x if x.op == 'first' else mk_deref(x)
            body = x.args[1].args[0]
            f = Subst({mk('bvc', h): el}).formula(body)
            v = fresh_bv(coll)
            e = exists_over(coll, v, Subst({mk('bvc', h): v}).formula(body))
            ax(B.IMP(e, f))
        for x, coll in hint:
            if any(t.op == 'empty' and t.args[0] is coll for t in at): ax(NOT(lenform(coll)))
            for t in exs:
                if t.args[0] is coll:
                    f = Subst({mk('bvc', t.args[2]): x}).formula(t.args[1].args[0])
                    ax(B.IMP(f, atom(t)))
        return [x for x in L if x != 1]
    def known(self, f, at):
        s = B.single(f)
        return f in (0, 1) or (s and s[0] in at)
    def eqpoly(self, u):
        d = sub(u.args[0], u.args[1]) if all(x.op not in ('case',) for x in u.args) and not (u.args[1].op == 'c' and not is_num(u.args[1])) and not (u.args[0].op == 'c' and not is_num(u.args[0])) else None
        return dict(_polyd(d)) if d is not None else None
    def offset(self, p, q):
        """(1,k): p - s*q == k ;  (-1,k): p + s*q == k  for some s > 0."""
        np_ = {m: k for m, k in p.items() if m != ()}; nq = {m: k for m, k in q.items() if m != ()}
        if set(np_) != set(nq) or not np_: return None
        m0 = next(iter(np_)); s = np_[m0] / nq[m0]
        if any(np_[m] != s * nq[m] for m in np_): return None
        k = p.get((), 0) - s * q.get((), 0)
        return (1 if s > 0 else -1), k
    def model(self, D, L, rounds=2000):
        """A case of D that the axioms L and arithmetic allow; 0 if there is none (axioms are added as they are needed)."""
        L = list(L)
        for _ in range(rounds):
            if D == 0: return 0
            cube = B.path(D)
            asg = dict(cube)
            bad = []; part = []
            for x in L:
                y = B.cofactor(x, asg)
                if y == 0: bad.append(x)
                elif y != 1: part.append((x, y))
            if bad:
                bad = bad[:6]; D = AND(D, *bad); L = [x for x in L if x not in bad]; continue
            r = TRUE; used = []
            for x, y in part:
                r = AND(r, y); used.append((x, y))
                if r == 0: break
            if r == 0:
                k = len(used) - 1       # the last one is needed; drop the others one by one
                while k > 0:
                    k -= 1
                    rest = used[:k] + used[k + 1:]
                    if AND(*[y for _, y in rest]) == 0: used = rest
                us = [x for x, _ in used]
                D = AND(D, *us); L = [x for x in L if x not in us]; continue
            bad = self.quantified(asg)
            if bad is not None: D = AND(D, NOT(bad)); continue
            cf = TRUE
            for i, v in sorted(cube, reverse=True): cf = AND(atom(B._atoms[i]) if v else NOT(atom(B._atoms[i])), cf)
            M = AND(cf, r)
            if pwl.satisfiable(M): return M
            lits = [(B._atoms[i], v) for i, v in cube]
            core = pwl.conflict(lits)
            if core is not None: cf = AND(*[atom(t) if v else NOT(atom(t)) for t, v in core])
            D = AND(D, NOT(cf))
        return None
    def exbody(self, t):
        r = self._exb.get(t)
        if r is None:
            k = ('ex', t.args[0]); v = self._own.get(k)
            if v is None: v = self._own[k] = fresh_bv(t.args[0])
            r = self._exb[t] = Subst({mk('bvc', t.args[2]): v}).formula(t.args[1].args[0])
        return r
    def quantified(self, asg):
        """Some element satisfies f and none satisfies g1, g2..: f without them has to be possible.  What it contradicts, or None."""
        pos, neg = {}, {}
        for i, v in asg.items():
            t = B._atoms[i]
            if t.op == 'ex': (pos if v else neg).setdefault(t.args[0], []).append(t)
        for c, ts in pos.items():
            ns = neg.get(c, [])
            for t in ts:
                b = self.exbody(t)
                rest = AND(b, *[NOT(self.exbody(n)) for n in ns])
                lits = [(a, asg[B._atom_id[a]]) for a in support(rest) if B._atom_id[a] in asg]
                def lit(a, v): return atom(a) if v else NOT(atom(a))
                z = AND(rest, *[lit(a, v) for a, v in lits])
                if z == 0:
                    k = len(ns)
                    while k > 0:
                        k -= 1
                        r2 = ns[:k] + ns[k + 1:]
                        if AND(b, *[NOT(self.exbody(n)) for n in r2], *[lit(a, v) for a, v in lits]) == 0: ns = r2
                    k = len(lits)
                    while k > 0:
                        k -= 1
                        r2 = lits[:k] + lits[k + 1:]
                        if AND(b, *[NOT(self.exbody(n)) for n in ns], *[lit(a, v) for a, v in r2]) == 0: lits = r2
                elif not ns or self._depth > 3: continue
                else:
                    self._depth += 1
                    try: z = self.real(z)
                    finally: self._depth -= 1
                    if z != 0: continue
                return AND(atom(t), *[NOT(atom(n)) for n in ns], *[lit(a, v) for a, v in lits])
        return None
    _depth = 0; _merging = False
    def merged(self, D):
        """D with the searches that look for the same thing, written differently, made one."""
        self._merging = True
        try:
            for _ in range(8):
                by = {}
                for t in support(D):
                    for x in subterms(t):
                        if x.op == 'first' and len(x.args) >= 3 and isinstance(x.args[0], T): by.setdefault(x.args[0], set()).add(x)
                m = {}
                for c, xs in by.items():
                    xs = sorted(xs, key=lambda x: (len(subterms(x)), B._atom_id.get(x, 0), show(x)))
                    if len(xs) < 2 or len(xs) > 12: continue
                    reps = []
                    for x in xs:
                        for r in reps:
                            if self.same(r, x): m[x] = r; break
                        else: reps.append(x)
                if not m: return D
                E = Subst(m).formula(D)
                if E == D: return D
                D = E
            return D
        finally: self._merging = False
    def real(self, D, hint=()):
        """D minus what the axioms exclude (0 = no difference)."""
        if D == 0: return 0
        D = self.harden(D)
        if D == 0: return 0
        L = self.care(D, hint)
        n = pwl.EXHAUSTED
        M = self.model(D, L)
        if M == 0: return 0
        if not self._merging:
            E = self.merged(D)
            if E != D: return self.real(E, hint)
        if M is None:
            D = AND(D, *L)
            if D == 0 or not pwl.satisfiable(D): return 0
        else: D = M
        if pwl.EXHAUSTED != n: self.toolarge.append('difference too large to decide')
        return D

def expand_segs(ss):
    """Segments with gated elements become one segment per alternative."""
    out = []
    for bs, g, x in ss:
        for f, y in leaves(x):
            h = AND(g.args[0], f)
            if h: out.append((bs, fm(h), y))
    return out

# ---------------------------------------------------------------- effects
class Eff:
    __slots__ = ('kind', 'fn', 'obj', 'args', 'colls', 'guard', 'ev', 'val', 'loc', 'locks', 'hint', 'seq', 'elems')
    def payload(self): return (self.kind, self.fn, self.obj, self.args, self.loc, self.val) + tuple(self.colls)

def canon_event(e):
    m = {}; colls = []; hint = []
    guard = e.guard
    bs = [(b.v, b.coll, b.until) for b in e.binders]
    # an element determined by its key is not a loop any more
    keep = []
    for i, (v, c, u) in enumerate(bs):
        c2 = Subst(m).term(c) if m else c
        g = Subst(m).formula(guard) if m else guard
        k = uniq_point(v, g, c2)
        if k is not None and u in (0, ) or k is not None and implies(Subst(m).formula(u) if m else u, Subst(m).formula(u) if m else u) and k is not None:
            el, h = k
            m[v] = el; guard = AND(guard, h); continue
        if u and i == len(bs) - 1:
            u2 = Subst(m).formula(u) if m else u
            if implies(g, u2):
                from .ev import mk_first
                el = mk_first(c2, v, u2)
                guard = AND(guard, exists_over(c2, v, u2))
                m[v] = el; continue
        w = mk('bvc', 1000 + len(keep))
        if u:
            u2 = Subst(m).formula(u) if m else u
            cc = mk('until', c2, fm(Subst({v: mk('bvc', 2000 + len(keep))}).formula(u2)), 2000 + len(keep))
        else: cc = c2
        keep.append(cc); m[v] = w; hint.append((w, c2))
    S = Subst(m)
    x = Eff(); x.kind = e.kind; x.fn = e.fn; x.ev = e; x.colls = tuple(keep); x.guard = S.formula(guard); x.seq = e.seq
    x.obj = S.term(e.obj) if e.obj is not None else None
    x.args = tuple(S.term(a) for a in e.args) if e.args is not None else ()
    x.loc = S.term(e.loc) if e.loc is not None else None
    x.val = S.term(e.val) if isinstance(e.val, T) else None
    x.locks = e.locks; x.hint = tuple(hint)
    return x

def expand(x, limit=24):
    """Gated operands become one effect per alternative."""
    outs = [(x.guard, x.obj, x.args, x.loc, x.val)]
    def split(sel, put):
        nonlocal outs
        r = []
        for o in outs:
            v = sel(o)
            if v is None or v.op != 'case' or pwl.piecewise(v): r.append(o); continue
            for f, w in leaves(v):
                g = AND(o[0], f)
                if g: r.append(put((g,) + o[1:], w))
        if len(r) <= limit: outs = r
    split(lambda o: o[1], lambda o, w: (o[0], w, o[2], o[3], o[4]))
    for i in range(len(x.args)):
        split(lambda o: o[2][i], lambda o, w: (o[0], o[1], o[2][:i] + (w,) + o[2][i + 1:], o[3], o[4]))
    split(lambda o: o[3], lambda o, w: (o[0], o[1], o[2], w, o[4]))
    split(lambda o: o[4], lambda o, w: (o[0], o[1], o[2], o[3], w))
    res = []
    for g, obj, args, loc, val in outs:
        y = Eff(); y.kind = x.kind; y.fn = x.fn; y.ev = x.ev; y.colls = x.colls; y.guard = g; y.obj = obj; y.args = args; y.loc = loc; y.val = val; y.locks = x.locks; y.hint = x.hint; y.seq = x.seq
        res.append(y)
    return res

def effects(s, pred):
    out = []
    for e in s.events:
        if pred(e): out += expand(canon_event(e))
    return out

def merge_effs(es):
    d = {}
    for e in es:
        k = e.payload()
        if k in d: d[k].guard = OR(d[k].guard, e.guard)
        else: d[k] = e
    return list(d.values())

def eff_str(e):
    a = ', '.join(show(x)[:80] for x in e.args)
    if e.kind == 'call': return '%s%s(%s)' % ((show(e.obj)[:120] + '.') if e.obj is not None else '', e.fn.split('::')[-1], a)
    if e.kind in ('write', 'elwrite'): return '%s = %s' % (show(e.loc)[:120], show(e.val)[:160] if e.val is not None else '?')
    return '%s %s' % (e.kind, show(e.val)[:120] if e.val is not None else '')

# ---------------------------------------------------------------- whole functions
NOTES_OK = ('loop recurrence kept as a fold', 'function-local static')

class FnCompare:
    """One function: compares the chosen observables and collects mismatches."""
    def __init__(self, K, sr, ss):
        self.K = K; self.r = sr; self.s = ss; self.mism = []; self.undecided = []; self.n = 0
        for f, l, w in sr.notes:
            if w not in NOTES_OK and not any(w == w2 for _, _, w2 in ss.notes): self.undecided.append('%s:%s: %s' % (f, l, w))
        self.pre = list(self.undecided)         # constructs the evaluator does not model
    def where(self, line=None):
        f = self.r.fn
        return '%s:%s' % (f.get('file'), line or f.get('line'))
    def hit(self, kind, what, d, got, want, where=None, hint=()):
        self.n += 1
        c = self.K.real(d, hint)
        if c == 0: self.K.toolarge = []; return
        if self.K.toolarge: self.undecided.append('%s %s: %s' % (kind, what, self.K.toolarge[0])); self.K.toolarge = []
        if self.undecided: return
        m = Mismatch(kind, what, d, got, want, where or self.where()); m.cubef = c
        self.mism.append(m)
    def ret(self):
        K = self.K
        # pointer/reference results are compared through the store
        a, b = self.r.ret, self.s.ret
        lv = AND(self.r.live, self.s.live)
        if a is None and b is None: return
        if a is None or b is None:
            self.hit('return value', '', lv, show(a) if a else 'none', show(b) if b else 'none'); return
        if is_loc(a) : a = self.r.ev.rd(a, self.r.env)
        if is_loc(b) : b = self.s.ev.rd(b, self.s.env)
        d = AND(lv, K.diff(a, b))
        self.hit('return value', '', d, show(pick(a, d)), show(pick(b, d)), self.where(self.retline(d)))
    def retline(self, d):
        for g, v, l in self.r.rets:
            if AND(g, d) != 0: return l
    def completes(self):
        d = self.K.fdiff(self.r.live, self.s.live)
        self.hit('normal completion', '', d, showf(self.r.live, 2), showf(self.s.live, 2))
    def throws(self, types=True):
        def groups(s):
            g = {}
            for f, v, l in s.throws:
                k = v.args[0] if types and v is not None else 'exception'
                g[k] = OR(g.get(k, FALSE), f)
            return g
        a, b = groups(self.r), groups(self.s)
        for k in sorted(set(a) | set(b)):
            d = self.K.fdiff(a.get(k, FALSE), b.get(k, FALSE))
            ln = next((l for f, v, l in self.r.throws if AND(f, d) != 0), None)
            self.hit('exception', str(k), d, showf(a.get(k, FALSE), 2), showf(b.get(k, FALSE), 2), self.where(ln))
    def env(self, sel=None, skip=None):
        r, s = self.r, self.s
        keys = set()
        for x in (r, s):
            for L in x.env:
                if root_of(L).op in ('var', 'tmp', 'bv'): continue
                if bvs(L): continue
                keys.add(L)
        # compare at the outermost written location
        top = [L for L in keys if not any(Ev.under(L, P) for P in keys if P is not L)]
        for L in sorted(top):
            if self.K.imprecise(L): continue
            if sel and not sel(L): continue
            if skip and skip(L): continue
            a, b = r.ev.rd(L, r.env), s.ev.rd(L, s.env)
            d = AND(r.live, s.live, self.K.diff(a, b))
            if d == 0 and a is not b and any(x.op in ('elw', 'resized', 'fill') for t in (a, b) for _, x in leaves(t)):
                n, k = mk_size(a), mk_size(b)       # at least the number of elements is known
                if n is not k: d = AND(r.live, s.live, self.K.diff(n, k)); a, b = (n, k) if d != 0 else (a, b)
            w = None
            for e in r.events:
                if e.kind == 'write' and (e.loc is L or Ev.under(e.loc, L) or Ev.under(L, e.loc)): w = e
            self.hit('final value', show(L), d, show(pick(a, d))[:300], show(pick(b, d))[:300], w.where() if w is not None else None)
    def effects(self, pred, kinds='effect'):
        A, Bb = merge_effs(effects(self.r, pred)), merge_effs(effects(self.s, pred))
        K = self.K
        for P, Q, side in ((A, Bb, 0), (Bb, A, 1)):
            for e in P:
                rest = e.guard
                for f in Q:
                    if (e.kind, e.fn) != (f.kind, f.fn) or len(e.args) != len(f.args) or len(e.colls) != len(f.colls): continue
                    d = FALSE
                    for x, y in list(zip(e.colls, f.colls)) + [(e.obj, f.obj)] + list(zip(e.args, f.args)) + [(e.loc, f.loc), (e.val, f.val)]:
                        if x is y: continue
                        d = OR(d, K.diff(x, y))
                        if d == 1: break
                    rest = AND(rest, NOT(AND(f.guard, NOT(d))))
                    if rest == 0: break
                if rest == 0: self.n += 1; continue
                if any(K.imprecise(c) for c in e.colls) or any(K.imprecise(a) for a in e.args if a is not None) or e.obj is not None and K.imprecise(e.obj) or e.loc is not None and K.imprecise(e.loc) or e.val is not None and K.imprecise(e.val):
                    self.undecided.append('%s: %s' % (e.ev.where(), eff_str(e)[:120])); continue
                self.hit(kinds + (' not called for' if side == 0 else ' missing'), eff_str(e), rest, eff_str(e) if side == 0 else '-', eff_str(e) if side == 1 else '-', e.ev.where() if side == 0 else None, hint=e.hint)
        return len(A), len(Bb)

    def curlist(self):
        """The controller list that is current after the call."""
        vals = []
        for x in (self.r, self.s):
            th = mk('this'); cur = x.ev.rd(mk_field(th, 'current_controllers_list_'), x.env)
            out = []
            for g, i in leaves(cur):
                out.append((g, x.ev.rd(mk('idx', mk('f', th, 'controllers_lists_'), i), x.env)))
            vals.append(mk_case(out) if len(out) > 1 else out[0][1])
        a, b = vals
        d = AND(self.r.live, self.s.live, self.K.diff(a, b))
        self.hit('current controller list', '', d, show(pick(a, d))[:300], show(pick(b, d))[:300])
    def ordered_like(self, rx):
        """Of two kinds of effects one of which the reference always completes before the other."""
        ev = [e for e in self.s.events if e.kind == 'call' and rx.match(e.fn)]
        names = sorted({okey(e) for e in ev})
        for p in names:
            for q in names:
                if p == q or not REQUEST.match(p) and not REQUEST.match(q): continue
                some = False; ok = True
                for x in ev:
                    if okey(x) != p: continue
                    for y in ev:
                        if okey(y) != q or later(x) != later(y) or AND(x.guard, y.guard) == 0: continue
                        if x.seq > y.seq or any(v is w for v in x.binders for w in y.binders): ok = False
                        else: some = True
                if ok and some: self.ordered(r'^call %s\Z' % re.escape(p), r'^call %s\Z' % re.escape(q)); yield p, q
    def ordered(self, a, b):
        ra, rb = re.compile(a), re.compile(b)
        A = [e for e in self.r.events if e.kind in ('call', 'write', 'publish') and ra.search(evname(e))]; Bb = [e for e in self.r.events if e.kind in ('call', 'write', 'publish') and rb.search(evname(e))]
        for x in A:
            for y in Bb:
                if x is y or later(x) != later(y): continue
                self.n += 1
                shared = [v for v in x.binders if any(v is w for w in y.binders)]
                g = AND(x.guard, y.guard)
                if shared and g != 0 or x.seq > y.seq and g != 0:
                    self.hit('order', '%s before %s' % (a, b), g, '%s happens at %s%s' % (evname(x), x.where(), ' in the same loop' if shared else ' after'), 'completed before %s at %s' % (evname(y), y.where()), x.where())

def later(e):
    """The callback an effect happens in."""
    return getattr(e, 'later', None)
REQUEST = re.compile(r'srv:|controller_manager_interface::|\.(blockSignals|clear|insertItems|setCurrentIndex)')
def okey(e): return evname(e)[5:]
def evname(e):
    if e.kind == 'call' and e.fn in ('.blockSignals', '.setCurrentIndex') and len(e.args) == 1 and e.args[0].op in ('c', 'b'): return 'call %s(%s)' % (e.fn, show(e.args[0]))
    if e.kind == 'write': return 'write ' + show(e.loc)
    return '%s %s' % (e.kind, e.fn)
def is_loc(t): return t.op in ('f', 'idx', 'this', 'd', 'mval', 'p', 'bv') or t.op == 'case' and all(v.op in ('f', 'idx', 'this', 'd', 'mval') for v, _ in t.args)
def pick(v, d):
    if d in (0, 1) or v.op != 'case': return v
    for w, g in v.args:
        if AND(g.args[0], d) != 0: return w
    return v
