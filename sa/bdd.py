"""Hash-consed terms and reduced ordered binary decision diagrams over them.

Formulas are canonical: two guards are propositionally equivalent iff they are the same node.
"""
import sys
sys.setrecursionlimit(20000)

class T:
    __slots__ = ('op', 'args', 'id', '_h', '_bvs')
    def __repr__(self): return show(self)
    def __hash__(self): return self.id
    def __eq__(self, o): return self is o
    def __lt__(self, o): return self.id < o.id

_tab = {}
_cnt = [0]
def mk(op, *args):
    k = (op, args) if op != 'c' else (op, args, type(args[0]))
    t = _tab.get(k)
    if t is None:
        t = T(); t.op = op; t.args = args; t.id = _cnt[0]; _cnt[0] += 1; t._h = None; t._bvs = None
        _tab[k] = t
    return t

# ---------------------------------------------------------------- BDD
FALSE, TRUE = 0, 1
_nodes = [(1 << 60, 0, 0), (1 << 60, 1, 1)]
_uniq = {}
_ite = {}
_atom_id = {}
_atoms = []

def _node(v, lo, hi):
    if lo == hi: return lo
    k = (v, lo, hi)
    n = _uniq.get(k)
    if n is None:
        n = len(_nodes); _nodes.append(k); _uniq[k] = n
    return n

def atom(t):
    i = _atom_id.get(t)
    if i is None:
        i = len(_atoms); _atoms.append(t); _atom_id[t] = i
    return _node(i, 0, 1)

def ITE(f, g, h):
    if f == 1: return g
    if f == 0: return h
    if g == h: return g
    if g == 1 and h == 0: return f
    if h == 0 and g != 1 and g < f: f, g = g, f         # a conjunction
    elif g == 1 and h < f: f, h = h, f                  # a disjunction
    k = (f, g, h)
    r = _ite.get(k)
    if r is not None: return r
    vf, f0, f1 = _nodes[f]; vg, g0, g1 = _nodes[g]; vh, h0, h1 = _nodes[h]
    v = vf if vf < vg else vg
    if vh < v: v = vh
    if vf != v: f0 = f1 = f
    if vg != v: g0 = g1 = g
    if vh != v: h0 = h1 = h
    a = ITE(f0, g0, h0); b = ITE(f1, g1, h1)
    r = a if a == b else _node(v, a, b)
    _ite[k] = r
    return r

def path(f):
    """One way to satisfy f: [(atom number, value)]."""
    out = []
    while f > 1:
        v, lo, hi = _nodes[f]
        if hi != 0: out.append((v, True)); f = hi
        else: out.append((v, False)); f = lo
    return out

def cofactor(f, asg):
    """f under an assignment of atom numbers."""
    memo = {}
    def go(n):
        if n < 2: return n
        r = memo.get(n)
        if r is None:
            v, lo, hi = _nodes[n]; x = asg.get(v)
            r = memo[n] = (_node(v, go(lo), go(hi)) if x is None else go(hi if x else lo))
        return r
    return go(f)

def AND(*fs):
    r = 1
    for f in fs: r = ITE(r, f, 0)
    return r
def OR(*fs):
    r = 0
    for f in fs: r = ITE(r, 1, f)
    return r
def NOT(f): return ITE(f, 0, 1)
def IMP(f, g): return ITE(f, g, 1)
def XNOR(f, g): return ITE(f, g, NOT(g))
def implies(f, g): return ITE(f, NOT(g), 0) == 0

def support(f):
    seen, out, st = set(), set(), [f]
    while st:
        n = st.pop()
        if n < 2 or n in seen: continue
        seen.add(n); v, lo, hi = _nodes[n]; out.add(v); st += [lo, hi]
    return [_atoms[i] for i in sorted(out)]

def restrict(f, t, val):
    i = _atom_id.get(t)
    if i is None: return f
    memo = {}
    def go(n):
        if n < 2: return n
        v, lo, hi = _nodes[n]
        if v > i: return n
        if v == i: return hi if val else lo
        r = memo.get(n)
        if r is None: r = memo[n] = _node(v, go(lo), go(hi))
        return r
    return go(f)

def exists_atoms(f, ts):
    for t in ts: f = OR(restrict(f, t, False), restrict(f, t, True))
    return f

def map_atoms(f, fn):
    """Rebuilds f with every atom t replaced by the formula fn(t)."""
    memo = {0: 0, 1: 1}
    def go(n):
        r = memo.get(n)
        if r is None:
            v, lo, hi = _nodes[n]
            r = memo[n] = ITE(fn(_atoms[v]), go(hi), go(lo))
        return r
    return go(f)

def single(f):
    """(atom, polarity) if f is a literal."""
    if f < 2: return None
    v, lo, hi = _nodes[f]
    if lo == 0 and hi == 1: return (_atoms[v], True)
    if lo == 1 and hi == 0: return (_atoms[v], False)
    return None

def paths(f, limit=64):
    """Cubes of f (list of (atom, bool) lists): for messages only."""
    out = []
    def go(n, acc):
        if len(out) >= limit or n == 0: return
        if n == 1: out.append(list(acc)); return
        v, lo, hi = _nodes[n]
        acc.append((_atoms[v], True)); go(hi, acc); acc.pop()
        acc.append((_atoms[v], False)); go(lo, acc); acc.pop()
    go(f, [])
    return out

def showf(f, limit=4):
    if f == 0: return 'false'
    if f == 1: return 'true'
    ps = paths(f, limit + 1)
    s = ' | '.join(' & '.join(('' if b else '!') + show(a) for a, b in p) for p in ps[:limit])
    return s + (' | ...' if len(ps) > limit else '')

def show(t, d=0):
    if not isinstance(t, T): return str(t)
    if d > 9: return '..'
    s = lambda x: show(x, d + 1)
    o, a = t.op, t.args
    if o == 'c': return a[0][1].split('::')[-1] if isinstance(a[0], tuple) else repr(a[0])
    if o == 'p': return 'arg%s' % (a[0],)
    if o == 'ix': return 'i(' + s(a[0]) + ')'
    if o == 'first': return 'first{%s: %s}' % (s(a[0]), showf(a[1].args[0]))
    if o == 'new0': return short(a[0]) + '{}'
    if o == 'obj': return s(a[0]) + '{' + ', '.join('%s=%s' % (k if isinstance(k, str) else s(k), s(v)) for k, v in a[1:]) + '}'
    if o == 'app': return s(a[0]) + ''.join(' ++ [%s%s%s]' % (s(x), ''.join(' | %s in %s' % (s(v), s(c)) for v, c in bs), '' if g.args[0] == 1 else ' if ' + showf(g.args[0])) for bs, g, x in a[1])
    if o == 'seq0': return '[]'
    if o == 'this': return 'this'
    if o == 'f':
        b = s(a[0])
        return a[1] if b == 'this' else b + '.' + a[1]
    if o == 'd': return '*' + s(a[0])
    if o == 'var': return a[2] if len(a) > 2 else 'v%s' % a[1]
    if o in ('bv', 'bvc'): return 'e%s' % (a[0],)
    if o == 'fm': return '{' + showf(a[0]) + '}'
    if o == 'b': return '(' + showf(a[0]) + ')'
    if o in ('call', 'vcall'): return short(str(a[0]).split('::')[-1]) + '(' + ', '.join(s(x) for x in a[1:]) + ')'
    if o == 'case': return 'case[' + '; '.join(s(v) + ' if ' + showf(g.args[0]) for v, g in a) + ']'
    if o == 'poly':
        out = []
        for mono, c in a:
            m = '*'.join(s(x) if e == 1 else s(x) + '^%d' % e for x, e in mono)
            out.append((str(c) + ('*' + m if m else '')) if c != 1 or not m else m)
        return '(' + ' + '.join(out) + ')'
    if o == 'eq': return '%s==%s' % (s(a[0]), s(a[1]))
    if o == 'pos': return s(a[0]) + '>0'
    if o == 'nn': return 'nonnull(' + s(a[0]) + ')'
    if o == 'ex': return 'exists e%s in %s: %s' % (a[2], s(a[0]), s(a[1]))
    return o + '(' + ', '.join(s(x) for x in a) + ')'

def short(fn):
    import re
    fn = str(fn)
    return fn if len(fn) < 60 else fn[:57] + '...'
