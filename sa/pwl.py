"""Piecewise-linear values: min, max and gated alternatives compared as the functions they are.

Values and conditions are opened into linear alternatives guarded by linear comparisons; an alternative is
dropped when its guard is an empty polyhedron (Fourier-Motzkin elimination over exact rationals; products of
unknowns count as unknowns of their own)."""
import time
from fractions import Fraction
from .core import *
from . import core
from .core import _polyd
from . import bdd as B

class Budget(Exception): pass
EXHAUSTED = 0       # comparisons too large to decide so far
class Split(Exception):
    def __init__(self, a): self.atom = a

_pw = {}
def piecewise(t):
    """Contains a min, max or gated alternative in an arithmetic position."""
    r = _pw.get(t)
    if r is None:
        if t.op in ('min', 'max'): r = True
        elif t.op == 'case': r = any(v.op in ('poly', 'min', 'max') or piecewise(v) for v, _ in t.args) or arith_guard(t)
        elif t.op == 'poly': r = any(piecewise(x) for m, _ in t.args for x, _ in m)
        elif t.op == 'inv': r = piecewise(t.args[0])
        else: r = False
        _pw[t] = r
    return r
def arith_guard(t): return any(a.op == 'pos' for v, g in t.args for a in support(g.args[0]))

def lin(t, asg):
    """The linear alternative of t in the region asg; Split names the condition that still has to be fixed."""
    if t.op in ('min', 'max'):
        r = None
        for x in t.args:
            y = lin(x, asg)
            if r is None: r = y
            elif r is not y: r = r if (holds(lt(r, y), asg) == (t.op == 'min')) else y
        return r
    if t.op == 'case':
        for v, g in t.args[:-1]:
            if holds(g.args[0], asg): return lin(v, asg)
        v, g = t.args[-1]
        return lin(v, asg)
    if t.op == 'poly' and piecewise(t):
        r = C(0)
        for mono, c in t.args:
            p = mk('c', c) if c.denominator != 1 else C(int(c))
            for x, e in mono:
                y = lin(x, asg)
                for _ in range(abs(e)): p = mul(p, y if e > 0 else inv(y))
            r = add(r, p)
        return r
    if t.op == 'inv' and piecewise(t): return inv(lin(t.args[0], asg))
    return t
def holds(f, asg):
    while f > 1:
        v, lo, hi = B._nodes[f]
        a = B._atoms[v]
        x = asg.get(a)
        if x is None:
            if a.op == 'pos' and piecewise(a.args[0]): x = holds(lt(C(0), lin(a.args[0], asg)), asg)
            elif a.op == 'eq' and (piecewise(a.args[0]) or piecewise(a.args[1])): x = holds(eq(lin(a.args[0], asg), lin(a.args[1], asg)), asg)
            else: raise Split(a)
        f = hi if x else lo
    return f == 1

def linatom(a):
    if a.op == 'pos': return dict(_polyd(a.args[0]))
    if a.op == 'eq':
        x, y = a.args
        if x.op != 'case' and y.op != 'case': return dict(_polyd(sub(x, y)))
    return None
def refine(asg, cons, a):
    """The regions a condition splits a region into: [(assignment, constraints)]"""
    p = linatom(a)
    out = []
    if p is None:
        for v in (True, False): out.append(({**asg, a: v}, cons))
        return out
    neg_ = {m: -c for m, c in p.items()}
    alts = [(True, [(p, True)]), (False, [(neg_, False)])] if a.op == 'pos' else [(True, [(p, False), (neg_, False)]), (False, [(p, True)]), (False, [(neg_, True)])]
    for v, extra in alts:
        c2 = cons + extra
        if nonempty(c2): out.append(({**asg, a: v}, c2))
    return out
def explore(fn, left, asg=None, cons=()):
    """All regions on which fn is decided: yields (assignment, constraints, result)."""
    st = [(asg or {}, list(cons))]
    while st:
        asg, cons = st.pop()
        left[0] -= 1
        if left[0] < 0: raise Budget
        try: r = fn(asg)
        except Split as s:
            st += reversed(refine(asg, cons, s.atom)); continue
        yield asg, cons, r

def value_diff(a, b, budget=3000, most=60):
    """Condition under which two piecewise-linear values differ (None: too large to decide)."""
    d = FALSE; n = 0
    left = [budget]
    t0 = time.process_time()
    try:
        for asg, cons, (x, y) in explore(lambda asg: (lin(a, asg), lin(b, asg)), left):
            if time.process_time() - t0 > 60: raise Budget
            if x is y: continue
            e = eq(x, y)
            if e == 1: continue
            if e != 0:
                p = dict(_polyd(sub(x, y))); q = {m: -c for m, c in p.items()}
                if not any(nonempty(cons + [(z, True)]) and realizable(cons + [(z, True)]) for z in (p, q)): continue
            d = OR(d, AND(NOT(e), *[atom(t) if v else NOT(atom(t)) for t, v in asg.items()]))
            n += 1
            if n >= most: break
    except Budget:
        if n: return d      # the regions found so far do differ
        global EXHAUSTED
        EXHAUSTED += 1; return None
    return d

def realizable(cons):
    """False when the products among the monomials exclude the region: every comparison is multiplied by each
    unknown that occurs as a factor, for each sign of it (products are independent unknowns otherwise)."""
    fac = {}
    for p, _ in cons:
        for m in p:
            if sum(e for _, e in m) > 1:
                for x, e in m:
                    if e > 0: fac[x] = fac.get(x, 0) + 1
    for x in sorted(fac, key=lambda x: (-fac[x], x.id))[:4]:
        mons = {m for p, _ in cons for m in p}
        def times(m):
            d = dict(m); d[x] = d.get(x, 0) + 1
            return tuple(sorted(((t, e) for t, e in d.items() if e), key=lambda y: y[0].id))
        canon = {tuple(sorted(m, key=lambda y: y[0].id)): m for m in mons}
        X = canon.get(((x, 1),), ((x, 1),))
        def prod(p, s): return {canon.get(times(m), times(m)): c * s for m, c in p.items()}
        ok = False
        for s in (1, -1, 0):
            if s == 0: extra = [({X: 1}, False), ({X: -1}, False)] + [({canon[k]: z}, False) for k in canon if any(t is x for t, e in k) and len(k) > 1 for z in (1, -1)]
            else: extra = [({X: s}, True)] + [(prod(p, s), st) for p, st in cons if not any(t is x for m in p for t, e in m)]
            if nonempty(cons + extra): ok = True; break
        if not ok: return False
    return True

def satisfiable(f, budget=3000):
    """False only when the linear comparisons of f exclude each other on every path."""
    if not any(a.op == 'pos' for a in support(f)): return True
    left = [budget]
    try: return any(r for _, _, r in explore(lambda asg: holds(f, asg), left))
    except Budget:
        global EXHAUSTED
        EXHAUSTED += 1; return True

def conflict(lits):
    """A small subset of the literals whose linear comparisons exclude each other; None if they do not."""
    rows = []
    for a, v in lits:
        if a.op != 'pos': continue
        p = linatom(a); rows.append(((a, v), [(p, True)] if v else [({m: -c for m, c in p.items()}, False)]))
    for a, v in lits:
        if a.op == 'eq' and v:
            if any(x.op == 'c' and not isinstance(x.args[0], (int, float)) for x in a.args): continue
            p = linatom(a)
            if p is not None: rows.append(((a, v), [(p, False), ({m: -c for m, c in p.items()}, False)]))
    def bad(rs): return not nonempty([c for _, cs in rs for c in cs])
    if not bad(rows): return None
    k = len(rows)
    while k > 0:
        k -= 1
        rest = rows[:k] + rows[k + 1:]
        if bad(rest): rows = rest
    return [l for l, _ in rows]

# ------------------------------------------------------------------ polyhedra
def nonempty(cons):
    """Fourier-Motzkin on strict / non-strict inequalities  e > 0 / e >= 0."""
    rows = set()
    for p, s in cons: rows.add((tuple(sorted(((m, c) for m, c in p.items()), key=lambda x: [(t.id, e) for t, e in x[0]])), s))
    rows = [(dict(p), s) for p, s in rows]
    while True:
        rest = []
        for p, s in rows:
            ks = [m for m in p if m != () and p[m] != 0]
            if not ks:
                c = p.get((), 0)
                if c < 0 or c == 0 and s: return False
                continue
            rest.append(({m: c for m, c in p.items() if c != 0}, s))
        rows = rest
        if not rows: return True
        cnt = {}
        for p, s in rows:
            for m, c in p.items():
                if m == (): continue
                u = cnt.setdefault(m, [0, 0]); u[0 if c > 0 else 1] += 1
        m = min(cnt, key=lambda k: cnt[k][0] * cnt[k][1])
        up = [(p, s) for p, s in rows if p.get(m, 0) > 0]; dn = [(p, s) for p, s in rows if p.get(m, 0) < 0]
        new = [(p, s) for p, s in rows if p.get(m, 0) == 0]
        if len(up) * len(dn) > 300: return True
        seen = set()
        for p, s in up:
            for q, z in dn:
                k = -q[m] / p[m]
                r = {}
                for x, c in p.items(): r[x] = r.get(x, 0) + k * c
                for x, c in q.items(): r[x] = r.get(x, 0) + c
                r = {x: c for x, c in r.items() if c != 0 and x != m}
                # scale for duplicate detection
                if r:
                    t0 = min((x for x in r), key=lambda x: [(t.id, e) for t, e in x])
                    sc = abs(r[t0]); r = {x: c / sc for x, c in r.items()}
                key = (tuple(sorted(r.items(), key=lambda x: [(t.id, e) for t, e in x[0]])), s or z)
                if key in seen: continue
                seen.add(key); new.append((r, s or z))
        rows = new
        if len(rows) > 600: return True
