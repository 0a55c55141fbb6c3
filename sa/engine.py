"""Obligation runner: evaluates the same function of the repository and of the reference tree and
compares the observables that a property names.  Every obligation runs in its own process with a
time and memory budget; what exceeds the budget is undecided, never a violation."""
import json, multiprocessing as mp, os, re, resource, signal, sys, time, traceback
from . import export as X

CB = 'controller_interface::ControllerBase::'
REQ = tuple(CB + x for x in 'startRequest stopRequest abortRequest waitRequest updateRequest isRunning isAborted isWaiting isStopped isInitialized'.split())
CM = 'controller_manager::ControllerManager::'
VOL = ('used_by_realtime_', 'do_switch')
ALLOBS = ('ret', 'completes', 'throws', 'env', 'calls', 'writes')

class Fn:
    """Obligation: functions whose qualified name matches `pat` behave like the reference."""
    def __init__(self, pat, cls=None, n=None, obs=ALLOBS, opaque=(), volatile=(), publish=None, calls=None, env=None, sig=None, skip=None, order=(), optional=False, assume=None, via=()):
        self.pat = pat; self.cls = cls; self.n = n; self.obs = tuple(obs); self.opaque = tuple(opaque); self.volatile = tuple(volatile); self.publish = publish or {}
        self.calls = calls; self.envre = env; self.sig = sig; self.skip = skip; self.order = tuple(order); self.optional = optional; self.assume = assume; self.via = tuple(via)

class Rule:
    """Obligation decided by a dedicated rule: fn(ctx) -> dict(instances, violations, undecided, detail)."""
    def __init__(self, fn, name=None): self.fn = fn; self.name = name or fn.__name__

class Prop:
    def __init__(self, id, obligations, rule, needs_cpp=True): self.id = id; self.obl = obligations; self.rule = rule; self.needs_cpp = needs_cpp

class Broken(Exception): pass
def repo_root(): return X.REPO.rstrip('/') + '/'
def trees(P):
    """The two programs a property is decided on."""
    if P.needs_cpp: return Trees()
    from .pyev import PyTrees
    return PyTrees(X.REPO, X.SPEC)

def plain(name):
    """Qualified name without template arguments."""
    out = []; d = 0
    for i, ch in enumerate(name):
        if ch == '<' and not name[:i].endswith('operator') and not name[:i].endswith('operator<'): d += 1
        elif ch == '>' and d and not name[:i].endswith('-'): d -= 1
        elif d == 0: out.append(ch)
    return ''.join(out)

class Trees:
    """Both exported trees, with the functions of each indexed the same way."""
    def __init__(self, repo=None):
        import concurrent.futures as cf
        with cf.ThreadPoolExecutor(2) as ex:
            a = ex.submit(X.export, repo); self.R = a.result()
            b = ex.submit(X.export, X.SPEC); self.S = b.result()
        from . import alias
        self.renamed = alias.align(self.R, self.S)
        self.rname = {}
        for k, f in self.R['functions'].items(): self.rname.setdefault(plain(f['name']), []).append(k)
        self.kf = {f['n'] for r in self.S['records'].values() for f in r['fields']} | {'first', 'second'}
        self.rootR = (repo or X.REPO).rstrip('/') + '/'
        self.missing = []; self._samesrc = {}
        fns = set()
        def see(e):
            if e.get('k') == 'mem' and isinstance(e.get('n'), str): self.kf.add(e['n'])
            if isinstance(e.get('fn'), str): fns.add(e['fn']); fns.add(plain(e['fn']))
        for f in self.S['functions'].values():
            if f['file'].startswith(X.SPEC): alias.walk(f.get('body'), see); alias.walk(f.get('inits'), see)
        self.known_fns = fns
    # congruence: a function whose source is the reference's own, using only functions shown equal
    def canon(self, f):
        ids = {}
        def go(x):
            if isinstance(x, dict): return {k: (ids.setdefault(v, len(ids)) if k == 'id' else go(v)) for k, v in x.items() if k not in ('l', 'f', 'el', 'line', 'endline')}
            if isinstance(x, list): return [go(v) for v in x]
            return x
        return json.dumps(go([f.get('params'), f.get('inits'), f.get('body'), f.get('ret')]), sort_keys=True)
    def same_source(self, k):
        r = self._samesrc.get(k)
        if r is None:
            f = self.S['functions'].get(k); g = self.R['functions'].get(k)
            r = self._samesrc[k] = f is not None and g is not None and f.get('body') is not None and g.get('body') is not None and self.canon(f) == self.canon(g)
        return r
    def congruent(self, k, proven):
        """Every function reachable from k is the reference's own text, up to functions proven equal."""
        seen = {k}; todo = [k]; used = False
        if not self.same_source(k): return False
        while todo:
            cs = set()
            f = self.S['functions'][todo.pop()]
            def see(e):
                if isinstance(e.get('key'), str): cs.add(e['key'])
            from . import alias
            alias.walk(f.get('body'), see); alias.walk(f.get('inits'), see)
            for c in cs:
                if c in seen: continue
                seen.add(c)
                if c in proven: used = True; continue
                h = self.S['functions'].get(c) or self.R['functions'].get(c)
                if h is None or h.get('body') is None: continue
                if not h['file'].startswith((X.SPEC, self.rootR)): continue
                if not self.same_source(c): return False
                todo.append(c)
        return used
    def reaches(self, k, h):
        from . import alias
        seen = {k}; todo = [k]
        while todo:
            f = self.S['functions'].get(todo.pop())
            if f is None: continue
            def see(e):
                c = e.get('key')
                if isinstance(c, str) and c not in seen: seen.add(c); todo.append(c)
            alias.walk(f.get('body'), see); alias.walk(f.get('inits'), see)
        return h in seen
    def roots(self, o):
        out = []
        rx = re.compile(o.pat + r'\Z')
        for k, f in self.S['functions'].items():
            if not f['file'].startswith(X.SPEC): continue
            if f.get('body') is None: continue
            if not rx.match(plain(f['name'])): continue
            if o.cls and not re.search(o.cls, f.get('clst') or ''): continue
            if o.n is not None and len(f['params']) != o.n: continue
            if o.sig and not re.search(o.sig, k): continue
            if o.skip and re.search(o.skip, k): continue
            out.append(k)
        return sorted(out)
    def counterpart(self, k):
        """The repository's function for a reference function."""
        F = self.R['functions']; f = self.S['functions'][k]
        g = F.get(k)
        if g is not None and g.get('body') is not None: return g
        c = [F[x] for x in self.rname.get(plain(f['name']), []) if F[x].get('body') is not None and len(F[x]['params']) == len(f['params']) and (F[x].get('clst') or '') == (f.get('clst') or '')]
        if len(c) == 1: return c[0]
        if len(c) > 1:
            ret = [x for x in c if x.get('ret') == f.get('ret') and x.get('const') == f.get('const')]
            if len(ret) == 1: return ret[0]
        if not c:
            c = [F[x] for x in self.rname.get(plain(f['name']), []) if F[x].get('body') is not None and (F[x].get('clst') or '') == (f.get('clst') or '')]
            if len(c) == 1 and len(c[0]['params']) > len(f['params']) and all(p.get('def') is not None for p in c[0]['params'][len(f['params']):]): return c[0]
        # inherited instead of overridden
        if f.get('clst') and not f.get('ctor'):
            seen = set(); todo = list(self.R['bases'].get(f['clst'], []))
            nm = plain(f['name']).split('::')[-1]
            while todo:
                b = todo.pop(0)
                if b in seen: continue
                seen.add(b); todo += self.R['bases'].get(b, [])
                for h in F.values():
                    if h.get('clst') == b and plain(h['name']).split('::')[-1] == nm and len(h['params']) == len(f['params']) and h.get('body') is not None: return h
        return None

def is_helper(f):
    """Not an entry point: private or protected and not virtual, or in an `internal` namespace."""
    return (f.get('acc') in ('private', 'protected') and not f.get('virt')) or '::internal::' in f['name']

def compare(T, o, g, f, ev, res):
    from . import compare as CP
    from . import core
    core.ANYKIND = core.INST and bool(getattr(T, 'ORDERED', None))
    if core.ANYKIND: ev(T.R, g); ev(T.S, f)         # finds out what is iterated over
    sr = ev(T.R, g); ss = ev(T.S, f)
    res['events'] = len(sr.events)
    K = CP.Comparer(T.kf, T.known_fns, assume=(o.assume(sr, ss) if o.assume else core.TRUE))
    c = CP.FnCompare(K, sr, ss)
    for p, q in zip(f['params'], g['params']):
        # what a caller who leaves an argument out gets
        a = core.const_expr(p['def']) if p.get('def') else None; b = core.const_expr(q['def']) if q.get('def') else None
        if a is None or b is None or 'c' != a.op or 'c' != b.op and 'b' != b.op: continue
        c.hit('default argument', q.get('n', ''), K.diff(b, a), core.show(b), core.show(a)); res['checked'] += 1
    for p, q in zip(f['params'], g['params']):
        # the same for Python; a function whose name starts with _ has no callers but those that are analysed
        if 'pydef' not in p or 'pydef' not in q or p['n'] != q['n'] or f['name'].split('::')[-1].split('.')[-1].startswith('_'): continue
        a, b = p['pydef'], q['pydef']
        c.hit('default argument', q['n'], core.FALSE if type(a) is type(b) and a == b else core.TRUE, repr(b), repr(a)); res['checked'] += 1
    if 'ret' in o.obs: c.ret(); res['checked'] += 1
    if 'completes' in o.obs: c.completes(); res['checked'] += 1
    if 'throws' in o.obs: c.throws(); res['checked'] += 1
    if 'env' in o.obs:
        sel = None
        if o.envre:
            rx = re.compile(o.envre)
            sel = lambda L: bool(rx.search(core.show(L)))
        c.env(sel); res['checked'] += 1
    if 'curlist' in o.obs: c.curlist(); res['checked'] += 1
    if 'calls' in o.obs:
        rx = re.compile(o.calls) if o.calls else None
        c.effects(lambda e: e.kind == 'call' and not e.const and not PURE.match(str(e.fn)) and (rx is None or rx.search(e.fn))); res['checked'] += 1
    if 'writes' in o.obs:
        from .ev import bvs
        c.effects(lambda e: e.kind == 'elwrite'); res['checked'] += 1
    if 'publish' in o.obs: c.effects(lambda e: e.kind == 'publish', kinds='switch request'); res['checked'] += 1
    for a, b in o.order: c.ordered(a, b); res['checked'] += 1
    if getattr(T, 'ORDERED', None): res['checked'] += len(list(c.ordered_like(T.ORDERED)))
    return c, K, sr

PURE = re.compile(r'hardware_interface::InterfaceManager::get(<|\Z)|TiXml\w+::(FirstChild\w*|NextSibling\w*|LastChild|PreviousSibling|RootElement|Attribute|GetText|Value\w*|Parent|To\w+)\Z')     # only look
INST_TIME = 25 if os.environ.get('VERIF_TIER') != 'thorough' else 200
LOOP_NOTE = re.compile(r'loop exit depends on')
DEBUG = bool(os.environ.get('SA_DEBUG'))
def run_fn(T, o, k, budget):
    from .ev import Ev
    from . import compare as CP
    from . import core
    g = T.counterpart(k); f = T.S['functions'][k]
    short = plain(f['name'])
    res = {'fn': k, 'name': short, 'file': (g or f)['file'], 'line': (g or f).get('line'), 'mism': [], 'und': [], 'n': 0, 'checked': 0}
    if g is None:
        if f.get('ctor') or o.optional or is_helper(f) or f.get('cb'): res['und'].append('%s: no counterpart in the repository' % k[:160]); return res
        res['missing'] = True; return res
    def ev(M, fn):
        e = getattr(T, 'Ev', Ev)(M, opaque=o.opaque, volatile=o.volatile)
        e.publish = o.publish
        return e.run(fn)
    c, K, sr = compare(T, o, g, f, ev, res)
    if not c.mism and (c.undecided or K.soft) and not any(': ' in str(u) and not LOOP_NOTE.search(str(u)) for u in c.pre):
        # some loop has no closed form on one of the sides: decide on collections of at most two elements
        core.INST = True
        left = signal.getitimer(signal.ITIMER_REAL)[0]
        if left: signal.setitimer(signal.ITIMER_REAL, min(left, INST_TIME))
        try: c2, K2, _ = compare(T, o, g, f, ev, {'checked': 0})
        except Timeout: c2 = None
        except Exception as x:
            c2 = None; res['inst'] = repr(x)[:100]
            if DEBUG: raise
        finally: core.INST = core.ANYKIND = False; core.KIND.clear()
        if c2 is not None:
            res['inst'] = '%d comparisons, %d undecided' % (c2.n, len(c2.undecided) + K2.soft)
            if c2.mism or not c2.undecided and not K2.soft: c = c2; K = K2
    res['n'] = c.n; res['soft'] = K.soft
    for m in c.mism:
        res['mism'].append({'where': m.where.replace(T.rootR, ''), 'kind': m.kind, 'what': str(m.what)[:400], 'got': str(m.got)[:600], 'want': str(m.want)[:600], 'when': m.cube()[:900]})
    res['und'] += [str(u)[:300] for u in c.undecided]
    if not res['mism'] and not res['und'] and c.n == 0: res['trivial'] = True
    return res

def with_opaque(o, opq):
    import copy
    v = copy.copy(o); v.opaque = opq; return v
class Timeout(Exception): pass
_T = None; _JOBS = None
def _alarm(*a): raise Timeout()
def _work(i):
    kind, o, k, budget = _JOBS[i]
    t0 = time.time()
    signal.signal(signal.SIGALRM, _alarm); signal.setitimer(signal.ITIMER_REAL, budget)
    try:
        sys.setrecursionlimit(20000)
        if kind == 'rule':
            r = o.fn(_T); r['rule'] = o.name
        else: r = run_fn(_T, o, k, budget)
    except Timeout: r = {'fn': k or o.name, 'name': k or o.name, 'mism': [], 'und': ['time budget of %d s used up' % budget], 'n': 0, 'checked': 0}
    except MemoryError: r = {'fn': k or o.name, 'name': k or o.name, 'mism': [], 'und': ['memory budget used up'], 'n': 0, 'checked': 0}
    except RecursionError: r = {'fn': k or o.name, 'name': k or o.name, 'mism': [], 'und': ['terms too deep'], 'n': 0, 'checked': 0}
    except Broken as e: r = {'fn': k or o.name, 'name': k or o.name, 'broken': str(e), 'mism': [], 'und': [], 'n': 0, 'checked': 0}
    except Exception as e:
        r = {'fn': k or o.name, 'name': k or o.name, 'mism': [], 'und': ['evaluator: %s' % repr(e)[:200]], 'n': 0, 'checked': 0, 'tb': traceback.format_exc()[-1500:]}
    finally: signal.setitimer(signal.ITIMER_REAL, 0)
    r['t'] = time.time() - t0; r['i'] = i
    return r
def _init():
    resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))

def run_prop(P, T, budget=60, procs=8, thorough=False):
    """Runs every obligation of a property; returns the results."""
    global _T, _JOBS
    jobs = []; empty = []
    for o in P.obl:
        if isinstance(o, Rule): jobs.append(('rule', o, None, budget * 2)); continue
        ks = T.roots(o)
        if not ks: empty.append(o.pat + (' in ' + o.cls if o.cls else ''))
        jobs += [('fn', o, k, budget) for k in ks]
    if empty: raise Broken('no reference function matches: ' + '; '.join(empty))
    _T = T; _JOBS = jobs
    ctx = mp.get_context('fork')
    with ctx.Pool(min(procs, max(1, len(jobs))), initializer=_init, maxtasksperchild=6) as pool:
        res = list(pool.imap_unordered(_work, range(len(jobs)), chunksize=1))
        res.sort(key=lambda r: r['i'])
        # what reads exactly like the reference and only uses functions shown equal behaves like it
        full = lambda o: isinstance(o, Fn) and set(ALLOBS) <= set(o.obs) and not o.envre and not o.calls
        proven = {r['fn'] for r in res if full(jobs[r['i']][1]) and not r['mism'] and not r['und'] and not r.get('broken') and not r.get('missing')}
        for r in res:
            if isinstance(jobs[r['i']][1], Fn) and (r['mism'] or r['und']) and r['fn'] not in proven and T.congruent(r['fn'], proven):
                r['note'] = 'same text as the reference, using functions shown equal (%d differences not followed)' % len(r['mism']); r['mism'] = []; r['und'] = []
        # a helper that changed is a violation only if an entry point that uses it behaves differently
        confirm = {}
        for r in res:
            o = jobs[r['i']][1]
            if r['mism'] and isinstance(o, Fn) and o.via and is_helper(T.S['functions'][r['fn']]): confirm.setdefault(o.pat, (o, []))[1].append(r)
    for o, rs in confirm.values():
        _JOBS = []
        for v in o.via: _JOBS += [('fn', v, k, budget) for k in T.roots(v)]
        with ctx.Pool(min(procs, len(_JOBS)), initializer=_init, maxtasksperchild=6) as pool:
            cs = list(pool.imap_unordered(_work, range(len(_JOBS)), chunksize=1))
        bad = lambda cs: any(c['mism'] or c['und'] or c.get('broken') or c.get('missing') for c in cs)
        same = cs and not bad(cs)
        if same and any(c.get('soft') for c in cs):
            # not followed through in full: once more with the other helpers left unexpanded
            from .core import base_name
            changed = {r['fn'] for r in rs}; names = {base_name(T.S['functions'][k]['name']) for k in changed}
            opq = tuple(sorted({x for q in P.obl if isinstance(q, Fn) for x in q.opaque} - names - changed))
            if opq and hasattr(T, 'reaches'):
                users = [k for _, v, k, _ in _JOBS]
                _JOBS = [('fn', v2, k, budget) for _, v, k, _ in _JOBS for v2 in [with_opaque(v, opq)]]
                with ctx.Pool(min(procs, len(_JOBS)), initializer=_init, maxtasksperchild=6) as pool:
                    c2 = list(pool.imap_unordered(_work, range(len(_JOBS)), chunksize=1))
                if any(c['mism'] for c in c2): cs = c2; same = False
                elif bad(c2) or any(c.get('soft') for c in c2):
                    # the users read as before: what they get from the helper has changed
                    if all(T.congruent(k, changed) for k in users if any(T.reaches(k, h) for h in changed)) and any(T.reaches(k, h) for k in users for h in changed): same = False
        if same:
            for r in rs: r['mism'] = []; r['note'] = 'helper changed, its entry points behave the same'
        else:
            for c in cs:
                if c['mism']: c['i'] = len(res); res.append(c)
    return res
