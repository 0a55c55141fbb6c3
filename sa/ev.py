"""Structural evaluator: one pass over a function's tree, inlining the repository's own helpers."""
import re
from .core import *
from .core import _polyd, _mkpoly
from . import core, bdd as B

THIS = mk('this')
LOG_RE = re.compile(r'^ros::stublog::')
PURE_STD = ('std::', 'ros::', 'urdf::', 'boost::')

class Event:
    __slots__ = ('kind', 'fn', 'obj', 'args', 'ret', 'guard', 'binders', 'locks', 'file', 'line', 'chain', 'seq', 'loc', 'val', 'op', 'spin', 'cls', 'extra', 'const', 'later')
    def __init__(self, **k):
        for s in self.__slots__: setattr(self, s, k.get(s))
    def where(self): return '%s:%s' % (self.file, self.line)
    def __repr__(self):
        b = ''.join(' for e%s in %s%s' % (x.v.args[0], show(x.coll), ' until ' + showf(x.until) if x.until else '') for x in self.binders)
        if self.kind == 'call': s = '%s%s(%s)' % ((show(self.obj) + '.') if self.obj is not None else '', self.fn.split('::')[-1], ', '.join(show(a) for a in self.args))
        elif self.kind in ('write', 'read'): s = '%s %s %s %s' % (self.kind, show(self.loc), self.op or '=', show(self.val) if self.val is not None else '')
        else: s = '%s %s' % (self.kind, show(self.val) if self.val is not None else self.fn)
        return '%s:%s %s%s  [%s]%s' % (str(self.file).split('/')[-1], self.line, s, b, showf(self.guard), ' locks=' + ','.join(map(show, self.locks)) if self.locks else '')

class Binder:
    __slots__ = ('v', 'coll', 'until')
    def __init__(self, v, coll): self.v = v; self.coll = coll; self.until = FALSE

class Ctx:
    def __init__(self, kind, frame=None):
        self.kind = kind; self.exits = []; self.frame = frame
class Exit:
    __slots__ = ('kind', 'guard', 'val', 'env', 'line', 'locks')
    def __init__(self, kind, guard, val, env, line, locks=()): self.kind = kind; self.guard = guard; self.val = val; self.env = env; self.line = line; self.locks = locks

class Frame:
    def __init__(self, n, fn, parent=None):
        self.n = n; self.fn = fn; self.vars = {}; self.parent = parent; self.this = None; self.retref = False; self.file = fn.get('file') if fn else None
    def find(self, i):
        f = self
        while f is not None:
            if i in f.vars: return f.vars[i]
            f = f.parent
        return None

class State:
    __slots__ = ('env', 'live', 'locks')
    def __init__(self, env, live, locks): self.env = env; self.live = live; self.locks = locks
    def copy(self): return State(dict(self.env), self.live, self.locks)

class Summary:
    pass

class Unsupported(Exception): pass

def key_prefix(k):
    d = 0
    for i, c in enumerate(k):
        if c == '<': d += 1
        elif c == '>': d -= 1
        elif c == '(' and d == 0: return k[:i]
    return k

def parent_loc(L):
    return L.args[0] if L.op in ('f', 'idx') else None

def root_of(L):
    while L.op in ('f', 'idx'): L = L.args[0]
    return L

class Ev:
    MAXDEPTH = 14
    pins = {}
    mpairs = {}
    def __init__(self, M, opaque=(), volatile=(), track=(), devirt=(), pure=(), inline_only=None, throws=True):
        self.M = M; self.F = M['functions']
        core.REC.clear(); core.REC.update(M['records'])
        self.opaque = set(opaque); self.volatile = set(volatile); self.track = set(track); self.devirt = set(devirt); self.purefn = set(pure)
        self.inline_only = inline_only
        self.events = []; self.notes = []; self.st = None; self.frames = []; self.ctxs = []; self.prefix = TRUE; self.binders = []
        self.nframe = 0; self.ntmp = 0; self.stack = []; self.callcount = {}; self.dry = 0; self.lambdas = {}; self.ntry = 0; self.spin = 0; self.scope = []
        self.visited = set(); self.obligations = 0; self.tryatoms = []; self.retobj = None
        self.byname = {}
        for k, f in self.F.items(): self.byname.setdefault(base_name(f['name']), []).append(f)

    # ------------------------------------------------------------ helpers
    @property
    def fr(self): return self.frames[-1]
    def note(self, e, why):
        x = (self.file(e), (e or {}).get('l', 0) if isinstance(e, dict) else 0, why)
        if x not in self.notes: self.notes.append(x)
    def file(self, e=None):
        if isinstance(e, dict) and 'f' in e: return e['f']
        return self.fr.file if self.frames else None
    def ev(self, kind, e=None, **k):
        g = AND(self.prefix, self.st.live)
        if g == 0: return None
        x = Event(kind=kind, guard=g, binders=tuple(self.binders), locks=self.st.locks, file=self.file(e), line=(e or {}).get('l') or self.curline, chain=tuple(self.stack), seq=len(self.events), spin=self.spin, **k)
        self.events.append(x)
        return x
    curline = 0

    def rd_raw(self, env, L):
        v = env.get(L)
        if v is not None: return v
        if L.op == 'f':
            b = self.rd_raw(env, L.args[0])
            return L if b is L.args[0] else mk_field(b, L.args[1])
        if L.op == 'idx':
            b = self.rd_raw(env, L.args[0])
            return L if b is L.args[0] else mk_idx(b, L.args[1])
        if L.op == 'mval':
            b = self.rd_raw(env, L.args[0])
            return mget(b, L.args[1])
        if L.op == 'case': return mk_case([(g.args[0], self.rd_raw(env, v)) for v, g in L.args])
        return L
    def rd(self, L, env=None):
        env = self.st.env if env is None else env
        base = env.get(L)
        if base is None: base = self.rd_raw(env, L)
        elif base.op in ('c', 'b', 'poly', 'addr', 'iter', 'seq0', 'app', 'arr') or root_of(L).op not in ('var', 'tmp'): return base
        kids = {}
        for K in env:
            if K.op in ('f', 'idx') :
                p = K
                while p.op in ('f', 'idx') and p.args[0] is not L: p = p.args[0]
                if p.op in ('f', 'idx') and p.args[0] is L: kids[p.args[1]] = p
        if not kids: return base
        items = []
        for k, K in sorted(kids.items(), key=lambda x: x[0] if isinstance(x[0], str) else 'zz%d' % x[0].id):
            v = self.rd(K, env)
            if v is not mk_field(base, k) if isinstance(k, str) else True: items.append((k, v))
        if not items: return base
        return mk_obj(base, items)
    def wr(self, L, v, e=None, op=None, quiet=False):
        env = self.st.env
        if L.op == 'case':
            l0 = self.st.live
            for LL, g in L.args:
                self.wr(LL, mk_ite(g.args[0], v, self.rd(LL)), e, op)
            return
        if L.op == 'idx' and L.args[1].op == 'c':
            b = self.rd(L.args[0])
            if b.op == 'arr' and is_num(L.args[1]) and 0 <= num(L.args[1]) < len(b.args):
                i = int(num(L.args[1])); xs = list(b.args); xs[i] = v
                self.drop(L.args[0]); env[L.args[0]] = mk('arr', *xs)
                if not quiet: self.wev(L, v, e, op)
                return
        if L.op == 'mval':
            b = self.rd(L.args[0]); self.drop(L.args[0]); env[L.args[0]] = mset(b, L.args[1], v)
            if not quiet: self.wev(L, v, e, op)
            return
        bk = L
        while bk.op == 'f': bk = bk.args[0]
        if bk.op == 'idx' and bk.args[1].op == 'c' and bk.args[1].args[0] == 'back':
            cv = self.rd(bk.args[0])
            if cv.op == 'app' and not cv.args[1][-1][0] and cv.args[1][-1][1].args[0] == 1:
                el = upd_path(cv.args[1][-1][2], path_of(L, bk), v)
                nv = mk('app', cv.args[0], cv.args[1][:-1] + ((cv.args[1][-1][0], cv.args[1][-1][1], el),))
                self.drop(bk.args[0]); env[bk.args[0]] = nv
                if not quiet: self.wev(L, v, e, op)
                return
            if cv.op == 'arr' and cv.args:
                nv = mk('arr', *(cv.args[:-1] + (upd_path(cv.args[-1], path_of(L, bk), v),)))
                self.drop(bk.args[0]); env[bk.args[0]] = nv
                if not quiet: self.wev(L, v, e, op)
                return
            if cv.op in ('phi', 'updlast'):
                self.drop(bk.args[0]); env[bk.args[0]] = mk_updlast(cv, upd_path(mk_idx(cv, bk.args[1]), path_of(L, bk), v))
                if not quiet: self.wev(L, v, e, op)
                return
        if L.op == 'f' and L.args[0].op == 'mval':
            b = self.rd(L.args[0]); self.wr(L.args[0], mk_obj(b, [(L.args[1], v)]), e, op); return
        self.drop(L)
        if L.op == 'f' and L.args[0] in env:
            pv = env[L.args[0]]
            if pv.op in ('new0', 'obj', 'pair'):
                if pv.op == 'pair': pv = mk_obj(mk('new0', 'pair'), [('first', pv.args[0]), ('second', pv.args[1])])
                env[L.args[0]] = mk_obj(pv, [(L.args[1], v)])
                if not quiet: self.wev(L, v, e, op)
                return
        env[L] = v
        if not quiet: self.wev(L, v, e, op)
    publish = {}
    fresh_ = ()
    nfresh = 0
    spins = ()
    def wev(self, L, v, e, op):
        r = root_of(L)
        if r.op == 'var' or r.op == 'tmp': return
        if L.op == 'f' and L.args[1] in self.publish and v is not FALSE_T and not self.dry:
            flds = self.publish[L.args[1]]
            self.ev('publish', e, fn=L.args[1], obj=None, args=[v] + [self.rd(mk('f', r, x)) for x in flds])
        self.ev('write', e, loc=L, val=v, op=op)
    def drop(self, L):
        env = self.st.env
        for K in [K for K in env if K.op in ('f', 'idx') and K is not L and self.under(K, L)]: del env[K]
    @staticmethod
    def under(K, L):
        while K.op in ('f', 'idx'):
            K = K.args[0]
            if K is L: return True
        return False

    def tmp(self, v=None):
        self.ntmp += 1; L = mk('tmp', self.ntmp)
        if v is not None: self.st.env[L] = v
        return L

    # ------------------------------------------------------------ joins
    def join_envs(self, ents):
        """ents: [(guard, env)] with guards disjoint within the care set."""
        ents = [(g, e) for g, e in ents if g != 0]
        if not ents: return {}
        if len(ents) == 1: return dict(ents[0][1])
        keys = []
        seen = set()
        for g, e in ents:
            for k in e:
                if k not in seen: seen.add(k); keys.append(k)
        out = {}
        for k in keys:
            vs = [self.rd_raw(e, k) for g, e in ents]
            if all(v is vs[0] for v in vs):
                if k in ents[0][1] or vs[0] is not k: out[k] = vs[0]
                continue
            # a parent was overwritten on one side: compare composed values
            vs = [self.rd(k, e) for g, e in ents]
            out[k] = self.merge_vals([(g, v) for (g, e), v in zip(ents, vs)])
        return out
    def merge_vals(self, pairs):
        vs = [v for g, v in pairs]
        if all(v is vs[0] for v in vs): return vs[0]
        if all(v.op in ('obj', 'new0') for v in vs):
            bases = {v.args[0] if v.op == 'obj' else v for v in vs}
            if len(bases) == 1:
                b = bases.pop(); ks = sorted({k for v in vs if v.op == 'obj' for k, _ in v.args[1:] if isinstance(k, str)})
                return mk_obj(b, [(k, self.merge_vals([(g, mk_field(v, k)) for g, v in pairs])) for k in ks])
        return merge_case(pairs)

    # ------------------------------------------------------------ running a function
    def run(self, fn, this=THIS, args=None, env=None):
        """Summary of a function body analysed stand-alone."""
        core.REC.clear(); core.REC.update(self.M['records'])
        self.events = []; self.st = State(dict(env or {}), TRUE, ()); self.frames = []; self.ctxs = []; self.prefix = TRUE; self.binders = []; self.stack = [fn['key']] if core.INST and fn.get('key') else []
        self.mpairs = {}; self.callcount = {}; self.notes = []; self.nframe = 0; self.ntmp = 0; self.lambdas = {}; self.tryatoms = []; self.spin = 0
        av = []
        for i, p in enumerate(fn['params']):
            av.append(args[i] if args is not None and i < len(args) else mk('p', i))
        locs = []
        for p, a in zip(fn['params'], av):
            locs.append(('loc', a) if p.get('ref') else ('val', a))
            t = p.get('t', '').replace('&', '').strip()
            if p.get('ref') and args is None and ('msgs::' in t and base_name(t).rstrip('_').endswith('Response') or
                    t in ('transmission_interface::JointData', 'transmission_interface::ActuatorData') and 'Provider::get' in fn.get('key', '')):
                # a service is handed a default-constructed response; the loader hands a provider empty data to fill in
                for fl in core.REC.get(t, {}).get('fields', ()):
                    if zero_value(fl['t']) is SEQ0 or fl['t'].startswith('std::vector'): self.st.env[mk('f', a, fl['n'])] = SEQ0
        ret, ctx = self.body(fn, this, locs)
        s = Summary(); s.fn = fn; s.events = self.events; s.ret = ret; s.env = self.st.env; s.live = self.st.live
        s.throws = [(x.guard, x.val, x.line) for x in ctx.exits if x.kind == 'thr']; s.rets = self.lastrets; s.notes = self.notes
        s.ev = self
        return s

    def body(self, fn, this, locs, lam=None, parent=None):
        """Executes fn (relative guards); returns (value, ctx); lifts nothing itself."""
        self.nframe += 1
        f = Frame(self.nframe, fn, parent); f.this = this; f.fnode = fn
        f.retref = (fn.get('ret') or '').rstrip().endswith('&')
        if f.file is None and parent: f.file = parent.file
        self.frames.append(f); self.visited.add(fn.get('key'))
        ctx = Ctx('fn', f); self.ctxs.append(ctx)
        oscope = self.scope; self.scope = []
        l0, p0 = self.st.live, self.prefix
        self.prefix = AND(p0, l0); self.st.live = TRUE
        locks0 = self.st.locks; spun = self.spun
        try:
            for p, (k, a) in zip(fn['params'], locs):
                if k == 'loc': f.vars[p['id']] = a
                else:
                    L = mk('var', f.n, p['id'], p['n']); f.vars[p['id']] = L; self.st.env[L] = a
            if fn.get('ctor'):
                rec = self.M['records'].get(fn.get('clst') or '')
                done = set()
                for i in fn.get('inits', []):
                    if 'field' in i:
                        L = mk('f', this, i['field']); done.add(i['field'])
                        fl = [x for x in (rec or {}).get('fields', []) if x['n'] == i['field']]
                        if fl and fl[0]['t'].rstrip().endswith('&'):
                            self.wr(L, mk('addr', self.lv(i['e'])), i['e'], quiet=True); self.st.env[L] = mk('addr', self.lv(i['e']))
                            continue
                        v = self.val(i['e']) if i['e'] is not None else default_value(fl[0]['t'] if fl else '')
                        if i.get('written', True) or v.op not in ('undef',): self.wr(L, v, i['e'] if isinstance(i['e'], dict) else None)
                    elif 'base' in i:
                        self.ctor_into(i['e'], this)
                    else:
                        self.ctor_into(i['e'], this)
            self.exec(fn.get('body'))
        finally:
            self.ctxs.pop(); self.frames.pop(); self.scope = oscope
        self.st.locks = locks0
        rets = [x for x in ctx.exits if x.kind == 'ret']
        ents = [(x.guard, x.env) for x in rets]
        if self.st.live != 0: ents.append((self.st.live, self.st.env))
        val = None
        vals = [(x.guard, x.val) for x in rets if x.val is not None]
        self.lastrets = [(x.guard, x.val, x.line) for x in rets]
        if vals: val = merge_case(vals)
        if ents: self.st.env = self.join_envs(ents)
        thr = FALSE
        for x in ctx.exits:
            if x.kind == 'thr': thr = OR(thr, x.guard)
        if self.spun != spun: l0, p0 = self.novol(l0), self.novol(p0)       # it waited: what was read before may have changed
        self.prefix = p0
        lv = FALSE
        for g, _ in ents: lv = OR(lv, g)
        self.st.live = AND(l0, lv)
        # forget the frame's locals
        self.st.env = {k: v for k, v in self.st.env.items() if not (root_of(k).op == 'var' and root_of(k).args[0] == f.n)}
        ctx.exits = [x for x in ctx.exits if x.kind != 'ret']
        for x in ctx.exits: x.guard = AND(l0, x.guard)
        return val, ctx

    def lift(self, ctx):
        if self.ctxs: self.ctxs[-1].exits += ctx.exits

    # ------------------------------------------------------------ statements
    def exec(self, s):
        if s is None or self.st.live == 0: return
        m = getattr(self, 's_' + s['k'], None)
        if m is None: self.note(s, 'statement ' + s['k']); return
        if 'l' in s: self.curline = s['l']
        m(s)
    def s_block(self, s):
        n = self.st.locks; sc = self.scope; self.scope = []
        for x in s['b']: self.exec(x)
        self.release(); self.scope = sc
    def release(self):
        for m in reversed(self.scope):
            if m in self.st.locks:
                l = list(self.st.locks); l.reverse(); l.remove(m); l.reverse(); self.st.locks = tuple(l)
                self.ev('unlock', None, val=m)
    def s_null(self, s): pass
    def s_opaque(self, s): self.note(s, 'statement ' + s.get('cls', '?'))
    def s_expr(self, s): self.val(s['e'], stmt=True)
    def s_decl(self, s):
        for v in s['v']: self.vardecl(v, s)
    def vardecl(self, v, s=None):
        f = self.fr
        i = v.get('i')
        if v.get('bind'):
            src = self.lv(i) if v.get('ref') else self.tmp(self.val(i))
            for j, b in enumerate(v['bind']):
                t = self.rd(src)
                if b.get('i') is not None and b['i'].get('k') == 'mem': f.vars[b['id']] = mk('f', src, b['i']['n'])
                else: f.vars[b['id']] = mk('f', src, ('first', 'second')[j]) if j < 2 else mk('f', src, str(j))
            return
        if v.get('ref'):
            if i is None: return
            if self.is_lvalue(i): f.vars[v['id']] = self.lv(i)
            else:
                L = mk('var', f.n, v['id'], v['n']); f.vars[v['id']] = L; self.st.env[L] = self.val(i)
            return
        L = mk('var', f.n, v['id'], v['n']); f.vars[v['id']] = L
        self.drop(L)
        if LOCK_RE.match(v['t']):
            self.lockdecl(v, L, s); return
        if v.get('static'): self.note(s, 'function-local static'); 
        if i is None:
            m = re.match(r'^(.*?)\[(\d+)\]$', v['t'])
            if m and int(m.group(2)) <= 16: self.st.env[L] = mk('arr', *[default_value(m.group(1).strip())] * int(m.group(2)))
            else: self.st.env[L] = default_value(v['t'])
        else:
            self.st.env[L] = self.val(i, want=v['t'])
    def lockdecl(self, v, L, s):
        i = v.get('i')
        a = (i or {}).get('a') or []
        while isinstance(a, dict):
            if a.get('k') == 'ctor': i = a; a = i.get('a') or []
            else: a = []
        ms = []
        defer = False
        for x in a:
            if x.get('k') in ('ref', 'ctor') and ('defer_lock' in str(x.get('q', '')) or 'defer_lock' in str(x.get('t', ''))): defer = True; continue
            if 'try_to_lock' in str(x.get('q', '')) or 'adopt_lock' in str(x.get('q', '')): continue
            ms.append(self.lv(x))
        self.st.env[L] = mk('lockobj', *ms)
        if not defer:
            for m in ms: self.acquire(m, s)
    def acquire(self, m, e):
        self.ev('lock', e, val=m)
        self.st.locks = self.st.locks + (m,); self.scope.append(m)
    def s_if(self, s):
        if s.get('init'): self.exec(s['init'])
        if s.get('var'): self.vardecl(s['var'], s)
        c = self.cond(s['c'])
        self.branch(c, lambda: self.exec(s.get('t')), lambda: self.exec(s.get('e')))
    def branch(self, c, f1, f2, vals=False):
        st = self.st
        if st.live == 0: return None
        l0 = st.live
        t, e = AND(l0, c), AND(l0, NOT(c))
        if t == 0:
            r = f2(); return r
        if e == 0:
            r = f1(); return r
        s1, s2 = st.copy(), st.copy()
        s1.live, s2.live = t, e
        self.st = s1; v1 = f1(); s1 = self.st
        self.st = s2; v2 = f2(); s2 = self.st
        lk = tuple(x for x in s1.locks if x in s2.locks) if s1.live != 0 and s2.live != 0 else (s1.locks if s1.live != 0 else s2.locks)
        self.st = State(self.join_envs([(c, s1.env), (NOT(c), s2.env)]) if s1.live != 0 and s2.live != 0 else (s1.env if s1.live != 0 else s2.env), OR(s1.live, s2.live), lk)
        if vals:
            if v1 is None or s1.live == 0: return v2
            if v2 is None or s2.live == 0: return v1
            return mk_ite(c, v1, v2)
    def s_return(self, s):
        v = None
        if s.get('e') is not None:
            f = self.fr
            if f.retref and self.is_lvalue(s['e']): v = self.lv(s['e'])
            elif f.retref: v = self.tmp(self.val(s['e']))
            else: v = pinned(self.val(s['e'], want=(f.fn or {}).get('ret')), self.st.live)
        self.exit('ret', v, s)
    def exit(self, kind, v, s):
        if self.st.live == 0: return
        self.ctxs[-1].exits.append(Exit(kind, self.st.live, v, dict(self.st.env), s.get('l'), self.st.locks))
        self.st.live = FALSE
    def s_break(self, s): self.exit('brk', None, s)
    def s_continue(self, s): self.exit('cont', None, s)

    def s_switch(self, s):
        if s.get('init'): self.exec(s['init'])
        c = self.val(s['c'])
        items = s['body']['b'] if s['body'] and s['body']['k'] == 'block' else [s['body']]
        groups = []           # (labels, [stmts]); label None = default
        def unlabel(x):
            labs = []
            while x is not None and x['k'] in ('case', 'default'):
                labs.append(x['e'] if x['k'] == 'case' else None); x = x.get('s')
            return labs, x
        for x in items:
            labs, y = unlabel(x)
            if labs: groups.append((labs, [y]))
            elif groups: groups[-1][1].append(x)
        known = FALSE
        for labs, _ in groups:
            for l in labs:
                if l is not None: known = OR(known, eq(c, self.val(l)))
        ctx = Ctx('switch'); self.ctxs.append(ctx)
        l0 = self.st.live; e0 = dict(self.st.env); p0 = self.prefix
        self.prefix = AND(p0, l0)
        cur = None; curlive = FALSE; taken = FALSE
        for labs, body in groups:
            g = FALSE
            for l in labs: g = OR(g, NOT(known) if l is None else eq(c, self.val(l)))
            ents = []
            if curlive != 0: ents.append((curlive, cur))
            if g != 0: ents.append((g, e0))
            if not ents: continue
            self.st.env = self.join_envs(ents); self.st.live = OR(curlive, g)
            for x in body: self.exec(x)
            cur, curlive = self.st.env, self.st.live
        self.ctxs.pop(); self.prefix = p0
        has_def = any(None in labs for labs, _ in groups)
        ents = [(x.guard, x.env) for x in ctx.exits if x.kind == 'brk']
        if curlive != 0: ents.append((curlive, cur))
        if not has_def: ents.append((NOT(known), e0))
        lv = FALSE
        for g, _ in ents: lv = OR(lv, g)
        self.st.env = self.join_envs(ents); self.st.live = AND(l0, lv)
        for x in ctx.exits:
            if x.kind != 'brk': x.guard = AND(l0, x.guard); self.ctxs[-1].exits.append(x)

    def s_try(self, s):
        ctx = Ctx('try'); self.ctxs.append(ctx)
        l0 = self.st.live; p0 = self.prefix; locks0 = self.st.locks; spun = self.spun
        self.prefix = AND(p0, l0); self.st.live = TRUE
        self.ntry += 1; self.tryatoms.append([h['t'] for h in s['h']])
        try: self.exec(s['body'])
        finally: self.ntry -= 1; self.tryatoms.pop(); self.ctxs.pop()
        ents = [(self.st.live, self.st.env)] if self.st.live != 0 else []
        thr = [x for x in ctx.exits if x.kind == 'thr']
        rest = [x for x in ctx.exits if x.kind != 'thr']
        for h in s['h']:
            mine, left = [], []
            for x in thr:
                t = x.val.args[0] if x.val is not None and x.val.op == 'exc' else '?'
                if t == 'any' and h['t'] != '...' and len(x.val.args) > 1:
                    # thrown by a call we do not see into: it may be of the handler's type or not
                    isa = self.exc_isa(x.val.args[1], h['t'])
                    g1, g2 = AND(x.guard, isa), AND(x.guard, NOT(isa))
                    if g1 != 0: mine.append(Exit('thr', g1, x.val, x.env, x.line, x.locks))
                    if g2 != 0: left.append(Exit('thr', g2, x.val, x.env, x.line, x.locks))
                    continue
                (mine if self.catches(h['t'], t) else left).append(x)
            thr = left
            if not mine: continue
            g = FALSE
            for x in mine: g = OR(g, x.guard)
            hc = Ctx('handler'); self.ctxs.append(hc)
            self.st = State(self.join_envs([(x.guard, x.env) for x in mine]), g, locks0)
            self.curexc = mine[0].val
            if h.get('var'):
                L = mk('var', self.fr.n, h['var']['id'], h['var']['n']); self.fr.vars[h['var']['id']] = L; self.st.env[L] = mk('excobj')
            self.exec(h['body'])
            self.ctxs.pop()
            rest += hc.exits
            if self.st.live != 0: ents.append((self.st.live, self.st.env))
        rest += thr
        if self.spun != spun: l0, p0 = self.novol(l0), self.novol(p0)
        self.prefix = p0
        lv = FALSE
        for g, _ in ents: lv = OR(lv, g)
        self.st = State(self.join_envs(ents) if ents else {}, AND(l0, lv), locks0)
        for x in rest: x.guard = AND(l0, x.guard); self.ctxs[-1].exits.append(x)
    def exc_isa(self, r, h):
        h = re.sub(r'^const |\s*&$', '', h).strip()
        anc = {h}; todo = [h]
        while todo:
            for b in list(self.M['bases'].get(todo[-1], [])) + list(STDEXC.get(todo.pop(), [])):
                if b not in anc: anc.add(b); todo.append(b)
        return OR(*[AND(g, *[atom(mk('excisa', w, a)) for a in sorted(anc)]) for g, w in leaves(r)])
    def catches(self, h, t):
        if h == '...': return True
        if t == 'any': return True
        seen, todo = set(), [t]
        while todo:
            x = todo.pop()
            if x == h: return True
            if x in seen: continue
            seen.add(x); todo += self.M['bases'].get(x, [])
        return False

    # ------------------------------------------------------------ loops
    def s_rangefor(self, s):
        if s.get('init'): self.exec(s['init'])
        r = s['range']
        loc = None
        if self.is_lvalue(r): loc = self.lv(r); coll = self.rd(loc)
        else: coll = self.val(r)
        v = s['var']
        def bind(el):
            f = self.fr
            if v.get('bind'):
                src = el if v.get('ref') or el.op in ('bv',) else self.tmp(el)
                for j, b in enumerate(v['bind']):
                    if b.get('i') is not None and b['i'].get('k') == 'mem': f.vars[b['id']] = mk('f', src, b['i']['n'])
                    else: f.vars[b['id']] = mk('f', src, ('first', 'second')[j])
                    if src.op == 'pair': f.vars[b['id']] = self.tmp(mk_field(src, ('first', 'second')[j]))
                return
            if v.get('ref') and el.op in ('bv',): f.vars[v['id']] = el
            else:
                L = mk('var', f.n, v['id'], v['n']); f.vars[v['id']] = L; self.drop(L); self.st.env[L] = el
        self.foreach(coll, bind, lambda: self.exec(s['body']), s, loc=loc)
    def s_while(self, s):
        def condf():
            if s.get('var'): self.vardecl(s['var'], s)
            return self.cond(s['c'])
        self.genloop(s, condf, None, lambda: self.exec(s['body']))
    def s_for(self, s):
        sc = self.scope; self.scope = []
        if s.get('init'): self.exec(s['init'])
        self.genloop(s, (lambda: self.cond(s['c'])) if s.get('c') is not None else (lambda: TRUE), (lambda: self.val(s['inc'], stmt=True)) if s.get('inc') is not None else None, lambda: self.exec(s['body']))
        self.release(); self.scope = sc
    def s_do(self, s):
        self.genloop(s, lambda: self.cond(s['c']), None, lambda: self.exec(s['body']), post=True)

    def one_iter(self, body, inc=None):
        """Runs body from the current state; returns (exits other than continue, end env, end live)."""
        ctx = Ctx('loop'); self.ctxs.append(ctx)
        sc = self.scope; self.scope = []
        try: body()
        finally: self.ctxs.pop(); self.scope = sc
        ents = [(x.guard, x.env) for x in ctx.exits if x.kind == 'cont']
        if self.st.live != 0: ents.append((self.st.live, self.st.env))
        lv = FALSE
        for g, _ in ents: lv = OR(lv, g)
        if ents: self.st.env = self.join_envs(ents)
        self.st.live = lv
        if inc and lv != 0: inc()
        return [x for x in ctx.exits if x.kind != 'cont']

    def genloop(self, s, condf, inc, body, post=False):
        st0 = self.st
        if st0.live == 0: return
        # --- discover loop-carried variables with a dry pass
        nev = len(self.events); nno = len(self.notes)
        W = {}
        E0, l0, p0, locks0 = dict(st0.env), st0.live, self.prefix, st0.locks
        cc = dict(self.callcount); nf = self.nframe
        res = None
        drv = {}
        for rnd in range(6):
            self.callcount = dict(cc)
            env = dict(E0)
            for L, ph in W.items():
                for K in [K for K in env if self.under(K, L)]: del env[K]
                env[L] = ph
            self.st = State(env, TRUE, locks0); self.prefix = AND(p0, l0)
            c = condf() if not post else TRUE
            self.st.live = AND(self.st.live, c)
            ex = self.one_iter(body, inc)
            end = self.st
            new = False
            ents = [end.env] if end.live != 0 else []
            for e in ents:
                for K in e:
                    r = root_of(K)
                    if r.op == 'tmp' or (r.op == 'var' and r not in E0): continue
                    if K in W: continue
                    if any(self.under(K, L) for L in W): continue
                    if self.rd_raw(e, K) is not self.rd_raw(E0, K):
                        # what the current position selects is not carried
                        if drv and K.op != 'var' and any(x in subterms(K) for x in drv.values()): continue
                        W[K] = mk('phi', s.get('l', 0), K); new = True
            if rnd == 0 and not post:
                # the variable that walks a collection comes first: other locations are found relative to it
                drv = {L: ph for L, ph in W.items() if L.op == 'var' and self.rd_raw(E0, L).op == 'beg'}
                if drv and len(W) > len(drv): W = dict(drv)
            del self.events[nev:]; del self.notes[nno:]
            res = (c, ex, end)
            if not new: break
        self.prefix = p0; self.callcount = cc
        c, ex, end = res
        # --- which variable drives the loop?
        for L, ph in W.items():
            if L.op != 'var' or post: continue
            init = self.rd_raw(E0, L)
            if end.live == 0: continue
            nxt = self.rd_raw(end.env, L)
            nxt = simp(nxt, end.live)
            self.past_end = False
            it = self.iteration(L, ph, init, nxt, c, E0, W)
            if it is None: continue
            if self.past_end:
                # one round more, with the position one past the last
                if any(x.kind == 'brk' for x in ex): continue
                coll, mkval, finalval, extra = it
                self.st = State(E0, l0, locks0)
                def bind(el): self.st.env[L] = mkval(el)
                self.foreach(coll, bind, body, s, hide={L}, final=(L, finalval))
                if self.st.live != 0:
                    self.st.env[L] = finalval
                    self.prefix = AND(p0, self.st.live); lv = self.st.live; self.st.live = TRUE
                    ex = self.one_iter(body, inc)
                    self.prefix = p0; self.st.live = AND(lv, self.st.live)
                    for x in ex: x.guard = AND(lv, x.guard); self.ctxs[-1].exits.append(x)
                return
            coll, mkval, finalval, extra = it
            self.st = State(E0, l0, locks0)
            own = extra != TRUE and not any(x in subterms(t) for t in support(extra) for x in W.values() if x is not ph)
            if own:
                # the additional condition is about the position only: leave at the first position where it fails
                def bind(el): self.st.env[L] = mkval(el)
                def b3(): self.branch(condf(), body, lambda: self.exit('brk', None, s))
                self.foreach(coll, bind, b3, s, hide={L}, final=(L, finalval))
                return
            pins, ok = self.pin(extra, W, L)
            if not ok:
                self.note(s, 'loop exit depends on loop-carried state')
            posfree = not any(ph in subterms(t) for t in support(extra))
            cur = [None]
            def bind(el): cur[0] = self.st.env[L] = mkval(el)
            def b2():
                body()
                if extra != TRUE and self.st.live != 0:
                    if posfree: self.st.env[L] = cur[0]      # the position itself is not what ends the loop here
                    cc2 = condf()
                    self.branch(cc2, lambda: None, lambda: self.exit('brk', None, s))
            if extra == TRUE:
                self.foreach(coll, bind, b2, s, hide={L}, final=(L, finalval))
            else:
                # the additional condition also has to hold on entry
                m = {ph2: self.rd_raw(E0, L2) for L2, ph2 in W.items()}
                ent = Subst(m).formula(extra)
                self.branch(ent, lambda: self.foreach(coll, bind, b2, s, hide={L}, final=(L, finalval), pins=pins), lambda: None)
            return
        # constant unrolling
        un = self.try_unroll(s, condf, inc, body, W, E0, l0, locks0, post)
        if un: return
        self.spinloop(s, condf, inc, body, W, E0, l0, locks0, post)

    def iteration(self, L, ph, init, nxt, c, E0, W):
        def fsub(f, m): return Subst(m).formula(f)
        sup = support(c)
        # iterator:  it = beg(coll);  it != end(coll);  ++it
        if init.op == 'beg' and nxt.op == 'next' and nxt.args[0] is ph:
            coll = init.args[0]
            a = eq(ph, mk('end', coll))
            if implies(c, NOT(a)):
                extra = TRUE if c == NOT(a) else restrict_atom(c, a, False)
                return coll, (lambda el: mk('iter', el, coll)), mk('end', coll), extra
        # index:  i = 0;  i < size(coll);  ++i
        if is_num(init) and num(init) == 0 and nxt is add(ph, C(1)):
            for t in sup:
                g = None
                if t.op in ('pos', 'eq'):
                    szs = [x for x in subterms(t) if x.op in ('size', 'ssize')]
                    for z in szs:
                        g1, g2, g3 = lt(ph, z), NOT(eq(ph, z)), NOT(lt(z, ph))
                        for g in (g1, g2) + ((g3,) if c == g3 else ()):
                            if g not in (0, 1) and implies(c, g):
                                coll = z.args[0]
                                if any(x in subterms(coll) for x in W.values()): continue
                                if coll.op == 'app':
                                    # the size forgets the elements: find the sequence that has it
                                    cs = {v for v in E0.values() if v.op == 'app' and mk_size(v) is z}
                                    if len(cs) != 1: continue
                                    coll = cs.pop()
                                extra = TRUE if c == g else restrict_lit(c, g)
                                self.past_end = g is g3 and g not in (g1, g2)
                                return coll, (lambda el, coll=coll: mk('ix', el, coll)), z, extra
        # chain:  e = first;  e;  e = next(e)
        if c != 1:
            nn = atom(mk('nn', ph))
            if implies(c, nn) and nxt.op == 'call' and ph in subterms(nxt) and not any(x in subterms(nxt) for x in W.values() if x is not ph):
                v = mk('bvc', 0)
                # the step: next(addr(element))
                step = Subst({ph: v}).term(nxt)
                coll = mk('chain', init, step)
                extra = TRUE if c == nn else restrict_atom(c, nn, True)
                return coll, (lambda el: mk_addr(el)), NULL, extra
        return None

    def try_unroll(self, s, condf, inc, body, W, E0, l0, locks0, post):
        """Loops whose condition is decided by constants for at most 12 rounds."""
        drv = [L for L in W if L.op == 'var' and is_num(self.rd_raw(E0, L))]
        if not drv or post: return False
        # test quickly whether the condition is constant at entry and eventually false
        nev = len(self.events); nno = len(self.notes)
        cc = dict(self.callcount); p0 = self.prefix
        self.st = State(dict(E0), l0, locks0)
        brks = []; ok = True
        others = []
        for n in range(13):
            c = condf()
            if c == 0: break
            if c != 1 or n == 12: ok = False; break
            self.prefix = AND(p0, self.st.live); lv = self.st.live; self.st.live = TRUE
            ex = self.one_iter(body, inc)
            self.prefix = p0; self.st.live = AND(lv, self.st.live)
            for x in ex:
                x.guard = AND(lv, x.guard)
                (brks if x.kind == 'brk' else others).append(x)
            if self.st.live == 0: break
        if not ok:
            del self.events[nev:]; del self.notes[nno:]; self.callcount = cc; self.prefix = p0; self.st = State(E0, l0, locks0)
            return False
        self.ctxs[-1].exits += others
        self.after(brks)
        return True
    def after(self, brks):
        ents = [(x.guard, x.env) for x in brks]
        if self.st.live != 0: ents.append((self.st.live, self.st.env))
        lv = FALSE
        for g, _ in ents: lv = OR(lv, g)
        if ents: self.st.env = self.join_envs(ents)
        self.st.live = lv

    def is_vol(self, t):
        return any(x.op == 'f' and x.args[1] in self.volatile or x.op == 'vcall' for x in subterms(t))

    spun = 0
    def novol(self, f): return exists_atoms(f, [t for t in support(f) if self.is_vol(t)]) if f > 1 else f
    def spinloop(self, s, condf, inc, body, W, E0, l0, locks0, post):
        """Loops not driven by a collection: the body may run any number of times."""
        p0 = self.prefix
        env = dict(E0)
        for L, ph in W.items():
            for K in [K for K in env if self.under(K, L)]: del env[K]
            env[L] = ph
        lq, pq = self.novol(l0), self.novol(p0)
        if lq != l0 or pq != p0: self.spun += 1
        self.st = State(env, TRUE, locks0); self.prefix = AND(p0, l0) if post else AND(pq, lq)
        self.spin += 1
        c = condf() if not post else TRUE
        envc = dict(self.st.env)
        self.st.live = AND(self.st.live, c)
        ex = self.one_iter(body, inc)
        if post:
            envc = dict(self.st.env); lvb = self.st.live
            if lvb != 0: c = condf()
        self.spin -= 1
        self.prefix = pq
        ents = [(NOT(c), envc)] if c != 1 else []
        for x in ex:
            g = x.guard
            if x.kind == 'brk': ents.append((g, x.env))
            else:
                x.guard = AND(lq, g); self.ctxs[-1].exits.append(x)
        lv = FALSE
        for g, _ in ents: lv = OR(lv, g)
        self.st = State(self.join_envs(ents) if ents else dict(E0), AND(lq, lv), locks0)
        if pq != p0: self.prefix = pq
        if not self.dry and any(self.is_vol(t) or t.op in ('call', 'vcall') for t in support(c)): self.spins = list(self.spins) + [(self.file(s), s.get('l'), showf(NOT(c)))]
        vol = all(self.is_vol(t) or any(x.op == 'call' for x in subterms(t)) for t in support(c))
        if [L for L in W if root_of(L).op == 'var' and L.op == 'var' and L in E0] and not vol:
            self.note(s, 'loop not driven by a collection')

    def pin(self, extra, W, L):
        """Loop-carried values determined by the literals of the additional loop condition."""
        pins = {}
        ok = True
        todo = extra
        inv_ = {ph: l for l, ph in W.items()}
        for t in support(extra):
            for val in (True, False):
                if implies(extra, atom(t) if val else NOT(atom(t))):
                    if t in inv_ : pins[inv_[t]] = TRUE_T if val else FALSE_T
                    elif t.op == 'nn' and t.args[0] in inv_ and not val: pins[inv_[t.args[0]]] = NULL
                    elif t.op == 'nn' and t.args[0] in inv_: ok = False
                    elif t.op == 'eq' and t.args[0] in inv_ and t.args[1].op == 'c' and val: pins[inv_[t.args[0]]] = t.args[1]
                    elif any(ph in subterms(t) for ph in inv_): ok = False
                    break
            else:
                if any(ph in subterms(t) for ph in inv_): ok = False
        return pins, ok
    def foreach(self, coll, bind, body, s, loc=None, hide=(), final=None, pins=None):
        brks = []
        op = self.pins; self.pins = pins or {}
        try: self.pieces(coll, bind, body, s, brks, set(hide))
        finally: self.pins = op
        if final is not None and self.st.live != 0: self.st.env[final[0]] = final[1]
        self.after(brks)

    def pieces(self, coll, bind, body, s, brks, hide):
        if self.st.live == 0: return
        if core.INST: coll = core.elems(coll)
        if coll.op == 'seq0' or coll.op == 'new0': return
        if coll.op == 'case':
            for v, g in coll.args:
                pass
            def go(lst):
                if not lst: return
                v, g = lst[0]
                if len(lst) == 1: self.pieces(v, bind, body, s, brks, hide); return
                self.branch(g.args[0], lambda: self.pieces(v, bind, body, s, brks, hide), lambda: go(lst[1:]))
            go(list(coll.args)); return
        if coll.op == 'arr':
            for x in coll.args:
                if self.st.live == 0: return
                p0, lv = self.prefix, self.st.live
                self.prefix = AND(p0, lv); self.st.live = TRUE
                def b(): bind(x); body()
                ex = self.one_iter(b)
                self.prefix = p0; self.st.live = AND(lv, self.st.live)
                for y in ex:
                    y.guard = AND(lv, y.guard)
                    (brks if y.kind == 'brk' else self.ctxs[-1].exits).append(y)
            return
        if coll.op == 'app':
            self.pieces(coll.args[0], bind, body, s, brks, hide)
            for bs, g, x in coll.args[1]:
                m, fresh = {}, []
                for v, c in bs:
                    c2 = Subst(m).term(c) if m else c
                    w = fresh_bv(c2); fresh.append((w, c2)); m[v] = w
                S = Subst(m)
                self.piece(fresh, S.formula(g.args[0]), S.term(x), bind, body, s, brks, hide)
            return
        v = fresh_bv(coll)
        self.piece([(v, coll)], TRUE, v, bind, body, s, brks, hide)

    def piece(self, bs, g, x, bind, body, s, brks, hide):
        """One loop over all bindings of bs with guard g; element x."""
        if self.st.live == 0: return
        st0 = self.st; E0, l0, p0, locks0 = dict(st0.env), st0.live, self.prefix, st0.locks
        nev = len(self.events); nno = len(self.notes); cc = dict(self.callcount)
        W = {}
        bobjs = [Binder(v, c) for v, c in bs]
        self.binders = self.binders + bobjs
        single_shot = not bs
        if not single_shot:
            # alternatives that are excluded where the loop runs
            ctx = AND(p0, l0)
            if ctx != 1 and ctx != 0:
                for K, v in st0.env.items():
                    if v.op in ('case', 'app') or v.op == 'b' and root_of(K).op in ('var', 'tmp'): E0[K] = simp(v, ctx)
        pins, self.pins = self.pins, {}
        ctr = {}; settled = {}
        for rnd in range(7):
            del self.events[nev:]; del self.notes[nno:]; self.callcount = dict(cc)
            env = dict(E0)
            for L, ph in W.items():
                for K in [K for K in env if self.under(K, L)]: del env[K]
                env[L] = ph
            self.st = State(env, g, locks0); self.prefix = AND(p0, l0)
            self.st.env = env
            def b(): bind(x); body()
            ex = self.one_iter(b)
            end = self.st
            new = False
            if not single_shot:
                for e in ([end.env] if end.live != 0 else []):
                    for K in list(e):
                        r = root_of(K)
                        if K in hide or r.op == 'tmp' or (r.op == 'var' and r not in E0) or K in W: continue
                        if any(b_.v in bvs(K) for b_ in bobjs): continue
                        if any(self.under(K, L) for L in W): continue
                        a = self.rd_raw(e, K)
                        if a is not self.rd_raw(E0, K):
                                    W[K] = pins.get(K) or mk('phi', s.get('l', 0), K); new = True
                if not new and not ctr and g == 1 and len(bs) == 1 and x is bs[0][0] and end.live != 0:
                    # a variable that counts the elements seen so far is the position of the current one
                    for L, ph in W.items():
                        i0 = self.rd_raw(E0, L)
                        if ph.op != 'phi' or L.op != 'var' or not is_num(i0): continue
                        v = self.rd(L, end.env)
                        if simp(v, end.live) is not add(ph, C(1)): continue
                        ctr[L] = ph; W[L] = add(i0, mk('ix', *bs[0])); new = True
                if not new and not settled and g == 1 and len(bs) == 1 and not ctr and end.live != 0:
                    settled = self.settle(W, E0, end, ex, nev)
                    if settled:
                        for L in settled: W[L] = self.rd_raw(E0, L)
                        new = True
            if not new: break
        for L, ph in ctr.items():
            W[L] = ph
        settled = {L: self.rd_raw(end.env, L) for L in settled}
        def settle_after(env):
            for L, v in settled.items():
                e = lenform(bs[0][1]); i0 = self.rd_raw(E0, L)
                if not any(bs[0][0] in subterms(x) for x in (v,)): env[L] = mk_ite(e, i0, v)
        if bobjs: self.elwrites(end, ex, E0, bobjs)
        self.binders = self.binders[:-len(bobjs)] if bobjs else self.binders
        self.prefix = p0
        if single_shot:
            # straight-line element: guard g relative
            ents = []
            if end.live != 0: ents.append((end.live, end.env))
            if g != 1: ents.append((NOT(g), E0))
            lv = FALSE
            for gg, _ in ents: lv = OR(lv, gg)
            self.st = State(self.join_envs(ents) if ents else {}, AND(l0, lv), locks0)
            for y in ex:
                y.guard = AND(l0, y.guard); (brks if y.kind == 'brk' else self.ctxs[-1].exits).append(y)
            return
        end = self.filters(W, bobjs, ex, end, E0, nev)
        Bt = FALSE
        for y in ex: Bt = OR(Bt, y.guard)
        mine = [e for e in self.events[nev:]]
        if Bt != 0:
            for bo in bobjs[-1:]: bo.until = Bt
        self.pins = pins
        phis = {x for x in W.values() if x.op == 'phi'}
        # element fields written in the body
        elw = {}
        if end.live != 0:
            for K in end.env:
                if any(b_.v in bvs(K) for b_ in bobjs) and root_of(K).op != 'var' and root_of(K).op != 'tmp' and self.rd_raw(end.env, K) is not self.rd_raw(E0, K):
                    elw[K] = self.rd_raw(end.env, K)
        # value of each carried location at the end of an iteration that goes on
        nxt = {}
        cont = AND(end.live, NOT(Bt)) if end.live != 0 else FALSE
        for L, ph in W.items():
            if end.live == 0: nxt[L] = ph; continue
            v = simp(self.rd(L, end.env), AND(g, NOT(Bt)))
            nxt[L] = v if g == 1 else mk_ite(g, v, ph)
            nxt[L] = simp(nxt[L], NOT(Bt)) if Bt != 0 else nxt[L]
            if L in ctr: nxt[L] = add(ph, C(1))
        phi_in_B = any(ph in subterms(t) for t in support(Bt) for ph in phis) if phis and Bt not in (0, 1) else False
        envA = {k: v for k, v in E0.items()}
        def close(f): return self.close_ex(bs, f)
        if Bt == 0:
            envN = dict(E0); self.solve(bs, W, nxt, E0, envN, s, FALSE)
            settle_after(envN)
            grown = self.regrown(bs, g, E0, end, elw, nev)
            self.put_elw(envN, elw, bs, s)
            self.st = State(envN, l0, locks0)
            for L, v in grown: self.wr(L, v)
            return
        if phi_in_B:
            Bt2 = self.unphi(Bt, W, nxt, bs, E0)
            if Bt2 is None:
                self.note(s, 'loop exit depends on loop-carried state')
            else:
                for y in ex: y.guard = self.unphi(y.guard, W, nxt, bs, E0) if self.unphi(y.guard, W, nxt, bs, E0) is not None else y.guard
                Bt = Bt2
                for bo in bobjs[-1:]: bo.until = Bt
        exB = close(Bt)
        passive = all(nxt[L] is W[L] for L in W)
        # normal completion
        envN = dict(E0); self.solve(bs, W, nxt, E0, envN, s, FALSE)
        self.put_elw(envN, elw, bs, s)
        self.st = State(envN, AND(l0, NOT(exB)), locks0)
        # leaving early
        envU = dict(E0)
        if not passive: self.solve(bs, W, nxt, E0, envU, s, Bt)
        fm_ = self.first_map(bs, Bt)
        # merge exits of the same kind and value before instantiating
        groups = []
        for y in ex:
            for z in groups:
                if z.kind == y.kind and z.val is y.val and (z.env == y.env or self.same_env(z.env, y.env, E0)):
                    z.guard = OR(z.guard, y.guard); break
            else: groups.append(y)
        phm = {ph: self.rd_raw(envU, L) for L, ph in W.items() if ph.op == 'phi'}
        phm.update(fm_); S = Subst(phm)
        for y in groups:
            # substitute the first element for which some exit condition holds
            own = [b_.v for b_ in bobjs]
            if y.guard not in (0, 1):
                y.env = {K: indep(v if self.rd_raw(E0, K) is v else pinned(v, y.guard), y.guard, own) for K, v in y.env.items()}
                if y.val is not None: y.val = pinned(y.val, y.guard)
            y.guard = AND(l0, exB, TRUE if y.guard == Bt else S.formula(truth(indep(bterm(y.guard), Bt, own))))
            if y.val is not None: y.val = S.term(simp(y.val, TRUE))
            ne = {}
            for K, v in y.env.items():
                if root_of(K).op == 'var' and root_of(K) not in E0: continue
                ne[S.term(K)] = S.term(v)
            for K, v in envU.items():
                if K not in ne: ne[K] = v
            y.env = ne
            (brks if y.kind == 'brk' else self.ctxs[-1].exits).append(y)

    def settle(self, W, E0, end, ex, nev):
        """Local variables brought into a form the first time round and kept from then on (x = f(x) with f(f(x)) = f(x)), where the
        rest of the loop does the same whether it starts from x or from f(x): every round then acts as from the value on entry."""
        out = {}
        if ex: return out
        for L, ph in W.items():
            if ph.op != 'phi' or L.op != 'var' or self.rd_raw(E0, L).op == 'phi': continue
            f = simp(self.rd(L, end.env), end.live)
            if f is ph or f.op != 'case': continue
            ts = [f] + [simp(self.rd(K, end.env), end.live) for K in W if K is not L]; fs = [end.live]
            for e in self.events[nev:]:
                ts += [a for a in list(e.args or ()) + [e.obj, e.val, e.loc, e.ret] + [b.coll for b in e.binders] if isinstance(a, T)]; fs.append(e.guard)
            ok = True
            for v, g in f.args:
                g = g.args[0]
                if v is ph: continue
                S = Subst({ph: v})
                R = Subst({f: v})
                if not all(simp(S.term(t), g) is simp(R.term(t), g) for t in ts) or not all(AND(g, S.formula(h)) == AND(g, R.formula(h)) for h in fs): ok = False; break
            if ok: out[L] = f
        return out
    def elwrites(self, end, ex, E0, bobjs):
        """What one iteration leaves in the current element (events: final values, not single stores)."""
        st = self.st
        for g, env, locks in [(end.live, end.env, end.locks)] + [(y.guard, y.env, y.locks) for y in ex]:
            if g == 0: continue
            ks = [K for K in env if root_of(K).op not in ('var', 'tmp') and any(b_.v in bvs(K) for b_ in bobjs) and self.rd_raw(env, K) is not self.rd_raw(E0, K)]
            top = [K for K in ks if not any(self.under(K, L) for L in ks if L is not K)]
            for K in sorted(top):
                v = self.rd(K, env)
                self.st = State(env, g, locks)
                items = [(K, v)]
                if v.op == 'obj' and v.args[0] is self.rd_raw(E0, K): items = [(mk('f', K, n), x) for n, x in v.args[1:]]
                for L, x in items:
                    x0 = self.rd_raw(E0, L)
                    for h, w in leaves(x) if x.op == 'case' and any(w is x0 for _, w in leaves(x)) else [(TRUE, x)]:
                        if w is x0: continue
                        self.st = State(env, AND(g, h), locks)
                        self.ev('elwrite', None, loc=L, val=w)
        self.st = st
    def filters(self, W, bobjs, ex, end, E0, nev):
        """Sequences from which only the current element's own key is removed: membership of that key does not depend on the other iterations."""
        m = {}
        for L, ph in W.items():
            if ph.op != 'phi' or end.live == 0: continue
            v = self.rd(L, end.env)
            ks = self.filter_keys(v, ph)
            if not ks: continue
            if not all(self.own_key(k, bobjs) for k in ks): continue
            init = self.rd_raw(E0, L)
            m[L] = (ph, ks, init)
        if not m: return end
        class HS(Subst):
            def term(self, t):
                if t.op == 'has' and t.args[0].op == 'phi':
                    for ph, ks, init in m.values():
                        if t.args[0] is ph and t.args[1] in ks: return mk('b', has(init, t.args[1]))
                return Subst.term(self, t)
        S = HS({})
        for e in self.events[nev:]:
            e.guard = S.formula(e.guard)
            for f in ('obj', 'ret', 'val', 'loc'):
                x = getattr(e, f)
                if isinstance(x, T): setattr(e, f, S.term(x))
            if e.args: e.args = [S.term(a) for a in e.args]
            for b in e.binders:
                if b.until: b.until = S.formula(b.until)
        for y in ex:
            y.guard = S.formula(y.guard)
            if isinstance(y.val, T): y.val = S.term(y.val)
            y.env = {S.term(k): S.term(v) for k, v in y.env.items()}
        return State({S.term(k): S.term(v) for k, v in end.env.items()}, S.formula(end.live), end.locks)
    def filter_keys(self, v, ph):
        """Keys removed if v is ph with some elements filtered out (None otherwise)."""
        ks = []
        for g, w in leaves(v):
            if w is ph: continue
            k = filter_of(w, ph)
            if k is None: return None
            ks.append(k)
        return ks
    def own_key(self, k, bobjs):
        y = core.ukey(k)
        return y is not None and any(y[0] is b.v for b in bobjs) and not any(ph_.op == 'phi' for ph_ in subterms(k))

    def same_env(self, a, b, E0):
        for K in set(a) | set(b):
            if root_of(K).op in ('var', 'tmp') and root_of(K) not in E0: continue
            if self.rd_raw(a, K) is not self.rd_raw(b, K): return False
        return True
    def close_ex(self, bs, f):
        for v, c in reversed(bs): f = exists_over(c, v, f)
        return f
    def first_map(self, bs, Bt):
        if len(bs) == 1:
            v, c = bs[0]
            return {v: mk_first(c, v, Bt)}
        h = max([fdepth(Bt)] + [depth_of(c) for _, c in bs]) + 1
        m = {v: mk('bvc', h + i) for i, (v, c) in enumerate(bs)}
        S = Subst(m)
        key = (tuple((m[v], S.term(c)) for v, c in bs), fm(S.formula(Bt)))
        return {v: mk('firstn', i, *key) for i, (v, c) in enumerate(bs)}
    def regrown(self, bs, g, E0, end, elw, nev):
        """A sequence of as many default elements as the loop runs over, each then filled in at its own
        position, is the sequence that appending the filled-in elements would give."""
        out = []
        if g != 1 or len(bs) != 1 or end.live != 1: return out
        b, c = bs[0]; at = mk('ix', b, c); Ls = []
        for K in elw:
            r = K
            while r.op == 'f' or r.op == 'idx' and r.args[1] is not at: r = r.args[0]
            if r.op == 'idx' and r.args[0] not in Ls: Ls.append(r.args[0])
        for L in Ls:
            v0 = self.rd_raw(E0, L); K0 = mk('idx', L, at)
            if v0.op != 'fill' or v0.args[0] is not mk_size(c) or root_of(L).op == 'var': continue
            ks = [K for K in elw if K is K0 or self.under(K, K0)]
            if any(self.under(K, L) and K not in ks for K in end.env): continue
            el = v0.args[1]
            for K in sorted(ks, key=lambda K: len(path_of(K, K0))): el = upd_path(el, path_of(K, K0), elw[K])
            mine = [e for e in self.events[nev:] if e.kind in ('elwrite', 'write') and e.loc is not None and (e.loc is K0 or self.under(e.loc, K0))]
            if any(at in subterms(v) and K0 in subterms(v) for v in (el,)): continue
            self.events[nev:] = [e for e in self.events[nev:] if not any(e is m for m in mine)]
            for K in ks: del elw[K]
            out.append((L, append_seg(SEQ0, bs, TRUE, el)))
        return out
    def put_elw(self, env, elw, bs, s):
        """Element fields written for every element: the collections change."""
        for K, v in elw.items():
            r = K
            path = []
            while r.op in ('f', 'idx'): path.append(r.args[1]); r = r.args[0]
            if not path: continue
            L0 = mk('f', r, path[-1])
            env[L0] = v if len(path) == 1 else mk('elw', v, self.rd_raw(env, L0)) if len(path) == 2 and K.op == 'idx' else mk('elw', v)
            for k in [k for k in env if k is not K and root_of(k) is r and k.args[1] == path[-1] and False]: del env[k]

    def unphi(self, f, W, nxt, bs, E0):
        """Exit condition over a loop-carried flag that is constant until the exit."""
        m = {}
        for L, ph in W.items():
            if nxt[L] is ph and ph.op == 'phi': m[ph] = self.rd_raw(E0, L)
        f2 = Subst(m).formula(f)
        if any(ph in subterms(t) for t in support(f2) for ph in W.values() if ph not in m): return None
        return f2

    def solve(self, bs, W, nxt, E0, env, s, until):
        """Closed forms of the loop-carried locations after the loop."""
        bs2 = bs
        if until != 0:
            v, c = bs[-1]
            h = max(fdepth(until), depth_of(c)) + 1
            bs2 = bs[:-1] + [(v, mk('until', c, fm(Subst({v: mk('bvc', h)}).formula(until)), h))]
        W, nxt, init, split = self.by_field(W, nxt, E0, s)
        phis = {x for x in W.values() if x.op == 'phi'}
        pend = dict(W)
        progress = True
        while pend and progress:
            progress = False
            for L, ph in list(pend.items()):
                if ph.op != 'phi':          # pinned by the loop condition: unchanged unless the loop is left
                    env_set(env, L, ph); del pend[L]; progress = True; continue
                v = nxt[L]
                deps = [p for p in phis if p is not ph and p in subterms(v)]
                if deps:
                    inv_ = [l for l, p in W.items() if p in deps]
                    # dependence on locations that do not change
                    if all(nxt[l] is W[l] for l in inv_):
                        v = Subst({W[l]: init[l] for l in inv_}).term(v)
                    else: continue
                r = self.solve1(bs2, ph, v, init[L], until)
                if r is None: continue
                env_set(env, L, r); del pend[L]; progress = True
        if pend:
            # mutually dependent or irregular recurrences: one canonical fold
            ls = list(pend)
            h = max([depth_of(nxt[L]) for L in ls] + [depth_of(c) for _, c in bs2]) + 1
            m = {}
            for i, (v, c) in enumerate(bs2): m[v] = mk('bvc', h + i)
            for i, L in enumerate(ls): m[pend[L]] = mk('acc', h, i)
            S = Subst(m)
            sysm = tuple(S.term(nxt[L]) for L in ls)
            colls = tuple(S.term(c) for v, c in bs2)
            inits = tuple(init[L] for L in ls)
            for i, L in enumerate(ls):
                env_set(env, L, mk('fold', i, sysm, colls, inits))
            self.note(s, 'loop recurrence kept as a fold')
        for L, (iv, ks) in split.items():
            out = []
            for k in ks:
                K = mk('f', L, k); out.append((k, env.pop(K)))
            env_set(env, L, mk_obj(iv, out))

    def by_field(self, W, nxt, E0, s):
        """Loop-carried objects of which only fields change are carried field by field."""
        W, nxt = dict(W), dict(nxt); init = {L: self.rd_raw(E0, L) for L in W}; split = {}
        for L, ph in list(W.items()):
            if ph.op != 'phi' or L.op != 'var': continue
            ls = leaves(nxt[L])
            if all(w is ph for _, w in ls) or not all(w is ph or w.op == 'obj' and w.args[0] is ph for _, w in ls): continue
            ks = sorted({k for _, w in ls if w is not ph for k, _ in w.args[1:]})
            if not all(isinstance(k, str) for k in ks): continue
            m = {mk_field(ph, k): mk('phi', s.get('l', 0), mk('f', L, k)) for k in ks}
            for v in nxt.values():
                for t in subterms(v):
                    if t.op == 'f' and t.args[0] is ph and t not in m: m[t] = mk_field(init[L], t.args[1])
            S = Subst(m)
            new = {mk('f', L, k): S.term(mk_case([(g, mk_field(w, k)) for g, w in ls]) if len(ls) > 1 else mk_field(ls[0][1], k)) for k in ks}
            rest = {K: S.term(v) for K, v in nxt.items() if K is not L}
            if any(ph in subterms(v) for v in list(new.values()) + list(rest.values())): continue
            nxt = {**rest, **new}; del W[L]
            for k in ks: W[mk('f', L, k)] = m[mk_field(ph, k)]; init[mk('f', L, k)] = mk_field(init[L], k)
            split[L] = (init[L], ks)
        return W, nxt, init, split

    def solve1(self, bs, ph, v, init, until):
        if v is ph: return init
        if ph.op != 'phi': return None
        # sequences
        if v.op == 'app' and v.args[0] is ph:
            out = init
            for sbs, g, x in v.args[1]:
                m, fresh = {}, []
                for w, c in sbs:
                    c2 = Subst(m).term(c) if m else c
                    w2 = fresh_bv(c2); fresh.append((w2, c2)); m[w] = w2
                S = Subst(m)
                if ph in subterms(x) or any(ph in subterms(t) for t in support(g.args[0])):
                    # "append unless already there" keeps the set of members
                    gg = g.args[0]; hx = has(ph, x)
                    if not sbs and implies(gg, NOT(hx)) and ph not in subterms(x):
                        g2 = restrict_lit(gg, NOT(hx))
                        if g2 is not None and not any(ph in subterms(t) for t in support(g2)):
                            out = append_seg(out, bs, g2, x); continue
                    return None
                out = append_seg(out, bs + fresh, S.formula(g.args[0]), S.term(x))
            return out
        # the last element of a sequence is changed in place
        if v.op == 'updlast' or v.op == 'case' and all(w is ph or w.op == 'updlast' for w, _ in v.args):
            old = mk_idx(ph, mk('c', 'back')); ks = set()
            for w, _ in leaves_of(v):
                if w is ph: continue
                el = w.args[1]
                if w.args[0] is not ph or el.op != 'obj' or el.args[0] is not old or not all(isinstance(k, str) for k, _ in el.args[1:]): return None
                ks |= {k for k, _ in el.args[1:]}
            el0 = mk_idx(init, mk('c', 'back')); el1 = el0
            for k in sorted(ks):
                pk = mk('phi', 0, mk_field(old, k)); vk = mk_case([(g, pk if w is ph else mk_field(w.args[1], k)) for w, g in leaves_of(v)])
                vk = Subst({mk_field(old, k): pk}).term(vk)
                if ph in subterms(vk): return None
                r = self.solve1(bs, pk, vk, mk_field(el0, k), until)
                if r is None: return None
                el1 = upd_path(el1, [k], r)
            return mk_updlast(init, el1)
        # maps of collections:  m[key].push_back(x);  maps filled by key
        r = self.mapform(bs, ph, v, init)
        if r is not None: return r
        # booleans
        if is_boolt(v) or (v.op == 'case' and all(is_boolt(w) or w is ph for w, _ in v.args)):
            f = truth(v); a = mk_atom_of(ph)
            f1, f0 = restrict(f, a, True), restrict(f, a, False)
            i = truth(init)
            if any(ph in subterms(t) for t in support(f1) + support(f0)): return None
            if f1 == 1: return bterm(OR(i, self.close_ex(bs, f0)))
            if f0 == 0: return bterm(AND(i, NOT(self.close_ex(bs, NOT(f1)))))
            if f1 != f0: return None
        ks = self.filter_keys(v, ph)
        if ks and all(filter_of(w, ph) is not None or w is ph for g, w in leaves(v)):
            gs = [(g, filter_of(w, ph), 'dup' in [t.op for t in support(w.args[1][0][1].args[0])]) for g, w in leaves(v) if w is not ph]
            if not any(ph in subterms(t) for g, k, _ in gs for t in support(g)) and not any(ph in subterms(k) for g, k, _ in gs):
                from .lib import seq_filter
                return seq_filter(init, lambda x: NOT(OR(*[AND(self.close_ex(bs, AND(g, eq(x, k))), NOT(atom(mk('dup', x))) if d else TRUE) for g, k, d in gs])))
        # guarded constant assignment / counters
        if v.op == 'case':
            keep = FALSE; rest = []
            for w, g in v.args:
                if w is ph: keep = OR(keep, g.args[0])
                else: rest.append((g.args[0], w))
            if any(ph in subterms(t) for g, w in rest for t in support(g)): return None
            bvset = {b for b, _ in bs}
            if len(rest) == 1:
                g, w = rest[0]
                if w is add(ph, C(1)):
                    return add(init, self.mk_count(bs, g))
                if ph in subterms(w):
                    if w.op == 'mset' and w.args[0] is ph and ph not in subterms(w.args[1]) and ph not in subterms(w.args[2]):
                        return self.mapcomp(bs, g, w, init)
                    return None
                if not (bvs(w) & bvset): return mk_ite(self.close_ex(bs, g), w, init)
                return mk_ite(self.close_ex(bs, g), self.last(bs, g, w), init)
            if rest and all(ph not in subterms(w) for g, w in rest):
                return None
            return None
        if v is add(ph, C(1)): return add(init, self.mk_count(bs, TRUE))
        if v.op == 'mset' and v.args[0] is ph and ph not in subterms(v.args[1]) and ph not in subterms(v.args[2]): return self.mapcomp(bs, TRUE, v, init)
        if ph not in subterms(v):
            bvset = {b for b, _ in bs}
            ne = self.close_ex(bs, TRUE)
            if not (bvs(v) & bvset): return mk_ite(ne, v, init)
            if len(bs) == 1: return mk_ite(ne, Subst({bs[0][0]: mk_idx(bs[0][1], sub(mk_size(bs[0][1]), C(1)))}).term(v), init)
            return mk_ite(ne, self.last(bs, TRUE, v), init)
        return None
    def canon(self, bs, f, x):
        h = max([fdepth(f), depth_of(x)] + [depth_of(c) for _, c in bs]) + 1
        m, out = {}, []
        for i, (v, c) in enumerate(bs):
            out.append((mk('bvc', h + i), Subst(m).term(c) if m else c)); m[v] = mk('bvc', h + i)
        S = Subst(m)
        return tuple(out), fm(S.formula(f)), S.term(x)
    def mk_count(self, bs, g):
        if len(bs) == 1 and g == 1: return mk_size(bs[0][1])
        return mk_size(append_seg(SEQ0, bs, g, C(1)))
    def last(self, bs, g, w): return mk('last', *self.canon(bs, g, w))
    def mapform(self, bs, ph, v, init):
        """Closed form of grouped appends / keyed assignments accumulated over the bindings bs."""
        alts = leaves(v)
        keep = [g for g, w in alts if w is ph]; rest = [(g, w) for g, w in alts if w is not ph]
        if len(rest) != 1: return None
        g, w = rest[0]
        if any(ph in subterms(t) for t in support(g)): return None
        if w.op == 'mset' and w.args[0] is ph:
            k, x = w.args[1], w.args[2]
            if ph in subterms(k): return None
            if x.op == 'app' and x.args[0] is mk('mget', ph, k) and len(x.args[1]) == 1:
                sbs, sg, el = x.args[1][0]
                if ph in subterms(el) or any(ph in subterms(t) for t in support(sg.args[0])) or sbs: return None
                return mk('gmap', init, *self.canon(bs, AND(g, sg.args[0]), mk('pair', k, el)))
            return None
        if w.op in ('gmap', 'mapc') and w.args[0] is ph:
            ibs, ig, kv = w.args[1:]
            m, fresh = {}, []
            for b, c in ibs:
                c2 = Subst(m).term(c) if m else c
                f = fresh_bv(c2); fresh.append((f, c2)); m[b] = f
            S = Subst(m); kv2 = S.term(kv); ig2 = S.formula(ig.args[0])
            if ph in subterms(kv2) or any(ph in subterms(t) for t in support(ig2)) or any(ph in subterms(c) for _, c in fresh): return None
            return mk(w.op, init, *self.canon(bs + fresh, AND(g, ig2), kv2))
        return None
    def mapcomp(self, bs, g, v, init):
        out, f, kv = self.canon(bs, g, mk('pair', v.args[1], v.args[2]))
        return mk('mapc', init, out, f, kv)

    # ------------------------------------------------------------ expressions
    def cond(self, e):
        return self.truthv(self.val(e), e)
    def truthv(self, v, e=None):
        if v is None: return atom(mk('unk', self.file(e), (e or {}).get('l', 0)))
        t = (e or {}).get('t', '') if isinstance(e, dict) else ''
        if v.op == 'case' and not all(is_boolt(w) for w, _ in v.args):
            return OR(*[AND(g.args[0], self.truthv(w, e)) for w, g in v.args])
        if t and (t.rstrip().endswith('*') or PTR_RE.match(t)): return nonnull(v)
        if t in ('int', 'unsigned int', 'long', 'unsigned long', 'double', 'unsigned char'): return NOT(eq(v, C(0)))
        if v.op in ('size', 'ssize', 'poly') : return NOT(eq(v, C(0)))
        return truth(v)

    def is_lvalue(self, e):
        k = e.get('k')
        if k == 'ref': return e.get('d') in ('param', 'local', 'global')
        if k in ('mem', 'idx'): return True
        if k == 'un' and e['op'] in ('*', '++', '--'): return True
        if k == 'cond': return self.is_lvalue(e['a']) and self.is_lvalue(e['b'])
        if k == 'asg': return True
        if k == 'cast': return self.is_lvalue(e['a']) and not e.get('dyn')
        if k == 'call':
            f = self.F.get(e.get('key'))
            if f is not None and (f.get('ret') or '').rstrip().endswith('&'): return self.inlinable(e, f) 
            op = e.get('op')
            n = base_name(e.get('fn', '')).split('::')[-1]
            if n in ('move', 'forward', 'ref', 'cref', 'as_const') and e.get('a'): return self.is_lvalue(e['a'][0])
            if n in ('operator*', 'operator->', 'operator[]', 'at', 'front', 'back', 'operator=', 'operator+=') : return bool(e.get('o')) or n == 'operator*'
        return False

    def lv(self, e):
        L = self.lv0(e)
        if core.INST and L is not None and is_container(e.get('t')) and not isval(L):
            core.setkind(L, e['t'])
            v = self.rd(L)
            if v is not L: core.setkind(v, e['t'])
        return L
    def lv0(self, e):
        k = e.get('k')
        if k == 'ref':
            if e.get('d') == 'global': return mk('glob', e['q'])
            L = self.fr.find(e['id'])
            if L is None:
                L = mk('var', 0, e['id'], e['n'])
            return L
        if k == 'this': return self.fr.this
        if k == 'mem':
            if e['arrow']:
                p = self.val(e['b']); self.deref(p, e)
                b = mk_deref(p)
            else:
                b = self.lv(e['b']) if self.is_lvalue(e['b']) else self.tmp(self.val(e['b']))
            if b.op == 'case': return mk('case', *[(mk('mval', *self.mpairs[x]) if x in self.mpairs and e['n'] == 'second' else mk('f', x, e['n']) if not isval(x) else self.tmp(mk_field(x, e['n'])), g) for x, g in b.args])
            if b in self.mpairs and e['n'] == 'second': return mk('mval', *self.mpairs[b])
            if isval(b): return self.tmp(mk_field(b, e['n']))
            L = mk('f', b, e['n'])
            v = self.st.env.get(L)
            if (e.get('t') or '').rstrip().endswith('&'):
                v = self.rd(L)
                return mk_deref(v) if v is not L else L
            return L
        if k == 'idx':
            a = self.val(e['a']) if not self.is_lvalue(e['a']) else self.lv(e['a'])
            i = self.val(e['b'])
            av = self.rd(a)
            if av.op == 'addr' : return mk('idx', av.args[0], i)
            return self.elem(a, i)
        if k == 'un':
            if e['op'] == '*':
                p = self.val(e['a']); self.deref(p, e); r = mk_deref(p)
                return r if not isval(r) else self.tmp(r)
            if e['op'] in ('++', '--'):
                L = self.lv(e['a']); self.val(e); return L
        if k == 'cond':
            c = self.cond(e['c'])
            a = self.lv(e['a']); b = self.lv(e['b'])
            if c == 1: return a
            if c == 0: return b
            return a if a is b else mk('case', *sorted([(a, fm(c)), (b, fm(NOT(c)))], key=lambda x: x[0].id))
        if k == 'asg':
            self.val(e); return self.lv(e['a'])
        if k == 'cast': return self.lv(e['a'])
        if k == 'copy': return self.lv(e['a']) if self.is_lvalue(e['a']) else self.tmp(self.val(e['a']))
        if k == 'call': return self.call(e, lval=True)
        return self.tmp(self.val(e))
    def elem(self, a, i):
        """Location of element i of the container at location a."""
        av = self.rd(a)
        if i.op == 'ix' and (i.args[1] is av): return i.args[0] if i.args[0].op == 'bv' else self.tmp(i.args[0])
        if a.op == 'case': return mk('case', *[(self.elem(x, i), g) for x, g in a.args])
        if i.op == 'case' and len(i.args) <= 4 and all(is_num(v) for v, _ in i.args): return mk('case', *sorted([(self.elem(a, v), g) for v, g in i.args], key=lambda x: x[0].id))
        return mk('idx', a, i)
    def deref(self, p, e):
        if self.st.live == 0: return
        if p.op in ('addr', 'new', 'iter', 'bv'): return
        self.ev('deref', e, val=p)

    def val(self, e, stmt=False, want=None):
        if e is None: return mk('undef', '?')
        k = e['k']
        m = getattr(self, 'e_' + k, None)
        if m is None:
            self.note(e, 'expression ' + k); return mk('unk', k, self.fresh())
        if 'l' in e and e['l']: self.curline = e['l']
        if k == 'init': return self.e_init(e, want)
        v = m(e)
        if core.INST and v is not None and e.get('t'): core.setkind(v, e['t'])
        return v if v is not None else mk('void')
    def fresh(self):
        self.ntmp += 1; return self.ntmp
    def newobj(self, t):
        n = self.callcount.get(('new', t), 0); self.callcount[('new', t)] = n + 1
        return mk('new', t, n)
    def e_lit(self, e): return C(e['v'])
    def e_null(self, e): return NULL
    def e_this(self, e): return mk('addr', self.fr.this)
    def e_zero(self, e): return zero_value(e['t'])
    def e_opaque(self, e):
        for a in e.get('a', []): self.val(a)
        self.note(e, 'expression ' + e.get('cls', '?')); return mk('unk', e.get('cls', '?'), self.fresh())
    def e_ref(self, e):
        d = e.get('d')
        if d == 'enum': return mk('c', ('enum', e['q'], e['v']))
        if d == 'global':
            if 'init' in e: return const_expr(e['init'])
            return self.rd(mk('glob', e['q']))
        if d == 'func': return mk('func', e['key'])
        L = self.lv(e)
        return self.rd(L)
    def e_mem(self, e):
        if e['k'] == 'mem' and not e['arrow'] and not self.is_lvalue(e['b']):
            return mk_field(self.val(e['b']), e['n'])
        L = self.lv(e)
        if e['n'] in self.track and L.op == 'f': self.ev('read', e, loc=L)
        if e['n'] in self.fresh_ and L.op == 'f' and L not in self.st.env:
            self.nfresh += 1; return mk('rdn', L, self.nfresh)
        return self.rd(L)
    def e_idx(self, e):
        return self.rd(self.lv(e))
    def e_typeid(self, e): return mk('typeid', e['t'])
    def e_lambda(self, e):
        caps = {}
        for c in e.get('caps', []):
            if not c['ref']:
                L = self.fr.find(c['id'])
                if L is not None:
                    t = self.tmp(self.rd(L)); caps[c['id']] = t
        n = self.fresh()
        t = mk('lambda', e['key'], n); self.lambdas[t] = (e, self.fr, caps)
        return t
    def call_lambda(self, t, args):
        if t.op == 'func':
            f = self.F.get(t.args[0])
            if f is None: return mk('call', t.args[0], None, *args)
            return self.inline(f, None, [('loc', a) if p.get('ref') and not isval(a) else ('val', a if isval(a) else self.rd(a)) for p, a in zip(f['params'], args)])
        if t not in self.lambdas:
            self.note(None, 'call of an unknown callable'); return mk('call', 'callable', t, *args)
        e, fr, caps = self.lambdas[t]
        fn = {'key': e['key'], 'params': e['params'], 'body': e['body'], 'file': e.get('f') or fr.file, 'ret': ''}
        locs = []
        for p, a in zip(e['params'], args):
            locs.append(('loc', a) if p.get('ref') and not isval(a) else ('val', a if isval(a) else self.rd(a)))
        sub = Frame(0, {}, fr); sub.vars = dict(caps); sub.this = fr.this; sub.file = fr.file
        v, ctx = self.body(fn, fr.this, locs, parent=sub)
        self.lift(ctx)
        return v
    def e_throw(self, e):
        v = self.val(e['a']) if e.get('a') else None
        t = e.get('t')
        ex = mk('exc', t) if t else getattr(self, 'curexc', mk('exc', 'any'))
        if t and t.startswith('const '): ex = mk('exc', t[6:])
        self.ev('throw', e, val=ex)
        self.exit('thr', ex, e)
        return mk('void')
    def e_copy(self, e): return self.val(e['a'])
    def e_cast(self, e):
        v = self.val(e['a'])
        if e.get('dyn'):
            r = mk('dyncast', e['t'], v)
            return r if e['t'].endswith('*') else v
        if e.get('ck') == 'trunc': return mk('trunc', v)
        if e.get('ck') == 'b2i' and v.op in ('call', 'vcall'): core.BOOLFN.add(v.args[0])
        if e.get('ck') == 'b2i' and v.op == 'b': return core.bin_of_bool(v.args[0]) or v
        return v
    def e_tobool(self, e):
        v = self.val(e['a']); st = e.get('st', '')
        if st.rstrip().endswith('*'): return bterm(nonnull(v))
        if is_boolt(v): return v
        return bterm(NOT(eq(v, C(0))))
    def e_cond(self, e):
        if is_assert(e):
            nev = len(self.events); s0 = self.st.copy(); no = len(self.notes)
            ctx = Ctx('assert'); self.ctxs.append(ctx)
            self.cond(e['c'])
            self.ctxs.pop(); self.st = s0; del self.notes[no:]
            evs = self.events[nev:]; del self.events[nev:]
            for x in evs:
                if x.kind == 'deref': x.extra = 'assert'; self.events.append(x)
            return mk('void')
        c = self.cond(e['c'])
        r = self.branch(c, lambda: self.val(e['a']), lambda: self.val(e['b']), vals=True)
        if c == 1 or c == 0 or r is not None:
            pass
        return r if r is not None else mk('void')
    def e_init(self, e, want=None):
        t = e.get('t', '')
        if 'fields' in e and e['fields'] and t in self.M['records']:
            items = [(n, self.val(a)) for n, a in zip(e['fields'], e['a'])]
            return mk_obj(mk('new0', t), items)
        vs = [self.val(a) for a in e['a']]
        if len(vs) == 1 and not re.search(r'\[\d*\]$', t) and not is_container(t) and 'initializer_list' not in t and not (want and is_container(want)):
            return vs[0]
        return mk('arr', *vs) if vs else (zero_value(t) if not re.search(r'\[', t) else SEQ0)
    def e_un(self, e):
        op = e['op']
        if op == '!': return bterm(NOT(self.cond(e['a'])))
        if op == '-': return neg(self.val(e['a']))
        if op == '+': return self.val(e['a'])
        if op == '&':
            if isinstance(e['a'], dict) and e['a'].get('k') == 'ref' and e['a'].get('d') == 'func': return self.val(e['a'])
            if self.is_lvalue(e['a']): return mk('addr', self.lv(e['a']))
            return mk('addr', self.tmp(self.val(e['a'])))
        if op == '*':
            return self.rd(self.lv(e))
        if op in ('++', '--', 'p++', 'p--'):
            L = self.lv(e['a']); v = self.rd(L)
            n = self.incr(v, 1 if '+' in op else -1)
            if is_num(n) and num(n) < 0 and e['a'].get('t', '').replace('const ', '').startswith('unsigned'): n = C(2**32 - 1 if 'int' in e['a']['t'] else 2**64 - 1)
            self.wr(L, n, e)
            return v if op[0] == 'p' else n
        if op == '~': return mk('~', self.val(e['a']))
        return self.val(e['a'])
    def incr(self, v, d):
        if v.op in ('beg', 'iter', 'next', 'end') or (v.op == 'phi' and self.phi_iter(v)): return mk('next' if d > 0 else 'prev', v)
        if v.op == 'ix': return add(v, C(d))
        return add(v, C(d))
    def phi_iter(self, v): return v in self.iterphi
    iterphi = set()
    def e_bin(self, e):
        op = e['op']
        if op == '&&':
            a = self.cond(e['a'])
            r = self.branch(a, lambda: bterm(self.cond(e['b'])), lambda: FALSE_T, vals=True)
            return r if r is not None else FALSE_T
        if op == '||':
            a = self.cond(e['a'])
            r = self.branch(a, lambda: TRUE_T, lambda: bterm(self.cond(e['b'])), vals=True)
            return r if r is not None else TRUE_T
        a, b = self.val(e['a']), self.val(e['b'])
        return self.binop(op, a, b, e)
    def binop(self, op, a, b, e=None):
        if op == ',': return b
        if op == '==': return bterm(eq(a, b))
        if op == '!=': return bterm(NOT(eq(a, b)))
        if op in ('<', '>', '<=', '>='):
            if op == '<': return bterm(lt(a, b))
            if op == '>': return bterm(lt(b, a))
            if op == '<=': return bterm(NOT(lt(b, a)))
            return bterm(NOT(lt(a, b)))
        if op == '+': return concat(a, b) if is_strt(a) or is_strt(b) else add(a, b)
        if op == '-': return sub(a, b)
        if op == '*': return mul(a, b)
        if op == '/':
            at = (e or {}).get('at', '')
            if at in ('int', 'unsigned int', 'long', 'unsigned long'): return mk('idiv', a, b)
            return div(a, b)
        if op == '%':
            if is_num(a) and is_num(b) and num(b): return C(int(num(a)) % int(num(b)))
            if is_num(b) and num(b) == 2:
                r = core.bin_mod(a)
                if r is not None: return r
            return mk('mod', a, b)
        if op == '^' and is_num(b) and num(b) == 1 and core.is_bin(a): return sub(C(1), a)
        if op == '^' and is_num(a) and num(a) == 1 and core.is_bin(b): return sub(C(1), b)
        if op in ('|', '&', '^') and (is_boolt(a) or is_boolt(b)):
            f, g = truth(a), truth(b)
            return bterm(OR(f, g) if op == '|' else AND(f, g) if op == '&' else NOT(XNOR(f, g)))
        return mk('op' + op, a, b)
    def e_asg(self, e):
        op = e['op']
        if op == '=':
            v = self.val(e['b'])
            L = self.lv(e['a']); self.wr(L, v, e)
            return v
        L = self.lv(e['a']); cur = self.rd(L); v = self.val(e['b'])
        n = self.binop(op[:-1], cur, v, e)
        self.wr(L, n, e); return n
    def e_new(self, e):
        n = self.newobj(e['t'])
        L = mk_deref(n)
        i = e.get('i')
        if i is not None and i.get('k') == 'ctor': self.ctor_into(i, L)
        elif i is not None: self.st.env[L] = self.val(i)
        return n
    def e_delete(self, e):
        v = self.val(e['a']); self.ev('delete', e, val=v); return mk('void')

    # ------------------------------------------------------------ constructors
    def ctor_into(self, e, L):
        """Evaluates constructor expression e into location L."""
        if e is None: return
        if e['k'] != 'ctor':
            v = self.val(e)
            self.wr(L, v, e, quiet=True); return
        f = self.F.get(e.get('key'))
        if f is not None and f.get('ctor') and f.get('body') is not None and len(self.stack) < self.MAXDEPTH and f['key'] not in self.stack and base_name(f['name']) not in self.opaque:
            if L not in self.st.env and L.op not in ('this', 'f'): self.st.env[L] = mk('new0', e['t'])
            elif L.op == 'f' and parent_loc(L) is not None: pass
            args = self.bindargs(f, e)
            self.stack.append(f['key'])
            v, ctx = self.body(f, L, args)
            self.stack.pop(); self.lift(ctx)
            return
        v = self.ctor_value(e)
        if L.op == 'this' or (v.op == 'new0'): 
            if L.op not in ('this',) and v.op != 'void' and not (L.op == 'f'): self.st.env.setdefault(L, v)
            if v.op == 'new0' or L.op == 'this': return
        self.wr(L, v, e, quiet=True)
    def e_ctor(self, e):
        f = self.F.get(e.get('key'))
        if f is not None and f.get('ctor') and f.get('body') is not None and f['key'] not in self.stack and len(self.stack) < self.MAXDEPTH and base_name(f['name']) not in self.opaque:
            L = self.tmp(mk('new0', e['t']))
            self.ctor_into(e, L)
            return self.rd(L)
        return self.ctor_value(e)
    def ctor_value(self, e):
        t = e['t']; a = e['a']
        if isinstance(a, dict): a = [a]
        if t.startswith('const '): t = t[6:]
        args = [x for x in a if not is_alloc(x)]
        if STR_RE.match(t):
            if not args: return EMPTY_STR
            if len(args) == 1: return self.val(args[0])
            vs = [self.val(x) for x in args]
            if len(vs) == 2 and vs[0].op == 'beg' and vs[1].op == 'end': return vs[0].args[0]
            return mk('strctor', *vs)
        if PTR_RE.match(t):
            if not args: return NULL
            v = self.val(args[0]);
            for x in args[1:]: self.val(x)
            return v
        if SEQ_RE.match(t) or MAP_RE.match(t):
            if not args: return SEQ0
            vs = [self.val(x, want=t) for x in args]
            if len(vs) == 1:
                if vs[0].op == 'arr' or e.get('list'): return vs[0]
                if is_num(vs[0]) or vs[0].op in ('size', 'poly', 'call', 'p', 'f'):
                    el = elem_type(t)
                    if (e.get('pt') or [''])[0] in ('unsigned long', 'std::size_t', 'size_type') or is_num(vs[0]) or vs[0].op in ('size', 'poly'):
                        return mk_fill(vs[0], zero_value(el))
                return vs[0]
            if len(vs) >= 2:
                r = self.range_of(vs[0], vs[1])
                if r is not None: return r if not SEQ_RE.match(t) or 'set<' not in t else r
                if 'unsigned long' in (e.get('pt') or [''])[0] or is_num(vs[0]) or vs[0].op == 'size': return mk_fill(vs[0], vs[1])
                return vs[0] if vs[0].op == 'arr' else mk('ctor', base_name(t), *vs)
        bt = base_name(t)
        if bt == 'std::pair' and len(args) == 2: return mk('pair', self.val(args[0]), self.val(args[1]))
        if bt == 'std::pair' and len(args) == 1: return self.val(args[0])
        if bt in ('ros::Duration', 'ros::Time', 'ros::Rate', 'ros::WallDuration', 'std::chrono::duration'):
            vs = [self.val(x) for x in args]
            if not vs: return C(0)
            if len(vs) == 1: return vs[0]
            return add(vs[0], mul(vs[1], mk('c', 1e-9)))
        if bt.startswith('__gnu_cxx::__normal_iterator') or '_iterator' in bt:
            vs = [self.val(x) for x in args]
            return vs[0] if len(vs) == 1 else mk('undef', 'iter')
        if bt.startswith('std::initializer_list'): return self.val(args[0]) if args else SEQ0
        if bt.startswith('std::function'): return self.val(args[0]) if args else NULL
        if bt.startswith('std::atomic') or bt.startswith('std::__atomic'):
            return self.val(args[0]) if args else mk('undef', 'atomic')
        vs = []
        for x in args: vs.append(self.val(x))
        if t in self.M['records'] and not vs:
            return mk('new0', t)
        if not vs: return default_value(t)
        if not bt.startswith('std::') and t not in self.M['records'] or self.opq_ctor(bt): 
            self.ev('call', e, fn=base_name(e['fn']), obj=None, args=vs, extra='ctor')
            self.outargs(e, a, mk('call', base_name(e['fn']), None, *vs))
        return mk('ctor', bt, *vs)
    def opq_ctor(self, bt): return True
    def range_of(self, b, e):
        if b.op == 'beg' and e.op == 'end' and b.args[0] is e.args[0]: return b.args[0]
        if b.op == 'addr' and b.args[0].op == 'idx': return None
        return None

    # ------------------------------------------------------------ calls
    def inlinable(self, e, f):
        if f is None or f.get('body') is None and not f.get('ctor'): return False
        n = base_name(f['name'])
        if n in self.opaque or f['key'] in self.opaque: return False
        if f['key'] in self.stack or len(self.stack) >= self.MAXDEPTH: return False
        if e.get('virt') and n not in self.devirt:
            o = e.get('o') or {}
            if not (o.get('k') == 'this' and (not f.get('virt') or getattr(self.fr, 'fnode', {}).get('ctor'))): return False
        return True
    def bindargs(self, f, e):
        out = []
        a = e.get('a') or []
        for i, p in enumerate(f['params']):
            x = a[i] if i < len(a) else p.get('def')
            if x is None: out.append(('val', mk('undef', 'arg'))); continue
            if p.get('ref'):
                if self.is_lvalue(x): out.append(('loc', self.lv(x)))
                else: out.append(('val', self.val(x, want=p['t'])))
            else: out.append(('val', self.val(x, want=p['t'])))
        return out
    def inline(self, f, this, args):
        self.stack.append(f['key'])
        try: v, ctx = self.body(f, this, args)
        finally: self.stack.pop()
        self.lift(ctx)
        return v
    def objloc(self, e):
        o = e.get('o')
        if o is None: return None
        if e.get('arrow') :
            p = self.val(o); self.deref(p, e)
            r = mk_deref(p)
            return r
        if o['k'] == 'this': return self.fr.this
        if self.is_lvalue(o): return self.lv(o)
        t = (e.get('ot') or '')
        return self.tmp(self.val(o))
    def e_call(self, e): return self.call(e)
    def call(self, e, lval=False):
        fn = base_name(e.get('fn', ''))
        if LOG_RE.match(e.get('fn', '')):
            return mk('void')
        h = self.builtin(fn, e, lval)
        if h is not NotImplemented:
            if lval and (h is None or isval(h)): return self.tmp(h if h is not None else mk('void'))
            return h
        f = self.F.get(e.get('key'))
        if f is not None and self.inlinable(e, f):
            this = self.objloc(e) if e.get('o') is not None else None
            if this is not None and isval(this): this = self.tmp(this)
            args = self.bindargs(f, e)
            if this is not None and this.op == 'case':
                # receiver depends on a condition: one inlined run per alternative
                return self.case_recv(f, this, args, lval)
            v = self.inline(f, this, args)
            ref = (f.get('ret') or '').rstrip().endswith('&')
            if v is None: return mk('void')
            if ref: return v if lval else self.rd(v)
            return self.tmp(v) if lval else v
        v = self.opaque_call(fn, e, f)
        if lval:
            return v if v.op in ('call', 'vcall') else self.tmp(v)
        return v
    def case_recv(self, f, this, args, lval):
        lst = list(this.args)
        def go(i):
            L, g = lst[i]
            if i == len(lst) - 1: return one(L)
            return self.branch(g.args[0], lambda: one(L), lambda: go(i + 1), vals=True)
        def one(L):
            v = self.inline(f, L if not isval(L) else self.tmp(L), args)
            if v is None: return mk('void')
            return self.rd(v) if (f.get('ret') or '').rstrip().endswith('&') else v
        v = go(0)
        v = v if v is not None else mk('void')
        return self.tmp(v) if lval else v

    def opaque_call(self, fn, e, f=None):
        obj = None
        if e.get('callee') is not None:
            c = self.val(e['callee'])
            if c.op in ('lambda', 'func'): return self.call_lambda(c, [self.val(a) for a in e['a']])
            obj = c; fn = 'indirect'
        if e.get('o') is not None:
            obj = self.objloc(e); L0 = obj
            if obj.op == 'tmp': obj = self.rd(obj)
            elif obj.op == 'var' or obj.op in ('f', 'idx') and root_of(obj).op == 'var': obj = self.rd(obj)
            if obj is not L0 and fn in self.opaque and not e.get('const') and obj.op in ('f', 'idx', 'mval', 'd', 'p', 'bv', 'case'): obj = mk('copyof', obj)    # acts on a copy
        args = []
        al = e.get('a') or []
        for i, a in enumerate(al):
            pt = (e.get('pt') or [])
            p = pt[i] if i < len(pt) else ''
            if p.endswith('&') and not p.startswith('const') and self.is_lvalue(a):
                L = self.lv(a); args.append(self.rd(L) if root_of(L).op in ('var', 'tmp') else L)
                if root_of(L).op in ('var',): args[-1] = self.rd(L) if is_container((a.get('t') or '')) or True else L
            else: args.append(self.val(a))
        pc = AND(self.prefix, self.st.live)
        args = [simp(a, pc) if a.op in ('case', 'obj', 'pair', 'app') else a for a in args]
        if obj is not None and obj.op == 'case': obj = simp(obj, pc)
        if f is not None and fn in self.opaque and '<' in f['key']: fn = key_prefix(f['key'])
        if f is not None:
            for p in f['params'][len(al):]:
                if p.get('def') is not None: args.append(self.val(p['def']))
        if fn.split('::')[-1] in ('getParam', 'getParamCached', 'QueryDoubleAttribute', 'QueryIntAttribute', 'QueryBoolAttribute') and len(args) == 2:
            args[1] = mk('_')       # the result does not depend on what the output held before
        impure = self.impure(fn, e)
        key = (fn, obj, tuple(args))
        if impure:
            n = self.callcount.get(key, 0); self.callcount[key] = n + 1
            r = mk('call', fn, obj, *args) if n == 0 and not fn.endswith('now') else mk('call', fn, obj, *args, mk('n', n))
        else: r = mk('call', fn, obj, *args)
        if fn in VOLCALLS: r = mk('vcall', fn, obj, *args)
        r = spread(r)
        self.ev('call', e, fn=fn, obj=obj, args=args, ret=r, cls=e.get('clst'), const=e.get('const'))
        self.outargs(e, al, r)
        if e.get('noret'):
            self.exit('thr', mk('exc', 'noreturn'), e); return r
        if self.ntry and self.may_throw(fn, e):
            t = self.exc_types(fn)
            for x in t:
                a = OR(*[AND(h, atom(mk('throws', w, x))) for h, w in leaves(r)])
                g = AND(self.st.live, a)
                if g != 0:
                    self.ctxs_throw(g, x, e, r)
        return r
    def ctxs_throw(self, g, x, e, r):
        self.ctxs[-1].exits.append(Exit('thr', g, mk('exc', x, r) if x == 'any' else mk('exc', x), dict(self.st.env), e.get('l'), self.st.locks))
        self.st.live = AND(self.st.live, NOT(g))
    def may_throw(self, fn, e):
        return fn.endswith('NodeHandle::NodeHandle') or not fn.startswith(('ros::', 'TiXml', '__cxxabiv1', 'free', 'std::string::', 'hardware_interface::HardwareInterface::'))
    def exc_types(self, fn):
        return ['any']
    def impure(self, fn, e):
        if fn in self.purefn or LOOKUP.match(fn): return False
        if e.get('const'): return False
        if fn.startswith('std::') : return False
        if e.get('static') or e.get('o') is None: return fn in IMPURE
        return True
    def outargs(self, e, al, r):
        pt = e.get('pt') or []
        for i, a in enumerate(al):
            if a is None or i >= len(pt): continue
            p = pt[i]
            L = None
            if p.endswith('&') and not p.startswith('const ') and not p.endswith('&&') and self.is_lvalue(a): L = self.lv(a)
            elif p.endswith('*') and a.get('k') == 'un' and a.get('op') == '&' and self.is_lvalue(a['a']) and not p.startswith('const '): L = self.lv(a['a'])
            if L is None and p.endswith('*') and not p.startswith('const ') and e.get('fn', '').split('::')[-1] in HANDED:
                # what is handed over with a pointer may be used and changed
                v = self.val(a) if a.get('k') != 'new' else None
                for _, w in (leaves(v) if v is not None else ()):
                    D = mk_deref(w)
                    for K in [K for K in self.st.env if K is not D and K.op == 'f' and D in subterms(K)]: self.wr(K, mk('out', r, i, K.args[1]), e, quiet=True)
            if L is None: continue
            if root_of(L).op in ('glob',) : continue
            n = base_name(e.get('fn', '')).split('::')[-1]
            old = self.rd(L)
            if n in ('getParam', 'getParamCached', 'QueryDoubleAttribute'):
                self.wr(L, mk_ite(truth(r) if n != 'QueryDoubleAttribute' else eq(r, C(0)), mk_out(r, i, True), old), e, quiet=root_of(L).op == 'var')
            elif root_of(L).op in ('var', 'tmp') and L.op in ('var', 'tmp', 'f', 'idx'):
                self.wr(L, mk_out(r, i), e, quiet=True)

    # ------------------------------------------------------------ library model
    def builtin(self, fn, e, lval):
        from .lib import builtin
        return builtin(self, fn, e, lval)

HANDED = ('init',)
STDEXC = {'std::runtime_error': ['std::exception'], 'std::logic_error': ['std::exception'], 'std::bad_alloc': ['std::exception'], 'std::bad_cast': ['std::exception'], 'std::invalid_argument': ['std::logic_error'], 'std::out_of_range': ['std::logic_error'], 'std::domain_error': ['std::logic_error'],
          'pluginlib::PluginlibException': ['std::runtime_error']}
LOOKUP = re.compile(r'hardware_interface::InterfaceManager::get(<|\Z)')      # asking again gives the same interface until something is registered (H02)
IMPURE = {'ros::Time::now', 'ros::WallTime::now', 'std::chrono::steady_clock::now', 'std::chrono::system_clock::now', 'rand'}
VOLCALLS = {'ros::ok', 'ros::isShuttingDown'}

# ---------------------------------------------------------------- small helpers
def filter_of(w, ph):
    """k if w is [x in ph | x != k], possibly keeping repetitions of k."""
    if w.op != 'app' or w.args[0].op != 'seq0' or len(w.args[1]) != 1: return None
    bs, g, x = w.args[1][0]
    if len(bs) != 1 or bs[0][1] is not ph or x is not bs[0][0]: return None
    gg = g.args[0]; dup = mk('dup', x)
    if dup in support(gg):
        if restrict(gg, dup, True) != 1: return None
        gg = restrict(gg, dup, False)
    s = B.single(gg)
    if s is None or s[1] or s[0].op != 'eq': return None
    a, b = s[0].args
    if a is x: return b
    if b is x: return a
    return None
def spread(r, limit=6):
    """A call of gated operands is the gated call of its operands."""
    for i, a in enumerate(r.args):
        if isinstance(a, T) and a.op == 'case' and len(a.args) <= limit:
            return mk_case([(g.args[0], spread(mk(r.op, *(r.args[:i] + (v,) + r.args[i + 1:])), limit // 2)) for v, g in a.args])
    return r
def path_of(L, base):
    p = []
    while L is not base: p.append(L.args[1]); L = L.args[0]
    return p[::-1]
def leaves_of(v): return [(w, g.args[0]) for w, g in v.args] if v.op == 'case' else [(v, TRUE)]
def mk_updlast(c, el):
    """The sequence c with its last element replaced."""
    if c.op == 'updlast': c = c.args[0]
    if c.op == 'app' and not c.args[1][-1][0] and c.args[1][-1][1].args[0] == 1:
        return mk('app', c.args[0], c.args[1][:-1] + ((c.args[1][-1][0], c.args[1][-1][1], el),))
    if c.op == 'arr' and c.args: return mk('arr', *(c.args[:-1] + (el,)))
    return mk('updlast', c, el)
def upd_path(v, path, x):
    if not path: return x
    return mk_obj(v, [(path[0], upd_path(mk_field(v, path[0]), path[1:], x))])
def is_assert(e):
    for x in (e['a'], e['b']):
        while isinstance(x, dict) and x.get('k') in ('cast', 'bin') : x = x['a'] if x['k'] == 'cast' else x['a']
        if isinstance(x, dict) and x.get('k') == 'call' and x.get('fn') == '__assert_fail': return True
    return False
def isval(t): return t.op in ('c', 'b', 'new', 'addr', 'poly', 'obj', 'new0', 'seq0', 'app', 'arr', 'pair', 'min', 'max', 'lambda', 'size', 'ssize', 'beg', 'end', 'iter', 'undef', 'void', 'mset', 'concat', 'ctor', 'fill', 'find', 'mfind', 'ix')
def is_alloc(x): return isinstance(x, dict) and x.get('k') == 'ctor' and base_name(x.get('t', '')).startswith(('std::allocator', 'std::less'))
def is_strt(t):
    if t.op == 'c': return isinstance(t.args[0], str)
    if t.op == 'concat': return True
    if t.op == 'case': return any(is_strt(v) for v, _ in t.args)
    return False
def is_bool_type(t): return t == 'bool'
def concat(a, b):
    if a.op == 'case': return mk_case([(g.args[0], concat(v, b)) for v, g in a.args])
    if b.op == 'case': return mk_case([(g.args[0], concat(a, v)) for v, g in b.args])
    xs = list(a.args if a.op == 'concat' else (a,)) + list(b.args if b.op == 'concat' else (b,))
    out = []
    for x in xs:
        if x.op == 'c' and x.args[0] == '': continue
        if out and out[-1].op == 'c' and x.op == 'c': out[-1] = C(str(out[-1].args[0]) + str(x.args[0]))
        else: out.append(x)
    if not out: return EMPTY_STR
    return out[0] if len(out) == 1 else mk('concat', *out)
def elem_type(t):
    i = t.find('<'); d = 0
    for j in range(i, len(t)):
        if t[j] == '<': d += 1
        elif t[j] == '>': d -= 1
        if (t[j] == ',' and d == 1) or d == 0: return t[i + 1:j].strip()
    return ''
def mk_fill(n, v):
    if is_num(n) and 0 <= num(n) <= 16: return mk('arr', *[v] * int(num(n))) if num(n) else SEQ0
    return mk('fill', n, v)
def mk_obj(base, items):
    d = {}
    b = base
    if b.op == 'obj':
        for k, v in b.args[1:]: d[k] = v
        b = b.args[0]
    for k, v in items: d[k] = v
    d = {k: v for k, v in d.items() if not isinstance(k, str) or mk_field(b, k) is not v}
    if not d: return b
    return mk('obj', b, *sorted(d.items(), key=lambda x: (0, x[0]) if isinstance(x[0], str) else (1, x[0].id)))
def mset(m, k, v):
    if m.op == 'mset' and m.args[1] is k: return mset(m.args[0], k, v)
    return mk('mset', m, k, v)
def env_set(env, L, v):
    for K in [K for K in env if Ev.under(K, L)]: del env[K]
    env[L] = v
def mk_out(r, i, strip=False):
    if r.op == 'case': return mk_case([(g.args[0], mk_out(v, i, strip)) for v, g in r.args])
    return mk('out', strip_arg(r, i) if strip else r, i)
def strip_arg(r, i):
    """Out-parameter values do not depend on the previous content of the parameter."""
    a = list(r.args)
    if r.op in ('call', 'vcall') and len(a) > 2 + i: a[2 + i] = mk('_')
    return mk(r.op, *a)
_subt = {}
def subterms(t):
    r = _subt.get(t)
    if r is not None: return r
    s = {t}
    def go(a):
        if isinstance(a, T): s.update(subterms(a))
        elif isinstance(a, tuple):
            for x in a: go(x)
    if t.op in ('fm', 'b'):
        for a in support(t.args[0]): s.update(subterms(a))
    else:
        for a in t.args: go(a)
    _subt[t] = frozenset(s)
    return _subt[t]
def fsubterms(f):
    s = set()
    for a in support(f): s |= subterms(a)
    return s
def restrict_atom(f, a, val):
    s = B.single(a)
    return restrict(f, s[0], val if s[1] else not val) if s else f
def restrict_lit(f, lit):
    """f with the literal (single-atom formula) taken as true."""
    s = B.single(lit)
    return restrict(f, s[0], s[1]) if s else None
def mk_atom_of(t): return t
def mk_first(c, v, f):
    if core.INST:
        r = core.first_of(c, lambda x: Subst({v: x}).formula(f))
        if r is not None: return r
    u = core.core_uniq(v, f, c)
    if u is not None: return u[0]
    k = one_point(v, f)
    if k is not None: return k[1] if k[0] == 'elem' else mk('pair', k[1], mget(c, k[1]))
    h = max(fdepth(f), depth_of(c)) + 1
    return mk('first', c, fm(Subst({v: mk('bvc', h)}).formula(f)), h)
def merge_case(pairs):
    """Gated merge of (guard, value) pairs."""
    pairs = [(g, v) for g, v in pairs if g != 0]
    vs = [v for g, v in pairs]
    if vs and all(v is vs[0] for v in vs): return vs[0]
    tot = OR(*[g for g, _ in pairs])
    # let the most general alternative take the don't-care set
    if tot != 1 and len(pairs) > 1:
        g, v = pairs[-1]; pairs = pairs[:-1] + [(OR(g, NOT(tot)), v)]
    return mk_case(pairs)

def indep(t, care, vs):
    """t with conditions on vs replaced by conditions free of them where those agree under care."""
    if t.op not in ('b', 'case'): return t
    def one(f):
        if f in (0, 1): return f
        at = [a for a in support(f) if any(v in subterms(a) for v in vs)]
        if not at: return f
        fc = AND(f, care)
        x = B.exists_atoms(fc, at + [a for a in support(care) if a not in at and any(v in subterms(a) for v in vs)])
        return x if AND(x, care) == fc else f
    if t.op == 'b':
        x = one(t.args[0]); return t if x == t.args[0] else bterm(x)
    gs = [one(g.args[0]) for v, g in t.args]
    if all(x == g.args[0] for x, (v, g) in zip(gs, t.args)): return t
    used = FALSE; prs = []
    for x, (v, g) in zip(gs, t.args): prs.append((AND(x, NOT(used)), v)); used = OR(used, x)
    return merge_case(prs)

def pinned(v, g):
    """The constant v is known to be where g holds."""
    if v is None or v.op not in ('call', 'vcall', 'f', 'p', 'out') or g in (0, 1): return v
    for a in support(g):
        if a is v:
            if implies(g, truth(v)): return TRUE_T
            if AND(g, truth(v)) == 0: return FALSE_T
        elif a.op == 'eq' and v in a.args:
            c = a.args[0] if a.args[1] is v else a.args[1]
            if c.op == 'c' and implies(g, eq(v, c)): return FALSE_T if c is C(0) and v.op != 'f' else c
    return v

def simp(t, care):
    """Drops the alternatives of gated values that are impossible under care."""
    if care == 1 or care == 0: return t
    memo = {}
    def go(x):
        r = memo.get(x)
        if r is not None: return r
        if x.op == 'case':
            keep = [(g.args[0], go(v)) for v, g in x.args if AND(g.args[0], care) != 0]
            if len(keep) == 1: r = keep[0][1]
            elif len(keep) == len(x.args): r = mk_case(keep)
            else:
                lastg, lastv = keep[-1]
                r = mk_case(keep[:-1] + [(NOT(OR(*[g for g, _ in keep[:-1]])), lastv)])
        elif x.op == 'b':
            f = x.args[0]
            r = TRUE_T if implies(care, f) else FALSE_T if AND(care, f) == 0 else x
        elif x.op in ('app',):
            segs = []
            ch = False
            for bs, g, y in x.args[1]:
                if AND(g.args[0], care) == 0: ch = True; continue
                if g.args[0] != 1 and implies(care, g.args[0]): g = fm(1); ch = True
                elif bs and g.args[0] != 1:
                    cs = set(support(care)); h = g.args[0]
                    if cs & set(support(h)):
                        for t_ in support(h):
                            if t_ not in cs: continue
                            for val in (True, False):
                                h2 = restrict(h, t_, val)
                                if h2 != h and AND(care, h2) == AND(care, h): h = h2; break
                        if h != g.args[0]: g = fm(h); ch = True
                segs.append((bs, g, y))
            r = (mk('app', x.args[0], tuple(segs)) if segs else x.args[0]) if ch else x
        elif x.op in ('obj', 'pair', 'poly', 'min', 'max', 'call', 'f', 'd', 'mset', 'concat', 'ctor', 'arr'):
            def a(y):
                if isinstance(y, T): return go(y)
                if isinstance(y, tuple): return tuple(a(z) for z in y)
                return y
            if x.op == 'obj': r = mk('obj', *[a(y) for y in x.args])
            elif x.op == 'f': r = mk_field(go(x.args[0]), x.args[1])
            elif x.op == 'd': r = mk_deref(go(x.args[0]))
            elif x.op in ('min', 'max'): r = (mk_min if x.op == 'min' else mk_max)(*[go(y) for y in x.args])
            elif x.op == 'poly': r = x
            else: r = mk(x.op, *[a(y) for y in x.args])
        else: r = x
        memo[x] = r
        return r
    return go(t)
