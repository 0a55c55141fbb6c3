"""Dedicated rules: each takes the exported trees and returns how many instances were judged, the
violations (with file:line) and what stayed undecided."""
import re
from fractions import Fraction
from .core import *
from .core import _polyd, _mkpoly
from . import bdd as B
from . import compare
from .ev import Ev, subterms, root_of, bvs
from .engine import Broken, plain, REQ, CM, VOL, CB

def V(where, kind, got, want, when='always', what=''): return {'where': where, 'kind': kind, 'what': what, 'got': got[:600], 'want': want[:600], 'when': when[:900]}
def rel(T, e): return ('%s:%s' % (e.file, e.line)).replace(T.rootR, '')
def out(n, mism, und=(), **k):
    seen = []; 
    for m in mism:
        if m not in seen: seen.append(m)
    return dict(n=n, mism=seen, und=list(und), checked=n, **k)
def cmfn(T, name, n=None):
    c = [f for k, f in T.R['functions'].items() if plain(f['name']) == CM + name and f.get('body') is not None and (n is None or len(f['params']) == n)]
    if not c: raise Broken('anchor vanished: %s%s' % (CM, name))
    return c[0]
def has_fields(T, *fs):
    r = T.R['records'].get('controller_manager::ControllerManager')
    have = {f['n'] for f in (r or {}).get('fields', [])}
    miss = [f for f in fs if f not in have]
    if miss: raise Broken('anchor vanished: ControllerManager member(s) %s' % ', '.join(miss))

# ------------------------------------------------------------------------------------------ call graph
def calls_of(x, acc):
    """Every call / construction in a tree: (kind, node)."""
    if isinstance(x, dict):
        if 'fn' in x and ('a' in x or x.get('k') == 'ctor'): acc.append(x)
        for v in x.values(): calls_of(v, acc)
    elif isinstance(x, list):
        for v in x: calls_of(v, acc)
    return acc

class Graph:
    def __init__(self, M):
        self.M = M; self.F = M['functions']
        self.derived = {}
        for d, bs in M['bases'].items():
            for b in bs: self.derived.setdefault(b, set()).add(d)
        self.bycls = {}
        for f in self.F.values():
            if f.get('clst'): self.bycls.setdefault((f['clst'], plain(f['name']).split('::')[-1], len(f['params'])), []).append(f)
    def below(self, c):
        out = set(); todo = [c]
        while todo:
            x = todo.pop()
            for d in self.derived.get(x, ()):
                if d not in out: out.add(d); todo.append(d)
        return out
    def targets(self, e):
        f = self.F.get(e.get('key')); res = []
        if f is not None: res.append(f)
        if e.get('virt') and e.get('key'):
            nm = plain(e['fn']).split('::')[-1]; n = len(e.get('a') or [])
            cls = e.get('clst') or (f or {}).get('clst')
            if cls:
                for d in self.below(cls): res += self.bycls.get((d, nm, n), [])
        return res
    def reach(self, roots):
        """Functions reachable from the roots, with the path that reaches them."""
        path = {f['key']: (f, None) for f in roots}; todo = list(roots)
        while todo:
            f = todo.pop(0)
            acc = calls_of(f.get('body'), []) ; calls_of(f.get('inits'), acc)
            for e in acc:
                for g in self.targets(e):
                    if g['key'] not in path: path[g['key']] = (g, f['key']); todo.append(g)
        return path
    def trail(self, path, k):
        out = []
        while k is not None: out.append(plain(path[k][0]['name'])); k = path[k][1]
        return ' <- '.join(out)

BLOCKING = re.compile(r'^(std::this_thread::(sleep_for|sleep_until|yield)|std::(mutex|recursive_mutex|timed_mutex|recursive_timed_mutex|shared_timed_mutex|__mutex_base)::lock|std::condition_variable(_any)?::wait\w*|std::thread::join|std::(__basic_)?future::(get|wait\w*)|'
                      r'std::async|std::promise::\w+|boost::(mutex|recursive_mutex)::lock|ros::Duration::sleep|ros::WallDuration::sleep|ros::(Wall)?Rate::sleep|ros::service::\w+|ros::spin\w*|ros::NodeHandle::(getParam|setParam|param|hasParam|deleteParam|searchParam|advertise\w*|subscribe|serviceClient)|'
                      r'ros::ServiceClient::call|ros::topic::\w+|ros::param::\w+|usleep|nanosleep|sleep|select|poll|read|recv|send|write|fopen|fread|fwrite|fsync|system|popen|pthread_(mutex_lock|join|cond_wait)|sem_wait|std::getline|pluginlib::ClassLoader::\w+)$')
LOCKCTOR = re.compile(r'^(const )?(std|boost)::(lock_guard|unique_lock|scoped_lock|shared_lock)<')
STREAM = re.compile(r'^(const )?std::(basic_)?(o|i)?fstream')

def blocking_sites(f):
    res = []
    for e in calls_of(f.get('body'), []) + calls_of(f.get('inits'), []):
        fn = plain(e.get('fn') or '')
        if e.get('k') == 'ctor' or LOCKCTOR.match(e.get('t') or ''):
            t = e.get('t') or ''
            if LOCKCTOR.match(t):
                a = e.get('a') or []
                ts = ' '.join(str((x or {}).get('t') or (x or {}).get('n')) for x in a[1:] if isinstance(x, dict))
                if len(a) >= 1 and not re.search(r'try_to_lock|defer_lock|adopt_lock', ts): res.append((e, 'blocking lock ' + t))
                continue
            if STREAM.match(t): res.append((e, 'file stream')); continue
        if BLOCKING.match(fn): res.append((e, fn))
    return res

def node_line(f, e): return '%s:%s' % (f['file'], e.get('l') or f.get('line'))

RTROOTS = [CM + 'update', 'controller_interface::ControllerBase::(updateRequest|startRequest|stopRequest|waitRequest|abortRequest|is[A-Z].*)',
           'combined_robot_hw::CombinedRobotHW::(read|write|doSwitch|switchResult)', 'hardware_interface::RobotHW::(read|write|doSwitch|switchResult)',
           r'joint_limits_interface::\w+::(enforceLimits|reset)', r'transmission_interface::\w+::propagate',
           r'transmission_interface::(Simple|Differential|FourBarLinkage)Transmission::(actuatorToJoint\w+|jointToActuator\w+)',
           r'hardware_interface::\w+Handle::(get|set)\w+']
def rt_nonblocking(T):
    G = Graph(T.R); roots = []
    for pat in RTROOTS:
        rx = re.compile(pat + r'\Z'); c = [f for f in T.R['functions'].values() if rx.match(plain(f['name'])) and f.get('body') is not None]
        if not c: raise Broken('no realtime entry point matches ' + pat)
        roots += c
    path = G.reach(roots); mism = []; n = 0
    for k, (f, p) in sorted(path.items()):
        if f.get('body') is None: continue
        n += 1
        for e, why in blocking_sites(f):
            mism.append(V(node_line(f, e).replace(T.rootR, ''), 'blocking operation on the realtime path', '%s in %s' % (why, plain(f['name'])), 'no blocking operation reachable from a realtime entry point', G.trail(path, k)))
    # positive control: the rule sees the waits of the non-realtime side
    ctl = sum(len(blocking_sites(f)) for f in T.S['functions'].values() if plain(f['name']) in (CM + 'loadController', CM + 'switchController', CM + 'getControllerByName') and f.get('body') is not None)
    if ctl < 4: raise Broken('positive control: blocking operations of the service side are not recognised')
    # waiting loops: the realtime cycle never spins on something another thread or the hardware changes
    for name in ('update',):
        f = cmfn(T, name); x = Ev(T.R, opaque=REQ, volatile=VOL + ('current_controllers_list_',)); x.run(f)
        for file, line, why in x.spins:
            mism.append(V(('%s:%s' % (file, line)).replace(T.rootR, ''), 'waiting loop on the realtime path', 'loop that repeats until %s' % why, 'no loop that waits for another thread or the hardware'))
    return out(n, mism, roots=len(roots), functions=n)

# ------------------------------------------------------------------------------------------ shared state and locks
SHARED = ('controllers_lists_', 'current_controllers_list_', 'start_request_', 'stop_request_', 'switch_start_list_', 'switch_stop_list_', 'switch_params_')
def manager_roots(T):
    """Entry points of the manager that run outside the realtime thread."""
    G = Graph(T.R)
    ms = [f for f in T.R['functions'].values() if f.get('cls') == 'controller_manager::ControllerManager' and f.get('body') is not None and not f.get('lambda')]
    ctor = [f for f in ms if f.get('ctor')]
    rt = set(G.reach([cmfn(T, 'update')])) ; rt = {k for k in rt if T.R['functions'][k].get('cls') == 'controller_manager::ControllerManager'}
    adv = set()
    def see(e):
        if isinstance(e, dict):
            if e.get('d') == 'func' or e.get('k') == 'fref': adv.add(e.get('key'))
            for v in e.values(): see(v)
        elif isinstance(e, list):
            for v in e: see(v)
    for c in ctor: see(c.get('body')); see(c.get('inits'))
    roots = []
    for f in ms:
        if f.get('ctor') or plain(f['name']).split('::')[-1].startswith('~'): continue
        nm = plain(f['name']).split('::')[-1]
        if f['key'] in rt and f.get('acc') != 'public': continue
        if nm == 'update': continue
        if f.get('acc') == 'public' or f['key'] in adv or nm.endswith('Srv'): roots.append(f)
    return roots, [T.R['functions'][k] for k in rt]

def is_this_field(L, names):
    while L.op in ('f', 'idx'):
        if L.op == 'f' and L.args[0].op == 'this': return L.args[1] if L.args[1] in names else None
        L = L.args[0]
    return None
def held(e, name): return any(m.op == 'f' and m.args[1] == name for m in e.locks)

def lock_discipline(T):
    has_fields(T, 'controllers_lock_', 'services_lock_', *SHARED)
    roots, rt = manager_roots(T)
    if len(roots) < 9: raise Broken('only %d non-realtime entry points of the controller manager found' % len(roots))
    mism = []; n = 0; und = []
    for f in roots:
        x = Ev(T.R, opaque=REQ, volatile=VOL, track=SHARED); s = x.run(f)
        for e in s.events:
            if e.kind in ('read', 'write') and e.loc is not None:
                w = is_this_field(e.loc, SHARED)
                if w is None: continue
                n += 1
                if not held(e, 'controllers_lock_'):
                    mism.append(V(rel(T, e), 'access outside the lock', '%s of %s in %s without controllers_lock_' % (e.kind, w, plain(f['name'])), 'controllers_lock_ held', showf(e.guard, 1)))
            elif e.kind == 'call' and e.obj is not None and e.fn and e.fn.startswith('hardware_interface::RobotHW::') and e.fn.split('::')[-1] in ('prepareSwitch', 'checkForConflict'):
                n += 1
                if not held(e, 'controllers_lock_'): mism.append(V(rel(T, e), 'hardware asked outside the lock', e.fn + ' without controllers_lock_', 'controllers_lock_ held', showf(e.guard, 1)))
    if n < 40: raise Broken('only %d accesses to shared state found' % n)
    return out(n, mism, und, roots=[plain(f['name']) for f in roots])

def lock_order(T):
    roots, rt = manager_roots(T)
    mism = []; n = 0
    for f in roots:
        nm = plain(f['name'])
        x = Ev(T.R, opaque=REQ, volatile=VOL); s = x.run(f)
        for e in s.events:
            if e.kind == 'lock':
                n += 1
                m = e.val
                if m.op == 'f' and m.args[1] == 'services_lock_':
                    if held(e, 'controllers_lock_'): mism.append(V(rel(T, e), 'lock order', 'services_lock_ taken while controllers_lock_ is held, from %s' % nm, 'services_lock_ before controllers_lock_'))
                    if held(e, 'services_lock_'): mism.append(V(rel(T, e), 'self deadlock', 'services_lock_ (not recursive) taken twice, from %s' % nm, 'taken once'))
                if m.op == 'f' and m.args[1] == 'controllers_lock_' and held(e, 'controllers_lock_'):
                    r = [q for q in T.R['records']['controller_manager::ControllerManager']['fields'] if q['n'] == 'controllers_lock_']
                    if r and 'recursive' not in r[0]['t']: mism.append(V(rel(T, e), 'self deadlock', 'controllers_lock_ (%s) taken twice, from %s' % (r[0]['t'], nm), 'a recursive lock or a single acquisition'))
        if nm.endswith('Srv'):
            # the whole request is served under the services lock
            for e in s.events:
                if e.kind == 'call' and not e.const and e.obj is not None or e.kind == 'write' and is_this_field(e.loc, SHARED):
                    n += 1
                    if not held(e, 'services_lock_'): mism.append(V(rel(T, e), 'service work outside the services lock', '%s in %s' % (e.fn or 'write', nm), 'services_lock_ held for the whole request', showf(e.guard, 1)))
    if n < 15: raise Broken('only %d lock operations and guarded service steps found' % n)
    return out(n, mism)

def double_buffer(T):
    """controllers_lists_[i] is modified only when the realtime loop provably does not use list i."""
    has_fields(T, 'controllers_lists_', 'current_controllers_list_', 'used_by_realtime_')
    roots, rt = manager_roots(T)
    this = mk('this'); used = mk('f', this, 'used_by_realtime_'); lists = mk('f', this, 'controllers_lists_'); cur = mk('f', this, 'current_controllers_list_')
    mism = []; und = []; n = 0
    def index_of(L):
        while L.op in ('f', 'idx'):
            if L.op == 'idx' and L.args[0] is lists: return L.args[1]
            L = L.args[0]
        return None
    for f in roots:
        x = Ev(T.R, opaque=REQ, volatile=VOL); s = x.run(f)
        pubs = [e for e in s.events if e.kind == 'write' and e.loc is cur]
        for e in s.events:
            if e.kind == 'write' and e.loc is used:
                n += 1; mism.append(V(rel(T, e), 'realtime marker written outside the realtime loop', 'write of used_by_realtime_ in %s' % plain(f['name']), 'only the realtime loop announces the list it uses', showf(e.guard, 1))); continue
            if e.kind != 'write': continue
            i = index_of(e.loc)
            if e.loc is lists: i = mk('unk', 'all')
            if i is None: continue
            n += 1
            def safe(g, j): return j.op != 'unk' and implies(g, NOT(eq(j, used)))
            bad = None
            for g, j in leaves(i):
                gg = AND(e.guard, g)
                if gg == 0: continue
                if not safe(gg, j): bad = (gg, 'list %s may be the one the realtime loop uses' % show(j)); break
                for c in pubs:
                    if c.seq < e.seq and AND(c.guard, gg) != 0:
                        for h, v in leaves(c.val):
                            if AND(h, c.guard, gg) == 0: continue
                            if eq(v, j) != 0 and implies(AND(h, c.guard, gg), eq(v, j)):
                                bad = (gg, 'list %s was already published at %s' % (show(j), rel(T, c)))
                            elif j is cur and implies(c.guard, NOT(eq(cur, used))) and c.guard != 0 and not any(y.op in ('c',) for y in ()):
                                bad = (gg, 'the wait for list %s happened before the new list was published at %s' % (show(j), rel(T, c)))
            if bad and s.notes and any(t.op == 'phi' for a in support(bad[0]) for t in subterms(a)): und.append('%s: %s' % (rel(T, e), s.notes[0][2]))
            elif bad: mism.append(V(rel(T, e), 'list modified while it may be in use', '%s in %s: %s' % (e.op or 'write', plain(f['name']), bad[1]), 'used_by_realtime_ provably differs from the list index at this point', showf(bad[0], 1)))
    if n < 8: raise Broken('only %d writes to the controller lists found' % n)
    # realtime side
    f = cmfn(T, 'update'); x = Ev(T.R, opaque=REQ, volatile=('do_switch',), ); x.fresh_ = {'current_controllers_list_'}
    s = x.run(f)
    ann = [e for e in s.events if e.kind == 'write' and e.loc is used]
    if not ann: mism.append(V('%s:%s' % (f['file'].replace(T.rootR, ''), f['line']), 'realtime list not announced', 'update() never writes used_by_realtime_', 'the realtime loop announces the list it is about to use'))
    elif ann[0].guard != TRUE and len(ann) == 1:
        mism.append(V(rel(T, ann[0]), 'realtime list not announced on every cycle', 'only when ' + showf(ann[0].guard, 1), 'every cycle', showf(NOT(ann[0].guard), 1)))
    m = 0
    fin = x.rd(used, s.env)
    for e in s.events:
        idxs = set()
        for b in e.binders:
            for t in subterms(b.coll):
                if t.op == 'idx' and t.args[0] is lists: idxs.add(t.args[1])
        if not idxs: continue
        m += 1
        ds = mk('f', mk('f', this, 'switch_params_'), 'do_switch')
        if implies(e.guard, atom(ds)): continue
        for i in idxs:
            if i is not fin and i.op == 'rdn' and ann and ann[0].val is not i or (ann and ann[0].seq > e.seq):
                mism.append(V(rel(T, e), 'realtime loop reads a list it did not announce', 'list index %s, announced %s' % (show(i), show(fin)), 'the announced list', showf(e.guard, 1)))
    if m < 2: raise Broken('the realtime loop does not iterate the controller list any more')
    return out(n + m, mism, und)

# ------------------------------------------------------------------------------------------ switching
def sw(T, publish=None, **k):
    f = cmfn(T, 'switchController', 5); x = Ev(T.R, opaque=REQ, volatile=VOL)
    x.publish = publish or {}
    return x, x.run(f)
def switch_defaults(T):
    f = cmfn(T, 'switchController', 5); g = [h for h in T.S['functions'].values() if plain(h['name']) == CM + 'switchController' and h.get('body') is not None][0]
    mism = []; n = 0
    def dv(M, p):
        d = p.get('def')
        if d is None: return None
        x = Ev(M); x.st = None
        s = str(d)
        if isinstance(d, dict) and d.get('k') == 'lit': return d['v']
        if isinstance(d, dict) and 'init' in d and isinstance(d['init'], dict): return d['init'].get('v')
        return None
    def decl(M):
        for r in M['records'].values():
            if r['type'] == 'controller_manager::ControllerManager': return r
    for M, h in ((T.R, f),):
        for p, q in zip(f['params'], g['params']):
            a, b = dv(T.R, p), dv(T.S, q)
            if b is None: continue
            n += 1
            if a is not None and float(a) != float(b): mism.append(V('%s:%s' % (f['file'].replace(T.rootR, ''), f['line']), 'default argument', '%s = %s' % (p['n'], a), str(b)))
    want = {'STRICT': 2, 'BEST_EFFORT': 1}
    gl = {}
    for q in T.R['globals']:
        if q['name'].split('::')[-1] in want and 'SwitchController' in q['name'] or q['name'].split('::')[-1] in ('WAIT_FOR_ALL_RESOURCES', 'INFINITE_TIMEOUT'): gl[q['name'].split('::')[-1]] = q
    want.update({'WAIT_FOR_ALL_RESOURCES': 0, 'INFINITE_TIMEOUT': 0})
    for k, w in want.items():
        q = gl.get(k)
        if q is None: continue
        n += 1
        v = (q.get('i') or {}).get('v')
        if v is not None and float(v) != w: mism.append(V('%s:%s' % (q['file'].replace(T.rootR, ''), q['line']), 'constant', '%s = %s' % (k, v), str(w)))
    return out(n, mism)

def lastseg(fn): return fn.split('::')[-1]
def switch_gate(T):
    x, s = sw(T, {'do_switch': ['switch_start_list_', 'switch_stop_list_']})
    pubs = [e for e in s.events if e.kind == 'publish']
    if not pubs: raise Broken('the switch is never handed to the realtime loop')
    chk = [e for e in s.events if e.kind == 'call' and lastseg(e.fn) == 'checkForConflict']; prep = [e for e in s.events if e.kind == 'call' and lastseg(e.fn) == 'prepareSwitch']
    mism = []; n = 0
    for p in pubs:
        n += 1
        okc = any(implies(p.guard, NOT(truth(e.ret))) for e in chk); okp = any(implies(p.guard, truth(e.ret)) for e in prep)
        if not okc: mism.append(V(rel(T, p), 'switch published without conflict check', 'no checkForConflict() == false is implied', 'checkForConflict() returned false on every path', showf(p.guard, 1)))
        if not okp: mism.append(V(rel(T, p), 'switch published without hardware acceptance', 'no prepareSwitch() == true is implied', 'prepareSwitch() returned true on every path', showf(p.guard, 1)))
        for e in prep:
            if AND(e.guard, p.guard) == 0: continue
            n += 1
            for a, b, w in zip(e.args, p.args[1:], ('start', 'stop')):
                if a is not b and not bad_norm(a, b) and AND(p.guard, truth_diff(T, a, b)) != 0:
                    mism.append(V(rel(T, e), 'prepared lists differ from the published lists', '%s list %s' % (w, show(a)[:200]), show(b)[:200], showf(p.guard, 1)))
    return out(n, mism)
def bad_norm(a, b): return any(t.op in ('phi', 'fold', 'unk', 'acc') for x in (a, b) for t in subterms(x))
def truth_diff(T, a, b):
    from .compare import Comparer
    return Comparer(T.kf, T.known_fns).diff(a, b)
def switch_residue(T):
    x, s = sw(T)
    from .compare import Comparer
    K = Comparer(T.kf, T.known_fns); th = mk('this'); mism = []; n = 0
    for name in ('start_request_', 'stop_request_'):
        n += 1
        v = x.rd(mk('f', th, name), s.env)
        exits = [(g, l) for g, val, l in s.rets] or [(s.live, None)]
        d = FALSE
        for g, y in leaves(v):
            if y.op in ('seq0', 'new0') or y.op == 'app' and not y.args[1]: continue
            if K.imprecise(y): continue
            d = OR(d, AND(g, NOT(lenform(y))))
        d = AND(d, s.live)
        # entered with empty lists (the invariant this rule preserves)
        for n2 in ('start_request_', 'stop_request_'): d = AND(d, lenform(mk('f', th, n2)))
        d = K.real(d)
        if d != 0:
            ln = next((l for g, val, l in s.rets if AND(g, d) != 0), s.fn['line'])
            mism.append(V('%s:%s' % (s.fn['file'].replace(T.rootR, ''), ln), 'request list left behind', '%s is not empty when switchController returns' % name, 'empty on every exit', showf(d, 1)))
    n += 1
    ds = mk('f', mk('f', th, 'switch_params_'), 'do_switch'); v = x.rd(ds, s.env)
    d = AND(s.live, truth(v))
    d = K.real(d) if d else 0
    if d: mism.append(V('%s:%s' % (s.fn['file'].replace(T.rootR, ''), s.fn['line']), 'switch still pending on return', 'do_switch may be true when switchController returns', 'false on every exit', showf(d, 1)))
    return out(n, mism)

def rt_cycle(T):
    """Order within a realtime cycle: re-initialise, update every controller, then the pending switch."""
    f = cmfn(T, 'update'); x = Ev(T.R, opaque=REQ, volatile=('do_switch',)); s = x.run(f)
    lists = mk('f', mk('this'), 'controllers_lists_')
    def on_list(e): return any(t.op == 'idx' and t.args[0] is lists for b in e.binders for t in subterms(b.coll))
    def on_req(e): return any(is_this_field(t, ('start_request_', 'stop_request_')) for b in e.binders for t in subterms(b.coll) if t.op == 'f')
    upd = [e for e in s.events if e.kind == 'call' and lastseg(e.fn) == 'updateRequest']
    ini = [e for e in s.events if e.kind == 'call' and lastseg(e.fn) in ('startRequest', 'stopRequest') and on_list(e) and not on_req(e)]
    swi = [e for e in s.events if e.kind == 'call' and (lastseg(e.fn) in ('doSwitch', 'switchResult') or lastseg(e.fn).endswith('Request') and on_req(e))]
    if not upd: raise Broken('updateRequest is not called any more')
    mism = []; n = 0
    for a, b, w in ((ini, upd, 're-initialisation before update'), (upd, swi, 'update before the pending switch')):
        for p in a:
            for q in b:
                n += 1
                if AND(p.guard, q.guard) == 0: continue
                if p.seq > q.seq or any(b1.v is b2.v for b1 in p.binders for b2 in q.binders):
                    mism.append(V(rel(T, p), 'order in the realtime cycle', '%s at %s' % (lastseg(q.fn), rel(T, q)) + ' precedes ' + lastseg(p.fn), w, showf(AND(p.guard, q.guard), 1)))
    for p in ini:
        for q in ini:
            if lastseg(p.fn) == 'stopRequest' and lastseg(q.fn) == 'startRequest':
                n += 1
                if p.seq > q.seq and AND(p.guard, q.guard) != 0: mism.append(V(rel(T, p), 'order in the realtime cycle', 'startRequest precedes stopRequest', 'a re-initialised controller is stopped, then started'))
    return out(n, mism)

# ------------------------------------------------------------------------------------------ hardware interface
def claim_policies(T):
    mism = []; n = 0
    for t, bs in sorted(T.S['bases'].items()):
        if not t.startswith('hardware_interface::') : continue
        if not any('HardwareResourceManager<' in b or b in T.S['bases'] for b in bs) or not t.endswith('Interface'): continue
        n += 1
        have = T.R['bases'].get(t)
        if have is None: raise Broken('interface class vanished: ' + t)
        def policy(M, t):
            seen = []
            todo = [t]
            while todo:
                x = todo.pop(0)
                for b in M['bases'].get(x, []):
                    if 'HardwareResourceManager<' in b and not b.startswith('hardware_interface::ResourceManager<'): seen.append(b)
                    todo.append(b)
            return sorted(set(seen))
        a, b = policy(T.R, t), policy(T.S, t)
        if a != b:
            r = T.R['records'].get(t, {})
            mism.append(V('%s:%s' % ((r.get('file') or '').replace(T.rootR, ''), r.get('line')), 'claim policy', '%s manages %s' % (t, a), str(b)))
    if n < 10: raise Broken('only %d interface classes found' % n)
    return out(n, mism)

# ------------------------------------------------------------------------------------------ transmissions
def to_rat(t):
    """Term -> (numerator, denominator) polynomials over atoms."""
    num, den = C(0), C(1)
    for m, c in _polyd(t).items():
        n, d = _mkpoly({(): c}), C(1)
        for a, e in m:
            if a.op == 'inv':
                an, ad = to_rat(a.args[0]); an, ad = ad, an
            else: an, ad = a, C(1)
            for _ in range(abs(e)):
                if e > 0: n, d = mul(n, an), mul(d, ad)
                else: n, d = mul(n, ad), mul(d, an)
        num = add(mul(num, d), mul(n, den)); den = mul(den, d)
    return num, den
TRS = ('Simple', 'Differential', 'FourBarLinkage')
def trfn(T, c, m):
    n = 'transmission_interface::%sTransmission::%s' % (c, m)
    f = [g for g in T.R['functions'].values() if plain(g['name']) == n and g.get('body') is not None]
    if not f: raise Broken('anchor vanished: ' + n)
    return f[0]
def run_map(T, c, m, args):
    f = trfn(T, c, m); x = Ev(T.R)
    s = x.run(f, args=args)
    return f, x, s
def writes_of(x, s):
    """Values stored through the vectors of the output argument: {field index: value}."""
    w = {}
    for L in s.env:
        if L.op == 'd': w[L] = x.rd(L, s.env)
    return w
def differs(T, c, m):
    """Mismatches of one map with the reference formulas; None when undecided."""
    from . import engine
    f = trfn(T, c, m)
    ks = [k for k in T.S['functions'] if T.counterpart(k) is f]
    if not ks: return None
    r = engine.run_fn(T, engine.Fn('.*'), ks[0], 60)
    return r['mism'] or ([] if not r['und'] else None)
def inverse_maps(T):
    from . import pwl
    mism = []; n = 0; und = []
    cache = {}
    def df(c, m):
        if (c, m) not in cache: cache[c, m] = differs(T, c, m)
        return cache[c, m]
    for c in TRS:
        for q in ('Effort', 'Velocity', 'Position'):
            for a, b in (('actuatorToJoint', 'jointToActuator'), ('jointToActuator', 'actuatorToJoint')):
                X0, Y0 = mk('p', 0), mk('p', 1)
                f, x1, s1 = run_map(T, c, a + q, [X0, Y0])
                w1 = writes_of(x1, s1)
                g, x2, s2 = run_map(T, c, b + q, [Y0, X0])
                w2 = writes_of(x2, s2)
                where = '%s:%s' % (g['file'].replace(T.rootR, ''), g['line'])
                def undecided(why):
                    # the reference maps are inverse bijections: when only one of the two computes something else, they no longer are
                    d1, d2 = df(c, a + q), df(c, b + q)
                    for x, y, nm in ((d1, d2, a), (d2, d1, b)):
                        if x and y == []:
                            for m in x[:2]: mism.append(V(m['where'], 'maps are not inverse', 'only %s%s of the %s transmission changed: %s %s' % (nm, q, c, m['kind'], m['what'][:80] + ' ' + m['got'][:160]), m['want'][:200], m['when'][:200]))
                            return
                    if not (d1 == [] and d2 == []): und.append('%s %s: %s' % (c, q, why))
                if s1.notes or s2.notes or not w2: undecided('not followed'); continue
                m = dict(w1); S = Subst(m)
                for L, v in sorted(w2.items()):
                    n += 1
                    r = S.term(v)
                    try:
                        for asg, cons, y in pwl.explore(lambda asg: pwl.lin(r, asg), [2000]):
                            num, den = to_rat(sub(y, L))
                            N, D = to_rat(num)
                            if not _polyd(N): continue
                            if any(t.op == 'eq' and h or t.op not in ('pos', 'eq') for t, h in asg.items()) or any(x.op in ('inv', 'case') for p, _ in cons for mo in p for x, _ in mo):
                                undecided('gated value'); continue
                            even = [({mo: Fraction(1)}, False) for mo in {mo for p, _ in cons for mo in p} if mo and all(e % 2 == 0 for _, e in mo)]
                            if even and not pwl.nonempty(list(cons) + even): continue
                            mism.append(V(where, 'maps are not inverse', '%s%s after %s%s of the %s transmission gives %s for %s' % (b, q, a, q, c, show(y)[:200], show(L)), 'the identity', ' & '.join(('' if h else '!') + show(t) for t, h in asg.items())[:200]))
                    except pwl.Budget: undecided('too many alternatives')
    if n < 30 and not und: raise Broken('only %d map compositions found' % n)
    return out(n, mism, und)
def rename_fields(t, m):
    if not isinstance(t, T_): return t
    if t.op == 'f' and t.args[1] in m: return mk('f', rename_fields(t.args[0], m), m[t.args[1]])
    return t
from .bdd import T as T_
def sub_fields(t, m):
    mp = {x: mk('f', x.args[0], m[x.args[1]]) for x in subterms(t) if x.op == 'f' and x.args[1] in m and x.args[0].op == 'p'}
    return Subst(mp).term(t) if mp else t
def sensor_maps(T):
    mism = []; n = 0; und = []
    for c in TRS:
        for src, dst, ren in (('Position', 'AbsolutePosition', {'position': 'absolute_position'}), ('Effort', 'TorqueSensor', {'effort': 'torque_sensor'})):
            f, x1, s1 = run_map(T, c, 'actuatorToJoint' + src, [mk('p', 0), mk('p', 1)]); g, x2, s2 = run_map(T, c, 'actuatorToJoint' + dst, [mk('p', 0), mk('p', 1)])
            w1 = {sub_fields(L, ren): sub_fields(v, ren) for L, v in writes_of(x1, s1).items()}; w2 = writes_of(x2, s2)
            if s1.notes or s2.notes: und.append('%s %s' % (c, dst)); continue
            for L in sorted(set(w1) | set(w2)):
                n += 1
                a, b = w1.get(L), w2.get(L)
                if b is not None and b.op == 'case' and c == 'Differential' and dst == 'AbsolutePosition':
                    # encoders mounted at the joint bypass the gears when so configured
                    fl = atom(mk('f', mk('this'), 'ignore_transmission_for_absolute_encoders_'))
                    for gd, y in leaves(b):
                        if implies(gd, NOT(fl)) and a is not None and not same_poly(y, a): mism.append(V(loc(T, g), 'sensor map', '%s = %s' % (show(L), show(y)[:300]), show(a)[:300], showf(gd)))
                    continue
                if a is None or b is None or a.op == 'case' or b.op == 'case':
                    if a is None or b is None: mism.append(V(loc(T, g), 'sensor map', '%s is %s' % (show(L), 'not written' if b is None else show(b)[:300]), 'as the %s map' % src))
                    else: und.append('%s %s: gated' % (c, dst))
                    continue
                if not same_poly(a, b): mism.append(V(loc(T, g), 'sensor map differs from the %s map' % src.lower(), '%s = %s' % (show(L), show(b)[:300]), show(a)[:300]))
    if n < 9 and not und: raise Broken('only %d sensor map outputs found' % n)
    return out(n, mism, und)
def loc(T, f): return '%s:%s' % (f['file'].replace(T.rootR, ''), f['line'])
def same_poly(a, b):
    num, _ = to_rat(sub(a, b)); N, _ = to_rat(num)
    return not _polyd(N)
def divisors(t, acc):
    for x in subterms(t):
        if x.op == 'inv': acc.add(x.args[0])
        if x.op == 'poly':
            for m, c in x.args:
                for a, e in m:
                    if e < 0: acc.add(a)
    return acc
def singular_rejected(T):
    mism = []; n = 0; und = []
    for c in TRS:
        ctors = [g for g in T.R['functions'].values() if plain(g['name']) == 'transmission_interface::%sTransmission::%sTransmission' % (c, c) and g.get('body') is not None]
        if not ctors: raise Broken('no constructor of %sTransmission' % c)
        divs = {}
        for m in ('Effort', 'Velocity', 'Position'):
            for a in ('actuatorToJoint', 'jointToActuator'):
                f, x, s = run_map(T, c, a + m, [mk('p', 0), mk('p', 1)])
                for L, v in writes_of(x, s).items():
                    for d in divisors(v, set()): divs.setdefault(d, f)
        if not divs: raise Broken('no divisor in the maps of ' + c)
        for g in ctors:
            x = Ev(T.R); s = x.run(g)
            m = {}
            for L in s.env:
                if L.op == 'f' and L.args[0].op == 'this': m[L] = x.rd(L, s.env)
            for d, f in sorted(divs.items(), key=lambda z: z[0].id):
                n += 1
                dd = Subst(m).term(d)
                z = AND(s.live, nonzero_fails(dd))
                if z is None: und.append(show(d)); continue
                if z != 0 and compare.Comparer().real(z) != 0: mism.append(V(loc(T, g), 'singular parameter accepted', 'the constructor of %sTransmission completes with %s == 0, a divisor in %s' % (c, show(d)[:120], plain(f['name'])), 'exception', showf(z, 1)))
    return out(n, mism, und)
def nonzero_fails(d):
    """Formula under which d == 0 is possible: some factor is zero."""
    p = _polyd(d)
    if len(p) == 1:
        (m, c), = p.items()
        f = FALSE
        for a, e in m: f = OR(f, eq(a, C(0)))
        return f
    # factor out common atoms first, the remaining sum must be excluded by a literal on it
    return eq(d, C(0))

def default_limits(T):
    """What a default-constructed set of limits specifies: nothing."""
    return default_members(T, ['joint_limits_interface::JointLimits', 'joint_limits_interface::SoftJointLimits'], True)
def default_handles(T):
    """What a default-constructed handle refers to: nothing."""
    return default_members(T, sorted(t for t in T.S['records'] if re.match(r'hardware_interface::\w+Handle\Z', t)), False)
def default_members(T, types, public):
    from .core import const_expr
    mism = []; und = []; n = 0
    for t in types:
        r, s = T.R['records'].get(t), T.S['records'].get(t)
        if r is None or s is None:
            if not public: continue
            raise Broken('limits structure vanished: ' + t)
        ctor = [f for f in T.R['functions'].values() if f['name'] in (t + '::' + t.split('::')[-1],) and not f['params'] and f.get('body') is not None]
        if any((f['body'] or {}).get('b') or (f['body'] or {}).get('s') for f in ctor): und.append(t + ': the constructor has a body'); continue
        ini = {i.get('field'): i.get('e') for f in ctor for i in f.get('inits') or ()}
        have = {f['n']: (f, ini.get(f['n'], f.get('i'))) for f in r['fields']}
        for f in s['fields']:
            if not public and f.get('i') is None: continue
            n += 1
            w = const_expr(f.get('i')); g = have.get(f['n'])
            if g is None and not public: continue
            if g is None: raise Broken('member vanished: %s::%s' % (t, f['n']))
            v = const_expr(g[1]) if g[1] else None
            if w is None or v is w: continue
            if v is None and g[1] is not None: und.append('%s::%s' % (t, f['n'])); continue
            mism.append(V('%s:%s' % (r['file'].replace(T.rootR, ''), g[0].get('line')), 'default value', '%s = %s' % (f['n'], 'not initialised' if v is None else show(v)), show(w)))
    return out(n, mism, und)
