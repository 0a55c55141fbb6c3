"""Python front end: evaluates the repository's Python tools with the same gated-value dataflow.

The syntax tree of every module is read with `ast`; functions are evaluated structurally (Ev supplies
branches, joins, collection loops, exits and inlining).  Services are recognised by the type given to
ServiceProxy and their requests are normalised to the fields of the .srv file.
"""
import ast, glob, os, re
from .core import *
from . import core
from .ev import Ev, State, Ctx, Exit, Frame, Binder, THIS, root_of, subterms, concat, isval, simp, mset, bvs
from .lib import seq_filter, seq_cat
from .engine import Broken

def _walk_fn(body):
    """Nodes of a body without those of nested functions."""
    todo = list(body)
    while todo:
        n = todo.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)): continue
        todo += list(ast.iter_child_nodes(n))

FILES = {'spawner': 'controller_manager/scripts/spawner', 'unspawner': 'controller_manager/scripts/unspawner', 'cm_script': 'controller_manager/scripts/controller_manager',
         'controller_group': 'controller_manager/scripts/controller_group', 'controller_manager_interface': 'controller_manager/src/controller_manager/controller_manager_interface.py',
         'utils': 'controller_manager_msgs/src/controller_manager_msgs/utils.py', 'rqt': 'rqt_controller_manager/src/rqt_controller_manager/controller_manager.py',
         'update_combo': 'rqt_controller_manager/src/rqt_controller_manager/update_combo.py'}
IMPORTNAMES = {'controller_manager.controller_manager_interface': 'controller_manager_interface', 'controller_manager_msgs.utils': 'utils', 'rqt_controller_manager.update_combo': 'update_combo',
               'update_combo': 'update_combo'}

class Mod:
    def __init__(self, name, path):
        self.name = name; self.path = path
        try: self.tree = ast.parse(open(path).read())
        except OSError: raise Broken('anchor vanished: %s' % path)
        except SyntaxError as e: raise Broken('%s does not parse: %s' % (path, e))
        self.imports = {}; self.functions = {}; self.classes = {}; self.assigned = {}; self.main = None; self.mutable = set()
        self.top(self.tree.body)
        for n in ast.walk(self.tree):
            if isinstance(n, ast.Global): self.mutable |= set(n.names)
            if isinstance(n, (ast.Import, ast.ImportFrom)) and n not in self.tree.body: self.imp(n)
        for f in ast.walk(self.tree):
            if not isinstance(f, ast.FunctionDef): continue
            loc = localnames(f)
            for n in _walk_fn(f.body):
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.attr in MUTATORS and n.func.value.id not in loc: self.mutable.add(n.func.value.id)
                if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and n.value.id not in loc: self.mutable.add(n.value.id)
    def imp(self, n):
        if isinstance(n, ast.Import):
            for a in n.names:
                if a.asname: self.imports[a.asname] = a.name
                else: self.imports[a.name.split('.')[0]] = a.name.split('.')[0]
        else:
            for a in n.names:
                if a.name == '*' or n.module == '__future__': continue
                m = n.module or ''
                q = a.name if m.endswith(('.srv', '.msg')) or m.startswith('python_qt_binding') else (m + '.' + a.name if m else a.name)
                self.imports[a.asname or a.name] = IMPORTNAMES.get(q, q)
    def top(self, body):
        for n in body:
            if isinstance(n, (ast.Import, ast.ImportFrom)): self.imp(n)
            elif isinstance(n, ast.FunctionDef): self.functions[n.name] = n
            elif isinstance(n, ast.ClassDef): self.classes[n.name] = n
            elif isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name): self.assigned.setdefault(n.targets[0].id, []).append(n.value)
            elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name) and n.value is not None: self.assigned.setdefault(n.target.id, []).append(n.value)
            elif isinstance(n, ast.If) and '__name__' in ast.dump(n.test): self.main = n
            elif isinstance(n, ast.Try): self.top(n.body)

MUTATORS = {'append', 'extend', 'insert', 'remove', 'pop', 'clear', 'sort', 'reverse', 'add', 'update', 'discard', 'setdefault', 'popitem'}
def localnames(f):
    a = f.args
    names = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs} | ({a.vararg.arg} if a.vararg else set()) | ({a.kwarg.arg} if a.kwarg else set())
    glob = set()
    body = f.body if isinstance(f.body, list) else [f.body]
    for n in _walk_fn(body):
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)): names.add(n.id)
        elif isinstance(n, (ast.FunctionDef, ast.ClassDef)): names.add(n.name)
        elif isinstance(n, (ast.Global, ast.Nonlocal)): glob |= set(n.names)
        elif isinstance(n, ast.ExceptHandler) and n.name: names.add(n.name)
    return names - glob
def rebound(f):
    """Names the function assigns (not its parameters as such)."""
    out = set()
    body = f.body if isinstance(f.body, list) else [f.body]
    for n in _walk_fn(body):
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)): out.add(n.id)
    return out

# ------------------------------------------------------------------ service definitions
class Services:
    def __init__(self, root):
        self.req = {}; self.consts = {}; self.boolf = set()
        for p in glob.glob(os.path.join(root, 'controller_manager_msgs', 'srv', '*.srv')) + glob.glob(os.path.join(root, 'controller_manager_msgs', 'msg', '*.msg')):
            nm = os.path.splitext(os.path.basename(p))[0]; part = 0 if p.endswith('.srv') else 2; fs = []
            for line in open(p):
                line = line.split('#')[0].strip()
                if line == '---': part = 1; continue
                m = re.match(r'^([\w/]+(?:\[\d*\])?)\s+(\w+)\s*(?:=\s*(.*))?$', line)
                if not m: continue
                t, n, v = m.groups()
                if v is not None: self.consts[nm + ('Request' if part == 0 else 'Response' if part == 1 else '') + '.' + n] = int(v) if re.match(r'^-?\d+$', v) else v; continue
                if t == 'bool': self.boolf.add(n)
                if part != 1: fs.append((n, SEQ0 if t.endswith(']') else FALSE_T if t == 'bool' else EMPTY_STR if t == 'string' else C(0)))
            self.req[nm] = fs

def load(root):
    M = {'functions': {}, 'records': {}, 'bases': {}, 'mods': {}, 'srv': Services(root), 'root': root}
    for name, rel in FILES.items():
        mod = Mod(name, os.path.join(root, rel)); M['mods'][name] = mod
        def put(q, node, cls=None, body=None):
            a = node.args if node is not None else None
            ps = (a.posonlyargs + a.args) if a else []
            if cls and ps and not any(isinstance(d, ast.Name) and d.id == 'staticmethod' for d in node.decorator_list): ps = ps[1:]
            ps = ps + (a.kwonlyargs if a else [])
            rb = rebound(node) if node is not None else set()
            f = {'key': q, 'name': q, 'params': [{'id': p.arg, 'n': p.arg, 't': 'py', 'ref': p.arg not in rb} for p in ps], 'body': {'k': 'pybody', 'b': body if body is not None else node.body},
                 'file': mod.path, 'line': node.lineno if node is not None else mod.main.lineno, 'cls': cls, 'clst': None, 'py': node, 'mod': mod, 'ret': '', 'static': None,
                 'acc': 'public'}
            if a is not None:
                pos = a.posonlyargs + a.args; dl = dict(zip([p.arg for p in pos[len(pos) - len(a.defaults):]], a.defaults)); dl.update({p.arg: d for p, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None})
                for x in f['params']:
                    if x['id'] in dl and isinstance(dl[x['id']], ast.Constant): x['pydef'] = dl[x['id']].value
            M['functions'][q] = f
        for n, f in mod.functions.items(): put('%s::%s' % (name, n), f)
        for c, cl in mod.classes.items():
            for f in cl.body:
                if isinstance(f, ast.FunctionDef): put('%s::%s::%s' % (name, c, f.name), f, c)
        if mod.main is not None: put('%s::__main__' % name, None, body=mod.main.body)
    called = {}; used = {}
    for mod in M['mods'].values():
        direct = set()
        for n in ast.walk(mod.tree):
            if isinstance(n, ast.Call): direct.add(id(n.func)); called[nameof(n.func)] = 1
            if isinstance(n, (ast.Name, ast.Attribute)) and isinstance(n.ctx, ast.Load) and id(n) not in direct: used.setdefault(nameof(n), []).append(n)
    for q, f in M['functions'].items():
        # helpers: internal functions that are only ever called, never handed out
        n = q.split('::')[-1]; script = q.split('::')[0] in SCRIPTS
        inner = n.startswith('_') and not n.startswith('__') or script and f['cls'] is None and n != '__main__'
        f['cb'] = inner and n in used
        f['acc'] = 'private' if inner and n in called and n not in used else 'public'
    return M
SCRIPTS = ('spawner', 'unspawner', 'cm_script', 'controller_group')
def nameof(n): return n.id if isinstance(n, ast.Name) else n.attr if isinstance(n, ast.Attribute) else None

# ------------------------------------------------------------------ values
LOGS = {'rospy.' + x for x in ('loginfo', 'logwarn', 'logerr', 'logdebug', 'logfatal', 'logout', 'loginfo_once', 'logwarn_once', 'logerr_once', 'loginfo_throttle', 'logwarn_throttle', 'logerr_throttle', 'logdebug_throttle', 'sleep')} | {'time.sleep', 'warnings.warn', 'logging.info', 'logging.debug', 'logging.warning', 'logging.error'}
PURECALL = re.compile(r'(str\.\w+|len|sorted|rospy\.(ServiceProxy|Duration|Time|Rate|is_shutdown|get_\w+|resolve_name|myargv|search_param|has_param)|time\.(time|monotonic)|os\.path\.\w+|yaml\.\w+|open|getattr|isinstance|repr|int|float|abs|min|max|range|enumerate|zip|rosservice\.get_\w+|rosparam\.(list|get)_\w+|'
                      r'req:\w+|slice|set\.\w+|ast\.literal_eval|argparse\.\w+|sys\.\w+(\.\w+)*|rospkg\.\w+|Q[A-Z]\w*|ControllerState|utils\.\w+Lister|rqt::\w+|\.(pos|row|column|isValid|parent|currentText|itemText|count|rowAt|y|x|windowTitle|serial_number|index|horizontalHeader|resizeMode|mapToGlobal|get_path|isChecked|text|data|value|items|keys|values|total_seconds|to_sec))\Z')
def none(v):
    """v is None."""
    if v.op == 'case': return OR(*[AND(g.args[0], none(w)) for w, g in v.args])
    if v is NULL: return TRUE
    if v.op in ('c', 'b', 'app', 'seq0', 'arr', 'mset', 'gmap', 'concat', 'lambda', 'func', 'pyname', 'method', 'toset', 'poly', 'size', 'new', 'sorted', 'pair', 'tuple', 'req'): return FALSE
    if v.op == 'call' and (v.args[0] in ('rospy.ServiceProxy', 'open', 'ControllerState') or str(v.args[0]).startswith(('str.', 'Q', 'req:', 'rqt::', 'utils.'))): return FALSE
    return AND(NOT(atom(mk('nn', v))), atom(mk('empty', v)))
BOOLF = set()
BOOLCALLS = ('rospy.is_shutdown', 'os.path.exists', 'os.path.isfile', '.isValid', 'isinstance', 'rospy.has_param', 'str.startswith', 'str.endswith', '.isChecked')
def boolish(v):
    return v.op == 'f' and v.args[1] in BOOLF or v.op == 'call' and v.args[0] in BOOLCALLS
def ptruth(v):
    if v is None or v is NULL: return FALSE
    if v.op == 'case': return OR(*[AND(g.args[0], ptruth(w)) for w, g in v.args])
    if v.op == 'b': return v.args[0]
    if v.op == 'c': return TRUE if v.args[0] else FALSE
    if v.op == 'toset': return ptruth(v.args[0])
    if v.op in ('gmap', 'items', 'sorted', 'rev'): return ptruth(v.args[0]) if v.op != 'gmap' else NOT(lenform(v))
    if v.op in ('size', 'ssize', 'poly'): return NOT(eq(v, C(0)))
    if v.op in ('new', 'lambda', 'func', 'pyname', 'this', 'addr'): return TRUE
    if v.op == 'concat': return TRUE if any(x.op == 'c' and x.args[0] for x in v.args) else OR(*[ptruth(x) for x in v.args])
    if boolish(v): return atom(v)
    return NOT(lenform(v))
def peq(a, b):
    for x, y in ((a, b), (b, a)):
        if x.op == 'case': return OR(*[AND(g.args[0], peq(w, y)) for w, g in x.args])
        if y is NULL: return none(x)
        if y is EMPTY_STR and x.op != 'c': return NOT(ptruth(x)) if x.op != 'b' else FALSE
        if boolish(x) and y.op == 'c' and not isinstance(y.args[0], str): return atom(x) if y.args[0] in (1, True) else NOT(atom(x)) if y.args[0] in (0, False) else FALSE
    if a.op == 'c' and b.op == 'c': return TRUE if a.args[0] == b.args[0] else FALSE
    if a.op in ('arr', 'tuple') and b.op in ('arr', 'tuple') and len(a.args) == len(b.args): return AND(*[peq(x, y) for x, y in zip(a.args, b.args)])
    if a.op == 'sorted' and b.op == 'sorted': return AND(eq(mk_size(a.args[0]), mk_size(b.args[0])), eq(a, b))
    return eq(a, b)
def unset(v): return v.args[0] if v.op == 'toset' else v
def toset(v):
    if v.op == 'case': return mk_case([(g.args[0], toset(w)) for w, g in v.args])
    if v.op == 'sorted': return toset(v.args[0])
    if v.op in ('seq0', 'toset') : return v
    return mk('toset', v)
def seqof(v):
    """The sequence a collection value iterates over."""
    return v
def cat(a, b):
    if a.op == 'case': return mk_case([(g.args[0], cat(w, b)) for w, g in a.args])
    if a.op == 'arr':
        x = SEQ0
        for el in a.args: x = append_seg(x, [], TRUE, el)
        a = x
    if a.op not in ('seq0', 'app', 'phi'):
        v = fresh_bv(a); a = append_seg(mk('app', SEQ0, ()), [(v, a)], TRUE, v) if False else mk('app', SEQ0, _whole(a))
    b = unset(b) if b.op == 'toset' else b
    if a.op == 'seq0' and b.op == 'case': return mk_case([(g.args[0], cat(a, w)) for w, g in b.args])
    if a.op == 'seq0' and b.op not in ('seq0', 'app', 'arr'): return mk('app', SEQ0, _whole(b))     # a new object with the same elements
    return seq_cat(a, b)
def _whole(a):
    v = fresh_bv(a)
    h = max(depth_of(v), depth_of(a)) + 1
    m = mk('bvc', h)
    return (((m, a),), fm(TRUE), m),
def uncopy(v):
    """A copy of a whole sequence, where only its elements matter."""
    if v.op == 'case': return mk_case([(g.args[0], uncopy(w)) for w, g in v.args])
    if v.op == 'app' and v.args[0] is SEQ0 and len(v.args[1]) == 1:
        vs, g, m = v.args[1][0]
        if len(vs) == 1 and vs[0][0] is m and g is fm(TRUE): return vs[0][1]
    return v
def phas(c, x):
    if c.op == 'case': return OR(*[AND(g.args[0], phas(w, x)) for w, g in c.args])
    if c.op in ('toset', 'sorted', 'rev'): return phas(c.args[0], x)
    if c.op == 'keys': return has(c.args[0], x)
    if c.op in ('arr', 'tuple'): return OR(*[peq(y, x) for y in c.args])
    if c.op == 'c' and x.op == 'c' and isinstance(c.args[0], str): return TRUE if str(x.args[0]) in c.args[0] else FALSE
    if c.op == 'dict': return OR(*[peq(k, x) for k, v in pairs_of(c)])
    return has(c, x)
def pairs_of(d): return [(d.args[i], d.args[i + 1]) for i in range(0, len(d.args), 2)]
def dget(d, k):
    """Value for a key."""
    if d.op == 'case': return mk_case([(g.args[0], dget(w, k)) for w, g in d.args])
    if k.op == 'case': return mk_case([(g.args[0], dget(d, w)) for w, g in k.args])
    if d.op == 'dict':
        for a, v in pairs_of(d):
            if a is k: return v
        if k.op == 'c' and all(a.op == 'c' for a, v in pairs_of(d)): return mk('missing', k)
        r = mk('missing', k)
        for a, v in reversed(pairs_of(d)): r = mk_ite(peq(a, k), v, r)
        return r
    return mget(d, k)

class PyEv(Ev):
    def __init__(self, M, opaque=(), volatile=()):
        super().__init__(M, opaque=opaque)
        self.mod = None; self.kinds = {}; self.srv = M['srv']; self.callbacks = []; self.ncomp = 0; self.nloop = 0; self.curcls = []
        BOOLF.clear(); BOOLF.update(self.srv.boolf)
    # ------------------------------------------------------------ functions
    def run(self, fn, this=THIS, args=None, env=None):
        self.mods = [fn['mod']]; self.kinds = {}; self.callbacks = []; self.nloop = 0; self.curcls = []
        if fn['name'].endswith('__main__') and env is None:
            env = {}
            self.st = State({}, TRUE, ()); self.frames = [Frame(0, fn)]; self.events = []; self.prefix = TRUE; self.ctxs = [Ctx('x')]; self.notes = []; self.callcount = {}
            for n in fn['mod'].mutable & set(fn['mod'].assigned):
                env[mk('glob', n)] = self.val(fn['mod'].assigned[n][-1]); self.kinds[mk('glob', n)] = kind_of(fn['mod'].assigned[n][-1])
        return super().run(fn, this, args, env)
    def body(self, fn, this, locs, lam=None, parent=None):
        if fn.get('mod') is not None: self.mods.append(fn['mod'])
        ncb = len(self.callbacks)
        self.pyfn = getattr(self, 'pyfn', None)
        try: return super().body(fn, this, locs, lam, parent)
        finally:
            if fn.get('mod') is not None: self.mods.pop()
    @property
    def m(self): return self.mods[-1]
    def exec(self, s):
        if s is None or self.st.live == 0: return
        if isinstance(s, dict):
            if s['k'] == 'pybody':
                self.fr.scopeinfo = None
                py = self.fr.fn.get('py')
                if py is not None and self.fr.fn.get('cls') and py.args.args and not py.decorator_list: self.fr.vars[py.args.args[0].arg] = self.fr.this or THIS
                for x in s['b']: self.exec(x)
                if py is not None and self.st.live != 0: self.exit('ret', NULL, {'l': self.curline})
                if len(self.frames) == 1: self.run_callbacks()
                return
            return super().exec(s)
        self.curline = getattr(s, 'lineno', self.curline)
        m = getattr(self, 'p_' + type(s).__name__, None)
        if m is None: self.note({'l': self.curline}, 'statement ' + type(s).__name__); return
        m(s)
    def blk(self, ss):
        for x in ss: self.exec(x)
    def p_Pass(self, s): pass
    def p_Import(self, s): pass
    def p_ImportFrom(self, s): pass
    def p_Global(self, s):
        for n in s.names: self.fr.vars[n] = mk('glob', n)
    def p_Nonlocal(self, s):
        for n in s.names:
            L = self.fr.parent.find(n) if self.fr.parent else None
            if L is not None: self.fr.vars[n] = L
    def p_Expr(self, s):
        if isinstance(s.value, ast.Constant): return
        self.val(s.value)
    def p_Assert(self, s): pass
    def p_Delete(self, s): self.note(self.d(s), 'statement Delete')
    def d(self, n): return {'l': getattr(n, 'lineno', self.curline)}
    def p_If(self, s):
        c = self.cond(s.test)
        self.branch(c, lambda: self.blk(s.body), lambda: self.blk(s.orelse))
    def p_Return(self, s):
        v = self.val(s.value) if s.value is not None else NULL
        self.exit('ret', v, self.d(s))
    def p_Break(self, s): self.exit('brk', None, self.d(s))
    def p_Continue(self, s): self.exit('cont', None, self.d(s))
    def p_Raise(self, s):
        if s.exc is None: ex = getattr(self, 'curexc', mk('exc', 'any'))
        else:
            e = s.exc
            if isinstance(e, ast.Call):
                for a in e.args: self.val(a)
                e = e.func
            ex = mk('exc', excname(self.qual(e) or ast.dump(e)))
        self.ev('throw', self.d(s), val=ex); self.exit('thr', ex, self.d(s))
    def p_FunctionDef(self, s):
        L = self.local(s.name); self.st.env[L] = self.closure(s)
    def closure(self, s):
        n = self.fresh(); t = mk('lambda', '%s:%s' % (getattr(s, 'name', 'lambda'), s.lineno), n)
        self.lambdas[t] = (s, self.fr, self.m, list(self.curcls)); return t
    def p_Assign(self, s):
        if len(s.targets) == 1 and isinstance(s.targets[0], (ast.Tuple, ast.List)) and isinstance(s.value, (ast.Tuple, ast.List)) and len(s.targets[0].elts) == len(s.value.elts):
            vs = [self.val(x) for x in s.value.elts]
            for t, v, n in zip(s.targets[0].elts, vs, s.value.elts): self.assign(t, v, n, s)
            return
        v = self.val(s.value)
        for t in s.targets: self.assign(t, v, s.value, s)
    def p_AnnAssign(self, s):
        if s.value is not None: self.assign(s.target, self.val(s.value), s.value, s)
    def local(self, name):
        L = self.fr.vars.get(name)
        if L is None:
            L = mk('var', self.fr.n, name, name); self.fr.vars[name] = L
        return L
    def assign(self, t, v, node, s):
        if isinstance(t, ast.Name):
            L = self.local(t.id)
            if isinstance(node, (ast.Name, ast.Attribute)) and self.kindof(node) in ('list', 'set', 'dict') and self.mutated(t.id, node): self.note(self.d(s), 'two names for one mutable collection')
            k = self.kindof(node) if node is not None else None
            self.kinds[L] = k
            if k == 'set': v = unset(v)
            self.drop(L); self.wr(L, v, self.d(s)); return
        if isinstance(t, (ast.Tuple, ast.List)):
            for i, x in enumerate(t.elts): self.assign(x, self.item(v, i), None, s)
            return
        if isinstance(t, ast.Attribute):
            L = self.lv(t); self.kinds[L] = self.kindof(node) if node is not None else None
            self.wr(L, v, self.d(s)); return
        if isinstance(t, ast.Subscript):
            L = self.lv(t.value) if self.is_lvalue(t.value) else self.tmp(self.val(t.value))
            if isinstance(t.slice, ast.Slice):
                if t.slice.lower is None and t.slice.upper is None and t.slice.step is None:
                    self.mutate(L, lambda old: v, s, whole=True); return
                self.note(self.d(s), 'slice assignment'); return
            i = self.val(t.slice); cur = self.rd(L)
            if self.kinds.get(L) == 'dict' or i.op == 'c' and isinstance(i.args[0], str) or cur.op in ('dict', 'mset', 'gmap'):
                if cur.op == 'dict':
                    self.note(self.d(s), 'update of a literal dictionary')
                self.mutate(L, lambda old: mset(old, i, v), s); return
            if is_num(i): self.wr(mk('idx', L, i), v, self.d(s)); return
            if self.kinds.get(L) is None: self.mutate(L, lambda old: mset(old, i, v), s); return
            self.note(self.d(s), 'element assignment'); return
        self.note(self.d(s), 'assignment to ' + type(t).__name__)
    def mutated(self, name, node):
        f = self.fr.fn.get('py')
        ns = {name} | ({node.id} if isinstance(node, ast.Name) else set())
        body = self.fr.fn['body']['b'] if f is None or not isinstance(f.body, list) else f.body
        for n in _walk_fn(body):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id in ns and n.func.attr in MUTATORS: return True
            if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name) and n.target.id in ns: return True
            if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and n.value.id in ns: return True
        return False
    def reqfield(self, L):
        """(variable, index) when L is a field of a request held by a variable."""
        if L.op != 'f' or L.args[0].op not in ('var', 'tmp'): return None
        v = self.st.env.get(L.args[0])
        if v is None or v.op != 'call' or not str(v.args[0]).startswith('req:'): return None
        fs = [n for n, d in self.srv.req[v.args[0][4:]]]
        return (v, 2 + fs.index(L.args[1])) if L.args[1] in fs else None
    def rd(self, L, env=None):
        if env is None and L.op == 'f':
            r = self.reqfield(L)
            if r is not None: return r[0].args[r[1]]
        return super().rd(L, env)
    def wr(self, L, v, e=None, op=None, quiet=False):
        r = self.reqfield(L) if L.op == 'f' else None
        if r is not None:
            xs = list(r[0].args); xs[r[1]] = v; self.st.env[L.args[0]] = mk('call', *xs); return
        return super().wr(L, v, e, op, quiet)
    def item(self, v, i):
        if v.op == 'case': return mk_case([(g.args[0], self.item(w, i)) for w, g in v.args])
        if v.op in ('tuple', 'arr') and i < len(v.args): return v.args[i]
        if v.op == 'pair' or v.op in ('bv',) and core.BVCOLL.get(v) is not None and core.BVCOLL[v].op == 'items': return mk_field(v, ('first', 'second')[i]) if i < 2 else mk_idx(v, C(i))
        return mk_idx(v, C(i))
    def mutate(self, L, f, s, whole=False):
        """In-place change of the collection at L; the caller's object changes too if L still names it."""
        old = self.rd(L); new = f(old)
        ext = [(w, g) for g, w in leaves(old) if w.op in ('p', 'f', 'glob', 'call', 'bv', 'shared', 'cap', 'cbarg') and L is not w] if root_of(L).op in ('var', 'tmp') else []
        for w, g in ext:
            if w.op in ('call', 'cap', 'cbarg', 'shared'): continue
            # the name is another name for an object owned elsewhere
            self.ev('call', self.d(s) if not isinstance(s, dict) else s, fn='changes the caller\'s object', obj=w, args=[simp(new, g)])
        self.wr(L, new, self.d(s) if not isinstance(s, dict) else s, op='append')
    def p_AugAssign(self, s):
        v = self.val(s.value); L = self.lv(s.target); cur = self.rd(L)
        if isinstance(s.op, ast.Add):
            k = self.kinds.get(L) or self.kindof(s.value)
            if k == 'list' or cur.op in ('seq0', 'app', 'arr'): self.mutate(L, lambda old: cat(old, v), s); return
            self.wr(L, self.plus(cur, v), self.d(s)); return
        if isinstance(s.op, ast.BitOr) and (self.kinds.get(L) == 'set'): self.mutate(L, lambda old: cat(unset(old), v), s); return
        if isinstance(s.op, ast.Sub) and self.kinds.get(L) == 'set' or isinstance(s.op, ast.BitAnd): self.wr(L, unset(self.setop(s.op, toset(cur), v)), self.d(s)); return
        self.wr(L, self.arith(s.op, cur, v, s), self.d(s))
    def p_For(self, s):
        if s.orelse:
            # the else part runs when the loop is not left by break
            F = mk('var', self.fr.n, 'else%s' % self.fresh(), 'else'); self.st.env[F] = TRUE_T
            body = lambda: self.blk([x for x in self.flagged(s.body, F)])
        else: body = lambda: self.blk(s.body)
        self.loop(s.target, s.iter, body, s)
        if s.orelse:
            c = truth(self.rd(F)); self.branch(c, lambda: self.blk(s.orelse), lambda: None)
    def flagged(self, body, F):
        """The body with F cleared before each break."""
        class B(ast.NodeTransformer):
            def visit_Break(s, n): return [ClearFlag(F, n.lineno), n]
            def visit_For(s, n): return n
            def visit_While(s, n): return n
            def visit_FunctionDef(s, n): return n
        import copy
        return [y for x in copy.deepcopy(body) for y in (lambda r: r if isinstance(r, list) else [r])(B().visit(x))]
    def p_ClearFlag(self, s): self.st.env[s.F] = FALSE_T
    def loop(self, target, it, body, s):
        coll, el2 = self.iterable(it)
        def bind(el):
            x = el2(el)
            self.assign(target, x, None, s)
        self.foreach(coll, bind, body, self.d(s))
    def iterable(self, it):
        """(collection, element -> value bound by the loop)."""
        ident = lambda el: el
        if isinstance(it, ast.Call):
            q = self.qual(it.func)
            if q == 'enumerate' and len(it.args) == 1:
                c, f = self.iterable(it.args[0]); return c, (lambda el: mk('tuple', mk('ix', el, c), f(el)))
            if q in ('list', 'tuple', 'iter') and len(it.args) == 1: return self.iterable(it.args[0])
            if isinstance(it.func, ast.Attribute) and it.func.attr in ('items', 'iteritems', 'keys', 'values', 'iterkeys', 'itervalues', 'viewitems') and not it.args:
                return self.dictiter(self.val(it.func.value), it.func.attr.replace('iter', '').replace('view', ''))
            if q in ('sorted', 'reversed') and len(it.args) == 1 and not it.keywords:
                c, f = self.iterable(it.args[0]); return mk('sorted' if q == 'sorted' else 'rev', c) if c.op not in ('seq0',) else c, f
        v = self.val(it)
        if v.op in ('dict', 'mset', 'gmap') or self.kindof(it) == 'dict': return self.dictiter(v, 'keys')
        if v.op == 'keys': return self.dictiter(v.args[0], 'keys')
        if v.op == 'vals': return self.dictiter(v.args[0], 'values')
        if v.op == 'items': return self.dictiter(v.args[0], 'items')
        if v.op == 'tuple': v = mk('arr', *v.args)
        if v.op == 'c' and isinstance(v.args[0], str): v = mk('arr', *[C(x) for x in v.args[0]])
        return v, ident
    def dictiter(self, v, how):
        if v.op == 'dict': c = mk('arr', *[mk('pair', k, x) for k, x in pairs_of(v)]) if v.args else SEQ0
        else: c = mk('items', v) if v.op != 'seq0' else SEQ0
        if how == 'items': return c, (lambda el: mk('tuple', fst(el), snd(el)))
        return c, (fst if how == 'keys' else snd)
    def p_While(self, s):
        if s.orelse: self.note(self.d(s), 'while with else')
        self.genloop(self.d(s), lambda: self.cond(s.test), None, lambda: self.blk(s.body))
    def p_With(self, s):
        for i in s.items:
            v = self.val(i.context_expr)
            if i.optional_vars is not None: self.assign(i.optional_vars, v, i.context_expr, s)
        self.blk(s.body)
    def p_Try(self, s):
        if s.finalbody:
            st0 = self.ctxs[-1]; c = Ctx('fin'); self.ctxs.append(c)
            l0, p0 = self.st.live, self.prefix
            self.prefix = AND(p0, l0); self.st.live = TRUE
            self.try1(s)
            self.ctxs.pop()
            live, env, locks = self.st.live, self.st.env, self.st.locks
            for x in c.exits:
                self.st = State(dict(x.env), x.guard, x.locks); self.blk(s.finalbody)
                x.env = self.st.env; x.guard = AND(l0, self.st.live); st0.exits.append(x)
            self.st = State(env, live, locks)
            if live != 0: self.blk(s.finalbody)
            self.prefix = p0; self.st.live = AND(l0, self.st.live)
            return
        self.try1(s)
    def try1(self, s):
        F = mk('var', self.fr.n, 'ok%s' % self.fresh(), 'ok')
        self.st.env[F] = FALSE_T
        hs = []
        for h in s.handlers:
            ts = [None] if h.type is None else [x for x in h.type.elts] if isinstance(h.type, ast.Tuple) else [h.type]
            for t in ts:
                nm = '...' if t is None else excname(self.qual(t) or '?')
                if nm in ('Exception', 'BaseException'): nm = '...'
                hs.append({'t': nm, 'body': {'k': 'pyblk', 'b': h.body, 'v': h.name}})
        self.s_try({'k': 'try', 'body': {'k': 'pyblk', 'b': s.body, 'flag': F}, 'h': hs, 'l': s.lineno})
        if s.orelse and self.st.live != 0: self.branch(truth(self.rd(F)), lambda: self.blk(s.orelse), lambda: None)
    def s_pyblk(self, s):
        if s.get('v'): self.st.env[self.local(s['v'])] = mk('excobj')
        self.blk(s['b'])
        if s.get('flag') is not None and self.st.live != 0: self.st.env[s['flag']] = TRUE_T
    # ------------------------------------------------------------ loops without a collection
    def spinloop(self, s, condf, inc, body, W, E0, l0, locks0, post):
        p0 = self.prefix
        inv = {}
        for rnd in range(4):
            nev, nno, cc = len(self.events), len(self.notes), dict(self.callcount)
            self.prefix = AND(p0, l0); env = dict(E0); self.st = State(env, TRUE, locks0)
            c0 = condf(); e0 = self.st.env; z = State(dict(e0), AND(l0, NOT(c0)), locks0)
            env = dict(e0)
            for L, ph in W.items():
                for K in [K for K in env if self.under(K, L)]: del env[K]
                env[L] = inv.get(L, ph)
            self.st = State(env, c0 if c0 != 0 else FALSE, locks0)
            if c0 == 0: break
            v = mk('iteration', len(self.binders)); b = Binder(v, mk('loop')); self.binders = self.binders + [b]
            self.prefix = AND(p0, l0); self.st.live = TRUE
            c = condf() if inv or W else c0
            self.st.live = c
            ex = self.one_iter(body, inc)
            lv = self.st.live; end = self.st.env
            c1 = FALSE
            if lv != 0:
                c1 = condf()
            endenv = dict(self.st.env)
            self.binders = self.binders[:-1]
            cont = AND(lv, c1); new = {}
            for L, ph in W.items():
                if L in inv or lv == 0: continue
                init = self.rd_raw(E0, L); nxt = simp(self.rd_raw(end, L), cont) if cont != 0 else init
                if all(w is ph or w is init or AND(g, cont) == 0 for g, w in leaves(nxt)) and isval2(init): new[L] = init
            if not new: break
            inv.update(new)
            del self.events[nev:]; del self.notes[nno:]; self.callcount = cc
        self.prefix = p0
        if c0 == 0:
            self.st = State(E0, l0, locks0); return
        vol = any(x.op in ('shared', 'vcall') for a in support(c1) for x in subterms(a))
        ents = [(z.live, z.env)] if z.live != 0 else []
        g = AND(l0, c0, lv, TRUE if vol else NOT(c1))
        if vol: ents = [(AND(l0, lv if lv != 0 else TRUE), endenv)]
        elif g != 0: ents.append((g, endenv))
        for x in ex:
            x.guard = AND(l0, c0, x.guard)
            if x.kind == 'brk': ents.append((x.guard, x.env))
            else: self.ctxs[-1].exits.append(x)
        if not ents: self.st = State(dict(E0), FALSE, locks0); return
        lvv = OR(*[h for h, _ in ents])
        ents = [(h, {K: simp(x, AND(p0, h)) if x is not E0.get(K) and isinstance(x, T) and x.op == 'case' else x for K, x in e.items()}) for h, e in ents]
        self.st = State(self.join_envs(ents) if len(ents) > 1 else dict(ents[0][1]), lvv, locks0)
    # ------------------------------------------------------------ callbacks
    def callback(self, t, fn, n):
        """A function value handed to a library: it runs later, any number of times."""
        w = mk('callback', len(self.callbacks))
        if t.op not in ('lambda', 'func'): return t
        if self.dry_cb: return mk('callback', 'nested')
        regenv = dict(self.st.env); fr = self.fr
        changed = self.cb_changes(t)
        self.callbacks.append((t, fn, regenv, AND(self.prefix, self.st.live), tuple(self.binders), changed, self.curline, list(self.mods), list(self.frames), list(self.curcls)))
        for K in changed: self.drop(K); self.st.env[K] = mk('shared', self.rd(K))
        return mk('callback', fn)
    dry_cb = False
    def cb_changes(self, t):
        st, nev, nno, cc, nx = self.st, len(self.events), len(self.notes), dict(self.callcount), [len(c.exits) for c in self.ctxs]
        self.st = State(dict(st.env), TRUE, ()); e0 = dict(st.env); self.dry_cb = True
        try: self.call_cb(t)
        finally: self.dry_cb = False
        out = [K for K, v in self.st.env.items() if root_of(K).op in ('var', 'glob', 'this') and (K in e0 or root_of(K).op != 'var' or root_of(K) in e0) and self.rd_raw(e0, K) is not v]
        del self.events[nev:]; del self.notes[nno:]; self.callcount = cc; self.st = st
        for c, k in zip(self.ctxs, nx): del c.exits[k:]
        return [root_of(K) if root_of(K).op == 'var' else K for K in out]
    def call_cb(self, t):
        n = self.nparams(t)
        return self.call_lambda(t, [mk('cbarg', i) for i in range(n)])
    def nparams(self, t):
        if t.op == 'func': return len(self.F[t.args[0]]['params'])
        a = self.lambdas[t][0].args
        return len(a.posonlyargs + a.args) - len(a.defaults)
    def run_callbacks(self):
        i = 0
        end = dict(self.st.env); rets = [x for x in self.ctxs[-1].exits if x.kind == 'ret']
        if rets: end = self.join_envs([(x.guard, x.env) for x in rets] + ([(self.st.live, self.st.env)] if self.st.live != 0 else []))
        st0 = self.st.copy(); p0, b0 = self.prefix, self.binders
        allchanged = {K for c in self.callbacks for K in c[5]}
        for i, (t, fn, env, g, bs, changed, line, mods, frames, cls) in enumerate(list(self.callbacks)):
            e = dict(env); caps = []
            for K in list(e):
                if root_of(K).op not in ('var', 'glob', 'this'): continue
                if K in allchanged or self.rd_raw(end, K) is not e[K] and K in end:
                    caps.append((K, e[K])); e[K] = mk('cap', e[K])
            when = atom(mk('runs', fn))
            self.st = State(e, TRUE, ()); self.prefix = AND(p0, g, when); self.binders = list(bs)
            sm, sf, sc = self.mods, self.frames, self.curcls; self.mods, self.frames, self.curcls = mods, frames, cls
            c = Ctx('cb'); self.ctxs.append(c); self.curline = line
            used0 = len(self.events)
            self.call_cb(t)
            self.ctxs.pop()
            for K, old in caps:
                nv = self.rd_raw(self.st.env, K)
                if nv is not mk('cap', old): self.ev('call', {'l': line}, fn='callback changes', obj=None, args=[mk('cap', old), nv])
            for ev in self.events[used0:]: ev.later = (i, id(self))
            used = {x for ev in self.events[used0:] for a in list(ev.args or ()) + ([ev.obj] if ev.obj is not None else []) for x in subterms(a)}
            for b in self.events[used0:]: used |= {x for q in b.binders for x in subterms(q.coll)} | {x for a in support(b.guard) for x in subterms(a)}
            self.mods, self.frames, self.curcls = sm, sf, sc
            self.prefix = p0; self.binders = []
            self.st = State(dict(end), TRUE, ())
            for K, old in caps:
                if mk('cap', old) in used: self.ev('call', {'l': line}, fn='callback sees', obj=None, args=[mk('cap', old), self.rd_raw(end, K)])
        self.st = st0; self.prefix = p0; self.binders = b0
    # ------------------------------------------------------------ expressions
    def cond(self, e):
        if isinstance(e, ast.BoolOp):
            f = self.cond(e.values[0])
            for x in e.values[1:]:
                box = [FALSE if isinstance(e.op, ast.And) else TRUE]
                go = lambda: box.__setitem__(0, self.cond(x))
                if isinstance(e.op, ast.And): self.branch(f, go, lambda: None); f = AND(f, box[0])
                else: self.branch(NOT(f), go, lambda: None); f = OR(f, box[0])
            return f
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not): return NOT(self.cond(e.operand))
        return ptruth(self.val(e))
    def truthv(self, v, e=None): return ptruth(v)
    def is_lvalue(self, e):
        if isinstance(e, ast.Name): return self.fr.find(e.id) is not None or e.id in self.m.mutable and e.id in self.m.assigned
        if isinstance(e, ast.Attribute): return self.qual(e) is None
        return False
    def lv(self, e):
        if isinstance(e, ast.Name):
            L = self.fr.find(e.id)
            if L is not None: return L
            if e.id in self.m.mutable: return mk('glob', e.id)
            return self.local(e.id)
        if isinstance(e, ast.Attribute):
            b = self.lv(e.value) if self.is_lvalue(e.value) else self.tmp(self.val(e.value))
            v = self.rd(b)
            if b.op in ('var', 'tmp') and v.op in ('this', 'p', 'f', 'bv', 'idx', 'call', 'new', 'cap', 'shared', 'cbarg') and not (v.op == 'call' and str(v.args[0]).startswith('req:')) : b = v       # names refer to objects
            if b.op == 'case' or b.op in ('var', 'tmp') and v.op == 'case': return self.tmp(mk_field(v, e.attr))
            return mk('f', b, e.attr)
        if isinstance(e, ast.Subscript):
            b = self.lv(e.value) if self.is_lvalue(e.value) else self.tmp(self.val(e.value))
            return mk('idx', b, self.val(e.slice))
        return self.tmp(self.val(e))
    def qual(self, e):
        """Dotted name of a module-level thing, None for a run-time value."""
        if isinstance(e, ast.Name):
            if self.frames and self.fr.find(e.id) is not None: return None
            m = self.m
            if e.id in m.functions or e.id in m.classes or e.id in m.assigned or e.id in m.mutable: return None
            return m.imports.get(e.id, e.id)
        if isinstance(e, ast.Attribute):
            q = self.qual(e.value)
            return None if q is None else canon_name(q + '.' + e.attr)
        return None
    def val(self, e, stmt=False, want=None):
        if isinstance(e, dict): return super().val(e, stmt, want)
        if e is None: return NULL
        m = getattr(self, 'v_' + type(e).__name__, None)
        if m is None: self.note(self.d(e), 'expression ' + type(e).__name__); return mk('unk', type(e).__name__, self.fresh())
        self.curline = getattr(e, 'lineno', self.curline)
        v = m(e)
        return v if v is not None else NULL
    def v_Constant(self, e): return NULL if e.value is None else C(e.value) if isinstance(e.value, (str, int, float, bool)) else mk('const', repr(e.value))
    def v_Name(self, e):
        if e.id in ('True', 'False'): return TRUE_T if e.id == 'True' else FALSE_T
        L = self.fr.find(e.id)
        if L is not None:
            if L is THIS: return THIS
            v = self.rd(L)
            self.unbound(e, L, v)
            return toset(v) if self.kinds.get(L) == 'set' else v
        m = self.m
        if e.id in m.mutable and e.id in m.assigned:
            L = mk('glob', e.id); v = self.rd(L); return toset(v) if self.kinds.get(L) == 'set' else v
        if e.id in m.functions: return mk('func', '%s::%s' % (m.name, e.id))
        if e.id in m.classes: return mk('pyname', '%s::%s' % (m.name, e.id))
        if e.id in m.assigned:
            if len(m.assigned[e.id]) == 1:
                sv = self.frames; self.frames = [Frame(0, {'file': m.path, 'body': {'b': []}})]
                try: return self.val(m.assigned[e.id][0])
                finally: self.frames = sv
            self.note(self.d(e), 'module variable assigned twice')
        return self.named(m.imports.get(e.id, e.id))
    def unbound(self, e, L, v):
        # a local name that was never assigned on the way here
        if L.op != 'var' or v is not L and v.op != 'case' or self.fr.vars.get(e.id) is not L: return
        n = self.fr.fn.get('py') if self.fr.fn else None
        if n is None or any(a.arg == e.id for a in ast.walk(n.args) if isinstance(a, ast.arg)): return
        if not any(isinstance(x, ast.Name) and x.id == e.id and isinstance(x.ctx, ast.Store) for x in ast.walk(n)): return
        g = OR(*[AND(self.st.live, h.args[0]) for w, h in v.args if w is L]) if v.op == 'case' else self.st.live
        live = self.st.live; g = AND(live, g)
        if g == 0: return
        self.st.live = g; self.exit('thr', mk('exc', 'UnboundLocalError'), self.d(e)); self.st.live = AND(live, NOT(g))
    def named(self, q):
        q = canon_name(q)
        if q in self.srv.consts: return C(self.srv.consts[q])
        return mk('pyname', q)
    def v_Attribute(self, e):
        q = self.qual(e)
        if q is not None: return self.named(q)
        if isinstance(e.value, ast.Name) and e.value.id == self.selfname():
            f = self.F.get('%s::%s::%s' % (self.m.name, self.cls_of_self(), e.attr))
            if f is not None and f['py'] is not None and not f['py'].decorator_list: return mk('method', e.attr)
        if self.is_lvalue(e.value):
            b = self.rd(self.lv(e.value))
            if b.op == 'call' and str(b.args[0]).startswith('req:') and b.args[0][4:] in self.srv.req:
                fs = [n for n, d in self.srv.req[b.args[0][4:]]]
                if e.attr in fs: return b.args[2 + fs.index(e.attr)]
        L = self.lv(e); v = self.rd(L)
        return toset(v) if self.kinds.get(L) == 'set' else v
    def v_Lambda(self, e): return self.closure(e)
    def v_List(self, e):
        if any(isinstance(x, ast.Starred) for x in e.elts):
            r = SEQ0
            for x in e.elts: r = cat(r, self.val(x.value)) if isinstance(x, ast.Starred) else append_seg(r, [], TRUE, self.val(x))
            return r
        r = SEQ0
        vs = [self.val(x) for x in e.elts]
        return mk('app', SEQ0, tuple(((), fm(TRUE), v) for v in vs)) if vs else SEQ0
    def v_Tuple(self, e): return mk('tuple', *[self.val(x) for x in e.elts]) if e.elts else SEQ0
    def v_Set(self, e): return toset(self.v_List(e))
    def v_Dict(self, e):
        if not e.keys: return SEQ0
        if any(k is None for k in e.keys): self.note(self.d(e), 'dictionary unpacking'); return mk('unk', 'dict', self.fresh())
        kv = []
        for k, v in zip(e.keys, e.values): kv += [self.val(k), self.val(v)]
        ps = sorted([(kv[i], kv[i + 1]) for i in range(0, len(kv), 2)], key=lambda p: (str(p[0].args[0]) if p[0].op == 'c' else '', p[0].id))
        return mk('dict', *[x for p in ps for x in p])
    def v_JoinedStr(self, e):
        r = EMPTY_STR
        for x in e.values: r = concat(r, self.tostr(self.val(x.value)) if isinstance(x, ast.FormattedValue) else C(x.value))
        return r
    def tostr(self, v): return v if v.op != 'c' or isinstance(v.args[0], str) else C(str(v.args[0]))
    def v_IfExp(self, e):
        c = self.cond(e.test)
        r = self.branch(c, lambda: self.val(e.body), lambda: self.val(e.orelse), vals=True)
        return r
    def v_NamedExpr(self, e):
        v = self.val(e.value); self.assign(e.target, v, e.value, e); return v
    def v_BoolOp(self, e):
        a = self.val(e.values[0])
        for x in e.values[1:]:
            c = ptruth(a); isb = lambda w: is_boolt(w)
            if isinstance(e.op, ast.And): r = self.branch(c, lambda: self.val(x), lambda: None, vals=False); a = self._bool(c, a, x, True)
            else: a = self._bool(c, a, x, False)
        return a
    def _bool(self, c, a, x, is_and):
        box = []
        def go(): box.append(self.val(x))
        if is_and: self.branch(c, go, lambda: None)
        else: self.branch(NOT(c), go, lambda: None)
        if not box: return a
        b = box[0]
        if is_boolt(a) and is_boolt(b): return bterm(AND(c, ptruth(b)) if is_and else OR(c, ptruth(b)))
        return mk_ite(c, b, simp2(a, NOT(c))) if is_and else mk_ite(c, simp2(a, c), b)
    def v_UnaryOp(self, e):
        if isinstance(e.op, ast.Not): return bterm(NOT(self.cond(e.operand)))
        v = self.val(e.operand)
        if isinstance(e.op, ast.USub): return neg(v)
        return v if isinstance(e.op, ast.UAdd) else mk('~', v)
    def v_Compare(self, e):
        l = self.val(e.left); f = TRUE
        for op, r in zip(e.ops, e.comparators):
            r = self.val(r); f = AND(f, self.cmp(op, l, r)); l = r
        return bterm(f)
    def cmp(self, op, a, b):
        if isinstance(op, ast.Eq): return peq(a, b)
        if isinstance(op, ast.NotEq): return NOT(peq(a, b))
        if isinstance(op, ast.Is): return peq(a, b)
        if isinstance(op, ast.IsNot): return NOT(peq(a, b))
        if isinstance(op, ast.In): return phas(b, a)
        if isinstance(op, ast.NotIn): return NOT(phas(b, a))
        if isinstance(op, ast.Lt): return lt(a, b)
        if isinstance(op, ast.Gt): return lt(b, a)
        if isinstance(op, ast.LtE): return NOT(lt(b, a))
        return NOT(lt(a, b))
    def v_BinOp(self, e):
        if isinstance(e.op, ast.Mod) and (isinstance(e.left, ast.Constant) and isinstance(e.left.value, str) or isinstance(e.left, ast.JoinedStr)): return self.percent(self.val(e.left), e.right)
        a, b = self.val(e.left), self.val(e.right)
        if isinstance(e.op, ast.Add): return self.plus(a, b, e)
        if isinstance(e.op, (ast.Sub, ast.BitAnd, ast.BitOr)) and (self.kindof(e.left) == 'set' or self.kindof(e.right) == 'set' or a.op == 'toset' or b.op == 'toset'): return self.setop(e.op, a, b)
        return self.arith(e.op, a, b, e)
    def plus(self, a, b, e=None):
        if a.op == 'case': return mk_case([(g.args[0], self.plus(w, b, e)) for w, g in a.args])
        if b.op == 'case': return mk_case([(g.args[0], self.plus(a, w, e)) for w, g in b.args])
        seq = ('seq0', 'app', 'arr')
        if a.op in seq or b.op in seq or e is not None and 'list' in (self.kindof(e.left), self.kindof(e.right)): return cat(a, b)
        if is_num(a) or is_num(b) or a.op in ('size', 'poly') or b.op in ('size', 'poly'): return add(a, b)
        pc = AND(self.prefix, self.st.live)
        if a.op not in ('c', 'concat') and pc != 1 and implies(pc, NOT(ptruth(a))) and not implies(pc, none(a)): return b
        return concat(a, b)
    def arith(self, op, a, b, e):
        t = type(op)
        if t is ast.Add: return self.plus(a, b)
        if t is ast.Sub: return sub(a, b)
        if t is ast.Mult: return mul(a, b)
        if t is ast.Div: return div(a, b)
        return mk('op', t.__name__, a, b)
    def setop(self, op, a, b):
        a, b = toset(a), toset(b)
        if a.op == 'case' : return mk_case([(g.args[0], self.setop(op, w, b)) for w, g in a.args])
        if b.op == 'case' : return mk_case([(g.args[0], self.setop(op, a, w)) for w, g in b.args])
        if isinstance(op, ast.BitOr): return toset(cat(unset(a), b))
        if isinstance(op, ast.Sub): return toset(seq_filter(unset(a), lambda x: NOT(phas(b, x))))
        if b.id < a.id: a, b = b, a
        return toset(seq_filter(unset(a), lambda x: phas(b, x)))
    def percent(self, f, r):
        args = [self.val(x) for x in r.elts] if isinstance(r, ast.Tuple) else [self.val(r)]
        if f.op != 'c': return mk('call', 'str.%', f, *args)
        out = EMPTY_STR; i = 0
        for p in re.split(r'(%(?:[-+ 0#]*\d*(?:\.\d+)?[a-zA-Z]|%))', f.args[0]):
            if p == '%%': out = concat(out, C('%'))
            elif p.startswith('%') and len(p) > 1:
                if i >= len(args): return mk('call', 'str.%', f, *args)
                x = args[i]; i += 1
                out = concat(out, self.tostr(x) if p in ('%s', '%d') else mk('call', 'fmt', None, C(p), x))
            else: out = concat(out, C(p))
        return out
    def fmt(self, f, args, kw):
        if f.op != 'c': return mk('call', 'str.format', f, *args)
        out = EMPTY_STR; i = 0
        for p in re.split(r'(\{\{|\}\}|\{[^{}]*\})', f.args[0]):
            if p == '{{' or p == '}}': out = concat(out, C(p[0])); continue
            if p.startswith('{') and p.endswith('}'):
                n = p[1:-1]
                if n == '' and i < len(args): x = args[i]; i += 1
                elif n.isdigit() and int(n) < len(args): x = args[int(n)]
                elif n in kw: x = kw[n]
                else: return mk('call', 'str.format', f, *args)
                out = concat(out, self.tostr(x))
            else: out = concat(out, C(p))
        return out
    def v_Subscript(self, e):
        if isinstance(e.slice, ast.Slice):
            v = self.val(e.value); s = e.slice
            if s.lower is None and s.upper is None and s.step is None: return mk('copy', v) if v.op not in ('c', 'app', 'seq0', 'arr', 'tuple', 'concat') and False else self.copyof(v)
            if s.lower is None and s.upper is None and isinstance(s.step, ast.UnaryOp): return mk('rev', v)
            return mk('call', 'slice', None, v, self.val(s.lower), self.val(s.upper), self.val(s.step))
        if self.is_lvalue(e.value): b = self.lv(e.value); v = self.rd(b)
        else: b = None; v = self.val(e.value)
        i = self.val(e.slice)
        if v.op == 'dict' or i.op == 'c' and isinstance(i.args[0], str) or v.op in ('mset', 'gmap') or b is not None and self.kinds.get(b) == 'dict': return dget(v, i)
        if i.op == 'c' and is_num(i):
            if v.op in ('tuple', 'arr') and -len(v.args) <= int(num(i)) < len(v.args): return v.args[int(num(i))]
            if v.op == 'app' and v.args[0].op == 'seq0' and all(not bs and g.args[0] == 1 for bs, g, x in v.args[1]) and -len(v.args[1]) <= int(num(i)) < len(v.args[1]): return v.args[1][int(num(i))][2]
            if num(i) < 0: return self.at(v, i)
            if b is not None: return self.rd(mk('idx', b, i))
        if i.op not in ('c', 'poly', 'size', 'ix') and b is None or i.op in ('f', 'bv', 'p') and self.kinds.get(b) is None: return dget(v, i)
        return self.at(v, i)
    def at(self, v, i):
        if v.op == 'case': return mk_case([(g.args[0], self.at(w, i)) for w, g in v.args])
        if v.op == 'c' and isinstance(v.args[0], str) and is_num(i) and -len(v.args[0]) <= int(num(i)) < len(v.args[0]): return C(v.args[0][int(num(i))])
        if v.op == 'concat' and is_num(i) and num(i) == -1 and v.args[-1].op == 'c': return C(v.args[-1].args[0][-1])
        if is_num(i) and num(i) < 0: return mk('idx', v, i)
        return mk_idx(v, i)
    def copyof(self, v):
        if v.op == 'case': return mk_case([(g.args[0], self.copyof(w)) for w, g in v.args])
        if v.op in ('seq0', 'app', 'arr', 'c', 'concat', 'toset', 'sorted', 'gmap', 'mset'): return v
        return mk('app', SEQ0, _whole(v))
    # comprehensions
    def comp(self, e, put, init):
        self.ncomp += 1
        R = mk('var', self.fr.n, 'comp%s' % self.fresh(), 'comp'); self.st.env[R] = init
        saved = dict(self.fr.vars)
        for g in e.generators:
            for n in ast.walk(g.target):
                if isinstance(n, ast.Name): self.fr.vars[n.id] = mk('var', self.fr.n, '%s@%s' % (n.id, self.ncomp), n.id)
        def gen(i):
            if i == len(e.generators): put(R); return
            g = e.generators[i]
            def body():
                def conds(j):
                    if j == len(g.ifs): gen(i + 1); return
                    self.branch(self.cond(g.ifs[j]), lambda: conds(j + 1), lambda: None)
                conds(0)
            if i == 0:
                sv = self.fr.vars; self.fr.vars = dict(saved); it = self.iterable(g.iter); self.fr.vars = sv
            else: it = self.iterable(g.iter)
            coll, f = it
            self.foreach(coll, lambda el: self.assign(g.target, f(el), None, e), body, self.d(e))
        gen(0)
        self.fr.vars = saved
        return self.rd(R)
    def v_ListComp(self, e):
        return self.comp(e, lambda R: self.push(R, self.val(e.elt)), SEQ0)
    v_GeneratorExp = v_ListComp
    def v_SetComp(self, e): return toset(self.v_ListComp(e))
    def v_DictComp(self, e):
        def put(R):
            k = self.val(e.key); self.wr(R, mset(self.rd(R), k, self.val(e.value)))
        return self.comp(e, put, SEQ0)
    def push(self, R, x):
        v = self.rd(R); self.wr(R, append_seg(v, [], TRUE, x), op='append')
    def quant(self, e, any_):
        """any()/all() over a generator: leaves at the first hit."""
        R0 = FALSE_T if any_ else TRUE_T
        if not isinstance(e, (ast.GeneratorExp, ast.ListComp)):
            v = self.val(e)
            f = seq_exists(v, lambda x: ptruth(x) if any_ else NOT(ptruth(x)))
            return bterm(f if any_ else NOT(f))
        def put(R):
            f = self.cond(e.elt)
            def hit(): self.wr(R, TRUE_T if any_ else FALSE_T); self.exit('brk', None, self.d(e))
            self.branch(f if any_ else NOT(f), hit, lambda: None)
        return self.comp(e, put, R0)
    # ------------------------------------------------------------ calls
    def args_of(self, e, fn):
        av = []
        for a in e.args:
            if isinstance(a, ast.Starred): self.note(self.d(e), 'starred argument'); continue
            av.append(a)
        kw = {}
        for k in e.keywords:
            if k.arg is None: self.note(self.d(e), 'keyword unpacking'); continue
            kw[k.arg] = k.value
        return av, kw
    def v_Call(self, e):
        f = e.func; q = self.qual(f)
        if q is not None: return self.libcall(canon_name(q), e)
        if isinstance(f, ast.Name):
            m = self.m
            L = self.fr.find(f.id)
            if L is None and f.id in m.functions: return self.known('%s::%s' % (m.name, f.id), None, e)
            if L is None and f.id in m.classes: return self.opq('%s::%s' % (m.name, f.id), None, e)
            c = self.val(f)
            return self.indirect(c, e)
        if isinstance(f, ast.Attribute): return self.method(f, e)
        return self.indirect(self.val(f), e)
    def indirect(self, c, e):
        if c.op == 'case':
            lst = list(c.args)
            def go(i):
                w, g = lst[i]
                return self.indirect(w, e) if i == len(lst) - 1 else self.branch(g.args[0], lambda: self.indirect(w, e), lambda: go(i + 1), vals=True)
            return go(0)
        if c.op == 'func': return self.known(c.args[0], None, e)
        if c.op == 'method': return self.known('%s::%s::%s' % (self.m.name, self.cls_of_self(), c.args[0]), THIS, e)
        if c.op == 'lambda':
            av, kw = self.args_of(e, None)
            if kw: self.note(self.d(e), 'keyword argument of a local function')
            v = self.call_lambda(c, [self.lv(a) if isinstance(a, ast.Name) and self.is_lvalue(a) and False else self.val(a) for a in av])
            return v
        if c.op == 'pyname': return self.libcall(c.args[0], e)
        t = self.srvtype(c)
        if t is not None or c.op == 'call' and c.args[0] == 'rospy.ServiceProxy': return self.service(c, t, e)
        return self.opq('.()', c, e)
    def call_lambda(self, t, args):
        if t.op == 'func':
            f = self.F[t.args[0]]
            return self.inline(f, None, self.fill(f, [('val', a) for a in args], {}))
        if t not in self.lambdas: self.note(None, 'call of an unknown callable'); return mk('call', 'callable', t, *args)
        node, fr, mod, cls = self.lambdas[t]
        a = node.args; ps = a.posonlyargs + a.args
        rb = rebound(node)
        body = node.body if isinstance(node.body, list) else [ast.copy_location(ast.Return(node.body), node)]
        fn = {'key': 'closure:%s' % node.lineno, 'name': getattr(node, 'name', 'lambda'), 'params': [{'id': p.arg, 'n': p.arg, 't': 'py', 'ref': False} for p in ps], 'body': {'k': 'pybody', 'b': body}, 'file': mod.path, 'py': node, 'mod': mod, 'ret': ''}
        locs = [('val', x) for x in args]
        defs = [None] * (len(ps) - len(a.defaults)) + list(a.defaults)
        for d in defs[len(locs):]: locs.append(('val', self.val(d) if d is not None else mk('undef', 'arg')))
        if a.vararg:
            fn['params'].append({'id': a.vararg.arg, 'n': a.vararg.arg, 't': 'py', 'ref': False})
            locs = locs[:len(ps)] + [('val', mk('cbarg', 'rest'))]
        v, ctx = self.body(fn, fr.this, locs, parent=fr)
        self.lift(ctx)
        return v if v is not None else NULL
    def fill(self, f, locs, kw):
        node = f['py']; ps = f['params']; out = [None] * len(ps)
        for i, x in enumerate(locs):
            if i < len(out): out[i] = x
        for k, x in kw.items():
            for i, p in enumerate(ps):
                if p['id'] == k: out[i] = x
        if node is not None:
            a = node.args; pos = a.posonlyargs + a.args; defs = dict(zip([p.arg for p in pos[len(pos) - len(a.defaults):]], a.defaults)); defs.update({p.arg: d for p, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None})
            for i, p in enumerate(ps):
                if out[i] is None:
                    d = defs.get(p['id'])
                    out[i] = ('val', self.val(d) if d is not None else mk('undef', 'arg'))
        return out
    def known(self, key, this, e):
        """A function of the repository's own modules."""
        f = self.F.get(key)
        av, kw = self.args_of(e, key)
        if f is None or key in self.opaque or f['key'] in self.stack or len(self.stack) >= self.MAXDEPTH or f['py'] is not None and (f['py'].decorator_list and not all(isinstance(d, ast.Name) and d.id == 'staticmethod' for d in f['py'].decorator_list) or f['py'].args.vararg or f['py'].args.kwarg) \
           or f['py'] is not None and any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in _walk_fn(f['py'].body)):
            if f is not None and key not in self.opaque: self.note(self.d(e), 'call of %s' % key)
            if f is not None:
                a = self.fill(f, [('val', self.val(x)) for x in av], {k: ('val', self.val(x)) for k, x in kw.items()})
                return self.event(key, this, [x[1] for x in a], e)
            return self.opq(key, this, e)
        def arg(x, p):
            if p is not None and p['ref'] and isinstance(x, ast.Name) and self.is_lvalue(x): return ('loc', self.lv(x)) if self.kinds.get(self.lv(x)) != 'set' else ('val', self.val(x))
            return ('val', self.val(x))
        ps = f['params']; byn = {p['id']: p for p in ps}
        locs = [arg(x, ps[i] if i < len(ps) else None) for i, x in enumerate(av)]
        kws = {k: arg(x, byn.get(k)) for k, x in kw.items()}
        self.mods.append(f['mod'])
        try: a = self.fill(f, locs, kws)
        finally: self.mods.pop()
        self.curcls.append(f['cls'])
        try: v = self.inline(f, this, a)
        finally: self.curcls.pop()
        return v if v is not None else NULL
    def cls_of_self(self): 
        fr = self.fr
        while fr is not None:
            if fr.fn and fr.fn.get('cls'): return fr.fn['cls']
            fr = fr.parent
        return None
    def selfname(self):
        fr = self.fr
        while fr is not None:
            n = fr.fn.get('py') if fr.fn else None
            if n is not None and fr.fn.get('cls') and n.args.args: return n.args.args[0].arg
            fr = fr.parent
        return None
    def find_self(self, name): return name == self.selfname()
    def method(self, f, e):
        n = f.attr
        # methods of the class itself
        if isinstance(f.value, ast.Name) and f.value.id == self.selfname():
            key = '%s::%s::%s' % (self.m.name, self.cls_of_self(), n)
            if key in self.F: return self.known(key, THIS, e)
        lvb = self.is_lvalue(f.value)
        L = self.lv(f.value) if lvb else None
        v = self.val(f.value)
        av, kw = self.args_of(e, n)
        if v.op == 'pyname': return self.libcall(v.args[0] + '.' + n, e)
        if n == 'call' or n == 'wait_for_service':
            t = self.srvtype(v, f.value)
            if v.op == 'call' and v.args[0] == 'rospy.ServiceProxy' or t is not None:
                if n == 'call': return self.service(v, t, e)
                return self.event('rospy.wait_for_service', None, [v.args[2] if v.op == 'call' else v] + self.kwargs(e, drop=0, skipfirst=False), e)
        if n in MUTATORS:
            L2 = L if L is not None else self.tmp(v)
            k = self.kinds.get(L2) or self.kindof(f.value)
            r = self.mutator(n, L2, v, av, kw, k, e)
            if r is not NotImplemented: return r
        if n in ('get',) and 1 <= len(av) <= 2 and not self.isq(v):
            kk = self.val(av[0]); dd = self.val(av[1]) if len(av) > 1 else NULL
            return mk_ite(phas(v, kk), dget(v, kk), dd)
        if n == 'index' and len(av) == 1 and not kw and self.ntry:
            # the one thing that can go wrong: the value is not in it
            x = self.val(av[0]); live = self.st.live; g = AND(live, NOT(phas(v, x)))
            if g != 0: self.st.live = g; self.exit('thr', mk('exc', 'ValueError'), self.d(e)); self.st.live = AND(live, NOT(g))
            return mk('call', '.index', v, x)
        if n in ('items', 'iteritems') and not av: return mk('items', v) if v.op != 'seq0' else SEQ0
        if n in ('keys', 'iterkeys') and not av: return mk('keys', v)
        if n in ('values', 'itervalues') and not av: return mk('vals', v)
        if n == 'copy' and not av: return self.copyof(v)
        if n == 'format': return self.fmt(v, [self.val(x) for x in av], {k: self.val(x) for k, x in kw.items()})
        if n in ('union', 'intersection', 'difference') and len(av) == 1: return self.setop({'union': ast.BitOr(), 'intersection': ast.BitAnd(), 'difference': ast.Sub()}[n], v, self.val(av[0]))
        if n == 'issubset' and len(av) == 1:
            w = self.val(av[0]); return bterm(NOT(seq_exists(unset(v), lambda x: NOT(phas(w, x)))))
        if n == 'isdisjoint' and len(av) == 1:
            w = self.val(av[0]); return bterm(NOT(seq_exists(unset(v), lambda x: phas(w, x))))
        if n == 'endswith' and len(av) == 1:
            a = self.val(av[0])
            if a.op == 'c' and isinstance(a.args[0], str) and len(a.args[0]) == 1: return bterm(AND(ptruth(v), peq(self.at(v, C(-1)), a)))
        if n == 'join' and len(av) == 1:
            x = self.val(av[0]); return mk('call', 'str.join', v, unset(x) if x.op == 'toset' else x)
        if n in STRM: return self.strcall(n, v, [self.val(x) for x in av] + [mk('kw', k, self.val(x)) for k, x in sorted(kw.items())])
        return self.opq('.' + n, v, e)
    def isq(self, v): return False
    def strcall(self, n, v, args):
        if v.op == 'case': return mk_case([(g.args[0], self.strcall(n, w, args)) for w, g in v.args])
        if v.op == 'c' and isinstance(v.args[0], str) and all(a.op == 'c' for a in args) and n in ('lower', 'upper', 'strip', 'lstrip', 'rstrip', 'startswith', 'replace'):
            try: return C(getattr(v.args[0], n)(*[a.args[0] for a in args]))
            except Exception: pass
        return mk('call', 'str.' + n, v, *args)
    def mutator(self, n, L, v, av, kw, k, e):
        A = lambda i: self.val(av[i])
        if k is None and self.kinds.get(L) is None and not collv(v) and n in ('clear', 'update', 'add', 'remove', 'insert', 'pop', 'discard', 'reverse', 'setdefault', 'popitem', 'sort'): return NotImplemented
        if n == 'append' and len(av) == 1:
            x = A(0); self.mutate(L, lambda old: append_seg(arr2app(old), [], TRUE, x), e); return NULL
        if n == 'add' and len(av) == 1 and k == 'set':
            x = A(0); self.mutate(L, lambda old: append_seg(arr2app(unset(old)), [], TRUE, x), e); return NULL
        if n == 'extend' and len(av) == 1:
            x = self.val(av[0]); self.mutate(L, lambda old: cat(old, x), e); return NULL
        if n == 'update' and len(av) >= 1 and k == 'set':
            for a in av:
                x = self.val(a); self.mutate(L, lambda old: cat(unset(old), x), e)
            return NULL
        if n == 'clear' and not av: self.mutate(L, lambda old: SEQ0, e); return NULL
        if n == 'sort' and not av and not kw: self.mutate(L, lambda old: msorted(old), e); return NULL
        if n == 'discard' and len(av) == 1 and k == 'set':
            x = A(0); self.mutate(L, lambda old: seq_filter(unset(old), lambda y: NOT(peq(y, x))), e); return NULL
        if n in ('clear', 'update', 'add', 'remove', 'insert') and k is None and self.kinds.get(L) is None: return NotImplemented
        if n in ('remove', 'pop', 'reverse', 'insert', 'setdefault', 'popitem', 'sort', 'discard', 'update') and k is not None:
            self.note(self.d(e), 'collection method ' + n); args = [self.val(a) for a in av]; self.mutate(L, lambda old: mk('unk', n, self.fresh()), e); return mk('unk', n, self.fresh())
        return NotImplemented
    def kindof(self, n):
        """Static kind of a collection-valued expression."""
        k = kind_of(n)
        if k: return k
        if isinstance(n, ast.Name):
            L = self.fr.find(n.id)
            if L is None and n.id in self.m.mutable: L = mk('glob', n.id)
            return self.kinds.get(L) if L is not None else None
        if isinstance(n, ast.Attribute) and self.qual(n) is None and isinstance(n.value, (ast.Name, ast.Attribute)): return self.kinds.get(self.lv(n))
        if isinstance(n, ast.BinOp): return self.kindof(n.left) if isinstance(n.op, (ast.BitAnd, ast.BitOr, ast.Sub, ast.Add)) else None
        if isinstance(n, ast.IfExp): return self.kindof(n.body) or self.kindof(n.orelse)
        return None
    # services
    def srvtype(self, v, node=None):
        if v.op == 'call' and v.args[0] == 'rospy.ServiceProxy':
            t = v.args[3] if len(v.args) > 3 else None
            return t.args[0] if t is not None and t.op == 'pyname' else None
        L = v
        if L.op == 'f' and L.args[0].op == 'this': return self.attr_service(L.args[1])
        if v.op == 'case':
            ts = {self.srvtype(w) for w, g in v.args if w is not NULL}
            return ts.pop() if len(ts) == 1 else None
        return None
    def attr_service(self, attr):
        """The service type of an attribute that only ever holds proxies of one type."""
        ts = set()
        c = self.m.classes.get(self.cls_of_self())
        for n in ast.walk(c) if c is not None else ():
            if isinstance(n, ast.Assign) and any(isinstance(t, ast.Attribute) and t.attr == attr for t in n.targets):
                x = n.value
                if isinstance(x, ast.Constant) and x.value is None: continue
                if isinstance(x, ast.Call) and canon_name(self.qual(x.func) or '') == 'rospy.ServiceProxy' and len(x.args) > 1: ts.add(self.qual(x.args[1]))
                else: ts.add(None)
        if ts == {None}: ts = self.made_types(attr)
        return ts.pop() if len(ts) == 1 else None
    def made_types(self, attr):
        k = (self.m.path, self.cls_of_self())
        r = self.MADE.get(k)
        if r is None:
            r = self.MADE[k] = {}
            for key, f in self.F.items():
                if f['cls'] != k[1] or f['mod'] is not self.m: continue
                try: sm = PyEv(self.M).run(f)
                except Exception: continue
                for L, v in sm.env.items():
                    if L.op != 'f' or L.args[0].op != 'this': continue
                    for g, w in leaves(v):
                        if w is NULL or w is L: continue
                        ok = w.op == 'call' and w.args[0] == 'rospy.ServiceProxy' and len(w.args) > 3 and w.args[3].op == 'pyname'
                        r.setdefault(L.args[1], set()).add(w.args[3].args[0] if ok else None)
        return set(r.get(attr) or {None})
    MADE = {}
    def request(self, t, e):
        fs = self.srv.req.get(t)
        if fs is None: return None
        av, kw = self.args_of(e, t)
        vals = {}
        for (n, d), a in zip(fs, av): vals[n] = self.val(a)
        for k, a in kw.items(): vals[k] = self.val(a)
        if any(k not in dict(fs) for k in vals): self.note(self.d(e), 'unknown request field')
        return mk('call', 'req:' + t, None, *[seqn(vals.get(n, d)) for n, d in fs])
    def service(self, v, t, e):
        av, kw = self.args_of(e, t)
        if len(av) == 1 and not kw:
            x = self.val(av[0])
            if x.op == 'call' and str(x.args[0]).startswith('req:'): return self.event('srv:' + str(x.args[0])[4:], v, list(x.args[2:]), e)
        if t in self.srv.req:
            r = self.request(t, e); return self.event('srv:' + t, v, list(r.args[2:]), e)
        return self.event('srv:%s' % t, v, [self.val(a) for a in av] + self.kwargs(e), e)
    def kwargs(self, e, drop=0, skipfirst=False): return [mk('kw', k.arg, self.val(k.value)) for k in sorted(e.keywords, key=lambda k: k.arg or '') if k.arg and k.arg not in DROPKW]
    def opq(self, fn, obj, e):
        av, kw = self.args_of(e, fn)
        args = []
        for a in av: args.append(self.argval(a, fn))
        for k in sorted(e.keywords, key=lambda k: k.arg or ''):
            if k.arg is None or k.arg in DROPKW: continue
            args.append(mk('kw', k.arg, self.argval(k.value, fn)))
        return self.event(fn, obj, args, e)
    def argval(self, a, fn):
        v = self.val(a)
        if v.op in ('lambda', 'func'): return self.callback(v, fn, a)
        return v
    def event(self, fn, obj, args, e):
        pc = AND(self.prefix, self.st.live)
        args = [uncopy(simp(a, pc)) if a.op in ('case', 'app') else a for a in args]
        pure = bool(PURECALL.match(fn))
        if fn == 'print':
            args = [mk('leaves', *sorted({x for a in args for x in pieces_of(a)}))]
        key = (fn, obj, tuple(args)); n = 0
        if not pure or fn in ('open',): n = self.callcount.get(key, 0); self.callcount[key] = n + 1
        r = mk('vcall' if fn == 'rospy.is_shutdown' else 'call', fn, obj, *args) if n == 0 else mk('call', fn, obj, *args, mk('n', n))
        if not pure:
            # objects built by equal constructor calls have equal terms: the k-th such call on them stays apart
            same = n and obj is not None and obj.op == 'call' and re.match(r'Q[A-Z]', str(obj.args[0]))
            self.ev('call', self.d(e), fn=fn, obj=obj, args=args + [mk('n', n)] if same else args, ret=r)
        if fn in ('sys.exit', 'exit', 'quit'):
            self.ev('call', self.d(e), fn='exit', obj=None, args=args, ret=r)
            self.exit('thr', mk('exc', 'SystemExit'), self.d(e)); return r
        if self.ntry and self.may_throw(fn, e):
            a = atom(mk('throws', r, 'any')); g = AND(self.st.live, a)
            if g != 0: self.ctxs_throw(g, 'any', self.d(e), r)
        return r
    def may_throw(self, fn, e):
        if re.match(r'\.set[A-Z]', fn): return False      # Qt setters; what a connected slot raises does not reach the caller
        if fn.startswith(('.', 'srv:')) and not PURECALL.match(fn) or fn in ('.index',): return True
        return fn in ('rosservice.get_service_list', 'rosservice.get_service_type', 'rospy.wait_for_service', 'rospy.get_param', 'rospy.wait_for_message', 'open', 'yaml.load', 'rospy.init_node') or not PURECALL.match(fn) and '::' not in fn and fn not in ('print',)
    def libcall(self, q, e):
        av, kw = self.args_of(e, q)
        A = lambda i: self.val(av[i])
        n = len(av)
        if q in LOGS:
            for a in av: self.val(a)
            return NULL
        if q in ('set', 'frozenset'):
            return toset(listof(self, av[0])) if n else SEQ0
        if q in ('list', 'tuple') and not kw:
            if not n: return SEQ0
            v = listof(self, av[0]); return v if v.op in ('keys', 'vals', 'items') else self.copyof(v)
        if q == 'dict' and not n and not kw: return SEQ0
        if q == 'len' and n == 1:
            v = A(0); return mk('ssize', unset(v)) if v.op == 'toset' else mk_size(v.args[0] if v.op in ('keys', 'vals', 'items', 'sorted') else v) if v.op not in ('tuple', 'dict') else C(len(v.args) // (2 if v.op == 'dict' else 1))
        if q == 'sorted' and n == 1 and not kw:
            return msorted(unset(listof(self, av[0]))) if False else msorted(listof(self, av[0]))
        if q == 'reversed' and n == 1: return mk('rev', A(0))
        if q in ('any', 'all') and n == 1: return self.quant(av[0], q == 'any')
        if q == 'bool' and n == 1: return bterm(ptruth(A(0)))
        if q in ('str', 'unicode', 'format') and n == 1: return self.tostr(A(0))
        if q == 'getattr' and n == 2:
            b, nm = A(0), A(1)
            if nm.op == 'c' and isinstance(nm.args[0], str): return mk_field(b, nm.args[0])
            return mk('call', 'getattr', None, b, nm)
        if q in ('min', 'max') and n == 2 and not kw: return (mk_min if q == 'min' else mk_max)(A(0), A(1))
        if q == 'filter' and n == 2 or q == 'map' and n == 2:
            fv = self.val(av[0])
            R = mk('var', self.fr.n, 'comp%s' % self.fresh(), 'comp'); self.st.env[R] = SEQ0
            coll, f = self.iterable(av[1]); box = [None]
            def one(x): return self.call_lambda(fv, [x]) if fv.op in ('lambda', 'func') else x if fv is NULL else mk('call', 'callable', fv, x)
            def body():
                if q == 'map': self.push(R, one(box[0])); return
                self.branch(ptruth(one(box[0])), lambda: self.push(R, box[0]), lambda: None)
            self.foreach(coll, lambda el: box.__setitem__(0, f(el)), body, self.d(e))
            return self.rd(R)
        if q.endswith('Request') and q[:-7] in self.srv.req: return self.request(q[:-7], e)
        if q in self.srv.req: return self.ctor_msg(q, e)
        if q == 'rospy.ServiceProxy':
            a = [self.val(x) for x in av] + [self.val(kw[k]) for k in ('name', 'service_class') if k in kw and n < 2]
            return mk('call', q, None, *a[:2])
        if q == 'rospy.wait_for_service': return self.event(q, None, [self.val(x) for x in av[:1]] + ([mk('kw', 'timeout', self.val(kw['timeout'] if 'timeout' in kw else av[1]))] if 'timeout' in kw or n > 1 else [mk('kw', 'timeout', NULL)]), e)
        m = re.match(r'^(\w+)\.(\w+)\Z', q)
        if m and m.group(1) in self.M['mods']:
            key = '%s::%s' % m.groups(); mod = self.M['mods'][m.group(1)]
            if m.group(2) in mod.functions: return self.known(key, None, e)
            if m.group(2) in mod.classes: return self.opq(key, None, e)
        if q.split('.')[0] in self.M['mods'] and len(q.split('.')) == 2: self.note(self.d(e), 'unknown ' + q)
        if q in self.M['mods'] and q in self.M['mods'][q].functions: return self.known('%s::%s' % (q, q), None, e)
        return self.opq(q, None, e)
    def ctor_msg(self, q, e):
        av, kw = self.args_of(e, q); fs = self.srv.req[q]; vals = {}
        for (nm, d), a in zip(fs, av): vals[nm] = self.val(a)
        for k, a in kw.items(): vals[k] = self.val(a)
        return mk('call', q, None, *[seqn(vals.get(nm, d)) for nm, d in fs])

class ClearFlag(ast.stmt):
    _fields = ()
    def __init__(self, F, l): self.F = F; self.lineno = l; self.col_offset = 0
    def __deepcopy__(self, m): return self
STRM = {'split', 'rsplit', 'strip', 'lstrip', 'rstrip', 'startswith', 'endswith', 'lower', 'upper', 'replace', 'find', 'rfind', 'partition', 'rpartition', 'encode', 'decode', 'title', 'isdigit'}
DROPKW = {'help', 'description', 'metavar', 'title', 'epilog', 'prog', 'persistent'}
def fst(el): return mk_field(el, 'first') if el.op != 'pair' else el.args[0]
def snd(el): return mk_field(el, 'second') if el.op != 'pair' else el.args[1]
def seqn(v): return v
def arr2app(v):
    if v.op == 'arr': return mk('app', SEQ0, tuple(((), fm(TRUE), x) for x in v.args)) if v.args else SEQ0
    if v.op in ('toset',): return arr2app(v.args[0])
    return v
def listof(X, node):
    v = X.val(node)
    if v.op == 'tuple': return mk('app', SEQ0, tuple(((), fm(TRUE), x) for x in v.args)) if v.args else SEQ0
    if v.op == 'dict': return mk('app', SEQ0, tuple(((), fm(TRUE), k) for k, x in pairs_of(v)))
    if v.op in ('mset', 'gmap') or X.kindof(node) == 'dict': return mk('keys', v)
    return v
def msorted(v):
    if v.op == 'case': return mk_case([(g.args[0], msorted(w)) for w, g in v.args])
    return v if v.op in ('seq0', 'sorted') else mk('sorted', v)
def collv(v): return v.op in ('seq0', 'app', 'arr', 'mset', 'gmap', 'dict', 'toset') or v.op == 'case' and any(collv(w) for w, g in v.args)
def isval2(v): return v.op in ('c', 'b', 'seq0') or v is NULL
def simp2(a, c): return a
def pieces_of(v):
    if v.op == 'case': return [y for w, g in v.args for y in pieces_of(w)]
    if v.op == 'concat': return [y for x in v.args for y in pieces_of(x)]
    if v.op == 'c': return []
    return [uncopy(v)]
def excname(q):
    q = q.replace('rospy.exceptions.', 'rospy.').replace('rospy.service.', 'rospy.').replace('genpy.message.', 'genpy.')
    return q
def canon_name(q):
    q = q.replace('rospy.exceptions.', 'rospy.').replace('rospy.timer.', 'rospy.').replace('argparse.ArgumentParser', 'ArgumentParser').replace('.msg.', '.').replace('std_msgs.', '') if q else q
    if q.startswith('builtins.'): q = q[9:]
    if q.startswith('controller_manager_msgs.srv.'): q = q[28:]
    if q.startswith('controller_manager.controller_manager_interface'): q = q[19:]
    if q.startswith('controller_manager_msgs.utils'): q = q[24:]
    return q
def kind_of(n):
    if isinstance(n, (ast.List, ast.ListComp)): return 'list'
    if isinstance(n, (ast.Dict, ast.DictComp)): return 'dict'
    if isinstance(n, (ast.Set, ast.SetComp)): return 'set'
    if isinstance(n, ast.Call) and isinstance(n.func, ast.Name): return {'list': 'list', 'sorted': 'list', 'set': 'set', 'frozenset': 'set', 'dict': 'dict'}.get(n.func.id)
    if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ('split', 'rsplit'): return 'list'
    if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice): return 'list'
    return None

class PyTrees:
    """The Python tools of the repository and of the reference."""
    Ev = PyEv
    ORDERED = re.compile(r'srv:|controller_manager_interface::|rospy\.(on_shutdown|Timer|wait_for_service|spin|init_node)\Z|rosparam\.set_param\Z|\.(shutdown|wait_for_service|blockSignals|clear|insertItems|setCurrentIndex)\Z|(start|stop|load|unload|reload|list)_\w+\Z')
    def __init__(self, repo, spec):
        self.R = load(repo); self.S = load(spec); self.rootR = repo.rstrip('/') + '/'; self.repo = repo; self.spec = spec
        self.kf = {'first', 'second'}; fns = set()
        for m in self.S['mods'].values():
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Attribute): self.kf.add(n.attr)
                if isinstance(n, ast.keyword) and n.arg: self.kf.add(n.arg)
        self.kf |= {n for fs in self.S['srv'].req.values() for n, _ in fs} | self.S['srv'].boolf
        import sys
        for f in self.S['functions'].values():
            try: s = PyEv(self.S).run(f)
            except Exception: continue
            ts = [s.ret] if s.ret is not None else []
            for e in s.events:
                if e.fn: fns.add(e.fn)
                ts += list(e.args or ()) + [b.coll for b in e.binders] + list(support(e.guard)) + ([e.obj] if e.obj is not None else []) + ([e.val] if isinstance(e.val, T) else [])
            for t in ts:
                for x in subterms(t):
                    if x.op in ('call', 'vcall') and isinstance(x.args[0], str): fns.add(x.args[0])
        self.known_fns = fns | set(self.S['functions']) | {'str.' + x for x in STRM} | {'rospy.is_shutdown', 'len', 'slice', 'str.join', 'fmt'} | {'req:' + x for x in self.S['srv'].req}
    def roots(self, o):
        rx = re.compile(o.pat + r'\Z')
        return sorted(k for k in self.S['functions'] if rx.match(k) and not (o.skip and re.search(o.skip, k)))
    def counterpart(self, k):
        g = self.R['functions'].get(k)
        if g is not None and len(g['params']) < len(self.S['functions'][k]['params']): return None
        return g
    def congruent(self, k, proven): return False
