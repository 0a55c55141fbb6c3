"""A stand-in ROS graph with one controller manager, for demonstrations that run the Python tools of the repository."""
import glob, importlib.machinery, importlib.util, os, re, sys, types
sys.dont_write_bytecode = True
R = sys.argv[1]

class ROSException(Exception): pass
class ServiceException(Exception): pass
class ROSInterruptException(ROSException): pass
class ROSServiceIOException(Exception): pass

class Graph: pass
G = Graph()
def reset():
    G.requests = []; G.out = []; G.services = None; G.params = {}; G.shutdown_hooks = []; G.subs = []; G.timers = []; G.down = lambda: False; G.spin = lambda: None
    G.ctrl = {}; G.refuse = set(); G.fail = set(); G.waited = []; G.srvtypes = {}; G.master_down = False; G.sleeps = 0; G.on_sleep = lambda: None; G.switch_ok = True; G.reload_ok = True; G.types = []
    G.proxies = []; G.param_files = []

class Msg:
    FIELDS = ()
    def __init__(self, *a, **k):
        for i, (n, d) in enumerate(self.FIELDS): setattr(self, n, a[i] if i < len(a) else k.pop(n) if n in k else (list(d) if isinstance(d, list) else d))
        if len(a) > len(self.FIELDS) or k: raise TypeError('%s: bad arguments %r %r' % (type(self).__name__, a, k))
    def __repr__(self): return '%s(%s)' % (type(self).__name__, ', '.join('%s=%r' % (n, getattr(self, n)) for n, _ in self.FIELDS))
    def __eq__(self, o): return type(self) is type(o) and all(getattr(self, n) == getattr(o, n) for n, _ in self.FIELDS)
    def __ne__(self, o): return not self == o
    __hash__ = None
def mkmsg(name, lines):
    fs = []; consts = {}
    for l in lines:
        l = l.split('#')[0].strip()
        m = re.match(r'^([\w/]+(?:\[\d*\])?)\s+(\w+)\s*(?:=\s*(.*))?$', l)
        if not m: continue
        t, n, v = m.groups()
        if v is not None: consts[n] = int(v)
        else: fs.append((n, [] if t.endswith(']') else False if t == 'bool' else '' if t == 'string' else 0.0 if t.startswith('float') else 0))
    return type(name, (Msg,), dict(consts, FIELDS=tuple(fs)))
def module(name, **k):
    m = types.ModuleType(name); m.__dict__.update(k); sys.modules[name] = m
    if '.' in name: setattr(sys.modules[name.rpartition('.')[0]], name.rpartition('.')[2], m)
    return m
class Service: pass
srv = {}; msg = {}
for p in glob.glob(R + '/controller_manager_msgs/srv/*.srv'):
    n = os.path.basename(p)[:-4]; a, b = re.split(r'(?m)^---\s*$', open(p).read(), maxsplit=1)
    rq = mkmsg(n + 'Request', a.splitlines()); rs = mkmsg(n + 'Response', b.splitlines())
    srv[n] = type(n, (Service,), {'_request_class': rq, '_response_class': rs, '_type': 'controller_manager_msgs/' + n}); srv[n + 'Request'] = rq; srv[n + 'Response'] = rs
for p in glob.glob(R + '/controller_manager_msgs/msg/*.msg'):
    n = os.path.basename(p)[:-4]; msg[n] = mkmsg(n, open(p).read().splitlines())
class Bool(Msg): FIELDS = (('data', False),)

def controller(name, state='running', type='t', claims=(('iface', ('r',)),)):
    return msg['ControllerState'](name=name, state=state, type=type, claimed_resources=[msg['HardwareInterfaceResources'](hardware_interface=i, resources=list(r)) for i, r in claims])
def add(name, state='running', **k): G.ctrl[name] = controller(name, state, **k)

class ServiceProxy:
    def __init__(self, name, cls, persistent=False, headers=None): self.name = name; self.cls = cls; G.proxies.append((name, cls.__name__, persistent))
    def wait_for_service(self, timeout=None): G.waited.append((self.name, timeout))
    def __call__(self, *a, **k): return self.call(*a, **k)
    def call(self, *a, **k):
        rq = self.cls._request_class
        r = a[0] if len(a) == 1 and isinstance(a[0], rq) and not k else rq(*a, **k)
        short = self.name.split('/')[-1]
        rec = tuple([short] + [tuple(getattr(r, n)) if isinstance(getattr(r, n), (list, tuple, set)) else getattr(r, n) for n, _ in r.FIELDS])
        G.requests.append((self.name, rec))
        if short in G.fail or rec[:2] in G.fail: raise ServiceException(self.name)
        return getattr(self, 'do_' + self.cls.__name__)(r)
    def do_LoadController(self, r):
        ok = r.name not in G.refuse and r.name not in G.ctrl
        if ok: add(r.name, 'initialized')
        return self.cls._response_class(ok=ok)
    def do_UnloadController(self, r):
        ok = r.name in G.ctrl and G.ctrl[r.name].state != 'running'
        if ok: del G.ctrl[r.name]
        return self.cls._response_class(ok=ok)
    def do_SwitchController(self, r):
        if G.switch_ok:
            for n in r.stop_controllers:
                if n in G.ctrl: G.ctrl[n].state = 'stopped'
            for n in r.start_controllers:
                if n in G.ctrl: G.ctrl[n].state = 'running'
        return self.cls._response_class(ok=G.switch_ok)
    def do_ListControllers(self, r): return self.cls._response_class(controller=[controller(c.name, c.state, c.type, [(h.hardware_interface, h.resources) for h in c.claimed_resources]) for c in G.ctrl.values()])
    def do_ListControllerTypes(self, r): return self.cls._response_class(types=list(G.types), base_classes=['b'] * len(G.types))
    def do_ReloadControllerLibraries(self, r):
        if G.reload_ok: G.ctrl.clear()
        return self.cls._response_class(ok=G.reload_ok)

def wait_for_service(name, timeout=None):
    G.waited.append((name, timeout))
    if G.services is not None and name not in G.services: raise ROSException('no ' + name)
def get_param(name, *d):
    if name in G.params: return G.params[name]
    if d: return d[0]
    raise KeyError(name)
class Timer:
    def __init__(self, period, cb, oneshot=False): self.cb = cb; self.on = True; self.period = period; G.timers.append(self)
    def shutdown(self): self.on = False; G.requests.append(('timer', ('end',)))
    def fire(self):
        if self.on: self.cb(None)
class Subscriber:
    def __init__(self, topic, cls, callback=None, **k): self.topic = topic; self.cb = callback; G.subs.append(self)
class Duration:
    def __init__(self, secs=0, nsecs=0): self.secs = secs
    def to_sec(self): return self.secs
class Time(Duration):
    def __eq__(self, o): return self.secs == o.secs
    @staticmethod
    def now(): return Time(0)
log = lambda *a, **k: G.out.append(a[0] % a[1:] if len(a) > 1 else a[0])
rospy = module('rospy', ServiceProxy=ServiceProxy, wait_for_service=wait_for_service, get_param=get_param, has_param=lambda n: n in G.params, Timer=Timer, Subscriber=Subscriber, Duration=Duration, Time=Time,
       init_node=lambda *a, **k: None, myargv=lambda argv=None: list(sys.argv if argv is None else argv), on_shutdown=lambda f: (G.requests.append(('hook', ())), G.shutdown_hooks.append(f)), is_shutdown=lambda: G.down(),
       spin=lambda: G.spin(), get_rostime=lambda: Time(0), sleep=lambda *a: None, ServiceException=ServiceException, ROSException=ROSException, ROSInterruptException=ROSInterruptException,
       **{n: log for n in ('loginfo', 'logwarn', 'logerr', 'logdebug', 'logout', 'logfatal')})
module('rospy.exceptions', ROSException=ROSException, ROSInterruptException=ROSInterruptException); module('rospy.service', ServiceException=ServiceException)
def service_type(n): return G.srvtypes.get(n)
def service_list(namespace=None, node=None, include_nodes=False):
    if G.master_down: raise ROSServiceIOException()
    return [s for s in G.srvtypes if namespace in (None, '/') or s.startswith(namespace)]
module('rosservice', get_service_list=service_list, get_service_type=service_type, ROSServiceIOException=ROSServiceIOException)
module('rosparam', set_param=lambda ns, f, *a, **k: G.param_files.append((ns, f if isinstance(f, str) else f.name)), list_params=lambda ns: [p for p in G.params if p.startswith(ns)])
module('std_msgs'); module('std_msgs.msg', Bool=Bool)
def package(name, path): m = module(name); m.__path__ = [path]; return m
package('controller_manager_msgs', R + '/controller_manager_msgs/src/controller_manager_msgs'); module('controller_manager_msgs.srv', **srv); module('controller_manager_msgs.msg', **msg)
package('controller_manager', R + '/controller_manager/src/controller_manager')
import builtins, time as _time
_real_print = print
def _print(*a, **k):
    if k.get('file') is None: G.out.append(' '.join(str(x) for x in a))
    else: _real_print(*a, **k)
def _sleep(s):
    G.sleeps += 1
    if G.sleeps > 5000: raise SystemExit('sleeps forever')
    G.on_sleep()
def script(rel, argv=(), name='__main__'):
    """Runs a script of the repository."""
    path = os.path.join(R, rel); sys.argv = [path] + list(argv)
    l = importlib.machinery.SourceFileLoader(name, path); spec = importlib.util.spec_from_loader(name, l)
    m = importlib.util.module_from_spec(spec); G.module = m
    if name == '__main__': old = sys.modules['__main__']; sys.modules['__main__'] = m
    builtins.print = _print; s = _time.sleep; _time.sleep = _sleep
    try: l.exec_module(m)
    finally:
        builtins.print = _real_print; _time.sleep = s
        if name == '__main__': sys.modules['__main__'] = old
    return m
def lib(name):
    builtins.print = _print
    return importlib.import_module(name)
def shutdown():
    for f in G.shutdown_hooks: f()
def sent(kinds=('load_controller', 'unload_controller', 'switch_controller', 'reload_controller_libraries')): return [r for n, r in G.requests if r and r[0] in kinds]
def expect(what, got, want):
    if got != want:
        _real_print('%s\n  got      %r\n  expected %r' % (what, got, want)); sys.stdout.flush(); os._exit(1)
reset()
sys.modules['pyros'] = sys.modules.get('pyros') or sys.modules[__name__]

# ---------------------------------------------------------------- a stand-in for Qt
class Any:
    """Records calls; every attribute is another one."""
    def __init__(self, *a, **k): self.__dict__['calls'] = []; self.__dict__['sub'] = {}; self.__dict__['ret'] = {}; self.__dict__['ctor'] = a
    def __getattr__(self, n):
        if n.startswith('__'): raise AttributeError(n)
        if n not in self.sub: self.sub[n] = Any()
        return self.sub[n]
    def __call__(self, *a, **k):
        self.calls.append(a)
        return self.ret['v'](*a) if 'v' in self.ret else Any()
    def __getitem__(self, i): return self
    def __add__(self, o): return self
    def returns(self, f): self.ret['v'] = f if callable(f) else (lambda *a: f); return self
class QModelIndex:
    def __init__(self, row=0, col=0, valid=True, parent=None): self._r = row; self._c = col; self._v = valid; self._p = parent
    def row(self): return self._r
    def column(self): return self._c
    def isValid(self): return self._v
    def parent(self): return self._p
class Combo:
    """The calls of QComboBox the tools use; currentIndexChanged is recorded unless signals are blocked."""
    def __init__(self, items=(), cur=-1): self.items = list(items); self.cur = cur; self.blocked = False; self.signals = []
    def currentText(self): return self.items[self.cur] if 0 <= self.cur < len(self.items) else ''
    def currentIndex(self): return self.cur
    def count(self): return len(self.items)
    def itemText(self, i): return self.items[i]
    def findText(self, t): return self.items.index(t) if t in self.items else -1
    def blockSignals(self, b): o = self.blocked; self.blocked = b; return o
    def signalsBlocked(self): return self.blocked
    def setCurrentIndex(self, i):
        i = i if 0 <= i < len(self.items) else -1
        if i != self.cur:
            self.cur = i
            if not self.blocked: self.signals.append(self.currentText())
    def clear(self): self.items = []; self.setCurrentIndex(-1)
    def insertItems(self, at, xs):
        empty = not self.items
        self.items[at:at] = list(xs)
        if empty and self.items: self.setCurrentIndex(0)
    def addItems(self, xs): self.insertItems(len(self.items), xs)
    def __getattr__(self, n):
        if n.startswith('__'): raise AttributeError(n)
        return Any()
class Enum:
    def __getattr__(self, n):
        if n.startswith('__'): raise AttributeError(n)
        return 'Qt.' + n
class QAbstractTableModel:
    def __init__(self, parent=None): pass
class Icon:
    def __init__(self, path=None): self.path = path
class QMenu:
    choose = None; last = None
    def __init__(self, *a): self.actions = []; QMenu.last = self
    def addAction(self, *a): x = Any(); x.__dict__['text'] = a[-1]; x.__dict__['icon'] = a[0] if len(a) > 1 else None; self.actions.append(x); return x
    def exec_(self, *a): return next((x for x in self.actions if x.__dict__['text'] == QMenu.choose), None)
class Header:
    Interactive = 0; ResizeToContents = 3
class Plugin:
    def __init__(self, ctx=None): pass
    def setObjectName(self, n): pass
def qt():
    module('python_qt_binding', loadUi=lambda *a, **k: None)
    module('python_qt_binding.QtCore', QAbstractTableModel=QAbstractTableModel, QModelIndex=QModelIndex, Qt=Enum(), QTimer=Any, QVariant=Any, Signal=Any)
    class Widget(Any):
        def __init__(self, *a):
            Any.__init__(self); self.sub['cm_combo'] = Combo()
        def __setattr__(self, n, v): self.sub[n] = v
    module('python_qt_binding.QtWidgets', QWidget=Widget, QFormLayout=Any, QHeaderView=Header, QMenu=QMenu, QStyledItemDelegate=type('QStyledItemDelegate', (), {'__init__': lambda s, *a: None, 'paint': staticmethod(lambda *a: None)}))
    module('python_qt_binding.QtGui', QCursor=Any, QFont=Any, QIcon=Icon, QStandardItem=type('QStandardItem', (), {'__init__': lambda s, t='': (setattr(s, 'text', t), setattr(s, 'rows', []))[0], 'appendRow': lambda s, r: s.rows.append(r)}),
           QStandardItemModel=type('QStandardItemModel', (), {'__init__': lambda s: setattr(s, 'rows', []), 'appendRow': lambda s, r: s.rows.append(r)}))
    module('qt_gui'); module('qt_gui.plugin', Plugin=Plugin)
    class RosPack:
        def get_path(self, n): return '/pkg/' + n
    module('rospkg', RosPack=RosPack)
    package('rqt_controller_manager', R + '/rqt_controller_manager/src/rqt_controller_manager')
    return lib('rqt_controller_manager.controller_manager')
