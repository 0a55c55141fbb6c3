SP='controller_manager/scripts/spawner'; US='controller_manager/scripts/unspawner'; CS='controller_manager/scripts/controller_manager'; CG='controller_manager/scripts/controller_group'
CI='controller_manager/src/controller_manager/controller_manager_interface.py'; UT='controller_manager_msgs/src/controller_manager_msgs/utils.py'
RQ='rqt_controller_manager/src/rqt_controller_manager/controller_manager.py'; UC='rqt_controller_manager/src/rqt_controller_manager/update_combo.py'
H='import os, sys\nsys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))\nfrom pyros import *\n'
SEEDS={}
def S(i, prop, edits, needs, breaks, demo): SEEDS[i]={'property':prop,'kind':'py','files':['pyros.py'],'edits':edits,'needs':needs,'breaks':breaks,'demo':H+demo}
SPAWN="SP='controller_manager/scripts/spawner'\n"
# ---------------------------------------------------------------- P01
S('p01_first_message','P01',[(SP,"        while not wait_for_topic_result[0].data:\n            time.sleep(0.01)","        if not wait_for_topic_result[0].data:\n            time.sleep(0.01)")],
 'a false message on the wait-for topic before the true one','controllers are loaded after a false message',SPAWN+'''
seen = []
def on_sleep():
    if G.sleeps == 3: G.subs[0].cb(Bool(data=False))
    if G.sleeps == 9: seen.append(len(sent())); G.subs[0].cb(Bool(data=True))
G.on_sleep = on_sleep
script(SP, ['--wait-for', 'go', 'a'])
expect('requests before the true message', seen, [0])
expect('requests', sent(), [('load_controller', 'a'), ('switch_controller', ('a',), (), 2, False, 0.0)])
''')
S('p01_start_all','P01',[(SP,"        resp = switch_controller(loaded, [], 2, False, 0.0)","        resp = switch_controller(controllers, [], 2, False, 0.0)")],
 'a controller that cannot be loaded','the start request names a controller that is not loaded and, being strict, fails for all',SPAWN+'''
G.refuse = {'b'}
script(SP, ['a', 'b', 'c'])
expect('requests', sent(), [('load_controller', 'a'), ('load_controller', 'b'), ('load_controller', 'c'), ('switch_controller', ('a', 'c'), (), 2, False, 0.0)])
''')
S('p01_sim_time','P01',[(SP,"if rospy.get_param('/use_sim_time', False) and rospy.get_rostime()","if rospy.get_param('/use_sim_time', True) and rospy.get_rostime()")],
 'no controller manager, and use_sim_time not set','the spawner waits for ever instead of giving up',SPAWN+'''
G.services = set(); n = [0]
class Loops(Exception): pass
def wait(name, timeout=None):
    n[0] += 1
    if n[0] > 50: raise Loops()
    raise ROSException(name)
rospy.wait_for_service = wait
try: script(SP, ['a'])
except Loops: expect('the spawner', 'never gives up', 'gives up')
expect('requests', sent(), [])
''')
S('p01_no_unloader','P01',[(SP,"            rospy.wait_for_service(unload_controller_service, timeout=timeout)","            rospy.wait_for_service(load_controller_service, timeout=timeout)")],
 'a node that offers loading and switching but not unloading','controllers are loaded by a manager that cannot unload them',SPAWN+'''
G.services = {'ns/controller_manager/load_controller', 'ns/controller_manager/switch_controller'}
script(SP, ['--namespace', 'ns', 'a'])
expect('requests', sent(), [])
''')
S('p01_yaml_sorted','P01',[(SP,"            for controller in name_yaml:","            for controller in sorted(name_yaml):")],
 'a YAML file whose controllers are not in alphabetical order','controllers are loaded in another order than the file gives',SPAWN+'''
import tempfile
f = tempfile.NamedTemporaryFile('w', suffix='.yaml'); f.write('z: {type: t}\\na: {type: t}\\n'); f.flush()
script(SP, ['m', f.name])
expect('requests', sent(), [('load_controller', 'm'), ('load_controller', 'z'), ('load_controller', 'a'), ('switch_controller', ('m', 'z', 'a'), (), 2, False, 0.0)])
''')
S('p01_hook_late','P01',[(SP,"    # hook for unloading controllers on shutdown\n    rospy.on_shutdown(shutdown)\n",""),(SP,"    # start controllers is requested\n","    # hook for unloading controllers on shutdown\n    rospy.on_shutdown(shutdown)\n\n    # start controllers is requested\n")],
 'ROS shuts down while controllers are being loaded','controllers that were loaded stay loaded for ever',SPAWN+'''
G.down = lambda: len(sent(('load_controller',))) > 0
script(SP, ['a'])
shutdown()
expect('controllers left', list(G.ctrl), [])
''')
# ---------------------------------------------------------------- P02
S('p02_forward','P02',[(SP,"        for name in reversed(loaded):","        for name in loaded:")],
 'more than one controller','controllers are unloaded in the order they were loaded',SPAWN+'''
script(SP, ['a', 'b', 'c']); G.requests = []; shutdown()
expect('requests', sent(), [('switch_controller', (), ('a', 'b', 'c'), 2, False, 0.0), ('unload_controller', 'c'), ('unload_controller', 'b'), ('unload_controller', 'a')])
''')
S('p02_uncaught','P02',[(SP,"    except (rospy.ServiceException, rospy.exceptions.ROSException) as exc:","    except rospy.ServiceException as exc:")],
 'the ROS master goes away during the take-down','shutdown ends with an exception',SPAWN+'''
script(SP, ['a'])
def gone(self, *a, **k): raise ROSException('gone')
ServiceProxy.call = gone
try: shutdown()
except ROSException: expect('take-down', 'raises', 'warns')
''')
S('p02_global','P02',[(SP,"def main():\n    global unload_controller_service,load_controller_service,switch_controller_service","def main():\n    global load_controller_service,switch_controller_service")],
 'main and shutdown share the service name through a module variable','the take-down asks a service with an empty name to unload',SPAWN+'''
script(SP, ['--namespace', 'ns', 'a']); G.requests = []; shutdown()
expect('services', [n for n, r in G.requests], ['ns/controller_manager/switch_controller', 'ns/controller_manager/unload_controller'])
''')
S('p02_running_left','P02',[(SP,"        switch_controller([], loaded, SwitchControllerRequest.STRICT, False, 0.0)\n        rospy.loginfo(\"Unloading all loaded controllers...\");\n        for name in reversed(loaded):\n","        rospy.loginfo(\"Unloading all loaded controllers...\");\n        for name in reversed(loaded):\n            switch_controller([], [name], SwitchControllerRequest.STRICT, False, 0.0)\n")],
 'two controllers','controllers are stopped one by one between unloads instead of all at once before',SPAWN+'''
script(SP, ['a', 'b']); G.requests = []; shutdown()
expect('requests', sent(), [('switch_controller', (), ('a', 'b'), 2, False, 0.0), ('unload_controller', 'b'), ('unload_controller', 'a')])
''')
# ---------------------------------------------------------------- P03
S('p03_kill_interleaved','P03',[(CS,"                controller_manager_interface.stop_controller(c)\n            for c in args[2:]:\n                controller_manager_interface.unload_controller(c)","                controller_manager_interface.stop_controller(c)\n                controller_manager_interface.unload_controller(c)")],
 'kill with two names','the first controller is unloaded before the second is stopped','''
add('a'); add('b')
script('controller_manager/scripts/controller_manager', ['kill', 'a', 'b'])
expect('requests', sent(), [('switch_controller', (), ('a',), 2, False, 0.0), ('switch_controller', (), ('b',), 2, False, 0.0), ('unload_controller', 'a'), ('unload_controller', 'b')])
''')
S('p03_restore_states','P03',[(CI,"        to_start = [c.name for c in originally.controller if c.state == 'running']","        to_start = [c.name for c in originally.controller if c.state != 'stopped']")],
 'a controller that was only initialised before the reload','a controller that was not running is started','''
add('a'); add('b', 'initialized'); add('c', 'stopped')
expect('result', lib('controller_manager.controller_manager_interface').reload_libraries(True, restore=True), True)
expect('requests', sent(), [('reload_controller_libraries', True), ('load_controller', 'a'), ('load_controller', 'b'), ('load_controller', 'c'), ('switch_controller', ('a',), (), 1, False, 0.0)])
''')
S('p03_restore_failed','P03',[(CI,"    if restore:\n        for c in originally.controller:","    if restore and result:\n        for c in originally.controller:")],
 'a reload that fails after controllers were unloaded','nothing is restored','''
add('a'); G.reload_ok = False; real = ServiceProxy.do_ReloadControllerLibraries
def killed(self, r): G.ctrl.clear(); return real(self, r)
ServiceProxy.do_ReloadControllerLibraries = killed
expect('result', lib('controller_manager.controller_manager_interface').reload_libraries(True, restore=True), False)
expect('running', [c.name for c in G.ctrl.values() if c.state == 'running'], ['a'])
''')
S('p03_restore_flag','P03',[(CS,"            if '--restore' in args[2:]:","            if '--restore' in args[2:3]:")],
 'an argument before --restore','libraries are reloaded without restoring the controllers','''
add('a')
script('controller_manager/scripts/controller_manager', ['reload-libraries', '-v', '--restore'])
expect('running', [c.name for c in G.ctrl.values() if c.state == 'running'], ['a'])
''')
S('p03_unload_answer','P03',[(CI,"    resp = s.call(UnloadControllerRequest(name))\n    if resp.ok == 1:","    resp = s.call(UnloadControllerRequest(name))\n    if resp:")],
 'an unload request that is refused','a refused unload is reported as success','''
add('a')
expect('result', lib('controller_manager.controller_manager_interface').unload_controller('a'), False)
expect('loaded', list(G.ctrl), ['a'])
''')
# ---------------------------------------------------------------- P04
UNS="US='controller_manager/scripts/unspawner'\n"
S('p04_forgets','P04',[(US,"            inhibited.update(to_stop)","            inhibited.clear()\n            inhibited.update(to_stop)")],
 'controllers stopped at different times','controllers stopped at an earlier check are not restarted',UNS+'''
add('a'); add('b', 'stopped')
def spin(): G.ctrl['b'].state = 'running'; G.timers[0].fire(); shutdown()
G.spin = spin
script(US, ['a', 'b'])
expect('last request', [sorted(r[1]) for r in sent()][-1], ['a', 'b'])
''')
S('p04_not_stopped','P04',[(US,"if cs.state == 'running')","if cs.state != 'stopped')")],
 'a named controller that is loaded but was never started','a controller that was not running is started on exit',UNS+'''
add('a', 'initialized'); add('b')
G.spin = shutdown
script(US, ['a', 'b'])
expect('requests', sent(), [('switch_controller', (), ('b',), 1, False, 0.0), ('switch_controller', ('b',), (), 1, False, 0.0)])
''')
S('p04_restart_named','P04',[(US,"                          start_controllers = list(inhibited))","                          start_controllers = list(to_inhibit))")],
 'a named controller that did not run','controllers that were never stopped are started on exit',UNS+'''
add('a', 'stopped'); add('b')
G.spin = shutdown
script(US, ['a', 'b'])
expect('requests', sent(), [('switch_controller', (), ('b',), 1, False, 0.0), ('switch_controller', ('b',), (), 1, False, 0.0)])
''')
S('p04_timer_late','P04',[(US,"        timer.shutdown()\n        # Re-starts inhibited controllers\n        switch_controller(strictness = SwitchControllerRequest.BEST_EFFORT,\n                          start_controllers = list(inhibited))\n","        # Re-starts inhibited controllers\n        switch_controller(strictness = SwitchControllerRequest.BEST_EFFORT,\n                          start_controllers = list(inhibited))\n        timer.shutdown()\n")],
 'the timer fires while the controllers are being restarted','the restarted controllers are stopped again',UNS+'''
add('a'); real = ServiceProxy.do_SwitchController
def slow(self, r):
    x = real(self, r)
    if r.start_controllers: G.timers[0].fire()
    return x
ServiceProxy.do_SwitchController = slow
G.spin = shutdown
script(US, ['a'])
expect('state', G.ctrl['a'].state, 'running')
''')
# ---------------------------------------------------------------- P05
GRP="CG='controller_manager/scripts/controller_group'\ndef order(r): return [tuple(tuple(sorted(x)) if isinstance(x, tuple) else x for x in q) for q in r]\n"
S('p05_shared_stopped','P05',[(CG,"    return desired_controllers, all_controllers - desired_controllers","    return desired_controllers, all_controllers")],
 'a running controller that belongs to both groups','a member of the new group is stopped',GRP+'''
G.params['controller_groups'] = {'g': ['a', 'b'], 'h': ['b', 'c']}; add('b'); add('c')
script(CG, ['switch', 'g'])
expect('requests', order(sent()), [('load_controller', 'a'), ('switch_controller', ('a',), ('c',), 2, False, 0.0)])
''')
S('p05_go_on','P05',[(CG,"                print('Cancel group switching')\n                return","                print('Cancel group switching')\n                continue")],
 'a member that cannot be loaded','the group is switched without that member',GRP+'''
G.params['controller_groups'] = {'g': ['a', 'b'], 'h': ['c']}; add('c'); G.refuse = {'a'}
script(CG, ['switch', 'g'])
expect('switches', sent(('switch_controller',)), [])
''')
S('p05_stopped_member','P05',[(CG,"        if not loaded_controllers.get(controller, False):\n            to_start.append(controller)","        if not loaded_controllers.get(controller, True):\n            to_start.append(controller)")],
 'a member that has to be loaded first','a freshly loaded member is not started',GRP+'''
G.params['controller_groups'] = {'g': ['a', 'b'], 'h': ['c']}; add('b', 'stopped'); add('c')
script(CG, ['switch', 'g'])
expect('requests', order(sent()), [('load_controller', 'a'), ('switch_controller', ('a', 'b'), ('c',), 2, False, 0.0)])
''')
S('p05_spawn_mixed','P05',[(CG,"        controller_manager_interface.load_controller(controller)\n    for controller in desired_controllers:\n        controller_manager_interface.start_controller(controller)","        controller_manager_interface.load_controller(controller)\n        controller_manager_interface.start_controller(controller)")],
 'a group with two members','a member is started before the others are loaded',GRP+'''
G.params['controller_groups'] = {'g': ['a', 'b']}
script(CG, ['spawn', 'g'])
expect('kinds', [r[0] for r in sent()], ['load_controller', 'load_controller', 'switch_controller', 'switch_controller'])
''')
# ---------------------------------------------------------------- P06
DISC="S = ('list_controllers', 'list_controller_types', 'load_controller', 'unload_controller', 'switch_controller')\nT = ('ListControllers', 'ListControllerTypes', 'LoadController', 'UnloadController', 'SwitchController')\ndef offer(ns, skip=()):\n    for s, t in list(zip(S, T)) + [('reload_controller_libraries', 'ReloadControllerLibraries')]:\n        if s not in skip: G.srvtypes[ns + '/' + s] = 'controller_manager_msgs/' + t\nu = lib('controller_manager_msgs.utils')\n"
S('p06_type_ignored','P06',[(UT,"    return srv_type == rosservice.get_service_type(srv_name)","    return rosservice.get_service_type(srv_name) is not None")],
 'a node with services of the same names but another type','a node that is no controller manager is reported as one',DISC+'''
offer('/a/cm'); offer('/b/cm'); G.srvtypes['/b/cm/switch_controller'] = 'other/Switch'
expect('managers', u.get_controller_managers(), ['/a/cm'])
''')
S('p06_stale_guess','P06',[(UT,"    ns_list[:] = [ns for ns in ns_list if ns in ns_list_curr]\n","    ns_list[:] = [ns for ns in ns_list if ns in ns_list_curr or is_controller_manager(ns)]\n"),(UT,"    ns_list += [ns for ns in ns_list_curr\n                if ns not in ns_list and is_controller_manager(ns)]","    ns_list += [ns for ns in ns_list_curr\n                if ns not in ns_list]")],
 'a namespace that shows a listing service only','a namespace with a partial interface is reported',DISC+'''
offer('/a/cm'); G.srvtypes['/b/cm/list_controllers'] = 'controller_manager_msgs/ListControllers'
expect('managers', u.get_controller_managers('/', ['/a/cm', '/c/cm']), ['/a/cm'])
''')
S('p06_root','P06',[(UT,"                ns = '/'\n            ns_list.append(ns)","                continue\n            ns_list.append(ns)")],
 'a controller manager in the root namespace','it is not reported',DISC+'''
offer(''); offer('/a/cm')
expect('managers', u.get_controller_managers(), ['/', '/a/cm'])
''')
S('p06_no_retry','P06',[(UT,"            self._srv = self._make_srv()\n            try:\n                controller_list = self._srv.call().controller\n            except:\n                controller_list = []","            self._srv = self._make_srv()\n            controller_list = []")],
 'the connection to the manager breaks between two listings','a listing is reported empty although the manager answers again',DISC+'''
add('a'); l = u.ControllerLister('/cm'); broken = l._srv if hasattr(l, '_srv') else None
real = ServiceProxy.call; n = [0]
def once(self, *a, **k):
    n[0] += 1
    if n[0] == 1: raise ServiceException('broken')
    return real(self, *a, **k)
ServiceProxy.call = once
expect('controllers', [c.name for c in l()], ['a'])
''')
# ---------------------------------------------------------------- P07
U="u = lib('controller_manager_msgs.utils')\nname = lambda l: [c.name for c in l]\n"
S('p07_flag_hoisted','P07',[(UT,"    for ctrl in ctrl_list:\n        for resource_set in ctrl.claimed_resources:\n            if (hardware_interface is None or","    for ctrl in ctrl_list:\n        add_ctrl = not match_any  # Initial flag value\n        for resource_set in ctrl.claimed_resources:\n            if (hardware_interface is None or"),(UT,"                add_ctrl = not match_any  # Initial flag value\n                for res in resources:","                for res in resources:")],
 'a controller whose second interface has the resources','it is left out because its first interface does not have them',U+'''
l = [controller('a', claims=(('i', ('x',)), ('j', ('r', 's')))), controller('b', claims=(('i', ('r', 's')),)), controller('c', claims=(('i', ('r',)), ('j', ('s',))))]
expect('all of r, s', name(u.filter_by_resources(l, ['r', 's'])), ['a', 'b'])
expect('any of r, s in i', name(u.filter_by_resources(l, ['r', 's'], 'i', True)), ['b', 'c'])
''')
S('p07_twice','P07',[(UT,"                if hardware_interface in resource_set.hardware_interface:\n                    list_out.append(ctrl)\n                    break","                if hardware_interface in resource_set.hardware_interface:\n                    list_out.append(ctrl)")],
 'a controller with two interfaces that contain the given text','it is listed twice',U+'''
l = [controller('a', claims=(('PosIface', ()), ('VelIface', ()))), controller('b', claims=(('Eff', ()),))]
expect('Iface', name(u.filter_by_hardware_interface(l, 'Iface', True)), ['a'])
''')
S('p07_reversed_in','P07',[(UT,"            if attr_val in getattr(val, attr_name):","            if getattr(val, attr_name) in attr_val:")],
 'substring matching with a proper part of the name','controllers that contain the text are left out',U+'''
l = [controller('left_arm'), controller('arm'), controller('head')]
expect('arm', name(u.filter_by_name(l, 'arm', True)), ['left_arm', 'arm'])
expect('running', name(u.filter_by_state(l, 'run', True)), ['left_arm', 'arm', 'head'])
''')
S('p07_nested','P07',[(UT,"        if (len(param_split) == 2 and param_split[1] == 'type'):","        if (len(param_split) >= 2 and param_split[-1] == 'type'):")],
 'a deeper parameter called type','a parameter set that is no controller is reported',U+'''
G.params = {'/ns/b/type': 't', '/ns/a/type': 't', '/ns/c/gains/type': 'x', '/ns/d/p': 1}
expect('names', u.get_rosparam_controller_names('/ns'), ['a', 'b'])
''')
S('p07_any_all','P07',[(UT,"                        if match_any:  # One hit: enough to accept controller\n                            add_ctrl = True\n                            break\n","                        add_ctrl = True\n                        if match_any:  # One hit: enough to accept controller\n                            break\n"),(UT,"                            add_ctrl = False\n                            break\n                if add_ctrl:","                            add_ctrl = False\n                if add_ctrl:")],
 'a first resource that is missing and a last one that is claimed','only the last resource decides',U+'''
l = [controller('a', claims=(('i', ('s',)),)), controller('b', claims=(('i', ('r', 's')),))]
expect('all of r, s', name(u.filter_by_resources(l, ['r', 's'])), ['b'])
''')
# ---------------------------------------------------------------- P08
Q="m = qt(); ctx = Any(); ctx.serial_number.returns(1); c = m.ControllerManager(ctx); tv = c._widget.table_view\ndef menu(row, what): tv.rowAt.returns(row); QMenu.choose = what; G.requests = []; c._on_ctrl_menu(Any())\n"
S('p08_refresh','P08',[(RQ,"        if self._controllers != controllers:","        if [c.name for c in self._controllers] != [c.name for c in controllers]:")],
 'a controller changes state without any being loaded or unloaded','the table goes on showing the old state',Q+'''
add('a'); c._on_cm_change('/cm'); G.ctrl['a'].state = 'stopped'; c._update_controllers()
t = tv.setModel.calls[-1][0]
expect('state', t.data(QModelIndex(0, 1), 'Qt.DisplayRole'), 'stopped')
''')
S('p08_uninit_prefix','P08',[(RQ,"            add_ctrl = not any(name == ctrl.name for ctrl in controllers)","            add_ctrl = not any(ctrl.name.startswith(name) for ctrl in controllers)")],
 'a configured controller whose name begins the name of a loaded one','it is not shown',Q+'''
add('arm_left'); G.params = {'/arm/type': 'x', '/arm_left/type': 't'}; c._on_cm_change('/cm')
t = tv.setModel.calls[-1][0]
expect('rows', [t.data(QModelIndex(i, 0), 'Qt.DisplayRole') for i in range(t.rowCount(None))], ['arm_left', 'arm'])
''')
S('p08_kill_order','P08',[(RQ,"                self._stop_controller(ctrl.name)\n                self._unload_controller(ctrl.name)","                self._unload_controller(ctrl.name)\n                self._stop_controller(ctrl.name)")],
 'Stop and Unload on a running controller','the controller stays loaded since it was running when unloading was requested',Q+'''
add('a'); c._on_cm_change('/cm'); menu(0, 'Stop and Unload')
expect('requests', sent(), [('switch_controller', (), ('a',), 2, False, 0.0), ('unload_controller', 'a')])
''')
S('p08_combo','P08',[(UC,"        selected_id = -1\n","        selected_id = 0 if new_vals else -1\n")],
 'the selected manager disappears while others exist','another manager is shown as selected while the data is that of none','''
qt(); u = lib('rqt_controller_manager.update_combo'); c = Combo(['/a', '/b'], 1)
u.update_combo(c, ['/a', '/c'])
expect('selected', c.currentText(), '')
c = Combo(['/a', '/b'], 1); u.update_combo(c, ['/b']); expect('selected', c.currentText(), '/b'); expect('signals', c.signals, [])
''')
S('p08_stale_switch','P08',[(RQ,"            switch_srv_name = _append_ns(cm_ns, 'switch_controller')\n            self._switch_srv = rospy.ServiceProxy(switch_srv_name,\n                                                  SwitchController,\n                                                  persistent=True)\n","            switch_srv_name = _append_ns(cm_ns, 'switch_controller')\n            if self._switch_srv is None:\n                self._switch_srv = rospy.ServiceProxy(switch_srv_name,\n                                                      SwitchController,\n                                                      persistent=True)\n")],
 'another manager is selected directly after one','switch requests go to the manager that was selected before',Q+'''
add('a'); c._on_cm_change('/x'); c._on_cm_change('/y'); menu(0, 'Stop')
expect('service', [n for n, r in G.requests if r[0] == 'switch_controller'], ['/y/switch_controller'])
''')
S('p08_row','P08',[(RQ,"        if row < 0:\n            return  # Cursor is not under a valid item","        if row <= 0:\n            row = 0  # Cursor is not under a valid item")],
 'the menu is opened below the last row','the actions of the first controller are offered',Q+'''
add('a'); c._on_cm_change('/cm'); menu(-1, 'Stop')
expect('requests', sent(), [])
''')
