p('N01', 'Realtime cycles finish in bounded time',
  'A realtime cycle of the manager finishes within a bound set by the number of controllers and hardware parts.',
  ['schedules', 'inputs'], 'every cycle', 'Execution time depends on the platform and on plugins.', [CMC], [('update', CMC)],
  na='A bound on execution time is a runtime quantity of the platform and of user plugins; no sound static bound is in reach. The statically decidable part (no blocking operation) is C10.')
p('N02', 'Shared words are seen consistently by both threads',
  'A value the services publish for the realtime loop becomes visible to it completely and in the order written, on every supported platform.',
  ['schedules'], 'every weak-memory execution', 'Weak-memory effects do not show in tests.', [CMC, CMH], [('list indices and the pending-switch record', CMH)],
  na='The shared words are plain non-atomic fields, so by the letter of the C++ memory model the question has no positive answer on this tree; which reorderings occur depends on compiler and hardware. The order of the accesses in the source is decided by C03 and C06.')
SP = 'controller_manager/scripts/spawner'; US = 'controller_manager/scripts/unspawner'; CS = 'controller_manager/scripts/controller_manager'; CG = 'controller_manager/scripts/controller_group'
CI = 'controller_manager/src/controller_manager/controller_manager_interface.py'; UT = 'controller_manager_msgs/src/controller_manager_msgs/utils.py'
RQ = 'rqt_controller_manager/src/rqt_controller_manager/controller_manager.py'; UC = 'rqt_controller_manager/src/rqt_controller_manager/update_combo.py'
PYT = 'Every function of the tool is taken from the Python syntax tree of the current source, evaluated abstractly over all inputs (helpers inlined, callbacks evaluated where they are handed out, service requests normalised against the .srv definitions) to a guarded normal form, and compared observable by observable (service requests and their arguments, results, messages, exits, exceptions) with the normal form of the reference contract; any difference is a violation at the source line that produces it'
PYW = 'No test of the repository runs the Python tools; '
p('P01', 'The spawner loads what it is asked for and starts exactly what was loaded',
  'After all three services of the controller manager in the given namespace exist (waiting at most the timeout for each unless waiting is unlimited; giving up, without loading anything, only if they do not appear while a clock is available) and, if asked to, after the first true message on the wait-for topic, the spawner requests loading of every named controller once, in the order given, a name that is a YAML file standing for the controllers the file names after its parameters were set. Unless told to leave them stopped it then requests one strict switch that starts exactly the controllers whose load request succeeded, and it registers the take-down before the first load request.',
  ['inputs', 'fault_sequences', 'histories'], 'every command line, file content, service answer and message on the wait-for topic, and shutdown at every point where it is polled', PYW + 'and failing services, several files and a late topic message need a running ROS graph.',
  [SP], [('parse_args, main', SP)], tech=PYT, state=[('loaded', 'the controllers whose load request succeeded', SP)])
p('P02', 'The spawner takes down exactly what it loaded, stopping before unloading',
  'On shutdown the spawner requests, on the services of the namespace it was given, one strict switch that stops exactly the controllers it loaded and starts none, and afterwards the unloading of each of them once, in reverse order of loading. A failing service request ends this with a warning and no exception.',
  ['inputs', 'histories', 'fault_sequences'], 'every list of loaded controllers and every failing request', PYW + 'shutdown with failing services is not exercised anywhere.',
  [SP], [('shutdown', SP)], tech=PYT + '; plus an order rule: no unload request before the switch request', state=[('loaded', 'the controllers whose load request succeeded', SP)])
p('P03', 'Command-line requests reach the manager as asked and answers are reported truthfully',
  'Each command of the controller_manager tool and each function of its library waits for the service it uses and issues exactly the requests it stands for: load, unload, start or stop of each named controller in order (spawn loads all before starting any, kill stops all before unloading any; switches are strict), listing, listing of types, reloading of libraries with the given force flag. The result is true exactly if the service answered with success, and listings show every controller with its state and the hardware interfaces it claims. Reloading with restore loads every controller that was loaded before, and starts, with best effort, exactly those that were running.',
  ['inputs', 'histories'], 'every command line, name and service answer', PYW + 'the mapping from commands to requests is only looked at by hand.',
  [CS, CI], [('command dispatch', CS), ('service requests and results', CI)], tech=PYT)
p('P04', 'The unspawner stops the named controllers while it runs and restarts those it stopped',
  'At start and every three seconds the unspawner requests, with best effort, the stop of exactly the named controllers that are running at that time, and makes no request if there are none. On shutdown it ends this periodic check first and then requests, with best effort, the start of exactly the controllers it stopped at any time.',
  ['inputs', 'histories', 'schedules'], 'every name list and every history of controller states', PYW + 'histories of states over several timer periods are not sampled.',
  [US], [('main, stop_controllers, restart_controllers', US)], tech=PYT, state=[('inhibited', 'all controllers that were stopped so far', US)])
p('P05', 'Switching controller groups stops only others and starts only members',
  'Switching to a group requests one strict switch that stops exactly the running controllers that belong to some other group and not to this one, and starts exactly the members of the group that are not running; members that are not loaded are loaded first, and if one cannot be loaded nothing is switched. Spawning a group loads every member before starting any. An unknown or empty group is reported and makes no request. Listing shows every group with its members.',
  ['inputs', 'histories'], 'every group configuration, every set and state of loaded controllers, every load result', PYW + 'combinations of groups and controller states are exponential.',
  [CG], [('_read_group, _spawn_group, _switch_group, _list_group', CG)], tech=PYT)
p('P06', 'Discovery reports exactly the namespaces that are controller managers',
  'The list of controller managers is sorted; it holds the given guesses that still show a controller listing service and every other namespace that shows one and in which every service of a controller manager exists with the right type. Without a reachable ROS master it is empty. Listing controllers returns what the service answers, reconnects once if the call fails, and reports no controllers if it fails again.',
  ['inputs', 'fault_sequences', 'histories'], 'every set of services and types, every initial guess, every failing call', PYW + 'partial service interfaces and failing masters are not set up.',
  [UT], [('get_controller_managers, is_controller_manager', UT), ('ControllerManagerLister, ControllerLister', UT)], tech=PYT)
p('P07', 'Filters keep exactly the matching controllers, in order',
  'Filtering by name, type or state keeps exactly the controllers whose value equals, or with substring matching contains, the given one. Filtering by hardware interface keeps those that claim one with that (sub)name; filtering by resources keeps those one of whose claimed interfaces (the given one, if one is given) has all of the given resources, or with match-any at least one of them. The names of configured controllers are exactly the parameter sets of the namespace that have a type. Order is kept.',
  ['inputs'], 'every controller list and every filter argument', PYW + 'lists with several interfaces and resources per controller times all flag combinations are not sampled.',
  [UT], [('filter_by_*, _filter_by_attr, get_rosparam_controller_names', UT)], tech=PYT)
p('P08', 'The graphical manager shows every controller and sends what the menu says',
  'The table shows, for the selected controller manager, every controller it reports in order followed by those only configured on the parameter server (as uninitialized, with their type), each with name, state and an icon for every state a manager can report; it is refreshed whenever this data changed. The context menu offers the actions of the state of the controller under the cursor, and the chosen action sends exactly its requests for that controller, strict and in order (stop before unload, load before start), to the services of the selected manager. Updating the selection box keeps the selected manager if it still exists and never selects another in its place.',
  ['inputs', 'histories'], 'every controller list, state, selection and menu choice', PYW + 'GUI events are not tested.',
  [RQ, UC], [('menu, table model, services', RQ), ('update_combo', UC)], tech=PYT)
