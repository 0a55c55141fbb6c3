#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from one table."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CMC = 'controller_manager/src/controller_manager.cpp'; CMH = 'controller_manager/include/controller_manager/controller_manager.h'
CB = 'controller_interface/include/controller_interface/'; HI = 'hardware_interface/include/hardware_interface/'
JL = 'joint_limits_interface/include/joint_limits_interface/'; TI = 'transmission_interface/include/transmission_interface/'; TS = 'transmission_interface/src/'
CR = 'combined_robot_hw/src/combined_robot_hw.cpp'
BASE = 'Every function named below is taken from the type-checked program (clang AST of the current tree), evaluated abstractly over all inputs with all private helpers inlined to a guarded normal form, and compared observable by observable with the normal form of the reference contract'
P = []
def p(id, title, statement, over, text, why, files, mech, tech=None, note=None, state=None, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, tech=tech, note=note, state=state, na=na))

p('C01', 'Loading a controller is all-or-nothing and keeps names unique',
  'A load request answers true exactly when no loaded controller has that name, the type parameter is set, one of the plugin loaders declares and creates the type, and the controller initialises; then the set of loaded controllers is the previous one, in order, plus the new one at the end with its name, type and claimed resources. Otherwise, also when construction or initialisation throws, it answers false and the set is unchanged. Lookup and listing by name always show exactly the current set.',
  ['inputs', 'histories', 'fault_sequences'], 'every name, every set of loaded controllers, every parameter-server content, every plugin result including exceptions',
  'Tests load a handful of names from one configuration; plugin creation and initialisation failures, loaders that declare a type twice and arbitrary loaded sets are not enumerated, and this build does not even compile the manager.',
  [CMC, CMH, 'controller_manager/include/controller_manager/controller_loader.h'], [('loadController', CMC), ('getControllerByName/getControllerNames', CMC), ('plugin loader wrapper', 'controller_manager/include/controller_manager/controller_loader.h')],
  state=[('current controller list', 'the loaded controllers that services and the realtime loop use', CMH)])
p('C02', 'Unloading removes exactly one controller that is not running',
  'An unload request answers true exactly when a controller of that name is loaded and not running, and then exactly that controller is removed while all others stay in order. A running or unknown controller makes it answer false and leaves the set of loaded controllers unchanged.',
  ['inputs', 'histories'], 'every name, every loaded set and state of each controller', 'Tests unload one or two controllers out of fixed sets.',
  [CMC], [('unloadController', CMC)])
p('C03', 'The controller list the realtime loop reads is never modified under it',
  'Loading and unloading only ever modify a list of controllers after having seen that the realtime loop does not use it, and give up without modifying it when ROS shuts down while waiting. The realtime loop announces which list it uses before its first access in a cycle and only accesses the one it announced. A new list is made current only after it is completely built.',
  ['schedules', 'histories'], 'every interleaving of one realtime loop with service calls at the granularity of shared accesses, including shutdown during a wait',
  'Tests cannot force the realtime thread to sit between the announcement and the traversal, nor shut ROS down inside a wait.',
  [CMC], [('free-list wait, publication and retirement in loadController/unloadController', CMC), ('announcement in update', CMC)],
  tech='publication typestate over the ordered event lists of every path: writes to either list must be dominated by a wait that saw the realtime marker differ, with no path through the wait loop that skips it; realtime reads dominated by the announcement',
  note='Interleavings are abstracted to the order of shared accesses on each thread; memory ordering of the plain ints is an assumption. One undisputed consequence (two lists, one reader) is relied upon.')
p('C04', 'A switch request resolves to exactly the documented set of actions',
  'With strict resolution a switch is refused when any named controller is unknown, is to be stopped but not running, or is to be started while already running and not being stopped; with best effort (also the default for an unspecified level) such entries are dropped and everything else proceeds. A running controller named in both lists is a conflicting command and refuses the switch at every strictness; one that is not running is refused in strict mode and merely started in best effort. The hardware is asked with exactly the controllers that newly start and newly stop, and the realtime loop receives exactly the remaining start and stop entries, in request order, with the requested strictness, asap flag and timeout.',
  ['inputs', 'histories'], 'every pair of name lists, strictness level, loaded set and combination of controller states', 'Tests exercise a dozen name combinations; combinations of states, duplicates and strictness are exponential.',
  [CMC], [('switchController', CMC), ('default arguments of switchController', CMH)])
p('C05', 'No switch reaches the realtime loop without conflict and feasibility checks',
  'A switch takes effect only if the hardware reported no conflict for exactly the set of controllers that would be running afterwards and then accepted to prepare exactly the controllers that newly start and newly stop. If either says no, the request answers false and nothing is handed to the realtime loop.',
  ['inputs', 'histories', 'schedules'], 'every request and every answer of the hardware', 'Tests cover two conflicting controllers, not arbitrary sets and answers.',
  [CMC], [('checkForConflict and prepareSwitch calls in switchController', CMC)],
  tech=BASE + '; plus a dominance rule: every write that publishes the switch is dominated by both accepting answers')
p('C06', 'A failed or finished switch leaves nothing behind',
  'Whatever way a switch request ends (refused, in conflict, infeasible, timed out, shutdown, done), afterwards no start or stop request and no pending switch remains for the realtime loop, so no later cycle and no later request acts on it.',
  ['inputs', 'histories', 'schedules'], 'every exit of a switch request', 'Tests look at the answer, not at leftovers of each failing exit.',
  [CMC], [('clearing of requests on every exit of switchController', CMC)],
  tech=BASE + '; plus an exit rule: on every exit the request lists are empty and the flag is false or was consumed')
p('C07', 'Every realtime cycle updates every controller once and then handles the switch',
  'In each cycle every controller of the current list gets exactly one update request with the cycle time and period, in list order; if reset is requested and the cycle asks for it, each running controller is stopped and started first. A pending switch is handled once, after the updates.',
  ['inputs', 'histories', 'schedules'], 'every list, state, reset flag and pending switch', 'Tests never inspect the order and count of calls for arbitrary lists.',
  [CMC], [('update', CMC)])
p('C08', 'A switch in the realtime loop: hardware first, then stops, then starts',
  'The hardware switch is performed exactly once per requested switch and before any controller is stopped, started, aborted or kept waiting; running controllers to be stopped are stopped before anything is started. Once the hardware reports done all start entries are started; on an error, or when a positive timeout is exceeded, all are aborted; otherwise all are kept waiting and the switch stays pending.',
  ['histories', 'schedules', 'inputs'], 'every sequence of hardware answers over any number of cycles, every timeout', 'Tests use hardware that is immediately done.',
  [CMC], [('manageSwitch, stopControllers, startControllers', CMC)])
p('C09', 'With start-asap each controller starts as soon as its own hardware is ready',
  'With the asap option, every controller of the start list that is not yet running is started when the hardware reports done for it, aborted when the hardware reports an error for it or a positive timeout is exceeded, and kept waiting otherwise. The switch is over exactly when every entry is running or aborted.',
  ['histories', 'inputs'], 'every sequence of per-controller hardware answers', 'No test drives per-controller answers.',
  [CMC], [('startControllersAsap', CMC)])
p('C10', 'The realtime cycle never blocks',
  'Nothing reachable from a realtime cycle of the manager, the hardware read/write/switch hooks, or the transmission and limit enforcement acquires a lock that a service holds, sleeps, waits, performs ROS communication or parameter access, or throws an allocation of plugins.',
  ['schedules', 'inputs'], 'every call path from a realtime entry point', 'A test cannot observe the absence of blocking on every path.',
  [CMC, CB + 'controller_base.h'], [('update, manageSwitch and everything they call', CMC)],
  tech='call-graph reachability over the type-checked program (virtual calls resolved to every override in the repository) from the realtime entry points to a list of blocking operations', note='User plugin code behind the virtual calls is outside the tree.')
p('C11', 'Shared manager state is only touched under its lock, locks in one order',
  'Every access from a service or API call to the loaded controllers or the pending switch happens while the controllers lock is held, every service holds the services lock for its whole duration, and the two locks are always taken in the same order, so no deadlock is possible between any calls.',
  ['schedules', 'programs'], 'every interleaving of concurrent API and service calls', 'Races and deadlocks depend on the schedule; tests are single-client.',
  [CMC], [('lock guards in controller_manager.cpp', CMC)], tech='lock-set and lock-order analysis over the resolved call graph and guard scopes')
p('C12', 'Services report what really happened and what is really loaded',
  'Load, unload and switch services pass their request unchanged and answer with the result of the operation; listing controllers gives one entry per loaded controller, in order, with its name, type, every claimed resource and its actual state; listing types gives every declared class of every loader with its base class.',
  ['inputs', 'histories'], 'every manager state and request', 'Tests list a few states only.',
  [CMC], [('*Srv functions', CMC)])
p('C13', 'Libraries are reloaded only when no controller is left',
  'A reload request is refused when controllers are loaded and killing was not requested; when it was, all are stopped with best effort and each is unloaded, any failure refuses the reload. Only when nothing is loaded any more every plugin loader is reloaded, and the answer is positive exactly then.',
  ['inputs', 'histories', 'fault_sequences'], 'every loaded set, flag and failure of the steps', 'Tests cover two flags on a fixed set; failing intermediate steps are not reachable in them.',
  [CMC, 'controller_manager/include/controller_manager/controller_loader.h'], [('reloadControllerLibrariesSrv', CMC), ('reload', 'controller_manager/include/controller_manager/controller_loader.h')])
p('C14', 'A new manager is empty, consistent and reachable',
  'After construction the manager has no controllers, no pending switch, the realtime loop and the services agree on the list in use, the default plugin loader is registered, and each of the six services is advertised under its documented name with its own handler.',
  ['configurations'], 'every hardware and node handle given', 'Tests never check the binding of each service name to its handler.',
  [CMC, CMH], [('constructor', CMC)])
p('C20', 'Controller lifecycle',
  'A controller that was never initialised can neither be started, stopped, made waiting nor aborted: the request answers false, runs no callback and changes nothing. Otherwise each request runs exactly its own callback with the given time, then enters exactly its own state and answers true; updates run the update callback exactly when the controller is running. Exactly one of the state queries is true in every state after construction.',
  ['histories', 'inputs'], 'every state and every sequence of requests', 'Tests check a few sequences.',
  [CB + 'controller_base.h'], [('*Request and is* functions', CB + 'controller_base.h')], state=[('lifecycle state', 'constructed, initialised, running, stopped, waiting, aborted', CB + 'controller_base.h')])
p('C21', 'Initialising a single-interface controller claims exactly what it used',
  'Initialisation fails unless the controller is freshly constructed, the hardware offers its interface, and both of its init callbacks succeed, and on failure the controller stays uninitialised. On success it becomes initialised and the reported claims are exactly the interface type and the resources it claimed during its initialisation, with claims cleared before and after.',
  ['inputs', 'histories'], 'every state, hardware and result of the callbacks', 'Tests use fixed hardware; leftovers of former initialisations are not enumerated.',
  [CB + 'controller.h'], [('initRequest', CB + 'controller.h')])
p('C22', 'Initialising a multi-interface controller claims exactly what it used',
  'Initialisation fails unless the controller is freshly constructed, all required interfaces exist in the hardware (optional ones may be missing when that was allowed) and its init callbacks succeed. The controller sees a hardware view with exactly the available interfaces of its types, and the reported claims are, per interface type, exactly the resources claimed by this initialisation.',
  ['inputs', 'configurations'], 'every subset of available interfaces, for every interface list', 'Tests instantiate two interface lists.',
  [CB + 'multi_interface_controller.h', CB + 'internal/robothw_interfaces.h'], [('initRequest', CB + 'multi_interface_controller.h'), ('interface helpers', CB + 'internal/robothw_interfaces.h')])
p('H01', 'Getting a handle records a claim exactly for exclusive interfaces',
  'Getting a handle by name from an exclusive (command) interface records a claim on that resource, and from a read-only (state, sensor) interface records none; which interface types are exclusive is fixed. Recorded claims are exactly the distinct names claimed since the last clearing.',
  ['inputs', 'histories', 'programs'], 'every interface type and sequence of lookups', 'Tests check claims for two interface types.',
  [HI + 'hardware_interface.h', HI + 'internal/hardware_resource_manager.h'], [('claim policies', HI + 'internal/hardware_resource_manager.h'), ('claims set', HI + 'hardware_interface.h')],
  tech=BASE + '; plus a type-level rule on the policy argument of every interface class')
p('H02', 'A handle registry returns what was registered last under that name',
  'Registering a handle makes it the one returned for its name, replacing an earlier one of the same name; looking up an unknown name fails with an error naming it; listing gives each registered name once; merging registries gives the union.',
  ['inputs', 'histories'], 'every sequence of registrations and lookups', 'Tests register two or three names.',
  [HI + 'internal/resource_manager.h'], [('ResourceManager', HI + 'internal/resource_manager.h')])
p('H03', 'Handles read and write exactly the data they were built with',
  'Every state, command and sensor handle keeps its name, reads exactly the data location of its own quantity and, for command handles, writes exactly the command location given at construction. Construction with a missing data location is rejected with an error; a default-constructed handle refers to nothing.',
  ['inputs', 'programs'], 'every handle type, argument and value', 'Tests check a few handle types with one set of values; swapped data in other types goes unnoticed.',
  [HI + f for f in ('joint_state_interface.h', 'joint_command_interface.h', 'actuator_state_interface.h', 'actuator_command_interface.h', 'imu_sensor_interface.h', 'force_torque_sensor_interface.h')], [('constructors and accessors of the handles', HI + 'joint_state_interface.h')])
p('H04', 'Interface lookup finds what is registered and combines what is spread',
  'Looking up an interface by type gives nothing if none is registered, the registered one if there is exactly one, and otherwise one interface holding the handles of all of them, also across nested hardware. Listing of interface types and of the resources of a type covers exactly what is registered, directly or nested.',
  ['inputs', 'histories', 'configurations'], 'every nesting of interface managers and order of registrations', 'Tests use two levels and two interfaces.',
  [HI + 'internal/interface_manager.h'], [('InterfaceManager', HI + 'internal/interface_manager.h')])
p('H05', 'Conflict check: a resource claimed twice is a conflict, otherwise none',
  'The default conflict check reports a conflict exactly when some resource name is claimed at least twice among the given controllers, regardless of the interface type through which it is claimed and the order of controllers.',
  ['inputs'], 'every list of controllers with every list of claims', 'Tests cover three or four combinations.',
  [HI + 'robot_hw.h'], [('checkForConflict', HI + 'robot_hw.h')])
p('H06', 'Combined hardware passes a switch to every sub-hardware that is concerned',
  'Preparing and performing a switch on combined hardware reaches every sub-hardware with exactly the controllers, interfaces and resources that belong to it, keeping names and types; preparing fails at the first that refuses. The combined switch result is error if any fails, done if all are done, otherwise ongoing.',
  ['inputs', 'configurations', 'histories'], 'every set of sub-hardware, its resources and answers', 'Tests use four fixed robots.',
  [CR, HI + 'robot_hw.h'], [('prepareSwitch, doSwitch, switchResult, filterControllerList', CR)])
p('H07', 'Combined hardware loads all of its parts or fails, and cycles each of them',
  'Initialisation succeeds exactly when the list parameter exists and every named part is created and initialises, any exception counting as failure; every part that initialised is kept and its interfaces are offered. Reading and writing reach every part once, in order, with the given time and period.',
  ['inputs', 'configurations', 'fault_sequences'], 'every configuration and plugin result', 'Tests load fixed plugins that either work or fail in one way.',
  [CR], [('init, loadRobotHW, read, write', CR)])
p('H08', 'Multi-value and mode command handles keep their values apart',
  'Handles that command several values at once store each value in its own location, read each back from its own location, reject missing locations at construction, and setting all at once equals setting each. Mode handles map modes to their documented names and reject missing locations.',
  ['inputs'], 'every value and handle type', 'Hardly any tests exist for these handles.',
  [HI + f for f in ('joint_mode_interface.h', 'posvel_command_interface.h', 'posvelacc_command_interface.h', 'position_velocity_torque_gains_command_interface.h')], [('handle classes', HI + 'posvel_command_interface.h')])
p('J01', 'Position saturation keeps commands inside limits and reachable',
  'After enforcement a position command lies within the position limits and no further from the previous command than the maximum velocity allows in the period; inside both it is unchanged. Limits that do not apply are not enforced, and the first use after a reset starts from the measured position.',
  ['inputs', 'histories'], 'every command, limits, period and state', 'Tests sample a few commands.',
  [JL + 'joint_limits_interface.h'], [('PositionJointSaturationHandle', JL + 'joint_limits_interface.h')])
p('J02', 'Soft position limits bound the command by the soft velocity window',
  'The enforced position command lies in the window allowed by the velocity bounds that shrink linearly towards the soft limits, saturated at the maximum velocity, and inside the hard position limits; commands inside are unchanged. Construction without velocity limits is rejected and the first use after a reset starts from the measured position.',
  ['inputs', 'histories'], 'every command, limits, gain, period and state', 'Tests sample a few commands.',
  [JL + 'joint_limits_interface.h'], [('PositionJointSoftLimitsHandle', JL + 'joint_limits_interface.h')])
p('J03', 'Velocity commands obey velocity, acceleration and soft limits',
  'After enforcement a velocity command lies within the maximum velocity and, where acceleration limits exist, no further from the previous command (with soft limits: from the measured velocity) than they allow in the period; with soft limits and position limits it also lies in the window allowed by the distance to the soft position limits. Commands inside are unchanged. Plain saturation without velocity limits is rejected at construction.',
  ['inputs', 'histories'], 'every command, limits, period and state', 'Tests sample a few commands.',
  [JL + 'joint_limits_interface.h'], [('VelocityJointSaturationHandle, VelocityJointSoftLimitsHandle', JL + 'joint_limits_interface.h')])
p('J04', 'Effort commands obey effort limits and never push out of the limits',
  'After enforcement an effort command lies within the maximum effort, does not push further out at or beyond a position limit and does not accelerate further beyond the velocity limit; with soft limits the bounds shrink with the distance of the velocity from the soft velocity window. Construction without the required effort and velocity limits is rejected.',
  ['inputs', 'histories'], 'every command, state and limits', 'Tests sample a few commands.',
  [JL + 'joint_limits_interface.h'], [('EffortJointSaturationHandle, EffortJointSoftLimitsHandle', JL + 'joint_limits_interface.h')])
p('J05', 'Limits from the robot description',
  'Limits read from a robot description are exactly those the joint has: position limits for revolute and prismatic joints, wrap-around and no position limits for continuous ones, velocity and effort as given, no acceleration limits; soft limits exactly when the joint has a safety controller. Anything else reports that there are none and leaves the output untouched.',
  ['inputs'], 'every joint description', 'Tests cover one joint of a few types.',
  [JL + 'joint_limits_urdf.h', JL + 'joint_limits.h'], [('getJointLimits, getSoftJointLimits', JL + 'joint_limits_urdf.h')])
p('J06', 'Limits from parameters override exactly what they specify',
  'Limits read from parameters change exactly the fields whose enabling flag is present and whose values are complete; disabling flags disable them; fields not mentioned keep their value. Soft limits are read, and reported as read, only when enabled and all of their values are present. Limits nobody filled in specify nothing: every flag is off and every value zero.',
  ['inputs'], 'every parameter-server content and prior limits', 'Tests cover a dozen parameter files.',
  [JL + 'joint_limits_rosparam.h'], [('getJointLimits, getSoftJointLimits', JL + 'joint_limits_rosparam.h')])
p('J07', 'Limit interfaces enforce every registered joint',
  'One enforcement of a limits interface enforces every registered handle exactly once with the given period, and one reset resets every registered handle.',
  ['inputs', 'histories'], 'every set of registered handles', 'Tests register two handles.',
  [JL + 'joint_limits_interface.h'], [('JointLimitsInterface and derived', JL + 'joint_limits_interface.h')])
p('T01', 'Transmission maps are inverse to each other',
  'For every transmission type and every admissible set of reductions and offsets, mapping effort, velocity or position from actuators to joints and back, or from joints to actuators and back, gives the original values.',
  ['inputs', 'configurations'], 'all real parameters and values', 'Tests check sampled numbers with a tolerance.',
  [TI + f for f in ('simple_transmission.h', 'differential_transmission.h', 'four_bar_linkage_transmission.h')], [('actuatorToJoint*/jointToActuator*', TI + 'simple_transmission.h')],
  tech='symbolic composition by abstract evaluation: each map is extracted from the source as rational functions of its inputs and parameters, composed with its opposite, and reduced to the identity in a canonical polynomial normal form', note='Real arithmetic.')
p('T02', 'Transmission maps follow the documented formulas',
  'Each map computes exactly the formula documented for its transmission type, for every number of elements it accepts, writes only its outputs and rejects data of the wrong size or missing by assertion.',
  ['inputs', 'configurations'], 'all parameters, values and data sizes', 'Tests check sampled numbers.',
  [TI + f for f in ('simple_transmission.h', 'differential_transmission.h', 'four_bar_linkage_transmission.h')], [('map functions', TI + 'simple_transmission.h')])
p('T03', 'Absolute encoder and torque sensor maps agree with the main maps',
  'For every transmission that supports absolute encoders or torque sensors, the absolute position map equals the position map of joints and the torque sensor map equals the effort map, and a transmission reports support exactly if it implements the map.',
  ['inputs', 'configurations'], 'all parameters and values', 'No test compares the sensor maps for all types.',
  [TI + f for f in ('transmission.h', 'simple_transmission.h', 'differential_transmission.h', 'four_bar_linkage_transmission.h')], [('actuatorToJointAbsolutePosition, actuatorToJointTorqueSensor', TI + 'transmission.h')],
  tech=BASE + '; plus a rule comparing each sensor map with the main map of the same class')
p('T04', 'Singular or ill-sized transmissions cannot be constructed',
  'Constructing a transmission with a zero reduction where that makes a map singular, or with parameter vectors of the wrong size, is rejected with an error; every other construction succeeds and keeps the parameters. Numbers of actuators and joints and the parameter queries are as constructed.',
  ['inputs', 'configurations'], 'all parameters', 'Tests try a few zero combinations.',
  [TI + f for f in ('simple_transmission.h', 'differential_transmission.h', 'four_bar_linkage_transmission.h')], [('constructors', TI + 'simple_transmission.h')],
  tech=BASE + '; plus a rule that every divisor occurring in a map is excluded from zero by the constructor')
p('T05', 'Transmission handles accept exactly complete data of matching size',
  'Building a handle for a transmission succeeds exactly when the transmission exists, the data it needs has the number of actuators and joints of the transmission, and no data location is missing; otherwise it is rejected with an error.',
  ['inputs'], 'all combinations of given, missing and ill-sized data', 'Tests check the cases of one or two handle types.',
  [TI + 'transmission_interface.h'], [('handle constructors', TI + 'transmission_interface.h')])
p('T06', 'Propagating a handle applies exactly the map of its kind',
  'Propagating a handle applies exactly the map of the direction and quantities of its type to its own actuator and joint data; state handles map effort, velocity and position always and absolute position and torque sensor exactly when the transmission supports them and data was given.',
  ['inputs', 'programs'], 'every handle type and data', 'Tests propagate one or two handle types.',
  [TI + 'transmission_interface.h'], [('propagate', TI + 'transmission_interface.h')])
p('T07', 'Propagating an interface propagates every handle once',
  'Propagating a transmission interface propagates every registered handle exactly once, whatever was registered and replaced before.',
  ['inputs', 'histories'], 'every set of handles', 'Tests use two handles.',
  [TI + 'transmission_interface.h'], [('TransmissionInterface::propagate', TI + 'transmission_interface.h')])
p('T08', 'The parser takes complete transmissions and rejects broken documents',
  'Parsing succeeds exactly for documents with a root element and yields, in order, every transmission that has a name, a type, and complete joints and actuators with their roles, interfaces and raw element text; incomplete ones are skipped. Nothing from one transmission leaks into another.',
  ['inputs'], 'every document', 'Tests parse ten fixed files.',
  [TS + 'transmission_parser.cpp'], [('TransmissionParser', TS + 'transmission_parser.cpp')])
p('T09', 'Transmission loaders build the transmission that was described',
  'A loader builds a transmission exactly when the description has the required number of actuators and joints, valid roles and readable non-singular parameters, and then with exactly the described parameters in the order of the roles; anything missing or malformed gives no transmission and no exception.',
  ['inputs'], 'every description', 'Tests load a few valid and invalid files.',
  [TS + f for f in ('simple_transmission_loader.cpp', 'differential_transmission_loader.cpp', 'four_bar_linkage_transmission_loader.cpp', 'transmission_loader.cpp')] + [TI + 'transmission_loader.h'], [('load functions', TS + 'simple_transmission_loader.cpp'), ('role and parameter helpers', TS + 'transmission_loader.cpp')])
p('T10', 'Registering a transmission connects each joint to its own data',
  'Registering a transmission for an interface connects each joint and actuator to the raw data of the same name, offers a joint handle per joint whose state and command locations are those the transmission reads or writes, and fails without registering when an actuator interface or handle is missing.',
  ['inputs', 'configurations'], 'every transmission description, interface type and robot', 'Tests load three fixed robots.',
  [TS + f for f in ('joint_state_interface_provider.cpp', 'effort_joint_interface_provider.cpp', 'position_joint_interface_provider.cpp', 'velocity_joint_interface_provider.cpp', 'bidirectional_effort_joint_interface_provider.cpp')], [('providers', TS + 'joint_state_interface_provider.cpp')])
p('T11', 'Loading transmissions reports success exactly if all was loaded and registered',
  'Loading a list of transmissions succeeds exactly if every one has joints and actuators with hardware interfaces that all agree, is built by its loader, and is registered by the provider of at least one hardware interface of its joints; on any failure the call reports it. Every registered transmission is kept alive.',
  ['inputs', 'configurations', 'fault_sequences'], 'every list of descriptions and plugin result', 'Tests load fixed files.',
  [TS + 'transmission_interface_loader.cpp', TI + 'transmission_interface_loader.h'], [('TransmissionInterfaceLoader', TS + 'transmission_interface_loader.cpp')])
exec(open(os.path.join(V, 'tool', 'genmeta_extra.py')).read()) if os.path.exists(os.path.join(V, 'tool', 'genmeta_extra.py')) else None

NOTE = 'Sound up to the stated assumptions (stub ROS headers, opaque plugins, real arithmetic); constructs the evaluator cannot normalise are reported as undecided in the evidence, never as violations.'
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for q in P:
        a = {'files': q['files'], 'mechanism': [{'name': n, 'where': w} for n, w in q['mech']]}
        if q['state']: a['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in q['state']]
        f.write(json.dumps({'id': q['id'], 'title': q['title'], 'statement': q['statement'], 'quantifier': {'over': q['over'], 'text': q['text']}, 'why_tests_cant': q['why'], 'anchors': a}) + '\n')
json.dump({'version': 1, 'setup_cmd': './setup.sh',
  'checks': [{'property': q['id'], 'quick_cmd': './check %s' % q['id'], 'thorough_cmd': './check %s --thorough' % q['id'], 'technique': q['tech'] or BASE + '; any observable difference is a violation at the source location that produces it', 'level': 'other', 'level_note': q['note'] or NOTE} for q in P if not q['na']],
  'not_applicable': [{'property': q['id'], 'reason': q['na']} for q in P if q['na']],
  'notes': 'Static analysis of the current source of /repo on every run; see DESIGN.md.'}, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
import sys; sys.path.insert(0, V); sys.setrecursionlimit(20000)
from sa import props
d = open(os.path.join(V, 'DESIGN.md')).read()
a, b = '<!-- props -->', '<!-- /props -->'
rows = ['| id | property | what is compared or ruled |', '|---|---|---|']
for q in P:
    if q['na']: rows.append('| %s | %s | not applicable: %s |' % (q['id'], q['title'], q['na'])); continue
    o = props.PROPS[q['id']]
    rl = [getattr(x, 'fn', None).__name__ for x in o.obl if type(x).__name__ == 'Rule']
    rows.append('| %s | %s | %s%s |' % (q['id'], q['title'], o.rule, ('; rules: ' + ', '.join(rl)) if rl else ''))
d = d[:d.index(a) + len(a)] + '\n' + '\n'.join(rows) + '\n' + d[d.index(b):]
open(os.path.join(V, 'DESIGN.md'), 'w').write(d)
