"""The property table: which obligations decide each property."""
from .engine import Fn, Rule, Prop, REQ, CM, VOL, CB
from . import crules as R

CMO = dict(opaque=REQ, volatile=VOL)
API = (CM + 'loadController', CM + 'unloadController', CM + 'switchController', CM + 'getControllerNames', CM + 'getControllerByName')
PAY = {'do_switch': ['start_request_', 'stop_request_', 'switch_start_list_', 'switch_stop_list_']}
PAYP = {'do_switch': ['start_request_', 'stop_request_', 'switch_start_list_', 'switch_stop_list_', ]}
HW = r'hardware_interface::'
IM = HW + 'InterfaceManager::'
RM = HW + r'(ResourceManager|HardwareResourceManager)::'
TI = r'transmission_interface::'
JL = r'joint_limits_interface::'
MGR = (HW + 'InterfaceManager::get', HW + 'InterfaceManager::registerInterface', HW + 'ResourceManager::registerHandle', HW + 'ResourceManager::getHandle', HW + 'ResourceManager::getNames', HW + 'HardwareResourceManager::getHandle')
PROV = tuple('transmission_interface::%sInterfaceProvider::registerTransmission' % x for x in ('JointState', 'EffortJoint', 'PositionJoint', 'VelocityJoint', 'BiDirectionalEffortJoint', 'BiDirectionalPositionJoint', 'BiDirectionalVelocityJoint'))
HND = tuple('transmission_interface::%sHandle::%sHandle' % (x, x) for x in ['Transmission'] + [d + k for d in ('ActuatorToJoint', 'JointToActuator') for k in ('State', 'Position', 'Velocity', 'Effort')])
JH = tuple('hardware_interface::%sHandle::%sHandle' % (x, x) for x in ('JointState', 'Joint', 'ActuatorState', 'Actuator'))
# implementation building blocks handle types use in the loaders
LOADER = dict(opaque=('transmission_interface::TransmissionLoader::getActuatorReduction', 'transmission_interface::TransmissionLoader::getJointReduction', 'transmission_interface::TransmissionLoader::getJointOffset',
                      'transmission_interface::TransmissionLoader::getActuatorRole', 'transmission_interface::TransmissionLoader::getJointRole',
                      'transmission_interface::SimpleTransmission::SimpleTransmission', 'transmission_interface::DifferentialTransmission::DifferentialTransmission', 'transmission_interface::FourBarLinkageTransmission::FourBarLinkageTransmission'))
PARSE = ('transmission_interface::TransmissionParser::parse',)
CI = r'controller_interface::'
COMB = r'combined_robot_hw::CombinedRobotHW::'

ASSUME = ['the stub ROS, URDF and pluginlib headers in /verif/stubs declare the interfaces the code uses',
          'calls into ROS, pluginlib and user plugins are opaque: any result is possible, they do not modify the manager',
          'floating-point values are treated as reals (no NaN, no rounding)',
          'constructs the evaluator cannot normalise are undecided and never reported']
PROPS = {}
def P(id, obl, rule, **k): PROPS[id] = Prop(id, obl, rule, **k)

# ---------------------------------------------------------------- controller manager
P('C01', [Fn(CM + 'loadController', obs=('ret', 'curlist', 'calls', 'completes'), calls=r'createInstance|initRequest', **CMO),
          Fn(CM + 'getControllerByName', obs=('ret', 'env'), **CMO), Fn(CM + 'getControllerNames', obs=('env',), via=(Fn(CM + 'reloadControllerLibrariesSrv', **CMO),), **CMO),
          Fn(CM + 'registerControllerLoader', **CMO), Fn('controller_manager::ControllerLoader::.*'),
          Fn('controller_manager::ControllerSpec::.*')],
  'result, resulting current list, and the instances created and initialised by a load')
P('C02', [Fn(CM + 'unloadController', obs=('ret', 'curlist', 'calls', 'completes'), **CMO)],
  'result and resulting current list of an unload')
P('C03', [Fn(CM + '(loadController|unloadController)', obs=('env', 'completes'), env=r'current_controllers_list_|used_by_realtime_', **CMO),
          Fn(CM + 'update', obs=('env',), env=r'used_by_realtime_|controllers_lists_|current_controllers_list_', n=3, opaque=REQ, volatile=('do_switch',)),
          Rule(R.double_buffer)],
  'no instance list is modified while the realtime loop may read it; the realtime loop reads the list it announced')
P('C04', [Fn(CM + 'switchController', obs=('ret', 'publish', 'calls', 'completes'), calls=r'checkForConflict|prepareSwitch', publish=PAY, n=5, **CMO), Rule(R.switch_defaults)],
  'verdict and published payload of a switch for every request, controller state and strictness')
P('C05', [Fn(CM + 'switchController', obs=('calls', 'publish'), calls=r'checkForConflict|prepareSwitch', publish=PAY, n=5, **CMO), Rule(R.switch_gate)],
  'a switch is handed to the realtime loop only when checkForConflict and prepareSwitch accepted the very lists')
P('C06', [Fn(CM + 'switchController', obs=('env',), env=r'start_request_|stop_request_|switch_params_', n=5, **CMO), Rule(R.switch_residue)],
  'final request lists and switch flag on every exit of a switch')
P('C07', [Fn(CM + 'update', obs=('calls', 'env', 'completes', 'writes'), calls=r'ControllerBase::', n=3, **CMO), Rule(R.rt_cycle)],
  'requests issued to every controller by a realtime cycle, and their order')
UPD = lambda **k: Fn(CM + 'update', obs=('calls', 'env', 'completes', 'writes'), n=3, **dict(CMO, **k))
SWORD = [(r'^call .*doSwitch', r'^call .*(stop|start|abort|wait)Request'), (r'^call .*stopRequest', r'^call .*(start|abort|wait)Request')]
P('C08', [Fn(CM + 'manageSwitch', via=(UPD(order=SWORD),), obs=('calls', 'env', 'completes', 'writes'), order=SWORD, **CMO),
          Fn(CM + '(stopControllers|startControllers)', via=(UPD(),), obs=('calls', 'env', 'completes', 'writes'), **CMO)],
  'hardware switch first and once, then all stops, then starts/aborts/waits as the hardware reports')
P('C09', [Fn(CM + 'startControllersAsap', via=(UPD(),), obs=('calls', 'env', 'completes', 'writes'), **CMO)],
  'each controller started as soon as its own hardware is ready')
P('C10', [Rule(R.rt_nonblocking)], 'no blocking, allocating-lock or sleeping operation is reachable from a realtime entry point')
P('C11', [Rule(R.lock_discipline), Rule(R.lock_order)], 'shared state accessed only under its lock; lock order services before controllers')
P('C12', [Fn(CM + '(loadControllerSrv|unloadControllerSrv|switchControllerSrv|listControllerTypesSrv)', opaque=REQ + API, volatile=VOL),
          Fn(CM + 'listControllersSrv', opaque=REQ + API, volatile=VOL)],
  'service responses as a function of the manager state')
P('C13', [Fn(CM + 'reloadControllerLibrariesSrv', opaque=REQ + API, volatile=VOL), Fn('controller_manager::ControllerLoader::reload')],
  'calls, guards and responses of a library reload')
P('C14', [Fn(CM + 'ControllerManager', opaque=REQ + API, volatile=VOL), Fn(CM + 'SwitchParams::SwitchParams')],
  'state after construction, advertised services')
# ---------------------------------------------------------------- controllers
P('C20', [Fn(CI + 'ControllerBase::(startRequest|stopRequest|waitRequest|abortRequest|updateRequest|is[A-Z].*)'), Fn(CI + 'ControllerBase::(starting|stopping|waiting|aborting)')],
  'successor state, callbacks and result of every lifecycle request in every state')
P('C21', [Fn(CI + 'Controller::.*', via=(Fn(CI + 'Controller::initRequest'),))], 'initialisation of a single-interface controller: state, claims, error')
MIC = Fn(CI + 'MultiInterfaceController::(initRequest|hasRequiredInterfaces)', opaque=MGR)
P('C22', [Fn(CI + 'MultiInterfaceController::.*', opaque=MGR, via=(MIC,)), Fn(CI + r'internal::(hasInterfaces?|clearClaims|extractInterfaceResources|populateClaimedResources|populateInterfaceResources|enumerateElements)', opaque=MGR, via=(MIC,))],
  'initialisation of a multi-interface controller: interface availability, exact claims, error')
# ---------------------------------------------------------------- hardware interface
P('H01', [Fn(HW + '(HardwareInterface::.*|ClaimResources::.*|DontClaimResources::.*)'), Fn(HW + 'HardwareResourceManager::getHandle'), Rule(R.claim_policies)],
  'claims recorded by every interface type')
P('H02', [Fn(HW + 'ResourceManager::(registerHandle|getHandle|getNames|concatManagers)')], 'handle registry contents')
P('H03', [Fn(HW + r'(\w+Handle|\w+Handle::Data)::.*'), Fn(HW + 'ImuSensorHandle.*'), Rule(R.default_handles)], 'handles refer to exactly the data they were built with')
P('H04', [Fn(IM + '(get|registerInterface|registerInterfaceManager|getNames|getInterfaceResources)'), Fn(HW + r'internal::.*', skip=r'demangle')], 'interface lookup and combination')
P('H05', [Fn(HW + 'RobotHW::checkForConflict')], 'conflict verdict')
P('H06', [Fn(COMB + '(prepareSwitch|doSwitch|switchResult|filterControllerList)', via=(Fn(COMB + '(prepareSwitch|doSwitch)'),)), Fn(HW + 'RobotHW::(prepareSwitch|doSwitch|switchResult)')], 'switch requests passed to every sub-hardware')
P('H07', [Fn(COMB + '(init|loadRobotHW|read|write|CombinedRobotHW)'), Fn(HW + 'RobotHW::(init|read|write)')], 'loading and cycling of sub-hardware')
P('H08', [Fn(HW + r'(JointModeHandle|PosVel\w*Handle|PositionVelocityTorqueGainsJointHandle)::.*')], 'multi-command handles')
# ---------------------------------------------------------------- joint limits
P('J01', [Fn(JL + 'PositionJointSaturationHandle::.*')], 'position saturation')
P('J02', [Fn(JL + 'PositionJointSoftLimitsHandle::.*')], 'soft position limits')
P('J03', [Fn(JL + 'VelocityJoint(Saturation|SoftLimits)Handle::.*')], 'velocity limits')
P('J04', [Fn(JL + 'EffortJoint(Saturation|SoftLimits)Handle::.*')], 'effort limits')
P('J05', [Fn(JL + '(JointLimits|SoftJointLimits)::.*'), Fn(JL + '(getJointLimits|getSoftJointLimits)', n=2)], 'URDF limits')
P('J06', [Fn(JL + '(getJointLimits|getSoftJointLimits)', n=3), Rule(R.default_limits)], 'parameter-server limits')
# the handles themselves are the subject of J01-J04
ENF = tuple('joint_limits_interface::%sJoint%sHandle::%s' % (a, b, m) for a in ('Position', 'Velocity', 'Effort') for b in ('Saturation', 'SoftLimits') for m in ('enforceLimits', 'reset'))
P('J07', [Fn(JL + r'(JointLimitsInterface|PositionJoint\w+Interface)::.*', opaque=ENF)], 'interfaces enforce and reset every handle')
# ---------------------------------------------------------------- transmissions
TR = TI + r'(Simple|Differential|FourBarLinkage)Transmission::'
P('T01', [Rule(R.inverse_maps)], 'composition of opposite maps is the identity')
P('T02', [Fn(TR + r'(actuatorToJoint|jointToActuator)(Effort|Velocity|Position)')], 'map formulas')
P('T03', [Fn(TR + r'(actuatorToJointAbsolutePosition|actuatorToJointTorqueSensor|has\w+)'), Fn(TI + r'Transmission::.*'), Rule(R.sensor_maps)], 'sensor maps')
P('T04', [Fn(TR + r'(Simple|Differential|FourBarLinkage)Transmission'), Fn(TR + r'(num\w+|get\w+)'), Rule(R.singular_rejected)], 'constructors reject singular parameters')
P('T05', [Fn(TI + r'(Transmission|ActuatorToJoint\w+|JointToActuator\w+)Handle::(\w+Handle|getName)')], 'handle validation')
P('T06', [Fn(TI + r'\w+Handle::propagate')], 'propagate dispatch')
P('T07', [Fn(TI + r'TransmissionInterface::.*'), Fn(HW + 'ResourceManager::(registerHandle|getHandle)', cls='transmission_interface')], 'interface propagates every handle')
P('T08', [Fn(TI + r'TransmissionParser::.*', via=(Fn(TI + 'TransmissionParser::parse'),))], 'parser')
P('T09', [Fn(TI + r'(Simple|Differential|FourBarLinkage)TransmissionLoader::.*', via=(Fn(TI + r'\w+TransmissionLoader::load'),), **LOADER), Fn(TI + r'TransmissionLoader::.*', via=(Fn(TI + r'\w+TransmissionLoader::load'),))], 'transmission loaders')
P('T10', [Fn(TI + r'\w+Provider::registerTransmission', opaque=MGR + PROV + HND), Fn(TI + r'(\w+Provider|RequisiteProvider)::(update|get|has|load)\w+', opaque=MGR + HND + JH, via=(Fn(TI + r'(\w+Provider|RequisiteProvider)::(update|load)\w+', opaque=MGR + HND + JH),))], 'providers')
P('T11', [Fn(TI + r'TransmissionInterfaceLoader::.*', opaque=PARSE + PROV)], 'interface loader')

# ---------------------------------------------------------------- Python tools
CMI = 'controller_manager_interface::'
LIB = tuple(CMI + x for x in ('list_controller_types', 'reload_libraries', 'list_controllers', 'load_controller', 'unload_controller', 'start_controller', 'start_controllers', 'stop_controller', 'stop_controllers', 'start_stop_controllers'))
PY = dict(needs_cpp=False)
P('P01', [Fn('spawner::(main|parse_args)', via=(Fn('spawner::__main__'),)), Fn('spawner::__main__')], 'service requests of the spawner for every command line, name list and service answer', **PY)
P('P02', [Fn('spawner::shutdown', order=[(r'^call .*srv:SwitchController', r'^call .*srv:UnloadController')])], 'what the spawner takes down, in order', **PY)
P('P03', [Fn(CMI + '.*'), Fn('cm_script::.*', opaque=LIB, via=(Fn('cm_script::__main__', opaque=LIB),))], 'service requests and results of the command-line tool and its library', **PY)
P('P04', [Fn('unspawner::.*', via=(Fn('unspawner::__main__'),))], 'what the unspawner stops and restarts', **PY)
P('P05', [Fn('controller_group::.*', opaque=LIB, via=(Fn('controller_group::(__main__|_list_group|_spawn_group|_switch_group)', opaque=LIB),))], 'requests of the group tool', **PY)
P('P06', [Fn('utils::(get_controller_managers|is_controller_manager|_sloppy_get_controller_managers|_srv_exists|Controller(Manager)?Lister::.*)', via=(Fn(r'utils::((get|is)_controller_managers?|Controller(Manager)?Lister::__\w+__)'),))], 'which controller managers and controllers are reported', **PY)
P('P07', [Fn('utils::(_filter_by_attr|filter_by_.*|get_rosparam_controller_names)', via=(Fn(r'utils::(filter_by_.*|get_rosparam_controller_names)'),))], 'what every filter keeps', **PY)
P('P08', [Fn('(rqt|update_combo)::.*', via=(Fn('rqt::ControllerManager::(__init__|_on_.*|_update_.*|restore_settings|save_settings|shutdown_plugin)|update_combo::update_combo'),))], 'service requests and displayed values of the GUI', **PY)
