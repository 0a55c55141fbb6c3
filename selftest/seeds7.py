def _ns(f):
    ns = {}; exec(open('/verif/selftest/' + f).read(), ns); return ns
_2 = _ns('seeds2.py'); _4 = _ns('seeds4.py')
CI = _2['CI']; L = _4['L']; X = _4['X']; CIF = _2['CIF']; MI = _2['MI']; MII = _2['MII']; TS = _4['TS']
SEEDS = {}
def S(id, property, needs, breaks, edits, demo, kind='ci', **k): SEEDS[id] = dict(property=property, needs=needs, breaks=breaks, edits=edits, demo=demo, kind=kind, **k)
S('c21_clear_early', 'C21', 'a controller that claims a resource while it is initialised',
  'claims are cleared before they are reported, so no controller ever claims anything',
  [(CIF + 'controller.h', '''    claimed_resources.assign(1, iface_res);
    hw->clearClaims();
''', '''    claimed_resources.assign(1, iface_res);
'''), (CIF + 'controller.h', '''    hardware_interface::InterfaceResources iface_res(''', '''    hw->clearClaims();
    hardware_interface::InterfaceResources iface_res(''')],
  CI + '''int main() { Bot b; CR r; C1 c; c.j={"a"}; CHECK(ini(c,b,r)); CHECK(r.size()==1 && r[0].resources.size()==1); return fails; }
''')
S('c21_keep_claims', 'C21', 'reading the claims of the interface after a controller with one claim was initialised',
  'a single claim stays on the interface after initialisation',
  [(CIF + 'controller.h', '''    claimed_resources.assign(1, iface_res);
    hw->clearClaims();
''', '''    claimed_resources.assign(1, iface_res);
    if (hw->getClaims().size() > 1)
      hw->clearClaims();
''')],
  CI + '''int main() { Bot b; CR r; C1 c; c.j={"a"}; CHECK(ini(c,b,r)); CHECK(b.pj.getClaims().empty()); return fails; }
''')
S('c22_clear_early', 'C22', 'a multi-interface controller that claims resources while it is initialised',
  'claims are cleared before they are collected',
  [(MI, '''    clearClaims(robot_hw_ctrl_p);
    // NOTE''', '''    // NOTE'''), (MI, '''    claimed_resources.clear();
    populate''', '''    claimed_resources.clear();
    clearClaims(robot_hw_ctrl_p);
    populate''')],
  CI + '''int main() { Bot b; CR r; C2<PositionJointInterface, VelocityJointInterface> c; CHECK(ini(c,b,r)); CHECK(r.size()==2 && r[0].resources.size()==1 && r[1].resources.size()==1); return fails; }
''')
S('c22_default_optional', 'C22', 'a controller that does not say whether its interfaces are optional, on a robot that lacks one',
  'the interfaces of a controller are optional unless it says otherwise',
  [(MI, 'MultiInterfaceController(bool allow_optional_interfaces = false)', 'MultiInterfaceController(bool allow_optional_interfaces = true)')],
  CI + '''struct C5 : MultiInterfaceController<PositionJointInterface, VelocityJointInterface> { void update(const ros::Time&, const ros::Duration&) override {} };
int main() { Bot b(false), full; CR r; C5 c; CHECK(!ini(c,b,r)); CHECK(!c.isInitialized()); C5 d; CHECK(ini(d,full,r)); return fails; }
''')
S('t09_ignore_second', 'T09', 'a differential of which only the second joint asks to ignore the transmission for absolute encoders',
  'only the second joint decides whether the transmission is ignored for absolute encoders',
  [(TS + 'differential_transmission_loader.cpp', '''  ignore_transmission_for_absolute_encoders = true;
  for (unsigned int i = 0; i < 2; ++i)''', '''  ignore_transmission_for_absolute_encoders = true;
  for (unsigned int i = 1; i < 2; ++i)''')],
  L + X + '''int main() { std::vector<TransmissionInfo> v; CHECK(parse(tr("t", jt("b", role("joint1")) + jt("a", role("joint2") + "<ignoreTransmissionAbsoluteEncoder/>") + ac("m", role("actuator1") + red("10")) + ac("n", role("actuator2") + red("20"))), v));
  DifferentialTransmissionLoader l; auto t = l.load(v[0]); CHECK(t != nullptr); double a[2] = {10, 20}, j[2] = {0, 0}; ActuatorData A; JointData J; A.absolute_position = {&a[0], &a[1]}; J.absolute_position = {&j[0], &j[1]}; t->actuatorToJointAbsolutePosition(A, J); CHECK(near(j[0], 1) && near(j[1], 0)); return fails; }
''', kind='til')
JLH = 'joint_limits_interface/include/joint_limits_interface/joint_limits.h'
S('j06_default_acc', 'J06', 'limits of a joint whose parameters say nothing about acceleration, in a velocity saturation handle',
  'limits nobody filled in claim to limit the acceleration (to zero)',
  [(JLH, '  bool   has_acceleration_limits = {false};', '  bool   has_acceleration_limits = {true};')],
  _ns('seeds3.py').get('JR', '') + '''#include <cstdio>
#include <joint_limits_interface/joint_limits.h>
int main() { joint_limits_interface::JointLimits l; joint_limits_interface::SoftJointLimits s; bool ok = !l.has_position_limits && !l.has_velocity_limits && !l.has_acceleration_limits && !l.has_jerk_limits && !l.has_effort_limits && !l.angle_wraparound && l.max_acceleration == 0.0 && s.k_velocity == 0.0; if (!ok) puts("limits from nowhere"); return !ok; }
''', kind='jl')
