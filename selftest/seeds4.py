"""Planted bugs: transmissions."""
TI = 'transmission_interface/include/transmission_interface/'; TS = 'transmission_interface/src/'
SEEDS = {}
def S(id, property, needs, breaks, edits, demo, kind='ti', **k): SEEDS[id] = dict(property=property, needs=needs, breaks=breaks, edits=edits, demo=demo, kind=kind, **k)
H = '''#undef NDEBUG
#include <cstdio>
#include <cstdlib>
#include <cmath>
#include <csetjmp>
#include <csignal>
#include <unistd.h>
#include <sys/wait.h>
static int fails = 0;
#define CHECK(c) do { if (!(c)) { std::printf("FAILED line %d: %s\\n", __LINE__, #c); fails = 1; } } while (0)
static bool near(double a, double b) { return std::fabs(a-b) < 1e-9 * (1 + std::fabs(a)); }
template <class F> static bool throws(F f) { try { f(); } catch (const std::exception&) { return true; } return false; }
template <class F> static bool aborts(F f) { pid_t p = fork(); if (p == 0) { close(2); f(); _exit(0); } int s = 0; waitpid(p, &s, 0); return WIFSIGNALED(s); }
'''
T = H + '''#include <transmission_interface/simple_transmission.h>
#include <transmission_interface/differential_transmission.h>
#include <transmission_interface/four_bar_linkage_transmission.h>
#include <transmission_interface/transmission_interface.h>
using namespace transmission_interface;
'''
L = H + '''#include <hardware_interface/robot_hw.h>
#include <hardware_interface/actuator_command_interface.h>
#include <hardware_interface/joint_command_interface.h>
#include <transmission_interface/transmission_interface_loader.h>
#include <transmission_interface/simple_transmission.h>
#include <transmission_interface/differential_transmission.h>
#include <transmission_interface/differential_transmission_loader.h>
#include <transmission_interface/simple_transmission_loader.h>
#include <transmission_interface/transmission_parser.h>
#include <transmission_interface/transmission_interface.h>
#include <transmission_interface/effort_joint_interface_provider.h>
#include <transmission_interface/velocity_joint_interface_provider.h>
using namespace transmission_interface; using namespace hardware_interface;
struct Robot : RobotHW { ActuatorStateInterface as; EffortActuatorInterface ea; VelocityActuatorInterface va; double p[4], v[4], e[4], ec[4], vc[4];
  Robot() { for (int i = 0; i < 4; ++i) { p[i]=v[i]=e[i]=ec[i]=vc[i]=0; ActuatorStateHandle h("a" + std::to_string(i), &p[i], &v[i], &e[i]); as.registerHandle(h); ea.registerHandle(ActuatorHandle(h, &ec[i])); va.registerHandle(ActuatorHandle(h, &vc[i])); }
    registerInterface(&as); registerInterface(&ea); registerInterface(&va); } };
'''
S('t01_dead_zone', 'T01', 'a velocity close to zero',
  'small velocities are mapped to zero in one direction only',
  [(TI + 'simple_transmission.h', '''  *act_data.velocity[0] = *jnt_data.velocity[0] * reduction_;''', '''  const double vel = *jnt_data.velocity[0];
  *act_data.velocity[0] = vel < 1e-4 && vel > -1e-4 ? 0.0 : vel * reduction_;''')],
  T + '''int main() { SimpleTransmission t(10); double a = 0, j = 5e-5; ActuatorData A; JointData J; A.velocity = {&a}; J.velocity = {&j};
  t.jointToActuatorVelocity(J, A); CHECK(near(a, 5e-4)); t.actuatorToJointVelocity(A, J); CHECK(near(j, 5e-5)); return fails; }
''')
S('t01_offset_reduction', 'T01', 'a four-bar linkage with a joint offset and a joint reduction on the second joint',
  'the offset of the second joint is scaled differently in the two directions',
  [(TI + 'four_bar_linkage_transmission.h', '''  double jnt_pos_off[2] = {*jnt_data.position[0] - jnt_offset_[0], *jnt_data.position[1] - jnt_offset_[1]};''', '''  const double off = (jr[1] > 0.0 && jr[1] < 1.0 && ar[1] < 0.0) ? jnt_offset_[1] * jr[1] : jnt_offset_[1];
  double jnt_pos_off[2] = {*jnt_data.position[0] - jnt_offset_[0], *jnt_data.position[1] - off};''')],
  T + '''int main() { FourBarLinkageTransmission t({10, -20}, {2, 0.5}, {1, 3}); double a[2], j[2] = {0.7, 0.2}; ActuatorData A; JointData J; A.position = {&a[0], &a[1]}; J.position = {&j[0], &j[1]};
  t.jointToActuatorPosition(J, A); t.actuatorToJointPosition(A, J); CHECK(near(j[0], 0.7)); CHECK(near(j[1], 0.2)); return fails; }
''')
S('t01_diff_equal', 'T01', 'a differential with equal actuator reductions of opposite sign',
  'the two actuator reductions are treated as one where their squares agree',
  [(TI + 'differential_transmission.h', '''  *act_data.velocity[0] = (*jnt_data.velocity[0] * jr[0] + *jnt_data.velocity[1] * jr[1]) * ar[0];
  *act_data.velocity[1] = (*jnt_data.velocity[0] * jr[0] - *jnt_data.velocity[1] * jr[1]) * ar[1];''', '''  const double v0 = *jnt_data.velocity[0] * jr[0], v1 = *jnt_data.velocity[1] * jr[1];
  const double r1 = ar[0] * ar[0] == ar[1] * ar[1] ? ar[0] : ar[1];
  *act_data.velocity[0] = (v0 + v1) * ar[0];
  *act_data.velocity[1] = (v0 - v1) * r1;''')],
  T + '''int main() { DifferentialTransmission t({10, -10}, {2, 3}); double a[2], j[2] = {0.7, 0.2}; ActuatorData A; JointData J; A.velocity = {&a[0], &a[1]}; J.velocity = {&j[0], &j[1]};
  t.jointToActuatorVelocity(J, A); t.actuatorToJointVelocity(A, J); CHECK(near(j[0], 0.7)); CHECK(near(j[1], 0.2)); return fails; }
''')
S('t02_extra_output', 'T02', 'joint data with room for absolute positions',
  'the position map overwrites the absolute joint position as well',
  [(TI + 'simple_transmission.h', '''  *jnt_data.position[0] = *act_data.position[0] / reduction_ + jnt_offset_;''', '''  *jnt_data.position[0] = *act_data.position[0] / reduction_ + jnt_offset_;
  if (!jnt_data.absolute_position.empty() && act_data.absolute_position.empty()) {*jnt_data.absolute_position[0] = *jnt_data.position[0];}''')],
  T + '''int main() { SimpleTransmission t(10, 1); double a = 20, j = 0, b = 42; ActuatorData A; JointData J; A.position = {&a}; J.position = {&j}; J.absolute_position = {&b};
  t.actuatorToJointPosition(A, J); CHECK(near(j, 3)); CHECK(b == 42); return fails; }
''')
S('t02_wrap', 'T02', 'a joint position of more than a turn',
  'actuator positions are wrapped to one turn of the joint',
  [(TI + 'simple_transmission.h', '''  *act_data.position[0] = (*jnt_data.position[0] - jnt_offset_) * reduction_;''', '''  double pos = *jnt_data.position[0];
  if (pos > 1000.0) {pos -= 2.0 * 3.14159265358979323846;}
  *act_data.position[0] = (pos - jnt_offset_) * reduction_;''')],
  T + '''int main() { SimpleTransmission t(10, 1); double a = 0, j = 1001; ActuatorData A; JointData J; A.position = {&a}; J.position = {&j};
  t.jointToActuatorPosition(J, A); CHECK(near(a, 10000)); return fails; }
''')
S('t03_torque_jr', 'T03', 'a differential with different joint reductions that has torque sensors',
  'the torque sensor of the second joint uses the reduction of the first',
  [(TI + 'differential_transmission.h', '''  *jnt_data.torque_sensor[1] = jr[1] * (*act''', '''  *jnt_data.torque_sensor[1] = jr[0] * (*act''')],
  T + '''int main() { DifferentialTransmission t({10, 20}, {2, 3}); double a[2] = {1, 2}, j[2] = {0, 0}, e[2] = {0, 0}; ActuatorData A; JointData J; A.torque_sensor = A.effort = {&a[0], &a[1]}; J.torque_sensor = {&j[0], &j[1]}; J.effort = {&e[0], &e[1]};
  t.actuatorToJointTorqueSensor(A, J); t.actuatorToJointEffort(A, J); CHECK(near(j[0], e[0])); CHECK(near(j[1], e[1])); return fails; }
''')
S('t03_abs_offset', 'T03', 'a four-bar linkage with absolute encoders and joint offsets',
  'the absolute position of the second joint adds the offset before dividing by the joint reduction',
  [(TI + 'four_bar_linkage_transmission.h', '''  *jnt_data.absolute_position[1] = (*act_data.absolute_position[1] / ar[1] - *act_data.absolute_position[0] / (jr[0] * ar[0])) /
                                    jr[1] + jnt_offset_[1];''', '''  *jnt_data.absolute_position[1] = (*act_data.absolute_position[1] / ar[1] - *act_data.absolute_position[0] / (jr[0] * ar[0]) +
                                    jnt_offset_[1]) / jr[1];''')],
  T + '''int main() { FourBarLinkageTransmission t({10, 20}, {2, 3}, {1, 2}); double a[2] = {1, 2}, j[2] = {0, 0}, e[2] = {0, 0}; ActuatorData A; JointData J; A.absolute_position = A.position = {&a[0], &a[1]}; J.absolute_position = {&j[0], &j[1]}; J.position = {&e[0], &e[1]};
  t.actuatorToJointAbsolutePosition(A, J); t.actuatorToJointPosition(A, J); CHECK(near(j[0], e[0])); CHECK(near(j[1], e[1])); return fails; }
''')
S('t03_has_torque', 'T03', 'asking a simple transmission for torque sensor support',
  'a transmission that maps torque sensors says it does not',
  [(TI + 'simple_transmission.h', '''  bool hasActuatorToJointTorqueSensor()     const override {return true;}''', '''  bool hasActuatorToJointTorqueSensor()     const override {return jnt_offset_ == 0.0;}''')],
  T + '''int main() { SimpleTransmission t(10, 1); CHECK(t.hasActuatorToJointTorqueSensor()); CHECK(t.hasActuatorToJointAbsolutePosition()); return fails; }
''')
S('t04_offset_long', 'T04', 'constructing a differential with three joint offsets',
  'offset vectors that are too long are accepted',
  [(TI + 'differential_transmission.h', '''      numJoints()    != jnt_reduction_.size() ||
      numJoints()    != jnt_offset_.size())''', '''      numJoints()    != jnt_reduction_.size() ||
      numJoints()    > jnt_offset_.size())''')],
  T + '''int main() { CHECK(throws([]{ DifferentialTransmission t({10, 20}, {2, 3}, std::vector<double>{1, 2, 3}); })); CHECK(!throws([]{ DifferentialTransmission t({10, 20}, {2, 3}, std::vector<double>{1, 2}); })); return fails; }
''')
S('t04_four_bar_joint_zero', 'T04', 'a four-bar linkage whose second joint reduction is zero while the first is not one',
  'a singular second joint reduction is accepted',
  [(TI + 'four_bar_linkage_transmission.h', '''      0.0 == jnt_reduction_[0] ||
      0.0 == jnt_reduction_[1])''', '''      0.0 == jnt_reduction_[0] ||
      (0.0 == jnt_reduction_[1] && jnt_offset_[1] == jnt_offset_[0]))''')],
  T + '''int main() { CHECK(throws([]{ FourBarLinkageTransmission t({10, 20}, {2, 0}, {1, 2}); })); CHECK(throws([]{ FourBarLinkageTransmission t({10, 20}, {2, 0}); })); return fails; }
''')
HN = '''struct Tr : Transmission { size_t a, j; bool ab, ts; std::string log; Tr(size_t a, size_t j, bool ab = true, bool ts = true) : a(a), j(j), ab(ab), ts(ts) {}
  void actuatorToJointEffort(const ActuatorData&, JointData&) override { log += "E"; } void actuatorToJointVelocity(const ActuatorData&, JointData&) override { log += "V"; } void actuatorToJointPosition(const ActuatorData&, JointData&) override { log += "P"; }
  void actuatorToJointAbsolutePosition(const ActuatorData&, JointData&) override { log += "A"; } void actuatorToJointTorqueSensor(const ActuatorData&, JointData&) override { log += "T"; }
  bool hasActuatorToJointAbsolutePosition() const override { return ab; } bool hasActuatorToJointTorqueSensor() const override { return ts; }
  void jointToActuatorEffort(const JointData&, ActuatorData&) override { log += "e"; } void jointToActuatorVelocity(const JointData&, ActuatorData&) override { log += "v"; } void jointToActuatorPosition(const JointData&, ActuatorData&) override { log += "p"; }
  size_t numActuators() const override { return a; } size_t numJoints() const override { return j; } };
static double d[4];
'''
S('t05_joint_effort_long', 'T05', 'joint effort data with more entries than the transmission has joints',
  'joint effort data that is too long is accepted',
  [(TI + 'transmission_interface.h', '''joint_data.effort.size() != transmission_->numJoints())''', '''joint_data.effort.size() < transmission_->numJoints())''')],
  T + HN + '''int main() { Tr t(2, 1); ActuatorData A; JointData J; A.effort = {&d[0], &d[1]}; J.effort = {&d[2], &d[3]}; CHECK(throws([&]{ JointToActuatorEffortHandle h("h", &t, A, J); })); J.effort = {&d[2]}; CHECK(!throws([&]{ JointToActuatorEffortHandle h("h", &t, A, J); })); return fails; }
''')
S('t05_dims_swapped', 'T05', 'a transmission with different numbers of actuators and joints',
  'velocity data of actuators is checked against the number of joints',
  [(TI + 'transmission_interface.h', '''actuator_data.velocity.size() != transmission_->numActuators())''', '''actuator_data.velocity.size() != transmission_->numJoints())''')],
  T + HN + '''int main() { Tr t(2, 1); ActuatorData A; JointData J; A.velocity = {&d[0], &d[1]}; J.velocity = {&d[2]}; CHECK(!throws([&]{ JointToActuatorVelocityHandle h("h", &t, A, J); })); A.velocity = {&d[0]}; CHECK(throws([&]{ JointToActuatorVelocityHandle h("h", &t, A, J); })); return fails; }
''')
S('t05_last_pointer', 'T05', 'data of three actuators with the last location missing',
  'only the first two locations are checked for null',
  [(TI + 'transmission_interface.h', '''    for (const auto& ptr : data)
    {
      if (!ptr) {return false;}
    }
    return true;''', '''    if (data.size() > 0 && !data[0]) {return false;}
    if (data.size() > 1 && !data[1]) {return false;}
    return true;''')],
  T + HN + '''int main() { Tr t(3, 1); ActuatorData A; JointData J; A.effort = {&d[0], &d[1], nullptr}; J.effort = {&d[2]}; CHECK(throws([&]{ JointToActuatorEffortHandle h("h", &t, A, J); })); A.effort[2] = &d[3]; CHECK(!throws([&]{ JointToActuatorEffortHandle h("h", &t, A, J); })); return fails; }
''')
S('t06_torque_needs_abs', 'T06', 'a robot with torque sensors and no absolute encoders',
  'torque sensor data is only mapped when there are absolute encoders too',
  [(TI + 'transmission_interface.h', '''    if(!actuator_data_.torque_sensor.empty() && transmission_->hasActuatorToJointTorqueSensor())''', '''    if(actuator_data_.absolute_position.size() >= actuator_data_.torque_sensor.size() && !actuator_data_.torque_sensor.empty() && transmission_->hasActuatorToJointTorqueSensor())''')],
  T + HN + '''int main() { Tr t(1, 1); ActuatorData A; JointData J; A.position = A.velocity = A.effort = A.torque_sensor = {&d[0]}; J.position = J.velocity = J.effort = J.torque_sensor = {&d[1]}; ActuatorToJointStateHandle h("h", &t, A, J); h.propagate(); CHECK(t.log == "PVET"); return fails; }
''')
S('t06_abs_flag', 'T06', 'a transmission that supports torque sensors and not absolute encoders',
  'the absolute position map is applied although the transmission does not support it',
  [(TI + 'transmission_interface.h', '''    if(!actuator_data_.absolute_position.empty() && transmission_->hasActuatorToJointAbsolutePosition())''', '''    if(!actuator_data_.absolute_position.empty() && (transmission_->hasActuatorToJointAbsolutePosition() || !actuator_data_.torque_sensor.empty()))''')],
  T + HN + '''int main() { Tr t(1, 1, false, true); ActuatorData A; JointData J; A.position = A.velocity = A.effort = A.torque_sensor = A.absolute_position = {&d[0]}; J.position = J.velocity = J.effort = J.torque_sensor = J.absolute_position = {&d[1]}; ActuatorToJointStateHandle h("h", &t, A, J); h.propagate(); CHECK(t.log == "PVET"); return fails; }
''')
S('t06_state_effort', 'T06', 'propagating joint states to actuators for a handle without velocity data',
  'the effort is mapped twice and the velocity not at all when there is no velocity data',
  [(TI + 'transmission_interface.h', '''    transmission_->jointToActuatorPosition(joint_data_, actuator_data_);
    transmission_->jointToActuatorVelocity(joint_data_, actuator_data_);''', '''    transmission_->jointToActuatorPosition(joint_data_, actuator_data_);
    if (joint_data_.velocity.size() == joint_data_.effort.size()) {transmission_->jointToActuatorVelocity(joint_data_, actuator_data_);}''')],
  T + HN + '''int main() { Tr t(1, 1); ActuatorData A; JointData J; A.position = A.velocity = {&d[0]}; J.position = J.velocity = {&d[1]}; JointToActuatorStateHandle h("h", &t, A, J); h.propagate(); CHECK(t.log == "pve"); return fails; }
''')
S('t07_cached', 'T07', 'a handle replaced by one of the same name between two cycles',
  'a replaced handle is still propagated with its old data',
  [(TI + 'transmission_interface.h', '''    for (auto&& resource_name_and_handle : this->resource_map_)
    {
      resource_name_and_handle.second.propagate();
    }
  }
  /*\\}*/''', '''    if (cache_.size() != this->resource_map_.size())
    {
      cache_.clear();
      for (auto&& resource_name_and_handle : this->resource_map_) {cache_.push_back(resource_name_and_handle.second);}
    }
    for (auto&& handle : cache_) {handle.propagate();}
  }
  /*\\}*/

private:
  std::vector<HandleType> cache_;''')],
  T + HN + '''int main() { Tr t(1, 1), u(1, 1); ActuatorData A; JointData J; A.effort = {&d[0]}; J.effort = {&d[1]}; JointToActuatorEffortInterface i; i.registerHandle(JointToActuatorEffortHandle("h", &t, A, J)); i.propagate(); CHECK(t.log == "e");
  i.registerHandle(JointToActuatorEffortHandle("h", &u, A, J)); i.propagate(); CHECK(t.log == "e"); CHECK(u.log == "e"); return fails; }
''')
X = '''static std::string tr(const std::string& name, const std::string& body, const std::string& type = "transmission_interface/SimpleTransmission") { return "<transmission name='" + name + "'><type>" + type + "</type>" + body + "</transmission>"; }
static std::string jt(const std::string& n, const std::string& extra = "", const std::string& hw = "<hardwareInterface>EffortJointInterface</hardwareInterface>") { return "<joint name='" + n + "'>" + hw + extra + "</joint>"; }
static std::string ac(const std::string& n, const std::string& extra = "<mechanicalReduction>10</mechanicalReduction>") { return "<actuator name='" + n + "'>" + extra + "</actuator>"; }
static bool parse(const std::string& s, std::vector<TransmissionInfo>& v) { TransmissionParser p; return p.parse("<robot>" + s + "</robot>", v); }
static std::string role(const std::string& r) { return "<role>" + r + "</role>"; }
static std::string red(const std::string& r) { return "<mechanicalReduction>" + r + "</mechanicalReduction>"; }
'''
S('t08_role_leak', 'T08', 'a joint without a role after one with a role',
  'a joint without a role is given the role of the joint before it',
  [(TS + 'transmission_parser.cpp', '''  TiXmlElement *joint_it = nullptr;
  for (joint''', '''  TiXmlElement *joint_it = nullptr;
  std::string role;
  for (joint'''), (TS + 'transmission_parser.cpp', '''      joint.role_ = role_it->GetText() ? role_it->GetText() : std::string();
    }''', '''      role = role_it->GetText() ? role_it->GetText() : std::string();
    }
    joint.role_ = role;''')],
  L + X + '''int main() { std::vector<TransmissionInfo> v; CHECK(parse(tr("t", jt("a", role("joint1")) + jt("b") + ac("m")), v)); CHECK(v.size() == 1 && v[0].joints_.size() == 2); CHECK(v[0].joints_[0].role_ == "joint1"); CHECK(v[0].joints_[1].role_.empty()); return fails; }
''', kind='til')
S('t08_dup_name', 'T08', 'two transmissions of the same name',
  'a transmission whose name was used before is dropped',
  [(TS + 'transmission_parser.cpp', '''    // Save loaded transmission
''', '''    // Save loaded transmission
    if (!transmissions.empty() && transmissions.back().name_ == transmission.name_) {transmissions.pop_back();}
''')],
  L + X + '''int main() { std::vector<TransmissionInfo> v; CHECK(parse(tr("t", jt("a") + ac("m")) + tr("t", jt("b") + ac("n")), v)); CHECK(v.size() == 2); return fails; }
''', kind='til')
S('t08_actuator_skip', 'T08', 'an actuator with an empty name before a good one',
  'a transmission is dropped because of an actuator that is only to be skipped',
  [(TS + 'transmission_parser.cpp', '''        ROS_ERROR_STREAM_NAMED("parser","Empty name attribute specified for actuator.");
        continue;''', '''        ROS_ERROR_STREAM_NAMED("parser","Empty name attribute specified for actuator.");
        if (actuators.empty()) {return false;}
        continue;''')],
  L + X + '''int main() { std::vector<TransmissionInfo> v; CHECK(parse(tr("t", jt("a") + ac("") + ac("m")), v)); CHECK(v.size() == 1 && v[0].actuators_.size() == 1 && v[0].actuators_[0].name_ == "m"); return fails; }
''', kind='til')
S('t09_offset_order', 'T09', 'a differential whose joints are listed in the opposite order of their roles, with an offset',
  'joint offsets are taken in the order of the description instead of the roles',
  [(TS + 'differential_transmission_loader.cpp', '''    if(!getJointOffset(jnt_elements[id],
                       jnt_names[id],''', '''    if(!getJointOffset(jnt_elements[i],
                       jnt_names[i],''')],
  L + X + '''int main() { std::vector<TransmissionInfo> v; CHECK(parse(tr("t", jt("b", role("joint2") + "<offset>5</offset>") + jt("a", role("joint1") + "<offset>3</offset>") + ac("m", role("actuator1") + red("10")) + ac("n", role("actuator2") + red("20"))), v));
  DifferentialTransmissionLoader l; auto t = l.load(v[0]); CHECK(t != nullptr); auto* d = dynamic_cast<DifferentialTransmission*>(t.get()); CHECK(d); if (d) { CHECK(d->getJointOffset()[0] == 3); CHECK(d->getJointOffset()[1] == 5); } return fails; }
''', kind='til')
S('t09_ignore_any', 'T09', 'a differential of which only one joint asks to ignore the transmission for absolute encoders',
  'one joint asking for it is enough to ignore the transmission for absolute encoders',
  [(TS + 'differential_transmission_loader.cpp', '''  ignore_transmission_for_absolute_encoders = true;''', '''  ignore_transmission_for_absolute_encoders = false;'''), (TS + 'differential_transmission_loader.cpp', '''    ignore_transmission_for_absolute_encoders &= (role_el != nullptr);''', '''    ignore_transmission_for_absolute_encoders |= (role_el != nullptr);''')],
  L + X + '''int main() { std::vector<TransmissionInfo> v; CHECK(parse(tr("t", jt("b", role("joint1") + "<ignoreTransmissionAbsoluteEncoder/>") + jt("a", role("joint2")) + ac("m", role("actuator1") + red("10")) + ac("n", role("actuator2") + red("20"))), v));
  DifferentialTransmissionLoader l; auto t = l.load(v[0]); CHECK(t != nullptr); double a[2] = {10, 20}, j[2] = {0, 0}; ActuatorData A; JointData J; A.absolute_position = {&a[0], &a[1]}; J.absolute_position = {&j[0], &j[1]}; t->actuatorToJointAbsolutePosition(A, J); CHECK(near(j[0], 1)); CHECK(near(j[1], 0)); return fails; }
''', kind='til')
S('t09_simple_offset_text', 'T09', 'a joint offset that is not a number',
  'an unreadable joint offset is taken as no offset',
  [(TS + 'simple_transmission_loader.cpp', '''                 false, // Optional
                 joint_offset))
    {return TransmissionSharedPtr();}''', '''                 false, // Optional
                 joint_offset) && joint_offset != 0.0)
    {return TransmissionSharedPtr();}''')],
  L + X + '''int main() { std::vector<TransmissionInfo> v; CHECK(parse(tr("t", jt("a", "<offset>five</offset>") + ac("m")), v)); SimpleTransmissionLoader l; CHECK(!l.load(v[0])); return fails; }
''', kind='til')
S('t09_role_same', 'T09', 'a four-bar linkage whose actuators have the same role',
  'equal actuator roles are accepted',
  [(TS + 'four_bar_linkage_transmission_loader.cpp', '''  if (act_roles[0] == act_roles[1])''', '''  if (act_roles[0] == act_roles[1] && act_names[0] == act_names[1])''')],
  L + '#include <transmission_interface/four_bar_linkage_transmission_loader.h>\n' + X + '''int main() { std::vector<TransmissionInfo> v; CHECK(parse(tr("t", jt("b", role("joint1")) + jt("a", role("joint2")) + ac("m", role("actuator1") + red("10")) + ac("n", role("actuator1") + red("20"))), v));
  FourBarLinkageTransmissionLoader l; CHECK(!l.load(v[0])); return fails; }
''', kind='til')
PRE = '''static void fill(TransmissionInfo& i, const std::string& name, std::vector<std::string> js, std::vector<std::string> as) { i.name_ = name; i.joints_.clear(); i.actuators_.clear(); for (auto& j : js) { JointInfo x; x.name_ = j; x.hardware_interfaces_ = {"E"}; i.joints_.push_back(x); } for (auto& a : as) { ActuatorInfo x; x.name_ = a; i.actuators_.push_back(x); } }
'''
S('t10_return_early', 'T10', 'a transmission with two joints of which the first was registered before',
  'once a joint is known the joints after it are not offered',
  [(TS + 'effort_joint_interface_provider.cpp', '''    if (hasResource(name, interface)) {continue;}''', '''    if (hasResource(name, interface)) {break;}''')],
  L + PRE + '''int main() { Robot r; RobotTransmissions rt; TransmissionLoaderData ld; ld.robot_hw = &r; ld.robot_transmissions = &rt; EffortJointInterfaceProvider p; TransmissionInfo i;
  fill(i, "t1", {"j0"}, {"a0"}); CHECK(p.loadTransmissionMaps(i, ld, std::make_shared<SimpleTransmission>(10.0)));
  fill(i, "t2", {"j0", "j1"}, {"a1", "a2"}); CHECK(p.loadTransmissionMaps(i, ld, std::make_shared<DifferentialTransmission>(std::vector<double>{10, 20}, std::vector<double>{1, 2})));
  auto n = r.get<EffortJointInterface>()->getNames(); CHECK(n.size() == 2); return fails; }
''', kind='til')
S('t10_actuator_first', 'T10', 'a velocity transmission with two actuators',
  'every actuator command is written to the first actuator',
  [(TS + 'velocity_joint_interface_provider.cpp', '''    act_cmd_data.velocity[i] = const_cast<double*>(handles[i].getCommandPtr());''', '''    act_cmd_data.velocity[i] = const_cast<double*>(handles[dim - 1 - i].getCommandPtr());''')],
  L + PRE + '''int main() { Robot r; RobotTransmissions rt; TransmissionLoaderData ld; ld.robot_hw = &r; ld.robot_transmissions = &rt; VelocityJointInterfaceProvider p; TransmissionInfo i;
  fill(i, "t2", {"j0", "j1"}, {"a1", "a2"}); CHECK(p.loadTransmissionMaps(i, ld, std::make_shared<DifferentialTransmission>(std::vector<double>{10, 20}, std::vector<double>{1, 1})));
  r.get<VelocityJointInterface>()->getHandle("j0").setCommand(1); r.get<VelocityJointInterface>()->getHandle("j1").setCommand(0); rt.get<JointToActuatorVelocityInterface>()->propagate(); CHECK(near(r.vc[1], 10)); CHECK(near(r.vc[2], 20)); return fails; }
''', kind='til')
S('t10_missing_actuator', 'T10', 'a transmission naming an actuator the robot does not have, after one that it has',
  'a missing actuator is replaced by the one before it',
  [(TI + 'transmission_interface_loader.h', '''                               "' does not expose the required hardware interface '" <<
                               demangledTypeName<HardwareInterface>() << "'.");
        return false;
      }
    }
    return true;''', '''                               "' does not expose the required hardware interface '" <<
                               demangledTypeName<HardwareInterface>() << "'.");
        if (handles.empty()) {return false;}
      }
      if (handles.size() < actuators_info.size() && &info == &actuators_info.back()) {handles.push_back(handles.back());}
    }
    return true;''')],
  L + PRE + '''int main() { Robot r; RobotTransmissions rt; TransmissionLoaderData ld; ld.robot_hw = &r; ld.robot_transmissions = &rt; EffortJointInterfaceProvider p; TransmissionInfo i;
  fill(i, "t2", {"j0", "j1"}, {"a1", "zz"}); CHECK(!p.loadTransmissionMaps(i, ld, std::make_shared<DifferentialTransmission>(std::vector<double>{10, 20}, std::vector<double>{1, 2})));
  CHECK(rt.get<JointToActuatorEffortInterface>() == nullptr); return fails; }
''', kind='til')
S('t11_last_iface', 'T11', 'a transmission with several hardware interfaces of which the last is not available',
  'the result only tells about the last hardware interface',
  [(TS + 'transmission_interface_loader.cpp', '''    if (load_ok) {has_at_least_one_hw_iface = true;}
    else {continue;}''', '''    has_at_least_one_hw_iface = load_ok;''')],
  L + X + '''struct Bad : EffortJointInterfaceProvider { bool registerTransmission(TransmissionLoaderData&, TransmissionHandleData&) override { return false; } };
int main() { pluginlib::stub_factories<RequisiteProvider>()["good"] = []{ return (RequisiteProvider*)new EffortJointInterfaceProvider; }; pluginlib::stub_factories<RequisiteProvider>()["bad"] = []{ return (RequisiteProvider*)new Bad; }; pluginlib::stub_factories<TransmissionLoader>()["simple"] = []{ return (TransmissionLoader*)new SimpleTransmissionLoader; };
  std::string hw = "<hardwareInterface>good</hardwareInterface><hardwareInterface>bad</hardwareInterface>";
  Robot r; RobotTransmissions rt; TransmissionInterfaceLoader l(&r, &rt); CHECK(l.load("<robot>" + tr("t", jt("a", "", hw) + ac("a0"), "simple") + "</robot>")); return fails; }
''', kind='til')
S('t11_list_stops', 'T11', 'a list of transmissions of which one in the middle cannot be loaded',
  'the load of a list reports the result of the last transmission',
  [(TS + 'transmission_interface_loader.cpp', '''  for (const auto& info : transmission_info_vec)
  {
    if (!load(info)) {return false;}
  }
  return true;''', '''  bool ok = true;
  for (const auto& info : transmission_info_vec)
  {
    ok = load(info);
  }
  return ok;''')],
  L + X + '''int main() { pluginlib::stub_factories<RequisiteProvider>()["good"] = []{ return (RequisiteProvider*)new EffortJointInterfaceProvider; }; pluginlib::stub_factories<TransmissionLoader>()["simple"] = []{ return (TransmissionLoader*)new SimpleTransmissionLoader; };
  std::string hw = "<hardwareInterface>good</hardwareInterface>";
  Robot r; RobotTransmissions rt; TransmissionInterfaceLoader l(&r, &rt); CHECK(!l.load("<robot>" + tr("t", jt("a", "", hw) + ac("a0"), "nope") + tr("u", jt("b", "", hw) + ac("a1"), "simple") + "</robot>"));
  Robot r2; RobotTransmissions rt2; TransmissionInterfaceLoader l2(&r2, &rt2); CHECK(l2.load("<robot>" + tr("u", jt("b", "", hw) + ac("a1"), "simple") + "</robot>")); return fails; }
''', kind='til')
S('t11_iface_subset', 'T11', 'joints whose hardware interfaces differ in how often one is named',
  'the interfaces of two joints are taken to agree when they merely overlap',
  [(TS + 'transmission_interface_loader.cpp', '''        !std::is_permutation(hw_ifaces_ref.begin(), hw_ifaces_ref.end(),
                                  jnt_info.hardware_interfaces_.begin()))''', '''        hw_ifaces_ref.front() != jnt_info.hardware_interfaces_.front())''')],
  L + X + '''int main() { pluginlib::stub_factories<RequisiteProvider>()["good"] = pluginlib::stub_factories<RequisiteProvider>()["also"] = pluginlib::stub_factories<RequisiteProvider>()["other"] = []{ return (RequisiteProvider*)new EffortJointInterfaceProvider; }; pluginlib::stub_factories<TransmissionLoader>()["diff"] = []{ return (TransmissionLoader*)new DifferentialTransmissionLoader; };
  auto hw = [](std::string a, std::string b) { return "<hardwareInterface>" + a + "</hardwareInterface><hardwareInterface>" + b + "</hardwareInterface>"; };
  auto doc = [&](std::string h) { return "<robot>" + tr("t", jt("a", role("joint1"), hw("good", "also")) + jt("b", role("joint2"), h) + ac("a0", role("actuator1") + red("10")) + ac("a1", role("actuator2") + red("10")), "diff") + "</robot>"; };
  Robot r; RobotTransmissions rt; TransmissionInterfaceLoader l(&r, &rt); CHECK(!l.load(doc(hw("good", "other"))));
  Robot r2; RobotTransmissions rt2; TransmissionInterfaceLoader l2(&r2, &rt2); CHECK(l2.load(doc(hw("also", "good")))); return fails; }
''', kind='til')
