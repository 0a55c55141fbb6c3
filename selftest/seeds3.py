"""Planted bugs: joint limits."""
JLH = 'joint_limits_interface/include/joint_limits_interface/joint_limits_interface.h'
JLP = 'joint_limits_interface/include/joint_limits_interface/joint_limits_rosparam.h'
JLU = 'joint_limits_interface/include/joint_limits_interface/joint_limits_urdf.h'
JLL = 'joint_limits_interface/include/joint_limits_interface/joint_limits.h'
SEEDS = {}
def S(id, property, needs, breaks, edits, demo, kind='jl', **k): SEEDS[id] = dict(property=property, needs=needs, breaks=breaks, edits=edits, demo=demo, kind=kind, **k)
JL = '''#include <cstdio>
#include <cstdlib>
#include <cmath>
#include <joint_limits_interface/joint_limits_interface.h>
#include <joint_limits_interface/joint_limits_rosparam.h>
#include <joint_limits_interface/joint_limits_urdf.h>
using namespace joint_limits_interface; using namespace hardware_interface; using ros::stub_set;
static int fails = 0;
#define CHECK(c) do { if (!(c)) { std::printf("FAILED line %d: %s\\n", __LINE__, #c); fails = 1; } } while (0)
static bool near(double a, double b) { return std::fabs(a-b) < 1e-9; }
static double pos, vel, eff, cmd;
static JointHandle jh(const char* n = "j") { return JointHandle(JointStateHandle(n, &pos, &vel, &eff), &cmd); }
static JointLimits all() { JointLimits l; l.has_position_limits = true; l.min_position = -1; l.max_position = 2; l.has_velocity_limits = true; l.max_velocity = 3;
  l.has_effort_limits = true; l.max_effort = 8; return l; }
static SoftJointLimits soft() { SoftJointLimits s; s.min_position = -0.8; s.max_position = 1.5; s.k_position = 10; s.k_velocity = 20; return s; }
'''
S('j01_prev_raw', 'J01', 'a command far outside followed by one in the other direction',
  'the window of reachable positions follows the requested instead of the enforced command',
  [(JLH, '''    const double cmd = internal::saturate(jh_.getCommand(), min_pos, max_pos);
    jh_.setCommand(cmd);
    prev_cmd_ = cmd;''', '''    prev_cmd_ = internal::saturate(jh_.getCommand(), min_pos_limit_, max_pos_limit_);
    jh_.setCommand(internal::saturate(jh_.getCommand(), min_pos, max_pos));''')],
  JL + '''int main() { PositionJointSaturationHandle h(jh(), all()); pos = 0; cmd = 10; h.enforceLimits(ros::Duration(0.1)); CHECK(near(cmd, 0.3));
  cmd = 10; h.enforceLimits(ros::Duration(0.1)); CHECK(near(cmd, 0.6)); return fails; }
''')
S('j01_reset_zero', 'J01', 'a reset while the joint is away from zero',
  'after a reset the first command is bounded around zero and not around the measured position',
  [(JLH, '''class PositionJointSaturationHandle
{''', '''class PositionJointSaturationHandle
{
  static double unset() {return 0.0;}'''), (JLH, '''    jh_.setCommand(cmd);
    prev_cmd_ = cmd;
  }

  /**
   * \\brief Reset state, in case of mode switch or e-stop
   */
  void reset(){
    prev_cmd_ = std::numeric_limits<double>::quiet_NaN();''', '''    jh_.setCommand(cmd);
    prev_cmd_ = cmd;
  }

  /**
   * \\brief Reset state, in case of mode switch or e-stop
   */
  void reset(){
    prev_cmd_ = unset();''')],
  JL + '''int main() { PositionJointSaturationHandle h(jh(), all()); pos = 1; cmd = 1; h.enforceLimits(ros::Duration(0.1)); CHECK(near(cmd, 1));
  h.reset(); pos = 1.5; cmd = 1.5; h.enforceLimits(ros::Duration(0.1)); CHECK(near(cmd, 1.5)); return fails; }
''')
S('j01_limit_order', 'J01', 'a measured position outside the limits at the first use',
  'the position limits give way to the velocity bound when the joint starts above its maximum',
  [(JLH, '''      max_pos = std::min(prev_cmd_ + delta_pos, max_pos_limit_);''', '''      max_pos = std::max(min_pos, std::min(prev_cmd_ + delta_pos, max_pos_limit_));
      if (prev_cmd_ > max_pos_limit_) {max_pos = prev_cmd_;}''')],
  JL + '''int main() { PositionJointSaturationHandle h(jh(), all()); pos = 2.2; cmd = 5; h.enforceLimits(ros::Duration(0.1)); CHECK(near(cmd, 2)); return fails; }
''')
S('j02_hard_limit_only_high', 'J02', 'a soft limit that lies beyond the hard one on the lower side',
  'the hard lower position limit is not enforced',
  [(JLH, '''      pos_low  = std::max(pos_low,  limits_.min_position);
      pos_high = std::min(pos_high, limits_.max_position);''', '''      pos_low  = std::min(std::max(pos_low, soft_limits_.min_position), pos_high);
      pos_high = std::min(pos_high, limits_.max_position);''')],
  JL + '''int main() { SoftJointLimits s = soft(); s.min_position = -5; PositionJointSoftLimitsHandle h(jh(), all(), s); pos = -0.9; cmd = -3; h.enforceLimits(ros::Duration(0.1)); CHECK(near(cmd, -1)); return fails; }
''')
S('j02_measured_every_cycle', 'J02', 'a joint that lags behind its command',
  'the window is laid around the measured position in every cycle',
  [(JLH, '''    if (std::isnan(prev_cmd_)) {prev_cmd_ = jh_.getPosition();} // Happens only once at initialization
    const double pos = prev_cmd_;''', '''    const double measured = jh_.getPosition();
    if (std::isnan(prev_cmd_) || prev_cmd_ > measured) {prev_cmd_ = measured;}
    const double pos = prev_cmd_;''')],
  JL + '''int main() { PositionJointSoftLimitsHandle h(jh(), all(), soft()); pos = 0; cmd = 0.3; h.enforceLimits(ros::Duration(0.1)); CHECK(near(cmd, 0.3));
  cmd = 0.6; h.enforceLimits(ros::Duration(0.1)); CHECK(near(cmd, 0.6)); return fails; }
''')
S('j02_window_gain', 'J02', 'a position close to the lower soft limit',
  'the lower velocity bound is taken from the distance to the upper soft limit',
  [(JLH, '''    const double pos = prev_cmd_;

    // Velocity bounds
    double soft_min_vel;
    double soft_max_vel;

    if (limits_.has_position_limits)
    {
      // Velocity bounds depend on the velocity limit and the proximity to the position limit
      soft_min_vel = saturate(-soft_limits_.k_position * (pos - soft_limits_.min_position),''', '''    const double pos = prev_cmd_;

    // Velocity bounds
    double soft_min_vel;
    double soft_max_vel;

    if (limits_.has_position_limits)
    {
      // Velocity bounds depend on the velocity limit and the proximity to the position limit
      const double dist = std::max(pos - soft_limits_.min_position, soft_limits_.max_position - pos);
      soft_min_vel = saturate(-soft_limits_.k_position * dist,''')],
  JL + '''int main() { PositionJointSoftLimitsHandle h(jh(), all(), soft()); pos = -0.75; cmd = -0.95; h.enforceLimits(ros::Duration(0.1)); CHECK(near(cmd, -0.8)); return fails; }
''')
S('j03_acc_prev_raw', 'J03', 'acceleration limits and several commands above the maximum velocity',
  'the acceleration bound is taken from the requested instead of the enforced command',
  [(JLH, '''    // Saturate velocity command according to limits
    const double vel_cmd = saturate(jh_.getCommand(),
                                    vel_low,
                                    vel_high);
    jh_.setCommand(vel_cmd);

    // Cache variables
    prev_cmd_ = jh_.getCommand();''', '''    // Saturate velocity command according to limits
    const double vel_cmd = saturate(jh_.getCommand(),
                                    vel_low,
                                    vel_high);
    // Cache variables
    prev_cmd_ = saturate(jh_.getCommand(), -limits_.max_velocity, limits_.max_velocity);
    jh_.setCommand(vel_cmd);''')],
  JL + '''int main() { JointLimits l = all(); l.has_acceleration_limits = true; l.max_acceleration = 5; VelocityJointSaturationHandle h(jh(), l);
  cmd = 10; h.enforceLimits(ros::Duration(0.1)); CHECK(near(cmd, 0.5)); cmd = 10; h.enforceLimits(ros::Duration(0.1)); CHECK(near(cmd, 1.0)); return fails; }
''')
S('j03_soft_acc_first', 'J03', 'soft velocity limits together with acceleration limits, moving fast towards the limit',
  'the acceleration bound replaces the soft velocity bound instead of narrowing it',
  [(JLH, '''      max_vel = std::min(vel + limits_.max_acceleration * delta_t, max_vel);''', '''      max_vel = std::max(min_vel, std::min(vel + limits_.max_acceleration * delta_t, max_vel_limit_));''')],
  JL + '''int main() { JointLimits l = all(); l.has_acceleration_limits = true; l.max_acceleration = 5; VelocityJointSoftLimitsHandle h(jh(), l, soft());
  pos = 1.45; vel = 0.6; cmd = 2; h.enforceLimits(ros::Duration(0.1)); CHECK(near(cmd, 0.5)); return fails; }
''')
S('j03_soft_no_vel_limit', 'J03', 'soft limits for a joint that has no velocity limits',
  'a joint without velocity limits is held at the default maximum of zero',
  [(JLH, '''    if (limits.has_velocity_limits)
      max_vel_limit_ = limits.max_velocity;
    else
      max_vel_limit_ = std::numeric_limits<double>::max();''', '''    max_vel_limit_ = std::numeric_limits<double>::max();
    if (limits.has_velocity_limits || !limits.has_position_limits)
      max_vel_limit_ = limits.max_velocity;''')],
  JL + '''int main() { JointLimits l; SoftJointLimits s; VelocityJointSoftLimitsHandle h(jh(), l, s); pos = 0; vel = 0; cmd = 2; h.enforceLimits(ros::Duration(0.1)); CHECK(near(cmd, 2)); return fails; }
''')
S('j04_both_sides', 'J04', 'a joint above its position range that moves back faster than allowed',
  'braking is not possible outside the position limits',
  [(JLH, '''    const double vel = jh_.getVelocity();
    if (vel < -limits_.max_velocity)
      min_eff = 0.0;
    else if (vel > limits_.max_velocity)
      max_eff = 0.0;
''', '''    const double vel = jh_.getVelocity();
    if (vel < -limits_.max_velocity)
      min_eff = 0.0;
    else if (vel > limits_.max_velocity && min_eff < 0.0)
      max_eff = 0.0;
''')],
  JL + '''int main() { EffortJointSaturationHandle h(jh(), all()); pos = -1.5; vel = 4; cmd = 5; h.enforceLimits(ros::Duration(0.1)); CHECK(near(cmd, 0)); return fails; }
''')
S('j04_soft_eff_window', 'J04', 'a joint near its soft limit moving slowly towards it',
  'the upper effort bound ignores how close the soft limit is',
  [(JLH, '''    const double soft_max_eff = saturate(-soft_limits_.k_velocity * (vel - soft_max_vel),''', '''    const double soft_max_eff = saturate(-soft_limits_.k_velocity * (vel - std::max(soft_max_vel, std::fabs(vel))),''')],
  JL + '''int main() { EffortJointSoftLimitsHandle h(jh(), all(), soft()); pos = 1.5; vel = 0.2; cmd = 6; h.enforceLimits(ros::Duration(0.1)); CHECK(near(cmd, -4)); return fails; }
''')
S('j04_reject_both', 'J04', 'constructing an effort saturation handle without effort limits only',
  'missing effort limits are accepted when velocity limits exist',
  [(JLH, '''    if (!limits.has_effort_limits)
    {
      throw JointLimitsInterfaceException("Cannot enforce limits for joint '" + getName() +
                                          "'. It has no efforts limits specification.");''', '''    if (!limits.has_effort_limits && !(limits.has_velocity_limits && limits.has_position_limits))
    {
      throw JointLimitsInterfaceException("Cannot enforce limits for joint '" + getName() +
                                          "'. It has no efforts limits specification.");''')],
  JL + '''int main() { JointLimits l = all(); l.has_effort_limits = false; bool t = false; try { EffortJointSaturationHandle h(jh(), l); } catch (const std::exception&) { t = true; } CHECK(t); return fails; }
''')
S('j05_continuous_keep', 'J05', 'reading the limits of a continuous joint into limits that had position limits',
  'a continuous joint keeps position limits that were there before',
  [(JLU, '''  if (!limits.has_position_limits && urdf_joint->type == urdf::Joint::CONTINUOUS)
  {
    limits.angle_wraparound = true;
  }''', '''  if (urdf_joint->type == urdf::Joint::CONTINUOUS)
  {
    limits.angle_wraparound = !limits.has_position_limits && urdf_joint->limits->lower >= urdf_joint->limits->upper;
  }''')],
  JL + '''int main() { auto j = std::make_shared<urdf::Joint>(); j->type = urdf::Joint::CONTINUOUS; j->limits = std::make_shared<urdf::JointLimits>(); j->limits->lower = -1; j->limits->upper = 1; j->limits->velocity = 2; j->limits->effort = 3;
  JointLimits l; l.has_position_limits = true; CHECK(getJointLimits(j, l)); CHECK(!l.has_position_limits); CHECK(l.angle_wraparound); CHECK(l.has_velocity_limits && l.max_velocity == 2); return fails; }
''')
S('j05_zero_effort', 'J05', 'a joint whose effort limit is zero',
  'an effort limit of zero is read as no effort limit',
  [(JLU, '''  limits.has_effort_limits = true;
  limits.max_effort = urdf_joint->limits->effort;''', '''  limits.has_effort_limits = urdf_joint->limits->effort > 0.0 || urdf_joint->type != urdf::Joint::PRISMATIC;
  limits.max_effort = urdf_joint->limits->effort;''')],
  JL + '''int main() { auto j = std::make_shared<urdf::Joint>(); j->type = urdf::Joint::PRISMATIC; j->limits = std::make_shared<urdf::JointLimits>(); j->limits->lower = -1; j->limits->upper = 1; j->limits->velocity = 2; j->limits->effort = 0;
  JointLimits l; CHECK(getJointLimits(j, l)); CHECK(l.has_effort_limits); CHECK(l.max_effort == 0); CHECK(l.has_position_limits); return fails; }
''')
S('j05_soft_order', 'J05', 'soft limits for a joint without ordinary limits',
  'soft limits are only read when the joint has ordinary limits as well',
  [(JLU, '''  if (!urdf_joint || !urdf_joint->safety)
  {
    return false;
  }''', '''  if (!urdf_joint || !urdf_joint->safety || !urdf_joint->limits)
  {
    return false;
  }''')],
  JL + '''int main() { auto j = std::make_shared<urdf::Joint>(); j->type = urdf::Joint::CONTINUOUS; j->safety = std::make_shared<urdf::JointSafety>(); j->safety->k_velocity = 7; j->safety->k_position = 3;
  SoftJointLimits s; CHECK(getSoftJointLimits(j, s)); CHECK(s.k_velocity == 7); CHECK(s.k_position == 3); return fails; }
''')
S('j06_half_range', 'J06', 'parameters that enable position limits but give only the minimum',
  'an incomplete position range overwrites the one from the robot description',
  [(JLP, '''    if (has_position_limits && limits_nh.getParam("min_position", min_pos) && limits_nh.getParam("max_position", max_pos))
    {''', '''    max_pos = limits.max_position;
    if (has_position_limits && limits_nh.getParam("min_position", min_pos) && (limits_nh.getParam("max_position", max_pos) || limits.has_position_limits))
    {''')],
  JL + '''int main() { ros::NodeHandle nh; stub_set("/joint_limits/j/has_position_limits", true); stub_set("/joint_limits/j/min_position", -0.5);
  JointLimits l = all(); CHECK(getJointLimits("j", nh, l)); CHECK(l.min_position == -1); CHECK(l.max_position == 2); CHECK(l.has_position_limits); return fails; }
''')
S('j06_disable_ignored', 'J06', 'parameters that disable velocity limits and still give a value',
  'disabled velocity limits stay enabled when a maximum velocity is given',
  [(JLP, '''    if (!has_velocity_limits) {limits.has_velocity_limits = false;}
    double max_vel;''', '''    if (!has_velocity_limits && !limits_nh.hasParam("max_velocity")) {limits.has_velocity_limits = false;}
    double max_vel;''')],
  JL + '''int main() { ros::NodeHandle nh; stub_set("/joint_limits/j/has_velocity_limits", false); stub_set("/joint_limits/j/max_velocity", 1.0);
  JointLimits l = all(); CHECK(getJointLimits("j", nh, l)); CHECK(!l.has_velocity_limits); CHECK(l.max_velocity == 3); return fails; }
''')
S('j06_soft_partial', 'J06', 'soft limits enabled with one of the four values missing',
  'soft limits are reported as read although the velocity gain is missing',
  [(JLP, '''limits_nh.hasParam("k_position") && limits_nh.hasParam("k_velocity") && ''', '''(limits_nh.hasParam("k_position") || limits_nh.hasParam("k_velocity")) && ''')],
  JL + '''int main() { ros::NodeHandle nh; stub_set("/joint_limits/j/has_soft_limits", true); stub_set("/joint_limits/j/k_position", 1.0); stub_set("/joint_limits/j/soft_lower_limit", -1.0); stub_set("/joint_limits/j/soft_upper_limit", 1.0);
  SoftJointLimits s = soft(); CHECK(!getSoftJointLimits("j", nh, s)); CHECK(s.k_position == 10); return fails; }
''')
S('j06_wraparound', 'J06', 'parameters that disable position limits and enable wrap-around',
  'wrap-around is only taken over when position limits were enabled before',
  [(JLP, '''    if (!has_position_limits) {limits.has_position_limits = false;}
    double min_pos, max_pos;''', '''    const bool had_position_limits = limits.has_position_limits;
    if (!has_position_limits) {limits.has_position_limits = false;}
    double min_pos, max_pos;'''), (JLP, '''    if (!has_position_limits && limits_nh.getParam("angle_wraparound", angle_wraparound))''', '''    if (!has_position_limits && !had_position_limits && limits_nh.getParam("angle_wraparound", angle_wraparound))''')],
  JL + '''int main() { ros::NodeHandle nh; stub_set("/joint_limits/j/has_position_limits", false); stub_set("/joint_limits/j/angle_wraparound", true);
  JointLimits l = all(); CHECK(getJointLimits("j", nh, l)); CHECK(!l.has_position_limits); CHECK(l.angle_wraparound); return fails; }
''')
S('j07_copy', 'J07', 'a limits interface enforced over more than one cycle',
  'handles are enforced on a copy, so that what they remember of the previous cycle is lost',
  [(JLH, '''    for (auto&& resource_name_and_handle : this->resource_map_)
    {
      resource_name_and_handle.second.enforceLimits(period);
    }''', '''    for (auto resource_name_and_handle : this->resource_map_)
    {
      resource_name_and_handle.second.enforceLimits(period);
    }''')],
  JL + '''int main() { PositionJointSaturationInterface i; i.registerHandle(PositionJointSaturationHandle(jh(), all())); pos = 0; cmd = 9; i.enforceLimits(ros::Duration(0.1)); CHECK(near(cmd, 0.3));
  cmd = 9; i.enforceLimits(ros::Duration(0.1)); CHECK(near(cmd, 0.6)); return fails; }
''')
S('j07_reset_first', 'J07', 'a reset of an interface with several joints',
  'a reset stops at the first joint',
  [(JLH, '''class PositionJointSoftLimitsInterface : public JointLimitsInterface<PositionJointSoftLimitsHandle> {
public:
  /** \\name Real-Time Safe Functions
   *\\{*/
  /** \\brief Reset all managed handles. */
  void reset()
  {
    for (auto&& resource_name_and_handle : this->resource_map_)
    {
      resource_name_and_handle.second.reset();''', '''class PositionJointSoftLimitsInterface : public JointLimitsInterface<PositionJointSoftLimitsHandle> {
public:
  /** \\name Real-Time Safe Functions
   *\\{*/
  /** \\brief Reset all managed handles. */
  void reset()
  {
    const std::string first = this->resource_map_.empty() ? std::string() : this->resource_map_.begin()->first;
    for (auto&& resource_name_and_handle : this->resource_map_)
    {
      if (resource_name_and_handle.first.compare(0, first.size(), first) == 0) resource_name_and_handle.second.reset();''')],
  JL + '''int main() { PositionJointSoftLimitsInterface i; double p2 = 0, c2 = 0; i.registerHandle(PositionJointSoftLimitsHandle(jh("a"), all(), soft()));
  i.registerHandle(PositionJointSoftLimitsHandle(JointHandle(JointStateHandle("b", &p2, &vel, &eff), &c2), all(), soft()));
  i.enforceLimits(ros::Duration(0.1)); i.reset(); p2 = 1; c2 = 1; pos = 1; cmd = 1; i.enforceLimits(ros::Duration(0.1)); CHECK(near(cmd, 1)); CHECK(near(c2, 1)); return fails; }
''')
