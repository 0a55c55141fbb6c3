"""Behaviour-preserving edits of joint_limits_interface: every check must stay quiet."""
J = 'joint_limits_interface/include/joint_limits_interface/joint_limits_interface.h'
U = 'joint_limits_interface/include/joint_limits_interface/joint_limits_urdf.h'
R = 'joint_limits_interface/include/joint_limits_interface/joint_limits_rosparam.h'
EDITS = {
# saturate rewritten
'j_sat_if': (None, [(J, "  return std::min(std::max(val, min_val), max_val);", "  const T lifted = val < min_val ? min_val : val;\n  if (lifted > max_val)\n    return max_val;\n  return lifted;")]),
'j_sat_swap': (None, [(J, "  return std::min(std::max(val, min_val), max_val);", "  return std::min(max_val, std::max(min_val, val));")]),
# position saturation: sentinel bounds kept, computed unconditionally then narrowed
'j_pos_narrow': (None, [(J, """    double min_pos, max_pos;
    if (limits_.has_velocity_limits)
    {
      const double delta_pos = limits_.max_velocity * period.toSec();
      min_pos = std::max(prev_cmd_ - delta_pos, min_pos_limit_);
      max_pos = std::min(prev_cmd_ + delta_pos, max_pos_limit_);
    }
    else
    {
      min_pos = min_pos_limit_;
      max_pos = max_pos_limit_;
    }
""", """    double min_pos = min_pos_limit_;
    double max_pos = max_pos_limit_;
    if (limits_.has_velocity_limits)
    {
      const double delta_pos = period.toSec() * limits_.max_velocity;
      min_pos = std::max(min_pos, prev_cmd_ - delta_pos);
      max_pos = std::min(max_pos, delta_pos + prev_cmd_);
    }
""")]),
'j_pos_helper': (None, [(J, """    const double cmd = internal::saturate(jh_.getCommand(), min_pos, max_pos);
    jh_.setCommand(cmd);
    prev_cmd_ = cmd;
  }
""", """    applyCommand(internal::saturate(jh_.getCommand(), min_pos, max_pos));
  }
"""), (J, """private:
  hardware_interface::JointHandle jh_;
  JointLimits limits_;
  double min_pos_limit_, max_pos_limit_;
""", """private:
  void applyCommand(double cmd)
  {
    prev_cmd_ = cmd;
    jh_.setCommand(prev_cmd_);
  }

  hardware_interface::JointHandle jh_;
  JointLimits limits_;
  double min_pos_limit_, max_pos_limit_;
""")]),
'j_pos_ternary': (None, [(J, """    if (limits_.has_position_limits)
    {
      min_pos_limit_ = limits_.min_position;
      max_pos_limit_ = limits_.max_position;
    }
    else
    {
      min_pos_limit_ = -std::numeric_limits<double>::max();
      max_pos_limit_ = std::numeric_limits<double>::max();
    }
""", """    const double unbounded = std::numeric_limits<double>::max();
    min_pos_limit_ = limits_.has_position_limits ? limits_.min_position : -unbounded;
    max_pos_limit_ = limits_.has_position_limits ? limits_.max_position : unbounded;
""")]),
'j_pos_lowest': (None, [(J, "      min_pos_limit_ = -std::numeric_limits<double>::max();", "      min_pos_limit_ = std::numeric_limits<double>::lowest();")]),
'j_pos_init': (None, [(J, """  : jh_(jh),
    limits_(limits)
  {

    if (limits_.has_position_limits)
    {
      min_pos_limit_ = limits_.min_position;
      max_pos_limit_ = limits_.max_position;
    }
    else
    {
      min_pos_limit_ = -std::numeric_limits<double>::max();
      max_pos_limit_ = std::numeric_limits<double>::max();
    }
  }
""", """  : jh_(jh),
    limits_(limits),
    min_pos_limit_(-std::numeric_limits<double>::max()),
    max_pos_limit_(std::numeric_limits<double>::max())
  {
    if (!limits.has_position_limits)
      return;
    min_pos_limit_ = limits.min_position;
    max_pos_limit_ = limits.max_position;
  }
""")]),
# soft limits
'j_soft_prevcmd': (None, [(J, """    jh_.setCommand(pos_cmd);

    // Cache variables
    prev_cmd_ = jh_.getCommand();
""", """    prev_cmd_ = pos_cmd;
    jh_.setCommand(prev_cmd_);
""")]),
'j_soft_dist': (None, [(J, """      // Velocity bounds depend on the velocity limit and the proximity to the position limit
      soft_min_vel = saturate(-soft_limits_.k_position * (pos - soft_limits_.min_position),
                              -limits_.max_velocity,
                               limits_.max_velocity);

      soft_max_vel = saturate(-soft_limits_.k_position * (pos - soft_limits_.max_position),
                              -limits_.max_velocity,
                               limits_.max_velocity);
""", """      const double k = soft_limits_.k_position;
      const double to_min = soft_limits_.min_position - pos;
      const double to_max = soft_limits_.max_position - pos;
      soft_min_vel = saturate(k * to_min, -limits_.max_velocity, limits_.max_velocity);
      soft_max_vel = saturate(k * to_max, -limits_.max_velocity, limits_.max_velocity);
""")]),
'j_soft_merge': (None, [(J, """    // Position bounds
    const double dt = period.toSec();
    double pos_low  = pos + soft_min_vel * dt;
    double pos_high = pos + soft_max_vel * dt;

    if (limits_.has_position_limits)
    {
      // This extra measure safeguards against pathological cases, like when the soft limit lies beyond the hard limit
      pos_low  = std::max(pos_low,  limits_.min_position);
      pos_high = std::min(pos_high, limits_.max_position);
    }
""", """    const double dt = period.toSec();
    const double free_low  = pos + soft_min_vel * dt;
    const double free_high = pos + soft_max_vel * dt;
    const double pos_low  = limits_.has_position_limits ? std::max(free_low,  limits_.min_position) : free_low;
    const double pos_high = limits_.has_position_limits ? std::min(free_high, limits_.max_position) : free_high;
""")]),
'j_soft_reset_helper': (None, [(J, """    if (std::isnan(prev_cmd_)) {prev_cmd_ = jh_.getPosition();} // Happens only once at initialization
    const double pos = prev_cmd_;
""", """    const bool first_call = std::isnan(prev_cmd_);
    const double pos = first_call ? jh_.getPosition() : prev_cmd_;
""")]),
# effort
'j_eff_else': (None, [(J, """    const double vel = jh_.getVelocity();
    if (vel < -limits_.max_velocity)
      min_eff = 0.0;
    else if (vel > limits_.max_velocity)
      max_eff = 0.0;
""", """    const double vel = jh_.getVelocity();
    const bool too_slow = vel < -limits_.max_velocity;
    const bool too_fast = !too_slow && vel > limits_.max_velocity;
    min_eff = too_slow ? 0.0 : min_eff;
    max_eff = too_fast ? 0.0 : max_eff;
""")]),
'j_eff_hoist': (None, [(J, """    if (limits_.has_position_limits)
    {
      const double pos = jh_.getPosition();
      if (pos < limits_.min_position)
        min_eff = 0.0;
      else if (pos > limits_.max_position)
        max_eff = 0.0;
    }

    const double vel = jh_.getVelocity();
""", """    const double vel = jh_.getVelocity();
    const double pos = jh_.getPosition();
    if (limits_.has_position_limits && pos < limits_.min_position)
      min_eff = 0.0;
    else if (limits_.has_position_limits && pos > limits_.max_position)
      max_eff = 0.0;

""")]),
'j_eff_ctor_msg': (None, [(J, """    if (!limits.has_velocity_limits)
    {
      throw JointLimitsInterfaceException("Cannot enforce limits for joint '" + getName() +
                                           "'. It has no velocity limits specification.");
    }
    if (!limits.has_effort_limits)
    {
      throw JointLimitsInterfaceException("Cannot enforce limits for joint '" + getName() +
                                          "'. It has no efforts limits specification.");
    }
""", """    if (limits.has_velocity_limits && limits.has_effort_limits)
      return;
    const std::string missing = limits.has_velocity_limits ? "efforts" : "velocity";
    throw JointLimitsInterfaceException("Cannot enforce limits for joint '" + jh_.getName() +
                                        "'. It has no " + missing + " limits specification.");
""")]),
'j_effsoft_lambda': (None, [(J, """    // Effort bounds depend on the velocity and effort bounds
    const double soft_min_eff = saturate(-soft_limits_.k_velocity * (vel - soft_min_vel),
                                         -limits_.max_effort,
                                          limits_.max_effort);

    const double soft_max_eff = saturate(-soft_limits_.k_velocity * (vel - soft_max_vel),
                                         -limits_.max_effort,
                                          limits_.max_effort);

    // Saturate effort command according to bounds
    const double eff_cmd = saturate(jh_.getCommand(),
                                    soft_min_eff,
                                    soft_max_eff);
    jh_.setCommand(eff_cmd);
""", """    const auto effortFor = [this, vel](double vel_bound)
    {
      return saturate(-soft_limits_.k_velocity * (vel - vel_bound), -limits_.max_effort, limits_.max_effort);
    };
    jh_.setCommand(saturate(jh_.getCommand(), effortFor(soft_min_vel), effortFor(soft_max_vel)));
""")]),
# velocity
'j_vel_delta': (None, [(J, """      assert(period.toSec() > 0.0);
      const double dt  = period.toSec();

      vel_low  = std::max(prev_cmd_ - limits_.max_acceleration * dt, -limits_.max_velocity);
      vel_high = std::min(prev_cmd_ + limits_.max_acceleration * dt,  limits_.max_velocity);
""", """      const double dt  = period.toSec();
      assert(dt > 0.0);
      const double delta_vel = limits_.max_acceleration * dt;

      vel_low  = std::max(-limits_.max_velocity, prev_cmd_ - delta_vel);
      vel_high = std::min(limits_.max_velocity, prev_cmd_ + delta_vel);
""")]),
'j_vel_cached': (None, [(J, """    const double vel_cmd = saturate(jh_.getCommand(),
                                    vel_low,
                                    vel_high);
    jh_.setCommand(vel_cmd);

    // Cache variables
    prev_cmd_ = jh_.getCommand();
""", """    prev_cmd_ = saturate(jh_.getCommand(), vel_low, vel_high);
    jh_.setCommand(prev_cmd_);
""")]),
'j_velsoft_init': (None, [(J, """      , soft_limits_(soft_limits)
  {
    if (limits.has_velocity_limits)
      max_vel_limit_ = limits.max_velocity;
    else
      max_vel_limit_ = std::numeric_limits<double>::max();
  }
""", """      , soft_limits_(soft_limits)
      , max_vel_limit_(limits.has_velocity_limits ? limits.max_velocity : std::numeric_limits<double>::max())
  {
  }
""")]),
'j_velsoft_order': (None, [(J, """      min_vel = std::max(vel - limits_.max_acceleration * delta_t, min_vel);
      max_vel = std::min(vel + limits_.max_acceleration * delta_t, max_vel);
""", """      const double reach = limits_.max_acceleration * delta_t;
      if (vel + reach < max_vel)
        max_vel = vel + reach;
      if (vel - reach > min_vel)
        min_vel = vel - reach;
""")]),
# interfaces
'j_iface_iter': (None, [(J, """    for (auto&& resource_name_and_handle : this->resource_map_)
    {
      resource_name_and_handle.second.enforceLimits(period);
    }
""", """    for (auto it = this->resource_map_.begin(); it != this->resource_map_.end(); ++it)
    {
      HandleType& handle = it->second;
      handle.enforceLimits(period);
    }
""")]),
'j_iface_get': (None, [(J, """    try
    {
      return this->hardware_interface::ResourceManager<HandleType>::getHandle(name);
    }
    catch(const std::logic_error& e)
    {
      throw JointLimitsInterfaceException(e.what());
    }
""", """    typedef hardware_interface::ResourceManager<HandleType> Base;
    try
    {
      HandleType handle = Base::getHandle(name);
      return handle;
    }
    catch(const std::logic_error& ex)
    {
      const std::string reason = ex.what();
      throw JointLimitsInterfaceException(reason);
    }
""")]),
# urdf
'j_urdf_split': (None, [(U, """  if (!urdf_joint || !urdf_joint->limits)
  {
    return false;
  }

  limits.has_position_limits = urdf_joint->type == urdf::Joint::REVOLUTE || urdf_joint->type == urdf::Joint::PRISMATIC;
  if (limits.has_position_limits)
  {
    limits.min_position = urdf_joint->limits->lower;
    limits.max_position = urdf_joint->limits->upper;
  }

  if (!limits.has_position_limits && urdf_joint->type == urdf::Joint::CONTINUOUS)
  {
    limits.angle_wraparound = true;
  }
""", """  if (!urdf_joint)
    return false;
  if (!urdf_joint->limits)
    return false;

  const auto& joint_limits = *urdf_joint->limits;
  switch (urdf_joint->type)
  {
    case urdf::Joint::REVOLUTE:
    case urdf::Joint::PRISMATIC:
      limits.has_position_limits = true;
      limits.min_position = joint_limits.lower;
      limits.max_position = joint_limits.upper;
      break;
    case urdf::Joint::CONTINUOUS:
      limits.has_position_limits = false;
      limits.angle_wraparound = true;
      break;
    default:
      limits.has_position_limits = false;
      break;
  }
""")]),
'j_urdf_soft': (None, [(U, """  if (!urdf_joint || !urdf_joint->safety)
  {
    return false;
  }

  soft_limits.min_position = urdf_joint->safety->soft_lower_limit;
  soft_limits.max_position = urdf_joint->safety->soft_upper_limit;
  soft_limits.k_position = urdf_joint->safety->k_position;
  soft_limits.k_velocity = urdf_joint->safety->k_velocity;

  return true;
""", """  const bool specified = urdf_joint && urdf_joint->safety;
  if (specified)
  {
    SoftJointLimits found;
    found.k_position = urdf_joint->safety->k_position;
    found.k_velocity = urdf_joint->safety->k_velocity;
    found.min_position = urdf_joint->safety->soft_lower_limit;
    found.max_position = urdf_joint->safety->soft_upper_limit;
    soft_limits = found;
  }
  return specified;
""")]),
# rosparam
'j_param_assign': (None, [(R, """  if(limits_nh.getParam("has_velocity_limits", has_velocity_limits))
  {
    if (!has_velocity_limits) {limits.has_velocity_limits = false;}
    double max_vel;
    if (has_velocity_limits && limits_nh.getParam("max_velocity", max_vel))
    {
      limits.has_velocity_limits = true;
      limits.max_velocity = max_vel;
    }
  }
""", """  if(limits_nh.getParam("has_velocity_limits", has_velocity_limits))
  {
    double max_vel;
    if (!has_velocity_limits)
    {
      limits.has_velocity_limits = false;
    }
    else if (limits_nh.getParam("max_velocity", max_vel))
    {
      limits.max_velocity = max_vel;
      limits.has_velocity_limits = true;
    }
  }
""")]),
'j_param_helper': (None, [(R, """  // Acceleration limits
  bool has_acceleration_limits = false;
  if(limits_nh.getParam("has_acceleration_limits", has_acceleration_limits))
  {
    if (!has_acceleration_limits) {limits.has_acceleration_limits = false;}
    double max_acc;
    if (has_acceleration_limits && limits_nh.getParam("max_acceleration", max_acc))
    {
      limits.has_acceleration_limits = true;
      limits.max_acceleration = max_acc;
    }
  }

  // Jerk limits
  bool has_jerk_limits = false;
  if(limits_nh.getParam("has_jerk_limits", has_jerk_limits))
  {
    if (!has_jerk_limits) {limits.has_jerk_limits = false;}
    double max_jerk;
    if (has_jerk_limits && limits_nh.getParam("max_jerk", max_jerk))
    {
      limits.has_jerk_limits = true;
      limits.max_jerk = max_jerk;
    }
  }
""", """  internal::readLimit(limits_nh, "has_acceleration_limits", "max_acceleration", limits.has_acceleration_limits, limits.max_acceleration);
  internal::readLimit(limits_nh, "has_jerk_limits", "max_jerk", limits.has_jerk_limits, limits.max_jerk);
"""), (R, """/**
 * \\brief Populate a JointLimits instance from the ROS parameter server.
""", """namespace internal
{
inline void readLimit(const ros::NodeHandle& nh, const std::string& flag_name, const std::string& value_name, bool& flag, double& value)
{
  bool enabled = false;
  if (!nh.getParam(flag_name, enabled))
    return;
  if (!enabled)
  {
    flag = false;
    return;
  }
  double read_value;
  if (nh.getParam(value_name, read_value))
  {
    flag = true;
    value = read_value;
  }
}
}

/**
 * \\brief Populate a JointLimits instance from the ROS parameter server.
""")]),
'j_param_reorder': (None, [(R, """      limits.has_position_limits = true;
      limits.min_position = min_pos;
      limits.max_position = max_pos;
    }

    bool angle_wraparound;
    if (!has_position_limits && limits_nh.getParam("angle_wraparound", angle_wraparound))
    {
      limits.angle_wraparound = angle_wraparound;
    }
""", """      limits.max_position = max_pos;
      limits.min_position = min_pos;
      limits.has_position_limits = true;
    }

    if (!has_position_limits)
    {
      bool angle_wraparound;
      if (limits_nh.getParam("angle_wraparound", angle_wraparound))
        limits.angle_wraparound = angle_wraparound;
    }
""")]),
'j_param_soft': (None, [(R, """  bool has_soft_limits;
  if(limits_nh.getParam("has_soft_limits", has_soft_limits))
  {
    if(has_soft_limits && limits_nh.hasParam("k_position") && limits_nh.hasParam("k_velocity") && limits_nh.hasParam("soft_lower_limit") && limits_nh.hasParam("soft_upper_limit"))
    {
      limits_nh.getParam("k_position", soft_limits.k_position);
      limits_nh.getParam("k_velocity", soft_limits.k_velocity);
      limits_nh.getParam("soft_lower_limit", soft_limits.min_position);
      limits_nh.getParam("soft_upper_limit", soft_limits.max_position);
      return true;
    }
  }

  return false;
""", """  bool has_soft_limits = false;
  if (!limits_nh.getParam("has_soft_limits", has_soft_limits) || !has_soft_limits)
    return false;

  const bool complete = limits_nh.hasParam("soft_lower_limit") && limits_nh.hasParam("soft_upper_limit") &&
                        limits_nh.hasParam("k_position") && limits_nh.hasParam("k_velocity");
  if (!complete)
    return false;

  limits_nh.getParam("soft_lower_limit", soft_limits.min_position);
  limits_nh.getParam("soft_upper_limit", soft_limits.max_position);
  limits_nh.getParam("k_position", soft_limits.k_position);
  limits_nh.getParam("k_velocity", soft_limits.k_velocity);
  return true;
""")]),
'j_param_ns': (None, [(R, """  // Node handle scoped where the joint limits are defined
  ros::NodeHandle limits_nh;
  try
  {
    const std::string limits_namespace = "joint_limits/" + joint_name;
    if (!nh.hasParam(limits_namespace))
    {
      ROS_DEBUG_STREAM("No joint limits""", """  // Node handle scoped where the joint limits are defined
  ros::NodeHandle limits_nh;
  const std::string limits_namespace = std::string("joint_limits") + "/" + joint_name;
  try
  {
    const bool found = nh.hasParam(limits_namespace);
    if (!found)
    {
      ROS_DEBUG_STREAM("No joint limits""")]),
}
