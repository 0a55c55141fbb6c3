# Behaviour-preserving rewrites of transmission_interface: every check has to
# stay quiet on each of them.
I = "transmission_interface/include/transmission_interface/"
S = "transmission_interface/src/"
DT = I + "differential_transmission.h"
ST = I + "simple_transmission.h"
FB = I + "four_bar_linkage_transmission.h"
TI = I + "transmission_interface.h"
TL = I + "transmission_loader.h"
PA = S + "transmission_parser.cpp"
LO = S + "transmission_loader.cpp"
DL = S + "differential_transmission_loader.cpp"
FL = S + "four_bar_linkage_transmission_loader.cpp"
SL = S + "simple_transmission_loader.cpp"
TIL = S + "transmission_interface_loader.cpp"
TILH = I + "transmission_interface_loader.h"
JS = S + "joint_state_interface_provider.cpp"
PJ = S + "position_joint_interface_provider.cpp"
EJ = S + "effort_joint_interface_provider.cpp"
BP = S + "bidirectional_position_joint_interface_provider.cpp"

EDITS = {
# ---- maps -----------------------------------------------------------------
"t_diff_locals": (None, [(DT,
"""  *jnt_data.effort[0] = jr[0] * (*act_data.effort[0] * ar[0] + *act_data.effort[1] * ar[1]);
  *jnt_data.effort[1] = jr[1] * (*act_data.effort[0] * ar[0] - *act_data.effort[1] * ar[1]);
""",
"""  const double left  = *act_data.effort[0] * ar[0];
  const double right = *act_data.effort[1] * ar[1];

  *jnt_data.effort[0] = (left + right) * jr[0];
  *jnt_data.effort[1] = (left - right) * jr[1];
""")]),
"t_diff_order": (None, [(DT,
"""  *jnt_data.velocity[0] = (*act_data.velocity[0] / ar[0] + *act_data.velocity[1] / ar[1]) / (2.0 * jr[0]);
  *jnt_data.velocity[1] = (*act_data.velocity[0] / ar[0] - *act_data.velocity[1] / ar[1]) / (2.0 * jr[1]);
""",
"""  *jnt_data.velocity[1] = 0.5 * (*act_data.velocity[0] / ar[0] - *act_data.velocity[1] / ar[1]) / jr[1];
  *jnt_data.velocity[0] = 0.5 * (*act_data.velocity[0] / ar[0] + *act_data.velocity[1] / ar[1]) / jr[0];
""")]),
"t_diff_helper": (None, [(DT,
"""protected:
  std::vector<double>  act_reduction_;
""",
"""protected:
  double sumHalf(double a, double b, int joint) const
  {
    return (a / act_reduction_[0] + b / act_reduction_[1]) / (2.0 * jnt_reduction_[joint]);
  }

  std::vector<double>  act_reduction_;
"""), (DT,
"""  const std::vector<double>& ar = act_reduction_;
  const std::vector<double>& jr = jnt_reduction_;

  *jnt_data.position[0] = (*act_data.position[0] / ar[0] + *act_data.position[1] / ar[1]) / (2.0 * jr[0]) + jnt_offset_[0];
  *jnt_data.position[1] = (*act_data.position[0] / ar[0] - *act_data.position[1] / ar[1]) / (2.0 * jr[1]) + jnt_offset_[1];
""",
"""  *jnt_data.position[0] = sumHalf(*act_data.position[0],  *act_data.position[1], 0) + jnt_offset_[0];
  *jnt_data.position[1] = sumHalf(*act_data.position[0], -*act_data.position[1], 1) + jnt_offset_[1];
""")]),
"t_diff_loop": (None, [(DT,
"""  *act_data.velocity[0] = (*jnt_data.velocity[0] * jr[0] + *jnt_data.velocity[1] * jr[1]) * ar[0];
  *act_data.velocity[1] = (*jnt_data.velocity[0] * jr[0] - *jnt_data.velocity[1] * jr[1]) * ar[1];
""",
"""  for (std::size_t i = 0; i < 2; ++i)
  {
    const double sign = (i == 0) ? 1.0 : -1.0;
    *act_data.velocity[i] = (*jnt_data.velocity[0] * jr[0] + sign * *jnt_data.velocity[1] * jr[1]) * ar[i];
  }
""")]),
"t_diff_abs_swap": (None, [(DT,
"""  if(!ignore_transmission_for_absolute_encoders_)
  {
    *jnt_data.absolute_position[0] = (*act_data.absolute_position[0] / ar[0] + *act_data.absolute_position[1] / ar[1]) / (2.0 * jr[0]) + jnt_offset_[0];
    *jnt_data.absolute_position[1] = (*act_data.absolute_position[0] / ar[0] - *act_data.absolute_position[1] / ar[1]) / (2.0 * jr[1]) + jnt_offset_[1];
  }
  else
  {
    *jnt_data.absolute_position[0] = *act_data.absolute_position[1];
    *jnt_data.absolute_position[1] = *act_data.absolute_position[0];
  }
""",
"""  if(ignore_transmission_for_absolute_encoders_)
  {
    *jnt_data.absolute_position[0] = *act_data.absolute_position[1];
    *jnt_data.absolute_position[1] = *act_data.absolute_position[0];
    return;
  }
  const double a0 = *act_data.absolute_position[0] / ar[0];
  const double a1 = *act_data.absolute_position[1] / ar[1];
  *jnt_data.absolute_position[0] = (a0 + a1) / (2.0 * jr[0]) + jnt_offset_[0];
  *jnt_data.absolute_position[1] = (a0 - a1) / (2.0 * jr[1]) + jnt_offset_[1];
""")]),
"t_diff_ctor_split": (None, [(DT,
"""  if (0.0 == act_reduction_[0] ||
      0.0 == act_reduction_[1] ||
      0.0 == jnt_reduction_[0] ||
      0.0 == jnt_reduction_[1])
  {
    throw TransmissionInterfaceException("Transmission reduction ratios cannot be zero.");
  }
""",
"""  for (std::size_t i = 0; i < 2; ++i)
  {
    if (act_reduction_[i] == 0.0 || jnt_reduction_[i] == 0.0)
    {
      throw TransmissionInterfaceException("Transmission reduction ratios cannot be zero.");
    }
  }
""")]),
"t_diff_ctor_range": (None, [(DT,
"""  if (0.0 == act_reduction_[0] ||
      0.0 == act_reduction_[1] ||
      0.0 == jnt_reduction_[0] ||
      0.0 == jnt_reduction_[1])
  {
    throw TransmissionInterfaceException("Transmission reduction ratios cannot be zero.");
  }
""",
"""  for (double r : act_reduction_)
  {
    if (0.0 == r) {throw TransmissionInterfaceException("Actuator reduction ratios cannot be zero.");}
  }
  for (double r : jnt_reduction_)
  {
    if (0.0 == r) {throw TransmissionInterfaceException("Joint reduction ratios cannot be zero.");}
  }
""")]),
"t_fb_locals": (None, [(FB,
"""  *jnt_data.velocity[0] = *act_data.velocity[0] / (jr[0] * ar[0]);
  *jnt_data.velocity[1] = (*act_data.velocity[1] / ar[1] - *act_data.velocity[0] / (jr[0] * ar[0])) / jr[1];
""",
"""  const double first = *act_data.velocity[0] / ar[0] / jr[0];
  *jnt_data.velocity[0] = first;
  *jnt_data.velocity[1] = (*act_data.velocity[1] / ar[1] - first) / jr[1];
""")]),
"t_fb_expand": (None, [(FB,
"""  *act_data.position[0] = jnt_pos_off[0] * jr[0] * ar[0];
  *act_data.position[1] = (jnt_pos_off[0] + jnt_pos_off[1] * jr[1]) * ar[1];
""",
"""  const double j1 = jnt_pos_off[1] * jr[1];
  *act_data.position[0] = ar[0] * jr[0] * jnt_pos_off[0];
  *act_data.position[1] = ar[1] * jnt_pos_off[0] + ar[1] * j1;
""")]),
"t_fb_ctor_anyof": (None, [(FB,
"""  if (0.0 == act_reduction_[0] ||
      0.0 == act_reduction_[1] ||
      0.0 == jnt_reduction_[0] ||
      0.0 == jnt_reduction_[1])
  {""",
"""  const bool zero_act = act_reduction_[0] == 0.0 || act_reduction_[1] == 0.0;
  const bool zero_jnt = jnt_reduction_[0] == 0.0 || jnt_reduction_[1] == 0.0;
  if (zero_act || zero_jnt)
  {""")]),
"t_st_helper": (None, [(ST,
"""  *jnt_data.absolute_position[0] = *act_data.absolute_position[0] / reduction_ + jnt_offset_;
""",
"""  const double raw = *act_data.absolute_position[0];
  double& out = *jnt_data.absolute_position[0];
  out = raw / reduction_;
  out += jnt_offset_;
""")]),
"t_st_ctor": (None, [(ST,
"""  if (0.0 == reduction_)
  {
    throw TransmissionInterfaceException("Transmission reduction ratio cannot be zero.");
  }
""",
"""  if (reduction != 0.0) {return;}
  throw TransmissionInterfaceException("Transmission reduction ratio cannot be zero.");
""")]),
# ---- handles --------------------------------------------------------------
"t_handle_helper": (None, [(TI,
"""    if (!actuator_data.position.empty() && actuator_data.position.size() != transmission_->numActuators())
    {
      throw TransmissionInterfaceException("Actuator position data size does not match transmission.");
    }
    if (!actuator_data.velocity.empty() && actuator_data.velocity.size() != transmission_->numActuators())
    {
      throw TransmissionInterfaceException("Actuator velocity data size does not match transmission.");
    }
    if (!actuator_data.effort.empty() && actuator_data.effort.size() != transmission_->numActuators())
    {
      throw TransmissionInterfaceException("Actuator effort data size does not match transmission.");
    }
""",
"""    checkSize(actuator_data.position, transmission_->numActuators(), "Actuator position");
    checkSize(actuator_data.velocity, transmission_->numActuators(), "Actuator velocity");
    checkSize(actuator_data.effort, transmission_->numActuators(), "Actuator effort");
"""), (TI,
"""private:
  static bool hasValidPointers(const std::vector<double*>& data)
""",
"""private:
  static void checkSize(const std::vector<double*>& data, std::size_t dim, const std::string& what)
  {
    if (data.empty() || data.size() == dim) {return;}
    throw TransmissionInterfaceException(what + " data size does not match transmission.");
  }

  static bool hasValidPointers(const std::vector<double*>& data)
""")]),
"t_handle_order": (None, [(TI,
"""    if (!hasValidPointers(actuator_data.position))
    {
      throw TransmissionInterfaceException("Actuator position data contains null pointers.");
    }
    if (!hasValidPointers(actuator_data.velocity))
    {
      throw TransmissionInterfaceException("Actuator velocity data contains null pointers.");
    }
""",
"""    if (!hasValidPointers(actuator_data.velocity))
    {
      throw TransmissionInterfaceException("Actuator velocity data contains null pointers.");
    }
    if (!hasValidPointers(actuator_data.position))
    {
      throw TransmissionInterfaceException("Actuator position data contains null pointers.");
    }
""")]),
"t_handle_find": (None, [(TI,
"""    for (const auto& ptr : data)
    {
      if (!ptr) {return false;}
    }
    return true;
  }
};
""",
"""    for (std::size_t i = 0; i < data.size(); ++i)
    {
      if (data[i] == nullptr) {return false;}
    }
    return true;
  }
};
""")]),
"t_handle_allof": (None, [(TI,
"""    for (const auto& ptr : data)
    {
      if (!ptr) {return false;}
    }
    return true;
  }
};
""",
"""    return std::find(data.begin(), data.end(), nullptr) == data.end();
  }
};
"""), (TI, "#include <string>", "#include <algorithm>\n#include <string>")]),
"t_handle_empty_const": (None, [(TI,
"""    if (actuator_data.position.empty() && actuator_data.velocity.empty() && actuator_data.effort.empty() &&
        joint_data.position.empty() && joint_data.velocity.empty() && joint_data.effort.empty())
    {""",
"""    const bool no_actuator = actuator_data.position.empty() && actuator_data.velocity.empty() && actuator_data.effort.empty();
    const bool no_joint    = joint_data.position.empty() && joint_data.velocity.empty() && joint_data.effort.empty();
    if (no_actuator && no_joint)
    {""")]),
"t_propagate_iter": (None, [(TI,
"""    for (auto&& resource_name_and_handle : this->resource_map_)
    {
      resource_name_and_handle.second.propagate();
    }
""",
"""    for (auto it = this->resource_map_.begin(); it != this->resource_map_.end(); ++it)
    {
      it->second.propagate();
    }
""")]),
"t_propagate_nest": (None, [(TI,
"""    if(!actuator_data_.absolute_position.empty() && transmission_->hasActuatorToJointAbsolutePosition())
    {
       transmission_->actuatorToJointAbsolutePosition(actuator_data_, joint_data_);
    }
""",
"""    const bool absolute = transmission_->hasActuatorToJointAbsolutePosition();
    if(absolute)
    {
       if(!actuator_data_.absolute_position.empty())
       {
         transmission_->actuatorToJointAbsolutePosition(actuator_data_, joint_data_);
       }
    }
""")]),
"t_propagate_order": (None, [(TI,
"""    transmission_->jointToActuatorPosition(joint_data_, actuator_data_);
    transmission_->jointToActuatorVelocity(joint_data_, actuator_data_);
    transmission_->jointToActuatorEffort(  joint_data_, actuator_data_);
""",
"""    Transmission& t = *transmission_;
    t.jointToActuatorPosition(joint_data_, actuator_data_);
    t.jointToActuatorVelocity(joint_data_, actuator_data_);
    t.jointToActuatorEffort(joint_data_, actuator_data_);
""")]),
# ---- parser ---------------------------------------------------------------
"t_parse_while": (None, [(PA,
"""  TiXmlElement *joint_it = nullptr;
  for (joint_it = trans_it->FirstChildElement("joint"); joint_it;
       joint_it = joint_it->NextSiblingElement("joint"))
  {
""",
"""  for (TiXmlElement* joint_it = trans_it->FirstChildElement("joint"); joint_it != nullptr;
       joint_it = joint_it->NextSiblingElement("joint"))
  {
""")]),
"t_parse_name": (None, [(PA,
"""    if(joint_it->Attribute("name"))
    {
      joint.name_ = joint_it->Attribute("name");
      if (joint.name_.empty())
      {
        ROS_ERROR_STREAM_NAMED("parser","Empty name attribute specified for joint.");
        continue;
      }
    }
    else
    {
      ROS_ERROR_STREAM_NAMED("parser","No name attribute specified for joint.");
      return false;
    }
""",
"""    const char* name = joint_it->Attribute("name");
    if (!name)
    {
      ROS_ERROR_STREAM_NAMED("parser","No name attribute specified for joint.");
      return false;
    }
    joint.name_ = name;
    if (joint.name_.empty())
    {
      ROS_ERROR_STREAM_NAMED("parser","Empty name attribute specified for joint.");
      continue;
    }
""")]),
"t_parse_helper": (None, [(PA,
"""bool TransmissionParser::parseJoints(TiXmlElement *trans_it, std::vector<JointInfo>& joints)
{
""",
"""static void readInterfaces(TiXmlElement* parent, std::vector<std::string>& names)
{
  for (TiXmlElement* it = parent->FirstChildElement("hardwareInterface"); it;
       it = it->NextSiblingElement("hardwareInterface"))
  {
    const char* text = it->GetText();
    if (!text)
    {
      ROS_DEBUG_STREAM_NAMED("parser","Skipping empty hardware interface element.");
      continue;
    }
    names.push_back(text);
  }
}

bool TransmissionParser::parseJoints(TiXmlElement *trans_it, std::vector<JointInfo>& joints)
{
"""), (PA,
"""    TiXmlElement *hw_iface_it = nullptr;
    for (hw_iface_it = joint_it->FirstChildElement("hardwareInterface"); hw_iface_it;
         hw_iface_it = hw_iface_it->NextSiblingElement("hardwareInterface"))
    {
      if(!hw_iface_it) {continue;}
      if (!hw_iface_it->GetText())
      {
        ROS_DEBUG_STREAM_NAMED("parser","Skipping empty hardware interface element in joint '"
                               << joint.name_ << "'.");
        continue;
      }
      const std::string hw_iface_name = hw_iface_it->GetText();
      joint.hardware_interfaces_.push_back(hw_iface_name);
    }
""",
"""    readInterfaces(joint_it, joint.hardware_interfaces_);
""")]),
"t_parse_role": (None, [(PA,
"""    TiXmlElement *role_it = joint_it->FirstChildElement("role");
    if(role_it)
    {
      joint.role_ = role_it->GetText() ? role_it->GetText() : std::string();
    }
""",
"""    if(TiXmlElement *role_it = joint_it->FirstChildElement("role"))
    {
      if (role_it->GetText())
      {
        joint.role_ = role_it->GetText();
      }
    }
""")]),
"t_parse_type": (None, [(PA,
"""    if(!type_child)
    {
      ROS_ERROR_STREAM_NAMED("parser","No type element found in transmission '"
        << transmission.name_ << "'.");
      continue;
    }
    if (!type_child->GetText())
    {
      ROS_ERROR_STREAM_NAMED("parser","Skipping empty type element in transmission '"
                             << transmission.name_ << "'.");
      continue;
    }
    transmission.type_ = type_child->GetText();
""",
"""    const char* type_text = type_child ? type_child->GetText() : nullptr;
    if (!type_text)
    {
      ROS_ERROR_STREAM_NAMED("parser","Missing or empty type element in transmission '"
        << transmission.name_ << "'.");
      continue;
    }
    transmission.type_ = type_text;
""")]),
"t_parse_andor": (None, [(PA,
"""    if(!parseJoints(trans_it, transmission.joints_))
    {
      ROS_ERROR_STREAM_NAMED("parser","Failed to load joints for transmission '"
        << transmission.name_ << "'.");
      continue;
    }

    // Load actuators
    if(!parseActuators(trans_it, transmission.actuators_))
    {
      ROS_ERROR_STREAM_NAMED("parser","Failed to load actuators for transmission '"
        << transmission.name_ << "'.");
      continue;
    }

    // Save loaded transmission
    transmissions.push_back(transmission);
""",
"""    const bool ok = parseJoints(trans_it, transmission.joints_) &&
                    parseActuators(trans_it, transmission.actuators_);
    if (ok)
    {
      // Save loaded transmission
      transmissions.push_back(transmission);
    }
    else
    {
      ROS_ERROR_STREAM_NAMED("parser","Failed to load joints or actuators for transmission '"
        << transmission.name_ << "'.");
    }
""")]),
"t_parse_ret": (None, [(PA,
"""  if(actuators.empty())
  {
    ROS_DEBUG_NAMED("parser","No valid actuator element found.");
    return false;
  }

  return true;
""",
"""  const bool found = !actuators.empty();
  if(!found)
  {
    ROS_DEBUG_NAMED("parser","No valid actuator element found.");
  }
  return found;
""")]),
"t_parse_xml": (None, [(PA,
"""    // Joint xml element
    std::stringstream ss;
    ss << *joint_it;
    joint.xml_element_ = ss.str();

    // Add joint to vector
    joints.push_back(joint);
""",
"""    // Joint xml element
    std::stringstream xml;
    xml << *joint_it;
    joint.xml_element_ = xml.str();

    // Add joint to vector
    joints.emplace_back(joint);
""")]),
# ---- loaders --------------------------------------------------------------
"t_load_not_required": (None, [(LO,
"""    if (required)
    {
      ROS_ERROR_STREAM_NAMED("parser", "Joint '" << joint_name << "' of transmission '" << transmission_name <<
                             "' does not specify the required <offset> element.");
      return false;
    }
    else
    {
      ROS_DEBUG_STREAM_NAMED("parser", "Joint '" << joint_name << "' of transmission '" << transmission_name <<
                             "' does not specify the optional <offset> element.");
      return true;
    }
""",
"""    if (required)
    {
      ROS_ERROR_STREAM_NAMED("parser", "Joint '" << joint_name << "' of transmission '" << transmission_name <<
                             "' does not specify the required <offset> element.");
    }
    else
    {
      ROS_DEBUG_STREAM_NAMED("parser", "Joint '" << joint_name << "' of transmission '" << transmission_name <<
                             "' does not specify the optional <offset> element.");
    }
    return !required;
""")]),
"t_load_share": (None, [(LO,
"""namespace transmission_interface
{
""",
"""namespace transmission_interface
{

static bool toNumber(const TiXmlElement* el, double& value)
{
  try {value = std::stod(el->GetText());}
  catch (const std::logic_error&) {return false;}
  return true;
}
"""), (LO,
"""  try {offset = std::stod(offset_el->GetText());}
  catch (const std::logic_error&) // Captures both std::invalid_argument and std::out_of_range
  {
    ROS_ERROR_STREAM_NAMED("parser", "Joint '" << joint_name << "' of transmission '" << transmission_name <<
                           "' specifies the <offset> element, but is not a number.");
    return false;
  }
  return true;
""",
"""  if (!toNumber(offset_el, offset))
  {
    ROS_ERROR_STREAM_NAMED("parser", "Joint '" << joint_name << "' of transmission '" << transmission_name <<
                           "' specifies the <offset> element, but is not a number.");
    return false;
  }
  return true;
""")]),
"t_role_text": (None, [(LO,
"""  // Cast to number
  if (!role_el->GetText())
  {
    if (required)
    {
      ROS_ERROR_STREAM_NAMED("parser", "Joint '" << joint_name << "' of transmission '" << transmission_name <<
                             "' specifies an empty <role> element.");
      return false;
    }
    else
    {
      ROS_DEBUG_STREAM_NAMED("parser", "Joint '" << joint_name << "' of transmission '" << transmission_name <<
                             "' specifies an empty <role> element.");
      return true;
    }
  }
  role = role_el->GetText();

  return true;
""",
"""  const char* text = role_el->GetText();
  if (text)
  {
    role = text;
    return true;
  }

  if (required)
  {
    ROS_ERROR_STREAM_NAMED("parser", "Joint '" << joint_name << "' of transmission '" << transmission_name <<
                           "' specifies an empty <role> element.");
    return false;
  }
  ROS_DEBUG_STREAM_NAMED("parser", "Joint '" << joint_name << "' of transmission '" << transmission_name <<
                         "' specifies an empty <role> element.");
  return true;
""")]),
"t_dl_idmap": (None, [(DL,
"""  std::vector<unsigned int> id_map(2);
  if (ACTUATOR1_ROLE == act_roles[0])
  {
    id_map[0] = 0;
    id_map[1] = 1;

  }
  else
  {
    id_map[0] = 1;
    id_map[1] = 0;
  }
""",
"""  std::vector<unsigned int> id_map(2);
  const bool in_order = act_roles[0] == ACTUATOR1_ROLE;
  id_map[0] = in_order ? 0 : 1;
  id_map[1] = in_order ? 1 : 0;
""")]),
"t_dl_first": (None, [(DL,
"""  std::vector<unsigned int> id_map(2);
  if (JOINT1_ROLE == jnt_roles[0])
  {
    id_map[0] = 0;
    id_map[1] = 1;

  }
  else
  {
    id_map[0] = 1;
    id_map[1] = 0;
  }
""",
"""  const unsigned int first = (JOINT1_ROLE == jnt_roles[0]) ? 0u : 1u;
"""), (DL,
"""  joint_reduction.resize(2, 1.0);
  joint_offset.resize(2, 0.0);
  for (unsigned int i = 0; i < 2; ++i)
  {
    const unsigned int id = id_map[i];
""",
"""  joint_reduction.resize(2, 1.0);
  joint_offset.resize(2, 0.0);
  for (unsigned int i = 0; i < 2; ++i)
  {
    const unsigned int id = (i == 0) ? first : 1u - first;
""")]),
"t_dl_validrole": (None, [(DL,
"""    if (JOINT1_ROLE != jnt_role && JOINT2_ROLE != jnt_role)
    {""",
"""    const bool known_role = jnt_role == JOINT1_ROLE || jnt_role == JOINT2_ROLE;
    if (!known_role)
    {""")]),
"t_dl_ignore": (None, [(DL,
"""  ignore_transmission_for_absolute_encoders = true;
  for (unsigned int i = 0; i < 2; ++i)
  {
    const TiXmlElement* role_el = jnt_elements[i].FirstChildElement("ignoreTransmissionAbsoluteEncoder");
    ignore_transmission_for_absolute_encoders &= (role_el != nullptr);
  }

  return true;
""",
"""  ignore_transmission_for_absolute_encoders =
      jnt_elements[0].FirstChildElement("ignoreTransmissionAbsoluteEncoder") != nullptr &&
      jnt_elements[1].FirstChildElement("ignoreTransmissionAbsoluteEncoder") != nullptr;

  return true;
""")]),
"t_dl_load": (None, [(DL,
"""    TransmissionSharedPtr transmission(new DifferentialTransmission(act_reduction,
                                                                    jnt_reduction,
                                                                    ignore_transmission_for_absolute_encoders,
                                                                    jnt_offset));
    return transmission;
""",
"""    return std::make_shared<DifferentialTransmission>(act_reduction,
                                                      jnt_reduction,
                                                      ignore_transmission_for_absolute_encoders,
                                                      jnt_offset);
""")]),
"t_dl_checks": (None, [(DL,
"""  if (!checkActuatorDimension(transmission_info, 2)) {return TransmissionSharedPtr();}
  if (!checkJointDimension(transmission_info,    2)) {return TransmissionSharedPtr();}
""",
"""  const bool dims_ok = checkActuatorDimension(transmission_info, 2) && checkJointDimension(transmission_info, 2);
  if (!dims_ok) {return nullptr;}
""")]),
"t_fl_unroll": (None, [(FL,
"""  actuator_reduction.resize(2);
  for (unsigned int i = 0; i < 2; ++i)
  {
    const unsigned int id = id_map[i];
    if(!getActuatorReduction(act_elements[id],
                             act_names[id],
                             transmission_info.name_,
                             true, // Required
                             actuator_reduction[i]))
    {return false;}
  }

  return true;
""",
"""  actuator_reduction.resize(2);
  const unsigned int a = id_map[0];
  const unsigned int b = id_map[1];
  return getActuatorReduction(act_elements[a], act_names[a], transmission_info.name_, true, actuator_reduction[0]) &&
         getActuatorReduction(act_elements[b], act_names[b], transmission_info.name_, true, actuator_reduction[1]);
""")]),
"t_sl_combined": (None, [(SL,
"""  double reduction = 0.0;
  if(!getActuatorReduction(actuator_el,
                           transmission_info.actuators_.front().name_,
                           transmission_info.name_,
                           true, // Required
                           reduction))
    {return TransmissionSharedPtr();}
""",
"""  const ActuatorInfo& actuator = transmission_info.actuators_[0];
  double reduction = 0.0;
  const bool reduction_ok = getActuatorReduction(actuator_el, actuator.name_, transmission_info.name_, true, reduction);
  if (!reduction_ok) {return TransmissionSharedPtr();}
""")]),
"t_tl_dim": (None, [(TL,
"""    const unsigned int dim = transmission_info.joints_.size();
    if (expected_dim != dim)
    {
      ROS_ERROR_STREAM_NAMED("parser", "Invalid description for transmission '" << transmission_info.name_ <<
                             "' of type '" << transmission_info.type_ <<
                             "'. Expected " << expected_dim << " joints, got " << dim << ".");
      return false;
    }
    return true;
""",
"""    const bool ok = transmission_info.joints_.size() == expected_dim;
    if (!ok)
    {
      ROS_ERROR_STREAM_NAMED("parser", "Invalid description for transmission '" << transmission_info.name_ <<
                             "' of type '" << transmission_info.type_ <<
                             "'. Expected " << expected_dim << " joints, got " << transmission_info.joints_.size() << ".");
    }
    return ok;
""")]),
# ---- interface loader -----------------------------------------------------
"t_til_or": (None, [(TIL,
"""  const bool act_state_data_ok = getActuatorStateData(transmission_info,
                                                      loader_data.robot_hw,
                                                      handle_data.act_state_data);
  if (!act_state_data_ok) {return false;}

  const bool act_cmd_data_ok = getActuatorCommandData(transmission_info,
                                                      loader_data.robot_hw,
                                                      handle_data.act_cmd_data);
  if (!act_cmd_data_ok) {return false;}
""",
"""  if (!getActuatorStateData(transmission_info, loader_data.robot_hw, handle_data.act_state_data) ||
      !getActuatorCommandData(transmission_info, loader_data.robot_hw, handle_data.act_cmd_data))
  {
    return false;
  }
""")]),
"t_til_index": (None, [(TIL,
"""  for (const auto& info : transmission_info_vec)
  {
    if (!load(info)) {return false;}
  }
  return true;
""",
"""  for (std::size_t i = 0; i < transmission_info_vec.size(); ++i)
  {
    const bool loaded = load(transmission_info_vec[i]);
    if (!loaded) {return false;}
  }
  return true;
""")]),
"t_til_allof": (None, [(TIL,
"""  for (const auto& info : transmission_info_vec)
  {
    if (!load(info)) {return false;}
  }
  return true;
""",
"""  return std::all_of(transmission_info_vec.begin(), transmission_info_vec.end(),
                     [this](const TransmissionInfo& info) {return load(info);});
""")]),
"t_til_flag": (None, [(TIL,
"""    const bool load_ok = req_provider->loadTransmissionMaps(transmission_info, loader_data_, transmission);
    if (load_ok) {has_at_least_one_hw_iface = true;}
    else {continue;}
""",
"""    if (req_provider->loadTransmissionMaps(transmission_info, loader_data_, transmission))
    {
      has_at_least_one_hw_iface = true;
    }
""")]),
"t_til_flag_or": (None, [(TIL,
"""    const bool load_ok = req_provider->loadTransmissionMaps(transmission_info, loader_data_, transmission);
    if (load_ok) {has_at_least_one_hw_iface = true;}
    else {continue;}
""",
"""    const bool load_ok = req_provider->loadTransmissionMaps(transmission_info, loader_data_, transmission);
    has_at_least_one_hw_iface = has_at_least_one_hw_iface || load_ok;
""")]),
"t_til_parse": (None, [(TIL,
"""  if (!parser.parse(urdf, infos)) {return false;}

  if (infos.empty())
  {
    ROS_ERROR_STREAM_NAMED("parser", "No transmissions were found in the robot description.");
    return false;
  }

  return load(infos);
""",
"""  const bool parsed = parser.parse(urdf, infos);
  if (!parsed) {return false;}

  if (!infos.empty()) {return load(infos);}

  ROS_ERROR_STREAM_NAMED("parser", "No transmissions were found in the robot description.");
  return false;
""")]),
"t_til_helper": (None, [(TIL,
"""bool TransmissionInterfaceLoader::load(const std::string& urdf)
{""",
"""static bool sameInterfaces(const std::vector<std::string>& a, const std::vector<std::string>& b)
{
  return a.size() == b.size() && std::is_permutation(a.begin(), a.end(), b.begin());
}

bool TransmissionInterfaceLoader::load(const std::string& urdf)
{"""), (TIL,
"""    if (hw_ifaces_ref.size() != jnt_info.hardware_interfaces_.size() ||
        !std::is_permutation(hw_ifaces_ref.begin(), hw_ifaces_ref.end(),
                                  jnt_info.hardware_interfaces_.begin()))
    {""",
"""    if (!sameInterfaces(hw_ifaces_ref, jnt_info.hardware_interfaces_))
    {""")]),
"t_til_has": (None, [(TILH,
"""    if (existing_resources.end() != std::find(existing_resources.begin(), existing_resources.end(), name))
    {
      ROS_DEBUG_STREAM_NAMED("parser", "Resource '" << name << "' already exists on interface '" <<
                             demangledTypeName<Interface>());
      return true;
    }
    else
    {
""",
"""    const bool found = std::find(existing_resources.begin(), existing_resources.end(), name) != existing_resources.end();
    if (found)
    {
      ROS_DEBUG_STREAM_NAMED("parser", "Resource '" << name << "' already exists on interface '" <<
                             demangledTypeName<Interface>());
      return true;
    }
    else
    {
""")]),
# ---- providers ------------------------------------------------------------
"t_js_positive": (None, [(JS,
"""    if (hasResource(name, interface)) {continue;}

    // Update hardware interface
    using hardware_interface::JointStateHandle;
    RawJointData& raw_joint_data = raw_joint_data_map[name]; // Add joint if it does not yet exist
    if(raw_joint_data.hasAbsolutePosition && raw_joint_data.hasTorqueSensor)
    {
      JointStateHandle handle(name,
                              &raw_joint_data.position,
                              &raw_joint_data.velocity,
                              &raw_joint_data.effort,
                              &raw_joint_data.absolute_position,
                              &raw_joint_data.torque_sensor);
      interface.registerHandle(handle);
    }
    else if(raw_joint_data.hasAbsolutePosition)
    {
      JointStateHandle handle(name,
                              &raw_joint_data.position,
                              &raw_joint_data.velocity,
                              &raw_joint_data.effort,
                              &raw_joint_data.absolute_position);
      interface.registerHandle(handle);
    }
    else if(raw_joint_data.hasTorqueSensor)
    {
      JointStateHandle handle(name,
                              &raw_joint_data.position,
                              &raw_joint_data.velocity,
                              &raw_joint_data.effort,
                              &raw_joint_data.torque_sensor, true);
      interface.registerHandle(handle);
    }
    else
    {
      JointStateHandle handle(name,
                              &raw_joint_data.position,
                              &raw_joint_data.velocity,
                              &raw_joint_data.effort);
      interface.registerHandle(handle);
    }
""",
"""    if (hasResource(name, interface)) {continue;}

    // Update hardware interface
    using hardware_interface::JointStateHandle;
    RawJointData& raw = raw_joint_data_map[name]; // Add joint if it does not yet exist
    if(raw.hasAbsolutePosition)
    {
      if(raw.hasTorqueSensor)
      {
        interface.registerHandle(JointStateHandle(name, &raw.position, &raw.velocity, &raw.effort,
                                                  &raw.absolute_position, &raw.torque_sensor));
      }
      else
      {
        interface.registerHandle(JointStateHandle(name, &raw.position, &raw.velocity, &raw.effort,
                                                  &raw.absolute_position));
      }
    }
    else if(raw.hasTorqueSensor)
    {
      interface.registerHandle(JointStateHandle(name, &raw.position, &raw.velocity, &raw.effort,
                                                &raw.torque_sensor, true));
    }
    else
    {
      interface.registerHandle(JointStateHandle(name, &raw.position, &raw.velocity, &raw.effort));
    }
""")]),
"t_js_flags": (None, [(JS,
"""    hasAbsolutePosition = hasAbsolutePosition && raw_joint_data.hasAbsolutePosition;
    hasTorqueSensor = hasTorqueSensor && raw_joint_data.hasTorqueSensor;
""",
"""    if (!raw_joint_data.hasAbsolutePosition) {hasAbsolutePosition = false;}
    if (!raw_joint_data.hasTorqueSensor) {hasTorqueSensor = false;}
""")]),
"t_js_at": (None, [(JS,
"""    const std::string& joint_name = transmission_info.joints_[i].name_;
    RawJointDataMap::const_iterator raw_joint_data_it = raw_joint_data_map.find(joint_name);
    if (raw_joint_data_it == raw_joint_data_map.end()) {return false;} // Joint name not found!
    const RawJointData& raw_joint_data = raw_joint_data_it->second;

    hasAbsolutePosition""",
"""    const auto it = raw_joint_data_map.find(transmission_info.joints_[i].name_);
    if (it == raw_joint_data_map.end()) {return false;} // Joint name not found!
    const RawJointData& raw_joint_data = it->second;

    hasAbsolutePosition""")]),
"t_js_handle": (None, [(JS,
"""    act_state_data.position[i] = const_cast<double*>(handles[i].getPositionPtr());
    act_state_data.velocity[i] = const_cast<double*>(handles[i].getVelocityPtr());
    act_state_data.effort[i]   = const_cast<double*>(handles[i].getEffortPtr());
""",
"""    const ActuatorStateHandle& h = handles[i];
    act_state_data.effort[i]   = const_cast<double*>(h.getEffortPtr());
    act_state_data.velocity[i] = const_cast<double*>(h.getVelocityPtr());
    act_state_data.position[i] = const_cast<double*>(h.getPositionPtr());
""")]),
"t_js_pushback": (None, [(PJ,
"""  const unsigned int dim = transmission_info.joints_.size();
  jnt_cmd_data.position.resize(dim);

  for (unsigned int i = 0; i < dim; ++i)
  {
    const std::string& joint_name = transmission_info.joints_[i].name_;
    RawJointDataMap::const_iterator raw_joint_data_it = raw_joint_data_map.find(joint_name);
    if (raw_joint_data_it == raw_joint_data_map.end()) {return false;} // Joint name not found!
    const RawJointData& raw_joint_data = raw_joint_data_it->second;

    // TODO: Get rid of these const casts!
    jnt_cmd_data.position[i] = const_cast<double*>(&(raw_joint_data.position_cmd));
  }
""",
"""  const std::size_t dim = transmission_info.joints_.size();
  jnt_cmd_data.position.resize(dim);

  std::size_t i = 0;
  for (const auto& joint : transmission_info.joints_)
  {
    RawJointDataMap::const_iterator raw_it = raw_joint_data_map.find(joint.name_);
    if (raw_it == raw_joint_data_map.end()) {return false;} // Joint name not found!

    // TODO: Get rid of these const casts!
    jnt_cmd_data.position[i] = const_cast<double*>(&raw_it->second.position_cmd);
    ++i;
  }
""")]),
"t_pj_handle": (None, [(PJ,
"""    RawJointData& raw_joint_data = raw_joint_data_map[name];
    JointHandle handle(robot_hw->get<hardware_interface::JointStateInterface>()->getHandle(joint_info.name_),
                       &raw_joint_data.position_cmd);
    interface.registerHandle(handle);
""",
"""    hardware_interface::JointStateInterface& state_interface = *robot_hw->get<hardware_interface::JointStateInterface>();
    double* const command = &raw_joint_data_map[name].position_cmd;
    interface.registerHandle(JointHandle(state_interface.getHandle(name), command));
""")]),
"t_pj_register": (None, [(PJ,
"""  if (!hasResource(handle_data.name, loader_data.transmission_interfaces.act_to_jnt_state))
  {
    if (!JointStateInterfaceProvider::registerTransmission(loader_data, handle_data)) {return false;}
  }
""",
"""  const bool has_state = hasResource(handle_data.name, loader_data.transmission_interfaces.act_to_jnt_state);
  if (!has_state && !JointStateInterfaceProvider::registerTransmission(loader_data, handle_data)) {return false;}
""")]),
"t_ej_iface": (None, [(EJ,
"""  if (!robot_hw->get<EffortJointInterface>())
  {
    robot_hw->registerInterface(&joint_interfaces.effort_joint_interface);
  }
  EffortJointInterface& interface = *(robot_hw->get<EffortJointInterface>());
""",
"""  EffortJointInterface* existing = robot_hw->get<EffortJointInterface>();
  if (existing == nullptr)
  {
    robot_hw->registerInterface(&joint_interfaces.effort_joint_interface);
    existing = robot_hw->get<EffortJointInterface>();
  }
  EffortJointInterface& interface = *existing;
""")]),
"t_bp_iface": (None, [(BP,
"""    JointToActuatorStateHandle handle(handle_data.name, 
                                      handle_data.transmission.get(), 
                                      handle_data.act_state_data, 
                                      handle_data.jnt_state_data);
    interface.registerHandle(handle);
  }
""",
"""    interface.registerHandle(JointToActuatorStateHandle(handle_data.name,
                                                        handle_data.transmission.get(),
                                                        handle_data.act_state_data,
                                                        handle_data.jnt_state_data));
  }
""")]),
}
