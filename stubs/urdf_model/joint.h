#pragma once
#include <memory>
#include <string>
namespace urdf {
class JointLimits { public: double lower, upper, effort, velocity; JointLimits() : lower(0), upper(0), effort(0), velocity(0) {} };
class JointSafety { public: double soft_upper_limit, soft_lower_limit, k_position, k_velocity; JointSafety() : soft_upper_limit(0), soft_lower_limit(0), k_position(0), k_velocity(0) {} };
typedef std::shared_ptr<JointLimits> JointLimitsSharedPtr;
typedef std::shared_ptr<JointSafety> JointSafetySharedPtr;
class Joint {
public:
  enum { UNKNOWN, REVOLUTE, CONTINUOUS, PRISMATIC, FLOATING, PLANAR, FIXED } type;
  std::string name;
  JointLimitsSharedPtr limits;
  JointSafetySharedPtr safety;
};
typedef std::shared_ptr<Joint> JointSharedPtr;
typedef std::shared_ptr<const Joint> JointConstSharedPtr;
}
