From d7258a686ac2cb9e05394133b313e3aaf4cedcec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:02 +0000
Subject: [PATCH 01/15] fix: never touch the list in realtime use when ROS
 shuts down during the wait

The wait loops left their loop on !ros::ok() and fell through to clearing the
list the realtime thread was still using; the check inside the loop, meant to
give up instead, was unreachable.
---
 controller_manager/src/controller_manager.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/controller_manager/src/controller_manager.cpp b/controller_manager/src/controller_manager.cpp
index d78571d..fa9c454 100644
--- a/controller_manager/src/controller_manager.cpp
+++ b/controller_manager/src/controller_manager.cpp
@@ -235,7 +235,7 @@ bool ControllerManager::loadController(const std::string& name)
 
   // get reference to controller list
   int free_controllers_list = (current_controllers_list_ + 1) % 2;
-  while (ros::ok() && free_controllers_list == used_by_realtime_)
+  while (free_controllers_list == used_by_realtime_)
   {
     if (!ros::ok())
     {
@@ -349,7 +349,7 @@ bool ControllerManager::loadController(const std::string& name)
   // Destroys the old controllers list when the realtime thread is finished with it.
   int former_current_controllers_list_ = current_controllers_list_;
   current_controllers_list_ = free_controllers_list;
-  while (ros::ok() && used_by_realtime_ == former_current_controllers_list_)
+  while (used_by_realtime_ == former_current_controllers_list_)
   {
     if (!ros::ok())
     {
@@ -373,7 +373,7 @@ bool ControllerManager::unloadController(const std::string &name)
 
   // get reference to controller list
   int free_controllers_list = (current_controllers_list_ + 1) % 2;
-  while (ros::ok() && free_controllers_list == used_by_realtime_)
+  while (free_controllers_list == used_by_realtime_)
   {
     if (!ros::ok())
     {
@@ -416,7 +416,7 @@ bool ControllerManager::unloadController(const std::string &name)
   ROS_DEBUG("Realtime switches over to new controller list");
   int former_current_controllers_list_ = current_controllers_list_;
   current_controllers_list_ = free_controllers_list;
-  while (ros::ok() && used_by_realtime_ == former_current_controllers_list_)
+  while (used_by_realtime_ == former_current_controllers_list_)
   {
     if (!ros::ok())
     {
-- 
2.43.0


From 821d51b2d1b38f3436fb5f66260a1bf73741d158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:02 +0000
Subject: [PATCH 02/15] fix: a switch reported as failed is withdrawn from the
 realtime loop

On shutdown switchController() reported success for a switch that never
happened; on timeout the request stayed posted, so the next realtime cycle
could still switch the hardware after failure had been reported.
---
 controller_manager/src/controller_manager.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/controller_manager/src/controller_manager.cpp b/controller_manager/src/controller_manager.cpp
index fa9c454..98ca31c 100644
--- a/controller_manager/src/controller_manager.cpp
+++ b/controller_manager/src/controller_manager.cpp
@@ -613,10 +613,13 @@ bool ControllerManager::switchController(const std::vector<std::string>& start_c
   ROS_DEBUG("Request atomic controller switch from realtime loop");
   auto start_time = std::chrono::system_clock::now();
   bool timed_out = false;
-  while (ros::ok() && switch_params_.do_switch)
+  while (switch_params_.do_switch)
   {
     if (!ros::ok())
     {
+      switch_params_.do_switch = false;
+      start_request_.clear();
+      stop_request_.clear();
       return false;
     }
     std::chrono::duration<double> diff = std::chrono::system_clock::now() - start_time;
@@ -624,6 +627,7 @@ bool ControllerManager::switchController(const std::vector<std::string>& start_c
         std::this_thread::sleep_for(std::chrono::microseconds(100));
     } else {
         ROS_DEBUG("Timed out while switching controllers. Exiting...");
+        switch_params_.do_switch = false;
         timed_out = true;
         break;
     }
-- 
2.43.0


From a59283660076cdf97cb610b2d2fcb949104094e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:02 +0000
Subject: [PATCH 03/15] fix: reset the switch parameters only with the
 controllers locked

A second switchController() call wiped the parameters of the one in progress
before waiting for its lock.
---
 controller_manager/src/controller_manager.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/controller_manager/src/controller_manager.cpp b/controller_manager/src/controller_manager.cpp
index 98ca31c..42fdd71 100644
--- a/controller_manager/src/controller_manager.cpp
+++ b/controller_manager/src/controller_manager.cpp
@@ -437,6 +437,9 @@ bool ControllerManager::switchController(const std::vector<std::string>& start_c
                                          const std::vector<std::string>& stop_controllers,
                                          int strictness, bool start_asap, double timeout)
 {
+  // lock controllers
+  std::lock_guard<std::recursive_mutex> guard(controllers_lock_);
+
   switch_params_ = SwitchParams();
 
   if (!stop_request_.empty() || !start_request_.empty())
@@ -455,9 +458,6 @@ bool ControllerManager::switchController(const std::vector<std::string>& start_c
   for (const auto& controller : stop_controllers)
     ROS_DEBUG(" - stopping controller '%s'", controller.c_str());
 
-  // lock controllers
-  std::lock_guard<std::recursive_mutex> guard(controllers_lock_);
-
   controller_interface::ControllerBase* ct;
   // list all controllers to stop
   for (const auto& controller : stop_controllers)
-- 
2.43.0


From 55e6dddc81e01be954e28357c51e812505d1f55d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:24 +0000
Subject: [PATCH 04/15] fix: best-effort switches really ignore the entries
 they skip

A controller that was already running stayed in the start request, so it was
started a second time or, while the hardware was switching or had failed to
switch, set waiting or aborted. A controller that was not running stayed in
the stop request and could be stopped after it had been started as soon as
possible by the same switch.
---
 controller_manager/src/controller_manager.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/controller_manager/src/controller_manager.cpp b/controller_manager/src/controller_manager.cpp
index 42fdd71..9629090 100644
--- a/controller_manager/src/controller_manager.cpp
+++ b/controller_manager/src/controller_manager.cpp
@@ -547,6 +547,7 @@ bool ControllerManager::switchController(const std::vector<std::string>& start_c
         return false;
       } else {
         in_stop_list = false;
+        stop_request_.erase(std::remove(stop_request_.begin(), stop_request_.end(), controller.c.get()), stop_request_.end());
       }
     }
 
@@ -558,6 +559,7 @@ bool ControllerManager::switchController(const std::vector<std::string>& start_c
         return false;
       } else {
         in_start_list = false;
+        start_request_.erase(std::remove(start_request_.begin(), start_request_.end(), controller.c.get()), start_request_.end());
       }
     }
 
-- 
2.43.0


From 8b5d55ecc219fa4544c2f360f266f5ba95623a83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:24 +0000
Subject: [PATCH 05/15] fix: CombinedRobotHW reports the switch result of its
 hardware

It inherited the defaults, so controllers were started although a combined
RobotHW was still switching or had failed to switch.
---
 .../combined_robot_hw/combined_robot_hw.h     | 10 +++++++
 combined_robot_hw/src/combined_robot_hw.cpp   | 29 +++++++++++++++++++
 2 files changed, 39 insertions(+)

diff --git a/combined_robot_hw/include/combined_robot_hw/combined_robot_hw.h b/combined_robot_hw/include/combined_robot_hw/combined_robot_hw.h
index d1e1d34..e1f6601 100644
--- a/combined_robot_hw/include/combined_robot_hw/combined_robot_hw.h
+++ b/combined_robot_hw/include/combined_robot_hw/combined_robot_hw.h
@@ -81,6 +81,16 @@ public:
   void doSwitch(const std::list<hardware_interface::ControllerInfo>& start_list,
                 const std::list<hardware_interface::ControllerInfo>& stop_list) override;
 
+  /**
+   * Return (in realtime) the combined state of the last doSwitch() of the single RobotHW objects.
+   */
+  SwitchState switchResult() const override;
+
+  /**
+   * Return (in realtime) the combined state of the last doSwitch() of the single RobotHW objects for a given controller.
+   */
+  SwitchState switchResult(const hardware_interface::ControllerInfo& controller) const override;
+
   /**
    * Reads data from the robot HW
    *
diff --git a/combined_robot_hw/src/combined_robot_hw.cpp b/combined_robot_hw/src/combined_robot_hw.cpp
index 24b24f4..aa8acf2 100644
--- a/combined_robot_hw/src/combined_robot_hw.cpp
+++ b/combined_robot_hw/src/combined_robot_hw.cpp
@@ -89,6 +89,35 @@ namespace combined_robot_hw
     }
   }
 
+  hardware_interface::RobotHW::SwitchState CombinedRobotHW::switchResult() const
+  {
+    // The switch is over when it is over in all RobotHW objects, and failed when it failed in any of them.
+    SwitchState result = SwitchState::DONE;
+    for (const auto& robot_hw : robot_hw_list_)
+    {
+      const SwitchState state = robot_hw->switchResult();
+      if (state == SwitchState::ERROR)
+        return SwitchState::ERROR;
+      if (state == SwitchState::ONGOING)
+        result = SwitchState::ONGOING;
+    }
+    return result;
+  }
+
+  hardware_interface::RobotHW::SwitchState CombinedRobotHW::switchResult(const hardware_interface::ControllerInfo& controller) const
+  {
+    SwitchState result = SwitchState::DONE;
+    for (const auto& robot_hw : robot_hw_list_)
+    {
+      const SwitchState state = robot_hw->switchResult(controller);
+      if (state == SwitchState::ERROR)
+        return SwitchState::ERROR;
+      if (state == SwitchState::ONGOING)
+        result = SwitchState::ONGOING;
+    }
+    return result;
+  }
+
   bool CombinedRobotHW::loadRobotHW(const std::string& name)
   {
     ROS_DEBUG("Will load robot HW '%s'", name.c_str());
-- 
2.43.0


From 33b27c528de1271700d06b9579dc06e849504913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:57 +0000
Subject: [PATCH 06/15] fix: check the size of the actuator torque sensor data

The check tested the absolute position vector a second time.
---
 .../include/transmission_interface/transmission_interface.h     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/transmission_interface/include/transmission_interface/transmission_interface.h b/transmission_interface/include/transmission_interface/transmission_interface.h
index 0b3b87a..9697cf2 100644
--- a/transmission_interface/include/transmission_interface/transmission_interface.h
+++ b/transmission_interface/include/transmission_interface/transmission_interface.h
@@ -106,7 +106,7 @@ protected:
     {
       throw TransmissionInterfaceException("Actuator absolute position data size does not match transmission.");
     }
-    if (!actuator_data.absolute_position.empty() && actuator_data.absolute_position.size() != transmission_->numActuators())
+    if (!actuator_data.torque_sensor.empty() && actuator_data.torque_sensor.size() != transmission_->numActuators())
     {
       throw TransmissionInterfaceException("Actuator torque sensor data size does not match transmission.");
     }
-- 
2.43.0


From d58251e6d59a8f0628a81186e513dcc1c6da4ead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:57 +0000
Subject: [PATCH 07/15] fix: differential absolute position assertion looks at
 the data it uses

It read the position vector, which may be empty for this map.
---
 .../include/transmission_interface/differential_transmission.h  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/transmission_interface/include/transmission_interface/differential_transmission.h b/transmission_interface/include/transmission_interface/differential_transmission.h
index e2c1c24..939d61a 100644
--- a/transmission_interface/include/transmission_interface/differential_transmission.h
+++ b/transmission_interface/include/transmission_interface/differential_transmission.h
@@ -309,7 +309,7 @@ inline void DifferentialTransmission::actuatorToJointAbsolutePosition(const Actu
                                                                             JointData&    jnt_data)
 {
   assert(numActuators() == act_data.absolute_position.size() && numJoints() == jnt_data.absolute_position.size());
-  assert(act_data.position[0] && act_data.absolute_position[1] && jnt_data.absolute_position[0] && jnt_data.absolute_position[1]);
+  assert(act_data.absolute_position[0] && act_data.absolute_position[1] && jnt_data.absolute_position[0] && jnt_data.absolute_position[1]);
 
   const std::vector<double>& ar = act_reduction_;
   const std::vector<double>& jr = jnt_reduction_;
-- 
2.43.0


From 3ed2de7331c08746b4fb4b68e632078d693292fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:57 +0000
Subject: [PATCH 08/15] fix: declare the four-bar linkage absolute position and
 torque sensor maps inline

They are defined in a header, so two including files did not link.
---
 .../transmission_interface/four_bar_linkage_transmission.h    | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/transmission_interface/include/transmission_interface/four_bar_linkage_transmission.h b/transmission_interface/include/transmission_interface/four_bar_linkage_transmission.h
index 1cdb6d5..8e16f9b 100644
--- a/transmission_interface/include/transmission_interface/four_bar_linkage_transmission.h
+++ b/transmission_interface/include/transmission_interface/four_bar_linkage_transmission.h
@@ -283,7 +283,7 @@ inline void FourBarLinkageTransmission::actuatorToJointPosition(const ActuatorDa
                           + jnt_offset_[1];
 }
 
-void FourBarLinkageTransmission::actuatorToJointAbsolutePosition(const ActuatorData& act_data,
+inline void FourBarLinkageTransmission::actuatorToJointAbsolutePosition(const ActuatorData& act_data,
                                                                        JointData&    jnt_data)
 {
 
@@ -298,7 +298,7 @@ void FourBarLinkageTransmission::actuatorToJointAbsolutePosition(const ActuatorD
                                     jr[1] + jnt_offset_[1];
 }
 
-void FourBarLinkageTransmission::actuatorToJointTorqueSensor(const ActuatorData& act_data,
+inline void FourBarLinkageTransmission::actuatorToJointTorqueSensor(const ActuatorData& act_data,
                                                                    JointData&    jnt_data)
 {
 
-- 
2.43.0


From bce66128c3ba22dd285670a7d595b2d0f90e382b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:57 +0000
Subject: [PATCH 09/15] fix: a robot description without a root element is
 rejected

Parsing a document holding only a comment or declaration crashed.
---
 transmission_interface/src/transmission_parser.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/transmission_interface/src/transmission_parser.cpp b/transmission_interface/src/transmission_parser.cpp
index 54835a3..339ba0f 100644
--- a/transmission_interface/src/transmission_parser.cpp
+++ b/transmission_interface/src/transmission_parser.cpp
@@ -51,6 +51,11 @@ bool TransmissionParser::parse(const std::string& urdf, std::vector<Transmission
 
   // Find joints in transmission tags
   TiXmlElement *root = doc.RootElement();
+  if (!root)
+  {
+    ROS_ERROR("Can't parse transmissions. Robot description has no root element.");
+    return false;
+  }
 
   // Constructs the transmissions by parsing custom xml.
   TiXmlElement *trans_it = nullptr;
-- 
2.43.0


From a52a362003097f24d4a4f0423813ba0d24a81a9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:23 +0000
Subject: [PATCH 10/15] fix: command interfaces use the joint state handles of
 the robot

When the robot brings its own joint state interface, the joints are registered
there and looking them up in the loader's own interface threw.
---
 transmission_interface/src/effort_joint_interface_provider.cpp  | 2 +-
 .../src/position_joint_interface_provider.cpp                   | 2 +-
 .../src/velocity_joint_interface_provider.cpp                   | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/transmission_interface/src/effort_joint_interface_provider.cpp b/transmission_interface/src/effort_joint_interface_provider.cpp
index b9ab5b9..9cf7f60 100644
--- a/transmission_interface/src/effort_joint_interface_provider.cpp
+++ b/transmission_interface/src/effort_joint_interface_provider.cpp
@@ -65,7 +65,7 @@ bool EffortJointInterfaceProvider::updateJointInterfaces(const TransmissionInfo&
     // Update hardware interface
     using hardware_interface::JointHandle;
     RawJointData& raw_joint_data = raw_joint_data_map[name];
-    JointHandle handle(joint_interfaces.joint_state_interface.getHandle(joint_info.name_),
+    JointHandle handle(robot_hw->get<hardware_interface::JointStateInterface>()->getHandle(joint_info.name_),
                        &raw_joint_data.effort_cmd);
     interface.registerHandle(handle);
   }
diff --git a/transmission_interface/src/position_joint_interface_provider.cpp b/transmission_interface/src/position_joint_interface_provider.cpp
index d032662..1592bec 100644
--- a/transmission_interface/src/position_joint_interface_provider.cpp
+++ b/transmission_interface/src/position_joint_interface_provider.cpp
@@ -65,7 +65,7 @@ bool PositionJointInterfaceProvider::updateJointInterfaces(const TransmissionInf
     // Update hardware interface
     using hardware_interface::JointHandle;
     RawJointData& raw_joint_data = raw_joint_data_map[name];
-    JointHandle handle(joint_interfaces.joint_state_interface.getHandle(joint_info.name_),
+    JointHandle handle(robot_hw->get<hardware_interface::JointStateInterface>()->getHandle(joint_info.name_),
                        &raw_joint_data.position_cmd);
     interface.registerHandle(handle);
   }
diff --git a/transmission_interface/src/velocity_joint_interface_provider.cpp b/transmission_interface/src/velocity_joint_interface_provider.cpp
index a3cca76..fc4df29 100644
--- a/transmission_interface/src/velocity_joint_interface_provider.cpp
+++ b/transmission_interface/src/velocity_joint_interface_provider.cpp
@@ -65,7 +65,7 @@ bool VelocityJointInterfaceProvider::updateJointInterfaces(const TransmissionInf
     // Update hardware interface
     using hardware_interface::JointHandle;
     RawJointData& raw_joint_data = raw_joint_data_map[name];
-    JointHandle handle(joint_interfaces.joint_state_interface.getHandle(joint_info.name_),
+    JointHandle handle(robot_hw->get<hardware_interface::JointStateInterface>()->getHandle(joint_info.name_),
                        &raw_joint_data.velocity_cmd);
     interface.registerHandle(handle);
   }
-- 
2.43.0


From 4b2fc4f2bb00353c68e245550be05a2e4be8c804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:23 +0000
Subject: [PATCH 11/15] fix: a transmission that could not be registered is not
 reported as loaded

---
 transmission_interface/src/transmission_interface_loader.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/transmission_interface/src/transmission_interface_loader.cpp b/transmission_interface/src/transmission_interface_loader.cpp
index 0b86528..24d2ba9 100644
--- a/transmission_interface/src/transmission_interface_loader.cpp
+++ b/transmission_interface/src/transmission_interface_loader.cpp
@@ -81,9 +81,7 @@ bool RequisiteProvider::loadTransmissionMaps(const TransmissionInfo& transmissio
   loader_data.transmission_data.push_back(transmission);
 
   // Register transmission
-  registerTransmission(loader_data, handle_data);
-
-  return true;
+  return registerTransmission(loader_data, handle_data);
 }
 
 TransmissionInterfaceLoader::TransmissionInterfaceLoader(hardware_interface::RobotHW* robot_hw,
-- 
2.43.0


From e74055ee597ad2d70a4b53f2f9ce6e9197a13da8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:48 +0000
Subject: [PATCH 12/15] fix: spawner --wait-for raises TypeError when waiting
 without a timeout

---
 controller_manager/scripts/spawner | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/controller_manager/scripts/spawner b/controller_manager/scripts/spawner
index af1dfaf..62f6960 100755
--- a/controller_manager/scripts/spawner
+++ b/controller_manager/scripts/spawner
@@ -167,7 +167,7 @@ def main():
             if rospy.is_shutdown():
                 return
             if not warned_about_not_hearing_anything:
-                if time.time() - started_waiting > timeout:
+                if timeout is not None and time.time() - started_waiting > timeout:
                     warned_about_not_hearing_anything = True
                     rospy.logwarn("Controller Spawner hasn't heard anything from its \"wait for\" topic (%s)" % \
                                       wait_for_topic)
-- 
2.43.0


From df75fbcb2fb8dd523fb2bfa16dace058133fc2b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:48 +0000
Subject: [PATCH 13/15] fix: spawner calls yaml.load without the Loader that
 PyYAML 6 requires

---
 controller_manager/scripts/spawner | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/controller_manager/scripts/spawner b/controller_manager/scripts/spawner
index 62f6960..55c6bf0 100755
--- a/controller_manager/scripts/spawner
+++ b/controller_manager/scripts/spawner
@@ -186,7 +186,7 @@ def main():
             # load yaml file onto the parameter server, using the namespace specified in the yaml file
             rosparam.set_param("",open(name))
             # list the controllers to be loaded
-            name_yaml = yaml.load(open(name))
+            name_yaml = yaml.safe_load(open(name))
             for controller in name_yaml:
                 controllers.append(controller)
         else:
-- 
2.43.0


From c61fd149e2bf29ecb56677a01477a8ba52878ee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:48 +0000
Subject: [PATCH 14/15] fix: filter_by_resources uses an unset flag when no
 resources are asked for

---
 controller_manager_msgs/src/controller_manager_msgs/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/controller_manager_msgs/src/controller_manager_msgs/utils.py b/controller_manager_msgs/src/controller_manager_msgs/utils.py
index c41a5ff..b57d6bd 100644
--- a/controller_manager_msgs/src/controller_manager_msgs/utils.py
+++ b/controller_manager_msgs/src/controller_manager_msgs/utils.py
@@ -366,8 +366,8 @@ def filter_by_resources(ctrl_list,
         for resource_set in ctrl.claimed_resources:
             if (hardware_interface is None or
                 hardware_interface == resource_set.hardware_interface):
+                add_ctrl = not match_any  # Initial flag value
                 for res in resources:
-                    add_ctrl = not match_any  # Initial flag value
                     if res in resource_set.resources:
                         if match_any:  # One hit: enough to accept controller
                             add_ctrl = True
-- 
2.43.0


From 1111460ab2d849085b00a1693668da9921e54a1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:30 +0000
Subject: [PATCH 15/15] fix: rqt_controller_manager has no icon for waiting and
 aborted controllers (KeyError)

---
 .../src/rqt_controller_manager/controller_manager.py          | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rqt_controller_manager/src/rqt_controller_manager/controller_manager.py b/rqt_controller_manager/src/rqt_controller_manager/controller_manager.py
index 97448f7..ab30e1f 100644
--- a/rqt_controller_manager/src/rqt_controller_manager/controller_manager.py
+++ b/rqt_controller_manager/src/rqt_controller_manager/controller_manager.py
@@ -103,7 +103,9 @@ class ControllerManager(Plugin):
         self._icons = {'running': QIcon(path + '/resource/led_green.png'),
                        'stopped': QIcon(path + '/resource/led_red.png'),
                        'uninitialized': QIcon(path + '/resource/led_off.png'),
-                       'initialized': QIcon(path + '/resource/led_red.png')}
+                       'initialized': QIcon(path + '/resource/led_red.png'),
+                       'waiting': QIcon(path + '/resource/led_red.png'),
+                       'aborted': QIcon(path + '/resource/led_red.png')}
 
         # Controllers display
         table_view = self._widget.table_view
-- 
2.43.0

