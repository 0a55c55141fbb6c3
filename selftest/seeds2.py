"""Planted bugs: hardware_interface, controller_interface, combined_robot_hw."""
HWI = 'hardware_interface/include/hardware_interface/'
IMF = HWI + 'internal/interface_manager.h'; RMF = HWI + 'internal/resource_manager.h'; HRM = HWI + 'internal/hardware_resource_manager.h'
COMB = 'combined_robot_hw/src/combined_robot_hw.cpp'
CIF = 'controller_interface/include/controller_interface/'
CM = 'controller_manager/src/controller_manager.cpp'
SEEDS = {}
def S(id, property, needs, breaks, edits, demo, kind='cm', **k): SEEDS[id] = dict(property=property, needs=needs, breaks=breaks, edits=edits, demo=demo, kind=kind, **k)
CHK = '''#include <cstdio>
#include <cstdlib>
static int fails = 0;
#define CHECK(c) do { if (!(c)) { std::printf("FAILED line %d: %s\\n", __LINE__, #c); fails = 1; } } while (0)
'''
HW = CHK + '''#include <hardware_interface/robot_hw.h>
#include <hardware_interface/joint_command_interface.h>
#include <hardware_interface/joint_state_interface.h>
#include <hardware_interface/actuator_command_interface.h>
#include <hardware_interface/posvel_command_interface.h>
#include <hardware_interface/posvelacc_command_interface.h>
#include <hardware_interface/imu_sensor_interface.h>
#include <hardware_interface/force_torque_sensor_interface.h>
#include <hardware_interface/joint_mode_interface.h>
using namespace hardware_interface;
'''
S('h01_claim_first', 'H01', 'fetching handles of one interface in other than alphabetical order',
  'a resource that sorts before the ones already claimed is not recorded as claimed',
  [(HWI + 'hardware_interface.h', '''  virtual void claim(std::string resource) { claims_.insert(resource); }''', '''  virtual void claim(std::string resource) { if (claims_.count(resource) == 0 && (claims_.empty() || *claims_.begin() < resource)) claims_.insert(resource); }''')],
  HW + '''int main() { double p=0,v=0,e=0,c=0; PositionJointInterface i;
  for (const char* n : {"a","b","c"}) i.registerHandle(JointHandle(JointStateHandle(n,&p,&v,&e),&c));
  i.getHandle("b"); i.getHandle("c"); CHECK(i.getClaims().size()==2);
  i.getHandle("a"); CHECK(i.getClaims().size()==3); CHECK(i.getClaims().count("a"));
  i.clearClaims(); CHECK(i.getClaims().empty()); i.getHandle("b"); CHECK(i.getClaims().size()==1);
  return fails; }
''', kind='hw')
S('h01_claim_before', 'H01', 'asking a claiming interface for a resource it does not have',
  'a failed lookup leaves a claim on the resource behind',
  [(HRM, '''      ResourceHandle out = this->ResourceManager<ResourceHandle>::getHandle(name);

      // If ClaimPolicy type is ClaimResources, the below method claims resources, for DontClaimResources it's a no-op
      ClaimPolicy::claim(this, name);

      return out;''', '''      // If ClaimPolicy type is ClaimResources, the below method claims resources, for DontClaimResources it's a no-op
      ClaimPolicy::claim(this, name);

      return this->ResourceManager<ResourceHandle>::getHandle(name);''')],
  HW + '''int main() { double p=0,v=0,e=0,c=0; VelocityJointInterface i;
  i.registerHandle(JointHandle(JointStateHandle("a",&p,&v,&e),&c));
  i.getHandle("a"); bool t=false; try { i.getHandle("zz"); } catch (const HardwareInterfaceException&) { t=true; } CHECK(t);
  CHECK(i.getClaims().size()==1); CHECK(!i.getClaims().count("zz"));
  return fails; }
''', kind='hw')
S('h01_posvel_policy', 'H01', 'a controller using the combined position/velocity command interface',
  'position-velocity command handles are handed out without claiming the joint',
  [(HWI + 'posvel_command_interface.h', 'class PosVelJointInterface : public HardwareResourceManager<PosVelJointHandle, ClaimResources> {};', 'class PosVelJointInterface : public HardwareResourceManager<PosVelJointHandle> {};')],
  HW + '''int main() { double p=0,v=0,e=0,c=0,d=0; PosVelJointInterface i;
  i.registerHandle(PosVelJointHandle(JointStateHandle("a",&p,&v,&e),&c,&d));
  CHECK(i.getClaims().empty()); i.getHandle("a"); CHECK(i.getClaims().count("a")==1);
  return fails; }
''', kind='hw')
S('h02_register_keep', 'H02', 'registering a second handle under a name already present, with different data',
  'a re-registered handle is dropped in favour of the earlier one',
  [(RMF, '''    typename ResourceMap::iterator it = resource_map_.find(handle.getName());
    if (it == resource_map_.end())
    {
      resource_map_.insert(std::make_pair(handle.getName(), handle));
    }
    else
    {
''', '''    const bool added = resource_map_.insert(std::make_pair(handle.getName(), handle)).second;
    if (!added)
    {
'''),
   (RMF, "      it->second = handle;\n", '')],
  HW + '''int main() { double p=1,v=0,e=0,q=2; JointStateInterface i;
  i.registerHandle(JointStateHandle("a",&p,&v,&e)); i.registerHandle(JointStateHandle("b",&p,&v,&e)); i.registerHandle(JointStateHandle("a",&q,&v,&e));
  CHECK(i.getHandle("a").getPosition()==2); CHECK(i.getHandle("b").getPosition()==1); CHECK(i.getNames().size()==2);
  return fails; }
''', kind='hw')
S('h02_lower_bound', 'H02', 'looking up a name that is not registered but sorts before a registered one',
  'a lookup of an unknown name returns the next registered handle',
  [(RMF, '''    typename ResourceMap::const_iterator it = resource_map_.find(name);

    if (it == resource_map_.end())
    {
      throw''', '''    typename ResourceMap::const_iterator it = resource_map_.lower_bound(name);

    if (it == resource_map_.end())
    {
      throw''')],
  HW + '''int main() { double p=1,v=0,e=0; JointStateInterface i;
  i.registerHandle(JointStateHandle("a",&p,&v,&e)); i.registerHandle(JointStateHandle("c",&p,&v,&e));
  CHECK(i.getHandle("a").getName()=="a"); int t=0; for (const char* n : {"zz","b",""}) try { i.getHandle(n); } catch (const HardwareInterfaceException&) { ++t; }
  CHECK(t==3); return fails; }
''', kind='hw')
S('h02_concat_first', 'H02', 'combining managers which both hold a handle of the same name',
  'when interfaces are combined the handle of the first manager wins over the later registration',
  [(RMF, '''        result->registerHandle(manager->getHandle(handle_name));''', '''        if (result->resource_map_.count(handle_name) == 0)
          result->registerHandle(manager->getHandle(handle_name));''')],
  HW + '''int main() { double p=1,q=2,v=0,e=0; JointStateInterface a, b, r;
  a.registerHandle(JointStateHandle("x",&p,&v,&e)); b.registerHandle(JointStateHandle("x",&q,&v,&e)); b.registerHandle(JointStateHandle("y",&q,&v,&e));
  std::vector<JointStateInterface::ResourceManagerType*> m{&a,&b}; JointStateInterface::concatManagers(m,&r);
  CHECK(r.getNames().size()==2); CHECK(r.getHandle("x").getPosition()==2); return fails; }
''', kind='hw')
S('h03_abs_pos_ptr', 'H03', 'a joint state handle built with both an absolute position and a torque sensor',
  'the torque sensor accessor of a joint state handle reads the absolute position',
  [(HWI + 'joint_state_interface.h', '''  JointStateHandle(const std::string& name, const double* pos, const double* vel, const double* eff,
                   const double* absolute_pos, const double* torque_sensor)
    : name_(name), pos_(pos), vel_(vel), eff_(eff), absolute_pos_(absolute_pos), torque_sensor_(torque_sensor)''',
     '''  JointStateHandle(const std::string& name, const double* pos, const double* vel, const double* eff,
                   const double* absolute_pos, const double* torque_sensor)
    : name_(name), pos_(pos), vel_(vel), eff_(eff), absolute_pos_(absolute_pos), torque_sensor_(absolute_pos)''')],
  HW + '''int main() { double p=1,v=2,e=3,a=4,t=5; JointStateHandle h("j",&p,&v,&e,&a,&t);
  CHECK(h.getPosition()==1); CHECK(h.getAbsolutePosition()==4); CHECK(h.getTorqueSensor()==5); CHECK(h.getTorqueSensorPtr()==&t); return fails; }
''', kind='hw')
S('h03_null_cmd', 'H03', 'an actuator handle built with a null command pointer',
  'an actuator handle without command data is accepted',
  [(HWI + 'actuator_command_interface.h', '''    if (!cmd_)
''', '''    if (!cmd_ && !as.getPositionPtr())
''')],
  HW + '''int main() { double p=1,v=2,e=3,c=4; bool t=false; try { ActuatorHandle h(ActuatorStateHandle("j",&p,&v,&e),nullptr); } catch (const HardwareInterfaceException&) { t=true; }
  CHECK(t); ActuatorHandle h(ActuatorStateHandle("j",&p,&v,&e),&c); h.setCommand(7); CHECK(c==7); CHECK(h.getCommand()==7); return fails; }
''', kind='hw')
S('h04_combo_stale', 'H04', 'fetching a combined interface, then registering another sub-manager of the same kind and fetching again',
  'a combined interface is not rebuilt when more managers are registered',
  [(IMF, '''    if(it_combo != interfaces_combo_.end() &&
        num_ifaces_registered_[type_name] == iface_list.size()) {''', '''    if(it_combo != interfaces_combo_.end() &&
        num_ifaces_registered_[type_name] >= 2) {''')],
  HW + '''int main() { double p=1,v=0,e=0; JointStateInterface a,b,c; RobotHW r1,r2,r3,top;
  a.registerHandle(JointStateHandle("a",&p,&v,&e)); b.registerHandle(JointStateHandle("b",&p,&v,&e)); c.registerHandle(JointStateHandle("c",&p,&v,&e));
  r1.registerInterface(&a); r2.registerInterface(&b); r3.registerInterface(&c);
  top.registerInterfaceManager(&r1); CHECK(top.get<JointStateInterface>()==&a); top.registerInterfaceManager(&r2);
  CHECK(top.get<JointStateInterface>()->getNames().size()==2); CHECK(top.get<JointStateInterface>()==top.get<JointStateInterface>());
  top.registerInterfaceManager(&r3); CHECK(top.get<JointStateInterface>()->getNames().size()==3); return fails; }
''', kind='hw')
S('h04_names_adjacent', 'H04', 'sub-managers whose common interface is not the one listed last',
  'an interface present in several managers is listed more than once',
  [(IMF, '''        if (std::find(out.begin(), out.end(), interface_name) == out.end())
''', '''        if (out.empty() || out.back() != interface_name)
''')],
  HW + '''#include <algorithm>
int main() { JointStateInterface a,c; PositionJointInterface b,d; RobotHW r1,r2,top;
  r1.registerInterface(&a); r1.registerInterface(&b); r2.registerInterface(&c); r2.registerInterface(&d); top.registerInterfaceManager(&r1); top.registerInterfaceManager(&r2);
  auto n = top.getNames(); CHECK(n.size()==2); std::sort(n.begin(), n.end()); CHECK(std::unique(n.begin(), n.end())==n.end()); return fails; }
''', kind='hw')
S('h04_own_resources_hidden', 'H04', 'a manager with resources of its own that also has a sub-manager with resources of the same interface',
  'the resources of an interface omit the ones of the sub-managers when the manager has its own',
  [(IMF, '''      out = it->second;
    }
''', '''      out = it->second;
      if (!out.empty())
        return out;
    }
''')],
  HW + '''int main() { double p=1,v=0,e=0; JointStateInterface a,b; RobotHW r1,top;
  a.registerHandle(JointStateHandle("a",&p,&v,&e)); b.registerHandle(JointStateHandle("b",&p,&v,&e)); r1.registerInterface(&a); top.registerInterface(&b); top.registerInterfaceManager(&r1);
  CHECK(top.getInterfaceResources(internal::demangledTypeName<JointStateInterface>()).size()==2);
  CHECK(r1.getInterfaceResources(internal::demangledTypeName<JointStateInterface>()).size()==1); return fails; }
''', kind='hw')
CC = '''static ControllerInfo info(const char* n, std::vector<InterfaceResources> r) { ControllerInfo i; i.name=n; i.type="t"; i.claimed_resources=r; return i; }
'''
S('h05_per_interface', 'H05', 'two controllers that claim the same joint through different interfaces',
  'a joint claimed through two different interfaces is not reported as a conflict',
  [(HWI + 'robot_hw.h', '''          resource_map[iface_resource].push_back(controller_info);''', '''          resource_map[claimed_resource.hardware_interface + "/" + iface_resource].push_back(controller_info);''')],
  HW + CC + '''int main() { RobotHW r;
  CHECK(r.checkForConflict({info("a",{{"P",{"j1","j2"}}}), info("b",{{"P",{"j2"}}})}));
  CHECK(!r.checkForConflict({info("a",{{"P",{"j1"}}}), info("b",{{"P",{"j2"}}})}));
  CHECK(r.checkForConflict({info("a",{{"P",{"j1"}}}), info("b",{{"V",{"j1"}}})})); return fails; }
''', kind='hw')
S('h05_last_verdict', 'H05', 'a conflict on a resource that is not the last one in alphabetical order',
  'only the last resource decides whether there is a conflict',
  [(HWI + 'robot_hw.h', '''    bool in_conflict = false;
    for (const auto& resource_name_and_claiming_controllers : resource_map)
    {
''', '''    bool in_conflict = false;
    for (const auto& resource_name_and_claiming_controllers : resource_map)
    {
      in_conflict = false;
''')],
  HW + CC + '''int main() { RobotHW r;
  CHECK(r.checkForConflict({info("a",{{"P",{"j1","j2"}}}), info("b",{{"P",{"j2"}}})}));
  CHECK(r.checkForConflict({info("a",{{"P",{"j1","j2"}}}), info("b",{{"P",{"j1"}}})})); return fails; }
''', kind='hw')
RH = '''#include <combined_robot_hw/combined_robot_hw.h>
#include <list>
struct Sub : RobotHW { JointStateInterface js; PositionJointInterface pj; double d=0; bool ok=true; std::vector<std::list<ControllerInfo>> st, sp; SwitchState s=SwitchState::DONE; int reads=0, writes=0;
  Sub(std::vector<const char*> n) { for (auto x : n) { js.registerHandle(JointStateHandle(x,&d,&d,&d)); pj.registerHandle(JointHandle(js.getHandle(x),&d)); } registerInterface(&js); registerInterface(&pj); }
  bool prepareSwitch(const std::list<ControllerInfo>& a, const std::list<ControllerInfo>& b) override { st.push_back(a); sp.push_back(b); return ok; }
  void doSwitch(const std::list<ControllerInfo>& a, const std::list<ControllerInfo>& b) override { st.push_back(a); sp.push_back(b); }
  SwitchState switchResult() const override { return s; } SwitchState switchResult(const ControllerInfo&) const override { return s; }
  void read(const ros::Time&, const ros::Duration&) override { ++reads; } void write(const ros::Time&, const ros::Duration&) override { ++writes; } };
struct Comb : combined_robot_hw::CombinedRobotHW { void add(std::shared_ptr<Sub> s) { robot_hw_list_.push_back(s); registerInterfaceManager(s.get()); } };
static const std::string P = internal::demangledTypeName<PositionJointInterface>();
'''
S('h06_prepare_all_or', 'H06', 'one sub-hardware rejecting a switch that a later sub-hardware accepts',
  'the verdict of prepareSwitch is the one of the last sub-hardware',
  [(COMB, '''      if (!robot_hw->prepareSwitch(filtered_start_list, filtered_stop_list))
        return false;
    }
    return true;
''', '''      result = robot_hw->prepareSwitch(filtered_start_list, filtered_stop_list);
    }
    return result;
'''), (COMB, '''    // Call the prepareSwitch method of the single RobotHW objects.
''', '''    // Call the prepareSwitch method of the single RobotHW objects.
    bool result = true;
''')],
  HW + RH + CC + '''int main() { Comb c; auto a=std::make_shared<Sub>(std::vector<const char*>{"a"}), b=std::make_shared<Sub>(std::vector<const char*>{"b"}); c.add(a); c.add(b);
  CHECK(c.prepareSwitch({}, {})); b->ok=false; CHECK(!c.prepareSwitch({}, {})); b->ok=true; a->ok=false; CHECK(!c.prepareSwitch({}, {})); return fails; }
''', kind='comb')
S('h06_stop_filter_swap', 'H06', 'a switch whose start and stop lists differ, on a combined robot with several sub-hardware',
  'the list of controllers to stop is not narrowed to the resources of each sub-hardware in doSwitch',
  [(COMB, '''      robot_hw->doSwitch(filtered_start_list, filtered_stop_list);''', '''      robot_hw->doSwitch(filtered_start_list, stop_list.size() > 1 ? filtered_stop_list : stop_list);''')],
  HW + RH + CC + '''int main() { Comb c; auto a=std::make_shared<Sub>(std::vector<const char*>{"a"}), b=std::make_shared<Sub>(std::vector<const char*>{"b"}); c.add(a); c.add(b);
  c.doSwitch({info("x",{{P,{"a"}}})}, {info("y",{{P,{"b"}}})});
  CHECK(a->st[0].size()==1); CHECK(a->sp[0].size()==0); CHECK(b->st[0].size()==0); CHECK(b->sp[0].size()==1); return fails; }
''', kind='comb')
S('h06_filter_iface_accum', 'H06', 'a controller that claims several interfaces, the first of which a sub-hardware does not offer',
  'filtering stops at the first interface a sub-hardware does not offer, so later claims are lost',
  [(COMB, '''        if (if_name == r_hw_ifaces.end()) // this hardware_interface is not registered in r_hw, so we filter it out
        {
          continue;
        }
''', '''        if (if_name == r_hw_ifaces.end()) // this hardware_interface is not registered in r_hw, so we filter it out
        {
          break;
        }
''')],
  HW + RH + CC + '''int main() { Comb c; auto a=std::make_shared<Sub>(std::vector<const char*>{"a"}); c.add(a);
  c.doSwitch({info("x",{{P,{"a"}}, {"zz",{"a"}}})}, {}); CHECK(a->st[0].size()==1);
  c.doSwitch({info("x",{{"zz",{"a"}}, {P,{"a"}}})}, {}); CHECK(a->st[1].size()==1); return fails; }
''', kind='comb')
S('h07_read_first_only', 'H07', 'more than one sub-hardware',
  'the write of a combined robot skips sub-hardware after one that has been read but reports nothing to switch',
  [(COMB, '''      robot_hw->write(time, period);
    }''', '''      robot_hw->write(time, period);
      if (robot_hw->switchResult() == SwitchState::ONGOING)
        break;
    }''')],
  HW + RH + '''int main() { Comb c; auto a=std::make_shared<Sub>(std::vector<const char*>{"a"}), b=std::make_shared<Sub>(std::vector<const char*>{"b"}); c.add(a); c.add(b);
  c.read(ros::Time(), ros::Duration()); c.write(ros::Time(), ros::Duration()); CHECK(a->reads==1 && b->reads==1 && a->writes==1 && b->writes==1);
  a->s=RobotHW::SwitchState::ONGOING; c.read(ros::Time(), ros::Duration()); c.write(ros::Time(), ros::Duration()); CHECK(b->writes==2); CHECK(a->writes==2); return fails; }
''', kind='comb')
S('h08_posvelacc_acc', 'H08', 'a position-velocity-acceleration handle whose accelerations are commanded',
  'setting the combined command does not update the acceleration when the position is unchanged',
  [(HWI + 'posvelacc_command_interface.h', '''    setCommandAcceleration(cmd_acc);
''', '''    if (!(getCommandPosition() == cmd_pos && getCommandVelocity() == cmd_vel && cmd_acc == 0.0))
      setCommandAcceleration(cmd_acc);
''')],
  HW + '''int main() { double p=0,v=0,e=0,c=0,d=0,a=0; PosVelAccJointHandle h(JointStateHandle("a",&p,&v,&e),&c,&d,&a);
  h.setCommand(1,2,3); CHECK(c==1&&d==2&&a==3); h.setCommand(1,2,4); CHECK(a==4); h.setCommand(1,2,0); CHECK(a==0); return fails; }
''', kind='hw')
CI = HW + '''#include <controller_interface/controller.h>
#include <controller_interface/multi_interface_controller.h>
using namespace controller_interface;
struct Bot : RobotHW { JointStateInterface js; PositionJointInterface pj; VelocityJointInterface vj; double d=0;
  Bot(bool vel=true) { for (auto n : {"a","b"}) { js.registerHandle(JointStateHandle(n,&d,&d,&d)); pj.registerHandle(JointHandle(js.getHandle(n),&d)); vj.registerHandle(JointHandle(js.getHandle(n),&d)); }
    registerInterface(&js); registerInterface(&pj); if (vel) registerInterface(&vj); } };
struct C1 : Controller<PositionJointInterface> { std::string log; std::vector<std::string> j; bool r1=true, r2=true;
  bool init(PositionJointInterface* h, ros::NodeHandle&) override { for (auto& n : j) h->getHandle(n); return r1; }
  bool init(PositionJointInterface*, ros::NodeHandle&, ros::NodeHandle&) override { log+="2"; return r2; }
  void starting(const ros::Time&) override { log+="s"; if (isRunning()) log+="!"; } void update(const ros::Time&, const ros::Duration&) override { log+="u"; } void stopping(const ros::Time&) override { log+="p"; if (isStopped()) log+="!"; }
  void waiting(const ros::Time&) override { log+="w"; } void aborting(const ros::Time&) override { log+="a"; } };
template <class... T> struct C2 : MultiInterfaceController<T...> { C2(bool o=false) : MultiInterfaceController<T...>(o) {} bool r=true;
  bool init(RobotHW* h, ros::NodeHandle&) override { if (auto* p = h->get<PositionJointInterface>()) p->getHandle("a"); if (auto* v = h->get<VelocityJointInterface>()) v->getHandle("b"); return r; }
  void update(const ros::Time&, const ros::Duration&) override {} };
static ros::NodeHandle nh; static ros::Time t; static ros::Duration dt;
typedef ControllerBase::ClaimedResources CR;
static bool ini(ControllerBase& c, RobotHW& h, CR& r) { return c.initRequest(&h, nh, nh, r); }
'''
CB = CIF + 'controller_base.h'
S('c20_restart', 'C20', 'a start request to a controller that is already running (a restart)',
  'restarting a running controller does not call starting',
  [(CB, """      starting(time);
""", """      if (state_ != ControllerState::RUNNING)
        starting(time);
""")],
  CI + '''int main() { Bot b; C1 c; CR r; CHECK(!c.startRequest(t)); CHECK(ini(c,b,r)); CHECK(c.startRequest(t)); CHECK(c.log=="2s"); CHECK(c.startRequest(t)); CHECK(c.log.size()==3 || c.log.size()==4); c.stopRequest(t); c.log=""; c.startRequest(t); CHECK(c.log=="s"); return fails; }
''', kind='ci')
S('c20_stop_waiting', 'C20', 'a stop request to a controller that is waiting to be started',
  'stopping a waiting controller leaves it waiting',
  [(CB, """      stopping(time);
      state_ = ControllerState::STOPPED;
""", """      stopping(time);
      state_ = state_ == ControllerState::WAITING ? ControllerState::WAITING : ControllerState::STOPPED;
""")],
  CI + '''int main() { Bot b; C1 c; CR r; CHECK(ini(c,b,r)); c.startRequest(t); c.stopRequest(t); CHECK(c.isStopped()); c.waitRequest(t); CHECK(c.isWaiting()); CHECK(c.stopRequest(t)); CHECK(c.isStopped()); CHECK(c.abortRequest(t)); CHECK(c.isAborted()); c.stopRequest(t); CHECK(c.isStopped()); return fails; }
''', kind='ci')
S('c20_update_waiting', 'C20', 'a controller that is waiting while the realtime loop cycles',
  'a waiting controller is updated as if it was running',
  [(CB, """    if (state_ == ControllerState::RUNNING)
    {
      update(time, period);""", """    if (state_ >= ControllerState::RUNNING && state_ != ControllerState::STOPPED && state_ != ControllerState::ABORTED)
    {
      update(time, period);""")],
  CI + '''int main() { Bot b; C1 c; CR r; c.updateRequest(t,dt); CHECK(ini(c,b,r)); c.updateRequest(t,dt); c.startRequest(t); c.log=""; c.updateRequest(t,dt); CHECK(c.log=="u"); c.stopRequest(t); c.log=""; c.updateRequest(t,dt); CHECK(c.log=="");
  c.abortRequest(t); c.log=""; c.updateRequest(t,dt); CHECK(c.log==""); c.waitRequest(t); c.log=""; c.updateRequest(t,dt); CHECK(c.log==""); return fails; }
''', kind='ci')
S('c20_abort_constructed', 'C20', 'an abort request to a controller that was never initialised',
  'a controller that is only constructed can be aborted, which makes it startable',
  [(CB, """    // abort works from any state, except CONSTRUCTED
    if (state_ != ControllerState::CONSTRUCTED)
    {
      aborting(time);
""", """    // abort works from any state
    if (state_ != ControllerState::ABORTED || isAborted())
    {
      aborting(time);
""")],
  CI + '''int main() { Bot b; C1 c; CR r; CHECK(!c.stopRequest(t)); CHECK(!c.waitRequest(t)); CHECK(!c.abortRequest(t)); CHECK(!c.isAborted()); CHECK(!c.startRequest(t)); CHECK(c.log==""); return fails; }
''', kind='ci')
S('c21_second_init', 'C21', 'a controller whose second init variant fails after the first one succeeded',
  'a controller that failed its three-argument init counts as initialised',
  [(CIF + 'controller.h', """    if (!init(hw, controller_nh) || !init(hw, root_nh, controller_nh))
    {
      ROS_ERROR""", """    bool initialized = init(hw, controller_nh);
    if (initialized)
    {
      initialized |= init(hw, root_nh, controller_nh);
    }
    if (!initialized)
    {
      ROS_ERROR""")],
  CI + '''int main() { Bot b; CR r; { C1 c; c.r1=false; CHECK(!ini(c,b,r)); CHECK(!c.isInitialized()); CHECK(c.log==""); } { C1 c; CHECK(ini(c,b,r)); CHECK(c.log=="2"); } { C1 c; c.r2=false; CHECK(!ini(c,b,r)); CHECK(!c.isInitialized()); } return fails; }
''', kind='ci')
S('c21_stale_claims', 'C21', 'claims left on the interface by something else before a controller is initialised',
  'claims left over on the interface are attributed to the next controller that is initialised',
  [(CIF + 'controller.h', """    // return which resources are claimed by this controller
    hw->clearClaims();
""", """    // return which resources are claimed by this controller
    if (claimed_resources.empty() && hw->getClaims().size() > 1)
      hw->clearClaims();
""")],
  CI + '''int main() { Bot b; CR r; C1 c; c.j={"a"}; CHECK(ini(c,b,r)); CHECK(r.size()==1 && r[0].resources.size()==1); CHECK(b.pj.getClaims().empty());
  b.pj.getHandle("b"); C1 d; d.j={"a"}; CR q; CHECK(ini(d,b,q)); CHECK(q.size()==1 && q[0].resources.size()==1 && q[0].resources.count("a")); return fails; }
''', kind='ci')
S('c21_claims_append', 'C21', 'a claimed-resources argument that is not empty beforehand',
  'claimed resources are appended to whatever the caller passed in',
  [(CIF + 'controller.h', "    claimed_resources.assign(1, iface_res);\n", "    claimed_resources.push_back(iface_res);\n")],
  CI + '''int main() { Bot b; CR r; C1 c; c.j={"a"}; CHECK(ini(c,b,r)); CHECK(r.size()==1); C1 d; d.j={"b"}; CHECK(ini(d,b,r)); CHECK(r.size()==1 && r[0].resources.count("b")); return fails; }
''', kind='ci')
MI = CIF + 'multi_interface_controller.h'; MII = CIF + 'internal/robothw_interfaces.h'
S('c22_last_required', 'C22', 'a robot that offers the last but not the first required interface',
  'a controller is accepted when only the last of its required interfaces is available',
  [(MII, "  return hasInterfaces<T1>(robot_hw) && hasInterfaces<T2, More...>(robot_hw);", "  bool ok = hasInterfaces<T1>(robot_hw);\n  ok = hasInterfaces<T2, More...>(robot_hw);\n  return ok;")],
  CI + '''int main() { Bot full, b(false); CR r; { C2<PositionJointInterface, VelocityJointInterface> c; CHECK(ini(c,full,r)); } { C2<PositionJointInterface, VelocityJointInterface> c; CHECK(!ini(c,b,r)); CHECK(!c.isInitialized()); }
  { C2<VelocityJointInterface, PositionJointInterface> c; CHECK(!ini(c,b,r)); CHECK(!c.isInitialized()); } { C2<VelocityJointInterface, PositionJointInterface> c(true); CHECK(ini(c,b,r)); } return fails; }
''', kind='ci')
S('c22_whole_robot', 'C22', 'a controller that looks up an interface it did not declare',
  'the controller sees every interface of the robot and claims on undeclared ones go unrecorded',
  [(MI, "    if (!init(robot_hw_ctrl_p, controller_nh) || !init(robot_hw_ctrl_p, root_nh, controller_nh))", "    if (!init(robot_hw_ctrl_p, controller_nh) || !init(allow_optional_interfaces_ ? robot_hw : robot_hw_ctrl_p, root_nh, controller_nh))")],
  CI + '''struct C3 : MultiInterfaceController<JointStateInterface, PositionJointInterface> { C3(bool o) : MultiInterfaceController<JointStateInterface, PositionJointInterface>(o) {} bool saw=false;
  bool init(RobotHW* h, ros::NodeHandle&, ros::NodeHandle&) override { saw = h->get<VelocityJointInterface>() != nullptr; return true; } void update(const ros::Time&, const ros::Duration&) override {} };
int main() { Bot b; CR r; { C3 c(false); CHECK(ini(c,b,r)); CHECK(!c.saw); } { C3 c(true); CHECK(ini(c,b,r)); CHECK(!c.saw); } return fails; }
''', kind='ci')
S('c22_claims_keep', 'C22', 'initialising several controllers one after the other on the same interfaces',
  'claims of the first declared interface are not cleared after initialisation',
  [(MII, """  clearClaims<T1>(robot_hw);
  clearClaims<T2, More...>(robot_hw);""", """  if (robot_hw->get<T2>())
    clearClaims<T2, More...>(robot_hw);
  else
    clearClaims<T1>(robot_hw);""")],
  CI + '''int main() { Bot b; CR r; C2<PositionJointInterface, VelocityJointInterface> c; CHECK(ini(c,b,r)); CHECK(r.size()==2 && r[0].resources.size()==1 && r[1].resources.size()==1); CHECK(b.vj.getClaims().empty()); CHECK(b.pj.getClaims().empty()); return fails; }
''', kind='ci')
C4 = """    std::list<hardware_interface::ControllerInfo>"""
