CM='controller_manager/src/controller_manager.cpp'
EDITS={
'l_list_push': (None, [(CM, "  resp.controller.resize(controllers.size());\n\n", "  resp.controller.clear();\n  resp.controller.reserve(controllers.size());\n\n"),
 (CM, "    controller_manager_msgs::ControllerState& cs = resp.controller[i];\n", "    controller_manager_msgs::ControllerState cs;\n"),
 (CM, "      // should never happen\n      cs.state = \"unknown\";\n    }\n", "      // should never happen\n      cs.state = \"unknown\";\n    }\n    resp.controller.push_back(cs);\n")]),
'l_list_push2': (None, [(CM, "  resp.controller.resize(controllers.size());\n\n", "\n"),
 (CM, "    controller_manager_msgs::ControllerState& cs = resp.controller[i];\n", "    resp.controller.emplace_back();\n    controller_manager_msgs::ControllerState& cs = resp.controller.back();\n")]),
'l_list_range': (None, [(CM, "  resp.controller.resize(controllers.size());\n\n", "\n"),
 (CM, "  for (size_t i = 0; i < controllers.size(); ++i)\n  {\n    controller_manager_msgs::ControllerState& cs = resp.controller[i];\n    cs.name = controllers[i].info.name;\n    cs.type = controllers[i].info.type;\n", "  for (const ControllerSpec& spec : controllers)\n  {\n    controller_manager_msgs::ControllerState cs;\n    cs.name = spec.info.name;\n    cs.type = spec.info.type;\n"),
 (CM, "    const ClaimedResVec& c_resources = controllers[i].info.claimed_resources;\n","    const ClaimedResVec& c_resources = spec.info.claimed_resources;\n"),
 (CM, """    if (controllers[i].c->isInitialized())
    {
      cs.state = "initialized";
    }
    else if (controllers[i].c->isRunning())
    {
      cs.state = "running";
    }
    else if (controllers[i].c->isStopped())
    {
      cs.state = "stopped";
    }
    else if (controllers[i].c->isWaiting())
    {
      cs.state = "waiting";
    }
    else if (controllers[i].c->isAborted())
    {
      cs.state = "aborted";
    }
    else
    {
      // should never happen
      cs.state = "unknown";
    }
""", """    cs.state = stateName(*spec.c);
    resp.controller.push_back(std::move(cs));
"""), (CM, "bool ControllerManager::listControllersSrv(", """static std::string stateName(const controller_interface::ControllerBase& c)
{
  if (c.isInitialized())
    return "initialized";
  if (c.isRunning())
    return "running";
  if (c.isStopped())
    return "stopped";
  if (c.isWaiting())
    return "waiting";
  if (c.isAborted())
    return "aborted";
  return "unknown";
}

bool ControllerManager::listControllersSrv(""")]),
}
