SP='controller_manager/scripts/spawner'; US='controller_manager/scripts/unspawner'; CS='controller_manager/scripts/controller_manager'; CG='controller_manager/scripts/controller_group'
CI='controller_manager/src/controller_manager/controller_manager_interface.py'; UT='controller_manager_msgs/src/controller_manager_msgs/utils.py'
RQ='rqt_controller_manager/src/rqt_controller_manager/controller_manager.py'; UC='rqt_controller_manager/src/rqt_controller_manager/update_combo.py'
EDITS={
'p_sp_endswith': (None, [(SP, "if robot_namespace and robot_namespace[-1] != '/':\n        robot_namespace = robot_namespace+'/'", "if robot_namespace and not robot_namespace.endswith('/'):\n        robot_namespace += '/'")]),
'p_sp_svc_helper': (None, [(SP, "def main():\n    global", "def cm_service(ns, name):\n    return ns + 'controller_manager/' + name\n\ndef main():\n    global"),
   (SP, 'robot_namespace+"controller_manager/load_controller"', "cm_service(robot_namespace, 'load_controller')"), (SP, 'robot_namespace+"controller_manager/unload_controller"', "cm_service(robot_namespace, 'unload_controller')"), (SP, 'robot_namespace+"controller_manager/switch_controller"', "cm_service(robot_namespace, 'switch_controller')")]),
'p_sp_timeout': (None, [(SP, "    if args.no_timeout or args.timeout <= 0:\n        timeout = None\n    else:\n        timeout = args.timeout\n", "    timeout = None\n    if not args.no_timeout and args.timeout > 0:\n        timeout = args.timeout\n")]),
'p_sp_autostart': (None, [(SP, "autostart = 1 if not args.stopped else 0", "autostart = not args.stopped")]),
'p_sp_strict_const': (None, [(SP, "switch_controller(loaded, [], 2, False, 0.0)", "switch_controller(start_controllers=loaded, stop_controllers=[], strictness=SwitchControllerRequest.STRICT, start_asap=False, timeout=0.0)")]),
'p_sp_req_obj': (None, [(SP, "resp = switch_controller(loaded, [], 2, False, 0.0)", "request = SwitchControllerRequest()\n        request.start_controllers = loaded\n        request.strictness = 2\n        resp = switch_controller(request)")]),
'p_sp_extend': (None, [(SP, "            for controller in name_yaml:\n                controllers.append(controller)\n", "            controllers.extend(name_yaml)\n")]),
'p_sp_ifnot': (None, [(SP, "        if os.path.exists(name):\n", "        if not os.path.exists(name):\n            controllers.append(name)\n        else:\n"), (SP, "                controllers.append(controller)\n        else:\n            controllers.append(name)\n", "                controllers.append(controller)\n")]),
'p_sp_okbool': (None, [(SP, "        if resp.ok != 0:\n            loaded.append(name)\n", "        if resp.ok:\n            loaded.append(name)\n")]),
'p_sp_fail_first': (None, [(SP, "        if resp.ok != 0:\n            loaded.append(name)\n        else:\n            time.sleep(1) # give error message a chance to get out\n            rospy.logerr(\"Failed to load %s\" % name)\n", "        if not resp.ok:\n            time.sleep(1) # give error message a chance to get out\n            rospy.logerr(\"Failed to load \" + name)\n            continue\n        loaded.append(name)\n")]),
'p_sp_spin_return': (None, [(SP, "    # start controllers is requested\n    if autostart:\n", "    # start controllers is requested\n    if not autostart:\n        rospy.spin()\n        return\n    else:\n")]),
'p_sp_find_yaml': (None, [(SP, "def main():\n    global", "def find_controllers(names):\n    controllers = []\n    for name in names:\n        if os.path.exists(name):\n            rosparam.set_param(\"\", open(name))\n            for controller in yaml.safe_load(open(name)):\n                controllers.append(controller)\n        else:\n            controllers.append(name)\n    return controllers\n\ndef main():\n    global"),
   (SP, """    controllers = []
    for name in args.controllers:
        if os.path.exists(name):
            # load yaml file onto the parameter server, using the namespace specified in the yaml file
            rosparam.set_param("",open(name))
            # list the controllers to be loaded
            name_yaml = yaml.safe_load(open(name))
            for controller in name_yaml:
                controllers.append(controller)
        else:
            controllers.append(name)
""", "    controllers = find_controllers(args.controllers)\n")]),
'p_sp_shutdown_slice': (None, [(SP, "for name in reversed(loaded):", "for name in loaded[::-1]:")]),
'p_sp_shutdown_kw': (None, [(SP, "switch_controller([], loaded, SwitchControllerRequest.STRICT, False, 0.0)", "switch_controller(stop_controllers=loaded, strictness=SwitchControllerRequest.STRICT)")]),
'p_sp_shutdown_split': (None, [(SP, "def shutdown():\n", "def stop_all(names):\n    switch_controller = rospy.ServiceProxy(switch_controller_service, SwitchController)\n    switch_controller([], names, SwitchControllerRequest.STRICT, False, 0.0)\n\ndef shutdown():\n"), (SP, "        switch_controller([], loaded, SwitchControllerRequest.STRICT, False, 0.0)\n", "        stop_all(loaded)\n"), (SP, "        # switcher\n        switch_controller = rospy.ServiceProxy(switch_controller_service, SwitchController)\n\n        rospy.loginfo(\"Stopping", "        rospy.loginfo(\"Stopping")]),
'p_sp_waitloop': (None, [(SP, "        while not wait_for_topic_result[0].data:\n            time.sleep(0.01)\n            if rospy.is_shutdown():\n                return\n", "        while not wait_for_topic_result[0].data:\n            time.sleep(0.02)\n            if rospy.is_shutdown():\n                return\n")]),
'p_sp_found_true': (None, [(SP, "    services_found = False\n    while not services_found:\n", "    while True:\n"), (SP, "        else:\n            services_found = True\n", "        else:\n            break\n")]),
'p_us_comp': (None, [(US, "set(cs.name for cs in list_controllers().controller if cs.state == 'running')", "{c.name for c in list_controllers().controller if c.state == 'running'}")]),
'p_us_loop': (None, [(US, "        to_stop = to_inhibit & set(cs.name for cs in list_controllers().controller if cs.state == 'running')\n", "        running = set()\n        for cs in list_controllers().controller:\n            if cs.state == 'running':\n                running.add(cs.name)\n        to_stop = running & to_inhibit\n")]),
'p_us_early': (None, [(US, "        if to_stop:\n            rospy.logout(\"Inhibiting controllers: %s\" % ', '.join(to_stop))\n            switch_controller(strictness = SwitchControllerRequest.BEST_EFFORT,\n                              stop_controllers = list(to_stop))\n            inhibited.update(to_stop)\n", "        if not to_stop:\n            return\n        rospy.logout(\"Inhibiting controllers: %s\" % ', '.join(to_stop))\n        switch_controller(stop_controllers = list(to_stop),\n                          strictness = SwitchControllerRequest.BEST_EFFORT)\n        inhibited.update(to_stop)\n")]),
'p_cs_in': (None, [(CS, "if args[1] == 'lt' or args[1] == 'list-types':", "if args[1] in ('lt', 'list-types'):"), (CS, "elif args[1] == 'lc' or args[1] == 'list':", "elif args[1] in ['lc', 'list']:")]),
'p_cs_cmd': (None, [(CS, "        if args[1] == 'lt' or", "        names = args[2:]\n        if args[1] == 'lt' or"), (CS, "        elif args[1] == 'unload':\n            for c in args[2:]:\n", "        elif args[1] == 'unload':\n            for c in names:\n")]),
'p_cs_restore': (None, [(CS, "            if '--restore' in args[2:]:\n                controller_manager_interface.reload_libraries(True, restore = True)\n            else:\n                controller_manager_interface.reload_libraries(True)\n", "            controller_manager_interface.reload_libraries(True, restore='--restore' in args[2:])\n")]),
'p_cs_spawn_helper': (None, [(CS, "if __name__ == '__main__':\n", "def spawn(names):\n    for c in names:\n        controller_manager_interface.load_controller(c)\n    for c in names:\n        controller_manager_interface.start_controller(c)\n\n\nif __name__ == '__main__':\n"), (CS, "        elif args[1] == 'sp' or args[1] == 'spawn':\n            for c in args[2:]:\n                controller_manager_interface.load_controller(c)\n            for c in args[2:]:\n                controller_manager_interface.start_controller(c)\n", "        elif args[1] == 'sp' or args[1] == 'spawn':\n            spawn(args[2:])\n")]),
'p_ci_result': (None, [(CI, "    if resp.ok:\n        print(\"Successfully reloaded libraries\")\n        result = True\n    else:\n        print(\"Failed to reload libraries. Do you still have controllers loaded?\")\n        result = False\n", "    result = bool(resp.ok)\n    if result:\n        print(\"Successfully reloaded libraries\")\n    else:\n        print(\"Failed to reload libraries. Do you still have controllers loaded?\")\n")]),
'p_ci_tostart_loop': (None, [(CI, "        for c in originally.controller:\n            load_srv(c.name)\n        to_start = [c.name for c in originally.controller if c.state == 'running']\n", "        to_start = []\n        for c in originally.controller:\n            load_srv(c.name)\n            if c.state == 'running':\n                to_start.append(c.name)\n")]),
'p_ci_call': (None, [(CI, "    resp = s.call(LoadControllerRequest(name))\n", "    resp = s(name)\n")]),
'p_ci_early': (None, [(CI, "    if resp.ok == 1:\n        print(\"Unloaded \\'\" + name + \"\\' successfully\")\n        return True\n    else:\n        print(\"Error when unloading \\'\" + name + \"\\'\")\n        return False\n", "    if not resp.ok:\n        print(\"Error when unloading '%s'\" % name)\n        return False\n    print(\"Unloaded '{}' successfully\".format(name))\n    return True\n")]),
'p_ci_none_default': (None, [(CI, "def start_stop_controllers(start_controllers=[], stop_controllers=[]):\n", "def start_stop_controllers(start_controllers=(), stop_controllers=()):\n    start_controllers = list(start_controllers)\n    stop_controllers = list(stop_controllers)\n")]),
'p_ci_req': (None, [(CI, "    strictness = SwitchControllerRequest.STRICT\n    resp = s.call(SwitchControllerRequest(start_controllers, stop_controllers, strictness, False, 0.0))\n", "    req = SwitchControllerRequest()\n    req.start_controllers = start_controllers\n    req.stop_controllers = stop_controllers\n    req.strictness = SwitchControllerRequest.STRICT\n    resp = s.call(req)\n")]),
'p_ci_hwi': (None, [(CI, "            hwi = list(set(r.hardware_interface for r in  c.claimed_resources))\n            print(\"'%s' - '%s' ( %s )\" % (c.name, \"+\".join(hwi), c.state))\n", "            hwi = set()\n            for r in c.claimed_resources:\n                hwi.add(r.hardware_interface)\n            print(\"'{}' - '{}' ( {} )\".format(c.name, \"+\".join(hwi), c.state))\n")]),
'p_cg_update': (None, [(CG, "    all_controllers = set()\n    for controllers in groups.values():\n        all_controllers.update(controllers)\n    return desired_controllers, all_controllers - desired_controllers\n", "    all_controllers = {c for controllers in groups.values() for c in controllers}\n    return desired_controllers, all_controllers.difference(desired_controllers)\n")]),
'p_cg_stop_comp': (None, [(CG, "    to_stop = []\n    for controller in other_controllers:\n        if loaded_controllers.get(controller, False):\n            to_stop.append(controller)\n", "    to_stop = [c for c in other_controllers if loaded_controllers.get(c, False)]\n")]),
'p_cg_stop_in': (None, [(CG, "        if loaded_controllers.get(controller, False):\n            to_stop.append(controller)\n", "        if controller in loaded_controllers and loaded_controllers[controller]:\n            to_stop.append(controller)\n")]),
'p_cg_start_elif': (None, [(CG, "        if controller not in loaded_controllers:\n            if not controller_manager_interface.load_controller(controller):\n", "        if controller not in loaded_controllers and not controller_manager_interface.load_controller(controller):\n"), (CG, "                # load_controller() already prints an error.\n                print('Cancel group switching')\n                return\n", "            print('Cancel group switching')\n            return\n")]),
'p_cg_loaded_comp': (None, [(CG, "    controllers = {}\n    for controller in resp.controller:\n        controllers[controller.name] = controller.state == 'running'\n        if controller.state not in ('running', 'stopped'):\n            rospy.logerr('Unknown controller state {}'.format(controller.state))\n    return controllers\n", "    for controller in resp.controller:\n        if controller.state not in ('running', 'stopped'):\n            rospy.logerr('Unknown controller state {}'.format(controller.state))\n    return {c.name: c.state == 'running' for c in resp.controller}\n")]),
'p_ut_attr_comp': (None, [(UT, "    list_out = []\n    for val in list_in:\n        if match_substring:\n            if attr_val in getattr(val, attr_name):\n                list_out.append(val)\n        else:\n            if getattr(val, attr_name) == attr_val:\n                list_out.append(val)\n    return list_out\n", "    if match_substring:\n        return [val for val in list_in if attr_val in getattr(val, attr_name)]\n    return [val for val in list_in if getattr(val, attr_name) == attr_val]\n")]),
'p_ut_hw_any': (None, [(UT, """    list_out = []
    for ctrl in ctrl_list:
        for resource_set in ctrl.claimed_resources:
            if match_substring:
                if hardware_interface in resource_set.hardware_interface:
                    list_out.append(ctrl)
                    break
            else:
                if resource_set.hardware_interface == hardware_interface:
                    list_out.append(ctrl)
                    break
    return list_out
""", """    def matches(resource_set):
        if match_substring:
            return hardware_interface in resource_set.hardware_interface
        return resource_set.hardware_interface == hardware_interface
    return [ctrl for ctrl in ctrl_list if any(matches(r) for r in ctrl.claimed_resources)]
""")]),
'p_ut_res_anyall': (None, [(UT, """                add_ctrl = not match_any  # Initial flag value
                for res in resources:
                    if res in resource_set.resources:
                        if match_any:  # One hit: enough to accept controller
                            add_ctrl = True
                            break
                    else:
                        if not match_any:  # One miss: enough to discard controller
                            add_ctrl = False
                            break
                if add_ctrl:
""", """                if match_any:
                    add_ctrl = any(res in resource_set.resources for res in resources)
                else:
                    add_ctrl = all(res in resource_set.resources for res in resources)
                if add_ctrl:
""")]),
'p_ut_res_flag': (None, [(UT, "            if (hardware_interface is None or\n                hardware_interface == resource_set.hardware_interface):\n", "            relevant = hardware_interface is None\n            if not relevant:\n                relevant = hardware_interface == resource_set.hardware_interface\n            if relevant:\n")]),
'p_ut_cm_items': (None, [(UT, "    for srv_name in cm_services.keys():\n        if not _srv_exists(cm_ns + srv_name, cm_services[srv_name]):\n            return False\n    return True\n", "    for srv_name, srv_type in cm_services.items():\n        if not _srv_exists(cm_ns + srv_name, srv_type):\n            return False\n    return True\n")]),
'p_ut_cm_all': (None, [(UT, "    for srv_name in cm_services.keys():\n        if not _srv_exists(cm_ns + srv_name, cm_services[srv_name]):\n            return False\n    return True\n", "    return all(_srv_exists(cm_ns + srv_name, cm_services[srv_name]) for srv_name in cm_services)\n")]),
'p_ut_sloppy': (None, [(UT, "        match_str = '/' + _LIST_CONTROLLERS_STR\n        if match_str in srv_name:\n            ns = srv_name.split(match_str)[0]\n            if ns == '':\n                # controller manager services live in root namespace\n                # unlikely, but still possible\n                ns = '/'\n            ns_list.append(ns)\n", "        match_str = '/' + _LIST_CONTROLLERS_STR\n        if match_str not in srv_name:\n            continue\n        ns_list.append(srv_name.split(match_str)[0] or '/')\n")]),
'p_ut_guess': (None, [(UT, "    ns_list = []\n    if initial_guess is not None:\n        ns_list = initial_guess[:]  # force copy\n", "    ns_list = list(initial_guess) if initial_guess is not None else []\n")]),
'p_ut_guess2': (None, [(UT, "    ns_list[:] = [ns for ns in ns_list if ns in ns_list_curr]\n    ns_list += [ns for ns in ns_list_curr\n                if ns not in ns_list and is_controller_manager(ns)]\n\n    return sorted(ns_list)\n", "    kept = [ns for ns in ns_list if ns in ns_list_curr]\n    added = [ns for ns in ns_list_curr if ns not in kept and is_controller_manager(ns)]\n    return sorted(kept + added)\n")]),
'p_ut_names': (None, [(UT, "        if not namespace or namespace[-1] != '/':\n            namespace += '/'\n        param_no_ns = param.split(namespace, 1)[1]\n", "        if not namespace.endswith('/'):\n            namespace += '/'\n        param_no_ns = param.split(namespace, 1)[1]\n")]),
'p_ut_names_hoist': (None, [(UT, "    for param in all_params:\n        # Remove namespace from parameter string\n        if not namespace or namespace[-1] != '/':\n            namespace += '/'\n", "    if not namespace or namespace[-1] != '/':\n        namespace += '/'\n    for param in all_params:\n")]),
'p_ut_srvex': (None, [(UT, "    if not srv_name or not srv_type:\n        return False\n    return srv_type == rosservice.get_service_type(srv_name)\n", "    if srv_name and srv_type:\n        return rosservice.get_service_type(srv_name) == srv_type\n    return False\n")]),
'p_rq_append': (None, [(RQ, "    ns = in_ns\n    if ns[-1] != '/':\n        ns += '/'\n    ns += suffix\n    return ns\n", "    separator = '' if in_ns[-1] == '/' else '/'\n    return in_ns + separator + suffix\n")]),
'p_rq_resolve': (None, [(RQ, "    ns = cm_ns.rsplit('/', 1)[0]\n    if not ns:\n        ns += '/'\n    return ns\n", "    return cm_ns.rsplit('/', 1)[0] or '/'\n")]),
'p_rq_switch_helper': (None, [(RQ, "        strict = SwitchControllerRequest.STRICT\n        req = SwitchControllerRequest(start_controllers=[name],\n                                      stop_controllers=[],\n                                      strictness=strict)\n        self._switch_srv.call(req)\n", "        self._switch([name], [])\n\n    def _switch(self, start, stop):\n        req = SwitchControllerRequest(start_controllers=start,\n                                      stop_controllers=stop,\n                                      strictness=SwitchControllerRequest.STRICT)\n        self._switch_srv.call(req)\n"), (RQ, "        strict = SwitchControllerRequest.STRICT\n        req = SwitchControllerRequest(start_controllers=[],\n                                      stop_controllers=[name],\n                                      strictness=strict)\n        self._switch_srv.call(req)\n", "        self._switch([], [name])\n")]),
'p_rq_list_set': (None, [(RQ, "            add_ctrl = not any(name == ctrl.name for ctrl in controllers)\n            if add_ctrl:\n", "            if name not in [ctrl.name for ctrl in controllers]:\n")]),
'p_rq_data_early': (None, [(RQ, "        if role == Qt.DisplayRole:\n            if index.column() == 0:\n                return ctrl.name\n            elif index.column() == 1:\n                return ctrl.state\n", "        column = index.column()\n        if role == Qt.DisplayRole and column == 0:\n            return ctrl.name\n        if role == Qt.DisplayRole and column == 1:\n            return ctrl.state\n")]),
'p_rq_menu_in': (None, [(RQ, "        elif ctrl.state == 'stopped' or ctrl.state == 'initialized':\n", "        elif ctrl.state in ('stopped', 'initialized'):\n")]),
'p_rq_upd': (None, [(RQ, "        if self._controllers != controllers:\n            self._controllers = controllers\n            self._show_controllers()  # NOTE: Model is recomputed from scratch\n", "        if self._controllers == controllers:\n            return\n        self._controllers = controllers\n        self._show_controllers()\n")]),
'p_rq_srv_helper': (None, [(RQ, """            load_srv_name = _append_ns(cm_ns, 'load_controller')
            self._load_srv = rospy.ServiceProxy(load_srv_name,
                                                LoadController,
                                                persistent=True)
""", """            self._load_srv = self._proxy(cm_ns, 'load_controller', LoadController)
"""), (RQ, "    def _update_controllers(self):\n", "    def _proxy(self, cm_ns, name, service):\n        return rospy.ServiceProxy(_append_ns(cm_ns, name), service, persistent=True)\n\n    def _update_controllers(self):\n")]),
'p_rq_icons': (None, [(RQ, "        self._icons = {'running': QIcon(path + '/resource/led_green.png'),\n", "        red = path + '/resource/led_red.png'\n        self._icons = {'running': QIcon(path + '/resource/led_green.png'),\n"), (RQ, "                       'stopped': QIcon(path + '/resource/led_red.png'),\n", "                       'stopped': QIcon(red),\n")]),
'p_uc_in': (None, [(UC, "        selected_id = -1\n        try:\n            selected_id = new_vals.index(selected_val)\n        except (ValueError):\n            combo.setCurrentIndex(-1)\n", "        try:\n            selected_id = new_vals.index(selected_val)\n        except ValueError:\n            selected_id = -1\n            combo.setCurrentIndex(-1)\n")]),
'p_uc_early': (None, [(UC, "    return len(a) == len(b) and sorted(a) == sorted(b)", "    return sorted(a) == sorted(b)")]),

'p_ut_rename_helper': (None, [(UT, "        if not _srv_exists(cm_ns + srv_name, cm_services[srv_name]):\n            return False\n    return True\n", "        if cm_services[srv_name] != rosservice.get_service_type(cm_ns + srv_name):\n            return False\n    return True\n"), (UT, "def _srv_exists(srv_name, srv_type):", "def _has_service(srv_name, srv_type):")]),
'p_ut_filter_rename': (None, [(UT, "    return _filter_by_attr(ctrl_list, 'name', ctrl_name, match_substring)", "    return _by_attr(ctrl_list, 'name', ctrl_name, match_substring)"), (UT, "    return _filter_by_attr(ctrl_list, 'type', ctrl_type, match_substring)", "    return _by_attr(ctrl_list, 'type', ctrl_type, match_substring)"), (UT, "    return _filter_by_attr(ctrl_list, 'state', ctrl_state, match_substring)", "    return _by_attr(ctrl_list, 'state', ctrl_state, match_substring)"), (UT, "def _filter_by_attr(list_in, attr_name, attr_val, match_substring=False):", "def _by_attr(list_in, attr_name, attr_val, match_substring=False):")]),
'p_cg_rename': (None, [(CG, "def _get_loaded_controllers():", "def _controller_states():"), (CG, "    loaded_controllers = _get_loaded_controllers()", "    loaded_controllers = _controller_states()")]),
'p_cg_main_inline': (None, [(CG, "def _main():", "def run():"), (CG, "    _main()\n", "    run()\n")]),
'p_us_main_name': (None, [(US, "def main():", "def unspawn():"), (US, "    main()\n", "    unspawn()\n")]),
'p_us_guard': (None, [(US, "    if len(sys.argv) == 1 or sys.argv[1] == '-h' or sys.argv[1] == '--help':", "    if len(sys.argv) == 1 or sys.argv[1] in ('-h', '--help'):")]),
'p_cs_func_table': (None, [(CS, "        if args[1] == 'lt' or args[1] == 'list-types':", "        command = args[1]\n        if command in ('lt', 'list-types'):"), (CS, "        elif args[1] == 'lc' or args[1] == 'list':", "        elif command in ('lc', 'list'):")]),
'p_sp_main_split': (None, [(SP, "    # find yaml files to load\n    controllers = []\n    for name in args.controllers:\n", "    controllers = find_controllers(args.controllers)\n    load_all(controllers, load_controller)\n    if rospy.is_shutdown():\n        return\n    start_all(autostart, switch_controller)\n    rospy.spin()\n\ndef find_controllers(names):\n    controllers = []\n    for name in names:\n"), (SP, "            controllers.append(name)\n\n    # load controllers\n", "            controllers.append(name)\n    return controllers\n\ndef load_all(controllers, load_controller):\n"), (SP, "', '.join(loaded))\n\n    if rospy.is_shutdown():\n        return\n\n    # start controllers is requested\n", "', '.join(loaded))\n\ndef start_all(autostart, switch_controller):\n"), (SP, "            rospy.logerr(\"Failed to start controllers: %s\" % ', '.join(loaded))\n\n    rospy.spin()\n", "            rospy.logerr(\"Failed to start controllers: %s\" % ', '.join(loaded))\n")]),
'p_rq_rename': (None, [(RQ, "    def _show_controllers(self):", "    def _refresh_table(self):"), (RQ, "            self._show_controllers()  # NOTE", "            self._refresh_table()  # NOTE")]),
'p_rq_ns_inline': (None, [(RQ, "    ns = in_ns\n    if ns[-1] != '/':\n        ns += '/'\n    ns += suffix\n    return ns\n", "    return in_ns + ('' if in_ns[-1] == '/' else '/') + suffix\n")]),
'p_rq_ns_ends': (None, [(RQ, "    ns = in_ns\n    if ns[-1] != '/':\n        ns += '/'\n    ns += suffix\n    return ns\n", "    separator = '/' if in_ns[-1] != '/' else ''\n    return '{}{}{}'.format(in_ns, separator, suffix)\n")]),
'p_rq_resolve': (None, [(RQ, "    ns = cm_ns.rsplit('/', 1)[0]\n    if not ns:\n        ns += '/'\n    return ns\n", "    return cm_ns.rsplit('/', 1)[0] or '/'\n")]),
'p_rq_switch_one': (None, [(RQ, "    def _start_controller(self, name):\n        strict = SwitchControllerRequest.STRICT\n        req = SwitchControllerRequest(start_controllers=[name],\n                                      stop_controllers=[],\n                                      strictness=strict)\n        self._switch_srv.call(req)\n", "    def _switch(self, start, stop):\n        self._switch_srv.call(SwitchControllerRequest(start_controllers=start, stop_controllers=stop,\n                                                      strictness=SwitchControllerRequest.STRICT))\n\n    def _start_controller(self, name):\n        self._switch([name], [])\n"), (RQ, "        strict = SwitchControllerRequest.STRICT\n        req = SwitchControllerRequest(start_controllers=[],\n                                      stop_controllers=[name],\n                                      strictness=strict)\n        self._switch_srv.call(req)\n", "        self._switch([], [name])\n")]),
'p_rq_data_flat': (None, [(RQ, "        if role == Qt.DisplayRole:\n            if index.column() == 0:\n                return ctrl.name\n            elif index.column() == 1:\n                return ctrl.state\n", "        column = index.column()\n        if role == Qt.DisplayRole and column == 0:\n            return ctrl.name\n        if role == Qt.DisplayRole and column == 1:\n            return ctrl.state\n")]),
'p_rq_list_set': (None, [(RQ, "            add_ctrl = not any(name == ctrl.name for ctrl in controllers)\n            if add_ctrl:\n", "            if name not in [ctrl.name for ctrl in controllers]:\n")]),
'p_rq_info_helper': (None, [(RQ, "            for res in hw_res.resources:\n                res_item = QStandardItem(res)\n                hw_iface_item.appendRow(res_item)\n", "            for res in hw_res.resources:\n                hw_iface_item.appendRow(QStandardItem(res))\n")]),
}
