F='rqt_controller_manager/src/rqt_controller_manager/controller_manager.py'
A=open('/repo/'+F).read()
i=A.index("        self._update_cm_list_timer = QTimer(self)"); j=A.index("        # Signal connections")
blk=A[i:j]
helper='''    def _make_timer(self, callback):
        timer = QTimer(self)
        timer.setInterval(int(1000.0 / self._cm_update_freq))
        timer.timeout.connect(callback)
        timer.start()
        return timer

    def shutdown_plugin(self):
'''
new='''        self._update_cm_list_timer = self._make_timer(self._update_cm_list)

        # Timer for running controller updates
        self._update_ctrl_list_timer = self._make_timer(self._update_controllers)

'''
swap='''        # Timer for running controller updates
        self._update_ctrl_list_timer = QTimer(self)
        self._update_ctrl_list_timer.setInterval(int(1000.0 / self._cm_update_freq))
        self._update_ctrl_list_timer.timeout.connect(self._update_controllers)
        self._update_cm_list_timer = QTimer(self)
        self._update_cm_list_timer.timeout.connect(self._update_cm_list)
        self._update_cm_list_timer.setInterval(int(1000.0 / self._cm_update_freq))
        for timer in (self._update_cm_list_timer, self._update_ctrl_list_timer):
            timer.start()

'''
period='''        period = int(1000.0 / self._cm_update_freq)
        cm_timer = QTimer(self)
        cm_timer.setInterval(period)
        cm_timer.timeout.connect(self._update_cm_list)
        cm_timer.start()
        self._update_cm_list_timer = cm_timer
        ctrl_timer = QTimer(self)
        ctrl_timer.setInterval(period)
        ctrl_timer.timeout.connect(self._update_controllers)
        ctrl_timer.start()
        self._update_ctrl_list_timer = ctrl_timer

'''
M=A[A.index("        action = menu.exec_(self._widget.table_view.mapToGlobal(pos))\n\n        # Evaluate user"):A.index("    def _on_ctrl_info")]
EDITS={
'rq_timer_helper':(None,[(F,blk,new),(F,"    def shutdown_plugin(self):\n",helper)]),
'rq_timer_swap':(None,[(F,blk,swap)]),
'rq_timer_period':(None,[(F,blk,period)]),
'rq_menu_none':(None,[(F,"        if ctrl.state == 'running':\n            action_stop = ","        action_stop = action_kill = action_start = action_unload = None\n        action_load = action_spawn = None\n        if ctrl.state == 'running':\n            action_stop = ")]),
'rq_menu_in':(None,[(F,"        elif ctrl.state == 'stopped' or ctrl.state == 'initialized':\n            if action is action_start","        elif ctrl.state in ('initialized', 'stopped'):\n            if action is action_start")]),
}
UT='controller_manager_msgs/src/controller_manager_msgs/utils.py'; UC='rqt_controller_manager/src/rqt_controller_manager/update_combo.py'; CI='controller_manager/src/controller_manager/controller_manager_interface.py'
_U=open('/repo/'+UT).read(); _C=open('/repo/'+CI).read()
def cut(src, a, b): i=src.index(a); return src[i:src.index(b, i)]
def E(id, *eds): EDITS[id]=(None,list(eds))
_S=cut(A,"        if cm_ns:\n            # NOTE: Persistent","    def _update_controllers")
E('rq_set_early',(F,_S,'''        self._load_srv = self._unload_srv = self._switch_srv = None
        if not cm_ns:
            return

        def proxy(name, srv_type):
            return rospy.ServiceProxy(_append_ns(cm_ns, name), srv_type, persistent=True)

        self._load_srv = proxy('load_controller', LoadController)
        self._unload_srv = proxy('unload_controller', UnloadController)
        self._switch_srv = proxy('switch_controller', SwitchController)

'''))
E('rq_set_method',(F,_S,'''        self._load_srv = self._proxy(cm_ns, 'load_controller', LoadController)
        self._unload_srv = self._proxy(cm_ns, 'unload_controller', UnloadController)
        self._switch_srv = self._proxy(cm_ns, 'switch_controller', SwitchController)

    @staticmethod
    def _proxy(cm_ns, name, srv_type):
        if not cm_ns:
            return None
        return rospy.ServiceProxy(_append_ns(cm_ns, name), srv_type, persistent=True)

'''))
E('rq_change_early',(F,cut(A,"        # Controller lister for the selected","    def _set_cm_services"),'''        self._controller_lister = ControllerLister(cm_ns) if cm_ns else None
        if not cm_ns:
            return
        self._update_controllers()

'''))
_L=cut(A,"        # Add loaded controllers first","    def _show_controllers")
E('rq_list_split',(F,_L,'''        controllers = self._controller_lister()
        controllers.extend(self._uninitialized(controllers))
        return controllers

    def _uninitialized(self, loaded):
        """Controllers that are configured only"""
        ns = _resolve_controllers_ns(self._cm_ns)
        loaded_names = [ctrl.name for ctrl in loaded]
        return [ControllerState(name=name, type=_rosparam_controller_type(ns, name), state='uninitialized')
                for name in get_rosparam_controller_names(ns) if name not in loaded_names]

'''))
E('rq_list_continue',(F,"            add_ctrl = not any(name == ctrl.name for ctrl in controllers)\n            if add_ctrl:\n                type_str = _rosparam_controller_type(all_ctrls_ns, name)\n                uninit_ctrl = ControllerState(name=name,\n                                              type=type_str,\n                                              state='uninitialized')\n                controllers.append(uninit_ctrl)\n",
'''            if any(ctrl.name == name for ctrl in controllers):
                continue
            controllers.append(ControllerState(state='uninitialized', name=name,
                                               type=_rosparam_controller_type(all_ctrls_ns, name)))
'''))
E('rq_info_tree',(F,cut(A,"        for hw_res in ctrl.claimed_resources:","        popup.resource_tree.setModel"),"        self._fill(model_root, ctrl.claimed_resources)\n\n"),
 (F,"    def _on_header_menu",'''    def _fill(self, root, claimed):
        for claim in claimed:
            item = QStandardItem(claim.hardware_interface)
            root.appendRow(item)
            for name in claim.resources:
                item.appendRow(QStandardItem(name))

    def _on_header_menu'''))
E('rq_toggle',(F,cut(A,"            if header.resizeMode(0)","    def _load_controller"),'''            fixed = header.resizeMode(0) != QHeaderView.ResizeToContents
            header.setSectionResizeMode(QHeaderView.ResizeToContents if fixed else QHeaderView.Interactive)

'''))
E('rq_switch_kw',(F,cut(A,"    def _start_controller","class ControllerTable"),'''    def _start_controller(self, name):
        self._switch(start=[name])

    def _stop_controller(self, name):
        self._switch(stop=[name])

    def _switch(self, start=(), stop=()):
        self._switch_srv.call(SwitchControllerRequest(start_controllers=list(start),
                                                      stop_controllers=list(stop),
                                                      strictness=SwitchControllerRequest.STRICT))


'''))
E('rq_data_col',(F,"        ctrl = self._data[index.row()]\n\n        if role == Qt.DisplayRole:\n            if index.column() == 0:\n                return ctrl.name\n            elif index.column() == 1:\n                return ctrl.state\n",
'''        ctrl = self._data[index.row()]
        col = index.column()

        if role == Qt.DisplayRole:
            return ctrl.name if col == 0 else ctrl.state if col == 1 else None
'''))
E('rq_header_map',(F,cut(A,"        if orientation == Qt.Horizontal","    def data("),'''        if orientation != Qt.Horizontal or role != Qt.DisplayRole:
            return None
        return {0: 'controller', 1: 'state'}.get(col)

'''))
E('rq_restore',(F,cut(A,"        try:\n            idx = cm_list.index","    # def trigger"),'''        if cm_ns in cm_list:
            cm_combo.setCurrentIndex(cm_list.index(cm_ns))

'''))
E('rq_ns_or',(F,"    ns = cm_ns.rsplit('/', 1)[0]\n    if not ns:\n        ns += '/'\n    return ns\n","    return cm_ns.rsplit('/', 1)[0] or '/'\n"))
E('rq_paint',(F,cut(A,"        if not index.parent().isValid():\n            # Root","        QStyledItemDelegate.paint"),'''        parent = index.parent()
        if not parent.isValid():
            # Root level
            option.font.setWeight(QFont.Bold)
        elif not parent.parent().isValid():
            # Hardware interface level
            option.font.setItalic(True)
            option.font.setWeight(QFont.Bold)
'''))
E('rq_upd_early',(F,cut(A,"        if self._controllers != controllers:","    def _list_controllers"),'''        if self._controllers == controllers:
            return
        self._controllers = controllers
        self._show_controllers()

'''))
E('ut_managers',(UT,cut(_U,"    ns_list = []\n    if initial_guess","def is_controller_manager"),'''    current = _sloppy_get_controller_managers(namespace)
    known = [ns for ns in initial_guess or [] if ns in current]
    new = [ns for ns in current if ns not in known and is_controller_manager(ns)]
    return sorted(known + new)


'''))
E('ut_sloppy_or',(UT,cut(_U,"    ns_list = []\n    for srv_name in srv_list","def _srv_exists"),'''    match_str = '/' + _LIST_CONTROLLERS_STR
    # controller manager services may live in the root namespace
    return [srv_name.split(match_str)[0] or '/' for srv_name in srv_list if match_str in srv_name]


'''))
E('ut_srvex_and',(UT,"    if not srv_name or not srv_type:\n        return False\n    return srv_type == rosservice.get_service_type(srv_name)","    return bool(srv_name and srv_type) and rosservice.get_service_type(srv_name) == srv_type"))
E('ut_lister_query',(UT,cut(_U,"        try:\n            controller_list = self._srv.call()","    def _make_srv"),'''        try:
            return self._query()
        except:
            # Attempt service proxy reconnection
            self._srv = self._make_srv()
        try:
            return self._query()
        except:
            return []

    def _query(self):
        return self._srv.call().controller

'''))
E('ut_hw_pred',(UT,cut(_U,"    list_out = []\n    for ctrl in ctrl_list:\n        for resource_set in ctrl.claimed_resources:\n            if match_substring","def filter_by_resources"),'''    def matches(resource_set):
        if match_substring:
            return hardware_interface in resource_set.hardware_interface
        return hardware_interface == resource_set.hardware_interface

    return [ctrl for ctrl in ctrl_list if any(matches(r) for r in ctrl.claimed_resources)]


'''))
E('ut_attr_getattr',(UT,cut(_U,"    list_out = []\n    for val in list_in:","####"),'''    list_out = []
    for val in list_in:
        attr = getattr(val, attr_name)
        match = attr_val in attr if match_substring else attr == attr_val
        if match:
            list_out += [val]
    return list_out

'''))
E('uc_return',(UC,"    selected_val = combo.currentText()\n    old_vals = [combo.itemText(i) for i in range(combo.count())]\n","    old_vals = [combo.itemText(i) for i in range(combo.count())]\n    selected_val = combo.currentText()\n"),
 (UC,"    return len(a) == len(b) and sorted(a) == sorted(b)","    if len(a) != len(b):\n        return False\n    return sorted(a) == sorted(b)"))
E('uc_in',(UC,"        selected_id = -1\n        try:\n            selected_id = new_vals.index(selected_val)\n        except (ValueError):\n            combo.setCurrentIndex(-1)\n",
"        if selected_val in new_vals:\n            selected_id = new_vals.index(selected_val)\n        else:\n            selected_id = -1\n            combo.setCurrentIndex(selected_id)\n"))
E('ci_ok',(CI,"    if resp.ok:\n        print(\"Loaded \\'\" + name + \"\\'\")\n        return True\n    else:\n        print(\"Error when loading \\'\" + name + \"\\'\")\n        return False\n",
"    ok = resp.ok\n    if not ok:\n        print(\"Error when loading '%s'\" % name)\n        return False\n    print(\"Loaded '%s'\" % name)\n    return True\n"))
E('ci_proxy',(CI,"def load_controller(name):\n    rospy.wait_for_service('controller_manager/load_controller')\n    s = rospy.ServiceProxy('controller_manager/load_controller', LoadController)\n",
"def _service(name, srv_type):\n    full = 'controller_manager/' + name\n    rospy.wait_for_service(full)\n    return rospy.ServiceProxy(full, srv_type)\n\n\ndef load_controller(name):\n    s = _service('load_controller', LoadController)\n"))
E('ci_stop_many',(CI,"    return start_stop_controllers(stop_controllers=[name])","    return stop_controllers([name])"))
