S,F="state_tracking.py","flow_stability.py"
CASES=[
("P01",S,"if _current_state < minimal_state:","if _current_state == minimal_state.__class__(minimal_state.value-1):"),
("P01",S,"                        minimal_state, []\n                    )\n                    _missing","                        _current_state, []\n                    )\n                    _missing"),
("P01",S,"                        _return = func(self, *args, **kwargs)\n                        # set the state to after the method call\n                        self.state.current = next_state","                        self.state.current = next_state\n                        _return = func(self, *args, **kwargs)"),
("P01",S,"self.state.current = next_state","self.state.current = max(self.state.current, next_state)"),
("P01",S,"self.state.current = next_state","if _return is not None:\n                            self.state.current = next_state"),
("P01",S,"                        if not self._state.properties_set[prop]\n                    ]\n                    if _missing_props:","                        if not self._state.properties_set[prop]\n                    ]\n                    if len(_missing_props) > 1:"),
("P01",F,"@register(minimal_state=States.INTER_T, next_state=States.CLUSTERING)","@register(minimal_state=States.LAPLAC, next_state=States.CLUSTERING)"),
("P01",F,"@register(minimal_state=States.LAPLAC, next_state=States.INTER_T)","@register(minimal_state=States.LAPLAC, next_state=States.CLUSTERING)"),
("P01+P02",S,"            self._state.properties_set = copy(_property_is_set)\n","            self._state.properties_set = _property_is_set\n"),
("P01",S,"                if _state is not None and _state in _included_states:\n                    _property_required[_current_state].append(key)","                if _state is not None and _state in _included_states[:-1]:\n                    _property_required[_current_state].append(key)"),
("P01",S,"        return self.value < other.value\n" if 0 else "            return self.value < other.value","            return self.value <= other.value"),
("P02",S,"self.state.current = min(self.state.current, next_state)","if value is not None:\n                            self.state.current = min(self.state.current, next_state)"),
("P02",S,"self.state.current = min(self.state.current, next_state)","self.state.current = next_state"),
("P02",F,"@register(next_state=States.LAPLAC)\n    @time_scale.setter","@register(next_state=States.INTER_T)\n    @time_scale.setter"),
("P02",F,"@register(next_state=States.TEMP_NW, ignore_none=False)\n    @t_stop.setter","@register(next_state=States.LAPLAC, ignore_none=False)\n    @t_stop.setter"),
("P02",F,"@register(next_state=States.TEMP_NW, ignore_none=False)\n    @t_stop.setter","@register(next_state=States.TEMP_NW)\n    @t_stop.setter"),
("P02",S,"                        if value is None and ignore_none:","                        if not value and ignore_none:"),
("P02",S,"                            self._state.properties_set[func_name] = False\n                        else:\n                            self._state.properties_set[func_name] = True","                            pass\n                        else:\n                            self._state.properties_set[func_name] = True"),
("P02+P27",F,"            self.time_scale = _time_scale\n\n","            self._time_scale = [_time_scale]\n\n"),
("P28",S,"        _required_props = self.properties_required.get(\n            _current_state, []\n        )","        _required_props = self.properties_required.get(\n            self._all_states[-1], []\n        )"),
("P28",S,"                if _state is not None and _state in _included_states:\n                    _next_method[_current_state] = key","                if _state is not None and _state in _included_states and not _next_method[_current_state]:\n                    _next_method[_current_state] = key"),
("P28",F,"parameter_help += '\\n- '.join(next_parameters)","parameter_help += '\\n- '.join(next_parameters[:1])"),
("P28",F,"subject_info = self.state.info.get(subject, \"\")","subject_info = self.state.info.get(subject) or self.state.howto.get('t_start')"),
("P28",S,"                _howto[key] = textwrap.dedent(value.fset.__doc__ or \"\").rstrip()","                _howto[key] = textwrap.dedent(value.__doc__ or \"\").rstrip()"),
("P28",S,"if _state is not None and _state in _included_states:\n                    _method_required","if _state is not None and _state == _current_state:\n                    _method_required"),
("P26+P27",F,"if _ts is not None and _ts <= 0:","if _ts is not None and _ts < 0:"),
("P26",F,"        for _ts in self.time_scale:\n","        for _ts in set(self.time_scale):\n",1),
("P26",F,"        return iter(self._time_scale)","        return iter(sorted(self._time_scale))"),
("P26",F,"            _time_scale = list(time_scale)","            _time_scale = [float(t) for t in time_scale if t]"),
("P26+P27",F,"            kwargs.update(dict(\n                lamda=_lambda\n            ))\n            to_compute(**kwargs)","            kwargs.setdefault('lamda', _lambda)\n            to_compute(**kwargs)"),
("P26+P27",F,"        self._linear_t_s = kwargs.get('t_s', 10) if linear_approx else None","        if linear_approx:\n            self._linear_t_s = kwargs.get('t_s', 10)"),
("P26+P27",F,"                inter_T = self.temporal_network.inter_T_lin[_lambda][\n                    self._linear_t_s]","                inter_T = self.temporal_network.inter_T_lin[_lambda][10]"),
("P26+P27+P16",F,"            if self.time_direction <= 0:","            if self.time_direction < 0:"),
("P26+P27",F,"                    # do not keep the clustering of an earlier call\n                    self.flow_clustering_backward = (_ts, None)\n","                    pass\n"),
("P26+P27",F,"                # not part of the analysis\n                self.flow_clustering_forward = (_ts, None)\n","                pass\n"),
("P26+P27",F,"                    kwargs.update(dict(reverse_time=False))","                    kwargs.setdefault('reverse_time', False)"),
("P27",F,"            t_stop=self.t_stop\n","            t_stop=self.t_start if self.t_stop is None else self.t_stop\n"),
("P27",F,"        kwargs.update(dict(\n            t_start=self.t_start,\n            t_stop=self.t_stop\n        ))","        kwargs = dict(\n            t_start=self.t_start,\n            t_stop=self.t_stop\n        )"),
("P27",F,"        if value is None:\n            value = 0\n","        if not value:\n            value = 1\n"),
("P27",F,"            assert value in [-1, 0, 1]","            assert -1 <= value <= 1"),
("P27",F,"        if value is not None:\n            self.time_scale = value","        if value:\n            self.time_scale = value"),
("P27",F,"        elif isinstance(time_scale, (int, float)):","        elif isinstance(time_scale, (int, float, np.number)):"),
("P27+P16",F,"            assert not _flow_clustering.reversed_time\n",""),
("P27",F,"                    self.temporal_network._k_start_laplacians:\n","                    :\n"),
("P27+P17",F,"self.temporal_network._k_stop_laplacians + 1]","self.temporal_network._k_stop_laplacians]"),
("P27",F,"            self._temporal_network = temporal_network\n","            self._temporal_network = self._temporal_network or temporal_network\n"),
]
