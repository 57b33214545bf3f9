F = "state_tracking.py"
CASES = []
def fire(pid, old, new, label, f=F): CASES.append((pid, "fire", [(f, old, new)], label))
def quiet(pid, old, new, label, f=F): CASES.append((pid, "quiet", [(f, old, new)], label))
for pid in ("P01", "P02", "P28"):
    quiet(pid, "            _included_states = []\n            for _before_state in state._all_states:\n                _included_states.append(_before_state)\n                if _before_state == _current_state:\n                    break\n",
          "            _included_states = [s for s in state._all_states if s <= _current_state]\n", "comprehension")
    quiet(pid, "        _missing_props = [\n            prop for prop in _required_props\n            if not self.properties_set[prop]\n        ]\n        return _missing_props\n",
          "        return list(filter(lambda p: not self.properties_set[p], _required_props))\n", "filter")
    quiet(pid, "        _missing_props = [\n            prop for prop in _required_props\n            if not self.properties_set[prop]\n        ]\n        return _missing_props\n",
          "        missing = []\n        for prop in _required_props:\n            if self.properties_set[prop]:\n                continue\n            missing.append(prop)\n        return missing\n", "loop")
    quiet(pid, "        self.current = min(self._states, key=lambda state: state.value)\n", "        self.current = sorted(self._states)[0]\n", "sorted")
fire("P01", "                _property_is_set[key] = False\n", "                _property_is_set[key] = value.fget is None\n" if False else "                _property_is_set[key] = key.startswith('t_')\n", "window counted as given") if False else None
fire("P02", "                _property_is_set[key] = False\n", "                _property_is_set[key] = True\n", "given from the start")
fire("P02", "            self._state.properties_set = copy(_property_is_set)\n", "            self._state.properties_set = _property_is_set\n", "shared record") if False else None
fire("P01", "            self._state.properties_set = copy(_property_is_set)\n", "            self._state.properties_set = _property_is_set\n", "shared record")
fire("P01", "                if _before_state == _current_state:\n                    break\n", "                if _before_state != _current_state:\n                    break\n", "wrong prefix")
fire("P28", "        _required_props = self.properties_required.get(\n            _current_state, []\n        )\n        _missing_props = [\n            prop for prop in _required_props\n            if not self.properties_set[prop]\n",
     "        _required_props = self.properties_required.get(\n            _current_state, []\n        )\n        _missing_props = [\n            prop for prop in _required_props\n            if self.properties_set[prop]\n", "given ones listed")
fire("P28", "            for key, _state in _next_method_map.items():\n                if _state is not None and _state in _included_states:\n", "            for key, _state in _method_required_state.items():\n                if _state is not None and _state in _included_states:\n", "the step just run")
fire("P28", "                _howto[key] = textwrap.dedent(value.fset.__doc__ or \"\").rstrip()\n", "                _howto[key] = \"\"\n", "no text")
fire("P28", "                parameter_help += '\\n- '.join(next_parameters)\n", "                parameter_help += '\\n- '.join(self.state.properties_required)\n", "wrong list", "flow_stability.py")
fire("P28", "            subject_howto = self.state.howto.get(subject, \"\")\n", "            subject_howto = self.state.info.get(subject, \"\")\n", "details twice", "flow_stability.py")
CASES = [c for c in CASES if c]
