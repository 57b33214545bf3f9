F = "state_tracking.py"
FS = "flow_stability.py"
GATE = open("/repo/src/flowstab/state_tracking.py").read()
i = GATE.index("                _current_state = self.state.current\n                # TODO")
j = GATE.index("            wrapper.minimal_state = minimal_state")
BODY = GATE[i:j]


def gate(src):
    return [(F, BODY, src)]


CASES = [
 ("P01", "fire", [(F, "if _current_state < minimal_state", "if _current_state <= minimal_state")]),
 ("P01", "fire", [(F, "if _current_state < minimal_state", "if False and _current_state < minimal_state")]),
 ("P01", "fire", [(F, "if not self._state.properties_set[prop]\n                    ]\n                    if", "if self._state.properties_set[prop]\n                    ]\n                    if")], "invert set test"),
 ("P01", "fire", [(F, "self._state.properties_set = copy(_property_is_set)", "self._state.properties_set = _property_is_set")]),
 ("P01", "fire", [(F, "return self.value < other.value", "return self.value <= other.value")]),
 ("P01", "fire", [(FS, "@register(minimal_state=States.LAPLAC, next_state=States.INTER_T)", "@register(minimal_state=States.TEMP_NW, next_state=States.INTER_T)")]),
 ("P01", "quiet", [(F, "if _current_state < minimal_state", "if not (_current_state >= minimal_state)")]),
 ("P01", "quiet", gate('''                if self.state.current < minimal_state:
                    warnings.warn("x")
                    return None
                req = self._state.properties_required.get(minimal_state, [])
                if not all(self._state.properties_set[p] for p in req):
                    warnings.warn("y")
                    return None
                out = func(self, *args, **kwargs)
                self.state.current = next_state
                return out

'''), "early return + all()"),
 ("P01", "quiet", gate('''                st = self.state
                ready = st.current >= minimal_state
                if ready:
                    flags = st.properties_set
                    missing = []
                    for p in st.properties_required.get(minimal_state, []):
                        if flags[p]:
                            continue
                        missing.append(p)
                    ready = len(missing) == 0
                if not ready:
                    warnings.warn("y")
                    return None
                out = func(self, *args, **kwargs)
                st.current = next_state
                return out

'''), "flag variable"),
 ("P01", "fire", gate('''                if self.state.current < minimal_state:
                    return None
                req = self._state.properties_required.get(minimal_state, [])
                if not any(self._state.properties_set[p] for p in req):
                    return None
                out = func(self, *args, **kwargs)
                self.state.current = next_state
                return out

'''), "any instead of all"),
 ("P01", "fire", gate('''                if self.state.current < minimal_state:
                    return None
                req = self._state.properties_required.get(self.state.current, [])
                if not all(self._state.properties_set[p] for p in req):
                    return None
                out = func(self, *args, **kwargs)
                self.state.current = next_state
                return out

'''), "current key"),
 ("P01", "fire", [(F, "                        _return = func(self, *args, **kwargs)\n                        # set the state to after the method call\n                        self.state.current = next_state",
   "                        self.state.current = next_state\n                        _return = func(self, *args, **kwargs)")], "advance first"),
 ("P01", "fire", [(F, "                        _return = func(self, *args, **kwargs)\n                        # set the state to after the method call\n                        self.state.current = next_state",
   "                        try:\n                            _return = func(self, *args, **kwargs)\n                        finally:\n                            self.state.current = next_state")], "finally"),
 ("P01", "fire", [(F, "                        _return = func(self, *args, **kwargs)\n                        # set the state to after the method call\n                        self.state.current = next_state",
   "                        try:\n                            _return = func(self, *args, **kwargs)\n                        except ValueError:\n                            _return = None\n                        self.state.current = next_state")], "swallow"),
 ("P01", "quiet", [(F, "                        _return = func(self, *args, **kwargs)\n                        # set the state to after the method call\n                        self.state.current = next_state",
   "                        try:\n                            _return = func(self, *args, **kwargs)\n                        except ValueError:\n                            raise\n                        self.state.current = next_state")], "reraise"),
 ("P01", "fire", [(F, "                        self.state.current = next_state", "                        self.state.current = max(next_state, self.state.current)")], "max"),
 ("P01", "fire", [(F, "                _included_states.append(_before_state)\n                if _before_state == _current_state:\n                    break", "                if _before_state == _current_state:\n                    break\n                _included_states.append(_before_state)")], "exclusive prefix"),
 ("P02", "fire", [(F, "self.state.current = min(self.state.current, next_state)", "self.state.current = next_state")]),
 ("P02", "fire", [(F, "self.state.current = min(self.state.current, next_state)", "self.state.current = max(self.state.current, next_state)")]),
 ("P02", "quiet", [(F, "                        self.state.current = min(self.state.current, next_state)", "                        if next_state < self.state.current:\n                            self.state.current = next_state")]),
 ("P02", "fire", [(F, "if value is None and ignore_none", "if value is None or ignore_none")]),
 ("P02", "fire", [(F, "if value is None and ignore_none", "if not value and ignore_none")], "falsy value treated as unset"),
 ("P02", "fire", [(FS, "@register(next_state=States.INTER_T)\n    @time_direction.setter", "@register(next_state=States.CLUSTERING)\n    @time_direction.setter")]),
 ("P02", "fire", [(FS, "@register(next_state=States.TEMP_NW, ignore_none=False)\n    @t_stop.setter", "@register(next_state=States.LAPLAC, ignore_none=False)\n    @t_stop.setter")]),
 ("P02", "fire", [(FS, "            self.time_scale = value\n", "            self._time_scale = [value]\n")], "bypass setter"),
]
