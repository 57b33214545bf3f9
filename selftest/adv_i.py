"""independent bugs written from the properties' text (batch i): flow_stability.py, state_tracking.py, parallel_*.py"""
M = "flow_stability.py"
S = "state_tracking.py"
PC = "parallel_clustering.py"
PX = "parallel_expm.py"
CASES = [
 ("P26", M, "            _time_scale = list(time_scale)\n", "            _time_scale = sorted(set(time_scale))\n"),   # reorders; set() of None fails ... arguably
 ("P26", M, "            _time_scale = list(time_scale)\n", "            _time_scale = time_scale\n"),
 ("P26", M, "            if _ts is not None and _ts <= 0:\n", "            if _ts is not None and _ts < 0:\n"),
 ("P26", M, "            _time_scale = list(time_scale)\n", "            _time_scale = [int(t) if t >= 1 else t for t in time_scale]\n"),
 ("P26", M, "        if value is not None:\n            self.time_scale = value\n", "        if value:\n            self.time_scale = value\n"),
 ("P26", M, "            self.time_scale = np.logspace(**kwargs)\n", "            self.time_scale = np.linspace(**kwargs)\n"),
 ("P26+P27", M, "        return inverted_iterator(self.time_scale)\n", "        return inverted_iterator(self._time_scale[:1])\n"),
 ("P26+P27", M, "            _time_scale = 1 / kwargs['lamda']\n", "            _time_scale = kwargs['lamda']\n"),
 ("P26+P27", M, "        if _time_scale is None and kwargs.get('lamda') is not None:\n", "        if kwargs.get('lamda') is not None:\n"),
 ("P26", M, "            kwargs.update(dict(\n                lamda=_lambda\n            ))\n            to_compute(**kwargs)\n", "            kwargs.setdefault('lamda', _lambda)\n            to_compute(**kwargs)\n"),
 ("P26", M, "            to_compute(**kwargs)\n            logger.info(\"-> done.\")\n", "            to_compute(**kwargs)\n            logger.info(\"-> done.\")\n            if _lambda is None:\n                break\n"),
 ("P27", M, "        kwargs.update(dict(\n            t_start=self.t_start,\n            t_stop=self.t_stop\n        ))\n", "        kwargs.update(dict(\n            t_start=self.t_start,\n            t_stop=self.t_stop or kwargs.get('t_stop')\n        ))\n"),
 ("P27", M, "        kwargs.update(dict(\n            t_start=self.t_start,\n            t_stop=self.t_stop\n        ))\n", "        if self.t_start is not None and self.t_stop is not None:\n            kwargs.update(dict(\n                t_start=self.t_start,\n                t_stop=self.t_stop\n            ))\n"),
 ("P27", M, "        self._t_stop = value\n", "        self._t_stop = value\n        if value is not None and self._t_start is not None and value < self._t_start:\n            self._t_start, self._t_stop = value, self._t_start\n"),
 ("P27", M, "        if value is None:\n            value = 0\n        else:\n            assert value in [-1, 0, 1]\n", "        if value is None:\n            value = 1\n        else:\n            assert value in [-1, 0, 1]\n"),
 ("P27", M, "        if value is None:\n            value = 0\n        else:\n            assert value in [-1, 0, 1]\n", "        if not value:\n            value = 0\n        else:\n            assert value in [-1, 1]\n"),  # equivalent
 ("P27", M, "        if value is None:\n            value = 0\n        else:\n            assert value in [-1, 0, 1]\n", "        value = int(np.sign(value or 0))\n"),
 ("P27", M, "        self._linear_t_s = kwargs.get('t_s', 10) if linear_approx else None\n", "        if linear_approx:\n            self._linear_t_s = kwargs.get('t_s', 10)\n"),
 ("P27", M, "        self._linear_t_s = kwargs.get('t_s', 10) if linear_approx else None\n", "        self._linear_t_s = 10 if linear_approx else None\n"),
 ("P27", M, "            kwargs.update(dict(\n                T_inter_list=[T.toarray() for T in inter_T],\n", "            kwargs.setdefault(\"T_inter_list\", [T.toarray() for T in inter_T])\n            kwargs.update(dict(\n"),
 ("P27", M, "                    self.temporal_network._k_stop_laplacians + 1],\n", "                    self.temporal_network._k_stop_laplacians],\n"),
 ("P27+P26", M, "            self._flow_clustering_backward[_time_scale] = _flow_clustering\n", "            self._flow_clustering_backward.setdefault(_time_scale, _flow_clustering)\n"),
 ("P27+P26", M, "                    # do not keep the clustering of an earlier call\n                    self.flow_clustering_backward = (_ts, None)\n", "                    pass\n"),
 ("P27+P16", M, "                    kwargs.update(dict(reverse_time=False))\n", "                    kwargs.setdefault('reverse_time', False)\n"),
 ("P27+P16", M, "            if self.time_direction >= 0:\n                logger.info(\n                    f\"\\t- Creating", "            if self.time_direction > 0:\n                logger.info(\n                    f\"\\t- Creating"),
 ("P27+P16", M, "            if self.time_direction >= 0:\n                logger.info(\n                    \"\\tForwards", "            elif self.time_direction >= 0:\n                logger.info(\n                    \"\\tForwards"),
 ("P27", M, "                n_loops = self.flow_clustering_forward[\n                    _ts].find_louvain_clustering(**kwargs)\n", "                n_loops = self.flow_clustering_forward[\n                    _ts].find_louvain_clustering(**kwargs)\n                kwargs = {}\n"),
 ("P26+P27", M, "            logger.info(\"-> done.\")\n        return self\n\n    @register(minimal_state=States.CLUSTERING", "            logger.info(\"-> done.\")\n            return self\n\n    @register(minimal_state=States.CLUSTERING"),
 ("P02+P01", M, "        if isinstance(temporal_network, ContTempNetwork):\n            self._temporal_network = temporal_network\n", "        if isinstance(temporal_network, ContTempNetwork):\n            self._temporal_network = getattr(self, '_temporal_network', None) or temporal_network\n"),
 ("P02", M, "    @register(next_state=States.TEMP_NW, ignore_none=False)\n    @t_stop.setter", "    @register(next_state=States.LAPLAC, ignore_none=False)\n    @t_stop.setter"),
 ("P02", M, "    @register(next_state=States.INTER_T)\n    @time_direction.setter", "    @register(next_state=States.CLUSTERING)\n    @time_direction.setter"),
 ("P02+P27", M, "        if not kwargs:\n            self.temporal_network = None\n        else:\n            # set self.temporal_network\n            self.temporal_network = ContTempNetwork(**kwargs)\n", "        if not kwargs:\n            self.temporal_network = None\n        else:\n            # set self.temporal_network\n            self._temporal_network = ContTempNetwork(**kwargs)\n"),
 ("P01+P28", M, "    @register(minimal_state=States.TEMP_NW, next_state=States.LAPLAC)\n", "    @register(minimal_state=States.INITIAL, next_state=States.LAPLAC)\n"),
 ("P01+P28", M, "    @register(minimal_state=States.INTER_T, next_state=States.CLUSTERING)\n    def set_flow", "    @register(minimal_state=States.LAPLAC, next_state=States.CLUSTERING)\n    def set_flow"),
 # state tracking
 ("P01+P02", S, "                        self.state.current = min(self.state.current, next_state)\n", "                        if value is not None:\n                            self.state.current = min(self.state.current, next_state)\n"),
 ("P01+P02", S, "                        self.state.current = min(self.state.current, next_state)\n", "                        if self._state.properties_set[func_name]:\n                            self.state.current = min(self.state.current, next_state)\n"),
 ("P01+P28", S, "                        if value is None and ignore_none:\n", "                        if not value and ignore_none:\n"),
 ("P01", S, "                        _return = func(self, *args, **kwargs)\n                        # set the state to after the method call\n                        self.state.current = next_state\n", "                        _return = func(self, *args, **kwargs)\n                        # set the state to after the method call\n                        self.state.current = max(self.state.current, next_state)\n"),
 ("P01", S, "                        _return = func(self, *args, **kwargs)\n                        # set the state to after the method call\n                        self.state.current = next_state\n", "                        # set the state to after the method call\n                        self.state.current = next_state\n                        _return = func(self, *args, **kwargs)\n"),
 ("P01", S, "                        _return = func(self, *args, **kwargs)\n", "                        try:\n                            _return = func(self, *args, **kwargs)\n                        except ValueError as e:\n                            warnings.warn(str(e))\n                            _return = None\n"),
 ("P01", S, "                    _missing_props = [\n                        prop for prop in _required_props\n                        if not self._state.properties_set[prop]\n                    ]\n                    if", "                    _missing_props = [\n                        prop for prop in _required_props[:1]\n                        if not self._state.properties_set[prop]\n                    ]\n                    if"),
 ("P01+P28", S, "            self._state.properties_set = copy(_property_is_set)\n", "            self._state.properties_set = _property_is_set\n"),
 ("P28", S, "        return _missing_props\n", "        return sorted(_missing_props)\n"),  # order only
 ("P28", S, "            prop for prop in _required_props\n            if not self.properties_set[prop]\n        ]\n        return", "            prop for prop in _required_props\n            if not self.properties_set.get(prop, True)\n        ]\n        return"), # equivalent
 ("P28", S, "                if _state is not None and _state in _included_states:\n                    _next_method[_current_state] = key\n", "                if _state is not None and _state == _current_state and not _next_method[_current_state]:\n                    _next_method[_current_state] = key\n"),  # FINAL then [] instead of find_louvain
 ("P28", S, "        _to_run = self._next_method.get(self.current)\n", "        _to_run = None if _to_set else self._next_method.get(self.current)\n"),
 ("P28+P01", S, "                _included_states.append(_before_state)\n                if _before_state == _current_state:\n                    break\n", "                if _before_state == _current_state:\n                    break\n                _included_states.append(_before_state)\n"),
 ("P28", S, "                _howto[key] = textwrap.dedent(value.fset.__doc__ or \"\").rstrip()\n", "                _howto[key] = textwrap.dedent(value.__doc__ or \"\").rstrip()\n"),
 ("P28", M, "            subject_howto = self.state.howto.get(subject, \"\")\n", "            subject_howto = self.state.info.get(subject, \"\")\n"),
 # parallel
 ("P11", PC, "                        seed in n_random_seeds(num_repeat)]\n", "                        seed in n_random_seeds(nproc)*(num_repeat//nproc)]\n", 0),
 ("P11", PC, "        Traw = RawArray(\"d\", clustering.T.flat)\n", "        Traw = RawArray(\"d\", clustering.T.T.flat)\n"),
 ("P11", PC, "                zip(*pool.map(_compute_sym_clustering_fct, params_list,\n                              chunksize=1))\n", "                zip(*pool.imap_unordered(_compute_sym_clustering_fct, params_list,\n                              chunksize=1))\n"), # equivalent up to order
 ("P11", PC, "    nvarinf_samples = [s for i,s in enumerate(combinations(list_of_cluster_lists,2))\\\n", "    nvarinf_samples = [s for i,s in enumerate(combinations(list_of_cluster_lists,2), 1)\\\n"),
 ("P11", PC, "                                                       replace=False)\n", "                                                       replace=True)\n"),
 ("P11", PC, "    params = [(c1,c2, N, verbose) for c1, c2 in nvarinf_samples]\n", "    params = [(c1,c2, len(c1), verbose) for c1, c2 in nvarinf_samples]\n"),
 ("P11", PC, "    return (clustering.partition.cluster_list, clustering.compute_stability(), seed)\n", "    return (clustering.source_part.cluster_list, clustering.compute_stability(), seed)\n", 0),
 ("P11", PC, "    max_num_varinf_samples = int(num_repeat*(num_repeat-1)/2)\n", "    max_num_varinf_samples = int(num_repeat*(num_repeat+1)/2)\n"),
 ("P29+P11", PX, "        res = p.map(_expm_worker, [cmp_indices[c] for c in small_comps])\n", "        res = list(p.imap_unordered(_expm_worker, [cmp_indices[c] for c in small_comps]))\n"),
 ("P29", PX, "    large_comps, = np.nonzero(comp_sizes >= 1000)\n", "    large_comps, = np.nonzero(comp_sizes > 1000)\n"),
 ("P29", PX, "        n_comp, comp_labels = connected_components(A,directed=False)\n", "        n_comp, comp_labels = connected_components(A,directed=True, connection=\"strong\")\n"),
 ("P29", PX, "        sub_expm_row, = np.where(cmp_indices[cmp] == row)\n", "        sub_expm_row, = np.where(cmp_indices[cmp] <= row)\n        sub_expm_row = sub_expm_row[-1:]\n"), # equivalent
 ("P29", PX, "        data_ind += comp_sizes[cmp]\n    indptr[num_nodes] = data_ind\n", "        data_ind += comp_sizes[cmp]\n"),
 ("P29+P30", PX, "                                                   thresh_ratio=None,\n                                                   normalize_rows=False,\n", "                                                   thresh_ratio=thresh_ratio,\n                                                   normalize_rows=False,\n"),
 ("P30", PX, "        Tcol_i[Tcol_i<Tcol_i.max()/thresh_ratio]=0\n", "        Tcol_i[Tcol_i<1/thresh_ratio]=0\n"),
 ("P29", PX, "    T = vstack(res).T.tocsr()\n", "    T = vstack(res).tocsr()\n"),
 ("P29", PX, "    A.eliminate_zeros()\n    A.sort_indices()\n", "    A.sort_indices()\n"),
 ("P29", PX, "    return expm(var_dict[\"A\"][cmp_ind,:][:,cmp_ind]).toarray()\n", "    return expm(var_dict[\"A\"][cmp_ind,:][:,cmp_ind].T).toarray()\n"),
]
