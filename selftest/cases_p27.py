F = "flow_stability.py"
CASES = []
def fire(old, new, label, f=F): CASES.append(("P27", "fire", [(f, old, new)], label))
def quiet(old, new, label, f=F): CASES.append(("P27", "quiet", [(f, old, new)], label))
fire("        self._t_start = value\n", "        self._t_start = value or None\n", "zero start lost")
fire("        self._t_stop = value\n", "        if value is not None:\n            self._t_stop = value\n", "cannot take back")
fire("            assert value in [-1, 0, 1]\n", "            assert value in [-2, -1, 0, 1, 2]\n", "direction 2")
fire("            assert value in [-1, 0, 1]\n        self._time_direction = value\n", "            self._time_direction = value\n            assert value in [-1, 0, 1]\n        self._time_direction = value\n", "stored before refused")
fire("            t_start=self.t_start,\n            t_stop=self.t_stop\n", "            t_start=self.t_start,\n            t_stop=self.t_start\n", "window")
fire("            t_stop=self.t_stop\n        ))", "            t_stop=kwargs.get('t_stop')\n        ))", "window from the call")
fire("        if isinstance(_flow_clustering, FlowIntegralClustering):\n            assert not _flow_clustering.reversed_time\n", "        if isinstance(_flow_clustering, FlowIntegralClustering):\n", "either direction")
fire("        elif kwargs:\n            self.time_scale = np.logspace(**kwargs)", "        elif kwargs:\n            self.time_scale = np.linspace(**kwargs)", "linspace")
fire("            self.temporal_network = ContTempNetwork(**kwargs)\n", "            ContTempNetwork(**kwargs)\n", "network dropped")
fire("            _time_scale = 1 / kwargs['lamda']\n", "            _time_scale = kwargs['lamda']\n", "rate as scale")
fire("                    self.temporal_network._k_stop_laplacians + 1],\n", "                    self.temporal_network._k_stop_laplacians],\n", "last time")
fire("                T_inter_list=[T.toarray() for T in inter_T],\n", "                T_inter_list=[T.toarray() for T in self.temporal_network.inter_T[_lambda]],\n", "always exact")
fire("            if self.time_direction >= 0:\n                logger.info(\n                    \"\\tForwards", "            if self.time_direction > 0:\n                logger.info(\n                    \"\\tForwards", "search both")
fire("        self.time_direction = time_direction\n", "        self.time_direction = time_direction or 1\n", "default direction")
fire("        _time_scale = kwargs.pop('time_scale', None)\n", "        _time_scale = kwargs.get('time_scale', None)\n", "time_scale handed on")
quiet("        self._t_start = value\n", "        start = value\n        self._t_start = start\n", "local")
quiet("            assert value in [-1, 0, 1]\n", "            if value not in (-1, 0, 1):\n                raise ValueError('no direction')\n", "ValueError")
quiet("            assert value in [-1, 0, 1]\n", "            assert value == -1 or value == 0 or value == 1\n", "comparisons")
quiet("        kwargs.update(dict(\n            t_start=self.t_start,\n            t_stop=self.t_stop\n        ))\n        self._temporal_network.compute_laplacian_matrices(**kwargs)\n",
      "        options = {k: v for k, v in kwargs.items() if k not in ('t_start', 't_stop')}\n        self._temporal_network.compute_laplacian_matrices(\n            t_start=self._t_start, t_stop=self._t_stop, **options)\n", "comprehension")
quiet("        kwargs.update(dict(\n            t_start=self.t_start,\n            t_stop=self.t_stop\n        ))\n", "        kwargs['t_start'] = self.t_start\n        kwargs['t_stop'] = self._t_stop\n", "items")
quiet("        kwargs.update(dict(\n            t_start=self.t_start,\n            t_stop=self.t_stop\n        ))\n        self._temporal_network.compute_laplacian_matrices(**kwargs)\n",
      "        self._temporal_network.compute_laplacian_matrices(**{**kwargs, 't_start': self.t_start, 't_stop': self.t_stop})\n", "merged dict")
quiet("        if not kwargs:\n            self.temporal_network = None\n        else:\n            # set self.temporal_network\n            self.temporal_network = ContTempNetwork(**kwargs)\n",
      "        self.temporal_network = ContTempNetwork(**kwargs) if kwargs else None\n", "conditional expression")
quiet("        if value is not None:\n            self.time_scale = value\n        elif kwargs:\n            self.time_scale = np.logspace(**kwargs)\n        else:\n            # TODO: Use the median of the inter event times\n            self.time_scale = None\n",
      "        if value is None and kwargs:\n            value = np.logspace(**kwargs)\n        self.time_scale = value\n", "one assignment")
quiet("        _time_scale, _flow_clustering = flow_clustering\n        if isinstance(_flow_clustering, FlowIntegralClustering):\n            assert not _flow_clustering.reversed_time\n            self._flow_clustering_forward[_time_scale] = _flow_clustering\n        else:\n",
      "        _time_scale = flow_clustering[0]\n        kept = flow_clustering[1] if isinstance(flow_clustering[1], FlowIntegralClustering) else None\n        if kept is not None:\n            assert not kept.reversed_time\n            self._flow_clustering_forward.update({_time_scale: kept})\n        else:\n", "update")
