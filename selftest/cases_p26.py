F = "flow_stability.py"
RATE = """            if _ts is None:
                _lambda = None
            else:
                _lambda = 1 / _ts
            kwargs.update(dict(
                lamda=_lambda
            ))
"""
LIN = """            if self._linear_t_s is None:
                inter_T = self.temporal_network.inter_T[_lambda]
            else:
                inter_T = self.temporal_network.inter_T_lin[_lambda][
                    self._linear_t_s]
"""
CASES = [
 ("P26", "fire", [(F, "            _time_scale = list(time_scale)\n", "            _time_scale = time_scale\n")], "iterator kept"),
 ("P26", "fire", [(F, "            _time_scale = list(time_scale)\n", "            _time_scale = list(time_scale)[1:]\n")], "first scale dropped"),
 ("P26", "fire", [(F, "_ts is not None and _ts <= 0", "_ts is not None and _ts < 0")], "zero accepted"),
 ("P26", "fire", [(F, RATE, RATE.replace("1 / _ts", "_ts"))], "rate is the time scale"),
 ("P26", "fire", [(F, "            _time_scale = 1 / kwargs['lamda']\n", "            _time_scale = kwargs['lamda']\n")], "lamda taken as time scale"),
 ("P26", "fire", [(F, "kwargs.get('t_s', 10)", "kwargs.get('t_s', 1)")], "default of t_s"),
 ("P26", "fire", [(F, "        if linear_approx:\n            to_compute", "        if not linear_approx:\n            to_compute")], "linear and exact exchanged"),
 ("P26", "fire", [(F, LIN, "            inter_T = self.temporal_network.inter_T[_lambda]\n")], "exact matrices always"),
 ("P26", "fire", [(F, "                inter_T = self.temporal_network.inter_T[_lambda]\n", "                inter_T = self.temporal_network.inter_T[_ts]\n")], "looked up under the scale"),
 ("P26", "fire", [(F, "T_inter_list=[T.toarray() for T in inter_T]", "T_inter_list=[T.toarray() for T in inter_T[:-1]]")], "last matrix dropped"),
 ("P26", "fire", [(F, "                    self.flow_clustering_forward = (\n                        _ts,\n                        FlowIntegralClustering(**kwargs)", "                    self.flow_clustering_forward = (\n                        _lambda,\n                        FlowIntegralClustering(**kwargs)")], "stored under the rate"),
 ("P26", "fire", [(F, "                    # do not keep the clustering of an earlier call\n                    self.flow_clustering_forward = (_ts, None)\n", "")], "stale clustering kept"),
 ("P26", "fire", [(F, "self.flow_clustering_forward[\n                    _ts].find_louvain_clustering(**kwargs)", "self.flow_clustering_forward[\n                    _ts].find_louvain_clustering()")], "search options dropped"),
 ("P26", "fire", [(F, "        self.t_stop = t_stop\n", "        self.t_stop = t_start\n")], "constructor mixes up the window"),
 ("P26", "fire", [(F, "        if value is not None:\n            self.time_scale = value\n", "        if value:\n            self.time_scale = value\n")], "zero taken as none"),
 ("P26", "quiet", [(F, RATE, "            _lambda = None if _ts is None else 1/_ts\n            kwargs[\"lamda\"] = _lambda\n")], "conditional expression"),
 ("P26", "quiet", [(F, RATE, "            kwargs.update(lamda=self._rate(_ts))\n"), (F, "    @property\n    def t_start(self):", "    @staticmethod\n    def _rate(time_scale):\n        if time_scale is None:\n            return None\n        return 1/time_scale\n\n    @property\n    def t_start(self):")], "helper for the rate"),
 ("P26", "quiet", [(F, "            _time_scale = list(time_scale)\n", "            _time_scale = [_ts for _ts in time_scale]\n")], "comprehension"),
 ("P26", "quiet", [(F, "        _invalid = []\n", "        _invalid = list()\n")], "list()"),
 ("P26", "quiet", [(F, "T_inter_list=[T.toarray() for T in inter_T]", "T_inter_list=[matrix.toarray() for matrix in inter_T]")], "renamed"),
 ("P26", "quiet", [(F, "            kwargs.update(dict(\n                T_inter_list=[T.toarray() for T in inter_T]", "            matrices = []\n            for T in inter_T:\n                matrices.append(T.toarray())\n            kwargs.update(dict(\n                T_inter_list=matrices")], "loop"),
 ("P26", "quiet", [(F, LIN, "            network = self.temporal_network\n            if self._linear_t_s is not None:\n                inter_T = network.inter_T_lin[_lambda][self._linear_t_s]\n            else:\n                inter_T = network.inter_T[_lambda]\n")], "branches exchanged"),
]
