N = "network_clustering.py"
P = "parallel_clustering.py"
I1 = "        if rnd_state is not None:\n            self._rnd_state = rnd_state\n        else:\n            self._rnd_state = np.random.RandomState(rnd_seed)\n"
MULTI = "    for seed in seeds:\n\n        # create a copy of clustering with a different seed\n"
CASES = [
 ("P09", "fire", [(N, "            self._rnd_state.shuffle(node_ids)\n", "            np.random.shuffle(node_ids)\n")], "global shuffle"),
 ("P09", "fire", [(N, "        if rnd_seed is not None:\n            self._rnd_state.seed(rnd_seed)", "        if rnd_seed:\n            self._rnd_state.seed(rnd_seed)")], "seed 0"),
 ("P09", "fire", [(N, "        if rnd_seed is not None:\n            self._rnd_state.seed(rnd_seed)", "        self._rnd_state.seed(rnd_seed)")], "reseed None"),
 ("P09", "fire", [(N, I1, I1.replace("RandomState(rnd_seed)", "RandomState(rnd_seed or None)"))], "ctor seed 0"),
 ("P09", "fire", [(N, I1, I1.replace("self._rnd_state = rnd_state", "self._rnd_state = np.random.RandomState(rnd_seed)"))], "generator ignored"),
 ("P09", "fire", [(N, "self.__class__(T=T, p1=p1, p2=p2, S=S,\n                                             rnd_state=self._rnd_state)", "self.__class__(T=T, p1=p1, p2=p2, S=S)")], "meta fresh"),
 ("P09", "fire", [(N, "        return SparseClustering(p1=pi,p2=pi,T=T, rnd_seed=rnd_seed)", "        return SparseClustering(p1=pi,p2=pi,T=T)")], "static"),
 ("P09", "fire", [(N, "                                rnd_seed=rnd_seed,\n                                save_progress=save_progress)\n\n            self.partition[k]", "                                rnd_seed=k,\n                                save_progress=save_progress)\n\n            self.partition[k]")], "wrapper"),
 ("P09", "fire", [(N, "                                 rnd_seed=seed)\n\n        n_loop", "                                 rnd_seed=0)\n\n        n_loop")], "multi const"),
 ("P09", "fire", [(N, "    for seed in seeds:\n\n        # create", "    for seed in n_random_seeds(num_repeat):\n\n        # create")], "multi other seeds"),
 ("P09", "quiet", [(N, I1, "        self._rnd_state = np.random.RandomState(rnd_seed) if rnd_state is None else rnd_state\n")], "ifexp"),
 ("P09", "quiet", [(N, "            self._rnd_state.shuffle(node_ids)\n", "            rng = self._rnd_state\n            rng.shuffle(node_ids)\n")], "alias"),
 ("P09", "quiet", [(N, MULTI, "    for i in range(num_repeat):\n        seed = seeds[i]\n")], "index"),
]
