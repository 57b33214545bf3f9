"""Rewritings of the progress records that keep the behaviour."""
N = "network_clustering.py"
SP = '''        if not hasattr(self,"source_part_progress"):
            self.source_part_progress = []
        if not hasattr(self,"target_part_progress"):
            self.target_part_progress = []

        if not hasattr(self, "stability_progress"):
            self.stability_progress = []

        self.source_part_progress.append(deepcopy(self.source_part))
        self.target_part_progress.append(deepcopy(self.target_part))

        self.stability_progress.append(self.compute_stability())
'''
SC = '''        if not hasattr(self,"partition_progress"):
            self.partition_progress = []

        if not hasattr(self, "stability_progress"):
            self.stability_progress = []

        self.partition_progress.append(deepcopy(self.source_part))

        self.stability_progress.append(self.compute_stability())
'''
LV = '''            if save_progress:
                self._save_progress()


            if verbose:
                print("\\n*  delta r'''
CASES = [
 ("P22", "quiet", [(N, SP, '''        for name in ("source_part_progress", "target_part_progress", "stability_progress"):
            if not hasattr(self, name):
                setattr(self, name, [])
        self.source_part_progress.append(deepcopy(self.source_part))
        self.target_part_progress.append(deepcopy(self.target_part))
        self.stability_progress.append(self.compute_stability())
''')], "names in a loop"),
 ("P22", "quiet", [(N, SP, '''        self._record("source_part_progress", deepcopy(self.source_part))
        self._record("target_part_progress", deepcopy(self.target_part))
        self._record("stability_progress", self.compute_stability())

    def _record(self, name, value):
        if not hasattr(self, name):
            setattr(self, name, [])
        getattr(self, name).append(value)
''')], "helper by name"),
 ("P22", "quiet", [(N, SC, '''        parts = getattr(self, "partition_progress", None)
        if parts is None:
            parts = self.partition_progress = []
        stabs = getattr(self, "stability_progress", None)
        if stabs is None:
            stabs = self.stability_progress = []
        parts.append(deepcopy(self.source_part))
        stabs.append(self.compute_stability())
''')], "getattr default"),
 ("P22", "quiet", [(N, SC, '''        self.partition_progress = getattr(self, "partition_progress", [])
        self.stability_progress = getattr(self, "stability_progress", [])
        stability = self.compute_stability()
        snapshot = deepcopy(self.source_part)
        self.partition_progress.append(snapshot)
        self.stability_progress.append(stability)
''')], "temp"),
 ("P22", "quiet", [(N, SC, '''        try:
            self.partition_progress
        except AttributeError:
            self.partition_progress = []
        try:
            self.stability_progress
        except AttributeError:
            self.stability_progress = []
        self.partition_progress += [deepcopy(self.source_part)]
        self.stability_progress += [self.compute_stability()]
''')], "try"),
 ("P22", "quiet", [(N, LV, '''            self._maybe_save(save_progress)


            if verbose:
                print("\\n*  delta r'''), (N, "    def _save_progress(self):\n        if not hasattr(self,\"source_part", '''    def _maybe_save(self, save_progress):
        if not save_progress:
            return
        self._save_progress()

    def _save_progress(self):
        if not hasattr(self,"source_part''')], "maybe_save"),
 ("P22", "quiet", [(N, "        if save_progress:\n            self._save_progress()\n\n        # if the", "        record = self._save_progress if save_progress else (lambda: None)\n        record()\n\n        # if the"), (N, LV, '''            record()


            if verbose:
                print("\\n*  delta r''')], "lambda"),
 ("P22", "quiet", [(N, "        if rnd_seed is not None:\n            self._rnd_state.seed(rnd_seed)\n\n        if save_progress:\n            self._save_progress()\n", "        if save_progress:\n            self._save_progress()\n\n        if rnd_seed is not None:\n            self._rnd_state.seed(rnd_seed)\n")], "order"),
 ("P22", "quiet", [(N, LV, '''            if verbose:
                print("\\n*  delta r'''), (N, "            self._update_original_partition(meta_clustering)\n\n\n", "            self._update_original_partition(meta_clustering)\n            if save_progress:\n                self._save_progress()\n\n")], "recorded right after the update"),
]
