import importlib.util as _u, os as _o
N = "synth_temp_network.py"
_s = _u.spec_from_file_location("advl", _o.path.join(_o.path.dirname(_o.path.abspath(__file__)), "adv_l.py"))
_m = _u.module_from_spec(_s); _s.loader.exec_module(_m)
_src = open("/repo/src/flowstab/synth_temp_network.py").read()
CASES = [("P34", "fire", [(N, c[2], c[3])], "adv_l %d" % i) for i, c in enumerate(_m.CASES) if not c[4] and c[2] in _src]
LOOP = '''                if (set(potential_partners).union(set([indiv_id]))).issubset(un_partners):
                    new_partner = None
                else:
                    new_partner = indiv_id
                    while new_partner in un_partners:
                        new_partner = \\
                            np.random.choice(potential_partners)
'''
CASES += [
 ("P34", "quiet", [(N, LOOP, '''                free = [n for n in potential_partners if n not in un_partners]
                if len(free) == 0:
                    new_partner = None
                else:
                    new_partner = np.random.choice(free)
''')], "draw from those left"),
 ("P34", "quiet", [(N, LOOP, LOOP.replace("(set(potential_partners).union(set([indiv_id]))).issubset(un_partners)", "set(potential_partners) <= un_partners"))], "subset operator"),
 ("P34", "quiet", [(N, LOOP, LOOP.replace("(set(potential_partners).union(set([indiv_id]))).issubset(un_partners)", "set(potential_partners).issubset(un_partners)"))], "subset"),
 ("P34", "quiet", [(N, "            un_partners = {indiv_id}\n            for n in self._A[indiv_id,:].nonzero()[1]:\n                un_partners.add(n)\n", "            un_partners = set(self._A[indiv_id,:].nonzero()[1])\n            un_partners.add(indiv_id)\n")], "set of neighbours"),
 ("P34", "quiet", [(N, "            un_partners = {indiv_id}\n            for n in self._A[indiv_id,:].nonzero()[1]:\n                un_partners.add(n)\n", "            un_partners = {indiv_id}\n            un_partners.update(self._A[indiv_id,:].nonzero()[1])\n")], "update"),
 ("P34", "quiet", [(N, "            un_partners = {indiv_id}\n            for n in self._A[indiv_id,:].nonzero()[1]:\n                un_partners.add(n)\n", "            un_partners = self._excluded(indiv_id)\n"),
                   (N, "    def get_new_partner(", "    def _excluded(self, i):\n        un = {i}\n        for n in self._A[i,:].nonzero()[1]:\n            un.add(n)\n        return un\n\n    def get_new_partner(")], "helper for the excluded"),
 ("P34", "quiet", [(N, "(self.inter_group_probs.T/self.inter_group_probs.sum(axis=1)).T", "self.inter_group_probs/self.inter_group_probs.sum(axis=1, keepdims=True)")], "keepdims"),
 ("P34", "quiet", [(N, "(self.inter_group_probs.T/self.inter_group_probs.sum(axis=1)).T", "self.inter_group_probs/self.inter_group_probs.sum(axis=1)[:, None]")], "column of sums"),
 ("P34", "quiet", [(N, "                        self.indiv_sources.append(indiv_id)\n                        self.indiv_targets.append(partner)\n                        self.start_times.append(event_start)\n                        self.end_times.append(self.t)\n", "                        self._record(indiv_id, partner, event_start)\n"),
                   (N, "    def initialize_events(self):", "    def _record(self, i, j, start):\n        self.end_times.append(self.t)\n        self.start_times.append(start)\n        self.indiv_targets.append(j)\n        self.indiv_sources.append(i)\n\n    def initialize_events(self):")], "helper for the record"),
 ("P34", "quiet", [(N, "key=lambda ind: ind.ID", "key=lambda person: person.ID")], "renamed"),
 ("P34", "quiet", [(N, "                    elif event[1] == \"interaction\":\n", "                    else:\n")], "else"),
 ("P34", "quiet", [(N, "                        [indiv_id, _, partner, _] = event\n", "                        indiv_id, partner = event[0], event[2]\n")], "by position"),
 ("P34", "quiet", [(N, "                if not event[-1]: # not is_canceled\n                    self.t = time\n", "                canceled = event[-1]\n                if canceled is False:\n                    self.t = time\n")], "canceled is False"),
 ("P34", "quiet", [(N, "            if p.sum() == 0:\n", "            if not p.any():\n")], "any"),
]
