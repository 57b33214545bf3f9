"""independent bugs written from the property's text (batch l): synth_temp_network.py"""
N = "synth_temp_network.py"
def c(o, n, nth=0): return ("P34", N, o, n, nth)
CASES = [
 c("        individuals = sorted(individuals, key=lambda ind: ind.ID)\n", ""),
 c("key=lambda ind: ind.ID", "key=lambda ind: ind.group"),
 c("            loc=self.loc\n", "            loc=0.0\n"),
 c("            scale=self.scale\n", "            scale=1.0\n"),
 # 4
 c("        return self.draw(loc=loc, scale=scale)\n", "        return self.draw(loc=loc, scale=self.scale)\n"),
 c("        self.activ_distro = Distro(scale=activ_distro_scale,\n                             loc=activ_distro_loc,", "        self.activ_distro = Distro(scale=activ_distro_scale,\n                             loc=inter_distro_loc,"),
 c("            self.activ_distro_mod_func = lambda _ : (activ_distro_loc,\n                                                activ_distro_scale)", "            self.activ_distro_mod_func = lambda _ : (inter_distro_loc,\n                                                activ_distro_scale)"),
 c("            loc, scale = self.activ_distro_mod_func(time)\n", "            loc, scale = self.inter_distro_mod_func(time)\n"),
 # 8
 c("            loc, scale = self.inter_distro_mod_func(time)\n", "            scale, loc = self.inter_distro_mod_func(time)\n"),
 c("            return self.activ_distro.draw_val(loc=loc, scale=scale)\n", "            return self.activ_distro.draw_val(scale=scale)\n"),
 c("np.where(self.indiv_groups_array == g)[0]", "np.where(self.indiv_groups_array >= g)[0]"),
 c("self.inter_group_probs.sum(axis=1)).T", "self.inter_group_probs.sum(axis=0)).T"),
 # 12
 c("                (self.inter_group_probs.T/self.inter_group_probs.sum(axis=1)).T\n", "                self.inter_group_probs/self.inter_group_probs.sum()\n"),
 c("            next_activation_time = self.individuals[indiv_id].draw_activ_time(self.t)\n", "            next_activation_time = self.individuals[indiv_id].draw_activ_time(self.t_start)\n"),
 c("            next_activation_time = self.individuals[indiv_id].draw_activ_time(self.t)\n", "            next_activation_time = self.individuals[indiv_id].draw_activ_time()\n"),
 c("                event_length = self.individuals[indiv_id].draw_inter_duration(self.t)\n", "                event_length = self.individuals[partner].draw_inter_duration(self.t)\n"),
 # 16
 c("            event = self.Event(time=self.t + event_length,\n", "            event = self.Event(time=min(self.t + event_length, self.t_end),\n"),
 c("            event = self.Event(time=self.t + next_activation_time,\n", "            event = self.Event(time=next_activation_time,\n"),
 c("                                partner=partner)\n            self.event_mapper_inter", "                                partner=indiv_id)\n            self.event_mapper_inter"),
 c("            un_partners = {indiv_id}\n            for n in self._A[indiv_id,:].nonzero()[1]:\n                un_partners.add(n)\n\n            potential_partners = self.group_to_ids[self.indiv", "            un_partners = {indiv_id}\n            for n in self._A[:,indiv_id].nonzero()[0]:\n                un_partners.add(n)\n\n            potential_partners = self.group_to_ids[self.indiv"),
 # 20
 c("                un_partners = {indiv_id}\n                for n in self._A[indiv_id,:].nonzero()[1]:\n                    un_partners.add(n)\n", "                un_partners = {indiv_id}\n", 0),
 c("                un_partners = {indiv_id}\n                for n in self._A[indiv_id,:].nonzero()[1]:\n                    un_partners.add(n)\n", "                un_partners = set()\n                for n in self._A[indiv_id,:].nonzero()[1]:\n                    un_partners.add(n)\n", 1),
 c("            potential_partners = self.group_to_ids[self.indiv_groups_array[indiv_id]]\n", "            potential_partners = self.indiv_ids_array\n"),
 c("                potential_partners = self.group_to_ids[target_group]\n", "                potential_partners = self.group_to_ids[indiv_group_id]\n", 0),
 # 24
 c("            p = self.inter_group_probs[indiv_group_id,:]\n", "            p = self.inter_group_probs[:,indiv_group_id]\n"),
 c("            inter_group_probs = self.block_prob_mod_func(self.t)\n", "            inter_group_probs = self.block_prob_mod_func(self.t_start)\n"),
 c("            p = inter_group_probs[indiv_group_id,:]\n", "            p = self.inter_group_probs[indiv_group_id,:]\n"),
 c("                target_group = np.random.choice(np.arange(self.Ngroups),\n                                    p=p)\n", "                target_group = np.random.choice(np.arange(self.Ngroups))\n", 1),
 # 28
 c("        for indiv_id in self.indiv_ids_list:\n", "        for indiv_id in self.indiv_ids_list[1:]:\n"),
 c("        self.t=self.t_start\n", "        self.t=0\n"),
 c("                    self.t = time\n", "                    self.t = max(time, prev_time + 1e-3)\n"),
 c("        while self.t < self.t_end:\n", "        while self.t < self.t_end - self.t_start:\n"),
 # 32
 c("                if not event[-1]: # not is_canceled\n", "                if not event[2]: # not is_canceled\n"),
 c("                        for _ in range(self.num_interactions_per_activation):\n", "                        for _ in range(1):\n"),
 c("                            if partner is not None:\n", "                            if partner:\n"),
 c("                                self._A[indiv_id,partner] = 1\n", "                                self._A[partner,indiv_id] = 1\n"),
 # 36
 c("                                self._last_times[indiv_id,partner] = self.t\n", "                                self._last_times[indiv_id,partner] = prev_time\n"),
 c("                                self.put_event(indiv_id, event_type=\"interaction\",\n                                                partner=partner)\n", "                                self.put_event(partner, event_type=\"interaction\",\n                                                partner=indiv_id)\n"),
 c("                        # put next event in the queue\n                        self.put_event(indiv_id, event_type=\"activation\")\n", "                        # put next event in the queue\n                        if self._A[indiv_id,:].nnz == 0:\n                            self.put_event(indiv_id, event_type=\"activation\")\n"),
 c("                        self._A[indiv_id,partner] = 0\n", "                        self._A[indiv_id,:] = 0\n"),
 # 40
 c("                        event_start = self._last_times[indiv_id,partner]\n\n                        # erase last_time\n                        self._last_times[indiv_id,partner] = 0\n", "                        # erase last_time\n                        self._last_times[indiv_id,partner] = 0\n                        event_start = self._last_times[indiv_id,partner]\n"),
 c("                        event_start = self._last_times[indiv_id,partner]\n", "                        event_start = self._last_times[partner,indiv_id]\n"),
 c("                        self.end_times.append(self.t)\n", "                        self.end_times.append(min(self.t, self.t_end))\n"),
 c("                        self.indiv_targets.append(partner)\n", "                        self.indiv_targets.append(indiv_id)\n"),
 # 44
 c("                        self.indiv_sources.append(indiv_id)\n                        self.indiv_targets.append(partner)\n                        self.start_times.append(event_start)\n                        self.end_times.append(self.t)\n", "                        if self.t > event_start and self.t <= self.t_end:\n                            self.indiv_sources.append(indiv_id)\n                            self.indiv_targets.append(partner)\n                            self.start_times.append(event_start)\n                            self.end_times.append(self.t)\n"),
 c("                            self.all_states[self.t] = self._A.copy()\n", "                            self.all_states[prev_time] = self._A.copy()\n"),
 c("                                self.saved_states[self.t] = self._A.copy()\n", "                                self.saved_states[self.t] = self._A\n"),
 c("                                self._t_next_bin += self.dt\n", "                                self._t_next_bin = self.t + self.dt\n"),
 # 48
 c("                    if self.t > prev_time:\n", "                    if self.t >= prev_time + dt:\n"),
 c("            if set(potential_partners) == un_partners:\n                new_partner = None\n            else:\n                new_partner = indiv_id\n", "            if len(un_partners) >= len(potential_partners) - 1:\n                new_partner = None\n            else:\n                new_partner = indiv_id\n"),
 c("                if (set(potential_partners).union(set([indiv_id]))).issubset(un_partners):\n", "                if set(potential_partners) == un_partners:\n"),
 c("            if p.sum() == 0:\n", "            if p.sum() < 1:\n", 1),
]
