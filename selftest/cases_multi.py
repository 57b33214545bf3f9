"""P33: run_multi_louvain."""
F = "network_clustering.py"
P = "P33"
MK = "        c = clustering.__class__(p1=clustering.p1,\n                                 p2=clustering.p2,\n                                 S=clustering._S,\n                                 T=clustering.T,\n                                 rnd_seed=seed)\n"
TAIL = "        n_loops.append(n_loop)\n        stabilities.append(c.compute_stability())\n        cluster_lists.append(c.partition.cluster_list)\n"
CASES = [
    (P, "fire", [(F, MK, MK.replace("p2=clustering.p2", "p2=clustering.p1"))], "p2"),
    (P, "fire", [(F, MK, MK.replace("rnd_seed=seed", "rnd_seed=seeds[0]"))], "first seed"),
    (P, "fire", [(F, MK, MK.replace(",\n                                 rnd_seed=seed", ""))], "no seed"),
    (P, "fire", [(F, MK, MK.replace("clustering.__class__", "Clustering"))], "class"),
    (P, "fire", [(F, "        n_loop = c.find_louvain_clustering(**kwargs)\n", "        n_loop = c.find_louvain_clustering()\n")], "options"),
    (P, "fire", [(F, "    return n_loops, cluster_lists, stabilities, seeds\n", "    return n_loops, stabilities, cluster_lists, seeds\n")], "swapped"),
    (P, "fire", [(F, "        n_loop = c.find_louvain_clustering(**kwargs)\n\n        n_loops.append(n_loop)\n        stabilities.append(c.compute_stability())\n",
                  "        stabilities.append(c.compute_stability())\n        n_loop = c.find_louvain_clustering(**kwargs)\n        n_loops.append(n_loop)\n")], "stability first"),
    (P, "fire", [(F, TAIL, TAIL.replace("c.compute_stability()", "clustering.compute_stability()"))], "other clustering"),
    (P, "fire", [(F, TAIL, TAIL.replace("        stabilities", "        if n_loop > 1:\n            stabilities").replace("c.compute_stability())\n", "c.compute_stability())\n"))], "left out"),
    (P, "fire", [(F, "    seeds = n_random_seeds(num_repeat)\n", "    seeds = n_random_seeds(1)*num_repeat\n")], "same seed"),
    (P, "fire", [(F, "    for seed in seeds:\n", "    for seed in sorted(seeds):\n"), ], "seeds in another order"),
    (P, "fire", [(F, TAIL, TAIL + "        if n_loop == 0:\n            break\n")], "ends early"),
    (P, "quiet", [(F, "        n_loop = c.find_louvain_clustering(**kwargs)\n\n        n_loops.append(n_loop)\n", "        n_loops.append(c.find_louvain_clustering(**kwargs))\n")], "inlined"),
    (P, "quiet", [(F, TAIL, "        cluster_lists.append(c.partition.cluster_list)\n        n_loops.append(n_loop)\n        stabilities.append(c.compute_stability())\n")], "reordered"),
    (P, "quiet", [(F, MK, MK.replace("clustering.__class__", "type(clustering)"))], "type()"),
    (P, "quiet", [(F, MK, "        c = _again(clustering, seed)\n"), (F, "def run_multi_louvain(", "def _again(clustering, seed):\n    return clustering.__class__(p1=clustering.p1, p2=clustering.p2, S=clustering._S, T=clustering.T, rnd_seed=seed)\n\n\ndef run_multi_louvain(")], "helper"),
    (P, "quiet", [(F, "    seeds = n_random_seeds(num_repeat)\n", "    seeds = [int.from_bytes(os.urandom(4), byteorder=\"big\") for _ in range(num_repeat)]\n")], "seeds inlined"),
]
