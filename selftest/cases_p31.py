"""P31: fire = behaviour broken, quiet = behaviour kept"""
import importlib.util, os
N, C, P = "network_clustering.py", "_cython_fast_funcs.pyx", "parallel_clustering.py"
_s = importlib.util.spec_from_file_location("adv_e", os.path.join(os.path.dirname(os.path.abspath(__file__)), "adv_e.py"))
_m = importlib.util.module_from_spec(_s)
_s.loader.exec_module(_m)
CASES = [("P31", "fire", [(f, o, n)], "adversarial %d" % k) for k, (p, f, o, n) in enumerate(_m.CASES) if k % 3 == 0]
CASES += [
    ("P31", "quiet", [(C, "                VI -= nij*log2((nij*nij)/(ni * nj))\n            \n            if n_inter >= ni:", "                VI -= nij*(2*log2(nij) - log2(ni) - log2(nj))\n            \n            if n_inter >= ni:")], "logarithm expanded"),
    ("P31", "quiet", [(C, "            if n_inter >= ni:\n                # we have found all the possible intersections\n                break\n", "")], "no early exit"),
    ("P31", "quiet", [(C, "            if n_inter >= ni:", "            if n_inter == ni:")], "equality"),
    ("P31", "quiet", [(N, "                if n_inter >= ni:", "                if ni <= n_inter:")], "turned around"),
    ("P31", "quiet", [(N, "        VI = 0.0\n        for i in range(n1):\n            clust1 = clusters1[i]\n            ni = len(clust1)", "        VI = 0.0\n        for clust1 in clusters1:\n            ni = len(clust1)")], "iterate directly"),
    ("P31", "quiet", [(N, "            for j in range(n2):\n                clust2 = clusters2[j]\n                nij", "            for clust2 in clusters2:\n                nij")], "iterate directly inner"),
    ("P31", "quiet", [(N, "        N = sum(len(clust) for clust in clusters1)\n\n    n1", "        N = sum(map(len, clusters1))\n\n    n1")], "map len"),
    ("P31", "quiet", [(N, "        N = sum(len(clust) for clust in clusters1)\n\n    n1", "        N = 0\n        for clust in clusters1:\n            N += len(clust)\n\n    n1")], "loop"),
    ("P31", "quiet", [(N, "    clusters1 = [c for c in clusters1 if c]\n    clusters2 = [c for c in clusters2 if c]", "    clusters1 = [c for c in clusters1 if len(c) > 0]\n    clusters2 = list(filter(None, clusters2))")], "filter"),
    ("P31", "quiet", [(N, "    if n1 == n2 == N:\n        return 0.0", "    if n1 == N and n2 == N:\n        return 0.0")], "unchained"),
    ("P31", "quiet", [(N, "nij*np.log2((nij**2)/(ni * nj))", "nij*np.log2(nij/ni*nij/nj)")], "reordered"),
    ("P31", "quiet", [(N, "nij = len(clust1.intersection(clust2))\n                n_inter", "nij = len(clust1 & clust2)\n                n_inter")], "operator"),
    ("P31", "quiet", [(N, "        return MI/max((H1,H2))", "        return MI/max(H1,H2)")], "arguments"),
    ("P31", "quiet", [(N, "        if not same_in_1 and same_in_2:\n            diff += 1\n        if same_in_1 and not same_in_2:\n            diff += 1\n", "        if same_in_1 != same_in_2:\n            diff += 1\n")], "one test"),
    ("P31", "quiet", [(N, "        if same_in_1 and same_in_2:\n            same += 1\n        if not", "        if same_in_1 and same_in_2:\n            same += 1\n        elif not")], "elif"),
    ("P31", "quiet", [(P, "    if num_varinf_samples is None or num_varinf_samples > max_num_varinf_samples:\n        num_varinf_samples = max_num_varinf_samples", "    if num_varinf_samples is None:\n        num_varinf_samples = max_num_varinf_samples\n    num_varinf_samples = min(num_varinf_samples, max_num_varinf_samples)")], "min"),
    ("P31", "quiet", [(P, "int(num_repeat*(num_repeat-1)/2)", "num_repeat*(num_repeat-1)//2")], "integer division"),
    ("P31", "quiet", [(P, "    nvarinf_samples = [s for i,s in enumerate(combinations(list_of_cluster_lists,2))\\\n                                               if i in nvarinf_samples_idx]", "    nvarinf_samples = []\n    for i, s in enumerate(combinations(list_of_cluster_lists, 2)):\n        if i in nvarinf_samples_idx:\n            nvarinf_samples.append(s)")], "loop"),
    ("P31", "quiet", [(P, "        nvarinf_sym_vals = list(map(_compute_nvi_sample, params))", "        nvarinf_sym_vals = [_compute_nvi_sample(p) for p in params]")], "comprehension"),
    ("P31", "quiet", [(P, "    c1, c2, N, verbose = params\n", "    c1 = params[0]\n    c2 = params[1]\n    N, verbose = params[2:]\n", )], "unpacked by hand"),
]
