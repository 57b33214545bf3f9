N = "network_clustering.py"
W = "while (delta_r_loop > delta_r_threshold) and (n_loop < n_sub_iter_max):"
CASES = [
 ("P14", "fire", [(N, W, "while (delta_r_loop > delta_r_threshold) and (n_loop < 1000):")], "const cap"),
 ("P14", "fire", [(N, W, "while (delta_r_loop > delta_r_threshold) or (n_loop < n_sub_iter_max):")], "or"),
 ("P14", "fire", [(N, "            delta_r_tot += delta_r_loop\n\n            n_loop += 1", "            delta_r_tot += delta_r_loop\n\n            if delta_r_loop > 0.1:\n                n_loop += 1")], "counter stalls"),
 ("P14", "fire", [(N, "or \\\n                                                   (n_meta_loop > n_meta_iter_max)):", "):"), (N, "                   n_meta_loop > n_meta_iter_max or \\\n", "")], "no level cap"),
 ("P14", "fire", [(N, "                                n_meta_iter_max=n_meta_iter_max,\n                                n_sub_iter_max=n_sub_iter_max,", "                                n_meta_iter_max=n_sub_iter_max,\n                                n_sub_iter_max=n_meta_iter_max,")], "swapped"),
 ("P14", "fire", [(N, "_louvain_move_nodes(delta_r_threshold,\n                                                n_sub_iter_max,", "_louvain_move_nodes(delta_r_threshold,\n                                                n_meta_iter_max,")], "wrong cap"),
 ("P14", "fire", [("flow_stability.py", "_ts].find_louvain_clustering(**kwargs)\n            if self", "_ts].find_louvain_clustering()\n            if self")], "kwargs lost"),
 ("P14", "quiet", [(N, "(n_meta_loop > n_meta_iter_max)):", "(n_meta_loop > 2 * n_meta_iter_max)):")], "double"),
 ("P14", "quiet", [(N, W, "while delta_r_loop > delta_r_threshold and not n_loop >= n_sub_iter_max:")], "not"),
 ("P14", "quiet", [(N, W, "while True:\n            if delta_r_loop <= delta_r_threshold or n_loop >= n_sub_iter_max:\n                break")], "while true"),
 ("P14", "quiet", [(N, "        n_loop = 1\n", "        n_loop = 0\n"), (N, "(n_loop < n_sub_iter_max)", "(n_loop + 1 < n_sub_iter_max)")], "shift"),
 ("P14", "quiet", [(N, "        while not ((delta_r_meta_loop <= delta_r_threshold) or stop or \\\n                                                   (n_meta_loop > n_meta_iter_max)):", "        while delta_r_meta_loop > delta_r_threshold and not stop and n_meta_loop <= n_meta_iter_max:")], "de morgan"),
]
