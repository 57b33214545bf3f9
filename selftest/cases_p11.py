P = "parallel_clustering.py"
X = "parallel_expm.py"
IA = "initargs=(Sraw, Traw, N, p1raw, p2raw)"
IS = "p1raw, p2raw,\n                            clustering._S.p1, clustering._S.p2,"
DEF = "def _init_sub_worker_sparse(PTdata, PTindices, PTindptr, N, p1raw, p2raw,\n                            S_p1, S_p2, PT_symmetric):"
CASES = [
 ("P11", "fire", [(P, IA, "initargs=(Sraw, Traw, N, p2raw, p1raw)")], "p1/p2 swapped in initargs"),
 ("P11", "fire", [(P, IA, "initargs=(Traw, Sraw, N, p1raw, p2raw)")], "T/S swapped in initargs"),
 ("P11", "fire", [(P, IS, "p1raw, p2raw,\n                            clustering._S.p2, clustering._S.p1,")], "null model swapped"),
 ("P11", "fire", [(P, "np.frombuffer(PTindices, dtype=np.int64)", "np.frombuffer(PTindices, dtype=np.int32)")], "int32 vs l"),
 ("P11", "fire", [(P, 'PTdata = RawArray("d"', 'PTdata = RawArray("f"')], "float32"),
 ("P11", "fire", [(P, "PT_symmetric=PT_symmetric)", "PT_symmetric=True)")], "symmetric hard coded"),
 ("P11", "fire", [(P, "                                  S=var_dict[\"S\"],\n                                  rnd_seed=seed)\n\n    n_loops = clustering.find_louvain_clustering(n_meta_iter_max=n_meta_iter_max,\n                                                 n_sub_iter_max=n_sub_iter_max,\n                                                verbose=clust_verbose,", "                                  S=var_dict[\"S\"],\n                                  rnd_seed=seed)\n\n    n_loops = clustering.find_louvain_clustering(n_meta_iter_max=n_sub_iter_max,\n                                                 n_sub_iter_max=n_meta_iter_max,\n                                                verbose=verbose,")], "limits swapped in worker"),
 ("P11", "fire", [(P, "    return (clustering.partition.cluster_list, clustering.compute_stability(), seed)\n\ndef _compute_sym_sparse", "    return (clustering.compute_stability(), clustering.partition.cluster_list, seed)\n\ndef _compute_sym_sparse")], "results swapped"),
 ("P11", "fire", [(P, "                                  rnd_seed=seed)\n\n    n_loops = clustering.find_louvain_clustering(n_meta_iter_max=n_meta_iter_max,\n                                                 n_sub_iter_max=n_sub_iter_max,\n                                                verbose=clust_verbose,\n                                                print_num_loops=print_num_loops)\n\n    if verbose:\n        print(\"**** PID \", os.getpid(), f\"sym clust took {time.time()-t0:.4f}s, finished at\",\n              time.strftime(\"%Y-%m-%d %H:%M:%S\",time.localtime()), f\", in {n_loops} loops.\")\n\n    return (clustering.partition.cluster_list, clustering.compute_stability(), seed)\n\ndef", "                                  rnd_seed=0)\n\n    n_loops = clustering.find_louvain_clustering(n_meta_iter_max=n_meta_iter_max,\n                                                 n_sub_iter_max=n_sub_iter_max,\n                                                verbose=clust_verbose,\n                                                print_num_loops=print_num_loops)\n\n    if verbose:\n        print(\"**** PID \", os.getpid(), f\"sym clust took {time.time()-t0:.4f}s, finished at\",\n              time.strftime(\"%Y-%m-%d %H:%M:%S\",time.localtime()), f\", in {n_loops} loops.\")\n\n    return (clustering.partition.cluster_list, clustering.compute_stability(), seed)\n\ndef")], "constant seed"),
 ("P11", "fire", [(P, "params = [(c1,c2, N, verbose)", "params = [(c1,c1, N, verbose)")], "pair"),
 ("P11", "fire", [(X, "res = p.map(_worker,", "res = p.imap_unordered(_worker,")], "unordered"),
 ("P11", "fire", [(X, "for i in range(N)])", "for i in range(N-1)])")], "columns"),
 ("P11", "fire", [(X, 'var_dict["A"] = csc_matrix(', 'var_dict["A"] = csr_matrix(')], "csr"),
 ("P11", "fire", [(X, "np.frombuffer(indices, dtype=np.int32),\n                                  np.frombuffer(indptr, dtype=np.int32)", "np.frombuffer(indptr, dtype=np.int32),\n                                  np.frombuffer(indices, dtype=np.int32)")], "indices/indptr"),
 ("P11", "fire", [(X, "T = vstack(res).T.tocsr()", "T = vstack(res).tocsr()")], "transposed"),
 ("P11", "quiet", [(P, IA, "initargs=tuple([Sraw, Traw, N, p1raw, p2raw])")], "tuple(list)"),
 ("P11", "quiet", [(P, "                        clust_verbose, print_num_loops) for \\\n                        seed in n_random_seeds(num_repeat)]\n\n        if verbose:\n            print(\"**** PID \", os.getpid(), f\"starting pool of {nproc} processes for the clustering loop.\")\n\n        with Pool(nproc,\n                  initializer=_init_sub_worker_sparse", "                        clust_verbose, print_num_loops) for seed in list(n_random_seeds(num_repeat))]\n\n        if verbose:\n            print(\"x\")\n\n        with Pool(nproc,\n                  initializer=_init_sub_worker_sparse")], "list()"),
 ("P11", "quiet", [(P, "    return (clustering.partition.cluster_list, clustering.compute_stability(), seed)\n\ndef _compute_sym_sparse", "    clusters = clustering.partition.cluster_list\n    stab = clustering.compute_stability()\n    return clusters, stab, seed\n\ndef _compute_sym_sparse")], "locals"),
 ("P11", "quiet", [(P, "            clusters, stabilites, seeds = \\\n                zip(*pool.map(_compute_sym_clustering_fct, params_list,\n                              chunksize=1))", "            results = pool.map(_compute_sym_clustering_fct, params_list, chunksize=1)\n        clusters = tuple(r[0] for r in results)\n        stabilites = tuple(r[1] for r in results)\n        seeds = tuple(r[2] for r in results)")], "comprehensions"),
 ("P11", "quiet", [(X, 'indices = RawArray("i",A.indices)', 'idx = A.indices\n    indices = RawArray("i", idx)')], "local"),
 ("P11", "quiet", [(X, '        res = p.map(_worker, [(i,thresh_ratio) for i in range(N)])', '        jobs = []\n        for i in range(N):\n            jobs.append((i, thresh_ratio))\n        res = p.map(_worker, jobs)')], "append loop"),
 ("P11", "fire", [(X, "small_comps, = np.nonzero(comp_sizes < 1000)", "small_comps, = np.nonzero(comp_sizes <= 1000)")], "block twice"),
 ("P11", "fire", [("temporal_network.py", "= cmp_expm[sub_expm_row,:]", "= cmp_expm[:,sub_expm_row]")], "block transposed"),
 ("P11", "fire", [(X, "for c, sub_expm in zip(small_comps, res):", "for c, sub_expm in zip(large_comps, res):")], "wrong blocks"),
 ("P11", "quiet", [(X, "small_comps, = np.nonzero(comp_sizes < 1000)", "small_comps, = np.nonzero(~(comp_sizes >= 1000))")], "not"),
]
