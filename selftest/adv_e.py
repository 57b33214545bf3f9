N,C,P="network_clustering.py","_cython_fast_funcs.pyx","parallel_clustering.py"
CASES=[
("P31",C,"            n_inter += l_inter\n            if nij > 0:\n                nj = <double>len(clust2)\n                VI -= nij*log2((nij*nij)/(ni * nj))\n            \n            if n_inter >= ni:\n                # we have found all the possible intersections\n                break","            n_inter += l_inter\n            if n_inter >= ni:\n                break\n            if nij > 0:\n                nj = <double>len(clust2)\n                VI -= nij*log2((nij*nij)/(ni * nj))\n"),
("P31",C,"        n_inter = 0\n        for j in range(n2):","        for j in range(n2):"),
("P31",C,"            if n_inter >= ni:","            if n_inter >= nj:"),
("P31",C,"            if n_inter >= ni:","            if n_inter > 0:"),
("P31",C,"            if n_inter >= ni:","            if l_inter >= ni/2:"),
("P31",C,"VI -= nij*log2((nij*nij)/(ni * nj))","VI -= nij*log2(nij/(ni * nj))"),
("P31",C,"VI -= nij*log2((nij*nij)/(ni * nj))","VI -= nij*log2((nij*N)/(ni * nj))"),
("P31",C,"VI -= nij*log2((nij*nij)/(ni * nj))","VI -= nij*log2((nij*nij)/(ni * ni))"),
("P31",C,"VI -= nij*log2((nij*nij)/(ni * nj))","VI += nij*log2((nij*nij)/(ni * nj))"),
("P31",C,"VI -= nij*log2((nij*nij)/(ni * nj))","VI -= log2((nij*nij)/(ni * nj))"),
("P31",C,"            if nij > 0:\n                nj = <double>len(clust2)","            if nij > 1:\n                nj = <double>len(clust2)"),
("P31",C,"    return VI/(<double>N*log2(<double>N))","    return VI/(<double>n1*log2(<double>n1))"),
("P31",C,"    return VI/(<double>N*log2(<double>N))","    return VI/(<double>N)"),
("P31",C,"    return VI/(<double>N*log2(<double>N))","    return VI/(<double>N*log2(<double>n1))"),
("P31",C,"    for i in range(n1):\n        clust1 = clusters1[i]\n        ni = <double>len(clust1)\n        n_inter = 0","    for i in range(n1-1):\n        clust1 = clusters1[i]\n        ni = <double>len(clust1)\n        n_inter = 0"),
("P31",C,"        for j in range(n2):\n            clust2 = clusters2[j]\n            l_inter","        for j in range(i, n2):\n            clust2 = clusters2[j]\n            l_inter"),
("P31",C,"        for j in range(n2):\n            clust2 = clusters2[j]\n            l_inter","        for j in range(n1):\n            clust2 = clusters2[j]\n            l_inter"),
("P31",C,"            p12[k] = len(clust1.intersection(clust2))/N\n            k += 1\n    for j","            p12[k] = len(clust1.intersection(clust2))/N\n        k += 1\n    for j"),
("P31",C,"        p2[j] = len(clust2)/N","        p2[j] = len(clust2)/n2"),
("P31",C,"        if p2[j] != 0:","        if p2[j] > 0.01:"),
("P31",C,"    for j in range(n1*n2):\n        if p12[j] != 0:","    for j in range(n1*n1):\n        if p12[j] != 0:"),
("P31",C,"            H12 -= p12[j]*log2(p12[j])","            H12 -= p12[j]*log2(p1[i])"),
("P31",C,"    return (H1 + H2 - H12)/fmax(H1,H2)","    return (H1 + H2 - H12)/fmin(H1,H2)"),
("P31",C,"    return (H1 + H2 - H12)/fmax(H1,H2)","    return 2*(H1 + H2 - H12)/(H1+H2)"),
("P31",C,"    return (H1 + H2 - H12)/fmax(H1,H2)","    return (H1 - H2 + H12)/fmax(H1,H2)"),
("P31",N,"                n_inter += nij\n                if nij > 0:","                n_inter += 1\n                if nij > 0:"),
("P31",N,"                if n_inter >= ni:","                if n_inter >= ni - 1:"),
("P31",N,"                if n_inter >= ni:","                if nij == ni or nij == len(clust2):"),
("P31",N,"            n_inter = 0\n            for j in range(n2):","            for j in range(n2):"),
("P31",N,"    if n1 == n2 == N:\n        return 0.0","    if n1 == n2:\n        return 0.0"),
("P31",N,"    if n1 == n2 == N:\n        return 0.0","    if n1 == N or n2 == N:\n        return 0.0"),
("P31",N,"    if (n1 == n2) and (clusters1 == clusters2):\n        return 0.0","    if (n1 == n2) or (clusters1 == clusters2):\n        return 0.0"),
("P31",N,"    if (n1 == n2) and (clusters1 == clusters2):\n        return 0.0","    if (n1 == n2) and (clusters1[0] == clusters2[0]):\n        return 0.0"),
("P31",N,"    if (n1 == n2) and (clusters1 == clusters2):\n        return 0.0","    if (n1 == n2) and sorted(map(len, clusters1)) == sorted(map(len, clusters2)):\n        return 0.0"),
("P31",N,"    if n1 == n2 == N:\n        return 0.0","    if n1 == n2 == N:\n        return 1.0"),
("P31",N,"        N = sum(len(clust) for clust in clusters1)\n\n    n1 = len(clusters1)\n    n2 = len(clusters2)\n\n    # trivial","        N = max(len(clust) for clust in clusters1)\n\n    n1 = len(clusters1)\n    n2 = len(clusters2)\n\n    # trivial"),
("P31",N,"        N = sum(len(clust) for clust in clusters1)\n\n    n1 = len(clusters1)","        N = sum(len(clust) for clust in clusters1[:-1])\n\n    n1 = len(clusters1)"),
("P31",N,"        return cython_nvi(clusters1, clusters2, N)","        return cython_nvi(clusters1, clusters1, N)"),
("P31",N,"        return cython_nvi(clusters1, clusters2, N)","        return cython_nvi(clusters1, clusters2, n1)"),
("P31",N,"                    cluster_list[clust].add(node)\n            clusters2 = cluster_list","                    cluster_list[node].add(clust)\n            clusters2 = cluster_list"),
("P31",N,"            cluster_list = [set() for _ in \\\n                            range(max(clusters2.values()) + 1)]","            cluster_list = [set() for _ in \\\n                            range(max(clusters2.values()))]"),
("P31",N,"        return MI/max((H1,H2))","        return MI/min((H1,H2))"),
("P31",N,"        MI = H1 + H2 - H12","        MI = H12 - H1 - H2"),
("P31",N,"        return cython_nmi(clusters1, clusters2, N, n1, n2)","        return cython_nmi(clusters1, clusters2, N, n2, n1)"),
("P31",N,"                p12[k] = len(clust1.intersection(clust2))/N\n                k += 1","                p12[k] = len(clust1.union(clust2))/N\n                k += 1"),
("P31",N,"        H1 = - np.sum(p1[p1 !=0]*np.log2(p1[p1 !=0]))","        H1 = - np.sum(p1[p1 !=0]*np.log2(p2[p2 !=0]))"),
("P31",N,"        p2 = np.array([len(clust2)/N for clust2 in clusters2])","        p2 = np.array([len(clust2)/N for clust2 in clusters1])"),
("P31",N,"        if same_in_1 and same_in_2:\n            same += 1","        if same_in_1 == same_in_2:\n            same += 1"),
("P31",N,"        same_in_2 = clusters2[n1] == clusters2[n2]","        same_in_2 = clusters2[n1] == clusters1[n2]"),
("P31",N,"        if not same_in_1 and same_in_2:\n            diff += 1\n","        if not same_in_1 and same_in_2:\n            same += 1\n"),
("P31",N,"        if not same_in_1 and same_in_2:\n            diff += 1\n",""),
("P31",N,"        for i, clust in enumerate(clusters2):\n            for node in clust:\n                node_to_cluster_dict[node] = i","        for i, clust in enumerate(clusters2):\n            for node in clust:\n                node_to_cluster_dict[i] = node"),
("P31",N,"        num_samples = min(num_samples, max_num_varinf_samples)","        num_samples = max(num_samples, max_num_varinf_samples)"),
("P31",N,"                                                       num_samples,\n                                                       replace=False)","                                                       num_samples)"),
("P31",N,"    N = sum(len(clust) for clust in clusters_lists_list[0])","    N = len(clusters_lists_list[0])"),
("P31",N,"    return np.mean([norm_var_information(c1,c2, N=N,","    return np.mean([norm_var_information(c1,c1, N=N,"),
("P31",N,"    return np.mean([norm_var_information(c1,c2, N=N,","    return np.median([norm_var_information(c1,c2, N=N,"),
("P31",N,"    nvarinf_samples = [s for i,s in enumerate(combinations(clusters_lists_list,2)) \\","    nvarinf_samples = [s for i,s in enumerate(combinations(clusters_lists_list,2), 1) \\"),
("P31",N,"    max_num_varinf_samples = int(num_repeat*(num_repeat-1)/2)","    max_num_varinf_samples = int(num_repeat*(num_repeat-1)/4)"),
("P31",N,"    max_num_varinf_samples = int(num_repeat*(num_repeat-1)/2)","    max_num_varinf_samples = int(num_repeat*(num_repeat+1)/2)"),
("P31",P,"    max_num_varinf_samples = int(num_repeat*(num_repeat-1)/2)","    max_num_varinf_samples = num_repeat"),
("P31",P,"or num_varinf_samples > max_num_varinf_samples:","or num_varinf_samples < max_num_varinf_samples:"),
("P31",P,"    if num_varinf_samples is None or num_varinf_samples > max_num_varinf_samples:","    if num_varinf_samples is None:"),
("P31",P,"                                                       num_varinf_samples,\n                                                       replace=False)","                                                       num_varinf_samples,\n                                                       replace=True)"),
("P31",P,"enumerate(combinations(list_of_cluster_lists,2))","enumerate(combinations_with_replacement(list_of_cluster_lists,2))"),
("P31",P,"                                               if i in nvarinf_samples_idx]","                                               if i not in nvarinf_samples_idx]"),
("P31",P,"    params = [(c1,c2, N, verbose) for c1, c2 in nvarinf_samples]","    params = [(c1,c2, num_repeat, verbose) for c1, c2 in nvarinf_samples]"),
("P31",P,"    params = [(c1,c2, N, verbose) for c1, c2 in nvarinf_samples]","    params = [(c1,c1, N, verbose) for c1, c2 in nvarinf_samples]"),
("P31",P,"    nvi = norm_var_information(c1, c2, N,","    nvi = norm_var_information(c2, c2, N,"),
("P31",P,"            nvarinf_sym_vals = list(pool.map(_compute_nvi_sample, params,","            nvarinf_sym_vals = set(pool.map(_compute_nvi_sample, params,"),
("P31",P,"        nvarinf_sym_vals = list(map(_compute_nvi_sample, params))","        nvarinf_sym_vals = list(map(_compute_nvi_sample, params[:nproc]))"),
]
