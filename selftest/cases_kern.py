S = "_cython_sparse_stoch.pyx"
MO = "    for j in range(PTindptr[k],PTindptr[k+1]):\n        if idx_set.count(PTindices[j]):\n            s -= PTdata[j]\n    for j in range(PTcscindptr[k],PTcscindptr[k+1]):\n        if idx_set.count(PTcscindices[j]):\n            s -= PTcscdata[j]\n"
CASES = [
 ("P20", "quiet", [(S, "        s -= p1[k]*p2[idx[i]]\n        s -= p1[idx[i]]*p2[k]\n", "        if idx[i] != k:\n            s -= p1[k]*p2[idx[i]]\n            s -= p1[idx[i]]*p2[k]\n")], "node itself skipped, not a member anyway"),
 ("P20", "fire", [(S, "        s += p1[k]*p2[idx[i]]\n        s += p1[idx[i]]*p2[k]\n", "        if idx[i] != k:\n            s += p1[k]*p2[idx[i]]\n            s += p1[idx[i]]*p2[k]\n")], "node itself skipped in moveout"),
 ("P20", "quiet", [(S, "        s += p1[k]*p2[idx[i]]\n        s += p1[idx[i]]*p2[k]\n    s -= p1[k]*p2[k]\n", "        if idx[i] != k:\n            s += p1[k]*p2[idx[i]]\n            s += p1[idx[i]]*p2[k]\n    s += p1[k]*p2[k]\n")], "node itself apart in moveout"),
 ("P20", "fire", [(S, "        s += p1[k]*p2[idx[i]]\n        s += p1[idx[i]]*p2[k]\n", "        if idx[i] != k:\n            s += p1[k]*p2[idx[i]]\n        s += p1[idx[i]]*p2[k]\n")], "half of the node itself skipped in moveout"),
 ("P21", "fire", [(S, "            AtoB[idxs_array[ka]] = kb\n", "            AtoB[ka] = kb\n")], "position instead of member"),
 ("P21", "fire", [(S, "            if col_set.count(Aindices[j]):\n                s += Adata[j]\n", "            if col_set.count(Aindices[j]) and Aindices[j] != row:\n                s += Adata[j]\n")], "diagonal dropped"),
 ("P25", "quiet", [(S, "        if i in Anz_only:\n            # we need to add the diagonal term of B\n            spa.scatter(Bdiag_val, ic)\n", "        if i in Anz_only and Bdiag_val != 0.0:\n            # we need to add the diagonal term of B\n            spa.scatter(Bdiag_val, ic)\n")], "zero diagonal not scattered"),
 ("P25", "fire", [(S, "        if i in Anz_only:\n            # we need to add the diagonal term of B\n            spa.scatter(Bdiag_val, ic)\n", "        if i in Anz_only and Bdiag_val > 0.0:\n            # we need to add the diagonal term of B\n            spa.scatter(Bdiag_val, ic)\n")], "negative diagonal not scattered"),
 ("P25", "quiet", [(S, "            for k in range(Tf_indptr[tbrow],Tf_indptr[tbrow+1]):\n                Ts_data[its]", "            for k in range(Tf_indptr[tbrow],Tf_indptr[tbrow+1]):\n                if Tf_data[k] == 0:\n                    continue\n                Ts_data[its]")], "explicit zeros not copied"),
 ("P25", "fire", [(S, "            # correctly)\n            continue\n\n", "            # correctly)\n            break\n\n")], "rows after an empty one are not normalised"),
]
CASES += [
 ("P25", "fire", [(S, "        if sum_ == 0.0:\n            # do not normalize empty rows (can happen if CSR is not pruned\n            # correctly)\n            continue\n        \n", "")], "division by zero"),
]
