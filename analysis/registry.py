"""which analyses decide which property"""

TERM = {
    "C01": ["specs_dense"],
    "C02": ["specs_lr"],
    "C03": ["specs_h"],
    "C04": ["specs_prod"],
    "C05": ["specs_solve"],
    "C06": ["specs_dist"],
    "C07": ["specs_local"],
    "C08": ["specs_num"],
    "C09": ["specs_export"],
    "C10": ["specs_build"],
    "C11": ["specs_cluster"],
    "C12": ["specs_sched"],
    "C13": ["specs_value"],
    "C14": ["specs_wiring"],
    "C15": ["specs_files"],
    "C16": ["specs_algebra"],
}
LINT = {
    "C12": ["lints.races"],
}

RULES = {
    "C01": "for every flag combination and symbolic size, the abstract effect of the kernel on its output equals alpha op(A) op(B) + beta C and its inputs are unchanged",
    "C02": "for every flag combination, symbolic size and rank (zero included), the abstract effect of the low-rank kernel equals its specification, and shapes and inputs are preserved",
    "C04": "for every structure of the operands and of the output (dense, low-rank, hierarchical, matching or not), flag, symmetry and rank, the abstract effect of the product on its output equals alpha op(A) op(B) + beta C as a block term; operands unchanged; recompression only as the final step",
    "C05": "with the triangular inverse and the LU / Cholesky factors of an unknown block as uninterpreted operators of its value, every solve equals block substitution, every factorization equals block elimination, and the dense kernels equal LAPACK's definition with the pivots applied on the right side and order; for every side, triangle, transposition, diagonal flag, structure and size",
    "C03": "for every flag combination and symmetry, summing the symbolic contribution of a generic leaf over a tiling of the block gives alpha op(A) op(x) + beta y with every leaf (and mirrored leaf) used exactly once",
    "C06": "with the rank number, the rank count and the partition sizes symbolic, substituting the sender's rank into the value it sends at each collective, the final output term on a generic rank equals its slice of op(sum of local operators) applied to the global vector; sent and expected counts agree; MPI datatypes match the buffers",
    "C07": "for every flag combination, with sizes, offsets and the renumbering permutations symbolic, the abstract effect of the local operator on its output equals alpha op(block) x + beta y on its slice and the identity elsewhere",
    "C08": "with permutation arrays, sizes and offsets symbolic, the abstract effect of every conversion equals the permutation (or its inverse) applied to exactly the rows or columns it concerns, and the inputs are unchanged",
    "C09": "for every listed tree shape, with sizes, offsets, ranks and renumbering arrays symbolic, the abstract content of the exported array equals the value of the block tree, and nothing outside it is written",
    "C10": "for every listed pair of cluster-tree shapes, partition, admissibility pattern, symmetry and option, the leaves of the abstract result (plus mirror images) cover every elementary block exactly once and each leaf's abstract data equals the generator's block at its place",
    "C11": "nested tiling of clusters, order and ranks of parts, ranges of the renumbering, inputs of centre and radius, depths, pieces of the splitting strategies",
    "C12": "no unsynchronised write or conflicting access to shared memory from a parallel region; a team of two threads under the extreme schedules computes the sequential specification",
    "C13": "after a copy every declared member equals the original and no buffer or node is shared; after a move every member is the original's and each buffer has one owner; destroying all objects frees every owned buffer exactly once and no lent one",
    "C14": "each parameter, cluster, permutation and communicator that reaches the block tree, the generator, the partitions and the local operator is the caller's; the product of the assembled operator is that of the built matrix on the rows of the calling process",
    "C15": "every field of the object read equals the field written, as symbolic terms; no field is read past, without separator, as another type or from a missing line; the bytes read are the bytes written",
    "C16": "for symbolic sizes and indices the abstract result of each operator equals its definition, owns its storage and has the right shape, and its operands and the untouched coefficients are unchanged",
}
