B = "Everything within the stated bounds is executed on the real code; behaviour beyond the bounds is extrapolated."
CLAIMS = {
 "C01": ("breadth-first exploration of mutator histories on the real objects with canonical-state deduplication; well-formedness invariant in every state", B),
 "C02": ("breadth-first exploration of mutator histories plus exhaustive transforms; rank lists compared by identity with the tree in every state", B),
 "C03": ("exhaustive enumeration of trees x points x start positions x reference-write sequences on the real code, map oracle", B),
 "C05": ("exhaustive enumeration of destination x source x loop body on the real code; reference interpreter compared at every yield", B),
 "C07": ("exhaustive enumeration of fibers x traversal modes x ranges, start positions, transforms and intervals on the real code; element identity and raw tree checked at every yield", B),
 "C08": ("exhaustive enumeration of trees x splits x halos x relative/absolute x depths and of nested re-splits on the real code, partition oracle", B),
 "C09": ("exhaustive enumeration of trees x rank transforms (all depths, levels, styles, permutations, merge functions) and their inverses on the real code, point-map oracle", B),
 "C12": ("exhaustive enumeration of all pairs of trees x presentations on the real code against content equality; emptiness, count and pruning on every sub-tree", B),
 "C11": ("exhaustive enumeration of operators x operand kinds x values, in-place histories, and all tree pairs / scalars for fiber arithmetic on the real code against bare-value and dense arithmetic", B),
 "C13": ("exhaustive enumeration of nests, trees, transform results and seeds x shapes x densities on the real code; dense-evaluation and round-trip oracles", B),
 "C14": ("exhaustive enumeration of trees x attribute assignments x transforms and transform pairs, constructors, joins and lazy operators on the real code against an attribute-rearranging model", B),
 "C10": ("exhaustive enumeration of trees x value-returning operations x follow-up mutations, observers, observer pairs and renderings on the real code between identity snapshots", B),
 "C06": ("exhaustive enumeration of kernel programs (expression x loop order x tiling x co-iteration style) x operand tuples run on the real code, dense-evaluation oracle", B),
 "C16": ("exhaustive enumeration of loop nests x operand trees x traced sets x flush thresholds on the real code; every trace row compared with a pure model of the loop nest", B),
 "C17": ("exhaustive enumeration of read/write traces x bindings x capacities x line sizes run through the real models; window-pair count, furthest-next-use policy and exhaustive search of replacement decisions as oracles", B),
 "C18": ("exhaustive enumeration of trees x formats x field subsets x points, transform results and mutator histories on the real code; sums over a raw walk of the tree", B),
 "C19": ("exhaustive enumeration of fiber-pair sequences x batchings through the real operator, trace and cost models, and of trees x radix x latency for the swap model; independent merge simulations as oracles", B),
 "C20": ("exhaustive enumeration of trees x format descriptors x imposed shapes through the real codec; independent layout decoder, handle-interface scan, lookups and sizes on the real encoded objects", B),
 "C15": ("exhaustive enumeration of kernels x traced sets x session histories on the real code, against the counts the interpreter executed itself and a fresh process", B),
 "C04": ("exhaustive enumeration of operand tuples x operators on the real code, set-algebra oracle", B),
}
