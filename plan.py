"""Which units and root functions decide which property, and the texts of MANIFEST.json."""
UNITS = {
    "geom": {},
    "proof": {},
    "hash": {},
    "vec": {"novac": ["Store for VecStore::read_range_into"]},
    "disk": {},
    "tree": {"novac": ["Store for VecStore::read_range_into"]},
    "enc": {},
    "iterv": {"novac": ["Store for VecStore::read_range_into"]},
    "iterd": {},
    "lc": {},
    "rep": {},
    "cmp": {},
    "elem": {},
    "mmap": {"novac": ["Store for MmapStore::read_range_into"]},
}
BUILD = ["trait Store::build", "trait Store::build_small_tree", "trait Store::process_layer", "trait Store::last"]
VEC = "Store for VecStore::"
DSK = "Store for DiskStore::"
MAP = "Store for MmapStore::"
NEWS = ("new", "new_with_config", "new_from_slice", "new_from_slice_with_config")
OPS = ("write_at", "copy_from_slice", "read_range", "read_at", "read_into", "len", "is_empty", "push")
LCS = "Store for LevelCacheStore::"
LCI = "LevelCacheStore::"
READER = ["ExternalReader::read", "ExternalReader::new_from_config", "ExternalReader::new_from_path"]
def of(pre, *groups):
    return [pre + f for g in groups for f in g]
LCBUILD = of(LCS, ("build", "process_layer")) + of(LCI, ("front_truncate", "read_at_internal", "read_range_internal", "store_read_range_internal"))
T = "MerkleTree::"
BASECTORS = of(T, ("try_from_iter", "try_from_iter_with_config", "from_byte_slice", "from_byte_slice_with_config", "new", "new_with_config", "from_data", "from_data_with_config", "from_tree_slice", "from_tree_slice_with_config", "from_data_store")) + of("FromIndexedParallelIterator for MerkleTree::", ("from_par_iter", "from_par_iter_with_config")) + ["populate_data", "populate_data_par"]
COMPOUND = of(T, ("from_trees", "from_sub_trees", "from_sub_trees_as_trees", "from_slices", "from_slices_with_configs", "from_stores", "from_store_configs", "from_sub_tree_store_configs"))
def par(st, prod, it):
    m = "macro impl_parallel_iter(%s, %s, %s) " % (st, prod, it)
    return of(m, (prod + "::new", prod + "::len", prod + "::is_empty", "Producer for %s::into_iter" % prod, "Producer for %s::split_at" % prod, "ExactSizeIterator for %s::len" % it, it + "::is_done", "Iterator for %s::next" % it, "DoubleEndedIterator for %s::next_back" % it)) \
        + of(m, ["%s for %s::%s" % (a, b, c) for b in (st, "&'a%s<E>" % st) for a, c in (("IndexedParallelIterator", "len"), ("ParallelIterator", "opt_len"), ("IndexedParallelIterator", "with_producer"))])
REPLICA = of(T, ("from_store_configs_and_replica", "from_sub_tree_store_configs_and_replica"))
REPLICA_LC = of(LCI, ("new_from_disk_with_reader", "lemma_v2")) + READER
GETTERS = of(T, ("root", "len", "row_count", "leafs"))
PLAN = {
    "C01": {"units": {"vec": BUILD + of(VEC, NEWS, OPS), "disk": of(DSK, ("build", "process_layer"), NEWS, OPS), "mmap": of(MAP, NEWS, OPS), "lc": LCBUILD, "tree": BASECTORS + GETTERS},
            "note": "Store::build, build_small_tree, process_layer (any chunk order) proved to produce the canonical tree for all leaf counts, arities and elements, over the Store contract that VecStore and MmapStore are proved to meet; DiskStore::build and process_layer (writing through a mapping) proved against the same contract; the user's Algorithm and Element are trait contracts; the MerkleTree constructors (iterator, parallel iterator, byte slice, store, tree slice, with and without configuration) proved to build exactly that tree over any store meeting the contract; the level-cache build (two layouts: with and without the base row) proved to leave exactly the base row and the cached rows of that tree and its root; files and mappings are an assumed model."},
    "C02": {"units": {"tree": of(T, ("gen_proof", "gen_sub_tree_proof", "read_at", "read_range", "read_range_into", "read_into", "data", "is_empty")) + GETTERS, "proof": ["Proof::validate"]},
            "note": "gen_proof proved, for base, sub- and top trees of any arity and size over any store meeting the contract, to return for every index in range a proof with the leaf at that index, the root, the base-arity digits as path and the siblings in child order, which validates; every other index an error without panic."},
    "C03": {"units": {"proof": ["Proof::validate", "Proof::validate_with_data", "Proof::new", "Proof::item", "Proof::root", "Proof::path", "Proof::lemma"]},
            "note": "Proof::validate proved equal to the recursive specification for every proof, any depth and arity, and panic free; assumes the Algorithm trait contract (node hash is a function of its children and height)."},
    "C04": {"units": {"tree": COMPOUND + of(T, ("read_at", "gen_proof", "from_data_store")) + GETTERS, "rep": REPLICA + ["lemma_replica_leaf"], "lc": REPLICA_LC},
            "note": "All constructors of compound trees proved to give the ordered composition (root, leafs, length, rows and sub-trees) for any arity and any store meeting the contract, and to refuse anything else; read_at and gen_proof proved to address leaf i as leaf i mod L of sub-tree i div L; the two replica constructors proved to give sub-tree j over configuration j with base row j of the replica (its leaves are the replica's bytes at offset j)."},
    "C05": {"units": {"geom": "*"},
            "note": "All geometry functions proved against recursive row widths for sizes below 2^62; the row count is proved too, by its integer loop (the floating point logarithm it replaced was wrong for large arities)."},
    "C06": {"units": {"tree": of(T, ("gen_cached_proof", "gen_cached_top_tree_proof", "gen_cached_sub_tree_proof", "gen_proof_with_partial_tree", "build_partial_tree")) + ["StoreConfig::default_rows_to_discard"] + GETTERS},
            "note": "gen_cached_proof and what it calls proved, for base, sub- and top trees of any arity and size and every number of discarded rows, to return exactly the proof the full tree gives (leaf, path, siblings, root) whenever it returns one, to return one whenever base row and cached rows can be read, and to refuse other indices without panic; over any store meeting the contract that implements read_range_into; the level-cache store is proved to meet that contract in C07 and C08."},
    "C07": {"units": {"lc": of(LCS, OPS, ("new_from_disk", "read_range_into")) + of(LCI, ("new_from_disk_with_reader", "set_external_reader", "store_read_range", "store_read_into", "is_range_available", "has_base_layer", "lemma_v1", "lemma_v2")) + LCBUILD + READER, "rep": [T + "set_external_reader_path"]},
            "note": "Every read of a level-cache store proved to return exactly the elements of the tree the opened file (old or new format) or the external reader at its offset holds, or an error; to succeed for every range inside the base row or the cached rows of a healthy store; and to refuse discarded rows, ranges across them and out-of-range ones; for every arity, size, discarded row count and reader; files, positioned readers and the reader function are an assumed model, and the build of a level-cache store proved to leave exactly those rows."},
    "C08": {"units": {"vec": of(VEC, NEWS, OPS), "disk": of(DSK, NEWS, OPS, ("read_range_into",)), "mmap": of(MAP, NEWS, OPS, ("compact", "reinit")), "lc": of(LCS, NEWS, OPS), "elem": "*"},
            "note": "VecStore, DiskStore, MmapStore and LevelCacheStore proved against the one array contract of the Store trait (reads, writes, pushes, slices, gaps, capacity; for the level-cache store reads may be refused only where the rows are not kept); files and mappings are an assumed model."},
    "C09": {"units": {"disk": of(DSK, ("compact", "new_from_disk", "sync")) + ["DiskStore::is_consistent"], "mmap": [MAP + "compact"], "lc": [LCS + "compact"] + of(LCI, ("is_consistent", "is_consistent_v1", "lemma_v1", "lemma_v2", "new_from_disk_with_reader")) + [LCS + "new_from_disk"], "cmp": [T + "compact", "lemma_roundtrip_v1", "lemma_roundtrip_v2", "lemma_compacted"]},
            "note": "DiskStore::compact proved to leave exactly base plus cached rows (old format) or the cached rows (new format), with length and size agreeing, and to refuse unusable configurations unchanged, for every arity, size and discarded row count; the consistency checks of the level-cache store proved to answer exactly whether the file has the size of that format; a compacted file opened as a level-cache store (for the new format with a reader of the base row) proved, in one chain from MerkleTree::compact on, to read as the nodes of the tree it was made of, wherever they are kept, and the tree over it to be that tree; files are an assumed model."},
    "C10": {"units": {"disk": of(DSK, ("new_from_disk", "new_with_config", "new_from_slice_with_config")) + ["DiskStore::new_from_disk_with_path"], "mmap": of(MAP, ("new_from_disk", "new_with_config", "new_from_slice_with_config")), "lc": of(LCS, ("new_from_disk", "new_with_config", "new_from_slice_with_config")) + [LCI + "new_from_disk_with_reader"]},
            "note": "Reopening proved to yield exactly the elements of the file, and missing or wrongly sized files to be refused, for DiskStore, MmapStore and LevelCacheStore; files are an assumed model; the MerkleTree constructors over them are bounded (reopen histories compared)."},
    "C11": {"units": {"hash": "*", "proof": ["Proof::validate_with_data"], "tree": of(T, ("from_data", "from_data_with_config", "new", "new_with_config"))},
            "note": "Default leaf and node hashing proved to feed 0x00 / 0x01 and the bytes in order; validate_with_data proved to accept exactly leaf-hash equal data; from_data proved to hash each datum from a fresh state."},
    "C12": {"units": {"enc": "*"},
            "note": "Every Hashable impl (all integers, byte arrays and vectors, bool, char, text, tuples up to 12, slices, references; the compiler's own macro expansion) proved to feed exactly the value's bytes, and hash_slice of each to feed the concatenation, for all values and lengths; assumed: std's Hasher integer methods write the native bytes, and a slice of padding-free elements reads as their bytes; raw pointers are not covered."},
    "C13": {"units": {"iterv": par("VecStore", "VecStoreProducer", "VecStoreIter"), "iterd": par("DiskStore", "DiskStoreProducer", "DiskIter")},
            "note": "For both stores the macro is applied to: splitting at any point proved to give parts that partition the producer's elements in order, next and next_back proved to take exactly the first and last remaining element and to stop at the end (also after a failed read), lengths proved equal to the remaining count, for all lengths and any split tree and interleaving; rayon itself is assumed to use producers as documented."},
    "C14": {"units": {"tree": BASECTORS + COMPOUND, "rep": REPLICA, "lc": REPLICA_LC},
            "note": "Every constructor proved to return Ok only for inputs of the right shape (leaf count a power of the arity and at least two, whole leaves, announced length equal to the data, no error items, alike sub-trees in the right number) and never to panic inside the stated size domain; this includes the two replica constructors over level-cache stores."},
}
NA = {}
for i in range(1, 16):
    NA["C%02d" % i] = "not yet claimed: the unit that decides it is still being built"
NA["C15"] = "absence of data races and linearisability of concurrent readers is a statement about interleavings of shared reads; the Verus contracts here are sequential, the read functions take &self and the type system already excludes unsynchronised mutation; memory-map aliasing and OS file offsets are outside the verifier's memory model"
