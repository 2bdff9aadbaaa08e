import json
P=[]
def p(id,title,stmt,over,qt,why,files,syms):
    P.append(dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=qt),why_tests_cant=why,anchors=dict(files=files,mechanism=[dict(name=x,where=files[0] if len(files)==1 else "/".join(files)) for x in syms])))
M="src/merkle.rs";PR="src/proof.rs";S="src/store/mod.rs";D="src/store/disk.rs";L="src/store/level_cache.rs";MM="src/store/mmap.rs";V="src/store/vec.rs";H="src/hash.rs";HI="src/hash_impl.rs"
p("C01","Every construction yields the canonical tree and root",
 "For any power-of-two arity and any number of leaves that is a power of that arity, building a tree stores the leaf row followed by each next row, where node k of a row is the hash, at that row's height, of exactly the consecutive children k*arity .. k*arity+arity-1 in order; the reported root is the last node. The result depends only on the leaves (and the hash function): iterator, parallel iterator, byte slice, every store kind, the small- and the large-tree algorithm and every work split give the same nodes, root, length, leaf count and row count.",
 ["inputs","schedules","configurations"],"all leaf sequences, arities, leaf counts (on both sides of the small-tree and chunking thresholds), store kinds and work splits",
 "Tests compare a few fixed roots for a few sizes and mostly hash functions that ignore the node height; no test covers every chunk boundary, arity and store kind.",
 [S,M,D,L,V],["Store::build","Store::build_small_tree","Store::process_layer","DiskStore::build","DiskStore::process_layer","LevelCacheStore::build","populate_data","populate_data_par","MerkleTree::try_from_iter","MerkleTree::from_par_iter","MerkleTree::from_byte_slice"])
p("C02","Inclusion proofs are complete and correctly addressed",
 "For every tree and every leaf index in range, a generated proof validates, its leaf is the tree's leaf at that index, its root is the tree's root, its path is the base-arity digits of the index from the lowest digit up, and its siblings are the tree's nodes in child order. A leaf index out of range gives an error, never a proof and never a panic.",
 ["inputs","configurations"],"all trees (all arities, sizes, stores, compound shapes) and all indices, including out-of-range ones",
 "Tests only check that proofs of a few trees validate under hash functions that mostly ignore heights; they do not check path, siblings or out-of-range indices for all shapes.",
 [M,PR],["MerkleTree::gen_proof","MerkleTree::gen_sub_tree_proof","Proof::new","Proof::item","Proof::root","Proof::path"])
p("C03","Proof validation accepts exactly the proofs that hash up to the root",
 "Validation of a proof returns true exactly when its shape is consistent (one sibling group per path element, each path element smaller than the arity, a sub proof exactly when the layer requires one) and hashing the leaf upwards, placing the running hash at the path position among the siblings of each level, reproduces the proof's root at every layer. Every other proof is rejected with false or an error; validation never panics.",
 ["inputs"],"all proofs, including arbitrarily modified leaves, siblings, roots, path elements, lengths and nested layers",
 "Tests flip one random element of otherwise honest proofs; they cannot show that every other tampering or shape is rejected and none accepted.",
 [PR],["Proof::validate","Proof::validate_sub_tree_proof","Proof::new"])
p("C04","Compound trees are the ordered composition of their sub-trees",
 "A compound tree made from sub-trees has as root the hash of the sub-tree roots in the given order (per layer), as leaf count the sum, as length the sum of the lengths plus one per layer node and as row count the sub-tree row count plus one; leaf i is leaf i mod L of sub-tree i div L, where L is the leaf count of one sub-tree. Every way of making a compound tree (from trees, grouped trees, slices, stores, store configurations) from the same parts gives the same tree.",
 ["inputs","configurations"],"all numbers, orders and sizes of sub-trees and all leaf indices",
 "Tests cover a handful of shapes with identical sub-trees, for which order and addressing mistakes are invisible.",
 [M],["MerkleTree::from_trees","MerkleTree::from_sub_trees","MerkleTree::from_sub_trees_as_trees","MerkleTree::from_slices","MerkleTree::from_stores","MerkleTree::from_store_configs","MerkleTree::from_sub_tree_store_configs","MerkleTree::read_at","MerkleTree::gen_sub_tree_proof"])
p("C05","Tree geometry functions agree with each other and with the tree",
 "For every power-of-two arity of at least two, the tree length of n leaves is the sum of the row widths n, n/arity, ... down to 1, the row count is the number of these rows, the number of leaves computed from a length inverts the length and rejects lengths no tree has, the cache size is the length less the base row and the discarded rows, the proof length is 2 + (arity-1)*(rows-1), and the size-validity test accepts exactly the powers of the arity. Default numbers of discarded rows never exceed what the tree can discard.",
 ["inputs"],"all arities and leaf counts up to 2^62, valid or not",
 "Tests compare a dozen constants.",
 [M,S],["get_merkle_tree_len","get_merkle_tree_len_generic","get_merkle_tree_leafs","get_merkle_tree_row_count","get_merkle_tree_cache_size","get_merkle_proof_lemma_len","is_merkle_tree_size_valid","next_pow2","log2_pow2","StoreConfig::default_rows_to_discard"])
p("C06","Proofs from cached (partial) trees equal full proofs",
 "For every tree whose rows just above the leaves were discarded, every number of discarded rows and every leaf index, the proof generated from base leaves, a rebuilt partial tree and cached rows equals the proof the full tree gives (same leaf, siblings, path and root) and therefore validates. Out-of-range indices and unusable numbers of discarded rows give an error.",
 ["inputs","configurations"],"all arities, sizes, discarded row counts and leaf indices, for single and compound trees",
 "Tests check that cached proofs validate for a few configurations, not that they equal the full proof for each segment boundary and row count.",
 [M,L],["MerkleTree::gen_cached_proof","MerkleTree::gen_proof_with_partial_tree","MerkleTree::gen_cached_sub_tree_proof","MerkleTree::gen_cached_top_tree_proof","MerkleTree::build_partial_tree"])
p("C07","A level-cache store never returns wrong data",
 "A read of a level-cache store at any element range returns exactly the elements of the full tree at that range or an error: base-row reads come from the base data (the external reader at its configured offset when one is set), cached-row reads from the cached part of the file, and any read touching discarded rows or leaving the tree is an error. This holds for all read calls and for both on-disk formats.",
 ["inputs","configurations"],"all element ranges, discarded row counts, arities, reader offsets and both file formats",
 "Tests read along proof paths only; they never read inside or across the discarded rows nor at every boundary.",
 [L,S],["LevelCacheStore::read_at","LevelCacheStore::read_into","LevelCacheStore::read_range","LevelCacheStore::read_range_into","LevelCacheStore::store_read_range","LevelCacheStore::store_read_into","ExternalReader::read","LevelCacheStore::new_from_disk_with_reader","LevelCacheStore::new_from_disk"])
p("C08","Stores behave as arrays of elements",
 "For the in-memory, disk and memory-mapped stores: after any sequence of writes, bulk copies and pushes, a read of an element, of a range or into a buffer returns what was last written at those positions, no other position is changed, the length is one more than the highest position written (or loaded), and the store is empty exactly when its length is zero. Reading beyond the length, writing beyond the capacity of a fixed-size store or copying a byte slice that is no whole number of elements is refused.",
 ["inputs","histories"],"all stores, all operation sequences, positions and lengths",
 "Tests write once front to back; the quantifier is over all operation histories and positions.",
 [V,D,MM,S],["VecStore::write_at","VecStore::copy_from_slice","VecStore::read_range","DiskStore::write_at","DiskStore::copy_from_slice","DiskStore::read_at","DiskStore::read_range","DiskStore::read_into","DiskStore::read_range_into","DiskStore::store_copy_from_slice","MmapStore::write_at","MmapStore::copy_from_slice","MmapStore::read_range","Store::last"])
p("C09","Compacting a disk tree keeps exactly base/cached data",
 "Compacting a disk-backed tree of any arity and size keeps, in the old format, the base row followed by the cached rows, and in the new format only the cached rows, byte for byte, and truncates the file to exactly that; the store's length and size agree with the file and the consistency checks accept exactly files of that size. A configuration that would cache nothing or everything is refused and leaves the file unchanged.",
 ["inputs","configurations"],"all arities, sizes, discarded row counts and both formats",
 "Tests compact a few trees and only check that later proofs validate.",
 [D,L],["DiskStore::compact","LevelCacheStore::is_consistent","LevelCacheStore::is_consistent_v1","DiskStore::is_consistent","LevelCacheStore::front_truncate"])
p("C10","Persisted trees reopen identical, mismatched files are refused",
 "Reopening the file of a persisted tree with the same size and arity, however it was created, yields a tree with the same leaves, nodes, root, length and proofs; building from an iterator over an existing disk-store file loads it and does not repopulate it. Opening a missing file, or a disk or memory-mapped store file whose size does not match the requested tree, is an error and changes nothing on disk.",
 ["histories","configurations"],"all sizes, arities, store kinds, configurations and reopen histories",
 "Tests reopen a few well-formed trees of fixed sizes.",
 [D,MM,L,M],["DiskStore::new_with_config","DiskStore::new_from_disk_with_path","DiskStore::new_from_slice_with_config","MmapStore::new_with_config","MmapStore::new_from_disk","LevelCacheStore::new_from_disk","MerkleTree::from_data_store","MerkleTree::try_from_iter_with_config","StoreConfig::data_path"])
p("C11","Leaf and node hashing follow the domain-separated scheme",
 "By default a leaf hash is the hash of byte 0x00 followed by the item's bytes and an interior hash the hash of byte 0x01 followed by all children's bytes in order; building from data hashes each datum from a fresh state, so equal data at any position give equal leaves. A proof validates against given leaf data exactly when it validates and its leaf is the leaf hash of that data.",
 ["inputs"],"all leaf data, numbers of children and positions",
 "Tests compare a few digests and validate a few items.",
 [H,M,PR],["Algorithm::leaf","Algorithm::node","Algorithm::multi_node","Algorithm::reset","MerkleTree::from_data","MerkleTree::from_data_with_config","Proof::validate_with_data","populate_data"])
p("C12","Hashable encodings are deterministic and slice-consistent",
 "Feeding a value to a hasher writes exactly its documented bytes (fixed-width integers in native order, booleans and characters as integers, strings and byte vectors as their bytes without terminator, tuples field by field, references as their target), and feeding a slice writes exactly the concatenation of its elements' bytes.",
 ["inputs"],"all values of the supported types and all slice lengths",
 "Tests hash a few values; slices use unsafe reinterpretation whose length and order must be right for every element type.",
 [HI,H],["Hashable::hash","Hashable::hash_slice"])
p("C13","Parallel iteration over a store yields each element once, in order",
 "Splitting a store's producer at any point, any number of times, yields disjoint contiguous parts that together cover the whole in order; iterating parts from either end yields each element exactly once in order and then stops. The reported length always equals the number of remaining elements.",
 ["schedules","inputs"],"all split trees, all interleavings of front and back iteration, all store lengths",
 "Tests use whatever splits the scheduler happens to make.",
 [S],["VecStoreProducer::split_at","VecStoreIter::next","VecStoreIter::next_back","DiskStoreProducer::split_at","DiskIter::next","DiskIter::next_back"])
p("C14","Malformed inputs are refused, never built into a tree",
 "Constructing a tree from a leaf count that is not a power of the arity, from fewer than two leaves, from a byte slice that is no whole number of leaves, from data whose length does not match the announced leaf count, from an iterator that yields an error, or from sub-trees of unequal size or wrong number returns an error. It neither panics nor returns a tree.",
 ["inputs","configurations"],"all malformed inputs of every constructor",
 "Tests try a few malformed sizes on a few constructors.",
 [M,S,D,L],["MerkleTree::try_from_iter","MerkleTree::try_from_iter_with_config","MerkleTree::from_byte_slice","MerkleTree::from_byte_slice_with_config","MerkleTree::from_data_store","MerkleTree::from_tree_slice","MerkleTree::from_trees","MerkleTree::from_sub_trees","MerkleTree::from_sub_trees_as_trees","Store::build"])
p("C15","Concurrent readers see a consistent tree",
 "Threads that share a built tree and read it or generate proofs at the same time each get the results they would get alone.",
 ["schedules"],"all interleavings of readers",
 "Tests have no concurrent readers.",
 [S,D],["Store","DiskStore::read_at"])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
for x in P: assert len(x['title'])<=80,(x['id'],len(x['title']))
