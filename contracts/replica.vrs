verus! {
type Lcs<E> = LevelCacheStore<E, File>;
/// a base tree over the level-cache file of that configuration, with its base row in the replica file at the offset
pub open spec fn replica_of<E: Element, A: Algorithm<E>, B: Unsigned>(t: MerkleTree<E, A, LevelCacheStore<E, File>, B, U0, U0>, leafs: usize, config: StoreConfig, path: PathBuf, offset: usize) -> bool {
    &&& t.base_wf() && t.leafs == leafs && t.root == t.st().view().last()
    &&& t.st().opened(disk(config.file()), tlen(B::n(), t.k()) as int, B::n(), config.rows_to_discard as nat) && t.st().len == t.len
    &&& t.st().reader is Some && t.st().reader->0.offset == offset && t.st().reader->0.source.view() == disk(path)
    &&& disk(config.file()).len() == tlen(B::n(), (t.k() - 1 - config.rows_to_discard) as nat) * E::blen()
}
/// leaf i of such a tree is element i of the replica section
pub proof fn lemma_replica_leaf<E: Element, A: Algorithm<E>, B: Unsigned>(t: MerkleTree<E, A, LevelCacheStore<E, File>, B, U0, U0>, leafs: usize, config: StoreConfig, path: PathBuf, offset: usize)
    requires replica_of(t, leafs, config, path, offset), offset + leafs * E::blen() <= disk(path).len()
    ensures t.st().view().subrange(0, leafs as int) == decode::<E>(disk(path).subrange(offset as int, offset + leafs * E::blen())),
        forall|i: int| 0 <= i < leafs ==> #[trigger] t.st().avail(i, i + 1),
{
    let (b, k) = (B::n(), t.k());
    t.lemma_base_pos();
    t.st().lemma_v2(disk(config.file()), b, k, config.rows_to_discard as nat);
}
/// sub-tree j: its base trees are those of its part of the configurations and offsets
pub open spec fn replicas_of<E: Element, A: Algorithm<E>, B: Unsigned, U: Unsigned>(t: MerkleTree<E, A, LevelCacheStore<E, File>, B, U, U0>, leafs: usize, configs: Seq<StoreConfig>, rc: ReplicaConfig, j: int) -> bool {
    &&& t.mid_wf() && t.data is SubTree && t.data->SubTree_0@.len() == U::n()
    &&& forall|x: int| 0 <= x < U::n() ==> replica_of(#[trigger] t.data->SubTree_0@[x], leafs, configs[j * U::n() + x], rc.path, rc.offsets@[j * U::n() + x])
}
impl<E: Element, A: Algorithm<E>, S: Store<E>, BaseTreeArity: Unsigned, SubTreeArity: Unsigned> Data<E, A, S, BaseTreeArity, SubTreeArity> {
//% fn src/merkle.rs Data::store_mut
//% spec
    ensures r is Some <==> *old(self) is BaseTree,
        r is None ==> *final(self) == *old(self),
        r is Some ==> *r->0 == old(self)->BaseTree_0 && *final(self) == Data::<E, A, S, BaseTreeArity, SubTreeArity>::BaseTree(*final(r->0)),
//% end
}
impl<E: Element, A: Algorithm<E>, BaseTreeArity: Unsigned, SubTreeArity: Unsigned, TopTreeArity: Unsigned> MerkleTree<E, A, LevelCacheStore<E, File>, BaseTreeArity, SubTreeArity, TopTreeArity> {
//% fn src/merkle.rs MerkleTree::from_store_configs_and_replica
//% spec
    requires dom::<E, BaseTreeArity>(leafs as nat), 2 * leafs * configs@.len() + 1 <= usize::MAX,
        forall|i: int| 0 <= i < replica_config.offsets@.len() ==> (#[trigger] replica_config.offsets@[i]) + 2 * leafs * E::blen() <= usize::MAX
    ensures r is Ok ==> configs@.len() == SubTreeArity::n() && replica_config.offsets@.len() == configs@.len() && TopTreeArity::n() == 0 && r->Ok_0.wf() && r->Ok_0.mid_wf() && r->Ok_0.data is SubTree && r->Ok_0.data->SubTree_0@.len() == configs@.len()
            && (forall|i: int| 0 <= i < configs@.len() ==> replica_of(#[trigger] r->Ok_0.data->SubTree_0@[i], leafs, configs@[i], replica_config.path, replica_config.offsets@[i]))
//% hint start
    let ghost td = configs@;
    proof { E::el_ax(); lemma2_to64(); lemma_dom::<E, BaseTreeArity>(leafs as nat); if is_p2(BaseTreeArity::n()) { lemma_p2_ge2(BaseTreeArity::n()); } }
//% loop 0
    invariant vx_s0@ == td, td == configs@, vx_n0 == td.len(), vx_i0 <= vx_n0, trees@.len() == vx_i0, branches == BaseTreeArity::n(),
        dom::<E, BaseTreeArity>(leafs as nat), 2 * leafs * td.len() + 1 <= usize::MAX, is_p2(BaseTreeArity::n()) ==> branches >= 2, replica_config.offsets@.len() == td.len(),
        forall|i: int| 0 <= i < replica_config.offsets@.len() ==> (#[trigger] replica_config.offsets@[i]) + 2 * leafs * E::blen() <= usize::MAX,
        leafs * BaseTreeArity::n() <= 0x8000_0000_0000_0000, forall|s: int| leafs <= s <= 2 * leafs ==> (#[trigger] (s * E::blen())) <= MAXB && s * BaseTreeArity::n() <= 0x8000_0000_0000_0000,
        forall|j: int| 0 <= j < vx_i0 ==> replica_of(#[trigger] trees@[j], leafs, td[j], replica_config.path, replica_config.offsets@[j]),
    decreases vx_n0 - vx_i0
//% hint loop 0 start
    proof { assert forall|s: int| leafs <= s <= 2 * leafs implies #[trigger] (s * branches) <= 0x8000_0000_0000_0000 && replica_config.offsets@[vx_i0 - 1] + s * E::blen() <= usize::MAX by {
        assert(s * E::blen() <= MAXB); assert(s * BaseTreeArity::n() <= 0x8000_0000_0000_0000);
        assert(s * E::blen() <= 2 * leafs * E::blen()) by(nonlinear_arith) requires s <= 2 * leafs, E::blen() >= 0; } }
//% hint loop 0 before
    proof { let gg: Seq<MerkleTree<E, A, LevelCacheStore<E, File>, BaseTreeArity, U0, U0>> = trees@; }
//% hint ret
    proof { lemma_all_alike(trees@, leafs); if trees@.len() > 0 { assert(trees@[0].len * trees@.len() + 1 <= 2 * leafs * td.len() + 1) by(nonlinear_arith) requires trees@[0].len <= 2 * leafs, trees@.len() == td.len(); } }
//% end
//% fn src/merkle.rs MerkleTree::from_sub_tree_store_configs_and_replica
//% spec
    requires dom::<E, BaseTreeArity>(leafs as nat), configs@.len() <= MAXB, 2 * leafs * configs@.len() + TopTreeArity::n() + 1 <= usize::MAX,
        forall|i: int| 0 <= i < replica_config.offsets@.len() ==> (#[trigger] replica_config.offsets@[i]) + 2 * leafs * E::blen() <= usize::MAX
    ensures r is Ok ==> TopTreeArity::n() > 0 && configs@.len() == TopTreeArity::n() * SubTreeArity::n() && replica_config.offsets@.len() == configs@.len() && r->Ok_0.wf() && r->Ok_0.data is TopTree && r->Ok_0.leafs == configs@.len() * leafs
            && r->Ok_0.data->TopTree_0@.len() == TopTreeArity::n()
            && (forall|j: int| 0 <= j < TopTreeArity::n() ==> replicas_of(#[trigger] r->Ok_0.data->TopTree_0@[j], leafs, configs@, *replica_config, j))
//% hint loop 0 before
    let ghost c = (configs@.len() / sub_tree_count as nat) as int;
    proof { let gg: Seq<MerkleTree<E, A, LevelCacheStore<E, File>, BaseTreeArity, SubTreeArity, U0>> = trees@; lemma_fundamental_div_mod(configs@.len() as int, sub_tree_count as int); assert(configs@.len() == c * sub_tree_count) by(nonlinear_arith) requires configs@.len() == sub_tree_count * c + 0; }
//% loop 0
    invariant dom::<E, BaseTreeArity>(leafs as nat), configs@.len() <= MAXB, 2 * leafs * configs@.len() + TopTreeArity::n() + 1 <= usize::MAX, sub_tree_count == TopTreeArity::n(), sub_tree_count > 0,
        forall|i: int| 0 <= i < replica_config.offsets@.len() ==> (#[trigger] replica_config.offsets@[i]) + 2 * leafs * E::blen() <= usize::MAX, replica_config.offsets@.len() == configs@.len(),
        c == configs@.len() / sub_tree_count as nat, configs@.len() == c * sub_tree_count, vx_i0 <= vx_n0, vx_n0 == sub_tree_count, start == vx_i0 * c, end == start + c, c >= 0, end <= configs@.len() + c, trees@.len() == vx_i0,
        forall|j: int| 0 <= j < vx_i0 ==> c == SubTreeArity::n() && replicas_of(#[trigger] trees@[j], leafs, configs@, *replica_config, j),
    decreases vx_n0 - vx_i0
//% hint loop 0 start
    proof {
        assert(start + c <= configs@.len() && vx_i0 * c == start + c) by(nonlinear_arith) requires start == (vx_i0 - 1) * c, vx_i0 <= sub_tree_count, configs@.len() == c * sub_tree_count, c >= 0;
        assert(2 * leafs * c <= 2 * leafs * configs@.len()) by(nonlinear_arith) requires c <= configs@.len(), leafs >= 0;
        assert(configs@.len() + c <= 2 * configs@.len() && configs@.len() <= usize::MAX);
    }
//% hint let replica_sub_config
    proof { assert(replica_sub_config.offsets@ =~= replica_config.offsets@.subrange(start as int, end as int)); }
//% hint ret
    proof {
        let sn = SubTreeArity::n();
        assert forall|j: int| 0 <= j < trees@.len() implies (#[trigger] trees@[j]).row_count == trees@[0].row_count && trees@[j].len == trees@[0].len && trees@[j].leafs == trees@[0].leafs && trees@[j].leafs == sn * leafs && trees@[j].len <= 2 * leafs * sn + 1 by {
            assert(replicas_of(trees@[j], leafs, configs@, *replica_config, j)); assert(replicas_of(trees@[0], leafs, configs@, *replica_config, 0));
            lemma_subs_alike(trees@[j], trees@[0]);
        }
        if trees@.len() > 0 {
            assert(trees@[0].len * trees@.len() + 1 <= 2 * leafs * configs@.len() + TopTreeArity::n() + 1) by(nonlinear_arith) requires trees@[0].len <= 2 * leafs * sn + 1, trees@.len() == TopTreeArity::n(), configs@.len() == sn * TopTreeArity::n();
            assert(trees@.len() * (sn * leafs) == configs@.len() * leafs) by(nonlinear_arith) requires trees@.len() == TopTreeArity::n(), configs@.len() == sn * TopTreeArity::n();
        }
    }
//% end
//% fn src/merkle.rs MerkleTree::set_external_reader_path
//% spec
    requires old(self).wf()
    ensures r is Ok ==> old(self).is_base() && final(self).wf() && final(self).leafs == old(self).leafs && final(self).len == old(self).len && final(self).row_count == old(self).row_count && final(self).root == old(self).root
            && final(self).is_base() && final(self).st().reader is Some && final(self).st().reader->0.offset == 0 && final(self).st().reader->0.source.view() == disk(*path)
            && final(self).st() == (LevelCacheStore { reader: final(self).st().reader, ..old(self).st() })
//% end
}
} // verus!
