verus! {
impl<T: Node, BaseTreeArity: Unsigned> Proof<T, BaseTreeArity> {
//% fn src/proof.rs Proof::new
//% spec
    requires BaseTreeArity::n() >= 1, (BaseTreeArity::n() - 1) * path@.len() + 2 <= usize::MAX, path@.len() < usize::MAX
    ensures
        r is Err <==> (TopLayerArity::n() == 0 && SubTreeArity::n() == 0 && !(lemma@.len() > 2 && lemma@.len() == 2 + (BaseTreeArity::n() - 1) * path@.len())),
        r is Ok ==> r->Ok_0.sub_tree_proof == sub_tree_proof && r->Ok_0.top_layer_nodes == TopLayerArity::n() && r->Ok_0.sub_tree_layer_nodes == SubTreeArity::n()
            && r->Ok_0.lemma == lemma && r->Ok_0.path == path
//% end
//% fn src/proof.rs Proof::item
//% spec
    requires self.sitem_ok()
    ensures r == self.sitem()
//% end
//% fn src/proof.rs Proof::leaf
//% spec
    ensures r is Some <==> self.sitem_ok(), r is Some ==> *r->0 == self.sitem()
    decreases self
//% end
//% fn src/proof.rs Proof::sub_tree_root
//% spec
    requires self.sub_tree_layer_nodes > 0, self.sub_tree_proof is Some, self.sub_tree_proof->0.lemma@.len() > 0
    ensures r == self.sub_tree_proof->0.sroot()
//% end
//% fn src/proof.rs Proof::root
//% spec
    requires self.lemma@.len() > 0
    ensures r == self.sroot()
//% end
//% fn src/proof.rs Proof::path
//% spec
    ensures *r == self.path
//% end
//% fn src/proof.rs Proof::lemma
//% spec
    ensures *r == self.lemma
//% end
//% fn src/proof.rs Proof::top_layer_nodes
//% spec
    ensures r == self.top_layer_nodes
//% end
//% fn src/proof.rs Proof::sub_layer_nodes
//% spec
    ensures r == self.sub_tree_layer_nodes
//% end
//% fn src/proof.rs Proof::validate_sub_tree_proof
//% spec
    requires self.fits(), self.layer() > 0, arity == self.layer(), self.sub_tree_proof is Some
    ensures r is Ok ==> r->Ok_0 == self.valid::<A>(), r is Err ==> !self.valid::<A>()
    decreases self, 0nat
//% hint start
    proof { T::eq_ax(); }
//% loop 0
    invariant
        self.path@.len() == 1, self.lemma@.len() == arity, arity > 0, vx_n0 == arity, node_count == arity,
        vx_i0 <= vx_n0, nodes@.len() == vx_i0,
        p0 == self.path@[0], self.sub_tree_proof is Some, *sub_tree_proof == self.sub_tree_proof->0, self.sub_tree_proof->0.lemma@.len() > 0, 
        cur_index == (if p0 < vx_i0 { vx_i0 - 1 } else { vx_i0 as int }),
        cur_index <= vx_i0,
        forall|q: int| 0 <= q < vx_i0 ==> nodes@[q] == (if q == p0 { self.sub_tree_proof->0.sroot() } else if q < p0 { self.lemma@[q] } else { self.lemma@[q - 1] }),
    decreases vx_n0 - vx_i0
//% hint let cur_index
    let ghost p0 = self.path@[0];
//% hint pre multi_node
    proof {
        assert(p0 < arity);
        lemma_kids(nodes@, self.lemma@, self.path@, arity as nat, 0, self.sub_tree_proof->0.sroot());
    }
//% end
//% fn src/proof.rs Proof::validate
//% spec
    requires self.fits()
    ensures r is Ok ==> r->Ok_0 == self.valid::<A>(), r is Err ==> !self.valid::<A>()
    decreases self, 1nat
//% hint start
    proof { T::eq_ax(); }
//% hint let branches
    let ghost b = BaseTreeArity::n();
    let ghost pl = self.path@.len();
    let ghost target = up::<T, A>(self.lemma@[0], self.sibs(), self.path@, b, 0);
//% loop 0
    invariant
        b == BaseTreeArity::n(), b >= 2, branches == b, pl == self.path@.len(), size == self.lemma@.len(), size == 2 + (b - 1) * pl, pl < usize::MAX,
        vx_n0 == size - 1, vx_c0 == b - 1,
        1 <= path_index <= pl + 1,
        vx_i0 == 1 + (path_index - 1) * (b - 1),
        vx_i0 <= vx_n0,
        forall|q: int| 0 <= q < path_index - 1 ==> self.path@[q] < b,
        up::<T, A>(h, self.sibs(), self.path@, b, (path_index - 1) as nat) == target,
        target == up::<T, A>(self.lemma@[0], self.sibs(), self.path@, b, 0),
        self.layer() == 0, self.sub_tree_proof is None,
    decreases vx_n0 - vx_i0
//% hint loop 0 start
    let ghost lv = (path_index - 1) as nat;
    let ghost h0 = h;
    proof {
        assert((pl - lv) * (b - 1) == pl * (b - 1) - lv * (b - 1)) by(nonlinear_arith);
        assert(pl * (b - 1) == (b - 1) * pl) by(nonlinear_arith);
        assert(i == 1 + lv * (b - 1));
        assert(vx_n0 - i == (pl - lv) * (b - 1));
        assert(pl - lv >= 1) by(nonlinear_arith) requires (pl - lv) * (b - 1) > 0, b >= 2;
        assert((pl - lv) * (b - 1) >= b - 1) by(nonlinear_arith) requires pl - lv >= 1, b >= 2;
        if pl - lv > 1 { assert((pl - lv) * (b - 1) > b - 1) by(nonlinear_arith) requires pl - lv > 1, b >= 2; }
        else { assert((pl - lv) * (b - 1) == b - 1) by(nonlinear_arith) requires pl - lv == 1; }
        assert((lv + 1) * (b - 1) == lv * (b - 1) + (b - 1)) by(nonlinear_arith);
        assert(vx_i0 == i + (b - 1));
        assert(pl - lv - 1 >= 0);
    }
//% hint let cur_index
    let ghost p0 = self.path@[lv as int];
//% loop 1
    invariant
        b == BaseTreeArity::n(), b >= 2, branches == b, vx_n1 == branches, vx_i1 <= vx_n1, nodes@.len() == vx_i1,
        size == self.lemma@.len(), i + (b - 1) <= size - 1, i >= 1,
        lv < self.path@.len(), lv == path_index - 1, p0 == self.path@[lv as int], path_index >= 1, h == h0,
        cur_index == (if p0 < vx_i1 { vx_i1 - 1 } else { vx_i1 as int }),
        cur_index <= vx_i1,
        forall|q: int| 0 <= q < vx_i1 ==> nodes@[q] == (if q == p0 { h0 } else if q < p0 { self.lemma@[i + q] } else { self.lemma@[i + q - 1] }),
    decreases vx_n1 - vx_i1
//% hint pre multi_node
    proof {
        assert(p0 < b);
        assert(forall|q: int| 0 <= q < self.sibs().len() ==> self.sibs()[q] == self.lemma@[q + 1]);
        lemma_kids(nodes@, self.sibs(), self.path@, b, lv, h0);
    }
//% hint loop 0 after
    proof {
        assert((path_index - 1 == pl)) by(nonlinear_arith) requires 1 + (path_index - 1) * (b - 1) >= 1 + (b - 1) * pl, path_index - 1 <= pl, b >= 2;
        assert(path_ok(self.path@, b));
    }
//% end
//% fn src/proof.rs Proof::validate_with_data
//% subst & dyn Hashable < A > => & D
//% subst < A : Algorithm < T > > => <A: Algorithm<T>, D: Hashable<T, A>>
//% spec
    requires self.fits()
    ensures
        r is Ok ==> r->Ok_0 == (self.valid::<A>() && self.sitem() == A::lf(A::hf(leaf_data.data()))),
        r is Err ==> !self.valid::<A>(),
//% hint start
    proof { T::eq_ax(); self.lemma_valid_item::<A>(); assert(Seq::<u8>::empty() + leaf_data.data() =~= leaf_data.data()); }
//% hint let leaf_hash
    assert(leaf_hash == A::lf(A::hf(leaf_data.data())));
//% end
}
} // verus!
