verus! {
pub proof fn lemma_tlen_step(b: nat, k: nat)
    requires b >= 1
    ensures tlen(b, k + 1) == b * tlen(b, k) + 1
    decreases k
{
    assert(tlen(b, k + 1) == bpow(b, k + 1) + tlen(b, k)); assert(bpow(b, k + 1) == b * bpow(b, k));
    if k == 0 { assert(bpow(b, 0) == 1); assert(tlen(b, 0) == 1); }
    else { lemma_tlen_step(b, (k - 1) as nat); assert(tlen(b, k) == bpow(b, k) + tlen(b, (k - 1) as nat)); assert(b * (bpow(b, k) + tlen(b, (k - 1) as nat)) == b * bpow(b, k) + b * tlen(b, (k - 1) as nat)) by(nonlinear_arith); }
}
/// the trees have the same shape
pub open spec fn alike<E: Element, A: Algorithm<E>, S: Store<E>, B: Unsigned, U: Unsigned, T: Unsigned>(ts: Seq<MerkleTree<E, A, S, B, U, T>>) -> bool {
    forall|i: int| 0 <= i < ts.len() ==> (#[trigger] ts[i]).row_count == ts[0].row_count && ts[i].len == ts[0].len
}
pub open spec fn tree_leafs<E: Element, A: Algorithm<E>, S: Store<E>, B: Unsigned, U: Unsigned, T: Unsigned>(ts: Seq<MerkleTree<E, A, S, B, U, T>>) -> Seq<usize> { Seq::new(ts.len(), |i: int| ts[i].leafs) }
/// the sub-trees of the tree are these trees in order
pub open spec fn grouped<E: Element, A: Algorithm<E>, S: Store<E>, B: Unsigned, U: Unsigned, T: Unsigned>(x: MerkleTree<E, A, S, B, U, T>, ts: Seq<MerkleTree<E, A, S, B, U0, U0>>) -> bool {
    &&& x.data is TopTree && x.data->TopTree_0@.len() == T::n()
    &&& forall|j: int| 0 <= j < T::n() ==> (#[trigger] x.data->TopTree_0@[j]).data is SubTree && x.data->TopTree_0@[j].data->SubTree_0@ == ts.subrange(j * (U::n() as int), j * (U::n() as int) + U::n())
}
impl<E: Element, A: Algorithm<E>, S: Store<E>, BaseTreeArity: Unsigned, SubTreeArity: Unsigned, TopTreeArity: Unsigned> MerkleTree<E, A, S, BaseTreeArity, SubTreeArity, TopTreeArity> {
    /// trees of one shape have the same leaves
    pub proof fn lemma_base_alike(self, other: Self)
        requires self.base_wf(), other.base_wf(), self.row_count == other.row_count
        ensures self.leafs == other.leafs, self.len == other.len
    { }
    pub proof fn lemma_mid_rows(self)
        requires self.mid_wf()
        ensures self.row_count <= 0x8000_0000_0000_0001, self.leafs <= self.len
    {
        match self.data {
            Data::SubTree(ts) => { ts[0].lemma_base_pos(); lemma_bpow_ge(BaseTreeArity::n(), ts[0].k());
                assert(ts@.len() * ts[0].len >= ts[0].len) by(nonlinear_arith) requires ts@.len() >= 1, ts[0].len >= 0;
                assert(ts@.len() * ts[0].leafs <= ts@.len() * ts[0].len) by(nonlinear_arith) requires ts[0].leafs <= ts[0].len; }
            _ => { self.lemma_base_pos(); lemma_bpow_ge(BaseTreeArity::n(), self.k()); }
        }
    }
    pub proof fn lemma_mid_alike(self, other: Self)
        requires self.mid_wf(), other.mid_wf(), self.row_count == other.row_count, self.len == other.len
        ensures self.leafs == other.leafs
    {
        match (self.data, other.data) {
            (Data::SubTree(t), Data::SubTree(u)) => { t[0].lemma_base_alike(u[0]); }
            (Data::SubTree(t), Data::BaseTree(_)) => { Self::lemma_base_sub(other, self); }
            (Data::BaseTree(_), Data::SubTree(_)) => { Self::lemma_base_sub(self, other); }
            _ => { self.lemma_base_alike(other); }
        }
    }
    proof fn lemma_base_sub(x: Self, y: Self)
        requires x.base_wf(), y.mid_wf(), y.data is SubTree, x.row_count == y.row_count, x.len == y.len
        ensures x.leafs == y.leafs
    {
        let b = BaseTreeArity::n(); let k = x.k(); let s = SubTreeArity::n();
        let t = y.data->SubTree_0@[0];
        assert(t.k() == k - 1);
        lemma_tlen_step(b, (k - 1) as nat);
        let l = tlen(b, (k - 1) as nat);
        lemma_tlen_pos(b, (k - 1) as nat);
        assert(s == b) by(nonlinear_arith) requires s * l + 1 == b * l + 1, l >= 1;
    }
//% fn src/merkle.rs MerkleTree::from_trees
//% spec
    requires forall|i: int| 0 <= i < trees@.len() ==> (#[trigger] trees@[i]).base_wf(), trees@.len() > 0 ==> trees@[0].len * trees@.len() + 1 <= usize::MAX
    ensures
        r is Ok ==> SubTreeArity::n() > 0 && TopTreeArity::n() == 0 && trees@.len() == SubTreeArity::n() && alike(trees@) && r->Ok_0.wf() && r->Ok_0.mid_wf() && r->Ok_0.data is SubTree && r->Ok_0.data->SubTree_0@ == trees@,
        SubTreeArity::n() > 0 && TopTreeArity::n() == 0 && trees@.len() == SubTreeArity::n() && alike(trees@) ==> r is Ok,
//% hint start
    let ghost ts = trees@;
    proof {
        if ts.len() > 0 { ts[0].lemma_base_pos(); lemma_bpow_ge(BaseTreeArity::n(), ts[0].k());
            assert forall|i: int| 0 <= i < ts.len() && (#[trigger] ts[i]).row_count == ts[0].row_count implies ts[i].leafs == ts[0].leafs && ts[i].len == ts[0].len by { ts[i].lemma_base_alike(ts[0]); }
            assert(ts[0].leafs * ts.len() <= ts[0].len * ts.len()) by(nonlinear_arith) requires ts[0].leafs <= ts[0].len, ts.len() >= 0;
        }
    }
//% loop 0
    invariant ts == trees@, vx_s0@ == ts, vx_n0 == ts.len(), vx_i0 <= vx_n0, forall|i: int| 0 <= i < ts.len() ==> (#[trigger] ts[i]).base_wf(),
        vx_out0 ==> forall|i: int| 0 <= i < vx_i0 ==> (#[trigger] ts[i]).row_count == ts[0].row_count,
        !vx_out0 ==> !alike(ts),
    decreases vx_n0 - vx_i0
//% loop 1
    invariant ts == trees@, vx_s1@ == ts, vx_n1 == ts.len(), vx_i1 <= vx_n1, forall|i: int| 0 <= i < ts.len() ==> (#[trigger] ts[i]).base_wf(),
        vx_out1 ==> forall|i: int| 0 <= i < vx_i1 ==> (#[trigger] ts[i]).len == ts[0].len,
        !vx_out1 ==> !alike(ts),
    decreases vx_n1 - vx_i1
//% loop 2
    invariant ts == trees@, vx_s2@ == ts, vx_n2 == ts.len(), vx_i2 <= vx_n2, ts.len() > 0, forall|i: int| 0 <= i < ts.len() ==> (#[trigger] ts[i]).base_wf() && ts[i].leafs == ts[0].leafs,
        vx_acc2 == vx_i2 * ts[0].leafs, ts[0].leafs * ts.len() <= usize::MAX,
    decreases vx_n2 - vx_i2
//% hint loop 2 start
    proof { assert(ts[0].leafs * vx_i2 <= ts[0].leafs * ts.len()) by(nonlinear_arith) requires vx_i2 <= ts.len(); assert(ts[0].leafs * vx_i2 == (vx_i2 - 1) * ts[0].leafs + ts[0].leafs) by(nonlinear_arith); assert(vx_i2 * ts[0].leafs == (vx_i2 - 1) * ts[0].leafs + ts[0].leafs) by(nonlinear_arith); assert(ts[0].leafs * ts.len() == ts.len() * ts[0].leafs) by(nonlinear_arith);  }
//% loop 3
    invariant ts == trees@, vx_s3@ == ts, vx_n3 == ts.len(), vx_i3 <= vx_n3, vx_out3@.len() == vx_i3, forall|i: int| 0 <= i < vx_i3 ==> #[trigger] vx_out3@[i] == ts[i].root,
    decreases vx_n3 - vx_i3
//% hint let roots
    proof { assert(roots@ =~= Seq::new(ts.len(), |i: int| ts[i].root)); lemma_mul_is_commutative(ts[0].len as int, ts.len() as int); }
//% hint ret
    proof { assert(trees@ == ts); assert(root == A::nh(Seq::new(ts.len(), |i: int| ts[i].root), 1)); assert(leafs == ts.len() * ts[0].leafs); assert(len == ts.len() * ts[0].len + 1); }
//% end
//% fn src/merkle.rs MerkleTree::from_sub_trees
//% spec
    requires forall|i: int| 0 <= i < trees@.len() ==> (#[trigger] trees@[i]).mid_wf(), trees@.len() > 0 ==> trees@[0].len * trees@.len() + 1 <= usize::MAX
    ensures
        r is Ok ==> TopTreeArity::n() > 0 && trees@.len() == TopTreeArity::n() && alike(trees@) && r->Ok_0.wf() && r->Ok_0.data is TopTree && r->Ok_0.data->TopTree_0@ == trees@,
        TopTreeArity::n() > 0 && trees@.len() == TopTreeArity::n() && alike(trees@) ==> r is Ok,
//% hint start
    let ghost ts = trees@;
    proof {
        if ts.len() > 0 { ts[0].lemma_mid_pos(); ts[0].lemma_mid_rows();
            assert forall|i: int| 0 <= i < ts.len() && (#[trigger] ts[i]).row_count == ts[0].row_count && ts[i].len == ts[0].len implies ts[i].leafs == ts[0].leafs by { ts[i].lemma_mid_alike(ts[0]); }
            assert(ts[0].leafs * ts.len() <= ts[0].len * ts.len()) by(nonlinear_arith) requires ts[0].leafs <= ts[0].len, ts.len() >= 0;
        }
    }
//% loop 0
    invariant ts == trees@, vx_s0@ == ts, vx_n0 == ts.len(), vx_i0 <= vx_n0, forall|i: int| 0 <= i < ts.len() ==> (#[trigger] ts[i]).mid_wf(),
        vx_out0 ==> forall|i: int| 0 <= i < vx_i0 ==> (#[trigger] ts[i]).row_count == ts[0].row_count,
        !vx_out0 ==> !alike(ts),
    decreases vx_n0 - vx_i0
//% loop 1
    invariant ts == trees@, vx_s1@ == ts, vx_n1 == ts.len(), vx_i1 <= vx_n1, forall|i: int| 0 <= i < ts.len() ==> (#[trigger] ts[i]).mid_wf(),
        vx_out1 ==> forall|i: int| 0 <= i < vx_i1 ==> (#[trigger] ts[i]).len == ts[0].len,
        !vx_out1 ==> !alike(ts),
    decreases vx_n1 - vx_i1
//% loop 2
    invariant ts == trees@, vx_s2@ == ts, vx_n2 == ts.len(), vx_i2 <= vx_n2, ts.len() > 0, forall|i: int| 0 <= i < ts.len() ==> (#[trigger] ts[i]).mid_wf() && ts[i].leafs == ts[0].leafs,
        vx_acc2 == vx_i2 * ts[0].leafs, ts[0].leafs * ts.len() <= usize::MAX,
    decreases vx_n2 - vx_i2
//% hint loop 2 start
    proof { assert(ts[0].leafs * vx_i2 <= ts[0].leafs * ts.len()) by(nonlinear_arith) requires vx_i2 <= ts.len(); assert(ts[0].leafs * vx_i2 == (vx_i2 - 1) * ts[0].leafs + ts[0].leafs) by(nonlinear_arith); assert(vx_i2 * ts[0].leafs == (vx_i2 - 1) * ts[0].leafs + ts[0].leafs) by(nonlinear_arith); assert(ts[0].leafs * ts.len() == ts.len() * ts[0].leafs) by(nonlinear_arith);  }
//% loop 3
    invariant ts == trees@, vx_s3@ == ts, vx_n3 == ts.len(), vx_i3 <= vx_n3, vx_out3@.len() == vx_i3, forall|i: int| 0 <= i < vx_i3 ==> #[trigger] vx_out3@[i] == ts[i].root,
    decreases vx_n3 - vx_i3
//% hint let roots
    proof { assert(roots@ =~= Seq::new(ts.len(), |i: int| ts[i].root)); lemma_mul_is_commutative(ts[0].len as int, ts.len() as int); }
//% hint ret
    proof { assert(trees@ == ts); assert(root == A::nh(Seq::new(ts.len(), |i: int| ts[i].root), 1)); assert(leafs == ts.len() * ts[0].leafs); assert(len == ts.len() * ts[0].len + 1); }
//% end
//% fn src/merkle.rs MerkleTree::from_sub_trees_as_trees
//% owned
//% spec
    requires forall|i: int| 0 <= i < trees@.len() ==> (#[trigger] trees@[i]).base_wf(), TopTreeArity::n() * SubTreeArity::n() <= usize::MAX,
        trees@.len() > 0 ==> trees@[0].len * trees@.len() + TopTreeArity::n() + 1 <= usize::MAX
    ensures
        r is Ok ==> TopTreeArity::n() > 0 && SubTreeArity::n() > 0 && trees@.len() == TopTreeArity::n() * SubTreeArity::n() && alike(trees@) && r->Ok_0.wf() && grouped(r->Ok_0, trees@),
        TopTreeArity::n() > 0 && SubTreeArity::n() > 0 && trees@.len() == TopTreeArity::n() * SubTreeArity::n() && alike(trees@) ==> r is Ok,
//% hint start
    let ghost ts = trees@;
    let ghost (top, sub) = (TopTreeArity::n() as int, SubTreeArity::n() as int);
    proof {
        if ts.len() > 0 { ts[0].lemma_base_pos(); lemma_bpow_ge(BaseTreeArity::n(), ts[0].k());
            assert forall|i: int| 0 <= i < ts.len() && (#[trigger] ts[i]).row_count == ts[0].row_count implies ts[i].leafs == ts[0].leafs && ts[i].len == ts[0].len by { ts[i].lemma_base_alike(ts[0]); }
        }
    }
//% loop 0
    invariant ts == trees@, vx_s0@ == ts, vx_n0 == ts.len(), vx_i0 <= vx_n0, forall|i: int| 0 <= i < ts.len() ==> (#[trigger] ts[i]).base_wf(),
        vx_out0 ==> forall|i: int| 0 <= i < vx_i0 ==> (#[trigger] ts[i]).row_count == ts[0].row_count,
        !vx_out0 ==> !alike(ts),
    decreases vx_n0 - vx_i0
//% loop 1
    invariant ts == trees@, vx_s1@ == ts, vx_n1 == ts.len(), vx_i1 <= vx_n1, forall|i: int| 0 <= i < ts.len() ==> (#[trigger] ts[i]).base_wf(),
        vx_out1 ==> forall|i: int| 0 <= i < vx_i1 ==> (#[trigger] ts[i]).len == ts[0].len,
        !vx_out1 ==> !alike(ts),
    decreases vx_n1 - vx_i1
//% loop 2
    invariant top == vx_n2, sub == sub_tree_arity, 0 <= vx_i2 <= vx_n2, ts.len() == top * sub, sub >= 0,
        trees@ == ts.subrange(0, (top - vx_i2) * sub), trees@.len() == (top - vx_i2) * sub, grouped_trees@.len() == vx_i2,
        forall|j: int| 0 <= j < vx_i2 ==> #[trigger] grouped_trees@[j]@ == ts.subrange((top - 1 - j) * sub, (top - 1 - j) * sub + sub),
    decreases vx_n2 - vx_i2
//% hint loop 2 before
    proof { let gg: Seq<Vec<MerkleTree<E, A, S, BaseTreeArity, U0, U0>>> = grouped_trees@; assert(trees@ =~= ts.subrange(0, (top - 0) * sub)); }
//% hint loop 2 start
    let ghost g0 = grouped_trees@;
    proof {
        let i = vx_i2 - 1;
        assert((top - i) * sub == (top - 1 - i) * sub + sub) by(nonlinear_arith);
        assert((top - 1 - i) * sub >= 0) by(nonlinear_arith) requires top - 1 - i >= 0, sub >= 0;
        assert((top - i) * sub <= top * sub) by(nonlinear_arith) requires i >= 0, sub >= 0;
    }
//% hint loop 2 end
    proof {
        let i = vx_i2 - 1;
        assert(trees@ =~= ts.subrange(0, (top - vx_i2) * sub));
        assert(grouped_trees@[i]@ =~= ts.subrange((top - 1 - i) * sub, (top - 1 - i) * sub + sub));
        assert forall|j: int| 0 <= j < vx_i2 implies #[trigger] grouped_trees@[j]@ == ts.subrange((top - 1 - j) * sub, (top - 1 - j) * sub + sub) by { if j < i { assert(grouped_trees@[j] == g0[j]); } }
    }
//% hint loop 3 before
    let ghost gs = vx_s3@;
    proof {
        assert(gs.len() == top);
        assert forall|j: int| 0 <= j < top implies #[trigger] gs[j]@ == ts.subrange(j * sub, j * sub + sub) by { assert(top - 1 - (top - 1 - j) == j); }
        assert(gs.skip(0) =~= gs);
    }
//% loop 3
    invariant top == vx_n3, top == TopTreeArity::n(), sub == SubTreeArity::n(), 0 <= vx_i3 <= vx_n3, ts.len() == top * sub, sub >= 0,
        gs.len() == top, vx_s3@ == gs.skip(vx_i3 as int), sub_trees@.len() == vx_i3, vx_i3 > 0 ==> sub > 0,
        forall|j: int| 0 <= j < top ==> #[trigger] gs[j]@ == ts.subrange(j * sub, j * sub + sub),
        forall|j: int| 0 <= j < vx_i3 ==> (#[trigger] sub_trees@[j]).mid_wf() && sub_trees@[j].data is SubTree && sub_trees@[j].data->SubTree_0@ == ts.subrange(j * sub, j * sub + sub),
        alike(ts), forall|i: int| 0 <= i < ts.len() ==> (#[trigger] ts[i]).base_wf(), ts.len() > 0 ==> ts[0].len * ts.len() + top + 1 <= usize::MAX,
    decreases vx_n3 - vx_i3
//% hint loop 3 start
    let ghost st0 = sub_trees@;
    proof {
        let i = vx_i3 - 1;
        let g = gs[i]@;
        assert(i * sub + sub <= top * sub && i * sub >= 0) by(nonlinear_arith) requires 0 <= i < top, sub >= 0;
        assert(group == gs[i]);
        assert(g.len() == sub);
        if sub > 0 {
            assert(ts.len() >= sub) by(nonlinear_arith) requires ts.len() == top * sub, top >= 1, sub > 0;
            assert(ts[0].len * sub <= ts[0].len * ts.len()) by(nonlinear_arith) requires sub <= ts.len(), ts[0].len >= 0;
            assert(g[0] == ts[i * sub]);
            assert(g[0].len == ts[0].len);
            assert forall|x: int| 0 <= x < g.len() implies (#[trigger] g[x]).base_wf() && g[x].row_count == g[0].row_count && g[x].len == g[0].len by { assert(g[x] == ts[i * sub + x]); }
        }
    }
//% hint loop 3 end
    proof {
        assert forall|j: int| 0 <= j < vx_i3 implies (#[trigger] sub_trees@[j]).mid_wf() && sub_trees@[j].data is SubTree && sub_trees@[j].data->SubTree_0@ == ts.subrange(j * sub, j * sub + sub) by { if j < vx_i3 - 1 { assert(sub_trees@[j] == st0[j]); } }
        assert(vx_s3@ =~= gs.skip(vx_i3 as int));
    }
//% hint loop 3 after
    proof {
        assert(top > 0 && sub > 0);
        assert(ts.len() >= sub) by(nonlinear_arith) requires ts.len() == top * sub, top >= 1, sub > 0;
        assert forall|j: int| 0 <= j < top implies (#[trigger] sub_trees@[j]).row_count == ts[0].row_count + 1 && sub_trees@[j].len == sub * ts[0].len + 1 && sub_trees@[j].leafs == sub * ts[0].leafs && sub_trees@[j].leafs <= sub_trees@[j].len && sub_trees@[j].row_count == sub_trees@[0].row_count && sub_trees@[j].len == sub_trees@[0].len && sub_trees@[j].leafs == sub_trees@[0].leafs by {
            assert(j * sub + sub <= top * sub && j * sub >= 0) by(nonlinear_arith) requires 0 <= j < top, sub > 0;
            let g = sub_trees@[j].data->SubTree_0@;
            assert(g[0] == ts[j * sub]); assert(0 * sub == 0) by(nonlinear_arith); assert(sub_trees@[0].data->SubTree_0@ == ts.subrange(0 * sub, 0 * sub + sub)); assert(sub_trees@[0].data->SubTree_0@[0] == ts[0]);
            assert(g[0].leafs == ts[0].leafs);
            sub_trees@[j].lemma_mid_rows(); sub_trees@[0].lemma_mid_rows();
        }
        assert(sub_trees@[0].len == sub_trees@[0].len);
        assert(sub_trees@[0].mid_wf()); sub_trees@[0].lemma_mid_rows(); sub_trees@[0].lemma_mid_pos();
        assert(top * sub_trees@[0].len == ts[0].len * ts.len() + top) by(nonlinear_arith) requires sub_trees@[0].len == sub * ts[0].len + 1, ts.len() == top * sub;
        assert(top * sub_trees@[0].leafs <= top * sub_trees@[0].len) by(nonlinear_arith) requires sub_trees@[0].leafs <= sub_trees@[0].len, top >= 0;
    }
//% loop 4
    invariant vx_s4@ == sub_trees@, vx_n4 == sub_trees@.len(), vx_i4 <= vx_n4, sub_trees@.len() == top, forall|i: int| 0 <= i < sub_trees@.len() ==> (#[trigger] sub_trees@[i]).leafs == sub_trees@[0].leafs,
        vx_acc4 == vx_i4 * sub_trees@[0].leafs, top * sub_trees@[0].leafs <= usize::MAX,
    decreases vx_n4 - vx_i4
//% hint loop 4 start
    proof { assert(vx_i4 * sub_trees@[0].leafs <= top * sub_trees@[0].leafs) by(nonlinear_arith) requires vx_i4 <= top, sub_trees@[0].leafs >= 0; assert(vx_i4 * sub_trees@[0].leafs == (vx_i4 - 1) * sub_trees@[0].leafs + sub_trees@[0].leafs) by(nonlinear_arith); }
//% loop 5
    invariant vx_s5@ == sub_trees@, vx_n5 == sub_trees@.len(), vx_i5 <= vx_n5, sub_trees@.len() == top, forall|i: int| 0 <= i < sub_trees@.len() ==> (#[trigger] sub_trees@[i]).mid_wf() && sub_trees@[i].len == sub_trees@[0].len,
        vx_acc5 == vx_i5 * sub_trees@[0].len, top * sub_trees@[0].len <= usize::MAX,
    decreases vx_n5 - vx_i5
//% hint loop 5 start
    proof { assert(vx_i5 * sub_trees@[0].len <= top * sub_trees@[0].len) by(nonlinear_arith) requires vx_i5 <= top, sub_trees@[0].len >= 0; assert(vx_i5 * sub_trees@[0].len == (vx_i5 - 1) * sub_trees@[0].len + sub_trees@[0].len) by(nonlinear_arith); }
//% loop 6
    invariant vx_s6@ == sub_trees@, vx_n6 == sub_trees@.len(), vx_i6 <= vx_n6, vx_out6@.len() == vx_i6, forall|i: int| 0 <= i < vx_i6 ==> #[trigger] vx_out6@[i] == sub_trees@[i].root,
    decreases vx_n6 - vx_i6
//% hint let roots
    proof { assert(roots@ =~= Seq::new(sub_trees@.len(), |i: int| sub_trees@[i].root)); }
//% hint ret
    proof { assert(leafs == sub_trees@.len() * sub_trees@[0].leafs); assert(len == sub_trees@.len() * sub_trees@[0].len + 1);
        assert(alike(ts)); assert(sub_trees@.len() == top); }
//% end
}
} // verus!
