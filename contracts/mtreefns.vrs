verus! {
impl<E: Element, A: Algorithm<E>, S: Store<E>, BaseTreeArity: Unsigned, SubTreeArity: Unsigned> Data<E, A, S, BaseTreeArity, SubTreeArity> {
//% fn src/merkle.rs Data::store
//% spec
    ensures r is Some <==> self is BaseTree, r is Some ==> *r->0 == self->BaseTree_0
//% end
//% fn src/merkle.rs Data::sub_trees
//% spec
    ensures r is Some <==> self is TopTree, r is Some ==> *r->0 == self->TopTree_0
//% end
//% fn src/merkle.rs Data::base_trees
//% spec
    ensures r is Some <==> self is SubTree, r is Some ==> *r->0 == self->SubTree_0
//% end
}
impl<E: Element, A: Algorithm<E>, S: Store<E>, BaseTreeArity: Unsigned, SubTreeArity: Unsigned, TopTreeArity: Unsigned> MerkleTree<E, A, S, BaseTreeArity, SubTreeArity, TopTreeArity> {
//% fn src/merkle.rs MerkleTree::root
//% spec
    ensures r == self.root
//% end
//% fn src/merkle.rs MerkleTree::len
//% spec
    requires self.wf()
    ensures r == self.len
//% end
//% fn src/merkle.rs MerkleTree::row_count
//% spec
    ensures r == self.row_count
//% end
//% fn src/merkle.rs MerkleTree::leafs
//% spec
    ensures r == self.leafs
//% end
//% fn src/merkle.rs MerkleTree::read_at
//% spec
    requires self.wf(), self.is_base() ==> i < self.len || (S::checked() && (i + 1) * E::blen() <= MAXB)
    ensures
        r is Ok ==> self.is_base() && i < self.len && self.st().avail(i as int, i + 1) && r->Ok_0 == self.st().view()[i as int] || !self.is_base() && i < self.leafs && r->Ok_0 == self.leaf(i as nat),
        self.is_base() && self.st().good() && i < self.len && self.st().avail(i as int, i + 1) ==> r is Ok,
        !self.is_base() && self.can_read() && i < self.leafs ==> r is Ok,
    decreases self
//% hint start
    proof { self.lemma_pos(); }
//% end
//% fn src/merkle.rs MerkleTree::data
//% spec
    ensures r is Some <==> self.is_base(), r is Some ==> *r->0 == self.st()
//% end
//% fn src/merkle.rs MerkleTree::is_empty
//% spec
    requires self.wf()
    ensures self.is_base() ==> !r
//% hint start
    proof { self.lemma_pos(); }
//% end
//% fn src/merkle.rs MerkleTree::read_range
//% spec
    requires self.wf(), self.is_base() && start < end ==> end <= self.len || (S::checked() && end * E::blen() <= MAXB)
    ensures
        r is Ok ==> self.is_base() && start < end <= self.len && self.st().avail(start as int, end as int) && r->Ok_0@ == self.st().view().subrange(start as int, end as int),
        self.is_base() && self.st().good() && start < end <= self.len && self.st().avail(start as int, end as int) ==> r is Ok,
//% end
//% fn src/merkle.rs MerkleTree::read_range_into
//% spec
    requires self.wf(), S::has_range_into(), self.is_base() && start < end ==> old(buf)@.len() == (end - start) * E::blen() && (end <= self.len || (S::checked() && end * E::blen() <= MAXB))
    ensures final(buf)@.len() == old(buf)@.len(),
        r is Ok ==> self.is_base() && start < end <= self.len && self.st().avail(start as int, end as int) && decode::<E>(final(buf)@) == self.st().view().subrange(start as int, end as int),
        self.is_base() && self.st().good() && start < end <= self.len && self.st().avail(start as int, end as int) ==> r is Ok,
//% end
//% fn src/merkle.rs MerkleTree::read_into
//% spec
    requires self.wf(), self.is_base() ==> old(buf)@.len() == E::blen() && (pos < self.len || (S::checked() && (pos + 1) * E::blen() <= MAXB))
    ensures final(buf)@.len() == old(buf)@.len(),
        r is Ok ==> self.is_base() && pos < self.len && self.st().avail(pos as int, pos + 1) && final(buf)@ == self.st().view()[pos as int].bytes(),
        self.is_base() && self.st().good() && pos < self.len && self.st().avail(pos as int, pos + 1) ==> r is Ok,
//% end
//% fn src/merkle.rs MerkleTree::gen_sub_tree_proof
//% spec
    requires self.wf(), arity == (if top_layer { TopTreeArity::n() } else { SubTreeArity::n() }),
        if top_layer { self.data is TopTree } else { self.data is SubTree },
    ensures
        r is Ok ==> i < self.leafs && self.tree_proof(i as nat, r->Ok_0, false),
        self.can_read() && i < self.leafs ==> r is Ok,
    decreases self, 0nat
//% hint start
    proof { self.lemma_pos(); }
//% loop 0
    invariant
        self.wf(), vx_n0 == arity, vx_i0 <= vx_n0, tree_index < arity, if top_layer { self.data is TopTree && arity == TopTreeArity::n() } else { self.data is SubTree && arity == SubTreeArity::n() },
        lemma@ == (if vx_i0 <= tree_index { self.roots().subrange(0, vx_i0 as int) } else { self.roots().remove(tree_index as int).subrange(0, vx_i0 - 1) }),
    decreases vx_n0 - vx_i0
//% hint ret
    proof {
        assert((BaseTreeArity::n() - 1) * 1 == BaseTreeArity::n() - 1) by(nonlinear_arith);
        assert(lemma@ =~= self.roots().remove(tree_index as int).push(self.root));
    }
//% end
//% fn src/merkle.rs MerkleTree::gen_proof
//% spec
    requires self.wf()
    ensures
        r is Ok ==> i < self.leafs && self.tree_proof(i as nat, r->Ok_0, false) && (self.full() ==> r->Ok_0.valid::<A>() && r->Ok_0.sitem() == self.leaf(i as nat) && r->Ok_0.sroot() == self.root && r->Ok_0.fits()),
        self.can_read() && i < self.leafs ==> r is Ok,
    decreases self, 1nat
//% hint start
    proof {
        assert forall|p: Proof<E, BaseTreeArity>| i < self.leafs && self.full() && #[trigger] self.tree_proof(i as nat, p, false) implies p.valid::<A>() && p.sitem() == self.leaf(i as nat) && p.sroot() == self.root && p.fits() by { self.lemma_valid(i as nat, p, false); }
    }
    let ghost b = BaseTreeArity::n();
    let ghost n = self.leafs as nat;
    let ghost k0 = self.k();
    proof { self.lemma_pos(); if self.data is BaseTree { lemma_shape_p2(b, n, k0); if k0 > 0 { lemma_bpow_mono(b, 0, k0); } lemma_p2_misc(); } }
//% hint loop 0 before
    let ghost mut h: nat = 0;
    proof { let s = lemma_arity(b); lemma_off_shape(n, b, k0, 0); lemma_off_shape(n, b, k0, k0); lemma_wid_shape(n, b, k0, k0); assert(bpow(b, 0) == 1); lemma_off_total(n, b, k0); assert(0 * (b - 1) == 0) by(nonlinear_arith); lemma_agrees_at(self.st(), i as int); assert(i as nat / 1 == i) by(nonlinear_arith); }
//% loop 0
    invariant
        self.wf(), self.data is BaseTree, b == BaseTreeArity::n(), n == self.leafs, k0 == self.k(), i < n, branches == b, b >= 2, shape(b, n, k0),
        h <= k0, base == off(n, b, h), j == i as nat / bpow(b, h), width == bpow(b, (k0 - h) as nat), j < width, base < self.len,
        shift < 64, b == pow2(shift as nat), off(n, b, k0) + 1 == tlen(b, k0),
        path@.len() == h, lemma@.len() == 1 + h * (b - 1), (b - 1) * k0 + 1 <= n,
        forall|g: int| 0 <= g < h ==> #[trigger] path@[g] == digit(b, i as nat, g as nat),
        forall|g: int, t: Seq<E>| 0 <= g < h && agrees(self.st(), t) ==> #[trigger] sibs_ok(lemma@, t, n, b, i as nat, g as nat),
        forall|t: Seq<E>| #[trigger] agrees(self.st(), t) ==> lemma@[0] == t[i as int],
        lemma@[0] == self.base_leaf(i as nat),
        !self.can_read() || SubTreeArity::n() == 0 && TopTreeArity::n() == 0,
    decreases self.len - base
//% hint loop 0 start
    let ghost l0 = lemma@;
    let ghost x = j as int - (j as int / b as int) * b;
    proof {
        lemma_off_shape(n, b, k0, h); lemma_wid_shape(n, b, k0, h);
        if h == k0 { assert(false); }
        lemma_bpow_div(b, (k0 - h) as nat);
        lemma_group(j as int, width as int, b as int);
        lemma_bpow_step(b, i as nat, h);
        lemma_shr(width, shift); lemma_shr(j, shift);
        assert(l0 =~= lemma@.subrange(0, l0.len() as int));
    }
//% loop 1
    invariant
        self.wf(), self.data is BaseTree, b == BaseTreeArity::n(), n == self.leafs, k0 == self.k(), i < n, branches == b, b >= 2, shape(b, n, k0), h < k0,
        base == off(n, b, h), base + width <= self.len, j == i as nat / bpow(b, h), hash_index == (j as int / b as int) * b, hash_index + b <= width, hash_index <= j < hash_index + b,
        vx_n1 == hash_index + b, hash_index <= vx_i1 <= vx_n1, x == j - hash_index,
        lemma@.len() == l0.len() + (vx_i1 - hash_index) - (if vx_i1 > j { 1int } else { 0 }), l0 == lemma@.subrange(0, l0.len() as int), l0.len() == 1 + h * (b - 1),
        i as nat / bpow(b, h + 1) == j as nat / b, digit(b, i as nat, h) == x,
        forall|t: Seq<E>, m: int| #![trigger agrees(self.st(), t), lemma@[1 + h * (b - 1) + m]] agrees(self.st(), t) && 0 <= m < lemma@.len() - l0.len() ==> lemma@[1 + h * (b - 1) + m] == t[sib_at(n, b, i as nat, h, m, x)],
        !self.can_read() || SubTreeArity::n() == 0 && TopTreeArity::n() == 0,
    decreases vx_n1 - vx_i1
//% hint loop 1 start
    let ghost l1 = lemma@;
//% hint loop 1 end
    proof {
        if k != j {
            lemma_agrees_at(self.st(), base + k);
            assert(l0 =~= lemma@.subrange(0, l0.len() as int));
            assert((i as nat / bpow(b, h + 1)) * b == hash_index);
            assert forall|t: Seq<E>, m: int| #![trigger agrees(self.st(), t), lemma@[1 + h * (b - 1) + m]] agrees(self.st(), t) && 0 <= m < lemma@.len() - l0.len() implies lemma@[1 + h * (b - 1) + m] == t[sib_at(n, b, i as nat, h, m, x)] by {
                if m < l1.len() - l0.len() { assert(lemma@[1 + h * (b - 1) + m] == l1[1 + h * (b - 1) + m]); }
                else { assert(sib_at(n, b, i as nat, h, m, x) == base + k); }
            }
        }
    }
//% hint loop 0 end
    proof {
        assert((h + 1) * (b - 1) == h * (b - 1) + (b - 1)) by(nonlinear_arith);
        lemma_off_shape(n, b, k0, h + 1); lemma_wid_shape(n, b, k0, h + 1);
        assert forall|g: int, t: Seq<E>| 0 <= g < h + 1 && agrees(self.st(), t) implies #[trigger] sibs_ok(lemma@, t, n, b, i as nat, g as nat) by {
            if g < h { lemma_sibs_keep(l0, lemma@, t, n, b, i as nat, h, g as nat); }
        }
        assert(lemma@[0] == l0[0]);
        h = h + 1;
    }
//% hint loop 0 after
    let ghost l0 = lemma@;
    proof { if h < k0 { lemma_off_shape(n, b, k0, h); lemma_wid_shape(n, b, k0, h); lemma_bpow_mono(b, 0, (k0 - h) as nat); lemma_off_shape(n, b, k0, h + 1); } assert(h * (b - 1) == (b - 1) * h) by(nonlinear_arith);
        assert(h == k0);
        assert((b - 1) * k0 >= 1) by(nonlinear_arith) requires b >= 2, k0 >= 1;
        assert(l0 =~= l0.push(self.root).subrange(0, l0.len() as int));
        assert forall|p: Proof<E, BaseTreeArity>, t: Seq<E>| agrees(self.st(), t) && p.path@ == path@ && p.lemma@ == l0.push(self.root) && p.sub_tree_proof is None && p.top_layer_nodes == 0 && p.sub_tree_layer_nodes == 0
            implies #[trigger] is_proof(p, t, n, k0, i as nat, self.root) by {
            assert forall|g: int| 0 <= g < k0 implies #[trigger] sibs_ok(p.lemma@, t, n, b, i as nat, g as nat) by { lemma_sibs_keep(l0, p.lemma@, t, n, b, i as nat, k0, g as nat); }
        }
    }
//% end
}
} // verus!
