//% fn src/store/mod.rs trait Store::build_small_tree
//% spec
    requires old(self).wf(), good_arity(U::n()), U::n() <= 0x4000_0000, is_p2(leafs as nat), row_count >= 1, old(self).view().len() == leafs,
        2 * (leafs as nat) * E::blen() <= MAXB, bpow(U::n(), (row_count - 1) as nat) <= leafs, Self::keeps_all(),
    ensures final(self).wf(),
        r is Ok ==> shape(U::n(), leafs as nat, (row_count - 1) as nat) && row_count >= 2
            && is_tree::<E, A>(final(self).view(), old(self).view(), U::n(), (row_count - 1) as nat) && r->Ok_0 == final(self).view().last() && final(self).view().len() == tlen(U::n(), (row_count - 1) as nat) && built::<E, A>(final(self).view(), old(self).view(), U::n(), (row_count - 1) as nat, r->Ok_0),
        old(self).good() && shape(U::n(), leafs as nat, (row_count - 1) as nat) && row_count >= 2 && old(self).cap() >= tlen(U::n(), (row_count - 1) as nat) ==> r is Ok && final(self).good(),
//% hint start
    let ghost b = U::n();
    let ghost n = leafs as nat;
    let ghost k = (row_count - 1) as nat;
    let ghost leaves = self.view();
    let ghost good0 = self.good() && shape(b, n, k) && row_count >= 2 && self.cap() >= tlen(b, k);
    proof {
        E::el_ax();
        assert(2 * n <= 2 * n * E::blen()) by(nonlinear_arith) requires E::blen() >= 1, n >= 0;
        lemma_p2_div(n, b);
        if row_count >= 2 && shape(b, n, k) { lemma_bpow_div(b, k); lemma_p2_even(b); lemma_bpow_mono(b, 0, k); assert(bpow(b, 0) == 1); assert(b * 1 == b);
            let q = n / b; let c = b / 2;
            assert(n == 2 * (c * q)) by(nonlinear_arith) requires n == q * b, b == 2 * c; }
    }
//% hint let shift
    let ghost s0 = lemma_arity(b);
//% loop 0
    invariant
        b == U::n(), n == leafs, k == row_count - 1, good_arity(b), b <= 0x4000_0000, branches == b, shift == s0, 1 <= s0 < 64, b == pow2(s0), is_p2(n), n >= 2, leaves.len() == n,
        2 * n * E::blen() <= MAXB, 0 < E::blen(), Self::keeps_all(), 2 * n <= MAXB,
        self.wf(), width == wid(n, b, level as nat), width == 0 || is_p2(width as nat),
        level_node_index == off(n, b, level as nat), level_node_index <= 2 * n,
        width >= 1 ==> self.view().len() == level_node_index + width,
        level == 0 ==> width == leafs && level_node_index == 0,
        level + width <= n,
        width >= 1 ==> rows_ok::<E, A>(self.view(), n, b, level as nat),
        width >= 1 ==> self.view().subrange(0, n as int) == leaves,
        good0 == (old(self).good() && shape(b, n, k) && row_count >= 2 && old(self).cap() >= tlen(b, k)),
        good0 ==> shape(b, n, k) && self.good() && self.cap() >= tlen(b, k) && width >= 1 && level <= k,
    decreases width
//% hint loop 0 start
    let ghost v0 = self.view();
    let ghost o = level_node_index as nat;
    let ghost w0 = width as nat;
    let ghost h = level as nat;
    proof {
        lemma_row_step(n, b, h);
        lemma_off_bound(n, b, h);
        assert(w0 / b + 1 <= w0) by(nonlinear_arith) requires w0 >= 2, b >= 2;
        lemma_shr(width, shift);
        self.avail_ax();
        if good0 { lemma_wid_shape(n, b, k, h); if h == k { assert(bpow(b, 0) == 1); } lemma_off_shape(n, b, k, h); lemma_off_shape(n, b, k, h + 1); lemma_wid_shape(n, b, k, h + 1); lemma_off_mono(n, b, h + 2, k + 1); lemma_off_total(n, b, k); }
    }
//% loop 1
    invariant
        vx_c1 == b, b >= 1, level == h, vx_n1 == vx_out1@.len() + (vx_n1 - vx_i1), vx_i1 <= vx_n1, vx_i1 == vx_out1@.len(),
        vx_s1@ == v0.subrange(o as int, (o + w0) as int), vx_s1@.len() == w0, w0 >= 1,
        vx_n1 == dceil(w0 as int, b as int),
        forall|j: int| 0 <= j < vx_i1 ==> #[trigger] vx_out1@[j] == A::nh(chunk_of(vx_s1@, j, b as int), h),
    decreases vx_n1 - vx_i1
//% loop 2
    invariant
        vx_n2 == vx_s2@.len(), vx_i2 <= vx_n2, self.wf(), write_start == o + w0, v0.len() == o + w0, Self::keeps_all(),
        vx_n2 <= w0 / b + 1, vx_n2 == wid(n, b, h + 1) || wid(n, b, h + 1) == 0,
        w0 >= b ==> vx_n2 == wid(n, b, h + 1), o + w0 + vx_n2 <= 2 * n, 2 * n * E::blen() <= MAXB, 2 * n <= MAXB, 0 < E::blen(),
        self.view().len() == o + w0 + vx_i2,
        forall|i: int| 0 <= i < v0.len() ==> #[trigger] self.view()[i] == v0[i],
        forall|j: int| 0 <= j < vx_i2 ==> #[trigger] self.view()[o + w0 + j] == vx_s2@[j],
        good0 == (old(self).good() && shape(b, n, k) && row_count >= 2 && old(self).cap() >= tlen(b, k)), b == U::n(), n == leafs, k == row_count - 1,
        good0 ==> self.good() && self.cap() >= tlen(b, k) && o + w0 + vx_n2 <= tlen(b, k),
    decreases vx_n2 - vx_i2
//% hint loop 2 start
    proof {
        self.avail_ax();
        assert((o + w0 + vx_i2) * E::blen() <= 2 * n * E::blen()) by(nonlinear_arith) requires o + w0 + vx_i2 <= 2 * n, E::blen() > 0;
    }
    let ghost vb = self.view();
//% hint loop 2 end
    proof {
        let at = (vx_i2 - 1) as int;
        assert(upd(vb, self.view(), o + w0 + at, seq![vx_s2@[at]]));
        lemma_upd_els(vb, self.view(), o + w0 + at, seq![vx_s2@[at]], o + w0 + at);
        assert forall|i: int| 0 <= i < v0.len() implies #[trigger] self.view()[i] == v0[i] by { assert(self.view()[i] == vb[i]); }
        assert forall|j: int| 0 <= j < vx_i2 implies #[trigger] self.view()[o + w0 + j] == vx_s2@[j] by { if j < at { assert(self.view()[o + w0 + j] == vb[o + w0 + j]); } }
    }
//% hint loop 2 after
    proof {
        if w0 >= b {
            let v1 = self.view();
            let row = v0.subrange(o as int, (o + w0) as int);
            assert forall|i: int| 0 <= i < wid(n, b, h + 1) implies #[trigger] v1[off(n, b, h + 1) + i] == A::nh(v0.subrange(off(n, b, h) + i * b, off(n, b, h) + i * b + b), h) by {
                assert(i * b + b <= w0) by(nonlinear_arith) requires 0 <= i < w0 / b, b >= 1;
                assert((i + 1) * b == i * b + b) by(nonlinear_arith);
                assert(i * b >= 0) by(nonlinear_arith) requires i >= 0, b >= 1;
                assert(chunk_of(row, i, b as int) =~= v0.subrange(o + i * b, o + i * b + b));
                assert(v1[o + w0 + i] == vx_s2@[i]);
            }
            lemma_next_row::<E, A>(v0, v1, n, b, h);
            assert(v1.subrange(0, n as int) =~= v0.subrange(0, n as int)) by { lemma_off_mono(n, b, 1, h + 1); assert(off(n, b, 1) == n) by { assert(off(n, b, 0) == 0); assert(wid(n, b, 0) == n); } }
        }
    }
//% hint loop 0 after
    proof {
        if good0 { lemma_wid_shape(n, b, k, level as nat); if level < k { lemma_bpow_mono(b, 0, (k - level) as nat); assert(bpow(b, 0) == 1); } }
    }
//% hint ret
    proof {
        self.avail_ax();
        lemma_rows_end::<E, A>(self.view(), leaves, n, b, k);
        lemma_off_total(n, b, k);
    }
//% end
//% fn src/store/mod.rs trait Store::process_layer
//% spec
    requires old(self).wf(), good_arity(U::n()), U::n() <= 0x4000_0000, Self::keeps_all(), width >= 1, read_start + width <= write_start, write_start == old(self).view().len(), (write_start + width) * E::blen() <= MAXB,
    ensures final(self).wf(), final(self).cap() == old(self).cap(),
        r is Ok ==> row_added::<E, A>(old(self).view(), final(self).view(), read_start as int, write_start as int, width as int, U::n() as int, level as nat),
        old(self).good() && U::n() <= 4096 && width as int % U::n() as int == 0 && write_start + width as int / U::n() as int <= old(self).cap() ==> r is Ok && final(self).good(),
//% hint start
    let ghost b = U::n() as int;
    let ghost v0 = self.view();
    let ghost cs = BUILD_CHUNK_NODES as int;
    let ghost rs = read_start as int;
    let ghost ws = write_start as int;
    let ghost wd = width as int;
    let ghost l = E::blen() as int;
    let ghost good0 = self.good() && b <= 4096 && wd % b == 0 && ws + wd / b <= self.cap();
    proof {
        E::el_ax();
        assert(wd / b <= wd && wd / b >= 0) by(nonlinear_arith) requires b >= 2, wd >= 0;
        assert(ws + wd <= (ws + wd) * l) by(nonlinear_arith) requires l >= 1, ws + wd >= 0;
        assert((ws + wd / b) * l <= (ws + wd) * l) by(nonlinear_arith) requires l >= 1, wd / b <= wd;
        lemma2_to64(); assert(is_p2(4096)) by { assert(4096nat == pow2(12)); }
        if b <= 4096 { lemma_p2_div(4096, b as nat); }
    }
//% loop 0
    invariant
        b == U::n(), b == branches, b >= 2, cs == BUILD_CHUNK_NODES, cs % b == 0, cs > 0, rs == read_start, ws == write_start, wd == width, l == E::blen(), 0 < l <= 0x1_0000_0000, rs + wd <= ws, ws == v0.len(), wd >= 1,
        v0 == old(self).view(), Self::keeps_all(), ws + wd <= MAXB, (ws + wd) * l <= MAXB, (ws + wd / b) * l <= MAXB, 0 <= wd / b <= wd,
        vx_a0 == rs, vx_e0 == rs + wd, vx_c0 == cs, vx_n0 == dceil(wd, cs), is_perm(vx_p0@, vx_n0 as int), vx_i0 <= vx_n0,
        self.wf(), self.cap() == old(self).cap(), ws <= self.view().len() <= ws + wd / b,
        forall|i: int| 0 <= i < v0.len() ==> #[trigger] self.view()[i] == v0[i],
        forall|j: int| 0 <= j < vx_i0 ==> chunk_done::<E, A>(v0, self.view(), rs, ws, wd, cs, b, level as nat, #[trigger] vx_p0@[j] as int),
        good0 == (old(self).good() && b <= 4096 && wd % b == 0 && ws + wd / b <= old(self).cap()), good0 ==> self.good(),
    decreases vx_n0 - vx_i0
//% hint loop 0 start
    let ghost c = vx_p0@[vx_i0 - 1] as int;
    let ghost v1 = self.view();
    let ghost q = cs / b;
    let ghost z = csize(wd, cs, c);
    let ghost row = v0.subrange(rs + c * cs, rs + c * cs + z);
    let ghost mut els: Seq<E> = Seq::empty();
    proof {
        lemma_chunk_arith(wd, cs, b, c);
        self.avail_ax();
    }
//% hint let chunk_nodes
    proof {
        assert(chunk_nodes@ =~= row);
        assert(z / b <= z && z / b >= 0) by(nonlinear_arith) requires z >= 0, b >= 2;
        assert((z / b) * l <= (ws + wd) * l) by(nonlinear_arith) requires z / b <= ws + wd, l >= 1;
        assert(dceil(z, b) * l <= (ws + wd) * l) by(nonlinear_arith) requires dceil(z, b) <= ws + wd, l >= 1;
        assert((ws + c * q) * l + (z / b) * l <= (ws + wd / b) * l) by(nonlinear_arith) requires c * q + z / b <= wd / b, l >= 1;
    }
//% loop 1
    invariant
        vx_c1 == b, b >= 2, vx_s1@ == chunk_nodes@, vx_n1 == dceil(chunk_nodes@.len() as int, b), vx_i1 <= vx_n1, l == E::blen(), vx_n1 * l < 0x7000_0000_0000_0000,
        vx_acc1@.len() == vx_i1 * l, decode::<E>(vx_acc1@).len() == vx_i1,
        forall|j: int| 0 <= j < vx_i1 ==> #[trigger] decode::<E>(vx_acc1@)[j] == A::nh(chunk_of(chunk_nodes@, j, b), level as nat),
    decreases vx_n1 - vx_i1
//% hint loop 1 before
    proof { assert(Seq::<u8>::empty().len() == 0 * l); E::el_ax(); assert(0int / l == 0) by(nonlinear_arith) requires l > 0; }
//% hint loop 1 start
    let ghost acc0 = vx_acc1@;
//% hint loop 1 end
    proof {
        let e = A::nh(chunk_of(chunk_nodes@, vx_i1 - 1, b), level as nat);
        lemma_decode_push::<E>(acc0, e, vx_i1 - 1);
        assert(vx_acc1@ =~= acc0 + e.bytes());
    }
//% hint pre copy_from_slice
    proof {
        assert(dceil(z, b) * l == (z / b) * l);
        assert(dceil(z, b) == z / b) by(nonlinear_arith) requires dceil(z, b) * l == (z / b) * l, l > 0;
        lemma_div_by_multiple(z / b, l);
        lemma_mod_multiples_basic(z / b, l);
        els = decode::<E>(hashed_nodes_as_bytes@);
        assert(els.len() == z / b);
    }
//% hint loop 0 end
    proof {
        let w = self.view();
        assert(upd(v1, w, ws + c * q, els));
        assert forall|j: int| 0 <= j < vx_i0 implies chunk_done::<E, A>(v0, w, rs, ws, wd, cs, b, level as nat, #[trigger] vx_p0@[j] as int) by {
            if j < vx_i0 - 1 { lemma_chunk_frame::<E, A>(v0, v1, w, rs, ws, wd, cs, b, level as nat, vx_p0@[j] as int, c, els); }
            else {
                assert forall|i: int| 0 <= i < z / b implies #[trigger] w[ws + c * q + i] == A::nh(v0.subrange(rs + c * cs + i * b, rs + c * cs + i * b + b), level as nat) by {
                    lemma_upd_els(v1, w, ws + c * q, els, ws + c * q + i);
                    assert(i * b + b <= z && i * b >= 0) by(nonlinear_arith) requires 0 <= i < z / b, b > 0;
                    assert((i + 1) * b == i * b + b) by(nonlinear_arith);
                    assert(chunk_of(row, i, b) =~= v0.subrange(rs + c * cs + i * b, rs + c * cs + i * b + b));
                }
            }
        }
        assert forall|i: int| 0 <= i < v0.len() implies #[trigger] w[i] == v0[i] by { assert(w[i] == v1[i]); }
    }
//% hint loop 0 after
    proof {
        assert forall|c: int| 0 <= c < dceil(wd, cs) implies #[trigger] chunk_done::<E, A>(v0, self.view(), rs, ws, wd, cs, b, level as nat, c) by { assert(perm_has(vx_p0@, c)); }
        lemma_chunks_all::<E, A>(v0, self.view(), rs, ws, wd, cs, b, level as nat);
    }
//% end
