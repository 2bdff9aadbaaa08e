//% fn src/store/mod.rs trait Store::build
//% hint start
    let ghost b = U::n();
    let ghost n = leafs as nat;
    let ghost k = (row_count - 1) as nat;
    let ghost leaves = self.view();
    let ghost good0 = self.good() && self.view().len() == n && shape(b, n, k) && row_count >= 2 && b <= 4096 && self.cap() >= tlen(b, k);
    proof {
        E::el_ax();
        assert(2 * n <= 2 * n * E::blen()) by(nonlinear_arith) requires E::blen() >= 1, n >= 0;
        lemma_p2_misc();
        if is_p2(b) { lemma_p2_div(n, b); }
        if row_count >= 2 && shape(b, n, k) { lemma_bpow_div(b, k); lemma_p2_even(b); lemma_bpow_mono(b, 0, k); assert(bpow(b, 0) == 1); assert(b * 1 == b);
            let q = n / b; let c = b / 2;
            assert(n == 2 * (c * q)) by(nonlinear_arith) requires n == q * b, b == 2 * c; }
    }
//% hint let shift
    let ghost s0 = lemma_arity(b);
//% loop 0
    invariant
        b == U::n(), n == leafs, k == row_count - 1, good_arity(b), b <= 0x4000_0000, branches == b, shift == s0, 1 <= s0 < 64, b == pow2(s0), is_p2(n), n >= 2, leaves.len() == n,
        2 * n * E::blen() <= MAXB, 0 < E::blen(), Self::keeps_all(), 2 * n <= MAXB,
        self.wf(), width == wid(n, b, level as nat), width >= 1, is_p2(width as nat),
        level_node_index == off(n, b, level as nat), level_node_index <= 2 * n,
        self.view().len() == level_node_index + width,
        level == 0 ==> width == leafs && level_node_index == 0,
        level + width <= n,
        rows_ok::<E, A>(self.view(), n, b, level as nat),
        self.view().subrange(0, n as int) == leaves,
        good0 == (old(self).good() && old(self).view().len() == n && shape(b, n, k) && row_count >= 2 && b <= 4096 && old(self).cap() >= tlen(b, k)),
        good0 ==> shape(b, n, k) && self.good() && self.cap() >= tlen(b, k) && level <= k,
    decreases width
//% hint loop 0 start
    let ghost v0 = self.view();
    let ghost o = level_node_index as nat;
    let ghost w0 = width as nat;
    let ghost h = level as nat;
    proof {
        lemma_row_step(n, b, h);
        lemma_off_bound(n, b, h);
        lemma_shr(width, shift);
        assert((o + w0 + w0) * E::blen() <= 2 * n * E::blen()) by(nonlinear_arith) requires o + w0 + w0 <= 2 * n, E::blen() > 0;
        if good0 { lemma_wid_shape(n, b, k, h); if h == k { assert(bpow(b, 0) == 1); } else { lemma_bpow_div(b, (k - h) as nat); } lemma_off_shape(n, b, k, h); lemma_off_shape(n, b, k, h + 1); lemma_wid_shape(n, b, k, h + 1); lemma_off_mono(n, b, h + 2, k + 1); lemma_off_total(n, b, k); }
    }
//% hint loop 0 end
    proof {
        let v1 = self.view();
        assert(row_added::<E, A>(v0, v1, o as int, (o + w0) as int, w0 as int, b as int, h));
        if w0 < b { lemma_small_mod(w0, b); }
        assert forall|i: int| 0 <= i < wid(n, b, h + 1) implies #[trigger] v1[off(n, b, h + 1) + i] == A::nh(v0.subrange(off(n, b, h) + i * b, off(n, b, h) + i * b + b), h) by { assert(v1[(o + w0) + i] == A::nh(v0.subrange(o + i * b, o + i * b + b), h)); }
        lemma_next_row::<E, A>(v0, v1, n, b, h);
        assert(v1.subrange(0, n as int) =~= v0.subrange(0, n as int)) by { lemma_off_mono(n, b, 1, h + 1); assert(off(n, b, 1) == n) by { assert(off(n, b, 0) == 0); assert(wid(n, b, 0) == n); } }
    }
//% hint loop 0 after
    proof {
        if good0 { lemma_wid_shape(n, b, k, level as nat); if level < k { lemma_bpow_mono(b, 0, (k - level) as nat); assert(bpow(b, 0) == 1); } }
    }
//% hint ret
    proof {
        self.avail_ax();
        lemma_rows_end::<E, A>(self.view(), leaves, n, b, k);
        lemma_off_total(n, b, k);
        assert(is_tree::<E, A>(self.view(), leaves, b, k) ==> built::<E, A>(self.view(), leaves, b, k, self.view().last()));
    }
//% end
