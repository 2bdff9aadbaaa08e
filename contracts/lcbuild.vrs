//% fn src/store/level_cache.rs Store for LevelCacheStore::build
//% hint start
    let ghost b = U::n();
    let ghost n = leafs as nat;
    let ghost leaves = self.view();
    let ghost l = E::blen() as int;
    let ghost mut t: Seq<E> = leaves;
    proof {
        E::el_ax();
        assert(2 * n <= 2 * n * E::blen()) by(nonlinear_arith) requires E::blen() >= 1, n >= 0;
        lemma_p2_misc();
    }
//% hint let shift
    let ghost s0 = lemma_arity(b);
    let ghost d = config.rows_to_discard as nat;
    let ghost k = height(b, n);
    let ghost cb = off(n, b, d + 1) as int;
    let ghost m = tlen(b, k) as int;
    proof {
        assert(self.at_config(n, b, config.file(), d));
        assert(bpow(b, k) == n);
        lemma_off_shape(n, b, k, d + 1);
        lemma_off_total(n, b, k);
        lemma_tlen_bound(b, k);
        lemma_bpow_mono(b, 0, k);
        assert(bpow(b, 0) == 1);
        lemma_cache_small(b, k, d);
        lemma_tlen_pos(b, (k - 1 - d) as nat);
        lemma_off_mono(n, b, 1, d + 1);
        assert(off(n, b, 1) == n) by { assert(off(n, b, 0) == 0); assert(wid(n, b, 0) == n); }
        assert(m * l <= 2 * n * l) by(nonlinear_arith) requires m <= 2 * n, l > 0;
        assert(n * l <= m * l) by(nonlinear_arith) requires n <= m, l > 0;
        assert(slots::<E>(self.file.view(), n) =~= leaves) by {
            assert forall|i: int| 0 <= i < n implies #[trigger] slots::<E>(self.file.view(), n)[i] == leaves[i] by {
                assert(0 <= i * l && i * l + l <= n * l) by(nonlinear_arith) requires 0 <= i < n, l > 0;
            }
        }
        assert(leaves.subrange(0, n as int) =~= leaves);
    }
//% loop 0
    invariant
        b == U::n(), n == leafs, good_arity(b), b <= 0x4000_0000, branches == b, shift == s0, 1 <= s0 < 64, b == pow2(s0), is_p2(n), n >= 2, leaves.len() == n, l == E::blen(), l > 0,
        d == config.rows_to_discard, k == height(b, n), shape(b, n, k), d < k, cb == off(n, b, d + 1), m == tlen(b, k), cb == m - tlen(b, (k - 1 - d) as nat), cache_index_start == cb, n <= cb < m,
        2 * n * E::blen() <= MAXB, 2 * n <= MAXB, m <= 2 * n, n * b <= 0x8000_0000_0000_0000,
        self.shaped(), self.elem_len == l, self.file.ino() == disk_ino(config.file()), self.reader is None, self.data_width == n, self.cache_index_start == cb * l,
        level <= k, width == wid(n, b, level as nat), width >= 1, is_p2(width as nat), level_node_index == off(n, b, level as nat), level + width <= n,
        self.store_size == (m - least(level_node_index as int, cb)) * l,
        self.len == (if level == 0 { n as int } else { level_node_index as int }),
        t.len() == off(n, b, level as nat) + wid(n, b, level as nat),
        rows_ok::<E, A>(t, n, b, level as nat), t.subrange(0, n as int) == leaves,
        slots::<E>(self.file.view(), (t.len() - least(level_node_index as int, cb)) as nat) == t.subrange(least(level_node_index as int, cb), t.len() as int),
    decreases width
//% hint loop 0 start
    let ghost h = level as nat;
    let ghost o = level_node_index as int;
    let ghost w0 = width as int;
    let ghost bs = least(o, cb);
    let ghost t0 = t;
    let ghost f0 = self.file.view();
    let ghost ws = o + w0 - bs;
    let ghost q = w0 / b as int;
    let ghost mut f1 = f0;
    proof {
        lemma_row_step(n, b, h);
        lemma_off_bound(n, b, h);
        lemma_shr(width, shift);
        lemma_wid_shape(n, b, k, h);
        if h == k { assert(bpow(b, 0) == 1); }
        lemma_bpow_div(b, (k - h) as nat);
        lemma_off_shape(n, b, k, h + 1); lemma_wid_shape(n, b, k, h + 1); lemma_off_mono(n, b, h + 2, k + 1); lemma_off_total(n, b, k);
        if h <= d { lemma_off_mono(n, b, h + 1, d + 1); } else { lemma_off_mono(n, b, d + 1, h); }
        assert((ws + w0) * l <= 2 * n * l) by(nonlinear_arith) requires ws + w0 <= 2 * n, l > 0;
        assert((ws + q) * l <= (m - bs) * l) by(nonlinear_arith) requires ws + q <= m - bs, l > 0;
        assert(w0 * l <= 2 * n * l) by(nonlinear_arith) requires w0 <= 2 * n, l > 0;
    }
//% hint post process_layer
    proof {
        f1 = self.file.view();
        let s1 = slots::<E>(f1, (ws + q) as nat);
        let v0 = slots::<E>(f0, ws as nat);
        assert(t0.subrange(bs, o + w0) == v0);
        t = t0 + s1.subrange(ws, ws + q);
        assert(row_added::<E, A>(v0, s1, o - bs, ws, w0, b as int, h));
        assert(t.len() == off(n, b, h + 2));
        assert forall|i: int| 0 <= i < wid(n, b, h + 1) implies #[trigger] t[off(n, b, h + 1) + i] == A::nh(t0.subrange(off(n, b, h) + i * b, off(n, b, h) + i * b + b), h) by {
            assert(i * b + b <= w0 && i * b >= 0) by(nonlinear_arith) requires 0 <= i < w0 / b as int, b >= 1;
            assert(t[off(n, b, h + 1) + i] == s1[ws + i]);
            assert(v0.subrange(o - bs + i * b, o - bs + i * b + b) =~= t0.subrange(o + i * b, o + i * b + b));
        }
        lemma_next_row::<E, A>(t0, t, n, b, h);
        lemma_off_mono(n, b, 1, h + 1);
        assert(off(n, b, 1) == n) by { assert(off(n, b, 0) == 0); assert(wid(n, b, 0) == n); }
        assert(t.subrange(0, n as int) =~= t0.subrange(0, n as int));
        assert(s1 =~= t.subrange(bs, t.len() as int)) by {
            assert forall|i: int| 0 <= i < ws implies s1[i] == t[bs + i] by { assert(s1[i] == v0[i]); assert(v0[i] == t0.subrange(bs, o + w0)[i]); }
        }
    }
//% hint loop 0 end
    proof {
        let bs1 = least(o + w0, cb);
        let f2 = self.file.view();
        let c = (t.len() - bs1) as nat;
        if o < cb {
            assert(bs1 == o + w0 && bs == o);
            assert((m - bs1) * l == (m - bs) * l - w0 * l) by(nonlinear_arith) requires bs1 == bs + w0;
            let s1 = t.subrange(bs, t.len() as int);
            assert forall|i: int| 0 <= i < c implies #[trigger] slots::<E>(f2, c)[i] == t.subrange(bs1, t.len() as int)[i] by {
                assert(t.subrange(bs1, t.len() as int)[i] == s1[w0 + i]);
                assert((w0 + i) * l == w0 * l + i * l) by(nonlinear_arith);
                assert(c * l <= (m - bs1) * l) by(nonlinear_arith) requires c <= m - bs1, l > 0;
                assert(0 <= i * l && i * l + l <= c * l) by(nonlinear_arith) requires 0 <= i < c, l > 0;
                assert(f2.subrange(i * l, i * l + l) =~= f1.subrange((w0 + i) * l, (w0 + i) * l + l));
            }
            assert(slots::<E>(f2, c) =~= t.subrange(bs1, t.len() as int));
        }
        assert(self.len * l <= 2 * n * l) by(nonlinear_arith) requires self.len <= 2 * n, l > 0;
        assert(self.store_size == self.file.view().len());
        assert(self.len * E::blen() <= MAXB);
        assert(self.base_end() <= MAXB && self.cache_index_start <= MAXB);
        assert(cb * l >= n * l) by(nonlinear_arith) requires cb >= n, l > 0;
        assert(self.cache_index_start >= self.base_end());
    }
//% hint loop 0 after
    proof {
        lemma_wid_shape(n, b, k, level as nat);
        if level < k { lemma_bpow_mono(b, 0, (k - level) as nat); lemma_bpow_div(b, (k - level) as nat); assert(bpow(b, 0) == 1); }
        lemma_off_mono(n, b, d + 1, k);
        lemma_off_total(n, b, k);
        assert(m * l <= 2 * n * l) by(nonlinear_arith) requires m <= 2 * n, l > 0;
    }
//% hint ret
    proof {
        assert(level == k);
        let f = self.file.view();
        let c = m - cb;
        lemma_rows_end::<E, A>(t, leaves, n, b, k);
        assert(built::<E, A>(t, leaves, b, k, t.last()));
        assert(slots::<E>(f, c as nat) == t.subrange(cb, m));
        assert(slots::<E>(f, c as nat)[c - 1] == t.last());
        assert(c * l <= 2 * n * l) by(nonlinear_arith) requires c <= 2 * n, l > 0;
        assert((c - 1 + 1) * l == c * l);
        lemma_cache_small(b, k, d);
        assert(c * l < n * l) by(nonlinear_arith) requires c < n, l > 0;
        assert(!self.has_base());
        assert forall|lo: int, hi: int| #![trigger self.avail(lo, hi)] 0 <= lo <= hi <= t.len() && self.avail(lo, hi) implies self.view().subrange(lo, hi) == t.subrange(lo, hi) by {
            if lo < hi {
                assert(lo * l < hi * l) by(nonlinear_arith) requires lo < hi, l > 0;
                if lo < cb { assert(lo * l < cb * l) by(nonlinear_arith) requires lo < cb, l > 0; }
                assert(lo >= cb);
                assert forall|i: int| lo <= i < hi implies #[trigger] self.view()[i] == t[i] by {
                    assert((i - cb) * l == i * l - cb * l) by(nonlinear_arith);
                    assert(i * l >= cb * l) by(nonlinear_arith) requires i >= cb, l > 0;
                    assert(cb * l >= n * l) by(nonlinear_arith) requires cb >= n, l > 0;
                    assert(0 <= (i - cb) * l && (i - cb) * l + l <= c * l) by(nonlinear_arith) requires 0 <= i - cb < c, l > 0;
                    assert(slots::<E>(f, c as nat)[i - cb] == t[i]);
                }
                assert(self.view().subrange(lo, hi) =~= t.subrange(lo, hi));
            } else { assert(self.view().subrange(lo, hi) =~= t.subrange(lo, hi)); }
        }
    }
//% end
