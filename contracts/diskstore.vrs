verus! {
//% item src/store/disk.rs struct DiskStore
impl<E: Element> Store<E> for DiskStore<E> {
    closed spec fn view(&self) -> Seq<E> { slots::<E>(self.file.view(), self.len as nat) }
    closed spec fn wf(&self) -> bool { self.elem_len == E::blen() && self.store_size == self.file.view().len() && self.len * E::blen() <= self.store_size <= MAXB }
    closed spec fn good(&self) -> bool { self.file.io_ok() }
    open spec fn env_ok() -> bool { true }
    open spec fn reliable() -> bool { tmp_ok() }
    closed spec fn cap(&self) -> nat { (self.store_size as int / E::blen() as int) as nat }
    open spec fn avail(&self, lo: int, hi: int) -> bool { true }
    open spec fn holds(&self, lo: int, hi: int) -> bool { true }
    open spec fn at_config(&self, n: nat, b: nat, file: PathBuf, d: nat) -> bool { true }
    closed spec fn loaded(&self) -> bool { self.loaded_from_disk }
    open spec fn keeps_all() -> bool { true }
    open spec fn checked() -> bool { true }
    open spec fn has_range_into() -> bool { true }
    proof fn avail_ax(&self) { }
    proof fn wf_ax(&self) { }
//% fn src/store/disk.rs Store for DiskStore::new_with_config
//% spec
    ensures r is Ok ==> r->Ok_0.loaded() == on_disk(config.file()),
        r is Ok && r->Ok_0.loaded() ==> disk(config.file()).len() == size * E::blen() && r->Ok_0.view() == slots::<E>(disk(config.file()), size as nat),
        on_disk(config.file()) && disk(config.file()).len() != size * E::blen() ==> r is Err,
//% hint start
    proof { E::el_ax(); lemma_mul_is_commutative(E::blen() as int, size as int); lemma_div_by_multiple(size as int, E::blen() as int); }
//% end
//% fn src/store/disk.rs Store for DiskStore::new
//% spec
    ensures r is Ok ==> r->Ok_0.store_size == size * E::blen(),
//% hint start
    proof { E::el_ax(); lemma_mul_is_commutative(E::blen() as int, size as int); lemma_div_by_multiple(size as int, E::blen() as int); }
//% end
//% fn src/store/disk.rs Store for DiskStore::new_from_slice_with_config
//% spec
    ensures r is Ok ==> r->Ok_0.loaded() == on_disk(config.file()),
        r is Ok && r->Ok_0.loaded() ==> disk(config.file()).len() == size * E::blen() && r->Ok_0.view() == slots::<E>(disk(config.file()), size as nat),
        r is Ok && !r->Ok_0.loaded() ==> r->Ok_0.view() == decode::<E>(data@),
        on_disk(config.file()) && disk(config.file()).len() != size * E::blen() ==> r is Err,
//% hint start
    proof {
        E::el_ax();
        let n = data@.len() as int; let l = E::blen() as int;
        lemma_fundamental_div_mod(n, l);
        assert(n / l * l <= n) by(nonlinear_arith) requires n == l * (n / l) + n % l, n % l >= 0;
        lemma_div_by_multiple(size as int, l);
        assert(n / l * l <= size * l) by(nonlinear_arith) requires n / l <= size, l > 0;
        assert(n / l * l == l * (n / l)) by(nonlinear_arith);
        lemma_mod_bound(n, l);
    }
//% hint let store
    let ghost b0 = store.file.view();
    proof {
        assert(0 * E::blen() == 0);
        if store.wf() && data@.len() <= b0.len() && data@.len() % E::blen() == 0 {
            let m = (data@.len() as int / E::blen() as int) as nat;
            lemma_splice_slots::<E>(b0, data@, 0, 0, m);
            assert(decode::<E>(data@) =~= slots::<E>(splice(b0, 0, data@), m)) by {
                let els = decode::<E>(data@); let f = slots::<E>(splice(b0, 0, data@), m);
                assert forall|i: int| 0 <= i < els.len() implies els[i] == f[i] by { assert(els[i] == f[0 + i]); }
            }
        }
    }
//% end
//% fn src/store/disk.rs Store for DiskStore::new_from_slice
//% hint start
    proof {
        E::el_ax();
        let n = data@.len() as int; let l = E::blen() as int;
        lemma_fundamental_div_mod(n, l);
        assert(n / l * l <= n) by(nonlinear_arith) requires n == l * (n / l) + n % l, n % l >= 0;
        lemma_div_by_multiple(size as int, l);
        assert(n / l * l <= size * l) by(nonlinear_arith) requires n / l <= size, l > 0;
        assert(n / l * l == l * (n / l)) by(nonlinear_arith);
        lemma_mod_bound(n, l);
    }
//% hint let store
    let ghost b0 = store.file.view();
    proof {
        assert(0 * E::blen() == 0);
        if store.wf() && data@.len() <= b0.len() && data@.len() % E::blen() == 0 {
            let m = (data@.len() as int / E::blen() as int) as nat;
            lemma_splice_slots::<E>(b0, data@, 0, 0, m);
            assert(decode::<E>(data@) =~= slots::<E>(splice(b0, 0, data@), m)) by {
                let els = decode::<E>(data@); let f = slots::<E>(splice(b0, 0, data@), m);
                assert forall|i: int| 0 <= i < els.len() implies els[i] == f[i] by { assert(els[i] == f[0 + i]); }
            }
        }
    }
//% end
//% fn src/store/disk.rs Store for DiskStore::write_at
//% hint start
    proof {
        E::el_ax();
        let l = E::blen() as int;
        assert(index <= index * l) by(nonlinear_arith) requires index >= 0, l >= 1;
        assert((index + 1) * l == index * l + l) by(nonlinear_arith);
        if index < self.cap() { lemma_fundamental_div_mod(self.store_size as int, l); lemma_mod_bound(self.store_size as int, l); assert((index + 1) * l <= self.store_size) by(nonlinear_arith) requires index + 1 <= self.store_size as int / l, self.store_size == l * (self.store_size as int / l) + self.store_size as int % l, self.store_size as int % l >= 0, l > 0; }
        else { if (index + 1) * l <= self.store_size { lemma_div_is_ordered((index + 1) * l, self.store_size as int, l); lemma_div_by_multiple(index + 1, l); } }
        let d = el.bytes();
        assert(d.len() as int == 1 * l); lemma_div_by_multiple(1, l); lemma_mod_multiples_basic(1, l);
        if (index + 1) * l <= self.store_size { lemma_splice_slots::<E>(self.file.view(), d, index as int, self.len as nat, (if self.len >= index + 1 { self.len as nat } else { (index + 1) as nat })); }
        assert(d.subrange(0, l) =~= d);
        assert(decode::<E>(d) =~= seq![el]);
    }
//% end
//% fn src/store/disk.rs Store for DiskStore::copy_from_slice
//% hint start
    proof {
        E::el_ax();
        let l = E::blen() as int; let n = buf@.len() as int; let c = n / l;
        assert(start <= start * l) by(nonlinear_arith) requires start >= 0, l >= 1;
        lemma_fundamental_div_mod(n, l);
        assert(c <= n && c >= 0) by(nonlinear_arith) requires n >= 0, l >= 1, c == n / l;
        if n % l == 0 {
            assert((start + c) * l == start * l + n) by(nonlinear_arith) requires n == l * c;
            if start + c <= self.cap() { lemma_fundamental_div_mod(self.store_size as int, l); lemma_mod_bound(self.store_size as int, l); assert((start + c) * l <= self.store_size) by(nonlinear_arith) requires start + c <= self.store_size as int / l, self.store_size == l * (self.store_size as int / l) + self.store_size as int % l, self.store_size as int % l >= 0, l > 0; }
            if (start + c) * l <= self.store_size { lemma_splice_slots::<E>(self.file.view(), buf@, start as int, self.len as nat, (if self.len >= start + c { self.len as nat } else { (start + c) as nat })); }
        }
    }
//% end
//% fn src/store/disk.rs Store for DiskStore::read_at
//% hint start
    proof {
        E::el_ax();
        let l = E::blen() as int; let m = self.len as int;
        assert(index <= index * l) by(nonlinear_arith) requires index >= 0, l >= 1;
        assert((index + 1) * l == index * l + l) by(nonlinear_arith);
        if index < m { assert((index + 1) * l <= m * l) by(nonlinear_arith) requires index + 1 <= m, l > 0; }
        else { assert(index * l >= m * l) by(nonlinear_arith) requires index >= m, l > 0; }
    }
//% end
//% fn src/store/disk.rs Store for DiskStore::read_into
//% hint start
    proof {
        E::el_ax();
        let l = E::blen() as int; let m = self.len as int;
        assert(index <= index * l) by(nonlinear_arith) requires index >= 0, l >= 1;
        assert((index + 1) * l == index * l + l) by(nonlinear_arith);
        if index < m { assert((index + 1) * l <= m * l) by(nonlinear_arith) requires index + 1 <= m, l > 0; }
        else { assert(index * l >= m * l) by(nonlinear_arith) requires index >= m, l > 0; }
    }
//% end
//% fn src/store/disk.rs Store for DiskStore::read_range_into
//% hint start
    proof {
        E::el_ax();
        let l = E::blen() as int; let m = self.len as int;
        assert(start * l <= end * l && start * l >= 0) by(nonlinear_arith) requires 0 <= start <= end, l >= 1;
        assert(end * l - start * l == (end - start) * l) by(nonlinear_arith);
        if end <= m { assert(end * l <= m * l) by(nonlinear_arith) requires end <= m, l > 0; lemma_slots_part::<E>(self.file.view(), self.file.view().subrange(start * l, end * l), start as int, end as int, m as nat); }
        else { assert(end * l > m * l) by(nonlinear_arith) requires end > m, l > 0; }
        if start < end && end <= m { assert(start * l < m * l) by(nonlinear_arith) requires start < m, l > 0; }
        if start >= m { assert(start * l >= m * l) by(nonlinear_arith) requires start >= m, l > 0; }
    }
//% end
//% fn src/store/disk.rs Store for DiskStore::read_range
//% ret res
//% hint start
    proof {
        E::el_ax();
        let l = E::blen() as int; let m = self.len as int;
        assert(r.start * l <= r.end * l && r.start * l >= 0) by(nonlinear_arith) requires 0 <= r.start <= r.end, l >= 1;
        assert(r.end * l - r.start * l == (r.end - r.start) * l) by(nonlinear_arith);
        if r.end <= m { assert(r.end * l <= m * l) by(nonlinear_arith) requires r.end <= m, l > 0; lemma_slots_part::<E>(self.file.view(), self.file.view().subrange(r.start * l, r.end * l), r.start as int, r.end as int, m as nat); }
        else { assert(r.end * l > m * l) by(nonlinear_arith) requires r.end > m, l > 0; }
        if r.start < r.end && r.end <= m { assert(r.start * l < m * l) by(nonlinear_arith) requires r.start < m, l > 0; }
        if r.start >= m { assert(r.start * l >= m * l) by(nonlinear_arith) requires r.start >= m, l > 0; }
    }
//% loop 0
    invariant
        vx_c0 == E::blen(), E::blen() > 0, vx_n0 == (r.end - r.start), vx_i0 <= vx_n0, vx_out0@.len() == vx_i0, vx_s0@.len() == vx_n0 * E::blen(), vx_n0 == vx_s0@.len() as int / E::blen() as int, vx_n0 == dceil(vx_s0@.len() as int, E::blen() as int),
        forall|j: int| 0 <= j < vx_i0 ==> #[trigger] vx_out0@[j] == E::of(vx_s0@.subrange(j * E::blen(), j * E::blen() + E::blen())),
        forall|j: int| 0 <= j < vx_n0 ==> chunk_of(vx_s0@, j, E::blen() as int).len() == E::blen() && #[trigger] chunk_of(vx_s0@, j, E::blen() as int) == vx_s0@.subrange(j * E::blen(), j * E::blen() + E::blen()),
    decreases vx_n0 - vx_i0
//% hint loop 0 before
    proof {
        assert forall|j: int| 0 <= j < vx_n0 implies chunk_of(vx_s0@, j, E::blen() as int).len() == E::blen() && #[trigger] chunk_of(vx_s0@, j, E::blen() as int) == vx_s0@.subrange(j * E::blen(), j * E::blen() + E::blen()) by { lemma_chunk_exact(vx_s0@, j, E::blen() as int); }
    }
//% hint loop 0 after
    proof { assert(vx_out0@ =~= decode::<E>(vx_s0@)); }
//% end
//% fn src/store/disk.rs Store for DiskStore::len
//% end
//% fn src/store/disk.rs Store for DiskStore::loaded_from_disk
//% end
//% fn src/store/disk.rs Store for DiskStore::is_empty
//% end
//% fn src/store/disk.rs Store for DiskStore::push
//% hint start
    proof { E::el_ax(); lemma_upd_push::<E>(self.view(), el); let l = E::blen() as int; assert(self.len <= self.len * l) by(nonlinear_arith) requires self.len >= 0, l >= 1; assert((self.len + 1) * l == self.len * l + l) by(nonlinear_arith);
        if self.len < self.cap() { lemma_fundamental_div_mod(self.store_size as int, l); lemma_mod_bound(self.store_size as int, l); assert((self.len + 1) * l <= self.store_size) by(nonlinear_arith) requires self.len + 1 <= self.store_size as int / l, self.store_size == l * (self.store_size as int / l) + self.store_size as int % l, self.store_size as int % l >= 0, l > 0; } }
//% end
//% fn src/store/disk.rs Store for DiskStore::sync
//% end
//% fn src/store/disk.rs Store for DiskStore::build
//% hint start
    let ghost b = U::n();
    let ghost n = leafs as nat;
    let ghost k = (row_count - 1) as nat;
    let ghost leaves = self.view();
    let ghost good0 = self.good() && self.view().len() == n && shape(b, n, k) && row_count >= 2 && b <= 4096 && self.cap() >= tlen(b, k);
    proof {
        E::el_ax();
        assert(2 * n <= 2 * n * E::blen()) by(nonlinear_arith) requires E::blen() >= 1, n >= 0;
        lemma_p2_misc();
        if is_p2(b) { lemma_p2_div(n, b); }
        if row_count >= 2 && shape(b, n, k) { lemma_bpow_div(b, k); lemma_p2_even(b); lemma_bpow_mono(b, 0, k); assert(bpow(b, 0) == 1); assert(b * 1 == b);
            let q = n / b; let c = b / 2;
            assert(n == 2 * (c * q)) by(nonlinear_arith) requires n == q * b, b == 2 * c; }
    }
//% hint let shift
    let ghost s0 = lemma_arity(b);
//% loop 0
    invariant
        b == U::n(), n == leafs, k == row_count - 1, good_arity(b), b <= 0x4000_0000, branches == b, shift == s0, 1 <= s0 < 64, b == pow2(s0), is_p2(n), n >= 2, leaves.len() == n,
        2 * n * E::blen() <= MAXB, 0 < E::blen(), Self::keeps_all(), 2 * n <= MAXB,
        self.wf(), width == wid(n, b, level as nat), width >= 1, is_p2(width as nat),
        level_node_index == off(n, b, level as nat), level_node_index <= 2 * n,
        self.view().len() == level_node_index + width,
        level == 0 ==> width == leafs && level_node_index == 0,
        level + width <= n,
        rows_ok::<E, A>(self.view(), n, b, level as nat),
        self.view().subrange(0, n as int) == leaves,
        good0 == (old(self).good() && old(self).view().len() == n && shape(b, n, k) && row_count >= 2 && b <= 4096 && old(self).cap() >= tlen(b, k)),
        good0 ==> shape(b, n, k) && self.good() && self.cap() >= tlen(b, k) && level <= k,
        self.cap() == old(self).cap(), rows_fit(n, b, self.cap() as int),
    decreases width
//% hint loop 0 start
    let ghost v0 = self.view();
    let ghost o = level_node_index as nat;
    let ghost w0 = width as nat;
    let ghost h = level as nat;
    proof {
        lemma_row_step(n, b, h);
        lemma_off_bound(n, b, h);
        lemma_shr(width, shift);
        assert(off(n, b, h + 2) <= self.cap());
        assert((o + w0 + w0) * E::blen() <= 2 * n * E::blen()) by(nonlinear_arith) requires o + w0 + w0 <= 2 * n, E::blen() > 0;
        if good0 { lemma_wid_shape(n, b, k, h); if h == k { assert(bpow(b, 0) == 1); } else { lemma_bpow_div(b, (k - h) as nat); } lemma_off_shape(n, b, k, h); lemma_off_shape(n, b, k, h + 1); lemma_wid_shape(n, b, k, h + 1); lemma_off_mono(n, b, h + 2, k + 1); lemma_off_total(n, b, k); }
    }
//% hint loop 0 end
    proof {
        let v1 = self.view();
        assert(row_added::<E, A>(v0, v1, o as int, (o + w0) as int, w0 as int, b as int, h));
        if w0 < b { lemma_small_mod(w0, b); }
        assert forall|i: int| 0 <= i < wid(n, b, h + 1) implies #[trigger] v1[off(n, b, h + 1) + i] == A::nh(v0.subrange(off(n, b, h) + i * b, off(n, b, h) + i * b + b), h) by { assert(v1[(o + w0) + i] == A::nh(v0.subrange(o + i * b, o + i * b + b), h)); }
        lemma_next_row::<E, A>(v0, v1, n, b, h);
        assert(v1.subrange(0, n as int) =~= v0.subrange(0, n as int)) by { lemma_off_mono(n, b, 1, h + 1); assert(off(n, b, 1) == n) by { assert(off(n, b, 0) == 0); assert(wid(n, b, 0) == n); } }
    }
//% hint loop 0 after
    proof {
        if good0 { lemma_off_total(n, b, k); lemma_wid_shape(n, b, k, level as nat); if level < k { lemma_bpow_mono(b, 0, (k - level) as nat); assert(bpow(b, 0) == 1); } }
    }
//% hint ret
    proof {
        self.avail_ax();
        lemma_rows_end::<E, A>(self.view(), leaves, n, b, k);
        lemma_off_total(n, b, k);
        assert(is_tree::<E, A>(self.view(), leaves, b, k) ==> built::<E, A>(self.view(), leaves, b, k, self.view().last()));
    }
//% end
}
impl<E: Element> DiskStore<E> {
    /// the file has room for the elements and no more
    pub open spec fn full(&self) -> bool { self.store_size == self.len * E::blen() }
//% fn src/store/disk.rs DiskStore::new_from_disk_with_path
//% spec
    requires size * E::blen() <= MAXB
    ensures r is Ok ==> on_disk(data_path.pv()) && disk(data_path.pv()).len() == size * E::blen() && r->Ok_0.wf() && r->Ok_0.loaded() && r->Ok_0.cap() == size && r->Ok_0.view() == slots::<E>(disk(data_path.pv()), size as nat)
            && r->Ok_0.file.ino() == disk_ino(data_path.pv()) && r->Ok_0.store_size == size * E::blen(),
        !on_disk(data_path.pv()) || disk(data_path.pv()).len() != size * E::blen() ==> r is Err,
//% hint start
    proof { E::el_ax(); lemma_mul_is_commutative(E::blen() as int, size as int); lemma_div_by_multiple(size as int, E::blen() as int); }
//% end
//% fn src/store/disk.rs DiskStore::set_len
//% spec
    ensures *final(self) == (DiskStore { len: len, ..*old(self) })
//% end
//% fn src/store/disk.rs DiskStore::is_consistent
//% spec
    requires store_range * E::blen() <= MAXB
    ensures r is Ok ==> on_disk(config.file()) && r->Ok_0 == (disk(config.file()).len() == store_range * E::blen())
//% end
//% fn src/store/disk.rs DiskStore::store_size
//% spec
    ensures r == self.store_size
//% end
//% fn src/store/disk.rs DiskStore::store_read_range
//% spec
    requires start <= end <= MAXB
    ensures r is Ok && (start < end || end <= self.file.view().len()) ==> end <= self.file.view().len() && r->Ok_0@ == self.file.view().subrange(start as int, end as int),
        self.file.io_ok() && end <= self.file.view().len() ==> r is Ok
//% end
//% fn src/store/disk.rs DiskStore::store_read_into
//% spec
    requires start <= end, start + old(buf)@.len() == end
    ensures final(buf)@.len() == old(buf)@.len(), r is Ok && (start < end || end <= self.file.view().len()) ==> end <= self.file.view().len() && final(buf)@ == self.file.view().subrange(start as int, end as int),
        self.file.io_ok() && end <= self.file.view().len() ==> r is Ok
//% end
//% fn src/store/disk.rs DiskStore::store_copy_from_slice
//% spec
    requires start + slice@.len() <= usize::MAX, old(self).store_size == old(self).file.view().len()
    ensures r is Ok ==> start + slice@.len() <= old(self).store_size && final(self).file.view() == splice(old(self).file.view(), start as int, slice@),
        final(self).file.view().len() == old(self).file.view().len(), final(self).file.io_ok() == old(self).file.io_ok(),
        *final(self) == (DiskStore { file: final(self).file, ..*old(self) }),
        old(self).file.io_ok() && start + slice@.len() <= old(self).store_size ==> r is Ok
//% end
//% fn src/store/disk.rs Store for DiskStore::new_from_disk
//% spec
    requires size * E::blen() <= MAXB
    ensures r is Ok ==> on_disk(config.file()) && disk(config.file()).len() == size * E::blen() && r->Ok_0.wf() && r->Ok_0.loaded() && r->Ok_0.cap() == size && r->Ok_0.view() == slots::<E>(disk(config.file()), size as nat)
            && r->Ok_0.file.ino() == disk_ino(config.file()) && r->Ok_0.store_size == size * E::blen(),
        !on_disk(config.file()) || disk(config.file()).len() != size * E::blen() ==> r is Err,
//% end
//% fn src/store/disk.rs Store for DiskStore::compact
//% spec
    requires old(self).wf(), old(self).full(), old(self).view().len() >= 1, old(self).file.ino() == disk_ino(config.file()),
        2 <= branches <= 0x4000_0000_0000_0000, old(self).view().len() * branches <= 0x8000_0000_0000_0000, config.rows_to_discard <= 0x4000_0000_0000_0000,
    ensures
        r is Ok ==> r->Ok_0 && final(self).wf() && final(self).full() && compactable(branches as nat, old(self).view().len(), config.rows_to_discard as nat),
        forall|k: nat| #![trigger tlen(branches as nat, k)] r is Ok && tlen(branches as nat, k) == old(self).view().len() ==> {
            let (v, c) = (old(self).view(), tlen(branches as nat, (k - 1 - config.rows_to_discard) as nat));
            let cached = v.subrange(v.len() - c, v.len() as int);
            config.rows_to_discard < k && final(self).view() == (if store_version == 1 { v.subrange(0, bpow(branches as nat, k) as int) + cached } else { cached })
        },
        !compactable(branches as nat, old(self).view().len(), config.rows_to_discard as nat) ==> r is Err && *final(self) == *old(self),
//% hint start
    let ghost b = branches as nat;
    let ghost l = E::blen() as int;
    let ghost v = self.view();
    let ghost m = self.len as nat;
    let ghost d = config.rows_to_discard as nat;
    let ghost f0 = self.file.view();
    proof { E::el_ax(); }
//% hint let leafs
    let ghost k0 = choose|k: nat| tlen(b, k) == m && leafs == #[trigger] bpow(b, k) && good_arity(b);
    let ghost c0 = tlen(b, (k0 - 1 - d) as nat);
    proof {
        lemma_tlen_pos(b, k0);
        assert(leafs <= m);
        assert(leafs * l <= m * l) by(nonlinear_arith) requires leafs <= m, l > 0;
        assert(leafs * branches <= m * branches) by(nonlinear_arith) requires leafs <= m, branches > 0;
        assert(m <= m * l) by(nonlinear_arith) requires m >= 0, l >= 1;
        assert forall|k: nat| #![trigger tlen(b, k)] tlen(b, k) == m implies k == k0 by { if k < k0 { lemma_tlen_mono(b, k, k0); } else if k0 < k { lemma_tlen_mono(b, k0, k); } }
        if d < k0 {
            let j = (k0 - 1 - d) as nat;
            lemma_tlen_mono(b, j, k0);
            lemma_tlen_pos(b, j);
            assert(c0 + leafs <= m);
            assert(c0 * l < m * l && c0 * l >= 1 && c0 * l + leafs * l <= m * l) by(nonlinear_arith) requires c0 + leafs <= m, c0 < m, l > 0, c0 >= 1;
        }
    }
//% hint let metadata
    proof {
        let n = leafs as int;
        assert((n + c0) * l == n * l + c0 * l) by(nonlinear_arith);
        lemma_div_by_multiple(n + c0, l); lemma_div_by_multiple(c0 as int, l);
    }
//% hint ret
    proof {
        let f2 = self.file.view();
        let n = leafs as int;
        let cs = (m - c0) * l;
        assert(m * l - c0 * l == cs) by(nonlinear_arith) requires cs == (m - c0) * l;
        let t = f0.subrange(cs, m * l);
        assert(t.len() == c0 * l);
        assert((n + c0) * l == n * l + c0 * l) by(nonlinear_arith);
        lemma_div_by_multiple(n + c0, l); lemma_div_by_multiple(c0 as int, l); lemma_div_by_multiple(m as int, l);
        let w: int = if v1 { n + c0 } else { c0 as int };
        assert(f2.len() == w * l && self.len == w);
        let want = if v1 { v.subrange(0, n) + v.subrange(m - c0, m as int) } else { v.subrange(m - c0, m as int) };
        assert(f2 =~= (if v1 { f0.subrange(0, n * l) + t } else { t }));
        assert forall|i: int| 0 <= i < w implies #[trigger] self.view()[i] == want[i] by {
            assert(0 <= i * l && i * l + l <= w * l) by(nonlinear_arith) requires 0 <= i < w, l > 0;
            if v1 && i < n {
                assert(i * l + l <= n * l) by(nonlinear_arith) requires 0 <= i < n, l > 0;
                assert(f2.subrange(i * l, i * l + l) =~= f0.subrange(i * l, i * l + l));
            } else {
                let i2 = if v1 { i - n } else { i };
                assert(0 <= i2 < c0);
                assert(0 <= i2 * l && i2 * l + l <= c0 * l) by(nonlinear_arith) requires 0 <= i2 < c0, l > 0;
                assert(v1 ==> i * l == n * l + i2 * l) by { if v1 { assert(i * l == n * l + i2 * l) by(nonlinear_arith) requires i == n + i2; } }
                assert((m - c0 + i2) * l == cs + i2 * l) by(nonlinear_arith) requires cs == (m - c0) * l;
                assert(f2.subrange(i * l, i * l + l) =~= f0.subrange((m - c0 + i2) * l, (m - c0 + i2) * l + l));
            }
        }
        assert(self.view() =~= want);
    }
//% end
//% fn src/store/disk.rs Store for DiskStore::process_layer
//% spec
    requires old(self).wf(), good_arity(U::n()), U::n() <= 0x4000_0000, width >= 1, read_start + width <= write_start, write_start == old(self).view().len(), (write_start + width) * E::blen() <= MAXB,
        write_start + width as int / U::n() as int <= old(self).cap(),
    ensures final(self).wf(), *final(self) == (DiskStore { file: final(self).file, ..*old(self) }), final(self).view() == old(self).view(),
        (write_start + width as int / U::n() as int) * E::blen() <= final(self).file.view().len(),
        r is Ok ==> row_added::<E, A>(old(self).view(), slots::<E>(final(self).file.view(), (write_start + width as int / U::n() as int) as nat), read_start as int, write_start as int, width as int, U::n() as int, level as nat),
        old(self).good() && U::n() <= 4096 && width as int % U::n() as int == 0 ==> r is Ok && final(self).good(),
//% hint start
    let ghost b = U::n() as int;
    let ghost v0 = self.view();
    let ghost cs = BUILD_CHUNK_NODES as int;
    let ghost rs = read_start as int;
    let ghost ws = write_start as int;
    let ghost wd = width as int;
    let ghost l = E::blen() as int;
    let ghost t = (ws + wd / b) as nat;
    let ghost q = cs / b;
    let ghost good0 = self.good() && b <= 4096 && wd % b == 0;
    proof {
        E::el_ax();
        assert(wd / b <= wd && wd / b >= 0) by(nonlinear_arith) requires b >= 2, wd >= 0;
        assert(ws + wd <= (ws + wd) * l) by(nonlinear_arith) requires l >= 1, ws + wd >= 0;
        assert((ws + wd / b) * l <= (ws + wd) * l) by(nonlinear_arith) requires l >= 1, wd / b <= wd;
        lemma2_to64(); assert(is_p2(4096)) by { assert(4096nat == pow2(12)); }
        let s0 = lemma_arity(b as nat);
        lemma_fundamental_div_mod(4096, b);
        assert(0 <= q <= 4096 && q * l <= 4096 * l && (q >= 1 ==> q * l >= 1)) by(nonlinear_arith) requires q == 4096int / b, b >= 2, l > 0;
        if cs % b == 0 { assert(4096 == b * q); assert(q >= 1) by(nonlinear_arith) requires 4096 == b * q, b >= 2; }
        if b <= 4096 { lemma_p2_div(4096, b as nat); }
        lemma_fundamental_div_mod(self.store_size as int, l); lemma_mod_bound(self.store_size as int, l);
        assert((ws + wd / b) * l <= self.store_size) by(nonlinear_arith) requires ws + wd / b <= self.store_size as int / l, self.store_size == l * (self.store_size as int / l) + self.store_size as int % l, self.store_size as int % l >= 0, l > 0;
        assert(ws * l <= (ws + wd) * l && wd * l <= (ws + wd) * l && ws * l + wd * l == (ws + wd) * l) by(nonlinear_arith) requires l >= 1, wd >= 1, ws >= 0;
        assert(wd * l >= 1) by(nonlinear_arith) requires l >= 1, wd >= 1;
    }
//% hint let shift
    proof { let s0 = lemma_arity(b as nat); lemma_shr(BUILD_CHUNK_NODES, shift); }
//% hint loop 0 before
    proof {
        let n = dceil(wd, cs);
        assert(n >= 1) by(nonlinear_arith) requires n == (if wd % cs == 0 { wd / cs } else { wd / cs + 1 }), wd >= 1, cs > 0;
        lemma_part::<E>(ws, wd, b, cs, q, n - 1, l);
    }
//% loop 0
    invariant
        b == U::n(), b == branches, b >= 2, cs == BUILD_CHUNK_NODES, cs % b == 0, cs > 0, rs == read_start, ws == write_start, wd == width, l == E::blen(), 0 < l <= 0x1_0000_0000, rs + wd <= ws, ws == v0.len(), wd >= 1,
        v0 == old(self).view(), t == ws + wd / b, q == cs / b, t * l <= self.file.view().len(), ws + wd <= MAXB, (ws + wd) * l <= MAXB, (ws + wd / b) * l <= MAXB, 0 <= wd / b <= wd,
        vx_a0 == rs, vx_e0 == rs + wd, vx_c0 == cs, vx_n0 == dceil(wd, cs), is_perm(vx_p0@, vx_n0 as int), vx_i0 <= vx_n0,
        self.wf(), *self == (DiskStore { file: self.file, ..*old(self) }), self.view() == v0,
        vx_z0.at == ws * l, vx_z0.n == wd * l, vx_w0 == q * l, vx_w0 > 0, vx_n0 <= dceil(wd * l, q * l), vx_z0.at + vx_z0.n <= MAXB,
        forall|j: int| 0 <= j < vx_i0 ==> chunk_done::<E, A>(v0, slots::<E>(self.file.view(), t), rs, ws, wd, cs, b, level as nat, #[trigger] vx_p0@[j] as int),
        good0 == (old(self).good() && b <= 4096 && wd % b == 0), good0 ==> self.good(),
    decreases vx_n0 - vx_i0
//% hint loop 0 start
    let ghost c = vx_p0@[vx_i0 - 1] as int;
    let ghost f0 = self.file.view();
    let ghost v1 = slots::<E>(f0, t);
    let ghost z = csize(wd, cs, c);
    let ghost row = v0.subrange(rs + c * cs, rs + c * cs + z);
    let ghost mut els: Seq<E> = Seq::empty();
    proof {
        lemma_chunk_arith(wd, cs, b, c);
        lemma_part::<E>(ws, wd, b, cs, q, c, l);
    }
//% hint let chunk_nodes
    proof {
        assert(chunk_nodes@ =~= row);
        assert(z / b <= z && z / b >= 0) by(nonlinear_arith) requires z >= 0, b >= 2;
        assert((z / b) * l <= (ws + wd) * l) by(nonlinear_arith) requires z / b <= ws + wd, l >= 1;
        assert(dceil(z, b) * l <= (ws + wd) * l) by(nonlinear_arith) requires dceil(z, b) <= ws + wd, l >= 1;
        assert((ws + c * q) * l + (z / b) * l <= (ws + wd / b) * l) by(nonlinear_arith) requires c * q + z / b <= wd / b, l >= 1;
    }
//% loop 1
    invariant
        vx_c1 == b, b >= 2, vx_s1@ == chunk_nodes@, vx_n1 == dceil(chunk_nodes@.len() as int, b), vx_i1 <= vx_n1, l == E::blen(), vx_n1 * l < 0x7000_0000_0000_0000,
        vx_acc1@.len() == vx_i1 * l, decode::<E>(vx_acc1@).len() == vx_i1,
        forall|j: int| 0 <= j < vx_i1 ==> #[trigger] decode::<E>(vx_acc1@)[j] == A::nh(chunk_of(chunk_nodes@, j, b), level as nat),
    decreases vx_n1 - vx_i1
//% hint loop 1 before
    proof { assert(Seq::<u8>::empty().len() == 0 * l); E::el_ax(); assert(0int / l == 0) by(nonlinear_arith) requires l > 0; }
//% hint loop 1 start
    let ghost acc0 = vx_acc1@;
//% hint loop 1 end
    proof {
        let e = A::nh(chunk_of(chunk_nodes@, vx_i1 - 1, b), level as nat);
        lemma_decode_push::<E>(acc0, e, vx_i1 - 1);
        assert(vx_acc1@ =~= acc0 + e.bytes());
    }
//% hint pre vx_write
    proof {
        assert(dceil(z, b) * l == (z / b) * l);
        assert(dceil(z, b) == z / b) by(nonlinear_arith) requires dceil(z, b) * l == (z / b) * l, l > 0;
        lemma_div_by_multiple(z / b, l);
        lemma_mod_multiples_basic(z / b, l);
        els = decode::<E>(hashed_nodes_as_bytes@);
        assert(els.len() == z / b);
        assert((ws + c * q) * l == ws * l + c * (q * l)) by(nonlinear_arith);
        assert((ws + c * q) * l + (z / b) * l <= t * l) by(nonlinear_arith) requires ws + c * q + z / b <= t, l >= 1;
        lemma_splice_slots::<E>(f0, hashed_nodes_as_bytes@, ws + c * q, t, t);
        assert(c * vx_w0 + (z / b) * l <= wd * l && (z / b) * l <= q * l);
    }
//% hint loop 0 end
    proof {
        let w = slots::<E>(self.file.view(), t);
        assert(upd(v1, w, ws + c * q, els));
        assert forall|j: int| 0 <= j < vx_i0 implies chunk_done::<E, A>(v0, w, rs, ws, wd, cs, b, level as nat, #[trigger] vx_p0@[j] as int) by {
            if j < vx_i0 - 1 { lemma_chunk_frame::<E, A>(v0, v1, w, rs, ws, wd, cs, b, level as nat, vx_p0@[j] as int, c, els); }
            else {
                assert forall|i: int| 0 <= i < z / b implies #[trigger] w[ws + c * q + i] == A::nh(v0.subrange(rs + c * cs + i * b, rs + c * cs + i * b + b), level as nat) by {
                    lemma_upd_els(v1, w, ws + c * q, els, ws + c * q + i);
                    assert(i * b + b <= z && i * b >= 0) by(nonlinear_arith) requires 0 <= i < z / b, b > 0;
                    assert((i + 1) * b == i * b + b) by(nonlinear_arith);
                    assert(chunk_of(row, i, b) =~= v0.subrange(rs + c * cs + i * b, rs + c * cs + i * b + b));
                }
            }
        }
        assert forall|i: int| 0 <= i < v0.len() implies #[trigger] self.view()[i] == v0[i] by { assert(w[i] == v1[i]); assert(slots::<E>(f0, old(self).len as nat)[i] == v1[i]); assert(self.view()[i] == w[i]); }
        assert(self.view() =~= v0);
    }
//% hint loop 0 after
    proof {
        assert forall|c: int| 0 <= c < dceil(wd, cs) implies #[trigger] chunk_done::<E, A>(v0, slots::<E>(self.file.view(), t), rs, ws, wd, cs, b, level as nat, c) by { assert(perm_has(vx_p0@, c)); }
        lemma_chunks_all::<E, A>(v0, slots::<E>(self.file.view(), t), rs, ws, wd, cs, b, level as nat);
    }
//% end
}
} // verus!
