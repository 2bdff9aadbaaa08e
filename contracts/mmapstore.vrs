verus! {
//% item src/store/mmap.rs struct MmapStore
impl<E: Element> Store<E> for MmapStore<E> {
    open spec fn env_ok() -> bool { rw_files() }
    closed spec fn view(&self) -> Seq<E> { slots::<E>(self.content(), self.len as nat) }
    closed spec fn wf(&self) -> bool { self.len * E::blen() <= self.content().len() <= MAXB && (self.map is Some ==> self.map->0@.len() == self.file.view().len()) }
    closed spec fn good(&self) -> bool { self.file.io_ok() && self.map is Some }
    open spec fn reliable() -> bool { tmp_ok() }
    closed spec fn cap(&self) -> nat { (self.content().len() as int / E::blen() as int) as nat }
    open spec fn avail(&self, lo: int, hi: int) -> bool { true }
    open spec fn holds(&self, lo: int, hi: int) -> bool { true }
    open spec fn at_config(&self, n: nat, b: nat, file: PathBuf, d: nat) -> bool { true }
    closed spec fn loaded(&self) -> bool { false }
    open spec fn keeps_all() -> bool { true }
    open spec fn checked() -> bool { true }
    open spec fn has_range_into() -> bool { false }
    proof fn avail_ax(&self) { }
    proof fn wf_ax(&self) { }
//% fn src/store/mmap.rs Store for MmapStore::new_with_config
//% spec
    ensures r is Ok && on_disk(config.file()) ==> disk(config.file()).len() == size * E::blen() && r->Ok_0.view() == slots::<E>(disk(config.file()), size as nat),
        r is Ok && !on_disk(config.file()) ==> r->Ok_0.view().len() == 0,
        r is Ok ==> r->Ok_0.map is Some && r->Ok_0.content().len() == size * E::blen(),
        on_disk(config.file()) && disk(config.file()).len() != size * E::blen() ==> r is Err,
//% hint start
    proof { E::el_ax(); lemma_mul_is_commutative(E::blen() as int, size as int); lemma_div_by_multiple(size as int, E::blen() as int); }
//% end
//% fn src/store/mmap.rs Store for MmapStore::new
//% spec
    ensures r is Ok ==> r->Ok_0.map is Some && r->Ok_0.content().len() == size * E::blen(),
//% hint start
    proof { E::el_ax(); lemma_mul_is_commutative(E::blen() as int, size as int); lemma_div_by_multiple(size as int, E::blen() as int);
        if size >= 1 { assert(size * E::blen() >= 1) by(nonlinear_arith) requires size >= 1, E::blen() >= 1; } }
//% end
//% fn src/store/mmap.rs Store for MmapStore::new_from_slice_with_config
//% spec
    ensures r is Ok ==> r->Ok_0.view() == decode::<E>(data@),
        on_disk(config.file()) && disk(config.file()).len() != size * E::blen() ==> r is Err,
//% hint start
    proof {
        E::el_ax();
        let n = data@.len() as int; let l = E::blen() as int;
        lemma_fundamental_div_mod(n, l);
        assert(n / l * l <= n) by(nonlinear_arith) requires n == l * (n / l) + n % l, n % l >= 0;
        lemma_div_by_multiple(size as int, l);
        assert(n / l * l <= size * l) by(nonlinear_arith) requires n / l <= size, l > 0;
        assert(n / l * l == l * (n / l)) by(nonlinear_arith);
        lemma_mod_bound(n, l);
    }
//% hint let store
    let ghost b0 = store.content();
    proof {
        assert(0 * E::blen() == 0);
        if data@.len() <= b0.len() && data@.len() % E::blen() == 0 {
            let m = (data@.len() as int / E::blen() as int) as nat;
            lemma_splice_slots::<E>(b0, data@, 0, 0, m);
            assert(decode::<E>(data@) =~= slots::<E>(splice(b0, 0, data@), m)) by {
                let els = decode::<E>(data@); let f = slots::<E>(splice(b0, 0, data@), m);
                assert forall|i: int| 0 <= i < els.len() implies els[i] == f[i] by { assert(els[i] == f[0 + i]); }
            }
        }
    }
//% end
//% fn src/store/mmap.rs Store for MmapStore::new_from_slice
//% hint start
    proof {
        E::el_ax();
        let n = data@.len() as int; let l = E::blen() as int;
        lemma_fundamental_div_mod(n, l);
        assert(n / l * l <= n) by(nonlinear_arith) requires n == l * (n / l) + n % l, n % l >= 0;
        lemma_div_by_multiple(size as int, l);
        assert(n / l * l <= size * l) by(nonlinear_arith) requires n / l <= size, l > 0;
        assert(n / l * l == l * (n / l)) by(nonlinear_arith);
        lemma_mod_bound(n, l);
    }
//% hint let store
    let ghost b0 = store.content();
    proof {
        assert(0 * E::blen() == 0);
        if data@.len() <= b0.len() && data@.len() % E::blen() == 0 {
            let m = (data@.len() as int / E::blen() as int) as nat;
            lemma_splice_slots::<E>(b0, data@, 0, 0, m);
            assert(decode::<E>(data@) =~= slots::<E>(splice(b0, 0, data@), m)) by {
                let els = decode::<E>(data@); let f = slots::<E>(splice(b0, 0, data@), m);
                assert forall|i: int| 0 <= i < els.len() implies els[i] == f[i] by { assert(els[i] == f[0 + i]); }
            }
        }
    }
//% end
//% fn src/store/mmap.rs Store for MmapStore::write_at
//% hint start
    proof {
        E::el_ax();
        let l = E::blen() as int;
        assert(index <= index * l) by(nonlinear_arith) requires index >= 0, l >= 1;
        assert((index + 1) * l == index * l + l) by(nonlinear_arith);
        if index < self.cap() { lemma_fundamental_div_mod(self.content().len() as int, l); lemma_mod_bound(self.content().len() as int, l); assert((index + 1) * l <= self.content().len()) by(nonlinear_arith) requires index + 1 <= self.content().len() as int / l, self.content().len() == l * (self.content().len() as int / l) + self.content().len() as int % l, self.content().len() as int % l >= 0, l > 0; }
        else { if (index + 1) * l <= self.content().len() { lemma_div_is_ordered((index + 1) * l, self.content().len() as int, l); lemma_div_by_multiple(index + 1, l); } }
        let d = el.bytes();
        assert(d.len() as int == 1 * l); lemma_div_by_multiple(1, l); lemma_mod_multiples_basic(1, l);
        if (index + 1) * l <= self.content().len() { lemma_splice_slots::<E>(self.content(), d, index as int, self.len as nat, (if self.len >= index + 1 { self.len as nat } else { (index + 1) as nat })); }
        assert(d.subrange(0, l) =~= d);
        assert(decode::<E>(d) =~= seq![el]);
    }
//% end
//% fn src/store/mmap.rs Store for MmapStore::copy_from_slice
//% hint start
    proof {
        E::el_ax();
        let l = E::blen() as int; let n = buf@.len() as int; let c = n / l;
        assert(start <= start * l) by(nonlinear_arith) requires start >= 0, l >= 1;
        lemma_fundamental_div_mod(n, l);
        assert(c <= n && c >= 0) by(nonlinear_arith) requires n >= 0, l >= 1, c == n / l;
        if n % l == 0 {
            assert((start + c) * l == start * l + n) by(nonlinear_arith) requires n == l * c;
            if start + c <= self.cap() { lemma_fundamental_div_mod(self.content().len() as int, l); lemma_mod_bound(self.content().len() as int, l); assert((start + c) * l <= self.content().len()) by(nonlinear_arith) requires start + c <= self.content().len() as int / l, self.content().len() == l * (self.content().len() as int / l) + self.content().len() as int % l, self.content().len() as int % l >= 0, l > 0; }
            if (start + c) * l <= self.content().len() { lemma_splice_slots::<E>(self.content(), buf@, start as int, self.len as nat, (if self.len >= start + c { self.len as nat } else { (start + c) as nat })); }
        }
    }
//% end
//% fn src/store/mmap.rs Store for MmapStore::read_at
//% hint start
    proof {
        E::el_ax();
        let l = E::blen() as int; let m = self.len as int;
        assert(index <= index * l) by(nonlinear_arith) requires index >= 0, l >= 1;
        assert((index + 1) * l == index * l + l) by(nonlinear_arith);
        if index < m { assert((index + 1) * l <= m * l) by(nonlinear_arith) requires index + 1 <= m, l > 0; }
        else { assert(index * l >= m * l) by(nonlinear_arith) requires index >= m, l > 0; }
    }
//% end
//% fn src/store/mmap.rs Store for MmapStore::read_into
//% hint start
    proof {
        E::el_ax();
        let l = E::blen() as int; let m = self.len as int;
        assert(index <= index * l) by(nonlinear_arith) requires index >= 0, l >= 1;
        assert((index + 1) * l == index * l + l) by(nonlinear_arith);
        if index < m { assert((index + 1) * l <= m * l) by(nonlinear_arith) requires index + 1 <= m, l > 0; }
        else { assert(index * l >= m * l) by(nonlinear_arith) requires index >= m, l > 0; }
    }
//% end
//% fn src/store/mmap.rs Store for MmapStore::read_range_into
//% end
//% fn src/store/mmap.rs Store for MmapStore::read_range
//% ret res
//% hint start
    proof {
        E::el_ax();
        let l = E::blen() as int; let m = self.len as int;
        assert(r.start * l <= r.end * l && r.start * l >= 0) by(nonlinear_arith) requires 0 <= r.start <= r.end, l >= 1;
        assert(r.end * l - r.start * l == (r.end - r.start) * l) by(nonlinear_arith);
        if r.end <= m { assert(r.end * l <= m * l) by(nonlinear_arith) requires r.end <= m, l > 0; lemma_slots_part::<E>(self.content(), self.content().subrange(r.start * l, r.end * l), r.start as int, r.end as int, m as nat); }
        else { assert(r.end * l > m * l) by(nonlinear_arith) requires r.end > m, l > 0; }
        if r.start < r.end && r.end <= m { assert(r.start * l < m * l) by(nonlinear_arith) requires r.start < m, l > 0; }
        if r.start >= m { assert(r.start * l >= m * l) by(nonlinear_arith) requires r.start >= m, l > 0; }
    }
//% loop 0
    invariant
        vx_c0 == E::blen(), E::blen() > 0, vx_n0 == (r.end - r.start), vx_i0 <= vx_n0, vx_out0@.len() == vx_i0, vx_s0@.len() == vx_n0 * E::blen(), vx_n0 == vx_s0@.len() as int / E::blen() as int, vx_n0 == dceil(vx_s0@.len() as int, E::blen() as int),
        forall|j: int| 0 <= j < vx_i0 ==> #[trigger] vx_out0@[j] == E::of(vx_s0@.subrange(j * E::blen(), j * E::blen() + E::blen())),
        forall|j: int| 0 <= j < vx_n0 ==> chunk_of(vx_s0@, j, E::blen() as int).len() == E::blen() && #[trigger] chunk_of(vx_s0@, j, E::blen() as int) == vx_s0@.subrange(j * E::blen(), j * E::blen() + E::blen()),
    decreases vx_n0 - vx_i0
//% hint loop 0 before
    proof {
        assert forall|j: int| 0 <= j < vx_n0 implies chunk_of(vx_s0@, j, E::blen() as int).len() == E::blen() && #[trigger] chunk_of(vx_s0@, j, E::blen() as int) == vx_s0@.subrange(j * E::blen(), j * E::blen() + E::blen()) by { lemma_chunk_exact(vx_s0@, j, E::blen() as int); }
    }
//% hint loop 0 after
    proof { assert(vx_out0@ =~= decode::<E>(vx_s0@)); }
//% end
//% fn src/store/mmap.rs Store for MmapStore::len
//% end
//% fn src/store/mmap.rs Store for MmapStore::loaded_from_disk
//% end
//% fn src/store/mmap.rs Store for MmapStore::is_empty
//% end
//% fn src/store/mmap.rs Store for MmapStore::push
//% hint start
    proof { E::el_ax(); lemma_upd_push::<E>(self.view(), el); let l = E::blen() as int; assert(self.len <= self.len * l) by(nonlinear_arith) requires self.len >= 0, l >= 1; assert((self.len + 1) * l == self.len * l + l) by(nonlinear_arith);
        if self.len < self.cap() { lemma_fundamental_div_mod(self.content().len() as int, l); lemma_mod_bound(self.content().len() as int, l); assert((self.len + 1) * l <= self.content().len()) by(nonlinear_arith) requires self.len + 1 <= self.content().len() as int / l, self.content().len() == l * (self.content().len() as int / l) + self.content().len() as int % l, self.content().len() as int % l >= 0, l > 0; } }
//% end
//% fn src/store/mod.rs trait Store::sync
//% end
//% include storebuild.vrs
}
impl<E: Element> MmapStore<E> {
//% include storebuild_inner.vrs
    /// the bytes of the store
    pub closed spec fn content(&self) -> Seq<u8> { if self.map is Some { self.map->0@ } else { self.file.view() } }
//% fn src/store/mmap.rs Store for MmapStore::new_from_disk
//% spec
    requires size * E::blen() <= MAXB, Self::env_ok()
    ensures r is Ok ==> on_disk(config.file()) && disk(config.file()).len() == size * E::blen() && r->Ok_0.wf() && r->Ok_0.cap() == size && r->Ok_0.view() == slots::<E>(disk(config.file()), size as nat)
            && r->Ok_0.map is Some && r->Ok_0.content() == disk(config.file()),
        !on_disk(config.file()) || disk(config.file()).len() != size * E::blen() ==> r is Err,
//% hint start
    proof { E::el_ax(); lemma_mul_is_commutative(E::blen() as int, size as int); lemma_div_by_multiple(size as int, E::blen() as int); }
//% end
//% fn src/store/mmap.rs Store for MmapStore::reinit
//% spec
    requires old(self).wf()
    ensures final(self).wf(), final(self).content() == old(self).content(), final(self).len == old(self).len, final(self).file == old(self).file, r is Ok ==> final(self).map is Some,
//% end
//% fn src/store/mmap.rs Store for MmapStore::compact
//% spec
    requires old(self).wf()
    ensures final(self).wf(), final(self).content() == old(self).content(), final(self).view() == old(self).view(), r is Ok
//% end
}
} // verus!
