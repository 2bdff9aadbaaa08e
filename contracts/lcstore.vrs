verus! {
//% item src/store/level_cache.rs struct LevelCacheStore
pub open spec fn least(a: int, b: int) -> int { if a < b { a } else { b } }
/// n bytes from at on, if they are there
pub open spec fn cut(b: Seq<u8>, at: int, n: int) -> Seq<u8> { if 0 <= at && at + n <= b.len() { b.subrange(at, at + n) } else { Seq::empty() } }
impl<E: Element, R: Read> LevelCacheStore<E, R> {
    /// where the base row ends (in bytes)
    pub open spec fn base_end(&self) -> int { self.data_width * E::blen() }
    /// the file has the base row in front of the cached rows
    pub open spec fn has_base(&self) -> bool { self.store_size >= self.base_end() }
    /// where in the file the bytes at s of the tree are
    pub open spec fn at(&self, s: int) -> int { if s >= self.cache_index_start { s - self.cache_index_start + (if self.has_base() { self.base_end() } else { 0 }) } else { s } }
    /// the bytes of element i: in the reader if there is one and i is in the base row, else in the file
    pub open spec fn raw(&self, i: int) -> Seq<u8> {
        let (s, l) = (i * E::blen(), E::blen() as int);
        if s < self.base_end() {
            if self.reader is Some { cut(self.reader->0.source.bytes(), self.reader->0.offset + s, l) } else { cut(self.file.view(), s, l) }
        } else { cut(self.file.view(), self.at(s), l) }
    }
    /// the range is in the base row, or in the cached rows
    pub open spec fn ira(&self, s: int, e: int) -> bool {
        if s < self.base_end() && self.reader is None && !self.has_base() { false }
        else { s >= self.cache_index_start || e <= self.base_end() || (self.cache_index_start == self.base_end() && self.reader is None) }
    }
    pub open spec fn from_reader(&self, s: int) -> bool { s < self.base_end() && self.reader is Some }
    pub open spec fn backed(&self, s: int, e: int) -> bool {
        s == e || (if self.from_reader(s) { e + self.reader->0.offset <= self.reader->0.source.bytes().len() } else { self.at(s) + (e - s) <= self.file.view().len() })
    }
    /// the bytes of the range
    pub open spec fn range(&self, s: int, e: int) -> Seq<u8> {
        if self.from_reader(s) { self.reader->0.source.bytes().subrange(s + self.reader->0.offset, e + self.reader->0.offset) }
        else { self.file.view().subrange(self.at(s), self.at(s) + (e - s)) }
    }
    pub open spec fn shaped(&self) -> bool {
        &&& self.elem_len == E::blen() && self.store_size == self.file.view().len() && self.len * E::blen() <= MAXB
        &&& self.base_end() <= MAXB && self.cache_index_start <= MAXB
        &&& (self.reader is Some ==> self.reader->0.offset + self.base_end() <= usize::MAX)
        &&& (self.cache_index_start >= self.base_end() || (self.store_size <= self.base_end() && self.len <= self.data_width))
    }
    pub open spec fn io(&self) -> bool { self.file.io_ok() && (self.reader is Some ==> self.reader->0.read_fn.ok() && self.reader->0.source.rd_ok()) }
    /// the bytes of an available range are the elements
    pub proof fn lemma_read(&self, lo: int, hi: int)
        requires self.shaped(), 0 <= lo < hi <= self.len, self.ira(lo * E::blen(), hi * E::blen()), self.backed(lo * E::blen(), hi * E::blen())
        ensures decode::<E>(self.range(lo * E::blen(), hi * E::blen())) == Seq::new((hi - lo) as nat, |i: int| E::of(self.raw(lo + i))),
            self.range(lo * E::blen(), hi * E::blen()).len() == (hi - lo) * E::blen(), (hi - lo) * E::blen() == hi * E::blen() - lo * E::blen(),
            (hi - lo) * E::blen() > 0, lo * E::blen() >= 0,
            self.from_reader(lo * E::blen()) ==> hi * E::blen() <= self.base_end(),
    {
        E::el_ax();
        let l = E::blen() as int; let n = hi - lo; let (s, e) = (lo * l, hi * l);
        let dw = self.data_width as int;
        assert(n * l == e - s && s >= 0 && n * l > 0) by(nonlinear_arith) requires n == hi - lo, s == lo * l, e == hi * l, l > 0, lo >= 0, n > 0;
        assert(lo < dw ==> s < dw * l) by(nonlinear_arith) requires s == lo * l, l > 0;
        assert(hi <= dw ==> e <= dw * l) by(nonlinear_arith) requires e == hi * l, l > 0;
        assert(lo >= dw ==> s >= dw * l) by(nonlinear_arith) requires s == lo * l, l > 0;
        let d = self.range(s, e);
        lemma_div_by_multiple(n, l);
        let w = Seq::new(n as nat, |i: int| E::of(self.raw(lo + i)));
        assert(d.len() == n * l);
        assert forall|i: int| 0 <= i < n implies #[trigger] decode::<E>(d)[i] == w[i] by {
            assert(0 <= i * l && i * l + l <= n * l) by(nonlinear_arith) requires 0 <= i < n, l > 0;
            assert((lo + i) * l == s + i * l) by(nonlinear_arith) requires s == lo * l;
            let x = (lo + i) * l;
            assert(d.subrange(i * l, i * l + l) =~= self.raw(lo + i));
        }
        assert(decode::<E>(d) =~= w);
    }
    /// what a write into a base row kept in the file does
    pub proof fn lemma_write(&self, f: &Self, at: int, d: Seq<u8>, len: int)
        requires self.shaped(), self.has_base(), self.reader is None, 0 <= at, d.len() % E::blen() == 0, at + d.len() as int / E::blen() as int <= self.data_width,
            f.file.view() == splice(self.file.view(), at * E::blen(), d),
            f.len == len, len == (if self.len >= at + d.len() as int / E::blen() as int { self.len as int } else { at + d.len() as int / E::blen() as int }),
            f.reader == self.reader, f.data_width == self.data_width, f.cache_index_start == self.cache_index_start, f.store_size == self.store_size,
        ensures upd(Seq::new(self.len as nat, |i: int| E::of(self.raw(i))), Seq::new(f.len as nat, |i: int| E::of(f.raw(i))), at, decode::<E>(d)), at * E::blen() + d.len() <= self.base_end(), at * E::blen() >= 0,
    {
        E::el_ax();
        let l = E::blen() as int; let dw = self.data_width as int;
        let c = d.len() as int / l;
        let b = self.file.view();
        let g = f.file.view();
        lemma_fundamental_div_mod(d.len() as int, l);
        assert(d.len() == c * l) by(nonlinear_arith) requires d.len() == l * c;
        assert((at + c) * l == at * l + c * l) by(nonlinear_arith);
        assert(at * l >= 0) by(nonlinear_arith) requires at >= 0, l > 0;
        assert((at + c) * l <= dw * l) by(nonlinear_arith) requires at + c <= dw, l > 0;
        assert(g.len() == b.len());
        let vo = Seq::new(self.len as nat, |i: int| E::of(self.raw(i)));
        let vn = Seq::new(f.len as nat, |i: int| E::of(f.raw(i)));
        assert forall|i: int| 0 <= i < c implies #[trigger] decode::<E>(d)[i] == vn[at + i] by {
            assert(0 <= i * l && i * l + l <= c * l) by(nonlinear_arith) requires 0 <= i < c, l > 0;
            assert((at + i) * l == at * l + i * l) by(nonlinear_arith);
            assert(g.subrange((at + i) * l, (at + i) * l + l) =~= d.subrange(i * l, i * l + l));
        }
        assert forall|i: int| 0 <= i < self.len && !(at <= i < at + c) implies #[trigger] vn[i] == vo[i] by {
            let x = i * l;
            assert(0 <= x) by(nonlinear_arith) requires 0 <= i, l > 0, x == i * l;
            if i < at { assert(x + l <= at * l) by(nonlinear_arith) requires i < at, l > 0, x == i * l; }
            else { assert(x >= (at + c) * l) by(nonlinear_arith) requires i >= at + c, l > 0, x == i * l; }
            if x < self.base_end() {
                if x + l <= b.len() { assert(g.subrange(x, x + l) =~= b.subrange(x, x + l)); }
            } else {
                let y = self.at(x);
                assert(y >= self.base_end());
                if y + l <= b.len() { assert(g.subrange(y, y + l) =~= b.subrange(y, y + l)); }
            }
            assert(f.raw(i) == self.raw(i));
        }
    }
}
impl<E: Element, R: Read> Store<E> for LevelCacheStore<E, R> {
    closed spec fn view(&self) -> Seq<E> { Seq::new(self.len as nat, |i: int| E::of(self.raw(i))) }
    closed spec fn wf(&self) -> bool { self.shaped() }
    closed spec fn good(&self) -> bool { self.io() }
    open spec fn env_ok() -> bool { true }
    open spec fn reliable() -> bool { tmp_ok() }
    closed spec fn cap(&self) -> nat { (self.store_size as int / E::blen() as int) as nat }
    closed spec fn avail(&self, lo: int, hi: int) -> bool { self.ira(lo * E::blen(), hi * E::blen()) && self.backed(lo * E::blen(), hi * E::blen()) }
    closed spec fn holds(&self, lo: int, hi: int) -> bool { self.reader is None && self.has_base() && 0 <= lo && hi <= self.data_width }
    closed spec fn loaded(&self) -> bool { self.loaded_from_disk }
    open spec fn keeps_all() -> bool { false }
    open spec fn checked() -> bool { true }
    open spec fn has_range_into() -> bool { true }
    closed spec fn at_config(&self, n: nat, b: nat, file: PathBuf, d: nat) -> bool {
        let k = height(b, n);
        &&& shape(b, n, k) && d < k && n * b <= 0x8000_0000_0000_0000
        &&& self.file.ino() == disk_ino(file) && self.reader is None && self.data_width == n
        &&& self.store_size == tlen(b, k) * E::blen() && self.cache_index_start == (tlen(b, k) - tlen(b, (k - 1 - d) as nat)) * E::blen()
    }
    proof fn avail_ax(&self) { }
    proof fn wf_ax(&self) { }
//% fn src/store/level_cache.rs Store for LevelCacheStore::new_with_config
//% spec
    ensures r is Ok ==> r->Ok_0.loaded() == on_disk(config.file()) && (!r->Ok_0.loaded() ==> r->Ok_0.len == 0),
        r is Ok && r->Ok_0.loaded() ==> r->Ok_0.opened(disk(config.file()), size as int, branches as nat, config.rows_to_discard as nat),
        !compactable(branches as nat, size as nat, config.rows_to_discard as nat) ==> r is Err,
//% hint start
    proof { E::el_ax(); lemma_mul_is_commutative(E::blen() as int, size as int); lemma_div_by_multiple(size as int, E::blen() as int); }
//% hint let leafs
    proof { lemma_lc_sizes::<E>(branches as nat, size as nat, config.rows_to_discard as nat, leafs as int); }
//% hint let cache_size
    proof {
        let k = height(branches as nat, leafs as nat); let c = tlen(branches as nat, (k - 1 - config.rows_to_discard) as nat) as int; let l = E::blen() as int; let m = size as int;
        assert((m - c) * l == m * l - c * l) by(nonlinear_arith);
        assert(bpow(branches as nat, k) == leafs && tlen(branches as nat, k) == size);
    }
//% end
//% fn src/store/level_cache.rs Store for LevelCacheStore::new
//% hint start
    proof { E::el_ax(); lemma_mul_is_commutative(E::blen() as int, size as int); lemma_div_by_multiple(size as int, E::blen() as int); }
//% end
//% fn src/store/level_cache.rs Store for LevelCacheStore::new_from_slice_with_config
//% spec
    ensures r is Ok ==> r->Ok_0.loaded() == on_disk(config.file()),
        r is Ok && r->Ok_0.loaded() ==> r->Ok_0.opened(disk(config.file()), size as int, branches as nat, config.rows_to_discard as nat),
        !compactable(branches as nat, size as nat, config.rows_to_discard as nat) ==> r is Err,
//% hint start
    proof {
        E::el_ax();
        let n = data@.len() as int; let l = E::blen() as int;
        lemma_fundamental_div_mod(n, l);
        assert(n / l * l <= n) by(nonlinear_arith) requires n == l * (n / l) + n % l, n % l >= 0;
        lemma_div_by_multiple(size as int, l);
        assert(n / l * l <= size * l) by(nonlinear_arith) requires n / l <= size, l > 0;
        assert(n / l * l == l * (n / l)) by(nonlinear_arith);
        lemma_mod_bound(n, l);
    }
//% hint let store
    let ghost s0 = store;
    proof {
        assert(0 * E::blen() == 0);
        let z = s0.store_size as int; let l = E::blen() as int;
        lemma_fundamental_div_mod(z, l); lemma_mod_bound(z, l);
        if size <= s0.cap() { assert(size * l <= z) by(nonlinear_arith) requires size <= z / l, z == l * (z / l) + z % l, z % l >= 0, l > 0; }
    }
//% hint ret
    proof {
        let m = data@.len() as int / E::blen() as int;
        let dw = store.data_width as int; let l = E::blen() as int;
        if m * l <= dw * l { assert(m <= dw) by(nonlinear_arith) requires m * l <= dw * l, l > 0; }
        if base_fits(branches as nat, size as nat, m) && !store.loaded_from_disk {
            let k = choose|k: nat| #[trigger] tlen(branches as nat, k) == size && m <= bpow(branches as nat, k);
            assert(s0.holds(0, m));
        }
        if !store.loaded_from_disk && s0.holds(0, m) {
            s0.lemma_write(&store, 0, data@, m);
            assert(decode::<E>(data@) =~= store.view()) by {
                let els = decode::<E>(data@); let f = store.view();
                assert forall|i: int| 0 <= i < els.len() implies els[i] == f[i] by { assert(els[i] == f[0 + i]); }
            }
        }
    }
//% end
//% fn src/store/level_cache.rs Store for LevelCacheStore::new_from_slice
//% hint start
    proof {
        E::el_ax();
        let n = data@.len() as int; let l = E::blen() as int;
        lemma_fundamental_div_mod(n, l);
        assert(n / l * l <= n) by(nonlinear_arith) requires n == l * (n / l) + n % l, n % l >= 0;
        lemma_div_by_multiple(size as int, l);
        assert(n / l * l <= size * l) by(nonlinear_arith) requires n / l <= size, l > 0;
        assert(n / l * l == l * (n / l)) by(nonlinear_arith);
        lemma_mod_bound(n, l);
    }
//% hint let store
    let ghost s0 = store;
    proof {
        assert(0 * E::blen() == 0);
        let z = s0.store_size as int; let l = E::blen() as int;
        lemma_fundamental_div_mod(z, l); lemma_mod_bound(z, l);
        if size <= s0.cap() { assert(size * l <= z) by(nonlinear_arith) requires size <= z / l, z == l * (z / l) + z % l, z % l >= 0, l > 0; }
    }
//% hint ret
    proof {
        let m = data@.len() as int / E::blen() as int;
        let dw = store.data_width as int; let l = E::blen() as int;
        if m * l <= dw * l { assert(m <= dw) by(nonlinear_arith) requires m * l <= dw * l, l > 0; }
        if s0.holds(0, m) {
            s0.lemma_write(&store, 0, data@, m);
            assert(decode::<E>(data@) =~= store.view()) by {
                let els = decode::<E>(data@); let f = store.view();
                assert forall|i: int| 0 <= i < els.len() implies els[i] == f[i] by { assert(els[i] == f[0 + i]); }
            }
        }
    }
//% end
//% fn src/store/level_cache.rs Store for LevelCacheStore::write_at
//% hint start
    proof {
        E::el_ax();
        let l = E::blen() as int;
        assert(index <= index * l) by(nonlinear_arith) requires index >= 0, l >= 1;
        assert((index + 1) * l == index * l + l) by(nonlinear_arith);
        let z = self.store_size as int;
        lemma_fundamental_div_mod(z, l); lemma_mod_bound(z, l);
        if index < self.cap() { assert((index + 1) * l <= z) by(nonlinear_arith) requires index + 1 <= z / l, z == l * (z / l) + z % l, z % l >= 0, l > 0; }
        else if (index + 1) * l <= z { lemma_div_is_ordered((index + 1) * l, z, l); lemma_div_by_multiple(index + 1, l); }
        let dw = self.data_width as int;
        if (index + 1) * l <= z && z <= dw * l { assert(index + 1 <= dw) by(nonlinear_arith) requires (index + 1) * l <= dw * l, l > 0; }
        let d = el.bytes();
        assert(d.len() as int == 1 * l); lemma_div_by_multiple(1, l); lemma_mod_multiples_basic(1, l);
        assert(d.subrange(0, l) =~= d);
        assert(decode::<E>(d)[0] == el) by { assert(d.subrange(0 * l, 0 * l + l) =~= d) by { assert(0 * l == 0); } }
        assert(decode::<E>(d) =~= seq![el]);
    }
//% hint ret
    proof { if old(self).holds(index as int, index + 1) { old(self).lemma_write(self, index as int, el.bytes(), self.len as int); } }
//% end
//% fn src/store/level_cache.rs Store for LevelCacheStore::copy_from_slice
//% hint start
    proof {
        E::el_ax();
        let l = E::blen() as int; let n = buf@.len() as int; let c = n / l;
        assert(start <= start * l) by(nonlinear_arith) requires start >= 0, l >= 1;
        lemma_fundamental_div_mod(n, l);
        assert(c <= n && c >= 0) by(nonlinear_arith) requires n >= 0, l >= 1, c == n / l;
        if n % l == 0 {
            assert((start + c) * l == start * l + n) by(nonlinear_arith) requires n == l * c;
            let z = self.store_size as int;
            lemma_fundamental_div_mod(z, l); lemma_mod_bound(z, l);
            if start + c <= self.cap() { assert((start + c) * l <= z) by(nonlinear_arith) requires start + c <= z / l, z == l * (z / l) + z % l, z % l >= 0, l > 0; }
            let dw = self.data_width as int;
            if (start + c) * l <= z && z <= dw * l { assert(start + c <= dw) by(nonlinear_arith) requires (start + c) * l <= dw * l, l > 0; }
        }
    }
//% hint ret
    proof { let c = buf@.len() as int / E::blen() as int; if old(self).holds(start as int, start + c) { old(self).lemma_write(self, start as int, buf@, self.len as int); } }
//% end
//% fn src/store/level_cache.rs Store for LevelCacheStore::read_at
//% hint start
    proof {
        E::el_ax();
        let l = E::blen() as int; let m = self.len as int;
        assert(index <= index * l) by(nonlinear_arith) requires index >= 0, l >= 1;
        assert((index + 1) * l == index * l + l) by(nonlinear_arith);
        if index < m { assert((index + 1) * l <= m * l) by(nonlinear_arith) requires index + 1 <= m, l > 0; }
        else { assert(index * l >= m * l) by(nonlinear_arith) requires index >= m, l > 0; }
        if index < m && self.avail(index as int, index + 1) { self.lemma_read(index as int, index + 1); }
    }
//% end
//% fn src/store/level_cache.rs Store for LevelCacheStore::read_into
//% hint start
    proof {
        E::el_ax();
        let l = E::blen() as int; let m = self.len as int;
        assert(index <= index * l) by(nonlinear_arith) requires index >= 0, l >= 1;
        assert((index + 1) * l == index * l + l) by(nonlinear_arith);
        if index < m { assert((index + 1) * l <= m * l) by(nonlinear_arith) requires index + 1 <= m, l > 0; }
        else { assert(index * l >= m * l) by(nonlinear_arith) requires index >= m, l > 0; }
        if index < m && self.avail(index as int, index + 1) { self.lemma_read(index as int, index + 1); }
    }
//% end
//% fn src/store/level_cache.rs Store for LevelCacheStore::read_range_into
//% hint start
    proof {
        E::el_ax();
        let l = E::blen() as int; let m = self.len as int; let (a, b) = (start as int, end as int);
        assert(a * l <= b * l && a * l >= 0) by(nonlinear_arith) requires 0 <= a <= b, l >= 1;
        assert(b * l - a * l == (b - a) * l) by(nonlinear_arith);
        if b <= m { assert(b * l <= m * l) by(nonlinear_arith) requires b <= m, l > 0; }
        else { assert(b * l > m * l) by(nonlinear_arith) requires b > m, l > 0; }
        if a < b { assert(a * l < b * l) by(nonlinear_arith) requires a < b, l > 0; }
        if a < b && b <= m { assert(a * l < m * l) by(nonlinear_arith) requires a < m, l > 0; }
        if a >= m { assert(a * l >= m * l) by(nonlinear_arith) requires a >= m, l > 0; }
        if a < b && b <= m && self.avail(a, b) { self.lemma_read(a, b); assert(Seq::new((b - a) as nat, |i: int| E::of(self.raw(a + i))) =~= self.view().subrange(a, b)); }
    }
//% end
//% fn src/store/level_cache.rs Store for LevelCacheStore::read_range
//% ret res
//% hint start
    proof {
        E::el_ax();
        let l = E::blen() as int; let m = self.len as int; let (a, b) = (r.start as int, r.end as int);
        assert(a * l <= b * l && a * l >= 0) by(nonlinear_arith) requires 0 <= a <= b, l >= 1;
        assert(b * l - a * l == (b - a) * l) by(nonlinear_arith);
        if b <= m { assert(b * l <= m * l) by(nonlinear_arith) requires b <= m, l > 0; }
        else { assert(b * l > m * l) by(nonlinear_arith) requires b > m, l > 0; }
        if a < b { assert(a * l < b * l) by(nonlinear_arith) requires a < b, l > 0; }
        if a < b && b <= m { assert(a * l < m * l) by(nonlinear_arith) requires a < m, l > 0; }
        if a >= m { assert(a * l >= m * l) by(nonlinear_arith) requires a >= m, l > 0; }
        if a < b && b <= m && self.avail(a, b) { self.lemma_read(a, b); assert(Seq::new((b - a) as nat, |i: int| E::of(self.raw(a + i))) =~= self.view().subrange(a, b)); }
    }
//% loop 0
    invariant
        vx_c0 == E::blen(), E::blen() > 0, vx_n0 == (r.end - r.start), vx_i0 <= vx_n0, vx_out0@.len() == vx_i0, vx_s0@.len() == vx_n0 * E::blen(), vx_n0 == vx_s0@.len() as int / E::blen() as int, vx_n0 == dceil(vx_s0@.len() as int, E::blen() as int),
        forall|j: int| 0 <= j < vx_i0 ==> #[trigger] vx_out0@[j] == E::of(vx_s0@.subrange(j * E::blen(), j * E::blen() + E::blen())),
        forall|j: int| 0 <= j < vx_n0 ==> chunk_of(vx_s0@, j, E::blen() as int).len() == E::blen() && #[trigger] chunk_of(vx_s0@, j, E::blen() as int) == vx_s0@.subrange(j * E::blen(), j * E::blen() + E::blen()),
    decreases vx_n0 - vx_i0
//% hint loop 0 before
    proof {
        lemma_div_by_multiple(r.end - r.start, E::blen() as int); lemma_mod_multiples_basic(r.end - r.start, E::blen() as int);
        assert forall|j: int| 0 <= j < vx_n0 implies chunk_of(vx_s0@, j, E::blen() as int).len() == E::blen() && #[trigger] chunk_of(vx_s0@, j, E::blen() as int) == vx_s0@.subrange(j * E::blen(), j * E::blen() + E::blen()) by { lemma_chunk_exact(vx_s0@, j, E::blen() as int); }
    }
//% hint loop 0 after
    proof { assert(vx_out0@ =~= decode::<E>(vx_s0@)); }
//% end
//% fn src/store/level_cache.rs Store for LevelCacheStore::len
//% end
//% fn src/store/level_cache.rs Store for LevelCacheStore::loaded_from_disk
//% end
//% fn src/store/level_cache.rs Store for LevelCacheStore::is_empty
//% end
//% fn src/store/level_cache.rs Store for LevelCacheStore::push
//% hint start
    proof { E::el_ax(); lemma_upd_push::<E>(self.view(), el); let l = E::blen() as int; let z = self.store_size as int; assert(self.len <= self.len * l) by(nonlinear_arith) requires self.len >= 0, l >= 1; assert((self.len + 1) * l == self.len * l + l) by(nonlinear_arith);
        if self.len < self.cap() { lemma_fundamental_div_mod(z, l); lemma_mod_bound(z, l); assert((self.len + 1) * l <= z) by(nonlinear_arith) requires self.len + 1 <= z / l, z == l * (z / l) + z % l, z % l >= 0, l > 0; } }
//% end
//% fn src/store/level_cache.rs Store for LevelCacheStore::sync
//% end
//% include lcbuild.vrs
}
/// the sizes of a store for a tree of that size
pub proof fn lemma_lc_sizes<E: Element>(b: nat, m: nat, d: nat, leafs: int)
    requires exists|k: nat| tlen(b, k) == m && leafs == #[trigger] bpow(b, k) && good_arity(b), m * E::blen() <= MAXB, m * b <= 0x8000_0000_0000_0000
    ensures exists|k: nat| tlen(b, k) == m && leafs == #[trigger] bpow(b, k) && good_arity(b) && k == height(b, leafs as nat),
        forall|k: nat| #[trigger] bpow(b, k) == leafs ==> tlen(b, k) == m && k == height(b, leafs as nat),
        forall|k: nat| #[trigger] tlen(b, k) == m ==> k == height(b, leafs as nat) && bpow(b, k) == leafs,
        forall|k: nat| #![trigger bpow(b, k)] bpow(b, k) == leafs && d < k ==> 1 <= tlen(b, (k - 1 - d) as nat) && tlen(b, (k - 1 - d) as nat) * E::blen() + leafs * E::blen() <= m * E::blen()
            && tlen(b, (k - 1 - d) as nat) + leafs <= m,
        leafs * E::blen() <= m * E::blen(), 1 <= leafs <= m <= MAXB, leafs * b <= m * b,
{
    E::el_ax();
    let l = E::blen() as int;
    let k0 = choose|k: nat| tlen(b, k) == m && leafs == #[trigger] bpow(b, k) && good_arity(b);
    assert forall|k: nat| #[trigger] bpow(b, k) == leafs implies k == k0 by { lemma_bpow_inj(b, k, k0); }
    assert(shape(b, leafs as nat, k0));
    assert(height(b, leafs as nat) == k0);
    lemma_tlen_pos(b, k0);
    lemma_bpow_pos(b, k0);
    assert(leafs <= m);
    assert(leafs * l <= m * l) by(nonlinear_arith) requires leafs <= m, l > 0;
    assert(m <= m * l) by(nonlinear_arith) requires m >= 0, l >= 1;
    assert(leafs * b <= m * b) by(nonlinear_arith) requires leafs <= m, b >= 0;
    assert forall|k: nat| #[trigger] tlen(b, k) == m implies k == k0 by { if k < k0 { lemma_tlen_mono(b, k, k0); } else if k0 < k { lemma_tlen_mono(b, k0, k); } }
    if d < k0 {
        let j = (k0 - 1 - d) as nat;
        lemma_tlen_mono(b, j, k0);
        lemma_tlen_pos(b, j);
        let c0 = tlen(b, j) as int;
        assert(c0 + leafs <= m) by { if j < k0 - 1 { lemma_tlen_mono(b, j, (k0 - 1) as nat); } assert(tlen(b, k0) == tlen(b, (k0 - 1) as nat) + bpow(b, k0)); }
        assert(c0 * l + leafs * l <= m * l) by(nonlinear_arith) requires c0 + leafs <= m, l > 0;
    }
}
/// the number of discarded rows leaves at least one cached row and all base rows
/// the elements of a range are available
pub open spec fn has(v: int, lo: int, hi: int) -> bool { 0 <= lo <= hi <= v }
impl<E: Element, R: Read> LevelCacheStore<E, R> {
    /// a store for a tree of m elements, opened on a file with those bytes: the last c elements are the cached rows
    pub open spec fn opened(&self, f: Seq<u8>, m: int, b: nat, d: nat) -> bool {
        &&& self.wf() && self.view().len() == m && self.file.view() == f
        &&& forall|k: nat| #![trigger tlen(b, k)] tlen(b, k) == m ==> d < k && good_arity(b) && self.data_width == bpow(b, k) && self.cache_index_start == (m - tlen(b, (k - 1 - d) as nat)) * E::blen()
    }
    /// a file of the old format (base row and cached rows) is read as these elements
    pub proof fn lemma_v1(&self, f: Seq<u8>, b: nat, k: nat, d: nat)
        requires self.opened(f, tlen(b, k) as int, b, d), self.reader is None, f.len() == (bpow(b, k) + tlen(b, (k - 1 - d) as nat)) * E::blen(),
        ensures ({ let n = bpow(b, k) as int; let c = tlen(b, (k - 1 - d) as nat) as int; let m = tlen(b, k) as int; let file = slots::<E>(f, (n + c) as nat);
            &&& self.view().subrange(0, n) == file.subrange(0, n)
            &&& self.view().subrange(m - c, m) == file.subrange(n, n + c)
            &&& forall|lo: int, hi: int| #![trigger self.avail(lo, hi)] (0 <= lo <= hi <= n || m - c <= lo <= hi <= m) ==> self.avail(lo, hi) })
    {
        E::el_ax();
        let l = E::blen() as int; let n = bpow(b, k) as int; let c = tlen(b, (k - 1 - d) as nat) as int; let m = tlen(b, k) as int;
        assert(tlen(b, k) == m);
        lemma_tlen_mono(b, (k - 1 - d) as nat, k); lemma_tlen_pos(b, (k - 1 - d) as nat);
        assert(c + n <= m) by { let j = (k - 1 - d) as nat; if j < k - 1 { lemma_tlen_mono(b, j, (k - 1) as nat); } assert(tlen(b, k) == tlen(b, (k - 1) as nat) + bpow(b, k)); }
        assert((n + c) * l == n * l + c * l && (m - c) * l == m * l - c * l && n * l <= (m - c) * l && c * l > 0) by(nonlinear_arith) requires n + c <= m, l > 0, c > 0;
        let file = slots::<E>(f, (n + c) as nat);
        assert(self.has_base());
        assert forall|i: int| 0 <= i < n implies #[trigger] self.view()[i] == file[i] by {
            assert(0 <= i * l && i * l + l <= n * l) by(nonlinear_arith) requires 0 <= i < n, l > 0;
        }
        assert(self.view().subrange(0, n) =~= file.subrange(0, n));
        assert forall|i: int| 0 <= i < c implies #[trigger] self.view()[m - c + i] == file[n + i] by {
            assert((m - c + i) * l == (m - c) * l + i * l && (n + i) * l == n * l + i * l) by(nonlinear_arith);
            assert(0 <= i * l && i * l + l <= c * l) by(nonlinear_arith) requires 0 <= i < c, l > 0;
            assert(self.at((m - c + i) * l) == n * l + i * l);
        }
        assert forall|i: int| 0 <= i < c implies #[trigger] self.view().subrange(m - c, m)[i] == file.subrange(n, n + c)[i] by { assert(self.view()[m - c + i] == file[n + i]); }
        assert(self.view().subrange(m - c, m) =~= file.subrange(n, n + c));
        assert forall|lo: int, hi: int| #![trigger self.avail(lo, hi)] (0 <= lo <= hi <= n || m - c <= lo <= hi <= m) implies self.avail(lo, hi) by {
            assert(lo * l <= hi * l) by(nonlinear_arith) requires lo <= hi, l > 0;
            if hi <= n {
                assert(hi * l <= n * l && 0 <= lo * l) by(nonlinear_arith) requires hi <= n, l > 0, 0 <= lo;
                if lo == hi { assert(lo * l == hi * l); }
                else { assert(lo * l < n * l) by(nonlinear_arith) requires lo < n, l > 0; }
            }
            if m - c <= lo {
                assert((m - c) * l <= lo * l && hi * l <= m * l) by(nonlinear_arith) requires hi <= m, l > 0, m - c <= lo;
            }
        }
    }
    /// a file of the new format (cached rows only) with a reader of the base row is read as these elements
    pub proof fn lemma_v2(&self, f: Seq<u8>, b: nat, k: nat, d: nat)
        requires self.opened(f, tlen(b, k) as int, b, d), self.reader is Some, f.len() == tlen(b, (k - 1 - d) as nat) * E::blen(),
            self.reader->0.offset + bpow(b, k) * E::blen() <= self.reader->0.source.bytes().len(),
        ensures ({ let n = bpow(b, k) as int; let c = tlen(b, (k - 1 - d) as nat) as int; let m = tlen(b, k) as int;
            let (o, src) = (self.reader->0.offset as int, self.reader->0.source.bytes());
            &&& self.view().subrange(0, n) == decode::<E>(src.subrange(o, o + n * E::blen()))
            &&& self.view().subrange(m - c, m) == slots::<E>(f, c as nat)
            &&& forall|lo: int, hi: int| #![trigger self.avail(lo, hi)] (0 <= lo <= hi <= n || m - c <= lo <= hi <= m) ==> self.avail(lo, hi) })
    {
        E::el_ax();
        let l = E::blen() as int; let n = bpow(b, k) as int; let c = tlen(b, (k - 1 - d) as nat) as int; let m = tlen(b, k) as int;
        let (o, src) = (self.reader->0.offset as int, self.reader->0.source.bytes());
        assert(tlen(b, k) == m);
        lemma_tlen_mono(b, (k - 1 - d) as nat, k); lemma_tlen_pos(b, (k - 1 - d) as nat);
        lemma_cache_small(b, k, d);
        assert(c + n <= m) by { let j = (k - 1 - d) as nat; if j < k - 1 { lemma_tlen_mono(b, j, (k - 1) as nat); } assert(tlen(b, k) == tlen(b, (k - 1) as nat) + bpow(b, k)); }
        assert((m - c) * l == m * l - c * l && n * l <= (m - c) * l && c * l > 0 && c * l < n * l) by(nonlinear_arith) requires n + c <= m, l > 0, c > 0, c < n;
        let base = src.subrange(o, o + n * l);
        lemma_div_by_multiple(n, l);
        assert(!self.has_base());
        assert forall|i: int| 0 <= i < n implies #[trigger] self.view()[i] == decode::<E>(base)[i] by {
            assert(0 <= i * l && i * l + l <= n * l) by(nonlinear_arith) requires 0 <= i < n, l > 0;
            assert(base.subrange(i * l, i * l + l) =~= self.raw(i));
        }
        assert(self.view().subrange(0, n) =~= decode::<E>(base));
        assert forall|i: int| 0 <= i < c implies #[trigger] self.view()[m - c + i] == slots::<E>(f, c as nat)[i] by {
            assert((m - c + i) * l == (m - c) * l + i * l) by(nonlinear_arith);
            assert(0 <= i * l && i * l + l <= c * l) by(nonlinear_arith) requires 0 <= i < c, l > 0;
            assert(self.at((m - c + i) * l) == i * l);
        }
        assert forall|i: int| 0 <= i < c implies #[trigger] self.view().subrange(m - c, m)[i] == slots::<E>(f, c as nat)[i] by { assert(self.view()[m - c + i] == slots::<E>(f, c as nat)[i]); }
        assert(self.view().subrange(m - c, m) =~= slots::<E>(f, c as nat));
        assert forall|lo: int, hi: int| #![trigger self.avail(lo, hi)] (0 <= lo <= hi <= n || m - c <= lo <= hi <= m) implies self.avail(lo, hi) by {
            assert(lo * l <= hi * l) by(nonlinear_arith) requires lo <= hi, l > 0;
            if hi <= n {
                assert(hi * l <= n * l && 0 <= lo * l) by(nonlinear_arith) requires hi <= n, l > 0, 0 <= lo;
                if lo == hi { assert(lo * l == hi * l); }
                else { assert(lo * l < n * l) by(nonlinear_arith) requires lo < n, l > 0; }
            }
            if m - c <= lo {
                assert((m - c) * l <= lo * l && hi * l <= m * l) by(nonlinear_arith) requires hi <= m, l > 0, m - c <= lo;
            }
        }
    }
//% fn src/store/level_cache.rs Store for LevelCacheStore::new_from_disk
//% spec
    requires 1 <= store_range, store_range * E::blen() <= MAXB, 2 <= branches <= 0x4000_0000_0000_0000, store_range * branches <= 0x8000_0000_0000_0000
    ensures r is Ok ==> on_disk(config.file()) && r->Ok_0.loaded() && r->Ok_0.reader is None && r->Ok_0.opened(disk(config.file()), store_range as int, branches as nat, config.rows_to_discard as nat),
        !on_disk(config.file()) || !compactable(branches as nat, store_range as nat, config.rows_to_discard as nat) ==> r is Err,
//% hint start
    proof { E::el_ax(); lemma_div_by_multiple(store_range as int, E::blen() as int); }
//% hint let size
    let ghost m = store_range as int;
    proof { lemma_lc_sizes::<E>(branches as nat, store_range as nat, config.rows_to_discard as nat, size as int); }
//% hint let cache_size
    proof { let c = tlen(branches as nat, (height(branches as nat, size as nat) - 1 - config.rows_to_discard) as nat) as int; let l = E::blen() as int; assert((m - c) * l == m * l - c * l) by(nonlinear_arith); }
//% end
//% fn src/store/level_cache.rs LevelCacheStore::new_from_disk_with_reader
//% spec
    requires 1 <= store_range, store_range * E::blen() <= MAXB, 2 <= branches <= 0x4000_0000_0000_0000, store_range * branches <= 0x8000_0000_0000_0000,
        reader.offset + store_range * E::blen() <= usize::MAX,
    ensures r is Ok ==> on_disk(config.file()) && r->Ok_0.reader == Some(reader) && r->Ok_0.opened(disk(config.file()), store_range as int, branches as nat, config.rows_to_discard as nat),
        !on_disk(config.file()) || !compactable(branches as nat, store_range as nat, config.rows_to_discard as nat) ==> r is Err,
        forall|k: nat| #![trigger tlen(branches as nat, k)] r is Ok && tlen(branches as nat, k) == store_range ==> disk(config.file()).len() == tlen(branches as nat, (k - 1 - config.rows_to_discard) as nat) * E::blen(),
//% hint start
    proof { E::el_ax(); lemma_div_by_multiple(store_range as int, E::blen() as int); }
//% hint let size
    let ghost m = store_range as int;
    proof { lemma_lc_sizes::<E>(branches as nat, store_range as nat, config.rows_to_discard as nat, size as int); }
//% hint let cache_size
    proof { let c = tlen(branches as nat, (height(branches as nat, size as nat) - 1 - config.rows_to_discard) as nat) as int; let l = E::blen() as int; assert((m - c) * l == m * l - c * l) by(nonlinear_arith); }
//% end
//% fn src/store/level_cache.rs LevelCacheStore::set_external_reader
//% spec
    requires old(self).wf(), reader.offset + old(self).base_end() <= usize::MAX
    ensures r is Ok, final(self).wf(), *final(self) == (LevelCacheStore { reader: Some(reader), ..*old(self) })
//% end
//% fn src/store/level_cache.rs LevelCacheStore::is_consistent_v1
//% spec
    requires 1 <= store_range, store_range * E::blen() <= MAXB, 2 <= branches <= 0x4000_0000_0000_0000, store_range * branches <= 0x8000_0000_0000_0000
    ensures r is Ok ==> on_disk(config.file()) && compactable(branches as nat, store_range as nat, config.rows_to_discard as nat),
        forall|k: nat| #![trigger tlen(branches as nat, k)] r is Ok && tlen(branches as nat, k) == store_range ==> r->Ok_0 == (disk(config.file()).len() == (bpow(branches as nat, k) + tlen(branches as nat, (k - 1 - config.rows_to_discard) as nat)) * E::blen()),
//% hint start
    proof { E::el_ax(); }
//% hint let size
    proof { lemma_lc_sizes::<E>(branches as nat, store_range as nat, config.rows_to_discard as nat, size as int); }
//% hint let cache_size
    proof { let c = tlen(branches as nat, (height(branches as nat, size as nat) - 1 - config.rows_to_discard) as nat) as int; let l = E::blen() as int; let n = size as int; assert((n + c) * l == n * l + c * l) by(nonlinear_arith); }
//% end
//% fn src/store/level_cache.rs LevelCacheStore::is_consistent
//% spec
    requires 1 <= store_range, store_range * E::blen() <= MAXB, 2 <= branches <= 0x4000_0000_0000_0000, store_range * branches <= 0x8000_0000_0000_0000
    ensures r is Ok ==> on_disk(config.file()) && compactable(branches as nat, store_range as nat, config.rows_to_discard as nat),
        forall|k: nat| #![trigger tlen(branches as nat, k)] r is Ok && tlen(branches as nat, k) == store_range ==> r->Ok_0 == (disk(config.file()).len() == tlen(branches as nat, (k - 1 - config.rows_to_discard) as nat) * E::blen()),
//% hint start
    proof { E::el_ax(); }
//% hint let size
    proof { lemma_lc_sizes::<E>(branches as nat, store_range as nat, config.rows_to_discard as nat, size as int); }
//% end
//% fn src/store/level_cache.rs Store for LevelCacheStore::compact
//% spec
    ensures r is Err, *final(self) == *old(self)
//% end
//% fn src/store/level_cache.rs LevelCacheStore::set_len
//% spec
    ensures *final(self) == (LevelCacheStore { len: len, ..*old(self) })
//% end
//% fn src/store/level_cache.rs LevelCacheStore::store_read_range_internal
//% spec
    requires self.shaped(), start <= end <= MAXB
    ensures r is Ok ==> r->Ok_0@.len() == end - start, r is Ok && start < end ==> end <= self.file.view().len() && r->Ok_0@ == self.file.view().subrange(start as int, end as int),
//% hint start
    proof { E::el_ax(); }
//% end
//% fn src/store/level_cache.rs LevelCacheStore::read_at_internal
//% spec
    requires self.shaped(), (index + 1) * E::blen() <= MAXB
    ensures r is Ok ==> index < self.len && (index + 1) * E::blen() <= self.file.view().len() && r->Ok_0 == E::of(self.file.view().subrange(index * E::blen(), index * E::blen() + E::blen())),
//% hint start
    proof {
        E::el_ax();
        let l = E::blen() as int;
        assert((index + 1) * l == index * l + l) by(nonlinear_arith);
        assert(index * l >= 0) by(nonlinear_arith) requires index >= 0, l >= 1;
        assert(index <= index * l) by(nonlinear_arith) requires index >= 0, l >= 1;
        if index >= self.len { assert(index * l >= self.len * l) by(nonlinear_arith) requires index >= self.len, l >= 1; }
    }
//% end
//% fn src/store/level_cache.rs LevelCacheStore::read_range_internal
//% ret res
//% spec
    requires self.shaped(), r.start < r.end, r.end * E::blen() <= MAXB
    ensures res is Ok ==> r.end * E::blen() <= self.file.view().len() && res->Ok_0@ == decode::<E>(self.file.view().subrange(r.start * E::blen(), r.end * E::blen())),
//% hint start
    proof {
        E::el_ax();
        let l = E::blen() as int; let (a, b) = (r.start as int, r.end as int);
        assert(a * l < b * l && a * l >= 0) by(nonlinear_arith) requires 0 <= a < b, l >= 1;
        assert(b * l - a * l == (b - a) * l) by(nonlinear_arith);
    }
//% loop 0
    invariant
        vx_c0 == E::blen(), E::blen() > 0, vx_n0 == (r.end - r.start), vx_i0 <= vx_n0, vx_out0@.len() == vx_i0, vx_s0@.len() == vx_n0 * E::blen(), vx_n0 == vx_s0@.len() as int / E::blen() as int, vx_n0 == dceil(vx_s0@.len() as int, E::blen() as int),
        forall|j: int| 0 <= j < vx_i0 ==> #[trigger] vx_out0@[j] == E::of(vx_s0@.subrange(j * E::blen(), j * E::blen() + E::blen())),
        forall|j: int| 0 <= j < vx_n0 ==> chunk_of(vx_s0@, j, E::blen() as int).len() == E::blen() && #[trigger] chunk_of(vx_s0@, j, E::blen() as int) == vx_s0@.subrange(j * E::blen(), j * E::blen() + E::blen()),
    decreases vx_n0 - vx_i0
//% hint loop 0 before
    proof {
        lemma_div_by_multiple(r.end - r.start, E::blen() as int); lemma_mod_multiples_basic(r.end - r.start, E::blen() as int);
        assert forall|j: int| 0 <= j < vx_n0 implies chunk_of(vx_s0@, j, E::blen() as int).len() == E::blen() && #[trigger] chunk_of(vx_s0@, j, E::blen() as int) == vx_s0@.subrange(j * E::blen(), j * E::blen() + E::blen()) by { lemma_chunk_exact(vx_s0@, j, E::blen() as int); }
    }
//% hint loop 0 after
    proof { assert(vx_out0@ =~= decode::<E>(vx_s0@)); }
//% end
//% fn src/store/level_cache.rs LevelCacheStore::front_truncate
//% spec
    requires old(self).store_size == old(self).file.view().len(), old(self).file.ino() == disk_ino(config.file()), len * E::blen() <= MAXB
    ensures *final(self) == (LevelCacheStore { file: final(self).file, store_size: final(self).store_size, ..*old(self) }), final(self).file.ino() == old(self).file.ino(), final(self).store_size == final(self).file.view().len(),
        r is Ok ==> len * E::blen() <= old(self).file.view().len() && final(self).file.view() == old(self).file.view().subrange(len * E::blen(), old(self).file.view().len() as int),
        r is Err ==> final(self).store_size == old(self).store_size,
//% hint start
    let ghost f0 = self.file.view();
    proof { E::el_ax(); }
//% hint ret
    proof { assert(self.file.view() =~= f0.subrange(len as int, f0.len() as int)); }
//% end
//% fn src/store/level_cache.rs Store for LevelCacheStore::process_layer
//% spec
    requires old(self).shaped(), good_arity(U::n()), U::n() <= 0x4000_0000, width >= 1, read_start + width <= write_start, (write_start + width) * E::blen() <= MAXB,
        (write_start + width as int / U::n() as int) * E::blen() <= old(self).file.view().len(),
    ensures final(self).shaped(), *final(self) == (LevelCacheStore { file: final(self).file, ..*old(self) }), final(self).file.view().len() == old(self).file.view().len(), final(self).file.ino() == old(self).file.ino(),
        r is Ok ==> row_added::<E, A>(slots::<E>(old(self).file.view(), write_start as nat), slots::<E>(final(self).file.view(), (write_start + width as int / U::n() as int) as nat), read_start as int, write_start as int, width as int, U::n() as int, level as nat),
//% hint start
    let ghost b = U::n() as int;
    let ghost v0 = slots::<E>(self.file.view(), write_start as nat);
    let ghost cs = BUILD_CHUNK_NODES as int;
    let ghost rs = read_start as int;
    let ghost ws = write_start as int;
    let ghost wd = width as int;
    let ghost l = E::blen() as int;
    let ghost t = (ws + wd / b) as nat;
    let ghost q = cs / b;
    let ghost flen = self.file.view().len();
    proof {
        E::el_ax();
        assert(wd / b <= wd && wd / b >= 0) by(nonlinear_arith) requires b >= 2, wd >= 0;
        assert(ws + wd <= (ws + wd) * l) by(nonlinear_arith) requires l >= 1, ws + wd >= 0;
        assert((ws + wd / b) * l <= (ws + wd) * l) by(nonlinear_arith) requires l >= 1, wd / b <= wd;
        lemma2_to64(); assert(is_p2(4096)) by { assert(4096nat == pow2(12)); }
        let s0 = lemma_arity(b as nat);
        lemma_fundamental_div_mod(4096, b);
        assert(0 <= q <= 4096 && q * l <= 4096 * l && (q >= 1 ==> q * l >= 1)) by(nonlinear_arith) requires q == 4096int / b, b >= 2, l > 0;
        if cs % b == 0 { assert(4096 == b * q); assert(q >= 1) by(nonlinear_arith) requires 4096 == b * q, b >= 2; }
        if b <= 4096 { lemma_p2_div(4096, b as nat); }
        assert(ws * l <= (ws + wd) * l && wd * l <= (ws + wd) * l && ws * l + wd * l == (ws + wd) * l) by(nonlinear_arith) requires l >= 1, wd >= 1, ws >= 0;
        assert(wd * l >= 1) by(nonlinear_arith) requires l >= 1, wd >= 1;
    }
//% hint let shift
    proof { let s0 = lemma_arity(b as nat); lemma_shr(BUILD_CHUNK_NODES, shift); }
//% hint loop 0 before
    proof {
        let n = dceil(wd, cs);
        assert(n >= 1) by(nonlinear_arith) requires n == (if wd % cs == 0 { wd / cs } else { wd / cs + 1 }), wd >= 1, cs > 0;
        lemma_part::<E>(ws, wd, b, cs, q, n - 1, l);
    }
//% loop 0
    invariant
        b == U::n(), b == branches, b >= 2, cs == BUILD_CHUNK_NODES, cs % b == 0, cs > 0, rs == read_start, ws == write_start, wd == width, l == E::blen(), 0 < l <= 0x1_0000_0000, rs + wd <= ws, ws == v0.len(), wd >= 1,
        v0 == slots::<E>(old(self).file.view(), ws as nat), t == ws + wd / b, q == cs / b, t * l <= flen, flen == self.file.view().len(), flen == old(self).file.view().len(), self.file.ino() == old(self).file.ino(), ws + wd <= MAXB, (ws + wd) * l <= MAXB, (ws + wd / b) * l <= MAXB, 0 <= wd / b <= wd,
        vx_a0 == rs, vx_e0 == rs + wd, vx_c0 == cs, vx_n0 == dceil(wd, cs), is_perm(vx_p0@, vx_n0 as int), vx_i0 <= vx_n0,
        self.shaped(), *self == (LevelCacheStore { file: self.file, ..*old(self) }), forall|i: int| 0 <= i < v0.len() ==> #[trigger] slots::<E>(self.file.view(), t)[i] == v0[i],
        vx_z0.at == ws * l, vx_z0.n == wd * l, vx_w0 == q * l, vx_w0 > 0, vx_n0 <= dceil(wd * l, q * l), vx_z0.at + vx_z0.n <= MAXB,
        forall|j: int| 0 <= j < vx_i0 ==> chunk_done::<E, A>(v0, slots::<E>(self.file.view(), t), rs, ws, wd, cs, b, level as nat, #[trigger] vx_p0@[j] as int),
    decreases vx_n0 - vx_i0
//% hint loop 0 start
    let ghost c = vx_p0@[vx_i0 - 1] as int;
    let ghost f0 = self.file.view();
    let ghost v1 = slots::<E>(f0, t);
    let ghost z = csize(wd, cs, c);
    let ghost row = v0.subrange(rs + c * cs, rs + c * cs + z);
    let ghost mut els: Seq<E> = Seq::empty();
    proof {
        lemma_chunk_arith(wd, cs, b, c);
        lemma_part::<E>(ws, wd, b, cs, q, c, l);
        let (x, y) = (rs + c * cs, rs + c * cs + z);
        lemma_slots_part::<E>(f0, f0.subrange(x * l, y * l), x, y, t);
        assert(v1.subrange(x, y) =~= row);
        assert(y * l <= (ws + wd) * l) by(nonlinear_arith) requires y <= ws + wd, l >= 1;
    }
//% hint let chunk_nodes
    proof {
        assert(chunk_nodes@ =~= row);
        assert(z / b <= z && z / b >= 0) by(nonlinear_arith) requires z >= 0, b >= 2;
        assert((z / b) * l <= (ws + wd) * l) by(nonlinear_arith) requires z / b <= ws + wd, l >= 1;
        assert(dceil(z, b) * l <= (ws + wd) * l) by(nonlinear_arith) requires dceil(z, b) <= ws + wd, l >= 1;
        assert((ws + c * q) * l + (z / b) * l <= (ws + wd / b) * l) by(nonlinear_arith) requires c * q + z / b <= wd / b, l >= 1;
    }
//% loop 1
    invariant
        vx_c1 == b, b >= 2, vx_s1@ == chunk_nodes@, vx_n1 == dceil(chunk_nodes@.len() as int, b), vx_i1 <= vx_n1, l == E::blen(), vx_n1 * l < 0x7000_0000_0000_0000,
        vx_acc1@.len() == vx_i1 * l, decode::<E>(vx_acc1@).len() == vx_i1,
        forall|j: int| 0 <= j < vx_i1 ==> #[trigger] decode::<E>(vx_acc1@)[j] == A::nh(chunk_of(chunk_nodes@, j, b), level as nat),
    decreases vx_n1 - vx_i1
//% hint loop 1 before
    proof { assert(Seq::<u8>::empty().len() == 0 * l); E::el_ax(); assert(0int / l == 0) by(nonlinear_arith) requires l > 0; }
//% hint loop 1 start
    let ghost acc0 = vx_acc1@;
//% hint loop 1 end
    proof {
        let e = A::nh(chunk_of(chunk_nodes@, vx_i1 - 1, b), level as nat);
        lemma_decode_push::<E>(acc0, e, vx_i1 - 1);
        assert(vx_acc1@ =~= acc0 + e.bytes());
    }
//% hint pre vx_write
    proof {
        assert(dceil(z, b) * l == (z / b) * l);
        assert(dceil(z, b) == z / b) by(nonlinear_arith) requires dceil(z, b) * l == (z / b) * l, l > 0;
        lemma_div_by_multiple(z / b, l);
        lemma_mod_multiples_basic(z / b, l);
        els = decode::<E>(hashed_nodes_as_bytes@);
        assert(els.len() == z / b);
        assert((ws + c * q) * l == ws * l + c * (q * l)) by(nonlinear_arith);
        assert((ws + c * q) * l + (z / b) * l <= t * l) by(nonlinear_arith) requires ws + c * q + z / b <= t, l >= 1;
        lemma_splice_slots::<E>(f0, hashed_nodes_as_bytes@, ws + c * q, t, t);
        assert(c * vx_w0 + (z / b) * l <= wd * l && (z / b) * l <= q * l);
    }
//% hint loop 0 end
    proof {
        let w = slots::<E>(self.file.view(), t);
        assert(upd(v1, w, ws + c * q, els));
        assert forall|j: int| 0 <= j < vx_i0 implies chunk_done::<E, A>(v0, w, rs, ws, wd, cs, b, level as nat, #[trigger] vx_p0@[j] as int) by {
            if j < vx_i0 - 1 { lemma_chunk_frame::<E, A>(v0, v1, w, rs, ws, wd, cs, b, level as nat, vx_p0@[j] as int, c, els); }
            else {
                assert forall|i: int| 0 <= i < z / b implies #[trigger] w[ws + c * q + i] == A::nh(v0.subrange(rs + c * cs + i * b, rs + c * cs + i * b + b), level as nat) by {
                    lemma_upd_els(v1, w, ws + c * q, els, ws + c * q + i);
                    assert(i * b + b <= z && i * b >= 0) by(nonlinear_arith) requires 0 <= i < z / b, b > 0;
                    assert((i + 1) * b == i * b + b) by(nonlinear_arith);
                    assert(chunk_of(row, i, b) =~= v0.subrange(rs + c * cs + i * b, rs + c * cs + i * b + b));
                }
            }
        }
        assert forall|i: int| 0 <= i < v0.len() implies #[trigger] w[i] == v0[i] by { assert(w[i] == v1[i]); }
    }
//% hint loop 0 after
    proof {
        assert forall|c: int| 0 <= c < dceil(wd, cs) implies #[trigger] chunk_done::<E, A>(v0, slots::<E>(self.file.view(), t), rs, ws, wd, cs, b, level as nat, c) by { assert(perm_has(vx_p0@, c)); }
        lemma_chunks_all::<E, A>(v0, slots::<E>(self.file.view(), t), rs, ws, wd, cs, b, level as nat);
    }
//% end
//% fn src/store/level_cache.rs LevelCacheStore::store_size
//% spec
    ensures r == self.store_size
//% end
//% fn src/store/level_cache.rs LevelCacheStore::has_base_layer
//% spec
    requires self.shaped()
    ensures r == self.has_base()
//% end
//% fn src/store/level_cache.rs LevelCacheStore::is_range_available
//% spec
    requires self.shaped()
    ensures r == self.ira(start as int, end as int)
//% end
//% fn src/store/level_cache.rs LevelCacheStore::store_read_range
//% spec
    requires self.shaped(), start <= end <= self.len * E::blen()
    ensures r is Ok ==> self.ira(start as int, end as int) && r->Ok_0@.len() == end - start,
        r is Ok && start < end ==> self.backed(start as int, end as int) && r->Ok_0@ == self.range(start as int, end as int),
        self.io() && start < end && self.ira(start as int, end as int) && self.backed(start as int, end as int) ==> r is Ok,
//% hint start
    proof { E::el_ax(); let l = E::blen() as int; let (m, w) = (self.len as int, self.data_width as int); if m <= w { assert(m * l <= w * l) by(nonlinear_arith) requires m <= w, l > 0; } }
//% end
//% fn src/store/level_cache.rs LevelCacheStore::store_read_into
//% spec
    requires self.shaped(), start <= end <= self.len * E::blen(), start + old(buf)@.len() == end
    ensures final(buf)@.len() == old(buf)@.len(), r is Ok ==> self.ira(start as int, end as int),
        r is Ok && start < end ==> self.backed(start as int, end as int) && final(buf)@ == self.range(start as int, end as int),
        self.io() && start < end && self.ira(start as int, end as int) && self.backed(start as int, end as int) ==> r is Ok,
//% hint start
    proof { E::el_ax(); let l = E::blen() as int; let (m, w) = (self.len as int, self.data_width as int); if m <= w { assert(m * l <= w * l) by(nonlinear_arith) requires m <= w, l > 0; } }
//% end
//% fn src/store/level_cache.rs LevelCacheStore::store_copy_from_slice
//% spec
    requires start + slice@.len() <= usize::MAX, old(self).store_size == old(self).file.view().len()
    ensures r is Ok ==> start + slice@.len() <= old(self).store_size && final(self).file.view() == splice(old(self).file.view(), start as int, slice@),
        final(self).file.view().len() == old(self).file.view().len(), final(self).file.io_ok() == old(self).file.io_ok(), final(self).file.ino() == old(self).file.ino(),
        *final(self) == (LevelCacheStore { file: final(self).file, ..*old(self) }),
        old(self).file.io_ok() && start + slice@.len() <= old(self).store_size ==> r is Ok
//% end
}
/// the cached rows are fewer than the leaves
pub proof fn lemma_cache_small(b: nat, k: nat, d: nat)
    requires b >= 2, d < k
    ensures tlen(b, (k - 1 - d) as nat) < bpow(b, k)
{
    let j = (k - 1 - d) as nat;
    lemma_tlen_bound(b, j);
    if j + 1 < k { lemma_bpow_mono(b, j + 1, k); }
    assert(bpow(b, j + 1) == b * bpow(b, j));
    lemma_bpow_pos(b, j);
    assert(2 * bpow(b, j) <= b * bpow(b, j)) by(nonlinear_arith) requires b >= 2, bpow(b, j) >= 1;
}
} // verus!
