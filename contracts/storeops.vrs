    /// existing files of stores that cannot do without write access can be opened for writing
    spec fn env_ok() -> bool;
    /// the elements of the store
    spec fn view(&self) -> Seq<E>;
    spec fn wf(&self) -> bool;
    /// reads and writes of the backing do not fail
    spec fn good(&self) -> bool;
    /// new stores can be made and do not fail
    spec fn reliable() -> bool;
    /// number of elements that fit
    spec fn cap(&self) -> nat;
    /// the range is backed by data (false for the discarded rows of a level-cache store)
    spec fn avail(&self, lo: int, hi: int) -> bool;
    /// what is written at the range is what reads of the range see
    spec fn holds(&self, lo: int, hi: int) -> bool;
    /// an empty store made for the n leaves of a tree of arity b under a configuration with that data file and number of discarded rows
    spec fn at_config(&self, n: nat, b: nat, file: PathBuf, d: nat) -> bool;
    spec fn loaded(&self) -> bool;
    /// building keeps all rows readable
    spec fn keeps_all() -> bool;
    /// reads out of range are errors, not panics
    spec fn checked() -> bool;
    /// read_range_into is implemented
    spec fn has_range_into() -> bool;
    proof fn avail_ax(&self) requires Self::keeps_all() ensures forall|lo: int, hi: int| #[trigger] self.avail(lo, hi), forall|lo: int, hi: int| #[trigger] self.holds(lo, hi);
    proof fn wf_ax(&self) requires self.wf() ensures self.view().len() * E::blen() <= MAXB;
    fn new_with_config(size: usize, branches: usize, config: StoreConfig) -> (r: Result<Self>)
        requires size * E::blen() <= MAXB, 2 <= branches <= 0x4000_0000_0000_0000, size >= 1, size * branches <= 0x8000_0000_0000_0000, Self::env_ok()
        ensures r is Ok ==> r->Ok_0.wf() && (r->Ok_0.view().len() == 0 || r->Ok_0.view().len() == size) && (r->Ok_0.loaded() ==> r->Ok_0.view().len() == size) && (!r->Ok_0.loaded() ==> r->Ok_0.cap() >= size)
                && (!r->Ok_0.loaded() && !Self::keeps_all() ==> exists|k: nat| #[trigger] tlen(branches as nat, k) == size)
                && (!r->Ok_0.loaded() ==> forall|k: nat| #![trigger tlen(branches as nat, k)] tlen(branches as nat, k) == size ==> r->Ok_0.at_config(bpow(branches as nat, k), branches as nat, config.file(), config.rows_to_discard as nat))
                && (!r->Ok_0.loaded() ==> forall|k: nat, lo: int, hi: int| #![trigger tlen(branches as nat, k), r->Ok_0.holds(lo, hi)] tlen(branches as nat, k) == size && 0 <= lo && hi <= bpow(branches as nat, k) ==> r->Ok_0.holds(lo, hi));
    fn new(size: usize) -> (r: Result<Self>)
        requires size * E::blen() <= MAXB
        ensures r is Ok ==> r->Ok_0.wf() && r->Ok_0.view().len() == 0 && r->Ok_0.cap() >= size && !r->Ok_0.loaded() && (forall|lo: int, hi: int| 0 <= lo && hi <= size ==> #[trigger] r->Ok_0.holds(lo, hi)),
            Self::reliable() && size >= 1 ==> r is Ok && r->Ok_0.good();
    fn new_from_slice_with_config(size: usize, branches: usize, data: &[u8], config: StoreConfig) -> (r: Result<Self>)
        requires size * E::blen() <= MAXB, 2 <= branches <= 0x4000_0000_0000_0000, size >= 1, size * branches <= 0x8000_0000_0000_0000, data@.len() <= MAXB, data@.len() as int / E::blen() as int <= size, Self::env_ok()
        ensures r is Ok ==> r->Ok_0.wf() && data@.len() % E::blen() == 0 && (r->Ok_0.view() == decode::<E>(data@) || (r->Ok_0.loaded() && r->Ok_0.view().len() == size) || !(Self::keeps_all() || base_fits(branches as nat, size as nat, data@.len() as int / E::blen() as int)))
                && (!r->Ok_0.loaded() && !Self::keeps_all() ==> exists|k: nat| #[trigger] tlen(branches as nat, k) == size)
                && (!r->Ok_0.loaded() ==> forall|k: nat| #![trigger tlen(branches as nat, k)] tlen(branches as nat, k) == size ==> r->Ok_0.at_config(bpow(branches as nat, k), branches as nat, config.file(), config.rows_to_discard as nat))
                && (r->Ok_0.loaded() ==> r->Ok_0.view().len() == size) && (!r->Ok_0.loaded() ==> r->Ok_0.cap() >= size && r->Ok_0.view().len() == decode::<E>(data@).len());
    fn new_from_slice(size: usize, data: &[u8]) -> (r: Result<Self>)
        requires size * E::blen() <= MAXB, data@.len() <= MAXB, data@.len() as int / E::blen() as int <= size
        ensures r is Ok ==> r->Ok_0.wf() && data@.len() % E::blen() == 0 && r->Ok_0.view() == decode::<E>(data@) && r->Ok_0.cap() >= size && !r->Ok_0.loaded(),
            Self::reliable() && size >= 1 && data@.len() % E::blen() == 0 ==> r is Ok && r->Ok_0.good();
    fn write_at(&mut self, el: E, index: usize) -> (r: Result<()>)
        requires old(self).wf(), (index + 1) * E::blen() <= MAXB
        ensures final(self).wf(), final(self).cap() == old(self).cap(),
            forall|lo: int, hi: int| #[trigger] final(self).holds(lo, hi) == old(self).holds(lo, hi),
            forall|n: nat, b: nat, f: PathBuf, d: nat| #[trigger] final(self).at_config(n, b, f, d) == old(self).at_config(n, b, f, d),
            r is Ok ==> index < old(self).cap() && final(self).view().len() == (if old(self).view().len() > index { old(self).view().len() as int } else { index + 1 }),
            r is Ok && old(self).holds(index as int, index + 1) ==> upd(old(self).view(), final(self).view(), index as int, seq![el]),
            old(self).good() && index < old(self).cap() ==> r is Ok && final(self).good();
    fn copy_from_slice(&mut self, buf: &[u8], start: usize) -> (r: Result<()>)
        requires old(self).wf(), start * E::blen() + buf@.len() <= MAXB
        ensures final(self).wf(), final(self).cap() == old(self).cap(),
            forall|lo: int, hi: int| #[trigger] final(self).holds(lo, hi) == old(self).holds(lo, hi),
            forall|n: nat, b: nat, f: PathBuf, d: nat| #[trigger] final(self).at_config(n, b, f, d) == old(self).at_config(n, b, f, d),
            r is Ok ==> buf@.len() % E::blen() == 0 && final(self).view().len() == (if old(self).view().len() >= start + buf@.len() as int / E::blen() as int { old(self).view().len() as int } else { start + buf@.len() as int / E::blen() as int }),
            r is Ok && old(self).holds(start as int, start + buf@.len() as int / E::blen() as int) ==> upd(old(self).view(), final(self).view(), start as int, decode::<E>(buf@)),
            old(self).good() && buf@.len() % E::blen() == 0 && start + buf@.len() / E::blen() <= old(self).cap() ==> r is Ok && final(self).good();
    fn read_at(&self, index: usize) -> (r: Result<E>)
        requires self.wf(), index < self.view().len() || (Self::checked() && (index + 1) * E::blen() <= MAXB)
        ensures r is Ok ==> index < self.view().len() && r->Ok_0 == self.view()[index as int] && self.avail(index as int, index + 1),
            self.good() && index < self.view().len() && self.avail(index as int, index + 1) ==> r is Ok;
    fn read_range(&self, r: core::ops::Range<usize>) -> (res: Result<Vec<E>>)
        requires self.wf(), r.start <= r.end, r.end <= self.view().len() || (Self::checked() && r.end * E::blen() <= MAXB)
        ensures res is Ok ==> r.end <= self.view().len() && res->Ok_0@ == self.view().subrange(r.start as int, r.end as int) && self.avail(r.start as int, r.end as int),
            self.good() && r.start < r.end <= self.view().len() && self.avail(r.start as int, r.end as int) ==> res is Ok;
    fn read_into(&self, index: usize, buf: &mut [u8]) -> (r: Result<()>)
        requires self.wf(), index < self.view().len() || (Self::checked() && (index + 1) * E::blen() <= MAXB), old(buf)@.len() == E::blen()
        ensures final(buf)@.len() == old(buf)@.len(), r is Ok ==> index < self.view().len() && final(buf)@ == self.view()[index as int].bytes() && self.avail(index as int, index + 1),
            self.good() && index < self.view().len() && self.avail(index as int, index + 1) ==> r is Ok;
    fn read_range_into(&self, start: usize, end: usize, buf: &mut [u8]) -> (r: Result<()>)
        requires self.wf(), Self::has_range_into(), start < end, end <= self.view().len() || (Self::checked() && end * E::blen() <= MAXB), old(buf)@.len() == (end - start) * E::blen()
        ensures final(buf)@.len() == old(buf)@.len(), r is Ok ==> end <= self.view().len() && decode::<E>(final(buf)@) == self.view().subrange(start as int, end as int) && self.avail(start as int, end as int),
            self.good() && end <= self.view().len() && self.avail(start as int, end as int) ==> r is Ok;
    fn len(&self) -> (r: usize) requires self.wf() ensures r == self.view().len();
    fn loaded_from_disk(&self) -> (r: bool) requires self.wf() ensures r == self.loaded();
    fn is_empty(&self) -> (r: bool) requires self.wf() ensures r == (self.view().len() == 0);
    fn push(&mut self, el: E) -> (r: Result<()>)
        requires old(self).wf(), (old(self).view().len() + 1) * E::blen() <= MAXB
        ensures final(self).wf(), final(self).cap() == old(self).cap(),
            forall|lo: int, hi: int| #[trigger] final(self).holds(lo, hi) == old(self).holds(lo, hi),
            forall|n: nat, b: nat, f: PathBuf, d: nat| #[trigger] final(self).at_config(n, b, f, d) == old(self).at_config(n, b, f, d),
            r is Ok ==> final(self).view().len() == old(self).view().len() + 1,
            r is Ok && old(self).holds(old(self).view().len() as int, (old(self).view().len() + 1) as int) ==> final(self).view() == old(self).view().push(el),
            old(self).good() && old(self).view().len() < old(self).cap() ==> r is Ok && final(self).good();
    fn sync(&self) -> (r: Result<()>)
        ensures self.good() ==> r is Ok;
    fn build<A: Algorithm<E>, U: Unsigned>(&mut self, leafs: usize, row_count: usize, _config: Option<StoreConfig>) -> (r: Result<E>)
        requires
//% include buildspec.vrs
    ;
