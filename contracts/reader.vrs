// ---- external readers of base rows ------------------------------------------------
verus! {
/// a source of bytes
pub trait Read: Sized {
    spec fn bytes(&self) -> Seq<u8>;
    /// reads of it do not fail
    spec fn rd_ok(&self) -> bool;
}
impl Read for File {
    open spec fn bytes(&self) -> Seq<u8> { self.view() }
    open spec fn rd_ok(&self) -> bool { self.io_ok() }
}
impl File {
    pub fn vx_read_into_part(&self, at: u64, buf: &mut [u8], r: core::ops::Range<usize>) -> (res: Result<usize>)
        requires r.start <= r.end <= old(buf)@.len()
        ensures final(buf)@.len() == old(buf)@.len(), res is Ok ==> res->Ok_0 <= r.end - r.start,
            res is Ok && res->Ok_0 > 0 ==> at + res->Ok_0 <= self.view().len(),
            res is Ok && res->Ok_0 == r.end - r.start && r.start < r.end ==> final(buf)@ == splice(old(buf)@, r.start as int, self.view().subrange(at as int, at + (r.end - r.start))),
            self.io_ok() ==> res is Ok
    {
        let n = r.end - r.start;
        let mut v: Vec<u8> = Vec::new();
        vx_resize(&mut v, n, 0u8);
        let got = self.read_at(at, v.as_mut_slice())?;
        proof { if got == n && n > 0 { assert(v@ =~= self.view().subrange(at as int, at + n)); } }
        vx_copy_into(buf, r, v.as_slice());
        Ok(got)
    }
    pub fn vx_read_exact_into(&self, at: u64, buf: &mut [u8], r: core::ops::Range<usize>) -> (res: Result<()>)
        requires r.start <= r.end <= old(buf)@.len()
        ensures final(buf)@.len() == old(buf)@.len(),
            res is Ok && r.start < r.end ==> at + (r.end - r.start) <= self.view().len() && final(buf)@ == splice(old(buf)@, r.start as int, self.view().subrange(at as int, at + (r.end - r.start))),
            self.io_ok() && at + (r.end - r.start) <= self.view().len() ==> res is Ok
    {
        let n = r.end - r.start;
        let mut v: Vec<u8> = Vec::new();
        vx_resize(&mut v, n, 0u8);
        self.read_exact_at(at, v.as_mut_slice())?;
        vx_copy_into(buf, r, v.as_slice());
        Ok(())
    }
}
/// a user-supplied read function: it reads the requested bytes of the source, all of them, or fails (assumed)
#[verifier::external_body]
#[verifier::accept_recursive_types(R)]
pub struct ReadFn<R> { _p: PhantomData<R> }
impl<R: Read> ReadFn<R> {
    /// it fails only when it has to
    pub uninterp spec fn ok(&self) -> bool;
    #[verifier::external_body]
    pub fn vx_call(&self, start: usize, end: usize, buf: &mut [u8], source: &R) -> (r: Result<usize>)
        requires start <= end, old(buf)@.len() == end - start
        ensures final(buf)@.len() == old(buf)@.len(),
            r is Ok && start < end ==> end <= source.bytes().len() && final(buf)@ == source.bytes().subrange(start as int, end as int),
            self.ok() && source.rd_ok() && end <= source.bytes().len() ==> r is Ok
    { unimplemented!() }
}
//% item src/store/mod.rs struct ExternalReader
//% item src/store/mod.rs struct ReplicaConfig
/// the read function of readers over files: the closure in new_from_config, which is verified below against the contract of ReadFn
#[verifier::external_body]
pub fn vx_read_fn_value() -> (r: ReadFn<File>) ensures r.ok() { unimplemented!() }
impl PathBuf {
    pub fn to_owned(&self) -> (r: PathBuf) ensures r == *self { self.clone() }
}
impl ReplicaConfig {
//% fn src/store/mod.rs From for ReplicaConfig::from
//% spec
    ensures r.path == *path, r.offsets@ == seq![0usize]
//% end
}
impl<R: Read> ExternalReader<R> {
//% fn src/store/mod.rs ExternalReader::read
//% spec
    requires start <= end, end + self.offset <= usize::MAX, old(buf)@.len() == end - start
    ensures final(buf)@.len() == old(buf)@.len(),
        r is Ok && start < end ==> end + self.offset <= self.source.bytes().len() && final(buf)@ == self.source.bytes().subrange(start + self.offset, end + self.offset),
        self.read_fn.ok() && self.source.rd_ok() && end + self.offset <= self.source.bytes().len() ==> r is Ok
//% end
}
impl ExternalReader<File> {
//% fn src/store/mod.rs ExternalReader::new_from_config
//% spec
    requires index < replica_config.offsets@.len()
    ensures r is Ok ==> on_disk(replica_config.path) && r->Ok_0.offset == replica_config.offsets@[index as int] && r->Ok_0.source.view() == disk(replica_config.path) && r->Ok_0.read_fn.ok()
//% end
//% fn src/store/mod.rs ExternalReader::new_from_path
//% spec
    ensures r is Ok ==> on_disk(*path) && r->Ok_0.offset == 0 && r->Ok_0.source.view() == disk(*path) && r->Ok_0.read_fn.ok()
//% end
}
//% fn src/store/mod.rs ExternalReader::new_from_config@read_fn
//% spec
    requires start <= end, old(buf)@.len() == end - start
    ensures final(buf)@.len() == old(buf)@.len(),
        r is Ok && start < end ==> end <= reader.bytes().len() && final(buf)@ == reader.bytes().subrange(start as int, end as int),
        reader.rd_ok() && end <= reader.bytes().len() ==> r is Ok
//% end
} // verus!
