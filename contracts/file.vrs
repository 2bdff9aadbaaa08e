// ---- the operating system's files: an assumed model (trusted) -----------------
verus! {
/// paths are opaque values
#[verifier::external_body]
pub struct PathBuf { _p: () }
pub type Path = PathBuf;
/// content, identity and presence of the file at a path when the function under verification starts
pub uninterp spec fn disk(p: PathBuf) -> Seq<u8>;
pub uninterp spec fn disk_ino(p: PathBuf) -> int;
pub uninterp spec fn on_disk(p: PathBuf) -> bool;
/// temporary files can be made and do not fail
pub uninterp spec fn tmp_ok() -> bool;
/// existing files can be opened for reading and writing
pub uninterp spec fn rw_files() -> bool;
/// the path of the data file of a configuration
pub uninterp spec fn data_path_of(p: PathBuf, id: Seq<char>) -> PathBuf;
impl PathBuf {
    #[verifier::external_body]
    pub fn clone(&self) -> (r: PathBuf) ensures r == *self { unimplemented!() }
    pub fn new(p: &PathBuf) -> (r: &PathBuf) ensures *r == *p { p }
    #[verifier::external_body]
    pub fn exists(&self) -> (r: bool) ensures r == on_disk(*self) { unimplemented!() }
}
pub trait PathLike: Sized {
    spec fn pv(&self) -> PathBuf;
    fn as_ref(&self) -> (r: &PathBuf) ensures *r == self.pv();
}
impl PathLike for PathBuf { open spec fn pv(&self) -> PathBuf { *self } fn as_ref(&self) -> (r: &PathBuf) { self } }
impl<P: PathLike> PathLike for &P { open spec fn pv(&self) -> PathBuf { (**self).pv() } fn as_ref(&self) -> (r: &PathBuf) { (*self).as_ref() } }
//% item src/store/mod.rs struct StoreConfig
impl StoreConfig {
    pub fn clone(&self) -> (r: StoreConfig) ensures r.path == self.path, r.id@ == self.id@, r.size == self.size, r.rows_to_discard == self.rows_to_discard
    { StoreConfig { path: self.path.clone(), id: self.id.clone(), size: self.size, rows_to_discard: self.rows_to_discard } }
    #[verifier::external_body]
    pub fn data_path(path: &PathBuf, id: &String) -> (r: PathBuf) ensures r == data_path_of(*path, id@) { unimplemented!() }
    pub open spec fn file(&self) -> PathBuf { data_path_of(self.path, self.id@) }
}
//% item src/store/mod.rs enum StoreConfigDataVersion
#[derive(PartialEq, Eq, Structural)]
pub enum ErrorKind { NotFound, PermissionDenied, AlreadyExists, Other }
impl Error {
    #[verifier::external_body]
    pub fn kind(&self) -> ErrorKind { unimplemented!() }
}
pub open spec fn splice(b: Seq<u8>, at: int, d: Seq<u8>) -> Seq<u8> { b.subrange(0, at) + d + b.subrange(at + d.len(), b.len() as int) }
pub struct Metadata { pub n: u64 }
impl Metadata { pub fn len(&self) -> (r: u64) ensures r == self.n { self.n } }
pub enum SeekFrom { Start(u64) }
#[verifier::external_body]
pub struct File { _p: () }
impl File {
    /// the bytes of the file
    pub uninterp spec fn view(&self) -> Seq<u8>;
    pub uninterp spec fn ino(&self) -> int;
    pub uninterp spec fn pos(&self) -> nat;
    /// no operation within the file fails
    pub uninterp spec fn io_ok(&self) -> bool;
    #[verifier::external_body]
    pub fn open(p: PathBuf) -> (r: Result<File>)
        ensures r is Ok ==> on_disk(p) && r->Ok_0.view() == disk(p) && r->Ok_0.ino() == disk_ino(p) && r->Ok_0.pos() == 0 && r->Ok_0.view().len() <= u64::MAX { unimplemented!() }
    #[verifier::external_body]
    pub fn metadata(&self) -> (r: Result<Metadata>) ensures r is Ok ==> r->Ok_0.n == self.view().len(), self.io_ok() ==> r is Ok { unimplemented!() }
    #[verifier::external_body]
    pub fn set_len(&mut self, n: u64) -> (r: Result<()>)
        ensures final(self).ino() == old(self).ino(), final(self).io_ok() == old(self).io_ok(), final(self).pos() == old(self).pos(),
            r is Ok ==> final(self).view().len() == n && (forall|i: int| 0 <= i < n && i < old(self).view().len() ==> #[trigger] final(self).view()[i] == old(self).view()[i])
                && (forall|i: int| old(self).view().len() <= i < n ==> #[trigger] final(self).view()[i] == 0u8),
            r is Err ==> final(self).view() == old(self).view(),
            old(self).io_ok() ==> r is Ok
    { unimplemented!() }
    #[verifier::external_body]
    pub fn read_exact_at(&self, at: u64, buf: &mut [u8]) -> (r: Result<()>)
        ensures final(buf)@.len() == old(buf)@.len(),
            r is Ok && old(buf)@.len() > 0 ==> at + old(buf)@.len() <= self.view().len() && final(buf)@ == self.view().subrange(at as int, at + old(buf)@.len()),
            self.io_ok() && at + old(buf)@.len() <= self.view().len() ==> r is Ok
    { unimplemented!() }
    /// a single read or write may move fewer bytes than asked for
    #[verifier::external_body]
    pub fn read_at(&self, at: u64, buf: &mut [u8]) -> (r: Result<usize>)
        ensures final(buf)@.len() == old(buf)@.len(),
            r is Ok ==> r->Ok_0 <= old(buf)@.len() && (r->Ok_0 > 0 ==> at + r->Ok_0 <= self.view().len())
                && forall|i: int| 0 <= i < old(buf)@.len() ==> #[trigger] final(buf)@[i] == (if i < r->Ok_0 { self.view()[at + i] } else { old(buf)@[i] }),
            self.io_ok() ==> r is Ok
    { unimplemented!() }
    #[verifier::external_body]
    pub fn write_at(&mut self, at: u64, buf: &[u8]) -> (r: Result<usize>)
        ensures final(self).ino() == old(self).ino(), final(self).io_ok() == old(self).io_ok(), final(self).pos() == old(self).pos(),
            at + buf@.len() <= old(self).view().len() ==> final(self).view().len() == old(self).view().len()
                && (r is Ok ==> r->Ok_0 <= buf@.len() && final(self).view() == splice(old(self).view(), at as int, buf@.subrange(0, r->Ok_0 as int))) && (old(self).io_ok() ==> r is Ok),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn write_all_at(&mut self, at: u64, buf: &[u8]) -> (r: Result<()>)
        ensures final(self).ino() == old(self).ino(), final(self).io_ok() == old(self).io_ok(), final(self).pos() == old(self).pos(),
            at + buf@.len() <= old(self).view().len() ==> final(self).view().len() == old(self).view().len()
                && (r is Ok ==> final(self).view() == splice(old(self).view(), at as int, buf@)) && (old(self).io_ok() ==> r is Ok),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn sync_all(&self) -> (r: Result<()>) ensures self.io_ok() ==> r is Ok { unimplemented!() }
    #[verifier::external_body]
    pub fn seek(&mut self, to: SeekFrom) -> (r: Result<u64>)
        ensures final(self).view() == old(self).view(), final(self).ino() == old(self).ino(), final(self).io_ok() == old(self).io_ok(),
            r is Ok ==> to == SeekFrom::Start(final(self).pos() as u64) && final(self).pos() <= u64::MAX, old(self).io_ok() ==> r is Ok
    { unimplemented!() }
}
pub struct OpenOptions { pub w: bool, pub r: bool, pub n: bool }
impl OpenOptions {
    pub fn new() -> (r: OpenOptions) ensures !r.w, !r.r, !r.n { OpenOptions { w: false, r: false, n: false } }
    pub fn write(self, b: bool) -> (r: OpenOptions) ensures r == (OpenOptions { w: b, r: self.r, n: self.n }) { OpenOptions { w: b, r: self.r, n: self.n } }
    pub fn read(self, b: bool) -> (r: OpenOptions) ensures r == (OpenOptions { w: self.w, r: b, n: self.n }) { OpenOptions { w: self.w, r: b, n: self.n } }
    pub fn create_new(self, b: bool) -> (r: OpenOptions) ensures r == (OpenOptions { w: self.w, r: self.r, n: b }) { OpenOptions { w: self.w, r: self.r, n: b } }
    #[verifier::external_body]
    pub fn open<P: PathLike>(self, p: P) -> (r: Result<File>)
        ensures r is Ok ==> r->Ok_0.pos() == 0 && r->Ok_0.ino() == disk_ino(p.pv()) && r->Ok_0.view().len() <= u64::MAX
            && (if self.n { !on_disk(p.pv()) && r->Ok_0.view().len() == 0 } else { on_disk(p.pv()) && r->Ok_0.view() == disk(p.pv()) }),
            rw_files() && on_disk(p.pv()) && !self.n ==> r is Ok,
    { unimplemented!() }
}
/// opening a path while a handle is open: of the same file, both see the same bytes
#[verifier::external_body]
pub fn vx_open_beside<P: PathLike>(f: &File, o: OpenOptions, p: P) -> (r: Result<File>)
    ensures r is Ok ==> r->Ok_0.pos() == 0 && r->Ok_0.ino() == disk_ino(p.pv()) && r->Ok_0.view().len() <= u64::MAX,
        r is Ok && f.ino() == disk_ino(p.pv()) ==> !o.n && r->Ok_0.view() == f.view(),
{ unimplemented!() }
/// the handle is exchanged for a new one
#[verifier::external_body]
pub fn vx_reopen<P: PathLike>(f: &mut File, o: OpenOptions, p: P) -> (r: Result<()>)
    ensures r is Ok ==> final(f).ino() == disk_ino(p.pv()) && final(f).pos() == 0 && final(f).view().len() <= u64::MAX, r is Err ==> *final(f) == *old(f),
        r is Ok && old(f).ino() == disk_ino(p.pv()) ==> !o.n && final(f).view() == old(f).view(),
{ unimplemented!() }
#[verifier::external_body]
pub fn tempfile() -> (r: Result<File>)
    ensures r is Ok ==> r->Ok_0.view().len() == 0 && r->Ok_0.pos() == 0, tmp_ok() ==> r is Ok && r->Ok_0.io_ok()
{ unimplemented!() }
/// std::io::copy from one position to another, within one file only downwards
#[verifier::external_body]
pub fn copy(from: &mut File, to: &mut File) -> (r: Result<u64>)
    ensures final(to).ino() == old(to).ino(), final(to).io_ok() == old(to).io_ok(),
        (old(from).ino() == old(to).ino() ==> old(to).pos() <= old(from).pos() && old(from).view() == old(to).view()) && old(from).pos() <= old(from).view().len() <= u64::MAX
            && old(to).pos() + (old(from).view().len() - old(from).pos()) <= old(to).view().len()
        ==> final(to).view().len() == old(to).view().len() && (r is Ok ==> r->Ok_0 == old(from).view().len() - old(from).pos()
            && final(to).view() == splice(old(to).view(), old(to).pos() as int, old(from).view().subrange(old(from).pos() as int, old(from).view().len() as int))),
{ unimplemented!() }
// ---- a shared mapping of a part of a file ----------------------------------
pub struct MmapOptions { pub at: u64, pub n: usize }
/// bytes at .. at + n of the file mapped
pub struct Region { pub at: u64, pub n: usize }
impl MmapOptions {
    pub fn new() -> (r: MmapOptions) { MmapOptions { at: 0, n: 0 } }
    pub fn offset(self, at: u64) -> (r: MmapOptions) ensures r.at == at, r.n == self.n { MmapOptions { at, n: self.n } }
    pub fn len(self, n: usize) -> (r: MmapOptions) ensures r.at == self.at, r.n == n { MmapOptions { at: self.at, n } }
    #[verifier::external_body]
    pub fn map_mut(self, f: &File) -> (r: Result<Region>)
        ensures r is Ok ==> r->Ok_0.at == self.at && r->Ok_0.n == self.n, f.io_ok() && self.n > 0 ==> r is Ok
    { unimplemented!() }
}
impl Region {
    pub fn len(&self) -> (r: usize) ensures r == self.n { self.n }
    /// the i-th chunk of w bytes
    pub fn vx_part(&self, i: usize, w: usize) -> (r: Region)
        requires w > 0, self.at + self.n <= u64::MAX, i < dceil(self.n as int, w as int)
        ensures r.at == self.at + i * w, r.n == (if self.n - i * w < w { self.n - i * w } else { w as int }), i * w < self.n
    {
        proof { lemma_dceil(self.n as int, w as int, i as int); assert(i * w >= 0) by(nonlinear_arith) requires i >= 0, w >= 0; }
        let o = i * w;
        Region { at: self.at + o as u64, n: if self.n - o < w { self.n - o } else { w } }
    }
    #[verifier::external_body]
    pub fn vx_write(&self, f: &mut File, r: core::ops::Range<usize>, d: &[u8])
        requires r.start <= r.end <= self.n, r.end - r.start == d@.len(), self.at + r.end <= old(f).view().len()
        ensures final(f).view() == splice(old(f).view(), self.at + r.start, d@), final(f).ino() == old(f).ino(), final(f).io_ok() == old(f).io_ok(), final(f).pos() == old(f).pos()
    { unimplemented!() }
}
} // verus!
//% include slots.vrs
