// ---- a shared mapping of a whole file: an assumed model (trusted) -----------------
verus! {
/// the bytes of the file as long as the mapping exists
pub type MmapMut = Vec<u8>;
/// mapping a file that is mapped already sees the bytes of that mapping
#[verifier::external_body]
pub fn vx_map_mut(old_map: &Option<MmapMut>, f: &File) -> (r: Result<MmapMut>)
    ensures r is Ok ==> r->Ok_0@ == (if *old_map is Some { (*old_map)->0@ } else { f.view() }), f.io_ok() && f.view().len() > 0 ==> r is Ok
{ unimplemented!() }
/// dropping the mapping leaves its bytes in the file
#[verifier::external_body]
pub fn vx_unmap(m: &mut Option<MmapMut>, f: &mut File) -> (r: Option<MmapMut>)
    ensures r == *old(m), *final(m) is None, final(f).view() == (if *old(m) is Some { (*old(m))->0@ } else { old(f).view() }), final(f).io_ok() == old(f).io_ok(), final(f).ino() == old(f).ino()
{ unimplemented!() }
pub struct TempPath;
pub mod tempfile {
    use super::*;
    pub struct NamedTempFile { pub f: File }
    impl NamedTempFile {
        pub fn new() -> (r: Result<NamedTempFile>) ensures r is Ok ==> r->Ok_0.f.view().len() == 0, tmp_ok() ==> r is Ok && r->Ok_0.f.io_ok() { let f = super::tempfile()?; Ok(NamedTempFile { f }) }
        pub fn set_len(&mut self, n: u64) -> (r: Result<()>) ensures r is Ok ==> final(self).f.view().len() == n, old(self).f.io_ok() ==> r is Ok && final(self).f.io_ok() { self.f.set_len(n) }
        pub fn into_parts(self) -> (r: (File, TempPath)) ensures r.0 == self.f { (self.f, TempPath) }
    }
}
} // verus!
