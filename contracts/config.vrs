verus! {
/// paths are opaque values
#[verifier::external_body]
pub struct PathBuf { _p: () }
impl PathBuf {
    #[verifier::external_body]
    pub fn clone(&self) -> (r: PathBuf) ensures r == *self { unimplemented!() }
}
/// the path of the data file of a configuration
pub uninterp spec fn data_path_of(p: PathBuf, id: Seq<char>) -> PathBuf;
//% item src/store/mod.rs struct StoreConfig
impl StoreConfig {
    pub fn clone(&self) -> (r: StoreConfig) ensures r.path == self.path, r.id@ == self.id@, r.size == self.size, r.rows_to_discard == self.rows_to_discard
    { StoreConfig { path: self.path.clone(), id: self.id.clone(), size: self.size, rows_to_discard: self.rows_to_discard } }
    pub open spec fn file(&self) -> PathBuf { data_path_of(self.path, self.id@) }
}
} // verus!
