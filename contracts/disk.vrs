//% include prelude.vrs
//% include geomspec.vrs
//% include traits.vrs
verus! {
//% include geomfns.vrs
}
//% include treespec.vrs
//% include storespec.vrs
//% include file.vrs
verus! {
pub trait Store<E: Element>: Sized {
//% include storeops.vrs
//% fn src/store/mod.rs trait Store::last
//% spec
    requires self.wf(), self.view().len() > 0
    ensures r is Ok ==> r->Ok_0 == self.view().last(), self.good() && self.avail(self.view().len() - 1, self.view().len() as int) ==> r is Ok
//% end
}
} // verus!
//% include diskstore.vrs
