//% include prelude.vrs
//% include geomspec.vrs
//% include traits.vrs
verus! {
//% include geomfns.vrs
}
//% include config.vrs
verus! {
impl StoreConfig {
//% fn src/store/mod.rs StoreConfig::default_rows_to_discard
//% spec
    requires leafs * branches <= 0x8000_0000_0000_0000, has_shape(branches as nat, leafs as nat)
    ensures forall|k: nat| #![trigger bpow(branches as nat, k)] shape(branches as nat, leafs as nat, k) ==> (if k == 0 { r == 0 } else { r < k })
//% end
}
} // verus!
