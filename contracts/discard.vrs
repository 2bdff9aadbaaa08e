verus! {
/// the number of rows discarded by default
pub open spec fn sdefault(b: nat, k: nat) -> nat {
    if k <= 1 { 0 } else if k == 2 { 1 } else { let x = if b == 2 { 7nat } else if b == 4 { 5 } else { 2 }; if k - 1 < x { (k - 1) as nat } else { x } }
}
impl StoreConfig {
//% fn src/store/mod.rs StoreConfig::default_rows_to_discard
//% spec
    requires leafs * branches <= 0x8000_0000_0000_0000, has_shape(branches as nat, leafs as nat)
    ensures forall|k: nat| #![trigger bpow(branches as nat, k)] shape(branches as nat, leafs as nat, k) ==> r == sdefault(branches as nat, k)
//% end
}
} // verus!
