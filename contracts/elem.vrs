//% include prelude.vrs
//% include traits.vrs
verus! {
/// 32 bytes are an array of 32 bytes, in one way only
pub uninterp spec fn arr32(b: Seq<u8>) -> [u8; 32];
#[verifier::external_body]
pub proof fn arr32_ax()
    ensures forall|b: Seq<u8>| #![trigger arr32(b)] b.len() == 32 ==> arr32(b)@ == b, forall|a: [u8; 32]| #![trigger a@] a@.len() == 32 && arr32(a@) == a
{ }
#[verifier::external_body]
pub fn vx_array_ref<const N: usize>(s: &[u8], off: usize) -> (r: &[u8; N])
    requires off + N <= s@.len()
    ensures r@ == s@.subrange(off as int, off + N)
{ unimplemented!() }
impl Node for [u8; 32] {
    closed spec fn bytes(&self) -> Seq<u8> { self@ }
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) { unimplemented!() }
    #[verifier::external_body]
    fn as_ref(&self) -> (r: &[u8]) { unimplemented!() }
    #[verifier::external_body]
    proof fn eq_ax() { }
}
impl Element for [u8; 32] {
    open spec fn blen() -> nat { 32 }
    open spec fn of(b: Seq<u8>) -> Self { arr32(b) }
    #[verifier::external_body]
    fn default() -> (r: Self) { unimplemented!() }
    proof fn el_ax() { arr32_ax(); }
//% fn src/merkle.rs Element for [u8; 32]::byte_len
//% end
//% fn src/merkle.rs Element for [u8; 32]::from_slice
//% hint start
    proof { arr32_ax(); assert(bytes@.subrange(0, 32) =~= bytes@); }
//% end
//% fn src/merkle.rs Element for [u8; 32]::copy_to_slice
//% hint start
    proof { arr32_ax(); }
//% end
}
} // verus!
