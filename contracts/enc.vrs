//% include prelude.vrs
verus! {
// ---- native representation of the fixed-width integers (to_ne_bytes): abstract but for its length --------

pub open spec fn ne_u8(x: u8) -> Seq<u8> { seq![x] }
pub uninterp spec fn ne_u16(x: u16) -> Seq<u8>;
pub uninterp spec fn ne_u32(x: u32) -> Seq<u8>;
pub uninterp spec fn ne_u64(x: u64) -> Seq<u8>;
pub uninterp spec fn ne_usize(x: usize) -> Seq<u8>;
pub uninterp spec fn ne_i8(x: i8) -> Seq<u8>;
pub uninterp spec fn ne_i16(x: i16) -> Seq<u8>;
pub uninterp spec fn ne_i32(x: i32) -> Seq<u8>;
pub uninterp spec fn ne_i64(x: i64) -> Seq<u8>;
pub uninterp spec fn ne_isize(x: isize) -> Seq<u8>;
pub uninterp spec fn ne_u128(x: u128) -> Seq<u8>;
pub uninterp spec fn ne_i128(x: i128) -> Seq<u8>;

/// std::hash::Hasher as a byte sink: st() is what was written since the hasher was made; the integer methods
/// are the default ones of std (they write to_ne_bytes)
pub trait Hasher: Sized {
    spec fn st(&self) -> Seq<u8>;
    fn write(&mut self, bytes: &[u8]) ensures final(self).st() == old(self).st() + bytes@;
    fn write_u8(&mut self, i: u8) ensures final(self).st() == old(self).st() + ne_u8(i);
    fn write_u16(&mut self, i: u16) ensures final(self).st() == old(self).st() + ne_u16(i);
    fn write_u32(&mut self, i: u32) ensures final(self).st() == old(self).st() + ne_u32(i);
    fn write_u64(&mut self, i: u64) ensures final(self).st() == old(self).st() + ne_u64(i);
    fn write_usize(&mut self, i: usize) ensures final(self).st() == old(self).st() + ne_usize(i);
    fn write_i8(&mut self, i: i8) ensures final(self).st() == old(self).st() + ne_i8(i);
    fn write_i16(&mut self, i: i16) ensures final(self).st() == old(self).st() + ne_i16(i);
    fn write_i32(&mut self, i: i32) ensures final(self).st() == old(self).st() + ne_i32(i);
    fn write_i64(&mut self, i: i64) ensures final(self).st() == old(self).st() + ne_i64(i);
    fn write_isize(&mut self, i: isize) ensures final(self).st() == old(self).st() + ne_isize(i);
    fn write_u128(&mut self, i: u128) ensures final(self).st() == old(self).st() + ne_u128(i);
    fn write_i128(&mut self, i: i128) ensures final(self).st() == old(self).st() + ne_i128(i);
}
/// the bytes a value feeds
pub trait Data { spec fn data(&self) -> Seq<u8>; }
pub open spec fn hcat<D: Data>(d: Seq<D>) -> Seq<u8> decreases d.len() {
    if d.len() == 0 { Seq::empty() } else { hcat(d.drop_last()) + d.last().data() }
}
// ---- memory: what the unsafe reinterpretation of a slice as bytes reads -----------------------------------
/// types without padding whose memory is their byte form
pub trait Pod: Data + Sized { spec fn sz() -> nat; proof fn sz_ax(x: Self) ensures x.data().len() == Self::sz(); }
pub struct VxPtr { pub b: Ghost<Seq<u8>> }
#[verifier::external_body]
pub fn vx_ptr<T: Pod>(s: &[T]) -> (r: VxPtr) ensures r.b@ == hcat(s@) { unimplemented!() }
#[verifier::external_body]
pub fn vx_from_raw_parts(p: VxPtr, n: usize) -> (r: &'static [u8])
    requires n <= p.b@.len()
    ensures r@ == p.b@.subrange(0, n as int)
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_size_of<T: Pod>() -> (r: usize) ensures r == T::sz() { unimplemented!() }
/// Rust: no slice spans more than isize::MAX bytes
#[verifier::external_body]
pub proof fn slice_ax<T: Pod>(s: Seq<T>) ensures s.len() * T::sz() <= 0x7fff_ffff_ffff_ffff { }
pub fn vx_size_of_val<T: Pod>(s: &[T]) -> (r: usize) ensures r == s@.len() * T::sz() { proof { slice_ax::<T>(s@); } s.len() * vx_size_of::<T>() }
pub proof fn lemma_hcat_len<T: Pod>(s: Seq<T>)
    ensures hcat(s).len() == s.len() * T::sz()
    decreases s.len()
{
    if s.len() == 0 { assert(0 * T::sz() == 0) by(nonlinear_arith); }
    else {
        lemma_hcat_len(s.drop_last());
        T::sz_ax(s.last());
        assert((s.len() - 1) * T::sz() + T::sz() == s.len() * T::sz()) by(nonlinear_arith) requires s.len() > 0;
    }
}
pub proof fn lemma_hcat1<T: Data>(s: Seq<T>, x: T)
    ensures hcat(s.push(x)) == hcat(s) + x.data()
{ assert(s.push(x).drop_last() =~= s); }
pub trait VxAsRef { spec fn b(&self) -> Seq<u8>; fn vx_as_ref(&self) -> (r: &[u8]) ensures r@ == self.b(); }
impl<const N: usize> VxAsRef for [u8; N] { open spec fn b(&self) -> Seq<u8> { self@ } #[verifier::external_body] fn vx_as_ref(&self) -> (r: &[u8]) { self } }
impl VxAsRef for Vec<u8> { open spec fn b(&self) -> Seq<u8> { self@ } fn vx_as_ref(&self) -> (r: &[u8]) { self.as_slice() } }
/// the UTF-8 form of a text
pub uninterp spec fn utf8(s: Seq<char>) -> Seq<u8>;
pub trait VxText { spec fn tx(&self) -> Seq<char>; fn vx_as_bytes(&self) -> (r: &[u8]) ensures r@ == utf8(self.tx()); }
impl VxText for str { open spec fn tx(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vx_as_bytes(&self) -> (r: &[u8]) { self.as_bytes() } }
impl VxText for String { open spec fn tx(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vx_as_bytes(&self) -> (r: &[u8]) { self.as_bytes() } }

pub trait Hashable<H: Hasher>: Data {
    fn hash(&self, state: &mut H) ensures final(state).st() == old(state).st() + self.data();
//% fn src/hash.rs trait Hashable::hash_slice
//% spec
    ensures final(state).st() == old(state).st() + hcat(data@)
//% hint start
    let ghost st0 = state.st();
//% loop 0
    invariant
        vx_s0@ == data@, vx_n0 == data@.len(), vx_i0 <= vx_n0,
        state.st() == st0 + hcat(data@.subrange(0, vx_i0 as int)),
    decreases vx_n0 - vx_i0
//% hint loop 0 before
    proof { assert(data@.subrange(0, 0) =~= Seq::<Self>::empty()); assert(state.st() =~= st0 + hcat(data@.subrange(0, 0))); }
//% hint loop 0 end
    proof {
        let a = data@.subrange(0, vx_i0 as int);
        assert(a.drop_last() =~= data@.subrange(0, vx_i0 - 1));
        assert(a.last() == data@[vx_i0 - 1]);
        assert(state.st() =~= st0 + hcat(a));
    }
//% hint loop 0 after
    proof { assert(data@.subrange(0, data@.len() as int) =~= data@); }
//% end
}

impl Data for u8 { open spec fn data(&self) -> Seq<u8> { ne_u8(*self) } }
impl Pod for u8 { open spec fn sz() -> nat { 1 } proof fn sz_ax(x: u8) { } }
impl<H: Hasher> Hashable<H> for u8 {
//% fn expanded:src/hash_impl.rs Hashable for u8::hash
//% end
//% fn expanded:src/hash_impl.rs Hashable for u8::hash_slice
//% hint start
    proof { slice_ax::<u8>(data@); lemma_hcat_len::<u8>(data@); assert(hcat(data@).subrange(0, hcat(data@).len() as int) =~= hcat(data@)); }
//% end
}
impl Data for u16 { open spec fn data(&self) -> Seq<u8> { ne_u16(*self) } }
#[verifier::external_body] pub proof fn ne_len_u16(x: u16) ensures ne_u16(x).len() == 2 { }
impl Pod for u16 { open spec fn sz() -> nat { 2 } proof fn sz_ax(x: u16) { ne_len_u16(x); } }
impl<H: Hasher> Hashable<H> for u16 {
//% fn expanded:src/hash_impl.rs Hashable for u16::hash
//% end
//% fn expanded:src/hash_impl.rs Hashable for u16::hash_slice
//% hint start
    proof { slice_ax::<u16>(data@); lemma_hcat_len::<u16>(data@); assert(hcat(data@).subrange(0, hcat(data@).len() as int) =~= hcat(data@)); }
//% end
}
impl Data for u32 { open spec fn data(&self) -> Seq<u8> { ne_u32(*self) } }
#[verifier::external_body] pub proof fn ne_len_u32(x: u32) ensures ne_u32(x).len() == 4 { }
impl Pod for u32 { open spec fn sz() -> nat { 4 } proof fn sz_ax(x: u32) { ne_len_u32(x); } }
impl<H: Hasher> Hashable<H> for u32 {
//% fn expanded:src/hash_impl.rs Hashable for u32::hash
//% end
//% fn expanded:src/hash_impl.rs Hashable for u32::hash_slice
//% hint start
    proof { slice_ax::<u32>(data@); lemma_hcat_len::<u32>(data@); assert(hcat(data@).subrange(0, hcat(data@).len() as int) =~= hcat(data@)); }
//% end
}
impl Data for u64 { open spec fn data(&self) -> Seq<u8> { ne_u64(*self) } }
#[verifier::external_body] pub proof fn ne_len_u64(x: u64) ensures ne_u64(x).len() == 8 { }
impl Pod for u64 { open spec fn sz() -> nat { 8 } proof fn sz_ax(x: u64) { ne_len_u64(x); } }
impl<H: Hasher> Hashable<H> for u64 {
//% fn expanded:src/hash_impl.rs Hashable for u64::hash
//% end
//% fn expanded:src/hash_impl.rs Hashable for u64::hash_slice
//% hint start
    proof { slice_ax::<u64>(data@); lemma_hcat_len::<u64>(data@); assert(hcat(data@).subrange(0, hcat(data@).len() as int) =~= hcat(data@)); }
//% end
}
impl Data for usize { open spec fn data(&self) -> Seq<u8> { ne_usize(*self) } }
#[verifier::external_body] pub proof fn ne_len_usize(x: usize) ensures ne_usize(x).len() == 8 { }
impl Pod for usize { open spec fn sz() -> nat { 8 } proof fn sz_ax(x: usize) { ne_len_usize(x); } }
impl<H: Hasher> Hashable<H> for usize {
//% fn expanded:src/hash_impl.rs Hashable for usize::hash
//% end
//% fn expanded:src/hash_impl.rs Hashable for usize::hash_slice
//% hint start
    proof { slice_ax::<usize>(data@); lemma_hcat_len::<usize>(data@); assert(hcat(data@).subrange(0, hcat(data@).len() as int) =~= hcat(data@)); }
//% end
}
impl Data for i8 { open spec fn data(&self) -> Seq<u8> { ne_i8(*self) } }
#[verifier::external_body] pub proof fn ne_len_i8(x: i8) ensures ne_i8(x).len() == 1 { }
impl Pod for i8 { open spec fn sz() -> nat { 1 } proof fn sz_ax(x: i8) { ne_len_i8(x); } }
impl<H: Hasher> Hashable<H> for i8 {
//% fn expanded:src/hash_impl.rs Hashable for i8::hash
//% end
//% fn expanded:src/hash_impl.rs Hashable for i8::hash_slice
//% hint start
    proof { slice_ax::<i8>(data@); lemma_hcat_len::<i8>(data@); assert(hcat(data@).subrange(0, hcat(data@).len() as int) =~= hcat(data@)); }
//% end
}
impl Data for i16 { open spec fn data(&self) -> Seq<u8> { ne_i16(*self) } }
#[verifier::external_body] pub proof fn ne_len_i16(x: i16) ensures ne_i16(x).len() == 2 { }
impl Pod for i16 { open spec fn sz() -> nat { 2 } proof fn sz_ax(x: i16) { ne_len_i16(x); } }
impl<H: Hasher> Hashable<H> for i16 {
//% fn expanded:src/hash_impl.rs Hashable for i16::hash
//% end
//% fn expanded:src/hash_impl.rs Hashable for i16::hash_slice
//% hint start
    proof { slice_ax::<i16>(data@); lemma_hcat_len::<i16>(data@); assert(hcat(data@).subrange(0, hcat(data@).len() as int) =~= hcat(data@)); }
//% end
}
impl Data for i32 { open spec fn data(&self) -> Seq<u8> { ne_i32(*self) } }
#[verifier::external_body] pub proof fn ne_len_i32(x: i32) ensures ne_i32(x).len() == 4 { }
impl Pod for i32 { open spec fn sz() -> nat { 4 } proof fn sz_ax(x: i32) { ne_len_i32(x); } }
impl<H: Hasher> Hashable<H> for i32 {
//% fn expanded:src/hash_impl.rs Hashable for i32::hash
//% end
//% fn expanded:src/hash_impl.rs Hashable for i32::hash_slice
//% hint start
    proof { slice_ax::<i32>(data@); lemma_hcat_len::<i32>(data@); assert(hcat(data@).subrange(0, hcat(data@).len() as int) =~= hcat(data@)); }
//% end
}
impl Data for i64 { open spec fn data(&self) -> Seq<u8> { ne_i64(*self) } }
#[verifier::external_body] pub proof fn ne_len_i64(x: i64) ensures ne_i64(x).len() == 8 { }
impl Pod for i64 { open spec fn sz() -> nat { 8 } proof fn sz_ax(x: i64) { ne_len_i64(x); } }
impl<H: Hasher> Hashable<H> for i64 {
//% fn expanded:src/hash_impl.rs Hashable for i64::hash
//% end
//% fn expanded:src/hash_impl.rs Hashable for i64::hash_slice
//% hint start
    proof { slice_ax::<i64>(data@); lemma_hcat_len::<i64>(data@); assert(hcat(data@).subrange(0, hcat(data@).len() as int) =~= hcat(data@)); }
//% end
}
impl Data for isize { open spec fn data(&self) -> Seq<u8> { ne_isize(*self) } }
#[verifier::external_body] pub proof fn ne_len_isize(x: isize) ensures ne_isize(x).len() == 8 { }
impl Pod for isize { open spec fn sz() -> nat { 8 } proof fn sz_ax(x: isize) { ne_len_isize(x); } }
impl<H: Hasher> Hashable<H> for isize {
//% fn expanded:src/hash_impl.rs Hashable for isize::hash
//% end
//% fn expanded:src/hash_impl.rs Hashable for isize::hash_slice
//% hint start
    proof { slice_ax::<isize>(data@); lemma_hcat_len::<isize>(data@); assert(hcat(data@).subrange(0, hcat(data@).len() as int) =~= hcat(data@)); }
//% end
}
impl Data for u128 { open spec fn data(&self) -> Seq<u8> { ne_u128(*self) } }
#[verifier::external_body] pub proof fn ne_len_u128(x: u128) ensures ne_u128(x).len() == 16 { }
impl Pod for u128 { open spec fn sz() -> nat { 16 } proof fn sz_ax(x: u128) { ne_len_u128(x); } }
impl<H: Hasher> Hashable<H> for u128 {
//% fn expanded:src/hash_impl.rs Hashable for u128::hash
//% end
//% fn expanded:src/hash_impl.rs Hashable for u128::hash_slice
//% hint start
    proof { slice_ax::<u128>(data@); lemma_hcat_len::<u128>(data@); assert(hcat(data@).subrange(0, hcat(data@).len() as int) =~= hcat(data@)); }
//% end
}
impl Data for i128 { open spec fn data(&self) -> Seq<u8> { ne_i128(*self) } }
#[verifier::external_body] pub proof fn ne_len_i128(x: i128) ensures ne_i128(x).len() == 16 { }
impl Pod for i128 { open spec fn sz() -> nat { 16 } proof fn sz_ax(x: i128) { ne_len_i128(x); } }
impl<H: Hasher> Hashable<H> for i128 {
//% fn expanded:src/hash_impl.rs Hashable for i128::hash
//% end
//% fn expanded:src/hash_impl.rs Hashable for i128::hash_slice
//% hint start
    proof { slice_ax::<i128>(data@); lemma_hcat_len::<i128>(data@); assert(hcat(data@).subrange(0, hcat(data@).len() as int) =~= hcat(data@)); }
//% end
}
pub proof fn lemma_arr<const N: usize>(x: [u8; N]) ensures x@.len() == N { }
impl<const N: usize> Data for [u8; N] { open spec fn data(&self) -> Seq<u8> { self@ } }
impl<H: Hasher, const N: usize> Hashable<H> for [u8; N] {
//% fn expanded:src/hash_impl.rs Hashable for [u8;N]::hash
//% end
//% fn expanded:src/hash_impl.rs Hashable for [u8;N]::hash_slice
//% hint start
    proof { slice_ax::<[u8; N]>(data@); lemma_hcat_len::<[u8; N]>(data@); assert(hcat(data@).subrange(0, hcat(data@).len() as int) =~= hcat(data@)); }
//% end
}
impl<const N: usize> Pod for [u8; N] { open spec fn sz() -> nat { N as nat } proof fn sz_ax(x: [u8; N]) { lemma_arr(x); } }
impl Data for Vec<u8> { open spec fn data(&self) -> Seq<u8> { self@ } }
impl<H: Hasher> Hashable<H> for Vec<u8> {
//% fn expanded:src/hash_impl.rs Hashable for Vec::hash
//% end
}
impl Data for bool { open spec fn data(&self) -> Seq<u8> { ne_u8(if *self { 1 } else { 0 }) } }
impl<H: Hasher> Hashable<H> for bool {
//% fn expanded:src/hash_impl.rs Hashable for bool::hash
//% end
}
impl Data for char { open spec fn data(&self) -> Seq<u8> { ne_u32(*self as u32) } }
impl<H: Hasher> Hashable<H> for char {
//% fn expanded:src/hash_impl.rs Hashable for char::hash
//% end
}
impl Data for str { open spec fn data(&self) -> Seq<u8> { utf8(self@) } }
impl<H: Hasher> Hashable<H> for str {
//% fn expanded:src/hash_impl.rs Hashable for str::hash
//% end
}
impl Data for String { open spec fn data(&self) -> Seq<u8> { utf8(self@) } }
impl<H: Hasher> Hashable<H> for String {
//% fn expanded:src/hash_impl.rs Hashable for String::hash
//% end
}
impl Data for () { open spec fn data(&self) -> Seq<u8> { Seq::<u8>::empty() } }
impl<H: Hasher> Hashable<H> for () {
//% fn expanded:src/hash_impl.rs Hashable for ()::hash
//% end
}
impl<A: Data> Data for (A,) { open spec fn data(&self) -> Seq<u8> { self.0.data() } }
impl<Z: Hasher, A: Hashable<Z>> Hashable<Z> for (A,) {
//% fn expanded:src/hash_impl.rs Hashable for (A,)::hash
//% hint start
    let ghost st0 = state.st();
//% hint ret
    proof { assert(state.st() =~= st0 + self.data()); }
//% end
}
impl<A: Data, B: Data> Data for (A, B) { open spec fn data(&self) -> Seq<u8> { self.0.data() + self.1.data() } }
impl<Z: Hasher, A: Hashable<Z>, B: Hashable<Z>> Hashable<Z> for (A, B) {
//% fn expanded:src/hash_impl.rs Hashable for (A,B)::hash
//% hint start
    let ghost st0 = state.st();
//% hint ret
    proof { assert(state.st() =~= st0 + self.data()); }
//% end
}
impl<A: Data, B: Data, C: Data> Data for (A, B, C) { open spec fn data(&self) -> Seq<u8> { self.0.data() + self.1.data() + self.2.data() } }
impl<Z: Hasher, A: Hashable<Z>, B: Hashable<Z>, C: Hashable<Z>> Hashable<Z> for (A, B, C) {
//% fn expanded:src/hash_impl.rs Hashable for (A,B,C)::hash
//% hint start
    let ghost st0 = state.st();
//% hint ret
    proof { assert(state.st() =~= st0 + self.data()); }
//% end
}
impl<A: Data, B: Data, C: Data, D: Data> Data for (A, B, C, D) { open spec fn data(&self) -> Seq<u8> { self.0.data() + self.1.data() + self.2.data() + self.3.data() } }
impl<Z: Hasher, A: Hashable<Z>, B: Hashable<Z>, C: Hashable<Z>, D: Hashable<Z>> Hashable<Z> for (A, B, C, D) {
//% fn expanded:src/hash_impl.rs Hashable for (A,B,C,D)::hash
//% hint start
    let ghost st0 = state.st();
//% hint ret
    proof { assert(state.st() =~= st0 + self.data()); }
//% end
}
impl<A: Data, B: Data, C: Data, D: Data, E: Data> Data for (A, B, C, D, E) { open spec fn data(&self) -> Seq<u8> { self.0.data() + self.1.data() + self.2.data() + self.3.data() + self.4.data() } }
impl<Z: Hasher, A: Hashable<Z>, B: Hashable<Z>, C: Hashable<Z>, D: Hashable<Z>, E: Hashable<Z>> Hashable<Z> for (A, B, C, D, E) {
//% fn expanded:src/hash_impl.rs Hashable for (A,B,C,D,E)::hash
//% hint start
    let ghost st0 = state.st();
//% hint ret
    proof { assert(state.st() =~= st0 + self.data()); }
//% end
}
impl<A: Data, B: Data, C: Data, D: Data, E: Data, F: Data> Data for (A, B, C, D, E, F) { open spec fn data(&self) -> Seq<u8> { self.0.data() + self.1.data() + self.2.data() + self.3.data() + self.4.data() + self.5.data() } }
impl<Z: Hasher, A: Hashable<Z>, B: Hashable<Z>, C: Hashable<Z>, D: Hashable<Z>, E: Hashable<Z>, F: Hashable<Z>> Hashable<Z> for (A, B, C, D, E, F) {
//% fn expanded:src/hash_impl.rs Hashable for (A,B,C,D,E,F)::hash
//% hint start
    let ghost st0 = state.st();
//% hint ret
    proof { assert(state.st() =~= st0 + self.data()); }
//% end
}
impl<A: Data, B: Data, C: Data, D: Data, E: Data, F: Data, G: Data> Data for (A, B, C, D, E, F, G) { open spec fn data(&self) -> Seq<u8> { self.0.data() + self.1.data() + self.2.data() + self.3.data() + self.4.data() + self.5.data() + self.6.data() } }
impl<Z: Hasher, A: Hashable<Z>, B: Hashable<Z>, C: Hashable<Z>, D: Hashable<Z>, E: Hashable<Z>, F: Hashable<Z>, G: Hashable<Z>> Hashable<Z> for (A, B, C, D, E, F, G) {
//% fn expanded:src/hash_impl.rs Hashable for (A,B,C,D,E,F,G)::hash
//% hint start
    let ghost st0 = state.st();
//% hint ret
    proof { assert(state.st() =~= st0 + self.data()); }
//% end
}
impl<A: Data, B: Data, C: Data, D: Data, E: Data, F: Data, G: Data, H: Data> Data for (A, B, C, D, E, F, G, H) { open spec fn data(&self) -> Seq<u8> { self.0.data() + self.1.data() + self.2.data() + self.3.data() + self.4.data() + self.5.data() + self.6.data() + self.7.data() } }
impl<Z: Hasher, A: Hashable<Z>, B: Hashable<Z>, C: Hashable<Z>, D: Hashable<Z>, E: Hashable<Z>, F: Hashable<Z>, G: Hashable<Z>, H: Hashable<Z>> Hashable<Z> for (A, B, C, D, E, F, G, H) {
//% fn expanded:src/hash_impl.rs Hashable for (A,B,C,D,E,F,G,H)::hash
//% hint start
    let ghost st0 = state.st();
//% hint ret
    proof { assert(state.st() =~= st0 + self.data()); }
//% end
}
impl<A: Data, B: Data, C: Data, D: Data, E: Data, F: Data, G: Data, H: Data, I: Data> Data for (A, B, C, D, E, F, G, H, I) { open spec fn data(&self) -> Seq<u8> { self.0.data() + self.1.data() + self.2.data() + self.3.data() + self.4.data() + self.5.data() + self.6.data() + self.7.data() + self.8.data() } }
impl<Z: Hasher, A: Hashable<Z>, B: Hashable<Z>, C: Hashable<Z>, D: Hashable<Z>, E: Hashable<Z>, F: Hashable<Z>, G: Hashable<Z>, H: Hashable<Z>, I: Hashable<Z>> Hashable<Z> for (A, B, C, D, E, F, G, H, I) {
//% fn expanded:src/hash_impl.rs Hashable for (A,B,C,D,E,F,G,H,I)::hash
//% hint start
    let ghost st0 = state.st();
//% hint ret
    proof { assert(state.st() =~= st0 + self.data()); }
//% end
}
impl<A: Data, B: Data, C: Data, D: Data, E: Data, F: Data, G: Data, H: Data, I: Data, J: Data> Data for (A, B, C, D, E, F, G, H, I, J) { open spec fn data(&self) -> Seq<u8> { self.0.data() + self.1.data() + self.2.data() + self.3.data() + self.4.data() + self.5.data() + self.6.data() + self.7.data() + self.8.data() + self.9.data() } }
impl<Z: Hasher, A: Hashable<Z>, B: Hashable<Z>, C: Hashable<Z>, D: Hashable<Z>, E: Hashable<Z>, F: Hashable<Z>, G: Hashable<Z>, H: Hashable<Z>, I: Hashable<Z>, J: Hashable<Z>> Hashable<Z> for (A, B, C, D, E, F, G, H, I, J) {
//% fn expanded:src/hash_impl.rs Hashable for (A,B,C,D,E,F,G,H,I,J)::hash
//% hint start
    let ghost st0 = state.st();
//% hint ret
    proof { assert(state.st() =~= st0 + self.data()); }
//% end
}
impl<A: Data, B: Data, C: Data, D: Data, E: Data, F: Data, G: Data, H: Data, I: Data, J: Data, K: Data> Data for (A, B, C, D, E, F, G, H, I, J, K) { open spec fn data(&self) -> Seq<u8> { self.0.data() + self.1.data() + self.2.data() + self.3.data() + self.4.data() + self.5.data() + self.6.data() + self.7.data() + self.8.data() + self.9.data() + self.10.data() } }
impl<Z: Hasher, A: Hashable<Z>, B: Hashable<Z>, C: Hashable<Z>, D: Hashable<Z>, E: Hashable<Z>, F: Hashable<Z>, G: Hashable<Z>, H: Hashable<Z>, I: Hashable<Z>, J: Hashable<Z>, K: Hashable<Z>> Hashable<Z> for (A, B, C, D, E, F, G, H, I, J, K) {
//% fn expanded:src/hash_impl.rs Hashable for (A,B,C,D,E,F,G,H,I,J,K)::hash
//% hint start
    let ghost st0 = state.st();
//% hint ret
    proof { assert(state.st() =~= st0 + self.data()); }
//% end
}
impl<A: Data, B: Data, C: Data, D: Data, E: Data, F: Data, G: Data, H: Data, I: Data, J: Data, K: Data, L: Data> Data for (A, B, C, D, E, F, G, H, I, J, K, L) { open spec fn data(&self) -> Seq<u8> { self.0.data() + self.1.data() + self.2.data() + self.3.data() + self.4.data() + self.5.data() + self.6.data() + self.7.data() + self.8.data() + self.9.data() + self.10.data() + self.11.data() } }
impl<Z: Hasher, A: Hashable<Z>, B: Hashable<Z>, C: Hashable<Z>, D: Hashable<Z>, E: Hashable<Z>, F: Hashable<Z>, G: Hashable<Z>, H: Hashable<Z>, I: Hashable<Z>, J: Hashable<Z>, K: Hashable<Z>, L: Hashable<Z>> Hashable<Z> for (A, B, C, D, E, F, G, H, I, J, K, L) {
//% fn expanded:src/hash_impl.rs Hashable for (A,B,C,D,E,F,G,H,I,J,K,L)::hash
//% hint start
    let ghost st0 = state.st();
//% hint ret
    proof { assert(state.st() =~= st0 + self.data()); }
//% end
}
impl<T: Data> Data for [T] { open spec fn data(&self) -> Seq<u8> { hcat(self@) } }
impl<H: Hasher, T: Hashable<H>> Hashable<H> for [T] {
//% fn expanded:src/hash_impl.rs Hashable for [T]::hash
//% end
}
impl<'a, T: ?Sized + Data> Data for &'a T { open spec fn data(&self) -> Seq<u8> { (**self).data() } }
impl<'a, H: Hasher, T: ?Sized + Hashable<H>> Hashable<H> for &'a T {
//% fn expanded:src/hash_impl.rs Hashable for &'aT::hash
//% end
}
impl<'a, T: ?Sized + Data> Data for &'a mut T { open spec fn data(&self) -> Seq<u8> { (**self).data() } }
impl<'a, H: Hasher, T: ?Sized + Hashable<H>> Hashable<H> for &'a mut T {
//% fn expanded:src/hash_impl.rs Hashable for &'amutT::hash
//% end
}
} // verus!
