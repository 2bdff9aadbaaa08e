#!/usr/bin/env python3
"""Writes contracts/enc.vrs: the Hashable impls of src/hash_impl.rs, after the compiler's macro expansion."""
import os
F = "expanded:src/hash_impl.rs"
o = []
a = o.append
INTS = "u8 u16 u32 u64 usize i8 i16 i32 i64 isize u128 i128".split()
SZ = {"u8": 1, "i8": 1, "u16": 2, "i16": 2, "u32": 4, "i32": 4, "u64": 8, "i64": 8, "usize": 8, "isize": 8, "u128": 16, "i128": 16}
a("""//% include prelude.vrs
verus! {
// ---- native representation of the fixed-width integers (to_ne_bytes): abstract but for its length --------
""")
for t in INTS:
    if t == "u8":
        a("pub open spec fn ne_u8(x: u8) -> Seq<u8> { seq![x] }")
    else:
        a("pub uninterp spec fn ne_%s(x: %s) -> Seq<u8>;" % (t, t))
a("""
/// std::hash::Hasher as a byte sink: st() is what was written since the hasher was made; the integer methods
/// are the default ones of std (they write to_ne_bytes)
pub trait Hasher: Sized {
    spec fn st(&self) -> Seq<u8>;
    fn write(&mut self, bytes: &[u8]) ensures final(self).st() == old(self).st() + bytes@;""")
for t in INTS:
    a("    fn write_%s(&mut self, i: %s) ensures final(self).st() == old(self).st() + ne_%s(i);" % (t, t, t))
a("""}
/// the bytes a value feeds
pub trait Data { spec fn data(&self) -> Seq<u8>; }
pub open spec fn hcat<D: Data>(d: Seq<D>) -> Seq<u8> decreases d.len() {
    if d.len() == 0 { Seq::empty() } else { hcat(d.drop_last()) + d.last().data() }
}
// ---- memory: what the unsafe reinterpretation of a slice as bytes reads -----------------------------------
/// types without padding whose memory is their byte form
pub trait Pod: Data + Sized { spec fn sz() -> nat; proof fn sz_ax(x: Self) ensures x.data().len() == Self::sz(); }
pub struct VxPtr { pub b: Ghost<Seq<u8>> }
#[verifier::external_body]
pub fn vx_ptr<T: Pod>(s: &[T]) -> (r: VxPtr) ensures r.b@ == hcat(s@) { unimplemented!() }
#[verifier::external_body]
pub fn vx_from_raw_parts(p: VxPtr, n: usize) -> (r: &'static [u8])
    requires n <= p.b@.len()
    ensures r@ == p.b@.subrange(0, n as int)
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_size_of<T: Pod>() -> (r: usize) ensures r == T::sz() { unimplemented!() }
/// Rust: no slice spans more than isize::MAX bytes
#[verifier::external_body]
pub proof fn slice_ax<T: Pod>(s: Seq<T>) ensures s.len() * T::sz() <= 0x7fff_ffff_ffff_ffff { }
pub fn vx_size_of_val<T: Pod>(s: &[T]) -> (r: usize) ensures r == s@.len() * T::sz() { proof { slice_ax::<T>(s@); } s.len() * vx_size_of::<T>() }
pub proof fn lemma_hcat_len<T: Pod>(s: Seq<T>)
    ensures hcat(s).len() == s.len() * T::sz()
    decreases s.len()
{
    if s.len() == 0 { assert(0 * T::sz() == 0) by(nonlinear_arith); }
    else {
        lemma_hcat_len(s.drop_last());
        T::sz_ax(s.last());
        assert((s.len() - 1) * T::sz() + T::sz() == s.len() * T::sz()) by(nonlinear_arith) requires s.len() > 0;
    }
}
pub proof fn lemma_hcat1<T: Data>(s: Seq<T>, x: T)
    ensures hcat(s.push(x)) == hcat(s) + x.data()
{ assert(s.push(x).drop_last() =~= s); }
pub trait VxAsRef { spec fn b(&self) -> Seq<u8>; fn vx_as_ref(&self) -> (r: &[u8]) ensures r@ == self.b(); }
impl<const N: usize> VxAsRef for [u8; N] { open spec fn b(&self) -> Seq<u8> { self@ } #[verifier::external_body] fn vx_as_ref(&self) -> (r: &[u8]) { self } }
impl VxAsRef for Vec<u8> { open spec fn b(&self) -> Seq<u8> { self@ } fn vx_as_ref(&self) -> (r: &[u8]) { self.as_slice() } }
/// the UTF-8 form of a text
pub uninterp spec fn utf8(s: Seq<char>) -> Seq<u8>;
pub trait VxText { spec fn tx(&self) -> Seq<char>; fn vx_as_bytes(&self) -> (r: &[u8]) ensures r@ == utf8(self.tx()); }
impl VxText for str { open spec fn tx(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vx_as_bytes(&self) -> (r: &[u8]) { self.as_bytes() } }
impl VxText for String { open spec fn tx(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vx_as_bytes(&self) -> (r: &[u8]) { self.as_bytes() } }

pub trait Hashable<H: Hasher>: Data {
    fn hash(&self, state: &mut H) ensures final(state).st() == old(state).st() + self.data();
//% fn src/hash.rs trait Hashable::hash_slice
//% spec
    ensures final(state).st() == old(state).st() + hcat(data@)
//% hint start
    let ghost st0 = state.st();
//% loop 0
    invariant
        vx_s0@ == data@, vx_n0 == data@.len(), vx_i0 <= vx_n0,
        state.st() == st0 + hcat(data@.subrange(0, vx_i0 as int)),
    decreases vx_n0 - vx_i0
//% hint loop 0 before
    proof { assert(data@.subrange(0, 0) =~= Seq::<Self>::empty()); assert(state.st() =~= st0 + hcat(data@.subrange(0, 0))); }
//% hint loop 0 end
    proof {
        let a = data@.subrange(0, vx_i0 as int);
        assert(a.drop_last() =~= data@.subrange(0, vx_i0 - 1));
        assert(a.last() == data@[vx_i0 - 1]);
        assert(state.st() =~= st0 + hcat(a));
    }
//% hint loop 0 after
    proof { assert(data@.subrange(0, data@.len() as int) =~= data@); }
//% end
}
""")
def ptr_slice(ty, path):
    a("""//% fn {F} Hashable for {p}::hash_slice
//% hint start
    proof {{ slice_ax::<{t}>(data@); lemma_hcat_len::<{t}>(data@); assert(hcat(data@).subrange(0, hcat(data@).len() as int) =~= hcat(data@)); }}
//% end""".format(F=F, p=path, t=ty))
for t in INTS:
    a("impl Data for %s { open spec fn data(&self) -> Seq<u8> { ne_%s(*self) } }" % (t, t))
    if t == "u8":
        a("impl Pod for u8 { open spec fn sz() -> nat { 1 } proof fn sz_ax(x: u8) { } }")
    else:
        a("#[verifier::external_body] pub proof fn ne_len_%s(x: %s) ensures ne_%s(x).len() == %d { }" % (t, t, t, SZ[t]))
        a("impl Pod for %s { open spec fn sz() -> nat { %d } proof fn sz_ax(x: %s) { ne_len_%s(x); } }" % (t, SZ[t], t, t))
    a("impl<H: Hasher> Hashable<H> for %s {" % t)
    a("//% fn %s Hashable for %s::hash\n//%% end" % (F, t) if False else "//%% fn %s Hashable for %s::hash\n//%% end" % (F, t))
    ptr_slice(t, t)
    a("}")
def plain(head, ty, path, data, hints=""):
    a("impl%s Data for %s { open spec fn data(&self) -> Seq<u8> { %s } }" % (head[0], ty, data))
    a("impl%s Hashable<H> for %s {" % (head[1], ty))
    a("//%% fn %s Hashable for %s::hash\n%s//%% end" % (F, path, hints))
a("pub proof fn lemma_arr<const N: usize>(x: [u8; N]) ensures x@.len() == N { }")
plain(("<const N: usize>", "<H: Hasher, const N: usize>"), "[u8; N]", "[u8;N]", "self@")
ptr_slice("[u8; N]", "[u8;N]")
a("}\nimpl<const N: usize> Pod for [u8; N] { open spec fn sz() -> nat { N as nat } proof fn sz_ax(x: [u8; N]) { lemma_arr(x); } }")
h0 = ("", "<H: Hasher>")
plain(h0, "Vec<u8>", "Vec", "self@"); a("}")
plain(h0, "bool", "bool", "ne_u8(if *self { 1 } else { 0 })"); a("}")
plain(h0, "char", "char", "ne_u32(*self as u32)"); a("}")
plain(h0, "str", "str", "utf8(self@)"); a("}")
plain(h0, "String", "String", "utf8(self@)"); a("}")
plain(h0, "()", "()", "Seq::<u8>::empty()", "//% hint start\n    proof { assert(vx_unit_state.st() =~= vx_unit_state.st() + Seq::<u8>::empty()); }\n" if False else ""); a("}")
L = "A B C D E F G H I J K L".split()
for n in range(1, 13):
    v = L[:n]
    ty = "(" + ", ".join(v) + ("," if n == 1 else "") + ")"
    # the compiler prints (A,) and (A, B)
    p = "(" + ",".join(v) + ("," if n == 1 else "") + ")"
    d = " + ".join("self.%d.data()" % i for i in range(n))
    hd = "<" + ", ".join("%s: Data" % x for x in v) + ">"
    hh = "<Z: Hasher, " + ", ".join("%s: Hashable<Z>" % x for x in v) + ">"
    a("impl%s Data for %s { open spec fn data(&self) -> Seq<u8> { %s } }" % (hd, ty, d))
    a("impl%s Hashable<Z> for %s {" % (hh, ty))
    a("//%% fn %s Hashable for %s::hash" % (F, p))
    a("//% hint start\n    let ghost st0 = state.st();\n//% hint ret\n    proof { assert(state.st() =~= st0 + self.data()); }\n//% end\n}")
a("impl<T: Data> Data for [T] { open spec fn data(&self) -> Seq<u8> { hcat(self@) } }")
a("impl<H: Hasher, T: Hashable<H>> Hashable<H> for [T] {\n//%% fn %s Hashable for [T]::hash\n//%% end\n}" % F)
for r, p in (("&'a T", "&'aT"), ("&'a mut T", "&'amutT")):
    a("impl<'a, T: ?Sized + Data> Data for %s { open spec fn data(&self) -> Seq<u8> { (**self).data() } }" % r)
    a("impl<'a, H: Hasher, T: ?Sized + Hashable<H>> Hashable<H> for %s {\n//%% fn %s Hashable for %s::hash\n//%% end\n}" % (r, F, p))
a("} // verus!")
open(os.path.join(os.path.dirname(__file__), "..", "contracts", "enc.vrs"), "w").write("\n".join(o) + "\n")
