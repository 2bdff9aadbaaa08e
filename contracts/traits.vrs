verus! {
// ---- type-level numbers (typenum) -----------------------------------------
pub trait Unsigned: Sized { spec fn n() -> nat; fn to_usize() -> (r: usize) ensures r as nat == Self::n(); }
pub struct U0;
impl Unsigned for U0 { open spec fn n() -> nat { 0 } fn to_usize() -> (r: usize) { 0 } }
pub struct U2;
impl Unsigned for U2 { open spec fn n() -> nat { 2 } fn to_usize() -> (r: usize) { 2 } }

// ---- user supplied types: what the library may rely on ------------------------
/// Eq + Clone + AsRef<[u8]>: equality is identity, clone gives an equal value
pub trait Node: Sized + PartialEq {
    spec fn bytes(&self) -> Seq<u8>;
    fn clone(&self) -> (r: Self) ensures r == *self;
    fn as_ref(&self) -> (r: &[u8]) ensures r@ == self.bytes();
    proof fn eq_ax() ensures Self::obeys_eq_spec(), forall|a: Self, b: Self| #[trigger] a.eq_spec(&b) == (a == b);
}
// ---- std containers of such values: what these std calls do, proved on plain loops -----------
pub trait Dup: Sized { fn dup(&self) -> (r: Self) ensures r == *self; }
impl<T: Node> Dup for T { fn dup(&self) -> (r: Self) { self.clone() } }
impl Dup for usize { fn dup(&self) -> (r: Self) { *self } }
impl Dup for u8 { fn dup(&self) -> (r: Self) { *self } }
/// Vec::resize
pub fn vx_resize<T: Dup>(v: &mut Vec<T>, n: usize, x: T)
    ensures final(v)@.len() == n, forall|i: int| 0 <= i < n ==> #[trigger] final(v)@[i] == (if i < old(v)@.len() { old(v)@[i] } else { x })
{
    let ghost o = v@;
    if n < v.len() { v.truncate(n); }
    while v.len() < n
        invariant v@.len() <= n, o == old(v)@, v@.len() >= o.len() || v@.len() == n, forall|i: int| 0 <= i < v@.len() ==> #[trigger] v@[i] == (if i < o.len() { o[i] } else { x })
        decreases n - v@.len()
    { v.push(x.dup()); }
}
/// the indexing of a slice by a range: panics when out of range
pub fn vx_index<T>(s: &[T], r: core::ops::Range<usize>) -> (v: &[T])
    requires r.start <= r.end <= s@.len()
    ensures v@ == s@.subrange(r.start as int, r.end as int)
{ slice_subrange(s, r.start, r.end) }
pub fn vx_to_vec<T: Dup>(s: &[T]) -> (v: Vec<T>)
    ensures v@ == s@
{
    let mut v = Vec::new();
    let mut i: usize = 0;
    while i < s.len()
        invariant i <= s@.len(), v@ == s@.subrange(0, i as int)
        decreases s@.len() - i
    { v.push(s[i].dup()); i = i + 1; assert(v@ =~= s@.subrange(0, i as int)); }
    assert(v@ =~= s@);
    v
}
/// copying a slice over a part of another one of that length: panics when out of range or of another length
pub fn vx_copy_into<T: Dup>(d: &mut [T], r: core::ops::Range<usize>, s: &[T])
    requires r.start <= r.end <= old(d)@.len(), r.end - r.start == s@.len()
    ensures final(d)@ == old(d)@.subrange(0, r.start as int) + s@ + old(d)@.subrange(r.end as int, old(d)@.len() as int)
{
    let ghost o = d@;
    let mut i: usize = 0;
    while i < s.len()
        invariant i <= s@.len(), r.start + s@.len() == r.end, r.end <= o.len(), d@.len() == o.len(), o == old(d)@,
            d@ =~= o.subrange(0, r.start as int) + s@.subrange(0, i as int) + o.subrange(r.start + i, o.len() as int)
        decreases s@.len() - i
    { d[r.start + i] = s[i].dup(); i = i + 1; }
    assert(s@.subrange(0, i as int) =~= s@);
}
/// Vec::splice over a range with as many replacements: panics when out of range
pub fn vx_splice<T: Dup>(v: &mut Vec<T>, r: core::ops::Range<usize>, w: Vec<T>)
    requires r.start <= r.end <= old(v)@.len()
    ensures final(v)@ == old(v)@.subrange(0, r.start as int) + w@ + old(v)@.subrange(r.end as int, old(v)@.len() as int)
{
    let mut out = vx_to_vec(vx_index(v, 0..r.start));
    let tail = vx_to_vec(vx_index(v, r.end..v.len()));
    let ghost a = out@;
    let mut i: usize = 0;
    while i < w.len()
        invariant i <= w@.len(), out@ == a + w@.subrange(0, i as int)
        decreases w@.len() - i
    { out.push(w[i].dup()); i = i + 1; assert(out@ =~= a + w@.subrange(0, i as int)); }
    assert(w@.subrange(0, i as int) =~= w@);
    let mut j: usize = 0;
    while j < tail.len()
        invariant j <= tail@.len(), out@ == a + w@ + tail@.subrange(0, j as int)
        decreases tail@.len() - j
    { out.push(tail[j].dup()); j = j + 1; assert(out@ =~= a + w@ + tail@.subrange(0, j as int)); }
    assert(tail@.subrange(0, j as int) =~= tail@);
    *v = out;
}
/// Element: a fixed-size byte form that determines the value
pub trait Element: Node {
    spec fn blen() -> nat;
    spec fn of(b: Seq<u8>) -> Self;
    fn default() -> (r: Self);
    fn byte_len() -> (r: usize) ensures r as nat == Self::blen(), 0 < r <= 0x1_0000_0000;
    fn from_slice(bytes: &[u8]) -> (r: Self) requires bytes@.len() == Self::blen() ensures r == Self::of(bytes@);
    fn copy_to_slice(&self, bytes: &mut [u8]) requires old(bytes)@.len() == Self::blen() ensures final(bytes)@ == self.bytes();
    proof fn el_ax()
        ensures 0 < Self::blen() <= 0x1_0000_0000,
            forall|e: Self| #![trigger e.bytes()] e.bytes().len() == Self::blen() && Self::of(e.bytes()) == e,
            forall|b: Seq<u8>| #![trigger Self::of(b)] b.len() == Self::blen() ==> Self::of(b).bytes() == b;
}
/// Algorithm: from a fresh state the leaf and the node hash are functions of their arguments
pub trait Algorithm<T: Node>: Sized {
    /// bytes fed since the last reset
    spec fn st(&self) -> Seq<u8>;
    spec fn hf(bytes: Seq<u8>) -> T;
    spec fn lf(item: T) -> T;
    spec fn nh(nodes: Seq<T>, height: nat) -> T;
    fn default() -> (r: Self) ensures r.st() == Seq::<u8>::empty();
    fn reset(&mut self) ensures final(self).st() == Seq::<u8>::empty();
    fn hash(&mut self) -> (r: T) ensures r == Self::hf(old(self).st());
    fn leaf(&mut self, leaf: T) -> (r: T) requires old(self).st() == Seq::<u8>::empty() ensures r == Self::lf(leaf);
    fn multi_node(&mut self, nodes: &[T], height: usize) -> (r: T) requires old(self).st() == Seq::<u8>::empty() ensures r == Self::nh(nodes@, height as nat);
}
/// Hashable: feeding a value appends its bytes
pub trait Hashable<T: Node, A: Algorithm<T>>: Sized {
    spec fn data(&self) -> Seq<u8>;
    fn hash(&self, state: &mut A) ensures final(state).st() == old(state).st() + self.data();
}
} // verus!
