verus! {
// ---- iterators of the caller: finite; the items they yield, and what they say about their number -------------
pub trait Iterator: Sized {
    type Item;
    spec fn rest(&self) -> Seq<Self::Item>;
    /// upper bound of the size hint
    spec fn upper(&self) -> Option<usize>;
    fn size_hint(&self) -> (r: (usize, Option<usize>)) ensures r.1 == self.upper();
    /// number of items to come: only read by the extracted loops, which end after the last item
    fn vx_count(&self) -> (r: usize) ensures r == self.rest().len();
    fn vx_take(&mut self) -> (r: Self::Item) requires old(self).rest().len() > 0 ensures r == old(self).rest()[0], final(self).rest() == old(self).rest().skip(1);
}
pub trait IntoIterator: Sized {
    type Item;
    type IntoIter: Iterator<Item = Self::Item>;
    spec fn items(&self) -> Seq<Self::Item>;
    spec fn hint(&self) -> Option<usize>;
    fn into_iter(self) -> (r: Self::IntoIter) ensures r.rest() == self.items(), r.upper() == self.hint();
}
/// items evaluated beforehand, with a size hint
pub struct Items<T> { pub v: Vec<T>, pub h: Option<usize> }
impl<T> Iterator for Items<T> {
    type Item = T;
    open spec fn rest(&self) -> Seq<T> { self.v@ }
    open spec fn upper(&self) -> Option<usize> { self.h }
    fn size_hint(&self) -> (r: (usize, Option<usize>)) { (0, self.h) }
    fn vx_count(&self) -> (r: usize) { self.v.len() }
    fn vx_take(&mut self) -> (r: T) { let x = self.v.remove(0); assert(self.v@ =~= old(self).v@.skip(1)); x }
}
impl<T> IntoIterator for Items<T> {
    type Item = T;
    type IntoIter = Items<T>;
    open spec fn items(&self) -> Seq<T> { self.v@ }
    open spec fn hint(&self) -> Option<usize> { self.h }
    fn into_iter(self) -> (r: Items<T>) { self }
}
pub fn vx_items<T>(v: Vec<T>, h: (usize, Option<usize>)) -> (r: Items<T>) ensures r.v@ == v@, r.h == h.1 { Items { v, h: h.1 } }
// ---- indexed parallel iterators of the caller ----
pub trait ParallelIterator: Sized {
    type Item;
    spec fn rest(&self) -> Seq<Self::Item>;
}
pub trait IndexedParallelIterator: ParallelIterator {
    fn opt_len(&self) -> (r: Option<usize>) ensures r == Some(self.rest().len() as usize), self.rest().len() <= usize::MAX;
    fn vx_count(&self) -> (r: usize) ensures r == self.rest().len();
    fn vx_chunk(&self, i: usize, c: usize) -> (r: Vec<Self::Item>) requires c > 0, i < dceil(self.rest().len() as int, c as int) ensures r@ == chunk_of(self.rest(), i as int, c as int);
}
pub trait IntoParallelIterator: Sized {
    type Item;
    type Iter: ParallelIterator<Item = Self::Item>;
    spec fn items(&self) -> Seq<Self::Item>;
    fn into_par_iter(self) -> (r: Self::Iter) ensures r.rest() == self.items();
}
// ---- consuming iteration ----------------------------------------------------
/// what a consuming `for` takes its items from
pub trait Source0: Sized {
    type Item;
    spec fn rest(&self) -> Seq<Self::Item>;
    fn vx_count(&self) -> (r: usize) ensures r == self.rest().len();
    fn vx_take(&mut self) -> (r: Self::Item) requires old(self).rest().len() > 0 ensures r == old(self).rest()[0], final(self).rest() == old(self).rest().skip(1);
}
impl<T> Source0 for Vec<T> {
    type Item = T;
    open spec fn rest(&self) -> Seq<T> { self@ }
    fn vx_count(&self) -> (r: usize) { self.len() }
    fn vx_take(&mut self) -> (r: T) { let x = self.remove(0); assert(self@ =~= old(self)@.skip(1)); x }
}
/// slice::reverse on a vector
pub fn vx_reverse<T>(v: &mut Vec<T>)
    ensures final(v)@ == old(v)@.reverse()
{
    let ghost o = v@;
    let mut out: Vec<T> = Vec::new();
    while v.len() > 0
        invariant o == old(v)@, v@.len() + out@.len() == o.len(), v@ == o.subrange(0, v@.len() as int), forall|i: int| 0 <= i < out@.len() ==> #[trigger] out@[i] == o[o.len() - 1 - i]
        decreases v@.len()
    { let x = v.pop().unwrap(); out.push(x); assert(v@ =~= o.subrange(0, v@.len() as int)); }
    assert(out@ =~= o.reverse());
    *v = out;
}
/// Vec::extend by the bytes of a slice
pub fn vx_extend<T: Dup>(v: &mut Vec<T>, s: &[T])
    ensures final(v)@ == old(v)@ + s@
{
    let ghost o = v@;
    let mut i: usize = 0;
    while i < s.len()
        invariant i <= s@.len(), v@ == o + s@.subrange(0, i as int), o == old(v)@
        decreases s@.len() - i
    { v.push(s[i].dup()); i = i + 1; assert(v@ =~= o + s@.subrange(0, i as int)); }
    assert(s@.subrange(0, i as int) =~= s@);
}
} // verus!
