//% include prelude.vrs
verus! {
//% item src/hash.rs const LEAF
//% item src/hash.rs const INTERIOR
pub trait Node: Sized {
    spec fn bytes(&self) -> Seq<u8>;
    fn as_ref(&self) -> (r: &[u8]) ensures r@ == self.bytes();
}
/// std::hash::Hasher as a byte sink: st() is what was written since the hasher was made
pub trait Hasher: Sized {
    spec fn st(&self) -> Seq<u8>;
    fn write(&mut self, bytes: &[u8]) ensures final(self).st() == old(self).st() + bytes@;
}
pub open spec fn cat<T: Node>(nodes: Seq<T>) -> Seq<u8> decreases nodes.len() {
    if nodes.len() == 0 { Seq::empty() } else { cat(nodes.drop_last()) + nodes.last().bytes() }
}
/// the bytes a value feeds
pub trait Data: Sized { spec fn data(&self) -> Seq<u8>; }
pub open spec fn hcat<D: Data>(d: Seq<D>) -> Seq<u8> decreases d.len() {
    if d.len() == 0 { Seq::empty() } else { hcat(d.drop_last()) + d.last().data() }
}
pub trait Algorithm<T: Node>: Hasher {
    spec fn hf(bytes: Seq<u8>) -> T;
    fn default() -> (r: Self) ensures r.st() == Seq::<u8>::empty();
    fn hash(&mut self) -> (r: T) ensures r == Self::hf(old(self).st());
//% fn src/hash.rs trait Algorithm::reset
//% spec
    ensures final(self).st() == Seq::<u8>::empty()
//% end
//% fn src/hash.rs trait Algorithm::leaf
//% spec
    ensures r == Self::hf(old(self).st() + (seq![0u8] + leaf.bytes()))
//% hint start
    let ghost st0 = self.st();
//% hint pre hash
    proof {
        assert(self.st() =~= st0 + (seq![0u8] + leaf.bytes()));
    }
//% end
//% fn src/hash.rs trait Algorithm::node
//% spec
    ensures r == Self::hf(old(self).st() + (seq![1u8] + left.bytes() + right.bytes()))
//% hint start
    let ghost st0 = self.st();
//% hint pre hash
    proof { assert(self.st() =~= st0 + (seq![1u8] + left.bytes() + right.bytes())); }
//% end
//% fn src/hash.rs trait Algorithm::multi_node
//% spec
    ensures r == Self::hf(old(self).st() + (seq![1u8] + cat(nodes@)))
//% hint start
    let ghost st0 = self.st();
//% loop 0
    invariant
        vx_s0@ == nodes@, vx_n0 == nodes@.len(), vx_i0 <= vx_n0,
        self.st() == st0 + (seq![1u8] + cat(nodes@.subrange(0, vx_i0 as int))),
    decreases vx_n0 - vx_i0
//% hint loop 0 before
    proof { assert(nodes@.subrange(0, 0) =~= Seq::<T>::empty()); assert(self.st() =~= st0 + (seq![1u8] + cat(nodes@.subrange(0, 0)))); }
//% hint loop 0 end
    proof {
        let a = nodes@.subrange(0, vx_i0 as int);
        assert(a.drop_last() =~= nodes@.subrange(0, vx_i0 - 1));
        assert(a.last() == nodes@[vx_i0 - 1]);
        assert(self.st() =~= st0 + (seq![1u8] + cat(a)));
    }
//% hint loop 0 after
    proof { assert(nodes@.subrange(0, nodes@.len() as int) =~= nodes@); }
//% end
}
pub trait Hashable<H: Hasher>: Data {
    fn hash(&self, state: &mut H) ensures final(state).st() == old(state).st() + self.data();
//% fn src/hash.rs trait Hashable::hash_slice
//% spec
    ensures final(state).st() == old(state).st() + hcat(data@)
//% hint start
    let ghost st0 = state.st();
//% loop 0
    invariant
        vx_s0@ == data@, vx_n0 == data@.len(), vx_i0 <= vx_n0,
        state.st() == st0 + hcat(data@.subrange(0, vx_i0 as int)),
    decreases vx_n0 - vx_i0
//% hint loop 0 before
    proof { assert(data@.subrange(0, 0) =~= Seq::<Self>::empty()); assert(state.st() =~= st0 + hcat(data@.subrange(0, 0))); }
//% hint loop 0 end
    proof {
        let a = data@.subrange(0, vx_i0 as int);
        assert(a.drop_last() =~= data@.subrange(0, vx_i0 - 1));
        assert(a.last() == data@[vx_i0 - 1]);
        assert(state.st() =~= st0 + hcat(a));
    }
//% hint loop 0 after
    proof { assert(data@.subrange(0, data@.len() as int) =~= data@); }
//% end
}
} // verus!
