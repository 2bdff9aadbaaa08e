verus! {
//% item src/proof.rs struct Proof
/// the children of the node on level i of a path: h in its place among the siblings
pub open spec fn group<T>(sib: Seq<T>, b: nat, i: nat) -> Seq<T> { sib.subrange((i * (b - 1)) as int, ((i + 1) * (b - 1)) as int) }
pub open spec fn kids<T>(sib: Seq<T>, path: Seq<usize>, b: nat, i: nat, h: T) -> Seq<T> { group(sib, b, i).insert(path[i as int] as int, h) }
pub proof fn lemma_kids<T>(nodes: Seq<T>, sib: Seq<T>, path: Seq<usize>, b: nat, lv: nat, h: T)
    requires b >= 1, lv < path.len(), path[lv as int] < b, nodes.len() == b, (lv + 1) * (b - 1) <= sib.len(),
        forall|q: int| 0 <= q < b ==> nodes[q] == (if q == path[lv as int] { h } else if q < path[lv as int] { sib[lv * (b - 1) + q] } else { sib[lv * (b - 1) + q - 1] }),
    ensures nodes == kids(sib, path, b, lv, h)
{
    assert((lv + 1) * (b - 1) == lv * (b - 1) + (b - 1)) by(nonlinear_arith);
    assert(lv * (b - 1) >= 0) by(nonlinear_arith) requires b >= 1;
    let g = group(sib, b, lv);
    assert(g.len() == b - 1);
    assert(kids(sib, path, b, lv, h).len() == b);
    assert(nodes =~= kids(sib, path, b, lv, h));
}
/// hash h upwards from level i on
pub open spec fn up<T: Node, A: Algorithm<T>>(h: T, sib: Seq<T>, path: Seq<usize>, b: nat, i: nat) -> T
    decreases path.len() - i
{
    if i >= path.len() { h } else { up::<T, A>(A::nh(kids(sib, path, b, i, h), i), sib, path, b, i + 1) }
}
pub open spec fn path_ok(path: Seq<usize>, b: nat) -> bool { forall|i: int| 0 <= i < path.len() ==> path[i] < b }
impl<T: Node, BaseTreeArity: Unsigned> Proof<T, BaseTreeArity> {
    pub open spec fn layer(self) -> usize { if self.top_layer_nodes > 0 { self.top_layer_nodes } else { self.sub_tree_layer_nodes } }
    pub open spec fn sroot(self) -> T { self.lemma@.last() }
    pub open spec fn sibs(self) -> Seq<T> { self.lemma@.subrange(1, self.lemma@.len() - 1) }
    /// the leaf proved
    pub open spec fn sitem(self) -> T decreases self {
        match self.sub_tree_proof { Some(p) => p.sitem(), None => self.lemma@[0] }
    }
    pub open spec fn sitem_ok(self) -> bool decreases self {
        match self.sub_tree_proof { Some(p) => p.sitem_ok(), None => self.lemma@.len() > 0 }
    }
    /// a valid proof has a leaf
    pub proof fn lemma_valid_item<A: Algorithm<T>>(self)
        ensures self.valid::<A>() ==> self.sitem_ok()
        decreases self
    { if self.layer() > 0 { match self.sub_tree_proof { Some(p) => { p.lemma_valid_item::<A>(); } None => {} } } }
    /// every number needed to check the proof fits the machine
    pub open spec fn fits(self) -> bool decreases self {
        &&& BaseTreeArity::n() >= 2
        &&& (BaseTreeArity::n() - 1) * self.path@.len() + 2 <= usize::MAX
        &&& self.path@.len() < usize::MAX && self.lemma@.len() < usize::MAX
        &&& match self.sub_tree_proof { Some(p) => p.fits(), None => true }
    }
    /// the proof is well shaped and hashes up to its root
    pub open spec fn valid<A: Algorithm<T>>(self) -> bool decreases self {
        let b = BaseTreeArity::n();
        if self.layer() > 0 {
            let a = self.layer() as nat;
            match self.sub_tree_proof {
                None => false,
                Some(p) => {
                    &&& p.valid::<A>()
                    &&& self.path@.len() == 1 && self.lemma@.len() == a && self.path@[0] < a
                    &&& A::nh(kids(self.lemma@, self.path@, a, 0, p.sroot()), 1) == self.sroot()
                }
            }
        } else {
            &&& self.sub_tree_proof is None
            &&& self.lemma@.len() >= 2 && self.lemma@.len() == 2 + (b - 1) * self.path@.len()
            &&& path_ok(self.path@, b)
            &&& up::<T, A>(self.lemma@[0], self.sibs(), self.path@, b, 0) == self.sroot()
        }
    }
}
} // verus!
