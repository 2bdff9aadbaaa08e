verus! {
//% item src/merkle.rs enum Data
//% item src/merkle.rs struct MerkleTree
/// t holds what every read of the store that can succeed returns
pub open spec fn agrees<E: Element, S: Store<E>>(s: S, t: Seq<E>) -> bool {
    &&& t.len() == s.view().len()
    &&& forall|lo: int, hi: int| #![trigger s.avail(lo, hi)] 0 <= lo <= hi <= t.len() && s.avail(lo, hi) ==> s.view().subrange(lo, hi) == t.subrange(lo, hi)
}
/// every range of the store can be read
pub open spec fn readable<E: Element, S: Store<E>>(s: S) -> bool { s.good() && forall|lo: int, hi: int| #![trigger s.avail(lo, hi)] 0 <= lo <= hi <= s.view().len() ==> s.avail(lo, hi) }
/// the node that is sibling m on level h of the path of leaf i, where the path element is x
pub open spec fn sib_at(n: nat, b: nat, i: nat, h: nat, m: int, x: int) -> int {
    off(n, b, h) + (i / bpow(b, h + 1)) * b + (if m < x { m } else { m + 1 })
}
pub open spec fn digit(b: nat, i: nat, h: nat) -> nat { (i / bpow(b, h)) % b }
/// p is the proof of leaf i in a tree of nodes v over n leaves, with k rows above them
pub open spec fn is_proof<E: Element, B: Unsigned>(p: Proof<E, B>, v: Seq<E>, n: nat, k: nat, i: nat, root: E) -> bool {
    let b = B::n();
    &&& p.sub_tree_proof is None && p.top_layer_nodes == 0 && p.sub_tree_layer_nodes == 0
    &&& p.path@.len() == k && p.lemma@.len() == 2 + k * (b - 1)
    &&& p.lemma@[0] == v[i as int] && p.lemma@.last() == root
    &&& forall|h: int| 0 <= h < k ==> #[trigger] p.path@[h] == digit(b, i, h as nat)
    &&& forall|h: int| 0 <= h < k ==> #[trigger] sibs_ok(p.lemma@, v, n, b, i, h as nat)
}
/// level h of the lemma holds the siblings on the path of leaf i
pub open spec fn sibs_ok<E>(lemma: Seq<E>, v: Seq<E>, n: nat, b: nat, i: nat, h: nat) -> bool {
    forall|m: int| 0 <= m < b - 1 ==> #[trigger] lemma[1 + h * (b - 1) + m] == v[sib_at(n, b, i, h, m, digit(b, i, h) as int)]
}
/// p extends a proof of sub-tree t among sub-trees with these roots
pub open spec fn is_layer<E: Element, B: Unsigned>(p: Proof<E, B>, roots: Seq<E>, t: int, root: E, top: nat, sub: nat) -> bool {
    &&& p.sub_tree_proof is Some && p.top_layer_nodes == top && p.sub_tree_layer_nodes == sub
    &&& p.path@.len() == 1 && p.path@[0] == t
    &&& p.lemma@ == roots.remove(t).push(root)
}
/// an element that can be read is the same in all that agrees with the store
pub proof fn lemma_agrees_at<E: Element, S: Store<E>>(s: S, i: int)
    requires s.avail(i, i + 1), 0 <= i < s.view().len()
    ensures forall|t: Seq<E>| #[trigger] agrees(s, t) ==> t[i] == s.view()[i]
{
    assert forall|t: Seq<E>| #[trigger] agrees(s, t) implies t[i] == s.view()[i] by {
        assert(s.view().subrange(i, i + 1) == t.subrange(i, i + 1));
        assert(s.view().subrange(i, i + 1)[0] == s.view()[i] && t.subrange(i, i + 1)[0] == t[i]);
    }
}
pub proof fn lemma_sibs_keep<E>(l0: Seq<E>, l: Seq<E>, v: Seq<E>, n: nat, b: nat, i: nat, h: nat, g: nat)
    requires b >= 1, g < h, sibs_ok(l0, v, n, b, i, g), l0.len() == 1 + h * (b - 1), l.len() >= l0.len(), l0 == l.subrange(0, l0.len() as int)
    ensures sibs_ok(l, v, n, b, i, g)
{
    assert forall|m: int| 0 <= m < b - 1 implies #[trigger] l[1 + g * (b - 1) + m] == v[sib_at(n, b, i, g, m, digit(b, i, g) as int)] by {
        assert(g * (b - 1) + m < h * (b - 1)) by(nonlinear_arith) requires g + 1 <= h, m < b - 1, b >= 1;
        assert(g * (b - 1) >= 0) by(nonlinear_arith) requires b >= 1;
        assert(l[1 + g * (b - 1) + m] == l0[1 + g * (b - 1) + m]);
    }
}
pub proof fn lemma_bernoulli(b: nat, k: nat)
    requires b >= 1
    ensures (b - 1) * k + 1 <= bpow(b, k)
    decreases k
{
    if k > 0 {
        lemma_bernoulli(b, (k - 1) as nat);
        let x = bpow(b, (k - 1) as nat);
        lemma_bpow_pos(b, (k - 1) as nat);
        assert(b * x == (b - 1) * x + x) by(nonlinear_arith);
        assert((b - 1) * x >= b - 1) by(nonlinear_arith) requires b >= 1, x >= 1;
        assert((b - 1) * k == (b - 1) * (k - 1) + (b - 1)) by(nonlinear_arith);
    } else { assert((b - 1) * 0 == 0) by(nonlinear_arith); }
}
/// the group of b nodes that node j of a row lies in
pub proof fn lemma_group(j: int, w: int, b: int)
    requires 0 <= j < w, b > 0, w % b == 0
    ensures 0 <= (j / b) * b <= j, j < (j / b) * b + b <= w, j % b == j - (j / b) * b, j / b < w / b
{
    lemma_fundamental_div_mod(j, b); lemma_mod_bound(j, b);
    lemma_fundamental_div_mod(w, b);
    lemma_mul_is_commutative(b, j / b);
    lemma_mul_is_commutative(b, w / b);
    assert(j / b >= 0) by(nonlinear_arith) requires j >= 0, b > 0;
    assert((j / b) * b >= 0) by(nonlinear_arith) requires j / b >= 0, b > 0;
    let q = w / b; let p = j / b;
    assert(p < q) by(nonlinear_arith) requires p * b <= j, j < w, w == q * b, b > 0;
    assert((p + 1) * b <= q * b) by(nonlinear_arith) requires p + 1 <= q, b > 0;
    assert((p + 1) * b == p * b + b) by(nonlinear_arith);
}
/// one digit further up
pub proof fn lemma_bpow_step(b: nat, i: nat, h: nat)
    requires b >= 1
    ensures i / bpow(b, h + 1) == (i / bpow(b, h)) / b, bpow(b, h) >= 1, bpow(b, h + 1) >= 1
{
    lemma_bpow_pos(b, h); lemma_bpow_pos(b, h + 1);
    lemma_div_denominator(i as int, bpow(b, h) as int, b as int);
    lemma_mul_is_commutative(b as int, bpow(b, h) as int);
    assert(bpow(b, h + 1) == b * bpow(b, h));
}
/// where leaf i of n parts of l leaves lies
pub proof fn lemma_addr(total: int, n: int, l: int, i: int)
    requires total == n * l, n > 0, l > 0
    ensures total / n == l, 0 <= i < total ==> 0 <= i / l < n && 0 <= i % l < l && i == (i / l) * l + i % l, total >= n, total >= l
{
    lemma_mul_is_commutative(n, l);
    lemma_div_multiples_vanish(l, n);
    lemma_fundamental_div_mod(i, l);
    lemma_mod_bound(i, l);
    lemma_mul_is_commutative(l, i / l);
    assert(total >= n && total >= l) by(nonlinear_arith) requires total == n * l, n >= 1, l >= 1;
    if 0 <= i < total {
        assert(i / l < n) by(nonlinear_arith) requires i == (i / l) * l + i % l, i % l >= 0, i < n * l, l > 0;
        assert(i / l >= 0) by(nonlinear_arith) requires i >= 0, l > 0;
    }
}
impl<E: Element, A: Algorithm<E>, S: Store<E>, BaseTreeArity: Unsigned, SubTreeArity: Unsigned, TopTreeArity: Unsigned> MerkleTree<E, A, S, BaseTreeArity, SubTreeArity, TopTreeArity> {
    pub open spec fn k(&self) -> nat { (self.row_count - 1) as nat }
    pub open spec fn is_base(&self) -> bool { self.data is BaseTree }
    pub open spec fn st(&self) -> S { self.data->BaseTree_0 }
    /// a tree over one store
    pub open spec fn base_wf(&self) -> bool {
        &&& self.data is BaseTree
        &&& self.st().wf()
        &&& self.row_count >= 2 && self.len < 0x8000_0000_0000_0000
        &&& shape(BaseTreeArity::n(), self.leafs as nat, self.k())
        &&& self.len == tlen(BaseTreeArity::n(), self.k())
        &&& self.st().view().len() == self.len
    }
    pub open spec fn mid_wf(&self) -> bool {
        match self.data {
            Data::BaseTree(_) => self.base_wf(),
            Data::SubTree(ts) => {
                &&& ts@.len() == SubTreeArity::n() && ts@.len() > 0 && TopTreeArity::n() == 0
                &&& forall|i: int| 0 <= i < ts@.len() ==> (#[trigger] ts@[i]).base_wf() && ts@[i].row_count == ts@[0].row_count && ts@[i].len == ts@[0].len && ts@[i].leafs == ts@[0].leafs
                &&& self.leafs == ts@.len() * ts@[0].leafs && self.len == ts@.len() * ts@[0].len + 1 && self.row_count == ts@[0].row_count + 1
                &&& self.root == A::nh(Seq::new(ts@.len(), |i: int| ts@[i].root), 1)
            }
            Data::TopTree(_) => false,
        }
    }
    pub open spec fn wf(&self) -> bool {
        match self.data {
            Data::TopTree(ts) => {
                &&& ts@.len() == TopTreeArity::n() && ts@.len() > 0
                &&& forall|i: int| 0 <= i < ts@.len() ==> (#[trigger] ts@[i]).mid_wf() && ts@[i].row_count == ts@[0].row_count && ts@[i].len == ts@[0].len && ts@[i].leafs == ts@[0].leafs
                &&& self.leafs == ts@.len() * ts@[0].leafs && self.len == ts@.len() * ts@[0].len + 1 && self.row_count == ts@[0].row_count + 1
                &&& self.root == A::nh(Seq::new(ts@.len(), |i: int| ts@[i].root), 1)
            }
            _ => self.mid_wf(),
        }
    }
    pub proof fn lemma_base_pos(&self)
        requires self.base_wf()
        ensures 1 <= self.leafs <= self.len, (BaseTreeArity::n() - 1) * self.k() + 1 <= self.leafs, 2 <= BaseTreeArity::n() <= self.leafs
    { lemma_bernoulli(BaseTreeArity::n(), self.k()); lemma_bpow_mono(BaseTreeArity::n(), 0, self.k()); assert(bpow(BaseTreeArity::n(), 0) == 1); lemma_bpow_pos(BaseTreeArity::n(), self.k()); lemma_tlen_pos(BaseTreeArity::n(), self.k()); }
    pub proof fn lemma_mid_pos(&self)
        requires self.mid_wf()
        ensures self.leafs >= 2, self.len >= 1, self.roots().len() < usize::MAX, 2 <= BaseTreeArity::n() < 0x8000_0000_0000_0000,
            self.data is SubTree ==> self.data->SubTree_0@[0].leafs >= 1 && forall|i: int| 0 <= i < self.leafs ==> 0 <= #[trigger] (i / (self.data->SubTree_0@[0].leafs as int)) < SubTreeArity::n() && 0 <= i % (self.data->SubTree_0@[0].leafs as int) < self.data->SubTree_0@[0].leafs,
            self.data is SubTree ==> self.leafs as int / SubTreeArity::n() as int == self.data->SubTree_0@[0].leafs,
    {
        match self.data {
            Data::SubTree(ts) => {
                ts@[0].lemma_base_pos();
                assert(self.leafs >= 2 * ts@.len()) by(nonlinear_arith) requires self.leafs == ts@.len() * ts@[0].leafs, ts@[0].leafs >= 2;
                assert forall|i: int| 0 <= i < self.leafs implies 0 <= #[trigger] (i / (ts@[0].leafs as int)) < SubTreeArity::n() && 0 <= i % (ts@[0].leafs as int) < ts@[0].leafs by { lemma_addr(self.leafs as int, ts@.len() as int, ts@[0].leafs as int, i); }
                lemma_addr(self.leafs as int, ts@.len() as int, ts@[0].leafs as int, 0);
            }
            _ => { self.lemma_base_pos(); }
        }
    }
    pub proof fn lemma_pos(&self)
        requires self.wf()
        ensures self.leafs >= 2, self.len >= 1, self.roots().len() < usize::MAX, 2 <= BaseTreeArity::n() < 0x8000_0000_0000_0000,
            self.data is BaseTree ==> (BaseTreeArity::n() - 1) * self.k() + 1 <= self.leafs && BaseTreeArity::n() <= self.leafs,
            self.data is SubTree ==> self.mid_wf(),
            self.data is SubTree ==> self.data->SubTree_0@[0].leafs >= 1 && forall|i: int| 0 <= i < self.leafs ==> 0 <= #[trigger] (i / (self.data->SubTree_0@[0].leafs as int)) < SubTreeArity::n() && 0 <= i % (self.data->SubTree_0@[0].leafs as int) < self.data->SubTree_0@[0].leafs,
            self.data is SubTree ==> self.leafs as int / SubTreeArity::n() as int == self.data->SubTree_0@[0].leafs,
            self.data is TopTree ==> self.data->TopTree_0@[0].leafs >= 1 && forall|i: int| 0 <= i < self.leafs ==> 0 <= #[trigger] (i / (self.data->TopTree_0@[0].leafs as int)) < TopTreeArity::n() && 0 <= i % (self.data->TopTree_0@[0].leafs as int) < self.data->TopTree_0@[0].leafs,
            self.data is TopTree ==> self.leafs as int / TopTreeArity::n() as int == self.data->TopTree_0@[0].leafs,
    {
        match self.data {
            Data::TopTree(ts) => {
                ts@[0].lemma_mid_pos();
                assert(self.leafs >= 2 * ts@.len()) by(nonlinear_arith) requires self.leafs == ts@.len() * ts@[0].leafs, ts@[0].leafs >= 2;
                assert forall|i: int| 0 <= i < self.leafs implies 0 <= #[trigger] (i / (ts@[0].leafs as int)) < TopTreeArity::n() && 0 <= i % (ts@[0].leafs as int) < ts@[0].leafs by { lemma_addr(self.leafs as int, ts@.len() as int, ts@[0].leafs as int, i); }
                lemma_addr(self.leafs as int, ts@.len() as int, ts@[0].leafs as int, 0);
            }
            _ => { self.lemma_mid_pos(); if self.data is BaseTree { self.lemma_base_pos(); } }
        }
    }
    pub open spec fn roots(&self) -> Seq<E> {
        match self.data {
            Data::TopTree(ts) => Seq::new(ts@.len(), |i: int| ts@[i].root),
            Data::SubTree(ts) => Seq::new(ts@.len(), |i: int| ts@[i].root),
            Data::BaseTree(_) => seq![self.root],
        }
    }
    /// t are the nodes of the tree
    pub open spec fn nodes(&self, t: Seq<E>) -> bool {
        self.data is BaseTree && agrees(self.st(), t) && is_tree::<E, A>(t, t.subrange(0, self.leafs as int), BaseTreeArity::n(), self.k()) && self.root == t.last()
    }
    /// all nodes are what they have to be, as far as they can be read
    pub open spec fn base_full(&self) -> bool { exists|t: Seq<E>| #[trigger] self.nodes(t) }
    pub open spec fn mid_full(&self) -> bool {
        match self.data { Data::SubTree(ts) => forall|i: int| 0 <= i < ts@.len() ==> (#[trigger] ts@[i]).base_full(), _ => self.base_full() }
    }
    pub open spec fn full(&self) -> bool {
        match self.data { Data::TopTree(ts) => forall|i: int| 0 <= i < ts@.len() ==> (#[trigger] ts@[i]).mid_full(), _ => self.mid_full() }
    }
    /// leaf i
    pub open spec fn base_leaf(&self, i: nat) -> E { self.st().view()[i as int] }
    pub open spec fn mid_leaf(&self, i: nat) -> E {
        match self.data { Data::SubTree(ts) => ts@[(i / (ts@[0].leafs as nat)) as int].base_leaf(i % (ts@[0].leafs as nat)), _ => self.base_leaf(i) }
    }
    pub open spec fn leaf(&self, i: nat) -> E {
        match self.data { Data::TopTree(ts) => ts@[(i / (ts@[0].leafs as nat)) as int].mid_leaf(i % (ts@[0].leafs as nat)), _ => self.mid_leaf(i) }
    }
    /// p is the proof of leaf i
    pub open spec fn base_proof(&self, i: nat, p: Proof<E, BaseTreeArity>, honest: bool) -> bool {
        p.lemma@.len() > 0 && p.lemma@[0] == self.base_leaf(i) && p.fits() && forall|t: Seq<E>| agrees(self.st(), t) && (honest ==> #[trigger] self.nodes(t)) ==> #[trigger] is_proof(p, t, self.leafs as nat, self.k(), i, self.root)
    }
    pub open spec fn mid_proof(&self, i: nat, p: Proof<E, BaseTreeArity>, honest: bool) -> bool {
        match self.data {
            Data::BaseTree(_) => self.base_proof(i, p, honest),
            Data::SubTree(ts) => {
                let l = ts@[0].leafs as nat;
                is_layer(p, Seq::new(ts@.len(), |i: int| ts@[i].root), (i / l) as int, self.root, TopTreeArity::n(), SubTreeArity::n()) && p.fits()
                    && ts@[(i / l) as int].base_proof(i % l, *p.sub_tree_proof->0, honest)
            }
            Data::TopTree(_) => false,
        }
    }
    pub open spec fn tree_proof(&self, i: nat, p: Proof<E, BaseTreeArity>, honest: bool) -> bool {
        match self.data {
            Data::TopTree(ts) => {
                let l = ts@[0].leafs as nat;
                is_layer(p, Seq::new(ts@.len(), |i: int| ts@[i].root), (i / l) as int, self.root, TopTreeArity::n(), SubTreeArity::n()) && p.fits()
                    && ts@[(i / l) as int].mid_proof(i % l, *p.sub_tree_proof->0, honest)
            }
            _ => self.mid_proof(i, p, honest),
        }
    }
    pub open spec fn base_readable(&self) -> bool { readable(self.st()) && SubTreeArity::n() == 0 && TopTreeArity::n() == 0 }
    pub open spec fn mid_readable(&self) -> bool {
        match self.data { Data::SubTree(ts) => forall|i: int| 0 <= i < ts@.len() ==> (#[trigger] ts@[i]).base_readable(), _ => self.base_readable() }
    }
    pub open spec fn can_read(&self) -> bool {
        match self.data { Data::TopTree(ts) => forall|i: int| 0 <= i < ts@.len() ==> (#[trigger] ts@[i]).mid_readable(), _ => self.mid_readable() }
    }
}
/// the nodes on the path of leaf i hash up to the root
pub proof fn lemma_up<E: Element, A: Algorithm<E>>(t: Seq<E>, n: nat, b: nat, k: nat, i: nat, lemma: Seq<E>, path: Seq<usize>, h: nat)
    requires shape(b, n, k), t.len() == tlen(b, k), rows_ok::<E, A>(t, n, b, k), i < n, h <= k,
        path.len() == k, lemma.len() == 2 + k * (b - 1),
        forall|g: int| 0 <= g < k ==> #[trigger] path[g] == digit(b, i, g as nat),
        forall|g: int| 0 <= g < k ==> #[trigger] sibs_ok(lemma, t, n, b, i, g as nat),
    ensures up::<E, A>(t[off(n, b, h) + (i / bpow(b, h)) as int], lemma.subrange(1, lemma.len() - 1), path, b, h) == t.last()
    decreases k - h
{
    let sib = lemma.subrange(1, lemma.len() - 1);
    let j = (i / bpow(b, h)) as int;
    lemma_bpow_pos(b, h); lemma_off_shape(n, b, k, h); lemma_wid_shape(n, b, k, h);
    lemma_digits(b, n, k, i, h);
    if h == k {
        lemma_off_total(n, b, k);
        assert(bpow(b, 0) == 1);
    } else {
        let node = t[off(n, b, h) + j];
        lemma_bpow_step(b, i, h);
        lemma_bpow_div(b, (k - h) as nat);
        lemma_group(j, wid(n, b, h) as int, b as int);
        let o = off(n, b, h) + (j / b as int) * b;
        let x = j - (j / b as int) * b;
        lemma_wid_shape(n, b, k, h + 1); lemma_off_shape(n, b, k, h + 1);
        lemma_digits(b, n, k, i, h + 1);
        assert(path[h as int] == digit(b, i, h));
        assert(sibs_ok(lemma, t, n, b, i, h));
        assert((h + 1) * (b - 1) == h * (b - 1) + (b - 1)) by(nonlinear_arith);
        assert((h + 1) * (b - 1) <= k * (b - 1)) by(nonlinear_arith) requires h + 1 <= k, b >= 1;
        assert(h * (b - 1) >= 0) by(nonlinear_arith) requires b >= 1;
        assert(group(sib, b, h).len() == b - 1);
        let ks = kids(sib, path, b, h, node);
        let want = t.subrange(o, o + b);
        assert(digit(b, i, h) == x);
        assert(i / bpow(b, h + 1) == j / b as int);
        assert forall|q: int| 0 <= q < b implies #[trigger] ks[q] == want[q] by {
            if q < x { assert(sib[h * (b - 1) + q] == lemma[1 + h * (b - 1) + q]); assert(sib_at(n, b, i, h, q, x) == o + q); }
            else if q > x { assert(sib[h * (b - 1) + q - 1] == lemma[1 + h * (b - 1) + (q - 1)]); assert(sib_at(n, b, i, h, q - 1, x) == o + q); }
        }
        assert(ks =~= want);
        assert(row_ok::<E, A>(t, n, b, h + 1));
        assert(((h + 1) - 1) as nat == h);
        let jj = (i / bpow(b, h + 1)) as int;
        assert(t[off(n, b, h + 1) + jj] == A::nh(t.subrange(off(n, b, h) + jj * b, off(n, b, h) + jj * b + b), h));
        lemma_up::<E, A>(t, n, b, k, i, lemma, path, h + 1);
    }
}
/// the node on row h above leaf i lies in that row
pub proof fn lemma_digits(b: nat, n: nat, k: nat, i: nat, h: nat)
    requires shape(b, n, k), i < n, h <= k
    ensures i / bpow(b, h) < bpow(b, (k - h) as nat)
{
    lemma_bpow_pos(b, h);
    lemma_bpow_add(b, h, (k - h) as nat);
    let (m, c) = (bpow(b, h), bpow(b, (k - h) as nat));
    lemma_fundamental_div_mod(i as int, m as int); lemma_mod_bound(i as int, m as int);
    assert(i / m < c) by(nonlinear_arith) requires i == m * (i / m) + i % m, i % m >= 0, i < m * c, m >= 1;
}
/// putting back what was removed
pub proof fn lemma_layer_kids<E>(lemma: Seq<E>, path: Seq<usize>, roots: Seq<E>, t: int, root: E)
    requires 0 <= t < roots.len(), path.len() == 1, path[0] == t, lemma == roots.remove(t).push(root)
    ensures kids(lemma, path, roots.len(), 0, roots[t]) == roots, lemma.len() == roots.len(), lemma.last() == root
{
    assert(0 * (roots.len() - 1) == 0) by(nonlinear_arith);
    assert(1 * (roots.len() - 1) == roots.len() - 1) by(nonlinear_arith);
    assert(kids(lemma, path, roots.len(), 0, roots[t]) =~= roots);
}
impl<E: Element, A: Algorithm<E>, S: Store<E>, BaseTreeArity: Unsigned, SubTreeArity: Unsigned, TopTreeArity: Unsigned> MerkleTree<E, A, S, BaseTreeArity, SubTreeArity, TopTreeArity> {
    /// the proof of a leaf of a tree that is what it has to be validates
    pub proof fn lemma_base_valid(&self, i: nat, p: Proof<E, BaseTreeArity>, honest: bool)
        requires self.base_wf(), self.base_full(), i < self.leafs, self.base_proof(i, p, honest)
        ensures p.valid::<A>(), p.sitem() == self.base_leaf(i), p.sroot() == self.root
    {
        let t = choose|t: Seq<E>| #[trigger] self.nodes(t);
        assert(is_proof(p, t, self.leafs as nat, self.k(), i, self.root));
        let (b, n, k) = (BaseTreeArity::n(), self.leafs as nat, self.k());
        lemma_up::<E, A>(t, n, b, k, i, p.lemma@, p.path@, 0);
        assert(bpow(b, 0) == 1); assert(i / 1 == i) by(nonlinear_arith);
        assert(k * (b - 1) == (b - 1) * k) by(nonlinear_arith);
        assert(k * (b - 1) >= 0) by(nonlinear_arith) requires b >= 1;
        assert forall|g: int| 0 <= g < k implies p.path@[g] < b by {
            assert(p.path@[g] == digit(b, i, g as nat));
            lemma_mod_bound((i / bpow(b, g as nat)) as int, b as int);
        }
    }
    pub proof fn lemma_mid_valid(&self, i: nat, p: Proof<E, BaseTreeArity>, honest: bool)
        requires self.mid_wf(), self.mid_full(), i < self.leafs, self.mid_proof(i, p, honest)
        ensures p.valid::<A>(), p.sitem() == self.mid_leaf(i), p.sroot() == self.root
    {
        self.lemma_mid_pos();
        match self.data {
            Data::SubTree(ts) => {
                let l = ts@[0].leafs as nat;
                let t = (i / l) as int;
                assert(i as int / l as int == t && 0 <= t < ts@.len());
                assert(i as int % l as int == i % l);
                ts@[t].lemma_base_valid(i % l, *p.sub_tree_proof->0, honest);
                let roots = Seq::new(ts@.len(), |i: int| ts@[i].root);
                lemma_layer_kids(p.lemma@, p.path@, roots, t, self.root);
            }
            _ => { self.lemma_base_valid(i, p, honest); }
        }
    }
    pub proof fn lemma_valid(&self, i: nat, p: Proof<E, BaseTreeArity>, honest: bool)
        requires self.wf(), self.full(), i < self.leafs, self.tree_proof(i, p, honest)
        ensures p.valid::<A>(), p.sitem() == self.leaf(i), p.sroot() == self.root, p.fits()
    {
        self.lemma_pos();
        match self.data {
            Data::TopTree(ts) => {
                let l = ts@[0].leafs as nat;
                let t = (i / l) as int;
                assert(i as int / l as int == t && 0 <= t < ts@.len());
                assert(i as int % l as int == i % l);
                ts@[t].lemma_mid_valid(i % l, *p.sub_tree_proof->0, honest);
                let roots = Seq::new(ts@.len(), |i: int| ts@[i].root);
                lemma_layer_kids(p.lemma@, p.path@, roots, t, self.root);
            }
            _ => { self.lemma_mid_valid(i, p, honest); }
        }
    }
}
} // verus!
