verus! {
/// rows of the tree over a segment of the leaves are segments of the rows of the whole tree
pub proof fn lemma_seg<E: Element, A: Algorithm<E>>(t: Seq<E>, p: Seq<E>, n: nat, b: nat, k: nat, m: nat, q: nat, h: nat, x: int)
    requires shape(b, n, k), m <= k, h <= m, t.len() == tlen(b, k), rows_ok::<E, A>(t, n, b, k), q < bpow(b, (k - m) as nat),
        is_tree::<E, A>(p, t.subrange((q * bpow(b, m)) as int, (q * bpow(b, m) + bpow(b, m)) as int), b, m), 0 <= x < bpow(b, (m - h) as nat),
    ensures t[off(n, b, h) + q * bpow(b, (m - h) as nat) + x] == p[off(bpow(b, m), b, h) + x]
    decreases h
{
    let sw = bpow(b, m); let c = bpow(b, (m - h) as nat); let r = bpow(b, (k - m) as nat);
    lemma_bpow_pos(b, m);
    lemma_bpow_add(b, m, (k - m) as nat);
    lemma_off_shape(n, b, k, h); lemma_wid_shape(n, b, k, h); lemma_off_shape(sw, b, m, h); lemma_wid_shape(sw, b, m, h);
    assert(q * sw + sw <= n) by(nonlinear_arith) requires q + 1 <= r, n == sw * r, sw >= 0;
    assert(q * sw >= 0) by(nonlinear_arith) requires sw >= 0, q >= 0;
    assert(n <= tlen(b, k)) by { lemma_tlen_pos(b, k); }
    let leaves = t.subrange((q * sw) as int, (q * sw + sw) as int);
    assert(leaves.len() == sw);
    if h == 0 {
        assert(p.subrange(0, sw as int)[x] == leaves[x]);
    } else {
        let g = (h - 1) as nat;
        let c1 = bpow(b, (m - g) as nat);
        assert(c1 == b * c);
        assert((m - h) as nat + (k - m) as nat == (k - h) as nat);
        lemma_bpow_add(b, (m - h) as nat, (k - m) as nat);
        let i = q * c + x;
        assert(0 <= i < wid(n, b, h)) by(nonlinear_arith) requires i == q * c + x, q + 1 <= r, 0 <= x < c, wid(n, b, h) == c * r, q >= 0;
        assert(row_ok::<E, A>(t, n, b, h)); assert(row_ok::<E, A>(p, sw, b, h));
        assert(t[off(n, b, h) + i] == A::nh(t.subrange(off(n, b, g) + i * b, off(n, b, g) + i * b + b), g));
        assert(p[off(sw, b, h) + x] == A::nh(p.subrange(off(sw, b, g) + x * b, off(sw, b, g) + x * b + b), g));
        let a1 = t.subrange(off(n, b, g) + i * b, off(n, b, g) + i * b + b);
        let a2 = p.subrange(off(sw, b, g) + x * b, off(sw, b, g) + x * b + b);
        lemma_off_shape(n, b, k, g); lemma_wid_shape(n, b, k, g); lemma_off_shape(sw, b, m, g); lemma_wid_shape(sw, b, m, g);
        assert(wid(n, b, g) == b * wid(n, b, h));
        assert(i * b + b <= wid(n, b, g) && i * b >= 0) by(nonlinear_arith) requires 0 <= i, i + 1 <= wid(n, b, h), wid(n, b, g) == b * wid(n, b, h), b >= 0;
        assert(x * b + b <= c1 && x * b >= 0) by(nonlinear_arith) requires 0 <= x, x + 1 <= c, c1 == b * c, b >= 0;
        assert forall|y: int| 0 <= y < b implies #[trigger] a1[y] == a2[y] by {
            lemma_seg::<E, A>(t, p, n, b, k, m, q, g, x * b + y);
            assert(i * b == q * c1 + x * b) by(nonlinear_arith) requires i == q * c + x, c1 == b * c;
        }
        assert(a1 =~= a2);
    }
}
/// the node above leaf i on row g lies in the segment of i
pub proof fn lemma_seg_idx(b: nat, i: nat, m: nat, g: nat)
    requires b >= 1, g <= m
    ensures ({ let q = i / bpow(b, m); let c = bpow(b, (m - g) as nat); (q * bpow(b, m)) / bpow(b, g) == q * c && q * c <= i / bpow(b, g) < q * c + c && q * bpow(b, m) <= i < q * bpow(b, m) + bpow(b, m) && bpow(b, g) >= 1 && bpow(b, m) >= 1 && c >= 1 })
{
    let q = i / bpow(b, m); let c = bpow(b, (m - g) as nat); let e = bpow(b, g); let sw = bpow(b, m);
    lemma_bpow_pos(b, g); lemma_bpow_pos(b, m); lemma_bpow_pos(b, (m - g) as nat);
    lemma_bpow_add(b, g, (m - g) as nat);
    lemma_div_denominator(i as int, e as int, c as int);
    let y = (i / e) as int;
    lemma_fundamental_div_mod(y, c as int); lemma_mod_bound(y, c as int); lemma_mul_is_commutative(c as int, q as int);
    assert(q * sw == e * (q * c)) by(nonlinear_arith) requires sw == e * c;
    lemma_div_multiples_vanish((q * c) as int, e as int);
    lemma_fundamental_div_mod(i as int, sw as int); lemma_mod_bound(i as int, sw as int); lemma_mul_is_commutative(sw as int, q as int);
}
/// the group of the node above leaf i on row g lies in the segment of i, if that is higher than g
pub proof fn lemma_seg_group(b: nat, i: nat, m: nat, g: nat)
    requires b >= 1, g < m
    ensures ({ let q = i / bpow(b, m); let c = bpow(b, (m - g) as nat); let j = (i / bpow(b, g)) as int; q * c <= (j / b as int) * b && (j / b as int) * b + b <= q * c + c })
{
    let q = i / bpow(b, m); let c = bpow(b, (m - g) as nat); let j = (i / bpow(b, g)) as int;
    lemma_seg_idx(b, i, m, g);
    let e = bpow(b, (m - g - 1) as nat);
    assert(c == b * e);
    let u = j / b as int;
    lemma_fundamental_div_mod(j, b as int); lemma_mod_bound(j, b as int);
    assert(u >= q * e) by(nonlinear_arith) requires j == b * u + j % (b as int), j % (b as int) < b, j >= q * c, c == b * e, b >= 1;
    assert(u < q * e + e) by(nonlinear_arith) requires j == b * u + j % (b as int), j % (b as int) >= 0, j < q * c + c, c == b * e, b >= 1;
    assert(q * c <= u * b && u * b + b <= q * c + c) by(nonlinear_arith) requires u >= q * e, u + 1 <= q * e + e, c == b * e, b >= 1;
}
/// the number of rows that are rebuilt
pub open spec fn discarded(rd: Option<usize>, b: nat, k: nat) -> nat { match rd { Some(r) => if r < k - 1 { r as nat } else { (k - 1) as nat }, None => sdefault(b, k) } }
impl<E: Element, A: Algorithm<E>, S: Store<E>, BaseTreeArity: Unsigned, SubTreeArity: Unsigned, TopTreeArity: Unsigned> MerkleTree<E, A, S, BaseTreeArity, SubTreeArity, TopTreeArity> {
    /// the sizes the proofs are stated for
    pub open spec fn cdom(&self) -> bool {
        BaseTreeArity::n() <= 0x4000_0000 && self.leafs <= 0x4000_0000_0000_0000 && self.leafs * BaseTreeArity::n() <= 0x8000_0000_0000_0000 && 2 * self.leafs * E::blen() <= MAXB
    }
    /// the base row and the rows above the d discarded ones can be read
    pub open spec fn base_cached(&self, d: nat) -> bool {
        &&& self.st().good() && SubTreeArity::n() == 0 && TopTreeArity::n() == 0 && BaseTreeArity::n() <= 4096
        &&& forall|lo: int, hi: int| #![trigger self.st().avail(lo, hi)] 0 <= lo <= hi && (hi <= self.leafs || off(self.leafs as nat, BaseTreeArity::n(), d + 1) <= lo && hi <= self.len) ==> self.st().avail(lo, hi)
    }
    pub open spec fn mid_cached(&self, rd: Option<usize>) -> bool {
        match self.data { Data::SubTree(ts) => forall|i: int| 0 <= i < ts@.len() ==> (#[trigger] ts@[i]).base_cached(discarded(rd, BaseTreeArity::n(), ts@[i].k())), _ => self.base_cached(discarded(rd, BaseTreeArity::n(), self.k())) }
    }
    pub open spec fn cached(&self, rd: Option<usize>) -> bool {
        match self.data { Data::TopTree(ts) => forall|i: int| 0 <= i < ts@.len() ==> (#[trigger] ts@[i]).mid_cached(rd), _ => self.mid_cached(rd) }
    }
    /// p is the tree over the segment of the leaves that leaf i lies in
    pub open spec fn segment<P: Store<E>>(&self, i: nat, d: nat, p: MerkleTree<E, A, P, BaseTreeArity, U0, U0>) -> bool {
        let b = BaseTreeArity::n(); let sw = bpow(b, d + 1); let s = ((i / sw) * sw) as int;
        &&& d < self.k() && p.base_wf() && p.wf() && p.leafs == sw && p.k() == d + 1 && readable(p.st()) && p.len == p.st().view().len()
        &&& is_tree::<E, A>(p.st().view(), self.st().view().subrange(s, s + sw), b, d + 1) && self.st().avail(s, s + sw)
    }
//% fn src/merkle.rs MerkleTree::build_partial_tree
//% spec
    requires data.wf(), data.view().len() == leafs, row_count >= 2, shape(BaseTreeArity::n(), leafs as nat, (row_count - 1) as nat), BaseTreeArity::n() <= 0x4000_0000, leafs * BaseTreeArity::n() <= 0x8000_0000_0000_0000, 2 * leafs * E::blen() <= MAXB
    ensures r is Ok ==> r->Ok_0.base_wf() && r->Ok_0.leafs == leafs && r->Ok_0.row_count == row_count && is_tree::<E, A>(r->Ok_0.st().view(), data.view(), BaseTreeArity::n(), (row_count - 1) as nat) && r->Ok_0.len == r->Ok_0.st().view().len(),
        BaseTreeArity::n() <= 4096 ==> r is Ok
//% hint start
    proof {
        let b = BaseTreeArity::n(); let k = (row_count - 1) as nat;
        E::el_ax(); lemma_shape_p2(b, leafs as nat, k); lemma_rows_fit_shape(leafs as nat, b, k); lemma_tlen_bound(b, k); lemma_p2_ge2(b);
        assert(2 * leafs <= 2 * leafs * E::blen()) by(nonlinear_arith) requires E::blen() >= 1, leafs >= 0;
        assert(b * bpow(b, (k - 1) as nat) == bpow(b, k)); lemma_bpow_pos(b, (k - 1) as nat);
        assert(leafs <= 0x4000_0000_0000_0000 && leafs * b <= 0x8000_0000_0000_0000);
    }
//% hint let root
    proof { let k = (row_count - 1) as nat; assert(bpow(BaseTreeArity::n(), k) == leafs); }
//% end
//% fn src/merkle.rs MerkleTree::gen_proof_with_partial_tree
//% spec
    requires self.wf(), self.data is BaseTree, self.cdom(), rows_to_discard < self.k(), i < self.leafs ==> self.segment(i as nat, rows_to_discard as nat, *partial_tree)
    ensures
        r is Ok ==> i < self.leafs && self.base_proof(i as nat, r->Ok_0, true),
        self.base_cached(rows_to_discard as nat) && i < self.leafs ==> r is Ok,
//% hint start
    let ghost b = BaseTreeArity::n();
    let ghost n = self.leafs as nat;
    let ghost k0 = self.k();
    let ghost d = rows_to_discard as nat;
    let ghost m = (rows_to_discard + 1) as nat;
    let ghost sw = bpow(b, m);
    let ghost q = i as nat / sw;
    let ghost st = self.st();
    let ghost pt = partial_tree.st().view();
    proof { self.lemma_pos(); self.lemma_base_pos(); lemma_shape_p2(b, n, k0); lemma_p2_misc(); lemma_bpow_mono(b, 0, k0); assert(bpow(b, 0) == 1);
        lemma_seg_idx(b, i as nat, m, m); lemma_bpow_add(b, m, (k0 - m) as nat); lemma_bpow_pos(b, m); lemma_bpow_pos(b, (k0 - m) as nat); lemma_tlen_pos(b, (k0 - m) as nat); lemma_tlen_bound(b, (k0 - m) as nat); lemma_tlen_bound(b, k0);
        let s = lemma_arity(b); lemma_off_shape(n, b, k0, m); lemma_tlen_mono(b, (k0 - m) as nat, k0);
        assert(bpow(b, k0) == n); assert(tlen(b, k0) == self.len);
        let c = bpow(b, (k0 - m) as nat); let l = tlen(b, (k0 - m) as nat);
        lemma_shape_p2(b, c, (k0 - m) as nat);
        assert(sw >= b) by { assert(bpow(b, m) == b * bpow(b, d)); lemma_bpow_pos(b, d); assert(b * bpow(b, d) >= b) by(nonlinear_arith) requires bpow(b, d) >= 1, b >= 0; }
        assert(n == sw * c);
        lemma_bpow_ge(b, k0);
        assert(l * b <= 2 * c * b) by(nonlinear_arith) requires l <= 2 * c - 1, b >= 0;
        assert(c * b <= n) by(nonlinear_arith) requires n == sw * c, sw >= b, c >= 0;
        assert(2 * c * b == 2 * (c * b)) by(nonlinear_arith);
        lemma_div_multiples_vanish(sw as int, c as int); lemma_mul_is_commutative(c as int, sw as int);
        assert forall|x: nat| #[trigger] tlen(b, x) == l implies x == k0 - m by { if x < k0 - m { lemma_tlen_mono(b, x, (k0 - m) as nat); } else if x > k0 - m { lemma_tlen_mono(b, (k0 - m) as nat, x); } }
    }
//% hint let cached_leafs
    proof { assert(cache_size == tlen(b, (k0 - m) as nat)); assert(cached_leafs == bpow(b, (k0 - m) as nat)); }
//% hint loop 0 before
    let ghost mut h: nat = 0;
    proof {
        lemma_off_shape(n, b, k0, 0); lemma_off_shape(n, b, k0, k0); lemma_wid_shape(n, b, k0, k0); lemma_off_total(n, b, k0); assert(0 * (b - 1) == 0) by(nonlinear_arith); lemma_agrees_at(st, i as int); assert(i as nat / 1 == i) by(nonlinear_arith);
        assert(segment_width == sw && segment_start == q * sw && cache_index_start == off(n, b, m));
        assert((q * sw) as nat / 1 == q * sw) by(nonlinear_arith);
        lemma_seg_idx(b, i as nat, m, 0); lemma_off_bound(sw, b, 0);
    }
//% loop 0
    invariant
        self.wf(), self.data is BaseTree, self.cdom(), b == BaseTreeArity::n(), n == self.leafs, k0 == self.k(), i < n, branches == b, b >= 2, shape(b, n, k0), st == self.st(),
        d == rows_to_discard, m == d + 1, m <= k0, sw == bpow(b, m), sw <= n, q == i as nat / sw, self.segment(i as nat, d, *partial_tree), pt == partial_tree.st().view(),
        data_width == n, cache_index_start == off(n, b, m),
        h <= k0, base == off(n, b, h), j == i as nat / bpow(b, h), width == bpow(b, (k0 - h) as nat), j < width, base < self.len,
        segment_width == wid(sw, b, h), partial_base == off(sw, b, h), segment_shift == (q * sw) / bpow(b, h), q * sw <= i,
        shift < 64, b == pow2(shift as nat), off(n, b, k0) + 1 == tlen(b, k0), self.len == tlen(b, k0),
        path@.len() == h, lemma@.len() == 1 + h * (b - 1), (b - 1) * k0 + 1 <= n,
        forall|g: int| 0 <= g < h ==> #[trigger] path@[g] == digit(b, i as nat, g as nat),
        forall|g: int, t: Seq<E>| 0 <= g < h && self.nodes(t) ==> #[trigger] sibs_ok(lemma@, t, n, b, i as nat, g as nat),
        forall|t: Seq<E>| #[trigger] agrees(st, t) ==> lemma@[0] == t[i as int],
        lemma@[0] == self.base_leaf(i as nat),
        SubTreeArity::n() == 0 && TopTreeArity::n() == 0,
    decreases self.len - base
//% hint loop 0 start
    let ghost l0 = lemma@;
    let ghost x = j as int - (j as int / b as int) * b;
    proof {
        lemma_off_shape(n, b, k0, h); lemma_wid_shape(n, b, k0, h);
        if h == k0 { assert(false); }
        lemma_bpow_div(b, (k0 - h) as nat);
        lemma_group(j as int, width as int, b as int);
        lemma_bpow_step(b, i as nat, h);
        lemma_bpow_step(b, (q * sw) as nat, h);
        lemma_shr(width, shift); lemma_shr(j, shift); lemma_shr(segment_width, shift); lemma_shr(segment_shift, shift);
        assert(l0 =~= lemma@.subrange(0, l0.len() as int));
        lemma_off_bound(sw, b, h); lemma_off_bound(sw, b, h + 1);
        if h < m { lemma_seg_group(b, i as nat, m, h); lemma_seg_idx(b, i as nat, m, h); lemma_off_shape(sw, b, m, h); lemma_wid_shape(sw, b, m, h); lemma_off_mono(n, b, h + 1, m); } else { lemma_off_mono(n, b, m, h); }
        if h > 0 { lemma_off_mono(n, b, 1, h); assert(off(n, b, 1) == n) by { assert(off(n, b, 1) == off(n, b, 0) + wid(n, b, 0)); } }
        lemma_digits(b, n, k0, i as nat, m);
    }
//% loop 1
    invariant
        self.wf(), self.data is BaseTree, b == BaseTreeArity::n(), n == self.leafs, k0 == self.k(), i < n, branches == b, b >= 2, shape(b, n, k0), h < k0, st == self.st(),
        d == rows_to_discard, m == d + 1, m <= k0, sw == bpow(b, m), q == i as nat / sw, q < bpow(b, (k0 - m) as nat), self.segment(i as nat, d, *partial_tree), pt == partial_tree.st().view(),
        data_width == n, cache_index_start == off(n, b, m), h > 0 ==> base >= n, h >= m ==> base >= cache_index_start, h < m ==> base + width <= cache_index_start, self.len == tlen(b, k0), h == 0 ==> width == n,
        h < m ==> partial_base == off(sw, b, h) && segment_shift == q * bpow(b, (m - h) as nat) && segment_shift <= hash_index && hash_index + b <= segment_shift + bpow(b, (m - h) as nat) && partial_base + bpow(b, (m - h) as nat) <= tlen(b, m),
        base == off(n, b, h), base + width <= self.len, j == i as nat / bpow(b, h), hash_index == (j as int / b as int) * b, hash_index + b <= width, hash_index <= j < hash_index + b,
        vx_n1 == hash_index + b, hash_index <= vx_i1 <= vx_n1, x == j - hash_index,
        lemma@.len() == l0.len() + (vx_i1 - hash_index) - (if vx_i1 > j { 1int } else { 0 }), l0 == lemma@.subrange(0, l0.len() as int), l0.len() == 1 + h * (b - 1),
        i as nat / bpow(b, h + 1) == j as nat / b, digit(b, i as nat, h) == x,
        forall|t: Seq<E>, y: int| #![trigger agrees(st, t), lemma@[1 + h * (b - 1) + y]] self.nodes(t) && 0 <= y < lemma@.len() - l0.len() ==> lemma@[1 + h * (b - 1) + y] == t[sib_at(n, b, i as nat, h, y, x)],
        SubTreeArity::n() == 0 && TopTreeArity::n() == 0,
    decreases vx_n1 - vx_i1
//% hint loop 1 start
    let ghost l1 = lemma@;
    proof { partial_tree.lemma_base_pos(); }
//% hint loop 1 end
    proof {
        if k != j {
            let z = base + k;
            assert(lemma@ =~= l1.push(lemma@.last()));
            if z < n || z >= cache_index_start { lemma_agrees_at(st, z); }
            else {
                let y = k - segment_shift;
                assert(h < m);
                let s = (q * sw) as int;
                assert forall|t: Seq<E>| #[trigger] self.nodes(t) implies lemma@.last() == t[z] by {
                    lemma_bpow_add(b, m, (k0 - m) as nat); lemma_bpow_pos(b, m);
                    assert(s + sw <= n) by(nonlinear_arith) requires s == q * sw, q + 1 <= bpow(b, (k0 - m) as nat), n == sw * bpow(b, (k0 - m) as nat), sw >= 0;
                    assert(s >= 0) by(nonlinear_arith) requires s == q * sw, sw >= 0, q >= 0;
                    assert(st.view().subrange(s, s + sw) == t.subrange(s, s + sw));
                    lemma_seg::<E, A>(t, pt, n, b, k0, m, q, h, y);
                }
            }
            assert(l0 =~= lemma@.subrange(0, l0.len() as int));
            assert((i as nat / bpow(b, h + 1)) * b == hash_index);
            assert forall|t: Seq<E>, y: int| #![trigger agrees(st, t), lemma@[1 + h * (b - 1) + y]] self.nodes(t) && 0 <= y < lemma@.len() - l0.len() implies lemma@[1 + h * (b - 1) + y] == t[sib_at(n, b, i as nat, h, y, x)] by {
                if y < l1.len() - l0.len() { assert(lemma@[1 + h * (b - 1) + y] == l1[1 + h * (b - 1) + y]); }
                else { assert(sib_at(n, b, i as nat, h, y, x) == base + k); assert(1 + h * (b - 1) + y == lemma@.len() - 1); }
            }
        }
    }
//% hint loop 0 end
    proof {
        assert((h + 1) * (b - 1) == h * (b - 1) + (b - 1)) by(nonlinear_arith);
        lemma_off_shape(n, b, k0, h + 1); lemma_wid_shape(n, b, k0, h + 1);
        assert forall|g: int, t: Seq<E>| 0 <= g < h + 1 && self.nodes(t) implies #[trigger] sibs_ok(lemma@, t, n, b, i as nat, g as nat) by {
            if g < h { lemma_sibs_keep(l0, lemma@, t, n, b, i as nat, h, g as nat); }
            else { assert(agrees(st, t)); }
        }
        assert(lemma@[0] == l0[0]);
        h = h + 1;
    }
//% hint loop 0 after
    let ghost l0 = lemma@;
    proof { if h < k0 { lemma_off_shape(n, b, k0, h); lemma_wid_shape(n, b, k0, h); lemma_bpow_mono(b, 0, (k0 - h) as nat); lemma_off_shape(n, b, k0, h + 1); } assert(h * (b - 1) == (b - 1) * h) by(nonlinear_arith);
        assert(h == k0);
        assert((b - 1) * k0 >= 1) by(nonlinear_arith) requires b >= 2, k0 >= 1;
        assert(l0 =~= l0.push(self.root).subrange(0, l0.len() as int));
        assert forall|p: Proof<E, BaseTreeArity>, t: Seq<E>| self.nodes(t) && p.path@ == path@ && p.lemma@ == l0.push(self.root) && p.sub_tree_proof is None && p.top_layer_nodes == 0 && p.sub_tree_layer_nodes == 0
            implies #[trigger] is_proof(p, t, n, k0, i as nat, self.root) by {
            assert forall|g: int| 0 <= g < k0 implies #[trigger] sibs_ok(p.lemma@, t, n, b, i as nat, g as nat) by { lemma_sibs_keep(l0, p.lemma@, t, n, b, i as nat, k0, g as nat); }
        }
    }
//% end
//% fn src/merkle.rs MerkleTree::gen_cached_top_tree_proof
//% spec
    requires self.wf(), self.data is TopTree, Arity::n() == TopTreeArity::n(), self.cdom(), S::has_range_into()
    ensures
        r is Ok ==> i < self.leafs && self.tree_proof(i as nat, r->Ok_0, true),
        self.cached(rows_to_discard) && i < self.leafs ==> r is Ok,
    decreases self, 0nat
//% hint start
    proof {
        self.lemma_pos();
        let ts = self.data->TopTree_0@; let l = ts[0].leafs;
        lemma_addr(self.leafs as int, ts.len() as int, l as int, 0);
        assert(l * BaseTreeArity::n() <= self.leafs * BaseTreeArity::n()) by(nonlinear_arith) requires l <= self.leafs, BaseTreeArity::n() >= 0;
        assert(2 * l * E::blen() <= 2 * self.leafs * E::blen()) by(nonlinear_arith) requires l <= self.leafs, E::blen() >= 0;
    }
//% loop 0
    invariant
        self.wf(), vx_n0 == Arity::n(), vx_i0 <= vx_n0, tree_index < Arity::n(), self.data is TopTree && Arity::n() == TopTreeArity::n(), *trees == self.data->TopTree_0,
        lemma@ == (if vx_i0 <= tree_index { self.roots().subrange(0, vx_i0 as int) } else { self.roots().remove(tree_index as int).subrange(0, vx_i0 - 1) }),
    decreases vx_n0 - vx_i0
//% hint ret
    proof {
        assert((BaseTreeArity::n() - 1) * 1 == BaseTreeArity::n() - 1) by(nonlinear_arith);
        assert(lemma@ =~= self.roots().remove(tree_index as int).push(self.root));
    }
//% end
//% fn src/merkle.rs MerkleTree::gen_cached_sub_tree_proof
//% spec
    requires self.wf(), self.data is SubTree, Arity::n() == SubTreeArity::n(), self.cdom(), S::has_range_into()
    ensures
        r is Ok ==> i < self.leafs && self.tree_proof(i as nat, r->Ok_0, true),
        self.cached(rows_to_discard) && i < self.leafs ==> r is Ok,
    decreases self, 0nat
//% hint start
    proof {
        self.lemma_pos();
        let ts = self.data->SubTree_0@; let l = ts[0].leafs;
        lemma_addr(self.leafs as int, ts.len() as int, l as int, 0);
        assert(l * BaseTreeArity::n() <= self.leafs * BaseTreeArity::n()) by(nonlinear_arith) requires l <= self.leafs, BaseTreeArity::n() >= 0;
        assert(2 * l * E::blen() <= 2 * self.leafs * E::blen()) by(nonlinear_arith) requires l <= self.leafs, E::blen() >= 0;
    }
//% loop 0
    invariant
        self.wf(), vx_n0 == Arity::n(), vx_i0 <= vx_n0, tree_index < Arity::n(), self.data is SubTree && Arity::n() == SubTreeArity::n(), *trees == self.data->SubTree_0,
        lemma@ == (if vx_i0 <= tree_index { self.roots().subrange(0, vx_i0 as int) } else { self.roots().remove(tree_index as int).subrange(0, vx_i0 - 1) }),
    decreases vx_n0 - vx_i0
//% hint ret
    proof {
        assert((BaseTreeArity::n() - 1) * 1 == BaseTreeArity::n() - 1) by(nonlinear_arith);
        assert(lemma@ =~= self.roots().remove(tree_index as int).push(self.root));
    }
//% end
//% fn src/merkle.rs MerkleTree::gen_cached_proof
//% spec
    requires self.wf(), self.cdom(), S::has_range_into()
    ensures
        r is Ok ==> i < self.leafs && self.tree_proof(i as nat, r->Ok_0, true) && (self.full() ==> r->Ok_0.valid::<A>() && r->Ok_0.sitem() == self.leaf(i as nat) && r->Ok_0.sroot() == self.root && r->Ok_0.fits()),
        self.cached(rows_to_discard) && i < self.leafs ==> r is Ok,
    decreases self, 1nat
//% hint start
    let ghost rd = rows_to_discard;
    let ghost b = BaseTreeArity::n();
    let ghost n = self.leafs as nat;
    let ghost k0 = self.k();
    let ghost d = discarded(rd, b, k0);
    let ghost m = d + 1;
    let ghost sw = bpow(b, m);
    proof {
        assert forall|p: Proof<E, BaseTreeArity>| i < self.leafs && self.full() && #[trigger] self.tree_proof(i as nat, p, true) implies p.valid::<A>() && p.sitem() == self.leaf(i as nat) && p.sroot() == self.root && p.fits() by { self.lemma_valid(i as nat, p, true); }
        self.lemma_pos(); E::el_ax();
        if self.data is BaseTree {
            self.lemma_base_pos(); lemma_shape_p2(b, n, k0); lemma_p2_misc(); lemma_bpow_ge(b, k0);
            assert(m <= k0);
            let c = bpow(b, (k0 - m) as nat); let l = tlen(b, (k0 - m) as nat);
            lemma_bpow_add(b, m, (k0 - m) as nat); lemma_bpow_pos(b, m); lemma_bpow_pos(b, (k0 - m) as nat); lemma_tlen_pos(b, (k0 - m) as nat); lemma_tlen_bound(b, (k0 - m) as nat); lemma_tlen_bound(b, k0); lemma_tlen_mono(b, (k0 - m) as nat, k0);
            assert(sw >= b) by { assert(bpow(b, m) == b * bpow(b, d)); lemma_bpow_pos(b, d); assert(b * bpow(b, d) >= b) by(nonlinear_arith) requires bpow(b, d) >= 1, b >= 0; }
            assert(n == sw * c);
            assert(l * b <= 2 * c * b) by(nonlinear_arith) requires l <= 2 * c - 1, b >= 0;
            assert(c * b <= n) by(nonlinear_arith) requires n == sw * c, sw >= b, c >= 0;
            assert(2 * c * b == 2 * (c * b)) by(nonlinear_arith);
            lemma_shape_p2(b, c, (k0 - m) as nat);
            lemma_div_multiples_vanish(sw as int, c as int); lemma_mul_is_commutative(c as int, sw as int);
            assert forall|x: nat| #[trigger] tlen(b, x) == l implies x == k0 - m by { if x < k0 - m { lemma_tlen_mono(b, x, (k0 - m) as nat); } else if x > k0 - m { lemma_tlen_mono(b, (k0 - m) as nat, x); } }
            assert(bpow(b, k0) == n);
            assert(sw <= n) by(nonlinear_arith) requires n == sw * c, c >= 1, sw >= 0;
            assert(sw * b <= n * b) by(nonlinear_arith) requires sw <= n, b >= 0;
            assert(c * b <= n * b) by(nonlinear_arith) requires c * b <= n, b >= 1, n >= 0;
            assert(2 * sw * E::blen() <= 2 * n * E::blen()) by(nonlinear_arith) requires sw <= n, E::blen() >= 0;
            assert(2 * sw * b <= 2 * n * b) by(nonlinear_arith) requires sw <= n, b >= 0;
            lemma_tlen_bound(b, m); lemma_bpow_mono(b, 0, m); assert(bpow(b, 0) == 1);
            assert(tlen(b, m) * E::blen() <= 2 * sw * E::blen()) by(nonlinear_arith) requires tlen(b, m) <= 2 * sw, E::blen() >= 0;
            assert(sw * E::blen() <= 2 * sw * E::blen()) by(nonlinear_arith) requires sw >= 0, E::blen() >= 0;
            if i < n { lemma_digits(b, n, k0, i as nat, m); lemma_seg_idx(b, i as nat, m, m);
                let q = i as nat / sw;
                assert(q * sw + sw <= n) by(nonlinear_arith) requires q + 1 <= c, n == sw * c, sw >= 0;
                assert(q * sw >= 0) by(nonlinear_arith) requires q >= 0, sw >= 0;
            }
            self.st().wf_ax();
            lemma_div_by_multiple(sw as int, E::blen() as int); lemma_mod_multiples_basic(sw as int, E::blen() as int);
        }
    }
//% hint let cache_size
    proof { assert(rows_to_discard == d); assert(cache_size == tlen(b, (k0 - m) as nat)); }
//% hint let cached_leafs
    proof { assert(cached_leafs == bpow(b, (k0 - m) as nat)); }
//% hint let partial_store
    proof {
        assert(partial_store.view() == self.st().view().subrange(segment_start as int, segment_end as int));
        assert(partial_row_count - 1 == m);
    }
//% hint let proof
//% end
}
} // verus!
