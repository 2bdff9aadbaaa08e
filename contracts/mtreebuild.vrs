verus! {
//% item src/merkle.rs const BUILD_DATA_BLOCK_SIZE
/// the sizes the arithmetic of the library is made for
pub open spec fn dom<E: Element, B: Unsigned>(leafs: nat) -> bool {
    &&& B::n() != 1 && B::n() <= 0x4000_0000 && leafs <= 0x4000_0000_0000_0000 && 2 * leafs * B::n() <= 0x8000_0000_0000_0000 && 2 * leafs * E::blen() <= MAXB
}
/// leaves of a tree over these items
pub open spec fn leaves_of<E: Element, A: Algorithm<E>>(s: Seq<E>) -> Seq<E> { Seq::new(s.len(), |i: int| A::lf(s[i])) }
pub open spec fn all_ok<E>(s: Seq<Result<E>>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]) is Ok }
pub open spec fn oks<E>(s: Seq<Result<E>>) -> Seq<E> { Seq::new(s.len(), |i: int| s[i]->Ok_0) }
/// the tree over these leaves
pub open spec fn made<E: Element, A: Algorithm<E>, S: Store<E>, B: Unsigned, U: Unsigned, T: Unsigned>(x: MerkleTree<E, A, S, B, U, T>, leaves: Seq<E>) -> bool {
    &&& x.base_wf() && x.wf() && x.leafs == leaves.len()
    &&& exists|t: Seq<E>| #[trigger] x.nodes(t) && t.subrange(0, x.leafs as int) == leaves
    &&& S::keeps_all() ==> is_tree::<E, A>(x.st().view(), leaves, B::n(), x.k()) && x.root == x.st().view().last()
}
/// an existing file was loaded, of which only the shape is known
pub open spec fn reloaded<E: Element, A: Algorithm<E>, S: Store<E>, B: Unsigned, U: Unsigned, T: Unsigned>(x: MerkleTree<E, A, S, B, U, T>, leafs: nat) -> bool {
    &&& x.base_wf() && x.wf() && x.leafs == leafs && x.st().loaded() && x.root == x.st().view().last() && x.st().avail(x.len - 1, x.len as int)
}
pub proof fn lemma_dom<E: Element, B: Unsigned>(leafs: nat)
    requires dom::<E, B>(leafs)
    ensures leafs * B::n() <= 0x8000_0000_0000_0000, forall|s: int| leafs <= s <= 2 * leafs ==> (#[trigger] (s * E::blen())) <= MAXB && s * B::n() <= 0x8000_0000_0000_0000, leafs * E::blen() <= MAXB, 0 < E::blen() <= 0x1_0000_0000
{
    E::el_ax();
    assert forall|s: int| leafs <= s <= 2 * leafs implies (#[trigger] (s * E::blen())) <= MAXB && s * B::n() <= 0x8000_0000_0000_0000 by {
        assert(s * E::blen() <= (2 * leafs) * E::blen()) by(nonlinear_arith) requires s <= 2 * leafs, E::blen() > 0;
        assert(s * B::n() <= (2 * leafs) * B::n()) by(nonlinear_arith) requires s <= 2 * leafs;
    }
    assert(leafs * B::n() <= 2 * leafs * B::n()) by(nonlinear_arith);
    assert(leafs * E::blen() <= 2 * leafs * E::blen()) by(nonlinear_arith);
}
//% fn src/merkle.rs populate_data
//% owned
//% spec
    requires old(data).wf(), iter.rest().len() * E::blen() <= MAXB
    ensures final(data).wf(), final(data).cap() == old(data).cap(),
        r is Ok && old(data).view().len() > 0 ==> *final(data) == *old(data),
        r is Ok && old(data).view().len() == 0 ==> all_ok(iter.rest()) && final(data).view().len() == iter.rest().len()
            && (forall|n: nat, b: nat, f: PathBuf, d: nat| #[trigger] final(data).at_config(n, b, f, d) == old(data).at_config(n, b, f, d))
            && ((forall|lo: int, hi: int| 0 <= lo && hi <= iter.rest().len() ==> #[trigger] old(data).holds(lo, hi)) ==> final(data).view() == leaves_of::<E, A>(oks(iter.rest()))),
        old(data).good() && old(data).view().len() == 0 && all_ok(iter.rest()) && iter.rest().len() <= old(data).cap() ==> r is Ok && final(data).good(),
//% hint start
    let ghost its = iter.rest();
    let ghost lv = leaves_of::<E, A>(oks(its));
    let ghost held = forall|lo: int, hi: int| 0 <= lo && hi <= its.len() ==> #[trigger] data.holds(lo, hi);
    let ghost good0 = data.good() && data.view().len() == 0 && all_ok(its) && its.len() <= data.cap();
    let ghost cap0 = data.cap();
    proof { E::el_ax(); assert(0x4_0000 * E::blen() <= 0x4_0000 * 0x1_0000_0000) by(nonlinear_arith) requires E::blen() <= 0x1_0000_0000; }
//% loop 0
    invariant
        0 < E::blen() <= 0x1_0000_0000, 0x4_0000 * E::blen() <= 0x4_0000 * 0x1_0000_0000, its.len() * E::blen() <= MAXB,
        vx_n0 == its.len(), 0 <= vx_i0 <= vx_n0, vx_s0.rest() == its.skip(vx_i0 as int), lv == leaves_of::<E, A>(oks(its)),
        data.wf(), data.cap() == cap0, cap0 == old(data).cap(), its == iter.rest(), old(data).view().len() == 0, good0 == (old(data).good() && old(data).view().len() == 0 && all_ok(its) && its.len() <= cap0), held == (forall|lo: int, hi: int| 0 <= lo && hi <= its.len() ==> #[trigger] old(data).holds(lo, hi)), forall|lo: int, hi: int| #[trigger] data.holds(lo, hi) == old(data).holds(lo, hi), forall|n: nat, b: nat, f: PathBuf, d: nat| #[trigger] data.at_config(n, b, f, d) == old(data).at_config(n, b, f, d),
        buf@.len() % E::blen() == 0, data.view().len() <= vx_i0, buf@.len() == (vx_i0 - data.view().len()) * E::blen(),
        forall|i: int| 0 <= i < vx_i0 ==> (#[trigger] its[i]) is Ok,
        held ==> data.view() == lv.subrange(0, data.view().len() as int),
        decode::<E>(buf@) == lv.subrange(data.view().len() as int, vx_i0 as int),
        good0 ==> data.good() && all_ok(its) && its.len() <= cap0,
    decreases vx_n0 - vx_i0
//% hint loop 0 before
    proof { assert(its.skip(0) =~= its); assert(decode::<E>(buf@) =~= Seq::<E>::empty()) by { lemma_div_by_multiple(0, E::blen() as int); assert(0 * E::blen() == 0); } assert(data.view() =~= Seq::<E>::empty()); assert(lv.subrange(0, 0) =~= Seq::<E>::empty()); assert(0 * E::blen() == 0); lemma_mod_multiples_basic(0, E::blen() as int); }
//% hint loop 0 start
    let ghost m = vx_i0 - 1 - data.view().len();
    let ghost b0 = buf@;
    let ghost at = data.view().len() as int;
    proof { assert(its.skip(vx_i0 - 1)[0] == its[vx_i0 - 1]); assert(its.skip(vx_i0 - 1).skip(1) =~= its.skip(vx_i0 as int)); }
//% hint let item#2
    proof {
        let e = A::lf(item);
        lemma_decode_push::<E>(b0, e, m);
        assert(lv[vx_i0 - 1] == e);
        assert(lv.subrange(at, vx_i0 as int) =~= lv.subrange(at, vx_i0 - 1).push(e));
        lemma_mod_multiples_basic(m + 1, E::blen() as int);
        assert(at * E::blen() + (m + 1) * E::blen() == vx_i0 * E::blen()) by(nonlinear_arith) requires at + m + 1 == vx_i0;
        assert(vx_i0 * E::blen() <= its.len() * E::blen()) by(nonlinear_arith) requires vx_i0 <= its.len();
        lemma_div_by_multiple(m + 1, E::blen() as int);
    }
//% hint pre clear
    proof {
        if held { lemma_take_upd(lv, at, vx_i0 as int, data.view()); }
        assert(decode::<E>(Seq::<u8>::empty()) =~= Seq::<E>::empty()) by { lemma_div_by_multiple(0, E::blen() as int); assert(0 * E::blen() == 0); }
        assert(lv.subrange(vx_i0 as int, vx_i0 as int) =~= Seq::<E>::empty());
        assert(0 * E::blen() == 0); lemma_mod_multiples_basic(0, E::blen() as int);
    }
//% hint let data_len#2
    let ghost at = data.view().len() as int;
    proof {
        assert(at * E::blen() + (its.len() - at) * E::blen() == its.len() * E::blen()) by(nonlinear_arith);
        lemma_div_by_multiple(its.len() - at, E::blen() as int);
    }
//% hint ret
    proof { if held { lemma_take_upd(lv, at, its.len() as int, data.view()); assert(lv.subrange(0, its.len() as int) =~= lv); } }
//% end
/// what was appended behind the first part of the leaves
pub proof fn lemma_take_upd<E>(lv: Seq<E>, at: int, to: int, f: Seq<E>)
    requires 0 <= at <= to <= lv.len(), upd(lv.subrange(0, at), f, at, lv.subrange(at, to))
    ensures f == lv.subrange(0, to)
{
    assert forall|i: int| 0 <= i < to implies f[i] == lv[i] by {
        if i < at { assert(f[i] == lv.subrange(0, at)[i]); } else { lemma_upd_els(lv.subrange(0, at), f, at, lv.subrange(at, to), i); }
    }
    assert(f =~= lv.subrange(0, to));
}
/// chunk c of the leaves is in place
pub open spec fn part_done<E>(lv: Seq<E>, v: Seq<E>, held: bool, cs: int, c: int) -> bool {
    &&& v.len() >= c * cs + csize(lv.len() as int, cs, c)
    &&& held ==> forall|i: int| c * cs <= i < c * cs + csize(lv.len() as int, cs, c) ==> #[trigger] v[i] == lv[i]
}
pub proof fn lemma_part_frame<E>(lv: Seq<E>, v: Seq<E>, w: Seq<E>, held: bool, cs: int, c: int, d: int, els: Seq<E>)
    requires cs > 0, 0 <= c < dceil(lv.len() as int, cs), 0 <= d < dceil(lv.len() as int, cs), c != d, part_done(lv, v, held, cs, c), els.len() <= cs, w.len() >= v.len(), held ==> upd(v, w, d * cs, els)
    ensures part_done(lv, w, held, cs, c)
{
    lemma_mod_self_0(cs);
    lemma_chunk_arith(lv.len() as int, cs, 1, c);
    if held {
        assert forall|i: int| c * cs <= i < c * cs + csize(lv.len() as int, cs, c) implies #[trigger] w[i] == lv[i] by {
            assert(v[i] == lv[i]);
            if c < d { assert(i < d * cs) by(nonlinear_arith) requires c + 1 <= d, i < c * cs + cs, cs > 0; }
            else { assert(i >= d * cs + cs) by(nonlinear_arith) requires d + 1 <= c, i >= c * cs, cs > 0; }
            assert(w[i] == v[i]);
        }
    }
}
pub proof fn lemma_parts_all<E>(lv: Seq<E>, v: Seq<E>, held: bool, cs: int)
    requires cs > 0, v.len() <= lv.len(), forall|c: int| 0 <= c < dceil(lv.len() as int, cs) ==> #[trigger] part_done(lv, v, held, cs, c)
    ensures v.len() == lv.len(), held ==> v == lv
{
    let n = lv.len() as int;
    let m = dceil(n, cs);
    lemma_mod_self_0(cs);
    if n > 0 {
        assert(m >= 1) by(nonlinear_arith) requires m == (if n % cs == 0 { n / cs } else { n / cs + 1 }), n >= 1, cs > 0;
        lemma_chunk_arith(n, cs, 1, m - 1);
        assert(csize(n, cs, m - 1) % 1 == 0);
        assert(part_done(lv, v, held, cs, m - 1));
    }
    if held {
        assert forall|i: int| 0 <= i < n implies v[i] == lv[i] by {
            let c = i / cs;
            lemma_fundamental_div_mod(i, cs); lemma_mod_bound(i, cs);
            assert(i == c * cs + i % cs) by(nonlinear_arith) requires i == cs * c + i % cs;
            assert(c >= 0) by(nonlinear_arith) requires c == i / cs, i >= 0, cs > 0;
            assert(c < m) by(nonlinear_arith) requires c * cs <= i, i < n, m == (if n % cs == 0 { n / cs } else { n / cs + 1 }), cs > 0;
            lemma_chunk_arith(n, cs, 1, c);
            assert(part_done(lv, v, held, cs, c));
        }
        assert(v =~= lv);
    }
}
//% fn src/merkle.rs populate_data_par
//% parchunks
//% spec
    requires old(data).wf(), iter.rest().len() * E::blen() <= MAXB
    ensures final(data).wf(), final(data).cap() == old(data).cap(),
        r is Ok && old(data).view().len() > 0 ==> *final(data) == *old(data),
        r is Ok && old(data).view().len() == 0 ==> final(data).view().len() == iter.rest().len()
            && (forall|n: nat, b: nat, f: PathBuf, d: nat| #[trigger] final(data).at_config(n, b, f, d) == old(data).at_config(n, b, f, d))
            && ((forall|lo: int, hi: int| 0 <= lo && hi <= iter.rest().len() ==> #[trigger] old(data).holds(lo, hi)) ==> final(data).view() == leaves_of::<E, A>(iter.rest())),
        old(data).good() && old(data).view().len() == 0 && iter.rest().len() <= old(data).cap() ==> r is Ok && final(data).good(),
//% hint start
    let ghost its = iter.rest();
    let ghost lv = leaves_of::<E, A>(its);
    let ghost held = forall|lo: int, hi: int| 0 <= lo && hi <= its.len() ==> #[trigger] data.holds(lo, hi);
    let ghost cs = BUILD_DATA_BLOCK_SIZE as int;
    let ghost l = E::blen() as int;
    let ghost n = its.len() as int;
    let ghost good0 = data.good() && data.view().len() == 0 && n <= data.cap();
    proof { E::el_ax(); assert(0x4_0000 * l <= 0x4_0000 * 0x1_0000_0000) by(nonlinear_arith) requires l <= 0x1_0000_0000; assert(n <= n * l) by(nonlinear_arith) requires l >= 1, n >= 0; }
//% loop 0
    invariant
        0 < l <= 0x1_0000_0000, l == E::blen(), 0x4_0000 * l <= 0x4_0000 * 0x1_0000_0000, n * l <= MAXB, n <= MAXB, its.len() == n, cs == 0x4_0000, cs == BUILD_DATA_BLOCK_SIZE,
        its == iter.rest(), vx_s0.rest() == its, vx_c0 == cs, vx_n0 == dceil(n, cs), is_perm(vx_p0@, vx_n0 as int), 0 <= vx_i0 <= vx_n0, lv == leaves_of::<E, A>(its),
        data.wf(), data.cap() == old(data).cap(), old(data).view().len() == 0, good0 == (old(data).good() && old(data).view().len() == 0 && n <= old(data).cap()), good0 ==> data.good(),
        held == (forall|lo: int, hi: int| 0 <= lo && hi <= its.len() ==> #[trigger] old(data).holds(lo, hi)), forall|lo: int, hi: int| #[trigger] data.holds(lo, hi) == old(data).holds(lo, hi), forall|n: nat, b: nat, f: PathBuf, d: nat| #[trigger] data.at_config(n, b, f, d) == old(data).at_config(n, b, f, d),
        data.view().len() <= n,
        forall|j: int| 0 <= j < vx_i0 ==> part_done(lv, data.view(), held, cs, #[trigger] vx_p0@[j] as int),
    decreases vx_n0 - vx_i0
//% hint loop 0 start
    let ghost c = vx_p0@[vx_i0 - 1] as int;
    let ghost v1 = data.view();
    let ghost z = csize(n, cs, c);
    let ghost part = lv.subrange(c * cs, c * cs + z);
    proof {
        lemma_mod_self_0(cs);
        lemma_chunk_arith(n, cs, 1, c);
        assert((c + 1) * cs == c * cs + cs) by(nonlinear_arith);
    }
//% loop 1
    invariant 0 < l, l == E::blen(), n * l <= MAXB, cs > 0, vx_n1 == z, its.len() == n, 0 <= vx_i1 <= vx_n1, 0 <= c * cs, c * cs + z <= n, part == lv.subrange(c * cs, c * cs + z), lv == leaves_of::<E, A>(its),
        vx_s1@ == its.subrange(c * cs, c * cs + z), buf@.len() == vx_i1 * l, decode::<E>(buf@) == part.subrange(0, vx_i1 as int),
    decreases vx_n1 - vx_i1
//% hint loop 1 before
    proof { assert(decode::<E>(buf@) =~= Seq::<E>::empty()) by { lemma_div_by_multiple(0, l); assert(0 * l == 0); } assert(part.subrange(0, 0) =~= Seq::<E>::empty()); assert(0 * l == 0); }
//% hint loop 1 start
    let ghost b0 = buf@;
//% hint loop 1 end
    proof {
        let e = part[vx_i1 - 1];
        lemma_decode_push::<E>(b0, e, vx_i1 - 1);
        assert(buf@ =~= b0 + e.bytes());
        assert(part.subrange(0, vx_i1 as int) =~= part.subrange(0, vx_i1 - 1).push(e));
    }
//% hint pre copy_from_slice
    proof {
        assert(part.subrange(0, z) =~= part);
        assert(cs * c == c * cs) by(nonlinear_arith);
        assert((c * cs) * l + z * l <= n * l) by(nonlinear_arith) requires c * cs + z <= n, l >= 1;
        lemma_div_by_multiple(z, l);
        lemma_mod_multiples_basic(z, l);
        assert(buf@.subrange(0, buf@.len() as int) =~= buf@);
        assert(buf@.len() % E::blen() == 0 && buf@.len() / E::blen() == z && buf@.len() == z * l);
        assert(BUILD_DATA_BLOCK_SIZE * index == c * cs);
        assert(good0 ==> c * cs + z <= data.cap());
    }
//% hint loop 0 end
    proof {
        let w = data.view();
        assert forall|j: int| 0 <= j < vx_i0 implies part_done(lv, w, held, cs, #[trigger] vx_p0@[j] as int) by {
            if j < vx_i0 - 1 { lemma_part_frame(lv, v1, w, held, cs, vx_p0@[j] as int, c, part); }
            else if held { assert forall|i: int| c * cs <= i < c * cs + z implies #[trigger] w[i] == lv[i] by { lemma_upd_els(v1, w, c * cs, part, i); } }
        }
    }
//% hint loop 0 after
    proof {
        assert forall|c: int| 0 <= c < dceil(n, cs) implies #[trigger] part_done(lv, data.view(), held, cs, c) by { assert(perm_has(vx_p0@, c)); }
        lemma_parts_all(lv, data.view(), held, cs);
    }
//% end
/// hashes of these objects
pub open spec fn hashes<E: Element, A: Algorithm<E>, O: Hashable<E, A>>(s: Seq<O>) -> Seq<E> { Seq::new(s.len(), |i: int| A::hf(s[i].data())) }
/// a base tree over a built store is the tree over its leaves
pub proof fn lemma_made<E: Element, A: Algorithm<E>, S: Store<E>, B: Unsigned, U: Unsigned, T: Unsigned>(st: S, leafs: usize, len: usize, row_count: usize, root: E, leaves: Seq<E>)
    requires st.wf(), row_count >= 2, len < 0x8000_0000_0000_0000, leafs == leaves.len(), shape(B::n(), leafs as nat, (row_count - 1) as nat), len == tlen(B::n(), (row_count - 1) as nat), st.view().len() == len,
        exists|t: Seq<E>| #[trigger] built::<E, A>(t, leaves, B::n(), (row_count - 1) as nat, root) && t.len() == len && forall|lo: int, hi: int| #![trigger st.avail(lo, hi)] 0 <= lo <= hi <= t.len() && st.avail(lo, hi) ==> st.view().subrange(lo, hi) == t.subrange(lo, hi),
        S::keeps_all() ==> is_tree::<E, A>(st.view(), leaves, B::n(), (row_count - 1) as nat) && root == st.view().last(),
    ensures forall|x: MerkleTree<E, A, S, B, U, T>| x.data == Data::<E, A, S, B, U>::BaseTree(st) && x.leafs == leafs && x.len == len && x.row_count == row_count && x.root == root ==> #[trigger] made(x, leaves)
{
    assert forall|x: MerkleTree<E, A, S, B, U, T>| x.data == Data::<E, A, S, B, U>::BaseTree(st) && x.leafs == leafs && x.len == len && x.row_count == row_count && x.root == root implies #[trigger] made(x, leaves) by {
        let t = choose|t: Seq<E>| #[trigger] built::<E, A>(t, leaves, B::n(), (row_count - 1) as nat, root) && t.len() == len && forall|lo: int, hi: int| #![trigger st.avail(lo, hi)] 0 <= lo <= hi <= t.len() && st.avail(lo, hi) ==> st.view().subrange(lo, hi) == t.subrange(lo, hi);
        assert(x.nodes(t));
    }
}
pub proof fn lemma_fit_le(n: nat, b: nat, c: int, d: int)
    requires rows_fit(n, b, c), c <= d
    ensures rows_fit(n, b, d)
{ }
/// base trees over as many leaves are alike
pub proof fn lemma_all_alike<E: Element, A: Algorithm<E>, S: Store<E>, B: Unsigned, U: Unsigned, T: Unsigned>(ts: Seq<MerkleTree<E, A, S, B, U, T>>, leafs: usize)
    requires forall|j: int| 0 <= j < ts.len() ==> (#[trigger] ts[j]).base_wf() && ts[j].leafs == leafs
    ensures alike(ts), ts.len() > 0 ==> ts[0].len <= 2 * leafs
{
    assert forall|i: int| 0 <= i < ts.len() implies (#[trigger] ts[i]).row_count == ts[0].row_count && ts[i].len == ts[0].len by { lemma_bpow_inj(B::n(), ts[i].k(), ts[0].k()); }
    if ts.len() > 0 { lemma_tlen_bound(B::n(), ts[0].k()); }
}
/// compound trees over as many leaves are alike
pub proof fn lemma_subs_alike<E: Element, A: Algorithm<E>, S: Store<E>, B: Unsigned, U: Unsigned, T: Unsigned>(x: MerkleTree<E, A, S, B, U, T>, y: MerkleTree<E, A, S, B, U, T>)
    requires x.mid_wf(), y.mid_wf(), x.data is SubTree, y.data is SubTree, x.data->SubTree_0@[0].leafs == y.data->SubTree_0@[0].leafs
    ensures x.row_count == y.row_count, x.len == y.len, x.leafs == y.leafs, x.leafs == U::n() * x.data->SubTree_0@[0].leafs, x.len <= 2 * x.data->SubTree_0@[0].leafs * U::n() + 1
{
    let a = x.data->SubTree_0@[0]; let b = y.data->SubTree_0@[0];
    lemma_bpow_inj(B::n(), a.k(), b.k()); lemma_tlen_bound(B::n(), a.k());
    assert(a.len <= 2 * a.leafs);
    assert(U::n() * a.len <= 2 * a.leafs * U::n()) by(nonlinear_arith) requires a.len <= 2 * a.leafs;
}
pub proof fn lemma_p2_ge2(b: nat)
    requires is_p2(b), b != 1
    ensures b >= 2
{ lemma_p2_misc(); assert(!is_p2(0)) by { assert forall|k: nat| 0 != #[trigger] pow2(k) by { lemma_pow2_pos(k); } } }
impl<E: Element, A: Algorithm<E>, S: Store<E>, BaseTreeArity: Unsigned, SubTreeArity: Unsigned, TopTreeArity: Unsigned> MerkleTree<E, A, S, BaseTreeArity, SubTreeArity, TopTreeArity> {
//% fn src/merkle.rs MerkleTree::try_from_iter
//% spec
    requires into.hint() is Some ==> dom::<E, BaseTreeArity>(into.hint()->0 as nat), into.items().len() * E::blen() <= MAXB
    ensures
        r is Ok ==> all_ok(into.items()) && into.hint() is Some && into.hint()->0 == into.items().len() && made(r->Ok_0, leaves_of::<E, A>(oks(into.items()))),
        S::reliable() && S::keeps_all() && all_ok(into.items()) && into.hint() is Some && into.hint()->0 == into.items().len() && has_shape(BaseTreeArity::n(), into.items().len()) && into.items().len() >= 2 && BaseTreeArity::n() <= 4096 ==> r is Ok,
//% hint start
    let ghost b = BaseTreeArity::n();
    proof { E::el_ax(); lemma2_to64(); if into.hint() is Some { lemma_dom::<E, BaseTreeArity>(into.hint()->0 as nat); let n = into.hint()->0 as nat; if has_shape(b, n) { let k = height(b, n); lemma_shape_p2(b, n, k); let s = lemma_arity(b); if k >= 1 { lemma_bpow_pos(b, (k - 1) as nat); assert(n == b * bpow(b, (k - 1) as nat)); assert(n >= b) by(nonlinear_arith) requires n == b * bpow(b, (k - 1) as nat), bpow(b, (k - 1) as nat) >= 1; } else { assert(bpow(b, 0) == 1); } } } }
//% hint let size
    proof { lemma_p2_ge2(b); assert(size * E::blen() <= MAXB && size * b <= 0x8000_0000_0000_0000); if has_shape(b, leafs as nat) { let k = height(b, leafs as nat); assert(bpow(b, k) == leafs); if k == 0 { assert(bpow(b, 0) == 1); } } }
//% hint let data
    proof { if data.cap() >= size { lemma_fit_le(leafs as nat, b, size as int, data.cap() as int); } }
//% hint let root
    proof { lemma_made::<E, A, S, BaseTreeArity, SubTreeArity, TopTreeArity>(data, leafs, size, row_count, root, leaves_of::<E, A>(oks(into.items()))); }
//% end
//% fn src/merkle.rs MerkleTree::try_from_iter_with_config
//% spec
    requires into.hint() is Some ==> dom::<E, BaseTreeArity>(into.hint()->0 as nat), into.items().len() * E::blen() <= MAXB, S::env_ok()
    ensures
        r is Ok ==> into.hint() is Some && ((all_ok(into.items()) && into.hint() is Some && into.hint()->0 == into.items().len() && made(r->Ok_0, leaves_of::<E, A>(oks(into.items())))) || reloaded(r->Ok_0, into.hint()->0 as nat)),
//% hint start
    let ghost b = BaseTreeArity::n();
    proof { E::el_ax(); lemma2_to64(); if into.hint() is Some { lemma_dom::<E, BaseTreeArity>(into.hint()->0 as nat); let n = into.hint()->0 as nat; if has_shape(b, n) { let k = height(b, n); lemma_shape_p2(b, n, k); let s = lemma_arity(b); if k >= 1 { lemma_bpow_pos(b, (k - 1) as nat); assert(n == b * bpow(b, (k - 1) as nat)); assert(n >= b) by(nonlinear_arith) requires n == b * bpow(b, (k - 1) as nat), bpow(b, (k - 1) as nat) >= 1; } else { assert(bpow(b, 0) == 1); } } } }
//% hint let size
    proof { lemma_p2_ge2(b); assert(size * E::blen() <= MAXB && size * b <= 0x8000_0000_0000_0000); if has_shape(b, leafs as nat) { let k = height(b, leafs as nat); assert(bpow(b, k) == leafs); if k == 0 { assert(bpow(b, 0) == 1); } } }
//% hint let data
    proof { if !S::keeps_all() && !data.loaded() { let kc = choose|k: nat| #[trigger] tlen(b, k) == size; assert(data.at_config(bpow(b, kc), b, config.file(), config.rows_to_discard as nat)); }  if data.cap() >= size { lemma_fit_le(leafs as nat, b, size as int, data.cap() as int); } }
//% hint let root#2
    proof { lemma_made::<E, A, S, BaseTreeArity, SubTreeArity, TopTreeArity>(data, leafs, size, row_count, root, leaves_of::<E, A>(oks(into.items()))); }
//% end
//% fn src/merkle.rs MerkleTree::from_byte_slice
//% spec
    requires leafs@.len() <= MAXB, dom::<E, BaseTreeArity>((leafs@.len() / E::blen()) as nat)
    ensures r is Ok ==> leafs@.len() % E::blen() == 0 && made(r->Ok_0, decode::<E>(leafs@)),
        S::reliable() && S::keeps_all() && leafs@.len() % E::blen() == 0 && has_shape(BaseTreeArity::n(), (leafs@.len() / E::blen()) as nat) && leafs@.len() / E::blen() >= 2 && BaseTreeArity::n() <= 4096 ==> r is Ok,
//% hint start
    let ghost b = BaseTreeArity::n();
    proof { E::el_ax(); lemma2_to64(); if Some((leafs@.len() / E::blen()) as usize) is Some { lemma_dom::<E, BaseTreeArity>(Some((leafs@.len() / E::blen()) as usize)->0 as nat); let n = Some((leafs@.len() / E::blen()) as usize)->0 as nat; if has_shape(b, n) { let k = height(b, n); lemma_shape_p2(b, n, k); let s = lemma_arity(b); if k >= 1 { lemma_bpow_pos(b, (k - 1) as nat); assert(n == b * bpow(b, (k - 1) as nat)); assert(n >= b) by(nonlinear_arith) requires n == b * bpow(b, (k - 1) as nat), bpow(b, (k - 1) as nat) >= 1; } else { assert(bpow(b, 0) == 1); } } } }
//% hint let size
    proof { lemma_p2_ge2(b); assert(size * E::blen() <= MAXB && size * b <= 0x8000_0000_0000_0000); if has_shape(b, leafs_count as nat) { let k = height(b, leafs_count as nat); assert(bpow(b, k) == leafs_count); if k == 0 { assert(bpow(b, 0) == 1); } } }
//% hint let data
    proof { if data.cap() >= size { lemma_fit_le(leafs_count as nat, b, size as int, data.cap() as int); } }
//% hint let root
    proof { if has_shape(b, leafs_count as nat) { assert(base_fits(b, size as nat, leafs_count as int)) by { let k = height(b, leafs_count as nat); assert(tlen(b, k) == size && leafs_count <= bpow(b, k)); } }
        lemma_made::<E, A, S, BaseTreeArity, SubTreeArity, TopTreeArity>(data, leafs_count, size, row_count, root, decode::<E>(leafs@)); }
//% end
//% fn src/merkle.rs MerkleTree::from_byte_slice_with_config
//% spec
    requires leafs@.len() <= MAXB, dom::<E, BaseTreeArity>((leafs@.len() / E::blen()) as nat), S::env_ok()
    ensures r is Ok ==> leafs@.len() % E::blen() == 0 && made(r->Ok_0, decode::<E>(leafs@)),
//% hint start
    let ghost b = BaseTreeArity::n();
    proof { E::el_ax(); lemma2_to64(); if Some((leafs@.len() / E::blen()) as usize) is Some { lemma_dom::<E, BaseTreeArity>(Some((leafs@.len() / E::blen()) as usize)->0 as nat); let n = Some((leafs@.len() / E::blen()) as usize)->0 as nat; if has_shape(b, n) { let k = height(b, n); lemma_shape_p2(b, n, k); let s = lemma_arity(b); if k >= 1 { lemma_bpow_pos(b, (k - 1) as nat); assert(n == b * bpow(b, (k - 1) as nat)); assert(n >= b) by(nonlinear_arith) requires n == b * bpow(b, (k - 1) as nat), bpow(b, (k - 1) as nat) >= 1; } else { assert(bpow(b, 0) == 1); } } } }
//% hint let size
    proof { lemma_p2_ge2(b); assert(size * E::blen() <= MAXB && size * b <= 0x8000_0000_0000_0000); if has_shape(b, leafs_count as nat) { let k = height(b, leafs_count as nat); assert(bpow(b, k) == leafs_count); if k == 0 { assert(bpow(b, 0) == 1); } } }
//% hint let data
    proof { if !S::keeps_all() && !data.loaded() { let kc = choose|k: nat| #[trigger] tlen(b, k) == size; assert(data.at_config(bpow(b, kc), b, config.file(), config.rows_to_discard as nat)); }  if data.cap() >= size { lemma_fit_le(leafs_count as nat, b, size as int, data.cap() as int); } }
//% hint let root
    proof { if has_shape(b, leafs_count as nat) { assert(base_fits(b, size as nat, leafs_count as int)) by { let k = height(b, leafs_count as nat); assert(tlen(b, k) == size && leafs_count <= bpow(b, k)); } }
        lemma_made::<E, A, S, BaseTreeArity, SubTreeArity, TopTreeArity>(data, leafs_count, size, row_count, root, decode::<E>(leafs@)); }
//% end
//% fn src/merkle.rs MerkleTree::from_data_store
//% spec
    requires data.wf(), BaseTreeArity::n() != 1, BaseTreeArity::n() <= 0x4000_0000, leafs <= 0x4000_0000_0000_0000, leafs * BaseTreeArity::n() <= 0x8000_0000_0000_0000
    ensures
        r is Ok ==> SubTreeArity::n() == 0 && TopTreeArity::n() == 0 && r->Ok_0.base_wf() && r->Ok_0.wf() && r->Ok_0.leafs == leafs && r->Ok_0.st() == data && r->Ok_0.root == data.view().last() && data.avail(data.view().len() - 1, data.view().len() as int),
        SubTreeArity::n() == 0 && TopTreeArity::n() == 0 && has_shape(BaseTreeArity::n(), leafs as nat) && leafs >= 2 && data.view().len() == tlen(BaseTreeArity::n(), height(BaseTreeArity::n(), leafs as nat)) && data.good() && data.avail(data.view().len() - 1, data.view().len() as int) ==> r is Ok,
//% hint start
    let ghost b = BaseTreeArity::n();
    proof { E::el_ax(); lemma2_to64(); if has_shape(b, leafs as nat) { let k = height(b, leafs as nat); lemma_shape_p2(b, leafs as nat, k); let s = lemma_arity(b); assert(bpow(b, k) == leafs); assert(bpow(b, 0) == 1); lemma_tlen_pos(b, k); } }
//% end
//% fn src/merkle.rs MerkleTree::from_tree_slice
//% spec
    requires data@.len() <= MAXB, BaseTreeArity::n() != 1, BaseTreeArity::n() <= 0x4000_0000, leafs <= 0x4000_0000_0000_0000, leafs * BaseTreeArity::n() <= 0x8000_0000_0000_0000
    ensures
        r is Ok ==> SubTreeArity::n() == 0 && TopTreeArity::n() == 0 && r->Ok_0.base_wf() && r->Ok_0.wf() && r->Ok_0.leafs == leafs && data@.len() % E::blen() == 0 && r->Ok_0.st().view() == decode::<E>(data@) && r->Ok_0.root == decode::<E>(data@).last(),
        S::reliable() && S::keeps_all() && SubTreeArity::n() == 0 && TopTreeArity::n() == 0 && has_shape(BaseTreeArity::n(), leafs as nat) && leafs >= 2 && data@.len() == tlen(BaseTreeArity::n(), height(BaseTreeArity::n(), leafs as nat)) * E::blen() ==> r is Ok,
//% hint start
    let ghost b = BaseTreeArity::n();
    proof { E::el_ax(); lemma2_to64(); if has_shape(b, leafs as nat) { let k = height(b, leafs as nat); lemma_shape_p2(b, leafs as nat, k); let s = lemma_arity(b); assert(bpow(b, k) == leafs); assert(bpow(b, 0) == 1); lemma_tlen_pos(b, k); } }
//% hint let tree_len
    proof { let n = data@.len() as int; let l = E::blen() as int; lemma_fundamental_div_mod(n, l); assert((n / l) * l <= n) by(nonlinear_arith) requires n == l * (n / l) + n % l, n % l >= 0;
        if has_shape(b, leafs as nat) { let w = tlen(b, height(b, leafs as nat)) as int; lemma_div_by_multiple(w, l); lemma_mod_multiples_basic(w, l); } }
//% hint let store
    proof { if S::keeps_all() { store.avail_ax(); } }
//% end
//% fn src/merkle.rs MerkleTree::from_tree_slice_with_config
//% spec
    requires data@.len() <= MAXB, S::env_ok(), BaseTreeArity::n() != 1, BaseTreeArity::n() <= 0x4000_0000, leafs <= 0x4000_0000_0000_0000, leafs * BaseTreeArity::n() <= 0x8000_0000_0000_0000, 2 * leafs * BaseTreeArity::n() <= 0x8000_0000_0000_0000
    ensures
        r is Ok ==> SubTreeArity::n() == 0 && TopTreeArity::n() == 0 && r->Ok_0.base_wf() && r->Ok_0.wf() && r->Ok_0.leafs == leafs && data@.len() % E::blen() == 0 && r->Ok_0.root == r->Ok_0.st().view().last()
            && (S::keeps_all() && !r->Ok_0.st().loaded() ==> r->Ok_0.st().view() == decode::<E>(data@)),
//% hint start
    let ghost b = BaseTreeArity::n();
    proof { E::el_ax(); lemma2_to64(); if has_shape(b, leafs as nat) { let k = height(b, leafs as nat); lemma_shape_p2(b, leafs as nat, k); let s = lemma_arity(b); assert(bpow(b, k) == leafs); assert(bpow(b, 0) == 1); lemma_tlen_pos(b, k); } }
//% hint let tree_len
    proof { let n = data@.len() as int; let l = E::blen() as int; lemma_fundamental_div_mod(n, l); assert((n / l) * l <= n) by(nonlinear_arith) requires n == l * (n / l) + n % l, n % l >= 0;
        if tree_len == n / l && b >= 2 { assert(tree_len * b <= 2 * leafs * b) by(nonlinear_arith) requires tree_len <= 2 * leafs; } }
//% end
//% fn src/merkle.rs MerkleTree::new
//% owned
//% spec
    requires data.hint() is Some ==> dom::<E, BaseTreeArity>(data.hint()->0 as nat), data.items().len() * E::blen() <= MAXB
    ensures
        r is Ok ==> made(r->Ok_0, leaves_of::<E, A>(data.items())) && data.hint() is Some && data.hint()->0 == data.items().len(),
        S::reliable() && S::keeps_all() && data.hint() is Some && data.hint()->0 == data.items().len() && has_shape(BaseTreeArity::n(), data.items().len()) && data.items().len() >= 2 && BaseTreeArity::n() <= 4096 ==> r is Ok,
//% hint start
    let ghost its = data.items();
//% loop 0
    invariant its == data.items(), vx_n0 == its.len(), vx_i0 <= vx_n0, vx_s0.rest() == its.skip(vx_i0 as int), vx_out0@.len() == vx_i0, forall|j: int| 0 <= j < vx_i0 ==> #[trigger] vx_out0@[j] == Ok::<E, Error>(its[j]),
    decreases vx_n0 - vx_i0
//% hint loop 0 before
    proof { assert(its.skip(0) =~= its); }
//% hint loop 0 start
    proof { assert(its.skip(vx_i0 - 1)[0] == its[vx_i0 - 1]); assert(its.skip(vx_i0 - 1).skip(1) =~= its.skip(vx_i0 as int)); }
//% hint loop 0 after
    proof { let o: Seq<Result<E>> = vx_out0@; assert(oks(o) =~= its); }
//% end
//% fn src/merkle.rs MerkleTree::new_with_config
//% owned
//% spec
    requires data.hint() is Some ==> dom::<E, BaseTreeArity>(data.hint()->0 as nat), data.items().len() * E::blen() <= MAXB, S::env_ok()
    ensures
        r is Ok ==> data.hint() is Some && ((made(r->Ok_0, leaves_of::<E, A>(data.items())) && data.hint()->0 == data.items().len()) || reloaded(r->Ok_0, data.hint()->0 as nat)),
//% hint start
    let ghost its = data.items();
//% loop 0
    invariant its == data.items(), vx_n0 == its.len(), vx_i0 <= vx_n0, vx_s0.rest() == its.skip(vx_i0 as int), vx_out0@.len() == vx_i0, forall|j: int| 0 <= j < vx_i0 ==> #[trigger] vx_out0@[j] == Ok::<E, Error>(its[j]),
    decreases vx_n0 - vx_i0
//% hint loop 0 before
    proof { assert(its.skip(0) =~= its); }
//% hint loop 0 start
    proof { assert(its.skip(vx_i0 - 1)[0] == its[vx_i0 - 1]); assert(its.skip(vx_i0 - 1).skip(1) =~= its.skip(vx_i0 as int)); }
//% hint loop 0 after
    proof { let o: Seq<Result<E>> = vx_out0@; assert(oks(o) =~= its); }
//% end
//% fn src/merkle.rs MerkleTree::from_data
//% owned
//% subst O : Hashable < A > => O: Hashable<E, A>
//% spec
    requires data.hint() is Some ==> dom::<E, BaseTreeArity>(data.hint()->0 as nat), data.items().len() * E::blen() <= MAXB
    ensures
        r is Ok ==> made(r->Ok_0, leaves_of::<E, A>(hashes::<E, A, O>(data.items()))) && data.hint() is Some && data.hint()->0 == data.items().len(),
        S::reliable() && S::keeps_all() && data.hint() is Some && data.hint()->0 == data.items().len() && has_shape(BaseTreeArity::n(), data.items().len()) && data.items().len() >= 2 && BaseTreeArity::n() <= 4096 ==> r is Ok,
//% hint start
    let ghost its = data.items();
//% loop 0
    invariant its == data.items(), vx_n0 == its.len(), vx_i0 <= vx_n0, vx_s0.rest() == its.skip(vx_i0 as int), vx_out0@.len() == vx_i0, forall|j: int| 0 <= j < vx_i0 ==> #[trigger] vx_out0@[j] == Ok::<E, Error>(A::hf(its[j].data())),
    decreases vx_n0 - vx_i0
//% hint loop 0 before
    proof { assert(its.skip(0) =~= its); }
//% hint loop 0 start
    proof { assert(its.skip(vx_i0 - 1)[0] == its[vx_i0 - 1]); assert(its.skip(vx_i0 - 1).skip(1) =~= its.skip(vx_i0 as int)); }
//% hint loop 0 end
    proof { assert(Seq::<u8>::empty() + its[vx_i0 - 1].data() =~= its[vx_i0 - 1].data()); }
//% hint loop 0 after
    proof { let o: Seq<Result<E>> = vx_out0@; assert(oks(o) =~= hashes::<E, A, O>(its)); }
//% end
//% fn src/merkle.rs MerkleTree::from_data_with_config
//% owned
//% subst O : Hashable < A > => O: Hashable<E, A>
//% spec
    requires data.hint() is Some ==> dom::<E, BaseTreeArity>(data.hint()->0 as nat), data.items().len() * E::blen() <= MAXB, S::env_ok()
    ensures
        r is Ok ==> data.hint() is Some && ((made(r->Ok_0, leaves_of::<E, A>(hashes::<E, A, O>(data.items()))) && data.hint()->0 == data.items().len()) || reloaded(r->Ok_0, data.hint()->0 as nat)),
//% hint start
    let ghost its = data.items();
//% loop 0
    invariant its == data.items(), vx_n0 == its.len(), vx_i0 <= vx_n0, vx_s0.rest() == its.skip(vx_i0 as int), vx_out0@.len() == vx_i0, forall|j: int| 0 <= j < vx_i0 ==> #[trigger] vx_out0@[j] == Ok::<E, Error>(A::hf(its[j].data())),
    decreases vx_n0 - vx_i0
//% hint loop 0 before
    proof { assert(its.skip(0) =~= its); }
//% hint loop 0 start
    proof { assert(its.skip(vx_i0 - 1)[0] == its[vx_i0 - 1]); assert(its.skip(vx_i0 - 1).skip(1) =~= its.skip(vx_i0 as int)); }
//% hint loop 0 end
    proof { assert(Seq::<u8>::empty() + its[vx_i0 - 1].data() =~= its[vx_i0 - 1].data()); }
//% hint loop 0 after
    proof { let o: Seq<Result<E>> = vx_out0@; assert(oks(o) =~= hashes::<E, A, O>(its)); }
//% end
}
impl<E: Element, A: Algorithm<E>, S: Store<E>, BaseTreeArity: Unsigned, SubTreeArity: Unsigned, TopTreeArity: Unsigned> MerkleTree<E, A, S, BaseTreeArity, SubTreeArity, TopTreeArity> {
//% fn src/merkle.rs FromIndexedParallelIterator for MerkleTree::from_par_iter
//% spec
    requires dom::<E, BaseTreeArity>(into.items().len()), S::reliable()
    ensures
        r is Ok ==> made(r->Ok_0, leaves_of::<E, A>(into.items())),
        S::reliable() && S::keeps_all() && has_shape(BaseTreeArity::n(), into.items().len()) && into.items().len() >= 2 && BaseTreeArity::n() <= 4096 ==> r is Ok,
//% hint start
    let ghost b = BaseTreeArity::n();
    proof { E::el_ax(); lemma2_to64(); if Some(into.items().len() as usize) is Some { lemma_dom::<E, BaseTreeArity>(Some(into.items().len() as usize)->0 as nat); let n = Some(into.items().len() as usize)->0 as nat; if has_shape(b, n) { let k = height(b, n); lemma_shape_p2(b, n, k); let s = lemma_arity(b); if k >= 1 { lemma_bpow_pos(b, (k - 1) as nat); assert(n == b * bpow(b, (k - 1) as nat)); assert(n >= b) by(nonlinear_arith) requires n == b * bpow(b, (k - 1) as nat), bpow(b, (k - 1) as nat) >= 1; } else { assert(bpow(b, 0) == 1); } } } }
//% hint let size
    proof { lemma_p2_ge2(b); assert(size * E::blen() <= MAXB && size * b <= 0x8000_0000_0000_0000); if has_shape(b, leafs as nat) { let k = height(b, leafs as nat); assert(bpow(b, k) == leafs); if k == 0 { assert(bpow(b, 0) == 1); } } }
//% hint let data
    proof { if data.cap() >= size { lemma_fit_le(leafs as nat, b, size as int, data.cap() as int); } }
//% hint let root
    proof { lemma_made::<E, A, S, BaseTreeArity, SubTreeArity, TopTreeArity>(data, leafs, size, row_count, root, leaves_of::<E, A>(into.items())); }
//% end
//% fn src/merkle.rs FromIndexedParallelIterator for MerkleTree::from_par_iter_with_config
//% spec
    requires dom::<E, BaseTreeArity>(into.items().len()), S::env_ok()
    ensures
        r is Ok ==> made(r->Ok_0, leaves_of::<E, A>(into.items())) || reloaded(r->Ok_0, into.items().len()),
//% hint start
    let ghost b = BaseTreeArity::n();
    proof { E::el_ax(); lemma2_to64(); if Some(into.items().len() as usize) is Some { lemma_dom::<E, BaseTreeArity>(Some(into.items().len() as usize)->0 as nat); let n = Some(into.items().len() as usize)->0 as nat; if has_shape(b, n) { let k = height(b, n); lemma_shape_p2(b, n, k); let s = lemma_arity(b); if k >= 1 { lemma_bpow_pos(b, (k - 1) as nat); assert(n == b * bpow(b, (k - 1) as nat)); assert(n >= b) by(nonlinear_arith) requires n == b * bpow(b, (k - 1) as nat), bpow(b, (k - 1) as nat) >= 1; } else { assert(bpow(b, 0) == 1); } } } }
//% hint let size
    proof { lemma_p2_ge2(b); assert(size * E::blen() <= MAXB && size * b <= 0x8000_0000_0000_0000); if has_shape(b, leafs as nat) { let k = height(b, leafs as nat); assert(bpow(b, k) == leafs); if k == 0 { assert(bpow(b, 0) == 1); } } }
//% hint let data
    proof { if !S::keeps_all() && !data.loaded() { let kc = choose|k: nat| #[trigger] tlen(b, k) == size; assert(data.at_config(bpow(b, kc), b, config.file(), config.rows_to_discard as nat)); }  if data.cap() >= size { lemma_fit_le(leafs as nat, b, size as int, data.cap() as int); } }
//% hint let root#2
    proof { lemma_made::<E, A, S, BaseTreeArity, SubTreeArity, TopTreeArity>(data, leafs, size, row_count, root, leaves_of::<E, A>(into.items())); }
//% end
//% fn src/merkle.rs MerkleTree::from_slices
//% spec
    requires forall|i: int| 0 <= i < tree_data@.len() ==> (#[trigger] tree_data@[i])@.len() <= MAXB, BaseTreeArity::n() != 1, BaseTreeArity::n() <= 0x4000_0000, leafs <= 0x4000_0000_0000_0000, leafs * BaseTreeArity::n() <= 0x8000_0000_0000_0000, 2 * leafs * tree_data@.len() + 1 <= usize::MAX
    ensures r is Ok ==> tree_data@.len() == SubTreeArity::n() && r->Ok_0.wf() && r->Ok_0.data is SubTree && r->Ok_0.data->SubTree_0@.len() == tree_data@.len()
            && (forall|i: int| 0 <= i < tree_data@.len() ==> (#[trigger] r->Ok_0.data->SubTree_0@[i]).leafs == leafs && tree_data@[i]@.len() % E::blen() == 0 && r->Ok_0.data->SubTree_0@[i].st().view() == decode::<E>(tree_data@[i]@)),
        S::reliable() && S::keeps_all() && SubTreeArity::n() == tree_data@.len() && tree_data@.len() > 0 && has_shape(BaseTreeArity::n(), leafs as nat) && leafs >= 2
            && (forall|i: int| 0 <= i < tree_data@.len() ==> (#[trigger] tree_data@[i])@.len() == tlen(BaseTreeArity::n(), height(BaseTreeArity::n(), leafs as nat)) * E::blen()) ==> r is Ok,
//% hint start
    let ghost td = tree_data@;
    let ghost okd = S::reliable() && S::keeps_all() && SubTreeArity::n() == td.len() && td.len() > 0 && has_shape(BaseTreeArity::n(), leafs as nat) && leafs >= 2
            && (forall|i: int| 0 <= i < td.len() ==> (#[trigger] td[i])@.len() == tlen(BaseTreeArity::n(), height(BaseTreeArity::n(), leafs as nat)) * E::blen());
//% loop 0
    invariant vx_s0@ == td, td == tree_data@, vx_n0 == td.len(), vx_i0 <= vx_n0, trees@.len() == vx_i0,
        forall|i: int| 0 <= i < td.len() ==> (#[trigger] td[i])@.len() <= MAXB, BaseTreeArity::n() != 1, BaseTreeArity::n() <= 0x4000_0000, leafs <= 0x4000_0000_0000_0000, leafs * BaseTreeArity::n() <= 0x8000_0000_0000_0000, 2 * leafs * td.len() + 1 <= usize::MAX,
        okd == (S::reliable() && S::keeps_all() && SubTreeArity::n() == td.len() && td.len() > 0 && has_shape(BaseTreeArity::n(), leafs as nat) && leafs >= 2
            && (forall|i: int| 0 <= i < td.len() ==> (#[trigger] td[i])@.len() == tlen(BaseTreeArity::n(), height(BaseTreeArity::n(), leafs as nat)) * E::blen())),
        forall|j: int| 0 <= j < vx_i0 ==> (#[trigger] trees@[j]).base_wf() && trees@[j].leafs == leafs && td[j]@.len() % E::blen() == 0 && trees@[j].st().view() == decode::<E>(td[j]@),
    decreases vx_n0 - vx_i0
//% hint loop 0 before
    proof { let gg: Seq<MerkleTree<E, A, S, BaseTreeArity, U0, U0>> = trees@; }
//% hint ret
    proof { lemma_all_alike(trees@, leafs); if trees@.len() > 0 { assert(trees@[0].len * trees@.len() + 1 <= 2 * leafs * td.len() + 1) by(nonlinear_arith) requires trees@[0].len <= 2 * leafs, trees@.len() == td.len(); } }
//% end
//% fn src/merkle.rs MerkleTree::from_slices_with_configs
//% spec
    requires S::env_ok(), forall|i: int| 0 <= i < tree_data@.len() ==> (#[trigger] tree_data@[i])@.len() <= MAXB, BaseTreeArity::n() != 1, BaseTreeArity::n() <= 0x4000_0000, leafs <= 0x4000_0000_0000_0000, leafs * BaseTreeArity::n() <= 0x8000_0000_0000_0000, 2 * leafs * BaseTreeArity::n() <= 0x8000_0000_0000_0000, 2 * leafs * tree_data@.len() + 1 <= usize::MAX
    ensures r is Ok ==> tree_data@.len() == SubTreeArity::n() && TopTreeArity::n() == 0 && configs@.len() == tree_data@.len() && r->Ok_0.wf() && r->Ok_0.data is SubTree && r->Ok_0.data->SubTree_0@.len() == tree_data@.len()
            && (forall|i: int| 0 <= i < tree_data@.len() ==> (#[trigger] r->Ok_0.data->SubTree_0@[i]).leafs == leafs && tree_data@[i]@.len() % E::blen() == 0 && (S::keeps_all() && !r->Ok_0.data->SubTree_0@[i].st().loaded() ==> r->Ok_0.data->SubTree_0@[i].st().view() == decode::<E>(tree_data@[i]@)))
//% hint start
    let ghost td = tree_data@;
//% loop 0
    invariant td == tree_data@, vx_n0 == td.len(), vx_i0 <= vx_n0, trees@.len() == vx_i0, configs@.len() == td.len(), S::env_ok(),
        forall|i: int| 0 <= i < td.len() ==> (#[trigger] td[i])@.len() <= MAXB, BaseTreeArity::n() != 1, BaseTreeArity::n() <= 0x4000_0000, leafs <= 0x4000_0000_0000_0000, leafs * BaseTreeArity::n() <= 0x8000_0000_0000_0000, 2 * leafs * BaseTreeArity::n() <= 0x8000_0000_0000_0000, 2 * leafs * td.len() + 1 <= usize::MAX,
        forall|j: int| 0 <= j < vx_i0 ==> (#[trigger] trees@[j]).base_wf() && trees@[j].leafs == leafs && td[j]@.len() % E::blen() == 0 && (S::keeps_all() && !trees@[j].st().loaded() ==> trees@[j].st().view() == decode::<E>(td[j]@)),
    decreases vx_n0 - vx_i0
//% hint loop 0 before
    proof { let gg: Seq<MerkleTree<E, A, S, BaseTreeArity, U0, U0>> = trees@; }
//% hint ret
    proof { lemma_all_alike(trees@, leafs); if trees@.len() > 0 { assert(trees@[0].len * trees@.len() + 1 <= 2 * leafs * td.len() + 1) by(nonlinear_arith) requires trees@[0].len <= 2 * leafs, trees@.len() == td.len(); } }
//% end
//% fn src/merkle.rs MerkleTree::from_stores
//% owned
//% spec
    requires forall|i: int| 0 <= i < stores@.len() ==> (#[trigger] stores@[i]).wf(), BaseTreeArity::n() != 1, BaseTreeArity::n() <= 0x4000_0000, leafs <= 0x4000_0000_0000_0000, leafs * BaseTreeArity::n() <= 0x8000_0000_0000_0000, 2 * leafs * stores@.len() + 1 <= usize::MAX
    ensures r is Ok ==> stores@.len() == SubTreeArity::n() && TopTreeArity::n() == 0 && r->Ok_0.wf() && r->Ok_0.data is SubTree && r->Ok_0.data->SubTree_0@.len() == stores@.len()
            && (forall|i: int| 0 <= i < stores@.len() ==> (#[trigger] r->Ok_0.data->SubTree_0@[i]).leafs == leafs && r->Ok_0.data->SubTree_0@[i].st() == stores@[i] && r->Ok_0.data->SubTree_0@[i].root == stores@[i].view().last()),
        TopTreeArity::n() == 0 && SubTreeArity::n() == stores@.len() && stores@.len() > 0 && has_shape(BaseTreeArity::n(), leafs as nat) && leafs >= 2
            && (forall|i: int| 0 <= i < stores@.len() ==> (#[trigger] stores@[i]).view().len() == tlen(BaseTreeArity::n(), height(BaseTreeArity::n(), leafs as nat)) && stores@[i].good() && stores@[i].avail(stores@[i].view().len() - 1, stores@[i].view().len() as int)) ==> r is Ok,
//% hint start
    let ghost td = stores@;
    let ghost okd = TopTreeArity::n() == 0 && SubTreeArity::n() == td.len() && td.len() > 0 && has_shape(BaseTreeArity::n(), leafs as nat) && leafs >= 2
            && (forall|i: int| 0 <= i < td.len() ==> (#[trigger] td[i]).view().len() == tlen(BaseTreeArity::n(), height(BaseTreeArity::n(), leafs as nat)) && td[i].good() && td[i].avail(td[i].view().len() - 1, td[i].view().len() as int));
//% loop 0
    invariant vx_s0@ == td.skip(vx_i0 as int), td == stores@, vx_n0 == td.len(), vx_i0 <= vx_n0, trees@.len() == vx_i0,
        forall|i: int| 0 <= i < td.len() ==> (#[trigger] td[i]).wf(), BaseTreeArity::n() != 1, BaseTreeArity::n() <= 0x4000_0000, leafs <= 0x4000_0000_0000_0000, leafs * BaseTreeArity::n() <= 0x8000_0000_0000_0000, 2 * leafs * td.len() + 1 <= usize::MAX,
        okd == (TopTreeArity::n() == 0 && SubTreeArity::n() == td.len() && td.len() > 0 && has_shape(BaseTreeArity::n(), leafs as nat) && leafs >= 2
            && (forall|i: int| 0 <= i < td.len() ==> (#[trigger] td[i]).view().len() == tlen(BaseTreeArity::n(), height(BaseTreeArity::n(), leafs as nat)) && td[i].good() && td[i].avail(td[i].view().len() - 1, td[i].view().len() as int))),
        forall|j: int| 0 <= j < vx_i0 ==> (#[trigger] trees@[j]).base_wf() && trees@[j].leafs == leafs && trees@[j].st() == td[j] && trees@[j].root == td[j].view().last(),
    decreases vx_n0 - vx_i0
//% hint loop 0 before
    proof { let gg: Seq<MerkleTree<E, A, S, BaseTreeArity, U0, U0>> = trees@; assert(td.skip(0) =~= td); }
//% hint loop 0 start
    proof { assert(td.skip(vx_i0 - 1)[0] == td[vx_i0 - 1]); assert(td.skip(vx_i0 - 1).skip(1) =~= td.skip(vx_i0 as int)); }
//% hint ret
    proof { lemma_all_alike(trees@, leafs); if trees@.len() > 0 { assert(trees@[0].len * trees@.len() + 1 <= 2 * leafs * td.len() + 1) by(nonlinear_arith) requires trees@[0].len <= 2 * leafs, trees@.len() == td.len(); } }
//% end
//% fn src/merkle.rs MerkleTree::from_store_configs
//% spec
    requires S::env_ok(), dom::<E, BaseTreeArity>(leafs as nat), 2 * leafs * configs@.len() + 1 <= usize::MAX
    ensures r is Ok ==> configs@.len() == SubTreeArity::n() && TopTreeArity::n() == 0 && r->Ok_0.wf() && r->Ok_0.mid_wf() && r->Ok_0.data is SubTree && r->Ok_0.data->SubTree_0@.len() == configs@.len()
            && (forall|i: int| 0 <= i < configs@.len() ==> (#[trigger] r->Ok_0.data->SubTree_0@[i]).leafs == leafs && r->Ok_0.data->SubTree_0@[i].root == r->Ok_0.data->SubTree_0@[i].st().view().last())
//% hint start
    let ghost td = configs@;
    proof { E::el_ax(); lemma2_to64(); lemma_dom::<E, BaseTreeArity>(leafs as nat); if is_p2(BaseTreeArity::n()) { lemma_p2_ge2(BaseTreeArity::n()); } }
//% loop 0
    invariant vx_s0@ == td, td == configs@, vx_n0 == td.len(), vx_i0 <= vx_n0, trees@.len() == vx_i0, S::env_ok(), branches == BaseTreeArity::n(),
        dom::<E, BaseTreeArity>(leafs as nat), 2 * leafs * td.len() + 1 <= usize::MAX, is_p2(BaseTreeArity::n()) ==> branches >= 2,
        leafs * BaseTreeArity::n() <= 0x8000_0000_0000_0000, forall|s: int| leafs <= s <= 2 * leafs ==> (#[trigger] (s * E::blen())) <= MAXB && s * BaseTreeArity::n() <= 0x8000_0000_0000_0000,
        forall|j: int| 0 <= j < vx_i0 ==> (#[trigger] trees@[j]).base_wf() && trees@[j].leafs == leafs && trees@[j].root == trees@[j].st().view().last(),
    decreases vx_n0 - vx_i0
//% hint loop 0 before
    proof { let gg: Seq<MerkleTree<E, A, S, BaseTreeArity, U0, U0>> = trees@; }
//% hint ret
    proof { lemma_all_alike(trees@, leafs); if trees@.len() > 0 { assert(trees@[0].len * trees@.len() + 1 <= 2 * leafs * td.len() + 1) by(nonlinear_arith) requires trees@[0].len <= 2 * leafs, trees@.len() == td.len(); } }
//% end
//% fn src/merkle.rs MerkleTree::from_sub_tree_store_configs
//% spec
    requires S::env_ok(), dom::<E, BaseTreeArity>(leafs as nat), configs@.len() <= MAXB, 2 * leafs * configs@.len() + TopTreeArity::n() + 1 <= usize::MAX
    ensures r is Ok ==> TopTreeArity::n() > 0 && configs@.len() == TopTreeArity::n() * SubTreeArity::n() && r->Ok_0.wf() && r->Ok_0.data is TopTree && r->Ok_0.leafs == configs@.len() * leafs
//% hint loop 0 before
    let ghost c = (configs@.len() / tree_count as nat) as int;
    proof { let gg: Seq<MerkleTree<E, A, S, BaseTreeArity, SubTreeArity, U0>> = trees@; lemma_fundamental_div_mod(configs@.len() as int, tree_count as int); assert(configs@.len() == c * tree_count) by(nonlinear_arith) requires configs@.len() == tree_count * c + 0; }
//% loop 0
    invariant S::env_ok(), dom::<E, BaseTreeArity>(leafs as nat), configs@.len() <= MAXB, 2 * leafs * configs@.len() + TopTreeArity::n() + 1 <= usize::MAX, tree_count == TopTreeArity::n(), tree_count > 0,
        c == configs@.len() / tree_count as nat, configs@.len() == c * tree_count, vx_i0 <= vx_n0, vx_n0 == tree_count, start == vx_i0 * c, end == start + c, c >= 0, end <= configs@.len() + c, trees@.len() == vx_i0,
        forall|j: int| 0 <= j < vx_i0 ==> (#[trigger] trees@[j]).mid_wf() && trees@[j].data is SubTree && c == SubTreeArity::n() && trees@[j].data->SubTree_0@[0].leafs == leafs,
    decreases vx_n0 - vx_i0
//% hint loop 0 start
    proof {
        assert(start + c <= configs@.len() && vx_i0 * c == start + c) by(nonlinear_arith) requires start == (vx_i0 - 1) * c, vx_i0 <= tree_count, configs@.len() == c * tree_count, c >= 0;
        assert(2 * leafs * c <= 2 * leafs * configs@.len()) by(nonlinear_arith) requires c <= configs@.len(), leafs >= 0;
        assert(configs@.len() + c <= 2 * configs@.len() && configs@.len() <= usize::MAX);
    }
//% hint ret
    proof {
        let sn = SubTreeArity::n();
        assert forall|j: int| 0 <= j < trees@.len() implies (#[trigger] trees@[j]).row_count == trees@[0].row_count && trees@[j].len == trees@[0].len && trees@[j].leafs == trees@[0].leafs && trees@[j].leafs == sn * leafs && trees@[j].len <= 2 * leafs * sn + 1 by {
            lemma_subs_alike(trees@[j], trees@[0]);
        }
        if trees@.len() > 0 {
            assert(trees@[0].len * trees@.len() + 1 <= 2 * leafs * configs@.len() + TopTreeArity::n() + 1) by(nonlinear_arith) requires trees@[0].len <= 2 * leafs * sn + 1, trees@.len() == TopTreeArity::n(), configs@.len() == sn * TopTreeArity::n();
            assert(trees@.len() * (sn * leafs) == configs@.len() * leafs) by(nonlinear_arith) requires trees@.len() == TopTreeArity::n(), configs@.len() == sn * TopTreeArity::n();
        }
    }
//% end
}
} // verus!
