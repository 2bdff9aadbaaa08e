verus! {
// ---- rows of a tree over n leaves: widths and offsets -----------------------
/// every node of row h is the hash, at the children's height, of its b children in order
pub open spec fn row_ok<E: Node, A: Algorithm<E>>(v: Seq<E>, n: nat, b: nat, h: nat) -> bool {
    forall|i: int| 0 <= i < wid(n, b, h) ==> #[trigger] v[off(n, b, h) + i] == A::nh(v.subrange(off(n, b, (h - 1) as nat) + i * b, off(n, b, (h - 1) as nat) + i * b + b), (h - 1) as nat)
}
pub open spec fn rows_ok<E: Node, A: Algorithm<E>>(v: Seq<E>, n: nat, b: nat, k: nat) -> bool {
    forall|h: nat| 1 <= h <= k ==> #[trigger] row_ok::<E, A>(v, n, b, h)
}
/// v is the canonical tree over the leaves: leaf row, then every next row, root last
pub open spec fn is_tree<E: Node, A: Algorithm<E>>(v: Seq<E>, leaves: Seq<E>, b: nat, k: nat) -> bool {
    &&& shape(b, leaves.len(), k)
    &&& v.len() == tlen(b, k)
    &&& v.subrange(0, leaves.len() as int) == leaves
    &&& rows_ok::<E, A>(v, leaves.len(), b, k)
}
/// rows survive changes above them
pub proof fn lemma_row_frame<E: Node, A: Algorithm<E>>(v: Seq<E>, w: Seq<E>, n: nat, b: nat, h: nat)
    requires b >= 1, 1 <= h, row_ok::<E, A>(v, n, b, h), off(n, b, h + 1) <= v.len(), off(n, b, h + 1) <= w.len(),
        forall|i: int| 0 <= i < off(n, b, h + 1) ==> v[i] == w[i],
    ensures row_ok::<E, A>(w, n, b, h)
{
    let o = off(n, b, (h - 1) as nat);
    let x = wid(n, b, (h - 1) as nat);
    assert(off(n, b, h) == o + x); assert(wid(n, b, h) == x / b); assert(off(n, b, h + 1) == off(n, b, h) + wid(n, b, h));
    assert forall|i: int| 0 <= i < wid(n, b, h) implies #[trigger] w[off(n, b, h) + i] == A::nh(w.subrange(o + i * b, o + i * b + b), (h - 1) as nat) by {
        assert(i * b + b <= x) by(nonlinear_arith) requires 0 <= i < x / b, b >= 1;
        assert(i * b >= 0) by(nonlinear_arith) requires i >= 0, b >= 1;
        assert(w.subrange(o + i * b, o + i * b + b) =~= v.subrange(o + i * b, o + i * b + b));
        assert(v[off(n, b, h) + i] == w[off(n, b, h) + i]);
    }
}
/// powers of two divide each other
pub proof fn lemma_p2_div(n: nat, b: nat)
    requires is_p2(n), is_p2(b)
    ensures n >= b ==> n % b == 0 && is_p2(n / b) && n == (n / b) * b, n < b ==> n / b == 0, b >= 1, n >= 1, n % b == 0 || n < b
{
    let t = choose|t: nat| n == #[trigger] pow2(t);
    let s = choose|s: nat| b == #[trigger] pow2(s);
    lemma_pow2_pos(t); lemma_pow2_pos(s);
    if t < s { lemma_pow2_strictly_increases(t, s); lemma_basic_div(n as int, b as int); lemma_small_mod(n, b); }
    else {
        lemma_pow2_adds((t - s) as nat, s);
        assert((t - s) as nat + s == t);
        lemma_div_multiples_vanish(pow2((t - s) as nat) as int, b as int);
        lemma_mul_is_commutative(b as int, pow2((t - s) as nat) as int);
        lemma_mod_multiples_basic(pow2((t - s) as nat) as int, b as int);
        lemma_div_by_multiple(pow2((t - s) as nat) as int, b as int);
        lemma_pow2_pos((t - s) as nat);
        assert(n >= b) by(nonlinear_arith) requires n == pow2((t - s) as nat) * b, pow2((t - s) as nat) >= 1, b >= 1;
    }
}
pub proof fn lemma_p2_even(n: nat)
    requires is_p2(n), n >= 2
    ensures n % 2 == 0, n == 2 * (n / 2)
{ lemma2_to64(); assert(2 == pow2(1)); lemma_p2_div(n, 2); }
/// a power of two that one row count below fits is a power of the arity
pub proof fn lemma_rows_shape(n: nat, b: nat, k: nat)
    requires good_arity(b), is_p2(n), bpow(b, k) <= n, wid(n, b, k) <= 1
    ensures shape(b, n, k)
{
    lemma_wid(n, b, k);
    lemma_bpow_pos(b, k);
    lemma_shape_p2(b, bpow(b, k), k);
    lemma_p2_div(n, bpow(b, k));
    let q = n / bpow(b, k);
    assert(n == q * bpow(b, k));
    assert(q >= 1) by(nonlinear_arith) requires n == q * bpow(b, k), bpow(b, k) <= n, bpow(b, k) >= 1;
    assert(q == 1);
    assert(1 * bpow(b, k) == bpow(b, k));
}
/// upper bound of what a build writes, whatever the shape
pub proof fn lemma_off_bound(n: nat, b: nat, h: nat)
    requires b >= 2
    ensures off(n, b, h) + 2 * wid(n, b, h) <= 2 * n
    decreases h
{
    if h > 0 {
        lemma_off_bound(n, b, (h - 1) as nat);
        let x = wid(n, b, (h - 1) as nat);
        assert(2 * (x / b) <= x) by(nonlinear_arith) requires b >= 2;
    }
}
/// one more row
pub proof fn lemma_next_row<E: Node, A: Algorithm<E>>(v: Seq<E>, w: Seq<E>, n: nat, b: nat, h: nat)
    requires b >= 1, rows_ok::<E, A>(v, n, b, h), v.len() == off(n, b, h + 1), w.len() == off(n, b, h + 2),
        forall|i: int| 0 <= i < v.len() ==> #[trigger] w[i] == v[i],
        forall|i: int| 0 <= i < wid(n, b, h + 1) ==> #[trigger] w[off(n, b, h + 1) + i] == A::nh(v.subrange(off(n, b, h) + i * b, off(n, b, h) + i * b + b), h),
    ensures rows_ok::<E, A>(w, n, b, h + 1)
{
    assert forall|g: nat| 1 <= g <= h + 1 implies #[trigger] row_ok::<E, A>(w, n, b, g) by {
        if g <= h {
            lemma_off_mono(n, b, g + 1, h + 1);
            lemma_row_frame::<E, A>(v, w, n, b, g);
        } else {
            let o = off(n, b, h); let x = wid(n, b, h);
            assert(g == h + 1); assert(off(n, b, g) == o + x); assert(wid(n, b, g) == x / b);
            assert forall|i: int| 0 <= i < wid(n, b, g) implies #[trigger] w[off(n, b, g) + i] == A::nh(w.subrange(off(n, b, (g - 1) as nat) + i * b, off(n, b, (g - 1) as nat) + i * b + b), (g - 1) as nat) by {
                assert((g - 1) as nat == h);
                assert(i * b + b <= x) by(nonlinear_arith) requires 0 <= i < x / b, b >= 1;
                assert(i * b >= 0) by(nonlinear_arith) requires i >= 0, b >= 1;
                assert(w.subrange(o + i * b, o + i * b + b) =~= v.subrange(o + i * b, o + i * b + b));
                assert(w[off(n, b, h + 1) + i] == A::nh(v.subrange(off(n, b, h) + i * b, off(n, b, h) + i * b + b), h));
            }
        }
    }
}
/// the numbers of one more row
pub proof fn lemma_row_step(n: nat, b: nat, h: nat)
    requires good_arity(b), is_p2(wid(n, b, h))
    ensures off(n, b, h + 1) == off(n, b, h) + wid(n, b, h), wid(n, b, h + 1) == wid(n, b, h) / b, wid(n, b, h + 1) < wid(n, b, h),
        off(n, b, h + 2) == off(n, b, h + 1) + wid(n, b, h + 1), off(n, b, h) + wid(n, b, h) + wid(n, b, h + 1) <= 2 * n,
        wid(n, b, h) >= b ==> wid(n, b, h) % b == 0 && is_p2(wid(n, b, h + 1)) && wid(n, b, h + 1) * b == wid(n, b, h) && wid(n, b, h + 1) >= 1,
        wid(n, b, h) < b ==> wid(n, b, h + 1) == 0,
        0 < wid(n, b, h) / b + 1 <= wid(n, b, h) + 1,
{
    let w = wid(n, b, h);
    assert(off(n, b, h + 1) == off(n, b, h) + w); assert(wid(n, b, h + 1) == w / b);
    assert(off(n, b, h + 2) == off(n, b, h + 1) + wid(n, b, h + 1));
    lemma_p2_div(w, b);
    lemma_off_bound(n, b, h);
    assert(w / b < w) by(nonlinear_arith) requires b >= 2, w >= 1;
    if w >= b { assert(w / b >= 1) by(nonlinear_arith) requires w >= b, b >= 1; }
}
/// the loop over the rows ended with all rows of a tree over n leaves: at the root, or past it
pub proof fn lemma_rows_end<E: Node, A: Algorithm<E>>(v: Seq<E>, leaves: Seq<E>, n: nat, b: nat, k: nat)
    requires good_arity(b), is_p2(n), n == leaves.len(), bpow(b, k) <= n, wid(n, b, k) <= 1,
        wid(n, b, k) >= 1 ==> v.len() == off(n, b, k) + 1 && rows_ok::<E, A>(v, n, b, k) && v.subrange(0, n as int) == leaves,
    ensures is_tree::<E, A>(v, leaves, b, k)
{
    lemma_rows_shape(n, b, k);
    lemma_off_total(n, b, k);
}
/// t is the tree over these leaves
pub open spec fn built<E: Element, A: Algorithm<E>>(t: Seq<E>, leaves: Seq<E>, b: nat, k: nat, root: E) -> bool { is_tree::<E, A>(t, leaves, b, k) && root == t.last() }
} // verus!
