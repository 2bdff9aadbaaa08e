verus! {
// ---- the shape of a tree of arity b and height k (k+1 rows) ----------------
pub open spec fn bpow(b: nat, k: nat) -> nat decreases k { if k == 0 { 1 } else { b * bpow(b, (k - 1) as nat) } }
/// number of nodes of a tree with b^k leaves
pub open spec fn tlen(b: nat, k: nat) -> nat decreases k { if k == 0 { 1 } else { bpow(b, k) + tlen(b, (k - 1) as nat) } }
/// number of nodes of a compound tree: s base trees of t nodes under one node, w of these under one node
pub open spec fn clen(t: nat, s: nat, w: nat) -> nat { if w > 0 { 1 + w + s * w * t } else if s > 0 { 1 + s * t } else { t } }
pub open spec fn good_arity(b: nat) -> bool { b >= 2 && is_p2(b) }
/// n is the number of leaves of a tree of height k
pub open spec fn shape(b: nat, n: nat, k: nat) -> bool { good_arity(b) && n == bpow(b, k) }
pub open spec fn has_shape(b: nat, n: nat) -> bool { good_arity(b) && exists|k: nat| n == #[trigger] bpow(b, k) }
pub open spec fn height(b: nat, n: nat) -> nat { choose|k: nat| n == #[trigger] bpow(b, k) }

pub proof fn lemma_bpow_pos(b: nat, k: nat)
    requires b >= 1
    ensures bpow(b, k) >= 1
    decreases k
{ if k > 0 { lemma_bpow_pos(b, (k - 1) as nat); assert(b * bpow(b, (k - 1) as nat) >= 1) by(nonlinear_arith) requires b >= 1, bpow(b, (k - 1) as nat) >= 1; } }
pub proof fn lemma_bpow_mono(b: nat, j: nat, k: nat)
    requires b >= 2, j < k
    ensures bpow(b, j) < bpow(b, k), bpow(b, k) >= b * bpow(b, j)
    decreases k
{
    lemma_bpow_pos(b, (k - 1) as nat);
    lemma_bpow_pos(b, j);
    let x = bpow(b, (k - 1) as nat);
    assert(b * x > x) by(nonlinear_arith) requires b >= 2, x >= 1;
    if j < k - 1 {
        lemma_bpow_mono(b, j, (k - 1) as nat);
        assert(b * x >= b * bpow(b, j)) by(nonlinear_arith) requires x >= bpow(b, j);
    }
}
pub proof fn lemma_bpow_inj(b: nat, j: nat, k: nat)
    requires b >= 2, bpow(b, j) == bpow(b, k)
    ensures j == k
{ if j < k { lemma_bpow_mono(b, j, k); } else if k < j { lemma_bpow_mono(b, k, j); } }
pub proof fn lemma_bpow_add(b: nat, j: nat, k: nat)
    requires b >= 1
    ensures bpow(b, j + k) == bpow(b, j) * bpow(b, k)
    decreases j
{
    if j == 0 { assert(bpow(b, 0) == 1); assert(1 * bpow(b, k) == bpow(b, k)); assert((0 + k) as nat == k); }
    else {
        lemma_bpow_add(b, (j - 1) as nat, k);
        assert((j + k - 1) as nat == (j - 1) as nat + k);
        assert(bpow(b, j + k) == b * bpow(b, (j + k - 1) as nat));
        assert(bpow(b, j) == b * bpow(b, (j - 1) as nat));
        assert(b * (bpow(b, (j - 1) as nat) * bpow(b, k)) == (b * bpow(b, (j - 1) as nat)) * bpow(b, k)) by(nonlinear_arith);
    }
}
pub proof fn lemma_bpow_div(b: nat, k: nat)
    requires b >= 1, k >= 1
    ensures bpow(b, k) / b == bpow(b, (k - 1) as nat), bpow(b, k) % b == 0
{
    let x = bpow(b, (k - 1) as nat);
    lemma_div_multiples_vanish(x as int, b as int);
    lemma_mul_is_commutative(b as int, x as int);
    lemma_mod_multiples_basic(x as int, b as int);
}
pub proof fn lemma_bpow_ge(b: nat, k: nat)
    requires b >= 2
    ensures bpow(b, k) >= k + 1
    decreases k
{ if k > 0 { lemma_bpow_ge(b, (k - 1) as nat); let x = bpow(b, (k - 1) as nat); assert(b * x >= 2 * x) by(nonlinear_arith) requires b >= 2; } }
/// one division of a row length
pub proof fn lemma_rowc_step(b: nat, c: nat, w: nat, n: nat)
    requires b >= 2, w >= 1, w * bpow(b, c) <= n < (w + 1) * bpow(b, c)
    ensures (w / b) * bpow(b, c + 1) <= n < (w / b + 1) * bpow(b, c + 1), bpow(b, c) <= n, w / b < w
{
    let p = bpow(b, c);
    let q = w / b;
    lemma_bpow_pos(b, c);
    lemma_fundamental_div_mod(w as int, b as int);
    lemma_mod_bound(w as int, b as int);
    assert(bpow(b, c + 1) == b * p);
    assert(q * (b * p) == (b * q) * p && (q + 1) * (b * p) == (b * q + b) * p) by(nonlinear_arith);
    assert((b * q) * p <= w * p) by(nonlinear_arith) requires b * q <= w, p >= 0;
    assert((w + 1) * p <= (b * q + b) * p) by(nonlinear_arith) requires w + 1 <= b * q + b, p >= 0;
    assert(1 * p <= w * p) by(nonlinear_arith) requires w >= 1, p >= 0;
    assert(q < w) by(nonlinear_arith) requires b * q <= w, b >= 2, w >= 1;
}
pub proof fn lemma_bpow2(k: nat)
    ensures bpow(2, k) == pow2(k)
    decreases k
{ lemma2_to64(); if k > 0 { lemma_bpow2((k - 1) as nat); lemma_pow2_unfold(k); } }
pub proof fn lemma_row_count2(n: nat)
    ensures forall|k: nat| #[trigger] bpow(2, k) == n ==> 2 * n == pow2(k + 1),
        is_p2(n) ==> exists|k: nat| n == #[trigger] bpow(2, k) && 2 * n == pow2(k + 1) && bpow(2, k + 1) == 2 * n && n < 2 * n
{
    assert forall|k: nat| #[trigger] bpow(2, k) == n implies 2 * n == pow2(k + 1) by { lemma_bpow2(k); lemma_pow2_unfold(k + 1); }
    if is_p2(n) { let k = choose|k: nat| n == #[trigger] pow2(k); lemma_bpow2(k); lemma_bpow_pos(2, k); lemma_pow2_unfold(k + 1); assert(bpow(2, (k + 1 - 1) as nat) == n); assert(bpow(2, k + 1) == 2 * n); }
}
pub proof fn lemma_tlen_pos(b: nat, k: nat)
    requires b >= 1
    ensures tlen(b, k) >= 1, tlen(b, k) >= bpow(b, k)
    decreases k
{ lemma_bpow_pos(b, k); if k > 0 { lemma_tlen_pos(b, (k - 1) as nat); } }
/// (b-1) * len + 1 == b * leaves
pub proof fn lemma_tlen_bound(b: nat, k: nat)
    requires b >= 2
    ensures (b - 1) * tlen(b, k) + 1 == b * bpow(b, k), tlen(b, k) <= 2 * bpow(b, k) - 1
    decreases k
{
    lemma_bpow_pos(b, k);
    let n = bpow(b, k);
    if k == 0 {
        assert((b - 1) * 1 + 1 == b * 1) by(nonlinear_arith);
    } else {
        lemma_tlen_bound(b, (k - 1) as nat);
        let t = tlen(b, (k - 1) as nat);
        let m = bpow(b, (k - 1) as nat);
        assert((b - 1) * (n + t) == (b - 1) * n + (b - 1) * t) by(nonlinear_arith);
        assert((b - 1) * n + n == b * n) by(nonlinear_arith);
    }
    let l = tlen(b, k);
    // (b-1) * l <= b*n - 1 <= (b-1) * (2n - 1) since b >= 2 and n >= 1
    assert((b - 1) * (2 * n - 1) >= b * n - 1) by(nonlinear_arith) requires b >= 2, n >= 1;
    assert(l <= 2 * n - 1) by(nonlinear_arith) requires (b - 1) * l == b * n - 1, (b - 1) * (2 * n - 1) >= b * n - 1, b >= 2;
}
pub proof fn lemma_tlen_mono(b: nat, j: nat, k: nat)
    requires b >= 2, j < k
    ensures tlen(b, j) < tlen(b, k), tlen(b, j) + bpow(b, k) <= tlen(b, k)
    decreases k
{
    lemma_bpow_pos(b, k);
    if j < k - 1 { lemma_tlen_mono(b, j, (k - 1) as nat); }
}
pub proof fn lemma_arity(b: nat) -> (s: nat)
    requires good_arity(b), b <= 0xffff_ffff_ffff_ffff
    ensures b == pow2(s), 1 <= s < 64
{
    let s = choose|k: nat| b == #[trigger] pow2(k);
    lemma_pow2_bound(s);
    lemma2_to64();
    s
}
pub proof fn lemma_arity4(b: nat)
    requires is_p2(b), b != 1, b != 2, b <= 0xffff_ffff_ffff_ffff
    ensures b >= 4, good_arity(b)
{
    let s = choose|k: nat| b == #[trigger] pow2(k);
    lemma_pow2_bound(s);
    lemma2_to64();
    if s > 2 { lemma_pow2_strictly_increases(2, s); }
}
pub proof fn lemma_p2_misc()
    ensures !is_p2(0), is_p2(1), is_p2(2)
{
    assert forall|k: nat| 0 != #[trigger] pow2(k) by { lemma_pow2_pos(k); }
    lemma2_to64();
    assert(1 == pow2(0)); assert(2 == pow2(1));
}
/// powers of a power of two are powers of two
pub proof fn lemma_bpow_p2(s: nat, k: nat)
    ensures bpow(pow2(s), k) == pow2(s * k), is_p2(bpow(pow2(s), k))
    decreases k
{
    if k == 0 { lemma2_to64(); assert(s * 0 == 0) by(nonlinear_arith); }
    else {
        lemma_bpow_p2(s, (k - 1) as nat);
        assert(s * k == s * (k - 1) + s) by(nonlinear_arith);
        lemma_pow2_adds(s, (s * (k - 1)) as nat);
    }
}
pub proof fn lemma_shape_p2(b: nat, n: nat, k: nat)
    requires shape(b, n, k)
    ensures is_p2(n)
{
    let s = choose|s: nat| b == #[trigger] pow2(s);
    lemma_bpow_p2(s, k);
}
// ---- rows over n leaves: widths and offsets ----
pub open spec fn wid(n: nat, b: nat, h: nat) -> nat decreases h { if h == 0 { n } else { wid(n, b, (h - 1) as nat) / b } }
pub open spec fn off(n: nat, b: nat, h: nat) -> nat decreases h { if h == 0 { 0 } else { off(n, b, (h - 1) as nat) + wid(n, b, (h - 1) as nat) } }
pub proof fn lemma_wid(n: nat, b: nat, h: nat)
    requires b >= 1
    ensures wid(n, b, h) == n / bpow(b, h)
    decreases h
{
    lemma_bpow_pos(b, h);
    if h > 0 {
        lemma_wid(n, b, (h - 1) as nat);
        lemma_bpow_pos(b, (h - 1) as nat);
        lemma_div_denominator(n as int, bpow(b, (h - 1) as nat) as int, b as int);
        lemma_mul_is_commutative(b as int, bpow(b, (h - 1) as nat) as int);
    } else { assert(bpow(b, 0) == 1); }
}
pub proof fn lemma_wid_shape(n: nat, b: nat, k: nat, h: nat)
    requires shape(b, n, k), h <= k
    ensures wid(n, b, h) == bpow(b, (k - h) as nat), wid(n, b, h) >= 1
    decreases h
{
    if h > 0 { lemma_wid_shape(n, b, k, (h - 1) as nat); lemma_bpow_div(b, (k - h + 1) as nat); }
    lemma_bpow_pos(b, (k - h) as nat);
}
pub proof fn lemma_off_shape(n: nat, b: nat, k: nat, h: nat)
    requires shape(b, n, k), h <= k
    ensures off(n, b, h) == tlen(b, k) - tlen(b, (k - h) as nat), off(n, b, h) + wid(n, b, h) <= tlen(b, k), h < k ==> off(n, b, h) + wid(n, b, h) < tlen(b, k)
    decreases h
{
    lemma_wid_shape(n, b, k, h);
    if h > 0 { lemma_off_shape(n, b, k, (h - 1) as nat); lemma_wid_shape(n, b, k, (h - 1) as nat); }
    if h < k { lemma_tlen_pos(b, (k - h - 1) as nat); }
}
/// the whole: off(k+1) == len
pub proof fn lemma_off_total(n: nat, b: nat, k: nat)
    requires shape(b, n, k)
    ensures off(n, b, k + 1) == tlen(b, k), off(n, b, k) + 1 == tlen(b, k), wid(n, b, k) == 1
{
    lemma_off_shape(n, b, k, k); lemma_wid_shape(n, b, k, k);
    assert(bpow(b, 0) == 1); assert(tlen(b, 0) == 1);
}
pub proof fn lemma_off_mono(n: nat, b: nat, g: nat, h: nat)
    requires g <= h
    ensures off(n, b, g) <= off(n, b, h)
    decreases h
{ if g < h { lemma_off_mono(n, b, g, (h - 1) as nat); } }
/// all rows over n leaves fit into c nodes
pub open spec fn rows_fit(n: nat, b: nat, c: int) -> bool { forall|h: nat| #[trigger] off(n, b, h) <= c }
pub proof fn lemma_rows_fit(n: nat, b: nat, h: nat)
    requires b >= 1, wid(n, b, h) == 0
    ensures rows_fit(n, b, off(n, b, h) as int)
{
    assert forall|g: nat| #[trigger] off(n, b, g) <= off(n, b, h) by {
        if g <= h { lemma_off_mono(n, b, g, h); } else { lemma_off_flat(n, b, h, g); }
    }
}
proof fn lemma_off_flat(n: nat, b: nat, h: nat, g: nat)
    requires b >= 1, wid(n, b, h) == 0, h <= g
    ensures off(n, b, g) == off(n, b, h), wid(n, b, g) == 0
    decreases g
{ if g > h { lemma_off_flat(n, b, h, (g - 1) as nat); assert(0int / (b as int) == 0) by(nonlinear_arith) requires b >= 1; } }
pub proof fn lemma_rows_fit_shape(n: nat, b: nat, k: nat)
    requires shape(b, n, k)
    ensures rows_fit(n, b, tlen(b, k) as int)
{
    lemma_off_total(n, b, k);
    assert(wid(n, b, k + 1) == 1nat / b);
    assert(1nat / b == 0) by(nonlinear_arith) requires b >= 2;
    lemma_rows_fit(n, b, k + 1);
}
pub proof fn lemma_wid_le(n: nat, m: nat, b: nat, h: nat)
    requires n <= m, b >= 1
    ensures wid(n, b, h) <= wid(m, b, h), off(n, b, h) <= off(m, b, h), n < m && h >= 1 ==> off(n, b, h) < off(m, b, h)
    decreases h
{
    if h > 0 {
        lemma_wid_le(n, m, b, (h - 1) as nat);
        lemma_div_is_ordered(wid(n, b, (h - 1) as nat) as int, wid(m, b, (h - 1) as nat) as int, b as int);
        if h == 1 { assert(off(n, b, 0) == 0 && off(m, b, 0) == 0 && wid(n, b, 0) == n && wid(m, b, 0) == m); }
    }
}
/// only b^k leaves make a tree of tlen(b, k) nodes
pub proof fn lemma_len_inj(n: nat, b: nat, h: nat)
    requires good_arity(b), n >= 1, wid(n, b, h) == 0
    ensures forall|k: nat| #![trigger tlen(b, k)] tlen(b, k) == off(n, b, h) ==> n == bpow(b, k)
{
    assert forall|k: nat| #![trigger tlen(b, k)] tlen(b, k) == off(n, b, h) implies n == bpow(b, k) by {
        let m = bpow(b, k);
        lemma_off_total(m, b, k);
        assert(wid(m, b, k + 1) == 1nat / b);
        assert(1nat / b == 0) by(nonlinear_arith) requires b >= 2;
        let g = h + k + 1;
        lemma_off_flat(n, b, h, g);
        lemma_off_flat(m, b, k + 1, g);
        if n < m { lemma_wid_le(n, m, b, g); } else if m < n { lemma_wid_le(m, n, b, g); }
    }
}
} // verus!
