verus! {
/// the number of discarded rows leaves at least one cached row and all base rows
pub open spec fn compactable(b: nat, len: nat, d: nat) -> bool { good_arity(b) && exists|k: nat| #[trigger] tlen(b, k) == len && d < k }
// ---- elements in bytes --------------------------------------------------------
/// the first n elements of the bytes
pub open spec fn slots<E: Element>(b: Seq<u8>, n: nat) -> Seq<E> { Seq::new(n, |i: int| E::of(b.subrange(i * E::blen(), i * E::blen() + E::blen()))) }
pub proof fn lemma_slots_decode<E: Element>(b: Seq<u8>, d: Seq<u8>, m: nat)
    requires m * E::blen() <= b.len(), d == b.subrange(0, (m * E::blen()) as int)
    ensures decode::<E>(d) == slots::<E>(b, m), d.len() % E::blen() == 0, d.len() as int / E::blen() as int == m
{ lemma_slots_part::<E>(b, d, 0, m as int, m); }
/// bytes of whole elements are those elements
pub proof fn lemma_slots_part<E: Element>(b: Seq<u8>, d: Seq<u8>, lo: int, hi: int, m: nat)
    requires 0 <= lo <= hi <= m, m * E::blen() <= b.len(), d == b.subrange(lo * E::blen(), hi * E::blen())
    ensures decode::<E>(d) == slots::<E>(b, m).subrange(lo, hi), d.len() == (hi - lo) * E::blen(), d.len() as int % E::blen() as int == 0, d.len() as int / E::blen() as int == hi - lo
{
    E::el_ax();
    let l = E::blen() as int;
    let n = hi - lo;
    assert(hi * l <= m * l && lo * l >= 0 && lo * l <= hi * l) by(nonlinear_arith) requires 0 <= lo <= hi <= m, l > 0;
    assert(hi * l - lo * l == n * l) by(nonlinear_arith) requires n == hi - lo;
    lemma_div_by_multiple(n, l); lemma_mod_multiples_basic(n, l);
    assert forall|i: int| 0 <= i < n implies #[trigger] decode::<E>(d)[i] == slots::<E>(b, m).subrange(lo, hi)[i] by {
        assert(0 <= i * l && i * l + l <= n * l) by(nonlinear_arith) requires 0 <= i < n, l > 0;
        assert((lo + i) * l == lo * l + i * l) by(nonlinear_arith);
        assert(d.subrange(i * l, i * l + l) =~= b.subrange((lo + i) * l, (lo + i) * l + l));
    }
    assert(decode::<E>(d) =~= slots::<E>(b, m).subrange(lo, hi));
}
/// writing whole elements into the bytes
pub proof fn lemma_splice_slots<E: Element>(b: Seq<u8>, d: Seq<u8>, at: int, n: nat, m: nat)
    requires 0 <= at, d.len() % E::blen() == 0, at * E::blen() + d.len() <= b.len(), n * E::blen() <= b.len(),
        m == (if n >= at + d.len() as int / E::blen() as int { n as int } else { at + d.len() as int / E::blen() as int }),
    ensures upd(slots::<E>(b, n), slots::<E>(splice(b, at * E::blen(), d), m), at, decode::<E>(d)), splice(b, at * E::blen(), d).len() == b.len(), m * E::blen() <= b.len(),
{
    E::el_ax();
    let l = E::blen() as int;
    let f = splice(b, at * l, d);
    let c = d.len() as int / l;
    lemma_fundamental_div_mod(d.len() as int, l);
    assert(d.len() == c * l) by(nonlinear_arith) requires d.len() == l * c;
    assert((at + c) * l == at * l + c * l) by(nonlinear_arith);
    assert(at * l >= 0) by(nonlinear_arith) requires at >= 0, l > 0;
    assert(f.len() == b.len());
    assert forall|i: int| 0 <= i < c implies #[trigger] decode::<E>(d)[i] == slots::<E>(f, m)[at + i] by {
        assert(0 <= i * l && i * l + l <= c * l) by(nonlinear_arith) requires 0 <= i < c, l > 0;
        assert((at + i) * l == at * l + i * l) by(nonlinear_arith);
        assert(f.subrange((at + i) * l, (at + i) * l + l) =~= d.subrange(i * l, i * l + l));
    }
    assert forall|i: int| 0 <= i < n && !(at <= i < at + c) implies #[trigger] slots::<E>(f, m)[i] == slots::<E>(b, n)[i] by {
        assert(0 <= i * l && i * l + l <= n * l) by(nonlinear_arith) requires 0 <= i < n, l > 0;
        if i < at { assert(i * l + l <= at * l) by(nonlinear_arith) requires i < at, l > 0; }
        else { assert(i * l >= (at + c) * l) by(nonlinear_arith) requires i >= at + c, l > 0; }
        assert(f.subrange(i * l, i * l + l) =~= b.subrange(i * l, i * l + l));
    }
}
/// where chunk c of a row goes in the mapping of the row above
pub proof fn lemma_part<E: Element>(ws: int, wd: int, b: int, cs: int, q: int, c: int, l: int)
    requires wd >= 1, cs > 0, b >= 2, cs % b == 0, 0 <= c < dceil(wd, cs), q == cs / b, l > 0
    ensures c < dceil(wd * l, q * l), c * (q * l) < wd * l, c * (q * l) + (csize(wd, cs, c) / b) * l <= wd * l, (csize(wd, cs, c) / b) * l <= q * l, c * (q * l) == (c * q) * l,
{
    lemma_chunk_arith(wd, cs, b, c);
    let z = csize(wd, cs, c);
    lemma_dceil(wd, cs, c);
    assert(c * q <= c * cs) by(nonlinear_arith) requires cs == q * b, b >= 2, c >= 0, q >= 1;
    assert(c * q < wd);
    assert(c * (q * l) == (c * q) * l) by(nonlinear_arith);
    assert((c * q) * l < wd * l) by(nonlinear_arith) requires c * q < wd, l > 0;
    assert(z / b <= z) by(nonlinear_arith) requires z >= 0, b >= 2;
    assert(c * q + z / b <= wd);
    assert((c * q) * l + (z / b) * l <= wd * l) by(nonlinear_arith) requires c * q + z / b <= wd, l > 0;
    assert((z / b) * l <= q * l) by(nonlinear_arith) requires z / b <= q, l > 0;
    let (x, y) = (wd * l, q * l);
    assert(y > 0) by(nonlinear_arith) requires y == q * l, q >= 1, l > 0;
    lemma_fundamental_div_mod(x, y); lemma_mod_bound(x, y);
    assert(c < dceil(x, y)) by(nonlinear_arith) requires c * y < x, x == y * (x / y) + x % y, 0 <= x % y < y, dceil(x, y) == (if x % y == 0 { x / y } else { x / y + 1 }), y > 0;
}
} // verus!
