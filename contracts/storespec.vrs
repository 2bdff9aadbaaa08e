verus! {
pub spec const MAXB: int = 0x4000_0000_0000_0000;
//% item src/store/mod.rs const SMALL_TREE_BUILD
//% item src/store/mod.rs const BUILD_CHUNK_NODES
/// bytes as elements
pub open spec fn decode<E: Element>(b: Seq<u8>) -> Seq<E> {
    Seq::new(b.len() / E::blen(), |i: int| E::of(b.subrange(i * E::blen(), i * E::blen() + E::blen())))
}
/// new is old with els written from position at on: nothing else changes, the store grows as needed
pub open spec fn upd<E>(o: Seq<E>, f: Seq<E>, at: int, els: Seq<E>) -> bool {
    &&& f.len() == (if o.len() >= at + els.len() { o.len() as int } else { at + els.len() })
    &&& forall|i: int| 0 <= i < els.len() ==> #[trigger] els[i] == f[at + i]
    &&& forall|i: int| 0 <= i < o.len() && !(at <= i < at + els.len()) ==> #[trigger] f[i] == o[i]
}
pub proof fn lemma_upd_els<E>(o: Seq<E>, f: Seq<E>, at: int, els: Seq<E>, i: int)
    requires upd(o, f, at, els), at <= i < at + els.len()
    ensures f[i] == els[i - at]
{ assert(els[i - at] == f[at + (i - at)]); }
pub proof fn lemma_upd_push<E>(o: Seq<E>, e: E)
    ensures forall|f: Seq<E>| #[trigger] upd(o, f, o.len() as int, seq![e]) ==> f == o.push(e)
{
    assert forall|f: Seq<E>| #[trigger] upd(o, f, o.len() as int, seq![e]) implies f == o.push(e) by { lemma_upd_els(o, f, o.len() as int, seq![e], o.len() as int); assert(f =~= o.push(e)); }
}
/// n elements fit into the base row of a tree of that size
pub open spec fn base_fits(b: nat, size: nat, n: int) -> bool { exists|k: nat| #[trigger] tlen(b, k) == size && n <= bpow(b, k) }
/// one more element appended to whole elements
pub proof fn lemma_decode_push<E: Element>(b: Seq<u8>, e: E, m: int)
    requires b.len() == m * E::blen(), m >= 0
    ensures decode::<E>(b + e.bytes()) == decode::<E>(b).push(e), (b + e.bytes()).len() == (m + 1) * E::blen(), decode::<E>(b).len() == m
{
    E::el_ax();
    let l = E::blen() as int;
    let f = b + e.bytes();
    assert((m + 1) * l == m * l + l) by(nonlinear_arith);
    lemma_div_by_multiple(m, l); lemma_div_by_multiple(m + 1, l);
    assert(decode::<E>(b).len() == m && decode::<E>(f).len() == m + 1);
    assert forall|i: int| 0 <= i < m + 1 implies decode::<E>(f)[i] == #[trigger] decode::<E>(b).push(e)[i] by {
        assert(i * l + l <= (m + 1) * l && i * l >= 0) by(nonlinear_arith) requires 0 <= i < m + 1, l > 0;
        if i < m {
            assert(i * l + l <= m * l) by(nonlinear_arith) requires 0 <= i < m, l > 0;
            assert(f.subrange(i * l, i * l + l) =~= b.subrange(i * l, i * l + l));
        } else {
            assert(f.subrange(i * l, i * l + l) =~= e.bytes());
        }
    }
    assert(decode::<E>(f) =~= decode::<E>(b).push(e));
}
// ---- one row, made in chunks ------------------------------------------------
pub open spec fn csize(width: int, cs: int, c: int) -> int { if width - c * cs < cs { width - c * cs } else { cs } }
/// chunk c of the row read at rs is hashed into its place at ws
pub open spec fn chunk_done<E: Node, A: Algorithm<E>>(v0: Seq<E>, v: Seq<E>, rs: int, ws: int, width: int, cs: int, b: int, level: nat, c: int) -> bool {
    &&& csize(width, cs, c) % b == 0
    &&& v.len() >= ws + c * (cs / b) + csize(width, cs, c) / b
    &&& forall|i: int| 0 <= i < csize(width, cs, c) / b ==> #[trigger] v[ws + c * (cs / b) + i] == A::nh(v0.subrange(rs + c * cs + i * b, rs + c * cs + i * b + b), level)
}
pub proof fn lemma_chunk_arith(width: int, cs: int, b: int, c: int)
    requires width >= 0, cs > 0, b > 0, cs % b == 0, 0 <= c < dceil(width, cs)
    ensures 0 <= c * cs < width, 0 < csize(width, cs, c) <= cs, c * cs + csize(width, cs, c) <= width, (c * cs) / b == c * (cs / b), c * (cs / b) >= 0,
        c * (cs / b) + csize(width, cs, c) / b <= width / b, csize(width, cs, c) / b <= cs / b, cs / b >= 1, cs == (cs / b) * b, width % b == 0 ==> csize(width, cs, c) % b == 0, dceil(csize(width, cs, c), b) <= csize(width, cs, c),
        c == dceil(width, cs) - 1 ==> c * cs + csize(width, cs, c) == width && (csize(width, cs, c) % b == 0 ==> c * (cs / b) + csize(width, cs, c) / b == width / b && width % b == 0),
{
    lemma_dceil(width, cs, c);
    let q = cs / b;
    let z = csize(width, cs, c);
    lemma_fundamental_div_mod(cs, b);
    assert(cs == q * b) by(nonlinear_arith) requires cs == b * (cs / b) + cs % b, cs % b == 0, q == cs / b;
    assert(q >= 1) by(nonlinear_arith) requires cs == q * b, cs > 0, b > 0;
    assert(c * cs == (c * q) * b) by(nonlinear_arith) requires cs == q * b;
    assert(c * cs >= 0 && c * q >= 0) by(nonlinear_arith) requires c >= 0, cs > 0, q >= 1;
    lemma_div_by_multiple(c * q, b);
    lemma_div_is_ordered(z, cs, b);
    lemma_div_is_ordered((c * q) * b + z, width, b);
    lemma_hoist_over_denominator(z, c * q, b as nat);
    assert(((c * q) * b + z) / b == c * q + z / b);
    if width % b == 0 && z != cs {
        lemma_mod_multiples_vanish(-(c * q), width, b);
        assert(b * (-(c * q)) + width == z) by(nonlinear_arith) requires z == width - (c * q) * b;
    }
    assert(dceil(z, b) <= z) by(nonlinear_arith) requires dceil(z, b) == (if z % b == 0 { z / b } else { z / b + 1 }), z >= 1, b > 0;
    if c == dceil(width, cs) - 1 {
        assert(width - c * cs <= cs) by(nonlinear_arith) requires c == (if width % cs == 0 { width / cs } else { width / cs + 1 }) - 1, cs > 0, width >= 0;
        assert(c * cs + z == width);
        if z % b == 0 {
            lemma_mod_multiples_vanish(c * q, z, b);
            assert((b * (c * q) + z) % b == z % b);
            assert(b * (c * q) == (c * q) * b) by(nonlinear_arith);
        }
    }
}
/// a chunk that is done stays done when another one is written
pub proof fn lemma_chunk_frame<E: Node, A: Algorithm<E>>(v0: Seq<E>, v: Seq<E>, w: Seq<E>, rs: int, ws: int, width: int, cs: int, b: int, level: nat, c: int, d: int, els: Seq<E>)
    requires width >= 0, cs > 0, b > 0, cs % b == 0, 0 <= c < dceil(width, cs), 0 <= d < dceil(width, cs), c != d, ws >= 0,
        chunk_done::<E, A>(v0, v, rs, ws, width, cs, b, level, c), upd(v, w, ws + d * (cs / b), els), els.len() <= cs / b,
    ensures chunk_done::<E, A>(v0, w, rs, ws, width, cs, b, level, c)
{
    lemma_chunk_arith(width, cs, b, c); lemma_chunk_arith(width, cs, b, d);
    let q = cs / b;
    assert forall|i: int| 0 <= i < csize(width, cs, c) / b implies #[trigger] w[ws + c * q + i] == A::nh(v0.subrange(rs + c * cs + i * b, rs + c * cs + i * b + b), level) by {
        assert(v[ws + c * q + i] == A::nh(v0.subrange(rs + c * cs + i * b, rs + c * cs + i * b + b), level));
        if c < d { assert(c * q + i < d * q) by(nonlinear_arith) requires c < d, 0 <= i < q; }
        else { assert(c * q + i >= d * q + q) by(nonlinear_arith) requires d < c, 0 <= i, q >= 1; }
        assert(w[ws + c * q + i] == v[ws + c * q + i]);
    }
}
/// all chunks done: the row is done
pub proof fn lemma_chunks_all<E: Node, A: Algorithm<E>>(v0: Seq<E>, v: Seq<E>, rs: int, ws: int, width: int, cs: int, b: int, level: nat)
    requires width >= 1, cs > 0, b > 0, cs % b == 0, ws >= 0, v.len() <= ws + width / b,
        forall|c: int| 0 <= c < dceil(width, cs) ==> #[trigger] chunk_done::<E, A>(v0, v, rs, ws, width, cs, b, level, c),
    ensures width % b == 0, v.len() == ws + width / b,
        forall|i: int| 0 <= i < width / b ==> #[trigger] v[ws + i] == A::nh(v0.subrange(rs + i * b, rs + i * b + b), level),
{
    let n = dceil(width, cs);
    assert(n >= 1) by(nonlinear_arith) requires n == (if width % cs == 0 { width / cs } else { width / cs + 1 }), width >= 1, cs > 0;
    lemma_chunk_arith(width, cs, b, n - 1);
    assert(chunk_done::<E, A>(v0, v, rs, ws, width, cs, b, level, n - 1));
    let q = cs / b;
    assert forall|i: int| 0 <= i < width / b implies #[trigger] v[ws + i] == A::nh(v0.subrange(rs + i * b, rs + i * b + b), level) by {
        let c = i / q;
        let k = i % q;
        lemma_fundamental_div_mod(i, q);
        lemma_mod_bound(i, q);
        assert(i == c * q + k) by(nonlinear_arith) requires i == q * (i / q) + i % q, c == i / q, k == i % q;
        assert(c >= 0) by(nonlinear_arith) requires c == i / q, i >= 0, q >= 1;
        // i*b < width, so c < n
        assert(i * b < width) by(nonlinear_arith) requires i < width / b, b > 0;
        assert(c * cs <= i * b) by(nonlinear_arith) requires i == c * q + k, k >= 0, cs == q * b, b > 0;
        assert(c < n) by(nonlinear_arith) requires c * cs < width, n == (if width % cs == 0 { width / cs } else { width / cs + 1 }), cs > 0, width >= 1;
        lemma_chunk_arith(width, cs, b, c);
        assert(chunk_done::<E, A>(v0, v, rs, ws, width, cs, b, level, c));
        let z = csize(width, cs, c);
        if z == cs { assert(k < z / b); }
        else {
            assert(c * cs + z == width);
            assert(z == (z / b) * b) by { lemma_fundamental_div_mod(z, b); assert(b * (z / b) == (z / b) * b) by(nonlinear_arith); }
            assert(k < z / b) by(nonlinear_arith) requires i * b < width, i == c * q + k, c * cs + z == width, cs == q * b, z == (z / b) * b, b > 0;
        }
        assert(v[ws + c * q + k] == A::nh(v0.subrange(rs + c * cs + k * b, rs + c * cs + k * b + b), level));
        assert(c * cs + k * b == i * b) by(nonlinear_arith) requires i == c * q + k, cs == q * b;
    }
}
/// f is o with the next row, hashed from the row at rs, appended
pub open spec fn row_added<E: Node, A: Algorithm<E>>(o: Seq<E>, f: Seq<E>, rs: int, ws: int, width: int, b: int, level: nat) -> bool {
    &&& width % b == 0
    &&& f.len() == ws + width / b
    &&& forall|i: int| 0 <= i < o.len() ==> #[trigger] f[i] == o[i]
    &&& forall|i: int| 0 <= i < width / b ==> #[trigger] f[ws + i] == A::nh(o.subrange(rs + i * b, rs + i * b + b), level)
}
pub proof fn lemma_chunk_exact(s: Seq<u8>, i: int, l: int)
    requires l > 0, 0 <= i < s.len() as int / l
    ensures i < dceil(s.len() as int, l), chunk_of(s, i, l) == s.subrange(i * l, i * l + l), i * l >= 0, i * l + l <= s.len(), chunk_of(s, i, l).len() == l
{
    lemma_fundamental_div_mod(s.len() as int, l);
    lemma_mod_bound(s.len() as int, l);
    assert(i * l + l <= l * (s.len() as int / l)) by(nonlinear_arith) requires i + 1 <= s.len() as int / l, l > 0;
    assert(i * l >= 0) by(nonlinear_arith) requires i >= 0, l > 0;
    assert((i + 1) * l == i * l + l) by(nonlinear_arith);
}
} // verus!
