//% fn src/merkle.rs next_pow2
//% spec
    requires n <= 0x8000_0000_0000_0000
    ensures r >= 1, r >= n, is_p2(r as nat), is_p2(n as nat) ==> r == n
//% end
//% fn src/merkle.rs log2_pow2
//% spec
    ensures r <= 64, n != 0 ==> r < 64, forall|k: nat| n as nat == #[trigger] pow2(k) ==> r as nat == k
//% end
//% fn src/merkle.rs get_merkle_tree_row_count
//% spec
    requires leafs * branches <= 0x8000_0000_0000_0000
    ensures forall|k: nat| #[trigger] bpow(branches as nat, k) == leafs && good_arity(branches as nat) ==> r as nat == k + 1,
        good_arity(branches as nat) && is_p2(leafs as nat) ==> r >= 1 && bpow(branches as nat, (r - 1) as nat) <= leafs < bpow(branches as nat, r as nat)
//% hint start
    proof {
        let b = branches as nat;
        lemma2_to64();
        if b == 2 { lemma_row_count2(leafs as nat); assert(leafs * branches == 2 * leafs) by(nonlinear_arith) requires branches == 2; }
        assert(leafs >= 1 ==> leafs * branches >= branches) by(nonlinear_arith);
        assert(bpow(b, 0) == 1);
        if is_p2(leafs as nat) { let k = choose|k: nat| leafs as nat == #[trigger] pow2(k); lemma_pow2_pos(k); }
        assert forall|k: nat| #[trigger] bpow(b, k) == leafs && good_arity(b) implies leafs >= 1 by { lemma_bpow_pos(b, k); }
    }
//% loop 0
    invariant
        row_count + row_len <= leafs, branches != 2, leafs >= 1 ==> row_count >= 1 || row_len >= 1,
        branches >= 2 ==> row_len * bpow(branches as nat, row_count as nat) <= leafs < (row_len + 1) * bpow(branches as nat, row_count as nat),
        branches >= 2 && row_count >= 1 ==> bpow(branches as nat, (row_count - 1) as nat) <= leafs,
    decreases row_len
//% hint loop 0 start
    proof { if branches >= 2 { lemma_rowc_step(branches as nat, row_count as nat, row_len as nat, leafs as nat); } }
//% hint loop 0 after
    proof {
        let b = branches as nat;
        if good_arity(b) {
            lemma_bpow_pos(b, row_count as nat);
            assert((row_len + 1) * bpow(b, row_count as nat) == bpow(b, row_count as nat)) by(nonlinear_arith) requires row_len == 0;
            assert(leafs < bpow(b, row_count as nat));
            assert forall|k: nat| #[trigger] bpow(b, k) == leafs implies row_count as nat == k + 1 by {
                lemma_bpow_pos(b, k);
                assert(row_count >= 1);
                if k + 1 < row_count { lemma_bpow_mono(b, k, (row_count - 1) as nat); }
                if k > row_count { lemma_bpow_mono(b, row_count as nat, k); }
            }
        }
    }
//% end
//% fn src/merkle.rs get_merkle_tree_len
//% spec
    requires leafs <= 0x4000_0000_0000_0000, branches <= 0x4000_0000_0000_0000
    ensures
        !is_p2(branches as nat) ==> r is Err,
        leafs < branches ==> r is Err,
        branches == 2 && !is_p2(leafs as nat) ==> r is Err,
        forall|k: nat| #![trigger bpow(branches as nat, k)] k >= 1 && shape(branches as nat, leafs as nat, k) ==> r == Ok::<usize, Error>(tlen(branches as nat, k) as usize) && tlen(branches as nat, k) < 0x8000_0000_0000_0000,
        r is Ok && branches >= 2 ==> rows_fit(leafs as nat, branches as nat, r->Ok_0 as int),
        forall|k: nat| #![trigger tlen(branches as nat, k)] branches >= 2 && r == Ok::<usize, Error>(tlen(branches as nat, k) as usize) && tlen(branches as nat, k) < 0x8000_0000_0000_0000 ==> leafs == bpow(branches as nat, k),
        r is Ok ==> r->Ok_0 < 0x8000_0000_0000_0000 && (branches >= 2 ==> leafs < r->Ok_0 <= 2 * leafs) && r->Ok_0 >= leafs,
//% hint start
    let ghost b = branches as nat;
    let ghost n = leafs as nat;
    let ghost k0 = height(b, n);
    proof {
        assert forall|k: nat| #![trigger bpow(b, k)] shape(b, n, k) implies k == k0 && tlen(b, k) <= 2 * n - 1 && is_p2(n) && (k >= 1 ==> n >= b) by {
            lemma_bpow_inj(b, k, k0); lemma_tlen_bound(b, k); lemma_shape_p2(b, n, k);
            if k >= 1 { lemma_bpow_mono(b, 0, k); assert(bpow(b, 0) == 1); assert(b * bpow(b, 0) == b) by(nonlinear_arith) requires bpow(b, 0) == 1; }
        }
        lemma2_to64();
        if b == 2 && has_shape(b, n) { lemma_tlen_bound(2, k0); }
        if b == 2 && is_p2(n) { let s = choose|s: nat| n == #[trigger] pow2(s); lemma_bpow_p2(1, s); assert(2 == pow2(1)); assert(1 * s == s); lemma_tlen_bound(2, s); lemma_rows_fit_shape(n, 2, s); assert(tlen(2, s) == 2 * n - 1); lemma_off_total(n, 2, s); assert(wid(n, 2, s + 1) == 1nat / 2); lemma_len_inj(n, 2, s + 1); }
        lemma_p2_misc();
        if is_p2(b) && b != 1 && b != 2 { lemma_arity4(b); }
    }
//% loop 0
    invariant
        b == branches, n == leafs, b != 2, is_p2(b), b >= 4,
        shift < 64, b == pow2(shift as nat), 1 <= shift,
        cur <= leafs, leafs <= 0x4000_0000_0000_0000, 3 * (len as int) + cur as int <= 4 * n as int,
        cur == wid(n, b, j), len == off(n, b, j + 1), n >= b, j >= 1 ==> len > n, j == 0 ==> cur == n,
        has_shape(b, n) ==> k0 == height(b, n) && n == bpow(b, k0) && tlen(b, k0) <= 2 * n - 1 && j <= k0 + 1
            && cur == (if j <= k0 { bpow(b, (k0 - j) as nat) } else { 0 }) && len + (if j <= k0 { (tlen(b, (k0 - j) as nat) - cur) as nat } else { 0 }) == tlen(b, k0),
    decreases cur
//% hint loop 0 before
    let ghost mut j: nat = 0;
    proof {
        assert(off(n, b, 1) == off(n, b, 0) + wid(n, b, 0));
        lemma_p2_misc(); lemma2_to64();
        assert(b != 1) by { if b == 1 { assert(b == pow2(0)); } }
        lemma_arity4(b);
        let s = lemma_arity(b);
    }
//% hint loop 0 start
    let ghost cur0 = cur;
    proof {
        lemma_shr(cur, shift);
        assert(cur as nat / b <= cur as nat / 4 ) by(nonlinear_arith) requires b >= 4;
        assert((cur >> shift) <= cur / 4);
        if has_shape(b, n) {
            if j < k0 { lemma_bpow_div(b, (k0 - j) as nat); lemma_bpow_pos(b, (k0 - j - 1) as nat); lemma_tlen_pos(b, (k0 - j - 1) as nat); }
            else { assert(1nat / b == 0) by(nonlinear_arith) requires b >= 4; }
        }
    }
//% hint loop 0 end
    proof { if j == 0 { assert(n / b >= 1) by(nonlinear_arith) requires n >= b, b >= 4; } j = j + 1; assert(off(n, b, j + 1) == off(n, b, j) + wid(n, b, j)); }
//% hint loop 0 after
    proof { if has_shape(b, n) && j <= k0 { lemma_bpow_pos(b, (k0 - j) as nat); } lemma_rows_fit(n, b, j); assert(off(n, b, j + 1) == off(n, b, j) + wid(n, b, j)); lemma_len_inj(n, b, j); }
//% end
//% fn src/merkle.rs get_merkle_tree_cache_size
//% spec
    requires leafs <= 0x4000_0000_0000_0000, 2 <= branches <= 0x4000_0000_0000_0000, leafs * branches <= 0x8000_0000_0000_0000,
        exists|k: nat| #[trigger] bpow(branches as nat, k) == leafs && good_arity(branches as nat),
    ensures
        forall|k: nat| #![trigger bpow(branches as nat, k)] shape(branches as nat, leafs as nat, k) ==>
            (if rows_to_discard < k { r == Ok::<usize, Error>(tlen(branches as nat, (k - 1 - rows_to_discard) as nat) as usize) } else { r is Err }),
//% hint start
    let ghost b = branches as nat;
    let ghost n = leafs as nat;
    let ghost k0 = height(b, n);
    let ghost d = rows_to_discard as nat;
    proof {
        assert forall|k: nat| #![trigger bpow(b, k)] shape(b, n, k) implies k == k0 by { lemma_bpow_inj(b, k, k0); }
        let s = lemma_arity(b);
        if k0 == 0 { assert(bpow(b, 0) == 1); }
    }
//% loop 0
    invariant
        b == branches, n == leafs, shape(b, n, k0), shift < 64, b == pow2(shift as nat), b >= 2,
        d == rows_to_discard, d < k0, cache_base == k0 - d,
        cache_base - 1 <= row_count <= k0 + 1, row_count >= cache_base,
        row_count >= 1,
        cur_leafs == bpow(b, (row_count - 1) as nat),
        row_count >= 1 ==> cache_size == tlen(b, (row_count - 1) as nat),
    decreases row_count
//% hint loop 0 start
    proof {
        lemma_shr(cur_leafs, shift);
        lemma_bpow_div(b, (row_count - 1) as nat);
        lemma_tlen_pos(b, (row_count - 1) as nat);
        lemma_tlen_pos(b, (row_count - 2) as nat);
    }
//% end
//% fn src/merkle.rs is_merkle_tree_size_valid
//% spec
    requires leafs <= 0x4000_0000_0000_0000, branches <= 0x4000_0000_0000_0000, branches != 1
    ensures r == has_shape(branches as nat, leafs as nat)
//% hint start
    let ghost b = branches as nat;
    let ghost n = leafs as nat;
    proof {
        lemma2_to64();
        if has_shape(b, n) { lemma_shape_p2(b, n, height(b, n)); }
        assert(!is_p2(0)) by { assert forall|k: nat| 0 != #[trigger] pow2(k) by { lemma_pow2_pos(k); } }
    }
//% loop 0
    invariant
        b == branches, n == leafs, good_arity(b), shift < 64, 1 <= shift, b == pow2(shift as nat), b >= 2,
        cur >= 1, cur <= leafs, is_p2(cur as nat), has_shape(b, n) <==> has_shape(b, cur as nat),
    decreases cur
//% hint loop 0 before
    let ghost s0 = lemma_arity(b);
//% hint loop 0 start
    proof {
        lemma_shr(cur, shift);
        let c = cur as nat;
        let c2 = (cur >> shift) as nat;
        assert(c2 == c / b);
        assert(c2 < c) by { lemma_div_decreases(c as int, b as int); }
        if has_shape(b, c) {
            let k = height(b, c);
            if k == 0 { assert(bpow(b, 0) == 1); }
            lemma_bpow_div(b, k);
            assert(c2 == bpow(b, (k - 1) as nat));
            lemma_bpow_pos(b, (k - 1) as nat);
        }
        // powers of two: the division is exact or ends in zero
        let t = choose|t: nat| c == #[trigger] pow2(t);
        assert(is_p2(c));
        if t < shift { lemma_pow2_strictly_increases(t, shift as nat); assert(c2 == 0) by { lemma_basic_div(c as int, b as int); } }
        else {
            lemma_pow2_adds((t - shift) as nat, shift as nat);
            assert(c == pow2((t - shift) as nat) * b) by { assert((t - shift) as nat + shift as nat == t); }
            lemma_div_by_multiple(pow2((t - shift) as nat) as int, b as int);
            assert(c2 == pow2((t - shift) as nat));
            if has_shape(b, c2) {
                let k = height(b, c2);
                assert(bpow(b, k + 1) == b * bpow(b, k));
                assert(c == b * c2) by(nonlinear_arith) requires c == c2 * b;
                assert(c == bpow(b, k + 1));
            }
        }
    }
//% hint loop 0 after
    proof { assert(bpow(b, 0) == 1); }
//% end
//% fn src/merkle.rs get_merkle_proof_lemma_len
//% spec
    requires branches >= 1, row_count >= 1, (branches - 1) * (row_count - 1) + 2 <= usize::MAX
    ensures r == 2 + (branches - 1) * (row_count - 1)
//% end
//% fn src/merkle.rs get_merkle_tree_leafs
//% spec
    requires 1 <= len, branches != 1, len * branches <= 0x8000_0000_0000_0000, branches <= 0x4000_0000_0000_0000
    ensures
        match r {
            Ok(n) => exists|k: nat| tlen(branches as nat, k) == len && n == #[trigger] bpow(branches as nat, k) && good_arity(branches as nat),
            Err(_) => !good_arity(branches as nat) || forall|k: nat| #[trigger] tlen(branches as nat, k) != len,
        }
//% hint start
    let ghost b = branches as nat;
    proof {
        lemma2_to64();
        assert(!is_p2(0)) by { assert forall|k: nat| 0 != #[trigger] pow2(k) by { lemma_pow2_pos(k); } }
        assert forall|k: nat| #![trigger tlen(2, k)] tlen(2, k) == 2 * bpow(2, k) - 1 by { lemma_tlen_bound(2, k); }
        assert(branches == 2 ==> good_arity(b));
        assert(len >> 1 == len / 2) by(bit_vector);
        if branches >= 2 { assert(len < 0x8000_0000_0000_0000) by(nonlinear_arith) requires len * branches <= 0x8000_0000_0000_0000, branches >= 2, len >= 1; }
    }
//% loop 0
    invariant
        b == branches, b >= 4, good_arity(b), shift < 64, b == pow2(shift as nat),
        1 <= cur <= len, len * branches <= 0x8000_0000_0000_0000,
        leafs == bpow(b, j), len as int == cur + tlen(b, j) - 1, leafs <= len,
    decreases cur
//% hint loop 0 before
    let ghost mut j: nat = 0;
    proof { lemma_arity4(b); let s = lemma_arity(b); assert(bpow(b, 0) == 1); assert(tlen(b, 0) == 1); }
//% hint loop 0 start
    proof {
        assert((leafs as nat) * b <= len * branches) by(nonlinear_arith) requires (leafs as nat) <= len, b == branches;
        lemma_usize_shl_is_mul(leafs, shift);
        assert(bpow(b, j + 1) == b * bpow(b, j));
        lemma_mul_is_commutative(leafs as int, b as int);
        lemma_tlen_mono(b, j, j + 1);
    }
//% hint return#3
    proof {
        assert forall|k: nat| #[trigger] tlen(b, k) != len by {
            if k < j { lemma_tlen_mono(b, k, j); } else if k > j + 1 { lemma_tlen_mono(b, j + 1, k); }
        }
    }
//% hint loop 0 end
    proof { j = j + 1; lemma_bpow_pos(b, j); }
//% hint loop 0 after
    proof { lemma_shape_p2(b, leafs as nat, j); }
//% hint return#5
    proof {
        if good_arity(b) {
            assert forall|k: nat| #[trigger] tlen(b, k) != len by { if tlen(b, k) == len { assert(leafs == bpow(b, k)); lemma_shape_p2(b, leafs as nat, k); } }
        }
    }
//% hint ret
    proof {
        if b == 2 { let s = choose|s: nat| leafs as nat == #[trigger] pow2(s); lemma_bpow_p2(1, s); assert(tlen(2, s) == len); assert(bpow(b, s) == leafs); }
    }
//% end
//% fn src/merkle.rs get_merkle_tree_len_generic
//% spec
    requires leaves <= 0x4000_0000_0000_0000, BaseTreeArity::n() <= 0x4000_0000_0000_0000,
        2 * (SubTreeArity::n() + 1) * (TopTreeArity::n() + 1) * leaves <= 0x4000_0000_0000_0000, TopTreeArity::n() <= 0x1000_0000, SubTreeArity::n() <= 0x1000_0000,
        has_shape(BaseTreeArity::n(), leaves as nat)
    ensures
        forall|k: nat| #![trigger bpow(BaseTreeArity::n(), k)] k >= 1 && shape(BaseTreeArity::n(), leaves as nat, k) ==> r is Ok && r->Ok_0 == clen(tlen(BaseTreeArity::n(), k), SubTreeArity::n(), TopTreeArity::n())
//% hint let base_tree_len
    proof {
        let (s, w, t) = (SubTreeArity::n(), TopTreeArity::n(), base_tree_len as nat);
        let b = BaseTreeArity::n();
        let n = leaves as nat;
        let k0 = height(b, n);
        lemma_tlen_bound(b, k0);
        if k0 >= 1 {
        assert(t <= 2 * n);
        assert(s * t <= 2 * (s + 1) * (w + 1) * n) by(nonlinear_arith) requires t <= 2 * n, s >= 0, w >= 0, n >= 0;
        assert(s * w * t <= 2 * (s + 1) * (w + 1) * n) by(nonlinear_arith) requires t <= 2 * n, s >= 0, w >= 0, n >= 0, t >= 0;
        assert(s * w <= 0x100_0000_0000_0000) by(nonlinear_arith) requires s <= 0x1000_0000, w <= 0x1000_0000, s >= 0, w >= 0;
        assert forall|k: nat| #![trigger bpow(b, k)] shape(b, n, k) implies k == k0 by { lemma_bpow_inj(b, k, k0); }
        }
    }
//% end
