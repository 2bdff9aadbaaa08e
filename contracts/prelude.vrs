#![allow(unused_imports, dead_code, unused_variables, unused_mut, non_snake_case, unused_parens, unused_braces, unused_assignments, unused_must_use)]
use vstd::prelude::*;
use vstd::arithmetic::power2::*;
use vstd::arithmetic::div_mod::*;
use vstd::arithmetic::mul::*;
use vstd::bits::*;
use vstd::slice::*;
use vstd::std_specs::cmp::*;
use core::marker::PhantomData;
verus! {
global size_of usize == 8;

// ---- errors -------------------------------------------------------------
#[derive(Debug)]
pub struct Error;
pub type Result<T> = core::result::Result<T, Error>;
pub fn vx_error() -> (r: Error) { Error }
pub fn vx_ok<T>(t: T) -> (r: Result<T>) ensures r == Ok::<T, Error>(t) { Ok(t) }
pub trait VxContext<T>: Sized {
    spec fn vx_opt(self) -> Option<T>;
    fn vx_context(self) -> (r: Result<T>)
        ensures self.vx_opt() is Some ==> r == Ok::<T, Error>(self.vx_opt()->0), self.vx_opt() is None ==> r is Err;
}
impl<T> VxContext<T> for Option<T> {
    open spec fn vx_opt(self) -> Option<T> { self }
    fn vx_context(self) -> (r: Result<T>) { match self { Some(x) => { assert(self.vx_opt() == Some(x)); Ok(x) }, None => { assert(self.vx_opt() is None); Err(Error) } } }
}
impl<T> VxContext<T> for Result<T> {
    open spec fn vx_opt(self) -> Option<T> { match self { Ok(x) => Some(x), Err(_) => None } }
    fn vx_context(self) -> (r: Result<T>) { match self { Ok(x) => { assert(self.vx_opt() == Some(x)); Ok(x) }, Err(_) => { assert(self.vx_opt() is None); Err(Error) } } }
}
pub fn vx_assert(c: bool) requires c { }
#[verifier::external_body]
pub fn vx_panic() -> ! requires false { unimplemented!() }

// ---- small integer helpers (the std functions they stand for are trivial) --
pub fn vx_min(a: usize, b: usize) -> (r: usize) ensures r == if a <= b { a } else { b } { if a <= b { a } else { b } }
pub fn vx_max(a: usize, b: usize) -> (r: usize) ensures r == if a >= b { a } else { b } { if a >= b { a } else { b } }
pub fn vx_saturating_sub(a: usize, b: usize) -> (r: usize) ensures r == if a >= b { a - b } else { 0 } { if a >= b { a - b } else { 0 } }
pub fn vx_step(i: usize, s: usize, n: usize) -> (r: usize)
    requires i < n, s > 0
    ensures r == if n - i > s { i + s } else { n as int }
{ if n - i > s { i + s } else { n } }
pub open spec fn dceil(a: int, b: int) -> int { if a % b == 0 { a / b } else { a / b + 1 } }
pub proof fn lemma_dceil(a: int, b: int, i: int)
    requires 0 <= i < dceil(a, b), b > 0, a >= 0
    ensures i * b < a
{
    lemma_fundamental_div_mod(a, b);
    lemma_mod_bound(a, b);
    let q = a / b;
    let m = a % b;
    if m == 0 { assert(i * b < a) by(nonlinear_arith) requires i < q, a == b * q, b > 0; }
    else { assert(i * b < a) by(nonlinear_arith) requires i <= q, a == b * q + m, m > 0, b > 0; }
}
pub fn vx_div_ceil(a: usize, b: usize) -> (r: usize)
    requires b > 0
    ensures r == dceil(a as int, b as int)
{ if a % b == 0 { a / b } else { assert(b > 1); assert(a as int / b as int <= a) by(nonlinear_arith) requires a >= 0, b > 1; proof { lemma_div_decreases_or_zero(a as int, b as int); } a / b + 1 } }
proof fn lemma_div_decreases_or_zero(a: int, b: int)
    requires a >= 0, b > 1
    ensures a / b <= a, a > 0 ==> a / b < a
{ if a > 0 { lemma_div_decreases(a, b); } }
/// the j-th item of (a..e).step_by(c)
pub fn vx_nth(a: usize, j: usize, c: usize, e: usize) -> (r: usize)
    requires a < e, c > 0, j < dceil(e - a, c as int)
    ensures r == a + (j as int) * (c as int), r < e
{ proof { lemma_dceil(e - a, c as int, j as int); assert((j as int) * (c as int) >= 0) by(nonlinear_arith) requires j >= 0, c >= 0; } a + j * c }
pub open spec fn perm_has(p: Seq<usize>, c: int) -> bool { exists|j: int| 0 <= j < p.len() && #[trigger] p[j] == c }
/// an arbitrary order in which n parallel work items take their turns
pub open spec fn is_perm(p: Seq<usize>, n: int) -> bool {
    &&& p.len() == n
    &&& forall|j: int| 0 <= j < n ==> 0 <= #[trigger] p[j] < n
    &&& forall|j: int, k: int| 0 <= j < n && 0 <= k < n && j != k ==> p[j] != p[k]
    &&& forall|c: int| #![trigger perm_has(p, c)] 0 <= c < n ==> perm_has(p, c)
}
pub fn vx_perm(n: usize) -> (r: Vec<usize>)
    ensures is_perm(r@, n as int)
{
    let mut v = Vec::new();
    let mut i: usize = 0;
    while i < n
        invariant i <= n, v@.len() == i, forall|j: int| 0 <= j < i ==> #[trigger] v@[j] == j
        decreases n - i
    { v.push(i); i = i + 1; }
    proof { assert forall|c: int| 0 <= c < n implies #[trigger] perm_has(v@, c) by { assert(v@[c] == c); } }
    v
}
/// the i-th chunk of at most c elements
pub open spec fn chunk_of<T>(s: Seq<T>, i: int, c: int) -> Seq<T> {
    s.subrange(i * c, if (i + 1) * c <= s.len() { (i + 1) * c } else { s.len() as int })
}
pub fn vx_chunk<T>(s: &[T], i: usize, c: usize) -> (r: &[T])
    requires c > 0, i < dceil(s@.len() as int, c as int)
    ensures r@ == chunk_of(s@, i as int, c as int)
{
    proof { lemma_dceil(s@.len() as int, c as int, i as int); assert((i as int) * (c as int) >= 0) by(nonlinear_arith) requires i >= 0, c >= 0; }
    proof { lemma_mul_is_distributive_add_other_way(c as int, i as int, 1); }
    let n = s.len();
    let a = i * c;
    let b = if s.len() - a >= c { a + c } else { s.len() };
    slice_subrange(s, a, b)
}
// ---- std bit operations: contracts of std functions (assumed) --
#[verifier::external_body]
pub fn vx_trailing_zeros(n: usize) -> (r: u32)
    ensures r <= 64, n != 0 ==> r < 64, forall|k: nat| n as nat == #[trigger] pow2(k) ==> r as nat == k,
{ n.trailing_zeros() }
#[verifier::external_body]
pub fn vx_next_power_of_two(n: usize) -> (r: usize)
    requires n <= 0x8000_0000_0000_0000
    ensures r >= 1, r >= n, is_p2(r as nat), is_p2(n as nat) ==> r == n
{ n.next_power_of_two() }

// ---- powers of two ------------------------------------------------------
pub open spec fn is_p2(n: nat) -> bool { exists|k: nat| n == #[trigger] pow2(k) }
pub proof fn lemma_pow2_bound(k: nat)
    requires pow2(k) <= 0xffff_ffff_ffff_ffff
    ensures k < 64
{
    if k >= 64 { lemma2_to64_rest(); if k > 64 { lemma_pow2_strictly_increases(64, k); } }
}
pub proof fn lemma_shr(x: usize, s: usize)
    requires s < 64
    ensures (x >> s) as nat == x as nat / pow2(s as nat), pow2(s as nat) > 0
{
    lemma_usize_shr_is_div(x, s);
    lemma_pow2_pos(s as nat);
}
} // verus!
