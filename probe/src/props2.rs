use crate::model::*;
use crate::props::{same_base, inputs, cmodel, compound};
use crate::trees::*;
use crate::{by_arity, ck, must, must_err, refused, run, Ctx};
use merkletree::hash::{Algorithm, Hashable};
use merkletree::merkle::*;
use merkletree::store::*;
use rayon::iter::plumbing::Producer;
use rayon::prelude::*;
use std::fs::File;
use std::hash::Hasher;
use typenum::*;

// ---------------------------------------------------------------- C05
pub fn c05(c: &mut Ctx) {
    for s in 1..=20usize {
        let b = 1usize << s;
        c.case(format!("C05 valid sizes arity={}", b), || {
            let mut cnt = 0;
            let mut k = 1;
            while s * k <= 62 {
                let n = 1usize << (s * k);
                let len = tree_len(n, b);
                ck!(must("len", || get_merkle_tree_len(n, b))? == len, "get_merkle_tree_len({},{}) != {}", n, b, len);
                ck!(get_merkle_tree_row_count(n, b) == k + 1, "get_merkle_tree_row_count({},{}) = {} != {}", n, b, get_merkle_tree_row_count(n, b), k + 1);
                ck!(must("leafs", || get_merkle_tree_leafs(len, b))? == n, "get_merkle_tree_leafs({},{}) != {}", len, b, n);
                ck!(is_merkle_tree_size_valid(n, b), "is_merkle_tree_size_valid({},{}) is false", n, b);
                ck!(get_merkle_proof_lemma_len(k + 1, b) == 2 + (b - 1) * k, "lemma length");
                for d in (0..k + 4).chain([usize::MAX / 2]) {
                    let r = run("cache size", || get_merkle_tree_cache_size(n, b, d))?;
                    if d < k {
                        let w = cache_len(n, b, d);
                        ck!(r == Some(w), "get_merkle_tree_cache_size({},{},{}) = {:?}, expected {}", n, b, d, r, w);
                    } else {
                        ck!(r.is_none(), "get_merkle_tree_cache_size({},{},{}) = {:?}, expected an error", n, b, d, r);
                    }
                    cnt += 1;
                }
                let dd = StoreConfig::default_rows_to_discard(n, b);
                ck!(dd + 2 <= (k + 1).max(2), "default_rows_to_discard({},{}) = {} of {} rows", n, b, dd, k + 1);
                ck!(k + 1 < 3 || dd >= 1, "default_rows_to_discard({},{}) = {} although rows can be discarded", n, b, dd);
                k += 1;
            }
            Ok(cnt)
        });
        c.case(format!("C05 powers of two arity={}", b), || {
            for e in 0..=62usize {
                let n = 1usize << e;
                if n < b {
                    must_err("len", || get_merkle_tree_len(n, b))?;
                    continue;
                }
                ck!(get_merkle_tree_row_count(n, b) == e / s + 1, "row_count({},{}) = {}", n, b, get_merkle_tree_row_count(n, b));
                let mut sum = 0;
                let mut w = n;
                while w > 0 {
                    sum += w;
                    w /= b;
                }
                ck!(must("len", || get_merkle_tree_len(n, b))? == sum, "get_merkle_tree_len({},{}) != {}", n, b, sum);
                ck!(is_merkle_tree_size_valid(n, b) == (e % s == 0), "is_merkle_tree_size_valid({},{})", n, b);
                ck!(next_pow2(n) == n && (e == 0 || next_pow2(n - 1) == if n == 2 { 1 } else { n }) && log2_pow2(n) == e, "next_pow2/log2_pow2 {}", n);
                if e > 1 {
                    ck!(next_pow2(n + 1) == n * 2 && next_pow2(n / 2 + 1) == n, "next_pow2 around {}", n);
                }
                for m in [n - 1, n + 1, n + n / 2] {
                    if m > 2 && !m.is_power_of_two() {
                        ck!(!is_merkle_tree_size_valid(m, b), "is_merkle_tree_size_valid({},{}) is true", m, b);
                        if b == 2 {
                            must_err(&format!("get_merkle_tree_len({},2)", m), || get_merkle_tree_len(m, 2))?;
                        }
                    }
                }
            }
            Ok(60)
        });
        if s <= 7 {
            c.case(format!("C05 every length arity={}", b), || {
                let mut lens = std::collections::BTreeMap::new();
                let mut n = 1usize;
                while n < 1 << 40 {
                    lens.insert(tree_len(n, b), n);
                    n *= b;
                }
                let check = |l: usize| -> Result<(), String> {
                    let r = run("leafs", || get_merkle_tree_leafs(l, b))?;
                    ck!(r == lens.get(&l).cloned(), "get_merkle_tree_leafs({},{}) = {:?}, expected {:?}", l, b, r, lens.get(&l));
                    Ok(())
                };
                for l in 0..6000usize {
                    check(l)?;
                    ck!(is_merkle_tree_size_valid(l, b) == (l >= 1 && is_pow(l, b)), "is_merkle_tree_size_valid({},{})", l, b);
                }
                for l in lens.keys() {
                    for dl in [-2i64, -1, 1, 2, 3] {
                        let m = *l as i64 + dl;
                        if m >= 0 {
                            check(m as usize)?;
                        }
                    }
                }
                Ok(6000)
            });
        }
    }
    c.case("C05 arities that are no powers of two".into(), || {
        for b in [0usize, 3, 5, 6, 7, 9, 11, 12, 100] {
            for n in [0usize, 1, 2, 3, 9, 16, 27, 64, 121, 1024] {
                must_err(&format!("get_merkle_tree_len({},{})", n, b), || get_merkle_tree_len(n, b))?;
                must_err(&format!("get_merkle_tree_leafs({},{})", n, b), || get_merkle_tree_leafs(n, b))?;
                ck!(!is_merkle_tree_size_valid(n, b), "is_merkle_tree_size_valid({},{})", n, b);
            }
        }
        Ok(90)
    });
    c.case("C05 generic lengths".into(), || {
        macro_rules! g { ($($b:ident $s:ident $t:ident;)*) => { $(
            for n in sizes(<$b>::to_usize(), 1 << 20) {
                let l = tree_len(n, <$b>::to_usize());
                let s = <$s>::to_usize(); let t = <$t>::to_usize();
                let w = if t > 0 { (l * s + 1) * t + 1 } else if s > 0 { l * s + 1 } else { l };
                let g = must("generic", || get_merkle_tree_len_generic::<$b, $s, $t>(n))?;
                ck!(g == w, "get_merkle_tree_len_generic<{},{},{}>({}) = {}, expected {}", <$b>::to_usize(), s, t, n, g, w);
            }
        )* } }
        g! { U2 U4 U0; U8 U2 U0; U2 U16 U0; U16 U2 U0; U64 U2 U0; U2 U2 U8; U2 U8 U2; U8 U2 U2; U2 U4 U8; U8 U4 U16; U16 U8 U4; U4 U16 U8; U2 U5 U3; U2 U3 U16; U8 U16 U3; U64 U2 U4; U64 U4 U2;
             U2 U0 U0; U4 U0 U0; U8 U0 U0; U2 U2 U0; U2 U3 U0; U4 U8 U0; U8 U4 U2; U2 U2 U2; U4 U3 U5; U8 U8 U2; U16 U1 U1; }
        Ok(28)
    });
    // the domain of the assumed contract of get_merkle_tree_row_count, completely
    c.case("C05 row count of every power of two at every arity (leafs * arity up to 2^63)".into(), || {
        let mut cnt = 0;
        for s in 1..=62usize {
            for e in 0..=(63 - s) {
                let r = get_merkle_tree_row_count(1usize << e, 1usize << s);
                ck!(r == e / s + 1, "get_merkle_tree_row_count({},{}) = {} != {}", 1usize << e, 1usize << s, r, e / s + 1);
                cnt += 1;
            }
        }
        Ok(cnt)
    });
}

// ---------------------------------------------------------------- C06 / C07 / C09 / C10 helpers
fn proofs_equal<const N: usize, A: Oracle<N>, S: Store<El<N>>, U: Unsigned>(t: &MerkleTree<El<N>, A, S, U>, r: &[Vec<El<N>>], b: usize, d: Option<usize>, seed: u64) -> Result<u64, String> {
    let n = r[0].len();
    let mut rg = Rng::new(seed);
    let idx: Vec<usize> = if n <= 512 { (0..n).collect() } else { (0..if n > 4096 { 10 } else { 24 }).map(|_| rg.below(n)).chain([0, 1, n - 1, n - 2, n / 2, n / 2 - 1, n / 4, n / 4 * 3]).collect() };
    for i in idx.iter() {
        let p = must(&format!("gen_cached_proof({}, {:?})", i, d), || t.gen_cached_proof(*i, d))?;
        same_base(&p, &proof_of(r, b, *i)).map_err(|e| format!("cached proof of leaf {} (rows {:?}): {}", i, d, e))?;
        ck!(must("validate", || p.validate::<A>())?, "cached proof of leaf {} rejected", i);
    }
    for i in [n, n + 1, 2 * n, usize::MAX / 64] {
        must_err(&format!("gen_cached_proof({})", i), || t.gen_cached_proof(i, d))?;
    }
    Ok(idx.len() as u64)
}
fn ext(path: &std::path::Path, off: usize) -> anyhow::Result<ExternalReader<File>> {
    ExternalReader::new_from_config(&ReplicaConfig::new(path, vec![off]), 0)
}
fn c06_one<const N: usize, A: Oracle<N>, U: Unsigned>(n: usize, b: usize, seed: u64) -> Result<u64, String>
where
    Vec<u8>: Hashable<A>,
{
    let inp = input::<N, A>(n, seed);
    let r = rows::<N, A>(leaf_row::<N, A>(&inp, 0), b);
    let rc = r.len();
    let mut cnt = 0;
    // full disk tree, every number of rows
    let t = must("build", || build::<N, A, DiskStore<El<N>>, U>(0, &inp, None))?;
    cnt += proofs_equal(&t, &r, b, None, seed)?;
    for d in 0..rc + 2 {
        cnt += proofs_equal(&t, &r, b, Some(d), seed + d as u64)?;
    }
    // stores that really discarded the rows
    let len = tree_len(n, b);
    let dflt = StoreConfig::default_rows_to_discard(n, b);
    for d in 0..rc.saturating_sub(1) {
        let s = Scratch::new();
        let off = 7 * d + 3;
        let mut rep = vec![0x5A; off];
        rep.extend(to_bytes(&r[0]));
        rep.extend([0x77; 9]);
        let rep = s.replica("replica", &rep);
        // built as a level cache tree
        drop(must("build", || build::<N, A, LC<N>, U>(0, &inp, Some(s.cfg("a", d))))?);
        // compacted from a disk tree, both formats
        for v in [1u32, 2] {
            let mut t = must("build", || build::<N, A, DiskStore<El<N>>, U>(0, &inp, Some(s.cfg(&format!("v{}", v), d))))?;
            must("compact", || t.compact(s.cfg(&format!("v{}", v), d), v))?;
        }
        let mut trees: Vec<(&str, MerkleTree<El<N>, A, LC<N>, U>)> = vec![];
        for id in ["a", "v2"] {
            let st = must("new_from_disk_with_reader", || LC::<N>::new_from_disk_with_reader(len, b, &s.cfg(id, d), ext(&rep, off)?))?;
            trees.push((id, must("from_data_store", || MerkleTree::from_data_store(st, n))?));
        }
        let st = must("new_from_disk", || LC::<N>::new_from_disk(len, b, &s.cfg("v1", d)))?;
        trees.push(("v1", must("from_data_store", || MerkleTree::from_data_store(st, n))?));
        for (id, t) in trees.iter() {
            // usable numbers: at least what the store discarded (capped to what the tree has)
            for q in (0..rc + 1).map(Some).chain([None]) {
                let eff = q.map(|x| x.min(rc - 2)).unwrap_or(dflt);
                if eff >= d {
                    cnt += proofs_equal(t, &r, b, q, seed).map_err(|e| format!("store {} discarding {}: {}", id, d, e))?;
                } else {
                    for i in [0, n - 1, n / 2] {
                        if let Some(p) = run("gen_cached_proof", || t.gen_cached_proof(i, q))? {
                            same_base(&p, &proof_of(&r, b, i)).map_err(|e| format!("store {} discarding {}, proof with {:?}: {}", id, d, q, e))?;
                        }
                    }
                }
            }
        }
    }
    Ok(cnt)
}
pub fn c06(c: &mut Ctx) {
    let seed = c.seed + 6;
    for b in [2usize, 4, 8, 16, 32] {
        for n in sizes(b, if c.thorough { 1 << 13 } else { 1 << 12 }) {
            if row_count(n, b) < 3 {
                continue;
            }
            c.case(format!("C06 arity={} leafs={}", b, n), || by_arity!(b, U => c06_one::<8, HAlg<8>, U>(n, b, seed)));
        }
    }
    for (b, n) in [(2usize, 64usize), (4, 64), (8, 64), (8, 4096), (64, 4096), (2, 2048), (4, 16384)] {
        c.case(format!("C06 arity={} leafs={} el=5", b, n), || by_arity!(b, U => c06_one::<5, HAlg<5>, U>(n, b, seed)));
    }
    c.case("C06 arity=8 leafs=32768 default-hashing".into(), || c06_one::<32, DAlg<32>, U8>(32768, 8, seed));
    c.case("C06 arity=2 leafs=16384".into(), || c06_one::<8, HAlg<8>, U2>(16384, 2, seed));
    macro_rules! comp { ($($b:ident $s:ident $t:ident $n:expr;)*) => { $(
        c.case(format!("C06 compound base={} sub={} top={} leafs={}", <$b>::to_usize(), <$s>::to_usize(), <$t>::to_usize(), $n),
            || compound::<8, HAlg<8>, $b, $s, $t>($n, seed, true));
    )* } }
    comp! { U2 U2 U0 16; U2 U2 U0 256; U4 U2 U0 64; U8 U4 U0 64; U2 U3 U2 16; U4 U2 U2 64; U8 U8 U2 64; U2 U5 U3 8; U16 U3 U2 256; U8 U2 U0 4096; U8 U2 U2 4096; U2 U2 U2 1024; }
}

// ---------------------------------------------------------------- C07
struct Mem(Vec<u8>);
impl std::io::Read for Mem {
    fn read(&mut self, _b: &mut [u8]) -> std::io::Result<usize> {
        unimplemented!()
    }
}
fn mem_reader(bytes: Vec<u8>, off: usize) -> ExternalReader<Mem> {
    ExternalReader {
        offset: off,
        source: Mem(bytes),
        read_fn: |s, e, buf, m| {
            anyhow::ensure!(e >= s && e <= m.0.len(), "external read out of range");
            buf[0..e - s].copy_from_slice(&m.0[s..e]);
            Ok(e - s)
        },
    }
}
fn reads<const N: usize, R: std::io::Read + Send + Sync>(s: &LevelCacheStore<El<N>, R>, f: &[El<N>], n: usize, cs: usize, v1: bool, full: bool, what: &str) -> Result<u64, String> {
    let len = f.len();
    let mut pts: Vec<usize> = if full { (0..=len + 2).collect() } else { vec![] };
    if !full {
        for x in [0, n, cs, len, n / 2, (n + cs) / 2, (cs + len) / 2] {
            for d in 0..3usize {
                pts.push(x + d);
                pts.push(x.saturating_sub(d));
            }
        }
        pts.sort();
        pts.dedup();
    }
    let mut cnt = 0;
    for &i in pts.iter() {
        // single element calls
        let avail1 = i < n || (i >= cs && i < len);
        let mut buf = vec![0u8; N];
        let a = run("read_at", || s.read_at(i))?;
        let r = run("read_into", || s.read_into(i, &mut buf))?;
        if avail1 {
            ck!(a == Some(f[i]), "{}: read_at({}) = {:?}, expected {:?}", what, i, a, f[i]);
            ck!(r.is_some() && buf == f[i].0, "{}: read_into({}) gives {:?}, expected {:?}", what, i, buf, f[i]);
        } else {
            ck!(a.is_none(), "{}: read_at({}) = {:?}, but the element is not there (leafs {}, cache from {}, len {})", what, i, a, n, cs, len);
            ck!(r.is_none(), "{}: read_into({}) succeeded, but the element is not there", what, i);
        }
        cnt += 1;
        for &j in pts.iter() {
            if j <= i {
                continue;
            }
            let inbase = j <= n;
            let incache = i >= cs && j <= len;
            let touches_gap = i < cs && j > n && cs > n;
            let out = j > len;
            let mut buf = vec![0u8; (j - i) * N];
            let a = run("read_range", || s.read_range(i..j))?;
            let r = run("read_range_into", || s.read_range_into(i, j, &mut buf))?;
            let (bs, be) = (i * N, j * N);
            let raw = if out { None } else { run("store_read_range", || s.store_read_range(bs, be))? };
            if inbase || incache || (v1 && cs == n && !out) {
                ck!(a.as_deref() == Some(&f[i..j]), "{}: read_range({}..{}) = {:?}", what, i, j, a);
                ck!(r.is_some() && buf == to_bytes(&f[i..j]), "{}: read_range_into({},{}) wrong", what, i, j);
                ck!(raw == Some(to_bytes(&f[i..j])), "{}: store_read_range({},{}) wrong", what, bs, be);
            } else if touches_gap || out {
                ck!(a.is_none(), "{}: read_range({}..{}) = {:?}, but it touches elements that are not there (leafs {}, cache from {}, len {})", what, i, j, a, n, cs, len);
                ck!(r.is_none(), "{}: read_range_into({},{}) succeeded, but it touches elements that are not there (leafs {}, cache from {}, len {})", what, i, j, n, cs, len);
                ck!(raw.is_none(), "{}: store_read_range({},{}) succeeded, but it touches bytes that are not there", what, bs, be);
            } else {
                if let Some(v) = a {
                    ck!(v == f[i..j], "{}: read_range({}..{}) wrong", what, i, j);
                }
                if r.is_some() {
                    ck!(buf == to_bytes(&f[i..j]), "{}: read_range_into({},{}) wrong", what, i, j);
                }
                if let Some(v) = raw {
                    ck!(v == to_bytes(&f[i..j]), "{}: store_read_range wrong", what);
                }
            }
            cnt += 1;
        }
    }
    Ok(cnt)
}
fn c07_one<const N: usize, A: Oracle<N>, U: Unsigned>(n: usize, b: usize, seed: u64) -> Result<u64, String>
where
    Vec<u8>: Hashable<A>,
{
    let inp = input::<N, A>(n, seed);
    let r = rows::<N, A>(leaf_row::<N, A>(&inp, 0), b);
    let f = flat(&r);
    let (len, rc) = (f.len(), r.len());
    let mut cnt = 0;
    for d in 0..rc.saturating_sub(1) {
        let cs = len - cache_len(n, b, d);
        let full = len <= 48;
        let s = Scratch::new();
        let off = 5 * d;
        let mut rep = vec![0x5A; off];
        rep.extend(to_bytes(&r[0]));
        rep.extend(vec![0x77; N * 40]);
        let rpath = s.replica("replica", &rep);
        for v in [1u32, 2] {
            let mut t = must("build", || build::<N, A, DiskStore<El<N>>, U>(0, &inp, Some(s.cfg(&format!("v{}", v), d))))?;
            must("compact", || t.compact(s.cfg(&format!("v{}", v), d), v))?;
        }
        let st = must("new_from_disk", || LC::<N>::new_from_disk(len, b, &s.cfg("v1", d)))?;
        ck!(st.len() == len, "len of the v1 store");
        cnt += reads(&st, &f, n, cs, true, full, &format!("v1 discarding {}", d))?;
        let st = must("new_from_disk_with_reader", || LC::<N>::new_from_disk_with_reader(len, b, &s.cfg("v2", d), ext(&rpath, off)?))?;
        ck!(st.len() == len, "len of the v2 store");
        cnt += reads(&st, &f, n, cs, false, full, &format!("v2 discarding {}", d))?;
        if n <= 64 {
            // an external file that ends inside the base row: whole elements or errors
            let have = n / 2 * N + N / 2;
            let cut = s.replica("replica-cut", &rep[..off + have]);
            let st = must("new_from_disk_with_reader", || LC::<N>::new_from_disk_with_reader(len, b, &s.cfg("v2", d), ext(&cut, off)?))?;
            for i in 0..n {
                let a = run("read_at", || st.read_at(i))?;
                ck!(if (i + 1) * N <= have { a == Some(f[i]) } else { a.is_none() }, "read_at({}) = {:?} from an external file with {} bytes of the base row", i, a, have);
                let a = run("read_range", || st.read_range(i..n))?;
                ck!(a.is_none(), "read_range({}..{}) from an external file with {} bytes of the base row", i, n, have);
                let mut buf = vec![0u8; N];
                let a = run("read_into", || st.read_into(i, &mut buf))?;
                ck!(if (i + 1) * N <= have { a.is_some() && buf == f[i].0 } else { a.is_none() }, "read_into({}) from an external file with {} bytes of the base row", i, have);
            }
        }
        let mut st = must("new_from_disk", || LC::<N>::new_from_disk(len, b, &s.cfg("v2", d)))?;
        for i in 0..n.min(16) {
            must_err("base element of a v2 store without a reader", || st.read_at(i))?;
            must_err("base range of a v2 store without a reader", || st.read_range(i..i + 1))?;
        }
        for i in cs..len.min(cs + 16) {
            let a = run("read_at", || st.read_at(i))?;
            ck!(a.is_none() || a == Some(f[i]), "v2 store without a reader: read_at({}) = {:?}", i, a);
        }
        must("set_external_reader", || st.set_external_reader(ext(&rpath, off)?))?;
        cnt += reads(&st, &f, n, cs, false, full, &format!("v2 reader set later, discarding {}", d))?;
        let mut st = must("new_from_disk", || LC::<N>::new_from_disk(len, b, &s.cfg("v1", d)))?;
        must("set_external_reader", || st.set_external_reader(ext(&rpath, off)?))?;
        cnt += reads(&st, &f, n, cs, false, full, &format!("v1 with a reader discarding {}", d))?;
        let st = must("new_from_disk_with_reader", || LevelCacheStore::<El<N>, Mem>::new_from_disk_with_reader(len, b, &s.cfg("v2", d), mem_reader(rep.clone(), off)))?;
        cnt += reads(&st, &f, n, cs, false, full, &format!("v2 memory reader discarding {}", d))?;
        let t = must("build", || build::<N, A, LC<N>, U>(0, &inp, Some(s.cfg("a", d))))?;
        for i in 0..n.min(16) {
            must_err("leaf of a built level-cache tree without a reader", || t.read_at(i))?;
        }
        drop(t);
        let st = must("new_from_disk_with_reader", || LevelCacheStore::<El<N>, Mem>::new_from_disk_with_reader(len, b, &s.cfg("a", d), mem_reader(rep.clone(), off)))?;
        cnt += reads(&st, &f, n, cs, false, full, &format!("built discarding {}", d))?;
        let t = must("from_data_store", || MerkleTree::<El<N>, A, LevelCacheStore<El<N>, Mem>, U>::from_data_store(st, n))?;
        ck!(t.root() == f[len - 1], "root of the reopened tree");
        // a file that does not match the configuration
        must_err("reader store with a v1 file", || LC::<N>::new_from_disk_with_reader(len, b, &s.cfg("v1", d), ext(&rpath, off)?))?;
        for o in 0..rc.saturating_sub(1) {
            if o != d {
                must_err("reader store with other rows", || LC::<N>::new_from_disk_with_reader(len, b, &s.cfg("v2", o), ext(&rpath, off)?))?;
            }
        }
    }
    Ok(cnt)
}
pub fn c07(c: &mut Ctx) {
    let seed = c.seed + 7;
    for b in [2usize, 4, 8, 16, 32] {
        for n in sizes(b, if c.thorough { 1 << 14 } else { 1 << 12 }) {
            c.case(format!("C07 arity={} leafs={}", b, n), || by_arity!(b, U => c07_one::<8, HAlg<8>, U>(n, b, seed)));
        }
    }
    for (b, n) in [(2usize, 16usize), (4, 16), (8, 64), (2, 512), (64, 4096), (4, 16384)] {
        c.case(format!("C07 arity={} leafs={} el=5", b, n), || by_arity!(b, U => c07_one::<5, HAlg<5>, U>(n, b, seed)));
        c.case(format!("C07 arity={} leafs={} el=32", b, n), || by_arity!(b, U => c07_one::<32, DAlg<32>, U>(n, b, seed)));
    }
}

// ---------------------------------------------------------------- C08
fn c08_hist<const N: usize, S: Store<El<N>>>(mk: &dyn Fn(usize) -> anyhow::Result<S>, fixed: bool, range_into: bool, cap: usize, steps: usize, seed: u64) -> Result<u64, String> {
    let mut rg = Rng::new(seed);
    let mut s = must("new", || mk(cap))?;
    // None: never written (content unspecified)
    let mut m: Vec<Option<El<N>>> = vec![];
    let mut log: Vec<String> = vec![];
    let chk = |s: &S, m: &Vec<Option<El<N>>>, rg: &mut Rng, log: &Vec<String>, full: bool| -> Result<(), String> {
        ck!(Store::len(s) == m.len(), "len() = {}, expected {} after {:?}", Store::len(s), m.len(), log);
        ck!(Store::is_empty(s) == m.is_empty(), "is_empty() after {:?}", log);
        let idx: Vec<usize> = if full { (0..m.len()).collect() } else { (0..4).map(|_| rg.below(m.len())).collect() };
        if !m.is_empty() {
            for i in idx {
                if let Some(x) = m[i] {
                    let g = must("read_at", || s.read_at(i))?;
                    ck!(g == x, "read_at({}) = {:?}, last written {:?}, after {:?}", i, g, x, log);
                    let mut buf = vec![0u8; N];
                    must("read_into", || s.read_into(i, &mut buf))?;
                    ck!(buf == x.0, "read_into({}) after {:?}", i, log);
                }
            }
            let a = rg.below(m.len());
            let e = a + 1 + rg.below(m.len() - a);
            let v = must("read_range", || s.read_range(a..e))?;
            ck!(v.len() == e - a, "read_range({}..{}) has {} elements", a, e, v.len());
            for k in a..e {
                if let Some(x) = m[k] {
                    ck!(v[k - a] == x, "read_range({}..{})[{}] = {:?}, last written {:?}, after {:?}", a, e, k - a, v[k - a], x, log);
                }
            }
            if range_into {
                let mut buf = vec![0u8; (e - a) * N];
                must("read_range_into", || s.read_range_into(a, e, &mut buf))?;
                for k in a..e {
                    if let Some(x) = m[k] {
                        ck!(buf[(k - a) * N..(k - a + 1) * N] == x.0, "read_range_into({},{}) element {} after {:?}", a, e, k, log);
                    }
                }
                ck!(refused(|| s.read_range_into(a, m.len() + 1, &mut vec![0u8; (m.len() + 1 - a) * N])), "read_range_into beyond the length succeeded after {:?}", log);
            }
            if let Some(x) = m[m.len() - 1] {
                ck!(must("last", || s.last())? == x, "last() after {:?}", log);
            }
            ck!(refused(|| s.read_range(a..m.len() + 1)), "read_range({}..{}) beyond the length {} succeeded after {:?}", a, m.len() + 1, m.len(), log);
        }
        for i in [m.len(), m.len() + 1, m.len() + 7, cap, cap + 1] {
            if i >= m.len() {
                ck!(refused(|| s.read_at(i)), "read_at({}) succeeded with length {} after {:?}", i, m.len(), log);
                ck!(refused(|| s.read_into(i, &mut vec![0u8; N])), "read_into({}) succeeded with length {} after {:?}", i, m.len(), log);
            }
        }
        Ok(())
    };
    for _ in 0..steps {
        let before = m.clone();
        match rg.below(8) {
            0 | 1 => {
                let i = rg.below(cap + if fixed { 2 } else { 0 });
                let x = rg.el();
                let op = format!("write_at({})", i);
                log.push(op.clone());
                if fixed && i >= cap {
                    ck!(refused(|| s.write_at(x, i)), "{} beyond the capacity {} succeeded", op, cap);
                } else {
                    must(&op, || s.write_at(x, i))?;
                    while m.len() <= i {
                        m.push(None);
                    }
                    m[i] = Some(x);
                }
            }
            2..=4 => {
                let st = rg.below(cap);
                let k = rg.below(cap - st + 1) + if fixed && rg.below(6) == 0 { 1 + rg.below(3) } else { 0 };
                let v: Vec<El<N>> = rg.els(k);
                let op = format!("copy_from_slice({} elements at {})", k, st);
                log.push(op.clone());
                if fixed && st + k > cap {
                    ck!(refused(|| s.copy_from_slice(&to_bytes(&v), st)), "{} beyond the capacity {} succeeded", op, cap);
                } else {
                    must(&op, || s.copy_from_slice(&to_bytes(&v), st))?;
                    if k > 0 || true {
                        while m.len() < st + k {
                            m.push(None);
                        }
                    }
                    for (j, x) in v.iter().enumerate() {
                        m[st + j] = Some(*x);
                    }
                }
            }
            5 | 6 => {
                let x = rg.el();
                log.push("push".into());
                if fixed && m.len() >= cap {
                    ck!(refused(|| s.push(x)), "push into a full store succeeded");
                } else {
                    must("push", || s.push(x))?;
                    m.push(Some(x));
                }
            }
            _ => {
                let st = rg.below(cap);
                log.push(format!("copy_from_slice(partial element at {})", st));
                if N > 1 {
                    ck!(refused(|| s.copy_from_slice(&vec![1u8; N + 1], st)), "copy of a partial element succeeded");
                    ck!(refused(|| s.copy_from_slice(&vec![1u8; N - 1], st)), "copy of a partial element succeeded");
                }
            }
        }
        // nothing but what the operation says changed
        if Store::len(&s) == before.len() || Store::len(&s) == m.len() {
            chk(&s, &m, &mut rg, &log, cap <= 24)?;
        } else {
            return Err(format!("len() = {}, expected {} after {:?}", Store::len(&s), m.len(), log));
        }
    }
    must("sync", || s.sync())?;
    chk(&s, &m, &mut rg, &log, true)?;
    Ok(steps as u64)
}
fn c08_slice<const N: usize, S: Store<El<N>>>(k: usize, cap: usize, sc: &Scratch, seed: u64, fixed: bool) -> Result<u64, String> {
    let mut rg = Rng::new(seed);
    let v: Vec<El<N>> = rg.els(k);
    let a = must("new_from_slice", || S::new_from_slice(cap, &to_bytes(&v)))?;
    let b = must("new_from_slice_with_config", || S::new_from_slice_with_config(cap, 2, &to_bytes(&v), sc.cfg(&format!("s{}-{}", k, cap), 0)))?;
    for s in [&a, &b] {
        ck!(Store::len(s) == k, "len() {} of a store from a slice of {}", Store::len(s), k);
        if k > 0 {
            ck!(must("read_range", || s.read_range(0..k))? == v, "elements of a store made from a slice");
        }
        ck!(refused(|| s.read_at(k)), "read_at({}) beyond the length", k);
    }
    let mut bytes = to_bytes(&v);
    bytes.push(1);
    ck!(refused(|| S::new_from_slice(cap + 1, &bytes)), "new_from_slice of a partial element succeeded");
    if fixed {
        let w: Vec<El<N>> = rg.els(cap + 1);
        ck!(refused(|| S::new_from_slice(cap, &to_bytes(&w))), "new_from_slice of more than the capacity succeeded");
    }
    Ok(1)
}
pub fn c08(c: &mut Ctx) {
    let seed = c.seed + 8;
    let reps = if c.thorough { 400 } else { 60 };
    for rep in 0..reps {
        for cap in [1usize, 2, 5, 16, 23, 64, 300] {
            let sd = seed * 7919 + rep * 31 + cap as u64;
            let steps = if cap > 24 { 25 } else { 14 };
            c.case(format!("C08 vec cap={} history={}", cap, rep), || c08_hist::<8, VecStore<El<8>>>(&|n| VecStore::new(n), false, false, cap, steps, sd));
            c.case(format!("C08 disk cap={} history={}", cap, rep), || c08_hist::<8, DiskStore<El<8>>>(&|n| DiskStore::new(n), true, true, cap, steps, sd));
            c.case(format!("C08 mmap cap={} history={}", cap, rep), || c08_hist::<8, MmapStore<El<8>>>(&|n| MmapStore::new(n), true, false, cap, steps, sd));
            c.case(format!("C08 disk-config el=5 cap={} history={}", cap, rep), || {
                let s = Scratch::new();
                c08_hist::<5, DiskStore<El<5>>>(&|n| DiskStore::new_with_config(n, 2, s.cfg("x", 0)), true, true, cap, steps, sd)
            });
            c.case(format!("C08 mmap-config el=5 cap={} history={}", cap, rep), || {
                let s = Scratch::new();
                c08_hist::<5, MmapStore<El<5>>>(&|n| MmapStore::new_with_config(n, 2, s.cfg("x", 0)), true, false, cap, steps, sd)
            });
            c.case(format!("C08 vec el=3 cap={} history={}", cap, rep), || c08_hist::<3, VecStore<El<3>>>(&|n| VecStore::new_with_config(n, 2, StoreConfig::default()), false, false, cap, steps, sd));
        }
    }
    for rep in 0..reps {
        for cap in [3usize, 7, 31, 127] {
            let sd = seed * 5003 + rep * 41 + cap as u64;
            c.case(format!("C08 level-cache-config cap={} history={}", cap, rep), || {
                let s = Scratch::new();
                c08_hist::<5, LC<5>>(&|n| LevelCacheStore::new_with_config(n, 2, s.cfg("x", 0)), true, false, cap, 14, sd)
            });
        }
    }
    c.case("C08 level-cache lengths with discarded rows".into(), || {
        let mut rg = Rng::new(seed);
        for d in 0..4usize {
            for _ in 0..40 {
                let sc = Scratch::new();
                let mut s: LC<8> = must("new_with_config", || LevelCacheStore::new_with_config(31, 2, sc.cfg("x", d)))?;
                let mut m: Vec<El<8>> = vec![];
                for _ in 0..6 {
                    let st = rg.below(m.len().min(15) + 1);
                    let k = 1 + rg.below(16 - st);
                    let v: Vec<El<8>> = rg.els(k);
                    must("copy_from_slice", || s.copy_from_slice(&to_bytes(&v), st))?;
                    for (j, x) in v.iter().enumerate() {
                        if st + j < m.len() { m[st + j] = *x } else { m.push(*x) }
                    }
                    let j = rg.below(m.len());
                    let x = rg.el();
                    must("write_at", || s.write_at(x, j))?;
                    m[j] = x;
                    ck!(Store::len(&s) == m.len(), "len() = {}, expected {} with {} rows discarded", Store::len(&s), m.len(), d);
                    ck!(must("read_range", || s.read_range(0..m.len()))? == m, "content of a level-cache store with {} rows discarded", d);
                }
            }
        }
        Ok(4)
    });
    c.case("C08 bytes of 32-byte elements".into(), || {
        let mut rg = Rng::new(seed);
        for _ in 0..500 {
            let v: Vec<u8> = (0..32).map(|_| rg.next() as u8).collect();
            let e = <[u8; 32] as Element>::from_slice(&v);
            ck!(e[..] == v[..] && <[u8; 32] as Element>::byte_len() == 32, "from_slice of {:?} is {:?}", v, e);
            let mut w = vec![7u8; 32];
            e.copy_to_slice(&mut w);
            ck!(w == v, "copy_to_slice of {:?} gives {:?}", v, w);
        }
        for n in [0usize, 1, 31, 33, 64] {
            ck!(std::panic::catch_unwind(|| <[u8; 32] as Element>::from_slice(&vec![1u8; n])).is_err(), "from_slice of {} bytes was accepted", n);
        }
        Ok(500)
    });
    c.case("C08 mmap after compact and reinit".into(), || {
        let mut rg = Rng::new(seed);
        let mut s: MmapStore<El<8>> = must("new", || MmapStore::new(9))?;
        let v: Vec<El<8>> = rg.els(5);
        must("copy", || s.copy_from_slice(&to_bytes(&v), 0))?;
        must("compact", || s.compact(2, StoreConfig::default(), 2))?;
        must_err("read of an unmapped store", || s.read_at(0))?;
        must("reinit", || s.reinit())?;
        ck!(must("read_range", || s.read_range(0..5))? == v, "content after compact and reinit");
        must("compact", || s.compact(2, StoreConfig::default(), 2))?;
        let x = rg.el();
        must("push", || s.push(x))?;
        ck!(must("read_range", || s.read_range(0..5))? == v && must("read_at", || s.read_at(5))? == x && Store::len(&s) == 6, "content after a push into an unmapped store");
        Ok(1)
    });
    for k in 0..8usize {
        for extra in [0usize, 1, 9] {
            let cap = (k + extra).max(1);
            c.case(format!("C08 from slice {} of {}", k, cap), || {
                let s = Scratch::new();
                c08_slice::<8, VecStore<El<8>>>(k, cap, &s, seed, false)?;
                c08_slice::<8, DiskStore<El<8>>>(k, cap, &Scratch::new(), seed, true)?;
                c08_slice::<5, MmapStore<El<5>>>(k, cap, &Scratch::new(), seed, true)
            });
        }
    }
}

// ---------------------------------------------------------------- C09
fn c09_one<const N: usize, A: Oracle<N>, U: Unsigned>(n: usize, b: usize, seed: u64) -> Result<u64, String>
where
    Vec<u8>: Hashable<A>,
{
    let inp = input::<N, A>(n, seed);
    let r = rows::<N, A>(leaf_row::<N, A>(&inp, 0), b);
    let f = flat(&r);
    let (len, rc) = (f.len(), r.len());
    let bytes = to_bytes(&f);
    let mut cnt = 0;
    for d in 0..rc + 2 {
        for v in [1u32, 2] {
            let s = Scratch::new();
            let cfg = s.cfg("t", d);
            let mut t = must("build", || build::<N, A, DiskStore<El<N>>, U>(0, &inp, Some(s.cfg("t", 0))))?;
            ck!(must("is_consistent", || DiskStore::<El<N>>::is_consistent(len, b, &cfg))?, "DiskStore::is_consistent before compaction");
            ck!(!must("is_consistent", || DiskStore::<El<N>>::is_consistent(len + 1, b, &cfg))?, "DiskStore::is_consistent of another length");
            let res = run("compact", || t.compact(cfg.clone(), v))?;
            let file = std::fs::read(s.file("t")).map_err(|e| e.to_string())?;
            if d + 1 >= rc {
                ck!(res.is_none(), "compact discarding {} of {} rows succeeded", d, rc);
                ck!(file == bytes, "refused compaction changed the file");
                ck!(must("read_range", || t.read_range(0, len))? == f, "refused compaction changed the tree");
                continue;
            }
            ck!(res == Some(true), "compact(discard {}, version {}) = {:?}", d, v, res);
            let cl = cache_len(n, b, d);
            let mut want = if v == 1 { to_bytes(&r[0]) } else { vec![] };
            want.extend(to_bytes(&f[len - cl..]));
            ck!(file.len() == want.len(), "compact(discard {}, version {}): file of {} bytes, expected {}", d, v, file.len(), want.len());
            ck!(file == want, "compact(discard {}, version {}): file content differs", d, v);
            let st = t.data().ok_or("no store")?;
            ck!(Store::len(st) * N == want.len(), "store length {} after compaction", Store::len(st));
            ck!(st.store_size() == want.len(), "store size {} after compaction to {} bytes", st.store_size(), want.len());
            ck!(must("read", || st.read_range(0..want.len() / N))? == want.chunks(N).map(|x| El::from_slice(x)).collect::<Vec<El<N>>>(), "store content after compaction");
            for o in 0..rc.saturating_sub(1) {
                let oc = s.cfg("t", o);
                let w2 = cache_len(n, b, o) * N == want.len();
                let w1 = (n + cache_len(n, b, o)) * N == want.len();
                ck!(must("is_consistent", || LC::<N>::is_consistent(len, b, &oc))? == w2, "is_consistent with {} rows of a version {} file discarding {}", o, v, d);
                ck!(must("is_consistent_v1", || LC::<N>::is_consistent_v1(len, b, &oc))? == w1, "is_consistent_v1 with {} rows of a version {} file discarding {}", o, v, d);
            }
            // one byte more or less
            for dl in [-1i64, 1] {
                let mut z = want.clone();
                if dl < 0 {
                    z.pop();
                } else {
                    z.push(0);
                }
                std::fs::write(s.file("t"), &z).map_err(|e| e.to_string())?;
                ck!(!must("is_consistent", || LC::<N>::is_consistent(len, b, &cfg))?, "is_consistent of a damaged file");
                ck!(!must("is_consistent_v1", || LC::<N>::is_consistent_v1(len, b, &cfg))?, "is_consistent_v1 of a damaged file");
                ck!(!must("is_consistent", || DiskStore::<El<N>>::is_consistent(want.len() / N, b, &cfg))?, "DiskStore::is_consistent of a damaged file");
            }
            cnt += 1;
        }
        // level cache build leaves exactly the cached rows
        if d + 1 < rc {
            let s = Scratch::new();
            drop(must("build", || build::<N, A, LC<N>, U>(0, &inp, Some(s.cfg("t", d))))?);
            let file = std::fs::read(s.file("t")).map_err(|e| e.to_string())?;
            ck!(file == to_bytes(&f[len - cache_len(n, b, d)..]), "level cache file (discard {})", d);
            ck!(must("is_consistent", || LC::<N>::is_consistent(len, b, &s.cfg("t", d)))?, "is_consistent of a built level cache file");
        }
    }
    Ok(cnt)
}
pub fn c09(c: &mut Ctx) {
    let seed = c.seed + 9;
    for b in [2usize, 4, 8, 16, 32] {
        for n in sizes(b, if c.thorough { 1 << 16 } else { 1 << 13 }) {
            c.case(format!("C09 arity={} leafs={}", b, n), || by_arity!(b, U => c09_one::<8, HAlg<8>, U>(n, b, seed)));
            if n <= 4096 {
                c.case(format!("C09 arity={} leafs={} el=5", b, n), || by_arity!(b, U => c09_one::<5, HAlg<5>, U>(n, b, seed)));
            }
        }
    }
    c.case("C09 arity=8 leafs=32768 el=32".into(), || c09_one::<32, HAlg<32>, U8>(32768, 8, seed));
    for (l, k) in [(0usize, 0usize), (10, 0), (10, 3), (10, 10), (4096, 4095)] {
        c.case(format!("C09 front_truncate {} of {}", k, l), || {
            let s = Scratch::new();
            let mut rg = Rng::new(l as u64);
            // a store whose file is written by hand
            let v: Vec<El<8>> = rg.els(31);
            let mut st = must("new", || LC::<8>::new_from_slice_with_config(31, 2, &to_bytes(&v), s.cfg("t", 1)))?;
            let v: Vec<El<8>> = rg.els(l);
            std::fs::write(s.file("t"), to_bytes(&v)).map_err(|e| e.to_string())?;
            // the store keeps the path of its configuration
            must("front_truncate", || st.front_truncate(&s.cfg("t", 1), k))?;
            ck!(std::fs::read(s.file("t")).map_err(|e| e.to_string())? == to_bytes(&v[k..]), "front_truncate({}) of {} elements", k, l);
            must_err("front_truncate beyond the file", || st.front_truncate(&s.cfg("t", 1), l - k + 1))?;
            ck!(std::fs::read(s.file("t")).map_err(|e| e.to_string())? == to_bytes(&v[k..]), "refused front_truncate changed the file");
            Ok(1)
        });
    }
}

// ---------------------------------------------------------------- C10
fn c10_one<const N: usize, A: Oracle<N>, U: Unsigned>(n: usize, b: usize, seed: u64) -> Result<u64, String>
where
    Vec<u8>: Hashable<A>,
{
    let len = tree_len(n, b);
    let mut cnt = 0;
    for ctor in [0usize, 1, 2, 3, 4, 6] {
        let inp = input::<N, A>(n, seed + ctor as u64);
        let r = rows::<N, A>(leaf_row::<N, A>(&inp, if ctor == 6 { 0 } else { ctor }), b);
        let f = flat(&r);
        let bytes = to_bytes(&f);
        macro_rules! each {
            ($S:ident, $name:expr) => {{
                let s = Scratch::new();
                let cfg = s.cfg("t", 0);
                if ctor == 6 {
                    let t = must("from_tree_slice_with_config", || MerkleTree::<El<N>, A, $S<El<N>>, U>::from_tree_slice_with_config(&bytes, n, cfg.clone()))?;
                    check_full(&t, &r)?;
                } else {
                    let t = must("build", || build::<N, A, $S<El<N>>, U>(ctor, &inp, Some(cfg.clone())))?;
                    if ctor == 1 { drop(t); } else {
                        // reopened while the first is alive
                        let st = must("new_from_disk", || $S::<El<N>>::new_from_disk(len, b, &cfg))?;
                        let t2 = must("from_data_store", || MerkleTree::<El<N>, A, $S<El<N>>, U>::from_data_store(st, n))?;
                        check_full(&t2, &r)?;
                    }
                }
                ck!(std::fs::read(s.file("t")).map_err(|e| e.to_string())? == bytes, "{}: file differs", $name);
                for how in 0..2 {
                    let st = if how == 0 { must("new_from_disk", || $S::<El<N>>::new_from_disk(len, b, &cfg))? } else { must("new_with_config", || $S::<El<N>>::new_with_config(len, b, cfg.clone()))? };
                    ck!(Store::len(&st) == len, "{}: reopened store has length {}", $name, Store::len(&st));
                    let t = must("from_data_store", || MerkleTree::<El<N>, A, $S<El<N>>, U>::from_data_store(st, n))?;
                    check_full(&t, &r).map_err(|e| format!("{} reopened: {}", $name, e))?;
                    for i in [0, n - 1, n / 2] {
                        let p = must("gen_proof", || t.gen_proof(i))?;
                        same_base(&p, &proof_of(&r, b, i)).map_err(|e| format!("{} reopened proof: {}", $name, e))?;
                    }
                }
                // another size
                for o in [len - 1, len + 1, len * 2, 1, 0] {
                    must_err(&format!("{} opened with size {} instead of {}", $name, o, len), || $S::<El<N>>::new_from_disk(o, b, &cfg))?;
                    must_err(&format!("{} opened with size {} instead of {}", $name, o, len), || $S::<El<N>>::new_with_config(o, b, cfg.clone()))?;
                    ck!(std::fs::read(s.file("t")).map_err(|e| e.to_string())? == bytes, "{}: refused open changed the file", $name);
                }
                must_err("new_from_disk of a missing file", || $S::<El<N>>::new_from_disk(len, b, &s.cfg("missing", 0)))?;
                ck!(!s.file("missing").exists(), "refused open created a file");
                // damaged file
                for z in [&bytes[..bytes.len() - 1], &bytes[..bytes.len() - N]] {
                    std::fs::write(s.file("d"), z).map_err(|e| e.to_string())?;
                    must_err("open of a truncated file", || $S::<El<N>>::new_from_disk(len, b, &s.cfg("d", 0)))?;
                    must_err("open of a truncated file", || $S::<El<N>>::new_with_config(len, b, s.cfg("d", 0)))?;
                    ck!(std::fs::read(s.file("d")).map_err(|e| e.to_string())? == z, "refused open changed the file");
                }
                let mut z = bytes.clone();
                z.push(0);
                std::fs::write(s.file("d"), &z).map_err(|e| e.to_string())?;
                must_err("open of a longer file", || $S::<El<N>>::new_from_disk(len, b, &s.cfg("d", 0)))?;
                cnt += 1;
            }};
        }
        each!(DiskStore, "disk");
        each!(MmapStore, "mmap");
    }
    // disk: building over an existing file loads it
    let inp = input::<N, A>(n, seed);
    let other = input::<N, A>(n, seed + 77);
    let r = rows::<N, A>(leaf_row::<N, A>(&inp, 0), b);
    let bytes = to_bytes(&flat(&r));
    let s = Scratch::new();
    drop(must("build", || build::<N, A, DiskStore<El<N>>, U>(0, &inp, Some(s.cfg("t", 0))))?);
    for ctor in [0usize, 1, 2, 4] {
        let t = must("build over an existing file", || build::<N, A, DiskStore<El<N>>, U>(ctor, &other, Some(s.cfg("t", 0))))?;
        check_full(&t, &r).map_err(|e| format!("{} over an existing file: {}", CTORS[ctor], e))?;
        drop(t);
        ck!(std::fs::read(s.file("t")).map_err(|e| e.to_string())? == bytes, "existing file was repopulated");
    }
    // a slice tree over an existing file keeps the persisted content
    let ob = to_bytes(&flat(&rows::<N, A>(leaf_row::<N, A>(&other, 0), b)));
    let t = must("from_tree_slice_with_config over an existing file", || MerkleTree::<El<N>, A, DiskStore<El<N>>, U>::from_tree_slice_with_config(&ob, n, s.cfg("t", 0)))?;
    check_full(&t, &r).map_err(|e| format!("from_tree_slice_with_config over an existing file: {}", e))?;
    drop(t);
    // with_path
    let st = must("new_from_disk_with_path", || DiskStore::<El<N>>::new_from_disk_with_path(len, s.file("t")))?;
    ck!(st.loaded_from_disk() && Store::len(&st) == len, "new_from_disk_with_path");
    ck!(must("read", || st.read_range(0..len))? == flat(&r), "content by path");
    must_err("new_from_disk_with_path of a missing file", || DiskStore::<El<N>>::new_from_disk_with_path(len, s.file("nope")))?;
    drop(st);
    // data path is a function of path and id
    ck!(StoreConfig::data_path(s.0.path(), "t") == s.file("t"), "data_path");
    let c2 = StoreConfig::from_config(&s.cfg("t", 3), "u", None);
    ck!(c2.path == s.0.path() && c2.id == "u" && c2.rows_to_discard == 3 && c2.size.is_none(), "from_config");
    // delete removes exactly this file
    std::fs::write(s.file("keep"), b"x").map_err(|e| e.to_string())?;
    must("delete", || DiskStore::<El<N>>::delete(s.cfg("t", 0)))?;
    ck!(!s.file("t").exists() && s.file("keep").exists(), "delete");
    must_err("delete of a missing file", || DiskStore::<El<N>>::delete(s.cfg("t", 0)))?;
    // level cache reopen through its configuration
    for d in 0..r.len().saturating_sub(1) {
        let s = Scratch::new();
        let t0 = must("build", || build::<N, A, LC<N>, U>(0, &inp, Some(s.cfg("t", d))))?;
        let root = t0.root();
        drop(t0);
        let rep = s.replica("replica", &to_bytes(&r[0]));
        let st = must("new_from_disk_with_reader", || LC::<N>::new_from_disk_with_reader(len, b, &s.cfg("t", d), ext(&rep, 0)?))?;
        let t = must("from_data_store", || MerkleTree::<El<N>, A, LC<N>, U>::from_data_store(st, n))?;
        check_sizes(&t, &r)?;
        ck!(t.root() == root, "root of the reopened level cache tree");
        for o in [len - 1, len + 1, len + 2, 1] {
            must_err("level cache opened with another size", || LC::<N>::new_from_disk_with_reader(o, b, &s.cfg("t", d), ext(&rep, 0)?))?;
        }
        must_err("level cache, missing file", || LC::<N>::new_from_disk(len, b, &s.cfg("missing", d)))?;
        ck!(!s.file("missing").exists(), "refused open created a file");
        must_err("level cache, missing file", || LC::<N>::new_from_disk_with_reader(len, b, &s.cfg("missing", d), ext(&rep, 0)?))?;
        ck!(!s.file("missing").exists(), "refused open created a file");
    }
    Ok(cnt)
}
pub fn c10(c: &mut Ctx) {
    let seed = c.seed + 10;
    for b in [2usize, 4, 8, 16] {
        for n in sizes(b, 1 << 12) {
            c.case(format!("C10 arity={} leafs={}", b, n), || by_arity!(b, U => c10_one::<8, HAlg<8>, U>(n, b, seed)));
            if n <= 600 {
                c.case(format!("C10 arity={} leafs={} el=5", b, n), || by_arity!(b, U => c10_one::<5, HAlg<5>, U>(n, b, seed)));
            }
        }
    }
    c.case("C10 arity=8 leafs=32768".into(), || c10_one::<8, HAlg<8>, U8>(32768, 8, seed));
}

// ---------------------------------------------------------------- C11
fn c11_tree<const N: usize, A: Oracle<N>, U: Unsigned>(n: usize, b: usize, seed: u64) -> Result<u64, String>
where
    Vec<u8>: Hashable<A>,
{
    let mut inp = input::<N, A>(n, seed);
    // equal data at several positions
    let d = inp.data[0].clone();
    for i in [1, n / 2, n - 1] {
        inp.data[i] = d.clone();
        inp.items[i] = inp.items[0];
    }
    let r = rows::<N, A>(leaf_row::<N, A>(&inp, 4), b);
    let s = Scratch::new();
    let t = must("from_data", || build::<N, A, VecStore<El<N>>, U>(4, &inp, None))?;
    check_full(&t, &r)?;
    let t2 = must("from_data_with_config", || build::<N, A, DiskStore<El<N>>, U>(4, &inp, Some(s.cfg("t", 0))))?;
    check_full(&t2, &r)?;
    let t3 = must("from_par_iter", || build::<N, A, VecStore<El<N>>, U>(2, &inp, None))?;
    check_full(&t3, &r)?;
    for i in (0..n).filter(|i| n <= 64 || i % 97 == 0 || *i == n - 1) {
        let p = must("gen_proof", || t.gen_proof(i))?;
        ck!(must("validate_with_data", || p.validate_with_data::<A>(&inp.data[i]))?, "data {} rejected", i);
        let j = (i + 2) % n;
        ck!(must("validate_with_data", || p.validate_with_data::<A>(&inp.data[j]))? == (inp.data[i] == inp.data[j]), "proof {} with data {}", i, j);
        let mut w = inp.data[i].clone();
        w.push(0);
        ck!(!must("validate_with_data", || p.validate_with_data::<A>(&w))?, "longer data accepted");
        // right data, broken proof
        for k in 1..p.lemma().len() {
            let mut q = p.clone();
            q.lemma_mut()[k].0[0] ^= 1;
            ck!(!must("validate_with_data", || q.validate_with_data::<A>(&inp.data[i]))?, "broken proof accepted with data");
        }
        let mut q = p.clone();
        q.lemma_mut()[0].0[0] ^= 1;
        ck!(!must("validate_with_data", || q.validate_with_data::<A>(&inp.data[i]))?, "broken proof accepted with data");
    }
    Ok(n as u64)
}
fn c11_alg<const N: usize>(seed: u64) -> Result<u64, String> {
    let mut rg = Rng::new(seed);
    type D<const N: usize> = DAlg<N>;
    for k in 0..70usize {
        let v: Vec<El<N>> = rg.els(k);
        for h in [0usize, 1, 5, 40] {
            let mut a = D::<N>::default();
            ck!(a.multi_node(&v, h) == D::<N>::o_node(&v, h), "default multi_node of {} children at height {}", k, h);
        }
        if k >= 2 {
            let mut a = D::<N>::default();
            ck!(a.node(v[0], v[1], k) == D::<N>::o_node(&v[..2], k), "default node at height {}", k);
        }
        if k >= 1 {
            let mut a = D::<N>::default();
            ck!(a.leaf(v[0]) == D::<N>::o_leaf(&v[0]), "default leaf");
            // reset gives a fresh state whatever was written
            a.write(&[1, 2, 3]);
            Algorithm::<El<N>>::reset(&mut a);
            ck!(a == D::<N>::default(), "reset does not give the initial state");
            ck!(a.leaf(v[0]) == D::<N>::o_leaf(&v[0]), "leaf after reset");
        }
    }
    Ok(70)
}
pub fn c11(c: &mut Ctx) {
    let seed = c.seed + 11;
    c.case("C11 default algorithm el=32".into(), || c11_alg::<32>(seed));
    c.case("C11 default algorithm el=5".into(), || c11_alg::<5>(seed));
    for b in [2usize, 4, 8, 16] {
        for n in sizes(b, 1 << 13) {
            if n < 4 {
                continue;
            }
            c.case(format!("C11 arity={} leafs={} default hashing", b, n), || by_arity!(b, U => c11_tree::<32, DAlg<32>, U>(n, b, seed)));
            c.case(format!("C11 arity={} leafs={} own hashing", b, n), || by_arity!(b, U => c11_tree::<8, HAlg<8>, U>(n, b, seed)));
        }
    }
    // data blocks beyond the populate buffer
    c.case("C11 arity=8 leafs=262144 from_data".into(), || c11_big::<U8>(1 << 18, 8, seed));
    c.case("C11 arity=2 leafs=524288 from_data".into(), || c11_big::<U2>(1 << 19, 2, seed));
    // compound proofs with data
    macro_rules! comp { ($($b:ident $s:ident $t:ident $n:expr;)*) => { $(
        c.case(format!("C11 compound base={} sub={} top={} leafs={}", <$b>::to_usize(), <$s>::to_usize(), <$t>::to_usize(), $n), || {
            let (s, t) = (<$s>::to_usize(), <$t>::to_usize());
            let k = s * t.max(1);
            let inps = inputs::<8, DAlg<8>>(k, $n, seed);
            let m = cmodel::<8, DAlg<8>>(&inps, <$b>::to_usize(), s, t, 4);
            let mut v = vec![];
            for i in inps.iter() { v.push(must("from_data", || build::<8, DAlg<8>, VecStore<El<8>>, $b>(4, i, None))?); }
            type T<W> = MerkleTree<El<8>, DAlg<8>, VecStore<El<8>>, $b, $s, W>;
            let check = |gp: &dyn Fn(usize) -> anyhow::Result<merkletree::proof::Proof<El<8>, $b>>| -> Result<(), String> {
                for i in 0..k * $n {
                    let p = must("gen_proof", || gp(i))?;
                    ck!(p.root() == m.root, "root");
                    let d = &inps[i / $n].data[i % $n];
                    ck!(must("validate_with_data", || p.validate_with_data::<DAlg<8>>(d))?, "leaf data {} rejected by its own compound proof", i);
                    let mut w = d.clone(); w.push(9);
                    ck!(!must("validate_with_data", || p.validate_with_data::<DAlg<8>>(&w))?, "other data accepted");
                }
                Ok(())
            };
            if t == 0 { let x: T<U0> = must("from_trees", || MerkleTree::from_trees(v))?; check(&|i| x.gen_proof(i))?; }
            else { let x: T<$t> = must("from_sub_trees_as_trees", || MerkleTree::from_sub_trees_as_trees(v))?; check(&|i| x.gen_proof(i))?; }
            Ok(1)
        });
    )* } }
    comp! { U2 U2 U0 8; U4 U3 U0 16; U2 U2 U2 8; U8 U4 U2 8; }
}
fn c11_big<U: Unsigned>(n: usize, b: usize, seed: u64) -> Result<u64, String> {
    let inp = input::<8, HAlg<8>>(n, seed);
    let r = rows::<8, HAlg<8>>(leaf_row::<8, HAlg<8>>(&inp, 4), b);
    check_full(&must("from_data", || build::<8, HAlg<8>, VecStore<El<8>>, U>(4, &inp, None))?, &r)?;
    Ok(n as u64)
}

// ---------------------------------------------------------------- C12
#[derive(Default, Clone, PartialEq, Eq, Debug)]
struct Rec(Vec<u8>);
impl Hasher for Rec {
    fn write(&mut self, b: &[u8]) {
        self.0.extend_from_slice(b)
    }
    fn finish(&self) -> u64 {
        0
    }
}
fn enc<T: ?Sized + Hashable<Rec>>(x: &T) -> Vec<u8> {
    let mut r = Rec::default();
    x.hash(&mut r);
    r.0
}
pub fn c12(c: &mut Ctx) {
    let seed = c.seed + 12;
    macro_rules! ints { ($($t:ty),*) => { $(
        c.case(format!("C12 {}", stringify!($t)), || {
            let mut rg = Rng::new(seed);
            let mut vals: Vec<$t> = vec![0 as $t, 1 as $t, <$t>::MAX, <$t>::MIN, <$t>::MAX - 1, (<$t>::MAX / 3) as $t];
            for _ in 0..70000 { vals.push(((rg.next() as u128) << 64 | rg.next() as u128) as $t); }
            for v in vals.iter().take(2000) {
                ck!(enc(v) == v.to_ne_bytes(), "{} {} written as {:?}", stringify!($t), v, enc(v));
                ck!(enc(&v) == v.to_ne_bytes() && enc(&&v) == v.to_ne_bytes(), "reference to {}", v);
                let mut w = *v;
                ck!(enc(&&mut w) == v.to_ne_bytes(), "mutable reference");
                ck!(enc(&(*v,)) == v.to_ne_bytes(), "1-tuple");
                let mut e = v.to_ne_bytes().to_vec(); e.push(7);
                ck!(enc(&(*v, 7u8)) == e, "2-tuple");
            }
            for k in (0..70usize).chain([127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 2048, 4096, 4097, 8192, 16384, 32768, 65535, 65536, 65537, 70000]) {
                for st in [0usize, 1, 3] {
                    if st + k <= vals.len() {
                        let sl = &vals[st..st + k];
                        let want: Vec<u8> = sl.iter().flat_map(|x| x.to_ne_bytes()).collect();
                        ck!(enc(sl) == want, "slice of {} {} written as {:?}, expected {:?}", k, stringify!($t), enc(sl), want);
                        let mut r = Rec::default();
                        <$t as Hashable<Rec>>::hash_slice(sl, &mut r);
                        ck!(r.0 == want, "hash_slice");
                    }
                }
            }
            Ok(2240)
        });
    )* } }
    ints!(u8, u16, u32, u64, usize, i8, i16, i32, i64, isize, u128, i128);
    c.case("C12 bytes, text, bool, char, arrays".into(), || {
        let mut rg = Rng::new(seed);
        for k in 0..64usize {
            let v: Vec<u8> = (0..k).map(|_| rg.next() as u8).collect();
            ck!(enc(&v) == v, "Vec<u8>");
            ck!(enc(&v[..]) == v, "[u8]");
            let s: String = (0..k).map(|_| char::from_u32(0x20 + rg.below(0x3000) as u32).unwrap_or('x')).collect();
            ck!(enc(&s) == s.as_bytes(), "String");
            ck!(enc(s.as_str()) == s.as_bytes(), "str");
        }
        ck!(enc(&true) == [1] && enc(&false) == [0], "bool");
        for x in ['\0', 'a', 'ß', '€', '\u{10FFFF}', '\u{D7FF}', '\u{E000}'] {
            ck!(enc(&x) == (x as u32).to_ne_bytes(), "char {:?}", x);
        }
        ck!(enc(&[true, false, true][..]) == [1, 0, 1], "[bool]");
        ck!(enc(&['a', 'b'][..]) == [('a' as u32).to_ne_bytes(), ('b' as u32).to_ne_bytes()].concat(), "[char]");
        macro_rules! arr { ($($n:expr),*) => { $( {
            let mut a = [[0u8; $n]; 5];
            for r in a.iter_mut() { for x in r.iter_mut() { *x = rg.next() as u8; } }
            ck!(enc(&a[0]) == a[0].to_vec(), "[u8; {}]", $n);
            for k in 0..=5 { ck!(enc(&a[..k]) == a[..k].concat(), "slice of {} [u8; {}]", k, $n); }
        } )* } }
        arr!(0, 1, 2, 3, 5, 8, 16, 20, 32, 33, 64);
        let vv = vec![vec![1u8, 2], vec![], vec![3]];
        ck!(enc(&vv[..]) == [1, 2, 3], "[Vec<u8>]");
        let ss = ["ab", "", "c"];
        ck!(enc(&ss[..]) == b"abc", "[&str]");
        let sg = [String::from("ab"), String::from("c")];
        ck!(enc(&sg[..]) == b"abc", "[String]");
        Ok(64)
    });
    c.case("C12 tuples".into(), || {
        ck!(enc(&()).is_empty(), "unit");
        ck!(enc(&(1u8, 2u16, 3u32)) == [vec![1u8], 2u16.to_ne_bytes().to_vec(), 3u32.to_ne_bytes().to_vec()].concat(), "3-tuple");
        ck!(enc(&(1u8, 2u8, 3u8, 4u8)) == [1, 2, 3, 4], "4-tuple");
        ck!(enc(&(1u8, 2u8, 3u8, 4u8, 5u8)) == [1, 2, 3, 4, 5], "5-tuple");
        ck!(enc(&(1u8, 2u8, 3u8, 4u8, 5u8, 6u8)) == [1, 2, 3, 4, 5, 6], "6-tuple");
        ck!(enc(&(1u8, 2u8, 3u8, 4u8, 5u8, 6u8, 7u8)) == [1, 2, 3, 4, 5, 6, 7], "7-tuple");
        ck!(enc(&(1u8, 2u8, 3u8, 4u8, 5u8, 6u8, 7u8, 8u8)) == [1, 2, 3, 4, 5, 6, 7, 8], "8-tuple");
        ck!(enc(&(1u8, 2u8, 3u8, 4u8, 5u8, 6u8, 7u8, 8u8, 9u8)) == [1, 2, 3, 4, 5, 6, 7, 8, 9], "9-tuple");
        ck!(enc(&(1u8, 2u8, 3u8, 4u8, 5u8, 6u8, 7u8, 8u8, 9u8, 10u8)) == [1, 2, 3, 4, 5, 6, 7, 8, 9, 10], "10-tuple");
        ck!(enc(&(1u8, 2u8, 3u8, 4u8, 5u8, 6u8, 7u8, 8u8, 9u8, 10u8, 11u8)) == [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11], "11-tuple");
        ck!(enc(&(1u8, 2u8, 3u8, 4u8, 5u8, 6u8, 7u8, 8u8, 9u8, 10u8, 11u8, 12u8)) == [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12], "12-tuple");
        ck!(enc(&("ab", 3u8, String::from("c"), true)) == [97, 98, 3, 99, 1], "mixed tuple");
        ck!(enc(&[(1u8, 2u16), (3u8, 4u16)][..]) == [vec![1u8], 2u16.to_ne_bytes().to_vec(), vec![3u8], 4u16.to_ne_bytes().to_vec()].concat(), "slice of tuples");
        ck!(enc(&((1u8, 2u8), (3u8, "x"))) == [1, 2, 3, 120], "nested tuple");
        let x = 5u32;
        let p = &x as *const u32;
        ck!(enc(&p) == (p as usize).to_ne_bytes(), "thin pointer");
        let q = p as *mut u32;
        ck!(enc(&q) == (p as usize).to_ne_bytes(), "thin mut pointer");
        let sl: &[u16] = &[1, 2, 3];
        let fp = sl as *const [u16];
        ck!(enc(&fp) == [(sl.as_ptr() as usize).to_ne_bytes(), 3usize.to_ne_bytes()].concat(), "fat pointer");
        let fm = fp as *mut [u16];
        ck!(enc(&fm) == [(sl.as_ptr() as usize).to_ne_bytes(), 3usize.to_ne_bytes()].concat(), "fat mut pointer");
        Ok(20)
    });
}

// ---------------------------------------------------------------- C13
fn drain<P: Producer<Item = El<8>>>(p: P, pat: u64) -> (Vec<El<8>>, bool)
where
    P::IntoIter: ExactSizeIterator + DoubleEndedIterator,
{
    let mut it = p.into_iter();
    let (mut f, mut b) = (vec![], vec![]);
    let mut ok = true;
    let mut k = 0;
    loop {
        let l = it.len();
        let x = if pat >> (k % 64) & 1 == 0 {
            let x = it.next();
            if let Some(x) = x {
                f.push(x);
            }
            x
        } else {
            let x = it.next_back();
            if let Some(x) = x {
                b.push(x);
            }
            x
        };
        ok &= if x.is_some() { it.len() + 1 == l } else { l == 0 };
        if x.is_none() {
            ok &= it.next().is_none() && it.next_back().is_none();
            break;
        }
        k += 1;
        if k > 100_000 {
            return (f, false);
        }
    }
    b.reverse();
    f.extend(b);
    (f, ok)
}
fn split_all<P: Producer<Item = El<8>>>(p: P, len: usize, rg: &mut Rng, depth: usize, out: &mut Vec<El<8>>) -> Result<(), String>
where
    P::IntoIter: ExactSizeIterator + DoubleEndedIterator,
{
    if depth == 0 || rg.below(4) == 0 {
        let (v, ok) = drain(p, rg.next());
        ck!(ok, "a part of {} elements reports wrong lengths or does not stop", len);
        ck!(v.len() == len, "a part of {} elements yields {}", len, v.len());
        out.extend(v);
        return Ok(());
    }
    let at = rg.below(len + 1);
    let (a, b) = p.split_at(at);
    split_all(a, at, rg, depth - 1, out)?;
    split_all(b, len - at, rg, depth - 1, out)
}
fn c13_store<S>(s: &S, els: &[El<8>], seed: u64, exh: bool) -> Result<u64, String>
where
    S: Store<El<8>> + ProdOf,
{
    let n = els.len();
    let mut cnt = 0;
    if exh {
        // all sub ranges, all front/back patterns, all single splits
        for a in 0..=n {
            for e in a..=n {
                for pat in 0..(1u64 << (e - a)) {
                    let (v, ok) = s.drain(a, e, pat);
                    ck!(ok && v == els[a..e], "iterating {}..{} with pattern {:b} yields {:?}", a, e, pat, v);
                    cnt += 1;
                }
                for at in 0..=(e - a) + 1 {
                    let m = at.min(e - a);
                    let (l, r) = s.split(a, e, at);
                    ck!(l == els[a..a + m] && r == els[a + m..e], "splitting {}..{} at {}", a, e, at);
                }
                ck!(s.plen(a, e) == e - a, "producer length");
            }
        }
    }
    let mut rg = Rng::new(seed);
    for _ in 0..60 {
        let mut out = vec![];
        s.tree(&mut rg, n, &mut out)?;
        ck!(out == els, "random splitting of {} elements loses the order or elements", n);
        cnt += 1;
    }
    Ok(cnt)
}
trait ProdOf {
    fn drain(&self, a: usize, e: usize, pat: u64) -> (Vec<El<8>>, bool);
    fn split(&self, a: usize, e: usize, at: usize) -> (Vec<El<8>>, Vec<El<8>>);
    fn plen(&self, a: usize, e: usize) -> usize;
    fn tree(&self, rg: &mut Rng, n: usize, out: &mut Vec<El<8>>) -> Result<(), String>;
    fn par(&self) -> (Vec<El<8>>, usize, Option<usize>);
    fn par_rev(&self) -> Vec<El<8>>;
}
macro_rules! prodof { ($S:ident, $P:ident) => {
impl ProdOf for $S<El<8>> {
    fn drain(&self, a: usize, e: usize, pat: u64) -> (Vec<El<8>>, bool) {
        drain($P::new(a, e, self), pat)
    }
    fn split(&self, a: usize, e: usize, at: usize) -> (Vec<El<8>>, Vec<El<8>>) {
        let (l, r) = Producer::split_at($P::new(a, e, self), at);
        (Producer::into_iter(l).collect(), Producer::into_iter(r).collect())
    }
    fn plen(&self, a: usize, e: usize) -> usize {
        let p = $P::new(a, e, self);
        if p.is_empty() != (p.len() == 0) { return usize::MAX; }
        p.len()
    }
    fn tree(&self, rg: &mut Rng, n: usize, out: &mut Vec<El<8>>) -> Result<(), String> {
        split_all($P::new(0, n, self), n, rg, 5, out)
    }
    fn par(&self) -> (Vec<El<8>>, usize, Option<usize>) {
        let l = IndexedParallelIterator::len(&self);
        let o = ParallelIterator::opt_len(&self);
        let v: Vec<El<8>> = ParallelIterator::map(self, |x| x).collect();
        (v, l, o)
    }
    fn par_rev(&self) -> Vec<El<8>> {
        IndexedParallelIterator::rev(self).collect()
    }
}
} }
prodof!(VecStore, VecStoreProducer);
prodof!(DiskStore, DiskStoreProducer);
pub fn c13(c: &mut Ctx) {
    let seed = c.seed + 13;
    for (n, lo, hi) in [(4usize, 0usize, 2usize), (4, 0, 3), (4, 2, 4), (6, 1, 4), (3, 0, 3), (1, 0, 1)] {
        c.case(format!("C13 disk part [{}, {}) of {} with unreadable elements", lo, hi, n), || c13_fail(n, lo, hi, seed));
    }
    for n in [0usize, 1, 2, 3, 5, 7, 17, 100, 1000, 5000] {
        let exh = n <= 7;
        let mk = |n: usize| -> Vec<El<8>> { Rng::new(seed + n as u64).els(n) };
        c.case(format!("C13 vec len={}", n), || {
            let v = mk(n);
            let s: VecStore<El<8>> = must("new_from_slice", || VecStore::new_from_slice(n, &to_bytes(&v)))?;
            c13_store(&s, &v, seed, exh)
        });
        c.case(format!("C13 disk len={}", n), || {
            let v = mk(n);
            let s: DiskStore<El<8>> = must("new_from_slice", || DiskStore::new_from_slice(n + 3, &to_bytes(&v)))?;
            c13_store(&s, &v, seed, exh)
        });
        for th in [1usize, 2, 5, 8] {
            c.case(format!("C13 parallel len={} threads={}", n, th), || {
                let v = mk(n);
                let p = rayon::ThreadPoolBuilder::new().num_threads(th).build().map_err(|e| e.to_string())?;
                p.install(|| -> Result<u64, String> {
                    let s: VecStore<El<8>> = must("new_from_slice", || VecStore::new_from_slice(n, &to_bytes(&v)))?;
                    let d: DiskStore<El<8>> = must("new_from_slice", || DiskStore::new_from_slice(n + 3, &to_bytes(&v)))?;
                    for (name, (x, l, o)) in [("vec", s.par()), ("disk", d.par())] {
                        ck!(x == v && l == n && o == Some(n), "{}: parallel iteration gives {} elements (len {}, opt_len {:?}), order {}", name, x.len(), l, o, x == v);
                    }
                    let mut rv = v.clone();
                    rv.reverse();
                    ck!(s.par_rev() == rv && d.par_rev() == rv, "reverse parallel iteration");
                    ck!(IndexedParallelIterator::len(&s) == n && IndexedParallelIterator::len(&d) == n, "len of the owned iterators");
                    ck!(ParallelIterator::opt_len(&s) == Some(n) && ParallelIterator::opt_len(&d) == Some(n), "opt_len of the owned iterators");
                    let z: Vec<El<8>> = ParallelIterator::map(s, |x| x).collect();
                    ck!(z == v, "owned parallel iteration of a vec store");
                    let z: Vec<El<8>> = ParallelIterator::map(d, |x| x).collect();
                    ck!(z == v, "owned parallel iteration of a disk store");
                    Ok(1)
                })
            });
        }
    }
}

/// a part of [lo, hi) of n elements, read while the file is cut so that element lo+1 on cannot be read,
/// then from the whole file again: nothing outside the part, nothing twice
fn c13_fail(n: usize, lo: usize, hi: usize, seed: u64) -> Result<u64, String> {
    use std::fs;
    let s = Scratch::new();
    let cfg = s.cfg("t", 0);
    let v: Vec<El<8>> = Rng::new(seed).els(n);
    let d: DiskStore<El<8>> = must("new_from_slice_with_config", || DiskStore::new_from_slice_with_config(n, 2, &to_bytes(&v), cfg.clone()))?;
    let p = StoreConfig::data_path(&cfg.path, &cfg.id);
    let whole = fs::read(&p).map_err(|e| e.to_string())?;
    for cut in lo..=hi {
        for script in 0..64u32 {
            let pr = DiskStoreProducer::new(lo, hi, &d);
            let mut it = pr.into_iter();
            let f = fs::OpenOptions::new().write(true).open(&p).map_err(|e| e.to_string())?;
            f.set_len((cut * 8) as u64).map_err(|e| e.to_string())?;
            drop(f);
            let (mut a, mut b) = (lo, hi);
            for k in 0..8 {
                if k == 3 {
                    fs::write(&p, &whole).map_err(|e| e.to_string())?;
                }
                let back = script >> (k % 6) & 1 == 1;
                let r = quiet_call(|| if back { it.next_back() } else { it.next() })?;
                match r {
                    Some(x) => {
                        ck!(a < b, "part [{}, {}) of {} yields one more element after it is exhausted (cut at {}, script {:b}, call {})", lo, hi, n, cut, script, k);
                        if back { b -= 1 } else { a += 1 }
                        ck!(x == v[if back { b } else { a - 1 }], "part [{}, {}) of {}: wrong element (cut at {}, script {:b}, call {})", lo, hi, n, cut, script, k);
                    }
                    None => {}
                }
            }
            fs::write(&p, &whole).map_err(|e| e.to_string())?;
        }
    }
    Ok(64)
}
fn quiet_call<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|_| "iteration panics".to_string())
}

// ---------------------------------------------------------------- C14
fn c14_one<const N: usize, A: Oracle<N>, S: Store<El<N>>, U: Unsigned>(n: usize, b: usize, seed: u64, cfg: bool, d: usize) -> Result<u64, String>
where
    Vec<u8>: Hashable<A>,
{
    let inp = input::<N, A>(n, seed);
    for ctor in 0..CTORS.len() {
        let s = Scratch::new();
        must_err(&format!("{} of {} leafs, arity {}", CTORS[ctor], n, b), || build::<N, A, S, U>(ctor, &inp, if cfg { Some(s.cfg("t", d)) } else { None }))?;
        // what a refused call leaves behind does not make the next one accept
        if cfg && n < 200 {
            must_err(&format!("{} of {} leafs, arity {}, second attempt", CTORS[ctor], n, b), || build::<N, A, S, U>(ctor, &inp, Some(s.cfg("t", d))))?;
        }
    }
    Ok(6)
}
fn c14_err<const N: usize, A: Oracle<N>, S: Store<El<N>>, U: Unsigned>(n: usize, pos: usize, seed: u64, cfg: bool) -> Result<u64, String> {
    let it = |k: usize| {
        let mut rg = Rng::new(seed);
        (0..n).map(move |i| if i == k { Err(anyhow::anyhow!("item {}", i)) } else { Ok(rg.el::<N>()) }).collect::<Vec<_>>()
    };
    let s = Scratch::new();
    if cfg {
        must_err(&format!("iterator failing at {} of {}", pos, n), || MerkleTree::<El<N>, A, S, U>::try_from_iter_with_config(it(pos), s.cfg("t", 0)))?;
    } else {
        must_err(&format!("iterator failing at {} of {}", pos, n), || MerkleTree::<El<N>, A, S, U>::try_from_iter(it(pos)))?;
    }
    Ok(1)
}
/// announces n, yields k < n
struct Short(usize, usize, Rng);
impl Iterator for Short {
    type Item = anyhow::Result<El<8>>;
    fn next(&mut self) -> Option<Self::Item> {
        if self.1 == 0 {
            return None;
        }
        self.1 -= 1;
        Some(Ok(self.2.el()))
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        (0, Some(self.0))
    }
}
fn tr<const N: usize, A: Oracle<N>, U: Unsigned>(n: usize, seed: u64) -> MerkleTree<El<N>, A, VecStore<El<N>>, U>
where
    Vec<u8>: Hashable<A>,
{
    build::<N, A, VecStore<El<N>>, U>(0, &input::<N, A>(n, seed), None).expect("tree")
}
pub fn c14(c: &mut Ctx) {
    let seed = c.seed + 14;
    for b in [2usize, 4, 8, 16, 32] {
        let mut bad: Vec<usize> = (0..40).chain([48, 63, 65, 96, 100, 128, 256, 512, 513, 1000, 1024, 1025, 2048, 2049, 4096, 4097, 6144, 8192, 12288, 16384, 32768]).filter(|n| *n < 2 || *n < b || !is_pow(*n, b)).collect();
        bad.dedup();
        for n in bad {
            c.case(format!("C14 arity={} leafs={}", b, n), || {
                by_arity!(b, U => {
                    let mut k = c14_one::<8, HAlg<8>, VecStore<El<8>>, U>(n, b, seed, false, 0)?;
                    k += c14_one::<8, HAlg<8>, VecStore<El<8>>, U>(n, b, seed, true, 0)?;
                    k += c14_one::<8, HAlg<8>, DiskStore<El<8>>, U>(n, b, seed, false, 0)?;
                    k += c14_one::<8, HAlg<8>, DiskStore<El<8>>, U>(n, b, seed, true, 0)?;
                    k += c14_one::<8, HAlg<8>, MmapStore<El<8>>, U>(n, b, seed, false, 0)?;
                    k += c14_one::<8, HAlg<8>, MmapStore<El<8>>, U>(n, b, seed, true, 0)?;
                    k += c14_one::<8, HAlg<8>, LC<8>, U>(n, b, seed, true, 0)?;
                    k += c14_one::<8, HAlg<8>, LC<8>, U>(n, b, seed, true, 1)?;
                    Ok(k)
                })
            });
        }
        for n in sizes(b, 5000) {
            c.case(format!("C14 arity={} leafs={} data length mismatch", b, n), || {
                by_arity!(b, U => c14_lens::<U>(n, b, seed))
            });
            for pos in [0usize, 1, n / 2, n - 1] {
                c.case(format!("C14 arity={} leafs={} iterator error at {}", b, n, pos), || {
                    by_arity!(b, U => {
                        for cfg in [false, true] {
                            c14_err::<8, HAlg<8>, VecStore<El<8>>, U>(n, pos, seed, cfg)?;
                            c14_err::<8, HAlg<8>, DiskStore<El<8>>, U>(n, pos, seed, cfg)?;
                            c14_err::<8, HAlg<8>, MmapStore<El<8>>, U>(n, pos, seed, cfg)?;
                            c14_err::<8, HAlg<8>, LC<8>, U>(n, pos, seed, cfg)?;
                        }
                        Ok(8)
                    })
                });
            }
        }
    }
    c.case("C14 late iterator error".into(), || {
        let n = 1 << 19;
        c14_err::<8, HAlg<8>, VecStore<El<8>>, U2>(n, n - 1, seed, false)?;
        c14_err::<8, HAlg<8>, DiskStore<El<8>>, U2>(n, (1 << 18) + 5, seed, true)?;
        c14_err::<8, HAlg<8>, VecStore<El<8>>, U2>(n, 1 << 18, seed, true)
    });
    c.case("C14 compound".into(), || {
        type B = MerkleTree<El<8>, HAlg<8>, VecStore<El<8>>, U2>;
        type S3 = MerkleTree<El<8>, HAlg<8>, VecStore<El<8>>, U2, U3>;
        type T = MerkleTree<El<8>, HAlg<8>, VecStore<El<8>>, U2, U3, U2>;
        let t = |n: usize, s: u64| -> B { tr::<8, HAlg<8>, U2>(n, s) };
        for k in [0usize, 1, 2, 4, 5, 6, 7] {
            must_err(&format!("from_trees of {} for 3", k), || S3::from_trees((0..k).map(|i| t(8, i as u64)).collect()))?;
        }
        for pat in [[8usize, 8, 16], [8, 16, 8], [16, 8, 8], [4, 8, 16], [8, 4, 4]] {
            must_err(&format!("from_trees of sizes {:?}", pat), || S3::from_trees(pat.iter().map(|n| t(*n, *n as u64)).collect()))?;
        }
        for k in [0usize, 1, 2, 3, 4, 5, 7, 8, 12] {
            must_err(&format!("from_sub_trees_as_trees of {} for 6", k), || T::from_sub_trees_as_trees((0..k).map(|i| t(8, i as u64)).collect()))?;
        }
        for odd in 0..6usize {
            must_err("from_sub_trees_as_trees of unequal sizes", || T::from_sub_trees_as_trees((0..6).map(|i| t(if i == odd { 16 } else { 8 }, i as u64)).collect()))?;
        }
        let s = |n: usize, s: u64| -> S3 { S3::from_trees((0..3).map(|i| t(n, s * 10 + i)).collect()).expect("sub") };
        for k in [0usize, 1, 3, 4] {
            must_err(&format!("from_sub_trees of {} for 2", k), || T::from_sub_trees((0..k).map(|i| s(8, i as u64)).collect()))?;
        }
        must_err("from_sub_trees of unequal sizes", || T::from_sub_trees(vec![s(8, 0), s(16, 1)]))?;
        must_err("from_sub_trees of unequal sizes", || T::from_sub_trees(vec![s(16, 0), s(8, 1)]))?;
        // wrong kind of structure
        must_err("from_trees without sub arity", || B::from_trees(vec![t(8, 0)]))?;
        must_err("from_sub_trees without top arity", || MerkleTree::<El<8>, HAlg<8>, VecStore<El<8>>, U2, U3>::from_sub_trees(vec![s(8, 0)]))?;
        must_err("from_sub_trees_as_trees without top arity", || S3::from_sub_trees_as_trees((0..3).map(|i| t(8, i)).collect()))?;
        let f: Vec<u8> = to_bytes(&flat(&rows::<8, HAlg<8>>(leaf_row::<8, HAlg<8>>(&input::<8, HAlg<8>>(8, 1), 0), 2)));
        must_err("from_slices of 2 for 3", || S3::from_slices(&[&f, &f], 8))?;
        must_err("from_slices with a short slice", || S3::from_slices(&[&f, &f, &f[8..]], 8))?;
        must_err("from_slices with a partial element", || S3::from_slices(&[&f, &f[..f.len() - 1], &f], 8))?;
        must_err("from_data_store with sub arity", || S3::from_data_store(VecStore::new_from_slice(15, &f)?, 8))?;
        must_err("from_tree_slice with sub arity", || S3::from_tree_slice(&f, 8))?;
        let sc = Scratch::new();
        let cf: Vec<StoreConfig> = (0..2).map(|i| sc.cfg(&format!("{}", i), 0)).collect();
        must_err("from_slices_with_configs with too few configs", || MerkleTree::<El<8>, HAlg<8>, DiskStore<El<8>>, U2, U3>::from_slices_with_configs(&[&f, &f, &f], 8, &cf))?;
        // stores of other sizes
        let mk = |l: usize| -> VecStore<El<8>> { VecStore::new_from_slice(l, &vec![3u8; l * 8]).expect("store") };
        must_err("from_stores of unequal sizes", || S3::from_stores(8, vec![mk(15), mk(15), mk(31)]))?;
        must_err("from_stores of 2 for 3", || S3::from_stores(8, vec![mk(15), mk(15)]))?;
        // persisted parts: wrong numbers
        for i in 0..7 {
            drop(build::<8, HAlg<8>, DiskStore<El<8>>, U2>(0, &input::<8, HAlg<8>>(8, i), Some(sc.cfg(&format!("p{}", i), 0))).map_err(|e| e.to_string())?);
        }
        let cf: Vec<StoreConfig> = (0..7).map(|i| sc.cfg(&format!("p{}", i), 0)).collect();
        for k in [0usize, 1, 2, 4, 7] {
            must_err(&format!("from_store_configs of {} for 3", k), || MerkleTree::<El<8>, HAlg<8>, DiskStore<El<8>>, U2, U3>::from_store_configs(8, &cf[..k]))?;
        }
        for k in [0usize, 1, 2, 3, 4, 5, 7] {
            must_err(&format!("from_sub_tree_store_configs of {} for 6", k), || MerkleTree::<El<8>, HAlg<8>, DiskStore<El<8>>, U2, U3, U2>::from_sub_tree_store_configs(8, &cf[..k]))?;
        }
        must("from_sub_tree_store_configs", || MerkleTree::<El<8>, HAlg<8>, DiskStore<El<8>>, U2, U3, U2>::from_sub_tree_store_configs(8, &cf[..6]))?;
        must_err("from_sub_tree_store_configs without top arity", || MerkleTree::<El<8>, HAlg<8>, DiskStore<El<8>>, U2, U3>::from_sub_tree_store_configs(8, &cf[..6]))?;
        must_err("from_store_configs with another leaf count", || MerkleTree::<El<8>, HAlg<8>, DiskStore<El<8>>, U2, U3>::from_store_configs(16, &cf[..3]))?;
        let rep = sc.replica("r", &[0u8; 1000]);
        for k in [0usize, 2, 4] {
            let rc = ReplicaConfig::new(rep.clone(), vec![0; k]);
            must_err("offsets not matching the configs", || MerkleTree::<El<8>, HAlg<8>, LC<8>, U2, U3>::from_store_configs_and_replica(8, &cf[..3], &rc))?;
            must_err("offsets not matching the configs", || MerkleTree::<El<8>, HAlg<8>, LC<8>, U2, U3, U2>::from_sub_tree_store_configs_and_replica(8, &cf[..6], &rc))?;
        }
        Ok(60)
    });
}
fn c14_lens<U: Unsigned>(n: usize, b: usize, seed: u64) -> Result<u64, String> {
    let inp = input::<8, HAlg<8>>(n, seed);
    let r = rows::<8, HAlg<8>>(leaf_row::<8, HAlg<8>>(&inp, 0), b);
    let f = to_bytes(&flat(&r));
    let len = f.len() / 8;
    type V = VecStore<El<8>>;
    type D = DiskStore<El<8>>;
    // bytes that are no whole number of leaves
    let lb = to_bytes(&r[0]);
    for cut in [1usize, 3, 7, 8] {
        must_err("from_byte_slice, partial leaf", || MerkleTree::<El<8>, HAlg<8>, V, U>::from_byte_slice(&lb[..lb.len() - cut]))?;
        must_err("from_byte_slice, partial leaf", || MerkleTree::<El<8>, HAlg<8>, D, U>::from_byte_slice(&lb[..lb.len() - cut]))?;
        let s = Scratch::new();
        must_err("from_byte_slice_with_config, partial leaf", || MerkleTree::<El<8>, HAlg<8>, D, U>::from_byte_slice_with_config(&lb[..lb.len() - cut], s.cfg("t", 0)))?;
        must_err("from_tree_slice, short", || MerkleTree::<El<8>, HAlg<8>, V, U>::from_tree_slice(&f[..f.len() - cut], n))?;
        must_err("from_tree_slice, short", || MerkleTree::<El<8>, HAlg<8>, D, U>::from_tree_slice(&f[..f.len() - cut], n))?;
        must_err("from_tree_slice_with_config, short", || MerkleTree::<El<8>, HAlg<8>, D, U>::from_tree_slice_with_config(&f[..f.len() - cut], n, s.cfg("u", 0)))?;
        let mut g = f.clone();
        g.extend(vec![1u8; cut]);
        must_err("from_tree_slice, long", || MerkleTree::<El<8>, HAlg<8>, V, U>::from_tree_slice(&g, n))?;
        must_err("from_tree_slice, long", || MerkleTree::<El<8>, HAlg<8>, D, U>::from_tree_slice(&g, n))?;
        must_err("from_tree_slice_with_config, long", || MerkleTree::<El<8>, HAlg<8>, D, U>::from_tree_slice_with_config(&g, n, s.cfg("v", 0)))?;
    }
    for m in [0usize, 1, n / 2, n - 1, n + 1, n * 2, n * b, n / b] {
        if m == n {
            continue;
        }
        must_err(&format!("from_tree_slice announcing {} for {}", m, n), || MerkleTree::<El<8>, HAlg<8>, V, U>::from_tree_slice(&f, m))?;
        let s = Scratch::new();
        must_err(&format!("from_tree_slice_with_config announcing {} for {}", m, n), || MerkleTree::<El<8>, HAlg<8>, D, U>::from_tree_slice_with_config(&f, m, s.cfg("t", 0)))?;
        must_err(&format!("from_data_store announcing {} for {}", m, n), || MerkleTree::<El<8>, HAlg<8>, V, U>::from_data_store(V::new_from_slice(len, &f)?, m))?;
    }
    for l in [1usize, len - 1, len + 1, len + b] {
        must_err("from_data_store, store of another length", || MerkleTree::<El<8>, HAlg<8>, V, U>::from_data_store(V::new_from_slice(l, &vec![7u8; l * 8])?, n))?;
    }
    for k in [0usize, 1, n / 2, n - 1] {
        let s = Scratch::new();
        must_err("iterator shorter than announced", || MerkleTree::<El<8>, HAlg<8>, V, U>::try_from_iter(Short(n, k, Rng::new(seed))))?;
        must_err("iterator shorter than announced", || MerkleTree::<El<8>, HAlg<8>, D, U>::try_from_iter_with_config(Short(n, k, Rng::new(seed)), s.cfg("t", 0)))?;
        must_err("iterator shorter than announced", || MerkleTree::<El<8>, HAlg<8>, MmapStore<El<8>>, U>::try_from_iter(Short(n, k, Rng::new(seed))))?;
    }
    // the well-formed counterparts succeed
    check_full(&must("from_tree_slice", || MerkleTree::<El<8>, HAlg<8>, V, U>::from_tree_slice(&f, n))?, &r)?;
    check_full(&must("from_data_store", || MerkleTree::<El<8>, HAlg<8>, V, U>::from_data_store(V::new_from_slice(len, &f)?, n))?, &r)?;
    Ok(40)
}
