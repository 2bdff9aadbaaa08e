use crate::model::*;
use crate::trees::*;
use crate::{by_arity, ck, must, must_err, Ctx};
use merkletree::merkle::*;
use merkletree::proof::Proof;
use merkletree::store::*;
use std::fs::File;
use typenum::*;

fn one<const N: usize, A: Oracle<N>, U: Unsigned>(store: &str, ctor: usize, n: usize, b: usize, seed: u64) -> Result<u64, String>
where
    Vec<u8>: merkletree::hash::Hashable<A>,
{
    let inp = input::<N, A>(n, seed);
    let r = rows::<N, A>(leaf_row::<N, A>(&inp, ctor), b);
    let s = Scratch::new();
    match store {
        "vec" => check_full(&must("build", || build::<N, A, VecStore<El<N>>, U>(ctor, &inp, None))?, &r)?,
        "veccfg" => check_full(&must("build", || build::<N, A, VecStore<El<N>>, U>(ctor, &inp, Some(s.cfg("t", 0))))?, &r)?,
        "disk" => check_full(&must("build", || build::<N, A, DiskStore<El<N>>, U>(ctor, &inp, None))?, &r)?,
        "diskcfg" => {
            let t = must("build", || build::<N, A, DiskStore<El<N>>, U>(ctor, &inp, Some(s.cfg("t", 0))))?;
            check_full(&t, &r)?;
            drop(t);
            let got = std::fs::read(s.file("t")).map_err(|e| format!("data file: {}", e))?;
            ck!(got == to_bytes(&flat(&r)), "file of the persisted tree differs from the canonical tree");
        }
        "mmap" => check_full(&must("build", || build::<N, A, MmapStore<El<N>>, U>(ctor, &inp, None))?, &r)?,
        "mmapcfg" => check_full(&must("build", || build::<N, A, MmapStore<El<N>>, U>(ctor, &inp, Some(s.cfg("t", 0))))?, &r)?,
        "lc" => {
            let rc = r.len();
            // all usable numbers of discarded rows for small trees, one otherwise
            let ds: Vec<usize> = if n <= 2048 { (0..rc.saturating_sub(1)).collect() } else { vec![1.min(rc - 2), rc - 2] };
            for d in ds {
                let s = Scratch::new();
                let mut t = must("build", || build::<N, A, LC<N>, U>(ctor, &inp, Some(s.cfg("t", d))))?;
                check_sizes(&t, &r)?;
                let rep = s.replica("replica", &to_bytes(&r[0]));
                must("set_external_reader_path", || t.set_external_reader_path(&rep))?;
                let f = flat(&r);
                let cl = cache_len(n, b, d);
                let got = std::fs::read(s.file("t")).map_err(|e| format!("data file: {}", e))?;
                ck!(got == to_bytes(&f[f.len() - cl..]), "discarding {} rows: the file does not hold exactly the cached rows of the canonical tree", d);
                for i in [0, n - 1, f.len() - cl, f.len() - 1] {
                    let g = must("read_at", || t.read_at(i))?;
                    ck!(g == f[i], "read_at({}) is {:?}, expected {:?}", i, g, f[i]);
                }
            }
        }
        _ => unreachable!(),
    }
    Ok(1)
}

pub fn c01(c: &mut Ctx) {
    let seed = c.seed;
    let stores = ["vec", "veccfg", "disk", "diskcfg", "mmap", "mmapcfg", "lc"];
    for b in [2usize, 4, 8, 16, 32, 64, 128] {
        for n in sizes(b, 1 << 14) {
            for st in stores {
                for ctor in 0..CTORS.len() {
                    if n > 4096 && ctor != 0 && ctor != 2 && !c.thorough {
                        continue;
                    }
                    c.case(format!("C01 {} {} arity={} leafs={} el=8", st, CTORS[ctor], b, n), || {
                        by_arity!(b, U => one::<8, HAlg<8>, U>(st, ctor, n, b, seed))
                    });
                }
            }
        }
    }
    // other element sizes, default hashing scheme
    for (b, n) in [(2usize, 32usize), (4, 64), (8, 512), (2, 2048), (4, 4096), (8, 4096), (2, 8192)] {
        for st in stores {
            for ctor in 0..CTORS.len() {
                c.case(format!("C01 {} {} arity={} leafs={} el=5", st, CTORS[ctor], b, n), || {
                    by_arity!(b, U => one::<5, HAlg<5>, U>(st, ctor, n, b, seed))
                });
                c.case(format!("C01 {} {} arity={} leafs={} el=32 default-hashing", st, CTORS[ctor], b, n), || {
                    by_arity!(b, U => one::<32, DAlg<32>, U>(st, ctor, n, b, seed))
                });
            }
        }
    }
    // large arities and trees beyond every internal block size
    let mut big: Vec<(usize, usize)> = vec![
        (512, 512), (1024, 1024), (4096, 4096), (2, 1 << 15), (2, 1 << 18), (2, 1 << 19), (4, 1 << 18), (4, 1 << 20),
        (8, 1 << 18), (16, 1 << 16), (16, 1 << 20), (32, 1 << 15), (64, 1 << 18), (512, 1 << 18),
    ];
    if c.thorough {
        big.extend([(2, 1 << 20), (2, 1 << 21), (8, 1 << 21), (128, 1 << 21), (1024, 1 << 20), (32, 1 << 20)]);
    }
    for (b, n) in big {
        for st in ["vec", "disk", "mmap", "lc", "diskcfg"] {
            for ctor in [0usize, 2, 3] {
                if n >= 1 << 18 && ((ctor == 3 && st != "disk") || st == "diskcfg") && !c.thorough {
                    continue;
                }
                c.case(format!("C01 {} {} arity={} leafs={} el=8", st, CTORS[ctor], b, n), || {
                    by_arity!(b, U => one::<8, HAlg<8>, U>(st, ctor, n, b, seed))
                });
            }
        }
    }
    // work splits: thread pools of different sizes
    for threads in [1usize, 2, 3, 7] {
        for (b, n) in [(2usize, 1024usize), (2, 16384), (4, 16384), (8, 32768), (16, 65536), (64, 4096)] {
            for st in ["vec", "disk", "mmap", "lc"] {
                c.case(format!("C01 {} from_par_iter arity={} leafs={} el=8 threads={}", st, b, n, threads), || {
                    let p = rayon::ThreadPoolBuilder::new().num_threads(threads).build().map_err(|e| e.to_string())?;
                    p.install(|| by_arity!(b, U => one::<8, HAlg<8>, U>(st, 2, n, b, seed)))
                });
            }
        }
    }
}

// ---------------------------------------------------------------- C02
pub fn same_base<const N: usize, U: Unsigned>(p: &Proof<El<N>, U>, m: &MProof<N>) -> Result<(), String> {
    ck!(p.path() == &m.path, "path is {:?}, expected {:?}", p.path(), m.path);
    ck!(p.lemma().len() == m.lemma.len(), "{} lemma elements, expected {}", p.lemma().len(), m.lemma.len());
    for (i, (a, b)) in p.lemma().iter().zip(m.lemma.iter()).enumerate() {
        ck!(a == b, "lemma element {} is {:?}, expected {:?}", i, a, b);
    }
    ck!(p.item() == m.lemma[0], "item() is {:?}, expected {:?}", p.item(), m.lemma[0]);
    ck!(p.root() == m.lemma[m.lemma.len() - 1], "root() is {:?}", p.root());
    ck!(p.sub_tree_proof.is_none(), "base proof has a sub proof");
    ck!(p.top_layer_nodes() == 0 && p.sub_layer_nodes() == 0, "base proof has layer arities");
    Ok(())
}
fn c02_base<const N: usize, A: Oracle<N>, S: Store<El<N>>, U: Unsigned>(n: usize, b: usize, seed: u64, cfg: bool) -> Result<u64, String>
where
    Vec<u8>: merkletree::hash::Hashable<A>,
{
    let s = Scratch::new();
    let inp = input::<N, A>(n, seed);
    let r = rows::<N, A>(leaf_row::<N, A>(&inp, 0), b);
    let t = must("build", || build::<N, A, S, U>(0, &inp, if cfg { Some(s.cfg("t", 0)) } else { None }))?;
    let mut rg = Rng::new(seed + n as u64);
    let idx: Vec<usize> = if n <= 1024 { (0..n).collect() } else { (0..256).map(|_| rg.below(n)).chain([0, 1, n - 1, n - 2, n / 2, n / 2 - 1]).collect() };
    for i in idx {
        let p = must(&format!("gen_proof({})", i), || t.gen_proof(i))?;
        same_base(&p, &proof_of(&r, b, i)).map_err(|e| format!("proof of leaf {}: {}", i, e))?;
        ck!(must("validate", || p.validate::<A>())?, "honest proof of leaf {} rejected", i);
    }
    for i in [n, n + 1, n * 2 - 1, n * 2, usize::MAX / 64] {
        must_err(&format!("gen_proof({}) of {} leafs", i, n), || t.gen_proof(i))?;
    }
    Ok(n as u64)
}
pub fn c02(c: &mut Ctx) {
    let seed = c.seed + 2;
    for b in [2usize, 4, 8, 16, 32, 64, 128] {
        for n in sizes(b, if c.thorough { 1 << 16 } else { 1 << 13 }) {
            if row_count(n, b) < 2 {
                continue;
            }
            c.case(format!("C02 vec arity={} leafs={}", b, n), || by_arity!(b, U => c02_base::<8, HAlg<8>, VecStore<El<8>>, U>(n, b, seed, false)));
            c.case(format!("C02 disk arity={} leafs={}", b, n), || by_arity!(b, U => c02_base::<8, HAlg<8>, DiskStore<El<8>>, U>(n, b, seed, false)));
            c.case(format!("C02 mmap arity={} leafs={} el=5", b, n), || by_arity!(b, U => c02_base::<5, HAlg<5>, MmapStore<El<5>>, U>(n, b, seed, false)));
            c.case(format!("C02 disk-config arity={} leafs={} el=32 default-hashing", b, n), || by_arity!(b, U => c02_base::<32, DAlg<32>, DiskStore<El<32>>, U>(n, b, seed, true)));
        }
    }
    for (b, n) in [(2usize, 1usize << 18), (4, 1 << 18), (8, 1 << 18), (512, 512), (1024, 1024)] {
        c.case(format!("C02 vec arity={} leafs={}", b, n), || by_arity!(b, U => c02_base::<8, HAlg<8>, VecStore<El<8>>, U>(n, b, seed, false)));
    }
    macro_rules! comp {
        ($($b:ident $s:ident $t:ident;)*) => { $(
            for n in sizes(<$b>::to_usize(), 64) {
                c.case(format!("C02 compound base={} sub={} top={} leafs={}", <$b>::to_usize(), <$s>::to_usize(), <$t>::to_usize(), n),
                    || compound::<8, HAlg<8>, $b, $s, $t>(n, seed, false));
            }
        )* };
    }
    comp! { U2 U2 U0; U2 U3 U0; U4 U2 U0; U8 U4 U0; U2 U5 U0; U2 U1 U0; U4 U8 U0; U4 U8 U2; U2 U2 U2; U2 U3 U2; U2 U2 U3; U8 U8 U2; U4 U1 U1; U4 U4 U4; U2 U16 U2; }
    c.case("C02 compound default hashing".into(), || compound::<32, DAlg<32>, U4, U2, U2>(16, seed, false));
}

// ---------------------------------------------------------------- compound trees
pub struct Model<const N: usize> {
    pub base: Vec<Vec<Vec<El<N>>>>, // rows of each base tree, in order
    pub sub: Vec<El<N>>,            // roots of the sub layer
    pub root: El<N>,
}
pub fn cmodel<const N: usize, A: Oracle<N>>(inps: &[Input<N>], b: usize, s: usize, t: usize, ctor: usize) -> Model<N> {
    let base: Vec<Vec<Vec<El<N>>>> = inps.iter().map(|i| rows::<N, A>(leaf_row::<N, A>(i, ctor), b)).collect();
    let roots: Vec<El<N>> = base.iter().map(|r| r[r.len() - 1][0]).collect();
    let sub: Vec<El<N>> = roots.chunks(s).map(|c| A::o_node(c, 1)).collect();
    let root = if t == 0 { sub[0] } else { A::o_node(&sub, 1) };
    Model { base, sub, root }
}
fn without<T: Clone>(v: &[T], k: usize) -> Vec<T> {
    let mut o = v.to_vec();
    o.remove(k);
    o
}
pub fn same_compound<const N: usize, A: Oracle<N>, U: Unsigned>(p: &Proof<El<N>, U>, m: &Model<N>, b: usize, s: usize, t: usize, i: usize) -> Result<(), String> {
    let l = m.base[0][0].len();
    let g = i / l; // base tree
    let (sp, sub_idx) = if t > 0 {
        let k = g / s;
        let mut want = without(&m.sub, k);
        want.push(m.root);
        ck!(p.lemma() == &want, "top layer lemma {:?}, expected {:?}", p.lemma(), want);
        ck!(p.path() == &vec![k], "top layer path {:?}, expected [{}]", p.path(), k);
        ck!(p.top_layer_nodes() == t && p.sub_layer_nodes() == s, "layer arities {} {}", p.top_layer_nodes(), p.sub_layer_nodes());
        ck!(p.root() == m.root, "root() {:?}", p.root());
        let sp = p.sub_tree_proof.as_ref().ok_or("top proof without sub proof")?;
        ck!(p.sub_tree_root() == m.sub[k], "sub_tree_root() {:?}, expected {:?}", p.sub_tree_root(), m.sub[k]);
        (sp.as_ref(), k)
    } else {
        (p, 0)
    };
    let group: Vec<El<N>> = m.base[sub_idx * s..(sub_idx + 1) * s].iter().map(|r| r[r.len() - 1][0]).collect();
    let k = g % s;
    let mut want = without(&group, k);
    want.push(m.sub[sub_idx]);
    ck!(sp.lemma() == &want, "sub layer lemma {:?}, expected {:?}", sp.lemma(), want);
    ck!(sp.path() == &vec![k], "sub layer path {:?}, expected [{}]", sp.path(), k);
    ck!(sp.sub_layer_nodes() == s && sp.top_layer_nodes() == 0, "sub layer arities {} {}", sp.top_layer_nodes(), sp.sub_layer_nodes());
    let bp = sp.sub_tree_proof.as_ref().ok_or("sub proof without base proof")?;
    same_base(bp, &proof_of(&m.base[g], b, i % l))?;
    let leaf = m.base[g][0][i % l];
    ck!(p.item() == leaf, "item() is {:?}, the leaf is {:?}", p.item(), leaf);
    ck!(must("validate", || p.validate::<A>())?, "honest compound proof rejected");
    Ok(())
}
pub fn check_compound<const N: usize, A: Oracle<N>, S: Store<El<N>>, U: Unsigned, V: Unsigned, W: Unsigned>(
    t: &MerkleTree<El<N>, A, S, U, V, W>,
    m: &Model<N>,
    cached: Option<Option<usize>>,
) -> Result<u64, String> {
    let (b, s, w) = (U::to_usize(), V::to_usize(), W::to_usize());
    let l = m.base[0][0].len();
    let total = l * m.base.len();
    let blen: usize = m.base[0].iter().map(|r| r.len()).sum();
    let rc = m.base[0].len();
    let (len, rows) = if w > 0 { ((blen * s + 1) * w + 1, rc + 2) } else { (blen * s + 1, rc + 1) };
    ck!(t.leafs() == total, "leafs() {} expected {}", t.leafs(), total);
    ck!(t.len() == len, "len() {} expected {}", t.len(), len);
    ck!(t.row_count() == rows, "row_count() {} expected {}", t.row_count(), rows);
    ck!(t.root() == m.root, "root() {:?} expected {:?}", t.root(), m.root);
    ck!(get_merkle_tree_len_generic::<U, V, W>(l).ok() == Some(len), "generic length disagrees with the tree's length {}", len);
    for i in 0..total {
        let g = must(&format!("read_at({})", i), || t.read_at(i))?;
        ck!(g == m.base[i / l][0][i % l], "read_at({}) is {:?}, expected leaf {} of sub-tree {}", i, g, i % l, i / l);
        let p = match cached {
            None => must(&format!("gen_proof({})", i), || t.gen_proof(i))?,
            Some(d) => must(&format!("gen_cached_proof({})", i), || t.gen_cached_proof(i, d))?,
        };
        same_compound::<N, A, U>(&p, m, b, s, w, i).map_err(|e| format!("proof of leaf {}: {}", i, e))?;
    }
    for i in [total, total + 1, total * 2, usize::MAX / 64] {
        must_err(&format!("gen_proof({}) of {} leafs", i, total), || t.gen_proof(i))?;
        must_err(&format!("read_at({}) of {} leafs", i, total), || t.read_at(i))?;
        must_err(&format!("gen_cached_proof({}) of {} leafs", i, total), || t.gen_cached_proof(i, None))?;
    }
    Ok(total as u64)
}
pub fn inputs<const N: usize, A: Oracle<N>>(k: usize, n: usize, seed: u64) -> Vec<Input<N>> {
    (0..k).map(|i| input::<N, A>(n, seed * 1000 + i as u64)).collect()
}
fn base_trees<const N: usize, A: Oracle<N>, S: Store<El<N>>, U: Unsigned>(inps: &[Input<N>], cfg: Option<(&Scratch, usize)>) -> Result<Vec<MerkleTree<El<N>, A, S, U>>, String>
where
    Vec<u8>: merkletree::hash::Hashable<A>,
{
    inps.iter().enumerate().map(|(i, x)| must("build base tree", || build::<N, A, S, U>(0, x, cfg.map(|(s, d)| s.cfg(&format!("b{}", i), d))))).collect()
}
/// all compound constructors from the same parts
pub fn compound<const N: usize, A: Oracle<N>, U: Unsigned, V: Unsigned, W: Unsigned>(n: usize, seed: u64, all: bool) -> Result<u64, String>
where
    Vec<u8>: merkletree::hash::Hashable<A>,
{
    let (b, s, w) = (U::to_usize(), V::to_usize(), W::to_usize());
    let k = s * if w > 0 { w } else { 1 };
    let inps = inputs::<N, A>(k, n, seed);
    let m = cmodel::<N, A>(&inps, b, s, w, 0);
    let mut cnt = 0;
    type T<const N: usize, A, S, U, V, W> = MerkleTree<El<N>, A, S, U, V, W>;
    if w == 0 {
        let t: T<N, A, VecStore<El<N>>, U, V, W> = must("from_trees", || MerkleTree::from_trees(base_trees(&inps, None).map_err(|e| anyhow::anyhow!(e))?))?;
        // VecStore has no cached proofs
        cnt += check_compound_nocache(&t, &m)?;
    } else {
        let t: T<N, A, VecStore<El<N>>, U, V, W> = must("from_sub_trees_as_trees", || MerkleTree::from_sub_trees_as_trees(base_trees(&inps, None).map_err(|e| anyhow::anyhow!(e))?))?;
        cnt += check_compound_nocache(&t, &m)?;
        let mut subs = vec![];
        for g in inps.chunks(s) {
            let bt = base_trees::<N, A, VecStore<El<N>>, U>(g, None)?;
            subs.push(must("from_trees", || MerkleTree::<El<N>, A, VecStore<El<N>>, U, V>::from_trees(bt))?);
        }
        let t: T<N, A, VecStore<El<N>>, U, V, W> = must("from_sub_trees", || MerkleTree::from_sub_trees(subs))?;
        cnt += check_compound_nocache(&t, &m)?;
    }
    if !all {
        return Ok(cnt);
    }
    // persisted parts
    let sc = Scratch::new();
    drop(base_trees::<N, A, DiskStore<El<N>>, U>(&inps, Some((&sc, 0)))?);
    let cfgs: Vec<StoreConfig> = (0..k).map(|i| sc.cfg(&format!("b{}", i), 0)).collect();
    let len = tree_len(n, b);
    let bufs: Vec<Vec<u8>> = m.base.iter().map(|r| to_bytes(&flat(r))).collect();
    let slices: Vec<&[u8]> = bufs.iter().map(|v| &v[..]).collect();
    if w == 0 {
        let t: T<N, A, DiskStore<El<N>>, U, V, W> = must("from_store_configs", || MerkleTree::from_store_configs(n, &cfgs))?;
        cnt += check_compound(&t, &m, None)?;
        cnt += check_compound(&t, &m, Some(None))?;
        let stores: Vec<DiskStore<El<N>>> = cfgs.iter().map(|c| must("new_from_disk", || DiskStore::new_from_disk(len, b, c))).collect::<Result<_, _>>()?;
        let t: T<N, A, DiskStore<El<N>>, U, V, W> = must("from_stores", || MerkleTree::from_stores(n, stores))?;
        cnt += check_compound(&t, &m, None)?;
        let t: T<N, A, VecStore<El<N>>, U, V, U0> = must("from_slices", || MerkleTree::<El<N>, A, VecStore<El<N>>, U, V, W>::from_slices(&slices, n))?;
        cnt += check_compound_nocache(&t, &m)?;
        let s2 = Scratch::new();
        let cf2: Vec<StoreConfig> = (0..k).map(|i| s2.cfg(&format!("n{}", i), 0)).collect();
        let t: T<N, A, DiskStore<El<N>>, U, V, W> = must("from_slices_with_configs", || MerkleTree::from_slices_with_configs(&slices, n, &cf2))?;
        cnt += check_compound(&t, &m, None)?;
    } else {
        let t: T<N, A, DiskStore<El<N>>, U, V, W> = must("from_sub_tree_store_configs", || MerkleTree::from_sub_tree_store_configs(n, &cfgs))?;
        cnt += check_compound(&t, &m, None)?;
        cnt += check_compound(&t, &m, Some(None))?;
    }
    // level cache with a replica
    let rc = m.base[0].len();
    for d in 0..rc.saturating_sub(1) {
        let s3 = Scratch::new();
        drop(base_trees::<N, A, LC<N>, U>(&inps, Some((&s3, d)))?);
        let mut rep: Vec<u8> = vec![0xAB; 3];
        let mut offs = vec![];
        for r in m.base.iter() {
            offs.push(rep.len());
            rep.extend(to_bytes(&r[0]));
            rep.push(0xCD);
        }
        let path = s3.replica("replica", &rep);
        let rcfg = ReplicaConfig::new(path, offs);
        let cf: Vec<StoreConfig> = (0..k).map(|i| s3.cfg(&format!("b{}", i), d)).collect();
        let t: MerkleTree<El<N>, A, LevelCacheStore<El<N>, File>, U, V, W> = if w == 0 {
            must("from_store_configs_and_replica", || MerkleTree::from_store_configs_and_replica(n, &cf, &rcfg))?
        } else {
            must("from_sub_tree_store_configs_and_replica", || MerkleTree::from_sub_tree_store_configs_and_replica(n, &cf, &rcfg))?
        };
        cnt += check_compound(&t, &m, Some(Some(d)))?;
    }
    Ok(cnt)
}
fn check_compound_nocache<const N: usize, A: Oracle<N>, S: Store<El<N>>, U: Unsigned, V: Unsigned, W: Unsigned>(t: &MerkleTree<El<N>, A, S, U, V, W>, m: &Model<N>) -> Result<u64, String> {
    check_compound(t, m, None)
}
pub fn c04(c: &mut Ctx) {
    let seed = c.seed + 4;
    macro_rules! comp {
        ($($b:ident $s:ident $t:ident $max:expr;)*) => { $(
            for n in sizes(<$b>::to_usize(), $max) {
                c.case(format!("C04 compound base={} sub={} top={} leafs={}", <$b>::to_usize(), <$s>::to_usize(), <$t>::to_usize(), n),
                    || compound::<8, HAlg<8>, $b, $s, $t>(n, seed, n > 2 || <$b>::to_usize() > 2));
            }
        )* };
    }
    comp! { U2 U2 U0 64; U2 U3 U0 64; U4 U2 U0 64; U8 U4 U0 64; U2 U5 U0 64; U2 U1 U0 16; U4 U8 U0 64; U4 U8 U2 64; U2 U2 U2 32; U2 U3 U2 32;
            U2 U2 U3 32; U8 U8 U2 64; U4 U1 U1 16; U4 U4 U4 16; U2 U16 U2 16; U16 U2 U0 256; U2 U7 U0 32; U4 U3 U5 16; U2 U8 U8 8; U2 U2 U0 1024; U8 U2 U2 512; }
    c.case("C04 compound el=5".into(), || compound::<5, HAlg<5>, U4, U3, U2>(16, seed, true));
}

// ---------------------------------------------------------------- C03
struct P<const N: usize> {
    lemma: Vec<El<N>>,
    path: Vec<usize>,
    top: usize,
    sub: usize,
    inner: Option<Box<P<N>>>,
}
impl<const N: usize> Clone for P<N> {
    fn clone(&self) -> Self {
        P { lemma: self.lemma.clone(), path: self.path.clone(), top: self.top, sub: self.sub, inner: self.inner.clone() }
    }
}
fn oracle<const N: usize, A: Oracle<N>>(p: &P<N>, b: usize) -> bool {
    let a = if p.top > 0 { p.top } else { p.sub };
    if a > 0 {
        let Some(q) = p.inner.as_ref() else { return false };
        if !oracle::<N, A>(q, b) {
            return false;
        }
        if p.path.len() != 1 || p.lemma.len() != a || p.path[0] >= a {
            return false;
        }
        let mut c = p.lemma[..a - 1].to_vec();
        c.insert(p.path[0], q.lemma[q.lemma.len() - 1]);
        return A::o_node(&c, 1) == p.lemma[a - 1];
    }
    if p.inner.is_some() || p.lemma.len() < 2 {
        return false;
    }
    let k = p.lemma.len();
    match fold::<N, A>(p.lemma[0], &p.lemma[1..k - 1], &p.path, b) {
        Some(h) => h == p.lemma[k - 1],
        None => false,
    }
}
fn make<const N: usize, U: Unsigned, V: Unsigned, W: Unsigned>(p: &P<N>) -> Option<Proof<El<N>, U>> {
    let inner = match p.inner.as_ref() {
        None => None,
        Some(q) => Some(Box::new(make::<N, U, V, W>(q)?)),
    };
    // base proofs are checked for their length when constructed: change them afterwards
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| match (p.top > 0, p.sub > 0) {
        (true, true) => Proof::new::<W, V>(inner, p.lemma.clone(), p.path.clone()),
        (true, false) => Proof::new::<W, U0>(inner, p.lemma.clone(), p.path.clone()),
        (false, true) => Proof::new::<U0, V>(inner, p.lemma.clone(), p.path.clone()),
        (false, false) => {
            let b = U::to_usize();
            if p.lemma.len() == 2 + (b - 1) * p.path.len() && p.lemma.len() > 2 {
                Proof::new::<U0, U0>(inner, p.lemma.clone(), p.path.clone())
            } else {
                // any lemma can be put into a proof through its mutable accessor
                let mut l: Vec<El<N>> = vec![El::default(); 2 + (b - 1) * p.path.len()];
                if l.len() <= 2 {
                    return Err(anyhow::anyhow!("not constructible"));
                }
                std::mem::swap(&mut l[0], &mut El::default());
                let mut pr = Proof::new::<U0, U0>(inner, l, p.path.clone())?;
                *pr.lemma_mut() = p.lemma.clone();
                Ok(pr)
            }
        }
    }));
    match r {
        Ok(Ok(x)) => Some(x),
        _ => None,
    }
}
fn verdict<const N: usize, A: Oracle<N>, U: Unsigned, V: Unsigned, W: Unsigned>(p: &P<N>, what: &str, acc: &mut u64, rej: &mut u64) -> Result<(), String> {
    let want = oracle::<N, A>(p, U::to_usize());
    let Some(q) = make::<N, U, V, W>(p) else {
        ck!(!want, "{}: a proof that hashes up to the root could not be constructed", what);
        return Ok(());
    };
    let got = crate::run(&format!("validate ({})", what), || q.validate::<A>())?;
    match got {
        Some(true) => ck!(want, "{}: accepted, but it does not hash up to the root: lemma {:?} path {:?}", what, p.lemma, p.path),
        Some(false) | None => ck!(!want, "{}: rejected, but it hashes up to the root: lemma {:?} path {:?}", what, p.lemma, p.path),
    }
    if want {
        *acc += 1
    } else {
        *rej += 1
    }
    Ok(())
}
fn unsigned_new<const N: usize, U: Unsigned>(top: usize, sub: usize, inner: Option<Box<Proof<El<N>, U>>>, l: Vec<El<N>>, p: Vec<usize>) -> Option<Proof<El<N>, U>> {
    macro_rules! go { ($($t:ident $v:expr),*) => { $( if top == $v { return match sub {
        0 => Proof::new::<$t, U0>(inner, l, p).ok(),
        1 => Proof::new::<$t, U1>(inner, l, p).ok(),
        2 => Proof::new::<$t, U2>(inner, l, p).ok(),
        3 => Proof::new::<$t, U3>(inner, l, p).ok(),
        _ => Proof::new::<$t, U8>(inner, l, p).ok(),
    }; } )* } }
    go!(U1 1, U2 2, U3 3, U4 4, U5 5);
    None
}
/// verdict on a two layer proof with any declared layer counts
fn verdict_any<const N: usize, A: Oracle<N>, U: Unsigned>(p: &P<N>, what: &str) -> Result<(), String> {
    let want = oracle::<N, A>(p, U::to_usize());
    let Some(q) = p.inner.as_ref() else { return Ok(()) };
    let Some(inner) = make::<N, U, U0, U0>(q) else { return Ok(()) };
    let Some(q) = unsigned_new::<N, U>(p.top, p.sub, Some(Box::new(inner)), p.lemma.clone(), p.path.clone()) else { return Ok(()) };
    match crate::run(&format!("validate ({})", what), || q.validate::<A>())? {
        Some(v) => ck!(v == want, "{}: validate says {}, expected {}", what, v, want),
        None => ck!(!want, "{}: validate fails on a proof that hashes up to the root", what),
    }
    Ok(())
}
fn honest<const N: usize, A: Oracle<N>>(b: usize, s: usize, w: usize, n: usize, i: usize, seed: u64) -> P<N> {
    let k = s.max(1) * w.max(1);
    let inps = inputs::<N, A>(k, n, seed);
    if s == 0 {
        let r = rows::<N, A>(leaf_row::<N, A>(&inps[0], 0), b);
        let m = proof_of(&r, b, i);
        return P { lemma: m.lemma, path: m.path, top: 0, sub: 0, inner: None };
    }
    let m = cmodel::<N, A>(&inps, b, s, w, 0);
    let g = i / n;
    let bp = proof_of(&m.base[g], b, i % n);
    let base = P { lemma: bp.lemma, path: bp.path, top: 0, sub: 0, inner: None };
    let si = g / s;
    let group: Vec<El<N>> = m.base[si * s..(si + 1) * s].iter().map(|r| r[r.len() - 1][0]).collect();
    let mut l = without(&group, g % s);
    l.push(m.sub[si]);
    let sub = P { lemma: l, path: vec![g % s], top: 0, sub: s, inner: Some(Box::new(base)) };
    if w == 0 {
        return sub;
    }
    let mut l = without(&m.sub, si);
    l.push(m.root);
    P { lemma: l, path: vec![si], top: w, sub: s, inner: Some(Box::new(sub)) }
}
fn layer<const N: usize>(p: &mut P<N>, k: usize) -> &mut P<N> {
    if k == 0 {
        p
    } else {
        layer(p.inner.as_mut().unwrap(), k - 1)
    }
}
/// recompute the root of the given layer (and of the layers above) so that the proof is a consistent one of other data
fn reroot<const N: usize, A: Oracle<N>>(p: &mut P<N>, b: usize) {
    if let Some(q) = p.inner.as_mut() {
        reroot::<N, A>(q, b);
    }
    let a = if p.top > 0 { p.top } else { p.sub };
    let k = p.lemma.len();
    if a > 0 {
        if p.path.len() == 1 && k == a && p.path[0] < a {
            let q = p.inner.as_ref().unwrap();
            let mut c = p.lemma[..a - 1].to_vec();
            c.insert(p.path[0], q.lemma[q.lemma.len() - 1]);
            p.lemma[k - 1] = A::o_node(&c, 1);
        }
    } else if k >= 2 {
        if let Some(h) = fold::<N, A>(p.lemma[0], &p.lemma[1..k - 1], &p.path, b) {
            p.lemma[k - 1] = h;
        }
    }
}
fn c03_one<const N: usize, A: Oracle<N>, U: Unsigned, V: Unsigned, W: Unsigned>(n: usize, seed: u64) -> Result<u64, String> {
    let (b, s, w) = (U::to_usize(), V::to_usize(), W::to_usize());
    let total = n * s.max(1) * w.max(1);
    let layers = 1 + (s > 0) as usize + (w > 0) as usize;
    let (mut acc, mut rej) = (0, 0);
    let mut rg = Rng::new(seed);
    let idx: Vec<usize> = if total <= 16 { (0..total).collect() } else { vec![0, 1, b - 1, n - 1, total - 1, total / 2, rg.below(total), rg.below(total)] };
    for i in idx {
        let h = honest::<N, A>(b, s, w, n, i, seed);
        ck!(oracle::<N, A>(&h, b), "internal: honest proof not accepted by the oracle");
        verdict::<N, A, U, V, W>(&h, "honest", &mut acc, &mut rej)?;
        // a single layer declared as a top layer, without a sub-tree layer count
        if s > 0 && w == 0 {
            for (top, sub) in [(s, 0), (s, s), (s, 1), (s + 1, 0)] {
                let mut p = h.clone();
                p.top = top;
                p.sub = sub;
                verdict_any::<N, A, U>(&p, &format!("top layer {} sub layer {}", top, sub))?;
            }
        }
        for k in 0..layers {
            let (ll, pl, a) = {
                let mut hh = h.clone();
                let q = layer(&mut hh, k);
                (q.lemma.len(), q.path.len(), if q.top > 0 { q.top } else if q.sub > 0 { q.sub } else { b })
            };
            for j in 0..ll {
                // another element
                let mut p = h.clone();
                let q = layer(&mut p, k);
                q.lemma[j].0[(i + j) % N] ^= 1 << (j % 8);
                verdict::<N, A, U, V, W>(&p, &format!("layer {} lemma {} changed", k, j), &mut acc, &mut rej)?;
                reroot::<N, A>(&mut p, b);
                verdict::<N, A, U, V, W>(&p, &format!("layer {} lemma {} changed, rehashed", k, j), &mut acc, &mut rej)?;
                let mut p = h.clone();
                layer(&mut p, k).lemma.remove(j);
                verdict::<N, A, U, V, W>(&p, &format!("layer {} lemma {} removed", k, j), &mut acc, &mut rej)?;
                let mut p = h.clone();
                layer(&mut p, k).lemma.insert(j, El::default());
                verdict::<N, A, U, V, W>(&p, &format!("layer {} lemma inserted at {}", k, j), &mut acc, &mut rej)?;
                if j + 1 < ll {
                    let mut p = h.clone();
                    layer(&mut p, k).lemma.swap(j, j + 1);
                    verdict::<N, A, U, V, W>(&p, &format!("layer {} lemma {} swapped", k, j), &mut acc, &mut rej)?;
                    reroot::<N, A>(&mut p, b);
                    verdict::<N, A, U, V, W>(&p, &format!("layer {} lemma {} swapped, rehashed", k, j), &mut acc, &mut rej)?;
                }
            }
            for j in 0..pl {
                for v in (0..a + 2).chain([usize::MAX]) {
                    if a > 8 && v > 3 && v < a - 2 {
                        continue;
                    }
                    let mut p = h.clone();
                    layer(&mut p, k).path[j] = v;
                    verdict::<N, A, U, V, W>(&p, &format!("layer {} path {} set to {}", k, j, v), &mut acc, &mut rej)?;
                    reroot::<N, A>(&mut p, b);
                    verdict::<N, A, U, V, W>(&p, &format!("layer {} path {} set to {}, rehashed", k, j, v), &mut acc, &mut rej)?;
                }
                let mut p = h.clone();
                layer(&mut p, k).path.remove(j);
                verdict::<N, A, U, V, W>(&p, &format!("layer {} path {} removed", k, j), &mut acc, &mut rej)?;
            }
            for v in 0..a + 1 {
                let mut p = h.clone();
                layer(&mut p, k).path.push(v);
                verdict::<N, A, U, V, W>(&p, &format!("layer {} path {} appended", k, v), &mut acc, &mut rej)?;
            }
            // whole groups dropped or repeated
            if k == layers - 1 && pl > 1 {
                for g in 0..pl {
                    let mut p = h.clone();
                    let q = layer(&mut p, k);
                    q.path.remove(g);
                    q.lemma.drain(1 + g * (b - 1)..1 + (g + 1) * (b - 1));
                    verdict::<N, A, U, V, W>(&p, &format!("level {} removed", g), &mut acc, &mut rej)?;
                    reroot::<N, A>(&mut p, b);
                    verdict::<N, A, U, V, W>(&p, &format!("level {} removed, rehashed", g), &mut acc, &mut rej)?;
                }
            }
            // layer without / with a sub proof
            let mut p = h.clone();
            let q = layer(&mut p, k);
            if q.inner.is_some() {
                q.inner = None;
                verdict::<N, A, U, V, W>(&p, &format!("layer {} without its sub proof", k), &mut acc, &mut rej)?;
            } else {
                let mut q2 = q.clone();
                q2.inner = None;
                q.inner = Some(Box::new(q2));
                verdict::<N, A, U, V, W>(&p, &format!("base layer {} with a sub proof", k), &mut acc, &mut rej)?;
            }
        }
        // sub proof of another leaf
        if layers > 1 {
            let o = honest::<N, A>(b, s, w, n, (i + n) % total, seed);
            let mut p = h.clone();
            p.inner = o.inner;
            verdict::<N, A, U, V, W>(&p, "sub proof of another sub-tree", &mut acc, &mut rej)?;
        }
    }
    // random proofs
    for _ in 0..200 {
        let k = rg.below(4);
        let mut p = honest::<N, A>(b, s, w, n, rg.below(total), seed);
        for _ in 0..=k {
            let la = rg.below(layers);
            let q = layer(&mut p, la);
            match rg.below(6) {
                0 if !q.lemma.is_empty() => {
                    let j = rg.below(q.lemma.len());
                    q.lemma[j] = rg.el();
                }
                1 if !q.path.is_empty() => {
                    let j = rg.below(q.path.len());
                    q.path[j] = rg.below(b + 1);
                }
                2 => q.path.push(rg.below(b)),
                3 => q.lemma.push(rg.el()),
                4 if q.lemma.len() > 1 => {
                    let j = rg.below(q.lemma.len() - 1);
                    q.lemma.swap(j, j + 1);
                }
                _ => reroot::<N, A>(&mut p, b),
            }
        }
        verdict::<N, A, U, V, W>(&p, "random modification", &mut acc, &mut rej)?;
        reroot::<N, A>(&mut p, b);
        verdict::<N, A, U, V, W>(&p, "random modification, rehashed", &mut acc, &mut rej)?;
    }
    ck!(acc > 0 && rej > 0, "internal: nothing accepted or nothing rejected");
    Ok(acc + rej)
}
pub fn c03(c: &mut Ctx) {
    let seed = c.seed + 3;
    macro_rules! run {
        ($($b:ident $s:ident $t:ident $max:expr;)*) => { $(
            for n in sizes(<$b>::to_usize(), $max) {
                if <$b>::to_usize() == 2 && n == 2 { /* lemma of 3 elements is the shortest */ }
                c.case(format!("C03 base={} sub={} top={} leafs={}", <$b>::to_usize(), <$s>::to_usize(), <$t>::to_usize(), n),
                    || c03_one::<8, HAlg<8>, $b, $s, $t>(n, seed));
            }
        )* };
    }
    run! { U2 U0 U0 4096; U4 U0 U0 4096; U8 U0 U0 4096; U16 U0 U0 256; U32 U0 U0 1024; U64 U0 U0 64;
           U2 U2 U0 16; U2 U3 U0 16; U4 U2 U0 64; U8 U4 U0 64; U2 U1 U0 8; U4 U8 U2 16; U2 U2 U2 8; U2 U3 U5 4; U8 U8 U2 8; U4 U1 U1 16; U2 U5 U3 8; U16 U2 U2 16; }
    c.case("C03 default hashing".into(), || c03_one::<32, DAlg<32>, U4, U2, U2>(16, seed));
    c.case("C03 default hashing, base".into(), || c03_one::<32, DAlg<32>, U4, U0, U0>(64, seed));
}
