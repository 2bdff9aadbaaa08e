use crate::ck;
use crate::model::*;
use merkletree::merkle::*;
use merkletree::store::*;
use rayon::prelude::*;
use std::fs::File;
use std::path::PathBuf;
use typenum::Unsigned;

#[macro_export]
macro_rules! by_arity {
    ($b:expr, $U:ident => $e:expr) => {
        match $b {
            2 => { type $U = typenum::U2; $e }
            4 => { type $U = typenum::U4; $e }
            8 => { type $U = typenum::U8; $e }
            16 => { type $U = typenum::U16; $e }
            32 => { type $U = typenum::U32; $e }
            64 => { type $U = typenum::U64; $e }
            128 => { type $U = typenum::U128; $e }
            512 => { type $U = typenum::U512; $e }
            1024 => { type $U = typenum::U1024; $e }
            4096 => { type $U = typenum::U4096; $e }
            b => panic!("arity {} not in the dispatch table", b),
        }
    };
}
pub type LC<const N: usize> = LevelCacheStore<El<N>, File>;

pub struct Scratch(pub tempfile::TempDir);
impl Scratch {
    pub fn new() -> Self {
        Scratch(tempfile::Builder::new().prefix("vprobe").tempdir().expect("scratch"))
    }
    pub fn cfg(&self, id: &str, rows: usize) -> StoreConfig {
        StoreConfig::new(self.0.path(), id.to_string(), rows)
    }
    pub fn file(&self, id: &str) -> PathBuf {
        // documented on-disk name
        self.0.path().join(format!("sc-02-data-{}.dat", id))
    }
    pub fn replica(&self, name: &str, bytes: &[u8]) -> PathBuf {
        let p = self.0.path().join(name);
        std::fs::write(&p, bytes).unwrap();
        p
    }
}

pub const CTORS: [&str; 6] = ["new", "try_from_iter", "from_par_iter", "from_byte_slice", "from_data", "from_par_iter_split1"];

/// what a constructor is given, and the leaf row it must produce
pub struct Input<const N: usize> {
    pub items: Vec<El<N>>,
    pub data: Vec<Vec<u8>>,
}
pub fn input<const N: usize, A: Oracle<N>>(n: usize, seed: u64) -> Input<N> {
    let mut r = Rng::new(seed ^ (n as u64) << 8);
    let mut data: Vec<Vec<u8>> = Vec::with_capacity(n);
    for i in 0..n {
        let l = if i % 3 == 0 { 5 } else { 1 + r.below(9) };
        data.push((0..l).map(|_| r.next() as u8).collect());
    }
    let items = data.iter().map(|d| A::o_data(d)).collect();
    Input { items, data }
}
pub fn leaf_row<const N: usize, A: Oracle<N>>(i: &Input<N>, ctor: usize) -> Vec<El<N>> {
    if ctor == 3 {
        i.items.clone()
    } else {
        leaves::<N, A>(&i.items)
    }
}
pub fn build<const N: usize, A: Oracle<N>, S: Store<El<N>>, U: Unsigned>(
    ctor: usize,
    inp: &Input<N>,
    cfg: Option<StoreConfig>,
) -> anyhow::Result<MerkleTree<El<N>, A, S, U>>
where
    Vec<u8>: merkletree::hash::Hashable<A>,
{
    match (ctor, cfg) {
        (0, None) => MerkleTree::new(inp.items.iter().cloned()),
        (0, Some(c)) => MerkleTree::new_with_config(inp.items.iter().cloned(), c),
        (1, None) => MerkleTree::try_from_iter(inp.items.iter().cloned().map(Ok)),
        (1, Some(c)) => MerkleTree::try_from_iter_with_config(inp.items.iter().cloned().map(Ok), c),
        (2, None) => MerkleTree::from_par_iter(inp.items.clone().into_par_iter()),
        (2, Some(c)) => MerkleTree::from_par_iter_with_config(inp.items.clone().into_par_iter(), c),
        (3, None) => MerkleTree::from_byte_slice(&to_bytes(&inp.items)),
        (3, Some(c)) => MerkleTree::from_byte_slice_with_config(&to_bytes(&inp.items), c),
        (4, None) => MerkleTree::from_data(inp.data.iter().cloned()),
        (4, Some(c)) => MerkleTree::from_data_with_config(inp.data.iter().cloned(), c),
        (5, None) => MerkleTree::from_par_iter(inp.items.clone().into_par_iter().with_max_len(1)),
        (5, Some(c)) => MerkleTree::from_par_iter_with_config(inp.items.clone().into_par_iter().with_max_len(1), c),
        _ => unreachable!(),
    }
}
/// every node, root, and the reported sizes against the model
pub fn check_full<const N: usize, A: Oracle<N>, S: Store<El<N>>, U: Unsigned>(
    t: &MerkleTree<El<N>, A, S, U>,
    r: &[Vec<El<N>>],
) -> Result<(), String> {
    let f = flat(r);
    check_sizes(t, r)?;
    let got = crate::must("read_range", || t.read_range(0, f.len()))?;
    ck!(got.len() == f.len(), "read_range(0,{}) returned {} elements", f.len(), got.len());
    let mut idx = 0;
    for (h, row) in r.iter().enumerate() {
        for (k, x) in row.iter().enumerate() {
            ck!(got[idx] == *x, "node {} of row {} (store index {}) is {:?}, the canonical tree has {:?}", k, h, idx, got[idx], x);
            idx += 1;
        }
    }
    for i in [0, f.len() / 3, f.len() / 2, f.len() - 1] {
        let g = crate::must("read_at", || t.read_at(i))?;
        ck!(g == f[i], "read_at({}) is {:?}, expected {:?}", i, g, f[i]);
    }
    Ok(())
}
pub fn check_sizes<const N: usize, A: Oracle<N>, S: Store<El<N>>, U: Unsigned, V: Unsigned, W: Unsigned>(
    t: &MerkleTree<El<N>, A, S, U, V, W>,
    r: &[Vec<El<N>>],
) -> Result<(), String> {
    let len: usize = r.iter().map(|x| x.len()).sum();
    ck!(t.len() == len, "len() = {}, expected {}", t.len(), len);
    ck!(t.leafs() == r[0].len(), "leafs() = {}, expected {}", t.leafs(), r[0].len());
    ck!(t.row_count() == r.len(), "row_count() = {}, expected {}", t.row_count(), r.len());
    let root = r[r.len() - 1][0];
    ck!(t.root() == root, "root() = {:?}, expected {:?}", t.root(), root);
    Ok(())
}
/// powers of b up to max, at least b itself
pub fn sizes(b: usize, max: usize) -> Vec<usize> {
    let mut v = vec![];
    let mut n = b;
    while n <= max {
        v.push(n);
        n *= b;
    }
    v
}
