//! Reference model, written from the property statements only (no call into the crate under test).
use merkletree::hash::Algorithm;
use merkletree::merkle::Element;
use std::hash::Hasher;

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord)]
pub struct El<const N: usize>(pub [u8; N]);
impl<const N: usize> Default for El<N> {
    fn default() -> Self {
        El([0xEE; N])
    }
}
impl<const N: usize> std::fmt::Debug for El<N> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        for b in self.0.iter() {
            write!(f, "{:02x}", b)?;
        }
        Ok(())
    }
}
impl<const N: usize> AsRef<[u8]> for El<N> {
    fn as_ref(&self) -> &[u8] {
        &self.0
    }
}
impl<const N: usize> Element for El<N> {
    fn byte_len() -> usize {
        N
    }
    fn from_slice(b: &[u8]) -> Self {
        assert_eq!(b.len(), N, "element from a slice of the wrong length");
        let mut a = [0u8; N];
        a.copy_from_slice(b);
        El(a)
    }
    fn copy_to_slice(&self, b: &mut [u8]) {
        b.copy_from_slice(&self.0)
    }
}
pub type E8 = El<8>;

#[derive(Clone, Copy, PartialEq, Eq)]
pub struct Mix {
    a: u64,
    b: u64,
}
impl Mix {
    pub const fn new() -> Self {
        Mix { a: 0x9E3779B97F4A7C15, b: 0xD1B54A32D192ED03 }
    }
    #[inline]
    fn w64(&mut self, x: u64) {
        self.a = (self.a ^ x).wrapping_mul(0xff51afd7ed558ccd);
        self.a ^= self.a >> 32;
        self.b = (self.b.rotate_left(17) ^ self.a).wrapping_mul(0xc4ceb9fe1a85ec53);
        self.b ^= self.b >> 29;
    }
    #[inline]
    pub fn bytes(&mut self, x: &[u8]) {
        for c in x {
            self.w64(*c as u64 + 1);
        }
    }
    pub fn fin<const N: usize>(&self) -> El<N> {
        let mut m = *self;
        let mut o = [0u8; N];
        let mut i = 0;
        while i < N {
            m.w64(0x5bd1e995);
            for c in m.b.to_le_bytes() {
                if i < N {
                    o[i] = c;
                    i += 1;
                }
            }
        }
        El(o)
    }
}

/// height-, order- and count-sensitive hash
#[derive(Clone, Copy, PartialEq, Eq)]
pub struct HAlg<const N: usize>(Mix);
impl<const N: usize> Default for HAlg<N> {
    fn default() -> Self {
        HAlg(Mix::new())
    }
}
impl<const N: usize> Hasher for HAlg<N> {
    fn write(&mut self, b: &[u8]) {
        self.0.bytes(b)
    }
    fn finish(&self) -> u64 {
        unimplemented!()
    }
}
impl<const N: usize> Algorithm<El<N>> for HAlg<N> {
    fn hash(&mut self) -> El<N> {
        self.0.fin()
    }
    fn leaf(&mut self, l: El<N>) -> El<N> {
        self.0.w64(0x1111_0000_0000);
        self.0.bytes(&l.0);
        self.0.fin()
    }
    fn node(&mut self, l: El<N>, r: El<N>, h: usize) -> El<N> {
        self.multi_node(&[l, r], h)
    }
    fn multi_node(&mut self, n: &[El<N>], h: usize) -> El<N> {
        self.0.w64(0x2222_0000_0000 + h as u64);
        self.0.w64(n.len() as u64);
        for x in n {
            self.0.bytes(&x.0);
        }
        self.0.fin()
    }
}
/// uses the crate's default leaf / multi_node
#[derive(Clone, Copy, PartialEq, Eq)]
pub struct DAlg<const N: usize>(Mix);
impl<const N: usize> Default for DAlg<N> {
    fn default() -> Self {
        DAlg(Mix::new())
    }
}
impl<const N: usize> Hasher for DAlg<N> {
    fn write(&mut self, b: &[u8]) {
        self.0.bytes(b)
    }
    fn finish(&self) -> u64 {
        unimplemented!()
    }
}
impl<const N: usize> Algorithm<El<N>> for DAlg<N> {
    fn hash(&mut self) -> El<N> {
        self.0.fin()
    }
}
/// oracle side of a hash function
pub trait Oracle<const N: usize>: Algorithm<El<N>> + Send + Sync + Copy + 'static {
    fn o_leaf(x: &El<N>) -> El<N>;
    fn o_node(c: &[El<N>], h: usize) -> El<N>;
    fn o_data(d: &[u8]) -> El<N> {
        let mut m = Mix::new();
        m.bytes(d);
        m.fin()
    }
}
impl<const N: usize> Oracle<N> for HAlg<N> {
    fn o_leaf(x: &El<N>) -> El<N> {
        let mut m = Mix::new();
        m.w64(0x1111_0000_0000);
        m.bytes(&x.0);
        m.fin()
    }
    fn o_node(c: &[El<N>], h: usize) -> El<N> {
        let mut m = Mix::new();
        m.w64(0x2222_0000_0000 + h as u64);
        m.w64(c.len() as u64);
        for x in c {
            m.bytes(&x.0);
        }
        m.fin()
    }
}
impl<const N: usize> Oracle<N> for DAlg<N> {
    fn o_leaf(x: &El<N>) -> El<N> {
        let mut v = vec![0u8];
        v.extend_from_slice(&x.0);
        Self::o_data(&v)
    }
    fn o_node(c: &[El<N>], _h: usize) -> El<N> {
        let mut v = vec![1u8];
        for x in c {
            v.extend_from_slice(&x.0);
        }
        Self::o_data(&v)
    }
}

/// items -> leaf row
pub fn leaves<const N: usize, A: Oracle<N>>(items: &[El<N>]) -> Vec<El<N>> {
    items.iter().map(A::o_leaf).collect()
}
/// leaf row -> whole tree, rows bottom up
pub fn rows<const N: usize, A: Oracle<N>>(leaf_row: Vec<El<N>>, b: usize) -> Vec<Vec<El<N>>> {
    let mut r = vec![leaf_row];
    while r.last().unwrap().len() > 1 {
        let h = r.len() - 1;
        let next: Vec<El<N>> = r[h].chunks(b).map(|c| A::o_node(c, h)).collect();
        r.push(next);
    }
    r
}
pub fn flat<T: Clone>(r: &[Vec<T>]) -> Vec<T> {
    r.concat()
}
#[derive(Clone, Debug, PartialEq)]
pub struct MProof<const N: usize> {
    pub lemma: Vec<El<N>>,
    pub path: Vec<usize>,
}
pub fn proof_of<const N: usize>(r: &[Vec<El<N>>], b: usize, i: usize) -> MProof<N> {
    let mut lemma = vec![r[0][i]];
    let mut path = vec![];
    let mut j = i;
    for row in r.iter().take(r.len() - 1) {
        let s = j / b * b;
        for k in s..s + b {
            if k != j {
                lemma.push(row[k]);
            }
        }
        path.push(j % b);
        j /= b;
    }
    lemma.push(r[r.len() - 1][0]);
    MProof { lemma, path }
}
pub fn fold<const N: usize, A: Oracle<N>>(item: El<N>, sib: &[El<N>], path: &[usize], b: usize) -> Option<El<N>> {
    if b < 2 || sib.len() != path.len() * (b - 1) {
        return None;
    }
    let mut h = item;
    for (lv, p) in path.iter().enumerate() {
        if *p >= b {
            return None;
        }
        let mut c = sib[lv * (b - 1)..(lv + 1) * (b - 1)].to_vec();
        c.insert(*p, h);
        h = A::o_node(&c, lv);
    }
    Some(h)
}
pub fn tree_len(n: usize, b: usize) -> usize {
    let mut s = 0;
    let mut w = n;
    loop {
        s += w;
        if w <= 1 {
            return s;
        }
        w /= b;
    }
}
pub fn is_pow(n: usize, b: usize) -> bool {
    let mut w: u128 = 1;
    while w < n as u128 {
        w *= b as u128;
    }
    w == n as u128
}
pub fn row_count(n: usize, b: usize) -> usize {
    let mut c = 1;
    let mut w = n;
    while w > 1 {
        w /= b;
        c += 1;
    }
    c
}
/// len - base row - discarded rows
pub fn cache_len(n: usize, b: usize, d: usize) -> usize {
    let mut s = tree_len(n, b);
    let mut w = n;
    for _ in 0..d + 1 {
        s -= w;
        w /= b;
    }
    s
}
pub struct Rng(pub u64);
impl Rng {
    pub fn new(s: u64) -> Self {
        Rng(s.wrapping_mul(0x9E3779B97F4A7C15) ^ 0x1234567)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 {
            0
        } else {
            (self.next() % n as u64) as usize
        }
    }
    pub fn el<const N: usize>(&mut self) -> El<N> {
        let mut a = [0u8; N];
        for c in a.iter_mut() {
            *c = self.next() as u8;
        }
        El(a)
    }
    pub fn els<const N: usize>(&mut self, n: usize) -> Vec<El<N>> {
        (0..n).map(|_| self.el()).collect()
    }
}
pub fn to_bytes<const N: usize>(v: &[El<N>]) -> Vec<u8> {
    let mut o = Vec::with_capacity(v.len() * N);
    for x in v {
        o.extend_from_slice(&x.0);
    }
    o
}
