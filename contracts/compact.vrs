verus! {
impl<E: Element, A: Algorithm<E>, S: Store<E>, BaseTreeArity: Unsigned, SubTreeArity: Unsigned> Data<E, A, S, BaseTreeArity, SubTreeArity> {
//% fn src/merkle.rs Data::store_mut
//% spec
    ensures r is Some <==> *old(self) is BaseTree,
        r is None ==> *final(self) == *old(self),
        r is Some ==> *r->0 == old(self)->BaseTree_0 && *final(self) == Data::<E, A, S, BaseTreeArity, SubTreeArity>::BaseTree(*final(r->0)),
//% end
}
/// what is left of the nodes v of a tree: the base row (old format) and the cached rows
pub open spec fn kept<E>(v: Seq<E>, b: nat, k: nat, d: nat, version: u32) -> Seq<E> {
    let cached = v.subrange(v.len() - tlen(b, (k - 1 - d) as nat), v.len() as int);
    if version == 1 { v.subrange(0, bpow(b, k) as int) + cached } else { cached }
}
impl<E: Element, A: Algorithm<E>, BaseTreeArity: Unsigned, SubTreeArity: Unsigned, TopTreeArity: Unsigned> MerkleTree<E, A, DiskStore<E>, BaseTreeArity, SubTreeArity, TopTreeArity> {
//% fn src/merkle.rs MerkleTree::compact
//% spec
    requires old(self).wf(), old(self).is_base() ==> old(self).st().full() && old(self).st().file.ino() == disk_ino(config.file())
            && BaseTreeArity::n() <= 0x4000_0000_0000_0000 && old(self).len * BaseTreeArity::n() <= 0x8000_0000_0000_0000 && config.rows_to_discard <= 0x4000_0000_0000_0000
    ensures r is Ok ==> r->Ok_0 && old(self).is_base() && final(self).is_base() && final(self).st().wf() && final(self).st().full() && config.rows_to_discard < old(self).k()
            && final(self).root == old(self).root && final(self).leafs == old(self).leafs && final(self).row_count == old(self).row_count
            && final(self).st().view() == kept(old(self).st().view(), BaseTreeArity::n(), old(self).k(), config.rows_to_discard as nat, store_version),
//% hint start
    proof { if self.is_base() { self.lemma_base_pos(); assert(self.st().view().len() == tlen(BaseTreeArity::n(), self.k())); } }
//% end
}
/// a level-cache store opened on what compacting (old format) left reads as the nodes of the tree
pub proof fn lemma_roundtrip_v1<E: Element>(v: Seq<E>, b: nat, k: nat, d: nat, s: DiskStore<E>, c: LevelCacheStore<E, File>)
    requires v.len() == tlen(b, k), d < k, b >= 2, s.wf(), s.full(), s.view() == kept(v, b, k, d, 1),
        c.opened(s.file.view(), tlen(b, k) as int, b, d), c.reader is None,
    ensures agrees(c, v),
        forall|lo: int, hi: int| #![trigger c.avail(lo, hi)] (0 <= lo <= hi <= bpow(b, k) || v.len() - tlen(b, (k - 1 - d) as nat) <= lo <= hi <= v.len()) ==> c.avail(lo, hi)
{
    E::el_ax();
    let l = E::blen() as int; let n = bpow(b, k) as int; let w = tlen(b, (k - 1 - d) as nat) as int; let m = tlen(b, k) as int;
    lemma_tlen_mono(b, (k - 1 - d) as nat, k); lemma_tlen_pos(b, (k - 1 - d) as nat); lemma_tlen_pos(b, k);
    lemma_cache_small(b, k, d);
    assert(w + n <= m) by { let j = (k - 1 - d) as nat; if j < k - 1 { lemma_tlen_mono(b, j, (k - 1) as nat); } assert(tlen(b, k) == tlen(b, (k - 1) as nat) + bpow(b, k)); }
    let f = s.file.view();
    assert(s.view().len() == n + w);
    assert(s.len == n + w);
    assert(f.len() == (n + w) * l);
    c.lemma_v1(f, b, k, d);
    let file = slots::<E>(f, (n + w) as nat);
    assert(file =~= s.view());
    assert forall|i: int| 0 <= i < n implies #[trigger] c.view()[i] == v[i] by { assert(c.view().subrange(0, n)[i] == file.subrange(0, n)[i]); }
    assert forall|i: int| m - w <= i < m implies #[trigger] c.view()[i] == v[i] by { assert(c.view().subrange(m - w, m)[i - (m - w)] == file.subrange(n, n + w)[i - (m - w)]); }
    lemma_agrees(v, b, k, d, c);
}
/// a level-cache store opened on what compacting (new format) left, with a reader of the base row, reads as the nodes of the tree
pub proof fn lemma_roundtrip_v2<E: Element>(v: Seq<E>, b: nat, k: nat, d: nat, version: u32, s: DiskStore<E>, c: LevelCacheStore<E, File>)
    requires v.len() == tlen(b, k), d < k, b >= 2, s.wf(), s.full(), version != 1, s.view() == kept(v, b, k, d, version),
        c.opened(s.file.view(), tlen(b, k) as int, b, d), c.reader is Some,
        c.reader->0.offset + bpow(b, k) * E::blen() <= c.reader->0.source.bytes().len(),
        decode::<E>(c.reader->0.source.bytes().subrange(c.reader->0.offset as int, c.reader->0.offset + bpow(b, k) * E::blen())) == v.subrange(0, bpow(b, k) as int),
    ensures agrees(c, v),
        forall|lo: int, hi: int| #![trigger c.avail(lo, hi)] (0 <= lo <= hi <= bpow(b, k) || v.len() - tlen(b, (k - 1 - d) as nat) <= lo <= hi <= v.len()) ==> c.avail(lo, hi)
{
    E::el_ax();
    let l = E::blen() as int; let n = bpow(b, k) as int; let w = tlen(b, (k - 1 - d) as nat) as int; let m = tlen(b, k) as int;
    lemma_tlen_mono(b, (k - 1 - d) as nat, k); lemma_tlen_pos(b, (k - 1 - d) as nat); lemma_tlen_pos(b, k);
    lemma_cache_small(b, k, d);
    assert(w + n <= m) by { let j = (k - 1 - d) as nat; if j < k - 1 { lemma_tlen_mono(b, j, (k - 1) as nat); } assert(tlen(b, k) == tlen(b, (k - 1) as nat) + bpow(b, k)); }
    let f = s.file.view();
    assert(s.view().len() == w);
    assert(s.len == w);
    assert(f.len() == w * l);
    c.lemma_v2(f, b, k, d);
    let file = slots::<E>(f, w as nat);
    assert(file =~= s.view());
    assert forall|i: int| 0 <= i < n implies #[trigger] c.view()[i] == v[i] by { assert(c.view().subrange(0, n)[i] == v.subrange(0, n)[i]); }
    assert forall|i: int| m - w <= i < m implies #[trigger] c.view()[i] == v[i] by { assert(c.view().subrange(m - w, m)[i - (m - w)] == file[i - (m - w)]); }
    lemma_agrees(v, b, k, d, c);
}
proof fn lemma_agrees<E: Element>(v: Seq<E>, b: nat, k: nat, d: nat, c: LevelCacheStore<E, File>)
    requires v.len() == tlen(b, k), d < k, b >= 2, c.shaped(), c.view().len() == v.len(), c.data_width == bpow(b, k), c.cache_index_start == (tlen(b, k) - tlen(b, (k - 1 - d) as nat)) * E::blen(),
        forall|i: int| 0 <= i < bpow(b, k) ==> #[trigger] c.view()[i] == v[i],
        forall|i: int| tlen(b, k) - tlen(b, (k - 1 - d) as nat) <= i < tlen(b, k) ==> #[trigger] c.view()[i] == v[i],
    ensures agrees(c, v)
{
    E::el_ax();
    let l = E::blen() as int; let n = bpow(b, k) as int; let w = tlen(b, (k - 1 - d) as nat) as int; let m = tlen(b, k) as int;
    assert forall|lo: int, hi: int| #![trigger c.avail(lo, hi)] 0 <= lo <= hi <= v.len() && c.avail(lo, hi) implies c.view().subrange(lo, hi) == v.subrange(lo, hi) by {
        if lo < hi {
            assert(lo * l >= (m - w) * l ==> lo >= m - w) by(nonlinear_arith) requires l > 0;
            assert(hi * l <= n * l ==> hi <= n) by(nonlinear_arith) requires l > 0;
            assert((m - w) * l == n * l ==> m - w == n) by(nonlinear_arith) requires l > 0;
            assert forall|i: int| lo <= i < hi implies #[trigger] c.view()[i] == v[i] by { }
        }
        assert(c.view().subrange(lo, hi) =~= v.subrange(lo, hi));
    }
}
/// a compacted tree that is opened again, in either format, is the tree it was made of
pub proof fn lemma_compacted<E: Element, A: Algorithm<E>, B: Unsigned>(t: MerkleTree<E, A, DiskStore<E>, B, U0, U0>, x: MerkleTree<E, A, LevelCacheStore<E, File>, B, U0, U0>)
    requires t.base_wf(), x.base_wf(), x.leafs == t.leafs, t.nodes(t.st().view()), agrees(x.st(), t.st().view()), x.root == x.st().view().last(), x.st().avail(x.len - 1, x.len as int)
    ensures x.base_full(), x.nodes(t.st().view()), x.root == t.root
{
    lemma_bpow_inj(B::n(), x.k(), t.k());
    t.lemma_base_pos();
    lemma_agrees_at(x.st(), x.len - 1);
    assert(x.nodes(t.st().view()));
}
} // verus!
