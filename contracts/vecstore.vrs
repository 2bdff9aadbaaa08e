verus! {
//% item src/store/vec.rs struct VecStore
impl<E: Element> Store<E> for VecStore<E> {
    open spec fn view(&self) -> Seq<E> { self.0@ }
    open spec fn wf(&self) -> bool { self.0@.len() * E::blen() <= MAXB }
    open spec fn good(&self) -> bool { true }
    open spec fn env_ok() -> bool { true }
    open spec fn reliable() -> bool { true }
    open spec fn cap(&self) -> nat { MAXB as nat }
    open spec fn avail(&self, lo: int, hi: int) -> bool { true }
    open spec fn holds(&self, lo: int, hi: int) -> bool { true }
    open spec fn at_config(&self, n: nat, b: nat, file: PathBuf, d: nat) -> bool { true }
    open spec fn loaded(&self) -> bool { false }
    open spec fn keeps_all() -> bool { true }
    open spec fn checked() -> bool { false }
    open spec fn has_range_into() -> bool { false }
    proof fn avail_ax(&self) { }
    proof fn wf_ax(&self) { }
//% fn src/store/vec.rs Store for VecStore::new_with_config
//% end
//% fn src/store/vec.rs Store for VecStore::new
//% hint start
    proof { E::el_ax(); assert(size <= size * E::blen()) by(nonlinear_arith) requires E::blen() >= 1, size >= 0; }
//% end
//% fn src/store/vec.rs Store for VecStore::write_at
//% hint start
    proof { E::el_ax(); assert(index + 1 <= (index + 1) * E::blen()) by(nonlinear_arith) requires E::blen() >= 1, index >= 0; }
//% end
//% fn src/store/vec.rs Store for VecStore::copy_from_slice
//% hint start
    let ghost o = self.0@;
    proof {
        E::el_ax();
        assert(start <= start * E::blen()) by(nonlinear_arith) requires E::blen() >= 1, start >= 0;
        let n = buf@.len() as int; let l = E::blen() as int;
        lemma_fundamental_div_mod(n, l);
        assert(n / l <= n && n / l >= 0) by(nonlinear_arith) requires n >= 0, l >= 1;
        assert((start + n / l) * l == start * l + l * (n / l)) by(nonlinear_arith);
        if n % l == 0 { assert((start + n / l) * l <= MAXB); }
    }
//% loop 0
    invariant
        buf@.len() < 0x8000_0000_0000_0000, vx_c0 == E::blen(), E::blen() > 0, vx_n0 == buf@.len() as int / E::blen() as int, vx_i0 <= vx_n0, vx_out0@.len() == vx_i0, vx_s0@ == buf@,
        forall|j: int| 0 <= j < vx_i0 ==> #[trigger] vx_out0@[j] == E::of(buf@.subrange(j * E::blen(), j * E::blen() + E::blen())),
        forall|j: int| 0 <= j < vx_n0 ==> chunk_of(buf@, j, E::blen() as int).len() == E::blen() && #[trigger] chunk_of(buf@, j, E::blen() as int) == buf@.subrange(j * E::blen(), j * E::blen() + E::blen()),
        vx_n0 <= dceil(buf@.len() as int, E::blen() as int),
    decreases vx_n0 - vx_i0
//% hint loop 0 before
    proof {
        E::el_ax();
        assert forall|j: int| 0 <= j < vx_n0 implies chunk_of(buf@, j, E::blen() as int).len() == E::blen() && #[trigger] chunk_of(buf@, j, E::blen() as int) == buf@.subrange(j * E::blen(), j * E::blen() + E::blen()) by { lemma_chunk_exact(buf@, j, E::blen() as int); }
    }
//% hint ret
    proof {
        let els = decode::<E>(buf@);
        let f = self.0@;
        assert(f.len() == (if o.len() >= start + els.len() { o.len() as int } else { start + els.len() }));
        assert forall|i: int| 0 <= i < els.len() implies #[trigger] els[i] == f[start + i] by { }
    }
//% end
//% fn src/store/vec.rs Store for VecStore::new_from_slice_with_config
//% end
//% fn src/store/vec.rs Store for VecStore::new_from_slice
//% hint start
    proof { E::el_ax();
        let n = data@.len() as int; let l = E::blen() as int;
        lemma_fundamental_div_mod(n, l);
        assert((n / l) * l <= n) by(nonlinear_arith) requires n == l * (n / l) + n % l, n % l >= 0;
        assert(size <= size * l) by(nonlinear_arith) requires l >= 1, size >= 0;
    }
//% loop 0
    invariant
        data@.len() < 0x8000_0000_0000_0000, vx_c0 == E::blen(), E::blen() > 0, vx_n0 == data@.len() as int / E::blen() as int, vx_i0 <= vx_n0, vx_out0@.len() == vx_i0, vx_s0@ == data@,
        forall|j: int| 0 <= j < vx_i0 ==> #[trigger] vx_out0@[j] == E::of(data@.subrange(j * E::blen(), j * E::blen() + E::blen())),
        forall|j: int| 0 <= j < vx_n0 ==> chunk_of(data@, j, E::blen() as int).len() == E::blen() && #[trigger] chunk_of(data@, j, E::blen() as int) == data@.subrange(j * E::blen(), j * E::blen() + E::blen()),
        vx_n0 <= dceil(data@.len() as int, E::blen() as int),
    decreases vx_n0 - vx_i0
//% hint loop 0 before
    proof {
        E::el_ax();
        assert forall|j: int| 0 <= j < vx_n0 implies chunk_of(data@, j, E::blen() as int).len() == E::blen() && #[trigger] chunk_of(data@, j, E::blen() as int) == data@.subrange(j * E::blen(), j * E::blen() + E::blen()) by { lemma_chunk_exact(data@, j, E::blen() as int); }
    }
//% hint ret
    proof { assert(v@ =~= decode::<E>(data@)); }
//% end
//% fn src/store/vec.rs Store for VecStore::read_at
//% end
//% fn src/store/vec.rs Store for VecStore::read_into
//% hint start
    proof { E::el_ax(); }
//% end
//% fn src/store/vec.rs Store for VecStore::read_range_into
//% end
//% fn src/store/vec.rs Store for VecStore::read_range
//% ret res
//% hint start
    proof { E::el_ax(); }
//% end
//% fn src/store/vec.rs Store for VecStore::len
//% end
//% fn src/store/vec.rs Store for VecStore::loaded_from_disk
//% end
//% fn src/store/vec.rs Store for VecStore::is_empty
//% end
//% fn src/store/vec.rs Store for VecStore::push
//% hint start
    proof { E::el_ax(); }
//% end
//% fn src/store/mod.rs trait Store::sync
//% end
//% include storebuild.vrs
}
impl<E: Element> VecStore<E> {
//% include storebuild_inner.vrs
}
} // verus!
