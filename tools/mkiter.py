#!/usr/bin/env python3
"""Writes contracts/iter_vec.vrs and contracts/iter_disk.vrs: the one set of contracts of the
parallel-iterator macro, for each of the two stores the macro is applied to."""
import os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = r'''verus! {
// ---- rayon and the std iterator traits: what they ask of a producer and of an iterator --------
/// what a producer callback does with a producer is fixed by the items it yields
pub trait ProducerCallback<T>: Sized {
    type Output;
    spec fn want(&self) -> Seq<T>;
    fn callback(self, p: @PROD@<T>) -> (r: Self::Output) where T: Element requires p.ok(), p.items() == self.want();
}
//% item src/store/mod.rs struct impl_parallel_iter(@NARGS@)@PROD@
//% item src/store/mod.rs struct impl_parallel_iter(@NARGS@)@ITER@
impl<'data, E: Element> @PROD@<'data, E> {
    pub open spec fn ok(&self) -> bool { self.store.wf() && self.current <= self.end <= self.store.view().len() && self.store.view().len() * E::blen() <= MAXB }
    /// what the producer yields, in order
    pub open spec fn items(&self) -> Seq<E> { self.store.view().subrange(self.current as int, self.end as int) }
//% fn src/store/mod.rs macro impl_parallel_iter(@ARGS@) @PROD@::new
//% spec
    ensures r.current == current, r.end == end, r.store == store
//% end
//% fn src/store/mod.rs macro impl_parallel_iter(@ARGS@) @PROD@::len
//% spec
    requires self.ok()
    ensures r == self.items().len()
//% end
//% fn src/store/mod.rs macro impl_parallel_iter(@ARGS@) @PROD@::is_empty
//% spec
    requires self.ok()
    ensures r == (self.items().len() == 0)
//% end
//% fn src/store/mod.rs macro impl_parallel_iter(@ARGS@) Producer for @PROD@::into_iter
//% subst Self :: IntoIter => @ITER@ < 'data , E >
//% spec
    requires self.ok()
    ensures r.ok(), r.items() == self.items(), r.st() == self.store, !r.bad()
//% end
//% fn src/store/mod.rs macro impl_parallel_iter(@ARGS@) Producer for @PROD@::split_at
//% spec
    requires self.ok()
    ensures r.0.ok(), r.1.ok(), r.0.items() + r.1.items() == self.items(), r.0.items().len() == (if index <= self.items().len() { index as int } else { self.items().len() as int }),
        r.0.store == self.store, r.1.store == self.store,
//% hint start
    proof {
        let (c, e, v) = (self.current as int, self.end as int, self.store.view());
        let m = if c + index <= e { c + index } else { e };
        assert(v.subrange(c, m) + v.subrange(m, e) =~= v.subrange(c, e));
        assert(v.subrange(0, 0) + v.subrange(0, 0) =~= v.subrange(c, c));
        E::el_ax();
    }
//% end
}
impl<'data, E: Element> @ITER@<'data, E> {
    pub closed spec fn ok(&self) -> bool { self.store.wf() && self.current <= self.end <= self.store.view().len() && self.store.view().len() * E::blen() <= MAXB }
    /// what is still to come, in order
    pub closed spec fn items(&self) -> Seq<E> { self.store.view().subrange(self.current as int, self.end as int) }
    pub closed spec fn st(&self) -> &'data @NAME@<E> { self.store }
    pub closed spec fn bad(&self) -> bool { self.err }
//% fn src/store/mod.rs macro impl_parallel_iter(@ARGS@) ExactSizeIterator for @ITER@::len
//% spec
    requires self.ok()
    ensures r == self.items().len()
//% end
//% fn src/store/mod.rs macro impl_parallel_iter(@ARGS@) @ITER@::is_done
//% spec
    requires self.ok()
    ensures !self.bad() ==> r == (self.items().len() == 0), self.items().len() == 0 ==> r
//% end
//% fn src/store/mod.rs macro impl_parallel_iter(@ARGS@) Iterator for @ITER@::next
//% subst Self :: Item => E
//% spec
    requires old(self).ok()
    ensures final(self).ok(), final(self).st() == old(self).st(),
        r is Some ==> old(self).items().len() > 0 && r->0 == old(self).items()[0] && final(self).items() == old(self).items().skip(1) && final(self).bad() == old(self).bad(),
        r is None ==> final(self).items() == old(self).items() && (old(self).items().len() == 0 || final(self).bad()),
        old(self).st().good() && !old(self).bad() ==> !final(self).bad() && (r is Some <==> old(self).items().len() > 0),
//% hint start
    proof {
        E::el_ax(); self.store.avail_ax();
        let (c, e, v) = (self.current as int, self.end as int, self.store.view());
        if c < e { assert(v.subrange(c + 1, e) =~= v.subrange(c, e).skip(1)); assert((c + 1) * E::blen() <= v.len() * E::blen()) by(nonlinear_arith) requires c + 1 <= v.len(), E::blen() >= 0; }
    }
//% end
//% fn src/store/mod.rs macro impl_parallel_iter(@ARGS@) DoubleEndedIterator for @ITER@::next_back
//% subst Self :: Item => E
//% spec
    requires old(self).ok()
    ensures final(self).ok(), final(self).st() == old(self).st(),
        r is Some ==> old(self).items().len() > 0 && r->0 == old(self).items().last() && final(self).items() == old(self).items().drop_last() && final(self).bad() == old(self).bad(),
        r is None ==> final(self).items() == old(self).items() && (old(self).items().len() == 0 || final(self).bad()),
        old(self).st().good() && !old(self).bad() ==> !final(self).bad() && (r is Some <==> old(self).items().len() > 0),
//% hint start
    proof {
        E::el_ax(); self.store.avail_ax();
        let (c, e, v) = (self.current as int, self.end as int, self.store.view());
        if c < e { assert(v.subrange(c, e - 1) =~= v.subrange(c, e).drop_last()); assert(e * E::blen() <= v.len() * E::blen()) by(nonlinear_arith) requires e <= v.len(), E::blen() >= 0; }
    }
//% end
}
impl<E: Element> @NAME@<E> {
//% fn src/store/mod.rs macro impl_parallel_iter(@ARGS@) IndexedParallelIterator for @NAME@::len
//% as vx_par_len
//% spec
    requires self.wf()
    ensures r == self.view().len()
//% end
//% fn src/store/mod.rs macro impl_parallel_iter(@ARGS@) ParallelIterator for @NAME@::opt_len
//% as vx_par_opt_len
//% spec
    requires self.wf()
    ensures r == Some(self.view().len() as usize)
//% end
//% fn src/store/mod.rs macro impl_parallel_iter(@ARGS@) IndexedParallelIterator for @NAME@::with_producer
//% as vx_par_with_producer
//% subst < CB > => < CB : ProducerCallback < E > >
//% spec
    requires self.wf(), callback.want() == self.view()
//% hint start
    proof { self.wf_ax(); assert(self.view().subrange(0, self.view().len() as int) =~= self.view()); }
//% end
}
/// the same three functions of a borrowed store
pub trait VxPar<E: Element>: Sized {
    spec fn pok(&self) -> bool;
    spec fn pview(&self) -> Seq<E>;
    fn vx_rpar_len(&self) -> (r: usize) requires self.pok() ensures r == self.pview().len();
    fn vx_rpar_opt_len(&self) -> (r: Option<usize>) requires self.pok() ensures r == Some(self.pview().len() as usize);
    fn vx_rpar_with_producer<CB: ProducerCallback<E>>(self, callback: CB) -> (r: CB::Output) requires self.pok(), callback.want() == self.pview();
}
impl<'a, E: Element> VxPar<E> for &'a @NAME@<E> {
    open spec fn pok(&self) -> bool { self.wf() }
    open spec fn pview(&self) -> Seq<E> { self.view() }
//% fn src/store/mod.rs macro impl_parallel_iter(@ARGS@) IndexedParallelIterator for &'a@NAME@<E>::len
//% as vx_rpar_len
//% end
//% fn src/store/mod.rs macro impl_parallel_iter(@ARGS@) ParallelIterator for &'a@NAME@<E>::opt_len
//% as vx_rpar_opt_len
//% end
//% fn src/store/mod.rs macro impl_parallel_iter(@ARGS@) IndexedParallelIterator for &'a@NAME@<E>::with_producer
//% as vx_rpar_with_producer
//% subst < CB > => < CB : ProducerCallback < E > >
//% hint start
    proof { self.wf_ax(); assert(self.view().subrange(0, self.view().len() as int) =~= self.view()); }
//% end
}
} // verus!
'''
for n, p, i, out in (("VecStore", "VecStoreProducer", "VecStoreIter", "iter_vec"), ("DiskStore", "DiskStoreProducer", "DiskIter", "iter_disk")):
    t = T.replace("@NARGS@", "%s,%s,%s" % (n, p, i)).replace("@ARGS@", "%s, %s, %s" % (n, p, i)).replace("@PROD@", p).replace("@ITER@", i).replace("@NAME@", n)
    open(os.path.join(HERE, "contracts", out + ".vrs"), "w").write(t)
