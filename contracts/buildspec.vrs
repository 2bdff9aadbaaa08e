            old(self).wf(), U::n() != 1, U::n() <= 0x4000_0000, is_p2(leafs as nat), row_count >= 1,
            2 * (leafs as nat) * E::blen() <= MAXB, bpow(U::n(), (row_count - 1) as nat) <= leafs, old(self).view().len() == leafs ==> rows_fit(leafs as nat, U::n(), old(self).cap() as int),
            _config is Some && !Self::keeps_all() && old(self).view().len() == leafs ==> old(self).at_config(leafs as nat, U::n(), _config->0.file(), _config->0.rows_to_discard as nat),
        ensures final(self).wf(),
            r is Ok ==> good_arity(U::n()) && old(self).view().len() == leafs && final(self).view().len() == tlen(U::n(), (row_count - 1) as nat) && (exists|t: Seq<E>| #[trigger] built::<E, A>(t, old(self).view(), U::n(), (row_count - 1) as nat, r->Ok_0) && t.len() == final(self).view().len() && forall|lo: int, hi: int| #![trigger final(self).avail(lo, hi)] 0 <= lo <= hi <= t.len() && final(self).avail(lo, hi) ==> final(self).view().subrange(lo, hi) == t.subrange(lo, hi)) && shape(U::n(), leafs as nat, (row_count - 1) as nat) && row_count >= 2
                && (Self::keeps_all() ==> is_tree::<E, A>(final(self).view(), old(self).view(), U::n(), (row_count - 1) as nat) && r->Ok_0 == final(self).view().last()),
            old(self).good() && Self::keeps_all() && old(self).view().len() == leafs && shape(U::n(), leafs as nat, (row_count - 1) as nat) && row_count >= 2 && U::n() <= 4096 && old(self).cap() >= tlen(U::n(), (row_count - 1) as nat)
                ==> r is Ok && final(self).good(),
