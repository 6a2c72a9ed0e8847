// ============================================================================================
// Lemmas on the composition of traces and on languages (ghost code only).
// ============================================================================================

pub proof fn l_first(t: Tr)
    requires t.len() > 0,
    ensures t =~= seq![t[0]] + t.drop_first(),
{
}

pub open spec fn cons(e: Ev, t: Tr) -> Tr {
    seq![e] + t
}

pub broadcast proof fn l_cons(e: Ev, t: Tr)
    ensures
        (#[trigger] cons(e, t)).len() == t.len() + 1,
        cons(e, t)[0] == e,
        cons(e, t).drop_first() == t,
{
    assert(cons(e, t).drop_first() =~= t);
}

pub proof fn l_uncons(t: Tr)
    requires t.len() > 0,
    ensures t == cons(t[0], t.drop_first()),
{
    assert(t =~= cons(t[0], t.drop_first()));
}

pub proof fn l_avt_first(t: Tr, l: ISet<usize>)
    requires t.len() > 0,
    ensures avt(t, l) == (av_ev(t[0], l) && avt(t.drop_first(), l)),
{
    if av_ev(t[0], l) && avt(t.drop_first(), l) {
        assert forall|k: int| 0 <= k < t.len() implies av_ev(#[trigger] t[k], l) by {
            if k > 0 {
                assert(t.drop_first()[k - 1] == t[k]);
            }
        }
    }
    if avt(t, l) {
        assert forall|k: int| 0 <= k < t.drop_first().len() implies av_ev(#[trigger] t.drop_first()[k], l) by {
            assert(t.drop_first()[k] == t[k + 1]);
        }
    }
}

pub proof fn l_avt_all(l: ISet<usize>)
    ensures forall|t: Tr| t.len() > 0 ==> (#[trigger] avt(t, l)) == (av_ev(t[0], l) && avt(t.drop_first(), l)),
{
    assert forall|t: Tr| t.len() > 0 implies (#[trigger] avt(t, l)) == (av_ev(t[0], l) && avt(t.drop_first(), l)) by {
        l_avt_first(t, l);
    }
}

pub proof fn l_mrg_avt(c: MOp, t1: Tr, t2: Tr, t: Tr, l: ISet<usize>)
    requires mrg(c, t1, t2, t),
    ensures avt(t, l) == (avt(t1, l) && avt(t2, l)),
    decreases t.len(),
{
    if t.len() > 0 {
        l_avt_first(t, l);
        if t1.len() > 0 && t1[0] == t[0] && solo(c, t[0]) && mrg(c, t1.drop_first(), t2, t.drop_first()) {
            l_mrg_avt(c, t1.drop_first(), t2, t.drop_first(), l);
            l_avt_first(t1, l);
        } else if t2.len() > 0 && t2[0] == t[0] && solo(c, t[0]) && okr(c, t1, t[0]) && mrg(c, t1, t2.drop_first(), t.drop_first()) {
            l_mrg_avt(c, t1, t2.drop_first(), t.drop_first(), l);
            l_avt_first(t2, l);
        } else {
            l_mrg_avt(c, t1.drop_first(), t2.drop_first(), t.drop_first(), l);
            l_avt_first(t1, l);
            l_avt_first(t2, l);
            assert(av_ev(t[0], l) == (av_ev(t1[0], l) && av_ev(t2[0], l))) by {
                if av_ev(t[0], l) {
                    assert forall|a: TraceAction| #[trigger] t1[0].contains(a) implies !l.contains(a.lf_id) by {
                        assert(t[0].contains(a));
                    }
                    assert forall|a: TraceAction| #[trigger] t2[0].contains(a) implies !l.contains(a.lf_id) by {
                        assert(t[0].contains(a));
                    }
                }
            }
        }
    }
}

pub proof fn l_mrg_len(c: MOp, t1: Tr, t2: Tr, t: Tr)
    requires mrg(c, t1, t2, t),
    ensures t.len() == 0 <==> (t1.len() == 0 && t2.len() == 0), t.len() >= t1.len(), t.len() >= t2.len(),
        !(c is Sync) ==> t.len() == t1.len() + t2.len(),
    decreases t.len(),
{
    if t.len() > 0 {
        if t1.len() > 0 && t1[0] == t[0] && solo(c, t[0]) && mrg(c, t1.drop_first(), t2, t.drop_first()) {
            l_mrg_len(c, t1.drop_first(), t2, t.drop_first());
        } else if t2.len() > 0 && t2[0] == t[0] && solo(c, t[0]) && okr(c, t1, t[0]) && mrg(c, t1, t2.drop_first(), t.drop_first()) {
            l_mrg_len(c, t1, t2.drop_first(), t.drop_first());
        } else {
            l_mrg_len(c, t1.drop_first(), t2.drop_first(), t.drop_first());
            assert(!solo(c, t1[0]));
            assert(c is Sync);
        }
    }
}

/// the empty trace is neutral on the left
pub proof fn l_mrg_nil_l(c: MOp, t2: Tr, t: Tr)
    requires !(c is Sync),
    ensures mrg(c, Seq::empty(), t2, t) == (t == t2),
    decreases t.len(),
{
    let e = Seq::<Ev>::empty();
    if t.len() > 0 {
        if t2.len() > 0 {
            l_mrg_nil_l(c, t2.drop_first(), t.drop_first());
            if t[0] == t2[0] && t.drop_first() == t2.drop_first() {
                l_uncons(t);
                l_uncons(t2);
            }
            assert(okr(c, e, t[0]));
            assert(solo(c, t[0]));
        }
    } else {
        if t2.len() == 0 {
            assert(t =~= t2);
        }
    }
}

pub proof fn l_mrg_nil_r(c: MOp, t1: Tr, t: Tr)
    requires !(c is Sync),
    ensures mrg(c, t1, Seq::empty(), t) == (t == t1),
    decreases t.len(),
{
    if t.len() > 0 {
        if t1.len() > 0 {
            l_mrg_nil_r(c, t1.drop_first(), t.drop_first());
            if t[0] == t1[0] && t.drop_first() == t1.drop_first() {
                l_uncons(t);
                l_uncons(t1);
            }
            assert(solo(c, t[0]));
        }
    } else {
        if t1.len() == 0 {
            assert(t =~= t1);
        }
    }
}

/// associativity, from ((x y) z) to (x (y z))
pub proof fn l_assoc_r(c: MOp, x: Tr, y: Tr, z: Tr, xy: Tr, t: Tr) -> (yz: Tr)
    requires !(c is Sync), mrg(c, x, y, xy), mrg(c, xy, z, t),
    ensures mrg(c, y, z, yz), mrg(c, x, yz, t),
    decreases t.len(),
{
    if t.len() == 0 {
        l_mrg_len(c, x, y, xy);
        Seq::empty()
    } else {
        let e = t[0];
        let tt = t.drop_first();
        l_avt_all(need(c, e));
        assert(solo(c, e));
        if xy.len() > 0 && xy[0] == e && mrg(c, xy.drop_first(), z, tt) {
            let xyt = xy.drop_first();
            if x.len() > 0 && x[0] == e && mrg(c, x.drop_first(), y, xyt) {
                let yz = l_assoc_r(c, x.drop_first(), y, z, xyt, tt);
                yz
            } else {
                assert(solo(c, x[0]));
                assert(y.len() > 0 && y[0] == e && okr(c, x, e) && mrg(c, x, y.drop_first(), xyt));
                let yzt = l_assoc_r(c, x, y.drop_first(), z, xyt, tt);
                let yz = cons(e, yzt);
                l_cons(e, yzt);
                yz
            }
        } else {
            assert(solo(c, xy[0]));
            assert(z.len() > 0 && z[0] == e && okr(c, xy, e) && mrg(c, xy, z.drop_first(), tt));
            let yzt = l_assoc_r(c, x, y, z.drop_first(), xy, tt);
            let yz = cons(e, yzt);
            l_cons(e, yzt);
            l_mrg_avt(c, x, y, xy, need(c, e));
            l_mrg_len(c, x, y, xy);
            assert(okr(c, y, e));
            assert(okr(c, x, e));
            yz
        }
    }
}

/// associativity, from (x (y z)) to ((x y) z)
pub proof fn l_assoc_l(c: MOp, x: Tr, y: Tr, z: Tr, yz: Tr, t: Tr) -> (xy: Tr)
    requires !(c is Sync), mrg(c, y, z, yz), mrg(c, x, yz, t),
    ensures mrg(c, x, y, xy), mrg(c, xy, z, t),
    decreases t.len(),
{
    if t.len() == 0 {
        l_mrg_len(c, y, z, yz);
        Seq::empty()
    } else {
        let e = t[0];
        let tt = t.drop_first();
        assert(solo(c, e));
        if x.len() > 0 && x[0] == e && mrg(c, x.drop_first(), yz, tt) {
            let xyt = l_assoc_l(c, x.drop_first(), y, z, yz, tt);
            l_cons(e, xyt);
            cons(e, xyt)
        } else {
            assert(x.len() > 0 ==> solo(c, x[0]));
            assert(yz.len() > 0 && yz[0] == e && okr(c, x, e) && mrg(c, x, yz.drop_first(), tt));
            let yzt = yz.drop_first();
            if y.len() > 0 && y[0] == e && mrg(c, y.drop_first(), z, yzt) {
                let xyt = l_assoc_l(c, x, y.drop_first(), z, yzt, tt);
                l_cons(e, xyt);
                cons(e, xyt)
            } else {
                assert(y.len() > 0 ==> solo(c, y[0]));
                assert(z.len() > 0 && z[0] == e && okr(c, y, e) && mrg(c, y, z.drop_first(), yzt));
                let xy = l_assoc_l(c, x, y, z.drop_first(), yzt, tt);
                l_mrg_avt(c, x, y, xy, need(c, e));
                l_mrg_len(c, x, y, xy);
                assert(okr(c, xy, e));
                xy
            }
        }
    }
}

pub proof fn l_par_comm(x: Tr, y: Tr, t: Tr)
    requires mrg(MOp::Par, x, y, t),
    ensures mrg(MOp::Par, y, x, t),
    decreases t.len(),
{
    if t.len() > 0 {
        let c = MOp::Par;
        assert(solo(c, t[0]));
        assert(forall|u: Tr| #[trigger] okr(c, u, t[0]));
        if x.len() > 0 && x[0] == t[0] && mrg(c, x.drop_first(), y, t.drop_first()) {
            l_par_comm(x.drop_first(), y, t.drop_first());
        } else {
            assert(x.len() > 0 ==> solo(c, x[0]));
            l_par_comm(x, y.drop_first(), t.drop_first());
        }
    }
}

// ---------------------------------------------------------------------------- languages: elementary facts

pub proof fn l_recs_acts(ms: usize, rs: Seq<usize>, t: Tr)
    requires recs(ms, rs, t),
    ensures
        forall|k: int| 0 <= k < t.len() ==> (#[trigger] t[k]).subset_of(rec_event(ms, rs)),
        forall|r: usize| #[trigger] rs.contains(r) ==> exists|k: int| 0 <= k < t.len() && (#[trigger] t[k]).contains(rc_act(r, ms)),
        t.len() == rs.len(),
    decreases rs.len(),
{
    if rs.len() > 0 {
        let k0 = choose|k: int| #![trigger rs.remove(k)]
            0 <= k < rs.len() && t[0] == ISet::<TraceAction>::empty().insert(rc_act(rs[k], ms)) && recs(ms, rs.remove(k), t.drop_first());
        let rs2 = rs.remove(k0);
        l_recs_acts(ms, rs2, t.drop_first());
        assert forall|r: usize| rs2.contains(r) implies rs.contains(r) by {
            let j = choose|j: int| 0 <= j < rs2.len() && rs2[j] == r;
            if j < k0 { assert(rs[j] == r); } else { assert(rs[j + 1] == r); }
        }
        assert forall|k: int| 0 <= k < t.len() implies (#[trigger] t[k]).subset_of(rec_event(ms, rs)) by {
            if k > 0 {
                assert(t[k] == t.drop_first()[k - 1]);
                assert(rec_event(ms, rs2).subset_of(rec_event(ms, rs)));
            } else {
                assert(rs.contains(rs[k0]));
            }
        }
        assert forall|r: usize| #[trigger] rs.contains(r) implies exists|k: int| 0 <= k < t.len() && (#[trigger] t[k]).contains(rc_act(r, ms)) by {
            let j = choose|j: int| 0 <= j < rs.len() && rs[j] == r;
            if j == k0 {
                assert(t[0].contains(rc_act(r, ms)));
            } else {
                if j < k0 { assert(rs2[j] == r); } else { assert(rs2[j - 1] == r); }
                assert(rs2.contains(r));
                let k = choose|k: int| 0 <= k < t.drop_first().len() && (#[trigger] t.drop_first()[k]).contains(rc_act(r, ms));
                assert(t[k + 1] == t.drop_first()[k]);
            }
        }
    }
}

pub open spec fn evs_in(t: Tr, s: ISet<TraceAction>) -> bool {
    forall|k: int| 0 <= k < t.len() ==> (#[trigger] t[k]).subset_of(s)
}

pub proof fn l_evs_first(t: Tr, s: ISet<TraceAction>)
    requires t.len() > 0,
    ensures evs_in(t, s) == (t[0].subset_of(s) && evs_in(t.drop_first(), s)),
{
    if t[0].subset_of(s) && evs_in(t.drop_first(), s) {
        assert forall|k: int| 0 <= k < t.len() implies (#[trigger] t[k]).subset_of(s) by {
            if k > 0 { assert(t.drop_first()[k - 1] == t[k]); }
        }
    }
    if evs_in(t, s) {
        assert forall|k: int| 0 <= k < t.drop_first().len() implies (#[trigger] t.drop_first()[k]).subset_of(s) by {
            assert(t.drop_first()[k] == t[k + 1]);
        }
    }
}

pub proof fn l_mrg_evs(c: MOp, t1: Tr, t2: Tr, t: Tr, s: ISet<TraceAction>)
    requires mrg(c, t1, t2, t),
    ensures evs_in(t, s) == (evs_in(t1, s) && evs_in(t2, s)),
    decreases t.len(),
{
    if t.len() > 0 {
        l_evs_first(t, s);
        if t1.len() > 0 && t1[0] == t[0] && solo(c, t[0]) && mrg(c, t1.drop_first(), t2, t.drop_first()) {
            l_mrg_evs(c, t1.drop_first(), t2, t.drop_first(), s);
            l_evs_first(t1, s);
        } else if t2.len() > 0 && t2[0] == t[0] && solo(c, t[0]) && okr(c, t1, t[0]) && mrg(c, t1, t2.drop_first(), t.drop_first()) {
            l_mrg_evs(c, t1, t2.drop_first(), t.drop_first(), s);
            l_evs_first(t2, s);
        } else {
            l_mrg_evs(c, t1.drop_first(), t2.drop_first(), t.drop_first(), s);
            l_evs_first(t1, s);
            l_evs_first(t2, s);
            if t[0].subset_of(s) {
                assert forall|a: TraceAction| t1[0].contains(a) implies s.contains(a) by { assert(t[0].contains(a)); }
                assert forall|a: TraceAction| t2[0].contains(a) implies s.contains(a) by { assert(t[0].contains(a)); }
            }
        }
    }
}

/// the steps of the accepted traces only contain actions of the term
pub proof fn l_sem_acts(i: SI, t: Tr)
    requires sem(i, t),
    ensures evs_in(t, acts(i)),
    decreases i, 0nat,
{
    match i {
        SI::Em(o, ms, sy, tg) => {
            if !sy {
                l_recs_acts(ms, lf_targets(tg), t.drop_first());
                assert(evs_in(t.drop_first(), rec_event(ms, lf_targets(tg))));
                assert(evs_in(t.drop_first(), acts(i)));
                l_evs_first(t, acts(i));
            }
        },
        SI::Rec(_, ms, sy, rs) => {
            if !sy { l_recs_acts(ms, rs, t); }
        },
        SI::Op(c, a, b) => {
            let (t1, t2) = choose|t1: Tr, t2: Tr| #![trigger mrg(c, t1, t2, t)] sem(*a, t1) && sem(*b, t2) && mrg(c, t1, t2, t);
            l_sem_acts(*a, t1);
            l_sem_acts(*b, t2);
            assert(evs_in(t1, acts(i)));
            assert(evs_in(t2, acts(i)));
            l_mrg_evs(c, t1, t2, t, acts(i));
        },
        SI::Alt(a, b) => {
            if sem(*a, t) { l_sem_acts(*a, t); } else { l_sem_acts(*b, t); }
        },
        SI::Loop(k, a) => {
            let n = choose|n: nat| #[trigger] tn(n) && pw(k, *a, n, t);
            l_pw_acts(k, *a, n, t);
        },
        _ => {},
    }
}

pub proof fn l_pw_acts(k: LoopKind, i: SI, n: nat, t: Tr)
    requires pw(k, i, n, t),
    ensures evs_in(t, acts(i)),
    decreases i, n + 1,
{
    if n > 0 {
        let (t1, t2) = choose|t1: Tr, t2: Tr| #![trigger lmrg(k, t1, t2, t)] sem(i, t1) && pw(k, i, (n - 1) as nat, t2) && lmrg(k, t1, t2, t);
        l_sem_acts(i, t1);
        l_pw_acts(k, i, (n - 1) as nat, t2);
        l_mrg_evs(lop(k), t1, t2, t, acts(i));
    }
}

pub proof fn l_sem_nil(i: SI)
    requires conf(i),
    ensures sem(i, Seq::empty()) == nullable(i),
    decreases i,
{
    let e = Seq::<Ev>::empty();
    match i {
        SI::Op(c, a, b) => {
            l_sem_nil(*a);
            l_sem_nil(*b);
            assert(mrg(c, e, e, e));
            if sem(i, e) {
                let (t1, t2) = choose|t1: Tr, t2: Tr| #![trigger mrg(c, t1, t2, e)] sem(*a, t1) && sem(*b, t2) && mrg(c, t1, t2, e);
                assert(t1 =~= e);
                assert(t2 =~= e);
            }
        },
        SI::Alt(a, b) => { l_sem_nil(*a); l_sem_nil(*b); },
        SI::Loop(k, a) => { assert(tn(0) && pw(k, *a, 0, e)); },
        _ => {},
    }
}

pub open spec fn acts_inv_ok(x: ISet<TraceAction>, y: ISet<usize>) -> bool {
    &&& forall|a: TraceAction| #[trigger] x.contains(a) ==> y.contains(a.lf_id)
    &&& forall|l: usize| #[trigger] y.contains(l) ==> exists|a: TraceAction| #[trigger] x.contains(a) && a.lf_id == l
}

pub proof fn l_acts_inv_u(a: SI, b: SI)
    requires acts_inv_ok(acts(a), inv(a)), acts_inv_ok(acts(b), inv(b)),
    ensures acts_inv_ok(acts(a).union(acts(b)), inv(a).union(inv(b))),
{
    let u = acts(a).union(acts(b));
    assert forall|l: usize| #[trigger] inv(a).union(inv(b)).contains(l) implies exists|x: TraceAction| #[trigger] u.contains(x) && x.lf_id == l by {
        if inv(a).contains(l) {
            let x = choose|x: TraceAction| #[trigger] acts(a).contains(x) && x.lf_id == l;
            assert(u.contains(x));
        } else {
            let x = choose|x: TraceAction| #[trigger] acts(b).contains(x) && x.lf_id == l;
            assert(u.contains(x));
        }
    }
}

/// the lifelines of the actions of a term are the lifelines it involves
pub proof fn l_acts_inv(i: SI)
    ensures acts_inv_ok(acts(i), inv(i)),
    decreases i,
{
    match i {
        SI::Em(o, ms, _, tg) => {
            assert forall|l: usize| #[trigger] inv(i).contains(l) implies exists|a: TraceAction| acts(i).contains(a) && a.lf_id == l by {
                if l == o { assert(acts(i).contains(em_act(o, ms))); } else { assert(acts(i).contains(rc_act(l, ms))); }
            }
        },
        SI::Rec(_, ms, _, rs) => {
            assert forall|l: usize| #[trigger] inv(i).contains(l) implies exists|a: TraceAction| acts(i).contains(a) && a.lf_id == l by {
                assert(acts(i).contains(rc_act(l, ms)));
            }
        },
        SI::Op(_, a, b) => {
            l_acts_inv(*a);
            l_acts_inv(*b);
            l_acts_inv_u(*a, *b);
        },
        SI::Alt(a, b) => {
            l_acts_inv(*a);
            l_acts_inv(*b);
            l_acts_inv_u(*a, *b);
        },
        SI::Loop(_, a) => { l_acts_inv(*a); },
        _ => {},
    }
}

pub proof fn l_disj_avt(i: SI, l: ISet<usize>, t: Tr)
    requires inv(i).disjoint(l), sem(i, t),
    ensures avt(t, l),
{
    l_sem_acts(i, t);
    l_acts_inv(i);
    assert forall|k: int| 0 <= k < t.len() implies av_ev(#[trigger] t[k], l) by {
        assert forall|a: TraceAction| #[trigger] t[k].contains(a) implies !l.contains(a.lf_id) by {
            assert(acts(i).contains(a));
            assert(inv(i).contains(a.lf_id));
        }
    }
}

pub proof fn l_recs_touch(ms: usize, rs: Seq<usize>, t: Tr, l: ISet<usize>)
    requires recs(ms, rs, t), !sset(rs).disjoint(l),
    ensures !avt(t, l),
{
    let r = choose|r: usize| sset(rs).contains(r) && l.contains(r);
    assert(exists|r: usize| sset(rs).contains(r) && l.contains(r));
    assert(rs.contains(r));
    l_recs_acts(ms, rs, t);
    let k = choose|k: int| 0 <= k < t.len() && (#[trigger] t[k]).contains(rc_act(r, ms));
    assert(!av_ev(t[k], l));
}

/// a term which does not "avoid" a set of lifelines has no trace without action on them
pub proof fn l_av_none(i: SI, l: ISet<usize>, t: Tr)
    requires !av(i, l), sem(i, t),
    ensures !avt(t, l),
    decreases i,
{
    match i {
        SI::Em(o, ms, sy, tg) => {
            assert(exists|r: usize| em_lfs(o, tg).contains(r) && l.contains(r));
            let r = choose|r: usize| em_lfs(o, tg).contains(r) && l.contains(r);
            if sy {
                assert(t[0].contains(em_act(o, ms)));
                if r != o { assert(t[0].contains(rc_act(r, ms))); }
                assert(!av_ev(t[0], l));
            } else {
                if r == o {
                    assert(t[0].contains(em_act(o, ms)));
                    assert(!av_ev(t[0], l));
                } else {
                    assert(sset(lf_targets(tg)).contains(r));
                    l_recs_touch(ms, lf_targets(tg), t.drop_first(), l);
                    l_avt_first(t, l);
                }
            }
        },
        SI::Rec(_, ms, sy, rs) => {
            if sy {
                assert(exists|r: usize| sset(rs).contains(r) && l.contains(r));
                let r = choose|r: usize| sset(rs).contains(r) && l.contains(r);
                assert(t[0].contains(rc_act(r, ms)));
                assert(!av_ev(t[0], l));
            } else {
                l_recs_touch(ms, rs, t, l);
            }
        },
        SI::Op(c, a, b) => {
            let (t1, t2) = choose|t1: Tr, t2: Tr| #![trigger mrg(c, t1, t2, t)] sem(*a, t1) && sem(*b, t2) && mrg(c, t1, t2, t);
            l_mrg_avt(c, t1, t2, t, l);
            if !av(*a, l) { l_av_none(*a, l, t1); } else { l_av_none(*b, l, t2); }
        },
        SI::Alt(a, b) => {
            if sem(*a, t) { l_av_none(*a, l, t); } else { l_av_none(*b, l, t); }
        },
        _ => {},
    }
}

