// ============================================================================================
// Elimination of lifelines (ghost code only).
// ============================================================================================

/// s without the elements of l
pub open spec fn keep(s: Seq<usize>, l: ISet<usize>) -> Seq<usize>
    decreases s.len(),
{
    if s.len() == 0 {
        Seq::empty()
    } else if l.contains(s.last()) {
        keep(s.drop_last(), l)
    } else {
        keep(s.drop_last(), l).push(s.last())
    }
}

pub open spec fn keep_tg(s: Seq<EmissionTargetRef>, l: ISet<usize>) -> Seq<EmissionTargetRef>
    decreases s.len(),
{
    if s.len() == 0 {
        Seq::empty()
    } else if s.last() is Lifeline && l.contains(s.last()->Lifeline_0) {
        keep_tg(s.drop_last(), l)
    } else {
        keep_tg(s.drop_last(), l).push(s.last())
    }
}

pub open spec fn keep_ac(s: Seq<TraceAction>, l: ISet<usize>) -> Seq<TraceAction>
    decreases s.len(),
{
    if s.len() == 0 {
        Seq::empty()
    } else if l.contains(s.last().lf_id) {
        keep_ac(s.drop_last(), l)
    } else {
        keep_ac(s.drop_last(), l).push(s.last())
    }
}

pub open spec fn ec(c: MOp, l: ISet<usize>) -> MOp {
    match c {
        MOp::CoReg(cr) => MOp::CoReg(keep(cr, l)),
        MOp::Sync(s) => MOp::Sync(keep_ac(s, l)),
        _ => c,
    }
}

pub open spec fn se_rec(g: Option<usize>, ms: usize, sy: bool, rs: Seq<usize>) -> SI {
    if rs.len() > 0 { SI::Rec(g, ms, sy, rs) } else { SI::Empty }
}

/// structural elimination: every communication loses the actions which are on the lifelines of l
pub open spec fn se(i: SI, l: ISet<usize>) -> SI
    decreases i,
{
    match i {
        SI::Empty => SI::Empty,
        SI::Em(o, ms, sy, tg) => if l.contains(o) { se_rec(None, ms, sy, keep(lf_targets(tg), l)) } else { SI::Em(o, ms, sy, keep_tg(tg, l)) },
        SI::Rec(g, ms, sy, rs) => se_rec(g, ms, sy, keep(rs, l)),
        SI::Op(c, a, b) => SI::Op(ec(c, l), Box::new(se(*a, l)), Box::new(se(*b, l))),
        SI::Alt(a, b) => SI::Alt(Box::new(se(*a, l)), Box::new(se(*b, l))),
        SI::Loop(k, a) => SI::Loop(k, Box::new(se(*a, l))),
        SI::And(a, b) => i,
    }
}

pub proof fn l_keep_in(s: Seq<usize>, l: ISet<usize>)
    ensures forall|x: usize| #[trigger] keep(s, l).contains(x) == (s.contains(x) && !l.contains(x)), keep(s, l).len() <= s.len(),
    decreases s.len(),
{
    if s.len() > 0 {
        let d = s.drop_last();
        l_keep_in(d, l);
        assert(s =~= d.push(s.last()));
        l_sset_push(d, s.last());
        l_sset_push(keep(d, l), s.last());
        assert forall|x: usize| #[trigger] keep(s, l).contains(x) == (s.contains(x) && !l.contains(x)) by {
            assert(sset(s).contains(x) == sset(d).insert(s.last()).contains(x));
            assert(keep(d, l).contains(x) == (d.contains(x) && !l.contains(x)));
            if !l.contains(s.last()) { assert(sset(keep(s, l)).contains(x) == sset(keep(d, l)).insert(s.last()).contains(x)); }
        }
    }
}

pub proof fn l_keep_ac_in(s: Seq<TraceAction>, l: ISet<usize>)
    ensures forall|x: TraceAction| #[trigger] keep_ac(s, l).contains(x) == (s.contains(x) && !l.contains(x.lf_id)), keep_ac(s, l).len() <= s.len(),
    decreases s.len(),
{
    if s.len() > 0 {
        let d = s.drop_last();
        l_keep_ac_in(d, l);
        assert(s =~= d.push(s.last()));
        l_sset_push(d, s.last());
        l_sset_push(keep_ac(d, l), s.last());
        assert forall|x: TraceAction| #[trigger] keep_ac(s, l).contains(x) == (s.contains(x) && !l.contains(x.lf_id)) by {
            assert(sset(s).contains(x) == sset(d).insert(s.last()).contains(x));
            assert(keep_ac(d, l).contains(x) == (d.contains(x) && !l.contains(x.lf_id)));
            if !l.contains(s.last().lf_id) { assert(sset(keep_ac(s, l)).contains(x) == sset(keep_ac(d, l)).insert(s.last()).contains(x)); }
        }
    }
}

/// the lifelines among the kept targets are the kept lifelines
pub proof fn l_keep_tg(s: Seq<EmissionTargetRef>, l: ISet<usize>)
    ensures lf_targets(keep_tg(s, l)) == keep(lf_targets(s), l),
    decreases s.len(),
{
    if s.len() > 0 {
        let d = s.drop_last();
        l_keep_tg(d, l);
        match s.last() {
            EmissionTargetRef::Lifeline(x) => {
                assert(lf_targets(s).drop_last() =~= lf_targets(d));
                if !l.contains(x) { assert(keep_tg(s, l).drop_last() =~= keep_tg(d, l)); }
            },
            _ => { assert(keep_tg(s, l).drop_last() =~= keep_tg(d, l)); },
        }
    }
}

pub proof fn l_keep_step(s: Seq<usize>, l: ISet<usize>, n: int)
    requires 0 <= n < s.len(),
    ensures keep(s.take(n + 1), l) == (if l.contains(s[n]) { keep(s.take(n), l) } else { keep(s.take(n), l).push(s[n]) }),
{
    assert(s.take(n + 1).drop_last() =~= s.take(n));
}

pub proof fn l_keep_ac_step(s: Seq<TraceAction>, l: ISet<usize>, n: int)
    requires 0 <= n < s.len(),
    ensures keep_ac(s.take(n + 1), l) == (if l.contains(s[n].lf_id) { keep_ac(s.take(n), l) } else { keep_ac(s.take(n), l).push(s[n]) }),
{
    assert(s.take(n + 1).drop_last() =~= s.take(n));
}

pub proof fn l_keep_tg_step(s: Seq<EmissionTargetRef>, l: ISet<usize>, n: int)
    requires 0 <= n < s.len(),
    ensures keep_tg(s.take(n + 1), l) == (if s[n] is Lifeline && l.contains(s[n]->Lifeline_0) { keep_tg(s.take(n), l) } else { keep_tg(s.take(n), l).push(s[n]) }),
        keep(lf_targets(s.take(n + 1)), l) == (match s[n] {
            EmissionTargetRef::Lifeline(x) => if l.contains(x) { keep(lf_targets(s.take(n)), l) } else { keep(lf_targets(s.take(n)), l).push(x) },
            _ => keep(lf_targets(s.take(n)), l),
        }),
{
    l_lft_take(s, n);
    assert(s.take(n + 1).drop_last() =~= s.take(n));
    match s[n] {
        EmissionTargetRef::Lifeline(x) => {
            assert(lf_targets(s.take(n + 1)).drop_last() =~= lf_targets(s.take(n)));
        },
        _ => {},
    }
}

/// no eliminated lifeline remains, no lifeline appears
pub proof fn l_se_inv(i: SI, l: ISet<usize>)
    requires conf(i),
    ensures inv(se(i, l)) == inv(i).difference(l),
    decreases i,
{
    match i {
        SI::Empty => { assert(inv(se(i, l)) =~= inv(i).difference(l)); },
        SI::Em(o, ms, sy, tg) => {
            l_keep_tg(tg, l);
            l_keep_in(lf_targets(tg), l);
            l_lft_len(tg);
            let k = keep(lf_targets(tg), l);
            assert forall|x: usize| inv(se(i, l)).contains(x) == inv(i).difference(l).contains(x) by {
                assert(k.contains(x) == (lf_targets(tg).contains(x) && !l.contains(x)));
            }
            assert(inv(se(i, l)) =~= inv(i).difference(l));
            if l.contains(o) { }
        },
        SI::Rec(g, ms, sy, rs) => {
            l_keep_in(rs, l);
            let k = keep(rs, l);
            assert forall|x: usize| inv(se(i, l)).contains(x) == inv(i).difference(l).contains(x) by {
                assert(k.contains(x) == (rs.contains(x) && !l.contains(x)));
            }
            assert(inv(se(i, l)) =~= inv(i).difference(l));
        },
        SI::Op(c, a, b) => {
            l_se_inv(*a, l); l_se_inv(*b, l);
            assert(inv(se(i, l)) =~= inv(i).difference(l));
        },
        SI::Alt(a, b) => {
            l_se_inv(*a, l); l_se_inv(*b, l);
            assert(inv(se(i, l)) =~= inv(i).difference(l));
        },
        SI::Loop(k, a) => { l_se_inv(*a, l); },
        SI::And(a, b) => {},
    }
}

pub proof fn l_lft_len(s: Seq<EmissionTargetRef>)
    ensures lf_targets(s).len() <= s.len(),
    decreases s.len(),
{
    if s.len() > 0 { l_lft_len(s.drop_last()); }
}

// ------------------------------------------------------------------ projection of traces

pub open spec fn pe(e: Ev, l: ISet<usize>) -> Ev {
    ISet::new(|a: TraceAction| e.contains(a) && !l.contains(a.lf_id))
}

pub open spec fn isnil(e: Ev) -> bool {
    forall|a: TraceAction| !#[trigger] e.contains(a)
}

/// the trace without the actions on the lifelines of l (and without the steps which have no other action)
pub open spec fn pt(t: Tr, l: ISet<usize>) -> Tr
    decreases t.len(),
{
    if t.len() == 0 {
        Seq::empty()
    } else if isnil(pe(t[0], l)) {
        pt(t.drop_first(), l)
    } else {
        cons(pe(t[0], l), pt(t.drop_first(), l))
    }
}

pub proof fn l_pt_av(t: Tr, l: ISet<usize>, n: ISet<usize>)
    requires avt(t, n),
    ensures avt(pt(t, l), n),
    decreases t.len(),
{
    if t.len() > 0 {
        l_avt_first(t, n);
        l_pt_av(t.drop_first(), l, n);
        let d = pt(t.drop_first(), l);
        if !isnil(pe(t[0], l)) {
            l_cons(pe(t[0], l), d);
            l_avt_first(cons(pe(t[0], l), d), n);
        }
    }
}

pub proof fn l_pt_mrg(c: MOp, l: ISet<usize>, t1: Tr, t2: Tr, t: Tr)
    requires mrg(c, t1, t2, t), !(c is Sync),
    ensures mrg(ec(c, l), pt(t1, l), pt(t2, l), pt(t, l)),
    decreases t.len(),
{
    let d = ec(c, l);
    if t.len() > 0 {
        let e = pe(t[0], l);
        let r = pt(t.drop_first(), l);
        l_cons(e, r);
        if t1.len() > 0 && t1[0] == t[0] && mrg(c, t1.drop_first(), t2, t.drop_first()) {
            l_pt_mrg(c, l, t1.drop_first(), t2, t.drop_first());
            l_cons(e, pt(t1.drop_first(), l));
        } else {
            assert(t2.len() > 0 && t2[0] == t[0] && okr(c, t1, t[0]) && mrg(c, t1, t2.drop_first(), t.drop_first()));
            l_pt_mrg(c, l, t1, t2.drop_first(), t.drop_first());
            l_cons(e, pt(t2.drop_first(), l));
            if !isnil(e) {
                assert(okr(d, pt(t1, l), e)) by {
                    match c {
                        MOp::Strict => {},
                        MOp::CoReg(cr) => {
                            l_pt_av(t1, l, need(c, t[0]));
                            l_keep_in(cr, l);
                            assert(need(d, e).subset_of(need(c, t[0]))) by {
                                assert forall|x: usize| need(d, e).contains(x) implies need(c, t[0]).contains(x) by {
                                    let a = choose|a: TraceAction| #[trigger] e.contains(a) && a.lf_id == x;
                                    assert(t[0].contains(a));
                                    assert(keep(cr, l).contains(x) == (cr.contains(x) && !l.contains(x)));
                                }
                            }
                            l_avt_sub(pt(t1, l), need(d, e), need(c, t[0]));
                        },
                        _ => {
                            l_pt_av(t1, l, need(c, t[0]));
                            assert(need(d, e).subset_of(need(c, t[0]))) by {
                                assert forall|x: usize| need(d, e).contains(x) implies need(c, t[0]).contains(x) by {
                                    let a = choose|a: TraceAction| #[trigger] e.contains(a) && a.lf_id == x;
                                    assert(t[0].contains(a));
                                }
                            }
                            l_avt_sub(pt(t1, l), need(d, e), need(c, t[0]));
                        },
                    }
                }
            }
        }
    }
}

pub proof fn l_avt_sub(t: Tr, m: ISet<usize>, n: ISet<usize>)
    requires avt(t, n), m.subset_of(n),
    ensures avt(t, m),
{
    assert forall|k: int| 0 <= k < t.len() implies av_ev(#[trigger] t[k], m) by { assert(av_ev(t[k], n)); }
}

pub proof fn l_keep_remove(s: Seq<usize>, l: ISet<usize>, k: int) -> (j: int)
    requires 0 <= k < s.len(),
    ensures
        l.contains(s[k]) ==> keep(s.remove(k), l) == keep(s, l),
        !l.contains(s[k]) ==> 0 <= j < keep(s, l).len() && keep(s, l)[j] == s[k] && keep(s, l).remove(j) == keep(s.remove(k), l),
    decreases s.len(),
{
    let d = s.drop_last();
    let x = s.last();
    if k == s.len() - 1 {
        assert(s.remove(k) =~= d);
        if !l.contains(x) { assert(keep(s, l).remove(keep(d, l).len() as int) =~= keep(d, l)); }
        keep(d, l).len() as int
    } else {
        let j = l_keep_remove(d, l, k);
        assert(s.remove(k).drop_last() =~= d.remove(k));
        assert(s.remove(k).last() == x);
        if !l.contains(s[k]) && !l.contains(x) {
            assert(keep(s, l).remove(j) =~= keep(d, l).remove(j).push(x));
        }
        j
    }
}

pub proof fn l_pt_recs(ms: usize, rs: Seq<usize>, t: Tr, l: ISet<usize>)
    requires recs(ms, rs, t),
    ensures recs(ms, keep(rs, l), pt(t, l)),
    decreases rs.len(),
{
    if rs.len() > 0 {
        let k = choose|k: int| #![trigger rs.remove(k)]
            0 <= k < rs.len() && t[0] == ISet::<TraceAction>::empty().insert(rc_act(rs[k], ms)) && recs(ms, rs.remove(k), t.drop_first());
        l_pt_recs(ms, rs.remove(k), t.drop_first(), l);
        let j = l_keep_remove(rs, l, k);
        let e = pe(t[0], l);
        let r = pt(t.drop_first(), l);
        l_cons(e, r);
        if l.contains(rs[k]) {
            assert(isnil(e));
        } else {
            assert(e.contains(rc_act(rs[k], ms)));
            assert(e =~= ISet::<TraceAction>::empty().insert(rc_act(rs[k], ms)));
            let ks = keep(rs, l);
            assert(recs(ms, ks.remove(j), r));
        }
    }
}

pub proof fn l_pt_one(e: Ev, l: ISet<usize>, t: Tr)
    requires t.len() == 1, t[0] == e,
    ensures isnil(pe(e, l)) ==> pt(t, l).len() == 0, !isnil(pe(e, l)) ==> pt(t, l).len() == 1 && pt(t, l)[0] == pe(e, l),
{
    assert(t.drop_first().len() == 0);
    l_cons(pe(e, l), pt(t.drop_first(), l));
}


/// PROJECTION THEOREM: the projection of an accepted trace is accepted after elimination
pub proof fn thm_projection(i: SI, l: ISet<usize>, t: Tr)
    requires conf(i), nosync(i), nohf(i), sem(i, t),
    ensures sem(se(i, l), pt(t, l)),
    decreases i, 0nat,
{
    match i {
        SI::Empty => {},
        SI::Em(o, ms, sy, tg) => {
            let rs = lf_targets(tg);
            let k = keep(rs, l);
            l_keep_in(rs, l);
            l_keep_tg(tg, l);
            if sy {
                let e = em_event(o, ms, tg);
                l_pt_one(e, l, t);
                if l.contains(o) {
                    if k.len() > 0 {
                        assert(k.contains(k[0]));
                        assert(pe(e, l).contains(rc_act(k[0], ms)));
                        assert(pe(e, l) =~= rec_event(ms, k)) by {
                            assert forall|a: TraceAction| pe(e, l).contains(a) == rec_event(ms, k).contains(a) by { assert(k.contains(a.lf_id) == (rs.contains(a.lf_id) && !l.contains(a.lf_id))); }
                        }
                    } else {
                        assert forall|a: TraceAction| !#[trigger] pe(e, l).contains(a) by { assert(k.contains(a.lf_id) == (rs.contains(a.lf_id) && !l.contains(a.lf_id))); }
                    }
                } else {
                    assert(pe(e, l).contains(em_act(o, ms)));
                    assert(pe(e, l) =~= em_event(o, ms, keep_tg(tg, l))) by {
                        assert forall|a: TraceAction| pe(e, l).contains(a) == em_event(o, ms, keep_tg(tg, l)).contains(a) by { assert(k.contains(a.lf_id) == (rs.contains(a.lf_id) && !l.contains(a.lf_id))); }
                    }
                }
            } else {
                l_pt_recs(ms, rs, t.drop_first(), l);
                let e = pe(t[0], l);
                l_cons(e, pt(t.drop_first(), l));
                if l.contains(o) {
                    assert(isnil(e));
                } else {
                    assert(e.contains(em_act(o, ms)));
                    assert(e =~= ISet::<TraceAction>::empty().insert(em_act(o, ms)));
                }
            }
        },
        SI::Rec(g, ms, sy, rs) => {
            let k = keep(rs, l);
            l_keep_in(rs, l);
            if sy {
                let e = rec_event(ms, rs);
                l_pt_one(e, l, t);
                if k.len() > 0 {
                    assert(k.contains(k[0]));
                    assert(pe(e, l).contains(rc_act(k[0], ms)));
                    assert(pe(e, l) =~= rec_event(ms, k)) by {
                        assert forall|a: TraceAction| pe(e, l).contains(a) == rec_event(ms, k).contains(a) by { assert(k.contains(a.lf_id) == (rs.contains(a.lf_id) && !l.contains(a.lf_id))); }
                    }
                } else {
                    assert forall|a: TraceAction| !#[trigger] pe(e, l).contains(a) by { assert(k.contains(a.lf_id) == (rs.contains(a.lf_id) && !l.contains(a.lf_id))); }
                }
            } else {
                l_pt_recs(ms, rs, t, l);
            }
        },
        SI::Op(c, a, b) => {
            let (t1, t2) = choose|t1: Tr, t2: Tr| #![trigger mrg(c, t1, t2, t)] sem(*a, t1) && sem(*b, t2) && mrg(c, t1, t2, t);
            thm_projection(*a, l, t1);
            thm_projection(*b, l, t2);
            l_pt_mrg(c, l, t1, t2, t);
        },
        SI::Alt(a, b) => {
            if sem(*a, t) { thm_projection(*a, l, t); } else { thm_projection(*b, l, t); }
        },
        SI::Loop(k, a) => {
            let n = choose|n: nat| #[trigger] tn(n) && pw(k, *a, n, t);
            l_projection_pw(k, *a, l, n, t);
            assert(tn(n));
        },
        SI::And(_, _) => {},
    }
}

pub proof fn l_projection_pw(k: LoopKind, a: SI, l: ISet<usize>, n: nat, t: Tr)
    requires conf(a), nosync(a), nohf(a), !(k is HHeadFirstWS), pw(k, a, n, t),
    ensures pw(k, se(a, l), n, pt(t, l)),
    decreases a, n + 1,
{
    if n > 0 {
        let (t1, t2) = choose|t1: Tr, t2: Tr| #![trigger lmrg(k, t1, t2, t)] sem(a, t1) && pw(k, a, (n - 1) as nat, t2) && lmrg(k, t1, t2, t);
        thm_projection(a, l, t1);
        l_projection_pw(k, a, l, (n - 1) as nat, t2);
        l_pt_mrg(lop(k), l, t1, t2, t);
        assert(lmrg(k, pt(t1, l), pt(t2, l), pt(t, l)));
    }
}

// ------------------------------------------------------------------ goal-oriented lemmas for the contracts

/// r accepts the traces of the structural elimination of l in i, and has no lifeline of l
#[verifier::opaque]
pub open spec fn el(i: SI, l: ISet<usize>, r: SI) -> bool {
    semeq(r, se(i, l)) && inv(r) =~= inv(i).difference(l) && nld(r) <= nld(i) && (nosync(i) ==> nosync(r)) && (nohf(i) ==> nohf(r))
}

pub broadcast proof fn b_el_empty(l: ISet<usize>)
    ensures #[trigger] el(SI::Empty, l, SI::Empty),
{
    reveal(el);
    b_semeq_refl(SI::Empty);
}
pub broadcast proof fn b_el_op(c: MOp, a: SI, b: SI, l: ISet<usize>, ra: SI, rb: SI)
    requires el(a, l, ra), el(b, l, rb), !(c is Sync), !(c is CoReg),
    ensures #[trigger] el(SI::Op(c, Box::new(a), Box::new(b)), l, SI::Op(c, Box::new(ra), Box::new(rb))),
{
    reveal(el);
    b_eq_op(c, ra, rb, se(a, l), se(b, l));
}
pub broadcast proof fn b_el_coreg(cr: Seq<usize>, cr2: Seq<usize>, a: SI, b: SI, l: ISet<usize>, ra: SI, rb: SI)
    requires el(a, l, ra), el(b, l, rb), cr2 == keep(cr, l),
    ensures #[trigger] el(SI::Op(MOp::CoReg(cr), Box::new(a), Box::new(b)), l, SI::Op(MOp::CoReg(cr2), Box::new(ra), Box::new(rb))),
{
    reveal(el);
    b_eq_op(MOp::CoReg(cr2), ra, rb, se(a, l), se(b, l));
}
pub broadcast proof fn b_el_coreg0(cr: Seq<usize>, a: SI, b: SI, l: ISet<usize>, ra: SI, rb: SI)
    requires el(a, l, ra), el(b, l, rb), keep(cr, l).len() == 0,
    ensures #[trigger] el(SI::Op(MOp::CoReg(cr), Box::new(a), Box::new(b)), l, SI::Op(MOp::Seq, Box::new(ra), Box::new(rb))),
{
    reveal(el);
    b_eq_coreg_nil(keep(cr, l), ra, rb, se(a, l), se(b, l));
}
pub broadcast proof fn b_el_sync(s: Seq<TraceAction>, s2: Seq<TraceAction>, a: SI, b: SI, l: ISet<usize>, ra: SI, rb: SI)
    requires el(a, l, ra), el(b, l, rb), s2 == keep_ac(s, l),
    ensures #[trigger] el(SI::Op(MOp::Sync(s), Box::new(a), Box::new(b)), l, SI::Op(MOp::Sync(s2), Box::new(ra), Box::new(rb))),
{
    reveal(el);
    b_eq_op(MOp::Sync(s2), ra, rb, se(a, l), se(b, l));
}
pub broadcast proof fn b_el_sync0(s: Seq<TraceAction>, a: SI, b: SI, l: ISet<usize>, ra: SI, rb: SI)
    requires el(a, l, ra), el(b, l, rb), keep_ac(s, l).len() == 0,
    ensures #[trigger] el(SI::Op(MOp::Sync(s), Box::new(a), Box::new(b)), l, SI::Op(MOp::Par, Box::new(ra), Box::new(rb))),
{
    reveal(el);
    b_eq_sync_nil(keep_ac(s, l), ra, rb, se(a, l), se(b, l));
}
pub broadcast proof fn b_el_sync_l(s: Seq<TraceAction>, a: SI, b: SI, l: ISet<usize>, rb: SI)
    requires el(a, l, SI::Empty), el(b, l, rb), keep_ac(s, l).len() == 0,
    ensures #[trigger] el(SI::Op(MOp::Sync(s), Box::new(a), Box::new(b)), l, rb),
{
    reveal(el);
    assert(inv(SI::Empty) =~= inv(a).difference(l));
    assert forall|x: usize| inv(a).contains(x) implies l.contains(x) by { assert(!inv(SI::Empty).contains(x)); }
    b_eq_sync_nil_l(keep_ac(s, l), rb, se(a, l), se(b, l));
}
pub broadcast proof fn b_el_sync_r(s: Seq<TraceAction>, a: SI, b: SI, l: ISet<usize>, ra: SI)
    requires el(a, l, ra), el(b, l, SI::Empty), keep_ac(s, l).len() == 0,
    ensures #[trigger] el(SI::Op(MOp::Sync(s), Box::new(a), Box::new(b)), l, ra),
{
    reveal(el);
    assert(inv(SI::Empty) =~= inv(b).difference(l));
    assert forall|x: usize| inv(b).contains(x) implies l.contains(x) by { assert(!inv(SI::Empty).contains(x)); }
    b_eq_sync_nil_r(keep_ac(s, l), ra, se(a, l), se(b, l));
}
pub broadcast proof fn b_el_nil_l(c: MOp, a: SI, b: SI, l: ISet<usize>, rb: SI)
    requires el(a, l, SI::Empty), el(b, l, rb), !(c is Sync),
    ensures #[trigger] el(SI::Op(c, Box::new(a), Box::new(b)), l, rb),
{
    reveal(el);
    assert(inv(SI::Empty) =~= inv(a).difference(l));
    assert forall|x: usize| inv(a).contains(x) implies l.contains(x) by { assert(!inv(SI::Empty).contains(x)); }
    b_eq_nil_l(ec(c, l), rb, se(a, l), se(b, l));
}
pub broadcast proof fn b_el_nil_r(c: MOp, a: SI, b: SI, l: ISet<usize>, ra: SI)
    requires el(a, l, ra), el(b, l, SI::Empty), !(c is Sync),
    ensures #[trigger] el(SI::Op(c, Box::new(a), Box::new(b)), l, ra),
{
    reveal(el);
    assert(inv(SI::Empty) =~= inv(b).difference(l));
    assert forall|x: usize| inv(b).contains(x) implies l.contains(x) by { assert(!inv(SI::Empty).contains(x)); }
    b_eq_nil_r(ec(c, l), ra, se(a, l), se(b, l));
}
pub broadcast proof fn b_el_alt(a: SI, b: SI, l: ISet<usize>, ra: SI, rb: SI)
    requires el(a, l, ra), el(b, l, rb),
    ensures #[trigger] el(SI::Alt(Box::new(a), Box::new(b)), l, SI::Alt(Box::new(ra), Box::new(rb))),
{
    reveal(el);
    b_eq_alt(ra, rb, se(a, l), se(b, l));
}
pub broadcast proof fn b_el_alt0(a: SI, b: SI, l: ISet<usize>)
    requires el(a, l, SI::Empty), el(b, l, SI::Empty),
    ensures #[trigger] el(SI::Alt(Box::new(a), Box::new(b)), l, SI::Empty),
{
    reveal(el);
    b_eq_alt_nil(se(a, l), se(b, l));
}
pub broadcast proof fn b_el_loop(k: LoopKind, a: SI, l: ISet<usize>, ra: SI)
    requires el(a, l, ra),
    ensures #[trigger] el(SI::Loop(k, Box::new(a)), l, SI::Loop(k, Box::new(ra))),
{
    reveal(el);
    b_eq_loop(k, ra, se(a, l));
}
pub broadcast proof fn b_el_loop0(k: LoopKind, a: SI, l: ISet<usize>)
    requires el(a, l, SI::Empty),
    ensures #[trigger] el(SI::Loop(k, Box::new(a)), l, SI::Empty),
{
    reveal(el);
    b_eq_loop_nil(k, se(a, l));
}
pub broadcast proof fn b_el_merge(k: LoopKind, k2: LoopKind, m: LoopKind, a: SI, l: ISet<usize>, x: SI)
    requires el(a, l, SI::Loop(k2, Box::new(x))), #[trigger] loop_merge_ok(k, k2), m == lk_min(k, k2),
    ensures #[trigger] el(SI::Loop(k, Box::new(a)), l, SI::Loop(m, Box::new(x))),
{
    reveal(el);
    b_eq_loop_merge(m, k, k2, x, se(a, l));
}
pub broadcast group g_el {
    b_el_empty, b_el_op, b_el_coreg, b_el_coreg0, b_el_sync, b_el_sync0, b_el_sync_l, b_el_sync_r, b_el_nil_l, b_el_nil_r,
    b_el_alt, b_el_alt0, b_el_loop, b_el_loop0, b_el_merge,
}

/// what the contract of `eliminate_lifelines` means for the users
pub proof fn thm_eliminate(i: SI, l: ISet<usize>, r: SI)
    requires conf(i), el(i, l, r),
    ensures
        inv(r).disjoint(l),
        inv(r) == inv(i).difference(l),
        forall|t: Tr| #[trigger] sem(r, t) == sem(se(i, l), t),
        nosync(i) && nohf(i) ==> forall|t: Tr| sem(i, t) ==> sem(r, #[trigger] pt(t, l)),
{
    reveal(el);
    reveal(semeq);
    if nosync(i) && nohf(i) {
        assert forall|t: Tr| sem(i, t) implies sem(r, #[trigger] pt(t, l)) by {
            thm_projection(i, l, t);
            assert(sem(r, pt(t, l)) == sem(se(i, l), pt(t, l)));
        }
    }
}
