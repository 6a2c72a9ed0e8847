// ============================================================================================
// Affected lifelines (ghost code only).
// ============================================================================================


/// from the point of view of the lifelines outside of any superset of `aff`, r is as i
#[verifier::opaque]
pub open spec fn ao(i: SI, aff: ISet<usize>, r: SI) -> bool {
    forall|l: ISet<usize>| aff.subset_of(l) ==> #[trigger] semeq(se(i, l), se(r, l))
}

pub proof fn l_ao_at(i: SI, aff: ISet<usize>, r: SI, l: ISet<usize>)
    requires ao(i, aff, r), aff.subset_of(l),
    ensures semeq(se(i, l), se(r, l)),
{
    reveal(ao);
}

pub broadcast proof fn b_iv_self(i: SI)
    ensures #[trigger] ivs(i, i),
{
    reveal(ivs);
}
pub broadcast proof fn b_iv_empty(i: SI)
    ensures #[trigger] ivs(i, SI::Empty),
{
    reveal(ivs);
}
pub broadcast proof fn b_iv_op(c: MOp, d: MOp, a: SI, b: SI, ra: SI, rb: SI)
    requires ivs(a, ra), ivs(b, rb), d is Sync ==> c is Sync,
    ensures #[trigger] ivs(SI::Op(c, Box::new(a), Box::new(b)), SI::Op(d, Box::new(ra), Box::new(rb))),
{
    reveal(ivs);
}
pub broadcast proof fn b_iv_l(c: MOp, a: SI, b: SI, r: SI)
    requires ivs(a, r),
    ensures #[trigger] ivs(SI::Op(c, Box::new(a), Box::new(b)), r),
{
    reveal(ivs);
}
pub broadcast proof fn b_iv_r(c: MOp, a: SI, b: SI, r: SI)
    requires ivs(b, r),
    ensures #[trigger] ivs(SI::Op(c, Box::new(a), Box::new(b)), r),
{
    reveal(ivs);
}
pub broadcast proof fn b_iv_al(a: SI, b: SI, r: SI)
    requires ivs(a, r),
    ensures #[trigger] ivs(SI::Alt(Box::new(a), Box::new(b)), r),
{
    reveal(ivs);
}
pub broadcast proof fn b_iv_ar(a: SI, b: SI, r: SI)
    requires ivs(b, r),
    ensures #[trigger] ivs(SI::Alt(Box::new(a), Box::new(b)), r),
{
    reveal(ivs);
}
pub broadcast proof fn b_iv_alt(a: SI, b: SI, ra: SI, rb: SI)
    requires ivs(a, ra), ivs(b, rb),
    ensures #[trigger] ivs(SI::Alt(Box::new(a), Box::new(b)), SI::Alt(Box::new(ra), Box::new(rb))),
{
    reveal(ivs);
}
pub broadcast proof fn b_iv_loop(k: LoopKind, m: LoopKind, a: SI, ra: SI)
    requires ivs(a, ra), m is HHeadFirstWS ==> k is HHeadFirstWS,
    ensures #[trigger] ivs(SI::Loop(k, Box::new(a)), SI::Loop(m, Box::new(ra))),
{
    reveal(ivs);
}
pub broadcast proof fn b_iv_loop1(k: LoopKind, a: SI, r: SI)
    requires ivs(a, r),
    ensures #[trigger] ivs(SI::Loop(k, Box::new(a)), r),
{
    reveal(ivs);
}
pub broadcast proof fn b_iv_loop2(k: LoopKind, a: SI, c: MOp, x: SI, y: SI)
    requires ivs(SI::Loop(k, Box::new(a)), x), ivs(SI::Loop(k, Box::new(a)), y), !(c is Sync),
    ensures #[trigger] ivs(SI::Loop(k, Box::new(a)), SI::Op(c, Box::new(x), Box::new(y))),
{
    reveal(ivs);
}
pub broadcast group g_iv {
    b_iv_self, b_iv_empty, b_iv_op, b_iv_l, b_iv_r, b_iv_al, b_iv_ar, b_iv_alt, b_iv_loop, b_iv_loop1, b_iv_loop2,
}

pub proof fn l_keep_all(s: Seq<usize>, l: ISet<usize>)
    requires sset(s).subset_of(l),
    ensures keep(s, l).len() == 0,
{
    l_keep_in(s, l);
    if keep(s, l).len() > 0 {
        let x = keep(s, l)[0];
        assert(keep(s, l).contains(x));
        assert(sset(s).contains(x));
    }
}

/// eliminating every lifeline leaves nothing
pub proof fn l_se_all(i: SI, l: ISet<usize>)
    requires conf(i), inv(i).subset_of(l),
    ensures semeq(SI::Empty, se(i, l)),
    decreases i,
{
    match i {
        SI::Empty => { b_semeq_refl(SI::Empty); },
        SI::Em(o, ms, sy, tg) => {
            assert(em_lfs(o, tg).contains(o));
            assert(sset(lf_targets(tg)).subset_of(l)) by {
                assert forall|x: usize| sset(lf_targets(tg)).contains(x) implies l.contains(x) by { assert(inv(i).contains(x)); }
            }
            l_keep_all(lf_targets(tg), l);
            b_semeq_refl(SI::Empty);
        },
        SI::Rec(g, ms, sy, rs) => { l_keep_all(rs, l); b_semeq_refl(SI::Empty); },
        SI::Op(c, a, b) => {
            assert forall|x: usize| inv(*a).contains(x) implies l.contains(x) by { assert(inv(i).contains(x)); }
            assert forall|x: usize| inv(*b).contains(x) implies l.contains(x) by { assert(inv(i).contains(x)); }
            l_se_all(*a, l); l_se_all(*b, l);
            b_eq_op_nil(ec(c, l), se(*a, l), se(*b, l));
        },
        SI::Alt(a, b) => {
            assert forall|x: usize| inv(*a).contains(x) implies l.contains(x) by { assert(inv(i).contains(x)); }
            assert forall|x: usize| inv(*b).contains(x) implies l.contains(x) by { assert(inv(i).contains(x)); }
            l_se_all(*a, l); l_se_all(*b, l);
            b_eq_alt_nil(se(*a, l), se(*b, l));
        },
        SI::Loop(k, a) => { l_se_all(*a, l); b_eq_loop_nil(k, se(*a, l)); },
        SI::And(a, b) => {},
    }
}

pub proof fn l_se_acts(i: SI, l: ISet<usize>)
    requires conf(i),
    ensures acts(se(i, l)).subset_of(acts(i)),
    decreases i,
{
    match i {
        SI::Em(o, ms, sy, tg) => {
            l_keep_tg(tg, l);
            l_keep_in(lf_targets(tg), l);
            let k = keep(lf_targets(tg), l);
            assert forall|a: TraceAction| acts(se(i, l)).contains(a) implies acts(i).contains(a) by {
                assert(k.contains(a.lf_id) == (lf_targets(tg).contains(a.lf_id) && !l.contains(a.lf_id)));
            }
        },
        SI::Rec(g, ms, sy, rs) => {
            l_keep_in(rs, l);
            let k = keep(rs, l);
            assert forall|a: TraceAction| acts(se(i, l)).contains(a) implies acts(i).contains(a) by {
                assert(k.contains(a.lf_id) == (rs.contains(a.lf_id) && !l.contains(a.lf_id)));
            }
        },
        SI::Op(c, a, b) => { l_se_acts(*a, l); l_se_acts(*b, l); },
        SI::Alt(a, b) => { l_se_acts(*a, l); l_se_acts(*b, l); },
        SI::Loop(k, a) => { l_se_acts(*a, l); },
        _ => {},
    }
}

pub broadcast proof fn b_ao_all(i: SI, aff: ISet<usize>, r: SI)
    requires conf(i), conf(r), ivs(i, r), inv(i).subset_of(aff),
    ensures #[trigger] ao(i, aff, r),
{
    reveal(ao);
    reveal(ivs);
    assert forall|l: ISet<usize>| aff.subset_of(l) implies #[trigger] semeq(se(i, l), se(r, l)) by {
        l_se_all(i, l);
        l_se_all(r, l);
        l_eq_sym(SI::Empty, se(i, l));
        l_eq_trans(se(i, l), SI::Empty, se(r, l));
    }
}

pub broadcast proof fn b_ao_self(i: SI, aff: ISet<usize>)
    ensures #[trigger] ao(i, aff, i),
{
    reveal(ao);
    assert forall|l: ISet<usize>| aff.subset_of(l) implies #[trigger] semeq(se(i, l), se(i, l)) by { b_semeq_refl(se(i, l)); }
}

pub broadcast proof fn b_ao_sup(i: SI, a: ISet<usize>, b: ISet<usize>, r: SI)
    requires ao(i, a, r) || ao(i, b, r),
    ensures #[trigger] ao(i, a.union(b), r),
{
    reveal(ao);
    assert forall|l: ISet<usize>| a.union(b).subset_of(l) implies #[trigger] semeq(se(i, l), se(r, l)) by {
        assert(a.subset_of(l)) by { assert forall|x: usize| a.contains(x) implies l.contains(x) by { assert(a.union(b).contains(x)); } }
        assert(b.subset_of(l)) by { assert forall|x: usize| b.contains(x) implies l.contains(x) by { assert(a.union(b).contains(x)); } }
    }
}

pub broadcast proof fn b_ao_op(c: MOp, a: SI, b: SI, aff: ISet<usize>, ra: SI, rb: SI)
    requires ao(a, aff, ra), ao(b, aff, rb),
    ensures #[trigger] ao(SI::Op(c, Box::new(a), Box::new(b)), aff, SI::Op(c, Box::new(ra), Box::new(rb))),
{
    reveal(ao);
    assert forall|l: ISet<usize>| aff.subset_of(l) implies #[trigger] semeq(se(op(c, a, b), l), se(op(c, ra, rb), l)) by {
        l_ao_at(a, aff, ra, l); l_ao_at(b, aff, rb, l);
        b_eq_op(ec(c, l), se(a, l), se(b, l), se(ra, l), se(rb, l));
    }
}

pub broadcast proof fn b_ao_nil_l(c: MOp, a: SI, b: SI, aff: ISet<usize>, rb: SI)
    requires ao(a, aff, SI::Empty), ao(b, aff, rb), !(c is Sync),
    ensures #[trigger] ao(SI::Op(c, Box::new(a), Box::new(b)), aff, rb),
{
    reveal(ao);
    assert forall|l: ISet<usize>| aff.subset_of(l) implies #[trigger] semeq(se(op(c, a, b), l), se(rb, l)) by {
        l_ao_at(a, aff, SI::Empty, l); l_ao_at(b, aff, rb, l);
        l_eq_sym(se(a, l), SI::Empty); l_eq_sym(se(b, l), se(rb, l));
        b_eq_nil_l(ec(c, l), se(rb, l), se(a, l), se(b, l));
        l_eq_sym(se(rb, l), se(op(c, a, b), l));
    }
}

pub broadcast proof fn b_ao_nil_r(c: MOp, a: SI, b: SI, aff: ISet<usize>, ra: SI)
    requires ao(a, aff, ra), ao(b, aff, SI::Empty), !(c is Sync),
    ensures #[trigger] ao(SI::Op(c, Box::new(a), Box::new(b)), aff, ra),
{
    reveal(ao);
    assert forall|l: ISet<usize>| aff.subset_of(l) implies #[trigger] semeq(se(op(c, a, b), l), se(ra, l)) by {
        l_ao_at(a, aff, ra, l); l_ao_at(b, aff, SI::Empty, l);
        l_eq_sym(se(b, l), SI::Empty); l_eq_sym(se(a, l), se(ra, l));
        b_eq_nil_r(ec(c, l), se(ra, l), se(a, l), se(b, l));
        l_eq_sym(se(ra, l), se(op(c, a, b), l));
    }
}

pub broadcast proof fn b_ao_strict_r(a: SI, b: SI, aff: ISet<usize>, rb: SI)
    requires conf(a), inv(a).subset_of(aff), ao(b, aff, rb),
    ensures #[trigger] ao(SI::Op(MOp::Strict, Box::new(a), Box::new(b)), aff, rb),
{
    b_iv_empty(a);
    b_ao_all(a, aff, SI::Empty);
    b_ao_nil_l(MOp::Strict, a, b, aff, rb);
}

pub proof fn l_keep_ac_disj(s: Seq<TraceAction>, l: ISet<usize>, x: ISet<TraceAction>, y: ISet<TraceAction>)
    requires x.disjoint(sset(s)), y.subset_of(x),
    ensures y.disjoint(sset(keep_ac(s, l))),
{
    l_keep_ac_in(s, l);
    assert forall|a: TraceAction| y.contains(a) implies !sset(keep_ac(s, l)).contains(a) by {
        assert(x.contains(a));
        assert(!sset(s).contains(a));
        assert(keep_ac(s, l).contains(a) == (s.contains(a) && !l.contains(a.lf_id)));
    }
}

pub broadcast proof fn b_ao_sync(s: Seq<TraceAction>, a: SI, b: SI, aff: ISet<usize>, ra: SI, rb: SI)
    requires ao(a, aff, ra), ao(b, aff, rb), conf(ra), conf(rb), acts(ra).disjoint(sset(s)), acts(rb).disjoint(sset(s)),
    ensures #[trigger] ao(SI::Op(MOp::Sync(s), Box::new(a), Box::new(b)), aff, SI::Op(MOp::Par, Box::new(ra), Box::new(rb))),
{
    b_ao_op(MOp::Sync(s), a, b, aff, ra, rb);
    let i = op(MOp::Sync(s), a, b);
    assert(ao(i, aff, op(MOp::Par, ra, rb))) by {
        reveal(ao);
        assert forall|l: ISet<usize>| aff.subset_of(l) implies #[trigger] semeq(se(i, l), se(op(MOp::Par, ra, rb), l)) by {
            let k = keep_ac(s, l);
            l_ao_at(i, aff, op(MOp::Sync(s), ra, rb), l);
            l_se_acts(ra, l); l_se_acts(rb, l);
            l_keep_ac_disj(s, l, acts(ra), acts(se(ra, l)));
            l_keep_ac_disj(s, l, acts(rb), acts(se(rb, l)));
            l_sync_par(k, se(ra, l), se(rb, l));
            l_eq_trans(se(i, l), op(MOp::Sync(k), se(ra, l), se(rb, l)), op(MOp::Par, se(ra, l), se(rb, l)));
        }
    }
}

pub proof fn l_ao_trans_nil(i: SI, aff: ISet<usize>, x: SI, left: bool)
    requires left ==> ao(i, aff, op(MOp::Par, SI::Empty, x)), !left ==> ao(i, aff, op(MOp::Par, x, SI::Empty)),
    ensures ao(i, aff, x),
{
    reveal(ao);
    assert forall|l: ISet<usize>| aff.subset_of(l) implies #[trigger] semeq(se(i, l), se(x, l)) by {
        let p = if left { op(MOp::Par, SI::Empty, x) } else { op(MOp::Par, x, SI::Empty) };
        l_ao_at(i, aff, p, l);
        l_neutral(MOp::Par, se(x, l));
        assert(se(SI::Empty, l) == SI::Empty);
        l_eq_trans(se(i, l), se(p, l), se(x, l));
    }
}

pub broadcast proof fn b_ao_sync_l(s: Seq<TraceAction>, a: SI, b: SI, aff: ISet<usize>, rb: SI)
    requires ao(a, aff, SI::Empty), ao(b, aff, rb), conf(rb), acts(rb).disjoint(sset(s)),
    ensures #[trigger] ao(SI::Op(MOp::Sync(s), Box::new(a), Box::new(b)), aff, rb),
{
    assert(acts(SI::Empty).disjoint(sset(s)));
    b_ao_sync(s, a, b, aff, SI::Empty, rb);
    l_ao_trans_nil(op(MOp::Sync(s), a, b), aff, rb, true);
}

pub broadcast proof fn b_ao_sync_r(s: Seq<TraceAction>, a: SI, b: SI, aff: ISet<usize>, ra: SI)
    requires ao(a, aff, ra), ao(b, aff, SI::Empty), conf(ra), acts(ra).disjoint(sset(s)),
    ensures #[trigger] ao(SI::Op(MOp::Sync(s), Box::new(a), Box::new(b)), aff, ra),
{
    assert(acts(SI::Empty).disjoint(sset(s)));
    b_ao_sync(s, a, b, aff, ra, SI::Empty);
    l_ao_trans_nil(op(MOp::Sync(s), a, b), aff, ra, false);
}

pub broadcast proof fn b_ao_alt(a: SI, b: SI, aff: ISet<usize>, ra: SI, rb: SI)
    requires ao(a, aff, ra), ao(b, aff, rb),
    ensures #[trigger] ao(SI::Alt(Box::new(a), Box::new(b)), aff, SI::Alt(Box::new(ra), Box::new(rb))),
{
    reveal(ao);
    assert forall|l: ISet<usize>| aff.subset_of(l) implies #[trigger] semeq(se(al(a, b), l), se(al(ra, rb), l)) by {
        l_ao_at(a, aff, ra, l); l_ao_at(b, aff, rb, l);
        b_eq_alt(se(a, l), se(b, l), se(ra, l), se(rb, l));
    }
}

/// two branches which become the same
pub broadcast proof fn b_ao_alt1(a: SI, b: SI, aff: ISet<usize>, r: SI)
    requires ao(a, aff, r), ao(b, aff, r),
    ensures #[trigger] ao(SI::Alt(Box::new(a), Box::new(b)), aff, r),
{
    reveal(ao);
    assert forall|l: ISet<usize>| aff.subset_of(l) implies #[trigger] semeq(se(al(a, b), l), se(r, l)) by {
        l_ao_at(a, aff, r, l); l_ao_at(b, aff, r, l);
        reveal(semeq);
        assert forall|t: Tr| sem(se(al(a, b), l), t) == #[trigger] sem(se(r, l), t) by {
            assert(sem(se(a, l), t) == sem(se(r, l), t));
            assert(sem(se(b, l), t) == sem(se(r, l), t));
        }
    }
}

pub broadcast proof fn b_ao_loop(k: LoopKind, a: SI, aff: ISet<usize>, ra: SI)
    requires ao(a, aff, ra),
    ensures #[trigger] ao(SI::Loop(k, Box::new(a)), aff, SI::Loop(k, Box::new(ra))),
{
    reveal(ao);
    assert forall|l: ISet<usize>| aff.subset_of(l) implies #[trigger] semeq(se(lp(k, a), l), se(lp(k, ra), l)) by {
        l_ao_at(a, aff, ra, l);
        b_eq_loop(k, se(a, l), se(ra, l));
    }
}

pub broadcast proof fn b_ao_loop0(k: LoopKind, a: SI, aff: ISet<usize>)
    requires ao(a, aff, SI::Empty),
    ensures #[trigger] ao(SI::Loop(k, Box::new(a)), aff, SI::Empty),
{
    reveal(ao);
    assert forall|l: ISet<usize>| aff.subset_of(l) implies #[trigger] semeq(se(lp(k, a), l), se(SI::Empty, l)) by {
        l_ao_at(a, aff, SI::Empty, l);
        l_eq_sym(se(a, l), SI::Empty);
        b_eq_loop_nil(k, se(a, l));
        l_eq_sym(SI::Empty, se(lp(k, a), l));
    }
}

/// leaves
pub broadcast proof fn b_ao_em(o: usize, ms: usize, tg: Seq<EmissionTargetRef>, aff: ISet<usize>, g: Option<usize>, rs: Seq<usize>)
    requires aff.contains(o), lf_targets(tg) == rs, g is None,
    ensures #[trigger] ao(SI::Em(o, ms, false, tg), aff, SI::Rec(g, ms, false, rs)),
{
    reveal(ao);
    let i = SI::Em(o, ms, false, tg);
    let r = SI::Rec(g, ms, false, rs);
    assert forall|l: ISet<usize>| aff.subset_of(l) implies #[trigger] semeq(se(i, l), se(r, l)) by {
        assert(l.contains(o));
        assert(se(i, l) == se(r, l));
        b_semeq_refl(se(i, l));
    }
}
pub broadcast proof fn b_ao_em0(o: usize, ms: usize, tg: Seq<EmissionTargetRef>, aff: ISet<usize>)
    requires aff.contains(o), lf_targets(tg).len() == 0,
    ensures #[trigger] ao(SI::Em(o, ms, false, tg), aff, SI::Empty),
{
    reveal(ao);
    let i = SI::Em(o, ms, false, tg);
    assert forall|l: ISet<usize>| aff.subset_of(l) implies #[trigger] semeq(se(i, l), se(SI::Empty, l)) by {
        assert(l.contains(o));
        b_semeq_refl(SI::Empty);
    }
}
pub broadcast proof fn b_ao_rec(g: Option<usize>, ms: usize, rs: Seq<usize>, aff: ISet<usize>, k: int)
    requires 0 <= k < rs.len(), aff.contains(rs[k]),
    ensures #[trigger] ao(SI::Rec(g, ms, false, rs), aff, SI::Rec(g, ms, false, rs.remove(k))),
        rs.len() == 1 ==> ao(SI::Rec(g, ms, false, rs), aff, SI::Empty),
{
    reveal(ao);
    let i = SI::Rec(g, ms, false, rs);
    let r = SI::Rec(g, ms, false, rs.remove(k));
    assert forall|l: ISet<usize>| aff.subset_of(l) implies #[trigger] semeq(se(i, l), se(r, l)) by {
        assert(l.contains(rs[k]));
        let j = l_keep_remove(rs, l, k);
        b_semeq_refl(se(i, l));
    }
    if rs.len() == 1 {
        assert forall|l: ISet<usize>| aff.subset_of(l) implies #[trigger] semeq(se(i, l), se(SI::Empty, l)) by {
            assert(l.contains(rs[k]));
            let j = l_keep_remove(rs, l, k);
            assert(rs.remove(k).len() == 0);
            b_semeq_refl(SI::Empty);
        }
    }
}
pub proof fn l_iv_rem(g: Option<usize>, ms: usize, sy: bool, rs: Seq<usize>, k: int)
    requires 0 <= k < rs.len(),
    ensures ivs(SI::Rec(g, ms, sy, rs), SI::Rec(g, ms, sy, rs.remove(k))),
{
    reveal(ivs);
    let q = rs.remove(k);
    assert forall|x: usize| sset(q).contains(x) implies sset(rs).contains(x) by {
        let j = choose|j: int| 0 <= j < q.len() && q[j] == x;
        if j < k { assert(rs[j] == x); } else { assert(rs[j + 1] == x); }
    }
}

pub broadcast group g_ao {
    b_ao_all, b_ao_self, b_ao_sup, b_ao_op, b_ao_nil_l, b_ao_nil_r, b_ao_strict_r, b_ao_sync, b_ao_sync_l, b_ao_sync_r,
    b_ao_alt, b_ao_alt1, b_ao_loop, b_ao_loop0,
}

/// what the contract means for the users: a lifeline which is not affected sees no difference (the eliminations of
/// the affected lifelines accept the same traces)
pub proof fn thm_affected(i: SI, aff: ISet<usize>, r: SI, t: Tr)
    requires ao(i, aff, r),
    ensures sem(se(i, aff), t) == sem(se(r, aff), t),
{
    l_ao_at(i, aff, r, aff);
    l_eq_at(se(i, aff), se(r, aff), t);
}
