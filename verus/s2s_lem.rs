// ============================================================================================
// From strict to weak sequencing, through the last actions of the left operand (ghost code only).
// ============================================================================================

/// e is the action of an enabled position of r
pub open spec fn en(r: SI, e: Ev) -> bool {
    exists|p: SP| #[trigger] valid(r, p) && actp(r, p) == e
}

/// r can perform at once every action which ends a trace of i
#[verifier::opaque]
pub open spec fn rok(i: SI, r: SI) -> bool {
    &&& conf(r)
    &&& nld(r) <= nld(i)
    &&& nullable(r) == nullable(i)
    &&& forall|l: ISet<usize>| #[trigger] av(r, l) == av(i, l)
    &&& forall|t: Tr| #[trigger] sem(i, t) && t.len() > 0 ==> en(r, t.last())
}

pub proof fn l_en(r: SI, p: SP)
    requires valid(r, p),
    ensures en(r, actp(r, p)),
{
}

pub open spec fn last1(c: MOp, t1: Tr, t2: Tr, t: Tr) -> bool {
    t1.len() > 0 && t1.last() == t.last() && solo(c, t.last()) && (c is Strict ==> t2.len() == 0) && avt(t2, need(c, t.last()))
}
pub open spec fn last2(c: MOp, t1: Tr, t2: Tr, t: Tr) -> bool {
    t2.len() > 0 && t2.last() == t.last() && solo(c, t.last())
}
pub open spec fn last3(c: MOp, t1: Tr, t2: Tr, t: Tr) -> bool {
    t1.len() > 0 && t2.len() > 0 && t.last() == t1.last().union(t2.last()) && sact(c, t1.last()) == sact(c, t2.last()) && !solo(c, t1.last())
}

pub proof fn l_need_sym(c: MOp, e: Ev, f: Ev)
    requires av_ev(e, need(c, f)), !(c is Strict),
    ensures av_ev(f, need(c, e)),
{
    assert forall|a: TraceAction| #[trigger] f.contains(a) implies !need(c, e).contains(a.lf_id) by {
        if need(c, e).contains(a.lf_id) {
            assert(lfs(e).contains(a.lf_id));
            let b = choose|b: TraceAction| #[trigger] e.contains(b) && b.lf_id == a.lf_id;
            assert(lfs(f).contains(a.lf_id));
            assert(need(c, f).contains(b.lf_id));
        }
    }
}

pub proof fn l_last_drop(t: Tr)
    requires t.len() > 1,
    ensures t.drop_first().len() > 0, t.drop_first().last() == t.last(),
{
}

/// the last event of a composition
pub proof fn l_mrg_last(c: MOp, t1: Tr, t2: Tr, t: Tr)
    requires mrg(c, t1, t2, t), t.len() > 0,
    ensures last1(c, t1, t2, t) || last2(c, t1, t2, t) || last3(c, t1, t2, t),
    decreases t.len(),
{
    let tt = t.drop_first();
    let e = t.last();
    if t1.len() > 0 && t1[0] == t[0] && solo(c, t[0]) && mrg(c, t1.drop_first(), t2, tt) {
        let u1 = t1.drop_first();
        if tt.len() == 0 {
            l_mrg_len(c, u1, t2, tt);
            assert(last1(c, t1, t2, t));
        } else {
            l_mrg_last(c, u1, t2, tt);
            l_last_drop(t);
            if u1.len() > 0 { l_last_drop(t1); }
        }
    } else if t2.len() > 0 && t2[0] == t[0] && solo(c, t[0]) && okr(c, t1, t[0]) && mrg(c, t1, t2.drop_first(), tt) {
        let u2 = t2.drop_first();
        if tt.len() == 0 {
            l_mrg_len(c, t1, u2, tt);
            assert(last2(c, t1, t2, t));
        } else {
            l_mrg_last(c, t1, u2, tt);
            l_last_drop(t);
            if u2.len() > 0 { l_last_drop(t2); }
            if last1(c, t1, u2, tt) {
                assert(!(c is Strict));
                assert(av_ev(t1[t1.len() - 1], need(c, t[0])));
                l_need_sym(c, e, t[0]);
                l_avt_first(t2, need(c, e));
            }
        }
    } else {
        let u1 = t1.drop_first();
        let u2 = t2.drop_first();
        if tt.len() == 0 {
            l_mrg_len(c, u1, u2, tt);
            assert(last3(c, t1, t2, t));
        } else {
            l_mrg_last(c, u1, u2, tt);
            l_last_drop(t);
            if u1.len() > 0 { l_last_drop(t1); }
            if u2.len() > 0 { l_last_drop(t2); }
            assert(c is Sync);
            if last1(c, u1, u2, tt) {
                l_avt_empty(t2);
                assert(need(c, e) =~= ISet::empty());
            }
        }
    }
}

pub proof fn l_rok_op_en(c: MOp, a: SI, b: SI, ra: SI, rb: SI, t: Tr)
    requires rok(a, ra), rok(b, rb), conf(a), conf(b), sem(op(c, a, b), t), t.len() > 0,
    ensures en(op(c, rb, ra), t.last()),
{
    reveal(rok);
    let r = op(c, rb, ra);
    let e = t.last();
    let (t1, t2) = choose|t1: Tr, t2: Tr| #![trigger mrg(c, t1, t2, t)] sem(a, t1) && sem(b, t2) && mrg(c, t1, t2, t);
    l_mrg_last(c, t1, t2, t);
    if last1(c, t1, t2, t) {
        assert(en(ra, t1.last()));
        let q = choose|q: SP| #[trigger] valid(ra, q) && actp(ra, q) == e;
        if c is Strict {
            l_sem_nil(b);
            assert(t2 =~= Seq::empty());
            assert(nullable(rb));
        } else {
            if !av(b, need(c, e)) { l_av_none(b, need(c, e), t2); }
            assert(av(rb, need(c, e)));
        }
        assert(valid(r, prr(q)));
        l_en(r, prr(q));
    } else if last2(c, t1, t2, t) {
        assert(en(rb, t2.last()));
        let q = choose|q: SP| #[trigger] valid(rb, q) && actp(rb, q) == e;
        assert(valid(r, pl(q)));
        l_en(r, pl(q));
    } else {
        assert(en(ra, t1.last()));
        assert(en(rb, t2.last()));
        let q1 = choose|q: SP| #[trigger] valid(ra, q) && actp(ra, q) == t1.last();
        let q2 = choose|q: SP| #[trigger] valid(rb, q) && actp(rb, q) == t2.last();
        assert(sact(c, actp(rb, q2)) =~= sact(c, actp(ra, q1)));
        assert(valid(r, pb(q2, q1)));
        assert(actp(r, pb(q2, q1)) =~= e);
        l_en(r, pb(q2, q1));
    }
}

pub broadcast proof fn b_rok_op(c: MOp, a: SI, b: SI, ra: SI, rb: SI)
    requires rok(a, ra), rok(b, rb), conf(a), conf(b),
    ensures #[trigger] rok(SI::Op(c, Box::new(a), Box::new(b)), SI::Op(c, Box::new(rb), Box::new(ra))),
{
    let i = op(c, a, b);
    let r = op(c, rb, ra);
    assert forall|t: Tr| #[trigger] sem(i, t) && t.len() > 0 implies en(r, t.last()) by {
        l_rok_op_en(c, a, b, ra, rb, t);
    }
    reveal(rok);
    assert forall|l: ISet<usize>| #[trigger] av(r, l) == av(i, l) by {
        assert(av(ra, l) == av(a, l));
        assert(av(rb, l) == av(b, l));
    }
}

pub broadcast proof fn b_rok_alt(a: SI, b: SI, ra: SI, rb: SI)
    requires rok(a, ra), rok(b, rb),
    ensures #[trigger] rok(SI::Alt(Box::new(a), Box::new(b)), SI::Alt(Box::new(rb), Box::new(ra))),
{
    reveal(rok);
    let i = al(a, b);
    let r = al(rb, ra);
    assert forall|t: Tr| #[trigger] sem(i, t) && t.len() > 0 implies en(r, t.last()) by {
        let e = t.last();
        if sem(a, t) {
            assert(en(ra, e));
            let q = choose|q: SP| #[trigger] valid(ra, q) && actp(ra, q) == e;
            assert(valid(r, prr(q)));
            l_en(r, prr(q));
        } else {
            assert(sem(b, t));
            assert(en(rb, e));
            let q = choose|q: SP| #[trigger] valid(rb, q) && actp(rb, q) == e;
            assert(valid(r, pl(q)));
            l_en(r, pl(q));
        }
    }
    assert forall|l: ISet<usize>| #[trigger] av(r, l) == av(i, l) by {
        assert(av(ra, l) == av(a, l));
        assert(av(rb, l) == av(b, l));
    }
}

/// some trace of the body of a loop ends as the iterations do
pub proof fn l_pw_last(k: LoopKind, a: SI, n: nat, t: Tr) -> (u: Tr)
    requires pw(k, a, n, t), t.len() > 0,
    ensures sem(a, u), u.len() > 0, u.last() == t.last(),
    decreases n,
{
    let (t1, t2) = choose|t1: Tr, t2: Tr| #![trigger lmrg(k, t1, t2, t)] sem(a, t1) && pw(k, a, (n - 1) as nat, t2) && lmrg(k, t1, t2, t);
    let c = lop(k);
    l_mrg_last(c, t1, t2, t);
    if last1(c, t1, t2, t) {
        t1
    } else {
        if last3(c, t1, t2, t) { assert(solo(c, t1.last())); }
        l_pw_last(k, a, (n - 1) as nat, t2)
    }
}

pub broadcast proof fn b_rok_loop(k: LoopKind, a: SI, ra: SI)
    requires rok(a, ra),
    ensures #[trigger] rok(SI::Loop(k, Box::new(a)), SI::Loop(k, Box::new(ra))),
{
    reveal(rok);
    let i = lp(k, a);
    let r = lp(k, ra);
    assert forall|t: Tr| #[trigger] sem(i, t) && t.len() > 0 implies en(r, t.last()) by {
        let n = choose|n: nat| #[trigger] tn(n) && pw(k, a, n, t);
        let u = l_pw_last(k, a, n, t);
        assert(en(ra, u.last()));
        let q = choose|q: SP| #[trigger] valid(ra, q) && actp(ra, q) == u.last();
        assert(valid(r, pl(q)));
        l_en(r, pl(q));
    }
}

/// the last of some receptions
pub proof fn l_recs_last(ms: usize, rs: Seq<usize>, t: Tr) -> (k: int)
    requires recs(ms, rs, t), rs.len() > 0,
    ensures 0 <= k < rs.len(), t.len() > 0, t.last() == ISet::<TraceAction>::empty().insert(rc_act(rs[k], ms)),
    decreases rs.len(),
{
    let k0 = choose|k: int| #![trigger rs.remove(k)]
        0 <= k < rs.len() && t[0] == ISet::<TraceAction>::empty().insert(rc_act(rs[k], ms)) && recs(ms, rs.remove(k), t.drop_first());
    let rs2 = rs.remove(k0);
    l_recs_acts(ms, rs2, t.drop_first());
    if rs2.len() == 0 {
        k0
    } else {
        let j = l_recs_last(ms, rs2, t.drop_first());
        l_last_drop(t);
        if j < k0 { assert(rs2[j] == rs[j]); j } else { assert(rs2[j] == rs[j + 1]); j + 1 }
    }
}

pub broadcast proof fn b_rok_rec(g: Option<usize>, ms: usize, sy: bool, rs: Seq<usize>)
    requires conf(SI::Rec(g, ms, sy, rs)),
    ensures #[trigger] rok(SI::Rec(g, ms, sy, rs), SI::Rec(g, ms, sy, rs)),
{
    reveal(rok);
    let i = SI::Rec(g, ms, sy, rs);
    assert forall|t: Tr| #[trigger] sem(i, t) && t.len() > 0 implies en(i, t.last()) by {
        if sy {
            l_en(i, SP::Eps(None));
        } else {
            let k = l_recs_last(ms, rs, t);
            assert(valid(i, SP::Eps(Some(k as usize))));
            l_en(i, SP::Eps(Some(k as usize)));
        }
    }
}

pub broadcast proof fn b_rok_empty()
    ensures #[trigger] rok(SI::Empty, SI::Empty),
{
    reveal(rok);
}

/// emissions which are a single event
pub broadcast proof fn b_rok_em1(o: usize, ms: usize, sy: bool, tg: Seq<EmissionTargetRef>)
    requires sy || lf_targets(tg).len() == 0,
    ensures #[trigger] rok(SI::Em(o, ms, sy, tg), SI::Em(o, ms, sy, tg)),
{
    reveal(rok);
    let i = SI::Em(o, ms, sy, tg);
    assert forall|t: Tr| #[trigger] sem(i, t) && t.len() > 0 implies en(i, t.last()) by {
        assert(t.drop_first().len() == 0);
        assert(t.last() == t[0]);
        assert(valid(i, SP::Eps(None)));
        l_en(i, SP::Eps(None));
    }
}

/// asynchronous communications: the receptions come last
pub broadcast proof fn b_rok_em(o: usize, ms: usize, tg: Seq<EmissionTargetRef>, g: Option<usize>, rs: Seq<usize>, gt: Seq<EmissionTargetRef>)
    requires rs == lf_targets(tg), 0 < rs.len() <= usize::MAX, noLf(gt),
    ensures #[trigger] rok(SI::Em(o, ms, false, tg), SI::Op(MOp::Strict, Box::new(SI::Rec(g, ms, false, rs)), Box::new(SI::Em(o, ms, false, gt)))),
{
    reveal(rok);
    let i = SI::Em(o, ms, false, tg);
    let a = SI::Rec(g, ms, false, rs);
    let b = SI::Em(o, ms, false, gt);
    let r = op(MOp::Strict, a, b);
    l_nolf(gt);
    assert forall|t: Tr| #[trigger] sem(i, t) && t.len() > 0 implies en(r, t.last()) by {
        let k = l_recs_last(ms, rs, t.drop_first());
        l_last_drop(t);
        let q = SP::Eps(Some(k as usize));
        assert(valid(a, q));
        assert(solo(MOp::Strict, actp(a, q)));
        assert(valid(r, pl(q)));
        l_en(r, pl(q));
    }
    assert forall|l: ISet<usize>| #[trigger] av(r, l) == av(i, l) by {
        assert(av(a, l) == sset(rs).disjoint(l));
        assert(av(b, l) == em_lfs(o, gt).disjoint(l));
        assert(em_lfs(o, gt) =~= ISet::<usize>::empty().insert(o));
        assert(em_lfs(o, tg) =~= sset(rs).union(ISet::<usize>::empty().insert(o)));
        b_disj_union(sset(rs), ISet::<usize>::empty().insert(o), l);
        assert(av(r, l) == (av(a, l) && av(b, l)));
    }
    assert(nullable(r) == (nullable(a) && nullable(b)));
    assert(conf(a) && conf(b));
    assert(conf(r));
    assert(nld(a) == 0);
    assert(nld(b) == 0);
    assert(nld(r) == (if nld(a) >= nld(b) { nld(a) } else { nld(b) }));
}

pub broadcast group g_rok {
    b_rok_op, b_rok_alt, b_rok_loop, b_rok_rec, b_rok_empty, b_rok_em1, b_rok_em,
}

// ---------------------------------------------------------------- from strict to weak sequencing

pub open spec fn ne(e: Ev) -> bool {
    exists|a: TraceAction| #[trigger] e.contains(a)
}

/// no event is empty
pub open spec fn tne(t: Tr) -> bool {
    forall|k: int| 0 <= k < t.len() ==> ne(#[trigger] t[k])
}

pub proof fn l_tne_first(t: Tr)
    requires t.len() > 0,
    ensures tne(t) == (ne(t[0]) && tne(t.drop_first())),
{
    if ne(t[0]) && tne(t.drop_first()) {
        assert forall|k: int| 0 <= k < t.len() implies ne(#[trigger] t[k]) by {
            if k > 0 { assert(t[k] == t.drop_first()[k - 1]); }
        }
    }
    if tne(t) {
        assert forall|k: int| 0 <= k < t.drop_first().len() implies ne(#[trigger] t.drop_first()[k]) by {
            assert(t[k + 1] == t.drop_first()[k]);
        }
    }
}

pub proof fn l_mrg_tne(c: MOp, t1: Tr, t2: Tr, t: Tr)
    requires mrg(c, t1, t2, t), tne(t1), tne(t2),
    ensures tne(t),
    decreases t.len(),
{
    if t.len() > 0 {
        l_tne_first(t);
        if t1.len() > 0 && t1[0] == t[0] && solo(c, t[0]) && mrg(c, t1.drop_first(), t2, t.drop_first()) {
            l_tne_first(t1);
            l_mrg_tne(c, t1.drop_first(), t2, t.drop_first());
        } else if t2.len() > 0 && t2[0] == t[0] && solo(c, t[0]) && okr(c, t1, t[0]) && mrg(c, t1, t2.drop_first(), t.drop_first()) {
            l_tne_first(t2);
            l_mrg_tne(c, t1, t2.drop_first(), t.drop_first());
        } else {
            l_tne_first(t1);
            l_tne_first(t2);
            l_mrg_tne(c, t1.drop_first(), t2.drop_first(), t.drop_first());
            let a = choose|a: TraceAction| #[trigger] t1[0].contains(a);
            assert(t[0].contains(a));
        }
    }
}

pub proof fn l_recs_tne(ms: usize, rs: Seq<usize>, t: Tr)
    requires recs(ms, rs, t),
    ensures tne(t),
    decreases rs.len(),
{
    if rs.len() > 0 {
        let k0 = choose|k: int| #![trigger rs.remove(k)]
            0 <= k < rs.len() && t[0] == ISet::<TraceAction>::empty().insert(rc_act(rs[k], ms)) && recs(ms, rs.remove(k), t.drop_first());
        l_recs_tne(ms, rs.remove(k0), t.drop_first());
        assert(t[0].contains(rc_act(rs[k0], ms)));
        l_tne_first(t);
    }
}

pub proof fn l_sem_tne(i: SI, t: Tr)
    requires conf(i), sem(i, t),
    ensures tne(t),
    decreases i, 0nat,
{
    match i {
        SI::Em(o, ms, sy, tg) => {
            assert(t[0].contains(em_act(o, ms)));
            if !sy { l_recs_tne(ms, lf_targets(tg), t.drop_first()); }
            l_tne_first(t);
        },
        SI::Rec(_, ms, sy, rs) => {
            if sy { assert(rs.contains(rs[0])); assert(t[0].contains(rc_act(rs[0], ms))); } else { l_recs_tne(ms, rs, t); }
        },
        SI::Op(c, a, b) => {
            let (t1, t2) = choose|t1: Tr, t2: Tr| #![trigger mrg(c, t1, t2, t)] sem(*a, t1) && sem(*b, t2) && mrg(c, t1, t2, t);
            l_sem_tne(*a, t1);
            l_sem_tne(*b, t2);
            l_mrg_tne(c, t1, t2, t);
        },
        SI::Alt(a, b) => {
            if sem(*a, t) { l_sem_tne(*a, t); } else { l_sem_tne(*b, t); }
        },
        SI::Loop(k, a) => {
            let n = choose|n: nat| #[trigger] tn(n) && pw(k, *a, n, t);
            l_pw_tne(k, *a, n, t);
        },
        _ => {},
    }
}

pub proof fn l_pw_tne(k: LoopKind, i: SI, n: nat, t: Tr)
    requires conf(i), pw(k, i, n, t),
    ensures tne(t),
    decreases i, n + 1,
{
    if n > 0 {
        let (t1, t2) = choose|t1: Tr, t2: Tr| #![trigger lmrg(k, t1, t2, t)] sem(i, t1) && pw(k, i, (n - 1) as nat, t2) && lmrg(k, t1, t2, t);
        l_sem_tne(i, t1);
        l_pw_tne(k, i, (n - 1) as nat, t2);
        l_mrg_tne(lop(k), t1, t2, t);
    }
}

/// e takes place on lifelines of l only
pub open spec fn on(e: Ev, l: ISet<usize>) -> bool {
    lfs(e).subset_of(l)
}

/// the actions ending a trace of i take place on lifelines of l
pub open spec fn lasts(i: SI, l: ISet<usize>) -> bool {
    forall|t: Tr| #[trigger] sem(i, t) && t.len() > 0 ==> on(t.last(), l)
}

/// the actions starting a trace of i take place on lifelines of l
pub open spec fn firsts(i: SI, l: ISet<usize>) -> bool {
    forall|t: Tr| #[trigger] sem(i, t) && t.len() > 0 ==> on(t[0], l)
}

/// the lifelines of the first n elements of a frontier
pub open spec fn flf(s: Seq<FrontierElement>, n: int) -> ISet<usize> {
    ISet::new(|l: usize| exists|j: int| 0 <= j < n && (#[trigger] s[j]).target_lf_ids@.contains(l))
}

pub proof fn l_flf_step(s: Seq<FrontierElement>, n: int)
    requires 0 <= n < s.len(),
    ensures flf(s, n + 1) =~= flf(s, n).union(s[n].target_lf_ids@),
{
    assert forall|l: usize| flf(s, n + 1).contains(l) == flf(s, n).union(s[n].target_lf_ids@).contains(l) by {
        if s[n].target_lf_ids@.contains(l) { assert(flf(s, n + 1).contains(l)); }
    }
}

pub proof fn l_flf_en(i: SI, s: Seq<FrontierElement>, e: Ev)
    requires fok(i, 0, s), covers(i, fset(s)), en(i, e),
    ensures on(e, flf(s, s.len() as int)),
{
    let p = choose|p: SP| #[trigger] valid(i, p) && actp(i, p) == e;
    let q = l_cov_act(i, fset(s), p);
    let j = choose|j: int| 0 <= j < s.len() && pv(#[trigger] s[j].position) == q;
    assert(fe(i, 0, s[j]));
    assert forall|l: usize| lfs(e).contains(l) implies flf(s, s.len() as int).contains(l) by {
        assert(s[j].target_lf_ids@.contains(l));
    }
}

pub proof fn l_lasts(i: SI, r: SI, s: Seq<FrontierElement>)
    requires rok(i, r), fok(r, 0, s), covers(r, fset(s)),
    ensures lasts(i, flf(s, s.len() as int)),
{
    reveal(rok);
    assert forall|t: Tr| #[trigger] sem(i, t) && t.len() > 0 implies on(t.last(), flf(s, s.len() as int)) by {
        l_flf_en(r, s, t.last());
    }
}

pub proof fn l_firsts(i: SI, s: Seq<FrontierElement>)
    requires conf(i), fok(i, 0, s), covers(i, fset(s)),
    ensures firsts(i, flf(s, s.len() as int)),
{
    assert forall|t: Tr| #[trigger] sem(i, t) && t.len() > 0 implies on(t[0], flf(s, s.len() as int)) by {
        let p = l_step_complete(i, t);
        l_en(i, p);
        l_flf_en(i, s, t[0]);
    }
}

/// weak sequencing is strict when the last of t1 and the first of t2 are on the same single lifeline
pub proof fn l_mrg_s2s(t1: Tr, t2: Tr, t: Tr, x: usize)
    requires mrg(MOp::Seq, t1, t2, t), tne(t1), tne(t2),
        t1.len() > 0 ==> on(t1.last(), ISet::empty().insert(x)), t2.len() > 0 ==> on(t2[0], ISet::empty().insert(x)),
    ensures mrg(MOp::Strict, t1, t2, t),
    decreases t.len(),
{
    let c = MOp::Seq;
    let d = MOp::Strict;
    if t1.len() == 0 {
        assert(t1 =~= Seq::empty());
        l_mrg_nil_l(c, t2, t);
        l_mrg_nil_l(d, t2, t);
    } else {
        l_mrg_len(c, t1, t2, t);
        l_tne_first(t1);
        assert(solo(c, t[0]) && solo(d, t[0]) && solo(c, t1[0]));
        if t1[0] == t[0] && mrg(c, t1.drop_first(), t2, t.drop_first()) {
            if t1.len() > 1 { l_last_drop(t1); }
            l_mrg_s2s(t1.drop_first(), t2, t.drop_first(), x);
        } else {
            assert(t2.len() > 0 && t2[0] == t[0] && okr(c, t1, t[0]));
            let n = t1.len() - 1;
            assert(ne(t1[n]));
            assert(ne(t2[0]));
            let a = choose|a: TraceAction| #[trigger] t1[n].contains(a);
            assert(lfs(t1[n]).contains(a.lf_id));
            assert(a.lf_id == x);
            let b = choose|b: TraceAction| #[trigger] t2[0].contains(b);
            assert(lfs(t2[0]).contains(b.lf_id));
            assert(b.lf_id == x);
            assert(av_ev(t1[n], need(c, t[0])));
            assert(false);
        }
    }
}

pub proof fn l_mrg_strict_seq(t1: Tr, t2: Tr, t: Tr)
    requires mrg(MOp::Strict, t1, t2, t),
    ensures mrg(MOp::Seq, t1, t2, t),
    decreases t.len(),
{
    if t.len() > 0 {
        let d = MOp::Strict;
        assert(solo(d, t[0]) && solo(MOp::Seq, t[0]));
        if t1.len() > 0 && t1[0] == t[0] && mrg(d, t1.drop_first(), t2, t.drop_first()) {
            l_mrg_strict_seq(t1.drop_first(), t2, t.drop_first());
        } else {
            assert(t1.len() > 0 ==> solo(d, t1[0]));
            l_mrg_strict_seq(t1, t2.drop_first(), t.drop_first());
        }
    }
}

pub proof fn l_s2s(a: SI, b: SI, l: ISet<usize>)
    requires conf(a), conf(b), lasts(a, l), firsts(b, l), l.finite(), l.len() == 1,
    ensures tr(op(MOp::Strict, a, b), op(MOp::Seq, a, b)),
{
    let i = op(MOp::Strict, a, b);
    let j = op(MOp::Seq, a, b);
    let x = choose|x: usize| l =~= ISet::empty().insert(x);
    l_one(l);
    assert forall|t: Tr| sem(i, t) == #[trigger] sem(j, t) by {
        if sem(i, t) {
            let (t1, t2) = choose|t1: Tr, t2: Tr| #![trigger mrg(MOp::Strict, t1, t2, t)] sem(a, t1) && sem(b, t2) && mrg(MOp::Strict, t1, t2, t);
            l_mrg_strict_seq(t1, t2, t);
        }
        if sem(j, t) {
            let (t1, t2) = choose|t1: Tr, t2: Tr| #![trigger mrg(MOp::Seq, t1, t2, t)] sem(a, t1) && sem(b, t2) && mrg(MOp::Seq, t1, t2, t);
            l_sem_tne(a, t1);
            l_sem_tne(b, t2);
            l_mrg_s2s(t1, t2, t, x);
        }
    }
    reveal(semeq);
}

/// s designates the elements of v
pub open spec fn refs(s: Seq<&FrontierElement>, v: Seq<FrontierElement>) -> bool {
    s.len() == v.len() && forall|j: int| 0 <= j < s.len() ==> *(#[trigger] s[j]) == v[j]
}

pub open spec fn rfl(s: Seq<&FrontierElement>, n: int) -> ISet<usize> {
    ISet::new(|l: usize| exists|j: int| 0 <= j < n && (#[trigger] s[j]).target_lf_ids@.contains(l))
}

pub proof fn l_rfl_step(s: Seq<&FrontierElement>, n: int)
    requires 0 <= n < s.len(),
    ensures rfl(s, n + 1) =~= rfl(s, n).union(s[n].target_lf_ids@),
{
    assert forall|l: usize| rfl(s, n + 1).contains(l) == rfl(s, n).union(s[n].target_lf_ids@).contains(l) by {
        if s[n].target_lf_ids@.contains(l) { assert(rfl(s, n + 1).contains(l)); }
    }
}

pub proof fn l_rfl(s: Seq<&FrontierElement>, v: Seq<FrontierElement>)
    requires refs(s, v),
    ensures rfl(s, s.len() as int) =~= flf(v, v.len() as int),
{
    assert forall|l: usize| rfl(s, s.len() as int).contains(l) == flf(v, v.len() as int).contains(l) by {
        if rfl(s, s.len() as int).contains(l) {
            let j = choose|j: int| 0 <= j < s.len() && (#[trigger] s[j]).target_lf_ids@.contains(l);
            assert(v[j].target_lf_ids@.contains(l));
        }
        if flf(v, v.len() as int).contains(l) {
            let j = choose|j: int| 0 <= j < v.len() && (#[trigger] v[j]).target_lf_ids@.contains(l);
            assert(s[j].target_lf_ids@.contains(l));
        }
    }
}

/// the lifelines collected on the frontier of a reversed term
pub proof fn l_lasts_all(i: SI, s: Seq<&FrontierElement>)
    ensures forall|r: SI, v: Seq<FrontierElement>| rok(i, r) && #[trigger] fok(r, 0, v) && covers(r, fset(v)) && refs(s, v) ==> lasts(i, rfl(s, s.len() as int)),
{
    assert forall|r: SI, v: Seq<FrontierElement>| rok(i, r) && #[trigger] fok(r, 0, v) && covers(r, fset(v)) && refs(s, v) implies lasts(i, rfl(s, s.len() as int)) by {
        l_lasts(i, r, v);
        l_rfl(s, v);
    }
}

pub proof fn l_firsts_all(i: SI, s: Seq<&FrontierElement>)
    requires conf(i),
    ensures forall|v: Seq<FrontierElement>| #[trigger] fok(i, 0, v) && covers(i, fset(v)) && refs(s, v) ==> firsts(i, rfl(s, s.len() as int)),
{
    assert forall|v: Seq<FrontierElement>| #[trigger] fok(i, 0, v) && covers(i, fset(v)) && refs(s, v) implies firsts(i, rfl(s, s.len() as int)) by {
        l_firsts(i, v);
        l_rfl(s, v);
    }
}

pub broadcast proof fn b_tr_s2s(a: SI, b: SI, l: ISet<usize>)
    requires conf(a), conf(b), #[trigger] lasts(a, l), #[trigger] firsts(b, l), l.finite(), l.len() == 1,
    ensures tr(SI::Op(MOp::Strict, Box::new(a), Box::new(b)), SI::Op(MOp::Seq, Box::new(a), Box::new(b))),
{
    l_s2s(a, b, l);
}

pub broadcast proof fn b_rok(i: SI, r: SI)
    requires #[trigger] rok(i, r),
    ensures conf(r), nld(r) <= nld(i),
{
    reveal(rok);
}

pub proof fn l_one(l: ISet<usize>)
    requires l.finite(), l.len() == 1,
    ensures exists|x: usize| l =~= ISet::empty().insert(x),
{
    let x = l.choose();
    assert(l.contains(x));
    assert(l.remove(x).len() == 0);
    assert(l.remove(x) =~= ISet::empty());
    assert(l =~= ISet::empty().insert(x));
}
