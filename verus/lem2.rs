// ============================================================================================
// Pruning: languages restricted to the traces without action on given lifelines (ghost code only).
// ============================================================================================

pub broadcast proof fn b_semeq_refl(i: SI)
    ensures #[trigger] semeq(i, i),
{
    reveal(semeq);
}

#[verifier::opaque]
pub open spec fn incl(i: SI, j: SI) -> bool {
    forall|t: Tr| sem(i, t) ==> #[trigger] sem(j, t)
}

pub broadcast proof fn b_incl_empty(j: SI)
    requires conf(j), nullable(j),
    ensures #[trigger] incl(SI::Empty, j),
{
    reveal(incl);
    l_sem_nil(j);
    assert forall|t: Tr| sem(SI::Empty, t) implies #[trigger] sem(j, t) by {
        assert(t =~= Seq::empty());
    }
}

pub broadcast proof fn b_incl_refl(j: SI)
    ensures #[trigger] incl(j, j),
{
    reveal(incl);
}

pub proof fn l_pw_pr(k: LoopKind, a: SI, l: ISet<usize>, ra: SI, n: nat, t: Tr)
    requires pr(a, l, ra),
    ensures pw(k, ra, n, t) == (pw(k, a, n, t) && avt(t, l)),
    decreases n,
{
    reveal(pr);
    if n > 0 {
        if pw(k, ra, n, t) {
            let (t1, t2) = choose|t1: Tr, t2: Tr| #![trigger lmrg(k, t1, t2, t)] sem(ra, t1) && pw(k, ra, (n - 1) as nat, t2) && lmrg(k, t1, t2, t);
            l_pw_pr(k, a, l, ra, (n - 1) as nat, t2);
            l_mrg_avt(lop(k), t1, t2, t, l);
        }
        if pw(k, a, n, t) && avt(t, l) {
            let (t1, t2) = choose|t1: Tr, t2: Tr| #![trigger lmrg(k, t1, t2, t)] sem(a, t1) && pw(k, a, (n - 1) as nat, t2) && lmrg(k, t1, t2, t);
            l_mrg_avt(lop(k), t1, t2, t, l);
            l_pw_pr(k, a, l, ra, (n - 1) as nat, t2);
        }
    }
}

pub broadcast proof fn b_pr_loop(k: LoopKind, a: SI, l: ISet<usize>, ra: SI)
    requires pr(a, l, ra),
    ensures #[trigger] pr(SI::Loop(k, Box::new(a)), l, SI::Loop(k, Box::new(ra))),
{
    reveal(pr);
    let i = SI::Loop(k, Box::new(a));
    let r = SI::Loop(k, Box::new(ra));
    assert forall|t: Tr| #[trigger] sem(r, t) == (sem(i, t) && avt(t, l)) by {
        if sem(r, t) {
            let n = choose|n: nat| #[trigger] tn(n) && pw(k, ra, n, t);
            l_pw_pr(k, a, l, ra, n, t);
            assert(tn(n) && pw(k, a, n, t));
        }
        if sem(i, t) && avt(t, l) {
            let n = choose|n: nat| #[trigger] tn(n) && pw(k, a, n, t);
            l_pw_pr(k, a, l, ra, n, t);
            assert(tn(n) && pw(k, ra, n, t));
        }
    }
}

/// a loop over a body with only the empty trace (restricted to l) has only the empty trace
pub broadcast proof fn b_pr_loop_empty(k: LoopKind, a: SI, l: ISet<usize>)
    requires pr(a, l, SI::Empty) || !av(a, l),
    ensures #[trigger] pr(SI::Loop(k, Box::new(a)), l, SI::Empty),
{
    reveal(pr);
    let i = SI::Loop(k, Box::new(a));
    assert forall|t: Tr| #[trigger] sem(SI::Empty, t) == (sem(i, t) && avt(t, l)) by {
        if t.len() == 0 {
            assert(tn(0) && pw(k, a, 0, t));
        } else if sem(i, t) && avt(t, l) {
            let n = choose|n: nat| #[trigger] tn(n) && pw(k, a, n, t);
            l_pw_only_nil(k, a, l, n, t);
        }
    }
}

pub proof fn l_pw_only_nil(k: LoopKind, a: SI, l: ISet<usize>, n: nat, t: Tr)
    requires pr(a, l, SI::Empty) || !av(a, l), pw(k, a, n, t), avt(t, l),
    ensures t.len() == 0,
    decreases n,
{
    reveal(pr);
    if n > 0 {
        let (t1, t2) = choose|t1: Tr, t2: Tr| #![trigger lmrg(k, t1, t2, t)] sem(a, t1) && pw(k, a, (n - 1) as nat, t2) && lmrg(k, t1, t2, t);
        l_mrg_avt(lop(k), t1, t2, t, l);
        l_pw_only_nil(k, a, l, (n - 1) as nat, t2);
        if !av(a, l) { l_av_none(a, l, t1); }
        assert(sem(SI::Empty, t1) == (sem(a, t1) && avt(t1, l)));
        l_mrg_len(lop(k), t1, t2, t);
    }
}

pub broadcast proof fn b_pr_op(c: MOp, a: SI, b: SI, l: ISet<usize>, ra: SI, rb: SI)
    requires pr(a, l, ra), pr(b, l, rb),
    ensures #[trigger] pr(SI::Op(c, Box::new(a), Box::new(b)), l, SI::Op(c, Box::new(ra), Box::new(rb))),
{
    reveal(pr);
    let i = SI::Op(c, Box::new(a), Box::new(b));
    let r = SI::Op(c, Box::new(ra), Box::new(rb));
    assert forall|t: Tr| #[trigger] sem(r, t) == (sem(i, t) && avt(t, l)) by {
        if sem(r, t) {
            let (t1, t2) = choose|t1: Tr, t2: Tr| #![trigger mrg(c, t1, t2, t)] sem(ra, t1) && sem(rb, t2) && mrg(c, t1, t2, t);
            l_mrg_avt(c, t1, t2, t, l);
        }
        if sem(i, t) && avt(t, l) {
            let (t1, t2) = choose|t1: Tr, t2: Tr| #![trigger mrg(c, t1, t2, t)] sem(a, t1) && sem(b, t2) && mrg(c, t1, t2, t);
            l_mrg_avt(c, t1, t2, t, l);
            assert(sem(ra, t1));
            assert(sem(rb, t2));
        }
    }
}

/// neutral element
pub proof fn l_neutral(c: MOp, x: SI)
    requires !(c is Sync),
    ensures
        semeq(SI::Op(c, Box::new(SI::Empty), Box::new(x)), x),
        semeq(SI::Op(c, Box::new(x), Box::new(SI::Empty)), x),
{
    reveal(semeq);
    let e = Seq::<Ev>::empty();
    let l = SI::Op(c, Box::new(SI::Empty), Box::new(x));
    let r = SI::Op(c, Box::new(x), Box::new(SI::Empty));
    assert forall|t: Tr| sem(l, t) == #[trigger] sem(x, t) by {
        l_mrg_nil_l(c, t, t);
        assert(sem(SI::Empty, e));
        if sem(l, t) {
            let (t1, t2) = choose|t1: Tr, t2: Tr| #![trigger mrg(c, t1, t2, t)] sem(SI::Empty, t1) && sem(x, t2) && mrg(c, t1, t2, t);
            assert(t1 =~= e);
            l_mrg_nil_l(c, t2, t);
        }
        if sem(x, t) { assert(mrg(c, e, t, t)); }
    }
    assert forall|t: Tr| sem(r, t) == #[trigger] sem(x, t) by {
        l_mrg_nil_r(c, t, t);
        assert(sem(SI::Empty, e));
        if sem(r, t) {
            let (t1, t2) = choose|t1: Tr, t2: Tr| #![trigger mrg(c, t1, t2, t)] sem(x, t1) && sem(SI::Empty, t2) && mrg(c, t1, t2, t);
            assert(t2 =~= e);
            l_mrg_nil_r(c, t1, t);
        }
        if sem(x, t) { assert(mrg(c, t, e, t)); }
    }
}

pub proof fn l_pr_semeq(i: SI, l: ISet<usize>, r: SI, r2: SI)
    requires pr(i, l, r), semeq(r, r2),
    ensures pr(i, l, r2),
{
    reveal(pr);
    reveal(semeq);
    assert forall|t: Tr| #[trigger] sem(r2, t) == (sem(i, t) && avt(t, l)) by {
        assert(sem(r, t) == sem(r2, t));
    }
}

/// Empty operands may be dropped (no Sync)
pub broadcast proof fn b_pr_op_nil_l(c: MOp, a: SI, b: SI, l: ISet<usize>, rb: SI)
    requires pr(a, l, SI::Empty), pr(b, l, rb), !(c is Sync),
    ensures #[trigger] pr(SI::Op(c, Box::new(a), Box::new(b)), l, rb),
{
    let i = SI::Op(c, Box::new(a), Box::new(b));
    b_pr_op(c, a, b, l, SI::Empty, rb);
    l_neutral(c, rb);
    l_pr_semeq(i, l, SI::Op(c, Box::new(SI::Empty), Box::new(rb)), rb);
}

pub broadcast proof fn b_pr_op_nil_r(c: MOp, a: SI, b: SI, l: ISet<usize>, ra: SI)
    requires pr(a, l, ra), pr(b, l, SI::Empty), !(c is Sync),
    ensures #[trigger] pr(SI::Op(c, Box::new(a), Box::new(b)), l, ra),
{
    let i = SI::Op(c, Box::new(a), Box::new(b));
    b_pr_op(c, a, b, l, ra, SI::Empty);
    l_neutral(c, ra);
    l_pr_semeq(i, l, SI::Op(c, Box::new(ra), Box::new(SI::Empty)), ra);
}

pub broadcast proof fn b_pr_alt(a: SI, b: SI, l: ISet<usize>, ra: SI, rb: SI)
    requires pr(a, l, ra), pr(b, l, rb),
    ensures #[trigger] pr(SI::Alt(Box::new(a), Box::new(b)), l, SI::Alt(Box::new(ra), Box::new(rb))),
{
    reveal(pr);
    let i = SI::Alt(Box::new(a), Box::new(b));
    let r = SI::Alt(Box::new(ra), Box::new(rb));
    assert forall|t: Tr| #[trigger] sem(r, t) == (sem(i, t) && avt(t, l)) by {
        assert(sem(ra, t) == (sem(a, t) && avt(t, l)));
        assert(sem(rb, t) == (sem(b, t) && avt(t, l)));
    }
}

pub broadcast proof fn b_pr_alt_incl_r(a: SI, b: SI, l: ISet<usize>, ra: SI, rb: SI)
    requires #[trigger] pr(a, l, ra), pr(b, l, rb), incl(ra, rb),
    ensures #[trigger] pr(SI::Alt(Box::new(a), Box::new(b)), l, rb),
{
    reveal(pr);
    reveal(incl);
    let i = SI::Alt(Box::new(a), Box::new(b));
    assert forall|t: Tr| #[trigger] sem(rb, t) == (sem(i, t) && avt(t, l)) by { assert(sem(ra, t) ==> sem(rb, t)); assert(sem(ra, t) == (sem(a, t) && avt(t, l))); }
}

pub broadcast proof fn b_pr_alt_incl_l(a: SI, b: SI, l: ISet<usize>, ra: SI, rb: SI)
    requires pr(a, l, ra), #[trigger] pr(b, l, rb), incl(rb, ra),
    ensures #[trigger] pr(SI::Alt(Box::new(a), Box::new(b)), l, ra),
{
    reveal(pr);
    reveal(incl);
    let i = SI::Alt(Box::new(a), Box::new(b));
    assert forall|t: Tr| #[trigger] sem(ra, t) == (sem(i, t) && avt(t, l)) by { assert(sem(rb, t) ==> sem(ra, t)); assert(sem(rb, t) == (sem(b, t) && avt(t, l))); }
}

pub broadcast proof fn b_pr_alt_l(a: SI, b: SI, l: ISet<usize>, ra: SI)
    requires pr(a, l, ra), !av(b, l),
    ensures #[trigger] pr(SI::Alt(Box::new(a), Box::new(b)), l, ra),
{
    reveal(pr);
    let i = SI::Alt(Box::new(a), Box::new(b));
    assert forall|t: Tr| #[trigger] sem(ra, t) == (sem(i, t) && avt(t, l)) by {
        if sem(b, t) { l_av_none(b, l, t); }
    }
}

pub broadcast proof fn b_pr_alt_r(a: SI, b: SI, l: ISet<usize>, rb: SI)
    requires pr(b, l, rb), !av(a, l),
    ensures #[trigger] pr(SI::Alt(Box::new(a), Box::new(b)), l, rb),
{
    reveal(pr);
    let i = SI::Alt(Box::new(a), Box::new(b));
    assert forall|t: Tr| #[trigger] sem(rb, t) == (sem(i, t) && avt(t, l)) by {
        if sem(a, t) { l_av_none(a, l, t); }
    }
}

/// an action term which avoids l is unchanged
pub broadcast proof fn b_pr_leaf(i: SI, l: ISet<usize>)
    requires i is Em || i is Rec || i is Empty, av(i, l),
    ensures #[trigger] pr(i, l, i),
{
    reveal(pr);
    assert forall|t: Tr| #[trigger] sem(i, t) == (sem(i, t) && avt(t, l)) by {
        if sem(i, t) {
            assert(inv(i).disjoint(l));
            l_disj_avt(i, l, t);
        }
    }
}

/// without synchronization action, the synchronized product is the interleaving
pub proof fn l_mrg_sync_par(s: Seq<TraceAction>, t1: Tr, t2: Tr, t: Tr, u: ISet<TraceAction>)
    requires u.disjoint(sset(s)), evs_in(t1, u), evs_in(t2, u),
    ensures mrg(MOp::Sync(s), t1, t2, t) == mrg(MOp::Par, t1, t2, t),
    decreases t.len(),
{
    let c = MOp::Sync(s);
    if t.len() > 0 {
        if t1.len() > 0 {
            l_evs_first(t1, u);
            assert(solo(c, t1[0]));
            l_mrg_sync_par(s, t1.drop_first(), t2, t.drop_first(), u);
        }
        if t2.len() > 0 {
            l_evs_first(t2, u);
            assert(solo(c, t2[0]));
            l_mrg_sync_par(s, t1, t2.drop_first(), t.drop_first(), u);
        }
        assert(forall|e: Ev| #[trigger] solo(MOp::Par, e));
    }
}

pub proof fn l_sync_par(s: Seq<TraceAction>, a: SI, b: SI)
    requires acts(a).disjoint(sset(s)), acts(b).disjoint(sset(s)),
    ensures semeq(SI::Op(MOp::Sync(s), Box::new(a), Box::new(b)), SI::Op(MOp::Par, Box::new(a), Box::new(b))),
{
    reveal(semeq);
    let c = MOp::Sync(s);
    let i = SI::Op(c, Box::new(a), Box::new(b));
    let j = SI::Op(MOp::Par, Box::new(a), Box::new(b));
    let u = acts(a).union(acts(b));
    assert forall|t: Tr| sem(i, t) == #[trigger] sem(j, t) by {
        if sem(i, t) {
            let (t1, t2) = choose|t1: Tr, t2: Tr| #![trigger mrg(c, t1, t2, t)] sem(a, t1) && sem(b, t2) && mrg(c, t1, t2, t);
            l_sem_acts(a, t1);
            l_sem_acts(b, t2);
            assert(evs_in(t1, u) && evs_in(t2, u));
            l_mrg_sync_par(s, t1, t2, t, u);
        }
        if sem(j, t) {
            let (t1, t2) = choose|t1: Tr, t2: Tr| #![trigger mrg(MOp::Par, t1, t2, t)] sem(a, t1) && sem(b, t2) && mrg(MOp::Par, t1, t2, t);
            l_sem_acts(a, t1);
            l_sem_acts(b, t2);
            assert(evs_in(t1, u) && evs_in(t2, u));
            l_mrg_sync_par(s, t1, t2, t, u);
        }
    }
}

pub proof fn l_pr_sync_par(s: Seq<TraceAction>, a: SI, b: SI, l: ISet<usize>, ra: SI, rb: SI)
    requires pr(a, l, ra), pr(b, l, rb), acts(ra).disjoint(sset(s)), acts(rb).disjoint(sset(s)),
    ensures pr(SI::Op(MOp::Sync(s), Box::new(a), Box::new(b)), l, SI::Op(MOp::Par, Box::new(ra), Box::new(rb))),
        ra is Empty ==> pr(SI::Op(MOp::Sync(s), Box::new(a), Box::new(b)), l, rb),
        rb is Empty ==> pr(SI::Op(MOp::Sync(s), Box::new(a), Box::new(b)), l, ra),
{
    let c = MOp::Sync(s);
    let i = SI::Op(c, Box::new(a), Box::new(b));
    let p = SI::Op(MOp::Par, Box::new(ra), Box::new(rb));
    b_pr_op(c, a, b, l, ra, rb);
    l_sync_par(s, ra, rb);
    l_pr_semeq(i, l, SI::Op(c, Box::new(ra), Box::new(rb)), p);
    if ra is Empty { l_neutral(MOp::Par, rb); l_pr_semeq(i, l, p, rb); }
    if rb is Empty { l_neutral(MOp::Par, ra); l_pr_semeq(i, l, p, ra); }
}

pub broadcast proof fn b_pr_sync_par(s: Seq<TraceAction>, a: SI, b: SI, l: ISet<usize>, ra: SI, rb: SI)
    requires pr(a, l, ra), pr(b, l, rb), acts(ra).disjoint(sset(s)), acts(rb).disjoint(sset(s)),
    ensures #[trigger] pr(SI::Op(MOp::Sync(s), Box::new(a), Box::new(b)), l, SI::Op(MOp::Par, Box::new(ra), Box::new(rb))),
{
    l_pr_sync_par(s, a, b, l, ra, rb);
}

pub broadcast proof fn b_pr_sync_nil_l(s: Seq<TraceAction>, a: SI, b: SI, l: ISet<usize>, rb: SI)
    requires pr(a, l, SI::Empty), pr(b, l, rb), acts(rb).disjoint(sset(s)),
    ensures #[trigger] pr(SI::Op(MOp::Sync(s), Box::new(a), Box::new(b)), l, rb),
{
    assert(acts(SI::Empty).disjoint(sset(s)));
    l_pr_sync_par(s, a, b, l, SI::Empty, rb);
}

pub broadcast proof fn b_pr_sync_nil_r(s: Seq<TraceAction>, a: SI, b: SI, l: ISet<usize>, ra: SI)
    requires pr(a, l, ra), pr(b, l, SI::Empty), acts(ra).disjoint(sset(s)),
    ensures #[trigger] pr(SI::Op(MOp::Sync(s), Box::new(a), Box::new(b)), l, ra),
{
    assert(acts(SI::Empty).disjoint(sset(s)));
    l_pr_sync_par(s, a, b, l, ra, SI::Empty);
}

pub broadcast group g_pr {
    b_incl_empty, b_incl_refl, b_pr_loop, b_pr_loop_empty, b_pr_op, b_pr_op_nil_l, b_pr_op_nil_r, b_pr_alt, b_pr_alt_incl_l, b_pr_alt_incl_r, b_pr_alt_l, b_pr_alt_r, b_pr_leaf, b_pr_sync_par, b_pr_sync_nil_l, b_pr_sync_nil_r,
}
