// ============================================================================================
// Follow-ups and frontiers (ghost code only).
// ============================================================================================

/// r accepts exactly the traces which may follow the action at position p of i
#[verifier::opaque]
pub open spec fn dr(i: SI, p: SP, r: SI) -> bool {
    forall|t: Tr| #[trigger] sem(r, t) == der(i, p, t)
}

pub proof fn l_dr_semeq(i: SI, p: SP, r: SI, r2: SI)
    requires dr(i, p, r), semeq(r, r2),
    ensures dr(i, p, r2),
{
    reveal(dr);
    reveal(semeq);
    assert forall|t: Tr| #[trigger] sem(r2, t) == der(i, p, t) by { assert(sem(r, t) == sem(r2, t)); }
}

pub open spec fn op(c: MOp, a: SI, b: SI) -> SI { SI::Op(c, Box::new(a), Box::new(b)) }
pub open spec fn lp(k: LoopKind, a: SI) -> SI { SI::Loop(k, Box::new(a)) }
pub open spec fn al(a: SI, b: SI) -> SI { SI::Alt(Box::new(a), Box::new(b)) }
pub open spec fn pl(p: SP) -> SP { SP::Left(Box::new(p)) }
pub open spec fn prr(p: SP) -> SP { SP::Right(Box::new(p)) }
pub open spec fn pb(p: SP, q: SP) -> SP { SP::Both(Box::new(p), Box::new(q)) }

pub broadcast proof fn b_dr_left(c: MOp, a: SI, b: SI, q: SP, ra: SI)
    requires dr(a, q, ra),
    ensures #[trigger] dr(SI::Op(c, Box::new(a), Box::new(b)), SP::Left(Box::new(q)), SI::Op(c, Box::new(ra), Box::new(b))),
{
    reveal(dr);
    let i = op(c, a, b);
    let r = op(c, ra, b);
    assert forall|t: Tr| #[trigger] sem(r, t) == der(i, pl(q), t) by {
        if sem(r, t) {
            let (t1, t2) = choose|t1: Tr, t2: Tr| #![trigger mrg(c, t1, t2, t)] sem(ra, t1) && sem(b, t2) && mrg(c, t1, t2, t);
            assert(der(a, q, t1));
        }
        if der(i, pl(q), t) {
            let (t1, t2) = choose|t1: Tr, t2: Tr| #![trigger mrg(c, t1, t2, t)] der(a, q, t1) && sem(b, t2) && mrg(c, t1, t2, t);
            assert(sem(ra, t1));
        }
    }
}

pub broadcast proof fn b_dr_left_nil(c: MOp, a: SI, b: SI, q: SP)
    requires dr(a, q, SI::Empty), !(c is Sync),
    ensures #[trigger] dr(SI::Op(c, Box::new(a), Box::new(b)), SP::Left(Box::new(q)), b),
{
    b_dr_left(c, a, b, q, SI::Empty);
    l_neutral(c, b);
    l_dr_semeq(op(c, a, b), pl(q), op(c, SI::Empty, b), b);
}

pub proof fn l_dr_right(c: MOp, a: SI, b: SI, q: SP, pa: SI, rb: SI)
    requires pr(a, need(c, actp(b, q)), pa), dr(b, q, rb), !(c is Strict),
    ensures dr(op(c, a, b), prr(q), op(c, pa, rb)),
{
    reveal(dr);
    reveal(pr);
    let i = op(c, a, b);
    let r = op(c, pa, rb);
    let e = actp(b, q);
    assert forall|t: Tr| #[trigger] sem(r, t) == der(i, prr(q), t) by {
        if sem(r, t) {
            let (t1, t2) = choose|t1: Tr, t2: Tr| #![trigger mrg(c, t1, t2, t)] sem(pa, t1) && sem(rb, t2) && mrg(c, t1, t2, t);
            assert(der(b, q, t2) && sem(a, t1) && okr(c, t1, e));
        }
        if der(i, prr(q), t) {
            let (t1, t2) = choose|t1: Tr, t2: Tr| #![trigger mrg(c, t1, t2, t)]
                sem(a, t1) && okr(c, t1, actp(b, q)) && der(b, q, t2) && mrg(c, t1, t2, t);
            assert(sem(pa, t1) && sem(rb, t2));
        }
    }
}

pub broadcast proof fn b_dr_right(c: MOp, a: SI, b: SI, q: SP, pa: SI, rb: SI)
    requires pr(a, need(c, actp(b, q)), pa), dr(b, q, rb), !(c is Strict),
    ensures #[trigger] dr(SI::Op(c, Box::new(a), Box::new(b)), SP::Right(Box::new(q)), SI::Op(c, Box::new(pa), Box::new(rb))),
{
    l_dr_right(c, a, b, q, pa, rb);
}

pub broadcast proof fn b_dr_right_nil_l(c: MOp, a: SI, b: SI, q: SP, rb: SI)
    requires pr(a, need(c, actp(b, q)), SI::Empty), dr(b, q, rb), !(c is Strict), !(c is Sync),
    ensures #[trigger] dr(SI::Op(c, Box::new(a), Box::new(b)), SP::Right(Box::new(q)), rb),
{
    l_dr_right(c, a, b, q, SI::Empty, rb);
    l_neutral(c, rb);
    l_dr_semeq(op(c, a, b), prr(q), op(c, SI::Empty, rb), rb);
}

pub broadcast proof fn b_dr_right_nil_r(c: MOp, a: SI, b: SI, q: SP, pa: SI)
    requires pr(a, need(c, actp(b, q)), pa), dr(b, q, SI::Empty), !(c is Strict), !(c is Sync),
    ensures #[trigger] dr(SI::Op(c, Box::new(a), Box::new(b)), SP::Right(Box::new(q)), pa),
{
    l_dr_right(c, a, b, q, pa, SI::Empty);
    l_neutral(c, pa);
    l_dr_semeq(op(c, a, b), prr(q), op(c, pa, SI::Empty), pa);
}

/// nothing to prune
pub broadcast proof fn b_pr_none(a: SI, l: ISet<usize>)
    requires forall|x: usize| !l.contains(x),
    ensures #[trigger] pr(a, l, a),
{
    reveal(pr);
}

pub broadcast proof fn b_dr_strict_right(a: SI, b: SI, q: SP, rb: SI)
    requires conf(a), nullable(a), dr(b, q, rb),
    ensures #[trigger] dr(SI::Op(MOp::Strict, Box::new(a), Box::new(b)), SP::Right(Box::new(q)), rb),
{
    reveal(dr);
    let c = MOp::Strict;
    let i = op(c, a, b);
    let nil = Seq::<Ev>::empty();
    l_sem_nil(a);
    assert forall|t: Tr| #[trigger] sem(rb, t) == der(i, prr(q), t) by {
        if sem(rb, t) {
            l_mrg_nil_l(c, t, t);
            assert(sem(a, nil) && okr(c, nil, actp(b, q)) && der(b, q, t) && mrg(c, nil, t, t));
        }
        if der(i, prr(q), t) {
            let (t1, t2) = choose|t1: Tr, t2: Tr| #![trigger mrg(c, t1, t2, t)]
                sem(a, t1) && okr(c, t1, actp(b, q)) && der(b, q, t2) && mrg(c, t1, t2, t);
            assert(t1 =~= nil);
            l_mrg_nil_l(c, t2, t);
            assert(sem(rb, t2));
        }
    }
}

pub proof fn l_dr_both(c: MOp, a: SI, b: SI, q1: SP, q2: SP, ra: SI, rb: SI)
    requires dr(a, q1, ra), dr(b, q2, rb),
    ensures dr(op(c, a, b), pb(q1, q2), op(c, ra, rb)),
{
    reveal(dr);
    let i = op(c, a, b);
    let r = op(c, ra, rb);
    assert forall|t: Tr| #[trigger] sem(r, t) == der(i, pb(q1, q2), t) by {
        if sem(r, t) {
            let (t1, t2) = choose|t1: Tr, t2: Tr| #![trigger mrg(c, t1, t2, t)] sem(ra, t1) && sem(rb, t2) && mrg(c, t1, t2, t);
            assert(der(a, q1, t1) && der(b, q2, t2));
        }
        if der(i, pb(q1, q2), t) {
            let (t1, t2) = choose|t1: Tr, t2: Tr| #![trigger mrg(c, t1, t2, t)] der(a, q1, t1) && der(b, q2, t2) && mrg(c, t1, t2, t);
            assert(sem(ra, t1) && sem(rb, t2));
        }
    }
}

pub broadcast proof fn b_dr_both(c: MOp, a: SI, b: SI, q1: SP, q2: SP, ra: SI, rb: SI)
    requires dr(a, q1, ra), dr(b, q2, rb),
    ensures #[trigger] dr(SI::Op(c, Box::new(a), Box::new(b)), SP::Both(Box::new(q1), Box::new(q2)), SI::Op(c, Box::new(ra), Box::new(rb))),
{
    l_dr_both(c, a, b, q1, q2, ra, rb);
}

/// synchronized product whose synchronization actions have all been consumed
pub proof fn l_dr_sync(s: Seq<TraceAction>, i: SI, p: SP, ra: SI, rb: SI)
    requires dr(i, p, op(MOp::Sync(s), ra, rb)), acts(ra).disjoint(sset(s)), acts(rb).disjoint(sset(s)),
    ensures dr(i, p, op(MOp::Par, ra, rb)), ra is Empty ==> dr(i, p, rb), rb is Empty ==> dr(i, p, ra),
{
    l_sync_par(s, ra, rb);
    l_dr_semeq(i, p, op(MOp::Sync(s), ra, rb), op(MOp::Par, ra, rb));
    l_neutral(MOp::Par, ra);
    l_neutral(MOp::Par, rb);
    if ra is Empty { l_dr_semeq(i, p, op(MOp::Par, ra, rb), rb); }
    if rb is Empty { l_dr_semeq(i, p, op(MOp::Par, ra, rb), ra); }
}

pub broadcast proof fn b_dr_sl(s: Seq<TraceAction>, a: SI, b: SI, q: SP, ra: SI)
    requires dr(a, q, ra), acts(ra).disjoint(sset(s)), acts(b).disjoint(sset(s)),
    ensures #[trigger] dr(SI::Op(MOp::Sync(s), Box::new(a), Box::new(b)), SP::Left(Box::new(q)), SI::Op(MOp::Par, Box::new(ra), Box::new(b))),
{
    b_dr_left(MOp::Sync(s), a, b, q, ra);
    l_dr_sync(s, op(MOp::Sync(s), a, b), pl(q), ra, b);
}

pub broadcast proof fn b_dr_sl1(s: Seq<TraceAction>, a: SI, b: SI, q: SP)
    requires dr(a, q, SI::Empty), acts(b).disjoint(sset(s)),
    ensures #[trigger] dr(SI::Op(MOp::Sync(s), Box::new(a), Box::new(b)), SP::Left(Box::new(q)), b),
{
    b_dr_left(MOp::Sync(s), a, b, q, SI::Empty);
    assert(acts(SI::Empty).disjoint(sset(s)));
    l_dr_sync(s, op(MOp::Sync(s), a, b), pl(q), SI::Empty, b);
}

pub broadcast proof fn b_dr_sl2(s: Seq<TraceAction>, a: SI, q: SP, ra: SI)
    requires dr(a, q, ra), acts(ra).disjoint(sset(s)),
    ensures #[trigger] dr(SI::Op(MOp::Sync(s), Box::new(a), Box::new(SI::Empty)), SP::Left(Box::new(q)), ra),
{
    b_dr_left(MOp::Sync(s), a, SI::Empty, q, ra);
    assert(acts(SI::Empty).disjoint(sset(s)));
    l_dr_sync(s, op(MOp::Sync(s), a, SI::Empty), pl(q), ra, SI::Empty);
}

pub proof fn l_dr_sright(s: Seq<TraceAction>, a: SI, b: SI, q: SP, rb: SI)
    requires dr(b, q, rb),
    ensures dr(op(MOp::Sync(s), a, b), prr(q), op(MOp::Sync(s), a, rb)),
{
    b_pr_none(a, need(MOp::Sync(s), actp(b, q)));
    l_dr_right(MOp::Sync(s), a, b, q, a, rb);
}

pub broadcast proof fn b_dr_sr0(s: Seq<TraceAction>, a: SI, b: SI, q: SP, rb: SI)
    requires dr(b, q, rb),
    ensures #[trigger] dr(SI::Op(MOp::Sync(s), Box::new(a), Box::new(b)), SP::Right(Box::new(q)), SI::Op(MOp::Sync(s), Box::new(a), Box::new(rb))),
{
    l_dr_sright(s, a, b, q, rb);
}

pub broadcast proof fn b_dr_sr(s: Seq<TraceAction>, a: SI, b: SI, q: SP, rb: SI)
    requires dr(b, q, rb), acts(a).disjoint(sset(s)), acts(rb).disjoint(sset(s)),
    ensures #[trigger] dr(SI::Op(MOp::Sync(s), Box::new(a), Box::new(b)), SP::Right(Box::new(q)), SI::Op(MOp::Par, Box::new(a), Box::new(rb))),
{
    l_dr_sright(s, a, b, q, rb);
    l_dr_sync(s, op(MOp::Sync(s), a, b), prr(q), a, rb);
}

pub broadcast proof fn b_dr_sr1(s: Seq<TraceAction>, b: SI, q: SP, rb: SI)
    requires dr(b, q, rb), acts(rb).disjoint(sset(s)),
    ensures #[trigger] dr(SI::Op(MOp::Sync(s), Box::new(SI::Empty), Box::new(b)), SP::Right(Box::new(q)), rb),
{
    l_dr_sright(s, SI::Empty, b, q, rb);
    assert(acts(SI::Empty).disjoint(sset(s)));
    l_dr_sync(s, op(MOp::Sync(s), SI::Empty, b), prr(q), SI::Empty, rb);
}

pub broadcast proof fn b_dr_sr2(s: Seq<TraceAction>, a: SI, b: SI, q: SP)
    requires dr(b, q, SI::Empty), acts(a).disjoint(sset(s)),
    ensures #[trigger] dr(SI::Op(MOp::Sync(s), Box::new(a), Box::new(b)), SP::Right(Box::new(q)), a),
{
    l_dr_sright(s, a, b, q, SI::Empty);
    assert(acts(SI::Empty).disjoint(sset(s)));
    l_dr_sync(s, op(MOp::Sync(s), a, b), prr(q), a, SI::Empty);
}

pub broadcast proof fn b_dr_sb(s: Seq<TraceAction>, a: SI, b: SI, q1: SP, q2: SP, ra: SI, rb: SI)
    requires dr(a, q1, ra), dr(b, q2, rb), acts(ra).disjoint(sset(s)), acts(rb).disjoint(sset(s)),
    ensures #[trigger] dr(SI::Op(MOp::Sync(s), Box::new(a), Box::new(b)), SP::Both(Box::new(q1), Box::new(q2)), SI::Op(MOp::Par, Box::new(ra), Box::new(rb))),
{
    l_dr_both(MOp::Sync(s), a, b, q1, q2, ra, rb);
    l_dr_sync(s, op(MOp::Sync(s), a, b), pb(q1, q2), ra, rb);
}

pub broadcast proof fn b_dr_sb1(s: Seq<TraceAction>, a: SI, b: SI, q1: SP, q2: SP, rb: SI)
    requires dr(a, q1, SI::Empty), dr(b, q2, rb), acts(rb).disjoint(sset(s)),
    ensures #[trigger] dr(SI::Op(MOp::Sync(s), Box::new(a), Box::new(b)), SP::Both(Box::new(q1), Box::new(q2)), rb),
{
    l_dr_both(MOp::Sync(s), a, b, q1, q2, SI::Empty, rb);
    assert(acts(SI::Empty).disjoint(sset(s)));
    l_dr_sync(s, op(MOp::Sync(s), a, b), pb(q1, q2), SI::Empty, rb);
}

pub broadcast proof fn b_dr_sb2(s: Seq<TraceAction>, a: SI, b: SI, q1: SP, q2: SP, ra: SI)
    requires dr(a, q1, ra), dr(b, q2, SI::Empty), acts(ra).disjoint(sset(s)),
    ensures #[trigger] dr(SI::Op(MOp::Sync(s), Box::new(a), Box::new(b)), SP::Both(Box::new(q1), Box::new(q2)), ra),
{
    l_dr_both(MOp::Sync(s), a, b, q1, q2, ra, SI::Empty);
    assert(acts(SI::Empty).disjoint(sset(s)));
    l_dr_sync(s, op(MOp::Sync(s), a, b), pb(q1, q2), ra, SI::Empty);
}

pub broadcast proof fn b_dr_alt_l(a: SI, b: SI, q: SP, ra: SI)
    requires dr(a, q, ra),
    ensures #[trigger] dr(SI::Alt(Box::new(a), Box::new(b)), SP::Left(Box::new(q)), ra),
{
    reveal(dr);
    assert forall|t: Tr| #[trigger] sem(ra, t) == der(al(a, b), pl(q), t) by {}
}

pub broadcast proof fn b_dr_alt_r(a: SI, b: SI, q: SP, rb: SI)
    requires dr(b, q, rb),
    ensures #[trigger] dr(SI::Alt(Box::new(a), Box::new(b)), SP::Right(Box::new(q)), rb),
{
    reveal(dr);
    assert forall|t: Tr| #[trigger] sem(rb, t) == der(al(a, b), prr(q), t) by {}
}

pub broadcast proof fn b_dr_alt_b(a: SI, b: SI, q1: SP, q2: SP, ra: SI, rb: SI)
    requires dr(a, q1, ra), dr(b, q2, rb),
    ensures #[trigger] dr(SI::Alt(Box::new(a), Box::new(b)), SP::Both(Box::new(q1), Box::new(q2)), SI::Alt(Box::new(ra), Box::new(rb))),
{
    reveal(dr);
    assert forall|t: Tr| #[trigger] sem(al(ra, rb), t) == der(al(a, b), pb(q1, q2), t) by {
        assert(sem(ra, t) == der(a, q1, t));
        assert(sem(rb, t) == der(b, q2, t));
    }
}

pub broadcast proof fn b_dr_alt_b0(a: SI, b: SI, q1: SP, q2: SP, r: SI)
    requires dr(a, q1, r), dr(b, q2, r),
    ensures #[trigger] dr(SI::Alt(Box::new(a), Box::new(b)), SP::Both(Box::new(q1), Box::new(q2)), r),
{
    reveal(dr);
    assert forall|t: Tr| #[trigger] sem(r, t) == der(al(a, b), pb(q1, q2), t) by {
        assert(sem(r, t) == der(a, q1, t));
        assert(sem(r, t) == der(b, q2, t));
    }
}

// ---------------------------------------------------------------- loops

pub proof fn l_dr_loop(k: LoopKind, a: SI, q: SP, ra: SI)
    requires dr(a, q, ra), !(k is WWeakSeq),
    ensures dr(lp(k, a), pl(q), op(lop(k), ra, lp(k, a))),
{
    reveal(dr);
    let i = lp(k, a);
    let c = lop(k);
    let r = op(c, ra, i);
    let nil = Seq::<Ev>::empty();
    assert forall|t: Tr| #[trigger] sem(r, t) == der(i, pl(q), t) by {
        if sem(r, t) {
            let (t1, t2) = choose|t1: Tr, t2: Tr| #![trigger mrg(c, t1, t2, t)] sem(ra, t1) && sem(i, t2) && mrg(c, t1, t2, t);
            l_mrg_nil_l(c, t, t);
            assert(der(a, q, t1));
            assert(mrg(lop(k), t1, t2, t) && mrg(lop(k), nil, t, t));
        }
        if der(i, pl(q), t) {
            let (t0, t1, t2, m) = choose|t0: Tr, t1: Tr, t2: Tr, m: Tr| #![trigger mrg(lop(k), t1, t2, m), mrg(lop(k), t0, m, t)]
                (if k is WWeakSeq { sem(i, t0) && avt(t0, lfs(actp(a, q))) } else { t0.len() == 0 })
                && der(a, q, t1) && sem(i, t2) && mrg(lop(k), t1, t2, m) && mrg(lop(k), t0, m, t);
            assert(t0 =~= nil);
            l_mrg_nil_l(c, m, t);
            assert(sem(ra, t1));
            assert(mrg(c, t1, t2, t));
        }
    }
}

pub proof fn l_dr_loop_w(a: SI, q: SP, ra: SI, pl0: SI)
    requires dr(a, q, ra), pr(lp(LoopKind::WWeakSeq, a), lfs(actp(a, q)), pl0),
    ensures dr(lp(LoopKind::WWeakSeq, a), pl(q), op(MOp::Seq, pl0, op(MOp::Seq, ra, lp(LoopKind::WWeakSeq, a)))),
{
    reveal(dr);
    reveal(pr);
    let k = LoopKind::WWeakSeq;
    let i = lp(k, a);
    let c = MOp::Seq;
    let r0 = op(c, ra, i);
    let r = op(c, pl0, r0);
    assert forall|t: Tr| #[trigger] sem(r, t) == der(i, pl(q), t) by {
        if sem(r, t) {
            let (t0, m) = choose|t0: Tr, m: Tr| #![trigger mrg(c, t0, m, t)] sem(pl0, t0) && sem(r0, m) && mrg(c, t0, m, t);
            let (t1, t2) = choose|t1: Tr, t2: Tr| #![trigger mrg(c, t1, t2, m)] sem(ra, t1) && sem(i, t2) && mrg(c, t1, t2, m);
            assert(der(a, q, t1));
            assert(sem(i, t0) && avt(t0, lfs(actp(a, q))));
            assert(mrg(lop(k), t1, t2, m) && mrg(lop(k), t0, m, t));
        }
        if der(i, pl(q), t) {
            let (t0, t1, t2, m) = choose|t0: Tr, t1: Tr, t2: Tr, m: Tr| #![trigger mrg(lop(k), t1, t2, m), mrg(lop(k), t0, m, t)]
                (if k is WWeakSeq { sem(i, t0) && avt(t0, lfs(actp(a, q))) } else { t0.len() == 0 })
                && der(a, q, t1) && sem(i, t2) && mrg(lop(k), t1, t2, m) && mrg(lop(k), t0, m, t);
            assert(sem(ra, t1));
            assert(sem(pl0, t0));
            assert(mrg(c, t1, t2, m));
            assert(sem(r0, m));
            assert(mrg(c, t0, m, t));
        }
    }
}

pub broadcast proof fn b_dr_loop_s(a: SI, q: SP, ra: SI)
    requires dr(a, q, ra),
    ensures #[trigger] dr(SI::Loop(LoopKind::SStrictSeq, Box::new(a)), SP::Left(Box::new(q)),
        SI::Op(MOp::Strict, Box::new(ra), Box::new(SI::Loop(LoopKind::SStrictSeq, Box::new(a))))),
{
    l_dr_loop(LoopKind::SStrictSeq, a, q, ra);
}

pub broadcast proof fn b_dr_loop_h(a: SI, q: SP, ra: SI)
    requires dr(a, q, ra),
    ensures #[trigger] dr(SI::Loop(LoopKind::HHeadFirstWS, Box::new(a)), SP::Left(Box::new(q)),
        SI::Op(MOp::Seq, Box::new(ra), Box::new(SI::Loop(LoopKind::HHeadFirstWS, Box::new(a))))),
{
    l_dr_loop(LoopKind::HHeadFirstWS, a, q, ra);
}

pub broadcast proof fn b_dr_loop_p(a: SI, q: SP, ra: SI)
    requires dr(a, q, ra),
    ensures #[trigger] dr(SI::Loop(LoopKind::PInterleaving, Box::new(a)), SP::Left(Box::new(q)),
        SI::Op(MOp::Par, Box::new(ra), Box::new(SI::Loop(LoopKind::PInterleaving, Box::new(a))))),
{
    l_dr_loop(LoopKind::PInterleaving, a, q, ra);
}

pub broadcast proof fn b_dr_loop_w(a: SI, q: SP, ra: SI, pl0: SI)
    requires dr(a, q, ra), pr(SI::Loop(LoopKind::WWeakSeq, Box::new(a)), lfs(actp(a, q)), pl0),
    ensures #[trigger] dr(SI::Loop(LoopKind::WWeakSeq, Box::new(a)), SP::Left(Box::new(q)),
        SI::Op(MOp::Seq, Box::new(pl0), Box::new(SI::Op(MOp::Seq, Box::new(ra), Box::new(SI::Loop(LoopKind::WWeakSeq, Box::new(a))))))),
{
    l_dr_loop_w(a, q, ra, pl0);
}

pub broadcast proof fn b_dr_loop_w0(a: SI, q: SP, ra: SI)
    requires dr(a, q, ra), pr(SI::Loop(LoopKind::WWeakSeq, Box::new(a)), lfs(actp(a, q)), SI::Empty),
    ensures #[trigger] dr(SI::Loop(LoopKind::WWeakSeq, Box::new(a)), SP::Left(Box::new(q)),
        SI::Op(MOp::Seq, Box::new(ra), Box::new(SI::Loop(LoopKind::WWeakSeq, Box::new(a))))),
{
    let w = lp(LoopKind::WWeakSeq, a);
    l_dr_loop_w(a, q, ra, SI::Empty);
    l_neutral(MOp::Seq, op(MOp::Seq, ra, w));
    l_dr_semeq(w, pl(q), op(MOp::Seq, SI::Empty, op(MOp::Seq, ra, w)), op(MOp::Seq, ra, w));
}

pub broadcast proof fn b_dr_loop_nil(k: LoopKind, a: SI, q: SP)
    requires dr(a, q, SI::Empty),
    ensures #[trigger] dr(SI::Loop(k, Box::new(a)), SP::Left(Box::new(q)), SI::Loop(k, Box::new(a))),
{
    let i = lp(k, a);
    let c = lop(k);
    if !(k is WWeakSeq) {
        l_dr_loop(k, a, q, SI::Empty);
        l_neutral(c, i);
        l_dr_semeq(i, pl(q), op(c, SI::Empty, i), i);
    } else {
        reveal(dr);
        let nil = Seq::<Ev>::empty();
        assert forall|t: Tr| #[trigger] sem(i, t) == der(i, pl(q), t) by {
            assert(pw(k, a, 0, nil));
            assert(tn(0));
            if sem(i, t) {
                l_mrg_nil_l(c, t, t);
                assert(sem(SI::Empty, nil));
                assert(der(a, q, nil));
                assert(sem(i, nil));
                assert(mrg(lop(k), nil, t, t) && mrg(lop(k), nil, t, t));
            }
            if der(i, pl(q), t) {
                let (t0, t1, t2, m) = choose|t0: Tr, t1: Tr, t2: Tr, m: Tr| #![trigger mrg(lop(k), t1, t2, m), mrg(lop(k), t0, m, t)]
                    (if k is WWeakSeq { sem(i, t0) && avt(t0, lfs(actp(a, q))) } else { t0.len() == 0 })
                    && der(a, q, t1) && sem(i, t2) && mrg(lop(k), t1, t2, m) && mrg(lop(k), t0, m, t);
                assert(sem(SI::Empty, t1));
                assert(t1 =~= nil);
                l_mrg_nil_l(c, t2, m);
                let n0 = choose|n: nat| #[trigger] tn(n) && pw(k, a, n, t0);
                let n2 = choose|n: nat| #[trigger] tn(n) && pw(k, a, n, t2);
                l_pw_add(k, a, n0, n2, t0, t2, t);
                assert(tn(n0 + n2));
            }
        }
    }
}

pub broadcast proof fn b_dr_em_sync(o: usize, ms: usize, tg: Seq<EmissionTargetRef>, k: Option<usize>)
    ensures #[trigger] dr(SI::Em(o, ms, true, tg), SP::Eps(k), SI::Empty),
{
    reveal(dr);
}

pub broadcast proof fn b_dr_em_async0(o: usize, ms: usize, tg: Seq<EmissionTargetRef>, k: Option<usize>)
    requires lf_targets(tg).len() == 0,
    ensures #[trigger] dr(SI::Em(o, ms, false, tg), SP::Eps(k), SI::Empty),
{
    reveal(dr);
}

pub broadcast proof fn b_dr_em_async(o: usize, ms: usize, tg: Seq<EmissionTargetRef>, k: Option<usize>, g: Option<usize>, rs: Seq<usize>)
    requires lf_targets(tg) =~= rs,
    ensures #[trigger] dr(SI::Em(o, ms, false, tg), SP::Eps(k), SI::Rec(g, ms, false, rs)),
{
    reveal(dr);
}

pub broadcast proof fn b_dr_rec_sync(g: Option<usize>, ms: usize, rs: Seq<usize>, k: Option<usize>)
    ensures #[trigger] dr(SI::Rec(g, ms, true, rs), SP::Eps(k), SI::Empty),
{
    reveal(dr);
}

pub broadcast proof fn b_dr_rec_async0(g: Option<usize>, ms: usize, rs: Seq<usize>, k: usize)
    requires k < rs.len(), rs.len() == 1,
    ensures #[trigger] dr(SI::Rec(g, ms, false, rs), SP::Eps(Some(k)), SI::Empty),
{
    reveal(dr);
}

pub broadcast proof fn b_dr_rec_async(g: Option<usize>, ms: usize, rs: Seq<usize>, k: usize, rs2: Seq<usize>)
    requires k < rs.len(), rs.remove(k as int) =~= rs2,
    ensures #[trigger] dr(SI::Rec(g, ms, false, rs), SP::Eps(Some(k)), SI::Rec(g, ms, false, rs2)),
{
    reveal(dr);
}

pub broadcast group g_dr {
    b_dr_left, b_dr_left_nil, b_dr_right, b_dr_right_nil_l, b_dr_right_nil_r, b_pr_none, b_dr_strict_right, b_dr_both,
    b_dr_sl, b_dr_sl1, b_dr_sl2, b_dr_sr0, b_dr_sr, b_dr_sr1, b_dr_sr2, b_dr_sb, b_dr_sb1, b_dr_sb2,
    b_dr_alt_l, b_dr_alt_r, b_dr_alt_b, b_dr_alt_b0,
    b_dr_loop_s, b_dr_loop_h, b_dr_loop_p, b_dr_loop_w, b_dr_loop_w0, b_dr_loop_nil,
    b_dr_em_sync, b_dr_em_async0, b_dr_em_async, b_dr_rec_sync, b_dr_rec_async0, b_dr_rec_async,
}
