// ============================================================================================
// Frontiers (ghost code only).
// ============================================================================================

pub open spec fn ldp(i: SI, p: SP) -> nat
    decreases i,
{
    match (i, p) {
        (SI::Op(c, a, b), SP::Left(q)) => ldp(*a, *q),
        (SI::Op(c, a, b), SP::Right(q)) => ldp(*b, *q),
        (SI::Op(c, a, b), SP::Both(q1, q2)) => if ldp(*a, *q1) >= ldp(*b, *q2) { ldp(*a, *q1) } else { ldp(*b, *q2) },
        (SI::Alt(a, b), SP::Left(q)) => ldp(*a, *q),
        (SI::Alt(a, b), SP::Right(q)) => ldp(*b, *q),
        (SI::Alt(a, b), SP::Both(q1, q2)) => if ldp(*a, *q1) >= ldp(*b, *q2) { ldp(*a, *q1) } else { ldp(*b, *q2) },
        (SI::Loop(_, a), SP::Left(q)) => 1 + ldp(*a, *q),
        _ => 0,
    }
}


/// trace t follows action e at some position of f
pub open spec fn cv(i: SI, f: ISet<SP>, e: Ev, t: Tr) -> bool {
    exists|q: SP| #[trigger] f.contains(q) && actp(i, q) == e && der(i, q, t)
}

/// e is the action of some position of f
pub open spec fn cs(i: SI, f: ISet<SP>, e: Ev) -> bool {
    exists|q: SP| #[trigger] f.contains(q) && actp(i, q) == e
}

/// every enabled action is represented in f, and all the traces of i starting with an enabled action are reachable from the positions of f
#[verifier::opaque]
pub open spec fn covers(i: SI, f: ISet<SP>) -> bool {
    &&& forall|p: SP, t: Tr| valid(i, p) && #[trigger] der(i, p, t) ==> cv(i, f, actp(i, p), t)
    &&& forall|p: SP| #[trigger] valid(i, p) ==> cs(i, f, actp(i, p))
}

pub proof fn l_cov_act(i: SI, f: ISet<SP>, p: SP) -> (q: SP)
    requires covers(i, f), valid(i, p),
    ensures f.contains(q), actp(i, q) == actp(i, p),
{
    reveal(covers);
    assert(cs(i, f, actp(i, p)));
    choose|q: SP| #[trigger] f.contains(q) && actp(i, q) == actp(i, p)
}

pub proof fn l_cov_get(i: SI, f: ISet<SP>, p: SP, t: Tr) -> (q: SP)
    requires covers(i, f), valid(i, p), der(i, p, t),
    ensures f.contains(q), actp(i, q) == actp(i, p), der(i, q, t),
{
    reveal(covers);
    assert(cv(i, f, actp(i, p), t));
    choose|q: SP| #[trigger] f.contains(q) && actp(i, q) == actp(i, p) && der(i, q, t)
}

/// frontier of an operator other than the synchronized product
pub proof fn l_fr_op(c: MOp, a: SI, b: SI, fa: ISet<SP>, fb: ISet<SP>, f: ISet<SP>)
    requires
        covers(a, fa), covers(b, fb), !(c is Sync),
        forall|q: SP| #[trigger] fa.contains(q) ==> f.contains(pl(q)),
        forall|q: SP| #[trigger] fb.contains(q) && passes(c, a, actp(b, q)) ==> f.contains(prr(q)),
    ensures covers(op(c, a, b), f),
{
    l_fr_gen(c, a, b, fa, fb, f);
}

/// frontier of the synchronized product, and of other operators
pub proof fn l_fr_gen(c: MOp, a: SI, b: SI, fa: ISet<SP>, fb: ISet<SP>, f: ISet<SP>)
    requires
        covers(a, fa), covers(b, fb),
        forall|q: SP| #[trigger] fa.contains(q) && solo(c, actp(a, q)) ==> f.contains(pl(q)),
        forall|q: SP| #[trigger] fb.contains(q) && solo(c, actp(b, q)) && passes(c, a, actp(b, q)) ==> f.contains(prr(q)),
        c is Sync ==> forall|q1: SP, q2: SP| #[trigger] fa.contains(q1) && #[trigger] fb.contains(q2) && !solo(c, actp(a, q1)) && sact(c, actp(a, q1)) == sact(c, actp(b, q2))
            ==> f.contains(pb(q1, q2)),
    ensures covers(op(c, a, b), f),
{
    reveal(covers);
    let i = op(c, a, b);
    assert forall|p: SP| #[trigger] valid(i, p) implies cs(i, f, actp(i, p)) by {
        match p {
            SP::Left(p1) => { let q = l_cov_act(a, fa, *p1); assert(f.contains(pl(q))); assert(actp(i, pl(q)) == actp(a, q)); },
            SP::Right(p2) => { let q = l_cov_act(b, fb, *p2); assert(f.contains(prr(q))); assert(actp(i, prr(q)) == actp(b, q)); },
            SP::Both(p1, p2) => {
                let q1 = l_cov_act(a, fa, *p1);
                let q2 = l_cov_act(b, fb, *p2);
                assert(!solo(c, actp(a, *p1)));
                assert(c is Sync);
                assert(f.contains(pb(q1, q2)));
                assert(actp(i, pb(q1, q2)) == actp(a, q1).union(actp(b, q2)));
            },
            _ => {},
        }
    }
    assert forall|p: SP, t: Tr| valid(i, p) && #[trigger] der(i, p, t) implies cv(i, f, actp(i, p), t) by {
        match p {
            SP::Left(p1) => {
                let (t1, t2) = choose|t1: Tr, t2: Tr| #![trigger mrg(c, t1, t2, t)] der(a, *p1, t1) && sem(b, t2) && mrg(c, t1, t2, t);
                let q = l_cov_get(a, fa, *p1, t1);
                assert(der(i, pl(q), t));
                assert(f.contains(pl(q)));
            },
            SP::Right(p2) => {
                let (t1, t2) = choose|t1: Tr, t2: Tr| #![trigger mrg(c, t1, t2, t)]
                    sem(a, t1) && okr(c, t1, actp(b, *p2)) && der(b, *p2, t2) && mrg(c, t1, t2, t);
                let q = l_cov_get(b, fb, *p2, t2);
                assert(der(i, prr(q), t));
                assert(f.contains(prr(q)));
            },
            SP::Both(p1, p2) => {
                let (t1, t2) = choose|t1: Tr, t2: Tr| #![trigger mrg(c, t1, t2, t)] der(a, *p1, t1) && der(b, *p2, t2) && mrg(c, t1, t2, t);
                let q1 = l_cov_get(a, fa, *p1, t1);
                let q2 = l_cov_get(b, fb, *p2, t2);
                assert(!solo(c, actp(a, *p1)));
                assert(c is Sync);
                assert(der(i, pb(q1, q2), t));
                assert(f.contains(pb(q1, q2)));
            },
            _ => {},
        }
    }
}

pub proof fn l_fr_sync(c: MOp, a: SI, b: SI, fa: ISet<SP>, fb: ISet<SP>, f: ISet<SP>)
    requires
        covers(a, fa), covers(b, fb), c is Sync,
        forall|q: SP| #[trigger] fa.contains(q) && solo(c, actp(a, q)) ==> f.contains(pl(q)),
        forall|q: SP| #[trigger] fb.contains(q) && solo(c, actp(b, q)) ==> f.contains(prr(q)),
        forall|q1: SP, q2: SP| #[trigger] fa.contains(q1) && #[trigger] fb.contains(q2) && !solo(c, actp(a, q1)) && sact(c, actp(a, q1)) == sact(c, actp(b, q2))
            ==> f.contains(pb(q1, q2)),
    ensures covers(op(c, a, b), f),
{
    l_fr_gen(c, a, b, fa, fb, f);
}

pub proof fn l_fr_loop(k: LoopKind, a: SI, fa: ISet<SP>, f: ISet<SP>)
    requires covers(a, fa), forall|q: SP| #[trigger] fa.contains(q) ==> f.contains(pl(q)),
    ensures covers(lp(k, a), f),
{
    reveal(covers);
    let i = lp(k, a);
    assert forall|p: SP| #[trigger] valid(i, p) implies cs(i, f, actp(i, p)) by {
        match p {
            SP::Left(p1) => { let q = l_cov_act(a, fa, *p1); assert(f.contains(pl(q))); assert(actp(i, pl(q)) == actp(a, q)); },
            _ => {},
        }
    }
    assert forall|p: SP, t: Tr| valid(i, p) && #[trigger] der(i, p, t) implies cv(i, f, actp(i, p), t) by {
        match p {
            SP::Left(p1) => {
                let (t0, t1, t2, m) = choose|t0: Tr, t1: Tr, t2: Tr, m: Tr| #![trigger mrg(lop(k), t1, t2, m), mrg(lop(k), t0, m, t)]
                    (if k is WWeakSeq { sem(i, t0) && avt(t0, lfs(actp(a, *p1))) } else { t0.len() == 0 })
                    && der(a, *p1, t1) && sem(i, t2) && mrg(lop(k), t1, t2, m) && mrg(lop(k), t0, m, t);
                let q = l_cov_get(a, fa, *p1, t1);
                assert(der(i, pl(q), t));
                assert(f.contains(pl(q)));
            },
            _ => {},
        }
    }
}

pub proof fn l_fr_alt(a: SI, b: SI, fa: ISet<SP>, fb: ISet<SP>, f: ISet<SP>)
    requires
        covers(a, fa), covers(b, fb),
        forall|q: SP| #[trigger] fa.contains(q) ==> f.contains(pl(q)) || exists|q2: SP| #[trigger] f.contains(pb(q, q2)),
        forall|q: SP| #[trigger] fb.contains(q) ==> f.contains(prr(q)) || exists|q1: SP| #[trigger] f.contains(pb(q1, q)) && actp(b, q) == actp(a, q1),
    ensures covers(al(a, b), f),
{
    reveal(covers);
    let i = al(a, b);
    assert forall|p: SP| #[trigger] valid(i, p) implies cs(i, f, actp(i, p)) by {
        match p {
            SP::Left(p1) => { l_fr_alt3(a, b, fa, fb, f, *p1); },
            SP::Right(p1) => { l_fr_alt4(a, b, fa, fb, f, *p1); },
            SP::Both(p1, p2) => { l_fr_alt3(a, b, fa, fb, f, *p1); },
            _ => {},
        }
    }
    assert forall|p: SP, t: Tr| valid(i, p) && #[trigger] der(i, p, t) implies cv(i, f, actp(i, p), t) by {
        match p {
            SP::Left(p1) => { l_fr_alt1(a, b, fa, fb, f, *p1, t); },
            SP::Right(p1) => { l_fr_alt2(a, b, fa, fb, f, *p1, t); },
            SP::Both(p1, p2) => {
                if der(a, *p1, t) {
                    l_fr_alt1(a, b, fa, fb, f, *p1, t);
                } else {
                    l_fr_alt2(a, b, fa, fb, f, *p2, t);
                }
            },
            _ => {},
        }
    }
}

pub proof fn l_fr_alt1(a: SI, b: SI, fa: ISet<SP>, fb: ISet<SP>, f: ISet<SP>, p1: SP, t: Tr)
    requires
        covers(a, fa), valid(a, p1), der(a, p1, t),
        forall|q: SP| #[trigger] fa.contains(q) ==> f.contains(pl(q)) || exists|q2: SP| #[trigger] f.contains(pb(q, q2)),
    ensures cv(al(a, b), f, actp(a, p1), t),
{
    let i = al(a, b);
    let q = l_cov_get(a, fa, p1, t);
    if f.contains(pl(q)) {
        assert(der(i, pl(q), t));
    } else {
        let q2 = choose|q2: SP| #[trigger] f.contains(pb(q, q2));
        assert(der(i, pb(q, q2), t));
    }
}

pub proof fn l_fr_alt2(a: SI, b: SI, fa: ISet<SP>, fb: ISet<SP>, f: ISet<SP>, p2: SP, t: Tr)
    requires
        covers(b, fb), valid(b, p2), der(b, p2, t),
        forall|q: SP| #[trigger] fb.contains(q) ==> f.contains(prr(q)) || exists|q1: SP| #[trigger] f.contains(pb(q1, q)) && actp(b, q) == actp(a, q1),
    ensures cv(al(a, b), f, actp(b, p2), t),
{
    let i = al(a, b);
    let q = l_cov_get(b, fb, p2, t);
    if f.contains(prr(q)) {
        assert(der(i, prr(q), t));
    } else {
        let q1 = choose|q1: SP| #[trigger] f.contains(pb(q1, q)) && actp(b, q) == actp(a, q1);
        assert(der(i, pb(q1, q), t));
    }
}

pub proof fn l_fr_alt3(a: SI, b: SI, fa: ISet<SP>, fb: ISet<SP>, f: ISet<SP>, p1: SP)
    requires
        covers(a, fa), valid(a, p1),
        forall|q: SP| #[trigger] fa.contains(q) ==> f.contains(pl(q)) || exists|q2: SP| #[trigger] f.contains(pb(q, q2)),
    ensures cs(al(a, b), f, actp(a, p1)),
{
    let i = al(a, b);
    let q = l_cov_act(a, fa, p1);
    if f.contains(pl(q)) {
        assert(actp(i, pl(q)) == actp(a, q));
    } else {
        let q2 = choose|q2: SP| #[trigger] f.contains(pb(q, q2));
        assert(actp(i, pb(q, q2)) == actp(a, q));
    }
}

pub proof fn l_fr_alt4(a: SI, b: SI, fa: ISet<SP>, fb: ISet<SP>, f: ISet<SP>, p2: SP)
    requires
        covers(b, fb), valid(b, p2),
        forall|q: SP| #[trigger] fb.contains(q) ==> f.contains(prr(q)) || exists|q1: SP| #[trigger] f.contains(pb(q1, q)) && actp(b, q) == actp(a, q1),
    ensures cs(al(a, b), f, actp(b, p2)),
{
    let i = al(a, b);
    let q = l_cov_act(b, fb, p2);
    if f.contains(prr(q)) {
        assert(actp(i, prr(q)) == actp(b, q));
    } else {
        let q1 = choose|q1: SP| #[trigger] f.contains(pb(q1, q)) && actp(b, q) == actp(a, q1);
        assert(actp(i, pb(q1, q)) == actp(a, q1));
    }
}

/// MAIN THEOREM (over the contracts of the frontier and of the execution function) : a trace starting with e is
/// accepted exactly when some frontier position has action e and accepts the rest
pub proof fn thm_step(i: SI, f: ISet<SP>, e: Ev, t: Tr)
    requires conf(i), covers(i, f), forall|q: SP| #[trigger] f.contains(q) ==> valid(i, q),
    ensures sem(i, cons(e, t)) == cv(i, f, e, t),
{
    let et = cons(e, t);
    l_cons(e, t);
    if sem(i, et) {
        let p = l_step_complete(i, et);
        let q = l_cov_get(i, f, p, t);
        assert(cv(i, f, e, t));
    }
    if cv(i, f, e, t) {
        let q = choose|q: SP| #[trigger] f.contains(q) && actp(i, q) == e && der(i, q, t);
        l_step_sound(i, q, t);
    }
}
