// ============================================================================================
// Execution steps: enabled positions, their action, the language of the follow-up (ghost code only).
// ============================================================================================

/// the action at a position
pub open spec fn actp(i: SI, p: SP) -> Ev
    decreases i,
{
    match (i, p) {
        (SI::Em(o, ms, sy, tg), SP::Eps(_)) => if sy { em_event(o, ms, tg) } else { ISet::<TraceAction>::empty().insert(em_act(o, ms)) },
        (SI::Rec(_, ms, sy, rs), SP::Eps(k)) => if sy { rec_event(ms, rs) } else { ISet::<TraceAction>::empty().insert(rc_act(rs[k->0 as int], ms)) },
        (SI::Op(c, a, b), SP::Left(q)) => actp(*a, *q),
        (SI::Op(c, a, b), SP::Right(q)) => actp(*b, *q),
        (SI::Op(c, a, b), SP::Both(q1, q2)) => actp(*a, *q1).union(actp(*b, *q2)),
        (SI::Alt(a, b), SP::Left(q)) => actp(*a, *q),
        (SI::Alt(a, b), SP::Right(q)) => actp(*b, *q),
        (SI::Alt(a, b), SP::Both(q1, q2)) => actp(*a, *q1),
        (SI::Loop(_, a), SP::Left(q)) => actp(*a, *q),
        _ => ISet::empty(),
    }
}

/// may the right operand of c perform e at once, given the left operand a ?
pub open spec fn passes(c: MOp, a: SI, e: Ev) -> bool {
    match c {
        MOp::Strict => nullable(a),
        _ => av(a, need(c, e)),
    }
}

/// p designates an action which can be executed at once
pub open spec fn valid(i: SI, p: SP) -> bool
    decreases i,
{
    match (i, p) {
        (SI::Em(o, ms, sy, tg), SP::Eps(k)) => k is None,
        (SI::Rec(_, ms, sy, rs), SP::Eps(k)) => if sy { k is None } else { k is Some && 0 <= k->0 < rs.len() },
        (SI::Op(c, a, b), SP::Left(q)) => valid(*a, *q) && solo(c, actp(*a, *q)),
        (SI::Op(c, a, b), SP::Right(q)) => valid(*b, *q) && solo(c, actp(*b, *q)) && passes(c, *a, actp(*b, *q)),
        (SI::Op(c, a, b), SP::Both(q1, q2)) => valid(*a, *q1) && valid(*b, *q2) && !solo(c, actp(*a, *q1))
            && sact(c, actp(*a, *q1)) =~= sact(c, actp(*b, *q2)),
        (SI::Alt(a, b), SP::Left(q)) => valid(*a, *q),
        (SI::Alt(a, b), SP::Right(q)) => valid(*b, *q),
        (SI::Alt(a, b), SP::Both(q1, q2)) => valid(*a, *q1) && valid(*b, *q2) && actp(*a, *q1) =~= actp(*b, *q2),
        (SI::Loop(_, a), SP::Left(q)) => valid(*a, *q),
        _ => false,
    }
}

/// trace t may follow the execution of the action at p
pub open spec fn der(i: SI, p: SP, t: Tr) -> bool
    decreases i,
{
    match (i, p) {
        (SI::Em(o, ms, sy, tg), SP::Eps(_)) => if sy { t.len() == 0 } else { recs(ms, lf_targets(tg), t) },
        (SI::Rec(_, ms, sy, rs), SP::Eps(k)) => if sy { t.len() == 0 } else { recs(ms, rs.remove(k->0 as int), t) },
        (SI::Op(c, a, b), SP::Left(q)) => exists|t1: Tr, t2: Tr| #![trigger mrg(c, t1, t2, t)] der(*a, *q, t1) && sem(*b, t2) && mrg(c, t1, t2, t),
        (SI::Op(c, a, b), SP::Right(q)) => exists|t1: Tr, t2: Tr| #![trigger mrg(c, t1, t2, t)]
            sem(*a, t1) && okr(c, t1, actp(*b, *q)) && der(*b, *q, t2) && mrg(c, t1, t2, t),
        (SI::Op(c, a, b), SP::Both(q1, q2)) => exists|t1: Tr, t2: Tr| #![trigger mrg(c, t1, t2, t)]
            der(*a, *q1, t1) && der(*b, *q2, t2) && mrg(c, t1, t2, t),
        (SI::Alt(a, b), SP::Left(q)) => der(*a, *q, t),
        (SI::Alt(a, b), SP::Right(q)) => der(*b, *q, t),
        (SI::Alt(a, b), SP::Both(q1, q2)) => der(*a, *q1, t) || der(*b, *q2, t),
        (SI::Loop(k, a), SP::Left(q)) => {
            exists|t0: Tr, t1: Tr, t2: Tr, m: Tr| #![trigger mrg(lop(k), t1, t2, m), mrg(lop(k), t0, m, t)]
                (if k is WWeakSeq { sem(i, t0) && avt(t0, lfs(actp(*a, *q))) } else { t0.len() == 0 })
                && der(*a, *q, t1) && sem(i, t2) && mrg(lop(k), t1, t2, m) && mrg(lop(k), t0, m, t)
        },
        _ => false,
    }
}

pub proof fn l_avt_empty(t: Tr)
    ensures avt(t, ISet::empty()),
{
}

/// concatenation of iterations: loops are closed under their composition (not needed for head-first loops)
pub proof fn l_pw_add(k: LoopKind, a: SI, n: nat, m: nat, x: Tr, y: Tr, t: Tr)
    requires !(k is HHeadFirstWS), pw(k, a, n, x), pw(k, a, m, y), mrg(lop(k), x, y, t),
    ensures pw(k, a, n + m, t),
    decreases n,
{
    let c = lop(k);
    if n == 0 {
        assert(x =~= Seq::empty());
        l_mrg_nil_l(c, y, t);
    } else {
        let (t1, t2) = choose|t1: Tr, t2: Tr| #![trigger lmrg(k, t1, t2, x)] sem(a, t1) && pw(k, a, (n - 1) as nat, t2) && lmrg(k, t1, t2, x);
        let yz = l_assoc_r(c, t1, t2, y, x, t);
        l_pw_add(k, a, (n - 1) as nat, m, t2, y, yz);
        assert((n - 1) as nat + m == (n + m - 1) as nat);
        assert(lmrg(k, t1, yz, t));
    }
}

/// soundness of execution steps
pub proof fn l_step_sound(i: SI, p: SP, t: Tr)
    requires valid(i, p), der(i, p, t),
    ensures sem(i, cons(actp(i, p), t)),
    decreases i,
{
    let e = actp(i, p);
    let et = cons(e, t);
    l_cons(e, t);
    match (i, p) {
        (SI::Em(o, ms, sy, tg), SP::Eps(_)) => {
        },
        (SI::Rec(_, ms, sy, rs), SP::Eps(k)) => {
            if !sy {
                let kk = k->0 as int;
                assert(recs(ms, rs.remove(kk), et.drop_first()));
                assert(recs(ms, rs, et));
            }
        },
        (SI::Op(c, a, b), SP::Left(q)) => {
            let (t1, t2) = choose|t1: Tr, t2: Tr| #![trigger mrg(c, t1, t2, t)] der(*a, *q, t1) && sem(*b, t2) && mrg(c, t1, t2, t);
            l_step_sound(*a, *q, t1);
            l_cons(e, t1);
            assert(mrg(c, cons(e, t1), t2, et));
        },
        (SI::Op(c, a, b), SP::Right(q)) => {
            let (t1, t2) = choose|t1: Tr, t2: Tr| #![trigger mrg(c, t1, t2, t)]
                sem(*a, t1) && okr(c, t1, actp(*b, *q)) && der(*b, *q, t2) && mrg(c, t1, t2, t);
            l_step_sound(*b, *q, t2);
            l_cons(e, t2);
            assert(mrg(c, t1, cons(e, t2), et));
        },
        (SI::Op(c, a, b), SP::Both(q1, q2)) => {
            let (t1, t2) = choose|t1: Tr, t2: Tr| #![trigger mrg(c, t1, t2, t)] der(*a, *q1, t1) && der(*b, *q2, t2) && mrg(c, t1, t2, t);
            let e1 = actp(*a, *q1);
            let e2 = actp(*b, *q2);
            l_step_sound(*a, *q1, t1);
            l_step_sound(*b, *q2, t2);
            l_cons(e1, t1);
            l_cons(e2, t2);
            assert(sact(c, e1) == sact(c, e2));
            assert(mrg(c, cons(e1, t1), cons(e2, t2), et));
        },
        (SI::Alt(a, b), SP::Left(q)) => { l_step_sound(*a, *q, t); },
        (SI::Alt(a, b), SP::Right(q)) => { l_step_sound(*b, *q, t); },
        (SI::Alt(a, b), SP::Both(q1, q2)) => {
            assert(actp(*a, *q1) == actp(*b, *q2));
            if der(*a, *q1, t) { l_step_sound(*a, *q1, t); } else { l_step_sound(*b, *q2, t); }
        },
        (SI::Loop(k, a), SP::Left(q)) => {
            let c = lop(k);
            let (t0, t1, t2, m) = choose|t0: Tr, t1: Tr, t2: Tr, m: Tr| #![trigger mrg(lop(k), t1, t2, m), mrg(lop(k), t0, m, t)]
                (if k is WWeakSeq { sem(i, t0) && avt(t0, lfs(actp(*a, *q))) } else { t0.len() == 0 })
                && der(*a, *q, t1) && sem(i, t2) && mrg(lop(k), t1, t2, m) && mrg(lop(k), t0, m, t);
            l_step_sound(*a, *q, t1);
            let n2 = choose|n: nat| #[trigger] tn(n) && pw(k, *a, n, t2);
            l_cons(e, t1);
            l_cons(e, m);
            let et1 = cons(e, t1);
            let em = cons(e, m);
            assert(solo(c, e));
            assert(mrg(c, et1, t2, em));
            assert(et1.drop_first() == t1);
            assert(em.drop_first() == m);
            assert(lmrg(k, et1, t2, em)) by {
                assert(k is HHeadFirstWS ==> mrg(MOp::Seq, t1, t2, m));
            }
            assert(pw(k, *a, n2 + 1, em));
            if k is WWeakSeq {
                let n0 = choose|n: nat| #[trigger] tn(n) && pw(k, *a, n, t0);
                assert(need(c, e) == lfs(e));
                assert(okr(c, t0, e));
                assert(mrg(c, t0, em, et));
                l_pw_add(k, *a, n0, n2 + 1, t0, em, et);
                assert(tn(n0 + (n2 + 1)));
            } else {
                assert(t0 =~= Seq::empty());
                l_mrg_nil_l(c, m, t);
                assert(tn(n2 + 1));
            }
        },
        _ => {},
    }
}

/// completeness of execution steps: gives the enabled position
pub proof fn l_step_complete(i: SI, t: Tr) -> (p: SP)
    requires conf(i), sem(i, t), t.len() > 0,
    ensures valid(i, p), actp(i, p) == t[0], der(i, p, t.drop_first()),
    decreases i, 0nat,
{
    let e = t[0];
    let tt = t.drop_first();
    match i {
        SI::Em(o, ms, sy, tg) => { assert(sy ==> tt.len() == 0); SP::Eps(None) },
        SI::Rec(_, ms, sy, rs) => {
            if sy { assert(tt.len() == 0); SP::Eps(None) } else {
                let k0 = choose|k: int| #![trigger rs.remove(k)]
                    0 <= k < rs.len() && t[0] == ISet::<TraceAction>::empty().insert(rc_act(rs[k], ms)) && recs(ms, rs.remove(k), t.drop_first());
                SP::Eps(Some(k0 as usize))
            }
        },
        SI::Op(c, a, b) => {
            let (t1, t2) = choose|t1: Tr, t2: Tr| #![trigger mrg(c, t1, t2, t)] sem(*a, t1) && sem(*b, t2) && mrg(c, t1, t2, t);
            if t1.len() > 0 && t1[0] == e && solo(c, e) && mrg(c, t1.drop_first(), t2, tt) {
                let q = l_step_complete(*a, t1);
                SP::Left(Box::new(q))
            } else if t2.len() > 0 && t2[0] == e && solo(c, e) && okr(c, t1, e) && mrg(c, t1, t2.drop_first(), tt) {
                let q = l_step_complete(*b, t2);
                if c is Strict {
                    assert(t1 =~= Seq::empty());
                    l_sem_nil(*a);
                } else {
                    if !av(*a, need(c, e)) { l_av_none(*a, need(c, e), t1); }
                }
                SP::Right(Box::new(q))
            } else {
                let q1 = l_step_complete(*a, t1);
                let q2 = l_step_complete(*b, t2);
                let p = SP::Both(Box::new(q1), Box::new(q2));
                assert(mrg(c, t1.drop_first(), t2.drop_first(), tt));
                p
            }
        },
        SI::Alt(a, b) => {
            if sem(*a, t) { let q = l_step_complete(*a, t); SP::Left(Box::new(q)) } else { let q = l_step_complete(*b, t); SP::Right(Box::new(q)) }
        },
        SI::Loop(k, a) => {
            let n = choose|n: nat| #[trigger] tn(n) && pw(k, *a, n, t);
            l_pw_complete(k, *a, n, t)
        },
        _ => SP::Eps(None),
    }
}

pub proof fn l_pw_complete(k: LoopKind, a: SI, n: nat, t: Tr) -> (p: SP)
    requires conf(a), pw(k, a, n, t), t.len() > 0,
    ensures valid(SI::Loop(k, Box::new(a)), p), actp(SI::Loop(k, Box::new(a)), p) == t[0], der(SI::Loop(k, Box::new(a)), p, t.drop_first()),
    decreases a, n + 1,
{
    let e = t[0];
    let tt = t.drop_first();
    let i = SI::Loop(k, Box::new(a));
    let c = lop(k);
    let nil = Seq::<Ev>::empty();
    let (x1, x2) = choose|x1: Tr, x2: Tr| #![trigger lmrg(k, x1, x2, t)] sem(a, x1) && pw(k, a, (n - 1) as nat, x2) && lmrg(k, x1, x2, t);
    assert(n > 0);
    assert(tn((n - 1) as nat));
    assert(forall|z: Ev| #[trigger] solo(c, z));
    let first = x1.len() > 0 && x1[0] == e && mrg(c, x1.drop_first(), x2, tt);
    if first {
        let q = l_step_complete(a, x1);
        let p = SP::Left(Box::new(q));
        l_mrg_nil_l(c, tt, tt);
        assert(pw(k, a, 0, nil));
        assert(tn(0));
        assert(sem(i, nil));
        assert(sem(i, x2));
        assert(mrg(c, x1.drop_first(), x2, tt) && mrg(c, nil, tt, tt));
        assert(der(i, p, tt));
        p
    } else {
        assert(!(k is HHeadFirstWS));
        assert(x2.len() > 0 && x2[0] == e && okr(c, x1, e) && mrg(c, x1, x2.drop_first(), tt));
        let p = l_pw_complete(k, a, (n - 1) as nat, x2);
        let q = *p->Left_0;
        let (t0, t1, t2, m) = choose|t0: Tr, t1: Tr, t2: Tr, m: Tr| #![trigger mrg(lop(k), t1, t2, m), mrg(lop(k), t0, m, x2.drop_first())]
            (if k is WWeakSeq { sem(i, t0) && avt(t0, lfs(actp(a, q))) } else { t0.len() == 0 })
            && der(a, q, t1) && sem(i, t2) && mrg(lop(k), t1, t2, m) && mrg(lop(k), t0, m, x2.drop_first());
        if k is WWeakSeq {
            // x1 before (t0 before m): regroup as (x1 t0) before m
            let x1t0 = l_assoc_l(c, x1, t0, m, x2.drop_first(), tt);
            let n0 = choose|n: nat| #[trigger] tn(n) && pw(k, a, n, t0);
            l_mrg_avt(c, x1, t0, x1t0, lfs(e));
            assert(need(c, e) == lfs(e));
            assert(lmrg(k, x1, t0, x1t0));
            assert(pw(k, a, n0 + 1, x1t0));
            assert(tn(n0 + 1));
            assert(sem(i, x1t0));
            assert(der(i, p, tt));
        } else {
            assert(t0 =~= nil);
            l_mrg_nil_l(c, m, x2.drop_first());
            if k is SStrictSeq {
                assert(x1 =~= nil);
                l_mrg_nil_l(c, x2.drop_first(), tt);
                assert(tt == m);
                l_mrg_nil_l(c, tt, tt);
                assert(mrg(c, t1, t2, tt) && mrg(c, nil, tt, tt));
            } else {
                // interleaving: x1 || (t1 || t2) = t1 || (x1 || t2)
                let x1t1 = l_assoc_l(c, x1, t1, t2, m, tt);
                l_par_comm(x1, t1, x1t1);
                let x1t2 = l_assoc_r(c, t1, x1, t2, x1t1, tt);
                let n2 = choose|n: nat| #[trigger] tn(n) && pw(k, a, n, t2);
                assert(lmrg(k, x1, t2, x1t2));
                assert(pw(k, a, n2 + 1, x1t2));
                assert(tn(n2 + 1));
                assert(sem(i, x1t2));
                l_mrg_nil_l(c, tt, tt);
                assert(mrg(c, t1, x1t2, tt) && mrg(c, nil, tt, tt));
            }
            assert(der(i, p, tt));
        }
        p
    }
}
