// ============================================================================================
// Algebra of semantic equivalence (ghost code only).
// ============================================================================================

pub proof fn l_eq_sym(a: SI, b: SI)
    requires semeq(a, b),
    ensures semeq(b, a),
{
    reveal(semeq);
    assert forall|t: Tr| sem(b, t) == #[trigger] sem(a, t) by { assert(sem(a, t) == sem(b, t)); }
}

pub proof fn l_eq_trans(a: SI, b: SI, c: SI)
    requires semeq(a, b), semeq(b, c),
    ensures semeq(a, c),
{
    reveal(semeq);
    assert forall|t: Tr| sem(a, t) == #[trigger] sem(c, t) by { assert(sem(a, t) == sem(b, t)); }
}

pub proof fn l_eq_at(a: SI, b: SI, t: Tr)
    requires semeq(a, b),
    ensures sem(a, t) == sem(b, t),
{
    reveal(semeq);
}

pub broadcast proof fn b_eq_op(c: MOp, a: SI, b: SI, a2: SI, b2: SI)
    requires semeq(a, a2), semeq(b, b2),
    ensures #[trigger] semeq(SI::Op(c, Box::new(a), Box::new(b)), SI::Op(c, Box::new(a2), Box::new(b2))),
{
    let i = SI::Op(c, Box::new(a), Box::new(b));
    let j = SI::Op(c, Box::new(a2), Box::new(b2));
    assert forall|t: Tr| sem(i, t) == #[trigger] sem(j, t) by {
        if sem(i, t) {
            let (t1, t2) = choose|t1: Tr, t2: Tr| #![trigger mrg(c, t1, t2, t)] sem(a, t1) && sem(b, t2) && mrg(c, t1, t2, t);
            l_eq_at(a, a2, t1); l_eq_at(b, b2, t2);
        }
        if sem(j, t) {
            let (t1, t2) = choose|t1: Tr, t2: Tr| #![trigger mrg(c, t1, t2, t)] sem(a2, t1) && sem(b2, t2) && mrg(c, t1, t2, t);
            l_eq_at(a, a2, t1); l_eq_at(b, b2, t2);
        }
    }
    reveal(semeq);
}

pub broadcast proof fn b_eq_alt(a: SI, b: SI, a2: SI, b2: SI)
    requires semeq(a, a2), semeq(b, b2),
    ensures #[trigger] semeq(SI::Alt(Box::new(a), Box::new(b)), SI::Alt(Box::new(a2), Box::new(b2))),
{
    let i = al(a, b);
    let j = al(a2, b2);
    assert forall|t: Tr| sem(i, t) == #[trigger] sem(j, t) by {
        l_eq_at(a, a2, t); l_eq_at(b, b2, t);
    }
    reveal(semeq);
}

pub proof fn l_pw_eq(k: LoopKind, a: SI, a2: SI, n: nat, t: Tr)
    requires semeq(a, a2), pw(k, a, n, t),
    ensures pw(k, a2, n, t),
    decreases n,
{
    if n > 0 {
        let (t1, t2) = choose|t1: Tr, t2: Tr| #![trigger lmrg(k, t1, t2, t)] sem(a, t1) && pw(k, a, (n - 1) as nat, t2) && lmrg(k, t1, t2, t);
        l_eq_at(a, a2, t1);
        l_pw_eq(k, a, a2, (n - 1) as nat, t2);
    }
}

pub broadcast proof fn b_eq_loop(k: LoopKind, a: SI, a2: SI)
    requires semeq(a, a2),
    ensures #[trigger] semeq(SI::Loop(k, Box::new(a)), SI::Loop(k, Box::new(a2))),
{
    let i = lp(k, a);
    let j = lp(k, a2);
    l_eq_sym(a, a2);
    assert forall|t: Tr| sem(i, t) == #[trigger] sem(j, t) by {
        if sem(i, t) {
            let n = choose|n: nat| #[trigger] tn(n) && pw(k, a, n, t);
            l_pw_eq(k, a, a2, n, t);
        }
        if sem(j, t) {
            let n = choose|n: nat| #[trigger] tn(n) && pw(k, a2, n, t);
            l_pw_eq(k, a2, a, n, t);
        }
    }
    reveal(semeq);
}

// ------------------------------------------------------------------ neutral and absorbing forms, goal oriented: the
// simplified term is on the left, the structural one on the right

pub broadcast proof fn b_eq_nil_l(c: MOp, b: SI, a2: SI, b2: SI)
    requires semeq(SI::Empty, a2), semeq(b, b2), !(c is Sync),
    ensures #[trigger] semeq(b, SI::Op(c, Box::new(a2), Box::new(b2))),
{
    l_neutral(c, b);
    l_eq_sym(op(c, SI::Empty, b), b);
    b_eq_op(c, SI::Empty, b, a2, b2);
    l_eq_trans(b, op(c, SI::Empty, b), op(c, a2, b2));
}

pub broadcast proof fn b_eq_nil_r(c: MOp, a: SI, a2: SI, b2: SI)
    requires semeq(a, a2), semeq(SI::Empty, b2), !(c is Sync),
    ensures #[trigger] semeq(a, SI::Op(c, Box::new(a2), Box::new(b2))),
{
    l_neutral(c, a);
    l_eq_sym(op(c, a, SI::Empty), a);
    b_eq_op(c, a, SI::Empty, a2, b2);
    l_eq_trans(a, op(c, a, SI::Empty), op(c, a2, b2));
}

pub broadcast proof fn b_eq_alt_nil(a2: SI, b2: SI)
    requires semeq(SI::Empty, a2), semeq(SI::Empty, b2),
    ensures #[trigger] semeq(SI::Empty, SI::Alt(Box::new(a2), Box::new(b2))),
{
    reveal(semeq);
    let j = al(a2, b2);
    assert forall|t: Tr| sem(SI::Empty, t) == #[trigger] sem(j, t) by {
        assert(sem(SI::Empty, t) == sem(a2, t));
        assert(sem(SI::Empty, t) == sem(b2, t));
    }
}

pub proof fn l_pw_empty(k: LoopKind, n: nat, t: Tr)
    requires pw(k, SI::Empty, n, t),
    ensures t.len() == 0,
    decreases n,
{
    if n > 0 {
        let (t1, t2) = choose|t1: Tr, t2: Tr| #![trigger lmrg(k, t1, t2, t)] sem(SI::Empty, t1) && pw(k, SI::Empty, (n - 1) as nat, t2) && lmrg(k, t1, t2, t);
        l_pw_empty(k, (n - 1) as nat, t2);
        l_mrg_len(lop(k), t1, t2, t);
    }
}

pub broadcast proof fn b_eq_loop_nil(k: LoopKind, a2: SI)
    requires semeq(SI::Empty, a2),
    ensures #[trigger] semeq(SI::Empty, SI::Loop(k, Box::new(a2))),
{
    b_eq_loop(k, SI::Empty, a2);
    let e = lp(k, SI::Empty);
    assert(semeq(SI::Empty, e)) by {
        reveal(semeq);
        assert forall|t: Tr| sem(SI::Empty, t) == #[trigger] sem(e, t) by {
            if sem(e, t) {
                let n = choose|n: nat| #[trigger] tn(n) && pw(k, SI::Empty, n, t);
                l_pw_empty(k, n, t);
            }
            if sem(SI::Empty, t) { assert(tn(0) && pw(k, SI::Empty, 0, t)); }
        }
    }
    l_eq_trans(SI::Empty, e, lp(k, a2));
}

pub proof fn l_mrg_len_sync(c: MOp, t1: Tr, t2: Tr, t: Tr)
    requires t1.len() == 0, t2.len() == 0,
    ensures mrg(c, t1, t2, t) == (t.len() == 0),
{
}

/// any operator on two empty operands
pub broadcast proof fn b_eq_op_nil(c: MOp, a2: SI, b2: SI)
    requires semeq(SI::Empty, a2), semeq(SI::Empty, b2),
    ensures #[trigger] semeq(SI::Empty, SI::Op(c, Box::new(a2), Box::new(b2))),
{
    b_eq_op(c, SI::Empty, SI::Empty, a2, b2);
    let e = op(c, SI::Empty, SI::Empty);
    assert(semeq(SI::Empty, e)) by {
        reveal(semeq);
        assert forall|t: Tr| sem(SI::Empty, t) == #[trigger] sem(e, t) by {
            if sem(e, t) {
                let (t1, t2) = choose|t1: Tr, t2: Tr| #![trigger mrg(c, t1, t2, t)] sem(SI::Empty, t1) && sem(SI::Empty, t2) && mrg(c, t1, t2, t);
                l_mrg_len_sync(c, t1, t2, t);
            }
            if sem(SI::Empty, t) {
                let n = Seq::<Ev>::empty();
                l_mrg_len_sync(c, n, n, t);
                assert(sem(SI::Empty, n));
                assert(mrg(c, n, n, t));
            }
        }
    }
    l_eq_trans(SI::Empty, e, op(c, a2, b2));
}

// ------------------------------------------------------------------ empty co-region / synchronization lists

pub open spec fn op_same(c: MOp, d: MOp) -> bool {
    &&& forall|e: Ev| #[trigger] need(c, e) == need(d, e)
    &&& forall|e: Ev| #[trigger] sact(c, e) == sact(d, e)
    &&& (c is Strict <==> d is Strict)
}

pub proof fn l_mrg_same(c: MOp, d: MOp, t1: Tr, t2: Tr, t: Tr)
    requires op_same(c, d), mrg(c, t1, t2, t),
    ensures mrg(d, t1, t2, t),
    decreases t.len(),
{
    if t.len() > 0 {
        assert(need(c, t[0]) == need(d, t[0]));
        assert(sact(c, t[0]) == sact(d, t[0]));
        if t1.len() > 0 && t1[0] == t[0] && solo(c, t[0]) && mrg(c, t1.drop_first(), t2, t.drop_first()) {
            l_mrg_same(c, d, t1.drop_first(), t2, t.drop_first());
        } else if t2.len() > 0 && t2[0] == t[0] && solo(c, t[0]) && okr(c, t1, t[0]) && mrg(c, t1, t2.drop_first(), t.drop_first()) {
            l_mrg_same(c, d, t1, t2.drop_first(), t.drop_first());
            assert(okr(d, t1, t[0]));
        } else {
            assert(sact(c, t1[0]) == sact(d, t1[0]));
            assert(sact(c, t2[0]) == sact(d, t2[0]));
            l_mrg_same(c, d, t1.drop_first(), t2.drop_first(), t.drop_first());
        }
    }
}

pub proof fn l_op_same(c: MOp, d: MOp, a: SI, b: SI)
    requires op_same(c, d),
    ensures semeq(op(c, a, b), op(d, a, b)),
{
    reveal(semeq);
    let i = op(c, a, b);
    let j = op(d, a, b);
    assert forall|t: Tr| sem(i, t) == #[trigger] sem(j, t) by {
        if sem(i, t) {
            let (t1, t2) = choose|t1: Tr, t2: Tr| #![trigger mrg(c, t1, t2, t)] sem(a, t1) && sem(b, t2) && mrg(c, t1, t2, t);
            l_mrg_same(c, d, t1, t2, t);
        }
        if sem(j, t) {
            let (t1, t2) = choose|t1: Tr, t2: Tr| #![trigger mrg(d, t1, t2, t)] sem(a, t1) && sem(b, t2) && mrg(d, t1, t2, t);
            l_mrg_same(d, c, t1, t2, t);
        }
    }
}

pub broadcast proof fn b_eq_coreg_nil(cr: Seq<usize>, a: SI, b: SI, a2: SI, b2: SI)
    requires semeq(a, a2), semeq(b, b2), cr.len() == 0,
    ensures #[trigger] semeq(SI::Op(MOp::Seq, Box::new(a), Box::new(b)), SI::Op(MOp::CoReg(cr), Box::new(a2), Box::new(b2))),
{
    let d = MOp::CoReg(cr);
    assert forall|e: Ev| #[trigger] need(MOp::Seq, e) == need(d, e) by { assert(need(MOp::Seq, e) =~= need(d, e)); }
    l_op_same(MOp::Seq, d, a, b);
    b_eq_op(d, a, b, a2, b2);
    l_eq_trans(op(MOp::Seq, a, b), op(d, a, b), op(d, a2, b2));
}

pub broadcast proof fn b_eq_sync_nil(s: Seq<TraceAction>, a: SI, b: SI, a2: SI, b2: SI)
    requires semeq(a, a2), semeq(b, b2), s.len() == 0,
    ensures #[trigger] semeq(SI::Op(MOp::Par, Box::new(a), Box::new(b)), SI::Op(MOp::Sync(s), Box::new(a2), Box::new(b2))),
{
    let d = MOp::Sync(s);
    l_sync_par(s, a, b);
    l_eq_sym(op(d, a, b), op(MOp::Par, a, b));
    b_eq_op(d, a, b, a2, b2);
    l_eq_trans(op(MOp::Par, a, b), op(d, a, b), op(d, a2, b2));
}

pub broadcast proof fn b_eq_sync_nil_l(s: Seq<TraceAction>, b: SI, a2: SI, b2: SI)
    requires semeq(SI::Empty, a2), semeq(b, b2), s.len() == 0,
    ensures #[trigger] semeq(b, SI::Op(MOp::Sync(s), Box::new(a2), Box::new(b2))),
{
    b_eq_sync_nil(s, SI::Empty, b, a2, b2);
    l_neutral(MOp::Par, b);
    l_eq_sym(op(MOp::Par, SI::Empty, b), b);
    l_eq_trans(b, op(MOp::Par, SI::Empty, b), op(MOp::Sync(s), a2, b2));
}

pub broadcast proof fn b_eq_sync_nil_r(s: Seq<TraceAction>, a: SI, a2: SI, b2: SI)
    requires semeq(a, a2), semeq(SI::Empty, b2), s.len() == 0,
    ensures #[trigger] semeq(a, SI::Op(MOp::Sync(s), Box::new(a2), Box::new(b2))),
{
    b_eq_sync_nil(s, a, SI::Empty, a2, b2);
    l_neutral(MOp::Par, a);
    l_eq_sym(op(MOp::Par, a, SI::Empty), a);
    l_eq_trans(a, op(MOp::Par, a, SI::Empty), op(MOp::Sync(s), a2, b2));
}

// ------------------------------------------------------------------ loops

pub open spec fn lk_min(k: LoopKind, m: LoopKind) -> LoopKind {
    if lk_rank(m) < lk_rank(k) { m } else { k }
}

/// weaker operators accept more compositions
pub proof fn l_mrg_weaken(k: LoopKind, m: LoopKind, t1: Tr, t2: Tr, t: Tr)
    requires lk_rank(m) <= lk_rank(k), mrg(lop(k), t1, t2, t),
    ensures mrg(lop(m), t1, t2, t),
    decreases t.len(),
{
    let c = lop(k);
    let d = lop(m);
    if t.len() > 0 {
        if t1.len() > 0 && t1[0] == t[0] && mrg(c, t1.drop_first(), t2, t.drop_first()) {
            l_mrg_weaken(k, m, t1.drop_first(), t2, t.drop_first());
        } else {
            assert(okr(c, t1, t[0]));
            assert(okr(d, t1, t[0])) by { if c is Strict { assert(t1 =~= Seq::empty()); } else if d is Par { l_avt_empty(t1); } }
            l_mrg_weaken(k, m, t1, t2.drop_first(), t.drop_first());
        }
    }
}

pub proof fn l_one_iter(k: LoopKind, a: SI, t: Tr)
    requires sem(a, t),
    ensures pw(k, a, 1, t), sem(lp(k, a), t),
{
    let e = Seq::<Ev>::empty();
    l_mrg_nil_r(lop(k), t, t);
    assert(pw(k, a, 0, e));
    if t.len() > 0 {
        l_mrg_nil_r(MOp::Seq, t.drop_first(), t.drop_first());
    }
    assert(lmrg(k, t, e, t));
    assert((1 - 1) as nat == 0);
    assert(pw(k, a, 1, t));
    assert(tn(1));
}

pub proof fn l_zero_iter(k: LoopKind, a: SI)
    ensures sem(lp(k, a), Seq::<Ev>::empty()),
{
    assert(pw(k, a, 0, Seq::<Ev>::empty()));
    assert(tn(0));
}

/// prefixing a whole trace
pub proof fn l_mrg_concat(x: Tr, y: Tr, t: Tr, z: Tr)
    requires mrg(MOp::Seq, x, y, t),
    ensures mrg(MOp::Seq, x, y + z, t + z),
    decreases t.len(),
{
    if t.len() == 0 {
        assert(x =~= Seq::empty());
        assert(y + z =~= z);
        assert(t + z =~= z);
        l_mrg_nil_l(MOp::Seq, z, z);
    } else {
        assert((t + z)[0] == t[0]);
        assert((t + z).drop_first() =~= t.drop_first() + z);
        if x.len() > 0 && x[0] == t[0] && mrg(MOp::Seq, x.drop_first(), y, t.drop_first()) {
            l_mrg_concat(x.drop_first(), y, t.drop_first(), z);
        } else {
            l_mrg_concat(x, y.drop_first(), t.drop_first(), z);
            assert((y + z).drop_first() =~= y.drop_first() + z);
        }
    }
}

pub proof fn l_mrg_strict(x: Tr, y: Tr, t: Tr)
    ensures mrg(MOp::Strict, x, y, t) == (t == x + y),
    decreases t.len(),
{
    if t.len() > 0 {
        let d = t.drop_first();
        if mrg(MOp::Strict, x, y, t) {
            if x.len() > 0 && x[0] == t[0] && mrg(MOp::Strict, x.drop_first(), y, d) {
                l_mrg_strict(x.drop_first(), y, d);
                l_uncons(t);
                assert(cons(t[0], d) =~= x + y);
            } else {
                l_mrg_strict(x, y.drop_first(), d);
                l_uncons(t);
                assert(x =~= Seq::empty());
                assert(cons(t[0], d) =~= x + y);
            }
        }
        if t == x + y {
            if x.len() > 0 {
                assert(d =~= x.drop_first() + y);
                l_mrg_strict(x.drop_first(), y, d);
            } else {
                assert(d =~= x + y.drop_first());
                l_mrg_strict(x, y.drop_first(), d);
            }
        }
    } else {
        if t == x + y { assert(x.len() == 0 && y.len() == 0); }
        if mrg(MOp::Strict, x, y, t) { assert(t =~= x + y); }
    }
}

/// languages of loops are closed under concatenation
pub proof fn l_loop_concat(k: LoopKind, a: SI, n: nat, x: Tr, y: Tr) -> (m: nat)
    requires pw(k, a, n, x), sem(lp(k, a), y),
    ensures pw(k, a, m, x + y),
    decreases n,
{
    let t = x + y;
    let m0 = choose|m: nat| #[trigger] tn(m) && pw(k, a, m, y);
    if !(k is HHeadFirstWS) {
        l_mrg_strict(x, y, t);
        l_mrg_weaken(LoopKind::SStrictSeq, k, x, y, t);
        l_pw_add(k, a, n, m0, x, y, t);
        n + m0
    } else if n == 0 || x.len() == 0 {
        assert(t =~= y);
        m0
    } else {
        let (t1, t2) = choose|t1: Tr, t2: Tr| #![trigger lmrg(k, t1, t2, x)] sem(a, t1) && pw(k, a, (n - 1) as nat, t2) && lmrg(k, t1, t2, x);
        let m1 = l_loop_concat(k, a, (n - 1) as nat, t2, y);
        l_mrg_concat(t1, t2, x, y);
        l_mrg_concat(t1.drop_first(), t2, x.drop_first(), y);
        assert(t.drop_first() =~= x.drop_first() + y);
        assert(lmrg(k, t1, t2 + y, t));
        assert((m1 + 1 - 1) as nat == m1);
        m1 + 1
    }
}

/// composition of two traces of a loop
pub proof fn l_loop_closed(k: LoopKind, m: LoopKind, a: SI, x: Tr, y: Tr, t: Tr)
    requires sem(lp(m, a), x), sem(lp(m, a), y), lk_rank(m) <= lk_rank(k), mrg(lop(k), x, y, t), m is HHeadFirstWS ==> k is SStrictSeq,
    ensures sem(lp(m, a), t),
{
    let n = choose|n: nat| #[trigger] tn(n) && pw(m, a, n, x);
    let n2 = choose|n: nat| #[trigger] tn(n) && pw(m, a, n, y);
    if m is HHeadFirstWS {
        l_mrg_strict(x, y, t);
        let r = l_loop_concat(m, a, n, x, y);
        assert(tn(r));
    } else {
        l_mrg_weaken(k, m, x, y, t);
        l_pw_add(m, a, n, n2, x, y, t);
        assert(tn(n + n2));
    }
}

/// weaker loops accept more traces
pub proof fn l_loop_weaken(k: LoopKind, m: LoopKind, a: SI, n: nat, t: Tr)
    requires lk_rank(m) <= lk_rank(k), pw(k, a, n, t),
    ensures sem(lp(m, a), t),
    decreases n,
{
    if n == 0 {
        assert(t =~= Seq::empty());
        l_zero_iter(m, a);
    } else if k == m {
        assert(tn(n));
    } else {
        let (t1, t2) = choose|t1: Tr, t2: Tr| #![trigger lmrg(k, t1, t2, t)] sem(a, t1) && pw(k, a, (n - 1) as nat, t2) && lmrg(k, t1, t2, t);
        l_loop_weaken(k, m, a, (n - 1) as nat, t2);
        l_one_iter(m, a, t1);
        l_loop_closed(k, m, a, t1, t2, t);
    }
}

pub proof fn l_loop_merge_1(k: LoopKind, k2: LoopKind, a: SI, n: nat, t: Tr)
    requires loop_merge_ok(k, k2), pw(k, lp(k2, a), n, t),
    ensures sem(lp(lk_min(k, k2), a), t),
    decreases n,
{
    let m = lk_min(k, k2);
    let i = lp(k2, a);
    if n == 0 {
        assert(t =~= Seq::empty());
        l_zero_iter(m, a);
    } else {
        let (t1, t2) = choose|t1: Tr, t2: Tr| #![trigger lmrg(k, t1, t2, t)] sem(i, t1) && pw(k, i, (n - 1) as nat, t2) && lmrg(k, t1, t2, t);
        l_loop_merge_1(k, k2, a, (n - 1) as nat, t2);
        let n1 = choose|n: nat| #[trigger] tn(n) && pw(k2, a, n, t1);
        l_loop_weaken(k2, m, a, n1, t1);
        l_loop_closed(k, m, a, t1, t2, t);
    }
}

pub proof fn l_loop_merge_2(k: LoopKind, k2: LoopKind, a: SI, n: nat, t: Tr)
    requires pw(k, a, n, t),
    ensures pw(k, lp(k2, a), n, t),
    decreases n,
{
    if n > 0 {
        let (t1, t2) = choose|t1: Tr, t2: Tr| #![trigger lmrg(k, t1, t2, t)] sem(a, t1) && pw(k, a, (n - 1) as nat, t2) && lmrg(k, t1, t2, t);
        l_loop_merge_2(k, k2, a, (n - 1) as nat, t2);
        l_one_iter(k2, a, t1);
    }
}

/// merging nested loops
pub proof fn l_loop_merge(k: LoopKind, k2: LoopKind, a: SI)
    requires loop_merge_ok(k, k2),
    ensures semeq(lp(lk_min(k, k2), a), lp(k, lp(k2, a))),
{
    reveal(semeq);
    let m = lk_min(k, k2);
    let i = lp(m, a);
    let j = lp(k, lp(k2, a));
    assert forall|t: Tr| sem(i, t) == #[trigger] sem(j, t) by {
        if sem(j, t) {
            let n = choose|n: nat| #[trigger] tn(n) && pw(k, lp(k2, a), n, t);
            l_loop_merge_1(k, k2, a, n, t);
        }
        if sem(i, t) {
            let n = choose|n: nat| #[trigger] tn(n) && pw(m, a, n, t);
            if m == k {
                l_loop_merge_2(k, k2, a, n, t);
                assert(tn(n));
            } else {
                assert(sem(lp(k2, a), t));
                l_one_iter(k, lp(k2, a), t);
            }
        }
    }
}

pub broadcast proof fn b_eq_loop_merge(m: LoopKind, k: LoopKind, k2: LoopKind, a: SI, a2: SI)
    requires semeq(SI::Loop(k2, Box::new(a)), a2), #[trigger] loop_merge_ok(k, k2), m == lk_min(k, k2),
    ensures #[trigger] semeq(SI::Loop(m, Box::new(a)), SI::Loop(k, Box::new(a2))),
{
    l_loop_merge(k, k2, a);
    b_eq_loop(k, lp(k2, a), a2);
    l_eq_trans(lp(lk_min(k, k2), a), lp(k, lp(k2, a)), lp(k, a2));
}

pub broadcast group g_eq {
    b_semeq_refl, b_eq_op, b_eq_alt, b_eq_loop, b_eq_nil_l, b_eq_nil_r, b_eq_alt_nil, b_eq_loop_nil, b_eq_op_nil,
    b_eq_coreg_nil, b_eq_sync_nil, b_eq_sync_nil_l, b_eq_sync_nil_r, b_eq_loop_merge,
}
