// ============================================================================================
// Transformations which turn one operator into another, and transformations at a position of a term
// (ghost code only).
// ============================================================================================

pub proof fn l_mrg_par_seq(t1: Tr, t2: Tr, t: Tr, l: ISet<usize>)
    requires avt(t1, l), forall|k: int| 0 <= k < t2.len() ==> lfs(#[trigger] t2[k]).subset_of(l),
    ensures mrg(MOp::Par, t1, t2, t) == mrg(MOp::Seq, t1, t2, t),
    decreases t.len(),
{
    if t.len() > 0 {
        if t1.len() > 0 {
            l_avt_first(t1, l);
            l_mrg_par_seq(t1.drop_first(), t2, t.drop_first(), l);
        }
        if t2.len() > 0 {
            assert forall|k: int| 0 <= k < t2.drop_first().len() implies lfs(#[trigger] t2.drop_first()[k]).subset_of(l) by {
                assert(t2.drop_first()[k] == t2[k + 1]);
            }
            l_mrg_par_seq(t1, t2.drop_first(), t.drop_first(), l);
            assert(lfs(t2[0]).subset_of(l));
            assert(avt(t1, lfs(t2[0])));
            assert(avt(t1, ISet::<usize>::empty()));
            if t2[0] == t[0] {
                assert(okr(MOp::Par, t1, t[0]));
                assert(okr(MOp::Seq, t1, t[0]));
            }
        }
    }
}

/// operands without common lifeline: interleaving and weak sequencing coincide
pub broadcast proof fn b_tr_p2s(a: SI, b: SI)
    requires inv(a).intersect(inv(b)) == ISet::<usize>::empty(),
    ensures #[trigger] semeq(SI::Op(MOp::Par, Box::new(a), Box::new(b)), SI::Op(MOp::Seq, Box::new(a), Box::new(b))),
{
    let i = op(MOp::Par, a, b);
    let j = op(MOp::Seq, a, b);
    assert forall|t1: Tr, t2: Tr, t: Tr| sem(a, t1) && sem(b, t2) implies mrg(MOp::Par, t1, t2, t) == #[trigger] mrg(MOp::Seq, t1, t2, t) by {
        l_sem_acts(a, t1);
        l_sem_acts(b, t2);
        l_acts_inv(a);
        l_acts_inv(b);
        assert forall|k: int| 0 <= k < t1.len() implies av_ev(#[trigger] t1[k], inv(b)) by {
            assert(t1[k].subset_of(acts(a)));
            assert forall|x: TraceAction| #[trigger] t1[k].contains(x) implies !inv(b).contains(x.lf_id) by {
                assert(!inv(a).intersect(inv(b)).contains(x.lf_id));
                assert(acts(a).contains(x));
                assert(inv(a).contains(x.lf_id));
            }
        }
        assert forall|k: int| 0 <= k < t2.len() implies lfs(#[trigger] t2[k]).subset_of(inv(b)) by {
            assert(t2[k].subset_of(acts(b)));
            assert forall|l: usize| lfs(t2[k]).contains(l) implies inv(b).contains(l) by {
                let x = choose|x: TraceAction| #[trigger] t2[k].contains(x) && x.lf_id == l;
                assert(acts(b).contains(x));
            }
        }
        l_mrg_par_seq(t1, t2, t, inv(b));
    }
    assert forall|t: Tr| sem(i, t) == #[trigger] sem(j, t) by {
        if sem(i, t) {
            let (t1, t2) = choose|t1: Tr, t2: Tr| #![trigger mrg(MOp::Par, t1, t2, t)] sem(a, t1) && sem(b, t2) && mrg(MOp::Par, t1, t2, t);
            assert(mrg(MOp::Seq, t1, t2, t));
        }
        if sem(j, t) {
            let (t1, t2) = choose|t1: Tr, t2: Tr| #![trigger mrg(MOp::Seq, t1, t2, t)] sem(a, t1) && sem(b, t2) && mrg(MOp::Seq, t1, t2, t);
            assert(mrg(MOp::Par, t1, t2, t));
        }
    }
    reveal(semeq);
}

// ---------------------------------------------------------------- rewriting at a position

/// r is i with the sub-term at position p replaced by one with the same traces (nothing else changes)
pub open spec fn at(i: SI, p: SP, r: SI) -> bool
    decreases p,
{
    match p {
        SP::Eps(k) => k is None && tr(i, r),
        SP::Left(q) => match (i, r) {
            (SI::Op(c, a, b), SI::Op(c2, a2, b2)) => c == c2 && b == b2 && at(*a, *q, *a2),
            (SI::Alt(a, b), SI::Alt(a2, b2)) => b == b2 && at(*a, *q, *a2),
            (SI::Loop(k, a), SI::Loop(k2, a2)) => k == k2 && at(*a, *q, *a2),
            _ => false,
        },
        SP::Right(q) => match (i, r) {
            (SI::Op(c, a, b), SI::Op(c2, a2, b2)) => c == c2 && a == a2 && at(*b, *q, *b2),
            (SI::Alt(a, b), SI::Alt(a2, b2)) => a == a2 && at(*b, *q, *b2),
            _ => false,
        },
        SP::Both(_, _) => false,
    }
}

/// rewriting a sub-term keeps the traces of the whole term
pub proof fn l_at_tr(i: SI, p: SP, r: SI)
    requires conf(i), at(i, p, r),
    ensures tr(i, r),
    decreases p,
{
    match p {
        SP::Eps(_) => {},
        SP::Left(q) => match (i, r) {
            (SI::Op(c, a, b), SI::Op(_, a2, _)) => { l_at_tr(*a, *q, *a2); b_semeq_refl(*b); b_eq_op(c, *a, *b, *a2, *b); assert(i == SI::Op(c, Box::new(*a), Box::new(*b))); assert(r == SI::Op(c, Box::new(*a2), Box::new(*b))); },
            (SI::Alt(a, b), SI::Alt(a2, _)) => { l_at_tr(*a, *q, *a2); b_semeq_refl(*b); b_eq_alt(*a, *b, *a2, *b); },
            (SI::Loop(k, a), SI::Loop(_, a2)) => { l_at_tr(*a, *q, *a2); b_eq_loop(k, *a, *a2); },
            _ => {},
        },
        SP::Right(q) => match (i, r) {
            (SI::Op(c, a, b), SI::Op(_, _, b2)) => { l_at_tr(*b, *q, *b2); b_semeq_refl(*a); b_eq_op(c, *a, *b, *a, *b2); },
            (SI::Alt(a, b), SI::Alt(_, b2)) => { l_at_tr(*b, *q, *b2); b_semeq_refl(*a); b_eq_alt(*a, *b, *a, *b2); },
            _ => {},
        },
        SP::Both(_, _) => {},
    }
}
