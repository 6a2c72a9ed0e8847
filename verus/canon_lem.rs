// ============================================================================================
// Canonization process: every node reached accepts the traces of the initial model
// ============================================================================================
pub open spec fn cstep_ok(p: CanonizationParameterization, n: CanonizationNodeKind, s: CanonizationStepKind) -> bool {
    n.phase < p.phases@.len() && match s {
        CanonizationStepKind::Transform(x) => res_ok(vw(n.interaction), p.phases@[n.phase as int].transfos@, x),
        CanonizationStepKind::GoToNextPhase => n.phase < u32::MAX,
    }
}
pub open spec fn csteps_ok(p: CanonizationParameterization, n: CanonizationNodeKind, s: Seq<CanonizationStepKind>) -> bool {
    forall|j: int| 0 <= j < s.len() ==> cstep_ok(p, n, #[trigger] s[j])
}
pub open spec fn cnext(n: CanonizationNodeKind, s: CanonizationStepKind, m: CanonizationNodeKind) -> bool {
    match s {
        CanonizationStepKind::Transform(x) => vw(m.interaction) == vw(x.result) && m.phase == n.phase,
        CanonizationStepKind::GoToNextPhase => vw(m.interaction) == vw(n.interaction) && m.phase == n.phase + 1,
    }
}
pub open spec fn cedge(p: CanonizationParameterization, n: CanonizationNodeKind, m: CanonizationNodeKind) -> bool {
    exists|s: CanonizationStepKind| cstep_ok(p, n, s) && #[trigger] cnext(n, s, m)
}
pub open spec fn cpath(p: CanonizationParameterization, q: Seq<CanonizationNodeKind>) -> bool {
    q.len() > 0 && forall|j: int| 0 <= j < q.len() - 1 ==> cedge(p, #[trigger] q[j], q[j + 1])
}

/// THEOREM: whatever the steps taken, the model of each node reached is well formed and accepts the same traces
pub proof fn thm_canon(p: CanonizationParameterization, q: Seq<CanonizationNodeKind>, k: int)
    requires cpath(p, q), conf(vw(q[0].interaction)), 0 <= k < q.len(),
    ensures conf(vw(q[k].interaction)), semeq(vw(q[0].interaction), vw(q[k].interaction)),
    decreases k,
{
    if k == 0 {
        b_semeq_refl(vw(q[0].interaction));
    } else {
        thm_canon(p, q, k - 1);
        let j = k - 1;
        assert(cedge(p, q[j], q[j + 1]));
        let s = choose|s: CanonizationStepKind| cstep_ok(p, q[j], s) && #[trigger] cnext(q[j], s, q[j + 1]);
        if s is Transform {
            l_at_tr(vw(q[j].interaction), pv(s->Transform_0.position), vw(s->Transform_0.result));
            l_eq_trans(vw(q[0].interaction), vw(q[j].interaction), vw(q[k].interaction));
        }
    }
}
