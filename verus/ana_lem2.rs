// ============================================================================================
// Multi-trace analysis: memoization, verdicts and the explored graph (ghost code only).
// ============================================================================================
/// canal flags for which everything that could be found from a was looked for from b
pub open spec fn canal_incl(a: TraceAnalysisFlags, b: TraceAnalysisFlags) -> bool {
    a.consumed == b.consumed && a.simulated_after >= b.simulated_after && a.simulated_before >= b.simulated_before && (a.no_longer_observed ==> b.no_longer_observed)
}
pub open spec fn included(a: AnalysisNodeKind, b: AnalysisNodeKind) -> bool {
    &&& vw(a.interaction) == vw(b.interaction)
    &&& a.flags.rem_loop_in_sim <= b.flags.rem_loop_in_sim && a.flags.rem_act_in_sim <= b.flags.rem_act_in_sim
    &&& forall|c: int| 0 <= c < a.flags.canals@.len() ==> canal_incl(#[trigger] a.flags.canals@[c], b.flags.canals@[c])
    &&& a.ana_loop_depth >= b.ana_loop_depth
}
pub open spec fn lrank(v: AnalysisLocalVerdict) -> int {
    match v {
        AnalysisLocalVerdict::Cov => 4, AnalysisLocalVerdict::TooShort => 3, AnalysisLocalVerdict::MultiPref => 3, AnalysisLocalVerdict::Slice => 3,
        AnalysisLocalVerdict::Inconc(_) => 2, AnalysisLocalVerdict::OutSim(_) => 1, AnalysisLocalVerdict::Out(_) => 0,
    }
}
pub open spec fn gmax(a: int, b: int) -> int { if a >= b { a } else { b } }
pub open spec fn gge(a: AnalysisGlobalVerdict, b: AnalysisGlobalVerdict) -> bool {
    grank(a) > grank(b) || grank(a) == grank(b) && (a is Inconc ==> irank(a->Inconc_0) >= irank(b->Inconc_0))
}

// ------------------------------------------------------------------ the explored graph
/// the local analysis may reset the dirty counters of a node
pub open spec fn dirty1(a: TraceAnalysisFlags, b: TraceAnalysisFlags) -> bool {
    a.consumed == b.consumed && a.no_longer_observed == b.no_longer_observed && a.simulated_before == b.simulated_before && a.simulated_after == b.simulated_after
}
pub open spec fn dirty_only(f: MultiTraceAnalysisFlags, g: MultiTraceAnalysisFlags) -> bool {
    g.canals@.len() == f.canals@.len() && g.rem_loop_in_sim == f.rem_loop_in_sim && g.rem_act_in_sim == f.rem_act_in_sim
    && forall|c: int| 0 <= c < f.canals@.len() ==> dirty1(f.canals@[c], #[trigger] g.canals@[c])
}
pub open spec fn sbd(n: AnalysisNodeKind, m: AnalysisNodeKind) -> bool {
    vw(n.interaction) == vw(m.interaction) && dirty_only(n.flags, m.flags) && n.ana_loop_depth == m.ana_loop_depth
}
/// the steps collected at n, and the node reached by one of them
pub open spec fn nxt(x: AnalysisContext, k: AnalysisKind, n: AnalysisNodeKind, n2: AnalysisNodeKind) -> bool {
    exists|s: Seq<AnalysisStepKind>, j: int, m: AnalysisNodeKind| steps_ok(x, k, n, s) && 0 <= j < s.len() && #[trigger] snext(x, n, s[j], m) && sbd(m, n2)
}
pub proof fn l_sbd(x: AnalysisContext, n: AnalysisNodeKind, m: AnalysisNodeKind)
    requires sbd(n, m), n.flags.canals@.len() == x.multi_trace@.len(),
    ensures nrem(x, n) == nrem(x, m), any_hidden(n.flags) == any_hidden(m.flags), stands(n, m), wff(x.multi_trace, n.flags) == wff(x.multi_trace, m.flags),
{
    assert forall|c: int| 0 <= c < nrem(x, n).len() implies nrem(x, n)[c] == nrem(x, m)[c] by { assert(dirty1(n.flags.canals@[c], m.flags.canals@[c])); }
    assert(nrem(x, n) =~= nrem(x, m));
    if any_hidden(n.flags) {
        let c = choose|c: int| 0 <= c < n.flags.canals@.len() && (#[trigger] n.flags.canals@[c]).no_longer_observed;
        assert(dirty1(n.flags.canals@[c], m.flags.canals@[c]));
    }
    if any_hidden(m.flags) {
        let c = choose|c: int| 0 <= c < m.flags.canals@.len() && (#[trigger] m.flags.canals@[c]).no_longer_observed;
        assert(dirty1(n.flags.canals@[c], m.flags.canals@[c]));
    }
    assert forall|c: int| 0 <= c < n.flags.canals@.len() implies canal_incl(#[trigger] n.flags.canals@[c], m.flags.canals@[c]) by { assert(dirty1(n.flags.canals@[c], m.flags.canals@[c])); }
    assert(included(n, m));
    if wff(x.multi_trace, n.flags) {
        assert forall|c: int| 0 <= c < x.multi_trace@.len() implies (#[trigger] m.flags.canals@[c]).consumed <= x.multi_trace@[c]@.len() by { assert(dirty1(n.flags.canals@[c], m.flags.canals@[c])); }
    }
    if wff(x.multi_trace, m.flags) {
        assert forall|c: int| 0 <= c < x.multi_trace@.len() implies (#[trigger] n.flags.canals@[c]).consumed <= x.multi_trace@[c]@.len() by { assert(dirty1(n.flags.canals@[c], m.flags.canals@[c])); }
    }
}
/// nodes of a branch of the explored graph
pub open spec fn branch(x: AnalysisContext, k: AnalysisKind, p: Seq<AnalysisNodeKind>) -> bool {
    p.len() > 0 && forall|j: int| 0 <= j < p.len() - 1 ==> nxt(x, k, #[trigger] p[j], p[j + 1])
}
/// m stands for n: it is n itself, or n was left out because it is included in m
pub open spec fn stands(n: AnalysisNodeKind, m: AnalysisNodeKind) -> bool {
    m == n || included(n, m)
}
/// some explored node stands for n
pub open spec fn rep(g: ISet<AnalysisNodeKind>, n: AnalysisNodeKind) -> bool {
    exists|m: AnalysisNodeKind| #[trigger] g.contains(m) && stands(n, m)
}
/// every collected step of n has been followed
pub open spec fn expanded(x: AnalysisContext, k: AnalysisKind, g: ISet<AnalysisNodeKind>, n: AnalysisNodeKind) -> bool {
    exists|s: Seq<AnalysisStepKind>| #[trigger] steps_ok(x, k, n, s) && forall|j: int| 0 <= j < s.len() ==> followed(x, g, n, #[trigger] s[j])
}
pub open spec fn followed(x: AnalysisContext, g: ISet<AnalysisNodeKind>, n: AnalysisNodeKind, s: AnalysisStepKind) -> bool {
    exists|n2: AnalysisNodeKind| #[trigger] snext(x, n, s, n2) && rep(g, n2)
}
/// a complete exploration: from every node either every step has been followed, or the node is known to be dead
pub open spec fn explored(x: AnalysisContext, k: AnalysisKind, g: ISet<AnalysisNodeKind>, dead: ISet<AnalysisNodeKind>) -> bool {
    forall|n: AnalysisNodeKind| #[trigger] g.contains(n) ==> apre(x, vw(n.interaction), n.flags) && (dead.contains(n) || expanded(x, k, g, n))
}
pub open spec fn nmacc(x: AnalysisContext, n: AnalysisNodeKind) -> bool { macc(vw(n.interaction), rem(x.multi_trace, n.flags)) }
pub open spec fn nmpre(x: AnalysisContext, n: AnalysisNodeKind) -> bool { mpre(vw(n.interaction), rem(x.multi_trace, n.flags)) }
pub open spec fn nrem(x: AnalysisContext, n: AnalysisNodeKind) -> Seq<Tr> { rem(x.multi_trace, n.flags) }
pub open spec fn nverdict(x: AnalysisContext, k: AnalysisKind, n: AnalysisNodeKind) -> AnalysisLocalVerdict {
    lverdict(k, nrem(x, n), nullable(vw(n.interaction)), n.flags, singles(cvw(x.co_localizations)))
}

/// every node reached by s accepts what remains
pub open spec fn macc_by(x: AnalysisContext, n: AnalysisNodeKind, s: AnalysisStepKind) -> bool {
    forall|n2: AnalysisNodeKind| #[trigger] snext(x, n, s, n2) ==> nmacc(x, n2)
}
pub open spec fn mpre_by(x: AnalysisContext, n: AnalysisNodeKind, s: AnalysisStepKind) -> bool {
    forall|n2: AnalysisNodeKind| #[trigger] snext(x, n, s, n2) ==> nmpre(x, n2)
}
/// an observable step is at the head of a single canal
pub proof fn l_hd_uniq(x: AnalysisContext, n: AnalysisNodeKind, c: int, d: int, e: Ev)
    requires apre(x, vw(n.interaction), n.flags), hd(nrem(x, n), c, e), hd(nrem(x, n), d, e),
    ensures c == d,
{
    let cs = cvw(x.co_localizations);
    l_cons1(cs, x.multi_trace, n.flags, c, e);
    l_cons1(cs, x.multi_trace, n.flags, d, e);
    let l = choose|l: usize| #[trigger] lfs(e).contains(l);
    assert(first_at(cs, l, c) && first_at(cs, l, d));
    if c < d { assert(!cs[c].contains(l)); }
    if d < c { assert(!cs[d].contains(l)); }
}
/// one step of acceptance
pub proof fn l_macc_step(x: AnalysisContext, n: AnalysisNodeKind, s: Seq<AnalysisStepKind>)
    requires apre(x, vw(n.interaction), n.flags), asteps(vw(n.interaction), nrem(x, n), s), !all_empty(nrem(x, n)),
    ensures
        nmacc(x, n) ==> exists|j: int| 0 <= j < s.len() && macc_by(x, n, #[trigger] s[j]),
        forall|j: int, n2: AnalysisNodeKind| 0 <= j < s.len() && #[trigger] snext(x, n, s[j], n2) && nmacc(x, n2) ==> nmacc(x, n),
{
    reveal(asteps);
    let i = vw(n.interaction);
    let r = nrem(x, n);
    let f = sposs(s);
    assert forall|q: SP| #[trigger] f.contains(q) implies valid(i, q) by {
        let j = choose|j: int| 0 <= j < s.len() && spos(#[trigger] s[j]) == q;
        assert(astepx(i, r, s[j]));
    }
    thm_ana(i, r, f);
    if nmacc(x, n) {
        let (q, c, t) = choose|q: SP, c: int, t: Tr| #![trigger f.contains(q), hd(r, c, actp(i, q)), der(i, q, t)] f.contains(q) && mstep(i, r, q, c) && der(i, q, t) && shuf(t, adv(r, c));
        let j = choose|j: int| 0 <= j < s.len() && spos(#[trigger] s[j]) == q;
        assert(astepx(i, r, s[j]));
        let c2 = choose|c2: int| #[trigger] astep(i, r, s[j], c2);
        l_hd_uniq(x, n, c, c2, actp(i, q));
        assert forall|n2: AnalysisNodeKind| #[trigger] snext(x, n, s[j], n2) implies nmacc(x, n2) by {
            reveal(dr);
            assert(sem(vw(n2.interaction), t));
        }
        assert(macc_by(x, n, s[j]));
    }
    assert forall|j: int, n2: AnalysisNodeKind| 0 <= j < s.len() && #[trigger] snext(x, n, s[j], n2) && nmacc(x, n2) implies nmacc(x, n) by {
        assert(astepx(i, r, s[j]));
        let c = choose|c: int| #[trigger] astep(i, r, s[j], c);
        assert(f.contains(spos(s[j])));
        l_child(i, r, f, spos(s[j]), c, vw(n2.interaction));
    }
}

/// SOUNDNESS: a branch without elimination of lifelines which ends in an accepted node starts from an accepted one
pub proof fn l_branch_acc(x: AnalysisContext, k: AnalysisKind, p: Seq<AnalysisNodeKind>)
    requires branch(x, k, p), !(k is Simulate), forall|j: int| 0 <= j < p.len() ==> apre(x, vw((#[trigger] p[j]).interaction), p[j].flags),
        !any_hidden(p.last().flags), nmacc(x, p.last()),
    ensures nmacc(x, p[0]), !any_hidden(p[0].flags),
    decreases p.len(),
{
    if p.len() > 1 {
        let n = p[p.len() - 2];
        let n2 = p.last();
        assert(n2 == p[p.len() - 2 + 1]);
        assert(nxt(x, k, n, n2));
        let (s, j, m) = choose|s: Seq<AnalysisStepKind>, j: int, m: AnalysisNodeKind| steps_ok(x, k, n, s) && 0 <= j < s.len() && #[trigger] snext(x, n, s[j], m) && sbd(m, n2);
        l_sbd(x, m, n2);
        l_not_hidden(x, k, n, s, j, m);
        l_macc_step(x, n, s);
        let q = p.drop_last();
        assert forall|j: int| 0 <= j < q.len() - 1 implies nxt(x, k, #[trigger] q[j], q[j + 1]) by { assert(nxt(x, k, p[j], p[j + 1])); }
        assert forall|j: int| 0 <= j < q.len() implies apre(x, vw((#[trigger] q[j]).interaction), q[j].flags) by { assert(q[j] == p[j]); }
        l_branch_acc(x, k, q);
    }
}
pub proof fn l_not_hidden(x: AnalysisContext, k: AnalysisKind, n: AnalysisNodeKind, s: Seq<AnalysisStepKind>, j: int, n2: AnalysisNodeKind)
    requires apre(x, vw(n.interaction), n.flags), steps_ok(x, k, n, s), 0 <= j < s.len(), snext(x, n, s[j], n2), !any_hidden(n2.flags), n2.flags.canals@.len() == n.flags.canals@.len(),
    ensures asteps(vw(n.interaction), nrem(x, n), s), !all_empty(nrem(x, n)), !any_hidden(n.flags),
{
    reveal(asteps);
    if hstep(x, n, s[j]) {
        if k is Eliminate && some_ended(x, n) {
            let c = choose|c: int| 0 <= c < n.flags.canals@.len() && #[trigger] ended(x, n, c);
            assert(n.flags.canals.len() <= usize::MAX);
            assert(s[j]->EliminateNoLongerObserved_0@.contains(c as usize));
            assert(n2.flags.canals@[c].no_longer_observed);
        } else {
            assert(astepx(vw(n.interaction), nrem(x, n), s[j]));
        }
    } else {
        assert(astepx(vw(n.interaction), nrem(x, n), s[j]));
    }
    if any_hidden(n.flags) {
        let c = choose|c: int| 0 <= c < n.flags.canals@.len() && (#[trigger] n.flags.canals@[c]).no_longer_observed;
        assert(n2.flags.canals@[c].no_longer_observed);
    }
}
/// included nodes have the same follow-ups
pub proof fn l_incl(x: AnalysisContext, n: AnalysisNodeKind, m: AnalysisNodeKind)
    requires stands(n, m), apre(x, vw(n.interaction), n.flags), apre(x, vw(m.interaction), m.flags),
    ensures vw(n.interaction) == vw(m.interaction), nrem(x, n) =~= nrem(x, m),
{
    assert forall|c: int| 0 <= c < nrem(x, n).len() implies nrem(x, n)[c] == nrem(x, m)[c] by {
        if included(n, m) { assert(canal_incl(n.flags.canals@[c], m.flags.canals@[c])); }
    }
}
/// COMPLETENESS: a complete exploration from an accepted node has an accepting leaf
pub proof fn l_explored_acc(x: AnalysisContext, k: AnalysisKind, g: ISet<AnalysisNodeKind>, dead: ISet<AnalysisNodeKind>, n: AnalysisNodeKind)
    requires explored(x, k, g, dead), g.contains(n), k is Accept || k is Prefix, nmacc(x, n),
        forall|m: AnalysisNodeKind| #[trigger] dead.contains(m) && g.contains(m) ==> !nmacc(x, m),
    ensures exists|m: AnalysisNodeKind| #[trigger] g.contains(m) && all_empty(nrem(x, m)) && nullable(vw(m.interaction)),
    decreases rlen(nrem(x, n)),
{
    let i = vw(n.interaction);
    let r = nrem(x, n);
    assert(expanded(x, k, g, n));
    let s = choose|s: Seq<AnalysisStepKind>| #[trigger] steps_ok(x, k, n, s) && forall|j: int| 0 <= j < s.len() ==> followed(x, g, n, #[trigger] s[j]);
    if all_empty(r) {
        thm_ana_nil(i, r);
    } else {
        l_macc_step(x, n, s);
        let j = choose|j: int| 0 <= j < s.len() && macc_by(x, n, #[trigger] s[j]);
        assert(followed(x, g, n, s[j]));
        let n2 = choose|n2: AnalysisNodeKind| #[trigger] snext(x, n, s[j], n2) && rep(g, n2);
        let m = choose|m: AnalysisNodeKind| #[trigger] g.contains(m) && stands(n2, m);
        l_incl(x, n2, m);
        assert(nmacc(x, m));
        l_step_len(x, n, s, j, n2);
        l_explored_acc(x, k, g, dead, m);
    }
}
pub proof fn l_step_len(x: AnalysisContext, n: AnalysisNodeKind, s: Seq<AnalysisStepKind>, j: int, n2: AnalysisNodeKind)
    requires asteps(vw(n.interaction), nrem(x, n), s), 0 <= j < s.len(), snext(x, n, s[j], n2),
    ensures rlen(nrem(x, n2)) < rlen(nrem(x, n)),
{
    reveal(asteps);
    let i = vw(n.interaction);
    assert(astepx(i, nrem(x, n), s[j]));
    let c = choose|c: int| #[trigger] astep(i, nrem(x, n), s[j], c);
    l_rlen(nrem(x, n), c);
}
/// an emptied multi-trace is accepted exactly by the models which accept the empty trace
pub proof fn thm_ana_nil(i: SI, r: Seq<Tr>)
    requires conf(i), all_empty(r),
    ensures macc(i, r) == nullable(i),
{
    l_sem_nil(i);
    if macc(i, r) {
        let t = choose|t: Tr| #[trigger] sem(i, t) && shuf(t, r);
        if t.len() > 0 {
            let c = choose|c: int| #[trigger] hd(r, c, t[0]) && shuf(t.drop_first(), adv(r, c));
            assert(false);
        }
        assert(t =~= Seq::empty());
    }
    if nullable(i) { assert(sem(i, Seq::empty())); assert(shuf(Seq::empty(), r)); }
}
/// g is the set of nodes of a run of the analysis: each is reached from the root, each is expanded or known to be dead
pub open spec fn run(x: AnalysisContext, k: AnalysisKind, n0: AnalysisNodeKind, g: ISet<AnalysisNodeKind>, dead: ISet<AnalysisNodeKind>) -> bool {
    &&& g.contains(n0) && explored(x, k, g, dead)
    &&& forall|n: AnalysisNodeKind| #[trigger] g.contains(n) ==> reached(x, k, n0, g, n)
}
pub open spec fn reached(x: AnalysisContext, k: AnalysisKind, n0: AnalysisNodeKind, g: ISet<AnalysisNodeKind>, n: AnalysisNodeKind) -> bool {
    exists|p: Seq<AnalysisNodeKind>| #[trigger] branch(x, k, p) && p[0] == n0 && p.last() == n && forall|j: int| 0 <= j < p.len() ==> g.contains(#[trigger] p[j])
}
pub open spec fn has_leaf(x: AnalysisContext, k: AnalysisKind, g: ISet<AnalysisNodeKind>, rank: int) -> bool {
    exists|n: AnalysisNodeKind| #[trigger] g.contains(n) && lrank(nverdict(x, k, n)) == rank
}
/// THEOREM: in whatever order the nodes are explored, with or without memoization, with whatever sound criterion to give up nodes,
/// a node with the local verdict Cov is found exactly when the multi-trace is accepted
pub proof fn thm_pass(x: AnalysisContext, k: AnalysisKind, n0: AnalysisNodeKind, g: ISet<AnalysisNodeKind>, dead: ISet<AnalysisNodeKind>)
    requires run(x, k, n0, g, dead), !any_hidden(n0.flags),
        forall|m: AnalysisNodeKind| #[trigger] dead.contains(m) && g.contains(m) ==> !nmacc(x, m),
    ensures k is Accept || k is Prefix ==> has_leaf(x, k, g, 4) == nmacc(x, n0),
        k is Eliminate ==> (has_leaf(x, k, g, 4) ==> nmacc(x, n0)),
{
    if !(k is Simulate) && has_leaf(x, k, g, 4) {
        let n = choose|n: AnalysisNodeKind| #[trigger] g.contains(n) && lrank(nverdict(x, k, n)) == 4;
        assert(reached(x, k, n0, g, n));
        let p = choose|p: Seq<AnalysisNodeKind>| #[trigger] branch(x, k, p) && p[0] == n0 && p.last() == n && forall|j: int| 0 <= j < p.len() ==> g.contains(#[trigger] p[j]);
        thm_ana_nil(vw(n.interaction), nrem(x, n));
        if any_hidden(n.flags) { l_no_hide(x, k, p); }
        l_branch_acc(x, k, p);
    }
    if (k is Accept || k is Prefix) && nmacc(x, n0) {
        l_explored_acc(x, k, g, dead, n0);
        let m = choose|m: AnalysisNodeKind| #[trigger] g.contains(m) && all_empty(nrem(x, m)) && nullable(vw(m.interaction));
        assert(lrank(nverdict(x, k, m)) == 4);
    }
}
/// only analyses which eliminate lifelines hide canals
pub proof fn l_no_hide(x: AnalysisContext, k: AnalysisKind, p: Seq<AnalysisNodeKind>)
    requires branch(x, k, p), k is Accept || k is Prefix, !any_hidden(p[0].flags), forall|j: int| 0 <= j < p.len() ==> apre(x, vw((#[trigger] p[j]).interaction), p[j].flags),
    ensures !any_hidden(p.last().flags),
    decreases p.len(),
{
    if p.len() > 1 {
        let n = p[p.len() - 2];
        let n2 = p.last();
        assert(n2 == p[p.len() - 2 + 1]);
        assert(nxt(x, k, n, n2));
        let (s, j, m) = choose|s: Seq<AnalysisStepKind>, j: int, m: AnalysisNodeKind| steps_ok(x, k, n, s) && 0 <= j < s.len() && #[trigger] snext(x, n, s[j], m) && sbd(m, n2);
        l_sbd(x, m, n2);
        let q = p.drop_last();
        assert forall|j: int| 0 <= j < q.len() - 1 implies nxt(x, k, #[trigger] q[j], q[j + 1]) by { assert(nxt(x, k, p[j], p[j + 1])); }
        assert forall|j: int| 0 <= j < q.len() implies apre(x, vw((#[trigger] q[j]).interaction), q[j].flags) by { assert(q[j] == p[j]); }
        l_no_hide(x, k, q);
        reveal(asteps);
        assert(astepx(vw(n.interaction), nrem(x, n), s[j]));
    }
}

// ------------------------------------------------------------------ multi-prefixes
pub proof fn l_cat(c: MOp, t1: Tr, t2: Tr)
    requires !(c is Sync),
    ensures mrg(c, t1, t2, t1 + t2),
    decreases t1.len(),
{
    if t1.len() == 0 {
        assert(t1 =~= Seq::empty());
        l_mrg_nil_l(c, t2, t1 + t2);
        assert(t1 + t2 =~= t2);
    } else {
        l_cat(c, t1.drop_first(), t2);
        assert((t1 + t2).drop_first() =~= t1.drop_first() + t2);
        assert(solo(c, (t1 + t2)[0]));
    }
}
pub proof fn l_recs_live(ms: usize, rs: Seq<usize>) -> (t: Tr)
    ensures recs(ms, rs, t),
    decreases rs.len(),
{
    if rs.len() == 0 { Seq::empty() } else {
        let u = l_recs_live(ms, rs.remove(0));
        let e = ISet::<TraceAction>::empty().insert(rc_act(rs[0], ms));
        let t = cons(e, u);
        l_cons(e, u);
        assert(t.drop_first() =~= u);
        t
    }
}
/// without synchronized products, every behaviour can be brought to its end
pub proof fn l_live(i: SI) -> (t: Tr)
    requires nosync(i),
    ensures sem(i, t),
    decreases i,
{
    match i {
        SI::Empty => Seq::empty(),
        SI::Em(o, ms, sy, tg) => if sy { Seq::empty().push(em_event(o, ms, tg)) } else {
            let u = l_recs_live(ms, lf_targets(tg));
            let e = ISet::<TraceAction>::empty().insert(em_act(o, ms));
            l_cons(e, u);
            assert(cons(e, u).drop_first() =~= u);
            cons(e, u)
        },
        SI::Rec(_, ms, sy, rs) => if sy { Seq::empty().push(rec_event(ms, rs)) } else { l_recs_live(ms, rs) },
        SI::Op(c, a, b) => { let t1 = l_live(*a); let t2 = l_live(*b); l_cat(c, t1, t2); t1 + t2 },
        SI::Alt(a, _) => l_live(*a),
        SI::Loop(k, a) => { assert(tn(0)); assert(pw(k, *a, 0, Seq::empty())); Seq::empty() },
        SI::And(_, _) => Seq::empty(),
    }
}
pub proof fn l_mpre_nil(i: SI, r: Seq<Tr>)
    requires nosync(i), all_empty(r),
    ensures mpre(i, r),
{
    let u = l_live(i);
    let t = Seq::<Ev>::empty();
    assert(shuf(t, r));
    assert(t.is_prefix_of(u));
}
/// one step of a multi-prefix
pub proof fn l_mpre_step(x: AnalysisContext, n: AnalysisNodeKind, s: Seq<AnalysisStepKind>)
    requires apre(x, vw(n.interaction), n.flags), asteps(vw(n.interaction), nrem(x, n), s), !all_empty(nrem(x, n)),
    ensures
        nmpre(x, n) ==> exists|j: int| 0 <= j < s.len() && mpre_by(x, n, #[trigger] s[j]),
        forall|j: int, n2: AnalysisNodeKind| 0 <= j < s.len() && #[trigger] snext(x, n, s[j], n2) && nmpre(x, n2) ==> nmpre(x, n),
{
    reveal(asteps);
    reveal(dr);
    let i = vw(n.interaction);
    let r = nrem(x, n);
    let f = sposs(s);
    if nmpre(x, n) {
        let (t, u) = choose|t: Tr, u: Tr| #[trigger] sem(i, u) && t.is_prefix_of(u) && #[trigger] shuf(t, r);
        assert(t.len() > 0);
        let c = choose|c: int| #[trigger] hd(r, c, t[0]) && shuf(t.drop_first(), adv(r, c));
        let v = u.drop_first();
        assert(u[0] == t[0]);
        assert(cons(u[0], v) =~= u);
        assert(sem(i, cons(r[c][0], v)));
        assert(cv(i, f, r[c][0], v));
        let q = choose|q: SP| #[trigger] f.contains(q) && actp(i, q) == r[c][0] && der(i, q, v);
        let j = choose|j: int| 0 <= j < s.len() && spos(#[trigger] s[j]) == q;
        assert(astepx(i, r, s[j]));
        let c2 = choose|c2: int| #[trigger] astep(i, r, s[j], c2);
        l_hd_uniq(x, n, c, c2, actp(i, q));
        assert forall|n2: AnalysisNodeKind| #[trigger] snext(x, n, s[j], n2) implies nmpre(x, n2) by {
            assert(sem(vw(n2.interaction), v));
            assert(t.drop_first().is_prefix_of(v));
        }
        assert(mpre_by(x, n, s[j]));
    }
    assert forall|j: int, n2: AnalysisNodeKind| 0 <= j < s.len() && #[trigger] snext(x, n, s[j], n2) && nmpre(x, n2) implies nmpre(x, n) by {
        assert(astepx(i, r, s[j]));
        let c = choose|c: int| #[trigger] astep(i, r, s[j], c);
        let q = spos(s[j]);
        let (t, u) = choose|t: Tr, u: Tr| #[trigger] sem(vw(n2.interaction), u) && t.is_prefix_of(u) && #[trigger] shuf(t, nrem(x, n2));
        assert(der(i, q, u));
        l_step_sound(i, q, u);
        let e = actp(i, q);
        l_cons(e, u);
        l_cons(e, t);
        let v = cons(e, t);
        assert(hd(r, c, v[0]));
        assert(v.drop_first() =~= t);
        assert(shuf(v, r));
        assert forall|h: int| 0 <= h < v.len() implies v[h] == cons(e, u)[h] by { if h > 0 { assert(v[h] == t[h - 1]); assert(cons(e, u)[h] == u[h - 1]); } }
        assert(v =~= cons(e, u).take(v.len() as int));
        assert(v.is_prefix_of(cons(e, u)));
    }
}
/// COMPLETENESS for multi-prefixes
pub proof fn l_explored_pre(x: AnalysisContext, g: ISet<AnalysisNodeKind>, dead: ISet<AnalysisNodeKind>, n: AnalysisNodeKind)
    requires explored(x, AnalysisKind::Prefix, g, dead), g.contains(n), nmpre(x, n),
        forall|m: AnalysisNodeKind| #[trigger] dead.contains(m) && g.contains(m) ==> !nmpre(x, m),
    ensures exists|m: AnalysisNodeKind| #[trigger] g.contains(m) && all_empty(nrem(x, m)),
    decreases rlen(nrem(x, n)),
{
    let k = AnalysisKind::Prefix;
    let i = vw(n.interaction);
    let r = nrem(x, n);
    assert(expanded(x, k, g, n));
    let s = choose|s: Seq<AnalysisStepKind>| #[trigger] steps_ok(x, k, n, s) && forall|j: int| 0 <= j < s.len() ==> followed(x, g, n, #[trigger] s[j]);
    if !all_empty(r) {
        l_mpre_step(x, n, s);
        let j = choose|j: int| 0 <= j < s.len() && mpre_by(x, n, #[trigger] s[j]);
        assert(followed(x, g, n, s[j]));
        let n2 = choose|n2: AnalysisNodeKind| #[trigger] snext(x, n, s[j], n2) && rep(g, n2);
        let m = choose|m: AnalysisNodeKind| #[trigger] g.contains(m) && stands(n2, m);
        l_incl(x, n2, m);
        assert(nmpre(x, m));
        l_step_len(x, n, s, j, n2);
        l_explored_pre(x, g, dead, m);
    }
}
/// SOUNDNESS for multi-prefixes
pub proof fn l_branch_pre(x: AnalysisContext, p: Seq<AnalysisNodeKind>)
    requires branch(x, AnalysisKind::Prefix, p), forall|j: int| 0 <= j < p.len() ==> apre(x, vw((#[trigger] p[j]).interaction), p[j].flags),
        nmpre(x, p.last()),
    ensures nmpre(x, p[0]),
    decreases p.len(),
{
    let k = AnalysisKind::Prefix;
    if p.len() > 1 {
        let n = p[p.len() - 2];
        let n2 = p.last();
        assert(n2 == p[p.len() - 2 + 1]);
        assert(nxt(x, k, n, n2));
        let (s, j, m) = choose|s: Seq<AnalysisStepKind>, j: int, m: AnalysisNodeKind| steps_ok(x, k, n, s) && 0 <= j < s.len() && #[trigger] snext(x, n, s[j], m) && sbd(m, n2);
        l_sbd(x, m, n2);
        l_mpre_step(x, n, s);
        let q = p.drop_last();
        assert forall|j: int| 0 <= j < q.len() - 1 implies nxt(x, k, #[trigger] q[j], q[j + 1]) by { assert(nxt(x, k, p[j], p[j + 1])); }
        assert forall|j: int| 0 <= j < q.len() implies apre(x, vw((#[trigger] q[j]).interaction), q[j].flags) by { assert(q[j] == p[j]); }
        l_branch_pre(x, q);
    }
}
pub proof fn l_branch_nosync(x: AnalysisContext, k: AnalysisKind, p: Seq<AnalysisNodeKind>)
    requires branch(x, k, p), nosync(vw(p[0].interaction)),
    ensures nosync(vw(p.last().interaction)),
    decreases p.len(),
{
    if p.len() > 1 {
        let n = p[p.len() - 2];
        assert(p.last() == p[p.len() - 2 + 1]);
        assert(nxt(x, k, n, p.last()));
        let q = p.drop_last();
        assert forall|j: int| 0 <= j < q.len() - 1 implies nxt(x, k, #[trigger] q[j], q[j + 1]) by { assert(nxt(x, k, p[j], p[j + 1])); }
        l_branch_nosync(x, k, q);
    }
}
/// THEOREM: a prefix analysis finds an emptied multi-trace exactly when the multi-trace is a multi-prefix (models without synchronized products)
pub proof fn thm_weak_pass(x: AnalysisContext, n0: AnalysisNodeKind, g: ISet<AnalysisNodeKind>, dead: ISet<AnalysisNodeKind>)
    requires run(x, AnalysisKind::Prefix, n0, g, dead), nosync(vw(n0.interaction)),
        forall|m: AnalysisNodeKind| #[trigger] dead.contains(m) && g.contains(m) ==> !nmpre(x, m),
    ensures (has_leaf(x, AnalysisKind::Prefix, g, 4) || has_leaf(x, AnalysisKind::Prefix, g, 3)) == nmpre(x, n0),
{
    let k = AnalysisKind::Prefix;
    if has_leaf(x, k, g, 4) || has_leaf(x, k, g, 3) {
        let n = choose|n: AnalysisNodeKind| #[trigger] g.contains(n) && lrank(nverdict(x, k, n)) >= 3;
        assert(all_empty(nrem(x, n)));
        assert(reached(x, k, n0, g, n));
        let p = choose|p: Seq<AnalysisNodeKind>| #[trigger] branch(x, k, p) && p[0] == n0 && p.last() == n && forall|j: int| 0 <= j < p.len() ==> g.contains(#[trigger] p[j]);
        l_branch_nosync(x, k, p);
        l_mpre_nil(vw(n.interaction), nrem(x, n));
        l_branch_pre(x, p);
    }
    if nmpre(x, n0) {
        l_explored_pre(x, g, dead, n0);
        let m = choose|m: AnalysisNodeKind| #[trigger] g.contains(m) && all_empty(nrem(x, m));
        assert(lrank(nverdict(x, k, m)) >= 3);
    }
}

// ------------------------------------------------------------------ the exploration engine, local analyses
/// the verdict v of the engine: unless a given goal is reached first, all the steps have been followed, and v is at least the verdict of every leaf
pub open spec fn engine(x: AnalysisContext, k: AnalysisKind, goal: Option<AnalysisGlobalVerdict>, n0: AnalysisNodeKind, v: AnalysisGlobalVerdict) -> bool {
    goal is Some && gge(v, goal->Some_0) || exists|g: ISet<AnalysisNodeKind>| #[trigger] run(x, k, n0, g, ISet::empty()) && leaves_below(x, k, g, grank(v))
}
pub open spec fn leaves_below(x: AnalysisContext, k: AnalysisKind, g: ISet<AnalysisNodeKind>, rank: int) -> bool {
    forall|n: AnalysisNodeKind| #[trigger] g.contains(n) && all_empty(nrem(x, n)) ==> lrank(nverdict(x, k, n)) <= rank
}
/// a prefix analysis which ends below its goal WeakPass: the multi-trace is not a multi-prefix
pub proof fn l_engine_fail(x: AnalysisContext, n0: AnalysisNodeKind, v: AnalysisGlobalVerdict)
    requires engine(x, AnalysisKind::Prefix, Some(AnalysisGlobalVerdict::WeakPass), n0, v), grank(v) < 3,
    ensures !nmpre(x, n0),
{
    let k = AnalysisKind::Prefix;
    let g = choose|g: ISet<AnalysisNodeKind>| #[trigger] run(x, k, n0, g, ISet::empty()) && leaves_below(x, k, g, grank(v));
    if nmpre(x, n0) {
        l_explored_pre(x, g, ISet::empty(), n0);
        let m = choose|m: AnalysisNodeKind| #[trigger] g.contains(m) && all_empty(nrem(x, m));
        assert(lrank(nverdict(x, k, m)) >= 3);
    }
}
/// lifelines outside co-localization c
pub open spec fn outc(nlf: int, s: ISet<usize>) -> ISet<usize> {
    ISet::new(|x: usize| x < nlf && !s.contains(x))
}
/// the local problem of canal c fails: no behaviour of the model restricted to c starts with what remains on c
pub open spec fn local_dead(nlf: int, cs: Seq<ISet<usize>>, i: SI, r: Seq<Tr>, c: int) -> bool {
    0 <= c < cs.len() && r.len() == cs.len() && r[c].len() > 0
        && exists|j: SI| #[trigger] el(i, outc(nlf, cs[c]), j) && !mpre(j, Seq::empty().push(r[c]))
}
pub open spec fn disj(cs: Seq<ISet<usize>>) -> bool {
    forall|a: int, b: int, l: usize| 0 <= a < cs.len() && 0 <= b < cs.len() && #[trigger] cs[a].contains(l) && #[trigger] cs[b].contains(l) ==> a == b
}
pub proof fn l_shuf1(t: Tr)
    ensures shuf(t, Seq::empty().push(t)),
    decreases t.len(),
{
    let r = Seq::empty().push(t);
    if t.len() > 0 {
        l_shuf1(t.drop_first());
        assert(hd(r, 0, t[0]));
        assert(adv(r, 0) =~= Seq::empty().push(t.drop_first()));
    }
}
pub open spec fn wfr(cs: Seq<ISet<usize>>, r: Seq<Tr>) -> bool {
    r.len() == cs.len() && forall|c: int, j: int| 0 <= c < r.len() && 0 <= j < r[c].len() ==> wfe(cs, c, #[trigger] r[c][j])
}
pub open spec fn evs_below(t: Tr, nlf: int) -> bool {
    forall|k: int, a: TraceAction| 0 <= k < t.len() && #[trigger] t[k].contains(a) ==> a.lf_id < nlf
}
/// projecting an interleaving of the canals on one of them
pub proof fn l_pt_shuf(nlf: int, cs: Seq<ISet<usize>>, t: Tr, r: Seq<Tr>, c: int)
    requires shuf(t, r), wfr(cs, r), disj(cs), 0 <= c < cs.len(), evs_below(t, nlf),
    ensures pt(t, outc(nlf, cs[c])) == r[c],
    decreases t.len(),
{
    let l = outc(nlf, cs[c]);
    if t.len() == 0 {
        assert(r[c].len() == 0);
        assert(r[c] =~= Seq::empty());
    } else {
        let d = choose|d: int| #[trigger] hd(r, d, t[0]) && shuf(t.drop_first(), adv(r, d));
        let r2 = adv(r, d);
        assert forall|a: int, j: int| 0 <= a < r2.len() && 0 <= j < r2[a].len() implies wfe(cs, a, #[trigger] r2[a][j]) by {
            if a == d { assert(r2[a][j] == r[a][j + 1]); } else { assert(r2[a][j] == r[a][j]); }
        }
        assert forall|k: int, a: TraceAction| 0 <= k < t.drop_first().len() && #[trigger] t.drop_first()[k].contains(a) implies a.lf_id < nlf by { assert(t[k + 1].contains(a)); }
        l_pt_shuf(nlf, cs, t.drop_first(), r2, c);
        let e = t[0];
        assert(wfe(cs, d, r[d][0]));
        assert forall|a: TraceAction| #[trigger] e.contains(a) implies cs[d].contains(a.lf_id) && a.lf_id < nlf by { assert(lfs(e).contains(a.lf_id)); assert(first_at(cs, a.lf_id, d)); }
        if d == c {
            assert(pe(e, l) =~= e);
            let lf = choose|lf: usize| #[trigger] lfs(e).contains(lf);
            let a = choose|a: TraceAction| #[trigger] e.contains(a) && a.lf_id == lf;
            assert(!isnil(pe(e, l)));
            l_uncons(r[c]);
        } else {
            assert(isnil(pe(e, l))) by {
                assert forall|a: TraceAction| !#[trigger] pe(e, l).contains(a) by { if e.contains(a) { assert(cs[d].contains(a.lf_id)); } }
            }
        }
    }
}
pub proof fn l_pt_prefix(t: Tr, u: Tr, l: ISet<usize>)
    requires t.is_prefix_of(u),
    ensures pt(t, l).is_prefix_of(pt(u, l)),
    decreases t.len(),
{
    if t.len() > 0 {
        assert(t[0] == u[0]);
        assert(t.drop_first().is_prefix_of(u.drop_first()));
        l_pt_prefix(t.drop_first(), u.drop_first(), l);
        if !isnil(pe(t[0], l)) {
            let e = pe(t[0], l);
            let a = pt(t.drop_first(), l);
            let b = pt(u.drop_first(), l);
            l_cons(e, a); l_cons(e, b);
            assert(cons(e, a) =~= cons(e, b).take(cons(e, a).len() as int)) by {
                assert forall|h: int| 0 <= h < cons(e, a).len() implies cons(e, a)[h] == cons(e, b)[h] by { if h > 0 { assert(cons(e, a)[h] == a[h - 1]); assert(cons(e, b)[h] == b[h - 1]); } }
            }
        }
    } else { assert(pt(t, l) =~= Seq::empty()); }
}
/// THEOREM: when the local problem of some canal fails, the multi-trace is not a multi-prefix (models without synchronized products and head-first loops)
pub proof fn thm_local(nlf: int, cs: Seq<ISet<usize>>, i: SI, r: Seq<Tr>, c: int)
    requires conf(i), nosync(i), nohf(i), wfr(cs, r), disj(cs), local_dead(nlf, cs, i, r, c), forall|l: usize| #[trigger] inv(i).contains(l) ==> l < nlf,
    ensures !mpre(i, r), !macc(i, r),
{
    if macc(i, r) {
        let t = choose|t: Tr| #[trigger] sem(i, t) && shuf(t, r);
        assert(t.is_prefix_of(t));
        assert(mpre(i, r));
    }
    if mpre(i, r) {
        let l = outc(nlf, cs[c]);
        let j = choose|j: SI| #[trigger] el(i, l, j) && !mpre(j, Seq::empty().push(r[c]));
        let (t, u) = choose|t: Tr, u: Tr| #[trigger] sem(i, u) && t.is_prefix_of(u) && #[trigger] shuf(t, r);
        thm_projection(i, l, u);
        l_sem_acts(i, u);
        l_acts_inv(i);
        assert forall|k: int, a: TraceAction| 0 <= k < t.len() && #[trigger] t[k].contains(a) implies a.lf_id < nlf by {
            assert(t[k] == u[k]);
            assert(acts(i).contains(a));
            assert(inv(i).contains(a.lf_id));
        }
        l_pt_shuf(nlf, cs, t, r, c);
        l_pt_prefix(t, u, l);
        reveal(el); reveal(semeq);
        assert(sem(j, pt(u, l)));
        l_shuf1(r[c]);
        assert(mpre(j, Seq::empty().push(r[c])));
    }
}
pub proof fn l_wfr(cs: Seq<ISet<usize>>, m: MultiTrace, f: MultiTraceAnalysisFlags)
    requires wfm(cs, m), wff(m, f),
    ensures wfr(cs, rem(m, f)),
{
    let r = rem(m, f);
    assert forall|c: int, j: int| 0 <= c < r.len() && 0 <= j < r[c].len() implies wfe(cs, c, #[trigger] r[c][j]) by {
        let k = f.canals@[c].consumed as int + j;
        assert(f.canals@[c].consumed <= m@[c]@.len());
        assert(r[c][j] == m@[c]@[k]@);
    }
}

pub open spec fn mlen(m: MultiTrace, n: int) -> int
    decreases n,
{
    if n <= 0 { 0 } else { mlen(m, n - 1) + m@[n - 1]@.len() }
}
pub proof fn l_mlen(m: MultiTrace, n: int)
    requires 0 < n <= m@.len(),
    ensures mlen(m, n) == mlen(m, n - 1) + m@[n - 1]@.len(), mlen(m, n) <= mlen(m, m@.len() as int), mlen(m, n - 1) >= 0,
    decreases m@.len() - n,
{
    l_mlen0(m, n - 1);
    if n < m@.len() { l_mlen(m, n + 1); }
}
pub proof fn l_mlen0(m: MultiTrace, n: int)
    requires n <= m@.len(),
    ensures mlen(m, n) >= 0,
    decreases n,
{
    if n > 0 { l_mlen0(m, n - 1); }
}
pub open spec fn lpre(cs: Seq<ISet<usize>>, i: SI, m: MultiTrace, f: MultiTraceAnalysisFlags) -> bool {
    conf(i) && nld(i) <= u32::MAX && cov(cs, inv(i)) && wfm(cs, m) && wff(m, f) && counters(f)
}

/// b is a without the first n elements of s
pub open spec fn minus(a: ISet<usize>, s: Seq<&usize>, n: int, b: ISet<usize>) -> bool {
    forall|x: usize| #[trigger] b.contains(x) <==> a.contains(x) && forall|j: int| 0 <= j < n ==> *(#[trigger] s[j]) != x
}
pub proof fn l_minus(a: ISet<usize>, s: Seq<&usize>, n: int, b: ISet<usize>, b2: ISet<usize>)
    requires 0 < n <= s.len(), minus(a, s, n - 1, b), b2 == b.remove(*s[n - 1]),
    ensures minus(a, s, n, b2),
{
    assert forall|x: usize| #[trigger] b2.contains(x) <==> a.contains(x) && forall|j: int| 0 <= j < n ==> *(#[trigger] s[j]) != x by {
        assert(b2.contains(x) <==> b.contains(x) && x != *s[n - 1]);
    }
}
pub proof fn l_minus_all(a: ISet<usize>, s: Seq<&usize>, b: ISet<usize>)
    requires minus(a, s, s.len() as int, b),
    ensures b =~= a.difference(kset(s)),
{
    assert forall|x: usize| b.contains(x) == a.difference(kset(s)).contains(x) by {
        if b.contains(x) && kset(s).contains(x) { let j = choose|j: int| 0 <= j < s.len() && (#[trigger] s[j]).k() == x; assert(*s[j] != x); }
        if a.contains(x) && !kset(s).contains(x) { assert forall|j: int| 0 <= j < s.len() implies *(#[trigger] s[j]) != x by { l_kset_at(s, j); assert(s[j].k() == *s[j]); } }
    }
}
/// the local problem of canal c
pub proof fn l_one_canal(nlf: int, cs: Seq<ISet<usize>>, i: SI, m: MultiTrace, f: MultiTraceAnalysisFlags, c: int, m2: MultiTrace, f2: MultiTraceAnalysisFlags)
    requires 0 <= c < cs.len(), lpre(cs, i, m, f), m2@.len() == 1, tvw(m2@[0]) == tvw(m@[c]), f2.canals@.len() == 1, f2.canals@[0].consumed == f.canals@[c].consumed,
    ensures rem(m2, f2) == Seq::empty().push(rem(m, f)[c]), wff(m2, f2), wfm(Seq::empty().push(cs[c]), m2), mlen(m2, 1) == m@[c]@.len(),
        rem(m, f).len() == cs.len(), f.canals@[c].consumed < m@[c]@.len() ==> rem(m, f)[c].len() > 0,
        (forall|l: usize| #[trigger] inv(i).contains(l) ==> l < nlf) ==> cov(Seq::empty().push(cs[c]), inv(i).difference(outc(nlf, cs[c]))),
{
    let cs2 = Seq::<ISet<usize>>::empty().push(cs[c]);
    assert(m2@[0]@.len() == tvw(m2@[0]).len() && m@[c]@.len() == tvw(m@[c]).len());
    assert(rem(m2, f2) =~= Seq::empty().push(rem(m, f)[c]));
    assert(f.canals@[c].consumed <= m@[c]@.len());
    assert(mlen(m2, 1) == mlen(m2, 0) + m2@[0]@.len());
    assert forall|k: int, j: int| 0 <= k < m2@.len() && 0 <= j < m2@[k]@.len() implies wfe(cs2, k, #[trigger] m2@[k]@[j]@) by {
        let e = m@[c]@[j]@;
        assert(tvw(m2@[0])[j] == tvw(m@[c])[j]);
        assert(wfe(cs, c, e));
        assert forall|l: usize| #[trigger] lfs(e).contains(l) implies first_at(cs2, l, 0) by { assert(first_at(cs, l, c)); }
    }
    if forall|l: usize| #[trigger] inv(i).contains(l) ==> l < nlf {
        assert forall|x: usize| #[trigger] inv(i).difference(outc(nlf, cs[c])).contains(x) implies covx(cs2, x) by { assert(cs2[0].contains(x)); }
    }
}
pub broadcast proof fn b_cvw1(co: CoLocalizations)
    requires co.locs_lf_ids@.len() == 1,
    ensures #[trigger] cvw(co) == Seq::<ISet<usize>>::empty().push(co.locs_lf_ids@[0]@),
{
    assert(cvw(co) =~= Seq::empty().push(co.locs_lf_ids@[0]@));
}

pub broadcast proof fn b_el_get(i: SI, l: ISet<usize>, j: SI)
    requires #[trigger] el(i, l, j),
    ensures inv(j) == inv(i).difference(l), nld(j) <= nld(i), nosync(i) ==> nosync(j), nohf(i) ==> nohf(j),
{
    reveal(el);
    assert(inv(j) =~= inv(i).difference(l));
}
pub broadcast proof fn b_ldead(nlf: int, cs: Seq<ISet<usize>>, i: SI, r: Seq<Tr>, c: int, l: ISet<usize>, j: SI)
    requires #[trigger] el(i, l, j), l == outc(nlf, cs[c]), !mpre(j, Seq::empty().push(r[c])), 0 <= c < cs.len(), r.len() == cs.len(), r[c].len() > 0,
    ensures #[trigger] local_dead(nlf, cs, i, r, c),
{}

/// the local problem of some canal fails
pub open spec fn ldead(x: AnalysisContext, n: AnalysisNodeKind) -> bool {
    some_dead(x.gen_ctx.lf_names@.len() as int, cvw(x.co_localizations), vw(n.interaction), nrem(x, n))
}
pub open spec fn some_dead(nlf: int, cs: Seq<ISet<usize>>, i: SI, r: Seq<Tr>) -> bool {
    exists|c: int| #[trigger] local_dead(nlf, cs, i, r, c)
}
pub open spec fn below(x: AnalysisContext, i: SI) -> bool {
    forall|l: usize| #[trigger] inv(i).contains(l) ==> l < x.gen_ctx.lf_names@.len()
}
pub proof fn l_branch_keep(x: AnalysisContext, k: AnalysisKind, p: Seq<AnalysisNodeKind>)
    requires branch(x, k, p), nosync(vw(p[0].interaction)), nohf(vw(p[0].interaction)), below(x, vw(p[0].interaction)),
    ensures nosync(vw(p.last().interaction)), nohf(vw(p.last().interaction)), below(x, vw(p.last().interaction)),
    decreases p.len(),
{
    if p.len() > 1 {
        let n = p[p.len() - 2];
        assert(p.last() == p[p.len() - 2 + 1]);
        assert(nxt(x, k, n, p.last()));
        let q = p.drop_last();
        assert forall|j: int| 0 <= j < q.len() - 1 implies nxt(x, k, #[trigger] q[j], q[j + 1]) by { assert(nxt(x, k, p[j], p[j + 1])); }
        l_branch_keep(x, k, q);
    }
}
/// THEOREM: the same with the nodes given up by local analyses
pub proof fn thm_pass_local(x: AnalysisContext, k: AnalysisKind, n0: AnalysisNodeKind, g: ISet<AnalysisNodeKind>, dead: ISet<AnalysisNodeKind>)
    requires run(x, k, n0, g, dead), !any_hidden(n0.flags), disj(cvw(x.co_localizations)), nosync(vw(n0.interaction)), nohf(vw(n0.interaction)), below(x, vw(n0.interaction)),
        forall|m: AnalysisNodeKind| #[trigger] dead.contains(m) && g.contains(m) ==> ldead(x, m),
    ensures k is Accept || k is Prefix ==> has_leaf(x, k, g, 4) == nmacc(x, n0),
        k is Eliminate ==> (has_leaf(x, k, g, 4) ==> nmacc(x, n0)),
        k is Prefix ==> (has_leaf(x, k, g, 4) || has_leaf(x, k, g, 3)) == nmpre(x, n0),
{
    assert forall|m: AnalysisNodeKind| #[trigger] dead.contains(m) && g.contains(m) implies !nmacc(x, m) && !nmpre(x, m) by {
        assert(reached(x, k, n0, g, m));
        let p = choose|p: Seq<AnalysisNodeKind>| #[trigger] branch(x, k, p) && p[0] == n0 && p.last() == m && forall|j: int| 0 <= j < p.len() ==> g.contains(#[trigger] p[j]);
        l_branch_keep(x, k, p);
        let cs = cvw(x.co_localizations);
        let nlf = x.gen_ctx.lf_names@.len() as int;
        let c = choose|c: int| #[trigger] local_dead(nlf, cs, vw(m.interaction), nrem(x, m), c);
        l_wfr(cs, x.multi_trace, m.flags);
        thm_local(nlf, cs, vw(m.interaction), nrem(x, m), c);
    }
    thm_pass(x, k, n0, g, dead);
    if k is Prefix { thm_weak_pass(x, n0, g, dead); }
}
/// SOUNDNESS for partial explorations (filters, goal reached before the end): a leaf with the local verdict Cov shows that the multi-trace is accepted
pub proof fn thm_pass_partial(x: AnalysisContext, k: AnalysisKind, n0: AnalysisNodeKind, p: Seq<AnalysisNodeKind>)
    requires branch(x, k, p), p[0] == n0, !(k is Simulate), !any_hidden(n0.flags), forall|j: int| 0 <= j < p.len() ==> apre(x, vw((#[trigger] p[j]).interaction), p[j].flags),
        lrank(nverdict(x, k, p.last())) == 4,
    ensures nmacc(x, n0),
{
    let n = p.last();
    thm_ana_nil(vw(n.interaction), nrem(x, n));
    if any_hidden(n.flags) { l_no_hide(x, k, p); }
    l_branch_acc(x, k, p);
}

// ------------------------------------------------------------------ analyses which eliminate the lifelines that are no longer observed
pub open spec fn on1(cs: Seq<ISet<usize>>, e: Ev) -> bool {
    exists|c: int| #[trigger] wfe(cs, c, e)
}
/// each step of the behaviour is on a single co-localization
pub open spec fn one(cs: Seq<ISet<usize>>, u: Tr) -> bool {
    forall|k: int| 0 <= k < u.len() ==> on1(cs, #[trigger] u[k])
}
/// what remains on each canal is the beginning of the projection of u on this canal
pub open spec fn fits(nlf: int, cs: Seq<ISet<usize>>, u: Tr, r: Seq<Tr>) -> bool {
    r.len() == cs.len() && forall|c: int| 0 <= c < r.len() ==> (#[trigger] r[c]).is_prefix_of(pt(u, outc(nlf, cs[c])))
}
/// the local traces are the beginnings of the projections of a common behaviour
pub open spec fn wpre(nlf: int, cs: Seq<ISet<usize>>, i: SI, r: Seq<Tr>) -> bool {
    exists|u: Tr| #[trigger] sem(i, u) && one(cs, u) && fits(nlf, cs, u, r)
}
pub open spec fn nwpre(x: AnalysisContext, n: AnalysisNodeKind) -> bool {
    wpre(x.gen_ctx.lf_names@.len() as int, cvw(x.co_localizations), vw(n.interaction), nrem(x, n))
}
/// hidden canals have been emptied, and their lifelines eliminated
pub open spec fn hidden_ok(x: AnalysisContext, n: AnalysisNodeKind) -> bool {
    forall|c: int| 0 <= c < n.flags.canals@.len() && (#[trigger] n.flags.canals@[c]).no_longer_observed ==> nrem(x, n)[c].len() == 0 && cvw(x.co_localizations)[c].disjoint(inv(vw(n.interaction)))
}
pub proof fn l_pe_on1(nlf: int, cs: Seq<ISet<usize>>, d: int, c: int, e: Ev)
    requires wfe(cs, d, e), disj(cs), 0 <= c < cs.len(), forall|a: TraceAction| #[trigger] e.contains(a) ==> a.lf_id < nlf,
    ensures c == d ==> pe(e, outc(nlf, cs[c])) == e && !isnil(e), c != d ==> isnil(pe(e, outc(nlf, cs[c]))),
{
    let l = outc(nlf, cs[c]);
    assert forall|a: TraceAction| #[trigger] e.contains(a) implies cs[d].contains(a.lf_id) by { assert(lfs(e).contains(a.lf_id)); assert(first_at(cs, a.lf_id, d)); }
    if c == d {
        assert(pe(e, l) =~= e);
        let lf = choose|lf: usize| #[trigger] lfs(e).contains(lf);
        let a = choose|a: TraceAction| #[trigger] e.contains(a) && a.lf_id == lf;
    } else {
        assert forall|a: TraceAction| !#[trigger] pe(e, l).contains(a) by { if e.contains(a) { assert(cs[d].contains(a.lf_id)); } }
    }
}
pub proof fn l_sem_below(x: AnalysisContext, i: SI, u: Tr)
    requires sem(i, u), below(x, i),
    ensures evs_below(u, x.gen_ctx.lf_names@.len() as int), forall|k: int, a: TraceAction| 0 <= k < u.len() && #[trigger] u[k].contains(a) ==> inv(i).contains(a.lf_id),
{
    l_sem_acts(i, u);
    l_acts_inv(i);
    assert forall|k: int, a: TraceAction| 0 <= k < u.len() && #[trigger] u[k].contains(a) implies inv(i).contains(a.lf_id) by { assert(acts(i).contains(a)); }
    assert forall|k: int, a: TraceAction| 0 <= k < u.len() && #[trigger] u[k].contains(a) implies a.lf_id < x.gen_ctx.lf_names@.len() by { assert(inv(i).contains(a.lf_id)); }
}
/// the union of the co-localizations of h
pub open spec fn is_union(cs: Seq<ISet<usize>>, h: ISet<usize>, l: ISet<usize>) -> bool {
    forall|lf: usize| #[trigger] l.contains(lf) <==> exists|k: usize| #[trigger] h.contains(k) && cs[k as int].contains(lf)
}
/// eliminating the lifelines of other canals does not change the projection on c
pub proof fn l_pt_hide(nlf: int, cs: Seq<ISet<usize>>, u: Tr, h: ISet<usize>, l: ISet<usize>, c: int)
    requires one(cs, u), disj(cs), evs_below(u, nlf), 0 <= c < cs.len(), is_union(cs, h, l), forall|k: usize| #[trigger] h.contains(k) ==> k < cs.len(), cs.len() <= usize::MAX,
    ensures one(cs, pt(u, l)), !h.contains(c as usize) ==> pt(pt(u, l), outc(nlf, cs[c])) == pt(u, outc(nlf, cs[c])),
    decreases u.len(),
{
    let m = outc(nlf, cs[c]);
    if u.len() > 0 {
        let e = u[0];
        let v = u.drop_first();
        assert forall|k: int| 0 <= k < v.len() implies on1(cs, #[trigger] v[k]) by { assert(on1(cs, u[k + 1])); }
        assert forall|k: int, a: TraceAction| 0 <= k < v.len() && #[trigger] v[k].contains(a) implies a.lf_id < nlf by { assert(u[k + 1].contains(a)); }
        l_pt_hide(nlf, cs, v, h, l, c);
        assert(on1(cs, e));
        let d = choose|d: int| #[trigger] wfe(cs, d, e);
        let lf0 = choose|lf: usize| #[trigger] lfs(e).contains(lf);
        assert(first_at(cs, lf0, d));
        l_pe_on1(nlf, cs, d, c, e);
        assert forall|a: TraceAction| #[trigger] e.contains(a) implies cs[d].contains(a.lf_id) by { assert(lfs(e).contains(a.lf_id)); assert(first_at(cs, a.lf_id, d)); }
        if h.contains(d as usize) {
            assert(isnil(pe(e, l))) by { assert forall|a: TraceAction| !#[trigger] pe(e, l).contains(a) by { if e.contains(a) { assert(l.contains(a.lf_id)); } } }
        } else {
            assert(pe(e, l) =~= e) by {
                assert forall|a: TraceAction| #[trigger] e.contains(a) implies !l.contains(a.lf_id) by {
                    if l.contains(a.lf_id) { let k = choose|k: usize| #[trigger] h.contains(k) && cs[k as int].contains(a.lf_id); assert(cs[d].contains(a.lf_id)); assert(k == d); }
                }
            }
            l_pe_on1(nlf, cs, d, d, e);
            let w = pt(v, l);
            l_cons(e, w);
            let t = pt(u, l);
            assert(t == cons(e, w));
            assert(t.drop_first() =~= w);
            assert(t[0] == e && t.len() == w.len() + 1);
            assert forall|k: int| 0 <= k < t.len() implies on1(cs, #[trigger] t[k]) by { if k > 0 { assert(on1(cs, w[k - 1])); assert(t[k] == w[k - 1]); } }
        }
    } else {
        assert(pt(u, l) =~= u);
    }
}
/// follow-up of an elimination step
pub proof fn l_wpre_hide(x: AnalysisContext, n: AnalysisNodeKind, s: AnalysisStepKind, n2: AnalysisNodeKind)
    requires apre(x, vw(n.interaction), n.flags), hstep(x, n, s), snext(x, n, s, n2), nosync(vw(n.interaction)), nohf(vw(n.interaction)), below(x, vw(n.interaction)), disj(cvw(x.co_localizations)),
    ensures nwpre(x, n) ==> nwpre(x, n2), hidden_ok(x, n) ==> hidden_ok(x, n2), !some_ended(x, n2), nrem(x, n2) == nrem(x, n),
{
    let cs = cvw(x.co_localizations);
    let nlf = x.gen_ctx.lf_names@.len() as int;
    let i = vw(n.interaction);
    let h = s->EliminateNoLongerObserved_0@;
    let r = nrem(x, n);
    let l = choose|l: ISet<usize>| #[trigger] el(i, l, vw(n2.interaction)) && forall|lf: usize| #[trigger] l.contains(lf) <==> exists|k: usize| #[trigger] h.contains(k) && cs[k as int].contains(lf);
    assert(is_union(cs, h, l));
    assert(n.flags.canals.len() <= usize::MAX);
    assert(cs.len() == n.flags.canals@.len());
    reveal(el); reveal(semeq);
    if nwpre(x, n) {
        let u = choose|u: Tr| #[trigger] sem(i, u) && one(cs, u) && fits(nlf, cs, u, r);
        thm_projection(i, l, u);
        l_sem_below(x, i, u);
        let v = pt(u, l);
        assert(sem(vw(n2.interaction), v));
        assert forall|c: int| 0 <= c < r.len() implies (#[trigger] r[c]).is_prefix_of(pt(v, outc(nlf, cs[c]))) by {
            l_pt_hide(nlf, cs, u, h, l, c);
            if h.contains(c as usize) { assert(ended(x, n, c)); assert(r[c].len() == 0); }
        }
        if cs.len() > 0 { l_pt_hide(nlf, cs, u, h, l, 0); } else {
            if u.len() > 0 { assert(on1(cs, u[0])); let d = choose|d: int| #[trigger] wfe(cs, d, u[0]); let lf0 = choose|lf: usize| #[trigger] lfs(u[0]).contains(lf); assert(first_at(cs, lf0, d)); }
            assert(v =~= Seq::empty());
        }
        assert(nwpre(x, n2));
    }
    if hidden_ok(x, n) {
        assert forall|c: int| 0 <= c < n2.flags.canals@.len() && (#[trigger] n2.flags.canals@[c]).no_longer_observed implies nrem(x, n2)[c].len() == 0 && cs[c].disjoint(inv(vw(n2.interaction))) by {
            if h.contains(c as usize) {
                assert(ended(x, n, c));
                assert(r[c].len() == 0);
                assert forall|lf: usize| cs[c].contains(lf) implies !inv(vw(n2.interaction)).contains(lf) by { assert(h.contains(c as usize)); assert(l.contains(lf)); }
            } else { assert(n.flags.canals@[c].no_longer_observed); }
        }
    }
    if some_ended(x, n2) {
        let c = choose|c: int| 0 <= c < n2.flags.canals@.len() && #[trigger] ended(x, n2, c);
        assert(n2.flags.canals@[c].consumed == n.flags.canals@[c].consumed);
        assert(ended(x, n, c));
        assert(h.contains(c as usize));
    }
}
/// one step of a common behaviour, when every canal which has ended is hidden
pub proof fn l_wpre_step(x: AnalysisContext, n: AnalysisNodeKind, s: Seq<AnalysisStepKind>)
    requires apre(x, vw(n.interaction), n.flags), asteps(vw(n.interaction), nrem(x, n), s), !all_empty(nrem(x, n)), !some_ended(x, n), hidden_ok(x, n),
        below(x, vw(n.interaction)), disj(cvw(x.co_localizations)), nwpre(x, n),
    ensures exists|j: int| 0 <= j < s.len() && wpre_by(x, n, #[trigger] s[j]),
{
    reveal(asteps);
    reveal(dr);
    let cs = cvw(x.co_localizations);
    let nlf = x.gen_ctx.lf_names@.len() as int;
    let i = vw(n.interaction);
    let r = nrem(x, n);
    let f = sposs(s);
    let u = choose|u: Tr| #[trigger] sem(i, u) && one(cs, u) && fits(nlf, cs, u, r);
    l_sem_below(x, i, u);
    if u.len() == 0 {
        assert forall|c: int| 0 <= c < r.len() implies (#[trigger] r[c]).len() == 0 by { assert(r[c].is_prefix_of(pt(u, outc(nlf, cs[c])))); }
        assert(false);
    }
    let e = u[0];
    let v = u.drop_first();
    assert(on1(cs, e));
    let d = choose|d: int| #[trigger] wfe(cs, d, e);
    let lf0 = choose|lf: usize| #[trigger] lfs(e).contains(lf);
    assert(first_at(cs, lf0, d));
    let a0 = choose|a: TraceAction| #[trigger] e.contains(a) && a.lf_id == lf0;
    assert(inv(i).contains(lf0));
    assert(!n.flags.canals@[d].no_longer_observed) by { if n.flags.canals@[d].no_longer_observed { assert(cs[d].disjoint(inv(i))); assert(false); } }
    assert(!ended(x, n, d));
    assert(n.flags.canals@[d].consumed < x.multi_trace@[d]@.len());
    assert(r[d].len() > 0);
    l_pe_on1(nlf, cs, d, d, e);
    l_cons(e, pt(v, outc(nlf, cs[d])));
    assert(pt(u, outc(nlf, cs[d])) == cons(e, pt(v, outc(nlf, cs[d]))));
    assert(r[d][0] == e);
    assert(cons(e, v) =~= u);
    assert(sem(i, cons(r[d][0], v)));
    assert(cv(i, f, r[d][0], v));
    let q = choose|q: SP| #[trigger] f.contains(q) && actp(i, q) == r[d][0] && der(i, q, v);
    let j = choose|j: int| 0 <= j < s.len() && spos(#[trigger] s[j]) == q;
    assert(astepx(i, r, s[j]));
    let c2 = choose|c2: int| #[trigger] astep(i, r, s[j], c2);
    l_hd_uniq(x, n, d, c2, actp(i, q));
    let r2 = adv(r, d);
    assert(one(cs, v)) by { assert forall|k: int| 0 <= k < v.len() implies on1(cs, #[trigger] v[k]) by { assert(on1(cs, u[k + 1])); } }
    assert forall|c: int| 0 <= c < r2.len() implies (#[trigger] r2[c]).is_prefix_of(pt(v, outc(nlf, cs[c]))) by {
        assert(r[c].is_prefix_of(pt(u, outc(nlf, cs[c]))));
        l_pe_on1(nlf, cs, d, c, e);
        if c == d {
            let p = pt(v, outc(nlf, cs[d]));
            assert(cons(e, p).drop_first() =~= p);
            assert(r2[c] =~= p.take(r2[c].len() as int)) by {
                assert forall|h: int| 0 <= h < r2[c].len() implies r2[c][h] == p[h] by { assert(r[d][h + 1] == cons(e, p)[h + 1]); assert(cons(e, p)[h + 1] == p[h]); }
            }
        }
    }
    assert forall|n2: AnalysisNodeKind| #[trigger] snext(x, n, s[j], n2) implies nwpre(x, n2) by {
        assert(sem(vw(n2.interaction), v));
    }
    assert(wpre_by(x, n, s[j]));
}
pub open spec fn wpre_by(x: AnalysisContext, n: AnalysisNodeKind, s: AnalysisStepKind) -> bool {
    forall|n2: AnalysisNodeKind| #[trigger] snext(x, n, s, n2) ==> nwpre(x, n2)
}
/// what is kept along the branches of an analysis with elimination
pub open spec fn elim_ok(x: AnalysisContext, n: AnalysisNodeKind) -> bool {
    nosync(vw(n.interaction)) && nohf(vw(n.interaction)) && below(x, vw(n.interaction)) && hidden_ok(x, n)
}
pub proof fn l_elim_step(x: AnalysisContext, n: AnalysisNodeKind, s: Seq<AnalysisStepKind>, j: int, m: AnalysisNodeKind)
    requires apre(x, vw(n.interaction), n.flags), elim_ok(x, n), steps_ok(x, AnalysisKind::Eliminate, n, s), 0 <= j < s.len(), snext(x, n, s[j], m), disj(cvw(x.co_localizations)),
    ensures elim_ok(x, m),
{
    reveal(asteps);
    let i = vw(n.interaction);
    let r = nrem(x, n);
    if hstep(x, n, s[j]) {
        l_wpre_hide(x, n, s[j], m);
    } else {
        assert(astepx(i, r, s[j]));
        let c2 = choose|c2: int| #[trigger] astep(i, r, s[j], c2);
        assert forall|c: int| 0 <= c < m.flags.canals@.len() && (#[trigger] m.flags.canals@[c]).no_longer_observed implies nrem(x, m)[c].len() == 0 && cvw(x.co_localizations)[c].disjoint(inv(vw(m.interaction))) by {
            assert(n.flags.canals@[c].no_longer_observed);
        }
    }
}
pub proof fn l_branch_elim(x: AnalysisContext, p: Seq<AnalysisNodeKind>)
    requires branch(x, AnalysisKind::Eliminate, p), elim_ok(x, p[0]), disj(cvw(x.co_localizations)), forall|j: int| 0 <= j < p.len() ==> apre(x, vw((#[trigger] p[j]).interaction), p[j].flags),
    ensures elim_ok(x, p.last()),
    decreases p.len(),
{
    let k = AnalysisKind::Eliminate;
    if p.len() > 1 {
        let n = p[p.len() - 2];
        let n2 = p.last();
        assert(n2 == p[p.len() - 2 + 1]);
        assert(nxt(x, k, n, n2));
        let (s, j, m) = choose|s: Seq<AnalysisStepKind>, j: int, m: AnalysisNodeKind| steps_ok(x, k, n, s) && 0 <= j < s.len() && #[trigger] snext(x, n, s[j], m) && sbd(m, n2);
        let q = p.drop_last();
        assert forall|j: int| 0 <= j < q.len() - 1 implies nxt(x, k, #[trigger] q[j], q[j + 1]) by { assert(nxt(x, k, p[j], p[j + 1])); }
        assert forall|j: int| 0 <= j < q.len() implies apre(x, vw((#[trigger] q[j]).interaction), q[j].flags) by { assert(q[j] == p[j]); }
        l_branch_elim(x, q);
        l_elim_step(x, n, s, j, m);
        l_sbd(x, m, n2);
        assert forall|c: int| 0 <= c < n2.flags.canals@.len() && (#[trigger] n2.flags.canals@[c]).no_longer_observed implies nrem(x, n2)[c].len() == 0 && cvw(x.co_localizations)[c].disjoint(inv(vw(n2.interaction))) by {
            assert(dirty1(m.flags.canals@[c], n2.flags.canals@[c]));
            assert(m.flags.canals@[c].no_longer_observed);
        }
    }
}
pub open spec fn b2i(b: bool) -> nat { if b { 1 } else { 0 } }
/// COMPLETENESS for analyses with elimination
pub proof fn l_explored_elim(x: AnalysisContext, n0: AnalysisNodeKind, g: ISet<AnalysisNodeKind>, dead: ISet<AnalysisNodeKind>, n: AnalysisNodeKind)
    requires run(x, AnalysisKind::Eliminate, n0, g, dead), elim_ok(x, n0), disj(cvw(x.co_localizations)), g.contains(n), nwpre(x, n),
        forall|m: AnalysisNodeKind| #[trigger] dead.contains(m) && g.contains(m) ==> !nwpre(x, m),
    ensures exists|m: AnalysisNodeKind| #[trigger] g.contains(m) && all_empty(nrem(x, m)),
    decreases rlen(nrem(x, n)), b2i(some_ended(x, n)),
{
    let k = AnalysisKind::Eliminate;
    let r = nrem(x, n);
    assert(reached(x, k, n0, g, n));
    let p = choose|p: Seq<AnalysisNodeKind>| #[trigger] branch(x, k, p) && p[0] == n0 && p.last() == n && forall|j: int| 0 <= j < p.len() ==> g.contains(#[trigger] p[j]);
    l_branch_elim(x, p);
    assert(expanded(x, k, g, n));
    let s = choose|s: Seq<AnalysisStepKind>| #[trigger] steps_ok(x, k, n, s) && forall|j: int| 0 <= j < s.len() ==> followed(x, g, n, #[trigger] s[j]);
    if !all_empty(r) {
        let j = if some_ended(x, n) { 0int } else {
            l_wpre_step(x, n, s);
            choose|j: int| 0 <= j < s.len() && wpre_by(x, n, #[trigger] s[j])
        };
        assert(followed(x, g, n, s[j]));
        let n2 = choose|n2: AnalysisNodeKind| #[trigger] snext(x, n, s[j], n2) && rep(g, n2);
        let m = choose|m: AnalysisNodeKind| #[trigger] g.contains(m) && stands(n2, m);
        l_incl(x, n2, m);
        if some_ended(x, n) {
            l_wpre_hide(x, n, s[j], n2);
            if some_ended(x, m) {
                let c = choose|c: int| 0 <= c < m.flags.canals@.len() && #[trigger] ended(x, m, c);
                if included(n2, m) { assert(canal_incl(n2.flags.canals@[c], m.flags.canals@[c])); }
                assert(ended(x, n2, c));
            }
        } else { l_step_len(x, n, s, j, n2); }
        assert(nwpre(x, n2));
        assert(nwpre(x, m));
        l_explored_elim(x, n0, g, dead, m);
    }
}
pub proof fn l_local_wpre(x: AnalysisContext, n: AnalysisNodeKind)
    requires apre(x, vw(n.interaction), n.flags), elim_ok(x, n), ldead(x, n),
    ensures !nwpre(x, n),
{
    let cs = cvw(x.co_localizations);
    let nlf = x.gen_ctx.lf_names@.len() as int;
    let i = vw(n.interaction);
    let r = nrem(x, n);
    if nwpre(x, n) {
        let c = choose|c: int| #[trigger] local_dead(nlf, cs, i, r, c);
        let l = outc(nlf, cs[c]);
        let j = choose|j: SI| #[trigger] el(i, l, j) && !mpre(j, Seq::empty().push(r[c]));
        let u = choose|u: Tr| #[trigger] sem(i, u) && one(cs, u) && fits(nlf, cs, u, r);
        thm_projection(i, l, u);
        reveal(el); reveal(semeq);
        assert(sem(j, pt(u, l)));
        assert(r[c].is_prefix_of(pt(u, l)));
        l_shuf1(r[c]);
        assert(mpre(j, Seq::empty().push(r[c])));
    }
}
/// THEOREM: an analysis with elimination never rejects local traces which are the beginnings of the projections of a common behaviour
pub proof fn thm_elim(x: AnalysisContext, n0: AnalysisNodeKind, g: ISet<AnalysisNodeKind>, dead: ISet<AnalysisNodeKind>)
    requires run(x, AnalysisKind::Eliminate, n0, g, dead), elim_ok(x, n0), disj(cvw(x.co_localizations)), nwpre(x, n0),
        forall|m: AnalysisNodeKind| #[trigger] dead.contains(m) && g.contains(m) ==> ldead(x, m),
    ensures exists|m: AnalysisNodeKind| #[trigger] g.contains(m) && lrank(nverdict(x, AnalysisKind::Eliminate, m)) >= (if singles(cvw(x.co_localizations)) { 3int } else { 2 }),
{
    let k = AnalysisKind::Eliminate;
    assert forall|m: AnalysisNodeKind| #[trigger] dead.contains(m) && g.contains(m) implies !nwpre(x, m) by {
        assert(reached(x, k, n0, g, m));
        let p = choose|p: Seq<AnalysisNodeKind>| #[trigger] branch(x, k, p) && p[0] == n0 && p.last() == m && forall|j: int| 0 <= j < p.len() ==> g.contains(#[trigger] p[j]);
        l_branch_elim(x, p);
        l_local_wpre(x, m);
    }
    l_explored_elim(x, n0, g, dead, n0);
    let m = choose|m: AnalysisNodeKind| #[trigger] g.contains(m) && all_empty(nrem(x, m));
    assert(lrank(nverdict(x, k, m)) >= (if singles(cvw(x.co_localizations)) { 3int } else { 2 }));
}
