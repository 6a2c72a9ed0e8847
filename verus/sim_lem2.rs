// ------------------------------------------------------------------ one simulation step
pub open spec fn sx(x: AnalysisContext) -> Seq<ISet<usize>> { cvw(x.co_localizations) }
pub open spec fn sim1(a: TraceAnalysisFlags, b: TraceAnalysisFlags, consumed: bool, before: bool, after: bool) -> bool {
    &&& b.consumed == a.consumed + if consumed { 1int } else { 0 }
    &&& b.simulated_before == a.simulated_before + if before { 1int } else { 0 }
    &&& b.simulated_after == a.simulated_after + if after { 1int } else { 0 }
    &&& b.no_longer_observed == a.no_longer_observed
}
pub open spec fn simat(f: MultiTraceAnalysisFlags, g: MultiTraceAnalysisFlags, consu: ISet<usize>, sim: IMap<usize, SimulationStepKind>, c: int) -> bool {
    sim1(f.canals@[c], g.canals@[c], consu.contains(c as usize), sim.contains_key(c as usize) && sim[c as usize] is BeforeStart, sim.contains_key(c as usize) && sim[c as usize] is AfterEnd)
}
pub open spec fn simadv(f: MultiTraceAnalysisFlags, g: MultiTraceAnalysisFlags, consu: ISet<usize>, sim: IMap<usize, SimulationStepKind>) -> bool {
    g.canals@.len() == f.canals@.len() && forall|c: int| 0 <= c < f.canals@.len() ==> #[trigger] simat(f, g, consu, sim, c)
}
/// the length recorded at the beginning is that of the multi-trace
pub open spec fn sctx(x: AnalysisContext) -> bool { x.init_multitrace_length == mlen(x.multi_trace, x.multi_trace@.len() as int) }
/// what may follow the action at p is not too big for the counters
pub open spec fn fits32(i: SI, p: SP) -> bool { forall|j: SI| conf(j) && #[trigger] dr(i, p, j) ==> small(j) }
/// a step collected at n
pub open spec fn sdone(x: AnalysisContext, k: SimulationConfiguration, n: AnalysisNodeKind, s: AnalysisStepKind) -> bool {
    sstep(sx(x), k, vw(n.interaction), n.flags, rem(x.multi_trace, n.flags), s)
}
/// the node reached by a step
pub open spec fn ssnext(x: AnalysisContext, k: SimulationConfiguration, n: AnalysisNodeKind, s: AnalysisStepKind, n2: AnalysisNodeKind) -> bool {
    let i = vw(n.interaction);
    &&& apre(x, vw(n2.interaction), n2.flags)
    &&& n2.ana_loop_depth == n.ana_loop_depth + sdepth(s)
    &&& inv(vw(n2.interaction)).subset_of(inv(i))
    &&& (nosync(i) ==> nosync(vw(n2.interaction)))
    &&& dr(i, spos(s), vw(n2.interaction))
    &&& simadv(n.flags, n2.flags, s->Execute_1@, s->Execute_2@)
    &&& lims(k, n.flags, s->Execute_1@.len(), sdepth(s), x.init_multitrace_length, vw(n2.interaction), n2.flags)
}
/// the canals of h below n
pub open spec fn cut(h: ISet<usize>, n: int) -> ISet<usize> { h.intersect(ISet::new(|c: usize| c < n)) }
pub proof fn l_cut(m: MultiTrace, f: MultiTraceAnalysisFlags, h: ISet<usize>, n: int)
    requires 0 <= n <= m@.len(), wff(m, f), forall|c: usize| #[trigger] h.contains(c) && c < m@.len() ==> f.canals@[c as int].consumed < m@[c as int]@.len(), m@.len() <= usize::MAX,
    ensures cut(h, n).finite(), fsum(f.canals@, n) + cut(h, n).len() <= mlen(m, n),
    decreases n,
{
    if n == 0 { assert(cut(h, 0) =~= ISet::empty()); } else {
        l_cut(m, f, h, n - 1);
        let c = (n - 1) as usize;
        assert(f.canals@[n - 1].consumed <= m@[n - 1]@.len());
        assert(!cut(h, n - 1).contains(c));
        if h.contains(c) { assert(cut(h, n) =~= cut(h, n - 1).insert(c)); }
        else { assert(cut(h, n) =~= cut(h, n - 1)); }
    }
}
/// what is consumed by a step has not been consumed before
pub proof fn l_room(x: AnalysisContext, k: SimulationConfiguration, n: AnalysisNodeKind, s: AnalysisStepKind)
    requires npre(x, n), sdone(x, k, n, s), sctx(x), x.multi_trace@.len() <= usize::MAX,
    ensures fsum(n.flags.canals@, n.flags.canals@.len() as int) + s->Execute_1@.len() <= x.init_multitrace_length,
        forall|c: usize| #[trigger] s->Execute_1@.contains(c) ==> c < x.multi_trace@.len() && n.flags.canals@[c as int].consumed < x.multi_trace@[c as int]@.len(),
{
    let m = x.multi_trace;
    let f = n.flags;
    let h = s->Execute_1@;
    let r = rem(m, f);
    assert forall|c: usize| #[trigger] h.contains(c) implies c < m@.len() && f.canals@[c as int].consumed < m@[c as int]@.len() by {
        assert(!s->Execute_2@.dom().contains(c));
        assert(mt(sx(x), r, s->Execute_0.target_actions@, c as int));
        assert(r[c as int].len() == m@[c as int]@.len() - f.canals@[c as int].consumed);
    }
    l_cut(m, f, h, m@.len() as int);
    assert(cut(h, m@.len() as int) =~= h);
}
pub proof fn l_ssnext(x: AnalysisContext, k: SimulationConfiguration, n: AnalysisNodeKind, s: AnalysisStepKind, n2: AnalysisNodeKind, a: ISet<usize>)
    requires npre(x, n), sdone(x, k, n, s), sctx(x), n.flags.canals@.len() <= usize::MAX,
        dr(vw(n.interaction), spos(s), vw(n2.interaction)), conf(vw(n2.interaction)), ivs(vw(n.interaction), vw(n2.interaction)),
        n2.ana_loop_depth == n.ana_loop_depth + sdepth(s),
        exec_all(n.flags, s->Execute_1@, s->Execute_2@, a, n2.flags), lims(k, n.flags, s->Execute_1@.len(), sdepth(s), x.init_multitrace_length, vw(n2.interaction), n2.flags),
    ensures ssnext(x, k, n, s, n2),
{
    reveal(ivs);
    l_room(x, k, n, s);
    let f = n.flags;
    let g = n2.flags;
    assert forall|c: int| 0 <= c < f.canals@.len() implies #[trigger] simat(f, g, s->Execute_1@, s->Execute_2@, c) by {
        assert(counter1(f.canals@[c]));
        assert(g.canals@[c] == exec_upd(f.canals@[c], s->Execute_1@.contains(c as usize), s->Execute_2@.contains_key(c as usize), s->Execute_2@[c as usize], a.contains(c as usize)));
    }
    assert forall|c: int| 0 <= c < x.multi_trace@.len() implies (#[trigger] g.canals@[c]).consumed <= x.multi_trace@[c]@.len() by {
        assert(simat(f, g, s->Execute_1@, s->Execute_2@, c));
        assert(f.canals@[c].consumed <= x.multi_trace@[c]@.len());
    }
}
pub open spec fn simsteps(x: AnalysisContext, k: SimulationConfiguration, n: AnalysisNodeKind, s: Seq<AnalysisStepKind>) -> bool {
    if all_empty(nrem(x, n)) { s.len() == 0 } else { ssteps(sx(x), k, vw(n.interaction), n.flags, nrem(x, n), s) }
}
// ------------------------------------------------------------------ what the verdicts of a simulation mean
/// what is observed of w on canal c
pub open spec fn cpr(cs: Seq<ISet<usize>>, w: Tr, c: int) -> Tr
    decreases w.len(),
{
    if w.len() == 0 { Seq::empty() } else if tch(cs, w[0], c) { cons(ep(cs, w[0], c), cpr(cs, w.drop_first(), c)) } else { cpr(cs, w.drop_first(), c) }
}
/// v is w without its b first and a last elements
pub open spec fn within(v: Tr, w: Tr, b: int, a: int) -> bool {
    0 <= b && 0 <= a && w.len() == b + v.len() + a && forall|j: int| 0 <= j < v.len() ==> #[trigger] v[j] == w[b + j]
}
/// w explains what remains to be observed on canal c, with b unobserved steps before and a after
pub open spec fn expl1(cs: Seq<ISet<usize>>, sb: bool, f: MultiTraceAnalysisFlags, r: Seq<Tr>, w: Tr, c: int, b: int, a: int) -> bool {
    within(r[c], cpr(cs, w, c), b, a) && (b > 0 ==> sb && f.canals@[c].consumed == 0 && r[c].len() > 0)
}
pub proof fn l_cpr_cons(cs: Seq<ISet<usize>>, e: Ev, w: Tr, c: int)
    ensures cpr(cs, cons(e, w), c) == if tch(cs, e, c) { cons(ep(cs, e, c), cpr(cs, w, c)) } else { cpr(cs, w, c) },
{
    l_cons(e, w);
    assert(cons(e, w).drop_first() =~= w);
}
/// what remains on a canal after a step
pub proof fn l_rem_step(x: AnalysisContext, k: SimulationConfiguration, n: AnalysisNodeKind, s: AnalysisStepKind, n2: AnalysisNodeKind, c: int)
    requires apre(x, vw(n.interaction), n.flags), sdone(x, k, n, s), ssnext(x, k, n, s, n2), 0 <= c < x.multi_trace@.len() <= usize::MAX,
    ensures ({
        let e = actp(vw(n.interaction), spos(s));
        let r = nrem(x, n);
        let r2 = nrem(x, n2);
        let f = n.flags.canals@[c];
        let g = n2.flags.canals@[c];
        if !tch(sx(x), e, c) { r2[c] == r[c] && g.consumed == f.consumed && g.simulated_before == f.simulated_before && g.simulated_after == f.simulated_after }
        else if !s->Execute_2@.contains_key(c as usize) { hd(r, c, ep(sx(x), e, c)) && r2[c] == r[c].drop_first() && g.consumed == f.consumed + 1 && g.simulated_before == f.simulated_before && g.simulated_after == f.simulated_after }
        else if r[c].len() == 0 { r2[c] == r[c] && g.consumed == f.consumed && g.simulated_before == f.simulated_before && g.simulated_after == f.simulated_after + 1 }
        else { k.sim_before && f.consumed == 0 && r2[c] == r[c] && g.consumed == f.consumed && g.simulated_before == f.simulated_before + 1 && g.simulated_after == f.simulated_after }
    }),
{
    let cs = sx(x);
    let e = s->Execute_0.target_actions@;
    let r = nrem(x, n);
    let r2 = nrem(x, n2);
    let cc = c as usize;
    assert(simat(n.flags, n2.flags, s->Execute_1@, s->Execute_2@, c));
    assert(s->Execute_2@.dom().contains(cc) == s->Execute_2@.contains_key(cc));
    assert(s->Execute_1@.contains(cc) <==> tch(cs, e, cc as int) && !s->Execute_2@.contains_key(cc));
    assert(n.flags.canals@[c].consumed <= x.multi_trace@[c]@.len());
    assert(n2.flags.canals@[c].consumed <= x.multi_trace@[c]@.len());
    if tch(cs, e, c) && !s->Execute_2@.contains_key(cc) {
        assert(mt(cs, r, e, cc as int));
        assert(r2[c] =~= r[c].drop_first());
    } else {
        assert(r2[c] =~= r[c]);
        if s->Execute_2@.contains_key(cc) { assert(s->Execute_2@[cc] == simkind(r, c)); assert(unb(k.sim_before, n.flags, r, cc as int)); }
    }
}
/// node n2 is reached from n by one collected step (local analyses do not concern simulations)
pub open spec fn snxt(x: AnalysisContext, k: SimulationConfiguration, n: AnalysisNodeKind, n2: AnalysisNodeKind) -> bool {
    exists|s: Seq<AnalysisStepKind>, j: int| simsteps(x, k, n, s) && 0 <= j < s.len() && #[trigger] ssnext(x, k, n, s[j], n2)
}
pub open spec fn sbranch(x: AnalysisContext, k: SimulationConfiguration, p: Seq<AnalysisNodeKind>) -> bool {
    p.len() > 0 && (forall|j: int| 0 <= j < p.len() - 1 ==> snxt(x, k, #[trigger] p[j], p[j + 1])) && forall|j: int| 0 <= j < p.len() ==> apre(x, vw((#[trigger] p[j]).interaction), p[j].flags)
}
/// t leads from i to j
pub open spec fn leads(i: SI, t: Tr, j: SI) -> bool { forall|u: Tr| #[trigger] sem(j, u) ==> sem(i, t + u) }
pub open spec fn explb(x: AnalysisContext, k: SimulationConfiguration, n: AnalysisNodeKind, l: AnalysisNodeKind, t: Tr, c: int) -> bool {
    expl1(sx(x), k.sim_before, n.flags, nrem(x, n), t, c, l.flags.canals@[c].simulated_before - n.flags.canals@[c].simulated_before, l.flags.canals@[c].simulated_after - n.flags.canals@[c].simulated_after)
}
/// the explanation of a canal, one step earlier
pub proof fn l_explb_step(x: AnalysisContext, k: SimulationConfiguration, n: AnalysisNodeKind, s: AnalysisStepKind, n2: AnalysisNodeKind, l: AnalysisNodeKind, t2: Tr, c: int)
    requires apre(x, vw(n.interaction), n.flags), sdone(x, k, n, s), ssnext(x, k, n, s, n2), explb(x, k, n2, l, t2, c), 0 <= c < x.multi_trace@.len() <= usize::MAX,
    ensures explb(x, k, n, l, cons(actp(vw(n.interaction), spos(s)), t2), c),
{
    let e = actp(vw(n.interaction), spos(s));
    let t = cons(e, t2);
    l_rem_step(x, k, n, s, n2, c);
    l_cpr_cons(sx(x), e, t2, c);
    let r = nrem(x, n)[c];
    let r2 = nrem(x, n2)[c];
    let w = cpr(sx(x), t, c);
    let w2 = cpr(sx(x), t2, c);
    let b = l.flags.canals@[c].simulated_before - n.flags.canals@[c].simulated_before;
    let b2 = l.flags.canals@[c].simulated_before - n2.flags.canals@[c].simulated_before;
    if tch(sx(x), e, c) {
        l_cons(ep(sx(x), e, c), w2);
        assert forall|j: int| 0 <= j < r.len() implies #[trigger] r[j] == w[b + j] by {
            if !s->Execute_2@.contains_key(c as usize) {
                assert(b2 == 0);
                if j > 0 { assert(r2[j - 1] == r[j]); assert(r2[j - 1] == w2[b2 + (j - 1)]); assert(w.drop_first()[j - 1] == w[j]); }
            } else {
                assert(r2[j] == w2[b2 + j]);
                assert(w.drop_first()[b2 + j] == w[b + j]);
            }
        }
    }
}
/// what a step leads to
pub proof fn l_leads_step(i: SI, pp: SP, i2: SI, t2: Tr, l: SI)
    requires valid(i, pp), dr(i, pp, i2), leads(i2, t2, l),
    ensures leads(i, cons(actp(i, pp), t2), l),
{
    let e = actp(i, pp);
    let t = cons(e, t2);
    assert forall|u: Tr| #[trigger] sem(l, u) implies sem(i, t + u) by {
        reveal(dr);
        assert(sem(i2, t2 + u));
        assert(der(i, pp, t2 + u));
        l_step_sound(i, pp, t2 + u);
        l_cons(e, t2);
        l_cons(e, t2 + u);
        assert(t + u =~= cons(e, t2 + u));
    }
}
/// SOUNDNESS: a branch whose last node has nothing left to explain
pub proof fn l_sbranch(x: AnalysisContext, k: SimulationConfiguration, p: Seq<AnalysisNodeKind>) -> (t: Tr)
    requires sbranch(x, k, p), all_empty(nrem(x, p.last())), x.multi_trace@.len() <= usize::MAX,
    ensures leads(vw(p[0].interaction), t, vw(p.last().interaction)), forall|c: int| 0 <= c < x.multi_trace@.len() ==> #[trigger] explb(x, k, p[0], p.last(), t, c),
        nosync(vw(p[0].interaction)) ==> nosync(vw(p.last().interaction)),
    decreases p.len(),
{
    if p.len() == 1 {
        let t = Seq::<Ev>::empty();
        assert forall|u: Tr| #[trigger] sem(vw(p.last().interaction), u) implies sem(vw(p[0].interaction), t + u) by { assert(t + u =~= u); }
        assert forall|c: int| 0 <= c < x.multi_trace@.len() implies #[trigger] explb(x, k, p[0], p.last(), t, c) by { assert(nrem(x, p.last())[c].len() == 0); }
        t
    } else {
        let q = p.drop_first();
        let n = p[0];
        let n2 = q[0];
        let l = p.last();
        assert(q.last() == l);
        assert forall|j: int| 0 <= j < q.len() - 1 implies snxt(x, k, #[trigger] q[j], q[j + 1]) by { assert(snxt(x, k, p[j + 1], p[j + 1 + 1])); }
        assert forall|j: int| 0 <= j < q.len() implies apre(x, vw((#[trigger] q[j]).interaction), q[j].flags) by { assert(q[j] == p[j + 1]); }
        let t2 = l_sbranch(x, k, q);
        assert(snxt(x, k, p[0int], p[0int + 1]));
        let (ss, j) = choose|s: Seq<AnalysisStepKind>, j: int| simsteps(x, k, n, s) && 0 <= j < s.len() && #[trigger] ssnext(x, k, n, s[j], n2);
        let s = ss[j];
        reveal(ssteps);
        assert(sdone(x, k, n, s));
        let i = vw(n.interaction);
        let pp = spos(s);
        let e = actp(i, pp);
        let t = cons(e, t2);
        l_leads_step(i, pp, vw(n2.interaction), t2, vw(l.interaction));
        assert forall|c: int| 0 <= c < x.multi_trace@.len() implies #[trigger] explb(x, k, n, l, t, c) by {
            assert(explb(x, k, n2, l, t2, c));
            l_explb_step(x, k, n, s, n2, l, t2, c);
        }
        t
    }
}
/// some step of w is on canal c
pub open spec fn heard(cs: Seq<ISet<usize>>, e: Ev) -> bool { exists|c: int| 0 <= c < cs.len() && #[trigger] tch(cs, e, c) }
pub open spec fn allheard(cs: Seq<ISet<usize>>, w: Tr) -> bool { forall|j: int| 0 <= j < w.len() ==> heard(cs, #[trigger] w[j]) }
pub open spec fn is_exact(cs: Seq<ISet<usize>>, w: Tr, r: Seq<Tr>) -> bool { forall|c: int| 0 <= c < r.len() ==> #[trigger] cpr(cs, w, c) == r[c] }
pub open spec fn is_pre(cs: Seq<ISet<usize>>, w: Tr, r: Seq<Tr>) -> bool { forall|c: int| 0 <= c < r.len() ==> r[c].is_prefix_of(#[trigger] cpr(cs, w, c)) }
pub open spec fn slice1(v: Tr, w: Tr) -> bool { exists|b: int, a: int| #[trigger] within(v, w, b, a) }
pub open spec fn is_slice(cs: Seq<ISet<usize>>, w: Tr, r: Seq<Tr>) -> bool { forall|c: int| 0 <= c < r.len() ==> slice1(r[c], #[trigger] cpr(cs, w, c)) }
/// the canals are what is observed of some accepted trace
pub open spec fn sacc(cs: Seq<ISet<usize>>, i: SI, r: Seq<Tr>) -> bool { exists|w: Tr| #[trigger] sem(i, w) && is_exact(cs, w, r) }
/// the canals are prefixes of what is observed of some accepted trace
pub open spec fn spre(cs: Seq<ISet<usize>>, i: SI, r: Seq<Tr>) -> bool { exists|w: Tr| #[trigger] sem(i, w) && is_pre(cs, w, r) }
/// the canals are slices of what is observed of some accepted trace
pub open spec fn sslice(cs: Seq<ISet<usize>>, i: SI, r: Seq<Tr>) -> bool { exists|w: Tr| #[trigger] sem(i, w) && is_slice(cs, w, r) }
pub proof fn l_cpr_add(cs: Seq<ISet<usize>>, t: Tr, u: Tr, c: int)
    ensures cpr(cs, t + u, c) == cpr(cs, t, c) + cpr(cs, u, c),
    decreases t.len(),
{
    if t.len() == 0 { assert(t + u =~= u); assert(cpr(cs, t, c) + cpr(cs, u, c) =~= cpr(cs, u, c)); }
    else {
        l_cpr_add(cs, t.drop_first(), u, c);
        assert((t + u).drop_first() =~= t.drop_first() + u);
        assert((t + u)[0] == t[0]);
        if tch(cs, t[0], c) {
            let e = ep(cs, t[0], c);
            l_cons(e, cpr(cs, t.drop_first(), c));
            l_cons(e, cpr(cs, t.drop_first(), c) + cpr(cs, u, c));
            assert(cons(e, cpr(cs, t.drop_first(), c) + cpr(cs, u, c)) =~= cons(e, cpr(cs, t.drop_first(), c)) + cpr(cs, u, c));
        }
    }
}
pub open spec fn unsim(f: MultiTraceAnalysisFlags) -> bool { forall|c: int| 0 <= c < f.canals@.len() ==> (#[trigger] f.canals@[c]).simulated_before == 0 && f.canals@[c].simulated_after == 0 }
/// the nodes of a run: each is reached from the root, each is expanded, or another node stands for it
pub open spec fn sfollowed(x: AnalysisContext, k: SimulationConfiguration, g: ISet<AnalysisNodeKind>, n: AnalysisNodeKind, s: AnalysisStepKind) -> bool {
    exists|n2: AnalysisNodeKind| #[trigger] ssnext(x, k, n, s, n2) && rep(g, n2)
}
pub open spec fn sexpanded(x: AnalysisContext, k: SimulationConfiguration, g: ISet<AnalysisNodeKind>, n: AnalysisNodeKind) -> bool {
    exists|s: Seq<AnalysisStepKind>| #[trigger] simsteps(x, k, n, s) && forall|j: int| 0 <= j < s.len() ==> sfollowed(x, k, g, n, #[trigger] s[j])
}
pub open spec fn sreached(x: AnalysisContext, k: SimulationConfiguration, n0: AnalysisNodeKind, n: AnalysisNodeKind) -> bool {
    exists|p: Seq<AnalysisNodeKind>| #[trigger] sbranch(x, k, p) && p[0] == n0 && p.last() == n
}
pub open spec fn srun(x: AnalysisContext, k: SimulationConfiguration, n0: AnalysisNodeKind, g: ISet<AnalysisNodeKind>) -> bool {
    &&& g.contains(n0) && x.multi_trace@.len() <= usize::MAX
    &&& forall|n: AnalysisNodeKind| #[trigger] g.contains(n) ==> apre(x, vw(n.interaction), n.flags) && sreached(x, k, n0, n)
}
pub open spec fn sfullrun(x: AnalysisContext, k: SimulationConfiguration, n0: AnalysisNodeKind, g: ISet<AnalysisNodeKind>) -> bool {
    srun(x, k, n0, g) && forall|n: AnalysisNodeKind| #[trigger] g.contains(n) ==> sexpanded(x, k, g, n)
}
pub open spec fn sverdict(x: AnalysisContext, k: SimulationConfiguration, n: AnalysisNodeKind) -> AnalysisLocalVerdict { nverdict(x, AnalysisKind::Simulate(k), n) }
/// THEOREM: in whatever order the nodes are explored, however many of them, whatever the limits:
/// Cov: the multi-trace is accepted; TooShort, MultiPref: it is a multi-prefix of an accepted one; Slice: it is a multi-slice of an accepted one
pub proof fn thm_sim_sound(x: AnalysisContext, k: SimulationConfiguration, n0: AnalysisNodeKind, g: ISet<AnalysisNodeKind>, n: AnalysisNodeKind)
    requires srun(x, k, n0, g), unsim(n0.flags), g.contains(n),
    ensures ({
        let v = sverdict(x, k, n);
        let cs = sx(x);
        let i = vw(n0.interaction);
        let r = nrem(x, n0);
        &&& v is Cov ==> sacc(cs, i, r)
        &&& (v is TooShort || v is MultiPref) && nosync(i) ==> spre(cs, i, r)
        &&& v is Slice && nosync(i) ==> sslice(cs, i, r)
        &&& v is Slice ==> k.sim_before
        &&& v is Cov || v is TooShort || v is MultiPref || v is Slice || v is OutSim
    }),
{
    let v = sverdict(x, k, n);
    let cs = sx(x);
    let i = vw(n0.interaction);
    let r = nrem(x, n0);
    if all_empty(nrem(x, n)) {
        assert(sreached(x, k, n0, n));
        let p = choose|p: Seq<AnalysisNodeKind>| #[trigger] sbranch(x, k, p) && p[0] == n0 && p.last() == n;
        let t = l_sbranch(x, k, p);
        let j = vw(n.interaction);
        let nul = nullable(j);
        let f = n.flags;
        if nul || nosync(i) {
            l_sem_nil(j);
            let u = if nul { Seq::<Ev>::empty() } else { l_live(j) };
            assert(sem(j, u));
            let w = t + u;
            assert(sem(i, w));
            assert forall|c: int| 0 <= c < r.len() implies slice1(r[c], #[trigger] cpr(cs, w, c)) && (f.canals@[c].simulated_before == 0 ==> r[c].is_prefix_of(cpr(cs, w, c)))
                && (f.canals@[c].simulated_before == 0 && f.canals@[c].simulated_after == 0 && nul ==> cpr(cs, w, c) == r[c]) by {
                assert(explb(x, k, n0, n, t, c));
                l_cpr_add(cs, t, u, c);
                let b = f.canals@[c].simulated_before as int;
                let a = f.canals@[c].simulated_after as int;
                assert(n0.flags.canals@[c].simulated_before == 0 && n0.flags.canals@[c].simulated_after == 0);
                let y = cpr(cs, t, c);
                let z = cpr(cs, w, c);
                assert(z == y + cpr(cs, u, c));
                assert(within(r[c], y, b, a));
                assert forall|q: int| 0 <= q < r[c].len() implies #[trigger] r[c][q] == z[b + q] by { assert(r[c][q] == y[b + q]); assert(z[b + q] == y[b + q]); }
                assert(within(r[c], z, b, a + cpr(cs, u, c).len()));
                if b == 0 {
                    assert(r[c] =~= z.take(r[c].len() as int)) by {
                        assert forall|q: int| 0 <= q < r[c].len() implies r[c][q] == z[q] by { assert(r[c][q] == z[b + q]); }
                    }
                    assert(r[c].is_prefix_of(z));
                    if a == 0 && nul { assert(cpr(cs, u, c).len() == 0); assert(z =~= r[c]); }
                }
            }
            assert(is_slice(cs, w, r));
            if !(v is Slice) {
                assert(is_pre(cs, w, r)) by {
                    assert forall|c: int| 0 <= c < r.len() implies r[c].is_prefix_of(#[trigger] cpr(cs, w, c)) by { assert(f.canals@[c].simulated_before == 0); }
                }
            }
            if v is Cov { assert forall|c: int| 0 <= c < r.len() implies #[trigger] cpr(cs, w, c) == r[c] by { assert(f.canals@[c].simulated_before == 0 && f.canals@[c].simulated_after == 0); } assert(is_exact(cs, w, r)); }
        }
        if v is Slice {
            let c = choose|c: int| 0 <= c < f.canals@.len() && (#[trigger] f.canals@[c]).simulated_before > 0;
            assert(explb(x, k, n0, n, t, c));
            assert(n0.flags.canals@[c].simulated_before == 0);
        }
    }
}
/// every immediately executable action which starts w is proposed with every allowed choice
pub proof fn l_proposed(x: AnalysisContext, k: SimulationConfiguration, n: AnalysisNodeKind, s: Seq<AnalysisStepKind>, w: Tr, z: ISet<usize>) -> (j: int)
    requires apre(x, vw(n.interaction), n.flags), simsteps(x, k, n, s), !all_empty(nrem(x, n)), sem(vw(n.interaction), w), w.len() > 0,
        forall|d: u32| #[trigger] asg(sx(x), k, n.flags, nrem(x, n), w[0], d, z),
    ensures 0 <= j < s.len(), sdone(x, k, n, s[j]), s[j]->Execute_2@.dom() == z, actp(vw(n.interaction), spos(s[j])) == w[0], der(vw(n.interaction), spos(s[j]), w.drop_first()),
{
    reveal(ssteps);
    reveal(covers);
    let i = vw(n.interaction);
    let p = l_step_complete(i, w);
    let fs = choose|fs: Seq<FrontierElement>| #[trigger] sfull(sx(x), k, i, n.flags, nrem(x, n), s, fs);
    assert(cv(i, fset(fs), actp(i, p), w.drop_first()));
    let q = choose|q: SP| #[trigger] fset(fs).contains(q) && actp(i, q) == actp(i, p) && der(i, q, w.drop_first());
    let h = choose|h: int| 0 <= h < fs.len() && pv((#[trigger] fs[h]).position) == q;
    assert(fe(i, 0, fs[h]));
    assert(all_asg(sx(x), k, n.flags, nrem(x, n), fs[h], s));
    assert(asg(sx(x), k, n.flags, nrem(x, n), fs[h].target_actions@, fs[h].max_loop_depth, z));
    assert(has(s, q, z));
    let j = choose|j: int| 0 <= j < s.len() && has1(#[trigger] s[j], q, z);
    assert(sstep(sx(x), k, i, n.flags, nrem(x, n), s[j]));
    j
}

/// memoization keeps what has been simulated
pub proof fn l_sincl(x: AnalysisContext, n: AnalysisNodeKind, m: AnalysisNodeKind)
    requires stands(n, m), apre(x, vw(n.interaction), n.flags), apre(x, vw(m.interaction), m.flags),
    ensures vw(n.interaction) == vw(m.interaction), nrem(x, n) =~= nrem(x, m), unsim(n.flags) ==> unsim(m.flags),
        forall|c: int| 0 <= c < x.multi_trace@.len() ==> (#[trigger] m.flags.canals@[c]).consumed == n.flags.canals@[c].consumed,
{
    l_incl(x, n, m);
    assert forall|c: int| 0 <= c < x.multi_trace@.len() implies (#[trigger] m.flags.canals@[c]).consumed == n.flags.canals@[c].consumed && (unsim(n.flags) ==> m.flags.canals@[c].simulated_before == 0 && m.flags.canals@[c].simulated_after == 0) by {
        if m != n { assert(canal_incl(n.flags.canals@[c], m.flags.canals@[c])); }
        if unsim(n.flags) { assert(n.flags.canals@[c].simulated_before == 0 && n.flags.canals@[c].simulated_after == 0); }
    }
}
/// THEOREM (Pass is complete): whatever the limits, a complete exploration from an accepted multi-trace finds the verdict Cov
pub proof fn thm_sim_pass(x: AnalysisContext, k: SimulationConfiguration, n0: AnalysisNodeKind, g: ISet<AnalysisNodeKind>, n: AnalysisNodeKind, w: Tr)
    requires sfullrun(x, k, n0, g), g.contains(n), unsim(n.flags), sem(vw(n.interaction), w), is_exact(sx(x), w, nrem(x, n)), allheard(sx(x), w),
    ensures exists|m: AnalysisNodeKind| #[trigger] g.contains(m) && sverdict(x, k, m) is Cov,
    decreases w.len(),
{
    let i = vw(n.interaction);
    let cs = sx(x);
    let r = nrem(x, n);
    if w.len() == 0 {
        assert(w =~= Seq::empty());
        l_sem_nil(i);
        assert forall|c: int| 0 <= c < r.len() implies (#[trigger] r[c]).len() == 0 by { assert(cpr(cs, w, c).len() == 0); }
        assert(all_empty(r));
        assert(sverdict(x, k, n) is Cov);
    } else {
        let e = w[0];
        assert(heard(cs, w[0]));
        let c0 = choose|c: int| 0 <= c < cs.len() && #[trigger] tch(cs, e, c);
        l_cons(ep(cs, e, c0), cpr(cs, w.drop_first(), c0));
        assert(cpr(cs, w, c0) == r[c0]);
        assert(r[c0].len() > 0);
        let z = ISet::<usize>::empty();
        assert forall|d: u32| #[trigger] asg(cs, k, n.flags, r, e, d, z) by {
            assert forall|c: usize| tch(cs, e, c as int) && !(#[trigger] z.contains(c)) implies mt(cs, r, e, c as int) by {
                l_tch_in(cs, e, c as int);
                l_cons(ep(cs, e, c as int), cpr(cs, w.drop_first(), c as int));
                assert(cpr(cs, w, c as int) == r[c as int]);
            }
        }
        assert(sexpanded(x, k, g, n));
        let s = choose|s: Seq<AnalysisStepKind>| #[trigger] simsteps(x, k, n, s) && forall|j: int| 0 <= j < s.len() ==> sfollowed(x, k, g, n, #[trigger] s[j]);
        let j = l_proposed(x, k, n, s, w, z);
        assert(sfollowed(x, k, g, n, s[j]));
        let n2 = choose|n2: AnalysisNodeKind| #[trigger] ssnext(x, k, n, s[j], n2) && rep(g, n2);
        let m = choose|m: AnalysisNodeKind| #[trigger] g.contains(m) && stands(n2, m);
        l_sincl(x, n2, m);
        reveal(dr);
        let w2 = w.drop_first();
        assert(sem(vw(n2.interaction), w2));
        assert forall|c: int| 0 <= c < n2.flags.canals@.len() implies (#[trigger] n2.flags.canals@[c]).simulated_before == 0 && n2.flags.canals@[c].simulated_after == 0 by {
            l_rem_step(x, k, n, s[j], n2, c);
            assert(n.flags.canals@[c].simulated_before == 0);
            assert(!z.contains(c as usize));
            assert(s[j]->Execute_2@.dom().contains(c as usize) == s[j]->Execute_2@.contains_key(c as usize));
        }
        assert(unsim(n2.flags));
        assert forall|c: int| 0 <= c < nrem(x, m).len() implies #[trigger] cpr(cs, w2, c) == nrem(x, m)[c] by {
            l_rem_step(x, k, n, s[j], n2, c);
            assert(!z.contains(c as usize));
            assert(s[j]->Execute_2@.dom().contains(c as usize) == s[j]->Execute_2@.contains_key(c as usize));
            assert(cpr(cs, w, c) == r[c]);
            l_cons(ep(cs, e, c), cpr(cs, w2, c));
            if tch(cs, e, c) { assert(cons(ep(cs, e, c), cpr(cs, w2, c)).drop_first() =~= cpr(cs, w2, c)); }
        }
        assert forall|j: int| 0 <= j < w2.len() implies heard(cs, #[trigger] w2[j]) by { assert(heard(cs, w[j + 1])); }
        thm_sim_pass(x, k, n0, g, m, w2);
    }
}
pub proof fn l_tch_in(cs: Seq<ISet<usize>>, e: Ev, c: int)
    requires tch(cs, e, c),
    ensures 0 <= c < cs.len(),
{
    let a = choose|a: TraceAction| #[trigger] e.contains(a) && first_at(cs, a.lf_id, c);
}
/// w explains what remains at n, the limits aside
pub open spec fn expln(x: AnalysisContext, sb: bool, n: AnalysisNodeKind, w: Tr) -> bool {
    forall|c: int| 0 <= c < x.multi_trace@.len() ==> explc(x, sb, n, w, c)
}
pub open spec fn explc(x: AnalysisContext, sb: bool, n: AnalysisNodeKind, w: Tr, c: int) -> bool {
    exists|b: int, a: int| #[trigger] expl1(sx(x), sb, n.flags, nrem(x, n), w, c, b, a)
}
/// THEOREM (simulation is complete): without limits, a complete exploration from a multi-slice (a multi-prefix, if observation may not start late)
/// of an accepted multi-trace finds a verdict among Cov, TooShort, MultiPref and Slice
pub proof fn thm_sim_complete(x: AnalysisContext, k: SimulationConfiguration, n0: AnalysisNodeKind, g: ISet<AnalysisNodeKind>, n: AnalysisNodeKind, w: Tr)
    requires sfullrun(x, k, n0, g), g.contains(n), k.act_crit is None, k.loop_crit is None, sem(vw(n.interaction), w), expln(x, k.sim_before, n, w),
    ensures exists|m: AnalysisNodeKind| #[trigger] g.contains(m) && lrank(sverdict(x, k, m)) >= 3,
    decreases w.len(),
{
    let i = vw(n.interaction);
    let cs = sx(x);
    let r = nrem(x, n);
    let sb = k.sim_before;
    if all_empty(r) {
        assert(lrank(sverdict(x, k, n)) >= 3);
    } else {
        if w.len() == 0 {
            let c = choose|c: int| 0 <= c < r.len() && (#[trigger] r[c]).len() > 0;
            assert(explc(x, sb, n, w, c));
            assert(false);
        }
        let e = w[0];
        let w2 = w.drop_first();
        // the canals on which the first step of w is not observed
        let z = ISet::new(|c: usize| c < cs.len() && tch(cs, e, c as int) && unob(x, sb, n, w, c as int));
        assert forall|d: u32| #[trigger] asg(cs, k, n.flags, r, e, d, z) by {
            assert forall|c: usize| #[trigger] z.contains(c) implies unb(sb, n.flags, r, c as int) by {
                if r[c as int].len() > 0 { let (b, a) = choose|b: int, a: int| #[trigger] expl1(cs, sb, n.flags, r, w, c as int, b, a) && b > 0; }
            }
            assert forall|c: usize| tch(cs, e, c as int) && !(#[trigger] z.contains(c)) implies mt(cs, r, e, c as int) by {
                l_tch_in(cs, e, c as int);
                assert(explc(x, sb, n, w, c as int));
                let (b, a) = choose|b: int, a: int| #[trigger] expl1(cs, sb, n.flags, r, w, c as int, b, a);
                l_cons(ep(cs, e, c as int), cpr(cs, w2, c as int));
                assert(r[c as int][0] == cpr(cs, w, c as int)[b + 0]);
            }
        }
        assert(sexpanded(x, k, g, n));
        let s = choose|s: Seq<AnalysisStepKind>| #[trigger] simsteps(x, k, n, s) && forall|j: int| 0 <= j < s.len() ==> sfollowed(x, k, g, n, #[trigger] s[j]);
        let j = l_proposed(x, k, n, s, w, z);
        assert(sfollowed(x, k, g, n, s[j]));
        let n2 = choose|n2: AnalysisNodeKind| #[trigger] ssnext(x, k, n, s[j], n2) && rep(g, n2);
        let m = choose|m: AnalysisNodeKind| #[trigger] g.contains(m) && stands(n2, m);
        l_sincl(x, n2, m);
        reveal(dr);
        assert(sem(vw(n2.interaction), w2));
        assert forall|c: int| 0 <= c < x.multi_trace@.len() implies explc(x, sb, m, w2, c) by {
            l_rem_step(x, k, n, s[j], n2, c);
            assert(s[j]->Execute_2@.dom().contains(c as usize) == s[j]->Execute_2@.contains_key(c as usize));
            assert(z.contains(c as usize) == s[j]->Execute_2@.contains_key(c as usize));
            assert(explc(x, sb, n, w, c));
            let (b, a) = if unob(x, sb, n, w, c) && r[c].len() > 0 { choose|b: int, a: int| #[trigger] expl1(cs, sb, n.flags, r, w, c, b, a) && b > 0 } else { choose|b: int, a: int| #[trigger] expl1(cs, sb, n.flags, r, w, c, b, a) };
            let v = cpr(cs, w, c);
            let v2 = cpr(cs, w2, c);
            let r2 = nrem(x, m)[c];
            assert(m.flags.canals@[c].consumed == n2.flags.canals@[c].consumed);
            assert(r2 == nrem(x, n2)[c]);
            if !tch(cs, e, c) {
                assert(v == v2);
                assert(expl1(cs, sb, m.flags, nrem(x, m), w2, c, b, a));
            } else {
                l_cons(ep(cs, e, c), v2);
                assert(v == cons(ep(cs, e, c), v2));
                assert(v.drop_first() =~= v2);
                if !z.contains(c as usize) {
                    assert(b == 0);
                    assert forall|q: int| 0 <= q < r2.len() implies #[trigger] r2[q] == v2[0 + q] by { assert(r2[q] == r[c][q + 1]); assert(r[c][q + 1] == v[0 + (q + 1)]); assert(v.drop_first()[q] == v[q + 1]); }
                    assert(expl1(cs, sb, m.flags, nrem(x, m), w2, c, 0, a));
                } else if r[c].len() == 0 {
                    assert(expl1(cs, sb, m.flags, nrem(x, m), w2, c, 0, v2.len() as int));
                } else {
                    assert forall|q: int| 0 <= q < r2.len() implies #[trigger] r2[q] == v2[b - 1 + q] by { assert(r[c][q] == v[b + q]); assert(v.drop_first()[b - 1 + q] == v[b + q]); }
                    assert(expl1(cs, sb, m.flags, nrem(x, m), w2, c, b - 1, a));
                }
            }
        }
        thm_sim_complete(x, k, n0, g, m, w2);
    }
}
/// the next step of w on canal c does not have to be observed
pub open spec fn unob(x: AnalysisContext, sb: bool, n: AnalysisNodeKind, w: Tr, c: int) -> bool {
    nrem(x, n)[c].len() == 0 || exists|b: int, a: int| #[trigger] expl1(sx(x), sb, n.flags, nrem(x, n), w, c, b, a) && b > 0
}
/// the two readings of completeness agree at the root
pub proof fn l_expln(x: AnalysisContext, sb: bool, n: AnalysisNodeKind, w: Tr)
    requires apre(x, vw(n.interaction), n.flags), forall|c: int| 0 <= c < n.flags.canals@.len() ==> (#[trigger] n.flags.canals@[c]).consumed == 0,
        if sb { is_slice(sx(x), w, nrem(x, n)) } else { is_pre(sx(x), w, nrem(x, n)) },
    ensures expln(x, sb, n, w),
{
    let cs = sx(x);
    let r = nrem(x, n);
    assert forall|c: int| 0 <= c < x.multi_trace@.len() implies explc(x, sb, n, w, c) by {
        let v = cpr(cs, w, c);
        assert(n.flags.canals@[c].consumed == 0);
        if r[c].len() == 0 { assert(expl1(cs, sb, n.flags, r, w, c, 0, v.len() as int)); }
        else if sb { assert(slice1(r[c], v)); let (b, a) = choose|b: int, a: int| #[trigger] within(r[c], v, b, a); assert(expl1(cs, sb, n.flags, r, w, c, b, a)); }
        else { assert(r[c].is_prefix_of(v)); assert forall|q: int| 0 <= q < r[c].len() implies #[trigger] r[c][q] == v[0 + q] by { assert(r[c] =~= v.take(r[c].len() as int)); assert(v.take(r[c].len() as int)[q] == v[q]); } assert(expl1(cs, sb, n.flags, r, w, c, 0, v.len() - r[c].len())); }
    }
}
