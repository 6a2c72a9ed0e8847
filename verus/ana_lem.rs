// ============================================================================================
// Multi-trace analysis (ghost code only).
// ============================================================================================
/// what remains to be analysed on each canal
pub open spec fn rem(m: MultiTrace, f: MultiTraceAnalysisFlags) -> Seq<Tr> {
    Seq::new(m@.len(), |c: int| tvw(m@[c]).skip(f.canals@[c].consumed as int))
}
/// flags which are consistent with the multi-trace
pub open spec fn wff(m: MultiTrace, f: MultiTraceAnalysisFlags) -> bool {
    f.canals@.len() == m@.len() && forall|c: int| 0 <= c < m@.len() ==> (#[trigger] f.canals@[c]).consumed <= m@[c]@.len()
}
/// each observable step of canal c has lifelines, all of them on co-localization c
pub open spec fn wfe(cs: Seq<ISet<usize>>, c: int, e: Ev) -> bool {
    (exists|l: usize| #[trigger] lfs(e).contains(l)) && forall|l: usize| #[trigger] lfs(e).contains(l) ==> first_at(cs, l, c)
}
pub open spec fn wfm(cs: Seq<ISet<usize>>, m: MultiTrace) -> bool {
    m@.len() == cs.len() && forall|c: int, j: int| 0 <= c < m@.len() && 0 <= j < m@[c]@.len() ==> wfe(cs, c, #[trigger] m@[c]@[j]@)
}
/// total remaining length
pub open spec fn rlen(r: Seq<Tr>) -> nat
    decreases r.len(),
{
    if r.len() == 0 { 0 } else { rlen(r.drop_last()) + r.last().len() }
}
pub proof fn l_rlen(r: Seq<Tr>, c: int)
    requires 0 <= c < r.len(), r[c].len() > 0,
    ensures rlen(adv(r, c)) + 1 == rlen(r),
    decreases r.len(),
{
    if c == r.len() - 1 {
        assert(adv(r, c).drop_last() =~= r.drop_last());
    } else {
        l_rlen(r.drop_last(), c);
        assert(adv(r, c).drop_last() =~= adv(r.drop_last(), c));
        assert(adv(r, c).last() == r.last());
    }
}

/// a step of the analysis: a position and the canal on which its action is consumed
pub open spec fn mstep(i: SI, r: Seq<Tr>, q: SP, c: int) -> bool {
    valid(i, q) && hd(r, c, actp(i, q))
}

/// the steps represent every way to start a trace with the head of a canal
pub open spec fn scov(i: SI, r: Seq<Tr>, f: ISet<SP>) -> bool {
    forall|c: int, t: Tr| 0 <= c < r.len() && r[c].len() > 0 && #[trigger] sem(i, cons(#[trigger] r[c][0], t)) ==> cv(i, f, r[c][0], t)
}
/// some step leads to acceptance
pub open spec fn child_acc(i: SI, r: Seq<Tr>, f: ISet<SP>) -> bool {
    exists|q: SP, c: int, t: Tr| #![trigger f.contains(q), hd(r, c, actp(i, q)), der(i, q, t)] f.contains(q) && mstep(i, r, q, c) && der(i, q, t) && shuf(t, adv(r, c))
}
/// THEOREM: a multi-trace is accepted exactly when it is empty and the model accepts the empty trace, or the follow-up of one of the steps accepts the rest
pub proof fn thm_ana(i: SI, r: Seq<Tr>, f: ISet<SP>)
    requires conf(i), scov(i, r, f), forall|q: SP| #[trigger] f.contains(q) ==> valid(i, q),
    ensures
        all_empty(r) ==> macc(i, r) == nullable(i),
        !all_empty(r) ==> macc(i, r) == child_acc(i, r, f),
{
    if all_empty(r) {
        l_sem_nil(i);
        if macc(i, r) {
            let t = choose|t: Tr| #[trigger] sem(i, t) && shuf(t, r);
            if t.len() > 0 {
                let c = choose|c: int| #[trigger] hd(r, c, t[0]) && shuf(t.drop_first(), adv(r, c));
                assert(false);
            }
            assert(t =~= Seq::empty());
        }
        if nullable(i) { assert(sem(i, Seq::empty())); assert(shuf(Seq::empty(), r)); }
    } else {
        if macc(i, r) {
            let t = choose|t: Tr| #[trigger] sem(i, t) && shuf(t, r);
            assert(t.len() > 0);
            let c = choose|c: int| #[trigger] hd(r, c, t[0]) && shuf(t.drop_first(), adv(r, c));
            l_cons(t[0], t.drop_first());
            assert(cons(t[0], t.drop_first()) =~= t);
            assert(sem(i, cons(r[c][0], t.drop_first())));
            let q = choose|q: SP| #[trigger] f.contains(q) && actp(i, q) == r[c][0] && der(i, q, t.drop_first());
            assert(f.contains(q) && hd(r, c, actp(i, q)) && der(i, q, t.drop_first()));
            assert(mstep(i, r, q, c));
        }
        if child_acc(i, r, f) {
            let (q, c, t) = choose|q: SP, c: int, t: Tr| #![trigger f.contains(q), hd(r, c, actp(i, q)), der(i, q, t)] f.contains(q) && mstep(i, r, q, c) && der(i, q, t) && shuf(t, adv(r, c));
            l_step_sound(i, q, t);
            l_cons(actp(i, q), t);
            let u = cons(actp(i, q), t);
            assert(hd(r, c, u[0]));
            assert(u.drop_first() =~= t);
            assert(shuf(u, r));
        }
    }
}
/// acceptance by the follow-up term
pub proof fn l_child(i: SI, r: Seq<Tr>, f: ISet<SP>, q: SP, c: int, j: SI)
    requires f.contains(q), mstep(i, r, q, c), dr(i, q, j), macc(j, adv(r, c)),
    ensures child_acc(i, r, f),
{
    reveal(dr);
    let t = choose|t: Tr| #[trigger] sem(j, t) && shuf(t, adv(r, c));
    assert(der(i, q, t));
    assert(f.contains(q) && hd(r, c, actp(i, q)) && der(i, q, t));
}
/// well-formed analysis data: the multi-trace fits the co-localizations, which cover the lifelines of the model
pub open spec fn apre(x: AnalysisContext, i: SI, f: MultiTraceAnalysisFlags) -> bool {
    &&& conf(i) && nld(i) <= u32::MAX
    &&& cov(cvw(x.co_localizations), inv(i))
    &&& wfm(cvw(x.co_localizations), x.multi_trace)
    &&& wff(x.multi_trace, f)
}
/// a step consumes its action at the head of the single canal which carries it, without simulation
pub open spec fn astep(i: SI, r: Seq<Tr>, s: AnalysisStepKind, c: int) -> bool {
    match s {
        AnalysisStepKind::Execute(x, consu, sim) => fe(i, 0, x) && hd(r, c, x.target_actions@) && consu@ == ISet::<usize>::empty().insert(c as usize) && sim@ == IMap::<usize, SimulationStepKind>::empty(),
        _ => false,
    }
}
pub open spec fn astepx(i: SI, r: Seq<Tr>, s: AnalysisStepKind) -> bool {
    exists|c: int| #[trigger] astep(i, r, s, c)
}
pub open spec fn spos(s: AnalysisStepKind) -> SP {
    match s { AnalysisStepKind::Execute(x, _, _) => pv(x.position), _ => SP::Eps(None) }
}
pub open spec fn sposs(s: Seq<AnalysisStepKind>) -> ISet<SP> {
    ISet::new(|q: SP| exists|j: int| 0 <= j < s.len() && spos(#[trigger] s[j]) == q)
}
/// the steps are exactly the immediately executable actions which match the head of a canal
#[verifier::opaque]
pub open spec fn asteps(i: SI, r: Seq<Tr>, s: Seq<AnalysisStepKind>) -> bool {
    &&& forall|j: int| 0 <= j < s.len() ==> astepx(i, r, #[trigger] s[j])
    &&& scov(i, r, sposs(s))
}
/// heads of the canals below n
pub open spec fn heads(m: MultiTrace, r: Seq<Tr>, h: Seq<(usize, &BTreeSet<TraceAction>)>, n: int) -> bool {
    &&& forall|j: int| 0 <= j < h.len() ==> (#[trigger] h[j]).0 < n && hd(r, h[j].0 as int, h[j].1@)
    &&& forall|c: int| 0 <= c < n && (#[trigger] r[c]).len() > 0 ==> hasc(h, c)
}
pub open spec fn hasc(h: Seq<(usize, &BTreeSet<TraceAction>)>, c: int) -> bool {
    exists|j: int| 0 <= j < h.len() && (#[trigger] h[j]).0 == c
}
pub open spec fn mhas(m: IMap<usize, Vec<FrontierElement>>, q: SP) -> bool {
    exists|k: usize| #[trigger] m.contains_key(k) && fset(m[k]@).contains(q)
}
pub open spec fn ment(i: SI, r: Seq<Tr>, k: usize, f: Seq<FrontierElement>) -> bool {
    forall|j: int| 0 <= j < f.len() ==> fe(i, 0, #[trigger] f[j]) && hd(r, k as int, f[j].target_actions@)
}
pub open spec fn mok(i: SI, r: Seq<Tr>, m: IMap<usize, Vec<FrontierElement>>) -> bool {
    forall|k: usize| #[trigger] m.contains_key(k) ==> ment(i, r, k, m[k]@)
}
pub open spec fn anyhd(r: Seq<Tr>, e: Ev) -> bool {
    exists|c: int| #[trigger] hd(r, c, e)
}
pub open spec fn mpush(m: IMap<usize, Vec<FrontierElement>>, m2: IMap<usize, Vec<FrontierElement>>, k: usize, x: FrontierElement) -> bool {
    &&& m2.dom() == m.dom().insert(k)
    &&& forall|j: usize| j != k && m.contains_key(j) ==> #[trigger] m2[j] == m[j]
    &&& m2[k]@ == (if m.contains_key(k) { m[k]@ } else { Seq::empty() }).push(x)
}
pub proof fn l_mpush(i: SI, r: Seq<Tr>, m: IMap<usize, Vec<FrontierElement>>, m2: IMap<usize, Vec<FrontierElement>>, k: usize, x: FrontierElement)
    requires mok(i, r, m), fe(i, 0, x), hd(r, k as int, x.target_actions@),
        mpush(m, m2, k, x),
    ensures mok(i, r, m2), mhas(m2, pv(x.position)), forall|q: SP| #[trigger] mhas(m, q) ==> mhas(m2, q),
{
    assert forall|j: usize| #[trigger] m2.contains_key(j) implies ment(i, r, j, m2[j]@) by {
        if j != k { assert(m.contains_key(j)); } else { if m.contains_key(k) { assert(ment(i, r, k, m[k]@)); } }
    }
    let old = if m.contains_key(k) { m[k]@ } else { Seq::empty() };
    l_fset_push(old, x);
    assert(m2.contains_key(k));
    assert(fset(m2[k]@).contains(pv(x.position)));
    assert forall|q: SP| #[trigger] mhas(m, q) implies mhas(m2, q) by {
        let j = choose|j: usize| #[trigger] m.contains_key(j) && fset(m[j]@).contains(q);
        assert(m2.contains_key(j));
        if j == k { assert(fset(old).contains(q)); }
    }
}
/// lifelines of an enabled action
pub proof fn l_cons1(cs: Seq<ISet<usize>>, m: MultiTrace, f: MultiTraceAnalysisFlags, c: int, e: Ev)
    requires wfm(cs, m), wff(m, f), hd(rem(m, f), c, e),
    ensures wfe(cs, c, e),
{
    let j = f.canals@[c].consumed as int;
    assert(j < m@[c]@.len());
    assert(tvw(m@[c]).skip(j)[0] == m@[c]@[j]@);
}
pub proof fn l_consu(cs: Seq<ISet<usize>>, c: int, e: Ev, s: ISet<usize>)
    requires wfe(cs, c, e), cs.len() <= usize::MAX, forall|k: usize| #[trigger] s.contains(k) <==> exists|lf: usize| #[trigger] lfs(e).contains(lf) && first_at(cs, lf, k as int),
    ensures s == ISet::<usize>::empty().insert(c as usize), cov(cs, lfs(e)),
{
    let l = choose|l: usize| #[trigger] lfs(e).contains(l);
    assert(first_at(cs, l, c));
    assert forall|k: usize| s.contains(k) == ISet::<usize>::empty().insert(c as usize).contains(k) by {
        if s.contains(k) {
            let lf = choose|lf: usize| #[trigger] lfs(e).contains(lf) && first_at(cs, lf, k as int);
            assert(first_at(cs, lf, c));
            if (k as int) < c { assert(!cs[k as int].contains(lf)); }
            if (k as int) > c { assert(!cs[c].contains(lf)); }
        }
        if k == c { assert(lfs(e).contains(l) && first_at(cs, l, k as int)); }
    }
    assert(s =~= ISet::<usize>::empty().insert(c as usize));
    assert forall|x: usize| #[trigger] lfs(e).contains(x) implies covx(cs, x) by { assert(first_at(cs, x, c)); }
}
/// from the map of the matching frontier elements to the steps
pub proof fn l_asteps(i: SI, r: Seq<Tr>, f: Seq<FrontierElement>, m: IMap<usize, Vec<FrontierElement>>, s: Seq<AnalysisStepKind>)
    requires conf(i), fok(i, 0, f), covers(i, fset(f)),
        forall|p: int| 0 <= p < f.len() && anyhd(r, (#[trigger] f[p]).target_actions@) ==> mhas(m, pv(f[p].position)),
        forall|j: int| 0 <= j < s.len() ==> astepx(i, r, #[trigger] s[j]),
        forall|q: SP| #[trigger] mhas(m, q) ==> sposs(s).contains(q),
    ensures asteps(i, r, s),
{
    reveal(asteps);
    assert forall|c: int, t: Tr| 0 <= c < r.len() && r[c].len() > 0 && #[trigger] sem(i, cons(#[trigger] r[c][0], t)) implies cv(i, sposs(s), r[c][0], t) by {
        let e = r[c][0];
        assert forall|q: SP| #[trigger] fset(f).contains(q) implies valid(i, q) by {
            let p = choose|p: int| 0 <= p < f.len() && pv(#[trigger] f[p].position) == q;
            assert(fe(i, 0, f[p]));
        }
        thm_step(i, fset(f), e, t);
        let q = choose|q: SP| #[trigger] fset(f).contains(q) && actp(i, q) == e && der(i, q, t);
        let p = choose|p: int| 0 <= p < f.len() && pv(#[trigger] f[p].position) == q;
        assert(fe(i, 0, f[p]));
        assert(hd(r, c, f[p].target_actions@));
        assert(mhas(m, q));
        assert(sposs(s).contains(q));
    }
}
pub proof fn l_heads_step(m: MultiTrace, f: MultiTraceAnalysisFlags, h: Seq<(usize, &BTreeSet<TraceAction>)>, n: int, h2: Seq<(usize, &BTreeSet<TraceAction>)>)
    requires wff(m, f), 0 <= n < m@.len() <= usize::MAX, heads(m, rem(m, f), h, n),
        f.canals@[n].consumed < m@[n]@.len() ==> h2.len() == h.len() + 1 && h2.drop_last() =~= h && h2.last().0 == n && h2.last().1@ == m@[n]@[f.canals@[n].consumed as int]@,
        f.canals@[n].consumed == m@[n]@.len() ==> h2 == h,
    ensures heads(m, rem(m, f), h2, n + 1),
{
    let r = rem(m, f);
    assert(r[n].len() == m@[n]@.len() - f.canals@[n].consumed);
    if r[n].len() > 0 { assert(r[n][0] == m@[n]@[f.canals@[n].consumed as int]@); assert(h2[h.len() as int] == h2.last()); }
    assert forall|j: int| 0 <= j < h2.len() implies (#[trigger] h2[j]).0 < n + 1 && hd(r, h2[j].0 as int, h2[j].1@) by {
        if j < h.len() { assert(h2[j] == h[j]); }
    }
    assert forall|c: int| 0 <= c < n + 1 && (#[trigger] r[c]).len() > 0 implies hasc(h2, c) by {
        if c < n {
            assert(hasc(h, c));
            let j = choose|j: int| 0 <= j < h.len() && (#[trigger] h[j]).0 == c;
            assert(h2[j] == h[j]);
        } else { assert(h2[h.len() as int].0 == c); }
    }
}
pub proof fn l_nohd(m: MultiTrace, r: Seq<Tr>, h: Seq<(usize, &BTreeSet<TraceAction>)>, e: Ev)
    requires heads(m, r, h, r.len() as int), forall|j: int| 0 <= j < h.len() ==> (#[trigger] h[j]).1@ != e,
    ensures !anyhd(r, e),
{
    if anyhd(r, e) {
        let c = choose|c: int| #[trigger] hd(r, c, e);
        assert(hasc(h, c));
        let j = choose|j: int| 0 <= j < h.len() && (#[trigger] h[j]).0 == c;
        assert(hd(r, c, h[j].1@));
    }
}
pub broadcast proof fn b_sposs_push(g: Seq<AnalysisStepKind>, x: AnalysisStepKind)
    ensures #[trigger] sposs(g.push(x)) == sposs(g).insert(spos(x)),
{
    let h = g.push(x);
    assert forall|q: SP| sposs(h).contains(q) == sposs(g).insert(spos(x)).contains(q) by {
        if sposs(g).contains(q) {
            let j = choose|j: int| 0 <= j < g.len() && spos(#[trigger] g[j]) == q;
            assert(spos(h[j]) == q);
        }
        if q == spos(x) { assert(spos(h[g.len() as int]) == q); }
        if sposs(h).contains(q) {
            let j = choose|j: int| 0 <= j < h.len() && spos(#[trigger] h[j]) == q;
            if j < g.len() { assert(spos(g[j]) == q); }
        }
    }
    assert(sposs(h) =~= sposs(g).insert(spos(x)));
}
pub proof fn l_ms_contains<T>(a: Seq<T>, b: Seq<T>)
    requires a.to_multiset() == b.to_multiset(),
    ensures forall|j: int| 0 <= j < a.len() ==> b.contains(#[trigger] a[j]), forall|j: int| 0 <= j < b.len() ==> a.contains(#[trigger] b[j]),
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    assert forall|j: int| 0 <= j < a.len() implies b.contains(#[trigger] a[j]) by { assert(a.contains(a[j])); assert(a.to_multiset().count(a[j]) > 0); }
    assert forall|j: int| 0 <= j < b.len() implies a.contains(#[trigger] b[j]) by { assert(b.contains(b[j])); assert(b.to_multiset().count(b[j]) > 0); }
}
pub proof fn l_mit(m: HashMap<usize, Vec<FrontierElement>>, o: Seq<(usize, Vec<FrontierElement>)>, s: Seq<(usize, Vec<FrontierElement>)>)
    requires m.it_ok(o), s.to_multiset() == o.to_multiset(),
    ensures forall|j: int| 0 <= j < s.len() ==> m@.contains_key((#[trigger] s[j]).0) && m@[s[j].0] == s[j].1,
        forall|q: SP| #[trigger] mhas(m@, q) ==> exists|j: int| 0 <= j < s.len() && fset((#[trigger] s[j]).1@).contains(q),
{
    l_ms_contains(o, s);
    assert forall|j: int| 0 <= j < s.len() implies m@.contains_key((#[trigger] s[j]).0) && m@[s[j].0] == s[j].1 by {
        assert(o.contains(s[j]));
        let a = choose|a: int| 0 <= a < o.len() && o[a] == s[j];
        assert(m@.contains_key(o[a].0.k()));
    }
    assert forall|q: SP| #[trigger] mhas(m@, q) implies exists|j: int| 0 <= j < s.len() && fset((#[trigger] s[j]).1@).contains(q) by {
        let k = choose|k: usize| #[trigger] m@.contains_key(k) && fset(m@[k]@).contains(q);
        let a = choose|a: int| 0 <= a < o.len() && (#[trigger] o[a]).0.k() == k;
        assert(s.contains(o[a]));
        let j = choose|j: int| 0 <= j < s.len() && s[j] == o[a];
        assert(fset(s[j].1@).contains(q));
    }
}
pub proof fn l_consu0(cs: Seq<ISet<usize>>, c: int, e: Ev)
    requires wfe(cs, c, e), cs.len() <= usize::MAX,
    ensures cov(cs, lfs(e)),
{
    assert forall|x: usize| #[trigger] lfs(e).contains(x) implies covx(cs, x) by { assert(first_at(cs, x, c)); }
}
// ------------------------------------------------------------------ flags, nodes, verdicts
pub open spec fn any_hidden(f: MultiTraceAnalysisFlags) -> bool {
    exists|c: int| 0 <= c < f.canals@.len() && (#[trigger] f.canals@[c]).no_longer_observed
}
pub open spec fn simulated(f: MultiTraceAnalysisFlags) -> WasMultiTraceConsumedWithSimulation {
    if exists|c: int| 0 <= c < f.canals@.len() && (#[trigger] f.canals@[c]).simulated_before > 0 { WasMultiTraceConsumedWithSimulation::AsSlice }
    else if exists|c: int| 0 <= c < f.canals@.len() && (#[trigger] f.canals@[c]).simulated_after > 0 { WasMultiTraceConsumedWithSimulation::OnlyAfterEnd }
    else { WasMultiTraceConsumedWithSimulation::No }
}
pub open spec fn hidden_upd(f: MultiTraceAnalysisFlags, g: MultiTraceAnalysisFlags, h: ISet<usize>) -> bool {
    &&& g.canals@.len() == f.canals@.len() && g.rem_loop_in_sim == f.rem_loop_in_sim && g.rem_act_in_sim == f.rem_act_in_sim
    &&& forall|c: int| 0 <= c < f.canals@.len() ==> #[trigger] g.canals@[c] == (TraceAnalysisFlags { no_longer_observed: f.canals@[c].no_longer_observed || h.contains(c as usize), ..f.canals@[c] })
}
/// no counter is about to overflow
pub open spec fn counters(f: MultiTraceAnalysisFlags) -> bool {
    forall|c: int| 0 <= c < f.canals@.len() ==> counter1(#[trigger] f.canals@[c])
}
pub open spec fn counter1(x: TraceAnalysisFlags) -> bool {
    x.consumed < usize::MAX && x.dirty_local_counter < u32::MAX && x.simulated_before < u32::MAX && x.simulated_after < u32::MAX
}
pub open spec fn exec_upd(x: TraceAnalysisFlags, consumed: bool, sim: bool, kind: SimulationStepKind, affected: bool) -> TraceAnalysisFlags {
    TraceAnalysisFlags {
        consumed: (x.consumed + if consumed { 1int } else { 0 }) as usize,
        no_longer_observed: x.no_longer_observed,
        dirty_local_counter: (if x.dirty_local_counter >= 1 { x.dirty_local_counter + 1 } else if affected { 1 } else { 0 }) as u32,
        simulated_before: (x.simulated_before + if sim && kind is BeforeStart { 1int } else { 0 }) as u32,
        simulated_after: (x.simulated_after + if sim && kind is AfterEnd { 1int } else { 0 }) as u32,
    }
}
pub open spec fn exec_all(f: MultiTraceAnalysisFlags, consu: ISet<usize>, sim: IMap<usize, SimulationStepKind>, a: ISet<usize>, g: MultiTraceAnalysisFlags) -> bool {
    g.canals@.len() == f.canals@.len()
    && forall|c: int| 0 <= c < f.canals@.len() ==> #[trigger] g.canals@[c] == exec_upd(f.canals@[c], consu.contains(c as usize), sim.contains_key(c as usize), sim[c as usize], a.contains(c as usize))
}
pub open spec fn npre(x: AnalysisContext, n: AnalysisNodeKind) -> bool {
    apre(x, vw(n.interaction), n.flags) && counters(n.flags)
}
pub open spec fn sdepth(s: AnalysisStepKind) -> u32 {
    match s { AnalysisStepKind::Execute(x, _, _) => x.max_loop_depth, _ => 0 }
}
/// canal c has been entirely consumed and is still observed
pub open spec fn ended(x: AnalysisContext, n: AnalysisNodeKind, c: int) -> bool {
    n.flags.canals@[c].consumed == x.multi_trace@[c]@.len() && !n.flags.canals@[c].no_longer_observed
}
pub open spec fn some_ended(x: AnalysisContext, n: AnalysisNodeKind) -> bool {
    exists|c: int| 0 <= c < n.flags.canals@.len() && #[trigger] ended(x, n, c)
}
pub open spec fn hstep(x: AnalysisContext, n: AnalysisNodeKind, s: AnalysisStepKind) -> bool {
    match s {
        AnalysisStepKind::EliminateNoLongerObserved(h) => forall|c: usize| #[trigger] h@.contains(c) <==> c < n.flags.canals@.len() && ended(x, n, c as int),
        _ => false,
    }
}
/// a step which may be asked for at node n
pub open spec fn sok(x: AnalysisContext, n: AnalysisNodeKind, s: AnalysisStepKind) -> bool {
    (astepx(vw(n.interaction), rem(x.multi_trace, n.flags), s) || hstep(x, n, s)) && n.ana_loop_depth + sdepth(s) <= u32::MAX
}
/// the node reached by a step
pub open spec fn snext(x: AnalysisContext, n: AnalysisNodeKind, s: AnalysisStepKind, n2: AnalysisNodeKind) -> bool {
    let i = vw(n.interaction);
    let r = rem(x.multi_trace, n.flags);
    &&& apre(x, vw(n2.interaction), n2.flags)
    &&& n2.ana_loop_depth == n.ana_loop_depth + sdepth(s)
    &&& inv(vw(n2.interaction)).subset_of(inv(i))
    &&& (nosync(i) ==> nosync(vw(n2.interaction))) && (nohf(i) ==> nohf(vw(n2.interaction)))
    &&& forall|c: int| #[trigger] astep(i, r, s, c) ==> dr(i, spos(s), vw(n2.interaction)) && rem(x.multi_trace, n2.flags) == adv(r, c)
    &&& s is Execute ==> forall|c: int| 0 <= c < n.flags.canals@.len() ==> (#[trigger] n2.flags.canals@[c]).no_longer_observed == n.flags.canals@[c].no_longer_observed
    &&& s is EliminateNoLongerObserved ==> rem(x.multi_trace, n2.flags) == r && hidden_upd(n.flags, n2.flags, s->EliminateNoLongerObserved_0@)
        && exists|l: ISet<usize>| #[trigger] el(i, l, vw(n2.interaction)) && forall|lf: usize| #[trigger] l.contains(lf) <==> exists|k: usize| #[trigger] s->EliminateNoLongerObserved_0@.contains(k) && cvw(x.co_localizations)[k as int].contains(lf)
}
pub open spec fn steps_ok(x: AnalysisContext, k: AnalysisKind, n: AnalysisNodeKind, s: Seq<AnalysisStepKind>) -> bool {
    let i = vw(n.interaction);
    let r = rem(x.multi_trace, n.flags);
    if all_empty(r) { s.len() == 0 }
    else if k is Eliminate && some_ended(x, n) { s.len() == 1 && hstep(x, n, s[0]) }
    else { asteps(i, r, s) }
}
pub open spec fn lverdict(k: AnalysisKind, r: Seq<Tr>, nul: bool, f: MultiTraceAnalysisFlags, single: bool) -> AnalysisLocalVerdict {
    if all_empty(r) {
        match k {
            AnalysisKind::Accept => if nul { AnalysisLocalVerdict::Cov } else { AnalysisLocalVerdict::Out(false) },
            AnalysisKind::Prefix => if nul { AnalysisLocalVerdict::Cov } else { AnalysisLocalVerdict::TooShort },
            AnalysisKind::Eliminate =>
                if any_hidden(f) { if single { AnalysisLocalVerdict::MultiPref } else { AnalysisLocalVerdict::Inconc(InconcReason::UsingLifelineRemovalWithCoLocalizations) } }
                else if nul { AnalysisLocalVerdict::Cov } else { AnalysisLocalVerdict::TooShort },
            AnalysisKind::Simulate(_) => match simulated(f) {
                WasMultiTraceConsumedWithSimulation::No => if nul { AnalysisLocalVerdict::Cov } else { AnalysisLocalVerdict::TooShort },
                WasMultiTraceConsumedWithSimulation::OnlyAfterEnd => AnalysisLocalVerdict::MultiPref,
                WasMultiTraceConsumedWithSimulation::AsSlice => AnalysisLocalVerdict::Slice,
            },
        }
    } else {
        match k {
            AnalysisKind::Prefix => if any_empty(r) { AnalysisLocalVerdict::Inconc(InconcReason::LackObs) } else { AnalysisLocalVerdict::Out(false) },
            AnalysisKind::Simulate(_) => AnalysisLocalVerdict::OutSim(false),
            _ => AnalysisLocalVerdict::Out(false),
        }
    }
}
pub proof fn l_adv(m: MultiTrace, f: MultiTraceAnalysisFlags, f2: MultiTraceAnalysisFlags, c: int, e: Ev)
    requires wff(m, f), hd(rem(m, f), c, e), f2.canals@.len() == f.canals@.len(),
        forall|k: int| 0 <= k < f.canals@.len() ==> (#[trigger] f2.canals@[k]).consumed == f.canals@[k].consumed + if k == c { 1int } else { 0 },
    ensures wff(m, f2), rem(m, f2) =~= adv(rem(m, f), c),
{
    let r = rem(m, f);
    assert forall|k: int| 0 <= k < m@.len() implies (#[trigger] f2.canals@[k]).consumed <= m@[k]@.len() by {
        assert(r[k].len() == m@[k]@.len() - f.canals@[k].consumed);
    }
    assert forall|k: int| 0 <= k < m@.len() implies rem(m, f2)[k] == adv(r, c)[k] by {
        let a = f2.canals@[k].consumed;
        assert(rem(m, f2)[k] =~= adv(r, c)[k]);
    }
}
pub proof fn l_same_rem(m: MultiTrace, f: MultiTraceAnalysisFlags, f2: MultiTraceAnalysisFlags)
    requires wff(m, f), f2.canals@.len() == f.canals@.len(),
        forall|k: int| 0 <= k < f.canals@.len() ==> (#[trigger] f2.canals@[k]).consumed == f.canals@[k].consumed,
    ensures wff(m, f2), rem(m, f2) =~= rem(m, f),
{
}
pub proof fn l_snext_exec(x: AnalysisContext, n: AnalysisNodeKind, s: AnalysisStepKind, n2: AnalysisNodeKind, a: ISet<usize>)
    requires npre(x, n), s is Execute, astepx(vw(n.interaction), rem(x.multi_trace, n.flags), s),
        dr(vw(n.interaction), spos(s), vw(n2.interaction)), conf(vw(n2.interaction)), ivs(vw(n.interaction), vw(n2.interaction)),
        n2.flags.canals@.len() == n.flags.canals@.len(), n2.ana_loop_depth == n.ana_loop_depth + sdepth(s),
        exec_all(n.flags, s->Execute_1@, s->Execute_2@, a, n2.flags),
    ensures snext(x, n, s, n2),
{
    reveal(ivs);
    let i = vw(n.interaction);
    let r = rem(x.multi_trace, n.flags);
    let k = n.flags.canals.len();
    assert forall|c: int| #[trigger] astep(i, r, s, c) implies dr(i, spos(s), vw(n2.interaction)) && rem(x.multi_trace, n2.flags) == adv(r, c) && wff(x.multi_trace, n2.flags) by {
        l_adv(x.multi_trace, n.flags, n2.flags, c, s->Execute_0.target_actions@);
    }
    let c = choose|c: int| #[trigger] astep(i, r, s, c);
    assert(wff(x.multi_trace, n2.flags));
}
