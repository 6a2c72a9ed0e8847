// ============================================================================================
// Simulation: what may be simulated, what the steps do, and what the verdicts mean (ghost code only).
// ============================================================================================
global size_of usize == 8;
pub assume_specification [usize::pow] (b: usize, e: u32) -> (r: usize)
    requires vstd::arithmetic::power::pow(b as int, e as nat) <= usize::MAX,
    ensures r == vstd::arithmetic::power::pow(b as int, e as nat);
impl Clone for FrontierElement { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures fsame(*self, r) { unimplemented!() } }
impl<K: VxK> Clone for HashMap<K, SimulationStepKind> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r@ == self@ { unimplemented!() } }
impl<K: VxK, V> HashMap<K, V> {
    #[verifier::external_body]
    pub fn keys<'a>(&'a self) -> (r: VxIter<&'a K>)
        ensures r.pos() == 0, kset(r.all()) == self@.dom(),
    { unimplemented!() }
}

// ------------------------------------------------------------------ powersets
pub open spec fn bit(i: usize, t: usize) -> bool { (i >> t) % 2 == 1 }
/// the pairs of the first n of w whose number is a bit of i
pub open spec fn fil<'a, T>(i: usize, w: Seq<(usize, &'a T)>, n: int) -> Seq<(usize, &'a T)>
    decreases n,
{
    if n <= 0 { Seq::empty() } else if bit(i, w[n - 1].0) { fil(i, w, n - 1).push(w[n - 1]) } else { fil(i, w, n - 1) }
}
pub open spec fn enumd<'a, T>(s: Seq<T>) -> Seq<(usize, &'a T)> { Seq::new(s.len(), |t: int| (t as usize, &s[t])) }
/// v holds copies of the elements of s which the bits of i select
pub open spec fn pick<T: Clone>(s: Seq<T>, i: usize, v: Seq<T>) -> bool {
    let w = fil(i, enumd(s), s.len() as int);
    v.len() == w.len() && forall|j: int| 0 <= j < v.len() ==> cloned(*(#[trigger] w[j]).1, v[j])
}
pub open spec fn picks<T: Clone>(s: Seq<T>, r: Seq<Vec<T>>) -> bool {
    forall|j: int| 0 <= j < r.len() ==> pick(s, j as usize, (#[trigger] r[j])@)
}
pub open spec fn copied<'a, T: Clone>(w: Seq<(usize, &'a T)>, v: Seq<T>) -> bool {
    forall|j: int| 0 <= j < v.len() ==> cloned(*(#[trigger] w[j]).1, v[j])
}
pub proof fn l_pow2(n: nat)
    requires n < 64,
    ensures vstd::arithmetic::power::pow(2, n) == (1usize << (n as usize)), (1usize << (n as usize)) <= usize::MAX,
    decreases n,
{
    vstd::arithmetic::power::lemma_pow0(2);
    if n == 0 {
        assert(1usize << 0usize == 1) by (bit_vector);
    } else {
        l_pow2((n - 1) as nat);
        let m = n as usize;
        let k = (n - 1) as usize;
        reveal(vstd::arithmetic::power::pow);
        assert((1usize << m) == 2 * (1usize << k)) by (bit_vector) requires m == k + 1, 0 < m < 64;
    }
}
/// the number which selects the elements of z among the first n of m
pub open spec fn mask(z: ISet<usize>, m: Seq<usize>, n: int) -> usize
    decreases n,
{
    if n <= 0 { 0 } else if z.contains(m[n - 1]) { mask(z, m, n - 1) | (1usize << ((n - 1) as usize)) } else { mask(z, m, n - 1) }
}
pub proof fn l_mask(z: ISet<usize>, m: Seq<usize>, n: int)
    requires 0 <= n <= m.len() < 64,
    ensures mask(z, m, n) < (1usize << (n as usize)), forall|t: int| 0 <= t < n ==> bit(mask(z, m, n), t as usize) == z.contains(#[trigger] m[t]),
    decreases n,
{
    if n == 0 {
        assert(1usize << 0usize == 1) by (bit_vector);
    } else {
        l_mask(z, m, n - 1);
        let a = mask(z, m, n - 1);
        let k = (n - 1) as usize;
        let b = a | (1usize << k);
        let n1 = n as usize;
        assert(a < (1usize << n1) && b < (1usize << n1) && (b >> k) % 2 == 1 && (a >> k) % 2 == 0) by (bit_vector) requires a < (1usize << k), n1 == k + 1, n1 < 64, b == a | (1usize << k);
        assert forall|t: int| 0 <= t < n implies bit(mask(z, m, n), t as usize) == z.contains(#[trigger] m[t]) by {
            let tt = t as usize;
            if t < n - 1 {
                assert((b >> tt) % 2 == (a >> tt) % 2) by (bit_vector) requires tt < k, k < 64, b == a | (1usize << k);
                assert(bit(a, tt) == z.contains(m[t]));
            }
        }
    }
}
pub proof fn l_fil(m: Seq<usize>, i: usize, n: int)
    requires 0 <= n <= m.len() < 64,
    ensures forall|j: int| 0 <= j < fil(i, enumd(m), n).len() ==> kset(m).contains(*(#[trigger] fil(i, enumd(m), n)[j]).1),
        forall|j: int| 0 <= j < fil(i, enumd(m), n).len() ==> filn(m, i, n, *(#[trigger] fil(i, enumd(m), n)[j]).1),
        forall|t: int| 0 <= t < n && bit(i, t as usize) ==> infil(fil(i, enumd(m), n), #[trigger] m[t]),
    decreases n,
{
    if n > 0 {
        l_fil(m, i, n - 1);
        let a = fil(i, enumd(m), n - 1);
        let b = fil(i, enumd(m), n);
        assert(enumd(m)[n - 1] == ((n - 1) as usize, &m[n - 1]));
        l_kset_at(m, n - 1);
        assert forall|j: int| 0 <= j < b.len() implies filn(m, i, n, *(#[trigger] b[j]).1) && kset(m).contains(*b[j].1) by {
            if j < a.len() { assert(a[j] == b[j]); assert(filn(m, i, n - 1, *a[j].1)); let t = choose|t: int| 0 <= t < n - 1 && bit(i, t as usize) && #[trigger] m[t] == *a[j].1; assert(m[t] == *b[j].1); }
            else { assert(m[n - 1] == *b[j].1); }
        }
        assert forall|t: int| 0 <= t < n && bit(i, t as usize) implies infil(b, #[trigger] m[t]) by {
            if t < n - 1 { assert(infil(a, m[t])); let j = choose|j: int| 0 <= j < a.len() && *(#[trigger] a[j]).1 == m[t]; assert(b[j] == a[j]); }
            else { assert(*b[b.len() - 1].1 == m[t]); }
        }
    }
}
pub open spec fn infil(a: Seq<(usize, &usize)>, x: usize) -> bool { exists|j: int| 0 <= j < a.len() && *(#[trigger] a[j]).1 == x }
pub open spec fn filn(m: Seq<usize>, i: usize, n: int, x: usize) -> bool { exists|t: int| 0 <= t < n && bit(i, t as usize) && #[trigger] m[t] == x }
/// every part of w is one of the combinations
pub open spec fn allsub(cb: Seq<Vec<usize>>, w: ISet<usize>) -> bool {
    &&& forall|j: int| 0 <= j < cb.len() ==> kset((#[trigger] cb[j])@).subset_of(w)
    &&& forall|z: ISet<usize>| #[trigger] z.subset_of(w) ==> issub(cb, z)
}
pub open spec fn issub(cb: Seq<Vec<usize>>, z: ISet<usize>) -> bool {
    exists|j: int| 0 <= j < cb.len() && kset((#[trigger] cb[j])@) == z
}
pub proof fn l_pick(m: Seq<usize>, i: usize, v: Seq<usize>)
    requires pick(m, i, v), m.len() < 64,
    ensures kset(v).subset_of(kset(m)), forall|t: int| 0 <= t < m.len() && bit(i, t as usize) ==> kset(v).contains(#[trigger] m[t]),
        forall|x: usize| #[trigger] kset(v).contains(x) ==> filn(m, i, m.len() as int, x),
{
    l_fil(m, i, m.len() as int);
    let w = fil(i, enumd(m), m.len() as int);
    assert forall|x: usize| #[trigger] kset(v).contains(x) implies filn(m, i, m.len() as int, x) && kset(m).contains(x) by {
        let j = choose|j: int| 0 <= j < v.len() && (#[trigger] v[j]).k() == x;
        assert(cloned(*w[j].1, v[j]));
        assert(v[j] == *w[j].1);
        assert(kset(m).contains(*w[j].1));
        assert(filn(m, i, m.len() as int, *w[j].1));
    }
    assert forall|t: int| 0 <= t < m.len() && bit(i, t as usize) implies kset(v).contains(#[trigger] m[t]) by {
        assert(infil(w, m[t]));
        let j = choose|j: int| 0 <= j < w.len() && *(#[trigger] w[j]).1 == m[t];
        assert(cloned(*w[j].1, v[j]));
        assert(v[j] == m[t]);
        l_kset_at(v, j);
    }
}
/// the powerset of m holds all the parts of m
pub proof fn l_allsub(m: Seq<usize>, cb: Seq<Vec<usize>>)
    requires m.len() < 64, cb.len() == (1usize << (m.len() as usize)), picks(m, cb),
    ensures allsub(cb, kset(m)),
{
    assert forall|j: int| 0 <= j < cb.len() implies kset((#[trigger] cb[j])@).subset_of(kset(m)) by { l_pick(m, j as usize, cb[j]@); }
    assert forall|z: ISet<usize>| #[trigger] z.subset_of(kset(m)) implies issub(cb, z) by {
        let n = m.len() as int;
        let i = mask(z, m, n);
        l_mask(z, m, n);
        let v = cb[i as int]@;
        assert(pick(m, i, v));
        l_pick(m, i, v);
        assert forall|x: usize| kset(v).contains(x) == z.contains(x) by {
            if kset(v).contains(x) { let t = choose|t: int| 0 <= t < n && bit(i, t as usize) && #[trigger] m[t] == x; assert(z.contains(m[t])); }
            if z.contains(x) { assert(kset(m).contains(x)); let t = choose|t: int| 0 <= t < m.len() && (#[trigger] m[t]).k() == x; assert(z.contains(m[t])); assert(bit(i, t as usize)); }
        }
        assert(kset(v) =~= z);
    }
}
// ------------------------------------------------------------------ limits
pub open spec fn scaled(k: SimulationConfiguration, num: int, len: usize) -> u32 {
    if k.multiply_by_multitrace_length { if num * (len as u32) > u32::MAX { u32::MAX } else { (num * (len as u32)) as u32 } } else { num as u32 }
}
/// number of simulated loops allowed when a term i has to explain len observations
pub open spec fn lim_loop(k: SimulationConfiguration, len: usize, i: SI) -> u32 {
    scaled(k, match k.loop_crit {
        SimulationLoopCriterion::MaxDepth => nld(i) as int,
        SimulationLoopCriterion::MaxNum => (cnt(i, SymbolKind::LoopS) + cnt(i, SymbolKind::LoopOther)) as int,
        SimulationLoopCriterion::SpecificNum(n) => n as int,
        SimulationLoopCriterion::None => 0,
    }, len)
}
/// number of simulated actions allowed
pub open spec fn lim_act(k: SimulationConfiguration, len: usize, i: SI) -> u32 {
    scaled(k, match k.act_crit {
        SimulationActionCriterion::MaxNumOutsideLoops => (nact(i, true) as u32) as int,
        SimulationActionCriterion::SpecificNum(n) => n as int,
        SimulationActionCriterion::None => 0,
    }, len)
}
/// the term is not too big for the counters
pub open spec fn small(i: SI) -> bool { conf(i) && nsym(i) <= u32::MAX && nact(i, true) <= usize::MAX }
pub open spec fn fsum(c: Seq<TraceAnalysisFlags>, n: int) -> int
    decreases n,
{
    if n <= 0 { 0 } else { fsum(c, n - 1) + c[n - 1].consumed }
}
pub proof fn l_fsum(c: Seq<TraceAnalysisFlags>, n: int)
    requires 0 <= n <= c.len(),
    ensures 0 <= fsum(c, n) <= fsum(c, c.len() as int),
    decreases c.len() - n,
{
    if n < c.len() { l_fsum(c, n + 1); } else { l_fsum0(c, n); }
    l_fsum0(c, n);
}
pub proof fn l_fsum0(c: Seq<TraceAnalysisFlags>, n: int)
    ensures 0 <= fsum(c, n),
    decreases n,
{
    if n > 0 { l_fsum0(c, n - 1); }
}
pub open spec fn least(a: u32, b: int) -> u32 { if a <= b { a } else if b < 0 { 0 } else { b as u32 } }
/// the limits after a step
pub open spec fn lims(k: SimulationConfiguration, f: MultiTraceAnalysisFlags, ncons: nat, depth: u32, total: usize, i2: SI, g: MultiTraceAnalysisFlags) -> bool {
    let left = (total - fsum(f.canals@, f.canals@.len() as int) - ncons) as usize;
    if ncons > 0 && !k.reset_crit_after_exec { g.rem_loop_in_sim == f.rem_loop_in_sim && g.rem_act_in_sim == f.rem_act_in_sim }
    else if ncons > 0 { g.rem_loop_in_sim == lim_loop(k, left, i2) && g.rem_act_in_sim == lim_act(k, left, i2) }
    else {
        g.rem_loop_in_sim == least(lim_loop(k, left, i2), f.rem_loop_in_sim - depth) && g.rem_act_in_sim == least(lim_act(k, left, i2), f.rem_act_in_sim - 1)
    }
}
// ------------------------------------------------------------------ the steps of a simulation
/// what the event e does on canal c
pub open spec fn ep(cs: Seq<ISet<usize>>, e: Ev, c: int) -> Ev {
    ISet::new(|a: TraceAction| e.contains(a) && first_at(cs, a.lf_id, c))
}
/// does e concern canal c ?
pub open spec fn tch(cs: Seq<ISet<usize>>, e: Ev, c: int) -> bool {
    exists|a: TraceAction| #[trigger] e.contains(a) && first_at(cs, a.lf_id, c)
}
/// the head of canal c is exactly what e does on it
pub open spec fn mt(cs: Seq<ISet<usize>>, r: Seq<Tr>, e: Ev, c: int) -> bool {
    hd(r, c, ep(cs, e, c))
}
/// what is done on canal c may be unobserved: canal c is finished, or it has not been started and observation may start late
pub open spec fn unb(sb: bool, f: MultiTraceAnalysisFlags, r: Seq<Tr>, c: int) -> bool {
    0 <= c < r.len() && (r[c].len() == 0 || sb && f.canals@[c].consumed == 0)
}
pub open spec fn simkind(r: Seq<Tr>, c: int) -> SimulationStepKind {
    if r[c].len() == 0 { SimulationStepKind::AfterEnd } else { SimulationStepKind::BeforeStart }
}
/// the limits allow to simulate an action below d loops
pub open spec fn crit_ok(k: SimulationConfiguration, f: MultiTraceAnalysisFlags, d: u32) -> bool {
    (k.act_crit is None || f.rem_act_in_sim > 0) && (k.loop_crit is None || d <= f.rem_loop_in_sim)
}
/// e may be executed while it is simulated on the canals of z and observed on the other canals it concerns
pub open spec fn asg(cs: Seq<ISet<usize>>, k: SimulationConfiguration, f: MultiTraceAnalysisFlags, r: Seq<Tr>, e: Ev, d: u32, z: ISet<usize>) -> bool {
    &&& forall|c: usize| #[trigger] z.contains(c) ==> tch(cs, e, c as int) && unb(k.sim_before, f, r, c as int)
    &&& forall|c: usize| tch(cs, e, c as int) && !(#[trigger] z.contains(c)) ==> mt(cs, r, e, c as int)
    &&& (exists|c: usize| #[trigger] z.contains(c)) ==> crit_ok(k, f, d)
}
pub open spec fn sstep(cs: Seq<ISet<usize>>, k: SimulationConfiguration, i: SI, f: MultiTraceAnalysisFlags, r: Seq<Tr>, s: AnalysisStepKind) -> bool {
    match s {
        AnalysisStepKind::Execute(x, consu, sim) => {
            &&& fe(i, 0, x)
            &&& asg(cs, k, f, r, x.target_actions@, x.max_loop_depth, sim@.dom())
            &&& forall|c: usize| #[trigger] consu@.contains(c) <==> tch(cs, x.target_actions@, c as int) && !sim@.contains_key(c)
            &&& forall|c: usize| #[trigger] sim@.contains_key(c) ==> sim@[c] == simkind(r, c as int)
        },
        _ => false,
    }
}
pub open spec fn has1(s: AnalysisStepKind, q: SP, z: ISet<usize>) -> bool {
    s is Execute && spos(s) == q && s->Execute_2@.dom() == z
}
/// the action at q is proposed, simulated on the canals of z
pub open spec fn has(s: Seq<AnalysisStepKind>, q: SP, z: ISet<usize>) -> bool {
    exists|j: int| 0 <= j < s.len() && has1(#[trigger] s[j], q, z)
}
pub open spec fn all_asg(cs: Seq<ISet<usize>>, k: SimulationConfiguration, f: MultiTraceAnalysisFlags, r: Seq<Tr>, x: FrontierElement, s: Seq<AnalysisStepKind>) -> bool {
    forall|z: ISet<usize>| #[trigger] asg(cs, k, f, r, x.target_actions@, x.max_loop_depth, z) ==> has(s, pv(x.position), z)
}
pub open spec fn sall(cs: Seq<ISet<usize>>, k: SimulationConfiguration, i: SI, f: MultiTraceAnalysisFlags, r: Seq<Tr>, s: Seq<AnalysisStepKind>) -> bool {
    forall|j: int| 0 <= j < s.len() ==> sstep(cs, k, i, f, r, #[trigger] s[j])
}
/// fs represents every way to start a behaviour of i, each of them is proposed in all the allowed ways
pub open spec fn sfull(cs: Seq<ISet<usize>>, k: SimulationConfiguration, i: SI, f: MultiTraceAnalysisFlags, r: Seq<Tr>, s: Seq<AnalysisStepKind>, fs: Seq<FrontierElement>) -> bool {
    &&& fok(i, 0, fs) && covers(i, fset(fs))
    &&& forall|p: int| 0 <= p < fs.len() ==> all_asg(cs, k, f, r, #[trigger] fs[p], s)
}
/// the steps are exactly the immediately executable actions, each with all the allowed choices of canals on which it is simulated
#[verifier::opaque]
pub open spec fn ssteps(cs: Seq<ISet<usize>>, k: SimulationConfiguration, i: SI, f: MultiTraceAnalysisFlags, r: Seq<Tr>, s: Seq<AnalysisStepKind>) -> bool {
    sall(cs, k, i, f, r, s) && exists|fs: Seq<FrontierElement>| #[trigger] sfull(cs, k, i, f, r, s, fs)
}
pub proof fn l_actp_acts(i: SI, p: SP)
    requires valid(i, p), conf(i),
    ensures actp(i, p).subset_of(acts(i)),
    decreases i,
{
    match (i, p) {
        (SI::Op(c, a, b), SP::Left(q)) => { l_actp_acts(*a, *q); },
        (SI::Op(c, a, b), SP::Right(q)) => { l_actp_acts(*b, *q); },
        (SI::Op(c, a, b), SP::Both(q1, q2)) => { l_actp_acts(*a, *q1); l_actp_acts(*b, *q2); },
        (SI::Alt(a, b), SP::Left(q)) => { l_actp_acts(*a, *q); },
        (SI::Alt(a, b), SP::Right(q)) => { l_actp_acts(*b, *q); },
        (SI::Alt(a, b), SP::Both(q1, q2)) => { l_actp_acts(*a, *q1); },
        (SI::Loop(_, a), SP::Left(q)) => { l_actp_acts(*a, *q); },
        _ => {},
    }
}
pub proof fn l_fe_cov(cs: Seq<ISet<usize>>, i: SI, x: FrontierElement)
    requires conf(i), fe(i, 0, x), cov(cs, inv(i)),
    ensures cov(cs, x.target_lf_ids@), forall|a: TraceAction| #[trigger] x.target_actions@.contains(a) ==> covx(cs, a.lf_id),
        x.target_lf_ids@ == lfs(x.target_actions@),
{
    let e = x.target_actions@;
    l_actp_acts(i, pv(x.position));
    l_acts_inv(i);
    assert forall|a: TraceAction| #[trigger] e.contains(a) implies covx(cs, a.lf_id) by {
        assert(acts(i).contains(a));
        assert(inv(i).contains(a.lf_id));
    }
    assert forall|l: usize| #[trigger] x.target_lf_ids@.contains(l) implies covx(cs, l) by {
        let a = choose|a: TraceAction| #[trigger] e.contains(a) && a.lf_id == l;
    }
}
pub proof fn l_first_uniq(cs: Seq<ISet<usize>>, l: usize, c: int, d: int)
    requires first_at(cs, l, c), first_at(cs, l, d),
    ensures c == d,
{
    if c < d { assert(!cs[c].contains(l)); }
    if d < c { assert(!cs[d].contains(l)); }
}
/// the actions of e which are not matched by the heads of the first n canals
pub open spec fn left(cs: Seq<ISet<usize>>, r: Seq<Tr>, e: Ev, n: int) -> Ev {
    ISet::new(|a: TraceAction| e.contains(a) && !matched(cs, r, e, n, a.lf_id))
}
pub open spec fn matched(cs: Seq<ISet<usize>>, r: Seq<Tr>, e: Ev, n: int, l: usize) -> bool {
    exists|c: int| 0 <= c < n && #[trigger] first_at(cs, l, c) && mt(cs, r, e, c)
}
pub proof fn l_left0(cs: Seq<ISet<usize>>, r: Seq<Tr>, e: Ev)
    ensures left(cs, r, e, 0) == e,
{
    assert(left(cs, r, e, 0) =~= e);
}
/// the head of canal n is h
pub proof fn l_head(cs: Seq<ISet<usize>>, r: Seq<Tr>, e: Ev, n: int, h: Ev)
    requires wfe(cs, n, h), hd(r, n, h),
    ensures
        forall|a: TraceAction| #[trigger] h.contains(a) ==> (left(cs, r, e, n).contains(a) <==> e.contains(a)),
        (exists|a: TraceAction| h.contains(a) && #[trigger] e.contains(a)) && (forall|a: TraceAction| #[trigger] h.contains(a) ==> e.contains(a))
            && (forall|a: TraceAction| #[trigger] e.contains(a) && first_at(cs, a.lf_id, n) ==> h.contains(a)) <==> mt(cs, r, e, n),
        mt(cs, r, e, n) ==> tch(cs, e, n) && left(cs, r, e, n + 1) == left(cs, r, e, n).difference(h),
        !mt(cs, r, e, n) ==> left(cs, r, e, n + 1) == left(cs, r, e, n),
{
    assert forall|a: TraceAction| #[trigger] h.contains(a) implies (left(cs, r, e, n).contains(a) <==> e.contains(a)) by {
        assert(lfs(h).contains(a.lf_id));
        assert(first_at(cs, a.lf_id, n));
        if matched(cs, r, e, n, a.lf_id) {
            let c = choose|c: int| 0 <= c < n && #[trigger] first_at(cs, a.lf_id, c) && mt(cs, r, e, c);
            l_first_uniq(cs, a.lf_id, c, n);
        }
    }
    let l = choose|l: usize| #[trigger] lfs(h).contains(l);
    let a0 = choose|a: TraceAction| #[trigger] h.contains(a) && a.lf_id == l;
    if (exists|a: TraceAction| h.contains(a) && #[trigger] e.contains(a)) && (forall|a: TraceAction| #[trigger] h.contains(a) ==> e.contains(a))
            && (forall|a: TraceAction| #[trigger] e.contains(a) && first_at(cs, a.lf_id, n) ==> h.contains(a)) {
        assert forall|a: TraceAction| h.contains(a) == ep(cs, e, n).contains(a) by {
            if h.contains(a) { assert(lfs(h).contains(a.lf_id)); }
        }
        assert(h =~= ep(cs, e, n));
    }
    if mt(cs, r, e, n) {
        assert(h == ep(cs, e, n));
        assert(h.contains(a0) && e.contains(a0) && first_at(cs, a0.lf_id, n));
        assert forall|a: TraceAction| left(cs, r, e, n + 1).contains(a) == left(cs, r, e, n).difference(h).contains(a) by {
            if e.contains(a) {
                if first_at(cs, a.lf_id, n) { assert(h.contains(a)); assert(matched(cs, r, e, n + 1, a.lf_id)); }
                else {
                    assert(!h.contains(a));
                    if matched(cs, r, e, n + 1, a.lf_id) { let c = choose|c: int| 0 <= c < n + 1 && #[trigger] first_at(cs, a.lf_id, c) && mt(cs, r, e, c); assert(matched(cs, r, e, n, a.lf_id)); }
                    if matched(cs, r, e, n, a.lf_id) { let c = choose|c: int| 0 <= c < n && #[trigger] first_at(cs, a.lf_id, c) && mt(cs, r, e, c); assert(matched(cs, r, e, n + 1, a.lf_id)); }
                }
            }
        }
        assert(left(cs, r, e, n + 1) =~= left(cs, r, e, n).difference(h));
    } else {
        l_left_same(cs, r, e, n);
    }
}
pub proof fn l_left_same(cs: Seq<ISet<usize>>, r: Seq<Tr>, e: Ev, n: int)
    requires !mt(cs, r, e, n),
    ensures left(cs, r, e, n + 1) == left(cs, r, e, n),
{
    assert forall|a: TraceAction| left(cs, r, e, n + 1).contains(a) == left(cs, r, e, n).contains(a) by {
        if matched(cs, r, e, n + 1, a.lf_id) { let c = choose|c: int| 0 <= c < n + 1 && #[trigger] first_at(cs, a.lf_id, c) && mt(cs, r, e, c); assert(matched(cs, r, e, n, a.lf_id)); }
        if matched(cs, r, e, n, a.lf_id) { let c = choose|c: int| 0 <= c < n && #[trigger] first_at(cs, a.lf_id, c) && mt(cs, r, e, c); assert(matched(cs, r, e, n + 1, a.lf_id)); }
    }
    assert(left(cs, r, e, n + 1) =~= left(cs, r, e, n));
}
/// the matching canals below n
pub open spec fn mlist(cs: Seq<ISet<usize>>, r: Seq<Tr>, e: Ev, n: int, m: Seq<usize>, ok: ISet<usize>) -> bool {
    &&& m.len() <= n
    &&& forall|c: usize| #[trigger] ok.contains(c) <==> c < n && mt(cs, r, e, c as int)
    &&& kset(m) == ok
}
pub proof fn l_mlist(cs: Seq<ISet<usize>>, r: Seq<Tr>, e: Ev, n: int, m: Seq<usize>, ok: ISet<usize>, m2: Seq<usize>, ok2: ISet<usize>)
    requires mlist(cs, r, e, n, m, ok), 0 <= n <= usize::MAX,
        mt(cs, r, e, n) ==> m2 == m.push(n as usize) && ok2 == ok.insert(n as usize),
        !mt(cs, r, e, n) ==> m2 == m && ok2 == ok,
    ensures mlist(cs, r, e, n + 1, m2, ok2),
{
    if mt(cs, r, e, n) {
        assert forall|c: usize| kset(m2).contains(c) == ok2.contains(c) by {
            if kset(m2).contains(c) { let j = choose|j: int| 0 <= j < m2.len() && (#[trigger] m2[j]).k() == c; if j < m.len() { l_kset_at(m, j); assert(kset(m).contains(c)); } }
            if ok.contains(c) { assert(kset(m).contains(c)); let j = choose|j: int| 0 <= j < m.len() && (#[trigger] m[j]).k() == c; assert(m2[j] == m[j]); l_kset_at(m2, j); }
            if c == n { assert(m2[m.len() as int] == n); l_kset_at(m2, m.len() as int); }
        }
        assert(kset(m2) =~= ok2);
    }
}
/// the canals on which e must be simulated
pub open spec fn unm(cs: Seq<ISet<usize>>, r: Seq<Tr>, e: Ev) -> ISet<usize> {
    ISet::new(|c: usize| tch(cs, e, c as int) && !mt(cs, r, e, c as int))
}
/// every allowed choice simulates at least the canals of unm
pub proof fn l_asg_unm(cs: Seq<ISet<usize>>, k: SimulationConfiguration, f: MultiTraceAnalysisFlags, r: Seq<Tr>, e: Ev, d: u32, z: ISet<usize>)
    requires asg(cs, k, f, r, e, d, z),
    ensures unm(cs, r, e).subset_of(z), forall|c: usize| #[trigger] unm(cs, r, e).contains(c) ==> unb(k.sim_before, f, r, c as int) && crit_ok(k, f, d),
{
    assert forall|c: usize| #[trigger] unm(cs, r, e).contains(c) implies z.contains(c) && unb(k.sim_before, f, r, c as int) && crit_ok(k, f, d) by {
        assert(z.contains(c));
    }
}
/// no choice is allowed
pub open spec fn noasg(cs: Seq<ISet<usize>>, k: SimulationConfiguration, f: MultiTraceAnalysisFlags, r: Seq<Tr>, e: Ev, d: u32) -> bool {
    forall|z: ISet<usize>| !#[trigger] asg(cs, k, f, r, e, d, z)
}
pub proof fn l_left_unm(cs: Seq<ISet<usize>>, r: Seq<Tr>, e: Ev, n: int, a: TraceAction, c: int)
    requires left(cs, r, e, n).contains(a), first_at(cs, a.lf_id, c), n == cs.len() <= usize::MAX,
    ensures unm(cs, r, e).contains(c as usize), 0 <= c < n,
{
    if mt(cs, r, e, c) { assert(matched(cs, r, e, n, a.lf_id)); }
    assert(e.contains(a));
    assert(tch(cs, e, c));
}
pub proof fn l_noasg(cs: Seq<ISet<usize>>, k: SimulationConfiguration, f: MultiTraceAnalysisFlags, r: Seq<Tr>, e: Ev, d: u32, c: usize)
    requires unm(cs, r, e).contains(c), !unb(k.sim_before, f, r, c as int) || !crit_ok(k, f, d),
    ensures noasg(cs, k, f, r, e, d),
{
    assert forall|z: ISet<usize>| !#[trigger] asg(cs, k, f, r, e, d, z) by {
        if asg(cs, k, f, r, e, d, z) { l_asg_unm(cs, k, f, r, e, d, z); }
    }
}
/// simulation of the canals of the first n of the actions left
pub open spec fn simd(cs: Seq<ISet<usize>>, sb: bool, f: MultiTraceAnalysisFlags, r: Seq<Tr>, s: Seq<&TraceAction>, n: int, m: IMap<usize, SimulationStepKind>) -> bool {
    &&& forall|c: usize| #[trigger] m.contains_key(c) ==> unb(sb, f, r, c as int) && m[c] == simkind(r, c as int) && simc(cs, s, n, c)
    &&& forall|j: int, c: usize| 0 <= j < n && #[trigger] first_at(cs, (#[trigger] s[j]).lf_id, c as int) ==> m.contains_key(c)
}
pub open spec fn simc(cs: Seq<ISet<usize>>, s: Seq<&TraceAction>, n: int, c: usize) -> bool {
    exists|j: int| 0 <= j < n && first_at(cs, (#[trigger] s[j]).lf_id, c as int)
}
pub proof fn l_simd(cs: Seq<ISet<usize>>, sb: bool, f: MultiTraceAnalysisFlags, r: Seq<Tr>, s: Seq<&TraceAction>, n: int, m: IMap<usize, SimulationStepKind>, c: usize)
    requires simd(cs, sb, f, r, s, n, m), 0 <= n < s.len(), first_at(cs, s[n].lf_id, c as int), unb(sb, f, r, c as int),
    ensures simd(cs, sb, f, r, s, n + 1, m.insert(c, simkind(r, c as int))),
{
    let m2 = m.insert(c, simkind(r, c as int));
    assert forall|d: usize| #[trigger] m2.contains_key(d) implies unb(sb, f, r, d as int) && m2[d] == simkind(r, d as int) && simc(cs, s, n + 1, d) by {
        if d == c { assert(first_at(cs, s[n].lf_id, c as int)); }
        else { assert(m.contains_key(d)); let j = choose|j: int| 0 <= j < n && first_at(cs, (#[trigger] s[j]).lf_id, d as int); assert(first_at(cs, s[j].lf_id, d as int)); }
    }
    assert forall|j: int, d: usize| 0 <= j < n + 1 && #[trigger] first_at(cs, (#[trigger] s[j]).lf_id, d as int) implies m2.contains_key(d) by {
        if j == n { l_first_uniq(cs, s[n].lf_id, c as int, d as int); }
    }
}
/// once all the actions left have been dealt with
pub proof fn l_simd_all(cs: Seq<ISet<usize>>, k: SimulationConfiguration, f: MultiTraceAnalysisFlags, r: Seq<Tr>, e: Ev, d: u32, s: Seq<&TraceAction>, m: IMap<usize, SimulationStepKind>)
    requires simd(cs, k.sim_before, f, r, s, s.len() as int, m), kset(s) == left(cs, r, e, cs.len() as int), cs.len() <= usize::MAX, s.len() > 0 ==> crit_ok(k, f, d),
    ensures m.dom() == unm(cs, r, e), asg(cs, k, f, r, e, d, m.dom()), forall|c: usize| #[trigger] m.contains_key(c) ==> m[c] == simkind(r, c as int),
{
    let n = cs.len() as int;
    assert forall|c: usize| m.dom().contains(c) == unm(cs, r, e).contains(c) by {
        if m.contains_key(c) {
            let j = choose|j: int| 0 <= j < s.len() && first_at(cs, (#[trigger] s[j]).lf_id, c as int);
            assert(s[j].k() == *s[j]);
            l_kset_at(s, j);
            l_left_unm(cs, r, e, n, *s[j], c as int);
        }
        if unm(cs, r, e).contains(c) {
            let a = choose|a: TraceAction| #[trigger] e.contains(a) && first_at(cs, a.lf_id, c as int);
            if matched(cs, r, e, n, a.lf_id) { let d = choose|d: int| 0 <= d < n && #[trigger] first_at(cs, a.lf_id, d) && mt(cs, r, e, d); l_first_uniq(cs, a.lf_id, c as int, d); }
            assert(left(cs, r, e, n).contains(a));
            assert(kset(s).contains(a));
            let j = choose|j: int| 0 <= j < s.len() && (#[trigger] s[j]).k() == a;
            assert(s[j].k() == *s[j]);
            assert(first_at(cs, s[j].lf_id, c as int));
        }
    }
    assert(m.dom() =~= unm(cs, r, e));
}
pub proof fn l_tgt(cs: Seq<ISet<usize>>, e: Ev, t: ISet<usize>)
    requires forall|k: usize| #[trigger] t.contains(k) <==> exists|lf: usize| #[trigger] lfs(e).contains(lf) && first_at(cs, lf, k as int),
    ensures forall|k: usize| #[trigger] t.contains(k) <==> tch(cs, e, k as int),
{
    assert forall|k: usize| #[trigger] t.contains(k) <==> tch(cs, e, k as int) by {
        if t.contains(k) {
            let lf = choose|lf: usize| #[trigger] lfs(e).contains(lf) && first_at(cs, lf, k as int);
            let a = choose|a: TraceAction| #[trigger] e.contains(a) && a.lf_id == lf;
            assert(e.contains(a) && first_at(cs, a.lf_id, k as int));
        }
        if tch(cs, e, k as int) {
            let a = choose|a: TraceAction| #[trigger] e.contains(a) && first_at(cs, a.lf_id, k as int);
            assert(lfs(e).contains(a.lf_id));
        }
    }
}
pub broadcast proof fn b_has_push(g: Seq<AnalysisStepKind>, x: AnalysisStepKind, q: SP, z: ISet<usize>)
    ensures #[trigger] has(g.push(x), q, z) == (has(g, q, z) || has1(x, q, z)),
{
    let h = g.push(x);
    if has(g, q, z) { let j = choose|j: int| 0 <= j < g.len() && has1(#[trigger] g[j], q, z); assert(has1(h[j], q, z)); }
    if has1(x, q, z) { assert(has1(h[g.len() as int], q, z)); }
    if has(h, q, z) { let j = choose|j: int| 0 <= j < h.len() && has1(#[trigger] h[j], q, z); if j < g.len() { assert(has1(g[j], q, z)); } }
}
/// s2 proposes all that s proposes
pub open spec fn ext(s: Seq<AnalysisStepKind>, s2: Seq<AnalysisStepKind>) -> bool {
    forall|q: SP, z: ISet<usize>| #[trigger] has(s, q, z) ==> has(s2, q, z)
}
/// one more step
pub proof fn l_push(cs: Seq<ISet<usize>>, k: SimulationConfiguration, i: SI, f: MultiTraceAnalysisFlags, r: Seq<Tr>, s: Seq<AnalysisStepKind>, y: FrontierElement, x: AnalysisStepKind, t: ISet<usize>)
    requires sall(cs, k, i, f, r, s), fe(i, 0, y), x is Execute, fsame(y, x->Execute_0), asg(cs, k, f, r, y.target_actions@, y.max_loop_depth, x->Execute_2@.dom()),
        forall|c: usize| #[trigger] x->Execute_2@.contains_key(c) ==> x->Execute_2@[c] == simkind(r, c as int),
        x->Execute_1@ == t.difference(x->Execute_2@.dom()), forall|c: usize| #[trigger] t.contains(c) <==> tch(cs, y.target_actions@, c as int),
    ensures sall(cs, k, i, f, r, s.push(x)), ext(s, s.push(x)), has(s.push(x), pv(y.position), x->Execute_2@.dom()),
{
    broadcast use b_has_push;
    let s2 = s.push(x);
    assert(fe(i, 0, x->Execute_0));
    assert forall|j: int| 0 <= j < s2.len() implies sstep(cs, k, i, f, r, #[trigger] s2[j]) by {
        if j < s.len() { assert(s2[j] == s[j]); } else { assert(s2[j] == x); assert(sstep(cs, k, i, f, r, x)); }
    }
    assert(has1(x, pv(y.position), x->Execute_2@.dom()));
}
/// simulation of the first n canals of w, in addition to those of u
pub open spec fn simw(sb: bool, f: MultiTraceAnalysisFlags, r: Seq<Tr>, u: ISet<usize>, w: Seq<usize>, n: int, m: IMap<usize, SimulationStepKind>) -> bool {
    &&& m.dom() == u.union(kset(w.take(n)))
    &&& forall|c: usize| #[trigger] m.contains_key(c) ==> unb(sb, f, r, c as int) && m[c] == simkind(r, c as int)
}
pub proof fn l_simw(sb: bool, f: MultiTraceAnalysisFlags, r: Seq<Tr>, u: ISet<usize>, w: Seq<usize>, n: int, m: IMap<usize, SimulationStepKind>)
    requires simw(sb, f, r, u, w, n, m), 0 <= n < w.len(), unb(sb, f, r, w[n] as int),
    ensures simw(sb, f, r, u, w, n + 1, m.insert(w[n], simkind(r, w[n] as int))),
{
    let m2 = m.insert(w[n], simkind(r, w[n] as int));
    l_kset_take(w, n);
    assert(m2.dom() =~= u.union(kset(w.take(n + 1))));
}
pub proof fn l_kset_take(w: Seq<usize>, n: int)
    requires 0 <= n < w.len(),
    ensures kset(w.take(n + 1)) == kset(w.take(n)).insert(w[n]),
{
    let a = w.take(n);
    let b = w.take(n + 1);
    assert forall|c: usize| kset(b).contains(c) == kset(a).insert(w[n]).contains(c) by {
        if kset(b).contains(c) { let j = choose|j: int| 0 <= j < b.len() && (#[trigger] b[j]).k() == c; if j < n { assert(a[j] == b[j]); l_kset_at(a, j); } }
        if kset(a).contains(c) { let j = choose|j: int| 0 <= j < a.len() && (#[trigger] a[j]).k() == c; assert(a[j] == b[j]); l_kset_at(b, j); }
        if c == w[n] { l_kset_at(b, n); }
    }
    assert(kset(b) =~= kset(a).insert(w[n]));
}
/// the allowed choices are unm and a part of the matching canals
pub proof fn l_choices(cs: Seq<ISet<usize>>, k: SimulationConfiguration, f: MultiTraceAnalysisFlags, r: Seq<Tr>, e: Ev, d: u32, z: ISet<usize>)
    requires asg(cs, k, f, r, e, d, z), cs.len() <= usize::MAX,
    ensures z.difference(unm(cs, r, e)).subset_of(ISet::new(|c: usize| c < cs.len() && mt(cs, r, e, c as int))),
        z == unm(cs, r, e).union(z.difference(unm(cs, r, e))),
        z != unm(cs, r, e) ==> crit_ok(k, f, d) && exists|c: usize| #[trigger] z.difference(unm(cs, r, e)).contains(c),
{
    let u = unm(cs, r, e);
    l_asg_unm(cs, k, f, r, e, d, z);
    assert(z =~= u.union(z.difference(u)));
    assert forall|c: usize| #[trigger] z.difference(u).contains(c) implies c < cs.len() && mt(cs, r, e, c as int) by {
        assert(z.contains(c));
        assert(tch(cs, e, c as int));
    }
    if z != u {
        if forall|c: usize| !#[trigger] z.difference(u).contains(c) { assert(z =~= u); }
        let c = choose|c: usize| #[trigger] z.difference(u).contains(c);
        assert(z.contains(c));
    }
}
/// unm and a part w of the matching canals, all of which may be unobserved
pub proof fn l_asg_more(cs: Seq<ISet<usize>>, k: SimulationConfiguration, f: MultiTraceAnalysisFlags, r: Seq<Tr>, e: Ev, d: u32, ok: ISet<usize>, w: ISet<usize>)
    requires asg(cs, k, f, r, e, d, unm(cs, r, e)), crit_ok(k, f, d), w.subset_of(ok), forall|c: usize| #[trigger] ok.contains(c) ==> c < cs.len() && mt(cs, r, e, c as int) && tch(cs, e, c as int),
        forall|c: usize| #[trigger] w.contains(c) ==> unb(k.sim_before, f, r, c as int),
    ensures asg(cs, k, f, r, e, d, unm(cs, r, e).union(w)),
{
    let u = unm(cs, r, e);
    let z = u.union(w);
    assert forall|c: usize| tch(cs, e, c as int) && !(#[trigger] z.contains(c)) implies mt(cs, r, e, c as int) by { assert(!u.contains(c)); }
    assert forall|c: usize| #[trigger] z.contains(c) implies tch(cs, e, c as int) && unb(k.sim_before, f, r, c as int) by { if w.contains(c) { assert(ok.contains(c)); } else { assert(u.contains(c)); } }
}
/// the first n combinations have been dealt with
pub open spec fn combd(cs: Seq<ISet<usize>>, k: SimulationConfiguration, f: MultiTraceAnalysisFlags, r: Seq<Tr>, x: FrontierElement, cb: Seq<Vec<usize>>, n: int, s: Seq<AnalysisStepKind>) -> bool {
    forall|j: int| 0 <= j < n ==> comb1(cs, k, f, r, x, kset((#[trigger] cb[j])@), s)
}
pub open spec fn comb1(cs: Seq<ISet<usize>>, k: SimulationConfiguration, f: MultiTraceAnalysisFlags, r: Seq<Tr>, x: FrontierElement, w: ISet<usize>, s: Seq<AnalysisStepKind>) -> bool {
    let z = unm(cs, r, x.target_actions@).union(w);
    asg(cs, k, f, r, x.target_actions@, x.max_loop_depth, z) ==> has(s, pv(x.position), z)
}
pub proof fn l_combd(cs: Seq<ISet<usize>>, k: SimulationConfiguration, f: MultiTraceAnalysisFlags, r: Seq<Tr>, x: FrontierElement, cb: Seq<Vec<usize>>, n: int, s: Seq<AnalysisStepKind>, s2: Seq<AnalysisStepKind>)
    requires combd(cs, k, f, r, x, cb, n, s), ext(s, s2), 0 <= n < cb.len(), comb1(cs, k, f, r, x, kset(cb[n]@), s2),
    ensures combd(cs, k, f, r, x, cb, n + 1, s2),
{
    assert forall|j: int| 0 <= j < n + 1 implies comb1(cs, k, f, r, x, kset((#[trigger] cb[j])@), s2) by {
        if j < n { assert(comb1(cs, k, f, r, x, kset(cb[j]@), s)); }
    }
}
pub proof fn l_all_asg(cs: Seq<ISet<usize>>, k: SimulationConfiguration, f: MultiTraceAnalysisFlags, r: Seq<Tr>, x: FrontierElement, cb: Seq<Vec<usize>>, ok: ISet<usize>, s: Seq<AnalysisStepKind>)
    requires has(s, pv(x.position), unm(cs, r, x.target_actions@)), cs.len() <= usize::MAX, forall|c: usize| #[trigger] ok.contains(c) <==> c < cs.len() && mt(cs, r, x.target_actions@, c as int),
        (exists|c: usize| #[trigger] ok.contains(c)) && crit_ok(k, f, x.max_loop_depth) ==> allsub(cb, ok) && combd(cs, k, f, r, x, cb, cb.len() as int, s),
    ensures all_asg(cs, k, f, r, x, s),
{
    let e = x.target_actions@;
    let d = x.max_loop_depth;
    let u = unm(cs, r, e);
    assert forall|z: ISet<usize>| #[trigger] asg(cs, k, f, r, e, d, z) implies has(s, pv(x.position), z) by {
        l_choices(cs, k, f, r, e, d, z);
        if z != u {
            let w = z.difference(u);
            assert forall|c: usize| #[trigger] w.contains(c) implies ok.contains(c) by { assert(ISet::new(|c: usize| c < cs.len() && mt(cs, r, e, c as int)).contains(c)); }
            let c = choose|c: usize| #[trigger] w.contains(c);
            assert(ok.contains(c));
            assert(w.subset_of(ok));
            assert(issub(cb, w));
            let j = choose|j: int| 0 <= j < cb.len() && kset((#[trigger] cb[j])@) == w;
            assert(comb1(cs, k, f, r, x, kset(cb[j]@), s));
        }
    }
}
pub proof fn l_it_all(s: Seq<&TraceAction>, h: Ev)
    requires kset(s) == h,
    ensures forall|a: TraceAction| #[trigger] h.contains(a) ==> exists|j: int| 0 <= j < s.len() && *(#[trigger] s[j]) == a,
        forall|j: int| 0 <= j < s.len() ==> h.contains(*(#[trigger] s[j])),
{
    assert forall|a: TraceAction| #[trigger] h.contains(a) implies exists|j: int| 0 <= j < s.len() && *(#[trigger] s[j]) == a by {
        assert(kset(s).contains(a));
        let j = choose|j: int| 0 <= j < s.len() && (#[trigger] s[j]).k() == a;
        assert(s[j].k() == *s[j]);
    }
    assert forall|j: int| 0 <= j < s.len() implies h.contains(*(#[trigger] s[j])) by { l_kset_at(s, j); assert(s[j].k() == *s[j]); }
}
pub proof fn l_kset_take_r(w: Seq<&TraceAction>, n: int)
    requires 0 <= n < w.len(),
    ensures kset(w.take(n + 1)) == kset(w.take(n)).insert(*w[n]),
{
    let a = w.take(n);
    let b = w.take(n + 1);
    assert(w[n].k() == *w[n]);
    assert forall|c: TraceAction| kset(b).contains(c) == kset(a).insert(*w[n]).contains(c) by {
        if kset(b).contains(c) { let j = choose|j: int| 0 <= j < b.len() && (#[trigger] b[j]).k() == c; if j < n { assert(a[j] == b[j]); l_kset_at(a, j); } }
        if kset(a).contains(c) { let j = choose|j: int| 0 <= j < a.len() && (#[trigger] a[j]).k() == c; assert(a[j] == b[j]); l_kset_at(b, j); }
        if c == *w[n] { l_kset_at(b, n); }
    }
    assert(kset(b) =~= kset(a).insert(*w[n]));
}
/// a covered lifeline has a first co-localization
pub proof fn l_covx(cs: Seq<ISet<usize>>, l: usize)
    requires covx(cs, l),
    ensures exists|c: int| first_at(cs, l, c),
{
    let k = choose|k: int| 0 <= k < cs.len() && (#[trigger] cs[k]).contains(l);
    l_covx_rec(cs, l, k);
}
pub proof fn l_covx_rec(cs: Seq<ISet<usize>>, l: usize, k: int)
    requires 0 <= k < cs.len(), cs[k].contains(l),
    ensures exists|c: int| first_at(cs, l, c),
    decreases k,
{
    if exists|j: int| 0 <= j < k && (#[trigger] cs[j]).contains(l) {
        let j = choose|j: int| 0 <= j < k && (#[trigger] cs[j]).contains(l);
        l_covx_rec(cs, l, j);
    } else { assert(first_at(cs, l, k)); }
}
