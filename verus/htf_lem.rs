// ============================================================================================
// What a tree of the grammar of multi-traces denotes
// ============================================================================================
/// one element of a trace: an action, or several simultaneous ones
pub open spec fn d_el(g: GeneralContext, t: PT) -> Option<ISet<TraceAction>> { d_sync(g, t) }
pub open spec fn d_seq(g: GeneralContext, s: Seq<PT>, n: int) -> Option<Seq<ISet<TraceAction>>>
    decreases n,
{
    if n <= 0 { Some(Seq::empty()) } else {
        match (d_seq(g, s, n - 1), d_el(g, s[n - 1])) { (Some(v), Some(e)) => Some(v.push(e)), _ => None }
    }
}
pub proof fn lem_seq_none(g: GeneralContext, s: Seq<PT>, b: int, c: int)
    requires 0 <= b <= c <= s.len(), d_seq(g, s, b) is None,
    ensures d_seq(g, s, c) is None,
    decreases c - b,
{
    if b < c { assert(d_seq(g, s, b + 1) is None); lem_seq_none(g, s, b + 1, c); }
}
pub proof fn lem_seq_in(g: GeneralContext, s: Seq<PT>, b: int, c: int)
    requires 0 <= b <= c <= s.len(), d_seq(g, s, c) is Some,
    ensures d_seq(g, s, b) is Some, tlfs(d_seq(g, s, b)->0).subset_of(tlfs(d_seq(g, s, c)->0)),
    decreases c - b,
{
    if b < c { lem_seq_in(g, s, b, c - 1); assert(d_seq(g, s, c)->0.drop_last() =~= d_seq(g, s, c - 1)->0); }
}
pub open spec fn tvw(t: Seq<BTreeSet<TraceAction>>) -> Seq<ISet<TraceAction>> { Seq::new(t.len(), |j: int| t[j]@) }
pub open spec fn mvw(t: Seq<Vec<BTreeSet<TraceAction>>>) -> Seq<Seq<ISet<TraceAction>>> { Seq::new(t.len(), |j: int| tvw(t[j]@)) }
pub open spec fn svw(t: Seq<BTreeSet<usize>>) -> Seq<ISet<usize>> { Seq::new(t.len(), |j: int| t[j]@) }
/// lifelines of an element
pub open spec fn elfs(e: ISet<TraceAction>) -> ISet<usize> { ISet::new(|x: usize| exists|a: TraceAction| #[trigger] e.contains(a) && a.lf_id == x) }
/// lifelines of a trace
pub open spec fn tlfs(v: Seq<ISet<TraceAction>>) -> ISet<usize>
    decreases v.len(),
{
    if v.len() == 0 { ISet::empty() } else { tlfs(v.drop_last()).union(elfs(v.last())) }
}
pub proof fn lem_elfs1(a: TraceAction)
    ensures elfs(ISet::empty().insert(a)) =~= ISet::<usize>::empty().insert(a.lf_id),
{
    let e = ISet::<TraceAction>::empty().insert(a);
    assert(e.contains(a));
}
pub proof fn lem_elfsi(e: ISet<TraceAction>, a: TraceAction)
    ensures elfs(e.insert(a)) =~= elfs(e).insert(a.lf_id),
{
    assert(e.insert(a).contains(a));
    assert forall|x: usize| elfs(e).contains(x) implies elfs(e.insert(a)).contains(x) by { let b = choose|b: TraceAction| #[trigger] e.contains(b) && b.lf_id == x; assert(e.insert(a).contains(b)); }
    assert forall|x: usize| elfs(e.insert(a)).contains(x) implies elfs(e).insert(a.lf_id).contains(x) by { let b = choose|b: TraceAction| #[trigger] e.insert(a).contains(b) && b.lf_id == x; assert(b == a || e.contains(b)); }
}
/// what is read of lifelines l, ls being those known before, un those of other co-localizations
pub open spec fn lfok(l: ISet<usize>, un: ISet<usize>, ls: ISet<usize>, add: bool) -> bool { l.disjoint(un) && (add || l.subset_of(ls)) }
pub open spec fn lfup(l: ISet<usize>, ls: ISet<usize>, add: bool) -> ISet<usize> { if add { ls.union(l) } else { ls } }

pub open spec fn alll(g: GeneralContext) -> ISet<usize> { ISet::new(|x: usize| x < g.lf_names@.len()) }
/// the lifelines listed for a co-localization
pub open spec fn d_lset(g: GeneralContext, s: Seq<PT>, n: int) -> Option<ISet<usize>>
    decreases n,
{
    if n <= 0 { Some(ISet::empty()) } else {
        match (d_lset(g, s, n - 1), lfid(g, s[n - 1])) { (Some(v), Some(l)) => Some(v.insert(l)), _ => None }
    }
}
pub proof fn lem_lset_none(g: GeneralContext, s: Seq<PT>, b: int, c: int)
    requires 0 <= b <= c <= s.len(), d_lset(g, s, b) is None,
    ensures d_lset(g, s, c) is None,
    decreases c - b,
{
    if b < c { assert(d_lset(g, s, b + 1) is None); lem_lset_none(g, s, b + 1, c); }
}
pub proof fn lem_lset_in(g: GeneralContext, s: Seq<PT>, b: int, c: int)
    requires 0 <= b <= c <= s.len(), d_lset(g, s, c) is Some,
    ensures d_lset(g, s, b) is Some, d_lset(g, s, b)->0.subset_of(d_lset(g, s, c)->0),
    decreases c - b,
{
    if b < c { lem_lset_in(g, s, b, c - 1); }
}
/// a co-localization and its trace: no lifeline of it is in un, its actions are on its lifelines
pub open spec fn d_canal(g: GeneralContext, t: PT, un: ISet<usize>) -> Option<(ISet<usize>, Seq<ISet<TraceAction>>)> {
    let c = t.kids[0];
    match d_seq(g, t.kids[1].kids, t.kids[1].kids.len() as int) {
        None => None,
        Some(v) => if c.rule is CANAL_LIFELINES_any { if tlfs(v).disjoint(un) { Some((tlfs(v), v)) } else { None } }
            else if c.rule is CANAL_LIFELINES_all { if tlfs(v).subset_of(alll(g).difference(un)) { Some((alll(g).difference(un), v)) } else { None } }
            else { match d_lset(g, c.kids, c.kids.len() as int) { None => None, Some(l) => if l.disjoint(un) && tlfs(v).subset_of(l) { Some((l, v)) } else { None } } },
    }
}
pub open spec fn uni(c: Seq<ISet<usize>>) -> ISet<usize>
    decreases c.len(),
{
    if c.len() == 0 { ISet::empty() } else { uni(c.drop_last()).union(c.last()) }
}
pub open spec fn d_canals(g: GeneralContext, s: Seq<PT>, n: int) -> Option<(Seq<ISet<usize>>, Seq<Seq<ISet<TraceAction>>>)>
    decreases n,
{
    if n <= 0 { Some((Seq::empty(), Seq::empty())) } else {
        match d_canals(g, s, n - 1) {
            None => None,
            Some(q) => match d_canal(g, s[n - 1], uni(q.0)) { None => None, Some(x) => Some((q.0.push(x.0), q.1.push(x.1))) },
        }
    }
}
pub proof fn lem_canals_none(g: GeneralContext, s: Seq<PT>, b: int, c: int)
    requires 0 <= b <= c <= s.len(), d_canals(g, s, b) is None,
    ensures d_canals(g, s, c) is None,
    decreases c - b,
{
    if b < c { assert(d_canals(g, s, b + 1) is None); lem_canals_none(g, s, b + 1, c); }
}
/// co-localizations c and traces v, the lifelines which are left having their own, with no action
pub open spec fn completed(g: GeneralContext, c: Seq<ISet<usize>>, v: Seq<Seq<ISet<TraceAction>>>, c2: Seq<ISet<usize>>, v2: Seq<Seq<ISet<TraceAction>>>) -> bool {
    exists|o: Seq<usize>| #[trigger] completedo(g, c, v, c2, v2, o)
}
pub open spec fn completedo(g: GeneralContext, c: Seq<ISet<usize>>, v: Seq<Seq<ISet<TraceAction>>>, c2: Seq<ISet<usize>>, v2: Seq<Seq<ISet<TraceAction>>>, o: Seq<usize>) -> bool {
    &&& c2 == c + Seq::new(o.len(), |j: int| ISet::<usize>::empty().insert(o[j]))
    &&& v2 == v + Seq::new(o.len(), |j: int| Seq::<ISet<TraceAction>>::empty())
    &&& o.no_duplicates()
    &&& forall|x: usize| o.contains(x) <==> #[trigger] alll(g).difference(uni(c)).contains(x)
}
/// what the tree t (a trace or a multi-trace) denotes
pub open spec fn d_mt(g: GeneralContext, t: PT, c2: Seq<ISet<usize>>, v2: Seq<Seq<ISet<TraceAction>>>) -> bool {
    let k = t.kids[0];
    let n = k.kids.len() as int;
    if k.rule is TRACE_SEQUENCE { d_seq(g, k.kids, n) is Some && c2 == seq![alll(g)] && v2 == seq![d_seq(g, k.kids, n)->0] }
    else { d_canals(g, k.kids, n) is Some && completed(g, d_canals(g, k.kids, n)->Some_0.0, d_canals(g, k.kids, n)->Some_0.1, c2, v2) }
}
pub open spec fn d_bad(g: GeneralContext, t: PT) -> bool {
    let k = t.kids[0];
    let n = k.kids.len() as int;
    if k.rule is TRACE_SEQUENCE { d_seq(g, k.kids, n) is None } else { d_canals(g, k.kids, n) is None }
}
/// every lifeline is in exactly one co-localization, one trace each, of actions on its lifelines
pub open spec fn parted(g: GeneralContext, c: Seq<ISet<usize>>, v: Seq<Seq<ISet<TraceAction>>>) -> bool {
    &&& c.len() == v.len()
    &&& forall|i: int, j: int| 0 <= i < j < c.len() ==> (#[trigger] c[i]).disjoint(#[trigger] c[j])
    &&& forall|x: usize| #[trigger] alll(g).contains(x) <==> covx(c, x)
    &&& forall|j: int| 0 <= j < c.len() ==> tlfs(#[trigger] v[j]).subset_of(c[j])
}
pub proof fn lem_uni(c: Seq<ISet<usize>>, x: usize)
    ensures uni(c).contains(x) <==> exists|j: int| 0 <= j < c.len() && (#[trigger] c[j]).contains(x),
    decreases c.len(),
{
    if c.len() > 0 {
        lem_uni(c.drop_last(), x);
        if uni(c.drop_last()).contains(x) { let j = choose|j: int| 0 <= j < c.len() - 1 && (#[trigger] c.drop_last()[j]).contains(x); assert(c[j].contains(x)); }
        if c.last().contains(x) { assert(c[c.len() - 1].contains(x)); }
        if exists|j: int| 0 <= j < c.len() && (#[trigger] c[j]).contains(x) {
            let j = choose|j: int| 0 <= j < c.len() && (#[trigger] c[j]).contains(x);
            if j < c.len() - 1 { assert(c.drop_last()[j].contains(x)); }
        }
    }
}
pub proof fn lem_dta(g: GeneralContext, t: PT)
    requires wfg(g), d_ta(g, t) is Some,
    ensures d_ta(g, t)->0.lf_id < g.lf_names@.len(), d_ta(g, t)->0.ms_id < g.ms_names@.len(),
{}
pub proof fn lem_dtas(g: GeneralContext, s: Seq<PT>, n: int)
    requires wfg(g), d_tas(g, s, n) is Some,
    ensures forall|a: TraceAction| #[trigger] d_tas(g, s, n)->0.contains(a) ==> a.lf_id < g.lf_names@.len(),
    decreases n,
{
    if n > 0 { lem_dtas(g, s, n - 1); lem_dta(g, s[n - 1]); }
}
pub proof fn lem_dseq(g: GeneralContext, s: Seq<PT>, n: int)
    requires wfg(g), d_seq(g, s, n) is Some,
    ensures tlfs(d_seq(g, s, n)->0).subset_of(alll(g)),
    decreases n,
{
    if n > 0 {
        lem_dseq(g, s, n - 1);
        let t = s[n - 1];
        let e = d_el(g, t)->0;
        assert forall|a: TraceAction| #[trigger] e.contains(a) implies a.lf_id < g.lf_names@.len() by { if t.rule is TRACE_ACTION { lem_dta(g, t); } else { lem_dtas(g, t.kids, t.kids.len() as int); } }
        let v = d_seq(g, s, n)->0;
        assert(v.drop_last() =~= d_seq(g, s, n - 1)->0);
    }
}
pub proof fn lem_dlset(g: GeneralContext, s: Seq<PT>, n: int)
    requires wfg(g), d_lset(g, s, n) is Some,
    ensures d_lset(g, s, n)->0.subset_of(alll(g)),
    decreases n,
{
    if n > 0 { lem_dlset(g, s, n - 1); }
}
pub open spec fn pre_part(g: GeneralContext, c: Seq<ISet<usize>>, v: Seq<Seq<ISet<TraceAction>>>) -> bool {
    &&& c.len() == v.len()
    &&& forall|i: int, j: int| 0 <= i < j < c.len() ==> (#[trigger] c[i]).disjoint(#[trigger] c[j])
    &&& forall|j: int| 0 <= j < c.len() ==> (#[trigger] c[j]).subset_of(alll(g))
    &&& forall|j: int| 0 <= j < c.len() ==> tlfs(#[trigger] v[j]).subset_of(c[j])
}
pub proof fn lem_canals(g: GeneralContext, s: Seq<PT>, n: int)
    requires wfg(g), d_canals(g, s, n) is Some, 0 <= n <= s.len(),
    ensures pre_part(g, d_canals(g, s, n)->Some_0.0, d_canals(g, s, n)->Some_0.1),
    decreases n,
{
    if n > 0 {
        lem_canals(g, s, n - 1);
        let (c0, v0) = d_canals(g, s, n - 1)->0;
        let (c, v) = d_canals(g, s, n)->0;
        let t = s[n - 1];
        let x = d_canal(g, t, uni(c0))->0;
        lem_dseq(g, t.kids[1].kids, t.kids[1].kids.len() as int);
        if !(t.kids[0].rule is CANAL_LIFELINES_any) && !(t.kids[0].rule is CANAL_LIFELINES_all) { lem_dlset(g, t.kids[0].kids, t.kids[0].kids.len() as int); }
        assert(x.0.subset_of(alll(g)) && tlfs(x.1).subset_of(x.0) && x.0.disjoint(uni(c0)));
        assert forall|i: int, j: int| 0 <= i < j < c.len() implies (#[trigger] c[i]).disjoint(#[trigger] c[j]) by {
            if j == c.len() - 1 { assert(c[i] == c0[i]); assert forall|y: usize| c[i].contains(y) implies !c[j].contains(y) by { lem_uni(c0, y); assert(c0[i].contains(y)); } } else { assert(c[i] == c0[i] && c[j] == c0[j]); }
        }
        assert forall|j: int| 0 <= j < c.len() implies (#[trigger] c[j]).subset_of(alll(g)) by { if j < c.len() - 1 { assert(c[j] == c0[j]); } }
        assert forall|j: int| 0 <= j < c.len() implies tlfs(#[trigger] v[j]).subset_of(c[j]) by { if j < c.len() - 1 { assert(v[j] == v0[j]); assert(c[j] == c0[j]); } }
    }
}
/// THEOREM: what is read is a partition of all lifelines, with one trace each, of actions on its lifelines
pub broadcast proof fn thm_parted(g: GeneralContext, t: PT, c: Seq<ISet<usize>>, v: Seq<Seq<ISet<TraceAction>>>)
    requires wfg(g), #[trigger] d_mt(g, t, c, v),
    ensures parted(g, c, v),
{
    let k = t.kids[0];
    let n = k.kids.len() as int;
    if k.rule is TRACE_SEQUENCE {
        lem_dseq(g, k.kids, n);
        assert forall|x: usize| #[trigger] alll(g).contains(x) == covx(c, x) by { assert(c[0] == alll(g)); }
    } else {
        let (c0, v0) = d_canals(g, k.kids, n)->0;
        lem_canals(g, k.kids, n);
        let o = choose|o: Seq<usize>| #[trigger] completedo(g, c0, v0, c, v, o);
        let m = c0.len() as int;
        assert forall|j: int| m <= j < c.len() implies #[trigger] c[j] == ISet::<usize>::empty().insert(o[j - m]) && alll(g).difference(uni(c0)).contains(o[j - m]) by { assert(o.contains(o[j - m])); }
        assert forall|i: int, j: int| 0 <= i < j < c.len() implies (#[trigger] c[i]).disjoint(#[trigger] c[j]) by {
            if j < m { assert(c[i] == c0[i] && c[j] == c0[j]); }
            else if i < m { assert(c[i] == c0[i]); lem_uni(c0, o[j - m]); }
            else { assert(o[i - m] != o[j - m]); }
        }
        assert forall|x: usize| #[trigger] alll(g).contains(x) implies covx(c, x) by {
            lem_uni(c0, x);
            if uni(c0).contains(x) { let j = choose|j: int| 0 <= j < c0.len() && (#[trigger] c0[j]).contains(x); assert(c[j].contains(x)); }
            else { assert(alll(g).difference(uni(c0)).contains(x)); let q = choose|q: int| 0 <= q < o.len() && o[q] == x; assert(c[m + q].contains(x)); }
        }
        assert forall|x: usize| covx(c, x) implies #[trigger] alll(g).contains(x) by { let j = choose|j: int| 0 <= j < c.len() && (#[trigger] c[j]).contains(x); if j < m { assert(c[j] == c0[j]); } }
        assert forall|j: int| 0 <= j < c.len() implies tlfs(#[trigger] v[j]).subset_of(c[j]) by { if j < m { assert(v[j] == v0[j] && c[j] == c0[j]); } else { assert(v[j] == Seq::<ISet<TraceAction>>::empty()); } }
    }
}
/// the parser of multi-traces
pub struct HtfParser { pub dummy: u8 }
impl HtfParser {
    #[verifier::external_body]
    pub fn parse(r: Rule, s: &str) -> (p: Result<Pairs<Rule>, PErr>)
        ensures p is Ok ==> p->Ok_0.pos() == 0 && parsed(r, s@, trees(p->Ok_0.all())) && p->Ok_0.all().len() == 1 && p->Ok_0.all()[0].view().rule == r && wft(p->Ok_0.all()[0].view()),
            p is Err ==> refused(r, s@),
    { unimplemented!() }
}
/// THEOREM (reading): what is read from s is what its tree denotes (and is a partition), or else s has no tree or its tree denotes nothing
pub open spec fn reads_mt(g: GeneralContext, s: Seq<char>, c: Seq<ISet<usize>>, v: Seq<Seq<ISet<TraceAction>>>) -> bool {
    exists|t: Seq<PT>| #[trigger] parsed(Rule::HTF_PEST_FILE, s, t) && d_mt(g, t[0], c, v) && parted(g, c, v)
}
pub open spec fn rejects_mt(g: GeneralContext, s: Seq<char>) -> bool {
    ||| refused(Rule::HTF_PEST_FILE, s)
    ||| exists|t: Seq<PT>| #[trigger] parsed(Rule::HTF_PEST_FILE, s, t) && d_bad(g, t[0])
}
pub proof fn lem_elfs_sub(x: ISet<TraceAction>, y: ISet<TraceAction>)
    requires x.subset_of(y),
    ensures elfs(x).subset_of(elfs(y)),
{
    assert forall|l: usize| elfs(x).contains(l) implies elfs(y).contains(l) by { let a = choose|a: TraceAction| #[trigger] x.contains(a) && a.lf_id == l; assert(y.contains(a)); }
}
pub broadcast proof fn b_top(t: PT)
    requires #[trigger] wft(t), t.rule is HTF_PEST_FILE,
    ensures t.kids.len() >= 1, wft(t.kids[0]), t.kids[0].rule is MULTI_TRACE || t.kids[0].rule is TRACE_SEQUENCE,
        forall|j: int| 0 <= j < t.kids[0].kids.len() ==> wft(#[trigger] t.kids[0].kids[j]) && (t.kids[0].rule is MULTI_TRACE ==> t.kids[0].kids[j].rule is CANAL_TRACE),
{
    assert(shape(t));
    assert(wft(t.kids[0]));
    assert(shape(t.kids[0]));
}
pub broadcast proof fn b_cvw(c: CoLocalizations)
    ensures #[trigger] cvw(c) == svw(c.locs_lf_ids@),
{ assert(cvw(c) =~= svw(c.locs_lf_ids@)); }
pub broadcast proof fn b_triv(c: CoLocalizations, g: GeneralContext)
    requires cvw(c).len() == 1, forall|x: usize| #[trigger] cvw(c)[0].contains(x) <==> x < g.lf_names@.len(), #[trigger] wfg(g),
    ensures #[trigger] cvw(c) == seq![alll(g)],
{ assert(cvw(c)[0] =~= alll(g)); assert(cvw(c) =~= seq![alll(g)]); }
pub broadcast proof fn b_mv1(x: Seq<Vec<BTreeSet<TraceAction>>>)
    requires x.len() == 1,
    ensures #[trigger] mvw(x) == seq![tvw(x[0]@)],
{ assert(mvw(x) =~= seq![tvw(x[0]@)]); }
pub broadcast group g_htf { b_top, b_cvw, b_triv, b_mv1, thm_parted }
