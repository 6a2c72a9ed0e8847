// ============================================================================================
// Writing of multi-traces: the trees which are written, and what they denote
// ============================================================================================
/// names have no white space
pub open spec fn okn(g: GeneralContext) -> bool {
    &&& wfg(g)
    &&& forall|j: int| 0 <= j < g.lf_names@.len() ==> strip((#[trigger] g.lf_names@[j])@) == g.lf_names@[j]@
    &&& forall|j: int| 0 <= j < g.ms_names@.len() ==> strip((#[trigger] g.ms_names@[j])@) == g.ms_names@[j]@
}
pub open spec fn oka(g: GeneralContext, a: TraceAction) -> bool { a.lf_id < g.lf_names@.len() && a.ms_id < g.ms_names@.len() }
/// an element: some actions
pub open spec fn oke(g: GeneralContext, e: ISet<TraceAction>) -> bool { (exists|a: TraceAction| e.contains(a)) && forall|a: TraceAction| #[trigger] e.contains(a) ==> oka(g, a) }
pub open spec fn okt(g: GeneralContext, t: Seq<ISet<TraceAction>>) -> bool { forall|j: int| 0 <= j < t.len() ==> oke(g, #[trigger] t[j]) }
pub open spec fn okm(g: GeneralContext, m: Seq<Seq<ISet<TraceAction>>>) -> bool { forall|j: int| 0 <= j < m.len() ==> okt(g, #[trigger] m[j]) }
pub open spec fn eset<T>(v: Seq<T>) -> ISet<T> { ISet::new(|x: T| exists|j: int| 0 <= j < v.len() && v[j] == x) }

pub open spec fn nmd(r: Rule, n: Seq<char>) -> PT { PT { rule: r, txt: n, kids: seq![lab(n)] } }
pub open spec fn lfn(g: GeneralContext, l: usize) -> Seq<char> { g.lf_names@[l as int]@ }
pub open spec fn msn(g: GeneralContext, m: usize) -> Seq<char> { g.ms_names@[m as int]@ }
pub open spec fn p_sy(a: TraceAction) -> PT { if a.act_kind is Emission { leaf(Rule::TRACE_EMISSION_SYMBOL, "!"@) } else { leaf(Rule::TRACE_RECEPTION_SYMBOL, "?"@) } }
pub open spec fn p_ta(g: GeneralContext, a: TraceAction) -> PT {
    node(Rule::TRACE_ACTION, seq![nmd(Rule::TRACE_LIFELINE, lfn(g, a.lf_id)), p_sy(a), nmd(Rule::TRACE_MESSAGE, msn(g, a.ms_id))])
}
pub open spec fn sy(a: TraceAction) -> Seq<char> { if a.act_kind is Emission { "!"@ } else { "?"@ } }
pub proof fn lem_pnm(r: Rule, n: Seq<char>)
    requires r is TRACE_LIFELINE || r is TRACE_MESSAGE, wft(lab(n)),
    ensures wft(nmd(r, n)), yl(nmd(r, n)) == seq![n], spaced(n, yl(nmd(r, n))),
{
    let t = nmd(r, n);
    assert(yl(lab(n)) == seq![n]);
    assert(t.kids[0] == lab(n));
    assert(wft(t.kids[0]));
    lem_tok(n);
}
pub proof fn lem_psy(a: TraceAction)
    ensures wft(p_sy(a)), yl(p_sy(a)) == seq![sy(a)], spaced(sy(a), yl(p_sy(a))),
{
    lem_tok(sy(a));
}
pub proof fn lem_pta_wf(g: GeneralContext, a: TraceAction)
    requires wft(lab(lfn(g, a.lf_id))), wft(lab(msn(g, a.ms_id))),
    ensures wft(p_ta(g, a)), yl(p_ta(g, a)) == seq![lfn(g, a.lf_id), sy(a), msn(g, a.ms_id)],
        spaced(lfn(g, a.lf_id) + sy(a) + msn(g, a.ms_id), yl(p_ta(g, a))),
{
    let t = p_ta(g, a);
    let (l, m) = (lfn(g, a.lf_id), msn(g, a.ms_id));
    lem_pnm(Rule::TRACE_LIFELINE, l); lem_psy(a); lem_pnm(Rule::TRACE_MESSAGE, m);
    let (x, y, z) = (t.kids[0], t.kids[1], t.kids[2]);
    assert(x == nmd(Rule::TRACE_LIFELINE, l) && y == p_sy(a) && z == nmd(Rule::TRACE_MESSAGE, m));
    assert(x.rule is TRACE_LIFELINE && z.rule is TRACE_MESSAGE);
    assert(y.rule is TRACE_EMISSION_SYMBOL || y.rule is TRACE_RECEPTION_SYMBOL);
    assert(yl(t) == yl(x) + yl(y) + yl(z));
    lem_cat(l, yl(x), sy(a), yl(y));
    lem_cat(l + sy(a), yl(x) + yl(y), m, yl(z));
    assert(yl(t) =~= seq![l, sy(a), m]);
    assert(shape(t));
    assert(wft(t));
}
pub proof fn lem_pta_d(g: GeneralContext, a: TraceAction)
    requires okn(g), oka(g, a),
    ensures d_ta(g, p_ta(g, a)) == Some(a), wft(lab(lfn(g, a.lf_id))), wft(lab(msn(g, a.ms_id))),
{
    let (l, m) = (lfn(g, a.lf_id), msn(g, a.ms_id));
    assert(strip(g.lf_names@[a.lf_id as int]@) == l);
    assert(strip(g.ms_names@[a.ms_id as int]@) == m);
    lem_nid(g.lf_names@, a.lf_id);
    lem_nid(g.ms_names@, a.ms_id);
}
pub proof fn lem_pta(g: GeneralContext, a: TraceAction)
    requires okn(g), oka(g, a),
    ensures wft(p_ta(g, a)), d_ta(g, p_ta(g, a)) == Some(a), yl(p_ta(g, a)) == seq![lfn(g, a.lf_id), sy(a), msn(g, a.ms_id)],
        spaced(lfn(g, a.lf_id) + sy(a) + msn(g, a.ms_id), yl(p_ta(g, a))),
{
    lem_pta_d(g, a);
    lem_pta_wf(g, a);
}
pub open spec fn p_tas(g: GeneralContext, v: Seq<TraceAction>) -> Seq<PT> { Seq::new(v.len(), |j: int| p_ta(g, v[j])) }
pub open spec fn okas(g: GeneralContext, v: Seq<TraceAction>) -> bool { forall|j: int| 0 <= j < v.len() ==> oka(g, #[trigger] v[j]) }
pub proof fn lem_ptas(g: GeneralContext, v: Seq<TraceAction>, n: int)
    requires okn(g), okas(g, v), 0 <= n <= v.len(),
    ensures d_tas(g, p_tas(g, v), n) == Some(eset(v.take(n))),
    decreases n,
{
    if n > 0 {
        lem_ptas(g, v, n - 1);
        lem_pta(g, v[n - 1]);
        assert(p_tas(g, v)[n - 1] == p_ta(g, v[n - 1]));
        lem_eset(v, n);
    } else { assert(eset(v.take(0)) =~= ISet::empty()); }
}
pub proof fn lem_eset<T>(v: Seq<T>, n: int)
    requires 0 < n <= v.len(),
    ensures eset(v.take(n)) == eset(v.take(n - 1)).insert(v[n - 1]),
{
    let (a, b) = (v.take(n), v.take(n - 1));
    assert forall|x: T| eset(a).contains(x) == eset(b).insert(v[n - 1]).contains(x) by {
        if eset(a).contains(x) { let j = choose|j: int| 0 <= j < a.len() && a[j] == x; if j < n - 1 { assert(b[j] == x); } }
        if eset(b).contains(x) { let j = choose|j: int| 0 <= j < b.len() && b[j] == x; assert(a[j] == x); }
        assert(a[n - 1] == v[n - 1]);
    }
    assert(eset(a) =~= eset(b).insert(v[n - 1]));
}
pub open spec fn p_el(g: GeneralContext, v: Seq<TraceAction>) -> PT { if v.len() == 1 { p_ta(g, v[0]) } else { node(Rule::TRACE_ACTION_SET, p_tas(g, v)) } }
/// v lists the actions of e
pub open spec fn lists(g: GeneralContext, v: Seq<TraceAction>, e: ISet<TraceAction>) -> bool { v.len() > 0 && okas(g, v) && eset(v) == e }
pub proof fn lem_pel(g: GeneralContext, v: Seq<TraceAction>, e: ISet<TraceAction>)
    requires okn(g), lists(g, v, e),
    ensures wft(p_el(g, v)), p_el(g, v).rule is TRACE_ACTION || p_el(g, v).rule is TRACE_ACTION_SET, d_el(g, p_el(g, v)) == Some(e),
{
    assert(v.take(v.len() as int) =~= v);
    lem_ptas(g, v, v.len() as int);
    assert forall|j: int| 0 <= j < v.len() implies wft(#[trigger] p_tas(g, v)[j]) && p_tas(g, v)[j].rule is TRACE_ACTION by { lem_pta(g, v[j]); }
    if v.len() == 1 {
        lem_pta(g, v[0]);
        assert forall|x: TraceAction| eset(v).contains(x) == ISet::<TraceAction>::empty().insert(v[0]).contains(x) by { if x == v[0] { assert(v[0] == x); } }
        assert(eset(v) =~= ISet::empty().insert(v[0]));
    }
}
/// text of an element
pub open spec fn w_el(g: GeneralContext, s: Seq<char>, e: ISet<TraceAction>) -> bool { exists|v: Seq<TraceAction>| #[trigger] lists(g, v, e) && spaced(s, yl(p_el(g, v))) }
/// a{sep}b{sep}c
pub proof fn lem_listg(v: Seq<Seq<char>>, t: Seq<PT>, sep: Seq<char>, tok: Seq<Seq<char>>)
    requires v.len() == t.len(), v.len() > 0, spaced(sep, tok), forall|j: int| 0 <= j < v.len() ==> spaced(#[trigger] v[j], yl(t[j])),
    ensures spaced(joined(v, sep), yl(t[0]) + yrep(t, 1, tok)),
{
    lem_jrest(v, t, 1, sep, tok);
    lem_cat(v[0], yl(t[0]), jrest(v, 1, sep), yrep(t, 1, tok));
}
pub open spec fn acts_txt(g: GeneralContext, ss: Seq<Seq<char>>, v: Seq<TraceAction>) -> bool { ss.len() == v.len() && forall|j: int| 0 <= j < ss.len() ==> spaced(#[trigger] ss[j], yl(p_ta(g, v[j]))) }
pub proof fn lem_set_txt(g: GeneralContext, ss: Seq<Seq<char>>, v: Seq<TraceAction>)
    requires okn(g), okas(g, v), acts_txt(g, ss, v), v.len() >= 2,
    ensures spaced("{"@ + joined(ss, ","@) + "}"@, yl(p_el(g, v))),
{
    let t = p_tas(g, v);
    let x = node(Rule::TRACE_ACTION_SET, t);
    assert forall|j: int| 0 <= j < ss.len() implies spaced(#[trigger] ss[j], yl(t[j])) by { assert(t[j] == p_ta(g, v[j])); }
    lem_tok(","@); lem_tok("{"@); lem_tok("}"@);
    lem_listg(ss, t, ","@, seq![","@]);
    let w = yl(t[0]) + yrep(t, 1, seq![","@]);
    lem_cat("{"@, seq!["{"@], joined(ss, ","@), w);
    lem_cat("{"@ + joined(ss, ","@), seq!["{"@] + w, "}"@, seq!["}"@]);
    assert forall|j: int| 0 <= j < v.len() implies (#[trigger] t[j]).rule is TRACE_ACTION by {}
    assert(yl(x) == seq!["{"@] + yl(t[0]) + yrep(t, 1, seq![","@]) + seq!["}"@]);
    assert(seq!["{"@] + w + seq!["}"@] =~= yl(x));
}

// ------------------------------------------------------------------ sequences
pub open spec fn p_els(g: GeneralContext, vs: Seq<Seq<TraceAction>>) -> Seq<PT> { Seq::new(vs.len(), |j: int| p_el(g, vs[j])) }
pub open spec fn p_seq(g: GeneralContext, vs: Seq<Seq<TraceAction>>) -> PT { node(Rule::TRACE_SEQUENCE, p_els(g, vs)) }
pub open spec fn listss(g: GeneralContext, vs: Seq<Seq<TraceAction>>, t: Seq<ISet<TraceAction>>) -> bool { vs.len() == t.len() && forall|j: int| 0 <= j < t.len() ==> lists(g, #[trigger] vs[j], t[j]) }
pub proof fn lem_pseq(g: GeneralContext, vs: Seq<Seq<TraceAction>>, t: Seq<ISet<TraceAction>>, n: int)
    requires okn(g), listss(g, vs, t), 0 <= n <= t.len(),
    ensures d_seq(g, p_els(g, vs), n) == Some(t.take(n)),
    decreases n,
{
    if n > 0 {
        lem_pseq(g, vs, t, n - 1);
        lem_pel(g, vs[n - 1], t[n - 1]);
        assert(p_els(g, vs)[n - 1] == p_el(g, vs[n - 1]));
        assert(t.take(n - 1).push(t[n - 1]) =~= t.take(n));
    } else { assert(t.take(0) =~= Seq::empty()); }
}
pub proof fn lem_pseq_wf(g: GeneralContext, vs: Seq<Seq<TraceAction>>, t: Seq<ISet<TraceAction>>)
    requires okn(g), listss(g, vs, t),
    ensures wft(p_seq(g, vs)), p_seq(g, vs).rule is TRACE_SEQUENCE, d_seq(g, p_seq(g, vs).kids, p_seq(g, vs).kids.len() as int) == Some(t),
{
    assert(t.take(t.len() as int) =~= t);
    lem_pseq(g, vs, t, t.len() as int);
    let k = p_els(g, vs);
    assert forall|j: int| 0 <= j < k.len() implies wft(#[trigger] k[j]) && (k[j].rule is TRACE_ACTION || k[j].rule is TRACE_ACTION_SET) by { lem_pel(g, vs[j], t[j]); }
    assert(shape(p_seq(g, vs)));
}
pub open spec fn w_seq(g: GeneralContext, s: Seq<char>, t: Seq<ISet<TraceAction>>) -> bool { exists|vs: Seq<Seq<TraceAction>>| #[trigger] listss(g, vs, t) && spaced(s, yl(p_seq(g, vs))) }
pub open spec fn els_txt(g: GeneralContext, ss: Seq<Seq<char>>, t: Seq<ISet<TraceAction>>) -> bool { ss.len() == t.len() && forall|j: int| 0 <= j < ss.len() ==> w_el(g, #[trigger] ss[j], t[j]) }
pub proof fn lem_seq_txt(g: GeneralContext, ss: Seq<Seq<char>>, t: Seq<ISet<TraceAction>>)
    requires okn(g), els_txt(g, ss, t),
    ensures w_seq(g, joined(ss, "."@), t),
{
    let vs = Seq::new(t.len(), |j: int| choose|v: Seq<TraceAction>| #[trigger] lists(g, v, t[j]) && spaced(ss[j], yl(p_el(g, v))));
    assert forall|j: int| 0 <= j < t.len() implies lists(g, #[trigger] vs[j], t[j]) && spaced(ss[j], yl(p_el(g, vs[j]))) by { assert(w_el(g, ss[j], t[j])); }
    assert(listss(g, vs, t));
    lem_pseq_wf(g, vs, t);
    let k = p_els(g, vs);
    assert forall|j: int| 0 <= j < ss.len() implies spaced(#[trigger] ss[j], yl(k[j])) by { assert(lists(g, vs[j], t[j])); assert(k[j] == p_el(g, vs[j])); }
    assert forall|j: int| 0 <= j < k.len() implies (#[trigger] k[j]).rule is TRACE_ACTION || k[j].rule is TRACE_ACTION_SET by { lem_pel(g, vs[j], t[j]); }
    lem_tok("."@);
    if t.len() > 0 { lem_listg(ss, k, "."@, seq!["."@]); assert(yl(p_seq(g, vs)) == yl(k[0]) + yrep(k, 1, seq!["."@])); }
    else { assert(yl(p_seq(g, vs)) =~= Seq::empty()); assert(gaps(joined(ss, "."@))); }
}

// ------------------------------------------------------------------ canals
pub open spec fn p_lfs(g: GeneralContext, ls: Seq<usize>) -> Seq<PT> { Seq::new(ls.len(), |j: int| nmd(Rule::TRACE_LIFELINE, lfn(g, ls[j]))) }
pub open spec fn p_lf(g: GeneralContext, ls: Seq<usize>) -> PT { if ls.len() == 0 { leaf(Rule::CANAL_LIFELINES_any, "#any"@) } else { node(Rule::CANAL_LIFELINES_spec, p_lfs(g, ls)) } }
pub open spec fn p_canal(g: GeneralContext, ls: Seq<usize>, vs: Seq<Seq<TraceAction>>) -> PT { node(Rule::CANAL_TRACE, seq![p_lf(g, ls), p_seq(g, vs)]) }
pub open spec fn okls(g: GeneralContext, ls: Seq<usize>) -> bool { forall|j: int| 0 <= j < ls.len() ==> #[trigger] ls[j] < g.lf_names@.len() }
pub open spec fn lnames(g: GeneralContext, ls: Seq<usize>) -> Seq<Seq<char>> { Seq::new(ls.len(), |j: int| lfn(g, ls[j])) }
pub proof fn lem_plf1(g: GeneralContext, l: usize)
    requires okn(g), l < g.lf_names@.len(),
    ensures ({ let t = nmd(Rule::TRACE_LIFELINE, lfn(g, l)); wft(t) && lfid(g, t) == Some(l) && yl(t) == seq![lfn(g, l)] && spaced(lfn(g, l), yl(t)) }),
{
    let t = nmd(Rule::TRACE_LIFELINE, lfn(g, l));
    assert(strip(g.lf_names@[l as int]@) == lfn(g, l));
    lem_nid(g.lf_names@, l);
    assert(wft(lab(lfn(g, l))));
    assert(wft(t.kids[0]));
    assert(yl(t.kids[0]) == seq![lfn(g, l)]);
    lem_tok(lfn(g, l));
}
pub proof fn lem_plfs(g: GeneralContext, ls: Seq<usize>, n: int)
    requires okn(g), okls(g, ls), 0 <= n <= ls.len(),
    ensures d_lset(g, p_lfs(g, ls), n) == Some(eset(ls.take(n))),
    decreases n,
{
    if n > 0 {
        lem_plfs(g, ls, n - 1);
        lem_plf1(g, ls[n - 1]);
        assert(p_lfs(g, ls)[n - 1] == nmd(Rule::TRACE_LIFELINE, lfn(g, ls[n - 1])));
        lem_eset(ls, n);
    } else { assert(eset(ls.take(0)) =~= ISet::empty()); }
}
pub open spec fn p_can(g: GeneralContext, t: PT, l: ISet<usize>, v: Seq<ISet<TraceAction>>) -> bool {
    wft(t) && t.rule is CANAL_TRACE && forall|un: ISet<usize>| un.disjoint(l) ==> #[trigger] d_canal(g, t, un) == Some((l, v))
}
pub proof fn lem_pcanal(g: GeneralContext, ls: Seq<usize>, vs: Seq<Seq<TraceAction>>, l: ISet<usize>, v: Seq<ISet<TraceAction>>)
    requires okn(g), okls(g, ls), eset(ls) == l, listss(g, vs, v), tlfs(v).subset_of(l),
    ensures p_can(g, p_canal(g, ls, vs), l, v),
{
    let t = p_canal(g, ls, vs);
    let k = p_lfs(g, ls);
    lem_pseq_wf(g, vs, v);
    lem_plfs(g, ls, ls.len() as int);
    assert(ls.take(ls.len() as int) =~= ls);
    assert forall|j: int| 0 <= j < k.len() implies wft(#[trigger] k[j]) && k[j].rule is TRACE_LIFELINE by { lem_plf1(g, ls[j]); }
    assert(wft(t.kids[0]) && wft(t.kids[1]));
    assert(shape(t));
    if ls.len() == 0 { assert(l =~= ISet::empty()); assert(tlfs(v) =~= l); }
}
/// text of the lifelines of a canal
pub proof fn lem_lf_txt(g: GeneralContext, ls: Seq<usize>, s: Seq<char>)
    requires okn(g), okls(g, ls), s == (if ls.len() == 0 { "#any"@ } else { joined(lnames(g, ls), ","@) }),
    ensures spaced(s, yl(p_lf(g, ls))),
{
    let k = p_lfs(g, ls);
    let v = lnames(g, ls);
    if ls.len() == 0 { lem_tok("#any"@); } else {
        assert forall|j: int| 0 <= j < v.len() implies spaced(#[trigger] v[j], yl(k[j])) by { lem_plf1(g, ls[j]); }
        lem_tok(","@);
        lem_listg(v, k, ","@, seq![","@]);
        assert forall|j: int| 0 <= j < k.len() implies (#[trigger] k[j]).rule is TRACE_LIFELINE by {}
        assert(yl(p_lf(g, ls)) == yl(k[0]) + yrep(k, 1, seq![","@]));
    }
}
pub open spec fn w_canal(g: GeneralContext, s: Seq<char>, l: ISet<usize>, v: Seq<ISet<TraceAction>>) -> bool {
    exists|t: PT| #[trigger] p_can(g, t, l, v) && spaced(s, yl(t))
}
pub proof fn lem_canal_txt(g: GeneralContext, ls: Seq<usize>, s1: Seq<char>, l: ISet<usize>, v: Seq<ISet<TraceAction>>, s2: Seq<char>)
    requires okn(g), okls(g, ls), eset(ls) == l, tlfs(v).subset_of(l), w_seq(g, s2, v), s1 == (if ls.len() == 0 { "#any"@ } else { joined(lnames(g, ls), ","@) }),
    ensures w_canal(g, "["@ + s1 + "] "@ + s2, l, v),
{
    let vs = choose|vs: Seq<Seq<TraceAction>>| #[trigger] listss(g, vs, v) && spaced(s2, yl(p_seq(g, vs)));
    let t = p_canal(g, ls, vs);
    lem_pcanal(g, ls, vs, l, v);
    lem_lf_txt(g, ls, s1);
    lem_tok("["@);
    reveal_strlit("] "); reveal_strlit("]");
    let c = "] "@;
    assert(c.subrange(0, 1) =~= "]"@);
    assert(gap(c[1]));
    assert(gaps(c.take(0)));
    assert(gaps(c.skip(1)));
    lem_one(c, 0, "]"@);
    let (a, b) = (yl(p_lf(g, ls)), yl(p_seq(g, vs)));
    lem_cat("["@, seq!["["@], s1, a);
    lem_cat("["@ + s1, seq!["["@] + a, c, seq!["]"@]);
    lem_cat("["@ + s1 + c, seq!["["@] + a + seq!["]"@], s2, b);
    assert(t.kids[0] == p_lf(g, ls) && t.kids[1] == p_seq(g, vs));
    assert(yl(t) == seq!["["@] + a + seq!["]"@] + b);
}

// ------------------------------------------------------------------ multi-traces
pub open spec fn cans_txt(g: GeneralContext, ss: Seq<Seq<char>>, c: Seq<ISet<usize>>, v: Seq<Seq<ISet<TraceAction>>>) -> bool {
    ss.len() == c.len() && c.len() == v.len() && forall|j: int| 0 <= j < ss.len() ==> w_canal(g, #[trigger] ss[j], c[j], v[j])
}
pub open spec fn p_mt(ts: Seq<PT>) -> PT { node(Rule::HTF_PEST_FILE, seq![node(Rule::MULTI_TRACE, ts), leaf(Rule::EOI, Seq::empty())]) }
pub open spec fn p_cans(g: GeneralContext, ts: Seq<PT>, c: Seq<ISet<usize>>, v: Seq<Seq<ISet<TraceAction>>>) -> bool {
    ts.len() == c.len() && c.len() == v.len() && forall|j: int| 0 <= j < ts.len() ==> p_can(g, #[trigger] ts[j], c[j], v[j])
}
pub proof fn lem_pcans(g: GeneralContext, ts: Seq<PT>, c: Seq<ISet<usize>>, v: Seq<Seq<ISet<TraceAction>>>, n: int)
    requires p_cans(g, ts, c, v), 0 <= n <= ts.len(), forall|i: int, j: int| 0 <= i < j < c.len() ==> (#[trigger] c[i]).disjoint(#[trigger] c[j]),
    ensures d_canals(g, ts, n) == Some((c.take(n), v.take(n))),
    decreases n,
{
    if n > 0 {
        lem_pcans(g, ts, c, v, n - 1);
        let u = uni(c.take(n - 1));
        assert(p_can(g, ts[n - 1], c[n - 1], v[n - 1]));
        assert(u.disjoint(c[n - 1])) by {
            assert forall|x: usize| u.contains(x) implies !c[n - 1].contains(x) by { lem_uni(c.take(n - 1), x); let j = choose|j: int| 0 <= j < n - 1 && (#[trigger] c.take(n - 1)[j]).contains(x); assert(c[j].contains(x)); }
        }
        assert(d_canal(g, ts[n - 1], u) == Some((c[n - 1], v[n - 1])));
        assert(c.take(n - 1).push(c[n - 1]) =~= c.take(n));
        assert(v.take(n - 1).push(v[n - 1]) =~= v.take(n));
    } else { assert(c.take(0) =~= Seq::empty()); assert(v.take(0) =~= Seq::empty()); }
}
/// THEOREM (writing): s is the tokens of a tree which denotes the multi-trace
pub open spec fn writes_mt(g: GeneralContext, s: Seq<char>, c: Seq<ISet<usize>>, v: Seq<Seq<ISet<TraceAction>>>) -> bool {
    exists|t: PT| #[trigger] wft(t) && t.rule is HTF_PEST_FILE && spaced(s, yl(t)) && d_mt(g, t, c, v)
}
pub proof fn lem_mt_txt(g: GeneralContext, ss: Seq<Seq<char>>, c: Seq<ISet<usize>>, v: Seq<Seq<ISet<TraceAction>>>)
    requires cans_txt(g, ss, c, v), parted(g, c, v),
    ensures writes_mt(g, "{\n"@ + joined(ss, ";\n"@) + "\n}"@, c, v),
{
    let ts = Seq::new(c.len(), |j: int| choose|t: PT| #[trigger] p_can(g, t, c[j], v[j]) && spaced(ss[j], yl(t)));
    assert forall|j: int| 0 <= j < c.len() implies p_can(g, #[trigger] ts[j], c[j], v[j]) && spaced(ss[j], yl(ts[j])) by { assert(w_canal(g, ss[j], c[j], v[j])); }
    let n = c.len() as int;
    lem_pcans(g, ts, c, v, n);
    assert(c.take(n) =~= c && v.take(n) =~= v);
    let t = p_mt(ts);
    let k = t.kids[0];
    assert forall|j: int| 0 <= j < ts.len() implies wft(#[trigger] ts[j]) && ts[j].rule is CANAL_TRACE by { assert(p_can(g, ts[j], c[j], v[j])); }
    assert(shape(k));
    assert(wft(k));
    assert(wft(t.kids[1]));
    assert(wft(t));
    // nothing is left
    let o = Seq::<usize>::empty();
    assert(c + Seq::new(o.len(), |j: int| ISet::<usize>::empty().insert(o[j])) =~= c);
    assert(v + Seq::new(o.len(), |j: int| Seq::<ISet<TraceAction>>::empty()) =~= v);
    assert forall|x: usize| !(#[trigger] alll(g).difference(uni(c)).contains(x)) by { lem_uni(c, x); if alll(g).contains(x) { assert(covx(c, x)); } }
    assert(completedo(g, c, v, c, v, o));
    assert(d_mt(g, t, c, v));
    // the text
    let (a, m, z) = ("{\n"@, joined(ss, ";\n"@), "\n}"@);
    reveal_strlit("{\n"); reveal_strlit("{"); reveal_strlit("\n}"); reveal_strlit("}"); reveal_strlit(";\n"); reveal_strlit(";");
    assert(a.subrange(0, 1) =~= "{"@); assert(gap(a[1])); assert(gaps(a.take(0))); assert(gaps(a.skip(1))); lem_one(a, 0, "{"@);
    assert(z.subrange(1, 2) =~= "}"@); assert(gap(z[0])); assert(gaps(z.take(1))); assert(gaps(z.skip(2))); lem_one(z, 1, "}"@);
    let p = ";\n"@;
    assert(p.subrange(0, 1) =~= ";"@); assert(gap(p[1])); assert(gaps(p.take(0))); assert(gaps(p.skip(1))); lem_one(p, 0, ";"@);
    let w = if n == 0 { Seq::<Seq<char>>::empty() } else { yl(ts[0]) + yrep(ts, 1, seq![";"@]) };
    if n > 0 {
        assert forall|j: int| 0 <= j < ss.len() implies spaced(#[trigger] ss[j], yl(ts[j])) by { assert(p_can(g, ts[j], c[j], v[j])); }
        lem_listg(ss, ts, p, seq![";"@]);
    } else { assert(gaps(m)); }
    lem_cat(a, seq!["{"@], m, w);
    lem_cat(a + m, seq!["{"@] + w, z, seq!["}"@]);
    assert(yl(k) =~= seq!["{"@] + w + seq!["}"@]);
    assert(yl(t.kids[1]) =~= Seq::empty());
    assert(yl(t) =~= yl(k));
}

// ------------------------------------------------------------------ sorted listings of a set
pub open spec fn dvals<T>(s: Seq<&T>) -> Seq<T> { Seq::new(s.len(), |j: int| *s[j]) }
pub proof fn lem_ksort<T: VxK>(a: Seq<T>, b: Seq<T>)
    requires a.to_multiset() == b.to_multiset(),
    ensures kset(a) == kset(b),
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    assert forall|x: T::K| kset(a).contains(x) == kset(b).contains(x) by {
        if kset(a).contains(x) { let j = choose|j: int| 0 <= j < a.len() && #[trigger] a[j].k() == x; assert(a.contains(a[j])); assert(a.to_multiset().count(a[j]) > 0); assert(b.contains(a[j])); let i = choose|i: int| 0 <= i < b.len() && b[i] == a[j]; assert(b[i].k() == x); }
        if kset(b).contains(x) { let j = choose|j: int| 0 <= j < b.len() && #[trigger] b[j].k() == x; assert(b.contains(b[j])); assert(b.to_multiset().count(b[j]) > 0); assert(a.contains(b[j])); let i = choose|i: int| 0 <= i < a.len() && a[i] == b[j]; assert(a[i].k() == x); }
    }
    assert(kset(a) =~= kset(b));
}
pub proof fn lem_dvals_a(s: Seq<&TraceAction>)
    ensures eset(dvals(s)) == kset(s),
{
    let v = dvals(s);
    assert forall|x: TraceAction| eset(v).contains(x) == kset(s).contains(x) by {
        if eset(v).contains(x) { let j = choose|j: int| 0 <= j < v.len() && v[j] == x; assert(v[j] == *s[j]); assert(<&TraceAction as VxK>::k(&s[j]) == x); }
        if kset(s).contains(x) { let j = choose|j: int| 0 <= j < s.len() && #[trigger] <&TraceAction as VxK>::k(&s[j]) == x; assert(v[j] == *s[j]); assert(v[j] == x); }
    }
    assert(eset(v) =~= kset(s));
}
pub proof fn lem_dvals_l(s: Seq<&usize>)
    ensures eset(dvals(s)) == kset(s),
{
    let v = dvals(s);
    assert forall|x: usize| eset(v).contains(x) == kset(s).contains(x) by {
        if eset(v).contains(x) { let j = choose|j: int| 0 <= j < v.len() && v[j] == x; assert(v[j] == *s[j]); assert(<&usize as VxK>::k(&s[j]) == x); }
        if kset(s).contains(x) { let j = choose|j: int| 0 <= j < s.len() && #[trigger] <&usize as VxK>::k(&s[j]) == x; assert(v[j] == *s[j]); assert(v[j] == x); }
    }
    assert(eset(v) =~= kset(s));
}
/// the listing of a set of actions, sorted
pub proof fn lem_srt(g: GeneralContext, e: ISet<TraceAction>, s0: Seq<&TraceAction>, s: Seq<&TraceAction>)
    requires oke(g, e), e.finite(), set_it(e, s0), s.to_multiset() == s0.to_multiset(), s.len() == s0.len(),
    ensures lists(g, dvals(s), e), e.len() == 1 || s.len() >= 2, e.len() == 1 ==> s0.len() > 0 && lists(g, seq![*s0[0]], e),
{
    lem_ksort(s, s0); lem_dvals_a(s); lem_dvals_a(s0);
    let v = dvals(s);
    let w = dvals(s0);
    let a = choose|a: TraceAction| e.contains(a);
    assert(eset(v).contains(a) && eset(w).contains(a));
    assert forall|j: int| 0 <= j < v.len() implies oka(g, #[trigger] v[j]) by { assert(eset(v).contains(v[j])); }
    assert forall|j: int| 0 <= j < w.len() implies oka(g, #[trigger] w[j]) by { assert(eset(w).contains(w[j])); }
    if v.len() == 1 {
        assert forall|x: TraceAction| e.contains(x) == ISet::<TraceAction>::empty().insert(v[0]).contains(x) by { assert(eset(v).contains(x) == e.contains(x)); if x == v[0] { assert(v[0] == x); } }
        assert(e =~= ISet::<TraceAction>::empty().insert(v[0]));
        broadcast use vstd::iset::group_iset_lemmas;
    }
    if e.len() == 1 {
        let x0 = *s0[0];
        assert(e.contains(x0)) by { assert(w[0] == x0); assert(eset(w).contains(x0)); }
        assert(e.remove(x0).len() == 0);
        assert(e.remove(x0) =~= ISet::empty());
        let u = seq![x0];
        assert forall|x: TraceAction| e.contains(x) == eset(u).contains(x) by { assert(u[0] == x0); if e.contains(x) && x != x0 { assert(e.remove(x0).contains(x)); } }
        assert(eset(u) =~= e);
        assert(okas(g, u)) by { assert forall|j: int| 0 <= j < u.len() implies oka(g, #[trigger] u[j]) by { assert(u[j] == w[0]); } }
    }
}
pub open spec fn oka_all(g: GeneralContext, s: Seq<&TraceAction>) -> bool { forall|j: int| 0 <= j < s.len() ==> oka(g, *#[trigger] s[j]) }
pub proof fn lem_oka_all(g: GeneralContext, s: Seq<&TraceAction>, e: ISet<TraceAction>)
    requires oke(g, e), set_it(e, s),
    ensures oka_all(g, s),
{
    lem_dvals_a(s);
    assert forall|j: int| 0 <= j < s.len() implies oka(g, *#[trigger] s[j]) by { assert(dvals(s)[j] == *s[j]); assert(eset(dvals(s)).contains(*s[j])); }
}
/// the lifelines of a canal, listed
pub proof fn lem_lsrt(g: GeneralContext, c: Seq<ISet<usize>>, v: Seq<Seq<ISet<TraceAction>>>, n: int, s: Seq<&usize>)
    requires parted(g, c, v), 0 <= n < c.len(), kset(s) == c[n],
    ensures okls(g, dvals(s)), eset(dvals(s)) == c[n], tlfs(v[n]).subset_of(c[n]),
{
    let ls = dvals(s);
    lem_dvals_l(s);
    assert forall|j: int| 0 <= j < ls.len() implies #[trigger] ls[j] < g.lf_names@.len() by { assert(eset(ls).contains(ls[j])); assert(c[n].contains(ls[j])); assert(covx(c, ls[j])); assert(alll(g).contains(ls[j])); }
}
