/// l!m or l?m
pub open spec fn d_ta(g: GeneralContext, t: PT) -> Option<TraceAction> {
    match (lfid(g, t.kids[0]), msid(g, t.kids[2])) {
        (Some(l), Some(m)) => Some(TraceAction { lf_id: l, act_kind: if t.kids[1].rule is TRACE_EMISSION_SYMBOL { TraceActionKind::Emission } else { TraceActionKind::Reception }, ms_id: m }),
        _ => None,
    }
}
pub open spec fn d_tas(g: GeneralContext, s: Seq<PT>, n: int) -> Option<ISet<TraceAction>>
    decreases n,
{
    if n <= 0 { Some(ISet::empty()) } else {
        match (d_tas(g, s, n - 1), d_ta(g, s[n - 1])) { (Some(v), Some(a)) => Some(v.insert(a)), _ => None }
    }
}
pub open spec fn d_sync(g: GeneralContext, t: PT) -> Option<ISet<TraceAction>> {
    if t.rule is TRACE_ACTION { match d_ta(g, t) { Some(a) => Some(ISet::empty().insert(a)), None => None } } else { d_tas(g, t.kids, t.kids.len() as int) }
}

pub proof fn lem_tas_none(g: GeneralContext, s: Seq<PT>, b: int, c: int)
    requires 0 <= b <= c <= s.len(), d_tas(g, s, b) is None,
    ensures d_tas(g, s, c) is None,
    decreases c - b,
{
    if b < c { assert(d_tas(g, s, b + 1) is None); lem_tas_none(g, s, b + 1, c); }
}
pub proof fn lem_tas_in(g: GeneralContext, s: Seq<PT>, b: int, c: int)
    requires 0 <= b <= c <= s.len(), d_tas(g, s, c) is Some,
    ensures d_tas(g, s, b) is Some, d_tas(g, s, b)->0.subset_of(d_tas(g, s, c)->0),
    decreases c - b,
{
    if b < c { lem_tas_in(g, s, b, c - 1); }
}
