// ============================================================================================
// Multi-traces (ghost code only).
// ============================================================================================
pub type Trace = Vec<BTreeSet<TraceAction>>;
pub type MultiTrace = Vec<Trace>;

/// a canal trace, as a sequence of observable steps
pub open spec fn tvw(t: Trace) -> Tr {
    Seq::new(t@.len(), |j: int| t@[j]@)
}
pub open spec fn all_empty(r: Seq<Tr>) -> bool {
    forall|c: int| 0 <= c < r.len() ==> (#[trigger] r[c]).len() == 0
}
pub open spec fn any_empty(r: Seq<Tr>) -> bool {
    exists|c: int| 0 <= c < r.len() && (#[trigger] r[c]).len() == 0
}
/// is e the next step of canal c ?
pub open spec fn hd(r: Seq<Tr>, c: int, e: Ev) -> bool {
    0 <= c < r.len() && r[c].len() > 0 && r[c][0] == e
}
pub open spec fn adv(r: Seq<Tr>, c: int) -> Seq<Tr> {
    r.update(c, r[c].drop_first())
}
/// t is an interleaving of the canals
pub open spec fn shuf(t: Tr, r: Seq<Tr>) -> bool
    decreases t.len(),
{
    if t.len() == 0 { all_empty(r) } else { exists|c: int| #[trigger] hd(r, c, t[0]) && shuf(t.drop_first(), adv(r, c)) }
}
/// the multi-trace is accepted: some interleaving of its canals is a trace of i
pub open spec fn macc(i: SI, r: Seq<Tr>) -> bool {
    exists|t: Tr| #[trigger] sem(i, t) && shuf(t, r)
}
/// the multi-trace is a multi-prefix: some interleaving of its canals is the beginning of a trace of i
pub open spec fn mpre(i: SI, r: Seq<Tr>) -> bool {
    exists|t: Tr, u: Tr| #[trigger] sem(i, u) && t.is_prefix_of(u) && #[trigger] shuf(t, r)
}
