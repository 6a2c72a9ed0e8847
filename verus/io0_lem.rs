// ============================================================================================
// Names and actions written in files
// ============================================================================================
/// identifier of a name
pub open spec fn nid(v: Seq<String>, n: Seq<char>) -> Option<usize> {
    if exists|k: usize| k < v.len() && (#[trigger] v[k as int])@ == n { Some(choose|k: usize| k < v.len() && (#[trigger] v[k as int])@ == n) } else { None }
}
pub broadcast proof fn b_found(v: Seq<String>, n: Seq<char>, r: Option<usize>)
    requires distinct(v), #[trigger] found(v, n, r), v.len() <= usize::MAX,
    ensures r == nid(v, n),
{
    if r is Some { assert(v[r->0 as int]@ == n); let k = choose|k: usize| k < v.len() && (#[trigger] v[k as int])@ == n; assert(v[k as int]@ == v[r->0 as int]@); }
}
pub open spec fn lbl(t: PT) -> Seq<char> { strip(t.txt) }
pub open spec fn lfid(g: GeneralContext, t: PT) -> Option<usize> { nid(g.lf_names@, lbl(t)) }
pub open spec fn msid(g: GeneralContext, t: PT) -> Option<usize> { nid(g.ms_names@, lbl(t)) }
pub open spec fn gtid(g: GeneralContext, t: PT) -> Option<usize> { nid(g.gt_names@, lbl(t)) }

