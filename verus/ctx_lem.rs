// ============================================================================================
// Names and identifiers
// ============================================================================================
/// names are pairwise different
pub open spec fn distinct(v: Seq<String>) -> bool {
    forall|i: int, j: int| 0 <= i < v.len() && 0 <= j < v.len() && (#[trigger] v[i])@ == (#[trigger] v[j])@ ==> i == j
}
/// id is what is found for name n
pub open spec fn found(v: Seq<String>, n: Seq<char>, r: Option<usize>) -> bool {
    match r {
        Some(k) => k < v.len() && v[k as int]@ == n,
        None => forall|j: int| 0 <= j < v.len() ==> (#[trigger] v[j])@ != n,
    }
}
/// v2 is v with name n at r: known names keep their identifier, a new name has the next one
pub open spec fn added(v: Seq<String>, n: String, v2: Seq<String>, r: usize) -> bool {
    &&& r < v2.len() && v2[r as int]@ == n@
    &&& (v2 == v || v2 == v.push(n) && r == v.len() && forall|j: int| 0 <= j < v.len() ==> (#[trigger] v[j])@ != n@)
}
pub open spec fn wfg(g: GeneralContext) -> bool { distinct(g.lf_names@) && distinct(g.ms_names@) && distinct(g.gt_names@) }

/// THEOREM: after a name was added, whatever is added later, the identifier gives the name back and the name the identifier
pub proof fn thm_names(v: Seq<String>, n: String, v2: Seq<String>, r: usize)
    requires distinct(v), added(v, n, v2, r),
    ensures distinct(v2), v.is_prefix_of(v2), forall|k: Option<usize>| #[trigger] found(v2, n@, k) ==> k == Some(r),
        forall|m: Seq<char>, k: usize| #[trigger] found(v, m, Some(k)) ==> found(v2, m, Some(k)),
{
    assert forall|k: Option<usize>| #[trigger] found(v2, n@, k) implies k == Some(r) by {
        if k is None { assert(v2[r as int]@ != n@); } else { assert(v2[k->Some_0 as int]@ == v2[r as int]@); }
    }
}
