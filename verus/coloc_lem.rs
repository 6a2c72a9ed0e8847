// ============================================================================================
// Co-localizations (ghost code only).
// ============================================================================================
/// the sets of lifelines of the co-localizations
pub open spec fn cvw(c: CoLocalizations) -> Seq<ISet<usize>> {
    Seq::new(c.locs_lf_ids@.len(), |j: int| c.locs_lf_ids@[j]@)
}
/// k is the first co-localization which contains lf
pub open spec fn first_at(c: Seq<ISet<usize>>, lf: usize, k: int) -> bool {
    0 <= k < c.len() && c[k].contains(lf) && forall|j: int| 0 <= j < k ==> !(#[trigger] c[j]).contains(lf)
}
/// every lifeline of l belongs to some co-localization
pub open spec fn cov(c: Seq<ISet<usize>>, l: ISet<usize>) -> bool {
    forall|x: usize| #[trigger] l.contains(x) ==> covx(c, x)
}
pub open spec fn covx(c: Seq<ISet<usize>>, x: usize) -> bool {
    exists|k: int| 0 <= k < c.len() && (#[trigger] c[k]).contains(x)
}
pub open spec fn at_most_one(s: ISet<usize>) -> bool {
    forall|a: usize, b: usize| #[trigger] s.contains(a) && #[trigger] s.contains(b) ==> a == b
}
pub open spec fn singles(c: Seq<ISet<usize>>) -> bool {
    forall|k: int| 0 <= k < c.len() ==> at_most_one(#[trigger] c[k])
}
pub proof fn l_amo(s: ISet<usize>)
    ensures s.finite() ==> (s.len() <= 1 <==> at_most_one(s)),
{
    if s.finite() {
        if s.len() <= 1 {
            assert forall|a: usize, b: usize| #[trigger] s.contains(a) && #[trigger] s.contains(b) implies a == b by {
                if a != b {
                    let t = s.remove(a);
                    assert(t.contains(b));
                    assert(t.len() == s.len() - 1);
                    assert(t.len() == 0);
                    assert(t =~= ISet::empty());
                }
            }
        }
        if at_most_one(s) && s.len() > 1 {
            let a = s.choose();
            assert(s.contains(a));
            let t = s.remove(a);
            assert(t.len() > 0);
            let b = t.choose();
            assert(t.contains(b));
        }
    }
}
pub open spec fn discr(s: Seq<BTreeSet<usize>>, n: int) -> bool {
    s.len() == n && forall|j: int| 0 <= j < n ==> (#[trigger] s[j])@ == ISet::<usize>::empty().insert(j as usize)
}
pub proof fn l_kset_at<T: VxK>(s: Seq<T>, j: int)
    requires 0 <= j < s.len(),
    ensures kset(s).contains(s[j].k()),
{
}
pub broadcast proof fn b_itr_us<'a>(v: Vec<usize>, s: Seq<&'a usize>)
    requires #[trigger] <Vec<usize> as VxIterRef<'a>>::itr_ok(&v, s),
    ensures kset(s) == kset(v@),
{
    assert forall|x: usize| kset(s).contains(x) == kset(v@).contains(x) by {
        if kset(s).contains(x) { let j = choose|j: int| 0 <= j < s.len() && (#[trigger] s[j]).k() == x; l_kset_at(v@, j); }
        if kset(v@).contains(x) { let j = choose|j: int| 0 <= j < v@.len() && (#[trigger] v@[j]).k() == x; l_kset_at(s, j); }
    }
    assert(kset(s) =~= kset(v@));
}
/// all lifelines together, each alone
pub open spec fn trivp(n: nat) -> Seq<ISet<usize>> { seq![ISet::new(|x: usize| x < n)] }
pub open spec fn discrp(n: nat) -> Seq<ISet<usize>> { Seq::new(n, |j: int| ISet::<usize>::empty().insert(j as usize)) }
