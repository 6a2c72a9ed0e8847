// ============================================================================================
// Generated multi-traces (ghost code only).
// ============================================================================================
/// the actions of an event which are observed on co-localization k
pub open spec fn prj(cs: Seq<ISet<usize>>, e: Ev, k: int) -> Ev {
    ISet::new(|a: TraceAction| e.contains(a) && first_at(cs, a.lf_id, k))
}
/// the local traces, after observing one more event: each co-localization sees its share, if it has one
pub open spec fn app1(cs: Seq<ISet<usize>>, c: Tr, e: Ev, k: int) -> Tr {
    if prj(cs, e, k) == ISet::<TraceAction>::empty() { c } else { c.push(prj(cs, e, k)) }
}
pub open spec fn app(cs: Seq<ISet<usize>>, r: Seq<Tr>, e: Ev) -> Seq<Tr> {
    Seq::new(r.len(), |k: int| app1(cs, r[k], e, k))
}
pub open spec fn mvw(m: MultiTrace) -> Seq<Tr> {
    Seq::new(m@.len(), |c: int| tvw(m@[c]))
}
/// the multi-trace observed along t
pub open spec fn mtof(cs: Seq<ISet<usize>>, t: Tr) -> Seq<Tr>
    decreases t.len(),
{
    if t.len() == 0 { Seq::new(cs.len(), |k: int| Seq::<Ev>::empty()) } else { app(cs, mtof(cs, t.drop_last()), t.last()) }
}
/// the actions collected so far for each co-localization
pub open spec fn tadd(cs: Seq<ISet<usize>>, s: ISet<TraceAction>, m: IMap<usize, BTreeSet<TraceAction>>) -> bool {
    &&& forall|k: usize| #[trigger] m.contains_key(k) ==> k < cs.len() && m[k]@ == prj(cs, s, k as int) && m[k]@ != ISet::<TraceAction>::empty()
    &&& forall|a: TraceAction, k: usize| s.contains(a) && #[trigger] first_at(cs, a.lf_id, k as int) ==> #[trigger] m.contains_key(k)
}
pub proof fn l_first1(cs: Seq<ISet<usize>>, l: usize, a: int, b: int)
    requires first_at(cs, l, a), first_at(cs, l, b),
    ensures a == b,
{
    if a < b { assert(!cs[a].contains(l)); }
    if b < a { assert(!cs[b].contains(l)); }
}
pub proof fn l_tadd(cs: Seq<ISet<usize>>, s: ISet<TraceAction>, a: TraceAction, k: usize, om: IMap<usize, BTreeSet<TraceAction>>, m: IMap<usize, BTreeSet<TraceAction>>)
    requires
        tadd(cs, s, om), first_at(cs, a.lf_id, k as int), m.dom() == om.dom().insert(k),
        m[k]@ == (if om.contains_key(k) { om[k]@ } else { ISet::<TraceAction>::empty() }).insert(a),
        forall|j: usize| j != k && om.contains_key(j) ==> #[trigger] m[j] == om[j],
    ensures tadd(cs, s.insert(a), m),
{
    let t = s.insert(a);
    assert forall|j: usize| #[trigger] m.contains_key(j) implies j < cs.len() && m[j]@ == prj(cs, t, j as int) && m[j]@ != ISet::<TraceAction>::empty() by {
        if j == k {
            assert(m[k]@.contains(a));
            if !om.contains_key(k) {
                assert forall|b: TraceAction| !prj(cs, s, k as int).contains(b) by { if prj(cs, s, k as int).contains(b) { assert(first_at(cs, b.lf_id, k as int)); assert(om.contains_key(k)); } }
            }
            assert(m[k]@ =~= prj(cs, t, k as int));
        } else {
            assert(om.contains_key(j));
            assert forall|b: TraceAction| prj(cs, s, j as int).contains(b) == prj(cs, t, j as int).contains(b) by {
                if b == a && prj(cs, t, j as int).contains(b) { l_first1(cs, a.lf_id, j as int, k as int); }
            }
            assert(prj(cs, s, j as int) =~= prj(cs, t, j as int));
        }
    }
    assert forall|b: TraceAction, j: usize| t.contains(b) && #[trigger] first_at(cs, b.lf_id, j as int) implies #[trigger] m.contains_key(j) by {
        if b == a { l_first1(cs, a.lf_id, j as int, k as int); } else { assert(om.contains_key(j)); }
    }
}
pub proof fn l_take1(s: Seq<&TraceAction>, p: int)
    requires 0 <= p < s.len(),
    ensures kset(s.take(p + 1)) == kset(s.take(p)).insert(*s[p]),
{
    let x = s.take(p + 1); let y = s.take(p);
    assert forall|b: TraceAction| kset(x).contains(b) == kset(y).insert(*s[p]).contains(b) by {
        if kset(x).contains(b) { let j = choose|j: int| 0 <= j < x.len() && (<&TraceAction as VxK>::k(&#[trigger] x[j])) == b; if j < p { assert(<&TraceAction as VxK>::k(&y[j]) == b); } }
        if kset(y).contains(b) { let j = choose|j: int| 0 <= j < y.len() && (<&TraceAction as VxK>::k(&#[trigger] y[j])) == b; assert(<&TraceAction as VxK>::k(&x[j]) == b); }
        assert(<&TraceAction as VxK>::k(&x[p]) == *s[p]);
    }
    assert(kset(x) =~= kset(y).insert(*s[p]));
}
/// k is the key of one of the first n entries
pub open spec fn seen(s: Seq<(usize, BTreeSet<TraceAction>)>, n: int, k: int) -> bool {
    exists|j: int| 0 <= j < n && (#[trigger] s[j]).0 == k
}
pub open spec fn tdone(cs: Seq<ISet<usize>>, om: Seq<Tr>, e: Ev, s: Seq<(usize, BTreeSet<TraceAction>)>, n: int, r: Seq<Trace>) -> bool {
    r.len() == cs.len() && forall|k: int| 0 <= k < cs.len() ==> tvw(#[trigger] r[k]) == (if seen(s, n, k) { app1(cs, om[k], e, k) } else { om[k] })
}
pub proof fn l_tdone(cs: Seq<ISet<usize>>, om: Seq<Tr>, e: Ev, h: HashMap<usize, BTreeSet<TraceAction>>, s: Seq<(usize, BTreeSet<TraceAction>)>, n: int, r: Seq<Trace>, r2: Seq<Trace>)
    requires
        tadd(cs, e, h@), h.it_ok(s), 0 <= n < s.len(), tdone(cs, om, e, s, n, r),
        s[n].0 < r.len() ==> r2 == r.update(s[n].0 as int, r2[s[n].0 as int]) && r2[s[n].0 as int]@ == r[s[n].0 as int]@.push(s[n].1),
    ensures tdone(cs, om, e, s, n + 1, r2),
{
    let z = s[n].0;
    assert(h@.contains_key(z));
    assert forall|k: int| 0 <= k < cs.len() implies tvw(#[trigger] r2[k]) == (if seen(s, n + 1, k) { app1(cs, om[k], e, k) } else { om[k] }) by {
        assert(tvw(r[k]) == (if seen(s, n, k) { app1(cs, om[k], e, k) } else { om[k] }));
        if k == z {
            if seen(s, n, k) { let j = choose|j: int| 0 <= j < n && (#[trigger] s[j]).0 == k; assert(s[j].0.k() != s[n].0.k()); }
            assert(s[n].0 == k);
            assert(seen(s, n + 1, k));
            assert(tvw(r2[k]) =~= tvw(r[k]).push(s[n].1@));
        } else {
            assert(r2[k] == r[k]);
            if seen(s, n + 1, k) { let j = choose|j: int| 0 <= j < n + 1 && (#[trigger] s[j]).0 == k; assert(j < n); assert(seen(s, n, k)); }
            if seen(s, n, k) { let j = choose|j: int| 0 <= j < n && (#[trigger] s[j]).0 == k; assert(s[j].0 == k); }
        }
    }
}
pub proof fn l_tfin(cs: Seq<ISet<usize>>, om: Seq<Tr>, e: Ev, h: HashMap<usize, BTreeSet<TraceAction>>, s: Seq<(usize, BTreeSet<TraceAction>)>, r: MultiTrace)
    requires tadd(cs, e, h@), h.it_ok(s), tdone(cs, om, e, s, s.len() as int, r@), om.len() == cs.len(), cs.len() <= usize::MAX,
    ensures mvw(r) == app(cs, om, e),
{
    assert forall|k: int| 0 <= k < cs.len() implies #[trigger] mvw(r)[k] == app(cs, om, e)[k] by {
        assert(tvw(r@[k]) == (if seen(s, s.len() as int, k) { app1(cs, om[k], e, k) } else { om[k] }));
        if !seen(s, s.len() as int, k) {
            let x = k as usize;
            assert forall|b: TraceAction| !prj(cs, e, k).contains(b) by {
                if prj(cs, e, k).contains(b) {
                    assert(first_at(cs, b.lf_id, x as int));
                    assert(h@.contains_key(x));
                    let j = choose|j: int| 0 <= j < s.len() && (#[trigger] s[j]).0.k() == x;
                    assert(s[j].0 == k);
                }
            }
            assert(prj(cs, e, k) =~= ISet::<TraceAction>::empty());
        }
    }
    assert(mvw(r) =~= app(cs, om, e));
}
