pub proof fn l_lft_take(s: Seq<EmissionTargetRef>, n: int)
    requires 0 <= n < s.len(),
    ensures
        lf_targets(s.take(n + 1)) == (match s[n] { EmissionTargetRef::Lifeline(l) => lf_targets(s.take(n)).push(l), _ => lf_targets(s.take(n)) }),
        match s[n] { EmissionTargetRef::Lifeline(l) => sset(lf_targets(s.take(n + 1))) == sset(lf_targets(s.take(n))).insert(l), _ => true },
{
    assert(s.take(n + 1).drop_last() =~= s.take(n));
    assert(s.take(n + 1).last() == s[n]);
    match s[n] {
        EmissionTargetRef::Lifeline(l) => { l_sset_push(lf_targets(s.take(n)), l); },
        _ => {},
    }
}

pub proof fn l_sset_push<A>(s: Seq<A>, x: A)
    ensures sset(s.push(x)) == sset(s).insert(x),
{
    assert forall|y: A| sset(s.push(x)).contains(y) == sset(s).insert(x).contains(y) by {
        if s.contains(y) {
            let k = choose|k: int| 0 <= k < s.len() && s[k] == y;
            assert(s.push(x)[k] == y);
        }
        if y == x { assert(s.push(x)[s.len() as int] == y); }
        if s.push(x).contains(y) && y != x {
            let k = choose|k: int| 0 <= k < s.push(x).len() && s.push(x)[k] == y;
            assert(s[k] == y);
        }
    }
    assert(sset(s.push(x)) =~= sset(s).insert(x));
}

pub proof fn l_sset_take<A>(s: Seq<A>, n: int)
    requires 0 < n <= s.len(),
    ensures sset(s.take(n)) == sset(s.take(n - 1)).insert(s[n - 1]),
{
    assert(s.take(n) =~= s.take(n - 1).push(s[n - 1]));
    l_sset_push(s.take(n - 1), s[n - 1]);
}

pub broadcast proof fn b_disj_union<A>(a: ISet<A>, b: ISet<A>, l: ISet<A>)
    ensures (#[trigger] a.union(b).disjoint(l)) == (a.disjoint(l) && b.disjoint(l)),
{
    if a.union(b).disjoint(l) {
        assert forall|x: A| a.contains(x) implies !l.contains(x) by { assert(a.union(b).contains(x)); }
        assert forall|x: A| b.contains(x) implies !l.contains(x) by { assert(a.union(b).contains(x)); }
    }
}

pub broadcast group g_setf {
    b_disj_union,
}

pub broadcast proof fn b_set_it_nil<T: VxK>(a: ISet<T::K>, b: ISet<T::K>, s: Seq<T>)
    requires #[trigger] set_it(a.intersect(b), s),
    ensures s.len() == 0 <==> b.disjoint(a),
{
    if s.len() == 0 {
        assert forall|x: T::K| b.contains(x) implies !a.contains(x) by {
            if a.contains(x) { assert(kset(s).contains(x)); }
        }
    }
    if b.disjoint(a) && s.len() > 0 {
        assert(kset(s).contains(s[0].k()));
    }
}

pub broadcast proof fn b_kset_cloned(v: Seq<TraceAction>, s: Seq<TraceAction>)
    requires v =~= s,
    ensures #[trigger] kset(v) == #[trigger] sset(s),
{
    assert(kset(v) =~= sset(s)) by {
        assert forall|x: TraceAction| kset(v).contains(x) == sset(s).contains(x) by {
            if s.contains(x) { let j = choose|j: int| 0 <= j < s.len() && s[j] == x; assert(v[j].k() == x); }
        }
    }
}

pub broadcast proof fn b_lfs_union(a: Ev, b: Ev)
    ensures #[trigger] lfs(a.union(b)) == lfs(a).union(lfs(b)),
{
    assert forall|l: usize| lfs(a.union(b)).contains(l) == lfs(a).union(lfs(b)).contains(l) by {
        if lfs(a).contains(l) { let x = choose|x: TraceAction| #[trigger] a.contains(x) && x.lf_id == l; assert(a.union(b).contains(x)); }
        if lfs(b).contains(l) { let x = choose|x: TraceAction| #[trigger] b.contains(x) && x.lf_id == l; assert(a.union(b).contains(x)); }
    }
    assert(lfs(a.union(b)) =~= lfs(a).union(lfs(b)));
}

pub broadcast proof fn b_lfs_one(x: TraceAction)
    ensures #[trigger] lfs(ISet::<TraceAction>::empty().insert(x)) == ISet::<usize>::empty().insert(x.lf_id),
{
    let e = ISet::<TraceAction>::empty().insert(x);
    assert(e.contains(x));
    assert(lfs(e) =~= ISet::<usize>::empty().insert(x.lf_id));
}

pub broadcast proof fn b_lfs_rec(ms: usize, rs: Seq<usize>)
    ensures #[trigger] lfs(rec_event(ms, rs)) == sset(rs),
{
    let e = rec_event(ms, rs);
    assert forall|l: usize| lfs(e).contains(l) == sset(rs).contains(l) by {
        if sset(rs).contains(l) { assert(e.contains(rc_act(l, ms))); }
    }
    assert(lfs(e) =~= sset(rs));
}

pub broadcast proof fn b_lfs_em(o: usize, ms: usize, tg: Seq<EmissionTargetRef>)
    ensures #[trigger] lfs(em_event(o, ms, tg)) == em_lfs(o, tg),
{
    let e = em_event(o, ms, tg);
    assert forall|l: usize| lfs(e).contains(l) == em_lfs(o, tg).contains(l) by {
        if sset(lf_targets(tg)).contains(l) { assert(e.contains(rc_act(l, ms))); }
        if l == o { assert(e.contains(em_act(o, ms))); }
    }
    assert(lfs(e) =~= em_lfs(o, tg));
}

pub broadcast group g_lfs {
    b_lfs_union, b_lfs_one, b_lfs_rec, b_lfs_em,
}

pub broadcast proof fn b_union_self<A>(a: ISet<A>)
    ensures #[trigger] a.union(a) == a,
{
    assert(a.union(a) =~= a);
}
