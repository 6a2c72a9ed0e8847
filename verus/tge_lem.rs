/// the letters are pairwise distinct sets of actions
pub open spec fn inj(s: Seq<BTreeSet<TraceAction>>) -> bool {
    forall|a: int, b: int| 0 <= a < b < s.len() ==> (#[trigger] s[a])@ != (#[trigger] s[b])@
}
/// observing one more event at the end of an interleaving
pub proof fn l_shuf_push(cs: Seq<ISet<usize>>, t: Tr, r: Seq<Tr>, e: Ev, c: int)
    requires shuf(t, r), 0 <= c < r.len(),
    ensures shuf(t.push(e), r.update(c, r[c].push(e))),
    decreases t.len(),
{
    let r2 = r.update(c, r[c].push(e));
    let t2 = t.push(e);
    if t.len() == 0 {
        assert(r[c].len() == 0);
        assert(hd(r2, c, t2[0]));
        assert forall|k: int| 0 <= k < r2.len() implies (#[trigger] adv(r2, c)[k]).len() == 0 by { if k != c { assert(adv(r2, c)[k] == r[k]); } }
        assert(shuf(t2.drop_first(), adv(r2, c)));
    } else {
        let k = choose|k: int| #[trigger] hd(r, k, t[0]) && shuf(t.drop_first(), adv(r, k));
        l_shuf_push(cs, t.drop_first(), adv(r, k), e, c);
        assert(t2.drop_first() =~= t.drop_first().push(e));
        assert(adv(r2, k) =~= adv(r, k).update(c, adv(r, k)[c].push(e))) by {
            if k == c { assert(r2[c].drop_first() =~= r[c].drop_first().push(e)); }
        }
        assert(hd(r2, k, t2[0]));
    }
}
/// e lies on one co-localization
pub open spec fn onec(cs: Seq<ISet<usize>>, e: Ev) -> bool {
    exists|c: int| 0 <= c < cs.len() && #[trigger] onc(cs, e, c)
}
pub open spec fn onc(cs: Seq<ISet<usize>>, e: Ev, c: int) -> bool {
    (exists|a: TraceAction| #[trigger] e.contains(a)) && forall|a: TraceAction| #[trigger] e.contains(a) ==> first_at(cs, a.lf_id, c)
}
pub proof fn l_app_onc(cs: Seq<ISet<usize>>, r: Seq<Tr>, e: Ev, c: int)
    requires onc(cs, e, c), 0 <= c < cs.len(), r.len() == cs.len(),
    ensures app(cs, r, e) == r.update(c, r[c].push(e)),
{
    let x = app(cs, r, e);
    let a0 = choose|a: TraceAction| #[trigger] e.contains(a);
    assert forall|k: int| 0 <= k < r.len() implies #[trigger] x[k] == r.update(c, r[c].push(e))[k] by {
        if k == c {
            assert(prj(cs, e, c) =~= e);
            assert(e.contains(a0));
            assert(e != ISet::<TraceAction>::empty());
        } else {
            assert forall|a: TraceAction| !prj(cs, e, k).contains(a) by { if prj(cs, e, k).contains(a) { l_first1(cs, a.lf_id, k, c); } }
            assert(prj(cs, e, k) =~= ISet::<TraceAction>::empty());
        }
    }
    assert(x =~= r.update(c, r[c].push(e)));
}
/// THEOREM: the multi-trace built along a trace is a distribution of that trace over the co-localizations
pub proof fn thm_mtof(cs: Seq<ISet<usize>>, t: Tr)
    requires forall|j: int| 0 <= j < t.len() ==> onec(cs, #[trigger] t[j]),
    ensures mtof(cs, t).len() == cs.len(), shuf(t, mtof(cs, t)),
    decreases t.len(),
{
    if t.len() > 0 {
        let u = t.drop_last();
        assert forall|j: int| 0 <= j < u.len() implies onec(cs, #[trigger] u[j]) by { assert(onec(cs, t[j])); }
        thm_mtof(cs, u);
        assert(onec(cs, t[t.len() - 1]));
        let c = choose|c: int| 0 <= c < cs.len() && #[trigger] onc(cs, t.last(), c);
        l_app_onc(cs, mtof(cs, u), t.last(), c);
        l_shuf_push(cs, u, mtof(cs, u), t.last(), c);
        assert(t =~= u.push(t.last()));
    } else {
        assert(all_empty(mtof(cs, t)));
    }
}
pub proof fn l_path_sem(p: Seq<ExplorationNodeKind>, t: Tr)
    requires xpath(p, t), xpre(p[0]), nullable(vw(p[p.len() - 1].interaction)),
    ensures sem(vw(p[0].interaction), t),
    decreases t.len(),
{
    let i = vw(p[0].interaction);
    l_sem_nil(i);
    if t.len() == 0 { assert(t =~= Seq::empty()); } else {
        let k: int = 0; assert(xlink(p[k], t[k], p[k + 1]));
        let st = choose|st: ExplorationStepKind| fe(i, 0, xelt(st)) && xelt(st).target_actions@ == t[0] && #[trigger] xnext(p[0], st, p[1]);
        let p2 = p.skip(1); let r = t.skip(1);
        assert forall|k: int| 0 <= k < r.len() implies xlink(#[trigger] p2[k], r[k], p2[k + 1]) by { assert(xlink(p[k + 1], t[k + 1], p[k + 1 + 1])); }
        l_path_sem(p2, r);
        reveal(dr);
        let q = pv(xelt(st).position);
        assert(der(i, q, r));
        l_step_sound(i, q, r);
        assert(t =~= cons(t[0], r));
    }
}
/// THEOREM: a multi-trace generated at an accepting node, along a path whose events each lie on one co-localization, is accepted by the model
pub proof fn thm_gen(cs: Seq<ISet<usize>>, p: Seq<ExplorationNodeKind>, t: Tr)
    requires xpath(p, t), xpre(p[0]), nullable(vw(p[p.len() - 1].interaction)), forall|j: int| 0 <= j < t.len() ==> onec(cs, #[trigger] t[j]),
    ensures macc(vw(p[0].interaction), mtof(cs, t)),
{
    l_path_sem(p, t);
    thm_mtof(cs, t);
    assert(sem(vw(p[0].interaction), t) && shuf(t, mtof(cs, t)));
}
/// with the trivial partition, any event which has an action lies on the only co-localization; with the discrete one, any event of a single lifeline
pub proof fn l_onec(cs: Seq<ISet<usize>>, e: Ev)
    requires cov(cs, lfs(e)), cs.len() == 1 || (forall|a: TraceAction, b: TraceAction| #[trigger] e.contains(a) && #[trigger] e.contains(b) ==> a.lf_id == b.lf_id), exists|a: TraceAction| #[trigger] e.contains(a),
    ensures onec(cs, e),
{
    let a0 = choose|a: TraceAction| #[trigger] e.contains(a);
    assert(lfs(e).contains(a0.lf_id));
    l_fst(cs, a0.lf_id);
    let c = choose|c: int| first_at(cs, a0.lf_id, c);
    assert forall|a: TraceAction| #[trigger] e.contains(a) implies first_at(cs, a.lf_id, c) by {
        assert(lfs(e).contains(a.lf_id));
        if cs.len() == 1 { let k = choose|k: int| 0 <= k < cs.len() && (#[trigger] cs[k]).contains(a.lf_id); assert(k == 0 && c == 0); }
    }
    assert(onc(cs, e, c));
}
pub proof fn l_fst(cs: Seq<ISet<usize>>, l: usize)
    requires covx(cs, l),
    ensures exists|c: int| first_at(cs, l, c),
{
    let k = choose|k: int| 0 <= k < cs.len() && (#[trigger] cs[k]).contains(l);
    l_fst_r(cs, l, k);
}
pub proof fn l_fst_r(cs: Seq<ISet<usize>>, l: usize, k: int)
    requires 0 <= k < cs.len(), cs[k].contains(l),
    ensures exists|c: int| first_at(cs, l, c),
    decreases k,
{
    if exists|j: int| 0 <= j < k && (#[trigger] cs[j]).contains(l) {
        let j = choose|j: int| 0 <= j < k && (#[trigger] cs[j]).contains(l);
        l_fst_r(cs, l, j);
    } else { assert(first_at(cs, l, k)); }
}
