// ============================================================================================
// Exploration and canonization processes
// ============================================================================================
pub open spec fn xpre(n: ExplorationNodeKind) -> bool { conf(vw(n.interaction)) && nld(vw(n.interaction)) <= u32::MAX }
pub open spec fn xelt(s: ExplorationStepKind) -> FrontierElement { s->Execute_0 }
/// a step which may be asked for at node n
pub open spec fn xok(n: ExplorationNodeKind, s: ExplorationStepKind) -> bool {
    fe(vw(n.interaction), 0, xelt(s)) && n.loop_depth + xelt(s).max_loop_depth <= u32::MAX
}
/// the node reached by a step
pub open spec fn xnext(n: ExplorationNodeKind, s: ExplorationStepKind, n2: ExplorationNodeKind) -> bool {
    &&& xpre(n2)
    &&& n2.loop_depth == n.loop_depth + xelt(s).max_loop_depth
    &&& dr(vw(n.interaction), pv(xelt(s).position), vw(n2.interaction))
    &&& ivs(vw(n.interaction), vw(n2.interaction))
}
pub open spec fn xset(s: Seq<ExplorationStepKind>) -> ISet<SP> {
    ISet::new(|q: SP| exists|j: int| 0 <= j < s.len() && pv(xelt(#[trigger] s[j]).position) == q)
}
/// the steps collected at a node
pub open spec fn xsteps(n: ExplorationNodeKind, s: Seq<ExplorationStepKind>) -> bool {
    covers(vw(n.interaction), xset(s)) && forall|j: int| 0 <= j < s.len() ==> fe(vw(n.interaction), 0, xelt(#[trigger] s[j]))
}
/// g is closed under the steps collected at its nodes (what the engine guarantees when nothing is filtered out)
pub open spec fn xsucc(n: ExplorationNodeKind, s: ExplorationStepKind, g: ISet<ExplorationNodeKind>) -> bool {
    exists|m: ExplorationNodeKind| #[trigger] g.contains(m) && xnext(n, s, m)
}
pub open spec fn xall(n: ExplorationNodeKind, s: Seq<ExplorationStepKind>, g: ISet<ExplorationNodeKind>) -> bool {
    xsteps(n, s) && forall|j: int| 0 <= j < s.len() ==> xsucc(n, #[trigger] s[j], g)
}
pub open spec fn xclosed(g: ISet<ExplorationNodeKind>) -> bool {
    forall|n: ExplorationNodeKind| #[trigger] g.contains(n) ==> xpre(n) && exists|s: Seq<ExplorationStepKind>| #[trigger] xall(n, s, g)
}
/// nodes p[0..k] are linked by steps with the events of t
pub open spec fn xlink(n: ExplorationNodeKind, e: Ev, m: ExplorationNodeKind) -> bool {
    exists|s: ExplorationStepKind| fe(vw(n.interaction), 0, xelt(s)) && xelt(s).target_actions@ == e && #[trigger] xnext(n, s, m)
}
pub open spec fn xpath(p: Seq<ExplorationNodeKind>, t: Tr) -> bool {
    p.len() == t.len() + 1 && forall|j: int| 0 <= j < t.len() ==> xlink(#[trigger] p[j], t[j], p[j + 1])
}
pub open spec fn xaccepts(p: Seq<ExplorationNodeKind>, n: ExplorationNodeKind, g: ISet<ExplorationNodeKind>, t: Tr) -> bool {
    xpath(p, t) && p[0] == n && nullable(vw(p[p.len() - 1].interaction)) && forall|j: int| 0 <= j < p.len() ==> g.contains(#[trigger] p[j])
}

pub proof fn l_xnode(n: ExplorationNodeKind, s: Seq<ExplorationStepKind>)
    requires xpre(n), xsteps(n, s),
    ensures forall|q: SP| #[trigger] xset(s).contains(q) ==> valid(vw(n.interaction), q),
{
    assert forall|q: SP| #[trigger] xset(s).contains(q) implies valid(vw(n.interaction), q) by {
        let j = choose|j: int| 0 <= j < s.len() && pv(xelt(#[trigger] s[j]).position) == q;
        assert(fe(vw(n.interaction), 0, xelt(s[j])));
    }
}

pub broadcast proof fn b_fset_rev(f: Seq<FrontierElement>)
    ensures #[trigger] fset(f.reverse()) == fset(f),
{
    let h = f.reverse();
    assert forall|q: SP| fset(h).contains(q) == fset(f).contains(q) by {
        if fset(f).contains(q) {
            let j = choose|j: int| 0 <= j < f.len() && pv(#[trigger] f[j].position) == q;
            assert(pv(h[f.len() - 1 - j].position) == q);
        }
        if fset(h).contains(q) {
            let j = choose|j: int| 0 <= j < h.len() && pv(#[trigger] h[j].position) == q;
            assert(pv(f[f.len() - 1 - j].position) == q);
        }
    }
    assert(fset(h) =~= fset(f));
}
/// the elements of the steps are those of the frontier
pub proof fn l_xset(f: Seq<FrontierElement>, s: Seq<ExplorationStepKind>)
    requires f.len() == s.len(), forall|j: int| 0 <= j < s.len() ==> xelt(#[trigger] s[j]) == f[j],
    ensures xset(s) == fset(f),
{
    assert forall|q: SP| xset(s).contains(q) == fset(f).contains(q) by {
        if fset(f).contains(q) {
            let j = choose|j: int| 0 <= j < f.len() && pv(#[trigger] f[j].position) == q;
            assert(pv(xelt(s[j]).position) == q);
        }
        if xset(s).contains(q) {
            let j = choose|j: int| 0 <= j < s.len() && pv(xelt(#[trigger] s[j]).position) == q;
            assert(pv(f[j].position) == q);
        }
    }
    assert(xset(s) =~= fset(f));
}

pub proof fn l_path_cons(p: Seq<ExplorationNodeKind>, n: ExplorationNodeKind, m: ExplorationNodeKind, g: ISet<ExplorationNodeKind>, t: Tr)
    requires t.len() > 0, xaccepts(p, m, g, t.skip(1)), xlink(n, t[0], m), g.contains(n),
    ensures xaccepts(seq![n] + p, n, g, t),
{
    hide(vw); hide(fe);
    let r = t.skip(1);
    let p2 = seq![n] + p;
    assert forall|k: int| 0 <= k < t.len() implies xlink(#[trigger] p2[k], t[k], p2[k + 1]) by {
        if k > 0 { assert(xlink(p[k - 1], r[k - 1], p[k])); assert(p2[k] == p[k - 1] && p2[k + 1] == p[k]); }
    }
    assert forall|k: int| 0 <= k < p2.len() implies g.contains(#[trigger] p2[k]) by { if k > 0 { assert(g.contains(p[k - 1])); } }
    assert(p2[p2.len() - 1] == p[p.len() - 1]);
}
pub proof fn l_path_tail(p: Seq<ExplorationNodeKind>, n: ExplorationNodeKind, g: ISet<ExplorationNodeKind>, t: Tr)
    requires t.len() > 0, xaccepts(p, n, g, t),
    ensures xaccepts(p.skip(1), p[1], g, t.skip(1)), g.contains(p[1]), xlink(n, t[0], p[1]),
{
    hide(vw); hide(fe);
    let r = t.skip(1);
    let k: int = 0; assert(xlink(p[k], t[k], p[k + 1]));
    let p2 = p.skip(1);
    assert forall|k: int| 0 <= k < r.len() implies xlink(#[trigger] p2[k], r[k], p2[k + 1]) by { assert(xlink(p[k + 1], t[k + 1], p[k + 1 + 1])); }
    assert forall|k: int| 0 <= k < p2.len() implies g.contains(#[trigger] p2[k]) by { assert(g.contains(p[k + 1])); }
    assert(p2[p2.len() - 1] == p[p.len() - 1]);
    assert(g.contains(m1(p))) by { assert(g.contains(p[1])); }
}
pub open spec fn m1(p: Seq<ExplorationNodeKind>) -> ExplorationNodeKind { p[1] }
/// THEOREM: in a graph closed under the collected steps, the traces of the model of a node are exactly those of the
/// paths of the graph which end in a node reported as accepting
pub proof fn thm_explo(n: ExplorationNodeKind, g: ISet<ExplorationNodeKind>, t: Tr)
    requires xclosed(g), g.contains(n),
    ensures sem(vw(n.interaction), t) == (exists|p: Seq<ExplorationNodeKind>| #[trigger] xaccepts(p, n, g, t)),
    decreases t.len(),
{
    let i = vw(n.interaction);
    if t.len() == 0 {
        assert(t =~= Seq::empty());
        l_sem_nil(i);
        if sem(i, t) {
            assert(xaccepts(seq![n], n, g, t));
        }
    } else {
        let e = t[0];
        let r = t.skip(1);
        assert(t =~= cons(e, r));
        let s = choose|s: Seq<ExplorationStepKind>| #[trigger] xall(n, s, g);
        l_xnode(n, s);
        thm_step(i, xset(s), e, r);
        if sem(i, t) {
            let q = choose|q: SP| #[trigger] xset(s).contains(q) && actp(i, q) == e && der(i, q, r);
            let j = choose|j: int| 0 <= j < s.len() && pv(xelt(#[trigger] s[j]).position) == q;
            assert(xsucc(n, s[j], g));
            let m = choose|m: ExplorationNodeKind| #[trigger] g.contains(m) && xnext(n, s[j], m);
            reveal(dr);
            assert(sem(vw(m.interaction), r));
            thm_explo(m, g, r);
            let p = choose|p: Seq<ExplorationNodeKind>| #[trigger] xaccepts(p, m, g, r);
            assert(xlink(n, e, m));
            l_path_cons(p, n, m, g, t);
        }
        if exists|p: Seq<ExplorationNodeKind>| #[trigger] xaccepts(p, n, g, t) {
            let p = choose|p: Seq<ExplorationNodeKind>| #[trigger] xaccepts(p, n, g, t);
            let m = p[1];
            let k: int = 0; assert(xlink(p[k], t[k], p[k + 1]));
            let st = choose|st: ExplorationStepKind| fe(vw(n.interaction), 0, xelt(st)) && xelt(st).target_actions@ == e && #[trigger] xnext(n, st, m);
            l_path_tail(p, n, g, t);
            thm_explo(m, g, r);
            reveal(dr);
            let q = pv(xelt(st).position);
            assert(der(i, q, r));
            l_step_sound(i, q, r);
        }
    }
}
