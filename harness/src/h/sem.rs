//! Execution semantics: frontier, execution, nullability, avoidance, pruning, involved lifelines and actions.
use std::collections::BTreeSet;
use super::{Check, Out};
use super::gen::*;
use super::lang::*;
use crate::bad;
use crate::core::execution::semantics::execute::execute_interaction;
use crate::core::execution::semantics::frontier::global_frontier;
use crate::core::execution::trace::from_model::from_model::*;
use crate::core::execution::trace::trace::*;
use crate::core::language::avoid::avoids::AvoidsLifelines;
use crate::core::language::eliminate_lf::eliminable::LifelineEliminable;
use crate::core::language::involve::involves::InvolvesLifelines;
use crate::core::language::prune::prunable::LifelinePrunable;
use crate::core::language::position::position::Position;
use crate::core::language::syntax::action::*;
use crate::core::language::syntax::interaction::*;

pub fn all() -> Vec<(&'static str, &'static str, Check, usize)> {
    vec![
        ("P01", "step", step, 5),
        ("P01", "walk", walk, 5),
        ("P02", "affected", affected, 5),
        ("P03", "prune", prune, 6),
        ("P05", "eliminate", eliminate, 6),
        ("P04", "involved", involved, 7),
    ]
}

pub fn subset(r: &mut Rng, n: usize) -> BTreeSet<usize> {
    (0..n).filter(|_| r.chance(1, 2)).collect()
}

pub fn depth(i: &Interaction, p: &Position) -> u32 {
    match (i, p) {
        (Interaction::Loop(_, a), Position::Left(q)) => 1 + depth(a, q),
        (Interaction::Strict(a, b), _) | (Interaction::Seq(a, b), _) | (Interaction::Par(a, b), _) | (Interaction::Alt(a, b), _)
        | (Interaction::CoReg(_, a, b), _) | (Interaction::Sync(_, a, b), _) => match p {
            Position::Left(q) => depth(a, q),
            Position::Right(q) => depth(b, q),
            Position::Both(q1, q2) => depth(a, q1).max(depth(b, q2)),
            _ => 0,
        },
        _ => 0,
    }
}

pub fn step_of(i: &Interaction, k: usize, lim: usize) -> Out {
    let l = match lang(i, k, lim) { Ok(l) => l, Err(_) => return Out::Skip };
    for delayed in [false, true] {
        let mut got: Lang = BTreeSet::new();
        if i.express_empty() { got.insert(vec![]); }
        for f in global_frontier(i, delayed) {
            let lfs: BTreeSet<usize> = f.target_actions.iter().map(|a| a.lf_id).collect();
            if lfs != f.target_lf_ids { bad!("frontier of {} (delayed_alt={}): action {:?} at {} is said to be on lifelines {:?}", show(i), delayed, f.target_actions, f.position, f.target_lf_ids); }
            if f.max_loop_depth != depth(i, &f.position) { bad!("frontier of {} : action at {} has loop depth {} instead of {}", show(i), f.position, f.max_loop_depth, depth(i, &f.position)); }
            let r = execute_interaction(i, &f.position, &f.target_lf_ids, false);
            let r2 = execute_interaction(i, &f.position, &f.target_lf_ids, true);
            let d = match lang(&r.interaction, k - 1, lim) { Ok(l) => l, Err(_) => return Out::Skip };
            if r2.interaction != r.interaction {
                let d2 = match lang(&r2.interaction, k - 1, lim) { Ok(l) => l, Err(_) => return Out::Skip };
                if d2 != d { bad!("executing {:?} at {} in {} gives {} or, when affected lifelines are requested, {}", f.target_actions, f.position, show(i), show(&r.interaction), show(&r2.interaction)); }
            }
            for t in d {
                let mut x = vec![f.target_actions.clone()];
                x.extend(t);
                if !l.contains(&x) { bad!("executing {:?} at {} in {} gives {}, hence the trace {} which the interaction does not accept", f.target_actions, f.position, show(i), show(&r.interaction), show_tr(&x)); }
                got.insert(x);
            }
        }
        for t in &l {
            if !got.contains(t) { bad!("interaction {} accepts the trace {} which its execution (delayed_alt={}) does not produce", show(i), show_tr(t), delayed); }
        }
        for t in &got {
            if !l.contains(t) { bad!("interaction {} does not accept the trace {} which its execution (delayed_alt={}) produces", show(i), show_tr(t), delayed); }
        }
    }
    Out::Ok
}

pub fn step(r: &mut Rng, n: usize) -> Out {
    let i = term(r, &Conf::full(), n);
    step_of(&i, if n <= 3 { 4 } else { 3 }, 3000)
}

/// the same after a few random steps (follow-ups have shapes the generator does not give)
pub fn walk(r: &mut Rng, n: usize) -> Out {
    let mut i = term(r, &Conf::full(), n);
    for _ in 0..3 {
        let f = global_frontier(&i, r.chance(1, 2));
        if f.is_empty() { break; }
        let x = &f[r.below(f.len())];
        let aff = r.chance(1, 2);
        i = execute_interaction(&i, &x.position, &x.target_lf_ids, aff).interaction;
        match step_of(&i, 3, 1500) { Out::Ok => {}, o => return o }
    }
    Out::Ok
}

pub fn project(l: &Lang, c: &BTreeSet<usize>) -> Lang {
    l.iter().map(|t| t.iter().map(|e| e.iter().filter(|a| c.contains(&a.lf_id)).cloned().collect::<Ev>()).filter(|e| !e.is_empty()).collect::<Tr>()).collect()
}

/// lifelines which are not reported as affected keep the same projected behaviour
pub fn affected(r: &mut Rng, n: usize) -> Out {
    let mut c = Conf::full();
    c.loops = r.chance(1, 2);
    let i = term(r, &c, n);
    for delayed in [false, true] {
        for f in global_frontier(&i, delayed) {
            let x = execute_interaction(&i, &f.position, &f.target_lf_ids, true);
            let rest: BTreeSet<usize> = (0..3).filter(|l| !x.affected_lifelines.contains(l)).collect();
            if rest.is_empty() { continue; }
            let other: BTreeSet<usize> = x.affected_lifelines.clone().into_iter().chain(0..3).filter(|l| !rest.contains(l)).collect();
            let a = i.eliminate_lifelines(&other);
            let b = x.interaction.eliminate_lifelines(&other);
            if a == b { continue; }
            let (la, lb) = match (lang(&a, 3, 1500), lang(&b, 3, 1500)) { (Ok(a), Ok(b)) => (a, b), _ => return Out::Skip };
            if la != lb {
                bad!("executing {:?} at {} in {} gives {} and reports {:?} as affected, but the behaviour of the other lifelines changes from {} to {}", f.target_actions, f.position, show(&i), show(&x.interaction), x.affected_lifelines, show(&a), show(&b));
            }
        }
    }
    Out::Ok
}

pub fn prune(r: &mut Rng, n: usize) -> Out {
    let i = term(r, &Conf::full(), n);
    let l = match lang(&i, 4, 3000) { Ok(l) => l, Err(_) => return Out::Skip };
    let e = l.contains(&vec![]);
    // a synchronized product may accept nothing although both operands may avoid the lifelines: the converse is claimed without it only
    let mut has_sync = false;
    each_node(&i, &mut |x| if let Interaction::Sync(..) = x { has_sync = true; });
    if i.express_empty() != e { bad!("express_empty of {} is {}", show(&i), i.express_empty()); }
    for m in 0..8usize {
        let s: BTreeSet<usize> = (0..3).filter(|x| m >> x & 1 == 1).collect();
        let av = match may_avoid(&i, &s) { Ok(x) => x, Err(_) => return Out::Skip };
        if i.avoids_all_of(&s) != av && (av || !has_sync) { bad!("avoids_all_of({:?}) of {} is {}", s, show(&i), i.avoids_all_of(&s)); }
        if !av { continue; }
        let want: Lang = l.iter().filter(|t| avoids_tr(t, &s)).cloned().collect();
        let p = i.prune(&s);
        let (q, aff) = i.prune_with_affected(&s);
        for (name, x) in [("prune", &p), ("prune_with_affected", &q)] {
            let got = match lang(x, 4, 3000) { Ok(l) => l, Err(_) => return Out::Skip };
            if let Some(t) = want.difference(&got).next() { bad!("{}({:?}) of {} is {}, which does not accept {}", name, s, show(&i), show(x), show_tr(t)); }
            if let Some(t) = got.difference(&want).next() { bad!("{}({:?}) of {} is {}, which accepts {}", name, s, show(&i), show(x), show_tr(t)); }
            if lifelines(x).iter().any(|l| s.contains(l)) { bad!("{}({:?}) of {} is {}, which still involves one of these lifelines", name, s, show(&i), show(x)); }
        }
        // lifelines which are not affected by the pruning keep their behaviour
        let rest: BTreeSet<usize> = (0..3).filter(|x| !aff.contains(x)).collect();
        let other: BTreeSet<usize> = (0..3).filter(|x| aff.contains(x)).collect();
        if !rest.is_empty() {
            let a = i.eliminate_lifelines(&other);
            let b = q.eliminate_lifelines(&other);
            if a != b {
                let (la, lb) = match (lang(&a, 3, 1500), lang(&b, 3, 1500)) { (Ok(a), Ok(b)) => (a, b), _ => return Out::Skip };
                if la != lb { bad!("prune_with_affected({:?}) of {} is {} and reports {:?} as affected, but the behaviour of the other lifelines changes from {} to {}", s, show(&i), show(&q), aff, show(&a), show(&b)); }
            }
        }
    }
    Out::Ok
}

/// every action of the lifelines s dropped, nothing simplified
pub fn drop_lifelines(i: &Interaction, s: &BTreeSet<usize>) -> Interaction {
    let d = |x: &Interaction| Box::new(drop_lifelines(x, s));
    let rec = |g: Option<usize>, ms: usize, sy: &CommunicationSynchronicity, v: Vec<usize>| if v.is_empty() { Interaction::Empty } else { Interaction::Reception(ReceptionAction::new(g, ms, sy.clone(), v)) };
    match i {
        Interaction::Empty => Interaction::Empty,
        Interaction::Emission(e) => if s.contains(&e.origin_lf_id) {
            rec(None, e.ms_id, &e.synchronicity, lf_targets(e).into_iter().filter(|l| !s.contains(l)).collect())
        } else {
            Interaction::Emission(EmissionAction::new(e.origin_lf_id, e.ms_id, e.synchronicity.clone(),
                e.targets.iter().filter(|t| match t { EmissionTargetRef::Lifeline(l) => !s.contains(l), _ => true }).cloned().collect()))
        },
        Interaction::Reception(r) => rec(r.origin_gt_id, r.ms_id, &r.synchronicity, r.recipients.iter().filter(|l| !s.contains(l)).cloned().collect()),
        Interaction::Strict(a, b) => Interaction::Strict(d(a), d(b)),
        Interaction::Seq(a, b) => Interaction::Seq(d(a), d(b)),
        Interaction::Par(a, b) => Interaction::Par(d(a), d(b)),
        Interaction::Alt(a, b) => Interaction::Alt(d(a), d(b)),
        Interaction::And(a, b) => Interaction::And(d(a), d(b)),
        Interaction::CoReg(c, a, b) => Interaction::CoReg(c.iter().filter(|l| !s.contains(l)).cloned().collect(), d(a), d(b)),
        Interaction::Sync(c, a, b) => Interaction::Sync(c.iter().filter(|x| !s.contains(&x.lf_id)).cloned().collect(), d(a), d(b)),
        Interaction::Loop(k, a) => Interaction::Loop(k.clone(), d(a)),
    }
}

/// all the lifelines written in the term, those of concurrent regions and synchronization actions included
fn written(i: &Interaction) -> BTreeSet<usize> {
    let mut w = lifelines(i);
    each_node(i, &mut |x| match x {
        Interaction::CoReg(c, _, _) => w.extend(c.iter()),
        Interaction::Sync(c, _, _) => w.extend(c.iter().map(|a| a.lf_id)),
        _ => {}
    });
    w
}

pub fn eliminate(r: &mut Rng, n: usize) -> Out {
    let mut c = Conf::full();
    if r.chance(1, 2) { c.sync = false; }
    let i = term(r, &c, n);
    let mut plain = true;
    each_node(&i, &mut |x| match x { Interaction::Sync(..) | Interaction::Loop(LoopKind::HHeadFirstWS, _) => plain = false, _ => {} });
    let k = if n <= 4 { 4 } else { 3 };
    for m in 0..8usize {
        let s: BTreeSet<usize> = (0..3).filter(|x| m >> x & 1 == 1).collect();
        let x = i.eliminate_lifelines(&s);
        if let Some(l) = written(&x).intersection(&s).next() { bad!("eliminating {:?} from {} gives {}, which still refers to l{}", s, show(&i), show(&x), l); }
        let rest: BTreeSet<usize> = lifelines(&i).difference(&s).cloned().collect();
        if lifelines(&x) != rest { bad!("eliminating {:?} from {} gives {}, which involves {:?} instead of {:?}", s, show(&i), show(&x), lifelines(&x), rest); }
        let y = drop_lifelines(&i, &s);
        let lx = match lang(&x, k, 3000) { Ok(l) => l, Err(_) => return Out::Skip };
        if x != y {
            let ly = match lang(&y, k, 3000) { Ok(l) => l, Err(_) => return Out::Skip };
            if let Some(t) = ly.difference(&lx).next() { bad!("eliminating {:?} from {} gives {}, which does not accept {}", s, show(&i), show(&x), show_tr(t)); }
            if let Some(t) = lx.difference(&ly).next() { bad!("eliminating {:?} from {} gives {}, which accepts {}", s, show(&i), show(&x), show_tr(t)); }
        }
        if plain {
            let keep: BTreeSet<usize> = (0..3).filter(|x| !s.contains(x)).collect();
            let l = match lang(&i, k, 3000) { Ok(l) => l, Err(_) => return Out::Skip };
            if let Some(t) = project(&l, &keep).difference(&lx).next() { bad!("eliminating {:?} from {} gives {}, which does not accept the projection {} of an accepted trace", s, show(&i), show(&x), show_tr(t)); }
        }
    }
    Out::Ok
}

pub fn involved(r: &mut Rng, n: usize) -> Out {
    let i = term(r, &Conf::full(), n);
    let lf = lifelines(&i);
    for lp in [true, false] {
        let want = actions(&i, lp);
        let got = if lp { i.get_all_trace_actions() } else { i.get_trace_actions_outside_loops() };
        if got != want { bad!("the trace actions {}of {} are given as {:?}", if lp { "" } else { "outside loops " }, show(&i), got); }
        let mut n = 0;
        each_leaf(&i, lp, &mut |x| n += actions(x, true).len());
        let m = if lp { i.get_atomic_actions_number() } else { i.get_atomic_actions_number_outside_loops() };
        if m != n { bad!("the number of atomic actions {}of {} is given as {}", if lp { "" } else { "outside loops " }, show(&i), m); }
    }
    if i.involved_lifelines() != lf { bad!("involved_lifelines of {} is {:?}", show(&i), i.involved_lifelines()); }
    for m in 0..8usize {
        let s: BTreeSet<usize> = (0..3).filter(|x| m >> x & 1 == 1).collect();
        if i.involves_any_of(&s) != lf.iter().any(|l| s.contains(l)) { bad!("involves_any_of({:?}) of {} is {}", s, show(&i), i.involves_any_of(&s)); }
    }
    Out::Ok
}
