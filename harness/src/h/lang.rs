//! Independent oracle: bounded denotational trace semantics of interactions, written from the definition of the
//! operators (no code of /repo other than the datatypes is used).
use std::collections::{BTreeSet, HashSet};
use crate::core::execution::trace::trace::{TraceAction, TraceActionKind};
use crate::core::language::syntax::action::*;
use crate::core::language::syntax::interaction::*;

pub type Ev = BTreeSet<TraceAction>;
pub type Tr = Vec<Ev>;
pub type Lang = BTreeSet<Tr>;

pub struct TooBig;

pub fn em(lf: usize, ms: usize) -> TraceAction { TraceAction { lf_id: lf, act_kind: TraceActionKind::Emission, ms_id: ms } }
pub fn rc(lf: usize, ms: usize) -> TraceAction { TraceAction { lf_id: lf, act_kind: TraceActionKind::Reception, ms_id: ms } }

pub fn lf_targets(e: &EmissionAction) -> Vec<usize> {
    e.targets.iter().filter_map(|t| match t { EmissionTargetRef::Lifeline(l) => Some(*l), _ => None }).collect()
}

fn one(a: TraceAction) -> Ev { let mut s = BTreeSet::new(); s.insert(a); s }

fn perms(ms: usize, rs: &Vec<usize>, k: usize, out: &mut Lang, pre: &mut Tr) {
    if rs.is_empty() { out.insert(pre.clone()); return; }
    if pre.len() >= k { return; }
    for x in 0..rs.len() {
        let mut r2 = rs.clone();
        let l = r2.remove(x);
        pre.push(one(rc(l, ms)));
        perms(ms, &r2, k, out, pre);
        pre.pop();
    }
}

pub enum C<'a> { Strict, Seq, CoReg(&'a Vec<usize>), Par, Sync(&'a Vec<TraceAction>) }

fn blocked(c: &C, left: &[Ev], e: &Ev) -> bool {
    match c {
        C::Strict => !left.is_empty(),
        C::Seq => left.iter().any(|x| x.iter().any(|a| e.iter().any(|b| a.lf_id == b.lf_id))),
        C::CoReg(cr) => left.iter().any(|x| x.iter().any(|a| e.iter().any(|b| a.lf_id == b.lf_id && !cr.contains(&b.lf_id)))),
        _ => false,
    }
}

/// `head`: the first event of the result must be the first of t1
pub fn merge(c: &C, t1: &[Ev], t2: &[Ev], k: usize, pre: &mut Tr, out: &mut Lang, lim: usize) -> Result<(), TooBig> {
    if t1.is_empty() && t2.is_empty() { if out.len() >= lim { return Err(TooBig); } out.insert(pre.clone()); return Ok(()); }
    if pre.len() >= k { return Ok(()); }
    let s = |e: &Ev| -> Ev { match c { C::Sync(s) => e.iter().filter(|a| s.contains(a)).cloned().collect(), _ => BTreeSet::new() } };
    if let Some(e) = t1.first() {
        if s(e).is_empty() { pre.push(e.clone()); merge(c, &t1[1..], t2, k, pre, out, lim)?; pre.pop(); }
    }
    if let Some(e) = t2.first() {
        if s(e).is_empty() && !blocked(c, t1, e) { pre.push(e.clone()); merge(c, t1, &t2[1..], k, pre, out, lim)?; pre.pop(); }
    }
    if let (Some(e1), Some(e2)) = (t1.first(), t2.first()) {
        if !s(e1).is_empty() && s(e1) == s(e2) {
            pre.push(e1.union(e2).cloned().collect());
            merge(c, &t1[1..], &t2[1..], k, pre, out, lim)?;
            pre.pop();
        }
    }
    Ok(())
}

fn compose(c: &C, l1: &Lang, l2: &Lang, k: usize, lim: usize) -> Result<Lang, TooBig> {
    let mut out = BTreeSet::new();
    let mut n = 0;
    for t1 in l1 { for t2 in l2 {
        n += 1;
        if n > 60000 { return Err(TooBig); }
        merge(c, t1, t2, k, &mut vec![], &mut out, lim)?;
    } }
    Ok(out)
}

/// traces of length at most k
pub fn lang(i: &Interaction, k: usize, lim: usize) -> Result<Lang, TooBig> {
    let mut out = BTreeSet::new();
    match i {
        Interaction::Empty => { out.insert(vec![]); },
        Interaction::Emission(e) => {
            let tg = lf_targets(e);
            match e.synchronicity {
                CommunicationSynchronicity::Synchronous => {
                    let mut x = one(em(e.origin_lf_id, e.ms_id));
                    for l in tg { x.insert(rc(l, e.ms_id)); }
                    if k >= 1 { out.insert(vec![x]); }
                },
                CommunicationSynchronicity::Asynchronous => {
                    if k >= 1 { perms(e.ms_id, &tg, k, &mut out, &mut vec![one(em(e.origin_lf_id, e.ms_id))]); }
                }
            }
        },
        Interaction::Reception(r) => {
            match r.synchronicity {
                CommunicationSynchronicity::Synchronous => {
                    let x: Ev = r.recipients.iter().map(|l| rc(*l, r.ms_id)).collect();
                    if k >= 1 { out.insert(vec![x]); }
                },
                CommunicationSynchronicity::Asynchronous => { perms(r.ms_id, &r.recipients, k, &mut out, &mut vec![]); }
            }
        },
        Interaction::Strict(a, b) => { out = compose(&C::Strict, &lang(a, k, lim)?, &lang(b, k, lim)?, k, lim)?; },
        Interaction::Seq(a, b) => { out = compose(&C::Seq, &lang(a, k, lim)?, &lang(b, k, lim)?, k, lim)?; },
        Interaction::CoReg(cr, a, b) => { out = compose(&C::CoReg(cr), &lang(a, k, lim)?, &lang(b, k, lim)?, k, lim)?; },
        Interaction::Par(a, b) => { out = compose(&C::Par, &lang(a, k, lim)?, &lang(b, k, lim)?, k, lim)?; },
        Interaction::Sync(s, a, b) => { out = compose(&C::Sync(s), &lang(a, k, lim)?, &lang(b, k, lim)?, k, lim)?; },
        Interaction::Alt(a, b) => { out = lang(a, k, lim)?; out.extend(lang(b, k, lim)?); },
        Interaction::Loop(lk, a) => {
            let body: Lang = lang(a, k, lim)?.into_iter().filter(|t| !t.is_empty()).collect();
            let c = match lk { LoopKind::SStrictSeq => C::Strict, LoopKind::PInterleaving => C::Par, _ => C::Seq };
            let head = matches!(lk, LoopKind::HHeadFirstWS);
            out.insert(vec![]);
            let mut cur: Lang = out.clone();
            loop {
                let mut nxt: Lang = BTreeSet::new();
                if head {
                    for t1 in &body { for t2 in &cur {
                        if t1.len() + t2.len() <= k { merge(&c, &t1[1..], t2, k, &mut vec![t1[0].clone()], &mut nxt, lim)?; }
                    } }
                } else {
                    for t1 in &body { for t2 in &cur { if t1.len() + t2.len() <= k { merge(&c, t1, t2, k, &mut vec![], &mut nxt, lim)?; } } }
                }
                cur = nxt.difference(&out).cloned().collect();
                if cur.is_empty() { break; }
                out.extend(cur.iter().cloned());
                if out.len() > lim { return Err(TooBig); }
            }
        },
        Interaction::And(_, _) => {},
    }
    if out.len() > lim { return Err(TooBig); }
    Ok(out)
}

pub fn avoids_tr(t: &Tr, l: &BTreeSet<usize>) -> bool { t.iter().all(|e| e.iter().all(|a| !l.contains(&a.lf_id))) }

/// the set of lifelines of the actions of the term
pub fn lifelines(i: &Interaction) -> BTreeSet<usize> { actions(i, true).into_iter().map(|a| a.lf_id).collect() }

/// the actions of the term (under loops as well if `loops`)
pub fn actions(i: &Interaction, loops: bool) -> BTreeSet<TraceAction> {
    let mut s = BTreeSet::new();
    each_leaf(i, loops, &mut |x| match x {
        Interaction::Emission(e) => { s.insert(em(e.origin_lf_id, e.ms_id)); for l in lf_targets(e) { s.insert(rc(l, e.ms_id)); } },
        Interaction::Reception(r) => { for l in &r.recipients { s.insert(rc(*l, r.ms_id)); } },
        _ => {}
    });
    s
}

pub fn each_leaf(i: &Interaction, loops: bool, f: &mut dyn FnMut(&Interaction)) {
    match i {
        Interaction::Empty | Interaction::Emission(_) | Interaction::Reception(_) => f(i),
        Interaction::Strict(a, b) | Interaction::Seq(a, b) | Interaction::CoReg(_, a, b) | Interaction::Alt(a, b) | Interaction::Par(a, b)
        | Interaction::And(a, b) | Interaction::Sync(_, a, b) => { each_leaf(a, loops, f); each_leaf(b, loops, f); },
        Interaction::Loop(_, a) => if loops { each_leaf(a, loops, f) },
    }
}

pub fn each_node(i: &Interaction, f: &mut dyn FnMut(&Interaction)) {
    f(i);
    match i {
        Interaction::Empty | Interaction::Emission(_) | Interaction::Reception(_) => {},
        Interaction::Strict(a, b) | Interaction::Seq(a, b) | Interaction::CoReg(_, a, b) | Interaction::Alt(a, b) | Interaction::Par(a, b)
        | Interaction::And(a, b) | Interaction::Sync(_, a, b) => { each_node(a, f); each_node(b, f); },
        Interaction::Loop(_, a) => each_node(a, f),
    }
}

/// nested loops, along the deepest branch
pub fn loop_depth(i: &Interaction) -> u32 {
    match i {
        Interaction::Empty | Interaction::Emission(_) | Interaction::Reception(_) => 0,
        Interaction::Strict(a, b) | Interaction::Seq(a, b) | Interaction::CoReg(_, a, b) | Interaction::Alt(a, b) | Interaction::Par(a, b)
        | Interaction::And(a, b) | Interaction::Sync(_, a, b) => loop_depth(a).max(loop_depth(b)),
        Interaction::Loop(_, a) => 1 + loop_depth(a),
    }
}

/// is there an accepted trace (of any length) without any action on the lifelines of l ? loops may always be skipped
/// (compositional, as the merge of two traces always exists for the operators other than the synchronized product)
pub fn may_avoid(i: &Interaction, l: &BTreeSet<usize>) -> Result<bool, TooBig> {
    Ok(match i {
        Interaction::Empty | Interaction::Loop(_, _) => true,
        Interaction::Emission(_) | Interaction::Reception(_) => lifelines(i).is_disjoint(l),
        Interaction::Strict(a, b) | Interaction::Seq(a, b) | Interaction::CoReg(_, a, b) | Interaction::Par(a, b) => may_avoid(a, l)? && may_avoid(b, l)?,
        Interaction::Alt(a, b) => may_avoid(a, l)? || may_avoid(b, l)?,
        Interaction::And(_, _) => false,
        Interaction::Sync(_, a, b) => may_avoid(a, l)? && may_avoid(b, l)? && lang(i, 4, 2000)?.iter().any(|t| avoids_tr(t, l)),
    })
}

pub fn show_tr(t: &Tr) -> String {
    t.iter().map(|e| format!("{{{}}}", e.iter().map(|a| format!("l{}{}m{}", a.lf_id, if a.act_kind == TraceActionKind::Emission { "!" } else { "?" }, a.ms_id)).collect::<Vec<_>>().join(","))).collect::<Vec<_>>().join(".")
}

pub fn show(i: &Interaction) -> String {
    fn acts(s: &Vec<TraceAction>) -> String { s.iter().map(|a| format!("l{}{}m{}", a.lf_id, if a.act_kind == TraceActionKind::Emission { "!" } else { "?" }, a.ms_id)).collect::<Vec<_>>().join(",") }
    match i {
        Interaction::Empty => "o".to_string(),
        Interaction::Emission(e) => format!("{}l{}--m{}->({})", if e.synchronicity == CommunicationSynchronicity::Synchronous { "<sync>" } else { "" }, e.origin_lf_id, e.ms_id,
            e.targets.iter().map(|t| match t { EmissionTargetRef::Lifeline(l) => format!("l{}", l), EmissionTargetRef::Gate(g) => format!("g{}", g) }).collect::<Vec<_>>().join(",")),
        Interaction::Reception(r) => format!("{}{}m{}->({})", if r.synchronicity == CommunicationSynchronicity::Synchronous { "<sync>" } else { "" },
            match r.origin_gt_id { Some(g) => format!("g{}--", g), None => "--".to_string() }, r.ms_id, r.recipients.iter().map(|l| format!("l{}", l)).collect::<Vec<_>>().join(",")),
        Interaction::Strict(a, b) => format!("strict({},{})", show(a), show(b)),
        Interaction::Seq(a, b) => format!("seq({},{})", show(a), show(b)),
        Interaction::CoReg(c, a, b) => format!("coreg{:?}({},{})", c, show(a), show(b)),
        Interaction::Alt(a, b) => format!("alt({},{})", show(a), show(b)),
        Interaction::Par(a, b) => format!("par({},{})", show(a), show(b)),
        Interaction::Loop(k, a) => format!("loop{:?}({})", k, show(a)),
        Interaction::And(a, b) => format!("and({},{})", show(a), show(b)),
        Interaction::Sync(s, a, b) => format!("sync[{}]({},{})", acts(s), show(a), show(b)),
    }
}
