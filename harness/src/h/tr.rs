//! Transformations and canonization: the accepted traces do not change.
use std::collections::BTreeSet;
use super::{Check, Out};
use super::gen::*;
use super::lang::*;
use crate::bad;
use crate::core::language::position::position::Position;
use crate::core::language::syntax::interaction::*;
use crate::core::transformation::transfokind::InteractionTransformationKind;
use crate::core::transformation::transfophase::InteractionTransformationPhase;
use crate::process::canon::param::default::DefaultCanonizationProcess;

pub fn all() -> Vec<(&'static str, &'static str, Check, usize)> {
    vec![
        ("P06", "transformations", transformations, 5),
        ("P06", "rules", rules, 6),
        ("P06", "phases", phases, 5),
    ]
}

pub fn kinds() -> Vec<InteractionTransformationKind> {
    use InteractionTransformationKind::*;
    vec![Simpl, FlushRight, InvertAlt, InvertPar, Deduplicate, FactorizePrefixStrict, FactorizePrefixSeq, FactorizeCommutativePar, FactorizeSuffixStrict, FactorizeSuffixSeq,
         DeFactorizeLeft, DeFactorizeRight, LoopSimpl, LoopUnNest, SortActionContent, StrictToSeq, ParToSeq, UnfoldActions]
}

fn sub<'a>(i: &'a Interaction, p: &Position) -> Option<&'a Interaction> {
    match (i, p) {
        (_, Position::Epsilon(_)) => Some(i),
        (Interaction::Loop(_, a), Position::Left(q)) => sub(a, q),
        (Interaction::Strict(a, b), _) | (Interaction::Seq(a, b), _) | (Interaction::Par(a, b), _) | (Interaction::Alt(a, b), _)
        | (Interaction::CoReg(_, a, b), _) | (Interaction::Sync(_, a, b), _) => match p {
            Position::Left(q) => sub(a, q),
            Position::Right(q) => sub(b, q),
            _ => None,
        },
        _ => None,
    }
}

/// the term with the sub-term at p replaced
fn put(i: &Interaction, p: &Position, n: &Interaction) -> Interaction {
    let l = |a: &Interaction, q: &Position| Box::new(put(a, q, n));
    match (i, p) {
        (_, Position::Epsilon(_)) => n.clone(),
        (Interaction::Loop(k, a), Position::Left(q)) => Interaction::Loop(k.clone(), l(a, q)),
        (Interaction::Strict(a, b), Position::Left(q)) => Interaction::Strict(l(a, q), b.clone()),
        (Interaction::Strict(a, b), Position::Right(q)) => Interaction::Strict(a.clone(), l(b, q)),
        (Interaction::Seq(a, b), Position::Left(q)) => Interaction::Seq(l(a, q), b.clone()),
        (Interaction::Seq(a, b), Position::Right(q)) => Interaction::Seq(a.clone(), l(b, q)),
        (Interaction::Par(a, b), Position::Left(q)) => Interaction::Par(l(a, q), b.clone()),
        (Interaction::Par(a, b), Position::Right(q)) => Interaction::Par(a.clone(), l(b, q)),
        (Interaction::Alt(a, b), Position::Left(q)) => Interaction::Alt(l(a, q), b.clone()),
        (Interaction::Alt(a, b), Position::Right(q)) => Interaction::Alt(a.clone(), l(b, q)),
        (Interaction::CoReg(c, a, b), Position::Left(q)) => Interaction::CoReg(c.clone(), l(a, q), b.clone()),
        (Interaction::CoReg(c, a, b), Position::Right(q)) => Interaction::CoReg(c.clone(), a.clone(), l(b, q)),
        (Interaction::Sync(c, a, b), Position::Left(q)) => Interaction::Sync(c.clone(), l(a, q), b.clone()),
        (Interaction::Sync(c, a, b), Position::Right(q)) => Interaction::Sync(c.clone(), a.clone(), l(b, q)),
        _ => i.clone(),
    }
}

fn same(what: &str, i: &Interaction, l: &Lang, x: &Interaction, k: usize, lim: usize) -> Out {
    let m = match lang(x, k, lim) { Ok(m) => m, Err(_) => return Out::Skip };
    if let Some(t) = l.difference(&m).next() { bad!("{} of {} gives {}, which does not accept {}", what, show(i), show(x), show_tr(t)); }
    if let Some(t) = m.difference(l).next() { bad!("{} of {} gives {}, which accepts {}", what, show(i), show(x), show_tr(t)); }
    Out::Ok
}

fn conf(r: &mut Rng) -> Conf {
    let mut c = Conf::full();
    if r.chance(1, 2) { c.sync = false; c.multi = r.chance(1, 2); }
    if r.chance(1, 3) { c.lfs = 2; }
    if r.chance(1, 4) { c.lfs = 1; }
    c
}

/// each rule alone, at every position
pub fn transformations(r: &mut Rng, n: usize) -> Out {
    let c = conf(r);
    let i = term(r, &c, n);
    let mut l: Option<Lang> = None;
    for k in kinds() {
        let ph = InteractionTransformationPhase::new(vec![k.clone()]);
        let all = ph.get_transfos(&i, true);
        let one = ph.get_transfos(&i, false);
        if one.len() != all.len().min(1) { bad!("{} of {}: {} transformations in all, but asking for one gives {}", k, show(&i), all.len(), one.len()); }
        for t in all.iter().chain(one.iter()) {
            if t.kind != k { bad!("{} of {} is said to be {}", k, show(&i), t.kind); }
            match (sub(&i, &t.position), sub(&t.result, &t.position)) {
                (Some(_), Some(y)) => if put(&i, &t.position, y) != t.result { bad!("{} of {} at {} changes other parts: {}", k, show(&i), t.position, show(&t.result)); },
                _ => bad!("{} of {}: no position {}", k, show(&i), t.position),
            }
            if l.is_none() { l = match lang(&i, 4, 2000) { Ok(l) => Some(l), Err(_) => return Out::Skip }; }
            match same(&format!("{} at {}", k, t.position), &i, l.as_ref().unwrap(), &t.result, 4, 2000) { Out::Ok => {}, o => return o }
        }
    }
    Out::Ok
}

fn op(r: &mut Rng, c: &Conf, k: usize, a: Interaction, b: Interaction) -> Interaction {
    let (a, b) = (Box::new(a), Box::new(b));
    match k { 0 => Interaction::Strict(a, b), 1 => Interaction::Seq(a, b), 2 => Interaction::Par(a, b), 3 => Interaction::Alt(a, b), _ => { let q: Vec<usize> = (0..c.lfs).filter(|_| r.chance(1, 2)).collect(); Interaction::CoReg(q, a, b) } }
}

/// terms which have the shape the rules look for
pub fn rules(r: &mut Rng, n: usize) -> Out {
    let c = conf(r);
    let k = r.below(5);
    let sz = (n / 2).max(1);
    let small = |r: &mut Rng| { let m = 1 + r.below(sz); if r.chance(1, 6) { Interaction::Empty } else { term(r, &c, m) } };
    let x = small(r);
    let y = small(r);
    let z = small(r);
    let y2 = if r.chance(1, 3) { x.clone() } else { y.clone() };
    let i = match r.below(8) {
        0 => { let a = op(r, &c, k, x.clone(), y); let b = op(r, &c, k, x, z); Interaction::Alt(Box::new(a), Box::new(b)) },
        1 => { let a = op(r, &c, k, y, x.clone()); let b = op(r, &c, k, z, x); Interaction::Alt(Box::new(a), Box::new(b)) },
        2 => { let a = op(r, &c, k, x, y2); let cr = match &a { Interaction::CoReg(q, _, _) => Some(q.clone()), _ => None };
               match cr { Some(q) => Interaction::CoReg(q, Box::new(a), Box::new(z)), None => op(r, &c, k, a, z) } },
        3 => { let a = op(r, &c, k, y2, z); op(r, &c, k, x, a) },
        4 => { let a = op(r, &c, 3, y2, z); op(r, &c, k, x, a) },
        5 => { let a = op(r, &c, 3, y2, z); op(r, &c, k, a, x) },
        6 => { let a = op(r, &c, k, x.clone(), y); let b = op(r, &c, k, x, z.clone()); let d = op(r, &c, 3, b, z); op(r, &c, 3, a, d) },
        _ => { let ks = vec![LoopKind::PInterleaving, LoopKind::WWeakSeq, LoopKind::HHeadFirstWS, LoopKind::SStrictSeq];
               let (a, b) = (r.below(4), r.below(4)); Interaction::Loop(ks[a].clone(), Box::new(Interaction::Loop(ks[b].clone(), Box::new(x)))) }
    };
    let mut l: Option<Lang> = None;
    for k in kinds() {
        for x in k.get_transformation()(&i) {
            if l.is_none() { l = match lang(&i, 3, 1500) { Ok(l) => Some(l), Err(_) => return Out::Skip }; }
            match same(&k.to_string(), &i, l.as_ref().unwrap(), &x, 3, 1500) { Out::Ok => {}, o => return o }
        }
    }
    Out::Ok
}

/// the default canonization processes, one path
pub fn phases(r: &mut Rng, n: usize) -> Out {
    let c = conf(r);
    let i = term(r, &c, n);
    let l = match lang(&i, 3, 1500) { Ok(l) => l, Err(_) => return Out::Skip };
    let p = match r.below(4) { 0 => DefaultCanonizationProcess::Basic, 1 => DefaultCanonizationProcess::BasicWithUnfoldActions, 2 => DefaultCanonizationProcess::BasicWithToSeq, _ => DefaultCanonizationProcess::FivePhases };
    let all = r.chance(1, 2);
    let mut x = i.clone();
    for ph in p.get_phases() {
        for _ in 0..30 {
            let ts = ph.get_transfos(&x, all);
            if ts.is_empty() { break; }
            let t = &ts[r.below(ts.len())];
            x = t.result.clone();
            match same(&format!("canonization (last step {} at {})", t.kind, t.position), &i, &l, &x, 3, 1500) { Out::Ok => {}, o => return o }
        }
    }
    Out::Ok
}
