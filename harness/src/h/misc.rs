//! Names, co-localizations, metrics.
use std::collections::{BTreeMap, BTreeSet, HashSet};
use super::{Check, Out};
use super::gen::*;
use super::lang::*;
use crate::bad;
use crate::core::colocalizations::CoLocalizations;
use crate::core::error::HibouCoreError;
use crate::core::execution::trace::from_model::from_model::*;
use crate::core::general_context::GeneralContext;
use crate::core::language::syntax::action::*;
use crate::core::language::syntax::interaction::*;
use crate::core::language::syntax::metrics::*;

pub fn all() -> Vec<(&'static str, &'static str, Check, usize)> {
    vec![
        ("P11", "names", names, 8),
        ("P12", "colocs", colocs, 6),
        ("P13", "metrics", metrics, 8),
        ("P14", "order", order, 6),
    ]
}

fn name(r: &mut Rng) -> String { r.pick(&["a", "b", "a1", "", "ab", "A", "b ", "é", "aa", "c", "l0", "l1"]).to_string() }

/// names get identifiers, which give them back
pub fn names(r: &mut Rng, n: usize) -> Out {
    let mut g = GeneralContext::new();
    let mut known: [Vec<String>; 3] = [vec![], vec![], vec![]];
    let mut hist = vec![];
    for _ in 0..n * 3 {
        let k = r.below(3);
        let s = name(r);
        if r.chance(2, 3) {
            let id = match k { 0 => g.add_lf(s.clone()), 1 => g.add_msg(s.clone()), _ => g.add_gt(s.clone()) };
            hist.push(format!("{}:{:?}->{}", ["lifeline", "message", "gate"][k], s, id));
            let want = match known[k].iter().position(|x| *x == s) { Some(p) => p, None => { known[k].push(s.clone()); known[k].len() - 1 } };
            if id != want { bad!("adding {:?} gives identifier {} instead of {}", hist, id, want); }
        }
        for (k, v) in known.iter().enumerate() {
            for s in ["a", "b", "a1", "", "ab", "A", "b ", "é", "aa", "c", "l0", "l1"] {
                let id = match k { 0 => g.get_lf_id(s), 1 => g.get_ms_id(s), _ => g.get_gt_id(s) };
                if id != v.iter().position(|x| x == s) { bad!("after {:?}: {} {:?} has identifier {:?}", hist, ["lifeline", "message", "gate"][k], s, id); }
            }
            for id in 0..v.len() + 2 {
                let x = match k { 0 => g.get_lf_name(id), 1 => g.get_ms_name(id), _ => g.get_gt_name(id) };
                let ok = match (&x, v.get(id)) {
                    (Ok(a), Some(b)) => a == b,
                    (Err(HibouCoreError::UnknownLifeline(i)), None) => k == 0 && *i == id,
                    (Err(HibouCoreError::UnknownMessage(i)), None) => k == 1 && *i == id,
                    (Err(HibouCoreError::UnknownGate(i)), None) => k == 2 && *i == id,
                    _ => false,
                };
                if !ok { bad!("after {:?}: {} of identifier {} is {:?}", hist, ["lifeline", "message", "gate"][k], id, x); }
            }
        }
        if g.get_lf_num() != known[0].len() || g.get_ms_num() != known[1].len() { bad!("after {:?}: {} lifelines and {} messages", hist, g.get_lf_num(), g.get_ms_num()); }
        if g.get_all_lfs_ids() != (0..known[0].len()).collect::<BTreeSet<usize>>() { bad!("after {:?}: lifelines {:?}", hist, g.get_all_lfs_ids()); }
    }
    Out::Ok
}

/// co-localizations of lifelines and lifelines of co-localizations
pub fn colocs(r: &mut Rng, n: usize) -> Out {
    let m = r.below(n) + 1;
    let (t, d) = (CoLocalizations::get_trivial_partition(m - 1), CoLocalizations::get_discrete_partition(m - 1));
    if t.locs_lf_ids != vec![(0..m - 1).collect::<BTreeSet<usize>>()] { bad!("trivial partition of {} lifelines: {:?}", m - 1, t); }
    if d.locs_lf_ids != (0..m - 1).map(|x| [x].into_iter().collect()).collect::<Vec<BTreeSet<usize>>>() { bad!("discrete partition of {} lifelines: {:?}", m - 1, d); }
    // a partition of 0..m (maybe with empty parts)
    let k = r.below(m) + 1;
    let mut v: Vec<BTreeSet<usize>> = vec![BTreeSet::new(); k];
    let mut at = BTreeMap::new();
    for l in 0..m { let c = r.below(k); v[c].insert(l); at.insert(l, c); }
    let c = CoLocalizations::new(v.clone());
    if c.num_colocs() != k { bad!("{:?} has {} co-localizations", c, c.num_colocs()); }
    if c.are_colocalizations_singletons() != v.iter().all(|x| x.len() <= 1) { bad!("{:?}: are all singletons: {}", c, c.are_colocalizations_singletons()); }
    for l in 0..m + 2 { if c.get_lf_coloc_id(l) != at.get(&l).cloned() { bad!("{:?}: lifeline {} is on {:?}", c, l, c.get_lf_coloc_id(l)); } }
    for i in 0..k { if *c.get_coloc_lfs_ids(i) != v[i] { bad!("{:?}: co-localization {} has {:?}", c, i, c.get_coloc_lfs_ids(i)); } }
    let ls: BTreeSet<usize> = (0..m).filter(|_| r.chance(1, 2)).collect();
    let cs: HashSet<usize> = ls.iter().map(|l| at[l]).collect();
    if c.get_coloc_ids_from_lf_ids(&ls) != cs { bad!("{:?}: lifelines {:?} are on {:?}", c, ls, c.get_coloc_ids_from_lf_ids(&ls)); }
    let cs: HashSet<usize> = (0..k).filter(|_| r.chance(1, 2)).collect();
    let ls: BTreeSet<usize> = (0..m).filter(|l| cs.contains(&at[l])).collect();
    if c.get_lf_ids_from_coloc_ids(&cs) != ls { bad!("{:?}: co-localizations {:?} have lifelines {:?}", c, cs, c.get_lf_ids_from_coloc_ids(&cs)); }
    Out::Ok
}

struct M { sym: BTreeMap<SymbolKind, u32>, depth: u32, loops: u32, lfs: BTreeSet<usize>, nloop: u32, act: usize, act_out: usize }
fn count(m: &mut M, i: &Interaction, d: u32, l: u32) {
    m.depth = m.depth.max(d);
    m.loops = m.loops.max(l);
    let mut kids = |m: &mut M, a: &Interaction, b: &Interaction| { count(m, a, d + 1, l); count(m, b, d + 1, l); };
    let k = match i {
        Interaction::Empty => SymbolKind::Empty,
        Interaction::Emission(e) => {
            m.lfs.insert(e.origin_lf_id);
            let mut ev: BTreeSet<usize> = BTreeSet::new();
            for t in &e.targets { if let EmissionTargetRef::Lifeline(x) = t { m.lfs.insert(*x); ev.insert(*x); } }
            m.act += 1 + ev.len();
            if l == 0 { m.act_out += 1 + ev.len(); }
            SymbolKind::Action
        },
        Interaction::Reception(e) => {
            let ev: BTreeSet<usize> = e.recipients.iter().cloned().collect();
            m.act += ev.len();
            if l == 0 { m.act_out += ev.len(); }
            m.lfs.extend(ev);
            SymbolKind::Action
        },
        Interaction::Strict(a, b) => { kids(m, a, b); SymbolKind::Strict },
        Interaction::Seq(a, b) => { kids(m, a, b); SymbolKind::Seq },
        Interaction::Par(a, b) => { kids(m, a, b); SymbolKind::Par },
        Interaction::Alt(a, b) => { kids(m, a, b); SymbolKind::Alt },
        Interaction::CoReg(_, a, b) => { kids(m, a, b); SymbolKind::CoReg },
        Interaction::Sync(_, a, b) => { kids(m, a, b); SymbolKind::Sync },
        Interaction::And(a, b) => { kids(m, a, b); SymbolKind::And },
        Interaction::Loop(k, a) => {
            m.nloop += 1;
            count(m, a, d + 1, l + 1);
            if *k == LoopKind::SStrictSeq { SymbolKind::LoopS } else { SymbolKind::LoopOther }
        },
    };
    *m.sym.entry(k).or_insert(0) += 1;
}
/// metrics count what is written
pub fn metrics(r: &mut Rng, n: usize) -> Out {
    use strum::IntoEnumIterator;
    let i = term(r, &Conf::full(), n);
    let mut m = M { sym: BTreeMap::new(), depth: 0, loops: 0, lfs: BTreeSet::new(), nloop: 0, act: 0, act_out: 0 };
    count(&mut m, &i, 0, 0);
    let x = InteractionMetrics::extract_from_interaction(&i);
    for k in SymbolKind::iter() {
        if x.symbols.get(&k) != Some(m.sym.get(&k).unwrap_or(&0)) { bad!("{} has {:?} symbols of kind {:?}", show(&i), x.symbols.get(&k), k); }
    }
    if x.get_num_symbols() != m.sym.values().sum::<u32>() { bad!("{} has {} symbols", show(&i), x.get_num_symbols()); }
    if x.depth != m.depth { bad!("{} has depth {}", show(&i), x.depth); }
    if x.max_nested_loop_depth != m.loops || i.max_nested_loop_depth() != m.loops { bad!("{} has loop depth {} and {}", show(&i), x.max_nested_loop_depth, i.max_nested_loop_depth()); }
    if x.lifelines.iter().cloned().collect::<BTreeSet<usize>>() != m.lfs { bad!("{} has lifelines {:?}", show(&i), x.lifelines); }
    if i.total_loop_num() != m.nloop { bad!("{} has {} loops", show(&i), i.total_loop_num()); }
    if i.get_atomic_actions_number() != m.act { bad!("{} has {} atomic actions", show(&i), i.get_atomic_actions_number()); }
    if i.get_atomic_actions_number_outside_loops() != m.act_out { bad!("{} has {} atomic actions outside loops", show(&i), i.get_atomic_actions_number_outside_loops()); }
    Out::Ok
}

/// a term which differs from i in one place (or not at all)
fn tweak(r: &mut Rng, i: &Interaction) -> Interaction {
    use crate::core::execution::trace::trace::*;
    let c = Conf::full();
    let down = r.chance(2, 3);
    let mut two = |r: &mut Rng, a: &Interaction, b: &Interaction| -> (Box<Interaction>, Box<Interaction>) {
        if r.chance(1, 2) { (Box::new(tweak(r, a)), Box::new(b.clone())) } else { (Box::new(a.clone()), Box::new(tweak(r, b))) }
    };
    match i {
        Interaction::Emission(e) if r.chance(4, 5) => {
            let mut e = e.clone();
            match r.below(6) {
                0 => e.origin_lf_id = r.below(3),
                1 => e.ms_id = r.below(2),
                2 => e.synchronicity = if e.synchronicity == CommunicationSynchronicity::Synchronous { CommunicationSynchronicity::Asynchronous } else { CommunicationSynchronicity::Synchronous },
                3 => { let p = r.below(e.targets.len() + 1); e.targets.insert(p, if r.chance(1, 3) { EmissionTargetRef::Gate(r.below(3)) } else { EmissionTargetRef::Lifeline(r.below(3)) }); },
                4 => { if !e.targets.is_empty() { let p = r.below(e.targets.len()); e.targets.remove(p); } },
                _ => { let n = e.targets.len(); if n > 1 { let p = r.below(n); e.targets.swap(p, (p + 1) % n); } else if n == 1 { e.targets[0] = if r.chance(1, 2) { EmissionTargetRef::Gate(r.below(2)) } else { EmissionTargetRef::Lifeline(r.below(3)) }; } },
            }
            Interaction::Emission(e)
        },
        Interaction::Reception(e) if r.chance(4, 5) => {
            let mut e = e.clone();
            match r.below(6) {
                0 => e.origin_gt_id = match r.below(3) { 0 => None, x => Some(x) },
                1 => e.ms_id = r.below(2),
                2 => e.synchronicity = if e.synchronicity == CommunicationSynchronicity::Synchronous { CommunicationSynchronicity::Asynchronous } else { CommunicationSynchronicity::Synchronous },
                3 => { let p = r.below(e.recipients.len() + 1); e.recipients.insert(p, r.below(3)); },
                4 => { if e.recipients.len() > 1 { let p = r.below(e.recipients.len()); e.recipients.remove(p); } },
                _ => { let n = e.recipients.len(); let p = r.below(n); if n > 1 { e.recipients.swap(p, (p + 1) % n); } else { e.recipients[0] = r.below(3); } },
            }
            Interaction::Reception(e)
        },
        Interaction::Strict(a, b) if down => { let (a, b) = two(r, a, b); Interaction::Strict(a, b) },
        Interaction::Seq(a, b) if down => { let (a, b) = two(r, a, b); Interaction::Seq(a, b) },
        Interaction::Par(a, b) if down => { let (a, b) = two(r, a, b); Interaction::Par(a, b) },
        Interaction::Alt(a, b) if down => { let (a, b) = two(r, a, b); Interaction::Alt(a, b) },
        Interaction::And(a, b) if down => { let (a, b) = two(r, a, b); Interaction::And(a, b) },
        Interaction::CoReg(x, a, b) if down => { let (a, b) = two(r, a, b); Interaction::CoReg(x.clone(), a, b) },
        Interaction::Sync(x, a, b) if down => { let (a, b) = two(r, a, b); Interaction::Sync(x.clone(), a, b) },
        Interaction::Loop(k, a) if down => Interaction::Loop(k.clone(), Box::new(tweak(r, a))),
        Interaction::Strict(a, b) | Interaction::Seq(a, b) | Interaction::Par(a, b) | Interaction::Alt(a, b) | Interaction::And(a, b) | Interaction::CoReg(_, a, b) | Interaction::Sync(_, a, b) => {
            let (a, b) = (a.clone(), b.clone());
            let (a, b) = if r.chance(1, 8) { (b, a) } else { (a, b) };
            match r.below(8) {
                0 => Interaction::Strict(a, b),
                1 => Interaction::Seq(a, b),
                2 => Interaction::Par(a, b),
                3 => Interaction::Alt(a, b),
                4 => Interaction::And(a, b),
                5 | 6 => { let n = r.below(4); Interaction::CoReg((0..n).map(|_| r.below(3)).collect(), a, b) },
                _ => { let n = r.below(4); Interaction::Sync((0..n).map(|_| TraceAction::new(r.below(2), if r.chance(1, 2) { TraceActionKind::Emission } else { TraceActionKind::Reception }, r.below(2))).collect(), a, b) },
            }
        },
        Interaction::Loop(_, a) => Interaction::Loop(r.pick(&[LoopKind::PInterleaving, LoopKind::WWeakSeq, LoopKind::HHeadFirstWS, LoopKind::SStrictSeq]), a.clone()),
        _ => leaf(r, &c),
    }
}
/// the order on terms is total and consistent with equality
pub fn order(r: &mut Rng, n: usize) -> Out {
    use std::cmp::Ordering::*;
    let a = term(r, &Conf::full(), n);
    let mut v = vec![a.clone(), a];
    for _ in 0..5 {
        let mut x = r.pick(&v);
        for _ in 0..1 + r.below(2) { x = tweak(r, &x); }
        v.push(x);
    }
    for a in &v { for b in &v {
        let (x, y) = (a.cmp(b), b.cmp(a));
        if (x == Equal) != (a == b) { bad!("{} and {} compare {:?}", show(a), show(b), x); }
        if x != y.reverse() { bad!("{} compares {:?} with {}, which compares {:?} with it", show(a), x, show(b), y); }
        if x != Greater { for c in &v {
            if b.cmp(c) != Greater && a.cmp(c) == Greater { bad!("{} <= {} <= {} but the first compares Greater with the last", show(a), show(b), show(c)); }
        } }
    } }
    Out::Ok
}
