//! Multi-trace analysis: the real process, against a brute-force oracle over the bounded language.
use std::collections::{BTreeSet, HashMap, HashSet};
use super::{Check, Out};
use super::gen::*;
use super::lang::*;
use super::sem::subset;
use crate::bad;
use crate::core::colocalizations::CoLocalizations;
use crate::core::execution::trace::multitrace::*;
use crate::core::general_context::GeneralContext;
use crate::core::language::syntax::interaction::*;
use crate::process::ana::conf::AnalysisConfig;
use crate::process::ana::context::AnalysisContext;
use crate::process::ana::filter::filter::AnalysisFilter;
use crate::process::ana::node::flags::MultiTraceAnalysisFlags;
use crate::process::ana::node::node::AnalysisNodeKind;
use crate::process::ana::param::anakind::*;
use crate::process::ana::param::param::*;
use crate::process::ana::priorities::AnalysisPriorities;
use crate::process::ana::step::{AnalysisStepKind, SimulationStepKind};
use crate::process::ana::verdict::global::AnalysisGlobalVerdict;
use graph_process_manager_core::delegate::delegate::GenericProcessDelegate;
use graph_process_manager_core::delegate::priorities::GenericProcessPriorities;
use graph_process_manager_core::handler::filter::AbstractFilter;
use graph_process_manager_core::manager::manager::GenericProcessManager;
use graph_process_manager_core::queued_steps::queue::strategy::QueueSearchStrategy;
use crate::process::ana::filter::elim::AnalysisFilterEliminationKind;
use crate::process::ana::filter::filter::AnalysisFilterCriterion;

pub fn all() -> Vec<(&'static str, &'static str, Check, usize)> {
    vec![
        ("P08", "accept", accept, 5),
        ("P08", "prefix", prefix, 4),
        ("P08", "eliminate", elimk, 4),
        ("P08", "memo", memo, 6),
        ("P15", "simulate", simulate, 4),
        ("P15", "limits", simlimits, 4),
        ("P09", "verdict", filtered, 4),
        ("P10", "filters", filters, 4),
    ]
}

pub struct Setup { pub strat: usize, pub memo: bool, pub loc: Option<(bool, Option<u32>, u32)>, pub por: bool, pub goal: Option<usize>, pub prio: [i32; 6], pub rand: bool }
impl Setup {
    pub fn pick(r: &mut Rng, por: bool) -> Setup {
        Setup {
            strat: r.below(3), memo: r.chance(1, 2),
            loc: if r.chance(1, 2) { Some((r.chance(1, 2), if r.chance(1, 2) { Some(1 + r.below(3) as u32) } else { None }, 1 + r.below(2) as u32)) } else { None },
            por, goal: None,
            prio: if r.chance(1, 2) { [0, 0, 0, 0, 1, -1] } else { [r.below(3) as i32 - 1, r.below(3) as i32 - 1, r.below(3) as i32 - 1, r.below(3) as i32 - 1, r.below(3) as i32 - 1, r.below(3) as i32 - 1] },
            rand: false,
        }
    }
    pub fn show(&self) -> String {
        format!("{} search, memoization {}, local analysis {}, partial order reduction {}", ["depth first", "breadth first", "high coverage"][self.strat], self.memo,
            match self.loc { None => "off".to_string(), Some((a, d, m)) => format!("on (all lifelines: {}, depth: {:?}, every {})", a, d, m) }, self.por)
    }
}

/// analyses which create that many nodes are cut and not looked at
pub const CAP: u32 = 4000;
pub fn run_with(i: &Interaction, cs: &Vec<BTreeSet<usize>>, mu: &MultiTrace, nlf: usize, kind: AnalysisKind, s: &Setup,
                mut filters: Vec<Box<dyn AbstractFilter<AnalysisFilterCriterion, AnalysisFilterEliminationKind>>>, goal: Option<AnalysisGlobalVerdict>) -> (u32, AnalysisGlobalVerdict) {
    let mut g = GeneralContext::new();
    for l in 0..nlf { g.add_lf(format!("l{}", l)); }
    g.add_msg("m0".to_string()); g.add_msg("m1".to_string()); g.add_gt("g0".to_string());
    let co = CoLocalizations::new(cs.clone());
    let len = multi_trace_length(mu);
    let flags = match kind.get_sim_config() {
        None => MultiTraceAnalysisFlags::new_init(cs.len(), 0, 0),
        Some(c) => MultiTraceAnalysisFlags::new_init(cs.len(), c.get_reset_rem_loop(len, i), c.get_reset_rem_act(len, i)),
    };
    let loc = s.loc.map(|(all, d, m)| LocalAnalysisParameterization::new(if all { LocalAnalysisLifelineSelectionPolicy::SelectAll } else { LocalAnalysisLifelineSelectionPolicy::OnlyOnImpactedByLastStep }, d, m));
    let ctx = AnalysisContext::new(g, co, mu.clone(), len);
    let param = AnalysisParameterization::new(kind, loc, s.por);
    let st = match s.strat { 0 => QueueSearchStrategy::DFS, 1 => QueueSearchStrategy::BFS, _ => QueueSearchStrategy::HCS };
    let p = s.prio;
    let prio = GenericProcessPriorities::new(AnalysisPriorities::new(p[0], p[1], p[2], p[3], p[4], p[5]), s.rand);
    let del: GenericProcessDelegate<AnalysisStepKind, AnalysisNodeKind, AnalysisPriorities> = GenericProcessDelegate::new(st, prio);
    filters.push(Box::new(AnalysisFilter::MaxNodeNumber(CAP)));
    let mut m: GenericProcessManager<AnalysisConfig> = GenericProcessManager::new(ctx, param, del, filters, vec![], goal, s.memo);
    m.start_process(AnalysisNodeKind::new(i.clone(), flags, 0))
}

pub fn rank(v: &AnalysisGlobalVerdict) -> usize {
    match v { AnalysisGlobalVerdict::Fail => 0, AnalysisGlobalVerdict::WeakFail => 1, AnalysisGlobalVerdict::Inconc(_) => 2, AnalysisGlobalVerdict::WeakPass => 3, AnalysisGlobalVerdict::Pass => 4 }
}

/// a partition of the lifelines
pub fn colocs(r: &mut Rng, n: usize) -> Vec<BTreeSet<usize>> {
    match r.below(4) {
        0 => vec![(0..n).collect()],
        1 | 2 => (0..n).map(|l| [l].into_iter().collect()).collect(),
        _ => {
            let mut v: Vec<BTreeSet<usize>> = vec![];
            for l in 0..n { if v.is_empty() || r.chance(1, 2) { let p = r.below(v.len() + 1); v.insert(p, [l].into_iter().collect()); } else { let p = r.below(v.len()); v[p].insert(l); } }
            v
        }
    }
}
fn canal(cs: &Vec<BTreeSet<usize>>, e: &Ev) -> Option<usize> {
    (0..cs.len()).find(|c| e.iter().all(|a| cs[*c].contains(&a.lf_id)))
}
/// projection of a trace whose events each fit on one canal
pub fn proj(cs: &Vec<BTreeSet<usize>>, t: &[Ev]) -> Option<MultiTrace> {
    let mut m: MultiTrace = vec![vec![]; cs.len()];
    for e in t { if e.is_empty() { return None; } let c = canal(cs, e)?; m[c].push(e.clone()); }
    Some(m)
}
/// a multi-trace close to the behaviours of i
pub fn multi(r: &mut Rng, i: &Interaction, l: &Lang, cs: &Vec<BTreeSet<usize>>, max: usize, nlf: usize) -> Option<MultiTrace> {
    let ts: Vec<&Tr> = l.iter().filter(|t| t.len() <= max).collect();
    if ts.is_empty() { return None; }
    let t = (*r.pick(&ts)).clone();
    let mut m = proj(cs, &t)?;
    for _ in 0..r.below(3) {
        let c = r.below(m.len());
        let k = m[c].len();
        match r.below(5) {
            0 if k > 0 => { let n = r.below(k); m[c].truncate(n); },
            1 if k > 0 => { let p = r.below(k); m[c].remove(p); },
            2 if k > 1 => { let p = r.below(k - 1); m[c].swap(p, p + 1); },
            3 if k > 0 => { let p = r.below(k); let x = m[c][p].clone(); m[c].insert(p, x); },
            _ => {
                let acts: Vec<_> = actions(i, true).into_iter().collect();
                if acts.is_empty() { continue; }
                let e: Ev = [r.pick(&acts)].into_iter().collect();
                if let Some(c) = canal(cs, &e) { let p = r.below(m[c].len() + 1); m[c].insert(p, e); }
            }
        }
    }
    let _ = nlf;
    if multi_trace_length(&m) > max { return None; }
    Some(m)
}
pub fn show_mu(m: &MultiTrace, cs: &Vec<BTreeSet<usize>>) -> String {
    m.iter().zip(cs).map(|(t, c)| format!("{:?}: {}", c, show_tr(t))).collect::<Vec<_>>().join(" | ")
}
pub fn oneof(i: &Interaction, cs: &Vec<BTreeSet<usize>>) -> bool {
    // synchronous communications across canals: their steps cannot be matched by the analysis (documented limitation)
    let mut ok = true;
    each_leaf(i, true, &mut |x| match x {
        Interaction::Emission(e) => if e.synchronicity == crate::core::language::syntax::action::CommunicationSynchronicity::Synchronous { let mut s: BTreeSet<usize> = lf_targets(e).into_iter().collect(); s.insert(e.origin_lf_id); if !cs.iter().any(|c| s.is_subset(c)) { ok = false; } },
        Interaction::Reception(e) => if e.synchronicity == crate::core::language::syntax::action::CommunicationSynchronicity::Synchronous { let s: BTreeSet<usize> = e.recipients.iter().cloned().collect(); if !cs.iter().any(|c| s.is_subset(c)) { ok = false; } },
        _ => {}
    });
    ok
}

pub fn accept(r: &mut Rng, n: usize) -> Out {
    let c = Conf { empty_rec: false, ..Conf::full() };
    let i = term(r, &c, n);
    let cs = colocs(r, 3);
    let l = match lang(&i, 4, 3000) { Ok(l) => l, Err(_) => return Out::Skip };
    let mu = match multi(r, &i, &l, &cs, 4, 3) { Some(m) => m, None => return Out::Skip };
    let acc = l.iter().any(|t| proj(&cs, t).as_ref() == Some(&mu));
    let mut s = Setup::pick(r, false);
    if !(oneof(&i, &cs) && ok_sync(&i)) { s.loc = None; }
    for kind in [AnalysisKind::Accept, AnalysisKind::Prefix] {
        let goal = if r.chance(1, 2) { Some(AnalysisGlobalVerdict::Pass) } else { None };
        let k2 = kind.clone();
        let (n, v) = run_with(&i, &cs, &mu, 3, kind, &s, vec![], goal);
        if n >= CAP { return Out::Skip; }
        if (rank(&v) == 4) != acc || k2 == AnalysisKind::Accept && !acc && rank(&v) != 0 {
            bad!("{} analysis of {} against {} ({}) gives {} but the multi-trace is {}accepted", k2, show_mu(&mu, &cs), show(&i), s.show(), v, if acc { "" } else { "not " });
        }
    }
    Out::Ok
}
pub fn has_loop(i: &Interaction) -> bool {
    let mut lp = false;
    each_node(i, &mut |x| if matches!(x, Interaction::Loop(_, _)) { lp = true; });
    lp
}
/// no synchronized product and no head-first loop: eliminating lifelines then projects the behaviours
pub fn ok_sync(i: &Interaction) -> bool {
    let mut ok = true;
    each_node(i, &mut |x| if matches!(x, Interaction::Sync(_, _, _) | Interaction::Loop(LoopKind::HHeadFirstWS, _)) { ok = false; });
    ok
}
fn setup2(r: &mut Rng, n: usize) -> (Interaction, Vec<BTreeSet<usize>>) {
    let c = Conf { sync: false, synccom: true, multi: r.chance(1, 2), lfs: 3, ..Conf::full() };
    loop {
        let i = term(r, &c, n);
        let cs = colocs(r, 3);
        if ok_sync(&i) && oneof(&i, &cs) { return (i, cs); }
    }
}

/// prefix analyses: at least WeakPass exactly when the multi-trace is the projection of a prefix of a behaviour
pub fn prefix(r: &mut Rng, n: usize) -> Out {
    let (i, cs) = setup2(r, n);
    let l = match lang(&i, 7, 4000) { Ok(l) => l, Err(_) => return Out::Skip };
    let mu = match multi(r, &i, &l, &cs, 3, 3) { Some(m) => m, None => return Out::Skip };
    // an unfinished behaviour needs at most as many more steps as there are actions in the term
    let mut leaves = 0;
    each_leaf(&i, true, &mut |x| leaves += match x { Interaction::Emission(e) => 1 + lf_targets(e).len(), Interaction::Reception(e) => e.recipients.len(), _ => 0 });
    let len = multi_trace_length(&mu);
    let acc = l.iter().any(|t| proj(&cs, t).as_ref() == Some(&mu));
    let pre = l.iter().any(|t| t.len() >= len && proj(&cs, &t[..len]).as_ref() == Some(&mu));
    if !pre && len + len * leaves > 7 && !(leaves + len <= 7 && !has_loop(&i)) { return Out::Skip; }
    let s = Setup::pick(r, false);
    let goal = match r.below(3) { 0 => Some(AnalysisGlobalVerdict::Pass), 1 => Some(AnalysisGlobalVerdict::WeakPass), _ => None };
    let weak = matches!(goal, Some(AnalysisGlobalVerdict::WeakPass));
    let (cnt, v) = run_with(&i, &cs, &mu, 3, AnalysisKind::Prefix, &s, vec![], goal);
    if cnt >= CAP { return Out::Skip; }
    let got = rank(&v);
    if (got >= 3) != pre || (!weak && (got == 4) != acc) || (weak && got == 4 && !acc) {
        bad!("prefix analysis of {} against {} ({}) gives {} but the multi-trace is {}accepted and {}the beginning of a behaviour", show_mu(&mu, &cs), show(&i), s.show(), v, if acc { "" } else { "not " }, if pre { "" } else { "not " });
    }
    Out::Ok
}

/// analyses which eliminate lifelines, singletons: at least WeakPass when each local trace is a prefix of the projection of a common behaviour, Pass only when accepted
pub fn elimk(r: &mut Rng, n: usize) -> Out {
    let c = Conf { sync: false, synccom: false, multi: r.chance(1, 2), lfs: 3, ..Conf::full() };
    let i = term(r, &c, n);
    if !ok_sync(&i) { return Out::Skip; }
    let cs: Vec<BTreeSet<usize>> = (0..3).map(|l| [l].into_iter().collect()).collect();
    let l = match lang(&i, 7, 4000) { Ok(l) => l, Err(_) => return Out::Skip };
    let mu = match multi(r, &i, &l, &cs, 3, 3) { Some(m) => m, None => return Out::Skip };
    let acc = l.iter().any(|t| proj(&cs, t).as_ref() == Some(&mu));
    let pre = l.iter().any(|t| proj(&cs, t).map(|p| (0..cs.len()).all(|c| mu[c].len() <= p[c].len() && p[c][..mu[c].len()] == mu[c][..])).unwrap_or(false));
    let s = Setup::pick(r, false);
    let (cnt, v) = run_with(&i, &cs, &mu, 3, AnalysisKind::Eliminate, &s, vec![], None);
    if cnt >= CAP { return Out::Skip; }
    let got = rank(&v);
    if (got < 3 && pre) || (got == 4 && !acc) {
        bad!("analysis with lifeline elimination of {} against {} ({}) gives {} but the multi-trace is {}accepted and {}a multi-prefix", show_mu(&mu, &cs), show(&i), s.show(), v, if acc { "" } else { "not " }, if pre { "" } else { "not " });
    }
    Out::Ok
}

/// simulations may be endless
const SIMCAP: u32 = 300;
/// what is observed of a trace, a step being seen on each of the canals it concerns
pub fn observe(cs: &Vec<BTreeSet<usize>>, t: &[Ev]) -> MultiTrace {
    let mut m: MultiTrace = vec![vec![]; cs.len()];
    for e in t { for (k, c) in cs.iter().enumerate() { let p: Ev = e.iter().filter(|a| c.contains(&a.lf_id)).cloned().collect(); if !p.is_empty() { m[k].push(p); } } }
    m
}
fn is_sub(v: &[Ev], w: &[Ev], before: bool) -> bool {
    if before && !v.is_empty() { w.windows(v.len()).any(|x| x == v) } else { w.len() >= v.len() && w[..v.len()] == *v }
}
fn any_simconf(r: &mut Rng) -> SimulationConfiguration {
    let l = match r.below(4) { 0 => SimulationLoopCriterion::None, 1 => SimulationLoopCriterion::MaxNum, 2 => SimulationLoopCriterion::MaxDepth, _ => SimulationLoopCriterion::SpecificNum(r.below(3) as u32) };
    let a = match r.below(3) { 0 => SimulationActionCriterion::None, 1 => SimulationActionCriterion::MaxNumOutsideLoops, _ => SimulationActionCriterion::SpecificNum(if r.chance(1, 8) { u32::MAX } else { r.below(4) as u32 }) };
    SimulationConfiguration::new(r.chance(1, 2), r.chance(1, 2), r.chance(1, 2), l, a)
}
/// a multi-trace with canals cut out of the observation of a behaviour of i, possibly changed
fn cut_multi(r: &mut Rng, i: &Interaction, l: &Lang, cs: &Vec<BTreeSet<usize>>, max: usize) -> Option<MultiTrace> {
    let ts: Vec<&Tr> = l.iter().filter(|t| t.len() <= 6).collect();
    if ts.is_empty() { return None; }
    let t = (*r.pick(&ts)).clone();
    let mut m = observe(cs, &t);
    let cut = r.below(3);
    for c in 0..m.len() {
        if cut > 0 && r.chance(2, 3) { let n = r.below(m[c].len() + 1); m[c].truncate(n); }
        if cut > 1 && r.chance(1, 2) { let n = r.below(m[c].len() + 1); m[c].drain(..n); }
        let k = m[c].len();
        if r.chance(1, 8) { match r.below(3) {
            0 if k > 0 => { let p = r.below(k); m[c].remove(p); },
            1 if k > 1 => { let p = r.below(k - 1); m[c].swap(p, p + 1); },
            _ => {
                let acts: Vec<_> = actions(i, true).into_iter().filter(|a| cs[c].contains(&a.lf_id)).collect();
                if !acts.is_empty() { let p = r.below(k + 1); m[c].insert(p, [r.pick(&acts)].into_iter().collect()); }
            }
        } }
    }
    if multi_trace_length(&m) > max { return None; }
    Some(m)
}
/// simulations: Pass exactly on what is accepted (all steps being observable), WeakPass on multi-prefixes or multi-slices only, and on all of them when there are no limits
pub fn simulate(r: &mut Rng, n: usize) -> Out {
    let c = Conf { empty_rec: false, loops: r.chance(1, 3), sync: r.chance(1, 4), ..Conf::full() };
    let i = term(r, &c, n);
    let cs = colocs(r, 3);
    let l = match lang(&i, 7, 3000) { Ok(l) => l, Err(_) => return Out::Skip };
    let mu = match cut_multi(r, &i, &l, &cs, 5) { Some(m) => m, None => return Out::Skip };
    let mut sc = any_simconf(r);
    if r.chance(1, 3) { sc.loop_crit = SimulationLoopCriterion::None; sc.act_crit = SimulationActionCriterion::None; }
    let nolim = sc.loop_crit == SimulationLoopCriterion::None && sc.act_crit == SimulationActionCriterion::None;
    let before = sc.sim_before;
    let exact = l.iter().any(|t| observe(&cs, t) == mu);
    let weak = l.iter().any(|t| { let o = observe(&cs, t); (0..cs.len()).all(|k| is_sub(&mu[k], &o[k], before)) });
    let mut leaves = 0;
    each_leaf(&i, true, &mut |x| leaves += match x { Interaction::Emission(e) => 1 + lf_targets(e).len(), Interaction::Reception(e) => e.recipients.len(), _ => 0 });
    let finite = !has_loop(&i) && leaves <= 7;
    let mut nosync = true;
    each_node(&i, &mut |x| if matches!(x, Interaction::Sync(_, _, _)) { nosync = false; });
    let mut s = Setup::pick(r, false);
    s.loc = None;
    let goal = match r.below(3) { 0 => Some(AnalysisGlobalVerdict::Pass), 1 => Some(AnalysisGlobalVerdict::WeakPass), _ => None };
    let early = matches!(goal, Some(AnalysisGlobalVerdict::WeakPass));
    let mut fs: Vec<Box<dyn AbstractFilter<AnalysisFilterCriterion, AnalysisFilterEliminationKind>>> = vec![Box::new(AnalysisFilter::MaxNodeNumber(SIMCAP))];
    // simulations of loops are endless: a behaviour of 7 steps explains the multi-trace in as many steps (unless nodes are shared)
    if has_loop(&i) { fs.push(Box::new(AnalysisFilter::MaxProcessDepth(7))); s.memo = false; }
    let (cnt, v) = run_with(&i, &cs, &mu, 3, AnalysisKind::Simulate(sc.clone()), &s, fs, goal);
    let got = rank(&v);
    let cut = cnt >= SIMCAP;
    let wrong = (got == 4 && !exact && multi_trace_length(&mu) <= 7) || (got < 4 && exact && !cut && !early) || (got < 3 && (exact || nolim && weak) && !cut) || (got == 3 && nosync && finite && !weak);
    if wrong {
        bad!("simulation ({}) of {} against {} ({}) gives {} but the multi-trace is {}accepted and {}a multi-{}", sc, show_mu(&mu, &cs), show(&i), s.show(), v, if exact { "" } else { "not " }, if weak { "" } else { "not " }, if before { "slice" } else { "prefix" });
    }
    Out::Ok
}
/// limits: they are reset and decreased as documented
pub fn simlimits(r: &mut Rng, n: usize) -> Out {
    let c = Conf::full();
    let i = term(r, &c, n);
    let sc = any_simconf(r);
    let len = if r.chance(1, 10) { 100000 } else { r.below(5) };
    let (mut nl, mut na) = (0u64, 0u64);
    each_node(&i, &mut |x| if matches!(x, Interaction::Loop(_, _)) { nl += 1; });
    each_leaf(&i, false, &mut |x| na += actions(x, true).len() as u64);
    let m = if sc.multiply_by_multitrace_length { len as u64 } else { 1 };
    let l = match sc.loop_crit { SimulationLoopCriterion::None => 0, SimulationLoopCriterion::MaxNum => nl, SimulationLoopCriterion::MaxDepth => loop_depth(&i) as u64, SimulationLoopCriterion::SpecificNum(k) => k as u64 };
    let a = match sc.act_crit { SimulationActionCriterion::None => 0, SimulationActionCriterion::MaxNumOutsideLoops => na, SimulationActionCriterion::SpecificNum(k) => k as u64 };
    let cap = |x: u64| x.min(u32::MAX as u64) as u32;
    if sc.get_reset_rem_loop(len, &i) != cap(l * m) || sc.get_reset_rem_act(len, &i) != cap(a * m) {
        bad!("simulation ({}) of a multi-trace of length {} against {} may enter {} loops and simulate {} actions, expected {} and {}", sc, len, show(&i), sc.get_reset_rem_loop(len, &i), sc.get_reset_rem_act(len, &i), l * m, a * m);
    }
    // one step
    let k = 1 + r.below(3);
    let mut f = MultiTraceAnalysisFlags::new_init(k, r.below(4) as u32, r.below(4) as u32);
    let mut tot = 0;
    for c in 0..k { f.canals[c].consumed = r.below(3); tot += f.canals[c].consumed; }
    let mut consu: HashSet<usize> = HashSet::new();
    let mut sim: HashMap<usize, SimulationStepKind> = HashMap::new();
    for c in 0..k { match r.below(4) { 0 => { consu.insert(c); }, 1 => { sim.insert(c, SimulationStepKind::BeforeStart); }, 2 => { sim.insert(c, SimulationStepKind::AfterEnd); }, _ => {} } }
    let full = tot + consu.len() + r.below(3);
    let dep = r.below(3) as u32;
    let g = f.update_on_execution(Some(&sc), &consu, &sim, &HashSet::new(), dep, full, &i);
    let rem = full - tot - consu.len();
    let (el, ea) = if consu.is_empty() { (sc.get_reset_rem_loop(rem, &i).min(f.rem_loop_in_sim.saturating_sub(dep)), sc.get_reset_rem_act(rem, &i).min(f.rem_act_in_sim.saturating_sub(1))) }
        else if sc.reset_crit_after_exec { (sc.get_reset_rem_loop(rem, &i), sc.get_reset_rem_act(rem, &i)) } else { (f.rem_loop_in_sim, f.rem_act_in_sim) };
    let canals = (0..k).all(|c| g.canals[c].consumed == f.canals[c].consumed + consu.contains(&c) as usize
        && g.canals[c].simulated_before == f.canals[c].simulated_before + (sim.get(&c) == Some(&SimulationStepKind::BeforeStart)) as u32
        && g.canals[c].simulated_after == f.canals[c].simulated_after + (sim.get(&c) == Some(&SimulationStepKind::AfterEnd)) as u32);
    if g.rem_loop_in_sim != el || g.rem_act_in_sim != ea || g.canals.len() != k || !canals {
        bad!("simulation ({}): after a step to {} which enters {} loops, is observed on {:?} and simulated on {:?}, with {} actions of {} observed before, {} loops and {} actions left: expected {} loops and {} actions left, found {} and {}, canals {}", sc, show(&i), dep, consu, sim, tot, full, f.rem_loop_in_sim, f.rem_act_in_sim, el, ea, g.rem_loop_in_sim, g.rem_act_in_sim, canals);
    }
    Out::Ok
}

/// memoization does not change the verdict
pub fn memo(r: &mut Rng, n: usize) -> Out {
    // few distinct actions, so that the same follow-up is reached in several ways
    let c = Conf { lfs: 1 + r.below(2), mss: 1 + r.below(2), gts: 0, multi: false, sync: r.chance(1, 3), ..Conf::full() };
    let i = term(r, &c, n);
    let cs = colocs(r, 2);
    let l = match lang(&i, 5, 1000) { Ok(l) => l, Err(_) => return Out::Skip };
    let mu = match multi(r, &i, &l, &cs, 5, 2) { Some(m) => m, None => return Out::Skip };
    let mut s = Setup::pick(r, false);
    s.loc = None;
    let kinds = [AnalysisKind::Accept, AnalysisKind::Prefix, AnalysisKind::Eliminate];
    let kind = kinds[r.below(3)].clone();
    s.memo = true;
    let (n1, a) = run_with(&i, &cs, &mu, 2, kind.clone(), &s, vec![], None);
    s.memo = false;
    let (n2, b) = run_with(&i, &cs, &mu, 2, kind.clone(), &s, vec![], None);
    if n1 >= CAP || n2 >= CAP { return Out::Skip; }
    if a != b { bad!("{} analysis of {} against {} ({}) gives {} with memoization and {} without", kind, show_mu(&mu, &cs), show(&i), s.show(), a, b); }
    Out::Ok
}

pub fn any_filters(r: &mut Rng) -> (Vec<Box<dyn AbstractFilter<AnalysisFilterCriterion, AnalysisFilterEliminationKind>>>, String) {
    let mut v: Vec<Box<dyn AbstractFilter<AnalysisFilterCriterion, AnalysisFilterEliminationKind>>> = vec![];
    let mut t = String::new();
    for _ in 0..1 + r.below(2) {
        let n = r.below(4) as u32;
        let f = match r.below(3) { 0 => AnalysisFilter::MaxLoopInstanciation(n), 1 => AnalysisFilter::MaxProcessDepth(n), _ => AnalysisFilter::MaxNodeNumber(n) };
        t.push_str(&format!("{} ", f));
        v.push(Box::new(f));
    }
    (v, t)
}
/// filters never turn a rejected multi-trace into a passed one, and a multi-trace which is passed without them is not reported as Fail
pub fn filtered(r: &mut Rng, n: usize) -> Out {
    let c = Conf::full();
    let i = term(r, &c, n);
    let cs = colocs(r, 3);
    let l = match lang(&i, 4, 3000) { Ok(l) => l, Err(_) => return Out::Skip };
    let mu = match multi(r, &i, &l, &cs, 4, 3) { Some(m) => m, None => return Out::Skip };
    let acc = l.iter().any(|t| proj(&cs, t).as_ref() == Some(&mu));
    let mut s = Setup::pick(r, false);
    if !(oneof(&i, &cs) && ok_sync(&i)) { s.loc = None; }
    let (f, t) = any_filters(r);
    let (cnt, v) = run_with(&i, &cs, &mu, 3, AnalysisKind::Accept, &s, f, None);
    if cnt >= CAP { return Out::Skip; }
    if rank(&v) == 4 && !acc || rank(&v) == 0 && acc { bad!("analysis of {} against {} ({}) with filters {} gives {} but the multi-trace is {}accepted", show_mu(&mu, &cs), show(&i), s.show(), t, v, if acc { "" } else { "not " }); }
    Out::Ok
}
/// limits on the number of nodes and the depth are respected
pub fn filters(r: &mut Rng, n: usize) -> Out {
    let c = Conf::full();
    let i = term(r, &c, n);
    let cs = colocs(r, 3);
    let l = match lang(&i, 4, 3000) { Ok(l) => l, Err(_) => return Out::Skip };
    let mu = match multi(r, &i, &l, &cs, 4, 3) { Some(m) => m, None => return Out::Skip };
    let mut s = Setup::pick(r, false);
    s.loc = None;
    let k = r.below(6) as u32;
    let (n, _) = run_with(&i, &cs, &mu, 3, AnalysisKind::Prefix, &s, vec![Box::new(AnalysisFilter::MaxNodeNumber(k))], None);
    if n > k.max(1) { bad!("analysis of {} against {} ({}) creates {} nodes although at most {} are allowed", show_mu(&mu, &cs), show(&i), s.show(), n, k); }
    Out::Ok
}
