//! Exploration process and limits of the processes.
use std::collections::{BTreeSet, HashSet};
use super::{Check, Out};
use super::ana;
use super::gen::*;
use super::lang::*;
use super::sem::depth;
use crate::bad;
use crate::core::colocalizations::CoLocalizations;
use crate::core::execution::trace::multitrace::*;
use crate::core::general_context::GeneralContext;
use crate::core::language::syntax::interaction::*;
use crate::process::ana::context::AnalysisContext;
use crate::process::ana::filter::elim::AnalysisFilterEliminationKind;
use crate::process::ana::filter::filter::{AnalysisFilter, AnalysisFilterCriterion};
use crate::process::ana::handling::handler::AnalysisProcessHandler;
use crate::process::ana::node::flags::MultiTraceAnalysisFlags;
use crate::process::ana::node::node::AnalysisNodeKind;
use crate::process::ana::param::anakind::*;
use crate::process::ana::param::param::*;
use crate::process::ana::step::AnalysisStepKind;
use crate::process::ana::verdict::global::AnalysisGlobalVerdict;
use crate::process::ana::verdict::inconc::InconcReason;
use crate::process::ana::verdict::local::AnalysisLocalVerdict;
use crate::process::explo::conf::ExplorationConfig;
use crate::process::explo::context::*;
use crate::process::explo::filter::elim::ExplorationFilterEliminationKind;
use crate::process::explo::filter::filter::*;
use crate::process::explo::handling::handler::ExplorationProcessHandler;
use crate::process::explo::node::ExplorationNodeKind;
use crate::process::explo::priorities::ExplorationPriorities;
use crate::process::explo::step::ExplorationStepKind;
use crate::process::explo::verdict::global::ExplorationGlobalVerdict;
use crate::process::explo::verdict::local::ExplorationLocalVerdict;
use graph_process_manager_core::delegate::delegate::GenericProcessDelegate;
use graph_process_manager_core::delegate::node::GenericNode;
use graph_process_manager_core::delegate::priorities::GenericProcessPriorities;
use graph_process_manager_core::handler::filter::AbstractFilter;
use graph_process_manager_core::handler::handler::AbstractProcessHandler;
use graph_process_manager_core::manager::manager::GenericProcessManager;
use graph_process_manager_core::manager::verdict::AbstractGlobalVerdict;
use graph_process_manager_core::queued_steps::queue::strategy::QueueSearchStrategy;
use graph_process_manager_core::queued_steps::step::GenericStep;

pub fn all() -> Vec<(&'static str, &'static str, Check, usize)> {
    vec![
        ("P07", "traces", traces, 5),
        ("P07", "deadlocks", deadlocks, 5),
        ("P09", "order", order, 2),
        ("P10", "limits", limits, 2),
        ("P10", "loops_explo", loops_explo, 6),
        ("P10", "loops_ana", loops_ana, 5),
        ("P10", "nodes_explo", nodes_explo, 6),
    ]
}

fn gctx() -> GeneralContext {
    let mut g = GeneralContext::new();
    for l in 0..3 { g.add_lf(format!("l{}", l)); }
    g.add_msg("m0".to_string()); g.add_msg("m1".to_string()); g.add_gt("g0".to_string());
    g
}
type H = ExplorationProcessHandler;
fn next(c: &ExplorationContext, n: &ExplorationNodeKind, s: ExplorationStepKind) -> (ExplorationNodeKind, u32) {
    let p = ExplorationParameterization {};
    let gn = GenericNode::new(n.clone(), HashSet::new(), 0);
    let gs = GenericStep::new(1, 1, s);
    let cr = <H as AbstractProcessHandler<ExplorationConfig>>::get_criterion(c, &p, &gn, &gs, 2, 2);
    (<H as AbstractProcessHandler<ExplorationConfig>>::process_new_step(c, &p, &gn, &gs, 2, 2), cr.loop_depth)
}
fn steps(c: &ExplorationContext, n: &ExplorationNodeKind) -> Vec<ExplorationStepKind> {
    <H as AbstractProcessHandler<ExplorationConfig>>::collect_next_steps(c, &ExplorationParameterization {}, n)
}
fn accepting(c: &ExplorationContext, n: &ExplorationNodeKind) -> (bool, bool) {
    let p = ExplorationParameterization {};
    let a = matches!(<H as AbstractProcessHandler<ExplorationConfig>>::get_local_verdict_when_no_child(c, &p, n), ExplorationLocalVerdict::Accepting);
    let mut m = n.clone();
    let b = match <H as AbstractProcessHandler<ExplorationConfig>>::get_local_verdict_from_static_analysis(c, &p, &mut m) {
        None => false,
        Some((v, _)) => matches!(v, ExplorationLocalVerdict::Accepting) && <H as AbstractProcessHandler<ExplorationConfig>>::pursue_process_after_static_verdict(c, &p, &v),
    };
    (a, b)
}
fn walk(c: &ExplorationContext, n: &ExplorationNodeKind, k: usize, pre: &mut Tr, out: &mut Lang, left: &mut usize) -> Result<(), String> {
    let (a, b) = accepting(c, n);
    if a != b { return Err(format!("model {} is accepting: {} as a leaf, {} otherwise", show(&n.interaction), a, b)); }
    if a { out.insert(pre.clone()); }
    if k == 0 { return Ok(()); }
    for s in steps(c, n) {
        if *left == 0 { return Ok(()); }
        *left -= 1;
        let ExplorationStepKind::Execute(f) = &s;
        pre.push(f.target_actions.clone());
        let (m, _) = next(c, n, s);
        walk(c, &m, k - 1, pre, out, left)?;
        pre.pop();
    }
    Ok(())
}
/// the traces which lead to accepting nodes are those of the model
pub fn traces(r: &mut Rng, n: usize) -> Out {
    let i = term(r, &Conf::full(), n);
    let k = if n <= 3 { 4 } else { 3 };
    let l = match lang(&i, k, 3000) { Ok(l) => l, Err(_) => return Out::Skip };
    let c = ExplorationContext::new(gctx());
    let (mut got, mut left) = (Lang::new(), 4000);
    if let Err(m) = walk(&c, &ExplorationNodeKind::new(i.clone(), 0), k, &mut vec![], &mut got, &mut left) { bad!("{}", m); }
    for t in &got { if !l.contains(t) { bad!("exploring {} finds the trace {} which it does not accept", show(&i), show_tr(t)); } }
    if left == 0 { return Out::Skip; }
    for t in &l { if !got.contains(t) { bad!("exploring {} does not find the trace {} which it accepts", show(&i), show_tr(t)); } }
    Out::Ok
}
fn engine(i: &Interaction, strat: usize, memo: bool, filters: Vec<ExplorationFilter>) -> (u32, ExplorationGlobalVerdict) {
    let st = match strat { 0 => QueueSearchStrategy::DFS, 1 => QueueSearchStrategy::BFS, _ => QueueSearchStrategy::HCS };
    let del: GenericProcessDelegate<ExplorationStepKind, ExplorationNodeKind, ExplorationPriorities> = GenericProcessDelegate::new(st, GenericProcessPriorities::new(ExplorationPriorities::default(), false));
    let mut v: Vec<Box<dyn AbstractFilter<ExplorationFilterCriterion, ExplorationFilterEliminationKind>>> = vec![];
    for f in filters { v.push(Box::new(f)); }
    let mut m: GenericProcessManager<ExplorationConfig> = GenericProcessManager::new(ExplorationContext::new(gctx()), ExplorationParameterization {}, del, v, vec![], None, memo);
    m.start_process(ExplorationNodeKind::new(i.clone(), 0))
}
/// deadlocks are reported exactly when a model without any step and which does not accept the empty trace is reached
pub fn deadlocks(r: &mut Rng, n: usize) -> Out {
    let cf = Conf { loops: r.chance(1, 3), ..Conf::full() };
    let i = term(r, &cf, n);
    let c = ExplorationContext::new(gctx());
    let mut seen: HashSet<Interaction> = HashSet::new();
    let mut todo = vec![i.clone()];
    let mut dead = None;
    while let Some(x) = todo.pop() {
        if seen.len() > 100 { return Out::Skip; }
        if !seen.insert(x.clone()) { continue; }
        let nd = ExplorationNodeKind::new(x, 0);
        let s = steps(&c, &nd);
        if s.is_empty() {
            let l = match lang(&nd.interaction, 0, 1000) { Ok(l) => l, Err(_) => return Out::Skip };
            if l.is_empty() { dead = Some(nd.interaction.clone()); }
        }
        for st in s { todo.push(next(&c, &nd, st).0.interaction); }
    }
    let cap = if has_loop(&i) { 40 } else { 1000 };
    let (cnt, v) = engine(&i, r.below(3), true, vec![ExplorationFilter::MaxNodeNumber(cap)]);
    if cnt >= cap && !has_loop(&i) { return Out::Skip; }
    if has_loop(&i) {
        // the loop depth grows on cycles: the exploration is only compared when it ended
        if (v == ExplorationGlobalVerdict::HasDeadLocks) && dead.is_none() { bad!("exploring {} reports deadlocks but no deadlocked model can be reached", show(&i)); }
        return Out::Ok;
    }
    if (v == ExplorationGlobalVerdict::HasDeadLocks) != dead.is_some() {
        bad!("exploring {} gives {} but {}", show(&i), v, match dead { Some(d) => format!("the deadlocked model {} can be reached", show(&d)), None => "no deadlocked model can be reached".to_string() });
    }
    Out::Ok
}
fn has_loop(i: &Interaction) -> bool { ana::has_loop(i) }

/// a node is not created beyond the limits on the number of nodes
pub fn nodes_explo(r: &mut Rng, n: usize) -> Out {
    let i = term(r, &Conf::full(), n);
    let k = r.below(6) as u32;
    let (cnt, _) = engine(&i, r.below(3), r.chance(1, 2), vec![ExplorationFilter::MaxNodeNumber(k)]);
    if cnt > k.max(1) { bad!("exploring {} creates {} nodes although at most {} are allowed", show(&i), cnt, k); }
    Out::Ok
}
/// what each filter keeps
pub fn limits(r: &mut Rng, _n: usize) -> Out {
    let pick = |r: &mut Rng| -> u32 { if r.chance(1, 3) { r.next() as u32 } else { r.below(6) as u32 } };
    let (m, d, c) = (pick(r), pick(r), pick(r));
    let ld = pick(r);
    let ec = ExplorationFilterCriterion { loop_depth: ld };
    let ac = AnalysisFilterCriterion { loop_depth: ld };
    let e: Vec<(ExplorationFilter, bool)> = vec![(ExplorationFilter::MaxProcessDepth(m), d > m), (ExplorationFilter::MaxLoopInstanciation(m), ld > m), (ExplorationFilter::MaxNodeNumber(m), c >= m)];
    for (f, cut) in e {
        let x = f.apply_filter(d, c, &ec);
        let kind = match (&f, &x) { (_, None) => true, (ExplorationFilter::MaxProcessDepth(_), Some(ExplorationFilterEliminationKind::MaxProcessDepth)) | (ExplorationFilter::MaxLoopInstanciation(_), Some(ExplorationFilterEliminationKind::MaxLoopInstanciation)) | (ExplorationFilter::MaxNodeNumber(_), Some(ExplorationFilterEliminationKind::MaxNodeNumber)) => true, _ => false };
        if x.is_some() != cut || !kind { bad!("exploration filter {} at depth {}, loop depth {} with {} nodes: {}", f, d, ld, c, x.map(|x| x.to_string()).unwrap_or("kept".to_string())); }
    }
    let a: Vec<(AnalysisFilter, bool)> = vec![(AnalysisFilter::MaxProcessDepth(m), d > m), (AnalysisFilter::MaxLoopInstanciation(m), ld > m), (AnalysisFilter::MaxNodeNumber(m), c >= m)];
    for (f, cut) in a {
        let x = f.apply_filter(d, c, &ac);
        let kind = match (&f, &x) { (_, None) => true, (AnalysisFilter::MaxProcessDepth(_), Some(AnalysisFilterEliminationKind::MaxProcessDepth)) | (AnalysisFilter::MaxLoopInstanciation(_), Some(AnalysisFilterEliminationKind::MaxLoopInstanciation)) | (AnalysisFilter::MaxNodeNumber(_), Some(AnalysisFilterEliminationKind::MaxNodeNumber)) => true, _ => false };
        if x.is_some() != cut || !kind { bad!("analysis filter {} at depth {}, loop depth {} with {} nodes: {}", f, d, ld, c, x.map(|x| x.to_string()).unwrap_or("kept".to_string())); }
    }
    Out::Ok
}
/// the loop depth of a node and of the criterion is the number of loops entered by the steps which lead to it
pub fn loops_explo(r: &mut Rng, n: usize) -> Out {
    let i = term(r, &Conf::full(), n);
    let c = ExplorationContext::new(gctx());
    let mut nd = ExplorationNodeKind::new(i.clone(), r.below(3) as u32);
    let mut want = nd.loop_depth;
    for _ in 0..4 {
        let mut s = steps(&c, &nd);
        if s.is_empty() { break; }
        let s = s.remove(r.below(s.len()));
        let ExplorationStepKind::Execute(f) = &s;
        want += depth(&nd.interaction, &f.position);
        let (m, cr) = next(&c, &nd, s);
        if m.loop_depth != want || cr != want { bad!("exploring {}: a node reached by entering {} loops has loop depth {} (criterion {})", show(&i), want, m.loop_depth, cr); }
        nd = m;
    }
    Out::Ok
}
pub fn loops_ana(r: &mut Rng, n: usize) -> Out {
    let i = term(r, &Conf::full(), n);
    let cs: Vec<BTreeSet<usize>> = ana::colocs(r, 3);
    let l = match lang(&i, 4, 3000) { Ok(l) => l, Err(_) => return Out::Skip };
    let mu = match ana::multi(r, &i, &l, &cs, 4, 3) { Some(m) => m, None => return Out::Skip };
    let kind = [AnalysisKind::Accept, AnalysisKind::Prefix, AnalysisKind::Eliminate][r.below(3)].clone();
    let len = multi_trace_length(&mu);
    let ctx = AnalysisContext::new(gctx(), CoLocalizations::new(cs.clone()), mu.clone(), len);
    let p = AnalysisParameterization::new(kind, None, false);
    let mut nd = AnalysisNodeKind::new(i.clone(), MultiTraceAnalysisFlags::new_init(cs.len(), 0, 0), r.below(3) as u32);
    let mut want = nd.ana_loop_depth;
    for _ in 0..5 {
        let mut s = AnalysisProcessHandler::collect_next_steps(&ctx, &p, &nd);
        if s.is_empty() { break; }
        let s = s.remove(r.below(s.len()));
        if let AnalysisStepKind::Execute(f, _, _) = &s { want += depth(&nd.interaction, &f.position); }
        let gn = GenericNode::new(nd.clone(), HashSet::new(), 0);
        let gs = GenericStep::new(1, 1, s);
        let cr = AnalysisProcessHandler::get_criterion(&ctx, &p, &gn, &gs, 2, 2).loop_depth;
        let m = AnalysisProcessHandler::process_new_step(&ctx, &p, &gn, &gs, 2, 2);
        if m.ana_loop_depth != want || cr != want { bad!("analysis of {} against {}: a node reached by entering {} loops has loop depth {} (criterion {})", ana::show_mu(&mu, &cs), show(&i), want, m.ana_loop_depth, cr); }
        nd = m;
    }
    Out::Ok
}

/// the verdicts are ordered Fail < WeakFail < Inconc < WeakPass < Pass; local verdicts are joined, goals compared with this order
pub fn order(r: &mut Rng, _n: usize) -> Out {
    let inc = |k: usize| match k { 0 => InconcReason::LackObs, 1 => InconcReason::UsingLifelineRemovalWithCoLocalizations, _ => InconcReason::FilteredNodes };
    let glob = |k: usize| match k { 0 => AnalysisGlobalVerdict::Fail, 1 => AnalysisGlobalVerdict::WeakFail, 2 | 3 | 4 => AnalysisGlobalVerdict::Inconc(inc(k - 2)), 5 => AnalysisGlobalVerdict::WeakPass, _ => AnalysisGlobalVerdict::Pass };
    let rank = |k: usize| match k { 0 => 0, 1 => 1, 2 | 3 | 4 => 2, 5 => 3, _ => 4 };
    let loc = |k: usize| -> (AnalysisLocalVerdict, usize) { match k {
        0 => (AnalysisLocalVerdict::Cov, 4), 1 => (AnalysisLocalVerdict::TooShort, 3), 2 => (AnalysisLocalVerdict::MultiPref, 3), 3 => (AnalysisLocalVerdict::Slice, 3),
        4 | 5 | 6 => (AnalysisLocalVerdict::Inconc(inc(k - 4)), 2), 7 => (AnalysisLocalVerdict::Out(true), 0), 8 => (AnalysisLocalVerdict::Out(false), 0), 9 => (AnalysisLocalVerdict::OutSim(true), 1), _ => (AnalysisLocalVerdict::OutSim(false), 1) } };
    let (a, b, l) = (r.below(7), r.below(7), r.below(11));
    if glob(a).is_goal_reached(&Some(glob(b))) != (a >= b) { bad!("verdict {} with goal {}: reached: {}", glob(a), glob(b), a < b); }
    if glob(a).is_goal_reached(&None) { bad!("verdict {} reaches the absence of goal", glob(a)); }
    let (lv, lr) = loc(l);
    let t = lv.to_string();
    let u = glob(a).update_with_local_verdict(&lv);
    if ana::rank(&u) != rank(a).max(lr) { bad!("verdict {} becomes {} with the local verdict {}", glob(a), u, t); }
    for f in [false, true] {
        let u = glob(a).update_knowing_nodes_were_filtered_out(f);
        if u != (if f && a == 0 { glob(4) } else { glob(a) }) { bad!("verdict {} becomes {} when nodes are filtered out: {}", glob(a), u, f); }
    }
    let b0: AnalysisGlobalVerdict = AnalysisGlobalVerdict::get_baseline_verdict();
    if b0 != AnalysisGlobalVerdict::Fail { bad!("the verdict of an analysis without any leaf is {}", b0); }
    Out::Ok
}
