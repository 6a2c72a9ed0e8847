//! Multi-traces generated, and letters of the automata built, along explorations and analyses.
use std::collections::{BTreeSet, HashMap};
use super::{Check, Out};
use super::ana::{colocs, observe, show_mu};
use super::gen::*;
use super::lang::*;
use crate::bad;
use crate::core::colocalizations::CoLocalizations;
use crate::core::execution::trace::multitrace::*;
use crate::core::general_context::GeneralContext;
use crate::core::language::syntax::interaction::*;
use crate::io::input::htf::interface::parse_htf_file;
use crate::loggers::tracegen::object::TraceGenLoggerObject;
use crate::loggers::tracegen::printer::{MultiTraceProcessPrinter, TracegenProcessLoggerGeneration};
use crate::process::ana::conf::AnalysisConfig;
use crate::process::ana::context::AnalysisContext;
use crate::process::ana::node::flags::MultiTraceAnalysisFlags;
use crate::process::ana::node::node::AnalysisNodeKind;
use crate::process::ana::param::anakind::AnalysisKind;
use crate::process::ana::param::param::AnalysisParameterization;
use crate::process::ana::step::AnalysisStepKind;
use crate::process::explo::conf::ExplorationConfig;
use crate::process::explo::context::*;
use crate::process::explo::handling::handler::ExplorationProcessHandler;
use crate::process::explo::loggers::nfait::printer::ActionNFAITPrinter;
use crate::process::explo::node::ExplorationNodeKind;
use crate::process::explo::step::ExplorationStepKind;
use graph_process_manager_core::delegate::node::GenericNode;
use graph_process_manager_core::handler::handler::AbstractProcessHandler;
use graph_process_manager_core::queued_steps::step::GenericStep;
use graph_process_manager_loggers::nfait::builder::NFAITProcessBuilder;
use graph_process_manager_loggers::stepstrace::printer::StepsTraceProcessPrinter;

pub fn all() -> Vec<(&'static str, &'static str, Check, usize)> {
    vec![
        ("P18", "generated", generated, 7),
        ("P18", "when", when, 4),
        ("P18", "letters", letters, 6),
    ]
}
fn gctx() -> GeneralContext {
    let mut g = GeneralContext::new();
    for l in 0..3 { g.add_lf(format!("l{}", l)); }
    g.add_msg("m0".to_string()); g.add_msg("m1".to_string()); g.add_gt("g0".to_string());
    g
}
type H = ExplorationProcessHandler;
type P = MultiTraceProcessPrinter;
type XP = dyn StepsTraceProcessPrinter<ExplorationConfig, TraceGenLoggerObject>;
type AP = dyn StepsTraceProcessPrinter<AnalysisConfig, TraceGenLoggerObject>;

/// the multi-trace which is built along a path is what the co-localizations observe of its steps
pub fn generated(r: &mut Rng, n: usize) -> Out {
    let cf = Conf { synccom: r.chance(1, 2), ..Conf::full() };
    let i = term(r, &cf, n);
    let cs = colocs(r, 3);
    let part = CoLocalizations::new(cs.clone());
    let p = P::new(part.clone(), TracegenProcessLoggerGeneration::accepted);
    let c = ExplorationContext::new(gctx());
    let xp = ExplorationParameterization {};
    let ac = AnalysisContext::new(gctx(), part.clone(), vec![vec![]; cs.len()], 0);
    let ap = AnalysisParameterization::new(AnalysisKind::Prefix, None, false);
    let mut nd = ExplorationNodeKind::new(i.clone(), 0);
    let an = AnalysisNodeKind::new(i.clone(), MultiTraceAnalysisFlags::new_init(cs.len(), 0, 0), 0);
    let (px, pa): (&XP, &AP) = (&p, &p);
    let mut ox = px.get_initial_object(&c, &xp, &nd);
    let mut oa = pa.get_initial_object(&ac, &ap, &an);
    let mut t: Vec<Ev> = vec![];
    for _ in 0..6 {
        let want = observe(&cs, &t);
        if ox.mu != want { bad!("exploring {}: after {} the generated multi-trace is {} instead of {}", show(&i), show_tr(&t), show_mu(&ox.mu, &cs), show_mu(&want, &cs)); }
        if oa.mu != want { bad!("analysing with {}: after {} the generated multi-trace is {} instead of {}", show(&i), show_tr(&t), show_mu(&oa.mu, &cs), show_mu(&want, &cs)); }
        let mut s = <H as AbstractProcessHandler<ExplorationConfig>>::collect_next_steps(&c, &xp, &nd);
        if s.is_empty() { break; }
        let s = s.remove(r.below(s.len()));
        ox = px.add_step_to_object(&c, &xp, &ox, &s);
        let ExplorationStepKind::Execute(f) = &s;
        t.push(f.target_actions.clone());
        if r.chance(1, 3) { oa = pa.add_step_to_object(&ac, &ap, &oa, &AnalysisStepKind::EliminateNoLongerObserved((0..cs.len()).filter(|_| r.chance(1, 2)).collect())); }
        oa = pa.add_step_to_object(&ac, &ap, &oa, &AnalysisStepKind::Execute(f.clone(), (0..cs.len()).collect(), HashMap::new()));
        let gn = GenericNode::new(nd.clone(), std::collections::HashSet::new(), 0);
        nd = <H as AbstractProcessHandler<ExplorationConfig>>::process_new_step(&c, &xp, &gn, &GenericStep::new(1, 1, s), 2, 2);
    }
    if r.chance(1, 20) {
        // what is written is read back
        let d = std::env::temp_dir().join(format!("hb_p18_{}_{:?}_{}", std::process::id(), std::thread::current().id(), r.next()));
        if std::fs::create_dir(&d).is_err() { return Out::Skip; }
        let f = d.join("t.htf");
        px.print_object(&c, &xp, &ox, &f);
        let x = parse_htf_file(&gctx(), &f.to_string_lossy());
        pa.print_object(&ac, &ap, &oa, &f);
        let y = parse_htf_file(&gctx(), &f.to_string_lossy());
        let _ = std::fs::remove_file(&f);
        let _ = std::fs::remove_dir(&d);
        let want: BTreeSet<(BTreeSet<usize>, Vec<Ev>)> = cs.iter().cloned().zip(observe(&cs, &t)).collect();
        for (z, k) in [(x, "exploring"), (y, "analysing with")] {
            match z {
                Err(e) => bad!("{} {}: the generated file is not a multi-trace file: {}", k, show(&i), e),
                Ok((pt, mu)) => {
                    let got: BTreeSet<(BTreeSet<usize>, Vec<Ev>)> = pt.locs_lf_ids.iter().cloned().zip(mu).collect();
                    if got != want { bad!("{} {}: the file generated after {} holds {:?} instead of {:?}", k, show(&i), show_tr(&t), got, want); }
                }
            }
        }
    }
    Out::Ok
}
/// a multi-trace is written exactly at the nodes which are asked for
pub fn when(r: &mut Rng, n: usize) -> Out {
    let i = term(r, &Conf::full(), n);
    let part = CoLocalizations::new(colocs(r, 3));
    let (d, k) = (r.below(7) as u32, 1 + r.below(4) as u32);
    let acc = match lang(&i, 0, 3000) { Ok(l) => l.contains(&vec![]), Err(_) => return Out::Skip };
    let (g, want, txt) = match r.below(3) {
        0 => (TracegenProcessLoggerGeneration::accepted, acc, "accepted".to_string()),
        1 => (TracegenProcessLoggerGeneration::atExactDepth(k), d == k, format!("exact depth {}", k)),
        _ => (TracegenProcessLoggerGeneration::atDepthModulo(k), d % k == 0, format!("modulo depth {}", k)),
    };
    let p = P::new(part.clone(), g);
    let nc = part.num_colocs();
    let (px, pa): (&XP, &AP) = (&p, &p);
    let x = px.should_print_on_node_reached(&ExplorationContext::new(gctx()), &ExplorationParameterization {}, &ExplorationNodeKind::new(i.clone(), 0), d);
    let y = pa.should_print_on_node_reached(&AnalysisContext::new(gctx(), part, vec![vec![]; nc], 0), &AnalysisParameterization::new(AnalysisKind::Prefix, None, false),
        &AnalysisNodeKind::new(i.clone(), MultiTraceAnalysisFlags::new_init(nc, 0, 0), 0), d);
    if x != want || y != want { bad!("generation {}: at depth {} with {} a multi-trace is written: {} when exploring, {} when analysing, instead of {}", txt, d, show(&i), x, y, want); }
    Out::Ok
}
/// distinct steps have distinct letters, equal ones the same, and nodes which accept the empty trace are final
pub fn letters(r: &mut Rng, n: usize) -> Out {
    let i = term(r, &Conf::full(), n);
    let c = ExplorationContext::new(gctx());
    let xp = ExplorationParameterization {};
    let mut p = ActionNFAITPrinter::new(vec![], gctx());
    let mut nd = ExplorationNodeKind::new(i.clone(), 0);
    let mut seen: Vec<(Ev, usize)> = vec![];
    for _ in 0..4 {
        let mut s = <H as AbstractProcessHandler<ExplorationConfig>>::collect_next_steps(&c, &xp, &nd);
        let acc = match lang(&nd.interaction, 0, 3000) { Ok(l) => l.contains(&vec![]), Err(_) => return Out::Skip };
        if p.is_node_final(&c, &xp, &nd) != acc { bad!("the state of {} is final: {}", show(&nd.interaction), !acc); }
        if s.is_empty() { break; }
        for x in &s {
            let ExplorationStepKind::Execute(f) = x;
            let l = match p.step_into_letter(&c, &xp, x) { Some(l) => l, None => bad!("no letter for a step of {}", show(&nd.interaction)) };
            for (e, k) in &seen { if (*e == f.target_actions) != (*k == l) { bad!("letters {} and {} for {:?} and {:?}", k, l, e, f.target_actions); } }
            seen.push((f.target_actions.clone(), l));
            if p.index_to_action_map.get(l) != Some(&f.target_actions) { bad!("letter {} of {:?} stands for {:?}", l, f.target_actions, p.index_to_action_map.get(l)); }
        }
        let x = s.remove(r.below(s.len()));
        let gn = GenericNode::new(nd.clone(), std::collections::HashSet::new(), 0);
        nd = <H as AbstractProcessHandler<ExplorationConfig>>::process_new_step(&c, &xp, &gn, &GenericStep::new(1, 1, x), 2, 2);
    }
    Out::Ok
}
