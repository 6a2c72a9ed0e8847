//! Configuration files (.hcf), read by the real code: what is asked for is what is obtained.
use std::collections::BTreeSet;
use std::sync::Mutex;
use super::{Check, Out};
use super::gen::*;
use super::io::{lay, tk, File};
use super::lang::*;
use crate::bad;
use crate::core::general_context::GeneralContext;
use crate::io::input::hcf::ana::interface::parse_hcf_file_for_ana;
use crate::io::input::hcf::canon::interface::parse_hcf_file_for_canonize;
use crate::io::input::hcf::explo::interface::parse_hcf_file_for_explore;
use crate::io::input::htf::interface::parse_htf_file;
use crate::process::ana::param::anakind::*;
use crate::process::ana::param::param::*;
use crate::process::ana::verdict::global::AnalysisGlobalVerdict;
use crate::process::explo::conf::ExplorationConfig;
use crate::process::explo::context::*;
use crate::process::explo::handling::handler::ExplorationProcessHandler;
use crate::process::explo::node::ExplorationNodeKind;
use graph_process_manager_core::delegate::node::GenericNode;
use graph_process_manager_core::handler::handler::AbstractProcessHandler;
use graph_process_manager_core::queued_steps::step::GenericStep;

pub fn all() -> Vec<(&'static str, &'static str, Check, usize)> {
    vec![
        ("P19", "analyze", analyze, 6),
        ("P19", "explore", explore, 6),
        ("P19", "canonize", canonize, 4),
        ("P19", "loggers", loggers, 5),
    ]
}
const LFS: [&str; 3] = ["l0", "b", "lb_2"];
fn gctx() -> GeneralContext {
    let mut g = GeneralContext::new();
    for l in LFS { g.add_lf(l.to_string()); }
    g.add_msg("m0".to_string()); g.add_msg("m1".to_string()); g.add_gt("g0".to_string());
    g
}

#[derive(Clone, Debug, PartialEq)]
enum Gen { Acc, At(u32), Mod(u32) }
#[derive(Clone, Debug, PartialEq)]
enum Lg {
    Graph(Option<String>),
    Trace { folder: Option<String>, prefix: String, nodup: bool, gen: Gen, part: BTreeSet<BTreeSet<usize>> },
    Nfa,
}
/// what a section asks for, as text; `bad`: an error has to be reported
#[derive(Clone, Debug)]
struct Want { loggers: Vec<Lg>, strategy: String, filters: Vec<String>, prio: [i32; 6], rnd: bool, memo: bool, goal: Option<AnalysisGlobalVerdict2>, kind: AnalysisKind, locana: Option<(bool, Option<u32>, u32)>, por: bool, all: bool, bad: bool }
#[derive(Clone, Copy, Debug, PartialEq)]
enum AnalysisGlobalVerdict2 { Pass, WeakPass }
impl Want {
    /// of an empty section
    fn section(k: usize) -> Want {
        Want { loggers: vec![], strategy: "BreadthFirstSearch".to_string(), filters: vec![], prio: if k == 0 { [0, 0, 0, 0, 1, -1] } else { [0; 6] }, rnd: false, memo: k == 0,
            goal: Some(AnalysisGlobalVerdict2::WeakPass), kind: AnalysisKind::Prefix, locana: Some((false, None, 1)), por: false, all: false, bad: false }
    }
    /// of a file without a section
    fn absent(k: usize) -> Want {
        let mut w = Want::section(k);
        if k == 0 { w.strategy = "DepthFirstSearch".to_string(); }
        if k == 1 { w.filters = vec!["MaxLoop=1".to_string()]; }
        w
    }
}
fn t(v: &mut Vec<String>, s: &str) { v.push(s.to_string()); }
fn yes(r: &mut Rng, v: &mut Vec<String>) -> bool {
    let b = r.chance(1, 2);
    v.push(r.pick(if b { &["true", "True", "TRUE", "⊤"] } else { &["false", "False", "FALSE", "⊥"] }).to_string());
    b
}
fn num(r: &mut Rng, v: &mut Vec<String>) -> u32 {
    let n = match r.below(8) { 0 => 0, 1 => u32::MAX, 2 => 2147483647, 3 => 10, _ => 1 + r.below(40) as u32 };
    v.push(n.to_string());
    n
}
fn label(r: &mut Rng, v: &mut Vec<String>) -> String {
    let s = r.pick(&["a", "out", "out_1", "true", "svg", "png", "horizontal", "X9", "draw_sd", "none"]).to_string();
    v.push(s.clone());
    s
}
fn sep(r: &mut Rng, v: &mut Vec<String>, i: usize, n: usize) { if i + 1 < n || r.chance(1, 3) { t(v, ","); } }

fn graphic(r: &mut Rng, v: &mut Vec<String>) -> Lg {
    t(v, "graphic");
    let mut f = None;
    if r.chance(2, 3) {
        t(v, "[");
        let n = 1 + r.below(4);
        for i in 0..n {
            match r.below(8) {
                0 => { if r.chance(1, 2) { tk(v, "format ="); } v.push(r.pick(&["svg", "png"]).to_string()); }
                1 => { if r.chance(1, 2) { tk(v, "layout ="); } v.push(r.pick(&["vertical", "horizontal"]).to_string()); }
                2 => { tk(v, "draw_sd ="); yes(r, v); }
                3 => { tk(v, "draw_tt ="); yes(r, v); }
                4 => { tk(v, "draw_legend ="); yes(r, v); }
                5 => { tk(v, "draw_sub_processes ="); yes(r, v); }
                6 => { v.push(r.pick(&["parent", "parent_folder", "folder"]).to_string()); t(v, "="); f = Some(label(r, v)); }
                _ => { v.push(r.pick(&["output", "name"]).to_string()); t(v, "="); label(r, v); }
            }
            sep(r, v, i, n);
        }
        t(v, "]");
    }
    Lg::Graph(f)
}
fn tracegen(r: &mut Rng, v: &mut Vec<String>, bad: &mut bool) -> Lg {
    t(v, "tracegen");
    let triv: BTreeSet<BTreeSet<usize>> = [(0..3).collect()].into_iter().collect();
    let (mut folder, mut prefix, mut nodup, mut gen, mut part) = (None, "trace".to_string(), false, Gen::Acc, triv.clone());
    if r.chance(5, 6) {
        t(v, "[");
        let n = 1 + r.below(5);
        for i in 0..n {
            match r.below(5) {
                0 => {
                    tk(v, "generation =");
                    gen = match r.below(3) { 0 => { t(v, "accepted"); Gen::Acc } 1 => { t(v, "exact depth"); Gen::At(num(r, v)) } _ => { t(v, "modulo depth"); Gen::Mod(num(r, v)) } };
                }
                1 => {
                    tk(v, "partition =");
                    part = match r.below(4) {
                        0 => { t(v, "trivial"); triv.clone() }
                        1 => { t(v, "discrete"); (0..3).map(|x| [x].into_iter().collect()).collect() }
                        _ => {
                            // a partition of the lifelines
                            let mut cs: Vec<Vec<usize>> = vec![];
                            for l in 0..3 { if cs.is_empty() || r.chance(1, 2) { cs.push(vec![l]); } else { let k = r.below(cs.len()); cs[k].push(l); } }
                            let rot = r.below(3); for _ in 0..rot { if cs.len() > 1 { let x = cs.remove(0); cs.push(x); } }
                            let wrong = r.chance(1, 12);
                            if wrong { *bad = true; }
                            t(v, "{");
                            for (a, c) in cs.iter().enumerate() {
                                if a > 0 { t(v, ","); }
                                t(v, "(");
                                for (b, l) in c.iter().enumerate() { if b > 0 { t(v, ","); } t(v, LFS[*l]); }
                                if wrong && a + 1 == cs.len() { t(v, ","); v.push(if r.chance(1, 2) { "zz".to_string() } else { LFS[r.below(3)].to_string() }); }
                                t(v, ")");
                            }
                            t(v, "}");
                            cs.into_iter().map(|c| c.into_iter().collect()).collect()
                        }
                    };
                }
                2 => { v.push(r.pick(&["parent", "parent_folder", "folder"]).to_string()); t(v, "="); folder = Some(label(r, v)); }
                3 => { v.push(r.pick(&["name_prefix", "trace_prefix", "prefix"]).to_string()); t(v, "="); prefix = label(r, v); }
                _ => { v.push(r.pick(&["avoid_duplicates", "prevent_duplicates", "no_duplicates"]).to_string()); t(v, "="); nodup = yes(r, v); }
            }
            sep(r, v, i, n);
        }
        t(v, "]");
    }
    Lg::Trace { folder, prefix, nodup, gen, part }
}
/// k: 0 analyze, 1 explore, 2 canonize; own: the section is the one which is read
fn section(r: &mut Rng, k: usize, own: bool, n: usize, v: &mut Vec<String>) -> Want {
    let mut w = Want::section(k);
    t(v, ["@analyze_option", "@explore_option", "@canonize_option"][k]);
    t(v, "{");
    let m = 1 + r.below(n);
    for i in 0..m {
        let top = if k == 0 { 9 } else if k == 1 { 5 } else if own { 2 } else { 6 };
        let mut c = r.below(top);
        if k == 2 { if c == 1 && own { c = 5; } if c == 5 { c = 9; } }
        match c {
            0 => {
                w.loggers = vec![];
                tk(v, "loggers = [");
                let q = 1 + r.below(3);
                for j in 0..q {
                    let l = if k == 2 && own { graphic(r, v) } else {
                        match r.below(7) {
                            0..=2 => graphic(r, v),
                            3..=5 => tracegen(r, v, &mut w.bad),
                            _ => { v.push(r.pick(&["nfa", "nfait"]).to_string()); if k == 0 { w.bad = true; } Lg::Nfa }
                        }
                    };
                    w.loggers.push(l);
                    sep(r, v, j, q);
                }
                t(v, "]");
            }
            1 => {
                tk(v, "strategy =");
                w.strategy = match r.below(3) {
                    0 => { v.push(r.pick(&["BreadthFS", "Breadth First Search", "BFS"]).to_string()); "BreadthFirstSearch" }
                    1 => { v.push(r.pick(&["DepthFS", "Depth First Search", "DFS"]).to_string()); "DepthFirstSearch" }
                    _ => { v.push(r.pick(&["HighCoverageS", "High Coverage Search", "HCS"]).to_string()); "HighCoverageSearch" }
                }.to_string();
            }
            2 => {
                w.filters = vec![];
                tk(v, "filters = [");
                let q = 1 + r.below(3);
                for j in 0..q {
                    let x = match r.below(3) {
                        0 => { tk(v, r.pick(&["max_depth =", "max depth ="])); format!("MaxDepth={}", num(r, v)) }
                        1 => { tk(v, r.pick(&["max_loop_depth =", "max loop depth ="])); format!("MaxLoop={}", num(r, v)) }
                        _ => { tk(v, r.pick(&["max_node_number =", "max node number ="])); format!("MaxNum={}", num(r, v)) }
                    };
                    w.filters.push(x);
                    sep(r, v, j, q);
                }
                t(v, "]");
            }
            3 => {
                w.prio = [0; 6];
                w.rnd = false;
                tk(v, "priorities = [");
                let q = 1 + r.below(4);
                for j in 0..q {
                    if r.chance(1, 5) { tk(v, "randomize ="); w.rnd = yes(r, v); }
                    else if r.chance(1, 25) { v.push(r.pick(&["simpl", "flush", "invert", "deduplicate", "factorize", "defactorize"]).to_string()); tk(v, "= 3"); w.bad = true; }
                    else {
                        let x = if k == 1 && r.chance(9, 10) { r.below(4) } else { r.below(6) };
                        if k == 1 && x >= 4 { w.bad = true; }
                        t(v, ["emission", "reception", "multi_rdv", "loop", "elim", "simu"][x]);
                        t(v, "=");
                        let a = r.below(3000) as i32;
                        if r.chance(1, 2) { v.push(format!("-{}{}", if r.chance(1, 4) { " " } else { "" }, a)); w.prio[x] = -a; } else { v.push(a.to_string()); w.prio[x] = a; }
                    }
                    sep(r, v, j, q);
                }
                t(v, "]");
            }
            4 => { tk(v, "memoize ="); w.memo = yes(r, v); }
            5 => {
                tk(v, "analysis_kind =");
                w.kind = match r.below(5) {
                    0 => { t(v, "accept"); AnalysisKind::Accept }
                    1 => { t(v, "prefix"); AnalysisKind::Prefix }
                    2 => { t(v, "eliminate"); AnalysisKind::Eliminate }
                    _ => AnalysisKind::Simulate(simu(r, v)),
                };
            }
            6 => {
                tk(v, "goal =");
                w.goal = match r.below(3) { 0 => { t(v, "Pass"); Some(AnalysisGlobalVerdict2::Pass) } 1 => { t(v, "WeakPass"); Some(AnalysisGlobalVerdict2::WeakPass) } _ => { v.push(r.pick(&["none", "None", "NONE"]).to_string()); None } };
            }
            7 => {
                tk(v, "local_analysis =");
                if r.chance(1, 5) { v.push(r.pick(&["none", "None", "NONE"]).to_string()); w.locana = None; }
                else {
                    let (mut s, mut d, mut x) = (false, None, 1);
                    t(v, "[");
                    let q = 1 + r.below(4);
                    for j in 0..q {
                        match r.below(3) {
                            0 => { tk(v, "select ="); s = r.chance(1, 2); v.push(r.pick(if s { &["all", "All", "ALL"] } else { &["dirty", "Dirty", "DIRTY"] }).to_string()); }
                            1 => { tk(v, r.pick(&["max_look_ahead_depth", "max depth", "lookahead", "lookup"])); t(v, "="); d = if r.chance(1, 3) { v.push(r.pick(&["none", "None", "NONE"]).to_string()); None } else { Some(num(r, v)) }; }
                            _ => { v.push(r.pick(&["modulo", "modulo_each_X_steps"]).to_string()); t(v, "="); x = num(r, v); }
                        }
                        sep(r, v, j, q);
                    }
                    t(v, "]");
                    w.locana = Some((s, d, x));
                }
            }
            8 => { v.push(r.pick(&["partial_order_reduction", "por", "POR"]).to_string()); t(v, "="); w.por = yes(r, v); }
            _ => { t(v, "search_all"); w.all = if r.chance(1, 3) { true } else { t(v, "="); yes(r, v) }; }
        }
        if i + 1 < m || r.chance(1, 2) { t(v, ";"); }
    }
    t(v, "}");
    w
}
fn simu(r: &mut Rng, v: &mut Vec<String>) -> SimulationConfiguration {
    let (mut b, mut re, mut mu, mut lc, mut ac) = (false, false, false, SimulationLoopCriterion::MaxDepth, SimulationActionCriterion::None);
    t(v, "simulate");
    if r.chance(5, 6) {
        t(v, "[");
        let n = 1 + r.below(6);
        for i in 0..n {
            match r.below(5) {
                0 => { v.push(r.pick(&["slice", "before", "preamble"]).to_string()); t(v, "="); b = yes(r, v); }
                1 => { v.push(r.pick(&["multiply", "resized", "dependent"]).to_string()); t(v, "="); mu = yes(r, v); }
                2 => { v.push(r.pick(&["reset", "reinitialize"]).to_string()); t(v, "="); re = yes(r, v); }
                3 => {
                    t(v, "act");
                    ac = match r.below(3) {
                        0 => { tk(v, "num ="); SimulationActionCriterion::SpecificNum(num(r, v)) }
                        1 => { tk(v, r.pick(&["max_num", "max num"])); SimulationActionCriterion::MaxNumOutsideLoops }
                        _ => { v.push(r.pick(&["none", "None", "NONE"]).to_string()); SimulationActionCriterion::None }
                    };
                }
                _ => {
                    t(v, "loop");
                    lc = match r.below(4) {
                        0 => { tk(v, "num ="); SimulationLoopCriterion::SpecificNum(num(r, v)) }
                        1 => { tk(v, r.pick(&["max_num", "max num"])); SimulationLoopCriterion::MaxNum }
                        2 => { tk(v, r.pick(&["max_depth", "max depth"])); SimulationLoopCriterion::MaxDepth }
                        _ => { v.push(r.pick(&["none", "None", "NONE"]).to_string()); SimulationLoopCriterion::None }
                    };
                }
            }
            sep(r, v, i, n);
        }
        t(v, "]");
    }
    SimulationConfiguration::new(b, re, mu, lc, ac)
}
/// a file, and what it asks for of a process
fn config(r: &mut Rng, k: usize, n: usize) -> (String, Want) {
    let mut v = vec![];
    let mut w = Want::absent(k);
    let mut own = 0;
    let m = r.below(4);
    for _ in 0..m {
        let x = if r.chance(2, 3) { k } else { r.below(3) };
        if x == k && own == 1 && !r.chance(1, 4) { continue; }
        let s = section(r, x, x == k, n, &mut v);
        if x == k { own += 1; if own == 1 { w = s } else { w.bad = true; } }
    }
    (lay(r, &v), w)
}
fn num_ok(w: &Want) -> bool { !w.bad }

macro_rules! common {
    ($o:expr, $w:expr, $s:expr) => {
        if $o.loggers.len() != $w.loggers.len() { bad!("{}\n gives {} loggers instead of {}", $s, $o.loggers.len(), $w.loggers.len()); }
        if $o.strategy.to_string() != $w.strategy { bad!("{}\n gives strategy {} instead of {}", $s, $o.strategy, $w.strategy); }
        let f: Vec<String> = $o.filters.iter().map(|x| x.to_string()).collect();
        if f != $w.filters { bad!("{}\n gives filters {:?} instead of {:?}", $s, f, $w.filters); }
        if $o.priorities.randomize != $w.rnd { bad!("{}\n randomize is {}", $s, $o.priorities.randomize); }
    };
}
macro_rules! unwrap {
    ($x:expr, $w:expr, $s:expr) => {
        match $x {
            Ok(o) => { if $w.bad { bad!("{}\n is accepted", $s); } o }
            Err(e) => { if num_ok(&$w) { bad!("{}\n is rejected: {}", $s, e); } return Out::Ok; }
        }
    };
}
/// options of analyses
pub fn analyze(r: &mut Rng, n: usize) -> Out {
    let (s, w) = config(r, 0, n.max(1));
    let f = File::new("hcf");
    if std::fs::write(&f.0, &s).is_err() { return Out::Skip; }
    let o = unwrap!(parse_hcf_file_for_ana(&gctx(), &f.path()), w, s);
    common!(o, w, s);
    let p = &o.priorities.specific;
    let pr = [p.emission, p.reception, p.multi_rdv, p.in_loop, p.elim, p.simu];
    if pr != w.prio { bad!("{}\n gives priorities {:?} instead of {:?}", s, pr, w.prio); }
    if o.use_memoization != w.memo { bad!("{}\n memoization: {}", s, o.use_memoization); }
    let g = match &o.goal { None => "none", Some(AnalysisGlobalVerdict::Pass) => "Pass", Some(AnalysisGlobalVerdict::WeakPass) => "WeakPass", Some(_) => "another" };
    let wg = match w.goal { None => "none", Some(AnalysisGlobalVerdict2::Pass) => "Pass", Some(AnalysisGlobalVerdict2::WeakPass) => "WeakPass" };
    if g != wg { bad!("{}\n gives goal {} instead of {}", s, g, wg); }
    if o.ana_param.ana_kind != w.kind { bad!("{}\n gives analysis kind {:?} instead of {:?}", s, o.ana_param.ana_kind, w.kind); }
    if o.ana_param.partial_order_reduction != w.por { bad!("{}\n partial order reduction: {}", s, o.ana_param.partial_order_reduction); }
    let l = o.ana_param.locana.as_ref().map(|x| (x.on_lifeline_policy == LocalAnalysisLifelineSelectionPolicy::SelectAll, x.max_look_ahead_depth, x.modulo_each_X_steps));
    if l != w.locana { bad!("{}\n gives local analyses (all lifelines, depth, modulo) {:?} instead of {:?}", s, l, w.locana); }
    Out::Ok
}
/// options of explorations
pub fn explore(r: &mut Rng, n: usize) -> Out {
    let (s, w) = config(r, 1, n.max(1));
    let f = File::new("hcf");
    if std::fs::write(&f.0, &s).is_err() { return Out::Skip; }
    let o = unwrap!(parse_hcf_file_for_explore(&gctx(), &f.path()), w, s);
    common!(o, w, s);
    let p = &o.priorities.specific;
    let pr = [p.emission, p.reception, p.multi_rdv, p.in_loop];
    if pr != w.prio[..4] { bad!("{}\n gives priorities {:?} instead of {:?}", s, pr, &w.prio[..4]); }
    if o.use_memoization != w.memo { bad!("{}\n memoization: {}", s, o.use_memoization); }
    Out::Ok
}
/// options of canonizations
pub fn canonize(r: &mut Rng, n: usize) -> Out {
    let (s, w) = config(r, 2, n.max(1));
    let f = File::new("hcf");
    if std::fs::write(&f.0, &s).is_err() { return Out::Skip; }
    let o = unwrap!(parse_hcf_file_for_canonize(&gctx(), &f.path()), w, s);
    if o.loggers.len() != w.loggers.len() { bad!("{}\n gives {} loggers instead of {}", s, o.loggers.len(), w.loggers.len()); }
    if o.search_all != w.all { bad!("{}\n search all: {}", s, o.search_all); }
    Out::Ok
}

type H = ExplorationProcessHandler;
static CWD: Mutex<()> = Mutex::new(());
/// a scratch directory, removed at the end, which is the current one meanwhile
struct Dir(std::path::PathBuf);
impl Drop for Dir { fn drop(&mut self) { let _ = std::env::set_current_dir("/"); let _ = std::fs::remove_dir_all(&self.0); } }
/// the loggers which are set up do what is asked for
pub fn loggers(r: &mut Rng, n: usize) -> Out {
    if !r.chance(1, 4) { return Out::Skip; }
    let mut v: Vec<String> = vec![];
    let mut w = Want::section(1);
    tk(&mut v, "@explore_option { loggers = [");
    let q = 1 + r.below(3);
    for j in 0..q { let l = if r.chance(1, 4) { graphic(r, &mut v) } else { tracegen(r, &mut v, &mut w.bad) }; w.loggers.push(l); sep(r, &mut v, j, q); }
    tk(&mut v, "] }");
    if w.bad { return Out::Skip; }
    let s = lay(r, &v);
    let f = File::new("hcf");
    if std::fs::write(&f.0, &s).is_err() { return Out::Skip; }
    let i = term(r, &Conf::full(), n);
    let (c, xp, nd) = (ExplorationContext::new(gctx()), ExplorationParameterization {}, ExplorationNodeKind::new(i.clone(), 0));
    let mut steps = <H as AbstractProcessHandler<ExplorationConfig>>::collect_next_steps(&c, &xp, &nd);
    if steps.is_empty() { return Out::Skip; }
    let st = steps.remove(r.below(steps.len()));
    let st2 = <H as AbstractProcessHandler<ExplorationConfig>>::collect_next_steps(&c, &xp, &nd);
    let gn = GenericNode::new(nd.clone(), std::collections::HashSet::new(), 0);
    let k = st2.iter().position(|x| { let (crate::process::explo::step::ExplorationStepKind::Execute(a), crate::process::explo::step::ExplorationStepKind::Execute(b)) = (x, &st); a.position == b.position });
    let k = match k { Some(k) => k, None => return Out::Skip };
    let st2 = st2.into_iter().nth(k).unwrap();
    let tgt = <H as AbstractProcessHandler<ExplorationConfig>>::process_new_step(&c, &xp, &gn, &GenericStep::new(1, 1, st2), 2, 2);
    let acc = match lang(&tgt.interaction, 0, 3000) { Ok(l) => l.contains(&vec![]), Err(_) => return Out::Skip };
    let depth = r.pick(&[1u32, 2, 4, 6, 10, 12]);
    if w.loggers.iter().any(|l| matches!(l, Lg::Trace { gen: Gen::Mod(0), .. })) { return Out::Skip; }
    let mut o = unwrap!(parse_hcf_file_for_explore(&gctx(), &f.path()), w, s);
    if o.loggers.len() != w.loggers.len() { bad!("{}\n gives {} loggers instead of {}", s, o.loggers.len(), w.loggers.len()); }
    let _l = CWD.lock().unwrap_or_else(|e| e.into_inner());
    let d = Dir(std::env::temp_dir().join(format!("hb_p19_{}_{}", std::process::id(), r.next())));
    if std::fs::create_dir(&d.0).is_err() || std::env::set_current_dir(&d.0).is_err() { return Out::Skip; }
    for (k, l) in w.loggers.iter().enumerate() {
        let g = &mut o.loggers[k];
        g.log_initialize();
        match l {
            Lg::Graph(p) => {
                let tmp = format!("graphviz_temp_l{}", k + 1);
                if !d.0.join(&tmp).is_dir() { bad!("{}\n logger {} does not use folder {}", s, k + 1, tmp); }
                if let Some(p) = p { if !d.0.join(p).is_dir() { bad!("{}\n logger {} does not use folder {}", s, k + 1, p); } }
            }
            Lg::Trace { folder, prefix, nodup, gen, part } => {
                let p = d.0.join(folder.clone().unwrap_or(format!("tracegen_l{}", k + 1)));
                if !p.is_dir() { bad!("{}\n logger {} does not use folder {}", s, k + 1, p.display()); }
                g.log_new_node(&c, &xp, 1, &nd);
                for x in [2, 3] {
                    g.log_new_node(&c, &xp, x, &tgt);
                    g.log_new_step(&c, &xp, 1, x, &st, &tgt, depth);
                }
                let pr = match gen { Gen::Acc => acc, Gen::At(m) => depth == *m, Gen::Mod(m) => depth % *m == 0 };
                let want: BTreeSet<String> = (1..=if !pr { 0 } else if *nodup { 1 } else { 2 }).map(|x| format!("{}{}.htf", prefix, x)).collect();
                let got: BTreeSet<String> = match std::fs::read_dir(&p) { Ok(x) => x.filter_map(|y| y.ok()).map(|y| y.file_name().to_string_lossy().to_string()).collect(), Err(_) => return Out::Skip };
                if got != want { bad!("{}\n logger {} writes {:?} instead of {:?} for {} at depth {}", s, k + 1, got, want, show(&i), depth); }
                for x in &got {
                    match parse_htf_file(&gctx(), &p.join(x).to_string_lossy()) {
                        Err(e) => bad!("{}\n logger {} writes a file which is not read back: {}", s, k + 1, e),
                        Ok((pt, _)) => {
                            let h: BTreeSet<BTreeSet<usize>> = pt.locs_lf_ids.iter().cloned().collect();
                            if h != *part { bad!("{}\n logger {} observes {:?} instead of {:?}", s, k + 1, h, part); }
                        }
                    }
                }
            }
            Lg::Nfa => {}
        }
        let _ = std::fs::remove_dir_all(&d.0);
        let _ = std::fs::create_dir(&d.0);
        if std::env::set_current_dir(&d.0).is_err() { return Out::Skip; }
    }
    Out::Ok
}
