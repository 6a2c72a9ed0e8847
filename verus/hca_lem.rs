// ------------------------------------------------------------------ section of analyses
pub open spec fn sim0() -> SimulationConfiguration {
    SimulationConfiguration { sim_before: false, reset_crit_after_exec: false, multiply_by_multitrace_length: false, loop_crit: SimulationLoopCriterion::MaxDepth, act_crit: SimulationActionCriterion::None }
}
pub open spec fn d_sopt(c: SimulationConfiguration, t: PT) -> SimulationConfiguration {
    let k = t.kids[0];
    match t.rule {
        Rule::OPTION_ANA_SIMULATE_CONFIG_simbefore => SimulationConfiguration { sim_before: bval(t), ..c },
        Rule::OPTION_ANA_SIMULATE_CONFIG_multiply_by_mu_length => SimulationConfiguration { multiply_by_multitrace_length: bval(t), ..c },
        Rule::OPTION_ANA_SIMULATE_CONFIG_reset => SimulationConfiguration { reset_crit_after_exec: bval(t), ..c },
        Rule::OPTION_ANA_SIMULATE_CONFIG_act => SimulationConfiguration { act_crit: match k.rule {
            Rule::OPTION_ANA_SIMULATE_CONFIG_crit_num => SimulationActionCriterion::SpecificNum(nval(k.kids[0])),
            Rule::OPTION_ANA_SIMULATE_CONFIG_crit_maxnum => SimulationActionCriterion::MaxNumOutsideLoops,
            _ => SimulationActionCriterion::None,
        }, ..c },
        _ => SimulationConfiguration { loop_crit: match k.rule {
            Rule::OPTION_ANA_SIMULATE_CONFIG_crit_num => SimulationLoopCriterion::SpecificNum(nval(k.kids[0])),
            Rule::OPTION_ANA_SIMULATE_CONFIG_crit_maxnum => SimulationLoopCriterion::MaxNum,
            Rule::OPTION_ANA_SIMULATE_CONFIG_crit_maxdepth => SimulationLoopCriterion::MaxDepth,
            _ => SimulationLoopCriterion::None,
        }, ..c },
    }
}
pub open spec fn d_sim(s: Seq<PT>, n: int) -> SimulationConfiguration
    decreases n,
{
    if n <= 0 { sim0() } else { d_sopt(d_sim(s, n - 1), s[n - 1]) }
}
pub open spec fn loc0() -> LocalAnalysisParameterization {
    LocalAnalysisParameterization { on_lifeline_policy: LocalAnalysisLifelineSelectionPolicy::OnlyOnImpactedByLastStep, max_look_ahead_depth: None, modulo_each_X_steps: 1 }
}
pub open spec fn d_lopt(c: LocalAnalysisParameterization, t: PT) -> LocalAnalysisParameterization {
    let k = t.kids[0];
    match t.rule {
        Rule::OPTION_LOCANA_select => LocalAnalysisParameterization { on_lifeline_policy: if k.rule is OPTION_LOCANA_select_all { LocalAnalysisLifelineSelectionPolicy::SelectAll } else { LocalAnalysisLifelineSelectionPolicy::OnlyOnImpactedByLastStep }, ..c },
        Rule::OPTION_LOCANA_depth => LocalAnalysisParameterization { max_look_ahead_depth: if k.rule is HIBOU_none { None } else { Some(nval(k)) }, ..c },
        _ => LocalAnalysisParameterization { modulo_each_X_steps: nval(k), ..c },
    }
}
pub open spec fn d_lopts(s: Seq<PT>, n: int) -> LocalAnalysisParameterization
    decreases n,
{
    if n <= 0 { loc0() } else { d_lopt(d_lopts(s, n - 1), s[n - 1]) }
}
pub open spec fn d_loc(t: PT) -> Option<LocalAnalysisParameterization> {
    if t.kids[0].rule is HIBOU_none { None } else { Some(d_lopts(t.kids[0].kids, t.kids[0].kids.len() as int)) }
}
pub open spec fn d_kind(k: PT) -> AnalysisKind {
    match k.rule {
        Rule::OPTION_ANA_KIND_accept => AnalysisKind::Accept,
        Rule::OPTION_ANA_KIND_prefix => AnalysisKind::Prefix,
        Rule::OPTION_ANA_KIND_eliminate => AnalysisKind::Eliminate,
        _ => AnalysisKind::Simulate(d_sim(opts(k), opts(k).len() as int)),
    }
}
pub open spec fn d_goal(k: PT) -> Option<AnalysisGlobalVerdict> {
    match k.rule { Rule::OPTION_GOAL_pass => Some(AnalysisGlobalVerdict::Pass), Rule::OPTION_GOAL_weakpass => Some(AnalysisGlobalVerdict::WeakPass), _ => None }
}
#[verifier::ext_equal]
pub struct AO {
    pub logs: Seq<LV>, pub strat: QueueSearchStrategy, pub filters: Seq<(int, u32)>, pub prio: PR, pub memo: bool, pub goal: Option<AnalysisGlobalVerdict>,
    pub kind: AnalysisKind, pub loc: Option<LocalAnalysisParameterization>, pub por: bool,
}
pub open spec fn pra0() -> PR { PR { el: 1, si: (-1) as i32, ..pr0() } }
/// what holds when nothing is said: in a section, and without one
pub open spec fn ao0() -> AO {
    AO { logs: Seq::empty(), strat: QueueSearchStrategy::BFS, filters: Seq::empty(), prio: pra0(), memo: true, goal: Some(AnalysisGlobalVerdict::WeakPass), kind: AnalysisKind::Prefix, loc: Some(loc0()), por: false }
}
pub open spec fn ao1() -> AO { AO { strat: QueueSearchStrategy::DFS, ..ao0() } }
pub open spec fn d_aopt(g: GeneralContext, f: Seq<char>, c: AO, t: PT) -> Option<AO> {
    match t.rule {
        Rule::OPTION_LOGGER_DECL => match d_logs(g, f, false, t.kids, t.kids.len() as int) { None => None, Some(v) => Some(AO { logs: v, ..c }) },
        Rule::OPTION_STRATEGY_DECL => Some(AO { strat: d_strat(t.kids[0]), ..c }),
        Rule::OPTION_FILTERS_DECL => Some(AO { filters: d_filters(t.kids), ..c }),
        Rule::OPTION_PRIORITIES_DECL => match d_prios(true, t.kids[0].kids, t.kids[0].kids.len() as int) { None => None, Some(p) => Some(AO { prio: p, ..c }) },
        Rule::OPTION_MEMOIZE => Some(AO { memo: bval(t), ..c }),
        Rule::OPTION_ANALYSIS_KIND_DECL => Some(AO { kind: d_kind(t.kids[0]), ..c }),
        Rule::OPTION_PARTIAL_ORDER => Some(AO { por: bval(t), ..c }),
        Rule::OPTION_LOCANA => Some(AO { loc: d_loc(t), ..c }),
        _ => Some(AO { goal: d_goal(t.kids[0]), ..c }),
    }
}
pub open spec fn d_aopts(g: GeneralContext, f: Seq<char>, s: Seq<PT>, n: int) -> Option<AO>
    decreases n,
{
    if n <= 0 { Some(ao0()) } else { match d_aopts(g, f, s, n - 1) { None => None, Some(c) => d_aopt(g, f, c, s[n - 1]) } }
}
pub proof fn lem_aopts_none(g: GeneralContext, f: Seq<char>, s: Seq<PT>, b: int, c: int)
    requires 0 <= b <= c, d_aopts(g, f, s, b) is None,
    ensures d_aopts(g, f, s, c) is None,
    decreases c - b,
{
    if b < c { assert(d_aopts(g, f, s, b + 1) is None); lem_aopts_none(g, f, s, b + 1, c); }
}
/// a file: the section of analyses, if there is one
pub open spec fn d_afile(g: GeneralContext, f: Seq<char>, s: Seq<PT>, n: int) -> Option<AO>
    decreases n,
{
    if n <= 0 { Some(ao1()) } else {
        match d_afile(g, f, s, n - 1) {
            None => None,
            Some(c) => if !(s[n - 1].rule is ANALYZE_OPTION_SECTION) { Some(c) } else if secs(s, Rule::ANALYZE_OPTION_SECTION, n - 1) { None } else { d_aopts(g, f, s[n - 1].kids, s[n - 1].kids.len() as int) },
        }
    }
}
pub proof fn lem_afile_none(g: GeneralContext, f: Seq<char>, s: Seq<PT>, b: int, c: int)
    requires 0 <= b <= c, d_afile(g, f, s, b) is None,
    ensures d_afile(g, f, s, c) is None,
    decreases c - b,
{
    if b < c { assert(d_afile(g, f, s, b + 1) is None); lem_afile_none(g, f, s, b + 1, c); }
}
pub open spec fn fvs(v: Seq<Box<dyn AbstractFilter<AnalysisFilterCriterion, AnalysisFilterEliminationKind>>>) -> Seq<(int, u32)> { Seq::new(v.len(), |j: int| v[j].fv()) }
pub open spec fn lvs(v: Seq<Box<dyn AbstractProcessLogger<AnalysisConfig>>>) -> Seq<LV> { Seq::new(v.len(), |j: int| v[j].lv()) }
pub open spec fn prv(p: GenericProcessPriorities<AnalysisPriorities>) -> PR {
    PR { em: p.specific.emission, rc: p.specific.reception, rdv: p.specific.multi_rdv, lp: p.specific.in_loop, el: p.specific.elim, si: p.specific.simu, rnd: p.randomize }
}
pub open spec fn aov(o: HibouAnalyzeOptions) -> AO {
    AO { logs: lvs(o.loggers@), strat: o.strategy, filters: fvs(o.filters@), prio: prv(o.priorities), memo: o.use_memoization, goal: o.goal,
        kind: o.ana_param.ana_kind, loc: o.ana_param.locana, por: o.ana_param.partial_order_reduction }
}
/// THEOREM: what is read from s is what its tree denotes, or else s has no tree, or its tree denotes nothing
pub open spec fn reads_conf(g: GeneralContext, f: Seq<char>, s: Seq<char>, r: Option<AO>) -> bool {
    ||| r is None && refused(Rule::HCF_PEST_FILE, s)
    ||| exists|t: Seq<PT>| #[trigger] parsed(Rule::HCF_PEST_FILE, s, t) && d_afile(g, f, t[0].kids, t[0].kids.len() as int) == r
}
impl AbstractProcessConfiguration for AnalysisConfig { }
impl GraphVizProcessDrawer<AnalysisConfig> for InteractionProcessDrawer { }
impl StepsTraceProcessPrinter<AnalysisConfig, TraceGenLoggerObject> for MultiTraceProcessPrinter { }
impl VxDyn<dyn AbstractFilter<AnalysisFilterCriterion, AnalysisFilterEliminationKind>> for AnalysisFilter {
    open spec fn same(self, d: Box<dyn AbstractFilter<AnalysisFilterCriterion, AnalysisFilterEliminationKind>>) -> bool {
        d.fv() == match self { AnalysisFilter::MaxProcessDepth(n) => (0int, n), AnalysisFilter::MaxLoopInstanciation(n) => (1int, n), AnalysisFilter::MaxNodeNumber(n) => (2int, n) }
    }
    #[verifier::external_body]
    fn vx_dyn(self) -> (r: Box<dyn AbstractFilter<AnalysisFilterCriterion, AnalysisFilterEliminationKind>>) { unimplemented!() }
}
impl VxDyn<dyn AbstractProcessLogger<AnalysisConfig>> for GenericGraphVizLogger<AnalysisConfig> {
    open spec fn same(self, d: Box<dyn AbstractProcessLogger<AnalysisConfig>>) -> bool { d.lv() == LV::G(self.gv()) }
    #[verifier::external_body]
    fn vx_dyn(self) -> (r: Box<dyn AbstractProcessLogger<AnalysisConfig>>) { unimplemented!() }
}
impl VxDyn<dyn AbstractProcessLogger<AnalysisConfig>> for GenericStepsTraceLogger<AnalysisConfig, TraceGenLoggerObject> {
    open spec fn same(self, d: Box<dyn AbstractProcessLogger<AnalysisConfig>>) -> bool { d.lv() == LV::T(self.tv()) }
    #[verifier::external_body]
    fn vx_dyn(self) -> (r: Box<dyn AbstractProcessLogger<AnalysisConfig>>) { unimplemented!() }
}
