// ------------------------------------------------------------------ section of explorations
#[verifier::ext_equal]
pub struct EO { pub logs: Seq<LV>, pub strat: QueueSearchStrategy, pub filters: Seq<(int, u32)>, pub prio: PR, pub memo: bool }
/// what holds when nothing is said: in a section, and without one
pub open spec fn eo0() -> EO { EO { logs: Seq::empty(), strat: QueueSearchStrategy::BFS, filters: Seq::empty(), prio: pr0(), memo: false } }
pub open spec fn eo1() -> EO { EO { filters: seq![(1int, 1u32)], ..eo0() } }
pub open spec fn d_eopt(g: GeneralContext, f: Seq<char>, c: EO, t: PT) -> Option<EO> {
    match t.rule {
        Rule::OPTION_LOGGER_DECL => match d_logs(g, f, true, t.kids, t.kids.len() as int) { None => None, Some(v) => Some(EO { logs: v, ..c }) },
        Rule::OPTION_STRATEGY_DECL => Some(EO { strat: d_strat(t.kids[0]), ..c }),
        Rule::OPTION_FILTERS_DECL => Some(EO { filters: d_filters(t.kids), ..c }),
        Rule::OPTION_PRIORITIES_DECL => match d_prios(false, t.kids[0].kids, t.kids[0].kids.len() as int) { None => None, Some(p) => Some(EO { prio: p, ..c }) },
        _ => Some(EO { memo: bval(t), ..c }),
    }
}
pub open spec fn d_eopts(g: GeneralContext, f: Seq<char>, s: Seq<PT>, n: int) -> Option<EO>
    decreases n,
{
    if n <= 0 { Some(eo0()) } else { match d_eopts(g, f, s, n - 1) { None => None, Some(c) => d_eopt(g, f, c, s[n - 1]) } }
}
pub proof fn lem_eopts_none(g: GeneralContext, f: Seq<char>, s: Seq<PT>, b: int, c: int)
    requires 0 <= b <= c, d_eopts(g, f, s, b) is None,
    ensures d_eopts(g, f, s, c) is None,
    decreases c - b,
{
    if b < c { assert(d_eopts(g, f, s, b + 1) is None); lem_eopts_none(g, f, s, b + 1, c); }
}
pub open spec fn d_efile(g: GeneralContext, f: Seq<char>, s: Seq<PT>, n: int) -> Option<EO>
    decreases n,
{
    if n <= 0 { Some(eo1()) } else {
        match d_efile(g, f, s, n - 1) {
            None => None,
            Some(c) => if !(s[n - 1].rule is EXPLORE_OPTION_SECTION) { Some(c) } else if secs(s, Rule::EXPLORE_OPTION_SECTION, n - 1) { None } else { d_eopts(g, f, s[n - 1].kids, s[n - 1].kids.len() as int) },
        }
    }
}
pub proof fn lem_efile_none(g: GeneralContext, f: Seq<char>, s: Seq<PT>, b: int, c: int)
    requires 0 <= b <= c, d_efile(g, f, s, b) is None,
    ensures d_efile(g, f, s, c) is None,
    decreases c - b,
{
    if b < c { assert(d_efile(g, f, s, b + 1) is None); lem_efile_none(g, f, s, b + 1, c); }
}
pub open spec fn fvs(v: Seq<Box<dyn AbstractFilter<ExplorationFilterCriterion, ExplorationFilterEliminationKind>>>) -> Seq<(int, u32)> { Seq::new(v.len(), |j: int| v[j].fv()) }
pub open spec fn lvs(v: Seq<Box<dyn AbstractProcessLogger<ExplorationConfig>>>) -> Seq<LV> { Seq::new(v.len(), |j: int| v[j].lv()) }
pub open spec fn prv(p: GenericProcessPriorities<ExplorationPriorities>) -> PR {
    PR { em: p.specific.emission, rc: p.specific.reception, rdv: p.specific.multi_rdv, lp: p.specific.in_loop, el: 0, si: 0, rnd: p.randomize }
}
pub open spec fn eov(o: HibouExploreOptions) -> EO {
    EO { logs: lvs(o.loggers@), strat: o.strategy, filters: fvs(o.filters@), prio: prv(o.priorities), memo: o.use_memoization }
}
/// THEOREM: what is read from s is what its tree denotes, or else s has no tree, or its tree denotes nothing
pub open spec fn reads_conf(g: GeneralContext, f: Seq<char>, s: Seq<char>, r: Option<EO>) -> bool {
    ||| r is None && refused(Rule::HCF_PEST_FILE, s)
    ||| exists|t: Seq<PT>| #[trigger] parsed(Rule::HCF_PEST_FILE, s, t) && d_efile(g, f, t[0].kids, t[0].kids.len() as int) == r
}
impl Clone for GeneralContext { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
pub struct GenericNFAITLogger<C, L, P> { pub builder_printer: P, pub name: String, pub draw: Option<(bool, GraphVizOutputFormat)>, pub parent_folder: String, pub c: core::marker::PhantomData<C>, pub l: core::marker::PhantomData<L> }
impl<C, L, P> GenericNFAITLogger<C, L, P> {
    #[verifier::external_body]
    pub fn new(builder_printer: P, name: String, draw: Option<(bool, GraphVizOutputFormat)>, parent_folder: String) -> (r: Self)
        ensures r.builder_printer == builder_printer, r.name == name, r.draw == draw, r.parent_folder == parent_folder,
    { unimplemented!() }
}
impl AbstractProcessConfiguration for ExplorationConfig { }
impl GraphVizProcessDrawer<ExplorationConfig> for InteractionProcessDrawer { }
impl StepsTraceProcessPrinter<ExplorationConfig, TraceGenLoggerObject> for MultiTraceProcessPrinter { }
impl VxDyn<dyn AbstractFilter<ExplorationFilterCriterion, ExplorationFilterEliminationKind>> for ExplorationFilter {
    open spec fn same(self, d: Box<dyn AbstractFilter<ExplorationFilterCriterion, ExplorationFilterEliminationKind>>) -> bool {
        d.fv() == match self { ExplorationFilter::MaxProcessDepth(n) => (0int, n), ExplorationFilter::MaxLoopInstanciation(n) => (1int, n), ExplorationFilter::MaxNodeNumber(n) => (2int, n) }
    }
    #[verifier::external_body]
    fn vx_dyn(self) -> (r: Box<dyn AbstractFilter<ExplorationFilterCriterion, ExplorationFilterEliminationKind>>) { unimplemented!() }
}
impl VxDyn<dyn AbstractProcessLogger<ExplorationConfig>> for GenericGraphVizLogger<ExplorationConfig> {
    open spec fn same(self, d: Box<dyn AbstractProcessLogger<ExplorationConfig>>) -> bool { d.lv() == LV::G(self.gv()) }
    #[verifier::external_body]
    fn vx_dyn(self) -> (r: Box<dyn AbstractProcessLogger<ExplorationConfig>>) { unimplemented!() }
}
impl VxDyn<dyn AbstractProcessLogger<ExplorationConfig>> for GenericStepsTraceLogger<ExplorationConfig, TraceGenLoggerObject> {
    open spec fn same(self, d: Box<dyn AbstractProcessLogger<ExplorationConfig>>) -> bool { d.lv() == LV::T(self.tv()) }
    #[verifier::external_body]
    fn vx_dyn(self) -> (r: Box<dyn AbstractProcessLogger<ExplorationConfig>>) { unimplemented!() }
}
impl VxDyn<dyn AbstractProcessLogger<ExplorationConfig>> for GenericNFAITLogger<ExplorationConfig, usize, ActionNFAITPrinter> {
    open spec fn same(self, d: Box<dyn AbstractProcessLogger<ExplorationConfig>>) -> bool { d.lv() == LV::N }
    #[verifier::external_body]
    fn vx_dyn(self) -> (r: Box<dyn AbstractProcessLogger<ExplorationConfig>>) { unimplemented!() }
}
