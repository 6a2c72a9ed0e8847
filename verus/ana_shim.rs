// ============================================================================================
// Multi-trace analysis: data of the external exploration engine, and assumed contracts of derived implementations.
// ============================================================================================

/// graph_process_manager_core::delegate::node::GenericNode (the other fields are not used by the handler)
pub struct GenericNode<K> { pub kind: K, pub depth: u32 }
/// graph_process_manager_core::queued_steps::step::GenericStep
pub struct GenericStep<K> { pub parent_id: u32, pub id_as_child: u32, pub kind: K }

impl Clone for TraceAnalysisFlags { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Clone for InconcReason { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Clone for AnalysisKind { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Clone for SimulationConfiguration { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl PartialEq for LocalAnalysisLifelineSelectionPolicy { #[verifier::external_body] fn eq(&self, o: &Self) -> (r: bool) { unimplemented!() } }
impl vstd::std_specs::cmp::PartialEqSpecImpl for LocalAnalysisLifelineSelectionPolicy {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Self) -> bool { *self == *o }
}
impl PartialEq for AnalysisGlobalVerdict { #[verifier::external_body] fn eq(&self, o: &Self) -> (r: bool) { unimplemented!() } }
impl vstd::std_specs::cmp::PartialEqSpecImpl for AnalysisGlobalVerdict {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Self) -> bool { *self == *o }
}
impl PartialOrd for AnalysisGlobalVerdict { #[verifier::external_body] fn partial_cmp(&self, o: &Self) -> (r: Option<core::cmp::Ordering>) { unimplemented!() } }
impl vstd::std_specs::cmp::PartialOrdSpecImpl for AnalysisGlobalVerdict {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, o: &Self) -> Option<core::cmp::Ordering> { Some(gord(*self, *o)) }
}
pub open spec fn iord(a: int, b: int) -> core::cmp::Ordering {
    if a < b { core::cmp::Ordering::Less } else if a == b { core::cmp::Ordering::Equal } else { core::cmp::Ordering::Greater }
}
/// derived order: by declaration order of the variants, then by their arguments
pub open spec fn gord(a: AnalysisGlobalVerdict, b: AnalysisGlobalVerdict) -> core::cmp::Ordering {
    if grank(a) == grank(b) && a is Inconc { iord(irank(a->Inconc_0), irank(b->Inconc_0)) } else { iord(grank(a), grank(b)) }
}
pub open spec fn grank(v: AnalysisGlobalVerdict) -> int {
    match v { AnalysisGlobalVerdict::Fail => 0, AnalysisGlobalVerdict::WeakFail => 1, AnalysisGlobalVerdict::Inconc(_) => 2, AnalysisGlobalVerdict::WeakPass => 3, AnalysisGlobalVerdict::Pass => 4 }
}
pub open spec fn irank(r: InconcReason) -> int {
    match r { InconcReason::LackObs => 0, InconcReason::UsingLifelineRemovalWithCoLocalizations => 1, InconcReason::FilteredNodes => 2 }
}

// ------------------------------------------------------------------ graph_process_manager_core
pub enum QueueSearchStrategy { BFS, DFS, HCS }
pub struct GenericProcessPriorities<P> { pub specific: P, pub randomize: bool }
impl<P> GenericProcessPriorities<P> {
    pub fn new(specific: P, randomize: bool) -> (r: Self) { GenericProcessPriorities { specific, randomize } }
}
pub struct GenericProcessDelegate<S, N, P> { pub s: core::marker::PhantomData<S>, pub n: core::marker::PhantomData<N>, pub p: core::marker::PhantomData<P> }
impl<S, N, P> GenericProcessDelegate<S, N, P> {
    #[verifier::external_body]
    pub fn new(strategy: QueueSearchStrategy, priorities: GenericProcessPriorities<P>) -> (r: Self) { unimplemented!() }
}
pub trait AbstractProcessLogger<C> { }
pub trait AbstractFilter<A, B> { }
pub struct GenericProcessManager<C> { pub context: AnalysisContext, pub param: AnalysisParameterization, pub goal: Option<AnalysisGlobalVerdict>, pub filters: Vec<Box<dyn AbstractFilter<AnalysisFilterCriterion, AnalysisFilterEliminationKind>>>, pub c: core::marker::PhantomData<C> }
impl GenericProcessManager<AnalysisConfig> {
    #[verifier::external_body]
    pub fn new(context: AnalysisContext, param: AnalysisParameterization, delegate: GenericProcessDelegate<AnalysisStepKind, AnalysisNodeKind, AnalysisPriorities>,
        filters: Vec<Box<dyn AbstractFilter<AnalysisFilterCriterion, AnalysisFilterEliminationKind>>>, loggers: Vec<Box<dyn AbstractProcessLogger<AnalysisConfig>>>,
        goal: Option<AnalysisGlobalVerdict>, is_memoized: bool) -> (r: Self)
        ensures r.context == context, r.param == param, r.goal == goal, r.filters == filters,
    { unimplemented!() }
    /// ASSUMED: the engine follows every collected step of every node it does not give up, and joins the local verdicts of the leaves
    #[verifier::external_body]
    pub fn start_process(&mut self, init: AnalysisNodeKind) -> (r: (u32, AnalysisGlobalVerdict))
        requires npre(old(self).context, init), !(old(self).param.ana_kind is Simulate), !old(self).param.partial_order_reduction, old(self).param.locana is None, old(self).filters@.len() == 0,
        ensures engine(old(self).context, old(self).param.ana_kind, old(self).goal, init, r.1),
    { unimplemented!() }
}
impl Clone for GeneralContext { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
