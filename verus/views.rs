// ============================================================================================
// Views of the real datatypes, assumed contracts of their derived Clone/PartialEq/Ord implementations.
// ============================================================================================

pub open spec fn vw(i: Interaction) -> SI
    decreases i,
{
    match i {
        Interaction::Empty => SI::Empty,
        Interaction::Emission(e) => SI::Em(e.origin_lf_id, e.ms_id, e.synchronicity is Synchronous, e.targets@),
        Interaction::Reception(e) => SI::Rec(e.origin_gt_id, e.ms_id, e.synchronicity is Synchronous, e.recipients@),
        Interaction::Strict(a, b) => SI::Op(MOp::Strict, Box::new(vw(*a)), Box::new(vw(*b))),
        Interaction::Seq(a, b) => SI::Op(MOp::Seq, Box::new(vw(*a)), Box::new(vw(*b))),
        Interaction::CoReg(cr, a, b) => SI::Op(MOp::CoReg(cr@), Box::new(vw(*a)), Box::new(vw(*b))),
        Interaction::Alt(a, b) => SI::Alt(Box::new(vw(*a)), Box::new(vw(*b))),
        Interaction::Par(a, b) => SI::Op(MOp::Par, Box::new(vw(*a)), Box::new(vw(*b))),
        Interaction::Loop(k, a) => SI::Loop(k, Box::new(vw(*a))),
        Interaction::And(a, b) => SI::And(Box::new(vw(*a)), Box::new(vw(*b))),
        Interaction::Sync(s, a, b) => SI::Op(MOp::Sync(s@), Box::new(vw(*a)), Box::new(vw(*b))),
    }
}

pub open spec fn ve(e: EmissionAction) -> SI {
    SI::Em(e.origin_lf_id, e.ms_id, e.synchronicity is Synchronous, e.targets@)
}

pub open spec fn vr(e: ReceptionAction) -> SI {
    SI::Rec(e.origin_gt_id, e.ms_id, e.synchronicity is Synchronous, e.recipients@)
}

impl VxK for TraceAction { type K = TraceAction; open spec fn k(&self) -> TraceAction { *self } }
impl VxK for EmissionTargetRef { type K = EmissionTargetRef; open spec fn k(&self) -> EmissionTargetRef { *self } }
impl VxK for Interaction { type K = SI; open spec fn k(&self) -> SI { vw(*self) } }
impl VxK for EmissionAction { type K = SI; open spec fn k(&self) -> SI { ve(*self) } }
impl VxK for ReceptionAction { type K = SI; open spec fn k(&self) -> SI { vr(*self) } }

impl Clone for TraceActionKind { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Clone for TraceAction { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Clone for EmissionTargetRef { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Clone for CommunicationSynchronicity { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Clone for LoopKind { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Clone for EmissionAction { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures ve(r) == ve(*self) { unimplemented!() } }
impl Clone for ReceptionAction { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures vr(r) == vr(*self) { unimplemented!() } }
impl Clone for Interaction { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures vw(r) == vw(*self) { unimplemented!() } }

impl VxClone for TraceAction {
    open spec fn same(&self, o: &Self) -> bool { *self == *o }
    fn vx_clone(&self) -> (r: Self) { self.clone() }
}
impl VxClone for EmissionTargetRef {
    open spec fn same(&self, o: &Self) -> bool { *self == *o }
    fn vx_clone(&self) -> (r: Self) { self.clone() }
}

impl PartialEq for Interaction { #[verifier::external_body] fn eq(&self, o: &Self) -> (r: bool) { unimplemented!() } }
impl vstd::std_specs::cmp::PartialEqSpecImpl for Interaction {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Self) -> bool { vw(*self) == vw(*o) }
}
impl PartialEq for TraceAction { #[verifier::external_body] fn eq(&self, o: &Self) -> (r: bool) { unimplemented!() } }
impl vstd::std_specs::cmp::PartialEqSpecImpl for TraceAction {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Self) -> bool { *self == *o }
}
impl PartialEq for EmissionTargetRef { #[verifier::external_body] fn eq(&self, o: &Self) -> (r: bool) { unimplemented!() } }
impl vstd::std_specs::cmp::PartialEqSpecImpl for EmissionTargetRef {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Self) -> bool { *self == *o }
}
impl PartialEq for CommunicationSynchronicity { #[verifier::external_body] fn eq(&self, o: &Self) -> (r: bool) { unimplemented!() } }
impl vstd::std_specs::cmp::PartialEqSpecImpl for CommunicationSynchronicity {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Self) -> bool { *self == *o }
}
impl PartialEq for LoopKind { #[verifier::external_body] fn eq(&self, o: &Self) -> (r: bool) { unimplemented!() } }
impl vstd::std_specs::cmp::PartialEqSpecImpl for LoopKind {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Self) -> bool { *self == *o }
}

pub open spec fn lk_rank(k: LoopKind) -> int {
    match k { LoopKind::PInterleaving => 1, LoopKind::WWeakSeq => 2, LoopKind::HHeadFirstWS => 3, LoopKind::SStrictSeq => 4 }
}

impl<'a> VxOrdOps for &'a LoopKind {
    open spec fn max_of(a: &'a LoopKind, b: &'a LoopKind) -> &'a LoopKind { if lk_rank(*b) >= lk_rank(*a) { b } else { a } }
    open spec fn min_of(a: &'a LoopKind, b: &'a LoopKind) -> &'a LoopKind { if lk_rank(*b) < lk_rank(*a) { b } else { a } }
    #[verifier::external_body]
    fn vx_max(self, o: &'a LoopKind) -> &'a LoopKind { unimplemented!() }
    #[verifier::external_body]
    fn vx_min(self, o: &'a LoopKind) -> &'a LoopKind { unimplemented!() }
}

pub open spec fn pv(p: Position) -> SP
    decreases p,
{
    match p {
        Position::Epsilon(k) => SP::Eps(k),
        Position::Left(q) => SP::Left(Box::new(pv(*q))),
        Position::Right(q) => SP::Right(Box::new(pv(*q))),
        Position::Both(q1, q2) => SP::Both(Box::new(pv(*q1)), Box::new(pv(*q2))),
    }
}
impl Clone for Position { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures pv(r) == pv(*self) { unimplemented!() } }
