// ============================================================================================
// Results of the search for transformations (ghost code only).
// ============================================================================================

impl Clone for InteractionTransformationKind { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }

/// a transformation result for i: a rewriting at the announced position, of one of the requested kinds
pub open spec fn res_ok(i: SI, ks: Seq<InteractionTransformationKind>, x: InteractionTransformationResult) -> bool {
    at(i, pv(x.position), vw(x.result)) && ks.contains(x.kind)
}

#[verifier::opaque]
pub open spec fn all_at(i: SI, ks: Seq<InteractionTransformationKind>, s: Seq<InteractionTransformationResult>) -> bool {
    forall|j: int| 0 <= j < s.len() ==> res_ok(i, ks, #[trigger] s[j])
}

pub broadcast proof fn b_at_push(i: SI, ks: Seq<InteractionTransformationKind>, s: Seq<InteractionTransformationResult>, x: InteractionTransformationResult)
    requires all_at(i, ks, s), res_ok(i, ks, x),
    ensures #[trigger] all_at(i, ks, s.push(x)),
{ reveal(all_at); }

pub broadcast proof fn b_at_app(i: SI, ks: Seq<InteractionTransformationKind>, s: Seq<InteractionTransformationResult>, u: Seq<InteractionTransformationResult>)
    requires all_at(i, ks, s), all_at(i, ks, u),
    ensures #[trigger] all_at(i, ks, s + u),
{ reveal(all_at); }

pub broadcast proof fn b_at_nil(i: SI, ks: Seq<InteractionTransformationKind>, s: Seq<InteractionTransformationResult>)
    requires s.len() == 0,
    ensures #[trigger] all_at(i, ks, s),
{ reveal(all_at); }

pub broadcast proof fn b_at_get(i: SI, ks: Seq<InteractionTransformationKind>, s: Seq<InteractionTransformationResult>, j: int)
    requires #[trigger] all_at(i, ks, s), 0 <= j < s.len(),
    ensures res_ok(i, ks, #[trigger] s[j]),
{ reveal(all_at); }

pub broadcast proof fn b_pv_e(k: Option<usize>)
    ensures #[trigger] pv(Position::Epsilon(k)) == SP::Eps(k) {}
pub broadcast proof fn b_pv_l(q: Box<Position>)
    ensures #[trigger] pv(Position::Left(q)) == SP::Left(Box::new(pv(*q))) {}
pub broadcast proof fn b_pv_r(q: Box<Position>)
    ensures #[trigger] pv(Position::Right(q)) == SP::Right(Box::new(pv(*q))) {}

pub broadcast proof fn b_at_e(i: SI, r: SI)
    requires tr(i, r),
    ensures #[trigger] at(i, SP::Eps(None), r) {}
pub broadcast proof fn b_at_opl(c: MOp, a: SI, b: SI, q: SP, a2: SI)
    requires at(a, q, a2),
    ensures #[trigger] at(SI::Op(c, Box::new(a), Box::new(b)), SP::Left(Box::new(q)), SI::Op(c, Box::new(a2), Box::new(b))) {}
pub broadcast proof fn b_at_opr(c: MOp, a: SI, b: SI, q: SP, b2: SI)
    requires at(b, q, b2),
    ensures #[trigger] at(SI::Op(c, Box::new(a), Box::new(b)), SP::Right(Box::new(q)), SI::Op(c, Box::new(a), Box::new(b2))) {}
pub broadcast proof fn b_at_altl(a: SI, b: SI, q: SP, a2: SI)
    requires at(a, q, a2),
    ensures #[trigger] at(SI::Alt(Box::new(a), Box::new(b)), SP::Left(Box::new(q)), SI::Alt(Box::new(a2), Box::new(b))) {}
pub broadcast proof fn b_at_altr(a: SI, b: SI, q: SP, b2: SI)
    requires at(b, q, b2),
    ensures #[trigger] at(SI::Alt(Box::new(a), Box::new(b)), SP::Right(Box::new(q)), SI::Alt(Box::new(a), Box::new(b2))) {}
pub broadcast proof fn b_at_loop(k: LoopKind, a: SI, q: SP, a2: SI)
    requires at(a, q, a2),
    ensures #[trigger] at(SI::Loop(k, Box::new(a)), SP::Left(Box::new(q)), SI::Loop(k, Box::new(a2))) {}

/// the rewritings of a whole term
pub broadcast proof fn b_at_all(i: SI, s: Seq<Interaction>, j: int)
    requires #[trigger] all_tr(i, kseq(s)), 0 <= j < s.len(),
    ensures tr(i, vw(#[trigger] s[j])),
{ assert(tr(i, kseq(s)[j])); }


pub broadcast group g_at {
    b_co_and,
    b_pv_e, b_pv_l, b_pv_r, b_at_e, b_at_opl, b_at_opr, b_at_altl, b_at_altr, b_at_loop, b_at_push, b_at_app, b_at_nil, b_at_get,
}
