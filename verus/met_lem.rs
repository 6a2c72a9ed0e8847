// ============================================================================================
// Measures of interaction terms
// ============================================================================================
impl VxK for SymbolKind { type K = SymbolKind; open spec fn k(&self) -> SymbolKind { *self } }
/// kind of the symbol at the root of the term
pub open spec fn kd(i: SI) -> SymbolKind {
    match i {
        SI::Empty => SymbolKind::Empty,
        SI::Em(..) => SymbolKind::Action,
        SI::Rec(..) => SymbolKind::Action,
        SI::Op(o, _, _) => match o {
            MOp::Strict => SymbolKind::Strict,
            MOp::Seq => SymbolKind::Seq,
            MOp::Par => SymbolKind::Par,
            MOp::CoReg(_) => SymbolKind::CoReg,
            MOp::Sync(_) => SymbolKind::Sync,
        },
        SI::Alt(..) => SymbolKind::Alt,
        SI::Loop(k, _) => if k is SStrictSeq { SymbolKind::LoopS } else { SymbolKind::LoopOther },
        SI::And(..) => SymbolKind::And,
    }
}
/// number of symbols of kind k
pub open spec fn cnt(i: SI, k: SymbolKind) -> nat
    decreases i,
{
    (if kd(i) == k { 1nat } else { 0 }) + match i {
        SI::Op(_, a, b) => cnt(*a, k) + cnt(*b, k),
        SI::Alt(a, b) => cnt(*a, k) + cnt(*b, k),
        SI::And(a, b) => cnt(*a, k) + cnt(*b, k),
        SI::Loop(_, a) => cnt(*a, k),
        _ => 0,
    }
}
/// number of symbols
pub open spec fn nsym(i: SI) -> nat
    decreases i,
{
    1 + match i {
        SI::Op(_, a, b) => nsym(*a) + nsym(*b),
        SI::Alt(a, b) => nsym(*a) + nsym(*b),
        SI::And(a, b) => nsym(*a) + nsym(*b),
        SI::Loop(_, a) => nsym(*a),
        _ => 0,
    }
}
/// number of operators above the deepest leaf
pub open spec fn dep(i: SI) -> nat
    decreases i,
{
    match i {
        SI::Op(_, a, b) => 1 + mx(dep(*a), dep(*b)),
        SI::Alt(a, b) => 1 + mx(dep(*a), dep(*b)),
        SI::And(a, b) => 1 + mx(dep(*a), dep(*b)),
        SI::Loop(_, a) => 1 + dep(*a),
        _ => 0,
    }
}
pub open spec fn mx(a: nat, b: nat) -> nat { if a >= b { a } else { b } }
/// number of loops above the leaf below most loops, whatever the operators
pub open spec fn lpd(i: SI) -> nat
    decreases i,
{
    match i {
        SI::Op(_, a, b) => mx(lpd(*a), lpd(*b)),
        SI::Alt(a, b) => mx(lpd(*a), lpd(*b)),
        SI::And(a, b) => mx(lpd(*a), lpd(*b)),
        SI::Loop(_, a) => 1 + lpd(*a),
        _ => 0,
    }
}
/// lifelines of the emissions and receptions
pub open spec fn lvs(i: SI) -> ISet<usize>
    decreases i,
{
    match i {
        SI::Op(_, a, b) => lvs(*a).union(lvs(*b)),
        SI::Alt(a, b) => lvs(*a).union(lvs(*b)),
        SI::And(a, b) => lvs(*a).union(lvs(*b)),
        SI::Loop(_, a) => lvs(*a),
        SI::Em(o, _, _, tg) => em_lfs(o, tg),
        SI::Rec(_, _, _, rs) => sset(rs),
        SI::Empty => ISet::empty(),
    }
}
/// number of emissions and receptions observed when every action is executed once
pub open spec fn nact(i: SI, out: bool) -> nat
    decreases i,
{
    match i {
        SI::Op(_, a, b) => nact(*a, out) + nact(*b, out),
        SI::Alt(a, b) => nact(*a, out) + nact(*b, out),
        SI::And(a, b) => nact(*a, out) + nact(*b, out),
        SI::Loop(_, a) => if out { 0 } else { nact(*a, out) },
        SI::Em(o, m, _, t) => em_event(o, m, t).len(),
        SI::Rec(_, m, _, rs) => rec_event(m, rs).len(),
        SI::Empty => 0,
    }
}
pub proof fn l_lp(i: SI)
    ensures cnt(i, SymbolKind::LoopS) + cnt(i, SymbolKind::LoopOther) <= nsym(i),
        lpd(i) < nsym(i), dep(i) < nsym(i), conf(i) ==> lpd(i) == nld(i) && lvs(i) == inv(i),
        forall|k: SymbolKind| #[trigger] cnt(i, k) <= nsym(i),
    decreases i,
{
    match i {
        SI::Op(_, a, b) => { l_lp(*a); l_lp(*b); },
        SI::Alt(a, b) => { l_lp(*a); l_lp(*b); },
        SI::And(a, b) => { l_lp(*a); l_lp(*b); },
        SI::Loop(_, a) => { l_lp(*a); },
        _ => {}
    }
    assert forall|k: SymbolKind| #[trigger] cnt(i, k) <= nsym(i) by {
        match i {
            SI::Op(_, a, b) => { assert(cnt(*a, k) <= nsym(*a) && cnt(*b, k) <= nsym(*b)); },
            SI::Alt(a, b) => { assert(cnt(*a, k) <= nsym(*a) && cnt(*b, k) <= nsym(*b)); },
            SI::And(a, b) => { assert(cnt(*a, k) <= nsym(*a) && cnt(*b, k) <= nsym(*b)); },
            SI::Loop(_, a) => { assert(cnt(*a, k) <= nsym(*a)); },
            _ => {}
        }
    }
}
pub open spec fn metok(m: InteractionMetrics) -> bool { forall|k: SymbolKind| #[trigger] m.symbols@.contains_key(k) }
/// the measures of i, at depth d and below l loops, are added to those of m
pub open spec fn extr(m: InteractionMetrics, m2: InteractionMetrics, i: SI, d: nat, l: nat) -> bool {
    &&& forall|k: SymbolKind| (#[trigger] m2.symbols@[k]) == m.symbols@[k] + cnt(i, k)
    &&& m2.depth == mx(m.depth as nat, d + dep(i))
    &&& m2.max_nested_loop_depth == mx(m.max_nested_loop_depth as nat, l + lpd(i))
    &&& m2.lifelines@ =~= m.lifelines@.union(lvs(i))
}
pub proof fn l_lp_kids(i: SI)
    ensures match i {
        SI::Op(_, a, b) => l_lpk(*a) && l_lpk(*b),
        SI::Alt(a, b) => l_lpk(*a) && l_lpk(*b),
        SI::And(a, b) => l_lpk(*a) && l_lpk(*b),
        SI::Loop(_, a) => l_lpk(*a),
        _ => true,
    },
{
    match i {
        SI::Op(_, a, b) => { l_lp(*a); l_lp(*b); },
        SI::Alt(a, b) => { l_lp(*a); l_lp(*b); },
        SI::And(a, b) => { l_lp(*a); l_lp(*b); },
        SI::Loop(_, a) => { l_lp(*a); },
        _ => {}
    }
}
pub open spec fn l_lpk(a: SI) -> bool { lpd(a) < nsym(a) && dep(a) < nsym(a) && forall|k: SymbolKind| #[trigger] cnt(a, k) <= nsym(a) }
impl SymbolKind {
    /// derived (strum): every variant
    #[verifier::external_body]
    pub fn iter() -> (r: VxIter<SymbolKind>)
        ensures r.pos() == 0, forall|k: SymbolKind| #[trigger] r.all().contains(k),
    { unimplemented!() }
}
