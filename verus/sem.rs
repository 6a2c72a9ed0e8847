// ============================================================================================
// Denotational trace semantics of interactions (specification side; ghost code only).
// `TraceAction`, `EmissionTargetRef`, `LoopKind` are the datatypes extracted from /repo.
// ============================================================================================

pub open spec fn sset<A>(s: Seq<A>) -> ISet<A> {
    ISet::new(|x: A| s.contains(x))
}

pub type Ev = ISet<TraceAction>;      // one observable step: a set of simultaneous actions
pub type Tr = Seq<Ev>;               // a trace

pub enum MOp {
    Strict,
    Seq,
    CoReg(Seq<usize>),
    Par,
    Sync(Seq<TraceAction>),
}

/// abstract view of an interaction term
pub enum SI {
    Empty,
    Em(usize, usize, bool, Seq<EmissionTargetRef>),         // origin, message, synchronous?, targets
    Rec(Option<usize>, usize, bool, Seq<usize>),            // origin gate, message, synchronous?, recipients
    Op(MOp, Box<SI>, Box<SI>),
    Alt(Box<SI>, Box<SI>),
    Loop(LoopKind, Box<SI>),
    And(Box<SI>, Box<SI>),
}

/// abstract view of a position
pub enum SP {
    Eps(Option<usize>),
    Left(Box<SP>),
    Right(Box<SP>),
    Both(Box<SP>, Box<SP>),
}

pub open spec fn conf(i: SI) -> bool
    decreases i,
{
    match i {
        SI::And(_, _) => false,
        SI::Rec(_, _, _, rs) => 0 < rs.len() <= usize::MAX,
        SI::Op(_, a, b) => conf(*a) && conf(*b),
        SI::Alt(a, b) => conf(*a) && conf(*b),
        SI::Loop(_, a) => conf(*a),
        _ => true,
    }
}

pub open spec fn em_act(lf: usize, ms: usize) -> TraceAction {
    TraceAction { lf_id: lf, act_kind: TraceActionKind::Emission, ms_id: ms }
}

pub open spec fn rc_act(lf: usize, ms: usize) -> TraceAction {
    TraceAction { lf_id: lf, act_kind: TraceActionKind::Reception, ms_id: ms }
}

/// the lifelines among emission targets, in order
pub open spec fn lf_targets(tg: Seq<EmissionTargetRef>) -> Seq<usize>
    decreases tg.len(),
{
    if tg.len() == 0 {
        Seq::empty()
    } else {
        match tg.last() {
            EmissionTargetRef::Lifeline(l) => lf_targets(tg.drop_last()).push(l),
            _ => lf_targets(tg.drop_last()),
        }
    }
}

/// all the actions of a synchronous (atomic) communication
pub open spec fn rec_event(ms: usize, rs: Seq<usize>) -> Ev {
    ISet::new(|a: TraceAction| a.ms_id == ms && a.act_kind is Reception && rs.contains(a.lf_id))
}

pub open spec fn em_event(o: usize, ms: usize, tg: Seq<EmissionTargetRef>) -> Ev {
    rec_event(ms, lf_targets(tg)).insert(em_act(o, ms))
}

/// receptions by each of `rs`, in any order, one at a time
pub open spec fn recs(ms: usize, rs: Seq<usize>, t: Tr) -> bool
    decreases rs.len(),
{
    if rs.len() == 0 {
        t.len() == 0
    } else {
        t.len() > 0 && exists|k: int| #![trigger rs.remove(k)]
            0 <= k < rs.len() && t[0] == ISet::<TraceAction>::empty().insert(rc_act(rs[k], ms)) && recs(ms, rs.remove(k), t.drop_first())
    }
}

pub open spec fn ev_conflict(x: Ev, y: Ev, cr: Seq<usize>) -> bool {
    exists|a: TraceAction, b: TraceAction| #![trigger x.contains(a), y.contains(b)]
        x.contains(a) && y.contains(b) && a.lf_id == b.lf_id && !cr.contains(a.lf_id)
}

pub open spec fn lfs(e: Ev) -> ISet<usize> {
    ISet::new(|l: usize| exists|a: TraceAction| #[trigger] e.contains(a) && a.lf_id == l)
}

pub open spec fn av_ev(e: Ev, l: ISet<usize>) -> bool {
    forall|a: TraceAction| #[trigger] e.contains(a) ==> !l.contains(a.lf_id)
}

/// trace t has no action on the lifelines of l
pub open spec fn avt(t: Tr, l: ISet<usize>) -> bool {
    forall|k: int| 0 <= k < t.len() ==> av_ev(#[trigger] t[k], l)
}

/// the lifelines on which an event of the right operand must wait for the left operand
pub open spec fn need(c: MOp, e: Ev) -> ISet<usize> {
    match c {
        MOp::Seq => lfs(e),
        MOp::CoReg(cr) => lfs(e).difference(sset(cr)),
        _ => ISet::empty(),
    }
}

/// may event e of the right operand occur while t1 remains to be executed on the left ?
pub open spec fn okr(c: MOp, t1: Tr, e: Ev) -> bool {
    match c {
        MOp::Strict => t1.len() == 0,
        _ => avt(t1, need(c, e)),
    }
}

pub open spec fn sact(c: MOp, e: Ev) -> Ev {
    match c {
        MOp::Sync(s) => e.intersect(sset(s)),
        _ => ISet::empty(),
    }
}

/// may an event occur without a matching event of the other operand ?
pub open spec fn solo(c: MOp, e: Ev) -> bool {
    sact(c, e) =~= ISet::<TraceAction>::empty()
}

/// t is a composition of t1 and t2 according to operator c
pub open spec fn mrg(c: MOp, t1: Tr, t2: Tr, t: Tr) -> bool
    decreases t.len(),
{
    if t.len() == 0 {
        t1.len() == 0 && t2.len() == 0
    } else {
        ||| (t1.len() > 0 && t1[0] == t[0] && solo(c, t[0]) && mrg(c, t1.drop_first(), t2, t.drop_first()))
        ||| (t2.len() > 0 && t2[0] == t[0] && solo(c, t[0]) && okr(c, t1, t[0]) && mrg(c, t1, t2.drop_first(), t.drop_first()))
        ||| (t1.len() > 0 && t2.len() > 0 && t[0] == t1[0].union(t2[0]) && sact(c, t1[0]) == sact(c, t2[0]) && !solo(c, t1[0])
                && mrg(c, t1.drop_first(), t2.drop_first(), t.drop_first()))
    }
}

pub open spec fn lop(k: LoopKind) -> MOp {
    match k {
        LoopKind::SStrictSeq => MOp::Strict,
        LoopKind::HHeadFirstWS => MOp::Seq,
        LoopKind::WWeakSeq => MOp::Seq,
        LoopKind::PInterleaving => MOp::Par,
    }
}

/// composition of one loop iteration t1 with the following ones t2; head-first loops additionally require the
/// first action to be taken in the first iteration
pub open spec fn lmrg(k: LoopKind, t1: Tr, t2: Tr, t: Tr) -> bool {
    &&& mrg(lop(k), t1, t2, t)
    &&& k is HHeadFirstWS && t.len() > 0 ==> t1.len() > 0 && t1[0] == t[0] && mrg(MOp::Seq, t1.drop_first(), t2, t.drop_first())
}

pub open spec fn tn(n: nat) -> bool {
    true
}

pub open spec fn sem(i: SI, t: Tr) -> bool
    decreases i, 0nat,
{
    match i {
        SI::Empty => t.len() == 0,
        SI::Em(o, ms, sy, tg) => {
            if sy {
                t.len() == 1 && t[0] == em_event(o, ms, tg)
            } else {
                t.len() > 0 && t[0] == ISet::<TraceAction>::empty().insert(em_act(o, ms)) && recs(ms, lf_targets(tg), t.drop_first())
            }
        },
        SI::Rec(_, ms, sy, rs) => {
            if sy {
                t.len() == 1 && t[0] == rec_event(ms, rs)
            } else {
                recs(ms, rs, t)
            }
        },
        SI::Op(c, a, b) => exists|t1: Tr, t2: Tr| #![trigger mrg(c, t1, t2, t)] sem(*a, t1) && sem(*b, t2) && mrg(c, t1, t2, t),
        SI::Alt(a, b) => sem(*a, t) || sem(*b, t),
        SI::Loop(k, a) => exists|n: nat| #[trigger] tn(n) && pw(k, *a, n, t),
        SI::And(_, _) => false,
    }
}

/// n iterations of a loop
pub open spec fn pw(k: LoopKind, i: SI, n: nat, t: Tr) -> bool
    decreases i, n + 1,
{
    if n == 0 {
        t.len() == 0
    } else {
        exists|t1: Tr, t2: Tr| #![trigger lmrg(k, t1, t2, t)] sem(i, t1) && pw(k, i, (n - 1) as nat, t2) && lmrg(k, t1, t2, t)
    }
}

/// same language
#[verifier::opaque]
pub open spec fn semeq(i: SI, j: SI) -> bool {
    forall|t: Tr| sem(i, t) == #[trigger] sem(j, t)
}

// ---------------------------------------------------------------- structural characterizations

pub open spec fn nullable(i: SI) -> bool
    decreases i,
{
    match i {
        SI::Empty => true,
        SI::Em(_, _, _, _) => false,
        SI::Rec(_, _, _, rs) => rs.len() == 0,
        SI::Op(_, a, b) => nullable(*a) && nullable(*b),
        SI::Alt(a, b) => nullable(*a) || nullable(*b),
        SI::Loop(_, _) => true,
        SI::And(_, _) => false,
    }
}

pub open spec fn em_lfs(o: usize, tg: Seq<EmissionTargetRef>) -> ISet<usize> {
    sset(lf_targets(tg)).insert(o)
}

pub open spec fn av(i: SI, l: ISet<usize>) -> bool
    decreases i,
{
    match i {
        SI::Empty => true,
        SI::Em(o, _, _, tg) => em_lfs(o, tg).disjoint(l),
        SI::Rec(_, _, _, rs) => sset(rs).disjoint(l),
        SI::Op(_, a, b) => av(*a, l) && av(*b, l),
        SI::Alt(a, b) => av(*a, l) || av(*b, l),
        SI::Loop(_, _) => true,
        SI::And(_, _) => false,
    }
}

pub open spec fn inv(i: SI) -> ISet<usize>
    decreases i,
{
    match i {
        SI::Empty => ISet::empty(),
        SI::Em(o, _, _, tg) => em_lfs(o, tg),
        SI::Rec(_, _, _, rs) => sset(rs),
        SI::Op(_, a, b) => inv(*a).union(inv(*b)),
        SI::Alt(a, b) => inv(*a).union(inv(*b)),
        SI::Loop(_, a) => inv(*a),
        SI::And(a, b) => ISet::empty(),
    }
}

/// every action occurring in the term
pub open spec fn acts(i: SI) -> ISet<TraceAction>
    decreases i,
{
    match i {
        SI::Empty => ISet::empty(),
        SI::Em(o, ms, _, tg) => em_event(o, ms, tg),
        SI::Rec(_, ms, _, rs) => rec_event(ms, rs),
        SI::Op(_, a, b) => acts(*a).union(acts(*b)),
        SI::Alt(a, b) => acts(*a).union(acts(*b)),
        SI::Loop(_, a) => acts(*a),
        SI::And(a, b) => ISet::empty(),
    }
}

/// every action occurring in the term, not under a loop
pub open spec fn acts_ol(i: SI) -> ISet<TraceAction>
    decreases i,
{
    match i {
        SI::Op(_, a, b) => acts_ol(*a).union(acts_ol(*b)),
        SI::Alt(a, b) => acts_ol(*a).union(acts_ol(*b)),
        SI::Loop(_, a) => ISet::empty(),
        _ => acts(i),
    }
}

/// `r` accepts exactly the traces of `i` without action on the lifelines of `l`
#[verifier::opaque]
pub open spec fn pr(i: SI, l: ISet<usize>, r: SI) -> bool {
    forall|t: Tr| #[trigger] sem(r, t) == (sem(i, t) && avt(t, l))
}

/// nested loops which may be merged
pub open spec fn loop_merge_ok(outer: LoopKind, inner: LoopKind) -> bool {
    outer is HHeadFirstWS ==> inner is PInterleaving || inner is WWeakSeq
}

/// nested loop depth
pub open spec fn nld(i: SI) -> nat
    decreases i,
{
    match i {
        SI::Op(_, a, b) => if nld(*a) >= nld(*b) { nld(*a) } else { nld(*b) },
        SI::Alt(a, b) => if nld(*a) >= nld(*b) { nld(*a) } else { nld(*b) },
        SI::Loop(_, a) => 1 + nld(*a),
        _ => 0,
    }
}

/// no synchronized product
pub open spec fn nosync(i: SI) -> bool
    decreases i,
{
    match i {
        SI::Op(c, a, b) => !(c is Sync) && nosync(*a) && nosync(*b),
        SI::Alt(a, b) => nosync(*a) && nosync(*b),
        SI::Loop(_, a) => nosync(*a),
        SI::And(_, _) => false,
        _ => true,
    }
}

/// no head-first loop
pub open spec fn nohf(i: SI) -> bool
    decreases i,
{
    match i {
        SI::Op(_, a, b) => nohf(*a) && nohf(*b),
        SI::Alt(a, b) => nohf(*a) && nohf(*b),
        SI::Loop(k, a) => !(k is HHeadFirstWS) && nohf(*a),
        _ => true,
    }
}

/// r has no lifelines, loop depth, synchronized products or head-first loops beyond those of i
#[verifier::opaque]
pub open spec fn ivs(i: SI, r: SI) -> bool {
    inv(r).subset_of(inv(i)) && nld(r) <= nld(i) && (nosync(i) ==> nosync(r)) && (nohf(i) ==> nohf(r))
}
