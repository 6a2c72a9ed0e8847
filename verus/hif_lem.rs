// ============================================================================================
// What a tree of the grammar of models denotes
// ============================================================================================
/// the first n names are different lifelines
pub open spec fn d_lfs(g: GeneralContext, s: Seq<PT>, n: int) -> Option<Seq<usize>>
    decreases n,
{
    if n <= 0 { Some(Seq::empty()) } else {
        match (d_lfs(g, s, n - 1), lfid(g, s[n - 1])) {
            (Some(v), Some(k)) => if v.contains(k) { None } else { Some(v.push(k)) },
            _ => None,
        }
    }
}
/// a name is a lifeline or else a gate
pub open spec fn d_tg(g: GeneralContext, t: PT) -> Option<EmissionTargetRef> {
    match lfid(g, t) {
        Some(k) => Some(EmissionTargetRef::Lifeline(k)),
        None => match gtid(g, t) { Some(k) => Some(EmissionTargetRef::Gate(k)), None => None },
    }
}
pub open spec fn d_tgs(g: GeneralContext, s: Seq<PT>, n: int) -> Option<Seq<EmissionTargetRef>>
    decreases n,
{
    if n <= 0 { Some(Seq::empty()) } else {
        match (d_tgs(g, s, n - 1), d_tg(g, s[n - 1])) {
            (Some(v), Some(k)) => if v.contains(k) { None } else { Some(v.push(k)) },
            _ => None,
        }
    }
}
/// targets of a reception
pub open spec fn d_rcp(g: GeneralContext, t: PT) -> Option<Seq<usize>> {
    let c = t.kids[0];
    if c.rule is HIBOU_LABEL { match lfid(g, c) { Some(k) => Some(seq![k]), None => None } }
    else if c.rule is HIBOU_LABEL_LIST { d_lfs(g, c.kids, c.kids.len() as int) }
    else { Some(Seq::empty()) }
}
/// targets of an emission
pub open spec fn d_trg(g: GeneralContext, t: PT) -> Option<Seq<EmissionTargetRef>> {
    let c = t.kids[0];
    if c.rule is HIBOU_LABEL { match d_tg(g, c) { Some(k) => Some(seq![k]), None => None } }
    else if c.rule is HIBOU_LABEL_LIST { d_tgs(g, c.kids, c.kids.len() as int) }
    else { Some(Seq::empty()) }
}
/// synchronous or not, and message
pub open spec fn d_cnt(g: GeneralContext, t: PT) -> Option<(bool, usize)> {
    let c = t.kids[0];
    if c.rule is HIBOU_LABEL { match msid(g, c) { Some(k) => Some((false, k)), None => None } }
    else { match msid(g, t.kids[1]) { Some(k) => Some((c.rule is COMM_SYNCH, k)), None => None } }
}
pub open spec fn d_act(g: GeneralContext, ks: Seq<PT>) -> Option<SI> {
    if ks[0].rule is SD_COMMUNICATION_ORIGIN {
        match d_tg(g, ks[0].kids[0]) {
            None => None,
            Some(EmissionTargetRef::Lifeline(l)) => match (d_cnt(g, ks[1]), d_trg(g, ks[2])) {
                (Some(c), Some(v)) => Some(SI::Em(l, c.1, c.0, v)),
                _ => None,
            },
            Some(EmissionTargetRef::Gate(l)) => match (d_cnt(g, ks[1]), d_rcp(g, ks[2])) {
                (Some(c), Some(v)) => Some(SI::Rec(Some(l), c.1, c.0, v)),
                _ => None,
            },
        }
    } else {
        match (d_cnt(g, ks[0]), d_rcp(g, ks[1])) {
            (Some(c), Some(v)) => Some(SI::Rec(None, c.1, c.0, v)),
            _ => None,
        }
    }
}
pub enum NOp { Strict, Seq, Par, Alt, And, CoReg(Seq<usize>), Sync(ISet<TraceAction>) }
/// some list of the actions of a set
pub uninterp spec fn canon_acts(s: ISet<TraceAction>) -> Seq<TraceAction>;
pub open spec fn nk(op: NOp, a: SI, b: SI) -> SI {
    match op {
        NOp::Strict => SI::Op(MOp::Strict, Box::new(a), Box::new(b)),
        NOp::Seq => SI::Op(MOp::Seq, Box::new(a), Box::new(b)),
        NOp::Par => SI::Op(MOp::Par, Box::new(a), Box::new(b)),
        NOp::CoReg(c) => SI::Op(MOp::CoReg(c), Box::new(a), Box::new(b)),
        NOp::Sync(s) => SI::Op(MOp::Sync(canon_acts(s)), Box::new(a), Box::new(b)),
        NOp::Alt => SI::Alt(Box::new(a), Box::new(b)),
        NOp::And => SI::And(Box::new(a), Box::new(b)),
    }
}
/// op(v0, op(v1, ..))
pub open spec fn nfold(op: NOp, v: Seq<SI>) -> SI
    decreases v.len(),
{
    if v.len() == 0 { SI::Empty } else if v.len() == 1 { v[0] } else { nk(op, v[0], nfold(op, v.skip(1))) }
}
/// the order of the actions of a synchronised product is forgotten
pub open spec fn nrm(i: SI) -> SI
    decreases i,
{
    match i {
        SI::Op(op, a, b) => nk(nop(op), nrm(*a), nrm(*b)),
        SI::Alt(a, b) => nk(NOp::Alt, nrm(*a), nrm(*b)),
        SI::And(a, b) => nk(NOp::And, nrm(*a), nrm(*b)),
        SI::Loop(k, a) => SI::Loop(k, Box::new(nrm(*a))),
        _ => i,
    }
}
pub open spec fn nop(op: MOp) -> NOp {
    match op {
        MOp::Strict => NOp::Strict, MOp::Seq => NOp::Seq, MOp::Par => NOp::Par,
        MOp::CoReg(c) => NOp::CoReg(c), MOp::Sync(s) => NOp::Sync(sset(s)),
    }
}
pub open spec fn nvw(i: Interaction) -> SI { nrm(vw(i)) }
pub open spec fn nvs(s: Seq<Interaction>) -> Seq<SI> { Seq::new(s.len(), |j: int| nvw(s[j])) }
pub open spec fn kop(k: BinaryOperatorKind) -> NOp {
    match k {
        BinaryOperatorKind::Strict => NOp::Strict, BinaryOperatorKind::Seq => NOp::Seq, BinaryOperatorKind::Par => NOp::Par, BinaryOperatorKind::Alt => NOp::Alt,
        BinaryOperatorKind::And => NOp::And, BinaryOperatorKind::CoReg(c) => NOp::CoReg(c@), BinaryOperatorKind::Sync(s) => NOp::Sync(sset(s@)),
    }
}
pub open spec fn d_loop(t: PT) -> LoopKind {
    if t.kids[0].rule is SD_LOOP_KIND_S { LoopKind::SStrictSeq } else if t.kids[0].rule is SD_LOOP_KIND_H { LoopKind::HHeadFirstWS }
    else if t.kids[0].rule is SD_LOOP_KIND_W { LoopKind::WWeakSeq } else { LoopKind::PInterleaving }
}
pub open spec fn dn(op: NOp, l: Option<Seq<SI>>) -> Option<SI> { match l { Some(v) => Some(nfold(op, v)), None => None } }
/// the interaction written as t
pub open spec fn den(g: GeneralContext, t: PT) -> Option<SI>
    decreases t, 1int,
{
    if t.kids.len() == 0 { None } else {
        let c = t.kids[0];
        let ks = c.kids;
        let n = ks.len() as int;
        match c.rule {
            Rule::SD_EMPTY_INTERACTION => Some(SI::Empty),
            Rule::SD_COMMUNICATION_ACTION => d_act(g, ks),
            Rule::SD_STRICT_INT => dn(NOp::Strict, d_list(g, ks, 1, n)),
            Rule::SD_SEQ_INT => dn(NOp::Seq, d_list(g, ks, 1, n)),
            Rule::SD_ALT_INT => dn(NOp::Alt, d_list(g, ks, 1, n)),
            Rule::SD_PAR_INT => dn(NOp::Par, d_list(g, ks, 1, n)),
            Rule::SD_AND_INT => dn(NOp::And, d_list(g, ks, 1, n)),
            Rule::SD_COREG_INT => match d_lfs(g, ks[1].kids, ks[1].kids.len() as int) { Some(v) => dn(NOp::CoReg(v), d_list(g, ks, 2, n)), None => None },
            Rule::SD_SYNC_INT => match d_sync(g, ks[1]) { Some(v) => dn(NOp::Sync(v), d_list(g, ks, 2, n)), None => None },
            Rule::SD_LOOP_INT => if n < 2 { None } else { match den(g, ks[1]) { Some(i) => Some(SI::Loop(d_loop(ks[0]), Box::new(i))), None => None } },
            _ => None,
        }
    }
}
/// what s[a..b] denote
pub open spec fn d_list(g: GeneralContext, s: Seq<PT>, a: int, b: int) -> Option<Seq<SI>>
    decreases s, b,
{
    if b <= a || a < 0 || b > s.len() { Some(Seq::empty()) } else {
        match (d_list(g, s, a, b - 1), den(g, s[b - 1])) { (Some(v), Some(i)) => Some(v.push(i)), _ => None }
    }
}
pub proof fn lem_none(g: GeneralContext, s: Seq<PT>, a: int, b: int, c: int)
    requires 0 <= a <= b <= c <= s.len(), d_list(g, s, a, b) is None,
    ensures d_list(g, s, a, c) is None,
    decreases c - b,
{
    if b < c { assert(d_list(g, s, a, b + 1) is None); lem_none(g, s, a, b + 1, c); }
}
pub proof fn lem_lfs_none(g: GeneralContext, s: Seq<PT>, b: int, c: int)
    requires 0 <= b <= c <= s.len(), d_lfs(g, s, b) is None,
    ensures d_lfs(g, s, c) is None,
    decreases c - b,
{
    if b < c { assert(d_lfs(g, s, b + 1) is None); lem_lfs_none(g, s, b + 1, c); }
}
pub proof fn lem_tgs_none(g: GeneralContext, s: Seq<PT>, b: int, c: int)
    requires 0 <= b <= c <= s.len(), d_tgs(g, s, b) is None,
    ensures d_tgs(g, s, c) is None,
    decreases c - b,
{
    if b < c { assert(d_tgs(g, s, b + 1) is None); lem_tgs_none(g, s, b + 1, c); }
}
/// the parser of models
pub struct HifParser { pub dummy: u8 }
impl HifParser {
    #[verifier::external_body]
    pub fn parse(r: Rule, s: &str) -> (p: Result<Pairs<Rule>, PErr>)
        ensures p is Ok ==> p->Ok_0.pos() == 0 && parsed(r, s@, trees(p->Ok_0.all())) && (forall|j: int| 0 <= j < p->Ok_0.all().len() ==> wft((#[trigger] p->Ok_0.all()[j]).view()))
                && (r is HIF_PEST_FILE ==> top_HIF_PEST_FILE(trees(p->Ok_0.all()))),
            p is Err ==> refused(r, s@),
    { unimplemented!() }
}
/// THEOREM (reading): what is read from s is what its tree denotes, or else s has no tree, or its tree denotes nothing
pub open spec fn reads(g: GeneralContext, s: Seq<char>, r: Option<SI>) -> bool {
    ||| r is None && refused(Rule::HIF_PEST_FILE, s)
    ||| exists|t: Seq<PT>| #[trigger] parsed(Rule::HIF_PEST_FILE, s, t) && den(g, t[0]) == r
}

pub open spec fn ms_set(m: vstd::multiset::Multiset<TraceAction>) -> ISet<TraceAction> { ISet::new(|x: TraceAction| m.count(x) > 0) }
pub broadcast proof fn b_msset(a: Seq<TraceAction>)
    ensures #[trigger] sset(a) == ms_set(a.to_multiset()),
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    assert(sset(a) =~= ms_set(a.to_multiset()));
}
pub broadcast proof fn b_kset(a: Seq<TraceAction>)
    ensures #[trigger] kset(a) == sset(a),
{
    assert forall|x: TraceAction| kset(a).contains(x) == sset(a).contains(x) by {
        if sset(a).contains(x) { let j = choose|j: int| 0 <= j < a.len() && a[j] == x; assert(a[j].k() == x); }
    }
    assert(kset(a) =~= sset(a));
}
