use std::cmp::Ordering;
// ============================================================================================
// Order on terms
// ============================================================================================
pub open spec fn ucmp(a: int, b: int) -> Ordering { if a < b { Ordering::Less } else if a > b { Ordering::Greater } else { Ordering::Equal } }
pub open spec fn then_(a: Ordering, b: Ordering) -> Ordering { if a is Equal { b } else { a } }
pub open spec fn rev(a: Ordering) -> Ordering { match a { Ordering::Less => Ordering::Greater, Ordering::Greater => Ordering::Less, Ordering::Equal => Ordering::Equal } }
/// f is a strict total order
pub open spec fn laws<T>(f: spec_fn(T, T) -> Ordering) -> bool {
    &&& forall|a: T, b: T| (#[trigger] f(a, b) is Equal) <==> a == b
    &&& forall|a: T, b: T| #[trigger] f(a, b) == rev(f(b, a))
    &&& forall|a: T, b: T, c: T| #[trigger] f(a, b) is Less && #[trigger] f(b, c) is Less ==> f(a, c) is Less
}
/// element by element, a prefix first
pub open spec fn seqcmp<T>(a: Seq<T>, b: Seq<T>, f: spec_fn(T, T) -> Ordering) -> Ordering
    decreases a.len(),
{
    if a.len() == 0 { if b.len() == 0 { Ordering::Equal } else { Ordering::Less } }
    else if b.len() == 0 { Ordering::Greater }
    else { then_(f(a[0], b[0]), seqcmp(a.drop_first(), b.drop_first(), f)) }
}
pub open spec fn us(a: usize, b: usize) -> Ordering { ucmp(a as int, b as int) }
pub open spec fn trc(a: EmissionTargetRef, b: EmissionTargetRef) -> Ordering {
    match (a, b) {
        (EmissionTargetRef::Lifeline(x), EmissionTargetRef::Lifeline(y)) => us(x, y),
        (EmissionTargetRef::Lifeline(_), EmissionTargetRef::Gate(_)) => Ordering::Less,
        (EmissionTargetRef::Gate(_), EmissionTargetRef::Lifeline(_)) => Ordering::Greater,
        (EmissionTargetRef::Gate(x), EmissionTargetRef::Gate(y)) => us(x, y),
    }
}
pub open spec fn kdn(a: TraceActionKind) -> int { if a is Reception { 0 } else { 1 } }
pub open spec fn tac(a: TraceAction, b: TraceAction) -> Ordering {
    then_(us(a.lf_id, b.lf_id), then_(ucmp(kdn(a.act_kind), kdn(b.act_kind)), us(a.ms_id, b.ms_id)))
}
pub open spec fn optc(a: Option<usize>, b: Option<usize>) -> Ordering {
    match (a, b) {
        (None, None) => Ordering::Equal,
        (None, Some(_)) => Ordering::Less,
        (Some(_), None) => Ordering::Greater,
        (Some(x), Some(y)) => us(x, y),
    }
}
pub open spec fn bcmp(a: bool, b: bool) -> Ordering { ucmp(if a { 1int } else { 0 }, if b { 1int } else { 0 }) }
pub open spec fn rk(i: SI) -> int {
    match i {
        SI::Empty => 0,
        SI::Em(..) => 1,
        SI::Rec(..) => 2,
        SI::Op(o, _, _) => match o { MOp::Par => 3, MOp::CoReg(_) => 4, MOp::Seq => 5, MOp::Strict => 6, MOp::Sync(_) => 9 },
        SI::Alt(..) => 7,
        SI::Loop(..) => 8,
        SI::And(..) => 10,
    }
}
pub open spec fn ocmp(a: MOp, b: MOp) -> Ordering {
    match (a, b) {
        (MOp::CoReg(x), MOp::CoReg(y)) => seqcmp(x, y, f_us()),
        (MOp::Sync(x), MOp::Sync(y)) => seqcmp(x, y, f_ta()),
        _ => Ordering::Equal,
    }
}
pub open spec fn icmp(a: SI, b: SI) -> Ordering
    decreases a,
{
    if rk(a) != rk(b) { ucmp(rk(a), rk(b)) } else {
        match (a, b) {
            (SI::Em(o1, m1, s1, t1), SI::Em(o2, m2, s2, t2)) => then_(us(m1, m2), then_(us(o1, o2), then_(seqcmp(t1, t2, f_tr()), bcmp(s1, s2)))),
            (SI::Rec(g1, m1, s1, t1), SI::Rec(g2, m2, s2, t2)) => then_(us(m1, m2), then_(optc(g1, g2), then_(seqcmp(t1, t2, f_us()), bcmp(s1, s2)))),
            (SI::Op(o1, a1, a2), SI::Op(o2, b1, b2)) => then_(ocmp(o1, o2), then_(icmp(*a1, *b1), icmp(*a2, *b2))),
            (SI::Alt(a1, a2), SI::Alt(b1, b2)) => then_(icmp(*a1, *b1), icmp(*a2, *b2)),
            (SI::And(a1, a2), SI::And(b1, b2)) => then_(icmp(*a1, *b1), icmp(*a2, *b2)),
            (SI::Loop(k1, a1), SI::Loop(k2, b1)) => then_(ucmp(lk_rank(k1) as int, lk_rank(k2) as int), icmp(*a1, *b1)),
            _ => Ordering::Equal,
        }
    }
}
pub proof fn l_seq_eq<T>(a: Seq<T>, b: Seq<T>, f: spec_fn(T, T) -> Ordering)
    requires laws(f),
    ensures seqcmp(a, b, f) is Equal <==> a == b, seqcmp(a, b, f) == rev(seqcmp(b, a, f)),
    decreases a.len(),
{
    if a.len() > 0 && b.len() > 0 {
        l_seq_eq(a.drop_first(), b.drop_first(), f);
        if seqcmp(a, b, f) is Equal { assert(a =~= seq![a[0]] + a.drop_first()); assert(b =~= seq![b[0]] + b.drop_first()); }
    } else if a.len() == 0 && b.len() == 0 { assert(a =~= b); }
}
pub proof fn l_seq_tr<T>(a: Seq<T>, b: Seq<T>, c: Seq<T>, f: spec_fn(T, T) -> Ordering)
    requires laws(f), seqcmp(a, b, f) is Less, seqcmp(b, c, f) is Less,
    ensures seqcmp(a, c, f) is Less,
    decreases a.len(),
{
    if a.len() > 0 && b.len() > 0 && c.len() > 0 {
        if f(a[0], b[0]) is Equal && f(b[0], c[0]) is Equal { l_seq_tr(a.drop_first(), b.drop_first(), c.drop_first(), f); }
    }
}
pub proof fn l_laws()
    ensures laws(f_us()), laws(f_ta()), laws(f_tr()),
{
}
pub proof fn l_icmp_eq(a: SI, b: SI)
    ensures icmp(a, b) is Equal <==> a == b, icmp(a, b) == rev(icmp(b, a)),
    decreases a,
{
    l_laws();
    match (a, b) {
        (SI::Em(o1, m1, s1, t1), SI::Em(o2, m2, s2, t2)) => { l_seq_eq(t1, t2, f_tr()); },
        (SI::Rec(g1, m1, s1, t1), SI::Rec(g2, m2, s2, t2)) => { l_seq_eq(t1, t2, f_us()); },
        (SI::Op(o1, a1, a2), SI::Op(o2, b1, b2)) => {
            l_icmp_eq(*a1, *b1); l_icmp_eq(*a2, *b2);
            match (o1, o2) {
                (MOp::CoReg(x), MOp::CoReg(y)) => { l_seq_eq(x, y, f_us()); },
                (MOp::Sync(x), MOp::Sync(y)) => { l_seq_eq(x, y, f_ta()); },
                _ => {}
            }
        },
        (SI::Alt(a1, a2), SI::Alt(b1, b2)) => { l_icmp_eq(*a1, *b1); l_icmp_eq(*a2, *b2); },
        (SI::And(a1, a2), SI::And(b1, b2)) => { l_icmp_eq(*a1, *b1); l_icmp_eq(*a2, *b2); },
        (SI::Loop(k1, a1), SI::Loop(k2, b1)) => { l_icmp_eq(*a1, *b1); },
        _ => {}
    }
}
/// THEOREM: icmp is a total order consistent with equality
pub proof fn thm_order(a: SI, b: SI, c: SI)
    ensures icmp(a, b) is Equal <==> a == b, icmp(a, b) == rev(icmp(b, a)), icmp(a, b) is Less && icmp(b, c) is Less ==> icmp(a, c) is Less,
    decreases a,
{
    l_icmp_eq(a, b); l_icmp_eq(b, c); l_icmp_eq(a, c);
    l_laws();
    if icmp(a, b) is Less && icmp(b, c) is Less && rk(a) == rk(b) && rk(b) == rk(c) {
        match (a, b, c) {
            (SI::Em(o1, m1, s1, t1), SI::Em(o2, m2, s2, t2), SI::Em(o3, m3, s3, t3)) => { l_seq3(t1, t2, t3, f_tr()); },
            (SI::Rec(g1, m1, s1, t1), SI::Rec(g2, m2, s2, t2), SI::Rec(g3, m3, s3, t3)) => { l_seq3(t1, t2, t3, f_us()); },
            (SI::Op(o1, a1, a2), SI::Op(o2, b1, b2), SI::Op(o3, c1, c2)) => {
                thm_order(*a1, *b1, *c1); thm_order(*a2, *b2, *c2);
                l_icmp_eq(*b1, *c1);
                match (o1, o2, o3) {
                    (MOp::CoReg(x), MOp::CoReg(y), MOp::CoReg(z)) => { l_seq3(x, y, z, f_us()); },
                    (MOp::Sync(x), MOp::Sync(y), MOp::Sync(z)) => { l_seq3(x, y, z, f_ta()); },
                    _ => {}
                }
            },
            (SI::Alt(a1, a2), SI::Alt(b1, b2), SI::Alt(c1, c2)) => { thm_order(*a1, *b1, *c1); thm_order(*a2, *b2, *c2); l_icmp_eq(*b1, *c1); },
            (SI::And(a1, a2), SI::And(b1, b2), SI::And(c1, c2)) => { thm_order(*a1, *b1, *c1); thm_order(*a2, *b2, *c2); l_icmp_eq(*b1, *c1); },
            (SI::Loop(k1, a1), SI::Loop(k2, b1), SI::Loop(k3, c1)) => { thm_order(*a1, *b1, *c1); },
            _ => {}
        }
    }
}
pub proof fn l_seq3<T>(a: Seq<T>, b: Seq<T>, c: Seq<T>, f: spec_fn(T, T) -> Ordering)
    requires laws(f),
    ensures seqcmp(a, b, f) is Less && seqcmp(b, c, f) is Less ==> seqcmp(a, c, f) is Less,
        seqcmp(a, b, f) is Equal <==> a == b, seqcmp(b, c, f) is Equal <==> b == c,
{
    l_seq_eq(a, b, f); l_seq_eq(b, c, f);
    if seqcmp(a, b, f) is Less && seqcmp(b, c, f) is Less { l_seq_tr(a, b, c, f); }
}
/// equal starts do not matter
pub proof fn l_seq_skip<T>(a: Seq<T>, b: Seq<T>, n: nat, f: spec_fn(T, T) -> Ordering)
    requires n <= a.len(), n <= b.len(), forall|j: int| 0 <= j < n ==> f(#[trigger] a[j], b[j]) is Equal,
    ensures seqcmp(a, b, f) == seqcmp(a.skip(n as int), b.skip(n as int), f),
    decreases n,
{
    if n == 0 { assert(a.skip(0) =~= a); assert(b.skip(0) =~= b); }
    else {
        assert(f(a[0], b[0]) is Equal);
        let (a2, b2) = (a.drop_first(), b.drop_first());
        assert forall|j: int| 0 <= j < n - 1 implies f(#[trigger] a2[j], b2[j]) is Equal by { assert(f(a[j + 1], b[j + 1]) is Equal); }
        l_seq_skip(a2, b2, (n - 1) as nat, f);
        assert(a2.skip(n - 1) =~= a.skip(n as int)); assert(b2.skip(n - 1) =~= b.skip(n as int));
    }
}
/// comparisons `<` and `>`, derived for the components of terms
pub trait VxLt: Sized { spec fn c(a: Self, b: Self) -> Ordering; }
#[verifier::external_body]
pub fn vx_lt<T: VxLt>(a: &T, b: &T) -> (r: bool)
    ensures r == (T::c(*a, *b) is Less),
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_gt<T: VxLt>(a: &T, b: &T) -> (r: bool)
    ensures r == (T::c(*a, *b) is Greater),
{ unimplemented!() }
impl VxLt for usize { open spec fn c(a: Self, b: Self) -> Ordering { us(a, b) } }
impl VxLt for TraceAction { open spec fn c(a: Self, b: Self) -> Ordering { tac(a, b) } }
impl VxLt for EmissionTargetRef { open spec fn c(a: Self, b: Self) -> Ordering { trc(a, b) } }
impl VxLt for CommunicationSynchronicity { open spec fn c(a: Self, b: Self) -> Ordering { bcmp(a is Synchronous, b is Synchronous) } }
impl<'a, T: VxLt> VxLt for &'a T { open spec fn c(a: Self, b: Self) -> Ordering { T::c(*a, *b) } }
impl LoopKind {
    /// derived
    #[verifier::external_body]
    pub fn cmp(&self, o: &Self) -> (r: Ordering)
        ensures r == ucmp(lk_rank(*self), lk_rank(*o)),
    { unimplemented!() }
}
pub open spec fn f_us() -> spec_fn(usize, usize) -> Ordering { |x: usize, y: usize| us(x, y) }
pub open spec fn f_ta() -> spec_fn(TraceAction, TraceAction) -> Ordering { |x: TraceAction, y: TraceAction| tac(x, y) }
pub open spec fn f_tr() -> spec_fn(EmissionTargetRef, EmissionTargetRef) -> Ordering { |x: EmissionTargetRef, y: EmissionTargetRef| trc(x, y) }
pub open spec fn eqto<T>(a: Seq<T>, b: Seq<T>, n: int, f: spec_fn(T, T) -> Ordering) -> bool {
    n <= a.len() && n <= b.len() && forall|j: int| 0 <= j < n ==> f(#[trigger] a[j], b[j]) is Equal
}
/// what is left to compare after n elements
pub open spec fn left_(x: Ordering, n: int, la: nat, lb: nat, e: Ordering) -> bool {
    &&& n >= la && n < lb ==> x is Less
    &&& n < la && n >= lb ==> x is Greater
    &&& n >= la && n >= lb ==> x is Equal
    &&& n < la && n < lb && !(e is Equal) ==> x == e
}
pub proof fn l_at<T>(a: Seq<T>, b: Seq<T>, n: int, f: spec_fn(T, T) -> Ordering)
    requires 0 <= n, eqto(a, b, n, f),
    ensures left_(seqcmp(a, b, f), n, a.len(), b.len(), if n < a.len() && n < b.len() { f(a[n], b[n]) } else { Ordering::Equal }),
{
    l_seq_skip(a, b, n as nat, f);
}
