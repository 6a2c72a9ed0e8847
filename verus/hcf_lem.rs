// ============================================================================================
// What a configuration file denotes
// ============================================================================================
// ------------------------------------------------------------------ numbers
pub open spec fn isdec(s: Seq<char>) -> bool { s.len() > 0 && forall|j: int| 0 <= j < s.len() ==> '0' <= (#[trigger] s[j]) <= '9' }
pub open spec fn dval(s: Seq<char>) -> int
    decreases s.len(),
{
    if s.len() == 0 { 0 } else { 10 * dval(s.drop_last()) + (s.last() as int - '0' as int) }
}
/// the value of a decimal number, when it fits
pub open spec fn pu32(s: Seq<char>) -> Option<u32> { if isdec(s) && dval(s) <= u32::MAX { Some(dval(s) as u32) } else { None } }
pub open spec fn pi32(s: Seq<char>) -> Option<i32> {
    if s.len() > 0 && s[0] == '-' { if isdec(s.skip(1)) && -dval(s.skip(1)) >= i32::MIN { Some((-dval(s.skip(1))) as i32) } else { None } }
    else if isdec(s) && dval(s) <= i32::MAX { Some(dval(s) as i32) } else { None }
}
/// the numbers which are written fit, there are not too many loggers
pub open spec fn numok(t: PT) -> bool
    decreases t,
{
    &&& t.rule is ARITH_INTEGER ==> pu32(strip(t.txt)) is Some
    &&& t.rule is OPTION_PRIORITY_LEVEL ==> pi32(strip(t.txt)) is Some
    &&& t.rule is OPTION_LOGGER_DECL ==> t.kids.len() <= u32::MAX
    &&& forall|j: int| 0 <= j < t.kids.len() ==> numok(#[trigger] t.kids[j])
}
pub open spec fn nval(t: PT) -> u32 { pu32(strip(t.txt))->0 }
pub open spec fn ival(t: PT) -> i32 { pi32(strip(t.txt))->0 }
/// option = true
pub open spec fn bval(t: PT) -> bool { t.kids[0].rule is HIBOU_true }

// ------------------------------------------------------------------ loggers
#[verifier::ext_equal]
pub struct GL { pub png: bool, pub horiz: bool, pub sd: bool, pub tt: bool, pub legend: bool, pub folder: Seq<char>, pub file: Seq<char> }
#[verifier::ext_equal]
pub struct TL { pub gen: TracegenProcessLoggerGeneration, pub locs: Seq<ISet<usize>>, pub nodup: bool, pub folder: Seq<char>, pub prefix: Seq<char> }
#[verifier::ext_equal]
pub enum LV { G(GL), T(TL), N }
pub open spec fn gl0(f: Seq<char>, id: u32) -> GL { GL { png: false, horiz: false, sd: true, tt: false, legend: true, folder: ""@, file: f + "_l"@ + udec(id) } }
pub open spec fn d_gopt(c: GL, t: PT) -> GL {
    match t.rule {
        Rule::GRAPHIC_LOGGER_format_png => GL { png: true, ..c },
        Rule::GRAPHIC_LOGGER_format_svg => GL { png: false, ..c },
        Rule::GRAPHIC_LOGGER_layout_horizontal => GL { horiz: true, ..c },
        Rule::GRAPHIC_LOGGER_layout_vertical => GL { horiz: false, ..c },
        Rule::GRAPHIC_LOGGER_draw_sequence_diagram => GL { sd: bval(t), ..c },
        Rule::GRAPHIC_LOGGER_draw_term_tree => GL { tt: bval(t), ..c },
        Rule::GRAPHIC_LOGGER_draw_legend => GL { legend: bval(t), ..c },
        Rule::GRAPHIC_LOGGER_parent_folder => GL { folder: lbl(t.kids[0]), ..c },
        Rule::GRAPHIC_LOGGER_output_file => GL { file: lbl(t.kids[0]), ..c },
        _ => c,
    }
}
pub open spec fn d_gopts(c: GL, s: Seq<PT>, n: int) -> GL
    decreases n,
{
    if n <= 0 { c } else { d_gopt(d_gopts(c, s, n - 1), s[n - 1]) }
}
/// the options of a logger
pub open spec fn opts(t: PT) -> Seq<PT> { if t.kids.len() == 0 { Seq::empty() } else { t.kids[0].kids } }
pub open spec fn d_g(f: Seq<char>, id: u32, t: PT) -> GL { d_gopts(gl0(f, id), opts(t), opts(t).len() as int) }

/// the lifelines of a component: all known, none twice, none of another component
pub open spec fn d_comp(g: GeneralContext, s: Seq<PT>, n: int, taken: ISet<usize>) -> Option<ISet<usize>>
    decreases n,
{
    if n <= 0 { Some(ISet::empty()) } else {
        match (d_comp(g, s, n - 1, taken), lfid(g, s[n - 1])) {
            (Some(v), Some(l)) => if taken.contains(l) || v.contains(l) { None } else { Some(v.insert(l)) },
            _ => None,
        }
    }
}
pub open spec fn all_of(v: Seq<ISet<usize>>) -> ISet<usize> { ISet::new(|x: usize| exists|j: int| 0 <= j < v.len() && (#[trigger] v[j]).contains(x)) }
pub open spec fn d_comps(g: GeneralContext, s: Seq<PT>, n: int) -> Option<Seq<ISet<usize>>>
    decreases n,
{
    if n <= 0 { Some(Seq::empty()) } else {
        match d_comps(g, s, n - 1) {
            None => None,
            Some(v) => match d_comp(g, s[n - 1].kids, s[n - 1].kids.len() as int, all_of(v)) { None => None, Some(c) => Some(v.push(c)) },
        }
    }
}
pub proof fn lem_comp_none(g: GeneralContext, s: Seq<PT>, b: int, c: int, k: ISet<usize>)
    requires 0 <= b <= c, d_comp(g, s, b, k) is None,
    ensures d_comp(g, s, c, k) is None,
    decreases c - b,
{
    if b < c { assert(d_comp(g, s, b + 1, k) is None); lem_comp_none(g, s, b + 1, c, k); }
}
pub proof fn lem_comps_none(g: GeneralContext, s: Seq<PT>, b: int, c: int)
    requires 0 <= b <= c, d_comps(g, s, b) is None,
    ensures d_comps(g, s, c) is None,
    decreases c - b,
{
    if b < c { assert(d_comps(g, s, b + 1) is None); lem_comps_none(g, s, b + 1, c); }
}
pub open spec fn d_topt(g: GeneralContext, c: TL, t: PT) -> Option<TL> {
    match t.rule {
        Rule::TRACEGEN_LOGGER_accepted => Some(TL { gen: TracegenProcessLoggerGeneration::accepted, ..c }),
        Rule::TRACEGEN_LOGGER_depth => Some(TL { gen: TracegenProcessLoggerGeneration::atExactDepth(nval(t.kids[0])), ..c }),
        Rule::TRACEGEN_LOGGER_modulo => Some(TL { gen: TracegenProcessLoggerGeneration::atDepthModulo(nval(t.kids[0])), ..c }),
        Rule::TRACEGEN_LOGGER_partition_discrete => Some(TL { locs: discr_of(g), ..c }),
        Rule::TRACEGEN_LOGGER_partition_trivial => Some(TL { locs: triv_of(g), ..c }),
        Rule::TRACEGEN_LOGGER_partition_specific => match d_comps(g, t.kids, t.kids.len() as int) { None => None, Some(v) => Some(TL { locs: v, ..c }) },
        Rule::TRACEGEN_LOGGER_parent_folder => Some(TL { folder: lbl(t.kids[0]), ..c }),
        Rule::TRACEGEN_LOGGER_trace_prefix => Some(TL { prefix: lbl(t.kids[0]), ..c }),
        Rule::TRACEGEN_LOGGER_no_duplicate => Some(TL { nodup: bval(t), ..c }),
        _ => Some(c),
    }
}
pub open spec fn discr_of(g: GeneralContext) -> Seq<ISet<usize>> { discrp(g.lf_names@.len()) }
pub open spec fn triv_of(g: GeneralContext) -> Seq<ISet<usize>> { trivp(g.lf_names@.len()) }
pub open spec fn d_topts(g: GeneralContext, c: TL, s: Seq<PT>, n: int) -> Option<TL>
    decreases n,
{
    if n <= 0 { Some(c) } else { match d_topts(g, c, s, n - 1) { None => None, Some(x) => d_topt(g, x, s[n - 1]) } }
}
pub proof fn lem_topts_none(g: GeneralContext, x: TL, s: Seq<PT>, b: int, c: int)
    requires 0 <= b <= c, d_topts(g, x, s, b) is None,
    ensures d_topts(g, x, s, c) is None,
    decreases c - b,
{
    if b < c { assert(d_topts(g, x, s, b + 1) is None); lem_topts_none(g, x, s, b + 1, c); }
}
pub open spec fn tl0(g: GeneralContext, id: u32) -> TL { TL { gen: TracegenProcessLoggerGeneration::accepted, locs: triv_of(g), nodup: false, folder: "tracegen_l"@ + udec(id), prefix: "trace"@ } }
pub open spec fn d_t(g: GeneralContext, id: u32, t: PT) -> Option<TL> { d_topts(g, tl0(g, id), opts(t), opts(t).len() as int) }

/// loggers: graphic ones and generators of traces; makers of automata when exploring only. They are numbered from 1.
pub open spec fn d_log(g: GeneralContext, f: Seq<char>, x: bool, id: u32, t: PT) -> Option<LV> {
    match t.rule {
        Rule::OPTION_GRAPHIC_LOGGER => Some(LV::G(d_g(f, id, t))),
        Rule::OPTION_TRACEGEN_LOGGER => match d_t(g, id, t) { None => None, Some(c) => Some(LV::T(c)) },
        _ => if x { Some(LV::N) } else { None },
    }
}
pub open spec fn d_logs(g: GeneralContext, f: Seq<char>, x: bool, s: Seq<PT>, n: int) -> Option<Seq<LV>>
    decreases n,
{
    if n <= 0 { Some(Seq::empty()) } else {
        match (d_logs(g, f, x, s, n - 1), d_log(g, f, x, n as u32, s[n - 1])) { (Some(v), Some(l)) => Some(v.push(l)), _ => None }
    }
}
pub proof fn lem_logs_none(g: GeneralContext, f: Seq<char>, x: bool, s: Seq<PT>, b: int, c: int)
    requires 0 <= b <= c, d_logs(g, f, x, s, b) is None,
    ensures d_logs(g, f, x, s, c) is None,
    decreases c - b,
{
    if b < c { assert(d_logs(g, f, x, s, b + 1) is None); lem_logs_none(g, f, x, s, b + 1, c); }
}

// ------------------------------------------------------------------ filters, strategies
/// (0, n): maximum depth, (1, n): loops, (2, n): nodes
pub open spec fn d_filter(t: PT) -> (int, u32) {
    (match t.rule { Rule::OPTION_FILTER_MAX_DEPTH => 0, Rule::OPTION_FILTER_MAX_LOOP_DEPTH => 1, _ => 2int }, nval(t.kids[0]))
}
pub open spec fn d_filters(s: Seq<PT>) -> Seq<(int, u32)> { Seq::new(s.len(), |j: int| d_filter(s[j])) }
pub open spec fn d_strat(t: PT) -> QueueSearchStrategy {
    match t.rule { Rule::OPTION_STRATEGY_BFS => QueueSearchStrategy::BFS, Rule::OPTION_STRATEGY_DFS => QueueSearchStrategy::DFS, _ => QueueSearchStrategy::HCS }
}
// ------------------------------------------------------------------ priorities
#[verifier::ext_equal]
pub struct PR { pub em: i32, pub rc: i32, pub rdv: i32, pub lp: i32, pub el: i32, pub si: i32, pub rnd: bool }
/// a: for an analysis
pub open spec fn d_pri(c: PR, a: bool, t: PT) -> Option<PR> {
    if t.rule is OPTION_PRIORITY_RANDOMIZE { Some(PR { rnd: bval(t), ..c }) } else {
        let v = ival(t.kids[1]);
        match t.kids[0].rule {
            Rule::OPTION_PRIORITY_emission => Some(PR { em: v, ..c }),
            Rule::OPTION_PRIORITY_reception => Some(PR { rc: v, ..c }),
            Rule::OPTION_PRIORITY_multi_rdv => Some(PR { rdv: v, ..c }),
            Rule::OPTION_PRIORITY_loop => Some(PR { lp: v, ..c }),
            Rule::OPTION_PRIORITY_elim => if a { Some(PR { el: v, ..c }) } else { None },
            Rule::OPTION_PRIORITY_simu => if a { Some(PR { si: v, ..c }) } else { None },
            _ => None,
        }
    }
}
pub open spec fn pr0() -> PR { PR { em: 0, rc: 0, rdv: 0, lp: 0, el: 0, si: 0, rnd: false } }
pub open spec fn d_prios(a: bool, s: Seq<PT>, n: int) -> Option<PR>
    decreases n,
{
    if n <= 0 { Some(pr0()) } else { match d_prios(a, s, n - 1) { None => None, Some(c) => d_pri(c, a, s[n - 1]) } }
}
pub proof fn lem_prios_none(a: bool, s: Seq<PT>, b: int, c: int)
    requires 0 <= b <= c, d_prios(a, s, b) is None,
    ensures d_prios(a, s, c) is None,
    decreases c - b,
{
    if b < c { assert(d_prios(a, s, b + 1) is None); lem_prios_none(a, s, b + 1, c); }
}
/// the parser generated from the grammar
pub struct HcfParser { pub dummy: u8 }
impl HcfParser {
    #[verifier::external_body]
    pub fn parse(r: Rule, s: &str) -> (x: Result<Pairs<Rule>, PErr>)
        ensures x is Ok ==> x->Ok_0.pos() == 0 && parsed(r, s@, trees(x->Ok_0.all())) && (forall|j: int| 0 <= j < x->Ok_0.all().len() ==> wft((#[trigger] x->Ok_0.all()[j]).view()))
                && (r is HCF_PEST_FILE ==> top_HCF_PEST_FILE(trees(x->Ok_0.all()))),
            x is Err ==> refused(r, s@),
    { unimplemented!() }
}
/// at most one section of the kind which is read; no section: the default
pub open spec fn secs(s: Seq<PT>, r: Rule, n: int) -> bool { exists|j: int| 0 <= j < n && (#[trigger] s[j]).rule == r }
pub open spec fn bsv(t: Seq<BTreeSet<usize>>) -> Seq<ISet<usize>> { Seq::new(t.len(), |j: int| t[j]@) }
pub proof fn lem_kid(t: PT, j: int)
    requires wft(t), 0 <= j < t.kids.len(),
    ensures wft(t.kids[j]), shape(t.kids[j]), shape(t), numok(t) ==> numok(t.kids[j]),
{}
/// the options of a logger follow the grammar
pub proof fn lem_opts(t: PT, j: int)
    requires wft(t), t.rule is OPTION_GRAPHIC_LOGGER || t.rule is OPTION_TRACEGEN_LOGGER, 0 <= j < opts(t).len(),
    ensures wft(opts(t)[j]), shape(opts(t)[j]), numok(t) ==> numok(opts(t)[j]), t.kids.len() == 1, opts(t) == t.kids[0].kids, shape(t.kids[0]), shape(t),
{
    lem_kid(t, 0);
    lem_kid(t.kids[0], j);
}
pub proof fn lem_all_of(v: Seq<ISet<usize>>, c: ISet<usize>)
    ensures all_of(v.push(c)) =~= all_of(v).union(c),
{
    let w = v.push(c);
    assert forall|x: usize| all_of(v).union(c).contains(x) implies all_of(w).contains(x) by {
        if c.contains(x) { assert(w[v.len() as int].contains(x)); } else { let j = choose|j: int| 0 <= j < v.len() && (#[trigger] v[j]).contains(x); assert(w[j].contains(x)); }
    }
    assert forall|x: usize| all_of(w).contains(x) implies all_of(v).union(c).contains(x) by {
        let j = choose|j: int| 0 <= j < w.len() && (#[trigger] w[j]).contains(x);
        if j < v.len() { assert(v[j].contains(x)); }
    }
}
