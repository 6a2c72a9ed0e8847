// ------------------------------------------------------------------ section of canonizations
#[verifier::ext_equal]
pub struct CO { pub logs: Seq<LV>, pub strat: QueueSearchStrategy, pub nfilters: nat, pub rnd: bool, pub all: bool }
pub open spec fn co0() -> CO { CO { logs: Seq::empty(), strat: QueueSearchStrategy::BFS, nfilters: 0, rnd: false, all: false } }
/// the options which a canonization has: graphic loggers and search_all (others make the tool stop)
pub open spec fn conly(s: Seq<PT>) -> bool {
    forall|j: int| 0 <= j < s.len() ==> {
        let t = #[trigger] s[j];
        t.rule is OPTION_CANON_searchall_yes || t.rule is OPTION_CANON_searchall_no || t.rule is OPTION_LOGGER_DECL && forall|k: int| 0 <= k < t.kids.len() ==> (#[trigger] t.kids[k]).rule is OPTION_GRAPHIC_LOGGER
    }
}
pub open spec fn d_clogs(f: Seq<char>, s: Seq<PT>) -> Seq<LV> { Seq::new(s.len(), |j: int| LV::G(d_g(f, (j + 1) as u32, s[j]))) }
pub open spec fn d_copt(f: Seq<char>, c: CO, t: PT) -> CO {
    match t.rule {
        Rule::OPTION_CANON_searchall_yes => CO { all: true, ..c },
        Rule::OPTION_CANON_searchall_no => CO { all: false, ..c },
        _ => CO { logs: d_clogs(f, t.kids), ..c },
    }
}
pub open spec fn d_copts(f: Seq<char>, s: Seq<PT>, n: int) -> CO
    decreases n,
{
    if n <= 0 { co0() } else { d_copt(f, d_copts(f, s, n - 1), s[n - 1]) }
}
pub open spec fn d_cfile(f: Seq<char>, s: Seq<PT>, n: int) -> Option<CO>
    decreases n,
{
    if n <= 0 { Some(co0()) } else {
        match d_cfile(f, s, n - 1) {
            None => None,
            Some(c) => if !(s[n - 1].rule is CANONIZE_OPTION_SECTION) { Some(c) } else if secs(s, Rule::CANONIZE_OPTION_SECTION, n - 1) { None } else { Some(d_copts(f, s[n - 1].kids, s[n - 1].kids.len() as int)) },
        }
    }
}
pub proof fn lem_cfile_none(f: Seq<char>, s: Seq<PT>, b: int, c: int)
    requires 0 <= b <= c, d_cfile(f, s, b) is None,
    ensures d_cfile(f, s, c) is None,
    decreases c - b,
{
    if b < c { assert(d_cfile(f, s, b + 1) is None); lem_cfile_none(f, s, b + 1, c); }
}
pub open spec fn lvs(v: Seq<Box<dyn AbstractProcessLogger<CanonizationConfig>>>) -> Seq<LV> { Seq::new(v.len(), |j: int| v[j].lv()) }
pub open spec fn cov2(o: HibouCanonizeOptions) -> CO { CO { logs: lvs(o.loggers@), strat: o.strategy, nfilters: o.filters@.len(), rnd: o.priorities.randomize, all: o.search_all } }
pub open spec fn reads_conf(f: Seq<char>, s: Seq<char>, r: Option<CO>) -> bool {
    ||| r is None && refused(Rule::HCF_PEST_FILE, s)
    ||| exists|t: Seq<PT>| #[trigger] parsed(Rule::HCF_PEST_FILE, s, t) && d_cfile(f, t[0].kids, t[0].kids.len() as int) == r
}
pub open spec fn csecs(s: Seq<PT>) -> bool { forall|j: int| 0 <= j < s.len() && (#[trigger] s[j]).rule is CANONIZE_OPTION_SECTION ==> conly(s[j].kids) }
impl AbstractProcessConfiguration for CanonizationConfig { }
impl GraphVizProcessDrawer<CanonizationConfig> for InteractionProcessDrawer { }
impl VxDyn<dyn AbstractProcessLogger<CanonizationConfig>> for GenericGraphVizLogger<CanonizationConfig> {
    open spec fn same(self, d: Box<dyn AbstractProcessLogger<CanonizationConfig>>) -> bool { d.lv() == LV::G(self.gv()) }
    #[verifier::external_body]
    fn vx_dyn(self) -> (r: Box<dyn AbstractProcessLogger<CanonizationConfig>>) { unimplemented!() }
}
