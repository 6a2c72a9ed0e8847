// ============================================================================================
// What a signature file denotes: names in the order of their first declaration, at most one section of each kind
// ============================================================================================
pub type Names = Seq<Seq<char>>;
pub open spec fn addn(v: Names, n: Seq<char>) -> Names { if v.contains(n) { v } else { v.push(n) } }
/// the first n labels are declared
pub open spec fn addns(v: Names, s: Seq<PT>, n: int) -> Names
    decreases n,
{
    if n <= 0 { v } else { addn(addns(v, s, n - 1), lbl(s[n - 1])) }
}
#[verifier::ext_equal]
pub struct Sig { pub lf: Names, pub ms: Names, pub gt: Names }
pub open spec fn nosig() -> Sig { Sig { lf: Seq::empty(), ms: Seq::empty(), gt: Seq::empty() } }
pub open spec fn secs(s: Seq<PT>, r: Rule, n: int) -> bool { exists|j: int| 0 <= j < n && (#[trigger] s[j]).rule == r }
/// the first n sections; None: two of them are of the same kind
pub open spec fn d_sig(s: Seq<PT>, n: int) -> Option<Sig>
    decreases n,
{
    if n <= 0 { Some(nosig()) } else {
        match d_sig(s, n - 1) {
            None => None,
            Some(c) => {
                let t = s[n - 1];
                let k = t.kids.len() as int;
                if secs(s, t.rule, n - 1) { None }
                else if t.rule is HIBOU_SIG_LF_DECL { Some(Sig { lf: addns(c.lf, t.kids, k), ..c }) }
                else if t.rule is HIBOU_SIG_MS_DECL { Some(Sig { ms: addns(c.ms, t.kids, k), ..c }) }
                else { Some(Sig { gt: addns(c.gt, t.kids, k), ..c }) }
            },
        }
    }
}
pub proof fn lem_sig_none(s: Seq<PT>, b: int, c: int)
    requires 0 <= b <= c, d_sig(s, b) is None,
    ensures d_sig(s, c) is None,
    decreases c - b,
{
    if b < c { assert(d_sig(s, b + 1) is None); lem_sig_none(s, b + 1, c); }
}
pub open spec fn gv(g: GeneralContext) -> Sig { Sig { lf: strs(g.lf_names@), ms: strs(g.ms_names@), gt: strs(g.gt_names@) } }
pub broadcast proof fn b_added(v: Seq<String>, n: String, v2: Seq<String>, r: usize)
    requires #[trigger] added(v, n, v2, r),
    ensures strs(v2) == addn(strs(v), n@),
{
    if v2 == v { assert(strs(v)[r as int] == n@); } else {
        assert forall|j: int| 0 <= j < strs(v).len() implies strs(v)[j] != n@ by { assert(v[j]@ != n@); }
        assert(strs(v2) =~= strs(v).push(n@));
    }
}
/// THEOREM (reading): what is read from s is what its tree denotes, or else s has no tree, or its tree denotes nothing;
/// a name has the identifier given by the place of its first declaration
pub open spec fn reads_sig(s: Seq<char>, r: Option<Sig>) -> bool {
    ||| r is None && refused(Rule::HSF_PEST_FILE, s)
    ||| exists|t: Seq<PT>| #[trigger] parsed(Rule::HSF_PEST_FILE, s, t) && d_sig(t[0].kids, t[0].kids.len() as int) == r
}
pub struct HsfParser { pub dummy: u8 }
impl HsfParser {
    #[verifier::external_body]
    pub fn parse(r: Rule, s: &str) -> (x: Result<Pairs<Rule>, PErr>)
        ensures x is Ok ==> x->Ok_0.pos() == 0 && parsed(r, s@, trees(x->Ok_0.all())) && (forall|j: int| 0 <= j < x->Ok_0.all().len() ==> wft((#[trigger] x->Ok_0.all()[j]).view()))
                && (r is HSF_PEST_FILE ==> top_HSF_PEST_FILE(trees(x->Ok_0.all()))),
            x is Err ==> refused(r, s@),
    { unimplemented!() }
}
