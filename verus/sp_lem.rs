#[verifier::external]
impl core::fmt::Debug for HibouCoreError { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { Ok(()) } }
// ============================================================================================
// Writing of models: tokens separated by white space, trees written, what they denote
// ============================================================================================
pub open spec fn gap(c: char) -> bool { c == ' ' || c == '\n' || c == '\t' || c == '\r' }
pub open spec fn gaps(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> gap(#[trigger] s[i]) }
/// s is the tokens t, in order, with nothing else than white space around them
pub open spec fn spaced(s: Seq<char>, t: Seq<Seq<char>>) -> bool
    decreases t.len(),
{
    if t.len() == 0 { gaps(s) } else { exists|k: int| #[trigger] cut(s, t[0], k) && spaced(s.skip(k + t[0].len() as int), t.skip(1)) }
}
/// s is white space, x, something
pub open spec fn cut(s: Seq<char>, x: Seq<char>, k: int) -> bool {
    0 <= k && k + x.len() <= s.len() && gaps(s.take(k)) && s.subrange(k, k + x.len()) == x
}
pub proof fn lem_gap(a: Seq<char>, b: Seq<char>, t: Seq<Seq<char>>)
    requires gaps(a), spaced(b, t),
    ensures spaced(a + b, t),
{
    if t.len() == 0 {
        assert forall|i: int| 0 <= i < (a + b).len() implies gap(#[trigger] (a + b)[i]) by { if i >= a.len() { assert(gap(b[i - a.len()])); } else { assert(gap(a[i])); } }
    } else {
        let k = choose|k: int| #[trigger] cut(b, t[0], k) && spaced(b.skip(k + t[0].len() as int), t.skip(1));
        let s = a + b;
        let m = k + a.len();
        assert(s.subrange(m, m + t[0].len()) =~= b.subrange(k, k + t[0].len()));
        assert(s.skip(m + t[0].len() as int) =~= b.skip(k + t[0].len() as int));
        assert forall|i: int| 0 <= i < s.take(m).len() implies gap(#[trigger] s.take(m)[i]) by { if i >= a.len() { assert(gap(b.take(k)[i - a.len()])); } else { assert(gap(a[i])); } }
        assert(cut(s, t[0], m));
    }
}
pub proof fn lem_cat(a: Seq<char>, ta: Seq<Seq<char>>, b: Seq<char>, tb: Seq<Seq<char>>)
    requires spaced(a, ta), spaced(b, tb),
    ensures spaced(a + b, ta + tb),
    decreases ta.len(),
{
    if ta.len() == 0 { lem_gap(a, b, tb); assert(ta + tb =~= tb); } else {
        let k = choose|k: int| #[trigger] cut(a, ta[0], k) && spaced(a.skip(k + ta[0].len() as int), ta.skip(1));
        let n = ta[0].len() as int;
        lem_cat(a.skip(k + n), ta.skip(1), b, tb);
        let t = ta + tb;
        let s = a + b;
        assert(t[0] == ta[0]);
        assert(t.skip(1) =~= ta.skip(1) + tb);
        assert(s.skip(k + n) =~= a.skip(k + n) + b);
        assert(s.take(k) =~= a.take(k));
        assert(s.subrange(k, k + n) =~= a.subrange(k, k + n));
        assert(cut(s, t[0], k));
    }
}
pub proof fn lem_tok(a: Seq<char>)
    ensures spaced(a, seq![a]),
{
    let t = seq![a];
    assert(a.subrange(0, a.len() as int) =~= a);
    assert(a.skip(a.len() as int).len() == 0);
    assert(t.skip(1).len() == 0);
    assert(gaps(a.take(0)));
    assert(gaps(a.skip(0 + t[0].len() as int)));
    assert(spaced(a.skip(0 + t[0].len() as int), t.skip(1)));
    assert(cut(a, t[0], 0));
}
pub proof fn lem_ws(a: Seq<char>, n: nat)
    requires a.len() == 1, gap(a[0]),
    ensures gaps(rept(a, n)), spaced(rept(a, n), Seq::empty()),
    decreases n,
{
    if n > 0 { lem_ws(a, (n - 1) as nat); let p = rept(a, (n - 1) as nat); assert forall|i: int| 0 <= i < (p + a).len() implies gap(#[trigger] (p + a)[i]) by { if i < p.len() { assert(gap(p[i])); } } }
}
/// white space, a token, white space
pub proof fn lem_one(s: Seq<char>, k: int, t: Seq<char>)
    requires 0 <= k, k + t.len() <= s.len(), gaps(s.take(k)), s.subrange(k, k + t.len()) == t, gaps(s.skip(k + t.len())),
    ensures spaced(s, seq![t]),
{
    let v = seq![t];
    assert(v.skip(1).len() == 0);
    assert(spaced(s.skip(k + t.len()), v.skip(1)));
    assert(cut(s, v[0], k));
}
pub open spec fn leaf(r: Rule, t: Seq<char>) -> PT { PT { rule: r, txt: t, kids: Seq::empty() } }
pub open spec fn node(r: Rule, k: Seq<PT>) -> PT { PT { rule: r, txt: Seq::empty(), kids: k } }
pub open spec fn lab(t: Seq<char>) -> PT { leaf(Rule::HIBOU_LABEL, t) }
pub open spec fn labs(v: Seq<Seq<char>>) -> Seq<PT> { Seq::new(v.len(), |j: int| lab(v[j])) }
pub proof fn lem_nid(v: Seq<String>, k: usize)
    requires distinct(v), k < v.len(),
    ensures nid(v, v[k as int]@) == Some(k),
{
    assert(exists|q: usize| q < v.len() && (#[trigger] v[q as int])@ == v[k as int]@);
    let q = choose|q: usize| q < v.len() && (#[trigger] v[q as int])@ == v[k as int]@;
    assert(v[q as int]@ == v[k as int]@);
}
pub proof fn lem_wft1(r: Rule, a: PT)
    requires wft(a), shape(node(r, seq![a])),
    ensures wft(node(r, seq![a])),
{}
pub proof fn lem_jrest(v: Seq<Seq<char>>, t: Seq<PT>, a: int, sep: Seq<char>, tok: Seq<Seq<char>>)
    requires 0 <= a, v.len() == t.len(), spaced(sep, tok), forall|j: int| 0 <= j < v.len() ==> spaced(#[trigger] v[j], yl(t[j])),
    ensures spaced(jrest(v, a, sep), yrep(t, a, tok)),
    decreases v.len() - a,
{
    if a < v.len() {
        lem_jrest(v, t, a + 1, sep, tok);
        lem_cat(sep, tok, v[a], yl(t[a]));
        lem_cat(sep + v[a], tok + yl(t[a]), jrest(v, a + 1, sep), yrep(t, a + 1, tok));
    }
}
pub proof fn lem_yrep(pre: Seq<PT>, t: Seq<PT>, a: int, tok: Seq<Seq<char>>)
    requires 0 <= a,
    ensures yrep(pre + t, pre.len() + a, tok) == yrep(t, a, tok),
    decreases t.len() - a,
{
    if a < t.len() { lem_yrep(pre, t, a + 1, tok); assert((pre + t)[pre.len() + a] == t[a]); }
}
/// a, b, c separated by commas
pub proof fn lem_list(v: Seq<Seq<char>>, t: Seq<PT>, sep: Seq<char>)
    requires v.len() == t.len(), v.len() > 0, spaced(sep, seq![","@]), forall|j: int| 0 <= j < v.len() ==> spaced(#[trigger] v[j], yl(t[j])),
    ensures spaced(joined(v, sep), yl(t[0]) + yrep(t, 1, seq![","@])),
{
    lem_jrest(v, t, 1, sep, seq![","@]);
    lem_cat(v[0], yl(t[0]), jrest(v, 1, sep), yrep(t, 1, seq![","@]));
}
