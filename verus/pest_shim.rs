// ============================================================================================
// Assumed contracts on the parser generated by pest and on strings (trusted base; nothing here is proved).
// A tree given by the parser follows the grammar: the predicates shape/wft are computed from the .pest file.
// ============================================================================================
#[verifier::external_body]
#[verifier::reject_recursive_types(R)]
pub struct Pair<R> { t: core::marker::PhantomData<R> }
pub type Pairs<R> = VxIter<Pair<R>>;

impl<R> Pair<R> {
    pub uninterp spec fn view(&self) -> PT;
}
impl Pair<Rule> {
    #[verifier::external_body]
    pub fn as_rule(&self) -> (r: Rule)
        ensures r == self.view().rule,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn as_str(&self) -> (r: &str)
        ensures r@ == self.view().txt,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn into_inner(self) -> (r: Pairs<Rule>)
        ensures r.pos() == 0, trees(r.all()) == self.view().kids,
    { unimplemented!() }
}
impl<T> VxIter<T> {
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<T>)
        ensures final(self).all() == old(self).all(),
            old(self).pos() < old(self).all().len() ==> r == Some(old(self).all()[old(self).pos() as int]) && final(self).pos() == old(self).pos() + 1,
            old(self).pos() >= old(self).all().len() ==> r is None && final(self).pos() == old(self).pos(),
    { unimplemented!() }
}
pub open spec fn trees(s: Seq<Pair<Rule>>) -> Seq<PT> { Seq::new(s.len(), |j: int| s[j].view()) }

/// the parser generated from the grammar
pub uninterp spec fn parsed(r: Rule, s: Seq<char>, t: Seq<PT>) -> bool;
pub uninterp spec fn refused(r: Rule, s: Seq<char>) -> bool;
#[derive(Debug)]
pub struct PErr { pub dummy: u8 }
impl VxToString for PErr { #[verifier::external_body] fn vx_to_string(&self) -> (r: String) { unimplemented!() } }

// ------------------------------------------------------------------ strings
pub uninterp spec fn is_ws(c: char) -> bool;
/// s without its white space
pub open spec fn strip(s: Seq<char>) -> Seq<char>
    decreases s.len(),
{
    if s.len() == 0 { s } else if is_ws(s.last()) { strip(s.drop_last()) } else { strip(s.drop_last()).push(s.last()) }
}
#[verifier::external_body]
pub fn vx_strip_ws(s: &str) -> (r: String)
    ensures r@ == strip(s@),
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_filter_chars(s: &str) -> (r: String)
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_any_string() -> (r: String)
{ unimplemented!() }

/// what `{}` gives
pub trait VxShow { spec fn show(&self) -> Seq<char>; }
impl VxShow for String { open spec fn show(&self) -> Seq<char> { self@ } }
impl VxShow for str { open spec fn show(&self) -> Seq<char> { self@ } }
impl<T: VxShow + ?Sized> VxShow for &T { open spec fn show(&self) -> Seq<char> { (**self).show() } }
#[verifier::external_body]
pub fn vx_show<T: VxShow + ?Sized>(x: &T, s: &mut String)
    ensures final(s)@ == old(s)@ + x.show(),
{ unimplemented!() }
/// `{:?}` and other formats: anything
#[verifier::external_body]
pub fn vx_debug<T: ?Sized>(x: &T, s: &mut String)
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_push_lit(s: &mut String, x: &str)
    ensures final(s)@ == old(s)@ + x@,
{ unimplemented!() }
/// slice::join
pub open spec fn jrest(v: Seq<Seq<char>>, a: int, sep: Seq<char>) -> Seq<char>
    decreases v.len() - a,
{
    if a < 0 || a >= v.len() { Seq::empty() } else { sep + v[a] + jrest(v, a + 1, sep) }
}
pub open spec fn joined(v: Seq<Seq<char>>, sep: Seq<char>) -> Seq<char> {
    if v.len() == 0 { Seq::empty() } else { v[0] + jrest(v, 1, sep) }
}
pub open spec fn strs(v: Seq<String>) -> Seq<Seq<char>> { Seq::new(v.len(), |j: int| v[j]@) }
pub trait VxJoin { spec fn jv(&self) -> Seq<Seq<char>>; fn vx_join(&self, sep: &str) -> (r: String) ensures r@ == joined(self.jv(), sep@); }
impl VxJoin for Vec<String> {
    open spec fn jv(&self) -> Seq<Seq<char>> { strs(self@) }
    #[verifier::external_body]
    fn vx_join(&self, sep: &str) -> (r: String) { unimplemented!() }
}
/// str::repeat
pub open spec fn rept(s: Seq<char>, n: nat) -> Seq<char>
    decreases n,
{
    if n == 0 { Seq::empty() } else { rept(s, (n - 1) as nat) + s }
}
pub trait VxRepeat { fn vx_repeat(&self, n: usize) -> String; }
impl VxRepeat for str {
    #[verifier::external_body]
    fn vx_repeat(&self, n: usize) -> (r: String)
        ensures r@ == rept(self@, n as nat),
    { unimplemented!() }
}
/// Vec::extend_from_slice, with a vector
pub trait VxSlice<T> { spec fn sv(&self) -> Seq<T>; }
impl<T> VxSlice<T> for &Vec<T> { open spec fn sv(&self) -> Seq<T> { self@ } }
impl<T> VxSlice<T> for &mut Vec<T> { open spec fn sv(&self) -> Seq<T> { self@ } }
pub trait VxExtendSlice<T> { spec fn ev(&self) -> Seq<T>; fn vx_extend_from_slice<S: VxSlice<T>>(&mut self, o: S) ensures final(self).ev() == old(self).ev() + o.sv(); }
impl<T> VxExtendSlice<T> for Vec<T> {
    open spec fn ev(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn vx_extend_from_slice<S: VxSlice<T>>(&mut self, o: S) { unimplemented!() }
}
/// &a - &b on sets
#[verifier::external_body]
pub fn vx_diff<T: VxK>(a: &BTreeSet<T>, b: &BTreeSet<T>) -> (r: BTreeSet<T>)
    ensures r@ == a@.difference(b@),
{ unimplemented!() }
