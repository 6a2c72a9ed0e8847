// ============================================================================================
// Assumed contracts on the standard library (trusted base; nothing here is proved).
// Ordered/hashed sets are seen as mathematical sets of keys; iterator chains are evaluated eagerly into `VxIter`.
// ============================================================================================

/// key under which a value is compared by its (derived) Eq/Ord/Hash
pub trait VxK {
    type K;
    spec fn k(&self) -> Self::K;
}

impl VxK for usize { type K = usize; open spec fn k(&self) -> usize { *self } }
impl VxK for u32 { type K = u32; open spec fn k(&self) -> u32 { *self } }
impl<T: VxK> VxK for &T { type K = T::K; open spec fn k(&self) -> T::K { (**self).k() } }
impl<A: VxK, B: VxK> VxK for (A, B) { type K = (A::K, B::K); open spec fn k(&self) -> (A::K, B::K) { (self.0.k(), self.1.k()) } }

/// what a (derived) clone of the value preserves
pub trait VxClone: Sized {
    spec fn same(&self, o: &Self) -> bool;
    fn vx_clone(&self) -> (r: Self) ensures self.same(&r);
}

impl VxClone for usize {
    open spec fn same(&self, o: &Self) -> bool { *self == *o }
    fn vx_clone(&self) -> (r: Self) { *self }
}
impl<T> VxClone for &T {
    open spec fn same(&self, o: &Self) -> bool { *self == *o }
    fn vx_clone(&self) -> (r: Self) { *self }
}

pub open spec fn kseq<T: VxK>(s: Seq<T>) -> Seq<T::K> {
    Seq::new(s.len(), |j: int| s[j].k())
}

pub open spec fn kset<T: VxK>(s: Seq<T>) -> ISet<T::K> {
    ISet::new(|x: T::K| exists|j: int| 0 <= j < s.len() && #[trigger] s[j].k() == x)
}

// ------------------------------------------------------------------ iterators

#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct VxIter<T> { t: core::marker::PhantomData<T> }

impl<T> VxIter<T> {
    pub uninterp spec fn all(&self) -> Seq<T>;
    pub uninterp spec fn pos(&self) -> nat;

    #[verifier::external_body]
    pub fn vx_more(&self) -> (r: bool)
        ensures r == (self.pos() < self.all().len()),
    { unimplemented!() }

    #[verifier::external_body]
    pub fn vx_take(&mut self) -> (r: T)
        requires old(self).pos() < old(self).all().len(),
        ensures final(self).all() == old(self).all(), final(self).pos() == old(self).pos() + 1, r == old(self).all()[old(self).pos() as int],
    { unimplemented!() }

    #[verifier::external_body]
    pub fn vx_enumerate(self) -> (r: VxIter<(usize, T)>)
        requires self.pos() == 0,
        ensures r.pos() == 0, r.all().len() == self.all().len(), r.all().len() <= usize::MAX,
            forall|j: int| 0 <= j < r.all().len() ==> (#[trigger] r.all()[j]).0 == j && r.all()[j].1 == self.all()[j],
    { unimplemented!() }

    #[verifier::external_body]
    pub fn vx_rev(self) -> (r: VxIter<T>)
        requires self.pos() == 0,
        ensures r.pos() == 0, r.all() == self.all().reverse(),
    { unimplemented!() }

    #[verifier::external_body]
    pub fn vx_count(self) -> (r: usize)
        requires self.pos() == 0,
        ensures r == self.all().len(),
    { unimplemented!() }

    #[verifier::external_body]
    pub fn vx_skip(self, n: usize) -> (r: VxIter<T>)
        requires self.pos() == 0,
        ensures r.pos() == 0, r.all() == (if n <= self.all().len() { self.all().skip(n as int) } else { Seq::empty() }),
    { unimplemented!() }

    /// the order itself is not specified
    #[verifier::external_body]
    pub fn vx_sorted(self) -> (r: VxIter<T>)
        requires self.pos() == 0,
        ensures r.pos() == 0, r.all().to_multiset() == self.all().to_multiset(), r.all().len() == self.all().len(),
    { unimplemented!() }

    #[verifier::external_body]
    pub fn vx_collect<C: VxFromIter<T>>(self) -> (r: C)
        requires self.pos() == 0,
        ensures C::from_spec(self.all(), r),
    { unimplemented!() }
}

impl<'a, T: VxClone + VxK> VxIter<&'a T> {
    #[verifier::external_body]
    pub fn vx_cloned(self) -> (r: VxIter<T>)
        requires self.pos() == 0,
        ensures r.pos() == 0, r.all().len() == self.all().len(),
            forall|j: int| 0 <= j < r.all().len() ==> self.all()[j].same(#[trigger] &r.all()[j]),
            kset(r.all()) == kset(self.all()),
    { unimplemented!() }
}

pub trait VxFromIter<T>: Sized {
    spec fn from_spec(s: Seq<T>, r: Self) -> bool;
}

impl<T> VxFromIter<T> for Vec<T> {
    open spec fn from_spec(s: Seq<T>, r: Self) -> bool { r@ == s }
}
impl<T: VxK> VxFromIter<T> for BTreeSet<T> {
    open spec fn from_spec(s: Seq<T>, r: Self) -> bool { r@ == kset(s) }
}
impl<T: VxK> VxFromIter<T> for HashSet<T> {
    open spec fn from_spec(s: Seq<T>, r: Self) -> bool { r@ == kset(s) }
}

pub trait VxIntoIter: Sized {
    type It;
    spec fn it_ok(&self, s: Seq<Self::It>) -> bool;
    fn vx_into_iter(self) -> (r: VxIter<Self::It>)
        ensures r.pos() == 0, self.it_ok(r.all());
}

impl<T> VxIntoIter for Vec<T> {
    type It = T;
    open spec fn it_ok(&self, s: Seq<T>) -> bool { s == self@ }
    #[verifier::external_body]
    fn vx_into_iter(self) -> VxIter<T> { unimplemented!() }
}
impl<'a, T> VxIntoIter for &'a Vec<T> {
    type It = &'a T;
    open spec fn it_ok(&self, s: Seq<&'a T>) -> bool { s.len() == self@.len() && forall|j: int| 0 <= j < s.len() ==> *(#[trigger] s[j]) == self@[j] }
    #[verifier::external_body]
    fn vx_into_iter(self) -> VxIter<&'a T> { unimplemented!() }
}
impl<T> VxIntoIter for VxIter<T> {
    type It = T;
    open spec fn it_ok(&self, s: Seq<T>) -> bool { s == if self.pos() == 0 { self.all() } else { self.all().skip(self.pos() as int) } }
    #[verifier::external_body]
    fn vx_into_iter(self) -> VxIter<T> { unimplemented!() }
}

pub open spec fn set_it<T: VxK>(v: ISet<T::K>, s: Seq<T>) -> bool {
    &&& kset(s) == v
    &&& forall|a: int, b: int| 0 <= a < b < s.len() ==> (#[trigger] s[a]).k() != (#[trigger] s[b]).k()
}

impl<T: VxK> VxIntoIter for BTreeSet<T> {
    type It = T;
    open spec fn it_ok(&self, s: Seq<T>) -> bool { set_it(self@, s) }
    #[verifier::external_body]
    fn vx_into_iter(self) -> VxIter<T> { unimplemented!() }
}
impl<'a, T: VxK> VxIntoIter for &'a BTreeSet<T> {
    type It = &'a T;
    open spec fn it_ok(&self, s: Seq<&'a T>) -> bool { set_it(self@, s) }
    #[verifier::external_body]
    fn vx_into_iter(self) -> VxIter<&'a T> { unimplemented!() }
}
impl<T: VxK> VxIntoIter for HashSet<T> {
    type It = T;
    open spec fn it_ok(&self, s: Seq<T>) -> bool { set_it(self@, s) }
    #[verifier::external_body]
    fn vx_into_iter(self) -> VxIter<T> { unimplemented!() }
}
impl<'a, T: VxK> VxIntoIter for &'a HashSet<T> {
    type It = &'a T;
    open spec fn it_ok(&self, s: Seq<&'a T>) -> bool { set_it(self@, s) }
    #[verifier::external_body]
    fn vx_into_iter(self) -> VxIter<&'a T> { unimplemented!() }
}

pub trait VxIterRef<'a> {
    type T;
    spec fn itr_ok(&self, s: Seq<&'a Self::T>) -> bool;
    fn vx_iter(&'a self) -> (r: VxIter<&'a Self::T>)
        ensures r.pos() == 0, self.itr_ok(r.all());
}
impl<'a, T: 'a> VxIterRef<'a> for Vec<T> {
    type T = T;
    open spec fn itr_ok(&self, s: Seq<&'a T>) -> bool { s.len() == self@.len() && forall|j: int| 0 <= j < s.len() ==> *(#[trigger] s[j]) == self@[j] }
    #[verifier::external_body]
    fn vx_iter(&'a self) -> VxIter<&'a T> { unimplemented!() }
}
impl<'a, T: 'a> VxIterRef<'a> for [T] {
    type T = T;
    open spec fn itr_ok(&self, s: Seq<&'a T>) -> bool { s.len() == self@.len() && forall|j: int| 0 <= j < s.len() ==> *(#[trigger] s[j]) == self@[j] }
    #[verifier::external_body]
    fn vx_iter(&'a self) -> VxIter<&'a T> { unimplemented!() }
}
impl<'a, T: VxK + 'a> VxIterRef<'a> for BTreeSet<T> {
    type T = T;
    open spec fn itr_ok(&self, s: Seq<&'a T>) -> bool { set_it(self@, s) }
    #[verifier::external_body]
    fn vx_iter(&'a self) -> VxIter<&'a T> { unimplemented!() }
}
impl<'a, T: VxK + 'a> VxIterRef<'a> for HashSet<T> {
    type T = T;
    open spec fn itr_ok(&self, s: Seq<&'a T>) -> bool { set_it(self@, s) }
    #[verifier::external_body]
    fn vx_iter(&'a self) -> VxIter<&'a T> { unimplemented!() }
}

// ------------------------------------------------------------------ sets

#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct BTreeSet<T> { t: core::marker::PhantomData<T> }

impl<T: VxK> View for BTreeSet<T> {
    type V = ISet<T::K>;
    uninterp spec fn view(&self) -> ISet<T::K>;
}

impl<T: VxK> BTreeSet<T> {
    #[verifier::external_body]
    pub fn new() -> (r: Self)
        ensures r@ == ISet::<T::K>::empty(),
    { unimplemented!() }

    #[verifier::external_body]
    pub fn insert(&mut self, x: T) -> (r: bool)
        ensures final(self)@ == old(self)@.insert(x.k()), r == !old(self)@.contains(x.k()),
    { unimplemented!() }

    #[verifier::external_body]
    pub fn remove<Q: VxK<K = T::K>>(&mut self, x: &Q) -> (r: bool)
        ensures final(self)@ == old(self)@.remove(x.k()), r == old(self)@.contains(x.k()),
    { unimplemented!() }

    #[verifier::external_body]
    pub fn clear(&mut self)
        ensures final(self)@ == ISet::<T::K>::empty(),
    { unimplemented!() }

    #[verifier::external_body]
    pub fn contains(&self, x: &T) -> (r: bool)
        ensures r == self@.contains(x.k()),
    { unimplemented!() }

    #[verifier::external_body]
    pub fn is_disjoint(&self, o: &Self) -> (r: bool)
        ensures r == self@.disjoint(o@),
    { unimplemented!() }

    #[verifier::external_body]
    pub fn is_subset(&self, o: &Self) -> (r: bool)
        ensures r == self@.subset_of(o@),
    { unimplemented!() }

    #[verifier::external_body]
    pub fn is_superset(&self, o: &Self) -> (r: bool)
        ensures r == o@.subset_of(self@),
    { unimplemented!() }

    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool)
        ensures r == (self@ =~= ISet::<T::K>::empty()),
    { unimplemented!() }

    #[verifier::external_body]
    pub fn len(&self) -> (r: usize)
        ensures self@.finite(), r == self@.len(), r == 0 <==> self@ =~= ISet::<T::K>::empty(),
    { unimplemented!() }

    #[verifier::external_body]
    pub fn union<'a>(&'a self, o: &'a Self) -> (r: VxIter<&'a T>)
        ensures r.pos() == 0, set_it(self@.union(o@), r.all()),
    { unimplemented!() }

    #[verifier::external_body]
    pub fn intersection<'a>(&'a self, o: &'a Self) -> (r: VxIter<&'a T>)
        ensures r.pos() == 0, set_it(self@.intersect(o@), r.all()),
    { unimplemented!() }

    #[verifier::external_body]
    pub fn difference<'a>(&'a self, o: &'a Self) -> (r: VxIter<&'a T>)
        ensures r.pos() == 0, set_it(self@.difference(o@), r.all()),
    { unimplemented!() }

    #[verifier::external_body]
    pub fn vx_from_iter(i: VxIter<T>) -> (r: Self)
        requires i.pos() == 0,
        ensures r@ == kset(i.all()),
    { unimplemented!() }

    #[verifier::external_body]
    pub fn vx_set1(x: T) -> (r: Self)
        ensures r@ == ISet::<T::K>::empty().insert(x.k()),
    { unimplemented!() }
}

impl<T: VxK> Clone for BTreeSet<T> {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self)
        ensures r@ == self@,
    { unimplemented!() }
}

impl<T: VxK> VxClone for BTreeSet<T> {
    open spec fn same(&self, o: &Self) -> bool { self@ == o@ }
    fn vx_clone(&self) -> (r: Self) { self.clone() }
}

impl<T: VxK> PartialEq for BTreeSet<T> {
    #[verifier::external_body]
    fn eq(&self, o: &Self) -> (r: bool) { unimplemented!() }
}
impl<T: VxK> vstd::std_specs::cmp::PartialEqSpecImpl for BTreeSet<T> {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Self) -> bool { self@ == o@ }
}

impl<T: VxK> VxK for BTreeSet<T> { type K = ISet<T::K>; open spec fn k(&self) -> ISet<T::K> { self@ } }

impl<T: VxK> VxExtend<BTreeSet<T>> for BTreeSet<T> {
    open spec fn ext_ok(a: Self, src: BTreeSet<T>, b: Self) -> bool { b@ == a@.union(src@) }
    #[verifier::external_body]
    fn vx_extend(&mut self, src: BTreeSet<T>) { unimplemented!() }
}
impl<T: VxK> VxExtend<VxIter<T>> for BTreeSet<T> {
    open spec fn ext_ok(a: Self, src: VxIter<T>, b: Self) -> bool { src.pos() == 0 ==> b@ == a@.union(kset(src.all())) }
    #[verifier::external_body]
    fn vx_extend(&mut self, src: VxIter<T>) { unimplemented!() }
}
impl<'a, T: VxK> VxExtend<&'a BTreeSet<T>> for BTreeSet<T> {
    open spec fn ext_ok(a: Self, src: &'a BTreeSet<T>, b: Self) -> bool { b@ == a@.union(src@) }
    #[verifier::external_body]
    fn vx_extend(&mut self, src: &'a BTreeSet<T>) { unimplemented!() }
}
impl<T: VxK> VxExtend<Vec<T>> for BTreeSet<T> {
    open spec fn ext_ok(a: Self, src: Vec<T>, b: Self) -> bool { b@ == a@.union(kset(src@)) }
    #[verifier::external_body]
    fn vx_extend(&mut self, src: Vec<T>) { unimplemented!() }
}
impl<T: VxK> VxContains<T> for BTreeSet<T> {
    open spec fn has(&self, x: &T) -> bool { self@.contains(x.k()) }
    fn vx_contains(&self, x: &T) -> bool { self.contains(x) }
}
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct HashSet<T> { t: core::marker::PhantomData<T> }

impl<T: VxK> View for HashSet<T> {
    type V = ISet<T::K>;
    uninterp spec fn view(&self) -> ISet<T::K>;
}

impl<T: VxK> HashSet<T> {
    #[verifier::external_body]
    pub fn new() -> (r: Self)
        ensures r@ == ISet::<T::K>::empty(),
    { unimplemented!() }

    #[verifier::external_body]
    pub fn insert(&mut self, x: T) -> (r: bool)
        ensures final(self)@ == old(self)@.insert(x.k()), r == !old(self)@.contains(x.k()),
    { unimplemented!() }

    #[verifier::external_body]
    pub fn remove<Q: VxK<K = T::K>>(&mut self, x: &Q) -> (r: bool)
        ensures final(self)@ == old(self)@.remove(x.k()), r == old(self)@.contains(x.k()),
    { unimplemented!() }

    #[verifier::external_body]
    pub fn clear(&mut self)
        ensures final(self)@ == ISet::<T::K>::empty(),
    { unimplemented!() }

    #[verifier::external_body]
    pub fn contains(&self, x: &T) -> (r: bool)
        ensures r == self@.contains(x.k()),
    { unimplemented!() }

    #[verifier::external_body]
    pub fn is_disjoint(&self, o: &Self) -> (r: bool)
        ensures r == self@.disjoint(o@),
    { unimplemented!() }

    #[verifier::external_body]
    pub fn is_subset(&self, o: &Self) -> (r: bool)
        ensures r == self@.subset_of(o@),
    { unimplemented!() }

    #[verifier::external_body]
    pub fn is_superset(&self, o: &Self) -> (r: bool)
        ensures r == o@.subset_of(self@),
    { unimplemented!() }

    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool)
        ensures r == (self@ =~= ISet::<T::K>::empty()),
    { unimplemented!() }

    #[verifier::external_body]
    pub fn len(&self) -> (r: usize)
        ensures self@.finite(), r == self@.len(), r == 0 <==> self@ =~= ISet::<T::K>::empty(),
    { unimplemented!() }

    #[verifier::external_body]
    pub fn union<'a>(&'a self, o: &'a Self) -> (r: VxIter<&'a T>)
        ensures r.pos() == 0, set_it(self@.union(o@), r.all()),
    { unimplemented!() }

    #[verifier::external_body]
    pub fn intersection<'a>(&'a self, o: &'a Self) -> (r: VxIter<&'a T>)
        ensures r.pos() == 0, set_it(self@.intersect(o@), r.all()),
    { unimplemented!() }

    #[verifier::external_body]
    pub fn difference<'a>(&'a self, o: &'a Self) -> (r: VxIter<&'a T>)
        ensures r.pos() == 0, set_it(self@.difference(o@), r.all()),
    { unimplemented!() }

    #[verifier::external_body]
    pub fn vx_from_iter(i: VxIter<T>) -> (r: Self)
        requires i.pos() == 0,
        ensures r@ == kset(i.all()),
    { unimplemented!() }

    #[verifier::external_body]
    pub fn vx_set1(x: T) -> (r: Self)
        ensures r@ == ISet::<T::K>::empty().insert(x.k()),
    { unimplemented!() }
}

impl<T: VxK> Clone for HashSet<T> {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self)
        ensures r@ == self@,
    { unimplemented!() }
}

impl<T: VxK> VxClone for HashSet<T> {
    open spec fn same(&self, o: &Self) -> bool { self@ == o@ }
    fn vx_clone(&self) -> (r: Self) { self.clone() }
}

impl<T: VxK> PartialEq for HashSet<T> {
    #[verifier::external_body]
    fn eq(&self, o: &Self) -> (r: bool) { unimplemented!() }
}
impl<T: VxK> vstd::std_specs::cmp::PartialEqSpecImpl for HashSet<T> {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Self) -> bool { self@ == o@ }
}

impl<T: VxK> VxK for HashSet<T> { type K = ISet<T::K>; open spec fn k(&self) -> ISet<T::K> { self@ } }

impl<T: VxK> VxExtend<HashSet<T>> for HashSet<T> {
    open spec fn ext_ok(a: Self, src: HashSet<T>, b: Self) -> bool { b@ == a@.union(src@) }
    #[verifier::external_body]
    fn vx_extend(&mut self, src: HashSet<T>) { unimplemented!() }
}
impl<T: VxK> VxExtend<VxIter<T>> for HashSet<T> {
    open spec fn ext_ok(a: Self, src: VxIter<T>, b: Self) -> bool { src.pos() == 0 ==> b@ == a@.union(kset(src.all())) }
    #[verifier::external_body]
    fn vx_extend(&mut self, src: VxIter<T>) { unimplemented!() }
}
impl<'a, T: VxK> VxExtend<&'a HashSet<T>> for HashSet<T> {
    open spec fn ext_ok(a: Self, src: &'a HashSet<T>, b: Self) -> bool { b@ == a@.union(src@) }
    #[verifier::external_body]
    fn vx_extend(&mut self, src: &'a HashSet<T>) { unimplemented!() }
}
impl<T: VxK> VxExtend<Vec<T>> for HashSet<T> {
    open spec fn ext_ok(a: Self, src: Vec<T>, b: Self) -> bool { b@ == a@.union(kset(src@)) }
    #[verifier::external_body]
    fn vx_extend(&mut self, src: Vec<T>) { unimplemented!() }
}
impl<T: VxK> VxExtend<BTreeSet<T>> for HashSet<T> {
    open spec fn ext_ok(a: Self, src: BTreeSet<T>, b: Self) -> bool { b@ == a@.union(src@) }
    #[verifier::external_body]
    fn vx_extend(&mut self, src: BTreeSet<T>) { unimplemented!() }
}
impl<'a, T: VxK> VxExtend<&'a BTreeSet<T>> for HashSet<T> {
    open spec fn ext_ok(a: Self, src: &'a BTreeSet<T>, b: Self) -> bool { b@ == a@.union(src@) }
    #[verifier::external_body]
    fn vx_extend(&mut self, src: &'a BTreeSet<T>) { unimplemented!() }
}
impl<T: VxK> VxContains<T> for HashSet<T> {
    open spec fn has(&self, x: &T) -> bool { self@.contains(x.k()) }
    fn vx_contains(&self, x: &T) -> bool { self.contains(x) }
}
impl<'a, T: VxK> VxContains<T> for HashSet<&'a T> {
    open spec fn has(&self, x: &T) -> bool { self@.contains(x.k()) }
    #[verifier::external_body]
    fn vx_contains(&self, x: &T) -> bool { unimplemented!() }
}
// ------------------------------------------------------------------ maps
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::accept_recursive_types(V)]
pub struct HashMap<K, V> { k: core::marker::PhantomData<K>, v: core::marker::PhantomData<V> }

impl<K: VxK, V> View for HashMap<K, V> {
    type V = IMap<K::K, V>;
    uninterp spec fn view(&self) -> IMap<K::K, V>;
}
impl<K: VxK, V> HashMap<K, V> {
    #[verifier::external_body]
    pub fn new() -> (r: Self)
        ensures r@ == IMap::<K::K, V>::empty(),
    { unimplemented!() }

    #[verifier::external_body]
    pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>)
        ensures final(self)@ == old(self)@.insert(k.k(), v),
            r == (if old(self)@.contains_key(k.k()) { Some(old(self)@[k.k()]) } else { None }),
    { unimplemented!() }

    #[verifier::external_body]
    pub fn remove(&mut self, k: &K) -> (r: Option<V>)
        ensures final(self)@ == old(self)@.remove(k.k()),
            r == (if old(self)@.contains_key(k.k()) { Some(old(self)@[k.k()]) } else { None }),
    { unimplemented!() }

    #[verifier::external_body]
    pub fn contains_key(&self, k: &K) -> (r: bool)
        ensures r == self@.contains_key(k.k()),
    { unimplemented!() }

    #[verifier::external_body]
    pub fn get(&self, k: &K) -> (r: Option<&V>)
        ensures match r { Some(v) => self@.contains_key(k.k()) && *v == self@[k.k()], None => !self@.contains_key(k.k()) },
    { unimplemented!() }

    #[verifier::external_body]
    pub fn len(&self) -> (r: usize)
        ensures r == 0 <==> self@ == IMap::<K::K, V>::empty(),
    { unimplemented!() }

    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool)
        ensures r == (self@ == IMap::<K::K, V>::empty()),
    { unimplemented!() }
}
impl<K: VxK, V> HashMap<K, V> {
    #[verifier::external_body]
    pub fn get_mut(&mut self, k: &K) -> (r: Option<&mut V>)
        ensures r is Some == old(self)@.contains_key(k.k()),
            r is Some ==> *(r->Some_0) == old(self)@[k.k()] && final(self)@ == old(self)@.insert(k.k(), *final(r->Some_0)),
            r is None ==> final(self)@ == old(self)@,
    { unimplemented!() }
}
impl<K: VxK, T> HashMap<K, Vec<T>> {
    /// `m.entry(k).or_insert_with(Vec::new).push(x)`
    #[verifier::external_body]
    pub fn vx_entry_push(&mut self, k: K, x: T)
        ensures final(self)@.dom() == old(self)@.dom().insert(k.k()),
            forall|j: K::K| j != k.k() && old(self)@.contains_key(j) ==> #[trigger] final(self)@[j] == old(self)@[j],
            final(self)@[k.k()]@ == (if old(self)@.contains_key(k.k()) { old(self)@[k.k()]@ } else { Seq::empty() }).push(x),
    { unimplemented!() }
}
impl<K: VxK, V> VxIntoIter for HashMap<K, V> {
    type It = (K, V);
    /// every entry exactly once, in any order
    open spec fn it_ok(&self, s: Seq<(K, V)>) -> bool {
        &&& forall|a: int| 0 <= a < s.len() ==> self@.contains_key((#[trigger] s[a]).0.k()) && self@[s[a].0.k()] == s[a].1
        &&& forall|x: K::K| #[trigger] self@.contains_key(x) ==> exists|a: int| 0 <= a < s.len() && (#[trigger] s[a]).0.k() == x
        &&& forall|a: int, b: int| 0 <= a < b < s.len() ==> (#[trigger] s[a]).0.k() != (#[trigger] s[b]).0.k()
    }
    #[verifier::external_body]
    fn vx_into_iter(self) -> VxIter<(K, V)> { unimplemented!() }
}

pub trait VxContains<T> {
    spec fn has(&self, x: &T) -> bool;
    fn vx_contains(&self, x: &T) -> (r: bool) ensures r == self.has(x);
}
impl<T: VxK> VxContains<T> for Vec<T> {
    open spec fn has(&self, x: &T) -> bool { kset(self@).contains(x.k()) }
    #[verifier::external_body]
    fn vx_contains(&self, x: &T) -> bool { unimplemented!() }
}

pub trait VxExtend<S>: Sized {
    spec fn ext_ok(a: Self, src: S, b: Self) -> bool;
    fn vx_extend(&mut self, src: S) ensures Self::ext_ok(*old(self), src, *final(self));
}
impl<T> VxExtend<Vec<T>> for Vec<T> {
    open spec fn ext_ok(a: Self, src: Vec<T>, b: Self) -> bool { b@ == a@ + src@ }
    #[verifier::external_body]
    fn vx_extend(&mut self, src: Vec<T>) { unimplemented!() }
}
impl<T> VxExtend<VxIter<T>> for Vec<T> {
    open spec fn ext_ok(a: Self, src: VxIter<T>, b: Self) -> bool { b@ == a@ + src.all().skip(src.pos() as int) }
    #[verifier::external_body]
    fn vx_extend(&mut self, src: VxIter<T>) { unimplemented!() }
}

pub trait VxLast<T> {
    spec fn lview(&self) -> Seq<T>;
    fn vx_last<'a>(&'a self) -> (r: Option<&'a T>)
        ensures self.lview().len() == 0 ==> r is None, self.lview().len() > 0 ==> r is Some && *(r->0) == self.lview().last();
}
impl<T> VxLast<T> for Vec<T> {
    open spec fn lview(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn vx_last<'a>(&'a self) -> Option<&'a T> { unimplemented!() }
}

pub trait VxSort {
    spec fn sorted_of(&self, o: &Self) -> bool;
    fn vx_sort(&mut self) ensures old(self).sorted_of(final(self));
}
/// the order itself is not specified
impl<T> VxSort for Vec<T> {
    open spec fn sorted_of(&self, o: &Self) -> bool { o@.to_multiset() == self@.to_multiset() && o@.len() == self@.len() }
    #[verifier::external_body]
    fn vx_sort(&mut self) { unimplemented!() }
}

/// `v.drain(..)`: all the elements, the vector is left empty
pub trait VxDrain<T> {
    spec fn dview(&self) -> Seq<T>;
    fn vx_drain_all(&mut self) -> (r: VxIter<T>)
        ensures r.pos() == 0, r.all() == old(self).dview(), final(self).dview() == Seq::<T>::empty();
}
impl<T> VxDrain<T> for Vec<T> {
    open spec fn dview(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn vx_drain_all(&mut self) -> (r: VxIter<T>) { unimplemented!() }
}

#[verifier::external_body]
pub fn vx_unreachable() -> !
    requires false,
{ unimplemented!() }

pub trait VxOrdOps: Sized {
    spec fn max_of(a: Self, b: Self) -> Self;
    spec fn min_of(a: Self, b: Self) -> Self;
    fn vx_max(self, o: Self) -> (r: Self) ensures r == Self::max_of(self, o);
    fn vx_min(self, o: Self) -> (r: Self) ensures r == Self::min_of(self, o);
}
impl VxOrdOps for u32 {
    open spec fn max_of(a: u32, b: u32) -> u32 { if a >= b { a } else { b } }
    open spec fn min_of(a: u32, b: u32) -> u32 { if a <= b { a } else { b } }
    fn vx_max(self, o: u32) -> u32 { if self >= o { self } else { o } }
    fn vx_min(self, o: u32) -> u32 { if self <= o { self } else { o } }
}
impl VxOrdOps for usize {
    open spec fn max_of(a: usize, b: usize) -> usize { if a >= b { a } else { b } }
    open spec fn min_of(a: usize, b: usize) -> usize { if a <= b { a } else { b } }
    fn vx_max(self, o: usize) -> usize { if self >= o { self } else { o } }
    fn vx_min(self, o: usize) -> usize { if self <= o { self } else { o } }
}

#[verifier::external_body]
pub fn vx_assert(b: bool)
    requires b,
{ unimplemented!() }

#[verifier::external_body]
pub fn vx_range(a: usize, b: usize) -> (r: VxIter<usize>)
    ensures r.pos() == 0, r.all().len() == (if a <= b { b - a } else { 0 }), forall|j: int| 0 <= j < r.all().len() ==> #[trigger] r.all()[j] == a + j,
        forall|x: usize| #[trigger] kset(r.all()).contains(x) <==> a <= x < b,
{ unimplemented!() }

/// slice::reverse
pub trait VxReverse: Sized + View {
    fn vx_reverse(&mut self);
}
impl<T> VxReverse for Vec<T> {
    #[verifier::external_body]
    fn vx_reverse(&mut self)
        ensures final(self)@ == old(self)@.reverse(),
    { unimplemented!() }
}
/// `.to_string()` of a string
pub trait VxToString { fn vx_to_string(&self) -> String; }
impl VxToString for String {
    #[verifier::external_body]
    fn vx_to_string(&self) -> (r: String)
        ensures r@ == self@,
    { unimplemented!() }
}
impl VxToString for str {
    #[verifier::external_body]
    fn vx_to_string(&self) -> (r: String)
        ensures r@ == self@,
    { unimplemented!() }
}
/// equality of strings
#[verifier::external_body]
pub fn vx_str_eq(a: &str, b: &str) -> (r: bool)
    ensures r == (a@ == b@),
{ a == b }
