// ============================================================================================
// Transformations of interactions keep the accepted traces (ghost code only).
// ============================================================================================

pub proof fn l_assoc_si(c: MOp, x: SI, y: SI, z: SI)
    requires !(c is Sync),
    ensures semeq(op(c, op(c, x, y), z), op(c, x, op(c, y, z))),
{
    let i = op(c, op(c, x, y), z);
    let j = op(c, x, op(c, y, z));
    assert forall|t: Tr| sem(i, t) == #[trigger] sem(j, t) by {
        if sem(i, t) {
            let (u, t3) = choose|u: Tr, t3: Tr| #![trigger mrg(c, u, t3, t)] sem(op(c, x, y), u) && sem(z, t3) && mrg(c, u, t3, t);
            let (t1, t2) = choose|t1: Tr, t2: Tr| #![trigger mrg(c, t1, t2, u)] sem(x, t1) && sem(y, t2) && mrg(c, t1, t2, u);
            let v = l_assoc_r(c, t1, t2, t3, u, t);
            assert(sem(op(c, y, z), v));
        }
        if sem(j, t) {
            let (t1, v) = choose|t1: Tr, v: Tr| #![trigger mrg(c, t1, v, t)] sem(x, t1) && sem(op(c, y, z), v) && mrg(c, t1, v, t);
            let (t2, t3) = choose|t2: Tr, t3: Tr| #![trigger mrg(c, t2, t3, v)] sem(y, t2) && sem(z, t3) && mrg(c, t2, t3, v);
            let u = l_assoc_l(c, t1, t2, t3, v, t);
            assert(sem(op(c, x, y), u));
        }
    }
    reveal(semeq);
}

pub proof fn l_comm_si(x: SI, y: SI)
    ensures semeq(op(MOp::Par, x, y), op(MOp::Par, y, x)),
{
    let c = MOp::Par;
    let i = op(c, x, y);
    let j = op(c, y, x);
    assert forall|t: Tr| sem(i, t) == #[trigger] sem(j, t) by {
        if sem(i, t) {
            let (t1, t2) = choose|t1: Tr, t2: Tr| #![trigger mrg(c, t1, t2, t)] sem(x, t1) && sem(y, t2) && mrg(c, t1, t2, t);
            l_par_comm(t1, t2, t);
        }
        if sem(j, t) {
            let (t1, t2) = choose|t1: Tr, t2: Tr| #![trigger mrg(c, t1, t2, t)] sem(y, t1) && sem(x, t2) && mrg(c, t1, t2, t);
            l_par_comm(t1, t2, t);
        }
    }
    reveal(semeq);
}

pub proof fn l_dist_l(c: MOp, x: SI, y: SI, z: SI)
    ensures semeq(op(c, x, al(y, z)), al(op(c, x, y), op(c, x, z))),
{
    let i = op(c, x, al(y, z));
    let j = al(op(c, x, y), op(c, x, z));
    assert forall|t: Tr| sem(i, t) == #[trigger] sem(j, t) by {
        if sem(i, t) {
            let (t1, t2) = choose|t1: Tr, t2: Tr| #![trigger mrg(c, t1, t2, t)] sem(x, t1) && sem(al(y, z), t2) && mrg(c, t1, t2, t);
            if sem(y, t2) { assert(sem(op(c, x, y), t)); } else { assert(sem(op(c, x, z), t)); }
        }
        if sem(op(c, x, y), t) {
            let (t1, t2) = choose|t1: Tr, t2: Tr| #![trigger mrg(c, t1, t2, t)] sem(x, t1) && sem(y, t2) && mrg(c, t1, t2, t);
            assert(sem(al(y, z), t2));
        }
        if sem(op(c, x, z), t) {
            let (t1, t2) = choose|t1: Tr, t2: Tr| #![trigger mrg(c, t1, t2, t)] sem(x, t1) && sem(z, t2) && mrg(c, t1, t2, t);
            assert(sem(al(y, z), t2));
        }
    }
    reveal(semeq);
}

pub proof fn l_dist_r(c: MOp, x: SI, y: SI, z: SI)
    ensures semeq(op(c, al(x, y), z), al(op(c, x, z), op(c, y, z))),
{
    let i = op(c, al(x, y), z);
    let j = al(op(c, x, z), op(c, y, z));
    assert forall|t: Tr| sem(i, t) == #[trigger] sem(j, t) by {
        if sem(i, t) {
            let (t1, t2) = choose|t1: Tr, t2: Tr| #![trigger mrg(c, t1, t2, t)] sem(al(x, y), t1) && sem(z, t2) && mrg(c, t1, t2, t);
            if sem(x, t1) { assert(sem(op(c, x, z), t)); } else { assert(sem(op(c, y, z), t)); }
        }
        if sem(op(c, x, z), t) {
            let (t1, t2) = choose|t1: Tr, t2: Tr| #![trigger mrg(c, t1, t2, t)] sem(x, t1) && sem(z, t2) && mrg(c, t1, t2, t);
            assert(sem(al(x, y), t1));
        }
        if sem(op(c, y, z), t) {
            let (t1, t2) = choose|t1: Tr, t2: Tr| #![trigger mrg(c, t1, t2, t)] sem(y, t1) && sem(z, t2) && mrg(c, t1, t2, t);
            assert(sem(al(x, y), t1));
        }
    }
    reveal(semeq);
}

pub proof fn l_alt_assoc(x: SI, y: SI, z: SI)
    ensures semeq(al(al(x, y), z), al(x, al(y, z))),
{
    reveal(semeq);
    assert forall|t: Tr| sem(al(al(x, y), z), t) == #[trigger] sem(al(x, al(y, z)), t) by {
        assert(sem(al(x, y), t) == (sem(x, t) || sem(y, t)));
        assert(sem(al(y, z), t) == (sem(y, t) || sem(z, t)));
    }
}

// ---------------------------------------------------------------- n-ary operators

pub open spec fn fo(c: MOp, s: Seq<SI>) -> SI
    decreases s.len(),
{
    if s.len() == 0 { SI::Empty } else if s.len() == 1 { s[0] } else { op(c, s[0], fo(c, s.drop_first())) }
}

pub open spec fn fa(s: Seq<SI>) -> SI
    decreases s.len(),
{
    if s.len() == 0 { SI::Empty } else if s.len() == 1 { s[0] } else { al(s[0], fa(s.drop_first())) }
}

/// same traces, on a term of the supported fragment
pub open spec fn tr(i: SI, r: SI) -> bool {
    semeq(i, r) && conf(r)
}

pub proof fn l_fo_cons(c: MOp, s: Seq<SI>)
    requires !(c is Sync), s.len() > 0,
    ensures semeq(fo(c, s), op(c, s[0], fo(c, s.drop_first()))),
{
    if s.len() == 1 {
        assert(s.drop_first().len() == 0);
        l_neutral(c, s[0]);
        l_eq_sym(op(c, s[0], SI::Empty), s[0]);
    } else {
        b_semeq_refl(fo(c, s));
    }
}

pub proof fn l_fo_app(c: MOp, s: Seq<SI>, u: Seq<SI>)
    requires !(c is Sync),
    ensures semeq(fo(c, s + u), op(c, fo(c, s), fo(c, u))),
    decreases s.len(),
{
    if s.len() == 0 {
        assert(s + u =~= u);
        l_neutral(c, fo(c, u));
        l_eq_sym(op(c, SI::Empty, fo(c, u)), fo(c, u));
    } else {
        let r = s.drop_first();
        let fu = fo(c, u);
        assert((s + u).drop_first() =~= r + u);
        l_fo_cons(c, s + u);
        l_fo_app(c, r, u);
        b_semeq_refl(s[0]);
        b_semeq_refl(fu);
        b_eq_op(c, s[0], fo(c, r + u), s[0], op(c, fo(c, r), fu));
        l_eq_trans(fo(c, s + u), op(c, s[0], fo(c, r + u)), op(c, s[0], op(c, fo(c, r), fu)));
        l_assoc_si(c, s[0], fo(c, r), fu);
        l_eq_sym(op(c, op(c, s[0], fo(c, r)), fu), op(c, s[0], op(c, fo(c, r), fu)));
        l_eq_trans(fo(c, s + u), op(c, s[0], op(c, fo(c, r), fu)), op(c, op(c, s[0], fo(c, r)), fu));
        l_fo_cons(c, s);
        l_eq_sym(fo(c, s), op(c, s[0], fo(c, r)));
        b_eq_op(c, op(c, s[0], fo(c, r)), fu, fo(c, s), fu);
        l_eq_trans(fo(c, s + u), op(c, op(c, s[0], fo(c, r)), fu), op(c, fo(c, s), fu));
    }
}

pub proof fn l_fo_push(c: MOp, s: Seq<SI>, x: SI)
    requires !(c is Sync),
    ensures semeq(fo(c, s.push(x)), op(c, fo(c, s), x)),
{
    assert(s.push(x) =~= s + seq![x]);
    l_fo_app(c, s, seq![x]);
    assert(fo(c, seq![x]) == x);
}

/// one more fragment, kept or dropped because it is empty
pub proof fn l_fo_step(c: MOp, s: Seq<SI>, u: Seq<SI>, x: SI)
    requires !(c is Sync), semeq(fo(c, s), fo(c, u)),
    ensures semeq(fo(c, s.push(x)), fo(c, u.push(x))), x is Empty ==> semeq(fo(c, s.push(x)), fo(c, u)),
{
    l_fo_push(c, s, x);
    l_fo_push(c, u, x);
    b_semeq_refl(x);
    b_eq_op(c, fo(c, s), x, fo(c, u), x);
    l_eq_trans(fo(c, s.push(x)), op(c, fo(c, s), x), op(c, fo(c, u), x));
    l_eq_sym(fo(c, u.push(x)), op(c, fo(c, u), x));
    l_eq_trans(fo(c, s.push(x)), op(c, fo(c, u), x), fo(c, u.push(x)));
    if x is Empty {
        l_neutral(c, fo(c, u));
        l_eq_trans(fo(c, s.push(x)), op(c, fo(c, u), x), fo(c, u));
    }
}

/// a fragment of an interleaving may be taken out
pub proof fn l_par_out(s: Seq<SI>, k: int)
    requires 0 <= k < s.len(),
    ensures semeq(fo(MOp::Par, s), op(MOp::Par, s[k], fo(MOp::Par, s.remove(k)))),
{
    let c = MOp::Par;
    let a = s.take(k);
    let b = s.skip(k + 1);
    let x = s[k];
    assert(s =~= a + (seq![x] + b));
    assert(s.remove(k) =~= a + b);
    let (fa_, fb) = (fo(c, a), fo(c, b));
    l_fo_app(c, a, seq![x] + b);
    l_fo_cons(c, seq![x] + b);
    assert((seq![x] + b).drop_first() =~= b);
    b_semeq_refl(fa_);
    b_semeq_refl(fb);
    b_semeq_refl(x);
    b_eq_op(c, fa_, fo(c, seq![x] + b), fa_, op(c, x, fb));
    l_eq_trans(fo(c, s), op(c, fa_, fo(c, seq![x] + b)), op(c, fa_, op(c, x, fb)));
    l_assoc_si(c, fa_, x, fb);
    l_eq_sym(op(c, op(c, fa_, x), fb), op(c, fa_, op(c, x, fb)));
    l_eq_trans(fo(c, s), op(c, fa_, op(c, x, fb)), op(c, op(c, fa_, x), fb));
    l_comm_si(fa_, x);
    b_eq_op(c, op(c, fa_, x), fb, op(c, x, fa_), fb);
    l_eq_trans(fo(c, s), op(c, op(c, fa_, x), fb), op(c, op(c, x, fa_), fb));
    l_assoc_si(c, x, fa_, fb);
    l_eq_trans(fo(c, s), op(c, op(c, x, fa_), fb), op(c, x, op(c, fa_, fb)));
    l_fo_app(c, a, b);
    l_eq_sym(fo(c, a + b), op(c, fa_, fb));
    b_eq_op(c, x, op(c, fa_, fb), x, fo(c, a + b));
    l_eq_trans(fo(c, s), op(c, x, op(c, fa_, fb)), op(c, x, fo(c, a + b)));
}

pub proof fn l_ms_remove<A>(s: Seq<A>, k: int)
    requires 0 <= k < s.len(),
    ensures s.remove(k).to_multiset() == s.to_multiset().remove(s[k]), s.to_multiset() == s.remove(k).to_multiset().insert(s[k]),
{
    s.to_multiset_ensures();
    assert(s.remove(k).to_multiset() =~= s.to_multiset().remove(s[k]));
    assert(s.to_multiset() =~= s.remove(k).to_multiset().insert(s[k]));
}

pub proof fn l_ms_find<A>(s: Seq<A>, u: Seq<A>, k: int) -> (m: int)
    requires s.to_multiset() == u.to_multiset(), 0 <= k < s.len(),
    ensures 0 <= m < u.len(), u[m] == s[k], s.remove(k).to_multiset() == u.remove(m).to_multiset(), s.len() == u.len(),
{
    s.to_multiset_ensures();
    u.to_multiset_ensures();
    assert(s.contains(s[k]));
    assert(s.to_multiset().count(s[k]) > 0);
    assert(u.contains(s[k]));
    let m = u.index_of(s[k]);
    l_ms_remove(s, k);
    l_ms_remove(u, m);
    m
}

/// the order of the fragments of an interleaving does not matter
pub proof fn l_par_perm(s: Seq<SI>, u: Seq<SI>)
    requires s.to_multiset() == u.to_multiset(),
    ensures semeq(fo(MOp::Par, s), fo(MOp::Par, u)),
    decreases s.len(),
{
    let c = MOp::Par;
    s.to_multiset_ensures();
    u.to_multiset_ensures();
    assert(s.len() == u.len());
    if s.len() == 0 {
        assert(s =~= u);
        b_semeq_refl(fo(c, s));
    } else {
        let m = l_ms_find(s, u, 0);
        let x = s[0];
        l_par_perm(s.remove(0), u.remove(m));
        l_par_out(s, 0);
        l_par_out(u, m);
        b_semeq_refl(x);
        b_eq_op(c, x, fo(c, s.remove(0)), x, fo(c, u.remove(m)));
        l_eq_trans(fo(c, s), op(c, x, fo(c, s.remove(0))), op(c, x, fo(c, u.remove(m))));
        l_eq_sym(fo(c, u), op(c, x, fo(c, u.remove(m))));
        l_eq_trans(fo(c, s), op(c, x, fo(c, u.remove(m))), fo(c, u));
    }
}

pub open spec fn anyof(s: Seq<SI>, t: Tr) -> bool {
    exists|j: int| 0 <= j < s.len() && sem(#[trigger] s[j], t)
}

pub proof fn l_fa_sem(s: Seq<SI>, t: Tr)
    requires s.len() > 0,
    ensures sem(fa(s), t) == anyof(s, t),
    decreases s.len(),
{
    if s.len() == 1 {
        if sem(fa(s), t) { assert(sem(s[0], t)); }
    } else {
        let r = s.drop_first();
        l_fa_sem(r, t);
        if anyof(r, t) {
            let j = choose|j: int| 0 <= j < r.len() && sem(#[trigger] r[j], t);
            assert(s[j + 1] == r[j]);
        }
        if sem(s[0], t) { assert(anyof(s, t)); }
        if anyof(s, t) {
            let j = choose|j: int| 0 <= j < s.len() && sem(#[trigger] s[j], t);
            if j > 0 { assert(r[j - 1] == s[j]); }
        }
    }
}

/// the order and the multiplicity of the branches do not matter
pub proof fn l_fa_set(s: Seq<SI>, u: Seq<SI>)
    requires s.len() > 0, u.len() > 0, forall|x: SI| #[trigger] s.contains(x) == u.contains(x),
    ensures semeq(fa(s), fa(u)),
{
    reveal(semeq);
    assert forall|t: Tr| sem(fa(s), t) == #[trigger] sem(fa(u), t) by {
        l_fa_sem(s, t);
        l_fa_sem(u, t);
        if anyof(s, t) {
            let j = choose|j: int| 0 <= j < s.len() && sem(#[trigger] s[j], t);
            assert(s.contains(s[j]));
            let k = choose|k: int| 0 <= k < u.len() && u[k] == s[j];
            assert(sem(u[k], t));
        }
        if anyof(u, t) {
            let j = choose|j: int| 0 <= j < u.len() && sem(#[trigger] u[j], t);
            assert(u.contains(u[j]));
            assert(s.contains(u[j]));
            let k = choose|k: int| 0 <= k < s.len() && s[k] == u[j];
            assert(sem(s[k], t));
        }
    }
}

pub proof fn l_fa_app(s: Seq<SI>, u: Seq<SI>)
    requires s.len() > 0, u.len() > 0,
    ensures semeq(al(fa(s), fa(u)), fa(s + u)),
{
    reveal(semeq);
    assert forall|t: Tr| sem(al(fa(s), fa(u)), t) == #[trigger] sem(fa(s + u), t) by {
        l_fa_sem(s, t);
        l_fa_sem(u, t);
        l_fa_sem(s + u, t);
        if anyof(s, t) {
            let j = choose|j: int| 0 <= j < s.len() && sem(#[trigger] s[j], t);
            assert((s + u)[j] == s[j]);
        }
        if anyof(u, t) {
            let j = choose|j: int| 0 <= j < u.len() && sem(#[trigger] u[j], t);
            assert((s + u)[j + s.len()] == u[j]);
        }
        if anyof(s + u, t) {
            let j = choose|j: int| 0 <= j < (s + u).len() && sem(#[trigger] (s + u)[j], t);
            if j < s.len() { assert(s[j] == (s + u)[j]); } else { assert(u[j - s.len()] == (s + u)[j]); }
        }
    }
}

/// fragments of a term
pub open spec fn allconf(s: Seq<SI>) -> bool {
    forall|j: int| 0 <= j < s.len() ==> conf(#[trigger] s[j])
}
pub open spec fn frags(c: MOp, i: SI, s: Seq<SI>) -> bool {
    semeq(i, fo(c, s)) && s.len() > 0 && allconf(s)
}
pub open spec fn frags_alt(i: SI, s: Seq<SI>) -> bool {
    semeq(i, fa(s)) && s.len() > 0 && allconf(s)
}

pub broadcast proof fn b_frags_app(c: MOp, a: SI, b: SI, s: Seq<SI>, u: Seq<SI>)
    requires !(c is Sync), frags(c, a, s), frags(c, b, u),
    ensures #[trigger] frags(c, SI::Op(c, Box::new(a), Box::new(b)), s + u),
{
    b_eq_op(c, a, b, fo(c, s), fo(c, u));
    l_fo_app(c, s, u);
    l_eq_sym(fo(c, s + u), op(c, fo(c, s), fo(c, u)));
    l_eq_trans(op(c, a, b), op(c, fo(c, s), fo(c, u)), fo(c, s + u));
}

pub broadcast proof fn b_frags_one(c: MOp, a: SI, s: Seq<SI>)
    requires s.len() == 1, s[0] == a, conf(a),
    ensures #[trigger] frags(c, a, s),
{
    b_semeq_refl(a);
}

pub broadcast proof fn b_fralt_app(a: SI, b: SI, s: Seq<SI>, u: Seq<SI>)
    requires frags_alt(a, s), frags_alt(b, u),
    ensures #[trigger] frags_alt(SI::Alt(Box::new(a), Box::new(b)), s + u),
{
    b_eq_alt(a, b, fa(s), fa(u));
    l_fa_app(s, u);
    l_eq_trans(al(a, b), al(fa(s), fa(u)), fa(s + u));
}

pub broadcast proof fn b_fralt_one(a: SI, s: Seq<SI>)
    requires s.len() == 1, s[0] == a, conf(a),
    ensures #[trigger] frags_alt(a, s),
{
    b_semeq_refl(a);
}

pub broadcast proof fn b_kseq_app<T: VxK>(a: Seq<T>, b: Seq<T>)
    ensures #[trigger] kseq(a + b) == kseq(a) + kseq(b),
{
    assert(kseq(a + b) =~= kseq(a) + kseq(b));
}

pub broadcast proof fn b_kseq_len<T: VxK>(a: Seq<T>)
    ensures #[trigger] kseq(a).len() == a.len(),
{
}

pub broadcast proof fn b_kseq_push<T: VxK>(a: Seq<T>, x: T)
    ensures #[trigger] kseq(a.push(x)) == kseq(a).push(x.k()),
{
    assert(kseq(a.push(x)) =~= kseq(a).push(x.k()));
}

pub proof fn l_kseq_take<T: VxK>(a: Seq<T>, n: int)
    requires 0 <= n < a.len(),
    ensures kseq(a).take(n + 1) == kseq(a).take(n).push(a[n].k()),
{
    assert(kseq(a).take(n + 1) =~= kseq(a).take(n).push(a[n].k()));
}

pub broadcast group g_fr_ags { b_frags_app, b_frags_one, b_fralt_app, b_fralt_one, b_kseq_app }

// ---------------------------------------------------------------- rules

pub broadcast proof fn b_tr_flush(c: MOp, x: SI, y: SI, z: SI)
    requires !(c is Sync),
    ensures #[trigger] semeq(SI::Op(c, Box::new(SI::Op(c, Box::new(x), Box::new(y))), Box::new(z)), SI::Op(c, Box::new(x), Box::new(SI::Op(c, Box::new(y), Box::new(z))))),
{
    l_assoc_si(c, x, y, z);
}
pub broadcast proof fn b_tr_flush_alt(x: SI, y: SI, z: SI)
    ensures #[trigger] semeq(SI::Alt(Box::new(SI::Alt(Box::new(x), Box::new(y))), Box::new(z)), SI::Alt(Box::new(x), Box::new(SI::Alt(Box::new(y), Box::new(z))))),
{
    l_alt_assoc(x, y, z);
}
pub broadcast proof fn b_tr_dist_l(c: MOp, x: SI, y: SI, z: SI)
    ensures #[trigger] semeq(SI::Op(c, Box::new(x), Box::new(SI::Alt(Box::new(y), Box::new(z)))), SI::Alt(Box::new(SI::Op(c, Box::new(x), Box::new(y))), Box::new(SI::Op(c, Box::new(x), Box::new(z))))),
{
    l_dist_l(c, x, y, z);
}
pub broadcast proof fn b_tr_dist_r(c: MOp, x: SI, y: SI, z: SI)
    ensures #[trigger] semeq(SI::Op(c, Box::new(SI::Alt(Box::new(x), Box::new(y))), Box::new(z)), SI::Alt(Box::new(SI::Op(c, Box::new(x), Box::new(z))), Box::new(SI::Op(c, Box::new(y), Box::new(z))))),
{
    l_dist_r(c, x, y, z);
}
pub broadcast proof fn b_tr_unnest(k: LoopKind, k2: LoopKind, m: LoopKind, a: SI)
    requires loop_merge_ok(k, k2), m == lk_min(k, k2),
    ensures #[trigger] semeq(SI::Loop(k, Box::new(SI::Loop(k2, Box::new(a)))), SI::Loop(m, Box::new(a))),
{
    l_loop_merge(k, k2, a);
    l_eq_sym(lp(m, a), lp(k, lp(k2, a)));
}
pub broadcast proof fn b_tr_loop0(k: LoopKind)
    ensures #[trigger] semeq(SI::Loop(k, Box::new(SI::Empty)), SI::Empty),
{
    b_semeq_refl(SI::Empty);
    b_eq_loop_nil(k, SI::Empty);
    l_eq_sym(SI::Empty, lp(k, SI::Empty));
}

/// common first fragment of two branches
pub proof fn l_prefix(c: MOp, i1: SI, i2: SI, s: Seq<SI>, u: Seq<SI>)
    requires !(c is Sync), frags(c, i1, s), frags(c, i2, u), s[0] == u[0],
    ensures semeq(al(i1, i2), op(c, s[0], al(fo(c, s.remove(0)), fo(c, u.remove(0))))),
{
    let (p, q) = (fo(c, s.remove(0)), fo(c, u.remove(0)));
    assert(s.remove(0) =~= s.drop_first());
    assert(u.remove(0) =~= u.drop_first());
    l_fo_cons(c, s);
    l_fo_cons(c, u);
    l_eq_trans(i1, fo(c, s), op(c, s[0], p));
    l_eq_trans(i2, fo(c, u), op(c, s[0], q));
    b_eq_alt(i1, i2, op(c, s[0], p), op(c, s[0], q));
    l_dist_l(c, s[0], p, q);
    l_eq_sym(op(c, s[0], al(p, q)), al(op(c, s[0], p), op(c, s[0], q)));
    l_eq_trans(al(i1, i2), al(op(c, s[0], p), op(c, s[0], q)), op(c, s[0], al(p, q)));
}

pub proof fn l_prefix3(c: MOp, i1: SI, i21: SI, i22: SI, s: Seq<SI>, u: Seq<SI>)
    requires !(c is Sync), frags(c, i1, s), frags(c, i21, u), s[0] == u[0],
    ensures semeq(al(i1, al(i21, i22)), al(op(c, s[0], al(fo(c, s.remove(0)), fo(c, u.remove(0)))), i22)),
{
    let r = op(c, s[0], al(fo(c, s.remove(0)), fo(c, u.remove(0))));
    l_alt_assoc(i1, i21, i22);
    l_eq_sym(al(al(i1, i21), i22), al(i1, al(i21, i22)));
    l_prefix(c, i1, i21, s, u);
    b_semeq_refl(i22);
    b_eq_alt(al(i1, i21), i22, r, i22);
    l_eq_trans(al(i1, al(i21, i22)), al(al(i1, i21), i22), al(r, i22));
}

/// common last fragment
pub proof fn l_suffix(c: MOp, i1: SI, i2: SI, s: Seq<SI>, u: Seq<SI>)
    requires !(c is Sync), frags(c, i1, s), frags(c, i2, u), s.last() == u.last(),
    ensures semeq(al(i1, i2), op(c, al(fo(c, s.drop_last()), fo(c, u.drop_last())), s.last())),
{
    let x = s.last();
    let (p, q) = (fo(c, s.drop_last()), fo(c, u.drop_last()));
    assert(s.drop_last().push(x) =~= s);
    assert(u.drop_last().push(x) =~= u);
    l_fo_push(c, s.drop_last(), x);
    l_fo_push(c, u.drop_last(), x);
    l_eq_trans(i1, fo(c, s), op(c, p, x));
    l_eq_trans(i2, fo(c, u), op(c, q, x));
    b_eq_alt(i1, i2, op(c, p, x), op(c, q, x));
    l_dist_r(c, p, q, x);
    l_eq_sym(op(c, al(p, q), x), al(op(c, p, x), op(c, q, x)));
    l_eq_trans(al(i1, i2), al(op(c, p, x), op(c, q, x)), op(c, al(p, q), x));
}

/// common fragment of two interleavings
pub proof fn l_par_common(i1: SI, i2: SI, s: Seq<SI>, u: Seq<SI>, j: int, k: int)
    requires frags(MOp::Par, i1, s), frags(MOp::Par, i2, u), 0 <= j < s.len(), 0 <= k < u.len(), s[j] == u[k],
    ensures semeq(al(i1, i2), op(MOp::Par, s[j], al(fo(MOp::Par, s.remove(j)), fo(MOp::Par, u.remove(k))))),
        s[j] is Empty ==> semeq(al(i1, i2), al(fo(MOp::Par, s.remove(j)), fo(MOp::Par, u.remove(k)))),
{
    let c = MOp::Par;
    let x = s[j];
    let (p, q) = (fo(c, s.remove(j)), fo(c, u.remove(k)));
    l_par_out(s, j);
    l_par_out(u, k);
    l_eq_trans(i1, fo(c, s), op(c, x, p));
    l_eq_trans(i2, fo(c, u), op(c, x, q));
    b_eq_alt(i1, i2, op(c, x, p), op(c, x, q));
    l_dist_l(c, x, p, q);
    l_eq_sym(op(c, x, al(p, q)), al(op(c, x, p), op(c, x, q)));
    l_eq_trans(al(i1, i2), al(op(c, x, p), op(c, x, q)), op(c, x, al(p, q)));
    if x is Empty {
        l_neutral(c, al(p, q));
        l_eq_trans(al(i1, i2), op(c, x, al(p, q)), al(p, q));
    }
}

// ---------------------------------------------------------------- communications

pub proof fn l_lft_app(a: Seq<EmissionTargetRef>, b: Seq<EmissionTargetRef>)
    ensures lf_targets(a + b) == lf_targets(a) + lf_targets(b),
    decreases b.len(),
{
    if b.len() == 0 {
        assert(a + b =~= a);
        assert(lf_targets(a) + lf_targets(b) =~= lf_targets(a));
    } else {
        assert((a + b).drop_last() =~= a + b.drop_last());
        l_lft_app(a, b.drop_last());
        assert((a + b).last() == b.last());
        assert(lf_targets(a + b) =~= lf_targets(a) + lf_targets(b));
    }
}

pub proof fn l_lft_out(s: Seq<EmissionTargetRef>, k: int)
    requires 0 <= k < s.len(),
    ensures match s[k] {
        EmissionTargetRef::Lifeline(l) => lf_targets(s).to_multiset() == lf_targets(s.remove(k)).to_multiset().insert(l),
        _ => lf_targets(s) == lf_targets(s.remove(k)),
    },
{
    let (a, b) = (s.take(k), s.skip(k + 1));
    assert(s =~= a + (seq![s[k]] + b));
    assert(s.remove(k) =~= a + b);
    l_lft_app(a, seq![s[k]] + b);
    l_lft_app(seq![s[k]], b);
    l_lft_app(a, b);
    let one = seq![s[k]];
    assert(one.drop_last() =~= Seq::empty());
    assert(lf_targets(one.drop_last()) =~= Seq::<usize>::empty());
    match s[k] {
        EmissionTargetRef::Lifeline(l) => {
            assert(lf_targets(one) =~= seq![l]);
            let r = lf_targets(s);
            let n = lf_targets(a).len() as int;
            assert(r[n] == l);
            assert(r.remove(n) =~= lf_targets(s.remove(k)));
            l_ms_remove(r, n);
        },
        _ => { assert(lf_targets(s) =~= lf_targets(s.remove(k))); },
    }
}

pub proof fn l_lft_perm(s: Seq<EmissionTargetRef>, u: Seq<EmissionTargetRef>)
    requires s.to_multiset() == u.to_multiset(),
    ensures lf_targets(s).to_multiset() == lf_targets(u).to_multiset(),
    decreases s.len(),
{
    s.to_multiset_ensures();
    u.to_multiset_ensures();
    if s.len() == 0 {
        assert(s =~= u);
    } else {
        let m = l_ms_find(s, u, 0);
        l_lft_perm(s.remove(0), u.remove(m));
        l_lft_out(s, 0);
        l_lft_out(u, m);
    }
}

pub proof fn l_ms_contains(s: Seq<usize>, u: Seq<usize>)
    requires s.to_multiset() == u.to_multiset(),
    ensures forall|x: usize| s.contains(x) == u.contains(x), s.len() == u.len(),
{
    s.to_multiset_ensures();
    u.to_multiset_ensures();
    assert forall|x: usize| s.contains(x) == u.contains(x) by {
        assert(s.contains(x) == (s.to_multiset().count(x) > 0));
        assert(u.contains(x) == (u.to_multiset().count(x) > 0));
    }
}

pub proof fn l_recs_perm(ms: usize, s: Seq<usize>, u: Seq<usize>, t: Tr)
    requires s.to_multiset() == u.to_multiset(), recs(ms, s, t),
    ensures recs(ms, u, t),
    decreases s.len(),
{
    l_ms_contains(s, u);
    if s.len() > 0 {
        let k = choose|k: int| #![trigger s.remove(k)] 0 <= k < s.len() && t[0] == ISet::<TraceAction>::empty().insert(rc_act(s[k], ms)) && recs(ms, s.remove(k), t.drop_first());
        let m = l_ms_find(s, u, k);
        l_recs_perm(ms, s.remove(k), u.remove(m), t.drop_first());
    }
}

pub broadcast proof fn b_tr_sort_rec(g: Option<usize>, ms: usize, sy: bool, s: Seq<usize>, u: Seq<usize>)
    requires s.to_multiset() == u.to_multiset(),
    ensures #[trigger] semeq(SI::Rec(g, ms, sy, s), SI::Rec(g, ms, sy, u)),
{
    reveal(semeq);
    l_ms_contains(s, u);
    assert(rec_event(ms, s) =~= rec_event(ms, u));
    assert forall|t: Tr| sem(SI::Rec(g, ms, sy, s), t) == #[trigger] sem(SI::Rec(g, ms, sy, u), t) by {
        if recs(ms, s, t) { l_recs_perm(ms, s, u, t); }
        if recs(ms, u, t) { l_recs_perm(ms, u, s, t); }
    }
}

pub broadcast proof fn b_tr_sort_em(o: usize, ms: usize, sy: bool, s: Seq<EmissionTargetRef>, u: Seq<EmissionTargetRef>)
    requires s.to_multiset() == u.to_multiset(),
    ensures #[trigger] semeq(SI::Em(o, ms, sy, s), SI::Em(o, ms, sy, u)),
{
    reveal(semeq);
    l_lft_perm(s, u);
    let (a, b) = (lf_targets(s), lf_targets(u));
    l_ms_contains(a, b);
    assert(em_event(o, ms, s) =~= em_event(o, ms, u));
    assert forall|t: Tr| sem(SI::Em(o, ms, sy, s), t) == #[trigger] sem(SI::Em(o, ms, sy, u), t) by {
        if t.len() > 0 {
            let r = t.drop_first();
            if recs(ms, a, r) { l_recs_perm(ms, a, b, r); }
            if recs(ms, b, r) { l_recs_perm(ms, b, a, r); }
        }
    }
}

pub open spec fn rec1(g: Option<usize>, ms: usize, l: usize) -> SI {
    SI::Rec(g, ms, false, seq![l])
}
pub open spec fn recs1(g: Option<usize>, ms: usize, s: Seq<usize>) -> Seq<SI> {
    Seq::new(s.len(), |j: int| rec1(g, ms, s[j]))
}
pub open spec fn rcev(l: usize, ms: usize) -> Ev {
    ISet::<TraceAction>::empty().insert(rc_act(l, ms))
}

pub proof fn l_rec1(g: Option<usize>, ms: usize, l: usize, t: Tr)
    ensures sem(rec1(g, ms, l), t) == (t == seq![rcev(l, ms)]),
{
    let s = seq![l];
    assert(s.remove(0) =~= Seq::empty());
    if recs(ms, s, t) {
        let k = choose|k: int| #![trigger s.remove(k)] 0 <= k < s.len() && t[0] == ISet::<TraceAction>::empty().insert(rc_act(s[k], ms)) && recs(ms, s.remove(k), t.drop_first());
        assert(k == 0);
        assert(t.drop_first().len() == 0);
        assert(t =~= seq![rcev(l, ms)]);
    }
    if t == seq![rcev(l, ms)] {
        assert(t.drop_first().len() == 0);
        assert(recs(ms, s.remove(0), t.drop_first()));
    }
}

/// the first reception may be anywhere
pub proof fn l_recs_split(ms: usize, s: Seq<usize>, t: Tr) -> (u: Tr)
    requires s.len() > 0, recs(ms, s, t),
    ensures recs(ms, s.drop_first(), u), mrg(MOp::Par, seq![rcev(s[0], ms)], u, t),
    decreases s.len(),
{
    let c = MOp::Par;
    let one = seq![rcev(s[0], ms)];
    let k = choose|k: int| #![trigger s.remove(k)] 0 <= k < s.len() && t[0] == ISet::<TraceAction>::empty().insert(rc_act(s[k], ms)) && recs(ms, s.remove(k), t.drop_first());
    assert(solo(c, t[0]));
    if k == 0 {
        assert(s.remove(0) =~= s.drop_first());
        assert(one.drop_first() =~= Seq::empty());
        l_mrg_nil_l(c, t.drop_first(), t.drop_first());
        assert(mrg(c, one.drop_first(), t.drop_first(), t.drop_first()));
        t.drop_first()
    } else {
        let r = s.remove(k);
        assert(r[0] == s[0]);
        let v = l_recs_split(ms, r, t.drop_first());
        let u = cons(t[0], v);
        l_cons(t[0], v);
        let d = s.drop_first();
        assert(d[k - 1] == s[k]);
        assert(d.remove(k - 1) =~= r.drop_first());
        assert(recs(ms, d.remove(k - 1), u.drop_first()));
        assert(okr(c, one, t[0]));
        u
    }
}

pub proof fn l_recs_join(ms: usize, s: Seq<usize>, u: Tr, t: Tr)
    requires s.len() > 0, recs(ms, s.drop_first(), u), mrg(MOp::Par, seq![rcev(s[0], ms)], u, t),
    ensures recs(ms, s, t),
    decreases t.len(),
{
    let c = MOp::Par;
    let one = seq![rcev(s[0], ms)];
    let d = s.drop_first();
    l_mrg_len(c, one, u, t);
    if one[0] == t[0] && mrg(c, one.drop_first(), u, t.drop_first()) {
        assert(one.drop_first() =~= Seq::empty());
        l_mrg_nil_l(c, u, t.drop_first());
        assert(s.remove(0) =~= d);
        assert(recs(ms, s.remove(0), t.drop_first()));
    } else {
        assert(solo(c, one[0]));
        assert(u.len() > 0 && u[0] == t[0] && mrg(c, one, u.drop_first(), t.drop_first()));
        assert(d.len() > 0);
        let k = choose|k: int| #![trigger d.remove(k)] 0 <= k < d.len() && u[0] == ISet::<TraceAction>::empty().insert(rc_act(d[k], ms)) && recs(ms, d.remove(k), u.drop_first());
        let r = s.remove(k + 1);
        assert(r[0] == s[0]);
        assert(r.drop_first() =~= d.remove(k));
        l_recs_join(ms, r, u.drop_first(), t.drop_first());
        assert(s[k + 1] == d[k]);
        assert(recs(ms, s.remove(k + 1), t.drop_first()));
    }
}

pub proof fn l_recs_par(g: Option<usize>, ms: usize, s: Seq<usize>, t: Tr)
    ensures sem(fo(MOp::Par, recs1(g, ms, s)), t) == recs(ms, s, t),
    decreases s.len(),
{
    let c = MOp::Par;
    let f = recs1(g, ms, s);
    if s.len() > 0 {
        let x = rec1(g, ms, s[0]);
        let one = seq![rcev(s[0], ms)];
        let d = s.drop_first();
        assert(f.drop_first() =~= recs1(g, ms, d));
        let r = fo(c, f.drop_first());
        l_fo_cons(c, f);
        l_eq_at(fo(c, f), op(c, x, r), t);
        if recs(ms, s, t) {
            let u = l_recs_split(ms, s, t);
            l_recs_par(g, ms, d, u);
            l_rec1(g, ms, s[0], one);
            assert(sem(op(c, x, r), t));
        }
        if sem(op(c, x, r), t) {
            let (t1, t2) = choose|t1: Tr, t2: Tr| #![trigger mrg(c, t1, t2, t)] sem(x, t1) && sem(r, t2) && mrg(c, t1, t2, t);
            l_rec1(g, ms, s[0], t1);
            l_recs_par(g, ms, d, t2);
            l_recs_join(ms, s, t2, t);
        }
    }
}

pub broadcast proof fn b_tr_unfold_rec(g: Option<usize>, ms: usize, s: Seq<usize>, f: Seq<SI>)
    requires f == recs1(g, ms, s),
    ensures #[trigger] semeq(SI::Rec(g, ms, false, s), fo(MOp::Par, f)),
{
    reveal(semeq);
    assert forall|t: Tr| sem(SI::Rec(g, ms, false, s), t) == #[trigger] sem(fo(MOp::Par, f), t) by { l_recs_par(g, ms, s, t); }
}

pub open spec fn noLf(s: Seq<EmissionTargetRef>) -> bool {
    forall|j: int| 0 <= j < s.len() ==> (#[trigger] s[j]) is Gate
}

pub proof fn l_nolf(s: Seq<EmissionTargetRef>)
    requires noLf(s),
    ensures lf_targets(s) =~= Seq::empty(),
    decreases s.len(),
{
    if s.len() > 0 {
        assert(s[s.len() - 1] is Gate);
        l_nolf(s.drop_last());
    }
}

/// emission followed by receptions
pub proof fn l_em_then(o: usize, ms: usize, tg: Seq<EmissionTargetRef>, gt: Seq<EmissionTargetRef>, r: SI)
    requires noLf(gt), forall|t: Tr| #[trigger] sem(r, t) == recs(ms, lf_targets(tg), t),
    ensures semeq(SI::Em(o, ms, false, tg), op(MOp::Strict, SI::Em(o, ms, false, gt), r)),
{
    reveal(semeq);
    let c = MOp::Strict;
    let e = SI::Em(o, ms, false, gt);
    let ev = ISet::<TraceAction>::empty().insert(em_act(o, ms));
    let one: Tr = seq![ev];
    l_nolf(gt);
    assert(one.drop_first() =~= Seq::empty());
    assert(sem(e, one));
    assert forall|t: Tr| sem(SI::Em(o, ms, false, tg), t) == #[trigger] sem(op(c, e, r), t) by {
        if sem(SI::Em(o, ms, false, tg), t) {
            let d = t.drop_first();
            l_mrg_nil_l(c, d, d);
            assert(mrg(c, one.drop_first(), d, d));
            assert(solo(c, t[0]));
            assert(mrg(c, one, d, t));
            assert(sem(r, d));
        }
        if sem(op(c, e, r), t) {
            let (t1, t2) = choose|t1: Tr, t2: Tr| #![trigger mrg(c, t1, t2, t)] sem(e, t1) && sem(r, t2) && mrg(c, t1, t2, t);
            assert(t1.drop_first().len() == 0);
            assert(t1 =~= one);
            l_mrg_len(c, t1, t2, t);
            assert(t.len() > 0);
            assert(!okr(c, t1, t[0]));
            assert(solo(c, t1[0]));
            assert(t[0] == ev);
            l_mrg_nil_l(c, t2, t.drop_first());
        }
    }
}

pub broadcast proof fn b_tr_unfold_em(o: usize, ms: usize, tg: Seq<EmissionTargetRef>, gt: Seq<EmissionTargetRef>, f: Seq<SI>)
    requires noLf(gt), f == recs1(None, ms, lf_targets(tg)),
    ensures #[trigger] semeq(SI::Em(o, ms, false, tg), SI::Op(MOp::Strict, Box::new(SI::Em(o, ms, false, gt)), Box::new(fo(MOp::Par, f)))),
{
    assert forall|t: Tr| #[trigger] sem(fo(MOp::Par, f), t) == recs(ms, lf_targets(tg), t) by { l_recs_par(None, ms, lf_targets(tg), t); }
    l_em_then(o, ms, tg, gt, fo(MOp::Par, f));
}

pub broadcast group g_tr {
    b_tr_flush, b_tr_flush_alt, b_tr_dist_l, b_tr_dist_r, b_tr_unnest, b_tr_loop0, b_tr_sort_rec, b_tr_sort_em,
}

// ---------------------------------------------------------------- fragments held in vectors

pub broadcast proof fn b_kseq_remove<T: VxK>(a: Seq<T>, j: int)
    requires 0 <= j < a.len(),
    ensures #[trigger] kseq(a.remove(j)) == kseq(a).remove(j),
{
    assert(kseq(a.remove(j)) =~= kseq(a).remove(j));
}

pub broadcast proof fn b_kseq_sub<T: VxK>(a: Seq<T>, j: int, k: int)
    requires 0 <= j <= k <= a.len(),
    ensures #[trigger] kseq(a.subrange(j, k)) == kseq(a).subrange(j, k),
{
    assert(kseq(a.subrange(j, k)) =~= kseq(a).subrange(j, k));
}

pub broadcast proof fn b_conf_fo(c: MOp, s: Seq<SI>)
    requires allconf(s),
    ensures #[trigger] conf(fo(c, s)),
    decreases s.len(),
{
    if s.len() > 1 {
        assert(conf(s[0]));
        assert forall|j: int| 0 <= j < s.drop_first().len() implies conf(#[trigger] s.drop_first()[j]) by { assert(conf(s[j + 1])); }
        b_conf_fo(c, s.drop_first());
    } else if s.len() == 1 { assert(conf(s[0])); }
}

pub broadcast proof fn b_conf_fa(s: Seq<SI>)
    requires allconf(s),
    ensures #[trigger] conf(fa(s)),
    decreases s.len(),
{
    if s.len() > 1 {
        assert(conf(s[0]));
        assert forall|j: int| 0 <= j < s.drop_first().len() implies conf(#[trigger] s.drop_first()[j]) by { assert(conf(s[j + 1])); }
        b_conf_fa(s.drop_first());
    } else if s.len() == 1 { assert(conf(s[0])); }
}

pub broadcast proof fn b_ac_remove(s: Seq<SI>, j: int)
    requires allconf(s), 0 <= j < s.len(),
    ensures #[trigger] allconf(s.remove(j)),
{
    assert forall|k: int| 0 <= k < s.remove(j).len() implies conf(#[trigger] s.remove(j)[k]) by { assert(conf(s[if k < j { k } else { k + 1 }])); }
}

pub broadcast proof fn b_ac_sub(s: Seq<SI>, j: int, k: int)
    requires allconf(s), 0 <= j <= k <= s.len(),
    ensures #[trigger] allconf(s.subrange(j, k)),
{
    assert forall|m: int| 0 <= m < s.subrange(j, k).len() implies conf(#[trigger] s.subrange(j, k)[m]) by { assert(conf(s[m + j])); }
}

pub broadcast proof fn b_frags_conf(c: MOp, i: SI, s: Seq<SI>)
    requires #[trigger] frags(c, i, s),
    ensures allconf(s), s.len() > 0, semeq(i, fo(c, s)), conf(s[0]), conf(s.last()),
{
    assert(conf(s[0]));
    assert(conf(s[s.len() - 1]));
}

pub broadcast group g_frv { b_kseq_remove, b_kseq_sub, b_conf_fo, b_conf_fa, b_ac_remove, b_ac_sub, b_frags_conf, b_kseq_app }

pub broadcast proof fn b_tr_prefix(c: MOp, a: SI, b: SI, x: SI, s: Seq<SI>, u: Seq<SI>, s1: Seq<SI>, u1: Seq<SI>)
    requires !(c is Sync), #[trigger] frags(c, a, s), #[trigger] frags(c, b, u), s1 == s.remove(0), u1 == u.remove(0), x == s[0], x == u[0],
    ensures #[trigger] semeq(SI::Alt(Box::new(a), Box::new(b)), SI::Op(c, Box::new(x), Box::new(SI::Alt(Box::new(fo(c, s1)), Box::new(fo(c, u1)))))),
{
    l_prefix(c, a, b, s, u);
}

pub broadcast proof fn b_tr_prefix3(c: MOp, a: SI, b: SI, d: SI, x: SI, s: Seq<SI>, u: Seq<SI>, s1: Seq<SI>, u1: Seq<SI>)
    requires !(c is Sync), #[trigger] frags(c, a, s), #[trigger] frags(c, b, u), s1 == s.remove(0), u1 == u.remove(0), x == s[0], x == u[0],
    ensures #[trigger] semeq(SI::Alt(Box::new(a), Box::new(SI::Alt(Box::new(b), Box::new(d)))), SI::Alt(Box::new(SI::Op(c, Box::new(x), Box::new(SI::Alt(Box::new(fo(c, s1)), Box::new(fo(c, u1)))))), Box::new(d))),
{
    l_prefix3(c, a, b, d, s, u);
}

pub broadcast proof fn b_tr_suffix(c: MOp, a: SI, b: SI, x: SI, s: Seq<SI>, u: Seq<SI>, s1: Seq<SI>, u1: Seq<SI>)
    requires !(c is Sync), #[trigger] frags(c, a, s), #[trigger] frags(c, b, u), s1 == s.drop_last(), u1 == u.drop_last(), x == s.last(), x == u.last(),
    ensures #[trigger] semeq(SI::Alt(Box::new(a), Box::new(b)), SI::Op(c, Box::new(SI::Alt(Box::new(fo(c, s1)), Box::new(fo(c, u1)))), Box::new(x))),
{
    l_suffix(c, a, b, s, u);
}

pub open spec fn all_tr(i: SI, s: Seq<SI>) -> bool {
    forall|j: int| 0 <= j < s.len() ==> tr(i, #[trigger] s[j])
}

pub broadcast proof fn b_all_tr_push<T: VxK<K = SI>>(i: SI, s: Seq<T>, x: T)
    requires all_tr(i, kseq(s)), tr(i, x.k()),
    ensures #[trigger] all_tr(i, kseq(s.push(x))),
{
    assert forall|j: int| 0 <= j < kseq(s.push(x)).len() implies tr(i, #[trigger] kseq(s.push(x))[j]) by {
        if j < s.len() { assert(tr(i, kseq(s)[j])); }
    }
}

// ---------------------------------------------------------------- one-step unfolding of the views (used with vw hidden)

pub open spec fn vw1(i: Interaction) -> SI {
    match i {
        Interaction::Empty => SI::Empty,
        Interaction::Emission(e) => SI::Em(e.origin_lf_id, e.ms_id, e.synchronicity is Synchronous, e.targets@),
        Interaction::Reception(e) => SI::Rec(e.origin_gt_id, e.ms_id, e.synchronicity is Synchronous, e.recipients@),
        Interaction::Strict(a, b) => SI::Op(MOp::Strict, Box::new(vw(*a)), Box::new(vw(*b))),
        Interaction::Seq(a, b) => SI::Op(MOp::Seq, Box::new(vw(*a)), Box::new(vw(*b))),
        Interaction::CoReg(cr, a, b) => SI::Op(MOp::CoReg(cr@), Box::new(vw(*a)), Box::new(vw(*b))),
        Interaction::Alt(a, b) => SI::Alt(Box::new(vw(*a)), Box::new(vw(*b))),
        Interaction::Par(a, b) => SI::Op(MOp::Par, Box::new(vw(*a)), Box::new(vw(*b))),
        Interaction::Loop(k, a) => SI::Loop(k, Box::new(vw(*a))),
        Interaction::And(a, b) => SI::And(Box::new(vw(*a)), Box::new(vw(*b))),
        Interaction::Sync(s, a, b) => SI::Op(MOp::Sync(s@), Box::new(vw(*a)), Box::new(vw(*b))),
    }
}

pub open spec fn unf1(i: Interaction) -> bool {
    vw(i) == vw1(i) && match i {
        Interaction::Strict(a, b) => conf(vw(i)) ==> conf(vw(*a)) && conf(vw(*b)),
        Interaction::Seq(a, b) => conf(vw(i)) ==> conf(vw(*a)) && conf(vw(*b)),
        Interaction::CoReg(_, a, b) => conf(vw(i)) ==> conf(vw(*a)) && conf(vw(*b)),
        Interaction::Alt(a, b) => conf(vw(i)) ==> conf(vw(*a)) && conf(vw(*b)),
        Interaction::Par(a, b) => conf(vw(i)) ==> conf(vw(*a)) && conf(vw(*b)),
        Interaction::Loop(_, a) => conf(vw(i)) ==> conf(vw(*a)),
        Interaction::Sync(_, a, b) => conf(vw(i)) ==> conf(vw(*a)) && conf(vw(*b)),
        _ => true,
    }
}

pub proof fn l_unf1(i: Interaction)
    ensures unf1(i),
{
}

/// a term and its children
pub proof fn l_unf(i: Interaction)
    ensures unf1(i), match i {
        Interaction::Strict(a, b) => unf1(*a) && unf1(*b),
        Interaction::Seq(a, b) => unf1(*a) && unf1(*b),
        Interaction::CoReg(_, a, b) => unf1(*a) && unf1(*b),
        Interaction::Alt(a, b) => unf1(*a) && unf1(*b),
        Interaction::Par(a, b) => unf1(*a) && unf1(*b),
        Interaction::Loop(_, a) => unf1(*a),
        _ => true,
    },
{
    l_unf1(i);
    match i {
        Interaction::Strict(a, b) => { l_unf1(*a); l_unf1(*b); },
        Interaction::Seq(a, b) => { l_unf1(*a); l_unf1(*b); },
        Interaction::CoReg(_, a, b) => { l_unf1(*a); l_unf1(*b); },
        Interaction::Alt(a, b) => { l_unf1(*a); l_unf1(*b); },
        Interaction::Par(a, b) => { l_unf1(*a); l_unf1(*b); },
        Interaction::Loop(_, a) => { l_unf1(*a); },
        _ => {},
    }
}

pub broadcast proof fn b_vw_strict(a: Box<Interaction>, b: Box<Interaction>)
    ensures #[trigger] vw(Interaction::Strict(a, b)) == SI::Op(MOp::Strict, Box::new(vw(*a)), Box::new(vw(*b))),
{ }
pub broadcast proof fn b_vw_seq(a: Box<Interaction>, b: Box<Interaction>)
    ensures #[trigger] vw(Interaction::Seq(a, b)) == SI::Op(MOp::Seq, Box::new(vw(*a)), Box::new(vw(*b))),
{ }
pub broadcast proof fn b_vw_par(a: Box<Interaction>, b: Box<Interaction>)
    ensures #[trigger] vw(Interaction::Par(a, b)) == SI::Op(MOp::Par, Box::new(vw(*a)), Box::new(vw(*b))),
{ }
pub broadcast proof fn b_vw_coreg(c: Vec<usize>, a: Box<Interaction>, b: Box<Interaction>)
    ensures #[trigger] vw(Interaction::CoReg(c, a, b)) == SI::Op(MOp::CoReg(c@), Box::new(vw(*a)), Box::new(vw(*b))),
{ }
pub broadcast proof fn b_vw_sync(c: Vec<TraceAction>, a: Box<Interaction>, b: Box<Interaction>)
    ensures #[trigger] vw(Interaction::Sync(c, a, b)) == SI::Op(MOp::Sync(c@), Box::new(vw(*a)), Box::new(vw(*b))),
{ }
pub broadcast proof fn b_vw_alt(a: Box<Interaction>, b: Box<Interaction>)
    ensures #[trigger] vw(Interaction::Alt(a, b)) == SI::Alt(Box::new(vw(*a)), Box::new(vw(*b))),
{ }
pub broadcast proof fn b_vw_loop(k: LoopKind, a: Box<Interaction>)
    ensures #[trigger] vw(Interaction::Loop(k, a)) == SI::Loop(k, Box::new(vw(*a))),
{ }
pub broadcast proof fn b_vw_em(e: EmissionAction)
    ensures #[trigger] vw(Interaction::Emission(e)) == SI::Em(e.origin_lf_id, e.ms_id, e.synchronicity is Synchronous, e.targets@),
{ }
pub broadcast proof fn b_vw_rec(e: ReceptionAction)
    ensures #[trigger] vw(Interaction::Reception(e)) == SI::Rec(e.origin_gt_id, e.ms_id, e.synchronicity is Synchronous, e.recipients@),
{ }
pub broadcast proof fn b_vw_empty()
    ensures #[trigger] vw(Interaction::Empty) == SI::Empty,
{ }

pub broadcast proof fn b_co_op(c: MOp, a: Box<SI>, b: Box<SI>)
    ensures #[trigger] conf(SI::Op(c, a, b)) == (conf(*a) && conf(*b)),
{ }
pub broadcast proof fn b_co_alt(a: Box<SI>, b: Box<SI>)
    ensures #[trigger] conf(SI::Alt(a, b)) == (conf(*a) && conf(*b)),
{ }
pub broadcast proof fn b_co_loop(k: LoopKind, a: Box<SI>)
    ensures #[trigger] conf(SI::Loop(k, a)) == conf(*a),
{ }
pub broadcast proof fn b_co_em(o: usize, m: usize, s: bool, t: Seq<EmissionTargetRef>)
    ensures #[trigger] conf(SI::Em(o, m, s, t)),
{ }
pub broadcast proof fn b_co_rec(o: Option<usize>, m: usize, s: bool, t: Seq<usize>)
    ensures #[trigger] conf(SI::Rec(o, m, s, t)) == (0 < t.len() <= usize::MAX),
{ }
pub broadcast proof fn b_co_and(a: Box<SI>, b: Box<SI>)
    ensures !(#[trigger] conf(SI::And(a, b))) {}
pub broadcast proof fn b_nld_op(c: MOp, a: Box<SI>, b: Box<SI>)
    ensures nld(*a) <= #[trigger] nld(SI::Op(c, a, b)), nld(*b) <= nld(SI::Op(c, a, b)) {}
pub broadcast proof fn b_nld_alt(a: Box<SI>, b: Box<SI>)
    ensures nld(*a) <= #[trigger] nld(SI::Alt(a, b)), nld(*b) <= nld(SI::Alt(a, b)) {}
pub broadcast proof fn b_nld_loop(k: LoopKind, a: Box<SI>)
    ensures nld(*a) <= #[trigger] nld(SI::Loop(k, a)) {}
pub broadcast group g_nld { b_nld_op, b_nld_alt, b_nld_loop }
pub broadcast proof fn b_co_empty()
    ensures #[trigger] conf(SI::Empty),
{ }

pub broadcast group g_vw {
    b_vw_strict, b_vw_seq, b_vw_par, b_vw_coreg, b_vw_sync, b_vw_alt, b_vw_loop, b_vw_em, b_vw_rec, b_vw_empty,
    b_co_op, b_co_alt, b_co_loop, b_co_em, b_co_rec, b_co_empty,
}

// ---------------------------------------------------------------- permutations and sets of fragments

pub proof fn l_kseq_ms<T: VxK>(s: Seq<T>, u: Seq<T>)
    requires s.to_multiset() == u.to_multiset(),
    ensures kseq(s).to_multiset() == kseq(u).to_multiset(), s.len() == u.len(),
    decreases s.len(),
{
    s.to_multiset_ensures();
    u.to_multiset_ensures();
    if s.len() == 0 {
        assert(kseq(s) =~= kseq(u));
    } else {
        let m = l_ms_find(s, u, 0);
        l_kseq_ms(s.remove(0), u.remove(m));
        b_kseq_remove(s, 0);
        b_kseq_remove(u, m);
        l_ms_remove(kseq(s), 0);
        l_ms_remove(kseq(u), m);
    }
}

pub proof fn l_ms_has<A>(s: Seq<A>, u: Seq<A>)
    requires s.to_multiset() == u.to_multiset(),
    ensures forall|x: A| #[trigger] s.contains(x) == u.contains(x), s.len() == u.len(),
{
    s.to_multiset_ensures();
    u.to_multiset_ensures();
    assert forall|x: A| #[trigger] s.contains(x) == u.contains(x) by {
        assert(s.contains(x) == (s.to_multiset().count(x) > 0));
        assert(u.contains(x) == (u.to_multiset().count(x) > 0));
    }
}

pub proof fn l_ac_same(s: Seq<SI>, u: Seq<SI>)
    requires allconf(s), forall|x: SI| #[trigger] s.contains(x) == u.contains(x),
    ensures allconf(u),
{
    assert forall|j: int| 0 <= j < u.len() implies conf(#[trigger] u[j]) by {
        assert(u.contains(u[j]));
        assert(s.contains(u[j]));
        let k = choose|k: int| 0 <= k < s.len() && s[k] == u[j];
        assert(conf(s[k]));
    }
}

/// branches listed in another order
pub broadcast proof fn b_tr_perm_alt<T: VxK<K = SI>>(i: SI, s: Seq<T>, u: Seq<T>)
    requires #[trigger] frags_alt(i, kseq(s)), s.to_multiset() == u.to_multiset(),
    ensures #[trigger] tr(i, fa(kseq(u))),
{
    l_kseq_ms(s, u);
    l_ms_has(kseq(s), kseq(u));
    l_ac_same(kseq(s), kseq(u));
    b_conf_fa(kseq(u));
    l_fa_set(kseq(s), kseq(u));
    l_eq_trans(i, fa(kseq(s)), fa(kseq(u)));
}

/// without repetition
pub broadcast proof fn b_tr_dedup<T: VxK<K = SI>>(i: SI, s: Seq<T>, u: Seq<T>)
    requires #[trigger] frags_alt(i, kseq(s)), kset(s) == kset(u),
    ensures #[trigger] tr(i, fa(kseq(u))),
{
    assert(kseq(s)[0] == s[0].k());
    assert(kset(s).contains(s[0].k()));
    assert(kset(u).contains(s[0].k()));
    assert forall|x: SI| #[trigger] kseq(s).contains(x) == kseq(u).contains(x) by {
        assert(kset(s).contains(x) == kset(u).contains(x));
        if kseq(s).contains(x) { let k = choose|k: int| 0 <= k < kseq(s).len() && kseq(s)[k] == x; assert(s[k].k() == x); }
        if kseq(u).contains(x) { let k = choose|k: int| 0 <= k < kseq(u).len() && kseq(u)[k] == x; assert(u[k].k() == x); }
        if kset(s).contains(x) { let k = choose|k: int| 0 <= k < s.len() && (#[trigger] s[k]).k() == x; assert(kseq(s)[k] == x); }
        if kset(u).contains(x) { let k = choose|k: int| 0 <= k < u.len() && (#[trigger] u[k]).k() == x; assert(kseq(u)[k] == x); }
    }
    assert(kseq(u).contains(kseq(s)[0])) by { assert(kseq(s).contains(kseq(s)[0])); }
    l_ac_same(kseq(s), kseq(u));
    b_conf_fa(kseq(u));
    l_fa_set(kseq(s), kseq(u));
    l_eq_trans(i, fa(kseq(s)), fa(kseq(u)));
}

pub proof fn l_ms_kset<T: VxK>(s: Seq<T>, u: Seq<T>)
    requires s.to_multiset() == u.to_multiset(),
    ensures kset(s) == kset(u),
{
    l_ms_has(s, u);
    assert forall|x: T::K| kset(s).contains(x) == kset(u).contains(x) by {
        if kset(s).contains(x) { let k = choose|k: int| 0 <= k < s.len() && (#[trigger] s[k]).k() == x; assert(s.contains(s[k])); assert(u.contains(s[k])); let m = choose|m: int| 0 <= m < u.len() && u[m] == s[k]; assert(u[m].k() == x); }
        if kset(u).contains(x) { let k = choose|k: int| 0 <= k < u.len() && (#[trigger] u[k]).k() == x; assert(u.contains(u[k])); assert(s.contains(u[k])); let m = choose|m: int| 0 <= m < s.len() && s[m] == u[k]; assert(s[m].k() == x); }
    }
    assert(kset(s) =~= kset(u));
}

/// interleaved fragments listed in another order
pub broadcast proof fn b_tr_perm_par<T: VxK<K = SI>>(i: SI, s: Seq<T>, u: Seq<T>)
    requires #[trigger] frags(MOp::Par, i, kseq(s)), s.to_multiset() == u.to_multiset(),
    ensures #[trigger] tr(i, fo(MOp::Par, kseq(u))),
{
    l_kseq_ms(s, u);
    l_ms_has(kseq(s), kseq(u));
    l_ac_same(kseq(s), kseq(u));
    b_conf_fo(MOp::Par, kseq(u));
    l_par_perm(kseq(s), kseq(u));
    l_eq_trans(i, fo(MOp::Par, kseq(s)), fo(MOp::Par, kseq(u)));
}

pub broadcast proof fn b_veq(a: Vec<usize>, b: Vec<usize>)
    ensures #[trigger] vstd::std_specs::cmp::PartialEqSpec::eq_spec(&a, &b) ==> a@ == b@,
{
    if vstd::std_specs::cmp::PartialEqSpec::eq_spec(&a, &b) { assert(a@ =~= b@); }
}

pub proof fn l_kset_has<T: VxK>(s: Seq<T>, k: int)
    requires 0 <= k < s.len(),
    ensures kset(s).contains(s[k].k()),
{
}

pub broadcast proof fn b_kset_deref<'a, T: VxK>(s: Seq<&'a T>, v: Seq<T>)
    requires s.len() == v.len(), forall|j: int| 0 <= j < s.len() ==> *(#[trigger] s[j]) == v[j],
    ensures #[trigger] kset(s) == #[trigger] kset(v),
{
    assert forall|j: int| 0 <= j < s.len() implies #[trigger] s[j].k() == v[j].k() by { assert(*s[j] == v[j]); }
    assert forall|j: int| 0 <= j < s.len() implies s[j].k() == #[trigger] v[j].k() by { assert(*s[j] == v[j]); }
    assert forall|x: T::K| kset(s).contains(x) implies kset(v).contains(x) by {
        let k = choose|k: int| 0 <= k < s.len() && #[trigger] s[k].k() == x;
        assert(v[k].k() == x);
    }
    assert forall|x: T::K| kset(v).contains(x) implies kset(s).contains(x) by {
        let k = choose|k: int| 0 <= k < v.len() && #[trigger] v[k].k() == x;
        l_kset_has(s, k);
    }
    assert(kset(s) =~= kset(v));
}

pub broadcast proof fn b_kseq_deref<'a, T: VxK>(s: Seq<&'a T>, v: Seq<T>)
    requires s.len() == v.len(), forall|j: int| 0 <= j < s.len() ==> *(#[trigger] s[j]) == v[j],
    ensures #[trigger] kseq(s) == #[trigger] kseq(v),
{
    assert(kseq(s) =~= kseq(v));
}

pub broadcast proof fn b_ms_kset<T: VxK>(s: Seq<T>, u: Seq<T>)
    requires #[trigger] s.to_multiset() == #[trigger] u.to_multiset(),
    ensures kset(s) == kset(u),
{
    l_ms_kset(s, u);
}

pub broadcast proof fn b_tr_par_common(a: SI, b: SI, x: SI, s: Seq<SI>, u: Seq<SI>, s1: Seq<SI>, u1: Seq<SI>)
    requires #[trigger] frags(MOp::Par, a, s), #[trigger] frags(MOp::Par, b, u),
        exists|j: int, k: int| 0 <= j < s.len() && 0 <= k < u.len() && s1 == #[trigger] s.remove(j) && u1 == #[trigger] u.remove(k) && x == s[j] && x == u[k],
    ensures #[trigger] semeq(SI::Alt(Box::new(a), Box::new(b)), SI::Op(MOp::Par, Box::new(x), Box::new(SI::Alt(Box::new(fo(MOp::Par, s1)), Box::new(fo(MOp::Par, u1)))))),
{
    let (j, k) = choose|j: int, k: int| 0 <= j < s.len() && 0 <= k < u.len() && s1 == #[trigger] s.remove(j) && u1 == #[trigger] u.remove(k) && x == s[j] && x == u[k];
    l_par_common(a, b, s, u, j, k);
}

pub broadcast proof fn b_tr_par_common0(a: SI, b: SI, s: Seq<SI>, u: Seq<SI>, s1: Seq<SI>, u1: Seq<SI>)
    requires #[trigger] frags(MOp::Par, a, s), #[trigger] frags(MOp::Par, b, u),
        exists|j: int, k: int| 0 <= j < s.len() && 0 <= k < u.len() && s1 == #[trigger] s.remove(j) && u1 == #[trigger] u.remove(k) && s[j] is Empty && u[k] is Empty,
    ensures #[trigger] semeq(SI::Alt(Box::new(a), Box::new(b)), SI::Alt(Box::new(fo(MOp::Par, s1)), Box::new(fo(MOp::Par, u1)))),
{
    let (j, k) = choose|j: int, k: int| 0 <= j < s.len() && 0 <= k < u.len() && s1 == #[trigger] s.remove(j) && u1 == #[trigger] u.remove(k) && s[j] is Empty && u[k] is Empty;
    l_par_common(a, b, s, u, j, k);
}

pub proof fn l_recs1_push(g: Option<usize>, ms: usize, s: Seq<usize>, l: usize)
    ensures recs1(g, ms, s.push(l)) == recs1(g, ms, s).push(rec1(g, ms, l)),
{
    assert(recs1(g, ms, s.push(l)) =~= recs1(g, ms, s).push(rec1(g, ms, l)));
}

pub proof fn l_lft_step(s: Seq<EmissionTargetRef>, n: int)
    requires 0 <= n < s.len(),
    ensures lf_targets(s.take(n + 1)) == match s[n] { EmissionTargetRef::Lifeline(l) => lf_targets(s.take(n)).push(l), _ => lf_targets(s.take(n)) },
{
    assert(s.take(n + 1).drop_last() =~= s.take(n));
    assert(s.take(n + 1).last() == s[n]);
}

pub broadcast proof fn b_ac_recs1(g: Option<usize>, ms: usize, s: Seq<usize>)
    ensures #[trigger] allconf(recs1(g, ms, s)),
{
}
