// ---- views of frontiers

pub open spec fn fset(f: Seq<FrontierElement>) -> ISet<SP> {
    ISet::new(|q: SP| exists|j: int| 0 <= j < f.len() && pv(#[trigger] f[j].position) == q)
}

/// x designates an enabled action of i, and carries this action, its lifelines and its loop depth
pub open spec fn fe(i: SI, d: nat, x: FrontierElement) -> bool {
    let p = pv(x.position);
    valid(i, p) && x.target_lf_ids@ == lfs(actp(i, p)) && x.target_actions@ == actp(i, p) && x.max_loop_depth == d + ldp(i, p)
}

pub open spec fn fok(i: SI, d: nat, f: Seq<FrontierElement>) -> bool {
    forall|j: int| 0 <= j < f.len() ==> fe(i, d, #[trigger] f[j])
}

pub open spec fn fsame(a: FrontierElement, b: FrontierElement) -> bool {
    pv(a.position) == pv(b.position) && a.target_lf_ids@ == b.target_lf_ids@ && a.target_actions@ == b.target_actions@ && a.max_loop_depth == b.max_loop_depth
}

/// b is a with position p
pub open spec fn fshift(a: FrontierElement, b: FrontierElement, p: SP) -> bool {
    pv(b.position) == p && a.target_lf_ids@ == b.target_lf_ids@ && a.target_actions@ == b.target_actions@ && a.max_loop_depth == b.max_loop_depth
}

pub open spec fn fleft(a: Seq<FrontierElement>, b: Seq<FrontierElement>) -> bool {
    b.len() == a.len() && forall|j: int| 0 <= j < a.len() ==> fshift(#[trigger] a[j], #[trigger] b[j], pl(pv(a[j].position)))
}

pub open spec fn fright(a: Seq<FrontierElement>, b: Seq<FrontierElement>) -> bool {
    b.len() == a.len() && forall|j: int| 0 <= j < a.len() ==> fshift(#[trigger] a[j], #[trigger] b[j], prr(pv(a[j].position)))
}

/// first k elements of f have been considered: the new frontier g only has good elements, and has all those required
pub proof fn l_fset_push(g: Seq<FrontierElement>, x: FrontierElement)
    ensures fset(g.push(x)) =~= fset(g).insert(pv(x.position)),
{
    let h = g.push(x);
    assert forall|q: SP| fset(h).contains(q) == fset(g).insert(pv(x.position)).contains(q) by {
        if fset(g).contains(q) {
            let j = choose|j: int| 0 <= j < g.len() && pv(#[trigger] g[j].position) == q;
            assert(pv(h[j].position) == q);
        }
        if q == pv(x.position) { assert(pv(h[g.len() as int].position) == q); }
        if fset(h).contains(q) {
            let j = choose|j: int| 0 <= j < h.len() && pv(#[trigger] h[j].position) == q;
            if j < g.len() { assert(pv(g[j].position) == q); }
        }
    }
}

pub proof fn l_fset_app(a: Seq<FrontierElement>, b: Seq<FrontierElement>)
    ensures fset(a + b) =~= fset(a).union(fset(b)),
{
    let h = a + b;
    assert forall|q: SP| fset(h).contains(q) == fset(a).union(fset(b)).contains(q) by {
        if fset(a).contains(q) {
            let j = choose|j: int| 0 <= j < a.len() && pv(#[trigger] a[j].position) == q;
            assert(pv(h[j].position) == q);
        }
        if fset(b).contains(q) {
            let j = choose|j: int| 0 <= j < b.len() && pv(#[trigger] b[j].position) == q;
            assert(pv(h[a.len() + j].position) == q);
        }
        if fset(h).contains(q) {
            let j = choose|j: int| 0 <= j < h.len() && pv(#[trigger] h[j].position) == q;
            if j < a.len() { assert(pv(a[j].position) == q); } else { assert(pv(b[j - a.len()].position) == q); }
        }
    }
}

pub proof fn l_fset_left(a: Seq<FrontierElement>, b: Seq<FrontierElement>)
    requires fleft(a, b),
    ensures forall|q: SP| #[trigger] fset(a).contains(q) ==> fset(b).contains(pl(q)),
{
    assert forall|q: SP| #[trigger] fset(a).contains(q) implies fset(b).contains(pl(q)) by {
        let j = choose|j: int| 0 <= j < a.len() && pv(#[trigger] a[j].position) == q;
        assert(fshift(a[j], b[j], pl(q)));
        assert(pv(b[j].position) == pl(q));
    }
}

pub proof fn l_fset_right(a: Seq<FrontierElement>, b: Seq<FrontierElement>)
    requires fright(a, b),
    ensures forall|q: SP| #[trigger] fset(a).contains(q) ==> fset(b).contains(prr(q)),
{
    assert forall|q: SP| #[trigger] fset(a).contains(q) implies fset(b).contains(prr(q)) by {
        let j = choose|j: int| 0 <= j < a.len() && pv(#[trigger] a[j].position) == q;
        assert(fshift(a[j], b[j], prr(q)));
        assert(pv(b[j].position) == prr(q));
    }
}

// ---- operands of a term

/// a one-element frontier covers a leaf
pub proof fn l_cov_leaf1(i: SI, f: ISet<SP>)
    requires i is Em || (i is Rec && i->Rec_2), f.contains(SP::Eps(None)),
    ensures covers(i, f),
{
    reveal(covers);
    assert forall|p: SP| #[trigger] valid(i, p) implies cs(i, f, actp(i, p)) by { assert(p == SP::Eps(None)); }
    assert forall|p: SP, t: Tr| valid(i, p) && #[trigger] der(i, p, t) implies cv(i, f, actp(i, p), t) by {
        assert(p == SP::Eps(None));
    }
}
pub proof fn l_cov_rec(i: SI, f: ISet<SP>)
    requires conf(i), i is Rec, !i->Rec_2, forall|k: usize| k < i->Rec_3.len() ==> #[trigger] f.contains(SP::Eps(Some(k))),
    ensures covers(i, f),
{
    reveal(covers);
    assert forall|p: SP| #[trigger] valid(i, p) implies cs(i, f, actp(i, p)) by {
        match p {
            SP::Eps(Some(k)) => { assert(f.contains(SP::Eps(Some(k)))); },
            _ => {},
        }
    }
    assert forall|p: SP, t: Tr| valid(i, p) && #[trigger] der(i, p, t) implies cv(i, f, actp(i, p), t) by {
        match p {
            SP::Eps(Some(k)) => { assert(f.contains(SP::Eps(Some(k)))); },
            _ => {},
        }
    }
}
pub proof fn l_cov_empty(f: ISet<SP>)
    ensures covers(SI::Empty, f),
{
    reveal(covers);
}

pub open spec fn lo(i: SI) -> SI {
    match i { SI::Op(_, a, _) => *a, SI::Alt(a, _) => *a, SI::Loop(_, a) => *a, SI::And(a, _) => *a, _ => i }
}
pub open spec fn ro(i: SI) -> SI {
    match i { SI::Op(_, _, b) => *b, SI::Alt(_, b) => *b, SI::And(_, b) => *b, _ => i }
}
pub open spec fn oc(i: SI) -> MOp {
    match i { SI::Op(c, _, _) => c, _ => MOp::Par }
}

pub open spec fn unl(f: ISet<SP>) -> ISet<SP> { ISet::new(|q: SP| f.contains(pl(q))) }
pub open spec fn unr(f: ISet<SP>) -> ISet<SP> { ISet::new(|q: SP| f.contains(prr(q))) }

/// x is an element of a frontier of a, pushed to the left
pub open spec fn fel(a: SI, d: nat, x: FrontierElement) -> bool {
    match pv(x.position) {
        SP::Left(q) => valid(a, *q) && x.target_lf_ids@ == lfs(actp(a, *q)) && x.target_actions@ == actp(a, *q) && x.max_loop_depth == d + ldp(a, *q),
        _ => false,
    }
}
pub open spec fn fer(a: SI, d: nat, x: FrontierElement) -> bool {
    match pv(x.position) {
        SP::Right(q) => valid(a, *q) && x.target_lf_ids@ == lfs(actp(a, *q)) && x.target_actions@ == actp(a, *q) && x.max_loop_depth == d + ldp(a, *q),
        _ => false,
    }
}
pub open spec fn fokl(a: SI, d: nat, s: Seq<FrontierElement>) -> bool {
    forall|j: int| 0 <= j < s.len() ==> fel(a, d, #[trigger] s[j])
}
pub open spec fn fokr(a: SI, d: nat, s: Seq<FrontierElement>) -> bool {
    forall|j: int| 0 <= j < s.len() ==> fer(a, d, #[trigger] s[j])
}

pub proof fn l_cov_mono(i: SI, f: ISet<SP>, g: ISet<SP>)
    requires covers(i, f), f.subset_of(g),
    ensures covers(i, g),
{
    reveal(covers);
    assert forall|p: SP| #[trigger] valid(i, p) implies cs(i, g, actp(i, p)) by {
        let q = l_cov_act(i, f, p);
        assert(g.contains(q));
    }
    assert forall|p: SP, t: Tr| valid(i, p) && #[trigger] der(i, p, t) implies cv(i, g, actp(i, p), t) by {
        let q = l_cov_get(i, f, p, t);
        assert(g.contains(q));
    }
}

pub proof fn l_push_left(a: Seq<FrontierElement>, b: Seq<FrontierElement>)
    requires fleft(a, b),
    ensures
        forall|i: SI, d: nat| #[trigger] fok(i, d, a) ==> fokl(i, d, b),
        forall|i: SI| #[trigger] covers(i, fset(a)) ==> covers(i, unl(fset(b))),
{
    assert forall|i: SI, d: nat| #[trigger] fok(i, d, a) implies fokl(i, d, b) by {
        assert forall|j: int| 0 <= j < b.len() implies fel(i, d, #[trigger] b[j]) by {
            assert(fe(i, d, a[j]) && fshift(a[j], b[j], pl(pv(a[j].position))));
        }
    }
    assert forall|i: SI| #[trigger] covers(i, fset(a)) implies covers(i, unl(fset(b))) by {
        l_fset_left(a, b);
        l_cov_mono(i, fset(a), unl(fset(b)));
    }
}

pub proof fn l_push_right(a: Seq<FrontierElement>, b: Seq<FrontierElement>)
    requires fright(a, b),
    ensures
        forall|i: SI, d: nat| #[trigger] fok(i, d, a) ==> fokr(i, d, b),
        forall|i: SI| #[trigger] covers(i, fset(a)) ==> covers(i, unr(fset(b))),
{
    assert forall|i: SI, d: nat| #[trigger] fok(i, d, a) implies fokr(i, d, b) by {
        assert forall|j: int| 0 <= j < b.len() implies fer(i, d, #[trigger] b[j]) by {
            assert(fe(i, d, a[j]) && fshift(a[j], b[j], prr(pv(a[j].position))));
        }
    }
    assert forall|i: SI| #[trigger] covers(i, fset(a)) implies covers(i, unr(fset(b))) by {
        l_fset_right(a, b);
        l_cov_mono(i, fset(a), unr(fset(b)));
    }
}

/// the actions of b which may pass over a are covered by f
#[verifier::opaque]
pub open spec fn coversr(c: MOp, a: SI, b: SI, f: ISet<SP>) -> bool {
    &&& forall|p: SP, t: Tr| valid(b, p) && passes(c, a, actp(b, p)) && #[trigger] der(b, p, t) ==> cv(b, f, actp(b, p), t)
    &&& forall|p: SP| #[trigger] valid(b, p) && passes(c, a, actp(b, p)) ==> cs(b, f, actp(b, p))
}

pub broadcast proof fn b_cov_op(c: MOp, a: SI, b: SI, f: ISet<SP>)
    requires !(c is Sync), covers(a, unl(f)), coversr(c, a, b, unr(f)),
    ensures #[trigger] covers(SI::Op(c, Box::new(a), Box::new(b)), f),
{
    reveal(covers);
    reveal(coversr);
    let i = op(c, a, b);
    assert forall|p: SP| #[trigger] valid(i, p) implies cs(i, f, actp(i, p)) by {
        match p {
            SP::Left(p1) => { let q = l_cov_act(a, unl(f), *p1); assert(f.contains(pl(q))); assert(actp(i, pl(q)) == actp(a, q)); },
            SP::Right(p2) => {
                assert(valid(b, *p2) && passes(c, a, actp(b, *p2)));
                assert(cs(b, unr(f), actp(b, *p2)));
                let q = choose|q: SP| #[trigger] unr(f).contains(q) && actp(b, q) == actp(b, *p2);
                assert(f.contains(prr(q)));
                assert(actp(i, prr(q)) == actp(b, q));
            },
            SP::Both(p1, p2) => { assert(solo(c, actp(a, *p1))); },
            _ => {},
        }
    }
    assert forall|p: SP, t: Tr| valid(i, p) && #[trigger] der(i, p, t) implies cv(i, f, actp(i, p), t) by {
        match p {
            SP::Left(p1) => {
                let (t1, t2) = choose|t1: Tr, t2: Tr| #![trigger mrg(c, t1, t2, t)] der(a, *p1, t1) && sem(b, t2) && mrg(c, t1, t2, t);
                let q = l_cov_get(a, unl(f), *p1, t1);
                assert(der(i, pl(q), t));
                assert(f.contains(pl(q)));
            },
            SP::Right(p2) => {
                let (t1, t2) = choose|t1: Tr, t2: Tr| #![trigger mrg(c, t1, t2, t)]
                    sem(a, t1) && okr(c, t1, actp(b, *p2)) && der(b, *p2, t2) && mrg(c, t1, t2, t);
                assert(cv(b, unr(f), actp(b, *p2), t2));
                let q = choose|q: SP| #[trigger] unr(f).contains(q) && actp(b, q) == actp(b, *p2) && der(b, q, t2);
                assert(der(i, prr(q), t));
                assert(f.contains(prr(q)));
            },
            SP::Both(p1, p2) => { assert(solo(c, actp(a, *p1))); },
            _ => {},
        }
    }
}

pub broadcast proof fn b_covr_all(c: MOp, a: SI, b: SI, f: ISet<SP>)
    requires covers(b, f),
    ensures #[trigger] coversr(c, a, b, f),
{
    reveal(covers);
    reveal(coversr);
}

pub broadcast proof fn b_covr_none(a: SI, b: SI, f: ISet<SP>)
    requires !nullable(a),
    ensures #[trigger] coversr(MOp::Strict, a, b, f),
{
    reveal(coversr);
}

pub proof fn l_covr_some(c: MOp, a: SI, b: SI, d: nat, s: Seq<FrontierElement>, f: ISet<SP>)
    requires
        covers(b, unr(fset(s))), fokr(b, d, s),
        forall|j: int| 0 <= j < s.len() && passes(c, a, (#[trigger] s[j]).target_actions@) ==> f.contains(pv(s[j].position)),
    ensures coversr(c, a, b, unr(f)),
{
    reveal(coversr);
    assert forall|p: SP| #[trigger] valid(b, p) && passes(c, a, actp(b, p)) implies cs(b, unr(f), actp(b, p)) by {
        let q = l_cov_act(b, unr(fset(s)), p);
        assert(fset(s).contains(prr(q)));
        let j = choose|j: int| 0 <= j < s.len() && pv(#[trigger] s[j].position) == prr(q);
        assert(fer(b, d, s[j]));
        assert(f.contains(prr(q)));
        assert(unr(f).contains(q));
    }
    assert forall|p: SP, t: Tr| valid(b, p) && passes(c, a, actp(b, p)) && #[trigger] der(b, p, t) implies cv(b, unr(f), actp(b, p), t) by {
        let q = l_cov_get(b, unr(fset(s)), p, t);
        assert(fset(s).contains(prr(q)));
        let j = choose|j: int| 0 <= j < s.len() && pv(#[trigger] s[j].position) == prr(q);
        assert(fer(b, d, s[j]));
        assert(f.contains(prr(q)));
        assert(unr(f).contains(q));
    }
}

pub broadcast proof fn b_cov_alt(a: SI, b: SI, f: ISet<SP>)
    requires covers(a, unl(f)), covers(b, unr(f)),
    ensures #[trigger] covers(SI::Alt(Box::new(a), Box::new(b)), f),
{
    l_fr_alt(a, b, unl(f), unr(f), f);
}

pub broadcast proof fn b_cov_loop(k: LoopKind, a: SI, f: ISet<SP>)
    requires covers(a, unl(f)),
    ensures #[trigger] covers(SI::Loop(k, Box::new(a)), f),
{
    l_fr_loop(k, a, unl(f), f);
}

pub broadcast proof fn b_covl_app(i: SI, a: Seq<FrontierElement>, b: Seq<FrontierElement>)
    requires covers(i, unl(fset(a))),
    ensures #[trigger] covers(i, unl(fset(a + b))),
{
    l_fset_app(a, b);
    l_cov_mono(i, unl(fset(a)), unl(fset(a + b)));
}

pub broadcast proof fn b_covr_app(i: SI, a: Seq<FrontierElement>, b: Seq<FrontierElement>)
    requires covers(i, unr(fset(b))),
    ensures #[trigger] covers(i, unr(fset(a + b))),
{
    l_fset_app(a, b);
    l_cov_mono(i, unr(fset(b)), unr(fset(a + b)));
}

pub broadcast proof fn b_covl_push(i: SI, a: Seq<FrontierElement>, x: FrontierElement)
    requires covers(i, unl(fset(a))),
    ensures #[trigger] covers(i, unl(fset(a.push(x)))),
{
    l_fset_push(a, x);
    l_cov_mono(i, unl(fset(a)), unl(fset(a.push(x))));
}

pub broadcast proof fn b_fok_left(c: MOp, a: SI, b: SI, d: nat, s: Seq<FrontierElement>)
    requires !(c is Sync), fokl(a, d, s),
    ensures #[trigger] fok(SI::Op(c, Box::new(a), Box::new(b)), d, s),
{
    let i = op(c, a, b);
    assert forall|j: int| 0 <= j < s.len() implies fe(i, d, #[trigger] s[j]) by { assert(fel(a, d, s[j])); assert(solo(c, s[j].target_actions@)); }
}

pub broadcast proof fn b_fok_right(c: MOp, a: SI, b: SI, d: nat, s: Seq<FrontierElement>)
    requires conf(a), c is Par || (c is Strict && nullable(a)), fokr(b, d, s),
    ensures #[trigger] fok(SI::Op(c, Box::new(a), Box::new(b)), d, s),
{
    let i = op(c, a, b);
    assert forall|j: int| 0 <= j < s.len() implies fe(i, d, #[trigger] s[j]) by {
        assert(fer(b, d, s[j])); assert(solo(c, s[j].target_actions@));
        if c is Par { l_av_empty(a); }
    }
}

pub proof fn l_av_empty(a: SI)
    requires conf(a),
    ensures av(a, ISet::empty()),
    decreases a,
{
    match a {
        SI::Op(_, x, y) => { l_av_empty(*x); l_av_empty(*y); },
        SI::Alt(x, y) => { l_av_empty(*x); l_av_empty(*y); },
        _ => {},
    }
}

pub broadcast proof fn b_fok_alt_l(a: SI, b: SI, d: nat, s: Seq<FrontierElement>)
    requires fokl(a, d, s),
    ensures #[trigger] fok(SI::Alt(Box::new(a), Box::new(b)), d, s),
{
    assert forall|j: int| 0 <= j < s.len() implies fe(al(a, b), d, #[trigger] s[j]) by { assert(fel(a, d, s[j])); }
}

pub broadcast proof fn b_fok_alt_r(a: SI, b: SI, d: nat, s: Seq<FrontierElement>)
    requires fokr(b, d, s),
    ensures #[trigger] fok(SI::Alt(Box::new(a), Box::new(b)), d, s),
{
    assert forall|j: int| 0 <= j < s.len() implies fe(al(a, b), d, #[trigger] s[j]) by { assert(fer(b, d, s[j])); }
}

pub broadcast proof fn b_fok_loop(k: LoopKind, a: SI, d: nat, s: Seq<FrontierElement>)
    requires fokl(a, d + 1, s),
    ensures #[trigger] fok(SI::Loop(k, Box::new(a)), d, s),
{
    assert forall|j: int| 0 <= j < s.len() implies fe(lp(k, a), d, #[trigger] s[j]) by { assert(fel(a, d + 1, s[j])); }
}

pub broadcast proof fn b_fok_app(i: SI, d: nat, a: Seq<FrontierElement>, b: Seq<FrontierElement>)
    requires fok(i, d, a), fok(i, d, b),
    ensures #[trigger] fok(i, d, a + b),
{
    let s = a + b;
    assert forall|j: int| 0 <= j < s.len() implies fe(i, d, #[trigger] s[j]) by { if j < a.len() { assert(fe(i, d, a[j])); } else { assert(fe(i, d, b[j - a.len()])); } }
}

pub broadcast proof fn b_fset_push(g: Seq<FrontierElement>, x: FrontierElement)
    ensures #[trigger] fset(g.push(x)) == fset(g).insert(pv(x.position)),
{
    l_fset_push(g, x);
}

pub broadcast group g_fr {
    b_cov_op, b_covr_all, b_covr_none, b_cov_alt, b_cov_loop, b_covl_app, b_covr_app, b_covl_push,
    b_fok_left, b_fok_right, b_fok_alt_l, b_fok_alt_r, b_fok_loop, b_fok_app,
}

// ---- delayed choices

pub open spec fn mi_one(f1: Seq<FrontierElement>, f2: Seq<FrontierElement>, m: (usize, usize)) -> bool {
    m.0 < f1.len() && m.1 < f2.len() && f1[m.0 as int].target_actions@ == f2[m.1 as int].target_actions@
}

pub open spec fn mi_ok(f1: Seq<FrontierElement>, f2: Seq<FrontierElement>, mi: Seq<(usize, usize)>, m1: ISet<usize>, m2: ISet<usize>) -> bool {
    &&& forall|k: int| 0 <= k < mi.len() ==> mi_one(f1, f2, #[trigger] mi[k])
    &&& forall|x: usize| #[trigger] m1.contains(x) ==> mi_has1(mi, x)
    &&& forall|x: usize| #[trigger] m2.contains(x) ==> mi_has2(mi, x)
}

pub open spec fn mi_has1(mi: Seq<(usize, usize)>, x: usize) -> bool { exists|k: int| 0 <= k < mi.len() && (#[trigger] mi[k]).0 == x }
pub open spec fn mi_has2(mi: Seq<(usize, usize)>, x: usize) -> bool { exists|k: int| 0 <= k < mi.len() && (#[trigger] mi[k]).1 == x }

pub proof fn l_mi_push(f1: Seq<FrontierElement>, f2: Seq<FrontierElement>, mi: Seq<(usize, usize)>, m1: ISet<usize>, m2: ISet<usize>, x: usize, y: usize)
    requires mi_ok(f1, f2, mi, m1, m2), x < f1.len(), y < f2.len(),
    ensures mi_one(f1, f2, (x, y)) ==> mi_ok(f1, f2, mi.push((x, y)), m1.insert(x), m2.insert(y)),
{
    let n = mi.push((x, y));
    assert(n[mi.len() as int] == (x, y));
    if mi_one(f1, f2, (x, y)) {
        assert forall|z: usize| #[trigger] m1.insert(x).contains(z) implies mi_has1(n, z) by {
            if m1.contains(z) {
                assert(mi_has1(mi, z));
                let k = choose|k: int| 0 <= k < mi.len() && (#[trigger] mi[k]).0 == z;
                assert(n[k].0 == z);
            }
        }
        assert forall|z: usize| #[trigger] m2.insert(y).contains(z) implies mi_has2(n, z) by {
            if m2.contains(z) {
                assert(mi_has2(mi, z));
                let k = choose|k: int| 0 <= k < mi.len() && (#[trigger] mi[k]).1 == z;
                assert(n[k].1 == z);
            }
        }
    }
}

pub proof fn l_cov_delayed(a: SI, b: SI, d: nat, f1: Seq<FrontierElement>, f2: Seq<FrontierElement>, mi: Seq<(usize, usize)>, m1: ISet<usize>, m2: ISet<usize>, f: ISet<SP>)
    requires
        mi_ok(f1, f2, mi, m1, m2), fok(a, d, f1), fok(b, d, f2), covers(a, fset(f1)), covers(b, fset(f2)),
        f1.len() <= usize::MAX, f2.len() <= usize::MAX,
        forall|k: int| 0 <= k < mi.len() ==> f.contains(pb(pv(f1[(#[trigger] mi[k]).0 as int].position), pv(f2[mi[k].1 as int].position))),
        forall|j: int| 0 <= j < f1.len() && !m1.contains(j as usize) ==> f.contains(pl(pv((#[trigger] f1[j]).position))),
        forall|j: int| 0 <= j < f2.len() && !m2.contains(j as usize) ==> f.contains(prr(pv((#[trigger] f2[j]).position))),
    ensures covers(al(a, b), f),
{
    let fa = fset(f1);
    let fb = fset(f2);
    assert forall|q: SP| #[trigger] fa.contains(q) implies f.contains(pl(q)) || exists|q2: SP| #[trigger] f.contains(pb(q, q2)) by {
        let j = choose|j: int| 0 <= j < f1.len() && pv(#[trigger] f1[j].position) == q;
        if m1.contains(j as usize) {
            assert(mi_has1(mi, j as usize));
            let k = choose|k: int| 0 <= k < mi.len() && (#[trigger] mi[k]).0 == j as usize;
            assert(mi_one(f1, f2, mi[k]));
            assert(f.contains(pb(q, pv(f2[mi[k].1 as int].position))));
        } else {
            assert(f.contains(pl(pv(f1[j].position))));
        }
    }
    assert forall|q: SP| #[trigger] fb.contains(q) implies f.contains(prr(q)) || exists|q1: SP| #[trigger] f.contains(pb(q1, q)) && actp(b, q) == actp(a, q1) by {
        let j = choose|j: int| 0 <= j < f2.len() && pv(#[trigger] f2[j].position) == q;
        if m2.contains(j as usize) {
            assert(mi_has2(mi, j as usize));
            let k = choose|k: int| 0 <= k < mi.len() && (#[trigger] mi[k]).1 == j as usize;
            assert(mi_one(f1, f2, mi[k]));
            let q1 = pv(f1[mi[k].0 as int].position);
            assert(fe(a, d, f1[mi[k].0 as int]));
            assert(fe(b, d, f2[j]));
            assert(f.contains(pb(q1, q)));
        } else {
            assert(f.contains(prr(pv(f2[j].position))));
        }
    }
    l_fr_alt(a, b, fa, fb, f);
}

// ---- synchronized products

pub open spec fn rem_one(c: MOp, a: SI, d: nat, x: (FrontierElement, BTreeSet<TraceAction>)) -> bool {
    fe(a, d, x.0) && x.1@ == sact(c, x.0.target_actions@) && !solo(c, x.0.target_actions@)
}
pub open spec fn rem_ok(c: MOp, a: SI, d: nat, r: Seq<(FrontierElement, BTreeSet<TraceAction>)>) -> bool {
    forall|k: int| 0 <= k < r.len() ==> rem_one(c, a, d, #[trigger] r[k])
}
pub open spec fn rem_has(r: Seq<(FrontierElement, BTreeSet<TraceAction>)>, x: FrontierElement) -> bool {
    exists|k: int| 0 <= k < r.len() && (#[trigger] r[k]).0 == x
}
pub broadcast proof fn b_rem_push(r: Seq<(FrontierElement, BTreeSet<TraceAction>)>, y: (FrontierElement, BTreeSet<TraceAction>), x: FrontierElement)
    requires rem_has(r, x) || y.0 == x,
    ensures #[trigger] rem_has(r.push(y), x),
{
    let n = r.push(y);
    assert(n[r.len() as int] == y);
    if rem_has(r, x) {
        let k = choose|k: int| 0 <= k < r.len() && (#[trigger] r[k]).0 == x;
        assert(n[k].0 == x);
    }
}

/// f contains the synchronization of x1 and x2 if they may synchronize
pub open spec fn sy_ok(f: ISet<SP>, x1: (FrontierElement, BTreeSet<TraceAction>), x2: (FrontierElement, BTreeSet<TraceAction>)) -> bool {
    x1.1@ == x2.1@ ==> f.contains(pb(pv(x1.0.position), pv(x2.0.position)))
}

pub proof fn l_cov_sync(c: MOp, a: SI, b: SI, d: nat, f1: Seq<FrontierElement>, f2: Seq<FrontierElement>,
    r1: Seq<(FrontierElement, BTreeSet<TraceAction>)>, r2: Seq<(FrontierElement, BTreeSet<TraceAction>)>, f: ISet<SP>)
    requires
        c is Sync, fok(a, d, f1), fok(b, d, f2), covers(a, fset(f1)), covers(b, fset(f2)), rem_ok(c, a, d, r1), rem_ok(c, b, d, r2),
        forall|j: int| 0 <= j < f1.len() && solo(c, (#[trigger] f1[j]).target_actions@) ==> f.contains(pl(pv(f1[j].position))),
        forall|j: int| 0 <= j < f2.len() && solo(c, (#[trigger] f2[j]).target_actions@) ==> f.contains(prr(pv(f2[j].position))),
        forall|j: int| 0 <= j < f1.len() && !solo(c, (#[trigger] f1[j]).target_actions@) ==> rem_has(r1, f1[j]),
        forall|j: int| 0 <= j < f2.len() && !solo(c, (#[trigger] f2[j]).target_actions@) ==> rem_has(r2, f2[j]),
        forall|k1: int, k2: int| 0 <= k1 < r1.len() && 0 <= k2 < r2.len() ==> sy_ok(f, #[trigger] r1[k1], #[trigger] r2[k2]),
    ensures covers(op(c, a, b), f),
{
    let fa = fset(f1);
    let fb = fset(f2);
    assert forall|q: SP| #[trigger] fa.contains(q) && solo(c, actp(a, q)) implies f.contains(pl(q)) by {
        let j = choose|j: int| 0 <= j < f1.len() && pv(#[trigger] f1[j].position) == q;
        assert(fe(a, d, f1[j]));
    }
    assert forall|q: SP| #[trigger] fb.contains(q) && solo(c, actp(b, q)) implies f.contains(prr(q)) by {
        let j = choose|j: int| 0 <= j < f2.len() && pv(#[trigger] f2[j].position) == q;
        assert(fe(b, d, f2[j]));
    }
    assert forall|q1: SP, q2: SP| #[trigger] fa.contains(q1) && #[trigger] fb.contains(q2) && !solo(c, actp(a, q1)) && sact(c, actp(a, q1)) == sact(c, actp(b, q2))
            implies f.contains(pb(q1, q2)) by {
        let j1 = choose|j: int| 0 <= j < f1.len() && pv(#[trigger] f1[j].position) == q1;
        let j2 = choose|j: int| 0 <= j < f2.len() && pv(#[trigger] f2[j].position) == q2;
        assert(fe(a, d, f1[j1]) && fe(b, d, f2[j2]));
        assert(rem_has(r1, f1[j1]) && rem_has(r2, f2[j2]));
        let k1 = choose|k: int| 0 <= k < r1.len() && (#[trigger] r1[k]).0 == f1[j1];
        let k2 = choose|k: int| 0 <= k < r2.len() && (#[trigger] r2[k]).0 == f2[j2];
        assert(rem_one(c, a, d, r1[k1]) && rem_one(c, b, d, r2[k2]));
        assert(sy_ok(f, r1[k1], r2[k2]));
    }
    l_fr_sync(c, a, b, fa, fb, f);
}
