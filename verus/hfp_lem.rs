/// the tokens of the texts which are pushed
pub proof fn lem_lits1()
    ensures spaced(" -- "@, seq!["--"@]), spaced(" -> "@, seq!["->"@]), spaced(" ->|"@, seq!["->"@, "|"@]),
{
    hide(spaced);
    reveal_strlit(" -- "); reveal_strlit("--"); reveal_strlit(" -> "); reveal_strlit("->"); reveal_strlit(" ->|"); reveal_strlit("|");
    assert(" -- "@.subrange(1, 3) =~= "--"@); lem_one(" -- "@, 1, "--"@);
    assert(" -> "@.subrange(1, 3) =~= "->"@); lem_one(" -> "@, 1, "->"@);
    let sp = seq![' '];
    assert((sp + "->"@).subrange(1, 3) =~= "->"@);
    lem_one(sp + "->"@, 1, "->"@);
    lem_tok("|"@);
    lem_cat(sp + "->"@, seq!["->"@], "|"@, seq!["|"@]);
    assert(sp + "->"@ + "|"@ =~= " ->|"@);
    assert(seq!["->"@] + seq!["|"@] =~= seq!["->"@, "|"@]);
}
pub proof fn lem_lits2()
    ensures spaced(" -> ("@, seq!["->"@, "("@]), spaced("<synch>"@, seq!["<"@, "synch"@, ">"@]),
{
    hide(spaced);
    lem_lits1();
    lem_tok("("@); lem_tok("<"@); lem_tok("synch"@); lem_tok(">"@);
    lem_cat(" -> "@, seq!["->"@], "("@, seq!["("@]);
    lem_cat("<"@, seq!["<"@], "synch"@, seq!["synch"@]);
    lem_cat("<"@ + "synch"@, seq!["<"@] + seq!["synch"@], ">"@, seq![">"@]);
    assert(seq!["->"@] + seq!["("@] =~= seq!["->"@, "("@]);
    assert(seq!["<"@] + seq!["synch"@] + seq![">"@] =~= seq!["<"@, "synch"@, ">"@]);
    reveal_strlit(" -> "); reveal_strlit("("); reveal_strlit(" -> (");
    assert(" -> "@ + "("@ =~= " -> ("@);
    reveal_strlit("<synch>"); reveal_strlit("<"); reveal_strlit("synch"); reveal_strlit(">");
    assert("<"@ + "synch"@ + ">"@ =~= "<synch>"@);
}
pub proof fn lem_lits3()
    ensures spaced("(\n"@, seq!["("@]), spaced(",\n"@, seq![","@]), spaced("\n"@, Seq::empty()), spaced(""@, Seq::empty()), "\t"@.len() == 1, gap("\t"@[0]),
{
    reveal_strlit("("); reveal_strlit("(\n"); reveal_strlit(",\n"); reveal_strlit(","); reveal_strlit("\n"); reveal_strlit(""); reveal_strlit("\t");
    assert("(\n"@.subrange(0, 1) =~= "("@); lem_one("(\n"@, 0, "("@);
    assert(",\n"@.subrange(0, 1) =~= ","@); lem_one(",\n"@, 0, ","@);
}
pub proof fn lem_lits4()
    ensures
        spaced("loopS"@, seq!["loop"@, "S"@]), spaced("loopH"@, seq!["loop"@, "H"@]), spaced("loopW"@, seq!["loop"@, "W"@]), spaced("loopP"@, seq!["loop"@, "P"@]),
{
    hide(spaced);
    reveal_strlit("loop"); reveal_strlit("S"); reveal_strlit("H"); reveal_strlit("W"); reveal_strlit("P"); reveal_strlit("loopS"); reveal_strlit("loopH"); reveal_strlit("loopW"); reveal_strlit("loopP");
    lem_tok("loop"@); lem_tok("S"@); lem_tok("H"@); lem_tok("W"@); lem_tok("P"@);
    lem_cat("loop"@, seq!["loop"@], "S"@, seq!["S"@]); lem_cat("loop"@, seq!["loop"@], "H"@, seq!["H"@]); lem_cat("loop"@, seq!["loop"@], "W"@, seq!["W"@]); lem_cat("loop"@, seq!["loop"@], "P"@, seq!["P"@]);
    assert("loop"@ + "S"@ =~= "loopS"@); assert("loop"@ + "H"@ =~= "loopH"@); assert("loop"@ + "W"@ =~= "loopW"@); assert("loop"@ + "P"@ =~= "loopP"@);
    assert(seq!["loop"@] + seq!["S"@] =~= seq!["loop"@, "S"@]); assert(seq!["loop"@] + seq!["H"@] =~= seq!["loop"@, "H"@]); assert(seq!["loop"@] + seq!["W"@] =~= seq!["loop"@, "W"@]); assert(seq!["loop"@] + seq!["P"@] =~= seq!["loop"@, "P"@]);
}
pub proof fn lem_lits()
    ensures
        spaced(" -- "@, seq!["--"@]), spaced(" -> "@, seq!["->"@]), spaced(" ->|"@, seq!["->"@, "|"@]), spaced(" -> ("@, seq!["->"@, "("@]), spaced(")"@, seq![")"@]),
        spaced("<synch>"@, seq!["<"@, "synch"@, ">"@]), spaced("("@, seq!["("@]), spaced("(\n"@, seq!["("@]), spaced(",\n"@, seq![","@]), spaced(","@, seq![","@]),
        spaced("\n"@, Seq::empty()), spaced(""@, Seq::empty()), spaced("∅"@, seq!["∅"@]), spaced("strict"@, seq!["strict"@]), spaced("seq"@, seq!["seq"@]), spaced("par"@, seq!["par"@]),
        spaced("alt"@, seq!["alt"@]), spaced("coreg"@, seq!["coreg"@]),
        spaced("loopS"@, seq!["loop"@, "S"@]), spaced("loopH"@, seq!["loop"@, "H"@]), spaced("loopW"@, seq!["loop"@, "W"@]), spaced("loopP"@, seq!["loop"@, "P"@]),
        "\t"@.len() == 1, gap("\t"@[0]),
{
    hide(spaced);
    lem_lits1(); lem_lits2(); lem_lits3(); lem_lits4();
    lem_tok(")"@); lem_tok("("@); lem_tok(","@); lem_tok("∅"@); lem_tok("strict"@); lem_tok("seq"@); lem_tok("par"@); lem_tok("alt"@); lem_tok("coreg"@);
}

// ------------------------------------------------------------------ the tree of an interaction
pub open spec fn tgname(g: GeneralContext, t: EmissionTargetRef) -> Seq<char> {
    match t { EmissionTargetRef::Lifeline(k) => g.lf_names@[k as int]@, EmissionTargetRef::Gate(k) => g.gt_names@[k as int]@ }
}
pub open spec fn lfnames(g: GeneralContext, v: Seq<usize>) -> Seq<Seq<char>> { Seq::new(v.len(), |j: int| g.lf_names@[v[j] as int]@) }
pub open spec fn tgnames(g: GeneralContext, v: Seq<EmissionTargetRef>) -> Seq<Seq<char>> { Seq::new(v.len(), |j: int| tgname(g, v[j])) }
pub open spec fn p_target(v: Seq<Seq<char>>) -> PT {
    node(Rule::SD_COMMUNICATION_TARGET, seq![if v.len() == 0 { leaf(Rule::ENVIRONMENT_TARGET, Seq::empty()) } else if v.len() == 1 { lab(v[0]) } else { node(Rule::HIBOU_LABEL_LIST, labs(v)) }])
}
pub open spec fn p_cnt(syn: bool, m: Seq<char>) -> PT {
    node(Rule::SD_COMMUNICATION_CONTENT, if syn { seq![leaf(Rule::COMM_SYNCH, Seq::empty()), lab(m)] } else { seq![lab(m)] })
}
pub open spec fn p_org(n: Seq<char>) -> PT { node(Rule::SD_COMMUNICATION_ORIGIN, seq![lab(n)]) }
pub open spec fn p_em(g: GeneralContext, l: usize, m: usize, syn: bool, v: Seq<EmissionTargetRef>) -> PT {
    node(Rule::SD_COMMUNICATION_ACTION, seq![p_org(g.lf_names@[l as int]@), p_cnt(syn, g.ms_names@[m as int]@), p_target(tgnames(g, v))])
}
pub open spec fn p_rc(g: GeneralContext, o: Option<usize>, m: usize, syn: bool, v: Seq<usize>) -> PT {
    let c = p_cnt(syn, g.ms_names@[m as int]@);
    let t = p_target(lfnames(g, v));
    node(Rule::SD_COMMUNICATION_ACTION, match o { Some(k) => seq![p_org(g.gt_names@[k as int]@), c, t], None => seq![c, t] })
}
pub open spec fn p_loop(k: LoopKind) -> PT {
    node(Rule::SD_LOOP, seq![leaf(match k { LoopKind::SStrictSeq => Rule::SD_LOOP_KIND_S, LoopKind::HHeadFirstWS => Rule::SD_LOOP_KIND_H, LoopKind::WWeakSeq => Rule::SD_LOOP_KIND_W, LoopKind::PInterleaving => Rule::SD_LOOP_KIND_P }, Seq::empty())])
}
/// the children of an n-ary operator before its operands
pub open spec fn p_pre(g: GeneralContext, op: NOp) -> Seq<PT> {
    match op {
        NOp::Strict => seq![leaf(Rule::SD_STRICT, Seq::empty())],
        NOp::Seq => seq![leaf(Rule::SD_SEQ, Seq::empty())],
        NOp::Par => seq![leaf(Rule::SD_PAR, Seq::empty())],
        NOp::Alt => seq![leaf(Rule::SD_ALT, Seq::empty())],
        NOp::CoReg(c) => seq![leaf(Rule::SD_COREG, Seq::empty()), node(Rule::HIBOU_LABEL_LIST, labs(lfnames(g, c)))],
        _ => Seq::empty(),
    }
}
pub open spec fn p_rule(op: NOp) -> Rule {
    match op { NOp::Strict => Rule::SD_STRICT_INT, NOp::Seq => Rule::SD_SEQ_INT, NOp::Par => Rule::SD_PAR_INT, NOp::Alt => Rule::SD_ALT_INT, NOp::CoReg(_) => Rule::SD_COREG_INT, NOp::And => Rule::SD_AND_INT, NOp::Sync(_) => Rule::SD_SYNC_INT }
}
pub open spec fn int_of(c: PT) -> PT { node(Rule::SD_INTERACTION, seq![c]) }
/// the operands, nested uses of the same operator being flattened
pub open spec fn frs(op: NOp, i: SI) -> Seq<SI>
    decreases i,
{
    match i {
        SI::Op(o, a, b) => if nop(o) == op { frs(op, *a) + frs(op, *b) } else { seq![i] },
        SI::Alt(a, b) => if op is Alt { frs(op, *a) + frs(op, *b) } else { seq![i] },
        _ => seq![i],
    }
}
pub open spec fn ptree(g: GeneralContext, i: SI) -> PT
    decreases i, 0int,
{
    int_of(match i {
        SI::Empty => leaf(Rule::SD_EMPTY_INTERACTION, "∅"@),
        SI::Em(l, m, syn, v) => p_em(g, l, m, syn, v),
        SI::Rec(o, m, syn, v) => p_rc(g, o, m, syn, v),
        SI::Op(o, a, b) => node(p_rule(nop(o)), p_pre(g, nop(o)) + frt(g, nop(o), *a) + frt(g, nop(o), *b)),
        SI::Alt(a, b) => node(Rule::SD_ALT_INT, p_pre(g, NOp::Alt) + frt(g, NOp::Alt, *a) + frt(g, NOp::Alt, *b)),
        SI::Loop(k, a) => node(Rule::SD_LOOP_INT, seq![p_loop(k), ptree(g, *a)]),
        SI::And(a, b) => leaf(Rule::EOI, Seq::empty()),
    })
}
pub open spec fn frt(g: GeneralContext, op: NOp, i: SI) -> Seq<PT>
    decreases i, 1int,
{
    match i {
        SI::Op(o, a, b) => if nop(o) == op { frt(g, op, *a) + frt(g, op, *b) } else { seq![ptree(g, i)] },
        SI::Alt(a, b) => if op is Alt { frt(g, op, *a) + frt(g, op, *b) } else { seq![ptree(g, i)] },
        _ => seq![ptree(g, i)],
    }
}
/// the interaction read back: nested uses of an operator are grouped to the right
pub open spec fn flat(i: SI) -> SI
    decreases i, 0int,
{
    match i {
        SI::Op(o, a, b) => nfold(nop(o), flats(nop(o), *a) + flats(nop(o), *b)),
        SI::Alt(a, b) => nfold(NOp::Alt, flats(NOp::Alt, *a) + flats(NOp::Alt, *b)),
        SI::Loop(k, a) => SI::Loop(k, Box::new(flat(*a))),
        _ => i,
    }
}
pub open spec fn flats(op: NOp, i: SI) -> Seq<SI>
    decreases i, 1int,
{
    match i {
        SI::Op(o, a, b) => if nop(o) == op { flats(op, *a) + flats(op, *b) } else { seq![flat(i)] },
        SI::Alt(a, b) => if op is Alt { flats(op, *a) + flats(op, *b) } else { seq![flat(i)] },
        _ => seq![flat(i)],
    }
}
pub open spec fn oktg(g: GeneralContext, t: EmissionTargetRef) -> bool {
    match t { EmissionTargetRef::Lifeline(k) => k < g.lf_names@.len(), EmissionTargetRef::Gate(k) => k < g.gt_names@.len() }
}
/// interactions which can be written: declared names, receptions are received, targets are different, no conjunction nor synchronised product
pub open spec fn okp(g: GeneralContext, i: SI) -> bool
    decreases i,
{
    match i {
        SI::Empty => true,
        SI::Em(l, m, _, v) => l < g.lf_names@.len() && m < g.ms_names@.len() && v.no_duplicates() && forall|j: int| 0 <= j < v.len() ==> oktg(g, #[trigger] v[j]),
        SI::Rec(o, m, _, v) => (o is Some ==> o->0 < g.gt_names@.len()) && m < g.ms_names@.len() && v.len() > 0 && v.no_duplicates() && forall|j: int| 0 <= j < v.len() ==> #[trigger] v[j] < g.lf_names@.len(),
        SI::Op(o, a, b) => !(o is Sync) && (o matches MOp::CoReg(c) ==> c.len() > 0 && c.no_duplicates() && forall|j: int| 0 <= j < c.len() ==> #[trigger] c[j] < g.lf_names@.len()) && okp(g, *a) && okp(g, *b),
        SI::Alt(a, b) => okp(g, *a) && okp(g, *b),
        SI::Loop(_, a) => okp(g, *a),
        SI::And(_, _) => false,
    }
}
/// names are different, have no white space in them, and no gate is named as a lifeline
pub open spec fn okg(g: GeneralContext) -> bool {
    &&& wfg(g)
    &&& forall|j: int| 0 <= j < g.lf_names@.len() ==> strip((#[trigger] g.lf_names@[j])@) == g.lf_names@[j]@
    &&& forall|j: int| 0 <= j < g.ms_names@.len() ==> strip((#[trigger] g.ms_names@[j])@) == g.ms_names@[j]@
    &&& forall|j: int| 0 <= j < g.gt_names@.len() ==> strip((#[trigger] g.gt_names@[j])@) == g.gt_names@[j]@
    &&& forall|i: int, j: int| 0 <= i < g.lf_names@.len() && 0 <= j < g.gt_names@.len() ==> (#[trigger] g.lf_names@[i])@ != (#[trigger] g.gt_names@[j])@
}

// ------------------------------------------------------------------ the tree written denotes the interaction
pub proof fn lem_dlfs(g: GeneralContext, v: Seq<usize>, n: int)
    requires okg(g), 0 <= n <= v.len(), v.no_duplicates(), forall|j: int| 0 <= j < v.len() ==> #[trigger] v[j] < g.lf_names@.len(),
    ensures d_lfs(g, labs(lfnames(g, v)), n) == Some(v.take(n)),
    decreases n,
{
    if n > 0 {
        lem_dlfs(g, v, n - 1);
        lem_nid(g.lf_names@, v[n - 1]);
        assert(v[n - 1] < g.lf_names@.len());
        assert(lfid(g, labs(lfnames(g, v))[n - 1]) == Some(v[n - 1]));
        assert(v.take(n) =~= v.take(n - 1).push(v[n - 1]));
        assert(!v.take(n - 1).contains(v[n - 1])) by {
            if v.take(n - 1).contains(v[n - 1]) { let j = choose|j: int| 0 <= j < n - 1 && #[trigger] v.take(n - 1)[j] == v[n - 1]; assert(v[j] == v[n - 1]); }
        }
    } else { assert(v.take(0) =~= Seq::<usize>::empty()); }
}
pub proof fn lem_dtg(g: GeneralContext, t: EmissionTargetRef)
    requires okg(g), oktg(g, t),
    ensures d_tg(g, lab(tgname(g, t))) == Some(t),
{
    match t {
        EmissionTargetRef::Lifeline(k) => { lem_nid(g.lf_names@, k); assert(strip(g.lf_names@[k as int]@) == g.lf_names@[k as int]@); }
        EmissionTargetRef::Gate(k) => {
            lem_nid(g.gt_names@, k);
            assert(strip(g.gt_names@[k as int]@) == g.gt_names@[k as int]@);
            assert forall|q: usize| q < g.lf_names@.len() implies (#[trigger] g.lf_names@[q as int])@ != g.gt_names@[k as int]@ by {}
        }
    }
}
pub proof fn lem_dtgs(g: GeneralContext, v: Seq<EmissionTargetRef>, n: int)
    requires okg(g), 0 <= n <= v.len(), v.no_duplicates(), forall|j: int| 0 <= j < v.len() ==> oktg(g, #[trigger] v[j]),
    ensures d_tgs(g, labs(tgnames(g, v)), n) == Some(v.take(n)),
    decreases n,
{
    if n > 0 {
        lem_dtgs(g, v, n - 1);
        assert(oktg(g, v[n - 1]));
        lem_dtg(g, v[n - 1]);
        assert(labs(tgnames(g, v))[n - 1] == lab(tgname(g, v[n - 1])));
        assert(v.take(n) =~= v.take(n - 1).push(v[n - 1]));
        assert(!v.take(n - 1).contains(v[n - 1])) by {
            if v.take(n - 1).contains(v[n - 1]) { let j = choose|j: int| 0 <= j < n - 1 && #[trigger] v.take(n - 1)[j] == v[n - 1]; assert(v[j] == v[n - 1]); }
        }
    } else { assert(v.take(0) =~= Seq::<EmissionTargetRef>::empty()); }
}
pub proof fn lem_wlabs(v: Seq<Seq<char>>)
    ensures forall|j: int| 0 <= j < v.len() ==> wft(#[trigger] labs(v)[j]) && labs(v)[j].rule is HIBOU_LABEL && labs(v)[j] == lab(v[j]), v.len() > 0 ==> wft(node(Rule::HIBOU_LABEL_LIST, labs(v))),
{
    assert forall|j: int| 0 <= j < v.len() implies wft(#[trigger] labs(v)[j]) by { assert(wft(lab(v[j]))); }
}
pub proof fn lem_target(g: GeneralContext, v: Seq<Seq<char>>)
    ensures wft(p_target(v)), p_target(v).rule is SD_COMMUNICATION_TARGET,
{
    lem_wlabs(v);
    let c = p_target(v).kids[0];
    assert(wft(c)) by { if v.len() == 1 { assert(wft(lab(v[0]))); } }
    lem_wft1(Rule::SD_COMMUNICATION_TARGET, c);
    assert(p_target(v).kids =~= seq![c]);
}
pub proof fn lem_cnt(g: GeneralContext, syn: bool, m: usize)
    requires okg(g), m < g.ms_names@.len(),
    ensures ({ let t = p_cnt(syn, g.ms_names@[m as int]@); wft(t) && t.rule is SD_COMMUNICATION_CONTENT && d_cnt(g, t) == Some((syn, m)) }),
{
    lem_nid(g.ms_names@, m);
    assert(strip(g.ms_names@[m as int]@) == g.ms_names@[m as int]@);
    assert(wft(lab(g.ms_names@[m as int]@)));
    assert(wft(leaf(Rule::COMM_SYNCH, Seq::empty())));
}
pub proof fn lem_pact(g: GeneralContext, i: SI)
    requires okg(g), okp(g, i), i is Em || i is Rec,
    ensures ({ let t = ptree(g, i); wft(t) && t.rule is SD_INTERACTION && den(g, t) == Some(i) }),
{
    let t = ptree(g, i);
    let c = t.kids[0];
    match i {
        SI::Em(l, m, syn, v) => {
            lem_cnt(g, syn, m);
            lem_target(g, tgnames(g, v));
            lem_dtg(g, EmissionTargetRef::Lifeline(l));
            assert(wft(lab(g.lf_names@[l as int]@)));
            lem_wft1(Rule::SD_COMMUNICATION_ORIGIN, lab(g.lf_names@[l as int]@));
            lem_dtgs(g, v, v.len() as int);
            assert(v.take(v.len() as int) =~= v);
            if v.len() == 1 { assert(oktg(g, v[0])); lem_dtg(g, v[0]); assert(v =~= seq![v[0]]); }
            if v.len() == 0 { assert(v =~= Seq::empty()); }
            assert(d_trg(g, p_target(tgnames(g, v))) == Some(v));
            assert(d_act(g, c.kids) == Some(i));
        }
        SI::Rec(o, m, syn, v) => {
            lem_cnt(g, syn, m);
            lem_target(g, lfnames(g, v));
            if o is Some {
                let k = o->0;
                lem_dtg(g, EmissionTargetRef::Gate(k));
                assert(wft(lab(g.gt_names@[k as int]@)));
                lem_wft1(Rule::SD_COMMUNICATION_ORIGIN, lab(g.gt_names@[k as int]@));
            }
            lem_dlfs(g, v, v.len() as int);
            assert(v.take(v.len() as int) =~= v);
            if v.len() == 1 { assert(v[0] < g.lf_names@.len()); lem_dtg(g, EmissionTargetRef::Lifeline(v[0])); assert(v =~= seq![v[0]]); }
            assert(d_rcp(g, p_target(lfnames(g, v))) == Some(v));
            assert(d_act(g, c.kids) == Some(i));
        }
        _ => {}
    }
    assert(wft(c));
    lem_wft1(Rule::SD_INTERACTION, c);
}
/// a list of trees, and what they denote
pub open spec fn dens(g: GeneralContext, t: Seq<PT>, v: Seq<SI>) -> bool {
    t.len() == v.len() && forall|j: int| 0 <= j < t.len() ==> wft(#[trigger] t[j]) && t[j].rule is SD_INTERACTION && den(g, t[j]) == Some(v[j])
}
pub proof fn lem_dlist(g: GeneralContext, pre: Seq<PT>, t: Seq<PT>, v: Seq<SI>, n: int)
    requires dens(g, t, v), 0 <= n <= t.len(),
    ensures d_list(g, pre + t, pre.len() as int, pre.len() + n) == Some(v.take(n)),
    decreases n,
{
    if n > 0 {
        lem_dlist(g, pre, t, v, n - 1);
        assert((pre + t)[pre.len() + n - 1] == t[n - 1]);
        assert(v.take(n) =~= v.take(n - 1).push(v[n - 1]));
    } else { assert(v.take(0) =~= Seq::<SI>::empty()); }
}
pub proof fn lem_pop(g: GeneralContext, op: NOp, t: Seq<PT>, v: Seq<SI>)
    requires okg(g), dens(g, t, v), t.len() >= 2, !(op is And), !(op is Sync), op matches NOp::CoReg(c) ==> c.len() > 0 && c.no_duplicates() && forall|j: int| 0 <= j < c.len() ==> #[trigger] c[j] < g.lf_names@.len(),
    ensures ({ let x = int_of(node(p_rule(op), p_pre(g, op) + t)); wft(x) && x.rule is SD_INTERACTION && den(g, x) == Some(nfold(op, v)) }),
{
    let pre = p_pre(g, op);
    let ks = pre + t;
    let c = node(p_rule(op), ks);
    lem_dlist(g, pre, t, v, t.len() as int);
    assert(v.take(t.len() as int) =~= v);
    assert forall|j: int| pre.len() <= j < ks.len() implies (#[trigger] ks[j]).rule is SD_INTERACTION && wft(ks[j]) by { assert(ks[j] == t[j - pre.len()]); }
    if let NOp::CoReg(cr) = op {
        lem_wlabs(lfnames(g, cr));
        lem_dlfs(g, cr, cr.len() as int);
        assert(cr.take(cr.len() as int) =~= cr);
        assert(wft(leaf(Rule::SD_COREG, Seq::empty())));
        assert(ks[0] == leaf(Rule::SD_COREG, Seq::empty()) && ks[1] == node(Rule::HIBOU_LABEL_LIST, labs(lfnames(g, cr))));
        assert(ks[1].kids.len() == cr.len());
    } else {
        assert(pre.len() == 1 && wft(pre[0]));
        assert(ks[0] == pre[0]);
    }
    assert forall|j: int| 0 <= j < ks.len() implies wft(#[trigger] ks[j]) by { if j < pre.len() { assert(ks[j] == pre[j]); } }
    assert(shape(c));
    assert(wft(c));
    lem_wft1(Rule::SD_INTERACTION, c);
    assert(den(g, int_of(c)) == dn(op, d_list(g, ks, pre.len() as int, ks.len() as int)));
}
pub proof fn lem_densum(g: GeneralContext, t1: Seq<PT>, v1: Seq<SI>, t2: Seq<PT>, v2: Seq<SI>)
    requires dens(g, t1, v1), dens(g, t2, v2),
    ensures dens(g, t1 + t2, v1 + v2),
{
    let (t, v) = (t1 + t2, v1 + v2);
    assert forall|j: int| 0 <= j < t.len() implies wft(#[trigger] t[j]) && t[j].rule is SD_INTERACTION && den(g, t[j]) == Some(v[j]) by {
        if j < t1.len() { assert(t[j] == t1[j]); } else { assert(t[j] == t2[j - t1.len()]); }
    }
}
/// THEOREM (written and read back): the tree written for i follows the grammar and denotes i, nested uses of an operator being grouped to the right
pub proof fn thm_back(g: GeneralContext, i: SI)
    requires okg(g), okp(g, i),
    ensures wft(ptree(g, i)), ptree(g, i).rule is SD_INTERACTION, den(g, ptree(g, i)) == Some(flat(i)),
    decreases i, 0int,
{
    match i {
        SI::Empty => { let c = leaf(Rule::SD_EMPTY_INTERACTION, "∅"@); assert(wft(c)); lem_wft1(Rule::SD_INTERACTION, c); }
        SI::Em(..) => { lem_pact(g, i); }
        SI::Rec(..) => { lem_pact(g, i); }
        SI::Op(o, a, b) => {
            let op = nop(o);
            lem_frt(g, op, *a); lem_frt(g, op, *b);
            lem_densum(g, frt(g, op, *a), flats(op, *a), frt(g, op, *b), flats(op, *b));
            lem_pop(g, op, frt(g, op, *a) + frt(g, op, *b), flats(op, *a) + flats(op, *b));
            assert(p_pre(g, op) + frt(g, op, *a) + frt(g, op, *b) =~= p_pre(g, op) + (frt(g, op, *a) + frt(g, op, *b)));
        }
        SI::Alt(a, b) => {
            let op = NOp::Alt;
            lem_frt(g, op, *a); lem_frt(g, op, *b);
            lem_densum(g, frt(g, op, *a), flats(op, *a), frt(g, op, *b), flats(op, *b));
            lem_pop(g, op, frt(g, op, *a) + frt(g, op, *b), flats(op, *a) + flats(op, *b));
            assert(p_pre(g, op) + frt(g, op, *a) + frt(g, op, *b) =~= p_pre(g, op) + (frt(g, op, *a) + frt(g, op, *b)));
        }
        SI::Loop(k, a) => {
            thm_back(g, *a);
            let kl = p_loop(k).kids[0];
            assert(wft(kl));
            lem_wft1(Rule::SD_LOOP, kl);
            let c = node(Rule::SD_LOOP_INT, seq![p_loop(k), ptree(g, *a)]);
            assert(wft(c));
            lem_wft1(Rule::SD_INTERACTION, c);
            assert(d_loop(c.kids[0]) == k);
            assert(den(g, c.kids[1]) == Some(flat(*a)));
        }
        SI::And(a, b) => {}
    }
}
pub proof fn lem_frt(g: GeneralContext, op: NOp, i: SI)
    requires okg(g), okp(g, i),
    ensures dens(g, frt(g, op, i), flats(op, i)), frt(g, op, i).len() >= 1,
    decreases i, 1int,
{
    match i {
        SI::Op(o, a, b) => if nop(o) == op { lem_frt(g, op, *a); lem_frt(g, op, *b); lem_densum(g, frt(g, op, *a), flats(op, *a), frt(g, op, *b), flats(op, *b)); } else { thm_back(g, i); },
        SI::Alt(a, b) => if op is Alt { lem_frt(g, op, *a); lem_frt(g, op, *b); lem_densum(g, frt(g, op, *a), flats(op, *a), frt(g, op, *b), flats(op, *b)); } else { thm_back(g, i); },
        _ => { thm_back(g, i); }
    }
}

// ------------------------------------------------------------------ texts of lists
pub open spec fn ptrees(g: GeneralContext, v: Seq<SI>) -> Seq<PT> { Seq::new(v.len(), |j: int| ptree(g, v[j])) }
pub proof fn lem_frs(g: GeneralContext, op: NOp, i: SI)
    requires okp(g, i),
    ensures ptrees(g, frs(op, i)) =~= frt(g, op, i), frs(op, i).len() >= 1, forall|j: int| 0 <= j < frs(op, i).len() ==> okp(g, #[trigger] frs(op, i)[j]),
    decreases i,
{
    match i {
        SI::Op(o, a, b) => if nop(o) == op { lem_frs(g, op, *a); lem_frs(g, op, *b); },
        SI::Alt(a, b) => if op is Alt { lem_frs(g, op, *a); lem_frs(g, op, *b); },
        _ => {}
    }
}
pub proof fn lem_names(v: Seq<Seq<char>>)
    ensures forall|j: int| 0 <= j < v.len() ==> spaced(#[trigger] v[j], yl(labs(v)[j])), v.len() > 0 ==> spaced(joined(v, ","@), yl(labs(v)[0]) + yrep(labs(v), 1, seq![","@])),
{
    assert forall|j: int| 0 <= j < v.len() implies spaced(#[trigger] v[j], yl(labs(v)[j])) by { lem_tok(v[j]); }
    lem_lits();
    if v.len() > 0 { lem_list(v, labs(v), ","@); }
}
/// the text of a target
pub proof fn lem_ptarget(v: Seq<Seq<char>>)
    ensures
        v.len() == 0 ==> spaced(" ->|"@, yl(p_target(v))),
        v.len() == 1 ==> spaced(" -> "@ + v[0], yl(p_target(v))),
        v.len() > 1 ==> spaced(" -> ("@ + joined(v, ","@) + ")"@, yl(p_target(v))),
{
    lem_lits();
    lem_names(v);
    let t = p_target(v);
    let c = t.kids[0];
    if v.len() == 0 {
        assert(seq!["->"@] + seq!["|"@] =~= seq!["->"@, "|"@]);
    } else if v.len() == 1 {
        lem_tok(v[0]);
        lem_cat(" -> "@, seq!["->"@], v[0], seq![v[0]]);
        assert(yl(c) == seq![v[0]]);
    } else {
        let l = labs(v);
        let w = yl(l[0]) + yrep(l, 1, seq![","@]);
        lem_cat(" -> ("@, seq!["->"@, "("@], joined(v, ","@), w);
        lem_cat(" -> ("@ + joined(v, ","@), seq!["->"@, "("@] + w, ")"@, seq![")"@]);
        lem_wlabs(v);
        assert(yl(c) == seq!["("@] + yl(l[0]) + yrep(l, 1, seq![","@]) + seq![")"@]);
        assert(seq!["->"@, "("@] + w + seq![")"@] =~= seq!["->"@] + yl(c));
    }
}
pub proof fn lem_pcnt(syn: bool, m: Seq<char>)
    ensures spaced((if syn { "<synch>"@ } else { ""@ }) + m, yl(p_cnt(syn, m))),
{
    lem_lits();
    lem_tok(m);
    let t = p_cnt(syn, m);
    if syn {
        lem_cat("<synch>"@, seq!["<"@, "synch"@, ">"@], m, seq![m]);
        assert(yl(t.kids[0]) == seq!["<"@, "synch"@, ">"@]);
        assert(yl(t.kids[1]) == seq![m]);
    } else {
        lem_cat(""@, Seq::empty(), m, seq![m]);
        assert(yl(t.kids[0]) == seq![m]);
        assert(Seq::<Seq<char>>::empty() + seq![m] =~= seq![m]);
    }
}
/// text of an emission: origin, content, target
pub proof fn lem_pem(o: Seq<char>, syn: bool, m: Seq<char>, v: Seq<Seq<char>>, tg: Seq<char>)
    requires spaced(tg, yl(p_target(v))),
    ensures spaced(o + " -- "@ + ((if syn { "<synch>"@ } else { ""@ }) + m) + tg, yl(node(Rule::SD_COMMUNICATION_ACTION, seq![p_org(o), p_cnt(syn, m), p_target(v)]))),
        spaced(((if syn { "<synch>"@ } else { ""@ }) + m) + tg, yl(node(Rule::SD_COMMUNICATION_ACTION, seq![p_cnt(syn, m), p_target(v)]))),
{
    lem_lits();
    lem_pcnt(syn, m);
    lem_tok(o);
    let c = (if syn { "<synch>"@ } else { ""@ }) + m;
    let (yc, yt) = (yl(p_cnt(syn, m)), yl(p_target(v)));
    lem_cat(c, yc, tg, yt);
    lem_cat(o, seq![o], " -- "@, seq!["--"@]);
    lem_cat(o + " -- "@, seq![o] + seq!["--"@], c, yc);
    lem_cat(o + " -- "@ + c, seq![o] + seq!["--"@] + yc, tg, yt);
    assert(yl(p_org(o)) == seq![o] + seq!["--"@]) by { assert(yl(lab(o)) == seq![o]); }
    lem_wlabs(v);
    let n3 = node(Rule::SD_COMMUNICATION_ACTION, seq![p_org(o), p_cnt(syn, m), p_target(v)]);
    assert(yl(n3) == yl(n3.kids[0]) + yl(n3.kids[1]) + yl(n3.kids[2]));
    let n2 = node(Rule::SD_COMMUNICATION_ACTION, seq![p_cnt(syn, m), p_target(v)]);
    assert(yl(n2) == yl(n2.kids[0]) + yl(n2.kids[1]));
}
pub proof fn lem_int(c: PT)
    requires shape(int_of(c)),
    ensures yl(int_of(c)) == yl(c),
{
    let t = int_of(c);
    assert(t.kids[0] == c);
}
// ------------------------------------------------------------------ texts of operators
pub open spec fn rvs(r: Seq<&Interaction>) -> Seq<SI> { Seq::new(r.len(), |j: int| vw(*r[j])) }
/// tokens of an n-ary operator with operands ts
pub open spec fn optoks(ot: Seq<Seq<char>>, ts: Seq<PT>) -> Seq<Seq<char>> { ot + seq!["("@] + yl(ts[0]) + yrep(ts, 1, seq![","@]) + seq![")"@] }
/// tokens of the name of an operator
pub open spec fn optk(g: GeneralContext, op: NOp) -> Seq<Seq<char>> {
    match op {
        NOp::Strict => seq!["strict"@], NOp::Seq => seq!["seq"@], NOp::Par => seq!["par"@], NOp::Alt => seq!["alt"@],
        NOp::CoReg(c) => seq!["coreg"@] + (seq!["("@] + yl(labs(lfnames(g, c))[0]) + yrep(labs(lfnames(g, c)), 1, seq![","@]) + seq![")"@]),
        _ => Seq::empty(),
    }
}
pub proof fn lem_ploop(lk: LoopKind)
    ensures yl(p_loop(lk)) == seq!["loop"@, match lk { LoopKind::SStrictSeq => "S"@, LoopKind::HHeadFirstWS => "H"@, LoopKind::WWeakSeq => "W"@, LoopKind::PInterleaving => "P"@ }],
{
    let t = p_loop(lk);
    let x = match lk { LoopKind::SStrictSeq => "S"@, LoopKind::HHeadFirstWS => "H"@, LoopKind::WWeakSeq => "W"@, LoopKind::PInterleaving => "P"@ };
    assert(yl(t.kids[0]) == seq![x]);
    assert(yl(t) == seq!["loop"@] + yl(t.kids[0]));
    assert(seq!["loop"@] + seq![x] =~= seq!["loop"@, x]);
}
/// text of an n-ary operator
pub proof fn lem_optext(tab: Seq<char>, op: Seq<char>, ot: Seq<Seq<char>>, body: Seq<char>, ts: Seq<PT>)
    requires spaced(tab, Seq::empty()), spaced(op, ot), spaced(body, yl(ts[0]) + yrep(ts, 1, seq![","@])), ts.len() > 0, gaps(tab),
    ensures spaced(tab + op + "(\n"@ + body + "\n"@ + tab + ")"@, optoks(ot, ts)),
{
    lem_lits();
    let w = yl(ts[0]) + yrep(ts, 1, seq![","@]);
    lem_gap(tab, op, ot);
    lem_cat(tab + op, ot, "(\n"@, seq!["("@]);
    lem_cat(tab + op + "(\n"@, ot + seq!["("@], body, w);
    lem_gap(tab, ")"@, seq![")"@]);
    reveal_strlit("\n");
    lem_gap("\n"@, tab + ")"@, seq![")"@]);
    lem_cat(tab + op + "(\n"@ + body, ot + seq!["("@] + w, "\n"@ + (tab + ")"@), seq![")"@]);
    assert(tab + op + "(\n"@ + body + "\n"@ + tab + ")"@ =~= tab + op + "(\n"@ + body + ("\n"@ + (tab + ")"@)));
    assert(ot + seq!["("@] + w + seq![")"@] =~= optoks(ot, ts));
}
pub proof fn lem_optree(g: GeneralContext, op: NOp, t: Seq<PT>)
    requires t.len() >= 2, forall|j: int| 0 <= j < t.len() ==> (#[trigger] t[j]).rule is SD_INTERACTION, !(op is And), !(op is Sync), op matches NOp::CoReg(c) ==> c.len() > 0,
    ensures yl(int_of(node(p_rule(op), p_pre(g, op) + t))) == optoks(optk(g, op), t),
{
    let pre = p_pre(g, op);
    let ks = pre + t;
    let c = node(p_rule(op), ks);
    assert forall|j: int| pre.len() <= j < ks.len() implies (#[trigger] ks[j]).rule is SD_INTERACTION by { assert(ks[j] == t[j - pre.len()]); }
    lem_yrep(pre, t, 1, seq![","@]);
    assert(ks[pre.len() as int] == t[0]);
    assert(ks[0] == pre[0]);
    if let NOp::CoReg(cr) = op {
        let l = labs(lfnames(g, cr));
        lem_wlabs(lfnames(g, cr));
        assert(ks[1] == pre[1]);
        assert(yl(pre[0]) == seq!["coreg"@]);
        assert(yl(pre[1]) == seq!["("@] + yl(l[0]) + yrep(l, 1, seq![","@]) + seq![")"@]);
        assert(yl(c) == yl(ks[0]) + yl(ks[1]) + seq!["("@] + yl(ks[2]) + yrep(ks, 3, seq![","@]) + seq![")"@]);
        assert(yl(c) == optoks(optk(g, op), t));
    } else {
        assert(yl(pre[0]) == optk(g, op));
        assert(yl(c) == yl(ks[0]) + seq!["("@] + yl(ks[1]) + yrep(ks, 2, seq![","@]) + seq![")"@]);
    }
    assert(shape(c));
    assert(shape(int_of(c)));
    lem_int(c);
}
/// the tokens of the operator which i is
pub proof fn lem_written(g: GeneralContext, i: SI)
    requires okg(g), okp(g, i),
    ensures
        i is Empty ==> yl(ptree(g, i)) == seq!["∅"@],
        i matches SI::Op(o, a, b) ==> ptrees(g, frs(nop(o), *a) + frs(nop(o), *b)).len() >= 2 && yl(ptree(g, i)) == optoks(optk(g, nop(o)), ptrees(g, frs(nop(o), *a) + frs(nop(o), *b)))
            && (forall|j: int| 0 <= j < (frs(nop(o), *a) + frs(nop(o), *b)).len() ==> okp(g, #[trigger] (frs(nop(o), *a) + frs(nop(o), *b))[j])),
        i matches SI::Alt(a, b) ==> ptrees(g, frs(NOp::Alt, *a) + frs(NOp::Alt, *b)).len() >= 2 && yl(ptree(g, i)) == optoks(optk(g, NOp::Alt), ptrees(g, frs(NOp::Alt, *a) + frs(NOp::Alt, *b)))
            && (forall|j: int| 0 <= j < (frs(NOp::Alt, *a) + frs(NOp::Alt, *b)).len() ==> okp(g, #[trigger] (frs(NOp::Alt, *a) + frs(NOp::Alt, *b))[j])),
        i matches SI::Loop(k, a) ==> yl(ptree(g, i)) == optoks(yl(p_loop(k)), seq![ptree(g, *a)]),
{
    match i {
        SI::Empty => { lem_int(leaf(Rule::SD_EMPTY_INTERACTION, "∅"@)); }
        SI::Op(o, a, b) => { lem_wn(g, nop(o), *a, *b); }
        SI::Alt(a, b) => { lem_wn(g, NOp::Alt, *a, *b); }
        SI::Loop(k, a) => {
            let c = node(Rule::SD_LOOP_INT, seq![p_loop(k), ptree(g, *a)]);
            lem_int(c);
            let ts = seq![ptree(g, *a)];
            assert(yl(c) == yl(c.kids[0]) + seq!["("@] + yl(c.kids[1]) + seq![")"@]);
            assert(yrep(ts, 1, seq![","@]) == Seq::<Seq<char>>::empty());
            assert(yl(c) =~= optoks(yl(p_loop(k)), ts));
        }
        _ => {}
    }
}
pub proof fn lem_wn(g: GeneralContext, op: NOp, a: SI, b: SI)
    requires okg(g), okp(g, a), okp(g, b), !(op is And), !(op is Sync), op matches NOp::CoReg(c) ==> c.len() > 0,
    ensures ptrees(g, frs(op, a) + frs(op, b)).len() >= 2,
        yl(int_of(node(p_rule(op), p_pre(g, op) + frt(g, op, a) + frt(g, op, b)))) == optoks(optk(g, op), ptrees(g, frs(op, a) + frs(op, b))),
        forall|j: int| 0 <= j < (frs(op, a) + frs(op, b)).len() ==> okp(g, #[trigger] (frs(op, a) + frs(op, b))[j]),
{
    lem_frs(g, op, a); lem_frs(g, op, b);
    lem_frt(g, op, a); lem_frt(g, op, b);
    let t = frt(g, op, a) + frt(g, op, b);
    let f = frs(op, a) + frs(op, b);
    assert(ptrees(g, f) =~= t) by {
        assert forall|j: int| 0 <= j < t.len() implies ptrees(g, f)[j] == t[j] by {
            if j < frt(g, op, a).len() { assert(ptrees(g, frs(op, a))[j] == frt(g, op, a)[j]); } else { let k = j - frt(g, op, a).len(); assert(ptrees(g, frs(op, b))[k] == frt(g, op, b)[k]); }
        }
    }
    assert forall|j: int| 0 <= j < t.len() implies (#[trigger] t[j]).rule is SD_INTERACTION by { if j < frt(g, op, a).len() { assert(t[j] == frt(g, op, a)[j]); } else { assert(t[j] == frt(g, op, b)[j - frt(g, op, a).len()]); } }
    assert forall|j: int| 0 <= j < f.len() implies okp(g, #[trigger] f[j]) by { if j < frs(op, a).len() { assert(f[j] == frs(op, a)[j]); } else { assert(f[j] == frs(op, b)[j - frs(op, a).len()]); } }
    lem_optree(g, op, t);
    assert(p_pre(g, op) + frt(g, op, a) + frt(g, op, b) =~= p_pre(g, op) + t);
}
/// the text "coreg(a,b)"
pub proof fn lem_cotext(g: GeneralContext, c: Seq<usize>)
    requires c.len() > 0,
    ensures spaced("coreg"@ + "("@ + joined(lfnames(g, c), ","@) + ")"@, optk(g, NOp::CoReg(c))),
{
    lem_lits();
    let v = lfnames(g, c);
    lem_names(v);
    let l = labs(v);
    let w = yl(l[0]) + yrep(l, 1, seq![","@]);
    lem_cat("coreg"@, seq!["coreg"@], "("@, seq!["("@]);
    lem_cat("coreg"@ + "("@, seq!["coreg"@] + seq!["("@], joined(v, ","@), w);
    lem_cat("coreg"@ + "("@ + joined(v, ","@), seq!["coreg"@] + seq!["("@] + w, ")"@, seq![")"@]);
    assert(seq!["coreg"@] + seq!["("@] + w + seq![")"@] =~= optk(g, NOp::CoReg(c)));
}
/// THEOREM (writing): s is the tokens of a tree which denotes the interaction, up to the grouping of nested uses of an operator
pub open spec fn writes(g: GeneralContext, i: SI, s: Seq<char>) -> bool {
    exists|t: PT| #[trigger] wft(t) && t.rule is SD_INTERACTION && spaced(s, yl(t)) && den(g, t) == Some(flat(i))
}
/// nesting
pub open spec fn dpt(i: SI) -> nat
    decreases i,
{
    match i {
        SI::Op(_, a, b) => 1 + mx2(dpt(*a), dpt(*b)),
        SI::Alt(a, b) => 1 + mx2(dpt(*a), dpt(*b)),
        SI::And(a, b) => 1 + mx2(dpt(*a), dpt(*b)),
        SI::Loop(_, a) => 1 + dpt(*a),
        _ => 0,
    }
}
pub open spec fn mx2(a: nat, b: nat) -> nat { if a < b { b } else { a } }
pub proof fn lem_dpt(op: NOp, i: SI)
    ensures forall|j: int| 0 <= j < frs(op, i).len() ==> dpt(#[trigger] frs(op, i)[j]) <= dpt(i),
    decreases i,
{
    match i {
        SI::Op(o, a, b) => if nop(o) == op { lem_dpt(op, *a); lem_dpt(op, *b); lem_dcat(frs(op, *a), frs(op, *b), dpt(*a), dpt(*b)); },
        SI::Alt(a, b) => if op is Alt { lem_dpt(op, *a); lem_dpt(op, *b); lem_dcat(frs(op, *a), frs(op, *b), dpt(*a), dpt(*b)); },
        _ => {}
    }
}
pub proof fn lem_dcat(x: Seq<SI>, y: Seq<SI>, p: nat, q: nat)
    requires forall|j: int| 0 <= j < x.len() ==> dpt(#[trigger] x[j]) <= p, forall|j: int| 0 <= j < y.len() ==> dpt(#[trigger] y[j]) <= q,
    ensures forall|j: int| 0 <= j < (x + y).len() ==> dpt(#[trigger] (x + y)[j]) <= mx2(p, q),
{
    assert forall|j: int| 0 <= j < (x + y).len() implies dpt(#[trigger] (x + y)[j]) <= mx2(p, q) by {
        if j < x.len() { assert(dpt(x[j]) <= p); } else { assert(dpt(y[j - x.len()]) <= q); }
    }
}
pub proof fn lem_dpt2(op: NOp, a: SI, b: SI)
    ensures forall|j: int| 0 <= j < (frs(op, a) + frs(op, b)).len() ==> dpt(#[trigger] (frs(op, a) + frs(op, b))[j]) <= mx2(dpt(a), dpt(b)),
{
    lem_dpt(op, a); lem_dpt(op, b);
    lem_dcat(frs(op, a), frs(op, b), dpt(a), dpt(b));
}
/// operands which can be written
pub open spec fn oks(g: GeneralContext, d: nat, v: Seq<SI>) -> bool { forall|j: int| 0 <= j < v.len() ==> okp(g, #[trigger] v[j]) && d + 1 + dpt(v[j]) <= usize::MAX }
pub broadcast proof fn b_rvs(a: Seq<&Interaction>, b: Seq<&Interaction>)
    ensures #[trigger] rvs(a + b) == rvs(a) + rvs(b),
{ assert(rvs(a + b) =~= rvs(a) + rvs(b)); }
pub proof fn lem_oks(g: GeneralContext, d: nat, i: SI)
    requires okg(g), okp(g, i), d + dpt(i) <= usize::MAX,
    ensures i matches SI::Op(o, a, b) ==> oks(g, d, frs(nop(o), *a) + frs(nop(o), *b)), i matches SI::Alt(a, b) ==> oks(g, d, frs(NOp::Alt, *a) + frs(NOp::Alt, *b)),
        i matches SI::Loop(_, a) ==> okp(g, *a) && d + 1 + dpt(*a) <= usize::MAX,
{
    lem_written(g, i);
    match i {
        SI::Op(o, a, b) => { lem_dpt2(nop(o), *a, *b); }
        SI::Alt(a, b) => { lem_dpt2(NOp::Alt, *a, *b); }
        _ => {}
    }
}
pub proof fn lem_tab(g: GeneralContext, i: SI, tab: Seq<char>)
    requires okg(g), okp(g, i), gaps(tab),
    ensures ({ let e = Seq::<char>::empty(); let y = yl(ptree(g, i));
        &&& forall|s: Seq<char>| spaced(s, y) ==> spaced(#[trigger] (e + tab + s), y)
        &&& i matches SI::Loop(k, a) ==> forall|ls: Seq<char>, b: Seq<char>| spaced(ls, yl(p_loop(k))) && spaced(b, yl(ptree(g, *a))) ==> spaced(#[trigger] (e + tab + ls + "(\n"@ + b + "\n"@ + tab + ")"@), y) }),
{
    let e = Seq::<char>::empty(); let y = yl(ptree(g, i));
    assert(e + tab =~= tab);
    assert forall|s: Seq<char>| spaced(s, y) implies spaced(#[trigger] (e + tab + s), y) by { lem_gap(tab, s, y); }
    lem_written(g, i);
    if let SI::Loop(k, a) = i {
        let ts = seq![ptree(g, *a)];
        assert(spaced(tab, Seq::empty()));
        assert(yl(ts[0]) + yrep(ts, 1, seq![","@]) =~= yl(ptree(g, *a)));
        assert forall|ls: Seq<char>, b: Seq<char>| spaced(ls, yl(p_loop(k))) && spaced(b, yl(ptree(g, *a))) implies spaced(#[trigger] (e + tab + ls + "(\n"@ + b + "\n"@ + tab + ")"@), y) by {
            lem_optext(tab, ls, yl(p_loop(k)), b, ts);
        }
    }
}
