//! Files: models (.hif), signatures (.hsf) and multi-traces (.htf), read and written by the real code through a scratch directory.
use std::collections::BTreeSet;
use std::path::PathBuf;
use std::sync::atomic::{AtomicU64, Ordering};
use super::{Check, Out};
use super::gen::*;
use super::lang::*;
use crate::bad;
use crate::core::colocalizations::CoLocalizations;
use crate::core::execution::trace::multitrace::MultiTrace;
use crate::core::execution::trace::trace::{TraceAction, TraceActionKind};
use crate::core::general_context::GeneralContext;
use crate::core::language::syntax::action::*;
use crate::core::language::syntax::interaction::*;
use crate::io::input::hif::interface::parse_hif_file;
use crate::io::input::hsf::interface::parse_hsf_file;
use crate::io::input::htf::interface::parse_htf_file;
use crate::io::output::to_hfiles::interaction::to_hif::interaction_to_hif;
use crate::io::output::to_hfiles::trace::to_htf::write_multi_trace_into_file;

pub fn all() -> Vec<(&'static str, &'static str, Check, usize)> {
    vec![
        ("P16", "read", hif_read, 7),
        ("P16", "write", hif_write, 8),
        ("P16", "garbage", hif_garbage, 4),
        ("P17", "signature", hsf_read, 6),
        ("P17", "read", htf_read, 6),
        ("P17", "write", htf_write, 6),
        ("P17", "garbage", htf_garbage, 4),
    ]
}

/// a file of its own, removed at the end
pub(super) struct File(pub(super) PathBuf);
static NUM: AtomicU64 = AtomicU64::new(0);
impl File {
    pub(super) fn new(ext: &str) -> File {
        let d = if std::path::Path::new("/dev/shm").is_dir() { PathBuf::from("/dev/shm") } else { std::env::temp_dir() };
        File(d.join(format!("hb_io_{}_{}.{}", std::process::id(), NUM.fetch_add(1, Ordering::Relaxed), ext)))
    }
    pub(super) fn path(&self) -> String { self.0.to_str().unwrap().to_string() }
}
impl Drop for File { fn drop(&mut self) { let _ = std::fs::remove_file(&self.0); } }

const NAMES: [&str; 26] = ["o", "o1", "or", "a", "b", "c", "ab", "seq", "strict", "alt", "par", "coreg", "sync", "loop", "loopS", "S", "H", "asynch", "synch", "é_2", "Z9", "any", "all", "m", "l_0", "A"];

/// names of lifelines, messages and gates
struct Ctx { names: [Vec<String>; 3] }
impl Ctx {
    fn gen(r: &mut Rng, apart: bool) -> Ctx {
        let mut names = [vec![], vec![], vec![]];
        let n = [1 + r.below(4), 1 + r.below(3), r.below(3)];
        for k in 0..3 {
            while names[k].len() < n[k] {
                let s = r.pick(&NAMES).to_string();
                if !names[k].contains(&s) && !(apart && k == 2 && names[0].contains(&s)) { names[k].push(s); }
            }
        }
        Ctx { names }
    }
    fn ctx(&self) -> GeneralContext {
        let mut g = GeneralContext::new();
        for x in &self.names[0] { g.add_lf(x.clone()); }
        for x in &self.names[1] { g.add_msg(x.clone()); }
        for x in &self.names[2] { g.add_gt(x.clone()); }
        g
    }
    fn id(&self, k: usize, s: &str) -> Option<usize> { self.names[k].iter().position(|x| x == s) }
    /// mostly a declared name
    fn pick(&self, r: &mut Rng, ks: &[usize], wrong: usize) -> String {
        if r.chance(1, wrong) { return r.pick(&NAMES).to_string(); }
        let k = r.pick(ks);
        if self.names[k].is_empty() { return r.pick(&self.names[0]); }
        r.pick(&self.names[k])
    }
}

/// layout between tokens
pub(super) fn lay(r: &mut Rng, toks: &[String]) -> String {
    let mut s = String::new();
    let plain = r.chance(1, 3);
    let mut gap = |r: &mut Rng, s: &mut String| {
        if plain { return; }
        for _ in 0..r.below(3) { s.push_str(r.pick(&["", " ", "\n", "\t", "  ", "\r\n", "/* o -- m -> | */", "/**/", "/*/ */"])); }
    };
    for t in toks { gap(r, &mut s); s.push_str(t); }
    gap(r, &mut s);
    s
}
pub(super) fn tk(v: &mut Vec<String>, s: &str) { for x in s.split(' ') { if !x.is_empty() { v.push(x.to_string()); } } }
fn commas(v: &mut Vec<String>, l: &[String]) { for (i, x) in l.iter().enumerate() { if i > 0 { v.push(",".to_string()); } v.push(x.clone()); } }
fn distinct<T: PartialEq>(v: &[T]) -> bool { (0..v.len()).all(|i| !v[..i].contains(&v[i])) }

fn names_of(r: &mut Rng, c: &Ctx, ks: &[usize], n: usize, w: usize) -> Vec<String> {
    let mut v: Vec<String> = vec![];
    for _ in 0..n { let x = c.pick(r, ks, w); if r.chance(1, w) || !v.contains(&x) || r.chance(1, 5) && v.is_empty() { v.push(x); } }
    if v.is_empty() { v.push(c.pick(r, ks, w)); }
    v
}

/// tokens of an action of a trace, and its meaning
fn taction(r: &mut Rng, c: &Ctx, v: &mut Vec<String>, w: usize, lf: Option<String>) -> Option<TraceAction> {
    let l = lf.unwrap_or_else(|| c.pick(r, &[0], w));
    let m = c.pick(r, &[1], w);
    let e = r.chance(1, 2);
    v.push(l.clone());
    v.push(if e { "!" } else { "?" }.to_string());
    v.push(m.clone());
    Some(TraceAction { lf_id: c.id(0, &l)?, act_kind: if e { TraceActionKind::Emission } else { TraceActionKind::Reception }, ms_id: c.id(1, &m)? })
}

/// tokens of a model, and the model it denotes (None: an error has to be reported)
fn model(r: &mut Rng, c: &Ctx, n: usize, v: &mut Vec<String>, w: usize) -> Option<Interaction> {
    if r.chance(1, if n <= 1 { 6 } else { 5 }) {
        let (s, k) = r.pick(&[("S", LoopKind::SStrictSeq), ("H", LoopKind::HHeadFirstWS), ("W", LoopKind::WWeakSeq), ("P", LoopKind::PInterleaving)]);
        tk(v, "loop");
        tk(v, s);
        tk(v, "(");
        let i = model(r, c, n, v, w);
        tk(v, ")");
        return Some(Interaction::Loop(k, Box::new(i?)));
    }
    if n <= 1 {
        if r.chance(1, 6) { tk(v, if r.chance(1, 2) { "o" } else { "∅" }); return Some(Interaction::Empty); }
        let ks: &[usize] = if r.chance(1, 4) { &[2] } else { &[0] };
        let origin = if r.chance(2, 3) { Some(c.pick(r, ks, w)) } else { None };
        let from_lf = origin.as_ref().map(|x| c.id(0, x).is_some()).unwrap_or(false);
        if let Some(o) = &origin { v.push(o.clone()); tk(v, "--"); }
        let sy = match r.below(4) { 0 => { tk(v, "< synch >"); true }, 1 => { tk(v, "< asynch >"); false }, _ => false };
        let m = c.pick(r, &[1], w);
        v.push(m.clone());
        tk(v, "->");
        let ts = if from_lf && r.chance(1, 4) { tk(v, "|"); vec![] } else {
            let k = match r.below(5) { 0 | 1 | 2 => 1, 3 => 2, _ => 3 };
            let ks: &[usize] = if from_lf && r.chance(1, 3) { &[0, 2] } else { &[0] };
            let ts = names_of(r, c, ks, k, w);
            if ts.len() > 1 || r.chance(1, 4) { tk(v, "("); commas(v, &ts); tk(v, ")"); } else { v.push(ts[0].clone()); }
            ts
        };
        let sy = if sy { CommunicationSynchronicity::Synchronous } else { CommunicationSynchronicity::Asynchronous };
        let ms = c.id(1, &m)?;
        if from_lf {
            let mut tg = vec![];
            for t in &ts {
                tg.push(match (c.id(0, t), c.id(2, t)) { (Some(l), _) => EmissionTargetRef::Lifeline(l), (None, Some(g)) => EmissionTargetRef::Gate(g), _ => return None });
            }
            if !distinct(&tg) { return None; }
            return Some(Interaction::Emission(EmissionAction::new(c.id(0, origin.as_ref()?)?, ms, sy, tg)));
        }
        let gt = match &origin { None => None, Some(o) => Some(c.id(2, o)?) };
        let mut rs = vec![];
        for t in &ts { rs.push(c.id(0, t)?); }
        if !distinct(&rs) { return None; }
        return Some(Interaction::Reception(ReceptionAction::new(gt, ms, sy, rs)));
    }
    let k = r.below(7);
    tk(v, ["strict", "seq", "alt", "par", "and", "coreg", "sync"][k]);
    let mut ok = true;
    let mut cr = vec![];
    let mut sa = vec![];
    if k == 5 {
        let n = 1 + r.below(3);
        let ls = names_of(r, c, &[0], n, w);
        tk(v, "(");
        commas(v, &ls);
        tk(v, ")");
        for l in &ls { match c.id(0, l) { Some(x) => cr.push(x), None => ok = false } }
        ok = ok && distinct(&cr);
    }
    if k == 6 {
        let n = 1 + r.below(3);
        tk(v, if n == 1 { "(" } else { "{" });
        for i in 0..n {
            if i > 0 { tk(v, ","); }
            match taction(r, c, v, w, None) { Some(a) => sa.push(a), None => ok = false }
        }
        tk(v, if n == 1 { ")" } else { "}" });
        sa.sort_by_key(|a: &TraceAction| (a.lf_id, a.act_kind == TraceActionKind::Emission, a.ms_id));
        // the actions are kept in the order of the datatype
        let s: BTreeSet<TraceAction> = sa.iter().cloned().collect();
        sa = s.into_iter().collect();
    }
    let parts = 2 + if n > 2 { r.below(3).min(n - 2) } else { 0 };
    let mut subs = vec![];
    tk(v, "(");
    for p in 0..parts {
        if p > 0 { tk(v, ","); }
        match model(r, c, (n / parts).max(1), v, w) { Some(i) => subs.push(i), None => ok = false }
    }
    tk(v, ")");
    if !ok { return None; }
    Some(fold(&|a, b| op(k, &cr, &sa, a, b), subs))
}
fn op(k: usize, cr: &Vec<usize>, sa: &Vec<TraceAction>, a: Interaction, b: Interaction) -> Interaction {
    let (a, b) = (Box::new(a), Box::new(b));
    match k {
        0 => Interaction::Strict(a, b),
        1 => Interaction::Seq(a, b),
        2 => Interaction::Alt(a, b),
        3 => Interaction::Par(a, b),
        4 => Interaction::And(a, b),
        5 => Interaction::CoReg(cr.clone(), a, b),
        _ => Interaction::Sync(sa.clone(), a, b),
    }
}
fn fold(f: &dyn Fn(Interaction, Interaction) -> Interaction, mut v: Vec<Interaction>) -> Interaction {
    let mut r = v.pop().unwrap();
    while let Some(x) = v.pop() { r = f(x, r); }
    r
}
fn put(f: &File, t: &str) { std::fs::write(&f.0, t).unwrap(); }

/// a model is read as what is written, undeclared names and repeated targets are errors
pub fn hif_read(r: &mut Rng, n: usize) -> Out {
    let c = Ctx::gen(r, false);
    let mut v = vec![];
    let w = if r.chance(1, 2) { 1000000 } else { 12 };
    let want = model(r, &c, n, &mut v, w);
    let t = lay(r, &v);
    let f = File::new("hif");
    put(&f, &t);
    let got = parse_hif_file(&c.ctx(), &f.path());
    match (want, got) {
        (Some(a), Ok(b)) => if a != b { bad!("the model {:?} of lifelines {:?}, messages {:?} and gates {:?} is read as {} instead of {}", t, c.names[0], c.names[1], c.names[2], show(&b), show(&a)); },
        (None, Err(_)) => {},
        (Some(a), Err(e)) => bad!("the model {:?} of lifelines {:?}, messages {:?} and gates {:?} is rejected instead of read as {}: {}", t, c.names[0], c.names[1], c.names[2], show(&a), e),
        (None, Ok(b)) => bad!("the model {:?} of lifelines {:?}, messages {:?} and gates {:?} is read as {} instead of rejected", t, c.names[0], c.names[1], c.names[2], show(&b)),
    }
    Out::Ok
}

/// nested operators of the same kind, to the right
fn norm(i: &Interaction) -> Interaction {
    fn frags(i: &Interaction, k: usize, cr: &Vec<usize>, out: &mut Vec<Interaction>) {
        match i {
            Interaction::Strict(a, b) if k == 0 => { frags(a, k, cr, out); frags(b, k, cr, out); },
            Interaction::Seq(a, b) if k == 1 => { frags(a, k, cr, out); frags(b, k, cr, out); },
            Interaction::Alt(a, b) if k == 2 => { frags(a, k, cr, out); frags(b, k, cr, out); },
            Interaction::Par(a, b) if k == 3 => { frags(a, k, cr, out); frags(b, k, cr, out); },
            Interaction::CoReg(x, a, b) if k == 5 && x == cr => { frags(a, k, cr, out); frags(b, k, cr, out); },
            _ => out.push(norm(i)),
        }
    }
    let (k, cr) = match i {
        Interaction::Strict(..) => (0, vec![]),
        Interaction::Seq(..) => (1, vec![]),
        Interaction::Alt(..) => (2, vec![]),
        Interaction::Par(..) => (3, vec![]),
        Interaction::CoReg(x, ..) => (5, x.clone()),
        Interaction::Loop(k, a) => return Interaction::Loop(k.clone(), Box::new(norm(a))),
        _ => return i.clone(),
    };
    let mut v = vec![];
    frags(i, k, &cr, &mut v);
    fold(&|a, b| op(k, &cr, &vec![], a, b), v)
}
/// a written model is read back as itself (operators of the same kind nested to the right)
pub fn hif_write(r: &mut Rng, n: usize) -> Out {
    let c = Ctx::gen(r, true);
    let conf = Conf { lfs: c.names[0].len(), mss: c.names[1].len(), gts: c.names[2].len(), sync: false, dup: false, ..Conf::full() };
    let mut i = term(r, &conf, n);
    fix(&mut i);
    let f = File::new("hif");
    interaction_to_hif(&f.0, &c.ctx(), &i);
    let t = std::fs::read_to_string(&f.0).unwrap();
    match parse_hif_file(&c.ctx(), &f.path()) {
        Ok(j) => if j != norm(&i) { bad!("{} of lifelines {:?}, messages {:?} and gates {:?} is written as {:?}, which is read as {}", show(&i), c.names[0], c.names[1], c.names[2], t, show(&j)); },
        Err(e) => bad!("{} of lifelines {:?}, messages {:?} and gates {:?} is written as {:?}, which is rejected: {}", show(&i), c.names[0], c.names[1], c.names[2], t, e),
    }
    Out::Ok
}
/// a co-region names at least one lifeline
fn fix(i: &mut Interaction) {
    match i {
        Interaction::CoReg(cr, a, b) => { if cr.is_empty() { cr.push(0); } fix(a); fix(b); },
        Interaction::Strict(a, b) | Interaction::Seq(a, b) | Interaction::Par(a, b) | Interaction::Alt(a, b) | Interaction::And(a, b) | Interaction::Sync(_, a, b) => { fix(a); fix(b); },
        Interaction::Loop(_, a) => fix(a),
        _ => {}
    }
}
fn spoil(r: &mut Rng, v: &mut Vec<String>) {
    for _ in 0..1 + r.below(2) {
        if v.is_empty() { return; }
        let p = r.below(v.len());
        match r.below(3) {
            0 => { v.remove(p); },
            1 => { let x = r.pick(&["(", ")", ",", "->", "--", "o", "a", "|", "{", "}", ";", "[", "]", "!", ".", "#any", "#all", "/*", "*/", "@", "9"]).to_string(); v.insert(p, x); },
            _ => { let q = r.below(v.len()); v.swap(p, q); },
        }
    }
}
/// no text makes the reader fail otherwise than by an error
pub fn hif_garbage(r: &mut Rng, n: usize) -> Out {
    let c = Ctx::gen(r, false);
    let mut v = vec![];
    model(r, &c, n, &mut v, 12);
    spoil(r, &mut v);
    let f = File::new("hif");
    put(&f, &lay(r, &v));
    let _ = parse_hif_file(&c.ctx(), &f.path());
    Out::Ok
}

/// sections of a signature
pub fn hsf_read(r: &mut Rng, n: usize) -> Out {
    let mut names: [Vec<String>; 3] = [vec![], vec![], vec![]];
    let mut seen = [0; 3];
    let mut v = vec![];
    for _ in 0..r.below(4).max(if n > 1 { 1 } else { 0 }) {
        let k = r.below(3);
        if seen[k] > 0 && r.chance(4, 5) { continue; }
        seen[k] += 1;
        tk(&mut v, ["@lifeline", "@message", "@gate"][k]);
        tk(&mut v, "{");
        let m = 1 + r.below(n);
        for j in 0..m {
            if j > 0 { tk(&mut v, ";"); }
            let s = r.pick(&NAMES).to_string();
            v.push(s.clone());
            if !names[k].contains(&s) { names[k].push(s); }
        }
        if r.chance(1, 2) { tk(&mut v, ";"); }
        tk(&mut v, "}");
    }
    let t = lay(r, &v);
    let f = File::new("hsf");
    put(&f, &t);
    match parse_hsf_file(&f.path()) {
        Err(e) => if seen.iter().all(|x| *x <= 1) { bad!("the signature {:?} is rejected: {}", t, e); },
        Ok(g) => {
            if seen.iter().any(|x| *x > 1) { bad!("the signature {:?}, with a section given twice, is read", t); }
            if g.get_lf_num() != names[0].len() || g.get_ms_num() != names[1].len() { bad!("the signature {:?} has {} lifelines and {} messages", t, g.get_lf_num(), g.get_ms_num()); }
            for (k, v) in names.iter().enumerate() {
                for s in NAMES {
                    let id = match k { 0 => g.get_lf_id(s), 1 => g.get_ms_id(s), _ => g.get_gt_id(s) };
                    if id != v.iter().position(|x| x == s) { bad!("in the signature {:?} the {} {:?} has identifier {:?}", t, ["lifeline", "message", "gate"][k], s, id); }
                }
                for (id, s) in v.iter().enumerate() {
                    let x = match k { 0 => g.get_lf_name(id), 1 => g.get_ms_name(id), _ => g.get_gt_name(id) };
                    if x.as_ref().ok() != Some(s) { bad!("in the signature {:?} the {} {} is {:?}", t, ["lifeline", "message", "gate"][k], id, x); }
                }
            }
        }
    }
    Out::Ok
}

fn element(r: &mut Rng, c: &Ctx, v: &mut Vec<String>, w: usize, lfs: &[String]) -> Option<Ev> {
    let n = match r.below(4) { 0 => 2 + r.below(2), _ => 1 };
    let mut e = Ev::new();
    let mut ok = true;
    if n > 1 { tk(v, "{"); }
    for i in 0..n {
        if i > 0 { tk(v, ","); }
        let lf = if lfs.is_empty() || r.chance(1, w) { None } else { Some(r.pick(lfs)) };
        match taction(r, c, v, w, lf) { Some(a) => { e.insert(a); }, None => ok = false }
    }
    if n > 1 { tk(v, "}"); }
    if ok { Some(e) } else { None }
}
fn sequence(r: &mut Rng, c: &Ctx, v: &mut Vec<String>, w: usize, n: usize, lfs: &[String]) -> Option<Tr> {
    let mut t = vec![];
    let mut ok = true;
    for i in 0..n {
        if i > 0 { tk(v, "."); }
        match element(r, c, v, w, lfs) { Some(e) => t.push(e), None => ok = false }
    }
    if ok { Some(t) } else { None }
}

/// tokens of a multi-trace and what it denotes
fn mtrace(r: &mut Rng, c: &Ctx, n: usize, v: &mut Vec<String>, w: usize) -> Option<(Vec<BTreeSet<usize>>, MultiTrace)> {
    let num = c.names[0].len();
    if r.chance(1, 5) {
        let t = sequence(r, c, v, w, n, &[])?;
        return Some((vec![(0..num).collect()], vec![t]));
    }
    let mut ok = true;
    let mut taken: BTreeSet<usize> = BTreeSet::new();
    let (mut cs, mut mt) = (vec![], vec![]);
    tk(v, "{");
    let k = r.below(n + 1).min(4);
    for i in 0..k {
        if i > 0 { tk(v, ";"); }
        tk(v, "[");
        let free: Vec<usize> = (0..num).filter(|x| !taken.contains(x)).collect();
        let (mut mine, any) = match r.below(5) {
            0 => { tk(v, "#any"); (BTreeSet::new(), true) },
            1 => { tk(v, "#all"); (free.iter().cloned().collect(), false) },
            _ => {
                let mut ls: Vec<String> = free.iter().filter(|_| r.chance(1, 2)).map(|x| c.names[0][*x].clone()).collect();
                if ls.is_empty() { ls.push(if !free.is_empty() && !r.chance(1, w) { c.names[0][r.pick(&free)].clone() } else { r.pick(&c.names[0]) }); }
                if r.chance(1, w) { let x = c.pick(r, &[0], 2); ls.push(x); }
                commas(v, &ls);
                let mut s = BTreeSet::new();
                for l in &ls { match c.id(0, l) { Some(x) => { if taken.contains(&x) { ok = false; } s.insert(x); }, None => ok = false } }
                (s, false)
            }
        };
        tk(v, "]");
        let own: Vec<String> = if any { free.iter().map(|x| c.names[0][*x].clone()).collect() } else { mine.iter().map(|x| c.names[0][*x].clone()).collect() };
        let m = if own.is_empty() { if r.chance(1, w) { 1 } else { 0 } } else { r.below(4) };
        match sequence(r, c, v, w, m, &own) {
            None => ok = false,
            Some(t) => {
                for a in t.iter().flatten() {
                    if taken.contains(&a.lf_id) { ok = false; }
                    if any { mine.insert(a.lf_id); } else if !mine.contains(&a.lf_id) { ok = false; }
                }
                taken.extend(mine.iter().cloned());
                cs.push(mine);
                mt.push(t);
            }
        }
    }
    if r.chance(1, 3) { tk(v, ";"); }
    tk(v, "}");
    if !ok { return None; }
    for l in 0..num { if !taken.contains(&l) { cs.push([l].into_iter().collect()); mt.push(vec![]); } }
    Some((cs, mt))
}

/// a multi-trace is read as what is written
pub fn htf_read(r: &mut Rng, n: usize) -> Out {
    let c = Ctx::gen(r, false);
    let mut v = vec![];
    let w = if r.chance(1, 2) { 1000000 } else { 12 };
    let want = mtrace(r, &c, n, &mut v, w);
    let t = lay(r, &v);
    let f = File::new("htf");
    put(&f, &t);
    match (want, parse_htf_file(&c.ctx(), &f.path())) {
        (Some((cs, mt)), Ok((x, y))) => if x.locs_lf_ids != cs || y != mt { bad!("the multi-trace {:?} on lifelines {:?} and messages {:?} is read as {:?} on co-localizations {:?} instead of {:?} on {:?}", t, c.names[0], c.names[1], y, x.locs_lf_ids, mt, cs); },
        (None, Err(_)) => {},
        (Some((cs, mt)), Err(e)) => bad!("the multi-trace {:?} on lifelines {:?} and messages {:?} is rejected instead of read as {:?} on {:?}: {}", t, c.names[0], c.names[1], mt, cs, e),
        (None, Ok((x, y))) => bad!("the multi-trace {:?} on lifelines {:?} and messages {:?} is read as {:?} on {:?} instead of rejected", t, c.names[0], c.names[1], y, x.locs_lf_ids),
    }
    Out::Ok
}
/// a written multi-trace is read back as itself
pub fn htf_write(r: &mut Rng, n: usize) -> Out {
    let c = Ctx::gen(r, false);
    let num = c.names[0].len();
    let k = 1 + r.below(num + 1);
    let mut parts: Vec<BTreeSet<usize>> = vec![BTreeSet::new(); k];
    for l in 0..num { let p = r.below(k); parts[p].insert(l); }
    let mut mt: MultiTrace = vec![];
    for p in &parts {
        let ls: Vec<usize> = p.iter().cloned().collect();
        let mut t = vec![];
        if !ls.is_empty() { for _ in 0..r.below(n + 1).min(4) {
            let mut e = Ev::new();
            for _ in 0..1 + r.below(3) { let (l, m) = (r.pick(&ls), r.below(c.names[1].len())); e.insert(if r.chance(1, 2) { em(l, m) } else { rc(l, m) }); }
            t.push(e);
        } }
        mt.push(t);
    }
    let co = CoLocalizations::new(parts.clone());
    let f = File::new("htf");
    write_multi_trace_into_file(&f.0, &c.ctx(), &co, &mt);
    let t = std::fs::read_to_string(&f.0).unwrap();
    match parse_htf_file(&c.ctx(), &f.path()) {
        Ok((x, y)) => if x.locs_lf_ids != parts || y != mt { bad!("{:?} on {:?} with lifelines {:?} and messages {:?} is written as {:?}, which is read as {:?} on {:?}", mt, parts, c.names[0], c.names[1], t, y, x.locs_lf_ids); },
        Err(e) => bad!("{:?} on {:?} with lifelines {:?} and messages {:?} is written as {:?}, which is rejected: {}", mt, parts, c.names[0], c.names[1], t, e),
    }
    Out::Ok
}
/// no text makes the reader fail otherwise than by an error
pub fn htf_garbage(r: &mut Rng, n: usize) -> Out {
    let c = Ctx::gen(r, false);
    let mut v = vec![];
    mtrace(r, &c, n, &mut v, 12);
    if v.is_empty() { return Out::Skip; }
    spoil(r, &mut v);
    let t = lay(r, &v);
    let f = File::new("htf");
    put(&f, &t);
    if let Ok((x, y)) = parse_htf_file(&c.ctx(), &f.path()) {
        // whatever is accepted is on a partition of the lifelines
        let mut all = BTreeSet::new();
        for p in &x.locs_lf_ids { for l in p { if !all.insert(*l) { bad!("the multi-trace {:?} on lifelines {:?} is read with co-localizations {:?}", t, c.names[0], x.locs_lf_ids); } } }
        if all.len() != c.names[0].len() || x.locs_lf_ids.len() != y.len() { bad!("the multi-trace {:?} on lifelines {:?} is read as {:?} on {:?}", t, c.names[0], y, x.locs_lf_ids); }
    }
    let f = File::new("hsf");
    put(&f, &t);
    let _ = parse_hsf_file(&f.path());
    Out::Ok
}
