//! Seeded generator of small interaction terms.
use crate::core::execution::trace::trace::{TraceAction, TraceActionKind};
use crate::core::language::syntax::action::*;
use crate::core::language::syntax::interaction::*;
use super::lang::*;

pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize { if n == 0 { 0 } else { (self.next() % n as u64) as usize } }
    pub fn chance(&mut self, num: usize, den: usize) -> bool { self.below(den) < num }
    pub fn pick<T: Clone>(&mut self, v: &[T]) -> T { v[self.below(v.len())].clone() }
}

#[derive(Clone)]
pub struct Conf {
    pub lfs: usize,
    pub mss: usize,
    pub gts: usize,
    pub loops: bool,
    pub coreg: bool,
    pub sync: bool,      // synchronized product
    pub synccom: bool,   // synchronous communications
    pub multi: bool,     // emissions and receptions with several targets
    pub dup: bool,       // repeated recipients
    pub empty_rec: bool,
}
impl Conf {
    pub fn full() -> Conf { Conf { lfs: 3, mss: 2, gts: 1, loops: true, coreg: true, sync: true, synccom: true, multi: true, dup: true, empty_rec: false } }
}

fn lfs(r: &mut Rng, c: &Conf, n: usize) -> Vec<usize> {
    let mut v = vec![];
    for _ in 0..n { let l = r.below(c.lfs); if c.dup && r.chance(1, 6) || !v.contains(&l) { v.push(l); } }
    v
}

pub fn leaf(r: &mut Rng, c: &Conf) -> Interaction {
    if r.chance(1, 10) { return Interaction::Empty; }
    let sy = if c.synccom && r.chance(1, 4) { CommunicationSynchronicity::Synchronous } else { CommunicationSynchronicity::Asynchronous };
    let ms = r.below(c.mss);
    if r.chance(3, 5) {
        let o = r.below(c.lfs);
        let n = match r.below(8) { 0 | 1 | 2 => 0, 3 | 4 | 5 => 1, 6 => 2, _ => 3 };
        let n = if c.multi { n } else { n.min(1) };
        let mut tg: Vec<EmissionTargetRef> = lfs(r, c, n).into_iter().map(EmissionTargetRef::Lifeline).collect();
        if c.gts > 0 && r.chance(1, 6) { let g = r.below(c.gts); let p = r.below(tg.len() + 1); tg.insert(p, EmissionTargetRef::Gate(g)); }
        Interaction::Emission(EmissionAction::new(o, ms, sy, tg))
    } else {
        let n = match r.below(8) { 0..=4 => 1, 5 | 6 => 2, _ => 3 };
        let n = if c.multi { n } else { 1 };
        let n = if c.empty_rec && r.chance(1, 10) { 0 } else { n };
        let rs = lfs(r, c, n);
        let g = if c.gts > 0 && r.chance(1, 4) { Some(r.below(c.gts)) } else { None };
        Interaction::Reception(ReceptionAction::new(g, ms, sy, rs))
    }
}

pub fn gen_acts(r: &mut Rng, c: &Conf, from: &[TraceAction]) -> Vec<TraceAction> {
    let n = 1 + r.below(2);
    let mut v: Vec<TraceAction> = vec![];
    for _ in 0..n {
        let a = if !from.is_empty() && r.chance(4, 5) { r.pick(from) } else if r.chance(1, 2) { em(r.below(c.lfs), r.below(c.mss)) } else { rc(r.below(c.lfs), r.below(c.mss)) };
        if !v.contains(&a) { v.push(a); }
    }
    v
}

/// term with exactly n leaves
pub fn term(r: &mut Rng, c: &Conf, n: usize) -> Interaction {
    if c.loops && r.chance(1, if n == 1 { 6 } else { 4 }) {
        let k = r.pick(&[LoopKind::PInterleaving, LoopKind::WWeakSeq, LoopKind::HHeadFirstWS, LoopKind::SStrictSeq]);
        return Interaction::Loop(k, Box::new(term(r, c, n)));
    }
    if n <= 1 { return leaf(r, c); }
    let k = 1 + r.below(n - 1);
    let a = Box::new(term(r, c, k));
    // repeated sub-terms matter for factorizations and deduplications
    let b = Box::new(if k == n - k && r.chance(1, 6) { (*a).clone() } else { term(r, c, n - k) });
    loop {
        match r.below(6) {
            0 => return Interaction::Strict(a, b),
            1 => return Interaction::Seq(a, b),
            2 => if c.coreg {
                let m = r.below(c.lfs + 1);
                let mut cr = vec![];
                for _ in 0..m { let l = r.below(c.lfs); if !cr.contains(&l) { cr.push(l); } }
                return Interaction::CoReg(cr, a, b);
            },
            3 => return Interaction::Alt(a, b),
            4 => return Interaction::Par(a, b),
            _ => if c.sync {
                let mut acts: Vec<TraceAction> = actions(&a, true).into_iter().collect();
                acts.extend(actions(&b, true));
                return Interaction::Sync(gen_acts(r, c, &acts), a, b);
            }
        }
    }
}
