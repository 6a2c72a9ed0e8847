//! Reading of a pest grammar of /repo, and the predicates on parse trees which it gives:
//!   enum Rule              one variant for each rule
//!   shape(t)               the children of a node are those of one of the alternatives of its rule
//!   yl(t)                  a text of the tree, as a sequence of tokens (literals and labels, white space left out)
//! Silent rules are inlined. Rules made of characters (atomic rules) are leaves. A repetition is only accepted at the end of an alternative.
use std::collections::BTreeMap;

#[derive(Clone, Debug)]
enum Ex { Lit(String), Id(String), Seq(Vec<Ex>), Alt(Vec<Ex>), Opt(Box<Ex>), Star(Box<Ex>), Plus(Box<Ex>), Look }

#[derive(Clone, Debug, PartialEq)]
enum El { Lit(String), Kid(Vec<String>), Rep(Vec<String>, Vec<String>, usize) }

#[derive(Clone, Debug, PartialEq)]
enum Tok { S(String), I(String), P(char) }

fn lex(s: &str) -> Result<Vec<Tok>, String> {
    let c: Vec<char> = s.chars().collect();
    let mut i = 0;
    let mut r = vec![];
    while i < c.len() {
        let x = c[i];
        if x.is_whitespace() { i += 1; }
        else if x == '/' && c.get(i + 1) == Some(&'/') { while i < c.len() && c[i] != '\n' { i += 1; } }
        else if x == '/' && c.get(i + 1) == Some(&'*') { i += 2; while i + 1 < c.len() && !(c[i] == '*' && c[i + 1] == '/') { i += 1; } i += 2; }
        else if x == '"' {
            let mut t = String::new();
            i += 1;
            while i < c.len() && c[i] != '"' { if c[i] == '\\' { t.push(c[i]); i += 1; } t.push(c[i]); i += 1; }
            i += 1;
            r.push(Tok::S(t));
        }
        else if x.is_alphanumeric() || x == '_' {
            let mut t = String::new();
            while i < c.len() && (c[i].is_alphanumeric() || c[i] == '_') { t.push(c[i]); i += 1; }
            r.push(Tok::I(t));
        }
        else if "={}()|~?*+!&@$".contains(x) { r.push(Tok::P(x)); i += 1; }
        else { return Err(format!("grammar: character {:?}", x)); }
    }
    Ok(r)
}

struct Ps { t: Vec<Tok>, i: usize }
impl Ps {
    fn is(&self, c: char) -> bool { self.t.get(self.i) == Some(&Tok::P(c)) }
    fn eat(&mut self, c: char) -> Result<(), String> { if self.is(c) { self.i += 1; Ok(()) } else { Err(format!("grammar: expected {} at {:?}", c, self.t.get(self.i))) } }
    fn alt(&mut self) -> Result<Ex, String> {
        if self.is('|') { self.i += 1; }
        let mut v = vec![self.seq()?];
        while self.is('|') { self.i += 1; v.push(self.seq()?); }
        Ok(if v.len() == 1 { v.pop().unwrap() } else { Ex::Alt(v) })
    }
    fn seq(&mut self) -> Result<Ex, String> {
        let mut v = vec![self.term()?];
        while self.is('~') { self.i += 1; v.push(self.term()?); }
        Ok(if v.len() == 1 { v.pop().unwrap() } else { Ex::Seq(v) })
    }
    fn term(&mut self) -> Result<Ex, String> {
        if self.is('!') || self.is('&') { self.i += 1; self.term()?; return Ok(Ex::Look); }
        let mut e = match self.t.get(self.i).cloned() {
            Some(Tok::S(s)) => { self.i += 1; Ex::Lit(s) }
            Some(Tok::I(s)) => { self.i += 1; Ex::Id(s) }
            Some(Tok::P('(')) => { self.i += 1; let e = self.alt()?; self.eat(')')?; e }
            o => return Err(format!("grammar: {:?}", o)),
        };
        loop {
            if self.is('?') { self.i += 1; e = Ex::Opt(Box::new(e)); }
            else if self.is('*') { self.i += 1; e = Ex::Star(Box::new(e)); }
            else if self.is('+') { self.i += 1; e = Ex::Plus(Box::new(e)); }
            else { return Ok(e); }
        }
    }
}

struct Gr { rules: Vec<(String, char, Ex)>, ix: BTreeMap<String, usize> }
impl Gr {
    fn alts(&self, e: &Ex, depth: usize) -> Result<Vec<Vec<El>>, String> {
        if depth > 60 { return Err("grammar: silent rules are recursive".into()); }
        Ok(match e {
            Ex::Look => vec![vec![]],
            Ex::Lit(s) => vec![vec![El::Lit(s.clone())]],
            Ex::Id(n) => match n.as_str() {
                "SOI" => vec![vec![]],
                "EOI" => vec![vec![El::Kid(vec!["EOI".into()])]],
                _ => match self.ix.get(n) {
                    None => return Err(format!("grammar: rule {} in a rule which is not atomic", n)),
                    Some(&k) if self.rules[k].1 == '_' => self.alts(&self.rules[k].2, depth + 1)?,
                    Some(_) => vec![vec![El::Kid(vec![n.clone()])]],
                },
            },
            Ex::Seq(v) => {
                let mut r: Vec<Vec<El>> = vec![vec![]];
                for x in v {
                    let a = self.alts(x, depth + 1)?;
                    r = r.iter().flat_map(|p| a.iter().map(move |q| p.iter().chain(q.iter()).cloned().collect())).collect();
                }
                r
            }
            Ex::Alt(v) => {
                let mut r = vec![];
                for x in v { r.extend(self.alts(x, depth + 1)?); }
                // (A | B) is one child of either rule
                let kids: Vec<&Vec<String>> = r.iter().filter_map(|a: &Vec<El>| match &a[..] { [El::Kid(s)] => Some(s), _ => None }).collect();
                if kids.len() == r.len() { let mut s: Vec<String> = vec![]; for k in kids { for x in k { if !s.contains(x) { s.push(x.clone()); } } } vec![vec![El::Kid(s)]] } else { r }
            }
            Ex::Opt(x) => { let mut r = vec![vec![]]; r.extend(self.alts(x, depth + 1)?); r }
            Ex::Star(x) | Ex::Plus(x) => {
                let min = if matches!(e, Ex::Plus(_)) { 1 } else { 0 };
                let a = self.alts(x, depth + 1)?;
                let mut sep: Option<Vec<String>> = None;
                let mut set: Vec<String> = vec![];
                for v in &a {
                    let (last, pre) = v.split_last().ok_or("grammar: empty repetition")?;
                    let p: Vec<String> = pre.iter().map(|y| match y { El::Lit(s) => Ok(s.clone()), _ => Err("grammar: repetition of several rules".to_string()) }).collect::<Result<_, _>>()?;
                    if let El::Kid(s) = last { set.extend(s.iter().cloned()); } else { return Err("grammar: repetition".into()); }
                    match &sep { None => sep = Some(p), Some(q) if *q == p => {} _ => sep = Some(vec![ANYSEP.to_string()]) }
                }
                vec![vec![El::Rep(sep.unwrap(), set, min)]]
            }
        })
    }
}

/// marks a repetition whose elements are written in several ways: no text is given for it
const ANYSEP: &str = "\u{0}";
/// a rule made of characters is a leaf
fn leafy(e: &Ex, some: &mut bool) -> bool {
    match e {
        Ex::Lit(_) | Ex::Look => true,
        Ex::Id(n) => { *some = true; ["ASCII_DIGIT", "ASCII_NONZERO_DIGIT", "LETTER", "ANY"].contains(&n.as_str()) }
        Ex::Seq(v) | Ex::Alt(v) => v.iter().all(|x| leafy(x, some)),
        Ex::Opt(x) | Ex::Star(x) | Ex::Plus(x) => leafy(x, some),
    }
}
/// the alternatives of a rule as lists of children, those which differ at one place only being joined
fn joined(al: &[Vec<El>]) -> Vec<Vec<El>> {
    let mut r: Vec<Vec<El>> = vec![];
    for a in al {
        let a: Vec<El> = a.iter().filter(|x| !matches!(x, El::Lit(_))).cloned().collect();
        let mut done = false;
        for b in r.iter_mut() {
            if b.len() != a.len() { continue; }
            let d: Vec<usize> = (0..a.len()).filter(|j| a[*j] != b[*j]).collect();
            if d.is_empty() { done = true; break; }
            if d.len() == 1 {
                if let (El::Kid(x), El::Kid(y)) = (&a[d[0]], &mut b[d[0]]) { for z in x { if !y.contains(z) { y.push(z.clone()); } } done = true; break; }
            }
        }
        if !done { r.push(a); }
    }
    r
}

fn lits(v: &[String]) -> String {
    if v.is_empty() { "Seq::<Seq<char>>::empty()".into() } else { format!("seq![{}]", v.iter().map(|s| format!("\"{}\"@", s)).collect::<Vec<_>>().join(", ")) }
}

fn isin(x: &str, s: &[String]) -> String {
    let v: Vec<String> = s.iter().map(|r| format!("{}.rule is {}", x, r)).collect();
    if v.len() == 1 { v[0].clone() } else { format!("({})", v.join(" || ")) }
}

pub fn generate(txt: &str) -> Result<String, String> {
    let mut p = Ps { t: lex(txt)?, i: 0 };
    let mut g = Gr { rules: vec![], ix: BTreeMap::new() };
    while p.i < p.t.len() {
        let n = match p.t[p.i].clone() { Tok::I(s) => s, o => return Err(format!("grammar: {:?}", o)) };
        p.i += 1;
        p.eat('=')?;
        let mut m = ' ';
        match p.t.get(p.i) {
            Some(Tok::P(c)) if "@$!".contains(*c) => { m = *c; p.i += 1; }
            Some(Tok::I(s)) if s == "_" => { m = '_'; p.i += 1; }
            _ => {}
        }
        p.eat('{')?;
        let e = p.alt()?;
        p.eat('}')?;
        g.ix.insert(n.clone(), g.rules.len());
        g.rules.push((n, m, e));
    }
    let mut names: Vec<String> = g.rules.iter().filter(|r| r.0 != "WHITESPACE" && r.0 != "COMMENT").map(|r| r.0.clone()).collect();
    names.push("EOI".into());
    let mut o = String::new();
    o.push_str(&format!("#[allow(non_camel_case_types)]\npub enum Rule {{ {} }}\n", names.join(", ")));
    o.push_str("#[verifier::ext_equal]\npub struct PT { pub rule: Rule, pub txt: Seq<char>, pub kids: Seq<PT> }\n");
    let mut sh = String::new();
    let mut yl = String::new();
    let mut tops = String::new();
    for (n, m, e) in &g.rules {
        if *m == '_' {
            // silent rules are the roots of a grammar: the predicate is on the list of trees
            if n == "WHITESPACE" || n == "COMMENT" { continue; }
            let al = g.alts(e, 0)?;
            let cs: Vec<String> = al.iter().map(|a| cond(a, "kids")).collect::<Result<_, _>>()?;
            sh.push_str(&format!("        Rule::{} => false,\n", n));
            yl.push_str(&format!("        Rule::{} => Seq::empty(),\n", n));
            tops.push_str(&format!("pub open spec fn top_{}(kids: Seq<PT>) -> bool {{ {} }}\n", n, cs.join(" || ")));
            continue;
        }
        let mut some = false;
        if *m == '@' || leafy(e, &mut some) && some {
            sh.push_str(&format!("        Rule::{} => t.kids.len() == 0,\n", n));
            yl.push_str(&format!("        Rule::{} => seq![t.txt],\n", n));
            continue;
        }
        let al = g.alts(e, 0)?;
        if al.iter().all(|a| a.iter().all(|x| matches!(x, El::Lit(_)))) {
            let vs: Vec<Vec<String>> = al.iter().map(|a| a.iter().map(|x| match x { El::Lit(s) => s.clone(), _ => unreachable!() }).collect()).collect();
            if vs.len() == 1 {
                sh.push_str(&format!("        Rule::{} => t.kids.len() == 0,\n", n));
                yl.push_str(&format!("        Rule::{} => {},\n", n, lits(&vs[0])));
            } else if vs.iter().any(|v| v.len() > 1) {
                sh.push_str(&format!("        Rule::{} => t.kids.len() == 0,\n", n));
                yl.push_str(&format!("        Rule::{} => seq![t.txt],\n", n));
            } else {
                sh.push_str(&format!("        Rule::{} => t.kids.len() == 0 && ({}),\n", n, vs.iter().map(|v| format!("t.txt == \"{}\"@", v.concat())).collect::<Vec<_>>().join(" || ")));
                yl.push_str(&format!("        Rule::{} => seq![t.txt],\n", n));
            }
            continue;
        }
        if al.iter().any(|a| a.iter().any(|x| matches!(x, El::Rep(s, _, _) if s.iter().any(|y| y == ANYSEP)))) {
            let cs: Vec<String> = joined(&al).iter().map(|a| cond(a, "t.kids")).collect::<Result<_, _>>()?;
            sh.push_str(&format!("        Rule::{} => {},\n", n, cs.iter().map(|c| format!("({})", c)).collect::<Vec<_>>().join(" || ")));
            yl.push_str(&format!("        Rule::{} => arbitrary(),\n", n));
            continue;
        }
        let mut cs = vec![];
        let mut ys = String::new();
        for a in &al {
            let c = cond(a, "t.kids")?;
            let mut y: Vec<String> = vec![];
            let mut pend: Vec<String> = vec![];
            let mut k = 0;
            for x in a {
                match x {
                    El::Lit(s) => pend.push(s.clone()),
                    El::Kid(_) => { if !pend.is_empty() { y.push(lits(&pend)); pend.clear(); } y.push(format!("yl(t.kids[{}])", k)); k += 1; }
                    El::Rep(sep, _, _) => { if !pend.is_empty() { y.push(lits(&pend)); pend.clear(); } y.push(format!("yrep(t.kids, {}, {})", k, lits(sep))); }
                }
            }
            if !pend.is_empty() || y.is_empty() { y.push(lits(&pend)); }
            ys.push_str(&format!("if {} {{ {} }} else ", c, y.join(" + ")));
            cs.push(c);
        }
        sh.push_str(&format!("        Rule::{} => {},\n", n, cs.iter().map(|c| format!("({})", c)).collect::<Vec<_>>().join(" || ")));
        yl.push_str(&format!("        Rule::{} => {}{{ Seq::empty() }},\n", n, ys));
    }
    sh.push_str("        Rule::EOI => t.kids.len() == 0,\n");
    yl.push_str("        Rule::EOI => Seq::empty(),\n");
    o.push_str(&format!("pub open spec fn shape(t: PT) -> bool {{\n    match t.rule {{\n{}    }}\n}}\n", sh));
    o.push_str(&tops);
    o.push_str("pub open spec fn wft(t: PT) -> bool\n    decreases t,\n{\n    shape(t) && forall|j: int| 0 <= j < t.kids.len() ==> wft(#[trigger] t.kids[j])\n}\n");
    o.push_str(&format!("pub open spec fn yl(t: PT) -> Seq<Seq<char>>\n    decreases t, 0int,\n{{\n    match t.rule {{\n{}    }}\n}}\n", yl));
    o.push_str("pub open spec fn yrep(s: Seq<PT>, a: int, sep: Seq<Seq<char>>) -> Seq<Seq<char>>\n    decreases s, s.len() - a,\n{\n    if a < 0 || a >= s.len() { Seq::empty() } else { sep + yl(s[a]) + yrep(s, a + 1, sep) }\n}\n");
    Ok(o)
}

fn cond(a: &[El], k: &str) -> Result<String, String> {
    let mut n = 0;
    let mut c = vec![];
    let mut rep: Option<(&Vec<String>, usize)> = None;
    for x in a {
        match x {
            El::Lit(_) => {}
            El::Kid(s) => { if rep.is_some() { return Err("grammar: something after a repetition".into()); } c.push(isin(&format!("{}[{}]", k, n), s)); n += 1; }
            El::Rep(_, s, min) => { if rep.is_some() { return Err("grammar: two repetitions".into()); } rep = Some((s, *min)); }
        }
    }
    match rep {
        None => c.insert(0, format!("{}.len() == {}", k, n)),
        Some((s, min)) => {
            c.insert(0, format!("{}.len() >= {}", k, n + min));
            c.push(format!("(forall|j: int| {} <= j < {}.len() ==> {})", n, k, isin(&format!("(#[trigger] {}[j])", k), s)));
        }
    }
    Ok(c.join(" && "))
}
