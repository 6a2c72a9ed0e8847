//! vx: mechanical extraction of functions and types of /repo into a Verus file, with contracts attached.
//!
//!   vx REPO_SRC UNIT OUT [--trust ID]...
//!
//! The unit file is copied verbatim except for the directives (lines starting with '%'):
//!   %include FILE                       (relative to the unit file)
//!   %contracts FILE                     same, keeping the contracts of the functions only (their bodies are verified by another unit)
//!   %type FILE Name                     struct/enum of REPO_SRC/FILE, attributes and derives dropped
//!   %grammar FILE                       predicates on the parse trees of a pest grammar (see grammar.rs)
//!   %static FILE                        the string constants of REPO_SRC/FILE are replaced by their value
//!   %fn FILE [Type::]name               function of REPO_SRC/FILE; sections until %end:
//!       %params a b ..                  names used in the contract for the parameters (positional, without self)
//!       %ret r                          name of the result in the contract
//!       %opt isolate|nodecreases|math   options
//!       %spec / %enter / %loop N / %body N / %bodyend N / %after N / %onreturn    raw Verus text
//!   %end
//! What the extraction changes in a function is listed in DESIGN.md (section "Extraction").
mod grammar;
use proc_macro2::{Delimiter, TokenStream, TokenTree};
use quote::{quote, ToTokens};
use std::collections::{BTreeMap, BTreeSet};
use std::path::{Path, PathBuf};
use syn::visit_mut::{self, VisitMut};
use syn::*;

fn die(msg: String) -> ! {
    eprintln!("VX-ERROR {}", msg);
    std::process::exit(3);
}

// ------------------------------------------------------------------------------------------ unit files
#[derive(Default, Clone)]
struct FnDir {
    file: String,
    name: String,
    params: Vec<String>,
    ret: String,
    opts: BTreeSet<String>,
    sec: BTreeMap<String, String>,
    assume: bool,
}

enum Item0 {
    Raw(String),
    Type(String, String),
    Fn(FnDir),
    Grammar(String),
    Static(String),
}

fn parse_unit(p: &Path, out: &mut Vec<Item0>, assume: bool) {
    let txt = std::fs::read_to_string(p).unwrap_or_else(|e| die(format!("{}: {}", p.display(), e)));
    let mut cur: Option<FnDir> = None;
    let mut sec = String::new();
    for line in txt.lines() {
        let t = line.trim_start();
        if t.starts_with('%') {
            let w: Vec<&str> = t[1..].split_whitespace().collect();
            match w[0] {
                "include" => parse_unit(&p.parent().unwrap().join(w[1]), out, assume),
                "contracts" => parse_unit(&p.parent().unwrap().join(w[1]), out, true),
                "grammar" => out.push(Item0::Grammar(w[1].into())),
                "static" => out.push(Item0::Static(w[1].into())),
                "type" => out.push(Item0::Type(w[1].into(), w[2].into())),
                "fn" => {
                    cur = Some(FnDir { file: w[1].into(), name: w[2].into(), ret: "r".into(), assume, ..Default::default() });
                    sec = String::new();
                }
                "params" => cur.as_mut().unwrap().params = w[1..].iter().map(|x| x.to_string()).collect(),
                "ret" => cur.as_mut().unwrap().ret = w[1].into(),
                "opt" => for o in &w[1..] { cur.as_mut().unwrap().opts.insert(o.to_string()); },
                "end" => { out.push(Item0::Fn(cur.take().unwrap())); }
                _ => { sec = w.join(" "); cur.as_mut().unwrap().sec.insert(sec.clone(), String::new()); }
            }
        } else if let Some(c) = cur.as_mut() {
            if !sec.is_empty() {
                let e = c.sec.entry(sec.clone()).or_default();
                e.push_str(line);
                e.push('\n');
            }
        } else {
            match out.last_mut() {
                Some(Item0::Raw(s)) => { s.push_str(line); s.push('\n'); }
                _ => out.push(Item0::Raw(format!("{}\n", line))),
            }
        }
    }
}

// ------------------------------------------------------------------------------------------ source lookup
fn load(src: &Path, file: &str) -> std::result::Result<File, String> {
    let p = src.join(file);
    let t = std::fs::read_to_string(&p).map_err(|e| format!("{}: {}", p.display(), e))?;
    parse_file(&t).map_err(|e| format!("{}: {}", p.display(), e))
}

struct Found {
    sig: Signature,
    block: Block,
    self_ty: Option<String>,
    vis: bool,
}

fn ty_name(t: &Type) -> String {
    match t {
        Type::Path(p) => p.path.segments.last().unwrap().ident.to_string(),
        _ => String::new(),
    }
}

fn find_fn(f: &File, name: &str) -> Option<Found> {
    let (ty, fname) = match name.split_once("::") { Some((a, b)) => (Some(a), b), None => (None, name) };
    for it in &f.items {
        match it {
            Item::Fn(x) if ty.is_none() && x.sig.ident == fname =>
                return Some(Found { sig: x.sig.clone(), block: (*x.block).clone(), self_ty: None, vis: true }),
            Item::Impl(im) if ty == Some(ty_name(&im.self_ty).as_str()) => {
                for ii in &im.items {
                    if let ImplItem::Fn(m) = ii {
                        if m.sig.ident == fname {
                            return Some(Found { sig: m.sig.clone(), block: m.block.clone(), self_ty: Some(im.self_ty.to_token_stream().to_string()), vis: true });
                        }
                    }
                }
            }
            _ => {}
        }
    }
    None
}

/// names of the functions and methods defined in a file
fn defined(f: &File) -> BTreeSet<String> {
    let mut r = BTreeSet::new();
    for it in &f.items {
        match it {
            Item::Fn(x) => { r.insert(x.sig.ident.to_string()); }
            Item::Impl(im) => for ii in &im.items { if let ImplItem::Fn(m) = ii { r.insert(format!("{}::{}", ty_name(&im.self_ty), m.sig.ident)); } },
            _ => {}
        }
    }
    r
}

// ------------------------------------------------------------------------------------------ rewriting
struct Rw<'a> {
    dir: &'a FnDir,
    /// string constants
    statics: &'a BTreeMap<String, LitStr>,
    nloop: usize,
    ntmp: usize,
    /// nesting of the loops: for(f) while(w) loop(l)
    skel: String,
}

fn ph(kind: &str, n: usize) -> Stmt {
    let id = quote::format_ident!("__VX_{}_{}__", kind, n);
    parse_quote!(#id!();)
}

fn short_path(p: &mut syn::Path) {
    if p.segments.len() >= 2 {
        let segs: Vec<PathSegment> = p.segments.iter().cloned().collect();
        let start = segs.iter().position(|s| s.ident.to_string().chars().next().unwrap().is_uppercase()).unwrap_or(segs.len() - 1);
        // u32::MAX and the like keep their head
        let prim = ["usize", "u32", "u64", "i32", "u8", "isize", "u16", "i64", "bool", "str", "char"];
        if prim.contains(&segs[0].ident.to_string().as_str()) { return; }
        let mut q = syn::punctuated::Punctuated::new();
        for s in &segs[start..] { q.push(s.clone()); }
        p.segments = q;
        p.leading_colon = None;
    }
}

/// strip `&` / redundant `ref`; collects identifiers bound by copy under a `&` pattern
fn strip_pat(p: &Pat, under: bool, copies: &mut Vec<Ident>) -> Pat {
    match p {
        Pat::Reference(r) => strip_pat(&r.pat, true, copies),
        Pat::Paren(r) => strip_pat(&r.pat, under, copies),
        Pat::Ident(i) if under => {
            let mut j = i.clone();
            if j.by_ref.is_some() { j.by_ref = None; } else if i.ident.to_string().chars().next().unwrap().is_lowercase() { copies.push(i.ident.clone()); }
            Pat::Ident(j)
        }
        Pat::TupleStruct(t) => {
            let mut t = t.clone();
            for e in t.elems.iter_mut() { *e = strip_pat(e, under, copies); }
            Pat::TupleStruct(t)
        }
        Pat::Struct(t) => {
            let mut t = t.clone();
            for e in t.fields.iter_mut() { *e.pat = strip_pat(&e.pat, under, copies); }
            Pat::Struct(t)
        }
        Pat::Tuple(t) => {
            let mut t = t.clone();
            for e in t.elems.iter_mut() { *e = strip_pat(e, under, copies); }
            Pat::Tuple(t)
        }
        Pat::Or(t) => {
            let mut t = t.clone();
            for e in t.cases.iter_mut() { *e = strip_pat(e, under, copies); }
            Pat::Or(t)
        }
        o => o.clone(),
    }
}

fn is_ref_pat(p: &Pat) -> bool {
    match p {
        Pat::Reference(_) => true,
        Pat::Or(o) => o.cases.iter().any(is_ref_pat),
        _ => false,
    }
}

fn has_call_expr(e: &Expr, name: &str) -> bool {
    matches!(e, Expr::Path(p) if p.path.segments.last().map(|s| s.ident == name).unwrap_or(false))
}

impl<'a> Rw<'a> {
    fn tmp(&mut self) -> Ident {
        self.ntmp += 1;
        quote::format_ident!("vx_t{}", self.ntmp)
    }

    fn for_loop(&mut self, f: &ExprForLoop) -> Expr {
        let n = self.nloop;
        self.nloop += 1;
        self.skel.push_str("f(");
        let it = quote::format_ident!("vx_it{}", n);
        let mut body = f.body.clone();
        let mut iter = (*f.expr).clone();
        self.visit_expr_mut(&mut iter);
        self.visit_block_mut(&mut body);
        self.skel.push(')');
        // `&x` in pattern position
        let mut copies = vec![];
        let pat = if is_ref_pat(&f.pat) { strip_pat(&f.pat, false, &mut copies) } else { (*f.pat).clone() };
        let (p0, p1, p2, p3) = (ph("GHOSTSTART", n), ph("INV", n), ph("BODY", n), ph("BODYEND", n));
        let after = ph("AFTER", n);
        let lets: Vec<Stmt> = copies.iter().map(|c| parse_quote!(let #c = *#c;)).collect();
        let stmts = &body.stmts;
        let init: Expr = match &iter {
            Expr::Range(ExprRange { start: Some(a), end: Some(b), limits: RangeLimits::HalfOpen(_), .. }) => parse_quote!(vx_range(#a, #b)),
            Expr::Range(ExprRange { start: Some(a), end: Some(b), limits: RangeLimits::Closed(_), .. }) => parse_quote!(vx_range_incl(#a, #b)),
            Expr::Paren(p) if matches!(*p.expr, Expr::Range(_)) => match &*p.expr {
                Expr::Range(ExprRange { start: Some(a), end: Some(b), limits: RangeLimits::HalfOpen(_), .. }) => parse_quote!(vx_range(#a, #b)),
                Expr::Range(ExprRange { start: Some(a), end: Some(b), .. }) => parse_quote!(vx_range_incl(#a, #b)),
                _ => parse_quote!((#iter).vx_into_iter()),
            },
            _ => parse_quote!((#iter).vx_into_iter()),
        };
        let label = &f.label;
        let mut stmts = stmts.clone();
        if let Some(Stmt::Expr(_, semi)) = stmts.last_mut() { if semi.is_none() { *semi = Some(Default::default()); } }
        parse_quote!({
            let mut #it = #init;
            #p0
            #label while #it.vx_more() {
                #p1
                let #pat = #it.vx_take();
                #(#lets)*
                #p2
                #(#stmts)*
                #p3
            }
            #after
        })
    }

    /// format!("..", a, b): the pieces are pushed one after the other
    fn format(&mut self, a: Vec<Expr>) -> Expr {
        let lit = match a.first() { Some(Expr::Lit(ExprLit { lit: Lit::Str(l), .. })) => l.value(), _ => return parse_quote!(vx_any_string()) };
        let t = self.tmp();
        let names: Vec<Ident> = (1..a.len()).map(|_| self.tmp()).collect();
        let mut st: Vec<Stmt> = vec![];
        for (i, x) in a[1..].iter().enumerate() {
            let n = &names[i];
            st.push(match x { Expr::Reference(_) => parse_quote!(let #n = #x;), _ => parse_quote!(let #n = &#x;) });
        }
        st.push(parse_quote!(let mut #t = String::new();));
        let cs: Vec<char> = lit.chars().collect();
        let (mut i, mut next, mut cur) = (0, 0, String::new());
        while i < cs.len() {
            if (cs[i] == '{' || cs[i] == '}') && cs.get(i + 1) == Some(&cs[i]) { cur.push(cs[i]); i += 2; continue; }
            if cs[i] != '{' { cur.push(cs[i]); i += 1; continue; }
            let mut body = String::new();
            i += 1;
            while i < cs.len() && cs[i] != '}' { body.push(cs[i]); i += 1; }
            i += 1;
            if !cur.is_empty() { st.push(parse_quote!(vx_push_lit(&mut #t, #cur);)); cur.clear(); }
            let (name, fmt) = match body.split_once(':') { Some((x, y)) => (x.to_string(), y.to_string()), None => (body, String::new()) };
            let arg: Expr = if name.is_empty() { next += 1; match names.get(next - 1) { Some(n) => parse_quote!(#n), None => return parse_quote!(vx_any_string()) } }
                else if let Ok(k) = name.parse::<usize>() { match names.get(k) { Some(n) => parse_quote!(#n), None => return parse_quote!(vx_any_string()) } }
                else { let n = quote::format_ident!("{}", name); parse_quote!(&#n) };
            if fmt.is_empty() { st.push(parse_quote!(vx_show(#arg, &mut #t);)); } else { st.push(parse_quote!(vx_debug(#arg, &mut #t);)); }
        }
        if !cur.is_empty() { st.push(parse_quote!(vx_push_lit(&mut #t, #cur);)); }
        parse_quote!({ #(#st)* #t })
    }

    /// closures of map/filter/filter_map/for_each/any/all/fold: explicit loops
    fn inline_closure(&mut self, m: &ExprMethodCall) -> Option<Expr> {
        let name = m.method.to_string();
        let cl = match m.args.last() { Some(Expr::Closure(c)) => c.clone(), _ => return None };
        let recv = (*m.receiver).clone();
        let body = (*cl.body).clone();
        let acc = self.tmp();
        let e: Expr = match (name.as_str(), cl.inputs.len()) {
            ("map", 1) => {
                let p = &cl.inputs[0];
                parse_quote!({ let mut #acc = Vec::new(); for #p in #recv { #acc.push(#body); } #acc.vx_into_iter() })
            }
            ("filter", 1) => {
                let p = &cl.inputs[0];
                let x = self.tmp();
                let y = self.tmp();
                match &p {
                    // a pattern `&q` against `&x` binds only what can be copied
                    Pat::Reference(q) => { let q = &q.pat; parse_quote!({ let mut #acc = Vec::new(); for #x in #recv { let #y = { let #q = #x; #body }; if #y { #acc.push(#x); } } #acc.vx_into_iter() }) },
                    _ => parse_quote!({ let mut #acc = Vec::new(); for #x in #recv { let #y = { let #p = &#x; #body }; if #y { #acc.push(#x); } } #acc.vx_into_iter() }),
                }
            }
            // the comparator is dropped, the order is left unspecified
            ("sorted_by", 2) => parse_quote!(#recv.vx_sorted()),
            ("any", 1) => {
                let p = &cl.inputs[0];
                parse_quote!({ let mut #acc = false; for #p in #recv { if #body { #acc = true; } } #acc })
            }
            ("all", 1) => {
                let p = &cl.inputs[0];
                parse_quote!({ let mut #acc = true; for #p in #recv { if !(#body) { #acc = false; } } #acc })
            }
            ("position", 1) => {
                let p = &cl.inputs[0];
                let x = self.tmp();
                parse_quote!({ let mut #acc: Option<usize> = None; for (#x, #p) in #recv.enumerate() { if #acc.is_none() && (#body) { #acc = Some(#x); } } #acc })
            }
            ("fold", 2) => {
                let (a, p) = (&cl.inputs[0], &cl.inputs[1]);
                let init = &m.args[0];
                parse_quote!({ let mut #acc = #init; for #p in #recv { #acc = { let #a = #acc; #body }; } #acc })
            }
            _ => return None,
        };
        Some(e)
    }
}

const RENAME: &[&str] = &["iter", "into_iter", "enumerate", "cloned", "copied", "collect", "rev", "count", "skip", "extend", "contains", "max", "min", "chain", "get", "sort", "get_mut", "unwrap", "take", "zip", "first", "last", "retain", "pop", "swap", "sorted", "concat", "dedup", "join", "repeat", "extend_from_slice"];

impl<'a> VisitMut for Rw<'a> {
    fn visit_path_mut(&mut self, p: &mut syn::Path) {
        short_path(p);
        visit_mut::visit_path_mut(self, p);
    }

    fn visit_attributes_mut(&mut self, a: &mut Vec<Attribute>) {
        a.clear();
    }

    fn visit_arm_mut(&mut self, a: &mut Arm) {
        a.attrs.clear();
        visit_mut::visit_arm_mut(self, a);
    }

    fn visit_stmt_mut(&mut self, s: &mut Stmt) {
        if let Stmt::Macro(m) = s {
            let semi = m.semi_token.is_some();
            let mut e = Expr::Macro(ExprMacro { attrs: vec![], mac: m.mac.clone() });
            self.visit_expr_mut(&mut e);
            *s = if semi { Stmt::Expr(e, Some(Default::default())) } else { Stmt::Expr(e, None) };
            return;
        }
        if let Stmt::Local(l) = s {
            l.attrs.clear();
        }
        // `v.reverse();` on a vector (a slice method reached by auto-dereferencing)
        if let Stmt::Expr(Expr::MethodCall(m), Some(_)) = s {
            if m.method == "reverse" && m.args.is_empty() {
                m.method = quote::format_ident!("vx_reverse");
            }
        }
        visit_mut::visit_stmt_mut(self, s);
    }

    fn visit_expr_mut(&mut self, e: &mut Expr) {
        // `s.to_string()` of a string
        if let Expr::MethodCall(m) = e {
            if m.method == "to_string" && m.args.is_empty() {
                m.method = quote::format_ident!("vx_to_string");
            }
        }
        // macros
        if let Expr::Macro(m) = e {
            let name = m.mac.path.segments.last().unwrap().ident.to_string();
            let toks = m.mac.tokens.clone();
            let args = || -> Vec<Expr> {
                use syn::parse::Parser;
                syn::punctuated::Punctuated::<Expr, Token![,]>::parse_terminated.parse2(toks.clone()).map(|p| p.into_iter().collect()).unwrap_or_default()
            };
            if name.starts_with("__VX_") { return; }
            let new: Option<Expr> = match name.as_str() {
                "panic" | "unreachable" | "todo" | "unimplemented" => Some(parse_quote!(vx_unreachable())),
                "btreeset" | "hashset" => {
                    let ty: Ident = quote::format_ident!("{}", if name == "btreeset" { "BTreeSet" } else { "HashSet" });
                    let a = args();
                    if a.is_empty() { Some(parse_quote!(#ty::new())) }
                    else if a.len() == 1 { let x = &a[0]; Some(parse_quote!(#ty::vx_set1(#x))) }
                    else {
                        let t = self.tmp();
                        Some(parse_quote!({ let mut #t = #ty::new(); #(#t.insert(#a);)* #t }))
                    }
                }
                "hashmap" if toks.is_empty() => Some(parse_quote!(HashMap::new())),
                "vec" => { let a = args(); Some(if a.is_empty() { parse_quote!(Vec::new()) } else { let t = self.tmp(); parse_quote!({ let mut #t = Vec::new(); #(#t.push(#a);)* #t }) }) }
                "format" => Some(self.format(args())),
                "println" | "print" | "eprintln" => Some(parse_quote!(())),
                "assert" | "debug_assert" => { let a = args(); let x = &a[0]; Some(parse_quote!(vx_assert(#x))) }
                "assert_eq" => { let a = args(); let (x, y) = (&a[0], &a[1]); Some(parse_quote!(vx_assert(#x == #y))) }
                _ => None,
            };
            if let Some(n) = new {
                *e = n;
                self.visit_expr_mut(e);
                return;
            }
            return;
        }
        if let Expr::ForLoop(f) = e {
            let g = f.clone();
            *e = self.for_loop(&g);
            return;
        }
        if let Expr::While(w) = e {
            let n = self.nloop;
            self.nloop += 1;
            self.skel.push_str("w(");
            visit_mut::visit_expr_while_mut(self, w);
            self.skel.push(')');
            w.body.stmts.insert(0, ph("INV", n));
            w.body.stmts.insert(1, ph("BODY", n));
            w.body.stmts.push(ph("BODYEND", n));
            let w2 = w.clone();
            let (a, b) = (ph("GHOSTSTART", n), ph("AFTER", n));
            *e = parse_quote!({ #a #w2 #b });
            return;
        }
        if let Expr::Loop(w) = e {
            let n = self.nloop;
            self.nloop += 1;
            self.skel.push_str("l(");
            visit_mut::visit_expr_loop_mut(self, w);
            self.skel.push(')');
            w.body.stmts.insert(0, ph("INV", n));
            w.body.stmts.insert(1, ph("BODY", n));
            return;
        }
        // `&P` patterns
        if let Expr::Match(m) = e {
            let any_ref = m.arms.iter().any(|a| is_ref_pat(&a.pat));
            if any_ref {
                let cancel = matches!(&*m.expr, Expr::Reference(_));
                if cancel {
                    if let Expr::Reference(r) = &*m.expr { m.expr = r.expr.clone(); }
                    // scrutinee place of reference type: `self`; matching goes through the default binding modes
                    for a in m.arms.iter_mut() {
                        if let Pat::Reference(r) = &a.pat { a.pat = (*r.pat).clone(); }
                        let mut c = vec![];
                        a.pat = strip_pat_refs_only(&a.pat, &mut c);
                    }
                } else {
                    for a in m.arms.iter_mut() {
                        if is_ref_pat(&a.pat) {
                            let mut copies = vec![];
                            a.pat = strip_pat(&a.pat, false, &mut copies);
                            if !copies.is_empty() {
                                let lets: Vec<Stmt> = copies.iter().map(|c| parse_quote!(let #c = *#c;)).collect();
                                let b = &a.body;
                                a.body = Box::new(parse_quote!({ #(#lets)* #b }));
                            }
                        }
                    }
                }
            }
        }
        // `s.parse::<T>()` of a string
        if let Expr::MethodCall(m) = e {
            if m.method == "parse" && m.args.is_empty() { m.method = quote::format_ident!("vx_parse"); }
        }
        // a value put behind a trait object (option `boxdyn`)
        if self.dir.opts.contains("boxdyn") {
            if let Expr::Call(c) = e {
                if c.func.to_token_stream().to_string() == "Box :: new" && c.args.len() == 1 {
                    let a = &c.args[0];
                    *e = parse_quote!(vx_dyn(#a));
                }
            }
        }
        // `s.chars().filter(|c| !c.is_whitespace()).collect()`
        if let Expr::MethodCall(m) = e {
            if m.method == "collect" {
                if let Expr::MethodCall(f) = &*m.receiver {
                    if let (Expr::MethodCall(c), Some(cl)) = (&*f.receiver, f.args.first()) {
                        if f.method == "filter" && c.method == "chars" && c.args.is_empty() {
                            let r = &c.receiver;
                            let ws = match cl { Expr::Closure(k) if k.inputs.len() == 1 => {
                                let x = k.inputs[0].to_token_stream().to_string();
                                k.body.to_token_stream().to_string() == format!("! {} . is_whitespace ()", x)
                            } _ => false };
                            *e = if ws { parse_quote!(vx_strip_ws(#r)) } else { parse_quote!(vx_filter_chars(#r)) };
                        }
                    }
                }
            }
        }
        // string constants
        if let Expr::Path(p) = e {
            if p.path.segments.len() == 1 {
                if let Some(l) = self.statics.get(&p.path.segments[0].ident.to_string()) { *e = parse_quote!(#l); return; }
            }
        }
        if let Expr::MethodCall(m) = e {
            if let Some(n) = self.inline_closure(m) {
                *e = n;
                self.visit_expr_mut(e);
                return;
            }
        }
        // `m.entry(k).or_insert_with(Vec::new).push(x)`
        if let Expr::MethodCall(m) = e {
            if m.method == "push" && m.args.len() == 1 {
                if let Expr::MethodCall(o) = &*m.receiver {
                    let fresh = (o.method == "or_insert_with" && o.args.len() == 1 && o.args[0].to_token_stream().to_string().replace(' ', "").ends_with("Vec::new")) || o.method == "or_default"
                        || (o.method == "or_insert" && o.args[0].to_token_stream().to_string().replace(' ', "") == "vec![]");
                    if fresh {
                        if let Expr::MethodCall(n) = &*o.receiver {
                            if n.method == "entry" && n.args.len() == 1 {
                                let (r, k, x) = (&n.receiver, &n.args[0], &m.args[0]);
                                *e = parse_quote!(#r.vx_entry_push(#k, #x));
                            }
                        }
                    }
                }
            }
        }
        // ranges used as iterators
        {
            let conv = |x: &mut Expr| {
                let inner = match &*x { Expr::Paren(p) => (*p.expr).clone(), o => o.clone() };
                if let Expr::Range(ExprRange { start: Some(a), end: Some(b), limits, .. }) = inner {
                    *x = match limits { RangeLimits::HalfOpen(_) => parse_quote!(vx_range(#a, #b)), RangeLimits::Closed(_) => parse_quote!(vx_range_incl(#a, #b)) };
                }
            };
            match e {
                Expr::MethodCall(m) if matches!(&*m.receiver, Expr::Paren(_)) => conv(&mut m.receiver),
                Expr::Call(c) if has_call_expr(&c.func, "from_iter") => for a in c.args.iter_mut() { conv(a); },
                _ => {}
            }
        }
        // `v.drain(..)`
        if let Expr::MethodCall(m) = e {
            if m.method == "drain" && m.args.len() == 1 {
                let r = &m.receiver;
                *e = parse_quote!(#r.vx_drain_all());
            }
        }
        // `f(&mut g(..))`: the temporary is named
        {
            let mut hoisted: Vec<Stmt> = vec![];
            let mut args: Vec<&mut Expr> = match e {
                Expr::Call(c) => c.args.iter_mut().collect(),
                Expr::MethodCall(c) => c.args.iter_mut().collect(),
                _ => vec![],
            };
            for a in args.iter_mut() {
                if let Expr::Reference(r) = &mut **a {
                    if r.mutability.is_some() && matches!(&*r.expr, Expr::Call(_) | Expr::MethodCall(_)) {
                        self.ntmp += 1;
                        let t = quote::format_ident!("vx_t{}", self.ntmp);
                        let inner = &r.expr;
                        hoisted.push(parse_quote!(let mut #t = #inner;));
                        *r.expr = parse_quote!(#t);
                    }
                }
            }
            if !hoisted.is_empty() {
                let e2 = e.clone();
                *e = parse_quote!({ #(#hoisted)* #e2 });
            }
        }
        // `x.m()(y)`: see the functions returning a function pointer
        if let Expr::Call(c) = e {
            if let Expr::MethodCall(m) = &*c.func {
                if m.args.is_empty() && !c.args.is_empty() {
                    let mut m2 = m.clone();
                    m2.args = c.args.clone();
                    *e = Expr::MethodCall(m2);
                }
            }
        }
        // `a == b` on strings (option `strings`): both sides are coerced to &str
        if self.dir.opts.contains("strings") {
            if let Expr::Binary(b) = e {
                if let BinOp::Eq(_) = b.op {
                    let (l, r) = (&b.left, &b.right);
                    *e = parse_quote!(vx_str_eq(#l, #r));
                }
            }
        }
        // `a < b` and `a > b` of derived orders (option `lt`)
        if self.dir.opts.contains("lt") {
            if let Expr::Binary(b) = e {
                let f = match b.op { BinOp::Lt(_) => "vx_lt", BinOp::Gt(_) => "vx_gt", _ => "" };
                if !f.is_empty() {
                    let (l, r, f) = (&b.left, &b.right, quote::format_ident!("{}", f));
                    *e = parse_quote!(#f(&#l, &#r));
                }
            }
        }
        // difference of sets: &a - b
        if let Expr::Binary(b) = e {
            if let (BinOp::Sub(_), Expr::Reference(_)) = (&b.op, &*b.left) {
                let (l, r) = (&b.left, &b.right);
                *e = parse_quote!(vx_diff(#l, #r));
            }
        }
        // operators on machine integers read as mathematical ones (option `math`)
        if self.dir.opts.contains("math") {
            if let Expr::Binary(b) = e {
                let f = match b.op { BinOp::Add(_) => "vx_add", BinOp::Sub(_) => "vx_sub", BinOp::Mul(_) => "vx_mul", _ => "" };
                if !f.is_empty() {
                    let (l, r, f) = (&b.left, &b.right, quote::format_ident!("{}", f));
                    *e = parse_quote!(#f(#l, #r));
                }
            }
            if let Expr::Binary(b) = e {
                if let BinOp::AddAssign(_) = b.op {
                    let (l, r) = (&b.left, &b.right);
                    *e = parse_quote!(#l = vx_add(#l, #r));
                }
            }
        }
        visit_mut::visit_expr_mut(self, e);
        if let Expr::MethodCall(m) = e {
            let n = m.method.to_string();
            if RENAME.contains(&n.as_str()) && !self.dir.opts.contains(&format!("keep:{}", n)) {
                let keep = match n.as_str() { "pop" | "swap" | "unwrap" | "get" | "get_mut" | "take" | "first" => true, _ => false };
                if !keep { m.method = quote::format_ident!("vx_{}", n); }
            }
        }
        if let Expr::Call(c) = e {
            if has_call_expr(&c.func, "from_iter") {
                if let Expr::Path(p) = &mut *c.func {
                    p.path.segments.last_mut().unwrap().ident = quote::format_ident!("vx_from_iter");
                }
            }
        }
        if let Expr::Return(r) = e {
            if self.dir.sec.contains_key("onreturn") {
                if let Some(x) = &r.expr {
                    let p = ph("ONRETURN", 0);
                    *e = parse_quote!({ let vx_r = #x; #p return vx_r; });
                }
            }
        }
    }

    fn visit_item_mut(&mut self, _i: &mut Item) {}
}

fn strip_pat_refs_only(p: &Pat, _c: &mut Vec<Ident>) -> Pat {
    // `ref x` under default binding modes is redundant
    struct S;
    impl VisitMut for S {
        fn visit_pat_ident_mut(&mut self, i: &mut PatIdent) { i.by_ref = None; }
    }
    let mut q = p.clone();
    S.visit_pat_mut(&mut q);
    q
}

// ------------------------------------------------------------------------------------------ printing
fn print(ts: TokenStream, out: &mut String) {
    let mut prev_joint = false;
    for t in ts {
        match t {
            TokenTree::Group(g) => {
                let (a, b) = match g.delimiter() { Delimiter::Brace => ("{\n", "}\n"), Delimiter::Parenthesis => ("(", ")"), Delimiter::Bracket => ("[", "]"), Delimiter::None => ("", "") };
                out.push_str(a);
                print(g.stream(), out);
                out.push_str(b);
                if g.delimiter() != Delimiter::Brace { out.push(' '); }
                prev_joint = false;
            }
            TokenTree::Punct(p) => {
                out.push(p.as_char());
                prev_joint = p.spacing() == proc_macro2::Spacing::Joint;
                if p.as_char() == ';' || p.as_char() == ',' { out.push('\n'); } else if !prev_joint { out.push(' '); }
            }
            o => {
                out.push_str(&o.to_string());
                out.push(' ');
            }
        }
    }
    let _ = prev_joint;
}

fn subst(text: &str, map: &BTreeMap<String, String>) -> String {
    let mut r = String::new();
    let mut w = String::new();
    let flush = |w: &mut String, r: &mut String| {
        if !w.is_empty() {
            r.push_str(map.get(w.as_str()).map(|x| x.as_str()).unwrap_or(w.as_str()));
            w.clear();
        }
    };
    for c in text.chars() {
        if c.is_alphanumeric() || c == '_' { w.push(c); } else { flush(&mut w, &mut r); r.push(c); }
    }
    flush(&mut w, &mut r);
    r
}

fn emit_fn(d: &FnDir, f: &Found, trust: bool, canary: bool, statics: &BTreeMap<String, LitStr>) -> (String, String) {
    let mut sig = f.sig.clone();
    let mut map = BTreeMap::new();
    let mut k = 0;
    let mut mut_params: Vec<Ident> = vec![];
    for inp in sig.inputs.iter_mut() {
        if let FnArg::Typed(t) = inp {
            t.attrs.clear();
            if let Pat::Ident(i) = &mut *t.pat {
                if let Some(n) = d.params.get(k) {
                    if *n != i.ident.to_string() { map.insert(n.clone(), i.ident.to_string()); }
                }
                if i.mutability.is_some() && i.by_ref.is_none() { i.mutability = None; mut_params.push(i.ident.clone()); }
            }
            k += 1;
        }
    }
    let mut block = f.block.clone();
    // a function returning a function pointer: the arguments of the pointer become parameters
    let bare = match &sig.output { ReturnType::Type(_, t) => match &**t { Type::BareFn(b) => Some(b.clone()), _ => None }, _ => None };
    if let Some(b) = bare {
        let ids: Vec<Ident> = (0..b.inputs.len()).map(|j| quote::format_ident!("vx_a{}", j)).collect();
        for (j, a) in b.inputs.iter().enumerate() {
            let (i, t) = (&ids[j], &a.ty);
            sig.inputs.push(parse_quote!(#i : #t));
        }
        sig.output = b.output.clone();
        struct U(Vec<Ident>);
        impl U {
            fn wrap(&mut self, e: &mut Expr) {
                match e {
                    Expr::Match(m) => for a in m.arms.iter_mut() { self.wrap(&mut a.body); },
                    Expr::Block(b) => self.tail(&mut b.block),
                    Expr::If(i) => { self.tail(&mut i.then_branch); if let Some((_, x)) = i.else_branch.as_mut() { self.wrap(x); } }
                    Expr::Return(_) => {}
                    x => { let ids = &self.0; let y = x.clone(); *x = parse_quote!(#y(#(#ids),*)); }
                }
            }
            fn tail(&mut self, b: &mut Block) {
                if let Some(Stmt::Expr(e, None)) = b.stmts.last_mut() { self.wrap(e); }
            }
        }
        struct V(U);
        impl VisitMut for V {
            fn visit_expr_return_mut(&mut self, r: &mut ExprReturn) { if let Some(x) = r.expr.as_mut() { self.0.wrap(x); } }
        }
        let mut v = V(U(ids));
        let mut b2 = block.clone();
        v.0.tail(&mut b2);
        v.visit_block_mut(&mut b2);
        block = b2;
    }
    for p in mut_params.iter().rev() {
        block.stmts.insert(0, parse_quote!(let mut #p = #p;));
    }
    let mut rw = Rw { dir: d, statics, nloop: 0, ntmp: 0, skel: String::new() };
    rw.visit_signature_mut(&mut sig);
    rw.visit_block_mut(&mut block);
    if d.sec.contains_key("onreturn") {
        if let (Some(Stmt::Expr(e, None)), ReturnType::Type(_, t)) = (block.stmts.last_mut(), &sig.output) {
            if !matches!(e, Expr::Return(_)) {
                let (y, p) = (e.clone(), ph("ONRETURN", 0));
                *e = parse_quote!({ let vx_r : #t = #y; #p vx_r });
            }
        }
    }
    let s = |k: &str| -> String { d.sec.get(k).map(|x| subst(x, &map)).unwrap_or_default() };
    let spec = s("spec");
    let mut head = String::new();
    let out_ty = match &sig.output { ReturnType::Default => None, ReturnType::Type(_, t) => Some(t.to_token_stream()) };
    sig.output = ReturnType::Default;
    let wh = sig.generics.where_clause.take();
    print(sig.to_token_stream(), &mut head);
    let head = head.trim_end().to_string();
    let ret = match out_ty { None => String::new(), Some(t) => { let mut x = String::new(); print(t, &mut x); format!(" -> ({}: {})", d.ret, x) } };
    // the result is named before the where clause
    let ret = match wh { None => ret, Some(w) => { let mut x = String::new(); print(w.to_token_stream(), &mut x); format!("{} {}", ret, x.trim_end()) } };
    let mut body = String::new();
    if trust {
        body.push_str("{ unimplemented!() }\n");
    } else {
        let enter = s("enter");
        body.push_str("{\n");
        if canary { body.push_str("assert(false);\n"); }
        if !enter.is_empty() { body.push_str(&enter); }
        let mut inner = TokenStream::new();
        for st in &block.stmts { st.to_tokens(&mut inner); }
        print(inner, &mut body);
        body.push_str("\n}\n");
        for n in 0..rw.nloop {
            let pat = |kind: &str| format!("__VX_{}_{}__ ! () ;\n", kind, n);
            let gs = pat("GHOSTSTART");
            let isfor = body.contains(&format!("let mut vx_it{} =", n));
            body = body.replace(&gs, &if isfor { format!("let ghost vx_s{} = vx_it{}.all();\n{}", n, n, s(&format!("start {}", n))) } else { s(&format!("start {}", n)) });
            let mut inv = String::new();
            if isfor {
                inv.push_str(&format!("\n    invariant vx_it{n}.all() == vx_s{n}, vx_it{n}.pos() <= vx_s{n}.len(),\n"));
            }
            let mut user = s(&format!("loop {}", n));
            if isfor { if let Some(x) = user.trim_start().strip_prefix("invariant") { user = format!("    {}", x); } }
            let eb: String = user.lines().filter(|l| l.trim_start().starts_with("invariant_except_break")).map(|l| format!("\n{}", l)).collect();
            user = user.lines().filter(|l| !l.trim_start().starts_with("invariant_except_break")).map(|l| format!("{}\n", l)).collect();
            inv = format!("{}{}", eb, inv);
            if isfor {
                inv.push_str(&user);
                inv.push_str(&format!("    decreases vx_s{n}.len() - vx_it{n}.pos(),\n"));
            } else {
                inv.push_str("\n");
                inv.push_str(&user);
            }
            let brace = format!("{{\n{}", pat("INV"));
            body = body.replace(&brace, &format!("{}{{\n", inv));
            body = body.replace(&pat("BODY"), &s(&format!("body {}", n)));
            body = body.replace(&pat("BODYEND"), &s(&format!("bodyend {}", n)));
            body = body.replace(&pat("AFTER"), &s(&format!("after {}", n)));
        }
        body = body.replace("__VX_ONRETURN_0__ ! () ;\n", &s("onreturn"));
    }
    let mut r = String::new();
    r.push_str("#[verifier::loop_isolation(false)]\n#[allow(unused_mut, unused_variables, unused_assignments, unreachable_code, non_snake_case)]\n");
    if trust { r.push_str("#[verifier::external_body]\n"); }
    if d.opts.contains("nodecreases") { r.push_str("#[verifier::exec_allows_no_decreases_clause]\n"); }
    for o in &d.opts { if let Some(x) = o.strip_prefix("rlimit:") { r.push_str(&format!("#[verifier::rlimit({})]\n", x)); } }
    for o in &d.opts { if o == "breaks" { r.push_str("#[verifier::allow_complex_invariants]\n"); } }
    for o in &d.opts { if o == "spinoff" { r.push_str("#[verifier::spinoff_prover]\n"); } }
    r.push_str("pub ");
    r.push_str(&head);
    r.push_str(&ret);
    r.push('\n');
    r.push_str(&spec);
    r.push_str(&body);
    let txt = match &f.self_ty { Some(t) => format!("impl {} {{\n{}}}\n", t, r), None => r };
    (txt, if rw.skel.is_empty() { "-".to_string() } else { rw.skel })
}

fn emit_type(f: &File, name: &str) -> Option<String> {
    for it in &f.items {
        match it {
            Item::Struct(s) if s.ident == name => {
                let mut s = s.clone();
                s.attrs.clear();
                s.vis = parse_quote!(pub);
                for fl in s.fields.iter_mut() { fl.attrs.clear(); fl.vis = if matches!(fl.ident, Some(_)) { parse_quote!(pub) } else { fl.vis.clone() }; }
                let mut o = String::new();
                print(quote!(#s), &mut o);
                return Some(o);
            }
            Item::Enum(s) if s.ident == name => {
                let mut s = s.clone();
                s.attrs.clear();
                s.vis = parse_quote!(pub);
                for v in s.variants.iter_mut() { v.attrs.clear(); v.discriminant = None; }
                let mut o = String::new();
                print(quote!(#s), &mut o);
                return Some(o);
            }
            _ => {}
        }
    }
    None
}

fn walk(root: &Path, p: &Path, out: &mut Vec<String>) {
    let mut es: Vec<PathBuf> = match std::fs::read_dir(p) { Ok(r) => r.filter_map(|e| e.ok()).map(|e| e.path()).collect(), Err(_) => return };
    es.sort();
    for e in es {
        if e.is_dir() { walk(root, &e, out); }
        else if e.extension().map(|x| x == "rs").unwrap_or(false) { out.push(e.strip_prefix(root).unwrap().to_string_lossy().to_string()); }
    }
}

/// calls made by the function to functions of the same file which are under no contract here
struct Calls(BTreeSet<String>);
impl<'ast> syn::visit::Visit<'ast> for Calls {
    fn visit_expr_call(&mut self, c: &'ast ExprCall) {
        if let Expr::Path(p) = &*c.func { self.0.insert(p.path.segments.last().unwrap().ident.to_string()); }
        syn::visit::visit_expr_call(self, c);
    }
    fn visit_expr_method_call(&mut self, c: &'ast ExprMethodCall) {
        self.0.insert(c.method.to_string());
        syn::visit::visit_expr_method_call(self, c);
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let src = PathBuf::from(&args[1]);
    let unit = PathBuf::from(&args[2]);
    let outp = &args[3];
    let mut trust = BTreeSet::new();
    let mut canary = false;
    let mut k = 4;
    while k < args.len() {
        if args[k] == "--canary" { canary = true; }
        if args[k] == "--trust" { trust.insert(args[k + 1].clone()); k += 2; } else { k += 1; }
    }
    let mut items = vec![];
    parse_unit(&unit, &mut items, false);
    let mut listed: BTreeSet<String> = BTreeSet::new();
    for i in &items { if let Item0::Fn(d) = i { listed.insert(d.name.clone()); } }
    let mut out = String::from("#![allow(unused_imports, dead_code, unused_variables, non_snake_case)]\nuse vstd::prelude::*;\nverus! {\n");
    let mut files: BTreeMap<String, File> = BTreeMap::new();
    let mut map = String::new();
    let mut statics: BTreeMap<String, LitStr> = BTreeMap::new();
    let mut helpers: BTreeSet<(String, String)> = BTreeSet::new();
    for i in &items {
        match i {
            Item0::Raw(s) => out.push_str(s),
            Item0::Grammar(file) => {
                let t = std::fs::read_to_string(src.join(file)).unwrap_or_else(|e| die(format!("{}: {}", file, e)));
                match grammar::generate(&t) { Ok(s) => out.push_str(&s), Err(e) => die(format!("{}: {}", file, e)) }
            }
            Item0::Static(file) => {
                if let Ok(f) = load(&src, file) {
                    for it in &f.items {
                        let (id, e) = match it { syn::Item::Static(x) => (&x.ident, &x.expr), syn::Item::Const(x) => (&x.ident, &x.expr), _ => continue };
                        if let Expr::Lit(ExprLit { lit: Lit::Str(l), .. }) = &**e { statics.insert(id.to_string(), l.clone()); }
                    }
                }
            }
            Item0::Type(file, name) => {
                if !files.contains_key(file) { match load(&src, file) { Ok(f) => { files.insert(file.clone(), f); } Err(_) => { files.insert(file.clone(), parse_file("").unwrap()); } } }
                let mut ty = emit_type(&files[file], name);
                if ty.is_none() {
                    let mut all = vec![];
                    walk(&src, &src, &mut all);
                    for fl in all { if let Ok(x) = load(&src, &fl) { if ty.is_none() { ty = emit_type(&x, name); } } }
                }
                match ty { Some(s) => out.push_str(&s), None => die(format!("type {} not found in {}", name, file)) }
            }
            Item0::Fn(d) => {
                if !files.contains_key(&d.file) {
                    match load(&src, &d.file) { Ok(f) => { files.insert(d.file.clone(), f); } Err(_) => { files.insert(d.file.clone(), parse_file("").unwrap()); } }
                }
                let mut d = d.clone();
                let mut found = find_fn(&files[&d.file], &d.name);
                if found.is_none() {
                    // moved to another file ?
                    let mut all = vec![];
                    walk(&src, &src, &mut all);
                    let mut hits = vec![];
                    for fl in all {
                        if !files.contains_key(&fl) { if let Ok(x) = load(&src, &fl) { files.insert(fl.clone(), x); } }
                        if let Some(x) = files.get(&fl) { if let Some(r) = find_fn(x, &d.name) { hits.push((fl.clone(), r)); } }
                    }
                    if hits.len() == 1 { let (fl, r) = hits.pop().unwrap(); d.file = fl; found = Some(r); }
                }
                let d = &d;
                match found {
                    None => { map.push_str(&format!("LOST\t{}\t{}\tnot found\n", d.name, d.file)); }
                    Some(f) => {
                        let t = d.assume || trust.contains(&d.name);
                        let _ = f.vis;
                        let start = out.matches('\n').count() + 1;
                        let (txt, skel) = emit_fn(d, &f, t, canary, &statics);
                        out.push_str(&format!("// VXFN {} {}\n", d.name, d.file));
                        out.push_str(&txt);
                        let end = out.matches('\n').count();
                        map.push_str(&format!("FN\t{}\t{}\t{}\t{}\t{}\t{}\n", d.name, d.file, start, end, if d.assume { "assumed" } else if t { "trusted" } else { "contract" }, skel));
                        // helpers of the same file
                        if t { continue; }
                        let mut c = Calls(BTreeSet::new());
                        syn::visit::Visit::visit_block(&mut c, &f.block);
                        for dn in defined(&files[&d.file]) {
                            let short = dn.rsplit("::").next().unwrap().to_string();
                            if c.0.contains(&short) && !listed.iter().any(|l| l.rsplit("::").next().unwrap() == short) { helpers.insert((d.file.clone(), dn)); }
                        }
                    }
                }
            }
        }
    }
    // functions called by the ones under contract, of the same file, for which there is no contract: extracted without contract
    let mut done: BTreeSet<String> = BTreeSet::new();
    let mut work: Vec<(String, String)> = helpers.into_iter().collect();
    while let Some((file, name)) = work.pop() {
        if !done.insert(name.clone()) { continue; }
        let f = match find_fn(&files[&file], &name) { Some(f) => f, None => continue };
        let d = FnDir { file: file.clone(), name: name.clone(), ret: "vx_r".into(), opts: ["nodecreases".to_string()].into_iter().collect(), ..Default::default() };
        let start = out.matches('\n').count() + 1;
        out.push_str(&emit_fn(&d, &f, true, false, &statics).0);
        let end = out.matches('\n').count();
        map.push_str(&format!("HELPER\t{}\t{}\t{}\t{}\tnocontract\n", name, file, start, end));
    }
    out.push_str("\n} // verus!\nfn main() {}\n");
    std::fs::write(outp, out).unwrap();
    std::fs::write(format!("{}.map", outp), map).unwrap();
}
