//! Mechanical extraction of the functions of /repo/src into one Verus file.
//!
//! usage: extract REPO SPEC_DIR OUT.rs OUT.json [--external-body PATH]... [--reference REF.json] [--write-reference REF.json]
//!
//! The text of every function is the repository's own text; edits are insertions at syn spans
//! (contracts, invariants, ghost code, visibility) and the listed token rewrites.
mod spec;
use proc_macro2::{Delimiter, Span, TokenStream, TokenTree};
use serde_json::{json, Value};
use spec::*;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::path::{Path, PathBuf};
use syn::spanned::Spanned;
use syn::visit::{self, Visit};

struct Edit { start: usize, end: usize, text: String, prio: i32 }

pub struct Report { fns: BTreeMap<String, Value>, rewrites: BTreeMap<String, usize>, dropped: BTreeSet<String>, errors: Vec<String> }

struct Ex<'a> {
    spec: &'a Spec,
    external_body: &'a BTreeSet<String>,
    external: &'a BTreeSet<String>,
    probe: bool,
    reference: &'a Value,
    newref: serde_json::Map<String, Value>,
    report: Report,
    used: BTreeSet<String>,
    /// functions that write output, by name: they take the ghost output as an additional parameter
    traced: Traced,
    /// equality or hashing are written by hand somewhere
    handmade: bool,
    out: String,
}

fn off(s: Span) -> (usize, usize) { let r = s.byte_range(); (r.start, r.end) }

fn is_cfg_test(attrs: &[syn::Attribute]) -> bool {
    attrs.iter().any(|a| a.path().is_ident("cfg") && a.meta.require_list().map(|l| l.tokens.to_string() == "test").unwrap_or(false))
        || attrs.iter().any(|a| a.path().is_ident("test"))
}

/// flat token: text and byte range
#[derive(Clone, Debug)]
struct Ft { t: String, s: usize, e: usize }
fn flat(ts: TokenStream, v: &mut Vec<Ft>) {
    for t in ts {
        match t {
            TokenTree::Group(g) => {
                let (o, c) = match g.delimiter() { Delimiter::Parenthesis => ("(", ")"), Delimiter::Brace => ("{", "}"), Delimiter::Bracket => ("[", "]"), Delimiter::None => ("", "") };
                let so = off(g.span_open()); let sc = off(g.span_close());
                if !o.is_empty() { v.push(Ft { t: o.into(), s: so.0, e: so.1 }); }
                flat(g.stream(), v);
                if !c.is_empty() { v.push(Ft { t: c.into(), s: sc.0, e: sc.1 }); }
            }
            TokenTree::Ident(i) => { let r = off(i.span()); v.push(Ft { t: i.to_string(), s: r.0, e: r.1 }) }
            TokenTree::Punct(p) => { let r = off(p.span()); v.push(Ft { t: p.as_char().to_string(), s: r.0, e: r.1 }) }
            TokenTree::Literal(l) => { let r = off(l.span()); v.push(Ft { t: l.to_string(), s: r.0, e: r.1 }) }
        }
    }
}
fn flat_str(s: &str) -> Vec<String> {
    let mut v = vec![];
    let ts: TokenStream = s.parse().unwrap_or_else(|e| panic!("bad token pattern {:?}: {}", s, e));
    flat(ts, &mut v);
    v.into_iter().map(|f| f.t).collect()
}

#[derive(Clone, Debug)]
enum Pt { Lit(String), One(String), Seq(String) }
fn pattern(s: &str) -> Vec<Pt> {
    let f = flat_str(s);
    let mut v = vec![]; let mut i = 0;
    while i < f.len() {
        if f[i] == "$" { if f[i + 1] == "$" { v.push(Pt::Seq(f[i + 2].clone())); i += 3; } else { v.push(Pt::One(f[i + 1].clone())); i += 2; } }
        else { v.push(Pt::Lit(f[i].clone())); i += 1; }
    }
    v
}
/// match pattern at position i; returns end position and bindings (token index ranges)
fn match_at(p: &[Pt], f: &[Ft], i: usize, b: &mut HashMap<String, (usize, usize)>) -> Option<usize> {
    match p.first() {
        None => Some(i),
        Some(Pt::Lit(l)) => if i < f.len() && f[i].t == *l { match_at(&p[1..], f, i + 1, b) } else { None },
        Some(Pt::One(n)) => if i < f.len() && f[i].t.chars().next().map(|c| c.is_alphanumeric() || c == '_').unwrap_or(false) { b.insert(n.clone(), (i, i + 1)); match_at(&p[1..], f, i + 1, b) } else { None },
        Some(Pt::Seq(n)) => {
            let mut depth = 0i32; let mut j = i;
            while j < f.len() {
                match f[j].t.as_str() { "(" | "[" | "{" => depth += 1, ")" | "]" | "}" => { depth -= 1; if depth < 0 { return None; } } ";" if depth == 0 => return None, _ => {} }
                j += 1;
                if depth == 0 { let mut b2 = b.clone(); b2.insert(n.clone(), (i, j)); if let Some(r) = match_at(&p[1..], f, j, &mut b2) { *b = b2; return Some(r); } }
            }
            None
        }
    }
}

struct Bindings(Vec<String>);
impl<'ast> Visit<'ast> for Bindings {
    fn visit_pat_ident(&mut self, p: &'ast syn::PatIdent) {
        let n = p.ident.to_string();
        if !n.chars().next().unwrap().is_uppercase() && n != "self" { self.0.push(n); }
        visit::visit_pat_ident(self, p);
    }
}
/// does the body of a loop contain a `continue` / a `break` of this loop
fn has_continue(b: &syn::Block) -> (bool, bool) {
    struct V(bool, bool);
    impl<'ast> Visit<'ast> for V {
        fn visit_expr_continue(&mut self, _: &'ast syn::ExprContinue) { self.0 = true; }
        fn visit_expr_break(&mut self, _: &'ast syn::ExprBreak) { self.1 = true; }
        fn visit_expr_for_loop(&mut self, _: &'ast syn::ExprForLoop) { }
        fn visit_expr_while(&mut self, _: &'ast syn::ExprWhile) { }
        fn visit_expr_loop(&mut self, _: &'ast syn::ExprLoop) { }
        fn visit_expr_closure(&mut self, _: &'ast syn::ExprClosure) { }
    }
    let mut v = V(false, false); v.visit_block(b); (v.0, v.1)
}
/// the clauses of a loop annotation: invariant_except_break, invariant, ensures, decreases
fn clauses(t: &str) -> [String; 4] {
    let mut r: [String; 4] = Default::default(); let mut cur = 1;
    for l in t.lines() {
        let w = l.trim_start(); let first: String = w.chars().take_while(|c| c.is_alphanumeric() || *c == '_').collect();
        match ["invariant_except_break", "invariant", "ensures", "decreases"].iter().position(|k| *k == first) {
            Some(i) => { cur = i; r[i].push_str(w[first.len()..].trim_end()); }
            None => r[cur].push_str(l.trim_end()),
        }
        let e = r[cur].trim_end().to_string(); if !e.is_empty() && !e.ends_with(',') && (l.trim_end().ends_with(',') || false) { r[cur].push(','); }
        r[cur].push('\n');
    }
    for i in 0..3 { let e = r[i].trim_end(); if !e.is_empty() && !e.ends_with(',') { r[i] = format!("{},", e); } }
    r
}
enum LoopK<'a> { For(&'a syn::ExprForLoop), While(&'a syn::ExprWhile), Loop(&'a syn::ExprLoop) }
struct Loops<'a>(Vec<LoopK<'a>>);
impl<'ast> Visit<'ast> for Loops<'ast> {
    fn visit_expr_for_loop(&mut self, e: &'ast syn::ExprForLoop) { self.0.push(LoopK::For(e)); visit::visit_expr_for_loop(self, e); }
    fn visit_expr_while(&mut self, e: &'ast syn::ExprWhile) { self.0.push(LoopK::While(e)); visit::visit_expr_while(self, e); }
    fn visit_expr_loop(&mut self, e: &'ast syn::ExprLoop) { self.0.push(LoopK::Loop(e)); visit::visit_expr_loop(self, e); }
}
struct Stmts<'a>(Vec<&'a syn::Stmt>);
impl<'ast> Visit<'ast> for Stmts<'ast> {
    fn visit_stmt(&mut self, s: &'ast syn::Stmt) { self.0.push(s); visit::visit_stmt(self, s); }
}
/// regular expressions: the pattern as a term over the constructors of crate::rx; None if not understood
enum Re { Empty, One(Vec<(char, char)>), Many(Vec<(char, char)>), Cat(Vec<Re>), Opt(Box<Re>), Alt(Box<Re>, Box<Re>), Name(String, Box<Re>) }
impl Clone for Re { fn clone(&self) -> Re { match self { Re::Empty => Re::Empty, Re::One(c) => Re::One(c.clone()), Re::Many(c) => Re::Many(c.clone()), Re::Cat(v) => Re::Cat(v.clone()), Re::Opt(a) => Re::Opt(a.clone()), Re::Alt(a, b) => Re::Alt(a.clone(), b.clone()), Re::Name(n, a) => Re::Name(n.clone(), a.clone()) } } }
fn norm_class(mut c: Vec<(char, char)>) -> Vec<(char, char)> {
    c.sort(); let mut r: Vec<(char, char)> = vec![];
    for (a, b) in c { match r.last_mut() { Some(l) if a as u32 <= l.1 as u32 + 1 => { if b > l.1 { l.1 = b; } } _ => r.push((a, b)) } }
    r
}
const ANY_END: char = char::MAX;
struct ReParser { t: Vec<char>, i: usize }
impl ReParser {
    fn peek(&self) -> Option<char> { self.t.get(self.i).copied() }
    fn eat(&mut self, s: &str) -> bool { let v: Vec<char> = s.chars().collect(); if self.t[self.i..].starts_with(&v) { self.i += v.len(); true } else { false } }
    fn escape(&mut self) -> Option<char> { let c = self.peek()?; self.i += 1; if c.is_ascii_punctuation() { Some(c) } else { match c { 't' => Some('\t'), 'n' => Some('\n'), 'r' => Some('\r'), _ => None } } }
    fn alt(&mut self) -> Option<Re> { let a = self.cat()?; if self.eat("|") { let b = self.alt()?; Some(Re::Alt(Box::new(a), Box::new(b))) } else { Some(a) } }
    fn cat(&mut self) -> Option<Re> {
        let mut v = vec![];
        while let Some(c) = self.peek() { if c == '|' || c == ')' { break; } match self.item()? { Re::Cat(x) => v.extend(x), Re::Empty => {} x => v.push(x) } }
        Some(match v.len() { 0 => Re::Empty, 1 => v.pop().unwrap(), _ => Re::Cat(v) })
    }
    fn class(&mut self) -> Option<Vec<(char, char)>> {
        let neg = self.eat("^"); let mut c = vec![]; let mut first = true;
        loop {
            let x = self.peek()?; self.i += 1;
            if x == ']' && !first { break; }
            first = false;
            if x == '[' || x == '&' || x == '~' { return None; }
            let a = if x == '\\' { self.escape()? } else { x };
            if self.peek() == Some('-') && self.t.get(self.i + 1).copied()? != ']' {
                self.i += 1; let y = self.peek()?; self.i += 1; if y == '[' || y == '-' { return None; } let b = if y == '\\' { self.escape()? } else { y };
                if b < a { return None; } c.push((a, b));
            } else { c.push((a, a)); }
        }
        let c = norm_class(c);
        if !neg { return Some(c); }
        None
    }
    fn item(&mut self) -> Option<Re> {
        let c = self.peek()?; self.i += 1;
        let r = match c {
            '(' => {
                let mut name = None;
                if self.eat("?P<") || self.eat("?<") { let mut n = String::new(); while self.peek()? != '>' { n.push(self.peek()?); self.i += 1; } self.i += 1; if !n.chars().all(|c| c.is_ascii_alphanumeric() || c == '_') { return None; } name = Some(n); }
                else if self.eat("?:") { } else if self.peek() == Some('?') { return None; }
                let a = self.alt()?; if !self.eat(")") { return None; }
                match name { Some(n) => Re::Name(n, Box::new(a)), None => a }
            }
            '[' => Re::One(self.class()?),
            '\\' => { let x = self.escape()?; Re::One(vec![(x, x)]) }
            '.' | '^' | '$' | '*' | '+' | '?' | '{' | '}' | ']' | ')' => return None,
            c => Re::One(vec![(c, c)]),
        };
        let r = match (self.peek(), r) {
            (Some('?'), r) => { self.i += 1; Re::Opt(Box::new(r)) }
            (Some('+'), Re::One(c)) => { self.i += 1; Re::Many(c) }
            (Some('*'), Re::One(c)) => { self.i += 1; Re::Opt(Box::new(Re::Many(c))) }
            (Some('+'), _) | (Some('*'), _) => return None,
            (Some('{'), r) => {
                self.i += 1; let mut d = String::new(); while self.peek()? != '}' { d.push(self.peek()?); self.i += 1; } self.i += 1;
                let n: usize = d.parse().ok()?; if n > 16 || has_name(&r) { return None; }
                let mut v = vec![]; for _ in 0..n { match r.clone() { Re::Cat(x) => v.extend(x), x => v.push(x) } }
                match v.len() { 0 => Re::Empty, 1 => v.pop().unwrap(), _ => Re::Cat(v) }
            }
            (_, r) => r,
        };
        if matches!(self.peek(), Some('?') | Some('+') | Some('*') | Some('{')) { return None; }
        Some(r)
    }
}
fn has_name(r: &Re) -> bool { match r { Re::Name(..) => true, Re::Cat(v) => v.iter().any(has_name), Re::Opt(a) => has_name(a), Re::Alt(a, b) => has_name(a) || has_name(b), _ => false } }
fn re_text(r: &Re) -> String {
    let class = |c: &Vec<(char, char)>| format!("seq![{}]", c.iter().map(|(a, b)| format!("({:?}, {:?})", a, b)).collect::<Vec<_>>().join(", "));
    let p = "crate::rx::";
    match r {
        Re::Empty => format!("{p}empty()"), Re::One(c) => format!("{p}one({})", class(c)), Re::Many(c) => format!("{p}many({})", class(c)),
        Re::Cat(v) => { let mut it = v.iter().rev(); let mut s = re_text(it.next().unwrap()); for x in it { s = format!("{p}cat({}, {})", re_text(x), s); } s }
        Re::Opt(a) => format!("{p}opt({})", re_text(a)), Re::Alt(a, b) => format!("{p}alt({}, {})", re_text(a), re_text(b)),
        Re::Name(n, a) => format!("{p}name({:?}@, {})", n, re_text(a)),
    }
}
fn regex_term(pat: &str) -> Option<String> {
    let mut t: Vec<char> = pat.chars().collect();
    let start = t.first() == Some(&'^'); if start { t.remove(0); }
    let end = t.last() == Some(&'$') && t.iter().rev().skip(1).take_while(|c| **c == '\\').count() % 2 == 0; if end { t.pop(); }
    let mut p = ReParser { t, i: 0 };
    let r = p.alt()?; if p.i != p.t.len() { return None; }
    // "^a|b$" binds differently
    if matches!(r, Re::Alt(..)) && (start || end) { return None; }
    let mut v = match r { Re::Cat(v) => v, Re::Empty => vec![], x => vec![x] };
    let any = || Re::Opt(Box::new(Re::Many(vec![('\0', ANY_END)])));
    if !start { v.insert(0, any()); } if !end { v.push(any()); }
    Some(match v.len() { 0 => "crate::rx::empty()".into(), _ => re_text(&Re::Cat(v)) })
}
/// the literal of the only Regex::new(..) in an expression
struct RegexNew(Vec<Option<String>>);
impl<'ast> Visit<'ast> for RegexNew {
    fn visit_expr_call(&mut self, c: &'ast syn::ExprCall) {
        if let syn::Expr::Path(p) = &*c.func { let n: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect(); if n.len() >= 2 && n[n.len() - 2] == "Regex" && n[n.len() - 1] == "new" {
            self.0.push(match c.args.first() { Some(syn::Expr::Lit(syn::ExprLit { lit: syn::Lit::Str(s), .. })) => Some(s.value()), _ => None });
        } }
        visit::visit_expr_call(self, c);
    }
}
/// the arguments of a formatting macro behind the format (they stay in place); leaked: the program is short-lived
fn macro_args(m: &syn::Macro) -> Vec<&'static syn::Expr> {
    let mut groups: Vec<Vec<TokenTree>> = vec![vec![]];
    for t in m.tokens.clone() { match &t { TokenTree::Punct(p) if p.as_char() == ',' => groups.push(vec![]), _ => groups.last_mut().unwrap().push(t) } }
    let lit = groups.iter().position(|g| matches!(&g[..], [TokenTree::Literal(_)]));
    let name = m.path.segments.last().map(|x| x.ident.to_string()).unwrap_or_default();
    if !["write", "writeln", "format", "print", "println", "eprint", "eprintln"].contains(&name.as_str()) { return vec![]; }
    match lit { None => vec![], Some(k) => groups.into_iter().skip(k + 1).filter_map(|g| syn::parse2::<syn::Expr>(g.into_iter().collect()).ok()).map(|e| &*Box::leak(Box::new(e))).collect() }
}
struct Closures<'a>(Vec<&'a syn::ExprClosure>);
impl<'ast> Visit<'ast> for Closures<'ast> {
    fn visit_macro(&mut self, m: &'ast syn::Macro) { for e in macro_args(m) { self.visit_expr(e); } }
    fn visit_expr_closure(&mut self, s: &'ast syn::ExprClosure) { self.0.push(s); visit::visit_expr_closure(self, s); }
}
struct Methods<'a>(Vec<&'a syn::ExprMethodCall>);
impl<'ast> Visit<'ast> for Methods<'ast> {
    fn visit_macro(&mut self, m: &'ast syn::Macro) { for e in macro_args(m) { self.visit_expr(e); } }
    fn visit_expr_method_call(&mut self, s: &'ast syn::ExprMethodCall) { self.0.push(s); visit::visit_expr_method_call(self, s); }
}
struct Calls(BTreeSet<String>);
impl<'ast> Visit<'ast> for Calls {
    fn visit_expr_method_call(&mut self, e: &'ast syn::ExprMethodCall) { self.0.insert(e.method.to_string()); visit::visit_expr_method_call(self, e); }
    fn visit_expr_path(&mut self, e: &'ast syn::ExprPath) { if let Some(s) = e.path.segments.last() { self.0.insert(s.ident.to_string()); } visit::visit_expr_path(self, e); }
}

/// printing macros: the function of the ghost output, and whether the text ends with a newline
const PRINTS: [(&str, &str, bool); 4] = [("println", "put", true), ("eprintln", "complain", true), ("print", "put", false), ("eprint", "complain", false)];
struct Macros<'a>(Vec<&'a syn::Macro>);
impl<'ast> Visit<'ast> for Macros<'ast> {
    fn visit_macro(&mut self, m: &'ast syn::Macro) { self.0.push(m); visit::visit_macro(self, m); }
}
struct FnCalls<'a>(Vec<&'a syn::ExprCall>);
impl<'ast> Visit<'ast> for FnCalls<'ast> {
    fn visit_macro(&mut self, m: &'ast syn::Macro) { for e in macro_args(m) { self.visit_expr(e); } }
    fn visit_expr_call(&mut self, c: &'ast syn::ExprCall) { self.0.push(c); visit::visit_expr_call(self, c); }
}
fn callee(c: &syn::ExprCall) -> Option<(String, bool)> { match &*c.func { syn::Expr::Path(p) if p.qself.is_none() => Some((p.path.segments.last()?.ident.to_string(), p.path.segments.len() == 1)), _ => None } }
/// is this bound `Fn(..)` (FnMut, FnOnce) without a result: an output function
fn out_bound(b: &syn::TypeParamBound) -> Option<(usize, bool)> {
    if let syn::TypeParamBound::Trait(t) = b { let l = t.path.segments.last()?; if l.ident == "Fn" || l.ident == "FnMut" || l.ident == "FnOnce" { if let syn::PathArguments::Parenthesized(p) = &l.arguments { if matches!(p.output, syn::ReturnType::Default) { return Some((off(p.paren_token.span.close()).0, p.inputs.is_empty() || p.inputs.trailing_punct())); } } } }
    None
}
/// the output functions among the parameters of a function (names and positions), and the places of their bounds
fn out_params(sig: &syn::Signature) -> (Vec<(String, usize)>, Vec<(usize, bool)>) {
    let mut tys: BTreeSet<String> = BTreeSet::new(); let mut at = vec![];
    for p in &sig.generics.params { if let syn::GenericParam::Type(t) = p { for b in &t.bounds { if let Some(x) = out_bound(b) { tys.insert(t.ident.to_string()); at.push(x); } } } }
    if let Some(w) = &sig.generics.where_clause { for p in &w.predicates { if let syn::WherePredicate::Type(t) = p { for b in &t.bounds { if let Some(x) = out_bound(b) { tys.insert(quote::ToTokens::to_token_stream(&t.bounded_ty).to_string()); at.push(x); } } } } }
    let mut r = vec![];
    for (i, a) in sig.inputs.iter().filter_map(|a| match a { syn::FnArg::Typed(t) => Some(t), _ => None }).enumerate() {
        if let syn::Pat::Ident(n) = &*a.pat {
            let mut ty = &*a.ty; while let syn::Type::Reference(t) = ty { ty = &*t.elem; }
            let mut is = tys.contains(&quote::ToTokens::to_token_stream(ty).to_string());
            if let syn::Type::ImplTrait(t) = ty { for b in &t.bounds { if let Some(x) = out_bound(b) { is = true; at.push(x); } } }
            if is { r.push((n.ident.to_string(), i)); }
        }
    }
    (r, at)
}
/// what find_traced found: the functions that write output, and the positions of output functions among the parameters of functions
#[derive(Default)]
struct Traced { fns: BTreeSet<String>, outs: BTreeMap<String, Vec<usize>> }
struct FnInfo { key: String, name: String, prints: bool, calls: BTreeSet<String>, outs: Vec<usize>, passed: Vec<(String, usize, String)> }
/// the free functions that print or call (by name) functions that do, take output functions or are passed as such; trusted and dropped functions are no candidates
fn find_traced(repo: &Path, spec: &Spec) -> Traced {
    fn walk(pre: &str, items: &[syn::Item], dir: &Path, spec: &Spec, all: &mut Vec<FnInfo>) {
        for i in items { match i {
            syn::Item::Fn(f) if !is_cfg_test(&f.attrs) => {
                let mut m = Macros(vec![]); m.visit_block(&f.block);
                let mut c = FnCalls(vec![]); c.visit_block(&f.block);
                let prints = m.0.iter().any(|m| m.path.segments.last().map(|s| PRINTS.iter().any(|p| s.ident == p.0)).unwrap_or(false));
                let mut passed = vec![];
                for c in &c.0 { if let Some((n, _)) = callee(c) { for (i, a) in c.args.iter().enumerate() { if let Some(p) = path_arg(a) { passed.push((n.clone(), i, p)); } } } }
                all.push(FnInfo { key: format!("{}{}", pre, f.sig.ident), name: f.sig.ident.to_string(), prints, calls: c.0.iter().filter_map(|c| callee(c)).map(|c| c.0).collect(), outs: out_params(&f.sig).0.iter().map(|x| x.1).collect(), passed });
            }
            syn::Item::Mod(m) if !is_cfg_test(&m.attrs) => {
                let n = m.ident.to_string();
                let (a, b) = (dir.join(format!("{}.rs", n)), dir.join(&n).join("mod.rs"));
                let f = if a.exists() { a } else { b };
                let p = format!("{}{}", pre, n);
                if spec.drop.contains(&p) { continue; }
                if let Some(x) = std::fs::read_to_string(&f).ok().and_then(|s| syn::parse_file(&s).ok()) { walk(&format!("{}::", p), &x.items, &dir.join(&n), spec, all); }
            }
            _ => {}
        } }
    }
    let mut all = vec![];
    if let Some(x) = std::fs::read_to_string(repo.join("src/main.rs")).ok().and_then(|s| syn::parse_file(&s).ok()) { walk("", &x.items, &repo.join("src"), spec, &mut all); }
    all.retain(|f| !spec.drop.contains(&f.key) && !spec.fns.get(&f.key).map(|s| s.trust || s.external).unwrap_or(false));
    let outs: BTreeMap<String, Vec<usize>> = all.iter().filter(|f| !f.outs.is_empty()).map(|f| (f.name.clone(), f.outs.clone())).collect();
    let mut r: BTreeSet<String> = all.iter().filter(|f| f.prints || !f.outs.is_empty()).map(|f| f.name.clone()).collect();
    r.insert("exit".into());
    for f in &all { for (n, i, p) in &f.passed { if outs.get(n).map(|o| o.contains(i)).unwrap_or(false) && all.iter().any(|g| g.name == *p) { r.insert(p.clone()); } } }
    loop {
        let n = r.len();
        for f in &all { if f.calls.iter().any(|c| r.contains(c)) { r.insert(f.name.clone()); } }
        if r.len() == n { return Traced { fns: r, outs }; }
    }
}
/// an argument that is a name (or a reference to one)
fn path_arg(e: &syn::Expr) -> Option<String> { match e { syn::Expr::Path(p) if p.qself.is_none() => Some(p.path.segments.last()?.ident.to_string()), syn::Expr::Reference(r) => path_arg(&r.expr), syn::Expr::Paren(r) => path_arg(&r.expr), _ => None } }
/// `for (i, x) in v.iter().enumerate()` with names i, x (or &x) and v: (i, x, was &x, v)
fn enumerated(f: &syn::ExprForLoop) -> Option<(String, String, bool, String)> {
    let t = match &*f.pat { syn::Pat::Tuple(t) if t.elems.len() == 2 => t, _ => return None };
    let name = |p: &syn::Pat| match p { syn::Pat::Ident(i) if i.by_ref.is_none() && i.mutability.is_none() && i.subpat.is_none() => Some(i.ident.to_string()), _ => None };
    let i = name(&t.elems[0])?;
    let (x, byval) = match &t.elems[1] { syn::Pat::Reference(r) => (name(&r.pat)?, true), p => (name(p)?, false) };
    let e = match &*f.expr { syn::Expr::MethodCall(m) if m.method == "enumerate" && m.args.is_empty() => m, _ => return None };
    let it = match &*e.receiver { syn::Expr::MethodCall(m) if m.method == "iter" && m.args.is_empty() => m, _ => return None };
    match &*it.receiver { syn::Expr::Path(p) if p.qself.is_none() && p.path.get_ident().is_some() => Some((i, x, byval, p.path.get_ident()?.to_string())), _ => None }
}
/// the closure an argument is
fn closure_arg(e: &syn::Expr) -> Option<&syn::ExprClosure> { match e { syn::Expr::Closure(c) => Some(c), syn::Expr::Reference(r) => closure_arg(&r.expr), syn::Expr::Paren(r) => closure_arg(&r.expr), _ => None } }
/// `let name = |..| ..;`
struct LetClosures<'a>(Vec<(String, &'a syn::ExprClosure)>);
impl<'ast> Visit<'ast> for LetClosures<'ast> {
    fn visit_local(&mut self, l: &'ast syn::Local) {
        let mut p = &l.pat; while let syn::Pat::Type(t) = p { p = &*t.pat; }
        if let (syn::Pat::Ident(i), Some(init)) = (p, &l.init) { if let Some(c) = closure_arg(&init.expr) { self.0.push((i.ident.to_string(), c)); } }
        visit::visit_local(self, l);
    }
}
/// a piece of a format string: literal text or a value (method of text::Text that appends it, inline expression or source range)
enum Piece { Lit(String), Val(String, Option<String>, (usize, usize)) }
/// splits the tokens of a formatting macro (after `skip` leading arguments) into the leading arguments and the pieces of the text
fn pieces(m: &syn::Macro, skip: usize) -> Option<(Vec<(usize, usize)>, Vec<Piece>)> {
    let mut groups: Vec<Vec<TokenTree>> = vec![vec![]];
    for t in m.tokens.clone() { match &t { TokenTree::Punct(p) if p.as_char() == ',' => groups.push(vec![]), _ => groups.last_mut().unwrap().push(t) } }
    if groups.last().unwrap().is_empty() { groups.pop(); }
    if groups.len() < skip || groups.iter().any(|g| g.is_empty()) { return None; }
    let span = |g: &Vec<TokenTree>| (off(g[0].span()).0, off(g[g.len() - 1].span()).1);
    let lead: Vec<(usize, usize)> = groups[..skip].iter().map(span).collect();
    if groups.len() == skip { return Some((lead, vec![])); }
    let lit: syn::LitStr = match &groups[skip][..] { [TokenTree::Literal(l)] => syn::parse_str(&l.to_string()).ok()?, _ => return None };
    let mut args: Vec<(Option<String>, (usize, usize))> = vec![];
    for g in &groups[skip + 1..] {
        let mut name = None; let mut g = &g[..];
        if g.len() >= 3 { if let (TokenTree::Ident(n), TokenTree::Punct(p)) = (&g[0], &g[1]) { if p.as_char() == '=' && p.spacing() == proc_macro2::Spacing::Alone { name = Some(n.to_string()); g = &g[2..]; } } }
        args.push((name, (off(g[0].span()).0, off(g[g.len() - 1].span()).1)));
    }
    let b: Vec<char> = lit.value().chars().collect(); let mut i = 0; let mut out: Vec<Piece> = vec![]; let mut acc = String::new(); let mut next = 0; let mut used: Vec<usize> = vec![];
    while i < b.len() {
        if (b[i] == '{' || b[i] == '}') && i + 1 < b.len() && b[i + 1] == b[i] { acc.push(b[i]); i += 2; continue; }
        if b[i] == '{' {
            let j = i + b[i..].iter().position(|c| *c == '}')?;
            let inner: String = b[i + 1..j].iter().collect();
            let (n, f) = match inner.split_once(':') { Some((n, f)) => (n.trim().to_string(), f.trim().to_string()), None => (inner.trim().to_string(), String::new()) };
            let how = match f.as_str() { "" => "v".to_string(), "?" => "d".into(), "x" => "x".into(), "04x" => "x4".into(), _ => return None };
            if !acc.is_empty() { out.push(Piece::Lit(std::mem::take(&mut acc))); }
            let k = if n.is_empty() { next += 1; Some(next - 1) } else if let Ok(k) = n.parse::<usize>() { Some(k) } else { args.iter().position(|a| a.0.as_deref() == Some(n.as_str())) };
            match k { Some(k) => { if k >= args.len() { return None; } used.push(k); out.push(Piece::Val(how, None, args[k].1)); } None => out.push(Piece::Val(how, Some(n), (0, 0))) }
            i = j + 1; continue;
        }
        if b[i] == '}' { return None; }
        acc.push(b[i]); i += 1;
    }
    if !acc.is_empty() { out.push(Piece::Lit(acc)); }
    // every argument once, in the order of the source: the expressions stay in place
    if used != (0..args.len()).collect::<Vec<_>>() { return None; }
    Some((lead, out))
}
/// turns a formatting macro into head + text in pieces + tail
fn emit_pieces(ps: &[Piece], start: usize, end: usize, head: &str, newline: bool, tail: &str, ed: &mut Vec<Edit>) {
    let mut acc = head.to_string(); let mut pos = start; let mut first = true;
    let mut dot = || { let d = if first { "crate::text::" } else { "." }; first = false; d };
    for p in ps {
        match p {
            // newlines are pieces of their own
            Piece::Lit(t) => for (i, l) in t.split('\n').enumerate() { if i > 0 { acc += &format!("{}nl()", dot()); } if !l.is_empty() { acc += &format!("{}l({:?})", dot(), l); } },
            Piece::Val(how, Some(e), _) => acc += &format!("{}{}(&({}))", dot(), how, e),
            Piece::Val(how, None, (a, z)) => { acc += &format!("{}{}(&(", dot(), how); ed.push(Edit { start: pos, end: *a, text: std::mem::take(&mut acc), prio: 0 }); acc = "))".into(); pos = *z; }
        }
    }
    if newline { acc += &format!("{}nl()", dot()); }
    if first { acc += "crate::text::l(\"\")"; }
    acc += tail;
    ed.push(Edit { start: pos, end, text: acc, prio: 0 });
}
/// `return x;` at the end of a function is written `x`, a pair of parentheses around a name, a call or an element is left out (the text keeps its length)
fn plain(src: String) -> (String, Vec<(&'static str, usize)>) {
    struct P { spans: Vec<(usize, usize)>, n: usize, m: usize, off: Vec<usize>, lines: Vec<String> }
    impl P {
        fn at(&self, p: proc_macro2::LineColumn) -> usize { self.off[p.line - 1] + self.lines[p.line - 1].chars().take(p.column).map(char::len_utf8).sum::<usize>() }
        fn gone(&mut self, s: proc_macro2::Span) { let r = (self.at(s.start()), self.at(s.end())); self.spans.push(r); }
        fn body(&mut self, b: &syn::Block) {
            match b.stmts.last() {
                Some(syn::Stmt::Expr(syn::Expr::Return(r), semi)) if r.attrs.is_empty() => { self.gone(r.return_token.span); if let Some(s) = semi { self.gone(s.span); } self.n += 1; }
                _ => {}
            }
        }
    }
    impl<'a> Visit<'a> for P {
        fn visit_item_fn(&mut self, f: &'a syn::ItemFn) { self.body(&f.block); syn::visit::visit_item_fn(self, f) }
        fn visit_impl_item_fn(&mut self, f: &'a syn::ImplItemFn) { self.body(&f.block); syn::visit::visit_impl_item_fn(self, f) }
        fn visit_expr_paren(&mut self, e: &'a syn::ExprParen) {
            if e.attrs.is_empty() && matches!(&*e.expr, syn::Expr::Path(_) | syn::Expr::Call(_) | syn::Expr::MethodCall(_) | syn::Expr::Index(_)) { self.gone(e.paren_token.span.open()); self.gone(e.paren_token.span.close()); self.m += 1; }
            syn::visit::visit_expr_paren(self, e)
        }
    }
    let Ok(ast) = syn::parse_file(&src) else { return (src, vec![]) };
    let lines: Vec<String> = src.split('\n').map(String::from).collect();
    let mut off = vec![0]; for l in &lines { off.push(off.last().unwrap() + l.len() + 1); }
    let mut p = P { spans: vec![], n: 0, m: 0, off, lines };
    p.visit_file(&ast);
    let mut out = src.clone().into_bytes();
    for (a, b) in &p.spans { for c in &mut out[*a..*b] { *c = b' '; } }
    match String::from_utf8(out) { Ok(s) if syn::parse_file(&s).is_ok() => (s, vec![("return x; at the end of a function  =>  x", p.n), ("(x)  =>  x, around a name, a call or an element", p.m)]), _ => (src, vec![]) }
}
/// replace identifiers (not fields or path tails) by the mapping
fn rename(t: &str, m: &BTreeMap<String, String>) -> String {
    if m.iter().all(|(a, b)| a == b) { return t.to_string(); }
    let b: Vec<char> = t.chars().collect();
    let mut r = String::new(); let mut i = 0; let mut prev = ' ';
    while i < b.len() {
        let c = b[i];
        if c.is_alphabetic() || c == '_' {
            let mut j = i; while j < b.len() && (b[j].is_alphanumeric() || b[j] == '_') { j += 1; }
            let w: String = b[i..j].iter().collect();
            match m.get(&w) { Some(x) if prev != '.' && prev != ':' => r.push_str(x), _ => r.push_str(&w) }
            prev = b[j - 1]; i = j;
        } else if c.is_ascii_digit() { let mut j = i; while j < b.len() && (b[j].is_alphanumeric() || b[j] == '_') { r.push(b[j]); j += 1; } prev = b[j - 1]; i = j; }
        else { if !c.is_whitespace() { // ".." does not make the next identifier a field
                prev = if c == '.' && prev == '.' { ' ' } else { c }; }
            r.push(c); i += 1; }
    }
    r
}

impl<'a> Ex<'a> {
    fn derive_text(&mut self, name: &str, generics: &syn::Generics, fields: &[String], derives: &BTreeSet<String>) -> String {
        let (ig, tg, wh) = generics.split_for_impl();
        let q = |t: &dyn quote::ToTokens| t.to_token_stream().to_string();
        let (ig, tg, wh) = (q(&ig), q(&tg), wh.map(|w| q(w)).unwrap_or_default());
        let mut s = String::new();
        if derives.contains("PartialEq") {
            let b = if fields.is_empty() { "true".into() } else { fields.iter().map(|f| format!("self.{f} == other.{f}")).collect::<Vec<_>>().join(" && ") };
            s += &format!("impl {ig} PartialEq for {name} {tg} {wh} {{ fn eq(&self, other: &Self) -> (ret: bool) {} {{ {} {b} }} }}\n", self.contract(&format!("{}::eq", name)), self.entry(&format!("{}::eq", name)));
        }
        if derives.contains("Eq") { s += &format!("impl {ig} Eq for {name} {tg} {wh} {{}}\n"); }
        let chain = |m: &str, eq: &str| { let mut t = eq.to_string(); for f in fields.iter().rev() { t = format!("match core::cmp::{m}(&self.{f}, &other.{f}) {{ {eq} => {t}, c => c }}"); } t };
        if derives.contains("PartialOrd") {
            s += &format!("impl {ig} PartialOrd for {name} {tg} {wh} {{ fn partial_cmp(&self, other: &Self) -> (ret: Option<core::cmp::Ordering>) {{ {} {} }} }}\n", self.entry(&format!("{}::partial_cmp", name)), chain("PartialOrd::partial_cmp", "Some(core::cmp::Ordering::Equal)"));
        }
        if derives.contains("Ord") {
            s += &format!("impl {ig} Ord for {name} {tg} {wh} {{ fn cmp(&self, other: &Self) -> (ret: core::cmp::Ordering) {{ {} {} }} }}\n", self.entry(&format!("{}::cmp", name)), chain("Ord::cmp", "core::cmp::Ordering::Equal"));
        }
        s
    }
    fn contract(&self, k: &str) -> String { self.spec.fns.get(k).map(|f| f.contract.clone()).unwrap_or_default() }
    fn entry(&mut self, k: &str) -> String { self.used.insert(k.to_string()); self.spec.fns.get(k).map(|f| f.ghost.iter().filter(|g| g.0 == Anchor::Entry).map(|g| g.1.clone()).collect::<Vec<_>>().join("\n")).unwrap_or_default() }

    fn strip_attrs(&mut self, attrs: &[syn::Attribute], ed: &mut Vec<Edit>) -> bool {
        // returns false if the item is disabled by a cfg we do not have
        for a in attrs {
            let p = a.path();
            let (s, e) = off(a.span());
            if p.is_ident("cfg") {
                let t = a.meta.require_list().map(|l| l.tokens.to_string()).unwrap_or_default();
                if self.spec.features.iter().any(|f| t == format!("feature = \"{}\"", f)) { ed.push(Edit { start: s, end: e, text: String::new(), prio: 0 }); }
                else { return false; }
            } else if p.is_ident("derive") || p.is_ident("allow") || p.is_ident("inline") || p.is_ident("must_use") || p.is_ident("doc") {
                ed.push(Edit { start: s, end: e, text: String::new(), prio: 0 });
            }
        }
        true
    }

    /// edits for one function; key: spec path. kind: 0 free/inherent, 1 trait impl, 2 trait declaration
    fn do_fn(&mut self, key: &str, sig: &syn::Signature, vis: Option<&syn::Visibility>, attrs: &[syn::Attribute], block: Option<&syn::Block>, whole: Span, kind: u8, src: &str, line0: usize, ed: &mut Vec<Edit>) -> bool {
        if !self.strip_attrs(attrs, ed) { return false; }
        let start = attrs.iter().map(|a| off(a.span()).1).max().unwrap_or(off(whole).0).max(off(whole).0);
        let start = if attrs.is_empty() { off(whole).0 } else { start };
        let empty = FnSpec::default();
        let fs = self.spec.fns.get(key).unwrap_or(&empty);
        // annotations for two ways of writing a body: `//@has TEXT`, `//@lacks TEXT` (the body without white space)
        let cond; let fs = if fs.loops.iter().map(|x| &x.1).chain(fs.ghost.iter().map(|x| &x.1)).any(|t| t.contains("//@has ") || t.contains("//@lacks ")) {
            let b: String = block.map(|b| off(syn::spanned::Spanned::span(b))).map_or(String::new(), |(s, e)| src[s..e].chars().filter(|c| !c.is_whitespace()).collect());
            let keep = |l: &str| match (l.split_once("//@has "), l.split_once("//@lacks ")) { (Some((_, n)), _) => b.contains(&n.replace(' ', "")), (_, Some((_, n))) => !b.contains(&n.replace(' ', "")), _ => true };
            let f = |t: &String| -> String { t.lines().filter(|l| keep(l)).map(|l| format!("{}\n", l)).collect() };
            cond = { let mut c = fs.clone(); for l in c.loops.iter_mut() { l.1 = f(&l.1); } for g in c.ghost.iter_mut() { g.1 = f(&g.1); } c }; &cond
        } else { fs };
        let has = self.spec.fns.contains_key(key);
        if has { self.used.insert(key.to_string()); }
        if self.spec.drop.contains(key) {
            let (s, e) = off(whole); ed.push(Edit { start: s, end: e, text: String::new(), prio: 0 });
            self.report.dropped.insert(key.into());
            return true;
        }
        let mut problems: Vec<String> = vec![];
        // names
        let params: Vec<String> = sig.inputs.iter().filter_map(|a| match a { syn::FnArg::Typed(t) => Some(match &*t.pat { syn::Pat::Ident(i) => i.ident.to_string(), _ => "_".into() }), _ => None }).collect();
        let mut bi = Bindings(vec![]);
        if let Some(b) = block { bi.visit_block(b); }
        let mut map: BTreeMap<String, String> = BTreeMap::new();
        let rf = &self.reference[key];
        let rparams: Vec<String> = if !fs.params.is_empty() { fs.params.clone() } else { rf["params"].as_array().map(|a| a.iter().map(|x| x.as_str().unwrap().to_string()).collect()).unwrap_or_default() };
        for (a, b) in rparams.iter().zip(&params) { map.insert(a.clone(), b.clone()); }
        if !rparams.is_empty() && rparams.len() != params.len() { problems.push(format!("parameter count changed ({} -> {})", rparams.len(), params.len())); }
        let mut gone: Vec<String> = vec![]; // names that annotations may mention but that are not there any more
        let rb: Vec<String> = rf["bindings"].as_array().map(|a| a.iter().map(|x| x.as_str().unwrap().to_string()).collect()).unwrap_or_default();
        // a result variable `ret` that the annotation at the end speaks of may have become the expression at the end
        let bindret = fs.ghost.iter().any(|(a, t)| *a == Anchor::Tail && mentions(t, &["ret".into()])) && rb.iter().any(|n| n == "ret") && !bi.0.iter().any(|n| n == "ret") && block.map_or(false, |b| matches!(b.stmts.last(), Some(syn::Stmt::Expr(_, None))));
        let rb: Vec<String> = if bindret { rb.into_iter().filter(|n| n != "ret").collect() } else { rb };
        if !rf.is_null() {
            let cur: BTreeSet<&String> = bi.0.iter().collect(); let old: BTreeSet<&String> = rb.iter().collect();
            let mut missing: Vec<&String> = vec![]; for n in &rb { if !cur.contains(n) && !missing.contains(&n) && !rparams.contains(n) { missing.push(n); } }
            let mut fresh: Vec<&String> = vec![]; for n in &bi.0 { if !old.contains(n) && !fresh.contains(&n) && !params.contains(n) { fresh.push(n); } }
            // pair by order; position in the binding list decides if the counts differ
            if missing.len() == fresh.len() { for (a, b) in missing.iter().zip(&fresh) { map.insert(a.to_string(), b.to_string()); } }
            else if rb.len() == bi.0.len() { for (a, b) in rb.iter().zip(&bi.0) { if missing.contains(&a) { map.insert(a.clone(), b.clone()); } } }
            else if !missing.is_empty() && fs.ghost.iter().map(|x| &x.1).chain(fs.loops.iter().map(|x| &x.1)).chain(fs.closures.iter().map(|x| &x.1)).any(|t| mentions(t, &missing.iter().map(|x| x.to_string()).collect::<Vec<_>>())) { problems.push(format!("local variables {:?} not found", missing)); gone = missing.iter().map(|x| x.to_string()).collect(); }
        }
        if self.handmade && fs.ghost.iter().any(|g| g.1.contains("axiom_network_key")) { problems.push("equality or hashing written by hand: not known to agree".into()); }
        let mut lo = Loops(vec![]);
        if let Some(b) = block { lo.visit_block(b); }
        let mut lkinds: Vec<&str> = vec![];
        for l in &lo.0 { lkinds.push(match l { LoopK::For(_) => "for", LoopK::While(_) => "while", LoopK::Loop(_) => "loop" }); }
        if !rf.is_null() {
            let rk: Vec<String> = rf["loops"].as_array().map(|a| a.iter().map(|x| x.as_str().unwrap().to_string()).collect()).unwrap_or_default();
            if rk != lkinds { problems.push(format!("loop structure changed ({:?} -> {:?})", rk, lkinds)); }
        }
        let ranges: Vec<usize> = lo.0.iter().enumerate().filter(|(_, l)| matches!(l, LoopK::For(f) if matches!(&*f.expr, syn::Expr::Range(_)))).map(|x| x.0).collect();
        let ncl = match block { Some(b) => { let mut c = Closures(vec![]); c.visit_block(b); c.0.len() } None => 0 };
        if !rf.is_null() && ncl as u64 > rf["closures"].as_u64().unwrap_or(u64::MAX) { problems.push("closures without contract".into()); }
        let mut calls = Calls(BTreeSet::new());
        if let Some(b) = block { calls.visit_block(b); }
        // tokens for rewriting / anchors
        let mut ft: Vec<Ft> = vec![];
        if let Some(b) = block { flat(quote::ToTokens::to_token_stream(b), &mut ft); }
        let toks: Vec<&str> = ft.iter().map(|f| f.t.as_str()).collect();
        let extb = self.external_body.contains(key) || fs.trust;
        self.newref.insert(key.into(), json!({"params": params, "bindings": bi.0, "loops": lkinds, "ranges": ranges, "closures": ncl}));
        // the ghost output
        let name = sig.ident.to_string();
        let traced = kind == 0 && sig.receiver().is_none() && self.traced.fns.contains(&name) && !fs.trust;
        let (outp, bounds) = if kind == 0 && !fs.trust { out_params(sig) } else { (vec![], vec![]) };
        for (p, bare) in &bounds { ed.push(Edit { start: *p, end: *p, text: format!("{}Tracked<&mut crate::out::Out>", if *bare { "" } else { ", " }), prio: 0 }); }
        if !bounds.is_empty() { *self.report.rewrites.entry("F: Fn(..)  =>  F: Fn(.., Tracked<&mut Out>)  (functions passed as parameters that have no result; calls of the parameter pass the ghost output on)".into()).or_default() += 1; }
        if traced {
            let p = off(sig.paren_token.span.close()).0;
            let comma = if sig.inputs.is_empty() || sig.inputs.trailing_punct() { "" } else { ", " };
            ed.push(Edit { start: p, end: p, text: format!("{}Tracked(vout): Tracked<&mut crate::out::Out>", comma), prio: 0 });
            *self.report.rewrites.entry("fn f(..)  =>  fn f(.., Tracked(vout): Tracked<&mut Out>)  (functions that write output; their calls pass it on)".into()).or_default() += 1;
        }
        if key == "main" { let (_, e) = off(sig.ident.span()); ed.push(Edit { start: e, end: e, text: "_program".into(), prio: 0 }); *self.report.rewrites.entry("fn main  =>  fn main_program".into()).or_default() += 1; }
        // visibility
        if kind == 0 { match vis { Some(syn::Visibility::Inherited) => { let (s, _) = off(sig.span()); ed.push(Edit { start: s, end: s, text: "pub ".into(), prio: 5 }); } _ => {} } }
        let mut at = String::new();
        let ext = fs.external || self.external.contains(key);
        if ext { at += "#[verifier::external] "; } else if extb && block.is_some() { at += "#[verifier::external_body] "; }
        for a in &fs.attrs { at += a; at.push(' '); }
        ed.push(Edit { start, end: start, text: format!("\n/*@fn {} @*/ {}", key, at), prio: 1 });
        let (_, we) = off(whole);
        ed.push(Edit { start: we, end: we, text: "/*@endfn@*/".into(), prio: 9 });
        if !ext {
            // named result
            if let syn::ReturnType::Type(_, t) = &sig.output { let (s, e) = off(t.span()); ed.push(Edit { start: s, end: s, text: "(ret: ".into(), prio: 0 }); ed.push(Edit { start: e, end: e, text: ")".into(), prio: 0 }); }
            let c = rename(&fs.contract, &map);
            if !c.trim().is_empty() {
                let p = match block { Some(b) => off(b.brace_token.span.open()).0, None => we - 1 };
                let c = if block.is_none() { c } else { c };
                ed.push(Edit { start: p, end: p, text: format!("\n{}\n", c), prio: 2 });
            }
        }
        if let (Some(b), true) = (block, extb || self.external.contains(key)) { // the body of a trusted function is not looked at
            let (x, _) = off(b.brace_token.span.open()); let (_, y) = off(b.brace_token.span.close());
            ed.push(Edit { start: x, end: y, text: "{ unimplemented!() }".into(), prio: 0 });
        }
        if let (Some(b), false, false) = (block, extb, ext) {
            // loops
            let n = lo.0.len();
            for (k, t) in &fs.loops {
                if *k >= n { problems.push(format!("loop {} not found", k)); continue; }
                if mentions(t, &gone) { continue; }
                let t = rename(t, &map);
                if let LoopK::For(l) = &lo.0[*k] { if has_continue(&l.body).0 { continue; } }
                let p = match &lo.0[*k] { LoopK::For(l) => off(l.body.brace_token.span.open()).0, LoopK::While(l) => off(l.body.brace_token.span.open()).0, LoopK::Loop(l) => off(l.body.brace_token.span.open()).0 };
                ed.push(Edit { start: p, end: p, text: format!("\n{}\n", t), prio: 2 });
            }
            // `continue` in a for loop: the loop is written out (as Verus itself does, which refuses `continue` there)
            for (k, l) in lo.0.iter().enumerate() { if let LoopK::For(f) = l { let (cont, brk) = has_continue(&f.body); if cont && f.label.is_none() {
                let t = fs.loops.iter().find(|x| x.0 == k).map(|x| rename(&x.1, &map)).unwrap_or_default();
                let mut c = clauses(&t);
                let v = format!("vit{}", k);
                c[0].push_str(&format!(" vstd::std_specs::iter::IteratorSpec::decrease(&{v}.iter) is Some,"));
                c[1].push_str(&format!(" {v}.snapshot@ == {v}_snap, {v}.wf(),"));
                if !brk { c[2].push_str(&format!(" vstd::std_specs::iter::IteratorSpec::will_return_none(&{v}.snapshot@), {v}.index@ == {v}.seq().len(),")); }
                if c[3].trim().is_empty() { c[3] = format!(" vstd::std_specs::iter::IteratorSpec::decrease(&{v}.iter).unwrap_or(arbitrary())"); }
                let mut h = String::new();
                for (n, t) in ["invariant_except_break", "invariant", "ensures", "decreases"].iter().zip(&c) { if !t.trim().is_empty() { h.push_str(&format!("\n{} {}", n, t)); } }
                let (fs_, _) = off(f.for_token.span); let (es, ee) = off(f.expr.span()); let (bs, be) = off(f.body.brace_token.span.open()); let (_, end) = off(f.body.brace_token.span.close());
                let (ps, pe) = off(f.pat.span()); let pat = &src[ps..pe];
                ed.push(Edit { start: fs_, end: es, text: format!("{{ let {v} = vstd::std_specs::iter::VerusForLoopWrapper::new(core::iter::IntoIterator::into_iter("), prio: 0 });
                ed.push(Edit { start: ee, end: bs, text: format!(")); let ghost {v}_snap = {v}.snapshot@; let mut {v} = {v};\n#[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants] loop {h}\n"), prio: 0 });
                ed.push(Edit { start: be, end: be, text: format!(" let ghost {v}_old = {v}; let {pat} = match vstd::std_specs::iter::VerusForLoopWrapper::next(&mut {v}) {{ core::option::Option::Some(x) => x, core::option::Option::None => break }}; proof {{ assert(vstd::std_specs::iter::trigger_peek_implications(vstd::std_specs::iter::IteratorSpec::peek(&{v}_old.snapshot@, {v}_old.index@))); }} let ghost {v} = {v}_old; "), prio: 2 });
                ed.push(Edit { start: end, end, text: " }".into(), prio: 9 });
            } } }
            // `for (i, x) in v.iter().enumerate()` where the loop was over the indices: written out as such
            for (k, l) in lo.0.iter().enumerate() { if let LoopK::For(f) = l {
                if has_continue(&f.body).0 || ranges.contains(&k) || !rf["ranges"].as_array().map(|a| a.iter().any(|x| x.as_u64() == Some(k as u64))).unwrap_or(false) { continue; }
                if let Some((i, x, byval, v)) = enumerated(f) {
                    let (s, e) = off(f.pat.span()); ed.push(Edit { start: s, end: e, text: i.clone(), prio: 0 });
                    let (s, e) = off(f.expr.span()); ed.push(Edit { start: s, end: e, text: format!("0..{}.len()", v), prio: 0 });
                    let (_, e) = off(f.body.brace_token.span.open()); ed.push(Edit { start: e, end: e, text: format!(" let {} = {}{}[{}];", x, if byval { "" } else { "&" }, v, i), prio: -9 });
                    *self.report.rewrites.entry("for (i, x) in v.iter().enumerate() { .. }  =>  for i in 0..v.len() { let x = &v[i]; .. }".into()).or_default() += 1;
                }
            } }
            for (k, l) in lo.0.iter().enumerate() { if let LoopK::For(f) = l { if has_continue(&f.body).0 { continue; } let (s, _) = off(f.expr.span()); if fs.loops.iter().any(|x| x.0 == k) { ed.push(Edit { start: s, end: s, text: format!("vit{}: ", k), prio: -5 }); } } }
            let mut st = Stmts(vec![]); st.visit_block(b);
            let mut cl = Closures(vec![]); cl.visit_block(b);
            // closures that write output or are passed as output functions take the ghost output as an additional parameter
            let mut lc = LetClosures(vec![]); lc.visit_block(b);
            let mut vocl: Vec<usize> = vec![]; let mut vocl_names: BTreeSet<String> = BTreeSet::new();
            if traced {
                let cid = |c: &syn::ExprClosure| off(c.or1_token.span).0;
                let mut fc = FnCalls(vec![]); fc.visit_block(b);
                for c in &fc.0 { if let Some((n, _)) = callee(c) { if let Some(ix) = self.traced.outs.get(&n) { for i in ix { if let Some(a) = c.args.iter().nth(*i) {
                    if let Some(k) = closure_arg(a) { vocl.push(cid(k)); }
                    if let Some(p) = path_arg(a) { for (m, k) in &lc.0 { if *m == p { vocl.push(cid(k)); vocl_names.insert(p.clone()); } } }
                } } } } }
                loop {
                    let before = vocl_names.len();
                    for (m, k) in &lc.0 {
                        let mut ms = Macros(vec![]); ms.visit_expr(&k.body);
                        let mut fc = FnCalls(vec![]); fc.visit_expr(&k.body);
                        if ms.0.iter().any(|m| PRINTS.iter().any(|p| m.path.is_ident(p.0))) || fc.0.iter().filter_map(|c| callee(c)).any(|(n, single)| single && (outp.iter().any(|p| p.0 == n) || vocl_names.contains(&n)) || self.traced.fns.contains(&n) && !(single && bi.0.contains(&n))) { vocl.push(cid(k)); vocl_names.insert(m.clone()); }
                    }
                    if vocl_names.len() == before { break; }
                }
            }
            for (k, t) in &fs.closures { if *k >= cl.0.len() { problems.push(format!("closure {} not found", k)); let _ = t; } }
            for (k, c) in cl.0.iter().enumerate() {
                // parameters that are patterns are bound inside the body; names of the parameters: $0, $1 ...
                fn pname(i: usize, p: &syn::Pat) -> (String, bool) { match p { syn::Pat::Ident(x) if x.subpat.is_none() => (x.ident.to_string(), false), syn::Pat::Type(t) => pname(i, &t.pat), _ => (format!("carg{}", i), true) } }
                let names: Vec<(String, bool)> = c.inputs.iter().enumerate().map(|(i, p)| pname(i, p)).collect();
                let mut lets = String::new();
                for (p, (n, pat)) in c.inputs.iter().zip(&names) { if *pat { let q = match p { syn::Pat::Type(t) => &*t.pat, q => q }; let (x, y) = off(q.span()); if !matches!(q, syn::Pat::Wild(_)) { lets.push_str(&format!(" let {} = {};", &src[x..y], n)); } } }
                let spec = fs.closures.iter().find(|x| x.0 == k).map(|x| { let mut t = rename(&x.1, &map); for (i, (n, _)) in names.iter().enumerate() { t = t.replace(&format!("${}", i), n); } t });
                let vo = vocl.contains(&off(c.or1_token.span).0);
                if spec.is_none() && lets.is_empty() && !vo { continue; }
                if vo { lets.insert_str(0, " let tracked vout = vo.get(); "); *self.report.rewrites.entry("|..| ..  =>  |.., vo: Tracked<&mut Out>| ..  (closures that write output or are passed as output functions)".into()).or_default() += 1; }
                let (o1, _) = off(c.or1_token.span); let (_, o2) = off(c.or2_token.span);
                let body = c.body.span(); let (bs, be) = off(body);
                let mut block_body = match &*c.body { syn::Expr::Block(b) if b.label.is_none() && b.attrs.is_empty() => Some(off(b.block.brace_token.span.open()).1), _ => None };
                match &spec {
                    Some(t) => {
                        // "TYPES | RET | CLAUSES": typed parameter list, return type, requires/ensures
                        let parts: Vec<&str> = t.splitn(3, "|||").collect();
                        if !parts[0].trim().is_empty() { ed.push(Edit { start: o1, end: o2, text: format!("|{}{}|", parts[0].trim(), if vo { ", vo: Tracked<&mut crate::out::Out>" } else { "" }), prio: 0 }); }
                        ed.push(Edit { start: bs, end: bs, text: format!(" -> (cret: {}) {} {}", parts[1].trim(), parts[2].trim(), if block_body.is_some() { "" } else { "{ " }), prio: -3000 });
                    }
                    None => {
                        for (p, (n, pat)) in c.inputs.iter().zip(&names) { if *pat { let q = match p { syn::Pat::Type(t) => &*t.pat, q => q }; let (x, y) = off(q.span()); ed.push(Edit { start: x, end: y, text: n.clone(), prio: 0 }); } }
                        if vo { let p = off(c.or2_token.span).0; ed.push(Edit { start: p, end: p, text: format!("{}vo: Tracked<&mut crate::out::Out>", if c.inputs.is_empty() || c.inputs.trailing_punct() { "" } else { ", " }), prio: 0 }); }
                        if block_body.is_none() { ed.push(Edit { start: bs, end: bs, text: "{ ".into(), prio: -3000 }); }
                    }
                }
                if !lets.is_empty() { let p = block_body.unwrap_or(bs); ed.push(Edit { start: p, end: p, text: lets, prio: -2999 }); }
                if block_body.take().is_none() { ed.push(Edit { start: be, end: be, text: " }".into(), prio: 3000 }); }
            }
            let loop_body = |k: usize| -> Option<&syn::Block> { lo.0.get(k).map(|l| match l { LoopK::For(l) => &l.body, LoopK::While(l) => &l.body, LoopK::Loop(l) => &l.body }) };
            let loop_span = |k: usize| -> Option<(usize, usize)> { lo.0.get(k).map(|l| match l { LoopK::For(l) => off(l.span()), LoopK::While(l) => off(l.span()), LoopK::Loop(l) => off(l.span()) }) };
            if self.probe { let p = off(b.brace_token.span.open()).1; ed.push(Edit { start: p, end: p, text: format!("/*@probe@*/ proof {{ assert(false); }}\n"), prio: 4 }); }
            for (i, (a, t)) in fs.ghost.iter().enumerate() {
                if mentions(t, &gone) { continue; }
                let t = format!("\n{}\n", rename(t, &map));
                let i = i as i32;
                match a {
                    Anchor::Entry => { let p = off(b.brace_token.span.open()).1; ed.push(Edit { start: p, end: p, text: t, prio: 3 }); }
                    Anchor::Tail if bindret && mentions(&t, &["ret".into()]) => {
                        let (x, y) = off(b.stmts.last().unwrap().span());
                        ed.push(Edit { start: x, end: x, text: "let ret = ".into(), prio: -1500 });
                        ed.push(Edit { start: y, end: y, text: format!(";{}ret", t), prio: 2000 });
                    }
                    Anchor::Tail => {
                        let p = match b.stmts.last() { Some(s @ syn::Stmt::Expr(_, None)) => off(s.span()).0, _ => off(b.brace_token.span.close()).0 };
                        ed.push(Edit { start: p, end: p, text: t, prio: -2000 + i });
                    }
                    Anchor::Body(k) => match loop_body(*k) { Some(b) => { let p = off(b.brace_token.span.open()).1; ed.push(Edit { start: p, end: p, text: t, prio: 3 }); } None => problems.push(format!("loop {} not found", k)) },
                    Anchor::BodyEnd(k) => match loop_body(*k) { Some(b) => { let p = match b.stmts.last() { Some(s @ syn::Stmt::Expr(_, None)) if false => off(s.span()).0, _ => off(b.brace_token.span.close()).0 }; ed.push(Edit { start: p, end: p, text: t, prio: 3 }); } None => problems.push(format!("loop {} not found", k)) },
                    Anchor::Before(k) => match loop_span(*k) { Some(s) => ed.push(Edit { start: s.0, end: s.0, text: t, prio: -2000 + i }), None => problems.push(format!("loop {} not found", k)) },
                    Anchor::After(k) => match loop_span(*k) { Some(s) => ed.push(Edit { start: s.1, end: s.1, text: t, prio: 8 }), None => problems.push(format!("loop {} not found", k)) },
                    Anchor::At(p) | Anchor::AtAfter(p) => {
                        let (p, nth) = match p.rsplit_once("@@") { Some((a, b)) => (a, b.trim().parse::<usize>().unwrap()), None => (p.as_str(), 0) };
                        let mut hits = vec![];
                        for p in p.split("||") {
                            if hits.len() > nth { break; }
                            let pat = pattern(&rename(p, &map)); hits.clear();
                            for s in &st.0 { let mut f = vec![]; flat(quote::ToTokens::to_token_stream(s), &mut f); let mut bd = HashMap::new(); if match_at(&pat, &f, 0, &mut bd).is_some() { hits.push(*s); } }
                        }
                        match hits.get(nth) {
                            None => problems.push(format!("statement {:?} not found", p)),
                            Some(s) => { let (x, y) = off(s.span()); if matches!(a, Anchor::At(_)) { ed.push(Edit { start: x, end: x, text: t, prio: -2000 + i }); } else { ed.push(Edit { start: y, end: y, text: t, prio: 8 }); } }
                        }
                    }
                }
            }
            // a block right after a loop would be taken for the body of the loop
            for k in 0..lo.0.len() { if let Some(sp) = loop_span(k) { if src[sp.1..].trim_start().starts_with('{') { ed.push(Edit { start: sp.1, end: sp.1, text: ";".into(), prio: 2 }); } } }
            // write!, writeln!, format!: the text in pieces
            {
                let mut ms = Macros(vec![]); ms.visit_block(b);
                for m in &ms.0 {
                    let (skip, nl, wr) = if m.path.is_ident("write") { (1, false, true) } else if m.path.is_ident("writeln") { (1, true, true) } else if m.path.is_ident("format") { (0, false, false) } else { continue };
                    let name = m.path.segments[0].ident.to_string();
                    match pieces(m, skip) {
                        None => problems.push(format!("arguments of {}! not understood", name)),
                        Some((lead, ps)) => {
                            let (s, _) = off(m.path.span());
                            let e = match &m.delimiter { syn::MacroDelimiter::Paren(p) => off(p.span.close()).1, syn::MacroDelimiter::Brace(p) => off(p.span.close()).1, syn::MacroDelimiter::Bracket(p) => off(p.span.close()).1 };
                            let head = if wr { format!("crate::text::wr({}, ", &src[lead[0].0..lead[0].1]) } else { "crate::text::string(".into() };
                            emit_pieces(&ps, s, e, &head, nl, ")", ed);
                            *self.report.rewrites.entry(format!("{}!(..)  =>  {}(.., the text in pieces: crate::text::l(\"literal\").v(&value) ..)", name, if wr { "crate::text::wr" } else { "crate::text::string" })).or_default() += 1;
                        }
                    }
                }
            }
            if traced {
                let mut ms = Macros(vec![]); ms.visit_block(b);
                for m in &ms.0 { if let Some((_, w, nl)) = PRINTS.iter().find(|p| m.path.is_ident(p.0)) {
                    match pieces(m, 0) {
                        None => problems.push(format!("arguments of {}! not understood", m.path.segments[0].ident)),
                        Some((_, ps)) => {
                            let (s, _) = off(m.path.span());
                            let e = match &m.delimiter { syn::MacroDelimiter::Paren(p) => off(p.span.close()).1, syn::MacroDelimiter::Brace(p) => off(p.span.close()).1, syn::MacroDelimiter::Bracket(p) => off(p.span.close()).1 };
                            emit_pieces(&ps, s, e, &format!("crate::out::{}(", w), *nl, ", Tracked(&mut *vout))", ed);
                            *self.report.rewrites.entry(format!("{}!(..)  =>  crate::out::{}(the text in pieces, Tracked(vout))  (appends to the ghost output)", m.path.segments[0].ident, w)).or_default() += 1;
                        }
                    }
                } }
                let mut fc = FnCalls(vec![]); fc.visit_block(b);
                for c in &fc.0 { if let Some((n, single)) = callee(c) {
                    let z = off(c.paren_token.span.close());
                    let comma = if c.args.is_empty() || c.args.trailing_punct() { "" } else { ", " };
                    if single && (outp.iter().any(|p| p.0 == n) || vocl_names.contains(&n)) || self.traced.fns.contains(&n) && !(single && bi.0.contains(&n)) {
                        ed.push(Edit { start: z.0, end: z.0, text: format!("{}Tracked(&mut *vout)", comma), prio: 4001 });
                    }
                } }
            }
            // token rewrites
            let mut covered: Vec<(usize, usize)> = vec![];
            for (pt, rp, own) in self.spec.rewrites.iter().map(|r| (&r.0, &r.1, false)).chain(fs.rewrites.iter().map(|r| (&r.0, &r.1, true))) {
                let pat = pattern(&rename(pt, &map));
                let mut i = 0; let mut hit = 0;
                while i < ft.len() {
                    let mut bd = HashMap::new();
                    if let Some(e) = match_at(&pat, &ft, i, &mut bd) { if e > i {
                        let mut r = rename(rp, &map);
                        let mut names: Vec<_> = bd.iter().collect(); names.sort_by_key(|x| std::cmp::Reverse(x.0.len()));
                        for (n, (x, y)) in names { let tx = &src[ft[*x].s..ft[*y - 1].e]; r = r.replace(&format!("$${}", n), tx).replace(&format!("${}", n), tx); }
                        // drop other edits inside a rewritten range
                        let (s, e2) = (ft[i].s, ft[e - 1].e); covered.push((s, e2));
                        ed.push(Edit { start: s, end: e2, text: r, prio: 0 });
                        *self.report.rewrites.entry(format!("{}  =>  {}", pt.trim(), rp.trim())).or_default() += 1;
                        hit += 1; i = e; continue;
                    } }
                    i += 1;
                }
                if own && hit == 0 { problems.push(format!("rewrite pattern {:?} not found", pt.trim())); }
            }
            // method calls turned into calls of contract-carrying wrappers
            let mut ms = Methods(vec![]); ms.visit_block(b);
            for m in &ms.0 {
                for (mn, pre, func, nargs) in &self.spec.methods {
                    // a chain a.b: the receiver of b is a call of a
                    let names: Vec<&str> = mn.split('.').collect();
                    let mut links = vec![*m]; let mut ok = m.method == names[names.len() - 1] && nargs.map(|n| n == m.args.len()).unwrap_or(true);
                    for n in names.iter().rev().skip(1) { if !ok { break; } match &*links.last().unwrap().receiver { syn::Expr::MethodCall(r) if r.method == *n => links.push(r), _ => ok = false } }
                    if !ok { continue; }
                    { let (x, y) = off(m.span()); if covered.iter().any(|c| c.0 <= x && y <= c.1) { break; } }
                    let (s, _) = off(links.last().unwrap().receiver.span());
                    ed.push(Edit { start: s, end: s, text: format!("{}({}", func, pre), prio: -7 });
                    for (j, l) in links.iter().enumerate() {
                        let (ds, _) = off(l.dot_token.span()); let pe = off(l.paren_token.span.open()).1;
                        ed.push(Edit { start: ds, end: pe, text: if l.args.is_empty() { String::new() } else { ", ".into() }, prio: 0 });
                        if j > 0 { let (x, y) = off(l.paren_token.span.close()); ed.push(Edit { start: x, end: y, text: String::new(), prio: 9 }); }
                    }
                    *self.report.rewrites.entry(format!("x.{}(..)  =>  {}({}x, ..)", mn, func, pre)).or_default() += 1;
                    break;
                }
            }
        }
        let _ = toks;
        self.report.fns.insert(key.into(), json!({"line": line0, "contract": has, "problems": problems, "external": ext, "external_body": extb, "trusted_by_spec": fs.trust, "calls": calls.0, "loops": lkinds.len(), "renamed": map.iter().filter(|(a, b)| a != b).map(|(a, b)| format!("{}->{}", a, b)).collect::<Vec<_>>() }));
        true
    }

    fn module(&mut self, path: &str, file: &Path, depth: usize) {
        let src = match std::fs::read_to_string(file) { Ok(s) => s, Err(e) => { self.report.errors.push(format!("{}: {}", file.display(), e)); return; } };
        let (src, plain) = plain(src);
        for (k, n) in plain { if n > 0 { *self.report.rewrites.entry(k.into()).or_default() += n; } }
        let ast = match syn::parse_file(&src) { Ok(a) => a, Err(e) => { self.report.errors.push(format!("{}: {}", file.display(), e)); return; } };
        let modname = path.rsplit("::").next().unwrap_or("").to_string();
        if depth > 0 { self.out += &format!("pub mod {} {{\n", modname); }
        self.out += "#[allow(unused_imports)] use vstd::prelude::*;\n";
        if let Some(t) = self.spec.modules.get(if depth == 0 { "root" } else { path }) { self.out += t; self.out.push('\n'); }
        let pre = if depth == 0 { String::new() } else { format!("{}::", path) };
        let mut subs: Vec<String> = vec![];
        for it in &ast.items {
            let mut ed: Vec<Edit> = vec![];
            let mut extra = String::new();
            let keep = match it {
                syn::Item::Mod(m) => { if !is_cfg_test(&m.attrs) && m.content.is_none() { let mut d = vec![]; if self.strip_attrs(&m.attrs, &mut d) { subs.push(m.ident.to_string()); } } else if m.content.is_some() && !is_cfg_test(&m.attrs) { self.report.dropped.insert(format!("{}{} (inline module)", pre, m.ident)); } false }
                syn::Item::Use(u) => {
                    let k = quote::ToTokens::to_token_stream(u).to_string();
                    let ok = self.strip_attrs(&u.attrs, &mut ed) && !is_cfg_test(&u.attrs) && !self.spec.dropuse.iter().any(|d| k.contains(d.as_str()));
                    if ok { if let syn::Visibility::Inherited = u.vis { let (s, _) = off(u.use_token.span); ed.push(Edit { start: s, end: s, text: "#[allow(unused_imports)] pub ".into(), prio: 0 }); } }
                    else { self.report.dropped.insert(format!("{}{}", pre, k)); }
                    ok
                }
                syn::Item::Const(c) => { let k = format!("{}{}", pre, c.ident); if self.spec.drop.contains(&k) { self.report.dropped.insert(k); false } else { self.strip_attrs(&c.attrs, &mut ed); if let syn::Visibility::Inherited = c.vis { let (s, _) = off(c.const_token.span); ed.push(Edit { start: s, end: s, text: "pub ".into(), prio: 0 }); }
                    if let Some(fs) = self.spec.fns.get(&k) { for a in &fs.attrs { let (s, _) = off(c.const_token.span); ed.push(Edit { start: s, end: s, text: format!("{} ", a), prio: -1 }); }
                        if !fs.contract.trim().is_empty() { // const with a contract: exec const NAME: T ensures .. { body }
                            self.used.insert(k.clone());
                            let (s, e) = off(c.const_token.span); ed.push(Edit { start: s, end: e, text: format!("exec const"), prio: 1 });
                            let (s, e) = off(c.eq_token.span); ed.push(Edit { start: s, end: e, text: format!("\n{}\n{{ {}", fs.contract, fs.ghost.iter().map(|g| g.1.clone()).collect::<Vec<_>>().join("\n")), prio: 0 });
                            let (s, e) = off(c.semi_token.span); ed.push(Edit { start: s, end: e, text: "}".into(), prio: 0 });
                        } }
                    true } }
                syn::Item::Static(s) if { let mut v = RegexNew(vec![]); v.visit_expr(&s.expr); v.0.len() == 1 } => {
                    let mut v = RegexNew(vec![]); v.visit_expr(&s.expr);
                    let term = v.0.pop().unwrap().and_then(|p| regex_term(&p));
                    let (n, x) = (s.ident.to_string(), format!("ast_{}", s.ident));
                    let spec = match &term { Some(t) => format!("pub open spec fn {x}() -> crate::rx::Rx {{ {t} }}"), None => format!("pub uninterp spec fn {x}() -> crate::rx::Rx;") };
                    let (a, z) = off(s.span());
                    ed.push(Edit { start: a, end: z, text: format!("{spec}\n#[verifier::external_body] pub exec const {n}: crate::rx::Regex ensures {n}.ast() == {x}() {{ crate::rx::Regex {{ x: () }} }}\n"), prio: 0 });
                    *self.report.rewrites.entry(format!("static {n}: Lazy<Regex> = Regex::new(\"..\")  =>  const {n}: crate::rx::Regex with its pattern as a term{}", if term.is_some() { "" } else { " (not understood: unspecified)" })).or_default() += 1;
                    true
                }
                syn::Item::Static(s) => { self.report.dropped.insert(format!("{}{} (static)", pre, s.ident)); false }
                syn::Item::Type(t) => { self.strip_attrs(&t.attrs, &mut ed); true }
                syn::Item::Struct(s) => {
                    let mut der = BTreeSet::new();
                    for a in &s.attrs { if a.path().is_ident("derive") { let mut f = vec![]; flat(a.meta.require_list().unwrap().tokens.clone(), &mut f); for t in f { der.insert(t.t); } } }
                    self.strip_attrs(&s.attrs, &mut ed);
                    let mut fl = vec![];
                    for f in &s.fields { if let Some(i) = &f.ident { fl.push(i.to_string()); if let syn::Visibility::Inherited = f.vis { let (a, _) = off(i.span()); ed.push(Edit { start: a, end: a, text: "pub ".into(), prio: 0 }); } } }
                    if let syn::Visibility::Inherited = s.vis { let (a, _) = off(s.struct_token.span); ed.push(Edit { start: a, end: a, text: "pub ".into(), prio: 1 }); }
                    let keepd: Vec<&str> = ["Clone", "Copy", "Debug", "Hash"].into_iter().filter(|d| der.contains(*d)).collect();
                    let (a, _) = off(s.struct_token.span); let a = match &s.vis { syn::Visibility::Inherited => a, v => off(v.span()).0 };
                    if !keepd.is_empty() { ed.push(Edit { start: a, end: a, text: format!("#[derive({})] ", keepd.join(", ")), prio: -3 }); }
                    let key = format!("{}{}", pre, s.ident);
                    if self.spec.nocmp.contains(&key) { der.remove("Ord"); der.remove("PartialOrd"); }
                    // spec keys of derived functions: path::Type::eq etc
                    let save = s.ident.to_string();
                    extra = format!("/*@fn derive:{} @*/ {} /*@endfn@*/\n", key, self.derive_text(&save, &s.generics, &fl, &der));
                    if der.iter().any(|d| ["PartialEq", "PartialOrd", "Ord"].contains(&d.as_str())) { self.report.fns.insert(format!("derive:{}", key), json!({"line": s.span().start().line, "contract": true, "problems": [], "external": false, "external_body": false, "trusted_by_spec": false, "calls": [], "loops": 0, "renamed": []})); }
                    true
                }
                syn::Item::Enum(e) => {
                    self.strip_attrs(&e.attrs, &mut ed);
                    let key = format!("{}{}", pre, e.ident);
                    let mut der = BTreeSet::new();
                    for a in &e.attrs { if a.path().is_ident("derive") { let mut f = vec![]; flat(a.meta.require_list().unwrap().tokens.clone(), &mut f); for t in f { der.insert(t.t); } } }
                    let keepd: Vec<&str> = ["Clone", "Copy", "Debug", "Hash", "PartialEq", "Eq"].into_iter().filter(|d| der.contains(*d)).collect();
                    if !keepd.is_empty() { let (a, _) = off(e.enum_token.span); let a = match &e.vis { syn::Visibility::Inherited => a, v => off(v.span()).0 }; ed.push(Edit { start: a, end: a, text: format!("#[derive({})] ", keepd.join(", ")), prio: -3 }); }
                    if let syn::Visibility::Inherited = e.vis { let (a, _) = off(e.enum_token.span); ed.push(Edit { start: a, end: a, text: "pub ".into(), prio: 1 }); }
                    if self.spec.drop.contains(&key) { self.report.dropped.insert(key); false } else {
                        let (a, _) = off(e.enum_token.span); let a = match &e.vis { syn::Visibility::Inherited => a, v => off(v.span()).0 };
                        if let Some(fs) = self.spec.fns.get(&key) { for t in &fs.attrs { ed.push(Edit { start: a, end: a, text: format!("{} ", t), prio: -4 }); } }
                        true }
                }
                syn::Item::Fn(f) => {
                    if is_cfg_test(&f.attrs) { false } else {
                        let key = format!("{}{}", pre, f.sig.ident);
                        self.do_fn(&key, &f.sig, Some(&f.vis), &f.attrs, Some(&f.block), f.span(), 0, &src, f.span().start().line, &mut ed)
                    }
                }
                syn::Item::Trait(t) => {
                    let key = format!("{}{}", pre, t.ident);
                    self.strip_attrs(&t.attrs, &mut ed);
                    if let Some(ts) = self.spec.traits.get(&key) {
                        self.used.insert(key.clone());
                        if !ts.supers.is_empty() { let p = off(t.brace_token.span.open()).0; ed.push(Edit { start: p, end: p, text: format!("+ {} ", ts.supers), prio: 0 }); }
                        let p = off(t.brace_token.span.open()).1; ed.push(Edit { start: p, end: p, text: format!("\n{}\n", ts.items), prio: 0 });
                    }
                    for i in &t.items { if let syn::TraitItem::Fn(f) = i { self.do_fn(&format!("{}::{}", key, f.sig.ident), &f.sig, None, &f.attrs, f.default.as_ref(), f.span(), 2, &src, f.span().start().line, &mut ed); } }
                    true
                }
                syn::Item::Impl(im) => {
                    let ty = match &*im.self_ty { syn::Type::Path(p) => p.path.segments.last().unwrap().ident.to_string(), _ => "?".into() };
                    let tr = im.trait_.as_ref().map(|t| t.1.segments.last().unwrap().ident.to_string());
                    let ikey = match &tr { Some(t) => format!("{}{}:{}", pre, ty, t), None => format!("{}{}", pre, ty) };
                    if self.spec.drop.contains(&ikey) { self.report.dropped.insert(ikey.clone()); false }
                    else {
                        self.strip_attrs(&im.attrs, &mut ed);
                        if self.spec.externals.contains(&ikey) { let (a, _) = off(im.impl_token.span); ed.push(Edit { start: a, end: a, text: "#[verifier::external] ".into(), prio: 0 }); self.report.dropped.insert(format!("{} (kept, not verified)", ikey)); }
                        else {
                            if let Some(ts) = self.spec.traits.get(&ikey) { self.used.insert(ikey.clone()); let p = off(im.brace_token.span.open()).1; ed.push(Edit { start: p, end: p, text: format!("\n{}\n", ts.items), prio: 0 }); }
                            for i in &im.items { if let syn::ImplItem::Fn(f) = i {
                                if is_cfg_test(&f.attrs) { let (s, e) = off(f.span()); ed.push(Edit { start: s, end: e, text: String::new(), prio: 0 }); continue; }
                                let k1 = format!("{}{}::{}", pre, ty, f.sig.ident);
                                let ok = self.do_fn(&k1, &f.sig, if tr.is_some() { None } else { Some(&f.vis) }, &f.attrs, Some(&f.block), f.span(), if tr.is_some() { 1 } else { 0 }, &src, f.span().start().line, &mut ed);
                                if !ok { let (s, e) = off(f.span()); ed.push(Edit { start: s, end: e, text: String::new(), prio: 0 }); }
                            } }
                        }
                        true
                    }
                }
                other => { let k = quote::ToTokens::to_token_stream(other).to_string(); self.report.dropped.insert(format!("{}{}", pre, &k[..k.len().min(60)])); false }
            };
            if keep {
                let (s, e) = off(it.span());
                self.out += &apply(&src, s, e, ed, &mut self.report.errors);
                self.out.push('\n');
                self.out += &extra;
            }
        }
        for s in subs {
            let dir = file.parent().unwrap();
            let stem = file.file_stem().unwrap().to_string_lossy().to_string();
            let base: PathBuf = if stem == "main" || stem == "lib" || stem == "mod" { dir.to_path_buf() } else { dir.join(&stem) };
            let c1 = base.join(format!("{}.rs", s)); let c2 = base.join(&s).join("mod.rs");
            let f = if c1.exists() { c1 } else { c2 };
            let p = if depth == 0 { s.clone() } else { format!("{}::{}", path, s) };
            if self.spec.drop.contains(&p) { self.report.dropped.insert(format!("{} (module)", p)); continue; }
            self.module(&p, &f, depth + 1);
        }
        if depth > 0 { self.out += "}\n"; }
    }
}

fn apply(src: &str, s: usize, e: usize, mut ed: Vec<Edit>, errors: &mut Vec<String>) -> String {
    // replacement ranges win over insertions strictly inside them
    let reps: Vec<(usize, usize)> = ed.iter().filter(|x| x.end > x.start).map(|x| (x.start, x.end)).collect();
    ed.retain(|x| !(reps.iter().any(|r| if x.start == x.end { x.start > r.0 && x.start < r.1 } else { (x.start > r.0 || x.end < r.1) && x.start >= r.0 && x.end <= r.1 })));
    ed.sort_by_key(|x| (x.start, if x.end > x.start { 1 } else { 0 }, x.prio));
    let mut r = String::new(); let mut p = s;
    for x in ed {
        if x.start < p { errors.push(format!("overlapping edit: {:?}", x.text)); continue; }
        r += &src[p..x.start]; r += &x.text; p = x.end;
    }
    r += &src[p..e];
    r
}

fn mentions(t: &str, names: &[String]) -> bool { !names.is_empty() && t.split(|c: char| !(c.is_alphanumeric() || c == '_')).any(|w| names.iter().any(|n| n == w)) }

fn main() {
    let av: Vec<String> = std::env::args().collect();
    let repo = Path::new(&av[1]); let specdir = Path::new(&av[2]);
    let mut eb = BTreeSet::new(); let mut exs = BTreeSet::new(); let mut probe = false; let mut reference = Value::Null; let mut wref = None;
    let mut i = 5;
    while i < av.len() { match av[i].as_str() { "--external-body" => { eb.insert(av[i + 1].clone()); } "--external" => { exs.insert(av[i + 1].clone()); } "--probe" => probe = av[i + 1] == "1", "--reference" => { reference = serde_json::from_str(&std::fs::read_to_string(&av[i + 1]).unwrap_or("null".into())).unwrap_or(Value::Null); } "--write-reference" => wref = Some(av[i + 1].clone()), _ => panic!("argument") } i += 2; }
    let mut spec = Spec::load(specdir);
    // optional contracts: lines ending in `//@if NAME` are kept only if the sources mention NAME
    let text = { let mut w = String::new(); let mut todo = vec![repo.join("src")]; while let Some(p) = todo.pop() { if p.is_dir() { if let Ok(d) = std::fs::read_dir(&p) { todo.extend(d.flatten().map(|e| e.path())); } } else if let Ok(t) = std::fs::read_to_string(&p) { w += &t; } } w };
    let used = |n: &str| if n.contains("::") { text.contains(n) } else { text.contains(&format!(".{}(", n)) || text.contains(&format!("::{}(", n)) };
    // ... lines ending in `//@unless A|B` only if they contain none of the texts, in `//@when A|B` only if they contain one
    let any = |n: &str| n.trim().split('|').any(|w| text.contains(w));
    for t in spec.modules.values_mut() { if t.contains("//@unless ") || t.contains("//@when ") { *t = t.lines().filter(|l| match (l.rsplit_once("//@unless "), l.rsplit_once("//@when ")) { (Some((_, n)), _) => !any(n), (_, Some((_, n))) => any(n), _ => true }).map(|l| format!("{}\n", l)).collect(); } }
    for t in spec.modules.values_mut() { if t.contains("//@if ") { *t = t.lines().filter(|l| match l.rsplit_once("//@if ") { Some((_, n)) => used(n.trim()), None => true }).map(|l| format!("{}\n", l)).collect(); } }
    let mut ex = Ex { spec: &spec, external_body: &eb, external: &exs, probe, reference: &reference, newref: Default::default(), report: Report { fns: Default::default(), rewrites: Default::default(), dropped: Default::default(), errors: vec![] }, used: Default::default(), traced: find_traced(repo, &spec), handmade: any("Hash for|PartialEq for|Eq for"), out: String::new() };
    ex.out += "// generated by tools/extract from the sources of the repository; do not edit\n#![feature(sized_hierarchy, pattern)]\n#![allow(unused_imports, unused_variables, dead_code, unused_mut, unused_parens, unused_braces, unreachable_code, non_snake_case, non_shorthand_field_patterns)]\n";
    ex.out += &spec.header; ex.out += "\nverus! {\n";
    ex.module("", &repo.join("src/main.rs"), 0);
    ex.out += "\n} // verus!\n";
    let unused: Vec<String> = spec.fns.keys().chain(spec.traits.keys()).filter(|k| !ex.used.contains(*k) && k.contains("::") ).cloned().collect();
    std::fs::write(&av[3], &ex.out).unwrap();
    let rep = json!({"functions": ex.report.fns, "rewrites": ex.report.rewrites, "dropped": ex.report.dropped, "errors": ex.report.errors, "contracts_without_function": unused, "properties": spec.properties});
    std::fs::write(&av[4], serde_json::to_string_pretty(&rep).unwrap()).unwrap();
    if let Some(w) = wref { std::fs::write(w, serde_json::to_string_pretty(&Value::Object(ex.newref)).unwrap() + "\n").unwrap(); }
}
