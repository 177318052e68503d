//! Contract files: line-based, see spec/README.
use std::collections::{BTreeMap, BTreeSet};
use std::path::Path;

#[derive(Clone, Debug, PartialEq)]
pub enum Anchor { Entry, Tail, Body(usize), BodyEnd(usize), Before(usize), After(usize), At(String), AtAfter(String) }
#[derive(Clone, Debug, Default)]
pub struct FnSpec { pub params: Vec<String>, pub contract: String, pub loops: Vec<(usize, String)>, pub closures: Vec<(usize, String)>, pub ghost: Vec<(Anchor, String)>, pub attrs: Vec<String>, pub rewrites: Vec<(String, String)>, pub trust: bool, pub external: bool }
#[derive(Clone, Debug, Default)]
pub struct TraitSpec { pub supers: String, pub items: String }
#[derive(Default)]
pub struct Spec {
    pub header: String,
    pub modules: BTreeMap<String, String>,
    pub fns: BTreeMap<String, FnSpec>,
    pub traits: BTreeMap<String, TraitSpec>,
    pub rewrites: Vec<(String, String)>,
    pub methods: Vec<(String, String, String, Option<usize>)>,
    pub drop: BTreeSet<String>,
    pub externals: BTreeSet<String>,
    pub nocmp: BTreeSet<String>,
    pub events: BTreeSet<String>,
    pub dropuse: Vec<String>,
    pub features: Vec<String>,
    pub properties: BTreeMap<String, Vec<String>>,
}
enum Cur { None, Header, Module(String), Contract(String), Loop(String, usize), Closure(String, usize), Ghost(String, usize), TraitItems(String) }
impl Spec {
    pub fn load(dir: &Path) -> Spec {
        let mut s = Spec::default();
        let mut files: Vec<_> = std::fs::read_dir(dir).unwrap().map(|f| f.unwrap().path()).filter(|p| p.extension().map(|e| e == "vspec").unwrap_or(false)).collect();
        files.sort();
        for f in files { s.parse(&std::fs::read_to_string(&f).unwrap(), &f.display().to_string()); }
        s
    }
    fn parse(&mut self, text: &str, fname: &str) {
        let mut cur = Cur::None;
        let mut s_methods = vec![];
        let mut fnkey = String::new();
        for (ln, l) in text.lines().enumerate() {
            if let Some(d) = l.strip_prefix('%') {
                let (k, rest) = d.split_once(char::is_whitespace).unwrap_or((d, ""));
                let rest = rest.trim();
                let num = || rest.parse::<usize>().unwrap_or_else(|_| panic!("{}:{}: number expected", fname, ln + 1));
                macro_rules! ghost { ($a:expr) => {{ let f = self.fns.entry(fnkey.clone()).or_default(); f.ghost.push(($a, String::new())); cur = Cur::Ghost(fnkey.clone(), f.ghost.len() - 1); }} }
                match k {
                    "#" => {}
                    "header" => cur = Cur::Header,
                    "module" => cur = Cur::Module(rest.into()),
                    "fn" => {
                        let (p, ps) = match rest.split_once('(') { Some((a, b)) => (a.trim().to_string(), b.trim_end_matches(')').split(',').map(|x| x.trim().to_string()).filter(|x| !x.is_empty()).collect()), None => (rest.to_string(), vec![]) };
                        fnkey = p.clone(); let f = self.fns.entry(p.clone()).or_default(); if !ps.is_empty() { f.params = ps; }
                        cur = Cur::Contract(p);
                    }
                    "trust" => { self.fns.entry(fnkey.clone()).or_default().trust = true; cur = Cur::Contract(fnkey.clone()); }
                    "external" => { if rest.is_empty() { self.fns.entry(fnkey.clone()).or_default().external = true; } else { self.externals.insert(rest.into()); } cur = Cur::None; }
                    "attr" => { self.fns.entry(fnkey.clone()).or_default().attrs.push(rest.into()); cur = Cur::Contract(fnkey.clone()); }
                    "loop" => { let n = num(); self.fns.entry(fnkey.clone()).or_default().loops.push((n, String::new())); cur = Cur::Loop(fnkey.clone(), self.fns[&fnkey].loops.len() - 1); }
                    "closure" => { let n = num(); self.fns.entry(fnkey.clone()).or_default().closures.push((n, String::new())); cur = Cur::Closure(fnkey.clone(), self.fns[&fnkey].closures.len() - 1); }
                    "entry" => ghost!(Anchor::Entry),
                    "tail" => ghost!(Anchor::Tail),
                    "body" => { let n = num(); ghost!(Anchor::Body(n)) }
                    "bodyend" => { let n = num(); ghost!(Anchor::BodyEnd(n)) }
                    "before" => { let n = num(); ghost!(Anchor::Before(n)) }
                    "after" => { let n = num(); ghost!(Anchor::After(n)) }
                    "at" => ghost!(Anchor::At(rest.to_string())),
                    "atafter" => ghost!(Anchor::AtAfter(rest.to_string())),
                    "rewrite" => { let (a, b) = rest.split_once("=>>").unwrap_or_else(|| panic!("{}:{}: =>> expected", fname, ln + 1)); let r = (a.trim().to_string(), b.trim().to_string()); self.fns.entry(fnkey.clone()).or_default().rewrites.push(r); }
                    "grewrite" => { let (a, b) = rest.split_once("=>>").unwrap_or_else(|| panic!("{}:{}: =>> expected", fname, ln + 1)); self.rewrites.push((a.trim().to_string(), b.trim().to_string())); cur = Cur::None; }
                    "method" => { // NAME[/NARGS] [PREFIX] FUNC
                        let w: Vec<&str> = rest.split_whitespace().collect();
                        let (n, a) = match w[0].split_once('/') { Some((n, a)) => (n, Some(a.parse::<usize>().unwrap())), None => (w[0], None) };
                        s_methods.push((n.to_string(), w[1..w.len() - 1].join(" ") + if w.len() > 2 && !w[w.len() - 2].ends_with('&') { " " } else { "" }, w[w.len() - 1].to_string(), a)); cur = Cur::None;
                    }
                    "trait" | "impl" => { let (p, sup) = rest.split_once('+').unwrap_or((rest, "")); let t = self.traits.entry(p.trim().to_string()).or_default(); if !sup.trim().is_empty() { t.supers = sup.trim().into(); } cur = Cur::TraitItems(p.trim().into()); }
                    "drop" => { self.drop.insert(rest.into()); cur = Cur::None; }
                    "nocmp" => { self.nocmp.insert(rest.into()); cur = Cur::None; }
                    "event" => { self.events.insert(rest.into()); cur = Cur::None; }
                    "dropuse" => { self.dropuse.push(rest.into()); cur = Cur::None; }
                    "feature" => { self.features.push(rest.into()); cur = Cur::None; }
                    "property" => { let (a, b) = rest.split_once(':').unwrap(); self.properties.entry(a.trim().into()).or_default().extend(b.split_whitespace().map(String::from)); cur = Cur::None; }
                    _ => panic!("{}:{}: unknown directive %{}", fname, ln + 1, k),
                }
                continue;
            }
            let add = |t: &mut String| { t.push_str(l); t.push('\n'); };
            match &cur {
                Cur::None => if !l.trim().is_empty() && !l.trim_start().starts_with("//") { panic!("{}:{}: stray text {:?}", fname, ln + 1, l) },
                Cur::Header => add(&mut self.header),
                Cur::Module(m) => add(self.modules.entry(m.clone()).or_default()),
                Cur::Contract(f) => add(&mut self.fns.get_mut(f).unwrap().contract),
                Cur::Loop(f, i) => add(&mut self.fns.get_mut(f).unwrap().loops[*i].1),
                Cur::Closure(f, i) => add(&mut self.fns.get_mut(f).unwrap().closures[*i].1),
                Cur::Ghost(f, i) => add(&mut self.fns.get_mut(f).unwrap().ghost[*i].1),
                Cur::TraitItems(t) => add(&mut self.traits.get_mut(t).unwrap().items),
            }
        }
        self.methods.extend(s_methods);
        self.methods.sort_by_key(|m| std::cmp::Reverse(m.0.matches('.').count()));
    }
}
