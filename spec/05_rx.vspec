%# Regular expressions: what a pattern of the kind used here matches; the regex crate (trusted). The patterns themselves are translated from the literals in the source on every run.
%module root
pub mod rx {
    use vstd::prelude::*;
    use crate::text::*;
    /// ranges of characters
    pub type Class = Seq<(char, char)>;
    pub open spec fn in_class(c: Class, x: char) -> bool { exists|i: int| 0 <= i < c.len() && (#[trigger] c[i]).0 <= x && x <= c[i].1 }
    pub enum Rx {
        Empty,
        /// one character, one or more characters
        One(Class), Many(Class),
        Cat(Box<Rx>, Box<Rx>), Opt(Box<Rx>), Alt(Box<Rx>, Box<Rx>),
        /// a group with a name
        Name(Seq<char>, Box<Rx>),
    }
    pub open spec fn empty() -> Rx { Rx::Empty }
    pub open spec fn one(c: Class) -> Rx { Rx::One(c) }
    pub open spec fn many(c: Class) -> Rx { Rx::Many(c) }
    pub open spec fn cat(a: Rx, b: Rx) -> Rx { Rx::Cat(Box::new(a), Box::new(b)) }
    pub open spec fn opt(a: Rx) -> Rx { Rx::Opt(Box::new(a)) }
    pub open spec fn alt(a: Rx, b: Rx) -> Rx { Rx::Alt(Box::new(a), Box::new(b)) }
    pub open spec fn name(n: Seq<char>, a: Rx) -> Rx { Rx::Name(n, Box::new(a)) }
    /// the texts of the named groups
    pub type Env = spec_fn(Seq<char>) -> Option<Seq<char>>;
    pub open spec fn all_in(c: Class, s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> in_class(c, #[trigger] s[i]) }
    /// no group of r took part
    pub open spec fn unset(r: Rx, e: Env) -> bool decreases r {
        match r { Rx::Cat(a, b) => unset(*a, e) && unset(*b, e), Rx::Alt(a, b) => unset(*a, e) && unset(*b, e), Rx::Opt(a) => unset(*a, e), Rx::Name(n, a) => e(n) is None && unset(*a, e), _ => true }
    }
    pub open spec fn cut(k: int, s: Seq<char>) -> bool { 0 <= k <= s.len() }
    /// the whole text s is matched by r with the groups e
    pub open spec fn m(r: Rx, s: Seq<char>, e: Env) -> bool decreases r {
        match r {
            Rx::Empty => s.len() == 0,
            Rx::One(c) => s.len() == 1 && in_class(c, s[0]),
            Rx::Many(c) => s.len() > 0 && all_in(c, s),
            Rx::Cat(a, b) => exists|k: int| #[trigger] cut(k, s) && m(*a, s.take(k), e) && m(*b, s.skip(k), e),
            Rx::Opt(a) => m(*a, s, e) || s.len() == 0 && unset(*a, e),
            Rx::Alt(a, b) => m(*a, s, e) && unset(*b, e) || m(*b, s, e) && unset(*a, e),
            Rx::Name(n, a) => e(n) == Some(s) && m(*a, s, e),
        }
    }
    pub open spec fn matches(r: Rx, s: Seq<char>) -> bool { exists|e: Env| #[trigger] m(r, s, e) }
    // ------------------------------------------------------------------ the regex crate (trusted)
    pub struct Regex { pub x: () }
    impl Regex { pub uninterp spec fn ast(&self) -> Rx; }
    #[verifier::external_body]
    pub struct Captures<'h> { x: &'h str }
    impl<'h> Captures<'h> { pub uninterp spec fn env(&self) -> Env; }
    #[verifier::external_body]
    pub struct Match<'h> { x: &'h str }
    impl<'h> Match<'h> { pub uninterp spec fn view(&self) -> Seq<char>; }
    impl Regex {
        #[verifier::external_body] pub fn captures<'h>(&self, s: &'h str) -> (ret: Option<Captures<'h>>) ensures ret is None ==> !matches(self.ast(), s@), ret is Some ==> m(self.ast(), s@, ret->0.env()) { unimplemented!() }
        #[verifier::external_body] pub fn is_match(&self, s: &str) -> (ret: bool) ensures ret == matches(self.ast(), s@) { unimplemented!() }
    }
    impl<'h> Captures<'h> {
        #[verifier::external_body] pub fn name(&self, n: &str) -> (ret: Option<Match<'h>>) ensures ret is Some <==> self.env()(n@) is Some, ret is Some ==> ret->0@ == self.env()(n@)->0 { unimplemented!() }
    }
    impl<'h> Match<'h> { #[verifier::external_body] pub fn as_str(&self) -> (ret: &'h str) ensures ret@ == self@ { unimplemented!() } }
    // ------------------------------------------------------------------ lemmas
    pub proof fn lemma_cat(a: Rx, b: Rx, s: Seq<char>, t: Seq<char>, e: Env) requires m(a, s, e), m(b, t, e) ensures m(cat(a, b), s + t, e) {
        let u = s + t; let k = s.len() as int; assert(u.take(k) =~= s); assert(u.skip(k) =~= t); assert(cut(k, u));
    }
    /// no groups
    pub open spec fn plain(r: Rx) -> bool decreases r {
        match r { Rx::Cat(a, b) => plain(*a) && plain(*b), Rx::Alt(a, b) => plain(*a) && plain(*b), Rx::Opt(a) => plain(*a), Rx::Name(n, a) => false, _ => true }
    }
    pub proof fn lemma_plain_unset(r: Rx, e: Env) requires plain(r) ensures unset(r, e) decreases r {
        match r { Rx::Cat(a, b) => { lemma_plain_unset(*a, e); lemma_plain_unset(*b, e); } Rx::Alt(a, b) => { lemma_plain_unset(*a, e); lemma_plain_unset(*b, e); } Rx::Opt(a) => { lemma_plain_unset(*a, e); } _ => {} }
    }
    pub proof fn lemma_plain_env(r: Rx, s: Seq<char>, e: Env, f: Env) requires plain(r), m(r, s, e) ensures m(r, s, f) decreases r {
        match r {
            Rx::Cat(a, b) => { let k = choose|k: int| #[trigger] cut(k, s) && m(*a, s.take(k), e) && m(*b, s.skip(k), e); lemma_plain_env(*a, s.take(k), e, f); lemma_plain_env(*b, s.skip(k), e, f); assert(cut(k, s)); }
            Rx::Opt(a) => { if m(*a, s, e) { lemma_plain_env(*a, s, e, f); } else { lemma_plain_unset(*a, f); } }
            Rx::Alt(a, b) => { lemma_plain_unset(*a, f); lemma_plain_unset(*b, f); if m(*a, s, e) { lemma_plain_env(*a, s, e, f); } else { lemma_plain_env(*b, s, e, f); } }
            _ => {}
        }
    }
    /// only characters of c
    pub open spec fn over(r: Rx, c: Class) -> bool decreases r {
        match r {
            Rx::Empty => true,
            Rx::One(d) => forall|x: char| #[trigger] in_class(d, x) ==> in_class(c, x),
            Rx::Many(d) => forall|x: char| #[trigger] in_class(d, x) ==> in_class(c, x),
            Rx::Cat(a, b) => over(*a, c) && over(*b, c), Rx::Alt(a, b) => over(*a, c) && over(*b, c), Rx::Opt(a) => over(*a, c), Rx::Name(n, a) => over(*a, c),
        }
    }
    pub proof fn lemma_over(r: Rx, c: Class, s: Seq<char>, e: Env) requires over(r, c), m(r, s, e) ensures all_in(c, s) decreases r {
        match r {
            Rx::Cat(a, b) => { let k = choose|k: int| #[trigger] cut(k, s) && m(*a, s.take(k), e) && m(*b, s.skip(k), e); lemma_over(*a, c, s.take(k), e); lemma_over(*b, c, s.skip(k), e);
                assert forall|i: int| 0 <= i < s.len() implies in_class(c, #[trigger] s[i]) by { if i < k { assert(in_class(c, s.take(k)[i])); } else { assert(in_class(c, s.skip(k)[i - k])); } } }
            Rx::Opt(a) => { if m(*a, s, e) { lemma_over(*a, c, s, e); } }
            Rx::Alt(a, b) => { if m(*a, s, e) { lemma_over(*a, c, s, e); } else { lemma_over(*b, c, s, e); } }
            Rx::Name(n, a) => { lemma_over(*a, c, s, e); }
            _ => {}
        }
    }
}
