%# The ghost output: the text a run has written so far, to standard output and to standard error. println!, eprintln! and the like append to it (trusted).
%# Color codes are left out: the output of a run is what remains when they are removed.
%module root
pub mod out {
    use vstd::prelude::*;
    /// the text a value is displayed as (color codes left out)
    pub uninterp spec fn shown<T: ?Sized>(x: &T) -> Seq<char>;
    /// a reference is displayed like what it refers to
    pub broadcast axiom fn axiom_shown_ref<T: ?Sized>(x: &T) ensures #[trigger] shown::<&T>(&x) == shown::<T>(x);
    pub struct Io { pub out: Seq<char>, pub err: Seq<char> }
    #[verifier::external_body]
    pub tracked struct Out { x: () }
    impl Out { pub uninterp spec fn view(&self) -> Io; }
    /// something was written to standard error and nothing to standard output
    pub open spec fn complained(a: Io, b: Io) -> bool { b.out == a.out && a.err.len() < b.err.len() }
    /// x was written to standard output and nothing to standard error
    pub open spec fn wrote(a: Io, b: Io, x: Seq<char>) -> bool { b.out == a.out + x && b.err == a.err }
    pub open spec fn newline() -> Seq<char> { seq!['\n'] }
    /// a line with this text, one showing a value
    pub open spec fn heading(t: Seq<char>) -> Seq<char> { t + newline() }
    pub open spec fn line<T>(x: T) -> Seq<char> { shown(&x) + newline() }
    pub open spec fn lines<T>(s: Seq<T>) -> Seq<char> decreases s.len() { if s.len() == 0 { seq![] } else { lines(s.drop_last()) + line(s.last()) } }
    pub proof fn lemma_lines<T>(p: Seq<char>, s: Seq<T>, k: int) requires 0 <= k < s.len() ensures (p + lines(s.take(k))) + line(s[k]) == p + lines(s.take(k + 1)) {
        assert(s.take(k + 1).drop_last() =~= s.take(k)); assert(s.take(k + 1).last() == s[k]);
        assert((p + lines(s.take(k))) + line(s[k]) =~= p + lines(s.take(k + 1)));
    }
    pub proof fn lemma_lines_ends<T>(p: Seq<char>, s: Seq<T>) ensures p + lines(s.take(0)) == p, s.take(s.len() as int) == s { assert(s.take(0) =~= Seq::empty()); assert(p + lines(s.take(0)) =~= p); assert(s.take(s.len() as int) =~= s); }
    #[verifier::external_body]
    pub fn put(t: crate::text::Text, Tracked(o): Tracked<&mut Out>) ensures final(o)@ == (Io { out: old(o)@.out + t@, ..old(o)@ }) { unimplemented!() }
    #[verifier::external_body]
    pub fn complain(t: crate::text::Text, Tracked(o): Tracked<&mut Out>) ensures final(o)@ == (Io { err: old(o)@.err + t@, ..old(o)@ }) { unimplemented!() }
    pub proof fn lemma_assoc(a: Seq<char>, b: Seq<char>, c: Seq<char>) ensures (a + b) + c == a + (b + c) { assert((a + b) + c =~= a + (b + c)); }
    pub proof fn lemma_cat_nothing(a: Seq<char>) ensures a + Seq::<char>::empty() == a { assert(a + Seq::<char>::empty() =~= a); }
    /// nothing has been written yet
    pub uninterp spec fn start() -> Io;
    /// std::process::exit: only with the status that belongs to the command line and to what has been written
    #[verifier::external_body]
    pub fn exit(code: i32, Tracked(o): Tracked<&mut Out>) -> ! requires crate::main_post(crate::std_contracts::command_line(), start(), old(o)@, code) { unimplemented!() }
}
