%# Texts: numbers in digits, splitting and joining; and the text functions of the standard library (trusted).
%module root
pub mod text {
    use vstd::prelude::*;
    use crate::out::shown;
    use core::str::pattern::Pattern;
    use vstd::std_specs::iter::*;
    /// the sign for a digit and the digit of a sign
    pub open spec fn sign(d: nat) -> char { if d < 10 { (48 + d) as u8 as char } else { (87 + d) as u8 as char } }
    pub open spec fn digit(c: char, radix: nat) -> Option<nat> {
        let d: int = if '0' <= c && c <= '9' { c as u32 - 48 } else if 'a' <= c && c <= 'z' { c as u32 - 87 } else if 'A' <= c && c <= 'Z' { c as u32 - 55 } else { 99 };
        if 0 <= d < radix { Some(d as nat) } else { None }
    }
    /// a number in digits, without leading zeros
    pub open spec fn digits(n: nat, radix: nat) -> Seq<char> decreases n via digits_end { if radix < 2 || n < radix { seq![sign(n)] } else { digits(n / radix, radix).push(sign(n % radix)) } }
    #[via_fn]
    proof fn digits_end(n: nat, radix: nat) { if radix >= 2 && n >= radix { assert(n / radix < n) by (nonlinear_arith) requires n >= radix, radix >= 2; } }
    pub open spec fn dec(n: nat) -> Seq<char> { digits(n, 10) }
    pub open spec fn hex(n: nat) -> Seq<char> { digits(n, 16) }
    /// with leading zeros
    pub open spec fn padded(s: Seq<char>, n: nat) -> Seq<char> decreases n { if s.len() >= n || n == 0 { s } else { seq!['0'] + padded(s, (n - 1) as nat) } }
    /// the number that digits denote: at least one digit, nothing but digits
    pub open spec fn number(s: Seq<char>, radix: nat) -> Option<nat> decreases s.len() {
        if s.len() == 0 { None } else { match (digit(s.last(), radix), number(s.drop_last(), radix)) {
            (Some(d), _) if s.len() == 1 => Some(d),
            (Some(d), Some(n)) => Some(n * radix + d),
            _ => None,
        } }
    }
    pub proof fn lemma_sign(d: nat, radix: nat) requires d < radix <= 16 ensures digit(sign(d), radix) == Some(d), sign(d) != '.', sign(d) != ':', sign(d) != '/', sign(d) != '-', sign(d) != '+' {
        if d < 10 { let u = (48 + d) as u8; assert(u as char as u32 == u as u32); } else { let u = (87 + d) as u8; assert(u as char as u32 == u as u32); }
    }
    pub open spec fn free(s: Seq<char>, c: char) -> bool { forall|i: int| 0 <= i < s.len() ==> s[i] != c }
    /// digits denote their number
    pub proof fn lemma_digits(n: nat, radix: nat) requires 2 <= radix <= 16 ensures number(digits(n, radix), radix) == Some(n), digits(n, radix).len() > 0 decreases n {
        if n < radix { lemma_sign(n, radix); assert(digits(n, radix).drop_last() =~= Seq::empty()); }
        else { assert(n / radix < n) by (nonlinear_arith) requires n >= radix, radix >= 2; lemma_digits(n / radix, radix); lemma_sign(n % radix, radix); assert(digits(n, radix).drop_last() =~= digits(n / radix, radix)); assert(n == (n / radix) * radix + n % radix) by (nonlinear_arith) requires radix >= 2; }
    }
    /// every sign is a digit
    pub proof fn lemma_number(s: Seq<char>, radix: nat) requires number(s, radix) is Some ensures s.len() > 0, forall|i: int| 0 <= i < s.len() ==> digit(#[trigger] s[i], radix) is Some decreases s.len() {
        if s.len() > 1 { lemma_number(s.drop_last(), radix); assert forall|i: int| 0 <= i < s.len() implies digit(#[trigger] s[i], radix) is Some by { if i < s.len() - 1 { assert(s[i] == s.drop_last()[i]); } } }
    }
    pub proof fn lemma_number_free(s: Seq<char>, radix: nat) requires number(s, radix) is Some, radix <= 16 ensures s.len() > 0, free(s, '.'), free(s, ':'), free(s, '/'), free(s, '-'), free(s, '+') { lemma_number(s, radix); assert forall|i: int| 0 <= i < s.len() implies digit(#[trigger] s[i], radix) is Some by { } }
    /// only digits: a number
    pub proof fn lemma_is_number(s: Seq<char>, radix: nat) requires s.len() > 0, forall|i: int| 0 <= i < s.len() ==> digit(#[trigger] s[i], radix) is Some ensures number(s, radix) is Some decreases s.len() {
        assert(digit(s[s.len() - 1], radix) is Some);
        if s.len() > 1 { assert forall|i: int| 0 <= i < s.len() - 1 implies digit(#[trigger] s.drop_last()[i], radix) is Some by { assert(digit(s[i], radix) is Some); } lemma_is_number(s.drop_last(), radix); }
    }
    pub proof fn lemma_zero(s: Seq<char>, radix: nat) requires s.len() > 0, radix > 0 ensures number(seq!['0'] + s, radix) == number(s, radix) decreases s.len() {
        let t = seq!['0'] + s;
        assert(t.drop_last() =~= seq!['0'] + s.drop_last());
        assert(digit('0', radix) == Some(0nat));
        if s.len() == 1 { assert(seq!['0'].drop_last() =~= Seq::empty()); assert(t.drop_last() =~= seq!['0']); assert(number(seq!['0'], radix) == Some(0nat)); assert(0 * radix == 0) by (nonlinear_arith); assert(t.last() == s.last()); }
        else { lemma_zero(s.drop_last(), radix); assert(t.last() == s.last()); }
    }
    pub proof fn lemma_padded(s: Seq<char>, n: nat, radix: nat) requires s.len() > 0, radix > 0 ensures number(padded(s, n), radix) == number(s, radix), padded(s, n).len() > 0, s.len() <= n ==> padded(s, n).len() == n decreases n {
        if s.len() < n { lemma_padded(s, (n - 1) as nat, radix); lemma_zero(padded(s, (n - 1) as nat), radix); }
    }
    /// the parts of s between the signs c
    pub open spec fn split(s: Seq<char>, c: char) -> Seq<Seq<char>> decreases s.len() {
        if s.len() == 0 { seq![Seq::empty()] } else { let p = split(s.drop_last(), c); if s.last() == c { p.push(Seq::empty()) } else { p.drop_last().push(p.last().push(s.last())) } }
    }
    pub open spec fn join(p: Seq<Seq<char>>, t: Seq<char>) -> Seq<char> decreases p.len() { if p.len() == 0 { Seq::empty() } else if p.len() == 1 { p[0] } else { join(p.drop_last(), t) + t + p.last() } }
    pub proof fn lemma_split_len(s: Seq<char>, c: char) ensures split(s, c).len() > 0 decreases s.len() { if s.len() > 0 { lemma_split_len(s.drop_last(), c); } }
    pub proof fn lemma_split_free(s: Seq<char>, c: char) requires free(s, c) ensures split(s, c) == seq![s] decreases s.len() {
        if s.len() > 0 { lemma_split_free(s.drop_last(), c); assert(s.last() == s[s.len() - 1]); assert(split(s, c) =~= seq![s.drop_last().push(s.last())]); assert(s.drop_last().push(s.last()) =~= s); } else { assert(s =~= Seq::empty()); }
    }
    /// no part contains the separator
    pub proof fn lemma_parts_free(s: Seq<char>, c: char) ensures forall|i: int| 0 <= i < split(s, c).len() ==> free(#[trigger] split(s, c)[i], c) decreases s.len() {
        lemma_split_len(s, c);
        if s.len() > 0 { let r = s.drop_last(); lemma_parts_free(r, c); lemma_split_len(r, c); let p = split(r, c); assert(free(p[p.len() - 1], c)); assert forall|i: int| 0 <= i < split(s, c).len() implies free(#[trigger] split(s, c)[i], c) by { if i < p.len() - 1 || s.last() == c && i < p.len() { assert(split(s, c)[i] == p[i]); } } }
    }
    pub proof fn lemma_split_cat(a: Seq<char>, c: char, b: Seq<char>) ensures split(a + seq![c] + b, c) == split(a, c) + split(b, c) decreases b.len() {
        let t = a + seq![c] + b;
        lemma_split_len(b, c);
        if b.len() == 0 { assert(t.drop_last() =~= a); assert(t.last() == c); assert(split(b, c) =~= seq![Seq::<char>::empty()]); assert(split(t, c) =~= split(a, c) + split(b, c)); }
        else {
            let r = b.drop_last(); lemma_split_cat(a, c, r); lemma_split_len(r, c);
            assert(t.drop_last() =~= a + seq![c] + r); assert(t.last() == b.last());
            let (p, q) = (split(a, c), split(r, c));
            assert((p + q).drop_last() =~= p + q.drop_last()); assert((p + q).last() == q.last());
            assert(split(t, c) =~= p + split(b, c));
        }
    }
    /// the parts joined are the text
    pub proof fn lemma_join_split(s: Seq<char>, c: char) ensures join(split(s, c), seq![c]) == s decreases s.len() {
        lemma_split_len(s, c);
        if s.len() > 0 {
            let r = s.drop_last(); lemma_join_split(r, c); lemma_split_len(r, c); let p = split(r, c); let q = split(s, c);
            if s.last() == c { assert(q.drop_last() =~= p); assert(join(q, seq![c]) =~= s); }
            else { assert(q.drop_last() =~= p.drop_last()); if p.len() == 1 { assert(join(q, seq![c]) =~= s); } else { assert(join(q, seq![c]) =~= join(p, seq![c]).push(s.last())); assert(r.push(s.last()) =~= s); } }
        } else { assert(split(s, c)[0] =~= s); }
    }
    pub proof fn lemma_split_join(p: Seq<Seq<char>>, c: char) requires p.len() > 0, forall|i: int| 0 <= i < p.len() ==> free(#[trigger] p[i], c) ensures split(join(p, seq![c]), c) == p decreases p.len() {
        let l = p.last(); assert(free(p[p.len() - 1], c)); lemma_split_free(l, c);
        if p.len() == 1 { assert(p =~= seq![l]); }
        else { let r = p.drop_last(); assert forall|i: int| 0 <= i < r.len() implies free(#[trigger] r[i], c) by { assert(free(p[i], c)); } lemma_split_join(r, c); lemma_split_cat(join(r, seq![c]), c, l); assert(r + seq![l] =~= p); }
    }
    pub proof fn lemma_join_cat(a: Seq<Seq<char>>, b: Seq<Seq<char>>, t: Seq<char>) requires a.len() > 0, b.len() > 0 ensures join(a + b, t) == join(a, t) + t + join(b, t) decreases b.len() {
        if b.len() == 1 { assert((a + b).drop_last() =~= a); }
        else { lemma_join_cat(a, b.drop_last(), t); assert((a + b).drop_last() =~= a + b.drop_last()); assert(join(a + b, t) =~= join(a, t) + t + join(b, t)); }
    }

    // ------------------------------------------------------------------ standard library
    /// what a pattern (char or text) stands for
    pub uninterp spec fn pat<P>(p: P) -> Seq<char>;
    pub broadcast axiom fn axiom_pat_char(c: char) ensures #[trigger] pat::<char>(c) == seq![c];
    pub broadcast axiom fn axiom_pat_str(s: &str) ensures #[trigger] pat::<&str>(s) == s@;
    /// the text of a string-like value
    pub uninterp spec fn chars<T: std::marker::PointeeSized>(x: &T) -> Seq<char>;
    pub broadcast axiom fn axiom_chars_str(s: &str) ensures #[trigger] chars::<str>(s) == s@;
    pub broadcast axiom fn axiom_chars_string(s: &String) ensures #[trigger] chars::<String>(s) == s@;
    pub broadcast axiom fn axiom_chars_char(c: &char) ensures #[trigger] chars::<char>(c) == seq![*c];
    pub broadcast axiom fn axiom_chars_ref<T: std::marker::PointeeSized>(x: &T) ensures #[trigger] chars::<&T>(&x) == chars::<T>(x);
    // how values are displayed
    pub broadcast axiom fn axiom_shown_str(s: &str) ensures #[trigger] shown::<str>(s) == s@;
    pub broadcast axiom fn axiom_shown_string(s: &String) ensures #[trigger] shown::<String>(s) == s@;
    pub broadcast axiom fn axiom_shown_char(c: &char) ensures #[trigger] shown::<char>(c) == seq![*c];
    pub broadcast axiom fn axiom_shown_u8(n: &u8) ensures #[trigger] shown::<u8>(n) == dec(*n as nat);
    pub broadcast axiom fn axiom_shown_u16(n: &u16) ensures #[trigger] shown::<u16>(n) == dec(*n as nat);
    pub broadcast axiom fn axiom_shown_u32(n: &u32) ensures #[trigger] shown::<u32>(n) == dec(*n as nat);
    pub broadcast axiom fn axiom_shown_usize(n: &usize) ensures #[trigger] shown::<usize>(n) == dec(*n as nat);
    /// a format string shows a value as its fmt writes it: to some formatter, fmt has written the text shown
    pub axiom fn axiom_shown<T: std::fmt::Display>(x: &T) ensures exists|f: &mut std::fmt::Formatter| #![all_triggers] call_ensures(<T as std::fmt::Display>::fmt, (x, f), Ok(())) && ftext(final(f)) == ftext(&*f) + shown(x);
    pub proof fn lemma_cancel(o: Seq<char>, s: Seq<char>, t: Seq<char>) requires o + s == o + t ensures s == t {
        let (a, b) = (o + s, o + t); assert(a.len() == b.len()); assert forall|i: int| 0 <= i < s.len() implies s[i] == t[i] by { assert(a[o.len() + i] == b[o.len() + i]); } assert(s =~= t);
    }
    /// {:x}, {:?}
    pub uninterp spec fn shown_hex<T: std::marker::PointeeSized>(x: &T) -> Seq<char>;
    pub uninterp spec fn shown_debug<T: std::marker::PointeeSized>(x: &T) -> Seq<char>;
    pub broadcast axiom fn axiom_hex_u8(n: &u8) ensures #[trigger] shown_hex::<u8>(n) == hex(*n as nat);
    pub broadcast axiom fn axiom_hex_u16(n: &u16) ensures #[trigger] shown_hex::<u16>(n) == hex(*n as nat);
    pub broadcast axiom fn axiom_hex_ref<T: std::marker::PointeeSized>(x: &T) ensures #[trigger] shown_hex::<&T>(&x) == shown_hex::<T>(x);
    pub broadcast group group_text { axiom_pat_char, axiom_pat_str, axiom_chars_str, axiom_chars_string, axiom_chars_char, axiom_chars_ref, axiom_shown_str, axiom_shown_string, axiom_shown_char, axiom_shown_u8, axiom_shown_u16, axiom_shown_u32, axiom_shown_usize, axiom_hex_u8, axiom_hex_u16, axiom_hex_ref, crate::out::axiom_shown_ref, crate::std_contracts::axiom_parsed_u8, crate::std_contracts::axiom_parsed_u16, crate::std_contracts::axiom_parsed_u64, crate::std_contracts::axiom_parsed_u128, crate::std_contracts::axiom_parsed_u32, crate::std_contracts::axiom_parsed_usize }
    /// the text a formatting macro makes, in pieces
    #[verifier::external_body]
    pub struct Text { x: () }
    impl Text {
        pub uninterp spec fn view(&self) -> Seq<char>;
        #[verifier::external_body] pub fn l(self, s: &str) -> (ret: Text) ensures ret@ == self@ + s@ { unimplemented!() }
        #[verifier::external_body] pub fn nl(self) -> (ret: Text) ensures ret@ == self@ + crate::out::newline() { unimplemented!() }
        #[verifier::external_body] pub fn v<T: ?Sized + std::fmt::Display>(self, x: &T) -> (ret: Text) ensures ret@ == self@ + shown(x) { unimplemented!() }
        #[verifier::external_body] pub fn d<T: ?Sized>(self, x: &T) -> (ret: Text) ensures ret@ == self@ + shown_debug(x) { unimplemented!() }
        #[verifier::external_body] pub fn x<T: ?Sized>(self, x: &T) -> (ret: Text) ensures ret@ == self@ + shown_hex(x) { unimplemented!() }
        #[verifier::external_body] pub fn x4<T: ?Sized>(self, x: &T) -> (ret: Text) ensures ret@ == self@ + padded(shown_hex(x), 4) { unimplemented!() }
    }
    #[verifier::external_body] pub fn l(s: &str) -> (ret: Text) ensures ret@ == s@ { unimplemented!() }
    #[verifier::external_body] pub fn nl() -> (ret: Text) ensures ret@ == crate::out::newline() { unimplemented!() }
    #[verifier::external_body] pub fn v<T: ?Sized + std::fmt::Display>(y: &T) -> (ret: Text) ensures ret@ == shown(y) { unimplemented!() }
    #[verifier::external_body] pub fn d<T: ?Sized>(y: &T) -> (ret: Text) ensures ret@ == shown_debug(y) { unimplemented!() }
    #[verifier::external_body] pub fn x<T: ?Sized>(y: &T) -> (ret: Text) ensures ret@ == shown_hex(y) { unimplemented!() }
    #[verifier::external_body] pub fn x4<T: ?Sized>(y: &T) -> (ret: Text) ensures ret@ == padded(shown_hex(y), 4) { unimplemented!() }
    /// what has been written to a formatter
    pub uninterp spec fn ftext(f: &std::fmt::Formatter) -> Seq<char>;
    #[verifier::external_body] pub fn wr(f: &mut std::fmt::Formatter<'_>, t: Text) -> (ret: std::fmt::Result) ensures ret is Ok ==> ftext(final(f)) == ftext(old(f)) + t@ { unimplemented!() }
    #[verifier::external_body] pub fn string(t: Text) -> (ret: String) ensures ret@ == t@ { unimplemented!() }
    /// String::from(x), x.to_string()
    #[verifier::external_body] pub fn string_from<T>(x: T) -> (ret: String) where String: From<T> ensures ret@ == chars(&x) { String::from(x) }
    #[verifier::external_body] pub fn to_string<T: ?Sized + std::fmt::Display>(x: &T) -> (ret: String) ensures ret@ == shown(x) { x.to_string() }
    #[verifier::external_trait_specification]
    pub trait ExPattern: Sized { type ExternalTraitSpecificationFor: core::str::pattern::Pattern; }
    pub assume_specification<P: Pattern> [str::starts_with::<P>] (s: &str, p: P) -> (ret: bool) ensures ret == starts(s@, pat(p)), pat(p).len() == 1 ==> ret == (s@.len() > 0 && s@[0] == pat(p)[0]), pat(p).len() == 2 ==> ret == (s@.len() > 1 && s@[0] == pat(p)[0] && s@[1] == pat(p)[1]);
    #[verifier::external_body] pub fn ends_with<P>(s: &str, p: P) -> (ret: bool) ensures ret == ends(s@, pat(p)), pat(p).len() == 1 ==> ret == (s@.len() > 0 && s@.last() == pat(p)[0]), pat(p).len() == 2 ==> ret == (s@.len() > 1 && s@[s@.len() - 2] == pat(p)[0] && s@.last() == pat(p)[1]) { unimplemented!() }
    pub open spec fn starts(s: Seq<char>, p: Seq<char>) -> bool { p.len() <= s.len() && forall|i: int| 0 <= i < p.len() ==> s[i] == #[trigger] p[i] }
    pub open spec fn ends(s: Seq<char>, p: Seq<char>) -> bool { p.len() <= s.len() && forall|i: int| 0 <= i < p.len() ==> s[s.len() - p.len() + i] == #[trigger] p[i] }
    pub assume_specification [String::insert] (s: &mut String, i: usize, c: char) requires i == 0 ensures final(s)@ == seq![c] + old(s)@;
    pub open spec fn has(s: Seq<char>, p: Seq<char>) -> bool { exists|i: int| 0 <= i && i + p.len() <= s.len() && #[trigger] s.subrange(i, i + p.len()) == p }
    pub assume_specification<P: Pattern> [str::contains::<P>] (s: &str, p: P) -> (ret: bool) ensures pat(p).len() == 1 ==> ret == s@.contains(pat(p)[0]), ret == has(s@, pat(p));
    /// s.split(p).collect::<Vec<&str>>() for a single character p
    #[verifier::external_body]
    pub fn split_all<'a, P: Pattern>(s: &'a str, p: P) -> (ret: Vec<&'a str>) requires pat(p).len() == 1 ensures texts(ret@) == split(s@, pat(p)[0]) { s.split(p).collect() }
    pub open spec fn texts<'a>(v: Seq<&'a str>) -> Seq<Seq<char>> { Seq::new(v.len(), |i: int| v[i]@) }
    pub open spec fn strings(v: Seq<String>) -> Seq<Seq<char>> { Seq::new(v.len(), |i: int| v[i]@) }
    /// v.join(p)
    #[verifier::external_body]
    pub fn join_all(v: &[String], p: &str) -> (ret: String) ensures ret@ == join(strings(v@), p@) { v.join(p) }
    // lengths and padding: the length of a text is counted in bytes
    #[verifier::opaque]
    pub open spec fn blen(s: Seq<char>) -> nat { vstd::utf8::encode_utf8(s).len() }
    pub open spec fn ascii(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> '\0' <= #[trigger] s[i] && s[i] <= '\x7f' }
    pub proof fn lemma_blen(s: Seq<char>) requires ascii(s) ensures blen(s) == s.len() { reveal(blen); vstd::utf8::is_ascii_chars_encode_utf8(s); }
    pub assume_specification [String::len] (s: &String) -> (ret: usize) ensures ret == blen(s@), ret <= isize::MAX;
    pub assume_specification [String::insert_str] (s: &mut String, i: usize, t: &str) requires i == 0 ensures final(s)@ == t@ + old(s)@;
    /// s.chars().nth(k)
    #[verifier::external_body] pub fn char_at(s: &str, k: usize) -> (ret: Option<char>) ensures ret == if k < s@.len() { Some(s@[k as int]) } else { None } { s.chars().nth(k) }
    /// s.chars().collect::<Vec<char>>()
    #[verifier::external_body] pub fn char_vec(s: &str) -> (ret: Vec<char>) ensures ret@ == s@ { s.chars().collect() }
    pub open spec fn spaces(n: int) -> Seq<char> { Seq::new(if n < 0 { 0 } else { n as nat }, |i: int| ' ') }
    /// filled up with spaces to a width, behind the text or (negative width) in front of it
    #[verifier::opaque]
    pub open spec fn pad(t: Seq<char>, w: int) -> Seq<char> { if w > blen(t) { t + spaces(w - blen(t)) } else if -w > blen(t) { spaces(-w - blen(t)) + t } else { t } }
    pub open spec fn count_true(s: Seq<bool>) -> nat decreases s.len() { if s.len() == 0 { 0 } else { count_true(s.drop_last()) + if s.last() { 1nat } else { 0 } } }
    /// it.filter(f).count()
    #[verifier::external_body]
    pub fn filter_count<I: Iterator, F: FnMut(&I::Item) -> bool>(it: I, f: F) -> (ret: usize)
        requires it.obeys_prophetic_iter_laws(), forall|x: &I::Item| #[trigger] f.requires((x,))
        ensures exists|m: Seq<bool>| m.len() == it.remaining().len() && ret == #[trigger] count_true(m) && forall|i: int| 0 <= i < m.len() ==> f.ensures((&it.remaining()[i],), #[trigger] m[i])
    { it.filter(f).count() }
    pub assume_specification [u16::from_str_radix] (s: &str, radix: u32) -> (ret: Result<u16, std::num::ParseIntError>)
        requires 2 <= radix <= 36
        ensures ret is Ok <==> integer(s@, radix as nat, 0xffff) is Some, ret is Ok ==> integer(s@, radix as nat, 0xffff) == Some(ret->Ok_0 as nat);
    /// the unsigned integers the standard library reads: digits, with or without a plus sign
    pub open spec fn integer(s: Seq<char>, radix: nat, max: nat) -> Option<nat> {
        match number(if s.len() > 0 && s[0] == '+' { s.skip(1) } else { s }, radix) { Some(n) if n <= max => Some(n), _ => None }
    }
}
%grewrite String :: from =>> crate::text::string_from
%grewrite . len ( ) == 0 =>> .is_empty()
%grewrite 0 == $x . len ( ) =>> $x.is_empty()
%grewrite 0 == $x [ $$i ] . len ( ) =>> $x[$$i].is_empty()
%grewrite . len ( ) < 1 =>> .is_empty()
%grewrite . len ( ) != 0 =>> .is_empty() == false
%grewrite . len ( ) > 0 =>> .is_empty() == false
%grewrite . len ( ) >= 1 =>> .is_empty() == false
%method chars.nth/1 & crate::text::char_at
%method chars.collect/0 & crate::text::char_vec
%method to_string/0 & crate::text::to_string
%method split.collect/0 & crate::text::split_all
%method filter.count/0 crate::text::filter_count
%method ends_with/1 & crate::text::ends_with
%method join/1 & crate::text::join_all
