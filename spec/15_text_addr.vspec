%# Addresses as text: what a text denotes; FromStr and Display.
%module root
pub mod addr_text {
    use vstd::prelude::*;
    use crate::addr::*;
    use crate::model::*;
    use crate::text::*;
    use crate::out::shown;
    use crate::std_contracts::{parsed, FromStrSpec, FromStrSpecImpl};
    broadcast use crate::text::group_text;
    // ------------------------------------------------------------------ IPv4: four decimal numbers up to 255
    pub open spec fn byte_of(s: Seq<char>) -> Option<u8> { match number(s, 10) { Some(n) if n <= 255 => Some(n as u8), _ => None } }
    pub open spec fn bytes_of(p: Seq<Seq<char>>) -> Option<Seq<u8>> { if forall|i: int| 0 <= i < p.len() ==> byte_of(#[trigger] p[i]) is Some { Some(Seq::new(p.len(), |i: int| byte_of(p[i])->0)) } else { None } }
    pub open spec fn v4_of(s: Seq<char>) -> Option<Ipv4Address> {
        let p = split(s, '.');
        if p.len() == 4 { match bytes_of(p) { Some(b) => Some(Ipv4Address::from_bits(bytes_bits(b))), None => None } } else { None }
    }
    // ------------------------------------------------------------------ IPv6: eight hexadecimal groups, "::" for missing zero groups
    pub open spec fn group_of(s: Seq<char>) -> Option<u16> { match number(s, 16) { Some(n) if n <= 0xffff => Some(n as u16), _ => None } }
    pub open spec fn groups_of(p: Seq<Seq<char>>) -> Option<Seq<u16>> { if forall|i: int| 0 <= i < p.len() ==> group_of(#[trigger] p[i]) is Some { Some(Seq::new(p.len(), |i: int| group_of(p[i])->0)) } else { None } }
    pub open spec fn is_gap(s: Seq<char>, k: int) -> bool { 0 <= k && k + 1 < s.len() && s[k] == ':' && s[k + 1] == ':' }
    pub open spec fn first_gap(s: Seq<char>, k: int) -> bool { is_gap(s, k) && forall|j: int| 0 <= j < k ==> !#[trigger] is_gap(s, j) }
    pub open spec fn side(s: Seq<char>) -> Seq<Seq<char>> { if s.len() == 0 { Seq::empty() } else { split(s, ':') } }
    pub open spec fn zero_groups(n: int) -> Seq<Seq<char>> { Seq::new(n as nat, |i: int| seq!['0']) }
    pub open spec fn filled(a: Seq<Seq<char>>, b: Seq<Seq<char>>) -> Option<Seq<Seq<char>>> { if a.len() + b.len() <= 7 { Some(a + zero_groups(8 - a.len() - b.len()) + b) } else { None } }
    /// the eight groups
    pub open spec fn expand(s: Seq<char>) -> Option<Seq<Seq<char>>> {
        if exists|k: int| first_gap(s, k) { let k = choose|k: int| first_gap(s, k); filled(side(s.take(k)), side(s.skip(k + 2))) }
        else if split(s, ':').len() == 8 { Some(split(s, ':')) } else { None }
    }
    pub open spec fn read6(s: Seq<char>) -> Option<Seq<u16>> { match expand(s) { Some(p) => groups_of(p), None => None } }
    pub open spec fn v6_of(s: Seq<char>) -> Option<Ipv6Address> { match read6(s) { Some(g) => Some(Ipv6Address::from_bits(groups_bits(g))), None => None } }
    /// str::parse reads what from_str reads (the contracts of from_str are proved)
    impl FromStrSpecImpl for Ipv4Address { open spec fn meaning(s: Seq<char>) -> Option<Ipv4Address> { v4_of(s) } }
    pub broadcast proof fn axiom_parsed_v4(s: Seq<char>) ensures #[trigger] parsed::<Ipv4Address>(s) == v4_of(s) { }
    impl FromStrSpecImpl for Ipv6Address { open spec fn meaning(s: Seq<char>) -> Option<Ipv6Address> { v6_of(s) } }
    pub broadcast proof fn axiom_parsed_v6(s: Seq<char>) ensures #[trigger] parsed::<Ipv6Address>(s) == v6_of(s) { }
    /// addresses are displayed as Display::fmt writes them: from the contracts of fmt
    pub broadcast proof fn axiom_shown_v4(a: &Ipv4Address) ensures v4_of(#[trigger] shown::<Ipv4Address>(a)) == Some(*a) {
        crate::text::axiom_shown(a);
        let f = choose|f: &mut std::fmt::Formatter| #![all_triggers] call_ensures(<Ipv4Address as std::fmt::Display>::fmt, (a, f), Ok(())) && ftext(final(f)) == ftext(&*f) + shown(a);
        assert(crate::addr::wrote4(ftext(&*f), ftext(final(f)), *a));
        let t = choose|t: Seq<char>| v4_of(t) == Some(*a) && #[trigger] (ftext(&*f) + t) == ftext(final(f));
        crate::text::lemma_cancel(ftext(&*f), t, shown(a));
    }
    pub broadcast proof fn axiom_shown_v6(a: &Ipv6Address) ensures v6_of(#[trigger] shown::<Ipv6Address>(a)) == Some(*a) {
        crate::text::axiom_shown(a);
        let f = choose|f: &mut std::fmt::Formatter| #![all_triggers] call_ensures(<Ipv6Address as std::fmt::Display>::fmt, (a, f), Ok(())) && ftext(final(f)) == ftext(&*f) + shown(a);
        assert(crate::addr::wrote6(ftext(&*f), ftext(final(f)), *a));
        let t = choose|t: Seq<char>| v6_of(t) == Some(*a) && #[trigger] (ftext(&*f) + t) == ftext(final(f));
        crate::text::lemma_cancel(ftext(&*f), t, shown(a));
    }
    // ------------------------------------------------------------------ lemmas
    pub proof fn lemma_from_bits4(a: Ipv4Address) ensures Ipv4Address::from_bits(a.bits()) == a { a.lemma(); }
    pub proof fn lemma_from_bits6(a: Ipv6Address) ensures Ipv6Address::from_bits(a.bits()) == a {
        lemma_u64_bits(a.top_half); lemma_u64_bits(a.bottom_half);
        assert(a.bits().subrange(0, 64) =~= u64_bits(a.top_half)); assert(a.bits().subrange(64, 128) =~= u64_bits(a.bottom_half));
    }
    pub open spec fn part4(g: Seq<u8>, j: int) -> u32 { if j < g.len() { (g[j] as u32) << ((24 - 8 * j) as u32) } else { 0 } }
    pub open spec fn acc4(g: Seq<u8>) -> u32 { part4(g, 0) | part4(g, 1) | part4(g, 2) | part4(g, 3) }
    pub proof fn lemma_acc_empty() ensures horner4(Seq::empty()) == 0, acc4(Seq::empty()) == 0, acc6(Seq::empty(), 0) == 0, acc6(Seq::empty(), 4) == 0 { assert(0u32 | 0u32 | 0u32 | 0u32 == 0) by (bit_vector); assert(0u64 | 0u64 | 0u64 | 0u64 == 0) by (bit_vector); }
    pub proof fn lemma_acc4(g: Seq<u8>, b: u8) requires g.len() < 4 ensures acc4(g.push(b)) == acc4(g) | ((b as u32) << ((24 - 8 * g.len()) as u32)) {
        let h = g.push(b); let (p, q, r) = (part4(g, 0), part4(g, 1), part4(g, 2)); let x = (b as u32) << ((24 - 8 * g.len()) as u32);
        assert(0u32 | 0u32 | 0u32 | 0u32 | x == x | 0u32 | 0u32 | 0u32) by (bit_vector);
        assert((p | 0u32 | 0u32 | 0u32) | x == p | x | 0u32 | 0u32) by (bit_vector);
        assert((p | q | 0u32 | 0u32) | x == p | q | x | 0u32) by (bit_vector);
        assert((p | q | r | 0u32) | x == p | q | r | x) by (bit_vector);
    }
    pub open spec fn horner4(g: Seq<u8>) -> u32 decreases g.len() { if g.len() == 0 { 0 } else { (horner4(g.drop_last()) << 8u32) | (g.last() as u32) } }
    pub proof fn lemma_horner4(g: Seq<u8>, b: u8, x: u32) ensures horner4(Seq::empty()) == 0, horner4(g.push(b)) == (horner4(g) << 8u32) | (b as u32), (x << 8u32) | (b as u32) == (x << 8u32) ^ (b as u32), x < 0x100_0000 ==> (x << 8u32) == x * 256 && (x << 8u32) | (b as u32) == (x << 8u32) + (b as u32), g.len() < 4 ==> horner4(g) < 0x100_0000 decreases g.len() {
        assert(g.push(b).drop_last() =~= g);
        assert((x << 8u32) | (b as u32) == (x << 8u32) ^ (b as u32)) by (bit_vector);
        assert(x < 0x100_0000 ==> (x << 8u32) == x * 256 && (x << 8u32) | (b as u32) == add(x << 8u32, b as u32) && x * 256 < 0x1_0000_0000) by (bit_vector);
        if g.len() > 0 { let q = g.drop_last(); let l = g.last(); let h = horner4(q); lemma_horner4(q, l, h); if g.len() < 4 { lemma_horner4_small(g); } }
    }
    pub proof fn lemma_horner4_small(g: Seq<u8>) requires g.len() <= 3 ensures g.len() == 0 ==> horner4(g) == 0, g.len() == 1 ==> horner4(g) < 0x100, g.len() == 2 ==> horner4(g) < 0x1_0000, g.len() == 3 ==> horner4(g) < 0x100_0000 decreases g.len() {
        if g.len() > 0 { let q = g.drop_last(); lemma_horner4_small(q); let l = g.last(); let h = horner4(q);
            assert(h == 0 ==> (h << 8u32) | (l as u32) < 0x100) by (bit_vector); assert(h < 0x100 ==> (h << 8u32) | (l as u32) < 0x1_0000) by (bit_vector); assert(h < 0x1_0000 ==> (h << 8u32) | (l as u32) < 0x100_0000) by (bit_vector); }
    }
    pub proof fn lemma_horner4_done(g: Seq<u8>) requires g.len() == 4 ensures horner4(g) == acc4(g) {
        let (a, b, c, d) = (g[0], g[1], g[2], g[3]);
        let g3 = g.drop_last(); let g2 = g3.drop_last(); let g1 = g2.drop_last(); let g0 = g1.drop_last();
        assert(g0.len() == 0); assert(horner4(g0) == 0); assert(horner4(g1) == (0u32 << 8u32) | (a as u32)); assert(horner4(g2) == (horner4(g1) << 8u32) | (b as u32)); assert(horner4(g3) == (horner4(g2) << 8u32) | (c as u32)); assert(horner4(g) == (horner4(g3) << 8u32) | (d as u32));
        assert((((((((0u32 << 8u32) | (a as u32)) << 8u32) | (b as u32)) << 8u32) | (c as u32)) << 8u32) | (d as u32) == (((a as u32) << 24u32) | ((b as u32) << 16u32) | ((c as u32) << 8u32) | ((d as u32) << 0u32))) by (bit_vector);
    }
    pub proof fn lemma_acc4_done(g: Seq<u8>) requires g.len() == 4 ensures Ipv4Address::from_bits(bytes_bits(g)) == (Ipv4Address { addr_value: acc4(g) }) {
        lemma_u32_from_bytes(g[0], g[1], g[2], g[3]); assert(g =~= seq![g[0], g[1], g[2], g[3]]);
        lemma_from_bits4(Ipv4Address { addr_value: acc4(g) });
    }
    pub open spec fn part6(g: Seq<u16>, o: int, j: int) -> u64 { if o + j < g.len() { (g[o + j] as u64) << ((48 - 16 * j) as u64) } else { 0 } }
    pub open spec fn acc6(g: Seq<u16>, o: int) -> u64 { part6(g, o, 0) | part6(g, o, 1) | part6(g, o, 2) | part6(g, o, 3) }
    pub proof fn lemma_acc6(g: Seq<u16>, o: int, b: u16) requires o == 0 || o == 4
        ensures o <= g.len() < o + 4 ==> acc6(g.push(b), o) == acc6(g, o) | ((b as u64) << ((48 - 16 * (g.len() - o)) as u64)), !(o <= g.len() < o + 4) ==> acc6(g.push(b), o) == acc6(g, o)
    {
        let (p, q, r) = (part6(g, o, 0), part6(g, o, 1), part6(g, o, 2)); let x = (b as u64) << ((48 - 16 * (g.len() - o)) as u64);
        assert(0u64 | 0u64 | 0u64 | 0u64 | x == x | 0u64 | 0u64 | 0u64) by (bit_vector);
        assert((p | 0u64 | 0u64 | 0u64) | x == p | x | 0u64 | 0u64) by (bit_vector);
        assert((p | q | 0u64 | 0u64) | x == p | q | x | 0u64) by (bit_vector);
        assert((p | q | r | 0u64) | x == p | q | r | x) by (bit_vector);
    }
    pub proof fn lemma_acc6_done(g: Seq<u16>) requires g.len() == 8 ensures Ipv6Address::from_bits(groups_bits(g)) == (Ipv6Address { top_half: acc6(g, 0), bottom_half: acc6(g, 4) }) {
        let a = Ipv6Address { top_half: acc6(g, 0), bottom_half: acc6(g, 4) };
        lemma_u64_from_groups(g[0], g[1], g[2], g[3]); lemma_u64_from_groups(g[4], g[5], g[6], g[7]);
        let x = seq![g[0], g[1], g[2], g[3]]; let y = seq![g[4], g[5], g[6], g[7]];
        assert(g =~= x + y); lemma_groups_append(x, y);
        assert(a.bits() == groups_bits(g)); lemma_from_bits6(a);
    }
    // splitting at ':'
    pub open spec fn full(p: Seq<Seq<char>>) -> bool { forall|i: int| 0 <= i < p.len() ==> (#[trigger] p[i]).len() > 0 }
    pub open spec fn no_gap(s: Seq<char>) -> bool { forall|k: int| !#[trigger] is_gap(s, k) }
    pub open spec fn odd_start(s: Seq<char>) -> bool { s.len() > 0 && s[0] == ':' && !is_gap(s, 0) }
    pub open spec fn odd_end(s: Seq<char>) -> bool { s.len() > 0 && s.last() == ':' && !is_gap(s, s.len() - 2) }
    pub proof fn lemma_first_gap(s: Seq<char>, k: int) requires is_gap(s, k) ensures exists|j: int| 0 <= j <= k && first_gap(s, j) decreases k {
        if exists|j: int| 0 <= j < k && is_gap(s, j) { let j = choose|j: int| 0 <= j < k && is_gap(s, j); lemma_first_gap(s, j); let i = choose|i: int| 0 <= i <= j && first_gap(s, i); assert(0 <= i <= k && first_gap(s, i)); } else { assert(first_gap(s, k)); }
    }
    /// no gap, no colon in front: only the last part can be empty
    pub proof fn lemma_full(s: Seq<char>) requires s.len() > 0, no_gap(s), s[0] != ':' ensures full(split(s, ':').drop_last()), split(s, ':').last().len() == 0 <==> s.last() == ':', split(s, ':').len() > 0 decreases s.len() {
        let r = s.drop_last(); let p = split(r, ':'); lemma_split_len(r, ':'); lemma_split_len(s, ':');
        if r.len() == 0 { assert(p =~= seq![Seq::<char>::empty()]); assert(split(s, ':').drop_last() =~= Seq::empty()); }
        else {
            assert forall|k: int| !#[trigger] is_gap(r, k) by { assert(!is_gap(s, k)); }
            lemma_full(r);
            if s.last() == ':' { assert(!is_gap(s, s.len() - 2)); assert(split(s, ':').drop_last() =~= p); assert forall|i: int| 0 <= i < p.len() implies (#[trigger] p[i]).len() > 0 by { if i < p.len() - 1 { assert(p.drop_last()[i].len() > 0); } } }
            else { assert(split(s, ':').drop_last() =~= p.drop_last()); }
        }
    }
    pub proof fn lemma_starts_empty(s: Seq<char>) requires s.len() > 0, s[0] == ':' ensures split(s, ':')[0].len() == 0, split(s, ':').len() > 1 {
        let r = s.skip(1); assert(s =~= Seq::<char>::empty() + seq![':'] + r); lemma_split_cat(Seq::empty(), ':', r); lemma_split_len(r, ':');
    }
    pub proof fn lemma_ends_empty(s: Seq<char>) requires s.len() > 0, s.last() == ':' ensures split(s, ':').last().len() == 0 { }
    /// two colons in a row leave an empty part
    pub proof fn lemma_gap_empty(s: Seq<char>, k: int) requires is_gap(s, k) ensures !full(split(s, ':')) {
        let (a, b) = (s.take(k), s.skip(k + 1)); assert(s =~= a + seq![':'] + b); lemma_split_cat(a, ':', b); lemma_starts_empty(b);
        let p = split(a, ':'); assert((p + split(b, ':'))[p.len() as int].len() == 0);
    }
    pub proof fn lemma_full_text(s: Seq<char>) requires s.len() > 0, full(split(s, ':')) ensures no_gap(s), s[0] != ':', s.last() != ':' {
        assert forall|k: int| !#[trigger] is_gap(s, k) by { if is_gap(s, k) { lemma_gap_empty(s, k); } }
        if s[0] == ':' { lemma_starts_empty(s); } lemma_split_len(s, ':'); if s.last() == ':' { lemma_ends_empty(s); }
    }
    pub proof fn lemma_not_groups(p: Seq<Seq<char>>, i: int) requires 0 <= i < p.len(), group_of(p[i]) is None ensures groups_of(p) is None { }
    pub proof fn lemma_empty_group(p: Seq<Seq<char>>, i: int) requires 0 <= i < p.len(), p[i].len() == 0 ensures groups_of(p) is None { assert(number(p[i], 16) is None); }
    pub proof fn lemma_expand_gap(s: Seq<char>, k: int) requires first_gap(s, k) ensures expand(s) == filled(side(s.take(k)), side(s.skip(k + 2))) {
        let j = choose|j: int| first_gap(s, j); assert(first_gap(s, j)); if j < k { assert(!is_gap(s, j)); } if k < j { assert(!is_gap(s, k)); }
    }
    pub proof fn lemma_expand_none(s: Seq<char>) requires no_gap(s) ensures expand(s) == (if split(s, ':').len() == 8 { Some(split(s, ':')) } else { None }) {
        if exists|k: int| first_gap(s, k) { let k = choose|k: int| first_gap(s, k); assert(is_gap(s, k)); }
    }
    /// an empty part on a side of the gap: not an address
    pub proof fn lemma_bad_side(s: Seq<char>, k: int, i: int) requires first_gap(s, k), 0 <= i < side(s.take(k)).len() && side(s.take(k))[i].len() == 0 || 0 <= i < side(s.skip(k + 2)).len() && side(s.skip(k + 2))[i].len() == 0 ensures read6(s) is None {
        lemma_expand_gap(s, k); let (a, b) = (side(s.take(k)), side(s.skip(k + 2)));
        if a.len() + b.len() <= 7 { let p = a + zero_groups(8 - a.len() - b.len()) + b; if i < a.len() && a[i].len() == 0 { lemma_empty_group(p, i); } else { lemma_empty_group(p, 8 - b.len() + i); } }
    }
    /// the text that is split: a zero before a colon in front, a zero behind a colon at the end
    pub open spec fn closed_start(s: Seq<char>) -> Seq<char> { if s.len() > 0 && s[0] == ':' { seq!['0'] + s } else { s } }
    pub open spec fn closed(s: Seq<char>) -> Seq<char> { let t = closed_start(s); if t.len() > 0 && t.last() == ':' { t.push('0') } else { t } }
    pub proof fn lemma_odd(s: Seq<char>) requires s.len() == 0 || odd_start(s) || odd_end(s) ensures read6(s) is None {
        lemma_split_len(s, ':');
        if s.len() == 0 { assert(no_gap(s)); lemma_expand_none(s); }
        else if no_gap(s) { lemma_expand_none(s); if s[0] == ':' { lemma_starts_empty(s); lemma_empty_group(split(s, ':'), 0); } else { lemma_ends_empty(s); lemma_empty_group(split(s, ':'), split(s, ':').len() - 1); } }
        else {
            let g = choose|g: int| is_gap(s, g); lemma_first_gap(s, g); let k = choose|k: int| first_gap(s, k);
            let (x, y) = (s.take(k), s.skip(k + 2));
            if odd_start(s) { lemma_starts_empty(x); lemma_bad_side(s, k, 0); }
            else { assert(k != s.len() - 2); assert(y.last() == s.last()); lemma_ends_empty(y); lemma_split_len(y, ':'); lemma_bad_side(s, k, split(y, ':').len() - 1); }
        }
    }
    /// without a gap
    pub proof fn lemma_plain(s: Seq<char>) requires s.len() > 0, no_gap(s) ensures full(split(closed(s), ':')), !odd_start(s) && !odd_end(s) ==> closed(s) == s && read6(s) == (if split(s, ':').len() == 8 { groups_of(split(s, ':')) } else { None }) {
        let t = closed_start(s); let u = closed(s);
        assert(!is_gap(s, 0) && !is_gap(s, s.len() - 2));
        assert forall|k: int| !#[trigger] is_gap(t, k) by { if t != s { assert(!is_gap(s, k - 1)); } else { assert(!is_gap(s, k)); } }
        assert forall|k: int| !#[trigger] is_gap(u, k) by { assert(!is_gap(t, k)); }
        lemma_full(u); let p = split(u, ':');
        assert forall|i: int| 0 <= i < p.len() implies (#[trigger] p[i]).len() > 0 by { if i < p.len() - 1 { assert(p.drop_last()[i].len() > 0); } }
        lemma_expand_none(s);
    }
    pub open spec fn left(s: Seq<char>, k: int) -> Seq<Seq<char>> { split(closed_start(s).take(closed_start(s).len() - s.len() + k), ':') }
    pub open spec fn right(s: Seq<char>, k: int) -> Seq<Seq<char>> { let y = s.skip(k + 2); split(if y.len() == 0 { seq!['0'] } else if y.last() == ':' { y.push('0') } else { y }, ':') }
    /// with a gap
    pub proof fn lemma_gapped(s: Seq<char>, k: int) requires first_gap(s, k)
        ensures
            split(closed(s), ':') == left(s, k) + seq![Seq::<char>::empty()] + right(s, k), full(left(s, k)), left(s, k).len() > 0, right(s, k).len() > 0,
            !full(right(s, k)) ==> read6(s) is None,
            !odd_start(s) && !odd_end(s) && full(right(s, k)) ==> read6(s) == (match filled(if k == 0 { Seq::empty() } else { left(s, k) }, if k + 2 == s.len() { Seq::empty() } else { right(s, k) }) { Some(p) => groups_of(p), None => None }),
            k == 0 ==> left(s, k) == seq![seq!['0']], k + 2 == s.len() ==> right(s, k) == seq![seq!['0']],
            is_gap(s, 0) <==> k == 0, full(right(s, k)) && is_gap(s, s.len() - 2) ==> k + 2 == s.len()
    {
        let t = closed_start(s); let d = t.len() - s.len(); let xs = t.take(d + k); let y = s.skip(k + 2); let ys = if y.len() == 0 { seq!['0'] } else if y.last() == ':' { y.push('0') } else { y };
        let e = Seq::<char>::empty(); let c = seq![':'];
        assert(t.last() == s.last()); if y.len() > 0 { assert(y.last() == s.last()); } else { assert(s.last() == ':'); }
        assert(closed(s) =~= xs + c + (e + c + ys)); lemma_split_cat(e, ':', ys); lemma_split_cat(xs, ':', e + c + ys); assert(split(e, ':') =~= seq![e]);
        assert(split(closed(s), ':') =~= left(s, k) + seq![e] + right(s, k));
        lemma_split_len(xs, ':'); lemma_split_len(ys, ':');
        // the left side
        assert(k == 0 ==> xs =~= seq!['0']);
        assert(xs.len() > 0 && xs[0] != ':');
        assert forall|j: int| !#[trigger] is_gap(xs, j) by { if is_gap(xs, j) { assert(!is_gap(s, j - d)); } }
        lemma_full(xs); if xs.last() == ':' { assert(s[k - 1] == ':'); assert(is_gap(s, k - 1)); }
        let p = split(xs, ':'); assert forall|i: int| 0 <= i < p.len() implies (#[trigger] p[i]).len() > 0 by { if i < p.len() - 1 { assert(p.drop_last()[i].len() > 0); } }
        lemma_split_free(seq!['0'], ':');
        // the right side
        lemma_expand_gap(s, k);
        if y.len() > 0 {
            lemma_split_len(y, ':');
            if y.last() == ':' {
                lemma_ends_empty(y); lemma_bad_side(s, k, split(y, ':').len() - 1);
                if is_gap(s, s.len() - 2) {
                    // y is a colon or ends in two: an empty part remains
                    let j = s.len() - 2;
                    if y.len() == 1 { lemma_starts_empty(ys); } else { assert(is_gap(ys, y.len() - 2)); lemma_gap_empty(ys, y.len() - 2); }
                }
            } else if !full(split(y, ':')) { let q = split(y, ':'); let i = choose|i: int| 0 <= i < q.len() && (#[trigger] q[i]).len() == 0; lemma_bad_side(s, k, i); }
        }
        if !odd_start(s) { assert(d > 0 ==> k == 0); if k > 0 { assert(xs =~= s.take(k)); } else { assert(s.take(k) =~= e); } }
    }
    // counting the empty parts
    pub proof fn lemma_count_none(m: Seq<bool>) ensures count_true(m) == 0 <==> (forall|i: int| 0 <= i < m.len() ==> !#[trigger] m[i]), count_true(m) <= m.len() decreases m.len() {
        if m.len() > 0 { let r = m.drop_last(); lemma_count_none(r); assert forall|i: int| 0 <= i < r.len() implies r[i] == m[i] by { }
            if count_true(m) == 0 { assert forall|i: int| 0 <= i < m.len() implies !#[trigger] m[i] by { if i < r.len() { assert(!r[i]); } } }
            if forall|i: int| 0 <= i < m.len() ==> !#[trigger] m[i] { assert(!m[m.len() - 1]); assert forall|i: int| 0 <= i < r.len() implies !#[trigger] r[i] by { assert(!m[i]); } } }
    }
    pub proof fn lemma_count_one(m: Seq<bool>, k: int) requires 0 <= k < m.len(), m[k] ensures count_true(m) >= 1, count_true(m) == 1 <==> (forall|i: int| 0 <= i < m.len() && i != k ==> !#[trigger] m[i]) decreases m.len() {
        let r = m.drop_last(); lemma_count_none(r);
        if k < r.len() {
            lemma_count_one(r, k);
            if count_true(m) == 1 { assert forall|i: int| 0 <= i < m.len() && i != k implies !#[trigger] m[i] by { if i < r.len() { assert(!r[i]); } } }
            if forall|i: int| 0 <= i < m.len() && i != k ==> !#[trigger] m[i] { assert(!m[m.len() - 1]); assert forall|i: int| 0 <= i < r.len() && i != k implies !#[trigger] r[i] by { assert(!m[i]); } }
        } else {
            if count_true(m) == 1 { assert forall|i: int| 0 <= i < m.len() && i != k implies !#[trigger] m[i] by { assert(!r[i]); } }
            if forall|i: int| 0 <= i < m.len() && i != k ==> !#[trigger] m[i] { assert forall|i: int| 0 <= i < r.len() implies !#[trigger] r[i] by { assert(!m[i]); } }
        }
    }
    /// exactly the part e is empty
    pub open spec fn one_empty(c: Seq<Seq<char>>, e: int) -> bool { 0 <= e < c.len() && c[e].len() == 0 && forall|i: int| 0 <= i < c.len() && i != e ==> (#[trigger] c[i]).len() > 0 }
    pub open spec fn marked(c: Seq<Seq<char>>, m: Seq<bool>) -> bool { m.len() == c.len() && forall|i: int| 0 <= i < m.len() ==> #[trigger] m[i] == (c[i].len() == 0) }
    pub proof fn lemma_count(c: Seq<Seq<char>>) ensures forall|m: Seq<bool>| #[trigger] marked(c, m) ==> (count_true(m) == 0 <==> full(c)) && (count_true(m) == 1 <==> exists|e: int| one_empty(c, e)) {
        assert forall|m: Seq<bool>| #[trigger] marked(c, m) implies (count_true(m) == 0 <==> full(c)) && (count_true(m) == 1 <==> exists|e: int| one_empty(c, e)) by {
            lemma_count_none(m);
            if full(c) { assert forall|i: int| 0 <= i < m.len() implies !#[trigger] m[i] by { assert(c[i].len() > 0); } }
            else {
                let k = choose|k: int| 0 <= k < c.len() && (#[trigger] c[k]).len() == 0; assert(m[k]); lemma_count_one(m, k);
                if count_true(m) == 1 { assert forall|i: int| 0 <= i < c.len() && i != k implies (#[trigger] c[i]).len() > 0 by { assert(!m[i]); } assert(one_empty(c, k)); }
                if exists|e: int| one_empty(c, e) { let e = choose|e: int| one_empty(c, e); assert(e == k); assert forall|i: int| 0 <= i < m.len() && i != k implies !#[trigger] m[i] by { assert(c[i].len() > 0); } }
            }
            if count_true(m) == 0 { assert forall|i: int| 0 <= i < c.len() implies (#[trigger] c[i]).len() > 0 by { assert(!m[i]); } }
        }
    }
    /// the groups that the parts around the empty part e make
    pub open spec fn spread(c: Seq<Seq<char>>, e: int) -> Seq<Seq<char>> { Seq::new(8, |j: int| if j + (c.len() - 1 - e) >= 8 { c[c.len() - 8 + j] } else if j < e { c[j] } else { seq!['0'] }) }
    /// what the parts say about the text
    pub proof fn lemma_shape(s: Seq<char>)
        ensures ({
            let c = split(closed(s), ':'); let max = if is_gap(s, 0) || is_gap(s, s.len() - 2) { 9int } else { 8 };
            &&& c.len() > 0
            &&& s.len() == 0 || odd_start(s) || odd_end(s) ==> read6(s) is None
            &&& c.len() > max ==> read6(s) is None
            &&& full(c) && c.len() != 8 ==> read6(s) is None
            &&& full(c) && c.len() == 8 && !odd_start(s) && !odd_end(s) ==> read6(s) == groups_of(c)
            &&& !full(c) && (forall|e: int| !one_empty(c, e)) ==> read6(s) is None
            &&& forall|e: int| #[trigger] one_empty(c, e) && c.len() <= max ==> e <= 7 && c.len() - 1 - e <= 7
            &&& forall|e: int| #[trigger] one_empty(c, e) && c.len() <= max && s.len() > 0 && !odd_start(s) && !odd_end(s) ==> read6(s) == groups_of(spread(c, e))
        })
    {
        let c = split(closed(s), ':'); lemma_split_len(closed(s), ':');
        if s.len() == 0 { lemma_odd(s); assert(c =~= seq![Seq::<char>::empty()]); assert(one_empty(c, 0)); assert(forall|e: int| #[trigger] one_empty(c, e) ==> e == 0); }
        else {
            if odd_start(s) || odd_end(s) { lemma_odd(s); }
            if no_gap(s) { lemma_plain(s); assert forall|e: int| !#[trigger] one_empty(c, e) by { if one_empty(c, e) { assert(c[e].len() > 0); } } }
            else {
                let q = choose|q: int| is_gap(s, q); lemma_first_gap(s, q); let k = choose|k: int| first_gap(s, k); lemma_gapped(s, k);
                let (l, r) = (left(s, k), right(s, k)); let n = l.len() as int;
                assert(c[n].len() == 0);
                assert forall|e: int| #[trigger] one_empty(c, e) implies e == n by { assert(c[n].len() == 0); }
                if full(r) {
                    assert forall|i: int| 0 <= i < c.len() && i != n implies (#[trigger] c[i]).len() > 0 by { if i < n { assert(l[i].len() > 0); } else { assert(r[i - n - 1].len() > 0); } }
                    assert(one_empty(c, n));
                    let (a, b) = (if k == 0 { Seq::empty() } else { l }, if k + 2 == s.len() { Seq::empty() } else { r });
                    if !odd_start(s) && !odd_end(s) && c.len() <= 9 && a.len() + b.len() <= 7 { assert(filled(a, b)->0 =~= spread(c, n)); }
                } else {
                    let i = choose|i: int| 0 <= i < r.len() && (#[trigger] r[i]).len() == 0; assert(c[n + 1 + i].len() == 0);
                    assert forall|e: int| !#[trigger] one_empty(c, e) by { if one_empty(c, e) { assert(e == n); assert(c[n + 1 + i].len() > 0); } }
                }
            }
        }
    }
    // ------------------------------------------------------------------ reading back
    pub open spec fn decs(b: Seq<u8>) -> Seq<Seq<char>> { Seq::new(b.len(), |i: int| dec(b[i] as nat)) }
    pub open spec fn hexs(b: Seq<u16>) -> Seq<Seq<char>> { Seq::new(b.len(), |i: int| hex(b[i] as nat)) }
    /// texts of which each denotes its group
    pub open spec fn denote(p: Seq<Seq<char>>, g: Seq<u16>) -> bool { p.len() == g.len() && forall|i: int| 0 <= i < p.len() ==> number(#[trigger] p[i], 16) == Some(g[i] as nat) }
    pub proof fn lemma_hexs(g: Seq<u16>) ensures denote(hexs(g), g) { assert forall|i: int| 0 <= i < g.len() implies number(#[trigger] hexs(g)[i], 16) == Some(g[i] as nat) by { lemma_digits(g[i] as nat, 16); } }
    pub proof fn lemma_denote(p: Seq<Seq<char>>, g: Seq<u16>) requires denote(p, g) ensures groups_of(p) == Some(g), full(p), forall|i: int| 0 <= i < p.len() ==> free(#[trigger] p[i], ':') {
        assert forall|i: int| 0 <= i < p.len() implies group_of(#[trigger] p[i]) is Some && p[i].len() > 0 && free(p[i], ':') by { lemma_number_free(p[i], 16); assert(number(p[i], 16) == Some(g[i] as nat)); }
        assert(groups_of(p)->0 =~= g);
    }
    pub proof fn lemma_v4_text(b: Seq<u8>, t: Seq<char>) requires b.len() == 4, t == dec(b[0] as nat) + seq!['.'] + dec(b[1] as nat) + seq!['.'] + dec(b[2] as nat) + seq!['.'] + dec(b[3] as nat) ensures v4_of(t) == Some(Ipv4Address::from_bits(bytes_bits(b))) {
        let p = decs(b); let c = seq!['.'];
        assert forall|i: int| 0 <= i < 4 implies number(#[trigger] p[i], 10) == Some(b[i] as nat) && free(p[i], '.') by { lemma_digits(b[i] as nat, 10); lemma_number_free(p[i], 10); }
        let (q1, q2, q3) = (seq![p[0]], seq![p[0], p[1]], seq![p[0], p[1], p[2]]);
        assert(join(q1, c) == p[0]); assert(q2.drop_last() =~= q1); assert(join(q2, c) == p[0] + c + p[1]);
        assert(q3.drop_last() =~= q2); assert(join(q3, c) == p[0] + c + p[1] + c + p[2]);
        assert(p.drop_last() =~= q3);
        assert(join(p, c) == t); lemma_split_join(p, '.');
        assert forall|i: int| 0 <= i < 4 implies byte_of(#[trigger] p[i]) == Some(b[i]) by { assert(number(p[i], 10) == Some(b[i] as nat)); }
        assert(bytes_of(p)->0 =~= b);
    }
    /// eight groups between colons
    pub proof fn lemma_read_full(p: Seq<Seq<char>>, g: Seq<u16>) requires denote(p, g), g.len() == 8 ensures read6(join(p, seq![':'])) == Some(g), split(join(p, seq![':']), ':') == p {
        let t = join(p, seq![':']); lemma_denote(p, g); lemma_split_join(p, ':');
        assert(t.len() > 0) by { if t.len() == 0 { assert(split(t, ':').len() == 1); } }
        lemma_full_text(t); lemma_expand_none(t);
    }
    pub open spec fn joined(p: Seq<Seq<char>>) -> Seq<char> { join(p, seq![':']) }
    /// groups, "::" and groups
    pub proof fn lemma_read_gap(p: Seq<Seq<char>>, g: Seq<u16>, q: Seq<Seq<char>>, h: Seq<u16>) requires denote(p, g), denote(q, h), p.len() + q.len() <= 7 ensures read6(joined(p) + seq![':', ':'] + joined(q)) == Some(g + Seq::new((8 - g.len() - h.len()) as nat, |i: int| 0u16) + h) {
        let (x, y) = (joined(p), joined(q)); let t = x + seq![':', ':'] + y; let k = x.len() as int;
        lemma_denote(p, g); lemma_denote(q, h);
        lemma_side(p); lemma_side(q);
        if x.len() > 0 { lemma_full_text(x); }
        assert(is_gap(t, k));
        assert forall|j: int| 0 <= j < k implies !#[trigger] is_gap(t, j) by { if is_gap(t, j) { assert(!is_gap(x, j)); } }
        assert(t.take(k) =~= x); assert(t.skip(k + 2) =~= y);
        lemma_expand_gap(t, k);
        let z = zero_groups(8 - p.len() - q.len()); let o = Seq::new((8 - g.len() - h.len()) as nat, |i: int| 0u16);
        assert(digit('0', 16) == Some(0nat)); assert(number(seq!['0'], 16) == Some(0nat));
        assert forall|i: int| 0 <= i < (p + z + q).len() implies number(#[trigger] (p + z + q)[i], 16) == Some((g + o + h)[i] as nat) by { if i < p.len() { assert(number(p[i], 16) == Some(g[i] as nat)); } else if i >= 8 - q.len() { let l = i - (8 - q.len()); assert(number(q[l], 16) == Some(h[l] as nat)); } }
        lemma_denote(p + z + q, g + o + h);
    }
    pub proof fn lemma_side(p: Seq<Seq<char>>) requires full(p), forall|i: int| 0 <= i < p.len() ==> free(#[trigger] p[i], ':') ensures side(joined(p)) == p, p.len() > 0 ==> split(joined(p), ':') == p {
        if p.len() > 0 { lemma_split_join(p, ':'); if joined(p).len() == 0 { assert(p =~= seq![Seq::<char>::empty()]); assert(p[0].len() > 0); } } else { assert(p =~= Seq::empty()); }
    }
    /// the parts that are joined: the first i groups, of which l from k on are left out (k >= i: none left out)
    pub open spec fn none() -> Seq<Seq<char>> { seq![Seq::<char>::empty()] }
    pub open spec fn shown_parts(g: Seq<u16>, k: Option<usize>, l: int, i: int) -> Seq<Seq<char>> {
        match k { Some(k) if k < i => (if k == 0 { none() } else { hexs(g.take(k as int)) }) + none() + (if k + l == 8 { none() } else { hexs(g.subrange(k + l, i)) }), _ => hexs(g.take(i)) }
    }
    pub open spec fn zero_run(g: Seq<u16>, k: Option<usize>, l: int) -> bool { match k { Some(k) => 0 < l && k + l <= 8 && forall|j: int| k <= j < k + l ==> g[j] == 0, None => true } }
    pub proof fn lemma_shown_step(g: Seq<u16>, k: Option<usize>, l: int, i: int) requires g.len() == 8, zero_run(g, k, l), 0 <= i < 8, k is Some ==> i < k->0 || k->0 + l <= i ensures shown_parts(g, k, l, i + 1) == shown_parts(g, k, l, i).push(hex(g[i] as nat)) {
        assert(shown_parts(g, k, l, i + 1) =~= shown_parts(g, k, l, i).push(hex(g[i] as nat)));
    }
    pub proof fn lemma_shown_gap(g: Seq<u16>, k: usize, l: int) requires g.len() == 8, zero_run(g, Some(k), l)
        ensures shown_parts(g, Some(k), l, k + l) == (if k + l == 8 { (if k == 0 { shown_parts(g, Some(k), l, k as int) + none() } else { shown_parts(g, Some(k), l, k as int) }) + none() + none() } else { (if k == 0 { shown_parts(g, Some(k), l, k as int) + none() } else { shown_parts(g, Some(k), l, k as int) }) + none() })
    { assert(hexs(g.take(0)) =~= Seq::empty()); assert(hexs(g.subrange(k + l, k + l)) =~= Seq::empty()); assert(shown_parts(g, Some(k), l, k + l) =~= (if k + l == 8 { (if k == 0 { shown_parts(g, Some(k), l, k as int) + none() } else { shown_parts(g, Some(k), l, k as int) }) + none() + none() } else { (if k == 0 { shown_parts(g, Some(k), l, k as int) + none() } else { shown_parts(g, Some(k), l, k as int) }) + none() })); }
    pub proof fn lemma_shown_done(g: Seq<u16>, k: Option<usize>, l: int) requires g.len() == 8, zero_run(g, k, l) ensures read6(joined(shown_parts(g, k, l, 8))) == Some(g) {
        match k {
            None => { assert(g.take(8) =~= g); lemma_hexs(g); lemma_read_full(hexs(g), g); }
            Some(k) => {
                let (a, b) = (g.take(k as int), g.skip(k + l)); assert(g.subrange(k + l, 8) =~= b);
                let (p, q) = (hexs(a), hexs(b)); lemma_hexs(a); lemma_hexs(b); lemma_read_gap(p, a, q, b);
                assert(a + Seq::new((8 - a.len() - b.len()) as nat, |i: int| 0u16) + b =~= g);
                let x = if k == 0 { none() } else { p }; let y = if k + l == 8 { none() } else { q };
                if k == 0 { assert(p =~= Seq::empty()); } if k + l == 8 { assert(q =~= Seq::empty()); }
                assert(joined(x) == joined(p) && joined(y) == joined(q));
                let c = seq![':']; lemma_join_cat(x, none(), c); lemma_join_cat(x + none(), y, c);
                assert(joined(x) + c + Seq::<char>::empty() + c + joined(y) =~= joined(x) + seq![':', ':'] + joined(y));
            }
        }
    }
    pub proof fn lemma_unspecified() ensures v6_of(seq![':', ':']) == Some(Ipv6Address { top_half: 0, bottom_half: 0 }) {
        let e = Seq::<Seq<char>>::empty(); let n = Seq::<u16>::empty(); lemma_read_gap(e, n, e, n); assert(joined(e) + seq![':', ':'] + joined(e) =~= seq![':', ':']);
        let g = n + Seq::new(8, |i: int| 0u16) + n; lemma_acc6_done(g);
        assert((0u64 << 48u64) | (0u64 << 32u64) | (0u64 << 16u64) | (0u64 << 0u64) == 0) by (bit_vector);
        assert(acc6(g, 0) == 0 && acc6(g, 4) == 0);
    }
    pub proof fn lemma_hex_len(n: nat) requires n <= 0xffff ensures hex(n).len() <= 4 {
        reveal_with_fuel(digits, 5);
        if n >= 16 { let a = n / 16; assert(a <= 0xfff); if a >= 16 { let b = a / 16; assert(b <= 0xff); if b >= 16 { let c = b / 16; assert(c <= 15); } } }
    }
    pub open spec fn full_hexs(g: Seq<u16>) -> Seq<Seq<char>> { Seq::new(g.len(), |i: int| padded(hex(g[i] as nat), 4)) }
    pub proof fn lemma_full_hexs(g: Seq<u16>) ensures denote(full_hexs(g), g) { assert forall|i: int| 0 <= i < g.len() implies number(#[trigger] full_hexs(g)[i], 16) == Some(g[i] as nat) by { lemma_digits(g[i] as nat, 16); lemma_padded(hex(g[i] as nat), 4, 16); } }
}

%# ------------------------------------------------------------------ the functions
%module addr
use crate::addr_text::*;
use crate::text::*;
use crate::out::shown;
use crate::std_contracts::parsed;
broadcast use {crate::text::group_text, crate::std_contracts::group_len, crate::model::group_commute};
/// what was written: the text t
pub open spec fn wrote4(o: Seq<char>, n: Seq<char>, a: Ipv4Address) -> bool { exists|t: Seq<char>| v4_of(t) == Some(a) && #[trigger] (o + t) == n }
pub open spec fn wrote6(o: Seq<char>, n: Seq<char>, a: Ipv6Address) -> bool { exists|t: Seq<char>| v6_of(t) == Some(a) && #[trigger] (o + t) == n }
%fn addr::Ipv4Address::fmt(f)
    ensures ret is Ok ==> wrote4(ftext(old(f)), ftext(final(f)), *self)
%tail
    proof {
        let b = bytes@; let t = dec(b[0] as nat) + seq!['.'] + dec(b[1] as nat) + seq!['.'] + dec(b[2] as nat) + seq!['.'] + dec(b[3] as nat);
        reveal_strlit("."); assert("."@ =~= seq!['.']);
        lemma_v4_text(b, t); lemma_from_bits4(*self);
        assert(v4_of(t) == Some(*self));
        assert(forall|o: Seq<char>| #[trigger] (o + t) == o + t);
    }
%fn addr::Ipv4Address::from_str(s)
%entry
    let ghost mut g: Seq<u8> = Seq::empty();
    let ghost p0 = split(s@, '.');
    proof { lemma_acc_empty(); }
%loop 0
    invariant texts(chunks@) == p0, p0.len() == 4, vit0.seq().len() == 4, forall|j: int| 0 <= j < 4 ==> vit0.seq()[j] == j, g.len() == vit0.index(), forall|j: int| 0 <= j < g.len() ==> byte_of(#[trigger] p0[j]) == Some(g[j]), p0 == split(s@, '.'),
    addr_val == acc4(g), //@lacks <<8
    addr_val == horner4(g), //@has <<8
%body 0
    proof { let c = p0[i as int]; assert(c == chunks@[i as int]@); if number(c, 10) is Some { lemma_number_free(c, 10); assert(c[0] != '+'); } if byte_of(c) is None { assert(bytes_of(p0) is None); } }
%bodyend 0
    proof { lemma_acc4(g, chunk_val as u8); }
    proof { lemma_horner4(g, chunk_val as u8, horner4(g)); } //@has <<8
    proof { g = g.push(chunk_val as u8); }
%after 0
    proof { lemma_horner4_done(g); } //@has <<8
    proof { lemma_acc4_done(g); assert(bytes_of(p0)->0 =~= g); }
%fn addr::Ipv6Address::from_str(s)
%entry
    let ghost cs = split(closed(s@), ':');
    let ghost z = seq!['0'];
    let ghost mut g: Seq<u16> = Seq::empty();
    let ghost mut e: int = 0;
    let ghost mut pp = cs;
    proof { lemma_acc_empty(); reveal_strlit(":"); reveal_strlit("::"); reveal_strlit("0"); assert("0"@ =~= z); lemma_shape(s@); lemma_count(cs); }
%at let chunks : Vec < & str >
    proof { assert(addr_str@ =~= closed(s@)); }
%closure 0
$0: &&&str ||| bool ||| ensures cret == ($0@.len() == 0)
%atafter let shortening_count
    proof {
        assert(texts(chunks@) == cs);
        assert(exists|m: Seq<bool>| shortening_count == #[trigger] count_true(m) && marked(cs, m));
        if shortening_count == 0 { assert(full(cs)); }
        if shortening_count == 1 { e = choose|e: int| one_empty(cs, e); assert(one_empty(cs, e)); }
    }
%atafter let mut actual_chunks
    proof { assert(strings(actual_chunks@).len() == 0); }
%loop 0
    invariant vit0.seq() == chunks@.as_ref(), texts(chunks@) == cs, actual_chunks@.len() == vit0.index(), forall|j: int| 0 <= j < vit0.index() ==> #[trigger] actual_chunks@[j]@ == cs[j]
%loop 1
    invariant z == seq!['0'], "0"@ == z, actual_chunks@.len() == vit1.index(), vit1.seq().len() == 8, forall|j: int| 0 <= j < vit1.index() ==> #[trigger] actual_chunks@[j]@ == z
%loop 2
    invariant_except_break vit2.index() <= e, forall|j: int| 0 <= j < 8 ==> #[trigger] actual_chunks@[j]@ == (if j < vit2.index() { cs[j] } else { z })
    invariant vit2.seq().len() == chunks@.len(), forall|j: int| 0 <= j < vit2.seq().len() ==> vit2.seq()[j] == j, texts(chunks@) == cs, one_empty(cs, e), e <= 7, actual_chunks@.len() == 8
    ensures forall|j: int| 0 <= j < 8 ==> #[trigger] actual_chunks@[j]@ == (if j < e { cs[j] } else { z })
%body 2
    proof { assert(cs[i as int] == chunks@[i as int]@); }
%loop 3
    invariant_except_break vit3.index() <= cs.len() - 1 - e, forall|j: int| 0 <= j < 8 ==> #[trigger] actual_chunks@[j]@ == (if j + vit3.index() >= 8 { cs[cs.len() - 8 + j] } else if j < e { cs[j] } else { z })
    invariant vit3.seq().len() == chunks@.len(), forall|j: int| 0 <= j < vit3.seq().len() ==> vit3.seq()[j] == j, texts(chunks@) == cs, one_empty(cs, e), e <= 7, cs.len() - 1 - e <= 7, actual_chunks@.len() == 8
    ensures forall|j: int| 0 <= j < 8 ==> #[trigger] actual_chunks@[j]@ == (if j + cs.len() - 1 - e >= 8 { cs[cs.len() - 8 + j] } else if j < e { cs[j] } else { z })
%body 3
    proof { assert(cs[cs.len() - 1 - i] == chunks@[chunks@.len() - 1 - i]@); }
%after 3
    proof { pp = spread(cs, e); }
%before 4
    proof { assert(read6(s@) == groups_of(pp)); }
%loop 4
    invariant read6(s@) == groups_of(pp), pp.len() == 8, actual_chunks@.len() == 8, forall|j: int| 0 <= j < 8 ==> #[trigger] actual_chunks@[j]@ == pp[j], vit4.seq().len() == 8, forall|j: int| 0 <= j < 8 ==> vit4.seq()[j] == j, g.len() == vit4.index(), forall|j: int| 0 <= j < g.len() ==> group_of(#[trigger] pp[j]) == Some(g[j]), top_half == acc6(g, 0), bottom_half == acc6(g, 4)
%body 4
    proof { let c = pp[i as int]; assert(c == actual_chunks@[i as int]@); if number(c, 16) is Some { lemma_number_free(c, 16); assert(c[0] != '+'); } if group_of(c) is None { assert(groups_of(pp) is None); } }
%bodyend 4
    proof { let ghost cv: u16 = #[verifier::truncate] (chunk_value as u16); lemma_acc6(g, 0, cv); lemma_acc6(g, 4, cv); g = g.push(cv); }
%after 4
    proof { lemma_acc6_done(g); assert(groups_of(pp)->0 =~= g); }
%fn addr::Ipv6Address::fmt(f)
    ensures ret is Ok ==> wrote6(ftext(old(f)), ftext(final(f)), *self)
%entry
    proof { reveal_strlit("::"); reveal_strlit(""); reveal_strlit(":"); assert("::"@ =~= seq![':', ':']); assert(""@ =~= Seq::empty()); assert(":"@ =~= seq![':']); lemma_unspecified(); }
%atafter let chunks
    let ghost g = chunks@;
    proof { lemma_from_bits6(*self); }
%loop 0
    invariant i <= 8, chunks@ == g, g.len() == 8, zero_run(g, zero_index, zero_length as int), zero_length <= 8
    decreases 8 - i
%loop 1
    invariant i < j <= 8, chunks@ == g, g.len() == 8, forall|k: int| i <= k < j ==> g[k] == 0
    decreases 8 - j
%atafter let mut chunk_strings
    proof { assert(strings(chunk_strings@) =~= Seq::empty()); assert(hexs(g.take(0)) =~= Seq::empty()); }
%loop 2
    invariant i <= 8, chunks@ == g, g.len() == 8, zero_run(g, zero_index, zero_length as int), strings(chunk_strings@) == shown_parts(g, zero_index, zero_length as int, i as int), zero_index is Some ==> i <= zero_index->0 || zero_index->0 + zero_length <= i, ""@ == Seq::<char>::empty()
    decreases 8 - i
%body 2
    let ghost (i0, c0) = (i, strings(chunk_strings@));
    proof { match zero_index { Some(k) if k == i => { lemma_shown_gap(g, k, zero_length as int); } _ => { lemma_shown_step(g, zero_index, zero_length as int, i as int); } } }
%bodyend 2
    proof {
        let c = strings(chunk_strings@);
        if zero_index == Some(i0) {
            if i0 == 0 { if i == 8 { assert(c =~= c0 + none() + none() + none()); } else { assert(c =~= c0 + none() + none()); } }
            else { if i == 8 { assert(c =~= c0 + none() + none()); } else { assert(c =~= c0 + none()); } }
        } else { assert(c =~= c0.push(hex(g[i0 as int] as nat))); }
    }
%after 2
    proof {
        let t = joined(shown_parts(g, zero_index, zero_length as int, 8)); lemma_shown_done(g, zero_index, zero_length as int);
        assert(v6_of(t) == Some(*self)); assert(forall|o: Seq<char>| #[trigger] (o + t) == o + t);
    }
%fn addr::Ipv6Address::to_full_string
    ensures v6_of(ret@) == Some(*self), split(ret@, ':').len() == 8, forall|i: int| 0 <= i < 8 ==> (#[trigger] split(ret@, ':')[i]).len() == 4
%atafter let chunks
    let ghost g = chunks@;
    proof { lemma_from_bits6(*self); reveal_strlit(":"); assert(":"@ =~= seq![':']); }
%loop 0
    invariant chunks@ == g, forall|j: int| 0 <= j < vit0.seq().len() ==> vit0.seq()[j] == j, vit0.seq().len() == 8, strings(chunk_strings@) == full_hexs(g).take(vit0.index() as int)
%body 0
    let ghost c0 = strings(chunk_strings@);
%bodyend 0
    proof { assert(full_hexs(g)[i as int] == padded(hex(g[i as int] as nat), 4)); assert(strings(chunk_strings@) =~= c0.push(padded(hex(g[i as int] as nat), 4))); assert(strings(chunk_strings@) =~= full_hexs(g).take(i + 1)); }
%after 0
    proof { lemma_full_hexs(g); assert(full_hexs(g).take(8) =~= full_hexs(g)); lemma_read_full(full_hexs(g), g); assert forall|i: int| 0 <= i < 8 implies (#[trigger] full_hexs(g)[i]).len() == 4 by { lemma_hex_len(g[i] as nat); lemma_padded(hex(g[i] as nat), 4, 16); } }
