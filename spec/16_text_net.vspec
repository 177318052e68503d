%# Network specifications as text: ADDRESS/PREFIX, ADDRESS/MASK, ADDRESS/-WILDCARD.
%module root
pub mod netspec {
    use vstd::prelude::*;
    use crate::addr::*;
    use crate::model::*;
    use crate::text::*;
    use crate::addr_text::*;
    use crate::rx::*;
    use crate::net::IpNetwork;
    use crate::cmds::*;
    use crate::out::shown;
    broadcast use crate::text::group_text;
    /// the network of an address under a mask
    pub open spec fn network<A: IpAddress>(a: A, m: Seq<bool>) -> IpNetwork<A> {
        IpNetwork { base_addr: A::from_bits(and_bits(a.bits(), m)), subnet_mask: A::from_bits(m), cidr_prefix: if is_mask(m) { Some(ones(m) as usize) } else { None } }
    }
    pub open spec fn same_net<A: IpAddress>(n: IpNetwork<A>, a: A, m: Seq<bool>) -> bool { n.wf() && n.m() == m && n.b() == and_bits(a.bits(), m) }
    pub proof fn lemma_network<A: IpAddress>() ensures forall|n: IpNetwork<A>, a: A, m: Seq<bool>| #![trigger network(a, m), n.wf()] same_net(n, a, m) ==> n == network(a, m) {
        A::laws();
        assert forall|n: IpNetwork<A>, a: A, m: Seq<bool>| #![trigger network(a, m), n.wf()] same_net(n, a, m) implies n == network(a, m) by {
            let k = network(a, m); assert(n.base_addr.bits() == k.base_addr.bits()); assert(n.subnet_mask.bits() == k.subnet_mask.bits());
        }
    }
    pub open spec fn wild(t: Seq<char>) -> bool { t.len() > 0 && t[0] == '-' }
    pub open spec fn unsigned(t: Seq<char>) -> Seq<char> { if wild(t) { t.skip(1) } else { t } }
    /// the mask of a prefix length (with w: of a number of host bits)
    pub open spec fn prefix_mask(t: Seq<char>, w: bool, width: nat) -> Option<Seq<bool>> { match number(t, 10) { Some(n) if n <= width => Some(mask_bits(if w { (width - n) as nat } else { n }, width)), _ => None } }
    pub open spec fn masked<A: IpAddress>(y: A, w: bool) -> Seq<bool> { if w { not_bits(y.bits()) } else { y.bits() } }
    pub open spec fn mask4(t: Seq<char>, w: bool) -> Option<Seq<bool>> { match v4_of(t) { Some(y) => Some(masked(y, w)), None => prefix_mask(t, w, 32) } }
    pub open spec fn mask6(t: Seq<char>, w: bool) -> Option<Seq<bool>> { match v6_of(t) { Some(y) => Some(masked(y, w)), None => prefix_mask(t, w, 128) } }
    pub open spec fn spec4(a: Option<Ipv4Address>, m: Option<Seq<bool>>) -> Option<NetworkSpec> { match (a, m) { (Some(a), Some(m)) => Some(NetworkSpec::Ipv4(a, network(a, m))), _ => None } }
    pub open spec fn spec6(a: Option<Ipv6Address>, m: Option<Seq<bool>>) -> Option<NetworkSpec> { match (a, m) { (Some(a), Some(m)) => Some(NetworkSpec::Ipv6(a, network(a, m))), _ => None } }
    pub open spec fn netspec_of(s: Seq<char>) -> Option<NetworkSpec> {
        let p = split(s, '/');
        if p.len() != 2 { None } else {
            let t = unsigned(p[1]);
            if v4_of(p[0]) is Some { spec4(v4_of(p[0]), mask4(t, wild(p[1]))) } else { spec6(v6_of(p[0]), mask6(t, wild(p[1]))) }
        }
    }
    pub open spec fn address_of(s: Seq<char>) -> Option<ParsedIpAddress> {
        match v4_of(s) { Some(a) => Some(ParsedIpAddress::Ipv4(a)), None => match v6_of(s) { Some(a) => Some(ParsedIpAddress::Ipv6(a)), None => None } }
    }
    /// a mask or a prefix length (--resize); the number may have a plus sign
    pub open spec fn mask_of(s: Seq<char>) -> Option<ParsedSubnet> {
        match v4_of(s) { Some(a) => Some(ParsedSubnet::Ipv4Mask(a)), None => match v6_of(s) { Some(a) => Some(ParsedSubnet::Ipv6Mask(a)), None => match integer(s, 10, usize::MAX as nat) { Some(n) => Some(ParsedSubnet::Cidr(n as usize)), None => None } } }
    }
    // ------------------------------------------------------------------ characters
    pub open spec fn c10() -> Class { seq![('0', '9')] }
    pub open spec fn chex() -> Class { seq![('0', ':'), ('A', 'F'), ('a', 'f')] }
    pub open spec fn cdot() -> Class { seq![('.', '.'), ('0', '9')] }
    pub proof fn lemma_single(c: char) ensures forall|x: char| #[trigger] in_class(seq![(c, c)], x) <==> x == c { assert(seq![(c, c)][0] == (c, c)); assert forall|x: char| #[trigger] in_class(seq![(c, c)], x) <==> x == c by { if x == c { assert(seq![(c, c)][0].0 <= x); } } }
    pub proof fn lemma_classes()
        ensures
            forall|x: char| #[trigger] in_class(c10(), x) <==> '0' <= x && x <= '9',
            forall|x: char| #[trigger] in_class(cdot(), x) <==> '0' <= x && x <= '9' || x == '.',
            forall|x: char| #[trigger] in_class(chex(), x) <==> '0' <= x && x <= ':' || 'A' <= x && x <= 'F' || 'a' <= x && x <= 'f',
    {
        assert forall|x: char| #[trigger] in_class(c10(), x) <==> '0' <= x && x <= '9' by { assert(c10()[0] == ('0', '9')); }
        assert forall|x: char| #[trigger] in_class(cdot(), x) <==> '0' <= x && x <= '9' || x == '.' by { assert(cdot()[0] == ('.', '.')); assert(cdot()[1] == ('0', '9')); }
        assert forall|x: char| #[trigger] in_class(chex(), x) <==> '0' <= x && x <= ':' || 'A' <= x && x <= 'F' || 'a' <= x && x <= 'f' by { assert(chex()[0] == ('0', ':')); assert(chex()[1] == ('A', 'F')); assert(chex()[2] == ('a', 'f')); }
    }
    pub open spec fn dot() -> Rx { one(seq![('.', '.')]) }
    pub open spec fn dotted() -> Rx { cat(many(c10()), cat(dot(), cat(many(c10()), cat(dot(), cat(many(c10()), cat(dot(), many(c10()))))))) }
    pub open spec fn hexes() -> Rx { many(chex()) }
    pub open spec fn coloned() -> Rx { cat(opt(many(chex())), cat(one(seq![(':', ':')]), opt(many(chex())))) }
    pub proof fn lemma_number_chars(x: Seq<char>) ensures number(x, 10) is Some <==> x.len() > 0 && all_in(c10(), x) {
        lemma_classes();
        if number(x, 10) is Some { lemma_number(x, 10); assert forall|i: int| 0 <= i < x.len() implies in_class(c10(), #[trigger] x[i]) by { assert(digit(x[i], 10) is Some); } }
        if x.len() > 0 && all_in(c10(), x) { assert forall|i: int| 0 <= i < x.len() implies digit(#[trigger] x[i], 10) is Some by { assert(in_class(c10(), x[i])); } lemma_is_number(x, 10); }
    }
    pub proof fn lemma_number16(x: Seq<char>) requires number(x, 16) is Some ensures x.len() > 0, all_in(chex(), x), free(x, ':'), free(x, '.') {
        lemma_classes(); lemma_number(x, 16); lemma_number_free(x, 16); assert forall|i: int| 0 <= i < x.len() implies in_class(chex(), #[trigger] x[i]) by { assert(digit(x[i], 16) is Some); }
    }
    /// the characters of the parts and the separator
    pub proof fn lemma_split_chars(s: Seq<char>, c: char, k: Class) requires in_class(k, c), forall|i: int| 0 <= i < split(s, c).len() ==> all_in(k, #[trigger] split(s, c)[i]) ensures all_in(k, s) decreases s.len() {
        lemma_split_len(s, c);
        if s.len() > 0 {
            let r = s.drop_last(); let p = split(r, c); let q = split(s, c); lemma_split_len(r, c);
            assert forall|i: int| 0 <= i < p.len() implies all_in(k, #[trigger] p[i]) by {
                if s.last() == c { assert(q[i] == p[i]); } else if i < p.len() - 1 { assert(q[i] == p[i]); }
                else { assert(all_in(k, q[i])); assert forall|j: int| 0 <= j < p[i].len() implies in_class(k, #[trigger] p[i][j]) by { assert(q[i][j] == p[i][j]); } }
            }
            lemma_split_chars(r, c, k);
            assert forall|i: int| 0 <= i < s.len() implies in_class(k, #[trigger] s[i]) by { if i < r.len() { assert(s[i] == r[i]); } else if s.last() != c { let l = q[q.len() - 1]; assert(all_in(k, l)); assert(in_class(k, l[l.len() - 1])); } }
        }
    }
    pub proof fn lemma_v6_chars(s: Seq<char>) requires v6_of(s) is Some ensures s.len() > 0, all_in(chex(), s), !free(s, ':'), free(s, '.'), free(s, '/'), free(s, '-') {
        lemma_classes(); let p = expand(s)->0; assert(groups_of(p) is Some); assert(in_class(chex(), ':'));
        assert forall|i: int| 0 <= i < p.len() implies all_in(chex(), #[trigger] p[i]) by { assert(group_of(p[i]) is Some); lemma_number16(p[i]); }
        if no_gap(s) {
            lemma_expand_none(s); if free(s, ':') { lemma_split_free(s, ':'); }
            lemma_split_chars(s, ':', chex());
        } else {
            let g = choose|g: int| is_gap(s, g); lemma_first_gap(s, g); let k = choose|k: int| first_gap(s, k); lemma_expand_gap(s, k);
            let (x, y) = (s.take(k), s.skip(k + 2)); let (a, b) = (side(x), side(y));
            assert forall|i: int| 0 <= i < a.len() implies all_in(chex(), #[trigger] a[i]) by { assert(p[i] == a[i]); }
            assert forall|i: int| 0 <= i < b.len() implies all_in(chex(), #[trigger] b[i]) by { assert(p[8 - b.len() + i] == b[i]); }
            if x.len() > 0 { lemma_split_chars(x, ':', chex()); } if y.len() > 0 { lemma_split_chars(y, ':', chex()); }
            assert forall|i: int| 0 <= i < s.len() implies in_class(chex(), #[trigger] s[i]) by { if i < k { assert(s[i] == x[i]); } else if i > k + 1 { assert(s[i] == y[i - k - 2]); } }
        }
        assert forall|i: int| 0 <= i < s.len() implies s[i] != '.' && s[i] != '/' && s[i] != '-' by { assert(in_class(chex(), s[i])); }
    }
    pub proof fn lemma_v4_chars(s: Seq<char>, e: Env) requires v4_of(s) is Some ensures m(dotted(), s, e) {
        let p = split(s, '.'); lemma_join_split(s, '.'); let c = seq!['.']; lemma_single('.');
        assert forall|i: int| 0 <= i < 4 implies m(many(c10()), #[trigger] p[i], e) by { assert(byte_of(p[i]) is Some); lemma_number_chars(p[i]); }
        let (q1, q2, q3) = (seq![p[0]], seq![p[0], p[1]], seq![p[0], p[1], p[2]]);
        assert(join(q1, c) == p[0]); assert(q2.drop_last() =~= q1); assert(join(q2, c) == p[0] + c + p[1]);
        assert(q3.drop_last() =~= q2); assert(join(q3, c) == p[0] + c + p[1] + c + p[2]); assert(p.drop_last() =~= q3);
        assert(c[0] == '.'); assert(in_class(seq![('.', '.')], c[0])); assert(m(dot(), c, e));
        let d = many(c10());
        let x3 = c + p[3]; lemma_cat(dot(), d, c, p[3], e); let y3 = p[2] + x3; lemma_cat(d, cat(dot(), d), p[2], x3, e);
        let x2 = c + y3; lemma_cat(dot(), cat(d, cat(dot(), d)), c, y3, e); let y2 = p[1] + x2; lemma_cat(d, cat(dot(), cat(d, cat(dot(), d))), p[1], x2, e);
        let x1 = c + y2; lemma_cat(dot(), cat(d, cat(dot(), cat(d, cat(dot(), d)))), c, y2, e); lemma_cat(d, cat(dot(), cat(d, cat(dot(), cat(d, cat(dot(), d))))), p[0], x1, e);
        assert(s =~= p[0] + x1);
    }
    pub proof fn lemma_dotted(s: Seq<char>, e: Env) requires m(dotted(), s, e) ensures !free(s, '.'), free(s, '/'), free(s, '-'), free(s, ':'), s.len() > 0 {
        lemma_classes(); lemma_single('.');
        assert(over(dot(), cdot())); assert(over(many(c10()), cdot())); assert(over(cat(dot(), many(c10())), cdot())); assert(over(cat(many(c10()), cat(dot(), many(c10()))), cdot()));
        assert(over(cat(dot(), cat(many(c10()), cat(dot(), many(c10())))), cdot())); assert(over(cat(many(c10()), cat(dot(), cat(many(c10()), cat(dot(), many(c10()))))), cdot()));
        assert(over(cat(dot(), cat(many(c10()), cat(dot(), cat(many(c10()), cat(dot(), many(c10())))))), cdot())); assert(over(dotted(), cdot()));
        lemma_over(dotted(), cdot(), s, e);
        let b = cat(dot(), cat(many(c10()), cat(dot(), cat(many(c10()), cat(dot(), many(c10()))))));
        let k = choose|k: int| #[trigger] cut(k, s) && m(many(c10()), s.take(k), e) && m(b, s.skip(k), e); let t = s.skip(k);
        let j = choose|j: int| #[trigger] cut(j, t) && m(dot(), t.take(j), e) && m(cat(many(c10()), cat(dot(), cat(many(c10()), cat(dot(), many(c10()))))), t.skip(j), e);
        assert(t.take(j)[0] == '.'); assert(s[k] == '.');
        assert forall|i: int| 0 <= i < s.len() implies s[i] != '/' && s[i] != '-' && s[i] != ':' by { assert(in_class(cdot(), s[i])); }
    }
    pub proof fn lemma_hexes(s: Seq<char>) requires all_in(chex(), s) ensures free(s, '/'), free(s, '-'), free(s, '.') {
        lemma_classes(); assert forall|i: int| 0 <= i < s.len() implies s[i] != '/' && s[i] != '-' && s[i] != '.' by { assert(in_class(chex(), s[i])); }
    }
    pub proof fn lemma_coloned(s: Seq<char>, e: Env) ensures m(coloned(), s, e) <==> all_in(chex(), s) && !free(s, ':') {
        lemma_classes(); lemma_single(':'); let h = opt(many(chex())); let c = one(seq![(':', ':')]);
        assert(in_class(chex(), ':'));
        if m(coloned(), s, e) {
            let k = choose|k: int| #[trigger] cut(k, s) && m(h, s.take(k), e) && m(cat(c, h), s.skip(k), e); let t = s.skip(k);
            let j = choose|j: int| #[trigger] cut(j, t) && m(c, t.take(j), e) && m(h, t.skip(j), e);
            assert(t.take(j)[0] == ':'); assert(s[k] == ':'); assert(j == 1);
            assert(s.take(k).len() == 0 || m(many(chex()), s.take(k), e)); assert(t.skip(1).len() == 0 || m(many(chex()), t.skip(1), e)); assert(all_in(chex(), s.take(k))); assert(all_in(chex(), t.skip(1)));
            assert forall|i: int| 0 <= i < s.len() implies in_class(chex(), #[trigger] s[i]) by { if i < k { assert(in_class(chex(), s.take(k)[i])); } else if i > k { assert(in_class(chex(), t.skip(1)[i - k - 1])); } }
        }
        if all_in(chex(), s) && !free(s, ':') {
            let k = choose|k: int| 0 <= k < s.len() && s[k] == ':'; let (x, y) = (s.take(k), s.skip(k + 1));
            assert forall|i: int| 0 <= i < x.len() implies in_class(chex(), #[trigger] x[i]) by { assert(x[i] == s[i]); }
            assert forall|i: int| 0 <= i < y.len() implies in_class(chex(), #[trigger] y[i]) by { assert(y[i] == s[k + 1 + i]); }
            assert(unset(many(chex()), e)); if x.len() > 0 { assert(m(many(chex()), x, e)); } if y.len() > 0 { assert(m(many(chex()), y, e)); }
            assert(m(h, x, e)); assert(m(h, y, e)); assert(seq![':'][0] == ':'); assert(in_class(seq![(':', ':')], seq![':'][0])); assert(m(c, seq![':'], e));
            lemma_cat(c, h, seq![':'], y, e); lemma_cat(h, cat(c, h), x, seq![':'] + y, e); assert(s =~= x + (seq![':'] + y));
        }
    }
    // ------------------------------------------------------------------ the whole specification
    pub open spec fn minus() -> Rx { name("wildcard"@, one(seq![('-', '-')])) }
    pub open spec fn slash() -> Rx { one(seq![('/', '/')]) }
    pub open spec fn shape(a: Rx, n: Seq<char>, x: Rx) -> Rx { cat(name("addr"@, a), cat(slash(), cat(opt(minus()), name(n, x)))) }
    pub open spec fn sign_text(w: bool) -> Seq<char> { if w { seq!['-'] } else { Seq::empty() } }
    pub open spec fn put(a: Seq<char>, w: bool, t: Seq<char>) -> Seq<char> { a + seq!['/'] + (sign_text(w) + t) }
    pub open spec fn clean(t: Seq<char>) -> bool { free(t, '/') && free(t, '-') }
    /// how the specification falls into parts
    pub proof fn lemma_put(a: Seq<char>, w: bool, t: Seq<char>) requires free(a, '/'), clean(t) ensures split(put(a, w, t), '/').len() == 2, split(put(a, w, t), '/')[0] == a, wild(split(put(a, w, t), '/')[1]) == w, unsigned(split(put(a, w, t), '/')[1]) == t {
        let r = sign_text(w) + t; lemma_split_cat(a, '/', r); lemma_split_free(a, '/'); assert(free(r, '/')) by { assert forall|i: int| 0 <= i < r.len() implies r[i] != '/' by { if i >= sign_text(w).len() { assert(r[i] == t[i - sign_text(w).len()]); } } } lemma_split_free(r, '/');
        assert(w ==> r.skip(1) =~= t); assert(!w ==> r =~= t); if !w && t.len() > 0 { assert(t[0] != '-'); }
    }
    pub open spec fn fits(a: Rx, n: Seq<char>, s: Seq<char>, e: Env) -> bool { e("addr"@) is Some && e(n) is Some && s == put(e("addr"@)->0, e("wildcard"@) is Some, e(n)->0) }
    pub proof fn lemma_parts(a: Rx, b: Rx, s: Seq<char>, e: Env) -> (k: int) requires m(cat(a, b), s, e) ensures cut(k, s), m(a, s.take(k), e), m(b, s.skip(k), e) { choose|k: int| #[trigger] cut(k, s) && m(a, s.take(k), e) && m(b, s.skip(k), e) }
    pub proof fn lemma_named(n: Seq<char>, a: Rx, s: Seq<char>, e: Env) requires m(name(n, a), s, e) ensures e(n) == Some(s), m(a, s, e) { }
    pub proof fn lemma_slash(t: Seq<char>, e: Env) requires m(slash(), t, e) ensures t == seq!['/'] { lemma_single('/'); assert(t =~= seq!['/']); }
    pub proof fn lemma_sign_text(u: Seq<char>, e: Env) requires m(opt(minus()), u, e) ensures u == sign_text(e("wildcard"@) is Some) {
        lemma_single('-');
        if m(minus(), u, e) { assert(m(one(seq![('-', '-')]), u, e)); assert(u =~= seq!['-']); } else { assert(unset(minus(), e)); assert(u =~= Seq::empty()); }
    }
    pub proof fn lemma_shape(a: Rx, n: Seq<char>, x: Rx, s: Seq<char>, e: Env) requires m(shape(a, n, x), s, e) ensures fits(a, n, s, e), m(a, e("addr"@)->0, e), m(x, e(n)->0, e) {
        let na = name("addr"@, a); let nx = name(n, x); let r2 = cat(opt(minus()), nx); let r1 = cat(slash(), r2);
        lemma_shape_inner(a, n, x, s, e, na, nx, r1, r2);
    }
    pub proof fn lemma_shape_inner(a: Rx, n: Seq<char>, x: Rx, s: Seq<char>, e: Env, na: Rx, nx: Rx, r1: Rx, r2: Rx) requires m(cat(na, r1), s, e), na == name("addr"@, a), nx == name(n, x), r2 == cat(opt(minus()), nx), r1 == cat(slash(), r2) ensures fits(a, n, s, e), m(a, e("addr"@)->0, e), m(x, e(n)->0, e) {
        hide(m);
        let k = lemma_parts(na, r1, s, e); let t = s.skip(k);
        let j = lemma_parts(slash(), r2, t, e); let u = t.skip(j);
        let i = lemma_parts(opt(minus()), nx, u, e);
        lemma_named("addr"@, a, s.take(k), e); lemma_named(n, x, u.skip(i), e); lemma_slash(t.take(j), e); lemma_sign_text(u.take(i), e);
        assert(s =~= s.take(k) + t); assert(t =~= t.take(j) + u); assert(u =~= u.take(i) + u.skip(i));
        assert(s =~= put(e("addr"@)->0, e("wildcard"@) is Some, e(n)->0));
    }
    pub open spec fn env(a: Seq<char>, w: bool, n: Seq<char>, t: Seq<char>) -> Env { |k: Seq<char>| if k == "addr"@ { Some(a) } else if k == n { Some(t) } else if k == "wildcard"@ && w { Some(seq!['-']) } else { None::<Seq<char>> } }
    pub proof fn lemma_shape_make(a: Rx, n: Seq<char>, x: Rx, ta: Seq<char>, w: bool, t: Seq<char>)
        requires n == "mask"@ || n == "cidr"@, m(a, ta, env(ta, w, n, t)), m(x, t, env(ta, w, n, t))
        ensures matches(shape(a, n, x), put(ta, w, t))
    {
        reveal_strlit("addr"); reveal_strlit("mask"); reveal_strlit("cidr"); reveal_strlit("wildcard");
        assert("addr"@[0] != "mask"@[0]); assert("addr"@[0] != "cidr"@[0]); assert("wildcard"@.len() == 8);
        lemma_single('/'); lemma_single('-'); let e = env(ta, w, n, t);
        assert(m(name("addr"@, a), ta, e)); assert(m(name(n, x), t, e));
        assert(seq!['/'][0] == '/'); assert(in_class(seq![('/', '/')], seq!['/'][0])); assert(m(slash(), seq!['/'], e));
        if w { assert(seq!['-'][0] == '-'); assert(in_class(seq![('-', '-')], seq!['-'][0])); assert(m(one(seq![('-', '-')]), seq!['-'], e)); assert(m(minus(), seq!['-'], e)); } else { assert(unset(one(seq![('-', '-')]), e)); assert(unset(minus(), e)); }
        assert(m(opt(minus()), sign_text(w), e));
        lemma_cat(opt(minus()), name(n, x), sign_text(w), t, e); let u = sign_text(w) + t; let r2 = cat(opt(minus()), name(n, x));
        lemma_cat(slash(), r2, seq!['/'], u, e); lemma_cat(name("addr"@, a), cat(slash(), r2), ta, seq!['/'] + u, e);
        assert(put(ta, w, t) =~= ta + (seq!['/'] + u));
        assert(m(shape(a, n, x), put(ta, w, t), e));
    }
    pub open spec fn r41() -> Rx { shape(dotted(), "mask"@, dotted()) }
    pub open spec fn r42() -> Rx { shape(dotted(), "cidr"@, many(c10())) }
    pub open spec fn r61() -> Rx { shape(hexes(), "mask"@, coloned()) }
    pub open spec fn r62() -> Rx { shape(hexes(), "cidr"@, many(c10())) }
    pub proof fn lemma_no_dot4(s: Seq<char>) requires free(s, '.') ensures v4_of(s) is None { lemma_split_free(s, '.'); }
    pub proof fn lemma_no_colon6(s: Seq<char>) requires free(s, ':') ensures v6_of(s) is None { if v6_of(s) is Some { lemma_v6_chars(s); } }
    pub proof fn lemma_dot6(s: Seq<char>) requires !free(s, '.') ensures v6_of(s) is None { if v6_of(s) is Some { lemma_v6_chars(s); } }
    /// what is read when a pattern matches
    pub open spec fn read4(s: Seq<char>, n: Seq<char>, e: Env) -> bool { netspec_of(s) == spec4(v4_of(e("addr"@)->0), if n == "mask"@ { match v4_of(e(n)->0) { Some(y) => Some(masked(y, e("wildcard"@) is Some)), None => None } } else { prefix_mask(e(n)->0, e("wildcard"@) is Some, 32) }) }
    pub open spec fn read6n(s: Seq<char>, n: Seq<char>, e: Env) -> bool { netspec_of(s) == spec6(v6_of(e("addr"@)->0), if n == "mask"@ { match v6_of(e(n)->0) { Some(y) => Some(masked(y, e("wildcard"@) is Some)), None => None } } else { prefix_mask(e(n)->0, e("wildcard"@) is Some, 128) }) }
    pub open spec fn digits_only(t: Seq<char>) -> bool { number(t, 10) is Some && t[0] != '+' }
    pub proof fn lemma_names() ensures "mask"@ != "cidr"@ { reveal_strlit("mask"); reveal_strlit("cidr"); assert("mask"@[0] != "cidr"@[0]); }
    pub proof fn lemma_r41(s: Seq<char>, e: Env) requires m(r41(), s, e) ensures fits(dotted(), "mask"@, s, e), read4(s, "mask"@, e) {
        lemma_shape(dotted(), "mask"@, dotted(), s, e); let (a, t) = (e("addr"@)->0, e("mask"@)->0); lemma_dotted(a, e); lemma_dotted(t, e); lemma_put(a, e("wildcard"@) is Some, t);
        lemma_dot6(a); if number(t, 10) is Some { lemma_number_free(t, 10); }
    }
    pub proof fn lemma_r42(s: Seq<char>, e: Env) requires m(r42(), s, e) ensures fits(dotted(), "cidr"@, s, e), read4(s, "cidr"@, e), digits_only(e("cidr"@)->0) {
        lemma_names(); lemma_shape(dotted(), "cidr"@, many(c10()), s, e); let (a, t) = (e("addr"@)->0, e("cidr"@)->0); lemma_dotted(a, e); lemma_number_chars(t); lemma_number_free(t, 10); lemma_put(a, e("wildcard"@) is Some, t);
        lemma_dot6(a); lemma_no_dot4(t);
    }
    pub proof fn lemma_r61(s: Seq<char>, e: Env) requires m(r61(), s, e) ensures fits(hexes(), "mask"@, s, e), read6n(s, "mask"@, e) {
        lemma_shape(hexes(), "mask"@, coloned(), s, e); let (a, t) = (e("addr"@)->0, e("mask"@)->0); lemma_hexes(a); lemma_coloned(t, e); lemma_hexes(t); lemma_put(a, e("wildcard"@) is Some, t);
        lemma_no_dot4(a); if number(t, 10) is Some { lemma_number_free(t, 10); }
    }
    pub proof fn lemma_r62(s: Seq<char>, e: Env) requires m(r62(), s, e) ensures fits(hexes(), "cidr"@, s, e), read6n(s, "cidr"@, e), digits_only(e("cidr"@)->0) {
        lemma_names(); lemma_shape(hexes(), "cidr"@, many(c10()), s, e); let (a, t) = (e("addr"@)->0, e("cidr"@)->0); lemma_hexes(a); lemma_number_chars(t); lemma_number_free(t, 10); lemma_put(a, e("wildcard"@) is Some, t);
        lemma_no_dot4(a); lemma_no_colon6(t);
    }
    /// what is read matches a pattern
    pub proof fn lemma_some_pattern(s: Seq<char>) requires netspec_of(s) is Some ensures matches(r41(), s) || matches(r42(), s) || matches(r61(), s) || matches(r62(), s) {
        let p = split(s, '/'); let (a, w, t) = (p[0], wild(p[1]), unsigned(p[1])); lemma_join_split(s, '/');
        assert(p.drop_last() =~= seq![a]); assert(join(seq![a], seq!['/']) == a); assert(s == a + seq!['/'] + p[1]);
        assert(p[1] =~= sign_text(w) + t); assert(s == put(a, w, t));
        let (em, ec) = (env(a, w, "mask"@, t), env(a, w, "cidr"@, t));
        if v4_of(a) is Some {
            lemma_v4_chars(a, em); lemma_v4_chars(a, ec);
            if v4_of(t) is Some { lemma_v4_chars(t, em); lemma_shape_make(dotted(), "mask"@, dotted(), a, w, t); }
            else { lemma_number_chars(t); lemma_shape_make(dotted(), "cidr"@, many(c10()), a, w, t); }
        } else {
            lemma_v6_chars(a);
            if v6_of(t) is Some { lemma_v6_chars(t); lemma_coloned(t, em); lemma_shape_make(hexes(), "mask"@, coloned(), a, w, t); }
            else { lemma_number_chars(t); lemma_shape_make(hexes(), "cidr"@, many(c10()), a, w, t); }
        }
    }
    /// the patterns of the program
    pub proof fn lemma_patterns() ensures ast_IPV4_WITH_SUBNET_REGEX() == r41(), ast_IPV4_WITH_CIDR_REGEX() == r42(), ast_IPV6_WITH_SUBNET_REGEX() == r61(), ast_IPV6_WITH_CIDR_REGEX() == r62() { }
    pub proof fn lemma_read(s: Seq<char>)
        ensures
            forall|e: Env| #[trigger] m(ast_IPV4_WITH_SUBNET_REGEX(), s, e) ==> e("addr"@) is Some && e("mask"@) is Some && read4(s, "mask"@, e),
            forall|e: Env| #[trigger] m(ast_IPV4_WITH_CIDR_REGEX(), s, e) ==> e("addr"@) is Some && e("cidr"@) is Some && read4(s, "cidr"@, e) && digits_only(e("cidr"@)->0),
            forall|e: Env| #[trigger] m(ast_IPV6_WITH_SUBNET_REGEX(), s, e) ==> e("addr"@) is Some && e("mask"@) is Some && read6n(s, "mask"@, e),
            forall|e: Env| #[trigger] m(ast_IPV6_WITH_CIDR_REGEX(), s, e) ==> e("addr"@) is Some && e("cidr"@) is Some && read6n(s, "cidr"@, e) && digits_only(e("cidr"@)->0),
            !matches(ast_IPV4_WITH_SUBNET_REGEX(), s) && !matches(ast_IPV4_WITH_CIDR_REGEX(), s) && !matches(ast_IPV6_WITH_SUBNET_REGEX(), s) && !matches(ast_IPV6_WITH_CIDR_REGEX(), s) ==> netspec_of(s) is None,
    {
        lemma_patterns();
        assert forall|e: Env| #[trigger] m(r41(), s, e) implies e("addr"@) is Some && e("mask"@) is Some && read4(s, "mask"@, e) by { lemma_r41(s, e); }
        assert forall|e: Env| #[trigger] m(r42(), s, e) implies e("addr"@) is Some && e("cidr"@) is Some && read4(s, "cidr"@, e) && digits_only(e("cidr"@)->0) by { lemma_r42(s, e); }
        assert forall|e: Env| #[trigger] m(r61(), s, e) implies e("addr"@) is Some && e("mask"@) is Some && read6n(s, "mask"@, e) by { lemma_r61(s, e); }
        assert forall|e: Env| #[trigger] m(r62(), s, e) implies e("addr"@) is Some && e("cidr"@) is Some && read6n(s, "cidr"@, e) && digits_only(e("cidr"@)->0) by { lemma_r62(s, e); }
        if netspec_of(s) is Some { lemma_some_pattern(s); }
    }
    // ------------------------------------------------------------------ the notations agree
    pub proof fn lemma_not_not(a: Seq<bool>) ensures not_bits(not_bits(a)) == a { assert(not_bits(not_bits(a)) =~= a); }
    /// mask and complemented mask
    pub proof fn lemma_notations4(ta: Seq<char>, a: Ipv4Address, tm: Seq<char>, y: Ipv4Address, tw: Seq<char>, z: Ipv4Address)
        requires v4_of(ta) == Some(a), v4_of(tm) == Some(y), v4_of(tw) == Some(z), z.bits() == not_bits(y.bits())
        ensures netspec_of(put(ta, false, tm)) == Some(NetworkSpec::Ipv4(a, network(a, y.bits()))), netspec_of(put(ta, true, tw)) == netspec_of(put(ta, false, tm))
    {
        let e = env(ta, true, "mask"@, tm); lemma_v4_chars(ta, e); lemma_dotted(ta, e); lemma_v4_chars(tm, e); lemma_dotted(tm, e); lemma_v4_chars(tw, e); lemma_dotted(tw, e);
        lemma_put(ta, false, tm); lemma_put(ta, true, tw); lemma_not_not(y.bits());
    }
    pub proof fn lemma_notations6(ta: Seq<char>, a: Ipv6Address, tm: Seq<char>, y: Ipv6Address, tw: Seq<char>, z: Ipv6Address)
        requires v6_of(ta) == Some(a), v6_of(tm) == Some(y), v6_of(tw) == Some(z), z.bits() == not_bits(y.bits())
        ensures netspec_of(put(ta, false, tm)) == Some(NetworkSpec::Ipv6(a, network(a, y.bits()))), netspec_of(put(ta, true, tw)) == netspec_of(put(ta, false, tm))
    {
        lemma_v6_chars(ta); lemma_no_dot4(ta); lemma_v6_chars(tm); lemma_v6_chars(tw);
        lemma_put(ta, false, tm); lemma_put(ta, true, tw); lemma_not_not(y.bits());
    }
    /// prefix length and number of host bits
    pub proof fn lemma_prefixes4(ta: Seq<char>, a: Ipv4Address, p: nat)
        requires v4_of(ta) == Some(a), p <= 32
        ensures netspec_of(put(ta, false, dec(p))) == Some(NetworkSpec::Ipv4(a, network(a, mask_bits(p, 32)))), netspec_of(put(ta, true, dec((32 - p) as nat))) == netspec_of(put(ta, false, dec(p)))
    {
        let e = env(ta, true, "mask"@, ta); lemma_v4_chars(ta, e); lemma_dotted(ta, e); let q = (32 - p) as nat;
        lemma_digits(p, 10); lemma_digits(q, 10); lemma_number_free(dec(p), 10); lemma_number_free(dec(q), 10); lemma_no_dot4(dec(p)); lemma_no_dot4(dec(q));
        lemma_put(ta, false, dec(p)); lemma_put(ta, true, dec(q));
    }
    pub proof fn lemma_prefixes6(ta: Seq<char>, a: Ipv6Address, p: nat)
        requires v6_of(ta) == Some(a), p <= 128
        ensures netspec_of(put(ta, false, dec(p))) == Some(NetworkSpec::Ipv6(a, network(a, mask_bits(p, 128)))), netspec_of(put(ta, true, dec((128 - p) as nat))) == netspec_of(put(ta, false, dec(p)))
    {
        lemma_v6_chars(ta); lemma_no_dot4(ta); let q = (128 - p) as nat;
        lemma_digits(p, 10); lemma_digits(q, 10); lemma_number_free(dec(p), 10); lemma_number_free(dec(q), 10); lemma_no_colon6(dec(p)); lemma_no_colon6(dec(q));
        lemma_put(ta, false, dec(p)); lemma_put(ta, true, dec(q));
    }
    /// what is refused: a prefix length beyond the width, a mask of the other family, no address
    pub proof fn lemma_refused(s: Seq<char>)
        ensures ({
            let p = split(s, '/'); let t = unsigned(p[1]);
            &&& p.len() != 2 ==> netspec_of(s) is None
            &&& p.len() == 2 && address_of(p[0]) is None ==> netspec_of(s) is None
            &&& p.len() == 2 && v4_of(p[0]) is Some && (v6_of(t) is Some || number(t, 10) is Some && number(t, 10)->0 > 32) ==> netspec_of(s) is None
            &&& p.len() == 2 && v6_of(p[0]) is Some && (v4_of(t) is Some || number(t, 10) is Some && number(t, 10)->0 > 128) ==> netspec_of(s) is None
            &&& p.len() == 2 && address_of(t) is None && number(t, 10) is None ==> netspec_of(s) is None
        })
    {
        let p = split(s, '/'); let t = unsigned(p[1]);
        if p.len() == 2 {
            if number(t, 10) is Some { lemma_number_free(t, 10); lemma_no_dot4(t); lemma_no_colon6(t); }
            if v6_of(p[0]) is Some { lemma_v6_chars(p[0]); lemma_no_dot4(p[0]); }
            if v4_of(t) is Some { let e = env(t, true, t, t); lemma_v4_chars(t, e); lemma_dotted(t, e); lemma_dot6(t); if number(t, 10) is Some { lemma_number_free(t, 10); } }
            if v6_of(t) is Some { lemma_v6_chars(t); lemma_no_dot4(t); if number(t, 10) is Some { lemma_number_free(t, 10); } }
        }
    }
    /// how a network is displayed: base address and prefix length, or mask
    pub open spec fn net_text<A: IpAddress>(n: IpNetwork<A>) -> Seq<char> { shown(&n.base_addr) + seq!['/'] + (match n.cidr_prefix { Some(p) => dec(p as nat), None => shown(&n.subnet_mask) }) }
    /// networks are displayed as Display::fmt writes them: from the contract of fmt
    pub broadcast proof fn axiom_shown_net<A: IpAddress>(n: &IpNetwork<A>) ensures #[trigger] shown::<IpNetwork<A>>(n) == net_text(*n) {
        crate::text::axiom_shown(n);
        let f = choose|f: &mut std::fmt::Formatter| #![all_triggers] call_ensures(<IpNetwork<A> as std::fmt::Display>::fmt, (n, f), Ok(())) && crate::text::ftext(final(f)) == crate::text::ftext(&*f) + shown(n);
        crate::text::lemma_cancel(crate::text::ftext(&*f), net_text(*n), shown(n));
    }
    pub proof fn lemma_is_network<A: IpAddress>(n: IpNetwork<A>) requires n.wf() ensures n == network(n.base_addr, n.m()), n.cidr_prefix is Some ==> n.cidr_prefix->0 <= width::<A>() {
        lemma_network::<A>(); A::laws(); let a = n.base_addr; assert(same_net(n, a, n.m())); assert(network(a, n.m()) == network(a, n.m())); lemma_ones_le(n.m());
    }
    pub proof fn lemma_mask_text4(ta: Seq<char>, a: Ipv4Address, tk: Seq<char>, k: Ipv4Address) requires v4_of(ta) == Some(a), v4_of(tk) == Some(k) ensures netspec_of(put(ta, false, tk)) == Some(NetworkSpec::Ipv4(a, network(a, k.bits()))) {
        let e = env(ta, true, "mask"@, tk); lemma_v4_chars(ta, e); lemma_dotted(ta, e); lemma_v4_chars(tk, e); lemma_dotted(tk, e); lemma_put(ta, false, tk);
    }
    pub proof fn lemma_mask_text6(ta: Seq<char>, a: Ipv6Address, tk: Seq<char>, k: Ipv6Address) requires v6_of(ta) == Some(a), v6_of(tk) == Some(k) ensures netspec_of(put(ta, false, tk)) == Some(NetworkSpec::Ipv6(a, network(a, k.bits()))) {
        lemma_v6_chars(ta); lemma_no_dot4(ta); lemma_v6_chars(tk); lemma_put(ta, false, tk);
    }
    /// a displayed network is read as that network
    pub proof fn lemma_net_text4(n: IpNetwork<Ipv4Address>) requires n.wf() ensures netspec_of(net_text(n)) == Some(NetworkSpec::Ipv4(n.base_addr, n)) {
        let (a, k) = (n.base_addr, n.subnet_mask); let (ta, tk) = (shown(&a), shown(&k)); axiom_shown_v4(&a); axiom_shown_v4(&k); lemma_is_network(n);
        match n.cidr_prefix {
            Some(p) => { lemma_prefixes4(ta, a, p as nat); assert(net_text(n) =~= put(ta, false, dec(p as nat))); }
            None => { lemma_mask_text4(ta, a, tk, k); assert(net_text(n) =~= put(ta, false, tk)); }
        }
    }
    pub proof fn lemma_net_text6(n: IpNetwork<Ipv6Address>) requires n.wf() ensures netspec_of(net_text(n)) == Some(NetworkSpec::Ipv6(n.base_addr, n)) {
        let (a, k) = (n.base_addr, n.subnet_mask); let (ta, tk) = (shown(&a), shown(&k)); axiom_shown_v6(&a); axiom_shown_v6(&k); lemma_is_network(n);
        match n.cidr_prefix {
            Some(p) => { lemma_prefixes6(ta, a, p as nat); assert(net_text(n) =~= put(ta, false, dec(p as nat))); }
            None => { lemma_mask_text6(ta, a, tk, k); assert(net_text(n) =~= put(ta, false, tk)); }
        }
    }
    /// an address text has dots or colons, not both
    pub proof fn lemma_family(s: Seq<char>) ensures v4_of(s) is Some ==> s.contains('.') && !s.contains(':'), v6_of(s) is Some ==> s.contains(':') && !s.contains('.'), integer(s, 10, usize::MAX as nat) is Some ==> !s.contains(':') && !s.contains('.'), s.contains(':') == !free(s, ':'), s.contains('.') == !free(s, '.') {
        if v4_of(s) is Some { let e = env(s, true, s, s); lemma_v4_chars(s, e); lemma_dotted(s, e); }
        if v6_of(s) is Some { lemma_v6_chars(s); }
        let t = if s.len() > 0 && s[0] == '+' { s.skip(1) } else { s };
        if number(t, 10) is Some { lemma_number_free(t, 10); assert forall|i: int| 0 <= i < s.len() implies s[i] != ':' && s[i] != '.' by { if t != s && i > 0 { assert(s[i] == t[i - 1]); } } }
    }
}
%module cmds
use crate::addr_text::{axiom_parsed_v4, axiom_parsed_v6, v4_of, v6_of};
use crate::netspec::*;
broadcast use {crate::text::group_text, crate::std_contracts::group_len};
%fn cmds::parse_addr
%entry
    proof { lemma_family(spec@); axiom_parsed_v4(spec@); axiom_parsed_v6(spec@); }
%closure 0
$0: Ipv4Address ||| ParsedIpAddress ||| ensures cret == ParsedIpAddress::Ipv4($0)
%closure 1
$0: Ipv6Address ||| ParsedIpAddress ||| ensures cret == ParsedIpAddress::Ipv6($0)
%fn cmds::parse_subnet
%entry
    proof { lemma_family(spec@); axiom_parsed_v4(spec@); axiom_parsed_v6(spec@); }
%fn cmds::parse_netspec
%entry
    proof {
        lemma_read(spec@); lemma_names(); lemma_network::<Ipv4Address>(); lemma_network::<Ipv6Address>(); Ipv4Address::laws(); Ipv6Address::laws();
        assert(forall|s: Seq<char>| #[trigger] parsed::<Ipv4Address>(s) == v4_of(s)) by { assert forall|s: Seq<char>| #[trigger] parsed::<Ipv4Address>(s) == v4_of(s) by { axiom_parsed_v4(s); } }
        assert(forall|s: Seq<char>| #[trigger] parsed::<Ipv6Address>(s) == v6_of(s)) by { assert forall|s: Seq<char>| #[trigger] parsed::<Ipv6Address>(s) == v6_of(s) by { axiom_parsed_v6(s); } }
    }
%module net
broadcast use {crate::text::group_text, crate::std_contracts::group_len, crate::model::and_bits_commute};
%fn net::IpNetwork::fmt(f)
    ensures ret is Ok ==> crate::text::ftext(final(f)) == crate::text::ftext(old(f)) + crate::netspec::net_text(*self)
%entry
    proof { reveal_strlit("/"); assert("/"@ =~= seq!['/']); let b = crate::out::shown(&self.base_addr); let k = crate::out::shown(&self.subnet_mask);
        let z = crate::text::ftext(old(f)); if let Some(p) = self.cidr_prefix { assert(z + (b + seq!['/'] + crate::text::dec(p as nat)) =~= z + b + seq!['/'] + crate::text::dec(p as nat)); } }
