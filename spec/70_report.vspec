%# The report of a network: exact text. (The colors are not part of the claim; the output is what remains without color codes.)
%module root
pub mod text_pad { use vstd::prelude::*; use crate::text::*; pub broadcast proof fn lemma_no_pad(t: Seq<char>) ensures #[trigger] pad(t, 0) == t { reveal(pad); } }
/// the console crate (trusted): styling adds color codes, nothing else
pub mod console_crate {
    use vstd::prelude::*;
    use crate::out::shown;
    #[verifier::external_body]
    #[verifier::reject_recursive_types(D)]
    pub struct StyledObject<D> { x: D }
    impl<D> StyledObject<D> {
        pub uninterp spec fn inner(&self) -> D;
        #[verifier::external_body] pub fn black(self) -> (ret: Self) ensures ret.inner() == self.inner() { unimplemented!() }
        #[verifier::external_body] pub fn red(self) -> (ret: Self) ensures ret.inner() == self.inner() { unimplemented!() }
        #[verifier::external_body] pub fn green(self) -> (ret: Self) ensures ret.inner() == self.inner() { unimplemented!() }
        #[verifier::external_body] pub fn yellow(self) -> (ret: Self) ensures ret.inner() == self.inner() { unimplemented!() }
        #[verifier::external_body] pub fn blue(self) -> (ret: Self) ensures ret.inner() == self.inner() { unimplemented!() }
        #[verifier::external_body] pub fn magenta(self) -> (ret: Self) ensures ret.inner() == self.inner() { unimplemented!() }
        #[verifier::external_body] pub fn cyan(self) -> (ret: Self) ensures ret.inner() == self.inner() { unimplemented!() }
        #[verifier::external_body] pub fn white(self) -> (ret: Self) ensures ret.inner() == self.inner() { unimplemented!() }
        #[verifier::external_body] pub fn bright(self) -> (ret: Self) ensures ret.inner() == self.inner() { unimplemented!() }
    }
    impl<D> std::fmt::Display for StyledObject<D> {
        #[verifier::external_body]
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { unimplemented!() }
    }
    pub axiom fn axiom_shown_styled<D>(x: &StyledObject<D>) ensures shown::<StyledObject<D>>(x) == shown::<D>(&x.inner());
    #[verifier::external_body] pub fn style<D>(d: D) -> (ret: StyledObject<D>) ensures ret.inner() == d { unimplemented!() }
    #[verifier::external_body] pub fn colors_enabled() -> bool { unimplemented!() }
}
%module console
use crate::console_crate as console;
use crate::out::*;
use crate::text::*;
use crate::std_contracts::*;
broadcast use crate::text::group_text;
%fn console::write_in_color(text, color, pad_to)
    requires pad_to > isize::MIN
    ensures wrote(old(vout)@, final(vout)@, pad(ref_of::<S, str>(&text)@, pad_to as int))
%entry
    let ghost t0 = ref_of::<S, str>(&text)@;
    proof { axiom_isize(blen(t0) as usize); reveal(pad); }
%loop 0
    invariant pad_to > 0, delta == pad_to - blen(t0), delta >= 0, vit0.seq().len() == delta, padded@ == t0 + spaces(vit0.index() as int)
%before 0
    proof { assert(t0 + spaces(0) =~= t0); }
%body 0
    proof { assert((t0 + spaces(vit0.index() as int)).push(' ') =~= t0 + spaces(vit0.index() as int + 1)); }
%loop 1
    invariant pad_to < 0, delta == -pad_to - blen(t0), delta >= 0, vit1.seq().len() == delta, padding@ == spaces(vit1.index() as int), padded@ == t0
%before 1
    proof { assert(spaces(0) =~= Seq::empty()); }
%body 1
    proof { assert(spaces(vit1.index() as int).push(' ') =~= spaces(vit1.index() as int + 1)); }
%at print ! ( "{}" , colored )
    proof { crate::console_crate::axiom_shown_styled(&colored); }

%module cmds::show_net
use crate::text::*;
use crate::console::*;
use crate::num_bigint::axiom_shown_bigint;
broadcast use {crate::text::group_text, crate::std_contracts::group_ref, crate::text_pad::lemma_no_pad};
/// the bits of the first k bytes of an address, most significant first: a separator after every e bytes, but not at the end
pub open spec fn binary_of(s: Seq<bool>, k: int, e: int, sep: char) -> Seq<char> decreases k {
    if k <= 0 { seq![] } else { binary_of(s, k - 1, e, sep) + bit_text(s.subrange(8 * (k - 1), 8 * k)) + if 8 * k < s.len() && k % e == 0 { seq![sep] } else { seq![] } }
}
/// IPv4: bytes separated by dots; IPv6: groups of two bytes separated by colons
pub open spec fn binary<A: IpAddress>(a: A) -> Seq<char> { if A::nbytes() == 4 { binary_of(a.bits(), 4, 1, '.') } else { binary_of(a.bits(), 16, 2, ':') } }
/// the class of an IPv4 network, from the first byte of its base address and of its mask, exactly if network bits determine it
pub open spec fn class_name(b: Seq<char>, m: Seq<char>) -> Seq<char> {
    if b[0] == '0' { if m[0] == '1' { "Class A"@ } else { seq![] } }
    else if b[1] == '0' { if m[0] == '1' && m[1] == '1' { "Class B"@ } else { seq![] } }
    else if b[2] == '0' { if m[0] == '1' && m[1] == '1' && m[2] == '1' { "Class C"@ } else { seq![] } }
    else if m[0] == '1' && m[1] == '1' && m[2] == '1' && m[3] == '1' { if b[3] == '0' { "Class D (multicast)"@ } else { "Class E (reserved)"@ } }
    else { seq![] }
}
pub open spec fn class_text<A: IpAddress>(b: Seq<char>, m: Seq<char>) -> Seq<char> { if A::nbytes() == 4 { class_name(b, m) } else { seq![] } }
/// one byte as bits
pub open spec fn byte_text(s: Seq<char>) -> bool { s.len() == 8 && forall|i: int| 0 <= i < 8 ==> #[trigger] s[i] == '0' || s[i] == '1' }
/// label, value and bits of a value, behind o
pub open spec fn item(o: Seq<char>, l: Seq<char>, lw: int, t: Seq<char>, tw: int, b: Seq<char>) -> Seq<char> { o + pad(l, lw) + pad(t, tw) + b }
pub open spec fn address_item<A: IpAddress>(o: Seq<char>, l: Seq<char>, lw: int, a: A, tw: int) -> Seq<char> { item(o, l, lw, shown(&a), tw, binary(a)) }
/// the mask and its prefix length, if it has one
pub open spec fn mask_text<A: IpAddress>(n: IpNetwork<A>) -> Seq<char> { match n.cidr_prefix { Some(p) => shown(&n.subnet_mask) + " = "@ + shown(&p), None => shown(&n.subnet_mask) } }
pub open spec fn base_text<A: IpAddress>(n: IpNetwork<A>) -> Seq<char> { match n.cidr_prefix { Some(p) => shown(&n.base_addr) + "/"@ + shown(&p), None => shown(&n.base_addr) } }
pub open spec fn with_address<A: IpAddress>(o: Seq<char>, n: IpNetwork<A>, a: A, lw: int, tw: int) -> Seq<char> {
    let o = address_item(o, "Address:"@, lw, a, tw) + newline();
    let o = item(o, "Netmask:"@, lw, mask_text(n), tw, binary(n.subnet_mask)) + newline();
    let o = address_item(o, "Wildcard:"@, lw, A::from_bits(not_bits(n.m())), tw) + newline();
    o + "=>"@ + newline()
}
pub open spec fn with_hosts<A: IpAddress>(o: Seq<char>, n: IpNetwork<A>, lw: int, tw: int) -> Seq<char> {
    if n.hostbits() >= 2 {
        let o = address_item(o, "HostMin:"@, lw, A::from_bits(n.host(1)), tw) + newline();
        address_item(o, "HostMax:"@, lw, A::from_bits(n.host((pow2(n.hostbits()) - 2) as nat)), tw) + newline()
    } else { o + "no hosts"@ + newline() }
}
pub open spec fn with_broadcast<A: IpAddress>(o: Seq<char>, n: IpNetwork<A>, lw: int, tw: int) -> Seq<char> {
    if n.hostbits() >= 1 { address_item(o, "Broadcast:"@, lw, A::from_bits(n.host((pow2(n.hostbits()) - 1) as nat)), tw) + newline() } else { o + "no broadcast"@ + newline() }
}
pub open spec fn with_count<A: IpAddress>(o: Seq<char>, n: IpNetwork<A>, lw: int, tw: int) -> Seq<char> {
    if n.hostbits() >= 2 { o + pad("Hosts/Net:"@, lw) + pad(dec((pow2(n.hostbits()) - 2) as nat), tw) + class_text::<A>(bit_text(n.b().subrange(0, 8)), bit_text(n.m().subrange(0, 8))) + newline() } else { o + "no hosts/net"@ + newline() }
}
pub open spec fn report_on<A: IpAddress>(o: Seq<char>, n: IpNetwork<A>, a: Option<A>, lw: int, tw: int) -> Seq<char> {
    let o = match a { Some(a) => with_address(o, n, a, lw, tw), None => o };
    let o = item(o, "Network:"@, lw, base_text(n), tw, binary(n.base_addr)) + newline();
    with_count(with_broadcast(with_hosts(o, n, lw, tw), n, lw, tw), n, lw, tw)
}
/// the report of a network, for an address in it
pub open spec fn report<A: IpAddress>(n: IpNetwork<A>, a: Option<A>) -> Seq<char> { report_on(seq![], n, a, 11, if A::nbytes() == 4 { 21 } else { 46 }) }
pub proof fn lemma_prefix_item(o: Seq<char>, p: Seq<char>, l: Seq<char>, lw: int, t: Seq<char>, tw: int, b: Seq<char>) ensures item(o + p, l, lw, t, tw, b) + newline() == o + (item(p, l, lw, t, tw, b) + newline()) { assert(item(o + p, l, lw, t, tw, b) + newline() =~= o + (item(p, l, lw, t, tw, b) + newline())); }
pub proof fn lemma_prefix_address<A: IpAddress>(o: Seq<char>, p: Seq<char>, l: Seq<char>, lw: int, a: A, tw: int) ensures address_item(o + p, l, lw, a, tw) + newline() == o + (address_item(p, l, lw, a, tw) + newline()) { lemma_prefix_item(o, p, l, lw, shown(&a), tw, binary(a)); }
pub proof fn lemma_prefix_note(o: Seq<char>, p: Seq<char>, t: Seq<char>) ensures o + p + t + newline() == o + (p + t + newline()) { assert(o + p + t + newline() =~= o + (p + t + newline())); }
/// a report does not depend on what is in front of it
pub proof fn lemma_report<A: IpAddress>(o: Seq<char>, n: IpNetwork<A>, a: Option<A>, lw: int, tw: int) ensures report_on(o, n, a, lw, tw) == o + report_on(seq![], n, a, lw, tw) {
    let e = Seq::<char>::empty();
    assert(o + e =~= o);
    let p1 = match a { Some(a) => {
        let q1 = address_item(e, "Address:"@, lw, a, tw) + newline(); lemma_prefix_address(o, e, "Address:"@, lw, a, tw);
        let q2 = item(q1, "Netmask:"@, lw, mask_text(n), tw, binary(n.subnet_mask)) + newline(); lemma_prefix_item(o, q1, "Netmask:"@, lw, mask_text(n), tw, binary(n.subnet_mask));
        let q3 = address_item(q2, "Wildcard:"@, lw, A::from_bits(not_bits(n.m())), tw) + newline(); lemma_prefix_address(o, q2, "Wildcard:"@, lw, A::from_bits(not_bits(n.m())), tw);
        lemma_prefix_note(o, q3, "=>"@);
        with_address(e, n, a, lw, tw)
    } None => e };
    let p2 = item(p1, "Network:"@, lw, base_text(n), tw, binary(n.base_addr)) + newline(); lemma_prefix_item(o, p1, "Network:"@, lw, base_text(n), tw, binary(n.base_addr));
    if n.hostbits() >= 2 {
        let h = address_item(p2, "HostMin:"@, lw, A::from_bits(n.host(1)), tw) + newline(); lemma_prefix_address(o, p2, "HostMin:"@, lw, A::from_bits(n.host(1)), tw);
        lemma_prefix_address(o, h, "HostMax:"@, lw, A::from_bits(n.host((pow2(n.hostbits()) - 2) as nat)), tw);
    } else { lemma_prefix_note(o, p2, "no hosts"@); }
    let p3 = with_hosts(p2, n, lw, tw);
    if n.hostbits() >= 1 { lemma_prefix_address(o, p3, "Broadcast:"@, lw, A::from_bits(n.host((pow2(n.hostbits()) - 1) as nat)), tw); } else { lemma_prefix_note(o, p3, "no broadcast"@); }
    let p4 = with_broadcast(p3, n, lw, tw);
    if n.hostbits() >= 2 {
        lemma_prefix_item(o, p4, "Hosts/Net:"@, lw, dec((pow2(n.hostbits()) - 2) as nat), tw, class_text::<A>(bit_text(n.b().subrange(0, 8)), bit_text(n.m().subrange(0, 8))));
    } else { lemma_prefix_note(o, p4, "no hosts/net"@); }
}
/// an output function that writes the report of the network it is given
#[verifier::prophetic]
pub open spec fn outputs_report<A: IpAddress, F: Fn(IpNetwork<A>, Option<A>, Tracked<&mut Out>)>(f: F) -> bool {
    &&& forall|n: IpNetwork<A>, a: Option<A>, t: Tracked<&mut Out>| n.wf() ==> #[trigger] f.requires((n, a, t))
    &&& forall|n: IpNetwork<A>, a: Option<A>, t: Tracked<&mut Out>, r: ()| #[trigger] f.ensures((n, a, t), r) ==> wrote((*t@)@, final(t@)@, report(n, a))
}
#[verifier::prophetic]
pub open spec fn outputs_bits<A: IpAddress, F: Fn(A, Option<A>, bool, Option<Color>, Tracked<&mut Out>)>(f: F) -> bool {
    &&& forall|a: A, m: Option<A>, c: bool, o: Option<Color>, t: Tracked<&mut Out>| #[trigger] f.requires((a, m, c, o, t))
    &&& forall|a: A, m: Option<A>, c: bool, o: Option<Color>, t: Tracked<&mut Out>, r: ()| #[trigger] f.ensures((a, m, c, o, t), r) ==> wrote((*t@)@, final(t@)@, binary(a))
}
#[verifier::prophetic]
pub open spec fn outputs_class<A: IpAddress, F: Fn(&str, &str, Tracked<&mut Out>)>(f: F) -> bool {
    &&& forall|b: &str, m: &str, t: Tracked<&mut Out>| byte_text(b@) && byte_text(m@) ==> #[trigger] f.requires((b, m, t))
    &&& forall|b: &str, m: &str, t: Tracked<&mut Out>, r: ()| #[trigger] f.ensures((b, m, t), r) ==> wrote((*t@)@, final(t@)@, class_text::<A>(b@, m@))
}
pub proof fn lemma_only<A: IpAddress>(s: Seq<bool>) ensures forall|a: A| #[trigger] a.bits() == s ==> a == A::from_bits(s) { A::laws(); }
pub proof fn lemma_width<A: IpAddress>() ensures A::nbytes() > 0 { A::laws(); }
pub proof fn lemma_first_byte(b: Seq<u8>) requires b.len() > 0 ensures bytes_bits(b.subrange(0, 1)) == bytes_bits(b).subrange(0, 8), byte_text(bit_text(bytes_bits(b.subrange(0, 1)))) { assert(bytes_bits(b.subrange(0, 1)) =~= bytes_bits(b).subrange(0, 8)); }
pub proof fn lemma_one_byte(b: Seq<u8>, k: int) requires 0 <= k < b.len() ensures bytes_bits(seq![b[k]]) == bytes_bits(b).subrange(8 * k, 8 * k + 8), bytes_bits(b).len() == 8 * b.len() { assert(bytes_bits(seq![b[k]]) =~= bytes_bits(b).subrange(8 * k, 8 * k + 8)); }
/// the patterns a text of at least four signs can start with
pub proof fn lemma_starts(s: Seq<char>) requires s.len() >= 4
    ensures
        starts(s, seq!['0']) == (s[0] == '0'), starts(s, seq!['1']) == (s[0] == '1'),
        starts(s, seq!['1', '0']) == (s[0] == '1' && s[1] == '0'), starts(s, seq!['1', '1']) == (s[0] == '1' && s[1] == '1'),
        starts(s, seq!['1', '1', '0']) == (s[0] == '1' && s[1] == '1' && s[2] == '0'), starts(s, seq!['1', '1', '1']) == (s[0] == '1' && s[1] == '1' && s[2] == '1'),
        starts(s, seq!['1', '1', '1', '0']) == (s[0] == '1' && s[1] == '1' && s[2] == '1' && s[3] == '0'), starts(s, seq!['1', '1', '1', '1']) == (s[0] == '1' && s[1] == '1' && s[2] == '1' && s[3] == '1')
{
    assert(forall|p: Seq<char>| p.len() == 1 ==> (#[trigger] starts(s, p) == (s[0] == p[0])));
    assert(forall|p: Seq<char>| p.len() == 2 ==> (#[trigger] starts(s, p) == (s[0] == p[0] && s[1] == p[1])));
    assert(forall|p: Seq<char>| p.len() == 3 ==> (#[trigger] starts(s, p) == (s[0] == p[0] && s[1] == p[1] && s[2] == p[2])));
    assert(forall|p: Seq<char>| p.len() == 4 ==> (#[trigger] starts(s, p) == (s[0] == p[0] && s[1] == p[1] && s[2] == p[2] && s[3] == p[3])));
}
%fn cmds::show_net::output_network(label_width, address_width, output_binary_address, output_class, net, addr)
    requires net.wf(), label_width > isize::MIN, address_width > isize::MIN, outputs_bits::<A, OBA>(output_binary_address), outputs_class::<A, OC>(output_class)
    ensures wrote(old(vout)@, final(vout)@, report_on(seq![], net, addr, label_width as int, address_width as int))
%closure 0
    $0: &str, $1: &str ||| () ||| ensures final(vo@)@ == (Io { out: (*vo@)@.out + pad($0@, label_width as int) + pad($1@, address_width as int), ..(*vo@)@ })
%entry
    let ghost (io0, o0, lw, tw) = (vout@, vout@.out, label_width as int, address_width as int);
    let ghost mut o4 = vout@.out;
    proof { lemma_only::<A>(not_bits(net.m())); lemma_only::<A>(net.host(1)); lemma_only::<A>(net.host((pow2(net.hostbits()) - 2) as nat)); lemma_only::<A>(net.host((pow2(net.hostbits()) - 1) as nat)); lemma_width::<A>(); }
%at let net_str
    proof { assert(vout@.err == io0.err); assert(vout@.out == match addr { Some(a) => with_address(o0, net, a, lw, tw), None => o0 }); }
    let ghost o1 = vout@.out;
%at if let Some ( fha ) || match net . first_host_addr || match first_host
    let ghost o2 = vout@.out;
    proof { assert(vout@.err == io0.err); assert(o2 == item(o1, "Network:"@, lw, base_text(net), tw, binary(net.base_addr)) + newline()); }
%at if let Some ( bc ) || match net . broadcast_addr || match broadcast
    let ghost o3 = vout@.out;
    proof { assert(vout@.err == io0.err); assert(o3 == with_hosts(o2, net, lw, tw)); }
%atafter if let Some ( bc ) || match net . broadcast_addr || match broadcast
    proof {
        o4 = vout@.out + newline();
        assert(pow2(0) == 1); assert(pow2(1) == 2); assert(pow2(2) == 4); if net.hostbits() >= 2 { lemma_pow2_mono(2, net.hostbits()); }
        assert(vout@.err == io0.err); assert(o4 == with_broadcast(o3, net, lw, tw));
        assert forall|x: num_bigint::BigInt| x@ >= 0 implies #[trigger] shown::<num_bigint::BigInt>(&x) == dec(x@ as nat) by { axiom_shown_bigint(&x); }
        assert forall|b: Seq<u8>| b.len() > 0 implies bytes_bits(#[trigger] b.subrange(0, 1)) == bytes_bits(b).subrange(0, 8) && byte_text(bit_text(bytes_bits(b.subrange(0, 1)))) by { lemma_first_byte(b); }
    }
%atafter let top_mask_bits
    proof {
        assert(top_bits@ == bit_text(net.b().subrange(0, 8)));
        assert(top_mask_bits@ == bit_text(net.m().subrange(0, 8)));
        assert(vout@.out == o4 + pad("Hosts/Net:"@, lw) + pad(dec((pow2(net.hostbits()) - 2) as nat), tw));
    }
%tail
    proof { lemma_report(o0, net, addr, lw, tw); assert(vout@.err == io0.err); }
%fn cmds::show_net::output_ipv4_class(top_bits, top_mask_bits)
    requires byte_text(top_bits@), byte_text(top_mask_bits@)
    ensures wrote(old(vout)@, final(vout)@, class_name(top_bits@, top_mask_bits@))
%entry
    proof {
        reveal_strlit("0"); reveal_strlit("1"); reveal_strlit("10"); reveal_strlit("11"); reveal_strlit("110"); reveal_strlit("111"); reveal_strlit("1110"); reveal_strlit("1111");
        assert("0"@ =~= seq!['0']); assert("1"@ =~= seq!['1']); assert("10"@ =~= seq!['1', '0']); assert("11"@ =~= seq!['1', '1']); assert("110"@ =~= seq!['1', '1', '0']); assert("111"@ =~= seq!['1', '1', '1']); assert("1110"@ =~= seq!['1', '1', '1', '0']); assert("1111"@ =~= seq!['1', '1', '1', '1']);
        lemma_starts(top_bits@); lemma_starts(top_mask_bits@);
        assert(vout@.out + seq![] =~= vout@.out);
    }
%fn cmds::show_net::output_binary_ipv4_address(addr, subnet_mask, color_class, override_color)
    ensures wrote(old(vout)@, final(vout)@, binary(addr))
%closure 0
$0: &Ipv4Address ||| Vec<u8> ||| ensures cret@.len() == 4
%closure 1
$0: &Vec<u8> ||| u8 ||| requires i < $0@.len() ensures cret == $0@[i as int]
%closure 2
$0: u8 ||| String ||| ensures byte_text(cret@)
%entry
    let ghost io0 = vout@;
    proof { reveal_strlit("."); assert("."@ =~= seq!['.']); assert(io0.out + seq![] =~= io0.out); }
%loop 0
    invariant "."@ == seq!['.'], addr_bytes@.len() == 4, bytes_bits(addr_bytes@) == addr.bits(), mask_bytes is Some ==> mask_bytes->0@.len() == 4, vit0.seq().len() == 4, forall|j: int| 0 <= j < 4 ==> vit0.seq()[j] == j, wrote(io0, vout@, binary_of(addr.bits(), vit0.index() as int, 1, '.'))
%body 0
    let ghost io1 = vout@;
    proof { lemma_one_byte(addr_bytes@, i as int); assert(io1.out + seq![] =~= io1.out); }
%atafter let bits
    proof { assert(bits@ == bit_text(addr.bits().subrange(8 * i, 8 * i + 8))); assert(byte_text(bits@)); }
%loop 1
    invariant bitvec@ == bits@, byte_text(bits@), mask_bits is Some ==> mask_bits->0@.len() == 8, vit1.seq().len() == 8, forall|j: int| 0 <= j < 8 ==> vit1.seq()[j] == j, wrote(io1, vout@, bits@.take(vit1.index() as int))
%before 1
    proof { assert(bits@.take(0) =~= seq![]); }
%bodyend 1
    proof { assert(bits@.take(bit + 1) =~= bits@.take(bit as int) + seq![bits@[bit as int]]); assert(vout@.out =~= io1.out + bits@.take(bit + 1)); }
%after 1
    proof { assert(bits@.take(8) =~= bits@); }
%bodyend 0
    proof { assert(vout@.out =~= io0.out + binary_of(addr.bits(), i + 1, 1, '.')); }
%fn cmds::show_net::output_binary_ipv6_address(addr, subnet_mask, _color_class, override_color)
    ensures wrote(old(vout)@, final(vout)@, binary(addr))
%closure 0
$0: &Ipv6Address ||| Vec<u8> ||| ensures cret@.len() == 16
%closure 1
$0: &Vec<u8> ||| u8 ||| requires i < $0@.len() ensures cret == $0@[i as int]
%closure 2
$0: u8 ||| String ||| ensures byte_text(cret@)
%closure 3
$0: String ||| Vec<char> ||| ensures cret@ == $0@
%entry
    let ghost io0 = vout@;
    proof { reveal_strlit(":"); assert(":"@ =~= seq![':']); assert(io0.out + seq![] =~= io0.out); }
%loop 0
    invariant ":"@ == seq![':'], addr_bytes@.len() == 16, bytes_bits(addr_bytes@) == addr.bits(), mask_bytes is Some ==> mask_bytes->0@.len() == 16, vit0.seq().len() == 16, forall|j: int| 0 <= j < 16 ==> vit0.seq()[j] == j, wrote(io0, vout@, binary_of(addr.bits(), vit0.index() as int, 2, ':'))
%body 0
    let ghost io1 = vout@;
    proof { lemma_one_byte(addr_bytes@, i as int); assert(io1.out + seq![] =~= io1.out); }
%atafter let bits
    proof { assert(bits@ == bit_text(addr.bits().subrange(8 * i, 8 * i + 8))); assert(byte_text(bits@)); }
%loop 1
    invariant bitvec@ == bits@, byte_text(bits@), mask_bitvec is Some ==> mask_bitvec->0@.len() == 8, vit1.seq().len() == 8, forall|j: int| 0 <= j < 8 ==> vit1.seq()[j] == j, wrote(io1, vout@, bits@.take(vit1.index() as int))
%before 1
    proof { assert(bits@.take(0) =~= seq![]); }
%bodyend 1
    proof { assert(bits@.take(bit + 1) =~= bits@.take(bit as int) + seq![bits@[bit as int]]); assert(vout@.out =~= io1.out + bits@.take(bit + 1)); }
%after 1
    proof { assert(bits@.take(8) =~= bits@); }
%bodyend 0
    proof { assert(vout@.out =~= io0.out + binary_of(addr.bits(), i + 1, 2, ':')); }
%fn cmds::show_net::output_ipv4_network(net, addr)
    requires net.wf()
    ensures wrote(old(vout)@, final(vout)@, report(net, addr))
%fn cmds::show_net::output_ipv6_network(net, addr)
    requires net.wf()
    ensures wrote(old(vout)@, final(vout)@, report(net, addr))
%closure 0
    $0: &str, $1: &str ||| () ||| ensures final(vo@)@ == (*vo@)@
