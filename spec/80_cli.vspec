%module root
use crate::model::*;
use crate::out::*;
%grewrite cfg ! ( feature = "num-bigint" ) =>> true
%fn usage
    ensures complained(old(vout)@, final(vout)@)
%fn main
    requires old(vout)@ == start()
    ensures main_post(command_line(), start(), final(vout)@, 0)
%grewrite std :: process :: exit =>> crate::out::exit
%fn do_main
    ensures main_post(command_line(), old(vout)@, final(vout)@, ret)
%entry
    proof { axiom_string_eq(); }
%rewrite std :: env :: args_os ( ) . map ( | $a | $b . to_string_lossy ( ) . into_owned ( ) ) . collect ( ) =>> crate::std_contracts::argv()
%module root
use crate::std_contracts::*;
use crate::cmds::*;
use crate::cmds::minimize::minimize_post;
use crate::cmds::derange::derange_post;
use crate::cmds::split::split_post;
use crate::cmds::resize::resize_post;
use crate::cmds::enumerate::enumerate_post;
use crate::cmds::show_net::show_net_post;
/// the whole program: every command line ends with status 0 or 1, with the mode's result or a complaint
pub open spec fn main_post(args: Seq<String>, o: Io, n: Io, ret: i32) -> bool {
    if args.len() < 2 { ret == 1 && complained(o, n) }
    else {
        let m = args[1]@;
        if m == "-m"@ || m == "--minimize"@ { minimize_post(args, o, n, ret) }
        else if m == "-d"@ || m == "--derange"@ { derange_post(args, o, n, ret) }
        else if m == "-s"@ || m == "--split"@ { split_post(args, o, n, ret) }
        else if m == "-r"@ || m == "--resize"@ { resize_post(args, o, n, ret) }
        else if m == "-e"@ || m == "--enumerate"@ { enumerate_post(args, o, n, ret) }
        else if m == "--color-test"@ || m == "--help"@ { ret == 0 }
        else { show_net_post::<String>(args, o, n, ret) }
    }
}
%module cmds
use crate::model::*;
use crate::out::*;
use crate::std_contracts::*;
pub open spec fn text<S: AsRef<str>>(s: S) -> Seq<char> { ref_of::<S, str>(&s)@ }
impl NetworkSpec {
    pub open spec fn wf(self) -> bool { match self { NetworkSpec::Ipv4(a, n) => n.wf() && n.member(a), NetworkSpec::Ipv6(a, n) => n.wf() && n.member(a) } }
}
impl ParsedIpAddress { pub open spec fn is4(self) -> bool { self is Ipv4 } }
%fn cmds::ParsedIpAddress::version
    ensures ret == if self.is4() { 4u32 } else { 6u32 }
%fn cmds::parse_addr
    ensures ret is Ok <==> address_of(spec@) is Some, ret is Ok ==> address_of(spec@) == Some(ret->Ok_0)
%fn cmds::parse_netspec
    ensures ret is Ok <==> netspec_of(spec@) is Some, ret is Ok ==> netspec_of(spec@) == Some(ret->Ok_0) && ret->Ok_0.wf()
%fn cmds::parse_subnet
    ensures ret is Ok <==> mask_of(spec@) is Some, ret is Ok ==> mask_of(spec@) == Some(ret->Ok_0)
%fn cmds::parse_same_family_netspecs(spec_strs)
    ensures
        spec_strs@.len() == 0 <==> ret is Ok && ret->Ok_0 is Nothing,
        ret is Ok && ret->Ok_0 is Ipv4 ==> all_v4(spec_strs@, ret->Ok_0->Ipv4_0@) && spec_strs@.len() > 0,
        ret is Ok && ret->Ok_0 is Ipv6 ==> all_v6(spec_strs@, ret->Ok_0->Ipv6_0@) && spec_strs@.len() > 0,
        ret is Err || ret->Ok_0 is MixedSpecs ==> !same_family(spec_strs@)
%module cmds
pub open spec fn all_v4<S: AsRef<str>>(s: Seq<S>, v: Seq<(Ipv4Address, IpNetwork<Ipv4Address>)>) -> bool { v.len() == s.len() && forall|i: int| #![trigger s[i]] #![trigger v[i]] 0 <= i < s.len() ==> netspec_of(text(s[i])) == Some(NetworkSpec::Ipv4(v[i].0, v[i].1)) && v[i].1.wf() }
pub open spec fn all_v6<S: AsRef<str>>(s: Seq<S>, v: Seq<(Ipv6Address, IpNetwork<Ipv6Address>)>) -> bool { v.len() == s.len() && forall|i: int| #![trigger s[i]] #![trigger v[i]] 0 <= i < s.len() ==> netspec_of(text(s[i])) == Some(NetworkSpec::Ipv6(v[i].0, v[i].1)) && v[i].1.wf() }
/// all texts are network specifications of one family
pub open spec fn same_family<S: AsRef<str>>(s: Seq<S>) -> bool { (forall|i: int| 0 <= i < s.len() ==> is_v4(#[trigger] s[i])) || (forall|i: int| 0 <= i < s.len() ==> is_v6(#[trigger] s[i])) }
pub open spec fn is_v4<S: AsRef<str>>(s: S) -> bool { netspec_of(text(s)) is Some && netspec_of(text(s))->0 is Ipv4 }
pub open spec fn is_v6<S: AsRef<str>>(s: S) -> bool { netspec_of(text(s)) is Some && netspec_of(text(s))->0 is Ipv6 }
%fn cmds::parse_same_family_netspecs
%entry
    let ghost s0 = spec_strs@;
    proof { if s0.len() > 0 { assert(s0.take(1)[0] == s0[0]); } }
%loop 0
    invariant vit0.seq().len() + 1 == spec_strs@.len(), forall|i: int| 0 <= i < vit0.seq().len() ==> #[trigger] vit0.seq()[i] == &spec_strs@[i + 1],
        s0 == spec_strs@, all_v4(s0.take(vit0.index() + 1), specs@)
%body 0
    proof { assert(s0.take(vit0.index() + 1)[0] == s0[0]); assert(*spec_str == s0[vit0.index() + 1]); assert(is_v4(s0[0])); }
%after 0
    proof { assert(s0.take(s0.len() as int) =~= s0); }
%loop 1
    invariant vit1.seq().len() + 1 == spec_strs@.len(), forall|i: int| 0 <= i < vit1.seq().len() ==> #[trigger] vit1.seq()[i] == &spec_strs@[i + 1],
        s0 == spec_strs@, all_v6(s0.take(vit1.index() + 1), specs@)
%body 1
    proof { assert(s0.take(vit1.index() + 1)[0] == s0[0]); assert(*spec_str == s0[vit1.index() + 1]); assert(is_v6(s0[0])); }
%after 1
    proof { assert(s0.take(s0.len() as int) =~= s0); }

%# ------------------------------------------------------------------ derange
%module cmds::derange
use crate::out::*;
use crate::std_contracts::*;
use crate::netspec::{netspec_of};
/// the networks between two addresses, one per line
pub open spec fn deranged<A: IpAddress>(a: A, b: A, o: Io, n: Io) -> bool {
    exists|v: Seq<IpNetwork<A>>| #[trigger] wrote(o, n, lines(v)) && all_contig(v) && ascending(v) && covers(v, range_lo(a, b), range_hi(a, b) + 1) && fewest(v, range_lo(a, b), range_hi(a, b) + 1)
}
pub open spec fn derange_post(args: Seq<String>, o: Io, n: Io, ret: i32) -> bool {
    if args.len() != 4 { ret == 1 && complained(o, n) }
    else { match (crate::netspec::address_of(args[2]@), crate::netspec::address_of(args[3]@)) {
        (Some(ParsedIpAddress::Ipv4(a)), Some(ParsedIpAddress::Ipv4(b))) => ret == 0 && deranged(a, b, o, n),
        (Some(ParsedIpAddress::Ipv6(a)), Some(ParsedIpAddress::Ipv6(b))) => ret == 0 && deranged(a, b, o, n),
        _ => ret == 1 && complained(o, n),
    } }
}
%fn cmds::derange::derange(args)
    ensures derange_post(args@, old(vout)@, final(vout)@, ret)
%before 0
    let ghost v0 = subnets@;
    proof { lemma_lines_ends(vout@.out, v0); }
%loop 0
    invariant vit0.seq() == v0, wrote(old(vout)@, vout@, lines(v0.take(vit0.index() as int)))
%body 0
    proof { lemma_lines(old(vout)@.out, v0, vit0.index() as int); }
%after 0
    proof { lemma_lines_ends(old(vout)@.out, v0); assert(wrote(old(vout)@, vout@, lines(v0))); }
%before 1
    let ghost v1 = subnets@;
    proof { lemma_lines_ends(vout@.out, v1); }
%loop 1
    invariant vit1.seq() == v1, wrote(old(vout)@, vout@, lines(v1.take(vit1.index() as int)))
%body 1
    proof { lemma_lines(old(vout)@.out, v1, vit1.index() as int); }
%after 1
    proof { lemma_lines_ends(old(vout)@.out, v1); assert(wrote(old(vout)@, vout@, lines(v1))); }

%# ------------------------------------------------------------------ minimize
%module cmds::minimize
use crate::out::*;
use crate::cmds::*;
use crate::std_contracts::*;
use crate::addr::*;
pub open spec fn nets<A: IpAddress>(v: Seq<(A, IpNetwork<A>)>) -> Seq<IpNetwork<A>> { Seq::new(v.len(), |i: int| v[i].1) }
/// the smallest set of networks with the same addresses, one per line
pub open spec fn minimized_to<A: IpAddress>(s: Seq<IpNetwork<A>>, o: Io, n: Io) -> bool {
    exists|v: Seq<IpNetwork<A>>| #[trigger] wrote(o, n, lines(v)) && minimal(v) && sorted(v) && forall|a: A| in_some(s, a) <==> #[trigger] in_some(v, a)
}
pub open spec fn minimize_post(args: Seq<String>, o: Io, n: Io, ret: i32) -> bool {
    if args.len() < 3 { ret == 1 && complained(o, n) }
    else {
        let s = args.skip(2);
        if !same_family(s) { ret == 1 && complained(o, n) }
        else {
            ret == 0 && (
                (exists|v: Seq<(Ipv4Address, IpNetwork<Ipv4Address>)>| #[trigger] all_v4(s, v) && minimized_to(nets(v), o, n))
                || (exists|v: Seq<(Ipv6Address, IpNetwork<Ipv6Address>)>| #[trigger] all_v6(s, v) && minimized_to(nets(v), o, n)))
        }
    }
}
%fn cmds::minimize::minimize(args)
    ensures minimize_post(args@, old(vout)@, final(vout)@, ret)
%closure 0
    $0: &(Ipv4Address, IpNetwork<Ipv4Address>) ||| IpNetwork<Ipv4Address> ||| ensures cret == $0.1
%closure 1
    $0: &(Ipv6Address, IpNetwork<Ipv6Address>) ||| IpNetwork<Ipv6Address> ||| ensures cret == $0.1
%before 0
    let ghost v0 = minimized@;
    proof { lemma_lines_ends(vout@.out, v0); }
%loop 0
    invariant vit0.seq() == v0, wrote(old(vout)@, vout@, lines(v0.take(vit0.index() as int)))
%body 0
    proof { lemma_lines(old(vout)@.out, v0, vit0.index() as int); }
%after 0
    proof { lemma_lines_ends(old(vout)@.out, v0); assert(wrote(old(vout)@, vout@, lines(v0))); assert(subnets@ =~= nets(addrs_subnets@)); assert(args@.skip(2) =~= args@.subrange(2, args@.len() as int)); }
%before 1
    let ghost v1 = minimized@;
    proof { lemma_lines_ends(vout@.out, v1); }
%loop 1
    invariant vit1.seq() == v1, wrote(old(vout)@, vout@, lines(v1.take(vit1.index() as int)))
%body 1
    proof { lemma_lines(old(vout)@.out, v1, vit1.index() as int); }
%after 1
    proof { lemma_lines_ends(old(vout)@.out, v1); assert(wrote(old(vout)@, vout@, lines(v1))); assert(subnets@ =~= nets(addrs_subnets@)); assert(args@.skip(2) =~= args@.subrange(2, args@.len() as int)); }

%# ------------------------------------------------------------------ enumerate
%module cmds::enumerate
use crate::out::*;
use crate::cmds::*;
use crate::std_contracts::*;
/// the addresses of all networks that are understood, one per line
pub open spec fn enum_lines(s: Seq<String>) -> Seq<char> decreases s.len() {
    if s.len() == 0 { seq![] } else { enum_lines(s.drop_last()) + match netspec_of(s.last()@) { None => seq![], Some(NetworkSpec::Ipv4(_, n)) => lines(listing(n)), Some(NetworkSpec::Ipv6(_, n)) => lines(listing(n)) } }
}
/// how many are not
pub open spec fn bad(s: Seq<String>) -> nat decreases s.len() { if s.len() == 0 { 0 } else { bad(s.drop_last()) + if netspec_of(s.last()@) is None { 1nat } else { 0 } } }
pub open spec fn enumerate_post(args: Seq<String>, o: Io, n: Io, ret: i32) -> bool {
    if args.len() < 3 { ret == 1 && complained(o, n) }
    else { let s = args.skip(2); n.out == o.out + enum_lines(s) && n.err.len() >= o.err.len() + bad(s) && (bad(s) == 0 ==> n.err == o.err) && ret == if bad(s) == 0 { 0i32 } else { 1i32 } }
}
%fn cmds::enumerate::enumerate(args)
    ensures enumerate_post(args@, old(vout)@, final(vout)@, ret)
%loop 0
    invariant
        vit0.seq().len() + 2 == args@.len(), forall|i: int| 0 <= i < vit0.seq().len() ==> #[trigger] vit0.seq()[i] == &args@[i + 2],
        ret == if bad(args@.skip(2).take(vit0.index() as int)) == 0 { 0i32 } else { 1i32 },
        vout@.out == old(vout)@.out + enum_lines(args@.skip(2).take(vit0.index() as int)), vout@.err.len() >= old(vout)@.err.len() + bad(args@.skip(2).take(vit0.index() as int)), bad(args@.skip(2).take(vit0.index() as int)) == 0 ==> vout@.err == old(vout)@.err
%body 0
    let ghost (io0, k0) = (vout@, vit0.index() as int);
    proof {
        let s = args@.skip(2);
        assert(s.take(k0 + 1).drop_last() =~= s.take(k0));
        assert(s.take(k0 + 1).last() == *net_str);
        lemma_cat_nothing(enum_lines(s.take(k0)));
    }
%before 1
    let ghost l1 = listing(net);
    proof { lemma_lines_ends(vout@.out, l1); }
%loop 1
    invariant vit1.seq() == l1, wrote(io0, vout@, lines(l1.take(vit1.index() as int)))
%body 1
    proof { lemma_lines(io0.out, l1, vit1.index() as int); }
%after 1
    proof { lemma_lines_ends(io0.out, l1); lemma_assoc(old(vout)@.out, enum_lines(args@.skip(2).take(k0)), lines(l1)); }
%before 2
    let ghost l2 = listing(net);
    proof { lemma_lines_ends(vout@.out, l2); }
%loop 2
    invariant vit2.seq() == l2, wrote(io0, vout@, lines(l2.take(vit2.index() as int)))
%body 2
    proof { lemma_lines(io0.out, l2, vit2.index() as int); }
%after 2
    proof { lemma_lines_ends(io0.out, l2); lemma_assoc(old(vout)@.out, enum_lines(args@.skip(2).take(k0)), lines(l2)); }
%tail
    proof { assert(args@.skip(2).take(args@.len() - 2) =~= args@.skip(2)); }

%# ------------------------------------------------------------------ resize
%module cmds::resize
use crate::cmds::show_net::{report, outputs_report};
use crate::cmds::minimize::all_wf;
use crate::num_bigint;
use crate::out::*;
use crate::cmds::*;
use crate::std_contracts::*;
use crate::model::*;
/// one network with its heading
pub open spec fn part<A: IpAddress>(h: Seq<char>, n: IpNetwork<A>) -> Seq<char> { h + report(n, None::<A>) + newline() }
pub open spec fn numbered_parts<A: IpAddress>(v: Seq<IpNetwork<A>>) -> Seq<char> decreases v.len() {
    if v.len() == 0 { seq![] } else { numbered_parts(v.drop_last()) + part(heading("Subnet "@ + shown(&(v.len() as usize)) + ":"@), v.last()) }
}
pub open spec fn resize_events<A: IpAddress>(n: IpNetwork<A>, v: Seq<IpNetwork<A>>, o: Ordering) -> Seq<char> {
    part(heading("Original network:"@), n) + match o { Ordering::Less => part(heading("Supernet:"@), v[0]), Ordering::Equal => part(heading("Same-sized net:"@), v[0]), Ordering::Greater => numbered_parts(v) }
}
pub open spec fn resized_to<A: IpAddress>(net: IpNetwork<A>, mask: A, o: Io, n: Io) -> bool {
    exists|v: Seq<IpNetwork<A>>, c: Ordering| #[trigger] resized(net, mask, v, c) && wrote(o, n, resize_events(net, v, c))
}
pub open spec fn mask4(s: Seq<char>) -> Option<Ipv4Address> { match mask_of(s) { Some(ParsedSubnet::Cidr(c)) => if c <= 32 { Some(Ipv4Address::from_bits(mask_bits(c as nat, 32))) } else { None }, Some(ParsedSubnet::Ipv4Mask(m)) => Some(m), _ => None } }
pub open spec fn mask6(s: Seq<char>) -> Option<Ipv6Address> { match mask_of(s) { Some(ParsedSubnet::Cidr(c)) => if c <= 128 { Some(Ipv6Address::from_bits(mask_bits(c as nat, 128))) } else { None }, Some(ParsedSubnet::Ipv6Mask(m)) => Some(m), _ => None } }
pub open spec fn resize_post(args: Seq<String>, o: Io, n: Io, ret: i32) -> bool {
    if args.len() != 4 { ret == 1 && complained(o, n) }
    else { match netspec_of(args[2]@) {
        None => ret == 1 && complained(o, n),
        Some(NetworkSpec::Ipv4(_, net)) => match mask4(args[3]@) { None => ret == 1 && complained(o, n), Some(m) => ret == 0 && resized_to(net, m, o, n) },
        Some(NetworkSpec::Ipv6(_, net)) => match mask6(args[3]@) { None => ret == 1 && complained(o, n), Some(m) => ret == 0 && resized_to(net, m, o, n) },
    } }
}
/// what a resize results in can be shown
pub proof fn lemma_resized<A: IpAddress>() ensures forall|n: IpNetwork<A>, m: A, v: Seq<IpNetwork<A>>, c: Ordering| #[trigger] resized(n, m, v, c) ==> all_wf(v) && (c == Ordering::Greater || v.len() == 1) { reveal(resized); }
pub proof fn lemma_part<A: IpAddress>(o: Seq<char>, p: Seq<char>, h: Seq<char>, n: IpNetwork<A>) ensures (o + p) + h + report(n, None::<A>) + newline() == o + (p + part(h, n)) { assert((o + p) + h + report(n, None::<A>) + newline() =~= o + (p + part(h, n))); }
pub proof fn lemma_from_prefix() ensures forall|a: Ipv4Address, p: nat| #[trigger] a.bits() == #[trigger] mask_bits(p, 32) ==> a == Ipv4Address::from_bits(mask_bits(p, 32)), forall|a: Ipv6Address, p: nat| #[trigger] a.bits() == #[trigger] mask_bits(p, 128) ==> a == Ipv6Address::from_bits(mask_bits(p, 128)) { Ipv4Address::laws(); Ipv6Address::laws(); }
%fn cmds::resize::resize(args)
    ensures resize_post(args@, old(vout)@, final(vout)@, ret)
%entry
    hide(resized_to); hide(report);
    proof { lemma_from_prefix(); }
%fn cmds::resize::resize_and_output(initial_net, new_subnet_mask, output_network)
    requires initial_net.wf(), outputs_report(output_network)
    ensures resized_to(initial_net, new_subnet_mask, old(vout)@, final(vout)@)
%loop 0
    invariant
        outputs_report(output_network), all_wf(resized@),
        vit0.seq().len() == resized@.len(), forall|i: int| 0 <= i < vit0.seq().len() ==> #[trigger] vit0.seq()[i] == i,
        wrote(io0, vout@, part(heading("Original network:"@), initial_net) + numbered_parts(resized@.take(vit0.index() as int)))
%body 0
    proof {
        let k = vit0.index() as int; let p = part(heading("Original network:"@), initial_net); let v = resized@;
        assert(v.take(k + 1).drop_last() =~= v.take(k)); assert(v.take(k + 1).last() == v[k]);
        let h = heading("Subnet "@ + shown(&((k + 1) as usize)) + ":"@);
        lemma_part(io0.out, p + numbered_parts(v.take(k)), h, v[k]);
        assert(p + numbered_parts(v.take(k)) + part(h, v[k]) =~= p + numbered_parts(v.take(k + 1)));
    }
%before 0
    proof { assert(resized@.take(0) =~= Seq::empty()); let p = part(heading("Original network:"@), initial_net); assert(p + numbered_parts(Seq::<IpNetwork<A>>::empty()) =~= p); }
%after 0
    proof { assert(resized@.take(resized@.len() as int) =~= resized@); }
%entry
    let ghost io0 = vout@;
    proof {
        lemma_resized::<A>();
        let p = part(heading("Original network:"@), initial_net);
        lemma_part(io0.out, Seq::empty(), heading("Original network:"@), initial_net); assert(io0.out + Seq::<char>::empty() =~= io0.out); assert(Seq::<char>::empty() + p =~= p);
        assert forall|h: Seq<char>, n: IpNetwork<A>| (io0.out + p) + h + report(n, None::<A>) + newline() == io0.out + (p + #[trigger] part(h, n)) by { lemma_part(io0.out, p, h, n); }
    }

%# ------------------------------------------------------------------ split
%module cmds::split
use crate::cmds::show_net::{report, outputs_report};
use crate::out::*;
broadcast use crate::out::axiom_shown_ref;
use crate::cmds::*;
use crate::cmds::resize::part;
use crate::net::contains_net;
/// the slices with the requests they are for
pub open spec fn slice_events<A: IpAddress>(c: Seq<num_bigint::BigInt>, v: Seq<IpNetwork<A>>) -> Seq<char> decreases c.len() {
    if c.len() == 0 { seq![] } else { slice_events(c.drop_last(), v.drop_last()) + part(heading("Subnet for "@ + shown(&c.last()) + " hosts:"@), v.last()) }
}
/// the rest of the network
pub open spec fn rest_events<A: IpAddress>(u: Seq<IpNetwork<A>>) -> Seq<char> { if u.len() == 0 { seq![] } else { heading("Unused networks:"@) + lines(u) } }
/// exactly the unused addresses
pub open spec fn unused<A: IpAddress>(n: IpNetwork<A>, c: Seq<num_bigint::BigInt>, u: Seq<IpNetwork<A>>) -> bool {
    all_contig(u) && ascending(u) && covers(u, n.first() + total(c), n.first() + n.size()) && fewest(u, n.first() + total(c), n.first() + n.size())
}
pub open spec fn split_to<A: IpAddress>(net: IpNetwork<A>, c: Seq<num_bigint::BigInt>, o: Io, n: Io, ret: i32) -> bool {
    let intro = part(heading("Subnet to split:"@), net);
    ||| ret == 1 && wrote(o, n, intro + heading("Not enough addresses available for this split."@)) && (net.contig() ==> !fits(net, c))
    ||| ret == 0 && exists|v: Seq<IpNetwork<A>>| #[trigger] slices(v, c) && if !all_super(net, v) {
            wrote(o, n, intro + slice_events(c, v) + heading("Network is too small"@)) && (net.contig() ==> !fits(net, c))
        } else {
            exists|u: Seq<IpNetwork<A>>| wrote(o, n, intro + slice_events(c, v) + #[trigger] rest_events(u)) && (net.contig() ==> fits(net, c) && all_inside(v, net) && unused(net, c, u))
        }
}
pub open spec fn all_super<A: IpAddress>(net: IpNetwork<A>, v: Seq<IpNetwork<A>>) -> bool { forall|i: int| 0 <= i < v.len() ==> contains_net(net, #[trigger] v[i]) }
/// the host counts are numbers and not negative
pub open spec fn counts(s: Seq<String>, c: Seq<num_bigint::BigInt>) -> bool { c.len() == s.len() && forall|i: int| 0 <= i < s.len() ==> parsed::<num_bigint::BigInt>((#[trigger] s[i])@) == Some(c[i]) && c[i]@ >= 0 }
pub open spec fn good_count(s: String) -> bool { parsed::<num_bigint::BigInt>(s@) is Some && parsed::<num_bigint::BigInt>(s@)->0@ >= 0 }
pub open spec fn split_post(args: Seq<String>, o: Io, n: Io, ret: i32) -> bool {
    if args.len() < 4 || !(forall|i: int| 3 <= i < args.len() ==> good_count(#[trigger] args[i])) { ret == 1 && complained(o, n) }
    else { match netspec_of(args[2]@) {
        None => ret == 1 && complained(o, n),
        Some(NetworkSpec::Ipv4(_, net)) => exists|c: Seq<num_bigint::BigInt>| #[trigger] counts(args.skip(3), c) && split_to(net, c, o, n, ret),
        Some(NetworkSpec::Ipv6(_, net)) => exists|c: Seq<num_bigint::BigInt>| #[trigger] counts(args.skip(3), c) && split_to(net, c, o, n, ret),
    } }
}
pub open spec fn same_counts(c: Seq<num_bigint::BigInt>, d: Seq<num_bigint::BigInt>) -> bool { c.len() == d.len() && forall|i: int| 0 <= i < c.len() ==> (#[trigger] d[i])@ == c[i]@ }
pub proof fn lemma_total_same(c: Seq<num_bigint::BigInt>, d: Seq<num_bigint::BigInt>) requires same_counts(c, d) ensures total(c) == total(d) decreases c.len() {
    if c.len() > 0 { assert(same_counts(c.drop_last(), d.drop_last())); assert(d.last()@ == c.last()@); lemma_total_same(c.drop_last(), d.drop_last()); }
}
/// equal numbers make equal requests
pub proof fn lemma_counts<A: IpAddress>(c: Seq<num_bigint::BigInt>)
    ensures
        forall|d: Seq<num_bigint::BigInt>| #![trigger total(d)] same_counts(c, d) ==> total(d) == total(c),
        forall|v: Seq<IpNetwork<A>>, d: Seq<num_bigint::BigInt>| #![trigger slices(v, d)] same_counts(c, d) && slices(v, d) ==> slices(v, c) && total(d) == total(c)
{
    assert forall|d: Seq<num_bigint::BigInt>| #![trigger total(d)] same_counts(c, d) implies total(d) == total(c) by { lemma_total_same(c, d); }
    assert forall|v: Seq<IpNetwork<A>>, d: Seq<num_bigint::BigInt>| #![trigger slices(v, d)] same_counts(c, d) && slices(v, d) implies slices(v, c) && total(d) == total(c) by { reveal(slices); assert forall|i: int| 0 <= i < v.len() implies smallest((#[trigger] v[i]).hostbits(), c[i]@) by { assert(d[i]@ == c[i]@); } }
}
pub proof fn lemma_slice_step<A: IpAddress>(o: Seq<char>, p: Seq<char>, c: Seq<num_bigint::BigInt>, v: Seq<IpNetwork<A>>, k: int) requires 0 <= k < c.len(), c.len() == v.len()
    ensures (o + (p + slice_events(c.take(k), v.take(k)))) + heading("Subnet for "@ + shown(&c[k]) + " hosts:"@) + report(v[k], None::<A>) + newline() == o + (p + slice_events(c.take(k + 1), v.take(k + 1)))
{
    assert(c.take(k + 1).drop_last() =~= c.take(k)); assert(c.take(k + 1).last() == c[k]);
    assert(v.take(k + 1).drop_last() =~= v.take(k)); assert(v.take(k + 1).last() == v[k]);
    let h = heading("Subnet for "@ + shown(&c[k]) + " hosts:"@); let e = slice_events(c.take(k), v.take(k));
    crate::cmds::resize::lemma_part(o, p + e, h, v[k]);
    assert(p + e + part(h, v[k]) =~= p + slice_events(c.take(k + 1), v.take(k + 1)));
}
pub proof fn lemma_slices_wf<A: IpAddress>(v: Seq<IpNetwork<A>>, c: Seq<num_bigint::BigInt>) requires slices(v, c) ensures v.len() == c.len(), all_contig(v), crate::cmds::minimize::all_wf(v) { reveal(slices); }
pub proof fn lemma_sup_inside<A: IpAddress>(n: IpNetwork<A>, v: Seq<IpNetwork<A>>, c: Seq<num_bigint::BigInt>) requires slices(v, c), n.contig() ensures all_super(n, v) <==> all_inside(v, n) {
    lemma_slices_wf(v, c);
    assert forall|i: int| 0 <= i < v.len() implies (contains_net(n, #[trigger] v[i]) <==> inside(v[i], n)) by { lemma_sup_in(n, v[i]); }
    if all_super(n, v) { assert forall|i: int| 0 <= i < v.len() implies inside(#[trigger] v[i], n) by { assert(contains_net(n, v[i])); } }
    if all_inside(v, n) { assert forall|i: int| 0 <= i < v.len() implies contains_net(n, #[trigger] v[i]) by { assert(inside(v[i], n)); } }
}
pub proof fn lemma_sup_in<A: IpAddress>(n: IpNetwork<A>, s: IpNetwork<A>) requires n.contig(), s.contig() ensures contains_net(n, s) <==> inside(s, n) {
    n.lemma_contig(); s.lemma_contig();
    let (x, y) = (addr_of::<A>(s.first()), addr_of::<A>((s.first() + s.size() - 1) as nat));
    lemma_addr_of::<A>(s.first()); lemma_addr_of::<A>((s.first() + s.size() - 1) as nat);
    s.lemma_range(x); s.lemma_range(y); n.lemma_range(x); n.lemma_range(y);
    if inside(s, n) { assert forall|a: A| s.member(a) implies #[trigger] n.member(a) by { n.lemma_range(a); s.lemma_range(a); } }
}
/// the last address of the slices is the last one of the range they cover
pub proof fn lemma_last_used<A: IpAddress>(n: IpNetwork<A>, v: Seq<IpNetwork<A>>, c: Seq<num_bigint::BigInt>)
    requires n.contig(), slices(v, c), covers(v, n.first(), n.first() + total(c)), fits(n, c), v.len() > 0
    ensures
        0 < total(c), val(n.host((n.size() - 1) as nat)) == n.first() + n.size() - 1, n.first() + n.size() <= pow2(width::<A>()),
        forall|r: Seq<A>, x: A| #![trigger r.contains(x)] last_addrs(r, v) && r.contains(x) && (forall|i: int| 0 <= i < r.len() ==> (#[trigger] r[i]).cmp_spec(&x) != Ordering::Greater) ==> val(x.bits()) + 1 == n.first() + total(c)
{
    let hi = n.first() + total(c);
    A::laws(); lemma_slices_wf(v, c); n.lemma_contig(); n.lemma_host_val(n.netnum(), (n.size() - 1) as nat);
    lemma_inside(v, n.first(), hi, 0); v[0].lemma_contig();
    let y = addr_of::<A>((hi - 1) as nat); lemma_addr_of::<A>((hi - 1) as nat); assert(in_some(v, y));
    let j = choose|j: int| 0 <= j < v.len() && (#[trigger] v[j]).member(y);
    v[j].lemma_range(y);
    assert forall|r: Seq<A>, x: A| #![trigger r.contains(x)] last_addrs(r, v) && r.contains(x) && (forall|i: int| 0 <= i < r.len() ==> (#[trigger] r[i]).cmp_spec(&x) != Ordering::Greater) implies val(x.bits()) + 1 == hi by {
        let k = choose|k: int| 0 <= k < r.len() && r[k] == x;
        lemma_inside(v, n.first(), hi, k); v[k].lemma_contig(); v[j].lemma_contig();
        v[k].lemma_host_val(v[k].netnum(), (v[k].size() - 1) as nat); v[j].lemma_host_val(v[j].netnum(), (v[j].size() - 1) as nat);
        assert(r[j].cmp_spec(&x) != Ordering::Greater);
    }
}
pub open spec fn last_addrs<A: IpAddress>(r: Seq<A>, v: Seq<IpNetwork<A>>) -> bool { r.len() == v.len() && forall|i: int| 0 <= i < v.len() ==> (#[trigger] r[i]).bits() == v[i].host((v[i].size() - 1) as nat) }
pub proof fn lemma_comparable<A: IpAddress>() ensures A::obeys_cmp_spec(), ordered::<A>(), forall|x: A, y: A| #![trigger val(x.bits()), val(y.bits())] val(x.bits()) == val(y.bits()) ==> x == y {
    A::laws();
    assert forall|x: A, y: A| #![trigger val(x.bits()), val(y.bits())] val(x.bits()) == val(y.bits()) implies x == y by { lemma_val_inj(x.bits(), y.bits()); }
}
pub proof fn lemma_not_enough<A: IpAddress>(net: IpNetwork<A>, c: Seq<num_bigint::BigInt>, o: Io)
    ensures forall|n: Io| (net.contig() ==> !fits(net, c)) && wrote(o, n, part(heading("Subnet to split:"@), net) + heading("Not enough addresses available for this split."@)) ==> #[trigger] split_to(net, c, o, n, 1)
{ }
pub proof fn lemma_listed<A: IpAddress>()
    ensures
        slice_events(Seq::empty(), Seq::<IpNetwork<A>>::empty()) == Seq::<char>::empty(), rest_events(Seq::<IpNetwork<A>>::empty()) == Seq::<char>::empty(),
        forall|u: Seq<IpNetwork<A>>| u.len() > 0 ==> #[trigger] rest_events(u) == heading("Unused networks:"@) + lines(u)
{ }
/// what remains
pub proof fn lemma_rest<A: IpAddress>(net: IpNetwork<A>, v: Seq<IpNetwork<A>>, c: Seq<num_bigint::BigInt>)
    requires net.contig(), slices(v, c), covers(v, net.first(), net.first() + total(c)), fits(net, c)
    ensures
        total(c) == net.size() ==> unused(net, c, Seq::empty()),
        forall|x: A, y: A, u: Seq<IpNetwork<A>>| #![trigger range_lo(x, y), all_contig(u)] val(x.bits()) == net.first() + total(c) && val(y.bits()) == net.first() + net.size() - 1 && all_contig(u) && ascending(u) && covers(u, range_lo(x, y), range_hi(x, y) + 1) && fewest(u, range_lo(x, y), range_hi(x, y) + 1) && total(c) < net.size() ==> unused(net, c, u)
{
    let e = Seq::<IpNetwork<A>>::empty(); let x = net.first() + total(c);
    assert(covers(e, x, x));
}
pub proof fn lemma_nonempty<A: IpAddress>(u: Seq<IpNetwork<A>>) ensures forall|x: A, y: A| #[trigger] covers(u, range_lo(x, y), range_hi(x, y) + 1) ==> u.len() > 0 {
    assert forall|x: A, y: A| #[trigger] covers(u, range_lo(x, y), range_hi(x, y) + 1) implies u.len() > 0 by { if val(x.bits()) <= val(y.bits()) { assert(in_some(u, x)); } else { assert(in_some(u, y)); } }
}
pub open spec fn split_intro<A: IpAddress>(net: IpNetwork<A>, c: Seq<num_bigint::BigInt>, v: Seq<IpNetwork<A>>) -> Seq<char> { part(heading("Subnet to split:"@), net) + slice_events(c, v) }
pub proof fn lemma_split_done<A: IpAddress>(net: IpNetwork<A>, c: Seq<num_bigint::BigInt>, v: Seq<IpNetwork<A>>, u: Seq<IpNetwork<A>>, o: Io, n: Io)
    requires
        slices(v, c), net.contig() ==> (fits(net, c) <==> all_super(net, v)) && (all_super(net, v) <==> all_inside(v, net)),
        !all_super(net, v) ==> wrote(o, n, split_intro(net, c, v) + heading("Network is too small"@)),
        all_super(net, v) ==> wrote(o, n, split_intro(net, c, v) + rest_events(u)) && (net.contig() ==> unused(net, c, u))
    ensures split_to(net, c, o, n, 0)
{ }
%fn cmds::split::split(args)
    ensures split_post(args@, old(vout)@, final(vout)@, ret)
%loop 0
    invariant
        vout@ == old(vout)@, zero@ == 0, args@.len() >= 4, vit0.seq().len() + 3 == args@.len(), forall|i: int| 0 <= i < vit0.seq().len() ==> #[trigger] vit0.seq()[i] == &args@[i + 3],
        counts(args@.skip(3).take(vit0.index() as int), host_counts@)
%body 0
    proof { let k = vit0.index() as int; let s = args@.skip(3); assert(*count_str == args@[k + 3]); assert(s[k] == args@[k + 3]); }
%after 0
    proof {
        let s = args@.skip(3); assert(s.take(s.len() as int) =~= s);
        assert forall|i: int| 3 <= i < args@.len() implies good_count(#[trigger] args@[i]) by { assert(s[i - 3] == args@[i]); }
    }
%fn cmds::split::output_split(subnet, host_counts, output_network)
    requires subnet.wf(), host_counts@.len() > 0, outputs_report(output_network)
    ensures split_to(subnet, host_counts@, old(vout)@, final(vout)@, ret)
%entry
    let ghost (io0, p0, c0) = (vout@, part(heading("Subnet to split:"@), subnet), host_counts@);
    proof {
        lemma_comparable::<A>(); lemma_counts::<A>(c0); lemma_not_enough(subnet, c0, io0); lemma_listed::<A>(); subnet.lemma_base();
        crate::cmds::resize::lemma_part(io0.out, Seq::empty(), heading("Subnet to split:"@), subnet); assert(io0.out + Seq::<char>::empty() =~= io0.out); assert(Seq::<char>::empty() + p0 =~= p0);
        assert forall|t: Seq<char>| io0.out + p0 + heading(t) == io0.out + (p0 + #[trigger] heading(t)) by { lemma_assoc(io0.out, p0, heading(t)); }
    }
%closure 0
    $0: &IpNetwork<A> ||| A ||| requires $0.wf() ensures cret.bits() == $0.host(($0.size() - 1) as nat)
%closure 1
    $0: &IpNetwork<A> ||| bool ||| requires $0.wf() ensures cret <==> !contains_net(subnet, *$0)
%before 0
    let ghost (v0, e0) = (split_subnets@, slice_events(c0, split_subnets@));
    proof {
        assert(slices(v0, c0));
        lemma_slices_wf(v0, c0);
        if subnet.contig() { lemma_sup_inside(subnet, v0, c0); if fits(subnet, c0) { lemma_last_used(subnet, v0, c0); lemma_rest(subnet, v0, c0); } }
        assert(c0.take(0) =~= Seq::empty()); assert(v0.take(0) =~= Seq::empty()); assert(p0 + Seq::<char>::empty() =~= p0);
    }
%loop 0
    invariant
        outputs_report(output_network), crate::cmds::minimize::all_wf(v0), c0.len() == v0.len(),
        vit0.seq().len() == c0.len(), forall|i: int| 0 <= i < vit0.seq().len() ==> #[trigger] vit0.seq()[i] == (&c0[i], &v0[i]),
        wrote(io0, vout@, p0 + slice_events(c0.take(vit0.index() as int), v0.take(vit0.index() as int)))
%body 0
    proof { lemma_slice_step(io0.out, p0, c0, v0, vit0.index() as int); }
%after 0
    proof {
        assert(c0.take(c0.len() as int) =~= c0); assert(v0.take(v0.len() as int) =~= v0);
        assert(wrote(io0, vout@, p0 + e0));
        let u = Seq::<IpNetwork<A>>::empty();
        assert(p0 + e0 + rest_events(u) =~= p0 + e0);
        assert forall|t: Seq<char>| io0.out + (p0 + e0) + heading(t) == io0.out + (p0 + e0 + #[trigger] heading(t)) by { lemma_assoc(io0.out, p0 + e0, heading(t)); }
    }
    let ghost mut rest = Seq::<IpNetwork<A>>::empty();
%before 1
    let ghost (u1, io2) = (unused_subnets@, vout@);
    proof { lemma_lines_ends(io2.out, u1); lemma_nonempty(u1); }
%loop 1
    invariant vit1.seq() == u1, wrote(io2, vout@, lines(u1.take(vit1.index() as int)))
%body 1
    proof { lemma_lines(io2.out, u1, vit1.index() as int); }
%after 1
    proof { lemma_lines_ends(io2.out, u1); assert(vout@.out =~= io0.out + (p0 + e0 + rest_events(u1))); rest = u1; }
%tail
    proof {
        if !all_super(subnet, v0) { let i = choose|i: int| 0 <= i < v0.len() && !contains_net(subnet, #[trigger] v0[i]); assert(*(v0.as_ref()[i]) == v0[i]); }
        lemma_split_done(subnet, c0, v0, rest, io0, vout@);
    }

%# ------------------------------------------------------------------ show
%module cmds::show_net
use crate::netspec::netspec_of;
use crate::num_bigint;
use crate::out::*;
use crate::std_contracts::*;
use crate::model::*;
/// the reports of all networks, separated by empty lines
pub open spec fn show_events(s: Seq<NetworkSpec>) -> Seq<char> decreases s.len() {
    if s.len() == 0 { seq![] } else { show_events(s.drop_last()) + if s.len() == 1 { spec_report(s.last()) } else { newline() + spec_report(s.last()) } }
}
pub open spec fn spec_report(n: NetworkSpec) -> Seq<char> { match n { NetworkSpec::Ipv4(a, n) => report(n, Some(a)), NetworkSpec::Ipv6(a, n) => report(n, Some(a)) } }
pub open spec fn all_specs<S: AsRef<str>>(s: Seq<S>, v: Seq<NetworkSpec>) -> bool { v.len() == s.len() && forall|i: int| #![trigger s[i]] #![trigger v[i]] 0 <= i < s.len() ==> netspec_of(crate::cmds::text(s[i])) == Some(v[i]) && v[i].wf() }
pub open spec fn show_net_post<S: AsRef<str>>(args: Seq<S>, o: Io, n: Io, ret: i32) -> bool {
    let s = args.skip(1);
    if forall|i: int| 1 <= i < args.len() ==> netspec_of(crate::cmds::text(#[trigger] args[i])) is Some { ret == 0 && exists|v: Seq<NetworkSpec>| #[trigger] all_specs(s, v) && wrote(o, n, show_events(v)) }
    else { ret == 1 && complained(o, n) }
}
%fn cmds::show_net::show_net(args)
    requires args@.len() >= 1
    ensures show_net_post(args@, old(vout)@, final(vout)@, ret)
%loop 0
    invariant
        vout@ == old(vout)@, vit0.seq().len() + 1 == args@.len(), forall|i: int| 0 <= i < vit0.seq().len() ==> #[trigger] vit0.seq()[i] == &args@[i + 1],
        all_specs(args@.skip(1).take(vit0.index() as int), specs@)
%body 0
    proof { let k = vit0.index() as int; let s = args@.skip(1); assert(*arg == args@[k + 1]); assert(s[k] == args@[k + 1]); }
%after 0
    let ghost v0 = specs@;
    proof {
        let s = args@.skip(1); assert(s.take(s.len() as int) =~= s);
        assert forall|i: int| 1 <= i < args@.len() implies netspec_of(crate::cmds::text(#[trigger] args@[i])) is Some by { assert(s[i - 1] == args@[i]); }
        assert(v0.take(0) =~= Seq::empty()); assert(vout@.out + Seq::<char>::empty() =~= vout@.out);
    }
%loop 1
    invariant
        vit1.seq().len() == v0.len(), forall|i: int| 0 <= i < vit1.seq().len() ==> #[trigger] vit1.seq()[i] == &v0[i], forall|i: int| 0 <= i < v0.len() ==> (#[trigger] v0[i]).wf(),
        is_first == (vit1.index() == 0), wrote(old(vout)@, vout@, show_events(v0.take(vit1.index() as int)))
%body 1
    proof {
        let k = vit1.index() as int; let o = old(vout)@.out; let e = show_events(v0.take(k));
        assert(v0.take(k + 1).drop_last() =~= v0.take(k)); assert(v0.take(k + 1).last() == v0[k]); assert(*spec == v0[k]);
        lemma_assoc(o + e, newline(), spec_report(v0[k])); lemma_assoc(o, e, newline() + spec_report(v0[k]));
        lemma_assoc(o, e, spec_report(v0[k]));
    }
%after 1
    proof { assert(v0.take(v0.len() as int) =~= v0); }
