%# resizing: networks as blocks of regrouped numbers
%module cmds::resize
use crate::model::*;
use crate::net::*;
use vstd::std_specs::cmp::*;
use crate::cmds::derange::{ordered, lemma_clear, lemma_div_pow, chain, lemma_chain_push, largest_all, lemma_chain, lemma_nested, lemma_pow_le};
/// number of the base address after regrouping
pub open spec fn start<A: IpAddress>(n: IpNetwork<A>) -> nat { n.netnum() * n.size() }
/// a network of mask m whose regrouped addresses are x, x+1, ...
pub open spec fn block<A: IpAddress>(n: IpNetwork<A>, m: A, x: nat) -> bool { n.wf() && n.subnet_mask == m && start(n) == x }
/// what an address with regrouped bits x belongs to
pub proof fn lemma_woven(x: Seq<bool>, m: Seq<bool>) requires x.len() == m.len()
    ensures val(sel(and_bits(weave(x, m), m), m, true)) == val(x) / pow2(zeros(m))
{
    let w = weave(x, m); let k = ones(m);
    lemma_ones_le(m); lemma_unravel_len(x, m); lemma_unravel_weave(x, m); lemma_sel_len(w, m); lemma_sel_and(w, m);
    assert(unravel(w, m).take(k as int) =~= sel(w, m, true));
    lemma_clear(x, k);
}
/// the networks made from a regrouped address
pub proof fn lemma_made<A: IpAddress>(m: A)
    ensures forall|n: IpNetwork<A>, x: Seq<bool>| x.len() == width::<A>() && #[trigger] n.wf() && n.subnet_mask == m && n.b() == and_bits(#[trigger] weave(x, m.bits()), m.bits()) ==> n.netnum() == val(x) / pow2(zeros(m.bits()))
{
    A::laws();
    assert forall|n: IpNetwork<A>, x: Seq<bool>| x.len() == width::<A>() && #[trigger] n.wf() && n.subnet_mask == m && n.b() == and_bits(#[trigger] weave(x, m.bits()), m.bits()) implies n.netnum() == val(x) / pow2(zeros(m.bits())) by { lemma_woven(x, m.bits()); }
}
#[verifier::opaque]
pub open spec fn resized<A: IpAddress>(n: IpNetwork<A>, m: A, r: Seq<IpNetwork<A>>, o: core::cmp::Ordering) -> bool {
    let h = zeros(m.bits()); let q = pow2(h);
    &&& forall|i: int| 0 <= i < r.len() ==> (#[trigger] r[i]).wf() && r[i].subnet_mask == m
    // larger: the one network containing the original
    &&& h > n.hostbits() ==> o == core::cmp::Ordering::Less && r.len() == 1 && start(r[0]) <= start(n) && start(n) + n.size() <= start(r[0]) + q
    // equal: the same place
    &&& h == n.hostbits() ==> o == core::cmp::Ordering::Equal && r.len() == 1 && start(r[0]) == start(n)
    // smaller: all networks inside the original, one after the other
    &&& h < n.hostbits() ==> o == core::cmp::Ordering::Greater && r.len() * q == n.size() && forall|i: int| #![trigger r[i]] 0 <= i < r.len() ==> start(r[i]) == start(n) + i * q
    // for contiguous masks this is about the addresses themselves
    &&& n.contig() && is_mask(m.bits()) && h >= n.hostbits() ==> forall|a: A| #[trigger] n.member(a) ==> r[0].member(a)
    &&& n.contig() && is_mask(m.bits()) && h < n.hostbits() ==> chain(r, n.first(), n.first() + n.size())
}
/// the one larger (or equal) network
pub proof fn lemma_super<A: IpAddress>(n: IpNetwork<A>, s: IpNetwork<A>)
    requires n.wf(), s.wf(), s.hostbits() >= n.hostbits(), s.netnum() == start(n) / s.size()
    ensures start(s) <= start(n), start(n) + n.size() <= start(s) + s.size(), s.hostbits() == n.hostbits() ==> start(s) == start(n),
        n.contig() && is_mask(s.m()) ==> forall|a: A| #[trigger] n.member(a) ==> s.member(a)
{
    n.lemma_base(); s.lemma_base();
    let (x, q) = (start(n), s.size());
    lemma_div_pow(x, q);
    vstd::arithmetic::div_mod::lemma_mod_multiples_basic(n.netnum() as int, n.size() as int);
    vstd::arithmetic::div_mod::lemma_mod_multiples_basic(s.netnum() as int, q as int);
    lemma_nested(x, n.hostbits(), start(s), s.hostbits(), x);
    if s.hostbits() == n.hostbits() { vstd::arithmetic::div_mod::lemma_div_multiples_vanish(n.netnum() as int, q as int); assert(n.netnum() * q == q * n.netnum()) by (nonlinear_arith); }
    if n.contig() && is_mask(s.m()) {
        n.lemma_contig(); s.lemma_contig();
        assert forall|a: A| #[trigger] n.member(a) implies s.member(a) by { n.lemma_range(a); s.lemma_range(a); }
    }
}
/// the larger network found by way of the shortened one
pub proof fn lemma_shortened<A: IpAddress>(n: IpNetwork<A>, m: A) requires n.wf()
    ensures forall|t: IpNetwork<A>| zeros(m.bits()) >= n.hostbits() && t.b() == and_bits(unravel(n.b(), n.m()), mask_bits(ones(m.bits()), width::<A>())) ==> val(#[trigger] t.b()) / pow2(zeros(m.bits())) == start(n) / pow2(zeros(m.bits()))
{
    A::laws(); n.lemma_base(); lemma_ones_le(m.bits());
    let (x, k, q) = (unravel(n.b(), n.m()), ones(m.bits()), pow2(zeros(m.bits())));
    lemma_pow2_pos(zeros(m.bits()));
    lemma_clear(x, k);
    let d = start(n) / q;
    vstd::arithmetic::div_mod::lemma_div_multiples_vanish(d as int, q as int);
    assert(d * q == q * d) by (nonlinear_arith);
}
/// numbers in the loop over the smaller networks
pub proof fn lemma_walk<A: IpAddress>(n: IpNetwork<A>, m: A, c: nat) requires n.wf(), zeros(m.bits()) < n.hostbits()
    ensures
        ({ let q = pow2(zeros(m.bits())); let t = (start(n) + c * q) as nat; let p = pow2((n.hostbits() - zeros(m.bits())) as nat);
           &&& q > 0 && t % q == 0 && (t / q) * q == t && p * q == n.size() && (c + 1) * q == c * q + q
           &&& (c < p <==> t < start(n) + n.size()) && (c == p ==> t == start(n) + n.size())
           &&& (c < p && !(t / q + 1 < pow2(ones(m.bits()))) ==> c + 1 == p)
           &&& (c < p ==> t + q <= start(n) + n.size())
           &&& start(n) + n.size() <= pow2(width::<A>()) && start(n) + 0 * q == start(n)
           &&& (t / q + 1) * q == t + q
           &&& pow2(width::<A>()) == pow2(ones(m.bits())) * q })
{
    A::laws(); n.lemma_base(); lemma_ones_le(m.bits());
    let (h, k) = (zeros(m.bits()), ones(m.bits()));
    let q = pow2(h); let d = (n.hostbits() - h) as nat; let p = pow2(d); let g = n.netnum(); let s = n.size();
    lemma_pow2_pos(h); lemma_pow2_add(d, h); lemma_pow2_add(k, h);
    let t = (start(n) + c * q) as nat;
    assert(g * (p * q) == (g * p) * q) by (nonlinear_arith);
    assert(t == (g * p + c) * q) by (nonlinear_arith) requires t == (g * p) * q + c * q;
    vstd::arithmetic::div_mod::lemma_div_multiples_vanish((g * p + c) as int, q as int);
    vstd::arithmetic::div_mod::lemma_mod_multiples_basic((g * p + c) as int, q as int);
    let e = g * p + c;
    assert(e * q == q * e) by (nonlinear_arith);
    assert((c + 1) * q == c * q + q) by (nonlinear_arith);
    assert((e + 1) * q == e * q + q) by (nonlinear_arith);
    assert(0 * q == 0) by (nonlinear_arith);
    if c < p { assert((c + 1) * q <= p * q) by (nonlinear_arith) requires c + 1 <= p; }
    else { assert(c * q >= p * q) by (nonlinear_arith) requires c >= p; }
    lemma_fit(ones(n.m()), n.hostbits(), g, (s - 1) as nat);
    let z = pow2(k);
    assert((g * p + p) * q == g * (p * q) + p * q) by (nonlinear_arith);
    assert(g * p + p <= z) by (nonlinear_arith) requires (g * p + p) * q <= z * q, q > 0;
}
pub open spec fn placed<A: IpAddress>(n: IpNetwork<A>, m: A, r: Seq<IpNetwork<A>>) -> bool {
    forall|i: int| 0 <= i < r.len() ==> block(#[trigger] r[i], m, (start(n) + i * pow2(zeros(m.bits()))) as nat)
}
pub proof fn lemma_placed<A: IpAddress>(n: IpNetwork<A>, m: A, r: Seq<IpNetwork<A>>)
    requires n.contig(), is_mask(m.bits()), placed(n, m, r)
    ensures chain(r, n.first(), (n.first() + r.len() * pow2(zeros(m.bits()))) as nat)
    decreases r.len()
{
    let q = pow2(zeros(m.bits()));
    n.lemma_contig();
    if r.len() > 0 {
        let d = r.drop_last(); let l = r.last();
        assert(placed(n, m, d)) by { assert forall|i: int| 0 <= i < d.len() implies block(#[trigger] d[i], m, (start(n) + i * q) as nat) by { assert(d[i] == r[i]); } }
        lemma_placed(n, m, d);
        assert(block(r[r.len() - 1], m, (start(n) + (r.len() - 1) * q) as nat));
        l.lemma_contig();
        let c = (r.len() - 1) as nat;
        assert((c + 1) * q == c * q + q) by (nonlinear_arith);
        assert(d.len() == c);
    } else { assert(0 * q == 0) by (nonlinear_arith); }
}

/// the regrouped base address of the next network
pub proof fn lemma_stepped<A: IpAddress>(m: A)
    ensures forall|n: IpNetwork<A>| #![trigger n.netnum()] n.wf() && n.subnet_mask == m && n.netnum() + 1 < pow2(ones(m.bits())) ==> val(unravel(n.addr_bits(n.netnum() + 1, 0), m.bits())) == (n.netnum() + 1) * pow2(zeros(m.bits()))
{
    A::laws(); lemma_ones_le(m.bits()); lemma_pow2_pos(zeros(m.bits()));
    assert forall|n: IpNetwork<A>| #![trigger n.netnum()] n.wf() && n.subnet_mask == m && n.netnum() + 1 < pow2(ones(m.bits())) implies val(unravel(n.addr_bits(n.netnum() + 1, 0), m.bits())) == (n.netnum() + 1) * pow2(zeros(m.bits())) by {
        lemma_nbits_append_val(ones(m.bits()), zeros(m.bits()), n.netnum() + 1, 0);
        lemma_unravel_weave(nbits(n.netnum() + 1, ones(m.bits())) + nbits(0, zeros(m.bits())), m.bits());
    }
}
pub open spec fn sized<A: IpAddress>() -> bool { ordered::<A>() && forall|a: A| (#[trigger] a.bits()).len() == width::<A>() }
/// what the proof of the function needs to know
pub proof fn lemma_results<A: IpAddress>(n: IpNetwork<A>, m: A) requires n.wf()
    ensures
        sized::<A>(), ones(m.bits()) + zeros(m.bits()) == width::<A>(), width::<A>() <= 128,
        ones(n.m()) + n.hostbits() == width::<A>(), unravel(n.b(), n.m()).len() == width::<A>(),
        val(unravel(n.b(), n.m())) == start(n),
        val(unravel(n.host((n.size() - 1) as nat), n.m())) == start(n) + n.size() - 1,
        n.size() > 0,
        forall|s: IpNetwork<A>| #![trigger s.wf()] s.wf() && s.subnet_mask == m && zeros(m.bits()) > n.hostbits() && s.netnum() == start(n) / pow2(zeros(m.bits())) ==> resized(n, m, seq![s], core::cmp::Ordering::Less),
        forall|s: IpNetwork<A>| #![trigger s.wf()] s.wf() && s.subnet_mask == m && zeros(m.bits()) == n.hostbits() && s.netnum() == start(n) / pow2(zeros(m.bits())) ==> resized(n, m, seq![s], core::cmp::Ordering::Equal),
        zeros(m.bits()) < n.hostbits() ==> forall|r: Seq<IpNetwork<A>>| #![trigger resized(n, m, r, core::cmp::Ordering::Greater)] placed(n, m, r) && r.len() * pow2(zeros(m.bits())) == n.size() ==> resized(n, m, r, core::cmp::Ordering::Greater)
{
    A::laws(); n.lemma_base(); lemma_ones_le(m.bits());
    reveal(resized);
    let q0 = pow2(zeros(m.bits()));
    lemma_nbits_append_val(ones(n.m()), n.hostbits(), n.netnum(), (n.size() - 1) as nat);
    lemma_unravel_weave(nbits(n.netnum(), ones(n.m())) + nbits((n.size() - 1) as nat, n.hostbits()), n.m());
    assert forall|s: IpNetwork<A>| #![trigger s.wf()] s.wf() && s.subnet_mask == m && zeros(m.bits()) > n.hostbits() && s.netnum() == start(n) / q0 implies resized(n, m, seq![s], core::cmp::Ordering::Less) by { lemma_super(n, s); }
    assert forall|s: IpNetwork<A>| #![trigger s.wf()] s.wf() && s.subnet_mask == m && zeros(m.bits()) == n.hostbits() && s.netnum() == start(n) / q0 implies resized(n, m, seq![s], core::cmp::Ordering::Equal) by { lemma_super(n, s); }
    if zeros(m.bits()) < n.hostbits() {
        assert forall|r: Seq<IpNetwork<A>>| #![trigger resized(n, m, r, core::cmp::Ordering::Greater)] placed(n, m, r) && r.len() * q0 == n.size() implies resized(n, m, r, core::cmp::Ordering::Greater) by {
            assert forall|i: int| #![trigger r[i]] 0 <= i < r.len() implies start(r[i]) == start(n) + i * q0 by { assert(block(r[i], m, (start(n) + i * q0) as nat)); assert(i * q0 >= 0) by (nonlinear_arith) requires i >= 0, q0 >= 0; }
            if n.contig() && is_mask(m.bits()) { lemma_placed(n, m, r); n.lemma_contig(); }
        }
    }
}
pub proof fn lemma_placed_push<A: IpAddress>(n: IpNetwork<A>, m: A, r: Seq<IpNetwork<A>>) requires placed(n, m, r)
    ensures forall|s: IpNetwork<A>| block(s, m, (start(n) + r.len() * pow2(zeros(m.bits()))) as nat) ==> placed(n, m, #[trigger] r.push(s))
{}
/// the same for any other way to make a list of one
pub proof fn lemma_one<A: IpAddress>(n: IpNetwork<A>, m: A) ensures forall|r: Seq<IpNetwork<A>>, o: core::cmp::Ordering| #[trigger] resized(n, m, r, o) <== r.len() == 1 && resized(n, m, seq![r[0]], o) {
    assert forall|r: Seq<IpNetwork<A>>, o: core::cmp::Ordering| r.len() == 1 && resized(n, m, seq![r[0]], o) implies #[trigger] resized(n, m, r, o) by { assert(r =~= seq![r[0]]); }
}
%fn cmds::resize::resize_network(initial_net, new_subnet_mask)
    requires initial_net.wf()
    ensures resized(initial_net, new_subnet_mask, ret.0@, ret.1)
%entry
    let ghost (n0, m0, q0) = (initial_net, new_subnet_mask, pow2(zeros(new_subnet_mask.bits())));
    proof {
        lemma_results(n0, m0); lemma_one(n0, m0);
        lemma_mask_eq(ones(m0.bits()), width::<A>());
        lemma_made(m0); lemma_shortened(n0, m0);
        if zeros(m0.bits()) < n0.hostbits() { lemma_walk(n0, m0, 0); }
    }
%loop 0
    invariant_except_break
        val(current_unraveled_base_addr.bits()) == start(n0) + nets@.len() * q0,
    invariant
        sized::<A>(), n0.wf(), m0 == new_subnet_mask, q0 == pow2(zeros(m0.bits())), zeros(m0.bits()) < n0.hostbits(),
        val(unraveled_last_addr.bits()) == start(n0) + n0.size() - 1,
        placed(n0, m0, nets@),
        nets@.len() * q0 <= n0.size(),
    ensures
        nets@.len() * q0 == n0.size()
    decreases start(n0) + n0.size() - val(current_unraveled_base_addr.bits())
%body 0
    proof { lemma_made(m0); lemma_walk(n0, m0, nets@.len()); lemma_walk(n0, m0, nets@.len() + 1); lemma_stepped(m0); lemma_placed_push(n0, m0, nets@); }
%after 0
    proof { lemma_walk(n0, m0, nets@.len()); }
