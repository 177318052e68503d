%module net
use crate::model::*;
use crate::num_bigint;
use vstd::std_specs::ops::*;
use vstd::std_specs::cmp::*;
pub open spec fn contains_net<A: IpAddress>(x: IpNetwork<A>, y: IpNetwork<A>) -> bool { forall|a: A| y.member(a) ==> #[trigger] x.member(a) }
impl<A: IpAddress> IpNetwork<A> {
    pub open spec fn b(self) -> Seq<bool> { self.base_addr.bits() }
    pub open spec fn m(self) -> Seq<bool> { self.subnet_mask.bits() }
    /// normalised: no host bits in the base address, prefix length exactly if the mask is contiguous
    pub open spec fn wf(self) -> bool {
        &&& and_bits(self.b(), self.m()) == self.b()
        &&& self.cidr_prefix is Some <==> is_mask(self.m())
        &&& self.cidr_prefix is Some ==> self.cidr_prefix->0 == ones(self.m()) && self.m() == mask_bits(self.cidr_prefix->0 as nat, width::<A>())
    }
    /// the addresses of the network: those that agree with its base address in all network bits
    pub open spec fn member(self, a: A) -> bool { and_bits(a.bits(), self.m()) == self.b() }
    pub open spec fn hostbits(self) -> nat { zeros(self.m()) }
    /// the network bits read as a number
    pub open spec fn netnum(self) -> nat { val(sel(self.b(), self.m(), true)) }
    /// the host bits of an address read as a number
    pub open spec fn hostnum(self, a: A) -> nat { val(sel(a.bits(), self.m(), false)) }
    /// the address with the given network and host numbers under this network's mask
    pub open spec fn addr_bits(self, net: nat, host: nat) -> Seq<bool> { weave(nbits(net, ones(self.m())) + nbits(host, zeros(self.m())), self.m()) }
    /// the address with the given host number
    pub open spec fn host(self, i: nat) -> Seq<bool> { self.addr_bits(self.netnum(), i) }
}
impl<A: IpAddress> PartialEqSpecImpl for IpNetwork<A> {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, other: &Self) -> bool { *self == *other }
}
pub proof fn lemma_and_self(a: Seq<bool>, m: Seq<bool>) requires a.len() == m.len() ensures and_bits(and_bits(a, m), m) == and_bits(a, m) {
    assert(and_bits(and_bits(a, m), m) =~= and_bits(a, m));
}
/// equality of mask bits is equality of prefix lengths
pub proof fn lemma_mask_eq(p: nat, w: nat) requires p <= w ensures ones(mask_bits(p, w)) == p, zeros(mask_bits(p, w)) == w - p, is_mask(mask_bits(p, w)) { lemma_mask_ones(p, w); }
pub proof fn lemma_sel_zero(a: Seq<bool>, m: Seq<bool>) requires a.len() == m.len(), and_bits(a, m) == a ensures forall|i: int| 0 <= i < sel(a, m, false).len() ==> !sel(a, m, false)[i] decreases a.len() {
    if a.len() > 0 {
        let (ad, md) = (a.drop_last(), m.drop_last());
        assert(and_bits(ad, md) =~= ad) by { assert forall|i: int| 0 <= i < ad.len() implies (ad[i] && md[i]) == ad[i] by { assert(and_bits(a, m)[i] == a[i]); } }
        lemma_sel_zero(ad, md);
        assert(and_bits(a, m)[a.len() - 1] == a[a.len() - 1]);
        assert(m.last() != false || sel(a, m, false) == sel(ad, md, false).push(a.last()));
        assert(m.last() || !a.last());
    }
}
pub proof fn lemma_val_zero(s: Seq<bool>) requires forall|i: int| 0 <= i < s.len() ==> !s[i] ensures val(s) == 0, s == nbits(0, s.len()) decreases s.len() {
    if s.len() > 0 { lemma_val_zero(s.drop_last()); assert(!s[s.len() - 1]); }
    lemma_val_nbits(s);
}
pub proof fn lemma_val_ones(n: nat) ensures val(mask_bits(n, n)) == pow2(n) - 1, not_bits(mask_bits(0, n)) == mask_bits(n, n) decreases n {
    if n > 0 { lemma_val_ones((n - 1) as nat); assert(mask_bits(n, n).drop_last() =~= mask_bits((n - 1) as nat, (n - 1) as nat)); lemma_pow2_pos((n - 1) as nat); }
    assert(not_bits(mask_bits(0, n)) =~= mask_bits(n, n));
}
/// the complement of the mask of w - h ones is the number 2^h - 1
pub proof fn lemma_hostmask(w: nat, h: nat) requires h <= w ensures val(not_bits(mask_bits((w - h) as nat, w))) == pow2(h) - 1 {
    let z = Seq::new((w - h) as nat, |i: int| false);
    assert(not_bits(mask_bits((w - h) as nat, w)) =~= z + mask_bits(h, h));
    lemma_val_append(z, mask_bits(h, h)); lemma_val_zero(z); lemma_val_ones(h); lemma_pow2_pos(h);
    assert(0 * pow2(h) == 0) by (nonlinear_arith);
}
/// a number below 2^(k+h) split at bit h
pub proof fn lemma_split_val(s: Seq<bool>, k: nat, h: nat, x: nat, y: nat)
    requires s.len() == k + h, val(s) == x * pow2(h) + y, x < pow2(k), y < pow2(h)
    ensures s == nbits(x, k) + nbits(y, h)
{
    lemma_nbits(x, k); lemma_nbits(y, h);
    lemma_val_append(nbits(x, k), nbits(y, h));
    lemma_val_inj(s, nbits(x, k) + nbits(y, h));
}
pub proof fn lemma_nbits_append_val(k: nat, h: nat, x: nat, y: nat) requires x < pow2(k), y < pow2(h) ensures val(nbits(x, k) + nbits(y, h)) == x * pow2(h) + y, (nbits(x, k) + nbits(y, h)).len() == k + h {
    lemma_nbits(x, k); lemma_nbits(y, h); lemma_val_append(nbits(x, k), nbits(y, h));
}
pub proof fn lemma_fit(k: nat, h: nat, x: nat, y: nat) requires y < pow2(h) ensures x < pow2(k) <==> x * pow2(h) + y < pow2(k + h), pow2(h) > 0 {
    lemma_pow2_add(k, h); lemma_pow2_pos(h);
    let p = pow2(k); let q = pow2(h);
    if x < p { assert(x * q + q <= p * q) by (nonlinear_arith) requires x + 1 <= p; }
    else { assert(x * q >= p * q) by (nonlinear_arith) requires x >= p; }
}
impl<A: IpAddress> IpNetwork<A> {
    /// the number read from the regrouped base address; width and size facts
    pub proof fn lemma_base(self) requires self.wf()
        ensures
            self.b().len() == width::<A>(), self.m().len() == width::<A>(), width::<A>() <= 128,
            ones(self.m()) + self.hostbits() == width::<A>(),
            val(unravel(self.b(), self.m())) == self.netnum() * pow2(self.hostbits()),
            unravel(self.b(), self.m()).len() == width::<A>(),
            self.netnum() < pow2(ones(self.m())), pow2(self.hostbits()) > 0,
            pow2(width::<A>()) == pow2(ones(self.m())) * pow2(self.hostbits()),
            self.host(0) == self.b(),
    {
        A::laws();
        let (b, m) = (self.b(), self.m());
        lemma_ones_le(m); lemma_sel_len(b, m); lemma_unravel_len(b, m);
        lemma_sel_zero(b, m);
        let (n, h) = (sel(b, m, true), sel(b, m, false));
        lemma_val_zero(h);
        lemma_val_append(n, h); lemma_val_bound(n);
        lemma_pow2_pos(self.hostbits()); lemma_pow2_add(ones(m), zeros(m));
        lemma_val_nbits(n);
        assert(nbits(self.netnum(), ones(m)) + nbits(0, zeros(m)) == unravel(b, m));
        lemma_weave_unravel(b, m);
    }
    /// a regrouped address with a known number
    pub proof fn lemma_at(self, s: Seq<bool>, net: nat, host: nat) requires self.wf(), s.len() == width::<A>(), val(s) == net * pow2(self.hostbits()) + host, host < pow2(self.hostbits())
        ensures weave(s, self.m()) == self.addr_bits(net, host), net < pow2(ones(self.m()))
    {
        self.lemma_base();
        lemma_val_bound(s);
        lemma_fit(ones(self.m()), self.hostbits(), net, host);
        lemma_split_val(s, ones(self.m()), self.hostbits(), net, host);
    }
    /// every regrouped address with a known number, for the proofs of the functions below
    pub proof fn lemma_at_all(self, net: nat, host: nat) requires self.wf(), host < pow2(self.hostbits())
        ensures forall|s: Seq<bool>| #[trigger] weave(s, self.m()) == weave(s, self.m()) && s.len() == width::<A>() && val(s) == net * pow2(self.hostbits()) + host ==> weave(s, self.m()) == self.addr_bits(net, host),
            net < pow2(ones(self.m())) <==> net * pow2(self.hostbits()) + host < pow2(width::<A>())
    {
        self.lemma_base();
        lemma_fit(ones(self.m()), self.hostbits(), net, host);
        assert forall|s: Seq<bool>| s.len() == width::<A>() && val(s) == net * pow2(self.hostbits()) + host implies #[trigger] weave(s, self.m()) == self.addr_bits(net, host) by { self.lemma_at(s, net, host); }
    }
}
pub proof fn lemma_index_and(a: Seq<bool>, m: Seq<bool>, b: Seq<bool>) requires a.len() == b.len(), a.len() == m.len() ensures and_bits(a, m) == b <==> (forall|i: int| 0 <= i < a.len() ==> #[trigger] b[i] == (a[i] && m[i])) {
    if and_bits(a, m) == b { assert forall|i: int| 0 <= i < a.len() implies #[trigger] b[i] == (a[i] && m[i]) by { assert(and_bits(a, m)[i] == b[i]); } }
    else if forall|i: int| 0 <= i < a.len() ==> #[trigger] b[i] == (a[i] && m[i]) { assert(and_bits(a, m) =~= b); }
}
/// superset of the address sets is superset by the bit test
pub proof fn lemma_superset<A: IpAddress>(s: IpNetwork<A>, o: IpNetwork<A>) requires s.wf(), o.wf()
    ensures (and_bits(o.b(), s.m()) == s.b() && and_bits(o.m(), s.m()) == s.m()) <==> (forall|a: A| o.member(a) ==> s.member(a))
{
    A::laws(); s.lemma_base(); o.lemma_base();
    lemma_index_and(o.b(), o.m(), o.b()); lemma_index_and(s.b(), s.m(), s.b());
    lemma_index_and(o.b(), s.m(), s.b()); lemma_index_and(o.m(), s.m(), s.m());
    if and_bits(o.b(), s.m()) == s.b() && and_bits(o.m(), s.m()) == s.m() {
        assert forall|a: A| o.member(a) implies s.member(a) by {
            lemma_index_and(a.bits(), o.m(), o.b()); lemma_index_and(a.bits(), s.m(), s.b());
            assert forall|i: int| 0 <= i < a.bits().len() implies #[trigger] s.b()[i] == (a.bits()[i] && s.m()[i]) by {
                assert(o.b()[i] == (a.bits()[i] && o.m()[i])); assert(s.m()[i] == (o.m()[i] && s.m()[i])); assert(s.b()[i] == (o.b()[i] && s.m()[i]));
            }
        }
    }
    if forall|a: A| o.member(a) ==> s.member(a) {
        assert(o.member(o.base_addr)); assert(s.member(o.base_addr));
        assert forall|i: int| 0 <= i < s.m().len() implies #[trigger] s.m()[i] == (o.m()[i] && s.m()[i]) by {
            if s.m()[i] && !o.m()[i] {
                let x = o.b().update(i, !o.b()[i]); let a = A::from_bits(x);
                lemma_index_and(x, o.m(), o.b()); lemma_index_and(x, s.m(), s.b());
                assert(o.member(a)) by { assert forall|j: int| 0 <= j < x.len() implies #[trigger] o.b()[j] == (x[j] && o.m()[j]) by { assert(o.b()[j] == (o.b()[j] && o.m()[j])); } }
                assert(s.member(a));
                assert(s.b()[i] == (x[i] && s.m()[i])); assert(s.b()[i] == (o.b()[i] && s.m()[i]));
            }
        }
    }
}
/// a common address exists exactly if the common network bits agree
pub proof fn lemma_intersect<A: IpAddress>(s: IpNetwork<A>, o: IpNetwork<A>) requires s.wf(), o.wf()
    ensures (and_bits(s.b(), and_bits(s.m(), o.m())) == and_bits(o.b(), and_bits(s.m(), o.m()))) <==> (exists|a: A| s.member(a) && o.member(a))
{
    A::laws(); s.lemma_base(); o.lemma_base();
    let c = and_bits(s.m(), o.m()); let (x, y) = (and_bits(s.b(), c), and_bits(o.b(), c));
    lemma_index_and(o.b(), o.m(), o.b()); lemma_index_and(s.b(), s.m(), s.b());
    if x == y {
        let u = or_bits(s.b(), o.b()); let a = A::from_bits(u);
        lemma_index_and(u, s.m(), s.b()); lemma_index_and(u, o.m(), o.b());
        assert forall|i: int| 0 <= i < u.len() implies #[trigger] s.b()[i] == (u[i] && s.m()[i]) by { assert(x[i] == y[i]); assert(s.b()[i] == (s.b()[i] && s.m()[i])); assert(o.b()[i] == (o.b()[i] && o.m()[i])); }
        assert forall|i: int| 0 <= i < u.len() implies #[trigger] o.b()[i] == (u[i] && o.m()[i]) by { assert(x[i] == y[i]); assert(s.b()[i] == (s.b()[i] && s.m()[i])); assert(o.b()[i] == (o.b()[i] && o.m()[i])); }
        assert(s.member(a) && o.member(a));
    }
    if exists|a: A| s.member(a) && o.member(a) {
        let a = choose|a: A| s.member(a) && o.member(a);
        lemma_index_and(a.bits(), s.m(), s.b()); lemma_index_and(a.bits(), o.m(), o.b());
        assert forall|i: int| 0 <= i < x.len() implies x[i] == y[i] by { assert(s.b()[i] == (a.bits()[i] && s.m()[i])); assert(o.b()[i] == (a.bits()[i] && o.m()[i])); }
        assert(x =~= y);
    }
}

/// the same tests written differently
pub proof fn lemma_forms<A: IpAddress>(s: IpNetwork<A>, o: IpNetwork<A>) requires s.wf(), o.wf()
    ensures
        and_bits(s.m(), o.m()) == and_bits(o.m(), s.m()),
        and_bits(s.b(), and_bits(s.m(), o.m())) == and_bits(s.b(), o.m()),
        and_bits(o.b(), and_bits(s.m(), o.m())) == and_bits(o.b(), s.m()),
        forall|x: Seq<bool>| #![trigger ones(x)] x.len() == s.b().len() && (forall|i: int| 0 <= i < x.len() ==> #[trigger] x[i] == (s.m()[i] && o.m()[i] && s.b()[i] != o.b()[i])) ==>
            (ones(x) == 0 <==> and_bits(s.b(), and_bits(s.m(), o.m())) == and_bits(o.b(), and_bits(s.m(), o.m())))
{
    A::laws(); s.lemma_base(); o.lemma_base();
    let c = and_bits(s.m(), o.m());
    lemma_index_and(o.b(), o.m(), o.b()); lemma_index_and(s.b(), s.m(), s.b());
    assert(c =~= and_bits(o.m(), s.m()));
    assert forall|i: int| 0 <= i < c.len() implies and_bits(s.b(), c)[i] == and_bits(s.b(), o.m())[i] by { assert(s.b()[i] == (s.b()[i] && s.m()[i])); }
    assert forall|i: int| 0 <= i < c.len() implies and_bits(o.b(), c)[i] == and_bits(o.b(), s.m())[i] by { assert(o.b()[i] == (o.b()[i] && o.m()[i])); }
    assert(and_bits(s.b(), c) =~= and_bits(s.b(), o.m()));
    assert(and_bits(o.b(), c) =~= and_bits(o.b(), s.m()));
    assert forall|x: Seq<bool>| #![trigger ones(x)] x.len() == s.b().len() && (forall|i: int| 0 <= i < x.len() ==> #[trigger] x[i] == (s.m()[i] && o.m()[i] && s.b()[i] != o.b()[i])) implies
        (ones(x) == 0 <==> and_bits(s.b(), c) == and_bits(o.b(), c)) by {
        lemma_no_ones(x);
        if ones(x) == 0 { assert forall|i: int| 0 <= i < c.len() implies and_bits(s.b(), c)[i] == and_bits(o.b(), c)[i] by { assert(!x[i]); } assert(and_bits(s.b(), c) =~= and_bits(o.b(), c)); }
        else { let j = choose|j: int| 0 <= j < x.len() && x[j]; assert(x[j]); assert(and_bits(s.b(), c)[j] != and_bits(o.b(), c)[j]); }
    }
}
pub proof fn lemma_no_ones(x: Seq<bool>) ensures ones(x) == 0 <==> (forall|i: int| 0 <= i < x.len() ==> !x[i]) decreases x.len() {
    if x.len() > 0 {
        lemma_no_ones(x.drop_last());
        if ones(x) == 0 { assert forall|i: int| 0 <= i < x.len() implies !x[i] by { if i < x.len() - 1 { assert(!x.drop_last()[i]); } } }
        else if forall|i: int| 0 <= i < x.len() ==> !x[i] { assert forall|i: int| 0 <= i < x.len() - 1 implies !x.drop_last()[i] by { assert(!x[i]); } assert(!x[x.len() - 1]); }
    }
}
%nocmp net::IpNetwork
%fn IpNetwork::eq
%entry
    proof { A::laws(); }
%fn net::IpNetwork::new_with_mask(addr, subnet_mask)
    ensures ret.wf(), ret.subnet_mask == subnet_mask, ret.b() == and_bits(addr.bits(), subnet_mask.bits()), ret.member(addr)
%entry
    proof { A::laws(); lemma_and_self(addr.bits(), subnet_mask.bits()); }
%fn net::IpNetwork::new_with_prefix(addr, cidr_prefix)
    requires cidr_prefix <= width::<A>()
    ensures ret.wf(), ret.m() == mask_bits(cidr_prefix as nat, width::<A>()), ret.cidr_prefix == Some(cidr_prefix), ret.b() == and_bits(addr.bits(), ret.m()), ret.member(addr)
%entry
    proof { A::laws(); lemma_mask_eq(cidr_prefix as nat, width::<A>()); lemma_and_self(addr.bits(), mask_bits(cidr_prefix as nat, width::<A>())); }
%fn net::IpNetwork::new_with_mask_strict(addr, subnet_mask)
    ensures ret is Some <==> and_bits(addr.bits(), subnet_mask.bits()) == addr.bits(),
        ret is Some ==> ret->0.wf() && ret->0.subnet_mask == subnet_mask && ret->0.base_addr == addr
%entry
    proof { A::laws(); }
%fn net::IpNetwork::new_with_prefix_strict(addr, cidr_prefix)
    requires cidr_prefix <= width::<A>()
    ensures ret is Some <==> and_bits(addr.bits(), mask_bits(cidr_prefix as nat, width::<A>())) == addr.bits(),
        ret is Some ==> ret->0.wf() && ret->0.cidr_prefix == Some(cidr_prefix) && ret->0.m() == mask_bits(cidr_prefix as nat, width::<A>()) && ret->0.base_addr == addr
%entry
    proof { A::laws(); }
%fn net::IpNetwork::base_addr
    ensures ret == self.base_addr
%fn net::IpNetwork::subnet_mask
    ensures ret == self.subnet_mask
%fn net::IpNetwork::cidr_prefix
    ensures ret == self.cidr_prefix
%fn net::IpNetwork::cisco_wildcard
    ensures ret.bits() == not_bits(self.m()), ones(ret.bits()) == zeros(self.m()), zeros(ret.bits()) == ones(self.m())
%entry
    proof { A::laws(); lemma_ones_not(self.m()); }

%fn net::IpNetwork::address_count
    ensures ret@ == pow2(self.hostbits())
%grewrite $x *= & $$y ; =>> crate::num_bigint::mul_assign(&mut $x, &$$y);
%entry
    let ghost w = not_bits(self.m());
    proof { A::laws(); lemma_ones_not(self.m()); lemma_ones_le(self.m()); }
%loop 0
    invariant
        two@ == 2, vit0.seq().len() <= 16,
        bytes_bits(vit0.seq()) == w,
        ret@ == pow2(ones(bytes_bits(vit0.seq().take(vit0.index() as int))))
%before 0
    proof { assert(bytes_bits(Seq::<u8>::empty()) =~= Seq::empty()); assert(forall|s: Seq<u8>| #[trigger] s.take(0) =~= Seq::empty()); }
%body 0
    let ghost o0 = ones(bytes_bits(vit0.seq().take(vit0.index() as int)));
    proof { let s = vit0.seq(); let k = vit0.index() as int; assert(b == s[k]); assert(s.take(k + 1) =~= s.take(k).push(b)); lemma_bytes_bits_push(s.take(k), b); lemma_ones_append(bytes_bits(s.take(k)), byte_bits(b)); }
%loop 1
    invariant
        two@ == 2, ret@ == pow2(o0 + vit1.index() as nat), vit1.seq().len() == ones(byte_bits(b))
%after 0
    proof { assert(forall|s: Seq<u8>| #[trigger] s.take(s.len() as int) =~= s); }
%fn net::IpNetwork::host_count
    ensures ret@ == pow2(self.hostbits()) - 2

%fn net::IpNetwork::first_host_addr
    requires self.wf()
    ensures ret is Some <==> self.hostbits() >= 2, ret is Some ==> ret->0.bits() == self.host(1)
%closure 0
    $0: &u8 ||| usize ||| ensures cret == ones(byte_bits(*$0))
%entry
    proof { A::laws(); self.lemma_base(); lemma_sums(); lemma_ones_not(self.m()); if self.hostbits() >= 2 { lemma_pow2_mono(2, self.hostbits()); assert(pow2(2) == 4) by (compute); self.lemma_at_all(self.netnum(), 1); } }
%fn net::IpNetwork::broadcast_addr
    requires self.wf()
    ensures ret is Some <==> self.hostbits() >= 1, ret is Some ==> ret->0.bits() == self.host((pow2(self.hostbits()) - 1) as nat)
%closure 0
    $0: &u8 ||| usize ||| ensures cret == ones(byte_bits(*$0))
%entry
    proof { A::laws(); self.lemma_base(); lemma_sums(); lemma_ones_not(self.m()); lemma_hostmask(width::<A>(), self.hostbits()); self.lemma_at_all(self.netnum(), (pow2(self.hostbits()) - 1) as nat); }
%fn net::IpNetwork::last_host_addr
    requires self.wf()
    ensures ret is Some <==> self.hostbits() >= 2, ret is Some ==> ret->0.bits() == self.host((pow2(self.hostbits()) - 2) as nat)
%closure 0
    $0: &u8 ||| usize ||| ensures cret == ones(byte_bits(*$0))
%entry
    proof { A::laws(); self.lemma_base(); lemma_sums(); lemma_ones_not(self.m()); lemma_hostmask(width::<A>(), self.hostbits()); if self.hostbits() >= 2 { lemma_pow2_mono(2, self.hostbits()); assert(pow2(2) == 4) by (compute); self.lemma_at_all(self.netnum(), (pow2(self.hostbits()) - 1) as nat); self.lemma_at_all(self.netnum(), (pow2(self.hostbits()) - 2) as nat); } }
%fn net::IpNetwork::next_subnet_base_addr
    requires self.wf()
    ensures ret is Some <==> self.netnum() + 1 < pow2(ones(self.m())), ret is Some ==> ret->0.bits() == self.addr_bits(self.netnum() + 1, 0)
%closure 0
    $0: &u8 ||| usize ||| ensures cret == ones(byte_bits(*$0))
%entry
    proof {
        A::laws(); self.lemma_base(); lemma_sums(); lemma_ones_not(self.m()); lemma_hostmask(width::<A>(), self.hostbits());
        let (p, n) = (pow2(self.hostbits()), self.netnum());
        assert((n + 1) * p == n * p + p) by (nonlinear_arith);
        self.lemma_at_all(n, (p - 1) as nat); self.lemma_at_all(n + 1, 0);
    }
%fn net::IpNetwork::last_addr_of_subnet
    requires self.wf()
    ensures ret.bits() == self.host((pow2(self.hostbits()) - 1) as nat)
%entry
    proof { self.lemma_base(); assert(pow2(0) == 1); }
%fn net::IpNetwork::contains(addr)
    ensures ret <==> self.member(*addr)
%entry
    proof { A::laws(); }
%fn net::IpNetwork::is_superset_of(other)
    requires self.wf(), other.wf()
    ensures ret <==> contains_net(*self, *other), ret <==> (forall|a: A| other.member(a) ==> self.member(a)), ret <==> (and_bits(other.b(), self.m()) == self.b() && and_bits(other.m(), self.m()) == self.m())
%entry
    proof { A::laws(); lemma_superset(*self, *other); lemma_forms(*self, *other); }
%fn net::IpNetwork::is_subset_of(other)
    requires self.wf(), other.wf()
    ensures ret <==> contains_net(*other, *self), ret <==> (forall|a: A| self.member(a) ==> other.member(a)), ret <==> (and_bits(self.b(), other.m()) == other.b() && and_bits(self.m(), other.m()) == other.m())
%fn net::IpNetwork::intersects(other)
    requires self.wf(), other.wf()
    ensures ret <==> (exists|a: A| self.member(a) && other.member(a))
%entry
    proof { A::laws(); lemma_intersect(*self, *other); lemma_forms(*self, *other); }
