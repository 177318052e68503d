%# enumeration as an iterator over a known sequence
%module cmds::enumerate
use crate::model::*;
use crate::net::*;
use vstd::std_specs::iter::*;
use vstd::std_specs::cmp::*;
/// an address by its number after regrouping
pub open spec fn item<A: IpAddress>(x: nat, m: A) -> A { A::from_bits(weave(nbits(x, width::<A>()), m.bits())) }
/// the addresses of a network by host number
pub open spec fn listing<A: IpAddress>(n: IpNetwork<A>) -> Seq<A> { Seq::new(n.size(), |i: int| A::from_bits(n.host(i as nat))) }
impl<A: IpAddress> NetworkIter<A> {
    pub open spec fn lo(self) -> nat { val(self.unraveled_addr.bits()) }
    pub open spec fn hi(self) -> nat { val(self.last_unraveled_addr.bits()) }
    pub open spec fn count(self) -> nat { if self.is_empty || self.lo() > self.hi() { 0 } else { (self.hi() - self.lo() + 1) as nat } }
    /// what is still to be listed
    pub open spec fn left(self) -> Seq<A> { let lo = self.lo(); let m = self.subnet_mask; Seq::new(self.count(), |i: int| item::<A>((lo + i) as nat, m)) }
}
impl<A: IpAddress> IteratorSpecImpl for NetworkIter<A> {
    open spec fn obeys_prophetic_iter_laws(&self) -> bool { true }
    open spec fn remaining(&self) -> Seq<A> { self.left() }
    open spec fn will_return_none(&self) -> bool { true }
    open spec fn decrease(&self) -> Option<nat> { Some(self.left().len()) }
    open spec fn peek(&self, i: int) -> Option<A> { if 0 <= i < self.left().len() { Some(self.left()[i]) } else { None } }
}
/// masking depends on the network bits only
pub proof fn lemma_same_net(a: Seq<bool>, b: Seq<bool>, m: Seq<bool>) requires a.len() == m.len(), b.len() == m.len(), and_bits(b, m) == b
    ensures and_bits(a, m) == b <==> sel(a, m, true) == sel(b, m, true)
{
    lemma_sel_and(a, m);
    if sel(a, m, true) == sel(b, m, true) {
        let c = and_bits(a, m);
        lemma_and_self(a, m); lemma_sel_zero(c, m); lemma_sel_zero(b, m); lemma_sel_len(c, m); lemma_sel_len(b, m);
        assert(sel(c, m, false) =~= sel(b, m, false));
        lemma_weave_unravel(c, m); lemma_weave_unravel(b, m);
    }
}
pub open spec fn listed<A: IpAddress>(n: IpNetwork<A>, i: int) -> bool {
    let a = listing(n)[i];
    a.bits() == n.host(i as nat) && n.member(a) && n.hostnum(a) == i
}
pub proof fn lemma_host<A: IpAddress>(n: IpNetwork<A>, i: nat) requires n.wf(), i < n.size() ensures listed(n, i as int) {
    A::laws(); n.lemma_base();
    let m = n.m(); let (x, y) = (nbits(n.netnum(), ones(m)), nbits(i, zeros(m)));
    lemma_nbits(n.netnum(), ones(m)); lemma_nbits(i, zeros(m)); lemma_unravel_weave(x + y, m); lemma_unravel_len(x + y, m);
    let a = n.host(i); lemma_sel_len(a, m); lemma_sel_len(n.b(), m);
    assert(sel(a, m, true) =~= unravel(a, m).take(ones(m) as int)); assert(sel(a, m, false) =~= unravel(a, m).skip(ones(m) as int));
    assert((x + y).take(ones(m) as int) =~= x); assert((x + y).skip(ones(m) as int) =~= y);
    lemma_val_nbits(sel(n.b(), m, true));
    lemma_same_net(a, n.b(), m);
    assert(listing(n)[i as int].bits() == a);
}
pub proof fn lemma_member<A: IpAddress>(n: IpNetwork<A>, a: A) requires n.wf(), n.member(a) ensures n.hostnum(a) < n.size(), listing(n)[n.hostnum(a) as int] == a {
    A::laws(); n.lemma_base();
    let m = n.m(); let b = a.bits();
    lemma_same_net(b, n.b(), m); lemma_sel_len(b, m); lemma_val_bound(sel(b, m, false));
    lemma_val_nbits(sel(b, m, true)); lemma_val_nbits(sel(b, m, false)); lemma_weave_unravel(b, m);
    assert(listing(n)[n.hostnum(a) as int].bits() == b);
}
/// the listing has exactly the addresses of the network, each once, ascending by host number, from the base address on
pub proof fn lemma_listing<A: IpAddress>(n: IpNetwork<A>) requires n.wf()
    ensures
        forall|i: int| 0 <= i < n.size() ==> #[trigger] listed(n, i),
        forall|a: A| #[trigger] n.member(a) ==> n.hostnum(a) < listing(n).len() && listing(n)[n.hostnum(a) as int] == a,
        listing(n).len() == n.size(), n.size() > 0, listing(n)[0] == n.base_addr,
        forall|i: int, j: int| #![trigger listing(n)[i], listing(n)[j]] 0 <= i < j < n.size() ==> n.hostnum(listing(n)[i]) < n.hostnum(listing(n)[j]) && listing(n)[i] != listing(n)[j]
{
    A::laws(); n.lemma_base();
    assert forall|i: int| 0 <= i < n.size() implies #[trigger] listed(n, i) by { lemma_host(n, i as nat); }
    assert forall|a: A| #[trigger] n.member(a) implies n.hostnum(a) < listing(n).len() && listing(n)[n.hostnum(a) as int] == a by { lemma_member(n, a); }
    assert forall|i: int, j: int| #![trigger listing(n)[i], listing(n)[j]] 0 <= i < j < n.size() implies n.hostnum(listing(n)[i]) < n.hostnum(listing(n)[j]) && listing(n)[i] != listing(n)[j] by { assert(listed(n, i)); assert(listed(n, j)); }
    assert(listed(n, 0));
}
/// the listing as the iterator produces it
pub proof fn lemma_items<A: IpAddress>(n: IpNetwork<A>, lo: A, hi: A) requires n.wf(), lo.bits() == unravel(n.b(), n.m()), hi.bits() == unravel(n.host((n.size() - 1) as nat), n.m())
    ensures val(lo.bits()) == n.netnum() * n.size(), val(hi.bits()) == n.netnum() * n.size() + n.size() - 1,
        forall|i: int| 0 <= i < n.size() ==> #[trigger] item::<A>((val(lo.bits()) + i) as nat, n.subnet_mask) == listing(n)[i]
{
    A::laws(); n.lemma_base();
    let m = n.m(); let (k, h) = (ones(m), zeros(m)); let (t, q) = (n.netnum(), n.size());
    let x = nbits(t, k) + nbits((q - 1) as nat, h);
    lemma_nbits_append_val(k, h, t, (q - 1) as nat); lemma_unravel_weave(x, m);
    assert forall|i: int| 0 <= i < n.size() implies #[trigger] item::<A>((val(lo.bits()) + i) as nat, n.subnet_mask) == listing(n)[i] by {
        let y = nbits((val(lo.bits()) + i) as nat, width::<A>());
        lemma_fit(k, h, t, i as nat); lemma_nbits((t * q + i) as nat, width::<A>());
        lemma_split_val(y, k, h, t, i as nat);
    }
}

pub proof fn lemma_new<A: IpAddress>(n: IpNetwork<A>) requires n.wf()
    ensures forall|it: NetworkIter<A>| it.unraveled_addr.bits() == unravel(n.b(), n.m()) && it.last_unraveled_addr.bits() == unravel(n.host((n.size() - 1) as nat), n.m()) && it.subnet_mask == n.subnet_mask && !it.is_empty ==> #[trigger] it.left() == listing(n)
{
    n.lemma_base();
    assert forall|it: NetworkIter<A>| it.unraveled_addr.bits() == unravel(n.b(), n.m()) && it.last_unraveled_addr.bits() == unravel(n.host((n.size() - 1) as nat), n.m()) && it.subnet_mask == n.subnet_mask && !it.is_empty implies #[trigger] it.left() == listing(n) by {
        lemma_items(n, it.unraveled_addr, it.last_unraveled_addr);
        assert(it.left() =~= listing(n));
    }
}
/// one step: what is left afterwards, and what is given out
pub proof fn lemma_left<A: IpAddress>(o: NetworkIter<A>, f: NetworkIter<A>) requires o.left().len() > 0, f.last_unraveled_addr == o.last_unraveled_addr, f.subnet_mask == o.subnet_mask, f.is_empty && o.lo() >= o.hi() || !f.is_empty && f.lo() == o.lo() + 1 ensures f.left() == o.left().skip(1) { assert(f.left() =~= o.left().skip(1)); }
pub proof fn lemma_given<A: IpAddress>(o: NetworkIter<A>, r: A) requires o.left().len() > 0, r.bits() == weave(o.unraveled_addr.bits(), o.subnet_mask.bits()) ensures r == o.left()[0] {
    A::laws(); let (u, m) = (o.unraveled_addr.bits(), o.subnet_mask.bits()); lemma_val_nbits(u); lemma_unravel_len(u, m);
    assert(o.left()[0] == item::<A>(o.lo(), o.subnet_mask));
}
pub proof fn lemma_next<A: IpAddress>(o: NetworkIter<A>)
    ensures
        forall|f: NetworkIter<A>| o.left().len() > 0 && f.last_unraveled_addr == o.last_unraveled_addr && f.subnet_mask == o.subnet_mask && (f.is_empty && o.lo() >= o.hi() || !f.is_empty && f.lo() == o.lo() + 1) ==> #[trigger] f.left() == o.left().skip(1),
        forall|r: A| o.left().len() > 0 && #[trigger] r.bits() == weave(o.unraveled_addr.bits(), o.subnet_mask.bits()) ==> r == o.left()[0],
{
    assert forall|f: NetworkIter<A>| o.left().len() > 0 && f.last_unraveled_addr == o.last_unraveled_addr && f.subnet_mask == o.subnet_mask && (f.is_empty && o.lo() >= o.hi() || !f.is_empty && f.lo() == o.lo() + 1) implies #[trigger] f.left() == o.left().skip(1) by { lemma_left(o, f); }
    assert forall|r: A| o.left().len() > 0 && #[trigger] r.bits() == weave(o.unraveled_addr.bits(), o.subnet_mask.bits()) implies r == o.left()[0] by { lemma_given(o, r); }
}

%fn cmds::enumerate::NetworkIter::new(network)
    requires network.wf()
    ensures ret.left() == listing(network)
%entry
    proof { network.lemma_base(); lemma_new(network); lemma_listing(network); }
%fn cmds::enumerate::NetworkIter::next
    ensures
        ret is None <==> old(self).left().len() == 0,
        ret is None ==> final(self).left().len() == 0,
        ret is Some ==> ret->0 == old(self).left()[0] && final(self).left() == old(self).left().skip(1)
%entry
    proof { A::laws(); lemma_next(*self); lemma_val_bound(self.last_unraveled_addr.bits()); }
