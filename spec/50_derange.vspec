%# contiguous networks as ranges of numbers
%module cmds::derange
use crate::model::*;
use crate::net::*;
use vstd::std_specs::cmp::*;
pub proof fn lemma_div_pow(x: nat, q: nat) requires q > 0 ensures (x / q) * q <= x < (x / q) * q + q, x % q == x - (x / q) * q {
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(x as int, q as int);
    assert(q * (x / q) == (x / q) * q) by (nonlinear_arith);
}
/// clearing all but the first p bits
pub proof fn lemma_clear(a: Seq<bool>, p: nat) requires p <= a.len()
    ensures val(and_bits(a, mask_bits(p, a.len()))) == (val(a) / pow2((a.len() - p) as nat)) * pow2((a.len() - p) as nat),
        val(a.take(p as int)) == val(a) / pow2((a.len() - p) as nat)
{
    let h = (a.len() - p) as nat; let (x, y) = (a.take(p as int), a.skip(p as int)); let q = pow2(h);
    let z = Seq::new(h, |i: int| false);
    assert(a =~= x + y); assert(and_bits(a, mask_bits(p, a.len())) =~= x + z);
    lemma_val_append(x, y); lemma_val_append(x, z); lemma_val_zero(z); lemma_val_bound(y); lemma_pow2_pos(h);
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(val(a) as int, q as int, val(x) as int, val(y) as int);
}
impl<A: IpAddress> IpNetwork<A> {
    pub open spec fn first(self) -> nat { val(self.b()) }
    /// number of addresses
    pub open spec fn size(self) -> nat { pow2(self.hostbits()) }
    pub open spec fn contig(self) -> bool { self.wf() && is_mask(self.m()) }
    /// size facts of a contiguous network
    pub proof fn lemma_contig(self) requires self.contig()
        ensures
            self.m() == mask_bits(ones(self.m()), width::<A>()), ones(self.m()) + self.hostbits() == width::<A>(),
            self.first() == self.netnum() * self.size(), self.size() > 0, self.first() % self.size() == 0,
            self.first() + self.size() <= pow2(width::<A>()),
            self.netnum() < pow2(ones(self.m())), pow2(width::<A>()) == pow2(ones(self.m())) * self.size(),
            self.b().len() == width::<A>(), self.m().len() == width::<A>(), width::<A>() <= 128,
    {
        A::laws(); self.lemma_base();
        let (b, m, q, n, k, h) = (self.b(), self.m(), self.size(), self.netnum(), ones(self.m()), self.hostbits());
        lemma_is_mask(m);
        lemma_regroup_mask(b, m);
        lemma_fit(k, h, n, (q - 1) as nat);
        lemma_div_pow(n * q, q);
        vstd::arithmetic::div_mod::lemma_mod_multiples_basic(n as int, q as int);
        lemma_fit_top(k, h, n);
    }
    /// a contiguous network is the range of numbers from its base address on
    pub proof fn lemma_range(self, a: A) requires self.contig() ensures self.member(a) <==> self.first() <= val(a.bits()) < self.first() + self.size() {
        A::laws(); self.lemma_contig();
        let (b, m, q, n, k) = (self.b(), self.m(), self.size(), self.netnum(), ones(self.m()));
        let v = val(a.bits());
        lemma_clear(a.bits(), k);
        lemma_div_pow(v, q);
        if self.member(a) { assert(v / q * q == n * q); }
        else if n * q <= v < n * q + q {
            vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(v as int, q as int, n as int, v - n * q);
            lemma_val_inj(and_bits(a.bits(), m), b);
        }
    }
    /// host numbers count up from the base address
    pub proof fn lemma_host_val(self, n: nat, i: nat) requires self.contig(), i < self.size(), n < pow2(ones(self.m())) ensures val(self.addr_bits(n, i)) == n * self.size() + i, n == self.netnum() ==> val(self.host(i)) == self.first() + i {
        self.lemma_contig(); A::laws();
        let (k, h) = (ones(self.m()), self.hostbits());
        lemma_nbits_append_val(k, h, n, i); lemma_regroup_mask(nbits(n, k) + nbits(i, h), self.m());
    }
}
pub proof fn lemma_fit_top(k: nat, h: nat, n: nat) requires n < pow2(k) ensures n * pow2(h) + pow2(h) <= pow2(k + h) {
    lemma_pow2_add(k, h); let (p, q) = (pow2(k), pow2(h));
    assert(n * q + q <= p * q) by (nonlinear_arith) requires n + 1 <= p;
}
/// the networks follow each other without gap from lo on, the last one ending before hi
pub open spec fn chain<A: IpAddress>(s: Seq<IpNetwork<A>>, lo: nat, hi: nat) -> bool decreases s.len() {
    if s.len() == 0 { lo == hi } else { chain(s.drop_last(), lo, s.last().first()) && s.last().contig() && s.last().first() + s.last().size() == hi }
}
/// no larger contiguous network with the same base address stays before hi
pub open spec fn largest<A: IpAddress>(n: IpNetwork<A>, hi: nat) -> bool {
    ones(n.m()) == 0 || n.first() % pow2(n.hostbits() + 1) != 0 || n.first() + pow2(n.hostbits() + 1) > hi
}
/// the addresses of the networks are those from lo up to, not including, hi
pub open spec fn covers<A: IpAddress>(s: Seq<IpNetwork<A>>, lo: nat, hi: nat) -> bool {
    forall|a: A| #[trigger] in_some(s, a) <==> lo <= val(a.bits()) < hi
}
pub open spec fn in_some<A: IpAddress>(s: Seq<IpNetwork<A>>, a: A) -> bool { exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).member(a) }
pub open spec fn all_contig<A: IpAddress>(s: Seq<IpNetwork<A>>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).contig() }
/// strictly ascending and disjoint
pub open spec fn ascending<A: IpAddress>(s: Seq<IpNetwork<A>>) -> bool { forall|i: int, j: int| #![trigger s[i], s[j]] 0 <= i < j < s.len() ==> s[i].first() + s[i].size() <= s[j].first() }
/// no list of contiguous networks covering the same addresses is shorter
pub open spec fn fewest<A: IpAddress>(s: Seq<IpNetwork<A>>, lo: nat, hi: nat) -> bool {
    forall|o: Seq<IpNetwork<A>>| all_contig(o) && #[trigger] covers(o, lo, hi) ==> s.len() <= o.len()
}
/// the networks of a chain are contiguous, ascending and lie between its ends
pub proof fn lemma_chain_order<A: IpAddress>(s: Seq<IpNetwork<A>>, lo: nat, hi: nat) requires chain(s, lo, hi)
    ensures all_contig(s), ascending(s), lo <= hi, s.len() > 0 ==> lo < hi && hi <= pow2(width::<A>()),
        forall|i: int| 0 <= i < s.len() ==> lo <= (#[trigger] s[i]).first() && s[i].first() + s[i].size() <= hi
    decreases s.len()
{
    if s.len() > 0 {
        let d = s.drop_last(); let l = s.last();
        l.lemma_contig();
        lemma_chain_order(d, lo, l.first());
        let (lf, ls) = (l.first(), l.size());
        assert forall|i: int| 0 <= i < s.len() implies (#[trigger] s[i]).contig() && lo <= s[i].first() && s[i].first() + s[i].size() <= hi by { if i < d.len() { assert(s[i] == d[i]); } else { assert(s[i] == l); } }
        assert forall|i: int, j: int| #![trigger s[i], s[j]] 0 <= i < j < s.len() implies s[i].first() + s[i].size() <= s[j].first() by { assert(s[i] == d[i]); if j < d.len() { assert(s[j] == d[j]); } else { assert(s[j] == l); } }
    }
}
pub open spec fn between<A: IpAddress>(a: A, lo: nat, hi: nat) -> bool { lo <= val(a.bits()) < hi }
/// one address and one chain
pub proof fn lemma_chain_at<A: IpAddress>(s: Seq<IpNetwork<A>>, lo: nat, hi: nat, a: A) requires chain(s, lo, hi)
    ensures in_some(s, a) <==> between(a, lo, hi)
    decreases s.len()
{
    lemma_chain_order(s, lo, hi);
    if s.len() > 0 {
        let d = s.drop_last(); let l = s.last();
        lemma_chain_order(d, lo, l.first());
        lemma_chain_at(d, lo, l.first(), a);
        l.lemma_range(a);
        if between(a, lo, hi) {
            if between(a, lo, l.first()) { let i = choose|i: int| 0 <= i < d.len() && (#[trigger] d[i]).member(a); assert(s[i].member(a)); }
            else { assert(s[s.len() - 1].member(a)); }
        }
        if in_some(s, a) {
            let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).member(a);
            if i < d.len() { assert(d[i].member(a)); assert(in_some(d, a)); } else { assert(s[i] == l); }
        }
    }
}
pub proof fn lemma_chain<A: IpAddress>(s: Seq<IpNetwork<A>>, lo: nat, hi: nat) requires chain(s, lo, hi)
    ensures all_contig(s), ascending(s), covers(s, lo, hi), lo <= hi, s.len() > 0 ==> lo < hi && hi <= pow2(width::<A>()),
        forall|i: int| 0 <= i < s.len() ==> lo <= (#[trigger] s[i]).first() && s[i].first() + s[i].size() <= hi
{
    lemma_chain_order(s, lo, hi);
    assert forall|a: A| #[trigger] in_some(s, a) <==> lo <= val(a.bits()) < hi by { lemma_chain_at(s, lo, hi, a); }
}
pub proof fn lemma_pow_le(a: nat, b: nat) requires a <= b ensures pow2(b) % pow2(a) == 0, pow2(a) <= pow2(b), pow2(a) > 0 {
    lemma_pow2_mono(a, b); lemma_pow2_pos(a); lemma_pow2_add((b - a) as nat, a);
    vstd::arithmetic::div_mod::lemma_mod_multiples_basic(pow2((b - a) as nat) as int, pow2(a) as int);
}
/// a multiple of a larger power of two is one of a smaller
pub proof fn lemma_mult_down(x: nat, a: nat, b: nat) requires a <= b, x % pow2(b) == 0 ensures x % pow2(a) == 0 {
    lemma_pow2_pos(b); lemma_pow2_pos(a); lemma_pow2_add((b - a) as nat, a);
    lemma_div_pow(x, pow2(b));
    let (n, p, q) = (x / pow2(b), pow2((b - a) as nat), pow2(a));
    assert(n * (p * q) == (n * p) * q) by (nonlinear_arith);
    vstd::arithmetic::div_mod::lemma_mod_multiples_basic((n * p) as int, q as int);
}
/// of two aligned blocks that share a number, the smaller lies in the larger
pub proof fn lemma_nested(x: nat, a: nat, y: nat, b: nat, v: nat)
    requires a <= b, x % pow2(a) == 0, y % pow2(b) == 0, x <= v < x + pow2(a), y <= v < y + pow2(b)
    ensures y <= x, x + pow2(a) <= y + pow2(b)
{
    lemma_pow_le(a, b); lemma_mult_down(y, a, b);
    let q = pow2(a);
    lemma_div_pow(x, q); lemma_div_pow(y, q); lemma_div_pow((y + pow2(b)) as nat, q);
    lemma_pow2_pos(b);
    vstd::arithmetic::div_mod::lemma_add_mod_noop(y as int, pow2(b) as int, q as int);
    let (i, j, k) = (x / q, y / q, (y + pow2(b)) as nat / q);
    let z = (y + pow2(b)) as nat;
    vstd::arithmetic::div_mod::lemma_small_mod(0, q);
    assert(z % q == 0);
    assert(x == i * q); assert(y == j * q); assert(z == k * q);
    if i < j { assert(i * q + q <= j * q) by (nonlinear_arith) requires i + 1 <= j; }
    if i >= k { assert(i * q >= k * q) by (nonlinear_arith) requires i >= k; }
    assert((i + 1) * q <= k * q) by (nonlinear_arith) requires i + 1 <= k;
    assert((i + 1) * q == i * q + q) by (nonlinear_arith);
    assert(j * q <= i * q) by (nonlinear_arith) requires j <= i;
}
/// a number as an address
pub open spec fn addr_of<A: IpAddress>(x: nat) -> A { A::from_bits(nbits(x, width::<A>())) }
pub proof fn lemma_addr_of<A: IpAddress>(x: nat) requires x < pow2(width::<A>()) ensures val(addr_of::<A>(x).bits()) == x {
    A::laws(); lemma_nbits(x, width::<A>());
}
/// a contiguous network that starts within a largest one and stays before hi lies within it
pub proof fn lemma_within<A: IpAddress>(n: IpNetwork<A>, hi: nat, o: IpNetwork<A>)
    requires n.contig(), largest(n, hi), o.contig(), o.first() + o.size() <= hi, n.first() <= o.first() < n.first() + n.size()
    ensures o.first() + o.size() <= n.first() + n.size()
{
    n.lemma_contig(); o.lemma_contig();
    let d = n.hostbits() + 1;
    if o.hostbits() <= n.hostbits() {
        lemma_nested(o.first(), o.hostbits(), n.first(), n.hostbits(), o.first());
    } else {
        lemma_nested(n.first(), n.hostbits(), o.first(), o.hostbits(), o.first());
        assert(pow2(d) == 2 * n.size());
        lemma_mult_down(o.first(), d, o.hostbits());
        lemma_pow2_mono(d, o.hostbits());
    }
}
pub proof fn lemma_pigeon(g: Seq<int>, m: int) requires forall|i: int| 0 <= i < g.len() ==> 0 <= #[trigger] g[i] < m, forall|i: int, j: int| #![trigger g[i], g[j]] 0 <= i < j < g.len() ==> g[i] != g[j], m >= 0 ensures g.len() <= m {
    g.unique_seq_to_set();
    vstd::set_lib::lemma_int_range(0, m);
    assert(g.to_set().subset_of(vstd::set_lib::set_int_range(0, m)));
    vstd::set_lib::lemma_len_subset(g.to_set(), vstd::set_lib::set_int_range(0, m));
}
/// a contiguous network of a list covering lo..hi lies in lo..hi
pub proof fn lemma_inside<A: IpAddress>(o: Seq<IpNetwork<A>>, lo: nat, hi: nat, k: int)
    requires all_contig(o), covers(o, lo, hi), 0 <= k < o.len()
    ensures lo <= o[k].first(), o[k].first() + o[k].size() <= hi
{
    let n = o[k]; n.lemma_contig();
    let (x, y) = (addr_of::<A>(n.first()), addr_of::<A>((n.first() + n.size() - 1) as nat));
    lemma_addr_of::<A>(n.first()); lemma_addr_of::<A>((n.first() + n.size() - 1) as nat);
    n.lemma_range(x); n.lemma_range(y);
    assert(o[k].member(x)); assert(o[k].member(y));
    assert(in_some(o, x)); assert(in_some(o, y));
}
/// a network of such a list containing the base address of s[i] lies within s[i]
pub proof fn lemma_pick<A: IpAddress>(s: Seq<IpNetwork<A>>, lo: nat, hi: nat, i: int, n: IpNetwork<A>)
    requires chain(s, lo, hi), 0 <= i < s.len(), largest_all(s, hi), n.contig(), lo <= n.first(), n.first() + n.size() <= hi, n.member(addr_of::<A>(s[i].first()))
    ensures s[i].first() <= n.first() && n.first() + n.size() <= s[i].first() + s[i].size()
{
    lemma_chain(s, lo, hi);
    n.lemma_contig(); s[i].lemma_contig();
    let x = addr_of::<A>(n.first()); let y = addr_of::<A>(s[i].first());
    lemma_addr_of::<A>(n.first()); lemma_addr_of::<A>(s[i].first());
    n.lemma_range(y);
    assert(in_some(s, x));
    let k = choose|k: int| 0 <= k < s.len() && (#[trigger] s[k]).member(x);
    s[k].lemma_contig(); s[k].lemma_range(x);
    lemma_within(s[k], hi, n);
    if k < i { assert(s[k].first() + s[k].size() <= s[i].first()); }
    if i < k { assert(s[i].first() + s[i].size() <= s[k].first()); }
}
pub open spec fn largest_all<A: IpAddress>(s: Seq<IpNetwork<A>>, hi: nat) -> bool { forall|i: int| 0 <= i < s.len() ==> largest(#[trigger] s[i], hi) }
pub open spec fn pick<A: IpAddress>(s: Seq<IpNetwork<A>>, o: Seq<IpNetwork<A>>, i: int) -> int { choose|k: int| 0 <= k < o.len() && (#[trigger] o[k]).member(addr_of::<A>(s[i].first())) }
pub proof fn lemma_picked<A: IpAddress>(s: Seq<IpNetwork<A>>, lo: nat, hi: nat, o: Seq<IpNetwork<A>>, i: int)
    requires chain(s, lo, hi), largest_all(s, hi), all_contig(o), covers(o, lo, hi), 0 <= i < s.len()
    ensures 0 <= pick(s, o, i) < o.len(), s[i].first() <= o[pick(s, o, i)].first() && o[pick(s, o, i)].first() + o[pick(s, o, i)].size() <= s[i].first() + s[i].size(), o[pick(s, o, i)].size() > 0
{
    lemma_chain(s, lo, hi);
    s[i].lemma_contig(); lemma_addr_of::<A>(s[i].first());
    assert(in_some(o, addr_of::<A>(s[i].first())));
    let k = pick(s, o, i);
    lemma_inside(o, lo, hi, k);
    o[k].lemma_contig();
    lemma_pick(s, lo, hi, i, o[k]);
}
pub proof fn lemma_fewest<A: IpAddress>(s: Seq<IpNetwork<A>>, lo: nat, hi: nat)
    requires chain(s, lo, hi), largest_all(s, hi)
    ensures fewest(s, lo, hi)
{
    lemma_chain(s, lo, hi);
    assert forall|o: Seq<IpNetwork<A>>| all_contig(o) && #[trigger] covers(o, lo, hi) implies s.len() <= o.len() by {
        let g = Seq::new(s.len(), |i: int| pick(s, o, i));
        assert forall|i: int| 0 <= i < g.len() implies 0 <= #[trigger] g[i] < o.len() by { lemma_picked(s, lo, hi, o, i); }
        assert forall|i: int, j: int| #![trigger g[i], g[j]] 0 <= i < j < g.len() implies g[i] != g[j] by {
            lemma_picked(s, lo, hi, o, i); lemma_picked(s, lo, hi, o, j);
            assert(s[i].first() + s[i].size() <= s[j].first());
        }
        lemma_pigeon(g, o.len() as int);
    }
}
pub open spec fn range_lo<A: IpAddress>(a: A, b: A) -> nat { if val(a.bits()) <= val(b.bits()) { val(a.bits()) } else { val(b.bits()) } }
pub open spec fn range_hi<A: IpAddress>(a: A, b: A) -> nat { if val(a.bits()) <= val(b.bits()) { val(b.bits()) } else { val(a.bits()) } }
pub open spec fn grown<A: IpAddress>(c: IpNetwork<A>, l: IpNetwork<A>) -> bool {
    &&& l.hostbits() == c.hostbits() + 1 && l.size() == 2 * c.size()
    &&& l.first() == c.first() <==> l.base_addr == c.base_addr
    &&& c.first() % pow2(c.hostbits() + 1) == 0 <==> l.first() == c.first()
    &&& val(l.host((l.size() - 1) as nat)) == l.first() + l.size() - 1
}
/// what growing a network by one bit gives, for the proof of the function
pub proof fn lemma_grow<A: IpAddress>(c: IpNetwork<A>, l: IpNetwork<A>)
    requires c.contig(), l.contig(), ones(l.m()) == ones(c.m()) - 1, l.member(c.base_addr)
    ensures l.hostbits() == c.hostbits() + 1,  l.size() == 2 * c.size(), l.first() <= c.first(), l.first() == c.first() <==> l.base_addr == c.base_addr, c.first() % pow2(c.hostbits() + 1) == 0 <==> l.first() == c.first()
{
    A::laws(); c.lemma_contig(); l.lemma_contig();
    if l.first() == c.first() { lemma_val_inj(l.b(), c.b()); }
    lemma_div_pow(c.first(), l.size());
    lemma_clear(c.b(), ones(l.m()));
}

/// the same for every network that may be the grown one, and what comes after the network
pub proof fn lemma_step<A: IpAddress>(c: IpNetwork<A>) requires c.contig()
    ensures
        forall|l: IpNetwork<A>| #[trigger] l.wf() && is_mask(l.m()) && ones(l.m()) == ones(c.m()) - 1 && l.member(c.base_addr) ==> grown(c, l),
        c.netnum() + 1 < pow2(ones(c.m())) <==> c.first() + c.size() < pow2(width::<A>()),
        c.netnum() + 1 < pow2(ones(c.m())) ==> val(c.addr_bits(c.netnum() + 1, 0)) == c.first() + c.size(),
        c.size() > 0, ones(c.m()) <= width::<A>(), ones(c.m()) + c.hostbits() == width::<A>(), c.first() + c.size() <= pow2(width::<A>())
{
    c.lemma_contig();
    assert forall|l: IpNetwork<A>| #[trigger] l.wf() && is_mask(l.m()) && ones(l.m()) == ones(c.m()) - 1 && l.member(c.base_addr) implies grown(c, l) by { lemma_grow(c, l); l.lemma_contig(); l.lemma_host_val(l.netnum(), (l.size() - 1) as nat); }
    if c.netnum() + 1 < pow2(ones(c.m())) { c.lemma_host_val(c.netnum() + 1, 0); }
    let (q, n) = (c.size(), c.netnum());
    assert((n + 1) * q == n * q + q) by (nonlinear_arith);
    lemma_fit(ones(c.m()), c.hostbits(), n + 1, 0);
}
pub proof fn lemma_chain_push<A: IpAddress>(s: Seq<IpNetwork<A>>, lo: nat, hi: nat, n: IpNetwork<A>) requires chain(s, lo, n.first()), n.contig(), largest_all(s, hi)
    ensures chain(s.push(n), lo, n.first() + n.size()), largest(n, hi) ==> largest_all(s.push(n), hi)
{
    assert(s.push(n).drop_last() =~= s);
}
/// a network whose mask is all ones holds one address
pub proof fn lemma_full<A: IpAddress>() ensures forall|n: IpNetwork<A>, a: A| n.m() == mask_bits(width::<A>(), width::<A>()) && #[trigger] n.member(a) ==> n.base_addr == a && n.size() == 1 {
    A::laws(); lemma_mask_eq(width::<A>(), width::<A>());
    assert forall|n: IpNetwork<A>, a: A| n.m() == mask_bits(width::<A>(), width::<A>()) && #[trigger] n.member(a) implies n.base_addr == a && n.size() == 1 by {
        assert(and_bits(a.bits(), n.m()) =~= a.bits()); assert(n.b() =~= a.bits()); assert(pow2(0) == 1);
    }
}
pub open spec fn ordered<A: IpAddress>() -> bool {
    &&& A::obeys_eq_spec() && A::obeys_partial_cmp_spec()
    &&& forall|a: A, b: A| #[trigger] a.eq_spec(&b) <==> a == b
    &&& forall|a: A, b: A| #[trigger] a.partial_cmp_spec(&b) == Some(cmp_nat(val(a.bits()), val(b.bits())))
    &&& 1 <= A::nbytes() <= 16
}

%fn cmds::derange::range_to_subnets(end_one, end_two)
    ensures
        chain(ret@, range_lo(end_one, end_two), range_hi(end_one, end_two) + 1),
        all_contig(ret@), ascending(ret@), covers(ret@, range_lo(end_one, end_two), range_hi(end_one, end_two) + 1),
        fewest(ret@, range_lo(end_one, end_two), range_hi(end_one, end_two) + 1)
%entry
    let ghost (glo, ghi) = (range_lo(end_one, end_two), range_hi(end_one, end_two));
    proof { A::laws(); lemma_val_bound(end_one.bits()); lemma_val_bound(end_two.bits()); lemma_full::<A>(); lemma_mask_eq(width::<A>(), width::<A>()); }
%loop 0
    invariant_except_break
        current_subnet.base_addr == first_addr,
        chain(ret@, glo, val(first_addr.bits())),
        val(first_addr.bits()) <= ghi ==> current_subnet.first() + current_subnet.size() <= ghi + 1,
        val(first_addr.bits()) <= ghi + 1,
    invariant
        ordered::<A>(),
        current_subnet.contig(), current_subnet.cidr_prefix == Some(ones(current_subnet.m()) as usize),
        val(last_addr.bits()) == ghi, ghi < pow2(width::<A>()),
        largest_all(ret@, ghi + 1),
    ensures
        chain(ret@, glo, ghi + 1),
    decreases ghi + 1 - val(first_addr.bits()), ones(current_subnet.m())
%body 0
    proof {
        lemma_step(current_subnet); lemma_full::<A>();
        lemma_chain_push(ret@, glo, ghi + 1, current_subnet);
        lemma_mask_eq(width::<A>(), width::<A>());
        assert(pow2(0) == 1);
        if ones(current_subnet.m()) > 0 { lemma_mask_eq((ones(current_subnet.m()) - 1) as nat, width::<A>()); }
    }
%tail
    proof { lemma_chain(ret@, glo, ghi + 1); lemma_fewest(ret@, glo, ghi + 1); }
