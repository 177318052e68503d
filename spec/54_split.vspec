%# splitting: smallest sufficient slices, one after the other
%module cmds::split
use crate::model::*;
use crate::net::*;
use crate::num_bigint;
use crate::cmds::derange::*;
use crate::std_contracts::*;
use vstd::std_specs::hash::*;
use vstd::std_specs::iter::*;
use vstd::std_specs::cmp::*;
use std::cmp::Ordering;
/// 2^h addresses hold c hosts, and half of them do not
pub open spec fn smallest(h: nat, c: int) -> bool { pow2(h) - 2 >= c && (h == 0 || pow2((h - 1) as nat) - 2 < c) }
/// number of addresses a request needs
pub open spec fn hof(c: int) -> nat { choose|h: nat| smallest(h, c) }
pub open spec fn need(c: int) -> nat { pow2(hof(c)) }
/// number of addresses all requests need together
pub open spec fn total(s: Seq<num_bigint::BigInt>) -> nat decreases s.len() { if s.len() == 0 { 0 } else { total(s.drop_last()) + need(s.last()@) } }
pub open spec fn fits<A: IpAddress>(n: IpNetwork<A>, s: Seq<num_bigint::BigInt>) -> bool { total(s) <= n.size() }
pub open spec fn inside<A: IpAddress>(s: IpNetwork<A>, n: IpNetwork<A>) -> bool { n.first() <= s.first() && s.first() + s.size() <= n.first() + n.size() }
pub open spec fn apart<A: IpAddress>(x: IpNetwork<A>, y: IpNetwork<A>) -> bool { x.first() + x.size() <= y.first() || y.first() + y.size() <= x.first() }
/// each request gets a smallest sufficient slice, and the slices are disjoint
#[verifier::opaque]
pub open spec fn slices<A: IpAddress>(v: Seq<IpNetwork<A>>, s: Seq<num_bigint::BigInt>) -> bool {
    &&& v.len() == s.len()
    &&& forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i]).contig() && smallest(v[i].hostbits(), s[i]@)
    &&& forall|i: int, j: int| #![trigger v[i], v[j]] 0 <= i < v.len() && 0 <= j < v.len() && i != j ==> apart(v[i], v[j])
}
pub open spec fn all_inside<A: IpAddress>(v: Seq<IpNetwork<A>>, n: IpNetwork<A>) -> bool { forall|i: int| 0 <= i < v.len() ==> inside(#[trigger] v[i], n) }
type Req = (usize, num_bigint::BigInt);
pub open spec fn totp(s: Seq<Req>) -> nat decreases s.len() { if s.len() == 0 { 0 } else { totp(s.drop_last()) + need(s.last().1@) } }
pub open spec fn by_count(a: Req, b: Req) -> Ordering { num_bigint::cmp_int(b.1@, a.1@) }

// ------------------------------------------------------------------ sizes
pub proof fn lemma_pow2_gt(n: nat) ensures pow2(n) > n decreases n { if n > 0 { lemma_pow2_gt((n - 1) as nat); } }
pub proof fn lemma_least(c: int, h: nat) requires pow2(h) - 2 >= c ensures exists|k: nat| smallest(k, c) decreases h {
    if h > 0 && pow2((h - 1) as nat) - 2 >= c { lemma_least(c, (h - 1) as nat); } else { assert(smallest(h, c)); }
}
pub proof fn lemma_hof(c: int) ensures smallest(hof(c), c), need(c) >= 1, forall|h: nat| #[trigger] smallest(h, c) ==> h == hof(c), forall|h: nat| #[trigger] pow2(h) - 2 < c ==> need(c) > pow2(h) {
    let h = if c < 0 { 0nat } else { (c + 2) as nat };
    lemma_pow2_gt(h); lemma_least(c, h);
    let k = hof(c);
    lemma_pow2_pos(k);
    assert forall|h: nat| #[trigger] smallest(h, c) implies h == k by { if h < k { lemma_pow2_mono(h, (k - 1) as nat); } if k < h { lemma_pow2_mono(k, (h - 1) as nat); } }
    assert forall|h: nat| #[trigger] pow2(h) - 2 < c implies need(c) > pow2(h) by { }
}
/// a smaller request gets no larger slice
pub proof fn lemma_mono(h: nat, c: int, k: nat, d: int) requires smallest(h, c), smallest(k, d), c <= d ensures h <= k { if k < h { lemma_pow2_mono(k, (h - 1) as nat); } }
pub proof fn lemma_tot_remove(s: Seq<Req>, i: int) requires 0 <= i < s.len() ensures totp(s) == need(s[i].1@) + totp(s.remove(i)) decreases s.len() {
    if i == s.len() - 1 { assert(s.remove(i) =~= s.drop_last()); }
    else { lemma_tot_remove(s.drop_last(), i); assert(s.remove(i).drop_last() =~= s.drop_last().remove(i)); assert(s.remove(i).last() == s.last()); }
}
pub proof fn lemma_tot_perm(s: Seq<Req>, t: Seq<Req>) requires s.to_multiset() == t.to_multiset() ensures totp(s) == totp(t) decreases s.len() {
    s.to_multiset_ensures(); t.to_multiset_ensures();
    if s.len() > 0 {
        let i = s.len() - 1; let x = s[i];
        assert(s.to_multiset().count(x) > 0); assert(t.contains(x));
        let j = choose|j: int| 0 <= j < t.len() && t[j] == x;
        assert(s.remove(i).to_multiset() =~= t.remove(j).to_multiset());
        lemma_tot_perm(s.remove(i), t.remove(j));
        lemma_tot_remove(s, i); lemma_tot_remove(t, j);
    }
}
pub proof fn lemma_tot_take(s: Seq<Req>, k: int) requires 0 <= k < s.len() ensures totp(s.take(k + 1)) == totp(s.take(k)) + need(s[k].1@), totp(s.take(k)) < totp(s), need(s[k].1@) <= totp(s) decreases s.len() {
    lemma_hof(s[k].1@);
    assert(s.take(k + 1).drop_last() =~= s.take(k));
    if k == s.len() - 1 { assert(s.take(k + 1) =~= s); }
    else { lemma_hof(s.last().1@); lemma_tot_take(s.drop_last(), k); assert(s.drop_last().take(k) =~= s.take(k)); }
}
/// the enumerated requests
pub open spec fn numbered(e: Seq<Req>, c: Seq<num_bigint::BigInt>) -> bool { e.len() == c.len() && forall|i: int| 0 <= i < e.len() ==> (#[trigger] e[i]).0 == i && e[i].1@ == c[i]@ }
pub proof fn lemma_tot_numbered(e: Seq<Req>, c: Seq<num_bigint::BigInt>) requires numbered(e, c) ensures totp(e) == total(c) decreases e.len() {
    if e.len() > 0 { assert(e[e.len() - 1].1@ == c[c.len() - 1]@); lemma_tot_numbered(e.drop_last(), c.drop_last()); }
}
/// some entry carries the index k
pub open spec fn occurs<T>(s: Seq<(usize, T)>, k: int) -> bool { exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == k }
/// the requests in order of placement: a permutation of the enumerated requests, largest first
#[verifier::opaque]
pub open spec fn order(s: Seq<Req>, c: Seq<num_bigint::BigInt>) -> bool {
    &&& s.len() == c.len() && totp(s) == total(c)
    &&& forall|i: int, j: int| #![trigger s[i], s[j]] 0 <= i < j < s.len() ==> s[i].1@ >= s[j].1@
    &&& forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).0 < c.len() && s[i].1@ == c[s[i].0 as int]@
    &&& forall|i: int, j: int| #![trigger s[i], s[j]] 0 <= i < s.len() && 0 <= j < s.len() && i != j ==> s[i].0 != s[j].0
    &&& forall|k: int| 0 <= k < c.len() ==> #[trigger] occurs(s, k)
}
pub proof fn lemma_order(e: Seq<Req>, s: Seq<Req>, c: Seq<num_bigint::BigInt>) requires numbered(e, c), e.to_multiset() == s.to_multiset(), sorted_by(s, |a: Req, b: Req| by_count(a, b)) ensures order(s, c) {
    reveal(order);
    lemma_tot_perm(e, s); lemma_tot_numbered(e, c);
    e.to_multiset_ensures(); s.to_multiset_ensures();
    let o = |a: Req, b: Req| by_count(a, b);
    assert forall|i: int, j: int| #![trigger s[i], s[j]] 0 <= i < j < s.len() implies s[i].1@ >= s[j].1@ by { assert(o(s[i], s[j]) != Ordering::Greater); }
    assert forall|i: int| 0 <= i < s.len() implies e.contains(#[trigger] s[i]) by { assert(s.contains(s[i])); assert(s.to_multiset().count(s[i]) > 0); assert(e.to_multiset().count(s[i]) > 0); }
    assert forall|i: int| 0 <= i < s.len() implies (#[trigger] s[i]).0 < c.len() && s[i].1@ == c[s[i].0 as int]@ && s[i] == e[s[i].0 as int] by { assert(e.contains(s[i])); let k = choose|k: int| 0 <= k < e.len() && e[k] == s[i]; assert(e[k].0 == k); }
    assert(e.no_duplicates()) by { assert forall|i: int, j: int| 0 <= i < e.len() && 0 <= j < e.len() && i != j implies e[i] != e[j] by { assert(e[i].0 == i && e[j].0 == j); } }
    e.lemma_multiset_has_no_duplicates(); s.lemma_multiset_has_no_duplicates_conv();
    assert forall|k: int| 0 <= k < c.len() implies #[trigger] occurs(s, k) by { assert(e[k].0 == k); assert(e.contains(e[k])); assert(e.to_multiset().count(e[k]) > 0); assert(s.to_multiset().count(e[k]) > 0); assert(s.contains(e[k])); let i = choose|i: int| 0 <= i < s.len() && s[i] == e[k]; assert(s[i].0 == k); }
    assert forall|i: int, j: int| #![trigger s[i], s[j]] 0 <= i < s.len() && 0 <= j < s.len() && i != j implies s[i].0 != s[j].0 by { if s[i].0 == s[j].0 { assert(s[i] == e[s[i].0 as int]); assert(s[j] == e[s[j].0 as int]); } }
}
pub proof fn lemma_by_count() ensures total_order(|a: Req, b: Req| by_count(a, b)) { }

// ------------------------------------------------------------------ placement
/// the first k requests are placed, filling lo..hi
#[verifier::opaque]
pub open spec fn placed<A: IpAddress>(n: IpNetwork<A>, s: Seq<Req>, p: Seq<IpNetwork<A>>, lo: nat, hi: nat) -> bool {
    &&& n.wf() && p.len() <= s.len() && chain(p, lo, hi) && hi == lo + totp(s.take(p.len() as int))
    &&& forall|j: int| 0 <= j < p.len() ==> smallest((#[trigger] p[j]).hostbits(), s[j].1@)
    &&& p.len() > 0 ==> hi % p.last().size() == 0 && lo <= n.first() < lo + p[0].size() && lo == p[0].first()
    &&& p.len() == 0 ==> lo == n.first()
}
pub proof fn lemma_place_init<A: IpAddress>(n: IpNetwork<A>, s: Seq<Req>) requires n.wf() ensures placed(n, s, Seq::<IpNetwork<A>>::empty(), n.first(), n.first()) { reveal(placed); assert(s.take(0) =~= Seq::empty()); }
/// if the requests fit, the first slice starts where the network starts
pub proof fn lemma_start<A: IpAddress>(n: IpNetwork<A>, s: Seq<Req>, p: Seq<IpNetwork<A>>, lo: nat, hi: nat, c: Seq<num_bigint::BigInt>)
    requires placed(n, s, p, lo, hi), order(s, c), n.contig(), fits(n, c) ensures lo == n.first()
{
    reveal(placed); reveal(order);
    if p.len() > 0 {
        n.lemma_contig(); lemma_chain(p, lo, hi); p[0].lemma_contig();
        lemma_tot_take(s, 0); lemma_hof(s[0].1@);
        let (a, b) = (p[0].hostbits(), n.hostbits());
        if a > b { lemma_pow2_mono(b + 1, a); assert(pow2(b + 1) == 2 * pow2(b)); }
        lemma_nested(p[0].first(), a, n.first(), b, n.first());
    }
}
/// the next slice
pub proof fn lemma_place<A: IpAddress>(n: IpNetwork<A>, s: Seq<Req>, p: Seq<IpNetwork<A>>, lo: nat, hi: nat, c: Seq<num_bigint::BigInt>, cur: IpNetwork<A>, nb: A)
    requires placed(n, s, p, lo, hi), order(s, c), p.len() < s.len(), val(nb.bits()) == hi, cur.contig(), cur.member(nb), smallest(cur.hostbits(), s[p.len() as int].1@)
    ensures placed(n, s, p.push(cur), if p.len() == 0 { cur.first() } else { lo }, cur.first() + cur.size()), p.len() > 0 ==> cur.first() == hi
{
    reveal(placed); reveal(order);
    let k = p.len() as int; let q = p.push(cur);
    cur.lemma_contig(); cur.lemma_range(nb);
    lemma_tot_take(s, k); lemma_hof(s[k].1@);
    assert(q.drop_last() =~= p); assert(q.last() == cur);
    lemma_div_pow(cur.first(), cur.size());
    vstd::arithmetic::div_mod::lemma_add_mod_noop(cur.first() as int, cur.size() as int, cur.size() as int);
    vstd::arithmetic::div_mod::lemma_mod_self_0(cur.size() as int);
    vstd::arithmetic::div_mod::lemma_small_mod(0, cur.size());
    assert((cur.first() + cur.size()) as nat % cur.size() == 0);
    if k > 0 {
        let l = p[k - 1];
        assert(l == p.last());
        lemma_mono(cur.hostbits(), s[k].1@, l.hostbits(), s[k - 1].1@);
        lemma_mult_down(hi, cur.hostbits(), l.hostbits());
        lemma_nested(hi, cur.hostbits(), cur.first(), cur.hostbits(), hi);
        assert(q[0] == p[0]);
    } else {
        assert(chain(Seq::<IpNetwork<A>>::empty(), cur.first(), cur.first()));
        assert(p =~= Seq::empty()); assert(s.take(0) =~= Seq::empty());
    }
    assert forall|j: int| 0 <= j < q.len() implies smallest((#[trigger] q[j]).hostbits(), s[j].1@) by { if j < k { assert(q[j] == p[j]); } }
}
/// there is no room left, or a request is larger than everything
pub proof fn lemma_full_up<A: IpAddress>(n: IpNetwork<A>, s: Seq<Req>, p: Seq<IpNetwork<A>>, lo: nat, hi: nat, c: Seq<num_bigint::BigInt>)
    requires placed(n, s, p, lo, hi), order(s, c), p.len() < s.len(), n.contig()
    ensures hi >= pow2(width::<A>()) ==> !fits(n, c), pow2(width::<A>()) - 2 < s[p.len() as int].1@ ==> !fits(n, c)
{
    n.lemma_contig();
    if fits(n, c) { lemma_start(n, s, p, lo, hi, c); }
    reveal(placed); reveal(order);
    lemma_tot_take(s, p.len() as int); lemma_hof(s[p.len() as int].1@);
    lemma_pow2_mono(n.hostbits(), width::<A>());
}
/// a network grown by one bit still contains what it contained
pub proof fn lemma_still<A: IpAddress>(c: IpNetwork<A>, nb: A) requires c.contig(), c.member(nb)
    ensures forall|l: IpNetwork<A>| #[trigger] l.wf() && is_mask(l.m()) && ones(l.m()) == ones(c.m()) - 1 && l.member(c.base_addr) ==> l.member(nb) && l.hostbits() == c.hostbits() + 1
{
    A::laws(); c.lemma_contig();
    assert forall|l: IpNetwork<A>| #[trigger] l.wf() && is_mask(l.m()) && ones(l.m()) == ones(c.m()) - 1 && l.member(c.base_addr) implies l.member(nb) && l.hostbits() == c.hostbits() + 1 by {
        l.lemma_contig();
        let (m, k) = (c.m(), l.m());
        assert(and_bits(nb.bits(), m) == c.b());
        assert(and_bits(nb.bits(), k) =~= and_bits(c.b(), k));
    }
}
// ------------------------------------------------------------------ back to the order of the requests
#[verifier::opaque]
pub open spec fn filed<A: IpAddress>(m: Map<usize, IpNetwork<A>>, s: Seq<Req>, p: Seq<IpNetwork<A>>) -> bool {
    &&& p.len() <= s.len()
    &&& forall|j: int| 0 <= j < p.len() ==> m.contains_key((#[trigger] s[j]).0) && m[s[j].0] == p[j]
    &&& forall|k: usize| #[trigger] m.contains_key(k) ==> exists|j: int| 0 <= j < p.len() && (#[trigger] s[j]).0 == k
}
pub proof fn lemma_file_init<A: IpAddress>(s: Seq<Req>) ensures filed(Map::<usize, IpNetwork<A>>::empty(), s, Seq::empty()) { reveal(filed); }
pub proof fn lemma_file<A: IpAddress>(m: Map<usize, IpNetwork<A>>, s: Seq<Req>, p: Seq<IpNetwork<A>>, n: IpNetwork<A>, c: Seq<num_bigint::BigInt>)
    requires filed(m, s, p), p.len() < s.len(), order(s, c) ensures filed(m.insert(s[p.len() as int].0, n), s, p.push(n))
{
    reveal(filed); reveal(order);
    let k = p.len() as int; let (i, q) = (s[k].0, p.push(n));
    assert forall|j: int| 0 <= j < q.len() implies m.insert(i, n).contains_key((#[trigger] s[j]).0) && m.insert(i, n)[s[j].0] == q[j] by { if j < k { assert(s[j].0 != s[k].0); } }
    assert forall|x: usize| #[trigger] m.insert(i, n).contains_key(x) implies exists|j: int| 0 <= j < q.len() && (#[trigger] s[j]).0 == x by { if x == i { assert(s[k].0 == x); } else { assert(m.contains_key(x)); } }
}
pub proof fn lemma_pairs<A: IpAddress>(r: Seq<(usize, IpNetwork<A>)>)
    ensures forall|rem: Seq<(&usize, &IpNetwork<A>)>| #![trigger rem.unref()] rem.len() == r.len() && (forall|i: int| 0 <= i < r.len() ==> #[trigger] r[i] == (*rem[i].0, *rem[i].1)) ==> r == rem.unref() && (rem.no_duplicates() ==> r.no_duplicates())
{
    assert forall|rem: Seq<(&usize, &IpNetwork<A>)>| #![trigger rem.unref()] rem.len() == r.len() && (forall|i: int| 0 <= i < r.len() ==> #[trigger] r[i] == (*rem[i].0, *rem[i].1)) implies r == rem.unref() && (rem.no_duplicates() ==> r.no_duplicates()) by {
        assert(r =~= rem.unref());
        if rem.no_duplicates() { assert forall|i: int, j: int| 0 <= i < r.len() && 0 <= j < r.len() && i != j implies r[i] != r[j] by { assert(rem[i] != rem[j]); } }
    }
}
pub open spec fn by_index<A: IpAddress>(t: Seq<(usize, IpNetwork<A>)>) -> bool { forall|i: int, j: int| #![trigger t[i], t[j]] 0 <= i < j < t.len() ==> t[i].0 <= t[j].0 }
pub proof fn lemma_by_index<A: IpAddress>(t: Seq<(usize, IpNetwork<A>)>)
    ensures forall|k: Seq<usize>| #[trigger] ascending_keys(k) && k.len() == t.len() && (forall|i: int| 0 <= i < t.len() ==> #[trigger] k[i] == t[i].0) ==> by_index(t)
{
    axiom_key_le::<usize>();
    assert forall|k: Seq<usize>| #[trigger] ascending_keys(k) && k.len() == t.len() && (forall|i: int| 0 <= i < t.len() ==> #[trigger] k[i] == t[i].0) implies by_index(t) by {
        assert forall|i: int, j: int| #![trigger t[i], t[j]] 0 <= i < j < t.len() implies t[i].0 <= t[j].0 by { assert(key_le(k[i], k[j])); }
    }
}
/// sorted distinct indexes 0..n are the identity
pub proof fn lemma_identity<A: IpAddress>(t: Seq<(usize, IpNetwork<A>)>, n: int, i: int)
    requires by_index(t), 0 <= i < n, i < t.len(), forall|a: int, b: int| #![trigger t[a], t[b]] 0 <= a < b < t.len() ==> t[a].0 != t[b].0, forall|k: int| 0 <= k < n ==> #[trigger] occurs(t, k)
    ensures t[i].0 == i
    decreases i
{
    if i > 0 { lemma_identity(t, n, i - 1); assert(t[i - 1].0 < t[i].0); }
    if t[i].0 > i {
        assert(occurs(t, i)); let a = choose|a: int| 0 <= a < t.len() && (#[trigger] t[a]).0 == i;
        if a < i { lemma_identity(t, n, a); } else if a > i { assert(t[i].0 < t[a].0); }
    }
}
/// the slices in order of the requests are the placed slices
#[verifier::opaque]
pub open spec fn refiled<A: IpAddress>(v: Seq<IpNetwork<A>>, s: Seq<Req>, p: Seq<IpNetwork<A>>) -> bool {
    &&& v.len() == s.len() && p.len() == s.len()
    &&& forall|j: int| 0 <= j < s.len() ==> (#[trigger] s[j]).0 < v.len() && v[s[j].0 as int] == p[j]
    &&& forall|k: int| 0 <= k < v.len() ==> #[trigger] occurs(s, k)
}
pub proof fn lemma_in_map<A: IpAddress>(m: Map<usize, IpNetwork<A>>, r: Seq<(usize, IpNetwork<A>)>, t: Seq<(usize, IpNetwork<A>)>)
    requires r.to_set() == m.kv_pairs(), r.no_duplicates(), r.to_multiset() == t.to_multiset()
    ensures t.no_duplicates(), forall|i: int| 0 <= i < t.len() ==> m.contains_key((#[trigger] t[i]).0) && m[t[i].0] == t[i].1, forall|k: usize| #[trigger] m.contains_key(k) ==> t.contains((k, m[k]))
{
    r.to_multiset_ensures(); t.to_multiset_ensures(); r.lemma_multiset_has_no_duplicates(); t.lemma_multiset_has_no_duplicates_conv();
    assert forall|i: int| 0 <= i < t.len() implies m.contains_key((#[trigger] t[i]).0) && m[t[i].0] == t[i].1 by { assert(t.contains(t[i])); assert(t.to_multiset().count(t[i]) > 0); assert(r.contains(t[i])); assert(r.to_set().contains(t[i])); }
    assert forall|k: usize| #[trigger] m.contains_key(k) implies t.contains((k, m[k])) by { let x = (k, m[k]); assert(m.kv_pairs().contains(x)); assert(r.to_set().contains(x)); assert(r.contains(x)); assert(r.to_multiset().count(x) > 0); }
}
/// every request has its slice among the pairs
pub proof fn lemma_refile_all<A: IpAddress>(s: Seq<Req>, p: Seq<IpNetwork<A>>, c: Seq<num_bigint::BigInt>, m: Map<usize, IpNetwork<A>>, t: Seq<(usize, IpNetwork<A>)>)
    requires order(s, c), p.len() == s.len(), filed(m, s, p), forall|k: usize| #[trigger] m.contains_key(k) ==> t.contains((k, m[k]))
    ensures forall|k: int| 0 <= k < c.len() ==> #[trigger] occurs(t, k)
{
    reveal(order); reveal(filed);
    assert forall|k: int| 0 <= k < c.len() implies #[trigger] occurs(t, k) by {
        assert(occurs(s, k)); let j = choose|j: int| 0 <= j < s.len() && (#[trigger] s[j]).0 == k;
        let x = (s[j].0, m[s[j].0]);
        assert(m.contains_key(s[j].0)); assert(t.contains(x));
        let a = choose|a: int| 0 <= a < t.len() && t[a] == x; assert(t[a].0 == k);
    }
}
/// no pair belongs to no request
pub proof fn lemma_refile_only<A: IpAddress>(s: Seq<Req>, p: Seq<IpNetwork<A>>, c: Seq<num_bigint::BigInt>, m: Map<usize, IpNetwork<A>>, k: usize)
    requires order(s, c), p.len() == s.len(), filed(m, s, p), m.contains_key(k) ensures k < c.len()
{
    reveal(order); reveal(filed);
    let j = choose|j: int| 0 <= j < p.len() && (#[trigger] s[j]).0 == k; assert(s[j].0 < c.len());
}
pub proof fn lemma_refile_len<A: IpAddress>(t: Seq<(usize, IpNetwork<A>)>, n: nat)
    requires by_index(t), forall|a: int, b: int| #![trigger t[a], t[b]] 0 <= a < b < t.len() ==> t[a].0 != t[b].0, forall|k: int| 0 <= k < n ==> #[trigger] occurs(t, k), forall|a: int| 0 <= a < t.len() ==> (#[trigger] t[a]).0 < n
    ensures t.len() == n, forall|i: int| 0 <= i < n ==> (#[trigger] t[i]).0 == i
{
    if t.len() > n { let x = n as int; if x > 0 { lemma_identity(t, x, x - 1); assert(t[x - 1].0 < t[x].0); } assert(t[x].0 < n); }
    if t.len() < n { let x = t.len() as int; assert(occurs(t, x)); let a = choose|a: int| 0 <= a < t.len() && (#[trigger] t[a]).0 == x; lemma_identity(t, n as int, a); }
    assert forall|i: int| 0 <= i < n implies (#[trigger] t[i]).0 == i by { lemma_identity(t, n as int, i); }
}
pub proof fn lemma_refile_put<A: IpAddress>(s: Seq<Req>, p: Seq<IpNetwork<A>>, c: Seq<num_bigint::BigInt>, m: Map<usize, IpNetwork<A>>, t: Seq<(usize, IpNetwork<A>)>, v: Seq<IpNetwork<A>>)
    requires order(s, c), p.len() == s.len(), filed(m, s, p), t.len() == c.len(), v.len() == t.len(), forall|i: int| 0 <= i < t.len() ==> #[trigger] v[i] == t[i].1 && t[i].0 == i && m[t[i].0] == t[i].1
    ensures refiled(v, s, p)
{
    reveal(order); reveal(filed); reveal(refiled);
    assert forall|j: int| 0 <= j < s.len() implies (#[trigger] s[j]).0 < v.len() && v[s[j].0 as int] == p[j] by { let k = s[j].0 as int; assert(m[s[j].0] == p[j]); assert(v[k] == t[k].1); }
}
pub proof fn lemma_refile<A: IpAddress>(s: Seq<Req>, p: Seq<IpNetwork<A>>, c: Seq<num_bigint::BigInt>, m: Map<usize, IpNetwork<A>>, r: Seq<(usize, IpNetwork<A>)>, t: Seq<(usize, IpNetwork<A>)>, v: Seq<IpNetwork<A>>)
    requires order(s, c), p.len() == s.len(), filed(m, s, p), r.to_set() == m.kv_pairs(), r.no_duplicates(), r.to_multiset() == t.to_multiset(), by_index(t), v.len() == t.len(), forall|i: int| 0 <= i < t.len() ==> #[trigger] v[i] == t[i].1
    ensures refiled(v, s, p)
{
    lemma_in_map(m, r, t);
    lemma_refile_all(s, p, c, m, t);
    assert forall|a: int, b: int| #![trigger t[a], t[b]] 0 <= a < b < t.len() implies t[a].0 != t[b].0 by { if t[a].0 == t[b].0 { assert(t[a] == t[b]); } }
    assert forall|a: int| 0 <= a < t.len() implies (#[trigger] t[a]).0 < c.len() by { lemma_refile_only(s, p, c, m, t[a].0); }
    lemma_refile_len(t, c.len());
    assert forall|i: int| 0 <= i < t.len() implies #[trigger] v[i] == t[i].1 && t[i].0 == i && m[t[i].0] == t[i].1 by { assert(t[i].0 == i); }
    lemma_refile_put(s, p, c, m, t, v);
}
pub proof fn lemma_slices<A: IpAddress>(n: IpNetwork<A>, s: Seq<Req>, p: Seq<IpNetwork<A>>, lo: nat, hi: nat, c: Seq<num_bigint::BigInt>, v: Seq<IpNetwork<A>>)
    requires placed(n, s, p, lo, hi), order(s, c), refiled(v, s, p)
    ensures slices(v, c)
{
    reveal(placed); reveal(order); reveal(refiled); reveal(slices);
    lemma_chain_order(p, lo, hi);
    assert forall|i: int| 0 <= i < v.len() implies (#[trigger] v[i]).contig() && smallest(v[i].hostbits(), c[i]@) by { assert(occurs(s, i)); let j = choose|j: int| 0 <= j < s.len() && (#[trigger] s[j]).0 == i; assert(p[j].contig()); assert(smallest(p[j].hostbits(), s[j].1@)); }
    assert forall|i: int, j: int| #![trigger v[i], v[j]] 0 <= i < v.len() && 0 <= j < v.len() && i != j implies apart(v[i], v[j]) by {
        assert(occurs(s, i)); assert(occurs(s, j));
        let a = choose|a: int| 0 <= a < s.len() && (#[trigger] s[a]).0 == i; let b = choose|b: int| 0 <= b < s.len() && (#[trigger] s[b]).0 == j;
        if a < b { assert(p[a].first() + p[a].size() <= p[b].first()); } else if b < a { assert(p[b].first() + p[b].size() <= p[a].first()); }
    }
}
pub proof fn lemma_whole<A: IpAddress>(n: IpNetwork<A>, s: Seq<Req>, p: Seq<IpNetwork<A>>, lo: nat, hi: nat, c: Seq<num_bigint::BigInt>, v: Seq<IpNetwork<A>>)
    requires placed(n, s, p, lo, hi), order(s, c), refiled(v, s, p), n.contig()
    ensures fits(n, c) <==> all_inside(v, n), fits(n, c) ==> covers(v, n.first(), n.first() + total(c))
{
    reveal(refiled);
    if fits(n, c) { lemma_start(n, s, p, lo, hi, c); }
    reveal(placed); reveal(order);
    lemma_chain(p, lo, hi);
    assert(s.take(s.len() as int) =~= s);
    if fits(n, c) {
        assert forall|i: int| 0 <= i < v.len() implies inside(#[trigger] v[i], n) by { assert(occurs(s, i)); let j = choose|j: int| 0 <= j < s.len() && (#[trigger] s[j]).0 == i; assert(v[i] == p[j]); assert(lo <= p[j].first() && p[j].first() + p[j].size() <= hi); }
        assert forall|a: A| #[trigger] in_some(v, a) <==> n.first() <= val(a.bits()) < n.first() + total(c) by {
            assert(in_some(p, a) <==> lo <= val(a.bits()) < hi);
            if in_some(v, a) { let i = choose|i: int| 0 <= i < v.len() && (#[trigger] v[i]).member(a); assert(occurs(s, i)); let j = choose|j: int| 0 <= j < s.len() && (#[trigger] s[j]).0 == i; assert(p[j].member(a)); }
            if in_some(p, a) { let j = choose|j: int| 0 <= j < p.len() && (#[trigger] p[j]).member(a); assert(v[s[j].0 as int].member(a)); }
        }
    } else if all_inside(v, n) && p.len() > 0 {
        let (x, y) = (s[0].0 as int, s[p.len() - 1].0 as int);
        assert(v[x] == p[0]); assert(v[y] == p[p.len() - 1]);
        assert(inside(v[x], n)); assert(inside(v[y], n));
        assert(p.last() == p[p.len() - 1]);
    }
}
pub proof fn lemma_split<A: IpAddress>(n: IpNetwork<A>, s: Seq<Req>, p: Seq<IpNetwork<A>>, lo: nat, hi: nat, c: Seq<num_bigint::BigInt>, m: Map<usize, IpNetwork<A>>, r: Seq<(usize, IpNetwork<A>)>, t: Seq<(usize, IpNetwork<A>)>, v: Seq<IpNetwork<A>>)
    requires placed(n, s, p, lo, hi), order(s, c), p.len() == s.len(), filed(m, s, p), r.to_set() == m.kv_pairs(), r.no_duplicates(), r.to_multiset() == t.to_multiset(), by_index(t), v.len() == t.len(), forall|i: int| 0 <= i < t.len() ==> #[trigger] v[i] == t[i].1
    ensures slices(v, c), n.contig() ==> (fits(n, c) <==> all_inside(v, n)), n.contig() && fits(n, c) ==> covers(v, n.first(), n.first() + total(c))
{
    lemma_refile(s, p, c, m, r, t, v);
    lemma_slices(n, s, p, lo, hi, c, v);
    if n.contig() { lemma_whole(n, s, p, lo, hi, c, v); }
}

%fn cmds::split::split_subnet(subnet, host_counts)
    requires subnet.wf()
    ensures
        ret is Some ==> slices(ret->0@, host_counts@),
        ret is Some && subnet.contig() ==> (fits(subnet, host_counts@) <==> all_inside(ret->0@, subnet)),
        ret is Some && subnet.contig() && fits(subnet, host_counts@) ==> covers(ret->0@, subnet.first(), subnet.first() + total(host_counts@)),
        ret is None && subnet.contig() ==> !fits(subnet, host_counts@)
%closure 0
    carg0: (usize, &num_bigint::BigInt) ||| (usize, num_bigint::BigInt) ||| ensures cret.0 == carg0.0, cret.1@ == carg0.1@
%closure 1
    $0: &(usize, num_bigint::BigInt), $1: &(usize, num_bigint::BigInt) ||| Ordering ||| ensures cret == by_count(*$0, *$1)
%closure 2
    $0: (&usize, &IpNetwork<A>) ||| (usize, IpNetwork<A>) ||| ensures cret == (*$0.0, *$0.1)
%closure 3
    $0: &(usize, IpNetwork<A>) ||| usize ||| ensures cret == $0.0
%closure 4
    $0: &(usize, IpNetwork<A>) ||| IpNetwork<A> ||| ensures cret == $0.1
%entry
    let ghost counts = host_counts@;
    proof { A::laws(); lemma_by_count(); }
%at indexes_and_host_counts . sort_unstable_by
    let ghost e = indexes_and_host_counts@;
%at let mut index_to_subnet
    let ghost s = indexes_and_host_counts@;
    proof { assert(numbered(e, counts)); lemma_order(e, s, counts); lemma_place_init(subnet, s); lemma_file_init::<A>(s); lemma_val_bound(subnet.base_addr.bits()); }
    let ghost mut p = Seq::<IpNetwork<A>>::empty();
    let ghost mut lo = subnet.first();
    let ghost mut hi = subnet.first();
%loop 0
    invariant
        counts == host_counts@, ordered::<A>(), subnet.wf(), order(s, counts), vit0.seq() == s, p.len() == vit0.index(),
        placed(subnet, s, p, lo, hi), filed(index_to_subnet@, s, p),
        next_base_addr is None ==> hi >= pow2(width::<A>()),
        next_base_addr is Some ==> val(next_base_addr->0.bits()) == hi
%body 0
    let ghost nb = next_base_addr->0;
    proof {
        if subnet.contig() { lemma_full_up(subnet, s, p, lo, hi, counts); }
        lemma_full::<A>(); lemma_mask_eq(width::<A>(), width::<A>()); assert(pow2(0) == 1);
    }
%loop 1
    invariant
        counts == host_counts@, ordered::<A>(), subnet.contig() && pow2(width::<A>()) - 2 < host_count@ ==> !fits(subnet, counts),
        current_net.contig(), current_net.cidr_prefix == Some(ones(current_net.m()) as usize), current_net.member(nb),
        current_net.hostbits() == 0 || pow2((current_net.hostbits() - 1) as nat) - 2 < host_count@
    decreases ones(current_net.m())
%body 1
    proof {
        lemma_step(current_net); lemma_still(current_net, nb);
        if ones(current_net.m()) > 0 { lemma_mask_eq((ones(current_net.m()) - 1) as nat, width::<A>()); }
    }
%after 1
    proof {
        lemma_place(subnet, s, p, lo, hi, counts, current_net, nb); lemma_file(index_to_subnet@, s, p, current_net, counts); lemma_step(current_net);
        if p.len() == 0 { lo = current_net.first(); }
        hi = current_net.first() + current_net.size();
        p = p.push(current_net);
    }
%at ordered_subnets . sort_unstable_by_key
    let ghost r = ordered_subnets@;
    proof { lemma_pairs(r); }
%at let ret
    let ghost t = ordered_subnets@;
    proof { lemma_by_index(t); }
%tail
    proof { lemma_split(subnet, s, p, lo, hi, counts, index_to_subnet@, r, t, ret@); }
