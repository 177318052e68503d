%# minimizing: the same addresses, nothing contained in something else, no halves left
%module cmds::minimize
broadcast use {crate::model::and_bits_commute, crate::model::xor_bits_commute};
use crate::model::*;
use crate::net::*;
use crate::num_bigint;
use crate::cmds::derange::*;
use crate::std_contracts::*;
use vstd::std_specs::hash::*;
use vstd::std_specs::iter::*;
use vstd::std_specs::cmp::*;
/// o lies in s, by network bits
pub open spec fn sup<A: IpAddress>(s: IpNetwork<A>, o: IpNetwork<A>) -> bool { and_bits(o.b(), s.m()) == s.b() && and_bits(o.m(), s.m()) == s.m() }
/// order by base address, then mask
pub open spec fn before<A: IpAddress>(x: IpNetwork<A>, y: IpNetwork<A>) -> bool { val(x.b()) < val(y.b()) || val(x.b()) == val(y.b()) && val(x.m()) <= val(y.m()) }
pub open spec fn sorted<A: IpAddress>(s: Seq<IpNetwork<A>>) -> bool { forall|i: int, j: int| #![trigger s[i], s[j]] 0 <= i < j < s.len() ==> before(s[i], s[j]) }
pub open spec fn all_wf<A: IpAddress>(s: Seq<IpNetwork<A>>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).wf() }
/// d is the last network bit
pub open spec fn last_bit(m: Seq<bool>, d: int) -> bool { 0 <= d < m.len() && m[d] && forall|k: int| d < k < m.len() ==> !#[trigger] m[k] }
pub open spec fn differ_at(a: Seq<bool>, b: Seq<bool>, d: int) -> bool { a[d] != b[d] && forall|k: int| 0 <= k < a.len() && k != d ==> #[trigger] a[k] == b[k] }
/// halves of a larger network: equal masks, differing only in the last network bit
pub open spec fn halves<A: IpAddress>(x: IpNetwork<A>, y: IpNetwork<A>) -> bool { x.m() == y.m() && exists|d: int| #[trigger] last_bit(x.m(), d) && differ_at(x.b(), y.b(), d) }
pub open spec fn minimal<A: IpAddress>(s: Seq<IpNetwork<A>>) -> bool {
    &&& all_wf(s)
    &&& forall|i: int, j: int| #![trigger s[i], s[j]] 0 <= i < s.len() && 0 <= j < s.len() && i != j ==> !sup(s[i], s[j]) && !halves(s[i], s[j]) && s[i] != s[j]
}
pub open spec fn cov<A: IpAddress>(f: Set<IpNetwork<A>>, a: A) -> bool { exists|n: IpNetwork<A>| #[trigger] f.contains(n) && n.member(a) }
/// well-formed, nothing contained in something else
pub open spec fn good<A: IpAddress>(f: Set<IpNetwork<A>>) -> bool {
    &&& forall|x: IpNetwork<A>| #[trigger] f.contains(x) ==> x.wf()
    &&& forall|x: IpNetwork<A>, y: IpNetwork<A>| #![trigger f.contains(x), f.contains(y)] f.contains(x) && f.contains(y) && x != y ==> !sup(x, y)
}
#[verifier::opaque]
pub open spec fn same<A: IpAddress>(f: Set<IpNetwork<A>>, s: Seq<IpNetwork<A>>) -> bool { forall|a: A| cov(f, a) <==> #[trigger] in_some(s, a) }
#[verifier::opaque]
pub open spec fn inv<A: IpAddress>(f: Set<IpNetwork<A>>, s: Seq<IpNetwork<A>>) -> bool { good(f) && same(f, s) }

// ------------------------------------------------------------------ containment
pub proof fn lemma_wf_eq<A: IpAddress>(x: IpNetwork<A>, y: IpNetwork<A>) requires x.wf(), y.wf(), x.b() == y.b(), x.m() == y.m() ensures x == y { A::laws(); }
pub proof fn lemma_and_le(a: Seq<bool>, b: Seq<bool>) requires a.len() == b.len() ensures val(and_bits(a, b)) <= val(a) decreases a.len() {
    if a.len() > 0 { lemma_and_le(a.drop_last(), b.drop_last()); assert(and_bits(a, b).drop_last() =~= and_bits(a.drop_last(), b.drop_last())); }
}
pub proof fn lemma_sup<A: IpAddress>(x: IpNetwork<A>, y: IpNetwork<A>) requires x.wf(), y.wf(), sup(x, y)
    ensures before(x, y), sup(y, x) ==> x == y, before(y, x) ==> x == y, forall|a: A| y.member(a) ==> x.member(a)
{
    x.lemma_base(); y.lemma_base();
    lemma_superset(x, y);
    lemma_and_le(y.b(), x.m());
    if val(x.b()) == val(y.b()) { lemma_val_inj(x.b(), y.b()); }
    lemma_and_le(y.m(), x.m());
    if before(y, x) { lemma_val_inj(x.b(), y.b()); lemma_val_inj(x.m(), y.m()); lemma_wf_eq(x, y); }
    if sup(y, x) {
        lemma_and_le(x.b(), y.m()); lemma_and_le(x.m(), y.m()); lemma_val_inj(x.b(), y.b()); lemma_val_inj(x.m(), y.m()); lemma_wf_eq(x, y);
    }
}
pub proof fn lemma_sup_refl<A: IpAddress>(x: IpNetwork<A>) requires x.wf() ensures sup(x, x) { x.lemma_base(); assert(and_bits(x.m(), x.m()) =~= x.m()); }
pub proof fn lemma_sup_trans<A: IpAddress>(x: IpNetwork<A>, y: IpNetwork<A>, z: IpNetwork<A>) requires x.wf(), y.wf(), z.wf(), sup(x, y), sup(y, z) ensures sup(x, z) {
    lemma_superset(x, y); lemma_superset(y, z); lemma_superset(x, z);
}
// ------------------------------------------------------------------ sorting
pub proof fn lemma_sorted<A: IpAddress>(s: Seq<IpNetwork<A>>)
    ensures forall|k: Seq<(A, A)>| #[trigger] ascending_keys(k) && k.len() == s.len() && (forall|i: int| 0 <= i < s.len() ==> #[trigger] k[i] == (s[i].base_addr, s[i].subnet_mask)) ==> sorted(s)
{
    A::laws();
    assert forall|k: Seq<(A, A)>| #[trigger] ascending_keys(k) && k.len() == s.len() && (forall|i: int| 0 <= i < s.len() ==> #[trigger] k[i] == (s[i].base_addr, s[i].subnet_mask)) implies sorted(s) by {
        assert forall|i: int, j: int| #![trigger s[i], s[j]] 0 <= i < j < s.len() implies before(s[i], s[j]) by { assert(key_le(k[i], k[j])); axiom_key_le_pair(k[i], k[j]); }
    }
}
pub proof fn lemma_perm<A: IpAddress>(s: Seq<IpNetwork<A>>, t: Seq<IpNetwork<A>>) requires s.to_multiset() == t.to_multiset()
    ensures s.len() == t.len(), forall|n: IpNetwork<A>| #[trigger] s.contains(n) <==> t.contains(n), s.no_duplicates() ==> t.no_duplicates(), s.to_set() == t.to_set(), all_wf(s) ==> all_wf(t), forall|a: A| in_some(s, a) <==> #[trigger] in_some(t, a)
{
    s.to_multiset_ensures(); t.to_multiset_ensures();
    if s.no_duplicates() { s.lemma_multiset_has_no_duplicates(); t.lemma_multiset_has_no_duplicates_conv(); }
    assert forall|n: IpNetwork<A>| #[trigger] s.contains(n) <==> t.contains(n) by { assert(s.to_multiset().count(n) > 0 <==> s.contains(n)); assert(t.to_multiset().count(n) > 0 <==> t.contains(n)); }
    assert(s.to_set() =~= t.to_set());
    if all_wf(s) { assert forall|i: int| 0 <= i < t.len() implies (#[trigger] t[i]).wf() by { assert(t.contains(t[i])); assert(s.contains(t[i])); let j = choose|j: int| 0 <= j < s.len() && s[j] == t[i]; assert(s[j].wf()); } }
    assert forall|a: A| in_some(s, a) <==> #[trigger] in_some(t, a) by {
        if in_some(s, a) { let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).member(a); assert(s.contains(s[i])); assert(t.contains(s[i])); let j = choose|j: int| 0 <= j < t.len() && t[j] == s[i]; assert(t[j].member(a)); }
        if in_some(t, a) { let i = choose|i: int| 0 <= i < t.len() && (#[trigger] t[i]).member(a); assert(t.contains(t[i])); assert(s.contains(t[i])); let j = choose|j: int| 0 <= j < s.len() && s[j] == t[i]; assert(s[j].member(a)); }
    }
}
/// copying out of a set
pub proof fn lemma_copied<A: IpAddress>(r: Seq<IpNetwork<A>>)
    ensures forall|rem: Seq<&IpNetwork<A>>| #![trigger rem.unref()] rem.len() == r.len() && (forall|i: int| 0 <= i < r.len() ==> #[trigger] r[i] == *rem[i]) ==> r == rem.unref() && (rem.no_duplicates() ==> r.no_duplicates())
{
    assert forall|rem: Seq<&IpNetwork<A>>| #![trigger rem.unref()] rem.len() == r.len() && (forall|i: int| 0 <= i < r.len() ==> #[trigger] r[i] == *rem[i]) implies r == rem.unref() && (rem.no_duplicates() ==> r.no_duplicates()) by {
        assert(r =~= rem.unref());
        if rem.no_duplicates() { assert forall|i: int, j: int| 0 <= i < r.len() && 0 <= j < r.len() && i != j implies r[i] != r[j] by { assert(rem[i] != rem[j]); } }
    }
}
// ------------------------------------------------------------------ dropping what is contained in something else
/// pair (a, b) comes before (i, j)
pub open spec fn done(a: int, b: int, i: int, j: int) -> bool { a < i || a == i && b < j }
#[verifier::opaque]
pub open spec fn filtering<A: IpAddress>(f: Set<IpNetwork<A>>, s: Seq<IpNetwork<A>>, i: int, j: int) -> bool {
    &&& all_wf(s) && sorted(s)
    &&& forall|x: IpNetwork<A>| #[trigger] f.contains(x) ==> s.contains(x)
    &&& forall|k: int| 0 <= k < s.len() ==> has_sup(f, #[trigger] s[k])
    &&& forall|a: int, b: int| 0 <= a < b < s.len() && #[trigger] done(a, b, i, j) ==> dropped(f, s, a, b)
}
pub open spec fn dropped<A: IpAddress>(f: Set<IpNetwork<A>>, s: Seq<IpNetwork<A>>, a: int, b: int) -> bool { sup(s[a], s[b]) && s[a] != s[b] ==> !f.contains(s[b]) }
pub open spec fn has_sup<A: IpAddress>(f: Set<IpNetwork<A>>, n: IpNetwork<A>) -> bool { exists|y: IpNetwork<A>| #[trigger] f.contains(y) && sup(y, n) }
pub proof fn lemma_filter_init<A: IpAddress>(f: Set<IpNetwork<A>>, s: Seq<IpNetwork<A>>) requires all_wf(s), sorted(s), forall|n: IpNetwork<A>| #[trigger] f.contains(n) <==> s.contains(n) ensures filtering(f, s, 0, 0) {
    reveal(filtering);
    assert forall|k: int| 0 <= k < s.len() implies has_sup(f, #[trigger] s[k]) by { lemma_sup_refl(s[k]); assert(f.contains(s[k])); }
}
pub proof fn lemma_filter_row<A: IpAddress>(f: Set<IpNetwork<A>>, s: Seq<IpNetwork<A>>, i: int)
    ensures 0 <= i && filtering(f, s, i, s.len() as int) ==> filtering(f, s, i + 1, 0), filtering(f, s, i, 0) ==> filtering(f, s, i, i + 1)
{ hide(IpNetwork::wf); hide(sup); hide(before); hide(has_sup); hide(dropped); reveal(filtering);
    if 0 <= i && filtering(f, s, i, s.len() as int) { assert forall|a: int, b: int| 0 <= a < b < s.len() && #[trigger] done(a, b, i + 1, 0) implies dropped(f, s, a, b) by { assert(done(a, b, i, s.len() as int)); } }
    if filtering(f, s, i, 0) { assert forall|a: int, b: int| 0 <= a < b < s.len() && #[trigger] done(a, b, i, i + 1) implies dropped(f, s, a, b) by { assert(done(a, b, i, 0)); } }
}
/// dropping z keeps something above n
pub proof fn lemma_still_sup<A: IpAddress>(f: Set<IpNetwork<A>>, x: IpNetwork<A>, z: IpNetwork<A>, n: IpNetwork<A>)
    requires has_sup(f, n), has_sup(f, x), sup(x, z), x != z, x.wf(), z.wf(), n.wf(), forall|y: IpNetwork<A>| #[trigger] f.contains(y) ==> y.wf()
    ensures has_sup(f.remove(z), n)
{
    hide(IpNetwork::wf); hide(sup); hide(before);
    let y = choose|y: IpNetwork<A>| #[trigger] f.contains(y) && sup(y, n);
    if y == z {
        let w = choose|w: IpNetwork<A>| #[trigger] f.contains(w) && sup(w, x);
        if w == z { lemma_sup(x, z); }
        lemma_sup_trans(w, x, z); lemma_sup_trans(w, z, n);
        assert(f.remove(z).contains(w));
    } else { assert(f.remove(z).contains(y)); }
}
pub proof fn lemma_filter_step<A: IpAddress>(f: Set<IpNetwork<A>>, s: Seq<IpNetwork<A>>, i: int, j: int) requires 0 <= i < j < s.len(), filtering(f, s, i, j)
    ensures s[i].wf(), s[j].wf(),
        !sup(s[i], s[j]) || s[i] == s[j] ==> filtering(f, s, i, j + 1),
        sup(s[i], s[j]) && s[i] != s[j] ==> filtering(f.remove(s[j]), s, i, j + 1),
{
    hide(IpNetwork::wf); hide(sup); hide(sorted); hide(has_sup);
    reveal(filtering);
    let g = if sup(s[i], s[j]) && s[i] != s[j] { f.remove(s[j]) } else { f };
    assert forall|a: int, b: int| 0 <= a < b < s.len() && #[trigger] done(a, b, i, j + 1) implies dropped(g, s, a, b) by { if a == i && b == j { } else { assert(done(a, b, i, j)); } }
    if sup(s[i], s[j]) && s[i] != s[j] {
        assert forall|y: IpNetwork<A>| #[trigger] f.contains(y) implies y.wf() by { assert(s.contains(y)); let c = choose|c: int| 0 <= c < s.len() && s[c] == y; assert(s[c].wf()); }
        assert forall|k: int| 0 <= k < s.len() implies has_sup(g, #[trigger] s[k]) by { lemma_still_sup(f, s[i], s[j], s[k]); }
    }
}
pub proof fn lemma_filtered<A: IpAddress>(f: Set<IpNetwork<A>>, s: Seq<IpNetwork<A>>, i: int) requires filtering(f, s, i, 0), i >= s.len() ensures inv(f, s) {
    reveal(filtering); reveal(inv); reveal(same);
    assert forall|x: IpNetwork<A>| #[trigger] f.contains(x) implies x.wf() by { assert(s.contains(x)); let c = choose|c: int| 0 <= c < s.len() && s[c] == x; assert(s[c].wf()); }
    assert forall|x: IpNetwork<A>, y: IpNetwork<A>| #![trigger f.contains(x), f.contains(y)] f.contains(x) && f.contains(y) && x != y implies !sup(x, y) by {
        if sup(x, y) {
            assert(s.contains(x) && s.contains(y));
            let a = choose|c: int| 0 <= c < s.len() && s[c] == x; let b = choose|c: int| 0 <= c < s.len() && s[c] == y;
            lemma_sup(x, y);
            if b < a { assert(before(s[b], s[a])); }
            assert(done(a, b, i, 0)); assert(dropped(f, s, a, b));
        }
    }
    assert forall|a: A| cov(f, a) <==> #[trigger] in_some(s, a) by {
        if cov(f, a) { let n = choose|n: IpNetwork<A>| #[trigger] f.contains(n) && n.member(a); assert(s.contains(n)); let c = choose|c: int| 0 <= c < s.len() && s[c] == n; assert(s[c].member(a)); }
        if in_some(s, a) { let c = choose|c: int| 0 <= c < s.len() && (#[trigger] s[c]).member(a); let y = choose|y: IpNetwork<A>| #[trigger] f.contains(y) && sup(y, s[c]); assert(y.wf()); lemma_sup(y, s[c]); assert(f.contains(y) && y.member(a)); }
    }
}
// ------------------------------------------------------------------ merging
pub proof fn lemma_one_bit(s: Seq<bool>, d: int) requires ones(s) <= 1, 0 <= d < s.len(), s[d] ensures forall|k: int| 0 <= k < s.len() && k != d ==> !#[trigger] s[k] decreases s.len() {
    if s.len() > 0 {
        let n = s.len() - 1;
        if d < n { lemma_one_bit(s.drop_last(), d); lemma_has_one(s.drop_last(), d); assert forall|k: int| 0 <= k < s.len() && k != d implies !#[trigger] s[k] by { if k < n { assert(!s.drop_last()[k]); } } }
        else { assert forall|k: int| 0 <= k < s.len() && k != d implies !#[trigger] s[k] by { if s[k] { lemma_has_one(s.drop_last(), k); } } }
    }
}
pub proof fn lemma_has_one(s: Seq<bool>, d: int) requires 0 <= d < s.len(), s[d] ensures ones(s) >= 1 decreases s.len() { if d < s.len() - 1 { lemma_has_one(s.drop_last(), d); } }
pub proof fn lemma_only_one(s: Seq<bool>, d: int) requires 0 <= d < s.len(), s[d], forall|k: int| 0 <= k < s.len() && k != d ==> !#[trigger] s[k] ensures ones(s) == 1 decreases s.len() {
    let n = s.len() - 1;
    if d < n { lemma_only_one(s.drop_last(), d); } else { lemma_no_ones(s.drop_last()); }
}
pub proof fn lemma_no_ones(s: Seq<bool>) requires forall|k: int| 0 <= k < s.len() ==> !#[trigger] s[k] ensures ones(s) == 0 decreases s.len() { if s.len() > 0 { lemma_no_ones(s.drop_last()); assert(!s[s.len() - 1]); } }
/// n is x with the differing bit cleared from base address and mask
pub open spec fn joined<A: IpAddress>(x: IpNetwork<A>, y: IpNetwork<A>, n: IpNetwork<A>) -> bool {
    &&& x.wf() && y.wf() && n.wf() && x != y && x.m() == y.m() && ones(xor_bits(x.b(), y.b())) <= 1
    &&& n.m() == and_bits(x.m(), not_bits(xor_bits(x.b(), y.b()))) && n.b() == and_bits(x.b(), n.m())
}
/// a network is determined by its base and mask, and two of one mask that differ in one bit join to one network
pub proof fn lemma_join<A: IpAddress>(x: IpNetwork<A>, y: IpNetwork<A>, n: IpNetwork<A>) requires joined(x, y, n)
    ensures sup(n, x), sup(n, y), forall|a: A| #[trigger] n.member(a) <==> x.member(a) || y.member(a)
{
    A::laws(); x.lemma_base(); y.lemma_base(); n.lemma_base();
    let e = xor_bits(x.b(), y.b());
    if x.b() == y.b() { lemma_wf_eq(x, y); }
    let d = choose|d: int| 0 <= d < x.b().len() && x.b()[d] != y.b()[d];
    if !(exists|d: int| 0 <= d < x.b().len() && x.b()[d] != y.b()[d]) { assert(x.b() =~= y.b()); }
    assert(e[d]);
    lemma_one_bit(e, d);
    lemma_index_and(x.b(), x.m(), x.b()); lemma_index_and(y.b(), y.m(), y.b()); lemma_index_and(x.m(), not_bits(e), n.m()); lemma_index_and(x.b(), n.m(), n.b());
    lemma_index_and(x.m(), n.m(), n.m()); lemma_index_and(y.b(), n.m(), n.b());
    assert forall|k: int| 0 <= k < e.len() implies #[trigger] n.m()[k] == (x.m()[k] && k != d) by { assert(not_bits(e)[k] == !e[k]); if k != d { assert(!e[k]); } }
    assert forall|k: int| 0 <= k < e.len() && k != d implies #[trigger] x.b()[k] == y.b()[k] by { assert(!e[k]); }
    assert(x.m()[d]) by { assert(x.b()[d] == (x.b()[d] && x.m()[d])); assert(y.b()[d] == (y.b()[d] && x.m()[d])); }
    assert forall|k: int| 0 <= k < e.len() implies #[trigger] n.b()[k] == (y.b()[k] && n.m()[k]) by {}
    assert forall|a: A| #[trigger] n.member(a) <==> x.member(a) || y.member(a) by {
        let s = a.bits();
        lemma_index_and(s, n.m(), n.b()); lemma_index_and(s, x.m(), x.b()); lemma_index_and(s, y.m(), y.b());
        if n.member(a) {
            if s[d] == x.b()[d] { assert forall|k: int| 0 <= k < s.len() implies #[trigger] x.b()[k] == (s[k] && x.m()[k]) by { assert(n.b()[k] == (s[k] && n.m()[k])); } }
            else { assert forall|k: int| 0 <= k < s.len() implies #[trigger] y.b()[k] == (s[k] && y.m()[k]) by { assert(n.b()[k] == (s[k] && n.m()[k])); assert(k == d || x.b()[k] == y.b()[k]); assert(x.b()[k] == (x.b()[k] && x.m()[k])); } }
        }
        if x.member(a) { assert forall|k: int| 0 <= k < s.len() implies #[trigger] n.b()[k] == (s[k] && n.m()[k]) by { assert(x.b()[k] == (s[k] && x.m()[k])); } }
        if y.member(a) { assert forall|k: int| 0 <= k < s.len() implies #[trigger] n.b()[k] == (s[k] && n.m()[k]) by { assert(y.b()[k] == (s[k] && y.m()[k])); } }
    }
}
pub proof fn lemma_merge<A: IpAddress>(f: Set<IpNetwork<A>>, s: Seq<IpNetwork<A>>, x: IpNetwork<A>, y: IpNetwork<A>, n: IpNetwork<A>, g: Set<IpNetwork<A>>)
    requires inv(f, s), f.contains(x), f.contains(y), joined(x, y, n), forall|z: IpNetwork<A>| #[trigger] g.contains(z) <==> z == n || f.contains(z) && z != x && z != y && !sup(n, z)
    ensures inv(g, s), g.len() < f.len()
{
    hide(IpNetwork::wf); hide(sup);
    reveal(inv); reveal(same);
    lemma_join(x, y, n);
    assert(g.subset_of(f.remove(x).remove(y).insert(n)));
    vstd::set_lib::lemma_len_subset(g, f.remove(x).remove(y).insert(n));
    assert forall|p: IpNetwork<A>, q: IpNetwork<A>| #![trigger g.contains(p), g.contains(q)] g.contains(p) && g.contains(q) && p != q implies !sup(p, q) by {
        if sup(p, q) {
            if q == n { assert(f.contains(p)); lemma_sup_trans(p, n, x); assert(f.contains(x)); }
            else if p == n { assert(!sup(n, q)); }
            else { assert(f.contains(p) && f.contains(q)); }
        }
    }
    assert forall|a: A| cov(g, a) <==> #[trigger] in_some(s, a) by {
        if cov(g, a) {
            let z = choose|z: IpNetwork<A>| #[trigger] g.contains(z) && z.member(a);
            if z == n { if x.member(a) { assert(f.contains(x)); } else { assert(f.contains(y)); } } else { assert(f.contains(z)); }
            assert(cov(f, a));
        }
        if cov(f, a) {
            let z = choose|z: IpNetwork<A>| #[trigger] f.contains(z) && z.member(a);
            if z == x || z == y { assert(g.contains(n)); } else if sup(n, z) { lemma_sup(n, z); assert(g.contains(n)); } else { assert(g.contains(z)); }
        }
    }
}
// ------------------------------------------------------------------ nothing left to merge
pub open spec fn no_halves<A: IpAddress>(s: Seq<IpNetwork<A>>, i: int, j: int) -> bool { forall|a: int, b: int| #![trigger s[a], s[b]] 0 <= a < b < s.len() && done(a, b, i, j) ==> !halves(s[a], s[b]) }
#[verifier::opaque]
pub open spec fn unmerged<A: IpAddress>(s: Seq<IpNetwork<A>>, i: int, j: int) -> bool { no_halves(s, i, j) }
pub open spec fn no_halves_in<A: IpAddress>(f: Set<IpNetwork<A>>) -> bool { forall|x: IpNetwork<A>, y: IpNetwork<A>| #![trigger f.contains(x), f.contains(y)] f.contains(x) && f.contains(y) ==> !halves(x, y) }
#[verifier::opaque]
pub open spec fn final_in<A: IpAddress>(f: Set<IpNetwork<A>>) -> bool { no_halves_in(f) }
/// the listed networks of a set, in order
#[verifier::opaque]
pub open spec fn listed<A: IpAddress>(s: Seq<IpNetwork<A>>, f: Set<IpNetwork<A>>) -> bool { s.no_duplicates() && s.to_set() == f && sorted(s) && all_wf(s) }
pub proof fn lemma_listed<A: IpAddress>(r: Seq<IpNetwork<A>>, t: Seq<IpNetwork<A>>, f: Set<IpNetwork<A>>, s: Seq<IpNetwork<A>>)
    requires r.no_duplicates(), r.to_set() == f, r.to_multiset() == t.to_multiset(), sorted(t), inv(f, s)
    ensures listed(t, f)
{
    reveal(inv); reveal(listed);
    lemma_perm(r, t);
    assert forall|i: int| 0 <= i < t.len() implies (#[trigger] t[i]).wf() by { assert(t.to_set().contains(t[i])); }
}
pub proof fn lemma_row<A: IpAddress>(s: Seq<IpNetwork<A>>, i: int) ensures unmerged(s, 0, 0), i >= 0 && unmerged(s, i, s.len() as int) ==> unmerged(s, i + 1, 0), unmerged(s, i, 0) ==> unmerged(s, i, i + 1) { reveal(unmerged); }
pub proof fn lemma_unmerged<A: IpAddress>(s: Seq<IpNetwork<A>>, f: Set<IpNetwork<A>>) requires listed(s, f), unmerged(s, s.len() as int, 0) ensures final_in(f) {
    reveal(unmerged); reveal(listed); reveal(final_in);
    assert forall|x: IpNetwork<A>, y: IpNetwork<A>| #![trigger f.contains(x), f.contains(y)] f.contains(x) && f.contains(y) implies !halves(x, y) by {
        assert(s.contains(x) && s.contains(y));
        let a = choose|c: int| 0 <= c < s.len() && s[c] == x; let b = choose|c: int| 0 <= c < s.len() && s[c] == y;
        if halves(x, y) { lemma_halves_sym(x, y); if a < b { assert(done(a, b, s.len() as int, 0)); assert(!halves(s[a], s[b])); } else if b < a { assert(done(b, a, s.len() as int, 0)); assert(!halves(s[b], s[a])); } }
    }
}
pub proof fn lemma_halves_sym<A: IpAddress>(x: IpNetwork<A>, y: IpNetwork<A>) requires halves(x, y) ensures halves(y, x), x != y {
    A::laws();
    let d = choose|d: int| #[trigger] last_bit(x.m(), d) && differ_at(x.b(), y.b(), d);
    assert(last_bit(y.m(), d) && differ_at(y.b(), x.b(), d));
}
pub proof fn lemma_sel_halves(a: Seq<bool>, b: Seq<bool>, m: Seq<bool>, d: int) requires a.len() == m.len(), b.len() == m.len(), last_bit(m, d), differ_at(a, b, d)
    ensures sel(a, m, true).len() == sel(b, m, true).len(), sel(a, m, true).len() > 0, sel(a, m, true).drop_last() == sel(b, m, true).drop_last(), sel(a, m, true).last() == a[d], sel(b, m, true).last() == b[d]
    decreases m.len()
{
    let (ad, bd, md) = (a.drop_last(), b.drop_last(), m.drop_last());
    if d < m.len() - 1 {
        assert(!m[m.len() - 1]);
        assert(last_bit(md, d)) by { assert forall|k: int| d < k < md.len() implies !#[trigger] md[k] by { assert(!m[k]); } }
        assert(differ_at(ad, bd, d)) by { assert forall|k: int| 0 <= k < ad.len() && k != d implies #[trigger] ad[k] == bd[k] by { assert(a[k] == b[k]); } }
        lemma_sel_halves(ad, bd, md, d);
    } else {
        assert(ad =~= bd) by { assert forall|k: int| 0 <= k < ad.len() implies #[trigger] ad[k] == bd[k] by { assert(a[k] == b[k]); } }
        assert(sel(a, m, true) == sel(ad, md, true).push(a.last()));
        assert(sel(b, m, true) == sel(bd, md, true).push(b.last()));
        assert(sel(a, m, true).drop_last() =~= sel(ad, md, true)); assert(sel(b, m, true).drop_last() =~= sel(bd, md, true));
    }
}
/// halves follow each other and differ in one bit
pub proof fn lemma_halves<A: IpAddress>(x: IpNetwork<A>, y: IpNetwork<A>) requires x.wf(), y.wf(), halves(x, y), before(x, y)
    ensures x.subnet_mask == y.subnet_mask, y.b() == x.addr_bits(x.netnum() + 1, 0), ones(xor_bits(x.b(), y.b())) == 1
{
    A::laws(); x.lemma_base(); y.lemma_base(); lemma_halves_sym(x, y);
    let d = choose|d: int| #[trigger] last_bit(x.m(), d) && differ_at(x.b(), y.b(), d);
    let e = xor_bits(x.b(), y.b());
    assert(e[d]);
    assert forall|k: int| 0 <= k < e.len() && k != d implies !#[trigger] e[k] by { assert(x.b()[k] == y.b()[k]); }
    lemma_only_one(e, d);
    lemma_sel_halves(x.b(), y.b(), x.m(), d);
    lemma_first_diff(x.b(), y.b(), d);
    let (p, q) = (sel(x.b(), x.m(), true), sel(y.b(), x.m(), true));
    assert(val(p) == 2 * val(p.drop_last()) + b2n(p.last())); assert(val(q) == 2 * val(q.drop_last()) + b2n(q.last()));
    assert(y.netnum() == val(q) && x.netnum() == val(p));
    assert(val(x.b()) < val(y.b())) by { if val(x.b()) == val(y.b()) { lemma_val_inj(x.b(), y.b()); } }
    assert(y.b()[d] && !x.b()[d]);
    assert(y.netnum() == x.netnum() + 1);
    assert(y.addr_bits(y.netnum(), 0) == x.addr_bits(x.netnum() + 1, 0));
}
/// of two sequences that differ in one place, the one with the one bit is larger
pub proof fn lemma_first_diff(a: Seq<bool>, b: Seq<bool>, d: int) requires a.len() == b.len(), 0 <= d < a.len(), differ_at(a, b, d) ensures val(a) < val(b) <==> b[d] decreases a.len() {
    let (ad, bd) = (a.drop_last(), b.drop_last());
    if d < a.len() - 1 {
        assert(a[a.len() - 1] == b[a.len() - 1]);
        assert(differ_at(ad, bd, d)) by { assert forall|k: int| 0 <= k < ad.len() && k != d implies #[trigger] ad[k] == bd[k] by { assert(a[k] == b[k]); } }
        lemma_first_diff(ad, bd, d);
    } else { assert(ad =~= bd) by { assert forall|k: int| 0 <= k < ad.len() implies #[trigger] ad[k] == bd[k] by { assert(a[k] == b[k]); } } }
}
/// what looking at one pair finds out
pub proof fn lemma_look<A: IpAddress>(s: Seq<IpNetwork<A>>, f: Set<IpNetwork<A>>, i: int, j: int) requires 0 <= i < j < s.len(), listed(s, f), unmerged(s, i, j)
    ensures
        forall|x: IpNetwork<A>| #[trigger] f.contains(x) ==> x.wf(),
        s[i].wf(), s[j].wf(), s[i] != s[j], f.contains(s[i]), f.contains(s[j]),
        s[i].subnet_mask != s[j].subnet_mask ==> unmerged(s, i, j + 1),
        s[j].b() != s[i].addr_bits(s[i].netnum() + 1, 0) ==> unmerged(s, i, j + 1),
        ones(xor_bits(s[i].b(), s[j].b())) > 1 ==> unmerged(s, i, j + 1),
        forall|n: IpNetwork<A>| s[i].subnet_mask == s[j].subnet_mask && ones(xor_bits(s[i].b(), s[j].b())) <= 1 && #[trigger] n.wf() && n.m() == and_bits(s[i].m(), not_bits(xor_bits(s[i].b(), s[j].b()))) && n.b() == and_bits(s[i].b(), n.m()) ==> joined(s[i], s[j], n) && sup(n, s[i]) && sup(n, s[j])
{
    reveal(listed); reveal(unmerged);
    assert forall|x: IpNetwork<A>| #[trigger] f.contains(x) implies x.wf() by { assert(s.contains(x)); let k = choose|k: int| 0 <= k < s.len() && s[k] == x; assert(s[k].wf()); }
    assert(before(s[i], s[j]));
    assert(s.to_set().contains(s[i]) && s.to_set().contains(s[j]));
    if halves(s[i], s[j]) { lemma_halves(s[i], s[j]); } else { assert(no_halves(s, i, j + 1)); }
    assert forall|n: IpNetwork<A>| s[i].subnet_mask == s[j].subnet_mask && ones(xor_bits(s[i].b(), s[j].b())) <= 1 && #[trigger] n.wf() && n.m() == and_bits(s[i].m(), not_bits(xor_bits(s[i].b(), s[j].b()))) && n.b() == and_bits(s[i].b(), n.m()) implies joined(s[i], s[j], n) && sup(n, s[i]) && sup(n, s[j]) by { assert(joined(s[i], s[j], n)); lemma_join(s[i], s[j], n); }
}
pub proof fn lemma_minimal<A: IpAddress>(t: Seq<IpNetwork<A>>, f: Set<IpNetwork<A>>, s: Seq<IpNetwork<A>>) requires listed(t, f), inv(f, s), final_in(f)
    ensures minimal(t), sorted(t), forall|a: A| in_some(s, a) <==> #[trigger] in_some(t, a)
{
    reveal(listed); reveal(inv); reveal(same); reveal(final_in);
    assert forall|i: int| 0 <= i < t.len() implies f.contains(#[trigger] t[i]) by { assert(t.to_set().contains(t[i])); }
    assert forall|a: A| in_some(s, a) <==> #[trigger] in_some(t, a) by {
        if cov(f, a) { let n = choose|n: IpNetwork<A>| #[trigger] f.contains(n) && n.member(a); assert(t.to_set().contains(n)); let i = choose|i: int| 0 <= i < t.len() && t[i] == n; assert(t[i].member(a)); }
        if in_some(t, a) { let i = choose|i: int| 0 <= i < t.len() && (#[trigger] t[i]).member(a); assert(f.contains(t[i])); }
    }
}
/// derived equality and hashing of networks agree (trusted, and only while both are derived)
#[verifier::external_body]
pub proof fn axiom_network_key<A: IpAddress>() ensures obeys_key_model::<IpNetwork<A>>() { } //@unless Hash for|PartialEq for|Eq for
pub proof fn axiom_network_key<A: IpAddress>() { } //@when Hash for|PartialEq for|Eq for

%grewrite assert ! ( $$x ) ; =>> crate::std_contracts::exec_assert($$x);
%fn cmds::minimize::minimize_subnets(subnets)
    requires all_wf(subnets@)
    ensures
        minimal(ret@), sorted(ret@),
        forall|a: A| in_some(subnets@, a) <==> #[trigger] in_some(ret@, a)
%closure 0
    $0: &IpNetwork<A> ||| (A, A) ||| ensures cret == ($0.base_addr, $0.subnet_mask)
%closure 1
    $0: &IpNetwork<A> ||| IpNetwork<A> ||| ensures cret == *$0
%closure 2
    $0: &IpNetwork<A> ||| (A, A) ||| ensures cret == ($0.base_addr, $0.subnet_mask)
%closure 3
    $0: &IpNetwork<A> ||| bool ||| requires new_subnet.wf(), $0.wf() ensures cret == !sup(new_subnet, *$0)
%closure 4
    $0: &IpNetwork<A> ||| IpNetwork<A> ||| ensures cret == *$0
%closure 5
    $0: &IpNetwork<A> ||| (A, A) ||| ensures cret == ($0.base_addr, $0.subnet_mask)
%entry
    let ghost orig = subnets@;
    proof { A::laws(); axiom_network_key::<A>(); }
%at let mut filtered_subnets
    let ghost s = subnets@;
    proof { lemma_sorted(s); lemma_perm(orig, s); lemma_copied(s); }
%before 0
    proof { lemma_filter_init(filtered_subnets@, s); }
%loop 0
    invariant
        subnets@ == s, obeys_key_model::<IpNetwork<A>>(), vit0.seq().len() == s.len(),
        filtering(filtered_subnets@, s, vit0.index() as int, 0)
%body 0
    proof { lemma_filter_row(filtered_subnets@, s, i as int); }
%loop 1
    invariant
        subnets@ == s, obeys_key_model::<IpNetwork<A>>(), i < s.len(), vit1.seq().len() == s.len() - i - 1,
        filtering(filtered_subnets@, s, i as int, i + 1 + vit1.index())
%body 1
    proof { lemma_filter_step(filtered_subnets@, s, i as int, j as int); }
%after 1
    proof { lemma_filter_row(filtered_subnets@, s, i as int); }
%after 0
    proof { lemma_filtered(filtered_subnets@, s, s.len() as int); }
%loop 2
    invariant
        obeys_key_model::<IpNetwork<A>>(), inv(filtered_subnets@, s), subnets_merged || final_in(filtered_subnets@)
    decreases filtered_subnets@.len() + if subnets_merged { 1int } else { 0 }
%body 2
    let ghost f = filtered_subnets@;
%at subnets . sort_unstable_by_key@@1
    let ghost r = subnets@;
    proof { lemma_copied(r); }
%before 3
    let ghost t = subnets@;
    proof { lemma_sorted(t); lemma_listed(r, t, f, s); lemma_row(t, 0); }
%loop 3
    invariant_except_break !subnets_merged, filtered_subnets@ == f, unmerged(t, vit3.index() as int, 0)
    invariant subnets@ == t, obeys_key_model::<IpNetwork<A>>(), listed(t, f), inv(f, s), vit3.seq().len() == t.len()
    ensures subnets_merged || filtered_subnets@ == f && unmerged(t, t.len() as int, 0), subnets_merged ==> inv(filtered_subnets@, s) && filtered_subnets@.len() < f.len()
%body 3
    proof { lemma_row(t, i as int); A::laws(); }
%loop 4
    invariant_except_break !subnets_merged, filtered_subnets@ == f, unmerged(t, i as int, i + 1 + vit4.index())
    invariant subnets@ == t, i < t.len(), vit4.seq().len() == t.len() - i - 1
    ensures subnets_merged || filtered_subnets@ == f && unmerged(t, i as int, t.len() as int), subnets_merged ==> inv(filtered_subnets@, s) && filtered_subnets@.len() < f.len()
%body 4
    proof { lemma_look(t, f, i as int, j as int); }
%atafter filtered_subnets . insert
    proof { lemma_merge(f, s, t[i as int], t[j as int], new_subnet, filtered_subnets@); }
%after 4
    proof { lemma_row(t, i as int); }
%after 3
    proof { if !subnets_merged { lemma_unmerged(t, f); } }
%at subnets . sort_unstable_by_key@@2
    let ghost r = subnets@;
    let ghost f = filtered_subnets@;
    proof { lemma_copied(r); }
%tail
    proof { let t = subnets@; lemma_sorted(t); lemma_listed(r, t, f, s); lemma_minimal(t, f, s); lemma_perm(orig, s); }
