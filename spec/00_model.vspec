%# The model: addresses are bit sequences, most significant first; their value is a natural number.
%feature num-bigint
%feature console


%dropuse use console
%dropuse once_cell
%dropuse use regex
%header
use vstd::prelude::*;
fn main() {}

%module root
global size_of usize == 8;
pub mod model {
    use vstd::prelude::*;
    use vstd::std_specs::ops::*;
    use vstd::std_specs::cmp::*;
    use std::cmp::Ordering;
    use std::ops::{BitAnd, BitOr, BitXor};

    // ---------------------------------------------------------------- bitwise operators do not mind the order of their operands
    pub broadcast proof fn and_bits_commute(a: Seq<bool>, b: Seq<bool>) requires a.len() == b.len() ensures #[trigger] and_bits(a, b) == and_bits(b, a) { assert(and_bits(a, b) =~= and_bits(b, a)); }
    pub broadcast proof fn xor_bits_commute(a: Seq<bool>, b: Seq<bool>) requires a.len() == b.len() ensures #[trigger] xor_bits(a, b) == xor_bits(b, a) { assert(xor_bits(a, b) =~= xor_bits(b, a)); }
    pub broadcast group group_commute { and_u8, or_u8, xor_u8, and_u32, or_u32, xor_u32, and_u64, or_u64, xor_u64 }
    pub broadcast proof fn and_u8(a: u8, b: u8) ensures #[trigger] (a & b) == b & a { assert(a & b == b & a) by (bit_vector); }
    pub broadcast proof fn or_u8(a: u8, b: u8) ensures #[trigger] (a | b) == b | a { assert(a | b == b | a) by (bit_vector); }
    pub broadcast proof fn xor_u8(a: u8, b: u8) ensures #[trigger] (a ^ b) == b ^ a { assert(a ^ b == b ^ a) by (bit_vector); }
    pub broadcast proof fn and_u32(a: u32, b: u32) ensures #[trigger] (a & b) == b & a { assert(a & b == b & a) by (bit_vector); }
    pub broadcast proof fn or_u32(a: u32, b: u32) ensures #[trigger] (a | b) == b | a { assert(a | b == b | a) by (bit_vector); }
    pub broadcast proof fn xor_u32(a: u32, b: u32) ensures #[trigger] (a ^ b) == b ^ a { assert(a ^ b == b ^ a) by (bit_vector); }
    pub broadcast proof fn and_u64(a: u64, b: u64) ensures #[trigger] (a & b) == b & a { assert(a & b == b & a) by (bit_vector); }
    pub broadcast proof fn or_u64(a: u64, b: u64) ensures #[trigger] (a | b) == b | a { assert(a | b == b | a) by (bit_vector); }
    pub broadcast proof fn xor_u64(a: u64, b: u64) ensures #[trigger] (a ^ b) == b ^ a { assert(a ^ b == b ^ a) by (bit_vector); }
    // ---------------------------------------------------------------- bit sequences and their value
    pub open spec fn b2n(b: bool) -> nat { if b { 1 } else { 0 } }
    pub open spec fn val(s: Seq<bool>) -> nat decreases s.len() {
        if s.len() == 0 { 0 } else { 2 * val(s.drop_last()) + b2n(s.last()) }
    }
    pub open spec fn pow2(n: nat) -> nat decreases n { if n == 0 { 1 } else { 2 * pow2((n - 1) as nat) } }
    /// number of one bits
    pub open spec fn ones(s: Seq<bool>) -> nat decreases s.len() {
        if s.len() == 0 { 0 } else { ones(s.drop_last()) + b2n(s.last()) }
    }
    pub open spec fn zeros(s: Seq<bool>) -> nat { (s.len() - ones(s)) as nat }
    pub open spec fn and_bits(a: Seq<bool>, b: Seq<bool>) -> Seq<bool> { Seq::new(a.len(), |i: int| a[i] && b[i]) }
    pub open spec fn or_bits(a: Seq<bool>, b: Seq<bool>) -> Seq<bool> { Seq::new(a.len(), |i: int| a[i] || b[i]) }
    pub open spec fn xor_bits(a: Seq<bool>, b: Seq<bool>) -> Seq<bool> { Seq::new(a.len(), |i: int| a[i] != b[i]) }
    pub open spec fn not_bits(a: Seq<bool>) -> Seq<bool> { Seq::new(a.len(), |i: int| !a[i]) }
    /// n bits of x, most significant first
    pub open spec fn nbits(x: nat, n: nat) -> Seq<bool> decreases n {
        if n == 0 { Seq::empty() } else { nbits(x / 2, (n - 1) as nat).push(x % 2 == 1) }
    }
    /// bits as text
    pub open spec fn bit_text(s: Seq<bool>) -> Seq<char> { s.map_values(|b: bool| if b { '1' } else { '0' }) }
    pub open spec fn byte_bits(b: u8) -> Seq<bool> { Seq::new(8, |i: int| (b >> ((7 - i) as u8)) & 1 == 1) }
    pub open spec fn bytes_bits(s: Seq<u8>) -> Seq<bool> { Seq::new(8 * s.len(), |i: int| byte_bits(s[i / 8])[i % 8]) }
    pub open spec fn u16_bits(b: u16) -> Seq<bool> { Seq::new(16, |i: int| (b >> ((15 - i) as u16)) & 1 == 1) }
    pub open spec fn groups_bits(s: Seq<u16>) -> Seq<bool> { Seq::new(16 * s.len(), |i: int| u16_bits(s[i / 16])[i % 16]) }
    pub open spec fn u32_bits(v: u32) -> Seq<bool> { Seq::new(32, |i: int| (v >> ((31 - i) as u32)) & 1 == 1) }
    pub open spec fn u64_bits(v: u64) -> Seq<bool> { Seq::new(64, |i: int| (v >> ((63 - i) as u64)) & 1 == 1) }
    /// p ones, then zeros, of length w
    pub open spec fn mask_bits(p: nat, w: nat) -> Seq<bool> { Seq::new(w, |i: int| i < p) }

    /// all ones at the front
    pub open spec fn is_mask(s: Seq<bool>) -> bool { forall|i: int, j: int| #![trigger s[i], s[j]] 0 <= i < j < s.len() && s[j] ==> s[i] }

    /// the elements of a at the places where m is `want`, in order
    pub open spec fn sel(a: Seq<bool>, m: Seq<bool>, want: bool) -> Seq<bool> decreases a.len() {
        if a.len() == 0 { Seq::empty() } else {
            let r = sel(a.drop_last(), m.drop_last(), want);
            if m.last() == want { r.push(a.last()) } else { r }
        }
    }
    /// network bits (mask bit one) first, host bits last, keeping the order within each group
    pub open spec fn unravel(a: Seq<bool>, m: Seq<bool>) -> Seq<bool> { sel(a, m, true) + sel(a, m, false) }
    /// how many of the first i mask bits equal `want`
    pub open spec fn rank(m: Seq<bool>, want: bool, i: int) -> int { if want { ones(m.take(i)) as int } else { i - ones(m.take(i)) } }
    /// the reverse: distributes the first ones(m) bits over the one bits of m, the others over the zero bits
    pub open spec fn weave(a: Seq<bool>, m: Seq<bool>) -> Seq<bool> { Seq::new(m.len(), |i: int| if m[i] { a[rank(m, true, i)] } else { a[ones(m) + rank(m, false, i)] }) }
    /// padded with zeros to whole bytes
    pub open spec fn pad8(s: Seq<bool>) -> Seq<bool> { Seq::new((8 * ((s.len() + 7) / 8)) as nat, |i: int| i < s.len() && s[i]) }

    // ---------------------------------------------------------------- the contract of an address type
    pub trait AddrModel: Sized {
        spec fn nbytes() -> nat;
        spec fn bits(self) -> Seq<bool>;
        spec fn from_bits(s: Seq<bool>) -> Self;
    }
    pub open spec fn width<A: AddrModel>() -> nat { 8 * A::nbytes() }
    pub open spec fn cmp_nat(a: nat, b: nat) -> Ordering { if a < b { Ordering::Less } else if a == b { Ordering::Equal } else { Ordering::Greater } }
    pub open spec fn lawful<A: BitAnd<Output = A> + BitOr<Output = A> + BitXor<Output = A> + Ord + AddrModel>() -> bool {
        &&& 1 <= A::nbytes() <= 16
        &&& forall|a: A| #[trigger] a.bits().len() == 8 * A::nbytes()
        &&& forall|a: A, b: A| #![trigger a.bits(), b.bits()] a.bits() =~= b.bits() ==> a == b
        &&& forall|s: Seq<bool>| s.len() == 8 * A::nbytes() ==> (#[trigger] A::from_bits(s)).bits() == s
        &&& A::obeys_bitand_spec() && A::obeys_bitor_spec() && A::obeys_bitxor_spec()
        &&& forall|a: A, b: A| #[trigger] a.bitand_req(b)
        &&& forall|a: A, b: A| #[trigger] a.bitor_req(b)
        &&& forall|a: A, b: A| #[trigger] a.bitxor_req(b)
        &&& forall|a: A, b: A| (#[trigger] a.bitand_spec(b)).bits() == and_bits(a.bits(), b.bits())
        &&& forall|a: A, b: A| (#[trigger] a.bitor_spec(b)).bits() == or_bits(a.bits(), b.bits())
        &&& forall|a: A, b: A| (#[trigger] a.bitxor_spec(b)).bits() == xor_bits(a.bits(), b.bits())
        &&& A::obeys_eq_spec() && A::obeys_partial_cmp_spec() && A::obeys_cmp_spec()
        &&& forall|a: A, b: A| #[trigger] a.eq_spec(&b) <==> a == b
        &&& forall|a: A, b: A| #[trigger] a.cmp_spec(&b) == cmp_nat(val(a.bits()), val(b.bits()))
        &&& forall|a: A, b: A| #[trigger] a.partial_cmp_spec(&b) == Some(cmp_nat(val(a.bits()), val(b.bits())))
    }

    // ---------------------------------------------------------------- lemmas
    pub proof fn lemma_val_bound(s: Seq<bool>) ensures val(s) < pow2(s.len()) decreases s.len() {
        if s.len() > 0 { lemma_val_bound(s.drop_last()); }
    }
    pub proof fn lemma_nbits(x: nat, n: nat) ensures nbits(x, n).len() == n, x < pow2(n) ==> val(nbits(x, n)) == x decreases n {
        if n > 0 { lemma_nbits(x / 2, (n - 1) as nat); assert(nbits(x, n).drop_last() =~= nbits(x / 2, (n - 1) as nat)); }
    }
    pub proof fn lemma_val_nbits(s: Seq<bool>) ensures nbits(val(s), s.len()) == s decreases s.len() {
        if s.len() > 0 { lemma_val_nbits(s.drop_last()); assert(val(s) / 2 == val(s.drop_last())); assert(nbits(val(s), s.len()) =~= s); }
        else { assert(nbits(val(s), 0) =~= s); }
    }
    pub proof fn lemma_val_inj(a: Seq<bool>, b: Seq<bool>) requires a.len() == b.len(), val(a) == val(b) ensures a == b {
        lemma_val_nbits(a); lemma_val_nbits(b);
    }
    pub proof fn lemma_val_append(a: Seq<bool>, b: Seq<bool>) ensures val(a + b) == val(a) * pow2(b.len()) + val(b) decreases b.len() {
        if b.len() == 0 { assert(a + b =~= a); let p = val(a); let q = pow2(b.len()); assert(q == 1); assert(p * q == p) by (nonlinear_arith) requires q == 1; }
        else {
            lemma_val_append(a, b.drop_last());
            assert((a + b).drop_last() =~= a + b.drop_last());
            assert((a + b).last() == b.last());
            let p = pow2((b.len() - 1) as nat); let x = val(a); let y = val(b.drop_last());
            assert(b.drop_last().len() == (b.len() - 1) as nat);
            assert(pow2(b.len()) == 2 * p);
            assert(val(a + b.drop_last()) == x * p + y);
            assert(val(b) == 2 * y + b2n(b.last()));
            assert(val(a + b) == 2 * val((a + b).drop_last()) + b2n((a + b).last()));
            assert(2 * (x * p + y) == x * (2 * p) + 2 * y) by (nonlinear_arith);
        }
    }
    pub proof fn lemma_ones_le(s: Seq<bool>) ensures ones(s) <= s.len() decreases s.len() {
        if s.len() > 0 { lemma_ones_le(s.drop_last()); }
    }
    pub proof fn lemma_ones_append(a: Seq<bool>, b: Seq<bool>) ensures ones(a + b) == ones(a) + ones(b) decreases b.len() {
        if b.len() == 0 { assert(a + b =~= a); }
        else { lemma_ones_append(a, b.drop_last()); assert((a + b).drop_last() =~= a + b.drop_last()); }
    }
    pub proof fn lemma_ones_not(s: Seq<bool>) ensures ones(not_bits(s)) == s.len() - ones(s) decreases s.len() {
        lemma_ones_le(s);
        if s.len() > 0 { lemma_ones_not(s.drop_last()); assert(not_bits(s).drop_last() =~= not_bits(s.drop_last())); lemma_ones_le(s.drop_last()); }
    }
    pub proof fn lemma_pow2_pos(n: nat) ensures pow2(n) > 0 decreases n { if n > 0 { lemma_pow2_pos((n - 1) as nat); } }
    pub proof fn lemma_pow2_add(a: nat, b: nat) ensures pow2(a + b) == pow2(a) * pow2(b) decreases b {
        if b > 0 { lemma_pow2_add(a, (b - 1) as nat); let q = pow2((b - 1) as nat); let p = pow2(a); let n = a + b; assert((n - 1) as nat == a + (b - 1) as nat); assert(pow2(n) == 2 * pow2((n - 1) as nat)); assert(pow2(b) == 2 * q); assert(2 * (p * q) == p * (2 * q)) by (nonlinear_arith); }
        else { assert(pow2(b) == 1); assert(a + b == a); let p = pow2(a); let q = pow2(b); assert(p * q == p) by (nonlinear_arith) requires q == 1; }
    }
    pub proof fn lemma_pow2_mono(a: nat, b: nat) requires a <= b ensures pow2(a) <= pow2(b) decreases b - a {
        if a < b { lemma_pow2_mono(a, (b - 1) as nat); }
    }
    pub proof fn lemma_pow2_consts() ensures pow2(8) == 0x100, pow2(16) == 0x1_0000, pow2(32) == 0x1_0000_0000, pow2(64) == 0x1_0000_0000_0000_0000, pow2(128) == pow2(64) * pow2(64) {
        assert(pow2(8) == 0x100) by (compute);
        assert(pow2(16) == 0x1_0000) by (compute);
        assert(pow2(32) == 0x1_0000_0000) by (compute);
        assert(pow2(64) == 0x1_0000_0000_0000_0000) by (compute);
        lemma_pow2_add(64, 64);
    }
    pub proof fn lemma_mask_ones(p: nat, w: nat) ensures p <= w ==> ones(mask_bits(p, w)) == p, p >= w ==> ones(mask_bits(p, w)) == w, is_mask(mask_bits(p, w)) decreases w {
        if w > 0 { lemma_mask_ones(p, (w - 1) as nat); assert(mask_bits(p, w).drop_last() =~= mask_bits(p, (w - 1) as nat)); }
    }
    pub proof fn lemma_is_mask(s: Seq<bool>) requires is_mask(s) ensures s == mask_bits(ones(s), s.len()) decreases s.len() {
        if s.len() > 0 {
            let d = s.drop_last();
            assert forall|i: int, j: int| #![trigger d[i], d[j]] 0 <= i < j < d.len() && d[j] implies d[i] by { assert(s[j] && d[i] == s[i]); }
            lemma_is_mask(d);
            lemma_ones_le(d);
            if s.last() {
                assert forall|i: int| 0 <= i < d.len() implies d[i] by { assert(s[s.len() - 1]); assert(s[i]); assert(d[i] == s[i]); }
                if ones(d) < d.len() { assert(!d[ones(d) as int]); }
            }
        }
        if s.len() > 0 {
            let d = s.drop_last();
            assert(d.len() == s.len() - 1);
            assert(ones(s) == ones(d) + b2n(s.last()));
            assert forall|i: int| 0 <= i < s.len() implies s[i] == (i < ones(s)) by { if i < d.len() { assert(s[i] == d[i]); assert(d[i] == (i < ones(d))); } }
        }
        assert(s =~= mask_bits(ones(s), s.len()));
    }
    // regrouping
    pub proof fn lemma_ones_take(m: Seq<bool>, i: int) requires 0 <= i < m.len() ensures ones(m.take(i + 1)) == ones(m.take(i)) + b2n(m[i]), ones(m.take(i)) <= i, ones(m.take(i + 1)) <= i + 1 {
        assert(m.take(i + 1).drop_last() =~= m.take(i));
        lemma_ones_le(m.take(i)); lemma_ones_le(m.take(i + 1));
    }
    pub proof fn lemma_ones_take_mono(m: Seq<bool>, i: int, j: int) requires 0 <= i <= j <= m.len() ensures ones(m.take(i)) <= ones(m.take(j)), ones(m.take(j)) - ones(m.take(i)) <= j - i decreases j - i {
        if i < j { lemma_ones_take_mono(m, i, j - 1); lemma_ones_take(m, j - 1); }
    }
    pub proof fn lemma_rank(m: Seq<bool>, i: int) requires 0 <= i < m.len()
        ensures 0 <= rank(m, true, i) <= ones(m), 0 <= rank(m, false, i) <= m.len() - ones(m), ones(m) <= m.len(),
            m[i] ==> rank(m, true, i) < ones(m), !m[i] ==> rank(m, false, i) < m.len() - ones(m)
    {
        lemma_ones_take_mono(m, 0, i); lemma_ones_take_mono(m, i, m.len() as int); lemma_ones_take(m, i); lemma_ones_take_mono(m, i + 1, m.len() as int);
        assert(m.take(m.len() as int) =~= m); assert(m.take(0) =~= Seq::empty());
    }
    pub proof fn lemma_sel_len(a: Seq<bool>, m: Seq<bool>) requires a.len() == m.len() ensures sel(a, m, true).len() == ones(m), sel(a, m, false).len() == m.len() - ones(m), ones(m) <= m.len() decreases a.len() {
        lemma_ones_le(m);
        if a.len() > 0 { lemma_sel_len(a.drop_last(), m.drop_last()); }
    }
    pub proof fn lemma_unravel_len(a: Seq<bool>, m: Seq<bool>) requires a.len() == m.len() ensures unravel(a, m).len() == a.len(), weave(a, m).len() == a.len() { lemma_sel_len(a, m); }
    pub proof fn lemma_sel_step(a: Seq<bool>, m: Seq<bool>, k: int, want: bool) requires a.len() == m.len(), 0 <= k < a.len()
        ensures sel(a.take(k + 1), m.take(k + 1), want) == (if m[k] == want { sel(a.take(k), m.take(k), want).push(a[k]) } else { sel(a.take(k), m.take(k), want) })
    {
        assert(a.take(k + 1).drop_last() =~= a.take(k)); assert(m.take(k + 1).drop_last() =~= m.take(k));
    }
    pub proof fn lemma_sel_index(a: Seq<bool>, m: Seq<bool>, want: bool, i: int) requires a.len() == m.len(), 0 <= i < a.len(), m[i] == want
        ensures 0 <= rank(m, want, i) < sel(a, m, want).len(), sel(a, m, want)[rank(m, want, i)] == a[i]
        decreases a.len()
    {
        lemma_sel_len(a, m); lemma_rank(m, i);
        let n = a.len() - 1;
        lemma_sel_len(a.drop_last(), m.drop_last());
        if i < n {
            lemma_sel_index(a.drop_last(), m.drop_last(), want, i);
            assert(m.drop_last().take(i) =~= m.take(i));
        } else {
            assert(m.take(i) =~= m.drop_last());
        }
    }
    pub proof fn lemma_weave_unravel(a: Seq<bool>, m: Seq<bool>) requires a.len() == m.len() ensures weave(unravel(a, m), m) == a {
        lemma_sel_len(a, m);
        assert forall|i: int| 0 <= i < a.len() implies weave(unravel(a, m), m)[i] == a[i] by { lemma_rank(m, i); lemma_sel_index(a, m, m[i], i); }
        assert(weave(unravel(a, m), m) =~= a);
    }
    pub proof fn lemma_sel_of(x: Seq<bool>, m: Seq<bool>, want: bool, a: Seq<bool>)
        requires x.len() == m.len(), a.len() == if want { ones(m) } else { zeros(m) }, forall|i: int| 0 <= i < m.len() && m[i] == want ==> #[trigger] x[i] == a[rank(m, want, i)]
        ensures sel(x, m, want) == a
        decreases x.len()
    {
        lemma_sel_len(x, m);
        if x.len() > 0 {
            let n = x.len() - 1; let (xd, md) = (x.drop_last(), m.drop_last());
            lemma_ones_le(md);
            assert(m.take(n) =~= md);
            let ad = if m.last() == want { a.drop_last() } else { a };
            assert forall|i: int| 0 <= i < md.len() && md[i] == want implies #[trigger] xd[i] == ad[rank(md, want, i)] by {
                assert(md.take(i) =~= m.take(i)); assert(x[i] == a[rank(m, want, i)]); lemma_rank(md, i);
            }
            lemma_sel_of(xd, md, want, ad);
            if m.last() == want { assert(x[n] == a[rank(m, want, n)]); assert(sel(x, m, want) =~= a); }
        } else { assert(sel(x, m, want) =~= a); }
    }
    pub proof fn lemma_unravel_weave(a: Seq<bool>, m: Seq<bool>) requires a.len() == m.len() ensures unravel(weave(a, m), m) == a {
        lemma_ones_le(m);
        let w = weave(a, m); let k = ones(m) as int;
        assert forall|i: int| 0 <= i < m.len() && m[i] == true implies #[trigger] w[i] == a.take(k)[rank(m, true, i)] by { lemma_rank(m, i); }
        assert forall|i: int| 0 <= i < m.len() && m[i] == false implies #[trigger] w[i] == a.skip(k)[rank(m, false, i)] by { lemma_rank(m, i); }
        lemma_sel_of(w, m, true, a.take(k)); lemma_sel_of(w, m, false, a.skip(k));
        assert(unravel(w, m) =~= a);
    }
    /// with a contiguous mask, regrouping changes nothing
    pub proof fn lemma_sel_and(a: Seq<bool>, m: Seq<bool>) requires a.len() == m.len() ensures sel(and_bits(a, m), m, true) == sel(a, m, true) decreases a.len() {
        if a.len() > 0 { lemma_sel_and(a.drop_last(), m.drop_last()); assert(and_bits(a, m).drop_last() =~= and_bits(a.drop_last(), m.drop_last())); assert(and_bits(a, m).last() == (a.last() && m.last())); }
    }
    pub proof fn lemma_rank_mask(k: nat, w: nat, i: int) requires 0 <= i < w, k <= w ensures i < k ==> rank(mask_bits(k, w), true, i) == i, i >= k ==> rank(mask_bits(k, w), false, i) == i - k {
        assert(mask_bits(k, w).take(i) =~= mask_bits(k, i as nat)); lemma_mask_ones(k, i as nat);
    }
    pub proof fn lemma_regroup_mask(a: Seq<bool>, m: Seq<bool>) requires a.len() == m.len(), is_mask(m) ensures unravel(a, m) == a, weave(a, m) == a {
        lemma_is_mask(m); lemma_ones_le(m);
        let k = ones(m);
        assert(m == mask_bits(k, m.len()));
        assert forall|i: int| 0 <= i < a.len() implies #[trigger] weave(a, m)[i] == a[i] by { lemma_rank_mask(k, m.len(), i); }
        assert(weave(a, m) =~= a);
        lemma_unravel_weave(a, m);
    }
    pub proof fn lemma_weave_step(a: Seq<bool>, m: Seq<bool>, k: int) requires a.len() == m.len(), 0 <= k < m.len()
        ensures weave(a, m).take(k + 1) == weave(a, m).take(k).push(weave(a, m)[k])
    { assert(weave(a, m).take(k + 1) =~= weave(a, m).take(k).push(weave(a, m)[k])); }
    /// every bit of a byte, and of a byte with one more bit set
    pub proof fn lemma_set_bit(c: u8, s: u8) requires s < 8 ensures byte_bits(c | (1u8 << s)) == byte_bits(c).update(7 - s, true) {
        assert forall|j: int| 0 <= j < 8 implies #[trigger] byte_bits(c | (1u8 << s))[j] == (byte_bits(c)[j] || j == 7 - s) by {
            let k = (7 - j) as u8;
            assert(((c | (1u8 << s)) >> k) & 1 == 1 <==> ((c >> k) & 1 == 1 || k == s)) by (bit_vector) requires s < 8, k < 8;
            assert(k == 7 - j);
        }
        assert forall|j: int| 0 <= j < 8 implies #[trigger] byte_bits(c | (1u8 << s))[j] == byte_bits(c).update(7 - s, true)[j] by { }
        assert(byte_bits(c | (1u8 << s)) =~= byte_bits(c).update(7 - s, true));
    }
    pub proof fn lemma_zero_byte() ensures byte_bits(0) == seq![false, false, false, false, false, false, false, false] {
        assert forall|j: int| 0 <= j < 8 implies !byte_bits(0)[j] by { let k = (7 - j) as u8; assert((0u8 >> k) & 1 == 0) by (bit_vector); }
        assert(byte_bits(0) =~= seq![false, false, false, false, false, false, false, false]);
    }
    pub proof fn lemma_top_bit(s: u8) requires s < 8 ensures 0x80u8 >> s == 1u8 << ((7 - s) as u8) {
        let r = (7 - s) as u8;
        assert(0x80u8 >> s == 1u8 << r) by (bit_vector) requires s < 8, r == 7 - s;
    }
    pub proof fn lemma_test_bit(c: u8, s: u8) requires s < 8 ensures (c & (1u8 << s) != 0) == byte_bits(c)[7 - s] {
        assert((c & (1u8 << s) != 0) == ((c >> s) & 1 == 1)) by (bit_vector) requires s < 8;
    }
    // sums over bytes
    pub open spec fn seq_sum(s: Seq<usize>) -> nat decreases s.len() { if s.len() == 0 { 0 } else { seq_sum(s.drop_last()) + s.last() as nat } }
    pub open spec fn byte_counts(s: Seq<usize>, v: Seq<u8>) -> bool { s.len() <= v.len() && forall|i: int| 0 <= i < s.len() ==> s[i] == ones(byte_bits(#[trigger] v[i])) }
    pub proof fn lemma_byte_counts(s: Seq<usize>, v: Seq<u8>) requires byte_counts(s, v) ensures seq_sum(s) == ones(bytes_bits(v.take(s.len() as int))), seq_sum(s) <= 8 * s.len() decreases s.len() {
        if s.len() == 0 { assert(bytes_bits(v.take(0)) =~= Seq::empty()); }
        else {
            let n = s.len() - 1; let d = s.drop_last();
            assert(byte_counts(d, v)) by { assert forall|i: int| 0 <= i < d.len() implies d[i] == ones(byte_bits(#[trigger] v[i])) by { assert(s[i] == d[i]); } }
            lemma_byte_counts(d, v);
            assert(v.take(s.len() as int) =~= v.take(n).push(v[n]));
            lemma_bytes_bits_push(v.take(n), v[n]);
            lemma_ones_append(bytes_bits(v.take(n)), byte_bits(v[n]));
            lemma_ones_le(byte_bits(v[n]));
        }
    }
    /// facts about summed bit counts, for any byte vector of the code
    pub open spec fn sum_fact(s: Seq<usize>, v: Seq<u8>) -> bool { byte_counts(s, v) ==> seq_sum(s) <= 8 * v.len() && (s.len() == v.len() ==> seq_sum(s) == ones(bytes_bits(v))) }
    pub proof fn lemma_sums() ensures forall|s: Seq<usize>, v: Seq<u8>| #![trigger seq_sum(s), bytes_bits(v)] sum_fact(s, v)
    {
        assert forall|s: Seq<usize>, v: Seq<u8>| #[trigger] sum_fact(s, v) by { if byte_counts(s, v) {
            lemma_byte_counts(s, v);
            if s.len() == v.len() { assert(v.take(s.len() as int) =~= v); }
        } }
    }
    // machine words
    pub proof fn lemma_nbits_index(v: u64, n: nat, i: int)
        requires 0 <= i < n <= 64
        ensures nbits(v as nat, n)[i] == ((v >> ((n - 1 - i) as u64)) & 1 == 1)
        decreases n
    {
        lemma_nbits(v as nat / 2, (n - 1) as nat);
        if i == n - 1 { assert((v >> 0u64) & 1 == v % 2) by (bit_vector); }
        else {
            let h = v / 2; let k = (n - 2 - i) as u64;
            assert((v / 2) >> k == v >> add(k, 1)) by (bit_vector) requires k < 63;
            lemma_nbits_index(h, (n - 1) as nat, i);
        }
    }
    pub proof fn lemma_u64_bits(v: u64) ensures val(u64_bits(v)) == v, u64_bits(v) == nbits(v as nat, 64) {
        lemma_nbits(v as nat, 64); lemma_pow2_consts();
        assert forall|i: int| 0 <= i < 64 implies u64_bits(v)[i] == nbits(v as nat, 64)[i] by { lemma_nbits_index(v, 64, i); }
        assert(u64_bits(v) =~= nbits(v as nat, 64));
    }
    pub proof fn lemma_u32_bits(v: u32) ensures val(u32_bits(v)) == v, u32_bits(v) == nbits(v as nat, 32) {
        lemma_nbits(v as nat, 32); lemma_pow2_consts();
        assert forall|i: int| 0 <= i < 32 implies u32_bits(v)[i] == nbits(v as nat, 32)[i] by {
            lemma_nbits_index(v as u64, 32, i);
            let k = (31 - i) as u32;
            assert((v >> k) & 1 == 1 <==> ((v as u64) >> (k as u64)) & 1 == 1) by (bit_vector);
        }
        assert(u32_bits(v) =~= nbits(v as nat, 32));
    }
    pub proof fn lemma_u16_bits(v: u16) ensures val(u16_bits(v)) == v, u16_bits(v) == nbits(v as nat, 16) {
        lemma_nbits(v as nat, 16); lemma_pow2_consts();
        assert forall|i: int| 0 <= i < 16 implies u16_bits(v)[i] == nbits(v as nat, 16)[i] by {
            lemma_nbits_index(v as u64, 16, i);
            let k = (15 - i) as u16;
            assert((v >> k) & 1 == 1 <==> ((v as u64) >> (k as u64)) & 1 == 1) by (bit_vector);
        }
        assert(u16_bits(v) =~= nbits(v as nat, 16));
    }
    pub proof fn lemma_byte_bits(v: u8) ensures val(byte_bits(v)) == v, byte_bits(v) == nbits(v as nat, 8) {
        lemma_nbits(v as nat, 8); lemma_pow2_consts();
        assert forall|i: int| 0 <= i < 8 implies byte_bits(v)[i] == nbits(v as nat, 8)[i] by {
            lemma_nbits_index(v as u64, 8, i);
            let k = (7 - i) as u8;
            assert((v >> k) & 1 == 1 <==> ((v as u64) >> (k as u64)) & 1 == 1) by (bit_vector);
        }
        assert(byte_bits(v) =~= nbits(v as nat, 8));
    }
    pub proof fn lemma_bytes_bits_inj(a: Seq<u8>, b: Seq<u8>) requires bytes_bits(a) == bytes_bits(b) ensures a == b {
        assert(bytes_bits(a).len() == 8 * a.len() && bytes_bits(b).len() == 8 * b.len());
        assert forall|i: int| 0 <= i < a.len() implies a[i] == b[i] by {
            assert forall|j: int| 0 <= j < 8 implies byte_bits(a[i])[j] == byte_bits(b[i])[j] by {
                let k = 8 * i + j;
                assert(k / 8 == i && k % 8 == j);
                assert(bytes_bits(a)[k] == byte_bits(a[i])[j] && bytes_bits(b)[k] == byte_bits(b[i])[j]);
            }
            assert(byte_bits(a[i]) =~= byte_bits(b[i]));
            lemma_byte_bits(a[i]); lemma_byte_bits(b[i]);
        }
        assert(a =~= b);
    }
    pub proof fn lemma_bytes_bits_push(a: Seq<u8>, b: u8) ensures bytes_bits(a.push(b)) == bytes_bits(a) + byte_bits(b) {
        assert(bytes_bits(a.push(b)) =~= bytes_bits(a) + byte_bits(b));
    }
    pub proof fn lemma_bytes_append(a: Seq<u8>, b: Seq<u8>) ensures bytes_bits(a + b) == bytes_bits(a) + bytes_bits(b) {
        assert forall|i: int| 0 <= i < 8 * (a + b).len() implies bytes_bits(a + b)[i] == (bytes_bits(a) + bytes_bits(b))[i] by {
            if i >= 8 * a.len() { let k = i - 8 * a.len(); assert(k / 8 == i / 8 - a.len() && k % 8 == i % 8); }
        }
        assert(bytes_bits(a + b) =~= bytes_bits(a) + bytes_bits(b));
    }
    pub proof fn lemma_groups_append(a: Seq<u16>, b: Seq<u16>) ensures groups_bits(a + b) == groups_bits(a) + groups_bits(b) {
        assert forall|i: int| 0 <= i < 16 * (a + b).len() implies groups_bits(a + b)[i] == (groups_bits(a) + groups_bits(b))[i] by {
            if i >= 16 * a.len() { let k = i - 16 * a.len(); assert(k / 16 == i / 16 - a.len() && k % 16 == i % 16); }
        }
        assert(groups_bits(a + b) =~= groups_bits(a) + groups_bits(b));
    }
    // ---- generated by /verif/spec (one lemma per word size)
    pub proof fn lemma_u32_from_bytes(b0: u8, b1: u8, b2: u8, b3: u8)
        ensures u32_bits(((b0 as u32) << 24u32) | ((b1 as u32) << 16u32) | ((b2 as u32) << 8u32) | ((b3 as u32) << 0u32)) == bytes_bits(seq![b0, b1, b2, b3])
    {
        let v: u32 = ((b0 as u32) << 24u32) | ((b1 as u32) << 16u32) | ((b2 as u32) << 8u32) | ((b3 as u32) << 0u32);
        let s = seq![b0, b1, b2, b3];
        assert forall|i: int| 0 <= i < 32 implies u32_bits(v)[i] == bytes_bits(s)[i] by {
            let k = (i % 8) as u8;
            if i / 8 == 0 { assert((((((b0 as u32) << 24u32) | ((b1 as u32) << 16u32) | ((b2 as u32) << 8u32) | ((b3 as u32) << 0u32)) >> ((31 - k as u32) as u32)) & 1 == 1) <==> ((b0 >> ((7 - k) as u8)) & 1 == 1)) by (bit_vector) requires k < 8; }
            if i / 8 == 1 { assert((((((b0 as u32) << 24u32) | ((b1 as u32) << 16u32) | ((b2 as u32) << 8u32) | ((b3 as u32) << 0u32)) >> ((23 - k as u32) as u32)) & 1 == 1) <==> ((b1 >> ((7 - k) as u8)) & 1 == 1)) by (bit_vector) requires k < 8; }
            if i / 8 == 2 { assert((((((b0 as u32) << 24u32) | ((b1 as u32) << 16u32) | ((b2 as u32) << 8u32) | ((b3 as u32) << 0u32)) >> ((15 - k as u32) as u32)) & 1 == 1) <==> ((b2 >> ((7 - k) as u8)) & 1 == 1)) by (bit_vector) requires k < 8; }
            if i / 8 == 3 { assert((((((b0 as u32) << 24u32) | ((b1 as u32) << 16u32) | ((b2 as u32) << 8u32) | ((b3 as u32) << 0u32)) >> ((7 - k as u32) as u32)) & 1 == 1) <==> ((b3 >> ((7 - k) as u8)) & 1 == 1)) by (bit_vector) requires k < 8; }
        }
        assert(u32_bits(v) =~= bytes_bits(s));
    }
    pub proof fn lemma_u32_to_bytes(v: u32)
        ensures ((v >> 24) & 0xFF) <= 0xFF, ((v >> 16) & 0xFF) <= 0xFF, ((v >> 8) & 0xFF) <= 0xFF, ((v >> 0) & 0xFF) <= 0xFF,
            bytes_bits(seq![((v >> 24) & 0xFF) as u8, ((v >> 16) & 0xFF) as u8, ((v >> 8) & 0xFF) as u8, ((v >> 0) & 0xFF) as u8]) == u32_bits(v), ((v >> 24) & 0xFF) as u8 == (v >> 24) as u8, ((v >> 16) & 0xFF) as u8 == (v >> 16) as u8, ((v >> 8) & 0xFF) as u8 == (v >> 8) as u8, (v & 0xFF) as u8 == v as u8, v >> 0 == v, v & 0xFF <= 0xFF
    {
        assert(((v >> 24) & 0xFF) as u8 == (v >> 24) as u8) by (bit_vector);
        assert(((v >> 16) & 0xFF) as u8 == (v >> 16) as u8) by (bit_vector);
        assert(((v >> 8) & 0xFF) as u8 == (v >> 8) as u8) by (bit_vector);
        assert((v & 0xFF) as u8 == v as u8) by (bit_vector);
        assert(v >> 0 == v) by (bit_vector);
        assert(v & 0xFF <= 0xFF) by (bit_vector);
        let s = seq![((v >> 24) & 0xFF) as u8, ((v >> 16) & 0xFF) as u8, ((v >> 8) & 0xFF) as u8, ((v >> 0) & 0xFF) as u8];
        assert(((v >> 24) & 0xFF) <= 0xFF) by (bit_vector);
        assert(((v >> 16) & 0xFF) <= 0xFF) by (bit_vector);
        assert(((v >> 8) & 0xFF) <= 0xFF) by (bit_vector);
        assert(((v >> 0) & 0xFF) <= 0xFF) by (bit_vector);
        assert forall|i: int| 0 <= i < 32 implies u32_bits(v)[i] == bytes_bits(s)[i] by {
            let k = (i % 8) as u8;
            if i / 8 == 0 { assert(((v >> ((31 - k as u32) as u32)) & 1 == 1) <==> (((((v >> 24) & 0xFF) as u8) >> ((7 - k) as u8)) & 1 == 1)) by (bit_vector) requires k < 8; }
            if i / 8 == 1 { assert(((v >> ((23 - k as u32) as u32)) & 1 == 1) <==> (((((v >> 16) & 0xFF) as u8) >> ((7 - k) as u8)) & 1 == 1)) by (bit_vector) requires k < 8; }
            if i / 8 == 2 { assert(((v >> ((15 - k as u32) as u32)) & 1 == 1) <==> (((((v >> 8) & 0xFF) as u8) >> ((7 - k) as u8)) & 1 == 1)) by (bit_vector) requires k < 8; }
            if i / 8 == 3 { assert(((v >> ((7 - k as u32) as u32)) & 1 == 1) <==> (((((v >> 0) & 0xFF) as u8) >> ((7 - k) as u8)) & 1 == 1)) by (bit_vector) requires k < 8; }
        }
        assert(u32_bits(v) =~= bytes_bits(s));
    }
    pub proof fn lemma_u64_from_bytes(b0: u8, b1: u8, b2: u8, b3: u8, b4: u8, b5: u8, b6: u8, b7: u8)
        ensures u64_bits(((b0 as u64) << 56u64) | ((b1 as u64) << 48u64) | ((b2 as u64) << 40u64) | ((b3 as u64) << 32u64) | ((b4 as u64) << 24u64) | ((b5 as u64) << 16u64) | ((b6 as u64) << 8u64) | ((b7 as u64) << 0u64)) == bytes_bits(seq![b0, b1, b2, b3, b4, b5, b6, b7])
    {
        let v: u64 = ((b0 as u64) << 56u64) | ((b1 as u64) << 48u64) | ((b2 as u64) << 40u64) | ((b3 as u64) << 32u64) | ((b4 as u64) << 24u64) | ((b5 as u64) << 16u64) | ((b6 as u64) << 8u64) | ((b7 as u64) << 0u64);
        let s = seq![b0, b1, b2, b3, b4, b5, b6, b7];
        assert forall|i: int| 0 <= i < 64 implies u64_bits(v)[i] == bytes_bits(s)[i] by {
            let k = (i % 8) as u8;
            if i / 8 == 0 { assert((((((b0 as u64) << 56u64) | ((b1 as u64) << 48u64) | ((b2 as u64) << 40u64) | ((b3 as u64) << 32u64) | ((b4 as u64) << 24u64) | ((b5 as u64) << 16u64) | ((b6 as u64) << 8u64) | ((b7 as u64) << 0u64)) >> ((63 - k as u64) as u64)) & 1 == 1) <==> ((b0 >> ((7 - k) as u8)) & 1 == 1)) by (bit_vector) requires k < 8; }
            if i / 8 == 1 { assert((((((b0 as u64) << 56u64) | ((b1 as u64) << 48u64) | ((b2 as u64) << 40u64) | ((b3 as u64) << 32u64) | ((b4 as u64) << 24u64) | ((b5 as u64) << 16u64) | ((b6 as u64) << 8u64) | ((b7 as u64) << 0u64)) >> ((55 - k as u64) as u64)) & 1 == 1) <==> ((b1 >> ((7 - k) as u8)) & 1 == 1)) by (bit_vector) requires k < 8; }
            if i / 8 == 2 { assert((((((b0 as u64) << 56u64) | ((b1 as u64) << 48u64) | ((b2 as u64) << 40u64) | ((b3 as u64) << 32u64) | ((b4 as u64) << 24u64) | ((b5 as u64) << 16u64) | ((b6 as u64) << 8u64) | ((b7 as u64) << 0u64)) >> ((47 - k as u64) as u64)) & 1 == 1) <==> ((b2 >> ((7 - k) as u8)) & 1 == 1)) by (bit_vector) requires k < 8; }
            if i / 8 == 3 { assert((((((b0 as u64) << 56u64) | ((b1 as u64) << 48u64) | ((b2 as u64) << 40u64) | ((b3 as u64) << 32u64) | ((b4 as u64) << 24u64) | ((b5 as u64) << 16u64) | ((b6 as u64) << 8u64) | ((b7 as u64) << 0u64)) >> ((39 - k as u64) as u64)) & 1 == 1) <==> ((b3 >> ((7 - k) as u8)) & 1 == 1)) by (bit_vector) requires k < 8; }
            if i / 8 == 4 { assert((((((b0 as u64) << 56u64) | ((b1 as u64) << 48u64) | ((b2 as u64) << 40u64) | ((b3 as u64) << 32u64) | ((b4 as u64) << 24u64) | ((b5 as u64) << 16u64) | ((b6 as u64) << 8u64) | ((b7 as u64) << 0u64)) >> ((31 - k as u64) as u64)) & 1 == 1) <==> ((b4 >> ((7 - k) as u8)) & 1 == 1)) by (bit_vector) requires k < 8; }
            if i / 8 == 5 { assert((((((b0 as u64) << 56u64) | ((b1 as u64) << 48u64) | ((b2 as u64) << 40u64) | ((b3 as u64) << 32u64) | ((b4 as u64) << 24u64) | ((b5 as u64) << 16u64) | ((b6 as u64) << 8u64) | ((b7 as u64) << 0u64)) >> ((23 - k as u64) as u64)) & 1 == 1) <==> ((b5 >> ((7 - k) as u8)) & 1 == 1)) by (bit_vector) requires k < 8; }
            if i / 8 == 6 { assert((((((b0 as u64) << 56u64) | ((b1 as u64) << 48u64) | ((b2 as u64) << 40u64) | ((b3 as u64) << 32u64) | ((b4 as u64) << 24u64) | ((b5 as u64) << 16u64) | ((b6 as u64) << 8u64) | ((b7 as u64) << 0u64)) >> ((15 - k as u64) as u64)) & 1 == 1) <==> ((b6 >> ((7 - k) as u8)) & 1 == 1)) by (bit_vector) requires k < 8; }
            if i / 8 == 7 { assert((((((b0 as u64) << 56u64) | ((b1 as u64) << 48u64) | ((b2 as u64) << 40u64) | ((b3 as u64) << 32u64) | ((b4 as u64) << 24u64) | ((b5 as u64) << 16u64) | ((b6 as u64) << 8u64) | ((b7 as u64) << 0u64)) >> ((7 - k as u64) as u64)) & 1 == 1) <==> ((b7 >> ((7 - k) as u8)) & 1 == 1)) by (bit_vector) requires k < 8; }
        }
        assert(u64_bits(v) =~= bytes_bits(s));
    }
    pub proof fn lemma_u64_to_bytes(v: u64)
        ensures ((v >> 56) & 0xFF) <= 0xFF, ((v >> 48) & 0xFF) <= 0xFF, ((v >> 40) & 0xFF) <= 0xFF, ((v >> 32) & 0xFF) <= 0xFF, ((v >> 24) & 0xFF) <= 0xFF, ((v >> 16) & 0xFF) <= 0xFF, ((v >> 8) & 0xFF) <= 0xFF, ((v >> 0) & 0xFF) <= 0xFF,
            bytes_bits(seq![((v >> 56) & 0xFF) as u8, ((v >> 48) & 0xFF) as u8, ((v >> 40) & 0xFF) as u8, ((v >> 32) & 0xFF) as u8, ((v >> 24) & 0xFF) as u8, ((v >> 16) & 0xFF) as u8, ((v >> 8) & 0xFF) as u8, ((v >> 0) & 0xFF) as u8]) == u64_bits(v), ((v >> 56) & 0xFF) as u8 == (v >> 56) as u8, ((v >> 48) & 0xFF) as u8 == (v >> 48) as u8, ((v >> 40) & 0xFF) as u8 == (v >> 40) as u8, ((v >> 32) & 0xFF) as u8 == (v >> 32) as u8, ((v >> 24) & 0xFF) as u8 == (v >> 24) as u8, ((v >> 16) & 0xFF) as u8 == (v >> 16) as u8, ((v >> 8) & 0xFF) as u8 == (v >> 8) as u8, (v & 0xFF) as u8 == v as u8, v >> 0 == v, v & 0xFF <= 0xFF
    {
        assert(((v >> 56) & 0xFF) as u8 == (v >> 56) as u8) by (bit_vector);
        assert(((v >> 48) & 0xFF) as u8 == (v >> 48) as u8) by (bit_vector);
        assert(((v >> 40) & 0xFF) as u8 == (v >> 40) as u8) by (bit_vector);
        assert(((v >> 32) & 0xFF) as u8 == (v >> 32) as u8) by (bit_vector);
        assert(((v >> 24) & 0xFF) as u8 == (v >> 24) as u8) by (bit_vector);
        assert(((v >> 16) & 0xFF) as u8 == (v >> 16) as u8) by (bit_vector);
        assert(((v >> 8) & 0xFF) as u8 == (v >> 8) as u8) by (bit_vector);
        assert((v & 0xFF) as u8 == v as u8) by (bit_vector);
        assert(v >> 0 == v) by (bit_vector);
        assert(v & 0xFF <= 0xFF) by (bit_vector);
        let s = seq![((v >> 56) & 0xFF) as u8, ((v >> 48) & 0xFF) as u8, ((v >> 40) & 0xFF) as u8, ((v >> 32) & 0xFF) as u8, ((v >> 24) & 0xFF) as u8, ((v >> 16) & 0xFF) as u8, ((v >> 8) & 0xFF) as u8, ((v >> 0) & 0xFF) as u8];
        assert(((v >> 56) & 0xFF) <= 0xFF) by (bit_vector);
        assert(((v >> 48) & 0xFF) <= 0xFF) by (bit_vector);
        assert(((v >> 40) & 0xFF) <= 0xFF) by (bit_vector);
        assert(((v >> 32) & 0xFF) <= 0xFF) by (bit_vector);
        assert(((v >> 24) & 0xFF) <= 0xFF) by (bit_vector);
        assert(((v >> 16) & 0xFF) <= 0xFF) by (bit_vector);
        assert(((v >> 8) & 0xFF) <= 0xFF) by (bit_vector);
        assert(((v >> 0) & 0xFF) <= 0xFF) by (bit_vector);
        assert forall|i: int| 0 <= i < 64 implies u64_bits(v)[i] == bytes_bits(s)[i] by {
            let k = (i % 8) as u8;
            if i / 8 == 0 { assert(((v >> ((63 - k as u64) as u64)) & 1 == 1) <==> (((((v >> 56) & 0xFF) as u8) >> ((7 - k) as u8)) & 1 == 1)) by (bit_vector) requires k < 8; }
            if i / 8 == 1 { assert(((v >> ((55 - k as u64) as u64)) & 1 == 1) <==> (((((v >> 48) & 0xFF) as u8) >> ((7 - k) as u8)) & 1 == 1)) by (bit_vector) requires k < 8; }
            if i / 8 == 2 { assert(((v >> ((47 - k as u64) as u64)) & 1 == 1) <==> (((((v >> 40) & 0xFF) as u8) >> ((7 - k) as u8)) & 1 == 1)) by (bit_vector) requires k < 8; }
            if i / 8 == 3 { assert(((v >> ((39 - k as u64) as u64)) & 1 == 1) <==> (((((v >> 32) & 0xFF) as u8) >> ((7 - k) as u8)) & 1 == 1)) by (bit_vector) requires k < 8; }
            if i / 8 == 4 { assert(((v >> ((31 - k as u64) as u64)) & 1 == 1) <==> (((((v >> 24) & 0xFF) as u8) >> ((7 - k) as u8)) & 1 == 1)) by (bit_vector) requires k < 8; }
            if i / 8 == 5 { assert(((v >> ((23 - k as u64) as u64)) & 1 == 1) <==> (((((v >> 16) & 0xFF) as u8) >> ((7 - k) as u8)) & 1 == 1)) by (bit_vector) requires k < 8; }
            if i / 8 == 6 { assert(((v >> ((15 - k as u64) as u64)) & 1 == 1) <==> (((((v >> 8) & 0xFF) as u8) >> ((7 - k) as u8)) & 1 == 1)) by (bit_vector) requires k < 8; }
            if i / 8 == 7 { assert(((v >> ((7 - k as u64) as u64)) & 1 == 1) <==> (((((v >> 0) & 0xFF) as u8) >> ((7 - k) as u8)) & 1 == 1)) by (bit_vector) requires k < 8; }
        }
        assert(u64_bits(v) =~= bytes_bits(s));
    }
    pub proof fn lemma_u32_and(a: u32, b: u32) ensures u32_bits(a & b) == and_bits(u32_bits(a), u32_bits(b)) {
        assert forall|i: int| 0 <= i < 32 implies u32_bits(a & b)[i] == (u32_bits(a)[i] && u32_bits(b)[i]) by {
            let k = (31 - i) as u32;
            assert((((a & b) >> k) & 1 == 1) == (((a >> k) & 1 == 1) && ((b >> k) & 1 == 1))) by (bit_vector) requires k < 32;
        }
        assert(u32_bits(a & b) =~= and_bits(u32_bits(a), u32_bits(b)));
    }
    pub proof fn lemma_u64_and(a: u64, b: u64) ensures u64_bits(a & b) == and_bits(u64_bits(a), u64_bits(b)) {
        assert forall|i: int| 0 <= i < 64 implies u64_bits(a & b)[i] == (u64_bits(a)[i] && u64_bits(b)[i]) by {
            let k = (63 - i) as u64;
            assert((((a & b) >> k) & 1 == 1) == (((a >> k) & 1 == 1) && ((b >> k) & 1 == 1))) by (bit_vector) requires k < 64;
        }
        assert(u64_bits(a & b) =~= and_bits(u64_bits(a), u64_bits(b)));
    }
    pub proof fn lemma_u32_or(a: u32, b: u32) ensures u32_bits(a | b) == or_bits(u32_bits(a), u32_bits(b)) {
        assert forall|i: int| 0 <= i < 32 implies u32_bits(a | b)[i] == (u32_bits(a)[i] || u32_bits(b)[i]) by {
            let k = (31 - i) as u32;
            assert((((a | b) >> k) & 1 == 1) == (((a >> k) & 1 == 1) || ((b >> k) & 1 == 1))) by (bit_vector) requires k < 32;
        }
        assert(u32_bits(a | b) =~= or_bits(u32_bits(a), u32_bits(b)));
    }
    pub proof fn lemma_u64_or(a: u64, b: u64) ensures u64_bits(a | b) == or_bits(u64_bits(a), u64_bits(b)) {
        assert forall|i: int| 0 <= i < 64 implies u64_bits(a | b)[i] == (u64_bits(a)[i] || u64_bits(b)[i]) by {
            let k = (63 - i) as u64;
            assert((((a | b) >> k) & 1 == 1) == (((a >> k) & 1 == 1) || ((b >> k) & 1 == 1))) by (bit_vector) requires k < 64;
        }
        assert(u64_bits(a | b) =~= or_bits(u64_bits(a), u64_bits(b)));
    }
    pub proof fn lemma_u32_xor(a: u32, b: u32) ensures u32_bits(a ^ b) == xor_bits(u32_bits(a), u32_bits(b)) {
        assert forall|i: int| 0 <= i < 32 implies u32_bits(a ^ b)[i] == (u32_bits(a)[i] != u32_bits(b)[i]) by {
            let k = (31 - i) as u32;
            assert((((a ^ b) >> k) & 1 == 1) == (((a >> k) & 1 == 1) != ((b >> k) & 1 == 1))) by (bit_vector) requires k < 32;
        }
        assert(u32_bits(a ^ b) =~= xor_bits(u32_bits(a), u32_bits(b)));
    }
    pub proof fn lemma_u64_xor(a: u64, b: u64) ensures u64_bits(a ^ b) == xor_bits(u64_bits(a), u64_bits(b)) {
        assert forall|i: int| 0 <= i < 64 implies u64_bits(a ^ b)[i] == (u64_bits(a)[i] != u64_bits(b)[i]) by {
            let k = (63 - i) as u64;
            assert((((a ^ b) >> k) & 1 == 1) == (((a >> k) & 1 == 1) != ((b >> k) & 1 == 1))) by (bit_vector) requires k < 64;
        }
        assert(u64_bits(a ^ b) =~= xor_bits(u64_bits(a), u64_bits(b)));
    }
    pub proof fn lemma_u32_not(a: u32) ensures u32_bits(a ^ 0xFFFFFFFFu32) == not_bits(u32_bits(a)) {
        assert forall|i: int| 0 <= i < 32 implies u32_bits(a ^ 0xFFFFFFFFu32)[i] == !u32_bits(a)[i] by {
            let k = (31 - i) as u32;
            assert((((a ^ 0xFFFFFFFFu32) >> k) & 1 == 1) == !((a >> k) & 1 == 1)) by (bit_vector) requires k < 32;
        }
        assert(u32_bits(a ^ 0xFFFFFFFFu32) =~= not_bits(u32_bits(a)));
    }
    pub proof fn lemma_u32_of_val(s: Seq<bool>) requires s.len() == 32 ensures val(s) < pow2(32), u32_bits(val(s) as u32) == s {
        lemma_val_bound(s); lemma_pow2_consts(); lemma_val_nbits(s); lemma_u32_bits(val(s) as u32);
    }
    pub proof fn lemma_u64_not(a: u64) ensures u64_bits(a ^ 0xFFFFFFFFFFFFFFFFu64) == not_bits(u64_bits(a)) {
        assert forall|i: int| 0 <= i < 64 implies u64_bits(a ^ 0xFFFFFFFFFFFFFFFFu64)[i] == !u64_bits(a)[i] by {
            let k = (63 - i) as u64;
            assert((((a ^ 0xFFFFFFFFFFFFFFFFu64) >> k) & 1 == 1) == !((a >> k) & 1 == 1)) by (bit_vector) requires k < 64;
        }
        assert(u64_bits(a ^ 0xFFFFFFFFFFFFFFFFu64) =~= not_bits(u64_bits(a)));
    }
    pub proof fn lemma_u64_of_val(s: Seq<bool>) requires s.len() == 64 ensures val(s) < pow2(64), u64_bits(val(s) as u64) == s {
        lemma_val_bound(s); lemma_pow2_consts(); lemma_val_nbits(s); lemma_u64_bits(val(s) as u64);
    }
    pub proof fn lemma_u64_from_groups(b0: u16, b1: u16, b2: u16, b3: u16)
        ensures u64_bits(((b0 as u64) << 48u64) | ((b1 as u64) << 32u64) | ((b2 as u64) << 16u64) | ((b3 as u64) << 0u64)) == groups_bits(seq![b0, b1, b2, b3])
    {
        let v: u64 = ((b0 as u64) << 48u64) | ((b1 as u64) << 32u64) | ((b2 as u64) << 16u64) | ((b3 as u64) << 0u64);
        let s = seq![b0, b1, b2, b3];
        assert forall|i: int| 0 <= i < 64 implies u64_bits(v)[i] == groups_bits(s)[i] by {
            let k = (i % 16) as u16;
            if i / 16 == 0 { assert((((((b0 as u64) << 48u64) | ((b1 as u64) << 32u64) | ((b2 as u64) << 16u64) | ((b3 as u64) << 0u64)) >> ((63 - k as u64) as u64)) & 1 == 1) <==> ((b0 >> ((15 - k) as u16)) & 1 == 1)) by (bit_vector) requires k < 16; }
            if i / 16 == 1 { assert((((((b0 as u64) << 48u64) | ((b1 as u64) << 32u64) | ((b2 as u64) << 16u64) | ((b3 as u64) << 0u64)) >> ((47 - k as u64) as u64)) & 1 == 1) <==> ((b1 >> ((15 - k) as u16)) & 1 == 1)) by (bit_vector) requires k < 16; }
            if i / 16 == 2 { assert((((((b0 as u64) << 48u64) | ((b1 as u64) << 32u64) | ((b2 as u64) << 16u64) | ((b3 as u64) << 0u64)) >> ((31 - k as u64) as u64)) & 1 == 1) <==> ((b2 >> ((15 - k) as u16)) & 1 == 1)) by (bit_vector) requires k < 16; }
            if i / 16 == 3 { assert((((((b0 as u64) << 48u64) | ((b1 as u64) << 32u64) | ((b2 as u64) << 16u64) | ((b3 as u64) << 0u64)) >> ((15 - k as u64) as u64)) & 1 == 1) <==> ((b3 >> ((15 - k) as u16)) & 1 == 1)) by (bit_vector) requires k < 16; }
        }
        assert(u64_bits(v) =~= groups_bits(s));
    }
    /// an address as one 128-bit number
    pub proof fn lemma_joined(t: u64, b: u64)
        ensures ((t as u128) << 64) | (b as u128) == t * 0x1_0000_0000_0000_0000 + b, ((t as u128) << 64) + (b as u128) == t * 0x1_0000_0000_0000_0000 + b, (t as u128) << 64 == t * 0x1_0000_0000_0000_0000
    {
        assert(((t as u128) << 64) | (b as u128) == add((t as u128) << 64, b as u128)) by (bit_vector);
        assert((t as u128) << 64 == mul(t as u128, 0x1_0000_0000_0000_0000u128) && (t as u128) << 64 <= 0xFFFF_FFFF_FFFF_FFFF_0000_0000_0000_0000u128) by (bit_vector);
        assert(t as u128 * 0x1_0000_0000_0000_0000u128 <= u128::MAX) by (nonlinear_arith) requires t <= 0xFFFF_FFFF_FFFF_FFFFu64;
    }
    pub proof fn lemma_halves(x: u128)
        ensures x == (#[verifier::truncate] ((x >> 64) as u64)) * 0x1_0000_0000_0000_0000 + (#[verifier::truncate] (x as u64)), x >> 64 <= u64::MAX, x & 0xFFFF_FFFF_FFFF_FFFF == (#[verifier::truncate] (x as u64)) as u128
    {
        assert(x >> 64 == x / 0x1_0000_0000_0000_0000u128 && x >> 64 <= 0xFFFF_FFFF_FFFF_FFFFu128 && x & 0xFFFF_FFFF_FFFF_FFFF == x % 0x1_0000_0000_0000_0000u128 && x % 0x1_0000_0000_0000_0000u128 == (x as u64) as u128) by (bit_vector);
        assert(x == (x / 0x1_0000_0000_0000_0000u128) * 0x1_0000_0000_0000_0000u128 + x % 0x1_0000_0000_0000_0000u128) by (nonlinear_arith);
    }
    pub proof fn lemma_u64_to_groups(v: u64)
        ensures ((v >> 48) & 0xFFFF) <= 0xFFFF, ((v >> 32) & 0xFFFF) <= 0xFFFF, ((v >> 16) & 0xFFFF) <= 0xFFFF, ((v >> 0) & 0xFFFF) <= 0xFFFF, groups_bits(seq![((v >> 48) & 0xFFFF) as u16, ((v >> 32) & 0xFFFF) as u16, ((v >> 16) & 0xFFFF) as u16, ((v >> 0) & 0xFFFF) as u16]) == u64_bits(v), ((v >> 48) & 0xFFFF) as u16 == (v >> 48) as u16, ((v >> 32) & 0xFFFF) as u16 == (v >> 32) as u16, ((v >> 16) & 0xFFFF) as u16 == (v >> 16) as u16, (v & 0xFFFF) as u16 == v as u16, v >> 0 == v, v & 0xFFFF <= 0xFFFF
    {
        assert(((v >> 48) & 0xFFFF) as u16 == (v >> 48) as u16) by (bit_vector);
        assert(((v >> 32) & 0xFFFF) as u16 == (v >> 32) as u16) by (bit_vector);
        assert(((v >> 16) & 0xFFFF) as u16 == (v >> 16) as u16) by (bit_vector);
        assert((v & 0xFFFF) as u16 == v as u16) by (bit_vector);
        assert(v >> 0 == v) by (bit_vector);
        assert(v & 0xFFFF <= 0xFFFF) by (bit_vector);
        let s = seq![((v >> 48) & 0xFFFF) as u16, ((v >> 32) & 0xFFFF) as u16, ((v >> 16) & 0xFFFF) as u16, ((v >> 0) & 0xFFFF) as u16];
        assert(((v >> 48) & 0xFFFF) <= 0xFFFF) by (bit_vector);
        assert(((v >> 32) & 0xFFFF) <= 0xFFFF) by (bit_vector);
        assert(((v >> 16) & 0xFFFF) <= 0xFFFF) by (bit_vector);
        assert(((v >> 0) & 0xFFFF) <= 0xFFFF) by (bit_vector);
        assert forall|i: int| 0 <= i < 64 implies u64_bits(v)[i] == groups_bits(s)[i] by {
            let k = (i % 16) as u16;
            if i / 16 == 0 { assert(((v >> ((63 - k as u64) as u64)) & 1 == 1) <==> (((((v >> 48) & 0xFFFF) as u16) >> ((15 - k) as u16)) & 1 == 1)) by (bit_vector) requires k < 16; }
            if i / 16 == 1 { assert(((v >> ((47 - k as u64) as u64)) & 1 == 1) <==> (((((v >> 32) & 0xFFFF) as u16) >> ((15 - k) as u16)) & 1 == 1)) by (bit_vector) requires k < 16; }
            if i / 16 == 2 { assert(((v >> ((31 - k as u64) as u64)) & 1 == 1) <==> (((((v >> 16) & 0xFFFF) as u16) >> ((15 - k) as u16)) & 1 == 1)) by (bit_vector) requires k < 16; }
            if i / 16 == 3 { assert(((v >> ((15 - k as u64) as u64)) & 1 == 1) <==> (((((v >> 0) & 0xFFFF) as u16) >> ((15 - k) as u16)) & 1 == 1)) by (bit_vector) requires k < 16; }
        }
        assert(u64_bits(v) =~= groups_bits(s));
    }
}
