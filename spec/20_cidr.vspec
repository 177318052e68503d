%module cidr
use crate::model::*;
pub open spec fn byte_prefix(b: int) -> u8 {
    if b == 0 { 0 } else if b == 0x80 { 1 } else if b == 0xC0 { 2 } else if b == 0xE0 { 3 } else if b == 0xF0 { 4 } else if b == 0xF8 { 5 } else if b == 0xFC { 6 } else if b == 0xFE { 7 } else if b == 0xFF { 8 } else { 9 }
}
pub open spec fn mask_byte(n: int) -> u8 {
    if n <= 0 { 0 } else if n == 1 { 0x80 } else if n == 2 { 0xC0 } else if n == 3 { 0xE0 } else if n == 4 { 0xF0 } else if n == 5 { 0xF8 } else if n == 6 { 0xFC } else if n == 7 { 0xFE } else { 0xFF }
}
pub open spec fn table_ok(i: int) -> bool decreases 256 - i { if 0 <= i < 256 { SUBNET_MASK_BYTE_TO_PREFIX[i] == byte_prefix(i) && table_ok(i + 1) } else { true } }
pub open spec fn table2_ok(i: int) -> bool decreases 9 - i { if 0 <= i < 9 { CIDR_BYTE_TO_PREFIX[i] == mask_byte(i) && table2_ok(i + 1) } else { true } }
proof fn lemma_table_from(i: int) requires table_ok(i), 0 <= i <= 256 ensures forall|k: int| i <= k < 256 ==> #[trigger] SUBNET_MASK_BYTE_TO_PREFIX[k] == byte_prefix(k) decreases 256 - i { if i < 256 { lemma_table_from(i + 1); } }
proof fn lemma_table2_from(i: int) requires table2_ok(i), 0 <= i <= 9 ensures forall|k: int| i <= k < 9 ==> #[trigger] CIDR_BYTE_TO_PREFIX[k] == mask_byte(k) decreases 9 - i { if i < 9 { lemma_table2_from(i + 1); } }
/// entry by entry evaluation of the byte table
pub proof fn lemma_mask_table() ensures forall|k: int| 0 <= k < 256 ==> #[trigger] SUBNET_MASK_BYTE_TO_PREFIX[k] == byte_prefix(k) {
    assert(table_ok(0)) by (compute_only);
    lemma_table_from(0);
}
pub proof fn lemma_cidr_table() ensures forall|k: int| 0 <= k < 9 ==> #[trigger] CIDR_BYTE_TO_PREFIX[k] == mask_byte(k) {
    assert(table2_ok(0)) by (compute_only);
    lemma_table2_from(0);
}
pub proof fn lemma_mask_byte_bits(n: int) requires 0 <= n <= 8 ensures byte_bits(mask_byte(n)) == mask_bits(n as nat, 8) {
    let b = mask_byte(n);
    assert forall|i: int| 0 <= i < 8 implies byte_bits(b)[i] == (i < n) by {
        let k = (7 - i) as u8; let m = n as u8;
        assert((b >> k) & 1 == 1 <==> k >= 8 - m) by (bit_vector) requires k < 8, m <= 8, m == 0 ==> b == 0, m == 1 ==> b == 0x80, m == 2 ==> b == 0xC0, m == 3 ==> b == 0xE0, m == 4 ==> b == 0xF0, m == 5 ==> b == 0xF8, m == 6 ==> b == 0xFC, m == 7 ==> b == 0xFE, m == 8 ==> b == 0xFF;
    }
    assert(byte_bits(b) =~= mask_bits(n as nat, 8));
}
pub proof fn lemma_byte_prefix(b: u8) ensures byte_prefix(b as int) <= 8 <==> is_mask(byte_bits(b)), byte_prefix(b as int) <= 8 ==> byte_bits(b) == mask_bits(byte_prefix(b as int) as nat, 8) && b == mask_byte(byte_prefix(b as int) as int) {
    let s = byte_bits(b);
    if byte_prefix(b as int) <= 8 { lemma_mask_byte_bits(byte_prefix(b as int) as int); }
    if is_mask(s) {
        lemma_is_mask(s); lemma_ones_le(s);
        let n = ones(s) as int;
        lemma_mask_byte_bits(n);
        lemma_byte_bits(b); lemma_byte_bits(mask_byte(n));
        assert(b == mask_byte(n));
    }
}
/// one step of reading a mask, byte by byte
pub proof fn lemma_prefix_step(bs: Seq<u8>, k: int, p: nat)
    requires 0 <= k < bs.len(), p <= 8 * k, bytes_bits(bs.take(k)) == mask_bits(p, (8 * k) as nat)
    ensures
        byte_prefix(bs[k] as int) == 9 ==> !is_mask(bytes_bits(bs)),
        1 <= byte_prefix(bs[k] as int) <= 8 && p < 8 * k ==> !is_mask(bytes_bits(bs)),
        byte_prefix(bs[k] as int) <= 8 && (byte_prefix(bs[k] as int) == 0 || p == 8 * k) ==> bytes_bits(bs.take(k + 1)) == mask_bits(p + byte_prefix(bs[k] as int) as nat, (8 * (k + 1)) as nat),
        byte_prefix(bs[k] as int) <= 9
{
    let b = bs[k]; let n = byte_prefix(b as int); let s = bytes_bits(bs);
    lemma_byte_prefix(b);
    assert forall|i: int| 0 <= i < 8 implies #[trigger] s[8 * k + i] == byte_bits(b)[i] by { let j = 8 * k + i; assert(j / 8 == k && j % 8 == i); }
    assert forall|i: int| 0 <= i < 8 * k implies s[i] == (i < p) by { assert(bytes_bits(bs.take(k))[i] == s[i]); }
    if n == 9 {
        if is_mask(s) {
            assert forall|i: int, j: int| 0 <= i < j < 8 && byte_bits(b)[j] implies byte_bits(b)[i] by { assert(s[8 * k + i] == byte_bits(b)[i]); assert(s[8 * k + j] == byte_bits(b)[j]); }
        }
    } else if n >= 1 && p < 8 * k {
        assert(byte_bits(b)[0]);
        assert(s[8 * k + 0]); assert(!s[p as int]);
    } else if n == 0 || p == 8 * k {
        assert(bs.take(k + 1) =~= bs.take(k).push(b));
        lemma_bytes_bits_push(bs.take(k), b);
        assert(bytes_bits(bs.take(k + 1)) =~= mask_bits(p + n as nat, (8 * (k + 1)) as nat));
    }
}
pub proof fn lemma_mask_push(s: Seq<u8>, p: nat, b: u8)
    requires bytes_bits(s) == mask_bits(p, 8 * s.len())
    ensures
        p >= 8 * s.len() + 8 && b == 0xFF ==> bytes_bits(s.push(b)) == mask_bits(p, 8 * s.push(b).len()),
        8 * s.len() <= p < 8 * s.len() + 8 && b == mask_byte(p - 8 * s.len()) ==> bytes_bits(s.push(b)) == mask_bits(p, 8 * s.push(b).len()),
        p <= 8 * s.len() && b == 0 ==> bytes_bits(s.push(b)) == mask_bits(p, 8 * s.push(b).len()),
{
    lemma_bytes_bits_push(s, b);
    lemma_mask_byte_bits(8); lemma_mask_byte_bits(0);
    if 8 * s.len() <= p < 8 * s.len() + 8 { lemma_mask_byte_bits(p - 8 * s.len()); }
    let n = 8 * s.push(b).len();
    if p >= 8 * s.len() + 8 && b == 0xFF { assert(bytes_bits(s.push(b)) =~= mask_bits(p, n)); }
    if 8 * s.len() <= p < 8 * s.len() + 8 && b == mask_byte(p - 8 * s.len()) { assert(bytes_bits(s.push(b)) =~= mask_bits(p, n)); }
    if p <= 8 * s.len() && b == 0 { assert(bytes_bits(s.push(b)) =~= mask_bits(p, n)); }
}

%fn cidr::prefix_from_subnet_mask_bytes(bs)
    requires bs@.len() < 0x1000_0000_0000_0000
    ensures
        ret is Some <==> is_mask(bytes_bits(bs@)),
        ret is Some ==> ret->0 == ones(bytes_bits(bs@)) && bytes_bits(bs@) == mask_bits(ret->0 as nat, 8 * bs@.len()) && ret->0 <= 8 * bs@.len()
%entry
    proof { lemma_mask_table(); assert(bytes_bits(bs@.take(0)) =~= mask_bits(0, 0)); }
%loop 0
    invariant
        vit0.seq() == bs@.map_values(|x: u8| &x),
        bs@.len() < 0x1000_0000_0000_0000,
        forall|k: int| 0 <= k < 256 ==> #[trigger] SUBNET_MASK_BYTE_TO_PREFIX[k] == byte_prefix(k),
        cidr <= 8 * vit0.index(),
        ones_over <==> cidr < 8 * vit0.index(),
        bytes_bits(bs@.take(vit0.index() as int)) == mask_bits(cidr as nat, (8 * vit0.index()) as nat)
%body 0
    proof { lemma_prefix_step(bs@, vit0.index() as int, cidr as nat); assert(*b == bs@[vit0.index() as int]); }
%tail
    proof { assert(bs@.take(bs@.len() as int) =~= bs@); lemma_mask_ones(cidr as nat, 8 * bs@.len()); }

%fn cidr::subnet_mask_bytes_from_prefix(prefix, byte_count)
    requires byte_count < 0x1000_0000_0000_0000
    ensures ret@.len() == byte_count, bytes_bits(ret@) == mask_bits(prefix as nat, (8 * byte_count) as nat)
%entry
    let ghost prefix0 = prefix as nat;
    proof { lemma_cidr_table(); }
%before 0
    proof { assert(bytes_bits(ret@) =~= mask_bits(prefix0, 0)); }
%loop 0
    invariant_except_break
        prefix0 == prefix + 8 * ret@.len(),
    invariant
        forall|k: int| 0 <= k < 9 ==> #[trigger] CIDR_BYTE_TO_PREFIX[k] == mask_byte(k),
        byte_count < 0x1000_0000_0000_0000,
        ret@.len() <= byte_count,
        bytes_bits(ret@) == mask_bits(prefix0, 8 * ret@.len()),
    ensures
        ret@.len() == byte_count || prefix0 <= 8 * ret@.len(),
    decreases byte_count - ret@.len()
%body 0
    proof { assert forall|b: u8| true implies #[trigger] bytes_bits(ret@.push(b)) == bytes_bits(ret@.push(b)) by {} 
        assert forall|b: u8| #![trigger ret@.push(b)] (prefix0 >= 8 * ret@.len() + 8 && b == 0xFF) || (8 * ret@.len() <= prefix0 < 8 * ret@.len() + 8 && b == mask_byte(prefix0 - 8 * ret@.len())) implies bytes_bits(ret@.push(b)) == mask_bits(prefix0, 8 * ret@.push(b).len()) by { lemma_mask_push(ret@, prefix0, b); } }
%loop 1
    invariant
        byte_count < 0x1000_0000_0000_0000,
        ret@.len() <= byte_count,
        bytes_bits(ret@) == mask_bits(prefix0, 8 * ret@.len()),
        ret@.len() == byte_count || prefix0 <= 8 * ret@.len(),
    decreases byte_count - ret@.len()
%body 1
    proof { lemma_mask_push(ret@, prefix0, 0); }
