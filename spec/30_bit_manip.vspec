%module bit_manip
use crate::model::*;

%fn bit_manip::bytes_to_bits(bytes)
    requires bytes@.len() < 0x1000_0000_0000_0000
    ensures ret@ == bytes_bits(bytes@)
%grewrite byte & ( $$x ) =>> *byte & ( $$x )
%grewrite ( $$x ) & byte =>> ( $$x ) & *byte
%grewrite byte >> ( $$x ) =>> *byte >> ( $$x )
%before 0
    proof { assert(ret@ =~= bytes_bits(bytes@.take(0))); }
%loop 0
    invariant
        vit0.seq() == bytes@.map_values(|x: u8| &x),
        ret@ == bytes_bits(bytes@.take(vit0.index() as int))
%body 0
    let ghost before = ret@;
    proof { assert(*byte == bytes@[vit0.index() as int]); }
%loop 1
    invariant
        0 <= bit_idx <= 8,
        ret@ =~= before + byte_bits(*byte).take(bit_idx as int)
%body 1
    proof { let s = (7 - bit_idx) as u8; lemma_test_bit(*byte, s); lemma_top_bit(bit_idx as u8); }
%bodyend 0
    proof {
        assert(byte_bits(*byte).take(8) =~= byte_bits(*byte));
        lemma_bytes_bits_push(bytes@.take(vit0.index() as int), *byte);
        assert(bytes@.take(vit0.index() as int + 1) =~= bytes@.take(vit0.index() as int).push(*byte));
    }
%tail
    proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }

%fn bit_manip::bits_to_bytes(bits)
    ensures ret@.len() == (bits@.len() + 7) / 8, bytes_bits(ret@) == pad8(bits@)
%entry
    proof { lemma_zero_byte(); assert(bytes_bits(Seq::<u8>::empty()) =~= pad8(bits@.take(0))); }
%loop 0
    invariant
        bytes@.len() == i / 8,
        bytes_bits(bytes@) =~= bits@.take((8 * (i / 8)) as int),
        forall|j: int| 0 <= j < 8 ==> #[trigger] byte_bits(cur_byte)[j] == (8 * (i / 8) + j < i && bits@[8 * (i / 8) + j])
%body 0
    proof {
        lemma_zero_byte();
        assert forall|c: u8, s: u8| s < 8 implies byte_bits(#[trigger] (c | (1u8 << s))) == byte_bits(c).update(7 - s, true) by { lemma_set_bit(c, s); }
        lemma_top_bit((i % 8) as u8); lemma_set_bit(cur_byte, (7 - i % 8) as u8);
        assert forall|b: u8| bytes_bits(#[trigger] bytes@.push(b)) == bytes_bits(bytes@) + byte_bits(b) by { lemma_bytes_bits_push(bytes@, b); }
    }
%after 0
    proof {
        assert forall|b: u8| bytes_bits(#[trigger] bytes@.push(b)) == bytes_bits(bytes@) + byte_bits(b) by { lemma_bytes_bits_push(bytes@, b); }
    }
%tail
    proof { assert(bytes_bits(bytes@) =~= pad8(bits@)); }

%fn bit_manip::bytes_to_binary(bytes)
    requires bytes@.len() < 0x1000_0000_0000_0000
    ensures ret@ == bit_text(bytes_bits(bytes@))
%before 0
    proof { assert(ret@ =~= bit_text(bytes_bits(bytes@).take(0))); }
%loop 0
    invariant
        vit0.seq() == bytes_bits(bytes@),
        ret@ =~= bit_text(bytes_bits(bytes@).take(vit0.index() as int))
%tail
    proof { let s = bytes_bits(bytes@); assert(s.take(s.len() as int) =~= s); }

%fn bit_manip::unravel_address(addr, subnet_mask)
    ensures ret.bits() == unravel(addr.bits(), subnet_mask.bits())
%entry
    proof { A::laws(); if is_mask(subnet_mask.bits()) { lemma_regroup_mask(addr.bits(), subnet_mask.bits()); } lemma_unravel_len(addr.bits(), subnet_mask.bits()); }
%before 0
    let ghost (ab, mb) = (addr_bits@, mask_bits@);
    proof { assert(net_bits@ =~= sel(ab.take(0), mb.take(0), true)); assert(host_bits@ =~= sel(ab.take(0), mb.take(0), false)); }
%loop 0
    invariant
        ab.len() == mb.len(),
        vit0.seq().len() == ab.len(), forall|i: int| 0 <= i < ab.len() ==> #[trigger] vit0.seq()[i] == (&ab[i], &mb[i]),
        net_bits@ == sel(ab.take(vit0.index() as int), mb.take(vit0.index() as int), true),
        host_bits@ == sel(ab.take(vit0.index() as int), mb.take(vit0.index() as int), false)
%body 0
    proof { let k = vit0.index() as int; assert(*addr_bit == ab[k] && *is_net == mb[k]); lemma_sel_step(ab, mb, k, true); lemma_sel_step(ab, mb, k, false); }
%after 0
    proof { assert(ab.take(ab.len() as int) =~= ab); assert(mb.take(mb.len() as int) =~= mb); }
%at let ret_bytes
    proof { assert(unraveled_bits@ =~= unravel(ab, mb)); assert(pad8(unraveled_bits@) =~= unraveled_bits@); }

%fn bit_manip::weave_address(addr, subnet_mask)
    ensures ret.bits() == weave(addr.bits(), subnet_mask.bits())
%entry
    proof { A::laws(); if is_mask(subnet_mask.bits()) { lemma_regroup_mask(addr.bits(), subnet_mask.bits()); } lemma_unravel_len(addr.bits(), subnet_mask.bits()); lemma_sums(); lemma_ones_le(subnet_mask.bits()); }
%closure 0
    $0: &u8 ||| usize ||| ensures cret == ones(byte_bits(*$0))
%before 0
    let ghost (ab, mb) = (addr_bits@, mask_bits@);
%loop 0
    invariant
        ab == addr_bits@, ab.len() <= 128, cidr_prefix <= ab.len(),
        net_bits@ =~= ab.take(if i < cidr_prefix { i as int } else { cidr_prefix as int }),
        host_bits@ =~= ab.subrange(if i < cidr_prefix { i as int } else { cidr_prefix as int }, i as int)
%loop 1
    invariant
        vit1.seq() == mb, ab.len() == mb.len(), ab.len() <= 128, cidr_prefix == ones(mb),
        net_bits@ == ab.take(cidr_prefix as int),
        host_bits@ == ab.skip(cidr_prefix as int),
        net_index == rank(mb, true, vit1.index() as int),
        host_index == rank(mb, false, vit1.index() as int),
        ret_bits@ == weave(ab, mb).take(vit1.index() as int)
%body 1
    proof { let k = vit1.index() as int; lemma_rank(mb, k); lemma_ones_take(mb, k); lemma_weave_step(ab, mb, k); }
%before 1
    proof { assert(net_bits@ =~= ab.take(cidr_prefix as int)); assert(host_bits@ =~= ab.skip(cidr_prefix as int)); assert(mb.take(0) =~= Seq::empty()); assert(ret_bits@ =~= weave(ab, mb).take(0)); }
%after 1
    proof { let w = weave(ab, mb); assert(w.take(w.len() as int) =~= w); assert(pad8(ret_bits@) =~= ret_bits@); }
