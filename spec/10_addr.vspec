%module addr
use crate::model::*;
use vstd::std_specs::ops::*;
use vstd::std_specs::cmp::*;
use std::cmp::Ordering;


impl Ipv4Address {
    pub proof fn lemma(self) ensures self.bits().len() == 32, val(self.bits()) == self.addr_value, pow2(32) == 0x1_0000_0000 {
        lemma_u32_bits(self.addr_value); lemma_pow2_consts();
    }
}
impl Ipv6Address {
    pub open spec fn v(self) -> nat { (self.top_half as nat) * 0x1_0000_0000_0000_0000 + self.bottom_half as nat }
    pub proof fn lemma(self) ensures self.bits().len() == 128, val(self.bits()) == self.v(), pow2(64) == 0x1_0000_0000_0000_0000, pow2(128) == 0x1_0000_0000_0000_0000 * 0x1_0000_0000_0000_0000 {
        lemma_u64_bits(self.top_half); lemma_u64_bits(self.bottom_half); lemma_pow2_consts(); lemma_val_append(u64_bits(self.top_half), u64_bits(self.bottom_half));
    }
}
pub proof fn lemma_v6_inj(a: Ipv6Address, b: Ipv6Address) requires a.v() == b.v() ensures a == b {}
pub open spec fn v6_groups(a: Ipv6Address) -> Seq<bool> { a.bits() }
impl AddrModel for Ipv4Address {
    open spec fn nbytes() -> nat { 4 }
    open spec fn bits(self) -> Seq<bool> { u32_bits(self.addr_value) }
    open spec fn from_bits(s: Seq<bool>) -> Self { Ipv4Address { addr_value: val(s) as u32 } }
}
impl AddrModel for Ipv6Address {
    open spec fn nbytes() -> nat { 16 }
    open spec fn bits(self) -> Seq<bool> { u64_bits(self.top_half) + u64_bits(self.bottom_half) }
    open spec fn from_bits(s: Seq<bool>) -> Self { Ipv6Address { top_half: val(s.subrange(0, 64)) as u64, bottom_half: val(s.subrange(64, 128)) as u64 } }
}
impl BitAndSpecImpl for Ipv4Address {
    open spec fn obeys_bitand_spec() -> bool { true }
    open spec fn bitand_req(self, rhs: Self) -> bool { true }
    open spec fn bitand_spec(self, rhs: Self) -> Self { Ipv4Address { addr_value: self.addr_value & rhs.addr_value } }
}
impl BitOrSpecImpl for Ipv4Address {
    open spec fn obeys_bitor_spec() -> bool { true }
    open spec fn bitor_req(self, rhs: Self) -> bool { true }
    open spec fn bitor_spec(self, rhs: Self) -> Self { Ipv4Address { addr_value: self.addr_value | rhs.addr_value } }
}
impl BitXorSpecImpl for Ipv4Address {
    open spec fn obeys_bitxor_spec() -> bool { true }
    open spec fn bitxor_req(self, rhs: Self) -> bool { true }
    open spec fn bitxor_spec(self, rhs: Self) -> Self { Ipv4Address { addr_value: self.addr_value ^ rhs.addr_value } }
}
impl PartialEqSpecImpl for Ipv4Address {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, other: &Self) -> bool { *self == *other }
}
impl PartialOrdSpecImpl for Ipv4Address {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, other: &Self) -> Option<Ordering> { Some(cmp_nat(val(self.bits()), val(other.bits()))) }
}
impl OrdSpecImpl for Ipv4Address {
    open spec fn obeys_cmp_spec() -> bool { true }
    open spec fn cmp_spec(&self, other: &Self) -> Ordering { cmp_nat(val(self.bits()), val(other.bits())) }
}
impl BitAndSpecImpl for Ipv6Address {
    open spec fn obeys_bitand_spec() -> bool { true }
    open spec fn bitand_req(self, rhs: Self) -> bool { true }
    open spec fn bitand_spec(self, rhs: Self) -> Self { Ipv6Address { top_half: self.top_half & rhs.top_half, bottom_half: self.bottom_half & rhs.bottom_half } }
}
impl BitOrSpecImpl for Ipv6Address {
    open spec fn obeys_bitor_spec() -> bool { true }
    open spec fn bitor_req(self, rhs: Self) -> bool { true }
    open spec fn bitor_spec(self, rhs: Self) -> Self { Ipv6Address { top_half: self.top_half | rhs.top_half, bottom_half: self.bottom_half | rhs.bottom_half } }
}
impl BitXorSpecImpl for Ipv6Address {
    open spec fn obeys_bitxor_spec() -> bool { true }
    open spec fn bitxor_req(self, rhs: Self) -> bool { true }
    open spec fn bitxor_spec(self, rhs: Self) -> Self { Ipv6Address { top_half: self.top_half ^ rhs.top_half, bottom_half: self.bottom_half ^ rhs.bottom_half } }
}
impl PartialEqSpecImpl for Ipv6Address {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, other: &Self) -> bool { *self == *other }
}
impl PartialOrdSpecImpl for Ipv6Address {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, other: &Self) -> Option<Ordering> { Some(cmp_nat(val(self.bits()), val(other.bits()))) }
}
impl OrdSpecImpl for Ipv6Address {
    open spec fn obeys_cmp_spec() -> bool { true }
    open spec fn cmp_spec(&self, other: &Self) -> Ordering { cmp_nat(val(self.bits()), val(other.bits())) }
}


%trait addr::IpAddress + AddrModel
    proof fn laws() ensures lawful::<Self>();
%impl addr::Ipv4Address:IpAddress
    proof fn laws() {
        assert forall|a: Self, b: Self| #![trigger a.bits(), b.bits()] a.bits() =~= b.bits() implies a == b by { a.lemma(); b.lemma(); }
        assert forall|s: Seq<bool>| s.len() == 32 implies (#[trigger] Self::from_bits(s)).bits() == s by { lemma_u32_of_val(s); }
        assert forall|a: Self, b: Self| (#[trigger] BitAndSpec::bitand_spec(a, b)).bits() == and_bits(a.bits(), b.bits()) by { lemma_u32_and(a.addr_value, b.addr_value); }
        assert forall|a: Self, b: Self| (#[trigger] BitOrSpec::bitor_spec(a, b)).bits() == or_bits(a.bits(), b.bits()) by { lemma_u32_or(a.addr_value, b.addr_value); }
        assert forall|a: Self, b: Self| (#[trigger] BitXorSpec::bitxor_spec(a, b)).bits() == xor_bits(a.bits(), b.bits()) by { lemma_u32_xor(a.addr_value, b.addr_value); }
    }
%impl addr::Ipv6Address:IpAddress
    proof fn laws() {
        assert forall|a: Self, b: Self| #![trigger a.bits(), b.bits()] a.bits() =~= b.bits() implies a == b by { a.lemma(); b.lemma(); lemma_v6_inj(a, b); }
        assert forall|s: Seq<bool>| s.len() == 128 implies (#[trigger] Self::from_bits(s)).bits() == s by { lemma_u64_of_val(s.subrange(0, 64)); lemma_u64_of_val(s.subrange(64, 128)); assert(s =~= s.subrange(0, 64) + s.subrange(64, 128)); }
        assert forall|a: Self, b: Self| (#[trigger] BitAndSpec::bitand_spec(a, b)).bits() == and_bits(a.bits(), b.bits()) by { lemma_u64_and(a.top_half, b.top_half); lemma_u64_and(a.bottom_half, b.bottom_half); assert(BitAndSpec::bitand_spec(a, b).bits() =~= and_bits(a.bits(), b.bits())); }
        assert forall|a: Self, b: Self| (#[trigger] BitOrSpec::bitor_spec(a, b)).bits() == or_bits(a.bits(), b.bits()) by { lemma_u64_or(a.top_half, b.top_half); lemma_u64_or(a.bottom_half, b.bottom_half); assert(BitOrSpec::bitor_spec(a, b).bits() =~= or_bits(a.bits(), b.bits())); }
        assert forall|a: Self, b: Self| (#[trigger] BitXorSpec::bitxor_spec(a, b)).bits() == xor_bits(a.bits(), b.bits()) by { lemma_u64_xor(a.top_half, b.top_half); lemma_u64_xor(a.bottom_half, b.bottom_half); assert(BitXorSpec::bitxor_spec(a, b).bits() =~= xor_bits(a.bits(), b.bits())); }
    }

%fn addr::IpAddress::byte_count
    ensures ret == Self::nbytes()
%fn addr::IpAddress::count_ones
    ensures ret == ones(self.bits())
%fn addr::IpAddress::count_zeros
    ensures ret == zeros(self.bits())
%fn addr::IpAddress::to_bytes
    ensures ret@.len() == Self::nbytes(), bytes_bits(ret@) == self.bits()
%fn addr::IpAddress::from_bytes(bytes)
    ensures ret is Some <==> bytes@.len() == Self::nbytes(), ret is Some ==> ret->0.bits() == bytes_bits(bytes@)
%fn addr::IpAddress::bitwise_negate
    ensures ret.bits() == not_bits(self.bits())
%fn addr::IpAddress::add_addr(other)
    ensures
        ret is Some <==> val(self.bits()) + val(other.bits()) < pow2(8 * Self::nbytes()),
        ret is Some ==> val(ret->0.bits()) == val(self.bits()) + val(other.bits())
%fn addr::IpAddress::add_offset(offset)
    ensures
        ret is Some <==> 0 <= val(self.bits()) + offset < pow2(8 * Self::nbytes()),
        ret is Some ==> val(ret->0.bits()) == val(self.bits()) + offset
%fn addr::IpAddress::subtract_addr(other)
    ensures
        ret is Some <==> val(self.bits()) >= val(other.bits()),
        ret is Some ==> val(ret->0.bits()) == val(self.bits()) - val(other.bits())
%fn addr::IpAddress::subtract_offset(offset)
    ensures
        ret is Some <==> 0 <= val(self.bits()) - offset < pow2(8 * Self::nbytes()),
        ret is Some ==> val(ret->0.bits()) == val(self.bits()) - offset

%fn addr::IPV4_ZERO
    ensures IPV4_ZERO.addr_value == 0
%fn addr::IPV6_ZERO
    ensures IPV6_ZERO.top_half == 0, IPV6_ZERO.bottom_half == 0

%# IPv4
%fn addr::Ipv4Address::new(addr_value)
    ensures ret.addr_value == addr_value
%fn Ipv4Address::partial_cmp
%entry
    proof { self.lemma(); other.lemma(); }
%fn Ipv4Address::cmp
%entry
    proof { self.lemma(); other.lemma(); }
%fn addr::Ipv4Address::add_internal(addr64, offset64)
    requires -0x1_0000_0000 <= addr64 <= 0x1_0000_0000, -0x1_0000_0000 <= offset64 <= 0x1_0000_0000
    ensures
        ret is Some <==> 0 <= addr64 + offset64 < 0x1_0000_0000,
        ret is Some ==> ret->0.addr_value == addr64 + offset64
%fn addr::Ipv4Address::to_bytes
%entry
    proof { lemma_u32_to_bytes(self.addr_value); let v = self.addr_value; }
%tail
    proof { assert(ret@ =~= seq![((self.addr_value >> 24) & 0xFF) as u8, ((self.addr_value >> 16) & 0xFF) as u8, ((self.addr_value >> 8) & 0xFF) as u8, ((self.addr_value >> 0) & 0xFF) as u8]); }
%fn addr::Ipv4Address::from_bytes(bytes)
%entry
    proof { if bytes.len() == 4 { lemma_u32_from_bytes(bytes[0], bytes[1], bytes[2], bytes[3]); assert(bytes@ =~= seq![bytes[0], bytes[1], bytes[2], bytes[3]]); } }
%fn addr::Ipv4Address::bitwise_negate
%entry
    proof { lemma_u32_not(self.addr_value); }
%fn addr::Ipv4Address::add_addr(other)
%entry
    proof { self.lemma(); other.lemma(); assert forall|r: Ipv4Address| val(#[trigger] r.bits()) == r.addr_value by { r.lemma(); } }
%fn addr::Ipv4Address::subtract_addr(other)
%entry
    proof { self.lemma(); other.lemma(); assert forall|r: Ipv4Address| val(#[trigger] r.bits()) == r.addr_value by { r.lemma(); } }
%fn addr::Ipv4Address::add_offset(offset)
%entry
    proof { self.lemma(); assert forall|r: Ipv4Address| val(#[trigger] r.bits()) == r.addr_value by { r.lemma(); } }
%fn addr::Ipv4Address::subtract_offset(offset)
%entry
    proof { self.lemma(); assert forall|r: Ipv4Address| val(#[trigger] r.bits()) == r.addr_value by { r.lemma(); } }

%# IPv6
%fn addr::Ipv6Address::new(top_half, bottom_half)
    ensures ret.top_half == top_half, ret.bottom_half == bottom_half
%fn Ipv6Address::partial_cmp
%entry
    proof { self.lemma(); other.lemma(); }
%fn Ipv6Address::cmp
%entry
    proof { self.lemma(); other.lemma(); }
%fn addr::Ipv6Address::add_internal(addrtop64, addrbot64, offtop64, offbot64)
    ensures
        ret is Some <==> addrtop64 * 0x1_0000_0000_0000_0000 + addrbot64 + offtop64 * 0x1_0000_0000_0000_0000 + offbot64 < 0x1_0000_0000_0000_0000 * 0x1_0000_0000_0000_0000,
        ret is Some ==> ret->0.v() == addrtop64 * 0x1_0000_0000_0000_0000 + addrbot64 + offtop64 * 0x1_0000_0000_0000_0000 + offbot64
%entry
    proof { lemma_joined(addrtop64, addrbot64); lemma_joined(offtop64, offbot64); assert forall|x: u128| x == (#[verifier::truncate] (#[trigger] (x >> 64) as u64)) * 0x1_0000_0000_0000_0000 + (#[verifier::truncate] (x as u64)) && x >> 64 <= u64::MAX && x & 0xFFFF_FFFF_FFFF_FFFF == (#[verifier::truncate] (x as u64)) as u128 by { lemma_halves(x); } }
%fn addr::Ipv6Address::sub_internal(addrtop64, addrbot64, offtop64, offbot64)
    ensures
        ret is Some <==> addrtop64 * 0x1_0000_0000_0000_0000 + addrbot64 >= offtop64 * 0x1_0000_0000_0000_0000 + offbot64,
        ret is Some ==> ret->0.v() == addrtop64 * 0x1_0000_0000_0000_0000 + addrbot64 - (offtop64 * 0x1_0000_0000_0000_0000 + offbot64)
%entry
    proof { lemma_joined(addrtop64, addrbot64); lemma_joined(offtop64, offbot64); assert forall|x: u128| x == (#[verifier::truncate] (#[trigger] (x >> 64) as u64)) * 0x1_0000_0000_0000_0000 + (#[verifier::truncate] (x as u64)) && x >> 64 <= u64::MAX && x & 0xFFFF_FFFF_FFFF_FFFF == (#[verifier::truncate] (x as u64)) as u128 by { lemma_halves(x); } }
%fn addr::Ipv6Address::count_ones
%entry
    proof { lemma_ones_append(u64_bits(self.top_half), u64_bits(self.bottom_half)); lemma_ones_le(u64_bits(self.top_half)); lemma_ones_le(u64_bits(self.bottom_half)); }
%fn addr::Ipv6Address::count_zeros
%entry
    proof { lemma_ones_append(u64_bits(self.top_half), u64_bits(self.bottom_half)); lemma_ones_le(u64_bits(self.top_half)); lemma_ones_le(u64_bits(self.bottom_half)); }
%fn addr::Ipv6Address::to_chunks
    ensures ret@.len() == 8, groups_bits(ret@) == self.bits()
%entry
    proof { lemma_u64_to_groups(self.top_half); lemma_u64_to_groups(self.bottom_half); }
%tail
    proof {
        let t = self.top_half; let b = self.bottom_half;
        let x = seq![((t >> 48) & 0xFFFF) as u16, ((t >> 32) & 0xFFFF) as u16, ((t >> 16) & 0xFFFF) as u16, ((t >> 0) & 0xFFFF) as u16];
        let y = seq![((b >> 48) & 0xFFFF) as u16, ((b >> 32) & 0xFFFF) as u16, ((b >> 16) & 0xFFFF) as u16, ((b >> 0) & 0xFFFF) as u16];
        assert(ret@ =~= x + y);
        lemma_groups_append(x, y);
    }
%fn addr::Ipv6Address::from_chunks(chunks)
    ensures ret is Some <==> chunks@.len() == 8, ret is Some ==> ret->0.bits() == groups_bits(chunks@)
%entry
    proof { if chunks.len() == 8 {
        lemma_u64_from_groups(chunks[0], chunks[1], chunks[2], chunks[3]);
        lemma_u64_from_groups(chunks[4], chunks[5], chunks[6], chunks[7]);
        let x = seq![chunks[0], chunks[1], chunks[2], chunks[3]]; let y = seq![chunks[4], chunks[5], chunks[6], chunks[7]];
        assert(chunks@ =~= x + y);
        lemma_groups_append(x, y);
    } }
%fn addr::Ipv6Address::to_bytes
%entry
    proof { lemma_u64_to_bytes(self.top_half); lemma_u64_to_bytes(self.bottom_half); }
%tail
    proof {
        let t = self.top_half; let b = self.bottom_half;
        let x = seq![((t >> 56) & 0xFF) as u8, ((t >> 48) & 0xFF) as u8, ((t >> 40) & 0xFF) as u8, ((t >> 32) & 0xFF) as u8, ((t >> 24) & 0xFF) as u8, ((t >> 16) & 0xFF) as u8, ((t >> 8) & 0xFF) as u8, ((t >> 0) & 0xFF) as u8];
        let y = seq![((b >> 56) & 0xFF) as u8, ((b >> 48) & 0xFF) as u8, ((b >> 40) & 0xFF) as u8, ((b >> 32) & 0xFF) as u8, ((b >> 24) & 0xFF) as u8, ((b >> 16) & 0xFF) as u8, ((b >> 8) & 0xFF) as u8, ((b >> 0) & 0xFF) as u8];
        assert(ret@ =~= x + y);
        lemma_bytes_append(x, y);
    }
%fn addr::Ipv6Address::from_bytes(bytes)
%entry
    proof { if bytes.len() == 16 {
        lemma_u64_from_bytes(bytes[0], bytes[1], bytes[2], bytes[3], bytes[4], bytes[5], bytes[6], bytes[7]);
        lemma_u64_from_bytes(bytes[8], bytes[9], bytes[10], bytes[11], bytes[12], bytes[13], bytes[14], bytes[15]);
        let x = seq![bytes[0], bytes[1], bytes[2], bytes[3], bytes[4], bytes[5], bytes[6], bytes[7]]; let y = seq![bytes[8], bytes[9], bytes[10], bytes[11], bytes[12], bytes[13], bytes[14], bytes[15]];
        assert(bytes@ =~= x + y);
        lemma_bytes_append(x, y);
    } }
%fn addr::Ipv6Address::bitwise_negate
%entry
    proof { lemma_u64_not(self.top_half); lemma_u64_not(self.bottom_half); assert(not_bits(self.bits()) =~= not_bits(u64_bits(self.top_half)) + not_bits(u64_bits(self.bottom_half))); }
%fn addr::Ipv6Address::add_addr(other)
%entry
    proof { self.lemma(); other.lemma(); assert forall|r: Ipv6Address| val(#[trigger] r.bits()) == r.v() by { r.lemma(); } lemma_joined(self.top_half, self.bottom_half); lemma_joined(other.top_half, other.bottom_half); assert forall|x: u128| x == (#[verifier::truncate] (#[trigger] (x >> 64) as u64)) * 0x1_0000_0000_0000_0000 + (#[verifier::truncate] (x as u64)) && x >> 64 <= u64::MAX && x & 0xFFFF_FFFF_FFFF_FFFF == (#[verifier::truncate] (x as u64)) as u128 by { lemma_halves(x); } }
%fn addr::Ipv6Address::subtract_addr(other)
%entry
    proof { self.lemma(); other.lemma(); assert forall|r: Ipv6Address| val(#[trigger] r.bits()) == r.v() by { r.lemma(); } lemma_joined(self.top_half, self.bottom_half); lemma_joined(other.top_half, other.bottom_half); assert forall|x: u128| x == (#[verifier::truncate] (#[trigger] (x >> 64) as u64)) * 0x1_0000_0000_0000_0000 + (#[verifier::truncate] (x as u64)) && x >> 64 <= u64::MAX && x & 0xFFFF_FFFF_FFFF_FFFF == (#[verifier::truncate] (x as u64)) as u128 by { lemma_halves(x); } }
%fn addr::Ipv6Address::add_offset(offset)
%entry
    proof { self.lemma(); assert forall|r: Ipv6Address| val(#[trigger] r.bits()) == r.v() by { r.lemma(); } lemma_joined(self.top_half, self.bottom_half); assert forall|x: u128| x == (#[verifier::truncate] (#[trigger] (x >> 64) as u64)) * 0x1_0000_0000_0000_0000 + (#[verifier::truncate] (x as u64)) && x >> 64 <= u64::MAX && x & 0xFFFF_FFFF_FFFF_FFFF == (#[verifier::truncate] (x as u64)) as u128 by { lemma_halves(x); } }
%fn addr::Ipv6Address::subtract_offset(offset)
%entry
    proof { self.lemma(); assert forall|r: Ipv6Address| val(#[trigger] r.bits()) == r.v() by { r.lemma(); } lemma_joined(self.top_half, self.bottom_half); assert forall|x: u128| x == (#[verifier::truncate] (#[trigger] (x >> 64) as u64)) * 0x1_0000_0000_0000_0000 + (#[verifier::truncate] (x as u64)) && x >> 64 <= u64::MAX && x & 0xFFFF_FFFF_FFFF_FFFF == (#[verifier::truncate] (x as u64)) as u128 by { lemma_halves(x); } }
