%# Assumed contracts of the num-bigint crate (trusted; the crate itself is not verified).
%module root
pub mod num_bigint {
    use vstd::prelude::*;
    use vstd::std_specs::ops::*;
    use vstd::std_specs::cmp::*;
    use std::cmp::Ordering;
    #[verifier::external_body]
    pub struct BigUint { x: () }
    #[verifier::external_body]
    pub struct BigInt { x: () }
    impl BigUint { pub uninterp spec fn view(&self) -> nat; }
    impl BigInt { pub uninterp spec fn view(&self) -> int; }
    impl std::fmt::Display for BigInt {
        #[verifier::external_body]
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { unimplemented!() }
    }
    pub axiom fn axiom_shown_bigint(x: &BigInt) ensures x@ >= 0 ==> crate::out::shown::<BigInt>(x) == crate::text::dec(x@ as nat);
    impl From<u32> for BigUint {
        #[verifier::external_body]
        fn from(v: u32) -> (ret: Self) ensures ret@ == v { unimplemented!() }
    }
    impl From<BigUint> for BigInt {
        #[verifier::external_body]
        fn from(v: BigUint) -> (ret: Self) ensures ret@ == v@ { unimplemented!() }
    }
    impl From<i32> for BigInt {
        #[verifier::external_body]
        fn from(v: i32) -> (ret: Self) ensures ret@ == v { unimplemented!() }
    }
    #[verifier::external_body]
    pub fn into_bigint(v: BigUint) -> (ret: BigInt) ensures ret@ == v@ { unimplemented!() }
    /// x *= &y
    #[verifier::external_body]
    pub fn mul_assign(x: &mut BigUint, y: &BigUint) ensures final(x)@ == old(x)@ * y@ { unimplemented!() }
    impl std::ops::Sub<i32> for BigInt {
        type Output = BigInt;
        #[verifier::external_body]
        fn sub(self, o: i32) -> (ret: BigInt) ensures ret@ == self@ - o { unimplemented!() }
    }
    impl SubSpecImpl<i32> for BigInt {
        open spec fn obeys_sub_spec() -> bool { false }
        open spec fn sub_req(self, rhs: i32) -> bool { true }
        uninterp spec fn sub_spec(self, rhs: i32) -> BigInt;
    }
    impl std::ops::Sub<BigInt> for BigInt {
        type Output = BigInt;
        #[verifier::external_body]
        fn sub(self, o: BigInt) -> (ret: BigInt) ensures ret@ == self@ - o@ { unimplemented!() }
    }
    impl SubSpecImpl<BigInt> for BigInt {
        open spec fn obeys_sub_spec() -> bool { false }
        open spec fn sub_req(self, rhs: BigInt) -> bool { true }
        uninterp spec fn sub_spec(self, rhs: BigInt) -> BigInt;
    }
    #[verifier::external_body]
    pub struct ParseBigIntError { x: () }
    impl std::fmt::Display for ParseBigIntError {
        #[verifier::external_body]
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { unimplemented!() }
    }
    pub uninterp spec fn number(s: Seq<char>) -> Option<BigInt>;
    impl crate::std_contracts::FromStrSpecImpl for BigInt { open spec fn meaning(s: Seq<char>) -> Option<BigInt> { number(s) } }
    impl std::str::FromStr for BigInt {
        type Err = ParseBigIntError;
        #[verifier::external_body]
        fn from_str(s: &str) -> Result<BigInt, ParseBigIntError> { unimplemented!() }
    }
    impl Clone for BigInt {
        #[verifier::external_body]
        fn clone(&self) -> (ret: BigInt) ensures ret@ == self@ { unimplemented!() }
    }
    impl PartialEq for BigInt {
        #[verifier::external_body]
        fn eq(&self, o: &BigInt) -> (ret: bool) { unimplemented!() }
    }
    impl Eq for BigInt {}
    impl PartialOrd for BigInt {
        #[verifier::external_body]
        fn partial_cmp(&self, o: &BigInt) -> (ret: Option<Ordering>) { unimplemented!() }
    }
    impl Ord for BigInt {
        #[verifier::external_body]
        fn cmp(&self, o: &BigInt) -> (ret: Ordering) { unimplemented!() }
    }
    pub open spec fn cmp_int(a: int, b: int) -> Ordering { if a < b { Ordering::Less } else if a == b { Ordering::Equal } else { Ordering::Greater } }
    impl PartialEqSpecImpl for BigInt {
        open spec fn obeys_eq_spec() -> bool { true }
        open spec fn eq_spec(&self, other: &Self) -> bool { self@ == other@ }
    }
    impl PartialOrdSpecImpl for BigInt {
        open spec fn obeys_partial_cmp_spec() -> bool { true }
        open spec fn partial_cmp_spec(&self, other: &Self) -> Option<Ordering> { Some(cmp_int(self@, other@)) }
    }
    impl OrdSpecImpl for BigInt {
        open spec fn obeys_cmp_spec() -> bool { true }
        open spec fn cmp_spec(&self, other: &Self) -> Ordering { cmp_int(self@, other@) }
    }
}
