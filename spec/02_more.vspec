%# Assumed contracts of standard library functions that the pinned tree does not use: a line is taken into the verified
%# text only if the sources mention the name after @if (so that a change that uses one of them can still be decided).
%module root
pub mod std_more {
    use vstd::prelude::*;
    use std::cmp::Ordering;
    use vstd::std_specs::cmp::*;
    pub assume_specification [u8::from_str_radix] (s: &str, radix: u32) -> (ret: Result<u8, std::num::ParseIntError>) requires 2 <= radix <= 36 ensures ret is Ok <==> crate::text::integer(s@, radix as nat, 0xff) is Some, ret is Ok ==> crate::text::integer(s@, radix as nat, 0xff) == Some(ret->Ok_0 as nat); //@if u8::from_str_radix
    pub assume_specification [u32::from_str_radix] (s: &str, radix: u32) -> (ret: Result<u32, std::num::ParseIntError>) requires 2 <= radix <= 36 ensures ret is Ok <==> crate::text::integer(s@, radix as nat, 0xffff_ffff) is Some, ret is Ok ==> crate::text::integer(s@, radix as nat, 0xffff_ffff) == Some(ret->Ok_0 as nat); //@if u32::from_str_radix
    pub assume_specification [u64::from_str_radix] (s: &str, radix: u32) -> (ret: Result<u64, std::num::ParseIntError>) requires 2 <= radix <= 36 ensures ret is Ok <==> crate::text::integer(s@, radix as nat, 0xffff_ffff_ffff_ffff) is Some, ret is Ok ==> crate::text::integer(s@, radix as nat, 0xffff_ffff_ffff_ffff) == Some(ret->Ok_0 as nat); //@if u64::from_str_radix
    pub assume_specification [u128::from_str_radix] (s: &str, radix: u32) -> (ret: Result<u128, std::num::ParseIntError>) requires 2 <= radix <= 36 ensures ret is Ok <==> crate::text::integer(s@, radix as nat, u128::MAX as nat) is Some, ret is Ok ==> crate::text::integer(s@, radix as nat, u128::MAX as nat) == Some(ret->Ok_0 as nat); //@if u128::from_str_radix
    pub assume_specification [usize::from_str_radix] (s: &str, radix: u32) -> (ret: Result<usize, std::num::ParseIntError>) requires 2 <= radix <= 36 ensures ret is Ok <==> crate::text::integer(s@, radix as nat, usize::MAX as nat) is Some, ret is Ok ==> crate::text::integer(s@, radix as nat, usize::MAX as nat) == Some(ret->Ok_0 as nat); //@if usize::from_str_radix
    pub assume_specification [u8::overflowing_add] (x: u8, y: u8) -> (r: (u8, bool)) ensures r.1 == (x + y > u8::MAX), r.0 == if x + y > u8::MAX { x + y - (u8::MAX as int + 1) } else { x + y }; //@if overflowing_add
    pub assume_specification [u8::overflowing_sub] (x: u8, y: u8) -> (r: (u8, bool)) ensures r.1 == (x < y), r.0 == if x < y { x - y + (u8::MAX as int + 1) } else { x - y }; //@if overflowing_sub
    pub assume_specification [u8::abs_diff] (x: u8, y: u8) -> (r: u8) ensures r == if x < y { y - x } else { x - y }; //@if abs_diff
    pub assume_specification [u8::checked_shl] (x: u8, n: u32) -> (r: Option<u8>) ensures r == if n < 8 { Some(x << n) } else { None }; //@if checked_shl
    pub assume_specification [u8::checked_shr] (x: u8, n: u32) -> (r: Option<u8>) ensures r == if n < 8 { Some(x >> n) } else { None }; //@if checked_shr
    pub assume_specification [u8::wrapping_neg] (x: u8) -> (r: u8) ensures r == if x == 0 { 0 } else { (u8::MAX as int + 1) - x }; //@if wrapping_neg
    pub assume_specification [u8::div_ceil] (x: u8, y: u8) -> (r: u8) requires y != 0 ensures r == (x + y - 1) / (y as int); //@if div_ceil
    pub assume_specification [u8::is_power_of_two] (x: u8) -> (r: bool) ensures r == (x != 0 && x & ((x - 1) as u8) == 0); //@if is_power_of_two
    pub assume_specification [u8::next_multiple_of] (x: u8, y: u8) -> (r: u8) requires y != 0, (x + y - 1) / (y as int) * y <= u8::MAX ensures r == (x + y - 1) / (y as int) * y; //@if next_multiple_of
    pub assume_specification [u16::overflowing_add] (x: u16, y: u16) -> (r: (u16, bool)) ensures r.1 == (x + y > u16::MAX), r.0 == if x + y > u16::MAX { x + y - (u16::MAX as int + 1) } else { x + y }; //@if overflowing_add
    pub assume_specification [u16::overflowing_sub] (x: u16, y: u16) -> (r: (u16, bool)) ensures r.1 == (x < y), r.0 == if x < y { x - y + (u16::MAX as int + 1) } else { x - y }; //@if overflowing_sub
    pub assume_specification [u16::abs_diff] (x: u16, y: u16) -> (r: u16) ensures r == if x < y { y - x } else { x - y }; //@if abs_diff
    pub assume_specification [u16::checked_shl] (x: u16, n: u32) -> (r: Option<u16>) ensures r == if n < 16 { Some(x << n) } else { None }; //@if checked_shl
    pub assume_specification [u16::checked_shr] (x: u16, n: u32) -> (r: Option<u16>) ensures r == if n < 16 { Some(x >> n) } else { None }; //@if checked_shr
    pub assume_specification [u16::wrapping_neg] (x: u16) -> (r: u16) ensures r == if x == 0 { 0 } else { (u16::MAX as int + 1) - x }; //@if wrapping_neg
    pub assume_specification [u16::div_ceil] (x: u16, y: u16) -> (r: u16) requires y != 0 ensures r == (x + y - 1) / (y as int); //@if div_ceil
    pub assume_specification [u16::is_power_of_two] (x: u16) -> (r: bool) ensures r == (x != 0 && x & ((x - 1) as u16) == 0); //@if is_power_of_two
    pub assume_specification [u16::next_multiple_of] (x: u16, y: u16) -> (r: u16) requires y != 0, (x + y - 1) / (y as int) * y <= u16::MAX ensures r == (x + y - 1) / (y as int) * y; //@if next_multiple_of
    pub assume_specification [u32::overflowing_add] (x: u32, y: u32) -> (r: (u32, bool)) ensures r.1 == (x + y > u32::MAX), r.0 == if x + y > u32::MAX { x + y - (u32::MAX as int + 1) } else { x + y }; //@if overflowing_add
    pub assume_specification [u32::overflowing_sub] (x: u32, y: u32) -> (r: (u32, bool)) ensures r.1 == (x < y), r.0 == if x < y { x - y + (u32::MAX as int + 1) } else { x - y }; //@if overflowing_sub
    pub assume_specification [u32::abs_diff] (x: u32, y: u32) -> (r: u32) ensures r == if x < y { y - x } else { x - y }; //@if abs_diff
    pub assume_specification [u32::checked_shl] (x: u32, n: u32) -> (r: Option<u32>) ensures r == if n < 32 { Some(x << n) } else { None }; //@if checked_shl
    pub assume_specification [u32::checked_shr] (x: u32, n: u32) -> (r: Option<u32>) ensures r == if n < 32 { Some(x >> n) } else { None }; //@if checked_shr
    pub assume_specification [u32::wrapping_neg] (x: u32) -> (r: u32) ensures r == if x == 0 { 0 } else { (u32::MAX as int + 1) - x }; //@if wrapping_neg
    pub assume_specification [u32::div_ceil] (x: u32, y: u32) -> (r: u32) requires y != 0 ensures r == (x + y - 1) / (y as int); //@if div_ceil
    pub assume_specification [u32::is_power_of_two] (x: u32) -> (r: bool) ensures r == (x != 0 && x & ((x - 1) as u32) == 0); //@if is_power_of_two
    pub assume_specification [u32::next_multiple_of] (x: u32, y: u32) -> (r: u32) requires y != 0, (x + y - 1) / (y as int) * y <= u32::MAX ensures r == (x + y - 1) / (y as int) * y; //@if next_multiple_of
    pub assume_specification [u64::overflowing_add] (x: u64, y: u64) -> (r: (u64, bool)) ensures r.1 == (x + y > u64::MAX), r.0 == if x + y > u64::MAX { x + y - (u64::MAX as int + 1) } else { x + y }; //@if overflowing_add
    pub assume_specification [u64::overflowing_sub] (x: u64, y: u64) -> (r: (u64, bool)) ensures r.1 == (x < y), r.0 == if x < y { x - y + (u64::MAX as int + 1) } else { x - y }; //@if overflowing_sub
    pub assume_specification [u64::abs_diff] (x: u64, y: u64) -> (r: u64) ensures r == if x < y { y - x } else { x - y }; //@if abs_diff
    pub assume_specification [u64::checked_shl] (x: u64, n: u32) -> (r: Option<u64>) ensures r == if n < 64 { Some(x << n) } else { None }; //@if checked_shl
    pub assume_specification [u64::checked_shr] (x: u64, n: u32) -> (r: Option<u64>) ensures r == if n < 64 { Some(x >> n) } else { None }; //@if checked_shr
    pub assume_specification [u64::wrapping_neg] (x: u64) -> (r: u64) ensures r == if x == 0 { 0 } else { (u64::MAX as int + 1) - x }; //@if wrapping_neg
    pub assume_specification [u64::div_ceil] (x: u64, y: u64) -> (r: u64) requires y != 0 ensures r == (x + y - 1) / (y as int); //@if div_ceil
    pub assume_specification [u64::is_power_of_two] (x: u64) -> (r: bool) ensures r == (x != 0 && x & ((x - 1) as u64) == 0); //@if is_power_of_two
    pub assume_specification [u64::next_multiple_of] (x: u64, y: u64) -> (r: u64) requires y != 0, (x + y - 1) / (y as int) * y <= u64::MAX ensures r == (x + y - 1) / (y as int) * y; //@if next_multiple_of
    pub assume_specification [u128::overflowing_add] (x: u128, y: u128) -> (r: (u128, bool)) ensures r.1 == (x + y > u128::MAX), r.0 == if x + y > u128::MAX { x + y - (u128::MAX as int + 1) } else { x + y }; //@if overflowing_add
    pub assume_specification [u128::overflowing_sub] (x: u128, y: u128) -> (r: (u128, bool)) ensures r.1 == (x < y), r.0 == if x < y { x - y + (u128::MAX as int + 1) } else { x - y }; //@if overflowing_sub
    pub assume_specification [u128::abs_diff] (x: u128, y: u128) -> (r: u128) ensures r == if x < y { y - x } else { x - y }; //@if abs_diff
    pub assume_specification [u128::checked_shl] (x: u128, n: u32) -> (r: Option<u128>) ensures r == if n < 128 { Some(x << n) } else { None }; //@if checked_shl
    pub assume_specification [u128::checked_shr] (x: u128, n: u32) -> (r: Option<u128>) ensures r == if n < 128 { Some(x >> n) } else { None }; //@if checked_shr
    pub assume_specification [u128::wrapping_neg] (x: u128) -> (r: u128) ensures r == if x == 0 { 0 } else { (u128::MAX as int + 1) - x }; //@if wrapping_neg
    pub assume_specification [u128::div_ceil] (x: u128, y: u128) -> (r: u128) requires y != 0 ensures r == (x + y - 1) / (y as int); //@if div_ceil
    pub assume_specification [u128::is_power_of_two] (x: u128) -> (r: bool) ensures r == (x != 0 && x & ((x - 1) as u128) == 0); //@if is_power_of_two
    pub assume_specification [u128::next_multiple_of] (x: u128, y: u128) -> (r: u128) requires y != 0, (x + y - 1) / (y as int) * y <= u128::MAX ensures r == (x + y - 1) / (y as int) * y; //@if next_multiple_of
    pub assume_specification [usize::overflowing_add] (x: usize, y: usize) -> (r: (usize, bool)) ensures r.1 == (x + y > usize::MAX), r.0 == if x + y > usize::MAX { x + y - (usize::MAX as int + 1) } else { x + y }; //@if overflowing_add
    pub assume_specification [usize::overflowing_sub] (x: usize, y: usize) -> (r: (usize, bool)) ensures r.1 == (x < y), r.0 == if x < y { x - y + (usize::MAX as int + 1) } else { x - y }; //@if overflowing_sub
    pub assume_specification [usize::abs_diff] (x: usize, y: usize) -> (r: usize) ensures r == if x < y { y - x } else { x - y }; //@if abs_diff
    pub assume_specification [usize::checked_shl] (x: usize, n: u32) -> (r: Option<usize>) ensures r == if n < 64 { Some(x << n) } else { None }; //@if checked_shl
    pub assume_specification [usize::checked_shr] (x: usize, n: u32) -> (r: Option<usize>) ensures r == if n < 64 { Some(x >> n) } else { None }; //@if checked_shr
    pub assume_specification [usize::wrapping_neg] (x: usize) -> (r: usize) ensures r == if x == 0 { 0 } else { (usize::MAX as int + 1) - x }; //@if wrapping_neg
    pub assume_specification [usize::div_ceil] (x: usize, y: usize) -> (r: usize) requires y != 0 ensures r == (x + y - 1) / (y as int); //@if div_ceil
    pub assume_specification [usize::is_power_of_two] (x: usize) -> (r: bool) ensures r == (x != 0 && x & ((x - 1) as usize) == 0); //@if is_power_of_two
    pub assume_specification [usize::next_multiple_of] (x: usize, y: usize) -> (r: usize) requires y != 0, (x + y - 1) / (y as int) * y <= usize::MAX ensures r == (x + y - 1) / (y as int) * y; //@if next_multiple_of
    pub assume_specification [i8::wrapping_neg] (x: i8) -> (r: i8) ensures r == if x == i8::MIN { x as int } else { -x }; //@if wrapping_neg
    pub assume_specification [i8::checked_neg] (x: i8) -> (r: Option<i8>) ensures r == if x == i8::MIN { None } else { Some((-x) as i8) }; //@if checked_neg
    pub assume_specification [i16::wrapping_neg] (x: i16) -> (r: i16) ensures r == if x == i16::MIN { x as int } else { -x }; //@if wrapping_neg
    pub assume_specification [i16::checked_neg] (x: i16) -> (r: Option<i16>) ensures r == if x == i16::MIN { None } else { Some((-x) as i16) }; //@if checked_neg
    pub assume_specification [i32::wrapping_neg] (x: i32) -> (r: i32) ensures r == if x == i32::MIN { x as int } else { -x }; //@if wrapping_neg
    pub assume_specification [i32::checked_neg] (x: i32) -> (r: Option<i32>) ensures r == if x == i32::MIN { None } else { Some((-x) as i32) }; //@if checked_neg
    pub assume_specification [i64::wrapping_neg] (x: i64) -> (r: i64) ensures r == if x == i64::MIN { x as int } else { -x }; //@if wrapping_neg
    pub assume_specification [i64::checked_neg] (x: i64) -> (r: Option<i64>) ensures r == if x == i64::MIN { None } else { Some((-x) as i64) }; //@if checked_neg
    pub assume_specification [isize::wrapping_neg] (x: isize) -> (r: isize) ensures r == if x == isize::MIN { x as int } else { -x }; //@if wrapping_neg
    pub assume_specification [isize::checked_neg] (x: isize) -> (r: Option<isize>) ensures r == if x == isize::MIN { None } else { Some((-x) as isize) }; //@if checked_neg
    pub assume_specification [u32::overflowing_add_signed] (x: u32, y: i32) -> (r: (u32, bool)) ensures r.1 == (x + y < 0 || x + y > u32::MAX), r.0 == if x + y < 0 { x + y + (u32::MAX as int + 1) } else if x + y > u32::MAX { x + y - (u32::MAX as int + 1) } else { x + y }; //@if overflowing_add_signed
    pub assume_specification [u64::overflowing_add_signed] (x: u64, y: i64) -> (r: (u64, bool)) ensures r.1 == (x + y < 0 || x + y > u64::MAX), r.0 == if x + y < 0 { x + y + (u64::MAX as int + 1) } else if x + y > u64::MAX { x + y - (u64::MAX as int + 1) } else { x + y }; //@if overflowing_add_signed
    impl BeBytes for u16 { type Bytes = [u8; 2]; open spec fn be(x: u16) -> Seq<u8> { seq![(x >> 8) as u8, (x >> 0) as u8] } open spec fn arr(b: [u8; 2]) -> Seq<u8> { b@ } #[verifier::external_body] fn to_be(self) -> (r: [u8; 2]) { self.to_be_bytes() } } //@if to_be_bytes
    #[verifier::external_body] pub fn u16_from_be(b: [u8; 2]) -> (r: u16) ensures r == ((b@[0] as u16) << 8) | ((b@[1] as u16) << 0) { u16::from_be_bytes(b) } //@if from_be_bytes
    impl BeBytes for u32 { type Bytes = [u8; 4]; open spec fn be(x: u32) -> Seq<u8> { seq![(x >> 24) as u8, (x >> 16) as u8, (x >> 8) as u8, (x >> 0) as u8] } open spec fn arr(b: [u8; 4]) -> Seq<u8> { b@ } #[verifier::external_body] fn to_be(self) -> (r: [u8; 4]) { self.to_be_bytes() } } //@if to_be_bytes
    #[verifier::external_body] pub fn u32_from_be(b: [u8; 4]) -> (r: u32) ensures r == ((b@[0] as u32) << 24) | ((b@[1] as u32) << 16) | ((b@[2] as u32) << 8) | ((b@[3] as u32) << 0) { u32::from_be_bytes(b) } //@if from_be_bytes
    impl BeBytes for u64 { type Bytes = [u8; 8]; open spec fn be(x: u64) -> Seq<u8> { seq![(x >> 56) as u8, (x >> 48) as u8, (x >> 40) as u8, (x >> 32) as u8, (x >> 24) as u8, (x >> 16) as u8, (x >> 8) as u8, (x >> 0) as u8] } open spec fn arr(b: [u8; 8]) -> Seq<u8> { b@ } #[verifier::external_body] fn to_be(self) -> (r: [u8; 8]) { self.to_be_bytes() } } //@if to_be_bytes
    #[verifier::external_body] pub fn u64_from_be(b: [u8; 8]) -> (r: u64) ensures r == ((b@[0] as u64) << 56) | ((b@[1] as u64) << 48) | ((b@[2] as u64) << 40) | ((b@[3] as u64) << 32) | ((b@[4] as u64) << 24) | ((b@[5] as u64) << 16) | ((b@[6] as u64) << 8) | ((b@[7] as u64) << 0) { u64::from_be_bytes(b) } //@if from_be_bytes
    pub trait BeBytes: Sized { type Bytes; spec fn be(x: Self) -> Seq<u8>; spec fn arr(b: Self::Bytes) -> Seq<u8>; fn to_be(self) -> (r: Self::Bytes) ensures Self::arr(r) == Self::be(self); } //@if to_be_bytes
    pub fn to_be<T: BeBytes>(x: T) -> (r: T::Bytes) ensures T::arr(r) == T::be(x) { x.to_be() } //@if to_be_bytes
    pub assume_specification <T, E> [Result::<T, E>::unwrap_or] (a: Result<T, E>, d: T) -> (r: T) ensures r == match a { Ok(x) => x, Err(_) => d }; //@if unwrap_or
    pub assume_specification <'a, T: Copy> [Option::<&'a T>::copied] (a: Option<&'a T>) -> (r: Option<T>) ensures r == match a { Some(x) => Some(*x), None => None }; //@if copied
    pub assume_specification <T, F: FnOnce(T) -> bool> [Option::<T>::is_some_and] (a: Option<T>, f: F) -> (r: bool) requires a is Some ==> call_requires(f, (a->0,)) ensures a is None ==> !r, a is Some ==> call_ensures(f, (a->0,), r); //@if is_some_and
    pub assume_specification <T, F: FnOnce(T) -> bool> [Option::<T>::is_none_or] (a: Option<T>, f: F) -> (r: bool) requires a is Some ==> call_requires(f, (a->0,)) ensures a is None ==> r, a is Some ==> call_ensures(f, (a->0,), r); //@if is_none_or
    pub assume_specification <T, E, F: FnOnce(T) -> bool> [Result::<T, E>::is_ok_and] (a: Result<T, E>, f: F) -> (r: bool) requires a is Ok ==> call_requires(f, (a->Ok_0,)) ensures a is Err ==> !r, a is Ok ==> call_ensures(f, (a->Ok_0,), r); //@if is_ok_and
    pub assume_specification <T, U, F: FnOnce(T) -> U> [Option::<T>::map_or] (a: Option<T>, d: U, f: F) -> (r: U) requires a is Some ==> call_requires(f, (a->0,)) ensures a is None ==> r == d, a is Some ==> call_ensures(f, (a->0,), r); //@if map_or
    pub assume_specification <T, U> [Option::<T>::zip] (a: Option<T>, b: Option<U>) -> (r: Option<(T, U)>) ensures r == match (a, b) { (Some(x), Some(y)) => Some((x, y)), _ => None }; //@if zip
    pub assume_specification <T, F: FnOnce() -> Option<T>> [Option::<T>::or_else] (a: Option<T>, f: F) -> (r: Option<T>) requires a is None ==> call_requires(f, ()) ensures a is Some ==> r == a, a is None ==> call_ensures(f, (), r); //@if or_else
    pub assume_specification <T: Clone> [<[T]>::to_vec] (s: &[T]) -> (r: Vec<T>) ensures r@.len() == s@.len(), forall|i: int| 0 <= i < s@.len() ==> cloned(s@[i], #[trigger] r@[i]); //@if to_vec
    pub assume_specification [Ordering::is_lt] (o: Ordering) -> (r: bool) ensures r == (o == Ordering::Less); //@if is_lt
    pub assume_specification [Ordering::is_le] (o: Ordering) -> (r: bool) ensures r == (o != Ordering::Greater); //@if is_le
    pub assume_specification [Ordering::is_gt] (o: Ordering) -> (r: bool) ensures r == (o == Ordering::Greater); //@if is_gt
    pub assume_specification [Ordering::is_ge] (o: Ordering) -> (r: bool) ensures r == (o != Ordering::Less); //@if is_ge
    pub assume_specification [Ordering::is_eq] (o: Ordering) -> (r: bool) ensures r == (o == Ordering::Equal); //@if is_eq
    pub assume_specification [Ordering::is_ne] (o: Ordering) -> (r: bool) ensures r == (o != Ordering::Equal); //@if is_ne
    pub assume_specification [Ordering::reverse] (o: Ordering) -> (r: Ordering) ensures r == match o { Ordering::Less => Ordering::Greater, Ordering::Equal => Ordering::Equal, Ordering::Greater => Ordering::Less }; //@if reverse
    pub assume_specification <T> [<[T]>::reverse] (s: &mut [T]) ensures final(s)@ == old(s)@.reverse(); //@if reverse
    pub assume_specification <T> [<[T]>::swap] (s: &mut [T], i: usize, j: usize) requires i < old(s)@.len(), j < old(s)@.len() ensures final(s)@ == old(s)@.update(i as int, old(s)@[j as int]).update(j as int, old(s)@[i as int]); //@if swap
    pub assume_specification [char::is_ascii_digit] (c: &char) -> (r: bool) ensures r == ('0' <= *c && *c <= '9'); //@if is_ascii_digit
    pub assume_specification [<u32 as core::convert::From<bool>>::from] (b: bool) -> (r: u32) ensures r == if b { 1int } else { 0 }; //@if u32::from
    pub assume_specification [<u8 as core::convert::From<bool>>::from] (b: bool) -> (r: u8) ensures r == if b { 1int } else { 0 }; //@if u8::from
    pub assume_specification [<u16 as core::convert::From<bool>>::from] (b: bool) -> (r: u16) ensures r == if b { 1int } else { 0 }; //@if u16::from
    pub assume_specification [<u64 as core::convert::From<bool>>::from] (b: bool) -> (r: u64) ensures r == if b { 1int } else { 0 }; //@if u64::from
    pub assume_specification [<usize as core::convert::From<bool>>::from] (b: bool) -> (r: usize) ensures r == if b { 1int } else { 0 }; //@if usize::from
    pub assume_specification [<i32 as core::convert::From<bool>>::from] (b: bool) -> (r: i32) ensures r == if b { 1int } else { 0 }; //@if i32::from
    pub assume_specification [<i64 as core::convert::From<bool>>::from] (b: bool) -> (r: i64) ensures r == if b { 1int } else { 0 }; //@if i64::from
    pub assume_specification [i16::is_negative] (x: i16) -> (r: bool) ensures r == (x < 0); //@if is_negative
    pub assume_specification [i16::is_positive] (x: i16) -> (r: bool) ensures r == (x > 0); //@if is_positive
    pub assume_specification [i32::is_negative] (x: i32) -> (r: bool) ensures r == (x < 0); //@if is_negative
    pub assume_specification [i32::is_positive] (x: i32) -> (r: bool) ensures r == (x > 0); //@if is_positive
    pub assume_specification [i64::is_negative] (x: i64) -> (r: bool) ensures r == (x < 0); //@if is_negative
    pub assume_specification [i64::is_positive] (x: i64) -> (r: bool) ensures r == (x > 0); //@if is_positive
}
%method to_be_bytes/0 crate::std_more::to_be
%grewrite u16 :: from_be_bytes =>> crate::std_more::u16_from_be
%grewrite u32 :: from_be_bytes =>> crate::std_more::u32_from_be
%grewrite u64 :: from_be_bytes =>> crate::std_more::u64_from_be
