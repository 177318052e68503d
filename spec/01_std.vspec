%# Assumed contracts of the Rust standard library (trusted).
%module root
pub mod std_contracts {
    use vstd::prelude::*;
    use crate::model::*;
    use vstd::std_specs::iter::*;
    use vstd::std_specs::cmp::*;
    use std::cmp::Ordering;
    use vstd::std_specs::hash::*;
    use vstd::std_specs::convert::*;
    /// no allocation is larger than isize::MAX bytes
    pub broadcast axiom fn axiom_vec_len_bool(v: &Vec<bool>) ensures #[trigger] v@.len() <= isize::MAX;
    pub broadcast axiom fn axiom_slice_len_bool(v: &[bool]) ensures #[trigger] v@.len() <= isize::MAX;
    pub broadcast axiom fn axiom_vec_len_u8(v: &Vec<u8>) ensures #[trigger] v@.len() <= isize::MAX;
    pub broadcast axiom fn axiom_slice_len_u8(v: &[u8]) ensures #[trigger] v@.len() <= isize::MAX;
    pub broadcast axiom fn axiom_vec_len_u16(v: &Vec<u16>) ensures #[trigger] v@.len() <= isize::MAX;
    pub broadcast axiom fn axiom_slice_len_u16(v: &[u16]) ensures #[trigger] v@.len() <= isize::MAX;
    pub broadcast axiom fn axiom_vec_len_string(v: &Vec<String>) ensures #[trigger] v@.len() <= isize::MAX;
    pub broadcast axiom fn axiom_slice_len_string(v: &[String]) ensures #[trigger] v@.len() <= isize::MAX;
    pub broadcast axiom fn axiom_vec_len_str<'a>(v: &Vec<&'a str>) ensures #[trigger] v@.len() <= isize::MAX;
    pub broadcast axiom fn axiom_slice_len_str<'a>(v: &[&'a str]) ensures #[trigger] v@.len() <= isize::MAX;
    pub broadcast group group_len { axiom_vec_len_bool, axiom_slice_len_bool, axiom_vec_len_u8, axiom_slice_len_u8, axiom_vec_len_u16, axiom_slice_len_u16, axiom_vec_len_string, axiom_slice_len_string, axiom_vec_len_str, axiom_slice_len_str }
    /// isize::try_from(usize)
    pub broadcast axiom fn axiom_isize(n: usize) ensures <isize as TryFromSpec<usize>>::obeys_try_from_spec(), n <= isize::MAX ==> (#[trigger] <isize as TryFromSpec<usize>>::try_from_spec(n)) == Ok::<isize, core::num::TryFromIntError>(n as isize), n > isize::MAX ==> <isize as TryFromSpec<usize>>::try_from_spec(n) is Err;
    pub assume_specification [u8::count_ones] (x: u8) -> (r: u32) ensures r == ones(byte_bits(x));
    pub assume_specification [u8::count_zeros] (x: u8) -> (r: u32) ensures r == zeros(byte_bits(x));
    pub assume_specification [u32::count_ones] (x: u32) -> (r: u32) ensures r == ones(u32_bits(x));
    pub assume_specification [u32::count_zeros] (x: u32) -> (r: u32) ensures r == zeros(u32_bits(x));
    pub assume_specification [u64::count_ones] (x: u64) -> (r: u32) ensures r == ones(u64_bits(x));
    pub assume_specification [u64::count_zeros] (x: u64) -> (r: u32) ensures r == zeros(u64_bits(x));
    pub assume_specification [i32::unsigned_abs] (x: i32) -> (r: u32) ensures r == if x < 0 { -x } else { x as int };
    pub assume_specification [<i16 as core::convert::From<u8>>::from] (x: u8) -> (r: i16) ensures r == x;
    pub assume_specification [<i32 as core::convert::From<u8>>::from] (x: u8) -> (r: i32) ensures r == x;
    pub assume_specification [<i64 as core::convert::From<u8>>::from] (x: u8) -> (r: i64) ensures r == x;
    pub assume_specification [<i128 as core::convert::From<u8>>::from] (x: u8) -> (r: i128) ensures r == x;
    pub assume_specification [<i32 as core::convert::From<u16>>::from] (x: u16) -> (r: i32) ensures r == x;
    pub assume_specification [<i64 as core::convert::From<u16>>::from] (x: u16) -> (r: i64) ensures r == x;
    pub assume_specification [<i128 as core::convert::From<u16>>::from] (x: u16) -> (r: i128) ensures r == x;
    pub assume_specification [<i64 as core::convert::From<u32>>::from] (x: u32) -> (r: i64) ensures r == x;
    pub assume_specification [<i128 as core::convert::From<u32>>::from] (x: u32) -> (r: i128) ensures r == x;
    pub assume_specification [<i128 as core::convert::From<u64>>::from] (x: u64) -> (r: i128) ensures r == x;
    pub assume_specification<T: Ord> [core::cmp::min::<T>] (a: T, b: T) -> (r: T) ensures T::obeys_cmp_spec() ==> r == if a.cmp_spec(&b) == Ordering::Greater { b } else { a };
    pub assume_specification<T: Ord> [core::cmp::max::<T>] (a: T, b: T) -> (r: T) ensures T::obeys_cmp_spec() ==> r == if a.cmp_spec(&b) == Ordering::Greater { a } else { b };
    pub assume_specification [String::with_capacity] (n: usize) -> (r: String) ensures r@ == Seq::<char>::empty();
    /// r is the image of s under f
    pub open spec fn mapped<T, U, F: FnMut(T) -> U>(f: F, s: Seq<T>, r: Seq<U>) -> bool { r.len() == s.len() && forall|i: int| 0 <= i < s.len() ==> call_ensures(f, (s[i],), #[trigger] r[i]) }
    /// x.map(f).sum(): adds the images of all items
    #[verifier::external_body]
    pub fn iter_map_sum<T, I: Iterator<Item = T>, F: FnMut(T) -> usize>(it: I, f: F) -> (ret: usize)
        requires
            it.obeys_prophetic_iter_laws(),
            forall|i: int| 0 <= i < it.remaining().len() ==> call_requires(f, (#[trigger] it.remaining()[i],)),
            forall|r: Seq<usize>| #[trigger] mapped(f, it.remaining(), r) ==> seq_sum(r) <= usize::MAX,
        ensures exists|r: Seq<usize>| #[trigger] mapped(f, it.remaining(), r) && ret == seq_sum(r)
    { it.map(f).sum() }
    // sorting
    pub uninterp spec fn key_le<K: Ord>(a: K, b: K) -> bool;
    /// the order of pairs is lexicographic
    #[verifier::external_body]
    pub proof fn axiom_key_le_pair<A: Ord, B: Ord>(x: (A, B), y: (A, B))
        ensures A::obeys_cmp_spec() && B::obeys_cmp_spec() ==> (key_le(x, y) <==> x.0.cmp_spec(&y.0) == Ordering::Less || x.0.cmp_spec(&y.0) == Ordering::Equal && x.1.cmp_spec(&y.1) != Ordering::Greater)
    { }
    /// the order of single keys
    #[verifier::external_body]
    pub proof fn axiom_key_le<K: Ord>() ensures K::obeys_cmp_spec() ==> forall|x: K, y: K| #[trigger] key_le(x, y) <==> x.cmp_spec(&y) != Ordering::Greater
    { }
    pub open spec fn ascending_keys<K: Ord>(k: Seq<K>) -> bool { forall|i: int, j: int| #![trigger k[i], k[j]] 0 <= i < j < k.len() ==> key_le(k[i], k[j]) }
    /// k are the keys of s under f
    pub open spec fn keyed<T, K, F: FnMut(&T) -> K>(f: F, s: Seq<T>, k: Seq<K>) -> bool { k.len() == s.len() && forall|i: int| 0 <= i < s.len() ==> call_ensures(f, (&s[i],), #[trigger] k[i]) }
    /// v.sort_by_key(f), v.sort_unstable_by_key(f): the same elements, their keys ascending
    #[verifier::external_body]
    pub fn sort_by_key<T, K: Ord, F: FnMut(&T) -> K>(v: &mut Vec<T>, f: F)
        requires forall|x: T| call_requires(f, (&x,))
        ensures old(v)@.to_multiset() == final(v)@.to_multiset(), exists|k: Seq<K>| #[trigger] keyed(f, final(v)@, k) && ascending_keys(k)
    { v.sort_by_key(f) }
    /// x.map(f).collect()
    #[verifier::external_body]
    pub fn iter_map_collect<T, U, I: Iterator<Item = T>, F: FnMut(T) -> U>(it: I, f: F) -> (ret: Vec<U>)
        requires it.obeys_prophetic_iter_laws(), forall|i: int| 0 <= i < it.remaining().len() ==> call_requires(f, (#[trigger] it.remaining()[i],))
        ensures mapped(f, it.remaining(), ret@)
    { it.map(f).collect() }
    /// a comparison that is a total order
    pub open spec fn total_order<T>(o: spec_fn(T, T) -> Ordering) -> bool {
        &&& forall|a: T, b: T| #[trigger] o(a, b) == Ordering::Less <==> o(b, a) == Ordering::Greater
        &&& forall|a: T, b: T| #[trigger] o(a, b) == Ordering::Equal <==> o(b, a) == Ordering::Equal
        &&& forall|a: T, b: T, c: T| #![trigger o(a, b), o(b, c)] o(a, b) != Ordering::Greater && o(b, c) != Ordering::Greater ==> o(a, c) != Ordering::Greater
    }
    pub open spec fn decides<T, F: FnMut(&T, &T) -> Ordering>(f: F, o: spec_fn(T, T) -> Ordering) -> bool { forall|a: T, b: T, r: Ordering| #[trigger] call_ensures(f, (&a, &b), r) ==> r == o(a, b) }
    pub open spec fn sorted_by<T>(s: Seq<T>, o: spec_fn(T, T) -> Ordering) -> bool { forall|i: int, j: int| #![trigger s[i], s[j]] 0 <= i < j < s.len() ==> o(s[i], s[j]) != Ordering::Greater }
    /// v.sort_by(f), v.sort_unstable_by(f), where f decides a total order
    #[verifier::external_body]
    pub fn sort_by<T, F: FnMut(&T, &T) -> Ordering>(v: &mut Vec<T>, f: F)
        requires forall|a: T, b: T| call_requires(f, (&a, &b)), exists|o: spec_fn(T, T) -> Ordering| #[trigger] total_order(o) && decides(f, o)
        ensures old(v)@.to_multiset() == final(v)@.to_multiset(), forall|o: spec_fn(T, T) -> Ordering| #[trigger] total_order(o) && decides(f, o) ==> sorted_by(final(v)@, o)
    { v.sort_by(f) }
    /// x.enumerate().map(f).collect()
    #[verifier::external_body]
    pub fn iter_enumerate_map_collect<T, U, I: Iterator<Item = T>, F: FnMut((usize, T)) -> U>(it: I, f: F) -> (ret: Vec<U>)
        requires it.obeys_prophetic_iter_laws(), forall|i: int| 0 <= i < it.remaining().len() ==> call_requires(f, ((i as usize, #[trigger] it.remaining()[i]),))
        ensures ret@.len() == it.remaining().len(), ret@.len() <= usize::MAX, forall|i: int| 0 <= i < ret@.len() ==> call_ensures(f, ((i as usize, it.remaining()[i]),), #[trigger] ret@[i])
    { it.enumerate().map(f).collect() }
    /// x.map(f).max()
    #[verifier::external_body]
    pub fn iter_map_max<T, U: Ord, I: Iterator<Item = T>, F: FnMut(T) -> U>(it: I, f: F) -> (ret: Option<U>)
        requires it.obeys_prophetic_iter_laws(), forall|i: int| 0 <= i < it.remaining().len() ==> call_requires(f, (#[trigger] it.remaining()[i],))
        ensures ret is None <==> it.remaining().len() == 0, ret is Some && U::obeys_cmp_spec() ==> exists|r: Seq<U>| #[trigger] mapped(f, it.remaining(), r) && r.contains(ret->0) && forall|i: int| 0 <= i < r.len() ==> (#[trigger] r[i]).cmp_spec(&ret->0) != Ordering::Greater
    { it.map(f).max() }
    /// x.any(f)
    #[verifier::external_body]
    pub fn iter_any<T, I: Iterator<Item = T>, F: FnMut(T) -> bool>(it: I, f: F) -> (ret: bool)
        requires it.obeys_prophetic_iter_laws(), forall|i: int| 0 <= i < it.remaining().len() ==> call_requires(f, (#[trigger] it.remaining()[i],))
        ensures ret ==> exists|i: int| 0 <= i < it.remaining().len() && call_ensures(f, (#[trigger] it.remaining()[i],), true),
            !ret ==> forall|i: int| 0 <= i < it.remaining().len() ==> call_ensures(f, (#[trigger] it.remaining()[i],), false)
    { let mut it = it; it.any(f) }
    // hash sets
    /// s.extend(iterator over references)
    #[verifier::external_body]
    pub fn set_extend<'a, T: Copy + Eq + std::hash::Hash + 'a, I: Iterator<Item = &'a T>>(s: &mut std::collections::HashSet<T>, it: I)
        requires it.obeys_prophetic_iter_laws()
        ensures obeys_key_model::<T>() ==> final(s)@ == old(s)@.union(it.remaining().unref().to_set())
    { s.extend(it) }
    /// s.retain(f)
    #[verifier::external_body]
    pub fn set_retain<T: Eq + std::hash::Hash, F: FnMut(&T) -> bool>(s: &mut std::collections::HashSet<T>, f: F)
        requires forall|x: T| #[trigger] old(s)@.contains(x) ==> call_requires(f, (&x,))
        ensures obeys_key_model::<T>() ==> forall|x: T| #[trigger] final(s)@.contains(x) ==> old(s)@.contains(x) && call_ensures(f, (&x,), true),
            obeys_key_model::<T>() ==> forall|x: T| #[trigger] old(s)@.contains(x) && !final(s)@.contains(x) ==> call_ensures(f, (&x,), false)
    { s.retain(f) }
    /// assert!(c): never fails
    pub fn exec_assert(c: bool) requires c ensures c { }
    #[verifier::external_type_specification]
    #[verifier::external_body]
    pub struct ExParseIntError(std::num::ParseIntError);
    // text
    #[verifier::external_trait_specification]
    pub trait ExAsRef<T: std::marker::PointeeSized>: std::marker::PointeeSized {
        type ExternalTraitSpecificationFor: AsRef<T>;
        fn as_ref(&self) -> (ret: &T) ensures ret == ref_of::<Self, T>(self);
    }
    pub uninterp spec fn ref_of<S: std::marker::PointeeSized, T: std::marker::PointeeSized>(s: &S) -> &T;
    pub broadcast group group_ref { axiom_str_as_ref, axiom_ref_as_ref, axiom_string_as_ref }
    pub broadcast axiom fn axiom_str_as_ref(s: &str) ensures (#[trigger] ref_of::<str, str>(s))@ == s@;
    pub broadcast axiom fn axiom_ref_as_ref<T: std::marker::PointeeSized>(s: &T) ensures (#[trigger] ref_of::<&T, str>(&s))@ == ref_of::<T, str>(s)@;
    pub assume_specification<T> [Option::<T>::or] (a: Option<T>, b: Option<T>) -> (ret: Option<T>) ensures ret == if a is Some { a } else { b };
    pub broadcast axiom fn axiom_string_as_ref(s: &String) ensures (#[trigger] ref_of::<String, str>(s))@ == s@;
    /// strings are compared by their characters
    pub axiom fn axiom_string_eq()
        ensures
            <String as PartialEqSpec<str>>::obeys_eq_spec(), forall|a: &String, b: &str| #[trigger] <String as PartialEqSpec<str>>::eq_spec(a, b) == (a@ == b@),
            <String as PartialEqSpec<&str>>::obeys_eq_spec(), forall|a: &String, b: &&str| #[trigger] <String as PartialEqSpec<&str>>::eq_spec(a, b) == (a@ == b@),
            <str as PartialEqSpec<String>>::obeys_eq_spec(), forall|a: &str, b: &String| #[trigger] <str as PartialEqSpec<String>>::eq_spec(a, b) == (a@ == b@),
            <&str as PartialEqSpec<String>>::obeys_eq_spec(), forall|a: &&str, b: &String| #[trigger] <&str as PartialEqSpec<String>>::eq_spec(a, b) == (a@ == b@),
            forall|a: &str, b: &str| #![trigger a@, b@] a@ == b@ ==> a == b; // a str has nothing but its characters (patterns that are string literals)
    /// the command line
    pub uninterp spec fn command_line() -> Seq<String>;
    #[verifier::external_body]
    pub fn argv() -> (ret: Vec<String>) ensures ret@ == command_line() { std::env::args_os().map(|arg| arg.to_string_lossy().into_owned()).collect() }
    // parsing
    #[verifier::external_trait_specification]
    #[verifier::external_trait_extension(FromStrSpec via FromStrSpecImpl)]
    pub trait ExFromStr: Sized {
        type ExternalTraitSpecificationFor: std::str::FromStr;
        type Err;
        /// what a text means, if anything
        spec fn meaning(s: Seq<char>) -> Option<Self>;
        fn from_str(s: &str) -> (ret: Result<Self, Self::Err>) ensures ret is Ok <==> Self::meaning(s@) is Some, ret is Ok ==> Self::meaning(s@) == Some(ret->Ok_0);
    }
    impl FromStrSpecImpl for u32 { open spec fn meaning(s: Seq<char>) -> Option<u32> { match crate::text::integer(s, 10, 0xffff_ffff) { Some(n) => Some(n as u32), None => None } } }
    impl FromStrSpecImpl for usize { open spec fn meaning(s: Seq<char>) -> Option<usize> { match crate::text::integer(s, 10, usize::MAX as nat) { Some(n) => Some(n as usize), None => None } } }
    pub broadcast proof fn axiom_parsed_u32(s: Seq<char>) ensures #[trigger] parsed::<u32>(s) == (match crate::text::integer(s, 10, 0xffff_ffff) { Some(n) => Some(n as u32), None => None }) { }
    pub broadcast proof fn axiom_parsed_usize(s: Seq<char>) ensures #[trigger] parsed::<usize>(s) == (match crate::text::integer(s, 10, usize::MAX as nat) { Some(n) => Some(n as usize), None => None }) { }
    impl FromStrSpecImpl for u8 { open spec fn meaning(s: Seq<char>) -> Option<u8> { match crate::text::integer(s, 10, 0xff) { Some(n) => Some(n as u8), None => None } } }
    pub broadcast proof fn axiom_parsed_u8(s: Seq<char>) ensures #[trigger] parsed::<u8>(s) == (match crate::text::integer(s, 10, 0xff) { Some(n) => Some(n as u8), None => None }) { }
    impl FromStrSpecImpl for u16 { open spec fn meaning(s: Seq<char>) -> Option<u16> { match crate::text::integer(s, 10, 0xffff) { Some(n) => Some(n as u16), None => None } } }
    pub broadcast proof fn axiom_parsed_u16(s: Seq<char>) ensures #[trigger] parsed::<u16>(s) == (match crate::text::integer(s, 10, 0xffff) { Some(n) => Some(n as u16), None => None }) { }
    impl FromStrSpecImpl for u64 { open spec fn meaning(s: Seq<char>) -> Option<u64> { match crate::text::integer(s, 10, 0xffff_ffff_ffff_ffff) { Some(n) => Some(n as u64), None => None } } }
    pub broadcast proof fn axiom_parsed_u64(s: Seq<char>) ensures #[trigger] parsed::<u64>(s) == (match crate::text::integer(s, 10, 0xffff_ffff_ffff_ffff) { Some(n) => Some(n as u64), None => None }) { }
    impl FromStrSpecImpl for u128 { open spec fn meaning(s: Seq<char>) -> Option<u128> { match crate::text::integer(s, 10, u128::MAX as nat) { Some(n) => Some(n as u128), None => None } } }
    pub broadcast proof fn axiom_parsed_u128(s: Seq<char>) ensures #[trigger] parsed::<u128>(s) == (match crate::text::integer(s, 10, u128::MAX as nat) { Some(n) => Some(n as u128), None => None }) { }
    pub open spec fn parsed<F: std::str::FromStr>(s: Seq<char>) -> Option<F> { F::meaning(s) }
    /// s.parse(), which is defined to be from_str
    pub fn parse<F: std::str::FromStr>(s: &str) -> (ret: Result<F, F::Err>)
        ensures ret is Ok <==> parsed::<F>(s@) is Some, ret is Ok ==> parsed::<F>(s@) == Some(ret->Ok_0)
    { F::from_str(s) }
}
%method parse/0 crate::std_contracts::parse
%method map.sum/0 crate::std_contracts::iter_map_sum
%method map.collect/0 crate::std_contracts::iter_map_collect
%method sort_by_key/1 &mut crate::std_contracts::sort_by_key
%method sort_unstable_by_key/1 &mut crate::std_contracts::sort_by_key
%method extend/1 &mut crate::std_contracts::set_extend
%method retain/1 &mut crate::std_contracts::set_retain
%method sort_by/1 &mut crate::std_contracts::sort_by
%method sort_unstable_by/1 &mut crate::std_contracts::sort_by
%method enumerate.map.collect/0 crate::std_contracts::iter_enumerate_map_collect
%method map.max/0 crate::std_contracts::iter_map_max
%method any/1 crate::std_contracts::iter_any
%module bit_manip
broadcast use {crate::std_contracts::group_len, crate::model::group_commute};
%module cidr
broadcast use crate::std_contracts::group_len;
