// In-process executor: compiled into a scratch copy of the real crate (sources unmodified, this module
// appended), one feature per property so that a changed internal interface disables only its own probe.
#![allow(dead_code, unused_imports, unused_variables)]
#[path = "@COMMON@"]
mod common;
use common::*;
use crate::addr::{IpAddress, Ipv4Address, Ipv6Address};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

/// 8-bit test address type, correct by construction, for exhaustive runs of the generic code.
#[cfg(feature = "t8")]
mod t8 {
    use super::*;
    #[derive(Clone, Copy, Debug, Default, Eq, Hash, Ord, PartialEq, PartialOrd)]
    pub struct T8(pub u8);
    impl std::fmt::Display for T8 { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "{}", self.0) } }
    impl std::ops::BitAnd for T8 { type Output = T8; fn bitand(self, r: T8) -> T8 { T8(self.0 & r.0) } }
    impl std::ops::BitOr for T8 { type Output = T8; fn bitor(self, r: T8) -> T8 { T8(self.0 | r.0) } }
    impl std::ops::BitXor for T8 { type Output = T8; fn bitxor(self, r: T8) -> T8 { T8(self.0 ^ r.0) } }
    fn ck(v: i64) -> Option<T8> { u8::try_from(v).ok().map(T8) }
    impl IpAddress for T8 {
        fn byte_count(&self) -> usize { 1 }
        fn count_ones(&self) -> u32 { self.0.count_ones() }
        fn count_zeros(&self) -> u32 { self.0.count_zeros() }
        fn to_bytes(&self) -> Vec<u8> { vec![self.0] }
        fn from_bytes(b: &[u8]) -> Option<T8> { if b.len() == 1 { Some(T8(b[0])) } else { None } }
        fn bitwise_negate(&self) -> T8 { T8(!self.0) }
        fn add_addr(&self, o: &T8) -> Option<T8> { ck(self.0 as i64 + o.0 as i64) }
        fn add_offset(&self, o: i32) -> Option<T8> { ck(self.0 as i64 + o as i64) }
        fn subtract_addr(&self, o: &T8) -> Option<T8> { ck(self.0 as i64 - o.0 as i64) }
        fn subtract_offset(&self, o: i32) -> Option<T8> { ck(self.0 as i64 - o as i64) }
    }
}

fn be(v: u128, w: u32) -> Vec<u8> { v.to_be_bytes()[16 - w as usize / 8..].to_vec() }
fn unbe(b: &[u8]) -> u128 { b.iter().fold(0, |v, x| v << 8 | *x as u128) }
pub fn mk<A: IpAddress>(v: u128, w: u32) -> A { A::from_bytes(&be(v, w)).expect("address from bytes of the right length") }
pub fn un<A: IpAddress>(a: &A) -> u128 { unbe(&a.to_bytes()) }

macro_rules! eq { ($got:expr, $exp:expr, $($what:tt)*) => { { let (g, e) = ($got, $exp); if g != e { return Err(format!("{}: got {:x?}, expected {:x?}", format!($($what)*), g, e)); } } } }
macro_rules! by_width { ($w:expr, $f:ident ( $($a:expr),* )) => { match $w { 32 => $f::<Ipv4Address>($($a),*), 128 => $f::<Ipv6Address>($($a),*),
    #[cfg(feature = "t8")] 8 => $f::<t8::T8>($($a),*), _ => return None } } }

#[cfg(feature = "C01")]
fn c01<A: IpAddress>(w: u32, x: u128, y: u128) -> Result<(), String> {
    let a: A = mk(x, w); let b: A = mk(y, w);
    eq!(a.to_bytes(), be(x, w), "bytes of the address with bytes {:x?}", be(x, w));
    eq!(a.byte_count(), w as usize / 8, "byte count");
    eq!(un(&a.bitwise_negate()), full(w) & !x, "complement of {:x}", x);
    eq!(a.count_ones(), x.count_ones(), "one bits of {:x}", x);
    eq!(a.count_zeros(), w - x.count_ones(), "zero bits of {:x}", x);
    eq!(un(&(a & b)), x & y, "{:x} AND {:x}", x, y);
    eq!(un(&(a | b)), x | y, "{:x} OR {:x}", x, y);
    eq!(un(&(a ^ b)), x ^ y, "{:x} XOR {:x}", x, y);
    eq!(a.cmp(&b), x.cmp(&y), "order of {:x} and {:x}", x, y);
    eq!(a.partial_cmp(&b), x.partial_cmp(&y), "order of {:x} and {:x}", x, y);
    eq!(a == b, x == y, "equality of {:x} and {:x}", x, y);
    let mut l = be(x, w);
    for k in (0..40).chain([256 + w as usize / 8, 64, 128, 256, 512]) { if k != w as usize / 8 { let v: Vec<u8> = (0..k).map(|i| l[i % l.len()]).collect(); eq!(A::from_bytes(&v).is_none(), true, "address from {} bytes refused", k); } }
    l.reverse(); eq!(A::from_bytes(&l).map(|a| a.to_bytes()), Some(l.clone()), "bytes of the address with bytes {:x?}", l);
    Ok(())
}
#[cfg(feature = "C01")]
fn c01x(w: u32, x: u128) -> Result<(), String> {
    if w == 32 { eq!(Ipv4Address::new(x as u32).to_bytes(), be(x, 32), "bytes of {:x}", x); }
    if w == 128 {
        let a = Ipv6Address::new((x >> 64) as u64, x as u64);
        eq!(a.to_bytes(), be(x, 128), "bytes of {:x}", x);
        eq!(a.to_chunks(), groups(x).to_vec(), "groups of {:x}", x);
        eq!(Ipv6Address::from_chunks(&groups(x)).map(|a| un(&a)), Some(x), "address from groups of {:x}", x);
        for k in (0..20).chain([32, 64, 128, 256, 264]) { if k != 8 { let v: Vec<u16> = (0..k).map(|i| groups(x)[i % 8]).collect(); eq!(Ipv6Address::from_chunks(&v).is_none(), true, "address from {} groups refused", k); } }
    }
    Ok(())
}
#[cfg(feature = "C02")]
fn c02<A: IpAddress>(w: u32, x: u128, y: u128, off: i32) -> Result<(), String> {
    let a: A = mk(x, w); let b: A = mk(y, w);
    let fit = |v: Option<u128>| v.filter(|v| v & !full(w) == 0);
    eq!(a.add_addr(&b).map(|a| un(&a)), fit(x.checked_add(y)), "{:x} + {:x}", x, y);
    eq!(a.subtract_addr(&b).map(|a| un(&a)), x.checked_sub(y), "{:x} - {:x}", x, y);
    let m = off.unsigned_abs() as u128;
    let (p, q) = (fit(x.checked_add(m)), x.checked_sub(m));
    eq!(a.add_offset(off).map(|a| un(&a)), if off < 0 { q } else { p }, "{:x} + ({})", x, off);
    eq!(a.subtract_offset(off).map(|a| un(&a)), if off < 0 { p } else { q }, "{:x} - ({})", x, off);
    Ok(())
}
#[cfg(feature = "C03")]
fn c03(p: usize, n: usize, bytes: &[u8]) -> Result<(), String> {
    let want: Vec<u8> = (0..n).map(|i| if p >= 8 * i + 8 { 255 } else if p <= 8 * i { 0 } else { (0xff00u32 >> (p - 8 * i)) as u8 }).collect();
    eq!(crate::cidr::subnet_mask_bytes_from_prefix(p, n), want, "mask of prefix {} in {} bytes", p, n);
    let ones: usize = bytes.iter().map(|b| b.count_ones() as usize).sum();
    let cont = (0..bytes.len() * 8).all(|i| (bytes[i / 8] >> (7 - i % 8) & 1 == 1) == (i < ones));
    eq!(crate::cidr::prefix_from_subnet_mask_bytes(bytes), if cont { Some(ones) } else { None }, "prefix of mask {:x?}", bytes);
    Ok(())
}
#[cfg(feature = "C04")]
fn c04<A: IpAddress>(w: u32, x: u128, m: u128) -> Result<(), String> {
    use crate::bit_manip::*;
    let (a, k): (A, A) = (mk(x, w), mk(m, w));
    eq!(un(&unravel_address(a, k)), pack(x, m, w), "{:x} regrouped by {:x}", x, m);
    eq!(un(&weave_address(a, k)), unpack(x, m, w), "{:x} distributed by {:x}", x, m);
    eq!(un(&weave_address(unravel_address(a, k), k)), x, "{:x} regrouped by {:x} and back", x, m);
    eq!(un(&unravel_address(weave_address(a, k), k)), x, "{:x} distributed by {:x} and back", x, m);
    Ok(())
}
#[cfg(feature = "C04")]
fn c04x(w: u32, x: u128, bits: &str) -> Result<(), String> {
    use crate::bit_manip::*;
    let b = be(x, w);
    for l in 0..=b.len() {
        let bs: Vec<bool> = (0..l * 8).map(|i| b[i / 8] >> (7 - i % 8) & 1 == 1).collect();
        eq!(bytes_to_bits(&b[..l]), bs.clone(), "bits of {:x?}", &b[..l]);
        eq!(bits_to_bytes(&bs), b[..l].to_vec(), "bytes of the bits of {:x?}", &b[..l]);
        eq!(bytes_to_binary(&b[..l]), bs.iter().map(|b| if *b { '1' } else { '0' }).collect::<String>(), "binary text of {:x?}", &b[..l]);
    }
    let v: Vec<bool> = bits.chars().map(|c| c == '1').collect();
    let want: Vec<u8> = v.chunks(8).map(|c| c.iter().enumerate().fold(0u8, |r, (i, b)| if *b { r | 128 >> i } else { r })).collect();
    eq!(bits_to_bytes(&v), want, "bytes of bits {}", bits);
    Ok(())
}
#[cfg(any(feature = "C05", feature = "C06", feature = "C07", feature = "C08", feature = "C10", feature = "C11", feature = "C12", feature = "C13"))]
use crate::net::IpNetwork;
#[cfg(any(feature = "C05", feature = "C06", feature = "C07", feature = "C08", feature = "C10", feature = "C11", feature = "C12", feature = "C13"))]
fn net<A: IpAddress>(n: N, w: u32) -> IpNetwork<A> { match prefix_of(n.1, w) { Some(p) if n.0 & 4 == 0 => IpNetwork::new_with_prefix(mk(n.0, w), p as usize), _ => IpNetwork::new_with_mask(mk(n.0, w), mk(n.1, w)) } }
fn raw<A: IpAddress>(n: &crate::net::IpNetwork<A>) -> N { (un(&n.base_addr()), un(&n.subnet_mask())) }
#[cfg(feature = "C05")]
fn c05<A: IpAddress>(w: u32, x: u128, m: u128) -> Result<(), String> {
    let ck = |n: IpNetwork<A>, m: u128, what: &str| -> Result<(), String> {
        eq!(un(&n.base_addr()), x & m, "{}: base of {:x}, mask {:x}", what, x, m);
        eq!(un(&n.subnet_mask()), m, "{}: mask of {:x}, mask {:x}", what, x, m);
        eq!(un(&n.cisco_wildcard()), full(w) & !m, "{}: wildcard of {:x}, mask {:x}", what, x, m);
        eq!(n.cidr_prefix(), prefix_of(m, w).map(|p| p as usize), "{}: prefix of {:x}, mask {:x}", what, x, m);
        Ok(()) };
    let (a, k): (A, A) = (mk(x, w), mk(m, w));
    ck(IpNetwork::new_with_mask(a, k), m, "with mask")?;
    let s = IpNetwork::new_with_mask_strict(a, k);
    eq!(s.is_some(), x & m == x, "strict with mask accepts {:x}, mask {:x}", x, m);
    if let Some(s) = s { ck(s, m, "strict with mask")?; eq!(s == IpNetwork::new_with_mask(a, k), true, "strict equals non-strict"); }
    let p = m.count_ones(); let pm = pfx_mask(p, w);
    ck(IpNetwork::new_with_prefix(a, p as usize), pm, "with prefix")?;
    let s = IpNetwork::new_with_prefix_strict(a, p as usize);
    eq!(s.is_some(), x & pm == x, "strict with prefix accepts {:x}/{}", x, p);
    if let Some(s) = s { ck(s, pm, "strict with prefix")?; eq!(s == IpNetwork::new_with_prefix(a, p as usize), true, "strict equals non-strict"); }
    eq!(IpNetwork::new_with_prefix(a, p as usize) == IpNetwork::new_with_mask(a, mk(pm, w)), true, "{:x}/{} equals the same network with mask", x, p);
    Ok(())
}
#[cfg(feature = "C06")]
fn c06<A: IpAddress>(w: u32, x: u128, m: u128) -> Result<(), String> {
    let b = x & m; let n = net::<A>((b, m), w); let h = hostbits(m, w);
    let bc = broadcast(b, m, w);
    eq!(n.first_host_addr().map(|a| un(&a)), if h >= 2 { Some(unpack(pack(b, m, w) + 1, m, w)) } else { None }, "first host of {:x}, mask {:x}", b, m);
    eq!(n.last_host_addr().map(|a| un(&a)), if h >= 2 { Some(unpack(pack(bc, m, w) - 1, m, w)) } else { None }, "last host of {:x}, mask {:x}", b, m);
    eq!(n.broadcast_addr().map(|a| un(&a)), if h >= 1 { Some(bc) } else { None }, "broadcast of {:x}, mask {:x}", b, m);
    eq!(n.next_subnet_base_addr().map(|a| un(&a)), next_base(b, m, w), "next network after {:x}, mask {:x}", b, m);
    eq!(un(&n.last_addr_of_subnet()), bc, "last address of {:x}, mask {:x}", b, m);
    Ok(())
}
#[cfg(feature = "C07")]
fn c07<A: IpAddress>(w: u32, p: N, q: N, x: u128) -> Result<(), String> {
    let (a, b) = (net::<A>(p, w), net::<A>(q, w));
    eq!(a.contains(&mk(x, w)), (x ^ p.0) & p.1 == 0, "{:x?} contains {:x}", p, x);
    eq!(a.is_superset_of(&b), sup(p, q), "{:x?} is a superset of {:x?}", p, q);
    eq!(b.is_superset_of(&a), sup(q, p), "{:x?} is a superset of {:x?}", q, p);
    eq!(a.is_subset_of(&b), sup(q, p), "{:x?} is a subset of {:x?}", p, q);
    eq!(a.intersects(&b), inter(p, q), "{:x?} intersects {:x?}", p, q);
    Ok(())
}
#[cfg(feature = "C08")]
fn c08<A: IpAddress>(w: u32, x: u128, m: u128) -> Result<(), String> {
    let n = net::<A>((x & m, m), w); let h = hostbits(m, w);
    let pow = num_bigint::BigUint::from_bytes_be(&{ let mut v = vec![0u8; 17]; v[16 - h as usize / 8] = 1 << (h % 8); v });
    eq!(n.address_count().to_string(), pow.to_string(), "address count for {} host bits", h);
    let want = if h == 128 { (u128::MAX - 1).to_string() } else { ((1i128.checked_shl(h).filter(|_| h < 126)).map(|v| (v - 2).to_string())).unwrap_or_else(|| ((1u128 << h) - 2).to_string()) };
    eq!(n.host_count().to_string(), want, "host count for {} host bits", h);
    Ok(())
}
#[cfg(feature = "C09")]
fn c09<A: IpAddress>(w: u32, x: u128, y: u128) -> Result<(), String> {
    let r: Vec<N> = crate::cmds::derange::range_to_subnets::<A>(mk(x, w), mk(y, w)).iter().map(|n| raw(n)).collect();
    eq!(r, derange_oracle(x, y, w), "networks of {:x} to {:x}", x, y);
    Ok(())
}
#[cfg(feature = "C10")]
fn c10<A: IpAddress>(w: u32, n: &[N]) -> Result<(), String> {
    let r = crate::cmds::minimize::minimize_subnets::<A>(n.iter().map(|n| net(*n, w)).collect());
    let r: Vec<N> = r.iter().map(|n| raw(n)).collect();
    check_minimized(n, &r, w).map_err(|e| format!("{}; output {:x?}", e, r))
}
#[cfg(feature = "C11")]
fn c11<A: IpAddress>(w: u32, n: N, counts: &[&str]) -> Result<(), String> {
    let r = crate::cmds::split::split_subnet::<A>(net(n, w), counts.iter().map(|c| c.parse().unwrap()).collect());
    let ks: Vec<Option<u32>> = counts.iter().map(|c| need_bits(&parse_big(c), w)).collect();
    if fits(&ks, hostbits(n.1, w)) {
        let Some(r) = r else { return Err("fitting split refused".into()) };
        let r: Vec<N> = r.iter().map(|n| raw(n)).collect();
        check_slices(n, &ks, &r, w)?;
        let max = r.iter().map(|s| broadcast(s.0, s.1, w)).max().unwrap();
        // everything behind the last slice is what is listed as unused; nothing may be left before it
        let mut all = r.clone();
        if max != broadcast(n.0, n.1, w) { all.extend(derange_oracle(max + 1, broadcast(n.0, n.1, w), w)); }
        if !covered(n, &all, w) { return Err(format!("slices {:x?} leave a gap before the last slice, which is not listed as unused", r)); }
    } else if let Some(r) = r {
        let r: Vec<N> = r.iter().map(|n| raw(n)).collect();
        if r.iter().all(|s| sup(n, *s)) && check_slices(n, &ks, &r, w).is_ok() { return Err(format!("split that cannot fit yields {:x?}", r)); }
    }
    Ok(())
}
#[cfg(feature = "C12")]
fn c12<A: IpAddress>(w: u32, n: N, nm: u128, big: bool) -> Option<Result<(), String>> {
    if hostbits(n.1, w) > hostbits(nm, w) + if big { 17 } else { 12 } { return None; }
    Some((|| {
        let (r, o) = crate::cmds::resize::resize_network::<A>(net(n, w), mk(nm, w));
        let r: Vec<N> = r.iter().map(|n| raw(n)).collect();
        let (e, eo) = resize_oracle(n.0, n.1, nm, w, usize::MAX);
        let e: Vec<N> = e.iter().map(|b| (*b, nm)).collect();
        eq!(o, match eo { Ord3::Less => std::cmp::Ordering::Less, Ord3::Equal => std::cmp::Ordering::Equal, Ord3::Greater => std::cmp::Ordering::Greater }, "kind of resize of {:x?} to {:x}", n, nm);
        eq!(r, e, "resize of {:x?} to {:x}", n, nm);
        Ok(())
    })())
}
#[cfg(feature = "C13")]
fn c13<A: IpAddress>(w: u32, n: N, big: bool) -> Result<(), String> {
    let h = hostbits(n.1, w); let p = pack(n.0, n.1, w);
    let small = h <= if big { 17 } else { 11 };
    let lim: u128 = if !small { 600 } else { 1 << h };
    let mut it = crate::cmds::enumerate::vh_access::iter::<A>(net(n, w));
    for k in 0..lim { eq!(it.next().map(|a| un(&a)), Some(unpack(p + k, n.1, w)), "address number {} of {:x?}", k, n); }
    if small { for _ in 0..3 { eq!(it.next().map(|a| un(&a)), None, "address after the last one of {:x?}", n); } }
    Ok(())
}
#[cfg(feature = "C14")]
fn c14<A: IpAddress + std::str::FromStr>(w: u32, v: u128) -> Result<(), String> where A::Err: std::fmt::Debug {
    let a: A = mk(v, w);
    let t = a.to_string();
    eq!(read_addr(&t, w), Some(v), "address denoted by own text {:?}", t);
    match t.parse::<A>() { Ok(b) => eq!(un(&b), v, "own text {:?} read back", t), Err(e) => return Err(format!("own text {:?} not read back: {:?}", t, e)) }
    Ok(())
}
#[cfg(feature = "C14")]
fn c14x(v: u128) -> Result<(), String> {
    let t = Ipv6Address::new((v >> 64) as u64, v as u64).to_full_string();
    if t.split(':').count() != 8 { return Err(format!("full text {:?} does not have eight groups", t)); }
    eq!(read_addr(&t, 128), Some(v), "address denoted by full text {:?}", t);
    Ok(())
}
#[cfg(feature = "C14")]
fn c14p(w: u32, want: Option<u128>, t: &str) -> Result<(), String> {
    use crate::cmds::{parse_addr, ParsedIpAddress};
    let direct: Option<u128> = if w == 32 { t.parse::<Ipv4Address>().ok().map(|a| un(&a)) } else { t.parse::<Ipv6Address>().ok().map(|a| un(&a)) };
    eq!(direct, want, "{:?} read", t);
    let g = match parse_addr(t) { Ok(ParsedIpAddress::Ipv4(a)) => Some((32, un(&a))), Ok(ParsedIpAddress::Ipv6(a)) => Some((128, un(&a))), Err(_) => None };
    eq!(g, want.map(|v| (w, v)), "{:?} read as an address of any family", t);
    Ok(())
}
#[cfg(feature = "C15")]
fn c15(w: u32, a: u128, m: u128) -> Result<(), String> {
    use crate::cmds::{parse_netspec, NetworkSpec};
    let mut forms = vec![format!("{}/{}", text(a, w), text(m, w)), format!("{}/-{}", text(a, w), text(full(w) & !m, w))];
    if let Some(p) = prefix_of(m, w) { forms.push(format!("{}/{}", text(a, w), p)); forms.push(format!("{}/-{}", text(a, w), w - p)); }
    if w == 128 {
        let short = |v: u128| { let g = groups(v); match (0..8).find(|i| g[*i] == 0) { Some(s) => { let mut l = 1; while s + l < 8 && g[s + l] == 0 { l += 1; } v6short(v, s, l) } None => v6(v) } };
        forms.push(format!("{}/{}", short(a), short(m))); forms.push(format!("{}/-{}", short(a), short(full(w) & !m)));
        for i in 0..forms.len() { forms.push(forms[i].to_uppercase()); }
    }
    for f in &forms {
        let g = match parse_netspec(f) { Ok(NetworkSpec::Ipv4(a, n)) => Ok((32, un(&a), raw(&n), n.cidr_prefix())), Ok(NetworkSpec::Ipv6(a, n)) => Ok((128, un(&a), raw(&n), n.cidr_prefix())), Err(e) => Err(format!("{}", e)) };
        eq!(g, Ok((w, a, (a & m, m), prefix_of(m, w).map(|p| p as usize))), "{:?} read", f);
    }
    Ok(())
}
#[cfg(feature = "C15")]
fn c15b(t: &str) -> Result<(), String> {
    let t = &t.replace(BREAK, "\n")[..];
    if let Ok(n) = crate::cmds::parse_netspec(t) { return Err(format!("{:?} not refused: {:?}", t, n)); }
    Ok(())
}

/// None: not runnable in-process
fn exec(prop: &str, case: &str) -> Option<Result<(), String>> {
    let a: Vec<&str> = args(case);
    let w: u32 = a.get(1).and_then(|x| x.parse().ok()).unwrap_or(0);
    let _ = prop;
    match a[0] {
        #[cfg(feature = "C01")]
        "addr" => Some(by_width!(w, c01(w, unhex(a[2]), unhex(a[3]))).and_then(|_| c01x(w, unhex(a[2])))),
        #[cfg(feature = "C02")]
        "addr" => Some(by_width!(w, c02(w, unhex(a[2]), unhex(a[3]), a[4].parse().unwrap()))),
        #[cfg(feature = "C03")]
        "mask" => { let h = a[3]; let b: Vec<u8> = (0..h.len() / 2).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap()).collect(); Some(c03(a[1].parse().unwrap(), a[2].parse().unwrap(), &b)) }
        #[cfg(feature = "C04")]
        "perm" => Some(by_width!(w, c04(w, unhex(a[2]), unhex(a[3]))).and_then(|_| c04x(w, unhex(a[2]), &a[4][1..]))),
        #[cfg(feature = "C05")]
        "net" => Some(by_width!(w, c05(w, unhex(a[2]), unhex(a[3])))),
        #[cfg(feature = "C06")]
        "net" => Some(by_width!(w, c06(w, unhex(a[2]), unhex(a[3])))),
        #[cfg(feature = "C07")]
        "rel" => { let n = nets_from(&a[2..4]); Some(by_width!(w, c07(w, n[0], n[1], unhex(a[4])))) }
        #[cfg(feature = "C08")]
        "net" => Some(by_width!(w, c08(w, unhex(a[2]), unhex(a[3])))),
        #[cfg(feature = "C09")]
        "derange" => Some(by_width!(w, c09(w, unhex(a[2]), unhex(a[3])))),
        #[cfg(feature = "C10")]
        "minimize" => { let n = nets_from(&a[2..]); Some(by_width!(w, c10(w, &n))) }
        #[cfg(feature = "C11")]
        "split" => { let n = nets_from(&a[2..3]); Some(by_width!(w, c11(w, n[0], &a[3..]))) }
        #[cfg(feature = "C12")]
        "resize" => { let n = nets_from(&a[2..3]); by_width!(w, c12(w, n[0], unhex(a[3]), a.len() > 4)) }
        #[cfg(feature = "C13")]
        "enum" => { let n = nets_from(&a[2..3]); Some(by_width!(w, c13(w, n[0], a.len() > 3))) }
        #[cfg(feature = "C14")]
        "show" => { let v = unhex(a[2]); Some(if w == 32 { c14::<Ipv4Address>(w, v) } else { c14::<Ipv6Address>(w, v).and_then(|_| c14x(v)) }) }
        #[cfg(feature = "C14")]
        "parse" => { let t = case.splitn(4, ' ').nth(3).unwrap(); Some(c14p(w, if a[2] == "ERR" { None } else { Some(unhex(a[2])) }, t)) }
        #[cfg(feature = "C15")]
        "spec" => Some(c15(w, unhex(a[2]), unhex(a[3]))),
        #[cfg(feature = "C15")]
        "badspec" => Some(c15b(case.splitn(2, ' ').nth(1).unwrap())),
        _ => None,
    }
}

/// exhaustive 8-bit cases (index -> case); None when done
#[cfg(feature = "t8")]
fn small_case(prop: &str, i: u64, nets: &[N]) -> Option<String> {
    let n = nets.len() as u64;
    match prop {
        "C04" => if i < 65536 { Some(format!("perm 8 {:x} {:x} b", i & 255, i >> 8)) } else { None },
        "C05" | "C06" | "C08" => if i < 65536 { Some(format!("net 8 {:x} {:x}", i & 255, i >> 8)) } else { None },
        "C07" => if i < n * 700 { let a = nets[(i % n) as usize]; let b = nets[((i / n).wrapping_mul(2654435761).wrapping_add(i % n * 40503) % n) as usize]; Some(format!("rel 8 {:x}/{:x} {:x}/{:x} {:x}", a.0, a.1, b.0, b.1, (i / 7) & 255)) } else { None },
        "C09" => if i < 65536 { Some(format!("derange 8 {:x} {:x}", i & 255, i >> 8)) } else { None },
        "C12" => if i < n * 256 { let a = nets[(i % n) as usize]; Some(format!("resize 8 {:x}/{:x} {:x}", a.0, a.1, i / n)) } else { None },
        "C13" => if i < n { let a = nets[i as usize]; Some(format!("enum 8 {:x}/{:x}", a.0, a.1)) } else { None },
        "C10" => if i < 300_000 { let mut r = Rng::new(i); let k = 2 + r.below(4); let hot = 1u64 << r.below(8) | 1u64 << r.below(8) | 1u64 << r.below(8) | 1u64 << r.below(8);
            let base = r.next(); let v: Vec<N> = (0..k).map(|_| { let m = (!hot | r.next()) & 255; let b = base ^ (r.next() & hot); ((b & m) as u128, m as u128) }).collect(); Some(format!("minimize 8 {}", nets_text(&v))) } else { None },
        "C11" => if i < 300_000 { let mut r = Rng::new(i); let h = r.below(9) as u32; let m = 255 & !low(h); let b = r.next() as u128 & m; let k = 1 + r.below(5);
            let cs: Vec<String> = (0..k).map(|_| { let q = r.below(h as u64 + 2); (match r.below(4) { 0 => 1u64 << q, 1 => (1u64 << q).saturating_sub(1), 2 => (1u64 << q).saturating_sub(2), _ => r.below(1 << q) }).to_string() }).collect();
            Some(format!("split 8 {:x}/{:x} {}", b, m, cs.join(" "))) } else { None },
        _ => None,
    }
}
#[cfg(not(feature = "t8"))]
fn small_case(_: &str, _: u64, _: &[N]) -> Option<String> { None }

struct Counting;
static ALLOC: AtomicU64 = AtomicU64::new(0);
unsafe impl std::alloc::GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 { ALLOC.fetch_add(l.size() as u64, Ordering::Relaxed); std::alloc::System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) { ALLOC.fetch_sub(l.size() as u64, Ordering::Relaxed); std::alloc::System.dealloc(p, l) }
}
#[global_allocator]
static GA: Counting = Counting;

fn guarded(prop: &str, case: &str) -> Option<Result<(), String>> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| exec(prop, case))) {
        Ok(r) => r,
        Err(e) => Some(Err(format!("crash: {}", e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default()))),
    }
}
const T: usize = 8;
static CUR: [Mutex<Option<(String, Instant)>>; T] = [const { Mutex::new(None) }; T];

pub fn vh_main() {
    let av: Vec<String> = std::env::args().collect();
    std::panic::set_hook(Box::new(|_| {}));
    std::thread::spawn(|| loop {
        std::thread::sleep(Duration::from_millis(50));
        for c in CUR.iter() {
            let g = c.lock().unwrap();
            if let Some((case, t)) = &*g {
                let mem = ALLOC.load(Ordering::Relaxed) > 6 << 30;
                if t.elapsed() > Duration::from_secs(15) || (mem && t.elapsed() > Duration::from_millis(300)) {
                    println!("CASE {}", case); println!("FAIL does not terminate or exhausts memory"); std::process::exit(1);
                }
            }
        }
    });
    if av[1] == "replay" {
        *CUR[0].lock().unwrap() = Some((av[3].clone(), Instant::now()));
        let r = guarded(&av[2], &av[3]);
        match r { None => println!("NOTRUN"), Some(Ok(())) => println!("HOLDS"), Some(Err(e)) => { println!("FAIL {}", e.replace('\n', " | ")); std::process::exit(1); } }
        return;
    }
    let prop = av[1].clone();
    let seed: u64 = av[2].parse().unwrap();
    let budget = Duration::from_millis(av[3].parse().unwrap());
    let dict: Vec<u128> = std::fs::read_to_string(&av[4]).unwrap_or_default().split_whitespace().map(unhex).collect();
    let fixed = fixed_cases(&prop);
    let mut nets: Vec<N> = vec![];
    for m in 0..256u128 { for b in 0..256u128 { if b & !m == 0 { nets.push((b, m)); } } }
    let start = Instant::now();
    let next = AtomicU64::new(0);
    let evals = AtomicU64::new(0);
    let small = AtomicU64::new(0);
    let stop = AtomicBool::new(false);
    let fail: Mutex<Option<(String, String)>> = Mutex::new(None);
    let samples: Mutex<Vec<String>> = Mutex::new(vec![]);
    let seen: Mutex<std::collections::HashSet<u64>> = Mutex::new(Default::default());
    let nf = fixed.len() as u64;
    std::thread::scope(|sc| {
        for t in 0..T {
            let (prop, fixed, next, evals, small, stop, fail, samples, seen, dict, nets) = (&prop, &fixed, &next, &evals, &small, &stop, &fail, &samples, &seen, &dict, &nets);
            sc.spawn(move || {
                let mut c = Ctx { rng: Rng::new(seed * 1000 + t as u64 + 17), dict: dict.clone(), heavy: true };
                let mut mine: std::collections::HashSet<u64> = Default::default();
                let mut small_done = false;
                while !stop.load(Ordering::Relaxed) && start.elapsed() < budget {
                    let i = next.fetch_add(1, Ordering::Relaxed);
                    let case = if i % 3 == 0 && i / 3 < nf { fixed[((i / 3).wrapping_mul(1_000_003) % nf) as usize].clone() }
                        else if !small_done && i % 3 == 1 { match small_case(prop, i / 3, nets) { Some(s) => { small.fetch_add(1, Ordering::Relaxed); s } None => { small_done = true; continue } } }
                        else { gen_case(prop, &mut c) };
                    *CUR[t].lock().unwrap() = Some((case.clone(), Instant::now()));
                    let r = guarded(prop, &case);
                    *CUR[t].lock().unwrap() = None;
                    if let Some(r) = r {
                        evals.fetch_add(1, Ordering::Relaxed);
                        let mut hs = std::collections::hash_map::DefaultHasher::new();
                        std::hash::Hash::hash(&case, &mut hs);
                        mine.insert(std::hash::Hasher::finish(&hs));
                        if i % 50021 == 7 { let mut s = samples.lock().unwrap(); if s.len() < 4 { s.push(case.clone()); } }
                        if let Err(e) = r { stop.store(true, Ordering::Relaxed); let mut f = fail.lock().unwrap(); if f.is_none() { *f = Some((case, e)); } }
                    }
                }
                seen.lock().unwrap().extend(mine);
            });
        }
    });
    println!("EVALS {}", evals.load(Ordering::Relaxed));
    println!("DISTINCT {}", seen.lock().unwrap().len());
    println!("SMALL {}", small.load(Ordering::Relaxed));
    for s in samples.lock().unwrap().iter() { println!("SAMPLE {}", s); }
    if let Some((c, e)) = fail.lock().unwrap().take() { println!("CASE {}", c.replace('\n', " ")); println!("FAIL {}", e.replace('\n', " | ")); std::process::exit(1); }
    println!("HOLDS");
    std::process::exit(0);
}
