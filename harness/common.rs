// Independent oracles, case generators and checkers.  Nothing in here uses code of /repo.
// Addresses are u128 values of `w` significant bits (w = 32, 128; 8 for the exhaustive test type).
#![allow(dead_code)]

pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64) -> Rng { Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03) }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 { if n == 0 { 0 } else { self.next() % n } }
    pub fn u128(&mut self) -> u128 { ((self.next() as u128) << 64) | self.next() as u128 }
    pub fn chance(&mut self, num: u64, den: u64) -> bool { self.below(den) < num }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { &v[self.below(v.len() as u64) as usize] }
}

pub struct Ctx { pub rng: Rng, pub dict: Vec<u128>, pub heavy: bool }

pub fn full(w: u32) -> u128 { if w >= 128 { u128::MAX } else { (1u128 << w) - 1 } }
pub fn shl(v: u128, k: u32) -> u128 { if k >= 128 { 0 } else { v << k } }
pub fn low(k: u32) -> u128 { if k >= 128 { u128::MAX } else { (1u128 << k) - 1 } }
pub fn pfx_mask(p: u32, w: u32) -> u128 { full(w) & !low(w - p.min(w)) }
pub fn prefix_of(mask: u128, w: u32) -> Option<u32> {
    let p = mask.count_ones();
    if pfx_mask(p, w) == mask { Some(p) } else { None }
}
pub fn hostbits(mask: u128, w: u32) -> u32 { w - mask.count_ones() }
/// network bits first, then host bits
pub fn pack(v: u128, mask: u128, w: u32) -> u128 {
    let mut net = 0u128; let mut host = 0u128;
    for i in (0..w).rev() {
        let b = (v >> i) & 1;
        if (mask >> i) & 1 == 1 { net = (net << 1) | b } else { host = (host << 1) | b }
    }
    shl(net, hostbits(mask, w)) | host
}
pub fn unpack(v: u128, mask: u128, w: u32) -> u128 {
    let mut r = 0u128;
    let h = hostbits(mask, w);
    let mut ni = w; let mut hi = h;
    for i in (0..w).rev() {
        let bit = if (mask >> i) & 1 == 1 { ni -= 1; (v >> ni) & 1 } else { hi -= 1; (v >> hi) & 1 };
        r |= bit << i;
    }
    r
}
pub fn broadcast(b: u128, m: u128, w: u32) -> u128 { b | (full(w) & !m) }
pub fn next_base(b: u128, m: u128, w: u32) -> Option<u128> {
    let p = pack(b, m, w);
    let inc = shl(1, hostbits(m, w));
    if hostbits(m, w) >= 128 { return None; }
    let n = p.checked_add(inc)?;
    if n & !full(w) != 0 { None } else { Some(unpack(n, m, w)) }
}
pub type N = (u128, u128);
pub fn sup(a: N, b: N) -> bool { b.0 & a.1 == a.0 && b.1 & a.1 == a.1 }
pub fn inter(a: N, b: N) -> bool { (a.0 ^ b.0) & a.1 & b.1 == 0 }

/// is every address of s covered by the union of nets?
pub fn covered(s: N, nets: &[N], w: u32) -> bool {
    let rel: Vec<N> = nets.iter().copied().filter(|n| inter(*n, s)).collect();
    if rel.iter().any(|n| sup(*n, s)) { return true; }
    let Some(n) = rel.first() else { return false };
    // split s on a bit which n fixes and s does not
    let d = n.1 & !s.1;
    let bit = 1u128 << (127 - d.leading_zeros());
    covered((s.0, s.1 | bit), &rel, w) && covered((s.0 | bit, s.1 | bit), &rel, w)
}

pub fn derange_oracle(a: u128, b: u128, w: u32) -> Vec<N> {
    let (mut lo, hi) = (a.min(b), a.max(b));
    let mut r = vec![];
    loop {
        let mut k = 0;
        while k < w && (lo & low(k + 1)) == 0 && (lo | low(k + 1)) <= hi { k += 1; }
        r.push((lo, full(w) & !low(k)));
        let last = lo | low(k);
        if last >= hi { return r; }
        lo = last + 1;
    }
}

pub fn check_minimized(input: &[N], out: &[N], w: u32) -> Result<(), String> {
    for n in out { if n.0 & !n.1 != 0 { return Err(format!("output network {:x?} has host bits set", n)); } }
    for n in input { if !covered(*n, out, w) { return Err(format!("input network {:x?} is no longer covered", n)); } }
    for n in out { if !covered(*n, input, w) { return Err(format!("output network {:x?} contains addresses outside of the input", n)); } }
    for i in 1..out.len() { if out[i - 1] >= out[i] { return Err(format!("output not strictly ascending: {:x?} before {:x?}", out[i-1], out[i])); } }
    for i in 0..out.len() { for j in 0..out.len() { if i != j {
        if sup(out[i], out[j]) { return Err(format!("{:x?} is contained in {:x?}", out[j], out[i])); }
        if i < j && out[i].1 == out[j].1 && out[i].1 != 0 {
            let lastbit = 1u128 << out[i].1.trailing_zeros();
            if out[i].0 ^ out[j].0 == lastbit { return Err(format!("{:x?} and {:x?} can still be merged", out[i], out[j])); }
        }
    } } }
    Ok(())
}

/// host bits needed for a count (None: no address space of width w is big enough)
pub fn need_bits(count: &Big, w: u32) -> Option<u32> {
    for k in 0..=w {
        // 2^k - 2 >= count
        let ok = match k { 0 => false, 128 => match count { Big::Small(c) => *c <= u128::MAX - 1, Big::Huge => false },
            _ => match count { Big::Small(c) => *c <= (1u128 << k) - 2, Big::Huge => false } };
        if ok { return Some(k); }
    }
    None
}
#[derive(Clone, Copy, Debug)]
pub enum Big { Small(u128), Huge }
pub fn parse_big(s: &str) -> Big { match s.parse::<u128>() { Ok(v) => Big::Small(v), Err(_) => Big::Huge } }
/// sizes fit into a network with h host bits?
pub fn fits(ks: &[Option<u32>], h: u32) -> bool {
    let mut left: Option<u128> = if h >= 128 { None } else { Some(1u128 << h) }; // None = 2^128
    for k in ks {
        let Some(k) = *k else { return false };
        if k > h { return false; }
        left = match left {
            None => if k >= 128 { Some(0) } else { Some((u128::MAX - (1u128 << k)) + 1) },
            Some(l) => { if k >= 128 || l < (1u128 << k) { return false; } Some(l - (1u128 << k)) }
        };
        // "None" minus nothing cannot occur: every slice has at least 2 addresses
    }
    true
}
/// slices (in request order) for the given needs, if everything fits
pub fn check_slices(net: N, ks: &[Option<u32>], slices: &[N], w: u32) -> Result<(), String> {
    if slices.len() != ks.len() { return Err(format!("{} slices for {} requests", slices.len(), ks.len())); }
    for (i, (s, k)) in slices.iter().zip(ks).enumerate() {
        let want = full(w) & !low(k.unwrap());
        if s.1 != want { return Err(format!("slice {}: {:x?} has mask {:x}, smallest sufficient one is {:x}", i, s, s.1, want)); }
        if s.0 & !s.1 != 0 { return Err(format!("slice {}: {:x?} not aligned", i, s)); }
        if !sup(net, *s) { return Err(format!("slice {}: {:x?} outside of {:x?}", i, s, net)); }
        for (j, t) in slices.iter().enumerate().take(i) { if inter(*s, *t) { return Err(format!("slices {} {:x?} and {} {:x?} overlap", j, t, i, s)); } }
    }
    Ok(())
}
pub fn check_unused(net: N, slices: &[N], unused: &[N], w: u32) -> Result<(), String> {
    let mut all: Vec<N> = slices.to_vec();
    for (i, u) in unused.iter().enumerate() {
        if u.0 & !u.1 != 0 { return Err(format!("unused {:x?} has host bits set", u)); }
        if !sup(net, *u) { return Err(format!("unused {:x?} outside of {:x?}", u, net)); }
        for s in &all { if inter(*u, *s) { return Err(format!("unused {:x?} overlaps {:x?}", u, s)); } }
        if i > 0 && unused[i - 1].0 >= u.0 { return Err(format!("unused networks not ascending at {:x?}", u)); }
        all.push(*u);
    }
    if !covered(net, &all, w) { return Err(format!("slices and unused networks do not fill {:x?}", net)); }
    Ok(())
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Ord3 { Less, Equal, Greater }
pub fn resize_oracle(b: u128, m: u128, nm: u128, w: u32, limit: usize) -> (Vec<u128>, Ord3) {
    let (zi, zn) = (hostbits(m, w), hostbits(nm, w));
    let p = pack(b, m, w);
    if zn > zi { (vec![unpack(p & !low(zn), nm, w)], Ord3::Less) }
    else if zn == zi { (vec![unpack(p, nm, w)], Ord3::Equal) }
    else {
        let n = if zi - zn >= 64 { u64::MAX } else { 1u64 << (zi - zn) };
        ((0..n.min(limit as u64)).map(|k| unpack(p | ((k as u128) << zn), nm, w)).collect(), Ord3::Greater)
    }
}

// ---------------------------------------------------------------- text
pub fn v4(v: u128) -> String { format!("{}.{}.{}.{}", v >> 24 & 255, v >> 16 & 255, v >> 8 & 255, v & 255) }
pub fn groups(v: u128) -> [u16; 8] { let mut g = [0u16; 8]; for i in 0..8 { g[i] = (v >> (112 - 16 * i)) as u16; } g }
pub fn v6(v: u128) -> String { groups(v).iter().map(|g| format!("{:x}", g)).collect::<Vec<_>>().join(":") }
pub fn v6full(v: u128) -> String { groups(v).iter().map(|g| format!("{:04x}", g)).collect::<Vec<_>>().join(":") }
pub fn v6short(v: u128, start: usize, len: usize) -> String {
    let g = groups(v);
    let a = g[..start].iter().map(|g| format!("{:x}", g)).collect::<Vec<_>>().join(":");
    let b = g[start + len..].iter().map(|g| format!("{:x}", g)).collect::<Vec<_>>().join(":");
    format!("{}::{}", a, b)
}
pub fn text(v: u128, w: u32) -> String { if w == 32 { v4(v) } else { v6(v) } }
/// strict reader of the standard notation
pub fn read_addr(s: &str, w: u32) -> Option<u128> {
    if w == 32 {
        let p: Vec<&str> = s.split('.').collect();
        if p.len() != 4 { return None; }
        let mut v = 0u128;
        for c in p {
            if c.is_empty() || c.len() > 3 || !c.bytes().all(|b| b.is_ascii_digit()) { return None; }
            let n: u32 = c.parse().ok()?;
            if n > 255 { return None; }
            v = v << 8 | n as u128;
        }
        Some(v)
    } else {
        fn gs(s: &str) -> Option<Vec<u16>> {
            if s.is_empty() { return Some(vec![]); }
            s.split(':').map(|c| if c.is_empty() || c.len() > 4 || !c.bytes().all(|b| b.is_ascii_hexdigit()) { None } else { u16::from_str_radix(c, 16).ok() }).collect()
        }
        let p: Vec<&str> = s.split("::").collect();
        let g = match p.len() {
            1 => gs(p[0])?,
            2 => { let mut a = gs(p[0])?; let b = gs(p[1])?; if a.len() + b.len() > 7 { return None; }
                   while a.len() + b.len() < 8 { a.push(0); } a.extend(b); a }
            _ => return None,
        };
        if g.len() != 8 { return None; }
        Some(g.iter().fold(0u128, |v, g| v << 16 | *g as u128))
    }
}
pub fn read_net(s: &str, w: u32) -> Option<N> {
    let (a, m) = s.split_once('/')?;
    let b = read_addr(a, w)?;
    let mask = if m.bytes().all(|b| b.is_ascii_digit()) && !m.is_empty() { let p: u32 = m.parse().ok()?; if p > w { return None; } pfx_mask(p, w) } else { read_addr(m, w)? };
    Some((b, mask))
}
pub fn net_text(b: u128, m: u128, w: u32) -> String {
    match prefix_of(m, w) { Some(p) => format!("{}/{}", text(b, w), p), None => format!("{}/{}", text(b, w), text(m, w)) }
}
pub fn binary(v: u128, w: u32) -> String {
    let mut s = String::new();
    for i in (0..w).rev() { s.push(if v >> i & 1 == 1 { '1' } else { '0' });
        if i > 0 && ((w == 32 && i % 8 == 0) || (w == 128 && i % 16 == 0)) { s.push(if w == 32 { '.' } else { ':' }); } }
    s
}
pub fn class_of(b: u128, m: u128) -> &'static str {
    let t = |k: u32| (b >> (32 - k), m >> (32 - k));
    if t(1) == (0, 1) { "Class A" } else if t(2) == (2, 3) { "Class B" } else if t(3) == (6, 7) { "Class C" }
    else if t(4) == (14, 15) { "Class D (multicast)" } else if t(4) == (15, 15) { "Class E (reserved)" } else { "" }
}

// ---------------------------------------------------------------- generators
impl Ctx {
    pub fn w(&mut self) -> u32 { if self.rng.chance(1, 2) { 32 } else { 128 } }
    pub fn addr(&mut self, w: u32) -> u128 {
        let r = &mut self.rng;
        let v = match r.below(12) {
            0 => 0,
            1 => u128::MAX,
            2 => 1u128 << r.below(w as u64),
            3 => low(r.below(w as u64 + 1) as u32),
            4 => !low(r.below(w as u64 + 1) as u32),
            5 | 6 if !self.dict.is_empty() => {
                let d = *r.pick(&self.dict);
                let d = match r.below(6) { 0 => d, 1 => d.wrapping_add(1), 2 => d.wrapping_sub(1), 3 => shl(d, 8 * r.below(16) as u32), 4 => shl(d, r.below(w as u64) as u32), _ => !d };
                if r.chance(1, 4) { d ^ shl(r.u128(), r.below(w as u64) as u32) } else { d }
            }
            7 => { let mut v = 0u128; for _ in 0..16 { v = v << 8 | *r.pick(&[0u128, 0, 1, 0x7f, 0x80, 0xfe, 0xff, 0xff, 10, 192]); } v }
            8 => { let mut v = 0u128; for _ in 0..8 { v = v << 16 | if r.chance(1, 2) { 0 } else { r.next() as u128 & 0xffff }; } v }
            9 => { let k = r.below(w as u64) as u32; (r.u128() << k) | if r.chance(1, 2) { low(k) } else { 0 } }
            10 => full(w) - (r.below(20) as u128),
            _ => r.u128(),
        };
        v & full(w)
    }
    pub fn mask(&mut self, w: u32) -> u128 {
        let r = &mut self.rng;
        let p = r.below(w as u64 + 1) as u32;
        let m = pfx_mask(p, w);
        let x = match r.below(10) {
            0 | 1 | 2 | 3 => m,
            4 => m ^ (1u128 << r.below(w as u64)),
            5 => m ^ (1u128 << r.below(w as u64)) ^ (1u128 << r.below(w as u64)),
            6 => { let mut v = 0u128; for _ in 0..16 { v = v << 8 | *r.pick(&[0u128, 0xff, 0xff, 0, 0xf0, 0x0f, 0x55, 0xfe, 0x7f, 0x80]); } v }
            7 => r.u128(),
            8 => { let a = r.below(w as u64) as u32; let b = r.below(w as u64) as u32; !(low(a.max(b)) & !low(a.min(b))) }
            _ => self.addr(w),
        }; x & full(w)
    }
    pub fn net(&mut self, w: u32) -> N { let m = self.mask(w); (self.addr(w) & m, m) }
    /// network with at most k host bits
    pub fn small_net(&mut self, w: u32, k: u32) -> N {
        let h = self.rng.below(k.min(w) as u64 + 1) as u32;
        let mut m = full(w);
        if self.rng.chance(1, 2) { m &= !low(h); } else { for _ in 0..h { m &= !(1u128 << self.rng.below(w as u64)); } }
        (self.addr(w) & m, m)
    }
    pub fn pair(&mut self, w: u32) -> (u128, u128) {
        let a = self.addr(w);
        let b = match self.rng.below(6) { 0 => a, 1 => a.wrapping_add(self.rng.below(2000) as u128), 2 => a ^ (1u128 << self.rng.below(w as u64)),
            3 => a.wrapping_sub(self.rng.below(2000) as u128), _ => self.addr(w) } & full(w);
        (a, b)
    }
    /// a list of related networks
    pub fn nets(&mut self, w: u32, maxn: u64) -> Vec<N> {
        let n = 1 + self.rng.below(maxn);
        let mut v: Vec<N> = vec![self.net(w)];
        if self.rng.chance(1, 2) { // cluster around few low (or spread) bits
            let nb = 2 + self.rng.below(4) as u32;
            let mut pos: Vec<u32> = vec![];
            while (pos.len() as u32) < nb { let p = if self.rng.chance(1, 2) { self.rng.below(6) as u32 } else { self.rng.below(w as u64) as u32 }; if !pos.contains(&p) { pos.push(p); } }
            let base = self.addr(w);
            v.clear();
            for _ in 0..n {
                let mut m = full(w); let mut b = base;
                for p in &pos { if self.rng.chance(1, 2) { b ^= 1u128 << p; } if self.rng.chance(1, 3) { m &= !(1u128 << p); } }
                v.push((b & m, m));
            }
            return v;
        }
        for _ in 1..n {
            let (b, m) = *self.rng.pick(&v);
            let lastbit = if m == 0 { 0 } else { 1u128 << m.trailing_zeros() };
            let x = match self.rng.below(8) {
                0 => (b, m),
                1 | 2 => (b ^ lastbit, m),
                3 => { let m2 = m & !lastbit; (b & m2, m2) }
                4 => { let h = full(w) & !m; let bit = if h == 0 { 0 } else { 1u128 << (127 - h.leading_zeros()) }; let m2 = m | bit; (b | if self.rng.chance(1, 2) { bit } else { 0 }, m2) }
                5 => match next_base(b, m, w) { Some(nb) => (nb, m), None => (b, m) },
                6 => { let m2 = m ^ (1u128 << self.rng.below(w as u64)); (b & m2, m2) }
                _ => self.net(w),
            };
            v.push(x);
        }
        v
    }
}

pub fn hex(v: u128) -> String { format!("{:x}", v) }
pub fn unhex(s: &str) -> u128 { u128::from_str_radix(s, 16).unwrap() }
pub fn args(case: &str) -> Vec<&str> { case.split(' ').collect() }
pub fn nets_from(a: &[&str]) -> Vec<N> { a.iter().map(|s| { let (b, m) = s.split_once('/').unwrap(); (unhex(b), unhex(m)) }).collect() }
pub fn nets_text(v: &[N]) -> String { v.iter().map(|(b, m)| format!("{:x}/{:x}", b, m)).collect::<Vec<_>>().join(" ") }

/// Random cases for a property; `w8` adds cases for the 8-bit test type.
pub fn gen_case(prop: &str, c: &mut Ctx) -> String {
    let w = c.w();
    match prop {
        "C01" | "C02" => {
            let (a, b) = if c.rng.chance(1, 2) { (c.addr(w), c.addr(w)) } else { c.pair(w) };
            let off = match c.rng.below(6) { 0 => *c.rng.pick(&[0i32, 1, -1, i32::MIN, i32::MAX, i32::MIN + 1, 2, -2, 255, 256, -256]), 1 => c.addr(32) as u32 as i32,
                2 => c.rng.next() as i32, 3 => (full(w) - a).min(i32::MAX as u128) as i32, 4 => -(a.min(i32::MAX as u128) as i32), _ => c.rng.below(100) as i32 - 50 };
            format!("addr {} {:x} {:x} {}", w, a, b, off)
        }
        "C03" => {
            let n = match c.rng.below(4) { 0 => 4, 1 => 16, _ => if c.rng.chance(1, 20) { c.rng.below(600) } else { c.rng.below(21) } };
            let p = if c.rng.chance(1, 10) { n * 8 } else { c.rng.below(n * 8 + 12) };
            let mut bytes: Vec<u8> = (0..n).map(|i| { let left = p.saturating_sub(i * 8).min(8) as u32; (0xff00u32 >> left) as u8 }).collect();
            if n > 0 && c.rng.chance(2, 3) { for _ in 0..1 + c.rng.below(2) { let i = c.rng.below(n) as usize; bytes[i] = match c.rng.below(3) { 0 => 0, 1 => (0xff00u32 >> c.rng.below(9)) as u8, _ => c.rng.next() as u8 }; } }
            let p2 = match c.rng.below(8) { 0 => *c.rng.pick(&[u64::MAX, 1 << 32, 256, 129, 33]), 1 => c.addr(32) as u64, _ => p };
            format!("mask {} {} {}", p2, n, bytes.iter().map(|b| format!("{:02x}", b)).collect::<String>())
        }
        "C04" => { let m = c.mask(w); let a = c.addr(w); let n = if c.rng.chance(1, 50) { c.rng.below(3000) } else { c.rng.below(40) }; let bits: String = (0..n).map(|_| if c.rng.chance(1, 2) { '1' } else { '0' }).collect(); format!("perm {} {:x} {:x} b{}", w, a, m, bits) }
        "C05" | "C06" | "C08" | "C16" => { let m = c.mask(w); let a = if c.rng.chance(1, 4) { c.addr(w) & m } else { c.addr(w) }; format!("net {} {:x} {:x}", w, a, m) }
        "C07" => { let v = c.nets(w, 3); let a = v[0]; let b = v[v.len() - 1]; let x = match c.rng.below(3) { 0 => c.addr(w), 1 => a.0 | (c.rng.u128() & !a.1 & full(w)), _ => (a.0 | (c.rng.u128() & !a.1 & full(w))) ^ (1u128 << c.rng.below(w as u64)) }; format!("rel {} {:x}/{:x} {:x}/{:x} {:x}", w, a.0, a.1, b.0, b.1, x) }
        "C09" => { let (a, b) = c.pair(w); format!("derange {} {:x} {:x}", w, a, b) }
        "C10" => {
            if c.heavy && c.rng.chance(1, 300) || c.rng.chance(1, 2000) { return block_case(c, w); }
            let k = if c.rng.chance(1, 1000) { 140 } else if c.rng.chance(1, 40) { 40 } else { 7 }; let v = c.nets(w, k); format!("minimize {} {}", w, nets_text(&v)) }
        "C11" => {
            let h = if c.rng.chance(2, 3) { c.rng.below(13) as u32 } else { c.rng.below(w as u64 + 1) as u32 };
            let m = full(w) & !low(h);
            let a = c.addr(w) & m;
            let n = if c.rng.chance(1, 300) { 1 + c.rng.below(700) } else if c.rng.chance(1, 20) { 1 + c.rng.below(40) } else { 1 + c.rng.below(6) };
            let h = if n > 40 && c.rng.chance(2, 3) { c.rng.below(6) as u32 } else { h };
            let (a, m) = if n > 40 { let m = full(w) & !low((h + 12).min(w)); (a & m, m) } else { (a, m) };
            let counts: Vec<String> = (0..n).map(|_| {
                let k = match c.rng.below(5) { 0 => c.rng.below(w as u64 + 2) as u32, 1 => h, 2 => h.saturating_sub(1), _ => h.saturating_sub(c.rng.below(6) as u32) };
                let top = low(k);
                match c.rng.below(6) { 0 => top.saturating_sub(1), 1 => top, 2 => top.saturating_sub(2), 3 => top / 2, 4 => c.rng.u128() & top, _ => c.rng.below(6) as u128 }.to_string()
            }).collect();
            let extra = if c.rng.chance(1, 200) { " 340282366920938463463374607431768211456" } else { "" };
            format!("split {} {:x}/{:x} {}{}", w, a, m, counts.join(" "), extra)
        }
        "C12" => {
            let (b, m) = c.net(w);
            if c.heavy && c.rng.chance(1, 3000) { // many subnets
                let h = (13 + c.rng.below(4) as u32).max(hostbits(m, w).min(17));
                let (b, m) = (b & !low(h), full(w) & !low(h));
                return format!("resize {} {:x}/{:x} {:x} big", w, b, m, full(w));
            }
            let nm = if c.rng.chance(1, 2) {
                let z = hostbits(m, w) as i64 - c.rng.below(9) as i64 + if c.rng.chance(1, 4) { 6 } else { 0 };
                let z = z.clamp(0, w as i64) as u32;
                if c.rng.chance(1, 2) { full(w) & !low(z) } else { // a random mask with z zeros
                    let mut x = m; let mut guard = 0;
                    while hostbits(x, w) != z && guard < 4000 { let bit = 1u128 << c.rng.below(w as u64); guard += 1;
                        if hostbits(x, w) < z { x &= !bit } else { x |= bit } }
                    x }
            } else { c.mask(w) };
            format!("resize {} {:x}/{:x} {:x}", w, b, m, nm)
        }
        "C13" => { let big = c.heavy && c.rng.chance(1, 2000); let (b, m) = if big { c.small_net(w, 17) } else if c.rng.chance(2, 3) { c.small_net(w, 9) } else { c.net(w) }; let b = if c.rng.chance(1, 5) { full(w) & m } else { b }; format!("enum {} {:x}/{:x}{}", w, b, m, if big { " big" } else { "" }) }
        "C14" => gen_text(c, w),
        "C15" => gen_spec(c, w),
        "C17" => gen_cli(c),
        _ => panic!("unknown property"),
    }
}

/// many networks of one size side by side (regrouped for a lopsided mask), shuffled, a few of them missing
fn block_case(c: &mut Ctx, w: u32) -> String {
    let n = 60 + c.rng.below(560) as u128;
    let m = c.mask(w);
    let h = hostbits(m, w);
    let m = if w - h < 12 { full(w) } else { m };
    let h = hostbits(m, w);
    let first = if c.rng.chance(1, 2) { (c.addr(w) >> 10 << 10) & full(w) } else { c.addr(w) };
    let top = low(w - h);
    let mut v: Vec<N> = (0..n).filter_map(|i| { let k = (first & top).checked_add(i)?; if k > top { return None; } Some((unpack(shl(k, h), m, w), m)) }).collect();
    if c.rng.chance(1, 2) { for _ in 0..c.rng.below(4) { if v.len() > 2 { let i = c.rng.below(v.len() as u64) as usize; v.remove(i); } } }
    for i in 0..v.len() { let j = c.rng.below(v.len() as u64) as usize; v.swap(i, j); }
    format!("minimize {} {}", w, nets_text(&v))
}
/// large invocations for the black-box run, each tried once before the other cases
pub fn big_cases(prop: &str, c: &mut Ctx) -> Vec<String> {
    let mut v: Vec<String> = vec![];
    match prop {
        "C10" => for w in [32, 128] { for _ in 0..3 { v.push(block_case(c, w)); } },
        "C11" => for w in [32u32, 128] { let cs: Vec<String> = (0..600).map(|_| c.rng.below(7).to_string()).collect(); let m = full(w) & !low(14); v.push(format!("split {} {:x}/{:x} {}", w, c.addr(w) & m, m, cs.join(" "))); },
        "C12" => { for w in [32u32, 128] { let m = full(w) & !low(16); v.push(format!("resize {} {:x}/{:x} {:x} big", w, c.addr(w) & m, m, full(w))); } let m = full(32) & !low(24); v.push(format!("resize 32 {:x}/{:x} {:x} big", c.addr(32) & m, m, full(32) & !low(10))); }
        "C13" => for w in [32u32, 128] { let m = full(w) & !low(17); v.push(format!("enum {} {:x}/{:x} big", w, c.addr(w) & m, m)); let m = full(w) & !(low(9) | low(9) << 14); v.push(format!("enum {} {:x}/{:x} big", w, c.addr(w) & m, m)); },
        "C17" => {
            let specs = |c: &mut Ctx, w: u32| -> Vec<String> { (0..400).map(|_| { let (b, m) = c.small_net(w, 3); net_text(b, m, w) }).collect() };
            for w in [32u32, 128] {
                v.push(format!("cli 0 {}", specs(c, w).join("\x1f")));
                v.push(format!("cli 0 -m\x1f{}", specs(c, w).join("\x1f")));
                v.push(format!("cli 0 -e\x1f{}", specs(c, w).join("\x1f")));
                v.push(format!("cli 1 {}\x1f{}", specs(c, w).join("\x1f"), "x"));
                v.push(format!("cli 1 {}\x1f{}", specs(c, w).join("\x1f"), RAW));
                for m in ["-e", "-m", "-s", "-r", "-d"] { v.push(format!("cli 1 {}\x1f{}", m, if m == "-e" || m == "-m" { format!("{}/8", RAW) } else { format!("{}\x1f{}", RAW, RAW) })); }
                v.push(format!("cli 1 -m\x1f{}\x1f1.2.3.4/8\x1f::/0", specs(c, w).join("\x1f")));
                v.push(format!("cli 1 {}", "1".repeat(70000)));
            }
            for t in [RAW.to_string(), format!("1.2.3.4/{}", RAW), format!("1.2.3.4{}/8", RAW), format!("::{}/8", RAW)] { v.push(format!("cli 1 {}", t)); v.push(format!("cli 1 -s\x1f1.2.3.4/8\x1f{}", t)); v.push(format!("cli 1 -r\x1f1.2.3.4/8\x1f{}", t)); v.push(format!("cli 1 -d\x1f1.2.3.4\x1f{}", t)); }
        }
        _ => {}
    }
    v
}
/// stands for the byte ff in an argument (the black-box run puts that byte, which is not UTF-8, in its place)
pub const RAW: &str = "\u{e0ff}";
/// stands for a line break (cases are written one on a line)
pub const BREAK: &str = "\u{e00a}";

/// a number just above the limit, or one that a conversion to fewer bits brings below it
fn beyond(c: &mut Ctx, limit: u128) -> u128 {
    let v = match c.rng.below(6) {
        0 => limit + 1, 1 => limit + 1 + c.rng.below(4) as u128, 2 => limit + 1 + c.rng.u128() % (limit + 1),
        3 => (1u128 << *c.rng.pick(&[8u32, 16, 32, 64])) + c.rng.u128() % (limit + 1),
        4 => c.addr(128) >> c.rng.below(120), _ => 1u128 << (c.rng.below(100) as u32) };
    if v > limit { v } else { limit + 1 }
}
/// text with a few characters changed, and the address it denotes, if any (none if that is debatable: leading zeros)
fn mutated(c: &mut Ctx, w: u32) -> Option<(Option<u128>, String)> {
    let v = { let mut v = c.addr(w); if w == 128 { for i in 0..8 { if c.rng.chance(1, 2) { v &= !(0xffffu128 << (16 * i)); } } } v };
    let g = groups(v);
    let mut t: Vec<char> = match (0..8).find(|i| w == 128 && g[*i] == 0) {
        Some(s) if c.rng.chance(2, 3) => { let mut l = 1; while s + l < 8 && g[s + l] == 0 { l += 1; } v6short(v, s, l) } _ => text(v, w) }.chars().collect();
    let pool: Vec<char> = if w == 32 { "0123456789..:+-x".chars().collect() } else { "0123456789abcdefABF:::.+-g".chars().collect() };
    if c.rng.chance(1, 12) { // white space and characters that are digits or letters elsewhere
        let x = *c.rng.pick(&[' ', ' ', '\t', '\u{a0}', '\u{3000}', '٣', '３', '²', 'é', '\u{200b}', '\0', '।', '．', '：', '/', '%', '[', ']', '-', '_', ',']);
        let x = if x == '\0' { '~' } else { x };
        let i = match c.rng.below(3) { 0 => 0, 1 => t.len(), _ => c.rng.below(t.len() as u64 + 1) as usize };
        if i < t.len() && c.rng.chance(1, 2) { t[i] = x; } else { t.insert(i, x); }
        return Some((None, t.into_iter().collect()));
    }
    for _ in 0..1 + c.rng.below(3) {
        let i = c.rng.below(t.len() as u64 + 1) as usize;
        match c.rng.below(4) { 0 if i < t.len() => { t.remove(i); } 1 if i < t.len() => t[i] = *c.rng.pick(&pool), 2 if i < t.len() => { let x = t[i]; t.insert(i, x); } _ => t.insert(i, *c.rng.pick(&pool)) }
    }
    let s: String = t.iter().collect();
    let r = read_addr(&s, w);
    if s.is_empty() || r.is_none() && s.split(|x| x == ':' || x == '.').any(|p| p.len() > (if w == 32 { 3 } else { 4 }) && p.starts_with('0')) { return None; }
    Some((r, s))
}
fn gen_text(c: &mut Ctx, w: u32) -> String {
    if c.rng.chance(1, 4) { if let Some((r, t)) = mutated(c, w) { return match r { Some(v) => format!("parse {} {:x} {}", w, v, t), None => format!("parse {} ERR {}", w, t) }; } }
    if c.rng.chance(1, 3) { let v = c.addr(w); return format!("show {} {:x}", w, v); }
    let mut v = c.addr(w);
    if w == 128 { for i in 0..8 { if c.rng.chance(1, 3) { v &= !(0xffffu128 << (16 * i)); } } }
    let valid = c.rng.chance(1, 2);
    if w == 32 {
        if valid { return format!("parse 32 {:x} {}", v, v4(v)); }
        let mut p: Vec<String> = v4(v).split('.').map(String::from).collect();
        let i = c.rng.below(4) as usize;
        match c.rng.below(8) {
            7 => p[i] = format!("+{}", p[i]),
            0 => { p.remove(i); } 1 => p.insert(i, c.rng.below(256).to_string()), 2 => p[i] = beyond(c, 255).to_string(),
            3 => p[i] = String::new(), 4 => p[i] = format!("{}x", p[i]), 5 => p[i] = "99999999999".into(), _ => p[i] = c.rng.pick(&["a", "0x1", "-1", "é", "²"]).to_string(),
        }
        return format!("parse 32 ERR {}", p.join("."));
    }
    if valid {
        let g = groups(v);
        let zeros: Vec<usize> = (0..8).filter(|i| g[*i] == 0).collect();
        let t = if zeros.is_empty() || c.rng.chance(1, 4) { if c.rng.chance(1, 2) { v6(v) } else { v6full(v) } } else {
            let s = *c.rng.pick(&zeros); let mut l = 1; while s + l < 8 && g[s + l] == 0 && c.rng.chance(3, 4) { l += 1; }
            v6short(v, s, l) };
        let t = if c.rng.chance(1, 6) { t.to_uppercase() } else { t };
        return format!("parse 128 {:x} {}", v, t);
    }
    let mut p: Vec<String> = v6(v | 0x0001_0001_0001_0001_0001_0001_0001_0001).split(':').map(String::from).collect();
    let i = c.rng.below(8) as usize;
    match c.rng.below(8) {
        6 => p[i] = format!("+{}", p[i]),
        7 => return format!("parse 128 ERR {}", c.rng.pick(&["", ":", ":::", ":1:2:3:4:5:6:7", "1:2:3:4:5:6:7:", ":1:2:3:4:5:6:7:8", "1:2:3:4:5:6:7:8:", ":1::2", "1::2:", "1:2:3:4:5:6:7:8::", "::1:2:3:4:5:6:7:8"])),
        0 => { p.remove(i); } 1 => p.insert(i, format!("{:x}", c.rng.below(0x10000))), 2 => { p[i] = format!("{:x}", beyond(c, 0xffff)); if c.rng.chance(1, 3) { let k = c.rng.below(8) as usize; if k != i { p[k] = String::new(); if k == 0 { p.insert(0, String::new()); } else if k == 7 { p.push(String::new()); } } } }
        3 => p[i] = c.rng.pick(&["g", "12g", "-1", "x", "é", "1.2"]).to_string(),
        4 => { return format!("parse 128 ERR {}", c.rng.pick(&["1::2::3", "::1::", "1:2::3:4::5", "::2::", "1:::2", "1:2:3:4::5:6:7:8:9", "::1:2:3:4:5:6:7:8:9", "1:2:3", "1:2:3:4:5:6:7", "1:2:3:4:5:6:7:8:9"])); }
        _ => { let mut q = p.clone(); q.truncate(6); q.insert(1, String::new()); q.insert(4, String::new()); p = q; }
    }
    format!("parse 128 ERR {}", p.join(":"))
}
fn gen_spec(c: &mut Ctx, w: u32) -> String {
    let a = c.addr(w); let m = c.mask(w);
    if c.rng.chance(3, 4) { return format!("spec {} {:x} {:x}", w, a, m); }
    let o = if w == 32 { 128 } else { 32 };
    let a2 = c.addr(o);
    let t = match c.rng.below(17) {
        15 => { // a network among other text
            let n = format!("{}/{}", text(a, w), match prefix_of(m, w) { Some(p) if c.rng.chance(1, 2) => p.to_string(), _ => text(m, w) });
            let j = *c.rng.pick(&[BREAK, BREAK, " ", "\t", ",", ";", "\u{a0}", "x"]); let k = *c.rng.pick(&["", "", "x", "1", "1.2.3.4/8", "::/8"]);
            if c.rng.chance(1, 2) { format!("{}{}{}", k, j, n) } else { format!("{}{}{}", n, j, k) }
        }
        16 => { // enclosed
            let (x, y) = *c.rng.pick(&[("[", "]"), ("(", ")"), ("<", ">"), ("\"", "\""), ("'", "'")]); let p = prefix_of(m, w).unwrap_or(8);
            if c.rng.chance(1, 2) { format!("{}{}{}/{}", x, text(a, w), y, p) } else { format!("{}{}/{}{}", x, text(a, w), p, y) }
        }
        10 => if w == 32 { format!("{}/+{}", text(a, w), prefix_of(m, w).unwrap_or(1)) } else { format!("{}/+{}", text(a, w), text(m, w)) },
        11 => if w == 32 { format!("+{}/8", text(a, w)) } else { format!("+{}/8", text(a, w)) },
        12 => if w == 32 { format!("{}/8", text(a, w).replacen(".", ":", 1)) } else { format!("{}/{}", c.rng.pick(&[":", ":1::2", "1::2:", "1:2:3:4:5:6:7:", ":1:2:3:4:5:6:7"]), c.rng.below(129)) },
        0 => format!("{}/{}", text(a, w), beyond(c, w as u128)),
        1 => format!("{}/-{}", text(a, w), beyond(c, w as u128)),
        2 => format!("{}/{}", text(a, w), text(a2, o)),
        3 => format!("{}/-{}", text(a, w), text(a2, o)),
        4 => format!("{}", text(a, w)),
        5 => format!("{}/", text(a, w)),
        6 => format!("{}/x{}", text(a, w), prefix_of(m, w).unwrap_or(1)),
        7 => if w == 32 { format!("1.2.3.{}/{}", beyond(c, 255), 8) } else { format!("1:2:3:4:5:6:7:{:x}/{}", beyond(c, 0xffff), 8) },
        8 => if w == 32 { format!("1.2.3.4/255.255.{}.0", beyond(c, 255)) } else { format!("1::2/ffff:{:x}::", beyond(c, 0xffff)) },
        13 | 14 => match mutated(c, w) { Some((None, t)) => if c.rng.chance(1, 2) { format!("{}/{}", t, prefix_of(m, w).unwrap_or(8)) } else if t.chars().all(|x| x.is_ascii_digit() || x == '-') || read_addr(t.trim_start_matches('-'), w).is_some() { return format!("spec {} {:x} {:x}", w, a, m) } else { format!("{}/{}", text(a, w), t.trim_start_matches('-')) }, _ => return format!("spec {} {:x} {:x}", w, a, m) },
        _ => format!("{}/{}", text(a, w), "99999999999999999999999"),
    };
    format!("badspec {}", t)
}
/// cli STATUS ARGS... (separated by \x1f); STATUS 0, 1 (with empty stdout), 1o (stdout allowed), any
pub fn gen_cli(c: &mut Ctx) -> String {
    let w = c.w(); let o = if w == 32 { 128 } else { 32 };
    let okspec = |c: &mut Ctx, w: u32| { let (b, m) = c.small_net(w, 5); net_text(b, m, w) };
    let badspec = |c: &mut Ctx, w: u32| -> String { if c.rng.chance(1, 3) { c.rng.pick(&["", "x", "1.2.3.4", "::1", "1.2.3.4/33", "1.2.3.4/-33", "::/129", "1.2.3.4/", "/24", "1.2.3/8", "1.2.3.4.5/8", "1.2.3.999/8", "1.2.3.4/255.255.255.256", "1.2.3.4/::", "::1/255.0.0.0", "1::2::3/64", "-", "--", "--bogus", "\u{e9}/3", "1.2.3.4/99999999999999999999", "g::/8", "1.2.3.4/8 ", " 1.2.3.4/8", "1.2.3.4//8", "1:2:3:4:5:6:7:8:9/64", "12345::/16", "1.2.3.4/8/8"]).to_string() } else { loop { let s = gen_spec(c, w); if let Some(t) = s.strip_prefix("badspec ") { return t.to_string(); } } } };
    let badaddr = |c: &mut Ctx| -> String { if c.rng.chance(1, 2) { if let Some((None, t)) = mutated(c, w) { if t.trim_start_matches('+').parse::<u128>().is_err() { return t; } } } c.rng.pick(&["", "x", "1.2.3", "1.2.3.256", "1.2.3.4.5", "1..2.3", "::1::", "12345::", "1:2:3", ":", "1.2.3.4:5", "1.2.3.4/8", "g::", "17", "1.2.3.a"]).to_string() };
    let mode = |c: &mut Ctx, s: &str| -> String { match (s, c.rng.chance(1, 2)) { ("m", true) => "-m", ("m", _) => "--minimize", ("d", true) => "-d", ("d", _) => "--derange", ("s", true) => "-s", ("s", _) => "--split", ("r", true) => "-r", ("r", _) => "--resize", ("e", true) => "-e", (_, _) => "--enumerate" }.to_string() };
    let mut a: Vec<String> = vec![];
    let st;
    match c.rng.below(22) {
        0 => { st = "1"; if c.rng.chance(1, 2) { let x = *c.rng.pick(&["m", "d", "s", "r", "e"]); a.push(mode(c, x)); if x != "m" && x != "e" && c.rng.chance(1, 2) { a.push(if x == "d" { text(c.addr(w), w) } else { okspec(c, w) }); } } }
        1 => { st = "0"; for _ in 0..1 + c.rng.below(3) { let w = c.w(); a.push(okspec(c, w)); } }
        2 | 3 => { st = "1"; for _ in 0..c.rng.below(3) { a.push(okspec(c, w)); } let i = c.rng.below(a.len() as u64 + 1) as usize; let b = badspec(c, w); a.insert(i, b); if a[0].starts_with("-") { a.insert(0, okspec(c, w)); } }
        4 => { st = "0"; a.push(mode(c, "m")); for _ in 0..1 + c.rng.below(4) { a.push(okspec(c, w)); } }
        5 => { st = "1"; a.push(mode(c, "m")); for _ in 0..c.rng.below(3) { a.push(okspec(c, w)); } let i = 1 + c.rng.below(a.len() as u64) as usize; let b = badspec(c, w); a.insert(i, b); }
        6 => { st = "1"; a.push(mode(c, "m")); for _ in 0..1 + c.rng.below(3) { a.push(okspec(c, w)); } let i = 1 + c.rng.below(a.len() as u64) as usize; let b = okspec(c, o); a.insert(i, b); }
        7 => { st = "0"; a.push(mode(c, "d")); let (x, y) = c.pair(w); a.push(text(x, w)); a.push(text(y, w)); }
        8 => { st = "1"; a.push(mode(c, "d")); a.push(text(c.addr(w), w)); a.push(text(c.addr(o), o)); }
        9 => { st = "1"; a.push(mode(c, "d")); a.push(text(c.addr(w), w)); let i = 1 + c.rng.below(2) as usize; let b = badaddr(c); a.insert(i, b); }
        10 => { st = "1"; a.push(mode(c, "d")); for _ in 0..3 { a.push(text(c.addr(w), w)); } }
        11 => { st = "0"; a.push(mode(c, "s")); let h = 4 + c.rng.below(20) as u32; let m = full(w) & !low(h); a.push(net_text(c.addr(w) & m & low(w - 1), m, w)); for _ in 0..1 + c.rng.below(3) { a.push(c.rng.below(40).to_string()); } }
        12 => { st = "1"; a.push(mode(c, "s")); a.push(okspec(c, w)); for _ in 0..c.rng.below(3) { a.push("3".into()); } let i = 2 + c.rng.below(a.len() as u64 - 1) as usize; let b = c.rng.pick(&["-1", "x", "", "1.5", "0x10", "-99999999999999999999999999999999999999999999", "3 "]).to_string(); a.insert(i, b); }
        13 => { st = "1"; a.push(mode(c, "s")); a.push(badspec(c, w)); a.push("5".into()); }
        14 => { st = "0"; a.push(mode(c, "r")); let (b, m) = c.small_net(w, 5); a.push(net_text(b, m, w)); a.push(match c.rng.below(3) { 0 => c.rng.below(w as u64 + 1).to_string(), 1 => text(pfx_mask(c.rng.below(w as u64 + 1) as u32, w), w), _ => text(c.mask(w), w) }); }
        15 => { st = "1"; a.push(mode(c, "r")); a.push(okspec(c, w)); let b = match c.rng.below(4) { 0 => text(c.mask(o), o), 1 => (w as u64 + 1 + c.rng.below(300)).to_string(), 2 => badaddr(c).replace("17", "129"), _ => c.rng.pick(&["x", "", "/8", "99999999999999999999999"]).to_string() }; a.push(b); }
        16 => { st = "1"; a.push(mode(c, "r")); a.push(badspec(c, w)); a.push("8".into()); }
        17 => { st = "1"; a.push(mode(c, "r")); a.push(okspec(c, w)); a.push("31".into()); a.push("30".into()); }
        18 => { st = "0"; a.push(mode(c, "e")); for _ in 0..1 + c.rng.below(3) { let w = c.w(); a.push(okspec(c, w)); } }
        19 => { st = "1"; a.push(mode(c, "e")); a.push(badspec(c, w)); }
        20 => { st = "1o"; a.push(mode(c, "e")); for _ in 0..1 + c.rng.below(3) { a.push(okspec(c, w)); } let i = 1 + c.rng.below(a.len() as u64) as usize; let b = badspec(c, w); a.insert(i, b); }
        _ => { st = "any"; let pool = ["-m", "-d", "-s", "-r", "-e", "--help", "--color-test", "--minimize", "1.2.3.4/30", "::1/127", "255.255.255.255", "0.0.0.0", "ffff::/120", "::", "5", "0", "-1", "", "1.2.3.4/-0.0.0.3", "255.255.255.252/255.255.255.251", "x", "255.255.255.255/32", "255.255.255.254/31", "ffff:ffff:ffff:ffff:ffff:ffff:ffff:ffff/128", "128", "32", "0.0.0.0/0", "\u{1F600}"];
               for _ in 0..c.rng.below(5) { a.push(c.rng.pick(&pool).to_string()); }
               let e = a.first().map(|x| x == "-e" || x == "-r").unwrap_or(false); if e { a.retain(|x| x != "0.0.0.0/0"); } }
    }
    format!("cli {} {}", st, a.join("\x1f"))
}

/// systematic cases, tried before the random ones
pub fn fixed_cases(prop: &str) -> Vec<String> {
    let mut v: Vec<String> = vec![];
    for w in [32u32, 128] {
        let f = full(w);
        match prop {
            "C01" | "C02" => for i in 0..w { for j in 0..w { v.push(format!("addr {} {:x} {:x} {}", w, 1u128 << i, low(j), i32::MIN)); v.push(format!("addr {} {:x} {:x} {}", w, f & !low(i), 1u128 << j, i32::MAX)); } },
            "C04" => for p in 0..=w { for a in [f, 1, f - 1, f / 3, f / 5] { v.push(format!("perm {} {:x} {:x} b1", w, a, pfx_mask(p, w))); v.push(format!("perm {} {:x} {:x} b", w, a, f & !pfx_mask(p, w))); if p < w { v.push(format!("perm {} {:x} {:x} b101", w, a, f ^ (1u128 << p))); v.push(format!("perm {} {:x} {:x} b10110011101", w, a, 1u128 << p)); } } },
            "C05" | "C06" | "C08" | "C16" => for p in 0..=w { for a in [0, f, f / 3, 1, f - 1, 1u128 << (w - 1)] { v.push(format!("net {} {:x} {:x}", w, a, pfx_mask(p, w))); v.push(format!("net {} {:x} {:x}", w, a, f & !pfx_mask(p, w))); if p < w { v.push(format!("net {} {:x} {:x}", w, a, f ^ (1u128 << p))); } } },
            "C09" => for i in (0..=w).step_by(w as usize / 16) { for j in (0..=w).step_by(w as usize / 32) { let (a, b) = (low(i), f & !low(j)); v.push(format!("derange {} {:x} {:x}", w, a, b)); if i < w { v.push(format!("derange {} {:x} {:x}", w, 1u128 << i, b)); v.push(format!("derange {} {:x} {:x}", w, 1u128 << i, low(j))); } } },
            "C11" => for h in [0, 1, 2, 3, 8, w - 1, w] { let m = f & !low(h); for b in [0, f & m, 0x0a000000 & m] { for cs in [vec![0u128], vec![1], vec![2], vec![3], vec![low(h).saturating_sub(1)], vec![low(h)], vec![low(h) / 2, low(h) / 2], vec![60, 60, 60, 60], vec![0; 4], vec![14, 100, 60], vec![low(h) / 2, 1, 2, 1], vec![low(h) / 4, low(h) / 4, low(h) / 4, low(h) / 4]] { v.push(format!("split {} {:x}/{:x} {}", w, b, m, cs.iter().map(|c| c.to_string()).collect::<Vec<_>>().join(" "))); } } },
            "C12" => for i in 0..=w { for d in 0..7 { for b in [0u128, f, f / 3] { let m = pfx_mask(i, w); v.push(format!("resize {} {:x}/{:x} {:x}", w, b & m, m, pfx_mask((i + d).min(w), w))); v.push(format!("resize {} {:x}/{:x} {:x}", w, b & m, m, pfx_mask(i.saturating_sub(d), w))); } } },
            "C13" => for h in 0..=9 { for b in [0u128, f, f / 3] { let m = f & !low(h); v.push(format!("enum {} {:x}/{:x}", w, b & m, m)); let m2 = f & !(low(h) << (w / 2)); v.push(format!("enum {} {:x}/{:x}", w, b & m2, m2)); } },
            "C14" => { for a in [0, f, 1, 1u128 << (w - 1)] { v.push(format!("show {} {:x}", w, a)); }
                if w == 128 { for pat in 0..256u32 { for val in [1u128, 0xffff, 0xabc, 0x10] { let a = (0..8).fold(0u128, |x, i| x << 16 | if pat >> i & 1 == 1 { val } else { 0 }); v.push(format!("show 128 {:x}", a));
                    let g = groups(a); for s in 0..8 { for l in 1..=8 - s { if g[s..s + l].iter().all(|x| *x == 0) { v.push(format!("parse 128 {:x} {}", a, v6short(a, s, l))); } } } } } }
                else { for i in 0..4 { for b in 0..256u128 { v.push(format!("show 32 {:x}", b << (8 * i))); v.push(format!("parse 32 {:x} {}", b << (8 * i), v4(b << (8 * i)))); } } } }
            "C15" => for p in 0..=w { for a in [0, f, f / 3] { v.push(format!("spec {} {:x} {:x}", w, a, pfx_mask(p, w))); v.push(format!("spec {} {:x} {:x}", w, a, f & !pfx_mask(p, w))); } },
            _ => {}
        }
    }
    if prop == "C03" { for n in [0u64, 1, 2, 4, 16] { for p in 0..=n * 8 + 2 { v.push(format!("mask {} {} {}", p, n, (0..n).map(|i| format!("{:02x}", (0xff00u32 >> p.saturating_sub(i * 8).min(8)) as u8)).collect::<String>())); } }
        for b in 0..256 { for (x, y) in [("", ""), ("ff", ""), ("", "00"), ("ff", "00"), ("", "80"), ("00", ""), ("", "ff"), ("ffff", "0000")] { v.push(format!("mask 0 0 {}{:02x}{}", x, b, y)); } } }
    if prop == "C10" || prop == "C07" { // all lists of two/three networks over three low bits, lopsided masks included
        let mut ns: Vec<N> = vec![];
        for m in 0..8u128 { for b in 0..8u128 { if b & !m == 0 { ns.push((0x0a000000 | b, 0xfffffff8 | m)); } } }
        if prop == "C07" { for a in &ns { for b in &ns { for x in 0..8u128 { v.push(format!("rel 32 {:x}/{:x} {:x}/{:x} {:x}", a.0, a.1, b.0, b.1, 0x0a000000 | x)); } } } }
        else { for a in &ns { for b in &ns { for c in &ns { v.push(format!("minimize 32 {}", nets_text(&[*a, *b, *c]))); } } } }
    }
    v
}
