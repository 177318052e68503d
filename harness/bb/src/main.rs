// Black-box executor: runs cases against the built ripcalc binary and compares with the oracles.
#[path = "../../common.rs"]
mod common;
use common::*;
use std::io::Read;
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub struct Out { code: Option<i32>, out: String, err: String, timeout: bool }

/// the argument with the byte ff wherever the text has the marker for it
fn raw_arg(a: &str) -> std::ffi::OsString {
    use std::os::unix::ffi::OsStringExt;
    std::ffi::OsString::from_vec(a.replace(BREAK, "\n").split(RAW).map(|p| p.as_bytes()).collect::<Vec<_>>().join(&[0xffu8][..]))
}
fn run_env(bin: &str, args: &[String], color: bool) -> Out {
    let mut c = Command::new(bin);
    c.args(args.iter().map(|a| raw_arg(a))).stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::piped()).env_clear();
    if color { c.env("CLICOLOR_FORCE", "1"); } else { c.env("NO_COLOR", "1"); }
    let mut ch = c.spawn().expect("spawn");
    let mut so = ch.stdout.take().unwrap();
    let mut se = ch.stderr.take().unwrap();
    let t = std::thread::spawn(move || { let mut v = vec![]; let _ = se.by_ref().take(1 << 20).read_to_end(&mut v); v });
    let done = std::sync::Arc::new((Mutex::new(false), std::sync::Condvar::new()));
    let d2 = done.clone();
    let pid = ch.id();
    let wd = std::thread::spawn(move || {
        let g = d2.0.lock().unwrap();
        let (g, r) = d2.1.wait_timeout_while(g, Duration::from_secs(20), |d| !*d).unwrap();
        if r.timed_out() && !*g { unsafe { kill(pid as i32, 9); } return true; }
        false
    });
    let mut v = vec![];
    let _ = so.by_ref().take(1 << 26).read_to_end(&mut v);
    drop(so);
    let st = ch.wait().expect("wait");
    { *done.0.lock().unwrap() = true; done.1.notify_all(); }
    let timeout = wd.join().unwrap();
    Out { code: st.code(), out: String::from_utf8_lossy(&v).into_owned(), err: String::from_utf8_lossy(&t.join().unwrap()).into_owned(), timeout }
}
extern "C" { fn kill(pid: i32, sig: i32) -> i32; }
fn run(bin: &str, args: &[String]) -> Out { run_env(bin, args, false) }

fn ok0(o: &Out) -> Result<(), String> {
    if o.timeout { return Err("does not terminate (20 s)".into()); }
    if o.code != Some(0) { return Err(format!("exit status {:?}, stderr {:?}", o.code, o.err.lines().next())); }
    Ok(())
}
fn s(x: &str) -> String { x.to_string() }
fn need<T>(o: Option<T>, m: String) -> Result<T, String> { o.ok_or(m) }

/// A parsed report block
#[derive(Debug, Default, Clone)]
struct Block { items: Vec<(String, String, String)> } // label, text, binary / class
impl Block { fn get(&self, l: &str) -> Option<&(String, String, String)> { self.items.iter().find(|i| i.0 == l) } }
fn parse_line(l: &str, w: u32, width: usize) -> Result<(String, String, String), String> {
    for n in ["no hosts", "no broadcast", "no hosts/net", "=>"] { if l.trim_end() == n { return Ok((s(n), String::new(), String::new())); } }
    if !l.is_ascii() { return Err(format!("non-ASCII report line {:?}", l)); }
    let (lab, rest) = need(l.split_once(':'), format!("unrecognized report line {:?}", l))?;
    if lab.len() + 1 + (rest.len() - rest.trim_start().len()) != 11 { return Err(format!("value not in column 12 in {:?}", l)); }
    let rest = rest.trim_start();
    let (txt, bin);
    if rest.len() > width { if rest.as_bytes()[width - 1] != b' ' { return Err(format!("column misaligned in {:?}", l)); } txt = rest[..width].trim_end(); bin = rest[width..].trim_end(); } else { txt = rest.trim_end(); bin = ""; }
    let _ = w;
    Ok((format!("{}:", lab), s(txt), s(bin)))
}
fn parse_block(ls: &[&str], w: u32) -> Result<Block, String> {
    let width = if w == 32 { 21 } else { 46 };
    let mut b = Block::default();
    for l in ls { b.items.push(parse_line(l, w, width)?); }
    Ok(b)
}
/// check a report block against the expected network; addr None: only the network part.
fn check_block(b: &Block, addr: Option<u128>, n: N, w: u32) -> Result<(), String> {
    let h = hostbits(n.1, w);
    let mut exp: Vec<(&str, Option<u128>, Option<String>)> = vec![];
    let pfx = prefix_of(n.1, w);
    if let Some(a) = addr {
        exp.push(("Address:", Some(a), None));
        exp.push(("Netmask:", Some(n.1), pfx.map(|p| format!(" = {}", p))));
        exp.push(("Wildcard:", Some(full(w) & !n.1), None));
        exp.push(("=>", None, None));
    }
    exp.push(("Network:", Some(n.0), pfx.map(|p| format!("/{}", p))));
    if h >= 2 {
        exp.push(("HostMin:", Some(unpack(pack(n.0, n.1, w) + 1, n.1, w)), None));
        exp.push(("HostMax:", Some(unpack(pack(broadcast(n.0, n.1, w), n.1, w) - 1, n.1, w)), None));
    } else { exp.push(("no hosts", None, None)); }
    if h >= 1 { exp.push(("Broadcast:", Some(broadcast(n.0, n.1, w)), None)); } else { exp.push(("no broadcast", None, None)); }
    exp.push((if h >= 2 { "Hosts/Net:" } else { "no hosts/net" }, None, None));
    if b.items.len() != exp.len() { return Err(format!("report has {} lines, expected {}: {:?}", b.items.len(), exp.len(), b.items)); }
    for ((lab, txt, bin), (el, ev, suf)) in b.items.iter().zip(&exp) {
        if lab != el { return Err(format!("line {:?} found where {:?} is expected", lab, el)); }
        if let Some(v) = ev {
            let suf = suf.clone().unwrap_or_default();
            let t = need(txt.strip_suffix(suf.as_str()), format!("{} {:?} does not end in {:?}", lab, txt, suf))?;
            if read_addr(t, w) != Some(*v) { return Err(format!("{} shows {:?}, expected {}", lab, txt, text(*v, w))); }
            if *bin != binary(*v, w) { return Err(format!("{} binary {:?}, expected {:?}", lab, bin, binary(*v, w))); }
        } else if *lab == "Hosts/Net:" {
            let cnt = if h == 128 { u128::MAX - 1 } else { (1u128 << h) - 2 };
            if *txt != cnt.to_string() { return Err(format!("Hosts/Net {:?}, expected {}", txt, cnt)); }
            let cls = if w == 32 { class_of(n.0, n.1) } else { "" };
            if bin != cls { return Err(format!("class {:?}, expected {:?}", bin, cls)); }
        }
    }
    Ok(())
}
fn strip_ansi(t: &str) -> String {
    let mut r = String::new(); let mut it = t.chars();
    while let Some(c) = it.next() { if c == '\u{1b}' { for d in it.by_ref() { if d.is_ascii_alphabetic() { break; } } } else { r.push(c) } }
    r
}
fn read_nets(o: &str, w: u32) -> Result<Vec<N>, String> {
    o.lines().map(|l| need(read_net(l, w), format!("output line {:?} is not a network", l))).collect()
}

/// None: the case cannot be run through the command line
fn exec(bin: &str, prop: &str, case: &str) -> Option<Result<(), String>> {
    Some(exec2(bin, prop, case)?)
}
fn exec2(bin: &str, prop: &str, case: &str) -> Option<Result<(), String>> {
    let a: Vec<&str> = args(case);
    let w: u32 = a.get(1).and_then(|x| x.parse().ok()).unwrap_or(0);
    if w == 8 { return None; }
    match a[0] {
        "net" => { let (x, m) = (unhex(a[2]), unhex(a[3])); Some(net_case(bin, prop, w, x, m)) }
        "perm" => { let (x, m) = (unhex(a[2]), unhex(a[3])); Some(net_case(bin, prop, w, x, m)) }
        "addr" => { let (x, y) = (unhex(a[2]), unhex(a[3])); Some(net_case(bin, prop, w, x, y)) }
        "rel" => {
            let n = nets_from(&a[2..4]);
            Some((|| {
                let o = run(bin, &[s("-m"), net_text(n[0].0, n[0].1, w), net_text(n[1].0, n[1].1, w)]); ok0(&o)?;
                check_minimized(&n, &read_nets(&o.out, w)?, w)
            })())
        }
        "derange" => {
            let (x, y) = (unhex(a[2]), unhex(a[3]));
            let o = run(bin, &[s("--derange"), text(x, w), text(y, w)]);
            Some((|| { ok0(&o)?; let got = read_nets(&o.out, w)?; let e = derange_oracle(x, y, w);
                if got != e { return Err(format!("got {:x?}, expected {:x?}", got, e)); } Ok(()) })())
        }
        "minimize" => {
            let n = nets_from(&a[2..]);
            let mut ar = vec![s("--minimize")]; ar.extend(n.iter().map(|x| net_text(x.0, x.1, w)));
            let o = run(bin, &ar);
            Some((|| { ok0(&o)?; check_minimized(&n, &read_nets(&o.out, w)?, w) })())
        }
        "split" => Some(split_case(bin, w, nets_from(&a[2..3])[0], &a[3..])),
        "resize" => {
            let n = nets_from(&a[2..3])[0]; let nm = unhex(a[3]);
            if hostbits(n.1, w) > hostbits(nm, w) + 9 && a.get(4) != Some(&"big") { return None; }
            Some((|| {
                let arg = match prefix_of(nm, w) { Some(p) if n.0 & 2 == 0 => p.to_string(), _ => text(nm, w) };
                let o = run(bin, &[s("--resize"), net_text(n.0, n.1, w), arg]); ok0(&o)?;
                let (exp, ord) = resize_oracle(n.0, n.1, nm, w, usize::MAX);
                let secs = sections(&o.out);
                if secs.len() != exp.len() + 1 { return Err(format!("{} networks listed, expected {}", secs.len().saturating_sub(1), exp.len())); }
                if secs[0].0 != "Original network:" { return Err(format!("first heading {:?}", secs[0].0)); }
                check_block(&parse_block(&secs[0].1, w)?, None, n, w)?;
                for (i, e) in exp.iter().enumerate() {
                    let want = match ord { Ord3::Less => s("Supernet:"), Ord3::Equal => s("Same-sized net:"), Ord3::Greater => format!("Subnet {}:", i + 1) };
                    if secs[i + 1].0 != want { return Err(format!("heading {:?}, expected {:?}", secs[i + 1].0, want)); }
                    check_block(&parse_block(&secs[i + 1].1, w)?, None, (*e, nm), w).map_err(|x| format!("{} {}", want, x))?;
                }
                Ok(())
            })())
        }
        "enum" => {
            let n = nets_from(&a[2..3])[0];
            let h = hostbits(n.1, w);
            if h > 10 && a.get(3) != Some(&"big") { return None; }
            let o = run(bin, &[s("--enumerate"), net_text(n.0, n.1, w)]);
            Some((|| { ok0(&o)?;
                let got: Vec<u128> = o.out.lines().map(|l| need(read_addr(l, w), format!("{:?} is not an address", l))).collect::<Result<_, _>>()?;
                let p = pack(n.0, n.1, w);
                let e: Vec<u128> = (0..1u128 << h).map(|k| unpack(p | k, n.1, w)).collect();
                if got != e { let i = got.iter().zip(&e).position(|(x, y)| x != y).unwrap_or(got.len().min(e.len())); return Err(format!("{} addresses (expected {}), first difference at index {}: {:x?} / {:x?}", got.len(), e.len(), i, got.get(i), e.get(i))); }
                Ok(()) })())
        }
        "show" => {
            let v = unhex(a[2]);
            Some((|| {
                let o = run(bin, &[s("--derange"), text(v, w), text(v, w)]); ok0(&o)?;
                let t = need(o.out.trim_end().strip_suffix(&format!("/{}", w)), format!("output {:?}", o.out))?.to_string();
                if read_addr(&t, w) != Some(v) { return Err(format!("{} is written as {:?}", text(v, w), t)); }
                let o2 = run(bin, &[s("--derange"), t.clone(), t.clone()]); ok0(&o2).map_err(|e| format!("own text {:?} not read back: {}", t, e))?;
                if o2.out != o.out { return Err(format!("own text {:?} read back as {:?}", t, o2.out)); }
                let o3 = run(bin, &[format!("{}/{}", t, w)]); ok0(&o3).map_err(|e| format!("own text {:?} not read back: {}", t, e))?;
                Ok(())
            })())
        }
        "parse" => {
            let rest = case.splitn(4, ' ').nth(3).unwrap();
            Some((|| {
                let o = run(bin, &[s("--derange"), s(rest), s(rest)]);
                if a[2] == "ERR" {
                    if o.code != Some(1) || !o.out.is_empty() || o.err.is_empty() || o.err.contains("panicked") { return Err(format!("{:?} not refused: {:?} {:?} {:?}", rest, o.code, o.out, o.err)); }
                    return Ok(());
                }
                ok0(&o)?;
                let n = read_nets(&o.out, w)?;
                if n != vec![(unhex(a[2]), full(w))] { return Err(format!("{:?} read as {:x?}", rest, n)); }
                Ok(())
            })())
        }
        "spec" => { let (x, m) = (unhex(a[2]), unhex(a[3])); Some(spec_case(bin, w, x, m)) }
        "badspec" => {
            let t = case.splitn(2, ' ').nth(1).unwrap();
            let o = run(bin, &[s(t)]);
            let bad = |o: &Out| o.code != Some(1) || !o.out.is_empty() || o.err.is_empty() || o.err.contains("panicked");
            if bad(&o) { return Some(Err(format!("{:?} not refused: {:?} {:?} {:?}", t, o.code, o.out, o.err))); }
            let o = run(bin, &[s("-m"), s(t)]);
            if bad(&o) { return Some(Err(format!("-m {:?} not refused: {:?} {:?} {:?}", t, o.code, o.out, o.err))); }
            Some(Ok(()))
        }
        "cli" => {
            let rest = case.splitn(3, ' ').nth(2).unwrap();
            let ar: Vec<String> = if rest.is_empty() && a[1] != "1e" { vec![] } else { rest.split('\x1f').map(s).collect() };
            let o = run(bin, &ar);
            Some((|| {
                if o.timeout { return Err(s("does not terminate (20 s)")); }
                let c = need(o.code, s("killed by a signal"))?;
                if c != 0 && c != 1 || o.err.contains("panicked") { return Err(format!("exit status {}, stderr {:?}", c, o.err)); }
                match a[1] {
                    "0" => { if c != 0 { return Err(format!("exit status {} for a well-formed invocation, stderr {:?}", c, o.err)); } if !o.err.is_empty() { return Err(format!("unexpected message {:?}", o.err)); } if o.out.is_empty() { return Err(s("no output")); } }
                    "1" | "1o" => { if c != 1 { return Err(format!("exit status {} for a malformed invocation", c)); } if o.err.trim().is_empty() { return Err(s("no message on standard error")); }
                        if a[1] == "1" && !o.out.is_empty() { return Err(format!("output for a refused invocation: {:?}", o.out)); } }
                    _ => {}
                }
                Ok(())
            })())
        }
        _ => None,
    }
}
fn sections(o: &str) -> Vec<(String, Vec<&str>)> {
    let mut r: Vec<(String, Vec<&str>)> = vec![]; let mut new = true;
    for l in o.lines() { if l.is_empty() { new = true; } else if new { r.push((s(l), vec![])); new = false; } else { r.last_mut().unwrap().1.push(l); } }
    r
}
fn net_case(bin: &str, prop: &str, w: u32, a: u128, m: u128) -> Result<(), String> {
    let n = (a & m, m);
    let o = run(bin, &[net_text(a, m, w)]); ok0(&o)?;
    let ls: Vec<&str> = o.out.lines().collect();
    check_block(&parse_block(&ls, w)?, Some(a), n, w)?;
    if prop == "C16" {
        let o2 = run_env(bin, &[net_text(a, m, w)], true); ok0(&o2)?;
        if strip_ansi(&o2.out) != o.out { return Err(format!("colored output differs in text: {:?} / {:?}", strip_ansi(&o2.out), o.out)); }
        if a & 3 == 0 { // several networks in one report
            let n2 = (a & pfx_mask(24, w), pfx_mask(24, w));
            let o = run(bin, &[net_text(a, m, w), net_text(a, n2.1, w)]); ok0(&o)?;
            let parts: Vec<&str> = o.out.split("\n\n").collect();
            if parts.len() != 2 { return Err(format!("{} reports for two networks", parts.len())); }
            check_block(&parse_block(&parts[0].lines().collect::<Vec<_>>(), w)?, Some(a), n, w)?;
            check_block(&parse_block(&parts[1].lines().collect::<Vec<_>>(), w)?, Some(a), n2, w)?;
        }
    }
    Ok(())
}
fn spec_case(bin: &str, w: u32, a: u128, m: u128) -> Result<(), String> {
    let n = (a & m, m);
    let mut forms = vec![format!("{}/{}", text(a, w), text(m, w)), format!("{}/-{}", text(a, w), text(full(w) & !m, w))];
    if let Some(p) = prefix_of(m, w) { forms.push(format!("{}/{}", text(a, w), p)); forms.push(format!("{}/-{}", text(a, w), w - p)); }
    if w == 128 { let z = groups(m); for st in 0..8 { let mut l = 0; while st + l < 8 && z[st + l] == 0 { l += 1; } if l > 0 { forms.push(format!("{}/{}", text(a, w), v6short(m, st, l))); break; } } }
    for f in &forms {
        let o = run(bin, &[f.clone()]); ok0(&o).map_err(|e| format!("{}: {}", f, e))?;
        let ls: Vec<&str> = o.out.lines().collect();
        parse_block(&ls, w).and_then(|b| check_block(&b, Some(a), n, w)).map_err(|e| format!("{}: {}", f, e))?;
        if f.contains("/-") || true {
            let o = run(bin, &[s("-m"), f.clone()]); ok0(&o).map_err(|e| format!("-m {}: {}", f, e))?;
            if read_nets(&o.out, w).map_err(|e| format!("-m {}: {}", f, e))? != vec![n] { return Err(format!("-m {}: {:?}", f, o.out)); }
        }
    }
    Ok(())
}
fn split_case(bin: &str, w: u32, n: N, counts: &[&str]) -> Result<(), String> {
    let mut ar = vec![s("--split"), net_text(n.0, n.1, w)]; ar.extend(counts.iter().map(|c| s(c)));
    let o = run(bin, &ar);
    if o.timeout { return Err(s("does not terminate (20 s)")); }
    let ks: Vec<Option<u32>> = counts.iter().map(|c| need_bits(&parse_big(c), w)).collect();
    let h = hostbits(n.1, w);
    let low_out = o.out.to_lowercase();
    let nofit = low_out.contains("too small") || low_out.contains("not enough");
    if o.err.contains("panicked") || !matches!(o.code, Some(0) | Some(1)) { return Err(format!("crash: {:?} {}", o.code, o.err)); }
    if !fits(&ks, h) { return if nofit { Ok(()) } else { Err(s("requests do not fit, but that is not reported")) }; }
    if nofit { return Err(s("requests fit, but are reported as not fitting")); }
    ok0(&o)?;
    let mut secs = sections(&o.out);
    if secs.is_empty() || secs[0].0 != "Subnet to split:" { return Err(s("no 'Subnet to split:' heading")); }
    check_block(&parse_block(&secs[0].1, w)?, None, n, w)?;
    let unused = if secs.last().unwrap().0 == "Unused networks:" { let u = secs.pop().unwrap(); read_nets(&u.1.join("\n"), w)? } else { vec![] };
    if secs.len() != counts.len() + 1 { return Err(format!("{} slices for {} requests", secs.len() - 1, counts.len())); }
    let mut sl = vec![];
    for (i, c) in counts.iter().enumerate() {
        let (hd, ls) = &secs[i + 1];
        if *hd != format!("Subnet for {} hosts:", c) { return Err(format!("heading {:?} for request {}", hd, c)); }
        let b = parse_block(ls, w)?;
        let net = need(b.get("Network:").and_then(|x| read_net(&x.1, w)), format!("no network in slice {}", i))?;
        check_block(&b, None, net, w)?;
        sl.push(net);
    }
    check_slices(n, &ks, &sl, w)?;
    check_unused(n, &sl, &unused, w)
}

fn main() {
    let av: Vec<String> = std::env::args().collect();
    let bin = av[1].clone();
    if av[2] == "replay" {
        match exec(&bin, &av[3], &av[4]) { None => { println!("NOTRUN"); } Some(Ok(())) => println!("HOLDS"), Some(Err(e)) => { println!("FAIL {}", e); std::process::exit(1); } }
        return;
    }
    let prop = av[2].clone();
    let seed: u64 = av[3].parse().unwrap();
    let budget = Duration::from_millis(av[4].parse().unwrap());
    let dict: Vec<u128> = std::fs::read_to_string(&av[5]).unwrap_or_default().split_whitespace().map(unhex).collect();
    let fixed = fixed_cases(&prop);
    let big = big_cases(&prop, &mut Ctx { rng: Rng::new(seed * 1000 + 7), dict: dict.clone(), heavy: false });
    let nb = big.len() as u64;
    let start = Instant::now();
    let next = AtomicU64::new(0);
    let evals = AtomicU64::new(0);
    let nontriv = AtomicU64::new(0);
    let stop = AtomicBool::new(false);
    let fail: Mutex<Option<(String, String)>> = Mutex::new(None);
    let samples: Mutex<Vec<String>> = Mutex::new(vec![]);
    let seen: Mutex<std::collections::HashSet<u64>> = Mutex::new(Default::default());
    // fixed cases are visited in a seed-dependent stride so that every run samples all of them
    let nf = fixed.len() as u64;
    std::thread::scope(|sc| {
        for t in 0..8u64 {
            let (bin, prop, fixed, big, next, evals, nontriv, stop, fail, samples, seen, dict) = (&bin, &prop, &fixed, &big, &next, &evals, &nontriv, &stop, &fail, &samples, &seen, &dict);
            sc.spawn(move || {
                let mut c = Ctx { rng: Rng::new(seed * 1000 + t + 17), dict: dict.clone(), heavy: false };
                while !stop.load(Ordering::Relaxed) && start.elapsed() < budget {
                    let i = next.fetch_add(1, Ordering::Relaxed);
                    let case = if i < nb { big[i as usize].clone() } else if nf > 0 && i % 2 == 0 && i / 2 < nf { fixed[((i / 2).wrapping_mul(1_000_003) % nf) as usize].clone() } else { gen_case(prop, &mut c) };
                    if let Some(r) = exec(bin, prop, &case) {
                        evals.fetch_add(1, Ordering::Relaxed);
                        let mut hs = std::collections::hash_map::DefaultHasher::new();
                        std::hash::Hash::hash(&case, &mut hs);
                        if seen.lock().unwrap().insert(std::hash::Hasher::finish(&hs)) { nontriv.fetch_add(1, Ordering::Relaxed); }
                        { let mut s = samples.lock().unwrap(); if s.len() < 4 { s.push(case.clone()); } }
                        if let Err(e) = r { stop.store(true, Ordering::Relaxed); let mut f = fail.lock().unwrap(); if f.is_none() { *f = Some((case, e)); } }
                    }
                }
            });
        }
    });
    println!("EVALS {}", evals.load(Ordering::Relaxed));
    println!("DISTINCT {}", nontriv.load(Ordering::Relaxed));
    for s in samples.lock().unwrap().iter() { println!("SAMPLE {}", s.replace('\x1f', " ")); }
    if let Some((c, e)) = fail.lock().unwrap().take() { println!("CASE {}", c.replace('\n', " ")); println!("FAIL {}", e.replace('\n', " | ")); std::process::exit(1); }
    println!("HOLDS");
}
