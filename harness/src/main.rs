//! cykmon: campaigns of the real program in a simulated chain, judged by monitors.
//!   cykmon check PROP | cykmon replay FILE | cykmon dev PROP|ALL SEED N
mod gen;
mod ix;
mod model;
mod ops;
mod probes;
mod report;
mod rmath;
mod vm;
mod world;
use gen::*;
use report::*;
use std::io::Write;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::Relaxed};
use std::time::{Duration, Instant};
use vm::EXECS;
use std::os::unix::io::FromRawFd;

extern "C" { fn fork() -> i32; fn waitpid(p: i32, st: *mut i32, o: i32) -> i32; fn mmap(a: *mut u8, n: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
    fn dup(fd: i32) -> i32; fn dup2(a: i32, b: i32) -> i32; fn open(p: *const u8, f: i32, ...) -> i32; }
/// the program prints debugging output; keep the real stdout for ourselves
fn own_stdout() -> std::fs::File {
    unsafe {
        let o = dup(1);
        let n = open(b"/dev/null\0".as_ptr(), 1);
        dup2(n, 1);
        std::fs::File::from_raw_fd(o)
    }
}
/// Runs `f` in a child process; the outcome is its exit code, or the signal that killed it.
fn in_child(f: impl FnOnce() -> i32) -> Result<i32, i32> {
    unsafe {
        let pid = fork();
        if pid == 0 { std::process::exit(f()); }
        if pid < 0 { return Ok(f()); }
        let mut st = 0;
        while waitpid(pid, &mut st, 0) != pid {}
        if st & 0x7f == 0 { Ok(st >> 8 & 0xff) } else { Err(st & 0x7f) }
    }
}
/// A page shared with the child process: the episode each worker is in (plus one), and how often one was begun.
fn shared_page() -> &'static [AtomicU64] {
    unsafe {
        let p = mmap(std::ptr::null_mut(), 4096, 3, 0x21, -1, 0);
        assert!(p as isize != -1, "mmap");
        std::slice::from_raw_parts(p as *const AtomicU64, 64)
    }
}
/// the exit code by which AddressSanitizer and the UB checks end a run that touched memory it must not
const SAN_EXIT: i32 = 99;
fn sanitized() -> bool { std::env::var("CYK_SAN").is_ok() }
/// Did the program (not the harness) bring the process down? The host never uses unsafe code on the
/// program's behalf, so a fault or a sanitizer report belongs to the episode that was running.
fn crashed(r: Result<i32, i32>) -> Option<String> {
    match r {
        Err(s) if [4, 6, 7, 8, 11].contains(&s) => Some(format!("the process was ended by signal {}", s)),
        Ok(SAN_EXIT) => Some("the memory sanitizer reported a bad access".into()),
        _ => None,
    }
}
/// Runs the campaign in a child. When it dies of a memory fault, finds the episode that kills it.
fn guarded(prop: &str, out: &mut std::fs::File) -> i32 {
    let start = Instant::now();
    let page = shared_page();
    let r = in_child(|| check(prop, out, page));
    let what = match (crashed(r), r) {
        (None, Ok(c)) => return c,
        (None, Err(s)) => { let _ = writeln!(out, "INCONCLUSIVE: the campaign was ended by signal {}", s); return 3; }
        (Some(w), _) => w,
    };
    let seed = seed().wrapping_add(if sanitized() { 7_000_000 } else { 0 });
    let mut guilty = None;
    for a in page.iter().take(32) {
        let e = a.load(Relaxed);
        if e == 0 { continue; }
        let once = in_child(|| { std::thread::Builder::new().stack_size(64 << 20).spawn({ let p = prop.to_string(); move || { let _ = std::panic::catch_unwind(|| episode(&p, seed, e - 1, STEPS, false)); } }).unwrap().join().ok(); 0 });
        if crashed(once).is_some() { guilty = Some(e - 1); break; }
    }
    let mut s = Seen::default();
    s.evals = page[40].load(Relaxed);
    s.add("episodes", page[40].load(Relaxed));
    match guilty {
        Some(e) if ["C32", "C33"].contains(&prop) => {
            s.viol.push((format!("{} while the program was running, in episode {}", what, e), format!("camp {} {} {}{}", prop, seed, e, if sanitized() { " sanitized" } else { "" })));
        }
        g => { let _ = writeln!(out, "INCONCLUSIVE: {} (episode {:?}); memory faults are judged under C33", what, g); }
    }
    let rep = Report { prop: prop.into(), start, rule: RULE.into(), exhaustive: None, assumptions: ASSUME.iter().map(|s| s.to_string()).collect() };
    if s.viol.is_empty() { 3 } else { rep.finish(&s, out) }
}
pub fn ep_seed(prop: &str, seed: u64, e: u64) -> u64 { h64(&format!("{}/{}/{}", prop, seed, e)) }

pub fn episode(prop: &str, seed: u64, e: u64, steps: usize, all: bool) -> Ep {
    let mut ep = Ep::new(prop, ep_seed(prop, seed, e), all);
    let mut wt = weights(prop);
    let base: u32 = wt.iter().sum();
    ep.w.probing = mutant_rate(prop);
    wt[O::Probe as usize] = base * probe_rate(prop) / 1000;
    for _ in 0..steps {
        if ep.w.stop || ep.w.m.pools.is_empty() { break; }
        ep.step(&wt, &mut |e| e.probe());
    }
    ep
}

/// The recorded finding of C32: positions whose liquidity adds up to more than 64 bits at some price can be opened
/// (each while the price is elsewhere), and then no trade gets past the tick where the sum overflows.
/// Returns what the trade came to: Some(true) if it went through.
fn stacked() -> Option<bool> {
    let mut r = rmath::Rng::new(1);
    let mut w = world::World::new(&mut r, "C32", 3, 2, 1_650_000_000, world::WEALTH);
    let o = w.users[0];
    w.do_init_factory(o, true);
    w.do_enable_fee(o, 500, 10);
    let (a, b) = (w.mints[0], w.mints[1]);
    w.do_create_pool(0, a, b, 500, rmath::price_at(0));
    if w.stop || w.m.pools.is_empty() { return None; }
    let lp = w.users[1];
    w.prepare(1, lp, 0, -1000, 1000);
    if !w.do_mint(1, lp, 0, -1000, 1000, 1 << 40) { return None; }
    for (lo, hi) in [(10, 40), (20, 50), (30, 60)] {
        w.prepare(0, o, 0, lo, hi);
        // (a refusal here would do as well)
        if w.stop || !w.do_mint(0, o, 0, lo, hi, i64::MAX as u64 / 10 * 9) { return if w.stop { None } else { Some(true) }; }
    }
    // up to the tick it works, and past it when the last one leaves
    let q = w.fork(|w| w.do_swap(2, 0, false, 1 << 60, rmath::price_at(30) - 1));
    if !q || w.stop { return None; }
    let left = w.fork(|w| w.do_burn(0, 0, 30, 60, i64::MAX as u64 / 10 * 9) && w.do_swap(2, 0, false, 1 << 60, rmath::price_at(45)));
    if !left || w.stop { return None; }
    Some(w.fork(|w| w.do_swap(2, 0, false, 1 << 60, rmath::price_at(35))))
}
/// what a run must have seen before its silence means anything: statistic and least count
fn required(prop: &str) -> Vec<(&'static str, u64)> {
    let mut v = vec![("Swap ok", 500), ("Mint ok", 200), ("Burn ok", 100)];
    if ["C01", "C03", "C04", "C19"].contains(&prop) { v.push(("edge: trades beyond u64", 20)); }
    if ["C01", "C06", "C19"].contains(&prop) { v.push(("edge: deposits that would overflow the vault", 20)); v.push(("edge: deposits beyond u64", 10)); }
    if ["C01", "C17", "C18"].contains(&prop) { v.push(("mutant due in one token, paid in the other", 200)); }
    v.extend(match prop {
        "C32" => vec![("whale: at a tick of others", 200), ("whale: deposits accepted", 100), ("whale: deposits refused", 100)],
        "C01" | "C02" => vec![("whale: at a tick of others", 100), ("whale: deposits accepted", 50), ("whale: deposits refused", 50), ("Collect ok", 100), ("probe: everyone exits", 100), ("CollectProtocol ok", 50), ("NftCollect ok", 50)],
        "C03" | "C04" => vec![("swaps crossing 4+ ticks", 100), ("swaps crossing 12+ ticks", 50), ("swaps through a liquidity gap", 100), ("swaps ending exactly on an initialized tick", 100), ("swaps at negative ticks", 100), ("Swap refused", 50),
            ("swaps 0->1 exact in", 100), ("swaps 0->1 exact out", 100), ("swaps 1->0 exact in", 100), ("swaps 1->0 exact out", 100)],
        "C05" => vec![("RouterSingle ok", 200), ("RouterPath ok", 200), ("RouterSingle refused", 100), ("RouterPath refused", 100)],
        "C06" => vec![("NftMint ok", 200), ("NftMint refused", 100), ("NftInc ok", 200), ("NftInc refused", 100), ("NftDec ok", 200), ("NftDec refused", 100)],
        "C07" => vec![("mutant deadline not passed", 500), ("mutant passed deadline", 500)],
        "C08" => vec![("paths of 3 hops", 100), ("probe: path equals separate swaps", 100)],
        "C10" | "C11" => vec![("Collect ok", 100), ("CollectProtocol ok", 100), ("SetFeeProtocol ok", 50)],
        "C12" => vec![("NftDec ok", 200), ("NftCollect ok", 200), ("NftTransfer ok", 50), ("NftApprove ok", 50), ("NftDec refused", 100)],
        "C13" => vec![("NftDec ok", 200), ("NftCollect ok", 200), ("NftTransfer ok", 50), ("NftApprove ok", 50), ("NftCloser ok", 20), ("NftDec refused", 100), ("mutant signed by a closer of the holder", 200), ("mutant signed by a delegate for nothing of the holder", 200)],
        "C14" => vec![("NftMint ok", 200), ("NftMeta ok", 100), ("NftMeta refused", 20)],
        "C15" => vec![("SetOwner ok", 50), ("SetOwner refused", 50), ("SetFeeProtocol refused", 50), ("mutant missing signature", 500), ("mutant signed by another user", 500)],
        "C16" | "C17" => vec![("mutant missing signature", 500), ("mutant signed by another user", 500)],
        "C18" => vec![("mutant look-alike of another owner", 500), ("mutant another account of the type", 500), ("mutant accounts of another pool", 500), ("mutant core position of another NFT", 50), ("mutant counterpart in another pool", 500), ("mutant key pair instead of a new account", 500), ("mutant another program", 500), ("mutant another program that passes calls on", 500)],
        "C19" => vec![("mutant operation on a locked pool", 500), ("callback swap one unit short", 200), ("callback mint one unit short", 200), ("callback swap exact", 200), ("re-entrant mint inside mint", 200), ("lock seen by callback", 2000), ("lock seen by token transfer", 1000)],
        "C21" => vec![("rings: grown", 100), ("rings: grown past the limit", 100), ("rings: trade written", 50), ("rings: withdrawal written", 50), ("IncObs ok", 200), ("IncObs refused", 20), ("rings of more than 256 slots filled", 20), ("observations right after the 32-bit clock wrapped", 100)],
        "C20" => vec![("IncObs ok", 200), ("IncObs refused", 20), ("rings of more than 256 slots filled", 20), ("observations right after the 32-bit clock wrapped", 100)],
        "C22" => vec![("observations right after the 32-bit clock wrapped", 100), ("range snapshots compared", 1000), ("range snapshots with time both inside and outside", 500), ("tick first used at or below the price", 1000), ("tick first used above the price", 1000)],
        "C23" => vec![("CreatePool ok", 100), ("CreatePool refused", 100), ("EnableFee ok", 100), ("EnableFee refused", 50)],
        "C24" => vec![("InitTick ok", 200), ("InitTick refused", 100), ("CloseTick ok", 100), ("CloseTick refused", 100), ("Revive ok", 30), ("Bundle refused", 100), ("InitWord refused", 50), ("InitPos refused", 100)],
        "C31" => vec![("probe: deposit and exit", 200), ("probe: NFT deposit and exit", 200), ("round-trip trades completed", 200), ("trades in pieces completed", 200)],
        "C33" => vec![("malformed: accepted and judged", 500), ("malformed: refused", 5000)],
        _ => vec![],
    });
    v
}
const STEPS: usize = 150;
const ASSUME: [&str; 4] = [
    "the host runtime (harness/src/vm.rs) enforces the Solana account rules the program relies on: ownership, signer, writability, lamport balance, PDA signing, atomic failure",
    "the token, associated-token and metadata programs run as their published crates; the system program is a stand-in with the same account effects",
    "compute and transaction-size limits are not modelled",
    "episodes are random: what they did not reach is not judged",
];
fn summary(ep: &Ep) -> String {
    let n = ep.w.log.len();
    let tail: Vec<&str> = ep.w.log.iter().skip(n.saturating_sub(6)).map(|x| x.as_str()).collect();
    format!("{} users, {} mints, {} pools, {} NFTs, {} transactions, ending: {}", ep.w.users.len(), ep.w.mints.len(), ep.w.m.pools.len(), ep.w.m.nfts.len(), n, tail.join("; "))
}
fn check(prop: &str, out: &mut std::fs::File, page: &'static [AtomicU64]) -> i32 {
    let start = Instant::now();
    // the sanitized stage runs episodes of its own
    let seed = seed().wrapping_add(if sanitized() { 7_000_000 } else { 0 });
    let (n, cap) = if thorough() { (4_000_000u64, 3000u64) } else { (6_000, 35) };
    let num = |k: &str, d: u64| std::env::var(k).ok().and_then(|s| s.parse().ok()).unwrap_or(d);
    let (n, cap, nw) = (num("CYK_EPISODES", n), num("CYK_SECONDS", cap), num("CYK_WORKERS", 8).min(32) as usize);
    let next = AtomicU64::new(0);
    let (hard, need) = if std::env::var("CYK_EPISODES").is_ok() || sanitized() { (cap, vec![]) } else { (cap.max(400), required(prop)) };
    let got: Vec<AtomicU64> = need.iter().map(|_| AtomicU64::new(0)).collect();
    let stop = AtomicBool::new(false);
    // what each worker is doing, so that an operation that never returns is noticed
    let beat: Vec<(AtomicU64, AtomicU64)> = (0..nw).map(|_| (AtomicU64::new(u64::MAX), AtomicU64::new(0))).collect();
    let done = AtomicBool::new(false);
    let out2 = out.try_clone().unwrap();
    let mut seen = std::thread::scope(|sc| {
        let (beat, done) = (&beat, &done);
        sc.spawn(move || {
            let mut out2 = out2;
            while !done.load(Relaxed) {
                std::thread::sleep(Duration::from_millis(200));
                for (e, t) in beat {
                    let (e, t) = (e.load(Relaxed), t.load(Relaxed));
                    if e != u64::MAX && start.elapsed().as_millis() as u64 > t + 100_000 {
                        let what = "an operation did not return within 100 s";
                        let dir = format!("{}/evidence/replays", root());
                        let _ = std::fs::create_dir_all(&dir);
                        let p = format!("{}/{}-hang.txt", dir, prop);
                        let _ = std::fs::write(&p, format!("# {}\ncamp {} {} {}\n", what, prop, seed, e));
                        let _ = writeln!(out2, "VIOLATION property={} replay={}\n  {}", prop, p, what);
                        let mut s = Seen::default();
                        s.viol.push((what.into(), format!("camp {} {} {}", prop, seed, e)));
                        let r = Report { prop: prop.into(), start, rule: RULE.into(), exhaustive: None, assumptions: vec![] };
                        r.finish(&s, &mut out2);
                        std::process::exit(1);
                    }
                }
            }
        });
        let seen = workers(nw, |i| {
            let mut s = Seen::default();
            loop {
                let e = next.fetch_add(1, Relaxed);
                if stop.load(Relaxed) { break; }
                // past the quota, go on only while something the property needs has not been seen often enough
                let over = e >= n || start.elapsed().as_secs() >= cap;
                if over && (start.elapsed().as_secs() >= hard || need.iter().zip(&got).all(|((_, l), g)| g.load(Relaxed) >= *l)) { break; }
                let t = Instant::now();
                beat[i].1.store(start.elapsed().as_millis() as u64, Relaxed);
                beat[i].0.store(e, Relaxed);
                page[i].store(e + 1, Relaxed);
                page[40].fetch_add(1, Relaxed);
                let r = std::panic::catch_unwind(|| episode(prop, seed, e, STEPS, false));
                beat[i].0.store(u64::MAX, Relaxed);
                page[i].store(0, Relaxed);
                s.count("episodes");
                if t.elapsed().as_secs() > 20 { s.count("slow episodes"); }
                match r {
                    Err(p) => {
                        s.count("episodes aborted by the harness");
                        let m = p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                        s.count(&format!("aborted: {}", m.chars().take(80).collect::<String>()));
                    }
                    Ok(ep) => {
                        s.evals += EXECS.with(|x| x.replace(0));
                        for (k, v) in &ep.w.stats { s.add(k, *v); }
                        for ((k, _), g) in need.iter().zip(&got) { if let Some(v) = ep.w.stats.get(*k) { g.fetch_add(*v, Relaxed); } }
                        for (k, v) in &ep.w.other { s.add(&format!("deviations of other properties: {}", k), *v); }
                        if s.distinct.len() < 3_000_000 { s.distinct.extend(ep.w.states.iter()); }
                        if e < 3 { s.samples.push(format!("episode {}: {}", e, summary(&ep))); }
                        if let Some((tags, m)) = ep.w.finds.first() {
                            let n = ep.w.log.len();
                            let tail: Vec<String> = ep.w.log.iter().skip(n.saturating_sub(12)).map(|x| format!("#   {}", x)).collect();
                            s.viol.push((format!("{} ({})", m, tags.join(" ")), format!("camp {} {} {}\n# the last of {} operations:\n{}", prop, seed, e, n, tail.join("\n"))));
                            stop.store(true, Relaxed);
                        }
                    }
                }
            }
            s
        });
        done.store(true, Relaxed);
        seen
    });
    seen.viol.sort();
    if !sanitized() {
        let f = format!("{}/evidence/{}-asan.counts", root(), prop);
        for l in std::fs::read_to_string(&f).unwrap_or_default().lines() {
            if let Some((k, v)) = l.split_once('\t') { if k == "evaluations" || k == "episodes" || k.starts_with("malformed") || k == "distinct states" { seen.add(&format!("under AddressSanitizer and UB checks: {}", k), v.parse().unwrap_or(0)); } }
        }
        let _ = std::fs::remove_file(&f);
    }
    if prop == "C32" && !sanitized() {
        let what = "no trade gets past a tick where positions add up to more than 64 bits of liquidity (error LA)";
        let known = std::fs::read_to_string(format!("{}/known_findings.txt", root())).unwrap_or_default().lines().any(|l| l.starts_with("KNOWN-FINDING: property=C32 stacked-liquidity"));
        match std::panic::catch_unwind(stacked).unwrap_or(None) {
            Some(true) => seen.count("stacked liquidity: traded through"),
            None => seen.count("stacked liquidity: not reached"),
            Some(false) => {
                seen.count("stacked liquidity: trade refused");
                if known { let _ = writeln!(out, "KNOWN-FINDING: property=C32 {}", what); }
                else { seen.viol.push((what.into(), "camp C32 stacked 0".into())); }
            }
        }
    }
    let rep = Report { prop: prop.into(), start, rule: RULE.into(), exhaustive: None, assumptions: ASSUME.iter().map(|s| s.to_string()).collect() };
    let code = rep.finish(&seen, out);
    if code == 0 && std::env::var("CYK_EPISODES").is_err() && !sanitized() {
        let g = |k: &str| seen.counts.get(k).cloned().unwrap_or(0);
        let (eps, ab) = (g("episodes"), g("episodes aborted by the harness"));
        if ab * 2 > eps { let _ = writeln!(out, "INCONCLUSIVE: {} of {} episodes aborted", ab, eps); return 3; }
        for (k, least) in need { if g(k) < least { let _ = writeln!(out, "INCONCLUSIVE: saw '{}' {} times, needs {}", k, g(k), least); return 3; } }
    }
    code
}
const RULE: &str = "An episode sets up a chain (random users, fee tiers, pools at random prices, positions) and runs 150 random operations aimed at boundaries (exact limits, one unit off, word and tick edges, full and partial withdrawals), with variations and copies run beside it. evaluations = program invocations judged. distinct_nontrivial = different (operation outcome, pool price, tick, liquidity, fee growth, observation) states seen after a successful operation.";

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let mut out = own_stdout();
    if std::env::var("CYK_PANIC").is_err() { std::panic::set_hook(Box::new(|_| {})); }
    vm::install();
    match args.get(1).map(|s| s.as_str()) {
        Some("check") => { let c = guarded(&args[2], &mut out); std::process::exit(c); }
        Some("replay") => {
            let text = std::fs::read_to_string(&args[2]).expect("replay file");
            let l = text.lines().find(|l| l.starts_with("camp ")).expect("camp line");
            let f: Vec<&str> = l.split_whitespace().collect();
            if f[2] == "stacked" {
                let r = std::thread::Builder::new().stack_size(64 << 20).spawn(stacked).unwrap().join().unwrap_or(None);
                let _ = writeln!(out, "{}", match r { Some(false) => "VIOLATION property=C32 the trade is refused", Some(true) => "traded through", None => "not reached" });
                std::process::exit(if r == Some(false) { 1 } else { 0 });
            }
            let (prop, sd, e) = (f[1].to_string(), f[2].parse().unwrap(), f[3].parse().unwrap());
            if let Some(what) = crashed(in_child(|| { let prop = prop.clone(); std::thread::Builder::new().stack_size(64 << 20).spawn(move || { let _ = std::panic::catch_unwind(|| episode(&prop, sd, e, STEPS, false)); }).unwrap().join().ok(); 0 })) {
                let _ = writeln!(out, "VIOLATION property={} replay={}\n  {} while the program was running", f[1], args[2], what);
                std::process::exit(1);
            }
            let ep = std::thread::Builder::new().stack_size(64 << 20).spawn(move || { let ep = episode(&prop, sd, e, STEPS, false); (ep.w.log, ep.w.finds) }).unwrap().join();
            match ep {
                Ok((log, finds)) => {
                    for l in &log { let _ = writeln!(out, "{}", l); }
                    for (t, m) in &finds { let _ = writeln!(out, "VIOLATION property={} replay={}\n  {} ({})", f[1], args[2], m, t.join(" ")); }
                    std::process::exit(if finds.is_empty() { 0 } else { 1 });
                }
                Err(_) => { let _ = writeln!(out, "episode aborted"); std::process::exit(3); }
            }
        }
        Some("kill") => {
            // cykmon kill SEED N: with every monitor on, the first deviation within N episodes
            let (seed, n): (u64, u64) = (args[2].parse().unwrap(), args[3].parse().unwrap());
            for e in 0..n {
                let (mut tags, mut what) = (String::new(), String::new());
                match std::panic::catch_unwind(|| episode("ALL", seed, e, 150, true)) {
                    Err(_) => { tags = "abort".into(); }
                    Ok(ep) => if let Some((t, m)) = ep.w.finds.first() { tags = t.join("+"); what = m.clone(); }
                }
                if !tags.is_empty() { let _ = writeln!(out, "KILLED {} {} {}", e, tags, what.chars().take(150).collect::<String>()); std::process::exit(1); }
            }
            let _ = writeln!(out, "SURVIVED {}", n);
        }
        Some("dev") => {
            let prop = args[2].clone();
            let seed: u64 = args[3].parse().unwrap();
            let n: u64 = args[4].parse().unwrap();
            let t = std::time::Instant::now();
            let all = prop == "ALL";
            let mut stats: std::collections::BTreeMap<String, u64> = Default::default();
            let mut kinds: std::collections::BTreeMap<String, (u64, String)> = Default::default();
            for e in 0..n {
                let ep = episode(&prop, seed, e, 150, all);
                for (k, v) in &ep.w.stats { *stats.entry(k.clone()).or_default() += v; }
                for (tg, m) in &ep.w.finds {
                    let k = format!("{} {}", tg.join("+"), m.chars().filter(|c| !c.is_ascii_digit()).take(24).collect::<String>());
                    let x = kinds.entry(k).or_insert((0, format!("ep{} {}", e, m)));
                    x.0 += 1;
                }
                if !all && !ep.w.finds.is_empty() { for l in ep.w.log.iter().rev().take(5).rev() { writeln!(out, "   {}", l).unwrap(); } }
            }
            for (k, v) in &stats { writeln!(out, "{:60} {}", k, v).unwrap(); }
            for (k, v) in &kinds { writeln!(out, "FIND {} x{}: {}", k, v.0, v.1.chars().take(600).collect::<String>()).unwrap(); }
            writeln!(out, "{:?}", t.elapsed()).unwrap();
        }
        _ => { let _ = writeln!(out, "usage"); std::process::exit(3); }
    }
}
