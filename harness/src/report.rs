//! Evidence, replay files and verdict lines shared by all checks.
#![allow(dead_code)]
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::time::Instant;

pub fn root() -> String {
    std::env::var("CYKMON_ROOT").unwrap_or_else(|_| "/verif".into())
}
pub fn seed() -> u64 {
    std::env::var("VERIF_SEED").ok().and_then(|s| s.parse::<i64>().ok()).unwrap_or(1) as u64
}
pub fn thorough() -> bool {
    std::env::var("VERIF_TIER").map(|s| s == "thorough").unwrap_or(false)
}
pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
pub fn h64(s: &str) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    h ^ (h >> 29)
}

/// What one worker saw; merged at the end.
#[derive(Default)]
pub struct Seen {
    pub evals: u64,
    pub distinct: HashSet<u64>,
    pub counts: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    /// (what happened, replay text)
    pub viol: Vec<(String, String)>,
}
impl Seen {
    pub fn count(&mut self, k: &str) { self.add(k, 1) }
    pub fn add(&mut self, k: &str, n: u64) {
        match self.counts.get_mut(k) {
            Some(x) => *x += n,
            None => { self.counts.insert(k.to_string(), n); }
        }
    }
    pub fn merge(&mut self, o: Seen) {
        self.evals += o.evals;
        self.distinct.extend(o.distinct);
        for (k, v) in o.counts { self.add(&k, v); }
        for s in o.samples { if self.samples.len() < 6 { self.samples.push(s); } }
        self.viol.extend(o.viol);
    }
}

pub struct Report {
    pub prop: String,
    pub start: Instant,
    pub rule: String,
    pub exhaustive: Option<bool>,
    pub assumptions: Vec<String>,
}
impl Report {
    /// Writes evidence and prints the verdict; returns the exit code.
    pub fn finish(&self, s: &Seen, out: &mut dyn Write) -> i32 {
        let mut cov = vec![
            format!("\"evaluations\": {}", s.evals),
            format!("\"distinct_nontrivial\": {}", s.distinct.len()),
            format!("\"rule\": {}", js(&self.rule)),
            format!("\"samples\": [{}]", s.samples.iter().map(|x| js(x)).collect::<Vec<_>>().join(", ")),
        ];
        if let Some(e) = self.exhaustive {
            cov.push(format!("\"exhaustive\": {}", e));
        }
        cov.push(format!(
            "\"observed\": {{{}}}",
            s.counts.iter().map(|(k, v)| format!("{}: {}", js(k), v)).collect::<Vec<_>>().join(", ")
        ));
        let ev = format!(
            "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"exploration\",\n \"coverage\": {{\n  {}\n }},\n \"assumptions\": [{}],\n \"wall_s\": {:.3},\n \"violations\": {}\n}}\n",
            js(&self.prop),
            js(if thorough() { "thorough" } else { "quick" }),
            seed() as i64,
            cov.join(",\n  "),
            self.assumptions.iter().map(|a| js(a)).collect::<Vec<_>>().join(", "),
            self.start.elapsed().as_secs_f64(),
            s.viol.len()
        );
        let dir = format!("{}/evidence", root());
        let _ = std::fs::create_dir_all(format!("{}/replays", dir));
        let name = if std::env::var("CYK_SAN").is_ok() {
            // the sanitized stage leaves its counts for the main stage's evidence
            let t: String = [("evaluations".to_string(), s.evals), ("distinct states".to_string(), s.distinct.len() as u64)].into_iter().chain(s.counts.clone()).map(|(k, v)| format!("{}\t{}\n", k, v)).collect();
            let _ = std::fs::write(format!("{}/{}-asan.counts", dir, self.prop), t);
            if s.viol.is_empty() { format!("{}-asan", self.prop) } else { self.prop.clone() }
        } else { self.prop.clone() };
        std::fs::write(format!("{}/{}.json", dir, name), ev).expect("evidence");
        for (i, (what, replay)) in s.viol.iter().take(5).enumerate() {
            let p = format!("{}/replays/{}-{}.txt", dir, self.prop, i);
            let _ = std::fs::write(&p, format!("# {}\n{}\n", what.replace('\n', " | "), replay));
            let _ = writeln!(out, "VIOLATION property={} replay={}", self.prop, p);
            let _ = writeln!(out, "  {}", what);
        }
        let _ = writeln!(
            out,
            "{}: evaluations={} distinct={} violations={} ({:.1}s)",
            self.prop, s.evals, s.distinct.len(), s.viol.len(), self.start.elapsed().as_secs_f64()
        );
        if s.viol.is_empty() { 0 } else { 1 }
    }
}

pub fn workers<F: Fn(usize) -> Seen + Send + Sync>(n: usize, f: F) -> Seen {
    let mut all = Seen::default();
    let rs: Vec<Seen> = std::thread::scope(|sc| {
        let hs: Vec<_> = (0..n)
            .map(|i| {
                let f = &f;
                std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(sc, move || f(i)).unwrap()
            })
            .collect();
        hs.into_iter().map(|h| h.join().expect("worker died")).collect()
    });
    for r in rs { all.merge(r); }
    all
}
