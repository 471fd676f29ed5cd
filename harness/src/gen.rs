//! Random episodes: set-up of a chain and a stream of operations, biased per property.
#![allow(dead_code)]
use crate::ix::*;
use crate::model::*;
use crate::ops::*;
use crate::rmath::*;
use crate::vm::*;
use crate::world::*;

pub const OPS: usize = 26;
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
#[repr(usize)]
pub enum O { SwapIn, SwapOut, Mint, Burn, Poke, Collect, RSingle, RPath, NMint, NInc, NDec, NCollect, NTransfer, NApprove, NMeta, IncObs, SetProt, SetOwner, EnableFee, CollectProt, Life, CreatePool, Donate, Time, Prefund, Probe }
use O::*;
pub const ALL: [O; OPS] = [SwapIn, SwapOut, Mint, Burn, Poke, Collect, RSingle, RPath, NMint, NInc, NDec, NCollect, NTransfer, NApprove, NMeta, IncObs, SetProt, SetOwner, EnableFee, CollectProt, Life, CreatePool, Donate, Time, Prefund, Probe];
const BASE: [u32; OPS] = [28, 20, 16, 14, 6, 10, 10, 8, 9, 8, 10, 10, 4, 4, 2, 4, 2, 1, 1, 4, 6, 2, 1, 16, 1, 0];

pub fn weights(prop: &str) -> [u32; OPS] {
    let mut w = BASE;
    let mut m = |o: &[O], k: u32| for x in o { w[*x as usize] *= k; };
    match prop {
        "C02" => m(&[Burn, Collect, Poke], 2),
        "C03" | "C04" => m(&[SwapIn, SwapOut], 3),
        "C05" => m(&[RSingle, RPath], 6),
        "C06" => m(&[NMint, NInc, NDec], 4),
        "C07" => m(&[RSingle, RPath, NMint, NInc, NDec], 3),
        "C08" => m(&[RPath], 12),
        "C09" => m(&[Mint, Burn], 2),
        "C10" | "C11" => m(&[SwapIn, SwapOut, Collect, CollectProt, SetProt], 2),
        "C12" | "C13" => m(&[NMint, NInc, NDec, NCollect, NTransfer, NApprove], 3),
        "C14" => m(&[NMint, NMeta, NTransfer], 4),
        "C15" => m(&[SetProt, SetOwner, EnableFee, CollectProt], 10),
        "C16" => m(&[Burn, Collect], 2),
        "C20" | "C21" => m(&[IncObs, Time, SwapIn, Mint], 2),
        "C22" => m(&[Time, SwapIn, SwapOut], 2),
        "C23" => m(&[EnableFee, CreatePool, SetProt], 12),
        "C24" => m(&[Life], 8),
        "C30" => m(&[Mint, Burn, Poke, Collect, CreatePool, IncObs], 2),
        _ => {}
    }
    w
}
/// probability of a probe per step, in 1/1000
pub fn probe_rate(prop: &str) -> u32 {
    match prop {
        "C01" | "C02" => 20,
        "C08" => 60,
        "C31" => 250,
        "C33" => 400,
        "C12" | "C14" | "C05" | "C06" | "C24" | "C32" | "C17" => 40,
        "C22" => 300,
        "C03" | "C04" | "C09" | "C19" | "C30" => 20,
        _ => 10,
    }
}

/// how often a valid transaction is first tried in variations, per 1000
pub fn mutant_rate(prop: &str) -> u32 {
    match prop { "C18" => 150, "C13" | "C15" | "C16" | "C17" => 300, "C19" => 400, "C07" => 300, "C01" => 40, "C12" => 100, "C30" => 60, "ALL" => 60, _ => 0 }
}

#[derive(Clone)]
pub struct Univ { pub ticks: Vec<i32> }
pub struct Ep { pub w: World, pub r: Rng, pub univ: Vec<Univ>, pub lbits: (u32, u32), pub step: usize, pub nft_seq: u64, pub cap: u32 }

const TIERS: [(u32, u16); 10] = [(100, 1), (500, 10), (3000, 60), (10000, 200), (0, 2), (50_000, 128), (200, 16383), (500_000, 20), (999_999, 4000), (2500, 1000)];

pub fn usable(t: i64, sp: i32) -> i32 {
    let m = (MAX_TICK / sp) * sp;
    ((t.div_euclid(sp as i64) * sp as i64).clamp(-(m as i64), m as i64)) as i32
}

impl Ep {
    pub fn new(prop: &str, seed: u64, all: bool) -> Ep {
        let mut r = Rng::new(seed);
        let nm = if ["C05", "C07", "C08"].contains(&prop) || r.p(1, 3) { 3 } else { 2 };
        let nu = 3 + r.n(2) as usize;
        // mostly today; also early clocks, the last second before 2^31 and late clocks short of 2^32
        let now = match r.n(12) {
            0 => (1i64 << 31) - 1 - r.n(3000) as i64,
            1 => (1i64 << 31) + r.n(1 << 30) as i64,
            2 => r.n(1 << 20) as i64,
            3 => (1i64 << 32) - (1 << 28) - r.n(1 << 28) as i64,
            // the oracle's 32-bit clock wraps during the episode
            4 => (1i64 << 32) - 1 - r.log(12) as i64,
            _ => 1_640_000_000 + r.n(1 << 26) as i64,
        };
        // at times the first user holds most of what a token can have
        let rich = r.p(1, 8);
        let first = if rich { u64::MAX - WEALTH * (nu as u64 - 1) - r.log(60) } else { WEALTH };
        let mut w = World::new(&mut r, prop, nu, nm, now, first);
        w.all = all;
        let owner = w.users[0];
        w.do_init_factory(owner, true);
        let lb = if rich { *r.pick(&[(18, 40), (28, 58), (35, 63), (45, 63)]) } else { *r.pick(&[(0, 14), (8, 30), (18, 40), (18, 40), (28, 50), (35, 58)]) };
        let mut ep = Ep { w, r, univ: vec![], lbits: lb, step: 0, nft_seq: 0, cap: if rich { 63 } else { 58 } };
        let np = if nm == 3 { 2 + ep.r.n(2) as usize } else { 1 + ep.r.n(2) as usize };
        let focus = ["C22"].contains(&prop);
        for i in 0..np {
            let (fee, sp) = if focus { *ep.r.pick(&TIERS[..7]) } else if ep.r.p(1, 12) { *ep.r.pick(&[(999_999, 4000), (500_000, 20), (999_999u32, 4000u16)]) } else { *ep.r.pick(&TIERS) };
            if !ep.w.m.fees.contains_key(&fee) { ep.w.do_enable_fee(owner, fee, sp); }
            let (a, b) = if nm == 3 { *ep.r.pick(&[(0, 1), (1, 2), (0, 2)]) } else { (0, 1) };
            let (a, b) = if nm == 3 && i < 2 { [(0, 1), (1, 2)][i] } else { (a, b) };
            let price = ep.start_price(sp as i32);
            let (m0, m1) = (ep.w.mints[a], ep.w.mints[b]);
            let id = PoolId::new(m0, m1, fee, sp);
            if ep.w.m.pools.iter().any(|p| p.id.key == id.key) { continue; }
            if ep.r.p(1, 6) { let f = ep.w.users[1]; let _ = f; ep.prefund_key(id.key); }
            let u = ep.r.n(nu as u64) as usize;
            ep.w.do_create_pool(u, m0, m1, fee, price);
            if ep.w.m.pools.len() > ep.univ.len() { ep.mk_univ(ep.w.m.pools.len() - 1); }
        }
        let np = ep.w.m.pools.len();
        for pi in 0..np {
            if ep.r.p(2, 3) {
                let n = 1 + ep.r.n(5) as u16;
                if !ep.w.stop { ep.w.do_inc_obs(0, pi, 1, n); }
            }
            // a wide base position, then some around it
            let k = 1 + ep.r.n(4);
            let k = if ep.univ[pi].ticks.len() > 20 { 15 + ep.r.n(20) } else { k };
            for _ in 0..k { if !ep.w.stop { ep.op_mint(pi); } }
            if ep.r.p(1, 2) && !ep.w.stop { ep.op_nmint(pi); }
        }
        let long = match prop { "C20" | "C21" => 25, "C09" | "C22" | "C32" | "ALL" => 80, _ => 400 };
        if np > 0 && ep.r.p(1, long) { ep.long_ring(0); }
        ep
    }
    /// a ring of more than 256 slots, filled and wrapped
    fn long_ring(&mut self, pi: usize) {
        let want = 257 + self.r.n(60) as usize;
        loop {
            if self.w.stop { return; }
            let len = self.w.m.pools[pi].obs.slots.len();
            if len >= want { break; }
            if !self.w.do_inc_obs(0, pi, len as u16, 40.min(want - len) as u16) { return; }
        }
        let mut zfo = self.r.p(1, 2);
        for _ in 0..want * 3 {
            if self.w.stop { return; }
            let o = &self.w.m.pools[pi].obs;
            if o.card as usize == o.slots.len() && o.idx > 3 { break; }
            self.w.b.now += 14 + self.r.n(10) as i64;
            let p = self.w.m.pools[pi].price;
            let d = p / 2000 + 2;
            if zfo && p < MIN_P + 2 * d { zfo = false; }
            if !zfo && p + d >= MAX_P { zfo = true; }
            let limit = if zfo { p - d } else { p + d };
            let amt = if self.r.p(1, 2) { 1 << 50 } else { 1 << self.r.n(40) };
            let u = self.user();
            if !self.w.do_swap(u, pi, zfo, amt, limit) || self.r.p(1, 8) { zfo = !zfo; }
        }
        let p = &self.w.m.pools[pi];
        let full = p.obs.card as usize == p.obs.slots.len() && p.obs.card > 256;
        self.w.stat(if full { "rings of more than 256 slots filled" } else { "rings of more than 256 slots not filled" });
    }
    pub fn prefund_key(&mut self, k: K) {
        if self.w.b.a.contains_key(&k) { return; }
        let l = *self.r.pick(&[1u64, 1_000_000, 20_000_000]);
        self.w.b.put(k, Acct { lamports: l, data: vec![], owner: sys_id(), exec: false });
        self.w.stat("addresses funded before creation");
    }
    fn start_price(&mut self, sp: i32) -> u64 {
        let t = match self.r.n(8) {
            0 | 1 => self.r.i(-50, 50),
            2 => self.r.i(-3000, 3000),
            3 => self.r.i(-60_000, 60_000),
            4 => self.r.i(-60_000, 60_000).div_euclid(sp as i64 * 256) * sp as i64 * 256,
            5 => self.r.i(-200_000, 200_000),
            6 => *self.r.pick(&[MIN_TICK as i64, MIN_TICK as i64 + 1, -150_000, 150_000, MAX_TICK as i64 - 1]),
            _ => self.r.i(-20_000, 20_000) / sp as i64 * sp as i64,
        };
        let p = price_at(t.clamp(MIN_TICK as i64, MAX_TICK as i64 - 1) as i32);
        match self.r.n(3) { 0 => p, 1 => (p + self.r.n(1 + p / 20_000)).min(MAX_P - 1), _ => p.saturating_sub(1).max(MIN_P) }
    }
    fn mk_univ(&mut self, pi: usize) {
        let sp = self.w.m.pools[pi].id.spacing as i32;
        let c = self.w.m.pools[pi].tick as i64;
        let mut v = vec![];
        let span = *self.r.pick(&[3i64, 8, 40, 300]);
        // at times very many, so that trades cross dozens of ticks and words are nearly full
        let dense = self.r.p(1, 14);
        if dense { for _ in 0..30 + self.r.n(40) { let d = self.r.i(-45, 45); v.push(usable(c + d * sp as i64, sp)); } }
        for _ in 0..4 + self.r.n(5) { let d = self.r.i(-span, span); v.push(usable(c + d * sp as i64, sp)); }
        let word = sp as i64 * 256;
        if sp <= 1000 || self.r.p(1, 2) {
            let b = c.div_euclid(word) * word;
            v.push(usable(b, sp));
            if self.r.p(1, 2) { v.push(usable(b - sp as i64, sp)); v.push(usable(b + word, sp)); }
        }
        if self.r.p(1, 2) { v.push(usable(MAX_TICK as i64, sp)); v.push(usable(MIN_TICK as i64 + sp as i64 - 1, sp)); }
        v.push(usable(c, sp));
        v.push(usable(c + sp as i64, sp));
        v.push(usable(c - sp as i64 * 2, sp));
        v.retain(|t| *t >= MIN_TICK && *t <= MAX_TICK && t % sp == 0);
        v.sort();
        v.dedup();
        if v.len() < 2 { v = vec![usable(-(MAX_TICK as i64) / 2, sp), 0]; }
        self.univ.push(Univ { ticks: v });
    }
    pub fn range(&mut self, pi: usize) -> (i32, i32) {
        let v = &self.univ[pi].ticks;
        let n = v.len() as u64;
        loop {
            let (a, b) = (v[self.r.n(n) as usize], v[self.r.n(n) as usize]);
            if a < b { return (a, b); }
        }
    }
    pub fn user(&mut self) -> usize { if self.cap > 58 && self.r.p(1, 2) { return 0; } self.r.n(self.w.users.len() as u64) as usize }
    pub fn pool(&mut self) -> usize { self.r.n(self.w.m.pools.len() as u64) as usize }
    fn lsize(&mut self) -> u64 {
        let (a, b) = self.lbits;
        let l = self.r.log(b - a) << a;
        if self.r.p(1, 4) { self.r.log(b) } else { l | self.r.n(1 << a.min(20)) }
    }
    pub fn amount(&mut self) -> u64 {
        match self.r.n(4) { 0 => self.r.log(20), 1 => self.r.log(40), 2 => self.r.log(self.lbits.1.max(2)), _ => self.r.log(self.cap + if self.cap < 63 { 3 } else { 0 }) }
    }
    fn fit_liq(&mut self, pi: usize, lo: i32, hi: i32, mut l: u64) -> u64 {
        let p = &self.w.m.pools[pi];
        loop {
            let (a, b) = amounts(p.tick, p.price, lo, hi, l, true);
            match (a, b) { (Some(a), Some(b)) if a < 1 << self.cap && b < 1 << self.cap => return l.max(1), _ => l >>= 3 }
            if l == 0 { return 1; }
        }
    }
    pub fn op_mint(&mut self, pi: usize) {
        let u = self.user();
        let (lo, hi) = self.range(pi);
        let owner = if self.r.p(1, 12) { let v = self.user(); self.w.users[v] } else if self.r.p(1, 60) { factory() } else { self.w.users[u] };
        // often another deposit into an existing range
        let mine: Vec<PK> = self.w.m.pools[pi].pos.keys().filter(|k| k.0 != factory()).cloned().collect();
        let (owner, lo, hi) = if !mine.is_empty() && self.r.p(2, 5) { *self.r.pick(&mine) } else { (owner, lo, hi) };
        let u = if let Some(x) = self.w.users.iter().position(|k| *k == owner) { if self.r.p(1, 10) { u } else { x } } else { u };
        let l = self.lsize();
        let l = if self.r.p(1, 40) { l } else { self.fit_liq(pi, lo, hi, l) };
        if self.r.p(1, 25) { let k = self.w.m.pools[pi].id.pos(&owner, lo, hi); self.prefund_key(k); }
        self.w.prepare(u, owner, pi, lo, hi);
        if !self.w.stop { self.w.do_mint(u, owner, pi, lo, hi, l); }
    }
    /// numbers that often mean something else than themselves
    fn sentinel(&mut self) -> u64 { *self.r.pick(&[0, 0, u64::MAX, u64::MAX, u64::MAX - 1, 1 << 63, (1 << 63) - 1, u32::MAX as u64]) }
    fn fresh_key(&mut self) -> K { K::new(&self.r.bytes32()) }
    /// amounts offered and minimums around what will be used
    fn desired(&mut self, pi: usize, lo: i32, hi: i32) -> ([u64; 2], [u64; 2]) {
        let l = self.lsize();
        let l = self.fit_liq(pi, lo, hi, l);
        let p = &self.w.m.pools[pi];
        let (a, b) = amounts(p.tick, p.price, lo, hi, l, true);
        let (a, b) = (a.unwrap_or(0), b.unwrap_or(0));
        let mut d = match self.r.n(4) {
            0 => [a, b],
            1 => [a.saturating_mul(1 + self.r.n(4)), b],
            2 => [a, b.saturating_mul(1 + self.r.n(4))],
            _ => [a + self.r.n(3), b + self.r.n(3)],
        };
        if self.r.p(1, 12) { d = [self.amount(), self.amount()]; }
        let p = &self.w.m.pools[pi];
        let mut min = [0, 0];
        if let Some(l2) = liq_for(p.price, price_at(lo), price_at(hi), d[0], d[1]) {
            let (x, y) = amounts(p.tick, p.price, lo, hi, l2, true);
            if let (Some(x), Some(y)) = (x, y) {
                min = match self.r.n(6) { 0 => [x, y], 1 => [x + 1, y], 2 => [x, y + 1], 3 => [x.saturating_sub(1), 0], 4 => [0, y], _ => [0, 0] };
            }
        }
        if self.r.p(1, 25) { let i = self.r.n(2) as usize; min[i] = self.sentinel(); }
        if self.r.p(1, 25) { let i = self.r.n(2) as usize; d[i] = self.sentinel(); }
        (d, min)
    }
    pub fn deadline(&mut self) -> i64 {
        let now = self.w.b.now;
        match self.r.n(if self.w.target == "C07" { 7 } else { 24 }) {
            0 => now,
            1 => now - 1,
            2 => now + 1,
            3 => match self.r.n(7) { 0 | 1 => i64::MIN, 4 | 5 => self.r.i(-2, 2), 6 => -now, 2 => now - (1 << 32), _ => now - 1 - self.r.log(40) as i64 },
            // far ahead: other units, other widths
            4 | 5 => match self.r.n(6) {
                0 => now.saturating_mul(1000).max(now),
                1 => (1 << 31) + self.r.n(5) as i64 - 2 + now,
                2 => now + (1 << 32) - self.r.n(3) as i64 + 1,
                3 => i64::MAX - 1,
                4 => (now >> 32 << 32) + (1 << (33 + self.r.n(29))) + self.r.n(100) as i64,
                _ => now.saturating_add(self.r.log(63) as i64),
            },
            _ => i64::MAX,
        }
    }
    pub fn op_nmint(&mut self, pi: usize) {
        let u = self.user();
        let to = if self.r.p(1, 5) { self.user() } else { u };
        let old: Vec<(i32, i32)> = self.w.m.nfts.iter().filter(|x| x.pool == pi).map(|x| (x.lo, x.hi)).collect();
        let (lo, hi) = if !old.is_empty() && self.r.p(3, 5) { *self.r.pick(&old) } else { self.range(pi) };
        self.w.prepare(u, factory(), pi, lo, hi);
        if self.w.stop { return; }
        let (d, min) = self.desired(pi, lo, hi);
        let dl = self.deadline();
        let nft = if !self.w.m.nfts.is_empty() && self.r.p(1, 25) { let n = self.r.n(self.w.m.nfts.len() as u64) as usize; self.w.m.nfts[n].mint } else { self.fresh_key() };
        let tok_to = self.w.users[to];
        if self.r.p(1, 15) { let k = *self.r.pick(&[tpos(&nft), ata(&tok_to, &nft), nft]); self.prefund_key(k); }
        self.w.do_nft_mint(u, tok_to, nft, pi, lo, hi, d, min, dl);
    }
    /// candidate stops for a swap: prices of nearby initialized ticks and word edges
    fn limit(&mut self, pi: usize, zfo: bool) -> u64 {
        let p = &self.w.m.pools[pi];
        let (price, sp, tick) = (p.price, p.id.spacing as i32, p.tick);
        let ends = if zfo { MIN_P + 1 } else { MAX_P - 1 };
        let x = self.r.n(12);
        if x < 3 && (sp >= 100 || self.r.p(1, 4)) { return ends; }
        if x == 3 { return *self.r.pick(&[0, MIN_P, MAX_P, MIN_P - 1, MAX_P + 1, u64::MAX, price, price + 1, price.saturating_sub(1), MIN_P + 1, MAX_P - 1]); }
        let near: Vec<i32> = if zfo { p.ticks.range(..=tick).rev().take(4).map(|x| *x.0).collect() } else { p.ticks.range(tick + 1..).take(4).map(|x| *x.0).collect() };
        let t = if !near.is_empty() && x < 9 { *self.r.pick(&near) } else {
            let words = self.r.i(0, 8) * 256 * sp as i64 + self.r.i(0, 100 * sp as i64);
            let t = if zfo { tick as i64 - words } else { tick as i64 + words };
            let t = t.clamp(MIN_TICK as i64 + 1, MAX_TICK as i64 - 1) as i32;
            if self.r.p(1, 3) { t.div_euclid(sp * 256) * sp * 256 } else { t }
        };
        let q = price_at(t.clamp(MIN_TICK, MAX_TICK - 1));
        let q = match self.r.n(4) { 0 => q.saturating_sub(1), 1 => q + 1, _ => q };
        if zfo { q.clamp(MIN_P + 1, price.saturating_sub(1).max(MIN_P + 1)) } else { q.clamp((price + 1).min(MAX_P - 1), MAX_P - 1) }
    }
    pub fn swap_args(&mut self, pi: usize, exact_in: bool) -> (bool, i64, u64) {
        let p = &self.w.m.pools[pi];
        let zfo = if p.price > price_at(200_000) { true } else if p.price < price_at(-200_000) { false } else { self.r.p(1, 2) };
        let limit = self.limit(pi, zfo);
        let sign = if exact_in { 1 } else { -1 };
        let mut amt = self.amount().min(i64::MAX as u64 / 2) as i64;
        if self.r.p(1, 2) {
            // exactly what it takes to get to the limit, or to the edge of one of the steps, or one unit off
            let big = if exact_in { i64::MAX } else { i64::MIN + 1 };
            if let Ok(r) = self.w.m.pools[pi].predict_swap(self.w.m.protocol, zfo, big, limit, MAX_STEPS) {
                if !r.steps.is_empty() {
                    let k = if self.r.p(1, 2) { r.steps.len() } else { 1 + self.r.n(r.steps.len() as u64) as usize };
                    let s: u64 = r.steps[..k].iter().map(|s| if exact_in { s.inn + s.fee } else { s.out }).sum();
                    if s > 0 && s < 1 << 63 { amt = (s as i64 + self.r.i(-1, 1)).max(1); }
                    if self.r.p(1, 3) { amt = 1 + self.r.n(amt as u64) as i64; }
                }
            }
        } else if self.r.p(1, 40) { amt = *self.r.pick(&[0, 1, 2, i64::MAX, 3]); }
        (zfo, amt.saturating_mul(sign), limit)
    }
    /// does a swap to the very end stay short?
    pub fn open_ended_ok(&self, pi: usize) -> bool { self.w.m.pools[pi].id.spacing >= 100 }
    pub fn op_swap(&mut self, pi: usize, exact_in: bool) {
        let u = self.user();
        let (zfo, amt, limit) = self.swap_args(pi, exact_in);
        let amt = match self.r.n(400) { 0 => 0, 1 | 2 if !exact_in => i64::MIN, 3 if !exact_in => i64::MIN + 1, _ => amt };
        self.w.do_swap(u, pi, zfo, amt, limit);
    }
    pub fn op_rsingle(&mut self, pi: usize) {
        let u = self.user();
        let (zfo, amt, mut limit) = self.swap_args(pi, true);
        if self.r.p(1, 4) { limit = 0; }
        let lim = if limit == 0 { if zfo { MIN_P + 1 } else { MAX_P - 1 } } else { limit };
        let out = self.w.m.pools[pi].predict_swap(self.w.m.protocol, zfo, amt, lim, MAX_STEPS).map(|r| r.total_out).unwrap_or(0);
        let inn = amt as u64;
        let min = match self.r.n(7) { 0 | 1 => out, 2 => out + 1, 3 => out.saturating_sub(1), 4 => inn.min(out), 5 => (out / 2).max(inn.min(out + 1)), _ => 0 };
        let min = if self.r.p(1, 20) { self.sentinel() } else { min };
        let dl = self.deadline();
        let amt = if self.r.p(1, 60) { i64::MAX as u64 + self.r.n(3) } else { amt as u64 };
        let amt = if self.r.p(1, 40) { self.sentinel() } else { amt };
        self.w.do_router_single(u, pi, zfo, dl, amt, min, limit);
    }
    pub fn path(&mut self) -> Vec<(usize, bool)> {
        let pools: Vec<[K; 2]> = self.w.m.pools.iter().map(|p| p.id.t).collect();
        let p0 = self.pool();
        let mut v = vec![(p0, self.r.p(1, 2))];
        let n = 1 + if self.r.p(1, 12) { 2 + self.r.n(4) } else { self.r.n(3) } as usize;
        while v.len() < n {
            let (pi, z) = v[v.len() - 1];
            let have = pools[pi][if z { 1 } else { 0 }];
            let c: Vec<(usize, bool)> = pools.iter().enumerate().filter_map(|(i, t)| if t[0] == have { Some((i, true)) } else if t[1] == have { Some((i, false)) } else { None }).collect();
            // prefer moving on to another pool
            let c2: Vec<(usize, bool)> = c.iter().cloned().filter(|x| x.0 != pi).collect();
            let other = !c2.is_empty() && self.r.p(5, 6);
            v.push(*self.r.pick(if other { &c2 } else { &c }));
        }
        v
    }
    pub fn op_rpath(&mut self) {
        let u = self.user();
        if self.r.p(1, 40) {
            let (pi, amt, dl) = (self.pool(), self.amount(), self.deadline());
            let min = *self.r.pick(&[0, 1, amt / 2, amt, amt + 1]);
            self.w.do_router_nowhere(u, pi, dl, amt, min);
            return;
        }
        let path = self.path();
        let mut amt = self.amount().min(1 << (self.cap.min(60) + 2));
        for _ in 0..12 {
            match self.w.predict_path(&path, amt) {
                Some(v) if v.iter().all(|x| *x > 0) || self.r.p(1, 20) => break,
                Some(_) => amt = amt.saturating_mul(64).min(1 << (self.cap.min(60) + 2)),
                None => amt = (amt >> 6).max(1),
            }
        }
        let out = self.w.predict_path(&path, amt).and_then(|v| v.last().cloned()).unwrap_or(0);
        let min = match self.r.n(6) { 0 | 1 => out, 2 => out + 1, 3 => out.saturating_sub(1), 4 => amt.min(out), _ => 0 };
        let min = if self.r.p(1, 20) { self.sentinel() } else { min };
        let amt = if self.r.p(1, 40) { self.sentinel() } else { amt };
        let dl = self.deadline();
        self.w.do_router_multi(u, &path, dl, amt, min);
    }
    pub fn recips(&mut self, pi: usize, u: usize) -> [K; 2] {
        let v = if self.r.p(1, 6) { self.user() } else { u };
        let mut to = self.w.tas(v, pi);
        if self.r.p(1, 40) {
            // to the vault itself or that of another pool, which are token accounts like any other
            let i = self.r.n(2) as usize;
            let c: Vec<K> = self.w.m.pools.iter().flat_map(|p| (0..2).filter(|j| p.id.t[*j] == self.w.m.pools[pi].id.t[i]).map(|j| p.id.v[j]).collect::<Vec<K>>()).collect();
            to[i] = *self.r.pick(&c);
            self.w.stat("collected into a vault");
        }
        to
    }
    fn req(&mut self, have: [u64; 2]) -> [u64; 2] {
        let mut f = |h: u64| match self.r.n(7) { 0 => h, 1 => h / 2, 2 => h + 1, 3 => 0, 4 => 1, _ => u64::MAX };
        [f(have[0]), f(have[1])]
    }
    /// the signer and the token account presented for an NFT operation: usually right
    fn nft_signer(&mut self, n: usize) -> (K, K) {
        let at = self.w.nft_at[n];
        let h = self.w.holder(n).unwrap_or(0);
        let x = self.r.n(if self.w.target == "C13" { 10 } else { 30 });
        if x == 0 { let u = self.user(); return (self.w.users[u], at); }
        if x == 1 {
            // own, possibly empty, account for the NFT
            let u = self.user();
            let mint = self.w.m.nfts[n].mint;
            let k = self.w.ensure_ata(u, &mint);
            return (self.w.users[u], k);
        }
        if x == 2 { let m = self.r.n(self.w.m.nfts.len() as u64) as usize; let g = self.w.holder(m).unwrap_or(0); return (self.w.users[g], self.w.nft_at[m]); }
        if x == 6 {
            // somebody's account of this or another NFT, with an approval left on it; the delegate signs
            let (v, d) = (self.user(), self.user());
            let m = if self.r.p(2, 3) { n } else { self.r.n(self.w.m.nfts.len() as u64) as usize };
            let mint = self.w.m.nfts[m].mint;
            let k = self.w.ensure_ata(v, &mint);
            // (the token program takes an owner who approved himself for a delegate, so not for nothing)
            let (dk, amt) = (self.w.users[d], if d == v { 1 } else { self.r.n(3) });
            self.w.do_tk_approve(v, k, dk, amt);
            return (dk, k);
        }
        if x <= 5 { if let Some(d) = self.w.b.get(&at).and_then(tk_of).and_then(|t| t.delegate) { return (d, at); } }
        (self.w.users[h], at)
    }
    pub fn step(&mut self, weights: &[u32; OPS], probe: &mut dyn FnMut(&mut Ep)) {
        let total: u32 = weights.iter().sum();
        let mut x = self.r.n(total as u64) as u32;
        let mut op = ALL[0];
        for o in ALL { if x < weights[o as usize] { op = o; break; } x -= weights[o as usize]; }
        self.step += 1;
        let pi = self.pool();
        let u = self.user();
        let undo = if !matches!(op, Probe) && self.r.p(1, 7) { self.other_accounts(u, matches!(op, RPath)) } else { None };
        self.act(op, pi, u, probe);
        if let Some((k, probing)) = undo {
            self.w.alt.clear();
            self.w.probing = probing;
            if let Some(k) = k { if let Some(a) = self.w.b.get(&k).cloned() { let mut a = a; a.data[72..76].fill(0); a.data[121..129].fill(0); self.w.b.put(k, a); } }
        }
    }
    /// for the next operation, users pay from or are paid into other token accounts than their associated ones:
    /// a second account of their own, another user's that they are approved for, or another user's they are not
    fn other_accounts(&mut self, u: usize, path: bool) -> Option<(Option<K>, u32)> {
        let m = if self.w.m.pools.is_empty() { return None } else { let p = self.pool(); self.w.m.pools[p].id.t[self.r.n(2) as usize] };
        let nu = self.w.users.len();
        let kind = self.r.n(6);
        let probing = self.w.probing;
        let mut del = None;
        if kind < 3 {
            // every user has a second account of the token
            for v in 0..nu {
                let a = ata(&self.w.users[v], &m);
                let k = pda_of(&tok(), &[b"second", self.w.users[v].as_ref(), m.as_ref()]);
                if self.w.b.get(&k).is_none() { self.w.b.put(k, tk_acct(&m, &self.w.users[v], 0)); }
                let (x, y) = (self.w.bal(&a), self.w.bal(&k));
                let y2 = match self.r.n(3) { 0 => y, 1 => x / 2 + y / 2, _ => x / 4 * 3 + y / 4 };
                let set = |w: &mut World, k: K, n: u64| { let mut c = w.b.get(&k).cloned().unwrap(); c.data[64..72].copy_from_slice(&n.to_le_bytes()); w.b.put(k, c); };
                set(&mut self.w, k, y2);
                set(&mut self.w, a, x.wrapping_add(y).wrapping_sub(y2));
                self.w.alt.insert((v, m), k);
            }
            self.w.stat("operations with second token accounts");
        } else {
            let v = self.user();
            if v == u { return None; }
            let k = ata(&self.w.users[v], &m);
            for q in 0..nu { if q != v { self.w.alt.insert((q, m), k); } }
            // whoever acts, at most one of them is the delegate
            if kind < 5 {
                let mut c = self.w.b.get(&k).cloned().unwrap();
                c.data[72..76].copy_from_slice(&1u32.to_le_bytes());
                c.data[76..108].copy_from_slice(self.w.users[u].as_ref());
                let n = if !path && self.r.p(1, 3) { self.amount() } else { u64::MAX };
                c.data[121..129].copy_from_slice(&n.to_le_bytes());
                self.w.b.put(k, c);
                del = Some(k);
            }
            // the owner could sign for the account as well
            self.w.probing = 0;
            self.w.stat(if kind < 5 { "operations with a token account approved to the signer" } else { "operations with another user's token account" });
        }
        Some((del, probing))
    }
    fn act(&mut self, op: O, pi: usize, u: usize, probe: &mut dyn FnMut(&mut Ep)) {
        match op {
            SwapIn => self.op_swap(pi, true),
            SwapOut => self.op_swap(pi, false),
            Mint => self.op_mint(pi),
            Burn | Poke | Collect => {
                let keys: Vec<PK> = self.w.m.pools[pi].pos.keys().filter(|k| k.0 != factory()).cloned().collect();
                if keys.is_empty() { return; }
                let k = *self.r.pick(&keys);
                let o = self.w.users.iter().position(|x| *x == k.0).unwrap();
                let p = self.w.m.pools[pi].pos[&k].clone();
                match op {
                    Burn => {
                        let n = match self.r.n(8) { 0 | 1 => p.liq, 2 => 1.min(p.liq), 3 => p.liq + 1, 4 => p.liq / 2, 5 => p.liq.saturating_sub(1), _ => 1 + self.r.n(p.liq) };
                        let n = if self.r.p(1, 60) { *self.r.pick(&[u64::MAX, 1 << 63, (1 << 63) - 1]) } else { n };
                        self.w.do_burn(o, pi, k.1, k.2, n);
                    }
                    Poke => { self.w.do_burn(o, pi, k.1, k.2, 0); }
                    _ => {
                        for t in [k.1, k.2] { if !self.w.m.pools[pi].tick_accts.contains(&t) && !self.w.stop { self.w.do_init_tick(o, pi, t); } }
                        let to = self.recips(pi, o);
                        let q = self.req(p.owed);
                        if !self.w.stop { self.w.do_collect(o, pi, k.1, k.2, to, q); }
                    }
                }
            }
            RSingle => self.op_rsingle(pi),
            RPath => self.op_rpath(),
            NMint => self.op_nmint(pi),
            NInc | NDec | NCollect | NTransfer | NApprove | NMeta => {
                if self.w.m.nfts.is_empty() { return self.op_nmint(pi); }
                let n = self.r.n(self.w.m.nfts.len() as u64) as usize;
                let x = self.w.m.nfts[n].clone();
                match op {
                    NInc => {
                        self.w.prepare(u, factory(), x.pool, x.lo, x.hi);
                        if self.w.stop { return; }
                        let (d, min) = self.desired(x.pool, x.lo, x.hi);
                        let dl = self.deadline();
                        self.w.do_nft_inc(u, n, d, min, dl);
                    }
                    NDec => {
                        let l = match self.r.n(8) { 0 | 1 => x.liq, 2 => x.liq + 1, 3 => 1, 4 => x.liq / 2, _ => 1 + self.r.n(x.liq) };
                        // try to reach into what the neighbours in the same range hold
                        let core = self.w.m.pools[x.pool].pos.get(&(factory(), x.lo, x.hi)).map(|p| p.liq).unwrap_or(0);
                        let l = if self.r.p(1, 20) { core } else { l };
                        let l = if self.r.p(1, 30) { self.sentinel() } else { l };
                        let p = &self.w.m.pools[x.pool];
                        let (a, b) = amounts(p.tick, p.price, x.lo, x.hi, l, false);
                        let (a, b) = (a.unwrap_or(0), b.unwrap_or(0));
                        let mut min = match self.r.n(6) { 0 => [a, b], 1 => [a + 1, b], 2 => [a, b + 1], 3 => [a.saturating_sub(1), b], _ => [0, 0] };
                        if self.r.p(1, 25) { let i = self.r.n(2) as usize; min[i] = self.sentinel(); }
                        let dl = self.deadline();
                        let (s, at) = self.nft_signer(n);
                        self.w.do_nft_dec(s, at, n, l, min, dl);
                    }
                    NCollect => {
                        for t in [x.lo, x.hi] { if !self.w.m.pools[x.pool].tick_accts.contains(&t) && !self.w.stop { self.w.do_init_tick(u, x.pool, t); } }
                        let (s, at) = self.nft_signer(n);
                        let h = self.w.holder(n).unwrap_or(0);
                        let to = self.recips(x.pool, h);
                        let have = match self.w.m.nft_settle(n) { Some(f) => [x.owed[0].wrapping_add(f[0]), x.owed[1].wrapping_add(f[1])], None => x.owed };
                        let q = self.req(have);
                        if !self.w.stop { self.w.do_nft_collect(s, at, n, to, q); }
                    }
                    NTransfer => { let v = self.user(); self.w.do_nft_transfer(n, v); }
                    NApprove if self.r.p(1, 5) => { let v = self.user(); self.w.do_nft_closer(n, Some(v)); }
                    NApprove => { let v = if self.r.p(2, 3) { Some(self.user()) } else { None }; let amt = *self.r.pick(&[0, 1, 1, 1, 1, 2, u64::MAX]); self.w.do_nft_approve(n, v, amt); }
                    _ => { self.w.do_nft_meta(u, n); }
                }
            }
            IncObs => {
                let len = self.w.m.pools[pi].obs.slots.len() as u16;
                if len > 14 && !self.r.p(1, 10) { return; }
                let n = if self.r.p(1, 12) { 0 } else { 1 + self.r.n(4) as u16 };
                if n > 0 && self.r.p(1, 15) { let o = self.r.n(n as u64) as u16; self.w.do_inc_obs_odd(u, pi, n, o); return; }
                let from = match self.r.n(12) { 0 => len - 1, 1 => len + 1, _ => len };
                if self.r.p(1, 5) { let k = self.w.m.pools[pi].id.obs(len); self.prefund_key(k); }
                self.w.do_inc_obs(u, pi, from, n);
            }
            SetProt => {
                let s = if self.r.p(1, 4) { self.w.users[u] } else { self.w.m.owner };
                let x = match self.r.n(5) { 0 => self.r.n(256) as u8, 1 => *self.r.pick(&[0, 1, 2, 10, 11, 255]), _ => 2 + self.r.n(9) as u8 };
                self.w.do_set_fee_protocol(s, x);
            }
            SetOwner => {
                let s = if self.r.p(1, 3) { self.w.users[u] } else { self.w.m.owner };
                let v = self.user();
                let old = self.w.m.owner;
                let new = self.w.users[v];
                self.w.do_set_owner(s, new);
                if !self.w.stop && old != self.w.m.owner { let x = 2 + self.r.n(9) as u8; self.w.do_set_fee_protocol(old, x); }
            }
            EnableFee => {
                let s = if self.r.p(1, 4) { self.w.users[u] } else { self.w.m.owner };
                let fee = match self.r.n(6) { 0 => *self.r.pick(&[999_999, 1_000_000, 1_000_001, u32::MAX]), 1 => self.r.pick(&TIERS).0, _ => self.r.n(1_000_000) as u32 };
                let sp = match self.r.n(4) { 0 => *self.r.pick(&[0, 1, 16383, 16384, u16::MAX]), _ => 1 + self.r.n(16383) as u16 };
                self.w.do_enable_fee(s, fee, sp);
                if self.r.p(1, 6) && !self.w.stop { let k = self.w.users[u]; self.w.do_init_factory(k, false); }
            }
            CollectProt => {
                let s = if self.r.p(1, 6) { self.w.users[u] } else { self.w.m.owner };
                let to = self.recips(pi, u);
                let q = self.req(self.w.m.pools[pi].prot);
                self.w.do_collect_protocol(s, pi, to, q);
            }
            Life => self.op_life(pi, u),
            CreatePool => {
                let nm = self.w.mints.len() as u64;
                let (a, b) = (self.r.n(nm) as usize, self.r.n(nm) as usize);
                let (m0, m1) = (self.w.mints[a], self.w.mints[b]);
                let fees: Vec<u32> = self.w.m.fees.keys().cloned().collect();
                let fee = if self.r.p(1, 6) { self.r.n(1_000_000) as u32 } else { *self.r.pick(&fees) };
                let sp = self.w.m.fees.get(&fee).cloned().unwrap_or(1) as i32;
                let price = match self.r.n(6) { 0 => *self.r.pick(&[0, MIN_P - 1, MIN_P, MAX_P - 1, MAX_P, u64::MAX]), _ => self.start_price(sp) };
                if self.w.m.pools.len() >= 5 && m0 < m1 && !self.w.m.pools.iter().any(|p| p.id.t == [m0, m1] && p.id.fee == fee) { return; }
                self.w.do_create_pool(u, m0, m1, fee, price);
                if self.w.m.pools.len() > self.univ.len() { self.mk_univ(self.w.m.pools.len() - 1); }
            }
            Donate => { let (side, n) = (self.r.n(2) as usize, self.amount() >> 2); self.w.do_donate(u, pi, side, n); }
            Time => {
                let part = 14 - self.w.b.now % 14;
                self.w.b.now += match self.r.n(8) { 0 => 0, 1 => 1, 2 => part - 1, 3 => part, 4 => 14, 5 => self.r.i(1, 60), 6 => self.r.i(1, 5000), _ => self.r.i(15, 200) };
                // hours, days, months or years without use
                if self.r.p(1, 60) && self.w.b.now < (1 << 32) - (1 << 27) { let k = if self.r.p(1, 40) { 27 } else { 12 + self.r.n(12) }; self.w.b.now += self.r.n(1 << k) as i64; }
                let l = format!("time {}", self.w.b.now);
                self.w.log.push(l);
            }
            Prefund => {
                let sp = self.w.m.pools[pi].id.spacing as i32;
                let t = usable(self.w.m.pools[pi].tick as i64 + self.r.i(-20, 20) * sp as i64, sp);
                let id = self.w.id(pi);
                let len = self.w.m.pools[pi].obs.slots.len() as u16;
                let k = match self.r.n(3) { 0 => id.tick(t), 1 => id.word(id.word_of(t)), _ => id.obs(len) };
                self.prefund_key(k);
                if !self.univ[pi].ticks.contains(&t) { self.univ[pi].ticks.push(t); }
            }
            Probe => probe(self),
        }
    }
    /// the same liquidity entering and leaving at one tick, then attempts to close it
    fn op_balanced(&mut self, pi: usize, u: usize) {
        let mut v = self.univ[pi].ticks.clone();
        if v.len() < 3 { return; }
        for i in 0..3 { let j = i + self.r.n((v.len() - i) as u64) as usize; v.swap(i, j); }
        v.truncate(3);
        v.sort();
        let (a, t, b) = (v[0], v[1], v[2]);
        if self.w.m.pools[pi].ticks.contains_key(&t) && self.r.p(3, 4) { return; }
        let o = self.w.users[u];
        let l = self.lsize();
        let l = self.fit_liq(pi, a, t, l);
        let l = self.fit_liq(pi, t, b, l);
        for (lo, hi) in [(a, t), (t, b)] {
            if self.w.stop { return; }
            self.w.prepare(u, o, pi, lo, hi);
            if !self.w.stop { self.w.do_mint(u, o, pi, lo, hi, l); }
        }
        if self.w.stop { return; }
        self.w.stat("ticks with balanced liquidity");
        self.w.do_close_tick(pi, t, o);
        for (lo, hi) in [(a, t), (t, b)] {
            if self.w.stop || self.r.p(1, 2) { return; }
            if self.w.m.pools[pi].pos.get(&(o, lo, hi)).map(|p| p.liq >= l).unwrap_or(false) { self.w.do_burn(u, pi, lo, hi, l); }
            if !self.w.stop { self.w.do_close_tick(pi, t, o); }
        }
    }
    fn op_life(&mut self, pi: usize, u: usize) {
        let sp = self.w.m.pools[pi].id.spacing as i32;
        if self.r.p(1, 8) { return self.op_balanced(pi, u); }
        match self.r.n(6) {
            0 => {
                let t = match self.r.n(5) {
                    0 => *self.r.pick(&[MIN_TICK, MAX_TICK, MIN_TICK - 1, MAX_TICK + 1, MIN_TICK / sp * sp - sp, MAX_TICK / sp * sp + sp, i32::MIN + 1, i32::MAX]),
                    1 => self.w.m.pools[pi].tick.wrapping_add(self.r.i(-5, 5) as i32),
                    2 => { let v = self.univ[pi].ticks.clone(); *self.r.pick(&v) }
                    _ => usable(self.r.i(MIN_TICK as i64, MAX_TICK as i64), sp),
                };
                self.w.do_init_tick(u, pi, t);
            }
            1 | 2 => {
                let v: Vec<i32> = self.w.m.pools[pi].tick_accts.iter().cloned().collect();
                if v.is_empty() { return; }
                let free: Vec<i32> = v.iter().cloned().filter(|t| !self.w.m.pools[pi].ticks.contains_key(t)).collect();
                let t = if !free.is_empty() && self.r.p(1, 2) { *self.r.pick(&free) } else { *self.r.pick(&v) };
                let to = self.w.users[u];
                if self.w.m.pools[pi].tick_accts.contains(&t) && !self.w.m.pools[pi].ticks.contains_key(&t) && self.r.p(1, 2) {
                    let v = self.univ[pi].ticks.clone();
                    let x = *self.r.pick(&v);
                    let (lo, hi) = (t.min(x), t.max(x));
                    let l = self.lsize();
                    let o = self.w.users[u];
                    if lo < hi { self.w.prepare(u, o, pi, lo, hi); }
                    if lo < hi && !self.w.stop { self.w.prepare(u, factory(), pi, lo, hi); }
                    if lo < hi && !self.w.stop { self.w.do_bundles(u, pi, t, lo, hi, l); }
                    if self.w.stop { return; }
                }
                if self.r.p(1, 3) {
                    let n = match self.r.n(3) { 0 => 1, _ => rent_min(8 + std::mem::size_of::<cyclos_core::states::tick::TickState>()) };
                    self.w.do_revive(u, pi, t, n);
                } else { self.w.do_close_tick(pi, t, to); }
                if self.r.p(1, 2) && !self.w.stop && !self.w.m.pools[pi].tick_accts.contains(&t) { self.w.do_init_tick(u, pi, t); }
            }
            3 => {
                let (lo, hi) = ((MIN_TICK / sp) >> 8, (MAX_TICK / sp) >> 8);
                let x = match self.r.n(4) { 0 => *self.r.pick(&[lo, hi, lo - 1, hi + 1, i16::MIN as i32, i16::MAX as i32]), _ => self.r.i(lo as i64, hi as i64) as i32 };
                self.w.do_init_word(u, pi, x.clamp(i16::MIN as i32, i16::MAX as i32) as i16);
            }
            _ => {
                let v = self.univ[pi].ticks.clone();
                let (lo, hi) = (*self.r.pick(&v), *self.r.pick(&v));
                for t in [lo, hi] { if !self.w.m.pools[pi].tick_accts.contains(&t) && !self.w.stop && self.r.p(9, 10) { self.w.do_init_tick(u, pi, t); } }
                let o = self.user();
                let owner = self.w.users[o];
                if !self.w.stop { self.w.do_init_pos(u, owner, pi, lo, hi); }
            }
        }
    }
}
