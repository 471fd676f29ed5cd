//! The reference model: what the protocol must do, kept as plain numbers per pool, position and NFT.
#![allow(dead_code)]
use crate::ix::*;
use crate::rmath::*;
use crate::vm::*;
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Slot { pub init: bool, pub ts: u32, pub tc: i64, pub spl: u64 }
#[derive(Clone, Debug, Default)]
pub struct ObsM { pub idx: u16, pub card: u16, pub slots: Vec<Slot> }
#[derive(Clone, Debug, Default, PartialEq)]
pub struct TickM { pub gross: u64, pub net: i64, /** serial number of this initialization */ pub epoch: u64 }
#[derive(Clone, Debug, Default, PartialEq)]
pub struct PosM { pub liq: u64, pub acc: [u64; 2], pub last: [u64; 2], pub owed: [u64; 2] }
#[derive(Clone, Debug, Default, PartialEq)]
pub struct RangeM { pub sec: i64, pub tsec: i64, pub spl: u64 }
pub type PK = (K, i32, i32);

#[derive(Clone, Debug)]
pub struct PoolM {
    pub id: PoolId,
    pub price: u64,
    pub tick: i32,
    pub liq: u64,
    pub fg: [u64; 2],
    pub prot: [u64; 2],
    pub ticks: BTreeMap<i32, TickM>,
    pub tick_accts: BTreeSet<i32>,
    pub words: BTreeSet<i16>,
    pub pos: BTreeMap<PK, PosM>,
    pub obs: ObsM,
    /// integrals over the pool's life up to `int_ts`
    pub int_ts: u32,
    pub int_tc: i64,
    pub int_spl: u64,
    pub ranges: BTreeMap<(i32, i32), RangeM>,
    pub epochs: u64,
    pub ranges_gen: u64,
}
#[derive(Clone, Debug, PartialEq)]
pub struct NftM { pub mint: K, pub pool: usize, pub lo: i32, pub hi: i32, pub liq: u64, pub last: [u64; 2], pub owed: [u64; 2], pub meta: bool }

#[derive(Clone, Debug, PartialEq)]
pub enum E { /** must fail */ Fail(&'static str), /** outside the representable range: not predicted */ Range(&'static str) }
pub type Amts = [u64; 2];

#[derive(Clone, Debug)]
pub struct Model {
    pub owner: K,
    pub protocol: u8,
    pub fees: BTreeMap<u32, u16>,
    pub pools: Vec<PoolM>,
    pub nfts: Vec<NftM>,
    /// expected token movements of the operation being predicted: account -> signed delta
    pub moves: BTreeMap<K, i128>,
}

pub fn credit(d: u64, liq: u64) -> Option<u64> { muldiv(d, liq, Q32) }

impl ObsM {
    pub fn next(&self) -> u16 { ((self.idx as usize + 1) % self.slots.len()) as u16 }
    pub fn needs_next(&self, now: u32) -> bool { now / 14 > self.slots[self.idx as usize].ts / 14 }
}

impl PoolM {
    pub fn new(id: PoolId, price: u64, now: u32) -> PoolM {
        PoolM {
            id, price, tick: tick_at(price), liq: 0, fg: [0; 2], prot: [0; 2], ticks: BTreeMap::new(), tick_accts: BTreeSet::new(), words: BTreeSet::new(),
            pos: BTreeMap::new(), obs: ObsM { idx: 0, card: 1, slots: vec![Slot { init: true, ts: now, tc: 0, spl: 0 }] },
            int_ts: now, int_tc: 0, int_spl: 0, ranges: BTreeMap::new(), epochs: 0, ranges_gen: 0,
        }
    }
    /// carries the time integrals forward to `now` with the tick and liquidity in force until now
    pub fn integrate(&mut self, now: u32) {
        let dt = now.wrapping_sub(self.int_ts);
        if dt == 0 { return; }
        let spl = ((dt as u64) << 32) / self.liq.max(1);
        let tc = self.tick as i64 * dt as i64;
        self.int_tc = self.int_tc.wrapping_add(tc);
        self.int_spl = self.int_spl.wrapping_add(spl);
        self.int_ts = now;
        let tick = self.tick;
        for ((lo, hi), r) in self.ranges.iter_mut() {
            if *lo <= tick && tick < *hi {
                r.sec += dt as i64;
                r.tsec = r.tsec.wrapping_add(tc);
                r.spl = r.spl.wrapping_add(spl);
            }
        }
    }
    /// a copy with the integrals carried to `now`
    pub fn at(&self, now: u32) -> PoolM { let mut c = self.clone(); c.integrate(now); c }
    /// an observation due because the tick or the active liquidity is about to change
    pub fn observe(&mut self, now: u32) {
        self.integrate(now);
        let last_ts = self.obs.slots[self.obs.idx as usize].ts;
        if self.obs.needs_next(now) { self.obs.idx = self.obs.next(); }
        if last_ts != now {
            let (tc, spl) = (self.int_tc, self.int_spl);
            let s = &mut self.obs.slots[self.obs.idx as usize];
            if !s.init { self.obs.card += 1; }
            *s = Slot { init: true, ts: now, tc, spl };
        }
    }
    pub fn net_at(&self, t: i32, lte: bool) -> Option<(i32, i64)> {
        if lte { self.ticks.range(..=t).next_back() } else { self.ticks.range(t..).next() }.map(|(k, v)| (*k, v.net))
    }
    pub fn predict_swap(&self, prot: u8, zfo: bool, amt: i64, limit: u64, max: usize) -> Result<SwapR, SwapErr> {
        swap(&SwapIn { price: self.price, tick: self.tick, liq: self.liq, fee: self.id.fee, spacing: self.id.spacing, prot_den: prot,
            net: &|t, l| self.net_at(t, l), word_exists: &|w| self.words.contains(&w), max_steps: max }, zfo, amt, limit)
    }
    pub fn apply_swap(&mut self, r: &SwapR, zfo: bool, now: u32) {
        let i = if zfo { 0 } else { 1 };
        for s in &r.steps {
            self.fg[i] = self.fg[i].wrapping_add(s.growth);
            if s.growth > 0 {
                for ((_, lo, hi), p) in self.pos.iter_mut() {
                    if *lo <= s.tick && s.tick < *hi { p.acc[i] = p.acc[i].wrapping_add(s.growth); }
                }
            }
        }
        self.prot[i] = self.prot[i].wrapping_add(r.prot);
        if r.tick != self.tick {
            self.observe(now);
            self.tick = r.tick;
        }
        self.price = r.price;
        self.liq = r.liq;
    }
    pub fn swap_rest(&self, r: &SwapR, now: u32) -> Vec<Meta> {
        let mut v: Vec<Meta> = r.walk.iter().map(|l| match l {
            Look::Word(w) => rw(self.id.word(*w)),
            Look::Tick(t) => rw(self.id.tick(*t)),
        }).collect();
        if self.obs.needs_next(now) { v.push(rw(self.id.obs(self.obs.next()))); }
        v
    }
    /// the accounts a swap would visit, whatever its amounts
    pub fn walk_rest(&self, zfo: bool, limit: u64, max: usize) -> Vec<Meta> {
        let sp = self.id.spacing as i32;
        let (mut tick, mut v, mut cached) = (self.tick, vec![], None);
        for _ in 0..max {
            let mut comp = tick.div_euclid(sp);
            if !zfo { comp += 1; }
            let word = comp >> 8;
            if cached != Some(word) {
                v.push(rw(self.id.word(word as i16)));
                cached = if self.words.contains(&(word as i16)) { Some(word) } else { None };
            }
            let edge = if zfo { word << 8 } else { (word << 8) + 255 };
            let (next, init) = match self.net_at(comp * sp, zfo) {
                Some((t, _)) if (zfo && t.div_euclid(sp) >= edge) || (!zfo && t.div_euclid(sp) <= edge) => (t, true),
                _ => (edge * sp, false),
            };
            if next <= MIN_TICK || next >= MAX_TICK { break; }
            let pn = price_at(next);
            if zfo && pn < limit || !zfo && pn > limit { break; }
            if init { v.push(rw(self.id.tick(next))); }
            tick = if zfo { next - 1 } else { next };
        }
        v
    }
    pub fn liq_rest(&self, now: u32) -> Vec<Meta> {
        if self.obs.needs_next(now) { vec![rw(self.id.obs(self.obs.next()))] } else { vec![] }
    }
    fn settle(p: &mut PosM) -> Result<(), E> {
        let mut c = [0u64; 2];
        for i in 0..2 { c[i] = credit(p.acc[i].wrapping_sub(p.last[i]), p.liq).ok_or(E::Range("fees"))?; }
        for i in 0..2 { p.owed[i] = p.owed[i].wrapping_add(c[i]); p.last[i] = p.acc[i]; }
        Ok(())
    }
    /// adds (or removes) liquidity of a position; returns the token amounts
    pub fn liquidity(&mut self, key: &PK, add: bool, amt: u64, now: u32) -> Result<Amts, E> {
        let (_, lo, hi) = *key;
        if !self.pos.contains_key(key) { return Err(E::Fail("position account missing")); }
        if !self.tick_accts.contains(&lo) || !self.tick_accts.contains(&hi) { return Err(E::Fail("tick account missing")); }
        if !self.words.contains(&self.id.word_of(lo)) || !self.words.contains(&self.id.word_of(hi)) { return Err(E::Fail("bitmap account missing")); }
        if lo >= hi { return Err(E::Fail("range")); }
        if amt > i64::MAX as u64 { return Err(E::Fail("amount above i64")); }
        if add && amt == 0 { return Err(E::Fail("zero deposit")); }
        let p = self.pos.get_mut(key).unwrap();
        if amt == 0 && p.liq == 0 { return Err(E::Fail("poke without liquidity")); }
        if !add && amt > p.liq { return Err(E::Fail("more than the position holds")); }
        if add && p.liq.checked_add(amt).is_none() { return Err(E::Range("position liquidity")); }
        Self::settle(p)?;
        p.liq = if add { p.liq + amt } else { p.liq - amt };
        if amt == 0 { return Ok([0, 0]); }
        for (t, upper) in [(lo, false), (hi, true)] {
            let fresh = !self.ticks.contains_key(&t);
            if fresh { self.epochs += 1; }
            let ep = self.epochs;
            let e = self.ticks.entry(t).or_insert(TickM { gross: 0, net: 0, epoch: ep });
            e.gross = if add { e.gross.checked_add(amt) } else { e.gross.checked_sub(amt) }.ok_or(E::Range("gross"))?;
            // beyond this the net of a tick might not fit, depending on who leaves first
            if add && e.gross > i64::MAX as u64 { return Err(E::Range("gross")); }
            let d = if add != upper { amt as i64 } else { -(amt as i64) };
            e.net = e.net.checked_add(d).ok_or(E::Range("net"))?;
            if e.gross == 0 { self.ticks.remove(&t); }
        }
        let (a0, a1) = amounts(self.tick, self.price, lo, hi, amt, add);
        let r = [a0.ok_or(E::Range("amount 0"))?, a1.ok_or(E::Range("amount 1"))?];
        if lo <= self.tick && self.tick < hi {
            self.observe(now);
            self.liq = if add { self.liq.checked_add(amt) } else { self.liq.checked_sub(amt) }.ok_or(E::Range("active liquidity"))?;
        }
        Ok(r)
    }
    pub fn pending(&self, key: &PK) -> Option<Amts> {
        let p = self.pos.get(key)?;
        Some([credit(p.acc[0].wrapping_sub(p.last[0]), p.liq)?, credit(p.acc[1].wrapping_sub(p.last[1]), p.liq)?])
    }
    /// rebuilds the model of this pool from the accounts as they are
    pub fn resync(&mut self, b: &Bank, known: &BTreeSet<i32>, known_pos: &BTreeSet<PK>) {
        let Some(rp) = r_pool(b, &self.id.key) else { return };
        self.price = rp.price; self.tick = rp.tick; self.liq = rp.liq; self.fg = rp.fg; self.prot = rp.prot;
        self.tick_accts = known.iter().cloned().filter(|t| r_tick(b, &self.id.tick(*t)).is_some()).collect();
        let old = std::mem::take(&mut self.ticks);
        for t in &self.tick_accts {
            let rt = r_tick(b, &self.id.tick(*t)).unwrap();
            if rt.gross > 0 {
                let epoch = match old.get(t) { Some(o) => o.epoch, None => { self.epochs += 1; self.epochs } };
                self.ticks.insert(*t, TickM { gross: rt.gross, net: rt.net, epoch });
            }
        }
        let old_words = std::mem::take(&mut self.words);
        let sp = self.id.spacing as i32;
        let cand: BTreeSet<i16> = old_words.into_iter().chain((MIN_TICK / sp >> 8..=MAX_TICK / sp >> 8).map(|x| x as i16)).collect();
        self.words = cand.into_iter().filter(|w| r_word(b, &self.id.word(*w)).is_some()).collect();
        for k in known_pos {
            if let Some(rp2) = r_pos(b, &self.id.pos(&k.0, k.1, k.2)) {
                let d = raw_delta(b, &self.id, &rp, k.1, k.2, &rp2);
                self.pos.insert(*k, PosM { liq: rp2.liq, acc: d, last: [0; 2], owed: rp2.owed });
            }
        }
        self.obs.idx = rp.oi; self.obs.card = rp.oc;
        self.obs.slots = (0..rp.on.max(1)).map(|i| {
            let o = r_obs(b, &self.id.obs(i)).unwrap_or_default();
            Slot { init: o.init != 0, ts: o.ts, tc: o.tc, spl: o.spl }
        }).collect();
        if let Some(s) = self.obs.slots.get(self.obs.idx as usize) { self.int_ts = s.ts; self.int_tc = s.tc; self.int_spl = s.spl; }
        else { self.obs.idx = 0; }
        self.ranges.clear();
        self.ranges_gen += 1;
    }
}

/// fee growth inside a range from the raw accounts
pub fn raw_inside(b: &Bank, id: &PoolId, rp: &RPool, lo: i32, hi: i32) -> Option<[u64; 2]> {
    let (l, u) = (r_tick(b, &id.tick(lo))?, r_tick(b, &id.tick(hi))?);
    let mut r = [0u64; 2];
    for i in 0..2 {
        let below = if rp.tick >= lo { l.fo[i] } else { rp.fg[i].wrapping_sub(l.fo[i]) };
        let above = if rp.tick < hi { u.fo[i] } else { rp.fg[i].wrapping_sub(u.fo[i]) };
        r[i] = rp.fg[i].wrapping_sub(below).wrapping_sub(above);
    }
    Some(r)
}
/// growth a position has not been credited yet, from the raw accounts
pub fn raw_delta(b: &Bank, id: &PoolId, rp: &RPool, lo: i32, hi: i32, p: &RPos) -> [u64; 2] {
    if p.liq == 0 { return [0; 2]; }
    match raw_inside(b, id, rp, lo, hi) {
        Some(x) => [x[0].wrapping_sub(p.last[0]), x[1].wrapping_sub(p.last[1])],
        None => [0; 2],
    }
}

impl Model {
    pub fn mv(&mut self, from: K, to: K, n: u64) {
        *self.moves.entry(from).or_insert(0) -= n as i128;
        *self.moves.entry(to).or_insert(0) += n as i128;
    }
    pub fn nft_settle(&self, n: usize) -> Option<Amts> {
        let x = &self.nfts[n];
        let p = &self.pools[x.pool].pos[&(factory(), x.lo, x.hi)];
        if x.liq == 0 { return Some([0, 0]); }
        Some([credit(p.acc[0].wrapping_sub(x.last[0]), x.liq)?, credit(p.acc[1].wrapping_sub(x.last[1]), x.liq)?])
    }
}
