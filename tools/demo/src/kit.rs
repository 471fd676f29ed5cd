//! Scenario helpers for the demonstrations: users, pools and operations with the remaining accounts worked out.
#![allow(dead_code)]
use crate::ix::*;
use crate::vm::*;

pub const BIG: i64 = i64::MAX;
pub const WEALTH: u64 = 1 << 60;
pub const Q32: u64 = 1 << 32;
pub const MINP: u64 = 65537;
pub const MAXP: u64 = 281472331703917;

#[derive(Clone)]
pub struct Kit { pub b: Bank, pub u: Vec<K>, pub m: Vec<K>, seq: u8 }

pub fn key(n: u8, tag: u8) -> K { let mut x = [tag; 32]; x[0] = n; x[31] = 7; K::new(&x) }

impl Kit {
    pub fn new(users: u8, mints: u8, now: i64) -> Kit {
        install();
        let u: Vec<K> = (0..users).map(|i| key(i + 1, 1)).collect();
        let m: Vec<K> = (0..mints).map(|i| key(i + 1, 2)).collect();
        let mut b = Bank::new();
        b.now = now;
        for id in [PROG, tok(), ata_prog(), meta_prog(), sys_id()] { b.put(id, Acct { lamports: 1, data: vec![], owner: K::default(), exec: true }); }
        let rent = solana_program::rent::Rent::default();
        let mut d = rent.lamports_per_byte_year.to_le_bytes().to_vec();
        d.extend(rent.exemption_threshold.to_le_bytes());
        d.push(rent.burn_percent);
        b.put(rent_id(), Acct { lamports: 1, data: d, owner: solana_program::sysvar::id(), exec: false });
        for x in &u { b.put(*x, Acct { lamports: 1 << 50, data: vec![], owner: sys_id(), exec: false }); }
        for x in &m {
            b.put(*x, mint_acct(&u[0], WEALTH, 6));
            for y in &u { b.put(ata(y, x), tk_acct(x, y, WEALTH)); }
        }
        let mut k = Kit { b, u, m, seq: 0 };
        let o = k.u[0];
        k.ok(init_factory(o), &[o]);
        k
    }
    pub fn tx(&mut self, ix: Ix, s: &[K]) -> TxRes { self.b.tx(&[ix], s) }
    pub fn ok(&mut self, ix: Ix, s: &[K]) -> TxOk { self.tx(ix, s).expect("setup instruction") }
    pub fn bal(&self, k: &K) -> u64 { self.b.get(k).and_then(tk_of).map(|t| t.amount).unwrap_or(0) }
    pub fn ta(&self, u: usize, p: &PoolId) -> [K; 2] { [ata(&self.u[u], &p.t[0]), ata(&self.u[u], &p.t[1])] }
    pub fn ps(&self, p: &PoolId) -> RPool { r_pool(&self.b, &p.key).unwrap() }
    pub fn vaults(&self, p: &PoolId) -> [u64; 2] { [self.bal(&p.v[0]), self.bal(&p.v[1])] }
    pub fn at(&mut self, now: i64) { self.b.now = now; }
    pub fn fee_tier(&mut self, fee: u32, sp: u16) {
        if r_fee(&self.b, fee).is_none() { let o = self.u[0]; self.ok(enable_fee(o, fee, sp), &[o]); }
    }
    pub fn pool(&mut self, a: usize, b: usize, fee: u32, sp: u16, price: u64) -> PoolId {
        self.fee_tier(fee, sp);
        let p = PoolId::new(self.m[a], self.m[b], fee, sp);
        let o = self.u[0];
        self.ok(create_pool(o, &p, price), &[o]);
        for i in 0..2 { self.b.put(p.v[i], tk_acct(&p.t[i], &p.key, 0)); }
        p
    }
    pub fn grow(&mut self, p: &PoolId, n: u16) { let (o, f) = (self.u[0], self.ps(p).on); self.ok(inc_obs(o, p, f, n), &[o]); }
    pub fn ticks(&mut self, p: &PoolId, ts: &[i32]) {
        let o = self.u[0];
        for t in ts {
            if r_tick(&self.b, &p.tick(*t)).is_none() { self.ok(init_tick(o, p, *t), &[o]); }
            let w = p.word_of(*t);
            if r_word(&self.b, &p.word(w)).is_none() { self.ok(init_word(o, p, w), &[o]); }
        }
    }
    pub fn prep(&mut self, owner: K, p: &PoolId, lo: i32, hi: i32) {
        self.ticks(p, &[lo, hi]);
        let o = self.u[0];
        if r_pos(&self.b, &p.pos(&owner, lo, hi)).is_none() { self.ok(init_pos(o, owner, p, lo, hi), &[o]); }
    }
    /// the next observation slot, when this block falls in a later slot than the latest observation
    pub fn next_obs(&self, p: &PoolId) -> Vec<Meta> {
        let s = self.ps(p);
        let l = r_obs(&self.b, &p.obs(s.oi)).unwrap();
        if self.b.now as u32 / 14 > l.ts / 14 { vec![rw(p.obs((s.oi + 1) % s.on))] } else { vec![] }
    }
    pub fn deposit(&mut self, u: usize, p: &PoolId, lo: i32, hi: i32, liq: u64) -> Result<[u64; 2], TxErr> {
        let o = self.u[u];
        self.prep(o, p, lo, hi);
        let v = self.vaults(p);
        let ix = mint(o, self.ta(u, p), o, p, lo, hi, liq, self.ps(p).oi, PROG, self.next_obs(p));
        self.tx(ix, &[o])?;
        let w = self.vaults(p);
        Ok([w[0] - v[0], w[1] - v[1]])
    }
    /// removes liquidity; returns what the position was credited (fees included)
    pub fn remove(&mut self, u: usize, p: &PoolId, lo: i32, hi: i32, liq: u64) -> Result<[u64; 2], TxErr> {
        let o = self.u[u];
        let a = r_pos(&self.b, &p.pos(&o, lo, hi)).unwrap().owed;
        let ix = burn(o, p, lo, hi, liq, self.ps(p).oi, self.next_obs(p));
        self.tx(ix, &[o])?;
        let z = r_pos(&self.b, &p.pos(&o, lo, hi)).unwrap().owed;
        Ok([z[0].wrapping_sub(a[0]), z[1].wrapping_sub(a[1])])
    }
    pub fn take(&mut self, u: usize, p: &PoolId, lo: i32, hi: i32, req: [u64; 2]) -> Result<[u64; 2], TxErr> {
        let o = self.u[u];
        let ta = self.ta(u, p);
        let a = [self.bal(&ta[0]), self.bal(&ta[1])];
        self.tx(collect(o, p, lo, hi, ta, req), &[o])?;
        Ok([self.bal(&ta[0]) - a[0], self.bal(&ta[1]) - a[1]])
    }
    fn bit(&self, p: &PoolId, c: i32) -> bool {
        match r_word(&self.b, &p.word((c >> 8) as i16)) { Some((_, w)) => { let b = (c & 255) as usize; w[b / 64] >> (b % 64) & 1 == 1 } None => false }
    }
    /// accounts a swap visits in order: words and initialized ticks
    pub fn walk(&self, p: &PoolId, zfo: bool, max: usize) -> Vec<Meta> {
        let sp = p.spacing as i32;
        let (mut tick, mut v, mut last) = (self.ps(p).tick, vec![], None);
        while v.len() < max {
            let mut c = tick.div_euclid(sp);
            if !zfo { c += 1; }
            let w = c >> 8;
            let edge = if zfo { w << 8 } else { (w << 8) + 255 };
            if last != Some(w) { v.push(rw(p.word(w as i16))); last = if r_word(&self.b, &p.word(w as i16)).is_some() { Some(w) } else { None }; }
            let mut n = c;
            while n != edge && !self.bit(p, n) { n += if zfo { -1 } else { 1 }; }
            let t = n * sp;
            if t <= -221818 || t >= 221818 { break; }
            if self.bit(p, n) { v.push(rw(p.tick(t))); }
            tick = if zfo { t - 1 } else { t };
        }
        v
    }
    /// runs `f` with as many walked accounts as the swap turns out to need
    pub fn with_walk(&mut self, p: &PoolId, zfo: bool, mut f: impl FnMut(&mut Kit, Vec<Meta>) -> TxRes) -> TxRes {
        let walk = self.walk(p, zfo, 24);
        let mut last = None;
        for n in 0..=walk.len() {
            let b0 = self.b.clone();
            let mut r = walk[..n].to_vec();
            r.extend(self.next_obs(p));
            match f(self, r) { Ok(x) => return Ok(x), Err(e) => { last = Some(e); self.b = b0; } }
        }
        Err(last.unwrap())
    }
    /// vault deltas of a swap (positive: into the pool)
    pub fn swap(&mut self, u: usize, p: &PoolId, zfo: bool, amt: i64, limit: u64) -> Result<[i64; 2], TxErr> {
        let lim = if limit > 0 { limit } else if zfo { MINP + 1 } else { MAXP - 1 };
        let (o, ta, v) = (self.u[u], self.ta(u, p), self.vaults(p));
        let (i, j) = if zfo { (0, 1) } else { (1, 0) };
        let pp = p.clone();
        self.with_walk(p, zfo, |k, r| { let oi = k.ps(&pp).oi; k.tx(ix_swap(o, ta[i], ta[j], &pp, zfo, amt, lim, oi, PROG, r), &[o]) })?;
        let w = self.vaults(p);
        Ok([w[0] as i64 - v[0] as i64, w[1] as i64 - v[1] as i64])
    }
    pub fn single(&mut self, u: usize, p: &PoolId, zfo: bool, amt: u64, min: u64, limit: u64, deadline: i64) -> Result<u64, TxErr> {
        let (o, ta) = (self.u[u], self.ta(u, p));
        let (i, j) = if zfo { (0, 1) } else { (1, 0) };
        let was = self.bal(&ta[j]);
        let pp = p.clone();
        self.with_walk(p, zfo, |k, r| { let oi = k.ps(&pp).oi; k.tx(router_single(o, ta[i], ta[j], &pp, zfo, deadline, amt, min, limit, oi, r), &[o]) })?;
        Ok(self.bal(&ta[j]) - was)
    }
    pub fn new_nft(&mut self) -> K { self.seq += 1; key(self.seq, 9) }
    pub fn nmint(&mut self, u: usize, p: &PoolId, lo: i32, hi: i32, d: [u64; 2], min: [u64; 2], deadline: i64) -> Result<(K, [u64; 2]), TxErr> {
        let o = self.u[u];
        self.prep(factory(), p, lo, hi);
        let nft = self.new_nft();
        let v = self.vaults(p);
        let ix = nft_mint(o, o, nft, p, lo, hi, self.ta(u, p), [d[0], d[1], min[0], min[1]], deadline, self.ps(p).oi, self.next_obs(p));
        self.tx(ix, &[o, nft])?;
        let w = self.vaults(p);
        Ok((nft, [w[0] - v[0], w[1] - v[1]]))
    }
    pub fn ninc(&mut self, u: usize, p: &PoolId, nft: K, d: [u64; 2], min: [u64; 2], deadline: i64) -> Result<[u64; 2], TxErr> {
        let o = self.u[u];
        let n = r_nft(&self.b, &tpos(&nft)).unwrap();
        let v = self.vaults(p);
        let ix = nft_inc(o, nft, p, n.lo, n.hi, self.ta(u, p), [d[0], d[1], min[0], min[1]], deadline, self.ps(p).oi, self.next_obs(p));
        self.tx(ix, &[o])?;
        let w = self.vaults(p);
        Ok([w[0] - v[0], w[1] - v[1]])
    }
    /// `holder` names the NFT account used; `signer` signs
    pub fn ndec(&mut self, signer: usize, holder: usize, p: &PoolId, nft: K, liq: u64, min: [u64; 2], deadline: i64) -> TxRes {
        let n = r_nft(&self.b, &tpos(&nft)).unwrap();
        let s = self.u[signer];
        let ix = nft_dec(s, ata(&self.u[holder], &nft), nft, p, n.lo, n.hi, liq, min, deadline, self.ps(p).oi, self.next_obs(p));
        self.tx(ix, &[s])
    }
    pub fn ncollect(&mut self, signer: usize, holder: usize, p: &PoolId, nft: K, max: [u64; 2]) -> Result<[u64; 2], TxErr> {
        let n = r_nft(&self.b, &tpos(&nft)).unwrap();
        let s = self.u[signer];
        let v = self.vaults(p);
        let ix = nft_collect(s, ata(&self.u[holder], &nft), nft, p, n.lo, n.hi, self.ta(signer, p), max, self.ps(p).oi, self.next_obs(p));
        self.tx(ix, &[s])?;
        let w = self.vaults(p);
        Ok([v[0] - w[0], v[1] - w[1]])
    }
    pub fn nft(&self, nft: &K) -> RNft { r_nft(&self.b, &tpos(nft)).unwrap() }
    pub fn posn(&self, u: usize, p: &PoolId, lo: i32, hi: i32) -> RPos { r_pos(&self.b, &p.pos(&self.u[u], lo, hi)).unwrap() }
}
