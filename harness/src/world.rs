//! One simulated chain under test: the real program's state, the reference model beside it, and the
//! judge that compares the two after every transaction.
#![allow(dead_code)]
use crate::ix::*;
use crate::model::*;
use crate::report::*;
use crate::rmath::*;
use crate::vm::*;
use std::collections::{BTreeMap, BTreeSet};

pub type Tags = &'static [&'static str];
pub enum Exp {
    /// must succeed; otherwise these properties are broken
    Ok(Tags),
    /// must fail; otherwise these properties are broken
    Fail(Tags, String),
    /// may be refused; what it does if it is not is predicted
    May,
    /// not predicted
    Any,
}
pub struct Want {
    pub exp: Exp,
    pub m2: Model,
    pub ev: Vec<Vec<u8>>,
    /// properties broken when the token amounts differ from the model's
    pub amt: Tags,
    /// properties broken (besides the field's own) when a touched pool ends in another state
    pub st: Tags,
    pub touch: Vec<usize>,
    pub own: Option<(usize, PK)>,
    pub own_nft: Option<usize>,
    pub swap: bool,
    /// non-token accounts that may change
    pub allow: BTreeSet<K>,
}

#[derive(Clone)]
pub struct World {
    pub b: Bank,
    pub m: Model,
    pub users: Vec<K>,
    pub mints: Vec<K>,
    pub target: String,
    pub all: bool,
    pub known: Vec<BTreeSet<i32>>,
    pub known_pos: Vec<BTreeSet<PK>>,
    pub nft_at: Vec<K>,
    pub log: Vec<String>,
    pub finds: Vec<(Vec<String>, String)>,
    pub stop: bool,
    pub quiet: u32,
    pub cur: String,
    /// per pool: properties that already deviated and were resynchronised
    pub other: BTreeMap<String, u64>,
    pub stats: BTreeMap<String, u64>,
    pub states: BTreeSet<u64>,
    pub last_err: Option<TxErr>,
    pub last_before: Option<Bank>,
    /// random choices of the mutants, apart from the history's own
    pub pr: Rng,
    /// how often a valid transaction is tried in variations first, per 1000
    pub probing: u32,
    pub snaps: Vec<crate::probes::Snap>,
    pub last_ix: Option<(Ix, Vec<K>)>,
    /// token accounts users use for an operation instead of their associated ones
    pub alt: BTreeMap<(usize, K), K>,
    /// instructions put before those of the next operation, in the same transaction, and what they may change
    pub prefix: (Vec<Ix>, BTreeSet<K>),
}

pub const WEALTH: u64 = 1 << 61;

pub fn tick_kind(t: i32) -> &'static str { if t < 0 { "neg" } else { "pos" } }

impl World {
    pub fn new(r: &mut Rng, target: &str, nusers: usize, nmints: usize, now: i64, first: u64) -> World {
        let users: Vec<K> = (0..nusers).map(|_| K::new(&r.bytes32())).collect();
        let mut mints: Vec<K> = (0..nmints).map(|_| K::new(&r.bytes32())).collect();
        mints.sort();
        let mut b = Bank::new();
        b.now = now;
        for (id, d) in [(PROG, 0), (tok(), 0), (ata_prog(), 0), (meta_prog(), 0), (sys_id(), 0)] {
            let _ = d;
            b.put(id, Acct { lamports: 1, data: vec![], owner: K::default(), exec: true });
        }
        let rent = solana_program::rent::Rent::default();
        b.put(rent_id(), Acct { lamports: 1, data: bincode_rent(&rent), owner: solana_program::sysvar::id(), exec: false });
        for u in &users { b.put(*u, Acct { lamports: 1 << 50, data: vec![], owner: sys_id(), exec: false }); }
        for m in &mints {
            b.put(*m, mint_acct(&users[0], WEALTH * (nusers as u64 - 1) + first, 6));
            for (i, u) in users.iter().enumerate() { b.put(ata(u, m), tk_acct(m, u, if i == 0 { first } else { WEALTH })); }
        }
        let m = Model { owner: users[0], protocol: 3, fees: BTreeMap::new(), pools: vec![], nfts: vec![], moves: BTreeMap::new() };
        World { b, m, users, mints, target: target.into(), all: false, known: vec![], known_pos: vec![], nft_at: vec![], log: vec![], finds: vec![], stop: false, quiet: 0,
            cur: String::new(), other: BTreeMap::new(), stats: BTreeMap::new(), states: BTreeSet::new(), last_err: None, last_before: None,
            pr: Rng::new(r.u()), probing: 0, snaps: vec![], last_ix: None, alt: BTreeMap::new(), prefix: Default::default() }
    }
    pub fn now(&self) -> u32 { self.b.now as u32 }
    pub fn stat(&mut self, k: &str) { *self.stats.entry(k.to_string()).or_insert(0) += 1; }
    /// how often values of each magnitude were met
    pub fn hist(&mut self, k: &str, v: u128) {
        let b = if v < 4 { format!("{}", v) } else { let e = (127 - v.leading_zeros()) / 4 * 4; format!("2^{:02}..", e.max(2)) };
        *self.stats.entry(format!("~ {} {}", k, b)).or_insert(0) += 1;
    }
    /// the states operations were met in
    fn reach(&mut self, touch: &[usize]) {
        let now = self.b.now as u32;
        for pi in touch {
            let Some(p) = self.m.pools.get(*pi) else { continue };
            let gap = now.wrapping_sub(p.obs.slots.get(p.obs.idx as usize).map(|s| s.ts).unwrap_or(now));
            let shared = self.m.nfts.iter().filter(|x| x.pool == *pi).map(|x| (x.lo, x.hi)).fold(BTreeMap::new(), |mut m: BTreeMap<_, u128>, k| { *m.entry(k).or_default() += 1; m }).values().max().cloned().unwrap_or(0);
            let v = [("seconds since the last observation", gap as u128), ("active liquidity", p.liq as u128), ("price", p.price as u128), ("observations", p.obs.card as u128),
                ("positions of the pool", p.pos.len() as u128), ("initialized ticks", p.ticks.len() as u128), ("NFTs of one range", shared), ("tick spacing", p.id.spacing as u128)];
            for (k, x) in v { self.hist(k, x); }
        }
    }
    pub fn ta(&self, u: usize, m: &K) -> K { self.alt.get(&(u, *m)).cloned().unwrap_or_else(|| ata(&self.users[u], m)) }
    /// what a user can spend from a token account: all of their own, of another's what they were approved for
    pub fn spend(&self, u: usize, k: &K) -> u64 {
        let Some(t) = self.b.get(k).and_then(tk_of) else { return 0 };
        if t.owner == self.users[u] { t.amount } else if t.delegate == Some(self.users[u]) { t.amount.min(t.delegated) } else { 0 }
    }
    /// whether the token program lets a user spend from a token account at all, were it nothing
    pub fn may(&self, u: usize, k: &K) -> bool {
        self.b.get(k).and_then(tk_of).map(|t| t.owner == self.users[u] || t.delegate == Some(self.users[u])).unwrap_or(false)
    }
    pub fn bal(&self, k: &K) -> u64 { self.b.get(k).and_then(tk_of).map(|t| t.amount).unwrap_or(0) }
    pub fn bad(&mut self, tags: &[&str], msg: String) {
        if tags.is_empty() { return; }
        let mut t: Vec<String> = tags.iter().map(|s| s.to_string()).collect();
        t.sort();
        t.dedup();
        if self.all || t.iter().any(|x| *x == self.target) {
            self.finds.push((t, format!("{} [{}]", msg, self.cur)));
            if !self.all || self.finds.len() > 200 { self.stop = true; }
        } else {
            *self.other.entry(t.join("+")).or_insert(0) += 1;
        }
    }
    pub fn want(&self) -> Want {
        let mut m2 = self.m.clone();
        m2.moves.clear();
        Want { exp: Exp::Any, m2, ev: vec![], amt: &[], st: &[], touch: vec![], own: None, own_nft: None, swap: false, allow: BTreeSet::new() }
    }

    /// Runs one transaction and judges it. Returns whether it succeeded.
    pub fn run(&mut self, name: &str, ixs: Vec<Ix>, signers: &[K], want: Want) -> bool {
        let (mut name, mut ixs, mut want) = (name.to_string(), ixs, want);
        let (first, also) = std::mem::take(&mut self.prefix);
        if !first.is_empty() {
            // whether the program can do both in one transaction is its choice, but never what it must refuse
            ixs = first.into_iter().chain(ixs).collect();
            want.allow.extend(also);
            name = format!("Bundle of a closed tick and {}", name);
            want.exp = match want.exp {
                Exp::Fail(t, why) => Exp::Fail(if t.contains(&"C24") { t } else { &["C24", "C01", "C02", "C09", "C18"] }, why),
                Exp::Any => Exp::Any,
                _ => Exp::May,
            };
        }
        let name = name.as_str();
        self.cur = name.to_string();
        self.log.push(format!("t={} {}", self.b.now, name));
        let op = name.split(' ').next().unwrap_or("").to_string();
        if let Exp::Ok(_) = want.exp {
            if ixs.len() == 1 && ixs[0].prog == PROG {
                self.last_ix = Some((ixs[0].clone(), signers.to_vec()));
                if self.probing > 0 && self.pr.n(1000) < self.probing as u64 { self.mutants(&ixs[0], signers, &want); if self.stop { return false; } }
            }
        }
        let before = self.b.clone();
        watch(want.touch.iter().filter_map(|p| want.m2.pools.get(*p)).map(|p| p.id.key).collect());
        let r = self.b.tx(&ixs, signers);
        watch(vec![]);
        if let Ok(t) = &r {
            // payment is asked for only while the pool is locked
            let mut open = vec![];
            for (callee, with, k, d) in &t.seen {
                let v = want.m2.pools.iter().find(|p| p.id.key == *k).map(|p| p.id.v).unwrap_or_default();
                let moves = *callee == tok() && with.iter().any(|x| v.contains(x));
                if !moves && !with.contains(k) { continue; }
                *self.stats.entry(format!("lock seen by {}", if moves { "token transfer" } else { "callback" })).or_insert(0) += 1;
                if g8(d, UNLOCKED_AT) == 0 { continue; }
                // the token program calls nobody back, so only a callback can take advantage of an open pool
                if moves { self.stat("pool open during a token transfer") } else { open.push("payment was asked for") }
            }
            for o in open { self.bad(&["C19"], format!("pool not locked while {}", o)); }
        }
        let Want { exp, m2, ev, amt, st, touch, own, own_nft, swap, allow } = want;
        let res = match (&r, &exp) {
            (Ok(_), Exp::Ok(_)) => "ok",
            (Ok(_), Exp::Fail(..)) => "accepted?",
            (Ok(_), Exp::May) => "ok",
            (Err(_), Exp::May) => "refused",
            (Ok(_), Exp::Any) => "ok(unpredicted)",
            (Err(_), Exp::Ok(_)) => "refused?",
            (Err(_), Exp::Fail(..)) => "refused",
            (Err(_), Exp::Any) => "refused(unpredicted)",
        };
        *self.stats.entry(format!("{} {}", op, res)).or_insert(0) += 1;
        self.last_err = r.as_ref().err().cloned();
        let ok = r.is_ok();
        match r {
            Err(e) => {
                if let Exp::Ok(t) = exp {
                    let mut t = t.to_vec();
                    t.push("C32");
                    // the operation would have moved the oracle to its next slot
                    if touch.iter().any(|p| matches!((self.m.pools.get(*p), m2.pools.get(*p)), (Some(a), Some(b)) if a.obs.idx != b.obs.idx)) { t.push("C21"); }
                    self.bad(&t, format!("valid operation refused: {:?}", e));
                }
            }
            Ok(tx) => {
                match exp {
                    Exp::Fail(t, why) => {
                        self.bad(t, format!("accepted although it must fail: {}", why));
                        self.resync_all();
                    }
                    Exp::Any => {
                        if m2.pools.len() > self.m.pools.len() { self.m.pools = m2.pools.clone(); }
                        if m2.nfts.len() > self.m.nfts.len() { self.m.nfts = m2.nfts.clone(); }
                        self.authority(&before, &ixs, signers, &tx);
                        self.resync_all();
                    }
                    Exp::Ok(_) | Exp::May => {
                        let n = self.finds.len() + self.other.values().sum::<u64>() as usize;
                        self.judge_tokens(&tx, &m2, amt);
                        self.judge_changes(&before, &tx, &m2, &touch, &allow, &ixs);
                        self.judge_events(&tx, &ev);
                        self.reach(&touch);
                        let owner_before = self.m.owner;
                        self.m = m2;
                        let _ = owner_before;
                        for pi in &touch {
                            self.judge_pool(*pi, st, swap, own.as_ref(), own_nft, &before);
                        }
                        self.judge_nfts(own_nft);
                        self.judge_factory();
                        if self.finds.len() + self.other.values().sum::<u64>() as usize != n { self.resync_all(); }
                        let (b2, ixs2) = (before.clone(), ixs.clone());
                        self.authority(&b2, &ixs2, signers, &tx);
                    }
                }
                self.invariants();
            }
        }
        self.last_before = Some(before);
        ok
    }

    fn judge_tokens(&mut self, tx: &TxOk, m2: &Model, amt: Tags) {
        let mut act: BTreeMap<K, i128> = BTreeMap::new();
        let mut odd = vec![];
        for (k, (b, a)) in &tx.changed {
            let (tb, ta) = (b.as_ref().and_then(|x| tk_of(x)), a.as_ref().and_then(|x| tk_of(x)));
            if tb.is_none() && ta.is_none() { continue; }
            let d = ta.as_ref().map(|t| t.amount).unwrap_or(0) as i128 - tb.as_ref().map(|t| t.amount).unwrap_or(0) as i128;
            if d != 0 { act.insert(*k, d); }
            if let (Some(x), Some(y)) = (&tb, &ta) {
                if x.owner != y.owner || x.mint != y.mint { odd.push(*k); }
            }
        }
        for k in odd { self.bad(&["C17"], format!("token account {} changed owner or mint", k)); }
        let mut exp: BTreeMap<K, i128> = m2.moves.clone();
        exp.retain(|_, v| *v != 0);
        if act != exp {
            let keys: BTreeSet<K> = act.keys().chain(exp.keys()).cloned().collect();
            for k in keys {
                let (a, e) = (act.get(&k).cloned().unwrap_or(0), exp.get(&k).cloned().unwrap_or(0));
                if a != e {
                    let mut t = amt.to_vec();
                    if e == 0 { t.push("C17"); }
                    if !exp.contains_key(&k) && !t.contains(&"C17") { t.push("C17"); }
                    let who = self.name_of(&k);
                    self.bad(&t, format!("token balance of {} changed by {} instead of {}", who, a, e));
                }
            }
        }
        // what leaves one account arrives at the other
        let mut by_mint: BTreeMap<K, i128> = BTreeMap::new();
        for (k, d) in &act {
            let acct = tx.changed[k].1.as_ref().or(tx.changed[k].0.as_ref()).unwrap();
            *by_mint.entry(tk_of(acct).map(|t| t.mint).unwrap_or_default()).or_insert(0) += d;
        }
        for (m, d) in by_mint {
            if d != 0 && self.mints.contains(&m) { self.bad(&["C17"], format!("tokens of mint {} created or destroyed: {}", m, d)); }
        }
    }
    pub fn name_of(&self, k: &K) -> String {
        for (i, p) in self.m.pools.iter().enumerate() {
            for j in 0..2 { if p.id.v[j] == *k { return format!("pool{}.vault{}", i, j); } }
        }
        for (i, u) in self.users.iter().enumerate() {
            for (j, m) in self.mints.iter().enumerate() { if ata(u, m) == *k { return format!("user{}.token{}", i, j); } }
        }
        k.to_string()
    }
    fn judge_changes(&mut self, before: &Bank, tx: &TxOk, m2: &Model, touch: &[usize], allow: &BTreeSet<K>, ixs: &[Ix]) {
        let mut pool_keys: BTreeSet<K> = BTreeSet::new();
        for pi in touch {
            let p = &m2.pools[*pi];
            pool_keys.insert(p.id.key);
            // every account of a touched pool is compared with the model field by field
            for t in &self.known[*pi] { pool_keys.insert(p.id.tick(*t)); }
            for w in &p.words { pool_keys.insert(p.id.word(*w)); }
            for k in &self.known_pos[*pi] { pool_keys.insert(p.id.pos(&k.0, k.1, k.2)); }
            for i in 0..p.obs.slots.len() { pool_keys.insert(p.id.obs(i as u16)); }
        }
        let _ = ixs;
        let mut bads: Vec<(Vec<&'static str>, String)> = vec![];
        for (k, (b, a)) in &tx.changed {
            if allow.contains(k) { continue; }
            let was_tok = b.as_ref().map(|x| tk_of(x).is_some()).unwrap_or(false);
            let is_tok = a.as_ref().map(|x| tk_of(x).is_some()).unwrap_or(false);
            if was_tok || is_tok {
                // amounts were judged; anything else about a token account must stay
                if let (Some(x), Some(y)) = (b, a) {
                    let by = |z: &Acct| tk_of(z).map(|t| (t.amount, t.delegated)).unwrap_or_default();
                    let (bx, by) = (by(x), by(y));
                    // what a delegate spends comes off the approval, and the last of it ends the approval
                    let spent = bx.1 > by.1 && bx.0 as i128 - by.0 as i128 <= (bx.1 - by.1) as i128;
                    let strip = |z: &Acct| { let mut z = z.clone(); for q in 64..72 { z.data[q] = 0; } if spent { for q in 121..129 { z.data[q] = 0; } if by.1 == 0 { for q in 72..108 { z.data[q] = 0; } } } z };
                    if !m2.moves.contains_key(k) || strip(x) != strip(y) { bads.push((vec!["C17"], format!("token account {} altered", k))); }
                } else { bads.push((vec!["C17"], format!("token account {} created or closed", k))); }
                continue;
            }
            let prog = b.as_ref().or(a.as_ref()).map(|x| x.owner) == Some(PROG) || a.as_ref().map(|x| x.owner) == Some(PROG);
            if prog {
                if pool_keys.contains(k) {
                    // lamports of existing program accounts do not move
                    if let (Some(x), Some(y)) = (b, a) {
                        if x.lamports != y.lamports { bads.push((vec!["C17"], format!("lamports of program account {} changed", k))); }
                    } else if b.is_none() || a.is_none() { bads.push((vec!["C24", "C17"], format!("program account {} created or removed", k))); }
                } else {
                    let mine = self.m.pools.iter().any(|p| p.id.key == *k);
                    bads.push((if mine { vec!["C30", "C18", "C17"] } else { vec!["C30", "C12", "C18", "C17"] }, format!("account {} unrelated to the operation changed", k)));
                }
            } else {
                bads.push((vec!["C17"], format!("account {} (owner {:?}) changed", k, before.get(k).map(|x| x.owner))));
            }
        }
        for (t, m) in bads { self.bad(&t, m); }
    }
    fn judge_events(&mut self, tx: &TxOk, ev: &[Vec<u8>]) {
        let (mut a, mut e) = (tx.events.clone(), ev.to_vec());
        a.sort();
        e.sort();
        if a != e {
            let d: Vec<String> = tx.events.iter().map(|x| hex(x)).collect();
            let w: Vec<String> = ev.iter().map(|x| hex(x)).collect();
            self.bad(&["C25"], format!("events [{}] instead of [{}]", d.join(" "), w.join(" ")));
        }
    }
    /// compares every account of one pool with the model
    pub fn judge_pool(&mut self, pi: usize, st: Tags, swap: bool, own: Option<&(usize, PK)>, own_nft: Option<usize>, before: &Bank) {
        let p = self.m.pools[pi].clone();
        let id = &p.id;
        let mut v: Vec<(Vec<&'static str>, String)> = vec![];
        let mut push = |t: &[&'static str], m: String| { let mut x = t.to_vec(); x.extend_from_slice(st); v.push((x, format!("pool{}: {}", pi, m))); };
        let Some(rp) = r_pool(&self.b, &id.key) else { self.bad(&["C23", "C32"], format!("pool{} account lost", pi)); return };
        macro_rules! eq { ($t:expr, $what:expr, $a:expr, $e:expr) => { let (a_, e_) = ($a, $e); if a_ != e_ { push($t, format!("{} is {:?}, should be {:?}", $what, a_, e_)); } } }
        eq!(if swap { &["C03"] } else { &["C30"] }, "price", rp.price, p.price);
        eq!(if swap { &["C03"] } else { &["C30"] }, "tick", rp.tick, p.tick);
        eq!(&["C09"], "active liquidity", rp.liq, p.liq);
        // more than it should be threatens the vaults, less the owners
        let over = |a: Amts, e: Amts, wrap: bool| (0..2).any(|i| if wrap { let d = a[i].wrapping_sub(e[i]); d != 0 && d < 1 << 63 } else { a[i] > e[i] });
        let under = |a: Amts, e: Amts, wrap: bool| over(e, a, wrap);
        eq!(if swap { if over(rp.fg, p.fg, true) { &["C10", "C01"] } else { &["C10"] } } else { &["C10", "C30"] }, "fee growth", rp.fg, p.fg);
        eq!(if swap { if over(rp.prot, p.prot, false) { &["C11", "C01"] } else { &["C11"] } } else { &["C11", "C30"] }, "protocol fees", rp.prot, p.prot);
        eq!(&["C19", "C32"], "unlocked flag", rp.unlocked, 1u8);
        eq!(&["C23"], "tokens", rp.t, id.t);
        eq!(&["C23"], "fee", rp.fee, id.fee);
        eq!(&["C23"], "spacing", rp.spacing, id.spacing);
        eq!(&["C21"], "observation index", rp.oi, p.obs.idx);
        eq!(&["C21"], "initialized observation count", rp.oc, p.obs.card);
        eq!(&["C21"], "created observation count", rp.on, p.obs.slots.len() as u16);
        let (now, mut wrapped) = (self.now(), 0u64);
        for (i, s) in p.obs.slots.iter().enumerate() {
            if p.obs.slots.len() > 64 && !(i < 4 || i as u16 == p.obs.idx || i + 2 > p.obs.slots.len()) { continue; }
            let k = id.obs(i as u16);
            match r_obs(&self.b, &k) {
                None => push(&["C21"], format!("observation slot {} lost", i)),
                Some(o) => {
                    eq!(&["C21"], format!("slot {} index", i), o.idx, i as u16);
                    eq!(&["C21"], format!("slot {} initialized", i), o.init != 0, s.init);
                    if s.init && o.init != 0 {
                        let latest = i as u16 == p.obs.idx;
                        let untouched = r_obs(before, &k).map(|x| x == o).unwrap_or(false);
                        if latest && !untouched && now < 1 << 20 && r_pool(before, &id.key).and_then(|b| r_obs(before, &id.obs(b.oi))).map(|x| x.ts > 3 << 30).unwrap_or(false) { wrapped += 1; }
                        eq!(if latest && untouched { &["C20", "C21"] } else { &["C20", "C21"] }, format!("slot {} time", i), o.ts, s.ts);
                        if o.ts == s.ts {
                            eq!(if latest { &["C20"] } else { &["C20", "C21"] }, format!("slot {} tick-seconds", i), o.tc, s.tc);
                            eq!(if latest { &["C20"] } else { &["C20", "C21"] }, format!("slot {} seconds per liquidity", i), o.spl, s.spl);
                        }
                    }
                }
            }
        }
        let mut fresh: BTreeMap<bool, u64> = BTreeMap::new();
        let mut words: BTreeMap<i16, [u64; 4]> = p.words.iter().map(|w| (*w, [0u64; 4])).collect();
        for t in &self.known[pi] {
            let raw = r_tick(&self.b, &id.tick(*t));
            match (raw, p.tick_accts.contains(t)) {
                (None, false) => {}
                (None, true) => push(&["C24", "C09", "C32"], format!("tick account {} missing", t)),
                (Some(_), false) => push(&["C24"], format!("tick account {} exists", t)),
                (Some(rt), true) => {
                    let e = p.ticks.get(t).cloned().unwrap_or_default();
                    eq!(&["C24"], format!("tick {} key", t), rt.tick, *t);
                    eq!(&["C09"], format!("tick {} gross", t), rt.gross, e.gross);
                    eq!(&["C09"], format!("tick {} net", t), rt.net, e.net);
                    if e.gross > 0 && r_tick(before, &id.tick(*t)).map(|b| b.gross == 0).unwrap_or(false) {
                        // a tick coming into use counts the past as below it
                        *fresh.entry(*t <= p.tick).or_insert(0u64) += 1;
                        let x = p.at(now);
                        let want = if *t <= p.tick { (p.fg, x.int_tc, x.int_spl, now) } else { ([0, 0], 0, 0, 0) };
                        eq!(&["C22"], format!("history (fees, tick-seconds, seconds per liquidity, seconds) below new tick {}", t), (rt.fo, rt.tc, rt.spl, rt.sec), want);
                    }
                    if e.gross == 0 && (rt.fo != [0, 0] || rt.tc != 0 || rt.spl != 0 || rt.sec != 0) {
                        push(&["C24"], format!("unused tick {} keeps data, so its account cannot be closed", t));
                    }
                }
            }
            if p.ticks.contains_key(t) {
                let c = t.div_euclid(id.spacing as i32);
                let b = c.rem_euclid(256) as usize;
                if let Some(w) = words.get_mut(&id.word_of(*t)) { w[b / 64] |= 1 << (b % 64); }
            }
        }
        for (w, e) in &words {
            match r_word(&self.b, &id.word(*w)) {
                None => push(&["C24", "C09"], format!("bitmap word {} missing", w)),
                Some((wp, bits)) => {
                    eq!(&["C24"], format!("word {} key", w), wp, *w);
                    eq!(&["C09"], format!("word {} bits", w), bits, *e);
                }
            }
        }
        for (k, e) in &p.pos {
            let nftpos = k.0 == factory();
            let is_own = own.map(|(i, x)| *i == pi && x == k).unwrap_or(false);
            match r_pos(&self.b, &id.pos(&k.0, k.1, k.2)) {
                None => push(&["C16", "C02"], format!("position {:?} lost", (k.1, k.2))),
                Some(r) => {
                    let lt: &[&'static str] = if nftpos { &["C12", "C09"] } else if is_own { &["C16", "C02", "C09"] } else { &["C16", "C30", "C09"] };
                    eq!(lt, format!("liquidity of position {}..{} of {}", k.1, k.2, short(&k.0)), r.liq, e.liq);
                    let mut ot: Vec<&'static str> = if is_own { if nftpos { vec!["C10", "C12"] } else { vec!["C10", "C02"] } } else if nftpos { vec!["C30", "C12"] } else { vec!["C30", "C16"] };
                    if over(r.owed, e.owed, false) { ot.extend(["C01", "C31"]); }
                    if under(r.owed, e.owed, false) { ot.push("C02"); }
                    eq!(&ot, format!("credited tokens of position {}..{} of {}", k.1, k.2, short(&k.0)), r.owed, e.owed);
                    if e.liq > 0 && r.liq == e.liq {
                        let d = raw_delta(&self.b, id, &rp, k.1, k.2, &r);
                        let ed = [e.acc[0].wrapping_sub(e.last[0]), e.acc[1].wrapping_sub(e.last[1])];
                        eq!(match (swap || is_own, over(d, ed, true)) { (true, false) => &["C10", "C02"], (true, true) => &["C10", "C01"], (false, false) => &["C10", "C30", "C02"], (false, true) => &["C10", "C30", "C01"] }, format!("uncredited fee growth of position {}..{} of {}", k.1, k.2, short(&k.0)), d, ed);
                    }
                }
            }
        }
        let _ = own_nft;
        if wrapped > 0 { *self.stats.entry("observations right after the 32-bit clock wrapped".to_string()).or_insert(0) += wrapped; }
        for (below, n) in fresh { *self.stats.entry(format!("tick first used {}", if below { "at or below the price" } else { "above the price" })).or_insert(0) += n; }
        for (t, m) in v { self.bad(&t, m); if self.stop { return; } }
    }
    pub fn judge_nfts(&mut self, own: Option<usize>) {
        for i in 0..self.m.nfts.len() {
            let x = self.m.nfts[i].clone();
            let Some(r) = r_nft(&self.b, &tpos(&x.mint)) else { self.bad(&["C14", "C12"], format!("record of NFT {} lost", i)); continue };
            let mine = own == Some(i);
            let id = self.m.pools[x.pool].id.clone();
            if r.mint != x.mint || r.pool != id.key || r.lo != x.lo || r.hi != x.hi { self.bad(&["C14"], format!("record of NFT {} altered: {:?}", i, r)); }
            let t: Tags = if mine { &["C12"] } else { &["C12", "C30"] };
            if r.liq != x.liq { let mut t = t.to_vec(); t.push(if r.liq > x.liq { "C01" } else { "C02" }); self.bad(&t, format!("NFT {} liquidity is {}, should be {}", i, r.liq, x.liq)); }
            if r.owed != x.owed {
                let mut t = if mine { vec!["C12", "C10"] } else { vec!["C12", "C30"] };
                if (0..2).any(|j| r.owed[j] > x.owed[j]) { t.push("C01"); }
                if (0..2).any(|j| r.owed[j] < x.owed[j]) { t.push("C02"); }
                self.bad(&t, format!("NFT {} credited tokens are {:?}, should be {:?}", i, r.owed, x.owed));
            }
            if x.liq > 0 && r.liq == x.liq {
                if let (Some(rp), Some(core)) = (r_pool(&self.b, &id.key), self.m.pools[x.pool].pos.get(&(factory(), x.lo, x.hi))) {
                    if let Some(ins) = raw_inside(&self.b, &id, &rp, x.lo, x.hi) {
                        let d = [ins[0].wrapping_sub(r.last[0]), ins[1].wrapping_sub(r.last[1])];
                        let e = [core.acc[0].wrapping_sub(x.last[0]), core.acc[1].wrapping_sub(x.last[1])];
                        if d != e { self.bad(if mine { &["C12", "C10"] } else { &["C12", "C10", "C30"] }, format!("NFT {} uncredited fee growth is {:?}, should be {:?}", i, d, e)); }
                    }
                }
            }
        }
    }
    pub fn judge_factory(&mut self) {
        match r_factory(&self.b) {
            None => self.bad(&["C15"], "factory account lost".into()),
            Some((o, f)) => {
                if o != self.m.owner { self.bad(&["C15"], format!("protocol owner is {} instead of {}", o, self.m.owner)); }
                if f != self.m.protocol { self.bad(&["C15", "C23"], format!("protocol fee denominator is {} instead of {}", f, self.m.protocol)); }
                if !(2..=10).contains(&f) { self.bad(&["C23"], format!("protocol fee denominator {} out of range", f)); }
            }
        }
        let fees: Vec<(u32, u16)> = self.m.fees.iter().map(|(a, b)| (*a, *b)).collect();
        for (f, s) in fees {
            if r_fee(&self.b, f) != Some((f, s)) { self.bad(&["C23"], format!("fee tier {} is {:?}, should have spacing {}", f, r_fee(&self.b, f), s)); }
        }
    }

    /// What each vault must be able to pay right now, from the raw accounts alone.
    pub fn owed(&self, pi: usize) -> Option<[W; 2]> {
        let id = &self.m.pools[pi].id;
        let rp = r_pool(&self.b, &id.key)?;
        let mut o = [w(rp.prot[0]), w(rp.prot[1])];
        for k in &self.known_pos[pi] {
            let Some(r) = r_pos(&self.b, &id.pos(&k.0, k.1, k.2)) else { continue };
            let d = raw_delta(&self.b, id, &rp, k.1, k.2, &r);
            for i in 0..2 { o[i] = o[i] + w(r.owed[i]) + (w(d[i]) * w(r.liq) >> 32); }
            if r.liq > 0 && rp.price >= MIN_P {
                let (a, b2) = (price_at(k.1), price_at(k.2));
                if rp.tick < k.1 { o[0] = o[0] + amt0_w(a, b2, r.liq, false); }
                else if rp.tick < k.2 { o[0] = o[0] + amt0_w(rp.price, b2, r.liq, false); o[1] = o[1] + amt1_w(a, rp.price, r.liq, false); }
                else { o[1] = o[1] + amt1_w(a, b2, r.liq, false); }
            }
        }
        Some(o)
    }
    /// structural monitors over the raw state, independent of the model
    pub fn invariants(&mut self) {
        for pi in 0..self.m.pools.len() {
            let id = self.m.pools[pi].id.clone();
            let Some(rp) = r_pool(&self.b, &id.key) else { continue };
            if let Some(o) = self.owed(pi) {
                for i in 0..2 {
                    let have = w(self.bal(&id.v[i]));
                    if have < o[i] { self.bad(&["C01"], format!("pool{} vault{} holds {} but owes {}", pi, i, have, o[i])); }
                }
            }
            if rp.unlocked != 1 { self.bad(&["C19", "C32"], format!("pool{} left locked", pi)); }
            // active liquidity = sum over positions in range; tick totals
            let mut act: u128 = 0;
            let mut gross: BTreeMap<i32, (u128, i128)> = BTreeMap::new();
            for k in &self.known_pos[pi] {
                if let Some(r) = r_pos(&self.b, &id.pos(&k.0, k.1, k.2)) {
                    if r.liq == 0 { continue; }
                    if k.1 <= rp.tick && rp.tick < k.2 { act += r.liq as u128; }
                    let e = gross.entry(k.1).or_default(); e.0 += r.liq as u128; e.1 += r.liq as i128;
                    let e = gross.entry(k.2).or_default(); e.0 += r.liq as u128; e.1 -= r.liq as i128;
                }
            }
            if act != rp.liq as u128 { self.bad(&["C09"], format!("pool{} active liquidity {} but positions in range hold {}", pi, rp.liq, act)); }
            if rp.price < MIN_P || rp.price >= MAX_P { self.bad(&["C04", "C09", "C23"], format!("pool{} price {} outside the range", pi, rp.price)); continue; }
            let t = tick_at(rp.price);
            if !(rp.tick == t || (rp.tick == t - 1 && price_at(t) == rp.price)) { self.bad(&["C09"], format!("pool{} tick {} does not match price {}", pi, rp.tick, rp.price)); }
            for t in self.known[pi].clone() {
                if let Some(r) = r_tick(&self.b, &id.tick(t)) {
                    let e = gross.get(&t).cloned().unwrap_or((0, 0));
                    if r.gross as u128 != e.0 || r.net as i128 != e.1 { self.bad(&["C09"], format!("pool{} tick {} records gross {} net {} but positions give {:?}", pi, t, r.gross, r.net, e)); }
                    if let Some((_, bits)) = r_word(&self.b, &id.word(id.word_of(t))) {
                        let c = t.div_euclid(id.spacing as i32).rem_euclid(256) as usize;
                        if (bits[c / 64] >> (c % 64) & 1 == 1) != (e.0 > 0) { self.bad(&["C09"], format!("pool{} bitmap bit of tick {} is wrong", pi, t)); }
                    }
                }
            }
            // the NFTs of a range never claim more liquidity than their shared position has
            let mut per: BTreeMap<(i32, i32), u128> = BTreeMap::new();
            for x in self.m.nfts.iter().filter(|x| x.pool == pi) {
                if let Some(r) = r_nft(&self.b, &tpos(&x.mint)) { *per.entry((r.lo, r.hi)).or_default() += r.liq as u128; }
            }
            for ((lo, hi), s) in per {
                let core = r_pos(&self.b, &id.pos(&factory(), lo, hi)).map(|r| r.liq).unwrap_or(0);
                if s > core as u128 { self.bad(&["C12"], format!("NFTs on pool{} {}..{} hold {} but their shared position has {}", pi, lo, hi, s, core)); }
            }
            // the latest observation carried to now equals the life-time integrals
            if let Some(o) = r_obs(&self.b, &id.obs(rp.oi)) {
                let p = &self.m.pools[pi];
                let now = self.b.now as u32;
                let dt = now.wrapping_sub(o.ts) as i64;
                let tc = o.tc.wrapping_add(rp.tick as i64 * dt);
                let etc = p.int_tc.wrapping_add(p.tick as i64 * (now.wrapping_sub(p.int_ts) as i64));
                let spl = o.spl.wrapping_add(((dt as u64) << 32) / rp.liq.max(1));
                let espl = p.int_spl.wrapping_add(((now.wrapping_sub(p.int_ts) as u64) << 32) / p.liq.max(1));
                if p.tick == rp.tick && p.liq == rp.liq && (tc != etc || spl != espl) {
                    self.bad(&["C20"], format!("pool{} oracle carried to now gives ({}, {}), true integrals ({}, {})", pi, tc, spl, etc, espl));
                }
                if o.init == 0 || o.idx != rp.oi { self.bad(&["C21"], format!("pool{} points to observation {} which is {:?}", pi, rp.oi, o)); }
            } else { self.bad(&["C21"], format!("pool{} points to missing observation {}", pi, rp.oi)); }
            if rp.oc == 0 || rp.oc > rp.on { self.bad(&["C21"], format!("pool{} observation counts {}/{}", pi, rp.oc, rp.on)); }
            let h = h64(&format!("{}|{}|{}|{}|{:?}|{}", self.cur.split(' ').next().unwrap_or(""), rp.tick, rp.liq, rp.price, rp.fg, rp.oi));
            if self.states.len() < 2_000_000 { self.states.insert(h); }
        }
        // every position NFT has exactly one token in existence
        for i in 0..self.m.nfts.len() {
            let x = self.m.nfts[i].clone();
            match self.b.get(&x.mint).and_then(mint_of) {
                Some((1, auth, 0, freeze)) => {
                    if freeze.is_some() { self.bad(&["C14", "C13"], format!("NFT {} can be frozen by {:?}", i, freeze)); }
                    let e = if x.meta { None } else { Some(factory()) };
                    if auth != e { self.bad(&["C14"], format!("mint authority of NFT {} is {:?}", i, auth)); }
                }
                o => self.bad(&["C14"], format!("mint of NFT {} is {:?}", i, o)),
            }
            if self.bal(&self.nft_at[i]) != 1 { self.bad(&["C14", "C17"], format!("NFT {} is not where it was", i)); }
        }
    }
    /// Token authority monitor: nothing leaves an account without its owner or delegate signing,
    /// except pool vaults, which pay only in instructions that may pay.
    pub fn authority(&mut self, before: &Bank, ixs: &[Ix], signers: &[K], tx: &TxOk) {
        let vaults: BTreeSet<K> = self.m.pools.iter().flat_map(|p| p.id.v).collect();
        let pays: Vec<[u8; 8]> = ["swap", "collect", "collect_protocol", "collect_from_tokenized", "exact_input_single", "exact_input"].iter().map(|n| disc(&format!("global:{}", n))).collect();
        let paying = ixs.iter().any(|i| i.prog == PROG && i.data.len() >= 8 && pays.iter().any(|p| p[..] == i.data[..8]));
        let mut bads = vec![];
        for (k, (b, a)) in &tx.changed {
            if let Some(tb) = b.as_ref().and_then(|x| tk_of(x)) {
                let na = a.as_ref().and_then(|x| tk_of(x)).map(|t| t.amount).unwrap_or(0);
                if na < tb.amount {
                    if vaults.contains(k) {
                        if !paying { bads.push(format!("vault {} debited by an instruction that may not pay", k)); }
                    } else if !signers.contains(&tb.owner) && !tb.delegate.map(|d| signers.contains(&d)).unwrap_or(false) {
                        bads.push(format!("token account {} debited without its owner's signature", k));
                    }
                }
            } else if let (Some(x), y) = (b, a) {
                if x.owner == sys_id() {
                    let nl = y.as_ref().map(|z| z.lamports).unwrap_or(0);
                    if nl < x.lamports && !signers.contains(k) { bads.push(format!("lamports of {} taken without signature", k)); }
                }
            }
        }
        let _ = before;
        for m in bads { self.bad(&["C17", "C33"], m); }
    }
    pub fn resync_all(&mut self) {
        self.stat("resync");
        if let Some((o, f)) = r_factory(&self.b) { self.m.owner = o; self.m.protocol = f; }
        for pi in 0..self.m.pools.len() {
            let (a, b) = (self.known[pi].clone(), self.known_pos[pi].clone());
            self.m.pools[pi].resync(&self.b, &a, &b);
        }
        for i in 0..self.m.nfts.len() {
            let x = self.m.nfts[i].clone();
            let id = self.m.pools[x.pool].id.clone();
            if let (Some(r), Some(rp)) = (r_nft(&self.b, &tpos(&x.mint)), r_pool(&self.b, &id.key)) {
                let acc = self.m.pools[x.pool].pos.get(&(factory(), x.lo, x.hi)).map(|p| p.acc).unwrap_or_default();
                let n = &mut self.m.nfts[i];
                n.liq = r.liq;
                n.owed = r.owed;
                if let Some(ins) = raw_inside(&self.b, &id, &rp, x.lo, x.hi) {
                    for j in 0..2 { n.last[j] = acc[j].wrapping_sub(ins[j].wrapping_sub(r.last[j])); }
                }
            }
            if let Some((_, a, _, _)) = self.b.get(&x.mint).and_then(mint_of) { self.m.nfts[i].meta = a.is_none(); }
        }
    }
    /// tests something on a copy of the world; findings come back, state does not
    pub fn fork<T>(&mut self, f: impl FnOnce(&mut World) -> T) -> T {
        let mut c = self.clone();
        c.quiet += 1;
        let r = f(&mut c);
        self.finds = c.finds;
        self.stop = c.stop;
        self.other = c.other;
        self.stats = c.stats;
        self.states = c.states;
        if self.stop { self.log = c.log; }
        r
    }
}
pub fn hex(b: &[u8]) -> String { b.iter().map(|x| format!("{:02x}", x)).collect() }
pub fn short(k: &K) -> String { k.to_string()[..6].to_string() }
fn bincode_rent(r: &solana_program::rent::Rent) -> Vec<u8> {
    let mut d = vec![];
    d.extend(r.lamports_per_byte_year.to_le_bytes());
    d.extend(r.exemption_threshold.to_le_bytes());
    d.push(r.burn_percent);
    d
}
