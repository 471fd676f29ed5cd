//! Every operation of the program, each with its prediction from the reference model.
#![allow(dead_code)]
use crate::ix::*;
use crate::model::*;
use crate::rmath::*;
use crate::vm::*;
use crate::world::*;

pub const MAX_STEPS: usize = 40;
pub const DEAD: i64 = i64::MAX;
const FEE_FREE: &str = "";

fn fail(t: Tags, w: impl Into<String>) -> Exp { Exp::Fail(t, w.into()) }
const NONE: Tags = &[];

/// a swap out of range: to be refused where the tokens it would move cannot be expressed
fn too_much(e: &SwapErr, tags: Tags) -> Exp { if e.inexpressible() { fail(tags, "amounts beyond what can be expressed") } else { Exp::Any } }
/// a deposit out of range
fn unfit(x: &'static str) -> Exp {
    match x {
        "amount 0" | "amount 1" => fail(&["C01", "C06", "C19"], "amounts beyond what can be expressed"),
        "gross" => fail(&["C09", "C24", "C02", "C32"], "more liquidity at a tick than lets everyone leave in any order"),
        "position liquidity" | "net" | "active liquidity" => fail(&["C09", "C24"], format!("{} beyond what can be expressed", x)),
        _ => Exp::Any,
    }
}
impl World {
    pub fn tas(&self, u: usize, pi: usize) -> [K; 2] {
        let t = self.m.pools[pi].id.t;
        [self.ta(u, &t[0]), self.ta(u, &t[1])]
    }
    pub fn last(&self, pi: usize) -> u16 { self.m.pools[pi].obs.idx }
    pub fn id(&self, pi: usize) -> PoolId { self.m.pools[pi].id.clone() }
    fn kp(&mut self, pi: usize, k: PK) { self.known_pos[pi].insert(k); }

    // ------------------------------------------------------------ account lifecycle
    pub fn do_init_tick(&mut self, u: usize, pi: usize, t: i32) -> bool {
        let id = self.id(pi);
        let mut w = self.want();
        let p = &mut w.m2.pools[pi];
        let why = if !(MIN_TICK..=MAX_TICK).contains(&t) { Some("tick out of range") } else if t % id.spacing as i32 != 0 { Some("tick not a multiple of the spacing") }
            else if p.tick_accts.contains(&t) { Some("tick account exists") } else { None };
        w.exp = match why { Some(x) => fail(&["C24", "C09"], x), None => { p.tick_accts.insert(t); Exp::Ok(&["C24"]) } };
        w.touch = vec![pi];
        let user = self.users[u];
        w.allow.extend([user, id.tick(t)]);
        if why.is_none() { self.known[pi].insert(t); }
        let fresh = why.is_none();
        let ok = self.run(&format!("InitTick pool{} {}", pi, t), vec![init_tick(user, &id, t)], &[user], w);
        if ok && fresh {
            let clean = r_tick(&self.b, &id.tick(t));
            if clean.map(|c| RTick { tick: 0, ..c } != RTick::default() || c.tick != t).unwrap_or(true) { self.bad(&["C24"], format!("new tick account {} does not start empty with its key", t)); }
            self.rent_ok(&id.tick(t));
        }
        ok
    }
    fn rent_ok(&mut self, k: &K) {
        let a = self.b.get(k).map(|a| (a.lamports, a.data.len()));
        if let Some((l, n)) = a { if l < rent_min(n) { self.bad(&["C24"], format!("new account {} is not rent exempt", k)); } }
    }
    pub fn do_close_tick(&mut self, pi: usize, t: i32, to: K) -> bool {
        let id = self.id(pi);
        let mut w = self.want();
        let p = &mut w.m2.pools[pi];
        let used = p.ticks.contains_key(&t);
        w.exp = if !p.tick_accts.contains(&t) { fail(&["C24"], "no such tick account") } else if used { fail(&["C24", "C02", "C09", "C01"], "tick account in use") }
            else { p.tick_accts.remove(&t); Exp::Ok(&["C24"]) };
        w.touch = vec![pi];
        w.allow.extend([to, id.tick(t)]);
        let rent = self.b.get(&id.tick(t)).map(|a| a.lamports).unwrap_or(0);
        let had = self.b.get(&to).map(|a| a.lamports).unwrap_or(0);
        let ok = self.run(&format!("CloseTick pool{} {}", pi, t), vec![close_tick(&id, t, to)], &[], w);
        if ok {
            let has = self.b.get(&to).map(|a| a.lamports).unwrap_or(0);
            if has != had + rent { self.bad(&["C24", "C17"], format!("closing tick {} paid {} of {} lamports", t, has as i128 - had as i128, rent)); }
        }
        ok
    }
    /// closes a tick and, in the same transaction, gives its address lamports, so that the account outlives its closing
    pub fn do_revive(&mut self, u: usize, pi: usize, t: i32, lamps: u64) -> bool {
        let id = self.id(pi);
        let user = self.users[u];
        let mut w = self.want();
        let p = &mut w.m2.pools[pi];
        w.exp = if !p.tick_accts.contains(&t) { fail(&["C24"], "no such tick account") } else if p.ticks.contains_key(&t) { fail(&["C24", "C02", "C09", "C01"], "tick account in use") }
            else { p.tick_accts.remove(&t); Exp::May };
        w.touch = vec![pi];
        w.allow.extend([user, id.tick(t)]);
        self.run(&format!("Revive pool{} {} with {} lamports", pi, t, lamps), vec![close_tick(&id, t, user), lamports(user, id.tick(t), lamps)], &[user], w)
    }
    /// the next operation comes after this unused tick was closed in its transaction
    fn after_closing(&mut self, u: usize, pi: usize, t: i32, again: bool) {
        let id = self.id(pi);
        let user = self.users[u];
        let k = id.tick(t);
        let mut v = vec![close_tick(&id, t, user)];
        let rent = self.b.get(&k).map(|a| a.lamports).unwrap_or(0);
        if self.pr.p(1, 2) { v.push(lamports(user, k, rent)); }
        if again { v.push(init_tick(user, &id, t)); }
        else { self.m.pools[pi].tick_accts.remove(&t); }
        self.prefix = (v, [k, user].into_iter().collect());
    }
    /// on copies: one transaction that closes an unused tick and then uses it
    pub fn do_bundles(&mut self, u: usize, pi: usize, t: i32, lo: i32, hi: i32, l: u64) {
        let user = self.users[u];
        if !self.stop { self.fork(|w| { w.after_closing(u, pi, t, false); w.do_init_tick(u, pi, t) }); }
        for again in [false, true] {
            if !self.stop { self.fork(|w| { w.after_closing(u, pi, t, again); w.do_mint(u, user, pi, lo, hi, l) }); }
            let d = [l >> 1, l >> 1];
            if !self.stop && lo < hi { self.fork(|w| {
                w.after_closing(u, pi, t, again);
                let nft = K::new(&w.pr.bytes32());
                w.do_nft_mint(u, user, nft, pi, lo, hi, d, [0, 0], i64::MAX)
            }); }
        }
    }
    pub fn do_init_word(&mut self, u: usize, pi: usize, x: i16) -> bool {
        let id = self.id(pi);
        let sp = id.spacing as i32;
        let (lo, hi) = ((MIN_TICK / sp) >> 8, (MAX_TICK / sp) >> 8);
        let mut w = self.want();
        let p = &mut w.m2.pools[pi];
        let why = if !(lo..=hi).contains(&(x as i32)) { Some("word out of range") } else if p.words.contains(&x) { Some("bitmap account exists") } else { None };
        w.exp = match why { Some(x) => fail(&["C24", "C09"], x), None => { p.words.insert(x); Exp::Ok(&["C24"]) } };
        w.touch = vec![pi];
        let user = self.users[u];
        w.allow.extend([user, id.word(x)]);
        let fresh = why.is_none();
        let ok = self.run(&format!("InitWord pool{} {}", pi, x), vec![init_word(user, &id, x)], &[user], w);
        if ok && fresh {
            if r_word(&self.b, &id.word(x)) != Some((x, [0; 4])) { self.bad(&["C24"], format!("new bitmap account {} does not start empty with its key", x)); }
            self.rent_ok(&id.word(x));
        }
        ok
    }
    pub fn do_init_pos(&mut self, u: usize, owner: K, pi: usize, lo: i32, hi: i32) -> bool {
        let id = self.id(pi);
        let mut w = self.want();
        let p = &mut w.m2.pools[pi];
        let key = (owner, lo, hi);
        let why = if lo >= hi { Some("lower tick not below upper") } else if p.pos.contains_key(&key) { Some("position account exists") }
            else if !p.tick_accts.contains(&lo) || !p.tick_accts.contains(&hi) { Some("tick account missing") } else { None };
        w.exp = match why { Some(x) => fail(&["C24", "C16"], x), None => { p.pos.insert(key, PosM::default()); Exp::Ok(&["C24"]) } };
        w.touch = vec![pi];
        let user = self.users[u];
        w.allow.extend([user, id.pos(&owner, lo, hi)]);
        if why.is_none() { self.kp(pi, key); }
        let fresh = why.is_none();
        let ok = self.run(&format!("InitPos pool{} {}..{}", pi, lo, hi), vec![init_pos(user, owner, &id, lo, hi)], &[user], w);
        if ok && fresh {
            if r_pos(&self.b, &id.pos(&owner, lo, hi)) != Some(RPos::default()) { self.bad(&["C24", "C16"], "new position account is not empty".into()); }
            self.rent_ok(&id.pos(&owner, lo, hi));
        }
        ok
    }
    /// everything a deposit into this range needs
    pub fn prepare(&mut self, u: usize, owner: K, pi: usize, lo: i32, hi: i32) {
        for t in [lo, hi] {
            if !self.m.pools[pi].tick_accts.contains(&t) && !self.stop { self.do_init_tick(u, pi, t); }
            let x = self.m.pools[pi].id.word_of(t);
            if !self.m.pools[pi].words.contains(&x) && !self.stop { self.do_init_word(u, pi, x); }
        }
        if !self.m.pools[pi].pos.contains_key(&(owner, lo, hi)) && !self.stop { self.do_init_pos(u, owner, pi, lo, hi); }
    }

    // ------------------------------------------------------------ direct positions
    pub fn do_mint(&mut self, u: usize, owner: K, pi: usize, lo: i32, hi: i32, amt: u64) -> bool {
        let now = self.now();
        let id = self.id(pi);
        let tas = self.tas(u, pi);
        let key = (owner, lo, hi);
        let mut w = self.want();
        let rest = w.m2.pools[pi].liq_rest(now);
        w.amt = &["C01", "C17", "C31", "C06"];
        w.touch = vec![pi];
        w.own = Some((pi, key));
        let user = self.users[u];
        w.exp = match w.m2.pools[pi].liquidity(&key, true, amt, now) {
            Ok(a) => {
                if a[0] > self.spend(u, &tas[0]) || a[1] > self.spend(u, &tas[1]) { fail(&["C01", "C19", "C17"], "more than the depositor has") }
                else {
                    w.m2.mv(tas[0], id.v[0], a[0]);
                    w.m2.mv(tas[1], id.v[1], a[1]);
                    w.ev.push(D::ev("MintEvent").k(&id.key).k(&user).k(&owner).i32(lo).i32(hi).u64(amt).u64(a[0]).u64(a[1]).0);
                    Exp::Ok(NONE)
                }
            }
            Err(E::Fail("zero deposit")) => Exp::Any,
            Err(E::Fail(x)) => fail(&["C09", "C18"], x),
            Err(E::Range(x)) => unfit(x),
        };
        self.run(&format!("Mint pool{} user{} for {} {}..{} {}", pi, u, short(&owner), lo, hi, amt), vec![mint(user, tas, owner, &id, lo, hi, amt, self.last(pi), PROG, rest)], &[user], w)
    }
    pub fn do_burn(&mut self, u: usize, pi: usize, lo: i32, hi: i32, amt: u64) -> bool {
        let now = self.now();
        let id = self.id(pi);
        let user = self.users[u];
        let key = (user, lo, hi);
        let mut w = self.want();
        let rest = w.m2.pools[pi].liq_rest(now);
        w.touch = vec![pi];
        w.own = Some((pi, key));
        w.amt = &["C17", "C02"];
        w.exp = match w.m2.pools[pi].liquidity(&key, false, amt, now) {
            Ok(a) => {
                let p = w.m2.pools[pi].pos.get_mut(&key).unwrap();
                for i in 0..2 { p.owed[i] = p.owed[i].wrapping_add(a[i]); }
                w.ev.push(D::ev("BurnEvent").k(&id.key).k(&user).i32(lo).i32(hi).u64(amt).u64(a[0]).u64(a[1]).0);
                Exp::Ok(&["C02"])
            }
            Err(E::Fail("more than the position holds")) => fail(&["C01", "C02", "C09", "C16"], "burns more than the position holds"),
            Err(E::Fail("poke without liquidity")) => Exp::Any,
            Err(E::Fail(x)) => fail(&["C16", "C18"], x),
            Err(E::Range(_)) => Exp::Any,
        };
        self.run(&format!("Burn pool{} user{} {}..{} {}", pi, u, lo, hi, amt), vec![burn(user, &id, lo, hi, amt, self.last(pi), rest)], &[user], w)
    }
    pub fn do_collect(&mut self, u: usize, pi: usize, lo: i32, hi: i32, to: [K; 2], req: [u64; 2]) -> bool {
        let id = self.id(pi);
        let user = self.users[u];
        let key = (user, lo, hi);
        let mut w = self.want();
        w.touch = vec![pi];
        w.own = Some((pi, key));
        w.amt = &["C02", "C16", "C17", "C01"];
        let ticks = self.m.pools[pi].tick_accts.contains(&lo) && self.m.pools[pi].tick_accts.contains(&hi);
        w.exp = match w.m2.pools[pi].pos.get_mut(&key) {
            None => fail(&["C16", "C18"], "no such position"),
            Some(_) if !ticks => fail(NONE, "tick account closed"),
            Some(p) => {
                let a = [req[0].min(p.owed[0]), req[1].min(p.owed[1])];
                for i in 0..2 { p.owed[i] -= a[i]; }
                for i in 0..2 { w.m2.mv(id.v[i], to[i], a[i]); }
                w.ev.push(D::ev("CollectEvent").k(&id.key).k(&user).i32(lo).i32(hi).u64(a[0]).u64(a[1]).0);
                Exp::Ok(&["C02", "C01"])
            }
        };
        self.run(&format!("Collect pool{} user{} {}..{} {:?}", pi, u, lo, hi, req), vec![collect(user, &id, lo, hi, to, req)], &[user], w)
    }

    // ------------------------------------------------------------ swaps
    pub fn do_swap(&mut self, u: usize, pi: usize, zfo: bool, amt: i64, limit: u64) -> bool {
        let now = self.now();
        let id = self.id(pi);
        let user = self.users[u];
        let tas = self.tas(u, pi);
        let (i, o) = if zfo { (0, 1) } else { (1, 0) };
        let mut w = self.want();
        w.touch = vec![pi];
        w.swap = true;
        w.amt = &["C01", "C03", "C04", "C17", "C31", "C19"];
        w.st = &["C04", "C03"];
        let mut rest = vec![];
        w.exp = match self.m.pools[pi].predict_swap(self.m.protocol, zfo, amt, limit, MAX_STEPS) {
            Err(SwapErr::TooLong) => { self.stat("swap skipped: too long"); return false; }
            Err(SwapErr::Zero) => { rest = self.open_rest(pi, zfo, amt); fail(&["C04"], "zero amount") }
            Err(SwapErr::Limit) => { rest = self.open_rest(pi, zfo, amt); fail(&["C04"], "price limit on the wrong side") }
            Err(e @ SwapErr::Range(x)) => {
                self.stat(&format!("swap out of range: {}", x));
                rest = self.m.pools[pi].walk_rest(zfo, limit, 20);
                too_much(&e, &["C01", "C03", "C04"])
            }
            Ok(r) => {
                rest = self.m.pools[pi].swap_rest(&r, now);
                self.swap_stats(&r, zfo, amt, pi);
                if r.total_in > self.spend(u, &tas[i]) { fail(&["C19", "C17", "C01"], "more than the trader has") }
                else {
                    w.m2.pools[pi].apply_swap(&r, zfo, now);
                    w.m2.mv(tas[i], id.v[i], r.total_in);
                    w.m2.mv(id.v[o], tas[o], r.total_out);
                    w.ev.push(swap_ev(&id, &user, tas, zfo, &r));
                    if self.may(u, &tas[i]) && !r.beyond { Exp::Ok(&["C03", "C04"]) } else { Exp::May }
                }
            }
        };
        let ok = self.run(&format!("Swap pool{} user{} zfo={} amt={} limit={}", pi, u, zfo, amt, limit), vec![ix_swap(user, tas[i], tas[o], &id, zfo, amt, limit, self.last(pi), PROG, rest)], &[user], w);
        if ok { self.guard_swap(pi, zfo, amt, limit, tas[i], tas[o]); }
        ok
    }
    /// the accounts a swap that must be refused would need if it were not
    fn open_rest(&self, pi: usize, zfo: bool, amt: i64) -> Vec<Meta> {
        let p = &self.m.pools[pi];
        let end = if zfo { MIN_P + 1 } else { MAX_P - 1 };
        match p.predict_swap(self.m.protocol, zfo, if amt == 0 { 1 } else { amt }, end, MAX_STEPS) {
            Ok(r) => p.swap_rest(&r, self.now()),
            Err(_) => p.walk_rest(zfo, end, 20),
        }
    }
    /// what every successful swap must satisfy, from balances and the pool account alone
    pub fn guard_swap(&mut self, pi: usize, zfo: bool, amt: i64, limit: u64, tin: K, tout: K) {
        let Some(b0) = self.last_before.clone() else { return };
        let id = self.id(pi);
        let bal = |b: &Bank, k: &K| b.get(k).and_then(tk_of).map(|t| t.amount).unwrap_or(0) as i128;
        let (din, dout) = (bal(&b0, &tin) - bal(&self.b, &tin), bal(&self.b, &tout) - bal(&b0, &tout));
        let (Some(p0), Some(p1)) = (r_pool(&b0, &id.key), r_pool(&self.b, &id.key)) else { return };
        if din < 0 || dout < 0 { self.bad(&["C04", "C17", "C01"], format!("swap moved tokens the wrong way: in {} out {}", din, dout)); }
        if amt > 0 && din > amt as i128 { self.bad(&["C04", "C05"], format!("swap took {} of at most {}", din, amt)); }
        if amt < 0 && dout > -(amt as i128) { self.bad(&["C04"], format!("swap paid {} of at most {}", dout, -(amt as i128))); }
        let done = if amt > 0 { din == amt as i128 } else { dout == -(amt as i128) };
        if !done && p1.price != limit { self.bad(&["C04"], format!("swap stopped early at {} before limit {}", p1.price, limit)); }
        if zfo && (p1.price > p0.price || p1.price < limit) || !zfo && (p1.price < p0.price || p1.price > limit) {
            self.bad(&["C04"], format!("price moved from {} to {} with limit {}", p0.price, p1.price, limit));
        }
    }
    fn swap_stats(&mut self, r: &SwapR, zfo: bool, amt: i64, _pi: usize) {
        self.stat(match r.crossed.len() { 0 => "swaps crossing 0 ticks", 1 => "swaps crossing 1 tick", 2..=3 => "swaps crossing 2-3 ticks", _ => "swaps crossing 4+ ticks" });
        if r.crossed.len() >= 12 { self.stat("swaps crossing 12+ ticks"); }
        if r.steps.iter().any(|s| s.liq == 0) { self.stat("swaps through a liquidity gap"); }
        if r.crossed.last().map(|t| price_at(*t) == r.price).unwrap_or(false) { self.stat("swaps ending exactly on an initialized tick"); }
        self.stat(match (zfo, amt > 0) { (true, true) => "swaps 0->1 exact in", (true, false) => "swaps 0->1 exact out", (false, true) => "swaps 1->0 exact in", _ => "swaps 1->0 exact out" });
        if r.steps.iter().any(|s| s.tick < 0) { self.stat("swaps at negative ticks"); }
        self.hist("swap amount", amt.unsigned_abs() as u128);
        self.hist("swap total in", r.total_in as u128);
        self.hist("swap protocol share", r.prot as u128);
        self.hist("swap fee growth", r.growth as u128);
        self.hist("swap steps", r.steps.len() as u128);
    }
    pub fn do_router_single(&mut self, u: usize, pi: usize, zfo: bool, deadline: i64, amt: u64, min: u64, limit: u64) -> bool {
        let now = self.now();
        let id = self.id(pi);
        let user = self.users[u];
        let tas = self.tas(u, pi);
        let (i, o) = if zfo { (0, 1) } else { (1, 0) };
        let mut w = self.want();
        w.touch = vec![pi];
        w.swap = true;
        w.amt = &["C05", "C03", "C04", "C17", "C01"];
        w.st = &["C03", "C04"];
        let mut rest = vec![];
        let lim = if limit == 0 { if zfo { MIN_P + 1 } else { MAX_P - 1 } } else { limit };
        if amt > i64::MAX as u64 { rest = self.open_rest(pi, zfo, amt as i64); w.exp = fail(&["C05", "C04"], "amount above i64"); }
        else {
            w.exp = match self.m.pools[pi].predict_swap(self.m.protocol, zfo, amt as i64, lim, MAX_STEPS) {
                Err(SwapErr::TooLong) => { self.stat("swap skipped: too long"); return false; }
                Err(SwapErr::Zero) => { rest = self.open_rest(pi, zfo, amt as i64); fail(&["C04", "C05"], "zero amount") }
                Err(SwapErr::Limit) => { rest = self.open_rest(pi, zfo, amt as i64); fail(&["C04"], "price limit on the wrong side") }
                Err(e @ SwapErr::Range(_)) => { rest = self.m.pools[pi].walk_rest(zfo, lim, 20); too_much(&e, &["C01", "C03", "C05"]) }
                Ok(r) => {
                    rest = self.m.pools[pi].swap_rest(&r, now);
                    if r.total_in > self.spend(u, &tas[i]) { fail(&["C19", "C17", "C01"], "more than the trader has") }
                    else if r.total_out < min { fail(&["C05"], format!("output {} below the minimum {}", r.total_out, min)) }
                    else {
                        w.m2.pools[pi].apply_swap(&r, zfo, now);
                        w.m2.mv(tas[i], id.v[i], r.total_in);
                        w.m2.mv(id.v[o], tas[o], r.total_out);
                        w.ev.push(swap_ev(&id, &user, tas, zfo, &r));
                        if self.may(u, &tas[i]) && !r.beyond { Exp::Ok(&["C05", "C04", "C03", "C07"]) } else { Exp::May }
                    }
                }
            };
        }
        if self.b.now > deadline { w.exp = fail(&["C07"], "past the deadline"); }
        let ok = self.run(&format!("RouterSingle pool{} user{} zfo={} amt={} min={} limit={} deadline={}", pi, u, zfo, amt, min, limit, deadline),
            vec![router_single(user, tas[i], tas[o], &id, zfo, deadline, amt, min, limit, self.last(pi), rest)], &[user], w);
        if ok {
            self.guard_swap(pi, zfo, amt.min(i64::MAX as u64) as i64, lim, tas[i], tas[o]);
            self.guard_min(&tas[i], &tas[o], amt, min);
        }
        ok
    }
    fn guard_min(&mut self, tin: &K, tout: &K, amt: u64, min: u64) {
        let Some(b0) = self.last_before.clone() else { return };
        let bal = |b: &Bank, k: &K| b.get(k).and_then(tk_of).map(|t| t.amount).unwrap_or(0) as i128;
        if tin != tout {
            let got = bal(&self.b, tout) - bal(&b0, tout);
            if got < min as i128 { self.bad(&["C05"], format!("received {} but asked for at least {}", got, min)); }
            let paid = bal(&b0, tin) - bal(&self.b, tin);
            if paid > amt as i128 { self.bad(&["C05", "C04"], format!("paid {} of at most {}", paid, amt)); }
        }
    }
    /// the predicted outputs of a path, hop by hop, without running it
    pub fn predict_path(&self, path: &[(usize, bool)], amt: u64) -> Option<Vec<u64>> {
        let mut m2 = self.m.clone();
        let mut x = amt;
        let mut out = vec![];
        for (pi, zfo) in path {
            if x > i64::MAX as u64 { return None; }
            let lim = if *zfo { MIN_P + 1 } else { MAX_P - 1 };
            let r = m2.pools[*pi].predict_swap(m2.protocol, *zfo, x as i64, lim, MAX_STEPS).ok()?;
            m2.pools[*pi].apply_swap(&r, *zfo, self.now());
            x = r.total_out;
            out.push(x);
        }
        Some(out)
    }
    pub fn do_router_multi(&mut self, u: usize, path: &[(usize, bool)], deadline: i64, amt: u64, min: u64) -> bool {
        let now = self.now();
        let user = self.users[u];
        let mut w = self.want();
        w.swap = true;
        w.amt = &["C08", "C05", "C17", "C01", "C03"];
        w.st = &["C08", "C03"];
        let mut hops = vec![];
        let mut x = amt;
        let mut exp: Option<Exp> = None;
        let mut may = false;
        for (pi, zfo) in path {
            let id = self.id(*pi);
            let tas = self.tas(u, *pi);
            let (i, o) = if *zfo { (0, 1) } else { (1, 0) };
            w.touch.push(*pi);
            let last = w.m2.pools[*pi].obs.idx;
            let lim = if *zfo { MIN_P + 1 } else { MAX_P - 1 };
            if x > i64::MAX as u64 {
                let rest = self.open_rest(*pi, *zfo, x as i64);
                hops.push(Hop { p: id, zfo: *zfo, out: tas[o], last, rest });
                exp = Some(fail(&["C05", "C04", "C08"], "amount above i64"));
                break;
            }
            match w.m2.pools[*pi].predict_swap(self.m.protocol, *zfo, x as i64, lim, MAX_STEPS) {
                Err(SwapErr::TooLong) => { self.stat("swap skipped: too long"); return false; }
                Err(SwapErr::Zero) => { exp = Some(fail(&["C04", "C08"], "zero amount into a hop")); hops.push(Hop { p: id, zfo: *zfo, out: tas[o], last, rest: vec![] }); break; }
                Err(SwapErr::Limit) => { exp = Some(fail(&["C04"], "pool at the end of its range")); hops.push(Hop { p: id, zfo: *zfo, out: tas[o], last, rest: vec![] }); break; }
                Err(e @ SwapErr::Range(_)) => { self.stat("path out of range"); hops.push(Hop { p: id, zfo: *zfo, out: tas[o], last, rest: w.m2.pools[*pi].walk_rest(*zfo, lim, 20) }); exp = Some(too_much(&e, &["C01", "C03", "C05", "C08"])); break; }
                Ok(r) => {
                    let rest = w.m2.pools[*pi].swap_rest(&r, now);
                    let have = self.spend(u, &tas[i]) as i128 + w.m2.moves.get(&tas[i]).cloned().unwrap_or(0);
                    if r.total_in as i128 > have { exp = Some(fail(&["C19", "C17", "C01"], "more than the trader has")); }
                    else if !self.may(u, &tas[i]) || r.beyond { may = true; }
                    w.m2.pools[*pi].apply_swap(&r, *zfo, now);
                    w.m2.mv(tas[i], id.v[i], r.total_in);
                    w.m2.mv(id.v[o], tas[o], r.total_out);
                    w.ev.push(swap_ev(&id, &user, tas, *zfo, &r));
                    if r.total_in < x { self.stat("hops that spent less than they were given"); }
                    x = r.total_out;
                    hops.push(Hop { p: id, zfo: *zfo, out: tas[o], last, rest });
                    if exp.is_some() { break; }
                }
            }
        }
        w.touch.sort();
        w.touch.dedup();
        w.exp = match exp {
            Some(e) => e,
            None if x < min => fail(&["C05"], format!("output {} below the minimum {}", x, min)),
            None if may => Exp::May,
            None => Exp::Ok(&["C08", "C05", "C07"]),
        };
        if self.b.now > deadline { w.exp = fail(&["C07"], "past the deadline"); }
        let (p0, pn) = (path[0], path[path.len() - 1]);
        let tin = self.tas(u, p0.0)[if p0.1 { 0 } else { 1 }];
        let tout = self.tas(u, pn.0)[if pn.1 { 1 } else { 0 }];
        let ok = self.run(&format!("RouterPath user{} {:?} amt={} min={} deadline={}", u, path, amt, min, deadline), vec![router_multi(user, tin, &hops, deadline, amt, min)], &[user], w);
        if ok { self.guard_min(&tin, &tout, amt, min); self.stat(&format!("paths of {} hops", path.len())); }
        ok
    }

    /// a path without pools: nothing is received, whatever was asked for
    pub fn do_router_nowhere(&mut self, u: usize, pi: usize, deadline: i64, amt: u64, min: u64) -> bool {
        let user = self.users[u];
        let tas = self.tas(u, pi);
        let mut w = self.want();
        w.amt = &["C05", "C17"];
        w.exp = if self.b.now > deadline { fail(&["C07"], "past the deadline") } else if min > 0 { fail(&["C05"], "a path without pools pays nothing") } else { Exp::May };
        self.run(&format!("RouterPath user{} [] amt={} min={} deadline={}", u, amt, min, deadline), vec![router_multi(user, tas[0], &[], deadline, amt, min)], &[user], w)
    }

    // ------------------------------------------------------------ NFT positions
    pub fn do_nft_mint(&mut self, u: usize, to: K, nft: K, pi: usize, lo: i32, hi: i32, d: [u64; 2], min: [u64; 2], deadline: i64) -> bool {
        let now = self.now();
        let id = self.id(pi);
        let user = self.users[u];
        let tas = self.tas(u, pi);
        let key = (factory(), lo, hi);
        let mut w = self.want();
        let rest = w.m2.pools[pi].liq_rest(now);
        w.touch = vec![pi];
        w.own = Some((pi, key));
        w.amt = &["C06", "C17", "C01", "C14", "C31"];
        let (price, pa, pb) = (self.m.pools[pi].price, price_at(lo), price_at(hi));
        let n = self.m.nfts.len();
        w.own_nft = Some(n);
        let taken = self.m.nfts.iter().any(|x| x.mint == nft) || self.b.a.contains_key(&nft) && self.b.get(&nft).map(|a| a.data.len()).unwrap_or(0) > 0;
        let mut adds = false;
        if taken { w.exp = fail(&["C14"], "mint already used"); }
        else {
            w.exp = match liq_for(price, pa, pb, d[0], d[1]) {
                None => fail(&["C06", "C09"], "more liquidity than there can be"),
                Some(0) => Exp::Any,
                Some(l) => match w.m2.pools[pi].liquidity(&key, true, l, now) {
                    Ok(a) => {
                        if a[0] > self.spend(u, &tas[0]) || a[1] > self.spend(u, &tas[1]) { fail(&["C01", "C19", "C17"], "more than the depositor has") }
                        else if a[0] < min[0] || a[1] < min[1] { fail(&["C06"], format!("amounts {:?} below the minimum {:?}", a, min)) }
                        else if a[0] > d[0] || a[1] > d[1] { fail(&["C06"], "takes more than offered") }
                        else {
                            w.m2.mv(tas[0], id.v[0], a[0]);
                            w.m2.mv(tas[1], id.v[1], a[1]);
                            *w.m2.moves.entry(ata(&to, &nft)).or_insert(0) += 1;
                            w.ev.push(D::ev("MintEvent").k(&id.key).k(&user).k(&factory()).i32(lo).i32(hi).u64(l).u64(a[0]).u64(a[1]).0);
                            w.ev.push(D::ev("IncreaseLiquidityEvent").k(&nft).u64(l).u64(a[0]).u64(a[1]).0);
                            let acc = w.m2.pools[pi].pos[&key].acc;
                            w.m2.nfts.push(NftM { mint: nft, pool: pi, lo, hi, liq: l, last: acc, owed: [0; 2], meta: false });
                            adds = true;
                            Exp::Ok(&["C06", "C14"])
                        }
                    }
                    Err(E::Fail(x)) => fail(&["C09", "C18"], x),
                    Err(E::Range(x)) => unfit(x),
                },
            };
        }
        if self.b.now > deadline { w.exp = fail(&["C07"], "past the deadline"); adds = false; }
        if matches!(w.exp, Exp::Any) {
            w.m2.nfts.push(NftM { mint: nft, pool: pi, lo, hi, liq: 0, last: [0; 2], owed: [0; 2], meta: false });
            adds = true;
        }
        if adds { self.nft_at.push(ata(&to, &nft)); }
        w.allow.extend([user, nft, ata(&to, &nft), tpos(&nft)]);
        let ok = self.run(&format!("NftMint pool{} user{} {}..{} desired={:?} min={:?} deadline={}", pi, u, lo, hi, d, min, deadline),
            vec![nft_mint(user, to, nft, &id, lo, hi, tas, [d[0], d[1], min[0], min[1]], deadline, self.last(pi), rest)], &[user, nft], w);
        if !ok && adds { self.nft_at.pop(); }
        if ok {
            self.guard_desired(tas, d, min);
            for k in [nft, ata(&to, &nft), tpos(&nft)] { self.rent_ok(&k); }
            let good = self.b.get(&ata(&to, &nft)).and_then(tk_of).map(|t| t.owner == to && t.mint == nft && t.amount == 1).unwrap_or(false);
            if !good { self.bad(&["C14"], "the recipient does not hold the new NFT".into()); }
            match self.b.get(&nft).and_then(mint_of) { Some((1, _, 0, None)) => {} o => self.bad(&["C14"], format!("new NFT mint is {:?}", o)) }
        }
        ok
    }
    fn guard_desired(&mut self, tas: [K; 2], d: [u64; 2], min: [u64; 2]) {
        let Some(b0) = self.last_before.clone() else { return };
        let bal = |b: &Bank, k: &K| b.get(k).and_then(tk_of).map(|t| t.amount).unwrap_or(0) as i128;
        for i in 0..2 {
            let paid = bal(&b0, &tas[i]) - bal(&self.b, &tas[i]);
            if paid > d[i] as i128 { self.bad(&["C06"], format!("took {} of token {} although at most {} was offered", paid, i, d[i])); }
            if paid < min[i] as i128 { self.bad(&["C06"], format!("used {} of token {} although at least {} was required", paid, i, min[i])); }
        }
    }
    pub fn do_nft_inc(&mut self, u: usize, n: usize, d: [u64; 2], min: [u64; 2], deadline: i64) -> bool {
        let now = self.now();
        let x = self.m.nfts[n].clone();
        let id = self.id(x.pool);
        let user = self.users[u];
        let tas = self.tas(u, x.pool);
        let key = (factory(), x.lo, x.hi);
        let mut w = self.want();
        let rest = w.m2.pools[x.pool].liq_rest(now);
        w.touch = vec![x.pool];
        w.own = Some((x.pool, key));
        w.own_nft = Some(n);
        w.allow.insert(tpos(&x.mint));
        w.amt = &["C06", "C17", "C01", "C31"];
        let price = self.m.pools[x.pool].price;
        w.exp = match (liq_for(price, price_at(x.lo), price_at(x.hi), d[0], d[1]), self.m.nft_settle(n)) {
            (None, _) => fail(&["C06", "C09"], "more liquidity than there can be"),
            (Some(0), _) | (_, None) => Exp::Any,
            (Some(l), Some(fees)) => match w.m2.pools[x.pool].liquidity(&key, true, l, now) {
                Ok(a) => {
                    if a[0] > self.spend(u, &tas[0]) || a[1] > self.spend(u, &tas[1]) { fail(&["C01", "C19", "C17"], "more than the depositor has") }
                    else if a[0] < min[0] || a[1] < min[1] { fail(&["C06"], format!("amounts {:?} below the minimum {:?}", a, min)) }
                    else if a[0] > d[0] || a[1] > d[1] { fail(&["C06"], "takes more than offered") }
                    else {
                        w.m2.mv(tas[0], id.v[0], a[0]);
                        w.m2.mv(tas[1], id.v[1], a[1]);
                        w.ev.push(D::ev("MintEvent").k(&id.key).k(&user).k(&factory()).i32(x.lo).i32(x.hi).u64(l).u64(a[0]).u64(a[1]).0);
                        w.ev.push(D::ev("IncreaseLiquidityEvent").k(&x.mint).u64(l).u64(a[0]).u64(a[1]).0);
                        let acc = w.m2.pools[x.pool].pos[&key].acc;
                        let t = &mut w.m2.nfts[n];
                        for i in 0..2 { t.owed[i] = t.owed[i].wrapping_add(fees[i]); }
                        t.last = acc;
                        t.liq += l;
                        Exp::Ok(&["C06", "C12"])
                    }
                }
                Err(E::Fail(y)) => fail(&["C09", "C18"], y),
                Err(E::Range(y)) => unfit(y),
            },
        };
        if self.b.now > deadline { w.exp = fail(&["C07"], "past the deadline"); }
        let ok = self.run(&format!("NftInc nft{} user{} desired={:?} min={:?} deadline={}", n, u, d, min, deadline),
            vec![nft_inc(user, x.mint, &id, x.lo, x.hi, tas, [d[0], d[1], min[0], min[1]], deadline, self.last(x.pool), rest)], &[user], w);
        if ok { self.guard_desired(tas, d, min); }
        ok
    }
    /// may `signer` act for NFT `n` presenting token account `acct`?
    pub fn nft_auth(&self, n: usize, acct: &K, signer: &K) -> bool {
        match self.b.get(acct).and_then(tk_of) {
            Some(t) => t.mint == self.m.nfts[n].mint && t.amount == 1 && (t.owner == *signer || t.delegate == Some(*signer) && t.delegated > 0),
            None => false,
        }
    }
    pub fn holder(&self, n: usize) -> Option<usize> {
        let t = self.b.get(&self.nft_at[n]).and_then(tk_of)?;
        self.users.iter().position(|u| *u == t.owner)
    }
    pub fn do_nft_dec(&mut self, signer: K, acct: K, n: usize, liq: u64, min: [u64; 2], deadline: i64) -> bool {
        let now = self.now();
        let x = self.m.nfts[n].clone();
        let id = self.id(x.pool);
        let key = (factory(), x.lo, x.hi);
        let mut w = self.want();
        let rest = w.m2.pools[x.pool].liq_rest(now);
        w.touch = vec![x.pool];
        w.own = Some((x.pool, key));
        w.own_nft = Some(n);
        w.allow.insert(tpos(&x.mint));
        w.amt = &["C06", "C12", "C17"];
        w.exp = if liq > x.liq { fail(&["C12", "C01", "C16"], "more than the NFT position holds") }
            else if liq == 0 { Exp::Any }
            else { match self.m.nft_settle(n) {
                None => Exp::Any,
                Some(fees) => match w.m2.pools[x.pool].liquidity(&key, false, liq, now) {
                    Ok(a) => {
                        if a[0] < min[0] || a[1] < min[1] { fail(&["C06"], format!("amounts {:?} below the minimum {:?}", a, min)) }
                        else {
                            let p = w.m2.pools[x.pool].pos.get_mut(&key).unwrap();
                            for i in 0..2 { p.owed[i] = p.owed[i].wrapping_add(a[i]); }
                            let acc = p.acc;
                            w.ev.push(D::ev("BurnEvent").k(&id.key).k(&factory()).i32(x.lo).i32(x.hi).u64(liq).u64(a[0]).u64(a[1]).0);
                            w.ev.push(D::ev("DecreaseLiquidityEvent").k(&x.mint).u64(liq).u64(a[0]).u64(a[1]).0);
                            let t = &mut w.m2.nfts[n];
                            for i in 0..2 { t.owed[i] = t.owed[i].wrapping_add(fees[i]).wrapping_add(a[i]); }
                            t.last = acc;
                            t.liq -= liq;
                            Exp::Ok(&["C06", "C12", "C13", "C02", "C07"])
                        }
                    }
                    Err(E::Fail(y)) => fail(&["C12", "C18"], y),
                    Err(E::Range(_)) => Exp::Any,
                },
            } };
        if !self.nft_auth(n, &acct, &signer) { w.exp = fail(&["C13"], "signer is neither holder nor delegate"); }
        if self.b.now > deadline { w.exp = fail(&["C07"], "past the deadline"); }
        self.run(&format!("NftDec nft{} by {} liq={} min={:?} deadline={}", n, short(&signer), liq, min, deadline),
            vec![nft_dec(signer, acct, x.mint, &id, x.lo, x.hi, liq, min, deadline, self.last(x.pool), rest)], &[signer], w)
    }
    pub fn do_nft_collect(&mut self, signer: K, acct: K, n: usize, to: [K; 2], max: [u64; 2]) -> bool {
        let now = self.now();
        let x = self.m.nfts[n].clone();
        let id = self.id(x.pool);
        let key = (factory(), x.lo, x.hi);
        let mut w = self.want();
        w.touch = vec![x.pool];
        w.own = Some((x.pool, key));
        w.own_nft = Some(n);
        w.allow.insert(tpos(&x.mint));
        w.amt = &["C12", "C17", "C02", "C01", "C10"];
        let ticks = self.m.pools[x.pool].tick_accts.contains(&x.lo) && self.m.pools[x.pool].tick_accts.contains(&x.hi);
        w.exp = if max == [0, 0] { Exp::Any } else if !ticks { fail(NONE, "tick account closed") } else {
            match self.m.nft_settle(n) {
                None => Exp::Any,
                Some(fees) => {
                    let mut r = Ok([0, 0]);
                    if x.liq > 0 {
                        r = w.m2.pools[x.pool].liquidity(&key, false, 0, now);
                        w.ev.push(D::ev("BurnEvent").k(&id.key).k(&factory()).i32(x.lo).i32(x.hi).u64(0).u64(0).u64(0).0);
                    }
                    match r {
                        Err(_) => { w.ev.clear(); Exp::Any }
                        Ok(_) => {
                            let p = w.m2.pools[x.pool].pos.get_mut(&key).unwrap();
                            let t = &mut w.m2.nfts[n];
                            let (mut a, mut pay) = ([0; 2], [0; 2]);
                            for i in 0..2 {
                                let owed = t.owed[i].wrapping_add(fees[i]);
                                a[i] = max[i].min(owed);
                                pay[i] = a[i].min(p.owed[i]);
                                t.owed[i] = owed - a[i];
                                p.owed[i] -= pay[i];
                            }
                            if x.liq > 0 { t.last = p.acc; }
                            for i in 0..2 { w.m2.mv(id.v[i], to[i], pay[i]); }
                            w.ev.push(D::ev("CollectEvent").k(&id.key).k(&factory()).i32(x.lo).i32(x.hi).u64(pay[0]).u64(pay[1]).0);
                            w.ev.push(D::ev("CollectTokenizedEvent").k(&x.mint).k(&to[0]).k(&to[1]).u64(a[0]).u64(a[1]).0);
                            Exp::Ok(&["C12", "C13", "C02", "C01"])
                        }
                    }
                }
            }
        };
        if !self.nft_auth(n, &acct, &signer) { w.exp = fail(&["C13"], "signer is neither holder nor delegate"); w.ev.clear(); }
        self.run(&format!("NftCollect nft{} by {} max={:?}", n, short(&signer), max),
            vec![nft_collect(signer, acct, x.mint, &id, x.lo, x.hi, to, max, self.last(x.pool), vec![])], &[signer], w)
    }
    pub fn ensure_ata(&mut self, u: usize, mint: &K) -> K {
        let k = self.ta(u, mint);
        if self.b.get(&k).and_then(tk_of).is_none() { self.b.put(k, tk_acct(mint, &self.users[u], 0)); }
        k
    }
    pub fn do_nft_transfer(&mut self, n: usize, to: usize) -> bool {
        let Some(h) = self.holder(n) else { return false };
        let mint = self.m.nfts[n].mint;
        // sometimes to a token account other than the associated one
        let dst = if self.pr.n(4) == 0 {
            let k = K::new(&self.pr.bytes32());
            self.b.put(k, tk_acct(&mint, &self.users[to], 0));
            k
        } else { self.ensure_ata(to, &mint) };
        let src = self.nft_at[n];
        if src == dst { return false; }
        let mut w = self.want();
        w.m2.mv(src, dst, 1);
        // the token program takes a holder that approved itself for a delegate, and its approval may be for nothing
        let own = self.b.get(&src).and_then(tk_of).map(|t| t.delegate == Some(self.users[h])).unwrap_or(false);
        w.exp = if own { Exp::May } else { Exp::Ok(NONE) };
        w.allow.extend([src, dst]);
        // a transfer by the owner leaves approvals on the old account, which then holds nothing
        self.nft_at[n] = dst;
        let user = self.users[h];
        let ok = self.run(&format!("NftTransfer nft{} user{}->user{}", n, h, to), vec![tk_transfer(src, dst, user, 1)], &[user], w);
        if !ok { self.nft_at[n] = src; }
        ok
    }
    pub fn do_nft_approve(&mut self, n: usize, to: Option<usize>, amt: u64) -> bool {
        let Some(h) = self.holder(n) else { return false };
        let acct = self.nft_at[n];
        let user = self.users[h];
        let mut w = self.want();
        w.exp = Exp::Ok(NONE);
        w.allow.insert(acct);
        let ix = match to { Some(u) => tk_approve(acct, self.users[u], user, amt), None => tk_revoke(acct, user) };
        self.run(&format!("NftApprove nft{} {:?} for {}", n, to, amt), vec![ix], &[user], w)
    }
    /// the right to close the token account that holds an NFT is no right to the position
    pub fn do_nft_closer(&mut self, n: usize, to: Option<usize>) -> bool {
        let Some(h) = self.holder(n) else { return false };
        let acct = self.nft_at[n];
        let user = self.users[h];
        let mut w = self.want();
        // the holder gives the right away once: afterwards it is the closer's to pass on
        if self.b.get(&acct).map(|a| a.data[129] == 1).unwrap_or(true) { return false; }
        w.exp = Exp::Ok(NONE);
        w.allow.insert(acct);
        self.run(&format!("NftCloser nft{} {:?}", n, to), vec![tk_closer(acct, to.map(|u| self.users[u]), user)], &[user], w)
    }
    pub fn do_tk_approve(&mut self, owner: usize, acct: K, to: K, amt: u64) -> bool {
        let user = self.users[owner];
        let mut w = self.want();
        w.exp = Exp::Ok(NONE);
        w.allow.insert(acct);
        self.run(&format!("Approve {} of {} for {}", amt, short(&acct), short(&to)), vec![tk_approve(acct, to, user, amt)], &[user], w)
    }
    pub fn do_nft_meta(&mut self, u: usize, n: usize) -> bool {
        let x = self.m.nfts[n].clone();
        let user = self.users[u];
        let mut w = self.want();
        w.exp = if x.meta { fail(&["C14"], "metadata exists") } else { w.m2.nfts[n].meta = true; Exp::Ok(&["C14"]) };
        w.allow.extend([user, x.mint, metadata(&x.mint)]);
        let ok = self.run(&format!("NftMeta nft{} user{}", n, u), vec![nft_meta(user, x.mint)], &[user], w);
        if ok {
            let m = self.b.get(&metadata(&x.mint)).filter(|a| a.owner == meta_prog()).and_then(|a| meta_of(&a.data));
            let why = match m {
                None => Some("is not there"),
                Some(m) => if m.mint != x.mint { Some("names another mint") } else if !m.uri.contains(&x.mint.to_string()) { Some("links to another mint") }
                    else if m.auth != factory() { Some("can be changed by another authority than the factory's") } else if m.mutable { Some("stays changeable") }
                    else if m.fee != 0 { Some("charges a fee on sales") }
                    else if m.creators != [(factory(), true, 100)] { Some("credits another creator") } else { None },
            };
            if let Some(x) = why { self.bad(&["C14"], format!("the NFT's metadata {}", x)); }
        }
        ok
    }

    // ------------------------------------------------------------ oracle, administration, pools
    pub fn do_inc_obs(&mut self, u: usize, pi: usize, from: u16, n: u16) -> bool {
        let id = self.id(pi);
        let user = self.users[u];
        let mut w = self.want();
        w.touch = vec![pi];
        let len = self.m.pools[pi].obs.slots.len() as u16;
        if from != len && n > 0 { w.exp = fail(&["C21", "C18"], "slots created out of order"); }
        else {
            for _ in 0..n { w.m2.pools[pi].obs.slots.push(Slot { init: false, ts: 1, tc: 0, spl: 0 }); }
            w.ev.push(D::ev("IncreaseObservationCardinalityNext").u16(len).u16(len + n).0);
            w.exp = if n > 0 { Exp::Ok(&["C21"]) } else { Exp::May };
            for i in 0..n { w.allow.insert(id.obs(len + i)); }
        }
        w.allow.insert(user);
        let ok = self.run(&format!("IncObs pool{} from={} n={}", pi, from, n), vec![inc_obs(user, &id, from, n)], &[user], w);
        if ok { for i in 0..n { let k = id.obs(from + i); self.rent_ok(&k); } }
        ok
    }
    /// every slot has one address: a slot elsewhere would be found by nobody who looks for it there
    pub fn do_inc_obs_odd(&mut self, u: usize, pi: usize, n: u16, odd: u16) -> bool {
        let id = self.id(pi);
        let user = self.users[u];
        let from = self.m.pools[pi].obs.slots.len() as u16;
        let Some(ix) = inc_obs_odd(user, &id, from, n, from + odd) else { return false };
        let mut w = self.want();
        w.touch = vec![pi];
        w.exp = fail(&["C21", "C32", "C18"], "a slot at another address than its own");
        self.run(&format!("IncObs pool{} from={} n={} slot {} elsewhere", pi, from, n, from + odd), vec![ix], &[user], w)
    }
    pub fn do_set_fee_protocol(&mut self, signer: K, x: u8) -> bool {
        let mut w = self.want();
        let old = self.m.protocol;
        w.exp = if signer != self.m.owner { fail(&["C15"], "not the protocol owner") } else if !(2..=10).contains(&x) { fail(&["C23", "C11", "C15"], "denominator out of range") }
            else { w.m2.protocol = x; w.ev.push(D::ev("SetFeeProtocolEvent").u8(old).u8(x).0); Exp::Ok(&["C15", "C11"]) };
        w.allow.insert(factory());
        self.run(&format!("SetFeeProtocol {} by {}", x, short(&signer)), vec![set_fee_protocol(signer, x)], &[signer], w)
    }
    pub fn do_set_owner(&mut self, signer: K, new: K) -> bool {
        let mut w = self.want();
        let old = self.m.owner;
        w.exp = if signer != old { fail(&["C15"], "not the protocol owner") }
            else { w.m2.owner = new; w.ev.push(D::ev("OwnerChanged").k(&old).k(&new).0); Exp::Ok(&["C15"]) };
        w.allow.insert(factory());
        self.run(&format!("SetOwner {} by {}", short(&new), short(&signer)), vec![set_owner(signer, new)], &[signer], w)
    }
    pub fn do_enable_fee(&mut self, signer: K, fee: u32, sp: u16) -> bool {
        let mut w = self.want();
        w.exp = if signer != self.m.owner { fail(&["C15"], "not the protocol owner") }
            else if self.m.fees.contains_key(&fee) { fail(&["C23"], "fee tier exists") }
            else if fee >= 1_000_000 { fail(&["C23"], "fee of 100% or more") }
            else if sp == 0 || sp >= 16384 { fail(&["C23"], "spacing out of range") }
            else { w.m2.fees.insert(fee, sp); w.ev.push(D::ev("FeeAmountEnabled").u32(fee).u16(sp).0); Exp::Ok(&["C15", "C23"]) };
        w.allow.extend([signer, fee_acct(fee)]);
        self.run(&format!("EnableFee {} spacing {} by {}", fee, sp, short(&signer)), vec![enable_fee(signer, fee, sp)], &[signer], w)
    }
    pub fn do_init_factory(&mut self, signer: K, first: bool) -> bool {
        let mut w = self.want();
        w.exp = if first { w.m2.owner = signer; w.m2.protocol = 3; w.ev.push(D::ev("OwnerChanged").k(&K::default()).k(&signer).0); Exp::Ok(&["C15"]) } else { fail(&["C15"], "already initialized") };
        w.allow.extend([signer, factory()]);
        self.run(&format!("InitFactory by {}", short(&signer)), vec![init_factory(signer)], &[signer], w)
    }
    pub fn do_collect_protocol(&mut self, signer: K, pi: usize, to: [K; 2], req: [u64; 2]) -> bool {
        let id = self.id(pi);
        let mut w = self.want();
        w.touch = vec![pi];
        w.amt = &["C11", "C17", "C01"];
        w.exp = if signer != self.m.owner { fail(&["C15"], "not the protocol owner") } else {
            let a = { let p = &mut w.m2.pools[pi]; let a = [req[0].min(p.prot[0]), req[1].min(p.prot[1])]; for i in 0..2 { p.prot[i] -= a[i]; } a };
            for i in 0..2 { w.m2.mv(id.v[i], to[i], a[i]); }
            w.ev.push(D::ev("CollectProtocolEvent").k(&id.key).k(&signer).k(&to[0]).k(&to[1]).u64(a[0]).u64(a[1]).0);
            Exp::Ok(&["C11", "C15", "C01"])
        };
        self.run(&format!("CollectProtocol pool{} by {} {:?}", pi, short(&signer), req), vec![collect_protocol(signer, &id, to[0], to[1], req[0], req[1])], &[signer], w)
    }
    pub fn do_create_pool(&mut self, u: usize, t0: K, t1: K, fee: u32, price: u64) -> bool {
        let user = self.users[u];
        let sp = self.m.fees.get(&fee).cloned();
        let id = PoolId::new(t0, t1, fee, sp.unwrap_or(1));
        let now = self.now();
        let mut w = self.want();
        let exists = self.m.pools.iter().any(|p| p.id.key == id.key);
        let why = if exists { Some("pool exists") } else if t0 >= t1 { Some("token order") } else if sp.is_none() { Some("fee tier not enabled") }
            else if !(MIN_P..MAX_P).contains(&price) { Some("price out of range") } else { None };
        w.exp = match why {
            Some(x) => fail(&["C23"], x),
            None => {
                let p = PoolM::new(id.clone(), price, now);
                w.ev.push(D::ev("PoolCreatedAndInitialized").k(&t0).k(&t1).u32(fee).u16(id.spacing).k(&id.key).u64(price).i32(p.tick).0);
                w.touch = vec![w.m2.pools.len()];
                w.m2.pools.push(p);
                self.known.push(Default::default());
                self.known_pos.push(Default::default());
                for i in 0..2 { if !self.b.a.contains_key(&id.v[i]) { self.b.put(id.v[i], tk_acct(&id.t[i], &id.key, 0)); } }
                Exp::Ok(&["C23"])
            }
        };
        w.allow.extend([user, id.key, id.obs(0)]);
        let ok = self.run(&format!("CreatePool fee={} price={}", fee, price), vec![create_pool(user, &id, price)], &[user], w);
        if why.is_none() && !ok { self.known.pop(); self.known_pos.pop(); }
        if ok { for k in [id.key, id.obs(0)] { self.rent_ok(&k); } }
        ok
    }
    pub fn do_donate(&mut self, u: usize, pi: usize, side: usize, n: u64) -> bool {
        let id = self.id(pi);
        let src = self.tas(u, pi)[side];
        let user = self.users[u];
        // a plain transfer of the token program, which refuses it beyond the balance
        if n == 0 || n > self.spend(u, &src) { return false; }
        let mut w = self.want();
        w.exp = Exp::Ok(NONE);
        w.m2.mv(src, id.v[side], n);
        self.run(&format!("Donate pool{} side{} {}", pi, side, n), vec![tk_transfer(src, id.v[side], user, n)], &[user], w)
    }
}

pub struct MetaD { auth: K, mint: K, uri: String, fee: u16, creators: Vec<(K, bool, u8)>, mutable: bool }
/// a metadata account's fields, read from its raw bytes
fn meta_of(d: &[u8]) -> Option<MetaD> {
    let mut i = 65usize;
    let mut take = |n: usize| -> Option<&[u8]> { let r = d.get(i..i + n)?; i += n; Some(r) };
    let mut text = vec![];
    for _ in 0..3 {
        let n = u32::from_le_bytes(take(4)?.try_into().ok()?) as usize;
        text.push(String::from_utf8_lossy(take(n)?).trim_end_matches('\0').to_string());
    }
    let fee = u16::from_le_bytes(take(2)?.try_into().ok()?);
    let mut creators = vec![];
    if take(1)?[0] == 1 {
        for _ in 0..u32::from_le_bytes(take(4)?.try_into().ok()?) { let c = take(34)?; creators.push((gk(c, 0), c[32] == 1, c[33])); }
    }
    take(1)?;
    let mutable = take(1)?[0] == 1;
    Some(MetaD { auth: gk(d, 1), mint: gk(d, 33), uri: text.pop()?, fee, creators, mutable })
}

pub fn swap_ev(id: &PoolId, user: &K, tas: [K; 2], zfo: bool, r: &SwapR) -> Vec<u8> {
    let (a0, a1) = if zfo { (r.total_in as i64, -(r.total_out as i64)) } else { (-(r.total_out as i64), r.total_in as i64) };
    D::ev("SwapEvent").k(&id.key).k(user).k(&tas[0]).k(&tas[1]).i64(a0).i64(a1).u64(r.price).u64(r.liq).i32(r.tick).0
}
