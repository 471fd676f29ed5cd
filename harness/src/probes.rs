//! Probes: questions asked of a copy of the chain, so that asking does not disturb the history.
//! Mutants of valid transactions (wrong account, missing signature, locked pool, late deadline,
//! cheating callback), complete exits, round trips, splits, hop-by-hop execution, range snapshots
//! and malformed instructions.
#![allow(dead_code)]
use crate::gen::*;
use crate::ix::*;
use crate::model::*;
use crate::ops::*;
use crate::rmath::*;
use crate::vm::*;
use crate::world::*;
use solana_program::account_info::AccountInfo;
use solana_program::instruction::{AccountMeta, Instruction};
use solana_program::program_error::ProgramError;
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;

/// what a slot of an instruction stands for
/// B bound to the operation, F free (judged by the token monitors), A authority that signs,
/// P payer that signs, N the NFT holder's token account, T account that selects the operation
pub fn slots(name: &str) -> &'static str {
    match name {
        "init_factory" => "PBB",
        "set_owner" => "AFB",
        "enable_fee_amount" => "ABBB",
        "create_and_init_pool" => "PBBBBBBB",
        "increase_observation_cardinality_next" => "PBB",
        "set_fee_protocol" => "AB",
        "collect_protocol" => "ABBBBFFB",
        "init_tick_account" => "PBBB",
        "close_tick_account" => "TF",
        "init_bitmap_account" => "PBBB",
        "init_position_account" => "PBBBBBB",
        "mint" => "AFFBBBBBBBBBBBC",
        "burn" => "ABBBBBBB",
        "collect" => "ABBBBBBFFB",
        "swap" => "AFFBBBBBBC",
        "mint_tokenized_position" => "ABBABBBBBBBBFFBBBBBBBB",
        "add_metaplex_metadata" => "PBBBBBBBB",
        "increase_liquidity" => "ABBBBBBBBFFBBBBB",
        "decrease_liquidity" => "ANBBBBBBBBBB",
        "collect_from_tokenized" => "ANBBBBBBBBBBBFFBB",
        "exact_input_single" => "ABBFFBBBBB",
        "exact_input" => "ABFBB",
        _ => "",
    }
}
pub const NAMES: [&str; 22] = ["init_factory", "set_owner", "enable_fee_amount", "create_and_init_pool", "increase_observation_cardinality_next", "set_fee_protocol", "collect_protocol",
    "init_tick_account", "close_tick_account", "init_bitmap_account", "init_position_account", "mint", "burn", "collect", "swap", "mint_tokenized_position", "add_metaplex_metadata",
    "increase_liquidity", "decrease_liquidity", "collect_from_tokenized", "exact_input_single", "exact_input"];
pub fn name_of_ix(ix: &Ix) -> &'static str {
    if ix.prog != PROG || ix.data.len() < 8 { return ""; }
    NAMES.iter().find(|n| disc(&format!("global:{}", n))[..] == ix.data[..8]).cloned().unwrap_or("")
}
fn locks(name: &str) -> bool {
    matches!(name, "mint" | "burn" | "collect" | "swap" | "collect_protocol" | "increase_observation_cardinality_next" | "mint_tokenized_position" | "increase_liquidity"
        | "decrease_liquidity" | "collect_from_tokenized" | "exact_input_single" | "exact_input")
}
fn deadline_at(name: &str) -> Option<usize> {
    match name { "mint_tokenized_position" | "increase_liquidity" => Some(40), "decrease_liquidity" => Some(32), "exact_input_single" | "exact_input" => Some(8), _ => None }
}
/// the property a missing signature breaks
fn sign_tag(name: &str) -> &'static [&'static str] {
    match name {
        "set_owner" | "enable_fee_amount" | "set_fee_protocol" | "collect_protocol" => &["C15", "C17"],
        "burn" | "collect" => &["C16", "C17"],
        "decrease_liquidity" | "collect_from_tokenized" => &["C13", "C17"],
        _ => &["C17"],
    }
}
/// kinds of the slots of this instruction, hops and remaining accounts included
fn kinds(ix: &Ix, w: &World, want: &Want) -> Vec<u8> {
    let name = name_of_ix(ix);
    let mut v: Vec<u8> = slots(name).bytes().collect();
    if name == "exact_input" {
        let n = ix.data[32..].iter().map(|x| *x as usize).collect::<Vec<_>>();
        for h in n.iter().skip(4) { v.extend(b"BFBBB"); for _ in 0..*h { v.push(b'B'); } }
    }
    let fixed = if name == "exact_input" { slots(name).len() } else { v.len() };
    while v.len() < ix.metas.len() { v.push(b'B'); }
    // a next observation is bound only where it gets written
    let mut free: BTreeSet<K> = BTreeSet::new();
    for (pi, p) in w.m.pools.iter().enumerate() {
        let nx = p.id.obs(p.obs.next());
        let used = want.m2.pools[pi].obs.idx != p.obs.idx || p.obs.next() == p.obs.idx && want.m2.pools[pi].obs.slots != p.obs.slots;
        let twice = name == "exact_input" && ix.metas.iter().filter(|m| m.k == nx).count() > 1;
        if !used || twice { free.insert(nx); }
    }
    for i in fixed..ix.metas.len() { if free.contains(&ix.metas[i].k) { v[i] = b'F'; } }
    // without liquidity there is nothing to settle before collecting
    if name == "collect_from_tokenized" {
        if let Some(n) = w.m.nfts.iter().find(|x| ix.metas[2].k == tpos(&x.mint)) { if n.liq == 0 { for i in 8..11 { v[i] = b'F'; } } }
    }
    v
}
fn sub_of(id: &PoolId, k: &K, w: &World, pi: usize) -> Option<Sub> {
    if id.key == *k { return Some(Sub::Pool); }
    for i in 0..2 { if id.v[i] == *k { return Some(Sub::Vault(i)); } }
    for t in &w.known[pi] { if id.tick(*t) == *k { return Some(Sub::Tick(*t)); } }
    for x in &w.m.pools[pi].words { if id.word(*x) == *k { return Some(Sub::Word(*x)); } }
    for p in &w.known_pos[pi] { if id.pos(&p.0, p.1, p.2) == *k { return Some(Sub::Pos(*p)); } }
    for i in 0..w.m.pools[pi].obs.slots.len().min(64) { if id.obs(i as u16) == *k { return Some(Sub::Obs(i as u16)); } }
    None
}
#[derive(Clone, Copy)]
enum Sub { Pool, Vault(usize), Tick(i32), Word(i16), Pos(PK), Obs(u16) }
fn at(id: &PoolId, s: Sub) -> K {
    match s { Sub::Pool => id.key, Sub::Vault(i) => id.v[i], Sub::Tick(t) => id.tick(t), Sub::Word(w) => id.word(w), Sub::Pos(p) => id.pos(&p.0, p.1, p.2), Sub::Obs(i) => id.obs(i) }
}

fn bump_of(id: &PoolId, s: Sub) -> Option<(usize, u8)> {
    match s {
        Sub::Pool | Sub::Vault(_) => None,
        Sub::Tick(t) => Some((TICK_BUMP_AT, id.tick_bump(t))),
        Sub::Word(w) => Some((WORD_BUMP_AT, id.word_bump(w))),
        Sub::Pos(p) => Some((POS_BUMP_AT, id.pos_bump(&p.0, p.1, p.2))),
        Sub::Obs(i) => Some((OBS_BUMP_AT, id.obs_bump(i))),
    }
}

impl World {
    fn wants(&self, p: &str) -> bool { self.all || self.target == p }
    fn must_fail(&mut self, tags: &[&str], b: &mut Bank, ix: &Ix, signers: &[K], what: &str) {
        self.stat(&format!("mutant {}", what.split(':').next().unwrap_or("")));
        match b.tx(&[ix.clone()], signers) {
            Err(_) => {}
            Ok(t) => {
                let n = t.changed.len();
                let who: Vec<String> = t.changed.keys().take(4).map(|k| short(k)).collect();
                self.bad(tags, format!("{} accepted ({} accounts changed: {})", what, n, who.join(" ")));
            }
        }
    }
    /// asks, just before a valid transaction runs, what variations of it would do
    pub fn mutants(&mut self, ix: &Ix, signers: &[K], want: &Want) {
        let name = name_of_ix(ix);
        if name.is_empty() { return; }
        if self.wants("C18") { self.wrong_accounts(name, ix, signers, want); }
        if !self.stop && ["C01", "C17", "C18"].iter().any(|p| self.wants(p)) { self.wrong_tokens(name, ix, signers); }
        if !self.stop && ["C18", "C12", "C30"].iter().any(|p| self.wants(p)) { self.wrong_sets(name, ix, signers, want); }
        if !self.stop && ["C13", "C15", "C16", "C17"].iter().any(|p| self.wants(p)) { self.wrong_signers(name, ix, signers, want); }
        if !self.stop && self.wants("C19") && locks(name) {
            for pi in want.touch.clone() {
                let key = self.m.pools[pi].id.key;
                let mut b = self.b.clone();
                b.poke(&key, |a| a.data[UNLOCKED_AT] = 0);
                self.must_fail(&["C19"], &mut b, ix, signers, &format!("operation on a locked pool: {}", name));
            }
        }
        if !self.stop && self.wants("C07") {
            if let Some(o) = deadline_at(name) {
                let now = self.b.now;
                let ahead = (now >> 32 << 32) + (1i64 << (33 + self.pr.n(29))) + self.pr.n(1000) as i64;
                let behind = now - 1 - self.pr.log(40) as i64;
                for (dl, ok) in [(now, true), (now + 1, true), (now - 1, false), (now - (1 << 33), false), (i64::MIN, false), (0, now <= 0), (-1, now < 0), (i64::MAX, true), (ahead, true), (now + (1 << 31), true), (now + (1 << 32), true), (behind, false)] {
                    let d = dl as i128 - now as i128;
                    let mut x = ix.clone();
                    x.data[o..o + 8].copy_from_slice(&dl.to_le_bytes());
                    let mut b = self.b.clone();
                    if ok {
                        self.stat("mutant deadline not passed");
                        let r = b.tx(&[x], signers);
                        if let Err(e) = r { self.bad(&["C07"], format!("{} refused {} s before its deadline: {:?}", name, d, e)); }
                    } else { self.must_fail(&["C07"], &mut b, &x, signers, &format!("passed deadline: {} {} s late", name, -d)); }
                }
            }
        }
        if !self.stop && self.wants("C19") && (name == "swap" || name == "mint") { self.callbacks(name, ix, signers, want); }
    }
    fn wrong_accounts(&mut self, name: &str, ix: &Ix, signers: &[K], want: &Want) {
        let ks = kinds(ix, self, want);
        for i in 0..ix.metas.len() {
            if self.stop { return; }
            if !self.all && !self.pr.p(1, 2) { continue; }
            let kind = ks[i];
            if !(kind == b'B' || kind == b'N' || kind == b'T') || ix.metas[i].s { continue; }
            let orig = ix.metas[i].k;
            let Some(oa) = self.b.get(&orig).cloned() else {
                // an account to be created: any other address must be refused
                let k = K::new(&self.pr.bytes32());
                let mut x = ix.clone();
                x.metas[i].k = k;
                let mut b = self.b.clone();
                self.must_fail(&["C18"], &mut b, &x, signers, &format!("wrong address for a new account: {} slot {}", name, i));
                // even if the holder of that address agrees to it
                x.metas[i].s = true;
                let mut s2 = signers.to_vec();
                s2.push(k);
                for lamports in [0, 1, 1 << 40] {
                    if self.stop { return; }
                    let mut b = self.b.clone();
                    if lamports > 0 { b.put(k, Acct { lamports, data: vec![], owner: sys_id(), exec: false }); }
                    self.must_fail(&["C18", "C21"], &mut b, &x, &s2, &format!("key pair instead of a new account: {} slot {}", name, i));
                }
                continue;
            };
            // (replacement, kind, needs writing into the bank)
            let mut c: Vec<(K, &'static str, Option<Acct>)> = vec![];
            let fresh = K::new(&self.pr.bytes32());
            let evil = K::new(&self.pr.bytes32());
            c.push((fresh, "look-alike of another owner", Some(Acct { owner: evil, ..oa.clone() })));
            c.push((K::new(&self.pr.bytes32()), "empty account", None));
            if oa.owner == PROG { c.push((K::new(&self.pr.bytes32()), "blank account of the program", Some(Acct { data: vec![0; oa.data.len()], ..oa.clone() }))); }
            if kind != b'T' {
                if let Some(t) = tk_of(&oa) {
                    // token accounts anyone can make: same mint and authority at another address
                    if kind == b'B' && t.amount > 0 { c.push((K::new(&self.pr.bytes32()), "token account of the same mint and authority", Some(oa.clone()))); }
                    if kind == b'B' { let u = self.pr.n(self.users.len() as u64) as usize; if self.users[u] != t.owner { c.push((self.ta(u, &t.mint), "token account of a user", None)); } }
                    let v: Vec<K> = self.m.pools.iter().flat_map(|p| p.id.v).filter(|k| *k != orig).collect();
                    if !v.is_empty() { c.push((*self.pr.pick(&v), "vault of another pool or token", None)); }
                    if kind == b'N' {
                        let v: Vec<K> = self.nft_at.iter().cloned().filter(|k| *k != orig).collect();
                        if !v.is_empty() { c.push((*self.pr.pick(&v), "token account of another NFT", None)); }
                        // an empty token account of the same NFT belonging to the signer
                        c.push((K::new(&self.pr.bytes32()), "empty token account of the NFT", Some(tk_acct(&t.mint, &ix.metas[0].k, 0))));
                        // a token account of a worthless mint the signer made
                        let fake = K::new(&self.pr.bytes32());
                        c.push((K::new(&self.pr.bytes32()), "token of another mint", Some(tk_acct(&fake, &ix.metas[0].k, 1))));
                    }
                } else if oa.owner == PROG || oa.owner == tok() {
                    // another account of the same type somewhere in the chain
                    let same: Vec<K> = self.b.a.iter().filter(|(k, a)| **k != orig && a.owner == oa.owner && a.data.len() == oa.data.len() && a.data[..8.min(a.data.len())] == oa.data[..8.min(oa.data.len())]).map(|x| *x.0).collect();
                    for _ in 0..3 { if !same.is_empty() { c.push((*self.pr.pick(&same), "another account of the type", None)); } }
                    // another account of this very transaction
                    let here: Vec<K> = ix.metas.iter().map(|m| m.k).filter(|k| *k != orig && same.contains(k)).collect();
                    if !here.is_empty() { c.push((*self.pr.pick(&here), "another account of the transaction", None)); }
                    let other: Vec<K> = self.b.a.iter().filter(|(k, a)| **k != orig && a.owner == PROG && a.data.len() != oa.data.len()).map(|x| *x.0).collect();
                    if !other.is_empty() { c.push((*self.pr.pick(&other), "account of another type", None)); }
                } else if oa.exec {
                    for what in ["another program", "another program that passes calls on"] { c.push((K::new(&self.pr.bytes32()), what, Some(Acct { lamports: 1, data: vec![], owner: K::default(), exec: true }))); }
                } else {
                    c.push((factory(), "unrelated account", None));
                }
            }
            // the account of the same tick, word, slot or owner and range in another pool
            if kind == b'B' && oa.owner == PROG && name != "init_position_account" {
                for pi in 0..self.m.pools.len() {
                    let id = self.id(pi);
                    let Some(sub) = sub_of(&id, &orig, self, pi) else { continue };
                    for q in 0..self.m.pools.len() {
                        let o = self.id(q);
                        let Some((at_, bump)) = bump_of(&o, sub) else { continue };
                        if q == pi { continue; }
                        let k = at(&o, sub);
                        let mut a = oa.clone();
                        a.data[at_] = bump;
                        let a = if self.b.get(&k).is_some() && self.pr.p(1, 2) { None } else { Some(a) };
                        c.push((k, "counterpart in another pool", a));
                    }
                }
            }
            for (k, what, acct) in c {
                if k == orig { continue; }
                // an empty position names its range, not the pool its ticks came from
                if name == "init_position_account" { if let (Some(a), Some(b)) = (r_tick(&self.b, &orig), r_tick(&self.b, &k)) { if a.tick == b.tick { continue; } } }
                // increasing any NFT of the same pool and range is legitimate
                if name == "increase_liquidity" && i == 2 {
                    if let (Some(a), Some(b)) = (r_nft(&self.b, &orig), r_nft(&self.b, &k)) { if (a.pool, a.lo, a.hi) == (b.pool, b.lo, b.hi) { continue; } }
                }
                let mut b = self.b.clone();
                if let Some(a) = acct { b.put(k, a); }
                let mut x = ix.clone();
                x.metas[i].k = k;
                // a stand-in program agrees to whatever it is asked
                let prog = what.starts_with("another program");
                if what == "another program" { set_hostile(k, Rc::new(|_: &K, _: &[AccountInfo], _: &[u8]| Ok(()))); }
                else if prog {
                    allow_reentrancy(true);
                    set_hostile(k, Rc::new(move |_: &K, infos: &[AccountInfo], data: &[u8]| {
                        let accounts = infos.iter().map(|a| solana_program::instruction::AccountMeta { pubkey: *a.key, is_signer: a.is_signer, is_writable: a.is_writable }).collect();
                        solana_program::program::invoke(&solana_program::instruction::Instruction { program_id: orig, accounts, data: data.to_vec() }, infos)
                    }));
                }
                self.must_fail(&["C18"], &mut b, &x, signers, &format!("{}: {} slot {}", what, name, i));
                if prog { clear_hostile(); allow_reentrancy(false); }
                if self.stop { return; }
            }
        }
    }
    /// what is due in one token, paid in the other
    fn wrong_tokens(&mut self, name: &str, ix: &Ix, signers: &[K]) {
        if !["mint", "collect", "collect_protocol", "mint_tokenized_position", "increase_liquidity", "collect_from_tokenized"].contains(&name) { return; }
        let Some(pi) = (0..self.m.pools.len()).find(|p| ix.metas.iter().any(|m| m.k == self.m.pools[*p].id.key)) else { return };
        let id = self.id(pi);
        let mint = |w: &World, k: &K| w.b.get(k).and_then(tk_of).map(|t| t.mint);
        let m = [mint(self, &id.v[0]), mint(self, &id.v[1])];
        // vault and user account of each token by slot
        let at = |w: &World, j: usize| {
            let v = ix.metas.iter().position(|x| x.k == id.v[j])?;
            let t = ix.metas.iter().position(|x| x.k != id.v[j] && mint(w, &x.k) == m[j])?;
            Some([v, t])
        };
        let (Some(a), Some(c)) = (at(self, 0), at(self, 1)) else { return };
        for mode in 0..4 {
            if self.stop { return; }
            let mut x = ix.clone();
            match mode {
                0 => for i in 0..2 { x.metas[a[i]].k = ix.metas[c[i]].k; },
                1 => for i in 0..2 { x.metas[c[i]].k = ix.metas[a[i]].k; },
                2 => for i in 0..2 { x.metas[a[i]].k = ix.metas[c[i]].k; x.metas[c[i]].k = ix.metas[a[i]].k; },
                _ => { x.metas[a[0]].k = id.v[1]; x.metas[c[0]].k = id.v[0]; }
            }
            let mut b = self.b.clone();
            self.must_fail(&["C01", "C17", "C18"], &mut b, &x, signers, &format!("due in one token, paid in the other: {}", name));
        }
    }
    /// whole groups of accounts that belong together, but to something else
    fn wrong_sets(&mut self, name: &str, ix: &Ix, signers: &[K], want: &Want) {
        // an empty position names its range, not the pool its ticks came from
        if name == "init_position_account" { return; }
        if self.stop || self.m.pools.len() < 2 && self.m.nfts.len() < 2 { return; }
        let ks = kinds(ix, self, want);
        let Some(pi) = (0..self.m.pools.len()).find(|p| ix.metas.iter().any(|m| m.k == self.m.pools[*p].id.key)) else { return };
        let id = self.id(pi);
        let subs: Vec<Option<Sub>> = ix.metas.iter().map(|m| sub_of(&id, &m.k, self, pi)).collect();
        let with_pool: Vec<usize> = (0..ix.metas.len()).filter(|i| subs[*i].is_some() && ks[*i] == b'B').collect();
        for _ in 0..3 {
            let q = self.pr.n(self.m.pools.len() as u64) as usize;
            if q == pi || with_pool.is_empty() || self.stop { continue; }
            let other = self.id(q);
            let nft = matches!(name, "increase_liquidity" | "decrease_liquidity" | "collect_from_tokenized");
            // a proper subset; for NFT operations also the whole set, as the record names the pool
            let mut x = ix.clone();
            let mut n = 0;
            let full = nft && self.pr.p(1, 2);
            for i in &with_pool { if full || self.pr.p(1, 2) { x.metas[*i].k = at(&other, subs[*i].unwrap()); n += 1; } }
            if n == 0 || n == with_pool.len() && !nft { continue; }
            if !nft {
                // the pool of every hop must be left with at least one foreign account among those it needs
                let fixed: Vec<usize> = with_pool.iter().cloned().filter(|i| *i < slots(name).len() || name == "exact_input").filter(|i| !matches!(subs[*i], Some(Sub::Word(_)) | Some(Sub::Tick(_))) || *i < slots(name).len()).collect();
                let moved = fixed.iter().filter(|i| x.metas[**i].k != ix.metas[**i].k).count();
                if moved == fixed.len() || name == "exact_input" && subs.iter().enumerate().any(|(i, s)| matches!(s, Some(Sub::Pool)) && x.metas[i].k != ix.metas[i].k) && !subs.iter().enumerate().any(|(i, s)| matches!(s, Some(Sub::Vault(_))) && x.metas[i].k == ix.metas[i].k) { continue; }
            }
            if x.metas.iter().zip(&ix.metas).all(|(a, b)| a.k == b.k) { continue; }
            let mut b = self.b.clone();
            self.must_fail(&["C18", if nft { "C12" } else { "C30" }], &mut b, &x, signers, &format!("accounts of another pool: {} {} of {}", name, n, with_pool.len()));
        }
        // another NFT's pool, range and core position under this NFT's record
        if matches!(name, "increase_liquidity" | "decrease_liquidity" | "collect_from_tokenized") && !self.stop {
            let Some(n1) = self.m.nfts.iter().position(|x| ix.metas.iter().any(|m| m.k == tpos(&x.mint))) else { return };
            for _ in 0..2 {
                let n2 = self.pr.n(self.m.nfts.len() as u64) as usize;
                let (a, c) = (self.m.nfts[n1].clone(), self.m.nfts[n2].clone());
                if (a.pool, a.lo, a.hi) == (c.pool, c.lo, c.hi) || self.stop { continue; }
                let (i1, i2) = (self.id(a.pool), self.id(c.pool));
                let f = factory();
                let mut map: BTreeMap<K, K> = BTreeMap::new();
                map.insert(i1.key, i2.key);
                map.insert(i1.pos(&f, a.lo, a.hi), i2.pos(&f, c.lo, c.hi));
                map.insert(i1.tick(a.lo), i2.tick(c.lo));
                map.insert(i1.tick(a.hi), i2.tick(c.hi));
                map.insert(i1.obs(self.last(a.pool)), i2.obs(self.last(c.pool)));
                for j in 0..2 { map.insert(i1.v[j], i2.v[j]); }
                let mut x = ix.clone();
                let base = slots(name).len();
                for (i, m) in x.metas.iter_mut().enumerate() {
                    if i >= base { continue; }
                    if let Some(k) = map.get(&m.k) { m.k = *k; }
                }
                // bitmaps may coincide for both ends of a range, so they go by slot
                let (wl, wh) = if name == "increase_liquidity" || name == "decrease_liquidity" { (if name == "increase_liquidity" { 7 } else { 8 }, if name == "increase_liquidity" { 8 } else { 9 }) } else { (8, 9) };
                x.metas[wl].k = i2.word(i2.word_of(c.lo));
                x.metas[wh].k = i2.word(i2.word_of(c.hi));
                x.metas.truncate(base);
                x.metas.extend(self.m.pools[c.pool].liq_rest(self.now()));
                if name == "collect_from_tokenized" || name == "increase_liquidity" {
                    // recipients and payers of the right tokens
                    let (r0, o) = if name == "increase_liquidity" { (9, 0) } else { (13, 0) };
                    let u = self.users.iter().position(|u| *u == ix.metas[0].k).unwrap_or(0);
                    let t = self.tas(u, c.pool);
                    x.metas[r0 + o].k = t[0];
                    x.metas[r0 + 1 + o].k = t[1];
                }
                if name == "decrease_liquidity" { x.data[8..16].copy_from_slice(&1u64.to_le_bytes()); x.data[16..32].copy_from_slice(&[0; 16]); }
                let mut b = self.b.clone();
                self.must_fail(&["C18", "C12"], &mut b, &x, signers, &format!("core position of another NFT: {}", name));
            }
        }
    }
    fn wrong_signers(&mut self, name: &str, ix: &Ix, signers: &[K], want: &Want) {
        let ks = kinds(ix, self, want);
        let tags = sign_tag(name);
        for i in 0..ix.metas.len() {
            if !ix.metas[i].s || self.stop { continue; }
            let orig = ix.metas[i].k;
            let mut x = ix.clone();
            x.metas[i].s = false;
            let sg: Vec<K> = signers.iter().cloned().filter(|k| *k != orig).collect();
            let mut b = self.b.clone();
            self.must_fail(tags, &mut b, &x, &sg, &format!("missing signature: {} slot {}", name, i));
            if self.stop || ks[i] != b'A' { continue; }
            for _ in 0..2 {
                let u = self.pr.n(self.users.len() as u64) as usize;
                let other = self.users[u];
                if other == orig { continue; }
                // whoever pays nothing may be replaced
                let pays = want.m2.moves.iter().any(|(k, d)| *d < 0 && self.b.get(k).and_then(tk_of).map(|t| t.owner == orig).unwrap_or(false));
                if matches!(name, "swap" | "mint" | "mint_tokenized_position" | "increase_liquidity" | "exact_input_single" | "exact_input") && !pays { continue; }
                if matches!(name, "decrease_liquidity" | "collect_from_tokenized") {
                    let n = self.m.nfts.iter().position(|x| ix.metas[2].k == tpos(&x.mint)).unwrap_or(0);
                    if self.nft_auth(n, &ix.metas[1].k, &other) { continue; }
                }
                let mut x = ix.clone();
                x.metas[i].k = other;
                let mut b = self.b.clone();
                let s2: Vec<K> = signers.iter().map(|k| if *k == orig { other } else { *k }).collect();
                self.must_fail(tags, &mut b, &x, &s2, &format!("signed by another user: {} slot {}", name, i));
                if self.stop { return; }
                if matches!(name, "decrease_liquidity" | "collect_from_tokenized") {
                    // neither the right to close the holder's token account nor an approval for nothing is one to the position
                    for at in [129usize, 72] {
                        let mut b = self.b.clone();
                        b.poke(&ix.metas[1].k, |a| { a.data[at..at + 4].copy_from_slice(&[1, 0, 0, 0]); a.data[at + 4..at + 36].copy_from_slice(other.as_ref()); if at == 72 { a.data[121..129].copy_from_slice(&[0; 8]); } });
                        self.must_fail(tags, &mut b, &x, &s2, &format!("signed by a {} of the holder: {} slot {}", if at == 72 { "delegate for nothing" } else { "closer" }, name, i));
                        if self.stop { return; }
                    }
                }
                // the rightful authority named but not signing, someone else signing
                if self.stop { return; }
            }
        }
    }
    /// hostile programs as payment callback
    fn callbacks(&mut self, name: &'static str, ix: &Ix, signers: &[K], want: &Want) {
        let cb = if name == "swap" { 9 } else { 14 };
        let hid = K::new(&[7u8; 32]);
        let mut base = self.b.clone();
        base.put(hid, Acct { lamports: 1, data: vec![], owner: K::default(), exec: true });
        let mut x = ix.clone();
        x.metas[cb].k = hid;
        // what the callback must be asked for
        let pi = want.touch[0];
        let id = self.id(pi);
        let owed: [u64; 2] = {
            let g = |i: usize| want.m2.moves.get(&id.v[i]).cloned().unwrap_or(0).max(0) as u64;
            [g(0), g(1)]
        };
        let normal = { let mut b = self.b.clone(); b.tx(&[ix.clone()], signers).ok().map(|t| t.changed) };
        let Some(normal) = normal else { return };
        allow_reentrancy(true);
        // (mode, must succeed?) : pay[i] = how much of token i, to which vault
        let mut modes: Vec<(&'static str, [i128; 2], bool, bool)> = vec![("exact", [0, 0], false, true)];
        for i in 0..2 {
            if owed[i] > 0 {
                let mut d = [0i128; 2];
                d[i] = -1;
                modes.push(("one unit short", d, false, false));
                d[i] = -(owed[i] as i128);
                modes.push(("one token unpaid", d, false, false));
                if owed[1 - i] > 0 { d[1 - i] = owed[i] as i128; modes.push(("paid in the other token", d, false, false)); }
                if owed[i] > 2 { d = [0; 2]; d[i] = -((1 + self.pr.n(owed[i] - 1)) as i128); modes.push(("underpaid", d, false, false)); }
            }
        }
        if owed != [0, 0] { modes.push(("paid to the trader's own account", [0, 0], true, false)); }
        for (mode, d, wrong_to, ok) in modes {
            if self.stop { break; }
            let asked: Rc<std::cell::RefCell<Vec<(i64, i64)>>> = Default::default();
            let a2 = asked.clone();
            let own = owed;
            let swap = name == "swap";
            let (t0, t1, v0, v1) = if swap { if ix.metas[3].k == id.v[0] { (1, 2, 3, 4) } else { (2, 1, 4, 3) } } else { (1, 2, 3, 4) };
            let tk = if swap { 5 } else { 13 };
            let idisc = disc(if swap { "global:swap_callback" } else { "global:mint_callback" });
            set_hostile(hid, Rc::new(move |_p: &K, infos: &[AccountInfo], data: &[u8]| {
                if data.len() < 24 || data[..8] != idisc { return Err(ProgramError::InvalidInstructionData); }
                a2.borrow_mut().push((g64(data, 8) as i64, g64(data, 16) as i64));
                for (j, (t, v)) in [(t0, v0), (t1, v1)].into_iter().enumerate() {
                    let n = (own[j] as i128 + d[j]).max(0) as u64;
                    if n == 0 { continue; }
                    let to = if wrong_to { t } else { v };
                    let i = spl_token::instruction::transfer(&spl_token::ID, infos[t].key, infos[to].key, infos[0].key, &[], n)?;
                    let accs = [infos[t].clone(), infos[to].clone(), infos[0].clone(), infos[tk].clone()];
                    solana_program::program::invoke(&i, &accs)?;
                }
                Ok(())
            }));
            let mut b = base.clone();
            let r = b.tx(&[x.clone()], signers);
            self.stat(&format!("callback {} {}", name, mode));
            match (r, ok) {
                (Ok(t), true) => {
                    let a = asked.borrow().clone();
                    let exp = if swap {
                        let g = |i: usize| want.m2.moves.get(&id.v[i]).cloned().unwrap_or(0) as i64;
                        (g(0), g(1))
                    } else { (owed[0] as i64, owed[1] as i64) };
                    if a != vec![exp] { self.bad(&["C19"], format!("payment callback asked for {:?} instead of {:?}", a, exp)); }
                    if t.changed != normal { self.bad(&["C19"], format!("{} paid by another program ends differently", name)); }
                }
                (Err(e), true) => self.bad(&["C19", "C32"], format!("{} refused although its callback paid in full: {:?}", name, e)),
                (Ok(_), false) => self.bad(&["C19", "C01"], format!("{} accepted although its callback cheated: {} (owed {:?})", name, mode, owed)),
                (Err(_), false) => {}
            }
        }
        // re-entering the pool while it is in use
        let mut inner: Vec<(&'static str, Ix)> = vec![];
        let pool = &self.m.pools[pi];
        let last = pool.obs.idx;
        if name == "mint" {
            let (minter, owner) = (ix.metas[0].k, ix.metas[5].k);
            if let Some(k) = self.known_pos[pi].iter().find(|k| id.pos(&k.0, k.1, k.2) == ix.metas[11].k).cloned() {
                let tas = [ix.metas[1].k, ix.metas[2].k];
                inner.push(("mint", mint(minter, tas, owner, &id, k.1, k.2, 1 + self.pr.n(1000), last, PROG, vec![])));
                if owner == minter {
                    inner.push(("burn", burn(minter, &id, k.1, k.2, 1, last, vec![])));
                    inner.push(("poke", burn(minter, &id, k.1, k.2, 0, last, vec![])));
                    inner.push(("collect", collect(minter, &id, k.1, k.2, tas, [u64::MAX; 2])));
                }
            }
        } else if ix.metas[0].k == self.m.owner {
            let (r0, r1) = if ix.metas[3].k == id.v[0] { (1, 2) } else { (2, 1) };
            inner.push(("collect_protocol", collect_protocol(self.m.owner, &id, ix.metas[r0].k, ix.metas[r1].k, u64::MAX, u64::MAX)));
        }
        for (what, ii) in inner {
            if self.stop { break; }
            let swap = name == "swap";
            let (t0, t1, v0, v1) = if swap { if ix.metas[3].k == id.v[0] { (1, 2, 3, 4) } else { (2, 1, 4, 3) } } else { (1, 2, 3, 4) };
            let tk = if swap { 5 } else { 13 };
            let own = owed;
            let first = self.pr.p(1, 2);
            set_hostile(hid, Rc::new(move |_p: &K, infos: &[AccountInfo], _d: &[u8]| {
                let pay = || -> Result<(), ProgramError> {
                    for (j, (t, v)) in [(t0, v0), (t1, v1)].into_iter().enumerate() {
                        if own[j] == 0 { continue; }
                        let i = spl_token::instruction::transfer(&spl_token::ID, infos[t].key, infos[v].key, infos[0].key, &[], own[j])?;
                        solana_program::program::invoke(&i, &[infos[t].clone(), infos[v].clone(), infos[0].clone(), infos[tk].clone()])?;
                    }
                    Ok(())
                };
                if first { pay()?; }
                let i = Instruction { program_id: ii.prog, data: ii.data.clone(), accounts: ii.metas.iter().map(|m| AccountMeta { pubkey: m.k, is_signer: m.s, is_writable: m.w }).collect() };
                solana_program::program::invoke(&i, infos)?;
                if !first { pay()?; }
                Ok(())
            }));
            let mut b = base.clone();
            // the inner call may need the program itself and its callback among the accounts
            let mut y = x.clone();
            y.metas.push(ro(PROG));
            let r = b.tx(&[y], signers);
            self.stat(&format!("re-entrant {} inside {}", what, name));
            if r.is_ok() { self.bad(&["C19"], format!("{} accepted inside the callback of {}", what, name)); }
        }
        allow_reentrancy(false);
        clear_hostile();
    }
}

impl Ep {
    pub fn probe(&mut self) {
        let t = self.w.target.clone();
        let all = self.w.all;
        let mut c: Vec<&str> = vec![];
        let mut on = |p: &[&str], x: &'static str| if all || p.contains(&t.as_str()) { c.push(x) };
        on(&["C01", "C02", "C12", "C32", "C10", "C11", "C17", "C24", "C14"], "drain");
        on(&["C08"], "hops");
        on(&["C31"], "trip");
        on(&["C31"], "trade");
        on(&["C31"], "split");
        on(&["C22"], "snap");
        on(&["C33"], "fuzz");
        on(&["C09", "C10", "C12"], "twin");
        on(&["C01", "C03", "C04", "C05", "C06", "C09", "C17", "C19", "C30"], "edge");
        on(&["C02", "C09", "C24", "C32", "C01", "C30"], "whale");
        on(&["C21", "C32"], "rings");
        if c.is_empty() { return; }
        match *self.r.pick(&c) {
            "drain" => self.drain(),
            "hops" => self.hops(),
            "trip" => self.trip(),
            "trade" => self.trade(),
            "split" => self.split(),
            "snap" => self.snap(),
            "fuzz" => self.fuzz(),
            "edge" => self.edge(),
            "whale" => self.whale(),
            "rings" => self.rings(),
            _ => {}
        }
    }
    /// on a copy, everyone withdraws everything, in random order
    pub fn drain(&mut self) {
        self.w.stat("probe: everyone exits");
        let mut r = Rng::new(self.r.u());
        self.w.fork(|w| {
            w.log.push("-- everyone exits (on a copy)".into());
            let mut jobs: Vec<(usize, u32, PK)> = vec![];
            for (pi, p) in w.m.pools.iter().enumerate() {
                for (k, _) in p.pos.iter() { if w.users.contains(&k.0) { jobs.push((pi, 0, *k)); } }
            }
            for n in 0..w.m.nfts.len() { jobs.push((n, 1, (K::default(), 0, 0))); }
            for pi in 0..w.m.pools.len() { jobs.push((pi, 2, (K::default(), 0, 0))); }
            for i in (1..jobs.len()).rev() { let j = r.n(i as u64 + 1) as usize; jobs.swap(i, j); }
            for (i, kind, k) in jobs {
                if w.stop { return; }
                match kind {
                    0 => {
                        let u = w.users.iter().position(|x| *x == k.0).unwrap();
                        for t in [k.1, k.2] { if !w.m.pools[i].tick_accts.contains(&t) && !w.stop && !w.do_init_tick(u, i, t) { w.bad(&["C02"], format!("a position cannot be left: its tick {} cannot be created again", t)); } }
                        let l = w.m.pools[i].pos[&k].liq;
                        if l > 0 && !w.stop {
                            if r.p(1, 3) && l > 1 { let n = 1 + r.n(l - 1); if w.do_burn(u, i, k.1, k.2, n) && !w.stop { w.do_burn(u, i, k.1, k.2, l - n); } }
                            else { w.do_burn(u, i, k.1, k.2, l); }
                        }
                        if r.p(1, 4) { w.b.now += r.n(30) as i64; }
                        let to = w.tas(u, i);
                        if !w.stop { w.do_collect(u, i, k.1, k.2, to, [u64::MAX; 2]); }
                        let left = r_pos(&w.b, &w.m.pools[i].id.pos(&k.0, k.1, k.2)).unwrap_or_default();
                        let e = &w.m.pools[i].pos[&k];
                        if (left.liq, left.owed) != (e.liq, e.owed) || e.liq == 0 && left.owed != [0, 0] { w.bad(&["C02"], format!("position not empty after leaving: {:?}", left)); }
                    }
                    1 => {
                        let Some(h) = w.holder(i) else { continue };
                        let (s, at) = (w.users[h], w.nft_at[i]);
                        let x = w.m.nfts[i].clone();
                        for t in [x.lo, x.hi] { if !w.m.pools[x.pool].tick_accts.contains(&t) && !w.stop && !w.do_init_tick(h, x.pool, t) { w.bad(&["C02"], format!("an NFT cannot be emptied: its tick {} cannot be created again", t)); } }
                        if x.liq > 0 && !w.stop { w.do_nft_dec(s, at, i, x.liq, [0, 0], i64::MAX); }
                        let to = w.tas(h, x.pool);
                        if !w.stop { w.do_nft_collect(s, at, i, to, [u64::MAX; 2]); }
                    }
                    _ => {
                        let o = w.m.owner;
                        let to = w.tas(0, i);
                        w.do_collect_protocol(o, i, to, [u64::MAX; 2]);
                        if let Some(rp) = r_pool(&w.b, &w.m.pools[i].id.key) { if rp.prot != [0, 0] && !w.stop && rp.prot != w.m.pools[i].prot { w.bad(&["C11"], format!("protocol fees left after a full withdrawal: {:?}", rp.prot)); } }
                    }
                }
            }
        });
    }
    /// a path run as one instruction and as separate swaps
    pub fn hops(&mut self) {
        let path = self.path();
        let u = self.user();
        let mut amt = self.amount().min(1 << 58);
        for _ in 0..10 {
            match self.w.predict_path(&path, amt) { Some(v) if v.iter().all(|x| *x > 0) => break, Some(_) => amt = amt.saturating_mul(64).min(1 << 58), None => amt = (amt >> 6).max(1) }
        }
        self.w.stat("probe: path against separate swaps");
        let (a, b) = {
            let mut c1 = self.w.clone();
            let ok1 = c1.do_router_multi(u, &path, i64::MAX, amt, 0);
            let mut c2 = self.w.clone();
            let mut x = amt;
            let mut ok2 = true;
            for (pi, z) in &path {
                let tas = c2.tas(u, *pi);
                let out = tas[if *z { 1 } else { 0 }];
                let had = c2.bal(&out);
                ok2 = c2.do_router_single(u, *pi, *z, i64::MAX, x, 0, 0);
                if !ok2 { break; }
                x = c2.bal(&out).wrapping_sub(had);
            }
            if !ok1 || !ok2 { if ok1 != ok2 && path.len() > 0 && amt > 0 { self.w.stat("probe: path or hops refused"); } (None, None) } else { (Some(c1), Some(c2)) }
        };
        if let (Some(a), Some(b)) = (a, b) {
            self.w.cur = format!("path {:?} amt={}", path, amt);
            let keys: BTreeSet<K> = a.b.a.keys().chain(b.b.a.keys()).cloned().collect();
            for k in keys {
                if a.b.a.get(&k) != b.b.a.get(&k) {
                    let who = self.w.name_of(&k);
                    self.w.bad(&["C08"], format!("path and separate swaps differ at {}", who));
                    break;
                }
            }
            self.w.stat("probe: path equals separate swaps");
        }
    }
    /// deposit and withdraw with nothing in between
    pub fn trip(&mut self) {
        let pi = self.pool();
        let u = self.user();
        let (lo, hi) = self.range(pi);
        let owner = self.w.users[u];
        let (d, _) = { let _ = owner; ([0u64; 2], 0) };
        let _ = d;
        let l = { let mut l = self.amount() >> self.r.n(20); if l == 0 { l = 1; } let p = &self.w.m.pools[pi]; loop { let (a, b) = amounts(p.tick, p.price, lo, hi, l, true); match (a, b) { (Some(a), Some(b)) if a < 1 << self.cap && b < 1 << self.cap => break l, _ => { l >>= 3; if l == 0 { break 1; } } } } };
        let nft = self.r.p(1, 2);
        let mint_k = K::new(&self.r.bytes32());
        let pieces = 1 + self.r.n(3);
        let mut r = Rng::new(self.r.u());
        self.w.stat(if nft { "probe: NFT deposit and exit" } else { "probe: deposit and exit" });
        self.w.fork(|w| {
            w.log.push("-- deposit and exit (on a copy)".into());
            let tas = w.tas(u, pi);
            let user = w.users[u];
            let who = if nft { factory() } else { user };
            w.prepare(u, who, pi, lo, hi);
            if w.stop { return; }
            // settle what the position already earned
            if !nft {
                if w.m.pools[pi].pos[&(user, lo, hi)].liq > 0 { w.do_burn(u, pi, lo, hi, 0); }
                if !w.stop { w.do_collect(u, pi, lo, hi, tas, [u64::MAX; 2]); }
            }
            if w.stop { return; }
            let had = [w.bal(&tas[0]), w.bal(&tas[1])];
            let mut ok;
            if nft {
                let p = &w.m.pools[pi];
                let (a, b) = amounts(p.tick, p.price, lo, hi, l, true);
                ok = w.do_nft_mint(u, user, mint_k, pi, lo, hi, [a.unwrap_or(0), b.unwrap_or(0)], [0, 0], i64::MAX);
                if !ok || w.stop { return; }
                let n = w.m.nfts.len() - 1;
                if w.m.nfts[n].mint != mint_k { return; }
                let mut left = r_nft(&w.b, &tpos(&mint_k)).map(|x| x.liq).unwrap_or(0);
                let at = w.nft_at[n];
                for i in 0..pieces {
                    let x = if i + 1 == pieces { left } else { r.n(left) };
                    if x == 0 || w.stop { continue; }
                    ok &= w.do_nft_dec(user, at, n, x, [0, 0], i64::MAX);
                    left -= x;
                }
                if !w.stop { ok &= w.do_nft_collect(user, at, n, tas, [u64::MAX; 2]); }
            } else {
                let mut left = l;
                let before = w.m.pools[pi].pos[&(user, lo, hi)].liq;
                for i in 0..pieces { let x = if i + 1 == pieces { left } else { r.n(left) }; if x > 0 && !w.stop { w.do_mint(u, user, pi, lo, hi, x); left -= x; } }
                if w.stop { return; }
                let now = r_pos(&w.b, &w.m.pools[pi].id.pos(&user, lo, hi)).map(|x| x.liq).unwrap_or(0);
                let mut left = now.saturating_sub(before);
                ok = true;
                let pieces = 1 + r.n(3);
                for i in 0..pieces { let x = if i + 1 == pieces { left } else { r.n(left) }; if x > 0 && !w.stop { ok &= w.do_burn(u, pi, lo, hi, x); left -= x; } }
                if !w.stop { ok &= w.do_collect(u, pi, lo, hi, tas, [u64::MAX; 2]); }
            }
            let _ = ok;
            for i in 0..2 {
                let has = w.bal(&tas[i]);
                if has > had[i] { w.bad(&["C31"], format!("deposit of {} into {}..{} and exit gained {} of token {}", l, lo, hi, has - had[i], i)); }
            }
        });
    }
    /// swap, then swap the proceeds back, possibly in pieces
    pub fn trade(&mut self) {
        let pi = self.pool();
        let u = self.user();
        let exact_in = self.r.p(1, 2);
        let (zfo, amt, limit) = self.swap_args(pi, exact_in);
        let pieces = 1 + self.r.n(3);
        let by_output = self.r.p(1, 4);
        let mut r = Rng::new(self.r.u());
        self.w.stat("probe: swap and swap back");
        self.w.fork(|w| {
            w.log.push("-- swap and swap back (on a copy)".into());
            let tas = w.tas(u, pi);
            let had = [w.bal(&tas[0]), w.bal(&tas[1])];
            if !w.do_swap(u, pi, zfo, amt, limit) || w.stop { return; }
            let (i, o) = if zfo { (0, 1) } else { (1, 0) };
            let spent = had[i] as i128 - w.bal(&tas[i]) as i128;
            let got = w.bal(&tas[o]) as i128 - had[o] as i128;
            if got <= 0 { return; }
            let mut left = got as u64;
            let back = if zfo { MAX_P - 1 } else { MIN_P + 1 };
            for k in 0..pieces {
                let x = if k + 1 == pieces { left } else { 1 + r.n(left) };
                if x == 0 || w.stop { break; }
                let b0 = w.bal(&tas[o]);
                let ok = if by_output && spent > 0 && k + 1 == pieces {
                    // try to buy back everything that was spent
                    w.do_swap(u, pi, !zfo, -(spent as i64), back)
                } else { w.do_swap(u, pi, !zfo, x as i64, back) };
                if !ok { break; }
                left = left.saturating_sub(b0.saturating_sub(w.bal(&tas[o])));
            }
            let end = [w.bal(&tas[0]), w.bal(&tas[1])];
            w.stat("round-trip trades completed");
            if end[o] >= had[o] && end[i] >= had[i] && (end[o] > had[o] || end[i] > had[i]) {
                w.bad(&["C31"], format!("trading back and forth turned {:?} into {:?}", had, end));
            }
        });
    }
    /// one trade in pieces must not beat the trade at once
    pub fn split(&mut self) {
        let pi = self.pool();
        let u = self.user();
        let (zfo, amt, limit) = self.swap_args(pi, true);
        if amt < 2 { return; }
        let a = 1 + self.r.n(amt as u64 - 1) as i64;
        self.w.stat("probe: trade in pieces");
        let tas = self.w.tas(u, pi);
        let (i, o) = if zfo { (0, 1) } else { (1, 0) };
        let mut run = |parts: &[i64], w: &mut World| -> Option<(i128, i128)> {
            w.fork(|w| {
                let had = [w.bal(&tas[i]) as i128, w.bal(&tas[o]) as i128];
                for x in parts { if !w.do_swap(u, pi, zfo, *x, limit) { return None; } }
                Some((had[0] - w.bal(&tas[i]) as i128, w.bal(&tas[o]) as i128 - had[1]))
            })
        };
        let one = run(&[amt], &mut self.w);
        if self.w.stop { return; }
        let two = run(&[a, amt - a], &mut self.w);
        // for huge products the price step uses a form that may stop one price unit early, to the trader's loss
        let p = &self.w.m.pools[pi];
        let slack = if zfo && amt as u128 * p.price as u128 > u64::MAX as u128 {
            match p.predict_swap(self.w.m.protocol, zfo, amt, limit, MAX_STEPS) { Ok(r) => r.steps.iter().map(|s| (s.liq >> 32) as i128 + 2 + ((p.price >> 32) as i128 + 1).pow(2)).sum(), Err(_) => return }
        } else { 0 };
        if let (Some((in1, out1)), Some((in2, out2))) = (one, two) {
            self.w.cur = format!("pool{} zfo={} {} = {} + {} limit={}", pi, zfo, amt, a, amt - a, limit);
            self.w.stat("trades in pieces completed");
            if in2 <= in1 && out2 > out1 + slack { self.w.bad(&["C31"], format!("in two pieces {} for {}, at once {} for {}", in2, out2, in1, out1)); }
        }
    }
    /// on a copy, deposits and trades of about as much as an amount can be, and of more
    pub fn edge(&mut self) {
        let pi = self.pool();
        let u = self.user();
        let (lo, hi) = self.range(pi);
        let mut r = Rng::new(self.r.u());
        let swap = r.p(1, 2);
        self.w.fork(|w| {
            w.log.push("-- amounts at the edge (on a copy)".into());
            if swap { w.edge_swap(u, pi, &mut r) } else { w.edge_mint(u, pi, lo, hi, &mut r) }
        });
    }
    /// on a copy, a ring as long as 16 bits can count, or around other powers of two: what anybody's patience makes
    /// of it, written directly (a full ring of `n` slots whose latest is `at`)
    pub fn rings(&mut self) {
        let pi = self.pool();
        let mut r = Rng::new(self.r.u());
        let p = self.w.m.pools[pi].clone();
        let id = &p.id;
        let n: u16 = match r.n(4) { 0 => 65535, 1 => 65535 - r.n(3) as u16, 2 => *r.pick(&[257, 1025, 4097, 16385, 32767, 32768, 32769, 40000]), _ => 400 + r.n(65000) as u16 };
        let at = match r.n(4) { 0 | 1 => n - 1, 2 => n - 2, _ => (*r.pick(&[127u16, 255, 256, 1023, 4095, 16383, 32766, 32767, 32768])).min(n - 1) };
        let nx = ((at as u32 + 1) % n as u32) as u16;
        if p.obs.slots.len() > n as usize { return; } // the next slots exist already
        let mut b = self.w.b.clone();
        b.now += 14 + r.n(20) as i64;
        let now = b.now as u32;
        let Some(src) = b.get(&id.obs(p.obs.idx)).cloned() else { return };
        for i in [at, nx] {
            if i == p.obs.idx { continue; }
            let mut a = src.clone();
            a.data[OBS_INDEX_AT..OBS_INDEX_AT + 2].copy_from_slice(&i.to_le_bytes());
            a.data[OBS_BUMP_AT] = id.obs_bump(i);
            a.data[OBS_INIT_AT] = 1;
            b.put(id.obs(i), a);
        }
        b.poke(&id.key, |a| for (o, x) in RING_AT.iter().zip([at, n, n]) { a.data[*o..*o + 2].copy_from_slice(&x.to_le_bytes()); });
        self.w.log.push(format!("-- a full ring of {} slots at {} (on a copy of pool{})", n, at, pi));
        let u = self.user();
        let user = self.w.users[u];
        for k in 1..3u16 {
            let mut b = b.clone();
            let ok = b.tx(&[inc_obs(user, id, n, k)], &[user]).is_ok();
            let on = r_pool(&b, &id.key).map(|x| (x.oi, x.oc, x.on));
            let fits = n as u32 + k as u32 <= 65535;
            self.w.stat(if fits { "rings: grown" } else { "rings: grown past the limit" });
            if ok != fits { self.w.bad(&["C21", "C32"], format!("{} slots more for a ring of {} were {}", k, n, if ok { "accepted" } else { "refused" })); }
            else if on != Some((at, n, if fits { n + k } else { n })) { self.w.bad(&["C21"], format!("{} slots more for a ring of {} left {:?}", k, n, on)); }
            if self.w.stop { return; }
        }
        // a trade, or a withdrawal in range, in a later time slot
        let mut m = p.clone();
        let mut slots = vec![Slot { init: true, ts: 1, tc: 0, spl: 0 }; n as usize];
        slots[at as usize] = p.obs.slots[p.obs.idx as usize].clone();
        m.obs = ObsM { idx: at, card: n, slots };
        if !m.obs.needs_next(now) { return; }
        let (ix, who, what) = if r.p(1, 2) {
            let zfo = r.p(1, 2);
            let (i, o) = if zfo { (0, 1) } else { (1, 0) };
            let d = m.price / 2000 + 2;
            let limit = if zfo { m.price.saturating_sub(d).max(MIN_P + 1) } else { (m.price + d).min(MAX_P - 1) };
            let tas = self.w.tas(u, pi);
            let amt = 1 << r.n(45);
            let Ok(s) = m.predict_swap(self.w.m.protocol, zfo, amt, limit, 40) else { return };
            if s.beyond || s.tick == m.tick || s.total_in > self.w.spend(u, &tas[i]) || !self.w.may(u, &tas[i]) { return; }
            let rest = m.swap_rest(&s, now);
            m.apply_swap(&s, zfo, now);
            (ix_swap(user, tas[i], tas[o], id, zfo, amt, limit, at, PROG, rest), user, "trade")
        } else {
            let own: Vec<_> = m.pos.iter().filter(|(k, x)| self.w.users.contains(&k.0) && k.1 <= m.tick && m.tick < k.2 && x.liq > 0).map(|(k, x)| (*k, x.liq)).collect();
            if own.is_empty() { return; }
            let (k, l) = *r.pick(&own);
            let l = if r.p(1, 2) { l } else { 1 + r.n(l) };
            let rest = m.liq_rest(now);
            if m.liquidity(&k, false, l, now).is_err() { return; }
            (burn(k.0, id, k.1, k.2, l, at, rest), k.0, "withdrawal")
        };
        let old = r_obs(&b, &id.obs(at));
        if let Err(e) = b.tx(&[ix], &[who]) { self.w.bad(&["C21", "C32"], format!("a {} after slot {} of {} refused: {:?}", what, at, n, e)); return; }
        self.w.stat(&format!("rings: {} written", what));
        let got = r_pool(&b, &id.key).map(|x| (x.oi, x.oc, x.on));
        if got != Some((nx, n, n)) { self.w.bad(&["C21"], format!("a {} after slot {} of {} left the ring at {:?}", what, at, n, got)); return; }
        let (x, want) = (r_obs(&b, &id.obs(nx)), (nx, now, m.int_tc, m.int_spl));
        if x.as_ref().map(|x| (x.idx, x.ts, x.tc, x.spl)) != Some(want) { self.w.bad(&["C21", "C20"], format!("a {} after slot {} of {} wrote {:?}, should be {:?}", what, at, n, x.map(|x| (x.idx, x.ts, x.tc, x.spl)), want)); return; }
        if r_obs(&b, &id.obs(at)) != old { self.w.bad(&["C21"], format!("a {} after slot {} of {} changed that slot", what, at, n)); }
    }
    /// on a copy, deposits of about as much liquidity as a tick or a pool can count, next to others' positions;
    /// then trades across them, and everyone leaves
    pub fn whale(&mut self) {
        let pi = self.pool();
        let u = self.user();
        let mut r = Rng::new(self.r.u());
        let p = &self.w.m.pools[pi];
        let sp = p.id.spacing as i32;
        // where others' liquidity begins and ends
        let mut at: Vec<i32> = p.ticks.keys().cloned().collect();
        if at.is_empty() || r.p(1, 6) { at = vec![p.tick.div_euclid(sp) * sp]; }
        let mut t = *r.pick(&at);
        let mut ep = Ep { w: self.w.clone(), r: Rng::new(r.u()), univ: self.univ.clone(), lbits: self.lbits, step: 0, nft_seq: 0, cap: self.cap };
        ep.w.quiet += 1;
        ep.w.log.push("-- as much liquidity as can be (on a copy)".into());
        let base = t;
        for i in 0..1 + r.n(5) {
            if ep.w.stop { break; }
            // from here on, towards here, or one step further along
            if i > 0 { match r.n(3) { 0 => t = usable(t as i64 + sp as i64, sp), 1 => t = base, _ => {} } }
            let n = if r.p(2, 3) { 1 } else { 1 + r.n(3) as i64 } * sp as i64;
            let (lo, hi) = if r.p(1, 2) { (t, usable(t as i64 + n, sp)) } else { (usable(t as i64 - n, sp), t) };
            if lo < MIN_TICK || hi > MAX_TICK || lo >= hi { continue; }
            let m = &ep.w.m.pools[pi];
            let gross = |x: i32| m.ticks.get(&x).map(|e| e.gross).unwrap_or(0);
            let top = gross(lo).max(gross(hi));
            let room = (i64::MAX as u64).saturating_sub(top);
            let l = match r.n(8) {
                0 | 1 => room,
                2 => room.saturating_add(1),
                3 => room.saturating_sub(r.log(40)),
                4 => i64::MAX as u64,
                5 => (u64::MAX - m.liq).min(i64::MAX as u64),
                6 => (u64::MAX - m.liq).saturating_add(1).min(i64::MAX as u64),
                _ => room / 2 + r.log(62),
            }.clamp(1, i64::MAX as u64);
            let (a, b) = amounts(m.tick, m.price, lo, hi, l, true);
            let (tas, user) = (ep.w.tas(u, pi), ep.w.users[u]);
            let fits = |x: Option<u64>, k: &K| x.map(|x| x <= ep.w.spend(u, k)).unwrap_or(false);
            if !fits(a, &tas[0]) || !fits(b, &tas[1]) { continue; }
            ep.w.prepare(u, user, pi, lo, hi);
            if ep.w.stop { break; }
            if ep.w.do_mint(u, user, pi, lo, hi, l) { ep.w.stat("whale: deposits accepted"); } else { ep.w.stat("whale: deposits refused"); }
            if top > 0 && top.saturating_add(l) > 1 << 62 { ep.w.stat("whale: at a tick of others"); }
        }
        let w = [12, 8, 4, 8, 2, 4, 1, 0, 2, 2, 4, 4, 0, 0, 0, 0, 0, 0, 0, 1, 1, 0, 0, 4, 0, 0];
        for _ in 0..r.n(12) { if !ep.w.stop { ep.step(&w, &mut |_| {}); } }
        if !ep.w.stop { ep.drain(); }
        self.w.finds = ep.w.finds;
        self.w.stop = ep.w.stop;
        self.w.other = ep.w.other;
        self.w.stats = ep.w.stats;
        self.w.states = ep.w.states;
        if self.w.stop { self.w.log = ep.w.log; }
    }
    /// takes range snapshots and compares all earlier ones with what happened since
    pub fn snap(&mut self) {
        let now = self.w.now();
        for pi in 0..self.w.m.pools.len() {
            let ticks: Vec<i32> = self.w.m.pools[pi].ticks.keys().cloned().collect();
            if ticks.len() >= 2 {
                let (a, b) = (*self.r.pick(&ticks), *self.r.pick(&ticks));
                let key = (a.min(b), a.max(b));
                if a != b && self.w.snaps.iter().filter(|s| s.pool == pi).count() < 25 {
                    self.w.m.pools[pi].ranges.entry(key).or_default();
                    let base = self.w.m.pools[pi].at(now).ranges[&key].clone();
                    if let Some(start) = self.w.snapshot(pi, key.0, key.1) {
                        let ep = (self.w.m.pools[pi].ticks[&key.0].epoch, self.w.m.pools[pi].ticks[&key.1].epoch);
                        self.w.snaps.push(Snap { pool: pi, gen: self.w.m.pools[pi].ranges_gen, key, ep, base, start, at: now });
                    }
                }
            }
        }
        let snaps = std::mem::take(&mut self.w.snaps);
        for s in snaps {
            let p = self.w.m.pools[s.pool].at(now);
            let (Some(a), Some(b), Some(r)) = (p.ticks.get(&s.key.0), p.ticks.get(&s.key.1), p.ranges.get(&s.key).cloned()) else { continue };
            if (a.epoch, b.epoch) != s.ep || p.ranges_gen != s.gen { continue; }
            let Some(e) = self.w.snapshot(s.pool, s.key.0, s.key.1) else { continue };
            let got = (e.0.wrapping_sub(s.start.0), e.1.wrapping_sub(s.start.1), e.2.wrapping_sub(s.start.2));
            let exp = (r.tsec.wrapping_sub(s.base.tsec), r.spl.wrapping_sub(s.base.spl), (r.sec - s.base.sec) as u32);
            self.w.stat("range snapshots compared");
            if exp.2 > 0 && (exp.2 as i64) < (now - s.at) as i64 { self.w.stat("range snapshots with time both inside and outside"); }
            if got != exp {
                self.w.cur = format!("pool{} range {:?} from {} to {}", s.pool, s.key, s.at, now);
                self.w.bad(&["C22"], format!("snapshot difference (tick-seconds, seconds per liquidity, seconds) {:?}, really {:?}", got, exp));
            }
            self.w.snaps.push(s);
        }
    }
    /// malformed and unauthorized variants of real instructions
    pub fn fuzz(&mut self) { self.fuzz_n(12) }
    pub fn fuzz_n(&mut self, n: usize) {
        let Some((ix, signers)) = self.w.last_ix.clone() else { return };
        self.w.stat("probe: malformed variants");
        for _ in 0..n {
            if self.w.stop { return; }
            let mut r = Rng::new(self.r.u());
            let mut x = ix.clone();
            let mut sg = signers.clone();
            let mut extra: Vec<(K, Acct)> = vec![];
            let k = 1 + r.n(3);
            let mut what = vec![];
            for _ in 0..k {
                let m = r.n(15);
                match m {
                    14 if x.data.len() >= 12 && ["exact_input", "increase_observation_cardinality_next"].contains(&name_of_ix(&x)) => {
                        // other lists than the accounts are for
                        let at = if name_of_ix(&x) == "exact_input" { 32 } else { 8 };
                        if x.data.len() < at + 4 { continue; }
                        let n = match r.n(4) { 0 | 1 => 0, 2 => r.n(4), _ => x.data.len() as u64 - at as u64 - 4 + r.n(3) } as usize;
                        x.data.resize(at + 4 + n, 0);
                        x.data[at..at + 4].copy_from_slice(&(n as u32).to_le_bytes());
                        what.push("other list");
                    }
                    0 if !x.data.is_empty() => { let i = r.n(x.data.len() as u64) as usize; x.data[i] ^= 1 << r.n(8); what.push("bit"); }
                    1 => { let i = r.n(x.data.len() as u64 + 1) as usize; x.data.truncate(i); what.push("truncated data"); }
                    2 => { let n = r.n(40); for _ in 0..n { x.data.push(r.u() as u8); } what.push("longer data"); }
                    3 if x.data.len() >= 16 => { let i = 8 + r.n((x.data.len() - 8) as u64) as usize; for j in i..(i + 8).min(x.data.len()) { x.data[j] = *r.pick(&[0, 0xff, 0x80, 0x7f, 1]); } what.push("extreme value"); }
                    4 if !x.metas.is_empty() => { let i = r.n(x.metas.len() as u64) as usize; x.metas.remove(i); what.push("account dropped"); }
                    5 if !x.metas.is_empty() => { let i = r.n(x.metas.len() as u64) as usize; x.metas.truncate(i); what.push("accounts truncated"); }
                    6 if x.metas.len() > 1 => { let (i, j) = (r.n(x.metas.len() as u64) as usize, r.n(x.metas.len() as u64) as usize); x.metas.swap(i, j); what.push("accounts swapped"); }
                    7 if x.metas.len() > 1 => { let (i, j) = (r.n(x.metas.len() as u64) as usize, r.n(x.metas.len() as u64) as usize); x.metas[i].k = x.metas[j].k; what.push("account aliased"); }
                    8 if !x.metas.is_empty() => {
                        let keys: Vec<K> = self.w.b.a.keys().cloned().collect();
                        let i = r.n(x.metas.len() as u64) as usize;
                        x.metas[i].k = *r.pick(&keys);
                        what.push("any account");
                    }
                    9 if !x.metas.is_empty() => {
                        // an account the attacker made: his program's, any length and content
                        let i = r.n(x.metas.len() as u64) as usize;
                        let mut a = self.w.b.get(&x.metas[i].k).cloned().unwrap_or_else(Acct::empty);
                        let k = K::new(&r.bytes32());
                        a.lamports = 1_000_000;
                        match r.n(4) {
                            0 => { a.owner = K::new(&r.bytes32()); }
                            1 => { a.owner = PROG; let n = match r.n(4) { 0 => r.n(16), 1 => a.data.len() as u64, _ => r.n(400) }; a.data = vec![0; n as usize]; }
                            2 => { a.owner = K::new(&r.bytes32()); let n = r.n(400) as usize; a.data.resize(n, 0xff); }
                            _ => { a.owner = sys_id(); a.data = vec![]; }
                        }
                        a.exec = r.p(1, 10);
                        extra.push((k, a));
                        x.metas[i].k = k;
                        what.push("forged account");
                    }
                    10 if !x.metas.is_empty() => {
                        let i = r.n(x.metas.len() as u64) as usize;
                        x.metas[i].w = !x.metas[i].w;
                        what.push("writable flipped");
                    }
                    11 if !x.metas.is_empty() => {
                        let i = r.n(x.metas.len() as u64) as usize;
                        if x.metas[i].s { let k = x.metas[i].k; x.metas[i].s = false; sg.retain(|y| *y != k); what.push("signature dropped"); }
                    }
                    12 => {
                        let n = *r.pick(&NAMES);
                        let d = disc(&format!("global:{}", n));
                        if x.data.len() >= 8 { x.data[..8].copy_from_slice(&d); } else { x.data = d.to_vec(); }
                        what.push("other instruction");
                    }
                    _ => {
                        let from = r.n(self.w.users.len() as u64) as usize;
                        let u = self.w.users[from];
                        for m in x.metas.iter_mut() { if m.s && m.k == signers[0] { m.k = u; } }
                        sg = sg.iter().map(|k| if *k == signers[0] { u } else { *k }).collect();
                        what.push("other signer");
                    }
                }
            }
            self.w.judge_hostile(x, sg, extra, &what.join("+"));
        }
    }
}

#[derive(Clone)]
pub struct Snap { pub pool: usize, pub gen: u64, pub key: (i32, i32), pub ep: (u64, u64), pub base: RangeM, pub start: (i64, u64, u32), pub at: u32 }

/// the least x in lo..hi for which f holds, if f goes from false to true at most once
fn least(mut lo: u64, mut hi: u64, f: impl Fn(u64) -> bool) -> Option<u64> {
    if hi < lo || !f(hi) { return None; }
    while lo < hi { let m = lo + (hi - lo) / 2; if f(m) { hi = m } else { lo = m + 1 } }
    Some(lo)
}
impl World {
    /// an instruction whose payment callback is a program that pays nothing
    fn unpaid(&mut self, ix: &Ix, slot: usize, signers: &[K], what: &str) {
        let hid = K::new(&[7u8; 32]);
        let mut b = self.b.clone();
        b.put(hid, Acct { lamports: 1, data: vec![], owner: K::default(), exec: true });
        let mut x = ix.clone();
        x.metas[slot].k = hid;
        set_hostile(hid, Rc::new(|_p: &K, _i: &[AccountInfo], _d: &[u8]| Ok(())));
        self.must_fail(&["C19", "C01", "C17", "C06"], &mut b, &x, signers, what);
        clear_hostile();
    }
    fn edge_mint(&mut self, u: usize, pi: usize, lo: i32, hi: i32, r: &mut Rng) {
        let user = self.users[u];
        self.prepare(u, user, pi, lo, hi);
        let id = self.id(pi);
        for i in 0..2 {
            if self.stop { return; }
            let vault = self.bal(&id.v[i]);
            let tas = self.tas(u, pi);
            let have = self.spend(u, &tas[i]);
            let p = &self.m.pools[pi];
            let (a, b) = (price_at(lo), price_at(hi));
            let (price, tick) = (p.price, p.tick);
            // what a deposit of so much liquidity takes of this token
            let takes = |l: u64| if i == 0 { if tick < lo { amt0_w(a, b, l, true) } else if tick < hi { amt0_w(price, b, l, true) } else { W::from(0) } }
                else if tick < lo { W::from(0) } else if tick < hi { amt1_w(a, price, l, true) } else { amt1_w(a, b, l, true) };
            let two64 = W::from(u64::MAX) + W::from(1);
            let goal = match r.n(6) {
                0 | 1 => two64 - W::from(r.n(vault.max(1)) + 1),
                2 => two64 - W::from(vault),
                3 => two64 + W::from(r.log(60)),
                4 => (two64 >> 1) - W::from(8) + W::from(r.n(16)),
                _ => W::from(have) + W::from(1),
            };
            let Some(l) = least(1, i64::MAX as u64, |l| takes(l) >= goal) else { continue };
            self.stat("probe: deposits at the edge");
            let t = takes(l);
            if t < two64 && t + W::from(vault) >= two64 { self.stat("edge: deposits that would overflow the vault"); }
            if t >= two64 { self.stat("edge: deposits beyond u64"); }
            let rest = self.m.pools[pi].liq_rest(self.now());
            let ix = mint(user, tas, user, &id, lo, hi, l, self.last(pi), PROG, rest);
            self.cur = format!("unpaid Mint pool{} {}..{} {} taking {}", pi, lo, hi, l, t);
            self.unpaid(&ix, 14, &[user], "deposit that its callback does not pay: mint");
            if self.stop { return; }
            self.fork(|w| w.do_mint(u, user, pi, lo, hi, l));
            if self.stop { return; }
            // the same through an NFT
            let o = if i == 0 { amounts(tick, price, lo, hi, l, true).1 } else { amounts(tick, price, lo, hi, l, true).0 };
            let mut d = [u64::MAX; 2];
            if t < two64 { d[i] = t.as_u64(); }
            if let Some(x) = o { d[1 - i] = x.saturating_add(r.n(3)); }
            let nft = K::new(&r.bytes32());
            self.fork(|w| w.do_nft_mint(u, user, nft, pi, lo, hi, d, [0, 0], i64::MAX));
        }
    }
    fn edge_swap(&mut self, u: usize, pi: usize, r: &mut Rng) {
        let p = &self.m.pools[pi];
        // the token that is worth little is the one paid
        let zfo = p.price < 1 << 32;
        let sp = p.id.spacing as i32;
        let (i, o) = if zfo { (0, 1) } else { (1, 0) };
        let tas = self.tas(u, pi);
        let n = { let most = if r.p(1, 2) { 3 } else { 200 }; 1 + r.n(most) as i64 };
        let t = p.tick.div_euclid(sp) * sp;
        let (lo, hi) = if zfo { (usable(t as i64 - n * sp as i64, sp), t) } else { (t + sp, usable(t as i64 + (n + 1) * sp as i64, sp)) };
        if lo >= hi || lo < MIN_TICK || hi > MAX_TICK { return; }
        let (a, b) = (price_at(lo), price_at(hi));
        let cost = |l: u64| if zfo { amt1_w(a, b, l, true) } else { amt0_w(a, b, l, true) };
        let worth = |l: u64| if zfo { amt0_w(a, b, l, true) } else { amt1_w(a, b, l, true) };
        let have = W::from(self.spend(u, &tas[o]));
        let two64 = W::from(u64::MAX) + W::from(1);
        // enough that crossing the range takes more than there can be, and affordable
        let Some(l) = least(1, i64::MAX as u64, |l| worth(l) >= two64 + (two64 >> 5)) else { return };
        let l = l.saturating_add(r.log(20)).saturating_mul(1 + r.n(3)).min(i64::MAX as u64);
        if cost(l) > have { return; }
        let user = self.users[u];
        self.prepare(u, user, pi, lo, hi);
        if self.stop || !self.do_mint(u, user, pi, lo, hi, l) || self.stop { return; }
        self.stat("probe: trades at the edge");
        let limit = if zfo { a - 1 } else { b + 1 };
        if !(MIN_P < limit && limit < MAX_P) { return; }
        let exact_in = r.p(1, 4);
        let p = self.m.pools[pi].clone();
        let prot = self.m.protocol;
        let sign = |x: u64| if exact_in { x as i64 } else { -(x as i64) };
        let kind = |x: u64| match p.predict_swap(prot, zfo, sign(x), limit, MAX_STEPS) { Ok(_) => 0, Err(SwapErr::Range("i64" | "total in" | "total out")) => 1, Err(e) if e.inexpressible() => 2, Err(_) => 0 };
        let mut try_: Vec<u64> = vec![];
        for k in [1, 2] {
            if let Some(x) = least(1, i64::MAX as u64, |x| kind(x) >= k) {
                try_.extend([x.saturating_sub(1).max(1), x, x.saturating_add(r.log(30)).min(i64::MAX as u64)]);
                self.stat(if k == 1 { "edge: trades beyond i64" } else { "edge: trades beyond u64" });
            }
        }
        try_.push(i64::MAX as u64);
        for x in try_ {
            if self.stop { return; }
            let rest = self.m.pools[pi].walk_rest(zfo, limit, 20);
            let ix = ix_swap(user, tas[i], tas[o], &self.id(pi), zfo, sign(x), limit, self.last(pi), PROG, rest);
            self.cur = format!("unpaid Swap pool{} zfo={} {}", pi, zfo, sign(x));
            self.unpaid(&ix, 9, &[user], "trade that its callback does not pay: swap");
            if self.stop { return; }
            self.fork(|w| w.do_swap(u, pi, zfo, sign(x), limit));
            if exact_in && !self.stop { self.fork(|w| w.do_router_single(u, pi, zfo, i64::MAX, x, 0, limit)); }
        }
    }
}
/// what a user can get at, from the raw accounts
#[derive(Clone, PartialEq, Debug, Default)]
struct Claim { liq: u64, owed: [W; 2], pool: usize, growth: [u64; 2] }

impl World {
    pub fn snapshot(&self, pi: usize, lo: i32, hi: i32) -> Option<(i64, u64, u32)> {
        use cyclos_core::states::{oracle::ObservationState, pool::PoolState, tick::TickState};
        fn get<T: Copy>(b: &Bank, k: &K) -> Option<T> {
            let d = b.data(k);
            if d.len() != 8 + std::mem::size_of::<T>() { return None; }
            Some(unsafe { std::ptr::read_unaligned(d[8..].as_ptr() as *const T) })
        }
        let id = &self.m.pools[pi].id;
        let rp = r_pool(&self.b, &id.key)?;
        let p: PoolState = get(&self.b, &id.key)?;
        let l: TickState = get(&self.b, &id.tick(lo))?;
        let u: TickState = get(&self.b, &id.tick(hi))?;
        let o: ObservationState = get(&self.b, &id.obs(rp.oi))?;
        set_now(self.b.now);
        let s = p.snapshot_cumulatives_inside(&l, &u, &o);
        Some((s.tick_cumulative_inside, s.seconds_per_liquidity_inside_x32, s.seconds_inside))
    }
    fn claims(&self, not: &[K]) -> BTreeMap<String, Claim> {
        let mut v = BTreeMap::new();
        for (pi, p) in self.m.pools.iter().enumerate() {
            let Some(rp) = r_pool(&self.b, &p.id.key) else { continue };
            for k in &self.known_pos[pi] {
                if not.contains(&k.0) || k.0 == factory() { continue; }
                if let Some(r) = r_pos(&self.b, &p.id.pos(&k.0, k.1, k.2)) {
                    let d = raw_delta(&self.b, &p.id, &rp, k.1, k.2, &r);
                    v.insert(format!("pool{} {}..{} of {}", pi, k.1, k.2, short(&k.0)), Claim { liq: r.liq, owed: [w(r.owed[0]) + (w(d[0]) * w(r.liq) >> 32), w(r.owed[1]) + (w(d[1]) * w(r.liq) >> 32)], pool: pi, growth: d });
                }
            }
        }
        for (n, x) in self.m.nfts.iter().enumerate() {
            let h = self.b.get(&self.nft_at[n]).and_then(tk_of);
            let mine = h.map(|t| not.contains(&t.owner) || t.delegate.map(|d| not.contains(&d)).unwrap_or(false)).unwrap_or(false);
            if mine { continue; }
            let id = &self.m.pools[x.pool].id;
            if let (Some(r), Some(rp)) = (r_nft(&self.b, &tpos(&x.mint)), r_pool(&self.b, &id.key)) {
                let mut o = [w(r.owed[0]), w(r.owed[1])];
                let mut g = [0; 2];
                if let Some(ins) = raw_inside(&self.b, id, &rp, x.lo, x.hi) {
                    if r.liq > 0 { for j in 0..2 { g[j] = ins[j].wrapping_sub(r.last[j]); o[j] = o[j] + (w(g[j]) * w(r.liq) >> 32); } }
                }
                v.insert(format!("nft{}", n), Claim { liq: r.liq, owed: o, pool: x.pool, growth: g });
            }
        }
        v
    }
    /// runs anything at all and watches that nobody but its signers is affected
    pub fn judge_hostile(&mut self, ix: Ix, signers: Vec<K>, extra: Vec<(K, Acct)>, what: &str) {
        let mut b = self.b.clone();
        for (k, a) in extra { b.put(k, a); }
        let before = b.clone();
        let mut sg = signers.clone();
        for m in &ix.metas { if m.s && !sg.contains(&m.k) && self.users.contains(&m.k) && false { sg.push(m.k); } }
        let r = b.tx(&[ix.clone()], &sg);
        let name = name_of_ix(&ix);
        let Ok(tx) = r else { self.stat("malformed: refused"); return };
        self.stat("malformed: accepted and judged");
        let n = self.finds.len() + self.other.values().sum::<u64>() as usize;
        let c0 = { let save = std::mem::replace(&mut self.b, before.clone()); let c = self.claims(&sg); let _ = std::mem::replace(&mut self.b, save); c };
        let mut c = self.clone();
        c.b = b;
        c.cur = format!("malformed {} ({}) after {}", name, what, self.cur);
        c.log.push(c.cur.clone());
        // one more pool or NFT may legitimately exist now; the monitors look at the known ones
        c.authority(&before, &[ix.clone()], &sg, &tx);
        c.invariants();
        let c1 = c.claims(&sg);
        for (k, a) in &c0 {
            match c1.get(k) {
                None => c.bad(&["C33"], format!("claim of {} disappeared", k)),
                Some(x) => {
                    if x.liq < a.liq && !(x.liq == 0 && false) { c.bad(&["C33"], format!("liquidity of {} fell from {} to {}", k, a.liq, x.liq)); }
                    for i in 0..2 { if x.owed[i] < a.owed[i] {
                        // fees beyond 2^32 tokens per unit of liquidity wrap; that takes a payment at least this large
                        let v = c.m.pools[a.pool].id.v[i];
                        let paid = c.bal(&v).saturating_sub(before.get(&v).and_then(tk_of).map(|t| t.amount).unwrap_or(0));
                        if paid as u128 >= ((1u128 << 64) - a.growth[i] as u128) >> 32 { c.stat("malformed: fee growth may have wrapped"); continue; } 
                        c.bad(&["C33"], format!("claim of {} on token {} fell from {} to {}", k, i, a.owed[i], x.owed[i]));
                    } }
                }
            }
        }
        // no pool is left unusable for the others
        for pi in 0..c.m.pools.len() {
            let k = c.m.pools[pi].id.key;
            match (r_pool(&before, &k), r_pool(&c.b, &k)) {
                (Some(a), Some(z)) => {
                    if a.unlocked == 1 && z.unlocked != 1 { c.bad(&["C33"], format!("pool{} left locked", pi)); }
                    if (a.t, a.fee, a.spacing) != (z.t, z.fee, z.spacing) || z.on < a.on || z.oc < a.oc { c.bad(&["C33"], format!("pool{} overwritten", pi)); }
                }
                (Some(_), None) => c.bad(&["C33"], format!("pool{} disappeared", pi)),
                _ => {}
            }
        }
        // administration only by the owner
        if let (Some(f0), Some(f1)) = (r_factory(&before), r_factory(&c.b)) {
            if f0 != f1 && !sg.contains(&f0.0) { c.bad(&["C33", "C15"], "factory changed without the owner's signature".into()); }
        }
        let _ = n;
        self.finds = c.finds;
        self.stop = c.stop;
        self.other = c.other;
        self.stats = c.stats;
        self.states = c.states;
        if self.stop { self.log = c.log; }
    }
}
