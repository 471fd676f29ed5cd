//! Instructions, addresses and account layouts written from the raw wire format (not from the
//! program's own client types), so that the monitors observe the program from its boundary.
#![allow(dead_code)]
use crate::vm::*;
use solana_program::hash::hash;
use solana_program::pubkey::Pubkey;
use std::cell::RefCell;
use std::collections::HashMap;

pub const PROG: K = cyclos_core::ID;
pub fn tok() -> K { spl_token::ID }
pub fn ata_prog() -> K { spl_associated_token_account::ID }
pub fn meta_prog() -> K { metaplex_token_metadata::ID }
pub fn rent_id() -> K { solana_program::sysvar::rent::ID }

thread_local! {
    static PDA: RefCell<HashMap<Vec<u8>, K>> = RefCell::new(HashMap::new());
    static DISC: RefCell<HashMap<String, [u8; 8]>> = RefCell::new(HashMap::new());
}
pub fn pda_of(prog: &K, seeds: &[&[u8]]) -> K {
    let mut key = prog.to_bytes().to_vec();
    for s in seeds { key.push(s.len() as u8); key.extend_from_slice(s); }
    if let Some(k) = PDA.with(|p| p.borrow().get(&key).cloned()) { return k; }
    let k = Pubkey::find_program_address(seeds, prog).0;
    PDA.with(|p| {
        let mut p = p.borrow_mut();
        if p.len() > 200_000 { p.clear(); }
        p.insert(key, k);
    });
    k
}
pub fn pda(seeds: &[&[u8]]) -> K { pda_of(&PROG, seeds) }
pub fn ata(owner: &K, mint: &K) -> K { pda_of(&ata_prog(), &[owner.as_ref(), tok().as_ref(), mint.as_ref()]) }
pub fn disc(s: &str) -> [u8; 8] {
    if let Some(d) = DISC.with(|p| p.borrow().get(s).cloned()) { return d; }
    let mut d = [0u8; 8];
    d.copy_from_slice(&hash(s.as_bytes()).to_bytes()[..8]);
    DISC.with(|p| p.borrow_mut().insert(s.to_string(), d));
    d
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct PoolId { pub key: K, pub t: [K; 2], pub fee: u32, pub spacing: u16, pub v: [K; 2] }
impl PoolId {
    pub fn new(t0: K, t1: K, fee: u32, spacing: u16) -> PoolId {
        let key = pda(&[b"p", t0.as_ref(), t1.as_ref(), &fee.to_be_bytes()]);
        PoolId { key, t: [t0, t1], fee, spacing, v: [ata(&key, &t0), ata(&key, &t1)] }
    }
    fn sub(&self, tag: &[u8], rest: &[&[u8]]) -> K {
        let f = self.fee.to_be_bytes();
        let mut s: Vec<&[u8]> = vec![tag, self.t[0].as_ref(), self.t[1].as_ref(), &f];
        s.extend_from_slice(rest);
        pda(&s)
    }
    fn sub_bump(&self, tag: &[u8], rest: &[&[u8]]) -> u8 {
        let f = self.fee.to_be_bytes();
        let mut s: Vec<&[u8]> = vec![tag, self.t[0].as_ref(), self.t[1].as_ref(), &f];
        s.extend_from_slice(rest);
        Pubkey::find_program_address(&s, &PROG).1
    }
    pub fn tick_bump(&self, t: i32) -> u8 { self.sub_bump(b"t", &[&t.to_be_bytes()]) }
    pub fn word_bump(&self, w: i16) -> u8 { self.sub_bump(b"b", &[&w.to_be_bytes()]) }
    pub fn pos_bump(&self, o: &K, lo: i32, hi: i32) -> u8 { self.sub_bump(b"ps", &[o.as_ref(), &lo.to_be_bytes(), &hi.to_be_bytes()]) }
    pub fn obs(&self, i: u16) -> K { self.sub(b"o", &[&i.to_be_bytes()]) }
    pub fn obs_bump(&self, i: u16) -> u8 {
        Pubkey::find_program_address(&[b"o", self.t[0].as_ref(), self.t[1].as_ref(), &self.fee.to_be_bytes(), &i.to_be_bytes()], &PROG).1
    }
    pub fn tick(&self, t: i32) -> K { self.sub(b"t", &[&t.to_be_bytes()]) }
    pub fn word(&self, w: i16) -> K { self.sub(b"b", &[&w.to_be_bytes()]) }
    pub fn word_of(&self, t: i32) -> i16 { (t.div_euclid(self.spacing as i32) >> 8) as i16 }
    pub fn pos(&self, o: &K, lo: i32, hi: i32) -> K { self.sub(b"ps", &[o.as_ref(), &lo.to_be_bytes(), &hi.to_be_bytes()]) }
}
pub fn factory() -> K { pda(&[]) }
pub fn fee_acct(fee: u32) -> K { pda(&[b"f", &fee.to_be_bytes()]) }
pub fn tpos(mint: &K) -> K { pda(&[b"ps", mint.as_ref()]) }
pub fn metadata(mint: &K) -> K { pda_of(&meta_prog(), &[b"metadata", meta_prog().as_ref(), mint.as_ref()]) }

pub struct D(pub Vec<u8>);
impl D {
    pub fn ix(name: &str) -> D { D(disc(&format!("global:{}", name)).to_vec()) }
    pub fn ev(name: &str) -> D { D(disc(&format!("event:{}", name)).to_vec()) }
    pub fn u8(mut self, x: u8) -> D { self.0.push(x); self }
    pub fn u16(mut self, x: u16) -> D { self.0.extend(x.to_le_bytes()); self }
    pub fn i16(mut self, x: i16) -> D { self.0.extend(x.to_le_bytes()); self }
    pub fn u32(mut self, x: u32) -> D { self.0.extend(x.to_le_bytes()); self }
    pub fn i32(mut self, x: i32) -> D { self.0.extend(x.to_le_bytes()); self }
    pub fn u64(mut self, x: u64) -> D { self.0.extend(x.to_le_bytes()); self }
    pub fn i64(mut self, x: i64) -> D { self.0.extend(x.to_le_bytes()); self }
    pub fn k(mut self, x: &K) -> D { self.0.extend(x.as_ref()); self }
    pub fn vec(mut self, x: &[u8]) -> D { self.0.extend((x.len() as u32).to_le_bytes()); self.0.extend(x); self }
}
fn mk(metas: Vec<Meta>, d: D) -> Ix { Ix { prog: PROG, metas, data: d.0 } }

pub fn init_factory(owner: K) -> Ix { mk(vec![sw(owner), rw(factory()), ro(sys_id())], D::ix("init_factory")) }
pub fn set_owner(owner: K, new: K) -> Ix { mk(vec![sg(owner), ro(new), rw(factory())], D::ix("set_owner")) }
pub fn enable_fee(owner: K, fee: u32, sp: u16) -> Ix {
    mk(vec![sw(owner), rw(factory()), rw(fee_acct(fee)), ro(sys_id())], D::ix("enable_fee_amount").u32(fee).u16(sp))
}
pub fn create_pool(creator: K, p: &PoolId, price: u64) -> Ix {
    mk(vec![sw(creator), ro(p.t[0]), ro(p.t[1]), ro(fee_acct(p.fee)), rw(p.key), rw(p.obs(0)), ro(sys_id()), ro(rent_id())],
        D::ix("create_and_init_pool").u64(price))
}
pub fn inc_obs(payer: K, p: &PoolId, from: u16, n: u16) -> Ix {
    let mut m = vec![sw(payer), rw(p.key), ro(sys_id())];
    let mut b = vec![];
    for i in 0..n { m.push(rw(p.obs(from.wrapping_add(i)))); b.push(p.obs_bump(from.wrapping_add(i))); }
    mk(m, D::ix("increase_observation_cardinality_next").vec(&b))
}
/// the same with the slot `odd` at another address that derives from its seeds, of a lower bump
pub fn inc_obs_odd(payer: K, p: &PoolId, from: u16, n: u16, odd: u16) -> Option<Ix> {
    let mut m = vec![sw(payer), rw(p.key), ro(sys_id())];
    let mut b = vec![];
    for i in from..from + n {
        let mut bump = p.obs_bump(i);
        let mut key = p.obs(i);
        if i == odd {
            loop {
                bump = bump.checked_sub(1)?;
                let f = p.fee.to_be_bytes();
                if let Ok(k) = Pubkey::create_program_address(&[b"o", p.t[0].as_ref(), p.t[1].as_ref(), &f, &i.to_be_bytes(), &[bump]], &PROG) { key = k; break; }
            }
        }
        m.push(rw(key));
        b.push(bump);
    }
    Some(mk(m, D::ix("increase_observation_cardinality_next").vec(&b)))
}
pub fn set_fee_protocol(owner: K, x: u8) -> Ix { mk(vec![sg(owner), rw(factory())], D::ix("set_fee_protocol").u8(x)) }
pub fn collect_protocol(owner: K, p: &PoolId, r0: K, r1: K, a0: u64, a1: u64) -> Ix {
    mk(vec![sw(owner), rw(factory()), rw(p.key), rw(p.v[0]), rw(p.v[1]), rw(r0), rw(r1), ro(tok())], D::ix("collect_protocol").u64(a0).u64(a1))
}
pub fn init_tick(signer: K, p: &PoolId, t: i32) -> Ix {
    mk(vec![sw(signer), ro(p.key), rw(p.tick(t)), ro(sys_id())], D::ix("init_tick_account").i32(t))
}
pub fn close_tick(p: &PoolId, t: i32, to: K) -> Ix { mk(vec![rw(p.tick(t)), rw(to)], D::ix("close_tick_account")) }
pub fn init_word(signer: K, p: &PoolId, w: i16) -> Ix {
    mk(vec![sw(signer), ro(p.key), rw(p.word(w)), ro(sys_id())], D::ix("init_bitmap_account").i16(w))
}
pub fn init_pos(signer: K, owner: K, p: &PoolId, lo: i32, hi: i32) -> Ix {
    mk(vec![sw(signer), ro(owner), ro(p.key), ro(p.tick(lo)), ro(p.tick(hi)), rw(p.pos(&owner, lo, hi)), ro(sys_id())], D::ix("init_position_account"))
}
pub fn mint(minter: K, ta: [K; 2], owner: K, p: &PoolId, lo: i32, hi: i32, amt: u64, last: u16, cb: K, rest: Vec<Meta>) -> Ix {
    let mut m = vec![sw(minter), rw(ta[0]), rw(ta[1]), rw(p.v[0]), rw(p.v[1]), ro(owner), rw(p.key), rw(p.tick(lo)), rw(p.tick(hi)),
        rw(p.word(p.word_of(lo))), rw(p.word(p.word_of(hi))), rw(p.pos(&owner, lo, hi)), rw(p.obs(last)), ro(tok()), ro(cb)];
    m.extend(rest);
    mk(m, D::ix("mint").u64(amt))
}
pub fn burn(owner: K, p: &PoolId, lo: i32, hi: i32, amt: u64, last: u16, rest: Vec<Meta>) -> Ix {
    let mut m = vec![sw(owner), rw(p.key), rw(p.tick(lo)), rw(p.tick(hi)), rw(p.word(p.word_of(lo))), rw(p.word(p.word_of(hi))),
        rw(p.pos(&owner, lo, hi)), rw(p.obs(last))];
    m.extend(rest);
    mk(m, D::ix("burn").u64(amt))
}
pub fn collect(owner: K, p: &PoolId, lo: i32, hi: i32, r: [K; 2], a: [u64; 2]) -> Ix {
    mk(vec![sw(owner), rw(p.key), rw(p.tick(lo)), rw(p.tick(hi)), rw(p.pos(&owner, lo, hi)), rw(p.v[0]), rw(p.v[1]), rw(r[0]), rw(r[1]), ro(tok())],
        D::ix("collect").u64(a[0]).u64(a[1]))
}
pub fn ix_swap(signer: K, ta_in: K, ta_out: K, p: &PoolId, zfo: bool, amt: i64, limit: u64, last: u16, cb: K, rest: Vec<Meta>) -> Ix {
    let (i, o) = if zfo { (0, 1) } else { (1, 0) };
    let mut m = vec![sw(signer), rw(ta_in), rw(ta_out), rw(p.v[i]), rw(p.v[o]), ro(tok()), ro(factory()), rw(p.key), rw(p.obs(last)), ro(cb)];
    m.extend(rest);
    mk(m, D::ix("swap").i64(amt).u64(limit))
}
pub fn nft_mint(minter: K, recipient: K, nft: K, p: &PoolId, lo: i32, hi: i32, ta: [K; 2], a: [u64; 4], deadline: i64, last: u16, rest: Vec<Meta>) -> Ix {
    let f = factory();
    let mut m = vec![sw(minter), ro(recipient), ro(f), sw(nft), rw(ata(&recipient, &nft)), rw(p.key), rw(p.pos(&f, lo, hi)), rw(p.tick(lo)), rw(p.tick(hi)),
        rw(p.word(p.word_of(lo))), rw(p.word(p.word_of(hi))), rw(tpos(&nft)), rw(ta[0]), rw(ta[1]), rw(p.v[0]), rw(p.v[1]), rw(p.obs(last)),
        ro(rent_id()), ro(PROG), ro(sys_id()), ro(tok()), ro(ata_prog())];
    m.extend(rest);
    mk(m, D::ix("mint_tokenized_position").u64(a[0]).u64(a[1]).u64(a[2]).u64(a[3]).i64(deadline))
}
pub fn nft_meta(payer: K, nft: K) -> Ix {
    mk(vec![sw(payer), ro(factory()), rw(nft), ro(tpos(&nft)), rw(metadata(&nft)), ro(rent_id()), ro(meta_prog()), ro(tok()), ro(sys_id())], D::ix("add_metaplex_metadata"))
}
pub fn nft_inc(payer: K, nft: K, p: &PoolId, lo: i32, hi: i32, ta: [K; 2], a: [u64; 4], deadline: i64, last: u16, rest: Vec<Meta>) -> Ix {
    let f = factory();
    let mut m = vec![sw(payer), ro(f), rw(tpos(&nft)), rw(p.key), rw(p.pos(&f, lo, hi)), rw(p.tick(lo)), rw(p.tick(hi)), rw(p.word(p.word_of(lo))), rw(p.word(p.word_of(hi))),
        rw(ta[0]), rw(ta[1]), rw(p.v[0]), rw(p.v[1]), rw(p.obs(last)), ro(PROG), ro(tok())];
    m.extend(rest);
    mk(m, D::ix("increase_liquidity").u64(a[0]).u64(a[1]).u64(a[2]).u64(a[3]).i64(deadline))
}
pub fn nft_dec(signer: K, nft_acct: K, nft: K, p: &PoolId, lo: i32, hi: i32, liq: u64, min: [u64; 2], deadline: i64, last: u16, rest: Vec<Meta>) -> Ix {
    let f = factory();
    let mut m = vec![sw(signer), ro(nft_acct), rw(tpos(&nft)), ro(f), rw(p.key), rw(p.pos(&f, lo, hi)), rw(p.tick(lo)), rw(p.tick(hi)),
        rw(p.word(p.word_of(lo))), rw(p.word(p.word_of(hi))), rw(p.obs(last)), ro(PROG)];
    m.extend(rest);
    mk(m, D::ix("decrease_liquidity").u64(liq).u64(min[0]).u64(min[1]).i64(deadline))
}
pub fn nft_collect(signer: K, nft_acct: K, nft: K, p: &PoolId, lo: i32, hi: i32, r: [K; 2], max: [u64; 2], last: u16, rest: Vec<Meta>) -> Ix {
    let f = factory();
    let mut m = vec![sw(signer), ro(nft_acct), rw(tpos(&nft)), ro(f), rw(p.key), rw(p.pos(&f, lo, hi)), rw(p.tick(lo)), rw(p.tick(hi)),
        rw(p.word(p.word_of(lo))), rw(p.word(p.word_of(hi))), rw(p.obs(last)), rw(p.v[0]), rw(p.v[1]), rw(r[0]), rw(r[1]), ro(PROG), ro(tok())];
    m.extend(rest);
    mk(m, D::ix("collect_from_tokenized").u64(max[0]).u64(max[1]))
}
pub fn router_single(signer: K, ta_in: K, ta_out: K, p: &PoolId, zfo: bool, deadline: i64, amt: u64, min: u64, limit: u64, last: u16, rest: Vec<Meta>) -> Ix {
    let (i, o) = if zfo { (0, 1) } else { (1, 0) };
    let mut m = vec![sw(signer), ro(factory()), rw(p.key), rw(ta_in), rw(ta_out), rw(p.v[i]), rw(p.v[o]), rw(p.obs(last)), ro(PROG), ro(tok())];
    m.extend(rest);
    mk(m, D::ix("exact_input_single").i64(deadline).u64(amt).u64(min).u64(limit))
}
#[derive(Clone)]
pub struct Hop { pub p: PoolId, pub zfo: bool, pub out: K, pub last: u16, pub rest: Vec<Meta> }
pub fn router_multi(signer: K, ta_in: K, hops: &[Hop], deadline: i64, amt: u64, min: u64) -> Ix {
    let mut m = vec![sw(signer), ro(factory()), rw(ta_in), ro(PROG), ro(tok())];
    let mut n = vec![];
    for h in hops {
        let (i, o) = if h.zfo { (0, 1) } else { (1, 0) };
        m.extend([rw(h.p.key), rw(h.out), rw(h.p.v[i]), rw(h.p.v[o]), rw(h.p.obs(h.last))]);
        m.extend(h.rest.clone());
        n.push(h.rest.len() as u8);
    }
    mk(m, D::ix("exact_input").i64(deadline).u64(amt).u64(min).vec(&n))
}

pub fn lamports(from: K, to: K, n: u64) -> Ix {
    Ix { prog: sys_id(), metas: vec![sw(from), rw(to)], data: [&2u32.to_le_bytes()[..], &n.to_le_bytes()].concat() }
}
// ---------------------------------------------------------------- SPL token helpers
pub fn tk_transfer(from: K, to: K, auth: K, n: u64) -> Ix {
    Ix { prog: tok(), metas: vec![rw(from), rw(to), sg(auth)], data: [&[3u8][..], &n.to_le_bytes()].concat() }
}
pub fn tk_approve(acct: K, delegate: K, owner: K, n: u64) -> Ix {
    Ix { prog: tok(), metas: vec![rw(acct), ro(delegate), sg(owner)], data: [&[4u8][..], &n.to_le_bytes()].concat() }
}
pub fn tk_closer(acct: K, closer: Option<K>, owner: K) -> Ix {
    let mut data = vec![6u8, 3, closer.is_some() as u8];
    if let Some(k) = closer { data.extend_from_slice(k.as_ref()); }
    Ix { prog: tok(), metas: vec![rw(acct), sg(owner)], data }
}
pub fn tk_revoke(acct: K, owner: K) -> Ix { Ix { prog: tok(), metas: vec![rw(acct), sg(owner)], data: vec![5] } }

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Tk { pub mint: K, pub owner: K, pub amount: u64, pub delegate: Option<K>, pub delegated: u64 }
pub fn tk_of(a: &Acct) -> Option<Tk> {
    if a.owner != tok() || a.data.len() != 165 || a.data[108] == 0 { return None; }
    let d = &a.data;
    Some(Tk {
        mint: K::new(&d[0..32]), owner: K::new(&d[32..64]), amount: u64::from_le_bytes(d[64..72].try_into().unwrap()),
        delegate: if d[72] == 1 { Some(K::new(&d[76..108])) } else { None },
        delegated: u64::from_le_bytes(d[121..129].try_into().unwrap()),
    })
}
pub fn tk_acct(mint: &K, owner: &K, amount: u64) -> Acct {
    let mut d = vec![0u8; 165];
    d[0..32].copy_from_slice(mint.as_ref());
    d[32..64].copy_from_slice(owner.as_ref());
    d[64..72].copy_from_slice(&amount.to_le_bytes());
    d[108] = 1;
    Acct { lamports: rent_min(165), data: d, owner: tok(), exec: false }
}
pub fn mint_acct(auth: &K, supply: u64, dec: u8) -> Acct {
    let mut d = vec![0u8; 82];
    d[0] = 1;
    d[4..36].copy_from_slice(auth.as_ref());
    d[36..44].copy_from_slice(&supply.to_le_bytes());
    d[44] = dec;
    d[45] = 1;
    Acct { lamports: rent_min(82), data: d, owner: tok(), exec: false }
}
/// (supply, mint authority, decimals, freeze authority)
pub fn mint_of(a: &Acct) -> Option<(u64, Option<K>, u8, Option<K>)> {
    if a.owner != tok() || a.data.len() != 82 || a.data[45] == 0 { return None; }
    let d = &a.data;
    let o = |i: usize| if d[i] == 1 { Some(K::new(&d[i + 4..i + 36])) } else { None };
    Some((u64::from_le_bytes(d[36..44].try_into().unwrap()), o(0), d[44], o(46)))
}

// ---------------------------------------------------------------- raw program accounts
pub fn g8(d: &[u8], o: usize) -> u8 { d.get(o).cloned().unwrap_or(0) }
pub fn g16(d: &[u8], o: usize) -> u16 { d.get(o..o + 2).map(|b| u16::from_le_bytes(b.try_into().unwrap())).unwrap_or(0) }
pub fn g32(d: &[u8], o: usize) -> u32 { d.get(o..o + 4).map(|b| u32::from_le_bytes(b.try_into().unwrap())).unwrap_or(0) }
pub fn g64(d: &[u8], o: usize) -> u64 { d.get(o..o + 8).map(|b| u64::from_le_bytes(b.try_into().unwrap())).unwrap_or(0) }
pub fn gk(d: &[u8], o: usize) -> K { d.get(o..o + 32).map(K::new).unwrap_or_default() }

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct RPool { pub t: [K; 2], pub fee: u32, pub spacing: u16, pub liq: u64, pub price: u64, pub tick: i32, pub oi: u16, pub oc: u16, pub on: u16, pub fg: [u64; 2], pub prot: [u64; 2], pub unlocked: u8 }
#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct RTick { pub tick: i32, pub net: i64, pub gross: u64, pub fo: [u64; 2], pub tc: i64, pub spl: u64, pub sec: u32 }
#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct RPos { pub liq: u64, pub last: [u64; 2], pub owed: [u64; 2] }
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct RNft { pub mint: K, pub pool: K, pub lo: i32, pub hi: i32, pub liq: u64, pub last: [u64; 2], pub owed: [u64; 2] }
#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct RObs { pub idx: u16, pub ts: u32, pub tc: i64, pub spl: u64, pub init: u8 }

fn typed<'a>(b: &'a Bank, k: &K, name: &str, len: usize) -> Option<&'a [u8]> {
    let a = b.get(k)?;
    if a.owner != PROG || a.data.len() != len || a.data[..8] != disc(&format!("account:{}", name)) { return None; }
    Some(&a.data)
}
// The account structs are `repr(packed)` without `repr(C)`, so the compiler chooses the field order;
// the offsets are taken from the compiled types and the values read from raw bytes.
use cyclos_core::states::{factory::FactoryState, fee::FeeState, oracle::ObservationState, pool::PoolState, position::PositionState, tick::TickState, tick_bitmap::TickBitmapState, tokenized_position::TokenizedPositionState};
macro_rules! at { ($t:ty, $f:ident) => { 8 + std::mem::offset_of!($t, $f) } }
pub const UNLOCKED_AT: usize = at!(PoolState, unlocked);
pub const TICK_BUMP_AT: usize = at!(TickState, bump);
pub const WORD_BUMP_AT: usize = at!(TickBitmapState, bump);
pub const POS_BUMP_AT: usize = at!(PositionState, bump);
pub const OBS_BUMP_AT: usize = at!(ObservationState, bump);
pub const OBS_INDEX_AT: usize = at!(ObservationState, index);
pub const OBS_INIT_AT: usize = at!(ObservationState, initialized);
/// index of the latest observation, initialized observations, created observations
pub const RING_AT: [usize; 3] = [at!(PoolState, observation_index), at!(PoolState, observation_cardinality), at!(PoolState, observation_cardinality_next)];
pub fn r_pool(b: &Bank, k: &K) -> Option<RPool> {
    let d = typed(b, k, "PoolState", 8 + std::mem::size_of::<PoolState>())?;
    macro_rules! o { ($f:ident) => { at!(PoolState, $f) } }
    Some(RPool { t: [gk(d, o!(token_0)), gk(d, o!(token_1))], fee: g32(d, o!(fee)), spacing: g16(d, o!(tick_spacing)), liq: g64(d, o!(liquidity)), price: g64(d, o!(sqrt_price_x32)), tick: g32(d, o!(tick)) as i32,
        oi: g16(d, o!(observation_index)), oc: g16(d, o!(observation_cardinality)), on: g16(d, o!(observation_cardinality_next)),
        fg: [g64(d, o!(fee_growth_global_0_x32)), g64(d, o!(fee_growth_global_1_x32))], prot: [g64(d, o!(protocol_fees_token_0)), g64(d, o!(protocol_fees_token_1))], unlocked: g8(d, o!(unlocked)) })
}
pub fn r_tick(b: &Bank, k: &K) -> Option<RTick> {
    let d = typed(b, k, "TickState", 8 + std::mem::size_of::<TickState>())?;
    macro_rules! o { ($f:ident) => { at!(TickState, $f) } }
    Some(RTick { tick: g32(d, o!(tick)) as i32, net: g64(d, o!(liquidity_net)) as i64, gross: g64(d, o!(liquidity_gross)), fo: [g64(d, o!(fee_growth_outside_0_x32)), g64(d, o!(fee_growth_outside_1_x32))],
        tc: g64(d, o!(tick_cumulative_outside)) as i64, spl: g64(d, o!(seconds_per_liquidity_outside_x32)), sec: g32(d, o!(seconds_outside)) })
}
pub fn r_pos(b: &Bank, k: &K) -> Option<RPos> {
    let d = typed(b, k, "PositionState", 8 + std::mem::size_of::<PositionState>())?;
    macro_rules! o { ($f:ident) => { at!(PositionState, $f) } }
    Some(RPos { liq: g64(d, o!(liquidity)), last: [g64(d, o!(fee_growth_inside_0_last_x32)), g64(d, o!(fee_growth_inside_1_last_x32))], owed: [g64(d, o!(tokens_owed_0)), g64(d, o!(tokens_owed_1))] })
}
pub fn r_nft(b: &Bank, k: &K) -> Option<RNft> {
    let d = typed(b, k, "TokenizedPositionState", 8 + std::mem::size_of::<TokenizedPositionState>())?;
    macro_rules! o { ($f:ident) => { at!(TokenizedPositionState, $f) } }
    Some(RNft { mint: gk(d, o!(mint)), pool: gk(d, o!(pool_id)), lo: g32(d, o!(tick_lower)) as i32, hi: g32(d, o!(tick_upper)) as i32, liq: g64(d, o!(liquidity)),
        last: [g64(d, o!(fee_growth_inside_0_last_x32)), g64(d, o!(fee_growth_inside_1_last_x32))], owed: [g64(d, o!(tokens_owed_0)), g64(d, o!(tokens_owed_1))] })
}
pub fn r_obs(b: &Bank, k: &K) -> Option<RObs> {
    let d = typed(b, k, "ObservationState", 8 + std::mem::size_of::<ObservationState>())?;
    macro_rules! o { ($f:ident) => { at!(ObservationState, $f) } }
    Some(RObs { idx: g16(d, o!(index)), ts: g32(d, o!(block_timestamp)), tc: g64(d, o!(tick_cumulative)) as i64, spl: g64(d, o!(seconds_per_liquidity_cumulative_x32)), init: g8(d, o!(initialized)) })
}
pub fn r_word(b: &Bank, k: &K) -> Option<(i16, [u64; 4])> {
    let d = typed(b, k, "TickBitmapState", 8 + std::mem::size_of::<TickBitmapState>())?;
    let w = at!(TickBitmapState, word);
    Some((g16(d, at!(TickBitmapState, word_pos)) as i16, [g64(d, w), g64(d, w + 8), g64(d, w + 16), g64(d, w + 24)]))
}
pub fn r_factory(b: &Bank) -> Option<(K, u8)> {
    let d = typed(b, &factory(), "FactoryState", 8 + std::mem::size_of::<FactoryState>())?;
    Some((gk(d, at!(FactoryState, owner)), g8(d, at!(FactoryState, fee_protocol))))
}
pub fn r_fee(b: &Bank, fee: u32) -> Option<(u32, u16)> {
    let d = typed(b, &fee_acct(fee), "FeeState", 8 + std::mem::size_of::<FeeState>())?;
    Some((g32(d, at!(FeeState, fee)), g16(d, at!(FeeState, tick_spacing))))
}
