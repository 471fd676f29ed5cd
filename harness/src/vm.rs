//! A small host-side Solana runtime: it executes the real program entrypoints (the pool program,
//! SPL token, associated token, metaplex metadata, a system program) natively, with cross-program
//! invocation, PDA signatures, privilege checks and the account-modification rules of the chain.
//! Account buffers are exact-size heap blocks, so AddressSanitizer sees every out-of-range access.
use solana_program::{
    account_info::AccountInfo, clock::Clock, entrypoint::ProgramResult, instruction::Instruction,
    program_error::ProgramError, pubkey::Pubkey, rent::Rent,
};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;

pub type K = Pubkey;

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Acct {
    pub lamports: u64,
    pub data: Vec<u8>,
    pub owner: K,
    pub exec: bool,
}
impl Acct {
    pub fn empty() -> Acct {
        Acct { lamports: 0, data: vec![], owner: sys_id(), exec: false }
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Meta {
    pub k: K,
    pub s: bool,
    pub w: bool,
}
pub fn ro(k: K) -> Meta { Meta { k, s: false, w: false } }
pub fn rw(k: K) -> Meta { Meta { k, s: false, w: true } }
pub fn sg(k: K) -> Meta { Meta { k, s: true, w: false } }
pub fn sw(k: K) -> Meta { Meta { k, s: true, w: true } }

#[derive(Clone, Debug)]
pub struct Ix {
    pub prog: K,
    pub metas: Vec<Meta>,
    pub data: Vec<u8>,
}

pub fn sys_id() -> K { solana_program::system_program::id() }

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum TxErr {
    Program(String),
    Panic(String),
    Rule(String),
}

#[derive(Clone, Debug, Default)]
pub struct TxOk {
    /// raw event payloads, in order, emitted by the program under test
    pub events: Vec<Vec<u8>>,
    /// accounts whose stored state differs after the transaction: key -> (before, after)
    pub changed: BTreeMap<K, (Option<Rc<Acct>>, Option<Rc<Acct>>)>,
    pub cpis: u32,
    /// the raw contents of the accounts watched (see `watch`) whenever the program under test called another program
    pub seen: Vec<(K, Vec<K>, K, Vec<u8>)>,
}
pub type TxRes = Result<TxOk, TxErr>;

#[derive(Clone)]
pub struct Bank {
    pub a: BTreeMap<K, Rc<Acct>>,
    pub now: i64,
}

pub type HProg = Rc<dyn Fn(&K, &[AccountInfo], &[u8]) -> ProgramResult>;

struct Frame {
    program: K,
    privs: HashMap<K, (bool, bool)>,
    pre: HashMap<K, Acct>,
    /// where each account's bytes live (a program may shorten its own view of them)
    mem: HashMap<K, (usize, usize)>,
}
impl Frame {
    fn bytes(&self, k: &K) -> Vec<u8> { let (p, n) = self.mem[k]; unsafe { std::slice::from_raw_parts(p as *const u8, n) }.to_vec() }
}
#[derive(Default)]
struct Tx {
    work: HashMap<K, Acct>,
    stack: Vec<Frame>,
    events: Vec<Vec<u8>>,
    abort: Option<String>,
    cpis: u32,
    arena: Vec<Box<[u8]>>,
    seen: Vec<(K, Vec<K>, K, Vec<u8>)>,
}

thread_local! {
    static WATCH: RefCell<Vec<K>> = RefCell::new(vec![]);
    static TX: RefCell<Tx> = RefCell::new(Tx::default());
    static BASE: RefCell<Option<Bank>> = RefCell::new(None);
    static NOW: Cell<i64> = Cell::new(0);
    static REENTRANCY_OK: Cell<bool> = Cell::new(false);
    static HOSTILE: RefCell<HashMap<K, HProg>> = RefCell::new(HashMap::new());
    pub static EXECS: Cell<u64> = Cell::new(0);
}

pub fn allow_reentrancy(on: bool) { REENTRANCY_OK.with(|r| r.set(on)) }
pub fn set_hostile(id: K, p: HProg) { HOSTILE.with(|h| { h.borrow_mut().insert(id, p); }) }
/// accounts whose contents are recorded at each call the program under test makes to another program
pub fn watch(k: Vec<K>) { WATCH.with(|w| *w.borrow_mut() = k); }
pub fn clear_hostile() { HOSTILE.with(|h| h.borrow_mut().clear()) }

struct Stubs;
impl solana_program::program_stubs::SyscallStubs for Stubs {
    fn sol_log(&self, m: &str) {
        // anchor 0.22 logs an event as the base64 of its discriminator and fields
        let me = TX.with(|t| t.borrow().stack.last().map(|f| f.program));
        if me != Some(cyclos_core::ID) || m.len() < 12 { return; }
        if let Some(d) = b64(m) {
            if d.len() >= 8 && EVENT_DISCS.with(|e| e.contains(&d[..8])) { TX.with(|t| t.borrow_mut().events.push(d)); }
        }
    }
    fn sol_log_compute_units(&self) {}
    fn sol_invoke_signed(&self, ix: &Instruction, infos: &[AccountInfo], seeds: &[&[&[u8]]]) -> ProgramResult {
        cpi(ix, infos, seeds)
    }
    fn sol_get_clock_sysvar(&self, var: *mut u8) -> u64 {
        let c = Clock { unix_timestamp: NOW.with(|n| n.get()), slot: 1, epoch_start_timestamp: 0, epoch: 0, leader_schedule_epoch: 0 };
        unsafe { *(var as *mut Clock) = c };
        0
    }
    fn sol_get_rent_sysvar(&self, var: *mut u8) -> u64 {
        unsafe { *(var as *mut Rent) = Rent::default() };
        0
    }
    fn sol_log_data(&self, fields: &[&[u8]]) {
        TX.with(|t| {
            let mut t = t.borrow_mut();
            let me = t.stack.last().map(|f| f.program);
            if me == Some(cyclos_core::ID) {
                t.events.push(fields.concat());
            }
        })
    }
}

pub const EVENTS: [&str; 14] = ["OwnerChanged", "SetFeeProtocolEvent", "FeeAmountEnabled", "PoolCreatedAndInitialized", "CollectProtocolEvent", "SwapEvent", "MintEvent", "BurnEvent",
    "CollectEvent", "IncreaseLiquidityEvent", "DecreaseLiquidityEvent", "CollectTokenizedEvent", "IncreaseObservationCardinalityNext", "ProtocolFeeChanged"];
thread_local! {
    static EVENT_DISCS: HashSet<Vec<u8>> = EVENTS.iter().map(|n| solana_program::hash::hash(format!("event:{}", n).as_bytes()).to_bytes()[..8].to_vec()).collect();
}
fn b64(s: &str) -> Option<Vec<u8>> {
    let (mut out, mut acc, mut n) = (vec![], 0u32, 0);
    for c in s.trim_end_matches('=').bytes() {
        let v = match c { b'A'..=b'Z' => c - b'A', b'a'..=b'z' => c - b'a' + 26, b'0'..=b'9' => c - b'0' + 52, b'+' => 62, b'/' => 63, _ => return None };
        acc = acc << 6 | v as u32;
        n += 6;
        if n >= 8 { n -= 8; out.push((acc >> n) as u8); acc &= (1 << n) - 1; }
    }
    Some(out)
}
pub fn set_now(t: i64) { NOW.with(|n| n.set(t)) }
pub fn install() {
    solana_program::program_stubs::set_syscall_stubs(Box::new(Stubs));
}

pub fn rent_min(space: usize) -> u64 { Rent::default().minimum_balance(space) }

fn load(k: &K) -> Acct {
    if let Some(a) = TX.with(|t| t.borrow().work.get(k).cloned()) {
        return a;
    }
    BASE.with(|b| b.borrow().as_ref().unwrap().a.get(k).map(|a| (**a).clone()))
        .unwrap_or_else(Acct::empty)
}

/// Memory of one account inside one invocation frame.
struct Cellar {
    key: K,
    owner: K,
    lamports: u64,
    data: Box<[u8]>,
}

fn check_rules(prog: &K, writable: bool, pre: &Acct, lam: u64, data: &[u8], owner: &K) -> Result<(), String> {
    let same_data = pre.data == data;
    if pre.owner != *owner {
        if !writable || pre.owner != *prog || data.iter().any(|b| *b != 0) {
            return Err("ModifiedProgramId".into());
        }
    }
    if lam < pre.lamports && pre.owner != *prog {
        return Err("ExternalAccountLamportSpend".into());
    }
    if lam != pre.lamports && (!writable || pre.exec) {
        return Err("ReadonlyLamportChange".into());
    }
    if data.len() != pre.data.len() && !(*prog == sys_id() && pre.owner == *prog) {
        return Err(format!("AccountDataSizeChanged {} {} {}", pre.data.len(), data.len(), prog));
    }
    if !same_data {
        if !writable || pre.exec {
            return Err("ReadonlyDataModified".into());
        }
        if pre.owner != *prog {
            return Err("ExternalAccountDataModified".into());
        }
    }
    Ok(())
}

fn run(prog: &K, infos: &[AccountInfo], data: &[u8]) -> ProgramResult {
    // every info points into frame memory that outlives the call
    let infos: &'static [AccountInfo<'static>] = unsafe { std::mem::transmute(infos) };
    let prog_s: &'static K = unsafe { std::mem::transmute(prog) };
    if *prog == cyclos_core::ID {
        cyclos_core::entry(prog, infos, data)
    } else if *prog == spl_token::ID {
        spl_token::processor::Processor::process(prog, infos, data)
    } else if *prog == spl_associated_token_account::ID {
        spl_associated_token_account::processor::process_instruction(prog, infos, data)
    } else if *prog == metaplex_token_metadata::ID {
        metaplex_token_metadata::processor::process_instruction(prog_s, infos, data)
    } else if *prog == sys_id() {
        system(infos, data)
    } else {
        let h = HOSTILE.with(|h| h.borrow().get(prog).cloned());
        match h {
            Some(p) => p(prog, infos, data),
            None => Err(ProgramError::IncorrectProgramId),
        }
    }
}

fn exec(prog: &K, metas: &[Meta], data: &[u8]) -> Result<(), String> {
    EXECS.with(|e| e.set(e.get() + 1));
    // merge privileges of duplicates
    let mut privs: HashMap<K, (bool, bool)> = HashMap::new();
    let mut order: Vec<K> = vec![];
    for m in metas {
        let e = privs.entry(m.k).or_insert_with(|| { order.push(m.k); (false, false) });
        e.0 |= m.s;
        e.1 |= m.w;
    }
    let mut cells: Vec<Box<Cellar>> = vec![];
    let mut pre = HashMap::new();
    let mut sum_pre: u128 = 0;
    let mut exec_flag = vec![];
    for k in &order {
        let a = load(k);
        sum_pre += a.lamports as u128;
        exec_flag.push(a.exec);
        cells.push(Box::new(Cellar { key: *k, owner: a.owner, lamports: a.lamports, data: a.data.clone().into_boxed_slice() }));
        pre.insert(*k, a);
    }
    let _ = sum_pre;
    let mut infos: Vec<AccountInfo<'static>> = vec![];
    for (i, c) in cells.iter_mut().enumerate() {
        let (s, w) = privs[&c.key];
        let c: &'static mut Cellar = unsafe { &mut *(c.as_mut() as *mut Cellar) };
        infos.push(AccountInfo {
            key: &c.key,
            is_signer: s,
            is_writable: w,
            lamports: Rc::new(RefCell::new(&mut c.lamports)),
            data: Rc::new(RefCell::new(&mut c.data)),
            owner: &c.owner,
            executable: exec_flag[i],
            rent_epoch: 0,
        });
    }
    let idx: HashMap<K, usize> = order.iter().enumerate().map(|(i, k)| (*k, i)).collect();
    let passed: Vec<AccountInfo<'static>> = metas.iter().map(|m| infos[idx[&m.k]].clone()).collect();
    let mem = cells.iter_mut().map(|c| (c.key, (c.data.as_mut_ptr() as usize, c.data.len()))).collect();
    TX.with(|t| t.borrow_mut().stack.push(Frame { program: *prog, privs, pre, mem }));
    let pid = *prog;
    let r = run(&pid, &passed, data);
    drop(passed);
    let frame = TX.with(|t| t.borrow_mut().stack.pop().unwrap());
    if let Some(e) = TX.with(|t| t.borrow().abort.clone()) {
        return Err(e);
    }
    r.map_err(|e| format!("{:?}", e))?;
    let mut d: i128 = 0;
    for info in &infos {
        let k = *info.key;
        let p = &frame.pre[&k];
        let lam = **info.lamports.borrow();
        let dat = frame.bytes(&k);
        check_rules(prog, frame.privs[&k].1, p, lam, &dat, info.owner).map_err(|e| format!("rule {} {}", e, k))?;
        d += lam as i128 - p.lamports as i128;
        let na = Acct { lamports: lam, data: dat.to_vec(), owner: *info.owner, exec: p.exec };
        TX.with(|t| t.borrow_mut().work.insert(k, na));
    }
    if d != 0 {
        return Err("rule UnbalancedInstruction".into());
    }
    Ok(())
}

fn abort(e: &str) -> ProgramResult {
    TX.with(|t| {
        let mut t = t.borrow_mut();
        if t.abort.is_none() {
            t.abort = Some(e.to_string());
        }
    });
    Err(ProgramError::Custom(0xdead))
}

fn cpi(ix: &Instruction, infos: &[AccountInfo], seeds: &[&[&[u8]]]) -> ProgramResult {
    let (caller, depth) = TX.with(|t| { let t = t.borrow(); (t.stack.last().unwrap().program, t.stack.len()) });
    TX.with(|t| t.borrow_mut().cpis += 1);
    if depth == 1 {
        WATCH.with(|w| for k in w.borrow().iter() {
            TX.with(|t| { let mut t = t.borrow_mut(); if t.stack[0].mem.contains_key(k) { let d = t.stack[0].bytes(k); t.seen.push((ix.program_id, ix.accounts.iter().map(|m| m.pubkey).collect(), *k, d)); } });
        });
    }
    if depth >= 5 {
        return abort("CallDepth");
    }
    let mut pda: HashSet<K> = HashSet::new();
    for s in seeds {
        match Pubkey::create_program_address(s, &caller) {
            Ok(k) => { pda.insert(k); }
            Err(_) => return abort("InvalidSeeds"),
        }
    }
    // reentrancy: only direct self-recursion is allowed
    if !REENTRANCY_OK.with(|r| r.get()) {
        let bad = TX.with(|t| {
            let t = t.borrow();
            ix.program_id != caller && t.stack.iter().any(|f| f.program == ix.program_id)
        });
        if bad {
            return abort("ReentrancyNotAllowed");
        }
    }
    let metas: Vec<Meta> = ix.accounts.iter().map(|m| Meta { k: m.pubkey, s: m.is_signer, w: m.is_writable }).collect();
    let mut seen = HashSet::new();
    // push the caller's view of the accounts
    for m in &metas {
        let p = TX.with(|t| t.borrow().stack.last().unwrap().privs.get(&m.k).cloned());
        let (cs, cw) = match p {
            Some(x) => x,
            None => return abort("MissingAccount"),
        };
        if m.s && !cs && !pda.contains(&m.k) {
            return abort("PrivilegeEscalation signer");
        }
        if m.w && !cw {
            return abort("PrivilegeEscalation writable");
        }
        if !seen.insert(m.k) {
            continue;
        }
        let info = match infos.iter().find(|i| *i.key == m.k) {
            Some(i) => i,
            None => return abort("MissingAccount info"),
        };
        let lam = match info.lamports.try_borrow() { Ok(l) => **l, Err(_) => return abort("AccountBorrowFailed") };
        if info.data.try_borrow().is_err() { return abort("AccountBorrowFailed"); }
        let dat: Vec<u8> = TX.with(|t| t.borrow().stack.last().unwrap().bytes(&m.k));
        let r = TX.with(|t| {
            let mut t = t.borrow_mut();
            let f = t.stack.last_mut().unwrap();
            let p = f.pre.get_mut(&m.k).unwrap();
            check_rules(&caller, cw, p, lam, &dat, info.owner)?;
            let na = Acct { lamports: lam, data: dat, owner: *info.owner, exec: p.exec };
            // lamports already moved by the caller are settled against the final sum
            let before = p.lamports;
            *p = na.clone();
            p.lamports = before;
            t.work.insert(m.k, na);
            Ok::<(), String>(())
        });
        if let Err(e) = r {
            return abort(&format!("rule {} {}", e, m.k));
        }
    }
    let lam_before: HashMap<K, u64> = seen.iter().map(|k| (*k, load(k).lamports)).collect();
    if let Err(e) = exec(&ix.program_id, &metas, &ix.data) {
        return abort(&format!("cpi {}: {}", ix.program_id, e));
    }
    // pull the callee's effects back into the caller's frame
    for k in seen {
        let a = load(&k);
        let info = infos.iter().find(|i| *i.key == k).unwrap();
        unsafe {
            let li = info.lamports.as_ptr();
            **li = a.lamports;
            let (mp, mn) = TX.with(|t| t.borrow().stack.last().unwrap().mem[&k]);
            if mn == a.data.len() {
                std::slice::from_raw_parts_mut(mp as *mut u8, mn).copy_from_slice(&a.data);
            } else {
                replace(info, a.data.clone().into_boxed_slice());
            }
            if *info.owner != a.owner {
                set_owner(info, &a.owner);
            }
        }
        TX.with(|t| {
            let mut t = t.borrow_mut();
            let p = t.stack.last_mut().unwrap().pre.get_mut(&k).unwrap();
            let delta = a.lamports as i128 - lam_before[&k] as i128;
            let pl = (p.lamports as i128 + delta).max(0) as u64;
            *p = a.clone();
            p.lamports = pl;
        });
    }
    Ok(())
}

fn set_owner(info: &AccountInfo, o: &K) {
    let p = std::hint::black_box(info.owner as *const K as usize);
    unsafe { std::ptr::write_volatile(p as *mut K, *o) }
}
/// gives the account new bytes in the frame now on top
fn replace(info: &AccountInfo, b: Box<[u8]>) {
    unsafe {
        let di: *mut &mut [u8] = std::mem::transmute(info.data.as_ptr());
        let p = TX.with(|t| {
            let mut t = t.borrow_mut();
            t.arena.push(b);
            let p = t.arena.last_mut().unwrap().as_mut() as *mut [u8];
            t.stack.last_mut().unwrap().mem.insert(*info.key, (p as *mut u8 as usize, p.len()));
            p
        });
        *di = &mut *p;
    }
}
fn resize(info: &AccountInfo, n: usize) { replace(info, vec![0u8; n].into_boxed_slice()) }

fn system(infos: &[AccountInfo], data: &[u8]) -> ProgramResult {
    let bad = Err(ProgramError::InvalidInstructionData);
    if data.len() < 4 {
        return bad;
    }
    let tag = u32::from_le_bytes(data[..4].try_into().unwrap());
    let u = |o: usize| -> Result<u64, ProgramError> {
        data.get(o..o + 8).map(|b| u64::from_le_bytes(b.try_into().unwrap())).ok_or(ProgramError::InvalidInstructionData)
    };
    let get = |i: usize| infos.get(i).ok_or(ProgramError::NotEnoughAccountKeys);
    let alloc = |a: &AccountInfo, n: u64| -> ProgramResult {
        if !a.is_signer { return Err(ProgramError::MissingRequiredSignature); }
        if a.data_len() != 0 || *a.owner != sys_id() { return Err(ProgramError::Custom(0)); }
        if n > 10 * 1024 * 1024 { return Err(ProgramError::Custom(3)); }
        resize(a, n as usize);
        Ok(())
    };
    let assign = |a: &AccountInfo, o: &K| -> ProgramResult {
        if a.owner == o { return Ok(()); }
        if !a.is_signer { return Err(ProgramError::MissingRequiredSignature); }
        set_owner(a, o);
        Ok(())
    };
    let transfer = |f: &AccountInfo, t: &AccountInfo, n: u64| -> ProgramResult {
        if !f.is_signer { return Err(ProgramError::MissingRequiredSignature); }
        if f.data_len() != 0 { return Err(ProgramError::InvalidArgument); }
        if f.lamports() < n { return Err(ProgramError::Custom(1)); }
        if f.key != t.key {
            **f.try_borrow_mut_lamports()? -= n;
            **t.try_borrow_mut_lamports()? += n;
        }
        Ok(())
    };
    match tag {
        0 => {
            let (l, s) = (u(4)?, u(12)?);
            let o = K::new(data.get(20..52).ok_or(ProgramError::InvalidInstructionData)?);
            let (f, t) = (get(0)?, get(1)?);
            if t.lamports() > 0 { return Err(ProgramError::Custom(0)); }
            alloc(t, s)?;
            assign(t, &o)?;
            transfer(f, t, l)
        }
        1 => assign(get(0)?, &K::new(data.get(4..36).ok_or(ProgramError::InvalidInstructionData)?)),
        2 => transfer(get(0)?, get(1)?, u(4)?),
        8 => alloc(get(0)?, u(4)?),
        _ => bad,
    }
}

impl Bank {
    pub fn new() -> Bank { Bank { a: BTreeMap::new(), now: 0 } }
    pub fn get(&self, k: &K) -> Option<&Acct> { self.a.get(k).map(|r| &**r) }
    pub fn data(&self, k: &K) -> &[u8] { self.a.get(k).map(|r| &r.data[..]).unwrap_or(&[]) }
    pub fn put(&mut self, k: K, a: Acct) { self.a.insert(k, Rc::new(a)); }
    pub fn poke<F: FnOnce(&mut Acct)>(&mut self, k: &K, f: F) {
        let mut a = self.a.get(k).map(|a| (**a).clone()).unwrap_or_else(Acct::empty);
        f(&mut a);
        self.a.insert(*k, Rc::new(a));
    }
    /// Executes a transaction atomically; state changes only on success.
    pub fn tx(&mut self, ixs: &[Ix], signers: &[K]) -> TxRes {
        BASE.with(|b| *b.borrow_mut() = Some(Bank { a: std::mem::take(&mut self.a), now: self.now }));
        TX.with(|t| *t.borrow_mut() = Tx::default());
        NOW.with(|n| n.set(self.now));
        let mut res: Result<(), TxErr> = Ok(());
        for ix in ixs {
            if let Some(m) = ix.metas.iter().find(|m| m.s && !signers.contains(&m.k)) {
                res = Err(TxErr::Rule(format!("missing signature {}", m.k)));
                break;
            }
            let r = catch_unwind(AssertUnwindSafe(|| exec(&ix.prog, &ix.metas, &ix.data)));
            match r {
                Ok(Ok(())) => {}
                Ok(Err(e)) => { res = Err(if e.starts_with("rule") { TxErr::Rule(e) } else { TxErr::Program(e) }); break; }
                Err(p) => {
                    let s = p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                    res = Err(TxErr::Panic(s));
                    break;
                }
            }
        }
        let tx = TX.with(|t| std::mem::take(&mut *t.borrow_mut()));
        self.a = BASE.with(|b| b.borrow_mut().take().unwrap().a);
        res?;
        let mut changed = BTreeMap::new();
        for (k, a) in tx.work {
            let before = self.a.get(&k).cloned();
            let after = if a.lamports == 0 { None } else { Some(Rc::new(a)) };
            let same = match (&before, &after) {
                (None, None) => true,
                (Some(x), Some(y)) => **x == **y,
                _ => false,
            };
            if !same {
                match &after {
                    Some(x) => { self.a.insert(k, x.clone()); }
                    None => { self.a.remove(&k); }
                }
                changed.insert(k, (before, after));
            }
        }
        Ok(TxOk { events: tx.events, changed, cpis: tx.cpis, seen: tx.seen })
    }
}
