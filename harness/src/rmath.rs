//! Reference arithmetic: the pool curve in wide integers, independent of the program's libraries.
#![allow(clippy::all)]
use std::sync::OnceLock;
use uint::construct_uint;
construct_uint! { pub struct W(8); }

pub const MIN_TICK: i32 = -221818;
pub const MAX_TICK: i32 = 221818;
pub const MIN_P: u64 = 65537;
pub const MAX_P: u64 = 281472331703918;
pub const Q32: u64 = 1 << 32;

/// Magic factors of the published 64-bit adaptation: 2^64 / 1.0001^(2^(i-1)), in order of i.
const FACT: [u64; 18] = [
    0xfffcb933bd6fb800, 0xfff97272373d4000, 0xfff2e50f5f657000, 0xffe5caca7e10f000, 0xffcb9843d60f7000,
    0xff973b41fa98e800, 0xff2ea16466c9b000, 0xfe5dee046a9a3800, 0xfcbe86c7900bb000, 0xf987a7253ac65800,
    0xf3392b0822bb6000, 0xe7159475a2caf000, 0xd097f3bdfd2f2000, 0xa9f746462d9f8000, 0x70d869a156f31c00,
    0x31be135f97ed3200, 0x9aa508b5b85a500, 0x5d6af8dedc582c,
];

fn compute_price(tick: i32) -> u64 {
    let n = tick.unsigned_abs();
    let mut r: u128 = 1 << 64;
    for (i, f) in FACT.iter().enumerate() {
        if n >> i & 1 == 1 {
            r = if i == 0 { *f as u128 } else { (r * *f as u128) >> 64 };
        }
    }
    if tick > 0 {
        r = u128::MAX / r;
    }
    ((r + (Q32 as u128 - 1)) >> 32) as u64
}

static TABLE: OnceLock<Vec<u64>> = OnceLock::new();
pub fn table() -> &'static [u64] {
    TABLE.get_or_init(|| (MIN_TICK..=MAX_TICK).map(compute_price).collect())
}
pub fn price_at(tick: i32) -> u64 {
    table()[(tick - MIN_TICK) as usize]
}
/// greatest tick whose price does not exceed p
pub fn tick_at(p: u64) -> i32 {
    table().partition_point(|x| *x <= p) as i32 - 1 + MIN_TICK
}

pub fn w(x: u64) -> W { W::from(x) }
fn ceil(n: W, d: W) -> W { (n + d - W::from(1)) / d }
fn fit(x: W) -> Option<u64> { if x > W::from(u64::MAX) { None } else { Some(x.as_u64()) } }

/// token 0 between two sqrt prices for liquidity l, as exact wide integer rounding
pub fn amt0_w(a: u64, b: u64, l: u64, up: bool) -> W {
    let (a, b) = if a > b { (b, a) } else { (a, b) };
    let n = (w(l) << 32) * w(b - a);
    let d = w(a) * w(b);
    if up { ceil(n, d) } else { n / d }
}
pub fn amt1_w(a: u64, b: u64, l: u64, up: bool) -> W {
    let (a, b) = if a > b { (b, a) } else { (a, b) };
    let n = w(l) * w(b - a);
    if up { ceil(n, w(Q32)) } else { n / w(Q32) }
}
pub fn amt0(a: u64, b: u64, l: u64, up: bool) -> Option<u64> { fit(amt0_w(a, b, l, up)) }
pub fn amt1(a: u64, b: u64, l: u64, up: bool) -> Option<u64> { fit(amt1_w(a, b, l, up)) }
pub fn muldiv(a: u64, b: u64, d: u64) -> Option<u64> { fit(w(a) * w(b) / w(d)) }
pub fn muldiv_up(a: u64, b: u64, d: u64) -> Option<u64> { fit(ceil(w(a) * w(b), w(d))) }

/// price reached when `amt` of the input token is added (never past the exact price)
pub fn next_in(p: u64, l: u64, amt: u64, zfo: bool) -> Option<u64> {
    if zfo {
        if amt == 0 { return Some(p); }
        let num = w(l) << 32;
        let prod = w(amt) * w(p);
        if prod <= w(u64::MAX) {
            fit(ceil(num * w(p), num + prod))
        } else {
            fit(ceil(num, num / w(p) + w(amt)))
        }
    } else {
        let q = fit(w(amt) * w(Q32) / w(l))?;
        p.checked_add(q)
    }
}
/// price reached when `amt` of the output token is removed
pub fn next_out(p: u64, l: u64, amt: u64, zfo: bool) -> Option<u64> {
    if zfo {
        let q = fit(ceil(w(amt) * w(Q32), w(l)))?;
        if q >= p { None } else { Some(p - q) }
    } else {
        if amt == 0 { return Some(p); }
        let num = w(l) << 32;
        let prod = w(amt) * w(p);
        if prod >= num { return None; }
        fit(ceil(num * w(p), num - prod))
    }
}

#[derive(Clone, Debug, Default)]
pub struct StepR {
    pub p0: u64,
    pub p1: u64,
    pub tick: i32,
    pub liq: u64,
    pub inn: u64,
    pub out: u64,
    pub fee: u64,
    pub prot: u64,
    pub growth: u64,
}

#[derive(Clone, Debug, Default)]
pub struct SwapR {
    pub steps: Vec<StepR>,
    /// initialized ticks crossed in order
    pub crossed: Vec<i32>,
    /// ordered lookups the client has to supply: bitmap words and ticks
    pub walk: Vec<Look>,
    pub price: u64,
    pub tick: i32,
    pub liq: u64,
    pub total_in: u64,
    pub total_out: u64,
    pub prot: u64,
    pub growth: u64,
    /// some step's full width takes more than an amount can be
    pub beyond: bool,
}
impl SwapErr {
    /// tokens would have to move that no amount can express
    pub fn inexpressible(&self) -> bool { matches!(self, SwapErr::Range("input" | "output" | "fee" | "in+fee" | "i64" | "total in" | "total out")) }
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Look {
    Word(i16),
    Tick(i32),
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum SwapErr {
    Zero,
    Limit,
    /// arithmetic outside the representable range: the outcome is not predicted
    Range(&'static str),
    TooLong,
}

pub struct SwapIn<'a> {
    pub price: u64,
    pub tick: i32,
    pub liq: u64,
    pub fee: u32,
    pub spacing: u16,
    pub prot_den: u8,
    /// initialized ticks -> net liquidity
    pub net: &'a dyn Fn(i32, bool) -> Option<(i32, i64)>,
    pub word_exists: &'a dyn Fn(i16) -> bool,
    pub max_steps: usize,
}

pub fn step(p: u64, target: u64, l: u64, rem: i64, fee: u32) -> Option<(u64, u64, u64, u64)> {
    step_beyond(p, target, l, rem, fee).ok().filter(|x| !x.1).map(|x| x.0)
}
/// One price step, and whether going all the way to the target takes more than an amount can be,
/// for which the step may be refused although what it really does is within range.
pub fn step_beyond(p: u64, target: u64, l: u64, rem: i64, fee: u32) -> Result<((u64, u64, u64, u64), bool), &'static str> {
    let zfo = p >= target;
    let d = 1_000_000u64;
    let fin = |p1: u64, up: bool| if zfo { amt0(p1, p, l, up) } else { amt1(p, p1, l, up) };
    let fout = |p1: u64, up: bool| if zfo { amt1(p1, p, l, up) } else { amt0(p, p1, l, up) };
    if rem >= 0 {
        let less = muldiv(rem as u64, d - fee as u64, d).ok_or("step")?;
        let full = fin(target, true);
        let p1 = match full { Some(f) if less >= f => target, _ => next_in(p, l, less, zfo).ok_or("step")? };
        let inn = fin(p1, true).ok_or("input")?;
        let out = fout(p1, false).ok_or("output")?;
        let f = if p1 != target { (rem as u64).checked_sub(inn).ok_or("step")? } else { muldiv_up(inn, fee as u64, d - fee as u64).ok_or("fee")? };
        Ok(((p1, inn, out, f), full.is_none()))
    } else {
        let want = rem.unsigned_abs();
        let full = fout(target, false);
        let p1 = match full { Some(f) if want >= f => target, _ => next_out(p, l, want, zfo).ok_or("step")? };
        let inn = fin(p1, true).ok_or("input")?;
        let out = fout(p1, false).ok_or("output")?.min(want);
        let f = muldiv_up(inn, fee as u64, d - fee as u64).ok_or("fee")?;
        Ok(((p1, inn, out, f), full.is_none()))
    }
}

/// The reference swap: walks the curve range by range (and bitmap word by bitmap word, since each
/// word edge is a price step of its own) and returns what must happen.
pub fn swap(s: &SwapIn, zfo: bool, amount: i64, limit: u64) -> Result<SwapR, SwapErr> {
    if amount == 0 {
        return Err(SwapErr::Zero);
    }
    if zfo && !(limit < s.price && limit > MIN_P) || !zfo && !(limit > s.price && limit < MAX_P) {
        return Err(SwapErr::Limit);
    }
    let mut r = SwapR { price: s.price, tick: s.tick, liq: s.liq, ..Default::default() };
    let mut rem = amount;
    let sp = s.spacing as i32;
    let mut cached: Option<i16> = None;
    while rem != 0 && r.price != limit {
        if r.steps.len() >= s.max_steps {
            return Err(SwapErr::TooLong);
        }
        let mut comp = r.tick.div_euclid(sp);
        if !zfo {
            comp += 1;
        }
        let word = comp >> 8;
        if cached != Some(word as i16) {
            r.walk.push(Look::Word(word as i16));
            cached = if (s.word_exists)(word as i16) { Some(word as i16) } else { None };
        }
        let edge = if zfo { word << 8 } else { (word << 8) + 255 };
        // nearest initialized tick in this word
        let (mut next, init) = match (s.net)(comp * sp, zfo) {
            Some((t, _)) if (zfo && t.div_euclid(sp) >= edge) || (!zfo && t.div_euclid(sp) <= edge) => (t, true),
            _ => (edge * sp, false),
        };
        next = next.clamp(MIN_TICK, MAX_TICK);
        let pn = price_at(next);
        let target = if (zfo && pn < limit) || (!zfo && pn > limit) { limit } else { pn };
        let p0 = r.price;
        let ((p1, inn, out, fee), beyond) = step_beyond(p0, target, r.liq, rem, s.fee).map_err(SwapErr::Range)?;
        r.beyond |= beyond;
        let gross_in = inn.checked_add(fee).ok_or(SwapErr::Range("in+fee"))?;
        if gross_in > i64::MAX as u64 || out > i64::MAX as u64 {
            return Err(SwapErr::Range("i64"));
        }
        rem = if amount > 0 { rem - gross_in as i64 } else { rem + out as i64 };
        let prot = if s.prot_den > 0 { fee / s.prot_den as u64 } else { 0 };
        let lp = fee - prot;
        let growth = if r.liq > 0 { muldiv(lp, Q32, r.liq).ok_or(SwapErr::Range("growth"))? } else { 0 };
        r.total_in = r.total_in.checked_add(gross_in).filter(|x| *x <= i64::MAX as u64).ok_or(SwapErr::Range("total in"))?;
        r.total_out = r.total_out.checked_add(out).filter(|x| *x <= i64::MAX as u64).ok_or(SwapErr::Range("total out"))?;
        r.prot = r.prot.wrapping_add(prot);
        r.growth = r.growth.wrapping_add(growth);
        r.steps.push(StepR { p0, p1, tick: r.tick, liq: r.liq, inn, out, fee, prot, growth });
        r.price = p1;
        if p1 == pn {
            if init {
                let (t, net) = (s.net)(comp * sp, zfo).unwrap();
                r.walk.push(Look::Tick(t));
                r.crossed.push(t);
                let d = if zfo { -(net as i128) } else { net as i128 };
                let nl = r.liq as i128 + d;
                if nl < 0 || nl > u64::MAX as i128 {
                    return Err(SwapErr::Range("liquidity"));
                }
                r.liq = nl as u64;
            }
            r.tick = if zfo { next - 1 } else { next };
        } else if p1 != p0 {
            r.tick = tick_at(p1);
        }
    }
    Ok(r)
}

/// Liquidity bought by the desired amounts (the documented formula).
pub fn liq_for(p: u64, a: u64, b: u64, d0: u64, d1: u64) -> Option<u64> {
    let l0 = |x: u64, y: u64| -> Option<u64> { let m = muldiv(x, y, Q32)?; muldiv(d0, m, y - x) };
    let l1 = |x: u64, y: u64| muldiv(d1, Q32, y - x);
    if p <= a { l0(a, b) } else if p < b { Some(l0(p, b)?.min(l1(a, p)?)) } else { l1(a, b) }
}

/// token amounts for a liquidity change at the given tick/price
pub fn amounts(tick: i32, p: u64, lo: i32, hi: i32, l: u64, up: bool) -> (Option<u64>, Option<u64>) {
    let (a, b) = (price_at(lo), price_at(hi));
    if tick < lo { (amt0(a, b, l, up), Some(0)) }
    else if tick < hi { (amt0(p, b, l, up), amt1(a, p, l, up)) }
    else { (Some(0), amt1(a, b, l, up)) }
}

#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64) -> Rng { let mut r = Rng(seed ^ 0x9e3779b97f4a7c15); r.u(); r.u(); r }
    pub fn u(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        z ^ (z >> 31)
    }
    pub fn n(&mut self, n: u64) -> u64 { if n == 0 { 0 } else { self.u() % n } }
    pub fn i(&mut self, lo: i64, hi: i64) -> i64 { lo + self.n((hi - lo + 1) as u64) as i64 }
    pub fn p(&mut self, num: u64, den: u64) -> bool { self.n(den) < num }
    /// log-uniform in [1, 2^bits)
    pub fn log(&mut self, bits: u32) -> u64 {
        let b = self.n(bits as u64) as u32;
        (1u64 << b) | (self.u() & ((1u64 << b) - 1))
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { &v[self.n(v.len() as u64) as usize] }
    pub fn bytes32(&mut self) -> [u8; 32] {
        let mut b = [0u8; 32];
        for c in b.chunks_mut(8) { c.copy_from_slice(&self.u().to_le_bytes()); }
        b
    }
}
