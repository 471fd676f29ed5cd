//! Monitors of the arithmetic libraries (C26-C29): the real functions run on exhaustive and
//! adversarially generated operands; every return value (or refusal) is judged by wide-integer
//! reference arithmetic.
#![allow(dead_code)]
#[path = "../report.rs"]
mod report;
#[path = "../rmath.rs"]
mod rmath;
use cyclos_core::libraries::big_num::{U128, U256};
use cyclos_core::libraries::full_math::MulDiv;
use cyclos_core::libraries::unsafe_math::UnsafeMathTrait;
use cyclos_core::libraries::{bit_math, liquidity_amounts as la, liquidity_math, sqrt_price_math as sp, swap_math, tick_math as tm};
use cyclos_core::states::tick_bitmap::{self, TickBitmapState};
use report::*;
use rmath::*;
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::time::Instant;

/// the call's result, or None when it refused by panicking
fn call<T>(f: impl FnOnce() -> T) -> Option<T> { catch_unwind(AssertUnwindSafe(f)).ok() }

type Args = Vec<i128>;
type Case = (&'static str, Args);

fn bad(s: &mut Seen, case: &Case, what: String) {
    if s.viol.len() < 5 {
        let a: Vec<String> = case.1.iter().map(|x| x.to_string()).collect();
        s.viol.push((format!("{}({}): {}", case.0, a.join(","), what), format!("lib {} {}", case.0, a.join(" "))));
    }
}
fn u(x: i128) -> u64 { x as u64 }
fn wide(hi: i128, lo: i128) -> W { (w(u(hi)) << 64) + w(u(lo)) }
fn fits(x: W, bits: usize) -> bool { x.bits() <= bits }
fn ceilw(n: W, d: W) -> W { (n + d - W::from(1)) / d }

// ------------------------------------------------------------------ single-case judges
/// Judges one case against the reference. Returns a class label for coverage counting.
fn judge(c: &Case, s: &mut Seen) -> String {
    s.evals += 1;
    let a = &c.1;
    macro_rules! fail { ($($t:tt)*) => {{ bad(s, c, format!($($t)*)); return format!("{}/bad", c.0); }} }
    match c.0 {
        "price" => {
            let t = a[0] as i32;
            let got = call(|| tm::get_sqrt_ratio_at_tick(t));
            if t < MIN_TICK || t > MAX_TICK {
                if let Some(Ok(p)) = got { fail!("tick out of range accepted, price {}", p) }
                return "price/refused".into();
            }
            match got {
                Some(Ok(p)) => {
                    // exact sqrt(1.0001)^t in Q64 below
                    let e = exact_q64(t);
                    let pw = w(p) << 64;
                    // rounding up to the next unit of 2^-32, plus the relative precision of the
                    // published 64-bit factors (their errors add up to 4.2e-12)
                    let slack = e * W::from(45u64) / W::from(10_000_000_000_000u64) + W::from(2u64);
                    if pw + slack < e { fail!("price {} below sqrt(1.0001^t)", p) }
                    if pw > e + (W::from(1u64) << 64) + slack { fail!("price {} above sqrt(1.0001^t)+1", p) }
                    if t < MAX_TICK {
                        match call(|| tm::get_sqrt_ratio_at_tick(t + 1)) {
                            Some(Ok(q)) if q > p => {}
                            q => fail!("not increasing: next {:?}", q.map(|r| r.ok())),
                        }
                    }
                    if p != price_at(t) { fail!("price {} but the published factors give {}", p, price_at(t)) }
                    if t == MIN_TICK && p != MIN_P || t == MAX_TICK && p != MAX_P { fail!("end price {}", p) }
                    format!("price/{}", t >> 9)
                }
                _ => fail!("tick in range refused"),
            }
        }
        "tick" => {
            let p = u(a[0]);
            let got = call(|| tm::get_tick_at_sqrt_ratio(p));
            if p < MIN_P || p >= MAX_P {
                if let Some(Ok(t)) = got { fail!("price out of range accepted, tick {}", t) }
                return "tick/refused".into();
            }
            match got {
                Some(Ok(t)) => {
                    let lo = call(|| tm::get_sqrt_ratio_at_tick(t)).and_then(|r| r.ok());
                    let hi = if t >= MAX_TICK { None } else { call(|| tm::get_sqrt_ratio_at_tick(t + 1)).and_then(|r| r.ok()) };
                    match (lo, hi) {
                        (Some(l), Some(h)) if l <= p && p < h => {}
                        _ => fail!("tick {} has prices {:?}..{:?}", t, lo, hi),
                    }
                    if t != tick_at(p) { fail!("tick {} but the price lies in tick {}", t, tick_at(p)) }
                    format!("tick/{}/{}", t >> 9, p == lo.unwrap())
                }
                _ => fail!("price in range refused"),
            }
        }
        "muldiv64" => {
            let (x, y, d) = (u(a[0]), u(a[1]), u(a[2]));
            if d == 0 {
                if call(|| x.mul_div_floor(y, d)).flatten().is_some() || call(|| x.mul_div_ceil(y, d)).flatten().is_some() { fail!("division by zero accepted") }
                return "muldiv64/zero".into();
            }
            let (fl, ce) = (call(|| x.mul_div_floor(y, d)).flatten(), call(|| x.mul_div_ceil(y, d)).flatten());
            if fl != muldiv(x, y, d) { fail!("floor {:?} expected {:?}", fl, muldiv(x, y, d)) }
            if ce != muldiv_up(x, y, d) { fail!("ceil {:?} expected {:?}", ce, muldiv_up(x, y, d)) }
            format!("muldiv64/{}/{}/{}/{}", fl.is_none(), fl == ce, x.leading_zeros() / 8, d.leading_zeros() / 8)
        }
        "muldiv128" => {
            let (x, y, d) = (wide(a[0], a[1]), wide(a[2], a[3]), wide(a[4], a[5]));
            let g = |hi: i128, lo: i128| U128([u(lo), u(hi)]);
            let (xx, yy, dd) = (g(a[0], a[1]), g(a[2], a[3]), g(a[4], a[5]));
            let back = |r: Option<U128>| r.map(|r| (w(r.0[1]) << 64) + w(r.0[0]));
            let fl = back(call(|| xx.mul_div_floor(yy, dd)).flatten());
            let ce = back(call(|| xx.mul_div_ceil(yy, dd)).flatten());
            if d.is_zero() {
                if fl.is_some() || ce.is_some() { fail!("division by zero accepted") }
                return "muldiv128/zero".into();
            }
            let cap = |v: W| if fits(v, 128) { Some(v) } else { None };
            let (ef, ec) = (cap(x * y / d), cap(ceilw(x * y, d)));
            if fl != ef { fail!("floor {:?} expected {:?}", fl, ef) }
            if ce != ec { fail!("ceil {:?} expected {:?}", ce, ec) }
            format!("muldiv128/{}/{}/{}/{}", fl.is_none(), fl == ce, x.bits() / 16, d.bits() / 16)
        }
        "divup" => {
            let (x, y) = (u(a[0]), u(a[1]));
            let (xx, yy) = (wide(a[0], a[1]), wide(a[2], a[3]));
            if y != 0 {
                let r = call(|| u64::div_rounding_up(x, y));
                if r.map(w) != Some(ceilw(w(x), w(y))) { fail!("u64 ceil division {:?}", r) }
            }
            if !yy.is_zero() {
                let r = call(|| U128::div_rounding_up(U128([u(a[1]), u(a[0])]), U128([u(a[3]), u(a[2])])));
                let r = r.map(|r| (w(r.0[1]) << 64) + w(r.0[0]));
                if r != Some(ceilw(xx, yy)) { fail!("U128 ceil division {:?}", r) }
            }
            format!("divup/{}/{}", xx.bits() / 16, yy.bits() / 16)
        }
        "adddelta" => {
            let (x, y) = (u(a[0]), a[1] as i64);
            let e = x as i128 + y as i128;
            let got = call(|| liquidity_math::add_delta(x, y)).and_then(|r| r.ok());
            let exp = if e < 0 || e > u64::MAX as i128 { None } else { Some(e as u64) };
            if got != exp { fail!("{:?} expected {:?}", got, exp) }
            format!("adddelta/{}/{}/{}", exp.is_some(), y < 0, x.leading_zeros() / 4)
        }
        "delta0" | "delta1" => {
            let (p, q, l, up) = (u(a[0]), u(a[1]), u(a[2]), a[3] != 0);
            let e = if c.0 == "delta0" { amt0(p, q, l, up) } else { amt1(p, q, l, up) };
            let got = if c.0 == "delta0" { call(|| sp::get_amount_0_delta_unsigned(p, q, l, up)) } else { call(|| sp::get_amount_1_delta_unsigned(p, q, l, up)) };
            if got != e { fail!("{:?} expected {:?}", got, e) }
            // signed form: removing rounds down, adding rounds up
            for sl in [l as i64, (l as i64).wrapping_neg()] {
                if sl == i64::MIN { continue; }
                let r = if c.0 == "delta0" { call(|| sp::get_amount_0_delta_signed(p, q, sl)) } else { call(|| sp::get_amount_1_delta_signed(p, q, sl)) };
                let m = if c.0 == "delta0" { amt0_w(p, q, sl.unsigned_abs(), sl >= 0) } else { amt1_w(p, q, sl.unsigned_abs(), sl >= 0) };
                if fits(m, 63) {
                    let v = m.as_u64() as i64;
                    let ex = if sl < 0 { -v } else { v };
                    if r != Some(ex) { fail!("signed({}) {:?} expected {}", sl, r, ex) }
                } else if !fits(m, 64) && r.is_some() {
                    fail!("signed({}) wrapped to {:?}", sl, r)
                }
            }
            format!("{}/{}/{}/{}/{}", c.0, e.is_some(), up, p.leading_zeros() / 4, l.leading_zeros() / 8)
        }
        "nextin" => {
            let (p, l, amt, zfo) = (u(a[0]), u(a[1]), u(a[2]), a[3] != 0);
            let got = call(|| sp::get_next_sqrt_price_from_input(p, l, amt, zfo));
            if p == 0 || l == 0 {
                if got.is_some() { fail!("zero price or liquidity accepted") }
                return "nextin/zero".into();
            }
            if zfo {
                // exact price L*2^32*p / (L*2^32 + amt*p); the result never lies below it
                let n = w(l) << 32;
                let ex = ceilw(n * w(p), n + w(amt) * w(p));
                if amt == 0 {
                    if got != Some(p) { fail!("{:?} for amount 0", got) }
                } else if fits(w(amt) * w(p), 64) {
                    if got.map(w) != Some(ex) { fail!("{:?} expected {}", got, ex) }
                } else {
                    let alt = ceilw(n, n / w(p) + w(amt));
                    match got {
                        Some(g) if w(g) >= ex && w(g) <= alt.max(ex) => {}
                        _ => fail!("{:?} expected {}..{}", got, ex, alt),
                    }
                }
            } else {
                let ex = w(p) + w(amt) * w(Q32) / w(l);
                let e = if fits(ex, 64) { Some(ex.as_u64()) } else { None };
                if got != e { fail!("{:?} expected {:?}", got, e) }
            }
            format!("nextin/{}/{}/{}/{}", got.is_some(), zfo, amt.leading_zeros() / 8, l.leading_zeros() / 8)
        }
        "nextout" => {
            let (p, l, amt, zfo) = (u(a[0]), u(a[1]), u(a[2]), a[3] != 0);
            let got = call(|| sp::get_next_sqrt_price_from_output(p, l, amt, zfo));
            if p == 0 || l == 0 {
                if got.is_some() { fail!("zero price or liquidity accepted") }
                return "nextout/zero".into();
            }
            let e = if zfo {
                let q = ceilw(w(amt) * w(Q32), w(l));
                if q >= w(p) { None } else { Some(p - q.as_u64()) }
            } else {
                let n = w(l) << 32;
                let pr = w(amt) * w(p);
                if amt == 0 { Some(p) } else if pr >= n { None } else {
                    let r = ceilw(n * w(p), n - pr);
                    if fits(r, 64) { Some(r.as_u64()) } else { None }
                }
            };
            if got != e { fail!("{:?} expected {:?}", got, e) }
            format!("nextout/{}/{}/{}/{}", got.is_some(), zfo, amt.leading_zeros() / 8, l.leading_zeros() / 8)
        }
        "step" => {
            let (p, tg, l, rem, fee) = (u(a[0]), u(a[1]), u(a[2]), a[3] as i64, a[4] as u32);
            let got = call(|| swap_math::compute_swap_step(p, tg, l, rem, fee));
            let e = step(p, tg, l, rem, fee);
            let g = got.map(|g| (g.sqrt_ratio_next_x32, g.amount_in, g.amount_out, g.fee_amount));
            if g != e { fail!("{:?} expected {:?}", g, e) }
            if let Some((q, inn, out, f)) = g {
                let zfo = p >= tg;
                if zfo && (q < tg || q > p) || !zfo && (q > tg || q < p) { fail!("price {} passes its target", q) }
                if rem >= 0 && w(inn) + w(f) > w(rem as u64) { fail!("takes {}+{} of {}", inn, f, rem) }
                if rem < 0 && out > rem.unsigned_abs() { fail!("gives {} of {}", out, rem) }
                if rem >= 0 && q != tg && inn + f != rem as u64 { fail!("remainder not taken") }
                if w(f) * w(1_000_000 - fee as u64) < w(inn) * w(fee as u64) && (q == tg || rem < 0) { fail!("fee {} short", f) }
                return format!("step/{}/{}/{}/{}/{}/{}", zfo, rem >= 0, q == tg, q == p, l.leading_zeros() / 8, rem.unsigned_abs().leading_zeros() / 8);
            }
            "step/refused".into()
        }
        "bitmap" => {
            let word: [u64; 4] = [u(a[0]), u(a[1]), u(a[2]), u(a[3])];
            let bit = a[4] as u8;
            let lte = a[5] != 0;
            let has = |b: i32| word[b as usize / 64] >> (b % 64) & 1 == 1;
            let mut m = TickBitmapState::default();
            m.word = word;
            let naive = if lte { (0..=bit as i32).rev().find(|b| has(*b)) } else { (bit as i32..256).find(|b| has(*b)) };
            let e = match naive { Some(b) => (b as u8, true), None => (if lte { 0 } else { 255 }, false) };
            let got = call(|| { let n = m.next_initialized_bit(bit, lte); (n.next, n.initialized) });
            if got != Some(e) { fail!("{:?} expected {:?}", got, e) }
            format!("bitmap/{}/{}/{}/{}", bit, lte, e.0, e.1)
        }
        "flip" => {
            let word: [u64; 4] = [u(a[0]), u(a[1]), u(a[2]), u(a[3])];
            let bit = a[4] as u8;
            let mut m = TickBitmapState::default();
            m.word = word;
            m.word_pos = a[5] as i16;
            m.bump = 7;
            let mut e = word;
            e[bit as usize / 64] ^= 1 << (bit % 64);
            call(|| m.flip_bit(bit));
            let (gw, gp, gb) = (m.word, m.word_pos, m.bump);
            if gw != e || gp != a[5] as i16 || gb != 7 { fail!("{:?} expected {:?}", gw, e) }
            format!("flip/{}/{}", bit, word[bit as usize / 64] >> (bit % 64) & 1)
        }
        "position" => {
            let t = a[0] as i32;
            let got = call(|| { let q = tick_bitmap::position(t); (q.word_pos, q.bit_pos) });
            let e = (t.div_euclid(256) as i16, t.rem_euclid(256) as u8);
            if got != Some(e) { fail!("{:?} expected {:?}", got, e) }
            format!("position/{}", e.0)
        }
        "msb" => {
            let v = U256([u(a[0]), u(a[1]), u(a[2]), u(a[3])]);
            let bits: Vec<u8> = (0..256usize).filter(|b| v.bit(*b)).map(|b| b as u8).collect();
            let (m, l) = (call(|| bit_math::most_significant_bit(v)), call(|| bit_math::least_significant_bit(v)));
            if m != bits.last().copied() || l != bits.first().copied() { fail!("msb {:?} lsb {:?}", m, l) }
            format!("msb/{:?}/{:?}", m, l)
        }
        "liq" => {
            let (p, x, y, d0, d1) = (u(a[0]), u(a[1]), u(a[2]), u(a[3]), u(a[4]));
            let (lo, hi) = (x.min(y), x.max(y));
            let got = call(|| la::get_liquidity_for_amounts(p, x, y, d0, d1));
            // exact maxima
            let m0 = |f: u64, t: u64| (w(d0) * w(f) * w(t)) / (w(t - f) << 32);
            let m1 = |f: u64, t: u64| (w(d1) << 32) / w(t - f);
            // the documented two-stage rounding is the lower bound
            let f0 = |f: u64, t: u64| w(d0) * ((w(f) * w(t)) >> 32) / w(t - f);
            let (min, max) = if p <= lo { (f0(lo, hi), m0(lo, hi)) } else if p < hi { (f0(p, hi).min(m1(lo, p)), m0(p, hi).min(m1(lo, p))) } else { (m1(lo, hi), m1(lo, hi)) };
            match got {
                Some(l) => {
                    if w(l) > max || w(l) < min { fail!("liquidity {} not in {}..{}", l, min, max) }
                    let (n0, n1) = if p <= lo { (amt0_w(lo, hi, l, true), W::zero()) } else if p < hi { (amt0_w(p, hi, l, true), amt1_w(lo, p, l, true)) } else { (W::zero(), amt1_w(lo, hi, l, true)) };
                    if n0 > w(d0) || n1 > w(d1) { fail!("liquidity {} needs {} and {}", l, n0, n1) }
                }
                None => {
                    // refused only if some intermediate does not fit
                    let (f, t) = if p <= lo { (lo, hi) } else { (p, hi) };
                    let over0 = p < hi && (!fits((w(f) * w(t)) >> 32, 64) || !fits(f0(f, t), 64));
                    let over1 = p > lo && !fits(m1(lo, p.min(hi)), 64);
                    if !over0 && !over1 { fail!("refused, expected {}", max) }
                }
            }
            // single-token forms
            let g0 = call(|| la::get_liquidity_for_amount_0(x, y, d0));
            let g1 = call(|| la::get_liquidity_for_amount_1(x, y, d1));
            let e0 = f0(lo, hi);
            match g0 {
                Some(g) if w(g) >= e0 && w(g) <= m0(lo, hi) => {}
                None if !fits(e0, 64) || !fits((w(lo) * w(hi)) >> 32, 64) => {}
                _ => fail!("for amount 0: {:?} expected {}", g0, e0),
            }
            match g1 {
                Some(g) if w(g) == m1(lo, hi) => {}
                None if !fits(m1(lo, hi), 64) => {}
                _ => fail!("for amount 1: {:?} expected {}", g1, m1(lo, hi)),
            }
            format!("liq/{}/{}/{}/{}/{}", got.is_some(), p <= lo, p >= hi, d0.leading_zeros() / 8, d1.leading_zeros() / 8)
        }
        "amounts" => {
            let (p, x, y, l) = (u(a[0]), u(a[1]), u(a[2]), u(a[3]));
            let (lo, hi) = (x.min(y), x.max(y));
            let got = call(|| la::get_amounts_for_liquidity(p, x, y, l));
            let e = if p <= lo { (amt0(lo, hi, l, false), Some(0)) } else if p < hi { (amt0(p, hi, l, false), amt1(lo, p, l, false)) } else { (Some(0), amt1(lo, hi, l, false)) };
            match (got, e) {
                (Some((g0, g1)), (Some(e0), Some(e1))) if g0 == e0 && g1 == e1 => {}
                (None, (None, _)) | (None, (_, None)) => {}
                _ => fail!("{:?} expected {:?}", got, e),
            }
            let (g0, g1) = (call(|| la::get_amount_0_for_liquidity(x, y, l)), call(|| la::get_amount_1_for_liquidity(x, y, l)));
            if g0 != amt0(lo, hi, l, false) || g1 != amt1(lo, hi, l, false) { fail!("{:?} {:?} for one token", g0, g1) }
            format!("amounts/{}/{}/{}/{}", got.is_some(), p <= lo, p >= hi, l.leading_zeros() / 4)
        }
        _ => "unknown".into(),
    }
}

/// sqrt(1.0001)^t * 2^96 (i.e. Q32 price with 64 extra fraction bits), from a 2^190-precision chain
fn exact_q64(t: i32) -> W {
    use std::sync::OnceLock;
    static T: OnceLock<Vec<W>> = OnceLock::new();
    let tab = T.get_or_init(|| {
        let n = MAX_TICK as usize;
        let one = W::one() << 190;
        // integer square root of 1.0001 * 2^380
        let r = ((one * W::from(10001u64)) / W::from(10000u64)).checked_mul(one).unwrap();
        let s = r.integer_sqrt();
        let mut v = vec![one];
        for i in 0..n {
            let x = (v[i] * s) >> 190;
            v.push(x);
        }
        v
    });
    let x = tab[t.unsigned_abs() as usize];
    if t >= 0 { x >> (190 - 96) } else { (W::one() << (190 + 96)) / x }
}

// ------------------------------------------------------------------ generators
/// 64-bit operand with mass at the edges
fn e64(r: &mut Rng) -> u64 {
    match r.n(8) {
        0 => r.n(4),
        1 => u64::MAX - r.n(4),
        2 => (1u64 << r.n(64)).wrapping_add(r.n(5)).wrapping_sub(2),
        3 => *r.pick(&[Q32, Q32 - 1, Q32 + 1, i64::MAX as u64, 1 << 63, 1_000_000, 999_999]),
        4 => r.u(),
        _ => r.log(64),
    }
}
/// price in the supported range, on, next to and between tick prices and at the extremes
fn price(r: &mut Rng) -> u64 {
    let p = match r.n(10) {
        0 => MIN_P + r.n(3),
        1 => MAX_P - r.n(3),
        2 => Q32 + r.n(5) - 2,
        3 | 4 => price_at(r.i(MIN_TICK as i64, MAX_TICK as i64) as i32),
        5 => price_at(r.i(MIN_TICK as i64, MAX_TICK as i64) as i32).wrapping_add(r.n(3)).wrapping_sub(1),
        6 => price_at(r.i(-3000, 3000) as i32),
        _ => MIN_P + (r.log(48)).min(MAX_P - MIN_P),
    };
    p.clamp(MIN_P, MAX_P)
}
fn near(r: &mut Rng, p: u64) -> u64 {
    match r.n(4) {
        0 => price(r),
        1 => (p as i128 + r.i(-4, 4) as i128).clamp(MIN_P as i128, MAX_P as i128) as u64,
        2 => price_at((tick_at(p) + r.i(-300, 300) as i32).clamp(MIN_TICK, MAX_TICK)),
        _ => {
            let d = r.log(40);
            if r.p(1, 2) { p.saturating_add(d).min(MAX_P) } else { p.saturating_sub(d).max(MIN_P) }
        }
    }
}
fn wordgen(r: &mut Rng) -> [i128; 4] {
    let mut w4 = [0u64; 4];
    match r.n(6) {
        0 => {}
        1 => w4 = [u64::MAX; 4],
        2 => { let b = r.n(256); w4[b as usize / 64] |= 1 << (b % 64); }
        3 => for _ in 0..r.n(6) { let b = r.n(256); w4[b as usize / 64] |= 1 << (b % 64); },
        4 => w4 = [r.u(), r.u(), r.u(), r.u()],
        _ => { w4 = [u64::MAX; 4]; for _ in 0..r.n(6) { let b = r.n(256); w4[b as usize / 64] &= !(1 << (b % 64)); } }
    }
    [w4[0] as i128, w4[1] as i128, w4[2] as i128, w4[3] as i128]
}

fn gen27(r: &mut Rng) -> Case {
    match r.n(10) {
        0 => ("muldiv64", vec![e64(r) as i128, e64(r) as i128, e64(r) as i128]),
        1 => {
            let mut v: Args = (0..6).map(|_| e64(r) as i128).collect();
            for i in [0, 2, 4] { if r.p(1, 2) { v[i] = 0; } }
            ("muldiv128", v)
        }
        2 => if r.p(1, 2) {
            let mut v: Args = (0..4).map(|_| e64(r) as i128).collect();
            for i in [0, 2] { if r.p(1, 2) { v[i] = 0; } }
            ("divup", v)
        } else {
            let x = e64(r);
            let y = match r.n(4) { 0 => -(x as i128).min(i64::MAX as i128) + r.i(-1, 1) as i128, 1 => (u64::MAX - x).min(i64::MAX as u64) as i128 + r.i(-1, 1) as i128, _ => e64(r) as i64 as i128 };
            ("adddelta", vec![x as i128, y.clamp(i64::MIN as i128, i64::MAX as i128)])
        },
        3 | 4 => {
            let p = price(r);
            let q = near(r, p);
            (if r.p(1, 2) { "delta0" } else { "delta1" }, vec![p as i128, q as i128, e64(r) as i128, r.n(2) as i128])
        }
        5 => {
            let p = price(r);
            ("nextin", vec![p as i128, e64(r) as i128, e64(r) as i128, r.n(2) as i128])
        }
        6 => {
            let p = price(r);
            let l = e64(r);
            let zfo = r.p(1, 2);
            // amounts around what the liquidity holds, beside free ones
            let edge = if zfo { amt1(MIN_P, p, l, false) } else { amt0(p, MAX_P, l, false) };
            let amt = match (r.n(3), edge) { (0, Some(x)) => x.saturating_add(r.n(9)).saturating_sub(4), (1, Some(x)) => r.n(x.max(1)), _ => e64(r) };
            ("nextout", vec![p as i128, l as i128, amt as i128, zfo as i128])
        }
        _ => {
            let p = price(r);
            let t = near(r, p);
            let l = if r.p(1, 16) { 0 } else { r.log(62) };
            let fee = match r.n(4) { 0 => *r.pick(&[0u32, 1, 999_999, 500_000]), 1 => r.n(1_000_000) as u32, _ => *r.pick(&[100u32, 500, 3000, 10000]) };
            let zfo = p >= t;
            let full_in = if zfo { amt0(t, p, l, true) } else { amt1(p, t, l, true) };
            let full_out = if zfo { amt1(t, p, l, false) } else { amt0(p, t, l, false) };
            let rem: i64 = match r.n(6) {
                0 => { let x = full_in.and_then(|x| muldiv_up(x, 1_000_000, 1_000_000 - fee as u64)).unwrap_or(5); (x.min(i64::MAX as u64 - 8) as i64).saturating_add(r.i(-3, 3)).max(0) }
                1 => { let x = full_out.unwrap_or(5).min(i64::MAX as u64 - 8) as i64; -(x.saturating_add(r.i(-3, 3)).max(1)) }
                2 => r.n(full_in.unwrap_or(100).clamp(1, i64::MAX as u64)) as i64,
                3 => -(r.n(full_out.unwrap_or(100).clamp(1, i64::MAX as u64)) as i64).max(1),
                4 => r.log(63) as i64,
                _ => -(r.log(63) as i64),
            };
            ("step", vec![p as i128, t as i128, l as i128, rem as i128, fee as i128])
        }
    }
}
fn gen28(r: &mut Rng) -> Case {
    let wv = wordgen(r);
    match r.n(4) {
        0 => { let mut v = wv.to_vec(); v.extend([r.n(256) as i128, r.i(-867, 866) as i128]); ("flip", v) }
        1 => ("msb", wv.to_vec()),
        _ => { let mut v = wv.to_vec(); v.extend([r.n(256) as i128, r.n(2) as i128]); ("bitmap", v) }
    }
}
fn gen29(r: &mut Rng) -> Case {
    let x = price(r);
    let mut y = near(r, x);
    if y == x { y = if x < MAX_P { x + 1 } else { x - 1 }; }
    let p = match r.n(6) { 0 => x, 1 => y, 2 => x.min(y) + r.n(x.max(y) - x.min(y) + 1), _ => near(r, x) };
    if r.p(2, 3) {
        ("liq", vec![p as i128, x as i128, y as i128, e64(r) as i128, e64(r) as i128])
    } else {
        ("amounts", vec![p as i128, x as i128, y as i128, e64(r) as i128])
    }
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let args: Vec<String> = std::env::args().collect();
    let mut out = std::io::stdout();
    if args.get(1).map(|s| s == "replay").unwrap_or(false) {
        let txt = std::fs::read_to_string(&args[2]).expect("replay file");
        let mut s = Seen::default();
        for l in txt.lines().filter(|l| l.starts_with("lib ")) {
            let f: Vec<&str> = l.split_whitespace().collect();
            let name: &'static str = Box::leak(f[1].to_string().into_boxed_str());
            let c: Case = (name, f[2..].iter().map(|x| x.parse().unwrap()).collect());
            let cls = judge(&c, &mut s);
            println!("{:?} -> {}", c, cls);
        }
        for v in &s.viol { println!("VIOLATED {}", v.0); }
        std::process::exit(if s.viol.is_empty() { 0 } else { 1 });
    }
    let prop = args.get(2).cloned().unwrap_or_default();
    let start = Instant::now();
    let n = 8usize;
    let big = thorough();
    let sd = seed();
    table();
    exact_q64(1);
    let budget: u64 = if big { 240_000_000 } else { 6_000_000 };
    let (rule, exh): (&str, Option<bool>) = match prop.as_str() {
        "C26" => ("every tick from MIN_TICK-2000 to MAX_TICK+2000 (exhaustive), then for every tick its price, both neighbours and a point inside, then random prices; distinct counts classes (tick >> 9, on or off a tick price); a case counts when the call returned or refused and was judged", None),
        "C27" => ("random and edge-weighted operands per function; distinct counts classes (function, outcome, direction, magnitude of operands)", None),
        "C28" => ("for generated words every start bit and direction, flips of every bit, position() of all compressed ticks (exhaustive); distinct counts (start, direction, answer) classes", None),
        "C29" => ("random and edge-weighted prices, ranges and amounts; distinct counts classes (function, outcome, side of range, magnitudes)", None),
        _ => { eprintln!("unknown property {}", prop); std::process::exit(3); }
    };
    let seen = workers(n, |wk| {
        let mut s = Seen::default();
        let mut r = Rng::new(sd.wrapping_mul(1000).wrapping_add(wk as u64 + 7));
        let mut go = |s: &mut Seen, c: Case| {
            let v0 = s.viol.len();
            let cls = judge(&c, s);
            s.distinct.insert(h64(&cls));
            s.count(c.0);
            if s.samples.is_empty() && s.evals > 1000 && v0 == s.viol.len() { s.samples.push(format!("{:?} -> {}", c, cls)); }
            s.viol.len() >= 5
        };
        match prop.as_str() {
            "C26" => {
                for t in (MIN_TICK - 2000..=MAX_TICK + 2000).filter(|t| t.rem_euclid(n as i32) == wk as i32) {
                    if go(&mut s, ("price", vec![t as i128])) { return s; }
                    if t < MIN_TICK || t >= MAX_TICK { continue; }
                    let (a, b) = (price_at(t), price_at(t + 1));
                    let mut v = vec![a - 1, a, a + 1, b - 1, a + r.n(b - a)];
                    if big { for _ in 0..60 { v.push(a + r.n(b - a)); } }
                    for p in v { if go(&mut s, ("tick", vec![p as i128])) { return s; } }
                }
                for t in [i32::MIN, i32::MIN + 1, i32::MAX, -221819, 221819] { go(&mut s, ("price", vec![t as i128])); }
                for p in [0u64, 1, 65535, 65536, 65537, MAX_P - 1, MAX_P, MAX_P + 1, u64::MAX, 1 << 63] { go(&mut s, ("tick", vec![p as i128])); }
                // the low end holds several ticks per unit of price precision: enumerate it
                for p in (MIN_P..MIN_P + if big { 80_000_000 } else { 400_000 }).filter(|p| p % n as u64 == wk as u64) {
                    if go(&mut s, ("tick", vec![p as i128])) { return s; }
                }
                for _ in 0..budget / n as u64 / 4 {
                    let p = match r.n(3) { 0 => r.u(), 1 => MIN_P + r.n(MAX_P - MIN_P), _ => price(&mut r) };
                    if go(&mut s, ("tick", vec![p as i128])) { return s; }
                }
            }
            "C27" => for _ in 0..budget / n as u64 {
                let c = gen27(&mut r);
                if go(&mut s, c) { return s; }
            },
            "C28" => {
                for t in (MIN_TICK..=MAX_TICK).filter(|t| t.rem_euclid(n as i32) == wk as i32) {
                    if go(&mut s, ("position", vec![t as i128])) { return s; }
                }
                for _ in 0..budget / n as u64 / 2000 {
                    let wv = wordgen(&mut r);
                    for b in 0..256i128 { for d in 0..2i128 {
                        let mut v = wv.to_vec(); v.extend([b, d]);
                        if go(&mut s, ("bitmap", v)) { return s; }
                    } let mut v = wv.to_vec(); v.extend([b, b - 100]); if go(&mut s, ("flip", v)) { return s; } }
                }
                for _ in 0..budget / n as u64 / 4 {
                    let c = gen28(&mut r);
                    if go(&mut s, c) { return s; }
                }
            }
            _ => for _ in 0..budget / n as u64 {
                let c = gen29(&mut r);
                if go(&mut s, c) { return s; }
            },
        }
        s
    });
    let rep = Report { prop, start, rule: rule.into(), exhaustive: exh, assumptions: vec!["the reference arithmetic in harness/src/rmath.rs and the uint crate's 512-bit integers are right".into()] };
    let code = rep.finish(&seen, &mut out);
    let _ = out.flush();
    std::process::exit(code);
}
