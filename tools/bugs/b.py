L = 'lib.rs'
SNAP = '''
use cyclos_core::states::{oracle::ObservationState, pool::PoolState, tick::TickState};
fn get<T: Copy>(k: &Kit, a: K) -> T { let d = k.b.data(&a); unsafe { std::ptr::read_unaligned(d[8..].as_ptr() as *const T) } }
fn snap(k: &Kit, p: &PoolId, lo: i32, hi: i32) -> (i64, u64, u32) {
    set_now(k.b.now);
    let o = p.obs(k.ps(p).oi);
    let s = get::<PoolState>(k, p.key).snapshot_cumulatives_inside(&get::<TickState>(k, p.tick(lo)), &get::<TickState>(k, p.tick(hi)), &get::<ObservationState>(k, o));
    (s.tick_cumulative_inside, s.seconds_per_liquidity_inside_x32, s.seconds_inside)
}
'''
BUGS = [
dict(id='snapshot-at-upper-edge', prop='C22', needs='a snapshot while the pool tick equals the upper tick of the range',
 breaks='time spent at the upper tick of a range counts as inside the range',
 edits=[('states/pool.rs', '''        } else if self.tick < upper.tick {
            let time''', '''        } else if self.tick <= upper.tick {
            let time''')],
 demo=SNAP + '''
fn main() {
    let mut k = Kit::new(2, 2, 1000);
    let p = k.pool(0, 1, 3000, 60, Q32);
    k.deposit(0, &p, -6000, 6000, 1_000_000_000).unwrap();
    k.deposit(0, &p, -600, 0, 1_000_000_000).unwrap();
    let a = snap(&k, &p, -600, 0);
    k.at(1500);
    let b = snap(&k, &p, -600, 0);
    // the pool sits at tick 0, outside -600..0
    assert_eq!(b.2.wrapping_sub(a.2), 0);
}
'''),
dict(id='new-tick-last-observation', prop='C22', needs='a tick below the price first used some time after the last oracle write',
 breaks='the accumulators of a new tick are taken from the last observation instead of the current time',
 edits=[(L, '''            last_observation_state.observe_latest(time, pool_state.tick, pool_state.liquidity);
''', '''            (last_observation_state.tick_cumulative, last_observation_state.seconds_per_liquidity_cumulative_x32);
''')],
 demo=SNAP + '''
fn main() {
    let mut k = Kit::new(2, 2, 1000);
    let p = k.pool(0, 1, 3000, 60, Q32 + Q32 / 100);
    let t = k.ps(&p).tick as i64;
    assert!(t > 100);
    k.deposit(0, &p, -6000, 6000, 1_000_000_000).unwrap();
    k.at(4000);
    k.deposit(0, &p, -600, 600, 1_000_000_000).unwrap();
    let a = snap(&k, &p, -600, 600);
    k.at(4100);
    k.deposit(1, &p, -600, 600, 1_000_000_000).unwrap();
    let b = snap(&k, &p, -600, 600);
    assert_eq!(b.0.wrapping_sub(a.0), t * 100);
    let x = r_tick(&k.b, &p.tick(-600)).unwrap();
    assert_eq!(x.tc, t * 3000, "tick-seconds below a new tick");
}
'''),
dict(id='tick-of-even-price', prop='C26', needs='an even price exactly one unit below the price of a tick',
 breaks='such a price is reported in the tick above it',
 edits=[('libraries/tick_math.rs', '.unwrap() <= sqrt_price_x32 {', '.unwrap() <= sqrt_price_x32 | 1 {')],
 demo='''
fn main() {
    use cyclos_core::libraries::tick_math::*;
    for t in -200_000..200_000 {
        let p = get_sqrt_ratio_at_tick(t).unwrap();
        let below = get_tick_at_sqrt_ratio(p - 1).unwrap();
        assert!(below == t - 1, "price {} reads tick {}", p - 1, below);
    }
}
'''),
dict(id='amount-1-wide-shortcut', prop='C27', needs='an amount of token 1 between 2^32 and 2^33',
 breaks='the shortcut without wide multiplication is used for amounts it overflows for',
 edits=[('libraries/sqrt_price_math.rs', '''        let quotient = if amount <= (u32::MAX as u64) {
            // u32::MAX or below so that amount x 2^32 does not overflow
''', '''        let quotient = if amount >> 33 == 0 {
            // small enough so that amount x 2^32 does not overflow
''')],
 demo='''
fn main() {
    for (amt, liq) in [(1u64 << 31, 1u64 << 32), (u32::MAX as u64, 1 << 33), (1 << 32, 1 << 33), ((1 << 33) - 1, 12345678901), (1 << 34, 1 << 35)] {
        let got = cyclos_core::libraries::sqrt_price_math::get_next_sqrt_price_from_amount_1_rounding_down(Q32, liq, amt, true);
        let want = Q32 as u128 + ((amt as u128) << 32) / liq as u128;
        assert_eq!(got as u128, want, "amount {} liquidity {}", amt, liq);
    }
}
'''),
dict(id='liquidity-rounded-up', prop='C29', needs='a deposit limited by token 0 whose price product is inexact, with a tight offer',
 breaks='the liquidity computed for an amount of token 0 can need more than that amount',
 edits=[('libraries/liquidity_amounts.rs', '''    let intermediate = sqrt_ratio_a_x32
        .mul_div_floor(sqrt_ratio_b_x32, fixed_point_32::Q32)''', '''    let intermediate = sqrt_ratio_a_x32
        .mul_div_ceil(sqrt_ratio_b_x32, fixed_point_32::Q32)''')],
 demo='''
fn main() {
    use cyclos_core::libraries::{liquidity_amounts::*, sqrt_price_math::*};
    for (a, b) in [(65537u64, 66000u64), (100_000, 101_000), (1_000_003, 1_100_007), (70_001, 4_000_000)] {
        for i in 1..2000u64 {
            let amt = i * 1_000_003;
            let l = get_liquidity_for_amount_0(a, b, amt);
            if l == 0 { continue; }
            let need = get_amount_0_delta_unsigned(a, b, l, true);
            assert!(need <= amt, "range {} {}: liquidity {} for {} needs {}", a, b, l, amt, need);
        }
    }
}
'''),
dict(id='empty-collect-keeps-lock', prop='C32', needs='a collect that pays nothing',
 breaks='the pool stays locked for good after anybody collects from a position with nothing owed',
 edits=[(L, '''        pool_state.load_mut()?.unlocked = true;
        Ok(())
    }

    // ---------------------------------------------------------------------
    // 4. Swap''', '''        if amount_0 > 0 || amount_1 > 0 {
            pool_state.load_mut()?.unlocked = true;
        }
        Ok(())
    }

    // ---------------------------------------------------------------------
    // 4. Swap''')],
 demo='''
fn main() {
    let mut k = Kit::new(2, 2, 1000);
    let p = k.pool(0, 1, 3000, 60, Q32);
    k.deposit(0, &p, -600, 600, 1_000_000_000).unwrap();
    k.deposit(1, &p, -600, 600, 1_000).unwrap();
    let _ = k.take(1, &p, -600, 600, [u64::MAX, u64::MAX]);
    assert!(k.swap(0, &p, true, 1000, 0).is_ok(), "pool frozen");
}
'''),
dict(id='saturating-fee-growth', prop='C10', needs='a range whose fee growth inside is stored below zero (modulo 2^64): upper tick used before, lower tick used after fees accrued, and fees earned afterwards',
 breaks='fees earned across the wrap of the range-local fee growth are lost',
 edits=[('states/position.rs', '''        let tokens_owed_0 = (fee_growth_inside_0_x32 - self.fee_growth_inside_0_last_x32)
            .mul_div_floor''', '''        let tokens_owed_0 = fee_growth_inside_0_x32
            .saturating_sub(self.fee_growth_inside_0_last_x32)
            .mul_div_floor'''), ('states/position.rs', '''        let tokens_owed_1 = (fee_growth_inside_1_x32 - self.fee_growth_inside_1_last_x32)
            .mul_div_floor''', '''        let tokens_owed_1 = fee_growth_inside_1_x32
            .saturating_sub(self.fee_growth_inside_1_last_x32)
            .mul_div_floor''')],
 demo='''
fn main() {
    let mut k = Kit::new(3, 2, 1000);
    let p = k.pool(0, 1, 3000, 60, Q32 + Q32 / 10);
    k.deposit(0, &p, -60000, 60000, 1_000_000_000).unwrap();
    // upper tick 600 (below the price) first used now, by another range
    k.deposit(0, &p, 600, 12000, 1_000_000_000).unwrap();
    for _ in 0..4 { k.swap(1, &p, true, 20_000_000, 0).unwrap(); k.swap(1, &p, false, 20_000_000, 0).unwrap(); }
    // lower tick -600 is first used after fees were paid
    k.deposit(2, &p, -600, 600, 1_000_000_000).unwrap();
    k.swap(1, &p, true, 150_000_000, 0).unwrap();
    assert!(k.ps(&p).tick < 600 && k.ps(&p).tick > -600);
    for _ in 0..12 { k.swap(1, &p, true, 5_000_000, 0).unwrap(); k.swap(1, &p, false, 5_000_000, 0).unwrap(); }
    k.swap(1, &p, false, 200_000_000, 0).unwrap();
    let got = k.remove(2, &p, -600, 600, 0).unwrap();
    assert!(got[0] > 50_000 && got[1] > 50_000, "fees of the range: {:?}", got);
}
'''),
dict(id='nft-snapshot-before-deposit', prop='C12', needs='an NFT opened over a range in which other NFTs hold liquidity and fees accrued since the last update',
 breaks='a new NFT starts from the fee snapshot before its own deposit and is credited fees earned by the others',
 edits=[(L, '''        let (liquidity, amount_0, amount_1) = add_liquidity(
            &mut accs,
            ctx.remaining_accounts,
            amount_0_desired,
            amount_1_desired,
            amount_0_min,
            amount_1_min,
            tick_lower,
            tick_upper,
        )?;

        // Mint the NFT''', '''        let core_position = *AccountLoader::<PositionState>::try_from(
            &ctx.accounts.core_position_state.to_account_info(),
        )?
        .load()?
        .deref();

        let (liquidity, amount_0, amount_1) = add_liquidity(
            &mut accs,
            ctx.remaining_accounts,
            amount_0_desired,
            amount_1_desired,
            amount_0_min,
            amount_1_min,
            tick_lower,
            tick_upper,
        )?;

        // Mint the NFT'''), (L, '''        tokenized_position.fee_growth_inside_0_last_x32 = AccountLoader::<PositionState>::try_from(
            &ctx.accounts.core_position_state.to_account_info(),
        )?
        .load()?
        .fee_growth_inside_0_last_x32;
        tokenized_position.fee_growth_inside_1_last_x32 = AccountLoader::<PositionState>::try_from(
            &ctx.accounts.core_position_state.to_account_info(),
        )?
        .load()?
        .fee_growth_inside_1_last_x32;
''', '''        tokenized_position.fee_growth_inside_0_last_x32 =
            core_position.fee_growth_inside_0_last_x32;
        tokenized_position.fee_growth_inside_1_last_x32 =
            core_position.fee_growth_inside_1_last_x32;
''')],
 demo='''
fn main() {
    let mut k = Kit::new(3, 2, 1000);
    let p = k.pool(0, 1, 3000, 60, Q32);
    let d = [1_000_000_000, 1_000_000_000];
    k.nmint(0, &p, -600, 600, d, [0, 0], 9999).unwrap();
    k.swap(2, &p, true, 10_000_000, 0).unwrap();
    k.swap(2, &p, false, 10_000_000, 0).unwrap();
    let (b, _) = k.nmint(1, &p, -600, 600, d, [0, 0], 9999).unwrap();
    let x = k.ncollect(1, 1, &p, b, [u64::MAX, u64::MAX]).unwrap();
    assert_eq!(x, [0, 0], "a fresh NFT collected fees");
}
'''),
dict(id='spacing-step-below', prop='C09', needs='a 0->1 swap that stops exactly at an initialized tick or word edge, in a pool with tick spacing above 1',
 breaks='after moving down to a tick, the pool tick is put a whole spacing below it instead of one tick',
 edits=[(L, '''                state.tick = if zero_for_one {
                    step.tick_next - 1
                } else {''', '''                state.tick = if zero_for_one {
                    step.tick_next - pool.tick_spacing as i32
                } else {''')],
 demo='''
fn main() {
    let mut k = Kit::new(2, 2, 1000);
    let p = k.pool(0, 1, 3000, 60, Q32);
    k.deposit(0, &p, -600, 600, 1_000_000_000).unwrap();
    k.deposit(0, &p, -60, 600, 1_000_000_000).unwrap();
    let at = cyclos_core::libraries::tick_math::get_sqrt_ratio_at_tick(-60).unwrap();
    k.swap(1, &p, true, BIG / 4, at).unwrap();
    let s = k.ps(&p);
    assert_eq!((s.price, s.tick, s.liq), (at, -61, 1_000_000_000));
}
'''),
dict(id='narrow-tick-seconds', prop='C20', needs='a quiet period long enough that tick times seconds exceeds 2^31',
 breaks='the tick accumulator wraps at 32 bits after a long quiet period at a far price',
 edits=[('states/oracle.rs', '''            tick_cumulative: self.tick_cumulative + tick as i64 * delta as i64,''', '''            tick_cumulative: self.tick_cumulative + (tick * delta as i32) as i64,''')],
 demo='''
fn main() {
    let mut k = Kit::new(2, 2, 1000);
    let p = k.pool(0, 1, 3000, 60, Q32 * 2000);
    let t = k.ps(&p).tick;
    let lo = t / 60 * 60 - 600;
    k.grow(&p, 2);
    k.deposit(0, &p, lo, lo + 1200, 1_000_000_000).unwrap();
    k.at(1000 + 100_000);
    k.deposit(0, &p, lo, lo + 1200, 1_000_000_000).unwrap();
    let o = r_obs(&k.b, &p.obs(k.ps(&p).oi)).unwrap();
    assert_eq!(o.tc, t as i64 * 100_000);
}
'''),
dict(id='slot-after-14-seconds', prop='C21', needs='two swaps less than 14 seconds apart but on either side of a slot boundary',
 breaks='swaps move to a new observation slot 14 seconds after the last write instead of at slot boundaries',
 edits=[(L, '''        let partition_current_timestamp = cache.block_timestamp / 14;
        let partition_last_timestamp = latest_observation.block_timestamp / 14;
        let last_observation''', '''        let partition_current_timestamp = cache.block_timestamp;
        let partition_last_timestamp = latest_observation.block_timestamp + 13;
        let last_observation''')],
 demo='''
fn main() {
    let mut k = Kit::new(2, 2, 14 * 1000 + 12);
    let p = k.pool(0, 1, 3000, 60, Q32);
    k.deposit(0, &p, -6000, 6000, 1_000_000_000).unwrap();
    k.grow(&p, 3);
    k.at(14 * 1000 + 13);
    k.swap(1, &p, true, 10_000_000, 0).unwrap();
    assert_eq!(k.ps(&p).oi, 0);
    k.at(14 * 1001 + 1);
    k.swap(1, &p, true, 10_000_000, 0).unwrap();
    assert_eq!((k.ps(&p).oi, k.ps(&p).oc), (1, 2));
}
'''),
dict(id='lowest-word-refused', prop='C24', needs='the lowest bitmap word of a pool, which holds the ticks next to the minimum price',
 breaks='the bitmap account for the lowest ticks can never be created, so full-range positions are impossible',
 edits=[(L, '''        require!(word_pos >= min_word_pos, ErrorCode::TLM);''', '''        require!(word_pos > min_word_pos, ErrorCode::TLM);''')],
 demo='''
fn main() {
    let mut k = Kit::new(2, 2, 1000);
    let p = k.pool(0, 1, 3000, 60, Q32);
    let o = k.u[0];
    let lo = -221_760;
    let r = k.tx(init_word(o, &p, p.word_of(lo)), &[o]);
    assert!(r.is_ok(), "lowest word refused");
    k.deposit(0, &p, lo, -lo, 1_000_000).unwrap();
}
'''),
dict(id='burn-both-or-nothing', prop='C02', needs='a burn while the price is outside the position range',
 breaks='withdrawn tokens are credited only when both amounts are positive',
 edits=[(L, '''        if amount_0 > 0 || amount_1 > 0 {
            let mut position_state = ctx.accounts.position_state.load_mut()?;''', '''        if amount_0 > 0 && amount_1 > 0 {
            let mut position_state = ctx.accounts.position_state.load_mut()?;''')],
 demo='''
fn main() {
    let mut k = Kit::new(2, 2, 1000);
    let p = k.pool(0, 1, 3000, 60, Q32);
    let paid = k.deposit(0, &p, 600, 1200, 1_000_000_000).unwrap();
    assert!(paid[0] > 0 && paid[1] == 0);
    let got = k.remove(0, &p, 600, 1200, 1_000_000_000).unwrap();
    assert!(got[0] + 1 >= paid[0], "paid {:?} got back {:?}", paid, got);
}
'''),
dict(id='metadata-by-any-program', prop='C18', needs='metadata is attached naming another program that agrees to everything as the metadata program',
 breaks='the factory signs for a program of the caller, and the NFT loses its minting authority without getting metadata',
 edits=[('context.rs', '''    #[account(address = metaplex_token_metadata::ID)]
    pub metadata_program''', '''    #[account(executable)]
    pub metadata_program''')],
 demo='''
fn main() {
    let mut k = Kit::new(2, 2, 1000);
    let p = k.pool(0, 1, 3000, 60, Q32);
    let (n, _) = k.nmint(0, &p, -600, 600, [1_000_000, 1_000_000], [0, 0], 9999).unwrap();
    let o = k.u[1];
    let evil = key(77, 5);
    k.b.put(evil, Acct { lamports: 1, data: vec![], owner: K::default(), exec: true });
    set_hostile(evil, std::rc::Rc::new(|_, _, _| Ok(())));
    let mut ix = nft_meta(o, n);
    for m in ix.metas.iter_mut() { if m.k == meta_prog() { m.k = evil; } }
    let r = k.tx(ix, &[o]);
    assert!(r.is_err(), "another program signed for the factory");
    let r = k.tx(nft_meta(o, n), &[o]);
    assert!(r.is_ok(), "{:?}", r.err());
}
'''),
dict(id='poke-moves-tick', prop='C30', needs='a deposit or withdrawal while the price sits exactly on a tick reached from above',
 breaks='changing liquidity in range recomputes the pool tick from the price, although the tick below has been crossed',
 edits=[(L, '''            pool_state.liquidity =
                liquidity_math::add_delta(pool_state.liquidity, liquidity_delta)?;
        }
        // current''', '''            let liquidity = liquidity_math::add_delta(pool_state.liquidity, liquidity_delta)?;
            pool_state.liquidity = liquidity;
            pool_state.tick = tick_math::get_tick_at_sqrt_ratio(pool_state.sqrt_price_x32)?;
        }
        // current''')],
 demo='''
fn main() {
    let mut k = Kit::new(2, 2, 1000);
    let p = k.pool(0, 1, 3000, 60, Q32);
    k.deposit(0, &p, -600, 600, 1_000_000_000).unwrap();
    k.deposit(0, &p, -60, 600, 1_000_000_000).unwrap();
    let at = cyclos_core::libraries::tick_math::get_sqrt_ratio_at_tick(-60).unwrap();
    k.swap(1, &p, true, BIG / 4, at).unwrap();
    let a = k.ps(&p);
    assert_eq!(a.tick, -61);
    k.deposit(1, &p, -600, 600, 1000).unwrap();
    assert_eq!(k.ps(&p).tick, a.tick, "a deposit moved the tick");
    k.swap(1, &p, true, 1000, 0).unwrap();
    assert_eq!(k.ps(&p).liq, a.liq + 1000);
}
'''),
dict(id='fee-growth-rounded-up', prop='C01', needs='liquidity above 2^32 units, so that one unit of fee growth is worth whole tokens',
 breaks='fee growth is rounded up, so positions are credited more fees than were paid',
 edits=[(L, '''                    .fee_amount
                    .mul_div_floor(fixed_point_32::Q32, state.liquidity)''', '''                    .fee_amount
                    .mul_div_ceil(fixed_point_32::Q32, state.liquidity)''')],
 demo='''
fn main() {
    let mut k = Kit::new(2, 2, 1000);
    let p = k.pool(0, 1, 3000, 60, Q32);
    k.deposit(0, &p, -600, 600, 1 << 40).unwrap();
    for _ in 0..50 { k.swap(1, &p, true, 1000, 0).unwrap(); k.swap(1, &p, false, 1000, 0).unwrap(); }
    let got = k.remove(0, &p, -600, 600, 1 << 40).unwrap();
    let v = k.vaults(&p);
    let prot = k.ps(&p).prot;
    assert!(got[0] + prot[0] <= v[0] && got[1] + prot[1] <= v[1], "owed {:?} and protocol {:?}, vaults hold {:?}", got, prot, v);
}
'''),
dict(id='first-deposit-unpaid', prop='C19', needs='a deposit through a callback that pays nothing into a vault that is empty',
 breaks='payment of token 1 is not verified while the vault is empty',
 edits=[(L, '''        if amount_1 > 0 {
            require!(
                balance_1_before.checked_add''', '''        if amount_1 > 0 && balance_1_before > 0 {
            require!(
                balance_1_before.checked_add''')],
 demo='''
fn main() {
    let mut k = Kit::new(2, 2, 1000);
    let p = k.pool(0, 1, 3000, 60, Q32);
    let o = k.u[0];
    k.prep(o, &p, -600, -60);
    let cb = key(9, 8);
    k.b.put(cb, Acct { lamports: 1, data: vec![], owner: K::default(), exec: true });
    set_hostile(cb, std::rc::Rc::new(|_, _, _| Ok(())));
    let ix = mint(o, k.ta(0, &p), o, &p, -600, -60, 1_000_000_000, k.ps(&p).oi, cb, vec![]);
    let r = k.tx(ix, &[o]);
    assert!(r.is_err(), "deposit accepted although nothing was paid: {:?}", k.vaults(&p));
}
'''),
dict(id='whole-fee-tier', prop='C23', needs='the owner enables a fee of exactly 100%',
 breaks='a fee of 100% is accepted, in which swaps divide by zero',
 edits=[(L, '''        assert!(fee < 1_000_000); // 100%''', '''        assert!(fee <= 1_000_000); // 100%''')],
 demo='''
fn main() {
    let mut k = Kit::new(2, 2, 1000);
    let o = k.u[0];
    assert!(k.tx(enable_fee(o, 999_999, 10), &[o]).is_ok());
    assert!(k.tx(enable_fee(o, 1_000_000, 10), &[o]).is_err(), "fee of 100% accepted");
}
'''),
dict(id='clear-before-settling', prop='C02', needs='the last position of a tick leaves with fees outstanding after the tick was crossed',
 breaks='the ticks of a position are cleared before its fees are computed, so the last one out gets wrong fees',
 edits=[(L, '''    // Update fees accrued to the position
    let (fee_growth_inside_0_x32''', '''    // Deallocate the tick accounts if they get un-initialized
    if liquidity_delta < 0 {
        for (flipped, tick) in [(flipped_lower, &mut tick_lower), (flipped_upper, &mut tick_upper)] {
            if flipped {
                tick.clear();
            }
        }
    }
    // Update fees accrued to the position
    let (fee_growth_inside_0_x32'''), (L, '''    // Deallocate the tick accounts if they get un-initialized
    // A tick is un-initialized on flip if liquidity_delta is negative
    if liquidity_delta < 0 {
        if flipped_lower {
            tick_lower.clear();
        }
        if flipped_upper {
            tick_upper.clear();
        }
    }
    Ok(())''', '''    Ok(())''')],
 demo='''
fn main() {
    let mut k = Kit::new(3, 2, 1000);
    let p = k.pool(0, 1, 3000, 60, Q32);
    k.deposit(0, &p, -60000, 60000, 1_000_000_000).unwrap();
    for _ in 0..5 { k.swap(1, &p, true, 1_000_000, 0).unwrap(); k.swap(1, &p, false, 1_000_000, 0).unwrap(); }
    // both ticks are new; the lower one starts with all growth so far below it
    let paid = k.deposit(2, &p, -600, 600, 1_000_000_000).unwrap();
    let got = k.remove(2, &p, -600, 600, 1_000_000_000).unwrap();
    assert!(got[0] <= paid[0] && got[1] <= paid[1], "paid {:?}, got {:?}", paid, got);
}
'''),
dict(id='partial-protocol-collect', prop='C11', needs='the owner collects less than the accrued protocol fees of a token',
 breaks='a partial collection forfeits the rest of the protocol fees',
 edits=[(L, '''        pool_state.protocol_fees_token_1 -= amount_1;
        drop(pool_state);''', '''        if amount_1 > 0 {
            pool_state.protocol_fees_token_1 = 0;
        }
        drop(pool_state);''')],
 demo='''
fn main() {
    let mut k = Kit::new(2, 2, 1000);
    let p = k.pool(0, 1, 3000, 60, Q32);
    k.deposit(0, &p, -6000, 6000, 1_000_000_000).unwrap();
    k.swap(1, &p, false, 1_000_000, 0).unwrap();
    let a = k.ps(&p).prot[1];
    assert!(a > 10);
    let (o, ta) = (k.u[0], k.ta(0, &p));
    k.tx(collect_protocol(o, &p, ta[0], ta[1], 0, 1), &[o]).unwrap();
    assert_eq!(k.ps(&p).prot[1], a - 1);
}
'''),
dict(id='word-mask-top-bit', prop='C28', needs='a search downwards that starts at the top bit of a word',
 breaks='the mask for the highest bit of a word is empty, so initialized ticks of that word are missed',
 edits=[('states/tick_bitmap.rs', '''            let mask = (U256::from(1) << bit_pos) - 1 + (U256::from(1) << bit_pos);''', '''            let mask = (U256::from(1) << ((bit_pos as u32 + 1) & 0xff)) - 1;''')],
 demo='''
fn main() {
    let mut w = cyclos_core::states::tick_bitmap::TickBitmapState::default();
    w.flip_bit(200);
    w.flip_bit(255);
    for (from, want) in [(254u8, 200u8), (255, 255), (200, 200)] {
        let n = w.next_initialized_bit(from, true);
        assert!(n.initialized && n.next == want, "from {}: {} {}", from, n.next, n.initialized);
    }
}
'''),
dict(id='unchecked-next-observation', prop='C33', needs='an in-range deposit in a new oracle slot without the account of the next observation',
 breaks='the first remaining account is read without checking that there is one',
 edits=[(L, '''                    AccountLoader::<ObservationState>::try_from(&remaining_accounts[0])?;
                let next_observation = next_observation_state.load_mut()?;
                pool_state''', '''                    AccountLoader::<ObservationState>::try_from(unsafe {
                        remaining_accounts.get_unchecked(0)
                    })?;
                let next_observation = next_observation_state.load_mut()?;
                pool_state''')],
 demo='''
fn main() {
    let mut k = Kit::new(2, 2, 1000);
    let p = k.pool(0, 1, 3000, 60, Q32);
    k.deposit(0, &p, -600, 600, 1_000_000).unwrap();
    k.grow(&p, 3);
    k.at(2000);
    let o = k.u[0];
    // the next observation is missing from the account list
    let ix = mint(o, k.ta(0, &p), o, &p, -600, 600, 1000, 0, PROG, vec![]);
    let r = k.tx(ix, &[o]);
    match r { Err(e) => assert!(format!("{:?}", e).contains("Panic"), "{:?}", e), Ok(_) => panic!("accepted") }
}
'''),
dict(id='metadata-keeps-authority', prop='C14', needs='metadata is attached to a position NFT',
 breaks='attaching metadata hands the authority to mint more of the NFT to the payer instead of giving it up',
 edits=[(L, '''            AuthorityType::MintTokens,
            None,
        )?;''', '''            AuthorityType::MintTokens,
            Some(ctx.accounts.payer.key()),
        )?;''')],
 demo='''
fn main() {
    let mut k = Kit::new(2, 2, 1000);
    let p = k.pool(0, 1, 3000, 60, Q32);
    let (n, _) = k.nmint(0, &p, -600, 600, [1_000_000, 1_000_000], [0, 0], 9999).unwrap();
    let o = k.u[0];
    let r = k.tx(nft_meta(o, n), &[o]);
    assert!(r.is_ok(), "{:?}", r.err());
    let m = mint_of(k.b.get(&n).unwrap()).unwrap();
    assert_eq!(m.1, None, "somebody can still mint");
}
'''),
dict(id='one-for-zero-input-floor', prop='C03', needs='a 1->0 exact-output swap that ends inside a range at an inexact price move',
 breaks='the token 1 due for a partial step is rounded down in favour of the trader',
 edits=[('libraries/swap_math.rs', '''        if !(max && exact_in) {
            swap_step.amount_in = sqrt_price_math::get_amount_1_delta_unsigned(
                sqrt_ratio_current_x32,
                swap_step.sqrt_ratio_next_x32,
                liquidity,
                true,
            )''', '''        if !(max && exact_in) {
            swap_step.amount_in = sqrt_price_math::get_amount_1_delta_unsigned(
                sqrt_ratio_current_x32,
                swap_step.sqrt_ratio_next_x32,
                liquidity,
                exact_in || max,
            )''')],
 demo='''
fn main() {
    let mut k = Kit::new(2, 2, 1000);
    let p = k.pool(0, 1, 0, 60, Q32 + 12345);
    k.deposit(0, &p, -600, 600, 1_000_000_007).unwrap();
    for i in 1..40i64 {
        let a = k.ps(&p).price;
        let d = k.swap(1, &p, false, -(i * 997), 0).unwrap();
        let b = k.ps(&p).price;
        let n = 1_000_000_007u128 * (b - a) as u128;
        let want = (n + (1 << 32) - 1) >> 32;
        assert_eq!(d[1] as u128, want, "paid for a move from {} to {}", a, b);
    }
}
'''),
]
