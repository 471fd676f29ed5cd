L = 'lib.rs'
X = 'context.rs'
BUGS = [
dict(id='deadline-zero-is-none', prop='C07', needs='an instruction whose deadline is exactly 0',
 breaks='a deadline of zero counts as no deadline',
 edits=[('access_control.rs', '''        Clock::get()?.unix_timestamp <= deadline,
''', '''        deadline == 0 || Clock::get()?.unix_timestamp <= deadline,
''')],
 demo='''
fn main() {
    let mut k = Kit::new(2, 2, 1000);
    let p = k.pool(0, 1, 3000, 60, Q32);
    k.deposit(0, &p, -600, 600, 1_000_000_000).unwrap();
    assert!(k.single(1, &p, true, 10_000, 0, 0, 1000).is_ok());
    for d in [999, 1, 0, -1] { assert!(k.single(1, &p, true, 10_000, 0, 0, d).is_err(), "traded {} s late", 1000 - d); }
}
'''),
dict(id='close-keeps-tick-usable', prop='C24', needs='one transaction that closes an unused tick and then deposits at it',
 breaks='a closed tick stays usable until the end of its transaction, and vanishes with the deposit recorded in it',
 edits=[(X, '''        mut,
        close = recipient,
        constraint = tick_state.load()?.is_clear()
''', '''        mut,
        constraint = tick_state.load()?.is_clear()
'''), (L, '''    pub fn close_tick_account(_ctx: Context<CloseTickAccount>) -> Result<()> {
        Ok(())
''', '''    pub fn close_tick_account(ctx: Context<CloseTickAccount>) -> Result<()> {
        let tick_account = ctx.accounts.tick_state.to_account_info();
        let recipient = ctx.accounts.recipient.to_account_info();
        let lamports = tick_account.lamports();
        **tick_account.try_borrow_mut_lamports()? = 0;
        **recipient.try_borrow_mut_lamports()? += lamports;
        Ok(())
''')],
 demo='''
fn main() {
    let mut k = Kit::new(2, 2, 1000);
    let p = k.pool(0, 1, 3000, 60, Q32);
    k.deposit(0, &p, -600, 600, 1_000_000_000).unwrap();
    let o = k.u[1];
    k.prep(o, &p, 1200, 1800);
    // alone it works
    let b0 = k.b.clone();
    k.ok(close_tick(&p, 1200, o), &[]);
    assert!(k.b.get(&p.tick(1200)).is_none());
    k.b = b0;
    let (ta, oi) = (k.ta(1, &p), k.ps(&p).oi);
    let r = k.b.tx(&[close_tick(&p, 1200, o), mint(o, ta, o, &p, 1200, 1800, 1_000_000, oi, PROG, vec![])], &[o]);
    assert!(r.is_err() || k.b.get(&p.tick(1200)).is_some(), "liquidity starts at a tick that does not exist");
}
'''),
dict(id='growth-same-index', prop='C21', needs='an oracle growth by more than one slot in one instruction, and trades until the later slot is used',
 breaks='slots created together all carry the number of the first',
 edits=[(L, '''            observation_state.index = pool_state.observation_cardinality_next + i as u16;
''', '''            observation_state.index = pool_state.observation_cardinality_next;
''')],
 demo='''
fn main() {
    let mut k = Kit::new(2, 2, 1000);
    let p = k.pool(0, 1, 3000, 60, Q32);
    k.deposit(0, &p, -6000, 6000, 1_000_000_000).unwrap();
    k.grow(&p, 1);
    k.grow(&p, 3);
    for i in 0..k.ps(&p).on { assert_eq!(r_obs(&k.b, &p.obs(i)).unwrap().idx, i, "number of slot {}", i); }
    for i in 0..6 {
        k.at(2000 + 100 * i);
        k.swap(1, &p, i % 2 == 0, 10_000_000, 0).expect("trade");
        assert_eq!(k.ps(&p).oi as i64, (i + 1) % 5, "slot after trade {}", i);
    }
}
'''),
dict(id='zero-amount-spends-balance', prop='C04', needs='a router swap of an amount of exactly 0',
 breaks='an input amount of zero means everything the trader has',
 edits=[(L, '''            ctx.remaining_accounts,
            amount_in,
            sqrt_price_limit_x32,
        )?;
        require!(
            amount_out >= amount_out_minimum,''', '''            ctx.remaining_accounts,
            if amount_in == 0 {
                Account::<TokenAccount>::try_from(&ctx.accounts.input_token_account)?.amount
            } else {
                amount_in
            },
            sqrt_price_limit_x32,
        )?;
        require!(
            amount_out >= amount_out_minimum,''')],
 demo='''
fn main() {
    let mut k = Kit::new(2, 2, 1000);
    let p = k.pool(0, 1, 3000, 60, Q32);
    k.deposit(0, &p, -600, 600, 1_000_000_000).unwrap();
    assert!(k.single(1, &p, true, 10_000, 0, 0, 1000).is_ok());
    let ta = k.ta(1, &p);
    let had = k.bal(&ta[0]);
    let _ = k.single(1, &p, true, 0, 0, Q32 - Q32 / 100, 1000);
    assert_eq!(k.bal(&ta[0]), had, "more was taken than the trader said");
}
'''),
dict(id='minimum-of-everything', prop='C05', needs='a path swap whose minimum output is the largest number',
 breaks='the largest possible minimum counts as none',
 edits=[(L, '''            amount_in_internal >= amount_out_minimum,
''', '''            amount_in_internal.wrapping_add(1) >= amount_out_minimum.wrapping_add(1),
''')],
 demo='''
fn main() {
    let mut k = Kit::new(2, 2, 1000);
    let p = k.pool(0, 1, 3000, 60, Q32);
    k.deposit(0, &p, -600, 600, 1_000_000_000).unwrap();
    let (o, ta) = (k.u[1], k.ta(1, &p));
    for (min, ok) in [(0, true), (9000, true), (u64::MAX - 1, false), (u64::MAX, false)] {
        let pp = p.clone();
        let r = k.with_walk(&p, true, |k, rest| {
            let oi = k.ps(&pp).oi;
            let hop = Hop { p: pp.clone(), zfo: true, out: ta[1], last: oi, rest };
            k.tx(router_multi(o, ta[0], &[hop], 1000, 10_000, min), &[o])
        });
        assert_eq!(r.is_ok(), ok, "minimum {}", min);
    }
}
'''),
dict(id='history-per-crossing', prop='C22', needs='a trade that crosses two ticks in use, some time after the last observation',
 breaks='the second tick crossed by a trade records a history computed with the tick and liquidity in the middle of the trade',
 edits=[(L, '''                    if !cache.computed_latest_observation {
                        let new_observation = latest_observation.observe_latest(
                            cache.block_timestamp,
                            pool.tick,
                            pool.liquidity,
                        );''', '''                    if !cache.computed_latest_observation || cache.liquidity_start != state.liquidity {
                        let new_observation = latest_observation.observe_latest(
                            cache.block_timestamp,
                            pool.tick,
                            state.liquidity,
                        );''')],
 demo='''
fn main() {
    let mut k = Kit::new(2, 2, 1000);
    let p = k.pool(0, 1, 3000, 60, Q32);
    k.deposit(0, &p, -6000, 6000, 1_000_000_000).unwrap();
    k.deposit(0, &p, -600, 600, 1_000_000_000).unwrap();
    k.deposit(0, &p, -1200, 600, 3_000_000_000).unwrap();
    k.at(1010);
    // up to here everything was spent in the range, below 600 and above -600 and -1200
    k.swap(1, &p, true, i64::MAX / 2, MINP + 1).unwrap();
    let (a, b) = (r_tick(&k.b, &p.tick(-600)).unwrap(), r_tick(&k.b, &p.tick(-1200)).unwrap());
    assert_eq!((a.sec, a.tc, a.spl), (b.sec, b.tc, b.spl), "two ticks passed in one trade disagree about the time before");
}
'''),
dict(id='any-slot-as-last', prop='C18', needs='a pool with several observation slots in use, and a trader who passes an old one as the latest',
 breaks='a swap takes any slot of the pool for the latest observation',
 edits=[(L, '''        pool.validate_observation_address(
            &ctx.accounts.last_observation_state.key(),
            last_observation_state.load()?.bump,
            false,
        )?;

        require!(pool.unlocked, ErrorCode::LOK);
        require!(
            if zero_for_one {''', '''        assert!(
            ctx.accounts.last_observation_state.key()
                == Pubkey::find_program_address(
                    &[
                        OBSERVATION_SEED.as_bytes(),
                        pool.token_0.as_ref(),
                        pool.token_1.as_ref(),
                        &pool.fee.to_be_bytes(),
                        &last_observation_state.load()?.index.to_be_bytes(),
                    ],
                    &cyclos_core::id()
                )
                .0
        );

        require!(pool.unlocked, ErrorCode::LOK);
        require!(
            if zero_for_one {''')],
 demo='''
fn main() {
    let mut k = Kit::new(2, 2, 1000);
    let p = k.pool(0, 1, 3000, 60, Q32);
    k.deposit(0, &p, -6000, 6000, 1_000_000_000).unwrap();
    k.grow(&p, 2);
    for i in 0..2 { k.at(2000 + 100 * i); k.swap(1, &p, i % 2 == 0, 10_000_000, 0).unwrap(); }
    assert_eq!(k.ps(&p).oi, 2);
    let (o, ta) = (k.u[1], k.ta(1, &p));
    for last in [0, 1, 2] {
        let pp = p.clone();
        let b0 = k.b.clone();
        let r = k.with_walk(&p, true, |k, rest| k.tx(ix_swap(o, ta[0], ta[1], &pp, true, 1_000, MINP + 1, last, PROG, rest), &[o]));
        assert_eq!(r.is_ok(), last == 2, "slot {} passed as the latest", last);
        k.b = b0;
    }
}
'''),
dict(id='end-ticks-refused', prop='C32', needs='a pool whose tick spacing divides the outermost tick, and a position to the end of the range',
 breaks='the outermost ticks cannot be used although they are in range',
 edits=[(L, '''    require!(tick >= tick_math::MIN_TICK, ErrorCode::TLM);
    require!(tick <= tick_math::MAX_TICK, ErrorCode::TUM);
''', '''    require!(tick > tick_math::MIN_TICK, ErrorCode::TLM);
    require!(tick < tick_math::MAX_TICK, ErrorCode::TUM);
''')],
 demo='''
fn main() {
    let mut k = Kit::new(2, 2, 1000);
    let p = k.pool(0, 1, 500, 2, Q32);
    let o = k.u[0];
    for t in [-221818, -221816, 221816, 221818] { assert!(k.tx(init_tick(o, &p, t), &[o]).is_ok(), "tick {}", t); }
    for t in [-221820, 221820, -3] { assert!(k.tx(init_tick(o, &p, t), &[o]).is_err(), "tick {}", t); }
    k.deposit(0, &p, -221818, 221818, 1_000_000).expect("a position over the whole range");
}
'''),
dict(id='in-range-withdrawal-ceiled', prop='C31', needs='a deposit around the current price and its withdrawal',
 breaks='what a position in range gets back in token 0 is rounded up, so leaving in parts can pay more than entering cost',
 edits=[(L, '''            // Both Δtoken_0 and Δtoken_1 will be needed in current price
            amount_0 = sqrt_price_math::get_amount_0_delta_signed(
                pool_state.sqrt_price_x32,
                tick_math::get_sqrt_ratio_at_tick(tick_upper)?,
                liquidity_delta,
            );
''', '''            // Both Δtoken_0 and Δtoken_1 will be needed in current price
            // to the nearest unit
            amount_0 = liquidity_delta.signum()
                * sqrt_price_math::get_amount_0_delta_signed(
                    pool_state.sqrt_price_x32,
                    tick_math::get_sqrt_ratio_at_tick(tick_upper)?,
                    liquidity_delta.abs(),
                );
''')],
 demo='''
fn main() {
    let mut k = Kit::new(2, 2, 1000);
    let p = k.pool(0, 1, 3000, 60, Q32);
    k.deposit(0, &p, -6000, 6000, 1_000_000_000).unwrap();
    for l in [1_000_003u64, 77_777, 123_456_789] {
        let paid = k.deposit(1, &p, -600, 600, l).unwrap();
        let mut got = [0, 0];
        for n in [l / 3, l / 3, l - l / 3 * 2] { let g = k.remove(1, &p, -600, 600, n).unwrap(); got[0] += g[0]; got[1] += g[1]; }
        assert!(got[0] <= paid[0] && got[1] <= paid[1], "{:?} paid in, {:?} paid out", paid, got);
    }
}
'''),
]
