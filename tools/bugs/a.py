L = 'lib.rs'
BUGS = [
dict(id='collect-one-side', prop='C12', needs='an NFT holder collects only one token while fees of the other have accrued, then collects again',
 breaks='the snapshot of token 1 fee growth is taken only when token 1 is asked for, although the fees were already credited: the same fees are credited twice, at the expense of other NFT holders of the range',
 edits=[(L, '''            tokenized_position.fee_growth_inside_1_last_x32 =
                core_position.fee_growth_inside_1_last_x32;
        }

        // adjust''', '''            if amount_1_max > 0 {
                tokenized_position.fee_growth_inside_1_last_x32 =
                    core_position.fee_growth_inside_1_last_x32;
            }
        }

        // adjust''')],
 demo='''
fn main() {
    let mut k = Kit::new(3, 2, 1000);
    let p = k.pool(0, 1, 3000, 60, Q32);
    let d = [1_000_000_000, 1_000_000_000];
    let (a, _) = k.nmint(0, &p, -600, 600, d, [0, 0], 9999).unwrap();
    let (_b, _) = k.nmint(1, &p, -600, 600, d, [0, 0], 9999).unwrap();
    k.swap(2, &p, false, 10_000_000, 0).unwrap();
    k.swap(2, &p, true, 10_000_000, 0).unwrap();
    let x = k.ncollect(0, 0, &p, a, [u64::MAX, 0]).unwrap();
    assert!(x[0] > 0 && x[1] == 0);
    let y = k.ncollect(0, 0, &p, a, [0, u64::MAX]).unwrap();
    let z = k.ncollect(0, 0, &p, a, [u64::MAX, u64::MAX]).unwrap();
    // LP fee of 30000 * 2/3 shared by two equal positions
    assert!(y[1] <= 10_000, "collected {} of token 1", y[1]);
    assert_eq!(z, [0, 0]);
}
'''),
dict(id='growth-after-cross', prop='C10', needs='a swap that crosses an initialized tick where liquidity changes',
 breaks='the fee of a price step is shared among the liquidity of the next range instead of the range it was paid in',
 edits=[(L, '''            // update global fee tracker
            if state.liquidity > 0 {
                state.fee_growth_global_x32 += step
                    .fee_amount
                    .mul_div_floor(fixed_point_32::Q32, state.liquidity)
                    .unwrap();
            }

            // shift tick if we reached the next price''', '''            // shift tick if we reached the next price'''),
  (L, '''                state.tick = tick_math::get_tick_at_sqrt_ratio(state.sqrt_price_x32)?;
            }
        }
        let partition''', '''                state.tick = tick_math::get_tick_at_sqrt_ratio(state.sqrt_price_x32)?;
            }

            // update global fee tracker
            if state.liquidity > 0 {
                state.fee_growth_global_x32 += step
                    .fee_amount
                    .mul_div_floor(fixed_point_32::Q32, state.liquidity)
                    .unwrap();
            }
        }
        let partition''')],
 demo='''
fn main() {
    let mut k = Kit::new(3, 2, 1000);
    let p = k.pool(0, 1, 3000, 60, Q32);
    k.deposit(0, &p, -60, 60, 1_000_000_000_000).unwrap();
    k.deposit(1, &p, -6000, 6000, 1_000_000_000).unwrap();
    k.swap(2, &p, false, 100_000_000_000, 0).unwrap();
    k.remove(0, &p, -60, 60, 0).unwrap();
    k.remove(1, &p, -6000, 6000, 0).unwrap();
    let (a, b) = (k.posn(0, &p, -60, 60).owed[1], k.posn(1, &p, -6000, 6000).owed[1]);
    // to leave -60..60 takes about 3.004e9 of token 1, whose LP fee is about 6e6 and belongs almost wholly to user 0
    assert!(a > 5_900_000, "the in-range provider earned {}, the wide one {}", a, b);
}
'''),
dict(id='observe-after-liquidity', prop='C20', needs='liquidity is added or removed in range some time after the last observation, then an observation is read',
 breaks='the seconds-per-liquidity accumulator uses the new liquidity for the time before the change',
 edits=[(L, '''            pool_state.liquidity =
                liquidity_math::add_delta(pool_state.liquidity, liquidity_delta)?;
        }
        // current tick is above''', '''        }
        // current tick is above'''),
  (L, '''            let timestamp = oracle::_block_timestamp();
            let partition_current_timestamp = timestamp / 14;''', '''            pool_state.liquidity =
                liquidity_math::add_delta(pool_state.liquidity, liquidity_delta)?;
            let timestamp = oracle::_block_timestamp();
            let partition_current_timestamp = timestamp / 14;''')],
 demo='''
fn main() {
    let mut k = Kit::new(2, 2, 14_000);
    let p = k.pool(0, 1, 3000, 60, Q32);
    k.grow(&p, 2);
    k.deposit(0, &p, -600, 600, 1_000).unwrap();
    k.at(14_100);
    k.deposit(1, &p, -600, 600, 999_000).unwrap();
    let o = r_obs(&k.b, &p.obs(k.ps(&p).oi)).unwrap();
    assert_eq!(o.ts, 14_100);
    assert_eq!(o.spl, (100u64 << 32) / 1_000, "100 seconds at liquidity 1000");
}
'''),
dict(id='index-only-when-new', prop='C21', needs='the oracle ring has wrapped around and liquidity is then changed in range in a later slot',
 breaks='a deposit into an already initialized slot does not advance the pool to it: the pool points at a stale observation',
 edits=[(L, '''            pool_state.observation_index = new_observation.index;

            // Both''', '''            if new_observation.index == pool_state.observation_cardinality - 1 {
                pool_state.observation_index = new_observation.index;
            }

            // Both''')],
 demo='''
fn main() {
    let mut k = Kit::new(2, 2, 14_000);
    let p = k.pool(0, 1, 3000, 60, Q32);
    k.grow(&p, 2);
    let mut want = 0;
    k.deposit(0, &p, -600, 600, 1_000_000).unwrap();
    for i in 1..9u64 {
        k.at(14_000 + 100 * i as i64);
        k.deposit(0, &p, -600, 600, 1_000_000).unwrap();
        want = (want + 1) % 3;
        let s = k.ps(&p);
        assert_eq!(s.oi, want, "after {} deposits", i);
        assert_eq!(r_obs(&k.b, &p.obs(s.oi)).unwrap().ts as i64, k.b.now);
    }
}
'''),
dict(id='close-balanced-tick', prop='C24', needs='two positions share a tick (one from below, one from above) with equal liquidity, above the current price',
 breaks='a tick with zero net liquidity passes as clear and can be closed while positions use it',
 edits=[('states/tick.rs', '''            && self.liquidity_gross == 0
''', '')],
 demo='''
fn main() {
    let mut k = Kit::new(2, 2, 1000);
    let p = k.pool(0, 1, 3000, 60, Q32);
    k.deposit(0, &p, -600, 600, 1_000_000).unwrap();
    k.deposit(1, &p, 600, 1200, 1_000_000).unwrap();
    let u = k.u[1];
    let r = k.tx(close_tick(&p, 600, u), &[]);
    assert!(r.is_err(), "closed a tick in use");
    k.remove(0, &p, -600, 600, 1_000_000).unwrap();
    k.remove(1, &p, 600, 1200, 1_000_000).unwrap();
    assert!(k.tx(close_tick(&p, 600, u), &[]).is_ok());
}
'''),
dict(id='exact-out-unpaid', prop='C19', needs='an exact-output swap with a callback program that does not pay',
 breaks='the payment check is made for exact-input swaps only',
 edits=[(L, '''            vault_0.reload()?;
            require!(
                balance_0_before.checked_add(amount_0 as u64).unwrap() <= vault_0.amount,
                ErrorCode::IIA
            );
        } else {''', '''            vault_0.reload()?;
            let paid_0 = vault_0.amount - balance_0_before;
            require!(
                amount_specified.min(amount_0) <= paid_0 as i64,
                ErrorCode::IIA
            );
        } else {''')],
 demo='''
fn main() {
    let mut k = Kit::new(2, 2, 1000);
    let p = k.pool(0, 1, 3000, 60, Q32);
    k.deposit(0, &p, -600, 600, 1_000_000_000).unwrap();
    let cb = key(1, 77);
    k.b.put(cb, Acct { lamports: 1, data: vec![], owner: K::default(), exec: true });
    set_hostile(cb, std::rc::Rc::new(|_, _, _| Ok(())));
    let (o, ta, v) = (k.u[1], k.ta(1, &p), k.vaults(&p));
    for amt in [100_000i64, -100_000] {
        let pp = p.clone();
        let r = k.with_walk(&p, true, |k, rest| { let oi = k.ps(&pp).oi; k.tx(ix_swap(o, ta[0], ta[1], &pp, true, amt, MINP + 1, oi, cb, rest), &[o]) });
        assert!(r.is_err(), "unpaid swap of {} succeeded", amt);
        assert_eq!(k.vaults(&p), v);
    }
    assert!(k.swap(1, &p, true, -100_000, MINP + 1).is_ok());
}
'''),
dict(id='delegate-of-empty-account', prop='C13', needs='a user with an empty token account of the NFT approves a delegate on it, who signs',
 breaks='the NFT balance is checked for owners only, so a delegate of an empty account is authorized',
 edits=[('access_control.rs', '''        token_account.amount == 1
            && (token_account.owner == signer.key()
                || (token_account.delegate.contains(&signer.key())
                    && token_account.delegated_amount > 0)),''', '''        (token_account.amount == 1 && token_account.owner == signer.key())
            || (token_account.delegate.contains(&signer.key())
                && token_account.delegated_amount > 0),''')],
 demo='''
fn main() {
    let mut k = Kit::new(4, 2, 1000);
    let p = k.pool(0, 1, 3000, 60, Q32);
    let (n, _) = k.nmint(0, &p, -600, 600, [1_000_000, 1_000_000], [0, 0], 9999).unwrap();
    // user 1 owns an empty account of the NFT and approves user 2 on it
    let acct = ata(&k.u[1], &n);
    let o = k.u[1];
    k.b.put(acct, tk_acct(&n, &o, 0));
    let (u1, u2) = (k.u[1], k.u[2]);
    k.ok(tk_approve(acct, u2, u1, 1), &[u1]);
    assert!(k.ndec(2, 1, &p, n, 10, [0, 0], 9999).is_err(), "delegate of an empty account withdrew");
    assert!(k.ndec(1, 1, &p, n, 10, [0, 0], 9999).is_err());
    // a delegate of the holder may
    let (u0, u3) = (k.u[0], k.u[3]);
    k.ok(tk_approve(ata(&u0, &n), u3, u0, 1), &[u0]);
    assert!(k.ndec(3, 0, &p, n, 10, [0, 0], 9999).is_ok());
}
'''),
dict(id='anyone-enables-fees', prop='C15', needs='somebody other than the protocol owner enables a fee tier',
 breaks='the fee tier account no longer requires the protocol owner',
 edits=[('context.rs', '''    #[account(mut, address = factory_state.load()?.owner)]
    pub owner: Signer<'info>,

    /// Factory state stores the protocol owner address
    #[account(mut)]
    pub factory_state: AccountLoader<'info, FactoryState>,

    /// Initialize an account to store new fee tier''', '''    #[account(mut)]
    pub owner: Signer<'info>,

    /// Factory state stores the protocol owner address
    #[account(mut)]
    pub factory_state: AccountLoader<'info, FactoryState>,

    /// Initialize an account to store new fee tier''')],
 demo='''
fn main() {
    let mut k = Kit::new(2, 2, 1000);
    let (a, b) = (k.u[0], k.u[1]);
    assert!(k.tx(enable_fee(b, 777, 7), &[b]).is_err(), "a stranger enabled a fee tier");
    assert!(k.tx(enable_fee(a, 777, 7), &[a]).is_ok());
}
'''),
dict(id='any-word-of-pool', prop='C18', needs='a burn that empties its upper tick is given the bitmap account of another word of the pool',
 breaks='the upper bitmap account is checked against its own word number instead of the word of the upper tick',
 edits=[(L, '''            bitmap_upper_state.load()?.bump,
            tick_bitmap::position(tick_upper.tick / pool.tick_spacing as i32).word_pos,
        )?;

        let position_state = AccountLoader::<PositionState>::try_from(
            &ctx.accounts.position_state.to_account_info(),
        )?;
        pool.validate_position_address(
            &ctx.accounts.position_state.key(),
            position_state.load()?.bump,
            &ctx.accounts.owner.key(),''', '''            bitmap_upper_state.load()?.bump,
            bitmap_upper_state.load()?.word_pos,
        )?;

        let position_state = AccountLoader::<PositionState>::try_from(
            &ctx.accounts.position_state.to_account_info(),
        )?;
        pool.validate_position_address(
            &ctx.accounts.position_state.key(),
            position_state.load()?.bump,
            &ctx.accounts.owner.key(),''')],
 demo='''
fn main() {
    let mut k = Kit::new(2, 2, 1000);
    let p = k.pool(0, 1, 3000, 60, Q32);
    k.deposit(0, &p, -600, 600, 1_000_000).unwrap();
    k.ticks(&p, &[60 * 256]);
    let o = k.u[0];
    let mut ix = burn(o, &p, -600, 600, 1_000_000, 0, vec![]);
    let good = k.b.clone();
    ix.metas[5] = rw(p.word(1));
    assert!(k.tx(ix, &[o]).is_err(), "burned with the bitmap of another word");
    k.b = good;
    assert!(k.remove(0, &p, -600, 600, 1_000_000).is_ok());
}
'''),
dict(id='limit-at-minimum', prop='C04', needs='a swap with the price limit exactly at the minimum price',
 breaks='a price limit outside the usable price range is accepted',
 edits=[(L, '''                    && sqrt_price_limit_x32 > tick_math::MIN_SQRT_RATIO''', '''                    && sqrt_price_limit_x32 >= tick_math::MIN_SQRT_RATIO''')],
 demo='''
fn main() {
    let mut k = Kit::new(2, 2, 1000);
    let p = k.pool(0, 1, 3000, 60, Q32);
    k.deposit(0, &p, -600, 600, 1_000_000).unwrap();
    assert!(k.swap(1, &p, true, 1000, 65537).is_err(), "limit at the minimum accepted");
    assert!(k.swap(1, &p, false, 1000, 281472331703918).is_err());
    assert!(k.swap(1, &p, true, 1000, 65538).is_ok());
}
'''),
dict(id='negative-deadline', prop='C07', needs='a negative deadline',
 breaks='the deadline is compared as unsigned, so a negative one never expires',
 edits=[('access_control.rs', '''        Clock::get()?.unix_timestamp <= deadline,''', '''        Clock::get()?.unix_timestamp as u64 <= deadline as u64,''')],
 demo='''
fn main() {
    let mut k = Kit::new(2, 2, 1000);
    let p = k.pool(0, 1, 3000, 60, Q32);
    k.deposit(0, &p, -600, 600, 1_000_000).unwrap();
    assert!(k.single(1, &p, true, 1000, 0, 0, 1000).is_ok());
    for d in [999, 0, -1, i64::MIN] { assert!(k.single(1, &p, true, 1000, 0, 0, d).is_err(), "deadline {} accepted", d); }
    assert!(k.nmint(0, &p, -600, 600, [1000, 1000], [0, 0], -5).is_err());
}
'''),
dict(id='hop-sweeps-balance', prop='C08', needs='a path swap by a trader who already holds some of the intermediate token',
 breaks='a hop spends the whole balance of the intermediate account instead of what the previous hop paid',
 edits=[(L, '''            amount_in_internal = exact_input_internal(
                &mut SwapContext {
                    signer: ctx.accounts.signer.clone(),
                    factory_state: ctx.accounts.factory_state.clone(),
                    input_token_account: input_token_account.clone(),
                    pool_state,''', '''            let received = exact_input_internal(
                &mut SwapContext {
                    signer: ctx.accounts.signer.clone(),
                    factory_state: ctx.accounts.factory_state.clone(),
                    input_token_account: input_token_account.clone(),
                    pool_state,'''),
 (L, '''            if i < additional_accounts_per_pool.len() - 1 {
                // reach''', '''            amount_in_internal = received;
            if i < additional_accounts_per_pool.len() - 1 {
                // reach'''),
 (L, '''                // output token account is the new input
                input_token_account = output_token_account;''', '''                // output token account is the new input, spent in full
                amount_in_internal =
                    Account::<TokenAccount>::try_from(&output_token_account)?.amount;
                input_token_account = output_token_account;''')],
 demo='''
fn main() {
    let mut k = Kit::new(2, 3, 1000);
    let p = k.pool(0, 1, 3000, 60, Q32);
    let q = k.pool(1, 2, 3000, 60, Q32);
    for x in [&p, &q] { k.deposit(0, x, -60000, 60000, 1_000_000_000).unwrap(); }
    let u = k.u[1];
    // the trader keeps 500000 of the middle token
    let mid = ata(&u, &p.t[1]);
    k.b.put(mid, tk_acct(&p.t[1], &u, 500_000));
    let hops = [Hop { p: p.clone(), zfo: true, out: mid, last: 0, rest: vec![rw(p.word(-1))] }, Hop { p: q.clone(), zfo: true, out: ata(&u, &q.t[1]), last: 0, rest: vec![rw(q.word(-1))] }];
    let mut hops = hops;
    let a = rw(p.word(0));
    let b = rw(q.word(0));
    hops[0].rest = vec![a, rw(p.word(-1))];
    hops[1].rest = vec![b, rw(q.word(-1))];
    let r = k.tx(router_multi(u, ata(&u, &p.t[0]), &hops, 9999, 10_000, 0), &[u]);
    assert!(r.is_ok(), "{:?}", r.err());
    assert_eq!(k.bal(&mid), 500_000, "the intermediate balance changed");
}
'''),
dict(id='limit-replaces-minimum', prop='C05', needs='a single-pool router swap with both a price limit and a minimum output it does not reach',
 breaks='the minimum output is not enforced when a price limit is given',
 edits=[(L, '''        require!(
            amount_out >= amount_out_minimum,
            ErrorCode::TooLittleReceived
        );''', '''        require!(
            sqrt_price_limit_x32 != 0 || amount_out >= amount_out_minimum,
            ErrorCode::TooLittleReceived
        );''')],
 demo='''
fn main() {
    let mut k = Kit::new(2, 2, 1000);
    let p = k.pool(0, 1, 3000, 60, Q32);
    k.deposit(0, &p, -6000, 6000, 1_000_000_000).unwrap();
    let b = k.b.clone();
    let got = k.single(1, &p, true, 100_000, 0, 0, 9999).unwrap();
    for limit in [0, Q32 / 2] {
        k.b = b.clone();
        assert!(k.single(1, &p, true, 100_000, got + 1, limit, 9999).is_err(), "minimum ignored with limit {}", limit);
        k.b = b.clone();
        assert_eq!(k.single(1, &p, true, 100_000, got, limit, 9999).unwrap(), got);
    }
}
'''),
dict(id='swapped-minimums', prop='C06', needs='increasing an NFT position with different minimum amounts for the two tokens',
 breaks='increase_liquidity checks each token against the other one\'s minimum',
 edits=[(L, '''            amount_0_desired,
            amount_1_desired,
            amount_0_min,
            amount_1_min,
            tick_lower,
            tick_upper,
        )?;

        let core_position_state''', '''            amount_0_desired,
            amount_1_desired,
            amount_1_min,
            amount_0_min,
            tick_lower,
            tick_upper,
        )?;

        let core_position_state''')],
 demo='''
fn main() {
    let mut k = Kit::new(2, 2, 1000);
    let p = k.pool(0, 1, 3000, 60, Q32);
    let (n, _) = k.nmint(0, &p, -600, 1200, [1_000_000, 1_000_000], [0, 0], 9999).unwrap();
    let b = k.b.clone();
    let a = k.ninc(0, &p, n, [1_000_000, 1_000_000], [0, 0], 9999).unwrap();
    assert!(a[0] != a[1]);
    k.b = b.clone();
    assert_eq!(k.ninc(0, &p, n, [1_000_000, 1_000_000], a, 9999).unwrap(), a);
    for m in [[a[0] + 1, 0], [0, a[1] + 1]] {
        k.b = b.clone();
        assert!(k.ninc(0, &p, n, [1_000_000, 1_000_000], m, 9999).is_err(), "minimum {:?} not met but accepted", m);
    }
}
'''),
dict(id='protocol-fee-wrong-token', prop='C11', needs='an exact-output swap',
 breaks='the protocol share of exact-output swaps is booked in the output token',
 edits=[(L, '''            pool.fee_growth_global_0_x32 = state.fee_growth_global_x32;
            if state.protocol_fee > 0 {
                pool.protocol_fees_token_0 += state.protocol_fee;
            }
        } else {
            pool.fee_growth_global_1_x32 = state.fee_growth_global_x32;
            if state.protocol_fee > 0 {
                pool.protocol_fees_token_1 += state.protocol_fee;
            }
        }''', '''            pool.fee_growth_global_0_x32 = state.fee_growth_global_x32;
        } else {
            pool.fee_growth_global_1_x32 = state.fee_growth_global_x32;
        }
        // the fee is charged on the specified token
        if zero_for_one == exact_input {
            pool.protocol_fees_token_0 += state.protocol_fee;
        } else {
            pool.protocol_fees_token_1 += state.protocol_fee;
        }''')],
 demo='''
fn main() {
    let mut k = Kit::new(2, 2, 1000);
    let p = k.pool(0, 1, 3000, 60, Q32);
    k.deposit(0, &p, -6000, 6000, 1_000_000_000).unwrap();
    for (zfo, amt) in [(true, 100_000i64), (false, 100_000), (true, -100_000), (false, -100_000)] {
        let a = k.ps(&p).prot;
        k.swap(1, &p, zfo, amt, 0).unwrap();
        let b = k.ps(&p).prot;
        let i = if zfo { 0 } else { 1 };
        assert!(b[i] > a[i] && b[1 - i] == a[1 - i], "zfo {} amount {}: {:?} -> {:?}", zfo, amt, a, b);
    }
}
'''),
dict(id='burn-without-owner', prop='C16', needs='somebody burns a position naming its owner without the owner\'s signature',
 breaks='the position owner need not sign a burn',
 edits=[('context.rs', '''pub struct BurnContext<'info> {
    /// The position owner
    pub owner: Signer<'info>,''', '''pub struct BurnContext<'info> {
    /// The position owner
    pub owner: UncheckedAccount<'info>,'''),
  (L, '''        let mut core_position_owner = ctx.accounts.factory_state.to_account_info();
        core_position_owner.is_signer = true;
        let mut accounts = BurnContext {
            owner: Signer::try_from(&core_position_owner)?,''', '''        let mut accounts = BurnContext {
            owner: UncheckedAccount::try_from(ctx.accounts.factory_state.to_account_info()),'''),
  (L, '''            let mut core_position_owner = ctx.accounts.factory_state.to_account_info();
            core_position_owner.is_signer = true;
            let mut burn_accounts = BurnContext {
                owner: Signer::try_from(&core_position_owner)?,''', '''            let mut burn_accounts = BurnContext {
                owner: UncheckedAccount::try_from(ctx.accounts.factory_state.to_account_info()),''')],
 demo='''
fn main() {
    let mut k = Kit::new(2, 2, 1000);
    let p = k.pool(0, 1, 3000, 60, Q32);
    k.deposit(0, &p, -600, 600, 1_000_000).unwrap();
    let o = k.u[0];
    let mut ix = burn(o, &p, -600, 600, 1_000_000, 0, vec![]);
    ix.metas[0].s = false;
    assert!(k.tx(ix, &[]).is_err(), "burned without the owner's signature");
    assert!(k.remove(0, &p, -600, 600, 1_000_000).is_ok());
}
'''),
dict(id='fee-share-zero', prop='C23', needs='the owner sets the protocol share denominator to zero',
 breaks='a denominator outside 2 to 10 is accepted',
 edits=[(L, '''        assert!(fee_protocol >= 2 && fee_protocol <= 10);''', '''        assert!(fee_protocol == 0 || (fee_protocol >= 2 && fee_protocol <= 10));''')],
 demo='''
fn main() {
    let mut k = Kit::new(1, 2, 1000);
    let o = k.u[0];
    for x in 0..=255u8 {
        let r = k.tx(set_fee_protocol(o, x), &[o]);
        assert_eq!(r.is_ok(), (2..=10).contains(&x), "denominator {}", x);
    }
}
'''),
dict(id='event-old-liquidity', prop='C25', needs='a swap that crosses a tick where liquidity changes',
 breaks='the swap event reports the liquidity from before the swap',
 edits=[(L, '''            liquidity: state.liquidity,
            tick: state.tick
        });''', '''            liquidity: cache.liquidity_start,
            tick: state.tick
        });''')],
 demo='''
fn main() {
    let mut k = Kit::new(3, 2, 1000);
    let p = k.pool(0, 1, 3000, 60, Q32);
    k.deposit(0, &p, -60, 60, 1_000_000_000).unwrap();
    k.deposit(1, &p, -6000, 6000, 1_000_000_000).unwrap();
    let (o, ta) = (k.u[2], k.ta(2, &p));
    for amt in [1_000i64, 50_000_000] {
        let pp = p.clone();
        let r = k.with_walk(&p, false, |k, rest| { let oi = k.ps(&pp).oi; k.tx(ix_swap(o, ta[1], ta[0], &pp, false, amt, MAXP, oi, PROG, rest), &[o]) }).unwrap();
        let e = r.events.iter().find(|e| e[..8] == disc("event:SwapEvent")).unwrap();
        // pool, sender, two accounts, two amounts, price, liquidity, tick
        let at = 8 + 32 * 4 + 8 * 3;
        assert_eq!(g64(e, at), k.ps(&p).liq, "liquidity in the event");
    }
}
'''),
]
