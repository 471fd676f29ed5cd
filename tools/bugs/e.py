L = 'lib.rs'
X = 'context.rs'
BUGS = [
dict(id='open-while-paying', prop='C19', needs='a callback program that uses the pool again while it is asked to pay for a swap',
 breaks='a swap releases the pool before payment is asked for',
 edits=[(L, '''            &[pool.bump],
        ];
        drop(pool);

        msg!("vault balances {} {}", vault_0.amount, vault_1.amount);
''', '''            &[pool.bump],
        ];
        pool.unlocked = true;
        drop(pool);

        msg!("vault balances {} {}", vault_0.amount, vault_1.amount);
'''), (L, '''            tick: state.tick
        });
        pool_loader.load_mut()?.unlocked = true;
''', '''            tick: state.tick
        });
''')],
 demo='''
fn main() {
    let mut k = Kit::new(2, 2, 1000);
    let p = k.pool(0, 1, 3000, 60, Q32);
    k.deposit(0, &p, -600, 600, 1_000_000_000).unwrap();
    let cb = key(1, 77);
    k.b.put(cb, Acct { lamports: 1, data: vec![], owner: K::default(), exec: true });
    let open = std::rc::Rc::new(std::cell::Cell::new(0u32));
    let (seen, pk) = (open.clone(), p.key);
    set_hostile(cb, std::rc::Rc::new(move |_, infos, _| {
        for i in infos { if *i.key == pk && i.try_borrow_data().map(|d| g8(&d, UNLOCKED_AT) != 0).unwrap_or(false) { seen.set(seen.get() + 1); } }
        Ok(())
    }));
    let (o, ta) = (k.u[1], k.ta(1, &p));
    for zfo in [true, false] {
        let pp = p.clone();
        let (a, b) = if zfo { (0, 1) } else { (1, 0) };
        let _ = k.with_walk(&p, zfo, |k, rest| { let oi = k.ps(&pp).oi; k.tx(ix_swap(o, ta[a], ta[b], &pp, zfo, 100_000, if zfo { MINP + 1 } else { MAXP - 1 }, oi, cb, rest), &[o]) });
    }
    assert_eq!(open.get(), 0, "the pool was free for use while its payment was due");
    assert!(k.swap(1, &p, true, 100_000, MINP + 1).is_ok());
    assert!(k.swap(1, &p, false, 100_000, MAXP - 1).is_ok());
}
'''),
dict(id='paid-to-owner-by-anyone', prop='C16', needs='somebody else collects a position, into token accounts of its owner',
 breaks='collecting needs no signature as long as the tokens go to accounts of the owner',
 edits=[(X, '''pub struct CollectContext<'info> {
    /// The position owner
    pub owner: Signer<'info>,
''', '''pub struct CollectContext<'info> {
    /// The position owner
    /// CHECK: Signature checked inside function body
    pub owner: UncheckedAccount<'info>,
'''), (L, '''        let pool_state =
            AccountLoader::<PoolState>::try_from(&ctx.accounts.pool_state.to_account_info())?;
        let mut pool = pool_state.load_mut()?;

        let tick_lower_state =
            AccountLoader::<TickState>::try_from(&ctx.accounts.tick_lower_state.to_account_info())?;
        let tick_lower = *tick_lower_state.load()?.deref();
        pool.validate_tick_address(
            &ctx.accounts.tick_lower_state.key(),
            tick_lower.bump,
            tick_lower.tick,
        )?;

        let tick_upper_state =
            AccountLoader::<TickState>::try_from(&ctx.accounts.tick_upper_state.to_account_info())?;
        let tick_upper = *tick_upper_state.load()?.deref();
        pool.validate_tick_address(
            &ctx.accounts.tick_upper_state.key(),
            tick_upper.bump,
            tick_upper.tick,
        )?;

        let position_state = AccountLoader::<PositionState>::try_from(
            &ctx.accounts.position_state.to_account_info(),
        )?;
        pool.validate_position_address(
            &ctx.accounts.position_state.key(),
            position_state.load()?.bump,
            &ctx.accounts.owner.key(),
            tick_lower.tick,
            tick_upper.tick,
        )?;

        assert!(
            ctx.accounts.vault_0''', '''        let owner = ctx.accounts.owner.key();
        if !ctx.accounts.owner.is_signer {
            for wallet in [
                &ctx.accounts.recipient_wallet_0,
                &ctx.accounts.recipient_wallet_1,
            ] {
                require!(
                    Account::<TokenAccount>::try_from(&wallet.to_account_info())?.owner == owner,
                    ErrorCode::NotApproved
                );
            }
        }
        let pool_state =
            AccountLoader::<PoolState>::try_from(&ctx.accounts.pool_state.to_account_info())?;
        let mut pool = pool_state.load_mut()?;

        let tick_lower_state =
            AccountLoader::<TickState>::try_from(&ctx.accounts.tick_lower_state.to_account_info())?;
        let tick_lower = *tick_lower_state.load()?.deref();
        pool.validate_tick_address(
            &ctx.accounts.tick_lower_state.key(),
            tick_lower.bump,
            tick_lower.tick,
        )?;

        let tick_upper_state =
            AccountLoader::<TickState>::try_from(&ctx.accounts.tick_upper_state.to_account_info())?;
        let tick_upper = *tick_upper_state.load()?.deref();
        pool.validate_tick_address(
            &ctx.accounts.tick_upper_state.key(),
            tick_upper.bump,
            tick_upper.tick,
        )?;

        let position_state = AccountLoader::<PositionState>::try_from(
            &ctx.accounts.position_state.to_account_info(),
        )?;
        pool.validate_position_address(
            &ctx.accounts.position_state.key(),
            position_state.load()?.bump,
            &owner,
            tick_lower.tick,
            tick_upper.tick,
        )?;

        assert!(
            ctx.accounts.vault_0'''), (L, '''        let mut accounts = CollectContext {
            owner: Signer::try_from(&core_position_owner)?,''', '''        let mut accounts = CollectContext {
            owner: UncheckedAccount::try_from(core_position_owner),''')],
 demo='''
fn main() {
    let mut k = Kit::new(2, 2, 1000);
    let p = k.pool(0, 1, 3000, 60, Q32);
    k.deposit(0, &p, -600, 600, 1_000_000_000).unwrap();
    k.remove(0, &p, -600, 600, 500_000_000).unwrap();
    let o = k.u[0];
    let other = k.u[1];
    let ta = k.ta(0, &p);
    let owed = k.posn(0, &p, -600, 600).owed;
    let mut ix = collect(o, &p, -600, 600, ta, [u64::MAX, u64::MAX]);
    for m in ix.metas.iter_mut() { if m.k == o { m.s = false; } }
    assert!(k.tx(ix, &[other]).is_err(), "collected without the owner's signature");
    assert_eq!(k.posn(0, &p, -600, 600).owed, owed);
    assert_eq!(k.take(0, &p, -600, 600, [u64::MAX, u64::MAX]).unwrap(), owed);
}
'''),
dict(id='minimum-met-by-fees', prop='C06', needs='liquidity with uncollected fees is removed with a minimum above the removed amount',
 breaks='fees credited by a decrease count towards its minimum amounts',
 edits=[(L, '''            amount_0 >= amount_0_min && amount_1 >= amount_1_min,
            ErrorCode::PriceSlippageCheck
        );

        // Update the tokenized position''', '''            amount_0 + fees_0 >= amount_0_min && amount_1 + fees_1 >= amount_1_min,
            ErrorCode::PriceSlippageCheck
        );

        // Update the tokenized position''')],
 demo='''
fn main() {
    let mut k = Kit::new(2, 2, 1000);
    let p = k.pool(0, 1, 3000, 60, Q32);
    let (n, _) = k.nmint(0, &p, -600, 600, [1_000_000, 1_000_000], [0, 0], 9999).unwrap();
    k.single(1, &p, true, 500_000, 0, 0, 9999).unwrap();
    k.single(1, &p, false, 500_000, 0, 0, 9999).unwrap();
    let liq = k.nft(&n).liq / 2;
    // what the liquidity itself is worth, found without fees in a copy
    let b = k.b.clone();
    k.ndec(0, 0, &p, n, 1, [0, 0], 9999).unwrap();
    let o0 = k.nft(&n).owed;
    k.ndec(0, 0, &p, n, liq, [0, 0], 9999).unwrap();
    let o1 = k.nft(&n).owed;
    k.b = b;
    let worth = [o1[0] - o0[0], o1[1] - o0[1]];
    assert!(k.ndec(0, 0, &p, n, liq, [worth[0] + 100, worth[1]], 9999).is_err(), "fees were counted");
    assert!(k.ndec(0, 0, &p, n, liq, [worth[0], worth[1] + 100], 9999).is_err(), "fees were counted");
    assert!(k.ndec(0, 0, &p, n, liq, [worth[0] - 2, worth[1] - 2], 9999).is_ok());
}
'''),
dict(id='tick-seconds-of-32-bits', prop='C20', needs='a price far from 1 is left alone for hours',
 breaks='tick times elapsed seconds is multiplied in 32 bits',
 edits=[('states/oracle.rs', 'self.tick_cumulative + tick as i64 * delta as i64,', 'self.tick_cumulative + tick.wrapping_mul(delta as i32) as i64,')],
 demo='''
fn main() {
    let mut k = Kit::new(2, 2, 1_000_000);
    let p = k.pool(0, 1, 3000, 60, Q32 * 1000);
    k.deposit(0, &p, 120000, 180000, 1_000_000).unwrap();
    let t = k.ps(&p).tick as i64;
    let a = r_obs(&k.b, &p.obs(k.ps(&p).oi)).unwrap();
    k.at(1_000_000 + 40_000);
    k.swap(1, &p, false, 1_000_000, 0).unwrap();
    let z = r_obs(&k.b, &p.obs(k.ps(&p).oi)).unwrap();
    assert_eq!(z.tc - a.tc, t * (z.ts - a.ts) as i64);
}
'''),
dict(id='successor-signs', prop='C15', needs='the account to become the owner signs instead of the owner',
 breaks='ownership can be taken by whoever is named as the new owner',
 edits=[(X, '''    /// Current protocol owner
    #[account(address = factory_state.load()?.owner)]
    pub owner: Signer<'info>,

    /// Address to be designated''', '''    /// Current protocol owner, or the successor accepting
    #[account(constraint = owner.key() == factory_state.load()?.owner || owner.key() == new_owner.key())]
    pub owner: Signer<'info>,

    /// Address to be designated''')],
 demo='''
fn main() {
    let mut k = Kit::new(2, 2, 1000);
    let u = k.u[1];
    assert!(k.tx(set_owner(u, u), &[u]).is_err(), "ownership taken");
    assert!(k.tx(set_fee_protocol(u, 5), &[u]).is_err());
}
'''),
dict(id='closer-is-holder', prop='C13', needs='the token account holding the NFT has a close authority, who signs',
 breaks='the close authority of the token account that holds an NFT counts as its delegate',
 edits=[('access_control.rs', '''            && (token_account.owner == signer.key()
''', '''            && (token_account.owner == signer.key() || token_account.close_authority.contains(&signer.key())
''')],
 demo='''
fn main() {
    let mut k = Kit::new(2, 2, 1000);
    let p = k.pool(0, 1, 3000, 60, Q32);
    let (n, _) = k.nmint(0, &p, -600, 600, [1_000_000, 1_000_000], [0, 0], 9999).unwrap();
    let (h, c) = (k.u[0], k.u[1]);
    // the holder names a close authority
    let i = spl_token::instruction::set_authority(&spl_token::ID, &ata(&h, &n), Some(&c), spl_token::instruction::AuthorityType::CloseAccount, &h, &[]).unwrap();
    let ix = Ix { prog: tok(), metas: vec![rw(ata(&h, &n)), sg(h)], data: i.data };
    k.ok(ix, &[h]);
    assert!(k.ndec(1, 0, &p, n, 1000, [0, 0], 9999).is_err(), "the close authority withdrew");
    assert!(k.ndec(0, 0, &p, n, 1000, [0, 0], 9999).is_ok());
}
'''),
dict(id='pool-in-either-order', prop='C23', needs='a pool is created with its tokens in descending order',
 breaks='a second pool can be created for the same tokens in the other order',
 edits=[(X, 'constraint = token_0.key() < token_1.key()', 'constraint = token_0.key() != token_1.key()')],
 demo='''
fn main() {
    let mut k = Kit::new(2, 2, 1000);
    let p = k.pool(0, 1, 3000, 60, Q32);
    let o = k.u[0];
    let q = PoolId::new(p.t[1], p.t[0], p.fee, p.spacing);
    assert!(k.tx(create_pool(o, &q, Q32), &[o]).is_err(), "two pools for one pair");
}
'''),
dict(id='out-of-token-1-floored', prop='C27', needs='an exact output of more than 2^32 units of token 1',
 breaks='the price drop for large outputs of token 1 is rounded down, so the price does not pay for the output',
 edits=[('libraries/sqrt_price_math.rs', '            amount.mul_div_ceil(fixed_point_32::Q32, liquidity).unwrap()\n', '            amount.mul_div_floor(fixed_point_32::Q32, liquidity).unwrap()\n')],
 demo='''
fn main() {
    use cyclos_core::libraries::sqrt_price_math::*;
    let (p, l, a) = (Q32, 1u64 << 45, (1u64 << 33) + 1);
    let n = get_next_sqrt_price_from_amount_1_rounding_down(p, l, a, false);
    assert!((p - n) as u128 * l as u128 >= (a as u128) << 32, "the new price {} does not cover the output", n);
    assert!(((p - n - 1) as u128 * l as u128) < (a as u128) << 32);
}
'''),
dict(id='search-skips-bit-0', prop='C28', needs='a search upwards that begins at an initialized bit 0',
 breaks='bit 0 of a word is not found when a search upwards starts at it',
 edits=[('states/tick_bitmap.rs', 'let mask = !((U256::from(1) << bit_pos) - 1);', 'let mask = !((U256::from(1) << bit_pos.max(1)) - 1);')],
 demo='''
fn main() {
    use cyclos_core::states::tick_bitmap::TickBitmapState;
    for b in 0..=255u8 {
        let mut w = TickBitmapState::default();
        w.flip_bit(b);
        let n = w.next_initialized_bit(b, false);
        assert!(n.initialized && n.next == b, "bit {} not found", b);
    }
}
'''),
dict(id='decrease-event-with-fees', prop='C25', needs='liquidity with uncollected fees is removed from an NFT position',
 breaks='the reported amounts of a decrease include the fees of all NFT positions on the range',
 edits=[(L, '''        emit!(DecreaseLiquidityEvent {
            token_id: tokenized_position.mint,
            liquidity,
            amount_0,
            amount_1
        });''', '''        emit!(DecreaseLiquidityEvent {
            token_id: tokenized_position.mint,
            liquidity,
            amount_0: amount_0 + fees_0,
            amount_1: amount_1 + fees_1
        });''')],
 demo='''
fn main() {
    let mut k = Kit::new(2, 2, 1000);
    let p = k.pool(0, 1, 3000, 60, Q32);
    let (n, _) = k.nmint(0, &p, -600, 600, [1_000_000, 1_000_000], [0, 0], 9999).unwrap();
    k.single(1, &p, true, 500_000, 0, 0, 9999).unwrap();
    let b = k.b.clone();
    k.ndec(0, 0, &p, n, 1, [0, 0], 9999).unwrap();
    let o0 = k.nft(&n).owed;
    k.b = b.clone();
    let x = k.ndec(0, 0, &p, n, 1, [0, 0], 9999).unwrap();
    k.ncollect(0, 0, &p, n, [u64::MAX, u64::MAX]).unwrap();
    let _ = o0;
    // one unit of liquidity is worth less than a unit of either token
    let e = x.events.iter().find(|e| e.len() == 8 + 32 + 24).expect("event");
    assert_eq!((g64(e, 48), g64(e, 56)), (0, 0), "fees reported as removed liquidity");
}
'''),
dict(id='missing-slot-unchecked', prop='C33', needs='a swap in a new time slot without the account of the next observation slot',
 breaks='the account for the next observation slot is read without checking that it was passed',
 edits=[(L, '''                next_observation_state = AccountLoader::<ObservationState>::try_from(
                    &remaining_accounts.next().unwrap(),
                )?;
                let next_observation = next_observation_state.load_mut()?;
                msg!("observation loaded");''', '''                next_observation_state = AccountLoader::<ObservationState>::try_from(unsafe {
                    remaining_accounts.as_slice().get_unchecked(0)
                })?;
                let next_observation = next_observation_state.load_mut()?;
                msg!("observation loaded");''')],
 demo='''
fn main() {
    let mut k = Kit::new(2, 2, 1000);
    let p = k.pool(0, 1, 3000, 60, Q32);
    k.deposit(0, &p, -600, 600, 1_000_000_000).unwrap();
    k.at(2000);
    let (o, ta, oi) = (k.u[1], k.ta(1, &p), k.ps(&p).oi);
    // with the slot it works, without it is refused
    let mut w = k.walk(&p, false, 1);
    w.truncate(1);
    let r = k.tx(ix_swap(o, ta[1], ta[0], &p, false, 10_000_000, MAXP - 1, oi, PROG, w), &[o]);
    assert!(r.is_err());
    assert!(k.swap(1, &p, false, 10_000_000, 0).is_ok());
    let why = format!("{:?}", r.err().unwrap());
    assert!(why.to_lowercase().contains("panic"), "no clean refusal: {}", why);
}
'''),
dict(id='one-unit-for-nothing', prop='C17', needs='a deposit out of range, which takes only one of the tokens',
 breaks='a deposit of only token 0 takes a unit of token 1 that is accounted to nobody',
 edits=[(L, '''        if amount_1_owed > 0 {
            token::transfer(
                CpiContext::new(
                    ctx.accounts.token_program.to_account_info(),
                    token::Transfer {
                        from: ctx.accounts.token_account_1.to_account_info(),
                        to: ctx.accounts.vault_1.to_account_info(),
                        authority: ctx.accounts.minter.to_account_info(),
                    },
                ),
                amount_1_owed,
            )?;
        }
        Ok(())''', '''        token::transfer(
            CpiContext::new(
                ctx.accounts.token_program.to_account_info(),
                token::Transfer {
                    from: ctx.accounts.token_account_1.to_account_info(),
                    to: ctx.accounts.vault_1.to_account_info(),
                    authority: ctx.accounts.minter.to_account_info(),
                },
            ),
            amount_1_owed.max(1),
        )?;
        Ok(())''')],
 demo='''
fn main() {
    let mut k = Kit::new(2, 2, 1000);
    let p = k.pool(0, 1, 3000, 60, Q32);
    let a = k.deposit(0, &p, 600, 1200, 1_000_000_000).unwrap();
    assert!(a[0] > 0);
    assert_eq!(a[1], 0, "token 1 taken by a deposit above the price");
}
'''),
dict(id='word-left-behind', prop='C32', needs='a swap goes from a word with ticks through one that was never created',
 breaks='the bitmap word of the previous step is used for a word that does not exist',
 edits=[(L, '''                    msg!("cache cleared");
                    bitmap_cache = None;
''', '''                    msg!("no ticks in this word");
''')],
 demo='''
fn main() {
    let mut k = Kit::new(2, 2, 1000);
    let p = k.pool(0, 1, 500, 10, Q32);
    k.deposit(0, &p, -8000, 8000, 1_000_000_000).unwrap();
    k.deposit(0, &p, 100, 200, 1_000_000_000).unwrap();
    k.swap(1, &p, false, 300_000_000, 0).expect("a trade through an unused word is refused");
    let t = k.ps(&p).tick;
    assert!(t > 2560, "{}", t);
    k.swap(1, &p, true, 500_000_000, 0).expect("a trade through an unused word is refused");
}
'''),
dict(id='fees-of-one-token-lost', prop='C10', needs='a position earns fees in one token only before it is touched',
 breaks='fees are credited only if both tokens have earned some',
 edits=[('states/position.rs', 'if tokens_owed_0 > 0 || tokens_owed_1 > 0 {', 'if tokens_owed_0 > 0 && tokens_owed_1 > 0 {')],
 demo='''
fn main() {
    let mut k = Kit::new(2, 2, 1000);
    let p = k.pool(0, 1, 3000, 60, Q32);
    k.deposit(0, &p, -600, 600, 1_000_000_000).unwrap();
    k.swap(1, &p, true, 10_000_000, 0).unwrap();
    k.remove(0, &p, -600, 600, 0).unwrap();
    let o = k.posn(0, &p, -600, 600).owed;
    assert!(o[0] > 19_000 && o[1] == 0, "{:?}", o);
}
'''),
]
