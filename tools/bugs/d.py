L = 'lib.rs'
BUGS = [
dict(id='deadline-of-32-bits', prop='C07', needs='a deadline more than 2^32 seconds after 1970',
 breaks='deadlines are compared in 32 bits, so one far in the future is refused as passed',
 edits=[('access_control.rs', 'Clock::get()?.unix_timestamp <= deadline,', 'Clock::get()?.unix_timestamp as u32 <= deadline.max(0) as u32,')],
 demo='''
fn main() {
    let mut k = Kit::new(2, 2, 1_700_000_000);
    let p = k.pool(0, 1, 3000, 60, Q32);
    let far = (1i64 << 32) * 400 + 5;
    assert!(k.nmint(0, &p, -600, 600, [1_000_000, 1_000_000], [0, 0], far).is_ok(), "refused long before the deadline");
    assert!(k.nmint(0, &p, -600, 600, [1_000_000, 1_000_000], [0, 0], 1_699_999_999).is_err());
}
'''),
dict(id='metadata-stays-mutable', prop='C14', needs='metadata is attached to a position NFT',
 breaks='the metadata of a position NFT is created mutable',
 edits=[(L, '''            0,
            true,
            false,
        );''', '''            0,
            true,
            true,
        );''')],
 demo='''
fn main() {
    let mut k = Kit::new(2, 2, 1000);
    let p = k.pool(0, 1, 3000, 60, Q32);
    let (n, _) = k.nmint(0, &p, -600, 600, [1_000_000, 1_000_000], [0, 0], 9999).unwrap();
    let o = k.u[0];
    k.ok(nft_meta(o, n), &[o]);
    let d = k.b.get(&metadata(&n)).unwrap().data.clone();
    let mut i = 65;
    for _ in 0..3 { i += 4 + g32(&d, i) as usize; }
    i += 2;
    i += if d[i] == 1 { 5 + 34 * g32(&d, i + 1) as usize } else { 1 };
    assert_eq!(d[i + 1], 0, "the metadata can still be changed");
}
'''),
dict(id='minimum-at-every-hop', prop='C05', needs='a path whose intermediate token is worth more per unit than the final one',
 breaks='every hop has to pay the minimum of the final token',
 edits=[(L, '''                input_token_account = output_token_account;
            }
        }
        // a path without pools delivers nothing
        if additional_accounts_per_pool.is_empty() {
            amount_in_internal = 0;
        }
        require!(
            amount_in_internal >= amount_out_minimum,
            ErrorCode::TooLittleReceived
        );
''', '''                input_token_account = output_token_account;
            }
            require!(
                amount_in_internal >= amount_out_minimum,
                ErrorCode::TooLittleReceived
            );
        }
        // a path without pools delivers nothing
        if additional_accounts_per_pool.is_empty() {
            amount_in_internal = 0;
        }
''')],
 demo='''
fn main() {
    let mut k = Kit::new(2, 3, 1000);
    let p = k.pool(0, 1, 3000, 60, Q32 / 4);
    let q = k.pool(1, 2, 3000, 60, Q32 * 4);
    for x in [&p, &q] { k.deposit(0, x, -120000, 120000, 1_000_000_000).unwrap(); }
    let u = k.u[1];
    let hops: Vec<Hop> = [&p, &q].iter().map(|x| { let w = x.word_of(k.ps(x).tick); Hop { p: (*x).clone(), zfo: true, out: ata(&u, &x.t[1]), last: 0, rest: vec![rw(x.word(w))] } }).collect();
    // about 1000 -> 62 -> 990
    let was = k.bal(&ata(&u, &q.t[1]));
    let t = k.tx(router_multi(u, ata(&u, &p.t[0]), &hops, 9999, 1000, 900), &[u]);
    assert!(t.is_ok(), "{:?}", t.err());
    assert!(k.bal(&ata(&u, &q.t[1])) - was >= 900);
}
'''),
dict(id='any-nft-collects', prop='C13', needs='the holder of one position NFT names the record of another position',
 breaks='the NFT account need not be of the NFT of the position collected from',
 edits=[('context.rs', '''    /// The token account for the tokenized position
    #[account(
        constraint = nft_account.mint == tokenized_position_state.load()?.mint
    )]
    pub nft_account: Box<Account<'info, TokenAccount>>,

    /// The program account of the NFT for which tokens are being collected''', '''    /// The token account for the tokenized position
    pub nft_account: Box<Account<'info, TokenAccount>>,

    /// The program account of the NFT for which tokens are being collected''')],
 demo='''
fn main() {
    let mut k = Kit::new(3, 2, 1000);
    let p = k.pool(0, 1, 3000, 60, Q32);
    let (n, _) = k.nmint(0, &p, -600, 600, [1_000_000, 1_000_000], [0, 0], 9999).unwrap();
    let (m, _) = k.nmint(1, &p, -600, 600, [1_000_000, 1_000_000], [0, 0], 9999).unwrap();
    k.swap(2, &p, true, 100_000, 0).unwrap();
    let (u0, u1) = (k.u[0], k.u[1]);
    // user 1 shows the account of their own NFT
    let ix = nft_collect(u1, ata(&u1, &m), n, &p, -600, 600, k.ta(1, &p), [u64::MAX; 2], 0, vec![]);
    assert!(k.tx(ix, &[u1]).is_err(), "fees of another position collected");
    let ix = nft_collect(u0, ata(&u0, &n), n, &p, -600, 600, k.ta(0, &p), [u64::MAX; 2], 0, vec![]);
    assert!(k.tx(ix, &[u0]).is_ok());
}
'''),
dict(id='empty-growth-keeps-lock', prop='C33', needs='anybody grows the oracle by no slots at all',
 breaks='the pool stays locked for good',
 edits=[(L, '''        let mut i: usize = 0;
        while i < observation_account_bumps.len() {''', '''        let requested = observation_account_bumps.len();
        if requested == 0 {
            return Ok(());
        }
        let mut i: usize = 0;
        while i < requested {''')],
 demo='''
fn main() {
    let mut k = Kit::new(3, 2, 1000);
    let p = k.pool(0, 1, 3000, 60, Q32);
    k.deposit(0, &p, -600, 600, 1_000_000).unwrap();
    let u = k.u[2];
    let _ = k.tx(inc_obs(u, &p, 1, 0), &[u]);
    assert!(k.remove(0, &p, -600, 600, 1_000_000).is_ok(), "the owner can no longer withdraw");
}
'''),
dict(id='protocol-share-rounded-up', prop='C01', needs='a swap step whose fee is not a multiple of the protocol fee denominator',
 breaks='the protocol is credited its share rounded up while the providers only give up the share rounded down',
 edits=[(L, '''                step.fee_amount -= delta;
                state.protocol_fee += delta;''', '''                let share = (step.fee_amount + cache.fee_protocol as u64 - 1) / cache.fee_protocol as u64;
                step.fee_amount -= delta;
                state.protocol_fee += share;''')],
 demo='''
fn main() {
    let mut k = Kit::new(2, 2, 1000);
    let o = k.u[0];
    k.ok(set_fee_protocol(o, 3), &[o]);
    let p = k.pool(0, 1, 3000, 60, Q32);
    k.deposit(0, &p, -6000, 6000, 1_000_000_000).unwrap();
    for _ in 0..20 { k.swap(1, &p, true, 333, 0).unwrap(); }
    let fees: u64 = 20 * 1;
    // each of these swaps pays a fee of one unit, a third of which rounds down to nothing
    let s = k.ps(&p);
    assert_eq!(s.prot, [0, 0], "of {} units of fees", fees);
}
'''),
dict(id='last-withdrawal-rounded-up', prop='C31', needs='liquidity that is removed completely after it was paid for exactly',
 breaks='the last withdrawal of a position is credited one unit for rounding even when nothing was rounded',
 edits=[(L, '''            position_state.tokens_owed_0 += amount_0;
            position_state.tokens_owed_1 += amount_1;''', '''            // the unit withheld by rounding up the deposit is released by the last withdrawal
            let released = (position_state.liquidity == 0) as u64;
            position_state.tokens_owed_0 += amount_0;
            position_state.tokens_owed_1 += amount_1 + released.min(amount_1);''')],
 demo='''
fn main() {
    let mut k = Kit::new(2, 2, 1000);
    let p = k.pool(0, 1, 3000, 60, Q32);
    k.deposit(0, &p, -6000, 6000, 1_000_000_000).unwrap();
    // a multiple of 2^32 below the price is paid for exactly
    let paid = k.deposit(1, &p, -600, -60, 1 << 32).unwrap();
    let back = k.remove(1, &p, -600, -60, 1 << 32).unwrap();
    assert!(back[0] <= paid[0] && back[1] <= paid[1], "paid {:?}, got back {:?}", paid, back);
    let n = paid[1];
    // and otherwise one unit less comes back
    let paid = k.deposit(1, &p, -600, -60, (1 << 32) - 7).unwrap();
    let back = k.remove(1, &p, -600, -60, (1 << 32) - 7).unwrap();
    assert!(back[0] <= paid[0] && back[1] <= paid[1], "paid {:?}, got back {:?} ({})", paid, back, n);
}
'''),
dict(id='partial-fill-without-accounts', prop='C04', needs='a swap given fewer accounts than the path it takes needs',
 breaks='the swap stops early and succeeds in part instead of failing',
 edits=[(L, 'let bitmap_account = remaining_accounts.next().unwrap();', '''let bitmap_account = match remaining_accounts.next() {
                    Some(account) => account,
                    None => break,
                };''')],
 demo='''
fn main() {
    let mut k = Kit::new(2, 2, 1000);
    let p = k.pool(0, 1, 3000, 60, Q32);
    k.deposit(0, &p, -60000, 60000, 1_000_000_000).unwrap();
    let (o, ta) = (k.u[1], k.ta(1, &p));
    let lim = Q32 / 8;
    let go = |n: usize, k: &Kit| { let mut c = k.clone(); let r = [rw(p.word(0)), rw(p.word(-1)), rw(p.word(-2)), rw(p.word(-3))][..n].to_vec(); c.tx(ix_swap(o, ta[0], ta[1], &p, true, BIG, lim, 0, PROG, r), &[o]).is_ok() };
    assert!(!go(3, &k), "a swap that lacks accounts went through in part");
    assert!(go(4, &k));
}
'''),
dict(id='factor-of-bit-15', prop='C26', needs='a far tick with bit 15 set',
 breaks='one of the powers of 1.0001 is off by one part in 2^33',
 edits=[('libraries/tick_math.rs', '0x31be135f97ed3200', '0x31be135f87ed3200')],
 demo='''
fn main() {
    // prices near 2^44 carry 44 bits: compare with the real logarithm
    let c = cyclos_core::libraries::tick_math::get_sqrt_ratio_at_tick(163840).unwrap() as f64;
    let l = (c / 4294967296.0).ln() - 163840.0 / 2.0 * 1.0001f64.ln();
    assert!(l.abs() < 1e-11, "off by {:e}", l);
}
'''),
dict(id='fee-without-wide-product', prop='C03', needs='a step that reaches its target with an input above about 10^13',
 breaks='the fee is computed with a 64-bit product that wraps for large inputs',
 edits=[('libraries/swap_math.rs', '''        swap_step
            .amount_in
            .mul_div_ceil(fee_pips.into(), (1_000_000 - fee_pips).into())
            .unwrap()
    };''', '''        let rest = (1_000_000 - fee_pips) as u64;
        (swap_step
            .amount_in
            .wrapping_mul(fee_pips as u64)
            .wrapping_add(rest - 1))
            / rest
    };''')],
 demo='''
fn main() {
    let mut k = Kit::new(2, 2, 1000);
    let p = k.pool(0, 1, 10000, 200, Q32);
    k.deposit(0, &p, -20000, 20000, 1 << 56).unwrap();
    let d = k.swap(1, &p, true, BIG, Q32 - Q32 / 4).unwrap();
    // 1/4 of the price off: 2^56 / 3 in, and one part in 99 on top
    let inn = (1i64 << 56) / 3;
    assert!(d[0] > inn + inn / 100, "paid {} of at least {}", d[0], inn + inn / 100);
}
'''),
dict(id='amount-0-rounded-twice', prop='C29', needs='an amount of token 0 whose two divisions both leave a remainder',
 breaks='the amount of token 0 for a liquidity is rounded down twice, which can understate it',
 edits=[('libraries/liquidity_amounts.rs', '''    ((U128::from(liquidity) << fixed_point_32::RESOLUTION)
        .mul_div_floor(
            U128::from(sqrt_ratio_b_x32 - sqrt_ratio_a_x32),
            U128::from(sqrt_ratio_b_x32),
        )
        .unwrap()
        / U128::from(sqrt_ratio_a_x32))
    .as_u64()''', '''    ((U128::from(liquidity) << fixed_point_32::RESOLUTION) / U128::from(sqrt_ratio_a_x32))
        .mul_div_floor(
            U128::from(sqrt_ratio_b_x32 - sqrt_ratio_a_x32),
            U128::from(sqrt_ratio_b_x32),
        )
        .unwrap()
        .as_u64()''')],
 demo='''
fn main() {
    let f = cyclos_core::libraries::liquidity_amounts::get_amount_0_for_liquidity;
    let mut x = 88172645463325252u64;
    let mut next = move || { x ^= x << 13; x ^= x >> 7; x ^= x << 17; x };
    for _ in 0..200000 {
        let a = MINP + (next() >> (20 + next() % 26));
        let b = a + 1 + (next() >> (20 + next() % 26));
        let l = next() >> (next() % 60);
        if a.max(b) >= MAXP { continue; }
        // L * 2^32 * (b - a) / (a * b) within 128 bits
        let (n, d) = (l as u128 * (b - a) as u128, a as u128 * b as u128);
        if n >> 96 > 0 || (n << 32) / d > u64::MAX as u128 { continue; }
        assert_eq!(f(a, b, l) as u128, (n << 32) / d, "{} {} {}", a, b, l);
    }
}
'''),
dict(id='new-liquidity-earns-past-fees', prop='C12', needs='an NFT position with accrued fees is increased',
 breaks='fees accrued before are credited on the liquidity just added as well, out of what others earned',
 edits=[(L, '''        // Update tokenized position metadata
        let mut position = ctx.accounts.tokenized_position_state.load_mut()?;
''', '''        // Update tokenized position metadata
        let mut position = ctx.accounts.tokenized_position_state.load_mut()?;
        position.liquidity += liquidity;
'''), (L, '''        position.fee_growth_inside_1_last_x32 = fee_growth_inside_1_last_x32;
        position.liquidity += liquidity;
''', '''        position.fee_growth_inside_1_last_x32 = fee_growth_inside_1_last_x32;
''')],
 demo='''
fn main() {
    let mut k = Kit::new(3, 2, 1000);
    let p = k.pool(0, 1, 3000, 60, Q32);
    let (_, _) = k.nmint(0, &p, -600, 600, [100_000_000, 100_000_000], [0, 0], 9999).unwrap();
    let (m, _) = k.nmint(1, &p, -600, 600, [1_000_000, 1_000_000], [0, 0], 9999).unwrap();
    k.swap(2, &p, true, 1_000_000, 0).unwrap();
    k.ninc(1, &p, m, [50_000_000, 50_000_000], [0, 0], 9999).unwrap();
    // of 3000 units of fees about a hundredth is theirs
    let got = k.ncollect(1, 1, &p, m, [u64::MAX; 2]).unwrap();
    assert!(got[0] < 40, "{:?}", got);
}
'''),
dict(id='cached-at-moved-tick', prop='C22', needs='a swap that passes a word edge before it crosses its first initialized tick, some time after the latest observation',
 breaks='ticks crossed later are given a tick accumulator computed with the tick reached so far instead of the one in force until now',
 edits=[(L, '''                            cache.block_timestamp,
                            pool.tick,
                            pool.liquidity,''', '''                            cache.block_timestamp,
                            state.tick,
                            pool.liquidity,''')],
 demo='''
fn main() {
    let mut k = Kit::new(2, 2, 1000);
    let p = k.pool(0, 1, 3000, 60, Q32);
    k.deposit(0, &p, -60000, 60000, 1_000_000_000).unwrap();
    k.deposit(0, &p, -30000, -18000, 1_000_000_000).unwrap();
    k.at(1100);
    k.swap(1, &p, true, BIG, Q32 / 3).unwrap();
    assert!(k.ps(&p).tick < -18000);
    // the tick was 0 ever since the start
    let t = r_tick(&k.b, &p.tick(-18000)).unwrap();
    assert_eq!(t.tc, 0);
}
'''),
dict(id='tick-of-any-pool', prop='C18', needs='a swap that crosses an initialized tick is given the tick account of another pool',
 breaks='a crossed tick account is only checked to be for the right tick, of whatever pool',
 edits=[(L, '''                    pool.validate_tick_address(
                        &tick_loader.key(),
                        tick_state.bump,
                        step.tick_next,
                    )?;
                    let mut''', '''                    require!({ tick_state.tick } == step.tick_next, ErrorCode::TMS);
                    let mut''')],
 demo='''
fn main() {
    let mut k = Kit::new(2, 3, 1000);
    let p = k.pool(0, 1, 3000, 60, Q32);
    let q = k.pool(0, 2, 3000, 60, Q32);
    for x in [&p, &q] { k.deposit(0, x, -6000, 6000, 1_000_000_000).unwrap(); k.deposit(0, x, -60, 60, 1_000_000_000).unwrap(); }
    let (o, ta) = (k.u[1], k.ta(1, &p));
    let lim = Q32 - Q32 / 100;
    let go = |x: &PoolId, k: &Kit| { let mut c = k.clone(); let r = vec![rw(p.word(0)), rw(p.word(-1)), rw(x.tick(-60))]; c.tx(ix_swap(o, ta[0], ta[1], &p, true, BIG, lim, 0, PROG, r), &[o]).is_ok() };
    assert!(go(&p, &k));
    assert!(!go(&q, &k), "the tick of another pool was taken");
}
'''),
dict(id='owner-without-signature', prop='C15', needs='somebody sends a protocol fee change that names the protocol owner, unsigned',
 breaks='the protocol owner need not sign a change of the protocol fee',
 edits=[('context.rs', '''    #[account(address = factory_state.load()?.owner)]
    pub owner: Signer<'info>,

    /// Factory state stores the protocol owner address
    #[account(mut)]
    pub factory_state: AccountLoader<'info, FactoryState>,
}

#[derive(Accounts)]
pub struct CollectProtocol''', '''    /// CHECK: Compared with the stored owner
    #[account(address = factory_state.load()?.owner)]
    pub owner: UncheckedAccount<'info>,

    /// Factory state stores the protocol owner address
    #[account(mut)]
    pub factory_state: AccountLoader<'info, FactoryState>,
}

#[derive(Accounts)]
pub struct CollectProtocol''')],
 demo='''
fn main() {
    let mut k = Kit::new(2, 2, 1000);
    let (o, u) = (k.u[0], k.u[1]);
    let mut ix = set_fee_protocol(o, 7);
    for m in ix.metas.iter_mut() { m.s = false; }
    assert!(k.tx(ix, &[u]).is_err(), "accepted without the owner's signature");
    assert!(k.tx(set_fee_protocol(o, 7), &[o]).is_ok());
}
'''),
]
