L = 'lib.rs'
BUGS = [
dict(id='ring-of-256', prop='C21', needs='an oracle ring grown beyond 256 slots and filled that far',
 breaks='the ring starts over at slot 256, so slots beyond it are never used and the operation that needs the 257th is refused',
 edits=[('states/pool.rs', '(self.observation_index + 1) % self.observation_cardinality_next', '(self.observation_index as u8 + 1) as u16 % self.observation_cardinality_next')],
 demo='''
fn main() {
    let mut k = Kit::new(2, 2, 1000);
    let p = k.pool(0, 1, 3000, 60, Q32);
    k.deposit(0, &p, -6000, 6000, 1_000_000_000).unwrap();
    for _ in 0..7 { k.grow(&p, 40); }
    assert_eq!(k.ps(&p).on, 281);
    for i in 0..290i64 {
        k.at(2000 + i * 14);
        let lim = if i % 2 == 0 { Q32 - Q32 / 1000 } else { Q32 + Q32 / 1000 };
        let r = k.swap(1, &p, i % 2 == 0, BIG, lim);
        assert!(r.is_ok(), "swap {} refused: {:?}", i, r);
        assert_eq!(k.ps(&p).oi as i64, (i + 1) % 281);
    }
}
'''),
dict(id='skip-of-first-hop', prop='C08', needs='a path of three hops whose first two need different numbers of accounts',
 breaks='every hop is taken to have used as many accounts as the first, so the third hop is given the accounts of another',
 edits=[(L, 'for _j in 0..additional_accounts_per_pool[i] {', 'for _j in 0..additional_accounts_per_pool[0] {')],
 demo='''
fn main() {
    let mut k = Kit::new(2, 4, 1000);
    let p = k.pool(0, 1, 3000, 60, Q32);
    let q = k.pool(1, 2, 3000, 60, Q32 + Q32 / 100);
    let r = k.pool(2, 3, 3000, 60, Q32 + Q32 / 100);
    for x in [&p, &q, &r] { k.deposit(0, x, -60000, 60000, 1_000_000_000).unwrap(); }
    let u = k.u[1];
    let hop = |x: &PoolId, rest: Vec<Meta>| Hop { p: x.clone(), zfo: true, out: ata(&u, &x.t[1]), last: 0, rest };
    // the first pool starts at the edge of a word and needs the word below it too
    let hops = [hop(&p, vec![rw(p.word(0)), rw(p.word(-1))]), hop(&q, vec![rw(q.word(0))]), hop(&r, vec![rw(r.word(0))])];
    let t = k.tx(router_multi(u, ata(&u, &p.t[0]), &hops, 9999, 1_000_000, 1), &[u]);
    assert!(t.is_ok(), "{:?}", t.err());
}
'''),
dict(id='stale-after-2038', prop='C20', needs='an oracle write on each side of second 2147483648',
 breaks='the oracle clock stops in 2038',
 edits=[('states/oracle.rs', 'Clock::get().unwrap().unix_timestamp as u32', 'Clock::get().unwrap().unix_timestamp.min(i32::MAX as i64) as u32')],
 demo='''
fn main() {
    let t0 = (1i64 << 31) - 30;
    let mut k = Kit::new(2, 2, t0);
    let p = k.pool(0, 1, 3000, 60, Q32);
    k.deposit(0, &p, -6000, 6000, 1_000_000_000).unwrap();
    k.swap(1, &p, true, BIG, Q32 - Q32 / 100).unwrap();
    let tick = k.ps(&p).tick as i64;
    k.at(t0 + 100);
    k.swap(1, &p, true, BIG, Q32 - Q32 / 50).unwrap();
    let o = r_obs(&k.b, &p.obs(k.ps(&p).oi)).unwrap();
    assert_eq!(o.ts as i64, t0 + 100);
    assert_eq!(o.tc, tick * 100);
}
'''),
dict(id='fees-of-absence', prop='C10', needs='a position emptied completely and filled again after others earned fees in its range',
 breaks='the fee snapshot of an emptied position is kept when it is filled again, so it is credited fees earned while it held nothing',
 edits=[('states/position.rs', '''        self.fee_growth_inside_0_last_x32 = fee_growth_inside_0_x32;
        self.fee_growth_inside_1_last_x32 = fee_growth_inside_1_x32;
''', '''        let filled_again = liquidity_delta > 0
            && self.liquidity == liquidity_delta as u64
            && (self.fee_growth_inside_0_last_x32 > 0 || self.fee_growth_inside_1_last_x32 > 0);
        if !filled_again {
            self.fee_growth_inside_0_last_x32 = fee_growth_inside_0_x32;
            self.fee_growth_inside_1_last_x32 = fee_growth_inside_1_x32;
        }
''')],
 demo='''
fn main() {
    let mut k = Kit::new(3, 2, 1000);
    let p = k.pool(0, 1, 3000, 60, Q32);
    let trade = |k: &mut Kit| { k.swap(2, &p, true, 50_000_000, 0).unwrap(); k.swap(2, &p, false, 50_000_000, 0).unwrap(); };
    k.deposit(0, &p, -6000, 6000, 1_000_000_000).unwrap();
    k.deposit(1, &p, -6000, 6000, 1_000_000_000).unwrap();
    trade(&mut k);
    k.remove(1, &p, -6000, 6000, 1_000_000_000).unwrap();
    k.take(1, &p, -6000, 6000, [u64::MAX; 2]).unwrap();
    trade(&mut k);
    k.deposit(1, &p, -6000, 6000, 1_000_000_000).unwrap();
    // nothing was traded since
    k.remove(1, &p, -6000, 6000, 0).unwrap();
    assert_eq!(k.posn(1, &p, -6000, 6000).owed, [0, 0]);
}
'''),
dict(id='pays-request-at-limit', prop='C17', needs='an exact-output swap stopped by its price limit, for token 1 out',
 breaks='a stopped exact-output swap pays out the amount requested instead of the amount bought',
 edits=[(L, '''            (
                state.amount_calculated,
                amount_specified - state.amount_specified_remaining,
            )
        };

        // do the transfers''', '''            (
                state.amount_calculated,
                if exact_input {
                    amount_specified - state.amount_specified_remaining
                } else {
                    amount_specified
                },
            )
        };

        // do the transfers''')],
 demo='''
fn main() {
    let mut k = Kit::new(2, 2, 1000);
    let p = k.pool(0, 1, 3000, 60, Q32);
    k.deposit(0, &p, -6000, 6000, 1_000_000_000).unwrap();
    // a callback that pays whatever it is asked for
    let hid = key(1, 77);
    k.b.put(hid, Acct { lamports: 1, data: vec![], owner: K::default(), exec: true });
    set_hostile(hid, std::rc::Rc::new(|_: &K, a: &[solana_program::account_info::AccountInfo], d: &[u8]| {
        let n = i64::from_le_bytes(d[8..16].try_into().unwrap());
        let i = spl_token::instruction::transfer(&spl_token::ID, a[1].key, a[3].key, a[0].key, &[], n as u64)?;
        solana_program::program::invoke(&i, &[a[1].clone(), a[3].clone(), a[0].clone(), a[5].clone()])
    }));
    let (o, ta, v) = (k.u[1], k.ta(1, &p), k.vaults(&p));
    let lim = Q32 - Q32 / 100;
    let pp = p.clone();
    let mut ix = ix_swap(o, ta[0], ta[1], &pp, true, -20_000_000, lim, 0, PROG, vec![rw(p.word(0)), rw(p.word(-1))]);
    for m in ix.metas.iter_mut().skip(6) { if m.k == PROG { m.k = hid; } }
    let r = k.tx(ix, &[o]);
    assert!(r.is_ok(), "{:?}", r.err());
    let w = k.vaults(&p);
    // one percent of the price is worth about 10 million
    assert!(v[1] - w[1] < 10_000_001, "paid {}", v[1] - w[1]);
}
'''),
dict(id='approval-of-nothing', prop='C13', needs='a delegate approved for an amount of zero',
 breaks='a delegate approved for nothing may withdraw from the position',
 edits=[('access_control.rs', '''(token_account.delegate.contains(&signer.key())
                    && token_account.delegated_amount > 0)''', 'token_account.delegate.contains(&signer.key())')],
 demo='''
fn main() {
    let mut k = Kit::new(2, 2, 1000);
    let p = k.pool(0, 1, 3000, 60, Q32);
    let (n, _) = k.nmint(0, &p, -600, 600, [1_000_000, 1_000_000], [0, 0], 9999).unwrap();
    let (a, b) = (k.u[0], k.u[1]);
    k.ok(tk_approve(ata(&a, &n), b, a, 0), &[a]);
    assert!(k.ndec(1, 0, &p, n, 1000, [0, 0], 9999).is_err(), "approved for nothing");
    k.ok(tk_approve(ata(&a, &n), b, a, 1), &[a]);
    assert!(k.ndec(1, 0, &p, n, 1000, [0, 0], 9999).is_ok());
}
'''),
dict(id='mint-event-sender', prop='C25', needs='a deposit made by one user into the position of another',
 breaks='the mint event names the owner of the position as the one who paid',
 edits=[(L, '''            sender: ctx.accounts.minter.key(),
            owner: ctx.accounts.recipient.key(),''', '''            sender: ctx.accounts.recipient.key(),
            owner: ctx.accounts.recipient.key(),''')],
 demo='''
fn main() {
    let mut k = Kit::new(2, 2, 1000);
    let p = k.pool(0, 1, 3000, 60, Q32);
    let (a, b) = (k.u[0], k.u[1]);
    k.prep(b, &p, -600, 600);
    let r = k.tx(mint(a, k.ta(0, &p), b, &p, -600, 600, 1_000_000, 0, PROG, k.next_obs(&p)), &[a]).unwrap();
    let e = r.events.iter().find(|e| e[..8] == disc("event:MintEvent")).unwrap();
    assert_eq!(K::new(&e[40..72]), a);
    assert_eq!(K::new(&e[72..104]), b);
}
'''),
dict(id='balanced-tick-restarts', prop='C30', needs='a further deposit at a tick where as much liquidity ends as begins',
 breaks='a tick with balanced liquidity is taken for a new one, which rewrites the accrued fees of everyone using it',
 edits=[('states/tick.rs', 'if liquidity_gross_before == 0 {', 'if self.liquidity_net == 0 {')],
 demo='''
fn main() {
    let mut k = Kit::new(4, 2, 1000);
    let p = k.pool(0, 1, 3000, 60, Q32);
    k.deposit(0, &p, -600, 600, 1_000_000_000).unwrap();
    k.deposit(1, &p, -1200, -600, 1_000_000_000).unwrap();
    k.swap(2, &p, true, 5_000_000, 0).unwrap();
    // user 3 deposits at -600, and nothing is traded afterwards
    k.remove(0, &p, -600, 600, 0).unwrap();
    let was = k.posn(0, &p, -600, 600).owed;
    k.swap(2, &p, true, 5_000_000, 0).unwrap();
    let mut same = Kit::new(4, 2, 1000);
    same.b = k.b.clone();
    k.deposit(3, &p, -600, 1200, 1_000).unwrap();
    for x in [&mut k, &mut same] { x.remove(0, &p, -600, 600, 0).unwrap(); }
    let (a, b) = (k.posn(0, &p, -600, 600).owed, same.posn(0, &p, -600, 600).owed);
    assert!(b[0] > was[0]);
    assert_eq!(a, b, "the fees of user 0 depend on a deposit of user 3");
}
'''),
dict(id='unused-token-minimum', prop='C06', needs='a deposit with a minimum for a token that is no longer needed because the price left the range',
 breaks='the minimum of a token is not enforced when none of it is used',
 edits=[(L, '''    let amount_1 = accounts.vault_1.amount - balance_1_before;
    require!(
        amount_0 >= amount_0_min && amount_1 >= amount_1_min,''', '''    let amount_1 = accounts.vault_1.amount - balance_1_before;
    require!(
        (amount_0 >= amount_0_min || amount_0 == 0)
            && (amount_1 >= amount_1_min || amount_1 == 0),''')],
 demo='''
fn main() {
    let mut k = Kit::new(2, 2, 1000);
    let p = k.pool(0, 1, 3000, 60, Q32);
    let d = [1_000_000, 1_000_000];
    assert!(k.nmint(0, &p, 600, 1200, d, [900_000, 0], 9999).is_ok());
    assert!(k.nmint(0, &p, 600, 1200, d, [900_000, 1], 9999).is_err(), "no token 1 was used");
}
'''),
dict(id='upper-edge-deposit', prop='C09', needs='a deposit while the pool tick equals the upper tick of the range',
 breaks='a range that ends at the current tick is counted as active',
 edits=[(L, '''        } else if pool_state.tick < tick_upper {
            // current tick is inside''', '''        } else if pool_state.tick <= tick_upper {
            // current tick is inside''')],
 demo='''
fn main() {
    let mut k = Kit::new(2, 2, 1000);
    let p = k.pool(0, 1, 3000, 60, Q32);
    assert_eq!(k.ps(&p).tick, 0);
    k.deposit(0, &p, -6000, 6000, 1_000_000_000).unwrap();
    let was = k.ps(&p).liq;
    k.deposit(1, &p, -600, 0, 1_000_000).unwrap();
    assert_eq!(k.ps(&p).liq, was);
}
'''),
dict(id='no-trade-in-gap', prop='C32', needs='a price that came to rest where no position is active',
 breaks='swaps are refused while no liquidity is active, so a price inside a gap can never leave it',
 edits=[(L, '        require!(amount_specified != 0, ErrorCode::AS);\n\n        let factory_state =', '''        require!(
            amount_specified != 0
                && AccountLoader::<PoolState>::try_from(
                    &ctx.accounts.pool_state.to_account_info(),
                )?
                .load()?
                .liquidity
                    > 0,
            ErrorCode::AS
        );

        let factory_state =''')],
 demo='''
fn main() {
    let mut k = Kit::new(2, 2, 1000);
    let p = k.pool(0, 1, 3000, 60, Q32);
    k.deposit(0, &p, -600, 600, 1_000_000_000).unwrap();
    k.deposit(0, &p, -6000, -1200, 1_000_000_000).unwrap();
    // into the gap between -1200 and -600
    k.swap(1, &p, true, BIG, price_at_m900()).unwrap();
    assert_eq!(k.ps(&p).liq, 0);
    let r = k.swap(1, &p, false, 1_000_000, 0);
    assert!(r.is_ok(), "{:?}", r.err());
    assert_eq!(k.ps(&p).liq, 1_000_000_000);
}
fn price_at_m900() -> u64 { cyclos_core::libraries::tick_math::get_sqrt_ratio_at_tick(-900).unwrap() }
'''),
]
