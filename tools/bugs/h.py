L = 'lib.rs'
X = 'context.rs'
BUGS = [
dict(id='active-liquidity-saturates', prop='C09', needs='more than 2^63 of liquidity active at once, from two deposits',
 breaks='the active liquidity stops at 2^63-1 when a further deposit is made in range',
 edits=[(L, '''            pool_state.liquidity =
                liquidity_math::add_delta(pool_state.liquidity, liquidity_delta)?;
''', '''            pool_state.liquidity =
                (pool_state.liquidity as i64).saturating_add(liquidity_delta) as u64;
''')],
 demo='''
fn main() {
    let mut k = Kit::new(2, 2, 1000);
    let p = k.pool(0, 1, 100, 1, Q32);
    let l = 6_000_000_000_000_000_000;
    k.deposit(0, &p, -1, 1, l).unwrap();
    k.deposit(1, &p, -2, 2, l).unwrap();
    assert_eq!(k.ps(&p).liq, 2 * l, "active liquidity");
}
'''),
dict(id='signed-active-liquidity', prop='C32', needs='a trade that crosses a tick while more than 2^63 of liquidity is active',
 breaks='a tick cannot be crossed from or to an active liquidity above 2^63-1',
 edits=[(L, '''                    state.liquidity = liquidity_math::add_delta(state.liquidity, liquidity_net)?;
''', '''                    state.liquidity = i64::try_from(state.liquidity)
                        .ok()
                        .and_then(|l| l.checked_add(liquidity_net))
                        .and_then(|l| u64::try_from(l).ok())
                        .unwrap();
''')],
 demo='''
fn main() {
    let mut k = Kit::new(3, 2, 1000);
    let p = k.pool(0, 1, 100, 1, Q32);
    let l = 6_000_000_000_000_000_000;
    k.deposit(0, &p, -1, 1, l).unwrap();
    k.deposit(1, &p, -2, 2, l).unwrap();
    k.swap(2, &p, true, 1 << 58, cyclos_core::libraries::tick_math::get_sqrt_ratio_at_tick(-10).unwrap()).expect("trade through the ticks");
    assert_eq!(k.ps(&p).liq, 0);
}
'''),
dict(id='liquidity-from-tick-price', prop='C06', needs='an NFT deposit while the price is strictly between two ticks',
 breaks='the liquidity is computed for the price of the current tick instead of the current price, so the deposit takes more of one token than was offered',
 edits=[(L, '''    let sqrt_price_x32 = accounts.pool_state.load()?.sqrt_price_x32;

    let sqrt_ratio_a_x32''', '''    let sqrt_price_x32 =
        tick_math::get_sqrt_ratio_at_tick(accounts.pool_state.load()?.tick)?;

    let sqrt_ratio_a_x32''')],
 demo='''
fn main() {
    let mut k = Kit::new(2, 2, 1000);
    let p = k.pool(0, 1, 3000, 60, Q32 + 210_000);
    let d = [1_000_000_000_000_000u64, 1_000_000_000_000];
    let (_, got) = k.nmint(0, &p, -60, 60, d, [0, 0], 1 << 40).unwrap();
    assert!(got[0] <= d[0] && got[1] <= d[1], "offered {:?}, taken {:?}", d, got);
}
'''),
dict(id='grown-slots-unused', prop='C21', needs='growing the ring after it was created, and then trades in later time slots',
 breaks='the next slot is taken modulo the slots in use instead of the slots available, so a grown ring is never used',
 edits=[('states/pool.rs', '''        (self.observation_index + 1) % self.observation_cardinality_next
''', '''        (self.observation_index + 1) % self.observation_cardinality.max(1)
''')],
 demo='''
fn main() {
    let mut k = Kit::new(2, 2, 1000);
    let p = k.pool(0, 1, 3000, 60, Q32);
    k.deposit(0, &p, -6000, 6000, 1_000_000_000_000).unwrap();
    k.grow(&p, 3);
    k.at(1100);
    k.swap(1, &p, true, 1 << 34, MINP + 1).expect("trade into the new slot");
    assert_eq!(k.ps(&p).oi, 1, "observation index");
}
'''),
dict(id='no-observation-in-gap', prop='C20', needs='a trade that moves the price into a range without liquidity, and time passing there',
 breaks='no observation is written when a trade ends where no liquidity is active, so the time before it is counted at the new tick',
 edits=[(L, '''        if state.tick != pool.tick {
''', '''        if state.tick != pool.tick && state.liquidity == 0 {
            pool.tick = state.tick;
        } else if state.tick != pool.tick {
''')],
 demo='''
fn main() {
    let mut k = Kit::new(2, 2, 1000);
    let p = k.pool(0, 1, 3000, 60, Q32);
    k.deposit(0, &p, -60, 60, 1_000_000_000_000).unwrap();
    k.grow(&p, 2);
    k.at(2000);
    k.swap(1, &p, true, 1 << 40, cyclos_core::libraries::tick_math::get_sqrt_ratio_at_tick(-6000).unwrap()).unwrap();
    assert!(k.ps(&p).tick <= -6000 && k.ps(&p).liq == 0);
    k.at(3000);
    k.swap(1, &p, false, 1 << 40, Q32).unwrap();
    let i = k.ps(&p).oi;
    let o = r_obs(&k.b, &p.obs(i)).expect("observation");
    assert!(o.tc / 1000 == -6000 || o.tc / 1000 == -6001, "tick-seconds {}", o.tc);
}
'''),
]
