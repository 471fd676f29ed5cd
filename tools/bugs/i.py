L = 'lib.rs'
X = 'context.rs'
BUGS = [
dict(id='clock-wrap-stops-time', prop='C20', needs='an oracle write after the 32-bit clock wrapped, with the latest observation before it',
 breaks='no time is counted across the wrap of the 32-bit clock',
 edits=[('states/oracle.rs', 'let delta = block_timestamp - self.block_timestamp;', 'let delta = block_timestamp.saturating_sub(self.block_timestamp);')],
 demo='''
fn main() {
    let t0 = (1i64 << 32) - 30;
    let mut k = Kit::new(2, 2, t0);
    let p = k.pool(0, 1, 3000, 60, cyclos_core::libraries::tick_math::get_sqrt_ratio_at_tick(600).unwrap());
    k.deposit(0, &p, -6000, 6000, 1_000_000_000_000).unwrap();
    k.at(t0 + 80);
    k.swap(1, &p, true, 1 << 34, MINP + 1).unwrap();
    let o = r_obs(&k.b, &p.obs(k.ps(&p).oi)).unwrap();
    assert_eq!(o.tc, 600 * 80, "tick-seconds");
}
'''),
dict(id='seconds-inside-saturates', prop='C22', needs='a range above the price whose upper tick came into use, with the price above it, before the lower tick did',
 breaks='the seconds inside a range above the price never read below zero, so differences of snapshots are wrong',
 edits=[('states/pool.rs', '''                seconds_inside: lower.seconds_outside - upper.seconds_outside,
''', '''                seconds_inside: lower.seconds_outside.saturating_sub(upper.seconds_outside),
''')],
 demo='''
use cyclos_core::states::{pool::PoolState, tick::TickState, oracle::ObservationState};
// every tick as the program keeps it: upper in use since 1000 with the price above, lower since 2000 with the price below
fn snap(k: &Kit, p: &PoolId, lo: i32, hi: i32) -> u32 {
    let t = |t: i32| { let r = r_tick(&k.b, &p.tick(t)).unwrap(); let mut x = TickState::default(); x.tick = t; x.seconds_outside = r.sec; x };
    let mut s = PoolState::default();
    s.tick = k.ps(p).tick;
    s.snapshot_cumulatives_inside(&t(lo), &t(hi), &ObservationState::default()).seconds_inside
}
fn main() {
    let mut k = Kit::new(2, 2, 1000);
    let at = |t: i32| cyclos_core::libraries::tick_math::get_sqrt_ratio_at_tick(t).unwrap();
    let p = k.pool(0, 1, 3000, 60, at(1000));
    k.deposit(0, &p, -6000, 6000, 1_000_000_000_000).unwrap();
    k.deposit(0, &p, 120, 600, 1_000_000).unwrap();
    // down, below both
    k.at(1100);
    k.swap(1, &p, true, 1 << 40, at(-30)).unwrap();
    // the lower tick 60 comes into use above the price
    k.deposit(0, &p, 60, 600, 1_000_000).unwrap();
    let a = snap(&k, &p, 60, 600);
    // up into the range for 50 seconds and back out
    k.at(1200);
    k.swap(1, &p, false, 1 << 40, at(300)).unwrap();
    k.at(1250);
    k.swap(1, &p, true, 1 << 40, at(-30)).unwrap();
    let b = snap(&k, &p, 60, 600);
    assert_eq!(b.wrapping_sub(a), 50, "seconds inside");
}
'''),
dict(id='poke-any-position', prop='C16', needs='a poke that names the position of another range or owner',
 breaks='pokes do not check which position they update, so anybody can credit a position with the fees of another range',
 edits=[(L, '''        pool.validate_position_address(
            &ctx.accounts.position_state.key(),
            position_state.load()?.bump,
            &ctx.accounts.owner.key(),
            tick_lower.tick,
            tick_upper.tick,
        )?;

        let last_observation_state''', '''        if amount > 0 {
            pool.validate_position_address(
                &ctx.accounts.position_state.key(),
                position_state.load()?.bump,
                &ctx.accounts.owner.key(),
                tick_lower.tick,
                tick_upper.tick,
            )?;
        }

        let last_observation_state''')],
 demo='''
fn main() {
    let mut k = Kit::new(3, 2, 1000);
    let p = k.pool(0, 1, 3000, 60, Q32);
    k.deposit(0, &p, -6000, 6000, 1_000_000_000_000).unwrap();
    k.deposit(1, &p, 6000, 12000, 1_000_000_000_000).unwrap();
    k.swap(2, &p, true, 1 << 34, MINP + 1).unwrap();
    let o = k.u[1];
    let mut ix = burn(o, &p, -6000, 6000, 0, 0, vec![]);
    let (was, other) = (p.pos(&o, -6000, 6000), p.pos(&o, 6000, 12000));
    for m in ix.metas.iter_mut() { if m.k == was { m.k = other; } }
    assert!(k.tx(ix, &[o]).is_err(), "position of another range poked");
    assert_eq!(k.posn(1, &p, 6000, 12000).owed, [0, 0]);
}
'''),
dict(id='second-hop-forever', prop='C08', needs='a path of three hops',
 breaks='every hop after the second is paid from the output of the first',
 edits=[(L, '''                // output token account is the new input
                input_token_account = output_token_account;
''', '''                // output token account is the new input
                if i == 0 {
                    input_token_account = output_token_account;
                }
''')],
 demo='''
fn main() {
    let mut k = Kit::new(2, 4, 1000);
    let p = k.pool(0, 1, 3000, 60, Q32 + Q32 / 100);
    let q = k.pool(1, 2, 3000, 60, Q32 + Q32 / 100);
    let r = k.pool(2, 3, 3000, 60, Q32 + Q32 / 100);
    for x in [&p, &q, &r] { k.deposit(0, x, -60000, 60000, 1_000_000_000).unwrap(); }
    let u = k.u[1];
    let hop = |x: &PoolId| Hop { p: x.clone(), zfo: true, out: ata(&u, &x.t[1]), last: 0, rest: vec![rw(x.word(0))] };
    let hops = [hop(&p), hop(&q), hop(&r)];
    let t = k.tx(router_multi(u, ata(&u, &p.t[0]), &hops, 9999, 10_000, 1), &[u]);
    assert!(t.is_ok(), "{:?}", t.err());
}
'''),
dict(id='all-fees-to-protocol', prop='C11', needs='the owner choosing a protocol share of 1/1',
 breaks='a protocol share of everything is accepted',
 edits=[(L, 'assert!(fee_protocol >= 2 && fee_protocol <= 10);', 'assert!((1..=10).contains(&fee_protocol));')],
 demo='''
fn main() {
    let mut k = Kit::new(2, 2, 1000);
    let o = k.u[0];
    assert!(k.tx(set_fee_protocol(o, 1), &[o]).is_err(), "share 1/1 accepted");
}
'''),
dict(id='last-unit-left', prop='C04', needs='a swap whose last step leaves one unit, or a swap of one unit',
 breaks='a swap stops when one unit is left to do',
 edits=[(L, 'while state.amount_specified_remaining != 0 && state.sqrt_price_x32 != sqrt_price_limit_x32', 'while state.amount_specified_remaining.unsigned_abs() > 1\n            && state.sqrt_price_x32 != sqrt_price_limit_x32')],
 demo='''
fn main() {
    let mut k = Kit::new(2, 2, 1000);
    let p = k.pool(0, 1, 3000, 60, Q32);
    k.deposit(0, &p, -6000, 6000, 1_000_000_000_000).unwrap();
    let b = k.ta(1, &p);
    let (x, _y) = (k.bal(&b[1]), 0);
    k.swap(1, &p, true, -1, MINP + 1).unwrap();
    assert_eq!(k.bal(&b[1]), x + 1, "one unit asked for");
}
'''),
dict(id='crossed-at-last-observation', prop='C22', needs='time between the latest observation and a trade that crosses a tick',
 breaks='a crossed tick records the seconds as of the latest observation instead of now',
 edits=[(L, '''                        cache.tick_cumulative,
                        cache.block_timestamp,
                    );
''', '''                        cache.tick_cumulative,
                        latest_observation.block_timestamp,
                    );
''')],
 demo='''
fn main() {
    let mut k = Kit::new(2, 2, 1000);
    let p = k.pool(0, 1, 3000, 60, Q32 + 1000);
    k.deposit(0, &p, -6000, 6000, 1_000_000_000_000).unwrap();
    k.deposit(0, &p, -600, -60, 1_000_000).unwrap();
    k.at(1100);
    k.swap(1, &p, true, 1 << 40, cyclos_core::libraries::tick_math::get_sqrt_ratio_at_tick(-120).unwrap()).unwrap();
    // tick -60 came into use at 1000 with the price above it; it was crossed at 1100
    assert_eq!(r_tick(&k.b, &p.tick(-60)).unwrap().sec, 100);
}
'''),
dict(id='growth-event-of-filled', prop='C25', needs='growing a ring that is not full',
 breaks='the event for more observation slots reports the slots in use as the old number of slots',
 edits=[(L, 'let observation_cardinality_next_old = pool_state.observation_cardinality_next;', 'let observation_cardinality_next_old = pool_state.observation_cardinality;')],
 demo='''
fn main() {
    let mut k = Kit::new(2, 2, 1000);
    let p = k.pool(0, 1, 3000, 60, Q32);
    k.grow(&p, 2);
    let o = k.u[0];
    let t = k.ok(inc_obs(o, &p, 3, 1), &[o]);
    // discriminator, old, new
    let e = t.events.iter().find(|e| e.len() == 12).expect("event");
    assert_eq!((u16::from_le_bytes([e[8], e[9]]), u16::from_le_bytes([e[10], e[11]])), (3, 4));
}
'''),
dict(id='ring-count-comes-round', prop='C21', needs='a ring grown to 65,535 slots, and then once more',
 breaks='the number of slots a ring will have wraps to zero, after which no trade or in-range deposit can find its next slot',
 edits=[(L, """            .observation_cardinality_next
            .checked_add(i as u16)
            .unwrap();""", """            .observation_cardinality_next
            .wrapping_add(i as u16);""")],
 demo='''
fn main() {
    let mut k = Kit::new(2, 2, 1000);
    let p = k.pool(0, 1, 3000, 60, cyclos_core::libraries::tick_math::get_sqrt_ratio_at_tick(600).unwrap());
    k.deposit(0, &p, -6000, 6000, 1_000_000_000_000).unwrap();
    // as if it had been grown all the way (65,534 accounts; none of them is used here)
    let at = 8 + std::mem::offset_of!(cyclos_core::states::pool::PoolState, observation_cardinality_next);
    k.b.poke(&p.key, |a| a.data[at..at + 2].copy_from_slice(&65535u16.to_le_bytes()));
    assert_eq!(k.ps(&p).on, 65535);
    let u = k.u[0];
    let _ = k.b.tx(&[inc_obs(u, &p, 65535, 1)], &[u]);
    assert_eq!(k.ps(&p).on, 65535, "number of slots to come");
}
'''),
]
