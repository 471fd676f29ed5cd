L = 'lib.rs'
X = 'context.rs'
BUGS = [
dict(id='range-by-price', prop='C09', needs='a swap to the left that ends exactly on the lower or upper tick of a range, and then a deposit to or withdrawal from that range',
 breaks='whether a deposit becomes active is decided by the price instead of the current tick, which differ on a tick just crossed leftwards',
 edits=[(L, '''        } else if pool_state.tick < tick_upper {
            // current tick is inside the passed range
''', '''        } else if pool_state.sqrt_price_x32 < tick_math::get_sqrt_ratio_at_tick(tick_upper)? {
            // current tick is inside the passed range
''')],
 demo='''
fn main() {
    let mut k = Kit::new(2, 2, 1000);
    let p = k.pool(0, 1, 3000, 60, Q32 + Q32 / 100);
    k.deposit(0, &p, -6000, 6000, 1_000_000_000_000).unwrap();
    k.deposit(0, &p, -60, 60, 1_000_000_000).unwrap();
    k.swap(1, &p, true, 1 << 40, rq(60)).unwrap();
    let s = k.ps(&p);
    assert_eq!(s.price, rq(60));
    for t in [s.tick] { assert!(t == 59 || t == 60); }
    let was = s.liq;
    let inside = s.tick < 60;
    k.deposit(1, &p, -60, 60, 5_000_000_000).unwrap();
    assert_eq!(k.ps(&p).liq - was, if inside { 5_000_000_000 } else { 0 }, "active liquidity of a deposit at tick {}", s.tick);
    k.swap(1, &p, true, 1_000_000, 0).expect("trade");
    assert_eq!(k.ps(&p).liq, 1_000_000_000_000 + 1_000_000_000 + 5_000_000_000, "liquidity below the tick");
}
fn rq(t: i32) -> u64 { cyclos_core::libraries::tick_math::get_sqrt_ratio_at_tick(t).unwrap() }
'''),
dict(id='skip-as-first-hop', prop='C08', needs='a path of three hops whose first two use different numbers of accounts',
 breaks='every hop is assumed to use as many accounts as the first',
 edits=[(L, '''                for _j in 0..additional_accounts_per_pool[i] {
''', '''                for _j in 0..additional_accounts_per_pool[0] {
''')],
 demo='''
fn main() {
    let mut k = Kit::new(2, 3, 1000);
    let p = k.pool(0, 1, 3000, 60, Q32 + 40_000_000);
    let q = k.pool(1, 2, 3000, 60, Q32 + 9_000_000);
    let r = k.pool(0, 2, 3000, 60, Q32 + 9_000_000);
    for x in [&p, &q, &r] { k.deposit(0, x, -6000, 6000, 1_000_000_000_000).unwrap(); }
    // the second pool has a tick on the way
    k.deposit(0, &q, 0, 6000, 1_000_000_000).unwrap();
    let u = k.u[1];
    let far = 4_000_000_000;
    let t = |k: &Kit, x: &PoolId, zfo: bool| k.walk(x, zfo, 1);
    let (w0, w2) = (t(&k, &p, true), t(&k, &r, false));
    let w1 = k.walk(&q, true, 3);
    assert!(w1.len() >= 2);
    for n in 1..=w1.len() {
        let b0 = k.b.clone();
        let hops = vec![
            Hop { p: p.clone(), zfo: true, out: ata(&u, &p.t[1]), last: 0, rest: w0.clone() },
            Hop { p: q.clone(), zfo: true, out: ata(&u, &q.t[1]), last: 0, rest: w1[..n].to_vec() },
            Hop { p: r.clone(), zfo: false, out: ata(&u, &r.t[0]), last: 0, rest: w2.clone() }];
        let x = k.tx(router_multi(u, ata(&u, &p.t[0]), &hops, 9999, far, 0), &[u]);
        if x.is_ok() { assert!(n > 1); return; }
        k.b = b0;
    }
    panic!("no trade over three pools");
}
'''),
dict(id='fees-by-starting-liquidity', prop='C10', needs='a swap that crosses a tick where liquidity changes',
 breaks='the fee of a price range is divided by the liquidity at the start of the swap',
 edits=[(L, '''                    .mul_div_floor(fixed_point_32::Q32, state.liquidity)
                    .unwrap();
            }
''', '''                    .mul_div_floor(fixed_point_32::Q32, cache.liquidity_start.max(state.liquidity))
                    .unwrap();
            }
''')],
 demo='''
fn main() {
    let mut k = Kit::new(3, 2, 1000);
    let p = k.pool(0, 1, 3000, 60, Q32);
    k.deposit(0, &p, -6000, 6000, 1_000_000_000).unwrap();
    k.deposit(1, &p, -60, 60, 100_000_000_000).unwrap();
    let d = k.swap(2, &p, true, 400_000_000, 0).unwrap();
    assert_eq!(k.ps(&p).liq, 1_000_000_000);
    let fee = d[0] as u64 * 3 / 1000 * 2 / 3;
    k.remove(0, &p, -6000, 6000, 0).unwrap();
    k.remove(1, &p, -60, 60, 0).unwrap();
    let got = k.posn(0, &p, -6000, 6000).owed[0] + k.posn(1, &p, -60, 60).owed[0];
    assert!(got + fee / 50 > fee, "fees {} of about {}", got, fee);
}
'''),
dict(id='event-starting-liquidity', prop='C25', needs='a swap that crosses a tick where liquidity changes',
 breaks='the swap event reports the liquidity before the swap',
 edits=[(L, '''            liquidity: state.liquidity,
            tick: state.tick
''', '''            liquidity: cache.liquidity_start,
            tick: state.tick
''')],
 demo='''
fn main() {
    let mut k = Kit::new(3, 2, 1000);
    let p = k.pool(0, 1, 3000, 60, Q32);
    k.deposit(0, &p, -6000, 6000, 1_000_000_000).unwrap();
    k.deposit(1, &p, -60, 60, 100_000_000_000).unwrap();
    let (o, ta) = (k.u[2], k.ta(2, &p));
    let pp = p.clone();
    let r = k.with_walk(&p, true, |k, r| { let oi = k.ps(&pp).oi; k.tx(ix_swap(o, ta[0], ta[1], &pp, true, 400_000_000, MINP + 1, oi, PROG, r), &[o]) }).unwrap();
    let l = k.ps(&p).liq;
    assert_eq!(l, 1_000_000_000);
    let e = r.events.iter().find(|e| e[..8] == D::ev("SwapEvent").0[..]).expect("event");
    assert_eq!(g64(&e, 8 + 32 * 4 + 8 + 8 + 8), l, "liquidity in the event");
}
'''),
dict(id='collect-while-open', prop='C19', needs='a deposit whose callback collects from another position of the pool',
 breaks='collecting is possible while another operation on the pool is in progress, and leaves the pool open',
 edits=[(L, '''                == get_associated_token_address(&pool_state.key(), &pool.token_1)
        );

        require!(pool.unlocked, ErrorCode::LOK);
        pool.unlocked = false;
''', '''                == get_associated_token_address(&pool_state.key(), &pool.token_1)
        );

        pool.unlocked = false;
''')],
 demo='''
fn main() {
    let mut k = Kit::new(2, 2, 1000);
    let p = k.pool(0, 1, 3000, 60, Q32);
    k.deposit(0, &p, -600, 600, 1_000_000_000).unwrap();
    k.remove(0, &p, -600, 600, 500_000_000).unwrap();
    // a pool in the middle of another operation
    let open = k.b.get(&p.key).unwrap().clone();
    let mut a = open.clone();
    a.data[UNLOCKED_AT] = 0;
    k.b.put(p.key, a);
    assert!(k.take(0, &p, -600, 600, [1000, 1000]).is_err(), "collected from a pool in use");
    k.b.put(p.key, open);
    assert!(k.take(0, &p, -600, 600, [1000, 1000]).is_ok());
}
'''),
]
