L = 'lib.rs'
BUGS = [
dict(id='limit-at-tick-not-crossed', prop='C09', needs='a trade upwards whose price limit is exactly the price of an initialized tick, reached with tokens to spare',
 breaks='the price arrives at the tick and counts as in the ranges above it, but their liquidity is not switched on',
 edits=[(L, '''            if state.sqrt_price_x32 == step.sqrt_price_next_x32 {
                msg!("reached''', '''            if state.sqrt_price_x32 == step.sqrt_price_next_x32
                && (zero_for_one || state.sqrt_price_x32 != sqrt_price_limit_x32)
            {
                msg!("reached''')],
 demo='''
fn main() {
    let mut k = Kit::new(2, 2, 1000);
    let at = |t: i32| cyclos_core::libraries::tick_math::get_sqrt_ratio_at_tick(t).unwrap();
    let p = k.pool(0, 1, 3000, 60, at(0));
    k.deposit(0, &p, -6000, 6000, 1_000_000_000_000).unwrap();
    k.deposit(0, &p, 120, 600, 1_000_000_000_000).unwrap();
    k.at(1100);
    k.swap(1, &p, false, 1 << 45, at(120)).unwrap();
    let s = k.ps(&p);
    assert_eq!((s.price, s.tick), (at(120), 120));
    assert_eq!(s.liq, 2_000_000_000_000, "liquidity in range");
}
'''),
]
