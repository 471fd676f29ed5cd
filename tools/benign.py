#!/usr/bin/env python3
"""Behaviour-preserving edits of the program: every check has to stay quiet on them.
usage: benign.py [ID..]   (scratch copy /tmp/w; env KILL="seed episodes")"""
import sys, os
sys.path.insert(0, '/verif/tools')
from plant import *
L = 'lib.rs'
B = {}
# 1 the callback's two directions through one helper, payments first computed then made
B['callback-helper'] = [(L, '''        let (exact_input, amount_to_pay) = if amount_0_delta > 0 {
            (
                ctx.accounts.input_vault.mint < ctx.accounts.output_vault.mint,
                amount_0_delta as u64,
            )
        } else {
            (
                ctx.accounts.output_vault.mint < ctx.accounts.input_vault.mint,
                amount_1_delta as u64,
            )
        };''', '''        let in_is_zero = ctx.accounts.input_vault.mint < ctx.accounts.output_vault.mint;
        let in_is_one = ctx.accounts.output_vault.mint < ctx.accounts.input_vault.mint;
        let pays_zero = amount_0_delta > 0;
        let exact_input = (pays_zero && in_is_zero) || (!pays_zero && in_is_one);
        let amount_to_pay = (if pays_zero { amount_0_delta } else { amount_1_delta }) as u64;''')]
# 2 lock taken later than other checks, limits tested first
B['reorder-requires'] = [(L, '''        require!(pool.unlocked, ErrorCode::LOK);
        require!(
            if zero_for_one {
                sqrt_price_limit_x32 < pool.sqrt_price_x32
                    && sqrt_price_limit_x32 > tick_math::MIN_SQRT_RATIO
            } else {
                sqrt_price_limit_x32 > pool.sqrt_price_x32
                    && sqrt_price_limit_x32 < tick_math::MAX_SQRT_RATIO
            },
            ErrorCode::SPL
        );
''', '''        let limit_ok = match zero_for_one {
            true => {
                tick_math::MIN_SQRT_RATIO < sqrt_price_limit_x32
                    && pool.sqrt_price_x32 > sqrt_price_limit_x32
            }
            false => {
                !(sqrt_price_limit_x32 >= tick_math::MAX_SQRT_RATIO
                    || sqrt_price_limit_x32 <= pool.sqrt_price_x32)
            }
        };
        require!(limit_ok, ErrorCode::SPL);
        require!(pool.unlocked, ErrorCode::LOK);
''')]
# 3 collect: owed amounts lowered together before either transfer
B['collect-effects-first'] = [(L, '''        drop(pool);
        if amount_0 > 0 {
            position.tokens_owed_0 -= amount_0;
            token::transfer(''', '''        drop(pool);
        position.tokens_owed_0 -= amount_0;
        position.tokens_owed_1 -= amount_1;
        if amount_0 > 0 {
            token::transfer('''), (L, '''        if amount_1 > 0 {
            position.tokens_owed_1 -= amount_1;
            token::transfer(''', '''        if amount_1 > 0 {
            token::transfer(''')]
# 4 the observation is computed ahead whether or not a tick is crossed
B['observe-eagerly'] = [(L, '''        let mut remaining_accounts = ctx.remaining_accounts.iter();

        // cache for the current''', '''        let mut remaining_accounts = ctx.remaining_accounts.iter();
        let (tc, spl) = latest_observation.observe_latest(
            cache.block_timestamp,
            pool.tick,
            pool.liquidity,
        );
        cache.tick_cumulative = tc;
        cache.seconds_per_liquidity_cumulative_x32 = spl;
        cache.computed_latest_observation = true;

        // cache for the current''')]
# 5 the tick is written on every swap that ends elsewhere, liquidity always stored
B['store-always'] = [(L, '''        if cache.liquidity_start != state.liquidity {
            pool.liquidity = state.liquidity;
        }''', '''        pool.liquidity = state.liquidity;'''), (L, '''            if state.protocol_fee > 0 {
                pool.protocol_fees_token_0 += state.protocol_fee;
            }''', '''            pool.protocol_fees_token_0 =
                pool.protocol_fees_token_0.wrapping_add(state.protocol_fee);''')]
# 6 swap step rewritten around one closure
B['step-closures'] = [('libraries/swap_math.rs', '''    // get the input / output amounts when target price is not reached
    if zero_for_one {''', '''    let lo = swap_step.sqrt_ratio_next_x32.min(sqrt_ratio_current_x32);
    let hi = swap_step.sqrt_ratio_next_x32.max(sqrt_ratio_current_x32);
    let side = |zero: bool, up: bool| {
        if zero {
            sqrt_price_math::get_amount_0_delta_unsigned(lo, hi, liquidity, up)
        } else {
            sqrt_price_math::get_amount_1_delta_unsigned(lo, hi, liquidity, up)
        }
    };
    // get the input / output amounts when target price is not reached
    if true {
        swap_step.amount_in = side(zero_for_one, true);
        swap_step.amount_out = side(!zero_for_one, false);
    } else if zero_for_one {''')]
# 7 tick update written the other way round
B['tick-update'] = [('states/tick.rs', '''        self.liquidity_net = if upper {
            self.liquidity_net.checked_sub(liquidity_delta)
        } else {
            self.liquidity_net.checked_add(liquidity_delta)
        }
        .unwrap();

        Ok(flipped)''', '''        let net: i128 = self.liquidity_net as i128
            + if upper { -(liquidity_delta as i128) } else { liquidity_delta as i128 };
        self.liquidity_net = i64::try_from(net).unwrap();

        Ok(flipped)'''), ('states/tick.rs', '''            && self.liquidity_gross == 0
            && self.fee_growth_outside_0_x32 == 0''', '''            && self.fee_growth_outside_0_x32 == 0
            && self.liquidity_gross == 0''')]
# 8 growth inside as the difference of growth below the two ticks
B['growth-difference'] = [('states/tick.rs', '''    let fee_growth_inside_0_x32 =
        fee_growth_global_0_x32 - fee_growth_below_0_x32 - fee_growth_above_0_x32;
    let fee_growth_inside_1_x32 =
        fee_growth_global_1_x32 - fee_growth_below_1_x32 - fee_growth_above_1_x32;
''', '''    let fee_growth_inside_0_x32 = fee_growth_global_0_x32
        .wrapping_sub(fee_growth_below_0_x32.wrapping_add(fee_growth_above_0_x32));
    let fee_growth_inside_1_x32 = fee_growth_global_1_x32
        .wrapping_sub(fee_growth_below_1_x32.wrapping_add(fee_growth_above_1_x32));
''')]
# 9 add_delta with checked arithmetic
B['checked-delta'] = [('libraries/liquidity_math.rs', '''    let z: u64;
    if y < 0 {
        z = x - (-y as u64);
        require!(z < x, ErrorCode::LS);
    } else {
        z = x + (y as u64);
        require!(z >= x, ErrorCode::LA);
    }

    Ok(z)''', '''    if y < 0 {
        Ok(x.checked_sub(y.unsigned_abs()).ok_or(ErrorCode::LS)?)
    } else {
        Ok(x.checked_add(y as u64).ok_or(ErrorCode::LA)?)
    }''')]
# 10 observation: zero time does nothing, through a match
B['oracle-match'] = [('states/oracle.rs', '''        let mut last = self;
        if self.block_timestamp != time {
            last = self.transform(time, tick, liquidity)
        }
        (''', '''        let last = self.transform(time, tick, liquidity);
        ('''), ('states/oracle.rs', '''        let newly_initialized = !self.initialized;
''', '''        let newly_initialized = if self.initialized { false } else { true };
''')]
# 11 amounts of a modify written with a match on the tick's place
B['burn-unconditional'] = [(L, '''        if amount_0 > 0 || amount_1 > 0 {
            let mut position_state = ctx.accounts.position_state.load_mut()?;
            position_state.tokens_owed_0 += amount_0;
            position_state.tokens_owed_1 += amount_1;
        }
''', '''        {
            let mut position_state = ctx.accounts.position_state.load_mut()?;
            position_state.tokens_owed_1 += amount_1;
            position_state.tokens_owed_0 += amount_0;
        }
''')]
# 12 events before the transfers that they report, in collect_protocol
B['event-earlier'] = [(L, '''        pool_state.protocol_fees_token_0 -= amount_0;
        pool_state.protocol_fees_token_1 -= amount_1;
        drop(pool_state);
''', '''        pool_state.protocol_fees_token_1 -= amount_1;
        pool_state.protocol_fees_token_0 -= amount_0;
        drop(pool_state);
        emit!(CollectProtocolEvent {
            pool_state: ctx.accounts.pool_state.key(),
            sender: ctx.accounts.owner.key(),
            recipient_wallet_0: ctx.accounts.recipient_wallet_0.key(),
            recipient_wallet_1: ctx.accounts.recipient_wallet_1.key(),
            amount_0,
            amount_1,
        });
'''), (L, '''        emit!(CollectProtocolEvent {
            pool_state: ctx.accounts.pool_state.key(),
            sender: ctx.accounts.owner.key(),
            recipient_wallet_0: ctx.accounts.recipient_wallet_0.key(),
            recipient_wallet_1: ctx.accounts.recipient_wallet_1.key(),
            amount_0,
            amount_1,
        });

        pool_state = ctx''', '''        pool_state = ctx''')]
# 13 one balance read for both sides of the deposit check
B['mint-balances'] = [(L, '''        let balance_0_before = if amount_0 > 0 {
            ctx.accounts.vault_0.amount
        } else {
            0
        };
        let balance_1_before = if amount_1 > 0 {
            ctx.accounts.vault_1.amount
        } else {
            0
        };
''', '''        let balance_0_before = ctx.accounts.vault_0.amount;
        let balance_1_before = ctx.accounts.vault_1.amount;
''')]
def main(ids):
    scratch()
    h = W + '/harness'; sh(f'mkdir -p {h}; cp -r {V}/harness/src {V}/harness/Cargo.lock {h}/')
    open(h + '/Cargo.toml', 'w').write(open(V + '/harness/Cargo.toml').read().replace('/repo/', R + '/'))
    for i in ids or B:
        scratch()
        try: apply({'id': i, 'edits': B[i]})
        except AssertionError as e: print(e); continue
        r = sh(ENV + f'CARGO_TARGET_DIR={W}/target-h cargo build --release --offline --locked --bins', h)
        if r.returncode: print(i, 'build', r.stderr[-900:]); continue
        sh(f'mkdir -p {W}/out; cp {V}/known_findings.txt {W}/out/')
        o = []
        for s in (31, 32, 33, 34):
            o.append(f'CYKMON_ROOT={W}/out timeout 900 {W}/target-h/release/cykmon kill {s} {os.environ.get("KILL", "400")} > {W}/out/k{s} 2>&1')
        sh(' & '.join(o) + ' & wait')
        for s in (31, 32, 33, 34): print(i, s, open(f'{W}/out/k{s}').read().strip()[:300], flush=True)
        if any(f.startswith('libraries') for f, _, _ in B[i]):
            for p in ('C26', 'C27', 'C28', 'C29'):
                r = sh(f'CYKMON_ROOT={W}/out VERIF_SEED=1 VERIF_TIER=quick timeout 600 {W}/target-h/release/libmon check {p}', h)
                print(i, p, r.returncode, (r.stdout.strip().splitlines() or [''])[0][:200], flush=True)
    scratch()
main(sys.argv[1:])
