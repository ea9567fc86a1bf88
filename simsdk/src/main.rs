//! The simulator with the repository's own client SDK (sdk/src/wasm) linked in.
use decimal::{Decimal, U256 as SU};
use invariant_vara_wasm as sdk;
use primitive_types::U256;
use sdk::fee_growth::FeeGrowth;
use sdk::liquidity::Liquidity;
use sdk::percentage::Percentage;
use sdk::sqrt_price::SqrtPrice;
use sdk::token_amount::TokenAmount;
use std::panic::{catch_unwind, AssertUnwindSafe};
use varasim::sdk::{Sdk, SdkPool, SdkSwap, SDK};
use varasim::types::{Actor, Pool, Position, Tick};

struct Linked;
fn su(v: U256) -> SU {
    SU(v.0)
}
fn pu(v: SU) -> U256 {
    U256(v.0)
}
fn ta(v: U256) -> TokenAmount {
    TokenAmount::new(su(v))
}
fn guard<T, E: std::fmt::Debug>(f: impl FnOnce() -> Result<T, E>) -> Result<T, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(Ok(v)) => Ok(v),
        Ok(Err(e)) => Err(format!("{e:?}").chars().take(200).collect()),
        Err(_) => Err("trap".into()),
    }
}
fn sp(v: u128) -> SqrtPrice {
    SqrtPrice::new(v)
}
fn fg(v: u128) -> FeeGrowth {
    FeeGrowth::new(v)
}
fn hex(a: &Actor) -> String {
    format!("0x{}", a.iter().map(|b| format!("{b:02x}")).collect::<String>())
}
fn pool(p: &Pool) -> sdk::Pool {
    sdk::Pool {
        liquidity: Liquidity::new(su(p.liquidity)),
        sqrt_price: sp(p.sqrt_price),
        current_tick_index: p.current_tick_index as i64,
        fee_growth_global_x: fg(p.fee_growth_global_x),
        fee_growth_global_y: fg(p.fee_growth_global_y),
        fee_protocol_token_x: ta(p.fee_protocol_token_x),
        fee_protocol_token_y: ta(p.fee_protocol_token_y),
        start_timestamp: p.start_timestamp,
        last_timestamp: p.last_timestamp,
        fee_receiver: hex(&p.fee_receiver),
    }
}

impl Sdk for Linked {
    fn position_to_tick(&self, chunk: u16, bit: u8, spacing: u16) -> Result<i32, String> {
        guard(|| sdk::tickmap::position_to_tick(chunk, bit, spacing))
    }
    fn swap(&self, p: &SdkPool, x_to_y: bool, amount: U256, by_in: bool, limit: u128) -> Result<SdkSwap, String> {
        guard(|| {
            let tier = sdk::FeeTier { fee: Percentage::new(p.tier.fee), tick_spacing: p.tier.tick_spacing as u64 };
            let map = sdk::tickmap::Tickmap { bitmap: p.chunks.iter().map(|c| (c.0 as u64, c.1)).collect() };
            let ticks = p
                .ticks
                .iter()
                .map(|t| sdk::LiquidityTick {
                    index: t.index as i64,
                    liquidity_change: Liquidity::new(su(t.liquidity_change)),
                    sign: t.sign,
                })
                .collect();
            sdk::simulate_invariant_swap(map, tier, pool(&p.pool), ticks, x_to_y, ta(amount), by_in, sp(limit))
        })
        .map(|s| SdkSwap {
            amount_in: pu(s.amount_in.get()),
            amount_out: pu(s.amount_out.get()),
            fee: pu(s.fee.get()),
            start: s.start_sqrt_price.get(),
            target: s.target_sqrt_price.get(),
            crossed: s.crossed_ticks.iter().map(|t| (t.index, pu(t.liquidity_change.get()), t.sign)).collect(),
            insufficient: s.global_insufficient_liquidity,
            max_steps: s.max_swap_steps_reached,
            outdated: s.state_outdated,
        })
    }
    fn fee(&self, p: &Pool, pos: &Position, lo: &Tick, up: &Tick) -> Result<(U256, U256), String> {
        guard(|| {
            sdk::calculate_fee(
                lo.index,
                fg(lo.fee_growth_outside_x),
                fg(lo.fee_growth_outside_y),
                up.index,
                fg(up.fee_growth_outside_x),
                fg(up.fee_growth_outside_y),
                p.current_tick_index,
                fg(p.fee_growth_global_x),
                fg(p.fee_growth_global_y),
                fg(pos.fee_growth_inside_x),
                fg(pos.fee_growth_inside_y),
                Liquidity::new(su(pos.liquidity)),
            )
        })
        .map(|(x, y)| (pu(x.get()), pu(y.get())))
    }
    fn delta(&self, p: &Pool, liquidity: U256, up: bool, upper: i32, lower: i32) -> Result<(U256, U256), String> {
        let l = Liquidity::new(su(liquidity));
        guard(|| sdk::calculate_amount_delta(p.current_tick_index, sp(p.sqrt_price), l, up, upper, lower))
            .and_then(|(x, y, within)| {
                if within == (lower..upper).contains(&p.current_tick_index) {
                    Ok((pu(x.get()), pu(y.get())))
                } else {
                    Err(format!("says that the price is {}within {lower}..{upper}", if within { "" } else { "not " }))
                }
            })
    }
    fn min_out(&self, expected: U256, slippage: u128) -> Result<U256, String> {
        guard(|| Ok::<_, ()>(sdk::calculate_min_amount_out(ta(expected), Percentage::new(slippage)))).map(|v| pu(v.get()))
    }
    fn max_liquidity(&self, spacing: u16) -> Result<U256, String> {
        guard(|| Ok::<_, ()>(sdk::calculate_max_liquidity_per_tick(spacing))).map(|v| pu(v.get()))
    }
    fn tick_of(&self, price: u128, spacing: u16) -> Result<i32, String> {
        guard(|| sdk::log::get_tick_at_sqrt_price(sp(price), spacing))
    }
    fn price_of(&self, tick: i32) -> Result<u128, String> {
        guard(|| sdk::sqrt_price::calculate_sqrt_price(tick)).map(|p| p.get())
    }
    fn valid_start(&self, tick: i32, spacing: u16, price: u128) -> Result<bool, String> {
        guard(|| sdk::check_tick_to_sqrt_price_relationship(tick, spacing, sp(price)))
    }
    fn max_chunk(&self, spacing: u16) -> Result<u16, String> {
        guard(|| sdk::get_max_chunk(spacing))
    }
    fn bounds(&self, spacing: u16) -> Result<(i32, i32, u128, u128), String> {
        Ok((
            guard(|| sdk::sqrt_price::get_min_tick(spacing))?,
            guard(|| sdk::sqrt_price::get_max_tick(spacing))?,
            guard(|| sdk::sqrt_price::get_min_sqrt_price(spacing))?.get(),
            guard(|| sdk::sqrt_price::get_max_sqrt_price(spacing))?.get(),
        ))
    }
    fn is_x(&self, a: &Actor, b: &Actor) -> Result<bool, String> {
        guard(|| sdk::is_token_x(hex(a), hex(b)))
    }
    fn sizing(&self, by_x: bool, amount: U256, lower: i32, upper: i32, price: u128, up: bool) -> Result<(U256, U256), String> {
        guard(|| {
            let f = if by_x { sdk::get_liquidity_by_x } else { sdk::get_liquidity_by_y };
            f(ta(amount), lower, upper, sp(price), up)
        })
        .map(|s| (pu(s.l.get()), pu(s.amount.get())))
    }
    fn pool_key(&self, a: &Actor, b: &Actor, t: &varasim::types::FeeTier) -> Result<(Actor, Actor), String> {
        let unhex = |s: &str| -> Actor {
            let mut o = [0u8; 32];
            for (i, b) in o.iter_mut().enumerate() {
                *b = u8::from_str_radix(&s[2 + 2 * i..4 + 2 * i], 16).unwrap();
            }
            o
        };
        let tier = sdk::FeeTier { fee: Percentage::new(t.fee), tick_spacing: t.tick_spacing as u64 };
        guard(|| sdk::PoolKey::new(hex(a), hex(b), tier)).map(|k| (unhex(&k.token_x), unhex(&k.token_y)))
    }
    fn tick_to_position(&self, tick: i32, spacing: u16) -> Result<(u16, u8), String> {
        let js = guard(|| sdk::tickmap::tick_to_position_js(tick, spacing));
        let own = guard(|| Ok::<_, ()>(sdk::tickmap::tick_to_position(tick, spacing)));
        match (js, own) {
            (Ok(a), Ok(b)) if a == b => Ok(a),
            e => Err(format!("{e:?}")),
        }
    }
    fn check_tick(&self, tick: i32, spacing: u16) -> Result<(), String> {
        guard(|| sdk::check_tick(tick, spacing))
    }
    fn check_ticks(&self, lower: i32, upper: i32, spacing: u16) -> Result<(), String> {
        guard(|| sdk::check_ticks(lower, upper, spacing))
    }
    fn limits(&self) -> (usize, usize, i32, i32) {
        let told = (sdk::get_liquidity_tick_limit(), sdk::get_position_tick_limit(), sdk::get_chunk_size(), sdk::get_tick_search_range());
        if told != (sdk::LIQUIDITY_TICK_LIMIT, sdk::POSITION_TICK_LIMIT, sdk::CHUNK_SIZE, sdk::TICK_SEARCH_RANGE) {
            return (0, 0, 0, 0);
        }
        (told.0 as usize, told.1 as usize, told.2, told.3)
    }
    fn global_prices(&self) -> (u128, u128) {
        if (sdk::get_global_min_sqrt_price(), sdk::get_global_max_sqrt_price()) != (sdk::MIN_SQRT_PRICE, sdk::MAX_SQRT_PRICE) {
            return (0, 0);
        }
        (sdk::MIN_SQRT_PRICE, sdk::MAX_SQRT_PRICE)
    }
    fn tier_ok(&self, fee: u128, spacing: u16) -> bool {
        catch_unwind(|| sdk::FeeTier::new(Percentage::new(fee), spacing).is_ok()).unwrap_or(false)
    }
}

fn main() {
    let _ = SDK.set(Box::new(Linked));
    varasim::main()
}
