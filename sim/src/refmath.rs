//! Reference arithmetic of the AMM: written from its definition, in 512-bit integers, with only
//! the range limits of the public types. `None` = the operation has to be refused.
use primitive_types::{U256, U512};

pub const MAX_TICK: i32 = 221_818;
pub const MAX_SQRT_PRICE: u128 = 65535383934512647000000000000;
pub const MIN_SQRT_PRICE: u128 = 15258932000000000000;
pub const SEARCH: i32 = 256;
pub const PCT: u128 = 1_000_000_000_000;
pub const PRICE_ONE: u128 = 1_000_000_000_000_000_000_000_000;
pub const LIQ_ONE: u128 = 100_000;

fn w(a: U256) -> U512 {
    U512::from(a)
}
fn p(a: u128) -> U512 {
    U512::from(a)
}
fn ten(n: u32) -> U512 {
    U512::from(10u8).pow(U512::from(n))
}
fn up(a: U512, b: U512) -> Option<U512> {
    if b.is_zero() {
        return None;
    }
    let (q, r) = a.div_mod(b);
    Some(if r.is_zero() { q } else { q + 1 })
}
fn down(a: U512, b: U512) -> Option<U512> {
    if b.is_zero() {
        None
    } else {
        Some(a / b)
    }
}
fn t256(a: U512) -> Option<U256> {
    U256::try_from(a).ok()
}
fn t128(a: U512) -> Option<u128> {
    if a.bits() > 128 {
        None
    } else {
        Some(a.low_u128())
    }
}

const FACTORS: [u128; 18] = [
    1000049998750,
    1000100000000,
    1000200010000,
    1000400060004,
    1000800280056,
    1001601200560,
    1003204964963,
    1006420201726,
    1012881622442,
    1025929181080,
    1052530684591,
    1107820842005,
    1227267017980,
    1506184333421,
    2268591246242,
    5146506242525,
    26486526504348,
    701536086265529,
];

/// sqrt(1.0001^tick), 24 decimals, in the protocol's 12-digit fixed point steps.
pub fn price_of_tick(tick: i32) -> Option<u128> {
    let t = tick.unsigned_abs();
    if t > MAX_TICK as u32 {
        return None;
    }
    let mut v = PCT;
    for (i, f) in FACTORS.iter().enumerate() {
        if t >> i & 1 == 1 {
            v = v * f / PCT;
        }
    }
    Some(if tick >= 0 { v * PCT } else { (PCT * PCT / v) * PCT })
}
pub fn align(t: i32, spacing: u16) -> i32 {
    t.div_euclid(spacing as i32) * spacing as i32
}
/// The highest tick, aligned down to the spacing, whose price does not exceed `price`.
pub fn tick_of_price(price: u128, spacing: u16) -> Option<i32> {
    if !(MIN_SQRT_PRICE..=MAX_SQRT_PRICE).contains(&price) {
        return None;
    }
    let (mut lo, mut hi) = (-MAX_TICK, MAX_TICK);
    while lo < hi {
        let mid = lo + (hi - lo + 1) / 2;
        if price_of_tick(mid).unwrap() <= price {
            lo = mid
        } else {
            hi = mid - 1
        }
    }
    Some(align(lo, spacing))
}
pub fn max_tick(spacing: u16) -> i32 {
    MAX_TICK / spacing as i32 * spacing as i32
}
pub fn max_liquidity_per_tick(spacing: u16) -> U256 {
    U256::MAX / U256::from((2 * MAX_TICK as u128 + 1) / spacing as u128)
}
pub fn mul_pct(a: U256, pct: u128) -> Option<U256> {
    t256(w(a) * p(pct) / p(PCT))
}
pub fn mul_pct_up(a: U256, pct: u128) -> Option<U256> {
    t256(up(w(a) * p(pct), p(PCT))?)
}

pub fn delta_x(a: u128, b: u128, l: U256, round_up: bool) -> Option<U256> {
    let d = a.abs_diff(b);
    let nom = p(d) * w(l) / p(LIQ_ONE);
    if round_up {
        let den = p(a) * p(b) / p(PRICE_ONE);
        let i = up(nom * p(PRICE_ONE), den)?;
        t256(up(i, p(PRICE_ONE))?)
    } else {
        let den = up(p(a) * p(b), p(PRICE_ONE))?;
        let i = down(nom * p(PRICE_ONE), den)?;
        t256(i / p(PRICE_ONE))
    }
}
pub fn delta_y(a: u128, b: u128, l: U256, round_up: bool) -> Option<U256> {
    let d = a.abs_diff(b);
    if round_up {
        t256(up(up(p(d) * w(l), p(LIQ_ONE))?, p(PRICE_ONE))?)
    } else {
        t256(p(d) * w(l) / p(LIQ_ONE) / p(PRICE_ONE))
    }
}
fn next_price_x(start: u128, l: U256, x: U256, add: bool) -> Option<u128> {
    if x.is_zero() {
        return Some(start);
    }
    let base = w(l) * ten(19);
    let den = if add {
        base + p(start) * w(x)
    } else {
        base.checked_sub(p(start) * w(x))?
    };
    let num = up(p(start) * w(l), p(LIQ_ONE))?;
    t128(up(num * p(PRICE_ONE), den)?)
}
fn next_price_y(start: u128, l: U256, y: U256, add: bool) -> Option<u128> {
    let num = w(y) * p(PRICE_ONE) * p(PRICE_ONE);
    let den = w(l) * ten(19);
    if add {
        start.checked_add(t128(down(num, den)?)?)
    } else {
        start.checked_sub(t128(up(num, den)?)?)
    }
}
fn next_from_input(start: u128, l: U256, a: U256, x_to_y: bool) -> Option<u128> {
    if x_to_y {
        next_price_x(start, l, a, true)
    } else {
        next_price_y(start, l, a, true)
    }
}
fn next_from_output(start: u128, l: U256, a: U256, x_to_y: bool) -> Option<u128> {
    if x_to_y {
        next_price_y(start, l, a, false)
    } else {
        next_price_x(start, l, a, false)
    }
}

#[derive(Debug, Clone, Copy)]
pub struct Step {
    pub next: u128,
    pub amount_in: U256,
    pub amount_out: U256,
    pub fee: U256,
}
pub fn swap_step(cur: u128, target: u128, l: U256, amount: U256, by_in: bool, fee: u128) -> Option<Step> {
    if l.is_zero() {
        return Some(Step { next: target, amount_in: U256::zero(), amount_out: U256::zero(), fee: U256::zero() });
    }
    let x_to_y = cur >= target;
    let input = |n: u128| {
        if x_to_y { delta_x(n, cur, l, true) } else { delta_y(cur, n, l, true) }
    };
    let output = |n: u128| {
        if x_to_y { delta_y(n, cur, l, false) } else { delta_x(cur, n, l, false) }
    };
    // rounding of the amounts needed for the whole step never carries the price past its target
    let stop = |n: u128| if x_to_y { n.max(target) } else { n.min(target) };
    let mut spent = None; // all of the amount, although the target may be reached
    let next = if by_in {
        let net = mul_pct(amount, PCT.checked_sub(fee)?)?;
        if net >= input(target)? {
            target
        } else {
            spent = Some(net);
            stop(next_from_input(cur, l, net, x_to_y)?)
        }
    } else if amount >= output(target)? {
        target
    } else {
        stop(next_from_output(cur, l, amount, x_to_y)?)
    };
    let amount_in = match spent {
        Some(net) if next == target => net,
        // all of the amount is used up, and never more than that
        Some(_) => input(next)?.min(amount),
        None => input(next)?,
    };
    let mut amount_out = output(next)?;
    if !by_in && amount_out > amount {
        amount_out = amount;
    }
    let fee = if spent.is_some() {
        amount.checked_sub(amount_in)?
    } else {
        mul_pct_up(amount_in, fee)?
    };
    Some(Step { next, amount_in, amount_out, fee })
}
pub fn enough_to_move(amount: U256, start: u128, l: U256, fee: u128, by_in: bool, x_to_y: bool) -> Option<bool> {
    if l.is_zero() {
        return Some(true);
    }
    let n = if by_in {
        next_from_input(start, l, mul_pct(amount, PCT.checked_sub(fee)?)?, x_to_y)?
    } else {
        next_from_output(start, l, amount, x_to_y)?
    };
    Some(n != start)
}
/// Amounts a position of this liquidity holds / needs at the pool's price.
pub fn amounts(cur_tick: i32, price: u128, l: U256, add: bool, lower: i32, upper: i32) -> Option<(U256, U256, bool)> {
    if upper < lower {
        return None;
    }
    let (pl, pu) = (price_of_tick(lower)?, price_of_tick(upper)?);
    let z = U256::zero();
    Some(if cur_tick < lower {
        (delta_x(pl, pu, l, add)?, z, false)
    } else if cur_tick < upper {
        (delta_x(price, pu, l, add)?, delta_y(pl, price, l, add)?, true)
    } else {
        (z, delta_y(pl, pu, l, add)?, false)
    })
}
/// fee * 1e28 / liquidity
pub fn growth_from_fee(l: U256, fee: U256) -> Option<u128> {
    t128(down(w(fee) * ten(28) * p(LIQ_ONE), w(l))?)
}
pub fn growth_to_fee(g: u128, l: U256) -> Option<U256> {
    t256(p(g) * w(l) / p(LIQ_ONE) / ten(28))
}
