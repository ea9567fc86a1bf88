//! Executable reference model of every state-changing call, on the observable state.
use crate::refmath as rm;
use crate::types::*;
use crate::world::*;
use parity_scale_codec::Encode;
use primitive_types::U256;

#[derive(Clone, Debug)]
pub struct Env {
    pub caller: Actor,
    pub now: u64,
    pub height: u32,
    pub value: u128,
}
#[derive(Clone, Debug, Default)]
pub struct Effect {
    pub reply: Option<Vec<u8>>,
    pub reply_value: u128,
    pub events: Vec<Event>,
    /// token requests: (token, from, to, amount)
    pub requests: Vec<(Actor, Actor, Actor, U256)>,
    pub withdrawal: bool,
    /// route composition, for the checks that need it
    pub swaps: Vec<SwapResult>,
    pub steps: u32,
    pub crossed: u32,
}
thread_local! {
    /// rare situations met while the model follows the contract (off while the generator tries things)
    pub static CORNERS: std::cell::RefCell<Option<std::collections::BTreeMap<&'static str, u64>>> = const { std::cell::RefCell::new(None) };
}
pub fn seen(s: &'static str) {
    CORNERS.with(|c| {
        if let Some(m) = c.borrow_mut().as_mut() {
            *m.entry(s).or_default() += 1;
        }
    });
}
pub type Res<T> = Result<T, &'static str>;

trait Must<T> {
    fn must(self, s: &'static str) -> Res<T>;
}
impl<T> Must<T> for Option<T> {
    fn must(self, s: &'static str) -> Res<T> {
        self.ok_or(s)
    }
}

pub struct Calc {
    pub r: SwapResult,
    pub steps: u32,
    pub liq_zero_steps: u32,
}

fn add_fee(p: &mut Pool, amount: U256, in_x: bool, pf: u128) -> Res<()> {
    let proto = rm::mul_pct_up(amount, pf).must("protocol fee overflow")?;
    let rest = amount.checked_sub(proto).must("protocol fee above the fee")?;
    if amount.is_zero() || p.liquidity.is_zero() {
        return Ok(());
    }
    let g = rm::growth_from_fee(p.liquidity, rest).must("fee growth overflow")?;
    if !rest.is_zero() && g == 0 {
        seen("fee too small for any growth");
    }
    let old = if in_x { p.fee_growth_global_x } else { p.fee_growth_global_y };
    if old.checked_add(g).is_none() {
        seen("global fee growth wraps around");
    }
    if in_x {
        p.fee_growth_global_x = p.fee_growth_global_x.wrapping_add(g);
        p.fee_protocol_token_x = p.fee_protocol_token_x.checked_add(proto).must("proto overflow")?;
    } else {
        p.fee_growth_global_y = p.fee_growth_global_y.wrapping_add(g);
        p.fee_protocol_token_y = p.fee_protocol_token_y.checked_add(proto).must("proto overflow")?;
    }
    Ok(())
}

pub fn calc_swap(
    w: &World,
    key: &PoolKey,
    x_to_y: bool,
    amount: U256,
    by_in: bool,
    limit: u128,
    now: u64,
) -> Res<Calc> {
    if amount.is_zero() {
        return Err("amount is zero");
    }
    let ps = w.pools.get(key).must("no such pool")?;
    let mut pool = ps.pool.clone();
    let ok_limit = if x_to_y {
        limit < pool.sqrt_price && limit <= rm::MAX_SQRT_PRICE
    } else {
        limit > pool.sqrt_price && limit >= rm::MIN_SQRT_PRICE
    };
    if !ok_limit {
        return Err("wrong limit");
    }
    let sp = key.fee_tier.tick_spacing;
    let s = sp as i32;
    let fee = key.fee_tier.fee;
    let edge = rm::max_tick(sp) * if x_to_y { -1 } else { 1 };
    let mut left = amount;
    let (mut tin, mut tout, mut tfee) = (U256::zero(), U256::zero(), U256::zero());
    let start = pool.sqrt_price;
    let mut crossed: Vec<Tick> = vec![];
    let mut ticks = ps.ticks.clone();
    let mut steps = 0;
    let mut zl = 0;
    while !left.is_zero() {
        steps += 1;
        if steps > 4000 {
            return Err("too many steps");
        }
        if pool.liquidity.is_zero() {
            zl += 1;
        }
        // Next initialised tick within 256 spacings, or the end of that window.
        let cur = pool.current_tick_index;
        let lim_index = if x_to_y {
            (cur / s - rm::SEARCH).max(-(rm::MAX_TICK / s)) * s
        } else {
            (cur / s + rm::SEARCH).min(rm::MAX_TICK / s) * s
        };
        let found = if x_to_y {
            ps.tickmap.range(lim_index..=cur.max(lim_index)).next_back().copied()
        } else if cur + s > lim_index {
            None
        } else {
            ps.tickmap.range(cur + s..=lim_index).next().copied()
        };
        let index = match found {
            Some(i) => i,
            None => {
                if cur == lim_index {
                    return Err("tick limit reached");
                }
                lim_index
            }
        };
        let tp = rm::price_of_tick(index).must("tick price")?;
        let nearer = if x_to_y { tp > limit } else { tp < limit || tp == limit && found.is_some() };
        if found.is_some() && index == lim_index {
            seen("tick found at the very end of the search range");
        }
        if tp == limit {
            seen(if found.is_some() { "limit exactly on an initialised tick" } else { "limit exactly on the end of the search range" });
        }
        let (target, tick) = if nearer { (tp, Some((index, found.is_some()))) } else { (limit, None) };

        let st = rm::swap_step(pool.sqrt_price, target, pool.liquidity, left, by_in, fee)
            .must("swap step overflow")?;
        if st.next == target && left == if by_in { st.amount_in.saturating_add(st.fee) } else { st.amount_out } && !pool.liquidity.is_zero() {
            seen("amount ends exactly where the step ends");
        }
        let gross_in = st.amount_in.checked_add(st.fee).must("overflow")?;
        left = if by_in {
            left.checked_sub(gross_in).must("step takes more than is left")?
        } else {
            left.checked_sub(st.amount_out).must("step gives more than is left")?
        };
        add_fee(&mut pool, st.fee, x_to_y, w.protocol_fee)?;
        tfee = tfee.checked_add(st.fee).must("overflow")?;
        pool.sqrt_price = st.next;
        tin = tin.checked_add(gross_in).must("overflow")?;
        tout = tout.checked_add(st.amount_out).must("overflow")?;
        if pool.sqrt_price == limit && !left.is_zero() {
            return Err("price limit reached");
        }
        match tick {
            Some((index, init)) if target == st.next => {
                // None: the price would leave what can be represented
                let enough = rm::enough_to_move(left, st.next, pool.liquidity, fee, by_in, x_to_y).unwrap_or(true);
                seen(match (init, enough, left.is_zero()) {
                    (true, true, _) => "tick reached, enough left to go on",
                    (true, false, true) => "tick reached with nothing left",
                    (true, false, false) => "tick reached with dust left",
                    (false, true, _) => "search range end reached, enough left to go on",
                    (false, false, _) => "search range end reached, not enough left",
                });
                if init {
                    if !x_to_y || enough {
                        let t = ticks.get_mut(&index).must("tick in the map but not stored")?;
                        cross(t, &mut pool, now)?;
                        crossed.push(t.clone());
                    } else if !left.is_zero() {
                        if by_in {
                            add_fee(&mut pool, left, x_to_y, w.protocol_fee)?;
                            tin = tin.checked_add(left).must("overflow")?;
                        }
                        left = U256::zero();
                    }
                }
                pool.current_tick_index = if x_to_y && enough { index - s } else { index };
            }
            _ => {
                if rm::tick_of_price(st.next, sp).map_or(false, |t| x_to_y && t > pool.current_tick_index) {
                    seen("price stays on the tick just crossed downwards");
                }
                let t = rm::tick_of_price(st.next, sp).must("price out of range")?;
                // on the way down the current tick never rises
                pool.current_tick_index = if x_to_y { t.min(pool.current_tick_index) } else { t };
            }
        }
        let at_edge = if x_to_y { pool.current_tick_index <= edge } else { pool.current_tick_index >= edge };
        if at_edge {
            return Err("tick limit reached");
        }
    }
    if tout.is_zero() {
        return Err("no gain");
    }
    if crossed.len() > 4 {
        seen("swap over five or more ticks");
    }
    if zl > 0 {
        seen("swap through a stretch without liquidity");
    }
    if pool.liquidity.is_zero() {
        seen("swap ends without liquidity");
    }
    if pool.sqrt_price == limit {
        seen("swap ends exactly at its limit");
    }
    if pool.sqrt_price == start {
        seen("swap that does not move the price");
    }
    Ok(Calc {
        r: SwapResult {
            amount_in: tin,
            amount_out: tout,
            start_sqrt_price: start,
            target_sqrt_price: pool.sqrt_price,
            fee: tfee,
            pool,
            ticks: crossed,
        },
        steps,
        liq_zero_steps: zl,
    })
}
fn cross(t: &mut Tick, p: &mut Pool, now: u64) -> Res<()> {
    t.fee_growth_outside_x = p.fee_growth_global_x.wrapping_sub(t.fee_growth_outside_x);
    t.fee_growth_outside_y = p.fee_growth_global_y.wrapping_sub(t.fee_growth_outside_y);
    t.seconds_outside = now
        .checked_sub(p.start_timestamp)
        .must("clock before pool start")?
        .wrapping_sub(t.seconds_outside);
    p.last_timestamp = now;
    p.liquidity = if (p.current_tick_index >= t.index) ^ t.sign {
        p.liquidity.checked_add(t.liquidity_change)
    } else {
        p.liquidity.checked_sub(t.liquidity_change)
    }
    .must("liquidity over/underflow on crossing")?;
    Ok(())
}
fn check_tick(i: i32, sp: u16) -> Res<()> {
    if i % sp as i32 != 0 || i.abs() > rm::max_tick(sp) {
        return Err("invalid tick");
    }
    Ok(())
}
pub fn growth_inside(p: &Pool, lo: &Tick, hi: &Tick) -> (u128, u128) {
    let f = |g: u128, l: u128, h: u128| {
        let below = if p.current_tick_index >= lo.index { l } else { g.wrapping_sub(l) };
        let above = if p.current_tick_index < hi.index { h } else { g.wrapping_sub(h) };
        g.wrapping_sub(below).wrapping_sub(above)
    };
    (
        f(p.fee_growth_global_x, lo.fee_growth_outside_x, hi.fee_growth_outside_x),
        f(p.fee_growth_global_y, lo.fee_growth_outside_y, hi.fee_growth_outside_y),
    )
}
fn tick_update(t: &mut Tick, d: U256, max: U256, upper: bool, add: bool) -> Res<()> {
    if add {
        t.liquidity_gross = t.liquidity_gross.checked_add(d).must("gross overflow")?;
        if t.liquidity_gross >= max {
            return Err("liquidity per tick limit");
        }
    } else {
        t.liquidity_gross = t.liquidity_gross.checked_sub(d).must("gross underflow")?;
    }
    if t.liquidity_gross > max - max / 1000 {
        seen("tick nearly full");
    }
    let plus = add ^ upper;
    if t.sign != plus && t.liquidity_change == d && !t.liquidity_gross.is_zero() {
        seen("tick used, but its net liquidity is zero");
    }
    if t.sign == plus {
        t.liquidity_change = t.liquidity_change.checked_add(d).must("net overflow")?;
    } else if t.liquidity_change > d {
        t.liquidity_change -= d;
    } else {
        t.liquidity_change = d - t.liquidity_change;
        t.sign = !t.sign;
    }
    Ok(())
}
/// Shared by create / remove / claim. Returns token amounts for the liquidity moved.
fn modify(
    pos: &mut Position,
    pool: &mut Pool,
    lo: &mut Tick,
    hi: &mut Tick,
    d: U256,
    add: bool,
    now: u64,
) -> Res<(U256, U256)> {
    pool.last_timestamp = now;
    let max = rm::max_liquidity_per_tick(pos.pool_key.fee_tier.tick_spacing);
    tick_update(lo, d, max, false, add)?;
    tick_update(hi, d, max, true, add)?;
    let (gx, gy) = growth_inside(pool, lo, hi);
    let ox = rm::growth_to_fee(gx.wrapping_sub(pos.fee_growth_inside_x), pos.liquidity).must("fee overflow")?;
    let oy = rm::growth_to_fee(gy.wrapping_sub(pos.fee_growth_inside_y), pos.liquidity).must("fee overflow")?;
    pos.liquidity = if add { pos.liquidity.checked_add(d) } else { pos.liquidity.checked_sub(d) }
        .must("position liquidity")?;
    pos.fee_growth_inside_x = gx;
    pos.fee_growth_inside_y = gy;
    pos.tokens_owed_x = pos.tokens_owed_x.checked_add(ox).must("owed")?;
    pos.tokens_owed_y = pos.tokens_owed_y.checked_add(oy).must("owed")?;
    let (x, y, inside) = rm::amounts(pool.current_tick_index, pool.sqrt_price, d, add, lo.index, hi.index)
        .must("amounts")?;
    if inside {
        pool.liquidity = if add { pool.liquidity.checked_add(d) } else { pool.liquidity.checked_sub(d) }
            .must("pool liquidity")?;
    }
    Ok((x, y))
}
fn new_tick(i: i32, p: &Pool, now: u64) -> Res<Tick> {
    let below = i <= p.current_tick_index;
    Ok(Tick {
        index: i,
        sign: true,
        liquidity_change: U256::zero(),
        liquidity_gross: U256::zero(),
        sqrt_price: rm::price_of_tick(i).must("tick price")?,
        fee_growth_outside_x: if below { p.fee_growth_global_x } else { 0 },
        fee_growth_outside_y: if below { p.fee_growth_global_y } else { 0 },
        seconds_outside: if below { now.checked_sub(p.start_timestamp).must("clock")? } else { 0 },
    })
}
fn recount(ps: &mut PoolState) {
    ps.tickmap = ps.ticks.keys().copied().collect();
    ps.count = ps.tickmap.len() as u32;
}

fn swap(w: &mut World, env: &Env, key: &PoolKey, x_to_y: bool, amount: U256, by_in: bool, limit: u128, fx: &mut Effect) -> Res<SwapResult> {
    let c = calc_swap(w, key, x_to_y, amount, by_in, limit, env.now)?;
    fx.steps += c.steps;
    let r = c.r;
    let ps = w.pools.get_mut(key).unwrap();
    for t in &r.ticks {
        ps.ticks.insert(t.index, t.clone());
    }
    ps.pool = r.pool.clone();
    let (tin, tout) = if x_to_y { (key.token_x, key.token_y) } else { (key.token_y, key.token_x) };
    w.sub_bal(&env.caller, &tin, r.amount_in).must("not enough balance to swap")?;
    w.add_bal(&env.caller, &tout, r.amount_out).must("balance overflow")?;
    if !r.ticks.is_empty() {
        fx.events.push(Event::CrossTick {
            timestamp: env.now,
            address: env.caller,
            key: *key,
            indexes: r.ticks.iter().map(|t| t.index).collect(),
        });
    }
    fx.crossed += r.ticks.len() as u32;
    fx.events.push(Event::Swap {
        timestamp: env.now,
        address: env.caller,
        key: *key,
        amount_in: r.amount_in,
        amount_out: r.amount_out,
        fee: r.fee,
        start: r.start_sqrt_price,
        target: r.target_sqrt_price,
        x_to_y,
    });
    fx.swaps.push(r.clone());
    Ok(r)
}

pub fn enc_swap(r: &SwapResult) -> Vec<u8> {
    r.encode()
}

/// Apply a call that is answered at once, or the first half of one that talks to tokens.
/// On `Err` the world must be taken as unchanged.
pub fn apply(w: &mut World, env: &Env, call: &Call) -> Res<Effect> {
    let mut fx = Effect::default();
    let me = env.caller;
    let admin = ADMIN.raw();
    let need_admin = || if me == admin { Ok(()) } else { Err("not admin") };
    match call {
        Call::ChangeProtocolFee(p) => {
            need_admin()?;
            w.protocol_fee = p.0;
            fx.reply = Some(p.0.encode());
        }
        Call::AddFeeTier(t) => {
            need_admin()?;
            if t.tick_spacing == 0 || t.tick_spacing > 100 || t.fee >= rm::PCT {
                return Err("invalid fee tier");
            }
            if w.fee_tiers.contains(t) {
                return Err("fee tier exists");
            }
            w.fee_tiers.push(*t);
            fx.reply = Some(t.encode());
        }
        Call::RemoveFeeTier(t) => {
            need_admin()?;
            let i = w.fee_tiers.iter().position(|x| x == t).must("no such fee tier")?;
            w.fee_tiers.remove(i);
            fx.reply = Some(t.encode());
        }
        Call::CreatePool { a, b, tier, price, tick } => {
            if !w.fee_tiers.contains(tier) {
                return Err("no such fee tier");
            }
            check_tick(*tick, tier.tick_spacing)?;
            let k = sorted_key(a.raw(), b.raw(), *tier).must("tokens are the same")?;
            if w.pools.contains_key(&k) {
                return Err("pool exists");
            }
            let lo = rm::price_of_tick(*tick).must("tick")?;
            let nx = tick + tier.tick_spacing as i32;
            let good = if nx > rm::MAX_TICK {
                price.0 == lo
            } else {
                price.0 >= lo && price.0 < rm::price_of_tick(nx).must("tick")?
            };
            if !good {
                return Err("price does not belong to the tick");
            }
            w.pool_keys.push(k);
            w.pools.insert(
                k,
                PoolState {
                    pool: Pool {
                        liquidity: U256::zero(),
                        sqrt_price: lo,
                        current_tick_index: *tick,
                        fee_growth_global_x: 0,
                        fee_growth_global_y: 0,
                        fee_protocol_token_x: U256::zero(),
                        fee_protocol_token_y: U256::zero(),
                        start_timestamp: env.now,
                        last_timestamp: env.now,
                        fee_receiver: admin,
                    },
                    ticks: Default::default(),
                    tickmap: Default::default(),
                    count: 0,
                },
            );
            fx.reply = Some(vec![]);
        }
        Call::ChangeFeeReceiver { key, to } => {
            need_admin()?;
            w.pools.get_mut(&key.raw()).must("no such pool")?.pool.fee_receiver = to.raw();
            fx.reply = Some(vec![]);
        }
        Call::CreatePosition { key, lower, upper, liquidity, lo, hi } => {
            let k = key.raw();
            let d = liquidity.0;
            if d.is_zero() {
                return Err("zero liquidity");
            }
            if lower >= upper {
                return Err("empty tick range");
            }
            let sp = k.fee_tier.tick_spacing;
            let mut ps = w.pools.get(&k).must("no such pool")?.clone();
            check_tick(*lower, sp)?;
            check_tick(*upper, sp)?;
            if ps.pool.sqrt_price < lo.0 || ps.pool.sqrt_price > hi.0 {
                return Err("slippage limit");
            }
            let mut get = |i: i32| match ps.ticks.get(&i) {
                Some(t) => Ok(t.clone()),
                None => new_tick(i, &ps.pool, env.now),
            };
            let (mut tl, mut tu) = (get(*lower)?, get(*upper)?);
            let mut pos = Position {
                pool_key: k,
                liquidity: U256::zero(),
                lower_tick_index: *lower,
                upper_tick_index: *upper,
                fee_growth_inside_x: 0,
                fee_growth_inside_y: 0,
                last_block_number: env.height as u64,
                tokens_owed_x: U256::zero(),
                tokens_owed_y: U256::zero(),
            };
            let (x, y) = modify(&mut pos, &mut ps.pool, &mut tl, &mut tu, d, true, env.now)?;
            w.sub_bal(&me, &k.token_x, x).must("not enough x")?;
            w.sub_bal(&me, &k.token_y, y).must("not enough y")?;
            ps.ticks.insert(*lower, tl);
            ps.ticks.insert(*upper, tu);
            recount(&mut ps);
            fx.events.push(Event::PositionCreated {
                timestamp: env.now,
                address: me,
                key: k,
                liquidity: d,
                lower: *lower,
                upper: *upper,
                sqrt_price: ps.pool.sqrt_price,
            });
            w.pools.insert(k, ps);
            fx.reply = Some(pos.encode());
            w.positions.entry(me).or_default().push(pos);
        }
        Call::RemovePosition { index } => {
            let (mut pos, mut ps, mut tl, mut tu) = open(w, &me, *index)?;
            let k = pos.pool_key;
            let d = pos.liquidity;
            let (x, y) = modify(&mut pos, &mut ps.pool, &mut tl, &mut tu, d, false, env.now)?;
            let x = x.checked_add(pos.tokens_owed_x).must("overflow")?;
            let y = y.checked_add(pos.tokens_owed_y).must("overflow")?;
            for t in [tl, tu] {
                if t.liquidity_gross.is_zero() {
                    ps.ticks.remove(&t.index);
                } else {
                    ps.ticks.insert(t.index, t);
                }
            }
            recount(&mut ps);
            fx.events.push(Event::PositionRemoved {
                timestamp: env.now,
                address: me,
                key: k,
                liquidity: d,
                lower: pos.lower_tick_index,
                upper: pos.upper_tick_index,
                sqrt_price: ps.pool.sqrt_price,
            });
            w.pools.insert(k, ps);
            take(w, &me, *index)?;
            w.add_bal(&me, &k.token_x, x).must("overflow")?;
            w.add_bal(&me, &k.token_y, y).must("overflow")?;
            fx.reply = Some((x, y).encode());
        }
        Call::TransferPosition { index, to } => {
            let p = take(w, &me, *index)?;
            w.positions.entry(to.raw()).or_default().push(p);
            fx.reply = Some(vec![]);
        }
        Call::ClaimFee { index } => {
            let (mut pos, mut ps, mut tl, mut tu) = open(w, &me, *index)?;
            let k = pos.pool_key;
            modify(&mut pos, &mut ps.pool, &mut tl, &mut tu, U256::zero(), true, env.now)?;
            let (x, y) = (pos.tokens_owed_x, pos.tokens_owed_y);
            pos.tokens_owed_x = U256::zero();
            pos.tokens_owed_y = U256::zero();
            ps.ticks.insert(tl.index, tl);
            ps.ticks.insert(tu.index, tu);
            w.pools.insert(k, ps);
            w.positions.get_mut(&me).unwrap()[*index as usize] = pos;
            w.add_bal(&me, &k.token_x, x).must("overflow")?;
            w.add_bal(&me, &k.token_y, y).must("overflow")?;
            fx.reply = Some((x, y).encode());
        }
        Call::Swap { key, x_to_y, amount, by_in, limit } => {
            let r = swap(w, env, &key.raw(), *x_to_y, amount.0, *by_in, limit.0, &mut fx)?;
            fx.reply = Some(enc_swap(&r));
        }
        Call::SwapRoute { amount, expected, slippage, hops } => {
            let mut a = amount.0;
            for h in hops {
                let lim = if h.x_to_y { rm::MIN_SQRT_PRICE } else { rm::MAX_SQRT_PRICE };
                a = swap(w, env, &h.key.raw(), h.x_to_y, a, true, lim, &mut fx)?.amount_out;
            }
            let keep = rm::PCT.checked_sub(slippage.0).must("slippage above 100%")?;
            if a < rm::mul_pct_up(expected.0, keep).must("overflow")? {
                return Err("below the minimum amount out");
            }
            fx.reply = Some(a.encode());
        }
        Call::WithdrawProtocolFee { key } => {
            let k = key.raw();
            let p = &mut w.pools.get_mut(&k).must("no such pool")?.pool;
            if p.fee_receiver != me {
                return Err("not the fee receiver");
            }
            let (x, y) = (p.fee_protocol_token_x, p.fee_protocol_token_y);
            p.fee_protocol_token_x = U256::zero();
            p.fee_protocol_token_y = U256::zero();
            w.add_bal(&me, &k.token_x, x).must("overflow")?;
            w.add_bal(&me, &k.token_y, y).must("overflow")?;
            fx.reply = Some(vec![]);
        }
        Call::DepositVara => {
            let v = U256::from(env.value);
            w.add_bal(&me, &ZERO.raw(), v).must("overflow")?;
            fx.reply = Some(v.encode());
        }
        Call::WithdrawVara(a) => {
            let v = match a {
                Some(a) if a.0.is_zero() => return Err("amount is zero"),
                Some(a) => a.0,
                None => w.bal(&me, &ZERO.raw()),
            };
            w.sub_bal(&me, &ZERO.raw(), v).must("not enough VARA")?;
            if v > U256::from(u128::MAX) {
                return Err("more VARA than exists");
            }
            fx.reply = Some(v.encode());
            fx.reply_value = v.as_u128();
        }
        Call::Deposit { token, amount } => {
            w.bal(&me, &token.raw()).checked_add(amount.0).must("overflow")?;
            if *token == ZERO {
                return Err("VARA is not a token program");
            }
            if amount.0.is_zero() {
                return Err("amount is zero");
            }
            fx.requests.push((token.raw(), me, INV.raw(), amount.0));
        }
        Call::Withdraw { token, amount } => {
            let t = token.raw();
            fx.withdrawal = true;
            let v = match amount {
                Some(a) if a.0.is_zero() => return Err("amount is zero"),
                Some(a) => a.0,
                None => w.bal(&me, &t),
            };
            w.sub_bal(&me, &t, v).must("not enough balance")?;
            if v.is_zero() {
                fx.reply = Some(v.encode());
            } else {
                if *token == ZERO {
                    return Err("VARA is not a token program");
                }
                fx.requests.push((t, INV.raw(), me, v));
            }
        }
        Call::DepositPair { x, y } => {
            if x.0 == y.0 {
                return Err("tokens are the same");
            }
            for (t, a) in [x, y] {
                w.bal(&me, &t.raw()).checked_add(a.0).must("overflow")?;
            }
            for (t, a) in [x, y] {
                if !a.0.is_zero() {
                    fx.requests.push((t.raw(), me, INV.raw(), a.0));
                }
            }
            if fx.requests.iter().any(|r| r.0 == ZERO.raw()) {
                return Err("VARA is not a token program");
            }
            if fx.requests.is_empty() {
                fx.reply = Some((x.1 .0, y.1 .0).encode());
            }
        }
        Call::WithdrawPair { x, y } => {
            if x.0 == y.0 {
                return Err("tokens are the same");
            }
            fx.withdrawal = true;
            let mut got = vec![];
            for (t, a) in [x, y] {
                let v = a.map(|a| a.0).unwrap_or_else(|| w.bal(&me, &t.raw()));
                w.sub_bal(&me, &t.raw(), v).must("not enough balance")?;
                got.push(v);
                if !v.is_zero() {
                    fx.requests.push((t.raw(), INV.raw(), me, v));
                }
            }
            if fx.requests.iter().any(|r| r.0 == ZERO.raw()) {
                return Err("VARA is not a token program");
            }
            if fx.requests.is_empty() {
                fx.reply = Some((got[0], got[1]).encode());
            }
        }
        Call::Query(_) => {}
        Call::Raw(_) => return Err("not a call of the service"),
    }
    Ok(fx)
}

/// Body of the routed reply once every leg of a token call succeeded.
pub fn async_reply(call: &Call, legs: &[(Actor, U256)]) -> Vec<u8> {
    let amt = |t: &Id| legs.iter().find(|l| l.0 == t.raw()).map(|l| l.1).unwrap_or_default();
    match call {
        Call::Deposit { token, .. } | Call::Withdraw { token, .. } => amt(token).encode(),
        Call::DepositPair { x, y } => (amt(&x.0), amt(&y.0)).encode(),
        Call::WithdrawPair { x, y } => (amt(&x.0), amt(&y.0)).encode(),
        _ => vec![],
    }
}
fn open(w: &World, me: &Actor, index: u32) -> Res<(Position, PoolState, Tick, Tick)> {
    let pos = w.pos(me).get(index as usize).must("no such position")?.clone();
    let ps = w.pools.get(&pos.pool_key).must("no such pool")?.clone();
    let tl = ps.ticks.get(&pos.lower_tick_index).must("lower tick missing")?.clone();
    let tu = ps.ticks.get(&pos.upper_tick_index).must("upper tick missing")?.clone();
    Ok((pos, ps, tl, tu))
}
fn take(w: &mut World, me: &Actor, index: u32) -> Res<Position> {
    let v = w.positions.get_mut(me).must("no such position")?;
    if index as usize >= v.len() {
        return Err("no such position");
    }
    let p = v.swap_remove(index as usize);
    if v.is_empty() {
        w.positions.remove(me);
    }
    Ok(p)
}
