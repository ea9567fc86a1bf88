//! The client SDK's own arithmetic, compared with what the contract does (P18). The SDK is linked in by
//! a second binary (/verif/simsdk); this one only knows its shape.
use crate::chain::*;
use crate::oracle::Runner;
use crate::refmath as rm;
use crate::types::*;
use parity_scale_codec::Decode;
use primitive_types::{U256, U512};
use std::sync::OnceLock;

pub struct SdkPool {
    pub pool: Pool,
    pub tier: FeeTier,
    pub chunks: Vec<(u16, u64)>,
    pub ticks: Vec<LiquidityTick>,
}
#[derive(Clone, Debug, PartialEq)]
pub struct SdkSwap {
    pub amount_in: U256,
    pub amount_out: U256,
    pub fee: U256,
    pub start: u128,
    pub target: u128,
    pub crossed: Vec<(i64, U256, bool)>,
    pub insufficient: bool,
    pub max_steps: bool,
    pub outdated: bool,
}
/// `Err` = the SDK refused or trapped.
pub trait Sdk: Sync {
    fn position_to_tick(&self, chunk: u16, bit: u8, spacing: u16) -> Result<i32, String>;
    fn swap(&self, p: &SdkPool, x_to_y: bool, amount: U256, by_in: bool, limit: u128) -> Result<SdkSwap, String>;
    fn fee(&self, pool: &Pool, pos: &Position, lower: &Tick, upper: &Tick) -> Result<(U256, U256), String>;
    fn delta(&self, pool: &Pool, liquidity: U256, up: bool, upper: i32, lower: i32) -> Result<(U256, U256), String>;
    fn min_out(&self, expected: U256, slippage: u128) -> Result<U256, String>;
    fn max_liquidity(&self, spacing: u16) -> Result<U256, String>;
    fn tick_of(&self, price: u128, spacing: u16) -> Result<i32, String>;
    fn price_of(&self, tick: i32) -> Result<u128, String>;
    fn valid_start(&self, tick: i32, spacing: u16, price: u128) -> Result<bool, String>;
    fn max_chunk(&self, spacing: u16) -> Result<u16, String>;
    fn bounds(&self, spacing: u16) -> Result<(i32, i32, u128, u128), String>;
    fn is_x(&self, a: &Actor, b: &Actor) -> Result<bool, String>;
    fn tier_ok(&self, fee: u128, spacing: u16) -> bool;
    /// x and y of the key of two tokens
    fn pool_key(&self, a: &Actor, b: &Actor, tier: &FeeTier) -> Result<(Actor, Actor), String>;
    fn tick_to_position(&self, tick: i32, spacing: u16) -> Result<(u16, u8), String>;
    fn check_tick(&self, tick: i32, spacing: u16) -> Result<(), String>;
    fn check_ticks(&self, lower: i32, upper: i32, spacing: u16) -> Result<(), String>;
    /// most ticks in one request, ticks in one answer about positions, ticks in a chunk, ticks searched at once
    fn limits(&self) -> (usize, usize, i32, i32);
    fn global_prices(&self) -> (u128, u128);
    /// liquidity for an amount of x (or y) and the amount of the other token
    fn sizing(&self, by_x: bool, amount: U256, lower: i32, upper: i32, price: u128, up: bool) -> Result<(U256, U256), String>;
}
pub static SDK: OnceLock<Box<dyn Sdk + Send>> = OnceLock::new();

/// What the SDK says before a call is made.
#[derive(Default)]
pub struct Forecast {
    swap: Option<Result<SdkSwap, String>>,
    /// the same with the first tick to be crossed withheld
    blind: Option<Result<SdkSwap, String>>,
    /// tokens taken from (true) or given to the caller
    flow: Option<(bool, PoolKey, Result<(U256, U256), String>)>,
    min_out: Option<Result<U256, String>>,
    valid: Option<(Result<bool, String>, Result<i32, String>)>,
}

impl<'a> Runner<'a> {
    fn sdk_pool(&mut self, k: &PoolKey) -> Option<SdkPool> {
        let sdk = SDK.get()?;
        self.w.pools.get(k)?;
        let key = Pk::of(k);
        let pool = self.s.ask_result::<Pool>(&Query::Pool { a: key.x, b: key.y, tier: key.tier }).ok()?.ok()?;
        let chunks: Vec<(u16, u64)> = self.s.ask(&Query::Tickmap { key }).ok()?;
        let mut at = vec![];
        for (c, v) in &chunks {
            for b in 0..64 {
                if v >> b & 1 == 1 {
                    at.push(sdk.position_to_tick(*c, b, k.fee_tier.tick_spacing).unwrap_or(i32::MAX));
                }
            }
        }
        if let Ok(m) = sdk.max_chunk(k.fee_tier.tick_spacing) {
            if let Some((c, _)) = chunks.iter().find(|c| c.0 > m) {
                self.bad("P18", "sdk/max chunk", format!("{k:?}: the contract uses chunk {c}, the SDK knows {m} at most"));
            }
        }
        match self.s.ask_result::<Vec<LiquidityTick>>(&Query::LiquidityTicks { key, ticks: at.clone() }) {
            Ok(Ok(ticks)) => Some(SdkPool { pool, tier: k.fee_tier, chunks, ticks }),
            e => {
                self.bad("P18", "sdk/ticks", format!("{k:?}: the ticks {at:?} read from the tickmap cannot be fetched: {e:?}"));
                None
            }
        }
    }

    pub fn forecast(&mut self, user: Id, call: &Call, quote: Option<&Result<Result<QuoteResult, u8>, String>>) -> Forecast {
        let mut f = Forecast::default();
        let Some(sdk) = SDK.get() else { return f };
        match call {
            Call::Swap { key, x_to_y, amount, by_in, limit } => {
                if let Some(mut p) = self.sdk_pool(&key.raw()) {
                    f.swap = Some(sdk.swap(&p, *x_to_y, amount.0, *by_in, limit.0));
                    if let Some(Ok(Ok(q))) = quote {
                        if let Some(t) = q.ticks.first() {
                            p.ticks.retain(|l| l.index != t.index);
                            f.blind = Some(sdk.swap(&p, *x_to_y, amount.0, *by_in, limit.0));
                        }
                    }
                    f.tick_parity(self, sdk.as_ref(), &p);
                }
            }
            Call::CreatePosition { key, lower, upper, liquidity, .. } => {
                let k = key.raw();
                self.sdk_rules(sdk.as_ref(), key.tier.tick_spacing, *lower, *upper);
                if let Some(p) = self.w.pools.get(&k) {
                    f.flow = Some((true, k, sdk.delta(&p.pool, liquidity.0, true, *upper, *lower)));
                }
            }
            Call::ClaimFee { index } | Call::RemovePosition { index } => {
                let q = Query::PositionWithAssociates { owner: user, index: *index };
                if let Ok(Ok((pos, pool, lo, up))) = self.s.ask_result::<(Position, Pool, Tick, Tick)>(&q) {
                    let mut r = sdk.fee(&pool, &pos, &lo, &up);
                    if matches!(call, Call::RemovePosition { .. }) {
                        r = r.and_then(|fee| {
                            let d = sdk.delta(&pool, pos.liquidity, false, pos.upper_tick_index, pos.lower_tick_index)?;
                            let add = |a: U256, b: U256| a.checked_add(b).ok_or("overflow".to_string());
                            Ok((add(fee.0, d.0)?, add(fee.1, d.1)?))
                        });
                    }
                    f.flow = Some((false, pos.pool_key, r));
                }
            }
            Call::SwapRoute { expected, slippage, .. } => {
                let m = sdk.min_out(expected.0, slippage.0);
                let right = rm::PCT.checked_sub(slippage.0).and_then(|k| rm::mul_pct_up(expected.0, k));
                if m.clone().ok() != right {
                    self.bad("P18", "sdk/minimum out", format!("of {expected} with slippage {slippage:?}: the SDK says {m:?}, expected {right:?}"));
                }
                f.min_out = Some(m);
            }
            Call::AddFeeTier(t) => {
                let ok = (1..=100).contains(&t.tick_spacing) && t.fee < rm::PCT;
                if sdk.tier_ok(t.fee, t.tick_spacing) != ok {
                    self.bad("P18", "sdk/fee tier", format!("{t:?}: for the SDK it is {}valid", if ok { "not " } else { "" }));
                }
            }
            Call::CreatePool { a, b, tier, price, tick } => {
                let k = sorted_key(a.raw(), b.raw(), *tier);
                let m = sdk.pool_key(&a.raw(), &b.raw(), tier);
                if m.clone().ok() != k.map(|k| (k.token_x, k.token_y)) {
                    self.bad("P18", "sdk/pool key", format!("of {a:?} and {b:?}: the SDK says {m:?}, expected {k:?}"));
                }
                f.valid = Some((sdk.valid_start(*tick, tier.tick_spacing, price.0), sdk.tick_of(price.0, tier.tick_spacing)))
            }
            _ => {}
        }
        f
    }

    /// `why`: the reason for which the reference model expects a refusal
    pub fn judge_sdk(
        &mut self,
        f: Forecast,
        user: Id,
        call: &Call,
        quote: Option<&Result<Result<QuoteResult, u8>, String>>,
        failed: bool,
        low_gas: bool,
        reply: Option<&ClientReply>,
    ) {
        let Some(sdk) = SDK.get() else { return };
        let said = |r: &Option<&ClientReply>, m: &str| r.and_then(|r| unroute(m, &r.payload).map(|b| b.to_vec()));
        if let (Some(s), Some(q)) = (f.swap, quote) {
            *self.stats.probes.entry("SDK simulations of a swap".into()).or_default() += 1;
            self.judge_sdk_swap(call, &s, q);
            if let Some(b) = f.blind {
                *self.stats.probes.entry("SDK simulations with a missing tick".into()).or_default() += 1;
                if !matches!(&b, Ok(b) if b.outdated) && !matches!(&s, Ok(s) if s.max_steps) {
                    self.bad("P18", "sdk/missing tick", format!("{call:?}: a tick to be crossed was not given, but the simulation answers {b:?}"));
                }
            }
            if let (Ok(s), false) = (&s, failed) {
                let done = said(&reply, "Swap").and_then(|b| SwapResult::decode(&mut &b[..]).ok());
                if let Some(d) = done.filter(|_| !s.max_steps) {
                    if (d.fee, d.start_sqrt_price) != (s.fee, s.start) {
                        self.bad("P18", "sdk/fee", format!("{call:?}: the swap took fee {} starting at {}, the SDK says {} and {}", d.fee, d.start_sqrt_price, s.fee, s.start));
                    }
                }
            }
        }
        if let (Some((taken, k, r)), false) = (f.flow, failed) {
            *self.stats.probes.entry("SDK token amounts of positions".into()).or_default() += 1;
            let bals: Option<Vec<(Actor, U256)>> = self.s.ask(&Query::Balances { user }).ok();
            if let Some(b) = bals {
                let now = |t: &Actor| b.iter().find(|x| &x.0 == t).map(|x| x.1).unwrap_or_default();
                let me = user.raw();
                let d = |t: &Actor| {
                    let (a, b) = (self.w.bal(&me, t), now(t));
                    if taken { a.checked_sub(b) } else { b.checked_sub(a) }
                };
                let (x, y) = (d(&k.token_x), d(&k.token_y));
                if !matches!(&r, Ok((a, b)) if Some(*a) == x && Some(*b) == y) {
                    let v = if taken { "took" } else { "gave" };
                    self.bad("P18", "sdk/amounts", format!("{call:?} {v} {x:?} and {y:?}, the SDK says {r:?}"));
                }
            }
            if let Call::CreatePosition { key, lower, upper, .. } = call {
                let max = sdk.max_liquidity(key.tier.tick_spacing);
                for i in [lower, upper] {
                    if let Ok(Ok(t)) = self.s.ask_result::<Tick>(&Query::Tick { key: *key, index: *i }) {
                        if !matches!(&max, Ok(m) if t.liquidity_gross <= *m) {
                            self.bad("P18", "sdk/max liquidity", format!("tick {i} holds {}, the SDK's limit is {max:?}", t.liquidity_gross));
                        }
                        let p = sdk.price_of(*i);
                        if p != Ok(t.sqrt_price) {
                            self.bad("P18", "sdk/tick price", format!("tick {i} has price {}, the SDK says {p:?}", t.sqrt_price));
                        }
                    }
                }
                match sdk.bounds(key.tier.tick_spacing) {
                    Ok((lo, hi, ..)) if *lower >= lo && *upper <= hi => {}
                    b => self.bad("P18", "sdk/bounds", format!("a position {lower}..{upper} exists, the SDK's bounds are {b:?}")),
                }
            }
        }
        if let (Some(m), Call::SwapRoute { .. }, false) = (f.min_out, call, failed) {
            let got = said(&reply, "SwapRoute").and_then(|b| U256::decode(&mut &b[..]).ok());
            if let Some(got) = got {
                if !matches!(&m, Ok(m) if got >= *m) {
                    self.bad("P18", "sdk/minimum out", format!("{call:?} paid {got}, the SDK's minimum is {m:?}"));
                }
            }
        }
        if let (Some((v, t)), Call::CreatePool { a, b, tier, price, tick }) = (f.valid, call) {
            if !failed {
                *self.stats.probes.entry("SDK checks of a new pool".into()).or_default() += 1;
                if v != Ok(true) || t != Ok(*tick) {
                    self.bad("P18", "sdk/new pool", format!("a pool at tick {tick}, price {price:?} was created; the SDK says valid {v:?}, tick {t:?}"));
                }
                let k = sorted_key(a.raw(), b.raw(), *tier);
                let x = sdk.is_x(&a.raw(), &b.raw());
                if !matches!((&x, &k), (Ok(x), Some(k)) if *x == (k.token_x == a.raw())) {
                    self.bad("P18", "sdk/token order", format!("pool {k:?}: the SDK says first token given is x: {x:?}"));
                }
            } else if !low_gas && v == Ok(true) && t == Ok(*tick) {
                let k = sorted_key(a.raw(), b.raw(), *tier);
                if let Some(k) = k.filter(|k| self.w.fee_tiers.contains(&k.fee_tier) && !self.w.pools.contains_key(k)) {
                    self.bad("P18", "sdk/new pool refused", format!("{k:?} at tick {tick}, price {price:?} is valid for the SDK but refused"));
                }
            }
        }
        if let (Call::AddFeeTier(t), false) = (call, failed) {
            if !sdk.tier_ok(t.fee, t.tick_spacing) {
                self.bad("P18", "sdk/fee tier", format!("{t:?} was added, the SDK refuses it"));
            }
        }
    }

    fn judge_sdk_swap(&mut self, call: &Call, s: &Result<SdkSwap, String>, q: &Result<Result<QuoteResult, u8>, String>) {
        match (s, q) {
            (Ok(s), _) if s.max_steps => {
                *self.stats.probes.entry("SDK simulations cut short (step limit)".into()).or_default() += 1;
            }
            (Ok(s), Ok(Ok(q))) => {
                let a: Vec<(i64, U256, bool)> = q.ticks.iter().map(|t| (t.index as i64, t.liquidity_change, t.sign)).collect();
                if s.insufficient || s.outdated {
                    self.bad("P18", "sdk/pessimist", format!("{call:?}: the quote answers {} for {}, the SDK sees no way: {s:?}", q.amount_out, q.amount_in));
                } else if (s.amount_in, s.amount_out, s.target) != (q.amount_in, q.amount_out, q.target_sqrt_price) {
                    self.bad(
                        "P18",
                        "sdk/differs",
                        format!(
                            "{call:?}: quote (in {}, out {}, price {}), SDK (in {}, out {}, price {})",
                            q.amount_in, q.amount_out, q.target_sqrt_price, s.amount_in, s.amount_out, s.target
                        ),
                    );
                } else if s.crossed != a {
                    self.bad("P18", "sdk/crossed", format!("{call:?}: the quote crosses {a:?}, the SDK {:?}", s.crossed));
                }
            }
            (Err(e), Ok(Ok(q))) => {
                self.bad("P18", "sdk/refuses", format!("{call:?}: the quote answers {} for {}, the SDK fails: {e}", q.amount_out, q.amount_in));
            }
            (Ok(s), Ok(Err(c))) => {
                *self.stats.probes.entry("SDK simulations of a refused swap".into()).or_default() += 1;
                if !s.insufficient && !s.outdated && !s.amount_out.is_zero() {
                    self.bad("P18", "sdk/optimist", format!("{call:?}: the quote is refused (error {c}), the SDK promises {} for {}", s.amount_out, s.amount_in));
                }
            }
            (Ok(s), Err(c)) => {
                // the growth of fees in one step cannot be represented: the SDK does not follow it
                if let Call::Swap { key, x_to_y, amount, by_in, limit } = call {
                    if crate::model::calc_swap(&self.w, &key.raw(), *x_to_y, amount.0, *by_in, limit.0, self.s.c.now).err() == Some("fee growth overflow") {
                        *self.stats.probes.entry("SDK simulations of a swap whose fee growth overflows".into()).or_default() += 1;
                        return;
                    }
                }
                if !s.insufficient && !s.outdated && !s.amount_out.is_zero() {
                    self.bad("P18", "sdk/optimist at a trap".to_string(), format!("{call:?}: the quote fails ({c}), the SDK promises {} for {}", s.amount_out, s.amount_in));
                }
            }
            (Err(_), _) => {}
        }
    }
}
impl<'a> Runner<'a> {
    /// The liquidity which the SDK computes for an amount of one token is the largest that the contract
    /// opens for it, and its amount of the other token is what the contract takes.
    pub fn sizing(&mut self, user: Id, call: &Call, by_x: bool, amount: U256) {
        let Some(sdk) = SDK.get() else { return };
        let Call::CreatePosition { key, lower, upper, .. } = call else { return };
        let k = key.raw();
        let Some(ps) = self.w.pools.get(&k) else { return };
        let (cur, price) = (ps.pool.current_tick_index, ps.pool.sqrt_price);
        let (Some(pl), Some(pu)) = (rm::price_of_tick(*lower), rm::price_of_tick(*upper)) else { return };
        if lower >= upper || amount.is_zero() || price == pu {
            return;
        }
        let (lo, up) = (sdk.sizing(by_x, amount, *lower, *upper, price, false), sdk.sizing(by_x, amount, *lower, *upper, price, true));
        let what = |r: &Result<(U256, U256), String>| format!("{call:?}: for {amount} of {} at price {price} the SDK says {r:?}", if by_x { "x" } else { "y" });
        // nothing of this token can be used on the other side of the range
        if if by_x { price > pu } else { price < pl } {
            if lo.is_ok() || up.is_ok() {
                self.bad("P28", "sdk/sizing of nothing", what(&up));
            }
            return;
        }
        let (a, b) = if by_x { (price.max(pl), pu) } else { (pl, price.min(pu)) };
        if a == b {
            return;
        }
        let d = U512::from(b - a);
        // how far one unit in the last place of the liquidity reaches
        let step = (U512::from(2 * rm::LIQ_ONE) / d + 2).as_u128();
        let expect = if by_x {
            let n = U512::from(a) * U512::from(b) / U512::from(rm::PRICE_ONE);
            U512::from(amount).checked_mul(n * U512::from(rm::LIQ_ONE)).map(|v| v / d)
        } else {
            U512::from(amount).checked_mul(U512::from(rm::PRICE_ONE) * U512::from(rm::LIQ_ONE)).map(|v| v / d)
        };
        let small = expect.map_or(false, |e| e.bits() < 150);
        let (Ok((l, olo)), Ok((l2, oup))) = (&lo, &up) else {
            if small {
                self.bad("P28", "sdk/sizing fails", format!("{}; {lo:?}", what(&up)));
            }
            return;
        };
        let (l, olo, oup) = (*l, *olo, *oup);
        *self.stats.probes.entry("SDK sizings of a position".into()).or_default() += 1;
        if l != *l2 || olo > oup || oup - olo > U256::one() {
            self.bad("P28", "sdk/sizing by rounding", format!("{}; rounding down {lo:?}", what(&up)));
        }
        let (tx, ty) = (k.token_x, k.token_y);
        let me = user.raw();
        let (bx, by) = (self.w.bal(&me, &tx), self.w.bal(&me, &ty));
        let mut open = |r: &mut Self, l: U256| {
            r.fork(|r| {
                let call = Call::CreatePosition { key: *key, lower: *lower, upper: *upper, liquidity: A(l), lo: P(0), hi: P(u128::MAX) };
                let (ok, _) = r.try_call(user, call);
                if !ok {
                    return None;
                }
                let b = r.balances(user)?;
                let g = |t: &Actor| b.get(t).copied().unwrap_or_default();
                Some((bx.checked_sub(g(&tx))?, by.checked_sub(g(&ty))?))
            })
        };
        if !l.is_zero() {
            if let Some((x, y)) = open(self, l) {
                *self.stats.probes.entry("SDK sizings of a position: opened".into()).or_default() += 1;
                let (mine, other) = if by_x { (x, y) } else { (y, x) };
                if mine > amount {
                    self.bad("P28", "sdk/sizing too large", format!("{}, but opening it takes {mine}", what(&up)));
                }
                // the SDK drops what a fraction of one unit of liquidity costs
                let (a, b) = if by_x { (pl, price.max(pl)) } else { (price.min(pu), pu) };
                let slack = if by_x {
                    U256::from((b - a) / rm::PRICE_ONE) + 2
                } else {
                    let n = (U512::from(a) * U512::from(b) / U512::from(rm::PRICE_ONE)).as_u128().max(1);
                    U256::from(rm::PRICE_ONE / n / rm::LIQ_ONE) + 3
                };
                let outside = if by_x { cur < *lower } else { cur >= *upper };
                let near = oup.max(other) - oup.min(other) <= slack;
                if !near || (outside && !(oup.is_zero() && other.is_zero())) {
                    self.bad("P28", "sdk/sizing other token", format!("{}, but opening it takes {other} of the other token", what(&up)));
                }
            }
        }
        // a little more would cost more
        if let Some(more) = l.checked_add(step.into()) {
            if let Some((x, y)) = open(self, more) {
                *self.stats.probes.entry("SDK sizings of a position: one step more opened".into()).or_default() += 1;
                let mine = if by_x { x } else { y };
                if mine <= amount {
                    self.bad("P28", "sdk/sizing too small", format!("{}, but {more} costs only {mine}", what(&up)));
                }
            }
        }
    }
}
impl<'a> Runner<'a> {
    /// The SDK's rules about ticks are the contract's.
    fn sdk_rules(&mut self, sdk: &dyn Sdk, sp: u16, lower: i32, upper: i32) {
        if sp == 0 || sp > 100 {
            return;
        }
        let max = rm::max_tick(sp);
        let ok = |t: i32| t % sp as i32 == 0 && t.abs() <= max;
        for t in [lower, upper, max, -max, max + 1, max + sp as i32, -max - sp as i32] {
            let c = sdk.check_tick(t, sp);
            if c.is_ok() != ok(t) {
                self.bad("P18", "sdk/tick rule", format!("tick {t} with spacing {sp}: the SDK says {c:?}"));
            }
            if ok(t) {
                let at = (t + rm::MAX_TICK) / sp as i32;
                let (p, back) = (sdk.tick_to_position(t, sp), sdk.position_to_tick((at / 64) as u16, (at % 64) as u8, sp));
                if p != Ok(((at / 64) as u16, (at % 64) as u8)) || back != Ok(t) {
                    self.bad("P18", "sdk/tick position", format!("tick {t} with spacing {sp}: the SDK says {p:?} and, back, {back:?}"));
                }
            }
        }
        for (a, b) in [(lower, upper), (upper, lower)] {
            let c = sdk.check_ticks(a, b, sp);
            if a != b && c.is_ok() != (ok(a) && ok(b) && a < b) {
                self.bad("P18", "sdk/tick rule", format!("ticks {a}..{b} with spacing {sp}: the SDK says {c:?}"));
            }
        }
        let chunk = ((max + rm::MAX_TICK) / sp as i32 / 64) as u16;
        let m = sdk.max_chunk(sp);
        if m != Ok(chunk) {
            self.bad("P18", "sdk/max chunk", format!("spacing {sp}: the SDK says {m:?}, the highest tick is in chunk {chunk}"));
        }
        let m = sdk.max_liquidity(sp);
        if m != Ok(rm::max_liquidity_per_tick(sp)) {
            self.bad("P18", "sdk/max liquidity", format!("spacing {sp}: the SDK says {m:?}, expected {}", rm::max_liquidity_per_tick(sp)));
        }
        let b = sdk.bounds(sp);
        let right = (-max, max, rm::price_of_tick(-max).unwrap(), rm::price_of_tick(max).unwrap());
        if b != Ok(right) {
            self.bad("P18", "sdk/bounds", format!("spacing {sp}: the SDK says {b:?}, expected {right:?}"));
        }
        let l = sdk.limits();
        if l != (crate::probe::TICK_LIMIT, crate::probe::POSITION_TICK_LIMIT, 64, 256) || sdk.global_prices() != (rm::MIN_SQRT_PRICE, rm::MAX_SQRT_PRICE) {
            self.bad("P18", "sdk/limits", format!("the SDK says {l:?}, {:?}", sdk.global_prices()));
        }
    }
}
impl Forecast {
    /// The SDK's reading of price and tick bounds fits the pool.
    fn tick_parity(&self, r: &mut Runner, sdk: &dyn Sdk, p: &SdkPool) {
        let sp = p.tier.tick_spacing;
        let t = sdk.tick_of(p.pool.sqrt_price, sp);
        let c = p.pool.current_tick_index;
        // after a swap down to a tick exactly, the pool is one step below the price's tick
        let exact = || sdk.price_of(c + sp as i32) == Ok(p.pool.sqrt_price);
        if t != Ok(c) && !(t == Ok(c + sp as i32) && exact()) {
            r.bad("P18", "sdk/tick of price", format!("the pool is at tick {c}, the SDK computes {t:?} from its price {}", p.pool.sqrt_price));
        }
        match sdk.bounds(sp) {
            Ok((lo, hi, plo, phi)) if lo <= c && c <= hi && plo <= p.pool.sqrt_price && p.pool.sqrt_price <= phi => {}
            b => r.bad("P18", "sdk/bounds", format!("the pool is at tick {c}, price {}, the SDK's bounds are {b:?}", p.pool.sqrt_price)),
        }
    }
}
