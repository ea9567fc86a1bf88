//! The observable state of the program, read through its public queries, and the comparison of two
//! such states.
use crate::chain::*;
use crate::refmath as rm;
use crate::types::*;
use primitive_types::U256;
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Debug, PartialEq)]
pub struct PoolState {
    pub pool: Pool,
    pub ticks: BTreeMap<i32, Tick>,
    pub tickmap: BTreeSet<i32>,
    pub count: u32,
}
#[derive(Clone, Debug, PartialEq, Default)]
pub struct World {
    pub protocol_fee: u128,
    pub fee_tiers: Vec<FeeTier>,
    pub pool_keys: Vec<PoolKey>,
    pub pools: BTreeMap<PoolKey, PoolState>,
    pub balances: BTreeMap<Actor, BTreeMap<Actor, U256>>,
    pub positions: BTreeMap<Actor, Vec<Position>>,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum F {
    /// succeeded / failed
    Outcome,
    Reply,
    Balance,
    Price,
    Liquidity,
    Growth,
    ProtoFees,
    PoolTime,
    Receiver,
    TickSet,
    Tickmap,
    TickLiq,
    TickPrice,
    TickGrowth,
    TickTime,
    TickCount,
    PosShape,
    PosFees,
    PosBlock,
    PosList,
    Registry,
    FeeConfig,
    Events,
    Native,
    Requests,
    /// a query failed or answered nonsense
    Query,
}
#[derive(Clone, Debug)]
pub struct Diff {
    pub f: F,
    /// account concerned, for balances and positions
    pub who: Option<Actor>,
    pub token: Option<Actor>,
    pub pool: Option<PoolKey>,
    pub text: String,
}
impl Diff {
    pub fn new(f: F, text: String) -> Diff {
        Diff { f, who: None, token: None, pool: None, text }
    }
}

impl World {
    pub fn bal(&self, who: &Actor, token: &Actor) -> U256 {
        self.balances.get(who).and_then(|m| m.get(token)).copied().unwrap_or_default()
    }
    pub fn set_bal(&mut self, who: &Actor, token: &Actor, v: U256) {
        if v.is_zero() {
            if let Some(m) = self.balances.get_mut(who) {
                m.remove(token);
                if m.is_empty() {
                    self.balances.remove(who);
                }
            }
        } else {
            self.balances.entry(*who).or_default().insert(*token, v);
        }
    }
    /// None on overflow
    pub fn add_bal(&mut self, who: &Actor, token: &Actor, v: U256) -> Option<()> {
        let b = self.bal(who, token).checked_add(v)?;
        self.set_bal(who, token, b);
        Some(())
    }
    pub fn sub_bal(&mut self, who: &Actor, token: &Actor, v: U256) -> Option<()> {
        let b = self.bal(who, token).checked_sub(v)?;
        self.set_bal(who, token, b);
        Some(())
    }
    pub fn total(&self, token: &Actor) -> Option<U256> {
        let mut t = U256::zero();
        for m in self.balances.values() {
            if let Some(v) = m.get(token) {
                t = t.checked_add(*v)?;
            }
        }
        Some(t)
    }
    pub fn pos(&self, who: &Actor) -> &[Position] {
        self.positions.get(who).map(|v| &v[..]).unwrap_or(&[])
    }
}

pub fn chunks_to_ticks(chunks: &[(u16, u64)], spacing: u16) -> BTreeSet<i32> {
    let base = rm::MAX_TICK / spacing as i32;
    let mut s = BTreeSet::new();
    for (c, v) in chunks {
        for b in 0..64 {
            if v >> b & 1 == 1 {
                s.insert((*c as i32 * 64 + b - base) * spacing as i32);
            }
        }
    }
    s
}

/// How the tick bitmaps are read. They cost more than everything else together, so most steps look
/// only at the ticks known so far; every few steps, and whenever a step may create or remove ticks,
/// they are read in full.
#[derive(Clone, Copy, PartialEq)]
pub enum Depth {
    Full,
    Pool(PoolKey),
    Light,
}
/// Read everything. `Err` = a query that must always answer did not.
pub fn observe(s: &mut Sim, prev: Option<&World>, depth: Depth) -> Result<World, String> {
    let mut w = World::default();
    w.protocol_fee = s.ask(&Query::ProtocolFee)?;
    w.fee_tiers = s.ask(&Query::FeeTiers)?;
    let (keys, n): (Vec<PoolKey>, u16) = s.ask(&Query::PoolKeys { size: 1000, offset: 0 })?;
    if keys.len() != n as usize {
        return Err(format!("GetPoolKeys lists {} keys but counts {n}", keys.len()));
    }
    w.pool_keys = keys;
    for who in s.accounts() {
        let id = Id::of(&who).unwrap();
        let b: Vec<(Actor, U256)> = s.ask(&Query::Balances { user: id })?;
        let n = b.len();
        let m: BTreeMap<Actor, U256> = b.into_iter().filter(|x| !x.1.is_zero()).collect();
        if m.len() > n {
            return Err("GetUserBalances lists a token twice".into());
        }
        if !m.is_empty() {
            w.balances.insert(who, m);
        }
        let p: Vec<Position> = s.ask(&Query::AllPositions { owner: id })?;
        if !p.is_empty() {
            w.positions.insert(who, p);
        }
    }
    for k in w.pool_keys.clone() {
        let pk = Pk::of(&k);
        let pool = s
            .ask_result::<Pool>(&Query::Pool { a: pk.x, b: pk.y, tier: pk.tier })?
            .map_err(|e| format!("listed {k:?} cannot be read (error {e})"))?;
        let before = prev.and_then(|p| p.pools.get(&k));
        let full = match depth {
            Depth::Full => true,
            Depth::Pool(p) => p == k,
            Depth::Light => false,
        } || before.is_none();
        let mut tickmap = BTreeSet::new();
        let mut count = 0;
        let mut want: BTreeSet<i32> = BTreeSet::new();
        if full {
            let chunks: Vec<(u16, u64)> = s.ask(&Query::Tickmap { key: pk })?;
            tickmap = chunks_to_ticks(&chunks, k.fee_tier.tick_spacing);
            count = s.ask(&Query::LiquidityTicksAmount { key: pk })?;
            want.extend(&tickmap);
        } else if let Some(b) = before {
            count = b.count;
            want.extend(&b.tickmap);
        }
        for ps in w.positions.values() {
            for p in ps.iter().filter(|p| p.pool_key == k) {
                want.insert(p.lower_tick_index);
                want.insert(p.upper_tick_index);
            }
        }
        if let Some(pv) = prev.and_then(|p| p.pools.get(&k)) {
            want.extend(pv.ticks.keys());
        }
        let mut ticks = BTreeMap::new();
        for i in want {
            if !full && s.ask::<bool>(&Query::TickInit { key: pk, index: i })? {
                tickmap.insert(i);
            }
            if let Ok(t) = s.ask_result::<Tick>(&Query::Tick { key: pk, index: i })? {
                ticks.insert(i, t);
            }
        }
        w.pools.insert(k, PoolState { pool, ticks, tickmap, count });
    }
    Ok(w)
}

macro_rules! field {
    ($out:expr, $f:expr, $pool:expr, $who:expr, $what:expr, $a:expr, $b:expr) => {
        if $a != $b {
            $out.push(Diff {
                f: $f,
                who: $who,
                token: None,
                pool: $pool,
                text: format!("{}: expected {:?}, program has {:?}", $what, $a, $b),
            });
        }
    };
}

/// `exp` = reference model, `got` = program.
pub fn diff(exp: &World, got: &World) -> Vec<Diff> {
    let mut o = vec![];
    field!(o, F::FeeConfig, None, None, "protocol fee", exp.protocol_fee, got.protocol_fee);
    field!(o, F::Registry, None, None, "fee tiers", exp.fee_tiers, got.fee_tiers);
    field!(o, F::Registry, None, None, "pool keys", exp.pool_keys, got.pool_keys);
    let whos: BTreeSet<&Actor> = exp.balances.keys().chain(got.balances.keys()).collect();
    for w in whos {
        let e = BTreeMap::new();
        let (a, b) = (exp.balances.get(w).unwrap_or(&e), got.balances.get(w).unwrap_or(&e));
        if a == b {
            continue;
        }
        let toks: BTreeSet<&Actor> = a.keys().chain(b.keys()).collect();
        for t in toks {
            let (x, y) = (exp.bal(w, t), got.bal(w, t));
            if x != y {
                o.push(Diff {
                    f: F::Balance,
                    who: Some(*w),
                    token: Some(*t),
                    pool: None,
                    text: format!("balance of {} in {}: expected {x}, program has {y}", name(w), name(t)),
                });
            }
        }
    }
    let whos: BTreeSet<&Actor> = exp.positions.keys().chain(got.positions.keys()).collect();
    for w in whos {
        let (a, b) = (exp.pos(w), got.pos(w));
        if a == b {
            continue;
        }
        if a.len() != b.len() {
            o.push(Diff {
                f: F::PosList,
                who: Some(*w),
                token: None,
                pool: None,
                text: format!("{} should own {} positions, owns {}", name(w), a.len(), b.len()),
            });
            continue;
        }
        for (i, (x, y)) in a.iter().zip(b).enumerate() {
            let n = |s: &str| format!("position {i} of {} {s}", name(w));
            let pk = Some(x.pool_key);
            field!(
                o,
                F::PosShape,
                pk,
                Some(*w),
                n("(pool, lower, upper, liquidity)"),
                (x.pool_key, x.lower_tick_index, x.upper_tick_index, x.liquidity),
                (y.pool_key, y.lower_tick_index, y.upper_tick_index, y.liquidity)
            );
            field!(
                o,
                F::PosFees,
                pk,
                Some(*w),
                n("(growth inside x, y, owed x, y)"),
                (x.fee_growth_inside_x, x.fee_growth_inside_y, x.tokens_owed_x, x.tokens_owed_y),
                (y.fee_growth_inside_x, y.fee_growth_inside_y, y.tokens_owed_x, y.tokens_owed_y)
            );
            field!(o, F::PosBlock, pk, Some(*w), n("last block"), x.last_block_number, y.last_block_number);
        }
    }
    let keys: BTreeSet<&PoolKey> = exp.pools.keys().chain(got.pools.keys()).collect();
    for k in keys {
        let (Some(a), Some(b)) = (exp.pools.get(k), got.pools.get(k)) else {
            field!(
                o,
                F::Registry,
                Some(*k),
                None,
                format!("existence of {k:?}"),
                exp.pools.contains_key(k),
                got.pools.contains_key(k)
            );
            continue;
        };
        if a == b {
            continue;
        }
        let pk = Some(*k);
        let n = |s: &str| format!("{k:?} {s}");
        let (p, q) = (&a.pool, &b.pool);
        field!(o, F::Price, pk, None, n("(sqrt price, tick)"), (p.sqrt_price, p.current_tick_index), (q.sqrt_price, q.current_tick_index));
        field!(o, F::Liquidity, pk, None, n("liquidity"), p.liquidity, q.liquidity);
        field!(
            o,
            F::Growth,
            pk,
            None,
            n("global fee growth"),
            (p.fee_growth_global_x, p.fee_growth_global_y),
            (q.fee_growth_global_x, q.fee_growth_global_y)
        );
        field!(
            o,
            F::ProtoFees,
            pk,
            None,
            n("protocol fees"),
            (p.fee_protocol_token_x, p.fee_protocol_token_y),
            (q.fee_protocol_token_x, q.fee_protocol_token_y)
        );
        field!(
            o,
            F::PoolTime,
            pk,
            None,
            n("(start, last) timestamp"),
            (p.start_timestamp, p.last_timestamp),
            (q.start_timestamp, q.last_timestamp)
        );
        field!(o, F::Receiver, pk, None, n("fee receiver"), name(&p.fee_receiver), name(&q.fee_receiver));
        field!(o, F::Tickmap, pk, None, n("initialised ticks in the tickmap"), a.tickmap, b.tickmap);
        field!(o, F::TickCount, pk, None, n("number of liquidity ticks"), a.count, b.count);
        let (ka, kb): (Vec<_>, Vec<_>) = (a.ticks.keys().collect(), b.ticks.keys().collect());
        field!(o, F::TickSet, pk, None, n("stored ticks"), ka, kb);
        for (i, t) in &a.ticks {
            let Some(u) = b.ticks.get(i) else { continue };
            let (t, u) = (t.norm(), u.norm());
            if t == u {
                continue;
            }
            let n = |s: &str| format!("{k:?} tick {i} {s}");
            field!(
                o,
                F::TickLiq,
                pk,
                None,
                n("(index, gross, sign, net)"),
                (t.index, t.liquidity_gross, t.sign, t.liquidity_change),
                (u.index, u.liquidity_gross, u.sign, u.liquidity_change)
            );
            field!(o, F::TickPrice, pk, None, n("price"), t.sqrt_price, u.sqrt_price);
            field!(
                o,
                F::TickGrowth,
                pk,
                None,
                n("growth outside"),
                (t.fee_growth_outside_x, t.fee_growth_outside_y),
                (u.fee_growth_outside_x, u.fee_growth_outside_y)
            );
            field!(o, F::TickTime, pk, None, n("seconds outside"), t.seconds_outside, u.seconds_outside);
        }
    }
    o
}
