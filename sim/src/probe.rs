//! Things tried on a fork of the simulated chain that is thrown away afterwards.
use crate::chain::*;
use crate::machine::End;
use crate::gen::Rng;
use crate::oracle::Runner;
use crate::refmath as rm;
use crate::types::*;
use crate::world::*;
use primitive_types::U256;
use std::collections::BTreeMap;

/// how many ticks may be asked for at once (as the SDK and the README publish it)
pub const TICK_LIMIT: usize = 21544;
/// ticks in one answer about positions
pub const POSITION_TICK_LIMIT: usize = 17872;
type Bals = BTreeMap<Actor, U256>;

impl<'a> Runner<'a> {
    /// Run `f` and put the chain back exactly as it was.
    pub fn fork<T>(&mut self, f: impl FnOnce(&mut Runner<'a>) -> T) -> T {
        let c = self.s.c.clone();
        let counts = self.s.counts.clone();
        let r = f(self);
        self.s.load(&c);
        self.s.counts = counts;
        r
    }
    /// A plain call on the fork: did it succeed, and what came back.
    pub fn try_call(&mut self, user: Id, call: Call) -> (bool, StepOut) {
        let out = self.s.step(&Op::Call { user, call, gas: 0, value: P(0) });
        let ok = out.end.as_ref().map_or(false, |e| !e.failed());
        (ok, out)
    }
    pub fn balances(&mut self, user: Id) -> Option<Bals> {
        let v: Vec<(Actor, U256)> = self.s.ask(&Query::Balances { user }).ok()?;
        Some(v.into_iter().filter(|x| !x.1.is_zero()).collect())
    }

    pub fn probe(&mut self, p: &Probe) {
        let k = match p {
            Probe::Queries { .. } => "queries agree",
            Probe::OpenClose { .. } => "open and close",
            Probe::SwapBack { .. } => "swap there and back",
            Probe::Churn { .. } => "churn one pool",
            Probe::Sizing { .. } => "SDK sizing",
            Probe::Crowd { .. } => "crowd",
        };
        *self.stats.probes.entry(k.into()).or_default() += 1;
        match p {
            Probe::Queries { size, offset } => {
                if let Err(e) = self.fork(|r| r.queries_agree(*size, *offset)) {
                    let sig = e.split(':').next().unwrap_or("").to_string();
                    self.bad("P22", format!("views/{sig}"), e);
                }
            }
            Probe::OpenClose { user, call } => self.open_close(*user, call),
            Probe::SwapBack { user, call } => self.swap_back(*user, call),
            Probe::Churn { user, key, seed, n } => self.churn(*user, key, *seed, *n),
            Probe::Sizing { user, call, by_x, amount } => self.sizing(*user, call, *by_x, amount.0),
            Probe::Crowd { seed, n, .. } if *n == u16::MAX => self.many_pools(*seed),
            Probe::Crowd { user, key, seed, n } if *n > 5000 => self.long_list(*user, key, *seed, *n),
            Probe::Crowd { user, key, seed, n } => self.crowd(*user, key, *seed, *n),
        }
    }

    fn open_close(&mut self, user: Id, call: &Call) {
        let Call::CreatePosition { key, .. } = call else { return };
        let before: Bals = self.w.balances.get(&user.raw()).cloned().unwrap_or_default();
        let index = self.w.pos(&user.raw()).len() as u32;
        let res = self.fork(|r| {
            let (ok, _) = r.try_call(user, call.clone());
            if !ok {
                return None;
            }
            let (ok, out) = r.try_call(user, Call::RemovePosition { index });
            let after = r.balances(user);
            Some((ok, out.end, after))
        });
        let Some((ok, end, after)) = res else { return };
        *self.stats.probes.entry("open and close: opened".into()).or_default() += 1;
        if !ok {
            let msg = format!("a position just opened ({call:?}) cannot be removed: {end:?}");
            self.bad("P11", "probe/cannot close", msg.clone());
            self.bad("P26", "probe/cannot close", msg);
            return;
        }
        let Some(after) = after else {
            self.bad("P22", "probe/no balances", "balances cannot be read".to_string());
            return;
        };
        let k = key.raw();
        for t in [k.token_x, k.token_y] {
            let g = |m: &Bals| m.get(&t).copied().unwrap_or_default();
            if g(&after) > g(&before) {
                self.bad(
                    "P26",
                    "open+close/gain",
                    format!("opening and closing a position ({call:?}) turned {} of {} into {}", g(&before), name(&t), g(&after)),
                );
            }
        }
    }

    fn swap_back(&mut self, user: Id, call: &Call) {
        let Call::Swap { key, x_to_y, .. } = call else { return };
        let k = key.raw();
        let (tin, tout) = if *x_to_y { (k.token_x, k.token_y) } else { (k.token_y, k.token_x) };
        let me = user.raw();
        let (a0, b0) = (self.w.bal(&me, &tin), self.w.bal(&me, &tout));
        let res = self.fork(|r| {
            let (ok, _) = r.try_call(user, call.clone());
            if !ok {
                return None;
            }
            let mid = r.balances(user)?;
            let got = mid.get(&tout).copied().unwrap_or_default().checked_sub(b0)?;
            let limit = P(if *x_to_y { rm::MAX_SQRT_PRICE } else { rm::MIN_SQRT_PRICE });
            let back = Call::Swap { key: *key, x_to_y: !*x_to_y, amount: A(got), by_in: true, limit };
            let (ok, _) = r.try_call(user, back);
            if !ok {
                return None;
            }
            let end = r.balances(user)?;
            Some((got, end))
        });
        let Some((got, end)) = res else { return };
        *self.stats.probes.entry("swap there and back: both done".into()).or_default() += 1;
        let g = |t: &Actor| end.get(t).copied().unwrap_or_default();
        if g(&tin) > a0 || g(&tout) > b0 {
            self.bad(
                "P26",
                "swap+back/gain",
                format!("{call:?} and back ({got}) turned ({a0}, {b0}) of (in, out) into ({}, {})", g(&tin), g(&tout)),
            );
        }
    }

    /// One account alone works a single pool (swaps, opens and closes its own positions) and ends
    /// with no position: it cannot end with more of one token and no less of the other.
    fn churn(&mut self, user: Id, key: &Pk, seed: u64, n: u8) {
        let k = key.raw();
        let Some(ps) = self.w.pools.get(&k).cloned() else { return };
        let me = user.raw();
        let (x0, y0) = (self.w.bal(&me, &k.token_x), self.w.bal(&me, &k.token_y));
        let base = self.w.pos(&me).len() as u32;
        let mut log: Vec<String> = vec![];
        let res = self.fork(|r| {
            let mut rng = Rng::new(seed);
            let sp = k.fee_tier.tick_spacing as i32;
            let m = rm::max_tick(k.fee_tier.tick_spacing);
            let mut done = 0;
            let mut cur = ps.pool.current_tick_index;
            for _ in 0..n {
                let b = r.balances(user)?;
                let g = |t: &Actor| b.get(t).copied().unwrap_or_default();
                let mine: u32 = r.s.ask(&Query::PositionAmount { owner: user }).ok()?;
                let c = match rng.below(8) {
                    0..=3 => {
                        let x_to_y = rng.p(50);
                        let have = g(if x_to_y { &k.token_x } else { &k.token_y });
                        let amount = match rng.below(4) {
                            0 => U256::one() + rng.below(50),
                            1 => have / (1 + rng.below(40)),
                            _ => rng.amount(1, have.bits().max(2) as u32),
                        };
                        let limit = P(if x_to_y { rm::MIN_SQRT_PRICE } else { rm::MAX_SQRT_PRICE });
                        Call::Swap { key: *key, x_to_y, amount: A(amount), by_in: rng.p(70), limit }
                    }
                    4 | 5 => {
                        let lower = (cur + sp * rng.range(-6, 3) as i32).clamp(-m, m - sp);
                        let upper = (lower + sp * rng.range(1, 8) as i32).clamp(-m, m);
                        let l = rng.amount(4, (g(&k.token_x).min(g(&k.token_y)).bits() as u32 + 18).clamp(5, 200));
                        Call::CreatePosition { key: *key, lower, upper, liquidity: A(l), lo: P(0), hi: P(u128::MAX) }
                    }
                    6 if mine > base => Call::ClaimFee { index: base + rng.below((mine - base) as u64) as u32 },
                    7 if mine > base => Call::RemovePosition { index: base + rng.below((mine - base) as u64) as u32 },
                    _ => continue,
                };
                let (ok, _) = r.try_call(user, c.clone());
                if ok {
                    log.push(format!("{c:?}"));
                    done += 1;
                    if let Ok(Ok(p)) = r.s.ask_result::<Pool>(&Query::Pool { a: key.x, b: key.y, tier: key.tier }) {
                        cur = p.current_tick_index;
                    }
                }
            }
            loop {
                let mine: u32 = r.s.ask(&Query::PositionAmount { owner: user }).ok()?;
                if mine <= base {
                    break;
                }
                let (ok, out) = r.try_call(user, Call::RemovePosition { index: mine - 1 });
                if !ok {
                    return Some((Err(format!("{:?}", out.end)), done));
                }
            }
            let b = r.balances(user)?;
            Some((Ok(b), done))
        });
        let Some((end, done)) = res else { return };
        if done > 0 {
            *self.stats.probes.entry("churn one pool: calls that took effect".into()).or_default() += done;
        }
        let log = log.join("; ");
        match end {
            Err(e) => self.bad("P11", "churn/cannot close", format!("own position cannot be removed ({e}) after {log}")),
            Ok(b) => {
                let g = |t: &Actor| b.get(t).copied().unwrap_or_default();
                let (x1, y1) = (g(&k.token_x), g(&k.token_y));
                if x1 >= x0 && y1 >= y0 && (x1 > x0 || y1 > y0) {
                    self.bad("P26", "churn/gain", format!("working {k:?} alone turned ({x0}, {y0}) into ({x1}, {y1}): {log}"));
                }
            }
        }
    }

    /// The views of a pool in which each of the positions has ticks of its own, more than may be asked for at once.
    fn many_ticks(&mut self, key: &Pk, sp: i32, positions: &[(PoolKey, i32, i32)]) -> Result<(), String> {
        let k = key.raw();
        let mut want: Vec<(i32, bool)> = positions.iter().filter(|p| p.0 == k).flat_map(|p| [(p.1, true), (p.2, false)]).collect();
        want.sort();
        let chunks: Vec<(u16, u64)> = self.s.ask(&Query::Tickmap { key: *key })?;
        let mut set: Vec<i32> = vec![];
        for (c, bits) in chunks {
            for b in (0..64).filter(|b| bits >> b & 1 == 1) {
                set.push((c as i32 * 64 + b - rm::MAX_TICK / sp) * sp);
            }
        }
        set.sort();
        if !set.iter().eq(want.iter().map(|w| &w.0)) {
            return Err(format!("GetTickmap: {} ticks of {}, or others", set.len(), want.len()));
        }
        let count: u32 = self.s.ask(&Query::LiquidityTicksAmount { key: *key })?;
        if count as usize != want.len() {
            return Err(format!("GetLiquidityTicksAmount: {count} of {} ticks", want.len()));
        }
        for (at, n) in [(0, TICK_LIMIT), (want.len() - TICK_LIMIT, TICK_LIMIT), (0, TICK_LIMIT + 1), (7, 1000)] {
            let part = &want[at..at + n];
            let l = self.s.ask_result::<Vec<LiquidityTick>>(&Query::LiquidityTicks { key: *key, ticks: part.iter().map(|p| p.0).collect() })?;
            match l {
                Ok(l) if n <= TICK_LIMIT && l.iter().map(|t| (t.index, t.sign)).eq(part.iter().copied()) && l.iter().all(|t| t.liquidity_change == U256::one()) => {}
                Err(_) if n > TICK_LIMIT => {}
                l => return Err(format!("GetLiquidityTicks: {n} ticks from number {at} of {}: {:?}", want.len(), l.map(|l| l.len()))),
            }
        }
        *self.stats.probes.entry("crowd: more ticks in a pool than may be asked for".into()).or_default() += 1;
        Ok(())
    }

    /// As many pools as can be counted, and then some more.
    fn many_pools(&mut self, seed: u64) {
        let w0 = self.w.clone();
        let res = self.fork(|r| -> Result<usize, String> {
            let mut rng = Rng::new(seed);
            let mut tiers = w0.fee_tiers.clone();
            while tiers.len() < 3 {
                let t = FeeTier { fee: rng.below(1_000_000_000_000) as u128, tick_spacing: rng.range(1, 101) as u16 };
                if tiers.contains(&t) || r.s.bulk(ADMIN, &Call::AddFeeTier(t)).failed() {
                    return Ok(0);
                }
                tiers.push(t);
            }
            let mut want: Vec<PoolKey> = w0.pool_keys.clone();
            let had: std::collections::BTreeSet<PoolKey> = want.iter().cloned().collect();
            let us = r.s.c.setup.users.clone();
            let price = rm::price_of_tick(0).unwrap_or_default();
            let mut todo = vec![];
            'all: for t in &tiers {
                for x in 0..=255u8 {
                    for y in 0..x {
                        let k = if Id(x).raw() < Id(y).raw() { (x, y) } else { (y, x) };
                        let k = PoolKey { token_x: Id(k.0).raw(), token_y: Id(k.1).raw(), fee_tier: *t };
                        if !had.contains(&k) {
                            todo.push((x, y, k));
                            if todo.len() + want.len() == u16::MAX as usize + 3 {
                                break 'all;
                            }
                        }
                    }
                }
            }
            let n = todo.len();
            for (i, (x, y, k)) in todo.into_iter().enumerate() {
                let c = Call::CreatePool { a: Id(x), b: Id(y), tier: k.fee_tier, price: P(price), tick: 0 };
                let user = *rng.pick(&us);
                // the last of them are beyond what the list counts
                let last = want.len() >= u16::MAX as usize - 1 || i + 4 >= n;
                if last {
                    r.s.bulk_done();
                }
                let end = r.s.bulk(user, &c);
                if end == End::OutOfGas {
                    return Ok(0);
                }
                if end.failed() {
                    if !last || want.len() < u16::MAX as usize {
                        return Err(format!("CreatePool: refused with {} pools: {end:?}", want.len()));
                    }
                    let c = r.s.c.clone();
                    r.s.load(&c);
                } else {
                    want.push(k);
                    if last {
                        r.s.bulk_done();
                    }
                }
            }
            let len = want.len();
            let mut got: Vec<PoolKey> = vec![];
            loop {
                let size = 20_000.min(u16::MAX as usize - got.len()) as u16;
                let (page, total): (Vec<PoolKey>, u16) = r.s.ask(&Query::PoolKeys { size, offset: got.len() as u16 })?;
                if total as usize != len {
                    return Err(format!("GetPoolKeys: counts {total} of {len} pools"));
                }
                if page.is_empty() {
                    break;
                }
                got.extend(page);
            }
            if got != want {
                let i = (0..len).find(|i| got.get(*i) != want.get(*i)).unwrap_or(len);
                return Err(format!("GetPoolKeys: lists {} of {len} pools, or others, from number {i}", got.len()));
            }
            for i in [0, rng.below(len as u64) as usize, len - 1] {
                let k = &want[i];
                let p: Pool = r.s.ask_result(&Query::Pool { a: Id::of(&k.token_x).unwrap_or(ZERO), b: Id::of(&k.token_y).unwrap_or(ZERO), tier: k.fee_tier })?.map_err(|e| format!("GetPool: number {i}: error {e}"))?;
                match w0.pools.get(k) {
                    Some(q) if q.pool != p => return Err(format!("GetPool: number {i} has changed")),
                    None if p.sqrt_price != price || p.current_tick_index != 0 || !p.liquidity.is_zero() => return Err(format!("GetPool: number {i} is not as it was created")),
                    _ => {}
                }
            }
            Ok(len)
        });
        self.w = w0;
        match res {
            Ok(0) => {}
            Ok(_) => *self.stats.probes.entry("crowd: as many pools as can be listed".into()).or_default() += 1,
            Err(e) => {
                let sig = e.split(':').next().unwrap_or("").to_string();
                self.bad("P21", format!("registry/{sig}"), e);
            }
        }
    }

    /// As many positions as their ticks no longer fit into one answer.
    fn long_list(&mut self, user: Id, key: &Pk, seed: u64, n: u16) {
        let w0 = self.w.clone();
        let res = self.fork(|r| -> Result<u32, String> {
            let k = key.raw();
            let sp = k.fee_tier.tick_spacing as i32;
            let Some(cur) = r.w.pools.get(&k).map(|p| p.pool.current_tick_index) else { return Ok(0) };
            if cur.abs() > rm::max_tick(k.fee_tier.tick_spacing) - 20 * sp {
                return Ok(0);
            }
            let base = cur / sp * sp;
            let mut want: Vec<(PoolKey, i32, i32)> = w0.pos(&user.raw()).iter().map(|p| (p.pool_key, p.lower_tick_index, p.upper_tick_index)).collect();
            let mut rng = Rng::new(seed);
            let m = rm::max_tick(k.fee_tier.tick_spacing);
            // ... or all with ticks of their own, more than may be asked for at once
            let wide = rng.p(50) && w0.pools[&k].ticks.is_empty() && TICK_LIMIT as i32 + 60 < 2 * m / sp;
            let n = if wide { TICK_LIMIT as u16 / 2 + 20 } else { n };
            for i in 0..n as i32 {
                let (lower, upper) = if wide {
                    (2 * i * sp - m, 2 * i * sp - m + sp)
                } else {
                    (base - sp * rng.range(1, 4) as i32, base + sp * rng.range(2, 5) as i32)
                };
                let c = Call::CreatePosition { key: *key, lower, upper, liquidity: A(U256::one()), lo: P(0), hi: P(u128::MAX) };
                if r.s.bulk(user, &c).failed() {
                    return Ok(0);
                }
                want.push((k, lower, upper));
            }
            r.s.bulk_done();
            let len = want.len() as u32;
            let c: u32 = r.s.ask(&Query::PositionAmount { owner: user })?;
            if c != len {
                return Err(format!("GetUserPositionAmount: says {c} of {len}"));
            }
            let all: Vec<Position> = r.s.ask(&Query::AllPositions { owner: user })?;
            let is: Vec<(PoolKey, i32, i32)> = all.iter().map(|p| (p.pool_key, p.lower_tick_index, p.upper_tick_index)).collect();
            if is != want {
                return Err(format!("GetAllPositions: gives {} of {len}, or others", is.len()));
            }
            if wide {
                r.many_ticks(key, sp, &want)?;
                return Ok(len);
            }
            let mut ticks: BTreeMap<(PoolKey, i32), PositionTick> = BTreeMap::new();
            for (k, lo, up) in &want {
                for i in [*lo, *up] {
                    if !ticks.contains_key(&(*k, i)) {
                        let t = r.s.ask_result::<Tick>(&Query::Tick { key: Pk::of(k), index: i })?.map_err(|e| format!("GetTick: {i}: error {e}"))?;
                        ticks.insert((*k, i), PositionTick { index: i, fee_growth_outside_x: t.fee_growth_outside_x, fee_growth_outside_y: t.fee_growth_outside_y, seconds_outside: t.seconds_outside });
                    }
                }
            }
            let flat: Vec<&PositionTick> = want.iter().flat_map(|(k, lo, up)| [&ticks[&(*k, *lo)], &ticks[&(*k, *up)]]).collect();
            let half = POSITION_TICK_LIMIT as u32 / 2;
            for offset in [0, 1, len - half.min(len), (len - half.min(len)).saturating_sub(1), half.min(len), len - 1] {
                let t: Vec<PositionTick> = r.s.ask(&Query::PositionTicks { owner: user, offset })?;
                let right = &flat[2 * offset as usize..];
                let right = &right[..right.len().min(POSITION_TICK_LIMIT)];
                if !t.iter().eq(right.iter().copied()) {
                    return Err(format!("GetPositionTicks: at offset {offset} of {len} positions: {} ticks, expected {}, or others", t.len(), right.len()));
                }
            }
            for size in [1800u32, len - 1, len] {
                let mut at = 0;
                while at < len {
                    type G = Vec<(Pool, Vec<(Position, u32)>)>;
                    let (g, total) = r.s.ask_result::<(G, u32)>(&Query::Positions { owner: user, size, offset: at })?.map_err(|e| format!("GetPositions: error {e}"))?;
                    let mut got: Vec<(u32, Position)> = g.into_iter().flat_map(|g| g.1.into_iter().map(|p| (p.1, p.0))).collect();
                    got.sort_by_key(|p| p.0);
                    let end = len.min(at + size);
                    if total != len || got.len() as u32 != end - at || got.iter().enumerate().any(|(i, p)| p.0 != at + i as u32 || p.1 != all[p.0 as usize]) {
                        return Err(format!("GetPositions: page of {size} at {at} of {len} ({total}): {} positions, or others", got.len()));
                    }
                    at = end;
                }
            }
            Ok(len)
        });
        self.w = w0;
        match res {
            Ok(len) if 2 * len as usize > POSITION_TICK_LIMIT => *self.stats.probes.entry("crowd: more ticks of positions than one answer holds".into()).or_default() += 1,
            Ok(_) => {}
            Err(e) => {
                let sig = e.split(':').next().unwrap_or("").to_string();
                self.bad("P22", format!("views/{sig}"), e);
            }
        }
    }

    /// Many positions of one user, or many pools and fee tiers: what holds for short lists holds for long ones.
    fn crowd(&mut self, user: Id, key: &Pk, seed: u64, n: u16) {
        let w0 = self.w.clone();
        let res = self.fork(|r| {
            let mut rng = Rng::new(seed);
            let k = key.raw();
            let sp = k.fee_tier.tick_spacing as i32;
            let m = rm::max_tick(k.fee_tier.tick_spacing);
            let Some(cur) = r.w.pools.get(&k).map(|p| p.pool.current_tick_index) else { return Ok(()) };
            let us = r.s.c.setup.users.clone();
            let lists = rng.p(40);
            let tiers = rng.p(25);
            let rest = rng.below(n as u64 / 2 + 1) as u16;
            let mut exp = r.w.clone();
            let mut done = 0u64;
            for i in 0..n + rest {
                let mine = exp.pos(&user.raw()).len() as u64;
                let mut who = user;
                let c = if lists {
                    let t = if exp.fee_tiers.is_empty() { k.fee_tier } else { *rng.pick(&exp.fee_tiers) };
                    match rng.below(8) {
                        x if x == 0 || tiers && x > 2 => {
                            who = ADMIN;
                            Call::AddFeeTier(FeeTier { fee: rng.below(1_000_000_000_000) as u128, tick_spacing: rng.range(1, 101) as u16 })
                        }
                        1 if exp.fee_tiers.len() > if tiers { 260 } else { 40 } => {
                            who = ADMIN;
                            Call::RemoveFeeTier(t)
                        }
                        _ => {
                            let tick = rng.range(-50, 50) as i32 * t.tick_spacing as i32;
                            let price = rm::price_of_tick(tick).unwrap_or_default();
                            Call::CreatePool { a: Id(rng.below(200) as u8), b: Id(rng.below(200) as u8), tier: t, price: P(price), tick }
                        }
                    }
                } else if i < n || mine == 0 {
                    let lower = (cur / sp * sp + sp * rng.range(-90, 80) as i32).clamp(-m, m - sp);
                    let upper = (lower + sp * rng.range(1, 90) as i32).clamp(-m, m);
                    Call::CreatePosition { key: *key, lower, upper, liquidity: A(rng.amount(1, 20)), lo: P(0), hi: P(u128::MAX) }
                } else {
                    // the ends of the list and what one byte cannot count are of interest
                    let index = match rng.below(6) {
                        0 => 0,
                        1 => mine - 1,
                        2 => 255.min(mine - 1),
                        3 => 256.min(mine - 1),
                        _ => rng.below(mine),
                    } as u32;
                    match rng.below(4) {
                        0 => Call::ClaimFee { index },
                        1 => Call::TransferPosition { index, to: *rng.pick(&us) },
                        _ => Call::RemovePosition { index },
                    }
                };
                let env = crate::model::Env { caller: who.raw(), now: r.s.c.now, height: r.s.c.height, value: 0 };
                let mut next = exp.clone();
                if crate::model::apply(&mut next, &env, &c).is_err() {
                    continue;
                }
                let (ok, out) = r.try_call(who, c.clone());
                if !ok {
                    return Err((c, who, out.end));
                }
                done += 1;
                exp = next;
            }
            *r.stats.probes.entry("crowd: calls made".into()).or_default() += done;
            let longest = if lists { exp.pool_keys.len() } else { exp.pos(&user.raw()).len() };
            if longest > 256 {
                *r.stats.probes.entry("crowd: list longer than 256".into()).or_default() += 1;
            }
            let got = match observe(r.s, None, Depth::Full) {
                Ok(g) => g,
                Err(e) => {
                    r.bad("P22", "crowd/unreadable", format!("after {done} calls: {e}"));
                    return Ok(());
                }
            };
            for d in diff(&exp, &got) {
                for p in crate::oracle::owners(None, Some(&user.raw()), &d) {
                    r.bad(p, format!("crowd/{:?}", d.f), format!("after {done} calls ({}): {}", if lists { "pools and tiers" } else { "positions" }, d.text));
                }
            }
            r.w = got;
            let size = *rng.pick(&[1u32, 7, 255, 256, 257, 300, 1000]);
            let offset = *rng.pick(&[0u32, 1, 254, 255, 256, 257, 300]);
            if let Err(e) = r.queries_agree(size, offset) {
                let sig = e.split(':').next().unwrap_or("").to_string();
                r.bad("P22", format!("views/{sig}"), format!("with {longest} entries: {e}"));
            }
            Ok(())
        });
        self.w = w0;
        if let Err((c, who, end)) = res {
            let msg = format!("in a long list {} by {who:?} must succeed, but failed: {end:?}", c.method());
            for p in ["P19", "P21", "P22"] {
                self.bad(p, format!("crowd/{}", c.method()), msg.clone());
            }
            self.bad(crate::oracle::home(&c), format!("crowd/{}", c.method()), msg);
        }
    }

    /// A route is its hops, one after the other.
    /// Returns what the hops in sequence lead to: None if one of them is refused.
    /// The swaps of a route one by one; Err: one of them is refused (false: perhaps only for the caller's balance).
    pub fn route_as_swaps(&mut self, user: Id, amount: U256, hops: &[Hop]) -> Result<Result<(World, U256, Vec<Event>), String>, bool> {
        let w = self.w.clone();
        self.fork(|r| {
            let mut a = amount;
            let mut evs = vec![];
            for h in hops {
                let limit = P(if h.x_to_y { rm::MIN_SQRT_PRICE } else { rm::MAX_SQRT_PRICE });
                let (ok, out) =
                    r.try_call(user, Call::Swap { key: h.key, x_to_y: h.x_to_y, amount: A(a), by_in: true, limit });
                if !ok {
                    let k = h.key.raw();
                    let (tin, tout) = if h.x_to_y { (k.token_x, k.token_y) } else { (k.token_y, k.token_x) };
                    let have = r.balances(user).unwrap_or_default();
                    let rich = have.get(&tin).map_or(false, |b| *b >= a);
                    let room = have.get(&tout).map_or(true, |b| b.bits() < 255);
                    return Err(rich && room && matches!(&out.end, Some(End::Panic(_))));
                }
                evs.extend(out.events.iter().map(|e| e.0.clone()));
                let res = out
                    .reply
                    .as_ref()
                    .and_then(|r| unroute("Swap", &r.payload).map(|b| b.to_vec()))
                    .and_then(|b| <SwapResult as parity_scale_codec::Decode>::decode(&mut &b[..]).ok());
                match res {
                    Some(s) => a = s.amount_out,
                    None => return Ok(Err("a swap gave no result".into())),
                }
            }
            Ok(observe(r.s, Some(&w), Depth::Light).map(|w| (w, a, evs)))
        })
    }

    /// All read-only views describe the same state.
    fn queries_agree(&mut self, size: u32, offset: u32) -> Result<(), String> {
        let w = observe(self.s, Some(&self.w), Depth::Full)?;
        if let Some(d) = diff(&self.w, &w).into_iter().next() {
            return Err(format!("re-read: {}", d.text));
        }
        let ck = |name: &str, ok: bool, msg: String| if ok { Ok(()) } else { Err(format!("{name}: {msg}")) };
        // pool keys, in pages
        let n = w.pool_keys.len();
        let (sz, off) = (size as u16, offset as u16 % (n as u16 + 2));
        let (page, total): (Vec<PoolKey>, u16) = self.s.ask(&Query::PoolKeys { size: sz, offset: off })?;
        let want: Vec<PoolKey> = w.pool_keys.iter().skip(off as usize).take(sz as usize).copied().collect();
        ck("GetPoolKeys", total as usize == n, format!("count {total}, {n} pools exist"))?;
        ck("GetPoolKeys", page == want, format!("page (size {sz}, offset {off}) is {page:?}, expected {want:?}"))?;
        for t in &w.fee_tiers {
            let e: bool = self.s.ask(&Query::FeeTierExists(*t))?;
            ck("FeeTierExists", e, format!("{t:?} is listed but does not exist"))?;
        }
        let odd = FeeTier { fee: 123_456_789, tick_spacing: 77 };
        let e: bool = self.s.ask(&Query::FeeTierExists(odd))?;
        ck("FeeTierExists", e == w.fee_tiers.contains(&odd), format!("{odd:?}"))?;

        for who in self.s.accounts() {
            let owner = Id::of(&who).unwrap();
            let all = w.pos(&who);
            let n = all.len() as u32;
            let c: u32 = self.s.ask(&Query::PositionAmount { owner })?;
            ck("GetUserPositionAmount", c == n, format!("{owner:?}: says {c}, owns {n}"))?;
            for i in 0..n {
                if n > 6 && i % 3 != offset % 3 {
                    continue;
                }
                let p = self.s.ask_result::<Position>(&Query::Position { owner, index: i })?;
                ck("GetPosition", p == Ok(all[i as usize].clone()), format!("{owner:?} {i}: {p:?}, listed as {:?}", all[i as usize]))?;
                let a = self.s.ask_result::<(Position, Pool, Tick, Tick)>(&Query::PositionWithAssociates { owner, index: i })?;
                let pos = &all[i as usize];
                let ps = w.pools.get(&pos.pool_key).ok_or("GetPosition: position in an unlisted pool")?;
                let want = (
                    pos.clone(),
                    ps.pool.clone(),
                    ps.ticks.get(&pos.lower_tick_index).cloned().ok_or("GetTick: lower tick of a position is missing")?,
                    ps.ticks.get(&pos.upper_tick_index).cloned().ok_or("GetTick: upper tick of a position is missing")?,
                );
                ck("GetPositionWithAssociates", a == Ok(want), format!("{owner:?} {i} disagrees with GetPool / GetTick"))?;
            }
            for i in [n, n + 1 + offset, u32::MAX] {
                let p = self.s.ask_result::<Position>(&Query::Position { owner, index: i })?;
                ck("GetPosition", p.is_err(), format!("{owner:?} {i}: exists beyond the end ({n})"))?;
            }
            if n == 0 && owner.0 > 12 {
                continue;
            }
            // pages of positions, grouped by pool
            let off = offset % (n + 1);
            type G = Vec<(Pool, Vec<(Position, u32)>)>;
            let g = self.s.ask_result::<(G, u32)>(&Query::Positions { owner, size, offset: off })?;
            let (groups, total) = g.map_err(|e| format!("GetPositions: error {e} for {owner:?}"))?;
            ck("GetPositions", total == n, format!("{owner:?}: total {total}, owns {n}"))?;
            let mut seen: BTreeMap<u32, Position> = BTreeMap::new();
            let mut keys = vec![];
            for (pool, ps) in &groups {
                ck("GetPositions", !ps.is_empty(), "an empty group".into())?;
                let k = ps[0].0.pool_key;
                ck("GetPositions", !keys.contains(&k), format!("{owner:?} (size {size}, offset {off}): {k:?} is listed twice"))?;
                keys.push(k);
                ck("GetPositions", ps.windows(2).all(|w| w[0].1 < w[1].1), format!("{owner:?} (size {size}, offset {off}): positions out of order"))?;
                ck("GetPositions", w.pools.get(&k).map(|p| &p.pool) == Some(pool), format!("group has another pool state than GetPool for {k:?}"))?;
                for (p, i) in ps {
                    ck("GetPositions", p.pool_key == k, "a group mixes pools".into())?;
                    ck("GetPositions", seen.insert(*i, p.clone()).is_none(), format!("index {i} twice"))?;
                }
            }
            let want: BTreeMap<u32, Position> = (off..n.min(off.saturating_add(size))).map(|i| (i, all[i as usize].clone())).collect();
            ck("GetPositions", seen == want, format!("{owner:?} (size {size}, offset {off}): indices {:?}, expected {:?}", seen.keys(), want.keys()))?;
            // ticks of positions
            let t: Vec<PositionTick> = self.s.ask(&Query::PositionTicks { owner, offset: off })?;
            let mut want = vec![];
            for p in all.iter().skip(off as usize) {
                for i in [p.lower_tick_index, p.upper_tick_index] {
                    let t = &w.pools[&p.pool_key].ticks[&i];
                    want.push(PositionTick {
                        index: t.index,
                        fee_growth_outside_x: t.fee_growth_outside_x,
                        fee_growth_outside_y: t.fee_growth_outside_y,
                        seconds_outside: t.seconds_outside,
                    });
                }
            }
            ck("GetPositionTicks", t == want, format!("{owner:?} offset {off}: {t:?}, expected {want:?}"))?;
        }
        for (k, ps) in &w.pools {
            let pk = Pk::of(k);
            let rev = self.s.ask_result::<Pool>(&Query::Pool { a: pk.y, b: pk.x, tier: pk.tier })?;
            ck("GetPool", rev.as_ref() == Ok(&ps.pool), format!("{k:?}: depends on the token order"))?;
            let s = k.fee_tier.tick_spacing as i32;
            let mut around: Vec<i32> = ps.ticks.keys().copied().collect();
            around.extend(ps.ticks.keys().flat_map(|i| [i + s, i - s]));
            around.push(ps.pool.current_tick_index);
            for i in around.into_iter().filter(|i| i.abs() <= rm::max_tick(k.fee_tier.tick_spacing)) {
                let b: bool = self.s.ask(&Query::TickInit { key: pk, index: i })?;
                let t = self.s.ask_result::<Tick>(&Query::Tick { key: pk, index: i })?;
                ck(
                    "IsTickInitialized",
                    b == t.is_ok() && b == ps.tickmap.contains(&i),
                    format!("{k:?} tick {i}: initialised {b}, stored {}, in the tickmap {}", t.is_ok(), ps.tickmap.contains(&i)),
                )?;
            }
            let order: Vec<i32> = ps.ticks.keys().rev().copied().collect();
            let l = self.s.ask_result::<Vec<LiquidityTick>>(&Query::LiquidityTicks { key: pk, ticks: order.clone() })?;
            let want: Vec<LiquidityTick> = order
                .iter()
                .map(|i| {
                    let t = &ps.ticks[i];
                    LiquidityTick { index: *i, liquidity_change: t.liquidity_change, sign: t.sign }
                })
                .collect();
            ck("GetLiquidityTicks", l == Ok(want), format!("{k:?}: {l:?}"))?;
            if let (Some(i), 4, 4) = (order.first(), size, offset) {
                // as many as the published limit allows
                for n in [TICK_LIMIT, TICK_LIMIT + 1] {
                    let l = self.s.ask_result::<Vec<LiquidityTick>>(&Query::LiquidityTicks { key: pk, ticks: vec![*i; n] })?;
                    let right = l.as_ref().map(|l| l.len() == n && l.iter().all(|t| t.index == *i));
                    ck("GetLiquidityTicks", right.unwrap_or(n > TICK_LIMIT), format!("{k:?}: a request for {n} ticks gives {:?}", l.map(|l| l.len())))?;
                }
            }
            let pp = self.s.ask_result::<Vec<(FeeTier, Pool)>>(&Query::PairPools { a: pk.x, b: pk.y })?;
            let want: Vec<(FeeTier, Pool)> = w
                .fee_tiers
                .iter()
                .filter_map(|t| {
                    let k2 = PoolKey { fee_tier: *t, ..*k };
                    w.pools.get(&k2).map(|p| (*t, p.pool.clone()))
                })
                .collect();
            ck("GetAllPoolsForPair", pp.as_ref() == Ok(&want), format!("{k:?}: {pp:?}"))?;
        }
        if size < 2 {
            self.queries_at_the_edge(&w)?;
        }
        Ok(())
    }

    /// What lies beyond every list, and what does not exist: an error, or the truth.
    fn queries_at_the_edge(&mut self, w: &World) -> Result<(), String> {
        let ck = |name: &str, ok: bool, msg: String| if ok { Ok(()) } else { Err(format!("{name}: {msg}")) };
        let m16 = u16::MAX;
        let n = w.pool_keys.len();
        for (size, offset) in [(m16, 0), (m16, 1), (m16 - 1, 2), (1, m16), (m16, m16), (256, m16 - 255), (m16 - n as u16 + 1, n as u16 - (n > 0) as u16)] {
            let Ok((page, total)) = self.s.ask::<(Vec<PoolKey>, u16)>(&Query::PoolKeys { size, offset }) else { continue };
            let want: Vec<PoolKey> = w.pool_keys.iter().skip(offset as usize).take(size as usize).copied().collect();
            ck("GetPoolKeys", page == want && total as usize == n, format!("size {size}, offset {offset}: {} of {total}, expected {} of {n}", page.len(), want.len()))?;
        }
        let m = u32::MAX;
        let mut who: Vec<Actor> = self.s.accounts().into_iter().filter(|a| !w.pos(a).is_empty()).take(2).collect();
        who.push(Id(199).raw());
        for a in who {
            let owner = Id::of(&a).unwrap_or(Id(199));
            let all = w.pos(&a);
            let n = all.len() as u32;
            for (size, offset) in [(m, 0), (m, 1), (m - 1, 2), (1, m), (m, m), (3, m - 2), (m - n + 1, n.saturating_sub(1)), (1, n), (5, n + 1), (256, m - 255)] {
                type G = Vec<(Pool, Vec<(Position, u32)>)>;
                let Ok(Ok((groups, total))) = self.s.ask_result::<(G, u32)>(&Query::Positions { owner, size, offset }) else { continue };
                let got: BTreeMap<u32, Position> = groups.iter().flat_map(|g| g.1.iter().map(|p| (p.1, p.0.clone()))).collect();
                let want: BTreeMap<u32, Position> = (offset..n.min(offset.saturating_add(size))).map(|i| (i, all[i as usize].clone())).collect();
                ck("GetPositions", got == want && total == n, format!("{owner:?} (size {size}, offset {offset}): indices {:?} of {total}, expected {:?} of {n}", got.keys(), want.keys()))?;
            }
            for offset in [n, n + 1, m - 1, m] {
                if let Ok(t) = self.s.ask::<Vec<PositionTick>>(&Query::PositionTicks { owner, offset }) {
                    ck("GetPositionTicks", t.is_empty(), format!("{owner:?} offset {offset} of {n}: {t:?}"))?;
                }
            }
            for index in [n, m] {
                if let Ok(Ok(t)) = self.s.ask_result::<(Position, Pool, Tick, Tick)>(&Query::PositionWithAssociates { owner, index }) {
                    ck("GetPositionWithAssociates", false, format!("{owner:?} {index} of {n}: {t:?}"))?;
                }
            }
        }
        // a pool that nobody created
        let k = w.pool_keys.first().copied();
        let base = k.map(|k| Pk::of(&k)).unwrap_or(Pk { x: Id(50), y: Id(51), tier: FeeTier { fee: 1, tick_spacing: 1 } });
        for (x, y, tier) in [
            (base.x, base.y, FeeTier { fee: 987_654_321, tick_spacing: base.tier.tick_spacing }),
            (base.x, base.y, FeeTier { fee: base.tier.fee, tick_spacing: base.tier.tick_spacing % 100 + 1 }),
            (base.y, base.x, base.tier),
            (base.x, Id(199), base.tier),
        ] {
            let key = Pk { x, y, tier };
            if w.pools.contains_key(&key.raw()) {
                continue;
            }
            let exists = key.sorted().map_or(false, |k| w.pools.contains_key(&k));
            if let Ok(Ok(p)) = self.s.ask_result::<Pool>(&Query::Pool { a: x, b: y, tier }) {
                ck("GetPool", exists, format!("nobody created {key:?}, but it is {p:?}"))?;
            }
            if exists {
                continue;
            }
            if let Ok(t) = self.s.ask::<Vec<(u16, u64)>>(&Query::Tickmap { key }) {
                ck("GetTickmap", t.iter().all(|c| c.1 == 0), format!("of a pool that nobody created: {t:?}"))?;
            }
            if let Ok(c) = self.s.ask::<u32>(&Query::LiquidityTicksAmount { key }) {
                ck("GetLiquidityTicksAmount", c == 0, format!("of a pool that nobody created: {c}"))?;
            }
            let at = k.and_then(|k| w.pools.get(&k)).and_then(|p| p.ticks.keys().next().copied()).unwrap_or(0);
            for i in [at, 0] {
                if let Ok(Ok(t)) = self.s.ask_result::<Tick>(&Query::Tick { key, index: i }) {
                    ck("GetTick", false, format!("of a pool that nobody created: {t:?}"))?;
                }
                if let Ok(b) = self.s.ask::<bool>(&Query::TickInit { key, index: i }) {
                    ck("IsTickInitialized", !b, format!("tick {i} of a pool that nobody created"))?;
                }
                if let Ok(Ok(t)) = self.s.ask_result::<Vec<LiquidityTick>>(&Query::LiquidityTicks { key, ticks: vec![i] }) {
                    ck("GetLiquidityTicks", t.is_empty(), format!("of a pool that nobody created: {t:?}"))?;
                }
            }
        }
        // ticks that cannot be
        if let Some((k, ps)) = w.pools.iter().next() {
            let key = Pk::of(k);
            for i in [i32::MAX, i32::MIN, rm::MAX_TICK + 1, -rm::MAX_TICK - 1] {
                if let Ok(Ok(t)) = self.s.ask_result::<Tick>(&Query::Tick { key, index: i }) {
                    ck("GetTick", false, format!("{i}: {t:?}"))?;
                }
            }
            let free = (0..).map(|i| i * k.fee_tier.tick_spacing as i32).find(|i| !ps.ticks.contains_key(i)).unwrap();
            if let Ok(Ok(t)) = self.s.ask_result::<Vec<LiquidityTick>>(&Query::LiquidityTicks { key, ticks: vec![free] }) {
                ck("GetLiquidityTicks", t.is_empty(), format!("tick {free} is not initialised: {t:?}"))?;
            }
            if let Ok(Ok(t)) = self.s.ask_result::<Vec<LiquidityTick>>(&Query::LiquidityTicks { key, ticks: vec![] }) {
                ck("GetLiquidityTicks", t.is_empty(), format!("asked for none: {t:?}"))?;
            }
        }
        Ok(())
    }
}
