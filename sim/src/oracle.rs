//! Runs ops one by one against the real program and judges every step.
use crate::chain::*;
use crate::machine::{End, Hash};
use crate::model::{self, Effect, Env};
use crate::refmath as rm;
use crate::types::*;
use crate::world::*;
use parity_scale_codec::Decode;
use primitive_types::{U256, U512};
use std::collections::{BTreeMap, BTreeSet};

pub const WAIT_BOUND: u32 = 100;

#[derive(Clone, Debug)]
pub struct Violation {
    pub prop: &'static str,
    pub step: usize,
    /// short stable name of what is wrong, used to recognise the same violation while shrinking
    pub sig: String,
    pub msg: String,
}

#[derive(Clone, Debug)]
pub struct Leg {
    pub req: Hash,
    pub token: Actor,
    pub account: Actor,
    pub amount: U256,
    pub says: Option<Says>,
    pub moved: bool,
    pub delivered: bool,
    pub due: U256,
    pub loose: bool,
}
#[derive(Clone, Debug)]
pub struct Async {
    pub withdrawal: bool,
    pub pair: bool,
    pub legs: Vec<Leg>,
    pub done: bool,
    pub body: Vec<u8>,
    pub started: u32,
    pub expired: bool,
}

#[derive(Default, Clone)]
pub struct Stats {
    pub ops: u64,
    pub ok: u64,
    pub refused: u64,
    pub skipped: u64,
    pub faults: BTreeMap<String, u64>,
    /// (what kind of step, signature): distinct situations reached
    pub sigs: BTreeSet<(u8, u64)>,
    pub hits: BTreeMap<u8, u64>,
    pub sim_ms: u64,
    pub blocks: u64,
    pub probes: BTreeMap<String, u64>,
    /// calls that the reference model refuses, by reason
    pub refusals: BTreeMap<String, u64>,
    pub corners: BTreeMap<&'static str, u64>,
    /// the largest sizes met
    pub extremes: BTreeMap<&'static str, u64>,
    pub evals: u64,
}
impl Stats {
    pub fn most(&mut self, k: &'static str, v: u64) {
        let e = self.extremes.entry(k).or_default();
        *e = v.max(*e);
    }
    pub fn merge(&mut self, o: &Stats) {
        self.ops += o.ops;
        self.ok += o.ok;
        self.refused += o.refused;
        self.skipped += o.skipped;
        self.sim_ms += o.sim_ms;
        self.blocks += o.blocks;
        self.evals += o.evals;
        for (k, v) in &o.faults {
            *self.faults.entry(k.clone()).or_default() += v;
        }
        for (k, v) in &o.corners {
            *self.corners.entry(k).or_default() += v;
        }
        for (k, v) in &o.extremes {
            self.most(k, *v);
        }
        for (k, v) in &o.refusals {
            *self.refusals.entry(k.clone()).or_default() += v;
        }
        for (k, v) in &o.probes {
            *self.probes.entry(k.clone()).or_default() += v;
        }
        self.sigs.extend(&o.sigs);
        for (k, v) in &o.hits {
            *self.hits.entry(*k).or_default() += v;
        }
    }
    pub fn sig(&mut self, tag: u8, parts: &[u64]) {
        self.sigs.insert((tag, h(parts)));
        *self.hits.entry(tag).or_default() += 1;
    }
    pub fn fault(&mut self, k: &str) {
        if let Some(v) = self.faults.get_mut(k) {
            *v += 1
        } else {
            self.faults.insert(k.into(), 1);
        }
    }
}
fn h(parts: &[u64]) -> u64 {
    let mut a = 0xcbf29ce484222325u64;
    for p in parts {
        a = (a ^ p).wrapping_mul(0x100000001b3);
        a ^= a >> 31;
    }
    a
}

pub struct Runner<'a> {
    pub s: &'a mut Sim,
    pub w: World,
    pub asyncs: BTreeMap<usize, Async>,
    pub reqs: BTreeMap<Hash, (usize, usize)>,
    pub v: Vec<Violation>,
    pub stats: Stats,
    pub step: usize,
    /// tokens inside pools (in - out of every call that is not a token transfer), per token
    pub reserve_in: BTreeMap<Actor, U512>,
    pub reserve_out: BTreeMap<Actor, U512>,
    /// native value that arrived with calls that are not VARA deposits
    pub stray_native: u128,
    pub in_epilogue: bool,
    /// properties whose violations are wanted; empty = all
    pub want: Option<&'static str>,
}

fn kind(c: &Call) -> u64 {
    match c {
        Call::Query(_) => 50,
        Call::Raw(_) => 51,
        c => c.method().bytes().fold(7u64, |a, b| a.wrapping_mul(31).wrapping_add(b as u64)) | 1 << 40,
    }
}
/// The property a call's own effect belongs to.
pub fn home(c: &Call) -> &'static str {
    match c {
        Call::ChangeProtocolFee(_) | Call::ChangeFeeReceiver { .. } => "P20",
        Call::AddFeeTier(_) | Call::RemoveFeeTier(_) | Call::CreatePool { .. } => "P21",
        Call::CreatePosition { .. } | Call::RemovePosition { .. } => "P27",
        Call::TransferPosition { .. } => "P19",
        Call::ClaimFee { .. } => "P14",
        Call::Swap { .. } => "P10",
        Call::SwapRoute { .. } => "P25",
        Call::WithdrawProtocolFee { .. } => "P15",
        Call::DepositVara | Call::WithdrawVara(_) => "P07",
        Call::Deposit { .. } => "P02",
        Call::Withdraw { .. } => "P03",
        Call::DepositPair { .. } | Call::WithdrawPair { .. } => "P04",
        Call::Query(_) => "P17",
        Call::Raw(_) => "P06",
    }
}
fn is_admin_call(c: &Call) -> bool {
    matches!(
        c,
        Call::ChangeProtocolFee(_)
            | Call::ChangeFeeReceiver { .. }
            | Call::AddFeeTier(_)
            | Call::RemoveFeeTier(_)
    )
}

/// Which properties a wrong state component breaks.
pub fn owners(call: Option<&Call>, me: Option<&Actor>, d: &Diff) -> Vec<&'static str> {
    let own = match (d.who, me) {
        (Some(w), Some(m)) => &w == m,
        _ => false,
    };
    let hm = call.map(home);
    let mut o: Vec<&'static str> = vec![];
    let is_swap = matches!(call, Some(Call::Swap { .. }) | Some(Call::SwapRoute { .. }));
    match d.f {
        F::Balance => {
            if d.token == Some(Actor::default()) && !is_swap {
                o.push("P07");
            }
            if own {
                o.extend(hm);
                if is_swap {
                    o.push("P10");
                }
                if matches!(call, Some(Call::RemovePosition { .. })) {
                    o.push("P11");
                    o.push("P14");
                }
                if matches!(call, Some(Call::ClaimFee { .. })) {
                    o.push("P11");
                }
                if let Some(c) = call {
                    if c.is_async() {
                        o.push(match c {
                            Call::Deposit { .. } | Call::DepositPair { .. } => "P02",
                            _ => "P03",
                        });
                    }
                }
            } else {
                o.push("P09");
                o.extend(hm);
            }
        }
        F::Price => {
            o.push("P13");
            if is_swap {
                o.push("P10");
            }
        }
        F::Liquidity => {
            o.push("P12");
            if is_swap {
                o.push("P10")
            }
        }
        F::Growth | F::TickGrowth | F::PosFees => {
            o.push("P14");
            if d.f == F::PosFees && own && matches!(call, Some(Call::ClaimFee { .. })) {
                o.push("P11");
            }
        }
        F::ProtoFees => o.push("P15"),
        F::PoolTime | F::TickTime | F::PosBlock => o.push("P24"),
        F::Receiver => {
            o.push("P20");
            o.push("P15");
        }
        F::TickSet | F::TickLiq | F::TickPrice => o.push("P12"),
        F::Tickmap => {
            o.push("P12");
        }
        F::TickCount => o.push("P22"),
        F::PosShape | F::PosList => {
            o.push("P19");
            if !own && !matches!(call, Some(Call::TransferPosition { .. })) {
                o.push("P09");
            }
        }
        F::Registry => o.push("P21"),
        F::FeeConfig => o.push("P20"),
        F::Events => o.push("P23"),
        F::Native => o.push("P07"),
        F::Requests => {
            o.extend(hm);
            o.push("P01");
        }
        F::Reply => {
            o.extend(hm);
            if is_swap {
                o.push("P10");
            }
        }
        F::Query => {
            o.push("P22");
            o.extend(hm);
        }
        F::Outcome => {
            o.extend(hm);
            if is_swap {
                o.push("P10");
            }
        }
    }
    match call {
        // a new pool is as its creator asked for; a tier is what the administrator made it
        Some(Call::CreatePool { .. }) => o.push("P21"),
        Some(Call::AddFeeTier(_) | Call::RemoveFeeTier(_)) => o.push("P20"),
        _ => {}
    }
    o.sort();
    o.dedup();
    o
}

impl<'a> Runner<'a> {
    pub fn new(s: &'a mut Sim) -> Result<Runner<'a>, String> {
        let w = observe(s, None, Depth::Full)?;
        Ok(Runner {
            s,
            w,
            asyncs: BTreeMap::new(),
            reqs: BTreeMap::new(),
            v: vec![],
            stats: Stats::default(),
            step: 0,
            reserve_in: BTreeMap::new(),
            reserve_out: BTreeMap::new(),
            stray_native: 0,
            in_epilogue: false,
            want: None,
        })
    }
    fn depth(&self, call: Option<&Call>) -> Depth {
        if self.step % 10 == 9 || self.want == Some("P30") && self.step % 3 == 1 {
            return Depth::Full;
        }
        match call {
            Some(Call::CreatePosition { key, .. }) => Depth::Pool(key.raw()),
            Some(Call::RemovePosition { index }) => {
                let me = self.s.c.clients.last().map(|c| c.user.raw()).unwrap_or_default();
                self.w.pos(&me).get(*index as usize).map_or(Depth::Full, |p| Depth::Pool(p.pool_key))
            }
            _ => Depth::Light,
        }
    }
    pub fn bad(&mut self, prop: &'static str, sig: impl Into<String>, msg: impl Into<String>) {
        if let Some(w) = self.want {
            if w != prop {
                return;
            }
        }
        self.v.push(Violation { prop, step: self.step, sig: sig.into(), msg: msg.into() });
    }
    fn report(&mut self, call: Option<&Call>, me: Option<&Actor>, d: Diff) {
        let k = call.map(|c| c.method()).unwrap_or("token reply");
        for p in owners(call, me, &d) {
            self.bad(p, format!("{k}/{:?}", d.f), format!("after {k}: {}", d.text));
        }
        if call.is_none() && d.pool.is_some() {
            self.bad("P30", format!("{k}/{:?}", d.f), format!("after {k}: {}", d.text));
        }
        if call.is_none() && matches!(d.f, F::Balance) {
            self.bad("P06", format!("{k}/{:?}", d.f), format!("after {k}: {}", d.text));
        }
    }

    pub fn exec(&mut self, op: &Op) -> StepOut {
        self.stats.ops += 1;
        let out = match op {
            Op::Call { user, call, gas, value } => self.exec_call(op, *user, call, *gas, value.0),
            Op::Reply { .. } => self.exec_reply(op),
            Op::Woken { .. } => self.exec_woken(op),
            Op::Token { .. } => {
                let out = self.s.step(op);
                if let Some(r) = &out.req {
                    if let Some((ci, li)) = self.reqs.get(&r.id).copied() {
                        let l = &mut self.asyncs.get_mut(&ci).unwrap().legs[li];
                        let v = &r.reply.as_ref().unwrap().2;
                        l.says = Some(v.says);
                        l.moved = v.moved;
                    }
                }
                out
            }
            Op::Blocks { n, ms } => {
                self.stats.blocks += *n as u64;
                self.stats.sim_ms += ms;
                self.s.step(op)
            }
            Op::Probe(p) => {
                self.probe(p);
                StepOut::default()
            }
            _ => self.s.step(op),
        };
        for (sig, msg) in &out.token_wrong {
            self.bad("P29", format!("token/{sig}"), msg.clone());
        }
        if let Op::Vft { call, user, gas, .. } = op {
            if let Some(end) = &out.end {
                let role = (*user == ADMIN) as u64;
                let name = call.method();
                self.stats.sig(29, &[name.len() as u64 * 256 + name.as_bytes()[name.len() / 2] as u64, end.failed() as u64, role, (*gas != 0) as u64]);
            }
        }
        if out.skipped {
            self.stats.skipped += 1;
        } else {
            self.stats.evals += 1;
            self.solvency();
            self.sizes(op);
        }
        self.step += 1;
        out
    }

    fn sizes(&mut self, op: &Op) {
        let longest = self.w.positions.values().map(|v| v.len()).max().unwrap_or(0) as u64;
        let busiest = self.w.pools.values().map(|p| p.ticks.len()).max().unwrap_or(0) as u64;
        let (pools, tiers) = (self.w.pool_keys.len() as u64, self.w.fee_tiers.len() as u64);
        let out = self.s.c.waiting.len() as u64;
        let st = &mut self.stats;
        st.most("positions of one owner", longest);
        st.most("ticks of one pool", busiest);
        st.most("pools", pools);
        st.most("fee tiers", tiers);
        st.most("token calls waiting at once", out);
        if let Op::Call { call: Call::SwapRoute { hops, .. }, .. } = op {
            st.most("hops of a route", hops.len() as u64);
        }
    }

    fn exec_call(&mut self, op: &Op, user: Id, call: &Call, gas: u64, value: u128) -> StepOut {
        let me = user.raw();
        let value = value.min(self.s.c.native.get(&me).copied().unwrap_or(0));
        let env = Env { caller: me, now: self.s.c.now, height: self.s.c.height, value };
        let mut exp = self.w.clone();
        model::CORNERS.with(|c| *c.borrow_mut() = Some(std::mem::take(&mut self.stats.corners)));
        let r = model::apply(&mut exp, &env, call);
        self.stats.corners = model::CORNERS.with(|c| c.borrow_mut().take()).unwrap_or_default();
        let quote = match call {
            Call::Swap { key, x_to_y, amount, by_in, limit } => Some(self.s.ask_result::<QuoteResult>(&Query::Quote {
                key: *key,
                x_to_y: *x_to_y,
                amount: *amount,
                by_in: *by_in,
                limit: *limit,
            })),
            _ => None,
        };
        let route = match call {
            Call::SwapRoute { amount, hops, .. } if gas == 0 => {
                let q = self.s.ask_result::<U256>(&Query::QuoteRoute { amount: *amount, hops: hops.clone() });
                Some((self.route_as_swaps(user, amount.0, hops), q))
            }
            _ => None,
        };
        let sdk = matches!(self.want, None | Some("P18")) && crate::sdk::SDK.get().is_some();
        let forecast = sdk.then(|| self.forecast(user, call, quote.as_ref()));
        let native_before = self.s.c.native.get(&me).copied().unwrap_or(0);
        let program_before = self.s.c.program_native;
        let state_before = self.s.c.state.clone();
        let out = self.s.step(op);
        let end = out.end.clone().unwrap();
        let failed = end.failed() || end == End::Exit;
        let native_after = self.s.c.native.get(&me).copied().unwrap_or(0);
        self.signature(call, &r, failed, &end, gas);

        if let Some(f) = forecast {
            self.judge_sdk(f, user, call, quote.as_ref(), failed, gas != 0, out.reply.as_ref());
        }
        if let Some(q) = quote {
            self.judge_quote(call, q, &r, &out, failed, gas != 0);
        }
        if let Some((seq, q)) = route {
            self.judge_route(call, seq, q, &out, failed);
        }
        if failed {
            self.stats.refused += 1;
            if out.signal_end.is_some() {
                // the platform's clean-up message ran: it must not change the books
                self.stats.fault("system signal delivered");
                if self.s.c.state != state_before {
                    let before = self.w.clone();
                    self.compare_unchanged(&before, None, "P08");
                } else {
                    self.stats.fault("system signal without effect");
                }
            }
            if let Err(why) = &r {
                *self.stats.refusals.entry(format!("{}: {why}", call.method())).or_default() += 1;
            }
            match &r {
                Ok(_) if gas == 0 && !matches!(call, Call::Query(_)) => {
                    if end == End::OutOfGas && r.as_ref().unwrap().steps > 40 {
                        // a long walk over empty price space may cost more than a block
                    } else {
                        self.unexpected_failure(call, &env, &format!("{end:?}"));
                    }
                }
                _ => {}
            }
            if native_after != native_before || self.s.c.program_native != program_before {
                self.bad("P07", "value kept by a failed call", "value of a failed call was not returned");
            }
            return out;
        }
        self.stats.ok += 1;
        let depth = self.depth(Some(call));
        let got = match observe(self.s, Some(&self.w), depth) {
            Ok(g) => g,
            Err(e) => {
                self.report(Some(call), Some(&me), Diff::new(F::Query, e));
                return out;
            }
        };
        for s in &out.strange {
            self.bad("P08", "strange", s.clone());
        }
        match r {
            Err(why) if why == "too many steps" => {}
            Err(why) => {
                self.unexpected_success(call, &env, why, &got, out.reply.as_ref());
                self.other_pools_untouched(call, &me, &got);
                if !out.events.is_empty() {
                    let msg = format!("{} must be refused ({why}), but emitted {:?}", call.method(), out.events.iter().map(|e| &e.0).collect::<Vec<_>>());
                    self.bad("P23", format!("{}/events of a refused call", call.method()), msg.clone());
                    self.bad("P08", format!("{}/events of a refused call", call.method()), msg);
                }
                // whatever it did, nobody else may be touched
                self.strangers_untouched(call, &me, &got);
            }
            Ok(fx) => {
                self.stats.most("ticks crossed by one call", fx.crossed as u64);
                if fx.steps <= 40 {
                    self.stats.most("millions of gas for one call of at most 40 swap steps", out.gas_used / 1_000_000);
                }
                let ds = diff(&exp, &got);
                for d in ds {
                    self.report(Some(call), Some(&me), d);
                }
                self.strangers_untouched(call, &me, &got);
                self.other_pools_untouched(call, &me, &got);
                self.judge_effect(call, &env, &fx, &out, native_before, native_after, program_before);
            }
        }
        self.guards(call, &me, &got, &out);
        self.book_reserve(call, &got);
        self.surplus_kept(call, &me, &got);
        self.worth_kept(call, &me, &exp, &got);
        if !matches!(call, Call::DepositVara) {
            self.stray_native += env.value;
        }
        self.w = got;
        self.invariants();
        // the first half of a token call
        if call.is_async() {
            self.start_async(call, &env, &out);
        } else if out.parked {
            self.bad("P05", "parked", format!("{} is waiting for something", call.method()));
        }
        out
    }

    fn signature(&mut self, call: &Call, r: &Result<Effect, &'static str>, failed: bool, end: &End, gas: u64) {
        let (a, b, c) = match r {
            Ok(f) => (1u64, f.crossed.min(6) as u64, f.steps.min(8) as u64),
            Err(e) => (0, e.len() as u64 * 131 + e.as_bytes()[0] as u64, 0),
        };
        let extra = match call {
            Call::Swap { x_to_y, by_in, .. } => 1 + *x_to_y as u64 * 2 + *by_in as u64 * 4,
            Call::SwapRoute { hops, .. } => hops.len().min(5) as u64,
            Call::CreatePosition { key, lower, upper, .. } => self.w.pools.get(&key.raw()).map_or(0, |p| {
                let c = p.pool.current_tick_index;
                1 + (c < *lower) as u64
                    + 2 * (c >= *upper) as u64
                    + 4 * p.ticks.contains_key(lower) as u64
                    + 8 * p.ticks.contains_key(upper) as u64
                    + 16 * (c == *lower) as u64
                    + 32 * (c == *upper) as u64
                    + 64 * p.pool.liquidity.is_zero() as u64
            }),
            _ => 0,
        };
        let pend = (self.s.c.waiting.len().min(3) + 4 * self.s.c.woken.len().min(3)) as u64;
        let tag = home(call)[1..].parse::<u8>().unwrap();
        self.stats.sig(tag, &[
            kind(call),
            a,
            b,
            c,
            failed as u64,
            matches!(end, End::OutOfGas) as u64,
            extra,
            pend,
            (gas != 0) as u64,
            self.w.pools.len().min(4) as u64,
        ]);
    }

    fn unexpected_failure(&mut self, call: &Call, env: &Env, end: &str) {
        let m = call.method();
        let msg = format!("{m} by {} must succeed, but failed: {end}", name(&env.caller));
        let sig = format!("{m}/unexpected failure");
        let mut ps = vec![home(call)];
        match call {
            Call::RemovePosition { .. } => ps.push("P11"),
            Call::ClaimFee { .. } => ps.push("P11"),
            Call::SwapRoute { .. } => ps.push("P10"),
            Call::CreatePosition { .. } => ps.push("P12"),
            Call::AddFeeTier(_) | Call::RemoveFeeTier(_) => ps.push("P20"),
            _ => {}
        }
        if call.is_async() {
            ps.push("P05");
        }
        for p in ps {
            self.bad(p, sig.clone(), msg.clone());
        }
    }
    fn unexpected_success(&mut self, call: &Call, env: &Env, why: &'static str, got: &World, reply: Option<&ClientReply>) {
        let m = call.method();
        let changed = diff(&self.w, got);
        let told_ok = reply.map_or(true, |r| !r.is_error());
        let msg = format!(
            "{m} by {} must be refused ({why}), but it was accepted{}",
            name(&env.caller),
            changed.first().map(|d| format!(" and changed the state: {}", d.text)).unwrap_or_default()
        );
        let sig = format!("{m}/accepted: {why}");
        let mut ps = vec![];
        if !changed.is_empty() || !self.s.c.reqs.is_empty() && call.is_async() {
            ps.push("P08");
        }
        if told_ok || !changed.is_empty() {
            ps.push(home(call));
            match (call, why) {
                (_, "not admin") => ps.push("P20"),
                (_, "VARA is not a token program") => ps.push("P07"),
                (_, "not the fee receiver") => ps.push("P20"),
                (_, "no such position") => ps.push("P19"),
                (Call::CreatePosition { .. }, "slippage limit") => ps.push("P16"),
                (Call::CreatePosition { .. }, "invalid tick" | "empty tick range" | "liquidity per tick limit" | "zero liquidity") => ps.push("P12"),
                (Call::CreatePosition { .. }, "not enough x" | "not enough y") => ps.push("P01"),
                (Call::Swap { .. }, "wrong limit" | "price limit reached" | "no gain") => ps.push("P16"),
                (Call::SwapRoute { .. }, "below the minimum amount out") => ps.push("P16"),
                (Call::SwapRoute { .. }, _) => ps.push("P10"),
                (_, "not enough balance to swap" | "not enough balance" | "not enough VARA") => ps.push("P01"),
                _ => {}
            }
            if matches!(call, Call::SwapRoute { .. } | Call::Swap { .. }) && why == "not enough balance to swap" {
                ps.push("P01");
            }
        }
        ps.sort();
        ps.dedup();
        for p in ps {
            self.bad(p, sig.clone(), msg.clone());
        }
    }
    /// The pools a call is about.
    fn pools_of(&self, call: &Call, me: &Actor) -> Vec<PoolKey> {
        let held = |i: u32| self.w.pos(me).get(i as usize).map(|p| p.pool_key).into_iter().collect();
        match call {
            Call::Swap { key, .. }
            | Call::CreatePosition { key, .. }
            | Call::WithdrawProtocolFee { key }
            | Call::ChangeFeeReceiver { key, .. } => vec![key.raw()],
            Call::CreatePool { a, b, tier, .. } => {
                let (a, b) = (a.raw(), b.raw());
                vec![PoolKey { token_x: a.min(b), token_y: a.max(b), fee_tier: *tier }]
            }
            Call::SwapRoute { hops, .. } => hops.iter().map(|h| h.key.raw()).collect(),
            Call::RemovePosition { index } | Call::ClaimFee { index } => held(*index),
            Call::TransferPosition { index, .. } => held(*index),
            _ => vec![],
        }
    }
    /// Independent of the model: a call about one pool changes no other pool and no position there.
    fn other_pools_untouched(&mut self, call: &Call, me: &Actor, got: &World) {
        if !matches!(self.want, None | Some("P30")) {
            return;
        }
        let same = self.w.positions == got.positions;
        let mine = self.pools_of(call, me);
        let mut alike = 0;
        let mut seen = 0;
        let mut wrong = vec![];
        for (k, a) in &self.w.pools {
            if mine.contains(k) {
                continue;
            }
            seen += 1;
            if mine.iter().any(|m| (m.token_x, m.token_y) == (k.token_x, k.token_y)) {
                alike += 1;
            }
            match got.pools.get(k) {
                None => wrong.push(("pool", format!("{k:?} is gone"))),
                Some(b) => {
                    if a.pool != b.pool {
                        wrong.push(("pool", format!("{k:?}: {:?} -> {:?}", a.pool, b.pool)));
                    }
                    let set: BTreeSet<&i32> = a.ticks.keys().chain(b.ticks.keys()).collect();
                    for i in set {
                        let (t, u) = (a.ticks.get(i).map(|t| t.norm()), b.ticks.get(i).map(|t| t.norm()));
                        if t != u {
                            wrong.push(("tick", format!("{k:?} tick {i}: {t:?} -> {u:?}")));
                        }
                    }
                    if a.tickmap != b.tickmap || a.count != b.count {
                        wrong.push(("bitmap", format!("{k:?}: {:?} ({}) -> {:?} ({})", a.tickmap, a.count, b.tickmap, b.count)));
                    }
                }
            }
            if same {
                continue;
            }
            // positions may change hands, and places in their owner's list, but not otherwise
            let all = |w: &World| {
                let mut v: Vec<String> =
                    w.positions.values().flatten().filter(|p| p.pool_key == *k).map(|p| format!("{p:?}")).collect();
                v.sort();
                v
            };
            let (a, b) = (all(&self.w), all(got));
            if a != b {
                wrong.push(("position", format!("the positions of {k:?}: {a:?} -> {b:?}")));
            }
        }
        if !mine.is_empty() {
            self.stats.sig(30, &[kind(call), mine.len().min(4) as u64, seen.min(6), alike.min(3)]);
        }
        for (what, t) in wrong {
            self.bad("P30", format!("{}/another pool: {what}", call.method()), format!("{} changed another pool: {t}", call.method()));
        }
    }
    /// Independent of the model: a call by one account changes no other account's balances or positions.
    fn strangers_untouched(&mut self, call: &Call, me: &Actor, got: &World) {
        let accounts = self.s.accounts();
        for a in accounts {
            if &a == me {
                continue;
            }
            let e = BTreeMap::new();
            let (b0, b1) = (self.w.balances.get(&a).unwrap_or(&e), got.balances.get(&a).unwrap_or(&e));
            if b0 != b1 {
                let msg = format!(
                    "{} by {} changed balances of {}: {:?} -> {:?}",
                    call.method(),
                    name(me),
                    name(&a),
                    b0.iter().map(|(t, v)| (name(t), v)).collect::<Vec<_>>(),
                    b1.iter().map(|(t, v)| (name(t), v)).collect::<Vec<_>>()
                );
                self.bad("P09", format!("{}/foreign balance", call.method()), msg);
            }
            let (p0, p1) = (self.w.pos(&a), got.pos(&a));
            if p0 != p1 {
                let gift = matches!(call, Call::TransferPosition { to, .. } if to.raw() == a)
                    && p1.len() == p0.len() + 1
                    && &p1[..p0.len()] == p0;
                if !gift {
                    let msg = format!("{} by {} changed positions of {}", call.method(), name(me), name(&a));
                    self.bad("P09", format!("{}/foreign position", call.method()), msg);
                }
            }
        }
    }

    fn judge_effect(
        &mut self,
        call: &Call,
        env: &Env,
        fx: &Effect,
        out: &StepOut,
        native_before: u128,
        native_after: u128,
        program_before: u128,
    ) {
        let me = env.caller;
        let m = call.method();
        // requests
        let mut reqs = vec![];
        for i in &out.new_reqs {
            let r = &self.s.c.reqs[*i];
            match r.transfer {
                Some((f, t, a)) if r.value == 0 => reqs.push((r.token, f, t, a)),
                _ => {
                    let d = Diff::new(F::Requests, format!("unexpected message to {}", name(&r.token)));
                    self.report(Some(call), Some(&me), d);
                }
            }
        }
        let mut asked = reqs.clone();
        asked.sort();
        let mut due = fx.requests.clone();
        due.sort();
        if asked != due {
            let f = |v: &[(Actor, Actor, Actor, U256)]| {
                v.iter()
                    .map(|(t, f, o, a)| format!("{}: {} -> {} {a}", name(t), name(f), name(o)))
                    .collect::<Vec<_>>()
                    .join("; ")
            };
            let d = Diff::new(F::Requests, format!("token transfers asked for: expected [{}], got [{}]", f(&fx.requests), f(&reqs)));
            self.report(Some(call), Some(&me), d);
        }
        // events
        let ev: Vec<Event> = out.events.iter().map(|e| e.0.clone()).collect();
        if ev != fx.events {
            let d = Diff::new(F::Events, format!("events: expected {:?}, got {:?}", fx.events, ev));
            self.report(Some(call), Some(&me), d);
        }
        // reply
        if let Some(body) = &fx.reply {
            match &out.reply {
                None => {
                    let msg = format!("{m} was not answered");
                    self.bad("P05", format!("{m}/no reply"), msg.clone());
                    self.report(Some(call), Some(&me), Diff::new(F::Reply, msg));
                }
                Some(r) => {
                    let same = !r.is_error()
                        && match unroute(m, &r.payload) {
                            None => false,
                            Some(b) => match call {
                                Call::Swap { .. } => match SwapResult::decode(&mut &b[..]) {
                                    Ok(mut x) => {
                                        let mut y = fx.swaps[0].clone();
                                        x.ticks = x.ticks.iter().map(|t| t.norm()).collect();
                                        y.ticks = y.ticks.iter().map(|t| t.norm()).collect();
                                        x == y
                                    }
                                    _ => false,
                                },
                                _ => b == &body[..],
                            },
                        };
                    if !same {
                        let d = Diff::new(
                            F::Reply,
                            format!("answer: expected {:02x?}, got {:02x?} (code {:?})", body, r.payload, r.code),
                        );
                        self.report(Some(call), Some(&me), d);
                    }
                    if r.value != fx.reply_value {
                        let d = Diff::new(F::Native, format!("native value paid out: expected {}, got {}", fx.reply_value, r.value));
                        self.report(Some(call), Some(&me), d);
                    }
                }
            }
            if native_after != native_before - env.value + fx.reply_value
                || self.s.c.program_native != program_before + env.value - fx.reply_value
            {
                let d = Diff::new(F::Native, "native balances moved by another amount than the call says".into());
                self.report(Some(call), Some(&me), d);
            }
        } else if matches!(call, Call::Query(_)) {
            // queries as ordinary messages: answered, no effect (state compared by the caller)
            if out.reply.as_ref().map_or(true, |r| r.is_error()) {
                self.bad("P05", "query/no reply", format!("query {m} was not answered"));
            }
        } else if let Some(r) = &out.reply {
            // token call answered before its tokens did
            let msg = format!("{m} was answered ({:02x?}) before the token transfer was decided", r.payload);
            self.bad(home(call), format!("{m}/early answer"), msg);
        } else if !out.parked {
            self.bad("P05", format!("{m}/lost"), format!("{m} neither answered nor waits"));
        }
    }

    /// Protections stated by the caller, checked without the model.
    fn guards(&mut self, call: &Call, me: &Actor, got: &World, out: &StepOut) {
        match call {
            Call::Swap { key, x_to_y, amount, by_in, limit } => {
                let k = key.raw();
                let (Some(a), Some(b)) = (self.w.pools.get(&k), got.pools.get(&k)) else { return };
                let (p0, p1) = (a.pool.sqrt_price, b.pool.sqrt_price);
                let (tin, tout) = if *x_to_y { (k.token_x, k.token_y) } else { (k.token_y, k.token_x) };
                let paid = self.w.bal(me, &tin).checked_sub(got.bal(me, &tin));
                let recv = got.bal(me, &tout).checked_sub(self.w.bal(me, &tout));
                let within = if *x_to_y { p1 >= limit.0 && p1 <= p0 } else { p1 <= limit.0 && p1 >= p0 };
                if !within {
                    self.bad("P16", "swap/price beyond the limit", format!("swap (x_to_y={x_to_y}) moved the price {p0} -> {p1} with limit {limit:?}"));
                }
                match (paid, recv) {
                    (Some(paid), Some(recv)) => {
                        if *by_in && paid != amount.0 {
                            self.bad("P16", "swap/amount in", format!("swap of exactly {amount} in took {paid}"));
                        }
                        if !*by_in && recv != amount.0 {
                            self.bad("P16", "swap/amount out", format!("swap for exactly {amount} out paid {recv}"));
                        }
                        if recv.is_zero() {
                            self.bad("P16", "swap/no gain", "swap accepted although it pays nothing out".to_string());
                        }
                    }
                    _ => self.bad("P10", "swap/direction", "swap moved balances in the wrong direction".to_string()),
                }
            }
            Call::SwapRoute { expected, slippage, hops, amount } => {
                let (Some(f), Some(l)) = (hops.first(), hops.last()) else { return };
                let (fk, lk) = (f.key.raw(), l.key.raw());
                let tin = if f.x_to_y { fk.token_x } else { fk.token_y };
                let tout = if l.x_to_y { lk.token_y } else { lk.token_x };
                let said = out
                    .reply
                    .as_ref()
                    .and_then(|r| unroute("SwapRoute", &r.payload))
                    .and_then(|b| U256::decode(&mut &b[..]).ok());
                let min = rm::PCT.checked_sub(slippage.0).and_then(|k| rm::mul_pct_up(expected.0, k));
                if let (Some(s), Some(min)) = (said, min) {
                    if s < min {
                        self.bad("P16", "route/min out", format!("route accepted {s} out, below the minimum {min}"));
                    }
                    if tin != tout {
                        let recv = got.bal(me, &tout).checked_sub(self.w.bal(me, &tout));
                        let simple = hops[..hops.len() - 1].iter().all(|h| {
                            let k = h.key.raw();
                            k.token_x != tout && k.token_y != tout
                        });
                        if simple && recv != Some(s) {
                            self.bad("P16", "route/paid out", format!("route says {s} out, balance moved by {recv:?}"));
                        }
                        let paid = self.w.bal(me, &tin).checked_sub(got.bal(me, &tin));
                        let once = hops[1..].iter().all(|h| {
                            let k = h.key.raw();
                            k.token_x != tin && k.token_y != tin
                        });
                        if once && paid != Some(amount.0) {
                            self.bad("P16", "route/paid in", format!("route of exactly {amount} in took {paid:?}"));
                        }
                    }
                }
            }
            Call::CreatePosition { key, lo, hi, .. } => {
                if let Some(p) = self.w.pools.get(&key.raw()) {
                    let s = p.pool.sqrt_price;
                    if s < lo.0 || s > hi.0 {
                        self.bad("P16", "position/slippage", format!("position opened at {s}, outside [{lo:?}, {hi:?}]"));
                    }
                }
            }
            _ => {}
        }
        if is_admin_call(call) && me != &ADMIN.raw() {
            let a = (&self.w.protocol_fee, &self.w.fee_tiers);
            let b = (&got.protocol_fee, &got.fee_tiers);
            let ra: Vec<_> = self.w.pools.iter().map(|(k, p)| (k, p.pool.fee_receiver)).collect();
            let rb: Vec<_> = got.pools.iter().map(|(k, p)| (k, p.pool.fee_receiver)).collect();
            if a != b || ra != rb {
                self.bad("P20", format!("{}/by a stranger", call.method()), format!("{} by {} took effect", call.method(), name(me)));
            }
        }
    }

    fn judge_quote(
        &mut self,
        call: &Call,
        q: Result<Result<QuoteResult, u8>, String>,
        r: &Result<Effect, &'static str>,
        out: &StepOut,
        failed: bool,
        low_gas: bool,
    ) {
        let q = match q {
            // an arithmetic overflow traps in both
            Err(e) => {
                if !failed {
                    self.bad("P17", "quote/trap", format!("quote fails ({e}) but the same swap succeeds"));
                }
                return;
            }
            Ok(q) => q,
        };
        match (q, failed) {
            (Err(c), false) => {
                self.bad("P17", "quote/refuses", format!("quote answers error {c} but the same swap succeeds"));
            }
            (Ok(q), false) => {
                let rep = out
                    .reply
                    .as_ref()
                    .and_then(|r| unroute("Swap", &r.payload))
                    .and_then(|b| SwapResult::decode(&mut &b[..]).ok());
                if let Some(s) = rep {
                    let n = |t: &[Tick]| t.iter().map(|t| t.norm()).collect::<Vec<_>>();
                    if (q.amount_in, q.amount_out, q.target_sqrt_price) != (s.amount_in, s.amount_out, s.target_sqrt_price)
                        || n(&q.ticks) != n(&s.ticks)
                    {
                        self.bad(
                            "P17",
                            "quote/differs",
                            format!(
                                "quote (in {}, out {}, price {}) but the swap did (in {}, out {}, price {})",
                                q.amount_in, q.amount_out, q.target_sqrt_price, s.amount_in, s.amount_out, s.target_sqrt_price
                            ),
                        );
                    }
                }
            }
            (Ok(q), true) => {
                if let (Call::Swap { key, x_to_y, .. }, false) = (call, low_gas) {
                    let k = key.raw();
                    let me = self.s.c.clients.last().unwrap().user.raw();
                    let (tin, tout) = if *x_to_y { (k.token_x, k.token_y) } else { (k.token_y, k.token_x) };
                    let fits = self.w.bal(&me, &tout).checked_add(q.amount_out).is_some();
                    if self.w.bal(&me, &tin) >= q.amount_in && fits && out.end != Some(End::OutOfGas) {
                        self.bad(
                            "P17",
                            "quote/promises",
                            format!("quote promises out {} for in {}, the caller has the balance, but the swap fails", q.amount_out, q.amount_in),
                        );
                    }
                }
            }
            (Err(_), true) => {}
        }
        let _ = r;
    }

    fn judge_route(
        &mut self,
        call: &Call,
        seq: Result<Result<(World, U256, Vec<Event>), String>, bool>,
        q: Result<Result<U256, u8>, String>,
        out: &StepOut,
        failed: bool,
    ) {
        let Call::SwapRoute { expected, slippage, hops, .. } = call else { return };
        let said = out
            .reply
            .as_ref()
            .and_then(|r| unroute("SwapRoute", &r.payload).map(|b| b.to_vec()))
            .and_then(|b| U256::decode(&mut &b[..]).ok());
        let min = rm::PCT.checked_sub(slippage.0).and_then(|k| rm::mul_pct_up(expected.0, k));
        match (&seq, failed) {
            (Err(_), false) => {
                self.bad("P25", "route/half", format!("route of {} hops accepted although one of its swaps is refused", hops.len()));
            }
            (Ok(Ok((w, a, _))), true) => {
                if min.map_or(false, |m| *a >= m) && out.end != Some(End::OutOfGas) {
                    self.bad("P25", "route/refused", format!("every swap of the route succeeds and gives {a}, but the route fails"));
                }
                let _ = w;
            }
            (Ok(Ok((w, a, evs))), false) => {
                if said != Some(*a) {
                    self.bad("P25", "route/amount", format!("route says {said:?}, its swaps one by one give {a}"));
                }
                if let Ok(got) = observe(self.s, Some(&self.w), Depth::Light) {
                    if let Some(d) = diff(w, &got).into_iter().next() {
                        self.bad("P25", "route/state", format!("route leaves another state than its swaps one by one: {}", d.text));
                    }
                }
                let ev: Vec<Event> = out.events.iter().map(|e| e.0.clone()).collect();
                if &ev != evs {
                    self.bad("P23", "route/events", format!("route emits {ev:?}, its swaps one by one {evs:?}"));
                }
            }
            _ => {}
        }
        // a quote ignores what the earlier hops do to a pool met twice
        let mut ks: Vec<PoolKey> = hops.iter().map(|h| h.key.raw()).collect();
        ks.sort();
        let n = ks.len();
        ks.dedup();
        if ks.len() == n && !hops.is_empty() {
            match (q, failed) {
                (Ok(Ok(x)), false) if Some(x) != said => {
                    self.bad("P17", "quote route/differs", format!("route quoted at {x}, executed at {said:?}"));
                }
                (Ok(Err(e)), false) => {
                    self.bad("P17", "quote route/refuses", format!("route quote answers error {e}, the route succeeds with {said:?}"));
                }
                (Err(e), false) => {
                    self.bad("P17", "quote route/trap", format!("route quote fails ({e}), the route succeeds with {said:?}"));
                }
                (Ok(Ok(x)), true) => {
                    if let Ok(Ok((_, a, _))) = &seq {
                        if *a != x {
                            self.bad("P17", "quote route/differs", format!("route quoted at {x}, its swaps give {a}"));
                        }
                    }
                    if let Err(true) = &seq {
                        self.bad("P17", "quote route/promises", format!("route quoted at {x}, but one of its swaps is refused although the caller has the balance"));
                    }
                }
                _ => {}
            }
        }
    }

    /// Tokens that calls moved between accounts' balances and pools.
    fn book_reserve(&mut self, call: &Call, got: &World) {
        if call.is_async() || matches!(call, Call::DepositVara | Call::WithdrawVara(_)) {
            return;
        }
        let accounts: BTreeSet<Actor> = self.w.balances.keys().chain(got.balances.keys()).copied().collect();
        for a in accounts {
            let e = BTreeMap::new();
            let (m0, m1) = (self.w.balances.get(&a).unwrap_or(&e), got.balances.get(&a).unwrap_or(&e));
            if m0 == m1 {
                continue;
            }
            let toks: BTreeSet<Actor> = m0.keys().chain(m1.keys()).copied().collect();
            for t in toks {
                let (b0, b1) = (self.w.bal(&a, &t), got.bal(&a, &t));
                if b0 > b1 {
                    *self.reserve_in.entry(t).or_default() += U512::from(b0 - b1);
                } else {
                    *self.reserve_out.entry(t).or_default() += U512::from(b1 - b0);
                }
            }
        }
    }

    fn start_async(&mut self, call: &Call, env: &Env, out: &StepOut) {
        let ci = out.client.unwrap();
        if out.new_reqs.is_empty() {
            return;
        }
        let mut legs = vec![];
        // the order in which the two tokens are asked does not matter
        let mut new_reqs = out.new_reqs.clone();
        let first = match call {
            Call::DepositPair { x, .. } => Some(x.0.raw()),
            Call::WithdrawPair { x, .. } => Some(x.0.raw()),
            _ => None,
        };
        if let Some(first) = first {
            if new_reqs.len() == 2 && self.s.c.reqs[new_reqs[0]].token != first {
                new_reqs.swap(0, 1);
            }
        }
        for (li, i) in new_reqs.iter().enumerate() {
            let r = &self.s.c.reqs[*i];
            let Some((f, t, a)) = r.transfer else { continue };
            let withdrawal = f == INV.raw();
            self.reqs.insert(r.id, (ci, li));
            legs.push(Leg {
                req: r.id,
                token: r.token,
                account: if withdrawal { t } else { f },
                amount: a,
                says: None,
                moved: false,
                delivered: false,
                due: U256::zero(),
                loose: false,
            });
            if r.deposit == 0 {
                self.bad("P05", "no gas for the reply", "a transfer request carries no gas for handling its reply".to_string());
            }
        }
        let withdrawal = matches!(call, Call::Withdraw { .. } | Call::WithdrawPair { .. });
        let pair = matches!(call, Call::DepositPair { .. } | Call::WithdrawPair { .. });
        let amounts: Vec<(Actor, U256)> = legs.iter().map(|l| (l.token, l.amount)).collect();
        let body = model::async_reply(call, &amounts);
        let done = !self.s.c.clients[ci].replies.is_empty();
        self.asyncs.insert(
            ci,
            Async { withdrawal, pair, legs, done, body, started: env.height, expired: false },
        );
    }

    fn leg_prop(a: &Async) -> &'static str {
        if a.withdrawal {
            "P03"
        } else {
            "P02"
        }
    }

    /// Everything but the named (account, token) balances must be as before.
    fn compare_unchanged(&mut self, before: &World, except: Option<&[(Actor, Actor)]>, prop: &'static str) -> Option<World> {
        let depth = self.depth(None);
        let got = match observe(self.s, Some(before), depth) {
            Ok(g) => g,
            Err(e) => {
                self.report(None, None, Diff::new(F::Query, e));
                return None;
            }
        };
        for d in diff(before, &got) {
            if d.f == F::Balance {
                if let (Some(w), Some(t), Some(ex)) = (d.who, d.token, except) {
                    if ex.contains(&(w, t)) {
                        continue;
                    }
                }
            }
            self.bad(prop, format!("{prop}/{:?}", d.f), format!("changed by a message that must not: {}", d.text));
            self.report(None, None, d);
        }
        Some(got)
    }

    fn exec_reply(&mut self, op: &Op) -> StepOut {
        let before = self.w.clone();
        let out = self.s.step(op);
        let Some(req) = out.req.clone() else { return out };
        let Some((ci, li)) = self.reqs.get(&req.id).copied() else { return out };
        let verdict = req.reply.as_ref().unwrap().2.clone();
        let honest = self.s.is_honest(&req.token);
        if let Some(e) = &out.end {
            if e.failed() && honest {
                let p = Self::leg_prop(&self.asyncs[&ci]);
                self.bad(p, "reply handler failed", format!("handling a token reply failed: {e:?}"));
            }
        }
        if !out.new_reqs.is_empty() || !out.events.is_empty() || !out.strange.is_empty() {
            self.bad("P06", "reply/side effects", "handling a token reply sent messages or events".to_string());
        }
        {
            let bal = before.bal(&self.asyncs[&ci].legs[li].account, &req.token);
            let a = self.asyncs.get_mut(&ci).unwrap();
            let w = a.withdrawal;
            let l = &mut a.legs[li];
            l.delivered = true;
            match verdict.says {
                Says::Nonsense => l.loose = true,
                // whatever became of the tokens, nothing says that they were paid
                Says::Misroute if w => l.loose = true,
                Says::True if !w => l.due = l.amount,
                Says::False | Says::Error if w => l.due = l.amount,
                _ => {}
            }
            if bal.checked_add(l.amount).is_none() {
                l.loose = true;
            }
        }
        let a = &self.asyncs[&ci];
        let l = a.legs[li].clone();
        let (prop, late, pair) = (Self::leg_prop(a), a.done, a.pair);
        self.stats.sig(100, &[
            900,
            verdict.says as u64,
            verdict.moved as u64,
            late as u64,
            pair as u64,
            a.withdrawal as u64,
            honest as u64,
            a.legs.iter().filter(|l| l.delivered).count() as u64,
            self.s.c.woken.len().min(2) as u64,
        ]);
        let key = [(l.account, l.token)];
        let Some(got) = self.compare_unchanged(&before, Some(&key), "P06") else { return out };
        let (b0, b1) = (before.bal(&l.account, &l.token), got.bal(&l.account, &l.token));
        self.settle(ci, li, b0, b1, late, prop, pair, "token reply");
        self.w = got;
        out
    }

    /// A balance moved from b0 to b1 while leg li of call ci may be credited.
    fn settle(&mut self, ci: usize, li: usize, b0: U256, b1: U256, must: bool, prop: &'static str, pair: bool, when: &str) {
        let l = &mut self.asyncs.get_mut(&ci).unwrap().legs[li];
        let (due, loose, amount, who, tok, says) = (l.due, l.loose, l.amount, l.account, l.token, l.says);
        let gain = b1.checked_sub(b0);
        let what = format!(
            "{} of {amount} of {} for {} (token said {says:?})",
            if prop == "P03" { "withdrawal" } else { "deposit" },
            name(&tok),
            name(&who)
        );
        let mut problems = vec![];
        if loose {
            if gain == Some(amount) && !amount.is_zero() {
                l.loose = false;
                l.due = U256::zero();
            } else if gain != Some(U256::zero()) {
                problems.push(format!("{what}: at {when} the balance went {b0} -> {b1}"));
            }
        } else if gain == Some(due) {
            l.due = U256::zero();
        } else if gain == Some(U256::zero()) {
            if must {
                l.due = U256::zero();
                problems.push(format!("{what}: {due} must be credited at {when}, nothing was"));
            }
        } else {
            l.due = U256::zero();
            problems.push(format!("{what}: at {when} the balance went {b0} -> {b1}, {due} was due"));
        }
        for p in problems {
            if matches!(says, Some(Says::Misroute | Says::Nonsense)) {
                self.bad("P06", "P06/credit", p.clone());
            }
            self.bad(prop, format!("{prop}/credit"), p.clone());
            if pair {
                self.bad("P04", "P04/credit", p.clone());
            }
            if must {
                self.bad("P05", "P05/late credit", p);
            }
        }
    }

    fn exec_woken(&mut self, op: &Op) -> StepOut {
        let before = self.w.clone();
        let out = self.s.step(op);
        let Some(ci) = out.client else { return out };
        let Some(a) = self.asyncs.get(&ci).cloned() else { return out };
        let prop = Self::leg_prop(&a);
        let full = self.s.c.clients[ci].full_gas;
        let exc: Vec<(Actor, Actor)> = a.legs.iter().map(|l| (l.account, l.token)).collect();
        let Some(got) = self.compare_unchanged(&before, Some(&exc), "P06") else { return out };
        if !out.new_reqs.is_empty() || !out.events.is_empty() || !out.strange.is_empty() {
            self.bad(prop, "continuation/side effects", "the continuation of a token call sent another message".to_string());
            if a.pair {
                self.bad("P04", "continuation/side effects", "the continuation of a token call sent another message".to_string());
            }
        }
        let done = !self.s.c.clients[ci].replies.is_empty();
        for li in 0..a.legs.len() {
            let l = &a.legs[li];
            let (b0, b1) = (before.bal(&l.account, &l.token), got.bal(&l.account, &l.token));
            if l.delivered {
                self.settle(ci, li, b0, b1, done, prop, a.pair, "the end of the call");
            } else if b0 != b1 {
                let msg = format!(
                    "balance of {} in {} went {b0} -> {b1} although the token has not answered",
                    name(&l.account),
                    name(&l.token)
                );
                self.bad(prop, "credit without answer", msg.clone());
                if a.pair {
                    self.bad("P04", "credit without answer", msg);
                }
            }
        }
        self.w = got;
        let waited = self.s.c.height - a.started;
        let all_in = a.legs.iter().all(|l| l.delivered);
        if done {
            self.asyncs.get_mut(&ci).unwrap().done = true;
            let n = self.s.c.clients[ci].replies.len();
            if n > 1 {
                self.bad("P05", "answered twice", format!("a call was answered {n} times"));
            }
            let r = self.s.c.clients[ci].replies[0].clone();
            let m = self.s.c.clients[ci].call.method();
            let routed = if r.is_error() { None } else { unroute(m, &r.payload).map(|b| b.to_vec()) };
            let all_true = a.legs.iter().all(|l| l.delivered && l.says == Some(Says::True));
            let nonsense = a.legs.iter().any(|l| l.delivered && (l.says == Some(Says::Nonsense) || l.says == Some(Says::Misroute) && a.withdrawal));
            let some_untrue = a.legs.iter().any(|l| !(l.delivered && l.says == Some(Says::True)));
            let pair = a.pair;
            let mut say = |sig: &str, msg: String| {
                self.bad(prop, sig, msg.clone());
                if pair {
                    self.bad("P04", sig, msg);
                }
            };
            if all_true && waited < WAIT_BOUND && full {
                match &routed {
                    Some(b) if *b == a.body => {}
                    _ => say(
                        "answer",
                        format!("{m}: every transfer succeeded in time, but the answer is {:02x?} code {:?}", r.payload, r.code),
                    ),
                }
            }
            if some_untrue && !nonsense && routed.is_some() {
                say("answer", format!("{m} reports success although a transfer did not succeed"));
            }
            if let Some(b) = &routed {
                if !nonsense && *b != a.body {
                    say("answer", format!("{m}: success answer with wrong amounts {:02x?}, expected {:02x?}", b, a.body));
                }
            }
            self.stats.sig(101, &[
                901,
                all_true as u64,
                nonsense as u64,
                routed.is_some() as u64,
                r.is_error() as u64,
                (waited >= WAIT_BOUND) as u64,
                pair as u64,
                a.withdrawal as u64,
                full as u64,
                all_in as u64,
                matches!(self.s.c.clients[ci].failed, Some(End::OutOfGas)) as u64,
            ]);
        } else if !out.parked {
            self.bad("P05", "lost", "a token call ended without an answer".to_string());
        } else {
            // still waiting: must have something left to wait for, and not for ever
            if all_in {
                self.bad("P05", "waits for nothing", "a token call keeps waiting although all its tokens answered".to_string());
            } else if waited > WAIT_BOUND + 2 {
                self.bad("P05", "waits too long", format!("a token call is still waiting after {waited} blocks"));
            }
        }
        out
    }

    /// Internal claims never exceed what the program holds, for every honest token and for VARA.
    pub fn solvency(&mut self) {
        let mut toks: Vec<Actor> = self.s.c.setup.honest.iter().map(|t| t.raw()).collect();
        toks.push(ZERO.raw());
        let mut claims: BTreeMap<Actor, Option<U256>> = BTreeMap::new();
        for (who, m) in &self.w.balances {
            let _ = who;
            for (t, v) in m {
                let e = claims.entry(*t).or_insert(Some(U256::zero()));
                *e = e.and_then(|x| x.checked_add(*v));
            }
        }
        for (k, p) in &self.w.pools {
            for (t, v) in [(k.token_x, p.pool.fee_protocol_token_x), (k.token_y, p.pool.fee_protocol_token_y)] {
                let e = claims.entry(t).or_insert(Some(U256::zero()));
                *e = e.and_then(|x| x.checked_add(v));
            }
        }
        for ps in self.w.positions.values() {
            for pos in ps {
                if let Some((x, y)) = position_value(&self.w, pos) {
                    for (t, v) in [(pos.pool_key.token_x, x), (pos.pool_key.token_y, y)] {
                        let e = claims.entry(t).or_insert(Some(U256::zero()));
                        *e = e.and_then(|x| x.checked_add(v));
                    }
                }
            }
        }
        for t in toks {
            let held = self.s.invariant_holds(&t);
            match claims.get(&t) {
                Some(Some(c)) if *c <= held => {}
                None => {}
                Some(c) => {
                    let msg = format!("{}: program holds {held}, but owes {:?} (balances + positions + fees)", name(&t), c);
                    self.bad("P01", format!("insolvent {}", (t == ZERO.raw()) as u8), msg.clone());
                    if t == ZERO.raw() {
                        self.bad("P07", "insolvent", msg);
                    }
                }
            }
        }
    }

    /// Independent of the model: what the pools hold beyond the exact worth of every position, its
    /// unclaimed fees and the protocol's fees never shrinks; every rounding is to be the caller's loss.
    fn surplus_kept(&mut self, call: &Call, me: &Actor, got: &World) {
        if call.is_async() || matches!(call, Call::DepositVara | Call::WithdrawVara(_) | Call::TransferPosition { .. } | Call::Query(_) | Call::Raw(_)) {
            return;
        }
        let (Some(owed0), Some(owed1)) = (exact_claims(&self.w), exact_claims(got)) else { return };
        let sum = |w: &World, t: &Actor| {
            w.balances.values().fold(U512::zero(), |s, m| s + U512::from(m.get(t).copied().unwrap_or_default()))
        };
        let toks: BTreeSet<Actor> = owed0.keys().chain(owed1.keys()).copied().collect();
        for t in toks {
            let g = |m: &BTreeMap<Actor, U512>| m.get(&t).copied().unwrap_or_default();
            // balances + claims may not grow
            let before = (sum(&self.w, &t) << FRAC) + g(&owed0);
            let after = (sum(got, &t) << FRAC) + g(&owed1);
            if after > before + (U512::one() << (FRAC - 10)) {
                let more = (after - before) >> (FRAC - 10);
                let msg = format!(
                    "{} by {}: balances and claims on the pools grew together by {}.{:03} of {}, which nobody paid in",
                    call.method(),
                    name(me),
                    more >> 10,
                    (more.low_u64() & 1023) * 1000 / 1024,
                    name(&t)
                );
                self.bad("P01", format!("{}/surplus", call.method()), msg.clone());
                self.bad("P26", format!("{}/surplus", call.method()), msg);
            }
        }
    }

    /// What every position could be closed for, fees included: as the reference model has it after
    /// this call, and, if prices did not move, as it was before for everybody else.
    fn worth_kept(&mut self, call: &Call, me: &Actor, exp: &World, got: &World) {
        if call.is_async() || matches!(call, Call::DepositVara | Call::WithdrawVara(_) | Call::Query(_) | Call::Raw(_)) {
            return;
        }
        let still = !matches!(call, Call::Swap { .. } | Call::SwapRoute { .. });
        let m = call.method();
        for (who, ps) in &got.positions {
            for (i, pos) in ps.iter().enumerate() {
                let now = position_value(got, pos);
                // the reference agrees on the list itself, or that is reported already
                if let Some(want) = exp.pos(who).get(i) {
                    if (want.pool_key, want.lower_tick_index, want.upper_tick_index) == (pos.pool_key, pos.lower_tick_index, pos.upper_tick_index) {
                        let due = position_value(exp, want);
                        if due != now {
                            let msg = format!("after {m} by {}, position {i} of {} can be closed for {now:?} of (x, y), due are {due:?}", name(me), name(who));
                            self.bad("P11", format!("{m}/worth"), msg.clone());
                            self.bad("P14", format!("{m}/worth"), msg);
                        }
                    }
                }
                if still && who != me {
                    if let Some(old) = self.w.pos(who).get(i) {
                        let was = position_value(&self.w, old);
                        if was != now {
                            let msg = format!("{m} by {} changed what position {i} of {} can be closed for: {was:?} of (x, y) -> {now:?}", name(me), name(who));
                            self.bad("P09", format!("{m}/foreign worth"), msg);
                        }
                    }
                }
            }
        }
    }

    /// State invariants of every pool.
    pub fn invariants(&mut self) {
        let w = std::mem::take(&mut self.w);
        for (k, ps) in &w.pools {
            let sp = k.fee_tier.tick_spacing as i32;
            let p = &ps.pool;
            let cur = p.current_tick_index;
            let mut gross: BTreeMap<i32, U256> = BTreeMap::new();
            let mut plus: BTreeMap<i32, U256> = BTreeMap::new();
            let mut minus: BTreeMap<i32, U256> = BTreeMap::new();
            let mut active = U256::zero();
            let mut over = false;
            for pos in w.positions.values().flatten().filter(|q| &q.pool_key == k) {
                let l = pos.liquidity;
                for (m, i) in [
                    (&mut gross, pos.lower_tick_index),
                    (&mut plus, pos.lower_tick_index),
                    (&mut minus, pos.upper_tick_index),
                ] {
                    let e = m.entry(i).or_default();
                    match e.checked_add(l) {
                        Some(v) => *e = v,
                        None => over = true,
                    }
                }
                let e = gross.entry(pos.upper_tick_index).or_default();
                match e.checked_add(l) {
                    Some(v) => *e = v,
                    None => over = true,
                }
                if pos.lower_tick_index <= cur && cur < pos.upper_tick_index {
                    match active.checked_add(l) {
                        Some(v) => active = v,
                        None => over = true,
                    }
                }
                if l.is_zero() {
                    self.bad("P12", "empty position", format!("{k:?}: a position without liquidity"));
                }
            }
            if over {
                self.bad("P12", "overflow", format!("{k:?}: position liquidity sums overflow"));
                continue;
            }
            if active != p.liquidity {
                self.bad("P12", "active liquidity", format!("{k:?}: pool liquidity {} but open positions at tick {cur} sum to {active}", p.liquidity));
            }
            let idx: BTreeSet<i32> = gross.keys().copied().collect();
            if idx != ps.tickmap {
                self.bad("P12", "tickmap", format!("{k:?}: tickmap {:?}, position bounds {idx:?}", ps.tickmap));
            }
            let stored: BTreeSet<i32> = ps.ticks.keys().copied().collect();
            if stored != idx {
                self.bad("P12", "ticks", format!("{k:?}: stored ticks {stored:?}, position bounds {idx:?}"));
            }
            if ps.count as usize != ps.tickmap.len() {
                self.bad("P22", "tick count", format!("{k:?}: GetLiquidityTicksAmount says {}, tickmap has {} ticks", ps.count, ps.tickmap.len()));
            }
            for (i, t) in &ps.ticks {
                let z = U256::zero();
                let (a, b) = (plus.get(i).copied().unwrap_or(z), minus.get(i).copied().unwrap_or(z));
                let net_ok = if a >= b {
                    t.liquidity_change == a - b && (t.sign || a == b)
                } else {
                    t.liquidity_change == b - a && !t.sign
                };
                if !net_ok || gross.get(i) != Some(&t.liquidity_gross) || t.index != *i {
                    self.bad(
                        "P12",
                        "tick liquidity",
                        format!("{k:?} tick {i}: gross {} net {}{}, positions say gross {:?} net {a}-{b}", t.liquidity_gross, if t.sign { "+" } else { "-" }, t.liquidity_change, gross.get(i)),
                    );
                }
            }
            let lo = rm::price_of_tick(cur);
            let hi = rm::price_of_tick((cur + sp).min(rm::MAX_TICK));
            let ok = cur % sp == 0 && lo.map_or(false, |l| l <= p.sqrt_price) && hi.map_or(false, |h| p.sqrt_price <= h);
            if !ok {
                self.bad("P13", "tick/price", format!("{k:?}: price {} is not within tick {cur} (spacing {sp}): [{lo:?}, {hi:?}]", p.sqrt_price));
            }
            if p.last_timestamp < p.start_timestamp || p.last_timestamp > self.s.c.now {
                self.bad("P24", "timestamps", format!("{k:?}: start {} last {} now {}", p.start_timestamp, p.last_timestamp, self.s.c.now));
            }
        }
        self.w = w;
    }
}

/// Binary digits after the point of exact amounts.
const FRAC: usize = 40;
/// All claims on the pools, exact to a tiny fraction of a unit: the curve's definition, no
/// arithmetic of the protocol. `None` where liquidity is too large to say.
pub fn exact_claims(w: &World) -> Option<BTreeMap<Actor, U512>> {
    let mut o: BTreeMap<Actor, U512> = BTreeMap::new();
    for (k, p) in &w.pools {
        *o.entry(k.token_x).or_default() += U512::from(p.pool.fee_protocol_token_x) << FRAC;
        *o.entry(k.token_y).or_default() += U512::from(p.pool.fee_protocol_token_y) << FRAC;
    }
    let one = U512::from(rm::PRICE_ONE);
    for pos in w.positions.values().flatten() {
        let ps = w.pools.get(&pos.pool_key)?;
        if pos.liquidity.bits() > 250 {
            return None;
        }
        let l = U512::from(pos.liquidity);
        let (a, b) = (rm::price_of_tick(pos.lower_tick_index)?, rm::price_of_tick(pos.upper_tick_index)?);
        let p = ps.pool.sqrt_price.clamp(a, b);
        let (a, b, p) = (U512::from(a), U512::from(b), U512::from(p));
        let x = ((l * one * (b - p)) << FRAC) / (p * b * U512::from(rm::LIQ_ONE));
        let y = ((l * (p - a)) << FRAC) / (one * U512::from(rm::LIQ_ONE));
        let (tl, tu) = (ps.ticks.get(&pos.lower_tick_index)?, ps.ticks.get(&pos.upper_tick_index)?);
        let (gx, gy) = model::growth_inside(&ps.pool, tl, tu);
        let scale = U512::from(10u8).pow(U512::from(28)) * U512::from(rm::LIQ_ONE);
        for (t, v, now, then, had) in [
            (pos.pool_key.token_x, x, gx, pos.fee_growth_inside_x, pos.tokens_owed_x),
            (pos.pool_key.token_y, y, gy, pos.fee_growth_inside_y, pos.tokens_owed_y),
        ] {
            let fee = ((l * U512::from(now.wrapping_sub(then))) << FRAC) / scale;
            *o.entry(t).or_default() += v + fee + (U512::from(had) << FRAC);
        }
    }
    Some(o)
}

/// What a position can be turned into now (tokens + unclaimed fees), by the reference arithmetic.
pub fn position_value(w: &World, pos: &Position) -> Option<(U256, U256)> {
    let ps = w.pools.get(&pos.pool_key)?;
    let (x, y, _) = rm::amounts(
        ps.pool.current_tick_index,
        ps.pool.sqrt_price,
        pos.liquidity,
        false,
        pos.lower_tick_index,
        pos.upper_tick_index,
    )?;
    let (tl, tu) = (ps.ticks.get(&pos.lower_tick_index)?, ps.ticks.get(&pos.upper_tick_index)?);
    let (gx, gy) = model::growth_inside(&ps.pool, tl, tu);
    let fx = rm::growth_to_fee(gx.wrapping_sub(pos.fee_growth_inside_x), pos.liquidity)?;
    let fy = rm::growth_to_fee(gy.wrapping_sub(pos.fee_growth_inside_y), pos.liquidity)?;
    Some((
        x.checked_add(fx)?.checked_add(pos.tokens_owed_x)?,
        y.checked_add(fy)?.checked_add(pos.tokens_owed_y)?,
    ))
}
