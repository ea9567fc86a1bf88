//! One simulated run: a generated (or replayed) trace, then the epilogue in which faults stop.
use crate::chain::*;
use crate::gen::*;
use crate::oracle::*;
use crate::types::*;
use primitive_types::U512;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Trace {
    pub setup: Setup,
    /// the epilogue first lets every timeout expire before any outstanding token request is served
    pub stall: bool,
    /// the epilogue ends with everybody taking everything out, in an order given by this number
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub exit: Option<u64>,
    pub ops: Vec<Op>,
}

pub struct Ran {
    pub v: Vec<Violation>,
    pub stats: Stats,
    pub ops: usize,
}

pub struct Lab {
    pub sim: Sim,
    /// the trace being generated or replayed, up to the step being run
    cur: Trace,
    pub verbose: bool,
}
/// Where a run ended in a panic of this harness: the state could not be understood at all.
pub const GARBLED: &str = "state cannot be interpreted";

/// Run one trace; a panic while judging it is itself a verdict.
fn guarded(want: Option<&'static str>, step: &mut dyn FnMut() -> Result<Ran, String>) -> Result<Ran, String> {
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| step()));
    match r {
        Ok(r) => r,
        Err(e) => {
            let m = e
                .downcast_ref::<String>()
                .cloned()
                .or(e.downcast_ref::<&str>().map(|s| s.to_string()))
                .unwrap_or_default();
            let v = Violation {
                prop: want.unwrap_or("P22"),
                step: usize::MAX,
                sig: GARBLED.into(),
                msg: format!("the state of the program cannot be interpreted: {m}"),
            };
            Ok(Ran { v: vec![v], stats: Stats::default(), ops: 0 })
        }
    }
}
use crate::machine::Code;
impl Lab {
    pub fn new(wasm: &[u8]) -> Result<Lab, String> {
        Lab::with(&Code::load(wasm)?)
    }
    pub fn with(code: &Code) -> Result<Lab, String> {
        let setup = Setup { protocol_fee: P(0), honest: vec![], rogue: vec![], users: vec![], start_ms: 1, vft: false };
        let sim = Sim::new(code, &setup)?;
        let cur = Trace { setup, stall: false, exit: None, ops: vec![] };
        Ok(Lab { sim, cur, verbose: false })
    }
    /// A fresh chain with a freshly initialised program.
    fn boot(&mut self, setup: &Setup) -> Result<(), String> {
        let counts = std::mem::take(&mut self.sim.counts);
        self.sim.boot(setup)?;
        self.sim.counts = counts;
        Ok(())
    }

    /// A number standing for everything the last run left behind.
    pub fn digest(&self) -> u64 {
        use std::hash::{Hash, Hasher};
        #[allow(deprecated)]
        let mut h = std::hash::SipHasher::new();
        let c = &self.sim.c;
        c.state.alloc.hash(&mut h);
        for (i, page) in c.state.mem.chunks(65536).enumerate() {
            // a page the program has freed may hold anything
            if c.state.alloc[i + crate::machine::STACK_PAGES] {
                page.hash(&mut h);
            }
        }
        (c.height, c.now, c.seq, c.program_native).hash(&mut h);
        format!("{:?}{:?}{:?}{:?}{:?}{:?}", c.native, c.ledger, c.reqs, c.waiting, c.woken, c.clients).hash(&mut h);
        for (id, t) in &c.vfts {
            (id, format!("{:?}", t.books)).hash(&mut h);
            for (i, page) in t.state.mem.chunks(65536).enumerate() {
                if t.state.alloc[i + crate::machine::STACK_PAGES] {
                    page.hash(&mut h);
                }
            }
        }
        h.finish()
    }
    pub fn replay(&mut self, t: &Trace, want: Option<&'static str>, stop: bool) -> Result<Ran, String> {
        guarded(want, &mut || {
            if let Some(r) = self.start(&t.setup, want)? {
                return Ok(r);
            }
            let mut r = Runner::new(&mut self.sim)?;
            r.want = want;
            for op in &t.ops {
                let out = r.exec(op);
                if self.verbose {
                    println!("{op:?}\n   {:?} {:?}", out.end, out.events.iter().map(|e| &e.0).collect::<Vec<_>>());
                    for (k, p) in &r.w.pools {
                        println!("   {k:?} tick {} price {} liquidity {} ticks {:?}", p.pool.current_tick_index, p.pool.sqrt_price, p.pool.liquidity, p.ticks.values().map(|t| (t.index, t.sign, t.liquidity_change)).collect::<Vec<_>>());
                    }
                }
                if stop && !r.v.is_empty() {
                    return Ok(done(r));
                }
            }
            epilogue(&mut r, t.stall, t.exit);
            Ok(done(r))
        })
    }
    /// A program that cannot be initialised with a legal protocol fee, or not be read, is no use to anybody.
    fn start(&mut self, setup: &Setup, want: Option<&'static str>) -> Result<Option<Ran>, String> {
        let e = match self.boot(setup) {
            Err(e) => e,
            Ok(()) => match Runner::new(&mut self.sim) {
                Err(e) => e,
                Ok(r) if r.w.protocol_fee != setup.protocol_fee.0 => format!(
                    "initialised with protocol fee {:?}, reads back {}",
                    setup.protocol_fee, r.w.protocol_fee
                ),
                Ok(_) => return Ok(None),
            },
        };
        let v = Violation { prop: want.unwrap_or("P20"), step: 0, sig: "boot".into(), msg: format!("a fresh program does not work: {e}") };
        Ok(Some(Ran { v: vec![v], stats: Stats::default(), ops: 0 }))
    }
    /// Generate and run the trace of this seed.
    pub fn generate(
        &mut self,
        seed: u64,
        profile: Profile,
        focus: Focus,
        want: Option<&'static str>,
    ) -> Result<(Trace, Ran), String> {
        let mut rng = Rng::new(seed ^ 0xABCD);
        let mut setup = gen_setup(&mut rng, profile);
        setup.vft = want == Some("P29") || (want.is_none() && crate::vft::VFT.get().is_some() && seed % 3 == 0);
        let stall = rng.p(40);
        let exit = if rng.p(60) { Some(rng.next()) } else { None };
        self.cur = Trace { setup, stall, exit, ops: vec![] };
        let ran = guarded(want, &mut || {
            let setup = self.cur.setup.clone();
            if let Some(r) = self.start(&setup, want)? {
                return Ok(r);
            }
            let mut r = Runner::new(&mut self.sim)?;
            r.want = want;
            let mut g = Gen::new(seed, profile);
            g.focus = focus;
            if matches!(want, Some("P19" | "P21" | "P22")) {
                g.crowd_pct = 12;
                g.long_pct = 2 * (want == Some("P22")) as u64;
                g.pools_pct = (want == Some("P21")) as u64;
            }
            while let Some(op) = g.next(&r) {
                self.cur.ops.push(op.clone());
                r.exec(&op);
                if !r.v.is_empty() {
                    return Ok(done(r));
                }
            }
            epilogue(&mut r, stall, exit);
            Ok(done(r))
        })?;
        Ok((self.cur.clone(), ran))
    }
}
fn done(mut r: Runner) -> Ran {
    let c = std::mem::take(&mut r.s.counts);
    for (k, v) in c {
        *r.stats.faults.entry(k).or_default() += v;
    }
    Ran { v: r.v, stats: r.stats, ops: r.step }
}

fn run_woken(r: &mut Runner) -> bool {
    let mut n = 0;
    while !r.s.c.woken.is_empty() {
        r.exec(&Op::Woken { pick: 0, gas: 0 });
        n += 1;
        if !r.v.is_empty() || n > 2000 {
            return false;
        }
    }
    true
}
/// Serve and deliver everything outstanding, without faults.
fn serve(r: &mut Runner, rng: &mut Rng) -> bool {
    let mut n = 0;
    loop {
        let (u, d, w) = (r.s.unprocessed().len(), r.s.undelivered().len(), r.s.c.woken.len());
        if u + d + w == 0 {
            return true;
        }
        let pick = rng.below(8) as u8;
        match rng.weighted(&[u.min(9) as u32, d.min(9) as u32, w.min(9) as u32]) {
            0 => r.exec(&Op::Token { pick, act: TokenAct::Ok }),
            1 => r.exec(&Op::Reply { pick }),
            _ => r.exec(&Op::Woken { pick, gas: 0 }),
        };
        n += 1;
        if !r.v.is_empty() || n > 4000 {
            return false;
        }
    }
}

/// Faults stop; what must come true eventually has to come true now.
pub fn epilogue(r: &mut Runner, stall: bool, exit: Option<u64>) {
    if !r.v.is_empty() {
        return;
    }
    r.in_epilogue = true;
    let mut rng = Rng::new(exit.unwrap_or(1));
    if stall {
        // tokens never answer: every caller is answered all the same
        for _ in 0..3 {
            r.exec(&Op::Blocks { n: WAIT_BOUND + 1, ms: (WAIT_BOUND as u64 + 1) * BLOCK_MS });
            if !run_woken(r) {
                return;
            }
        }
        answered(r, "no token answered within 300 blocks");
        if !r.s.c.waiting.is_empty() {
            r.bad("P05", "stall/parked", format!("{} messages still wait after 300 blocks", r.s.c.waiting.len()));
        }
        if !r.v.is_empty() {
            return;
        }
    }
    if !serve(r, &mut rng) {
        return;
    }
    if !r.s.c.waiting.is_empty() {
        r.bad(
            "P05",
            "drain/parked",
            format!("{} messages still wait although every token answered", r.s.c.waiting.len()),
        );
        r.exec(&Op::Blocks { n: WAIT_BOUND + 2, ms: 1 });
        run_woken(r);
    }
    answered(r, "every token answered");
    conserved(r, "once every token has answered");
    if !r.v.is_empty() {
        return;
    }
    if exit.is_some() {
        everybody_out(r, &mut rng);
    }
}

fn answered(r: &mut Runner, when: &str) {
    for i in 0..r.s.c.clients.len() {
        let c = &r.s.c.clients[i];
        let (n, m, u) = (c.replies.len(), c.call.method(), c.user);
        if n != 1 {
            r.bad("P05", format!("answers/{}", n.min(2)), format!("{m} by {u:?} has {n} answers ({when})"));
        }
    }
}

/// At rest the program holds exactly what it owes: balances + what calls moved into pools.
fn conserved(r: &mut Runner, when: &str) {
    let mut toks: Vec<Actor> = r.s.c.setup.honest.iter().map(|t| t.raw()).collect();
    toks.push(ZERO.raw());
    for t in toks {
        let mut held = U512::from(r.s.invariant_holds(&t)) + r.reserve_out.get(&t).copied().unwrap_or_default();
        if t == ZERO.raw() {
            held -= U512::from(r.stray_native).min(held);
        }
        let mut owed = r.reserve_in.get(&t).copied().unwrap_or_default();
        for m in r.w.balances.values() {
            owed += U512::from(m.get(&t).copied().unwrap_or_default());
        }
        if held != owed {
            let msg = format!(
                "{} {when}: the program holds {held}, its books say {owed} ({})",
                name(&t),
                if held > owed { "tokens nobody can claim" } else { "claims without tokens" }
            );
            if t == ZERO.raw() {
                r.bad("P07", "books", msg.clone());
                r.bad("P01", "books/VARA", msg);
            } else {
                if held > owed {
                    r.bad("P02", "books/excess", msg.clone());
                    r.bad("P03", "books/excess", msg.clone());
                }
                r.bad("P01", "books", msg);
            }
        }
    }
}

fn everybody_out(r: &mut Runner, rng: &mut Rng) {
    let keyed: Vec<Id> = r.s.accounts().iter().filter_map(Id::of).filter(|i| i.0 > 1).collect();
    let mut skip: Vec<(Id, u32)> = keyed.iter().map(|k| (*k, 0)).collect();
    let honest = |r: &Runner, t: &Actor| t == &ZERO.raw() || r.s.is_honest(t);
    loop {
        let open: Vec<usize> =
            (0..skip.len()).filter(|i| r.w.pos(&skip[*i].0.raw()).len() as u32 > skip[*i].1).collect();
        if open.is_empty() {
            break;
        }
        let i = *rng.pick(&open);
        let (user, lo) = skip[i];
        let n = r.w.pos(&user.raw()).len() as u32;
        let index = lo + rng.below((n - lo) as u64) as u32;
        let pos = r.w.pos(&user.raw())[index as usize].clone();
        let out = r.exec(&Op::Call { user, call: Call::RemovePosition { index }, gas: 0, value: P(0) });
        if out.end.as_ref().map_or(true, |e| e.failed()) {
            if honest(r, &pos.pool_key.token_x) && honest(r, &pos.pool_key.token_y) {
                r.bad("P11", "exit/refused", format!("{user:?} cannot remove position {index}: {:?}", out.end));
            }
            // others of this account may still be removable
            skip[i].1 = n;
        }
        if !r.v.is_empty() {
            return;
        }
    }
    for k in r.w.pool_keys.clone() {
        let recv = Id::of(&r.w.pools[&k].pool.fee_receiver);
        if let Some(user) = recv.filter(|i| keyed.contains(i)) {
            let out = r.exec(&Op::Call { user, call: Call::WithdrawProtocolFee { key: Pk::of(&k) }, gas: 0, value: P(0) });
            if out.end.as_ref().map_or(true, |e| e.failed()) && honest(r, &k.token_x) && honest(r, &k.token_y) {
                r.bad("P15", "exit/refused", format!("{user:?} cannot take the protocol fee of {k:?}: {:?}", out.end));
            }
        }
        if !r.v.is_empty() {
            return;
        }
    }
    let mut ts: Vec<Id> = r.s.c.setup.honest.clone();
    ts.push(ZERO);
    for user in &keyed {
        for t in &ts {
            let have = r.w.bal(&user.raw(), &t.raw());
            if have.is_zero() {
                continue;
            }
            let call = if *t == ZERO { Call::WithdrawVara(None) } else { Call::Withdraw { token: *t, amount: None } };
            r.exec(&Op::Call { user: *user, call, gas: 0, value: P(0) });
            if rng.p(60) && !serve(r, rng) {
                return;
            }
            if !r.v.is_empty() {
                return;
            }
        }
    }
    if !serve(r, rng) {
        return;
    }
    answered(r, "after everybody left");
    for user in &keyed {
        for t in &ts {
            let have = r.w.bal(&user.raw(), &t.raw());
            if !have.is_zero() {
                let msg = format!("{user:?} cannot withdraw its {have} of {t:?}");
                r.bad("P05", "exit/stuck", msg.clone());
                r.bad("P03", "exit/stuck", msg);
            }
        }
    }
    conserved(r, "after everybody left");
}
