//! The simulated chain around the real program: accounts, native balances, token programs, message
//! queues, waitlist, block clock. Every step is chosen by the scheduler (an `Op`); nothing here is
//! random by itself, so a list of ops is one exactly repeatable execution.
use crate::machine::*;
use crate::vft::{self, VftCall};
use crate::types::*;
use parity_scale_codec::{Decode, Encode};
use primitive_types::U256;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};

pub const FULL_GAS: u64 = 250_000_000_000;
/// all that one block can spend
pub const BLOCK_GAS: u64 = 750_000_000_000;
pub const QUERY_GAS: u64 = 4_000_000_000_000;
pub const BLOCK_MS: u64 = 3000;

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Setup {
    pub protocol_fee: P,
    pub honest: Vec<Id>,
    pub rogue: Vec<Id>,
    pub users: Vec<Id>,
    pub start_ms: u64,
    /// the honest tokens are instances of the repository's own token program
    #[serde(default, skip_serializing_if = "std::ops::Not::not")]
    pub vft: bool,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize, PartialOrd, Ord, Hash)]
pub enum Fail {
    Panic,
    PanicShort,
    RanOutOfGas,
    MemoryOverflow,
    Backend,
    Unreachable,
    StackLimit,
    Inactive,
    RemovedFromWaitlist,
    Environment,
    Empty,
}
pub const FAILS: [Fail; 11] = [
    Fail::Panic,
    Fail::PanicShort,
    Fail::RanOutOfGas,
    Fail::MemoryOverflow,
    Fail::Backend,
    Fail::Unreachable,
    Fail::StackLimit,
    Fail::Inactive,
    Fail::RemovedFromWaitlist,
    Fail::Environment,
    Fail::Empty,
];
impl Fail {
    /// Error reply as Gear builds it: raw text (no length prefix) and the error reply code.
    fn reply(self) -> (Vec<u8>, [u8; 4]) {
        let (t, c): (&str, [u8; 4]) = match self {
            Fail::Panic => (
                "Panic occurred: panicked with 'called `Result::unwrap()` on an `Err` value: InsufficientAllowance'",
                [1, 0, 3, 0],
            ),
            Fail::PanicShort => ("Panic occurred: ", [1, 0, 3, 0]),
            Fail::RanOutOfGas => ("Not enough gas to continue execution", [1, 0, 0, 0]),
            Fail::MemoryOverflow => ("Not enough memory to continue execution", [1, 0, 1, 0]),
            Fail::Backend => ("Syscall error: forbidden function", [1, 0, 2, 0]),
            Fail::Unreachable => (
                "Reason is unknown. Possibly `unreachable` instruction is occurred",
                [1, 0, 4, 0],
            ),
            Fail::StackLimit => ("Stack limit exceeded", [1, 0, 5, 0]),
            Fail::Inactive => ("destination actor is inactive", [1, 2, 0, 0]),
            Fail::RemovedFromWaitlist => ("removal from waitlist", [1, 3, 0, 0]),
            Fail::Environment => ("Environment error: initial memory", [1, 0, 2, 0]),
            Fail::Empty => ("", [1, 2, 0, 0]),
        };
        (t.as_bytes().to_vec(), c)
    }
}
#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Lie {
    TrueNoMove,
    FalseMoved,
    ErrMoved(Fail),
    Garbage(Vec<u8>),
    WrongService,
    WrongMethod,
    StringReply,
    Empty,
    TrueWithTail,
}
#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum TokenAct {
    Ok,
    Fail(Fail),
    False,
    Lie(Lie),
}

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Op {
    Call {
        user: Id,
        call: Call,
        #[serde(default, skip_serializing_if = "is0")]
        gas: u64,
        #[serde(default, skip_serializing_if = "isp0")]
        value: P,
    },
    /// the n-th unprocessed token request is executed by its token program
    Token { pick: u8, act: TokenAct },
    /// the n-th undelivered token reply is delivered to the program
    Reply { pick: u8 },
    /// the n-th woken message is executed
    Woken {
        pick: u8,
        /// at most this much gas is left for it (0: all that was not used before)
        #[serde(default, skip_serializing_if = "is0")]
        gas: u64,
    },
    /// n blocks pass, the clock advances by ms
    Blocks { n: u32, ms: u64 },
    /// a waiting message is woken before its deadline
    EarlyWake { pick: u8 },
    Mint { user: Id, token: Id, amount: A },
    /// a call of a token program (when they are real)
    Vft {
        user: Id,
        token: Id,
        call: VftCall,
        #[serde(default, skip_serializing_if = "is0")]
        gas: u64,
    },
    /// look at or try something on a fork of the state that is thrown away
    Probe(Probe),
}
#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Probe {
    /// all read-only views agree with each other
    Queries { size: u32, offset: u32 },
    /// open a position and close it at once
    OpenClose { user: Id, call: Call },
    /// swap there and back
    SwapBack { user: Id, call: Call },
    /// one account works one pool alone for n calls
    Churn { user: Id, key: Pk, seed: u64, n: u8 },
    /// lists grown beyond what a run usually reaches
    Crowd { user: Id, key: Pk, seed: u64, n: u16 },
    /// open a position with the liquidity that the SDK computes for an amount of one token
    Sizing { user: Id, call: Call, by_x: bool, amount: A },
}
fn is0(x: &u64) -> bool {
    *x == 0
}
fn isp0(x: &P) -> bool {
    x.0 == 0
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Verdict {
    /// what the reply says, as a reader of the token's interface understands it
    pub says: Says,
    pub moved: bool,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Says {
    True,
    False,
    Error,
    /// well-formed, but the answer to something else
    Misroute,
    Nonsense,
}
#[derive(Clone, Debug)]
pub struct Req {
    pub id: Hash,
    pub client: usize,
    pub token: Actor,
    pub payload: Vec<u8>,
    pub transfer: Option<(Actor, Actor, U256)>,
    pub value: u128,
    pub gas: Option<u64>,
    pub deposit: u64,
    pub reply: Option<(Vec<u8>, [u8; 4], Verdict)>,
    pub sent_at: u32,
}
#[derive(Clone, Debug)]
pub struct Parked {
    pub client: usize,
    pub id: Hash,
    pub deadline: u32,
    pub gas: u64,
    pub nonce: u32,
    pub reserved: u64,
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct ClientReply {
    pub payload: Vec<u8>,
    pub code: [u8; 4],
    pub value: u128,
}
impl ClientReply {
    pub fn is_error(&self) -> bool {
        self.code[0] != 0
    }
}
#[derive(Clone, Debug)]
pub struct Client {
    pub id: Hash,
    pub user: Id,
    pub call: Call,
    pub value: u128,
    pub full_gas: bool,
    pub replies: Vec<ClientReply>,
    pub born: u32,
    pub runs: u32,
    pub failed: Option<End>,
}

#[derive(Clone)]
pub struct Chain {
    pub setup: Setup,
    pub height: u32,
    pub now: u64,
    pub seq: u32,
    pub native: BTreeMap<Actor, u128>,
    pub program_native: u128,
    /// value attached to calls that are not VARA deposits (nobody's claim inside the program)
    pub ledger: BTreeMap<(Actor, Actor), U256>,
    pub minted: BTreeMap<Actor, U256>,
    pub reqs: Vec<Req>,
    pub waiting: Vec<Parked>,
    pub woken: Vec<Parked>,
    pub clients: Vec<Client>,
    pub state: State,
    pub vfts: BTreeMap<Actor, vft::Token>,
}

/// What one step did, as seen from outside.
#[derive(Debug, Clone, Default)]
pub struct StepOut {
    pub skipped: bool,
    pub end: Option<End>,
    pub events: Vec<(Event, Actor, u128)>,
    pub new_reqs: Vec<usize>,
    pub client: Option<usize>,
    pub reply: Option<ClientReply>,
    pub parked: bool,
    pub req: Option<Req>,
    pub signal_end: Option<End>,
    pub strange: Vec<String>,
    /// where a token program did not do what it must
    pub token_wrong: Vec<(String, String)>,
    pub gas_used: u64,
}

pub struct Sim {
    pub m: Machine,
    pub c: Chain,
    pub counts: BTreeMap<String, u64>,
    blank: State,
    /// the machine that runs token programs, and how it starts
    tm: Option<(Machine, State)>,
}

fn error_payload(e: &End) -> (Vec<u8>, [u8; 4]) {
    match e {
        End::Panic(s) => (format!("Panic occurred: {s}").into_bytes(), [1, 0, 3, 0]),
        End::OutOfGas => Fail::RanOutOfGas.reply(),
        End::StackLimit => Fail::StackLimit.reply(),
        End::Oom => Fail::MemoryOverflow.reply(),
        _ => Fail::Unreachable.reply(),
    }
}

pub fn decode_transfer(p: &[u8]) -> Option<(Actor, Actor, U256)> {
    let b = &mut &p[..];
    if String::decode(b).ok()? != "Vft" || String::decode(b).ok()? != "TransferFrom" {
        return None;
    }
    let r = <(Actor, Actor, U256)>::decode(b).ok()?;
    b.is_empty().then_some(r)
}

impl Sim {
    pub fn new(code: &Code, setup: &Setup) -> Result<Sim, String> {
        let mut m = Machine::new(code)?;
        let blank = m.save();
        let c = Self::empty(setup, &blank);
        let mut s = Sim { m, c, counts: BTreeMap::new(), blank, tm: None };
        s.boot(setup)?;
        Ok(s)
    }
    fn empty(setup: &Setup, state: &State) -> Chain {
        Chain {
            setup: setup.clone(),
            height: 1,
            now: setup.start_ms,
            seq: 0,
            native: BTreeMap::new(),
            program_native: 0,
            ledger: BTreeMap::new(),
            minted: BTreeMap::new(),
            reqs: vec![],
            waiting: vec![],
            woken: vec![],
            clients: vec![],
            state: state.clone(),
            vfts: BTreeMap::new(),
        }
    }
    /// Start over: a new chain, the program uploaded and initialised in the same machine.
    pub fn boot(&mut self, setup: &Setup) -> Result<(), String> {
        self.c = Self::empty(setup, &self.blank);
        self.m.clear_stack();
        self.m.restore(&self.c.state);
        let (m, c) = (&mut self.m, &mut self.c);
        let mut payload = "New".encode();
        payload.extend((ADMIN.raw(), setup.protocol_fee.0).encode());
        let o = m.run(
            Entry::Init,
            Ctx {
                program: INV.raw(),
                msg_id: child_id(&[7; 32], 0),
                source: ADMIN.raw(),
                payload,
                block_height: c.height,
                block_timestamp: c.now,
                ..Default::default()
            },
            FULL_GAS,
        );
        if o.end != End::Done {
            return Err(format!("program init failed: {:?}", o.end));
        }
        m.save_into(&mut c.state);
        for u in setup.users.iter().chain([&ADMIN]) {
            c.native.insert(u.raw(), 1u128 << 100);
        }
        if setup.vft {
            if self.tm.is_none() {
                let code = vft::VFT.get().ok_or("these runs need the token program (--vft)")?;
                let m = Machine::new(code)?;
                let s = m.save();
                self.tm = Some((m, s));
            }
            for t in &setup.honest {
                let at = self.at(t.raw());
                let (m, blank) = self.tm.as_mut().unwrap();
                let t = vft::launch(m, blank, at, &ADMIN.raw())?;
                self.c.vfts.insert(at.token, t);
            }
        }
        Ok(())
    }
    fn at(&mut self, token: Actor) -> vft::At {
        let id = self.next_id();
        vft::At { token, height: self.c.height, now: self.c.now, id }
    }
    /// A message to a real token program, judged; the simulator's ledger follows its books.
    /// Some(true): done, Some(false): answered no, None: refused.
    fn vft_message(&mut self, token: Actor, who: Actor, call: &VftCall, gas: u64, out: &mut StepOut) -> Option<vft::Ran> {
        let at = self.at(token);
        let accounts = self.accounts();
        let mut t = self.c.vfts.get(&token)?.clone();
        let (m, _) = self.tm.as_mut()?;
        let want = t.books.clone().apply(&who, call);
        let r = vft::send(m, &mut t, at, &who, call.payload(), if gas == 0 { FULL_GAS } else { gas });
        let name = call.method();
        let mut wrong = |sig: &str, msg: String| out.token_wrong.push((format!("{name}/{sig}"), msg));
        for s in &r.strange {
            wrong("strange", format!("{name}: {s}"));
        }
        match (&want, r.end.failed()) {
            (Ok(told), false) => {
                let _ = t.books.apply(&who, call);
                let head = ("Vft", name).encode();
                let body = match &r.reply {
                    Some(p) if p.starts_with(&head) => Some(&p[head.len()..]),
                    _ => None,
                };
                let right = match (body, told.answer) {
                    (Some(b), Some(a)) => b == a.encode(),
                    (b, None) => b.is_some(),
                    _ => false,
                };
                if !right {
                    wrong("answer", format!("{name} {call:?} answers {:02x?}, must answer {:?}", r.reply, told.answer));
                }
                if !r.events.iter().eq(told.event.iter()) {
                    wrong("event", format!("{name} {call:?} announces {:02x?}, must announce {:02x?}", r.events, told.event));
                }
            }
            (Err(_), true) => {}
            (Err(why), false) => wrong("allowed", format!("{call:?} by {:?} must be refused ({why})", Id::of(&who))),
            (Ok(_), true) if gas != 0 && gas < 3_000_000_000 => {}
            (Ok(_), true) => wrong("refused", format!("{call:?} by {:?} must work, but ends in {:?}", Id::of(&who), r.end)),
        }
        if out.token_wrong.is_empty() {
            if let Err(e) = vft::compare(m, &t, at, &accounts) {
                out.token_wrong.push((format!("{name}/books"), format!("after {call:?} by {:?}: {e}", Id::of(&who))));
            }
        }
        if t.books != self.c.vfts[&token].books {
            self.c.ledger.retain(|k, _| k.0 != token);
            for (a, v) in &t.books.balances {
                self.c.ledger.insert((token, *a), *v);
            }
            self.c.minted.insert(token, t.books.supply);
        }
        self.c.vfts.insert(token, t);
        Some(r)
    }
    /// Start over with a pristine chain in the same machine.
    pub fn load(&mut self, c: &Chain) {
        self.c = c.clone();
        self.m.restore(&self.c.state);
    }
    pub fn count(&mut self, k: &str) {
        if let Some(v) = self.counts.get_mut(k) {
            *v += 1
        } else {
            self.counts.insert(k.to_string(), 1);
        }
    }
    fn next_id(&mut self) -> Hash {
        self.c.seq += 1;
        child_id(&[0x33; 32], self.c.seq)
    }
    fn ctx(&self, msg_id: Hash, source: Actor, payload: Vec<u8>, value: u128) -> Ctx {
        Ctx {
            program: INV.raw(),
            msg_id,
            source,
            payload,
            value,
            value_available: self.c.program_native,
            block_height: self.c.height,
            block_timestamp: self.c.now,
            ..Default::default()
        }
    }
    /// Run a query the way a node answers one: executed against the state, nothing is kept.
    pub fn query(&mut self, q: &Query) -> Result<Vec<u8>, String> {
        self.query_as(q, Id(10))
    }
    pub fn query_as(&mut self, q: &Query, who: Id) -> Result<Vec<u8>, String> {
        let mut p = route(q.method());
        p.extend(q.args());
        let ctx = self.ctx(child_id(&[0x55; 32], 1), who.raw(), p, 0);
        let o = self.m.run(Entry::Handle, ctx, QUERY_GAS);
        self.m.restore(&self.c.state);
        if !matches!(o.end, End::Done | End::Leave) {
            return Err(format!("{:?}", o.end));
        }
        if !o.journal.sent.is_empty() {
            return Err("query sent a message".into());
        }
        match &o.journal.reply {
            Some((r, 0)) => unroute(q.method(), r)
                .map(|b| b.to_vec())
                .ok_or_else(|| format!("query reply has the wrong route: {:02x?}", r)),
            r => Err(format!("query reply {r:?}")),
        }
    }
    pub fn ask<T: Decode>(&mut self, q: &Query) -> Result<T, String> {
        let b = self.query(q)?;
        let s = &mut &b[..];
        let v = T::decode(s).map_err(|e| format!("{}: undecodable reply: {e}", q.method()))?;
        if !s.is_empty() {
            return Err(format!("{}: reply has trailing bytes", q.method()));
        }
        Ok(v)
    }
    pub fn ask_result<T: Decode>(&mut self, q: &Query) -> Result<Result<T, u8>, String> {
        let b = self.query(q)?;
        let s = &mut &b[..];
        let v = dec_result::<T>(s).ok_or_else(|| format!("{}: undecodable reply", q.method()))?;
        if !s.is_empty() {
            return Err(format!("{}: reply has trailing bytes", q.method()));
        }
        Ok(v)
    }

    pub fn step(&mut self, op: &Op) -> StepOut {
        match op {
            Op::Call { user, call, gas, value } => self.do_call(*user, call, *gas, value.0),
            Op::Token { pick, act } => self.do_token(*pick, act),
            Op::Reply { pick } => self.do_reply(*pick),
            Op::Woken { pick, gas } => {
                if self.c.woken.is_empty() {
                    return StepOut { skipped: true, ..Default::default() };
                }
                let i = *pick as usize % self.c.woken.len();
                let w = self.c.woken.remove(i);
                self.count("woken run");
                let mut left = w.gas;
                if *gas > 0 && *gas < left {
                    // the sender had attached correspondingly less
                    left = *gas;
                    self.c.clients[w.client].full_gas = false;
                }
                self.run_main(w.client, left, w.nonce, w.reserved, false)
            }
            Op::Blocks { n, ms } => {
                self.advance(*n, *ms);
                StepOut::default()
            }
            Op::EarlyWake { pick } => {
                if self.c.waiting.is_empty() {
                    return StepOut { skipped: true, ..Default::default() };
                }
                let i = *pick as usize % self.c.waiting.len();
                let w = self.c.waiting.remove(i);
                self.c.woken.push(w);
                self.count("early wake");
                StepOut::default()
            }
            Op::Probe(_) => StepOut::default(),
            Op::Vft { user, token, call, gas } => {
                let mut out = StepOut::default();
                match self.vft_message(token.raw(), user.raw(), call, *gas, &mut out) {
                    None => out.skipped = true,
                    Some(r) => {
                        self.count(&format!("token program: {} {}", call.method(), if r.end.failed() { "refused or aborted" } else { "accepted" }));
                        out.end = Some(r.end);
                    }
                }
                out
            }
            Op::Mint { user, token, amount } if self.c.vfts.contains_key(&token.raw()) => {
                let mut out = StepOut::default();
                self.vft_message(token.raw(), ADMIN.raw(), &VftCall::Mint { to: *user, value: *amount }, 0, &mut out);
                out
            }
            Op::Mint { user, token, amount } => {
                self.mint(*user, *token, amount.0);
                StepOut::default()
            }
        }
    }
    fn mint(&mut self, user: Id, token: Id, amount: U256) {
        let tot = self.c.minted.entry(token.raw()).or_default();
        let Some(nt) = tot.checked_add(amount) else { return };
        *tot = nt;
        let e = self.c.ledger.entry((token.raw(), user.raw())).or_default();
        *e += amount;
    }
    fn advance(&mut self, n: u32, ms: u64) {
        self.c.height += n;
        self.c.now += ms;
        let h = self.c.height;
        let mut due: Vec<Parked> = vec![];
        self.c.waiting.retain(|w| {
            if w.deadline <= h {
                due.push(w.clone());
                false
            } else {
                true
            }
        });
        due.sort_by_key(|w| w.deadline);
        for _ in &due {
            self.count("wait deadline expired");
        }
        self.c.woken.extend(due);
    }

    fn do_call(&mut self, user: Id, call: &Call, gas: u64, value: u128) -> StepOut {
        let value = value.min(self.c.native.get(&user.raw()).copied().unwrap_or(0));
        let id = self.next_id();
        self.c.clients.push(Client {
            id,
            user,
            call: call.clone(),
            value,
            full_gas: gas == 0,
            replies: vec![],
            born: self.c.height,
            runs: 0,
            failed: None,
        });
        if value > 0 {
            *self.c.native.get_mut(&user.raw()).unwrap() -= value;
        }
        let gas = if gas == 0 { FULL_GAS } else { gas };
        self.run_main(self.c.clients.len() - 1, gas, 0, 0, true)
    }

    /// A call without transfers, run on the state that the call before it left, neither recorded nor
    /// saved. Only for forks: after a failure the state has to be loaded again.
    pub fn bulk(&mut self, user: Id, call: &Call) -> End {
        let id = self.next_id();
        let ctx = self.ctx(id, user.raw(), call.payload(), 0);
        self.m.run(Entry::Handle, ctx, BLOCK_GAS).end
    }
    /// Make what `bulk` has done the state of the fork.
    pub fn bulk_done(&mut self) {
        self.m.save_into(&mut self.c.state);
    }

    fn run_main(&mut self, ci: usize, gas: u64, nonce: u32, reserved: u64, first: bool) -> StepOut {
        let cl = &mut self.c.clients[ci];
        cl.runs += 1;
        let (id, source, payload, value) = (cl.id, cl.user.raw(), cl.call.payload(), cl.value);
        let mut ctx = self.ctx(id, source, payload, value);
        if first {
            ctx.value_available += value;
        }
        ctx.nonce = nonce;
        ctx.already_reserved = reserved > 0;
        ctx.system_reserved = reserved;
        let o = self.m.run(Entry::Handle, ctx, gas);
        let mut out = StepOut { client: Some(ci), end: Some(o.end.clone()), gas_used: gas - o.gas_left, ..Default::default() };
        if o.end.failed() || o.end == End::Exit {
            if o.end == End::Exit {
                out.strange.push("the program called exit".into());
            }
            self.m.restore(&self.c.state);
            if o.end == End::OutOfGas {
                self.count(if first { "out of gas in call" } else { "out of gas in continuation" });
            }
            let (p, code) = error_payload(&o.end);
            let r = ClientReply { payload: p, code, value: if first { value } else { 0 } };
            if first && value > 0 {
                *self.c.native.get_mut(&source).unwrap() += value;
            }
            let cl = &mut self.c.clients[ci];
            cl.failed = Some(o.end.clone());
            cl.replies.push(r.clone());
            out.reply = Some(r);
            if o.system_reserved > 0 {
                self.count("system signal");
                let mut ctx = self.ctx(self.c.clients[ci].id, [0; 32], vec![], 0);
                ctx.msg_id = child_id(&id, 0x51515151);
                ctx.signal_from = Some(id);
                let s = self.m.run(Entry::HandleSignal, ctx, o.system_reserved);
                if s.end.failed() {
                    self.m.restore(&self.c.state);
                } else {
                    self.commit(&s.journal, ci, &mut out);
                }
                out.signal_end = Some(s.end);
            }
            return out;
        }
        if first {
            self.c.program_native += value;
        }
        self.commit(&o.journal, ci, &mut out);
        match o.end {
            End::Done | End::Leave => {
                let r = match o.journal.reply {
                    Some((payload, v)) => ClientReply { payload, code: [0, 1, 0, 0], value: v },
                    None => ClientReply { payload: vec![], code: [0, 0, 0, 0], value: 0 },
                };
                self.client_reply(ci, r.clone());
                out.reply = Some(r);
            }
            End::WaitUpTo(_) | End::WaitFor(_) | End::Wait => {
                if let Some((payload, v)) = o.journal.reply {
                    let r = ClientReply { payload, code: [0, 1, 0, 0], value: v };
                    self.client_reply(ci, r.clone());
                    out.reply = Some(r);
                }
                let d = match o.end {
                    End::WaitUpTo(d) | End::WaitFor(d) => d,
                    _ => 1_000_000,
                };
                let p = Parked {
                    client: ci,
                    id,
                    deadline: self.c.height + d.max(1),
                    gas: o.gas_left,
                    nonce: o.nonce,
                    reserved: o.system_reserved,
                };
                out.parked = true;
                self.c.waiting.push(p);
            }
            _ => unreachable!(),
        }
        out
    }
    fn client_reply(&mut self, ci: usize, r: ClientReply) {
        self.c.program_native -= r.value;
        let u = self.c.clients[ci].user.raw();
        *self.c.native.entry(u).or_default() += r.value;
        self.c.clients[ci].replies.push(r);
    }
    fn commit(&mut self, j: &Journal, ci: usize, out: &mut StepOut) {
        self.m.save_into(&mut self.c.state);
        for s in &j.sent {
            if s.dest == [0u8; 32] {
                out.events.push((Event::decode(&s.payload), s.dest, s.value));
                continue;
            }
            if s.value > 0 {
                self.c.program_native -= s.value;
                *self.c.native.entry(s.dest).or_default() += s.value;
            }
            if s.delay > 0 {
                out.strange.push("delayed message".into());
            }
            let deposit = j.deposits.iter().filter(|d| d.0 == s.id).map(|d| d.1).sum();
            out.new_reqs.push(self.c.reqs.len());
            self.c.reqs.push(Req {
                id: s.id,
                client: ci,
                token: s.dest,
                payload: s.payload.clone(),
                transfer: decode_transfer(&s.payload),
                value: s.value,
                gas: s.gas,
                deposit,
                reply: None,
                sent_at: self.c.height,
            });
        }
        for (mid, _delay) in &j.wakes {
            if let Some(i) = self.c.waiting.iter().position(|w| w.id == *mid) {
                let w = self.c.waiting.remove(i);
                self.c.woken.push(w);
            }
        }
    }
    pub fn unprocessed(&self) -> Vec<usize> {
        (0..self.c.reqs.len()).filter(|i| self.c.reqs[*i].reply.is_none()).collect()
    }
    pub fn undelivered(&self) -> Vec<usize> {
        (0..self.c.reqs.len()).filter(|i| self.c.reqs[*i].reply.is_some()).collect()
    }
    pub fn is_honest(&self, t: &Actor) -> bool {
        self.c.setup.honest.iter().any(|h| &h.raw() == t)
    }
    fn do_token(&mut self, pick: u8, act: &TokenAct) -> StepOut {
        let u = self.unprocessed();
        if u.is_empty() {
            return StepOut { skipped: true, ..Default::default() };
        }
        let i = u[pick as usize % u.len()];
        let honest = self.is_honest(&self.c.reqs[i].token);
        let tr = self.c.reqs[i].transfer;
        let act = match act {
            TokenAct::Lie(_) if honest => &TokenAct::Ok,
            a => a,
        };
        let ok = ("Vft", "TransferFrom", true).encode();
        let no = ("Vft", "TransferFrom", false).encode();
        let manual = [0u8, 1, 0, 0];
        let token = self.c.reqs[i].token;
        let mut out = StepOut::default();
        let (p, code, v) = match act {
            TokenAct::Ok if self.c.vfts.contains_key(&token) => {
                let (r, says) = self.vft_request(i, &mut out);
                match r.reply {
                    _ if r.end.failed() => {
                        let (p, c) = error_payload(&r.end);
                        (p, c, Verdict { says: Says::Error, moved: false })
                    }
                    Some(p) => (p, manual, Verdict { says: if says { Says::True } else { Says::False }, moved: says }),
                    None => (vec![], [0, 0, 0, 0], Verdict { says: Says::Nonsense, moved: says }),
                }
            }
            TokenAct::Ok => match tr {
                Some(tr) if self.do_move(i, tr) => (ok, manual, Verdict { says: Says::True, moved: true }),
                _ => {
                    let (p, c) = Fail::Panic.reply();
                    (p, c, Verdict { says: Says::Error, moved: false })
                }
            },
            TokenAct::Fail(f) => {
                self.count(&format!("token fault {f:?}"));
                let (p, c) = f.reply();
                (p, c, Verdict { says: Says::Error, moved: false })
            }
            TokenAct::False => {
                self.count("token returns false");
                (no, manual, Verdict { says: Says::False, moved: false })
            }
            TokenAct::Lie(l) => {
                self.count("rogue token reply");
                match l {
                    Lie::TrueNoMove => (ok, manual, Verdict { says: Says::True, moved: false }),
                    Lie::FalseMoved => {
                        let m = tr.map_or(false, |t| self.do_move(i, t));
                        (no, manual, Verdict { says: Says::False, moved: m })
                    }
                    Lie::ErrMoved(f) => {
                        let m = tr.map_or(false, |t| self.do_move(i, t));
                        let (p, c) = f.reply();
                        (p, c, Verdict { says: Says::Error, moved: m })
                    }
                    Lie::Garbage(b) => (b.clone(), manual, Verdict { says: Says::Nonsense, moved: false }),
                    Lie::WrongService => (
                        ("Vtf", "TransferFrom", true).encode(),
                        manual,
                        Verdict { says: Says::Misroute, moved: false },
                    ),
                    Lie::WrongMethod => (
                        ("Vft", "Transfer", true).encode(),
                        manual,
                        Verdict { says: Says::Misroute, moved: false },
                    ),
                    Lie::StringReply => (
                        "Panic occurred: not really".encode(),
                        manual,
                        Verdict { says: Says::Nonsense, moved: false },
                    ),
                    Lie::Empty => (vec![], [0, 0, 0, 0], Verdict { says: Says::Nonsense, moved: false }),
                    Lie::TrueWithTail => {
                        let mut p = ok;
                        p.extend([1, 2, 3]);
                        (p, manual, Verdict { says: Says::Nonsense, moved: false })
                    }
                }
            }
        };
        let r = &mut self.c.reqs[i];
        r.reply = Some((p, code, v));
        out.req = Some(r.clone());
        out
    }
    /// The exchange's request, carried out by the real token program with the gas it was given.
    fn vft_request(&mut self, i: usize, out: &mut StepOut) -> (vft::Ran, bool) {
        let r = self.c.reqs[i].clone();
        let ids = r.transfer.and_then(|(f, t, v)| Some((Id::of(&f)?, Id::of(&t)?, v)));
        let call = match ids {
            Some((from, to, value)) => VftCall::TransferFrom { from, to, value: A(value) },
            None => VftCall::Raw(r.payload.clone()),
        };
        if call.payload() != r.payload {
            out.token_wrong.push(("request".into(), format!("the exchange asks the token for {:02x?}", r.payload)));
        }
        let had = self.c.vfts[&r.token].books.clone();
        let gas = r.gas.unwrap_or(FULL_GAS);
        let ran = self.vft_message(r.token, INV.raw(), &call, gas, out).expect("a token program");
        self.count("token request carried out by the real token program");
        let moved = self.c.vfts[&r.token].books != had;
        (ran, moved)
    }
    fn do_move(&mut self, i: usize, (from, to, amount): (Actor, Actor, U256)) -> bool {
        let t = self.c.reqs[i].token;
        let have = self.c.ledger.get(&(t, from)).copied().unwrap_or_default();
        if have < amount {
            return false;
        }
        self.c.ledger.insert((t, from), have - amount);
        *self.c.ledger.entry((t, to)).or_default() += amount;
        true
    }
    fn do_reply(&mut self, pick: u8) -> StepOut {
        let u = self.undelivered();
        if u.is_empty() {
            return StepOut { skipped: true, ..Default::default() };
        }
        let i = u[pick as usize % u.len()];
        let r = self.c.reqs.remove(i);
        if self.c.clients[r.client].replies.is_empty() {
            self.count("reply delivered in time");
        } else {
            self.count("reply delivered after its caller was answered");
        }
        let (p, code, _) = r.reply.clone().unwrap();
        let mut ctx = self.ctx(child_id(&r.id, 0xffff_ffff), r.token, p, 0);
        ctx.reply_to = Some(r.id);
        ctx.reply_code = Some(code);
        let o = self.m.run(Entry::HandleReply, ctx, r.deposit);
        let mut out = StepOut { end: Some(o.end.clone()), req: Some(r.clone()), ..Default::default() };
        if o.end.failed() {
            self.m.restore(&self.c.state);
        } else {
            self.commit(&o.journal, r.client, &mut out);
            if o.journal.reply.is_some() {
                out.strange.push("reply sent from handle_reply".into());
            }
        }
        out
    }
    pub fn invariant_holds(&self, token: &Actor) -> U256 {
        if token == &ZERO.raw() {
            U256::from(self.c.program_native)
        } else {
            self.c.ledger.get(&(*token, INV.raw())).copied().unwrap_or_default()
        }
    }
    pub fn quiet(&self) -> bool {
        self.c.reqs.is_empty() && self.c.waiting.is_empty() && self.c.woken.is_empty()
    }
    pub fn accounts(&self) -> BTreeSet<Actor> {
        let mut s: BTreeSet<Actor> = self.c.setup.users.iter().map(|u| u.raw()).collect();
        s.insert(ADMIN.raw());
        s.insert(ZERO.raw());
        s.insert(INV.raw());
        for t in self.c.setup.honest.iter().chain(&self.c.setup.rogue) {
            s.insert(t.raw());
        }
        s
    }
}
