//! Seeded choice of the next step: what clients ask, which message runs next, which fault strikes.
use crate::chain::*;
use crate::oracle::Runner;
use crate::refmath as rm;
use crate::types::*;
use crate::vft::{Role, VftCall, ROLES};
use crate::world::*;
use primitive_types::{U256, U512};

pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Rng {
        let mut r = Rng(seed ^ 0x9E3779B97F4A7C15);
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 {
            0
        } else {
            ((self.next() as u128 * n as u128) >> 64) as u64
        }
    }
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        lo + self.below((hi - lo + 1) as u64) as i64
    }
    pub fn p(&mut self, pct: u64) -> bool {
        self.below(100) < pct
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len() as u64) as usize]
    }
    /// log-uniform below 2^bits
    pub fn amount(&mut self, lo: u32, hi: u32) -> U256 {
        let b = self.range(lo as i64, hi as i64) as u32;
        let v = U256([self.next(), self.next(), self.next(), self.next()]);
        let top = U256::one() << b;
        match self.below(8) {
            0 => top,
            1 => top - 1,
            _ => top + v % top,
        }
    }
    /// weighted choice: index into the weights
    pub fn weighted(&mut self, w: &[u32]) -> usize {
        let t: u32 = w.iter().sum();
        let mut x = self.below(t as u64) as u32;
        for (i, v) in w.iter().enumerate() {
            if x < *v {
                return i;
            }
            x -= v;
        }
        w.len() - 1
    }
}
pub fn mix(a: u64, b: u64) -> u64 {
    let mut r = Rng::new(a.wrapping_mul(0x2545F4914F6CDD1D) ^ b);
    r.next() ^ r.next().rotate_left(17)
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Profile {
    Amm,
    Token,
    Admin,
    Mixed,
}

pub struct Gen {
    pub rng: Rng,
    pub profile: Profile,
    setup_left: Vec<Op>,
    setup_stage: u32,
    tiers: Vec<FeeTier>,
    pub steps_left: u32,
    faults: u64,
    pools_target: u32,
    big: bool,
    deep_x: u32,
    /// few ticks, far apart: the steps of a swap end where its search for a tick ends
    sparse: bool,
    /// how often (%) a call that would be refused is thrown away and drawn again
    keen: u64,
    /// how often (%) a position repeats the liquidity and a bound of another one
    twins: u64,
    /// many ticks close together
    dense: bool,
    /// many small positions in each pool from the start, swaps across many of them, long routes
    wide: bool,
    /// for most of the run the tokens hardly answer, so that requests pile up and answers come very late
    patient: bool,
    pub focus: Focus,
    crowds: u32,
    /// how often (%) a probe is the one of long lists
    pub crowd_pct: u64,
    /// and how often then of one that fills whole answers
    pub long_pct: u64,
    /// how many of them create as many pools as there can be
    pub pools_pct: u64,
}
/// factor on the weight of every kind of call, in the order of the table in gen_call_op
pub type Focus = [u32; 16];

const TIERS: [(u128, u16); 14] = [
    (999_999_999_999, 1),
    (999_999_999_000, 20),
    (10_000_000_000, 10),
    (100_000_000, 1),
    (500_000_000, 1),
    (3_000_000_000, 5),
    (10_000_000_000, 100),
    (50_000_000_000, 2),
    (200_000_000_000, 7),
    (900_000_000_000, 64),
    (999_900_000_000, 3),
    (0, 4),
    (1, 10),
    (600_000_000, 33),
];

pub fn gen_setup(rng: &mut Rng, profile: Profile) -> Setup {
    let protocol_fee = match rng.below(8) {
        0 => 0,
        1 => rm::PCT,
        2 => 1,
        3 => rng.below(rm::PCT as u64) as u128,
        _ => *rng.pick(&[10_000_000_000u128, 100_000_000_000, 250_000_000_000]),
    };
    // now and then many users and many tokens
    let crew = rng.p(4);
    let nu = if crew { rng.range(5, 12) } else { rng.range(2, 4) } as u8;
    let (nh, nr) = match profile {
        Profile::Token => (rng.range(1, 3) as u8, rng.range(0, 2) as u8),
        _ => (rng.range(2, 3) as u8, (rng.p(15)) as u8),
    };
    let nh = if crew { rng.range(4, 9) as u8 } else { nh };
    Setup {
        protocol_fee: P(protocol_fee),
        honest: (0..nh).map(|i| Id(50 + i)).collect(),
        rogue: (0..nr).map(|i| Id(60 + i)).collect(),
        users: (0..nu).map(|i| Id(10 + i)).collect(),
        start_ms: 1_000_000 + rng.below(1 << 41),
        vft: false,
    }
}

impl Gen {
    pub fn new(seed: u64, profile: Profile) -> Gen {
        let mut rng = Rng::new(seed);
        let patient = match profile {
            Profile::Token => rng.p(12),
            Profile::Mixed => rng.p(5),
            _ => false,
        };
        let n = if patient || rng.p(12) { rng.range(120, 260) } else { rng.range(12, 90) };
        let faults = *rng.pick(&[0, 10, 25, 50, 80]);
        let mut tiers = vec![];
        if rng.p(8) {
            // fees so large for the liquidity that their counters wrap around
            tiers.push(FeeTier { fee: rm::PCT - 1, tick_spacing: 1 + rng.below(3) as u16 });
        }
        for _ in 0..rng.range(1, 3) {
            let (fee, tick_spacing) = if rng.p(85) {
                *rng.pick(&TIERS)
            } else {
                (rng.below(rm::PCT as u64) as u128, rng.range(1, 100) as u16)
            };
            let t = FeeTier { fee, tick_spacing };
            if !tiers.contains(&t) {
                tiers.push(t);
            }
        }
        let pools_target = match profile {
            Profile::Token => rng.below(2) as u32,
            _ => rng.range(1, 3) as u32,
        };
        let big = rng.p(12);
        let deep_x = rng.range(30, 110) as u32;
        let sparse = rng.p(18);
        let keen = *rng.pick(&[0, 60, 85, 95]);
        let twins = if rng.p(15) { 75 } else { 10 };
        let wide = rng.p(5);
        let dense = !sparse && (wide || rng.p(15));
        Gen { rng, profile, sparse, keen, twins, dense, wide, patient, setup_left: vec![], setup_stage: 0, tiers, steps_left: n as u32, faults, pools_target, big, deep_x, focus: [1; 16], crowds: 0, crowd_pct: 2, long_pct: 0, pools_pct: 0 }
    }

    fn users(&self, r: &Runner) -> Vec<Id> {
        r.s.c.setup.users.clone()
    }
    fn user(&mut self, r: &Runner) -> Id {
        let u = self.users(r);
        *self.rng.pick(&u)
    }
    fn tokens(&self, r: &Runner) -> Vec<Id> {
        r.s.c.setup.honest.iter().chain(&r.s.c.setup.rogue).copied().collect()
    }
    fn pool_keys(&self, r: &Runner) -> Vec<PoolKey> {
        r.w.pool_keys.clone()
    }

    /// Next op, or None when the run is over.
    pub fn next(&mut self, r: &Runner) -> Option<Op> {
        loop {
            if let Some(op) = self.setup_left.pop() {
                return Some(op);
            }
            if self.setup_stage < 100 {
                self.fill_setup(r);
                continue;
            }
            if self.steps_left == 0 {
                return None;
            }
            self.steps_left -= 1;
            if r.s.c.setup.vft && self.rng.p(45) {
                return Some(self.gen_vft(r));
            }
            return Some(self.step(r));
        }
    }
    fn call(user: Id, call: Call) -> Op {
        Op::Call { user, call, gas: 0, value: P(0) }
    }
    fn fill_setup(&mut self, r: &Runner) {
        let st = self.setup_stage;
        self.setup_stage += 1;
        let users = self.users(r);
        let toks = self.tokens(r);
        match st {
            // money
            0 => {
                let per = self.rng.range(60, if self.big { 240 } else { 130 }) as u32;
                for u in &users {
                    for t in &toks {
                        if self.rng.p(95) {
                            let a = self.rng.amount(per.saturating_sub(20), per);
                            self.setup_left.push(Op::Mint { user: *u, token: *t, amount: A(a) });
                        }
                        if r.s.c.vfts.contains_key(&t.raw()) && self.rng.p(90) {
                            let value = A(if self.rng.p(80) { U256::MAX } else { self.rng.amount(20, per) });
                            let call = VftCall::Approve { spender: INV, value };
                            self.setup_left.push(Op::Vft { user: *u, token: *t, call, gas: 0 });
                        }
                    }
                }
            }
            1 => {
                // deposits, run to completion (stack: last pushed runs first)
                if self.profile == Profile::Token && self.rng.p(50) {
                    return;
                }
                for u in &users {
                    for t in &toks {
                        let have = r.s.c.ledger.get(&(t.raw(), u.raw())).copied().unwrap_or_default();
                        if have.is_zero() || self.rng.p(5) {
                            continue;
                        }
                        let keep = if self.rng.p(40) { U256::zero() } else { have / (2 + self.rng.below(6)) };
                        let amount = A(have - keep);
                        self.setup_left.push(Op::Woken { pick: 0, gas: 0 });
                        self.setup_left.push(Op::Reply { pick: 0 });
                        self.setup_left.push(Op::Token { pick: 0, act: TokenAct::Ok });
                        self.setup_left.push(Self::call(*u, Call::Deposit { token: *t, amount }));
                    }
                    if self.rng.p(40) {
                        let v = self.rng.amount(1, 90).as_u128();
                        self.setup_left.push(Op::Call { user: *u, call: Call::DepositVara, gas: 0, value: P(v) });
                    }
                }
            }
            2 => {
                for t in self.tiers.clone() {
                    self.setup_left.push(Self::call(ADMIN, Call::AddFeeTier(t)));
                }
            }
            3 => {
                for _ in 0..self.pools_target {
                    if let Some(c) = self.gen_create_pool(r, true) {
                        let u = self.user(r);
                        self.setup_left.push(Self::call(u, c));
                    }
                }
                if self.rng.p(60) {
                    let ms = 3000 * self.rng.range(0, 50) as u64;
                    self.setup_left.push(Op::Blocks { n: 1, ms });
                }
            }
            7..=14 if !self.dense => self.setup_stage = 100,
            4..=14 => {
                if self.profile == Profile::Token && self.rng.p(60) {
                    return;
                }
                for k in self.pool_keys(r) {
                    for _ in 0..if self.wide { 6 } else { 1 } {
                        if !self.rng.p(75) {
                            continue;
                        }
                        let u = if self.wide && self.rng.p(60) { users[0] } else { self.user(r) };
                        if let Some(c) = self.gen_position(r, &u, &k) {
                            self.setup_left.push(Self::call(u, c));
                        }
                    }
                }
            }
            _ => self.setup_stage = 100,
        }
    }

    fn step(&mut self, r: &Runner) -> Op {
        // messages waiting to be run
        let un = r.s.unprocessed().len();
        let und = r.s.undelivered().len();
        let wk = r.s.c.woken.len();
        let wt = r.s.c.waiting.len();
        let eager = if self.patient && self.steps_left > 60 { 1 } else { 30 };
        let w = [
            if un > 0 { eager } else { 0 },
            if und > 0 { eager } else { 0 },
            if wk > 0 { eager } else { 0 },
            match self.profile {
                Profile::Token => 8,
                _ => 6,
            },
            if wt > 0 { 2 + self.faults as u32 / 20 } else { 0 },
            60,
        ];
        match self.rng.weighted(&w) {
            0 => {
                let pick = if self.rng.p(70) { 0 } else { self.rng.below(if self.patient { 64 } else { 8 }) as u8 };
                let rogue = !r.s.is_honest(&r.s.c.reqs[r.s.unprocessed()[pick as usize % un]].token);
                Op::Token { pick, act: self.gen_act(rogue) }
            }
            1 => Op::Reply { pick: if self.rng.p(60) { 0 } else { self.rng.below(if self.patient { 64 } else { 8 }) as u8 } },
            2 => {
                let gas = if self.rng.below(100) < self.faults / 6 {
                    let top = *self.rng.pick(&[20_000_000u64, 200_000_000, 1_000_000_000, 3_000_000_000]);
                    self.rng.below(top) + 1
                } else {
                    0
                };
                Op::Woken { pick: if self.rng.p(70) { 0 } else { self.rng.below(8) as u8 }, gas }
            }
            3 => self.gen_time(wt > 0),
            4 => Op::EarlyWake { pick: self.rng.below(8) as u8 },
            _ => self.gen_call_op(r),
        }
    }
    /// A call of a token program by somebody.
    fn gen_vft(&mut self, r: &Runner) -> Op {
        let token = *self.rng.pick(&r.s.c.setup.honest);
        let books = &r.s.c.vfts[&token.raw()].books;
        let mut all: Vec<Id> = r.s.c.setup.users.clone();
        all.extend([ADMIN, INV, token]);
        if self.rng.p(5) {
            all.push(ZERO);
        }
        let holder = |a: &Actor| books.balances.get(a).copied().unwrap_or_default();
        let k = self.rng.weighted(&[14, 12, 14, 16, 14, 8, 8, 2, 6, 2]);
        // who may do it, mostly
        let role = match k {
            0 => Some(Role::Minter),
            1 => Some(Role::Burner),
            5 | 6 => Some(Role::Admin),
            _ => None,
        };
        let mut user = *self.rng.pick(&all);
        if let Some(role) = role {
            let may: Vec<Id> = books.roles[role as usize].iter().filter_map(Id::of).collect();
            if !may.is_empty() && self.rng.p(70) {
                user = *self.rng.pick(&may);
            }
        }
        let (mut a, mut b) = (*self.rng.pick(&all), *self.rng.pick(&all));
        if k == 3 && self.rng.p(75) {
            // somebody who allowed something
            let given: Vec<_> = books.allowances.keys().collect();
            if !given.is_empty() {
                let (o, s) = **self.rng.pick(&given);
                if let (Some(o), Some(s)) = (Id::of(&o), Id::of(&s)) {
                    (a, user) = (o, s);
                }
            }
        }
        if self.rng.p(4) {
            b = a;
        }
        let top = match k {
            0 => U256::MAX - books.supply,
            1 => holder(&a.raw()),
            2 => holder(&user.raw()),
            3 => holder(&a.raw()).min(books.allowances.get(&(a.raw(), user.raw())).copied().unwrap_or(U256::MAX)),
            _ => holder(&user.raw()),
        };
        let value = A(match self.rng.below(12) {
            0 => U256::zero(),
            1 => top,
            2 => top.saturating_add(U256::one()),
            3 => U256::MAX,
            4 => U256::one(),
            5 if k == 3 => books.allowances.get(&(a.raw(), user.raw())).copied().unwrap_or_default(),
            _ if k == 0 || k == 4 => self.rng.amount(1, 120),
            _ => self.rng.amount(0, 255) % top.max(U256::one()),
        });
        // money for what comes after
        let value = if k == 0 && value.0 > U256::one() << 200 && self.rng.p(85) { A(self.rng.amount(1, 130)) } else { value };
        let role = *self.rng.pick(&ROLES);
        let call = match k {
            0 => VftCall::Mint { to: a, value },
            1 => VftCall::Burn { from: a, value },
            2 => VftCall::Transfer { to: a, value },
            3 => VftCall::TransferFrom { from: a, to: b, value },
            4 => VftCall::Approve { spender: a, value },
            5 => VftCall::Grant { role, to: a },
            6 => {
                let have: Vec<Id> = books.roles[role as usize].iter().filter_map(Id::of).collect();
                if !have.is_empty() && self.rng.p(60) {
                    a = *self.rng.pick(&have);
                }
                VftCall::Revoke { role, from: a }
            }
            7 => VftCall::SetTransferFail { flag: self.rng.p(70) },
            8 => VftCall::Ask { n: self.rng.below(7) as u8 },
            _ => {
                let n = self.rng.below(90);
                let mut p = if self.rng.p(60) { VftCall::Mint { to: a, value }.payload() } else { vec![] };
                // never the whole of it: that would be a call
                let at = self.rng.below(p.len().max(1) as u64) as usize;
                p.truncate(at);
                if p.is_empty() {
                    p = (0..n).map(|_| self.rng.next() as u8).collect();
                }
                VftCall::Raw(p)
            }
        };
        if k == 6 && matches!(&call, VftCall::Revoke { role: Role::Admin, .. }) && books.roles[0].len() == 1 && self.rng.p(80) {
            return Op::Vft { user, token, call: VftCall::Grant { role: Role::Admin, to: a }, gas: 0 };
        }
        let gas = if self.rng.below(100) < self.faults / 6 { 1 + self.rng.below(1_500_000_000) } else { 0 };
        Op::Vft { user, token, call, gas }
    }
    fn gen_act(&mut self, rogue: bool) -> TokenAct {
        if rogue && self.rng.p(50) {
            let l = match self.rng.below(11) {
                0 | 1 => Lie::TrueNoMove,
                2 => Lie::FalseMoved,
                3 => Lie::ErrMoved(*self.rng.pick(&FAILS)),
                4 => {
                    let n = self.rng.below(40);
                    Lie::Garbage((0..n).map(|_| self.rng.next() as u8).collect())
                }
                5 => Lie::WrongService,
                6 => Lie::WrongMethod,
                7 => Lie::StringReply,
                8 => Lie::Empty,
                9 => Lie::TrueWithTail,
                _ => Lie::Garbage(vec![0; self.rng.below(4) as usize]),
            };
            return TokenAct::Lie(l);
        }
        if self.rng.below(100) < self.faults {
            if self.rng.p(30) {
                TokenAct::False
            } else {
                TokenAct::Fail(*self.rng.pick(&FAILS))
            }
        } else {
            TokenAct::Ok
        }
    }
    fn gen_time(&mut self, waiting: bool) -> Op {
        let n = if waiting {
            match self.rng.below(8) {
                0 => 99,
                1 => 100,
                2 => 101,
                3 => self.rng.range(80, 250) as u32,
                4 => self.rng.range(20, 70) as u32,
                _ => self.rng.range(1, 5) as u32,
            }
        } else {
            self.rng.range(1, 6) as u32
        };
        // hours, months, years
        let n = if self.patient && self.rng.p(15) { 1 << self.rng.range(8, 24) } else { n };
        let ms = match self.rng.below(10) {
            0 => 0,
            1 => self.rng.below(1 << 32),
            2 => self.rng.below(1 << 40),
            3 => n as u64 * BLOCK_MS * 10,
            4 => 1,
            _ => n as u64 * BLOCK_MS,
        };
        Op::Blocks { n, ms }
    }
    fn gen_gas(&mut self) -> u64 {
        match self.rng.below(5) {
            0 => self.rng.below(2_000_000_000) + 1,
            1 => self.rng.below(20_000_000_000) + 1,
            2 => 42_000_000_000 + self.rng.below(3_000_000_000),
            3 => 84_000_000_000 + self.rng.below(4_000_000_000),
            _ => self.rng.below(120_000_000_000) + 1,
        }
    }

    fn gen_call_op(&mut self, r: &Runner) -> Op {
        let w: [u32; 16] = match self.profile {
            //            swap route pos rm claim xfer dep wd pair wpair vara admin pool proto raw/query probe
            Profile::Amm => [34, 6, 16, 8, 8, 4, 2, 2, 1, 1, 2, 2, 2, 3, 3, 6],
            Profile::Token => [3, 1, 3, 2, 1, 1, 24, 20, 14, 14, 8, 1, 1, 1, 5, 1],
            Profile::Admin => [10, 2, 8, 5, 3, 5, 2, 2, 1, 1, 2, 22, 14, 10, 6, 7],
            Profile::Mixed => [18, 4, 12, 7, 6, 4, 8, 7, 5, 5, 4, 5, 4, 4, 4, 3],
        };
        let w: Vec<u32> = w.iter().zip(&self.focus).map(|(a, b)| a * b).collect();
        for _ in 0..20 {
            let i = self.rng.weighted(&w);
            let mut user = self.user(r);
            if self.rng.p(4) {
                user = ADMIN;
            } else if self.rng.p(2) {
                let t = self.tokens(r);
                user = *self.rng.pick(&t);
            }
            let mut value = P(0);
            let c = match i {
                0 => self.gen_swap(r, &mut user),
                1 => self.gen_route(r, &mut user),
                2 => {
                    let ks = self.pool_keys(r);
                    if ks.is_empty() {
                        None
                    } else {
                        let k = *self.rng.pick(&ks);
                        self.gen_position(r, &user, &k)
                    }
                }
                3 | 4 | 5 => {
                    let owners: Vec<Id> = r.w.positions.keys().filter_map(Id::of).filter(|i| i.0 > 1).collect();
                    if !owners.is_empty() && self.rng.p(92) {
                        user = *self.rng.pick(&owners);
                    }
                    let n = r.w.pos(&user.raw()).len() as u32;
                    let index = match self.rng.below(12) {
                        0 => n,
                        1 => n + self.rng.below(5) as u32,
                        2 if n > 0 => n - 1,
                        3 => u32::MAX,
                        _ => self.rng.below(n.max(1) as u64) as u32,
                    };
                    Some(match i {
                        3 => Call::RemovePosition { index },
                        4 => Call::ClaimFee { index },
                        _ => Call::TransferPosition { index, to: self.gen_receiver(r, user) },
                    })
                }
                6 => {
                    let token = self.gen_token(r);
                    let have = r.s.c.ledger.get(&(token.raw(), user.raw())).copied().unwrap_or_default();
                    Some(Call::Deposit { token, amount: A(self.part(have)) })
                }
                7 => {
                    let token = self.gen_token(r);
                    let have = r.w.bal(&user.raw(), &token.raw());
                    let amount = if self.rng.p(30) { None } else { Some(A(self.part(have))) };
                    Some(Call::Withdraw { token, amount })
                }
                8 => {
                    let (a, b) = (self.gen_token(r), self.gen_token(r));
                    let f = |g: &mut Gen, t: Id| {
                        let have = r.s.c.ledger.get(&(t.raw(), user.raw())).copied().unwrap_or_default();
                        A(g.part(have))
                    };
                    Some(Call::DepositPair { x: (a, f(self, a)), y: (b, f(self, b)) })
                }
                9 => {
                    let (a, b) = (self.gen_token(r), self.gen_token(r));
                    let f = |g: &mut Gen, t: Id| {
                        if g.rng.p(30) {
                            None
                        } else {
                            Some(A(g.part(r.w.bal(&user.raw(), &t.raw()))))
                        }
                    };
                    Some(Call::WithdrawPair { x: (a, f(self, a)), y: (b, f(self, b)) })
                }
                10 => Some(if self.rng.p(50) {
                    if self.rng.p(95) {
                        value = P(self.rng.amount(0, 90).as_u128());
                    }
                    Call::DepositVara
                } else {
                    let have = r.w.bal(&user.raw(), &ZERO.raw());
                    Call::WithdrawVara(if self.rng.p(30) { None } else { Some(A(self.part(have))) })
                }),
                11 => {
                    if self.rng.p(70) {
                        user = ADMIN;
                    }
                    Some(self.gen_admin(r))
                }
                12 => self.gen_create_pool(r, false),
                13 => {
                    let ks = self.pool_keys(r);
                    if ks.is_empty() {
                        None
                    } else {
                        let k = *self.rng.pick(&ks);
                        if self.rng.p(70) {
                            if let Some(x) = Id::of(&r.w.pools[&k].pool.fee_receiver) {
                                if x.0 > 1 {
                                    user = x;
                                }
                            }
                        }
                        Some(Call::WithdrawProtocolFee { key: self.maybe_odd_key(r, Pk::of(&k)) })
                    }
                }
                14 => Some(self.gen_raw(r)),
                _ => {
                    return self.gen_probe(r);
                }
            };
            let Some(mut call) = c else { continue };
            // the end of a list is worth asking about even in runs that like calls to succeed
            let edge = match &call {
                Call::RemovePosition { index } | Call::ClaimFee { index } | Call::TransferPosition { index, .. } => {
                    *index == r.w.pos(&user.raw()).len() as u32 && self.rng.p(60)
                }
                _ => false,
            };
            let mut tries = 0;
            let mut dull = false;
            while !edge && tries < 5 && !matches!(call, Call::Raw(_) | Call::Query(_)) {
                let swap = matches!(call, Call::Swap { .. } | Call::SwapRoute { .. });
                if !swap && !self.rng.p(self.keen) {
                    break;
                }
                let env = crate::model::Env { caller: user.raw(), now: r.s.c.now, height: r.s.c.height, value: value.0 };
                let Err(why) = crate::model::apply(&mut r.w.clone(), &env, &call) else { break };
                // a walk over the whole empty range is slow and shows little
                dull = why == "tick limit reached";
                if swap && !self.rng.p(if dull { self.keen.max(75) } else { self.keen }) {
                    break;
                }
                tries += 1;
                match &mut call {
                    Call::Swap { amount, .. } | Call::SwapRoute { amount, .. } if amount.0 > U256::one() => {
                        amount.0 = amount.0 >> self.rng.range(1, 24) as usize;
                    }
                    _ => tries = 9,
                }
            }
            if tries >= 5 && self.rng.p(if dull { self.keen.max(75) } else { self.keen }) {
                continue;
            }
            if value.0 == 0 && self.rng.p(2) {
                value = P(self.rng.amount(1, 60).as_u128());
            }
            let gas = if self.rng.below(100) < self.faults / 8 { self.gen_gas() } else { 0 };
            return Op::Call { user, call, gas, value };
        }
        Op::Blocks { n: 1, ms: BLOCK_MS }
    }
    fn gen_receiver(&mut self, r: &Runner, user: Id) -> Id {
        match self.rng.below(12) {
            0 => user,
            1 => ADMIN,
            2 => INV,
            3 => ZERO,
            _ => self.user(r),
        }
    }
    fn gen_token(&mut self, r: &Runner) -> Id {
        match self.rng.below(40) {
            0 => ZERO,
            1 => INV,
            2 => self.user(r),
            _ => {
                let t = self.tokens(r);
                *self.rng.pick(&t)
            }
        }
    }
    fn part(&mut self, have: U256) -> U256 {
        match self.rng.below(14) {
            0 => have,
            1 => have.saturating_add(U256::one()),
            2 => U256::zero(),
            3 => U256::one(),
            4 => have.saturating_sub(U256::one()),
            5 => U256::MAX,
            6 => self.rng.amount(0, 255),
            _ => {
                if have.is_zero() {
                    self.rng.amount(0, 60)
                } else {
                    let d = self.rng.below(20) + 1;
                    have / d
                }
            }
        }
    }
    fn maybe_odd_key(&mut self, r: &Runner, k: Pk) -> Pk {
        match self.rng.below(60) {
            0 => Pk { x: k.y, y: k.x, tier: k.tier },
            1 => Pk { x: k.x, y: k.x, tier: k.tier },
            2 => {
                let t = self.tokens(r);
                Pk { x: *self.rng.pick(&t), y: *self.rng.pick(&t), tier: k.tier }
            }
            3 => Pk { x: k.x, y: k.y, tier: FeeTier { fee: k.tier.fee ^ 1, ..k.tier } },
            4 => Pk { x: k.x, y: k.y, tier: *self.rng.pick(&self.tiers.clone()) },
            _ => k,
        }
    }
    fn gen_admin(&mut self, r: &Runner) -> Call {
        match self.rng.below(10) {
            0..=3 => {
                let t = match self.rng.below(8) {
                    0 => FeeTier { fee: rm::PCT + self.rng.below(3) as u128, tick_spacing: 1 },
                    1 => FeeTier { fee: rm::PCT - 1, tick_spacing: self.rng.range(99, 102) as u16 },
                    2 => FeeTier { fee: 0, tick_spacing: self.rng.below(3) as u16 },
                    3 if !r.w.fee_tiers.is_empty() => *self.rng.pick(&r.w.fee_tiers),
                    4 => FeeTier { fee: self.rng.next() as u128 * self.rng.next() as u128, tick_spacing: self.rng.next() as u16 },
                    _ => {
                        let (fee, tick_spacing) = *self.rng.pick(&TIERS);
                        FeeTier { fee, tick_spacing }
                    }
                };
                Call::AddFeeTier(t)
            }
            4 | 5 => {
                let t = if !r.w.fee_tiers.is_empty() && self.rng.p(85) {
                    *self.rng.pick(&r.w.fee_tiers)
                } else {
                    FeeTier { fee: 77, tick_spacing: 7 }
                };
                Call::RemoveFeeTier(t)
            }
            6 | 7 => {
                let v = match self.rng.below(8) {
                    0 => 0,
                    1 => rm::PCT,
                    2 => rm::PCT - 1,
                    3 => 1,
                    _ => self.rng.below(rm::PCT as u64) as u128,
                };
                Call::ChangeProtocolFee(P(v))
            }
            _ => {
                let ks = self.pool_keys(r);
                if ks.is_empty() {
                    return Call::ChangeProtocolFee(P(5));
                }
                let k = Pk::of(self.rng.pick(&ks));
                let u = self.user(r);
                Call::ChangeFeeReceiver { key: self.maybe_odd_key(r, k), to: self.gen_receiver(r, u) }
            }
        }
    }
    fn gen_create_pool(&mut self, r: &Runner, tidy: bool) -> Option<Call> {
        let mut toks = self.tokens(r);
        if self.rng.p(12) {
            toks.push(ZERO);
        }
        if toks.len() < 2 {
            return None;
        }
        let a = *self.rng.pick(&toks);
        let mut b = *self.rng.pick(&toks);
        let mut n = 0;
        while b == a && n < 8 && (tidy || self.rng.p(90)) {
            b = *self.rng.pick(&toks);
            n += 1;
        }
        let tier = if !r.w.fee_tiers.is_empty() && (tidy || self.rng.p(92)) {
            *self.rng.pick(&r.w.fee_tiers)
        } else {
            *self.rng.pick(&self.tiers.clone())
        };
        if tier.tick_spacing == 0 {
            return None;
        }
        let s = tier.tick_spacing as i32;
        let m = rm::max_tick(tier.tick_spacing);
        let pick = if self.sparse && self.rng.p(60) { 14 } else { self.rng.below(14) };
        let mut tick = match pick {
            14 => (self.rng.range(-3, 3) as i32 * 64 - m / s % 64) * s,
            0 => self.rng.range(-(m as i64), m as i64) as i32,
            1 => m - s * self.rng.range(0, 5) as i32,
            2 => -m + s * self.rng.range(0, 5) as i32,
            3 => s * self.rng.range(-300, 300) as i32,
            4 => s * 64 * self.rng.range(-3, 3) as i32,
            5 => m,
            6 => self.rng.range(-30000, 30000) as i32,
            _ => s * self.rng.range(-20, 20) as i32,
        };
        tick = rm::align(tick, tier.tick_spacing).clamp(-m, m);
        if !tidy && self.rng.p(10) {
            tick += self.rng.range(-2, 2) as i32;
        }
        if !tidy && self.rng.p(3) {
            tick = *self.rng.pick(&[i32::MIN + 1, i32::MAX, rm::MAX_TICK + 1, -rm::MAX_TICK - 1, m + s, -m - s]);
        }
        let lo = rm::price_of_tick(tick.clamp(-rm::MAX_TICK, rm::MAX_TICK)).unwrap();
        let hi = rm::price_of_tick((tick.clamp(-rm::MAX_TICK, rm::MAX_TICK) + s).min(rm::MAX_TICK)).unwrap();
        let price = match self.rng.below(if tidy { 4 } else { 8 }) {
            0 => lo + (hi - lo) / 2,
            1 if hi > lo => hi - 1,
            4 => hi,
            5 => lo - 1,
            6 => hi + 1,
            _ => lo,
        };
        let price = if tick + s > rm::MAX_TICK && tidy { lo } else { price };
        Some(Call::CreatePool { a, b, tier, price: P(price), tick })
    }

    fn gen_tick(&mut self, p: &PoolState, sp: u16) -> i32 {
        let s = sp as i32;
        let m = rm::max_tick(sp);
        let cur = p.pool.current_tick_index;
        let ex: Vec<i32> = p.ticks.keys().copied().collect();
        let base = rm::MAX_TICK / s;
        if self.sparse && self.rng.p(85) {
            let from = if !ex.is_empty() && self.rng.p(40) { *self.rng.pick(&ex) } else { cur };
            let far = *self.rng.pick(&[256i32, 256, 255, 257, 258, 320, 512, 513, 768, 64, 128, 3000]);
            let t = from + s * if self.rng.p(50) { far } else { -far };
            return t.clamp(-m, m);
        }
        let pick = if self.wide { 5 * self.rng.below(4) } else { 0 };
        let t = match self.rng.below(20).max(pick) {
            15 if self.wide => cur + s * self.rng.range(-40, 40) as i32,
            0 => m,
            1 => -m,
            2 => cur + s * self.rng.range(-300, 300) as i32,
            3 if !ex.is_empty() => *self.rng.pick(&ex),
            4 if !ex.is_empty() => *self.rng.pick(&ex) + s * self.rng.range(-2, 2) as i32,
            5 => {
                // bitmap chunk boundaries near the current tick
                let c = (cur / s + base) / 64 + self.rng.range(-2, 2) as i32;
                ((c * 64 + *self.rng.pick(&[0, 63, 1, 62])) - base) * s
            }
            6 => cur + s * *self.rng.pick(&[255i32, 256, 257, -255, -256, -257, 512, -512]),
            7 => rm::align(self.rng.range(-(m as i64), m as i64) as i32, sp),
            8 => m - s * self.rng.range(0, 70) as i32,
            9 => -m + s * self.rng.range(0, 70) as i32,
            10 | 11 => cur + s * self.rng.range(-1, 1) as i32,
            _ => cur + s * self.rng.range(-15, 15) as i32,
        };
        t.clamp(-m, m)
    }
    fn gen_position(&mut self, r: &Runner, user: &Id, k: &PoolKey) -> Option<Call> {
        let p = &r.w.pools[k];
        let sp = k.fee_tier.tick_spacing;
        let (mut lower, mut upper) = (self.gen_tick(p, sp), self.gen_tick(p, sp));
        if lower > upper && !self.rng.p(2) {
            std::mem::swap(&mut lower, &mut upper);
        }
        if lower == upper && !self.rng.p(10) {
            upper += sp as i32;
        }
        match self.rng.below(80) {
            0 => lower += 1,
            1 => upper -= 1,
            2 => lower = -rm::max_tick(sp) - sp as i32,
            3 => upper = rm::max_tick(sp) + sp as i32,
            4 => upper = i32::MAX,
            _ => {}
        }
        let me = user.raw();
        let (bx, by) = (r.w.bal(&me, &k.token_x), r.w.bal(&me, &k.token_y));
        // next to, opposite or on top of an existing position, with the same liquidity
        let mut twin = None;
        if self.rng.p(self.twins) {
            let all: Vec<&Position> = r.w.positions.values().flatten().filter(|q| q.pool_key == *k).collect();
            if !all.is_empty() {
                let q = *self.rng.pick(&all);
                let (a, b) = (q.lower_tick_index, q.upper_tick_index);
                match self.rng.below(5) {
                    0 | 1 if b < rm::max_tick(sp) => {
                        lower = b;
                        upper = upper.max(b + sp as i32);
                    }
                    2 | 3 if a > -rm::max_tick(sp) => {
                        upper = a;
                        lower = lower.min(a - sp as i32);
                    }
                    _ => (lower, upper) = (a, b),
                }
                let over = match self.rng.below(4) {
                    0 => p.ticks.get(&a).map(|t| t.liquidity_change),
                    1 => p.ticks.get(&b).map(|t| t.liquidity_change),
                    _ => None,
                };
                twin = Some(over.unwrap_or(q.liquidity));
            }
        }
        let max = rm::max_liquidity_per_tick(sp);
        let gross = [lower, upper].iter().filter_map(|t| p.ticks.get(t)).map(|t| t.liquidity_gross).max().unwrap_or_default();
        let mut l = match self.rng.below(24) {
            20 => max.saturating_sub(gross),
            21 => max.saturating_sub(gross).saturating_sub(U256::one()),
            _ if twin.is_some() => twin.unwrap(),
            0 => U256::one(),
            1 => rm::max_liquidity_per_tick(sp),
            2 => rm::max_liquidity_per_tick(sp) - 1,
            3 => self.rng.amount(0, 255),
            4 => U256::zero(),
            5 => rm::max_liquidity_per_tick(sp) / 2,
            _ if self.wide => self.rng.amount(8, if self.big { 230 } else { 20 + self.deep_x }) >> 4,
            _ => self.rng.amount(8, if self.big { 230 } else { 20 + self.deep_x }),
        };
        if self.rng.p(95) {
            for _ in 0..80 {
                if l.is_zero() {
                    break;
                }
                match rm::amounts(p.pool.current_tick_index, p.pool.sqrt_price, l, true, lower, upper) {
                    Some((x, y, _)) if x <= bx && y <= by => break,
                    None if lower > upper || rm::price_of_tick(upper).is_none() || rm::price_of_tick(lower).is_none() => break,
                    _ => l = l >> 3,
                }
            }
        }
        let pr = p.pool.sqrt_price;
        let (lo, hi) = match self.rng.below(12) {
            0 => (pr, pr),
            1 => (pr + 1, u128::MAX),
            2 => (0, pr - 1),
            3 => (pr - pr / 100, pr + pr / 100),
            4 => (pr, u128::MAX),
            5 => (0, pr),
            6 => (pr + 1, pr - 1),
            _ => (0, u128::MAX),
        };
        let key = self.maybe_odd_key(r, Pk::of(k));
        Some(Call::CreatePosition { key, lower, upper, liquidity: A(l), lo: P(lo), hi: P(hi) })
    }
    /// An amount of interest for a swap in this pool: up to / exactly at / around a tick, or any size.
    fn gen_swap_amount(&mut self, w: &World, k: &PoolKey, x_to_y: bool, by_in: bool, bal: U256) -> U256 {
        let p = &w.pools[k];
        let s = k.fee_tier.tick_spacing as i32;
        if by_in && k.fee_tier.fee > rm::PCT / 2 && self.rng.p(40) {
            // a fee that moves the fee counter by a good part of its range
            let g = u128::MAX / (1 + self.rng.below(5) as u128);
            if let Some(a) = rm::growth_to_fee(g, p.pool.liquidity).filter(|a| !a.is_zero()) {
                return a;
            }
        }
        match self.rng.below(12) {
            0 => U256::one() + self.rng.below(4),
            1 => self.rng.amount(0, 30),
            2 if self.rng.p(30) => self.rng.amount(0, 200),
            3 if self.rng.p(25) => U256::MAX,
            4 if by_in => bal,
            5 => self.rng.amount(0, 120),
            6 if by_in => bal / (1 + self.rng.below(50)),
            _ => {
                // walk towards the n-th tick in the direction, maybe exactly
                let l = if p.pool.liquidity.is_zero() { U256::from(1_000_000u64) } else { p.pool.liquidity };
                let cur = p.pool.current_tick_index;
                let many = if self.wide { 60 } else if self.dense { 14 } else { 4 };
                let stops: Vec<i32> = if x_to_y {
                    p.ticks.range(..=cur).rev().take(many as usize).map(|x| *x.0).collect()
                } else {
                    p.ticks.range(cur + s..).take(many as usize).map(|x| *x.0).collect()
                };
                let exact = self.rng.p(50);
                let i = self.rng.below(many);
                if exact && !stops.is_empty() {
                    // exact cost of reaching the stop, by the reference arithmetic
                    let stop = stops[i as usize % stops.len()];
                    let mut total = U256::zero();
                    let mut price = p.pool.sqrt_price;
                    let mut liq = p.pool.liquidity;
                    for t in &stops {
                        let tp = rm::price_of_tick(*t).unwrap();
                        if let Some(st) = rm::swap_step(price, tp, liq, U256::MAX >> 4, by_in, k.fee_tier.fee) {
                            let a = if by_in { st.amount_in.saturating_add(st.fee) } else { st.amount_out };
                            total = total.saturating_add(a);
                        }
                        price = tp;
                        let tk = &p.ticks[t];
                        liq = if tk.sign ^ x_to_y {
                            liq.saturating_add(tk.liquidity_change)
                        } else {
                            liq.saturating_sub(tk.liquidity_change)
                        };
                        if *t == stop {
                            break;
                        }
                    }
                    let d = U256::from(self.rng.below(4));
                    return match self.rng.below(4) {
                        0 => total.saturating_add(d),
                        1 => total.saturating_sub(d),
                        _ => total,
                    };
                }
                let d = s * (1 + self.rng.below(if self.wide { 45 } else { 12 }) as i32);
                let to = (if x_to_y { cur - d } else { cur + d }).clamp(-rm::MAX_TICK, rm::MAX_TICK);
                let tp = rm::price_of_tick(to).unwrap();
                let st = rm::swap_step(p.pool.sqrt_price, tp, l, U256::MAX >> 4, by_in, k.fee_tier.fee);
                let a = st.map(|st| if by_in { st.amount_in } else { st.amount_out }).unwrap_or(U256::one());
                let num = U512::from(a) * U512::from(1 + self.rng.below(100)) / U512::from(60);
                U256::try_from(num).unwrap_or(U256::MAX)
            }
        }
    }
    /// The smallest amount for which the call is not refused for giving nothing, or one below it.
    fn smallest(&mut self, r: &Runner, user: &Id, from: U256, mk: impl Fn(U256) -> Call) -> U256 {
        let env = crate::model::Env { caller: user.raw(), now: r.s.c.now, height: r.s.c.height, value: 0 };
        let ok = |a: U256| !matches!(crate::model::apply(&mut r.w.clone(), &env, &mk(a)), Err("no gain") | Err("amount is zero"));
        let (mut lo, mut hi) = (U256::zero(), from);
        if !ok(hi) {
            return from;
        }
        for _ in 0..80 {
            if hi - lo <= U256::one() {
                break;
            }
            // by magnitude first
            let mid = if hi.bits() > lo.bits() + 1 { U256::one() << ((hi.bits() + lo.bits()) / 2) } else { lo + (hi - lo) / 2 };
            let mid = if mid <= lo || mid >= hi { lo + (hi - lo) / 2 } else { mid };
            if ok(mid) {
                hi = mid;
            } else {
                lo = mid;
            }
        }
        match self.rng.below(3) {
            0 => lo.max(U256::one()),
            1 => hi,
            _ => hi + self.rng.below(3),
        }
    }
    fn rich_user(&mut self, r: &Runner, token: &Actor, user: Id) -> Id {
        if !r.w.bal(&user.raw(), token).is_zero() || self.rng.p(10) {
            return user;
        }
        let c: Vec<Id> = r
            .w
            .balances
            .iter()
            .filter(|(a, m)| m.contains_key(token) && Id::of(a).map_or(false, |i| i.0 > 1))
            .filter_map(|(a, _)| Id::of(a))
            .collect();
        if c.is_empty() {
            user
        } else {
            *self.rng.pick(&c)
        }
    }
    fn gen_swap(&mut self, r: &Runner, user: &mut Id) -> Option<Call> {
        let ks = self.pool_keys(r);
        if ks.is_empty() {
            return None;
        }
        let mut k = *self.rng.pick(&ks);
        for _ in 0..3 {
            if r.w.pools[&k].pool.liquidity.is_zero() && self.rng.p(self.keen) {
                k = *self.rng.pick(&ks);
            }
        }
        let p = &r.w.pools[&k];
        let x_to_y = self.rng.p(50);
        let by_in = self.rng.p(65);
        let tin = if x_to_y { k.token_x } else { k.token_y };
        *user = self.rich_user(r, &tin, *user);
        let bal = r.w.bal(&user.raw(), &tin);
        let mut amount = self.gen_swap_amount(&r.w, &k, x_to_y, by_in, bal);
        if by_in && amount > bal && self.rng.p(80) {
            amount = if bal.is_zero() { amount } else { bal / (1 + self.rng.below(3)) };
        }
        if amount.is_zero() {
            amount = self.rng.amount(1, 60);
        }
        if self.rng.p(6) {
            let mk = |a: U256| Call::Swap { key: Pk::of(&k), x_to_y, amount: A(a), by_in: true, limit: P(if x_to_y { rm::MIN_SQRT_PRICE } else { rm::MAX_SQRT_PRICE }) };
            amount = self.smallest(r, &user.clone(), amount, mk);
        }
        if self.rng.p(2) {
            amount = U256::zero();
        }
        let pr = p.pool.sqrt_price;
        let s = k.fee_tier.tick_spacing as i32;
        let far = if x_to_y { rm::MIN_SQRT_PRICE } else { rm::MAX_SQRT_PRICE };
        let limit = match self.rng.below(22) {
            0 => pr,
            1 => {
                if x_to_y {
                    pr + 1
                } else {
                    pr - 1
                }
            }
            2 => {
                if x_to_y {
                    pr - 1
                } else {
                    pr + 1
                }
            }
            3 | 4 | 5 => {
                let d = s * self.rng.range(0, 14) as i32;
                let c = p.pool.current_tick_index;
                let t = if x_to_y { c - d } else { c + d + s };
                let q = rm::price_of_tick(t.clamp(-rm::MAX_TICK, rm::MAX_TICK)).unwrap();
                match self.rng.below(3) {
                    0 => q + 1,
                    1 => q - 1,
                    _ => q,
                }
            }
            6 => *self.rng.pick(&[0u128, u128::MAX, rm::MAX_SQRT_PRICE + 1, rm::MIN_SQRT_PRICE - 1]),
            7 => {
                if x_to_y {
                    pr - pr / 50
                } else {
                    pr + pr / 50
                }
            }
            8 => {
                let ex: Vec<i32> = p.ticks.keys().copied().collect();
                if ex.is_empty() {
                    far
                } else {
                    rm::price_of_tick(*self.rng.pick(&ex)).unwrap()
                }
            }
            _ => far,
        };
        let key = self.maybe_odd_key(r, Pk::of(&k));
        Some(Call::Swap { key, x_to_y, amount: A(amount), by_in, limit: P(limit) })
    }
    fn gen_route(&mut self, r: &Runner, user: &mut Id) -> Option<Call> {
        let ks = self.pool_keys(r);
        if ks.is_empty() {
            return None;
        }
        let n = if self.wide || self.rng.p(12) { self.rng.range(1, 9) } else { self.rng.range(1, 4) };
        let mut hops: Vec<Hop> = vec![];
        let mut at: Option<Actor> = None;
        for _ in 0..n {
            let opts: Vec<(PoolKey, bool)> = ks
                .iter()
                .flat_map(|k| [(*k, true), (*k, false)])
                .filter(|(k, d)| match at {
                    None => true,
                    Some(t) => t == if *d { k.token_x } else { k.token_y },
                })
                .collect();
            if opts.is_empty() {
                break;
            }
            let (k, d) = if self.rng.p(95) { *self.rng.pick(&opts) } else { (*self.rng.pick(&ks), self.rng.p(50)) };
            at = Some(if d { k.token_y } else { k.token_x });
            hops.push(Hop { key: Pk::of(&k), x_to_y: d });
        }
        let h0 = hops[0].clone();
        let k0 = h0.key.raw();
        let tin = if h0.x_to_y { k0.token_x } else { k0.token_y };
        *user = self.rich_user(r, &tin, *user);
        let bal = r.w.bal(&user.raw(), &tin);
        let mut amount = self.gen_swap_amount(&r.w, &k0, h0.x_to_y, true, bal);
        if amount > bal && self.rng.p(85) {
            amount = bal / (1 + self.rng.below(9));
        }
        if self.rng.p(15) {
            let h = hops.clone();
            let mk = |a: U256| Call::SwapRoute { amount: A(a), expected: A(U256::zero()), slippage: P(0), hops: h.clone() };
            amount = self.smallest(r, &user.clone(), amount, mk);
        }
        // the model's outcome, to place the minimum right at it
        let env = crate::model::Env { caller: user.raw(), now: r.s.c.now, height: r.s.c.height, value: 0 };
        let probe = Call::SwapRoute { amount: A(amount), expected: A(U256::zero()), slippage: P(0), hops: hops.clone() };
        let out = crate::model::apply(&mut r.w.clone(), &env, &probe)
            .ok()
            .and_then(|f| f.swaps.last().map(|s| s.amount_out))
            .unwrap_or(U256::from(1000u64));
        let slippage = match self.rng.below(6) {
            0 => rm::PCT,
            1 => rm::PCT + 1,
            2 => self.rng.below(rm::PCT as u64) as u128,
            _ => *self.rng.pick(&[0u128, 10_000_000_000, 500_000_000_000]),
        };
        let keep = rm::PCT.saturating_sub(slippage).max(1);
        let even = U256::try_from(U512::from(out) * U512::from(rm::PCT) / U512::from(keep)).unwrap_or(U256::MAX);
        let expected = match self.rng.below(6) {
            0 => even.saturating_add(U256::one()),
            1 => even,
            2 => even.saturating_sub(U256::one()),
            3 => even.saturating_add(even / 100 + 2),
            _ => out / 2,
        };
        if self.rng.p(2) {
            hops.clear();
        }
        Some(Call::SwapRoute { amount: A(amount), expected: A(expected), slippage: P(slippage), hops })
    }
    fn gen_raw(&mut self, r: &Runner) -> Call {
        use parity_scale_codec::Encode;
        let u = self.user(r);
        let t = self.gen_token(r);
        match self.rng.below(12) {
            0 => Call::Raw(vec![]),
            1 => {
                let n = self.rng.below(100);
                Call::Raw((0..n).map(|_| self.rng.next() as u8).collect())
            }
            2 => Call::Raw(("Vft", "TransferFrom", true).encode()),
            3 => Call::Raw(("Vft", "TransferFrom", false).encode()),
            4 => {
                let mut p = "New".encode();
                p.extend((u.raw(), 0u128).encode());
                Call::Raw(p)
            }
            5 => Call::Raw(route("Nothing")),
            6 => Call::Raw("Panic occurred: forged".encode()),
            7 => {
                // a truncated call
                let c = Call::Deposit { token: t, amount: A(U256::from(5u8)) };
                let mut p = c.payload();
                p.truncate(p.len() - 1 - self.rng.below(30) as usize);
                Call::Raw(p)
            }
            _ => Call::Query(self.gen_query(r)),
        }
    }
    pub fn gen_query(&mut self, r: &Runner) -> Query {
        let u = self.user(r);
        let ks = self.pool_keys(r);
        if ks.is_empty() {
            return match self.rng.below(4) {
                0 => Query::FeeTiers,
                1 => Query::ProtocolFee,
                2 => Query::Balances { user: u },
                _ => Query::PoolKeys { size: 10, offset: 0 },
            };
        }
        let k = *self.rng.pick(&ks);
        let key = Pk::of(&k);
        let n = r.w.pos(&u.raw()).len() as u64;
        match self.rng.below(14) {
            0 => Query::Quote {
                key,
                x_to_y: self.rng.p(50),
                amount: A(self.rng.amount(0, 90)),
                by_in: self.rng.p(50),
                limit: P(*self.rng.pick(&[rm::MIN_SQRT_PRICE, rm::MAX_SQRT_PRICE])),
            },
            1 => Query::QuoteRoute { amount: A(self.rng.amount(0, 90)), hops: vec![Hop { key, x_to_y: self.rng.p(50) }] },
            2 => Query::Pool { a: key.x, b: key.y, tier: key.tier },
            3 => Query::PoolKeys { size: self.rng.below(4) as u16, offset: self.rng.below(4) as u16 },
            4 => Query::Position { owner: u, index: self.rng.below(n + 1) as u32 },
            5 => Query::Positions { owner: u, size: self.rng.below(5) as u32, offset: self.rng.below(n + 1) as u32 },
            6 => Query::AllPositions { owner: u },
            7 => Query::PositionAmount { owner: u },
            8 => Query::PositionTicks { owner: u, offset: self.rng.below(n + 1) as u32 },
            9 => Query::PositionWithAssociates { owner: u, index: self.rng.below(n + 1) as u32 },
            10 => Query::Tickmap { key },
            11 => Query::PairPools { a: key.x, b: key.y },
            12 => Query::LiquidityTicksAmount { key },
            _ => Query::Balances { user: u },
        }
    }
    fn gen_probe(&mut self, r: &Runner) -> Op {
        let ks = self.pool_keys(r);
        if ks.is_empty() {
            return Op::Probe(Probe::Queries { size: 2, offset: 0 });
        }
        let k = *self.rng.pick(&ks);
        let user = self.user(r);
        if self.crowds < 1 && self.rng.p(self.crowd_pct) {
            self.crowds += 1;
            let user = self.rich_user(r, &k.token_x, user);
            let n = if self.rng.p(self.pools_pct) {
                u16::MAX as i64
            } else if self.rng.p(self.long_pct) {
                self.rng.range(8930, 9100)
            } else {
                self.rng.range(200, 420)
            };
            return Op::Probe(Probe::Crowd { user, key: Pk::of(&k), seed: self.rng.next(), n: n as u16 });
        }
        match self.rng.below(5) {
            4 => {
                let user = self.rich_user(r, &k.token_x, user);
                let n = self.rng.range(2, 9) as u8;
                Op::Probe(Probe::Churn { user, key: Pk::of(&k), seed: self.rng.next(), n })
            }
            0 => Op::Probe(Probe::Queries { size: self.rng.below(5) as u32, offset: self.rng.below(5) as u32 }),
            1 => match self.gen_position(r, &user, &k) {
                Some(call) if crate::sdk::SDK.get().is_some() => {
                    let by_x = self.rng.p(50);
                    let have = r.w.bal(&user.raw(), if by_x { &k.token_x } else { &k.token_y });
                    let amount = match self.rng.below(4) {
                        0 => self.rng.amount(0, 90),
                        1 => have,
                        _ => (have >> self.rng.range(1, 40) as usize).max(U256::one()),
                    };
                    Op::Probe(Probe::Sizing { user, call, by_x, amount: A(amount) })
                }
                Some(call) => Op::Probe(Probe::OpenClose { user, call }),
                None => Op::Blocks { n: 1, ms: BLOCK_MS },
            },
            _ => {
                let mut user = user;
                match self.gen_swap(r, &mut user) {
                    Some(mut call) => {
                        for _ in 0..5 {
                            let env = crate::model::Env { caller: user.raw(), now: r.s.c.now, height: r.s.c.height, value: 0 };
                            if crate::model::apply(&mut r.w.clone(), &env, &call).is_ok() {
                                break;
                            }
                            if let Call::Swap { amount, .. } = &mut call {
                                amount.0 = (amount.0 >> self.rng.range(1, 24) as usize).max(U256::one());
                            }
                        }
                        Op::Probe(Probe::SwapBack { user, call })
                    }
                    None => Op::Blocks { n: 1, ms: BLOCK_MS },
                }
            }
        }
    }
}
