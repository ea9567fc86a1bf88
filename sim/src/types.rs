//! Wire types of the Invariant service, written from its IDL (not taken from the repository's
//! crates), plus the client-side encoding of every call and query.
use parity_scale_codec::{Decode, Encode};
use primitive_types::U256;
use serde::{Deserialize, Deserializer, Serialize, Serializer};
use std::fmt;

pub type Actor = [u8; 32];

/// U256 that is written as a decimal string in replay files.
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Default, Hash)]
pub struct A(pub U256);
impl fmt::Debug for A {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{}", self.0)
    }
}
impl fmt::Display for A {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{}", self.0)
    }
}
impl Serialize for A {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_str(&self.0.to_string())
    }
}
impl<'de> Deserialize<'de> for A {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<A, D::Error> {
        let s = String::deserialize(d)?;
        U256::from_dec_str(&s)
            .map(A)
            .map_err(|e| serde::de::Error::custom(format!("{e:?}")))
    }
}
/// u128 as decimal string
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Default, Hash)]
pub struct P(pub u128);
impl fmt::Debug for P {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{}", self.0)
    }
}
impl Serialize for P {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_str(&self.0.to_string())
    }
}
impl<'de> Deserialize<'de> for P {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<P, D::Error> {
        let s = String::deserialize(d)?;
        s.parse().map(P).map_err(serde::de::Error::custom)
    }
}

/// A simulated account. 0 = the zero address (VARA), 1 = the Invariant program,
/// 2 = admin, 10.. = users, 50.. = tokens.
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Serialize, Deserialize)]
#[serde(transparent)]
pub struct Id(pub u8);
pub const ZERO: Id = Id(0);
pub const INV: Id = Id(1);
pub const ADMIN: Id = Id(2);
impl Id {
    pub fn raw(self) -> Actor {
        if self.0 == 0 {
            return [0; 32];
        }
        // A fixed scramble: token order by address is unrelated to creation order.
        let mut z = (self.0 as u64).wrapping_mul(0x9E3779B97F4A7C15) ^ 0xA5A5_1234_77AA_0F0F;
        let mut out = [0u8; 32];
        for i in 0..4 {
            z ^= z >> 30;
            z = z.wrapping_mul(0xBF58476D1CE4E5B9);
            z ^= z >> 27;
            z = z.wrapping_mul(0x94D049BB133111EB);
            z ^= z >> 31;
            out[i * 8..i * 8 + 8].copy_from_slice(&z.to_le_bytes());
        }
        out[31] = self.0;
        out
    }
    pub fn of(raw: &Actor) -> Option<Id> {
        if raw == &[0u8; 32] {
            return Some(ZERO);
        }
        let id = Id(raw[31]);
        (id.0 != 0 && &id.raw() == raw).then_some(id)
    }
    pub fn is_token(self) -> bool {
        self.0 >= 50
    }
}
impl fmt::Debug for Id {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self.0 {
            0 => write!(f, "VARA/zero"),
            1 => write!(f, "invariant"),
            2 => write!(f, "admin"),
            x if x >= 50 => write!(f, "token{}", x - 50),
            x => write!(f, "user{}", x as i32 - 10),
        }
    }
}
pub fn name(a: &Actor) -> String {
    match Id::of(a) {
        Some(i) => format!("{i:?}"),
        None => format!("0x{:02x}{:02x}..", a[0], a[1]),
    }
}

#[derive(Encode, Decode, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Serialize, Deserialize)]
pub struct FeeTier {
    #[serde(with = "p128")]
    pub fee: u128,
    pub tick_spacing: u16,
}
mod p128 {
    use super::*;
    pub fn serialize<S: Serializer>(v: &u128, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_str(&v.to_string())
    }
    pub fn deserialize<'de, D: Deserializer<'de>>(d: D) -> Result<u128, D::Error> {
        String::deserialize(d)?.parse().map_err(serde::de::Error::custom)
    }
}
impl fmt::Debug for FeeTier {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "tier({}e-12,{})", self.fee, self.tick_spacing)
    }
}
#[derive(Encode, Decode, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct PoolKey {
    pub token_x: Actor,
    pub token_y: Actor,
    pub fee_tier: FeeTier,
}
impl fmt::Debug for PoolKey {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "pool[{}/{} {:?}]", name(&self.token_x), name(&self.token_y), self.fee_tier)
    }
}
/// A pool key in an operation: written with account ids, tokens in the order the caller gives.
#[derive(Clone, Copy, PartialEq, Eq, Debug, Serialize, Deserialize)]
pub struct Pk {
    pub x: Id,
    pub y: Id,
    pub tier: FeeTier,
}
impl Pk {
    pub fn raw(&self) -> PoolKey {
        PoolKey {
            token_x: self.x.raw(),
            token_y: self.y.raw(),
            fee_tier: self.tier,
        }
    }
    pub fn of(k: &PoolKey) -> Pk {
        Pk {
            x: Id::of(&k.token_x).unwrap_or(Id(255)),
            y: Id::of(&k.token_y).unwrap_or(Id(255)),
            tier: k.fee_tier,
        }
    }
    pub fn sorted(&self) -> Option<PoolKey> {
        sorted_key(self.x.raw(), self.y.raw(), self.tier)
    }
}
pub fn sorted_key(a: Actor, b: Actor, t: FeeTier) -> Option<PoolKey> {
    if a == b {
        return None;
    }
    let (x, y) = if a < b { (a, b) } else { (b, a) };
    Some(PoolKey { token_x: x, token_y: y, fee_tier: t })
}

#[derive(Encode, Decode, Clone, PartialEq, Eq, Debug)]
pub struct Pool {
    pub liquidity: U256,
    pub sqrt_price: u128,
    pub current_tick_index: i32,
    pub fee_growth_global_x: u128,
    pub fee_growth_global_y: u128,
    pub fee_protocol_token_x: U256,
    pub fee_protocol_token_y: U256,
    pub start_timestamp: u64,
    pub last_timestamp: u64,
    pub fee_receiver: Actor,
}
#[derive(Encode, Decode, Clone, PartialEq, Eq, Debug)]
pub struct Tick {
    pub index: i32,
    pub sign: bool,
    pub liquidity_change: U256,
    pub liquidity_gross: U256,
    pub sqrt_price: u128,
    pub fee_growth_outside_x: u128,
    pub fee_growth_outside_y: u128,
    pub seconds_outside: u64,
}
impl Tick {
    /// `sign` carries no meaning while the net change is zero.
    pub fn norm(&self) -> Tick {
        let mut t = self.clone();
        if t.liquidity_change.is_zero() {
            t.sign = true;
        }
        t
    }
}
#[derive(Encode, Decode, Clone, PartialEq, Eq, Debug)]
pub struct Position {
    pub pool_key: PoolKey,
    pub liquidity: U256,
    pub lower_tick_index: i32,
    pub upper_tick_index: i32,
    pub fee_growth_inside_x: u128,
    pub fee_growth_inside_y: u128,
    pub last_block_number: u64,
    pub tokens_owed_x: U256,
    pub tokens_owed_y: U256,
}
#[derive(Encode, Decode, Clone, PartialEq, Eq, Debug)]
pub struct LiquidityTick {
    pub index: i32,
    pub liquidity_change: U256,
    pub sign: bool,
}
#[derive(Encode, Decode, Clone, PartialEq, Eq, Debug)]
pub struct PositionTick {
    pub index: i32,
    pub fee_growth_outside_x: u128,
    pub fee_growth_outside_y: u128,
    pub seconds_outside: u64,
}
#[derive(Encode, Decode, Clone, PartialEq, Eq, Debug)]
pub struct SwapResult {
    pub amount_in: U256,
    pub amount_out: U256,
    pub start_sqrt_price: u128,
    pub target_sqrt_price: u128,
    pub fee: U256,
    pub pool: Pool,
    pub ticks: Vec<Tick>,
}
#[derive(Encode, Decode, Clone, PartialEq, Eq, Debug)]
pub struct QuoteResult {
    pub amount_in: U256,
    pub amount_out: U256,
    pub target_sqrt_price: u128,
    pub ticks: Vec<Tick>,
}
/// Result<T, InvariantError> as the queries answer it; the error is kept as its variant number.
pub fn dec_result<T: Decode>(b: &mut &[u8]) -> Option<Result<T, u8>> {
    match u8::decode(b).ok()? {
        0 => Some(Ok(T::decode(b).ok()?)),
        1 => Some(Err(u8::decode(b).ok()?)),
        _ => None,
    }
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Event {
    PositionCreated {
        timestamp: u64,
        address: Actor,
        key: PoolKey,
        liquidity: U256,
        lower: i32,
        upper: i32,
        sqrt_price: u128,
    },
    PositionRemoved {
        timestamp: u64,
        address: Actor,
        key: PoolKey,
        liquidity: U256,
        lower: i32,
        upper: i32,
        sqrt_price: u128,
    },
    CrossTick {
        timestamp: u64,
        address: Actor,
        key: PoolKey,
        indexes: Vec<i32>,
    },
    Swap {
        timestamp: u64,
        address: Actor,
        key: PoolKey,
        amount_in: U256,
        amount_out: U256,
        fee: U256,
        start: u128,
        target: u128,
        x_to_y: bool,
    },
    Unknown(Vec<u8>),
}
impl Event {
    pub fn decode(p: &[u8]) -> Event {
        Self::try_decode(p).unwrap_or_else(|| Event::Unknown(p.to_vec()))
    }
    fn try_decode(p: &[u8]) -> Option<Event> {
        let b = &mut &p[..];
        let svc = String::decode(b).ok()?;
        if svc != "Service" {
            return None;
        }
        let n = String::decode(b).ok()?;
        let e = match n.as_str() {
            "PositionCreatedEvent" | "PositionRemovedEvent" => {
                let (timestamp, address, key, liquidity, lower, upper, sqrt_price) =
                    <(u64, Actor, PoolKey, U256, i32, i32, u128)>::decode(b).ok()?;
                if n == "PositionCreatedEvent" {
                    Event::PositionCreated { timestamp, address, key, liquidity, lower, upper, sqrt_price }
                } else {
                    Event::PositionRemoved { timestamp, address, key, liquidity, lower, upper, sqrt_price }
                }
            }
            "CrossTickEvent" => {
                let (timestamp, address, key, indexes) =
                    <(u64, Actor, PoolKey, Vec<i32>)>::decode(b).ok()?;
                Event::CrossTick { timestamp, address, key, indexes }
            }
            "SwapEvent" => {
                let (timestamp, address, key, amount_in, amount_out, fee, start, target, x_to_y) =
                    <(u64, Actor, PoolKey, U256, U256, U256, u128, u128, bool)>::decode(b).ok()?;
                Event::Swap { timestamp, address, key, amount_in, amount_out, fee, start, target, x_to_y }
            }
            _ => return None,
        };
        b.is_empty().then_some(e)
    }
}

#[derive(Clone, PartialEq, Eq, Debug, Serialize, Deserialize)]
pub struct Hop {
    pub key: Pk,
    pub x_to_y: bool,
}

/// Every state-changing call of the service.
#[derive(Clone, PartialEq, Eq, Debug, Serialize, Deserialize)]
pub enum Call {
    ChangeProtocolFee(P),
    AddFeeTier(FeeTier),
    RemoveFeeTier(FeeTier),
    CreatePool { a: Id, b: Id, tier: FeeTier, price: P, tick: i32 },
    ChangeFeeReceiver { key: Pk, to: Id },
    CreatePosition { key: Pk, lower: i32, upper: i32, liquidity: A, lo: P, hi: P },
    RemovePosition { index: u32 },
    TransferPosition { index: u32, to: Id },
    ClaimFee { index: u32 },
    Swap { key: Pk, x_to_y: bool, amount: A, by_in: bool, limit: P },
    SwapRoute { amount: A, expected: A, slippage: P, hops: Vec<Hop> },
    WithdrawProtocolFee { key: Pk },
    DepositVara,
    WithdrawVara(Option<A>),
    Deposit { token: Id, amount: A },
    Withdraw { token: Id, amount: Option<A> },
    DepositPair { x: (Id, A), y: (Id, A) },
    WithdrawPair { x: (Id, Option<A>), y: (Id, Option<A>) },
    /// Queries sent as ordinary messages
    Query(Query),
    /// Arbitrary bytes
    Raw(Vec<u8>),
}
#[derive(Clone, PartialEq, Eq, Debug, Serialize, Deserialize)]
pub enum Query {
    Quote { key: Pk, x_to_y: bool, amount: A, by_in: bool, limit: P },
    QuoteRoute { amount: A, hops: Vec<Hop> },
    Pool { a: Id, b: Id, tier: FeeTier },
    PoolKeys { size: u16, offset: u16 },
    Position { owner: Id, index: u32 },
    Positions { owner: Id, size: u32, offset: u32 },
    AllPositions { owner: Id },
    PositionAmount { owner: Id },
    PositionTicks { owner: Id, offset: u32 },
    PositionWithAssociates { owner: Id, index: u32 },
    Tick { key: Pk, index: i32 },
    TickInit { key: Pk, index: i32 },
    Tickmap { key: Pk },
    LiquidityTicks { key: Pk, ticks: Vec<i32> },
    LiquidityTicksAmount { key: Pk },
    PairPools { a: Id, b: Id },
    FeeTiers,
    FeeTierExists(FeeTier),
    ProtocolFee,
    Balances { user: Id },
}
impl Query {
    pub fn method(&self) -> &'static str {
        match self {
            Query::Quote { .. } => "Quote",
            Query::QuoteRoute { .. } => "QuoteRoute",
            Query::Pool { .. } => "GetPool",
            Query::PoolKeys { .. } => "GetPoolKeys",
            Query::Position { .. } => "GetPosition",
            Query::Positions { .. } => "GetPositions",
            Query::AllPositions { .. } => "GetAllPositions",
            Query::PositionAmount { .. } => "GetUserPositionAmount",
            Query::PositionTicks { .. } => "GetPositionTicks",
            Query::PositionWithAssociates { .. } => "GetPositionWithAssociates",
            Query::Tick { .. } => "GetTick",
            Query::TickInit { .. } => "IsTickInitialized",
            Query::Tickmap { .. } => "GetTickmap",
            Query::LiquidityTicks { .. } => "GetLiquidityTicks",
            Query::LiquidityTicksAmount { .. } => "GetLiquidityTicksAmount",
            Query::PairPools { .. } => "GetAllPoolsForPair",
            Query::FeeTiers => "GetFeeTiers",
            Query::FeeTierExists(_) => "FeeTierExists",
            Query::ProtocolFee => "GetProtocolFee",
            Query::Balances { .. } => "GetUserBalances",
        }
    }
    pub fn args(&self) -> Vec<u8> {
        match self {
            Query::Quote { key, x_to_y, amount, by_in, limit } => {
                (key.raw(), x_to_y, amount.0, by_in, limit.0).encode()
            }
            Query::QuoteRoute { amount, hops } => (amount.0, enc_hops(hops)).encode(),
            Query::Pool { a, b, tier } => (a.raw(), b.raw(), tier).encode(),
            Query::PoolKeys { size, offset } => (size, offset).encode(),
            Query::Position { owner, index } => (owner.raw(), index).encode(),
            Query::Positions { owner, size, offset } => (owner.raw(), size, offset).encode(),
            Query::AllPositions { owner } => owner.raw().encode(),
            Query::PositionAmount { owner } => owner.raw().encode(),
            Query::PositionTicks { owner, offset } => (owner.raw(), offset).encode(),
            Query::PositionWithAssociates { owner, index } => (owner.raw(), index).encode(),
            Query::Tick { key, index } => (key.raw(), index).encode(),
            Query::TickInit { key, index } => (key.raw(), index).encode(),
            Query::Tickmap { key } => key.raw().encode(),
            Query::LiquidityTicks { key, ticks } => (key.raw(), ticks).encode(),
            Query::LiquidityTicksAmount { key } => key.raw().encode(),
            Query::PairPools { a, b } => (a.raw(), b.raw()).encode(),
            Query::FeeTiers | Query::ProtocolFee => vec![],
            Query::FeeTierExists(t) => t.encode(),
            Query::Balances { user } => user.raw().encode(),
        }
    }
}
fn enc_hops(h: &[Hop]) -> Vec<(PoolKey, bool)> {
    h.iter().map(|h| (h.key.raw(), h.x_to_y)).collect()
}

impl Call {
    pub fn method(&self) -> &'static str {
        match self {
            Call::ChangeProtocolFee(_) => "ChangeProtocolFee",
            Call::AddFeeTier(_) => "AddFeeTier",
            Call::RemoveFeeTier(_) => "RemoveFeeTier",
            Call::CreatePool { .. } => "CreatePool",
            Call::ChangeFeeReceiver { .. } => "ChangeFeeReceiver",
            Call::CreatePosition { .. } => "CreatePosition",
            Call::RemovePosition { .. } => "RemovePosition",
            Call::TransferPosition { .. } => "TransferPosition",
            Call::ClaimFee { .. } => "ClaimFee",
            Call::Swap { .. } => "Swap",
            Call::SwapRoute { .. } => "SwapRoute",
            Call::WithdrawProtocolFee { .. } => "WithdrawProtocolFee",
            Call::DepositVara => "DepositVara",
            Call::WithdrawVara(_) => "WithdrawVara",
            Call::Deposit { .. } => "DepositSingleToken",
            Call::Withdraw { .. } => "WithdrawSingleToken",
            Call::DepositPair { .. } => "DepositTokenPair",
            Call::WithdrawPair { .. } => "WithdrawTokenPair",
            Call::Query(q) => q.method(),
            Call::Raw(_) => "",
        }
    }
    pub fn is_async(&self) -> bool {
        matches!(
            self,
            Call::Deposit { .. }
                | Call::Withdraw { .. }
                | Call::DepositPair { .. }
                | Call::WithdrawPair { .. }
        )
    }
    pub fn args(&self) -> Vec<u8> {
        match self {
            Call::ChangeProtocolFee(p) => p.0.encode(),
            Call::AddFeeTier(t) | Call::RemoveFeeTier(t) => t.encode(),
            Call::CreatePool { a, b, tier, price, tick } => {
                (a.raw(), b.raw(), tier, price.0, tick).encode()
            }
            Call::ChangeFeeReceiver { key, to } => (key.raw(), to.raw()).encode(),
            Call::CreatePosition { key, lower, upper, liquidity, lo, hi } => {
                (key.raw(), lower, upper, liquidity.0, lo.0, hi.0).encode()
            }
            Call::RemovePosition { index } | Call::ClaimFee { index } => index.encode(),
            Call::TransferPosition { index, to } => (index, to.raw()).encode(),
            Call::Swap { key, x_to_y, amount, by_in, limit } => {
                (key.raw(), x_to_y, amount.0, by_in, limit.0).encode()
            }
            Call::SwapRoute { amount, expected, slippage, hops } => {
                (amount.0, expected.0, slippage.0, enc_hops(hops)).encode()
            }
            Call::WithdrawProtocolFee { key } => key.raw().encode(),
            Call::DepositVara => vec![],
            Call::WithdrawVara(v) => v.map(|a| a.0).encode(),
            Call::Deposit { token, amount } => (token.raw(), amount.0).encode(),
            Call::Withdraw { token, amount } => (token.raw(), amount.map(|a| a.0)).encode(),
            Call::DepositPair { x, y } => ((x.0.raw(), x.1 .0), (y.0.raw(), y.1 .0)).encode(),
            Call::WithdrawPair { x, y } => (
                (x.0.raw(), x.1.map(|a| a.0)),
                (y.0.raw(), y.1.map(|a| a.0)),
            )
                .encode(),
            Call::Query(q) => q.args(),
            Call::Raw(b) => b.clone(),
        }
    }
    pub fn payload(&self) -> Vec<u8> {
        if let Call::Raw(b) = self {
            return b.clone();
        }
        let mut p = route(self.method());
        p.extend(self.args());
        p
    }
}
pub fn route(method: &str) -> Vec<u8> {
    let mut p = "Service".encode();
    p.extend(method.encode());
    p
}
/// Body of a reply that carries this method's route.
pub fn unroute<'a>(method: &str, payload: &'a [u8]) -> Option<&'a [u8]> {
    let r = route(method);
    payload.strip_prefix(&r[..])
}
