//! The repository's token program (extended-vft) as a second simulated program: its calls, a reference
//! model of its books and the comparison of the two after every message.
use crate::machine::*;
use crate::types::*;
use parity_scale_codec::{Decode, Encode};
use primitive_types::U256;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::OnceLock;

/// The program, when runs with it are wanted.
pub static VFT: OnceLock<Code> = OnceLock::new();

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Role {
    Admin,
    Minter,
    Burner,
}
pub const ROLES: [Role; 3] = [Role::Admin, Role::Minter, Role::Burner];
#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum VftCall {
    Mint { to: Id, value: A },
    Burn { from: Id, value: A },
    Transfer { to: Id, value: A },
    TransferFrom { from: Id, to: Id, value: A },
    Approve { spender: Id, value: A },
    Grant { role: Role, to: Id },
    Revoke { role: Role, from: Id },
    SetTransferFail { flag: bool },
    /// a read-only question, sent as a message
    Ask { n: u8 },
    Raw(Vec<u8>),
}
const ASKS: [&str; 7] = ["Name", "Symbol", "Decimals", "TotalSupply", "Admins", "Minters", "Burners"];

impl VftCall {
    pub fn method(&self) -> &'static str {
        match self {
            VftCall::Mint { .. } => "Mint",
            VftCall::Burn { .. } => "Burn",
            VftCall::Transfer { .. } => "Transfer",
            VftCall::TransferFrom { .. } => "TransferFrom",
            VftCall::Approve { .. } => "Approve",
            VftCall::Grant { role: Role::Admin, .. } => "GrantAdminRole",
            VftCall::Grant { role: Role::Minter, .. } => "GrantMinterRole",
            VftCall::Grant { role: Role::Burner, .. } => "GrantBurnerRole",
            VftCall::Revoke { role: Role::Admin, .. } => "RevokeAdminRole",
            VftCall::Revoke { role: Role::Minter, .. } => "RevokeMinterRole",
            VftCall::Revoke { role: Role::Burner, .. } => "RevokeBurnerRole",
            VftCall::SetTransferFail { .. } => "SetTransferFail",
            VftCall::Ask { n } => ASKS[*n as usize % ASKS.len()],
            VftCall::Raw(_) => "raw bytes",
        }
    }
    pub fn payload(&self) -> Vec<u8> {
        let mut p = ("Vft", self.method()).encode();
        p.extend(match self {
            VftCall::Mint { to, value } => (to.raw(), value.0).encode(),
            VftCall::Burn { from, value } => (from.raw(), value.0).encode(),
            VftCall::Transfer { to, value } => (to.raw(), value.0).encode(),
            VftCall::TransferFrom { from, to, value } => (from.raw(), to.raw(), value.0).encode(),
            VftCall::Approve { spender, value } => (spender.raw(), value.0).encode(),
            VftCall::Grant { to, .. } => to.raw().encode(),
            VftCall::Revoke { from, .. } => from.raw().encode(),
            VftCall::SetTransferFail { flag } => flag.encode(),
            VftCall::Ask { .. } => vec![],
            VftCall::Raw(b) => return b.clone(),
        });
        p
    }
}

/// What the books of one token must say.
#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct Books {
    pub balances: BTreeMap<Actor, U256>,
    pub allowances: BTreeMap<(Actor, Actor), U256>,
    pub supply: U256,
    pub roles: [BTreeSet<Actor>; 3],
    pub title: (String, String, u8),
}
/// The answer to a call, and the event it announces.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Told {
    pub answer: Option<bool>,
    pub event: Option<Vec<u8>>,
}
impl Books {
    fn bal(&self, a: &Actor) -> U256 {
        self.balances.get(a).copied().unwrap_or_default()
    }
    fn set(&mut self, a: &Actor, v: U256) {
        if v.is_zero() {
            self.balances.remove(a);
        } else {
            self.balances.insert(*a, v);
        }
    }
    fn has(&self, r: Role, a: &Actor) -> bool {
        self.roles[r as usize].contains(a)
    }
    fn shift(&mut self, from: &Actor, to: &Actor, v: U256) -> Result<bool, &'static str> {
        if from == to || v.is_zero() {
            return Ok(false);
        }
        let left = self.bal(from).checked_sub(v).ok_or("not enough balance")?;
        let grown = self.bal(to).checked_add(v).ok_or("overflow")?;
        self.set(from, left);
        self.set(to, grown);
        Ok(true)
    }
    pub fn transfer_from(&mut self, who: &Actor, from: &Actor, to: &Actor, v: U256) -> Result<bool, &'static str> {
        if who == from || from == to || v.is_zero() {
            return self.shift(from, to, v);
        }
        let key = (*from, *who);
        let left = self.allowances.get(&key).copied().unwrap_or_default().checked_sub(v).ok_or("not allowed so much")?;
        self.shift(from, to, v)?;
        if left.is_zero() {
            self.allowances.remove(&key);
        } else {
            self.allowances.insert(key, left);
        }
        Ok(true)
    }
    pub fn apply(&mut self, who: &Actor, call: &VftCall) -> Result<Told, &'static str> {
        let event = |done: bool, name: &str, body: Vec<u8>| {
            done.then(|| {
                let mut e = ("Vft", name).encode();
                e.extend(body);
                e
            })
        };
        let said = |b: bool, name: &str, body: Vec<u8>| Told { answer: Some(b), event: event(b, name, body) };
        Ok(match call {
            VftCall::Mint { to, value } => {
                if !self.has(Role::Minter, who) {
                    return Err("not a minter");
                }
                let v = value.0;
                let to = to.raw();
                if v.is_zero() {
                    return Ok(said(false, "", vec![]));
                }
                let supply = self.supply.checked_add(v).ok_or("overflow")?;
                self.set(&to, self.bal(&to) + v);
                self.supply = supply;
                said(true, "Minted", (to, v).encode())
            }
            VftCall::Burn { from, value } => {
                if !self.has(Role::Burner, who) {
                    return Err("not a burner");
                }
                let v = value.0;
                let from = from.raw();
                if v.is_zero() {
                    return Ok(said(false, "", vec![]));
                }
                let left = self.bal(&from).checked_sub(v).ok_or("not enough balance")?;
                self.set(&from, left);
                self.supply -= v;
                said(true, "Burned", (from, v).encode())
            }
            VftCall::Transfer { to, value } => {
                let done = self.shift(who, &to.raw(), value.0)?;
                said(done, "Transfer", (*who, to.raw(), value.0).encode())
            }
            VftCall::TransferFrom { from, to, value } => {
                let done = self.transfer_from(who, &from.raw(), &to.raw(), value.0)?;
                said(done, "Transfer", (from.raw(), to.raw(), value.0).encode())
            }
            VftCall::Approve { spender, value } => {
                let key = (*who, spender.raw());
                let had = self.allowances.get(&key).copied().unwrap_or_default();
                let done = *who != spender.raw() && had != value.0;
                if done && value.0.is_zero() {
                    self.allowances.remove(&key);
                } else if done {
                    self.allowances.insert(key, value.0);
                }
                said(done, "Approval", (*who, spender.raw(), value.0).encode())
            }
            VftCall::Grant { role, to } => {
                if !self.has(Role::Admin, who) {
                    return Err("not an admin");
                }
                self.roles[*role as usize].insert(to.raw());
                Told { answer: None, event: None }
            }
            VftCall::Revoke { role, from } => {
                if !self.has(Role::Admin, who) {
                    return Err("not an admin");
                }
                self.roles[*role as usize].remove(&from.raw());
                Told { answer: None, event: None }
            }
            VftCall::SetTransferFail { .. } | VftCall::Ask { .. } => Told { answer: None, event: None },
            VftCall::Raw(_) => return Err("not a call"),
        })
    }
}

/// One running token program.
#[derive(Clone)]
pub struct Token {
    pub books: Books,
    pub state: State,
}
pub struct Ran {
    pub end: End,
    pub reply: Option<Vec<u8>>,
    pub events: Vec<Vec<u8>>,
    pub strange: Vec<String>,
}
/// When and where a token program runs.
#[derive(Clone, Copy)]
pub struct At {
    pub token: Actor,
    pub height: u32,
    pub now: u64,
    pub id: Hash,
}
impl At {
    fn ctx(&self, who: &Actor, payload: Vec<u8>) -> Ctx {
        Ctx {
            program: self.token,
            msg_id: self.id,
            source: *who,
            payload,
            block_height: self.height,
            block_timestamp: self.now,
            ..Default::default()
        }
    }
}

pub fn launch(m: &mut Machine, blank: &State, at: At, admin: &Actor) -> Result<Token, String> {
    m.clear_stack();
    m.restore(blank);
    let title = ("Token".to_string(), "TKN".to_string(), at.token[31]);
    let mut payload = "New".encode();
    payload.extend(title.encode());
    let o = m.run(Entry::Init, at.ctx(admin, payload), crate::chain::FULL_GAS);
    if o.end != End::Done {
        return Err(format!("the token program cannot be initialised: {:?}", o.end));
    }
    let all = BTreeSet::from([*admin]);
    let books = Books { title, roles: [all.clone(), all.clone(), all], ..Default::default() };
    Ok(Token { books, state: m.save() })
}
/// One message to the program; what fails leaves no trace.
pub fn send(m: &mut Machine, t: &mut Token, at: At, who: &Actor, payload: Vec<u8>, gas: u64) -> Ran {
    m.restore(&t.state);
    let o = m.run(Entry::Handle, at.ctx(who, payload), gas);
    let mut r = Ran { end: o.end.clone(), reply: None, events: vec![], strange: vec![] };
    if o.end.failed() {
        return r;
    }
    t.state = m.save();
    if !matches!(o.end, End::Done | End::Leave) {
        r.strange.push(format!("ended in {:?}", o.end));
    }
    for s in o.journal.sent {
        if s.dest == [0; 32] {
            r.events.push(s.payload);
        } else {
            r.strange.push(format!("a message to {}", Id::of(&s.dest).map_or("somebody".into(), |i| format!("{i:?}"))));
        }
    }
    r.reply = o.journal.reply.map(|x| x.0);
    r
}
fn ask<T: Decode>(m: &mut Machine, at: At, method: &str, args: Vec<u8>) -> Result<T, String> {
    let mut p = ("Vft", method).encode();
    let head = p.clone();
    p.extend(args);
    let o = m.run(Entry::Handle, at.ctx(&[9; 32], p), crate::chain::FULL_GAS);
    if !matches!(o.end, End::Done | End::Leave) {
        return Err(format!("{method} ends in {:?}", o.end));
    }
    if !o.journal.sent.is_empty() {
        return Err(format!("{method} sends messages"));
    }
    let r = o.journal.reply.map(|x| x.0).unwrap_or_default();
    let mut b = r.strip_prefix(&head[..]).ok_or(format!("{method} answers {r:02x?}"))?;
    let v = T::decode(&mut b).map_err(|e| format!("{method} answers {r:02x?}: {e}"))?;
    if b.is_empty() {
        Ok(v)
    } else {
        Err(format!("{method} answers {r:02x?}"))
    }
}
/// All that can be read of the program against the books.
pub fn compare(m: &mut Machine, t: &Token, at: At, accounts: &BTreeSet<Actor>) -> Result<(), String> {
    let b = &t.books;
    m.restore(&t.state);
    let differ = |what: &str, got: String, want: String| -> Result<(), String> {
        if got == want {
            Ok(())
        } else {
            Err(format!("{what} is {got}, must be {want}"))
        }
    };
    let name = |a: &Actor| Id::of(a).map_or("?".into(), |i| format!("{i:?}"));
    let mut sum = U256::zero();
    for a in accounts {
        let v: U256 = ask(m, at, "BalanceOf", a.encode())?;
        sum = sum.checked_add(v).ok_or("the balances overflow together")?;
        differ(&format!("the balance of {}", name(a)), v.to_string(), b.bal(a).to_string())?;
    }
    let v: U256 = ask(m, at, "TotalSupply", vec![])?;
    differ("the total supply", v.to_string(), b.supply.to_string())?;
    if b.balances.keys().all(|k| accounts.contains(k)) {
        differ("the sum of all balances", sum.to_string(), v.to_string())?;
    }
    for (owner, spender) in b.allowances.keys().copied().chain(accounts.iter().map(|a| (*a, INV.raw()))) {
        let v: U256 = ask(m, at, "Allowance", (owner, spender).encode())?;
        let want = b.allowances.get(&(owner, spender)).copied().unwrap_or_default();
        differ(&format!("what {} may take from {}", name(&spender), name(&owner)), v.to_string(), want.to_string())?;
    }
    for (i, q) in ["Admins", "Minters", "Burners"].iter().enumerate() {
        let mut v: Vec<Actor> = ask(m, at, q, vec![])?;
        v.sort();
        let want: Vec<Actor> = b.roles[i].iter().copied().collect();
        let list = |l: &Vec<Actor>| l.iter().map(|a| name(a)).collect::<Vec<_>>().join(" ");
        differ(q, list(&v), list(&want))?;
    }
    let title: (String, String, u8) = (ask(m, at, "Name", vec![])?, ask(m, at, "Symbol", vec![])?, ask(m, at, "Decimals", vec![])?);
    differ("the title", format!("{title:?}"), format!("{:?}", b.title))
}
