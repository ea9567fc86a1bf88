//! Stands in for the standard VFT service of gear-foundation/standards, with its interface.
#![no_std]
#![allow(static_mut_refs)]
use sails_rs::{gstd::service, prelude::*};

pub mod utils {
    use sails_rs::{collections::HashMap, prelude::*};
    pub type BalancesMap = HashMap<ActorId, U256>;
    pub type AllowancesMap = HashMap<(ActorId, ActorId), U256>;
    #[derive(Debug, Clone, Copy, PartialEq, Eq)]
    pub enum Error {
        InsufficientAllowance,
        InsufficientBalance,
        NumericOverflow,
        Underflow,
    }
    pub type Result<T, E = Error> = core::result::Result<T, E>;
    pub fn panicking<T, E: core::fmt::Debug, F: FnOnce() -> core::result::Result<T, E>>(f: F) -> T {
        match f() {
            Ok(v) => v,
            Err(e) => panic(e),
        }
    }
    pub fn panic(err: impl core::fmt::Debug) -> ! {
        gstd::ext::panic(&gstd::format!("{err:?}"))
    }
}
use utils::{panicking, AllowancesMap, BalancesMap};

pub mod funcs {
    use super::utils::{AllowancesMap, BalancesMap, Error, Result};
    use sails_rs::prelude::*;
    pub fn allowance(a: &AllowancesMap, owner: ActorId, spender: ActorId) -> U256 {
        a.get(&(owner, spender)).copied().unwrap_or_default()
    }
    pub fn approve(a: &mut AllowancesMap, owner: ActorId, spender: ActorId, value: U256) -> bool {
        if owner == spender {
            return false;
        }
        let key = (owner, spender);
        if value.is_zero() {
            return a.remove(&key).is_some();
        }
        a.insert(key, value).map_or(true, |old| old != value)
    }
    pub fn balance_of(b: &BalancesMap, owner: ActorId) -> U256 {
        b.get(&owner).copied().unwrap_or_default()
    }
    pub fn transfer(b: &mut BalancesMap, from: ActorId, to: ActorId, value: U256) -> Result<bool> {
        if from == to || value.is_zero() {
            return Ok(false);
        }
        let new_from = balance_of(b, from).checked_sub(value).ok_or(Error::InsufficientBalance)?;
        let new_to = balance_of(b, to).checked_add(value).ok_or(Error::NumericOverflow)?;
        if new_from.is_zero() {
            b.remove(&from);
        } else {
            b.insert(from, new_from);
        }
        b.insert(to, new_to);
        Ok(true)
    }
    pub fn transfer_from(
        a: &mut AllowancesMap,
        b: &mut BalancesMap,
        spender: ActorId,
        from: ActorId,
        to: ActorId,
        value: U256,
    ) -> Result<bool> {
        if spender == from {
            return transfer(b, from, to, value);
        }
        if from == to || value.is_zero() {
            return Ok(false);
        }
        let left = allowance(a, from, spender).checked_sub(value).ok_or(Error::InsufficientAllowance)?;
        if !transfer(b, from, to, value)? {
            return Ok(false);
        }
        if left.is_zero() {
            a.remove(&(from, spender));
        } else {
            a.insert((from, spender), left);
        }
        Ok(true)
    }
}

#[derive(Default)]
pub struct Storage {
    balances: BalancesMap,
    allowances: AllowancesMap,
    meta: (String, String, u8),
    total_supply: U256,
}
static mut STORAGE: Option<Storage> = None;
impl Storage {
    pub fn get_mut() -> &'static mut Self {
        unsafe { STORAGE.as_mut().expect("Storage is not initialized") }
    }
    pub fn get() -> &'static Self {
        unsafe { STORAGE.as_ref().expect("Storage is not initialized") }
    }
    pub fn balances() -> &'static mut BalancesMap {
        &mut Self::get_mut().balances
    }
    pub fn allowances() -> &'static mut AllowancesMap {
        &mut Self::get_mut().allowances
    }
    pub fn total_supply() -> &'static mut U256 {
        &mut Self::get_mut().total_supply
    }
}

#[derive(Encode, Decode, TypeInfo)]
pub enum Event {
    Approval { owner: ActorId, spender: ActorId, value: U256 },
    Transfer { from: ActorId, to: ActorId, value: U256 },
}
#[derive(Clone)]
pub struct Service();
impl Service {
    pub fn seed(name: String, symbol: String, decimals: u8) -> Self {
        unsafe { STORAGE = Some(Storage { meta: (name, symbol, decimals), ..Default::default() }) };
        Self()
    }
}

#[service(events = Event)]
impl Service {
    pub fn new() -> Self {
        Self()
    }
    pub fn allowance(&self, owner: ActorId, spender: ActorId) -> U256 {
        funcs::allowance(Storage::allowances(), owner, spender)
    }
    pub fn approve(&mut self, spender: ActorId, value: U256) -> bool {
        let owner = gstd::msg::source();
        let mutated = funcs::approve(Storage::allowances(), owner, spender, value);
        if mutated {
            self.notify_on(Event::Approval { owner, spender, value }).expect("Notification Error");
        }
        mutated
    }
    pub fn balance_of(&self, account: ActorId) -> U256 {
        funcs::balance_of(Storage::balances(), account)
    }
    pub fn decimals(&self) -> &'static u8 {
        &Storage::get().meta.2
    }
    pub fn name(&self) -> &'static str {
        &Storage::get().meta.0
    }
    pub fn symbol(&self) -> &'static str {
        &Storage::get().meta.1
    }
    pub fn total_supply(&self) -> &'static U256 {
        Storage::total_supply()
    }
    pub fn transfer(&mut self, to: ActorId, value: U256) -> bool {
        let from = gstd::msg::source();
        let mutated = panicking(|| funcs::transfer(Storage::balances(), from, to, value));
        if mutated {
            self.notify_on(Event::Transfer { from, to, value }).expect("Notification Error");
        }
        mutated
    }
    pub fn transfer_from(&mut self, from: ActorId, to: ActorId, value: U256) -> bool {
        let spender = gstd::msg::source();
        let mutated = panicking(|| funcs::transfer_from(Storage::allowances(), Storage::balances(), spender, from, to, value));
        if mutated {
            self.notify_on(Event::Transfer { from, to, value }).expect("Notification Error");
        }
        mutated
    }
}
