//! Per property: which runs are generated, and which of the situations reached count for it.
use crate::gen::{Focus, Profile};

pub struct Plan {
    pub profiles: [u32; 4], // weights of Amm, Token, Admin, Mixed
    pub focus: Focus,
    /// tags of situations that are about this property; empty = all
    pub tags: &'static [u8],
    /// extra probes the property is about
    pub what: &'static str,
}
pub const PROFILES: [Profile; 4] = [Profile::Amm, Profile::Token, Profile::Admin, Profile::Mixed];
pub const ALL: [&str; 30] = [
    "P01", "P02", "P03", "P04", "P05", "P06", "P07", "P08", "P09", "P10", "P11", "P12", "P13", "P14", "P15", "P16",
    "P17", "P18", "P19", "P20", "P21", "P22", "P23", "P24", "P25", "P26", "P27", "P28", "P29", "P30",
];

const ONE: Focus = [1; 16];
// indices into Focus: swap route pos rm claim xfer dep wd pair wpair vara admin pool proto raw probe
fn f(list: &[(usize, u32)]) -> Focus {
    let mut o = ONE;
    for (i, m) in list {
        o[*i] = *m;
    }
    o
}

pub fn plan(prop: &str) -> Plan {
    let (profiles, focus, tags, what): ([u32; 4], Focus, &'static [u8], &'static str) = match prop {
        "P01" => ([3, 2, 1, 3], f(&[(2, 2), (3, 2)]), &[], "balances + positions + fees never exceed what the program holds, after every step; exact books once all tokens answered"),
        "P02" => ([0, 6, 0, 2], f(&[(6, 2)]), &[2, 4, 100, 101], "token deposits under every order of token execution, reply, time-out and wake-up"),
        "P03" => ([0, 6, 0, 2], f(&[(7, 2)]), &[3, 4, 100, 101], "token withdrawals under every order of token execution, reply, time-out and wake-up"),
        "P04" => ([0, 6, 0, 2], f(&[(8, 3), (9, 3)]), &[4, 100, 101], "two-token deposits and withdrawals whose legs end differently"),
        "P05" => ([0, 6, 1, 2], ONE, &[2, 3, 4, 100, 101], "one answer per call within the bound, nothing parked for ever, everything withdrawable once faults stop"),
        "P06" => ([0, 4, 0, 3], f(&[(14, 3)]), &[6, 100, 101, 17], "forged, late, lying and malformed token messages touch only the account and token they belong to"),
        "P07" => ([0, 3, 2, 3], f(&[(10, 6)]), &[7], "native VARA deposits, withdrawals and values attached to any call"),
        "P08" => ([3, 3, 3, 3], ONE, &[], "refused and aborted calls leave every view of the state unchanged"),
        "P09" => ([3, 2, 2, 4], ONE, &[], "no call changes another account's balances or positions"),
        "P10" => ([5, 0, 1, 2], f(&[(0, 2)]), &[10, 25], "swap amounts, price, tick and result against the reference arithmetic"),
        "P11" => ([4, 0, 2, 3], f(&[(3, 3), (2, 2)]), &[27, 14], "every open position can be closed, at any moment, and pays what it is worth"),
        "P12" => ([5, 0, 2, 2], f(&[(2, 2), (3, 2)]), &[27, 10, 25], "liquidity, ticks and tickmap against the open positions"),
        "P13" => ([5, 0, 1, 2], f(&[(0, 2)]), &[10, 25, 21], "current tick against the current price"),
        "P14" => ([5, 0, 1, 3], f(&[(4, 3)]), &[10, 25, 14, 27], "fee growth and fees paid against the reference arithmetic"),
        "P15" => ([3, 0, 4, 2], f(&[(13, 4)]), &[15, 10, 25], "protocol fee accrual, receiver and pay-out"),
        "P16" => ([5, 0, 1, 2], f(&[(0, 2), (1, 2)]), &[10, 25, 27], "price limits, slippage limits, minimum amounts and exact amounts"),
        "P17" => ([5, 0, 1, 3], f(&[(0, 2), (1, 2)]), &[10, 25, 17], "quotes against the same swap or route; read-only calls change nothing"),
        "P18" => ([6, 0, 2, 2], f(&[(0, 4), (4, 2), (3, 2), (12, 2)]), &[10, 25, 27, 14, 21], "the SDK's swap simulation, fees, token amounts and tick arithmetic against what the contract answers and does"),
        "P19" => ([2, 0, 4, 3], f(&[(5, 6), (3, 3)]), &[19, 27, 14], "position lists: create, remove, transfer, claim by owners and others"),
        "P20" => ([0, 1, 6, 2], f(&[(11, 2)]), &[20], "admin calls by admin and by others"),
        "P21" => ([1, 0, 6, 2], f(&[(12, 2), (11, 2)]), &[21], "fee tier and pool registry"),
        "P22" => ([3, 1, 3, 3], f(&[(15, 3)]), &[], "all views agree with each other, pages compose to the whole"),
        "P23" => ([3, 1, 3, 3], ONE, &[10, 25, 27, 19, 21], "events of every step against its effect"),
        "P24" => ([4, 0, 2, 3], f(&[(2, 2)]), &[10, 25, 27], "timestamps and seconds counters against the block clock"),
        "P25" => ([5, 0, 1, 2], f(&[(1, 8)]), &[25], "a route against its hops executed one by one"),
        "P26" => ([5, 0, 2, 2], f(&[(15, 7)]), &[10, 27], "round trips on a fork of the state never profit"),
        "P27" => ([5, 0, 2, 2], f(&[(2, 3), (3, 3)]), &[27], "tokens charged and paid for positions against the reference arithmetic"),
        "P28" => ([6, 0, 1, 1], f(&[(15, 12), (0, 2), (2, 2)]), &[], "the SDK's liquidity for an amount of one token against what the contract takes for it (on a fork of the state)"),
        "P29" => ([0, 5, 0, 3], f(&[(6, 2), (7, 2)]), &[29, 2, 3, 4], "the repository's token program, run for real beside the exchange, against a model of its books after every message"),
        "P30" => ([4, 0, 2, 3], f(&[(12, 4), (2, 2), (1, 2), (13, 2)]), &[30], "everything about every pool that a call is not about, before and after the call, without the reference model"),
        _ => ([1, 1, 1, 1], ONE, &[], ""),
    };
    Plan { profiles, focus, tags, what }
}
