//! Many seeds, in parallel; the first violation is minimised and written as a replay file.
use crate::chain::{Op, BLOCK_MS};
use crate::gen::{mix, Rng};
use crate::machine::Code;
use crate::oracle::{Stats, Violation};
use crate::plan::*;
use crate::run::{Lab, Trace};
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::Mutex;
use std::time::{Duration, Instant};

type Opts = BTreeMap<String, String>;

#[derive(Serialize, Deserialize)]
struct Replay {
    property: String,
    signature: String,
    message: String,
    /// VERIF_SEED, index of the run and seed of the run that was minimised into this
    verif_seed: u64,
    run: u64,
    run_seed: u64,
    ops_before_minimising: usize,
    trace: Trace,
}

fn opt<'a>(o: &'a Opts, k: &str) -> Result<&'a str, String> {
    o.get(k).map(|s| s.as_str()).ok_or(format!("missing --{k}"))
}
fn num(o: &Opts, k: &str, d: u64) -> u64 {
    o.get(k).and_then(|s| s.parse().ok()).unwrap_or(d)
}
fn code(o: &Opts) -> Result<Code, String> {
    if let Some(f) = o.get("vft") {
        let c = Code::load(&std::fs::read(f).map_err(|e| format!("{f}: {e}"))?)?;
        let _ = crate::vft::VFT.set(c);
    }
    let f = opt(o, "wasm")?;
    Code::load(&std::fs::read(f).map_err(|e| format!("{f}: {e}"))?)
}
fn prop_of(s: &str) -> Result<&'static str, String> {
    ALL.iter().find(|p| **p == s).copied().ok_or(format!("unknown property {s}"))
}
fn threads() -> usize {
    std::thread::available_parallelism().map_or(4, |n| n.get()).min(16)
}

/// Seed and kind of the i-th run of a sweep.
fn run_plan(seed: u64, prop: &str, i: u64) -> (u64, crate::gen::Profile, crate::gen::Focus) {
    let pl = plan(prop);
    let ph: u64 = prop.bytes().fold(5, |a, b| a * 257 + b as u64);
    let s = mix(mix(seed, ph), i);
    let mut r = Rng::new(s ^ 0x77);
    let prof = PROFILES[r.weighted(&pl.profiles)];
    // part of the runs without the emphasis
    let focus = if r.p(25) { [1; 16] } else { pl.focus };
    (s, prof, focus)
}

struct Found {
    index: u64,
    seed: u64,
    trace: Trace,
    v: Vec<Violation>,
}
struct Swept {
    stats: Stats,
    runs: u64,
    ops_generated: u64,
    crashes: u64,
    found: Vec<Found>,
    wall: f64,
    errors: Vec<String>,
    det_runs: u64,
}

/// stop_at_first: find the violation with the lowest index and stop.
fn sweep_runs(code: &Code, seed: u64, prop: &str, want: Option<&'static str>, n: u64, from: u64, cap: Duration, stop_at_first: bool) -> Swept {
    let t0 = Instant::now();
    let next = AtomicU64::new(from);
    let min = AtomicU64::new(u64::MAX);
    let all = Mutex::new(Swept {
        stats: Stats::default(),
        runs: 0,
        ops_generated: 0,
        crashes: 0,
        found: vec![],
        wall: 0.0,
        errors: vec![],
        det_runs: 0,
    });
    std::thread::scope(|sc| {
        for _ in 0..threads() {
            sc.spawn(|| {
                let mut lab = match Lab::with(code) {
                    Ok(l) => l,
                    Err(e) => {
                        all.lock().unwrap().errors.push(e);
                        return;
                    }
                };
                let mut st = Stats::default();
                let (mut runs, mut ops, mut det) = (0u64, 0u64, 0u64);
                loop {
                    let i = next.fetch_add(1, SeqCst);
                    if i >= from + n || i > min.load(SeqCst) || t0.elapsed() > cap {
                        break;
                    }
                    let (s, prof, focus) = run_plan(seed, prop, i);
                    match lab.generate(s, prof, focus, want) {
                        Err(e) => {
                            all.lock().unwrap().errors.push(format!("run {i}: {e}"));
                            break;
                        }
                        Ok((trace, ran)) => {
                            runs += 1;
                            ops += trace.ops.len() as u64;
                            st.merge(&ran.stats);
                            // every so often: the same seed again, from the recorded trace, must end in the same state
                            if i % 97 == 0 && ran.v.is_empty() {
                                let a = (lab.digest(), ran.stats.ops);
                                det += 1;
                                match lab.replay(&trace, want, true) {
                                    Ok(r2) if r2.v.is_empty() && (lab.digest(), r2.stats.ops) == a => {}
                                    Ok(r2) => all.lock().unwrap().errors.push(format!(
                                        "run {i} (seed {s}) is not repeatable: {:?} then {:?}, {:?}",
                                        a,
                                        (lab.digest(), r2.stats.ops),
                                        r2.v
                                    )),
                                    Err(e) => all.lock().unwrap().errors.push(e),
                                }
                            }
                            if !ran.v.is_empty() {
                                if stop_at_first {
                                    min.fetch_min(i, SeqCst);
                                }
                                all.lock().unwrap().found.push(Found { index: i, seed: s, trace, v: ran.v });
                            }
                        }
                    }
                }
                let mut a = all.lock().unwrap();
                a.stats.merge(&st);
                a.runs += runs;
                a.ops_generated += ops;
                a.det_runs += det;
            });
        }
    });
    let mut a = all.into_inner().unwrap();
    a.found.sort_by_key(|f| f.index);
    a.wall = t0.elapsed().as_secs_f64();
    a
}

/// ddmin over the steps, keeping a violation of the same property with the same signature.
fn minimise(lab: &mut Lab, t: &Trace, v: &Violation, want: &'static str, limit: Duration) -> (Trace, Violation) {
    let t0 = Instant::now();
    let mut best = t.clone();
    let mut bv = v.clone();
    let try_ = |lab: &mut Lab, c: &Trace| -> Option<Violation> {
        if t0.elapsed() > limit {
            return None;
        }
        let r = lab.replay(c, Some(want), true).ok()?;
        r.v.into_iter().find(|x| x.prop == v.prop && x.sig == v.sig)
    };
    let cut = |t: &mut Trace, v: &Violation| {
        if v.step < t.ops.len() {
            t.ops.truncate(v.step + 1);
            t.exit = None;
            t.stall = false;
        }
    };
    cut(&mut best, &bv);
    for (stall, exit) in [(false, None), (best.stall, None), (false, best.exit)] {
        let mut c = best.clone();
        c.stall = stall;
        c.exit = exit;
        if c == best {
            break;
        }
        if let Some(x) = try_(lab, &c) {
            best = c;
            bv = x;
            break;
        }
    }
    let mut n = 2usize;
    while best.ops.len() >= 1 && t0.elapsed() < limit {
        let len = best.ops.len();
        let chunk = len.div_ceil(n);
        let mut changed = false;
        let mut at = 0;
        while at < best.ops.len() {
            let mut c = best.clone();
            let end = (at + chunk).min(c.ops.len());
            c.ops.drain(at..end);
            if let Some(x) = try_(lab, &c) {
                best = c;
                bv = x;
                cut(&mut best, &bv);
                changed = true;
            } else {
                at += chunk;
            }
        }
        if chunk == 1 && !changed {
            break;
        }
        n = if changed { 2.max(n / 2) } else { n * 2 }.min(best.ops.len().max(1));
    }
    // simpler steps: no gas limit, no time jump, plain faults
    for i in 0..best.ops.len() {
        let mut alts = vec![];
        match &best.ops[i] {
            Op::Call { user, call, gas, value } => {
                if *gas != 0 {
                    alts.push(Op::Call { user: *user, call: call.clone(), gas: 0, value: *value });
                }
                if value.0 != 0 {
                    alts.push(Op::Call { user: *user, call: call.clone(), gas: *gas, value: crate::types::P(0) });
                }
            }
            Op::Woken { pick, gas } if *gas > 0 => alts.push(Op::Woken { pick: *pick, gas: 0 }),
            Op::Blocks { n, ms } if *ms != *n as u64 * BLOCK_MS => alts.push(Op::Blocks { n: *n, ms: *n as u64 * BLOCK_MS }),
            Op::Token { pick, .. } => alts.push(Op::Token { pick: *pick, act: crate::chain::TokenAct::Ok }),
            _ => {}
        }
        for a in alts {
            let mut c = best.clone();
            c.ops[i] = a;
            if c != best {
                if let Some(x) = try_(lab, &c) {
                    best = c;
                    bv = x;
                }
            }
        }
    }
    (best, bv)
}

fn known(o: &Opts, prop: &str) -> Vec<(String, String)> {
    let mut out = vec![];
    if let Some(s) = o.get("known").and_then(|f| std::fs::read_to_string(f).ok()) {
        for l in s.lines() {
            // known: property=P01 signature=<sig> | <what fails>
            if let Some(r) = l.strip_prefix("known: property=") {
                if let Some((head, what)) = r.split_once(" | ") {
                    if let Some((p, sig)) = head.split_once(" signature=") {
                        if p == prop {
                            out.push((sig.to_string(), what.to_string()));
                        }
                    }
                }
            }
        }
    }
    out
}

pub fn check(o: &Opts) -> Result<i32, String> {
    let t0 = Instant::now();
    let prop = prop_of(opt(o, "prop")?)?;
    let tier = opt(o, "tier")?;
    let seed = num(o, "seed", 1);
    let quick = tier != "thorough";
    let n = num(o, "runs", if quick { 3200 } else { 150_000 });
    let cap = Duration::from_secs(num(o, "cap", if quick { 240 } else { 780 }));
    let code = code(o)?;
    let known = known(o, prop);
    for (_, what) in &known {
        println!("KNOWN-FINDING: property={prop} {what}");
    }
    let sw = sweep_runs(&code, seed, prop, Some(prop), n, 0, cap, known.is_empty());
    if let Some(e) = sw.errors.first() {
        return Err(e.clone());
    }
    let mut status = 0;
    let mut n_viol = 0;
    for f in &sw.found {
        let Some(v) = f.v.iter().find(|v| !known.iter().any(|k| k.0 == v.sig)) else { continue };
        let mut lab = Lab::with(&code)?;
        let (t, v) = minimise(&mut lab, &f.trace, v, prop, Duration::from_secs(if quick { 40 } else { 90 }));
        // must happen again, exactly
        let again = lab.replay(&t, Some(prop), true)?;
        if !again.v.iter().any(|x| x.sig == v.sig && x.msg == v.msg) {
            return Err(format!("the minimised run does not repeat: {} / {:?}", v.msg, again.v));
        }
        let dir = opt(o, "replays")?;
        std::fs::create_dir_all(dir).map_err(|e| e.to_string())?;
        let path = format!("{dir}/{prop}-{}.json", f.seed);
        let rep = Replay {
            property: prop.into(),
            signature: v.sig.clone(),
            message: v.msg.clone(),
            verif_seed: seed,
            run: f.index,
            run_seed: f.seed,
            ops_before_minimising: f.trace.ops.len(),
            trace: t.clone(),
        };
        std::fs::write(&path, serde_json::to_string_pretty(&rep).unwrap()).map_err(|e| e.to_string())?;
        println!("run {} (seed {}), {} steps, minimised to {}:", f.index, f.seed, f.trace.ops.len(), t.ops.len());
        for (i, op) in t.ops.iter().enumerate() {
            println!("  {i}: {op:?}");
        }
        if t.stall {
            println!("  then: no token answers for 300 blocks");
        }
        if v.step >= t.ops.len() {
            println!("  then: everything outstanding is served{}", if t.exit.is_some() { " and everybody leaves" } else { "" });
        }
        println!("{}: {} [{}]", v.prop, v.msg, v.sig);
        println!("VIOLATION property={prop} replay={path}");
        status = 1;
        n_viol += 1;
        break;
    }
    if let Some(f) = o.get("evidence") {
        let e = evidence(prop, tier, seed, &sw, n, n_viol, t0.elapsed().as_secs_f64(), o);
        std::fs::write(f, serde_json::to_string_pretty(&e).unwrap()).map_err(|e| e.to_string())?;
    }
    let st = &sw.stats;
    println!(
        "{prop} {tier} seed {seed}: {} runs, {} steps judged, {:.1} runs/s, {:.1} s{}",
        sw.runs,
        st.evals,
        sw.runs as f64 / sw.wall,
        t0.elapsed().as_secs_f64(),
        if sw.runs < n && status == 0 { " (stopped by the time cap)" } else { "" }
    );
    Ok(status)
}

fn evidence(prop: &str, tier: &str, seed: u64, sw: &Swept, planned: u64, violations: u64, wall: f64, o: &Opts) -> serde_json::Value {
    use serde_json::json;
    let pl = plan(prop);
    let st = &sw.stats;
    let mine = |t: &u8| pl.tags.is_empty() || pl.tags.contains(t);
    let distinct = st.sigs.iter().filter(|(t, _)| mine(t)).count();
    let relevant: u64 = st.hits.iter().filter(|(t, _)| mine(t)).map(|(_, n)| *n).sum();
    // one generated run of this sweep, written out
    let mut samples = vec![];
    if let Ok(c) = code(o) {
        if let Ok(mut lab) = Lab::with(&c) {
            for i in 0..2u64 {
                let (s, prof, focus) = run_plan(seed, prop, i);
                if let Ok((t, r)) = lab.generate(s, prof, focus, None) {
                    let ops: Vec<String> = t.ops.iter().take(40).map(|x| format!("{x:?}")).collect();
                    samples.push(json!({"run": i, "seed": s, "kind": format!("{prof:?}"), "setup": t.setup, "steps": t.ops.len(),
                        "steps_executed_with_epilogue": r.ops, "first_steps": ops}));
                }
            }
        }
    }
    let h = sw.wall / 3600.0;
    json!({
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": relevant,
            "distinct_nontrivial": distinct,
            "rule": format!("One evaluation = one simulated step of a kind this property is about ({}), executed by the real contract and judged. Runs are generated from a seed; steps that find nothing to act on are skipped and not counted. Distinct = distinct (kind of step, predicted outcome or refusal reason, ticks crossed, swap steps, direction, position of bounds against the price, outcome, out of gas, parked and woken messages, number of pools; for token replies: what the token said, whether it moved tokens, late or not, leg, deposit or withdrawal).", pl.what),
            "samples": samples,
            "runs": sw.runs,
            "runs_planned": planned,
            "runs_per_hour": (sw.runs as f64 / h).round(),
            "steps_generated": sw.ops_generated,
            "steps_judged_all_kinds": st.evals,
            "calls_accepted": st.ok,
            "calls_refused_or_aborted": st.refused,
            "steps_without_object": st.skipped,
            "simulated_blocks": st.blocks,
            "simulated_hours": st.sim_ms / 3_600_000,
            "faults_and_schedule_events": st.faults,
            "probes_on_forked_state": st.probes,
            "calls_refused_by_reason": st.refusals,
            "rare_situations_met": st.corners,
            "largest_sizes_met": st.extremes,
            "situations_by_tag": st.hits,
            "distinct_situations_all_tags": st.sigs.len(),
            "runs_repeated_from_their_trace_with_equal_final_state": sw.det_runs,
            "real_components": ["contracts, math, decimal, decimal_core, traceable_result, io crates and the generated sails entry points", "gstd async runtime (futures, wake, reply hooks, signals), sails-rs, gcore", "executed as the wasm32 program the repository builds, with gas and stack-limit instrumentation of gear-wasm-instrument 1.5.0",
                if prop == "P29" { "extended-vft (mint, burn, roles, entry points), as a second wasm32 program" } else { "(P18 and P28 also: sdk/src/wasm, natively)" }],
            "stub_components": [
                if prop == "P29" { "vft-service (balances, allowances, transfers: a git dependency that is not available here)" } else { "VFT token programs (honest and misbehaving)" },
                "Gear syscalls and message queue, waitlist, gas accounting (simulator)", "block clock", "user accounts and native balances"]
        },
        "assumptions": ["at most one caller pays gas for at most 250e9 units per message (the block limit)", "at most 12 users, 9 honest and 2 dishonest tokens, 3+ pools per run", "the block clock never goes backwards"],
        "wall_s": wall,
        "violations": violations
    })
}

pub fn replay(o: &Opts) -> Result<i32, String> {
    let f = opt(o, "file")?;
    let rep: Replay = serde_json::from_str(&std::fs::read_to_string(f).map_err(|e| format!("{f}: {e}"))?).map_err(|e| e.to_string())?;
    let prop = prop_of(&rep.property)?;
    let mut lab = Lab::with(&code(o)?)?;
    lab.verbose = o.contains_key("v");
    let r = lab.replay(&rep.trace, Some(prop), true)?;
    for v in &r.v {
        println!("step {}: {}: {} [{}]", v.step, v.prop, v.msg, v.sig);
    }
    match r.v.iter().find(|v| v.sig == rep.signature) {
        Some(v) => {
            println!("VIOLATION property={prop} replay={f}");
            if v.msg != rep.message {
                println!("(recorded message: {})", rep.message);
            }
            Ok(1)
        }
        None => {
            println!("the recorded violation does not occur");
            Ok(0)
        }
    }
}

/// Development: all properties at once, every distinct violation once.
pub fn sweep(o: &Opts) -> Result<i32, String> {
    let code = code(o)?;
    let prop = o.get("prop").map(|s| s.as_str()).unwrap_or("any");
    let want = o.get("want").map(|p| prop_of(p)).transpose()?;
    let sw = sweep_runs(&code, num(o, "seed", 1), prop, want, num(o, "runs", 1000), num(o, "from", 0), Duration::from_secs(num(o, "cap", 600)), o.contains_key("first"));
    let mut seen: BTreeMap<(&str, String), (u64, u64)> = BTreeMap::new();
    let mut lab = Lab::with(&code)?;
    for f in &sw.found {
        for v in &f.v {
            let e = seen.entry((v.prop, v.sig.clone())).or_insert((0, f.index));
            e.0 += 1;
            if e.0 == 1 && o.contains_key("show") {
                let (t, m) = minimise(&mut lab, &f.trace, v, v.prop, Duration::from_secs(20));
                println!("run {} seed {}: {} [{}] {}", f.index, f.seed, v.prop, v.sig, m.msg);
                if let Some(d) = o.get("dump") {
                    let rep = Replay { property: v.prop.into(), signature: v.sig.clone(), message: m.msg.clone(), verif_seed: 0, run: f.index, run_seed: f.seed, ops_before_minimising: f.trace.ops.len(), trace: t.clone() };
                    std::fs::write(format!("{d}/{}-{}.json", v.prop, f.index), serde_json::to_string_pretty(&rep).unwrap()).map_err(|e| e.to_string())?;
                }
                println!("   {:?} stall {} exit {:?}", t.setup, t.stall, t.exit);
                for op in &t.ops {
                    println!("   {op:?}");
                }
            }
        }
    }
    for ((p, s), (n, i)) in &seen {
        println!("{p} [{s}] x{n}, first in run {i}");
    }
    let st = &sw.stats;
    println!("runs {} in {:.1} s ({:.0}/s), ops {} ok {} refused {} skipped {} sigs {} blocks {} errors {:?}", sw.runs, sw.wall, sw.runs as f64 / sw.wall, st.ops, st.ok, st.refused, st.skipped, st.sigs.len(), st.blocks, sw.errors);
    if o.contains_key("v") {
        println!("{:#?}\n{:#?}\n{:?}\n{:#?}\n{:#?}\n{:#?}", st.faults, st.probes, st.hits, st.refusals, st.corners, st.extremes);
    }
    Ok(0)
}

/// The same seeds one after the other in two labs in different order: equal final states.
pub fn det(o: &Opts) -> Result<i32, String> {
    let code = code(o)?;
    let n = num(o, "runs", 50);
    let mut a = BTreeMap::new();
    let mut acc = 0u64;
    for pass in 0..2 {
        let mut lab = Lab::with(&code)?;
        for j in 0..n {
            let i = if pass == 0 { j } else { n - 1 - j };
            let (s, prof, focus) = run_plan(num(o, "seed", 1), "any", i);
            let (t, r) = lab.generate(s, prof, focus, None)?;
            let d = (lab.digest(), r.stats.ops, t.ops.len());
            match a.insert(i, d) {
                Some(e) if e != d => return Err(format!("run {i}: {e:?} then {d:?}")),
                _ => {}
            }
            acc = mix(acc, d.0);
        }
    }
    println!("{n} runs twice, equal; digest {acc:x}");
    Ok(0)
}
