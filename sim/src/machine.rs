//! The simulated Gear executor: runs the real contract wasm (instrumented with Gear's own gas
//! instrumentation) one message at a time, with every syscall served by the simulator.
use gear_wasm_instrument::{
    gas_metering::Schedule,
    parity_wasm::elements::{ExportEntry, Internal, Module as PModule},
    InstrumentationBuilder, GLOBAL_NAME_GAS,
};
use std::fmt;
use wasmer::{
    imports, AsStoreMut, AsStoreRef, Cranelift, CraneliftOptLevel, Engine,
    Function, FunctionEnv, FunctionEnvMut, Global, Instance, Memory, MemoryType, Module,
    RuntimeError, Store, Value,
};

pub type Hash = [u8; 32];
pub const PAGE: usize = 65536;
/// The linker puts the shadow stack first: 16 wasm pages; their content never outlives a message.
/// a program may use up to 2 GB on the chain; the simulator allows half a GB
const MAX_PAGES: u32 = 8192;
pub const STACK_PAGES: usize = 16;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Entry {
    Init,
    Handle,
    HandleReply,
    HandleSignal,
}

/// What the contract can see of the message and of the world while it executes.
#[derive(Clone, Debug, Default)]
pub struct Ctx {
    pub program: Hash,
    pub msg_id: Hash,
    pub source: Hash,
    pub payload: Vec<u8>,
    pub value: u128,
    pub value_available: u128,
    pub block_height: u32,
    pub block_timestamp: u64,
    pub reply_to: Option<Hash>,
    pub reply_code: Option<[u8; 4]>,
    pub signal_from: Option<Hash>,
    pub system_reserved: u64,
    pub already_reserved: bool,
    /// number of messages sent so far under this message id (ids must stay unique across wakes)
    pub nonce: u32,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Sent {
    pub id: Hash,
    pub dest: Hash,
    pub payload: Vec<u8>,
    pub value: u128,
    pub gas: Option<u64>,
    pub delay: u32,
}

#[derive(Clone, Debug, Default)]
pub struct Journal {
    pub sent: Vec<Sent>,
    pub reply: Option<(Vec<u8>, u128)>,
    pub wakes: Vec<(Hash, u32)>,
    pub deposits: Vec<(Hash, u64)>,
    pub debug: Vec<String>,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum End {
    Done,
    Leave,
    WaitUpTo(u32),
    WaitFor(u32),
    Wait,
    Exit,
    Panic(String),
    OutOfGas,
    StackLimit,
    Oom,
    Trap(String),
}
impl End {
    pub fn failed(&self) -> bool {
        matches!(
            self,
            End::Panic(_) | End::OutOfGas | End::StackLimit | End::Oom | End::Trap(_)
        )
    }
}

#[derive(Debug)]
pub struct Outcome {
    pub end: End,
    pub journal: Journal,
    pub gas_left: u64,
    pub system_reserved: u64,
    pub nonce: u32,
}

#[derive(Debug, Clone)]
struct HostStop(End);
impl fmt::Display for HostStop {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{:?}", self.0)
    }
}
impl std::error::Error for HostStop {}
fn stop(e: End) -> RuntimeError {
    RuntimeError::user(Box::new(HostStop(e)))
}

struct Host {
    ctx: Ctx,
    journal: Journal,
    memory: Option<Memory>,
    gas: Option<Global>,
    alloc: Vec<bool>, // page allocated?
}

/// Cheap fixed syscall prices; Gear charges more, which only shifts where gas runs out.
const G_SMALL: u64 = 400_000;
const G_SEND: u64 = 30_000_000;

fn charge(ctx: &mut FunctionEnvMut<Host>, amount: u64) -> Result<(), RuntimeError> {
    let g = ctx.data().gas.clone().unwrap();
    let cur = match g.get(ctx) {
        Value::I64(v) => v as u64,
        _ => unreachable!(),
    };
    if cur < amount {
        let _ = g.set(ctx, Value::I64(0));
        return Err(stop(End::OutOfGas));
    }
    g.set(ctx, Value::I64((cur - amount) as i64)).unwrap();
    Ok(())
}
fn gas_now(ctx: &mut FunctionEnvMut<Host>) -> u64 {
    let g = ctx.data().gas.clone().unwrap();
    match g.get(ctx) {
        Value::I64(v) => v as u64,
        _ => unreachable!(),
    }
}
fn rd(ctx: &FunctionEnvMut<Host>, ptr: u32, len: usize) -> Result<Vec<u8>, RuntimeError> {
    let mem = ctx.data().memory.clone().unwrap();
    let v = mem.view(ctx);
    let mut b = vec![0u8; len];
    v.read(ptr as u64, &mut b)
        .map_err(|_| stop(End::Trap("syscall: out of bounds read".into())))?;
    Ok(b)
}
fn wr(ctx: &FunctionEnvMut<Host>, ptr: u32, b: &[u8]) -> Result<(), RuntimeError> {
    let mem = ctx.data().memory.clone().unwrap();
    let v = mem.view(ctx);
    v.write(ptr as u64, b)
        .map_err(|_| stop(End::Trap("syscall: out of bounds write".into())))
}
fn h32(b: &[u8]) -> Hash {
    let mut h = [0u8; 32];
    h.copy_from_slice(&b[..32]);
    h
}
fn u128_at(b: &[u8]) -> u128 {
    let mut h = [0u8; 16];
    h.copy_from_slice(&b[..16]);
    u128::from_le_bytes(h)
}

/// Deterministic child message id.
pub fn child_id(parent: &Hash, n: u32) -> Hash {
    let mut a: u64 = 0xcbf29ce484222325 ^ (n as u64).wrapping_mul(0x9E3779B97F4A7C15);
    for b in parent.iter() {
        a = (a ^ *b as u64).wrapping_mul(0x100000001b3);
        a ^= a >> 29;
    }
    let mut out = [0u8; 32];
    for i in 0..4 {
        a = a.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = a;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^= z >> 31;
        out[i * 8..i * 8 + 8].copy_from_slice(&z.to_le_bytes());
    }
    out
}

#[derive(Clone)]
pub struct Code {
    engine: Engine,
    module: Module,
    globals: Vec<String>,
    initial_pages: u32,
}

impl Code {
    pub fn load(wasm: &[u8]) -> Result<Code, String> {
        let mut m: PModule =
            gear_wasm_instrument::parity_wasm::deserialize_buffer::<PModule>(wasm)
                .map_err(|e| format!("{e:?}"))?;
        // Drop custom sections (names), export the mutable globals so that each message starts
        // from their initial values, as on chain.
        m.sections_mut()
            .retain(|s| !matches!(s, gear_wasm_instrument::parity_wasm::elements::Section::Custom(_)));
        let mut names = vec![];
        let imported = m
            .import_section()
            .map(|s| s.globals())
            .unwrap_or(0) as u32;
        let muts: Vec<u32> = m
            .global_section()
            .map(|g| {
                g.entries()
                    .iter()
                    .enumerate()
                    .filter(|(_, e)| e.global_type().is_mutable())
                    .map(|(i, _)| i as u32 + imported)
                    .collect()
            })
            .unwrap_or_default();
        if let Some(ex) = m.export_section_mut() {
            for i in muts {
                let n = format!("__sim_g{}", i);
                ex.entries_mut()
                    .push(ExportEntry::new(n.clone(), Internal::Global(i)));
                names.push(n);
            }
        }
        let initial_pages = m
            .import_section()
            .and_then(|s| {
                s.entries().iter().find_map(|e| match e.external() {
                    gear_wasm_instrument::parity_wasm::elements::External::Memory(mt) => {
                        Some(mt.limits().initial())
                    }
                    _ => None,
                })
            })
            .ok_or("no memory import")?;
        let schedule = Schedule::default();
        let mut b = InstrumentationBuilder::new("env");
        b.with_gas_limiter(|module: &PModule| schedule.rules(module));
        let m = b.instrument(m).map_err(|e| format!("{:?}", e))?;
        let bytes = gear_wasm_instrument::parity_wasm::serialize(m).map_err(|e| e.to_string())?;
        let mut cfg = Cranelift::default();
        cfg.opt_level(CraneliftOptLevel::Speed);
        cfg.canonicalize_nans(false);
        let engine: Engine = wasmer::EngineBuilder::new(cfg).into();
        let module = Module::new(&engine, &bytes).map_err(|e| e.to_string())?;
        Ok(Code {
            engine,
            module,
            globals: names,
            initial_pages,
        })
    }
}

/// A program's durable state: what survives between messages.
#[derive(Clone, PartialEq, Eq)]
pub struct State {
    pub mem: Vec<u8>, // from the end of the stack
    pub alloc: Vec<bool>,
}

pub struct Machine {
    store: Store,
    env: FunctionEnv<Host>,
    memory: Memory,
    gas: Global,
    globals: Vec<(Global, Value)>,
    f_init: Function,
    f_handle: Function,
    f_reply: Function,
    f_signal: Function,
    pub messages: u64,
    pub syscalls_seen: u64,
}

impl Machine {
    pub fn new(code: &Code) -> Result<Machine, String> {
        let mut store = Store::new(code.engine.clone());
        let host = Host {
            ctx: Ctx::default(),
            journal: Journal::default(),
            memory: None,
            gas: None,
            alloc: vec![true; code.initial_pages as usize],
        };
        let env = FunctionEnv::new(&mut store, host);
        let memory = Memory::new(
            &mut store,
            MemoryType::new(code.initial_pages, Some(MAX_PAGES), false),
        )
        .map_err(|e| e.to_string())?;
        env.as_mut(&mut store).memory = Some(memory.clone());

        macro_rules! f {
            ($f:expr) => {
                Function::new_typed_with_env(&mut store, &env, $f)
            };
        }
        let imports = imports! { "env" => {
            "memory" => memory.clone(),
            "alloc" => f!(sys_alloc),
            "free" => f!(sys_free),
            "free_range" => f!(sys_free_range),
            "gr_system_break" => f!(sys_break),
            "gr_block_height" => f!(gr_block_height),
            "gr_block_timestamp" => f!(gr_block_timestamp),
            "gr_gas_available" => f!(gr_gas_available),
            "gr_message_id" => f!(gr_message_id),
            "gr_program_id" => f!(gr_program_id),
            "gr_source" => f!(gr_source),
            "gr_value" => f!(gr_value),
            "gr_value_available" => f!(gr_value_available),
            "gr_size" => f!(gr_size),
            "gr_read" => f!(gr_read),
            "gr_reply_to" => f!(gr_reply_to),
            "gr_reply_code" => f!(gr_reply_code),
            "gr_signal_from" => f!(gr_signal_from),
            "gr_signal_code" => f!(gr_signal_code),
            "gr_reply" => f!(gr_reply),
            "gr_reply_wgas" => f!(gr_reply_wgas),
            "gr_send" => f!(gr_send),
            "gr_send_wgas" => f!(gr_send_wgas),
            "gr_reply_deposit" => f!(gr_reply_deposit),
            "gr_system_reserve_gas" => f!(gr_system_reserve_gas),
            "gr_wake" => f!(gr_wake),
            "gr_wait" => f!(gr_wait),
            "gr_wait_for" => f!(gr_wait_for),
            "gr_wait_up_to" => f!(gr_wait_up_to),
            "gr_leave" => f!(gr_leave),
            "gr_exit" => f!(gr_exit),
            "gr_panic" => f!(gr_panic),
            "gr_oom_panic" => f!(gr_oom_panic),
            "gr_debug" => f!(gr_debug),
            "gr_random" => f!(gr_random),
        }};
        let instance =
            Instance::new(&mut store, &code.module, &imports).map_err(|e| e.to_string())?;
        let gas = instance
            .exports
            .get_global(GLOBAL_NAME_GAS)
            .map_err(|e| e.to_string())?
            .clone();
        env.as_mut(&mut store).gas = Some(gas.clone());
        let mut globals = vec![];
        for n in &code.globals {
            let g = instance.exports.get_global(n).map_err(|e| e.to_string())?.clone();
            let v = g.get(&mut store);
            globals.push((g, v));
        }
        let get = |n: &str| {
            instance
                .exports
                .get_function(n)
                .map(|f| f.clone())
                .map_err(|e| format!("export {n}: {e}"))
        };
        Ok(Machine {
            f_init: get("init")?,
            f_handle: get("handle")?,
            f_reply: get("handle_reply")?,
            f_signal: get("handle_signal")?,
            store,
            env,
            memory,
            gas,
            globals,
            messages: 0,
            syscalls_seen: 0,
        })
    }

    /// Program state as it is now in the instance.
    pub fn save(&self) -> State {
        let mut s = State { mem: vec![], alloc: vec![] };
        self.save_into(&mut s);
        s
    }
    /// Allocated pages only; `sys_alloc` clears what it hands out, so nothing else can be seen.
    pub fn save_into(&self, s: &mut State) {
        let v = self.memory.view(&self.store);
        let al = &self.env.as_ref(&self.store).alloc;
        let pages = al.iter().rposition(|a| *a).map_or(0, |i| i + 1).max(STACK_PAGES);
        let data = unsafe { std::slice::from_raw_parts(v.data_ptr(), v.data_size() as usize) };
        s.mem.clear();
        s.mem.extend_from_slice(&data[STACK_PAGES * PAGE..pages * PAGE]);
        s.alloc.clear();
        s.alloc.extend_from_slice(&al[..pages.min(al.len())]);
    }
    /// Nothing of an earlier run may shine through padding the program copies from its stack.
    pub fn clear_stack(&mut self) {
        let v = self.memory.view(&self.store);
        let size = v.data_size() as usize;
        let data = unsafe { std::slice::from_raw_parts_mut(v.data_ptr(), size) };
        data.fill(0);
    }
    pub fn restore(&mut self, s: &State) {
        let need = STACK_PAGES + s.mem.len() / PAGE;
        let have = self.memory.view(&self.store).data_size() as usize / PAGE;
        if have < need {
            self.memory
                .grow(&mut self.store, (need - have) as u32)
                .expect("memory grow");
        }
        let v = self.memory.view(&self.store);
        let size = v.data_size() as usize;
        let data = unsafe { std::slice::from_raw_parts_mut(v.data_ptr(), size) };
        let base = STACK_PAGES * PAGE;
        data[base..base + s.mem.len()].copy_from_slice(&s.mem);
        let h = self.env.as_mut(&mut self.store);
        h.alloc.clear();
        h.alloc.extend_from_slice(&s.alloc);
    }

    /// Execute one message. Memory is left as the code left it: the caller commits or restores.
    pub fn run(&mut self, entry: Entry, ctx: Ctx, gas: u64) -> Outcome {
        self.messages += 1;
        for (g, v) in &self.globals {
            g.set(&mut self.store, v.clone()).expect("reset global");
        }
        self.gas
            .set(&mut self.store, Value::I64(gas as i64))
            .expect("set gas");
        {
            let h = self.env.as_mut(&mut self.store);
            h.ctx = ctx;
            h.journal = Journal::default();
        }
        let f = match entry {
            Entry::Init => &self.f_init,
            Entry::Handle => &self.f_handle,
            Entry::HandleReply => &self.f_reply,
            Entry::HandleSignal => &self.f_signal,
        };
        let r = f.call(&mut self.store, &[]);
        let end = match r {
            Ok(_) => End::Done,
            Err(e) => match e.downcast::<HostStop>() {
                Ok(s) => s.0,
                Err(e) => End::Trap(e.message()),
            },
        };
        let gas_left = match self.gas.get(&mut self.store) {
            Value::I64(v) => v as u64,
            _ => unreachable!(),
        };
        let h = self.env.as_mut(&mut self.store);
        let journal = std::mem::take(&mut h.journal);
        Outcome {
            end,
            journal,
            gas_left,
            system_reserved: h.ctx.system_reserved,
            nonce: h.ctx.nonce,
        }
    }
}

type E<'a> = FunctionEnvMut<'a, Host>;
type R<T> = Result<T, RuntimeError>;

fn sys_alloc(mut c: E, pages: i32) -> R<i32> {
    charge(&mut c, G_SMALL)?;
    let pages = pages as usize;
    let mut start = None;
    {
        let al = &c.data().alloc;
        let mut run = 0;
        for (i, a) in al.iter().enumerate() {
            if *a {
                run = 0
            } else {
                run += 1;
                if run == pages {
                    start = Some(i + 1 - pages);
                    break;
                }
            }
        }
    }
    let start = match start {
        Some(s) => s,
        None => {
            // grow from the trailing free run
            let al = &c.data().alloc;
            let trailing = al.iter().rev().take_while(|a| !**a).count();
            let s = al.len() - trailing;
            let new_len = s + pages;
            if new_len > MAX_PAGES as usize {
                return Ok(-1);
            }
            let mem = c.data().memory.clone().unwrap();
            let have = mem.view(&c).data_size() as usize / PAGE;
            if have < new_len {
                let (_, mut st) = c.data_and_store_mut();
                if mem.grow(&mut st, (new_len - have) as u32).is_err() {
                    return Ok(-1);
                }
            }
            c.data_mut().alloc.resize(new_len, false);
            s
        }
    };
    for i in start..start + pages {
        c.data_mut().alloc[i] = true;
    }
    let mem = c.data().memory.clone().unwrap();
    let v = mem.view(&c);
    let data = unsafe { std::slice::from_raw_parts_mut(v.data_ptr(), v.data_size() as usize) };
    data[start * PAGE..(start + pages) * PAGE].fill(0);
    Ok(start as i32)
}
fn sys_free(mut c: E, page: i32) -> R<i32> {
    charge(&mut c, G_SMALL)?;
    let p = page as usize;
    if let Some(a) = c.data_mut().alloc.get_mut(p) {
        *a = false;
        Ok(0)
    } else {
        Ok(1)
    }
}
fn sys_free_range(mut c: E, a: i32, b: i32) -> R<i32> {
    charge(&mut c, G_SMALL)?;
    for p in a as usize..=b as usize {
        if let Some(x) = c.data_mut().alloc.get_mut(p) {
            *x = false;
        } else {
            return Ok(1);
        }
    }
    Ok(0)
}
fn sys_break(_c: E, code: i32) -> R<()> {
    Err(stop(if code == 0 { End::OutOfGas } else { End::StackLimit }))
}
fn gr_block_height(mut c: E, p: i32) -> R<()> {
    charge(&mut c, G_SMALL)?;
    let v = c.data().ctx.block_height;
    wr(&c, p as u32, &v.to_le_bytes())
}
fn gr_block_timestamp(mut c: E, p: i32) -> R<()> {
    charge(&mut c, G_SMALL)?;
    let v = c.data().ctx.block_timestamp;
    wr(&c, p as u32, &v.to_le_bytes())
}
fn gr_gas_available(mut c: E, p: i32) -> R<()> {
    charge(&mut c, G_SMALL)?;
    let g = gas_now(&mut c);
    wr(&c, p as u32, &g.to_le_bytes())
}
fn gr_message_id(mut c: E, p: i32) -> R<()> {
    charge(&mut c, G_SMALL)?;
    let v = c.data().ctx.msg_id;
    wr(&c, p as u32, &v)
}
fn gr_program_id(mut c: E, p: i32) -> R<()> {
    charge(&mut c, G_SMALL)?;
    let v = c.data().ctx.program;
    wr(&c, p as u32, &v)
}
fn gr_source(mut c: E, p: i32) -> R<()> {
    charge(&mut c, G_SMALL)?;
    let v = c.data().ctx.source;
    wr(&c, p as u32, &v)
}
fn gr_value(mut c: E, p: i32) -> R<()> {
    charge(&mut c, G_SMALL)?;
    let v = c.data().ctx.value;
    wr(&c, p as u32, &v.to_le_bytes())
}
fn gr_value_available(mut c: E, p: i32) -> R<()> {
    charge(&mut c, G_SMALL)?;
    let v = c.data().ctx.value_available;
    wr(&c, p as u32, &v.to_le_bytes())
}
fn gr_size(mut c: E, p: i32) -> R<()> {
    charge(&mut c, G_SMALL)?;
    let v = c.data().ctx.payload.len() as u32;
    wr(&c, p as u32, &v.to_le_bytes())
}
fn gr_read(mut c: E, at: i32, len: i32, buf: i32, err: i32) -> R<()> {
    charge(&mut c, G_SMALL)?;
    let (at, len) = (at as u32 as usize, len as u32 as usize);
    let data = {
        let p = &c.data().ctx.payload;
        if at + len > p.len() {
            None
        } else {
            Some(p[at..at + len].to_vec())
        }
    };
    match data {
        Some(d) => {
            wr(&c, buf as u32, &d)?;
            wr(&c, err as u32, &0u32.to_le_bytes())
        }
        None => wr(&c, err as u32, &1u32.to_le_bytes()),
    }
}
fn opt_hash(c: &mut E, v: Option<Hash>, p: i32) -> R<()> {
    let mut b = vec![0u8; 36];
    match v {
        Some(h) => b[4..].copy_from_slice(&h),
        None => b[..4].copy_from_slice(&1u32.to_le_bytes()),
    }
    wr(c, p as u32, &b)
}
fn gr_reply_to(mut c: E, p: i32) -> R<()> {
    charge(&mut c, G_SMALL)?;
    let v = c.data().ctx.reply_to;
    opt_hash(&mut c, v, p)
}
fn gr_signal_from(mut c: E, p: i32) -> R<()> {
    charge(&mut c, G_SMALL)?;
    let v = c.data().ctx.signal_from;
    opt_hash(&mut c, v, p)
}
fn gr_signal_code(mut c: E, p: i32) -> R<()> {
    charge(&mut c, G_SMALL)?;
    let b = if c.data().ctx.signal_from.is_some() {
        [0u8, 0, 0, 0, 3, 0, 0, 0]
    } else {
        [1u8, 0, 0, 0, 0, 0, 0, 0]
    };
    wr(&c, p as u32, &b)
}
fn gr_reply_code(mut c: E, p: i32) -> R<()> {
    charge(&mut c, G_SMALL)?;
    let v = c.data().ctx.reply_code;
    let mut b = [0u8; 8];
    match v {
        Some(h) => b[4..].copy_from_slice(&h),
        None => b[0] = 1,
    }
    wr(&c, p as u32, &b)
}
fn do_reply(mut c: E, payload: i32, len: i32, value: i32, err_mid: i32) -> R<()> {
    charge(&mut c, G_SEND)?;
    let data = rd(&c, payload as u32, len as u32 as usize)?;
    let val = if value as u32 == u32::MAX {
        0
    } else {
        u128_at(&rd(&c, value as u32, 16)?)
    };
    let avail = c.data().ctx.value_available;
    if c.data().journal.reply.is_some() || val > avail {
        let mut b = vec![0u8; 36];
        b[0] = 1;
        return wr(&c, err_mid as u32, &b);
    }
    c.data_mut().ctx.value_available = avail - val;
    let id = child_id(&c.data().ctx.msg_id, 0xffff_ffff);
    c.data_mut().journal.reply = Some((data, val));
    let mut b = vec![0u8; 36];
    b[4..].copy_from_slice(&id);
    wr(&c, err_mid as u32, &b)
}
fn gr_reply(c: E, payload: i32, len: i32, value: i32, err_mid: i32) -> R<()> {
    do_reply(c, payload, len, value, err_mid)
}
fn gr_reply_wgas(c: E, payload: i32, len: i32, _gas: i64, value: i32, err_mid: i32) -> R<()> {
    do_reply(c, payload, len, value, err_mid)
}
fn do_send(
    mut c: E,
    pid_value: i32,
    payload: i32,
    len: i32,
    gas: Option<u64>,
    delay: i32,
    err_mid: i32,
) -> R<()> {
    charge(&mut c, G_SEND)?;
    let pv = rd(&c, pid_value as u32, 48)?;
    let dest = h32(&pv);
    let val = u128_at(&pv[32..]);
    let data = rd(&c, payload as u32, len as u32 as usize)?;
    let avail = c.data().ctx.value_available;
    let gas_ok = match gas {
        Some(g) => gas_now(&mut c) >= g,
        None => true,
    };
    if val > avail || !gas_ok {
        let mut b = vec![0u8; 36];
        b[0] = 2;
        return wr(&c, err_mid as u32, &b);
    }
    if let Some(g) = gas {
        charge(&mut c, g)?;
    }
    let n = c.data().ctx.nonce;
    let id = child_id(&c.data().ctx.msg_id, n);
    let h = c.data_mut();
    h.ctx.nonce += 1;
    h.ctx.value_available = avail - val;
    h.journal.sent.push(Sent {
        id,
        dest,
        payload: data,
        value: val,
        gas,
        delay: delay as u32,
    });
    let mut b = vec![0u8; 36];
    b[4..].copy_from_slice(&id);
    wr(&c, err_mid as u32, &b)
}
fn gr_send(c: E, pv: i32, payload: i32, len: i32, delay: i32, err_mid: i32) -> R<()> {
    do_send(c, pv, payload, len, None, delay, err_mid)
}
fn gr_send_wgas(
    c: E,
    pv: i32,
    payload: i32,
    len: i32,
    gas: i64,
    delay: i32,
    err_mid: i32,
) -> R<()> {
    do_send(c, pv, payload, len, Some(gas as u64), delay, err_mid)
}
fn gr_reply_deposit(mut c: E, mid: i32, gas: i64, err: i32) -> R<()> {
    charge(&mut c, G_SMALL)?;
    let id = h32(&rd(&c, mid as u32, 32)?);
    let known = c.data().journal.sent.iter().any(|s| s.id == id);
    if !known || gas_now(&mut c) < gas as u64 {
        return wr(&c, err as u32, &3u32.to_le_bytes());
    }
    charge(&mut c, gas as u64)?;
    c.data_mut().journal.deposits.push((id, gas as u64));
    wr(&c, err as u32, &0u32.to_le_bytes())
}
fn gr_system_reserve_gas(mut c: E, gas: i64, err: i32) -> R<()> {
    charge(&mut c, G_SMALL)?;
    if gas_now(&mut c) < gas as u64 || c.data().ctx.already_reserved {
        return wr(&c, err as u32, &4u32.to_le_bytes());
    }
    charge(&mut c, gas as u64)?;
    c.data_mut().ctx.system_reserved += gas as u64;
    wr(&c, err as u32, &0u32.to_le_bytes())
}
fn gr_wake(mut c: E, mid: i32, delay: i32, err: i32) -> R<()> {
    charge(&mut c, G_SMALL)?;
    let id = h32(&rd(&c, mid as u32, 32)?);
    c.data_mut().journal.wakes.push((id, delay as u32));
    wr(&c, err as u32, &0u32.to_le_bytes())
}
fn gr_wait(_c: E) -> R<()> {
    Err(stop(End::Wait))
}
fn gr_wait_for(_c: E, d: i32) -> R<()> {
    Err(stop(End::WaitFor(d as u32)))
}
fn gr_wait_up_to(_c: E, d: i32) -> R<()> {
    Err(stop(End::WaitUpTo(d as u32)))
}
fn gr_leave(_c: E) -> R<()> {
    Err(stop(End::Leave))
}
fn gr_exit(_c: E, _p: i32) -> R<()> {
    Err(stop(End::Exit))
}
fn gr_panic(c: E, p: i32, len: i32) -> R<()> {
    let d = rd(&c, p as u32, len as u32 as usize)?;
    Err(stop(End::Panic(String::from_utf8_lossy(&d).into_owned())))
}
fn gr_oom_panic(_c: E) -> R<()> {
    Err(stop(End::Oom))
}
fn gr_debug(c: E, p: i32, len: i32) -> R<()> {
    let d = rd(&c, p as u32, len as u32 as usize)?;
    let mut c = c;
    c.data_mut()
        .journal
        .debug
        .push(String::from_utf8_lossy(&d).into_owned());
    Ok(())
}
fn gr_random(c: E, _s: i32, out: i32) -> R<()> {
    let b = [0u8; 36];
    wr(&c, out as u32, &b)
}

#[allow(dead_code)]
fn _assert_store(s: &mut Store) {
    let _ = s.as_store_mut();
    let _ = s.as_store_ref();
}
