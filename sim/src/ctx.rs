//! The simulator's seam: every instrumented user callback, iterator poll and
//! I/O call goes through [`hook`], which counts the step, may fire the armed
//! fault of the running client and may preempt the running client.
use crate::rng::mix;
use serde::{Deserialize, Serialize};
use std::cell::{Cell, RefCell};

#[derive(Clone, Copy, PartialEq, Eq, Debug, Serialize, Deserialize)]
#[repr(u8)]
pub enum H {
    Env,
    Dist,
    DistIf,
    Contains,
    Eq,
    Clone,
    SelP,
    SelL,
    Visit,
    Ser,
    De,
    Drop,
    Poll,
    Io,
    /// a method of a user-defined envelope
    EnvM,
}
pub const NH: usize = 15;
pub const HOOK_NAMES: [&str; NH] = [
    "envelope",
    "distance_2",
    "distance_2_if_less_or_equal",
    "contains_point",
    "eq",
    "clone",
    "select_parent",
    "select_leaf",
    "visitor",
    "serialize",
    "deserialize",
    "drop",
    "poll",
    "io",
    "envelope_method",
];
impl H {
    pub const fn bit(self) -> u32 {
        1 << (self as u32)
    }
}

/// Panic payload of an injected panic.
pub struct Injected;
/// Panic payload raised when an operation exceeds its step budget.
pub struct OverBudget;

/// A fault for one operation: the `nth` callback whose kind is in `kinds` fails.
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub struct FaultSpec {
    pub kinds: u32,
    pub nth: u32,
    /// return an error (where the callback can) instead of panicking
    pub err: bool,
}

pub const MAXC: usize = 8;

// Kinds of violation; a check reports a violation iff its accept mask meets it.
pub mod k {
    pub const CONTENT: u32 = 1 << 0;
    pub const QUERY: u32 = 1 << 1;
    pub const NN: u32 = 1 << 2;
    pub const JOIN: u32 = 1 << 3;
    pub const MUT: u32 = 1 << 4;
    pub const VISIT: u32 = 1 << 5;
    pub const STRUCT: u32 = 1 << 6;
    pub const REMOVE: u32 = 1 << 7;
    pub const SNAP: u32 = 1 << 8;
    pub const DAMAGE: u32 = 1 << 9;
    pub const REPLICA: u32 = 1 << 10;
    pub const CLONE: u32 = 1 << 11;
    pub const OWN: u32 = 1 << 12;
    pub const PROGRESS: u32 = 1 << 13;
    pub const DRAIN: u32 = 1 << 14;
    pub const LEAK: u32 = 1 << 15;
    pub const UNWIND: u32 = 1 << 16;
    pub const SHARE: u32 = 1 << 17;
    pub const COST: u32 = 1 << 18;
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Viol {
    pub kinds: u32,
    pub msg: String,
    pub client: usize,
    pub op: usize,
    pub step: u64,
}

pub type Yielder = corosensei::Yielder<(), ()>;

pub struct Ctx {
    pub quiet: Cell<u32>,
    pub steps: Cell<u64>,
    pub hash: Cell<u64>,
    pub counts: [Cell<u64>; NH],
    pub fired_by: [Cell<u64>; NH],
    pub fired_err: Cell<u64>,
    pub cur: Cell<usize>,
    pub left: [Cell<i64>; MAXC],
    pub armed: [Cell<Option<FaultSpec>>; MAXC],
    pub fired: [Cell<Option<H>>; MAXC],
    pub yielders: [Cell<*const Yielder>; MAXC],
    pub countdown: Cell<u64>, // 0: no preemption scheduled
    pub preemptions: Cell<u64>,
    pub op_idx: [Cell<usize>; MAXC],
    // liveness tokens
    pub live: RefCell<Vec<bool>>,
    pub live_count: Cell<u64>,
    pub double_drop: Cell<bool>,
    /// something was deliberately forgotten in this run
    pub forgot: Cell<bool>,
    pub next_id: Cell<u64>,
    pub exact: Cell<bool>,
    pub exp: Cell<i32>,
    /// translation of all coordinates
    pub off: Cell<i64>,
    pub viol: RefCell<Option<Viol>>,
    pub panic_msg: RefCell<String>,
    pub log: Cell<bool>,
    pub probes: RefCell<std::collections::BTreeMap<&'static str, u64>>,
    pub states: RefCell<Vec<u64>>,
    pub ops: RefCell<std::collections::BTreeMap<&'static str, u64>>,
    /// kinds of thing this run actually exercised
    pub run_cats: Cell<u32>,
}

fn cells<T, const N: usize>(f: impl Fn() -> T) -> [Cell<T>; N] {
    std::array::from_fn(|_| Cell::new(f()))
}

impl Ctx {
    fn new() -> Self {
        Ctx {
            quiet: Cell::new(1),
            steps: Cell::new(0),
            hash: Cell::new(0),
            counts: cells(|| 0),
            fired_by: cells(|| 0),
            fired_err: Cell::new(0),
            cur: Cell::new(0),
            left: cells(|| i64::MAX),
            armed: cells(|| None),
            fired: cells(|| None),
            yielders: cells(std::ptr::null),
            countdown: Cell::new(0),
            preemptions: Cell::new(0),
            op_idx: cells(|| 0),
            live: RefCell::new(Vec::new()),
            live_count: Cell::new(0),
            double_drop: Cell::new(false),
            forgot: Cell::new(false),
            next_id: Cell::new(0),
            exact: Cell::new(true),
            exp: Cell::new(0),
            off: Cell::new(0),
            viol: RefCell::new(None),
            panic_msg: RefCell::new(String::new()),
            log: Cell::new(false),
            probes: RefCell::new(Default::default()),
            states: RefCell::new(Vec::new()),
            ops: RefCell::new(Default::default()),
            run_cats: Cell::new(0),
        }
    }
    /// Forget everything about the previous run (statistics are kept).
    pub fn reset(&self) {
        self.quiet.set(0);
        self.steps.set(0);
        self.hash.set(0x1234_5678);
        self.cur.set(0);
        for i in 0..MAXC {
            self.left[i].set(i64::MAX);
            self.armed[i].set(None);
            self.fired[i].set(None);
            self.yielders[i].set(std::ptr::null());
            self.op_idx[i].set(0);
        }
        self.countdown.set(0);
        self.live.borrow_mut().clear();
        self.live_count.set(0);
        self.double_drop.set(false);
        self.forgot.set(false);
        self.next_id.set(1);
        *self.viol.borrow_mut() = None;
        self.panic_msg.borrow_mut().clear();
        self.states.borrow_mut().clear();
        self.run_cats.set(0);
    }
    pub fn violated(&self) -> bool {
        self.viol.borrow().is_some()
    }
}

pub fn ctx() -> &'static Ctx {
    thread_local! {
        static C: &'static Ctx = Box::leak(Box::new(Ctx::new()));
    }
    C.with(|c| *c)
}

pub fn violate(kinds: u32, msg: impl Into<String>) {
    let c = ctx();
    let mut v = c.viol.borrow_mut();
    if v.is_none() {
        let cur = c.cur.get();
        *v = Some(Viol {
            kinds,
            msg: msg.into(),
            client: cur,
            op: c.op_idx[cur].get(),
            step: c.steps.get(),
        });
    }
}

pub fn probe(name: &'static str) {
    *ctx().probes.borrow_mut().entry(name).or_insert(0) += 1;
}
pub fn probe_n(name: &'static str, n: u64) {
    *ctx().probes.borrow_mut().entry(name).or_insert(0) += n;
}

/// One simulated step. Returns `true` if an error fault fires here.
pub fn hook_e(kind: H, tag: u64) -> bool {
    let c = ctx();
    if c.quiet.get() > 0 {
        return false;
    }
    let cur = c.cur.get();
    c.steps.set(c.steps.get() + 1);
    c.hash
        .set(mix(c.hash.get(), ((cur as u64) << 56) | ((kind as u64) << 48) | (tag & 0xffff_ffff)));
    let n = &c.counts[kind as usize];
    n.set(n.get() + 1);
    if c.log.get() {
        eprintln!("  step {} client {} {} #{}", c.steps.get(), cur, HOOK_NAMES[kind as usize], tag);
    }
    let panicking = std::thread::panicking();
    let left = c.left[cur].get() - 1;
    c.left[cur].set(left);
    if left < 0 && !panicking {
        c.left[cur].set(i64::MAX);
        std::panic::panic_any(OverBudget);
    }
    if let Some(mut f) = c.armed[cur].get() {
        if f.kinds & kind.bit() != 0 && !panicking {
            f.nth -= 1;
            if f.nth == 0 {
                c.armed[cur].set(None);
                c.fired[cur].set(Some(kind));
                c.run_cats.set(c.run_cats.get() | k::UNWIND | k::OWN);
                if c.log.get() {
                    eprintln!("  FAULT {} fires ({})", HOOK_NAMES[kind as usize], if f.err { "error" } else { "panic" });
                }
                if f.err {
                    c.fired_err.set(c.fired_err.get() + 1);
                    return true;
                }
                let n = &c.fired_by[kind as usize];
                n.set(n.get() + 1);
                std::panic::panic_any(Injected);
            }
            c.armed[cur].set(Some(f));
        }
    }
    let cd = c.countdown.get();
    if cd > 0 && !panicking {
        c.countdown.set(cd - 1);
        if cd == 1 {
            suspend();
        }
    }
    false
}
pub fn hook(kind: H, tag: u64) {
    hook_e(kind, tag);
}

/// Give control back to the scheduler (no-op outside a simulated client).
pub fn suspend() {
    let c = ctx();
    let cur = c.cur.get();
    let y = c.yielders[cur].get();
    if !y.is_null() {
        c.preemptions.set(c.preemptions.get() + 1);
        unsafe { (*y).suspend(()) };
        c.cur.set(cur);
    }
}

/// `mem::forget`, noted: the run may leak from here on.
pub fn forget<T>(x: T) {
    ctx().forgot.set(true);
    std::mem::forget(x);
}

/// Run `f` without counting steps, firing faults or preempting.
pub fn quietly<R>(f: impl FnOnce() -> R) -> R {
    struct G;
    impl Drop for G {
        fn drop(&mut self) {
            let c = ctx();
            c.quiet.set(c.quiet.get() - 1);
        }
    }
    let c = ctx();
    c.quiet.set(c.quiet.get() + 1);
    let _g = G;
    f()
}

/// A liveness token: one per object in existence.
#[derive(Debug)]
pub struct Token(u32);
impl Token {
    pub fn new() -> Self {
        let c = ctx();
        let mut l = c.live.borrow_mut();
        l.push(true);
        c.live_count.set(c.live_count.get() + 1);
        Token((l.len() - 1) as u32)
    }
    pub fn alive(&self) -> bool {
        ctx().live.borrow().get(self.0 as usize).copied().unwrap_or(false)
    }
}
impl Drop for Token {
    fn drop(&mut self) {
        let c = ctx();
        {
            let mut l = c.live.borrow_mut();
            match l.get_mut(self.0 as usize) {
                Some(x) if *x => *x = false,
                _ => {
                    c.double_drop.set(true);
                    return;
                }
            }
        }
        c.live_count.set(c.live_count.get() - 1);
        hook(H::Drop, self.0 as u64);
    }
}

/// How an attempted library call ended.
pub enum Out<R> {
    Ok(R),
    Injected,
    Budget,
    Panic(String),
}

pub fn attempt<R>(f: impl FnOnce() -> R) -> Out<R> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(r) => Out::Ok(r),
        Err(p) => {
            if p.is::<Injected>() {
                Out::Injected
            } else if p.is::<OverBudget>() {
                Out::Budget
            } else {
                Out::Panic(ctx().panic_msg.borrow().clone())
            }
        }
    }
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        if info.payload().is::<Injected>() || info.payload().is::<OverBudget>() {
            return;
        }
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        };
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        let c = ctx();
        if let Ok(mut m) = c.panic_msg.try_borrow_mut() {
            *m = format!("{msg} at {loc}");
        }
        if c.log.get() || std::env::var_os("SIM_PANICS").is_some() {
            eprintln!("  PANIC {msg} at {loc}");
        }
    }));
}

// ---------------------------------------------------------------- allocator

pub struct CountingAlloc;
pub static ALLOC_BYTES: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
/// Bytes allocated and not yet freed.
pub static ALLOC_LIVE: std::sync::atomic::AtomicI64 = std::sync::atomic::AtomicI64::new(0);
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::Ordering::Relaxed;
unsafe impl GlobalAlloc for CountingAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        ALLOC_BYTES.fetch_add(l.size() as u64, Relaxed);
        ALLOC_LIVE.fetch_add(l.size() as i64, Relaxed);
        unsafe { System.alloc(l) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        ALLOC_LIVE.fetch_sub(l.size() as i64, Relaxed);
        unsafe { System.dealloc(p, l) }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        ALLOC_BYTES.fetch_add(n.saturating_sub(l.size()) as u64, Relaxed);
        ALLOC_LIVE.fetch_add(n as i64 - l.size() as i64, Relaxed);
        unsafe { System.realloc(p, l, n) }
    }
}
