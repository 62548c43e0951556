//! Runs a property's check: splits the seeds over worker processes, collects
//! statistics, minimises a violation into a replay file, writes the evidence.
use crate::combos::{INFO, RUN};
use crate::ctx::*;
use crate::gen;
use crate::rng::{mix, splitmix};
use crate::scenario::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::path::{Path, PathBuf};
use std::process::Command;
use std::sync::atomic::{AtomicPtr, AtomicU64, Ordering::*};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub struct Check {
    pub id: &'static str,
    /// kinds of violation that break this property
    pub mask: u32,
    pub quick: u64,
    pub thorough: u64,
    /// what a run must have exercised to count as non-trivial
    pub rule: &'static str,
}
macro_rules! ck {
    ($id:literal, $mask:expr, $q:literal, $t:literal, $rule:literal) => {
        Check { id: $id, mask: $mask, quick: $q, thorough: $t, rule: $rule }
    };
}
pub const CHECKS: &[Check] = &[
    ck!("C01", k::CONTENT, 300_000, 12_000_000, "at least one update ran on a non-empty tree"),
    ck!("C02", k::DRAIN, 300_000, 12_000_000, "at least one drain ran on a non-empty tree"),
    ck!("C03", k::LEAK, 300_000, 12_000_000, "at least one drain iterator over a non-empty tree was leaked"),
    ck!("C04", k::UNWIND, 300_000, 12_000_000, "at least one armed fault fired inside a callback"),
    ck!("C05", k::QUERY | k::SHARE, 300_000, 12_000_000, "at least one region, point, distance or selection query ran on a non-empty tree"),
    ck!("C06", k::NN, 300_000, 12_000_000, "at least one nearest-neighbour query ran on a non-empty tree"),
    ck!("C07", k::JOIN, 200_000, 8_000_000, "at least one join ran on a non-empty tree"),
    ck!("C08", k::MUT, 300_000, 12_000_000, "at least one mutable traversal ran on a non-empty tree"),
    ck!("C09", k::STRUCT, 300_000, 12_000_000, "at least one update ran on a non-empty tree"),
    ck!("C10", k::REMOVE, 300_000, 12_000_000, "at least one removal ran on a non-empty tree"),
    ck!("C11", k::SNAP, 200_000, 8_000_000, "at least one snapshot was written or read"),
    ck!("C12", k::DAMAGE, 300_000, 12_000_000, "at least one damaged file was decoded"),
    ck!("C13", k::REPLICA, 250_000, 12_000_000, "a replicated history ran"),
    ck!("C14", k::CLONE, 300_000, 12_000_000, "at least one non-empty tree was cloned"),
    ck!("C15", k::OWN, 300_000, 12_000_000, "at least one fault fired or a tree was consumed or taken"),
    ck!("C16", k::PROGRESS, 300_000, 12_000_000, "at least one operation ran on a non-empty tree"),
    ck!("C17", k::VISIT, 300_000, 12_000_000, "at least one internal iteration ran on a non-empty tree"),
    ck!("C21", k::COST, 4_000, 1_000_000, "a tree of hundreds of objects was left to measure"),
];
pub fn check(id: &str) -> &'static Check {
    CHECKS.iter().find(|c| c.id == id).unwrap_or_else(|| {
        eprintln!("unknown property {id}");
        std::process::exit(2)
    })
}

// ------------------------------------------------------------ one run

/// Shared with the parent process: current run and what it is doing.
static PROGRESS: AtomicPtr<u64> = AtomicPtr::new(std::ptr::null_mut());
static LOCAL_CATS: AtomicU64 = AtomicU64::new(0);
pub fn note(cats: u32) {
    LOCAL_CATS.store(cats as u64, Relaxed);
    let p = PROGRESS.load(Relaxed);
    if !p.is_null() {
        unsafe { p.add(1).write_volatile(cats as u64) };
    }
}

/// Run a scenario. Memory still allocated when everything the run made is gone
/// has leaked: such a run is repeated twice (what the simulator itself keeps
/// between runs is in place by then), and must come out even.
pub fn run_scenario(sc: &Scenario) -> Option<Viol> {
    for again in 0..3 {
        let before = crate::ctx::ALLOC_LIVE.load(Relaxed);
        if let Some(v) = run_once(sc) {
            return Some(v);
        }
        let leaked = crate::ctx::ALLOC_LIVE.load(Relaxed) - before;
        if leaked <= 0 || ctx().forgot.get() {
            break;
        }
        if again == 2 {
            crate::ctx::violate(
                k::OWN,
                format!("{leaked} bytes of memory were still allocated after everything had been dropped"),
            );
            return ctx().viol.borrow().clone();
        }
    }
    None
}

fn run_once(sc: &Scenario) -> Option<Viol> {
    let c = ctx();
    c.reset();
    c.exact.set(sc.exact);
    c.exp.set(sc.exp as i32);
    c.off.set(sc.off);
    note(k::PROGRESS | k::CONTENT | k::STRUCT);
    if sc.cluster.is_some() {
        crate::replica::run(sc);
    } else {
        RUN[sc.combo as usize % RUN.len()](sc);
    }
    c.quiet.set(1);
    c.armed.iter().for_each(|a| a.set(None));
    c.left.iter().for_each(|a| a.set(i64::MAX));
    let v = c.viol.borrow().clone();
    v
}

fn seed_of(base: u64, idx: u64) -> u64 {
    let mut x = base.wrapping_mul(0x9E37_79B9_97F4_A7C1) ^ idx.wrapping_mul(0xD1B5_4A32_D192_ED03);
    splitmix(&mut x)
}

// ------------------------------------------------------------ worker

#[derive(Default, Serialize, Deserialize)]
struct Stats {
    runs: u64,
    steps: u64,
    nontrivial: u64,
    ops: BTreeMap<String, u64>,
    callbacks: BTreeMap<String, u64>,
    panics: BTreeMap<String, u64>,
    errors: u64,
    probes: BTreeMap<String, u64>,
    combos: BTreeMap<String, u64>,
    preemptions: u64,
    foreign: BTreeMap<String, u64>,
    foreign_msg: Option<String>,
    found: Option<(u64, Viol)>,
}
impl Stats {
    fn add(&mut self, o: Stats) {
        fn m(a: &mut BTreeMap<String, u64>, b: BTreeMap<String, u64>) {
            for (k, v) in b {
                *a.entry(k).or_insert(0) += v;
            }
        }
        self.runs += o.runs;
        self.steps += o.steps;
        self.nontrivial += o.nontrivial;
        self.errors += o.errors;
        self.preemptions += o.preemptions;
        m(&mut self.ops, o.ops);
        m(&mut self.callbacks, o.callbacks);
        m(&mut self.panics, o.panics);
        m(&mut self.probes, o.probes);
        m(&mut self.combos, o.combos);
        m(&mut self.foreign, o.foreign);
        if self.foreign_msg.is_none() {
            self.foreign_msg = o.foreign_msg;
        }
        if let Some(f) = o.found {
            if self.found.as_ref().is_none_or(|g| f.0 < g.0) {
                self.found = Some(f);
            }
        }
    }
}

fn cpu_limit(secs: i64) {
    // a run that spins without calling back into the simulator is killed
    let t = libc::itimerval {
        it_interval: libc::timeval { tv_sec: 0, tv_usec: 0 },
        it_value: libc::timeval { tv_sec: secs, tv_usec: 0 },
    };
    unsafe { libc::setitimer(libc::ITIMER_PROF, &t, std::ptr::null_mut()) };
}
fn mem_limit() {
    let r = libc::rlimit { rlim_cur: 6 << 30, rlim_max: 6 << 30 };
    unsafe { libc::setrlimit(libc::RLIMIT_AS, &r) };
    let r = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
    unsafe { libc::setrlimit(libc::RLIMIT_CORE, &r) };
}
const CPU_PER_RUN: i64 = 20;

fn worker(a: &[String]) -> i32 {
    let (prop, base, start, count, out) = (
        &a[0],
        a[1].parse::<u64>().unwrap(),
        a[2].parse::<u64>().unwrap(),
        a[3].parse::<u64>().unwrap(),
        PathBuf::from(&a[4]),
    );
    mem_limit();
    let ck = check(prop);
    unsafe {
        let path = std::ffi::CString::new(out.with_extension("prog").to_str().unwrap()).unwrap();
        let fd = libc::open(path.as_ptr(), libc::O_RDWR | libc::O_CREAT, 0o600);
        if fd >= 0 && libc::ftruncate(fd, 16) == 0 {
            let p = libc::mmap(
                std::ptr::null_mut(),
                16,
                libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_SHARED,
                fd,
                0,
            );
            if p != libc::MAP_FAILED {
                PROGRESS.store(p as *mut u64, Relaxed);
            }
        }
    }
    let c = ctx();
    let mut st = Stats::default();
    let mut hashes: Vec<u8> = Vec::new();
    let mut states: HashSet<u64> = HashSet::new();
    let mut combos = vec![0u64; INFO.len()];
    for idx in start..start + count {
        let p = PROGRESS.load(Relaxed);
        if !p.is_null() {
            unsafe { p.write_volatile(idx) };
        }
        cpu_limit(CPU_PER_RUN);
        let sc = gen::scenario(prop, seed_of(base, idx));
        let v = run_scenario(&sc);
        st.runs += 1;
        st.steps += c.steps.get();
        if sc.cluster.is_none() {
            combos[sc.combo as usize] += 1;
        }
        let mut h = c.hash.get();
        for s in c.states.borrow().iter() {
            h = mix(h, *s);
            states.insert(*s);
        }
        let nontrivial = c.run_cats.get() & (ck.mask | if prop == "C12" { k::DAMAGE } else { 0 }) != 0;
        st.nontrivial += nontrivial as u64;
        hashes.extend_from_slice(&h.to_le_bytes());
        hashes.push(nontrivial as u8);
        if let Some(v) = v {
            if v.kinds & ck.mask != 0 {
                st.found = Some((idx, v));
                break;
            }
            *st.foreign.entry(kinds_name(v.kinds)).or_insert(0) += 1;
            if st.foreign_msg.is_none() {
                st.foreign_msg = Some(format!("run {idx}: {}", v.msg));
            }
        }
    }
    cpu_limit(0);
    st.ops = c.ops.borrow().iter().map(|(k, v)| (k.to_string(), *v)).collect();
    for (i, n) in HOOK_NAMES.iter().enumerate() {
        st.callbacks.insert(n.to_string(), c.counts[i].get());
        st.panics.insert(n.to_string(), c.fired_by[i].get());
    }
    st.errors = c.fired_err.get();
    st.preemptions = c.preemptions.get();
    st.probes = c.probes.borrow().iter().map(|(k, v)| (k.to_string(), *v)).collect();
    for (i, n) in combos.iter().enumerate() {
        if *n > 0 {
            st.combos.insert(INFO[i].name.to_string(), *n);
        }
    }
    let mut sb = Vec::new();
    for s in states {
        sb.extend_from_slice(&s.to_le_bytes());
    }
    let ok = std::fs::write(out.with_extension("hash"), hashes).is_ok()
        && std::fs::write(out.with_extension("states"), sb).is_ok()
        && std::fs::write(out.with_extension("json"), serde_json::to_vec(&st).unwrap()).is_ok();
    if ok {
        0
    } else {
        3
    }
}

pub fn kinds_name(kinds: u32) -> String {
    const N: [&str; 19] = [
        "content", "query", "nearest", "join", "mutable", "visitor", "structure", "removal",
        "snapshot", "damage", "replica", "clone", "ownership", "progress", "drain", "leak",
        "unwind", "share", "cost",
    ];
    let v: Vec<&str> = (0..19).filter(|i| kinds & (1 << i) != 0).map(|i| N[i]).collect();
    v.join("+")
}

// ------------------------------------------------------------ parent

struct ShareProbe<T>(std::marker::PhantomData<T>);
#[allow(dead_code)]
trait NotShareable {
    const OK: bool = false;
}
impl<T> NotShareable for ShareProbe<T> {}
#[allow(dead_code)]
impl<T: Send + Sync> ShareProbe<T> {
    const OK: bool = true;
}
fn shareable() -> bool {
    <ShareProbe<rstar::RTree<[f64; 2]>>>::OK
        && <ShareProbe<rstar::RTree<rstar::primitives::Line<[f64; 2]>>>>::OK
        && <ShareProbe<rstar::RTree<rstar::primitives::CachedEnvelope<[i32; 2]>>>>::OK
}

#[derive(Serialize, Deserialize)]
pub struct Replay {
    pub property: String,
    pub kinds: u32,
    pub what: String,
    pub message: String,
    /// aborted / hung rather than reported a violation
    pub crash: bool,
    pub base_seed: u64,
    pub run: u64,
    pub steps: u64,
    pub trace_hash: u64,
    pub original_size: usize,
    pub minimise_attempts: u64,
    pub scenario: Scenario,
}

struct Shared {
    stats: Stats,
    hashes: HashSet<u64>,
    states: HashSet<u64>,
    next: u64,
    stop: bool,
    crash: Option<(u64, u64)>, // run, cats
    first: Vec<(u64, Vec<u8>)>,
}

fn exe() -> PathBuf {
    std::env::current_exe().expect("own path")
}

fn work(ck: &Check, base: u64, dir: &Path, id: usize, chunk: u64, total: u64, deadline: Instant, sh: &Mutex<Shared>) {
    loop {
        let (mut start, end) = {
            let mut s = sh.lock().unwrap();
            if s.stop || s.next >= total || Instant::now() > deadline {
                return;
            }
            let a = s.next;
            s.next = (a + chunk).min(total);
            (a, s.next)
        };
        while start < end {
            let out = dir.join(format!("w{id}"));
            for e in ["json", "hash", "states", "prog"] {
                let _ = std::fs::remove_file(out.with_extension(e));
            }
            let r = Command::new(exe())
                .arg("worker")
                .arg(ck.id)
                .arg(base.to_string())
                .arg(start.to_string())
                .arg((end - start).to_string())
                .arg(&out)
                .output();
            let ok = matches!(&r, Ok(o) if o.status.code() == Some(0));
            if ok {
                let st: Stats = std::fs::read(out.with_extension("json"))
                    .ok()
                    .and_then(|b| serde_json::from_slice(&b).ok())
                    .unwrap_or_default();
                let hb = std::fs::read(out.with_extension("hash")).unwrap_or_default();
                let sb = std::fs::read(out.with_extension("states")).unwrap_or_default();
                let mut s = sh.lock().unwrap();
                for x in hb.chunks_exact(9) {
                    if x[8] == 1 {
                        s.hashes.insert(u64::from_le_bytes(x[..8].try_into().unwrap()));
                    }
                }
                for x in sb.chunks_exact(8) {
                    s.states.insert(u64::from_le_bytes(x.try_into().unwrap()));
                }
                if start < 2 * chunk {
                    s.first.push((start, hb));
                }
                if st.found.is_some() {
                    s.stop = true;
                }
                s.stats.add(st);
                start = end;
            } else {
                let pb = std::fs::read(out.with_extension("prog")).unwrap_or_default();
                if pb.len() < 16 {
                    eprintln!("worker failed to start: {r:?}");
                    std::process::exit(2);
                }
                let run = u64::from_le_bytes(pb[..8].try_into().unwrap());
                let cats = u64::from_le_bytes(pb[8..16].try_into().unwrap());
                let mut s = sh.lock().unwrap();
                if cats as u32 & ck.mask != 0 {
                    s.stop = true;
                    if s.crash.is_none_or(|c| run < c.0) {
                        s.crash = Some((run, cats));
                    }
                    return;
                }
                *s.stats.foreign.entry("crash".into()).or_insert(0) += 1;
                if s.stats.foreign_msg.is_none() {
                    s.stats.foreign_msg = Some(format!("run {run} aborted or hung"));
                }
                start = run + 1;
            }
        }
    }
}

fn run_check(id: &str, tier: &str) -> i32 {
    let t0 = Instant::now();
    let ck = check(id);
    let base: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1);
    let thorough = tier == "thorough";
    let mut total = if thorough { ck.thorough } else { ck.quick };
    if let Some(n) = std::env::var("SIM_RUNS").ok().and_then(|s| s.parse().ok()) {
        total = n;
    }
    let cap = std::env::var("SIM_SECS").ok().and_then(|s| s.parse().ok()).unwrap_or(if thorough { 3600 } else { 300 });
    let deadline = t0 + Duration::from_secs(cap);
    let workers: usize = std::env::var("SIM_WORKERS")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or_else(|| std::thread::available_parallelism().map_or(4, |n| n.get()).min(8));
    let root = PathBuf::from(std::env::var("VERIF_ROOT").unwrap_or_else(|_| ".".into()));
    let dir = std::env::temp_dir().join(format!("rstar-sim-{}-{}", id, std::process::id()));
    std::fs::create_dir_all(&dir).expect("scratch directory");
    let chunk = (total / (workers as u64 * 3)).clamp(50, 1500);
    let sh = Mutex::new(Shared {
        stats: Stats::default(),
        hashes: HashSet::new(),
        states: HashSet::new(),
        next: 0,
        stop: false,
        crash: None,
        first: vec![],
    });
    let mut static_viol = None;
    if ck.mask & k::SHARE != 0 && !shareable() {
        static_viol = Some("RTree is not Send + Sync although its objects are");
    }
    if static_viol.is_none() {
        std::thread::scope(|s| {
            for w in 0..workers {
                let (sh, dir) = (&sh, &dir);
                s.spawn(move || work(ck, base, dir, w, chunk, total, deadline, sh));
            }
        });
    }
    let search = t0.elapsed().as_secs_f64();
    let sh = sh.into_inner().unwrap();

    // ---- the same seeds again, in another process with other neighbours
    let mut det = (0u64, 0u64);
    if static_viol.is_none() && sh.crash.is_none() && sh.stats.found.is_none() && sh.stats.foreign.is_empty() {
        let n = 300.min(sh.stats.runs.saturating_sub(7));
        let out = dir.join("det");
        let r = Command::new(exe())
            .arg("worker")
            .arg(id)
            .arg(base.to_string())
            .arg("7")
            .arg(n.to_string())
            .arg(&out)
            .output();
        if matches!(&r, Ok(o) if o.status.code() == Some(0)) {
            let hb = std::fs::read(out.with_extension("hash")).unwrap_or_default();
            let mut all: BTreeMap<u64, [u8; 9]> = BTreeMap::new();
            for (start, b) in &sh.first {
                for (i, x) in b.chunks_exact(9).enumerate() {
                    all.insert(start + i as u64, x.try_into().unwrap());
                }
            }
            for (i, x) in hb.chunks_exact(9).enumerate() {
                if let Some(y) = all.get(&(7 + i as u64)) {
                    det.0 += 1;
                    det.1 += (x != y) as u64;
                }
            }
        }
    }

    // ---- violation
    let mut found: Option<(u64, Viol, bool)> = sh.stats.found.clone().map(|(i, v)| (i, v, false));
    if let Some((run, cats)) = sh.crash {
        if found.as_ref().is_none_or(|f| run < f.0) {
            let v = Viol {
                kinds: cats as u32,
                msg: "the process aborted, overflowed its stack, or did not finish".into(),
                client: 0,
                op: 0,
                step: 0,
            };
            found = Some((run, v, true));
        }
    }
    let mut code = 0;
    let mut viol_json = Value::Null;
    if let Some(msg) = static_viol {
        let path = replay_path(&root, id, base, "static");
        let _ = std::fs::write(&path, json!({"property": id, "message": msg}).to_string());
        println!("{msg}");
        println!("VIOLATION property={id} replay={}", path.display());
        viol_json = json!({"message": msg});
        code = 1;
    } else if let Some((run, v, crash)) = &found {
        let sc = gen::scenario(id, seed_of(base, *run));
        let mut rp = Replay {
            property: id.into(),
            kinds: v.kinds & ck.mask,
            what: kinds_name(v.kinds & ck.mask),
            message: v.msg.clone(),
            crash: *crash,
            base_seed: base,
            run: *run,
            steps: 0,
            trace_hash: 0,
            original_size: serde_json::to_vec(&sc).unwrap().len(),
            minimise_attempts: 0,
            scenario: sc,
        };
        let path = replay_path(&root, id, base, &run.to_string());
        let _ = std::fs::write(&path, serde_json::to_vec_pretty(&rp).unwrap());
        let min = dir.join("min.json");
        let r = Command::new(exe()).arg("minimise").arg(&path).arg(&min).output();
        if matches!(&r, Ok(o) if o.status.code() == Some(0)) {
            if let Some(m) = std::fs::read(&min).ok().and_then(|b| serde_json::from_slice::<Replay>(&b).ok()) {
                rp = m;
                let _ = std::fs::write(&path, serde_json::to_vec_pretty(&rp).unwrap());
            }
        }
        println!("run {run}: {}", v.msg);
        println!("minimised: {}", rp.message);
        println!("VIOLATION property={id} replay={}", path.display());
        viol_json = json!({"run": run, "message": rp.message, "replay": path.display().to_string()});
        code = 1;
    }
    evidence(&root, ck, tier, base, total, &sh, search, t0, det, viol_json, &found);
    let _ = std::fs::remove_dir_all(&dir);
    if code == 0 {
        println!(
            "{id}: {} runs ({} distinct non-trivial), {} steps, {:.1} s: no violation{}",
            sh.stats.runs,
            sh.hashes.len(),
            sh.stats.steps,
            t0.elapsed().as_secs_f64(),
            if sh.stats.runs < total { " (stopped at the time limit)" } else { "" }
        );
        if !sh.stats.foreign.is_empty() {
            println!("note: other properties' violations seen: {:?} e.g. {:?}", sh.stats.foreign, sh.stats.foreign_msg);
        }
        if det.1 > 0 {
            println!("note: {} of {} repeated runs differed", det.1, det.0);
        }
    }
    code
}

fn replay_path(root: &Path, id: &str, base: u64, run: &str) -> PathBuf {
    let d = root.join("replays");
    let _ = std::fs::create_dir_all(&d);
    d.join(format!("{id}-seed{base}-run{run}.json"))
}

#[allow(clippy::too_many_arguments)]
fn evidence(
    root: &Path,
    ck: &Check,
    tier: &str,
    base: u64,
    total: u64,
    sh: &Shared,
    search: f64,
    t0: Instant,
    det: (u64, u64),
    viol: Value,
    found: &Option<(u64, Viol, bool)>,
) {
    let st = &sh.stats;
    let mut faults: BTreeMap<String, u64> = BTreeMap::new();
    for (k, v) in &st.panics {
        if *v > 0 {
            faults.insert(format!("panic in {k}"), *v);
        }
    }
    if st.errors > 0 {
        faults.insert("error returned by an element's serialize/deserialize".into(), st.errors);
    }
    let mut probes = BTreeMap::new();
    for (k, v) in &st.probes {
        match k.strip_prefix("fault:") {
            Some(f) => {
                faults.insert(f.to_string(), *v);
            }
            None => {
                probes.insert(k.clone(), *v);
            }
        }
    }
    let cluster = ck.id == "C13";
    let samples: Vec<Value> = (0..3)
        .map(|i| {
            let idx = i * (st.runs.max(1) / 3).max(1);
            let s = seed_of(base, idx);
            let sc = gen::scenario(ck.id, s);
            let mut text = serde_json::to_string(&sc).unwrap();
            if text.len() > 6000 {
                let mut n = 6000;
                while !text.is_char_boundary(n) {
                    n -= 1;
                }
                text.truncate(n);
                text.push_str("...");
            }
            json!({"run": idx, "seed": s, "scenario": text})
        })
        .collect();
    let hours = (search / 3600.0).max(1e-9);
    let ev = json!({
        "property": ck.id,
        "tier": if tier == "thorough" { "thorough" } else { "quick" },
        "seed": base,
        "level": "exploration",
        "coverage": {
            "evaluations": st.runs,
            "distinct_nontrivial": sh.hashes.len(),
            "rule": format!("One evaluation is one simulated run of a scenario generated from (VERIF_SEED, run number): trees of one of the instantiations below, 1 to 4 client programs, armed faults and a schedule. Non-trivial: {}. Distinct: different hash over the run's complete trace of simulated steps (client, callback kind, object, poll) and of the tree shapes reached.", ck.rule),
            "samples": samples,
            "planned_runs": total,
            "nontrivial_runs": st.nontrivial,
            "runs_per_hour": (st.runs as f64 / hours) as u64,
            "seeds_per_hour": (st.runs as f64 / hours) as u64,
            "simulated_steps": st.steps,
            "simulated_time": if cluster {
                format!("{} network ticks and {} callback steps", st.probes.get("simulated ticks").copied().unwrap_or(0), st.steps)
            } else {
                format!("{} callback steps (the system has no clock; a step is one call across the seam)", st.steps)
            },
            "faults_injected": faults,
            "preemptions_inside_operations": st.preemptions,
            "context_switches": st.probes.get("context switches").copied().unwrap_or(0),
            "distinct_tree_states": sh.states.len(),
            "state_measure": "hash of (tree shape: per-node depth and fill, number of objects) after each checked step",
            "operations": st.ops,
            "callbacks": st.callbacks,
            "situations": probes,
            "instantiations": if cluster { json!(crate::replica::NAMES) } else { json!(st.combos) },
            "real_components": ["rstar: RTree and all iterators, insertion, removal, bulk loading, serde implementations, AABB, primitives, built from /repo's working tree", "serde_json, bincode, ciborium codecs"],
            "stubbed_components": if cluster {
                json!(["clients, sequencer, network, clock and disk of the replicated service", "stored objects' callbacks (instrumented)"])
            } else {
                json!(["client threads (coroutines under the seeded scheduler)", "files (in memory, with faults)", "stored objects' callbacks (instrumented)"])
            },
            "repeated_runs": det.0,
            "repeated_runs_that_differed": det.1,
            "violations_of_other_properties_seen": st.foreign,
            "example_of_other": st.foreign_msg,
            "violation": viol,
        },
        "assumptions": [
            "coordinates are finite and small enough not to overflow the scalar type",
            "objects' envelopes do not change while stored; envelope() and distance functions are consistent",
            "searched, not enumerated: absence of a violation covers the runs above only",
        ],
        "wall_s": t0.elapsed().as_secs_f64(),
        "violations": found.is_some() as u64 + 0,
    });
    let p = root.join("evidence");
    let _ = std::fs::create_dir_all(&p);
    if let Err(e) = std::fs::write(p.join(format!("{}.json", ck.id)), serde_json::to_vec_pretty(&ev).unwrap()) {
        eprintln!("cannot write evidence: {e}");
        std::process::exit(2);
    }
}

// ------------------------------------------------------------ replay, minimise

/// Run a scenario in a child process; does it abort or hang?
fn crashes(sc: &Scenario, tmp: &Path) -> bool {
    if std::fs::write(tmp, serde_json::to_vec(sc).unwrap()).is_err() {
        return false;
    }
    match Command::new(exe()).arg("one").arg(tmp).output() {
        Ok(o) => !matches!(o.status.code(), Some(0) | Some(1)),
        Err(_) => false,
    }
}

fn minimise(a: &[String]) -> i32 {
    let mut rp: Replay = serde_json::from_slice(&std::fs::read(&a[0]).unwrap()).unwrap();
    let kinds = rp.kinds;
    let out = PathBuf::from(&a[1]);
    let (best, tries) = if rp.crash {
        let tmp = out.with_extension("try");
        let mut f = |sc: &Scenario| crashes(sc, &tmp);
        let mut m = crate::minimise::Min::new(rp.scenario.clone(), Duration::from_secs(25), &mut f);
        m.run();
        (m.best, m.tries)
    } else {
        mem_limit();
        cpu_limit(60);
        let mut f = |sc: &Scenario| matches!(run_scenario(sc), Some(v) if v.kinds & kinds != 0);
        let mut m = crate::minimise::Min::new(rp.scenario.clone(), Duration::from_secs(20), &mut f);
        m.run();
        (m.best, m.tries)
    };
    rp.scenario = best;
    rp.minimise_attempts = tries;
    if !rp.crash {
        match run_scenario(&rp.scenario) {
            Some(v) if v.kinds & kinds != 0 => {
                rp.message = v.msg;
                rp.steps = ctx().steps.get();
                rp.trace_hash = ctx().hash.get();
            }
            _ => return 4,
        }
    }
    if std::fs::write(&out, serde_json::to_vec_pretty(&rp).unwrap()).is_ok() {
        0
    } else {
        3
    }
}

fn replay(path: &str, log: bool) -> i32 {
    let rp: Replay = match std::fs::read(path).map_err(|e| e.to_string()).and_then(|b| serde_json::from_slice(&b).map_err(|e| e.to_string())) {
        Ok(r) => r,
        Err(e) => {
            eprintln!("{path}: {e}");
            return 2;
        }
    };
    if rp.crash {
        let dir = std::env::temp_dir().join(format!("rstar-replay-{}", std::process::id()));
        let bad = crashes(&rp.scenario, &dir);
        let _ = std::fs::remove_file(&dir);
        if bad {
            println!("reproduced: {}", rp.message);
            println!("VIOLATION property={} replay={path}", rp.property);
            return 1;
        }
        println!("not reproduced");
        return 0;
    }
    mem_limit();
    cpu_limit(120);
    ctx().log.set(log);
    match run_scenario(&rp.scenario) {
        Some(v) if v.kinds & rp.kinds != 0 => {
            let same = ctx().hash.get() == rp.trace_hash && ctx().steps.get() == rp.steps && v.msg == rp.message;
            println!("client {} operation {} step {}: {}", v.client, v.op, v.step, v.msg);
            println!("trace {} the recorded one", if same { "identical to" } else { "differs from" });
            println!("VIOLATION property={} replay={path}", rp.property);
            1
        }
        Some(v) => {
            println!("another violation ({}): {}", kinds_name(v.kinds), v.msg);
            0
        }
        None => {
            println!("no violation");
            0
        }
    }
}

pub fn main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    let code = match a.first().map(|s| s.as_str()) {
        Some("run") if a.len() == 3 => run_check(&a[1], &a[2]),
        Some("worker") if a.len() == 6 => worker(&a[1..]),
        Some("minimise") if a.len() == 3 => minimise(&a[1..]),
        Some("replay") if a.len() >= 2 => replay(&a[1], a.iter().any(|x| x == "--log")),
        Some("one") if a.len() == 2 => {
            mem_limit();
            cpu_limit(CPU_PER_RUN);
            let sc: Scenario = serde_json::from_slice(&std::fs::read(&a[1]).unwrap()).unwrap();
            run_scenario(&sc).is_some() as i32
        }
        Some("show") if a.len() == 4 => {
            let sc = gen::scenario(&a[1], seed_of(a[2].parse().unwrap(), a[3].parse().unwrap()));
            println!("{}", serde_json::to_string_pretty(&sc).unwrap());
            0
        }
        Some("log") if a.len() == 4 => {
            let sc = gen::scenario(&a[1], seed_of(a[2].parse().unwrap(), a[3].parse().unwrap()));
            ctx().log.set(true);
            println!("{:?}", run_scenario(&sc));
            0
        }
        _ => {
            eprintln!("usage: rstar-sim run PROPERTY quick|thorough | replay FILE [--log]");
            2
        }
    };
    std::process::exit(code)
}
