//! A small replicated service around the library (property C13): a sequencer
//! with a durable command log, an unreliable network, and replicas that each
//! hold the same objects in a differently configured real `RTree`, crash at
//! arbitrary callbacks, restart from their last durable snapshot and catch up
//! by log replay or by state transfer. Sequencer, network, clock and disk are
//! simulated; the trees are real.
use crate::combos::*;
use crate::ctx::*;
use crate::disk::*;
use crate::exec::*;
use crate::gen::{far, Space};
use crate::geom::*;
use crate::item::*;
use crate::rng::{mix, Rng};
use crate::scenario::*;
use rstar::primitives::*;
use rstar::*;
use serde::{Deserialize, Serialize};
use std::cmp::Reverse;
use std::collections::BinaryHeap;
use std::rc::Rc;
use std::sync::Arc;

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Cmd {
    Insert(Vec<Spec>),
    Remove(Target),
    Drain(Q),
    Edit(Q),
    Reset(Vec<Spec>),
    Ask(Q),
}

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub struct Crash {
    pub tick: u32,
    pub rep: u8,
    pub down: u8,
    /// crash at the nth callback of the next command instead of between events
    pub inside: Option<FaultSpec>,
}
#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub struct Cut {
    pub from: u32,
    pub to: u32,
    pub rep: u8,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Cluster {
    /// dimensions
    #[serde(default = "two")]
    pub d: usize,
    /// which configuration each replica runs
    pub reps: Vec<u8>,
    /// how each replica builds a tree from a list: bulk or one by one
    pub bulk: Vec<bool>,
    pub init: Vec<Spec>,
    /// (ticks since the previous command, command)
    pub cmds: Vec<(u8, Cmd)>,
    /// per message sent: (delay, 0 deliver / 1 lose / 2 duplicate)
    pub net: Vec<(u8, u8)>,
    pub crashes: Vec<Crash>,
    pub cuts: Vec<Cut>,
    /// commands between snapshots
    pub snap: u8,
    pub codec: Codec,
    /// a replica further behind than this gets a state transfer
    pub compact: u8,
}

fn two() -> usize {
    2
}

/// A command with every coordinate resolved, as stored in the log.
enum Log {
    Insert(Vec<El>),
    Remove(u32, Geom),
    Drain(Q, RQ),
    Edit(Q, RQ, u32),
    Reset(Vec<El>),
    Ask(Q, RQ),
}

type Answer = (Vec<u64>, Vec<i64>);

trait Rep {
    fn build(&mut self, els: &[El], bulk: bool);
    fn clear(&mut self);
    fn insert(&mut self, e: &El);
    fn remove(&mut self, key: u32, g: &Geom) -> Option<u64>;
    fn drain(&mut self, q: &Q, rq: &RQ) -> Vec<u64>;
    fn edit(&mut self, q: &Q, rq: &RQ, v: u32) -> Vec<u64>;
    fn ask(&mut self, q: &Q, rq: &RQ) -> Answer;
    fn save(&self, c: Codec) -> Result<Vec<u8>, String>;
    fn restore(&mut self, c: Codec, b: &[u8]) -> Result<(), String>;
    fn dump(&self) -> Vec<(u64, u32, u32)>;
    fn check(&self, m: &[El]) -> Result<u64, String>;
    fn env(&self) -> Env;
}

struct Node<T: Item, Pr: RTreeParams> {
    t: RTree<T, Pr>,
    env: Env,
    /// MIN_SIZE / MAX_SIZE are only promised to trees grown by insertion
    grown: bool,
    shrunk: bool,
}

impl<T: Item, Pr: RTreeParams + 'static> Rep for Node<T, Pr> {
    fn build(&mut self, els: &[El], bulk: bool) {
        let objs: Vec<T> = els.iter().map(make).collect();
        self.grown = !bulk;
        self.shrunk = false;
        if bulk {
            self.t = RTree::bulk_load_with_params(objs);
        } else {
            self.t = RTree::new_with_params();
            for x in objs {
                self.t.insert(x);
            }
        }
    }
    fn clear(&mut self) {
        self.t = RTree::new_with_params();
        self.grown = true;
        self.shrunk = false;
    }
    fn insert(&mut self, e: &El) {
        let x = make(e);
        self.t.insert(x);
    }
    fn remove(&mut self, key: u32, g: &Geom) -> Option<u64> {
        self.shrunk = true;
        let x: T = quietly(|| T::make(Meta::new(u64::MAX, key, 0), &canon(*g, T::KINDS)));
        let r = self.t.remove(&x).map(|y| y.meta().id);
        quietly(|| drop(x));
        r
    }
    fn drain(&mut self, q: &Q, rq: &RQ) -> Vec<u64> {
        self.shrunk = true;
        open_drain(&mut self.t, q, rq).map(|x| x.meta().id).collect()
    }
    fn edit(&mut self, q: &Q, rq: &RQ, v: u32) -> Vec<u64> {
        open_mut(&mut self.t, q, rq)
            .map(|x| {
                x.set_pay(v);
                x.meta().id
            })
            .collect()
    }
    fn ask(&mut self, q: &Q, rq: &RQ) -> Answer {
        let (mut ids, mut ds) = (Vec::new(), Vec::new());
        let u = self.env.unit * self.env.unit;
        for (x, d) in open(&self.t, q, rq) {
            ids.push(x.meta().id);
            if let Some(d) = d {
                ds.push((d / u) as i64);
            }
        }
        ids.sort_unstable();
        (ids, ds)
    }
    fn save(&self, c: Codec) -> Result<Vec<u8>, String> {
        encode(&self.t, c)
    }
    fn restore(&mut self, c: Codec, b: &[u8]) -> Result<(), String> {
        self.t = decode(c, b)?;
        self.grown = false;
        self.shrunk = true;
        Ok(())
    }
    fn dump(&self) -> Vec<(u64, u32, u32)> {
        self.t.iter().map(|x| (x.meta().id, x.meta().key, x.meta().pay())).collect()
    }
    fn check(&self, m: &[El]) -> Result<u64, String> {
        content(&self.env, &self.t, m)?;
        let s = structure(&self.t, self.grown, self.grown && !self.shrunk)?;
        Ok(s.hash)
    }
    fn env(&self) -> Env {
        self.env
    }
}

fn node<T: Item, Pr: RTreeParams + 'static>(range: i16) -> Box<dyn Rep> {
    Box::new(Node::<T, Pr> {
        t: RTree::new_with_params(),
        env: Env::of::<T::P>(range),
        grown: true,
        shrunk: false,
    })
}

pub const NAMES: &[&str] = &[
    "Obj<[f64;2]> default",
    "Obj<[i32;2]> 2..4",
    "CachedEnvelope<Obj<[i64;2]>> 3..6",
    "Arc<Obj<(f64,f64)>> 10..20",
    "Plain<::mint::Point2<f64>> 1..10",
    "Obj<[i64;2]> 16..32",
    "GeomWithData<Rectangle<[f64;2]>> default",
    "PointWithData<[i16;2]> 2..4",
    "GeomWithData<CachedEnvelope<Obj<(i32,i32)>>> 3..5",
    "Rc<Obj<mint::Point2<f32>>> 2..6",
    "GeomWithData<[f32;2]> 2..5",
    "Obj<[f64;3]> 4..8",
    "Rc<Obj<mint::Point3<f32>>> 2..6",
    "CachedEnvelope<Obj<(i64,i64,i64)>> default",
    "Plain<[f64;3]> 8..15",
    "GeomWithData<[f32;3]> 1..4",
    "GeomWithData<Rectangle<[i64;3]>> 3..5",
    "[i32;2] in user-defined envelopes, 4..7",
    "user-defined points of 3 f64 in user-defined envelopes, 2..5",
];
fn new_rep(k: u8, range: i16) -> Box<dyn Rep> {
    match k {
        0 => node::<Obj<[f64; 2]>, DefaultParams>(range),
        1 => node::<Obj<[i32; 2]>, Pm<2, 4, 1>>(range),
        2 => node::<CachedEnvelope<Obj<[i64; 2]>>, Pm<3, 6, 1>>(range),
        3 => node::<Arc<Obj<(f64, f64)>>, Pm<10, 20, 5>>(range),
        4 => node::<Plain<::mint::Point2<f64>>, Pm<1, 10, 8>>(range),
        5 => node::<Obj<[i64; 2]>, Pm<16, 48, 10>>(range),
        6 => node::<GeomWithData<Rectangle<[f64; 2]>, Meta>, DefaultParams>(range),
        7 => node::<PointWithData<Meta, [i16; 2]>, Pm<2, 4, 0>>(range),
        8 => node::<GeomWithData<CachedEnvelope<Obj<(i32, i32)>>, u32>, Pm<3, 5, 1>>(range),
        9 => node::<Rc<Obj<::mint::Point2<f32>>>, Pm<2, 6, 3>>(range),
        10 => node::<GeomWithData<[f32; 2], Meta>, Pm<2, 5, 1>>(range),
        11 => node::<Obj<[f64; 3]>, Pm<4, 8, 3>>(range),
        12 => node::<Rc<Obj<::mint::Point3<f32>>>, Pm<2, 6, 3>>(range),
        13 => node::<CachedEnvelope<Obj<(i64, i64, i64)>>, DefaultParams>(range),
        14 => node::<Plain<[f64; 3]>, Pm<8, 15, 4>>(range),
        15 => node::<GeomWithData<[f32; 3], Meta>, Pm<1, 4, 2>>(range),
        16 => node::<GeomWithData<Rectangle<[i64; 3]>, Meta>, Pm<3, 5, 1>>(range),
        17 => node::<Own<Bx<[i32; 2]>>, Pm<4, 7, 2>>(range),
        _ => node::<Own<Bx<Pos<f64>>>, Pm<2, 5, 2>>(range),
    }
}

pub fn scenario(r: &mut Rng, seed: u64) -> Scenario {
    // geometry everybody in the cluster can store
    let (d, kinds, pool): (usize, u8, &[u8]) = match r.weighted(&[5, 3, 3, 3, 1, 1]) {
        0 => (2, G_PT | G_RECT | G_PAIR, &[0, 1, 2, 3, 4, 5, 8, 9, 17]),
        1 => (2, G_RECT, &[0, 1, 2, 3, 4, 5, 8, 9, 17, 6, 6, 6]),
        2 => (2, G_PT, &[0, 1, 2, 3, 4, 5, 8, 9, 17, 7, 7, 10, 10]),
        3 => (3, G_PT | G_RECT | G_PAIR, &[11, 12, 13, 14, 18]),
        4 => (3, G_RECT, &[11, 12, 13, 14, 18, 16, 16]),
        _ => (3, G_PT, &[11, 12, 13, 14, 18, 15, 15]),
    };
    let n = 2 + r.us(4);
    let reps: Vec<u8> = (0..n).map(|_| *r.pick(pool)).collect();
    let range: i16 = if reps.contains(&7) {
        15
    } else if reps.contains(&12) || reps.contains(&15) {
        400
    } else {
        1000
    };
    let info = Info { range, d, ..INFO[0] };
    let mut sp = Space::new(r, &info);
    let fix = |mut v: Vec<Spec>| {
        for s in v.iter_mut() {
            s.g = canon(s.g, kinds);
        }
        v
    };
    let k = match r.below(4) {
        0 => 0,
        1 => r.us(12),
        _ => r.logu(220) as usize,
    };
    let init = fix(sp.specs(r, k));
    let nc = 1 + r.us(26);
    let dq = [2, 0, 4, 4, 0, 4, 4, 1, 0, 0, 0];
    let mq = [2, 1, 4, 4, 3, 0, 3, 1, 0, 0, 0];
    let aq = [2, 1, 4, 4, 3, 4, 3, 1, 0, 5, 2];
    let cmds = (0..nc)
        .map(|_| {
            let gap = r.below(6) as u8;
            let c = match r.weighted(&[8, 7, 4, 3, 1, 5]) {
                0 => {
                    let k = r.logu(20) as usize;
                    Cmd::Insert(fix(sp.specs(r, k)))
                }
                1 => Cmd::Remove(match sp.target(r) {
                    Target::Spec(s) => Target::Spec(fix(vec![s]).pop().unwrap()),
                    t => t,
                }),
                2 => Cmd::Drain(sp.q(r, &dq)),
                3 => Cmd::Edit(sp.q(r, &mq)),
                4 => {
                    let k = r.logu(120) as usize - 1;
                    Cmd::Reset(fix(sp.specs(r, k)))
                }
                _ => Cmd::Ask(sp.q(r, &aq)),
            };
            (gap, c)
        })
        .collect();
    let nasty = r.chance(3, 4);
    let net = (0..if nasty { r.us(120) } else { 0 })
        .map(|_| (1 + r.logu(12) as u8, r.weighted(&[8, 2, 1]) as u8))
        .collect();
    let horizon = nc as i64 * 3 + 10;
    let crashes = (0..if nasty { r.us(5) } else { 0 })
        .map(|_| {
            let inside = r.chance(1, 2).then(|| FaultSpec {
                kinds: H::SelP.bit()
                    | H::SelL.bit()
                    | H::Eq.bit()
                    | H::Env.bit()
                    | H::EnvM.bit()
                    | H::Dist.bit()
                    | H::DistIf.bit()
                    | H::Contains.bit()
                    | H::Ser.bit(),
                nth: r.logu(600) as u32,
                err: false,
            });
            Crash {
                tick: r.range(0, horizon) as u32,
                rep: r.us(n) as u8,
                down: 1 + r.below(20) as u8,
                inside,
            }
        })
        .collect();
    let cuts = (0..if nasty { r.us(3) } else { 0 })
        .map(|_| {
            let from = r.range(0, horizon) as u32;
            Cut { from, to: from + r.below(25) as u32, rep: r.us(n) as u8 }
        })
        .collect();
    let exp = if r.chance(1, 2) { 0 } else { r.range(-10, 10) as i8 };
    let off = if exp == 0 { far(r, 3000) } else { 0 };
    Scenario {
        profile: "C13".into(),
        seed,
        combo: 0,
        exact: true,
        exp,
        off,
        range,
        slots: vec![],
        clients: vec![],
        sched: vec![],
        verify: 0,
        battery: 1 + r.below(1 << 30) as u32,
        cluster: Some(Cluster {
            d,
            bulk: (0..n).map(|_| r.chance(1, 2)).collect(),
            reps,
            init,
            cmds,
            net,
            crashes,
            cuts,
            snap: r.below(8) as u8,
            codec: *r.pick(&[Codec::Json, Codec::Bincode, Codec::Cbor, Codec::JsonValue]),
            compact: 2 + r.below(20) as u8,
        }),
    }
}

// ---------------------------------------------------------------- execution

enum Msg {
    Command(u8),
    Append { to: u8, seq: usize },
    Heartbeat { to: u8, last: usize },
    Nack { from: u8, next: usize },
    State { to: u8, seq: usize, els: Vec<El> },
    Crash(usize),
    Restart(u8),
    Beat,
}

struct Ev {
    at: u64,
    n: u64,
    m: Msg,
}
impl PartialEq for Ev {
    fn eq(&self, o: &Ev) -> bool {
        (self.at, self.n) == (o.at, o.n)
    }
}
impl Eq for Ev {}
impl PartialOrd for Ev {
    fn partial_cmp(&self, o: &Ev) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Ev {
    fn cmp(&self, o: &Ev) -> std::cmp::Ordering {
        (self.at, self.n).cmp(&(o.at, o.n))
    }
}

struct Replica {
    up: bool,
    gen: u64,
    seq: usize,
    rep: Box<dyn Rep>,
    pending: Vec<usize>,
    disk: Option<(usize, Vec<u8>)>,
    armed: Option<FaultSpec>,
    since_snap: u8,
    down: u8,
}

struct Sim<'a> {
    cl: &'a Cluster,
    now: u64,
    q: BinaryHeap<Reverse<Ev>>,
    nev: u64,
    netpos: usize,
    log: Vec<Log>,
    models: Vec<Vec<El>>, // models[i]: contents after i commands
    reps: Vec<Replica>,
    range: i16,
    faults_off: bool,
}

impl Sim<'_> {
    fn push(&mut self, at: u64, m: Msg) {
        self.nev += 1;
        self.q.push(Reverse(Ev { at, n: self.nev, m }));
    }
    fn cut(&self, rep: u8) -> bool {
        !self.faults_off
            && self.cl.cuts.iter().any(|c| {
                c.rep == rep && (c.from as u64..c.to as u64).contains(&self.now)
            })
    }
    fn send(&mut self, rep: u8, m: impl Fn() -> Msg) {
        if self.cut(rep) {
            probe("fault:message lost in a partition");
            return;
        }
        let (delay, what) = if self.faults_off {
            (1, 0)
        } else {
            let x = self.cl.net.get(self.netpos).copied().unwrap_or((1, 0));
            self.netpos += 1;
            x
        };
        match what {
            1 => return probe("fault:message lost"),
            2 => {
                probe("fault:message duplicated");
                self.push(self.now + 2 * delay as u64 + 1, m());
            }
            _ => {}
        }
        if delay > 1 {
            probe("fault:message delayed");
        }
        self.push(self.now + delay as u64, m());
    }

    /// Append a client command to the log, resolved against the newest state.
    fn command(&mut self, i: usize) {
        let env = self.reps[0].rep.env();
        let env = Env { d: self.cl.d, range: self.range, ..env };
        let mut m = self.models.last().unwrap().clone();
        let c = ctx();
        let els = |v: &Vec<Spec>, m: &mut Vec<El>| -> Vec<El> {
            v.iter()
                .map(|s| {
                    let id = c.next_id.get();
                    c.next_id.set(id + 1);
                    // the key is unique, so that `remove` has one candidate
                    let e = El { id, key: id as u32, g: s.g, pay: 0 };
                    m.push(e);
                    e
                })
                .collect()
        };
        let entry = match &self.cl.cmds[i].1 {
            Cmd::Insert(v) => Log::Insert(els(v, &mut m)),
            Cmd::Reset(v) => {
                m.clear();
                Log::Reset(els(v, &mut m))
            }
            Cmd::Remove(t) => {
                let (key, g) = match t {
                    Target::Elem(i) if !m.is_empty() => {
                        let e = m[*i as usize % m.len()];
                        (e.key, e.g)
                    }
                    Target::Elem(_) => (u32::MAX, Geom::Pt([0; MAXD])),
                    Target::Spec(s) => (u32::MAX, s.g),
                };
                m.retain(|e| e.key != key);
                Log::Remove(key, g)
            }
            Cmd::Drain(q) => {
                let rq = drain_rq(env.rq(q, &m));
                m.retain(|e| env.matches(&rq, e) == Tri::No);
                Log::Drain(*q, rq)
            }
            Cmd::Edit(q) => {
                let rq = mut_rq(env.rq(q, &m));
                let v = 100 + i as u32;
                for e in m.iter_mut() {
                    if env.matches(&rq, e) == Tri::Yes {
                        e.pay = v;
                    }
                }
                Log::Edit(*q, rq, v)
            }
            Cmd::Ask(q) => Log::Ask(*q, env.rq(q, &m)),
        };
        self.log.push(entry);
        self.models.push(m);
        let seq = self.log.len();
        for r in 0..self.reps.len() as u8 {
            self.send(r, || Msg::Append { to: r, seq });
        }
    }

    fn crash(&mut self, r: usize, down: u8) {
        let x = &mut self.reps[r];
        if !x.up {
            return;
        }
        x.up = false;
        x.gen += 1;
        x.armed = None;
        x.pending.clear();
        quietly(|| x.rep.clear());
        x.seq = 0;
        let at = self.now + down as u64;
        self.push(at, Msg::Restart(r as u8));
    }

    fn restart(&mut self, r: usize) {
        let cl = self.cl;
        let x = &mut self.reps[r];
        if x.up {
            return;
        }
        x.up = true;
        x.since_snap = 0;
        match &x.disk {
            Some((seq, b)) => {
                let rep = &mut x.rep;
                match attempt(|| rep.restore(cl.codec, b)) {
                    Out::Ok(Ok(())) => {
                        probe("replica restored its snapshot");
                        x.seq = *seq;
                    }
                    Out::Ok(Err(e)) => {
                        violate(k::REPLICA | k::SNAP, format!("replica {r}: its durable snapshot cannot be restored: {e}"));
                        return;
                    }
                    Out::Panic(p) => {
                        violate(k::REPLICA | k::SNAP | k::PROGRESS, format!("replica {r}: restoring panicked: {p}"));
                        return;
                    }
                    _ => return,
                }
            }
            None => {
                let m = self.models[0].clone();
                let rep = &mut x.rep;
                let bulk = cl.bulk[r];
                match attempt(|| quietly(|| rep.build(&m, bulk))) {
                    Out::Ok(()) => x.seq = 0,
                    Out::Panic(p) => {
                        violate(k::REPLICA | k::PROGRESS, format!("replica {r}: building its tree panicked: {p}"));
                        return;
                    }
                    _ => return,
                }
            }
        }
        self.check(r);
    }

    fn check(&mut self, r: usize) {
        let x = &self.reps[r];
        let m = &self.models[x.seq];
        match quietly(|| attempt(|| x.rep.check(m))) {
            Out::Ok(Ok(h)) => ctx().states.borrow_mut().push(mix(h, x.seq as u64)),
            Out::Ok(Err(e)) => violate(
                k::REPLICA | k::CONTENT,
                format!("replica {r} ({}) after {} commands: {e}", NAMES[self.cl.reps[r] as usize], x.seq),
            ),
            Out::Panic(p) => violate(k::REPLICA | k::PROGRESS, format!("replica {r}: reading it back panicked: {p}")),
            _ => {}
        }
    }

    /// Apply log entry `seq` (1-based). False: the replica died.
    fn apply(&mut self, r: usize) -> bool {
        let c = ctx();
        c.cur.set(r);
        c.op_idx[r].set(self.reps[r].seq);
        let cl = self.cl;
        let x = &mut self.reps[r];
        let entry = &self.log[x.seq];
        let before = &self.models[x.seq];
        c.armed[r].set(x.armed.take());
        c.fired[r].set(None);
        c.left[r].set(400_000 + 4_000 * (before.len() as i64 + 200));
        let rep = &mut x.rep;
        let bulk = cl.bulk[r];
        let res = attempt(|| -> Result<(), String> {
            let env = rep.env();
            let ids = |rq: &RQ| -> Vec<u64> {
                before.iter().filter(|e| env.matches(rq, e) == Tri::Yes).map(|e| e.id).collect()
            };
            match entry {
                Log::Insert(v) => {
                    for e in v {
                        rep.insert(e);
                    }
                }
                Log::Reset(v) => rep.build(v, bulk),
                Log::Remove(key, g) => {
                    let want = before.iter().find(|e| e.key == *key).map(|e| e.id);
                    let got = rep.remove(*key, g);
                    if got != want {
                        return Err(format!("remove returned {got:?} instead of {want:?}"));
                    }
                }
                Log::Drain(q, rq) => {
                    let mut got = rep.drain(q, rq);
                    got.sort_unstable();
                    let want = ids(rq);
                    if got != want {
                        return Err(format!("drain {rq:?} yielded {got:?} instead of {want:?}"));
                    }
                }
                Log::Edit(q, rq, v) => {
                    let mut got = rep.edit(q, rq, *v);
                    got.sort_unstable();
                    let want = ids(rq);
                    if got != want {
                        return Err(format!("mutable traversal {rq:?} yielded {got:?} instead of {want:?}"));
                    }
                }
                Log::Ask(q, rq) => {
                    let got = rep.ask(q, rq);
                    let want = ids(rq);
                    if got.0 != want {
                        return Err(format!("query {rq:?} answered {:?} instead of {want:?}", got.0));
                    }
                    if let (RQ::Nn(p), Q::NnD(_) | Q::NnDep(_)) = (rq, q) {
                        let mut d: Vec<i64> = before.iter().map(|e| e.g.d2(p, cl.d).unwrap()).collect();
                        d.sort_unstable();
                        if d != got.1 {
                            return Err(format!("nearest neighbours of {p:?} at distances {:?} instead of {d:?}", got.1));
                        }
                    }
                }
            }
            Ok(())
        });
        c.left[r].set(i64::MAX);
        let unfired = c.armed[r].take();
        let what = |r: usize, s: usize| format!("replica {r} ({}) command {s}", NAMES[cl.reps[r] as usize]);
        match res {
            Out::Ok(Ok(())) => {
                x.armed = unfired;
                x.seq += 1;
                x.since_snap += 1;
                self.check(r);
                if c.violated() {
                    return false;
                }
                self.maybe_snap(r)
            }
            Out::Ok(Err(e)) => {
                violate(k::REPLICA, format!("{}: {e}", what(r, x.seq)));
                false
            }
            Out::Injected => {
                probe("fault:replica crashed inside a command");
                // rustc itself leaks a value being returned while a destructor
                // run on the way out panics
                c.forgot.set(true);
                let down = x.down;
                self.crash(r, down);
                false
            }
            Out::Budget => {
                violate(k::REPLICA | k::PROGRESS, format!("{} did not finish within its step budget", what(r, x.seq)));
                false
            }
            Out::Panic(p) => {
                violate(k::REPLICA | k::PROGRESS, format!("{} panicked: {p}", what(r, x.seq)));
                false
            }
        }
    }

    fn maybe_snap(&mut self, r: usize) -> bool {
        let c = ctx();
        let cl = self.cl;
        let x = &mut self.reps[r];
        if cl.snap == 0 || x.since_snap < cl.snap {
            return true;
        }
        x.since_snap = 0;
        c.armed[r].set(x.armed.take());
        let res = attempt(|| x.rep.save(cl.codec));
        x.armed = c.armed[r].take();
        match res {
            Out::Ok(Ok(b)) => {
                x.disk = Some((x.seq, b));
                probe("replica wrote a snapshot");
                true
            }
            Out::Ok(Err(e)) => {
                violate(k::REPLICA | k::SNAP, format!("replica {r}: writing a snapshot failed: {e}"));
                false
            }
            Out::Injected => {
                // written to a temporary file: the previous snapshot stays
                probe("fault:replica crashed while writing a snapshot");
                let down = x.down;
                self.crash(r, down);
                false
            }
            Out::Panic(p) => {
                violate(k::REPLICA | k::SNAP | k::PROGRESS, format!("replica {r}: writing a snapshot panicked: {p}"));
                false
            }
            Out::Budget => true,
        }
    }

    fn deliver(&mut self, r: usize, seq: usize) {
        if !self.reps[r].up {
            return;
        }
        if seq > self.reps[r].seq && !self.reps[r].pending.contains(&seq) {
            self.reps[r].pending.push(seq);
        }
        loop {
            let x = &mut self.reps[r];
            let next = x.seq + 1;
            x.pending.retain(|s| *s >= next);
            if !x.pending.contains(&next) {
                break;
            }
            if !self.apply(r) {
                return;
            }
        }
    }

    fn event(&mut self, m: Msg) {
        match m {
            Msg::Command(_) => {}
            Msg::Append { to, seq } => self.deliver(to as usize, seq),
            Msg::Heartbeat { to, last } => {
                let x = &self.reps[to as usize];
                if x.up && x.seq < last {
                    let next = x.seq + 1;
                    self.send(to, || Msg::Nack { from: to, next });
                }
            }
            Msg::Nack { from, next } => {
                let last = self.log.len();
                if last + 1 - next.min(last + 1) > self.cl.compact as usize {
                    // too far behind: copy the most advanced peer
                    let peer = (0..self.reps.len())
                        .filter(|i| *i != from as usize && self.reps[*i].up)
                        .max_by_key(|i| self.reps[*i].seq);
                    if let Some(p) = peer {
                        if self.reps[p].seq >= next {
                            let x = &self.reps[p];
                            let m = &self.models[x.seq];
                            let mut els = Vec::new();
                            for (id, key, pay) in quietly(|| x.rep.dump()) {
                                match m.binary_search_by_key(&id, |e| e.id) {
                                    Ok(i) => els.push(El { id, key, pay, g: m[i].g }),
                                    Err(_) => return violate(k::REPLICA | k::CONTENT, format!("replica {p} holds object #{id}, which does not exist")),
                                }
                            }
                            let seq = x.seq;
                            probe("state transfer between replicas");
                            self.send(from, || Msg::State { to: from, seq, els: els.clone() });
                            return;
                        }
                    }
                }
                for seq in next..=last {
                    self.send(from, || Msg::Append { to: from, seq });
                }
            }
            Msg::State { to, seq, els } => {
                let r = to as usize;
                let bulk = self.cl.bulk[r];
                let x = &mut self.reps[r];
                if !x.up || seq <= x.seq {
                    return;
                }
                let rep = &mut x.rep;
                match attempt(|| quietly(|| rep.build(&els, bulk))) {
                    Out::Ok(()) => {
                        x.seq = seq;
                        self.check(r);
                    }
                    Out::Panic(p) => violate(k::REPLICA | k::PROGRESS, format!("replica {r}: building a tree from a peer's objects panicked: {p}")),
                    _ => {}
                }
            }
            Msg::Crash(i) => {
                let cr = self.cl.crashes[i];
                let r = cr.rep as usize % self.reps.len();
                self.reps[r].down = cr.down;
                match cr.inside {
                    Some(f) => self.reps[r].armed = Some(f),
                    None => {
                        probe("fault:replica crashed");
                        self.crash(r, cr.down)
                    }
                }
            }
            Msg::Restart(r) => self.restart(r as usize),
            Msg::Beat => {
                let last = self.log.len();
                for r in 0..self.reps.len() as u8 {
                    self.send(r, || Msg::Heartbeat { to: r, last });
                }
            }
        }
    }
}

pub fn run(sc: &Scenario) {
    let cl = sc.cluster.as_ref().unwrap();
    if cl.reps.is_empty() || cl.bulk.len() < cl.reps.len() {
        return;
    }
    let c = ctx();
    let mut m0 = Vec::new();
    for s in &cl.init {
        let id = c.next_id.get();
        c.next_id.set(id + 1);
        m0.push(El { id, key: id as u32, g: s.g, pay: 0 });
    }
    let mut sim = Sim {
        cl,
        now: 0,
        q: BinaryHeap::new(),
        nev: 0,
        netpos: 0,
        log: vec![],
        models: vec![m0],
        reps: cl
            .reps
            .iter()
            .map(|k| Replica {
                up: false,
                gen: 0,
                seq: 0,
                rep: new_rep(*k, sc.range),
                pending: vec![],
                disk: None,
                armed: None,
                since_snap: 0,
                down: 3,
            })
            .collect(),
        range: sc.range,
        faults_off: false,
    };
    crate::driver::note(k::REPLICA | k::PROGRESS);
    c.run_cats.set(c.run_cats.get() | k::REPLICA | k::PROGRESS);
    for r in 0..sim.reps.len() {
        sim.restart(r);
    }
    let mut t = 1;
    for (i, (gap, _)) in cl.cmds.iter().enumerate() {
        t += *gap as u64;
        sim.push(t, Msg::Command(i as u8));
    }
    for (i, cr) in cl.crashes.iter().enumerate() {
        sim.push(cr.tick as u64, Msg::Crash(i));
    }
    let mut beat = 5;
    while beat < t {
        sim.push(beat, Msg::Beat);
        beat += 5;
    }
    // phase 1: with faults; phase 2: faults off, everyone must catch up
    let mut beats_left = 12;
    loop {
        if c.violated() {
            break;
        }
        let Some(Reverse(ev)) = sim.q.pop() else {
            if !sim.faults_off {
                sim.faults_off = true;
                for x in sim.reps.iter_mut() {
                    x.armed = None;
                }
            }
            if sim.reps.iter().all(|x| x.up && x.seq == sim.log.len()) {
                break;
            }
            if beats_left == 0 {
                violate(k::REPLICA | k::PROGRESS, "replicas did not catch up after the faults stopped");
                break;
            }
            beats_left -= 1;
            let at = sim.now + 5;
            sim.push(at, Msg::Beat);
            continue;
        };
        sim.now = ev.at.max(sim.now);
        match ev.m {
            Msg::Command(i) => sim.command(i as usize),
            m => sim.event(m),
        }
    }
    probe_n("simulated ticks", sim.now);
    probe_n("replicated commands", sim.log.len() as u64);
    if c.violated() {
        return;
    }
    // converged: the same questions must get the same answers everywhere
    let m = sim.models.last().unwrap().clone();
    let mut rng = Rng::new(sc.battery as u64);
    let info = Info { range: sc.range, d: cl.d, ..INFO[0] };
    let mut sp = Space::new(&mut rng, &info);
    let env = Env { d: cl.d, range: sc.range, ..sim.reps[0].rep.env() };
    for _ in 0..12 {
        let q = sp.q(&mut rng, &[1, 1, 4, 4, 3, 4, 3, 1, 0, 6, 2]);
        let rq = env.rq(&q, &m);
        let mut first: Option<Answer> = None;
        for r in 0..sim.reps.len() {
            let rep = &mut sim.reps[r].rep;
            let a = match quietly(|| attempt(|| rep.ask(&q, &rq))) {
                Out::Ok(a) => a,
                Out::Panic(p) => return violate(k::REPLICA | k::PROGRESS, format!("replica {r}: query {rq:?} panicked: {p}")),
                _ => return,
            };
            let want: Vec<u64> =
                m.iter().filter(|e| env.matches(&rq, e) == Tri::Yes).map(|e| e.id).collect();
            if a.0 != want {
                return violate(k::REPLICA, format!("replica {r}: query {rq:?} answered {:?} instead of {want:?}", a.0));
            }
            match &first {
                None => first = Some(a),
                Some(f) if *f == a => {}
                Some(f) => {
                    return violate(k::REPLICA, format!("query {rq:?}: replica 0 answers {f:?}, replica {r} {a:?}"))
                }
            }
        }
    }
    drop(sim);
    if c.double_drop.get() {
        violate(k::OWN | k::REPLICA, "an object was dropped twice");
    }
}
