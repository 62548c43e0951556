//! Turns (profile, seed) into a scenario. Everything random happens here; the
//! execution itself draws no randomness.
use crate::combos::{Info, INFO};
use crate::ctx::*;
use crate::exec::{AnyQ, Env};
use crate::geom::*;
use crate::rng::Rng;
use crate::scenario::*;

/// Shape of the coordinates of one scenario.
#[derive(Clone)]
pub struct Space {
    pub d: usize,
    pub r: i64,
    style: u8,
    centers: Vec<C>,
    kinds: [u32; 4],
    keys: u64,
    big: bool,
    tiny: bool,
    next: i64,
}

impl Space {
    pub fn new(rng: &mut Rng, info: &Info) -> Space {
        let full = info.range as i64;
        let r = match rng.below(6) {
            0 => 2,
            1 => 5.min(full),
            2 => 20.min(full),
            3 => 100.min(full),
            _ => full,
        };
        let style = rng.weighted(&[6, 4, 3, 2, 2, 3, 3, 3, 1]) as u8;
        let mut s = Space {
            d: info.d,
            r,
            style,
            centers: vec![],
            kinds: [rng.range(1, 6) as u32, rng.range(0, 5) as u32, rng.range(0, 2) as u32, 1],
            keys: *rng.pick(&[1, 2, 5, 1000, 1000]),
            big: rng.chance(1, 4),
            tiny: false,
            next: -r,
        };
        let n = 1 + rng.us(6);
        for _ in 0..n {
            let c = s.uniform(rng);
            s.centers.push(c);
        }
        s
    }
    /// Few coincidences and small objects: for trees of thousands of objects.
    fn spread(&mut self, info: &Info, tiny: bool) {
        if tiny {
            self.kinds = [4, self.kinds[1] & 1, 0, 0];
            self.tiny = true;
        }
        self.r = info.range as i64;
        self.style = if self.style == 1 || self.style == 6 { self.style } else { 0 };
        self.big = false;
    }
    fn uniform(&self, rng: &mut Rng) -> C {
        let mut c = [0; MAXD];
        for v in c.iter_mut().take(self.d) {
            *v = rng.range(-self.r, self.r) as i16;
        }
        c
    }
    fn clampc(&self, mut c: C) -> C {
        for (i, v) in c.iter_mut().enumerate() {
            *v = if i < self.d { (*v).clamp(-self.r as i16, self.r as i16) } else { 0 };
        }
        c
    }
    pub fn coord(&mut self, rng: &mut Rng) -> C {
        let r = self.r;
        match self.style {
            0 => self.uniform(rng),
            1 => {
                let mut c = *rng.pick(&self.centers);
                let w = (r / 10).max(1);
                for v in c.iter_mut() {
                    *v += rng.range(-w, w) as i16;
                }
                self.clampc(c)
            }
            2 => {
                // all on one axis-parallel line
                let mut c = self.centers[0];
                c[0] = rng.range(-r, r) as i16;
                c
            }
            3 => {
                let v = rng.range(-r, r) as i16;
                self.clampc([v; MAXD])
            }
            4 => *rng.pick(&self.centers),
            5 => {
                let mut c = [0; MAXD];
                for v in c.iter_mut().take(self.d) {
                    *v = rng.range(-3, 3) as i16;
                }
                self.clampc(c)
            }
            6 => {
                // sorted along the first axis
                let mut c = self.uniform(rng);
                c[0] = self.next as i16;
                self.next += 1;
                if self.next > r {
                    self.next = -r;
                }
                c
            }
            7 => {
                if rng.chance(1, 2) {
                    *rng.pick(&self.centers)
                } else {
                    self.uniform(rng)
                }
            }
            _ => self.centers[0],
        }
    }
    pub fn spec(&mut self, rng: &mut Rng) -> Spec {
        let key = rng.below(self.keys) as u16;
        let a = self.coord(rng);
        let g = match rng.weighted(&self.kinds) {
            0 => Geom::Pt(a),
            x => {
                let mut b = a;
                let w = if self.big && rng.chance(1, 5) {
                    self.r
                } else if self.tiny {
                    3
                } else {
                    *rng.pick(&[1, 2, (self.r / 8).max(1)])
                };
                for v in b.iter_mut() {
                    if rng.chance(4, 5) {
                        *v += rng.range(-w, w) as i16;
                    }
                }
                let b = self.clampc(b);
                match x {
                    1 => {
                        let bx = B::of(a, b);
                        Geom::Rect(bx.lo, bx.hi)
                    }
                    2 => Geom::Pair(a, b),
                    _ => Geom::Line(a, b),
                }
            }
        };
        Spec { key, g }
    }
    pub fn specs(&mut self, rng: &mut Rng, n: usize) -> Vec<Spec> {
        (0..n).map(|_| self.spec(rng)).collect()
    }
    pub fn pt(&mut self, rng: &mut Rng) -> PtS {
        match rng.below(10) {
            0..=2 => PtS::Abs(self.uniform(rng)),
            3 => PtS::Abs(self.coord(rng)),
            4 => {
                let mut c = [0; MAXD];
                for v in c.iter_mut().take(self.d) {
                    *v = if rng.chance(1, 2) { -self.r as i16 } else { self.r as i16 };
                }
                PtS::Abs(c)
            }
            5..=7 => PtS::Elem(rng.next() as u32, rng.below(2) as u8, [0; MAXD]),
            _ => {
                let mut o = [0i8; MAXD];
                for v in o.iter_mut().take(self.d) {
                    *v = rng.range(-2, 2) as i8;
                }
                PtS::Elem(rng.next() as u32, rng.below(2) as u8, o)
            }
        }
    }
    pub fn boxs(&mut self, rng: &mut Rng) -> BoxS {
        match rng.below(20) {
            0..=4 => {
                let (a, b) = (self.uniform(rng), self.uniform(rng));
                let b = B::of(a, b);
                BoxS::Abs(b.lo, b.hi)
            }
            5..=7 => {
                let a = self.coord(rng);
                let w = *rng.pick(&[0, 1, 3, (self.r / 5).max(1)]);
                let (mut lo, mut hi) = (a, a);
                for i in 0..self.d {
                    lo[i] -= w as i16;
                    hi[i] += w as i16;
                }
                BoxS::Abs(self.clampc(lo), self.clampc(hi))
            }
            8..=12 => BoxS::Elem(rng.next() as u32, *rng.pick(&[0, 0, 1, 3, 20])),
            13..=17 => BoxS::Two(rng.next() as u32, rng.next() as u32),
            18 => BoxS::Abs(self.clampc([-self.r as i16; MAXD]), self.clampc([self.r as i16; MAXD])),
            _ => BoxS::Nil,
        }
    }
    pub fn r2(&mut self, rng: &mut Rng) -> R2S {
        match rng.below(10) {
            0 => R2S::Max,
            1 => R2S::Val(-1),
            2 => R2S::Val(0),
            3..=4 => R2S::Val(rng.range(0, self.r * self.r)),
            5..=7 => R2S::ToElem(rng.next() as u32, 0),
            _ => R2S::ToElem(rng.next() as u32, rng.range(-2, 2) as i8),
        }
    }
    pub fn sel(&mut self, rng: &mut Rng) -> SelS {
        SelS {
            b: self.boxs(rng),
            parent: rng.weighted(&[6, 4, 1]) as u8,
            k: *rng.pick(&[1, 1, 2, 3, 5]),
            r: rng.below(5) as u8,
            inside: rng.chance(1, 3),
        }
    }
    pub fn q(&mut self, rng: &mut Rng, w: &[u32; 11]) -> Q {
        match rng.weighted(w) {
            0 => Q::All,
            1 => Q::AllRef,
            2 => Q::InEnv(self.boxs(rng)),
            3 => Q::Isect(self.boxs(rng)),
            4 => Q::At(self.pt(rng)),
            5 => {
                let p = self.pt(rng);
                Q::Within(p, self.r2(rng))
            }
            6 => Q::Sel(self.sel(rng)),
            7 => Q::SelDef,
            8 => Q::NnIter(self.pt(rng)),
            9 => Q::NnD(self.pt(rng)),
            _ => Q::NnDep(self.pt(rng)),
        }
    }
    pub fn target(&mut self, rng: &mut Rng) -> Target {
        if rng.chance(3, 4) {
            Target::Elem(rng.next() as u32)
        } else {
            Target::Spec(self.spec(rng))
        }
    }
    pub fn oneq(&mut self, rng: &mut Rng, w: &[u32; 11]) -> OneQ {
        match rng.weighted(w) {
            0 => OneQ::At(self.pt(rng)),
            1 => OneQ::AtInt(self.pt(rng)),
            2 => OneQ::AtMut(self.pt(rng)),
            3 => OneQ::AtIntMut(self.pt(rng)),
            4 => OneQ::Contains(self.target(rng)),
            5 => OneQ::Nn(self.pt(rng)),
            6 => OneQ::NnD(self.pt(rng)),
            7 => OneQ::Nns(self.pt(rng)),
            8 => OneQ::NnsD(self.pt(rng)),
            9 => OneQ::Size,
            _ => OneQ::Debug,
        }
    }
}

fn size(rng: &mut Rng, info: &Info, cap: usize) -> usize {
    let mx = info.max;
    let n = match rng.weighted(&[8, 12, 18, 14, 34, 12, 2]) {
        0 => 0,
        1 => 1 + rng.us(3),
        2 => 1 + rng.us(mx + 2),
        3 => {
            // around a full level
            let mut v = mx;
            while v * mx <= 500 && rng.chance(1, 2) {
                v *= mx;
            }
            (v as i64 + rng.range(-2, 2)).max(0) as usize
        }
        4 => rng.logu(150) as usize,
        5 => 50 + rng.us(350),
        _ => 400 + rng.us(1500),
    };
    n.min(cap)
}

// weights over the operation templates
const NOPS: usize = 24;
struct Prof {
    ops: [u32; NOPS],
    q: [u32; 11],
    one: [u32; 11],
    /// fault probability in percent
    fault: u64,
    /// callbacks a fault may hit
    kinds: u32,
    cap: usize,
    slots: usize,
    len: usize,
}

const CALLBACKS: u32 = H::Dist.bit()
    | H::DistIf.bit()
    | H::Contains.bit()
    | H::Eq.bit()
    | H::Clone.bit()
    | H::SelP.bit()
    | H::SelL.bit()
    | H::Visit.bit()
    | H::Poll.bit();
const READ_Q: [u32; 11] = [2, 1, 6, 6, 4, 5, 4, 1, 3, 2, 1];
const DRAIN_Q: [u32; 11] = [3, 0, 5, 5, 0, 5, 6, 1, 0, 0, 0];
const MUT_Q: [u32; 11] = [3, 2, 5, 5, 4, 0, 5, 2, 0, 0, 0];
const VISIT_Q: [u32; 11] = [0, 0, 5, 6, 5, 0, 0, 0, 0, 0, 0];
const NN_Q: [u32; 11] = [0, 0, 1, 1, 0, 0, 0, 0, 5, 5, 2];
const ONE: [u32; 11] = [4, 3, 2, 2, 4, 3, 2, 3, 2, 2, 1];

fn profile(p: &str) -> Prof {
    //          in ba bu re at se po dr le mi vi se on jo sj cl sw ta co sa lo rs da yi
    let mixed = [8, 3, 2, 4, 2, 2, 3, 5, 1, 2, 2, 3, 3, 1, 1, 2, 1, 1, 1, 1, 1, 1, 0, 1];
    let base = Prof {
        ops: mixed,
        q: READ_Q,
        one: ONE,
        fault: 15,
        kinds: CALLBACKS,
        cap: 2000,
        slots: 3,
        len: 14,
    };
    match p {
        "C01" => Prof { fault: 12, ..base },
        "C02" => Prof {
            //    in ba bu re at se po dr  le mi vi se on jo sj cl sw ta co sa lo rs da yi
            ops: [6, 3, 2, 2, 1, 1, 1, 16, 0, 1, 0, 2, 2, 0, 0, 1, 0, 1, 0, 0, 0, 0, 0, 1],
            q: DRAIN_Q,
            fault: 0,
            ..base
        },
        "C03" => Prof {
            ops: [6, 3, 1, 2, 1, 1, 1, 3, 9, 1, 1, 2, 2, 1, 0, 2, 1, 1, 1, 1, 1, 1, 0, 1],
            fault: 0,
            cap: 500,
            ..base
        },
        "C04" => Prof {
            ops: [4, 2, 2, 7, 4, 5, 4, 12, 0, 3, 4, 5, 4, 2, 1, 1, 0, 0, 0, 0, 0, 0, 0, 0],
            fault: 60,
            cap: 600,
            ..base
        },
        "C05" => Prof {
            ops: [3, 2, 1, 1, 1, 0, 0, 2, 0, 0, 2, 12, 9, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1],
            fault: 8,
            ..base
        },
        "C06" => Prof {
            ops: [3, 2, 1, 1, 0, 0, 2, 1, 0, 0, 0, 12, 9, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1],
            q: NN_Q,
            one: [0, 0, 0, 0, 0, 5, 5, 6, 5, 0, 0],
            fault: 6,
            ..base
        },
        "C07" => Prof {
            ops: [3, 2, 2, 1, 0, 0, 0, 2, 0, 0, 0, 1, 0, 12, 5, 0, 0, 0, 0, 0, 0, 0, 0, 1],
            fault: 8,
            cap: 300,
            len: 8,
            ..base
        },
        "C08" => Prof {
            ops: [3, 2, 1, 1, 0, 0, 0, 1, 0, 12, 5, 2, 5, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0, 1],
            q: MUT_Q,
            one: [0, 0, 6, 6, 1, 0, 0, 0, 0, 0, 0],
            fault: 8,
            ..base
        },
        "C09" => Prof {
            ops: [12, 6, 4, 6, 3, 3, 3, 5, 1, 0, 0, 0, 0, 0, 0, 1, 0, 1, 1, 1, 1, 1, 0, 0],
            q: DRAIN_Q,
            fault: 8,
            ..base
        },
        "C10" => Prof {
            ops: [6, 3, 2, 12, 8, 8, 8, 1, 0, 0, 0, 1, 1, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0, 1],
            fault: 8,
            cap: 800,
            ..base
        },
        "C11" => Prof {
            ops: [5, 2, 1, 2, 1, 1, 1, 2, 0, 1, 0, 1, 1, 0, 0, 1, 0, 0, 0, 12, 8, 5, 0, 0],
            fault: 15,
            kinds: H::Ser.bit() | H::De.bit() | H::Io.bit(),
            cap: 300,
            ..base
        },
        "C12" => Prof {
            ops: [3, 1, 1, 1, 0, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 6, 2, 1, 18, 0],
            fault: 3,
            kinds: H::De.bit(),
            cap: 80,
            ..base
        },
        "C14" => Prof {
            ops: [6, 3, 1, 3, 1, 1, 2, 4, 1, 4, 1, 1, 1, 0, 0, 12, 3, 1, 1, 1, 1, 0, 0, 1],
            fault: 10,
            cap: 400,
            ..base
        },
        "C15" => Prof {
            ops: [9, 4, 4, 4, 2, 2, 3, 8, 3, 1, 0, 1, 0, 0, 0, 4, 1, 3, 5, 2, 4, 1, 1, 0],
            fault: 55,
            kinds: CALLBACKS
                | H::Env.bit()
                | H::EnvM.bit()
                | H::Drop.bit()
                | H::De.bit()
                | H::Ser.bit()
                | H::Io.bit(),
            cap: 400,
            ..base
        },
        "C16" => Prof { fault: 5, ..base },
        "C21" => Prof {
            //    in ba bu re at se po dr  le mi vi se on jo sj cl sw ta co sa lo rs da yi
            ops: [4, 6, 2, 2, 1, 1, 2, 8, 0, 1, 1, 1, 1, 0, 0, 2, 0, 0, 2, 1, 2, 0, 0, 0],
            fault: 25,
            ..base
        },
        "C17" => Prof {
            ops: [3, 2, 1, 1, 0, 0, 0, 1, 0, 0, 14, 1, 2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1],
            q: VISIT_Q,
            one: [0, 5, 0, 5, 0, 0, 0, 0, 0, 0, 0],
            fault: 12,
            ..base
        },
        _ => base,
    }
}

fn end(rng: &mut Rng, forget: bool) -> End {
    match rng.weighted(&[6, 2, 3, if forget { 2 } else { 0 }]) {
        0 => End::Drop,
        1 => End::Exhaust,
        2 => End::PastEnd,
        _ => End::Forget,
    }
}
fn take(rng: &mut Rng, n: usize) -> u32 {
    match rng.below(6) {
        0 => rng.below(3) as u32,
        1 => n as u32,
        2 => (n as u64 / 2 + rng.below(4)) as u32,
        _ => rng.logu(n.max(1) as u64 * 2) as u32,
    }
}
fn codec(rng: &mut Rng) -> Codec {
    *rng.pick(&[Codec::Json, Codec::Bincode, Codec::Bincode, Codec::Cbor, Codec::JsonValue])
}
fn io(rng: &mut Rng, faults: bool, read: bool) -> IoPlan {
    let mut p = IoPlan {
        chunk: if rng.chance(1, 3) { 1 + rng.below(40) as u8 } else { 0 },
        intr: if rng.chance(1, 4) { 1 + rng.below(9) as u8 } else { 0 },
        fail: None,
        sync_fail: false,
        in_place: false,
        survive: 0,
        cut: None,
    };
    if faults {
        p.in_place = rng.chance(1, 2);
        p.survive = rng.next() as u8;
        if rng.chance(1, 3) {
            p.fail = Some((rng.next() as u32 >> rng.below(28), rng.below(4) as u8));
        }
        if !read {
            p.sync_fail = rng.chance(1, 12);
        } else if rng.chance(1, 4) {
            p.cut = Some(rng.next() as u32 >> rng.below(28));
        }
    }
    p
}
fn damage(rng: &mut Rng) -> Vec<Damage> {
    let n = 1 + rng.us(3);
    (0..n)
        .map(|_| {
            let o = rng.next() as u32 >> rng.below(30);
            match rng.below(8) {
                0..=2 => Damage::Flip(o, 1 << rng.below(8)),
                3 => Damage::Set(o, *rng.pick(&[0, 1, 0xff, b'"', b'[', b'{', b'9', b'-', 0x7f, 0x80])),
                4 => Damage::Del(o, rng.logu(40) as u16),
                5 => Damage::Dup(o, rng.logu(40) as u16),
                6 => {
                    if rng.chance(1, 2) {
                        Damage::Big(o)
                    } else {
                        Damage::Zero(o, rng.logu(40) as u16)
                    }
                }
                _ => Damage::Swap(o, rng.next() as u32 >> rng.below(30), rng.logu(20) as u16),
            }
        })
        .collect()
}

struct Gen<'a> {
    r: &'a mut Rng,
    sp: Space,
    pr: Prof,
    n: usize, // typical tree size
    nslots: u8,
    default_params: bool,
    /// the objects' envelopes are user-defined
    own_env: bool,
    name: &'a str,
}

impl Gen<'_> {
    fn op(&mut self) -> Op {
        let i = self.r.weighted(&self.pr.ops);
        let s = self.r.below(self.nslots as u64) as u8;
        let r = &mut *self.r;
        let sp = &mut self.sp;
        let n = self.n;
        match i {
            0 => Op::Insert { s, e: sp.spec(r) },
            1 => {
                let k = r.logu(24) as usize;
                Op::Batch { s, es: sp.specs(r, k) }
            }
            2 => {
                let k = if r.chance(1, 5) { 0 } else { r.logu(90) as usize };
                Op::Bulk { s, es: sp.specs(r, k), merge: r.chance(1, 2) }
            }
            3 => Op::Remove { s, t: sp.target(r) },
            4 => Op::RemoveAt { s, p: sp.pt(r) },
            5 => Op::RemoveSel { s, q: sp.sel(r) },
            6 => Op::Pop { s, p: sp.pt(r) },
            7 => Op::Drain {
                s,
                q: sp.q(r, &DRAIN_Q),
                take: take(r, n),
                end: end(r, false),
                catch: r.chance(1, 3),
            },
            8 => Op::Drain {
                s,
                q: sp.q(r, &DRAIN_Q),
                take: take(r, n),
                end: End::Forget,
                catch: false,
            },
            9 => Op::MutIter {
                s,
                q: sp.q(r, &MUT_Q),
                take: take(r, n),
                mask: r.next() as u8,
                end: end(r, true),
            },
            10 => Op::Visit {
                s,
                q: sp.q(r, &VISIT_Q),
                mutable: r.chance(1, 2),
                stop: if r.chance(1, 2) { Some(r.logu(n.max(1) as u64) as u32 - 1) } else { None },
                nested: if r.chance(1, 5) { Some(sp.q(r, &READ_Q)) } else { None },
                mask: r.next() as u8,
            },
            11 => {
                let k = 1 + r.us(4);
                let qw = self.pr.q;
                let qw = if qw[..].iter().any(|x| *x > 0) && self.name != "C17" && self.name != "C02" {
                    qw
                } else {
                    READ_Q
                };
                let cursors: Vec<Q> = (0..k).map(|_| sp.q(r, &qw)).collect();
                let m = r.us(24);
                let script =
                    (0..m).map(|_| (r.below(k as u64) as u8, r.logu(n.max(4) as u64) as u16)).collect();
                let ends = (0..k).map(|_| end(r, true)).collect();
                Op::Session { s, cursors, script, ends }
            }
            12 => {
                let w = self.pr.one;
                Op::One { s, q: sp.oneq(r, &w) }
            }
            13 => Op::Join {
                s,
                o: r.below(self.nslots as u64) as u8,
                bulk: r.chance(1, 2),
                sub: r.below(4) as u8,
                take: if r.chance(2, 3) { u32::MAX } else { take(r, n * 2) },
            },
            14 => {
                if self.default_params {
                    Op::SelfJoin { s, take: if r.chance(2, 3) { u32::MAX } else { take(r, n * 2) } }
                } else {
                    Op::Join { s, o: s, bulk: r.chance(1, 2), sub: 0, take: u32::MAX }
                }
            }
            15 => Op::CloneTo { a: s, b: r.below(self.nslots as u64) as u8, from: r.chance(1, 3) },
            16 => Op::Swap { a: s, b: r.below(self.nslots as u64) as u8 },
            17 => Op::Take { s },
            18 => Op::Consume { s, take: take(r, n), end: end(r, true), rebuild: r.chance(1, 2) },
            19 => Op::Save {
                s,
                f: r.below(2) as u8,
                codec: codec(r),
                io: {
                    let f = r.chance(1, 2);
                    io(r, f, false)
                },
            },
            20 => Op::Load {
                s,
                f: r.below(2) as u8,
                io: {
                    let f = r.chance(1, 2);
                    io(r, f, true)
                },
            },
            21 => Op::Restart { s, f: r.below(2) as u8 },
            22 => Op::Damage { f: r.below(2) as u8, d: damage(r) },
            _ => Op::Yield,
        }
    }
    fn fault(&mut self, op: &Op) -> Option<FaultSpec> {
        if !self.r.chance(self.pr.fault, 100) {
            return None;
        }
        let mut like = relevant(op);
        if self.own_env && like & H::Env.bit() != 0 {
            like |= H::EnvM.bit();
        }
        let like = like & self.pr.kinds;
        if like == 0 {
            return None;
        }
        let kinds = if self.r.chance(1, 2) {
            like
        } else {
            let bits: Vec<u32> = (0..NH as u32).map(|b| 1 << b).filter(|b| like & b != 0).collect();
            *self.r.pick(&bits)
        };
        let n = (self.n as u64 * 2).max(4);
        Some(FaultSpec {
            kinds,
            nth: self.r.logu(n) as u32,
            err: kinds & (H::Ser.bit() | H::De.bit()) == kinds && self.r.chance(1, 2),
        })
    }
}

/// Callbacks the documentation lets an operation invoke.
fn relevant(op: &Op) -> u32 {
    use Op::*;
    let q = H::Env.bit() | H::SelP.bit() | H::SelL.bit() | H::Contains.bit() | H::Dist.bit() | H::DistIf.bit() | H::Poll.bit();
    match op {
        Insert { .. } | Batch { .. } => H::Env.bit() | H::Drop.bit(),
        Bulk { .. } => H::Env.bit() | H::Drop.bit(),
        Remove { .. } => H::Eq.bit() | H::Env.bit(),
        RemoveAt { .. } => H::Contains.bit() | H::Env.bit() | H::Dist.bit(),
        RemoveSel { .. } => H::SelP.bit() | H::SelL.bit() | H::Env.bit(),
        Pop { .. } => H::Dist.bit() | H::DistIf.bit() | H::Eq.bit() | H::Env.bit(),
        Drain { .. } => {
            H::SelP.bit() | H::SelL.bit() | H::DistIf.bit() | H::Dist.bit() | H::Poll.bit() | H::Env.bit() | H::Drop.bit()
        }
        MutIter { .. } => q,
        Visit { .. } => H::Visit.bit() | q,
        Session { .. } => q,
        One { .. } => q | H::Eq.bit(),
        Join { .. } | SelfJoin { .. } => H::Env.bit() | H::Poll.bit(),
        CloneTo { .. } => H::Clone.bit(),
        Take { .. } => H::Drop.bit(),
        Consume { .. } => H::Drop.bit() | H::Poll.bit() | H::Env.bit(),
        Save { .. } => H::Ser.bit() | H::Io.bit(),
        Load { .. } => H::De.bit() | H::Io.bit(),
        Damage { .. } => H::De.bit(),
        Restart { .. } | Swap { .. } | Yield => 0,
    }
}

pub fn scenario(name: &str, seed: u64) -> Scenario {
    let mut rng = Rng::new(seed ^ fnv(name));
    let r = &mut rng;
    if name == "C13" {
        return crate::replica::scenario(r, seed);
    }
    let cost = name == "C21";
    let combo = if cost {
        let v: Vec<usize> = (0..INFO.len()).filter(|i| INFO[*i].costs).collect();
        *r.pick(&v)
    } else {
        r.us(INFO.len())
    };
    let info = &INFO[combo];
    let pr = profile(name);
    let mut sp = Space::new(r, info);
    // now and then a tree of thousands of objects
    let large = cost || pr.cap >= 2000 && r.chance(1, 400);
    if large {
        sp.spread(info, cost);
    }
    let nslots = match name {
        _ if large => 1,
        "C14" => 2 + r.us(2),
        _ => 1 + r.weighted(&[5, 3, 2]).min(pr.slots - 1),
    };
    let mut slots = Vec::new();
    let mut n = 0;
    for _ in 0..nslots {
        let k = if cost { 800 + r.us(3200) } else if large { 1000 + r.us(6000) } else { size(r, info, pr.cap) };
        n = n.max(k);
        slots.push(Init { bulk: r.chance(1, 2), es: sp.specs(r, k) });
    }
    let big = n > 400;
    let nclients = if big { 1 } else { 1 + r.weighted(&[4, 3, 2, 1]) };
    let len = if big { 5 } else { pr.len };
    let mut g = Gen { r, sp, pr, n, nslots: nslots as u8, default_params: info.default, own_env: info.own_env, name };
    let mut clients = Vec::new();
    for _ in 0..nclients {
        let k = 1 + g.r.us(len);
        let mut ops = Vec::new();
        for j in 0..k {
            // snapshot profiles need something to restore or damage
            let op = if j == 0 && (name == "C11" || name == "C12") {
                Op::Save { s: 0, f: g.r.below(2) as u8, codec: codec(g.r), io: io(g.r, false, false) }
            } else if j == 0 && name == "C14" {
                Op::CloneTo { a: 0, b: 1, from: g.r.chance(1, 3) }
            } else {
                g.op()
            };
            let fault = g.fault(&op);
            ops.push(OpF { op, fault });
        }
        clients.push(ops);
    }
    let r = g.r;
    let sched = if nclients > 1 || r.chance(1, 8) {
        let k = r.us(60);
        (0..k).map(|_| (r.logu(300) as u32, r.below(8) as u8)).collect()
    } else {
        vec![]
    };
    let exact = info.int || info.line || r.chance(4, 5);
    let exp = if info.int || !exact || r.chance(1, 2) { 0 } else { r.range(-info.exp as i64, info.exp as i64) as i8 };
    let verify = if big { 1 } else { 1 + r.below(2) as u8 * (name == "C14" || r.chance(1, 3)) as u8 };
    let battery = 1 + r.below(1 << 30) as u32;
    let off = if exact && exp == 0 { far(r, if info.line { info.far.min(1 << 16) } else { info.far }) } else { 0 };
    Scenario {
        profile: name.to_string(),
        seed,
        combo: combo as u8,
        exact,
        exp,
        off,
        range: info.range,
        slots,
        clients,
        sched,
        verify,
        battery,
        cluster: None,
    }
}

/// A translation of at most `max`: usually none.
pub fn far(r: &mut Rng, max: i64) -> i64 {
    if r.chance(3, 5) {
        return 0;
    }
    let bits = 64 - max.leading_zeros() as u64;
    let m = if r.chance(1, 3) { max } else { max >> r.below(bits) };
    m.max(1) * if r.chance(1, 2) { 1 } else { -1 }
}

pub fn fnv(s: &str) -> u64 {
    s.bytes().fold(0xcbf29ce484222325, |h, b| (h ^ b as u64).wrapping_mul(0x100000001b3))
}

/// Probe queries asked of every tree once a run is quiet.
pub fn battery(r: &mut Rng, env: &Env) -> Vec<AnyQ> {
    let mut sp = plain_space(r, env);
    let mut v = vec![AnyQ::It(Q::All), AnyQ::One(OneQ::Size)];
    for _ in 0..10 {
        v.push(AnyQ::It(sp.q(r, &[0, 1, 4, 4, 3, 4, 3, 1, 2, 2, 1])));
    }
    for _ in 0..8 {
        v.push(AnyQ::One(sp.oneq(r, &[3, 2, 1, 1, 4, 3, 2, 3, 2, 0, 0])));
    }
    v
}
pub fn battery_specs(r: &mut Rng, env: &Env) -> Vec<Spec> {
    let mut sp = plain_space(r, env);
    let n = 1 + r.us(8);
    let mut v = sp.specs(r, n);
    for (i, s) in v.iter_mut().enumerate() {
        s.key = 5000 + i as u16;
    }
    v
}
pub fn plain_space(r: &mut Rng, env: &Env) -> Space {
    let info = Info {
        name: "",
        d: env.d,
        range: env.range,
        int: false,
        line: false,
        max: 6,
        default: false,
        costs: false,
        own_env: false,
        exp: 0,
        far: 0,
    };
    Space::new(r, &info)
}
