//! Independent integer geometry: the oracle side of every spatial question.
use serde::{Deserialize, Serialize};

pub const MAXD: usize = 10;
pub type C = [i16; MAXD];

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum Geom {
    Pt(C),
    Rect(C, C),
    /// two separate points: distance to the nearer one, envelope spans both
    Pair(C, C),
    Line(C, C),
    /// a line with integer coordinates: the library computes the position of
    /// the nearest point in integers, so it is always one of the ends
    ILine(C, C),
    /// centre and radius
    Disc(C, i16),
}

pub const G_PT: u8 = 1;
pub const G_RECT: u8 = 2;
pub const G_PAIR: u8 = 4;
pub const G_LINE: u8 = 8;
pub const G_DISC: u8 = 16;
pub const G_ILINE: u8 = 32;
/// kinds whose distances are not integers
pub const G_INEX: u8 = G_LINE | G_DISC;

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub struct B {
    pub lo: C,
    pub hi: C,
}

impl B {
    pub fn of(a: C, b: C) -> B {
        let mut lo = a;
        let mut hi = a;
        for i in 0..MAXD {
            lo[i] = a[i].min(b[i]);
            hi[i] = a[i].max(b[i]);
        }
        B { lo, hi }
    }
    pub fn contains(&self, o: &B, d: usize) -> bool {
        (0..d).all(|i| self.lo[i] <= o.lo[i] && self.hi[i] >= o.hi[i])
    }
    pub fn contains_pt(&self, p: &C, d: usize) -> bool {
        (0..d).all(|i| self.lo[i] <= p[i] && self.hi[i] >= p[i])
    }
    pub fn intersects(&self, o: &B, d: usize) -> bool {
        (0..d).all(|i| self.lo[i] <= o.hi[i] && self.hi[i] >= o.lo[i])
    }
    pub fn d2(&self, p: &C, d: usize) -> i64 {
        (0..d)
            .map(|i| {
                let v = (self.lo[i] as i64 - p[i] as i64)
                    .max(p[i] as i64 - self.hi[i] as i64)
                    .max(0);
                v * v
            })
            .sum()
    }
}

pub fn pd2(a: &C, b: &C, d: usize) -> i64 {
    (0..d)
        .map(|i| {
            let v = a[i] as i64 - b[i] as i64;
            v * v
        })
        .sum()
}

impl Geom {
    pub fn b(&self) -> B {
        match self {
            Geom::Pt(p) => B { lo: *p, hi: *p },
            Geom::Rect(a, b) | Geom::Pair(a, b) | Geom::Line(a, b) | Geom::ILine(a, b) => B::of(*a, *b),
            Geom::Disc(c, r) => B { lo: c.map(|v| v - r), hi: c.map(|v| v + r) },
        }
    }
    /// Squared distance in grid units; `None` where it is not an integer.
    pub fn d2(&self, p: &C, d: usize) -> Option<i64> {
        Some(match self {
            Geom::Pt(a) => pd2(a, p, d),
            Geom::Rect(..) => self.b().d2(p, d),
            Geom::Pair(a, b) => pd2(a, p, d).min(pd2(b, p, d)),
            Geom::ILine(a, b) => {
                let dot: i64 = (0..d).map(|i| (p[i] as i64 - a[i] as i64) * (b[i] as i64 - a[i] as i64)).sum();
                // beyond the end only if projected there; the start otherwise
                let at = if dot > 0 && dot >= pd2(a, b, d) { b } else { a };
                pd2(at, p, d)
            }
            Geom::Line(..) | Geom::Disc(..) => return None,
        })
    }
    /// Squared distance in grid units as a float (lines included).
    pub fn d2f(&self, p: &C, d: usize) -> f64 {
        match self {
            Geom::Line(a, b) => {
                let f = |c: &C, i: usize| c[i] as f64;
                let (mut dot, mut len) = (0.0, 0.0);
                for i in 0..d {
                    let u = f(b, i) - f(a, i);
                    dot += (f(p, i) - f(a, i)) * u;
                    len += u * u;
                }
                let s = if len == 0.0 { 0.0 } else { (dot / len).clamp(0.0, 1.0) };
                (0..d)
                    .map(|i| {
                        let v = f(a, i) + s * (f(b, i) - f(a, i)) - f(p, i);
                        v * v
                    })
                    .sum()
            }
            Geom::Disc(c, r) => {
                let v = ((pd2(c, p, d) as f64).sqrt() - *r as f64).max(0.0);
                v * v
            }
            _ => self.d2(p, d).unwrap() as f64,
        }
    }
    /// Three-valued "contains the point" (lines can be too close to call).
    pub fn at(&self, p: &C, d: usize) -> Tri {
        match self {
            Geom::Pt(a) => Tri::of((0..d).all(|i| a[i] == p[i])),
            Geom::Rect(..) => Tri::of(self.b().contains_pt(p, d)),
            Geom::Pair(..) | Geom::ILine(..) => Tri::of(self.d2(p, d) == Some(0)),
            Geom::Disc(c, r) => Tri::of(pd2(c, p, d) <= *r as i64 * *r as i64),
            Geom::Line(a, b) => {
                if (0..d).all(|i| a[i] == p[i]) || (0..d).all(|i| b[i] == p[i]) {
                    Tri::Yes
                } else if self.d2f(p, d) < 1e-6 {
                    Tri::Maybe
                } else {
                    Tri::No
                }
            }
        }
    }
    pub fn inexact(&self) -> bool {
        matches!(self, Geom::Line(..) | Geom::Disc(..))
    }
    pub fn corner(&self, k: u8) -> C {
        match self {
            Geom::Pt(p) | Geom::Disc(p, _) => *p,
            Geom::Rect(a, b) | Geom::Pair(a, b) | Geom::Line(a, b) | Geom::ILine(a, b) => {
                if k & 1 == 0 {
                    *a
                } else {
                    *b
                }
            }
        }
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Tri {
    Yes,
    No,
    Maybe,
}
impl Tri {
    pub fn of(b: bool) -> Tri {
        if b {
            Tri::Yes
        } else {
            Tri::No
        }
    }
}
