//! Objects stored in the trees under test. All of them carry a [`Meta`] with
//! identity, equality key, payload and liveness token; every callback passes
//! through the simulator's hook.
use crate::ctx::*;
use crate::geom::*;
use rstar::primitives::*;
use rstar::*;
use serde::de::DeserializeOwned;
use serde::{Deserialize, Deserializer, Serialize, Serializer};
use std::fmt::Debug;
use std::rc::Rc;
use std::sync::atomic::{AtomicU32, Ordering::Relaxed};
use std::sync::Arc;

// ---------------------------------------------------------------- scalars

pub trait Sc: RTreeNum + Serialize + DeserializeOwned + Default + 'static {
    const FLOAT: bool;
    /// how far from the origin (in grid units) everything may be moved
    const FAR: i64;
    fn from_c(c: i64) -> Self;
    fn f(self) -> f64;
    fn raw(v: f64) -> Self;
}
pub fn scale() -> f64 {
    let c = ctx();
    if c.exact.get() {
        (2.0f64).powi(c.exp.get())
    } else {
        0.1
    }
}
macro_rules! sc_int {
    ($($t:ty, $far:expr);*) => {$(impl Sc for $t {
        const FLOAT: bool = false;
        const FAR: i64 = $far;
        fn from_c(c: i64) -> Self { c as $t }
        fn f(self) -> f64 { self as f64 }
        fn raw(v: f64) -> Self { v as $t }
    })*}
}
sc_int!(i8, 40; i16, 10_000; i32, 1 << 29; i64, 1 << 60; isize, 1 << 60);
macro_rules! sc_float {
    ($($t:ty, $far:expr);*) => {$(impl Sc for $t {
        const FLOAT: bool = true;
        const FAR: i64 = $far;
        fn from_c(c: i64) -> Self { (c as $t) * (scale() as $t) }
        fn f(self) -> f64 { self as f64 }
        fn raw(v: f64) -> Self { v as $t }
    })*}
}
sc_float!(f32, 1 << 13; f64, 1 << 45);

pub type S<P> = <P as Point>::Scalar;

pub trait Pt: Point<Scalar = <Self as Pt>::N> + Serialize + DeserializeOwned + 'static {
    type N: Sc;
    fn of(c: &C) -> Self {
        let off = ctx().off.get();
        // alternately far to the one and to the other side
        Self::generate(|i| Self::N::from_c(c[i] as i64 + if i & 1 == 0 { off } else { -off }))
    }
}
impl<P> Pt for P
where
    P: Point + Serialize + DeserializeOwned + 'static,
    P::Scalar: Sc,
{
    type N = P::Scalar;
}

/// Coordinate scale in the units of `P` (integers are never scaled).
pub fn unit<P: Pt>() -> f64 {
    if <P::N as Sc>::FLOAT {
        scale()
    } else {
        1.0
    }
}
pub fn exact<P: Pt>() -> bool {
    !<P::N as Sc>::FLOAT || ctx().exact.get()
}
fn aabb_of<P: Pt>(b: &B) -> AABB<P> {
    let (lo, hi) = (P::of(&b.lo), P::of(&b.hi));
    // the ways in which callers come by a box
    match (b.lo[0] as i32 * 31 + b.hi[1] as i32 * 7 + b.hi[0] as i32).rem_euclid(6) {
        0 => AABB::from_corners(hi, lo),
        1 => AABB::from_points([&hi, &lo, &hi]),
        2 => AABB::from_bounds(lo, hi),
        3 => AABB::from_point(lo).merged(&AABB::from_point(hi)),
        4 => {
            let mut e = AABB::new_empty();
            e.merge(&AABB::from_corners(lo, hi));
            e
        }
        _ => AABB::from_corners(lo, hi),
    }
}
pub fn env_of<E: EnvT>(b: &B) -> E {
    E::of(aabb_of(b))
}

// ---------------------------------------------------------------- envelopes

/// The envelopes trees are built on: the library's, or the caller's own.
pub trait EnvT: Envelope<Point = <Self as EnvT>::P> + Serialize + DeserializeOwned + 'static {
    type P: Pt;
    fn of(a: AABB<Self::P>) -> Self;
    fn lohi(&self) -> (Self::P, Self::P);
}
impl<P: Pt> EnvT for AABB<P> {
    type P = P;
    fn of(a: AABB<P>) -> Self {
        a
    }
    fn lohi(&self) -> (P, P) {
        (self.lower(), self.upper())
    }
}

/// A box of the caller's own, independent of [`AABB`]. Every method is a
/// callback: it counts as a step, may be preempted and may panic. Nodes are
/// sorted by their upper bounds and partitioned by their centres.
#[derive(Clone, Debug, Serialize, Deserialize)]
#[serde(bound = "P: Pt")]
pub struct Bx<P: Pt> {
    hi: P,
    lo: P,
    empty: bool,
}
fn em() {
    hook(H::EnvM, 0);
}
impl<P: Pt> Bx<P> {
    fn dims(&self) -> impl Iterator<Item = (S<P>, S<P>)> + '_ {
        (0..P::DIMENSIONS).map(|i| (self.lo.nth(i), self.hi.nth(i)))
    }
}
impl<P: Pt> PartialEq for Bx<P> {
    fn eq(&self, o: &Self) -> bool {
        em();
        self.empty && o.empty || self.empty == o.empty && self.lo == o.lo && self.hi == o.hi
    }
}
impl<P: Pt> EnvT for Bx<P> {
    type P = P;
    fn of(a: AABB<P>) -> Self {
        if a.is_empty() {
            quietly(Self::new_empty)
        } else {
            Bx { hi: a.upper(), lo: a.lower(), empty: false }
        }
    }
    fn lohi(&self) -> (P, P) {
        (self.lo.clone(), self.hi.clone())
    }
}
fn zero<P: Pt>() -> S<P> {
    num_traits::Zero::zero()
}
fn one<P: Pt>() -> S<P> {
    num_traits::One::one()
}
impl<P: Pt> Envelope for Bx<P> {
    type Point = P;
    fn new_empty() -> Self {
        em();
        let z = P::generate(|_| zero::<P>());
        Bx { hi: z.clone(), lo: z, empty: true }
    }
    fn is_empty(&self) -> bool {
        em();
        self.empty
    }
    fn contains_point(&self, p: &P) -> bool {
        em();
        !self.empty && (0..P::DIMENSIONS).all(|i| self.lo.nth(i) <= p.nth(i) && p.nth(i) <= self.hi.nth(i))
    }
    fn contains_envelope(&self, o: &Self) -> bool {
        em();
        o.empty
            || !self.empty
                && (0..P::DIMENSIONS).all(|i| self.lo.nth(i) <= o.lo.nth(i) && o.hi.nth(i) <= self.hi.nth(i))
    }
    fn merge(&mut self, o: &Self) {
        em();
        if o.empty {
        } else if self.empty {
            *self = o.clone();
        } else {
            for i in 0..P::DIMENSIONS {
                if o.lo.nth(i) < self.lo.nth(i) {
                    *self.lo.nth_mut(i) = o.lo.nth(i);
                }
                if o.hi.nth(i) > self.hi.nth(i) {
                    *self.hi.nth_mut(i) = o.hi.nth(i);
                }
            }
        }
    }
    fn merged(&self, o: &Self) -> Self {
        em();
        let mut s = self.clone();
        quietly(|| s.merge(o));
        s
    }
    fn intersects(&self, o: &Self) -> bool {
        em();
        !self.empty
            && !o.empty
            && (0..P::DIMENSIONS).all(|i| !(self.hi.nth(i) < o.lo.nth(i) || o.hi.nth(i) < self.lo.nth(i)))
    }
    fn intersection_area(&self, o: &Self) -> S<P> {
        em();
        if self.empty || o.empty {
            return zero::<P>();
        }
        (0..P::DIMENSIONS).fold(one::<P>(), |a, i| {
            let lo = if self.lo.nth(i) > o.lo.nth(i) { self.lo.nth(i) } else { o.lo.nth(i) };
            let hi = if self.hi.nth(i) < o.hi.nth(i) { self.hi.nth(i) } else { o.hi.nth(i) };
            a * if hi > lo { hi - lo } else { zero::<P>() }
        })
    }
    fn area(&self) -> S<P> {
        em();
        if self.empty {
            return zero::<P>();
        }
        self.dims().fold(one::<P>(), |a, (l, h)| a * (h - l))
    }
    fn distance_2(&self, p: &P) -> S<P> {
        em();
        // as close to infinitely far away as the scalar gets
        if self.empty {
            return num_traits::Bounded::max_value();
        }
        (0..P::DIMENSIONS).fold(zero::<P>(), |a, i| {
            let (l, h, x) = (self.lo.nth(i), self.hi.nth(i), p.nth(i));
            let d = if x < l { l - x } else if x > h { x - h } else { zero::<P>() };
            a + d * d
        })
    }
    fn min_max_dist_2(&self, p: &P) -> S<P> {
        em();
        if self.empty {
            return num_traits::Bounded::max_value();
        }
        let near_far = |i: usize| {
            let (a, b) = (self.lo.nth(i) - p.nth(i), self.hi.nth(i) - p.nth(i));
            let (a, b) = (a * a, b * b);
            if a < b { (a, b) } else { (b, a) }
        };
        let mut best: Option<S<P>> = None;
        for i in 0..P::DIMENSIONS {
            let v = (0..P::DIMENSIONS).fold(zero::<P>(), |s, j| {
                let (n, f) = near_far(j);
                s + if i == j { n } else { f }
            });
            if best.is_none_or(|b| v < b) {
                best = Some(v);
            }
        }
        best.unwrap()
    }
    fn center(&self) -> P {
        em();
        let two = one::<P>() + one::<P>();
        P::generate(|i| (self.lo.nth(i) + self.hi.nth(i)) / two)
    }
    fn perimeter_value(&self) -> S<P> {
        em();
        if self.empty {
            return zero::<P>();
        }
        self.dims().fold(zero::<P>(), |a, (l, h)| a + (h - l))
    }
    fn sort_envelopes<T: RTreeObject<Envelope = Self>>(axis: usize, e: &mut [T]) {
        em();
        e.sort_by(|a, b| {
            em();
            a.envelope().hi.nth(axis).partial_cmp(&b.envelope().hi.nth(axis)).unwrap()
        });
    }
    fn partition_envelopes<T: RTreeObject<Envelope = Self>>(axis: usize, e: &mut [T], n: usize) {
        em();
        let c = |t: &T| {
            let e = t.envelope();
            e.lo.nth(axis) + e.hi.nth(axis)
        };
        e.select_nth_unstable_by(n, |a, b| {
            em();
            c(a).partial_cmp(&c(b)).unwrap()
        });
    }
}

/// A point type of the caller's own.
#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub struct Pos<N> {
    pub z: N,
    pub y: N,
    pub x: N,
}
impl<N: Sc> Point for Pos<N> {
    type Scalar = N;
    const DIMENSIONS: usize = 3;
    fn generate(mut f: impl FnMut(usize) -> N) -> Self {
        let (x, y, z) = (f(0), f(1), f(2));
        Pos { z, y, x }
    }
    fn nth(&self, i: usize) -> N {
        match i {
            0 => self.x,
            1 => self.y,
            2 => self.z,
            _ => panic!("coordinate {i} of a point in space"),
        }
    }
    fn nth_mut(&mut self, i: usize) -> &mut N {
        match i {
            0 => &mut self.x,
            1 => &mut self.y,
            2 => &mut self.z,
            _ => panic!("coordinate {i} of a point in space"),
        }
    }
}

// ---------------------------------------------------------------- meta

#[derive(Debug)]
pub struct Meta {
    pub id: u64,
    pub key: u32,
    pub pay: AtomicU32,
    pub tok: Token,
}
impl Meta {
    pub fn new(id: u64, key: u32, pay: u32) -> Meta {
        Meta { id, key, pay: AtomicU32::new(pay), tok: Token::new() }
    }
    pub fn pay(&self) -> u32 {
        self.pay.load(Relaxed)
    }
}
impl PartialEq for Meta {
    fn eq(&self, o: &Meta) -> bool {
        hook(H::Eq, self.id);
        self.key == o.key
    }
}
impl Clone for Meta {
    fn clone(&self) -> Meta {
        hook(H::Clone, self.id);
        Meta::new(self.id, self.key, self.pay())
    }
}
impl Serialize for Meta {
    fn serialize<Z: Serializer>(&self, z: Z) -> Result<Z::Ok, Z::Error> {
        if hook_e(H::Ser, self.id) {
            return Err(serde::ser::Error::custom("injected element error"));
        }
        (self.id, self.key, self.pay()).serialize(z)
    }
}
impl<'de> Deserialize<'de> for Meta {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Meta, D::Error> {
        let (id, key, pay) = <(u64, u32, u32)>::deserialize(d)?;
        if hook_e(H::De, id) {
            return Err(serde::de::Error::custom("injected element error"));
        }
        Ok(Meta::new(id, key, pay))
    }
}

// ---------------------------------------------------------------- shapes

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
#[serde(bound = "P: Pt")]
pub enum Shape<P: Pt> {
    Pt(P),
    Rect(Rectangle<P>),
    Pair(P, P),
    Line(Line<P>),
}

impl<P: Pt> Shape<P> {
    pub fn of(g: &Geom) -> Shape<P> {
        match g {
            Geom::Pt(p) => Shape::Pt(P::of(p)),
            Geom::Rect(a, b) if a[0] & 1 == 0 => {
                Shape::Rect(Rectangle::from_aabb(AABB::from_corners(P::of(b), P::of(a))))
            }
            Geom::Rect(a, b) => Shape::Rect(Rectangle::from_corners(P::of(a), P::of(b))),
            Geom::Pair(a, b) => Shape::Pair(P::of(a), P::of(b)),
            Geom::Line(a, b) | Geom::ILine(a, b) => Shape::Line(Line::new(P::of(a), P::of(b))),
            Geom::Disc(..) => {
                let b = g.b();
                Shape::Rect(Rectangle::from_corners(P::of(&b.lo), P::of(&b.hi)))
            }
        }
    }
    fn env(&self) -> AABB<P> {
        match self {
            Shape::Pt(p) => p.envelope(),
            Shape::Rect(r) => r.envelope(),
            Shape::Pair(a, b) => AABB::from_points([a, b]),
            Shape::Line(l) => l.envelope(),
        }
    }
    fn d2(&self, p: &P) -> S<P> {
        match self {
            Shape::Pt(q) => PointDistance::distance_2(q, p),
            Shape::Rect(r) => PointDistance::distance_2(r, p),
            Shape::Pair(a, b) => {
                let (x, y) = (PointDistance::distance_2(a, p), PointDistance::distance_2(b, p));
                if x < y {
                    x
                } else {
                    y
                }
            }
            Shape::Line(l) => PointDistance::distance_2(l, p),
        }
    }
    fn at(&self, p: &P) -> bool {
        match self {
            Shape::Pt(q) => q.contains_point(p),
            Shape::Rect(r) => r.contains_point(p),
            Shape::Pair(a, b) => a == p || b == p,
            Shape::Line(l) => l.contains_point(p),
        }
    }
    fn d2_le(&self, p: &P, m: S<P>) -> Option<S<P>> {
        match self {
            Shape::Pt(q) => q.distance_2_if_less_or_equal(p, m),
            Shape::Rect(r) => r.distance_2_if_less_or_equal(p, m),
            Shape::Pair(..) => {
                let d = self.d2(p);
                if d <= m {
                    Some(d)
                } else {
                    None
                }
            }
            Shape::Line(l) => l.distance_2_if_less_or_equal(p, m),
        }
    }
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
#[serde(bound = "P: Pt")]
pub struct Obj<P: Pt> {
    pub meta: Meta,
    pub shape: Shape<P>,
}
impl<P: Pt> RTreeObject for Obj<P> {
    type Envelope = AABB<P>;
    fn envelope(&self) -> AABB<P> {
        hook(H::Env, self.meta.id);
        self.shape.env()
    }
}
impl<P: Pt> PointDistance for Obj<P> {
    fn distance_2(&self, p: &P) -> S<P> {
        hook(H::Dist, self.meta.id);
        self.shape.d2(p)
    }
    fn contains_point(&self, p: &P) -> bool {
        hook(H::Contains, self.meta.id);
        self.shape.at(p)
    }
    fn distance_2_if_less_or_equal(&self, p: &P, m: S<P>) -> Option<S<P>> {
        hook(H::DistIf, self.meta.id);
        self.shape.d2_le(p, m)
    }
}

/// As [`Obj`], but only with the trait's required methods (defaults otherwise).
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
#[serde(bound = "P: Pt")]
pub struct Plain<P: Pt> {
    pub meta: Meta,
    pub shape: Shape<P>,
}
impl<P: Pt> RTreeObject for Plain<P> {
    type Envelope = AABB<P>;
    fn envelope(&self) -> AABB<P> {
        hook(H::Env, self.meta.id);
        self.shape.env()
    }
}
impl<P: Pt> PointDistance for Plain<P> {
    fn distance_2(&self, p: &P) -> S<P> {
        hook(H::Dist, self.meta.id);
        self.shape.d2(p)
    }
}

/// As [`Plain`], in whatever envelopes.
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
#[serde(bound = "E: EnvT")]
pub struct Own<E: EnvT> {
    pub meta: Meta,
    pub shape: Shape<E::P>,
}
impl<E: EnvT> RTreeObject for Own<E> {
    type Envelope = E;
    fn envelope(&self) -> E {
        hook(H::Env, self.meta.id);
        E::of(self.shape.env())
    }
}
impl<E: EnvT> PointDistance for Own<E> {
    fn distance_2(&self, p: &E::P) -> S<E::P> {
        hook(H::Dist, self.meta.id);
        self.shape.d2(p)
    }
}

// ---------------------------------------------------------------- items

pub trait Item:
    PointDistance<Envelope = <Self as Item>::E>
    + PartialEq
    + Clone
    + Debug
    + Serialize
    + DeserializeOwned
    + 'static
{
    type P: Pt;
    type E: EnvT<P = Self::P>;
    const KINDS: u8;
    /// payload can be edited through `&mut` without affecting clones
    const EDIT: bool = true;
    /// also run the battery of consumption styles (a matter of build time)
    const STYLES: bool = false;
    /// every callback is a step, so that costs can be measured
    const COSTS: bool = false;
    /// methods of its envelopes are callbacks
    const OWN_ENV: bool = false;
    fn make(m: Meta, g: &Geom) -> Self;
    fn meta(&self) -> &Meta;
    fn set_pay(&mut self, v: u32) {
        self.meta().pay.store(v, Relaxed);
    }
    /// the stored geometry is exactly `g`
    fn same_geom(&self, g: &Geom) -> bool;
}

impl<P: Pt> Item for Obj<P> {
    type P = P;
    type E = AABB<P>;
    const COSTS: bool = P::DIMENSIONS <= 3;
    const KINDS: u8 = G_PT | G_RECT | G_PAIR;
    const STYLES: bool = P::DIMENSIONS == 2;
    fn make(meta: Meta, g: &Geom) -> Self {
        Obj { meta, shape: Shape::of(g) }
    }
    fn meta(&self) -> &Meta {
        &self.meta
    }
    fn same_geom(&self, g: &Geom) -> bool {
        self.shape == Shape::of(g)
    }
}
impl<P: Pt> Item for Plain<P> {
    type P = P;
    type E = AABB<P>;
    const COSTS: bool = P::DIMENSIONS <= 3;
    const KINDS: u8 = G_PT | G_RECT | G_PAIR;
    fn make(meta: Meta, g: &Geom) -> Self {
        Plain { meta, shape: Shape::of(g) }
    }
    fn meta(&self) -> &Meta {
        &self.meta
    }
    fn same_geom(&self, g: &Geom) -> bool {
        self.shape == Shape::of(g)
    }
}
impl<E: EnvT> Item for Own<E> {
    type P = E::P;
    type E = E;
    const OWN_ENV: bool = true;
    const COSTS: bool = true;
    const STYLES: bool = <E::P as Point>::DIMENSIONS == 3;
    const KINDS: u8 = G_PT | G_RECT | G_PAIR;
    fn make(meta: Meta, g: &Geom) -> Self {
        Own { meta, shape: Shape::of(g) }
    }
    fn meta(&self) -> &Meta {
        &self.meta
    }
    fn same_geom(&self, g: &Geom) -> bool {
        self.shape == Shape::of(g)
    }
}
impl<P: Pt> Item for Arc<Obj<P>> {
    type P = P;
    type E = AABB<P>;
    const COSTS: bool = P::DIMENSIONS <= 3;
    const KINDS: u8 = G_PT | G_RECT | G_PAIR;
    const EDIT: bool = false;
    fn make(m: Meta, g: &Geom) -> Self {
        Arc::new(Obj::make(m, g))
    }
    fn meta(&self) -> &Meta {
        &self.meta
    }
    fn same_geom(&self, g: &Geom) -> bool {
        (**self).same_geom(g)
    }
}
impl<P: Pt> Item for Rc<Obj<P>> {
    type P = P;
    type E = AABB<P>;
    const COSTS: bool = P::DIMENSIONS <= 3;
    const KINDS: u8 = G_PT | G_RECT | G_PAIR;
    const EDIT: bool = false;
    fn make(m: Meta, g: &Geom) -> Self {
        Rc::new(Obj::make(m, g))
    }
    fn meta(&self) -> &Meta {
        &self.meta
    }
    fn same_geom(&self, g: &Geom) -> bool {
        (**self).same_geom(g)
    }
}
impl<P: Pt> Item for CachedEnvelope<Obj<P>> {
    type P = P;
    type E = AABB<P>;
    const KINDS: u8 = G_PT | G_RECT | G_PAIR;
    const STYLES: bool = P::DIMENSIONS == 2;
    fn make(m: Meta, g: &Geom) -> Self {
        quietly(|| CachedEnvelope::new(Obj::make(m, g)))
    }
    fn meta(&self) -> &Meta {
        &self.meta
    }
    fn same_geom(&self, g: &Geom) -> bool {
        (**self).same_geom(g)
    }
}
impl<X: Sc, const D: usize> Item for GeomWithData<[X; D], Meta>
where
    [X; D]: Pt,
{
    type P = [X; D];
    type E = AABB<[X; D]>;
    const KINDS: u8 = G_PT;
    const STYLES: bool = true;
    fn make(m: Meta, g: &Geom) -> Self {
        GeomWithData::new(Pt::of(&g.corner(0)), m)
    }
    fn meta(&self) -> &Meta {
        &self.data
    }
    fn set_pay(&mut self, v: u32) {
        *self.data.pay.get_mut() = v;
    }
    fn same_geom(&self, g: &Geom) -> bool {
        *self.geom() == <[X; D] as Pt>::of(&g.corner(0))
    }
}
impl<P: Pt> Item for GeomWithData<Rectangle<P>, Meta> {
    type P = P;
    type E = AABB<P>;
    const KINDS: u8 = G_RECT;
    fn make(m: Meta, g: &Geom) -> Self {
        let b = g.b();
        GeomWithData::new(Rectangle::from_corners(P::of(&b.lo), P::of(&b.hi)), m)
    }
    fn meta(&self) -> &Meta {
        &self.data
    }
    fn set_pay(&mut self, v: u32) {
        *self.data.pay.get_mut() = v;
    }
    fn same_geom(&self, g: &Geom) -> bool {
        let b = g.b();
        self.geom().lower() == P::of(&b.lo) && self.geom().upper() == P::of(&b.hi)
    }
}
impl<P: Pt> Item for GeomWithData<Line<P>, Meta> {
    type P = P;
    type E = AABB<P>;
    const KINDS: u8 = if <S<P> as Sc>::FLOAT { G_LINE } else { G_ILINE };
    const STYLES: bool = true;
    fn make(m: Meta, g: &Geom) -> Self {
        GeomWithData::new(Line::new(P::of(&g.corner(0)), P::of(&g.corner(1))), m)
    }
    fn meta(&self) -> &Meta {
        &self.data
    }
    fn set_pay(&mut self, v: u32) {
        *self.data.pay.get_mut() = v;
    }
    fn same_geom(&self, g: &Geom) -> bool {
        self.geom().from == P::of(&g.corner(0)) && self.geom().to == P::of(&g.corner(1))
    }
}
/// A disc as in the library's documentation: its squared distance is computed
/// through a square root and rounds differently from the library's own bounds.
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Disc {
    pub c: [f64; 2],
    pub r: f64,
}
impl RTreeObject for Disc {
    type Envelope = AABB<[f64; 2]>;
    fn envelope(&self) -> Self::Envelope {
        AABB::from_center(self.c, self.r)
    }
}
impl PointDistance for Disc {
    fn distance_2(&self, p: &[f64; 2]) -> f64 {
        let (x, y) = (p[0] - self.c[0], p[1] - self.c[1]);
        let v = ((x * x + y * y).sqrt() - self.r).max(0.0);
        v * v
    }
}
impl Item for GeomWithData<Disc, Meta> {
    type P = [f64; 2];
    type E = AABB<[f64; 2]>;
    const KINDS: u8 = G_DISC;
    fn make(m: Meta, g: &Geom) -> Self {
        let Geom::Disc(c, r) = g else { unreachable!() };
        GeomWithData::new(Disc { c: Pt::of(c), r: f64::from_c(*r as i64) }, m)
    }
    fn meta(&self) -> &Meta {
        &self.data
    }
    fn set_pay(&mut self, v: u32) {
        *self.data.pay.get_mut() = v;
    }
    fn same_geom(&self, g: &Geom) -> bool {
        matches!(g, Geom::Disc(c, r) if self.geom().c == <[f64; 2] as Pt>::of(c) && self.geom().r == f64::from_c(*r as i64))
    }
}
impl<P: Pt> Item for GeomWithData<CachedEnvelope<Line<P>>, Meta> {
    type P = P;
    type E = AABB<P>;
    const KINDS: u8 = if <S<P> as Sc>::FLOAT { G_LINE } else { G_ILINE };
    fn make(m: Meta, g: &Geom) -> Self {
        GeomWithData::new(CachedEnvelope::new(Line::new(P::of(&g.corner(0)), P::of(&g.corner(1)))), m)
    }
    fn meta(&self) -> &Meta {
        &self.data
    }
    fn set_pay(&mut self, v: u32) {
        *self.data.pay.get_mut() = v;
    }
    fn same_geom(&self, g: &Geom) -> bool {
        self.geom().from == P::of(&g.corner(0)) && self.geom().to == P::of(&g.corner(1))
    }
}
impl<P: Pt> Item for GeomWithData<CachedEnvelope<Obj<P>>, u32> {
    type P = P;
    type E = AABB<P>;
    const KINDS: u8 = G_PT | G_RECT | G_PAIR;
    fn make(m: Meta, g: &Geom) -> Self {
        let key = m.key;
        GeomWithData::new(CachedEnvelope::make(m, g), key)
    }
    fn meta(&self) -> &Meta {
        &self.geom().meta
    }
    fn same_geom(&self, g: &Geom) -> bool {
        self.geom().same_geom(g) && self.data == self.meta().key
    }
}
impl<P: Pt> Item for PointWithData<Meta, P> {
    type P = P;
    type E = AABB<P>;
    const KINDS: u8 = G_PT;
    fn make(m: Meta, g: &Geom) -> Self {
        #[allow(deprecated)]
        PointWithData::new(m, P::of(&g.corner(0)))
    }
    fn meta(&self) -> &Meta {
        &self.data
    }
    fn set_pay(&mut self, v: u32) {
        *self.data.pay.get_mut() = v;
    }
    fn same_geom(&self, g: &Geom) -> bool {
        *self.position() == P::of(&g.corner(0))
    }
}

// ---------------------------------------------------------------- parameters

#[derive(Clone)]
pub struct Pm<const MIN: usize, const MAX: usize, const RE: usize>;
impl<const MIN: usize, const MAX: usize, const RE: usize> RTreeParams for Pm<MIN, MAX, RE> {
    const MIN_SIZE: usize = MIN;
    const MAX_SIZE: usize = MAX;
    const REINSERTION_COUNT: usize = RE;
    type DefaultInsertionStrategy = RStarInsertionStrategy;
}
