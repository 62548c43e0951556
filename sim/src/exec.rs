//! Executes one scenario against the real library: client coroutines under
//! the seeded scheduler, a per-tree reader/writer lock, and a reference model
//! (a sorted vector of elements) that every answer is checked against.
use crate::ctx::*;
use crate::disk::*;
use crate::geom::*;
use crate::item::*;
use crate::rng::{mix, Rng};
use crate::scenario::*;
use corosensei::stack::DefaultStack;
use corosensei::{Coroutine, CoroutineResult};
use rstar::*;
use serde::{Deserialize, Serialize};
use std::any::Any;
use std::cell::{Cell, RefCell, UnsafeCell};
use std::ops::ControlFlow;

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub struct El {
    pub id: u64,
    pub key: u32,
    pub g: Geom,
    pub pay: u32,
}

#[derive(Clone, Copy, Debug)]
pub struct SelR {
    pub b: Option<B>,
    pub parent: u8,
    pub k: u32,
    pub r: u32,
    pub inside: bool,
}

/// A query with all coordinates resolved. `None` boxes are empty.
#[derive(Clone, Copy, Debug)]
pub enum RQ {
    All,
    InEnv(Option<B>),
    Isect(Option<B>),
    At(C),
    Within(C, R2),
    Sel(SelR),
    Nn(C),
}
#[derive(Clone, Copy, Debug)]
pub enum R2 {
    Val(i64),
    Max,
}

pub const TOL64: f64 = 1e-7;
pub const TOL32: f64 = 3e-3;

/// Facts about the item type of a world that the oracle needs.
#[derive(Clone, Copy, Debug)]
pub struct Env {
    pub d: usize,
    pub range: i16,
    pub exact: bool,
    /// units per grid step
    pub unit: f64,
    pub tol: f64,
}

impl Env {
    pub fn of<P: Pt>(range: i16) -> Env {
        let f32ish = std::mem::size_of::<P::N>() == 4 && <P::N as Sc>::FLOAT;
        Env {
            d: P::DIMENSIONS,
            range,
            exact: exact::<P>(),
            unit: unit::<P>(),
            tol: if f32ish { TOL32 } else { TOL64 },
        }
    }
    /// do two squared distances (grid units) agree?
    pub fn close(&self, a: f64, b: f64, line: bool) -> bool {
        if self.exact && !line {
            a == b
        } else {
            (a - b).abs() <= self.tol * (1.0 + a.abs().max(b.abs()))
        }
    }
    pub fn matches(&self, q: &RQ, e: &El) -> Tri {
        let d = self.d;
        match q {
            RQ::All | RQ::Nn(_) => Tri::Yes,
            RQ::InEnv(b) => Tri::of(b.is_some_and(|b| b.contains(&e.g.b(), d))),
            RQ::Isect(b) => Tri::of(b.is_some_and(|b| b.intersects(&e.g.b(), d))),
            RQ::At(p) => e.g.at(p, d),
            RQ::Within(p, r) => match r {
                R2::Max => Tri::Yes,
                R2::Val(r) => match e.g.d2(p, d) {
                    // in rough mode the radius is r + 0.5 grid units, never a tie
                    Some(v) => Tri::of(v <= *r),
                    None => {
                        let v = e.g.d2f(p, d);
                        let r = *r as f64 + 0.5;
                        if (v - r).abs() < 1e-6 * (1.0 + r.abs()) {
                            Tri::Maybe
                        } else {
                            Tri::of(v <= r)
                        }
                    }
                },
            },
            RQ::Sel(s) => {
                if s.parent == 2 {
                    return Tri::No;
                }
                let geo = match s.b {
                    None => s.parent == 1 && !s.inside,
                    Some(b) => {
                        if s.inside {
                            b.contains(&e.g.b(), d)
                        } else {
                            b.intersects(&e.g.b(), d)
                        }
                    }
                };
                Tri::of(geo && e.key % s.k == s.r)
            }
        }
    }
    pub fn pt(&self, p: &PtS, m: &[El]) -> C {
        let mut c = match p {
            PtS::Abs(c) => *c,
            PtS::Elem(i, k, off) => {
                if m.is_empty() {
                    [0; MAXD]
                } else {
                    let mut c = m[*i as usize % m.len()].g.corner(*k);
                    for j in 0..MAXD {
                        c[j] += off[j] as i16;
                    }
                    c
                }
            }
        };
        for v in c.iter_mut() {
            *v = (*v).clamp(-self.range, self.range);
        }
        c
    }
    pub fn boxs(&self, b: &BoxS, m: &[El]) -> Option<B> {
        let mut r = match b {
            BoxS::Abs(a, b) => B::of(*a, *b),
            BoxS::Elem(i, g) => {
                if m.is_empty() {
                    B { lo: [0; MAXD], hi: [0; MAXD] }
                } else {
                    let b = m[*i as usize % m.len()].g.b();
                    let mut lo = b.lo;
                    let mut hi = b.hi;
                    for j in 0..MAXD {
                        lo[j] -= *g as i16;
                        hi[j] += *g as i16;
                    }
                    B::of(lo, hi)
                }
            }
            BoxS::Two(i, j) => {
                if m.is_empty() {
                    B { lo: [0; MAXD], hi: [0; MAXD] }
                } else {
                    let a = m[*i as usize % m.len()].g.corner(0);
                    let b = m[*j as usize % m.len()].g.corner(1);
                    B::of(a, b)
                }
            }
            BoxS::Nil => return None,
        };
        for j in 0..MAXD {
            r.lo[j] = r.lo[j].clamp(-self.range, self.range);
            r.hi[j] = r.hi[j].clamp(-self.range, self.range);
        }
        Some(r)
    }
    fn r2(&self, r: &R2S, p: &C, m: &[El]) -> R2 {
        match r {
            R2S::Val(v) => R2::Val(*v),
            R2S::Max => R2::Max,
            R2S::ToElem(i, dl) => {
                if m.is_empty() {
                    R2::Val(*dl as i64)
                } else {
                    let e = &m[*i as usize % m.len()];
                    R2::Val(e.g.d2(p, self.d).unwrap_or(e.g.d2f(p, self.d) as i64) + *dl as i64)
                }
            }
        }
    }
    pub fn sel(&self, s: &SelS, m: &[El]) -> SelR {
        SelR {
            b: self.boxs(&s.b, m),
            parent: s.parent % 3,
            k: (s.k as u32).max(1),
            r: s.r as u32 % (s.k as u32).max(1),
            inside: s.inside,
        }
    }
    pub fn rq(&self, q: &Q, m: &[El]) -> RQ {
        match q {
            Q::All | Q::AllRef | Q::SelDef => RQ::All,
            Q::InEnv(b) => RQ::InEnv(self.boxs(b, m)),
            Q::Isect(b) => RQ::Isect(self.boxs(b, m)),
            Q::At(p) => RQ::At(self.pt(p, m)),
            Q::Within(p, r) => {
                let p = self.pt(p, m);
                RQ::Within(p, self.r2(r, &p, m))
            }
            Q::Sel(s) => RQ::Sel(self.sel(s, m)),
            Q::NnIter(p) | Q::NnD(p) | Q::NnDep(p) => RQ::Nn(self.pt(p, m)),
        }
    }
    pub fn same_geom(&self, a: &Geom, b: &Geom, kinds: u8) -> bool {
        let d = self.d;
        let eqc = |x: &C, y: &C| x[..d] == y[..d];
        let a = canon(*a, kinds);
        let b = canon(*b, kinds);
        match (&a, &b) {
            (Geom::Pt(x), Geom::Pt(y)) => eqc(x, y),
            (Geom::Rect(..), Geom::Rect(..)) => {
                let (x, y) = (a.b(), b.b());
                eqc(&x.lo, &y.lo) && eqc(&x.hi, &y.hi)
            }
            (Geom::Pair(x, y), Geom::Pair(u, v))
            | (Geom::Line(x, y), Geom::Line(u, v))
            | (Geom::ILine(x, y), Geom::ILine(u, v)) => {
                eqc(x, u) && eqc(y, v)
            }
            (Geom::Disc(x, r), Geom::Disc(u, v)) => eqc(x, u) && r == v,
            _ => false,
        }
    }
}

/// Turn a geometry into one the item type can hold.
pub fn canon(g: Geom, kinds: u8) -> Geom {
    let k = match g {
        Geom::Pt(_) => G_PT,
        Geom::Rect(..) => G_RECT,
        Geom::Pair(..) => G_PAIR,
        Geom::Line(..) => G_LINE,
        Geom::Disc(..) => G_DISC,
        Geom::ILine(..) => G_ILINE,
    };
    if kinds & k != 0 {
        return g;
    }
    let (a, b) = (g.corner(0), g.corner(1));
    if kinds & G_DISC != 0 {
        Geom::Disc(a, (a[0].abs_diff(b[0]) % 64) as i16)
    } else if kinds & G_LINE != 0 {
        Geom::Line(a, b)
    } else if kinds & G_ILINE != 0 {
        Geom::ILine(a, b)
    } else if kinds & G_RECT != 0 {
        Geom::Rect(a, b)
    } else {
        Geom::Pt(a)
    }
}

// ------------------------------------------------------------ library glue

pub struct SelF<E> {
    pub env: E,
    pub r: SelR,
}
pub fn sel_env<E: EnvT>(b: &Option<B>) -> E {
    match b {
        Some(b) => env_of(b),
        None => quietly(E::new_empty),
    }
}
impl<E: EnvT> SelF<E> {
    pub fn new(r: &SelR) -> Self {
        SelF { env: sel_env(&r.b), r: *r }
    }
}
impl<T: Item> SelectionFunction<T> for SelF<T::E> {
    fn should_unpack_parent(&self, e: &T::E) -> bool {
        hook(H::SelP, 0);
        match self.r.parent {
            0 => self.env.intersects(e),
            1 => true,
            _ => false,
        }
    }
    fn should_unpack_leaf(&self, t: &T) -> bool {
        hook(H::SelL, t.meta().id);
        let e = quietly(|| t.envelope());
        let geo = if self.r.b.is_none() {
            self.r.parent == 1 && !self.r.inside
        } else if self.r.inside {
            self.env.contains_envelope(&e)
        } else {
            self.env.intersects(&e)
        };
        geo && t.meta().key % self.r.k == self.r.r
    }
}
/// Uses the trait's default `should_unpack_leaf`.
pub struct SelDefault;
impl<T: Item> SelectionFunction<T> for SelDefault {
    fn should_unpack_parent(&self, _: &T::E) -> bool {
        hook(H::SelP, 1);
        true
    }
}

pub type TreeIter<'a, T> = Box<dyn Iterator<Item = (&'a T, Option<f64>)> + 'a>;

pub fn radius<T: Item>(r: &R2) -> S<T::P> {
    radius_p::<T::P>(r, T::KINDS & G_INEX != 0)
}
fn radius_p<P: Pt>(r: &R2, line: bool) -> S<P> {
    match r {
        R2::Max => <S<P> as num_traits::Bounded>::max_value(),
        R2::Val(v) => {
            if <P::N as Sc>::FLOAT {
                let u = unit::<P>();
                let half = if exact::<P>() && !line { 0.0 } else { 0.5 };
                P::N::raw((*v as f64 + half) * u * u)
            } else {
                P::N::from_c(*v)
            }
        }
    }
}

/// Evaluate an expression with the iterator a query opens and the function
/// that turns its items into (object, reported squared distance).
#[macro_export]
macro_rules! with_query {
    ($T:ty, $t:expr, $q:expr, $rq:expr, |$it:ident, $f:ident| $b:expr) => {{
        macro_rules! b {
            ($e:expr) => {{
                let $it = $e;
                let $f = |x| (x, None);
                $b
            }};
            ($e:expr, dist) => {{
                let $it = $e;
                let $f = |(x, d): (_, S<<$T as Item>::P>)| (x, Some(d.f()));
                $b
            }};
        }
        match ($q, $rq) {
            (Q::All, _) => b!($t.iter()),
            (Q::AllRef, _) => b!($t.into_iter()),
            (Q::SelDef, _) => b!($t.locate_with_selection_function(SelDefault)),
            (_, RQ::InEnv(x)) => b!($t.locate_in_envelope(sel_env(x))),
            (_, RQ::Isect(x)) => b!($t.locate_in_envelope_intersecting(sel_env(x))),
            (_, RQ::At(p)) => b!($t.locate_all_at_point(<<$T as Item>::P>::of(p))),
            (_, RQ::Within(p, r)) => {
                b!($t.locate_within_distance(<<$T as Item>::P>::of(p), radius::<$T>(r)))
            }
            (_, RQ::Sel(s)) => {
                b!($t.locate_with_selection_function(SelF::<<$T as Item>::E>::new(s)))
            }
            (Q::NnD(_), RQ::Nn(p)) => {
                b!($t.nearest_neighbor_iter_with_distance_2(<<$T as Item>::P>::of(p)), dist)
            }
            (Q::NnDep(_), RQ::Nn(p)) => {
                b!($t.nearest_neighbor_iter_with_distance(<<$T as Item>::P>::of(p)), dist)
            }
            (_, RQ::Nn(p)) => b!($t.nearest_neighbor_iter(<<$T as Item>::P>::of(p))),
            _ => b!($t.iter()),
        }
    }};
}

#[allow(deprecated)]
pub fn open<'a, T: Item, Pr: RTreeParams>(
    t: &'a RTree<T, Pr>,
    q: &Q,
    rq: &RQ,
) -> TreeIter<'a, T> {
    with_query!(T, t, q, rq, |it, f| Box::new(Hint(it, f)))
}

/// `map` that does not hide a wrong size hint.
pub struct Hint<I, F>(pub I, pub F);
impl<I: Iterator, F: FnMut(I::Item) -> O, O> Iterator for Hint<I, F> {
    type Item = O;
    fn next(&mut self) -> Option<O> {
        self.0.next().map(&mut self.1)
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.0.size_hint()
    }
    fn nth(&mut self, n: usize) -> Option<O> {
        self.0.nth(n).map(&mut self.1)
    }
    fn count(self) -> usize {
        self.0.count()
    }
    fn last(self) -> Option<O> {
        self.0.last().map(self.1)
    }
    fn fold<B, G: FnMut(B, O) -> B>(self, b: B, mut g: G) -> B {
        let mut f = self.1;
        self.0.fold(b, |b, x| g(b, f(x)))
    }
}

#[macro_export]
macro_rules! with_drain {
    ($T:ty, $t:expr, $q:expr, $rq:expr, |$it:ident| $b:expr) => {{
        macro_rules! b {
            ($e:expr) => {{
                let $it = $e;
                $b
            }};
        }
        match ($q, $rq) {
            (Q::SelDef, _) => b!($t.drain_with_selection_function(SelDefault)),
            (_, RQ::InEnv(x)) => b!($t.drain_in_envelope(sel_env(x))),
            (_, RQ::Isect(x)) => b!($t.drain_in_envelope_intersecting(sel_env(x))),
            (_, RQ::Within(p, r)) => {
                b!($t.drain_within_distance(<<$T as Item>::P>::of(p), radius::<$T>(r)))
            }
            (_, RQ::Sel(s)) => {
                b!($t.drain_with_selection_function(SelF::<<$T as Item>::E>::new(s)))
            }
            _ => b!($t.drain()),
        }
    }};
}
pub fn open_drain<'a, T: Item, Pr: RTreeParams>(
    t: &'a mut RTree<T, Pr>,
    q: &Q,
    rq: &RQ,
) -> Box<dyn Iterator<Item = T> + 'a> {
    with_drain!(T, t, q, rq, |it| Box::new(it))
}
/// Queries the drain methods cannot express fall back to draining everything.
pub fn drain_rq(rq: RQ) -> RQ {
    match rq {
        RQ::At(_) | RQ::Nn(_) => RQ::All,
        o => o,
    }
}

#[macro_export]
macro_rules! with_mut {
    ($T:ty, $t:expr, $q:expr, $rq:expr, |$it:ident| $b:expr) => {{
        macro_rules! b {
            ($e:expr) => {{
                let $it = $e;
                $b
            }};
        }
        match ($q, $rq) {
            (Q::AllRef, _) => b!($t.into_iter()),
            (Q::SelDef, _) => b!($t.locate_with_selection_function_mut(SelDefault)),
            (_, RQ::InEnv(x)) => b!($t.locate_in_envelope_mut(sel_env(x))),
            (_, RQ::Isect(x)) => b!($t.locate_in_envelope_intersecting_mut(sel_env(x))),
            (_, RQ::At(p)) => b!($t.locate_all_at_point_mut(<<$T as Item>::P>::of(p))),
            (_, RQ::Sel(s)) => {
                b!($t.locate_with_selection_function_mut(SelF::<<$T as Item>::E>::new(s)))
            }
            _ => b!($t.iter_mut()),
        }
    }};
}
pub fn open_mut<'a, T: Item, Pr: RTreeParams>(
    t: &'a mut RTree<T, Pr>,
    q: &Q,
    rq: &RQ,
) -> Box<dyn Iterator<Item = &'a mut T> + 'a> {
    with_mut!(T, t, q, rq, |it| Box::new(it))
}
pub fn mut_rq(rq: RQ) -> RQ {
    match rq {
        RQ::Within(..) | RQ::Nn(_) => RQ::All,
        o => o,
    }
}
fn visit_rq(rq: RQ, env: &Env) -> RQ {
    match rq {
        RQ::InEnv(_) | RQ::Isect(_) | RQ::At(_) => rq,
        _ => RQ::Isect(Some(B { lo: [-env.range; MAXD], hi: [env.range; MAXD] })),
    }
}

// ------------------------------------------------------------ expectations

/// What a traversal may and must yield, and what it has yielded so far.
pub struct Expect {
    ids: Vec<(u64, Tri, bool)>,
    pub must: usize,
    pub may: usize,
    got: usize,
    /// of those, the objects that had to be yielded
    yes_seen: usize,
    dists: Vec<f64>,
    last: f64,
    nn: Option<C>,
}
impl Expect {
    pub fn new(env: &Env, rq: &RQ, m: &[El]) -> Expect {
        let mut ids = Vec::new();
        let (mut must, mut may) = (0, 0);
        for e in m {
            let t = env.matches(rq, e);
            if t == Tri::Yes {
                must += 1;
            }
            if t != Tri::No {
                may += 1;
            }
            ids.push((e.id, t, false));
        }
        let mut dists = Vec::new();
        let mut nn = None;
        if let RQ::Nn(p) = rq {
            nn = Some(*p);
            dists = m.iter().map(|e| e.g.d2f(p, env.d)).collect();
            dists.sort_by(|a, b| a.partial_cmp(b).unwrap());
        }
        Expect { ids, must, may, got: 0, yes_seen: 0, dists, last: -1.0, nn }
    }
    pub fn got(&self) -> usize {
        self.got
    }
    pub fn is_nn(&self) -> bool {
        self.nn.is_some()
    }
    /// `n` objects were passed over unseen.
    pub fn skip(&mut self, n: usize) {
        self.got += n;
    }
    /// Record one yielded object.
    pub fn yielded<T: Item>(
        &mut self,
        env: &Env,
        m: &[El],
        x: &T,
        dist: Option<f64>,
    ) -> Result<usize, String> {
        let id = x.meta().id;
        let i = match self.ids.binary_search_by_key(&id, |x| x.0) {
            Ok(i) => i,
            Err(_) => return Err(format!("yielded object #{id}, which is not in the tree")),
        };
        if self.ids[i].1 == Tri::No {
            return Err(format!("yielded object #{id} {:?}, which does not match", m[i].g));
        }
        if self.ids[i].2 {
            return Err(format!("yielded object #{id} twice"));
        }
        self.ids[i].2 = true;
        self.yes_seen += (self.ids[i].1 == Tri::Yes) as usize;
        same(env, x, &m[i])?;
        if let Some(p) = self.nn {
            let line = m[i].g.inexact();
            let want = m[i].g.d2f(&p, env.d);
            if let Some(d) = dist {
                let d = d / (env.unit * env.unit);
                if !env.close(d, want, line) {
                    return Err(format!(
                        "object #{id} reported at squared distance {d}, actual {want}"
                    ));
                }
            }
            let Some(&nth) = self.dists.get(self.got) else {
                return Err("yielded more objects than the tree holds".into());
            };
            if !env.close(want, nth, line) {
                return Err(format!(
                    "neighbour number {} is object #{id} at squared distance {want}, but the {}-th smallest is {nth} (previous {})",
                    self.got, self.got, self.last
                ));
            }
            self.last = want;
        }
        self.got += 1;
        Ok(i)
    }
    pub fn finished(&self) -> Result<(), String> {
        let y = self.yes_seen;
        if y != self.must {
            let miss: Vec<u64> = self
                .ids
                .iter()
                .filter(|x| x.1 == Tri::Yes && !x.2)
                .map(|x| x.0)
                .take(5)
                .collect();
            return Err(format!(
                "ended after {} of {} matching objects; missing e.g. {miss:?}",
                y, self.must
            ));
        }
        Ok(())
    }
    pub fn hint(&self, h: (usize, Option<usize>)) -> Result<(), String> {
        let lo = self.must - self.yes_seen;
        let hi = self.may - self.got;
        if h.0 > hi || h.1.is_some_and(|x| x < lo) {
            return Err(format!("size_hint {h:?} but {lo} to {hi} objects remain"));
        }
        Ok(())
    }
}

/// The stored object is the one the model knows under that id.
pub fn same<T: Item>(_env: &Env, x: &T, e: &El) -> Result<(), String> {
    let m = x.meta();
    if !m.tok.alive() {
        return Err(format!("object #{} was already dropped", m.id));
    }
    if m.key != e.key {
        return Err(format!("object #{} has key {} instead of {}", m.id, m.key, e.key));
    }
    if T::EDIT && m.pay() != e.pay {
        return Err(format!("object #{} has payload {} instead of {}", m.id, m.pay(), e.pay));
    }
    if !x.same_geom(&e.g) {
        return Err(format!("object #{} is {x:?} instead of {:?}", m.id, e.g));
    }
    Ok(())
}

// ------------------------------------------------------------ structure

pub struct Shape {
    pub height: usize,
    pub nodes: usize,
    pub leaves: usize,
    pub max_fill: usize,
    pub hash: u64,
}

pub fn structure<T: RTreeObject<Envelope = E>, E: EnvT, Pr: RTreeParams>(
    t: &RTree<T, Pr>,
    max_bound: bool,
    min_bound: bool,
) -> Result<Shape, String> {
    let mut s = Shape { height: 0, nodes: 0, leaves: 0, max_fill: 0, hash: 0 };
    fn walk<T: RTreeObject<Envelope = E>, E: EnvT, Pr: RTreeParams>(
        n: &ParentNode<T>,
        depth: usize,
        s: &mut Shape,
        leaf_depth: &mut Option<usize>,
        bounds: (bool, bool),
    ) -> Result<(), String> {
        let ch = n.children();
        s.nodes += 1;
        s.max_fill = s.max_fill.max(ch.len());
        s.height = s.height.max(depth + 1);
        s.hash = mix(s.hash, (depth as u64) << 32 | ch.len() as u64);
        if ch.is_empty() {
            return if depth == 0 { Ok(()) } else { Err(format!("empty node at depth {depth}")) };
        }
        if bounds.0 && ch.len() > Pr::MAX_SIZE {
            return Err(format!(
                "node with {} children at depth {depth}, maximum is {}",
                ch.len(),
                Pr::MAX_SIZE
            ));
        }
        if bounds.1 && depth > 0 && ch.len() < Pr::MIN_SIZE {
            return Err(format!(
                "node with {} children at depth {depth}, minimum is {}",
                ch.len(),
                Pr::MIN_SIZE
            ));
        }
        let mut env: Option<(Vec<f64>, Vec<f64>)> = None;
        let dims = <E::P as Point>::DIMENSIONS;
        for c in ch {
            let e = match c {
                RTreeNode::Leaf(l) => {
                    s.leaves += 1;
                    match leaf_depth {
                        None => *leaf_depth = Some(depth),
                        Some(d) if *d == depth => {}
                        Some(d) => {
                            return Err(format!("objects at depth {d} and at depth {depth}"))
                        }
                    }
                    l.envelope()
                }
                RTreeNode::Parent(p) => {
                    walk::<T, E, Pr>(p, depth + 1, s, leaf_depth, bounds)?;
                    p.envelope()
                }
            };
            let (lo, hi) = e.lohi();
            let lo: Vec<f64> = (0..dims).map(|i| lo.nth(i).f()).collect();
            let hi: Vec<f64> = (0..dims).map(|i| hi.nth(i).f()).collect();
            env = Some(match env {
                None => (lo, hi),
                Some((a, b)) => (
                    a.iter().zip(&lo).map(|(x, y)| x.min(*y)).collect(),
                    b.iter().zip(&hi).map(|(x, y)| x.max(*y)).collect(),
                ),
            });
        }
        let (lo, hi) = env.unwrap();
        let e = n.envelope();
        let (el, eh) = e.lohi();
        for i in 0..dims {
            if el.nth(i).f() != lo[i] || eh.nth(i).f() != hi[i] {
                return Err(format!(
                    "envelope {e:?} of a node at depth {depth} is not the union {lo:?}..{hi:?} of its children"
                ));
            }
        }
        Ok(())
    }
    walk::<T, E, Pr>(t.root(), 0, &mut s, &mut None, (max_bound, min_bound))?;
    if s.leaves != t.size() {
        return Err(format!("size() is {} but the tree holds {} objects", t.size(), s.leaves));
    }
    Ok(s)
}

pub fn content<T: Item, Pr: RTreeParams>(
    env: &Env,
    t: &RTree<T, Pr>,
    m: &[El],
) -> Result<(), String> {
    if t.size() != m.len() {
        return Err(format!("size() is {}, {} objects expected", t.size(), m.len()));
    }
    let mut ex = Expect::new(env, &RQ::All, m);
    let mut n = 0;
    for x in t.iter() {
        ex.yielded(env, m, x, None).map_err(|e| format!("iter(): {e}"))?;
        n += 1;
        if n > m.len() {
            return Err("iter() yields more objects than the tree holds".into());
        }
    }
    ex.finished().map_err(|e| format!("iter(): {e}"))
}

// ------------------------------------------------------------ world

pub struct Slot<T: Item, Pr: RTreeParams> {
    pub tree: RTree<T, Pr>,
    pub m: Vec<El>,
    /// what has happened to this tree (violation kinds)
    pub cats: u32,
    pub bulk: bool,
    pub shrunk: bool,
}

#[derive(Clone)]
struct File {
    bytes: Vec<u8>,
    full: usize,
    codec: Codec,
    m: Vec<El>,
    bulk: bool,
    shrunk: bool,
}

pub struct World<T: Item, Pr: RTreeParams> {
    env: Env,
    kinds: u8,
    slots: Vec<UnsafeCell<Slot<T, Pr>>>,
    readers: Vec<Cell<u32>>,
    writer: Vec<Cell<bool>>,
    wants: [Cell<Option<(u32, u32)>>; MAXC],
    files: RefCell<Vec<Option<File>>>,
    leaks: Cell<u64>,
    verify: u8,
}

fn model_add<T: Item>(m: &mut Vec<El>, sp: &Spec) -> (El, T) {
    let c = ctx();
    let id = c.next_id.get();
    c.next_id.set(id + 1);
    let e = El { id, key: sp.key as u32, g: canon(sp.g, T::KINDS), pay: 0 };
    let i = m.binary_search_by_key(&id, |x| x.id).unwrap_err();
    m.insert(i, e);
    let t = make(&e);
    (e, t)
}
pub fn make<T: Item>(e: &El) -> T {
    quietly(|| T::make(Meta::new(e.id, e.key, e.pay), &e.g))
}

struct Quietly<V>(V);

impl<T: Item, Pr: RTreeParams + Clone + 'static> World<T, Pr> {
    #[allow(clippy::mut_from_ref)]
    fn slot(&self, s: u8) -> &mut Slot<T, Pr> {
        unsafe { &mut *self.slots[s as usize % self.slots.len()].get() }
    }
    fn grantable(&self, want: (u32, u32)) -> bool {
        (0..self.slots.len()).all(|i| {
            let b = 1 << i;
            (want.1 & b == 0 || (self.readers[i].get() == 0 && !self.writer[i].get()))
                && (want.0 & b == 0 || !self.writer[i].get())
        })
    }
    fn grant(&self, want: (u32, u32)) {
        for i in 0..self.slots.len() {
            let b = 1 << i;
            if want.1 & b != 0 {
                self.writer[i].set(true);
            } else if want.0 & b != 0 {
                self.readers[i].set(self.readers[i].get() + 1);
            }
        }
    }
    fn release(&self, want: (u32, u32)) {
        for i in 0..self.slots.len() {
            let b = 1 << i;
            if want.1 & b != 0 {
                self.writer[i].set(false);
            } else if want.0 & b != 0 {
                self.readers[i].set(self.readers[i].get() - 1);
            }
        }
    }

    /// Content and structure of a tree the caller has locked (or that is idle).
    fn check_slot(&self, s: u8, kinds: u32) {
        if ctx().violated() {
            return;
        }
        let sl = self.slot(s);
        quietly(|| match attempt(|| content(&self.env, &sl.tree, &sl.m)) {
            Out::Ok(Ok(())) => {}
            Out::Ok(Err(e)) => violate(kinds | k::CONTENT, format!("tree {s}: {e}")),
            Out::Panic(p) => violate(kinds | k::CONTENT | k::PROGRESS, format!("tree {s}: reading it back panicked: {p}")),
            _ => {}
        });
        self.check_structure(s);
    }
    fn check_structure(&self, s: u8) {
        if ctx().violated() {
            return;
        }
        let sl = self.slot(s);
        quietly(|| match structure(&sl.tree, !sl.bulk, !sl.bulk && !sl.shrunk) {
            Ok(sh) => {
                let c = ctx();
                c.states.borrow_mut().push(mix(sh.hash, sl.m.len() as u64));
                if sh.height > 3 {
                    probe("tree height above 3");
                }
                if sh.max_fill > Pr::MAX_SIZE {
                    probe("bulk-loaded node above MAX_SIZE");
                }
            }
            Err(e) => {
                let mut kinds = k::STRUCT;
                if self.fresh_ok(s, |t| structure(t, true, true).map(|_| ())) {
                    kinds |= sl.cats;
                }
                violate(kinds, format!("tree {s}: {e}"))
            }
        });
    }
    /// Does a tree built by plain insertion of the same objects pass `f`?
    fn fresh_ok(&self, s: u8, f: impl FnOnce(&RTree<T, Pr>) -> Result<(), String>) -> bool {
        let sl = self.slot(s);
        quietly(|| {
            matches!(
                attempt(|| {
                    let mut t: RTree<T, Pr> = RTree::new_with_params();
                    for e in &sl.m {
                        t.insert(make(e));
                    }
                    f(&t)
                }),
                Out::Ok(Ok(()))
            )
        })
    }

    fn budget(&self, extra: usize) {
        let n: usize = (0..self.slots.len()).map(|i| self.slot(i as u8).m.len()).sum::<usize>() + extra;
        let c = ctx();
        c.left[c.cur.get()].set(200_000 + 4_000 * n as i64);
    }

    /// After `envelope()` failed inside a mutating call nothing is promised
    /// about which objects the tree still holds, only that none is duplicated
    /// or invented. Take the survivors and start over with a fresh tree.
    fn resync(&self, s: u8, extra: &[El], what: &str) {
        let sl = self.slot(s);
        let cats = sl.cats | k::UNWIND;
        quietly(|| {
            probe("resync after envelope() panic");
            let old = std::mem::replace(&mut sl.tree, RTree::new_with_params());
            let mut keep: Vec<El> = Vec::new();
            let mut objs = Vec::new();
            for x in old {
                let id = x.meta().id;
                let known = sl.m.iter().chain(extra).find(|e| e.id == id);
                match known {
                    None => return violate(k::OWN, format!("tree {s}: after envelope() panicked in {what} the tree holds object #{id}, which was never there")),
                    Some(e) => {
                        if keep.iter().any(|e| e.id == id) {
                            return violate(k::OWN, format!("tree {s}: after envelope() panicked in {what} object #{id} is in the tree twice"));
                        }
                        if let Err(e) = same(&self.env, &x, e) {
                            return violate(k::OWN, format!("tree {s}: after envelope() panicked in {what}: {e}"));
                        }
                        keep.push(*e);
                    }
                }
                objs.push(x);
            }
            keep.sort_by_key(|e| e.id);
            sl.m = keep;
            sl.bulk = true;
            sl.shrunk = true;
            sl.cats = cats;
            // rebuild by insertion
            for x in objs {
                sl.tree.insert(x);
            }
        });
    }

    /// Handle the non-`Ok` ends of a mutating call. Returns true when the
    /// tree's content is still promised (so that it should be checked).
    fn failed<R>(&self, s: u8, o: &Out<R>, cat: u32, what: &str, extra: &[El]) -> bool {
        match o {
            Out::Ok(_) => true,
            Out::Injected => {
                let c = ctx();
                let f = c.fired[c.cur.get()].get();
                self.slot(s).cats |= k::UNWIND;
                if matches!(f, Some(H::Env | H::EnvM)) {
                    // rustc itself leaks a value being returned while a
                    // destructor run on the way out panics
                    self.leaks.set(self.leaks.get() + 1);
                    self.resync(s, extra, what);
                    false
                } else {
                    true
                }
            }
            Out::Budget => {
                violate(cat | k::PROGRESS, format!("{what} did not finish within its step budget"));
                false
            }
            Out::Panic(p) => {
                let injected = ctx().fired[ctx().cur.get()].get().is_some();
                violate(
                    cat | k::PROGRESS | if injected { k::UNWIND | k::OWN } else { 0 },
                    format!("{what} panicked: {p}"),
                );
                false
            }
        }
    }

    fn run_op(&self, op: &Op) {
        let c = ctx();
        let env = &self.env;
        let n = self.slots.len() as u8;
        let fired = || c.fired[c.cur.get()].get().is_some();
        let uw = || if fired() { k::UNWIND } else { 0 };
        let what = op.name();
        match op {
            Op::Yield => hook(H::Poll, 0),
            Op::Insert { s, e } => self.insert(*s, std::slice::from_ref(e)),
            Op::Batch { s, es } => self.insert(*s, es),
            Op::Bulk { s, es, merge } => {
                let sl = self.slot(*s);
                self.budget(es.len());
                let mut m = if *merge { sl.m.clone() } else { Vec::new() };
                let old = quietly(|| std::mem::replace(&mut sl.tree, RTree::new_with_params()));
                let before = std::mem::take(&mut sl.m);
                let mut objs: Vec<T> = Vec::new();
                if *merge {
                    match attempt(|| old.into_iter().collect::<Vec<T>>()) {
                        Out::Ok(v) => objs = v,
                        Out::Injected => {
                            // a destructor cannot run here; nothing else is instrumented
                            return;
                        }
                        o => {
                            self.failed(*s, &o, k::CONTENT, "into_iter", &[]);
                            return;
                        }
                    }
                    let mut ex = Expect::new(env, &RQ::All, &before);
                    for x in &objs {
                        if let Err(e) = ex.yielded(env, &before, x, None) {
                            return violate(k::CONTENT, format!("into_iter: {e}"));
                        }
                    }
                    if let Err(e) = ex.finished() {
                        return violate(k::CONTENT, format!("into_iter: {e}"));
                    }
                } else {
                    match attempt(|| drop(old)) {
                        Out::Ok(()) => {}
                        Out::Injected => {
                            sl.bulk = false;
                            sl.shrunk = false;
                            return;
                        }
                        o => {
                            self.failed(*s, &o, k::CONTENT | k::OWN, "dropping a tree", &[]);
                            return;
                        }
                    }
                }
                for sp in es {
                    objs.push(model_add(&mut m, sp).1);
                }
                let r = attempt(|| RTree::<T, Pr>::bulk_load_with_params(objs));
                match r {
                    Out::Ok(t) => {
                        quietly(|| sl.tree = t);
                        sl.m = m;
                        sl.bulk = true;
                        sl.shrunk = false;
                        sl.cats = if *merge { sl.cats } else { 0 };
                        self.after(*s, 0);
                    }
                    Out::Injected => {
                        // everything handed over was dropped; the tree stays empty
                        sl.bulk = false;
                        sl.shrunk = false;
                    }
                    o => {
                        self.failed(*s, &o, k::CONTENT, what, &[]);
                    }
                }
            }
            Op::Remove { s, t } => {
                let sl = self.slot(*s);
                self.budget(0);
                let (key, g) = match t {
                    Target::Elem(i) => {
                        if sl.m.is_empty() {
                            return;
                        }
                        let e = sl.m[*i as usize % sl.m.len()];
                        (e.key, e.g)
                    }
                    Target::Spec(sp) => (sp.key as u32, canon(sp.g, self.kinds)),
                };
                let probe_obj: T = quietly(|| T::make(Meta::new(u64::MAX, key, 0), &g));
                let any = sl.m.iter().any(|e| e.key == key && env.same_geom(&e.g, &g, self.kinds));
                sl.cats |= k::REMOVE;
                let r = attempt(|| sl.tree.remove(&probe_obj));
                self.removed(*s, r, what, if any { Tri::Yes } else { Tri::No }, |e| {
                    e.key == key && env.same_geom(&e.g, &g, self.kinds)
                });
                quietly(|| drop(probe_obj));
            }
            Op::RemoveAt { s, p } => {
                let sl = self.slot(*s);
                self.budget(0);
                let p = env.pt(p, &sl.m);
                let rq = RQ::At(p);
                let any = any_match(env, &rq, &sl.m);
                sl.cats |= k::REMOVE;
                let r = attempt(|| sl.tree.remove_at_point(T::P::of(&p)));
                self.removed(*s, r, what, any, |e| env.matches(&rq, e) != Tri::No);
            }
            Op::RemoveSel { s, q } => {
                let sl = self.slot(*s);
                self.budget(0);
                let sr = env.sel(q, &sl.m);
                let rq = RQ::Sel(sr);
                let any = any_match(env, &rq, &sl.m);
                sl.cats |= k::REMOVE;
                let r = attempt(|| sl.tree.remove_with_selection_function(SelF::<T::E>::new(&sr)));
                self.removed(*s, r, what, any, |e| env.matches(&rq, e) != Tri::No);
            }
            Op::Pop { s, p } => {
                let sl = self.slot(*s);
                self.budget(0);
                let p = env.pt(p, &sl.m);
                let min = sl
                    .m
                    .iter()
                    .map(|e| e.g.d2f(&p, env.d))
                    .fold(f64::INFINITY, f64::min);
                let any = Tri::of(!sl.m.is_empty());
                sl.cats |= k::REMOVE;
                let r = attempt(|| sl.tree.pop_nearest_neighbor(T::P::of(&p)));
                self.removed(*s, r, what, any, |e| {
                    env.close(e.g.d2f(&p, env.d), min, e.g.inexact())
                });
            }
            Op::Drain { s, q, take, end, catch } => self.drain(*s, q, *take, *end, *catch, what),
            Op::MutIter { s, q, take, mask, end } => self.mut_iter(*s, q, *take, *mask, *end),
            Op::Visit { s, q, mutable, stop, nested, mask } => {
                self.visit(*s, q, *mutable, *stop, nested.as_ref(), *mask)
            }
            Op::Session { s, cursors, script, ends } => self.session(*s, cursors, script, ends),
            Op::One { s, q } => self.one(*s, q),
            Op::Join { s, o, bulk, sub, take } => self.join(*s, *o, *bulk, *sub, *take),
            Op::SelfJoin { s, take } => self.self_join(*s, *take),
            Op::CloneTo { a, b, from } => {
                if a % n == b % n {
                    return;
                }
                self.budget(0);
                let src = self.slot(*a);
                let r = if *from {
                    let dst = self.slot(*b);
                    let r = attempt(|| dst.tree.clone_from(&src.tree));
                    dst.m.clear();
                    // what an interrupted clone_from() leaves is not specified
                    if !matches!(r, Out::Ok(())) {
                        quietly(|| dst.tree = RTree::new_with_params());
                    }
                    let t = std::mem::replace(&mut dst.tree, RTree::new_with_params());
                    match r {
                        Out::Ok(()) => Out::Ok(t),
                        Out::Injected => Out::Injected,
                        Out::Budget => Out::Budget,
                        Out::Panic(m) => Out::Panic(m),
                    }
                } else {
                    attempt(|| src.tree.clone())
                };
                match r {
                    Out::Ok(t) => {
                        let dst = self.slot(*b);
                        quietly(|| dst.tree = t);
                        dst.m = src.m.clone();
                        dst.bulk = src.bulk;
                        dst.shrunk = src.shrunk;
                        dst.cats = src.cats | k::CLONE;
                        src.cats |= k::CLONE;
                        self.after(*b, k::CLONE);
                        self.after(*a, k::CLONE);
                    }
                    Out::Injected => {
                        src.cats |= k::CLONE | k::UNWIND;
                        self.check_slot(*a, k::CLONE | k::UNWIND);
                    }
                    o => {
                        self.failed(*a, &o, k::CLONE, what, &[]);
                    }
                }
            }
            Op::Swap { a, b } => {
                if a % n == b % n {
                    return;
                }
                let (x, y) = (self.slot(*a), self.slot(*b));
                std::mem::swap(x, y);
            }
            Op::Take { s } => {
                let sl = self.slot(*s);
                let r = attempt(|| {
                    let t = std::mem::take(&mut sl.tree);
                    drop(t);
                });
                sl.m.clear();
                sl.cats = 0;
                sl.bulk = false;
                sl.shrunk = false;
                self.failed(*s, &r, k::CONTENT | k::OWN, what, &[]);
                self.after(*s, uw());
            }
            Op::Consume { s, take, end, rebuild } => self.consume(*s, *take, *end, *rebuild),
            Op::Save { s, f, codec, io } => self.save(*s, *f, *codec, io),
            Op::Load { s, f, io } => self.load(*s, *f, io, false),
            Op::Restart { s, f } => {
                let quiet = IoPlan {
                    chunk: 0,
                    intr: 0,
                    fail: None,
                    sync_fail: false,
                    in_place: false,
                    survive: 0,
                    cut: None,
                };
                self.load(*s, *f, &quiet, true)
            }
            Op::Damage { f, d } => self.damage(*f, d),
        }
    }

    fn after(&self, s: u8, kinds: u32) {
        if self.verify == 0 {
            return;
        }
        self.check_slot(s, kinds);
        if self.verify >= 2 {
            for i in 0..self.slots.len() {
                if i != s as usize % self.slots.len() && !self.writer[i].get() {
                    self.check_slot(i as u8, k::CLONE);
                }
            }
        }
    }

    fn insert(&self, s: u8, es: &[Spec]) {
        let sl = self.slot(s);
        for sp in es {
            self.budget(1);
            let mut m2 = Vec::new();
            let (e, t) = model_add::<T>(&mut m2, sp);
            let r = attempt(|| sl.tree.insert(t));
            match r {
                Out::Ok(()) => sl.m.push(e),
                o => {
                    let had_bulk = sl.bulk;
                    self.failed(s, &o, k::CONTENT, "insert", &[e]);
                    let _ = had_bulk;
                    return;
                }
            }
            if ctx().violated() {
                return;
            }
        }
        self.after(s, 0);
    }

    fn removed(&self, s: u8, r: Out<Option<T>>, what: &str, any: Tri, ok: impl Fn(&El) -> bool) {
        let sl = self.slot(s);
        sl.shrunk = true;
        match r {
            Out::Ok(Some(x)) => {
                let id = x.meta().id;
                match sl.m.binary_search_by_key(&id, |e| e.id) {
                    Err(_) => violate(k::REMOVE | k::CONTENT, format!("{what} returned object #{id}, which is not in the tree")),
                    Ok(i) => {
                        if !ok(&sl.m[i]) {
                            return violate(k::REMOVE, format!("{what} removed object #{id} {:?}, which does not satisfy the request", sl.m[i]));
                        }
                        if let Err(e) = same(&self.env, &x, &sl.m[i]) {
                            return violate(k::REMOVE, format!("{what}: {e}"));
                        }
                        sl.m.remove(i);
                        self.after(s, k::REMOVE);
                    }
                }
            }
            Out::Ok(None) => {
                if any == Tri::Yes {
                    violate(k::REMOVE, format!("{what} returned None although a matching object exists"));
                }
                self.after(s, k::REMOVE);
            }
            o => {
                if self.failed(s, &o, k::REMOVE, what, &[]) {
                    self.check_slot(s, k::UNWIND);
                }
            }
        }
    }

    fn drain(&self, s: u8, q: &Q, take: u32, end: End, catch: bool, what: &str) {
        let env = &self.env;
        let sl = self.slot(s);
        self.budget(0);
        let rq = drain_rq(env.rq(q, &sl.m));
        let mut ex = Expect::new(env, &rq, &sl.m);
        let cat = if end == End::Forget { k::LEAK } else { k::DRAIN };
        sl.shrunk = true;
        let n0 = sl.m.len();
        let mut got: Vec<T> = Vec::new();
        let mut hints = Vec::new();
        let mut exhausted = false;
        let m = std::mem::take(&mut sl.m);
        let tree = &mut sl.tree;
        let r = {
            let got = &mut got;
            let exhausted = &mut exhausted;
            let hints = &mut hints;
            attempt(move || -> Result<bool, Out<()>> {
                let mut it = open_drain(tree, q, &rq);
                let mut i = 0u32;
                loop {
                    if (i >= take && matches!(end, End::Drop | End::Forget)) || i as usize > n0 {
                        break;
                    }
                    i += 1;
                    let x = if catch {
                        match attempt(|| {
                            hook(H::Poll, 2);
                            (it.size_hint(), it.next())
                        }) {
                            Out::Ok(x) => x,
                            Out::Injected => {
                                probe("drain dropped after a caught panic");
                                drop(it);
                                return Err(Out::Injected);
                            }
                            Out::Budget => return Err(Out::Budget),
                            Out::Panic(p) => return Err(Out::Panic(p)),
                        }
                    } else {
                        hook(H::Poll, 2);
                        (it.size_hint(), it.next())
                    };
                    hints.push(x.0);
                    match x.1 {
                        Some(x) => got.push(x),
                        None => {
                            *exhausted = true;
                            break;
                        }
                    }
                }
                let mut resurrected = false;
                if *exhausted && end == End::PastEnd {
                    for _ in 0..3 {
                        hook(H::Poll, 3);
                        if let Some(x) = it.next() {
                            got.push(x);
                            resurrected = true;
                        }
                    }
                }
                if end == End::Forget {
                    forget(it);
                } else {
                    drop(it);
                }
                Ok(resurrected)
            })
        };
        let r = match r {
            Out::Ok(Ok(b)) => Out::Ok(b),
            Out::Ok(Err(Out::Injected)) | Out::Injected => Out::Injected,
            Out::Ok(Err(Out::Budget)) | Out::Budget => Out::Budget,
            Out::Ok(Err(Out::Panic(p))) | Out::Panic(p) => Out::Panic(p),
            Out::Ok(Err(Out::Ok(()))) => unreachable!(),
        };
        // what was handed out must be right, however the drain ended
        let mut gone = vec![false; m.len()];
        for (n, x) in got.iter().enumerate() {
            if let Some(h) = hints.get(n) {
                if let Err(e) = ex.hint(*h) {
                    return violate(cat, format!("{what} {rq:?}: {e}"));
                }
            }
            match ex.yielded(env, &m, x, None) {
                Ok(i) => gone[i] = true,
                Err(e) => {
                    return violate(cat | k::CONTENT | if matches!(r, Out::Injected) { k::UNWIND } else { 0 }, format!("{what} {rq:?}: {e}"));
                }
            }
        }
        let rest: Vec<El> =
            m.iter().zip(&gone).filter(|(_, g)| !**g).map(|(e, _)| *e).collect();
        let c = ctx();
        match r {
            Out::Ok(resurrected) => {
                if resurrected {
                    return violate(cat, format!("{what} yielded again after it had ended"));
                }
                if exhausted {
                    if let Err(e) = ex.finished() {
                        return violate(cat, format!("{what} {rq:?}: {e}"));
                    }
                }
                if end == End::Forget && !exhausted {
                    probe("drain leaked while running");
                    sl.cats |= k::LEAK;
                    self.leaks.set(self.leaks.get() + rest.len() as u64);
                    sl.m = Vec::new();
                    self.after(s, k::LEAK);
                } else if end == End::Forget {
                    // leaked after it had ended: the remaining objects may be
                    // back in the tree or leaked with the iterator
                    probe("drain leaked after its end");
                    sl.cats |= k::LEAK;
                    let left = quietly(|| sl.tree.size());
                    if left == 0 && !rest.is_empty() {
                        self.leaks.set(self.leaks.get() + rest.len() as u64);
                        sl.m = Vec::new();
                    } else {
                        sl.m = rest;
                    }
                    self.after(s, k::LEAK);
                } else {
                    if !exhausted && !got.is_empty() {
                        probe("drain abandoned midway");
                    }
                    sl.cats |= k::DRAIN;
                    sl.m = rest;
                    self.after(s, k::DRAIN);
                }
            }
            o => {
                sl.m = rest;
                if self.failed(s, &o, cat, what, &[]) {
                    if c.fired[c.cur.get()].get().is_some() && !got.is_empty() {
                        probe("drain predicate panicked midway");
                    }
                    self.check_slot(s, k::UNWIND);
                }
            }
        }
        quietly(|| drop(got));
    }

    fn mut_iter(&self, s: u8, q: &Q, take: u32, mask: u8, end: End) {
        let env = &self.env;
        let sl = self.slot(s);
        self.budget(0);
        let rq = mut_rq(env.rq(q, &sl.m));
        let before = sl.m.clone();
        let mut ex = Expect::new(env, &rq, &before);
        let tree = &mut sl.tree;
        let m = &mut sl.m;
        let r = attempt(move || -> Result<(), String> {
            let mut it = open_mut(tree, q, &rq);
            let mut i = 0u32;
            loop {
                if i >= take && matches!(end, End::Drop | End::Forget) {
                    break;
                }
                hook(H::Poll, 4);
                ex.hint(it.size_hint())?;
                match it.next() {
                    Some(x) => {
                        let j = ex.yielded(env, &before, &*x, None)?;
                        if T::EDIT && (i % 8 < 8) && mask & (1 << (i % 8)) != 0 {
                            let v = before[j].pay + 1 + i;
                            x.set_pay(v);
                            m[j].pay = v;
                        }
                    }
                    None => {
                        ex.finished()?;
                        if end == End::PastEnd {
                            for _ in 0..2 {
                                if it.next().is_some() {
                                    return Err("yielded again after it had ended".into());
                                }
                            }
                        }
                        break;
                    }
                }
                i += 1;
            }
            if end == End::Forget {
                forget(it);
            }
            Ok(())
        });
        let c = ctx();
        let fired = c.fired[c.cur.get()].get().is_some();
        match r {
            Out::Ok(Ok(())) => self.after(s, k::MUT),
            Out::Ok(Err(e)) => violate(k::MUT | if fired { k::UNWIND } else { 0 }, format!("mutable traversal {rq:?}: {e}")),
            Out::Injected => {
                sl.cats |= k::UNWIND;
                self.check_slot(s, k::UNWIND | k::MUT)
            }
            o => {
                self.failed(s, &o, k::MUT, "mutable traversal", &[]);
            }
        }
    }

    #[allow(clippy::too_many_arguments)]
    fn visit(&self, s: u8, q: &Q, mutable: bool, stop: Option<u32>, nested: Option<&Q>, mask: u8) {
        let env = &self.env;
        let sl = self.slot(s);
        self.budget(0);
        let rq = visit_rq(env.rq(q, &sl.m), env);
        let before = sl.m.clone();
        let mut ex = Expect::new(env, &rq, &before);
        let code = 77_000 + stop.unwrap_or(0) as u64;
        let calls = Cell::new(0u32);
        let broke = Cell::new(false);
        let err = RefCell::new(None::<String>);
        let r: Out<ControlFlow<u64>> = if mutable {
            let m = &mut sl.m;
            let tree = &mut sl.tree;
            let mut v = |x: &mut T| -> ControlFlow<u64> {
                hook(H::Visit, x.meta().id);
                let i = calls.get();
                calls.set(i + 1);
                if broke.get() {
                    err.borrow_mut().get_or_insert("visitor called again after it asked to stop".into());
                }
                match ex.yielded(env, &before, &*x, None) {
                    Ok(j) => {
                        if T::EDIT && mask & (1 << (i % 8)) != 0 {
                            let v = before[j].pay + 3 + i;
                            x.set_pay(v);
                            m[j].pay = v;
                        }
                    }
                    Err(e) => {
                        err.borrow_mut().get_or_insert(e);
                    }
                }
                if stop == Some(i) {
                    broke.set(true);
                    ControlFlow::Break(code)
                } else {
                    ControlFlow::Continue(())
                }
            };
            attempt(move || match &rq {
                RQ::InEnv(b) => tree.locate_in_envelope_int_mut(sel_env(b), &mut v),
                RQ::Isect(b) => tree.locate_in_envelope_intersecting_int_mut(sel_env(b), &mut v),
                RQ::At(p) => tree.locate_all_at_point_int_mut(T::P::of(p), &mut v),
                _ => unreachable!(),
            })
        } else {
            let tree = &sl.tree;
            let m = &sl.m;
            let mut v = |x: &T| -> ControlFlow<u64> {
                hook(H::Visit, x.meta().id);
                let i = calls.get();
                calls.set(i + 1);
                if broke.get() {
                    err.borrow_mut().get_or_insert("visitor called again after it asked to stop".into());
                }
                if let Err(e) = ex.yielded(env, &before, x, None) {
                    err.borrow_mut().get_or_insert(e);
                }
                if let Some(nq) = nested {
                    // re-enter the same tree from inside the visitor
                    let nrq = env.rq(nq, m);
                    let mut nex = Expect::new(env, &nrq, m);
                    let mut bad = None;
                    for (y, d) in open(tree, nq, &nrq).take(6) {
                        if let Err(e) = nex.yielded(env, m, y, d) {
                            bad = Some(format!("nested query {nrq:?}: {e}"));
                            break;
                        }
                    }
                    if let Some(e) = bad {
                        err.borrow_mut().get_or_insert(e);
                    }
                    probe("nested query inside a visitor");
                }
                if stop == Some(i) {
                    broke.set(true);
                    ControlFlow::Break(code)
                } else {
                    ControlFlow::Continue(())
                }
            };
            attempt(move || match &rq {
                RQ::InEnv(b) => tree.locate_in_envelope_int(sel_env(b), &mut v),
                RQ::Isect(b) => tree.locate_in_envelope_intersecting_int(sel_env(b), &mut v),
                RQ::At(p) => tree.locate_all_at_point_int(T::P::of(p), &mut v),
                _ => unreachable!(),
            })
        };
        let c = ctx();
        let fired = c.fired[c.cur.get()].get().is_some();
        let kinds = k::VISIT | if mutable { k::MUT } else { k::QUERY };
        let uwk = if fired { k::UNWIND } else { 0 };
        if let Some(e) = err.borrow_mut().take() {
            return violate(kinds | uwk, format!("visitor over {rq:?}: {e}"));
        }
        match r {
            Out::Ok(ControlFlow::Break(x)) => {
                if !broke.get() {
                    violate(k::VISIT, "Break returned although the visitor never asked for it");
                } else if x != code {
                    violate(k::VISIT, format!("Break value {x} instead of {code}"));
                }
            }
            Out::Ok(ControlFlow::Continue(())) => {
                if broke.get() {
                    violate(k::VISIT, "Continue returned although the visitor broke");
                } else if let Err(e) = ex.finished() {
                    violate(kinds, format!("visitor over {rq:?}: {e}"));
                }
            }
            Out::Injected => {
                sl.cats |= k::UNWIND;
                return self.check_slot(s, k::UNWIND | kinds);
            }
            o => {
                self.failed(s, &o, kinds, "visitor query", &[]);
                return;
            }
        }
        if broke.get() {
            probe("visitor stopped early");
        }
        if mutable {
            self.after(s, k::MUT | k::VISIT);
        }
    }

    fn session(&self, s: u8, cursors: &[Q], script: &[(u8, u16)], ends: &[End]) {
        struct Cur<'a, T> {
            it: Option<TreeIter<'a, T>>,
            ex: Expect,
            done: bool,
            opened: bool,
        }
        let env = &self.env;
        let sl = self.slot(s);
        self.budget(sl.m.len() * cursors.len());
        let m = &sl.m;
        let tree = &sl.tree;
        let rqs: Vec<RQ> = cursors.iter().map(|q| env.rq(q, m)).collect();
        let mut cs: Vec<Cur<T>> = rqs
            .iter()
            .map(|rq| Cur { it: None, ex: Expect::new(env, rq, m), done: false, opened: false })
            .collect();
        let c = ctx();
        let kind_of = |i: usize| {
            let fired = c.fired[c.cur.get()].get().is_some();
            let base = if matches!(rqs[i], RQ::Nn(_)) { k::NN } else { k::QUERY };
            base | if fired { k::UNWIND } else { 0 }
        };
        // one poll of one cursor; false: cursor finished or died
        fn tie<'a, T: 'a, Pr: RTreeParams, F: Fn(&mut Vec<Cur<'a, T>>, usize) -> bool>(
            _: &'a RTree<T, Pr>,
            f: F,
        ) -> F
        where
            T: RTreeObject,
        {
            f
        }
        let poll = tie(tree, |cs, i| -> bool {
            let cu = &mut cs[i];
            if !cu.opened {
                cu.opened = true;
                match attempt(|| open(tree, &cursors[i], &rqs[i])) {
                    Out::Ok(it) => cu.it = Some(it),
                    Out::Injected => {
                        cu.done = true;
                        return false;
                    }
                    o => {
                        self.failed(s, &o, kind_of(i), "opening a query", &[]);
                        return false;
                    }
                }
            }
            let Some(it) = cu.it.as_mut() else { return false };
            let r = attempt(|| {
                hook(H::Poll, i as u64);
                (it.size_hint(), it.next())
            });
            match r {
                Out::Ok((h, x)) => {
                    if !cu.done {
                        if let Err(e) = cu.ex.hint(h) {
                            violate(kind_of(i), format!("query {:?}: {e}", rqs[i]));
                            return false;
                        }
                    }
                    match x {
                        Some((x, dist)) => {
                            if cu.done {
                                violate(kind_of(i), format!("query {:?} yielded again after it had ended", rqs[i]));
                                return false;
                            }
                            if let Err(e) = cu.ex.yielded(env, m, x, dist) {
                                violate(kind_of(i), format!("query {:?}: {e}", rqs[i]));
                                return false;
                            }
                            true
                        }
                        None => {
                            if !cu.done {
                                if let Err(e) = cu.ex.finished() {
                                    violate(kind_of(i), format!("query {:?}: {e}", rqs[i]));
                                }
                            }
                            cu.done = true;
                            false
                        }
                    }
                }
                Out::Injected => {
                    probe("query cursor killed by a panic");
                    cu.it = None;
                    cu.done = true;
                    false
                }
                o => {
                    self.failed(s, &o, kind_of(i), "polling a query", &[]);
                    false
                }
            }
        });
        'script: for (ci, polls) in script {
            let i = *ci as usize % cursors.len().max(1);
            if cursors.is_empty() {
                break;
            }
            for _ in 0..*polls {
                if !poll(&mut cs, i) {
                    if c.violated() {
                        break 'script;
                    }
                    break;
                }
            }
        }
        if c.violated() {
            return;
        }
        for i in 0..cs.len() {
            match ends.get(i).copied().unwrap_or(End::Exhaust) {
                End::Drop => cs[i].it = None,
                End::Forget => {
                    if let Some(it) = cs[i].it.take() {
                        forget(it);
                    }
                }
                e => {
                    let mut left = m.len() + 2;
                    while !cs[i].done && poll(&mut cs, i) {
                        left -= 1;
                        if left == 0 {
                            violate(kind_of(i) | k::PROGRESS, "query never ends");
                            return;
                        }
                    }
                    if e == End::PastEnd && cs[i].it.is_some() {
                        poll(&mut cs, i);
                        poll(&mut cs, i);
                    }
                }
            }
            if c.violated() {
                return;
            }
        }
        drop(cs);
        if c.fired[c.cur.get()].get().is_some() {
            self.slot(s).cats |= k::UNWIND;
            self.check_slot(s, k::UNWIND);
        }
    }

    fn one(&self, s: u8, q: &OneQ) {
        let env = &self.env;
        let sl = self.slot(s);
        self.budget(0);
        let c = ctx();
        let r = {
            let sl = &mut *sl;
            attempt(move || self.one_inner(sl, q))
        };
        let nn = matches!(q, OneQ::Nn(_) | OneQ::NnD(_) | OneQ::Nns(_) | OneQ::NnsD(_));
        let fired = c.fired[c.cur.get()].get().is_some();
        let mut kinds = if nn { k::NN } else { k::QUERY };
        match q {
            OneQ::AtMut(_) | OneQ::AtIntMut(_) => kinds |= k::MUT,
            OneQ::AtInt(_) => kinds |= k::VISIT,
            OneQ::Contains(_) => kinds |= k::CONTENT,
            OneQ::Size | OneQ::Debug => kinds |= k::CONTENT,
            _ => {}
        }
        match r {
            Out::Ok(Ok(edit)) => {
                if let Some((i, v)) = edit {
                    sl.m[i].pay = v;
                    self.after(s, k::MUT);
                }
            }
            Out::Ok(Err(e)) => violate(kinds | if fired { k::UNWIND } else { 0 }, format!("{q:?}: {e}")),
            Out::Injected => {
                sl.cats |= k::UNWIND;
                self.check_slot(s, k::UNWIND | kinds)
            }
            o => {
                self.failed(s, &o, kinds, "query", &[]);
            }
        }
        let _ = env;
    }

    #[allow(clippy::type_complexity)]
    fn one_inner(&self, sl: &mut Slot<T, Pr>, q: &OneQ) -> Result<Option<(usize, u32)>, String> {
        one_shot(&self.env, self.kinds, &mut sl.tree, &sl.m, q)
    }

    fn join(&self, s: u8, o: u8, bulk: bool, sub: u8, take: u32) {
        let env = &self.env;
        let (a, other) = (self.slot(s), self.slot(o));
        self.budget(a.m.len() * other.m.len() + other.m.len());
        let step = (sub as usize % 4) + 1;
        let om: Vec<El> = other.m.iter().step_by(step).copied().collect();
        type U<E> = crate::item::Own<E>;
        let side: RTree<U<T::E>> = match quietly(|| {
            attempt(|| {
                let objs: Vec<U<T::E>> = om
                    .iter()
                    .map(|e| Item::make(Meta::new(e.id, e.key, 0), &e.g))
                    .collect();
                if bulk {
                    RTree::bulk_load(objs)
                } else {
                    let mut t = RTree::new();
                    for x in objs {
                        t.insert(x);
                    }
                    t
                }
            })
        }) {
            Out::Ok(t) => t,
            o => {
                self.failed(s, &o, k::PROGRESS, "building a tree", &[]);
                return;
            }
        };
        let r = attempt(|| {
            let it = a.tree.intersection_candidates_with_other_tree(&side);
            pairs(env, it, &a.m, &om, take)
        });
        quietly(|| drop(side));
        self.join_result(s, r, "join");
    }
    fn join_result(&self, s: u8, r: Out<Result<(), String>>, what: &str) {
        let c = ctx();
        let fired = c.fired[c.cur.get()].get().is_some();
        match r {
            Out::Ok(Ok(())) => {}
            Out::Ok(Err(e)) => violate(k::JOIN | if fired { k::UNWIND } else { 0 }, format!("{what}: {e}")),
            Out::Injected => {
                self.slot(s).cats |= k::UNWIND;
                self.check_slot(s, k::UNWIND | k::JOIN)
            }
            o => {
                self.failed(s, &o, k::JOIN, what, &[]);
            }
        }
    }
    fn self_join(&self, s: u8, take: u32) {
        let env = &self.env;
        let a = self.slot(s);
        self.budget(a.m.len() * a.m.len());
        let Some(def) = (&a.tree as &dyn Any).downcast_ref::<RTree<T>>() else {
            return;
        };
        let r = attempt(|| {
            let it = a.tree.intersection_candidates_with_other_tree(def);
            pairs(env, it, &a.m, &a.m, take)
        });
        self.join_result(s, r, "self-join");
    }

    fn consume(&self, s: u8, take: u32, end: End, rebuild: bool) {
        let env = &self.env;
        let sl = self.slot(s);
        self.budget(0);
        let old = quietly(|| std::mem::replace(&mut sl.tree, RTree::new_with_params()));
        let before = std::mem::take(&mut sl.m);
        sl.bulk = false;
        sl.shrunk = false;
        sl.cats = 0;
        let mut ex = Expect::new(env, &RQ::All, &before);
        let mut got = Vec::new();
        let r = {
            let got = &mut got;
            let before = &before;
            let ex = &mut ex;
            let leaks = &self.leaks;
            attempt(move || -> Result<(), String> {
                let mut it = old.into_iter();
                let mut i = 0;
                loop {
                    if i >= take && matches!(end, End::Drop | End::Forget) {
                        break;
                    }
                    i += 1;
                    hook(H::Poll, 5);
                    ex.hint(it.size_hint())?;
                    match it.next() {
                        Some(x) => {
                            ex.yielded(env, before, &x, None)?;
                            got.push(x);
                        }
                        None => {
                            ex.finished()?;
                            if it.next().is_some() {
                                return Err("yielded again after it had ended".into());
                            }
                            break;
                        }
                    }
                }
                if end == End::Forget {
                    leaks.set(leaks.get() + (before.len() - ex.got()) as u64);
                    forget(it);
                } else {
                    drop(it);
                }
                Ok(())
            })
        };
        match r {
            Out::Ok(Ok(())) | Out::Injected => {}
            Out::Ok(Err(e)) => return violate(k::CONTENT, format!("into_iter: {e}")),
            o => {
                self.failed(s, &o, k::CONTENT | k::OWN, "into_iter", &[]);
                return;
            }
        }
        if rebuild {
            let ids: Vec<u64> = got.iter().map(|x| x.meta().id).collect();
            let m: Vec<El> =
                before.iter().filter(|e| ids.contains(&e.id)).copied().collect();
            for x in got {
                match attempt(|| sl.tree.insert(x)) {
                    Out::Ok(()) => {}
                    Out::Injected => {
                        sl.m = m;
                        self.resync(s, &[], "insert");
                        return;
                    }
                    o => {
                        self.failed(s, &o, k::CONTENT, "insert", &[]);
                        return;
                    }
                }
            }
            sl.m = m;
        } else {
            quietly(|| drop(got));
        }
        self.after(s, 0);
    }

    fn save(&self, s: u8, f: u8, codec: Codec, io: &IoPlan) {
        let sl = self.slot(s);
        let c = ctx();
        c.left[c.cur.get()].set(i64::MAX);
        // the fault-free encoding, to know how long the file would be
        let full = match quietly(|| attempt(|| encode(&sl.tree, codec))) {
            Out::Ok(Ok(b)) => b,
            Out::Ok(Err(e)) => return violate(k::SNAP, format!("serialising a tree failed: {e}")),
            o => {
                self.failed(s, &o, k::SNAP, "serialising a tree", &[]);
                return;
            }
        };
        let mut w = SimWriter::new(*io, full.len());
        let r = attempt(|| encode_to(&sl.tree, codec, &mut w));
        let fired = c.fired[c.cur.get()].get().is_some();
        let crashed = matches!(r, Out::Injected);
        let ok = match r {
            Out::Ok(Ok(())) => {
                if w.hard_failed {
                    return violate(k::SNAP, "serialising reported success although the writer failed");
                }
                if w.out.len() < full.len() {
                    // hard failure offset never reached: cannot happen
                    return violate(k::SNAP, format!("serialising reported success after {} of {} bytes", w.out.len(), full.len()));
                }
                !io.sync_fail
            }
            Out::Ok(Err(e)) => {
                if !w.hard_failed && !fired {
                    return violate(k::SNAP, format!("serialising failed without a fault: {e}"));
                }
                false
            }
            Out::Injected => false,
            o => {
                self.failed(s, &o, k::SNAP, "serialising a tree", &[]);
                return;
            }
        };
        if fired {
            sl.cats |= k::UNWIND;
        }
        self.check_slot(s, k::SNAP);
        let mut files = self.files.borrow_mut();
        let nf = files.len();
        let slot = &mut files[f as usize % nf];
        let file = |bytes: Vec<u8>, full: usize| File {
            bytes,
            full,
            codec,
            m: sl.m.clone(),
            bulk: sl.bulk,
            shrunk: sl.shrunk,
        };
        if ok {
            let n = w.out.len();
            *slot = Some(file(w.out, n));
            probe("snapshot committed");
        } else if io.in_place {
            // torn write: some prefix of what was written survives
            let keep = w.out.len() * io.survive as usize / 256;
            let mut b = w.out;
            b.truncate(keep);
            if crashed {
                probe("fault:crash during snapshot, torn file");
            } else {
                probe("fault:failed snapshot left a torn file");
            }
            *slot = Some(file(b, full.len()));
        } else {
            probe("fault:failed snapshot discarded");
        }
    }

    fn load(&self, s: u8, f: u8, io: &IoPlan, crash: bool) {
        let c = ctx();
        let file = {
            let files = self.files.borrow();
            files[f as usize % files.len()].clone()
        };
        let Some(file) = file else { return };
        c.left[c.cur.get()].set(i64::MAX);
        let sl = self.slot(s);
        if crash {
            probe("fault:crash, volatile tree lost");
            quietly(|| sl.tree = RTree::new_with_params());
            sl.m.clear();
            sl.bulk = false;
            sl.shrunk = false;
        }
        let mut data = &file.bytes[..];
        if let Some(cut) = io.cut {
            let at = cut as usize % (data.len() + 1);
            if at < data.len() {
                probe("fault:truncated file");
            }
            data = &data[..at];
        }
        let whole = data.len() == file.full;
        let mut rd = SimReader::new(data, *io);
        let r = attempt(|| decode_from::<RTree<T, Pr>>(file.codec, &mut rd));
        let fired = c.fired[c.cur.get()].get().is_some();
        match r {
            Out::Ok(Ok(t)) => {
                if rd.hard_failed && rd.pos < data.len() && !whole {
                    return violate(k::SNAP, "restoring succeeded although the reader failed");
                }
                if !whole {
                    return violate(
                        k::SNAP,
                        format!("restoring succeeded from {} of {} bytes", data.len(), file.full),
                    );
                }
                if fired {
                    return violate(k::SNAP, "restoring swallowed an element error");
                }
                quietly(|| sl.tree = t);
                sl.m = file.m.clone();
                sl.bulk = file.bulk;
                sl.shrunk = file.shrunk;
                sl.cats = k::SNAP;
                probe("snapshot restored");
                self.check_slot(s, k::SNAP);
            }
            Out::Ok(Err(e)) => {
                if whole && !rd.hard_failed && !fired {
                    return violate(k::SNAP, format!("restoring an intact snapshot failed: {e}"));
                }
                probe("damaged or failing restore rejected");
                self.check_slot(s, k::SNAP);
            }
            Out::Injected => self.check_slot(s, k::SNAP | k::UNWIND),
            o => {
                self.failed(s, &o, k::SNAP | k::DAMAGE, "restoring a tree", &[]);
            }
        }
    }

    fn damage(&self, f: u8, d: &[Damage]) {
        let file = {
            let files = self.files.borrow();
            files[f as usize % files.len()].clone()
        };
        let Some(file) = file else { return };
        let mut b = file.bytes.clone();
        apply_damage(&mut b, d);
        ctx().left[ctx().cur.get()].set(20_000_000);
        let before = ALLOC_BYTES.load(std::sync::atomic::Ordering::Relaxed);
        let codec = file.codec;
        let r = attempt(|| decode_damaged::<RTree<T, Pr>>(codec, &b));
        let used = ALLOC_BYTES.load(std::sync::atomic::Ordering::Relaxed) - before;
        let bound = (8 << 20) + (b.len() as u64 / 8) * (2 << 20);
        if used > bound {
            violate(k::DAMAGE, format!("decoding {} damaged bytes allocated {used} bytes", b.len()));
        }
        probe("damaged bytes decoded");
        match r {
            Out::Ok(Ok(t)) => {
                probe("damaged bytes accepted");
                let r = attempt(|| {
                    let n = t.iter().count();
                    let k = t.into_iter().count();
                    (n, k)
                });
                match r {
                    Out::Ok((a, b)) => {
                        if a != b {
                            violate(k::DAMAGE, format!("tree decoded from damaged bytes: iter() yields {a}, into_iter() {b}"));
                        }
                    }
                    o => {
                        self.failed(0, &o, k::DAMAGE, "walking a tree decoded from damaged bytes", &[]);
                    }
                }
            }
            Out::Ok(Err(_)) => probe("damaged bytes rejected"),
            Out::Injected => {}
            o => {
                self.failed(0, &o, k::DAMAGE, "decoding damaged bytes", &[]);
            }
        }
    }

    /// Is the tree still fully usable? Run a set of probe queries and, on a
    /// clone of its content, a few updates.
    fn battery(&self, s: u8, seed: u64) {
        let env = &self.env;
        let sl = self.slot(s);
        let mut r = Rng::new(seed);
        let qs = crate::gen::battery(&mut r, env);
        for q in &qs {
            if ctx().violated() {
                return;
            }
            let res = quietly(|| attempt(|| run_query(env, self.kinds, &mut sl.tree, &sl.m, q)));
            let (nn, msg) = match res {
                Out::Ok(Ok(())) => continue,
                Out::Ok(Err(e)) => (q.is_nn(), e),
                Out::Panic(p) => (q.is_nn(), format!("panicked: {p}")),
                _ => continue,
            };
            let mut kinds = if nn { k::NN } else { k::QUERY };
            let m = sl.m.clone();
            if self.fresh_ok_mut(s, |t| run_query(env, self.kinds, t, &m, q)) {
                kinds |= sl.cats;
            }
            violate(kinds, format!("tree {s}: {q:?}: {msg}"));
        }
        if T::STYLES {
            if let Some((kinds, e)) = crate::styles::battery(env, sl, &mut r) {
                return violate(kinds, format!("tree {s}: {e}"));
            }
        }
        // updates after the history: they must neither fail nor disturb anything
        let m0 = sl.m.clone();
        let ups: Vec<Spec> = crate::gen::battery_specs(&mut r, env);
        let res = quietly(|| {
            attempt(|| -> Result<(), String> {
                let mut m = m0.clone();
                for sp in &ups {
                    let (_, t) = model_add::<T>(&mut m, sp);
                    sl.tree.insert(t);
                }
                content(env, &sl.tree, &m)?;
                structure(&sl.tree, !sl.bulk, !sl.bulk && !sl.shrunk)?;
                for e in m.iter().rev().take(ups.len()) {
                    let x: T = make(e);
                    match sl.tree.remove(&x) {
                        None => return Err(format!("remove of #{} found nothing", e.id)),
                        Some(y) => {
                            if y.meta().key != e.key {
                                return Err(format!("remove of #{} returned a different object", e.id));
                            }
                        }
                    }
                }
                if sl.tree.size() != m0.len() {
                    return Err(format!("size() {} after inserting and removing again, {} expected", sl.tree.size(), m0.len()));
                }
                structure(&sl.tree, !sl.bulk, false)?;
                Ok(())
            })
        });
        let msg = match res {
            Out::Ok(Ok(())) => return,
            Out::Ok(Err(e)) => e,
            Out::Panic(p) => format!("panicked: {p}"),
            _ => return,
        };
        let mut kinds = k::PROGRESS | k::CONTENT;
        let fresh = self.fresh_ok_mut(s, |t| {
            let mut m = m0.clone();
            for sp in &ups {
                let (_, x) = model_add::<T>(&mut m, sp);
                t.insert(x);
            }
            content(env, t, &m)?;
            structure(t, true, true)?;
            for e in m.iter().rev().take(ups.len()) {
                let x: T = make(e);
                if t.remove(&x).is_none() {
                    return Err("remove".into());
                }
            }
            structure(t, true, false).map(|_| ())
        });
        if fresh {
            kinds |= sl.cats;
        }
        violate(kinds, format!("tree {s}: inserting and removing after the history: {msg}"));
    }
    fn fresh_ok_mut(&self, s: u8, f: impl FnOnce(&mut RTree<T, Pr>) -> Result<(), String>) -> bool {
        let sl = self.slot(s);
        quietly(|| {
            matches!(
                attempt(|| {
                    let mut t: RTree<T, Pr> = RTree::new_with_params();
                    for e in &sl.m {
                        t.insert(make(e));
                    }
                    f(&mut t)
                }),
                Out::Ok(Ok(()))
            )
        })
    }
}

pub fn any_match(env: &Env, rq: &RQ, m: &[El]) -> Tri {
    let mut r = Tri::No;
    for e in m {
        match env.matches(rq, e) {
            Tri::Yes => return Tri::Yes,
            Tri::Maybe => r = Tri::Maybe,
            Tri::No => {}
        }
    }
    r
}

/// Check a join against the brute-force set of intersecting pairs.
fn pairs<'a, T: Item, U: Item>(
    env: &Env,
    mut it: impl Iterator<Item = (&'a T, &'a U)>,
    ma: &[El],
    mb: &[El],
    take: u32,
) -> Result<(), String> {
    let mut want: Vec<((u64, u64), bool)> = Vec::new();
    for a in ma {
        let ba = a.g.b();
        for b in mb {
            if ba.intersects(&b.g.b(), env.d) {
                want.push(((a.id, b.id), false));
            }
        }
    }
    want.sort_unstable();
    let mut n = 0usize;
    loop {
        if n as u32 >= take {
            probe("join abandoned midway");
            return Ok(());
        }
        hook(H::Poll, 6);
        let (lo, hi) = it.size_hint();
        let left = want.len() - n;
        if lo > left || hi.is_some_and(|h| h < left) {
            return Err(format!("size_hint ({lo}, {hi:?}) but {left} pairs remain"));
        }
        match it.next() {
            None => break,
            Some((x, y)) => {
                let p = (x.meta().id, y.meta().id);
                match want.binary_search_by_key(&p, |w| w.0) {
                    Err(_) => return Err(format!("pair {p:?} does not intersect or does not exist")),
                    Ok(i) => {
                        if want[i].1 {
                            return Err(format!("pair {p:?} yielded twice"));
                        }
                        want[i].1 = true;
                    }
                }
                n += 1;
            }
        }
    }
    if n != want.len() {
        let miss = want.iter().find(|w| !w.1).unwrap().0;
        return Err(format!("{n} of {} pairs, e.g. {miss:?} missing", want.len()));
    }
    if it.next().is_some() {
        return Err("yielded again after it had ended".into());
    }
    Ok(())
}

pub fn apply_damage(b: &mut Vec<u8>, d: &[Damage]) {
    for x in d {
        let n = b.len();
        if n == 0 {
            return;
        }
        match x {
            Damage::Flip(o, m) => b[*o as usize % n] ^= m,
            Damage::Set(o, v) => b[*o as usize % n] = *v,
            Damage::Del(o, l) => {
                let a = *o as usize % n;
                let e = (a + *l as usize).min(n);
                b.drain(a..e);
            }
            Damage::Dup(o, l) => {
                let a = *o as usize % n;
                let e = (a + *l as usize).min(n);
                let c: Vec<u8> = b[a..e].to_vec();
                let at = e;
                b.splice(at..at, c);
            }
            Damage::Big(o) => {
                let a = *o as usize % n;
                for i in a..(a + 8).min(n) {
                    b[i] = 0xff;
                }
                if a + 7 < n {
                    b[a + 7] = 0x0f;
                }
            }
            Damage::Zero(o, l) => {
                let a = *o as usize % n;
                for v in &mut b[a..(a + *l as usize).min(n)] {
                    *v = 0;
                }
            }
            Damage::Swap(o, p, l) => {
                let (o, p) = (*o as usize % n, *p as usize % n);
                for i in 0..*l as usize {
                    if o + i < n && p + i < n {
                        b.swap(o + i, p + i);
                    }
                }
            }
        }
    }
}

/// One complete query of either form, for the battery.
#[derive(Debug, Clone)]
pub enum AnyQ {
    It(Q),
    One(OneQ),
}
impl AnyQ {
    pub fn is_nn(&self) -> bool {
        matches!(
            self,
            AnyQ::It(Q::NnIter(_) | Q::NnD(_) | Q::NnDep(_))
                | AnyQ::One(OneQ::Nn(_) | OneQ::NnD(_) | OneQ::Nns(_) | OneQ::NnsD(_))
        )
    }
}
pub fn run_query<T: Item, Pr: RTreeParams>(
    env: &Env,
    kinds: u8,
    t: &mut RTree<T, Pr>,
    m: &[El],
    q: &AnyQ,
) -> Result<(), String> {
    match q {
        AnyQ::It(q) => {
            let rq = env.rq(q, m);
            let mut ex = Expect::new(env, &rq, m);
            let mut it = open(t, q, &rq);
            loop {
                ex.hint(it.size_hint())?;
                match it.next() {
                    Some((x, d)) => {
                        ex.yielded(env, m, x, d)?;
                    }
                    None => return ex.finished(),
                }
            }
        }
        AnyQ::One(q) => one_shot(env, kinds, t, m, q).map(|_| ()),
    }
}

/// A one-shot query; mutable variants return the edit they made.
pub fn one_shot<T: Item, Pr: RTreeParams>(
    env: &Env,
    kinds: u8,
    t: &mut RTree<T, Pr>,
    m: &[El],
    q: &OneQ,
) -> Result<Option<(usize, u32)>, String> {
    let find = |x: &T| -> Result<usize, String> {
        let id = x.meta().id;
        let i = m
            .binary_search_by_key(&id, |e| e.id)
            .map_err(|_| format!("returned object #{id}, which is not in the tree"))?;
        same(env, x, &m[i])?;
        Ok(i)
    };
    let at = |p: &C, x: Option<&T>| -> Result<Option<usize>, String> {
        let rq = RQ::At(*p);
        match x {
            None => {
                if any_match(env, &rq, m) == Tri::Yes {
                    return Err("returned None although an object contains the point".into());
                }
                Ok(None)
            }
            Some(x) => {
                let i = find(x)?;
                if env.matches(&rq, &m[i]) == Tri::No {
                    return Err(format!("returned object #{}, which does not contain the point", m[i].id));
                }
                Ok(Some(i))
            }
        }
    };
    let near = |p: &C, x: Option<(&T, Option<f64>)>| -> Result<(), String> {
        let Some((x, dist)) = x else {
            return if m.is_empty() { Ok(()) } else { Err("found no neighbour in a non-empty tree".into()) };
        };
        let i = find(x)?;
        let line = m[i].g.inexact();
        let min = m.iter().map(|e| e.g.d2f(p, env.d)).fold(f64::INFINITY, f64::min);
        let got = m[i].g.d2f(p, env.d);
        if !env.close(got, min, line) {
            return Err(format!("object #{} at squared distance {got} is not nearest ({min})", m[i].id));
        }
        if let Some(d) = dist {
            let d = d / (env.unit * env.unit);
            if !env.close(d, got, line) {
                return Err(format!("reported squared distance {d} of object #{}, actual {got}", m[i].id));
            }
        }
        Ok(())
    };
    let nears = |p: &C, v: &[&T], dist: Option<f64>| -> Result<(), String> {
        if m.is_empty() != v.is_empty() {
            return Err(format!("{} neighbours in a tree of {}", v.len(), m.len()));
        }
        let mut seen = Vec::new();
        for x in v {
            near(p, Some((x, dist)))?;
            let id = x.meta().id;
            if seen.contains(&id) {
                return Err(format!("neighbour #{id} listed twice"));
            }
            seen.push(id);
        }
        if env.exact && kinds & G_INEX == 0 {
            let min = m.iter().map(|e| e.g.d2f(p, env.d)).fold(f64::INFINITY, f64::min);
            let n = m.iter().filter(|e| e.g.d2f(p, env.d) == min).count();
            if n != v.len() {
                return Err(format!("{} nearest neighbours returned, {n} objects are equally near", v.len()));
            }
        }
        Ok(())
    };
    match q {
        OneQ::At(p) => {
            let p = env.pt(p, m);
            at(&p, t.locate_at_point(T::P::of(&p)))?;
        }
        OneQ::AtInt(p) => {
            let p = env.pt(p, m);
            at(&p, t.locate_at_point_int(T::P::of(&p)))?;
        }
        OneQ::AtMut(p) | OneQ::AtIntMut(p) => {
            let p = env.pt(p, m);
            let x = if matches!(q, OneQ::AtMut(_)) {
                t.locate_at_point_mut(T::P::of(&p))
            } else {
                t.locate_at_point_int_mut(T::P::of(&p))
            };
            match x {
                None => {
                    at(&p, None)?;
                }
                Some(x) => {
                    let i = at(&p, Some(x))?.unwrap();
                    if T::EDIT && ctx().quiet.get() == 0 {
                        let v = m[i].pay + 5;
                        x.set_pay(v);
                        return Ok(Some((i, v)));
                    }
                }
            }
        }
        OneQ::Contains(tg) => {
            let (key, g) = match tg {
                Target::Elem(i) => {
                    if m.is_empty() {
                        return Ok(None);
                    }
                    let e = m[*i as usize % m.len()];
                    (e.key, e.g)
                }
                Target::Spec(sp) => (sp.key as u32, canon(sp.g, kinds)),
            };
            let x: T = quietly(|| T::make(Meta::new(u64::MAX, key, 0), &g));
            let want = m.iter().any(|e| e.key == key && env.same_geom(&e.g, &g, kinds));
            let got = t.contains(&x);
            if got != want {
                return Err(format!("contains({x:?}) is {got}"));
            }
        }
        OneQ::Nn(p) => {
            let p = env.pt(p, m);
            near(&p, t.nearest_neighbor(T::P::of(&p)).map(|x| (x, None)))?;
        }
        OneQ::NnD(p) => {
            let p = env.pt(p, m);
            near(
                &p,
                t.nearest_neighbor_with_distance_2(T::P::of(&p)).map(|(x, d)| (x, Some(d.f()))),
            )?;
        }
        OneQ::Nns(p) => {
            let p = env.pt(p, m);
            nears(&p, &t.nearest_neighbors(&T::P::of(&p)), None)?;
        }
        OneQ::NnsD(p) => {
            let p = env.pt(p, m);
            match t.nearest_neighbors_with_distance_2(&T::P::of(&p)) {
                None => nears(&p, &[], None)?,
                Some((v, d)) => nears(&p, &v, Some(d.f()))?,
            }
        }
        OneQ::Size => {
            if t.size() != m.len() {
                return Err(format!("size() is {}, {} expected", t.size(), m.len()));
            }
        }
        OneQ::Debug => {
            let s = format!("{t:?}");
            let n = s.matches("Meta {").count();
            if n != m.len() {
                return Err(format!("Debug output lists {n} objects of {}", m.len()));
            }
        }
    }
    Ok(None)
}

// ------------------------------------------------------------ running

thread_local! {
    static STACKS: RefCell<Vec<DefaultStack>> = const { RefCell::new(Vec::new()) };
}
fn stack() -> DefaultStack {
    STACKS
        .with(|s| s.borrow_mut().pop())
        .unwrap_or_else(|| DefaultStack::new(1 << 20).expect("stack"))
}

pub fn run_world<T: Item, Pr: RTreeParams + Clone + 'static>(sc: &Scenario) {
    let c = ctx();
    let env = Env::of::<T::P>(sc.range);
    let mut slots = Vec::new();
    for init in &sc.slots {
        let mut m = Vec::new();
        let mut objs = Vec::new();
        for sp in &init.es {
            objs.push(model_add::<T>(&mut m, sp).1);
        }
        let r = quietly(|| {
            attempt(|| {
                if init.bulk {
                    RTree::<T, Pr>::bulk_load_with_params(objs)
                } else {
                    let mut t = RTree::new_with_params();
                    for x in objs {
                        t.insert(x);
                    }
                    t
                }
            })
        });
        match r {
            Out::Ok(tree) => slots.push(UnsafeCell::new(Slot {
                tree,
                bulk: init.bulk && !m.is_empty(),
                shrunk: false,
                m,
                cats: 0,
            })),
            Out::Panic(p) => {
                violate(k::CONTENT | k::PROGRESS, format!("building the initial tree panicked: {p}"));
                return;
            }
            _ => return,
        }
    }
    if slots.is_empty() {
        return;
    }
    let n = slots.len();
    let w: World<T, Pr> = World {
        env,
        kinds: T::KINDS,
        slots,
        readers: (0..n).map(|_| Cell::new(0)).collect(),
        writer: (0..n).map(|_| Cell::new(false)).collect(),
        wants: std::array::from_fn(|_| Cell::new(None)),
        files: RefCell::new(vec![None, None]),
        leaks: Cell::new(0),
        verify: sc.verify,
    };
    let w = &w;
    for s in 0..n {
        w.check_slot(s as u8, 0);
    }
    if c.violated() {
        return;
    }

    // ---- clients
    let nc = sc.clients.len().min(MAXC);
    let mut cors = Vec::new();
    for ci in 0..nc {
        let ops = &sc.clients[ci];
        // SAFETY: every coroutine is dropped before the world it borrows
        cors.push(Some(unsafe { Coroutine::<(), (), (), _>::with_stack_unchecked(stack(), move |y: &Yielder, ()| {
            let c = ctx();
            c.yielders[ci].set(y as *const _);
            for (oi, of) in ops.iter().enumerate() {
                if c.violated() {
                    break;
                }
                c.op_idx[ci].set(oi);
                hook(H::Poll, 99);
                let want = of.op.locks(w.slots.len() as u8);
                if w.grantable(want) {
                    w.grant(want);
                } else {
                    w.wants[ci].set(Some(want));
                    probe("client waited for a lock");
                    y.suspend(());
                    c.cur.set(ci);
                }
                if c.log.get() {
                    eprintln!("client {ci} op {oi}: {:?} fault {:?}", of.op, of.fault);
                }
                c.fired[ci].set(None);
                c.armed[ci].set(of.fault);
                *c.ops.borrow_mut().entry(of.op.name()).or_insert(0) += 1;
                let cat = of.op.cat();
                crate::driver::note(cat | if of.fault.is_some() { k::UNWIND | k::OWN } else { 0 });
                if !w.slot(of.op.main_slot()).m.is_empty() || cat & k::CONTENT != 0 || cat & k::DAMAGE != 0 {
                    c.run_cats.set(c.run_cats.get() | cat);
                }
                w.run_op(&of.op);
                c.armed[ci].set(None);
                c.left[ci].set(i64::MAX);
                c.fired[ci].set(None);
                w.release(want);
            }
            c.yielders[ci].set(std::ptr::null());
        }) }));
    }
    let mut pos = 0;
    let mut pick = 0usize;
    let mut last = usize::MAX;
    let mut switches = 0u64;
    let next_gap = |pos: &mut usize| {
        let (g, p) = sc.sched.get(*pos).copied().unwrap_or((0, 0));
        *pos += 1;
        c.countdown.set(g as u64);
        p as usize
    };
    let mut next_pick = next_gap(&mut pos);
    loop {
        let runnable: Vec<usize> = (0..nc)
            .filter(|i| {
                cors[*i].is_some() && w.wants[*i].get().is_none_or(|x| w.grantable(x))
            })
            .collect();
        if runnable.is_empty() {
            if cors.iter().any(|x| x.is_some()) {
                violate(k::PROGRESS, "harness: clients deadlocked");
            }
            break;
        }
        let i = runnable[pick % runnable.len()];
        if last != usize::MAX && last != i {
            switches += 1;
        }
        last = i;
        if let Some(want) = w.wants[i].take() {
            w.grant(want);
        }
        c.cur.set(i);
        c.hash.set(mix(c.hash.get(), 0xabcd_0000 + i as u64));
        if c.log.get() {
            eprintln!("-- client {i} runs");
        }
        let done = matches!(cors[i].as_mut().unwrap().resume(()), CoroutineResult::Return(()));
        if done {
            let st = cors[i].take().unwrap().into_stack();
            STACKS.with(|s| s.borrow_mut().push(st));
            pick = next_pick;
        } else {
            pick = next_pick;
        }
        if c.countdown.get() == 0 {
            next_pick = next_gap(&mut pos);
        }
    }
    probe_n("context switches", switches);
    c.countdown.set(0);
    if c.violated() {
        return;
    }

    // ---- quiescence: everything must hold on every tree
    c.op_idx[c.cur.get()].set(usize::MAX);
    for s in 0..n {
        let cats = w.slot(s as u8).cats;
        w.check_slot(s as u8, cats);
        if c.violated() {
            return;
        }
        if sc.battery != 0 {
            w.battery(s as u8, sc.battery as u64 + s as u64);
        }
        if c.violated() {
            return;
        }
    }
    if T::COSTS && sc.profile == "C21" {
        for s in 0..n {
            let sl = w.slot(s as u8);
            if sl.m.len() >= crate::cost::ENOUGH {
                c.run_cats.set(c.run_cats.get() | k::COST);
            }
            let mut r = Rng::new(sc.battery as u64 + s as u64);
            match attempt(|| crate::cost::battery(&env, sl, &mut r)) {
                Out::Ok(Some(e)) => violate(k::COST, format!("tree {s}: {e}")),
                Out::Panic(p) => violate(k::COST | k::PROGRESS, format!("tree {s}: measuring costs: panicked: {p}")),
                _ => {}
            }
            if c.violated() {
                return;
            }
        }
    }
    // ---- ownership: nothing dropped twice, nothing lost
    quietly(|| {
        for s in 0..n {
            let sl = w.slot(s as u8);
            let t = std::mem::replace(&mut sl.tree, RTree::new_with_params());
            drop(t);
        }
    });
    if c.double_drop.get() {
        violate(k::OWN | k::CONTENT, "an object was dropped twice");
    }
    let live = c.live_count.get();
    if w.leaks.get() > 0 {
        c.forgot.set(true);
    }
    if live > w.leaks.get() {
        violate(
            k::OWN | k::LEAK,
            format!("{live} objects were never dropped, at most {} may be leaked", w.leaks.get()),
        );
    }
    let _ = Quietly(());
}
