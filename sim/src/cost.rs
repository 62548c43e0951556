//! What operations cost, in simulated time: the steps (callbacks on stored
//! objects and selection functions) they take on a large tree of
//! non-degenerate objects, after whatever history.
use crate::ctx::*;
use crate::exec::*;
use crate::geom::*;
use crate::item::*;
use crate::rng::Rng;
use rstar::*;
use std::cell::Cell;
use std::ops::ControlFlow;
use std::sync::atomic::Ordering::Relaxed;

/// Trees below this size say nothing about growth.
pub const ENOUGH: usize = 500;

struct Meter {
    name: &'static str,
    calls: u64,
    steps: Steps,
    results: u64,
}

/// Instrumented builds (feature `work`, see build.sh) call this on every edge
/// of the control flow, the library's included: a deterministic measure of
/// the work done between two callbacks.
#[cfg(feature = "work")]
#[unsafe(no_mangle)]
pub extern "C" fn __sanitizer_cov_trace_pc() {
    WORKED.store(WORKED.load(Relaxed) + 1, Relaxed);
}
static WORKED: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);

/// Steps: callbacks on objects and of selection functions; methods of
/// user-defined envelopes; edges of the control flow taken.
type Steps = (u64, u64, u64);
fn timed<R>(f: impl FnOnce() -> R) -> (R, Steps) {
    let c = ctx();
    let q = c.quiet.replace(0);
    let now = || (c.steps.get(), c.counts[H::EnvM as usize].get());
    let a = now();
    let w = WORKED.load(Relaxed);
    let r = f();
    let w = WORKED.load(Relaxed) - w;
    let b = now();
    c.quiet.set(q);
    (r, (b.0 - a.0 - (b.1 - a.1), b.1 - a.1, w))
}

/// Bytes allocated, and bytes still held.
fn bytes<R>(f: impl FnOnce() -> R) -> (R, u64, i64) {
    let now = || (ALLOC_BYTES.load(Relaxed), ALLOC_LIVE.load(Relaxed));
    let a = now();
    let r = f();
    let b = now();
    (r, b.0 - a.0, b.1 - a.1)
}

struct Bench {
    m: Vec<Meter>,
}
impl Bench {
    fn add(&mut self, name: &'static str, (results, steps): (usize, Steps)) {
        let x = match self.m.iter_mut().position(|x| x.name == name) {
            Some(i) => &mut self.m[i],
            None => {
                self.m.push(Meter { name, calls: 0, steps: (0, 0, 0), results: 0 });
                self.m.last_mut().unwrap()
            }
        };
        x.calls += 1;
        x.steps.0 += steps.0;
        x.steps.1 += steps.1;
        x.steps.2 += steps.2;
        x.results += results as u64;
    }
}

fn uniform(env: &Env, r: &mut Rng) -> C {
    let range = env.range as i64;
    let mut c = [0i16; MAXD];
    for v in c.iter_mut().take(env.d) {
        *v = r.range(-range, range) as i16;
    }
    c
}

/// Many small operations on a tree of the given objects.
fn measure<T: Item, Pr: RTreeParams + Clone + 'static>(env: &Env, tree: &mut RTree<T, Pr>, m: &[El], r: &mut Rng) -> Bench {
    // half the side of a box that holds about four objects
    let w = ((env.range as f64) * (4.0 / m.len() as f64).powf(1.0 / env.d as f64)).ceil() as i16;
    let mut b = Bench { m: vec![] };
    for i in 0..24 {
        let c = if i % 3 == 0 { uniform(env, r) } else { r.pick(m).g.corner(0) };
        let p = <T::P as Pt>::of(&c);
        let (mut lo, mut hi) = (c, c);
        for j in 0..env.d {
            lo[j] = c[j].saturating_sub(w);
            hi[j] = c[j].saturating_add(w);
        }
        let bx = || T::E::of(AABB::from_corners(<T::P as Pt>::of(&lo), <T::P as Pt>::of(&hi)));
        let rad = || <S<T::P> as Sc>::raw((w as f64 * unit::<T::P>()).powi(2));
        let t = &mut *tree;
        let visit = |k: &Cell<usize>| k.set(k.get() + 1);
        macro_rules! go {
            ($name:literal, $e:expr) => {
                b.add($name, timed(|| $e))
            };
        }
        macro_rules! int {
            ($name:literal, $f:ident, $a:expr, $t:ty) => {{
                let k = Cell::new(0);
                let (_, s) = timed(|| {
                    t.$f($a, |_: $t| {
                        visit(&k);
                        ControlFlow::<()>::Continue(())
                    })
                });
                b.add($name, (k.get(), s));
            }};
        }
        go!("size", (t.size() == 0) as usize);
        go!("iter, first object", t.iter().take(1).count());
        go!("iter_mut, first object", t.iter_mut().take(1).count());
        go!("locate_at_point", t.locate_at_point(p.clone()).is_some() as usize);
        go!("locate_at_point_int", t.locate_at_point_int(p.clone()).is_some() as usize);
        go!("locate_at_point_mut", t.locate_at_point_mut(p.clone()).is_some() as usize);
        go!("locate_at_point_int_mut", t.locate_at_point_int_mut(p.clone()).is_some() as usize);
        go!("locate_all_at_point", t.locate_all_at_point(p.clone()).count());
        go!("locate_all_at_point_mut", t.locate_all_at_point_mut(p.clone()).count());
        int!("locate_all_at_point_int", locate_all_at_point_int, p.clone(), &T);
        int!("locate_all_at_point_int_mut", locate_all_at_point_int_mut, p.clone(), &mut T);
        go!("locate_in_envelope", t.locate_in_envelope(bx()).count());
        go!("locate_in_envelope_mut", t.locate_in_envelope_mut(bx()).count());
        int!("locate_in_envelope_int", locate_in_envelope_int, bx(), &T);
        int!("locate_in_envelope_int_mut", locate_in_envelope_int_mut, bx(), &mut T);
        go!("locate_in_envelope_intersecting", t.locate_in_envelope_intersecting(bx()).count());
        go!("locate_in_envelope_intersecting_mut", t.locate_in_envelope_intersecting_mut(bx()).count());
        int!("locate_in_envelope_intersecting_int", locate_in_envelope_intersecting_int, bx(), &T);
        int!("locate_in_envelope_intersecting_int_mut", locate_in_envelope_intersecting_int_mut, bx(), &mut T);
        go!("locate_within_distance", t.locate_within_distance(p.clone(), rad()).count());
        go!("locate_with_selection_function", {
            t.locate_with_selection_function(Near(bx())).count()
        });
        go!("locate_with_selection_function_mut", {
            t.locate_with_selection_function_mut(Near(bx())).count()
        });
        go!("nearest_neighbor", t.nearest_neighbor(p.clone()).is_some() as usize);
        go!("nearest_neighbor_with_distance_2", t.nearest_neighbor_with_distance_2(p.clone()).is_some() as usize);
        go!("nearest_neighbors", t.nearest_neighbors(&p).len());
        go!("nearest_neighbor_iter", t.nearest_neighbor_iter(p.clone()).take(3).count());
        go!("nearest_neighbor_iter_with_distance_2", {
            t.nearest_neighbor_iter_with_distance_2(p.clone()).take(3).count()
        });
        let e = *r.pick(m);
        let x: T = make(&e);
        go!("contains", t.contains(&x) as usize);
    }
    // updates, amortised over a batch that is undone again
    let news: Vec<(El, C)> = (0..40)
        .map(|i| {
            let c = uniform(env, r);
            (El { id: 1_000_000 + i, key: 9000 + i as u32, pay: 0, g: canon(Geom::Pt(c), T::KINDS) }, c)
        })
        .collect();
    for (e, _) in &news {
        let x: T = make(e);
        b.add("insert", timed(|| {
            tree.insert(x);
            1
        }));
    }
    let mut back = Vec::new();
    for (i, (e, c)) in news.iter().enumerate() {
        let p = <T::P as Pt>::of(c);
        let x: T = make(e);
        let t = &mut *tree;
        let y = match i % 4 {
            0 => {
                let (y, s) = timed(|| t.remove(&x));
                b.add("remove", (1, s));
                y
            }
            1 => {
                let (y, s) = timed(|| t.remove_at_point(p.clone()));
                b.add("remove_at_point", (1, s));
                y
            }
            2 => {
                let f = Near(T::E::of(AABB::from_point(p.clone())));
                let (y, s) = timed(|| t.remove_with_selection_function(f));
                b.add("remove_with_selection_function", (1, s));
                y
            }
            _ => {
                let (y, s) = timed(|| t.pop_nearest_neighbor(p.clone()));
                b.add("pop_nearest_neighbor", (1, s));
                y
            }
        };
        // some other object may lie at the same place
        back.extend(y.filter(|y| y.meta().id < 1_000_000));
    }
    for i in 0..16 {
        let c = r.pick(m).g.corner(0);
        let (mut lo, mut hi) = (c, c);
        for j in 0..env.d {
            lo[j] = c[j].saturating_sub(w);
            hi[j] = c[j].saturating_add(w);
        }
        let bx = T::E::of(AABB::from_corners(<T::P as Pt>::of(&lo), <T::P as Pt>::of(&hi)));
        let p = <T::P as Pt>::of(&c);
        let rad = <S<T::P> as Sc>::raw((w as f64 * unit::<T::P>()).powi(2));
        let k = if i & 4 == 0 { usize::MAX } else { 1 };
        let t = &mut *tree;
        let got = &mut back;
        let (name, (l, s)) = match i % 4 {
            0 => ("drain_in_envelope", timed(|| {
                got.extend(t.drain_in_envelope(bx).take(k));
                got.len()
            })),
            1 => ("drain_in_envelope_intersecting", timed(|| {
                got.extend(t.drain_in_envelope_intersecting(bx).take(k));
                got.len()
            })),
            2 => ("drain_within_distance", timed(|| {
                got.extend(t.drain_within_distance(p, rad).take(k));
                got.len()
            })),
            _ => ("drain_with_selection_function", timed(|| {
                got.extend(t.drain_with_selection_function(Near(bx)).take(k));
                got.len()
            })),
        };
        b.add(name, (l, s));
        for x in back.drain(..) {
            if x.meta().id < 1_000_000 {
                tree.insert(x);
            }
        }
    }
    b
}

/// Returns a complaint, if some kind of operation was far too slow.
pub fn battery<T: Item, Pr: RTreeParams + Clone + 'static>(
    env: &Env,
    sl: &mut Slot<T, Pr>,
    r: &mut Rng,
) -> Option<String> {
    let n = sl.m.len();
    if n < ENOUGH {
        return None;
    }
    let shape = match structure(&sl.tree, false, false) {
        Ok(s) => s,
        Err(_) => return None,
    };
    if r.chance(1, 30) {
        if let Some(x) = huge::<T, Pr>(env, r) {
            return Some(x);
        }
    }
    let (mx, h, d) = (Pr::MAX_SIZE as f64, shape.height as f64, env.d as f64);
    let mut b = measure(env, &mut sl.tree, &sl.m, r);
    let (mut small, mut tiny) = (RTree::<T, Pr>::new_with_params(), RTree::<T>::new());
    for _ in 0..8 {
        small.insert(make(r.pick(&sl.m)));
        tiny.insert(make(r.pick(&sl.m)));
    }
    let all = |m: &[El]| m.iter().map(|e| make(e)).collect::<Vec<T>>();
    let other: RTree<T> = quietly(|| RTree::bulk_load(all(&sl.m)));
    b.add("join with a small tree", timed(|| sl.tree.intersection_candidates_with_other_tree(&tiny).count()));
    b.add("join of a small tree", timed(|| small.intersection_candidates_with_other_tree(&other).count()));
    let objs = all(&sl.m);
    let ((loaded, bulk), bulk_mem, _) = bytes(|| timed(|| RTree::<T, Pr>::bulk_load_with_params(objs)));
    quietly(|| drop(loaded));
    let (_, join) = timed(|| sl.tree.intersection_candidates_with_other_tree(&other).count());
    // memory held in the end, without what the objects own
    let ((copy, clone), _, clone_live) = bytes(|| timed(|| sl.tree.clone()));
    quietly(|| drop(copy));
    let (loaded, _, bulk_live) = bytes(|| quietly(|| RTree::<T, Pr>::bulk_load_with_params(all(&sl.m))));
    quietly(|| drop(loaded));
    let (grown, _, grow_live) = bytes(|| {
        quietly(|| {
            let mut t: RTree<T, Pr> = RTree::new_with_params();
            sl.m.iter().for_each(|e| t.insert(make(e)));
            t
        })
    });
    quietly(|| drop(grown));

    let nf = n as f64;
    let mut j = Judge { n, mx, h, d, worst: None };
    j.ops(&b);
    let mut see = |name: &str, got: f64, bound: f64| j.see(name, got, bound);
    see("bulk_load (work)", bulk.2 as f64, 24.0 * 12.0 * nf * nf.log2() * d);
    see("join (work)", join.2 as f64, 18.0 * 10.0 * nf * mx * h);
    see("clone (work)", clone.2 as f64, 40.0 * nf * 4.0);
    see("bulk_load", bulk.0 as f64, 12.0 * nf * nf.log2() * d);
    see("bulk_load (envelope methods)", bulk.1 as f64, 12.0 * nf * nf.log2() * d);
    see("join", join.0 as f64, 10.0 * nf * mx * h);
    see("join (envelope methods)", join.1 as f64, 20.0 * nf * mx * h);
    see("clone", clone.0 as f64, nf * 4.0);
    see("clone (envelope methods)", clone.1 as f64, nf * 4.0);
    let cell = std::mem::size_of::<RTreeNode<T>>() as f64;
    see("bulk_load (bytes)", bulk_mem as f64, 5.0 * nf * nf.log2() * cell);
    see("clone (bytes held)", clone_live as f64, 30.0 * nf * cell);
    see("bulk_load (bytes held)", bulk_live as f64, 30.0 * nf * cell);
    see("growing (bytes held)", grow_live as f64, 30.0 * nf * cell);
    j.worst
}

/// Work between callbacks shows in a tree of tens of thousands of objects.
fn huge<T: Item, Pr: RTreeParams + Clone + 'static>(env: &Env, r: &mut Rng) -> Option<String> {
    let n = 30_000 + r.us(20_000);
    let m: Vec<El> = (0..n as u64)
        .map(|i| {
            let c = uniform(env, r);
            El { id: 2_000_000 + i, key: 0, pay: 0, g: canon(Geom::Pt(c), T::KINDS) }
        })
        .collect();
    let mut tree: RTree<T, Pr> = quietly(|| RTree::bulk_load_with_params(m.iter().map(|e| make(e)).collect()));
    let h = structure(&tree, false, false).ok()?.height as f64;
    let b = measure(env, &mut tree, &m, r);
    quietly(|| drop(tree));
    let mut j = Judge { n, mx: Pr::MAX_SIZE as f64, h, d: env.d as f64, worst: None };
    j.ops(&b);
    j.worst
}

struct Judge {
    n: usize,
    mx: f64,
    h: f64,
    d: f64,
    worst: Option<String>,
}
impl Judge {
    fn see(&mut self, name: &str, got: f64, bound: f64) {
        if got > bound && self.worst.is_none() {
            let Judge { n, h, mx, .. } = self;
            self.worst = Some(format!(
                "{name} took {got:.0} steps (or bytes) on average in a tree of {n} objects ({h} levels, MAX_SIZE {mx}); at most {bound:.0} were expected"
            ));
        }
    }
    fn ops(&mut self, b: &Bench) {
        let Judge { h, mx, d, .. } = *self;
        for m in &b.m {
            let k = m.calls as f64;
            let unit = match m.name {
                "size" => 1.0,
                "insert" => 3.0 * mx * mx * d * h,
                "locate_with_selection_function" | "locate_with_selection_function_mut" | "drain_with_selection_function" => 18.0 * mx * h,
                "join with a small tree" | "join of a small tree" => 80.0 * mx * h,
                "contains" | "locate_at_point" | "locate_at_point_int" | "locate_at_point_mut" | "locate_at_point_int_mut" => 3.0 * mx * h,
                "locate_all_at_point" | "locate_all_at_point_int" | "locate_all_at_point_mut" | "locate_all_at_point_int_mut" => 4.0 * mx * h,
                "nearest_neighbor" | "nearest_neighbor_with_distance_2" | "nearest_neighbors" => 5.0 * mx * h,
                _ => 10.0 * mx * h,
            };
            self.see(m.name, m.steps.0 as f64 / k, unit + 10.0 * m.results as f64 / k);
            self.see(&format!("{} (envelope methods)", m.name), m.steps.1 as f64 / k, 3.0 * unit + 20.0 * m.results as f64 / k);
            let each = match m.name {
                // (its bound has a factor for the dimensions already)
                "insert" => 80.0,
                x if x.contains("nearest") => 30.0 * d,
                x if x.starts_with("drain") => 24.0 * d,
                "locate_within_distance" => 16.0 * d,
                _ => 12.0 * d,
            };
            self.see(&format!("{} (work)", m.name), m.steps.2 as f64 / k, each * (unit + 10.0 * m.results as f64 / k));
            if m.name == "insert" {
                // splits and reinsertions take many callbacks, too
                let steps = (m.steps.0 + m.steps.1) as f64 / k;
                self.see("insert (work between callbacks)", m.steps.2 as f64 / k, 60.0 * d * (mx * mx * h + steps));
            }
        }
    }
}


struct Near<E>(E);
impl<T: Item> SelectionFunction<T> for Near<T::E> {
    fn should_unpack_parent(&self, e: &T::E) -> bool {
        hook(H::SelP, 0);
        self.0.intersects(e)
    }
    fn should_unpack_leaf(&self, t: &T) -> bool {
        hook(H::SelL, t.meta().id);
        quietly(|| self.0.contains_envelope(&t.envelope()))
    }
}
