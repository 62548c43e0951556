//! Consuming iterators the way real callers do: `for_each`, `count`, `last`,
//! `nth`, `step_by`, `collect`, short-circuiting searches and so on, instead
//! of polling `next()`; and trees of references (`ObjectRef`) to the objects
//! of another tree. Part of the battery that ends a run.
use crate::ctx::*;
use crate::exec::*;
use crate::item::*;
use crate::rng::Rng;
use crate::scenario::*;
use crate::with_drain;
use crate::with_mut;
use crate::with_query;
use rstar::primitives::ObjectRef;
use rstar::*;

const STYLES: u64 = 10;

#[derive(Clone, Copy, Debug)]
pub struct Style {
    /// polls of `next()` first
    pre: usize,
    how: u64,
    k: usize,
}
impl Style {
    fn new(r: &mut Rng) -> Style {
        Style {
            pre: if r.chance(1, 2) { 0 } else { r.logu(12) as usize },
            how: r.below(STYLES),
            k: r.us(5),
        }
    }
    fn name(&self) -> &'static str {
        ["for_each", "count", "last", "nth", "collect", "find", "take, then fold", "step_by", "extend", "fuse"]
            [self.how as usize]
    }
}

/// What a consumption showed: each object seen with the number of objects
/// passed over before it (`None`: unknown), and bounds on the unseen rest.
struct Meal<X> {
    seen: Vec<(Option<usize>, X)>,
    tail: (usize, usize),
}

fn eat<I: Iterator>(mut it: I, st: Style) -> Meal<I::Item> {
    let mut seen = Vec::new();
    let mut tail = (0, 0);
    for _ in 0..st.pre {
        match it.next() {
            Some(x) => seen.push((Some(0), x)),
            None => return Meal { seen, tail },
        }
    }
    match st.how {
        0 => it.for_each(|x| seen.push((Some(0), x))),
        1 => {
            let n = it.count();
            tail = (n, n);
        }
        2 => {
            if let Some(x) = it.last() {
                seen.push((None, x));
            }
        }
        3 => {
            while let Some(x) = it.nth(st.k) {
                seen.push((Some(st.k), x));
            }
            tail = (0, st.k);
        }
        4 => {
            let v: Vec<_> = it.collect();
            seen.extend(v.into_iter().map(|x| (Some(0), x)));
        }
        5 => {
            // stop a short-circuiting search after a while, then go on
            loop {
                let mut left = st.k + 1;
                let found = it.by_ref().try_for_each(|x| {
                    seen.push((Some(0), x));
                    left -= 1;
                    if left == 0 {
                        Err(())
                    } else {
                        Ok(())
                    }
                });
                if found.is_ok() {
                    break;
                }
            }
        }
        6 => {
            it.by_ref().take(st.k).for_each(|x| seen.push((Some(0), x)));
            it.fold((), |(), x| seen.push((Some(0), x)));
        }
        7 => {
            let mut first = true;
            for x in it.step_by(st.k + 1) {
                seen.push((Some(if first { 0 } else { st.k }), x));
                first = false;
            }
            tail = (0, st.k);
        }
        8 => {
            let mut v = Vec::new();
            v.extend(it);
            seen.extend(v.into_iter().map(|x| (Some(0), x)));
        }
        _ => {
            let mut it = it.fuse();
            for x in it.by_ref() {
                seen.push((Some(0), x));
            }
            if let Some(x) = it.next() {
                seen.push((Some(0), x));
            }
        }
    }
    Meal { seen, tail }
}

fn digest<T: Item, X>(
    env: &Env,
    ex: &mut Expect,
    m: &[El],
    meal: &Meal<X>,
    f: impl Fn(&X) -> (&T, Option<f64>),
) -> Result<(), String> {
    let mut all = meal.tail.1 == 0;
    let mut unknown = false;
    for (sk, x) in &meal.seen {
        match sk {
            Some(n) => {
                ex.skip(*n);
                all &= *n == 0;
            }
            None => {
                if ex.is_nn() {
                    ex.skip(ex.may.saturating_sub(1 + ex.got()));
                }
                unknown = true;
                all = false;
            }
        }
        let (x, d) = f(x);
        ex.yielded(env, m, x, d)?;
    }
    if all {
        return ex.finished();
    }
    if !unknown {
        let (lo, hi) = (ex.got() + meal.tail.0, ex.got() + meal.tail.1);
        if lo > ex.may || hi < ex.must {
            return Err(format!(
                "{lo} to {hi} objects in all, {} to {} expected",
                ex.must, ex.may
            ));
        }
    }
    Ok(())
}

type Bad = Option<(u32, String)>;

fn bad(kinds: u32, what: &str, r: Out<Result<(), String>>) -> Bad {
    match r {
        Out::Ok(Ok(())) => None,
        Out::Ok(Err(e)) => Some((kinds, format!("{what}: {e}"))),
        Out::Panic(p) => Some((kinds | k::PROGRESS, format!("{what}: panicked: {p}"))),
        _ => None,
    }
}
fn run(kinds: u32, what: impl Fn() -> String, f: impl FnOnce() -> Result<(), String>) -> Bad {
    let r = quietly(|| attempt(f));
    bad(kinds, &what(), r)
}

#[allow(deprecated)]
pub fn battery<T: Item, Pr: RTreeParams + Clone + 'static>(
    env: &Env,
    sl: &mut Slot<T, Pr>,
    r: &mut Rng,
) -> Bad {
    let mut sp = crate::gen::plain_space(r, env);
    let m = sl.m.clone();
    // queries
    for _ in 0..4 {
        let q = sp.q(r, &[2, 1, 4, 4, 3, 4, 3, 1, 2, 3, 1]);
        let st = Style::new(r);
        let rq = env.rq(&q, &m);
        let kinds = if matches!(rq, RQ::Nn(_)) { k::NN } else { k::QUERY };
        let tree = &sl.tree;
        let b = run(kinds, || format!("{rq:?} consumed by {st:?} ({})", st.name()), || {
            let mut ex = Expect::new(env, &rq, &m);
            let meal = with_query!(T, tree, &q, &rq, |it, f| eat(Hint(it, f), st));
            digest(env, &mut ex, &m, &meal, |x| (x.0, x.1))
        });
        if b.is_some() {
            return b;
        }
    }
    // mutable traversals
    {
        let q = sp.q(r, &[2, 2, 4, 4, 3, 0, 3, 1, 0, 0, 0]);
        let st = Style::new(r);
        let rq = mut_rq(env.rq(&q, &m));
        let tree = &mut sl.tree;
        let b = run(k::MUT, || format!("mutable traversal {rq:?} consumed by {st:?} ({})", st.name()), || {
            let mut ex = Expect::new(env, &rq, &m);
            let meal = with_mut!(T, tree, &q, &rq, |it| eat(it, st));
            digest(env, &mut ex, &m, &meal, |x| (&**x, None))
        });
        if b.is_some() {
            return b;
        }
    }
    // drains and consumption, on a copy
    if r.chance(1, 2) {
        let q = sp.q(r, &[2, 0, 4, 4, 0, 4, 4, 1, 0, 0, 0]);
        let st = Style::new(r);
        let rq = drain_rq(env.rq(&q, &m));
        let tree = &sl.tree;
        let mut copy = None;
        let b = run(k::CLONE, || "cloning".into(), || {
            copy = Some(tree.clone());
            content(env, copy.as_ref().unwrap(), &m)
        });
        if b.is_some() {
            return b;
        }
        let mut copy = copy.unwrap();
        let b = if r.chance(2, 3) {
            run(k::DRAIN, || format!("drain {rq:?} consumed by {st:?} ({})", st.name()), || {
                let mut ex = Expect::new(env, &rq, &m);
                let meal = with_drain!(T, copy, &q, &rq, |it| eat(it, st));
                digest(env, &mut ex, &m, &meal, |x| (x, None))?;
                // everything that matched is gone, nothing else
                let ids: Vec<u64> = copy.iter().map(|x| x.meta().id).collect();
                let left: Vec<El> = m
                    .iter()
                    .filter(|e| match env.matches(&rq, e) {
                        crate::geom::Tri::Yes => false,
                        crate::geom::Tri::No => true,
                        crate::geom::Tri::Maybe => ids.contains(&e.id),
                    })
                    .copied()
                    .collect();
                content(env, &copy, &left)?;
                structure(&copy, false, false).map(|_| ())
            })
        } else {
            run(k::OWN | k::CONTENT, || format!("into_iter() consumed by {st:?} ({})", st.name()), || {
                let mut ex = Expect::new(env, &RQ::All, &m);
                let meal = eat(copy.into_iter(), st);
                digest(env, &mut ex, &m, &meal, |x| (x, None))
            })
        };
        if b.is_some() {
            return b;
        }
    }
    // self join
    if r.chance(1, 3) && m.len() <= 60 {
        let st = Style::new(r);
        let tree = &sl.tree;
        let b = run(k::JOIN, || format!("self join consumed by {st:?} ({})", st.name()), || {
            let other: RTree<ObjectRef<T>> = RTree::bulk_load(tree.iter().map(ObjectRef::new).collect());
            let meal = eat(tree.intersection_candidates_with_other_tree(&other), st);
            let mut got: Vec<(u64, u64)> =
                meal.seen.iter().map(|(_, (a, b))| (a.meta().id, b.meta().id)).collect();
            let skipped: usize = meal.seen.iter().map(|x| x.0.unwrap_or(0)).sum();
            let unknown = meal.seen.iter().any(|x| x.0.is_none());
            let mut want: Vec<(u64, u64)> = Vec::new();
            for a in m.iter() {
                for b in m.iter() {
                    if a.g.b().intersects(&b.g.b(), env.d) {
                        want.push((a.id, b.id));
                    }
                }
            }
            want.sort_unstable();
            let n = got.len();
            got.sort_unstable();
            got.dedup();
            if got.len() != n {
                return Err("a pair was yielded twice".into());
            }
            if let Some(p) = got.iter().find(|p| want.binary_search(p).is_err()) {
                return Err(format!("pair {p:?} does not intersect"));
            }
            let (lo, hi) = (n + skipped + meal.tail.0, n + skipped + meal.tail.1);
            if !unknown && (lo > want.len() || hi < want.len()) {
                return Err(format!("{lo} to {hi} pairs instead of {}", want.len()));
            }
            Ok(())
        });
        if b.is_some() {
            return b;
        }
    }
    if r.chance(1, 4) {
        return refs(env, sl, r, &mut sp, &m);
    }
    None
}

/// A tree of references to the objects of this tree.
fn refs<T: Item, Pr: RTreeParams + 'static>(
    env: &Env,
    sl: &Slot<T, Pr>,
    r: &mut Rng,
    sp: &mut crate::gen::Space,
    m: &[El],
) -> Bad {
    let tree = &sl.tree;
    let bulk = r.chance(1, 2);
    let mut rt: Option<RTree<ObjectRef<T>, Pr>> = None;
    let b = run(k::QUERY | k::NN | k::CONTENT, || "building a tree of references".into(), || {
        let objs = tree.iter().map(ObjectRef::new);
        let t = if bulk {
            RTree::bulk_load_with_params(objs.collect())
        } else {
            let mut t = RTree::new_with_params();
            objs.for_each(|x| t.insert(x));
            t
        };
        if t.size() != m.len() {
            return Err(format!("size() is {} instead of {}", t.size(), m.len()));
        }
        structure(&t, !bulk, !bulk)?;
        rt = Some(t);
        Ok(())
    });
    if b.is_some() {
        return b;
    }
    let Some(mut rt) = rt else { return None };
    for _ in 0..4 {
        let q = sp.q(r, &[1, 0, 3, 3, 3, 3, 0, 0, 3, 3, 0]);
        let rq = env.rq(&q, m);
        let kinds = if matches!(rq, RQ::Nn(_)) { k::NN } else { k::QUERY };
        let b = run(kinds, || format!("tree of references: {rq:?}"), || {
            let mut ex = Expect::new(env, &rq, m);
            let mut res: Vec<(&T, Option<f64>)> = Vec::new();
            let p = |p: &crate::geom::C| T::P::of(p);
            match &rq {
                RQ::InEnv(b) => res.extend(rt.locate_in_envelope(sel_env(b)).map(|x| (&**x, None))),
                RQ::Isect(b) => {
                    res.extend(rt.locate_in_envelope_intersecting(sel_env(b)).map(|x| (&**x, None)))
                }
                RQ::At(c) => {
                    res.extend(rt.locate_all_at_point(p(c)).map(|x| (&**x, None)));
                    if rt.locate_at_point(p(c)).is_some() == res.is_empty() {
                        return Err("locate_at_point() disagrees with locate_all_at_point()".into());
                    }
                }
                RQ::Within(c, d) => {
                    res.extend(rt.locate_within_distance(p(c), radius::<T>(d)).map(|x| (&**x, None)))
                }
                RQ::Nn(c) => {
                    res.extend(
                        rt.nearest_neighbor_iter_with_distance_2(p(c)).map(|(x, d)| (&**x, Some(d.f()))),
                    );
                    let n = rt.nearest_neighbor(p(c)).map(|x| x.meta().id);
                    if n.is_some() == m.is_empty() {
                        return Err("nearest_neighbor() is wrong about emptiness".into());
                    }
                    if let Some(id) = n {
                        let min = m.iter().map(|e| e.g.d2f(c, env.d)).fold(f64::INFINITY, f64::min);
                        let e = m.iter().find(|e| e.id == id).unwrap();
                        if !env.close(e.g.d2f(c, env.d), min, e.g.inexact()) {
                            return Err(format!("nearest_neighbor() is #{id}, which is not nearest"));
                        }
                    }
                }
                _ => res.extend(rt.iter().map(|x| (&**x, None))),
            }
            for (x, d) in res {
                ex.yielded(env, m, x, d)?;
            }
            ex.finished()
        });
        if b.is_some() {
            return b;
        }
    }
    if m.is_empty() {
        return None;
    }
    // the references name the objects of the other tree, until they are removed
    let i = r.us(m.len());
    run(k::QUERY | k::REMOVE, || "tree of references".into(), || {
        let Some(x) = tree.iter().find(|x| x.meta().id == m[i].id) else {
            return Err(format!("object #{} not found", m[i].id));
        };
        if !rt.contains(&ObjectRef::new(x)) {
            return Err(format!("does not contain object #{}", m[i].id));
        }
        match rt.remove(&ObjectRef::new(x)) {
            Some(y) if y.meta().key == m[i].key => {}
            Some(y) => return Err(format!("remove of #{} took #{}", m[i].id, y.meta().id)),
            None => return Err(format!("remove of #{} found nothing", m[i].id)),
        }
        if rt.size() + 1 != m.len() || rt.iter().count() != rt.size() {
            return Err("wrong size after a removal".into());
        }
        structure(&rt, false, false).map(|_| ())
    })
}
