//! Shrinks a failing scenario while it keeps failing the same way.
use crate::scenario::*;
use std::time::{Duration, Instant};

pub struct Min<'a> {
    pub best: Scenario,
    pub tries: u64,
    deadline: Instant,
    fails: &'a mut dyn FnMut(&Scenario) -> bool,
}

impl<'a> Min<'a> {
    pub fn new(sc: Scenario, limit: Duration, fails: &'a mut dyn FnMut(&Scenario) -> bool) -> Self {
        Min { best: sc, tries: 0, deadline: Instant::now() + limit, fails }
    }
    fn out(&self) -> bool {
        Instant::now() > self.deadline
    }
    fn attempt(&mut self, f: impl FnOnce(&mut Scenario)) -> bool {
        if self.out() {
            return false;
        }
        let mut c = self.best.clone();
        f(&mut c);
        if c == self.best {
            return false;
        }
        self.tries += 1;
        if (self.fails)(&c) {
            self.best = c;
            true
        } else {
            false
        }
    }
    /// Remove chunks of a list, halving the chunk size.
    fn list<T>(&mut self, len: impl Fn(&Scenario) -> usize, get: impl Fn(&mut Scenario) -> &mut Vec<T>) -> bool {
        let mut any = false;
        let mut size = len(&self.best);
        while size >= 1 {
            let mut i = 0;
            while i < len(&self.best) && !self.out() {
                let n = size.min(len(&self.best) - i);
                if self.attempt(|s| {
                    get(s).drain(i..i + n);
                }) {
                    any = true;
                } else {
                    i += n;
                }
            }
            size /= 2;
        }
        any
    }
    pub fn run(&mut self) {
        loop {
            let mut any = false;
            // clients, operations
            any |= self.list(|s| s.clients.len(), |s| &mut s.clients);
            for c in 0..self.best.clients.len() {
                any |= self.list(|s| s.clients[c].len(), |s| &mut s.clients[c]);
            }
            any |= self.list(|s| s.sched.len(), |s| &mut s.sched);
            // objects
            for i in 0..self.best.slots.len() {
                any |= self.list(|s| s.slots[i].es.len(), |s| &mut s.slots[i].es);
                any |= self.attempt(|s| s.slots[i].bulk = false);
            }
            while self.best.slots.len() > 1 && self.attempt(|s| {
                s.slots.pop();
            }) {
                any = true;
            }
            for c in 0..self.best.clients.len() {
                for o in 0..self.best.clients[c].len() {
                    any |= self.attempt(|s| s.clients[c][o].fault = None);
                    any |= self.op(c, o);
                }
            }
            any |= self.attempt(|s| s.battery = 0);
            any |= self.attempt(|s| {
                s.exact = true;
                s.exp = 0
            });
            any |= self.attempt(|s| s.off = 0);
            any |= self.attempt(|s| s.verify = 1);
            if self.best.cluster.is_some() {
                any |= self.cluster();
            }
            if !any || self.out() {
                break;
            }
        }
        self.coords();
    }
    fn op(&mut self, c: usize, o: usize) -> bool {
        let mut any = false;
        match self.best.clients[c][o].op.clone() {
            Op::Batch { .. } => {
                any |= self.list(
                    |s| if let Op::Batch { es, .. } = &s.clients[c][o].op { es.len() } else { 0 },
                    |s| if let Op::Batch { es, .. } = &mut s.clients[c][o].op { es } else { unreachable!() },
                );
            }
            Op::Bulk { .. } => {
                any |= self.list(
                    |s| if let Op::Bulk { es, .. } = &s.clients[c][o].op { es.len() } else { 0 },
                    |s| if let Op::Bulk { es, .. } = &mut s.clients[c][o].op { es } else { unreachable!() },
                );
            }
            Op::Session { .. } => {
                any |= self.list(
                    |s| if let Op::Session { script, .. } = &s.clients[c][o].op { script.len() } else { 0 },
                    |s| if let Op::Session { script, .. } = &mut s.clients[c][o].op { script } else { unreachable!() },
                );
                any |= self.list(
                    |s| if let Op::Session { cursors, .. } = &s.clients[c][o].op { cursors.len() } else { 0 },
                    |s| if let Op::Session { cursors, .. } = &mut s.clients[c][o].op { cursors } else { unreachable!() },
                );
            }
            Op::Visit { nested: Some(_), .. } => {
                any |= self.attempt(|s| {
                    if let Op::Visit { nested, .. } = &mut s.clients[c][o].op {
                        *nested = None
                    }
                });
            }
            Op::Drain { .. } | Op::MutIter { .. } | Op::Consume { .. } => {
                for v in [0, 1, 2, 3, 5, 8] {
                    let done = self.attempt(|s| match &mut s.clients[c][o].op {
                        Op::Drain { take, .. } | Op::MutIter { take, .. } | Op::Consume { take, .. } => {
                            if *take > v {
                                *take = v
                            }
                        }
                        _ => {}
                    });
                    if done {
                        any = true;
                        break;
                    }
                }
            }
            Op::Damage { .. } => {
                any |= self.list(
                    |s| if let Op::Damage { d, .. } = &s.clients[c][o].op { d.len() } else { 0 },
                    |s| if let Op::Damage { d, .. } = &mut s.clients[c][o].op { d } else { unreachable!() },
                );
            }
            Op::Save { .. } | Op::Load { .. } => {
                any |= self.attempt(|s| {
                    if let Op::Save { io, .. } | Op::Load { io, .. } = &mut s.clients[c][o].op {
                        io.chunk = 0;
                        io.intr = 0;
                    }
                });
                any |= self.attempt(|s| {
                    if let Op::Save { io, .. } | Op::Load { io, .. } = &mut s.clients[c][o].op {
                        io.fail = None;
                        io.cut = None;
                        io.sync_fail = false;
                    }
                });
            }
            _ => {}
        }
        if let Some(f) = self.best.clients[c][o].fault {
            for v in [1, 2, 3, 5, 8, 13, 21, 34] {
                if v < f.nth
                    && self.attempt(|s| {
                        if let Some(f) = &mut s.clients[c][o].fault {
                            f.nth = v
                        }
                    })
                {
                    any = true;
                    break;
                }
            }
        }
        any
    }
    fn cluster(&mut self) -> bool {
        macro_rules! l {
            ($f:ident) => {
                self.list(|s| s.cluster.as_ref().unwrap().$f.len(), |s| &mut s.cluster.as_mut().unwrap().$f)
            };
        }
        let mut any = l!(crashes);
        any |= l!(cuts);
        any |= l!(cmds);
        any |= l!(init);
        any |= l!(net);
        let mut i = 0;
        while i < self.best.cluster.as_ref().unwrap().reps.len() {
            let n = self.best.cluster.as_ref().unwrap().reps.len();
            if n > 1
                && self.attempt(|s| {
                    let c = s.cluster.as_mut().unwrap();
                    c.reps.remove(i);
                    if i < c.bulk.len() {
                        c.bulk.remove(i);
                    }
                })
            {
                any = true;
            } else {
                i += 1;
            }
        }
        for j in 0..self.best.cluster.as_ref().unwrap().cmds.len() {
            use crate::replica::Cmd;
            any |= self.list(
                |s| match &s.cluster.as_ref().unwrap().cmds[j].1 {
                    Cmd::Insert(v) | Cmd::Reset(v) => v.len(),
                    _ => 0,
                },
                |s| match &mut s.cluster.as_mut().unwrap().cmds[j].1 {
                    Cmd::Insert(v) | Cmd::Reset(v) => v,
                    _ => unreachable!(),
                },
            );
        }
        any
    }
    /// Pull the coordinates of the initial objects towards zero.
    fn coords(&mut self) {
        for i in 0..self.best.slots.len() {
            for j in 0..self.best.slots[i].es.len() {
                self.attempt(|s| s.slots[i].es[j].g = crate::geom::Geom::Pt(s.slots[i].es[j].g.corner(0)));
                self.attempt(|s| s.slots[i].es[j].g = crate::geom::Geom::Pt([0; crate::geom::MAXD]));
                self.attempt(|s| s.slots[i].es[j].key = 0);
            }
        }
    }
}
