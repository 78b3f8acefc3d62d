//! Makes a violating plan smaller while it still violates its property.
use crate::fmt::{self, Class};
use crate::plan::*;
use crate::props::{self, Ctx};
use std::time::Instant;

struct Shrink<'a> {
    cx: &'a mut Ctx,
    best: Plan,
    msg: String,
    tried: u64,
    max: u64,
    t0: Instant,
    secs: f64,
    judge: Option<&'a dyn Fn(&Plan) -> Option<String>>,
}

impl Shrink<'_> {
    fn over(&self) -> bool {
        self.tried >= self.max || self.t0.elapsed().as_secs_f64() > self.secs
    }
    fn attempt(&mut self, p: Plan) -> bool {
        if self.over() || p == self.best || p.calls().is_empty() {
            return false;
        }
        self.tried += 1;
        let viol = match self.judge {
            Some(j) => j(&p),
            None => props::check(self.cx, &p).viol,
        };
        if let Some(v) = viol {
            self.best = p;
            self.msg = v;
            return true;
        }
        false
    }
    /// removes parts of a list, large parts first
    fn list<T: Clone>(&mut self, get: impl Fn(&Plan) -> Vec<T>, set: impl Fn(&mut Plan, Vec<T>)) {
        let mut n = get(&self.best).len();
        while n > 0 && !self.over() {
            let mut i = 0;
            loop {
                let l = get(&self.best);
                if i >= l.len() || self.over() {
                    break;
                }
                let mut k = l.clone();
                k.drain(i..(i + n).min(l.len()));
                let mut p = self.best.clone();
                set(&mut p, k);
                if !self.attempt(p) {
                    i += n;
                }
            }
            n /= 2;
        }
    }
}

/// `judge` says whether a plan violates its property, if not the simulation here
pub fn shrink(
    cx: &mut Ctx,
    plan: Plan,
    msg: &str,
    max: u64,
    secs: f64,
    judge: Option<&dyn Fn(&Plan) -> Option<String>>,
) -> (Plan, String, u64) {
    cx.reset(cx.suts.iter().map(|_| vec![0u8; 1 << 16]).collect());
    let mut s = Shrink { cx, best: plan.clone(), msg: msg.to_string(), tried: 0, max, t0: Instant::now(), secs, judge };
    // the schedule that was executed, instead of the dice that made it
    if plan.race.is_some() {
        if let Some(sched) = props::check(s.cx, &plan).sched {
            let mut p = plan.clone();
            p.race = None;
            p.race_stall = 0;
            p.sched = sched;
            s.attempt(p);
        }
    }
    // the calls of such a plan belong together, and so do two layouts of one container
    let pair = plan.prop == "C02";
    let layouts = pair && plan.objs.len() > 1;
    for round in 0..2 {
        let before = s.best.clone();
        for t in (0..s.best.threads.len()).rev() {
            if !pair {
                s.list(|p| p.threads[t].clone(), |p, l| p.threads[t] = l);
            }
        }
        s.list(|p| p.sched.clone(), |p, l| p.sched = l);
        for o in 0..s.best.objs.len() {
            s.list(|p| p.objs[o].faults.clone(), |p, l| p.objs[o].faults = l);
        }
        let mut p = s.best.clone();
        p.heap_fill = 0;
        p.dirty_stack = false;
        s.attempt(p);
        let mut p = s.best.clone();
        p.objs.iter_mut().for_each(|o| o.tail = 0);
        if !layouts {
            s.attempt(p);
        }
        // fewer repetitions
        for t in 0..s.best.threads.len() {
            for i in 0..s.best.threads[t].len() {
                let mut cut = usize::MAX;
                while let Op::Call(c) = &s.best.threads[t][i] {
                    cut = cut.min(c.times / 2);
                    if cut == 0 || s.over() {
                        break;
                    }
                    let mut c = c.clone();
                    c.times -= cut;
                    let mut p = s.best.clone();
                    p.threads[t][i] = Op::Call(c);
                    if !s.attempt(p) {
                        cut /= 2;
                    }
                }
            }
        }
        // smaller images
        for t in 0..s.best.threads.len() {
            for i in 0..s.best.threads[t].len() {
                for side in [0, 1] {
                    while let Op::Call(c) = &s.best.threads[t][i] {
                        let like = c.clone();
                        let mut p = s.best.clone();
                        let mut fits = true;
                        for (j, op) in p.threads[t].iter_mut().enumerate() {
                            match op {
                                Op::Call(c) if pair || j == i => {
                                    fits &= matches!(fmt::class(c.f), Class::Fixed | Class::Pvrtc)
                                        && c.w * c.h == c.img
                                        && (c.w, c.h) == (like.w, like.h);
                                    let d = if side == 0 { &mut c.w } else { &mut c.h };
                                    fits &= *d >= 2;
                                    *d /= 2;
                                    c.img = c.w * c.h;
                                }
                                _ => (),
                            }
                        }
                        if !fits || !s.attempt(p) {
                            break;
                        }
                    }
                }
            }
        }
        // plainer data
        for o in 0..s.best.objs.len() {
            if layouts {
                break;
            }
            let mut n = s.best.objs[o].base.len().next_power_of_two();
            while n >= 4 && !s.over() {
                for at in (0..s.best.objs[o].base.len()).step_by(n) {
                    let mut p = s.best.clone();
                    let b = &mut p.objs[o].base;
                    let e = (at + n).min(b.len());
                    if b[at..e].iter().all(|&x| x == 0) {
                        continue;
                    }
                    b[at..e].fill(0);
                    s.attempt(p);
                    if s.over() {
                        break;
                    }
                }
                n /= 4;
                if round == 0 && n < 64 {
                    break;
                }
            }
        }
        if s.best == before {
            break;
        }
    }
    (s.best, s.msg, s.tried)
}
