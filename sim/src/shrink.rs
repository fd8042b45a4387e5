//! Minimisation: fewer incarnations, threads, operations, faults and preemptions, smaller
//! arguments, as long as the same class of violation remains.
use crate::exec::{class, run_plan};
use crate::ops;
use crate::plan::Plan;
use std::time::Instant;

pub struct Shrinker {
    pub class: String,
    pub best: Plan,
    pub text: String,
    pub tries: u64,
    pub max: u64,
    pub start: Instant,
    pub cap_s: u64,
}
impl Shrinker {
    fn out(&self) -> bool {
        self.tries >= self.max || self.start.elapsed().as_secs() >= self.cap_s
    }
    fn attempt(&mut self, p: &Plan) -> bool {
        if self.out() || *p == self.best {
            return false;
        }
        self.tries += 1;
        let r = run_plan(p, false);
        if let Some(t) = r.bad {
            if class(&t) == self.class {
                self.best = p.clone();
                self.text = t;
                return true;
            }
        }
        false
    }
    /// a structural change shifts all timing: also look for another failing schedule of it
    fn attempt_struct(&mut self, p: &Plan, orig: &Plan) -> bool {
        if self.attempt(p) {
            return true;
        }
        let mut q = p.clone();
        for b in q.boots.iter_mut() {
            if b.threads.len() > 1 {
                b.sched = orig.boots.first().map(|o| o.sched.clone()).unwrap_or(b.sched.clone());
                if let Some(o) = orig.boots.iter().find(|o| o.hash_seed == b.hash_seed) {
                    b.sched = o.sched.clone();
                }
                b.sched.explicit = None;
            }
        }
        if q.boots.iter().all(|b| b.threads.len() <= 1) {
            return false;
        }
        for k in 0..4u64 {
            for b in q.boots.iter_mut() {
                b.sched.seed = b.sched.seed.wrapping_add(k);
            }
            if self.out() {
                return false;
            }
            self.tries += 1;
            let r = run_plan(&q, true);
            if let Some(t) = r.bad {
                if class(&t) == self.class {
                    let e = explicit(&q, &r.logs);
                    if self.attempt(&e) {
                        return true;
                    }
                    self.best = q.clone();
                    self.text = t;
                    return true;
                }
            }
        }
        false
    }
    pub fn run(&mut self) {
        let orig = self.best.clone();
        // turn the seeded schedule into the explicit list of decisions it made
        let r = run_plan(&orig, true);
        let e = explicit(&orig, &r.logs);
        self.attempt(&e);
        let mut q = self.best.clone();
        for b in q.boots.iter_mut() {
            b.sched.explicit = Some((vec![], vec![]));
            b.sched.spurious = 0;
        }
        self.attempt(&q);
        loop {
            let before = (self.best.size(), self.best.to_text(""));
            self.pass(&orig);
            if self.out() || (self.best.size(), self.best.to_text("")) == before {
                break;
            }
        }
    }
    fn pass(&mut self, orig: &Plan) {
        let mut i = 0;
        while i < self.best.boots.len() {
            let mut q = self.best.clone();
            q.boots.remove(i);
            if q.boots.is_empty() || !self.attempt_struct(&q, orig) {
                i += 1
            }
        }
        for bi in 0..self.best.boots.len() {
            let mut t = 0;
            while t < self.best.boots[bi].threads.len() {
                let mut q = self.best.clone();
                q.boots[bi].threads.remove(t);
                if q.boots[bi].threads.is_empty() || !self.attempt_struct(&q, orig) {
                    t += 1
                }
            }
            for t in 0..self.best.boots[bi].threads.len() {
                let mut chunk = self.best.boots[bi].threads[t].len().max(1);
                while chunk >= 1 {
                    let mut at = 0;
                    while at < self.best.boots[bi].threads[t].len() {
                        let mut q = self.best.clone();
                        let v = &mut q.boots[bi].threads[t];
                        let end = (at + chunk).min(v.len());
                        v.drain(at..end);
                        if v.is_empty() && q.boots[bi].threads.len() > 1 {
                            at = end;
                            continue;
                        }
                        if !self.attempt_struct(&q, orig) {
                            at = end
                        }
                    }
                    chunk /= 2;
                }
            }
            for f in 0..5 {
                let mut q = self.best.clone();
                let b = &mut q.boots[bi];
                match f {
                    0 => b.crash_at = 0,
                    1 => b.alloc_fail_at = 0,
                    2 => b.sched.spurious = 0,
                    3 => b.hash_seed = 0,
                    _ => b.tear_seed = 0,
                }
                self.attempt(&q);
            }
            self.schedule(bi);
            self.args(bi);
        }
    }
    fn schedule(&mut self, bi: usize) {
        let Some((p, b)) = self.best.boots[bi].sched.explicit.clone() else { return };
        let set = |s: &Self, p: &[(u64, u32)], b: &[u32]| {
            let mut q = s.best.clone();
            q.boots[bi].sched.explicit = Some((p.to_vec(), b.to_vec()));
            q
        };
        let q = set(self, &[], &b);
        if !self.attempt(&q) {
            // shortest failing prefix
            let (mut lo, mut hi) = (0, p.len());
            while lo < hi && !self.out() {
                let mid = (lo + hi) / 2;
                let q = set(self, &p[..mid], &b);
                if self.attempt(&q) {
                    hi = mid
                } else {
                    lo = mid + 1
                }
            }
            // drop decisions, adding their gap to the next one
            let mut chunk = 64;
            while chunk >= 1 {
                let mut at = 0;
                loop {
                    let cur = self.best.boots[bi].sched.explicit.clone().unwrap();
                    if at >= cur.0.len() || self.out() {
                        break;
                    }
                    let end = (at + chunk).min(cur.0.len());
                    let gap: u64 = cur.0[at..end].iter().map(|x| x.0).sum();
                    let mut n = cur.0.clone();
                    n.drain(at..end);
                    if at < n.len() {
                        n[at].0 += gap;
                    }
                    let q = set(self, &n, &cur.1);
                    if !self.attempt(&q) {
                        at = end;
                    }
                }
                chunk /= 4;
            }
        }
        let (p, b) = self.best.boots[bi].sched.explicit.clone().unwrap();
        let q = set(self, &p, &[]);
        if !self.attempt(&q) {
            let mut n = b.len();
            while n > 0 && !self.out() {
                n /= 2;
                let q = set(self, &p, &b[..n]);
                if !self.attempt(&q) {
                    break;
                }
            }
        }
    }
    fn args(&mut self, bi: usize) {
        for t in 0..self.best.boots[bi].threads.len() {
            for o in 0..self.best.boots[bi].threads[t].len() {
                let op = self.best.boots[bi].threads[t][o].clone();
                let set = |s: &Self, i: usize, v: u64| {
                    let mut q = s.best.clone();
                    q.boots[bi].threads[t][o].a[i] = v;
                    q
                };
                if [ops::BULK, ops::RAWBULK, ops::TRAPBULK, ops::FRAMEBULK, ops::RENDERBULK, ops::WORDBULK, ops::SLICEBULK, ops::RECBULK].contains(&op.k) {
                    loop {
                        let a = self.best.boots[bi].threads[t][o].a;
                        if a[3] <= 1 || self.out() {
                            break;
                        }
                        let h = a[3] / 2;
                        let q = set(self, 3, h);
                        if self.attempt(&q) {
                            continue;
                        }
                        let mut q = set(self, 3, a[3] - h);
                        q.boots[bi].threads[t][o].a[2] = a[2] + h;
                        if !self.attempt(&q) {
                            break;
                        }
                    }
                    continue;
                }
                for i in 0..op.a.len() {
                    let v = self.best.boots[bi].threads[t][o].a[i];
                    if v == 0 {
                        continue;
                    }
                    let q = set(self, i, 0);
                    if self.attempt(&q) {
                        continue;
                    }
                    // clear single bits from the top
                    for bit in (0..64).rev() {
                        let v = self.best.boots[bi].threads[t][o].a[i];
                        if v >> bit & 1 == 1 {
                            let q = set(self, i, v & !(1 << bit));
                            self.attempt(&q);
                        }
                    }
                }
            }
        }
    }
}
pub fn explicit(p: &Plan, logs: &[(Vec<(u64, u32)>, Vec<u32>)]) -> Plan {
    let mut q = p.clone();
    for (b, l) in q.boots.iter_mut().zip(logs.iter()) {
        b.sched.explicit = Some(l.clone());
    }
    // incarnations after the violation never ran
    q.boots.truncate(logs.len().max(1));
    q
}
