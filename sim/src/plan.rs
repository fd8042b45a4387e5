//! A plan is one complete simulated run as data: incarnations, thread programs, faults,
//! schedule. Running it is a function of the plan and the code under test alone.
use crate::rt::SchedCfg;

pub const OPARGS: usize = 5;
#[derive(Clone, Debug, PartialEq)]
pub struct Op {
    pub k: u32,
    pub a: [u64; OPARGS],
}
#[derive(Clone, Debug, PartialEq)]
pub struct Boot {
    pub hash_seed: u64,
    pub crash_at: u64,
    pub alloc_fail_at: u64,
    pub tear_seed: u64,
    pub sched: SchedCfg,
    pub threads: Vec<Vec<Op>>,
}
#[derive(Clone, Debug, PartialEq)]
pub struct Plan {
    pub property: String,
    pub seed: u64,
    pub run: u64,
    pub boots: Vec<Boot>,
}
impl Plan {
    pub fn size(&self) -> usize {
        self.boots
            .iter()
            .map(|b| {
                4 + (b.crash_at != 0) as usize
                    + (b.alloc_fail_at != 0) as usize
                    + b.threads.iter().map(|t| 2 + t.len()).sum::<usize>()
                    + b.sched.explicit.as_ref().map(|(p, _)| p.len()).unwrap_or(0)
            })
            .sum()
    }
    pub fn to_text(&self, violation: &str) -> String {
        let mut o = String::from("vsim-plan 1\n");
        for l in violation.lines() {
            o.push_str(&format!("# {}\n", l));
        }
        o.push_str(&format!("property {}\nseed {}\nrun {}\n", self.property, self.seed, self.run));
        for b in &self.boots {
            o.push_str(&format!(
                "boot hash={} crash={} alloc={} tear={}\n",
                b.hash_seed, b.crash_at, b.alloc_fail_at, b.tear_seed
            ));
            let s = &b.sched;
            o.push_str(&format!(
                "sched {} {} {} {} {} {} {} {} {} {} {} {}\n",
                s.seed, s.quiet, s.burst, s.fine, s.p_boundary, s.p_inside, s.w_inside, s.spurious,
                s.p_novel, s.stall, s.stall_len, s.max_switches
            ));
            if let Some((p, bl)) = &s.explicit {
                o.push_str("preempt");
                for (g, k) in p {
                    o.push_str(&format!(" {}:{}", g, k));
                }
                o.push_str("\nblock");
                for k in bl {
                    o.push_str(&format!(" {}", k));
                }
                o.push('\n');
            }
            for t in &b.threads {
                o.push_str("thread\n");
                for op in t {
                    o.push_str(&format!("op {}", crate::ops::name(op.k)));
                    for a in op.a {
                        o.push_str(&format!(" {}", a));
                    }
                    o.push('\n');
                }
            }
        }
        o
    }
    pub fn from_text(t: &str) -> Result<Plan, String> {
        let mut p = Plan { property: String::new(), seed: 0, run: 0, boots: vec![] };
        let num = |s: &str| s.parse::<u64>().map_err(|e| format!("{}: {}", s, e));
        let mut lines = t.lines();
        if lines.next() != Some("vsim-plan 1") {
            return Err("not a vsim plan".into());
        }
        for l in lines {
            if l.starts_with('#') || l.trim().is_empty() {
                continue;
            }
            let mut w = l.split_whitespace();
            let key = w.next().unwrap_or("");
            let rest: Vec<&str> = w.collect();
            let last = p.boots.last_mut();
            match key {
                "property" => p.property = rest.first().ok_or("property")?.to_string(),
                "seed" => p.seed = num(rest.first().ok_or("seed")?)?,
                "run" => p.run = num(rest.first().ok_or("run")?)?,
                "boot" => {
                    let mut b = Boot {
                        hash_seed: 0,
                        crash_at: 0,
                        alloc_fail_at: 0,
                        tear_seed: 0,
                        sched: SchedCfg::none(),
                        threads: vec![],
                    };
                    for kv in rest {
                        let (k, v) = kv.split_once('=').ok_or("boot field")?;
                        let v = num(v)?;
                        match k {
                            "hash" => b.hash_seed = v,
                            "crash" => b.crash_at = v,
                            "alloc" => b.alloc_fail_at = v,
                            "tear" => b.tear_seed = v,
                            _ => return Err(format!("boot field {}", k)),
                        }
                    }
                    p.boots.push(b);
                }
                "sched" => {
                    let v: Result<Vec<u64>, String> = rest.iter().map(|x| num(x)).collect();
                    let v = v?;
                    if v.len() != 12 {
                        return Err("sched".into());
                    }
                    last.ok_or("sched before boot")?.sched = SchedCfg {
                        seed: v[0],
                        quiet: v[1],
                        burst: v[2],
                        fine: v[3],
                        p_boundary: v[4],
                        p_inside: v[5],
                        w_inside: v[6],
                        spurious: v[7],
                        p_novel: v[8],
                        stall: v[9],
                        stall_len: v[10],
                        max_switches: v[11],
                        explicit: None,
                    };
                }
                "preempt" => {
                    let mut pv = vec![];
                    for x in rest {
                        let (g, k) = x.split_once(':').ok_or("preempt")?;
                        pv.push((num(g)?, num(k)? as u32));
                    }
                    last.ok_or("preempt")?.sched.explicit = Some((pv, vec![]));
                }
                "block" => {
                    let e = last.ok_or("block")?.sched.explicit.as_mut().ok_or("block")?;
                    for x in rest {
                        e.1.push(num(x)? as u32);
                    }
                }
                "thread" => last.ok_or("thread")?.threads.push(vec![]),
                "op" => {
                    let k = crate::ops::kind(rest.first().ok_or("op")?).ok_or("unknown op")?;
                    let mut a = [0u64; OPARGS];
                    for (i, x) in rest[1..].iter().enumerate().take(OPARGS) {
                        a[i] = num(x)?;
                    }
                    last.ok_or("op")?.threads.last_mut().ok_or("op")?.push(Op { k, a });
                }
                _ => return Err(format!("line: {}", l)),
            }
        }
        Ok(p)
    }
}
