mod common;
mod exec;
mod gen;
mod model;
mod msgs;
mod ops;
mod plan;
mod rt;
mod sha;
mod shrink;
mod vm;
mod world;
use exec::{run_plan, Agg};
use std::collections::HashSet;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::time::Instant;

struct Args(Vec<String>);
impl Args {
    fn get(&self, k: &str) -> Option<&str> {
        self.0.iter().position(|x| x == k).and_then(|i| self.0.get(i + 1)).map(|s| s.as_str())
    }
    fn num(&self, k: &str, d: u64) -> u64 {
        self.get(k).map(|x| x.parse().unwrap_or_else(|_| fail(&format!("bad {}", k)))).unwrap_or(d)
    }
}
fn fail(t: &str) -> ! {
    eprintln!("vsim: {}", t);
    std::process::exit(2)
}
fn no_aslr() {
    if std::env::var_os("VSIM_FIXED").is_some() {
        return;
    }
    unsafe { libc::personality(0x0040000) };
    use std::os::unix::process::CommandExt;
    // the environment is an input too (RUST_BACKTRACE, for one, decides what a failed allocation does)
    let e = std::process::Command::new("/proc/self/exe")
        .args(std::env::args_os().skip(1))
        .env_clear()
        .env("VSIM_FIXED", "1")
        .exec();
    let _ = e;
}
fn main() {
    no_aslr();
    let a = Args(std::env::args().skip(1).collect());
    match a.0.first().map(|s| s.as_str()) {
        Some("check") => check(&a),
        Some("replay") => replay(&a),
        Some("trace") => trace(&a),
        Some("unreached") => unreached(&a),
        Some("plan") => {
            let p = a.get("--property").unwrap_or_else(|| fail("--property"));
            ops::init_ref(true);
            print!("{}", gen::plan(p, a.num("--seed", 1), a.num("--run", 0)).to_text(""));
        }
        _ => fail("usage: vsim check|replay|trace|plan ..."),
    }
}
fn content(p: &str) -> bool {
    p != "C02"
}
fn replay(a: &Args) {
    let f = a.0.get(1).unwrap_or_else(|| fail("replay FILE"));
    let t = std::fs::read_to_string(f).unwrap_or_else(|e| fail(&format!("{}: {}", f, e)));
    let p = plan::Plan::from_text(&t).unwrap_or_else(|e| fail(&e));
    ops::init_ref(content(&p.property));
    rt::shm_init();
    let r = run_plan(&p, false);
    println!("history {:016x}", r.hash);
    match r.bad {
        Some(t) => {
            println!("{}", t);
            println!("VIOLATION property={} replay={}", p.property, f);
            std::process::exit(1)
        }
        None => println!("no violation"),
    }
}
/// one line per run: everything observable about it, for determinism comparisons
fn trace(a: &Args) {
    let p = a.get("--property").unwrap_or_else(|| fail("--property"));
    ops::init_ref(content(p));
    rt::shm_init();
    let (from, to, stride) = (a.num("--from", 0), a.num("--to", 100), a.num("--stride", 1));
    let mut i = from;
    while i < to {
        let r = run_plan(&gen::plan(p, a.num("--seed", 1), i), false);
        println!("{} {:016x} steps={} switches={} ops={} bad={:?}", i, r.hash, r.agg.steps, r.agg.switches, r.agg.ops, r.bad);
        i += stride;
    }
}
/// development aid: addresses of instrumented blocks no run reached (feed to llvm-symbolizer)
fn unreached(a: &Args) {
    let p = a.get("--property").unwrap_or_else(|| fail("--property"));
    ops::init_ref(content(p));
    rt::shm_init();
    for i in 0..a.num("--runs", 200) {
        run_plan(&gen::plan(p, a.num("--seed", 1), i), false);
    }
    let hit: HashSet<u64> = rt::blocks_reached().into_iter().collect();
    #[allow(static_mut_refs)]
    let (pcs, n) = unsafe { (&rt::PCS, rt::PCS_N) };
    let maps = std::fs::read_to_string("/proc/self/maps").unwrap_or_default();
    let base = maps.split('-').next().and_then(|x| usize::from_str_radix(x, 16).ok()).unwrap_or(0);
    for i in 0..n {
        println!("{} {:#x} {}", if hit.contains(&(i as u64 + 1)) { "hit" } else { "miss" }, pcs[i][0].wrapping_sub(base), pcs[i][1]);
    }
}
#[repr(C)]
struct Ctl {
    min_fail: AtomicU64,
    agg: [Agg; 64],
}
fn check(a: &Args) {
    let prop = a.get("--property").unwrap_or_else(|| fail("--property")).to_string();
    let tier = a.get("--tier").unwrap_or("quick").to_string();
    let seed = a.num("--seed", 1);
    let runs = a.num("--runs", 200);
    let cap = a.num("--cap", 300);
    let workers = a.num("--workers", 8).clamp(1, 64);
    let evidence = a.get("--evidence").unwrap_or_else(|| fail("--evidence")).to_string();
    let replays = a.get("--replays").unwrap_or_else(|| fail("--replays")).to_string();
    let scratch = a.get("--scratch").unwrap_or_else(|| fail("--scratch")).to_string();
    let dump = a.get("--dump").is_some();
    let start = Instant::now();
    ops::init_ref(content(&prop));
    let ctl: &'static mut Ctl = unsafe {
        let p = libc::mmap(
            std::ptr::null_mut(),
            std::mem::size_of::<Ctl>(),
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED | libc::MAP_ANONYMOUS,
            -1,
            0,
        );
        if p == libc::MAP_FAILED {
            fail("mmap");
        }
        &mut *(p as *mut Ctl)
    };
    ctl.min_fail.store(u64::MAX, SeqCst);
    println!("vsim: property {} seed {} runs {} workers {}", prop, seed, runs, workers);
    let mut pids = vec![];
    for w in 0..workers {
        let pid = unsafe { libc::fork() };
        if pid < 0 {
            fail("fork");
        }
        if pid == 0 {
            unsafe { libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL) };
            rt::shm_init();
            let mut hashes: Vec<u64> = vec![];
            let mut all = String::new();
            let mut sites: HashSet<u64> = HashSet::new();
            let agg = &mut ctl.agg[w as usize];
            let mut i = w;
            while i < runs && start.elapsed().as_secs() < cap && i < ctl.min_fail.load(SeqCst) {
                let p = gen::plan(&prop, seed, i);
                let mut r = run_plan(&p, false);
                if r.bad.as_deref().map(exec::class) == Some("hang") {
                    // real time decided this: believe it only if it happens again
                    r = run_plan(&p, false);
                }
                agg.add(&r.agg);
                if r.nontrivial {
                    hashes.push(r.hash);
                }
                sites.extend(r.sites);
                if dump {
                    all.push_str(&format!("{} {:016x}\n", i, r.hash));
                }
                if let Some(t) = &r.bad {
                    std::fs::write(format!("{}/bad{}", scratch, i), t).ok();
                    ctl.min_fail.fetch_min(i, SeqCst);
                    break;
                }
                i += workers;
            }
            if dump {
                std::fs::write(format!("{}/all{}", scratch, w), all).ok();
            }
            let mut b = (hashes.len() as u64).to_le_bytes().to_vec();
            for h in &hashes {
                b.extend_from_slice(&h.to_le_bytes());
            }
            b.extend_from_slice(&(sites.len() as u64).to_le_bytes());
            for h in &sites {
                b.extend_from_slice(&h.to_le_bytes());
            }
            for h in &rt::blocks_reached() {
                b.extend_from_slice(&h.to_le_bytes());
            }
            let ok = std::fs::write(format!("{}/w{}", scratch, w), b).is_ok();
            rt::die(if ok { 0 } else { 1 });
        }
        pids.push(pid);
    }
    for pid in pids {
        let mut st = 0;
        unsafe { libc::waitpid(pid, &mut st, 0) };
        if !libc::WIFEXITED(st) || libc::WEXITSTATUS(st) != 0 {
            fail(&format!("a worker ended with status {:#x}", st));
        }
    }
    let search_s = start.elapsed().as_secs_f64();
    let mut agg = Agg::zero();
    for w in 0..workers as usize {
        agg.add(&ctl.agg[w]);
    }
    let (mut hashes, mut sites, mut blocks) = (HashSet::new(), HashSet::new(), HashSet::new());
    for w in 0..workers {
        let b = std::fs::read(format!("{}/w{}", scratch, w)).unwrap_or_default();
        let v: Vec<u64> = b.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).collect();
        if let Some((n, rest)) = v.split_first() {
            let (h, rest) = rest.split_at(*n as usize);
            hashes.extend(h.iter().copied());
            if let Some((n, rest)) = rest.split_first() {
                let (s, b) = rest.split_at(*n as usize);
                sites.extend(s.iter().copied());
                blocks.extend(b.iter().copied());
            }
        }
    }
    rt::shm_init();
    let failed = ctl.min_fail.load(SeqCst);
    let mut violation = None;
    if failed != u64::MAX {
        let p = gen::plan(&prop, seed, failed);
        let seen = std::fs::read_to_string(format!("{}/bad{}", scratch, failed)).unwrap_or_default();
        let again = (0..3).find_map(|_| run_plan(&p, false).bad);
        let steady = again.is_some();
        if !steady && (seen.is_empty() || exec::class(&seen) == "hang") {
            fail(&format!("run {} failed once and not again: {}", failed, seen));
        }
        // a violation that was seen is one, even if something outside the simulation (an address,
        // a process number) has a part in it and keeps it from coming back
        let t = again.unwrap_or(seen);
        let mut s = shrink::Shrinker {
            class: exec::class(&t).to_string(),
            best: p.clone(),
            text: t.clone(),
            tries: 0,
            max: if steady { a.num("--shrink", 1500) } else { 0 },
            start: Instant::now(),
            cap_s: 120,
        };
        s.run();
        let path = format!("{}/{}-seed{}-run{}.plan", replays, prop, seed, failed);
        let note = format!(
            "violation: {}\nfound by: property {} seed {} run {} ({} size units, minimised to {} in {} tries)",
            s.text, prop, seed, failed, p.size(), s.best.size(), s.tries
        );
        let w = std::fs::write(&path, s.best.to_text(&note));
        if w.is_err() {
            fail(&format!("cannot write {}", path));
        }
        // the file must fail the same way in a fresh process
        let o = std::process::Command::new("/proc/self/exe").arg("replay").arg(&path).output();
        let again = o.map(|o| String::from_utf8_lossy(&o.stdout).contains(&s.text)).unwrap_or(false);
        if !again {
            std::fs::write(&path, p.to_text(&format!("violation: {}", t))).ok();
        }
        println!("{}", s.text);
        if !steady {
            println!("note: not seen again in three repetitions of the run: it depends on something that is not simulated");
        }
        println!("found in run {} of seed {}; minimised {} -> {} size units", failed, seed, p.size(), s.best.size());
        violation = Some(path);
    }
    let wall = start.elapsed().as_secs_f64();
    write_evidence(&evidence, &prop, &tier, seed, &agg, hashes.len(), sites.len(), &blocks, search_s, wall, workers, violation.is_some());
    println!(
        "vsim: {} runs, {} incarnations, {:.1}M steps, {} switches, {} distinct histories, {:.1} s",
        agg.runs, agg.boots, agg.steps as f64 / 1e6, agg.switches, hashes.len(), wall
    );
    if let Some(p) = violation {
        println!("VIOLATION property={} replay={}", prop, p);
        std::process::exit(1);
    }
}
fn sample(prop: &str, seed: u64, run: u64) -> String {
    let p = gen::plan(prop, seed, run);
    let r = run_plan(&p, false);
    let mut boots = vec![];
    for b in &p.boots {
        let th: Vec<String> = b
            .threads
            .iter()
            .map(|t| {
                let v: Vec<String> = t.iter().take(8).map(|o| format!("{} {:?}", ops::name(o.k), o.a)).collect();
                common::jstr(&format!("{}{}", v.join("; "), if t.len() > 8 { " ..." } else { "" }))
            })
            .collect();
        boots.push(format!(
            "{{\"hash_seed\":{},\"crash_at_step\":{},\"alloc_fail_at\":{},\"threads\":[{}]}}",
            b.hash_seed, b.crash_at, b.alloc_fail_at, th.join(",")
        ));
    }
    format!(
        "{{\"run\":{},\"steps\":{},\"context_switches\":{},\"history_hash\":\"{:016x}\",\"incarnations\":[{}]}}",
        run, r.agg.steps, r.agg.switches, r.hash, boots.join(",")
    )
}
#[allow(clippy::too_many_arguments)]
fn write_evidence(path: &str, prop: &str, tier: &str, seed: u64, a: &Agg, distinct: usize, sites: usize, blocks: &HashSet<u64>, search_s: f64, wall: f64, workers: u64, bad: bool) {
    let per_h = |x: u64| (x as f64 / search_s.max(1e-9) * 3600.0) as u64;
    let mut faults = vec![
        ("process.crash_restart", a.crash),
        ("allocation.failed_and_aborted", a.alloc_fail),
        ("futex.spurious_wakeup", a.spurious),
        ("thread.preempted", a.preempts),
        ("thread.stalled", a.stalls),
        ("thread.blocked", a.blocks),
        ("random.hash_keys_drawn", a.getrandom),
        ("clock.jump", a.clock_jumps),
        ("thread.started_by_the_code", a.spawned),
    ];
    let mut probes = vec![("rejected_requests_that_panicked", a.rejected)];
    for (i, n) in ops::FNAMES {
        if n.starts_with("probe.") {
            probes.push((n, a.f[i]))
        } else {
            faults.push((n, a.f[i]))
        }
    }
    let obj = |v: &[(&str, u64)]| {
        let s: Vec<String> = v.iter().filter(|x| x.1 > 0).map(|(k, n)| format!("{}:{}", common::jstr(k), n)).collect();
        format!("{{{}}}", s.join(","))
    };
    let mut opc: Vec<(&str, u64)> = vec![];
    for k in 0..ops::NAMES.len() {
        opc.push((ops::NAMES[k], a.opk[k]));
    }
    let samples: Vec<String> = if bad { vec![] } else { (0..3).map(|i| sample(prop, seed, i)).collect() };
    let rule = "A case is one simulated run: a seeded plan of 1-5 incarnations of a process with 1-15 threads, their operations, faults and the schedule. Non-trivial: at least one context switch, crash, allocation failure or other injected fault happened in it. Distinct: different 64-bit hash of the recorded history (every scheduling decision, step and allocation counts, fault counts, outcomes, final storage).";
    let cov = format!(
        "{{\"evaluations\":{},\"distinct_nontrivial\":{},\"rule\":{},\"samples\":[{}],\"simulated_runs_per_hour\":{},\"seeds_per_hour\":{},\"simulated_steps\":{},\"simulated_time\":{},\"incarnations\":{},\"operations_executed\":{},\"operations_planned\":{},\"context_switches\":{},\"distinct_preemption_sites\":{},\"instrumented_blocks_reached\":{},\"instrumented_blocks\":{},\"faults_injected\":{},\"probes\":{},\"max_threads\":{},\"workers\":{},\"futex_waits\":{},\"futex_wakes\":{},\"allocations_seen\":{},\"components\":{}}}",
        a.runs,
        distinct,
        common::jstr(rule),
        samples.join(","),
        per_h(a.runs),
        per_h(a.runs),
        a.steps,
        common::jstr(&format!("{:.3} s at 1 ns per instrumented step", a.steps as f64 / 1e9)),
        a.boots,
        a.ops,
        obj(&opc),
        a.switches,
        sites,
        blocks.len(),
        unsafe { rt::NGUARDS },
        obj(&faults),
        obj(&probes),
        a.max_threads,
        workers,
        a.futex_wait,
        a.futex_wake,
        a.allocs,
        "{\"real\":[\"zkevm_opcode_defs from /repo (all of its library code, instrumented)\",\"lazy_static, ethereum-types, bitflags, itertools, std (Once, HashMap, fmt)\",\"OS threads and process images, run one at a time\"],\"stub\":[\"futex, getrandom, clocks and sleeps (simulated)\",\"allocator (real memory, simulated failures)\",\"code storage and code records (simulated durable cells)\",\"output sinks\",\"sha2 git dependency replaced by the released sha2 0.10 with the same trait\"]}"
    );
    let ev = format!(
        "{{\"property\":{},\"tier\":{},\"seed\":{},\"level\":\"exploration\",\"coverage\":{},\"assumptions\":{},\"wall_s\":{:.3},\"violations\":{}}}\n",
        common::jstr(prop),
        common::jstr(tier),
        seed,
        cov,
        "[\"threads interleave at instrumented basic blocks, loads and stores of the crate, at allocations and at system calls; weak-memory reorderings are not simulated\",\"the reference model in sim/src/model.rs states ISA versions 0 and 1 correctly\",\"a clean batch is evidence, not proof: schedules, faults and inputs are sampled\"]",
        wall,
        bad as u8
    );
    if std::fs::write(path, ev).is_err() {
        fail(&format!("cannot write {}", path));
    }
}
