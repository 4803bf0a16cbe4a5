//! Seeded search: many forked runs, aggregation, determinism checks,
//! minimisation, replay files, evidence.
use crate::{Prop, Scenario};
use serde::{Deserialize, Serialize};
use simstd::sim;
use std::collections::{BTreeMap, BTreeSet};
use std::io::{Read, Write};
use std::os::fd::{FromRawFd, OwnedFd};
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::{Duration, Instant};

#[derive(Serialize, Deserialize, Clone, Debug, Default)]
pub struct RunResult {
    pub violation: Option<(String, String)>,
    pub steps: u64,
    pub switches: u64,
    pub sim_ns: u64,
    pub hash: u64,
    pub probes: BTreeMap<String, u64>,
    #[serde(default)]
    pub log: Vec<String>,
    #[serde(default)]
    pub plan: Vec<u32>,
    #[serde(default)]
    pub sched: Vec<u32>,
}

// Deterministic process randomness (hash seeds and the like).
static RNG: AtomicU64 = AtomicU64::new(0x1234_5678);
fn next_rand() -> u64 {
    let mut z = RNG.fetch_add(0x9E37_79B9_7F4A_7C15, Ordering::SeqCst).wrapping_add(0x9E37_79B9_7F4A_7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}
#[unsafe(no_mangle)]
extern "C" fn getrandom(buf: *mut u8, n: usize, _flags: u32) -> isize {
    for i in 0..n {
        unsafe { *buf.add(i) = (next_rand() >> 24) as u8 }
    }
    n as isize
}

pub fn mix(a: u64, b: u64) -> u64 {
    let mut r = sim::Rng::new(a ^ b.rotate_left(32).wrapping_mul(0x9E37_79B9_7F4A_7C15));
    r.next()
}
fn str_hash(s: &str) -> u64 {
    s.bytes().fold(0xcbf2_9ce4_8422_2325, |h, b| (h ^ b as u64).wrapping_mul(0x0000_0100_0000_01B3))
}
pub fn run_seed(base: u64, prop: &str, scen: &str, idx: u64) -> u64 {
    mix(mix(base, str_hash(prop)), mix(str_hash(scen), idx))
}

const CPU_LIMIT_S: u64 = 25;

/// One run in a forked child.
/// A script that misbehaves at random may loop without end and without anything by which
/// the simulation could charge it CPU time: such a run decides nothing.
fn endless_is_fine(s: &Scenario) -> bool {
    s.name.starts_with("HOSTILE")
}

pub fn run_once(s: &Scenario, seed: u64, replay: Option<(Vec<u32>, Vec<u32>)>, keep_log: bool, want_choices: bool) -> RunResult {
    let mut fds = [0i32; 2];
    unsafe {
        assert_eq!(libc::pipe(fds.as_mut_ptr()), 0);
        let pid = libc::fork();
        assert!(pid >= 0, "fork failed");
        if pid == 0 {
            libc::close(fds[0]);
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            let cpu = if endless_is_fine(s) { CPU_LIMIT_S / 2 } else { CPU_LIMIT_S };
            let lim = libc::rlimit { rlim_cur: cpu, rlim_max: cpu + 1 };
            libc::setrlimit(libc::RLIMIT_CPU, &lim);
            let core = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::setrlimit(libc::RLIMIT_CORE, &core);
            if std::env::var_os("OWSIM_PANICS").is_none() {
                // the code under test reports on stderr
                let null = libc::open(c"/dev/null".as_ptr(), libc::O_WRONLY);
                libc::dup2(null, 2);
                // and V8 prints uncaught exceptions
                libc::dup2(null, 1);
            }
            RNG.store(0xABCD_EF01, Ordering::SeqCst);
            let f = s.run;
            let o = sim::run(sim::Config { seed, max_steps: s.max_steps, replay, keep_log }, move || f());
            let mut r = RunResult {
                violation: o.violation,
                steps: o.steps,
                switches: o.switches,
                sim_ns: o.sim_ns,
                hash: o.hash,
                probes: o.probes,
                ..Default::default()
            };
            if keep_log {
                r.log = o.log;
            }
            if want_choices || r.violation.is_some() {
                r.plan = o.plan;
                r.sched = o.sched;
            }
            let b = serde_json::to_vec(&r).unwrap();
            let mut off = 0;
            while off < b.len() {
                let n = libc::write(fds[1], b[off..].as_ptr() as *const _, b.len() - off);
                if n <= 0 {
                    break;
                }
                off += n as usize;
            }
            libc::_exit(0);
        }
        libc::close(fds[1]);
        let mut buf = Vec::new();
        let mut f = std::fs::File::from(OwnedFd::from_raw_fd(fds[0]));
        // a child that sleeps for ever without being scheduled is a harness
        // fault, not a verdict: give up after a long real-time wait
        let start = Instant::now();
        let mut killed = false;
        loop {
            let mut p = libc::pollfd { fd: fds[0], events: libc::POLLIN, revents: 0 };
            let n = libc::poll(&mut p, 1, 1000);
            if n > 0 {
                let mut tmp = [0u8; 65536];
                match f.read(&mut tmp) {
                    Ok(0) => break,
                    Ok(k) => buf.extend_from_slice(&tmp[..k]),
                    Err(_) => break,
                }
            } else if start.elapsed() > Duration::from_secs(if std::env::var("OWSIM_STUCK").is_ok() { 10 } else { 90 }) && !killed {
                killed = true;
                if std::env::var("OWSIM_STUCK").is_ok() {
                    eprintln!("STUCK pid {pid}");
                    libc::sleep(100_000);
                }
                libc::kill(pid, libc::SIGKILL);
            }
        }
        let mut st = 0;
        libc::waitpid(pid, &mut st, 0);
        if let Ok(r) = serde_json::from_slice::<RunResult>(&buf) {
            return r;
        }
        let sig = if libc::WIFSIGNALED(st) { libc::WTERMSIG(st) } else { 0 };
        let class = if killed {
            "harness-stuck".to_string()
        } else if sig == libc::SIGXCPU || sig == libc::SIGKILL {
            "busy-loop".to_string()
        } else {
            format!("crash-signal-{sig}")
        };
        if class == "busy-loop" && endless_is_fine(s) {
            return RunResult { probes: [("inconclusive.script_loops".to_string(), 1)].into(), ..Default::default() };
        }
        RunResult { violation: Some((class, format!("the run ended the process (status {st:#x})"))), ..Default::default() }
    }
}

#[derive(Serialize, Deserialize, Default)]
struct Agg {
    runs: u64,
    steps: u64,
    switches: u64,
    sim_ns: u64,
    probes: BTreeMap<String, u64>,
    hashes: BTreeSet<u64>,
    nontrivial: u64,
    violations: BTreeMap<String, (u64, u64, u64, String)>, // class -> (scenario idx, seed, count, msg)
    mismatches: u64,
    det_checks: u64,
    per_scen: BTreeMap<String, u64>,
}
impl Agg {
    fn merge(&mut self, o: Agg) {
        self.runs += o.runs;
        self.steps += o.steps;
        self.switches += o.switches;
        self.sim_ns += o.sim_ns;
        self.nontrivial += o.nontrivial;
        self.mismatches += o.mismatches;
        self.det_checks += o.det_checks;
        for (k, v) in o.probes {
            *self.probes.entry(k).or_insert(0) += v;
        }
        for (k, v) in o.per_scen {
            *self.per_scen.entry(k).or_insert(0) += v;
        }
        self.hashes.extend(o.hashes);
        for (k, v) in o.violations {
            let e = self.violations.entry(k).or_insert((v.0, v.1, 0, v.3.clone()));
            e.2 += v.2;
        }
    }
}

pub struct Known {
    pub property: String,
    pub class: String,
    pub text: String,
}
pub fn known(verif: &str) -> Vec<Known> {
    let mut out = Vec::new();
    let Ok(s) = std::fs::read_to_string(format!("{verif}/known_findings.txt")) else { return out };
    for l in s.lines() {
        let Some(r) = l.strip_prefix("known: property=") else { continue };
        let mut it = r.splitn(3, ' ');
        let (Some(p), Some(c), Some(t)) = (it.next(), it.next(), it.next()) else { continue };
        let Some(c) = c.strip_prefix("class=") else { continue };
        out.push(Known { property: p.into(), class: c.into(), text: t.into() });
    }
    out
}

/// The kernel frees the memory of ended processes later than it reports their
/// end; forking faster than that would fill the machine.
fn let_memory_settle() {
    fn kb(key: &str) -> Option<u64> {
        let t = std::fs::read_to_string("/proc/meminfo").ok()?;
        t.lines().find(|l| l.starts_with(key))?.split_whitespace().nth(1)?.parse().ok()
    }
    static LOW: std::sync::OnceLock<u64> = std::sync::OnceLock::new();
    let Some(avail) = kb("MemAvailable:") else { return };
    let low = *LOW.get_or_init(|| avail.saturating_sub(3 << 20).max(avail / 2));
    let t = Instant::now();
    let mut wait = 2;
    while kb("MemAvailable:").is_some_and(|a| a < low) && t.elapsed() < Duration::from_secs(3) {
        std::thread::sleep(Duration::from_millis(wait));
        wait = (wait * 2).min(50);
    }
}

fn worker(prop: &Prop, base: u64, w: u64, nw: u64, runs: u64, deadline: Instant, stop: &AtomicU64, knownc: &BTreeSet<String>) -> Agg {
    let mut a = Agg::default();
    let total_weight: u64 = prop.scenarios.iter().map(|s| s.weight as u64).sum();
    let mut order: Vec<(usize, u64)> = Vec::new();
    for (si, s) in prop.scenarios.iter().enumerate() {
        let n = (runs * s.weight as u64 / total_weight).max(nw);
        for i in 0..n {
            order.push((si, i));
        }
    }
    // interleave the scenarios so that a time cap cuts all of them alike
    order.sort_by_key(|&(si, i)| (i * 1_000_000 / prop.scenarios[si].weight as u64, si));
    for (k, (si, i)) in order.into_iter().enumerate() {
        if k as u64 % nw != w {
            continue;
        }
        if stop.load(Ordering::Relaxed) != 0 || Instant::now() > deadline {
            break;
        }
        if a.runs % 16 == 0 {
            let_memory_settle();
        }
        let s = &prop.scenarios[si];
        let seed = run_seed(base, prop.id, s.name, i);
        let r = run_once(s, seed, None, false, i % 40 == 7);
        a.runs += 1;
        *a.per_scen.entry(s.name.into()).or_insert(0) += 1;
        a.steps += r.steps;
        a.switches += r.switches;
        a.sim_ns += r.sim_ns;
        a.hashes.insert(r.hash);
        if r.switches > 0 || r.probes.values().sum::<u64>() > 0 {
            a.nontrivial += 1;
        }
        for (k, v) in &r.probes {
            *a.probes.entry(k.clone()).or_insert(0) += v;
        }
        if i % 40 == 7 && r.violation.is_none() {
            // same seed again, and the recorded choices replayed
            a.det_checks += 1;
            let r2 = run_once(s, seed, Some((r.plan.clone(), r.sched.clone())), false, false);
            if r2.hash != r.hash || r2.steps != r.steps {
                a.mismatches += 1;
                eprintln!("note: seed {seed} of {} was not reproduced exactly", s.name);
            }
        }
        if let Some((class, msg)) = r.violation {
            let e = a.violations.entry(format!("{}/{}", s.name, class)).or_insert((si as u64, seed, 0, msg));
            e.2 += 1;
            if !knownc.contains(&format!("{}/{}", s.name, class)) {
                stop.store(1, Ordering::Relaxed);
            }
        }
    }
    a
}

fn trim(v: &[u32]) -> Vec<u32> {
    let mut v = v.to_vec();
    while v.last() == Some(&0) {
        v.pop();
    }
    v
}

/// Shrink the two choice streams while the same class of violation persists.
fn minimise(s: &Scenario, seed: u64, first: RunResult, class: &str, budget: Duration) -> (RunResult, u64) {
    let start = Instant::now();
    let mut best = first;
    let mut tries = 0u64;
    let mut test = |p: &[u32], c: &[u32], best: &mut RunResult| -> bool {
        if start.elapsed() > budget {
            return false;
        }
        tries += 1;
        let r = run_once(s, seed, Some((p.to_vec(), c.to_vec())), false, true);
        if r.violation.as_ref().is_some_and(|v| v.0 == class) {
            let key = |r: &RunResult| (trim(&r.plan).len(), r.sched.iter().filter(|&&x| x != 0).count(), r.sched.len(), r.plan.iter().map(|&x| x as u64).sum::<u64>());
            if key(&r) <= key(best) {
                let same = r.plan == best.plan && r.sched == best.sched;
                *best = r;
                return !same;
            }
        }
        false
    };
    for _round in 0..4 {
        let before = (best.plan.clone(), best.sched.clone());
        for which in 0..2 {
            // truncate, delete blocks, then zero blocks, then lower values
            let mut size = if which == 0 { best.plan.len() } else { best.sched.len() }.max(1);
            while size >= 1 {
                let mut i = 0;
                loop {
                    let len = if which == 0 { best.plan.len() } else { best.sched.len() };
                    if i >= len {
                        break;
                    }
                    let j = (i + size).min(len);
                    let (mut p, mut c) = (best.plan.clone(), best.sched.clone());
                    let v = if which == 0 { &mut p } else { &mut c };
                    v.drain(i..j);
                    if test(&p, &c, &mut best) {
                        continue;
                    }
                    let (mut p, mut c) = (best.plan.clone(), best.sched.clone());
                    let v = if which == 0 { &mut p } else { &mut c };
                    if i < v.len() {
                        let j = j.min(v.len());
                        if v[i..j].iter().any(|&x| x != 0) {
                            v[i..j].iter_mut().for_each(|x| *x = 0);
                            test(&p, &c, &mut best);
                        }
                    }
                    i += size;
                    if start.elapsed() > budget {
                        break;
                    }
                }
                if size == 1 {
                    break;
                }
                size /= 2;
            }
        }
        // lower single values
        for i in 0..best.plan.len() {
            let cur = best.plan.get(i).copied().unwrap_or(0);
            for v in [cur / 2, cur.saturating_sub(1)] {
                if v < cur && i < best.plan.len() {
                    let mut p = best.plan.clone();
                    p[i] = v;
                    let c = best.sched.clone();
                    if test(&p, &c, &mut best) {
                        break;
                    }
                }
            }
        }
        if start.elapsed() > budget || (best.plan.clone(), best.sched.clone()) == before {
            break;
        }
    }
    (best, tries)
}

#[derive(Serialize, Deserialize)]
pub struct Replay {
    pub property: String,
    pub scenario: String,
    pub seed: u64,
    pub class: String,
    pub message: String,
    pub hash: u64,
    pub steps: u64,
    pub plan: Vec<u32>,
    pub sched: Vec<u32>,
    pub minimised_from: serde_json::Value,
    pub trace: Vec<String>,
}

pub fn replay_file(path: &str, props: &[Prop]) -> i32 {
    let rp: Replay = serde_json::from_slice(&std::fs::read(path).expect("read replay file")).expect("parse replay file");
    let Some(s) = props.iter().flat_map(|p| p.scenarios.iter()).find(|s| s.name == rp.scenario) else {
        eprintln!("unknown scenario {}", rp.scenario);
        return 2;
    };
    if let Some(p) = props.iter().find(|p| p.id == rp.property) {
        crate::h::set_prop(p.id);
    }
    let r = run_once(s, rp.seed, Some((rp.plan.clone(), rp.sched.clone())), true, false);
    for l in &r.log {
        println!("{l}");
    }
    match r.violation {
        Some((c, m)) if c == rp.class => {
            println!("reproduced: {c}: {m}");
            println!("exact: {}", r.hash == rp.hash && r.steps == rp.steps && m == rp.message);
            println!("VIOLATION property={} replay={}", rp.property, path);
            1
        }
        other => {
            println!("not reproduced: {other:?}");
            0
        }
    }
}

pub fn check(prop: &Prop, tier: &str, base: u64, verif: &str) -> i32 {
    let t0 = Instant::now();
    let envn = |k: &str| std::env::var(k).ok().and_then(|v| v.parse::<u64>().ok());
    let (runs, secs) = match tier {
        "thorough" => (envn("OWSIM_RUNS").unwrap_or(prop.runs * 40), envn("OWSIM_SECS").unwrap_or(600)),
        _ => (envn("OWSIM_RUNS").unwrap_or(prop.runs), envn("OWSIM_SECS").unwrap_or(150)),
    };
    let knowns: Vec<Known> = known(verif).into_iter().filter(|k| k.property == prop.id && prop.scenarios.iter().any(|s| k.class.split('/').next() == Some(s.name))).collect();
    let knownc: BTreeSet<String> = knowns.iter().map(|k| k.class.clone()).collect();
    let nw = std::thread::available_parallelism().map(|n| n.get() as u64).unwrap_or(4).clamp(1, 16);
    let stop: &AtomicU64 = unsafe {
        let p = libc::mmap(std::ptr::null_mut(), 4096, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS, -1, 0);
        &*(p as *const AtomicU64)
    };
    let deadline = t0 + Duration::from_secs(secs);
    let mut pipes = Vec::new();
    for w in 0..nw {
        unsafe {
            let mut fds = [0i32; 2];
            assert_eq!(libc::pipe(fds.as_mut_ptr()), 0);
            let pid = libc::fork();
            assert!(pid >= 0);
            if pid == 0 {
                libc::close(fds[0]);
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                pin(w as usize);
                let a = worker(prop, base, w, nw, runs, deadline, stop, &knownc);
                let mut f = std::fs::File::from(OwnedFd::from_raw_fd(fds[1]));
                let _ = f.write_all(&serde_json::to_vec(&a).unwrap());
                drop(f);
                libc::_exit(0);
            }
            libc::close(fds[1]);
            pipes.push((pid, std::fs::File::from(OwnedFd::from_raw_fd(fds[0]))));
        }
    }
    let mut agg = Agg::default();
    let mut broken = false;
    for (pid, mut f) in pipes {
        let mut b = Vec::new();
        let _ = f.read_to_end(&mut b);
        let mut st = 0;
        unsafe { libc::waitpid(pid, &mut st, 0) };
        match serde_json::from_slice::<Agg>(&b) {
            Ok(a) => agg.merge(a),
            Err(_) => broken = true,
        }
    }
    let search_s = t0.elapsed().as_secs_f64();
    // verdicts
    let mut code = 0;
    let mut reported = Vec::new();
    let mut known_hit: BTreeMap<String, u64> = BTreeMap::new();
    let mut unrep = 0u64;
    for (key, (si, seed, count, msg)) in &agg.violations {
        if let Some(k) = knowns.iter().find(|k| &k.class == key) {
            known_hit.insert(k.class.clone(), *count);
            continue;
        }
        let s = &prop.scenarios[*si as usize];
        let class = key.split_once('/').unwrap().1.to_string();
        if class == "harness-stuck" {
            eprintln!("harness: run of {} seed {seed} got stuck and was abandoned", s.name);
            continue;
        }
        let first = run_once(s, *seed, None, false, true);
        if first.violation.as_ref().map(|v| &v.0) != Some(&class) {
            unrep += 1;
            eprintln!("harness: {key} (seed {seed}: {msg}) did not recur on the same seed; not reported");
            continue;
        }
        let crashy = first.plan.is_empty() && first.sched.is_empty();
        let (orig_plan, orig_sched) = (first.plan.len(), first.sched.len());
        let (best, tries) = if crashy { (first, 0) } else { minimise(s, *seed, first, &class, Duration::from_secs(if tier == "thorough" { 90 } else { 25 })) };
        let fin = if crashy { best.clone() } else { run_once(s, *seed, Some((best.plan.clone(), best.sched.clone())), true, true) };
        let (class2, msg2) = fin.violation.clone().unwrap_or((class.clone(), msg.clone()));
        let dir = format!("{verif}/replays");
        let _ = std::fs::create_dir_all(&dir);
        let path = format!("{dir}/{}-{}-{:016x}.json", prop.id, s.name, seed);
        let rp = Replay {
            property: prop.id.into(),
            scenario: s.name.into(),
            seed: *seed,
            class: class2.clone(),
            message: msg2.clone(),
            hash: fin.hash,
            steps: fin.steps,
            plan: best.plan.clone(),
            sched: best.sched.clone(),
            minimised_from: serde_json::json!({"workload_choices": orig_plan, "schedule_choices": orig_sched, "attempts": tries}),
            trace: fin.log.clone(),
        };
        std::fs::write(&path, serde_json::to_vec_pretty(&rp).unwrap()).unwrap();
        println!("{}: {} [{}] seed {}: {}", prop.id, s.name, class2, seed, msg2);
        println!("  minimised to {} workload and {} schedule choices (from {orig_plan} and {orig_sched}, {tries} attempts)", rp.plan.len(), rp.sched.len());
        for l in fin.log.iter().rev().take(60).rev() {
            println!("    {l}");
        }
        println!("VIOLATION property={} replay={}", prop.id, path);
        reported.push(key.clone());
        code = 1;
        if reported.len() >= 3 {
            break;
        }
    }
    for k in &knowns {
        println!("KNOWN-FINDING: property={} {} (seen in {} runs)", k.property, k.text, known_hit.get(&k.class).copied().unwrap_or(0));
    }
    let wall = t0.elapsed().as_secs_f64();
    let missing: Vec<&str> = prop.must_reach.iter().copied().filter(|p| !agg.probes.contains_key(*p)).collect();
    if !missing.is_empty() && code == 0 {
        eprintln!("note: {}: never reached: {missing:?}", prop.id);
    }
    // two of the runs, written out
    let samples: Vec<serde_json::Value> = prop
        .scenarios
        .iter()
        .take(2)
        .map(|s| {
            let seed = run_seed(base, prop.id, s.name, 0);
            let r = run_once(s, seed, None, true, false);
            serde_json::json!({"scenario": s.name, "seed": seed, "fingerprint": format!("{:016x}", r.hash), "steps": r.steps, "begins": r.log.iter().take(25).collect::<Vec<_>>()})
        })
        .collect();
    let faults: BTreeMap<&String, &u64> = agg.probes.iter().filter(|(k, _)| k.starts_with("fault.") || k.starts_with("env.")).collect();
    let ev = serde_json::json!({
        "property": prop.id,
        "tier": tier,
        "seed": base,
        "level": "exploration",
        "coverage": {
            "evaluations": agg.runs,
            "distinct_nontrivial": agg.hashes.len(),
            "rule": "one evaluation is one simulated run; runs are counted as distinct by a fingerprint over every scheduling, workload and fault decision and every observed event; the fingerprint of a run in which only one thread ever ran and nothing was observed is not counted",
            "samples": samples,
            "runs_per_scenario": agg.per_scen,
            "simulated_runs_per_hour": (agg.runs as f64 / search_s * 3600.0) as u64,
            "seeds_per_hour": (agg.runs as f64 / search_s * 3600.0) as u64,
            "simulated_seconds": agg.sim_ns as f64 / 1e9,
            "scheduling_steps": agg.steps,
            "context_switches": agg.switches,
            "faults_injected": faults,
            "situations_reached": agg.probes,
            "situations_expected_but_not_reached": missing,
            "determinism_checks": agg.det_checks,
            "determinism_mismatches": agg.mismatches,
            "unreproduced_alarms": unrep,
            "real_code": prop.real,
            "stubbed": prop.stub,
        },
        "assumptions": prop.assumptions,
        "wall_s": wall,
        "violations": reported.len(),
        "known_findings_seen": known_hit,
    });
    let _ = std::fs::create_dir_all(format!("{verif}/evidence"));
    let path = format!("{verif}/evidence/{}.json", prop.id);
    // the second program's part of a check
    let before = std::env::var_os("OWSIM_SECOND").and_then(|_| serde_json::from_slice(&std::fs::read(&path).ok()?).ok());
    let ev = if let Some(b) = before { together(b, ev) } else { ev };
    std::fs::write(path, serde_json::to_vec_pretty(&ev).unwrap()).unwrap();
    println!(
        "{}: {} runs ({} distinct), {} steps, {:.1} simulated s, {:.1}s wall, {} violations",
        prop.id, agg.runs, agg.hashes.len(), agg.steps, agg.sim_ns as f64 / 1e9, wall, reported.len()
    );
    if broken && code == 0 {
        eprintln!("harness: a worker process died");
        return 2;
    }
    code
}

/// The evidence of two searches for one property.
fn together(a: serde_json::Value, b: serde_json::Value) -> serde_json::Value {
    use serde_json::Value::*;
    fn merge(key: &str, a: serde_json::Value, b: serde_json::Value) -> serde_json::Value {
        match (a, b) {
            (Object(mut a), Object(b)) => {
                for (k, v) in b {
                    let old = a.remove(&k);
                    let v = match old {
                        Some(old) => merge(&k, old, v),
                        None => v,
                    };
                    a.insert(k, v);
                }
                Object(a)
            }
            (Array(mut a), Array(b)) => {
                for v in b {
                    if !a.contains(&v) {
                        a.push(v);
                    }
                }
                Array(a)
            }
            (Number(a), Number(_)) if key == "seed" => Number(a),
            (Number(a), Number(b)) => match (a.as_u64(), b.as_u64()) {
                (Some(a), Some(b)) => (a + b).into(),
                _ => (a.as_f64().unwrap() + b.as_f64().unwrap()).into(),
            },
            (a, _) => a,
        }
    }
    let time = |v: &serde_json::Value| v["coverage"]["evaluations"].as_f64().unwrap_or(0.0) / v["coverage"]["simulated_runs_per_hour"].as_f64().unwrap_or(1.0).max(1.0);
    let hours = time(&a) + time(&b);
    let mut v = merge("", a, b);
    let rate = (v["coverage"]["evaluations"].as_f64().unwrap_or(0.0) / hours.max(1e-9)) as u64;
    v["coverage"]["simulated_runs_per_hour"] = rate.into();
    v["coverage"]["seeds_per_hour"] = rate.into();
    v
}

fn pin(w: usize) {
    unsafe {
        let mut set: libc::cpu_set_t = std::mem::zeroed();
        if libc::sched_getaffinity(0, std::mem::size_of_val(&set), &mut set) != 0 {
            return;
        }
        let cpus: Vec<usize> = (0..1024).filter(|&c| libc::CPU_ISSET(c, &set)).collect();
        if cpus.is_empty() {
            return;
        }
        let mut one: libc::cpu_set_t = std::mem::zeroed();
        libc::CPU_SET(cpus[w % cpus.len()], &mut one);
        libc::sched_setaffinity(0, std::mem::size_of_val(&one), &one);
    }
}
