//! Supervisor: forks workers, workers fork one process per simulated run; aggregation, minimising,
//! replay files, evidence.
use crate::fw::*;
use simrt::rng::{mix, Rng};
use simrt::shm::{self, Report, Sw};
use simrt::{sched, sys, CTR_NAMES, NCTR};
use std::fmt::Write as _;

const HARNESS_EXIT: i32 = 3;

fn verif_dir() -> String {
    std::env::var("SIM_VERIF").unwrap_or_else(|_| "/verif".into())
}

pub fn main(props: Vec<Prop>) {
    install_hook();
    let args: Vec<String> = std::env::args().collect();
    let find = |id: &str| -> &Prop {
        props.iter().find(|p| p.id == id).unwrap_or_else(|| {
            println!("unknown property {}", id);
            std::process::exit(HARNESS_EXIT)
        })
    };
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let code = match args.get(1).map(|s| s.as_str()) {
        Some("check") => check(find(&args[2]), args.get(3).map(|s| s == "thorough").unwrap_or(false), seed),
        Some("replay") => {
            sched::set_trace(std::env::var("SIM_TRACE").is_ok());
            replay(&props, &args[2])
        }
        Some("determinism") => determinism(find(&args[2]), args[3].parse().unwrap(), seed),
        Some("show") => {
            let p = find(&args[2]);
            let i: u64 = args[3].parse().unwrap();
            for l in gen_plan(p, seed, i, &Tier { thorough: false }) {
                println!("{}", l.text());
            }
            0
        }
        Some("trace") => {
            let p = find(&args[2]);
            let i: u64 = args[3].parse().unwrap();
            sched::set_trace(true);
            let rs = run_seed(p, seed, i);
            let plan = gen_plan(p, seed, i, &Tier { thorough: false });
            let rep = unsafe { &mut *shm::new_report() };
            let o = run_forked(p, &plan, rs, None, rep);
            println!("{:?} steps={} ops={} switches={} allocs={} ev={:x}", o, rep.steps, rep.ops, rep.nsw_total, rep.allocs, rep.ev);
            0
        }
        Some("list") => {
            for p in &props {
                println!("{}", p.id);
            }
            0
        }
        _ => {
            println!("usage: simharness check|replay|determinism|show|trace|list ...");
            HARNESS_EXIT
        }
    };
    std::process::exit(code);
}

fn run_seed(p: &Prop, seed: u64, i: u64) -> u64 {
    mix(mix(seed ^ 0x7265_6c6c_6973).wrapping_add(hash_str(p.id)) ^ mix(i + 1))
}
fn gen_plan(p: &Prop, seed: u64, i: u64, tier: &Tier) -> Plan {
    let mut r = Rng::new(run_seed(p, seed, i));
    (p.gen)(&mut r, tier)
}

#[derive(Clone, Debug, PartialEq)]
enum Outcome {
    Ok,
    Violation(String, String),
    Harness(String),
}

fn sched_cfg(p: &Prop, plan: &Plan) -> sched::SchedCfg {
    let mut c = sched::SchedCfg { gap: 0, hot: 0, max_switches: 0, op_budget: p.op_budget };
    for l in plan {
        if l.t == -1 && l.kw == "sched" {
            c.gap = l.arg(0).max(0) as u64;
            c.hot = l.arg(1).max(0) as u64;
            c.max_switches = l.arg(2).clamp(0, 5000) as u64;
        }
    }
    c
}

/// One simulated run, in a process of its own.
fn run_forked(p: &Prop, plan: &Plan, rs: u64, sw: Option<Vec<Sw>>, rep: &mut Report) -> Outcome {
    shm::reset(rep);
    let pid = unsafe { sys::fork() };
    if pid < 0 {
        return Outcome::Harness("fork failed".into());
    }
    if pid == 0 {
        unsafe {
            sys::prctl(1, 9, 0, 0, 0);
            sys::setrlimit(4, &[0, 0]); // no core files
            sys::setrlimit(0, &[60, 61]); // CPU seconds
            sys::alarm(240);
        }
        shm::use_report(rep);
        sched::configure(sched_cfg(p, plan), mix(rs ^ 0x5c4e_d01e), sw);
        simrt::interpose::set_hash_seed(mix(rs ^ 0x4a54));
        set_own(p.own);
        simrt::alloc::enable(true);
        let r = std::panic::catch_unwind(|| (p.run)(plan));
        if r.is_err() {
            shm::harness_error("the harness panicked");
        }
        if rep.status == 0 {
            rep.status = 1;
        }
        sys::exit_now(if rep.status == 1 { 0 } else { 71 });
    }
    let mut st: i32 = 0;
    loop {
        let r = unsafe { sys::waitpid(pid, &mut st, 0) };
        if r == pid {
            break;
        }
        if r < 0 && unsafe { *sys::__errno_location() } != 4 {
            return Outcome::Harness("waitpid failed".into());
        }
    }
    let sig = st & 0x7f;
    match rep.status {
        2 => Outcome::Violation(rep.cls(), rep.msg()),
        3 => Outcome::Harness(rep.msg()),
        1 if sig == 0 => Outcome::Ok,
        _ => match sig {
            0 => Outcome::Harness(format!("a run exited early with status {:x}", st)),
            14 => Outcome::Harness("a run was blocked for 240 s".into()),
            9 | 15 | 2 | 1 => Outcome::Harness(format!("a run was killed by signal {}", sig)),
            24 if !p.own.is_empty() && !p.own.contains(&"hang") => Outcome::Ok,
            24 => Outcome::Violation("hang".into(), "an operation used 60 s of CPU time".into()),
            _ if !p.own.is_empty() && !p.own.contains(&"crash") => Outcome::Ok,
            _ => Outcome::Violation(
                "crash".into(),
                format!("the process died of signal {} (abort, memory error or double panic) in plan line {}", sig, rep.line),
            ),
        },
    }
}

#[repr(C)]
struct Agg {
    runs: u64,
    steps: u64,
    max_steps: u64,
    ops: u64,
    allocs: u64,
    switches: u64,
    nontrivial: u64,
    violation: u64, // run index + 1, 0 = none
    harness: u64,
    ctr: [u64; NCTR],
    runs_with: [u64; NCTR],
}

struct Batch {
    agg: Vec<&'static Agg>,
    sigs: &'static [[u64; 2]],
    cov: &'static [u8],
    wall_ns: u64,
}

fn batch(p: &Prop, tier: &Tier, seed: u64, n: u64, workers: u64, cap_s: u64, stop_on_violation: bool) -> Batch {
    let sigs = sys::map_shared(n as usize * 16) as *mut [u64; 2];
    let cov = shm::new_cov();
    let stop = sys::map_shared(4096) as *mut u64; // lowest violating run + 1
    let t0 = sys::real_ns();
    let mut pids = vec![];
    let mut agg = vec![];
    for w in 0..workers {
        let a = sys::map_shared(std::mem::size_of::<Agg>()) as *mut Agg;
        agg.push(unsafe { &*a });
        let pid = unsafe { sys::fork() };
        if pid == 0 {
            unsafe {
                sys::prctl(1, 9, 0, 0, 0);
            }
            worker(p, tier, seed, n, w, workers, unsafe { &mut *a }, sigs, cov, stop, t0 + cap_s * 1_000_000_000, stop_on_violation);
            sys::exit_now(0);
        }
        pids.push(pid);
    }
    for pid in pids {
        let mut st = 0;
        unsafe { sys::waitpid(pid, &mut st, 0) };
        if st != 0 {
            println!("harness error: a worker died with status {:x}", st);
            std::process::exit(HARNESS_EXIT);
        }
    }
    Batch {
        agg,
        sigs: unsafe { std::slice::from_raw_parts(sigs, n as usize) },
        cov: unsafe { std::slice::from_raw_parts(cov, shm::COVN) },
        wall_ns: sys::real_ns() - t0,
    }
}

fn nontrivial(rep: &Report) -> bool {
    let faults: u64 = CTR_NAMES
        .iter()
        .zip(rep.ctr.iter())
        .filter(|(n, _)| (n.starts_with("fault_") && **n != "fault_hash_reseed") || n.starts_with("sw_preempt") || n.starts_with("sw_hot"))
        .map(|(_, c)| *c)
        .sum();
    rep.ops >= 3 && faults > 0
}

fn worker(
    p: &Prop, tier: &Tier, seed: u64, n: u64, w: u64, stride: u64, a: &mut Agg, sigs: *mut [u64; 2], cov: *mut u8,
    stop: *mut u64, deadline: u64, stop_on_violation: bool,
) {
    let rep = unsafe { &mut *shm::new_report() };
    shm::use_cov(cov);
    let mut i = w;
    while i < n {
        let s = unsafe { core::ptr::read_volatile(stop) };
        if stop_on_violation && s != 0 && s <= i {
            break;
        }
        if sys::real_ns() > deadline {
            break;
        }
        let plan = gen_plan(p, seed, i, tier);
        let o = run_forked(p, &plan, run_seed(p, seed, i), None, rep);
        a.runs += 1;
        a.steps += rep.steps;
        a.max_steps = a.max_steps.max(rep.steps);
        a.ops += rep.ops;
        a.allocs += rep.allocs;
        a.switches += rep.nsw_total;
        for c in 0..NCTR {
            a.ctr[c] += rep.ctr[c];
            a.runs_with[c] += (rep.ctr[c] > 0) as u64;
        }
        let nt = nontrivial(rep);
        a.nontrivial += nt as u64;
        unsafe {
            *sigs.add(i as usize) = [(rep.sig | 1) & !(!nt as u64), rep.ev ^ mix(rep.steps ^ rep.nsw_total << 40)];
        }
        match o {
            Outcome::Ok => {}
            Outcome::Violation(..) => {
                if a.violation == 0 {
                    a.violation = i + 1;
                }
                // lowest run index wins, whatever the number of workers
                let mut cur = unsafe { core::ptr::read_volatile(stop) };
                let at = unsafe { core::sync::atomic::AtomicU64::from_ptr(stop) };
                while cur == 0 || cur > i + 1 {
                    match at.compare_exchange(cur, i + 1, core::sync::atomic::Ordering::SeqCst, core::sync::atomic::Ordering::SeqCst) {
                        Ok(_) => break,
                        Err(c) => cur = c,
                    }
                }
                if stop_on_violation {
                    break;
                }
            }
            Outcome::Harness(m) => {
                let s = format!("harness error in {} run {}: {}\n", p.id, i, m);
                sys::write_all(1, s.as_bytes());
                a.harness += 1;
                break;
            }
        }
        i += stride;
    }
}

fn jobs() -> u64 {
    std::env::var("SIM_JOBS").ok().and_then(|s| s.parse().ok()).unwrap_or_else(|| {
        std::thread::available_parallelism().map(|x| x.get() as u64).unwrap_or(4)
    })
}

fn check(p: &Prop, thorough: bool, seed: u64) -> i32 {
    let tier = Tier { thorough };
    let mut n = if thorough { p.quick * 60 } else { p.quick };
    if let Some(x) = std::env::var("SIM_RUNS").ok().and_then(|s| s.parse().ok()) {
        n = x;
    }
    let cap = std::env::var("SIM_CAP_S").ok().and_then(|s| s.parse().ok()).unwrap_or(if thorough { 3000 } else { 330 });
    println!("property={} tier={} VERIF_SEED={} runs={}", p.id, if thorough { "thorough" } else { "quick" }, seed, n);
    let b = batch(p, &tier, seed, n, jobs(), cap, true);
    if b.agg.iter().any(|a| a.harness > 0) {
        return HARNESS_EXIT;
    }
    let viol = b.agg.iter().map(|a| a.violation).filter(|&v| v > 0).min();
    let mut path = None;
    if let Some(v) = viol {
        match report_violation(p, &tier, seed, v - 1) {
            Ok(f) => path = Some(f),
            Err(m) => {
                println!("harness error: {}", m);
                return HARNESS_EXIT;
            }
        }
    }
    evidence(p, thorough, seed, &b, viol, n);
    match path {
        None => {
            let runs: u64 = b.agg.iter().map(|a| a.runs).sum();
            println!("property={} held on {} simulated runs in {:.1} s", p.id, runs, b.wall_ns as f64 / 1e9);
            0
        }
        Some(f) => {
            println!("VIOLATION property={} replay={}", p.id, f);
            1
        }
    }
}

fn try_plan(p: &Prop, plan: &Plan, rep: &mut Report) -> Outcome {
    run_forked(p, plan, 0, Some(switches_of_plan(plan)), rep)
}

fn report_violation(p: &Prop, tier: &Tier, seed: u64, run: u64) -> Result<String, String> {
    let rep = unsafe { &mut *shm::new_report() };
    let rs = run_seed(p, seed, run);
    let plan = gen_plan(p, seed, run, tier);
    let first = run_forked(p, &plan, rs, None, rep);
    let (cls, msg) = match &first {
        Outcome::Violation(c, m) => (c.clone(), m.clone()),
        o => return Err(format!("run {} does not repeat: {:?}", run, o)),
    };
    println!("run {} (seed {}): {}: {}", run, rs, cls, brief(&msg));
    let mut full = plan.clone();
    full.extend(lines_of_switches(&rep.sw[..rep.nsw as usize]));
    let (min, replayable) = match try_plan(p, &full, rep) {
        Outcome::Violation(c, _) if c == cls => (minimise(p, full.clone(), &cls, rep), true),
        _ => (full, false),
    };
    let msg = if replayable {
        match try_plan(p, &min, rep) {
            Outcome::Violation(_, m) => m,
            _ => msg,
        }
    } else {
        msg
    };
    let dir = format!("{}/replays", verif_dir());
    std::fs::create_dir_all(&dir).map_err(|e| e.to_string())?;
    let file = format!("{}/{}-seed{}-run{}.replay", dir, p.id, seed, run);
    let mut s = String::new();
    let _ = writeln!(s, "# trellis deterministic simulation: replay with /verif/check.sh replay {}", file);
    let _ = writeln!(s, "property {}", p.id);
    let _ = writeln!(s, "origin VERIF_SEED={} run={} run_seed={}", seed, run, rs);
    let _ = writeln!(s, "class {}", cls);
    for l in msg.lines() {
        let _ = writeln!(s, "# {}", l);
    }
    if !replayable {
        let _ = writeln!(s, "schedule-seed {}", rs);
    }
    for l in &min {
        if replayable || l.kw != "sw" {
            let _ = writeln!(s, "{}", l.text());
        }
    }
    std::fs::write(&file, s).map_err(|e| e.to_string())?;
    println!("minimised to {} lines: {}: {}", min.len(), cls, brief(&msg));
    // The file must reproduce the violation in a fresh process.
    let exe = std::env::current_exe().map_err(|e| e.to_string())?;
    let o = std::process::Command::new(exe).args(["replay", &file]).output().map_err(|e| e.to_string())?;
    if o.status.code() != Some(1) {
        return Err(format!("the replay file {} does not reproduce the violation", file));
    }
    Ok(file)
}

fn minimise(p: &Prop, mut cur: Plan, cls: &str, rep: &mut Report) -> Plan {
    let t0 = sys::real_ns();
    let limit = 45_000_000_000u64;
    let mut tries = 0u64;
    let mut ok = |c: &Plan, rep: &mut Report| -> bool {
        tries += 1;
        if tries > 4000 || sys::real_ns() - t0 > limit {
            return false;
        }
        matches!(try_plan(p, c, rep), Outcome::Violation(c, _) if c == cls)
    };
    for _round in 0..4 {
        let before = cur.clone();
        // drop chunks of lines
        let mut chunk = (cur.len() + 1) / 2;
        while chunk >= 1 {
            let mut i = 0;
            while i < cur.len() {
                let mut c = cur.clone();
                c.drain(i..(i + chunk).min(c.len()));
                if ok(&c, rep) {
                    cur = c;
                } else {
                    i += chunk;
                }
            }
            if chunk == 1 {
                break;
            }
            chunk = (chunk + 1) / 2;
        }
        // truncate and shrink arguments
        for i in 0..cur.len() {
            while cur[i].kw != "sw" && cur[i].a.len() > 2 {
                let mut c = cur.clone();
                let n = c[i].a.len();
                c[i].a.truncate(n - (n / 4).max(1));
                if ok(&c, rep) {
                    cur = c;
                } else {
                    break;
                }
            }
            for j in 0..cur[i].a.len() {
                if cur[i].kw == "sw" && j == 0 {
                    continue;
                }
                loop {
                    let v = cur[i].a[j];
                    let mut better = None;
                    for cand in [0, v / 2, v - v.signum()] {
                        if cand.abs() < v.abs() {
                            let mut c = cur.clone();
                            c[i].a[j] = cand;
                            if ok(&c, rep) {
                                better = Some(c);
                                break;
                            }
                        }
                    }
                    match better {
                        Some(c) => cur = c,
                        None => break,
                    }
                }
            }
        }
        if cur == before {
            break;
        }
    }
    cur
}

fn replay(props: &[Prop], file: &str) -> i32 {
    let text = match std::fs::read_to_string(file) {
        Ok(t) => t,
        Err(e) => {
            println!("cannot read {}: {}", file, e);
            return HARNESS_EXIT;
        }
    };
    let (mut id, mut cls, mut sseed, mut plan) = (String::new(), String::new(), None, vec![]);
    for l in text.lines() {
        let l = l.trim();
        if l.is_empty() || l.starts_with('#') || l.starts_with("origin ") {
            continue;
        }
        if let Some(x) = l.strip_prefix("property ") {
            id = x.to_string();
        } else if let Some(x) = l.strip_prefix("class ") {
            cls = x.to_string();
        } else if let Some(x) = l.strip_prefix("schedule-seed ") {
            sseed = x.parse::<u64>().ok();
        } else if let Some(x) = Line::parse(l) {
            plan.push(x);
        } else {
            println!("bad line in {}: {}", file, l);
            return HARNESS_EXIT;
        }
    }
    let p = match props.iter().find(|p| p.id == id) {
        Some(p) => p,
        None => {
            println!("unknown property {:?}", id);
            return HARNESS_EXIT;
        }
    };
    let rep = unsafe { &mut *shm::new_report() };
    let o = match sseed {
        Some(s) => run_forked(p, &plan, s, None, rep),
        None => try_plan(p, &plan, rep),
    };
    println!("steps={} ops={} switches={} events={:016x}", rep.steps, rep.ops, rep.nsw_total, rep.ev);
    match o {
        Outcome::Ok => {
            println!("property={} held in this replay", p.id);
            0
        }
        Outcome::Harness(m) => {
            println!("harness error: {}", m);
            HARNESS_EXIT
        }
        Outcome::Violation(c, m) => {
            println!("{}: {}", c, brief(&m));
            if !cls.is_empty() && c != cls {
                println!("(the file recorded class {})", cls);
            }
            println!("VIOLATION property={} replay={}", p.id, file);
            1
        }
    }
}

/// Runs the same seeds several times under different worker counts, in different processes, and
/// compares every run's event log.
fn determinism(p: &Prop, n: u64, seed: u64) -> i32 {
    let tier = Tier { thorough: false };
    let a = batch(p, &tier, seed, n, 8, 3000, false);
    let mut bad = 0;
    for workers in [3, 13] {
        let b = batch(p, &tier, seed, n, workers, 3000, false);
        for i in 0..n as usize {
            if a.sigs[i] != b.sigs[i] {
                bad += 1;
                if bad < 5 {
                    println!("{} run {} differs: {:x?} {:x?}", p.id, i, a.sigs[i], b.sigs[i]);
                }
            }
        }
    }
    // and every recorded schedule replays to the same event log
    let rep = unsafe { &mut *shm::new_report() };
    let mut replays = 0;
    for i in 0..n.min(2000) {
        let plan = gen_plan(p, seed, i, &tier);
        run_forked(p, &plan, run_seed(p, seed, i), None, rep);
        let (ev, steps, sw) = (rep.ev, rep.steps, rep.sw[..rep.nsw as usize].to_vec());
        run_forked(p, &plan, run_seed(p, seed, i), Some(sw), rep);
        replays += 1;
        if rep.ev != ev || rep.steps != steps {
            bad += 1;
            if bad < 10 {
                println!("{} run {}: the recorded schedule replays differently (steps {} vs {})", p.id, i, steps, rep.steps);
            }
        }
    }
    println!("determinism {}: {} seeds x 3 (8, 3 and 13 workers), {} schedule replays, {} differences", p.id, n, replays, bad);
    (bad > 0) as i32
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn evidence(p: &Prop, thorough: bool, seed: u64, b: &Batch, viol: Option<u64>, asked: u64) {
    let sum = |f: fn(&Agg) -> u64| -> u64 { b.agg.iter().map(|a| f(a)).sum() };
    let (runs, steps, ops) = (sum(|a| a.runs), sum(|a| a.steps), sum(|a| a.ops));
    let mut set = std::collections::BTreeSet::new();
    let mut all = std::collections::BTreeSet::new();
    let mut sample_ids = vec![];
    for (i, s) in b.sigs.iter().enumerate() {
        if s[1] == 0 && s[0] == 0 {
            continue;
        }
        all.insert(s[1]);
        if s[0] & 1 == 1 {
            if set.insert(s[0]) && sample_ids.len() < 3 && i % 7 == 3 {
                sample_ids.push(i as u64);
            }
        }
    }
    let secs = b.wall_ns as f64 / 1e9;
    let mut faults = String::new();
    let mut sw = String::new();
    let mut probes = String::new();
    for c in 0..NCTR {
        let total: u64 = b.agg.iter().map(|a| a.ctr[c]).sum();
        let rw: u64 = b.agg.iter().map(|a| a.runs_with[c]).sum();
        if total == 0 {
            continue;
        }
        let n = CTR_NAMES[c];
        let (dst, n) = if let Some(x) = n.strip_prefix("fault_") {
            (&mut faults, x)
        } else if let Some(x) = n.strip_prefix("sw_") {
            (&mut sw, x)
        } else {
            (&mut probes, n.trim_start_matches("probe_"))
        };
        if !dst.is_empty() {
            dst.push_str(", ");
        }
        let _ = write!(dst, "{}: {{\"times\": {}, \"runs\": {}}}", js(n), total, rw);
    }
    let tier = Tier { thorough };
    let mut samples = String::new();
    if sample_ids.is_empty() {
        sample_ids.push(0);
    }
    for (k, &i) in sample_ids.iter().enumerate() {
        if k > 0 {
            samples.push_str(", ");
        }
        let plan: Vec<String> = gen_plan(p, seed, i, &tier).iter().take(40).map(|l| l.text()).collect();
        let _ = write!(samples, "{{\"run\": {}, \"run_seed\": {}, \"plan\": {}}}", i, run_seed(p, seed, i), js(&plan.join("; ").chars().take(1500).collect::<String>()));
    }
    let list = |v: &[&str]| v.iter().map(|s| js(s)).collect::<Vec<_>>().join(", ");
    let cov = b.cov.iter().filter(|x| **x != 0).count();
    let out = format!(
        "{{\n \"property\": {id},\n \"tier\": {tier},\n \"seed\": {seed},\n \"level\": \"exploration\",\n \"coverage\": {{\n  \"evaluations\": {runs},\n  \"distinct_nontrivial\": {distinct},\n  \"rule\": {rule},\n  \"runs_asked\": {asked},\n  \"runs_nontrivial\": {nt},\n  \"distinct_event_logs\": {dist_ev},\n  \"runs_per_hour\": {rph},\n  \"operations\": {ops},\n  \"simulated_steps\": {steps},\n  \"longest_run_steps\": {maxs},\n  \"allocations\": {allocs},\n  \"task_switches\": {sws},\n  \"faults_fired\": {{{faults}}},\n  \"switch_kinds\": {{{sw}}},\n  \"probes\": {{{probes}}},\n  \"instrumented_blocks_reached\": {cov},\n  \"instrumented_blocks_total\": {guards},\n  \"real_code\": [{real}],\n  \"stubs\": [{stub}],\n  \"samples\": [{samples}]\n }},\n \"assumptions\": [{assume}],\n \"wall_s\": {wall:.2},\n \"violations\": {viol}\n}}\n",
        id = js(p.id),
        tier = js(if thorough { "thorough" } else { "quick" }),
        seed = seed,
        runs = runs,
        distinct = set.len(),
        rule = js("run i draws its workload, environment, fault placement and schedule from mix(VERIF_SEED, property, i). Non-trivial: at least 3 operations and at least one fault or mid-operation task switch that really fired. Distinct: by the hash of the sequence of operations, fault firings and task switches (who, to whom, during which operation), values excluded."),
        asked = asked,
        nt = sum(|a| a.nontrivial),
        dist_ev = all.len(),
        rph = (runs as f64 / secs * 3600.0) as u64,
        ops = ops,
        steps = steps,
        maxs = b.agg.iter().map(|a| a.max_steps).max().unwrap_or(0),
        allocs = sum(|a| a.allocs),
        sws = sum(|a| a.switches),
        cov = cov,
        guards = simrt::interpose::guards(),
        real = list(p.real),
        stub = list(p.stub),
        samples = samples,
        assume = list(&[
            "sampled, not exhaustive: a clean batch is evidence, not proof",
            "one simulated step = one instrumented basic block, load or store of the code under test; uninstrumented std code runs between steps",
            "allocation failure is not injected: the library has no fallible allocation, the process would abort",
        ]),
        wall = secs,
        viol = viol.is_some() as u64,
    );
    let dir = format!("{}/evidence", verif_dir());
    let _ = std::fs::create_dir_all(&dir);
    let f = format!("{}/{}.json", dir, p.id);
    if std::fs::write(&f, out).is_err() {
        println!("harness error: cannot write {}", f);
        std::process::exit(HARNESS_EXIT);
    }
}

/// A message, cut short where a whole table is in it.
fn brief(m: &str) -> String {
    const MOST: usize = 1500;
    if m.len() <= MOST {
        return m.to_string();
    }
    let cut = |mut k: usize| {
        while !m.is_char_boundary(k) {
            k += 1;
        }
        k
    };
    format!("{} … {} bytes … {}", &m[..cut(MOST)], m.len() - MOST - 300, &m[cut(m.len() - 300)..])
}
