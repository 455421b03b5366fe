//! Plans, tasks, operations, injected faults and verdicts.
use simrt::sched;
use simrt::shm::{self, Sw};
pub use simrt::{count, Ctr, Rng};
use std::cell::UnsafeCell;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};

/// One line of a plan: which task (-1 = set-up), what, with which integer arguments.
#[derive(Clone, Debug, PartialEq)]
pub struct Line {
    pub t: i32,
    pub kw: String,
    pub a: Vec<i64>,
}
impl Line {
    pub fn new(t: i32, kw: &str, a: &[i64]) -> Line {
        Line { t, kw: kw.to_string(), a: a.to_vec() }
    }
    pub fn arg(&self, i: usize) -> i64 {
        self.a.get(i).copied().unwrap_or(0)
    }
    /// Argument as an index: never negative, never huge.
    pub fn u(&self, i: usize) -> usize {
        self.arg(i).clamp(0, 1 << 24) as usize
    }
    pub fn text(&self) -> String {
        let mut s = format!("{} {}", self.t, self.kw);
        for x in &self.a {
            s.push_str(&format!(" {}", x));
        }
        s
    }
    pub fn parse(s: &str) -> Option<Line> {
        let mut it = s.split_whitespace();
        let t = it.next()?.parse().ok()?;
        let kw = it.next()?.to_string();
        let mut a = vec![];
        for x in it {
            a.push(x.parse().ok()?);
        }
        Some(Line { t, kw, a })
    }
}
pub type Plan = Vec<Line>;

pub fn plan_tasks(p: &Plan) -> usize {
    p.iter().filter(|l| l.kw != "sw").map(|l| l.t + 1).max().unwrap_or(1).clamp(1, sched::MAXT as i32) as usize
}

pub struct Prop {
    pub id: &'static str,
    pub gen: fn(&mut Rng, &Tier) -> Plan,
    pub run: fn(&Plan),
    /// Runs in the quick tier.
    pub quick: u64,
    pub op_budget: u64,
    /// The classes of violation that are this property's: `class`, `class:operation` or
    /// `class@tag`. Empty: all of them. Anything else ends the run without a verdict.
    pub own: &'static [&'static str],
    pub real: &'static [&'static str],
    pub stub: &'static [&'static str],
}
pub struct Tier {
    pub thorough: bool,
}

// ---- verdicts -----------------------------------------------------------------------------------
static OWN: Sim<&'static [&'static str]> = Sim::new(&[]);
pub fn set_own(o: &'static [&'static str]) {
    *OWN.get() = o;
    shm::set_filter(owned);
}
pub fn owned(cls: &str) -> bool {
    let own = OWN.get();
    if own.is_empty() || own.contains(&cls) {
        return true;
    }
    #[allow(static_mut_refs)]
    let t = unsafe { TS.get(sched::current()) };
    let Some(t) = t else { return false };
    own.iter().any(|o| match o.strip_prefix(cls) {
        Some(x) if x.starts_with(':') => x[1..] == *t.kw,
        Some(x) if x.starts_with('@') => t.tag.contains(&&x[1..]),
        _ => false,
    })
}
/// What is known about the object that the current operation works on.
pub fn set_tags(tag: Vec<&'static str>) {
    let _o = sched::Outside::new();
    ts().tag = tag;
}
/// Payload of the unwinding that ends a task when another property's violation was met.
pub struct OtherProp;
static BLIND: Sim<bool> = Sim::new(false);

/// Ends the run: the property is violated.
pub fn fail(cls: &str, msg: String) -> ! {
    if !owned(cls) {
        count(Ctr::probe_other_property);
        trace(|| format!("another property's violation, {}: {}", cls, msg));
        if ts().depth > 0 || std::thread::panicking() {
            shm::inconclusive();
        }
        resume_unwind(Box::new(OtherProp));
    }
    shm::report().steps = sched::now();
    trace(|| format!("VIOLATION {}: {}", cls, msg));
    shm::die(cls, &msg)
}
#[macro_export]
macro_rules! check {
    ($c:expr, $cls:expr, $($f:tt)*) => { if !$c { $crate::fw::fail($cls, format!($($f)*)) } };
}
pub fn trace(f: impl FnOnce() -> String) {
    if sched::tracing() {
        let s = format!("[{:>9} t{}] {}\n", sched::now(), sched::current(), f());
        simrt::sys::write_all(2, s.as_bytes());
    }
}
pub fn note(x: u64) {
    shm::ev(x);
}

// ---- injected faults ------------------------------------------------------------------------------
#[derive(Clone, Copy, PartialEq, Debug)]
#[repr(usize)]
pub enum K {
    Clone = 0,
    Drop,
    Cmp,
    Hash,
    Next,
    Cb,
    Log,
    Sink,
    Fmt,
}
pub const NK: usize = 9;
const KCTR: [Ctr; NK] = [
    Ctr::fault_panic_clone,
    Ctr::fault_panic_drop,
    Ctr::fault_panic_cmp,
    Ctr::fault_panic_hash,
    Ctr::fault_panic_next,
    Ctr::fault_panic_callback,
    Ctr::fault_panic_log,
    Ctr::fault_panic_sink,
    Ctr::fault_panic_fmt,
];
pub struct SimPanic(pub usize);
struct TaskState {
    inj: [i64; NK],
    fired: [bool; NK],
    msg: String,
    depth: u32,
    kw: String,
    tag: Vec<&'static str>,
}
static mut TS: Vec<TaskState> = Vec::new();
fn ts() -> &'static mut TaskState {
    #[allow(static_mut_refs)]
    unsafe {
        &mut TS[sched::current()]
    }
}
/// A callback of the code under test: another task may run here, and an armed fault fires here.
pub fn point(k: K) {
    if !sched::in_sut() {
        return; // the harness itself is looking
    }
    sched::hot();
    let _o = sched::Outside::new();
    fire(k);
}
fn fire(k: K) {
    let s = ts();
    let n = &mut s.inj[k as usize];
    if *n > 0 {
        *n -= 1;
        if *n == 0 && !std::thread::panicking() {
            s.fired[k as usize] = true;
            count(KCTR[k as usize]);
            shm::sig(0xfa00 + k as u64);
            trace(|| format!("  fault: panic in {:?}", k));
            resume_unwind(Box::new(SimPanic(k as usize)));
        }
    }
}
/// Is the k-th call armed to misbehave now (for non-panic faults such as a sink error)?
pub fn fired(k: K) -> bool {
    ts().fired[k as usize]
}
pub fn any_fired() -> bool {
    ts().fired.iter().any(|x| *x)
}
pub fn armed(k: K) -> bool {
    ts().inj[k as usize] > 0
}
pub fn disarm() -> [i64; NK] {
    std::mem::replace(&mut ts().inj, [0; NK])
}
pub fn rearm(x: [i64; NK]) {
    ts().inj = x;
}

#[derive(Debug)]
pub enum Pan {
    Injected(usize),
    Real(String),
}
impl Pan {
    pub fn text(&self) -> String {
        match self {
            Pan::Injected(k) => format!("injected panic {}", k),
            Pan::Real(s) => format!("panic: {}", s),
        }
    }
}

/// Runs code under test.
pub fn sut<T>(f: impl FnOnce() -> T) -> Result<T, Pan> {
    ts().depth += 1;
    sched::enter_sut();
    let r = catch_unwind(AssertUnwindSafe(f));
    sched::leave_sut();
    ts().depth -= 1;
    match r {
        Ok(v) => Ok(v),
        Err(p) => {
            if let Some(s) = p.downcast_ref::<SimPanic>() {
                note(0xb0 + s.0 as u64);
                Err(Pan::Injected(s.0))
            } else {
                count(Ctr::probe_sut_panic);
                note(0xbf);
                let m = std::mem::take(&mut ts().msg);
                trace(|| format!("  panic: {}", m));
                Err(Pan::Real(m))
            }
        }
    }
}
/// Runs code under test that has no reason to panic: an uninjected panic is a violation.
/// Returns None if an injected fault ended it.
pub fn sut_ok<T>(what: &str, f: impl FnOnce() -> T) -> Option<T> {
    match sut(f) {
        Ok(v) => Some(v),
        Err(Pan::Injected(_)) => None,
        Err(Pan::Real(m)) => fail("panic", format!("{} panicked: {}", what, m)),
    }
}
/// Calls back out of the code under test into the simulator.
pub fn outside<T>(f: impl FnOnce() -> T) -> T {
    let _o = sched::Outside::new();
    f()
}

/// Takes items from an iterator in the ways callers do, against the items it should yield: one by
/// one, some passed over with `nth`, the rest all at once; or abandoned after `limit` of them.
/// `how` = 0: one by one only. Returns the positions of the items that were seen (passed to `f`).
pub fn walk<I: Iterator, M: PartialEq + std::fmt::Debug>(what: &str, mut it: I, want: &[M], limit: usize, how: i64, mut f: impl FnMut(I::Item) -> M) -> Vec<usize> {
    let len = want.len();
    let mut pos = 0;
    let mut seen = vec![];
    let mut h = how as u64;
    let mut see = |at: usize, x: I::Item, seen: &mut Vec<usize>| {
        check!(at < len, "model", "{} goes on after {} items", what, len);
        let m = f(x);
        check!(m == want[at], "model", "{} yields {:?} as item {}, should be {:?}", what, m, at, want[at]);
        seen.push(at);
    };
    while seen.len() < limit {
        let left = len - pos;
        let (lo, hi) = it.size_hint();
        check!(lo <= left && hi.map_or(true, |h| h >= left), "model", "{} promises {}..{:?} items with {} left", what, lo, hi, left);
        let mut skip = 0;
        if how != 0 {
            h = simrt::rng::mix(h.wrapping_add(0x9e37));
            if h % 4 == 0 {
                skip = (h >> 8) as usize % if h & 64 == 0 { 5 } else { 45 };
            }
            if h % 16 == 3 {
                match (h >> 16) % 4 {
                    0 => {
                        let n = it.count();
                        check!(n == left, "model", "{} counts {} items, {} are left", what, n, left);
                    }
                    1 => match it.last() {
                        Some(x) => see(len.wrapping_sub(1), x, &mut seen),
                        None => check!(left == 0, "model", "{} has no last item, {} are left", what, left),
                    },
                    2 => {
                        it.for_each(|x| {
                            see(pos, x, &mut seen);
                            pos += 1;
                        });
                        check!(pos == len, "model", "{} ends after {} of {} items", what, pos, len);
                    }
                    _ => {
                        let v: Vec<I::Item> = it.collect();
                        check!(v.len() == left, "model", "{} collects {} items, {} are left", what, v.len(), left);
                        for x in v {
                            see(pos, x, &mut seen);
                            pos += 1;
                        }
                    }
                }
                return seen;
            }
        }
        match if skip > 0 { it.nth(skip) } else { it.next() } {
            Some(x) => {
                see(pos + skip, x, &mut seen);
                pos += skip + 1;
            }
            None => {
                check!(left <= skip, "model", "{} ends after {} of {} items", what, pos, len);
                if it.next().is_some() {
                    fail("model", format!("{} yields again after its end", what));
                }
                if how != 0 && (h >> 24) % 3 == 0 {
                    let n = it.count();
                    check!(n == 0, "model", "{} counts {} items after its end", what, n);
                    return seen;
                }
                break;
            }
        }
    }
    seen
}
/// One item of an iterator that owns its items; `skip` others before it are passed over.
/// `got` collects what came, the ones passed over included. False at the end.
pub fn pull<I: Iterator, M: Clone>(it: &mut I, skip: usize, want: &[M], got: &mut Vec<M>, f: impl FnOnce(I::Item) -> M) -> bool {
    let at = got.len().min(want.len());
    if got.len() <= want.len() {
        let (lo, hi) = it.size_hint();
        check!(lo <= want.len() - at && hi.map_or(true, |h| h >= want.len() - at), "model", "promises {}..{:?} items with {} left", lo, hi, want.len() - at);
    }
    match if skip > 0 { it.nth(skip) } else { it.next() } {
        Some(x) => {
            got.extend_from_slice(&want[at..(at + skip).min(want.len())]);
            got.push(f(x));
            true
        }
        None => {
            if want.len() <= at + skip {
                got.extend_from_slice(&want[at..]);
            }
            false
        }
    }
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let _o = sched::Outside::new();
        let mut m = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".to_string()
        };
        if m.len() > 600 {
            let mut n = 600;
            while !m.is_char_boundary(n) {
                n -= 1;
            }
            m.truncate(n);
        }
        if let Some(l) = info.location() {
            m.push_str(&format!(" at {}:{}", l.file(), l.line()));
        }
        trace(|| format!("  panic raised: {}", m));
        #[allow(static_mut_refs)]
        unsafe {
            if sched::current() < TS.len() {
                ts().msg = m;
            } else {
                simrt::sys::write_all(2, m.as_bytes());
                simrt::sys::write_all(2, b"\n");
            }
        }
    }));
}

// ---- worlds ---------------------------------------------------------------------------------------
pub trait World: Sized + 'static {
    type Local: Default + 'static;
    /// Builds the shared state from the set-up lines.
    fn new(plan: &Plan) -> Self;
    fn step(&self, l: &mut Self::Local, line: &Line, task: usize);
    fn end_task(&self, _l: Self::Local, _task: usize) {}
    fn finish(self) {}
}

/// A cell for state that belongs to whichever task runs.
pub struct Sim<T>(UnsafeCell<T>);
unsafe impl<T> Sync for Sim<T> {}
unsafe impl<T> Send for Sim<T> {}
impl<T> Sim<T> {
    pub const fn new(x: T) -> Sim<T> {
        Sim(UnsafeCell::new(x))
    }
    #[allow(clippy::mut_from_ref)]
    pub fn get(&self) -> &mut T {
        unsafe { &mut *self.0.get() }
    }
    pub fn into_inner(self) -> T {
        self.0.into_inner()
    }
}

struct Ptr<T>(*const T);
unsafe impl<T> Send for Ptr<T> {}
impl<T> Clone for Ptr<T> {
    fn clone(&self) -> Self {
        Ptr(self.0)
    }
}
impl<T> Ptr<T> {
    fn get(&self) -> &'static T {
        unsafe { &*self.0 }
    }
}

pub fn hash_str(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    h
}

fn exec_lines<W: World>(w: &W, plan: &Plan, task: usize) {
    let mut local = W::Local::default();
    let mut times = 1;
    for (i, line) in plan.iter().enumerate() {
        if line.t != task as i32 || line.kw == "sw" {
            continue;
        }
        if line.kw == "times" {
            times = line.u(0).clamp(1, 3000);
            continue;
        }
        if line.kw == "inj" {
            let k = line.u(0) % NK;
            ts().inj[k] = line.arg(1).max(0);
            continue;
        }
        let r = shm::report();
        r.line = i as i64;
        r.ops += 1;
        count(Ctr::probe_op);
        shm::ev(hash_str(&line.kw));
        shm::sig(hash_str(&line.kw) ^ task as u64);
        trace(|| format!("op {}", line.text()));
        let s = ts();
        s.kw.clear();
        s.kw.push_str(&line.kw);
        s.tag.clear();
        // the same again and again, within reason
        let t0 = sched::now();
        for n in 0..std::mem::replace(&mut times, 1) {
            if n > 0 {
                if sched::now() - t0 > 3_000_000 {
                    break;
                }
                count(Ctr::probe_op);
            }
            if !conclusive(|| w.step(&mut local, line, task)) {
                // what is left is given back; double drops would still be noticed
                let _ = sut(move || drop(local));
                return;
            }
            let s = ts();
            s.inj = [0; NK];
            s.fired = [false; NK];
        }
    }
    conclusive(|| w.end_task(local, task));
}
/// Runs a part of the harness; false if it met another property's violation.
fn conclusive(f: impl FnOnce()) -> bool {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(()) => true,
        Err(p) if p.is::<OtherProp>() => {
            *BLIND.get() = true;
            disarm();
            false
        }
        Err(p) if p.is::<SimPanic>() => resume_unwind(p),
        Err(p) => {
            // results are read outside the code under test: one that cannot be (a matrix of the wrong
            // size, an index past the end) is the code's, unless the simulator's own runtime panicked
            let m = std::mem::take(&mut ts().msg);
            if m.is_empty() || m.contains(" at simrt/") || m.contains("/simrt/src/") {
                resume_unwind(p);
            }
            disarm();
            if !owned("panic") {
                count(Ctr::probe_other_property);
                *BLIND.get() = true;
                return false;
            }
            fail("panic", format!("a result cannot be read: {}", m))
        }
    }
}

pub fn drive<W: World>(plan: &Plan) {
    let n = plan_tasks(plan);
    #[allow(static_mut_refs)]
    unsafe {
        TS.clear();
        for _ in 0..n.max(1) {
            TS.push(TaskState { inj: [0; NK], fired: [false; NK], msg: String::new(), depth: 0, kw: String::new(), tag: vec![] });
        }
    }
    for l in plan {
        if l.t == -1 {
            global_cfg(l);
        }
    }
    let mut made = None;
    if !conclusive(|| made = Some(W::new(plan))) {
        return;
    }
    let w = made.unwrap();
    if n == 1 {
        exec_lines(&w, plan, 0);
    } else {
        let wp = Ptr(&w as *const W);
        let pp = Ptr(plan as *const Plan);
        let mut tasks: Vec<Box<dyn FnOnce() + Send>> = vec![];
        for t in 0..n {
            let (wp, pp) = (wp.clone(), pp.clone());
            tasks.push(Box::new(move || exec_lines(wp.get(), pp.get(), t)));
        }
        sched::run_tasks(tasks, 24 << 20);
    }
    shm::report().line = plan.len() as i64;
    if !*BLIND.get() {
        conclusive(move || w.finish());
    } else {
        conclusive(move || drop(w));
    }
    shm::report().steps = sched::now();
}

fn global_cfg(l: &Line) {
    use simrt::interpose::*;
    match l.kw.as_str() {
        "stdout" => set_stdout(match l.arg(0) {
            1 => StdoutMode::Short,
            2 => StdoutMode::Eintr,
            3 => StdoutMode::Enospc,
            4 => StdoutMode::Epipe,
            _ => StdoutMode::Ok,
        }),
        "env" => set_env(l.arg(0)),
        "hash" => set_hash_seed(l.arg(0) as u64),
        "clock" => set_clock(l.arg(0), l.arg(1), l.arg(2) != 0),
        "reuse" => simrt::alloc::reuse(true),
        "slow" => {
            count(Ctr::fault_slow_task);
            sched::set_slow(l.u(0) % sched::MAXT, l.u(1).max(1) as u64)
        }
        _ => {}
    }
}

/// The environment every run gets: hash seeds, clocks, stdout behaviour, one slow task.
pub fn gen_env(r: &mut Rng, p: &mut Plan, tasks: usize) {
    p.push(Line::new(-1, "hash", &[r.below(1 << 40) as i64]));
    if r.chance(1, 3) {
        p.push(Line::new(
            -1,
            "clock",
            &[r.range(0, 4_000_000_000_000_000_000), r.range(0, 1_000_000), r.range(0, 1)],
        ));
    }
    if r.chance(1, 3) {
        p.push(Line::new(-1, "stdout", &[r.range(1, 4)]));
    }
    if r.chance(1, 3) {
        p.push(Line::new(-1, "env", &[r.range(1, 12)]));
    }
    if r.chance(1, 4) {
        p.push(Line::new(-1, "reuse", &[]));
    }
    if tasks > 1 && r.chance(1, 3) {
        p.push(Line::new(-1, "slow", &[r.usize(tasks) as i64, 50]));
    }
}

/// Now and then, the next operation is made many times over.
pub fn gen_times(r: &mut Rng, p: &mut Plan, task: i32, one_in: u64) {
    if r.chance(1, one_in) {
        p.push(Line::new(task, "times", &[*r.pick(&[20i64, 33, 65, 130, 260, 260, 520, 1030])]));
    }
}

pub fn lines_of_switches(sw: &[Sw]) -> Vec<Line> {
    sw.iter()
        .map(|s| {
            let at = if s.local == sched::FINISH { -1 } else { s.local as i64 };
            Line::new(s.task as i32, "sw", &[at, s.target as i64])
        })
        .collect()
}
pub fn switches_of_plan(p: &Plan) -> Vec<Sw> {
    p.iter()
        .filter(|l| l.kw == "sw" && l.t >= 0)
        .map(|l| Sw {
            task: l.t as u32,
            target: l.u(1) as u32,
            local: if l.arg(0) < 0 { sched::FINISH } else { l.arg(0) as u64 },
        })
        .collect()
}

/// Sizes with the usual suspects: powers of two and their neighbours, and machine-word edges.
pub fn size(r: &mut Rng, cap: usize) -> usize {
    let s = match r.weighted(&[6, 6, 3, 3, 1]) {
        0 => r.usize(5),
        1 => r.usize(17),
        2 => *r.pick(&[31usize, 32, 33, 63, 64, 65]),
        3 => r.usize(80),
        _ => *r.pick(&[95usize, 96, 97, 127, 128, 129, 160, 191, 192, 255, 256, 257, 300]),
    };
    s.min(cap)
}
