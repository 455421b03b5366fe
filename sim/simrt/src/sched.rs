//! The scheduler: real threads, one baton. A task runs until the seeded schedule (or the recorded
//! one) says that another one runs; the switch can fall on any instrumented instruction.
use crate::rng::Rng;
use crate::shm::{self, Sw};
use crate::{count, sys, Ctr};
use core::sync::atomic::{AtomicU32, Ordering::SeqCst};

pub const MAXT: usize = 8;
pub const FINISH: u64 = u64::MAX;

pub struct SchedCfg {
    /// Mean number of steps between preemptions; 0 = no random preemption.
    pub gap: u64,
    /// Chance (in 1/256) of a switch at a hot point (allocation, log record, callback, stdout).
    pub hot: u64,
    pub max_switches: u64,
    /// Steps one operation may take before it counts as hung.
    pub op_budget: u64,
}

static mut IN_SUT: bool = false;
static mut CUR: usize = 0;
static mut NT: usize = 1;
static mut LOCAL: u64 = 0;
static mut TRIGGER: u64 = u64::MAX;
static mut NEXT: [u64; MAXT] = [u64::MAX; MAXT];
static mut DEADLINE: [u64; MAXT] = [u64::MAX; MAXT];
static mut SAVED_LOCAL: [u64; MAXT] = [0; MAXT];
static mut SAVED_SUT: [bool; MAXT] = [false; MAXT];
static mut DONE: [bool; MAXT] = [false; MAXT];
static mut BLOCKED_SPINS: u64 = 0;
const Z: AtomicU32 = AtomicU32::new(0);
static WORD: [AtomicU32; MAXT] = [Z; MAXT];
static READY: AtomicU32 = Z;
static ALLDONE: AtomicU32 = Z;
static PARK: AtomicU32 = Z;
static mut REPLAY: Option<Vec<Sw>> = None;
static mut RCUR: [usize; MAXT] = [0; MAXT];
static mut RLIST: [Vec<(u64, u32)>; MAXT] = [const { Vec::new() }; MAXT];
static mut RNG: Rng = Rng(1);
static mut CFG: SchedCfg = SchedCfg { gap: 0, hot: 0, max_switches: 0, op_budget: u64::MAX };
static mut LAST_SW: [u64; MAXT] = [u64::MAX; MAXT];
static mut TRACE: bool = false;
static mut SLOW: [u64; MAXT] = [1; MAXT];

pub fn set_trace(b: bool) {
    unsafe { TRACE = b }
}
pub fn tracing() -> bool {
    unsafe { TRACE }
}

#[inline(always)]
pub fn in_sut() -> bool {
    unsafe { IN_SUT }
}
pub fn current() -> usize {
    unsafe { CUR }
}
pub fn num_tasks() -> usize {
    unsafe { NT }
}
/// Total simulated steps so far.
pub fn now() -> u64 {
    unsafe {
        let mut s = LOCAL;
        for i in 0..NT {
            if i != CUR {
                s += SAVED_LOCAL[i];
            }
        }
        s
    }
}

/// One step of the code under test.
#[inline(always)]
pub fn tick() {
    unsafe {
        LOCAL += 1;
        if LOCAL >= TRIGGER {
            slow();
        }
    }
}

unsafe fn arm() {
    TRIGGER = if NT > 1 { NEXT[CUR].min(DEADLINE[CUR]) } else { DEADLINE[0] };
}

#[cold]
#[inline(never)]
unsafe fn slow() {
    let me = CUR;
    if LOCAL >= DEADLINE[me] {
        // what follows runs instrumented code itself
        DEADLINE = [u64::MAX; MAXT];
        NEXT = [u64::MAX; MAXT];
        TRIGGER = u64::MAX;
        shm::report().steps = now();
        shm::die("hang", "an operation did not finish within its step budget");
    }
    if NT > 1 && LOCAL >= NEXT[me] {
        if REPLAY.is_some() {
            let l = &RLIST[me];
            let (at, target) = l[RCUR[me]];
            RCUR[me] += 1;
            NEXT[me] = l.get(RCUR[me]).map(|x| x.0).unwrap_or(u64::MAX);
            if at == LOCAL {
                let target = target as usize;
                if target < NT && !DONE[target] && target != me {
                    switch(target, Ctr::sw_preempt);
                }
            }
        } else {
            draw_gap(me);
            random_switch(Ctr::sw_preempt);
        }
    }
    arm();
}

unsafe fn draw_gap(t: usize) {
    NEXT[t] = if CFG.gap == 0 {
        u64::MAX
    } else {
        LOCAL + 1 + RNG.below(2 * CFG.gap * SLOW[t])
    };
}

unsafe fn pick_other() -> Option<usize> {
    let me = CUR;
    let mut c = [0usize; MAXT];
    let mut n = 0;
    for i in 0..NT {
        if i != me && !DONE[i] {
            c[n] = i;
            n += 1;
        }
    }
    if n == 0 {
        None
    } else {
        Some(c[RNG.usize(n)])
    }
}

unsafe fn random_switch(why: Ctr) {
    if shm::report().nsw_total >= CFG.max_switches {
        return;
    }
    if let Some(t) = pick_other() {
        switch(t, why);
    }
}

unsafe fn record(local: u64, target: usize) {
    let r = shm::report();
    r.nsw_total += 1;
    if (r.nsw as usize) < shm::MAXSW {
        r.sw[r.nsw as usize] = Sw { task: CUR as u32, target: target as u32, local };
        r.nsw += 1;
    }
}

unsafe fn switch(target: usize, why: Ctr) {
    LAST_SW[CUR] = LOCAL;
    record(LOCAL, target);
    count(why);
    shm::sig(0x5000 + (CUR * 16 + target) as u64 + ((shm::report().line as u64) << 20));
    handoff(target);
}

unsafe fn handoff(target: usize) {
    let me = CUR;
    SAVED_LOCAL[me] = LOCAL;
    SAVED_SUT[me] = IN_SUT;
    IN_SUT = false;
    CUR = target;
    LOCAL = SAVED_LOCAL[target];
    WORD[target].store(1, SeqCst);
    sys::futex_wake(&WORD[target]);
    wait_turn(me);
}

unsafe fn wait_turn(me: usize) {
    while WORD[me].load(SeqCst) == 0 {
        sys::futex_wait(&WORD[me], 0);
    }
    WORD[me].store(0, SeqCst);
    IN_SUT = SAVED_SUT[me];
    arm();
}

/// A point where real deployments are likely to be descheduled.
pub fn hot() {
    unsafe {
        if !IN_SUT {
            return;
        }
        tick();
        if NT > 1 && REPLAY.is_none() && CFG.hot > 0 && LAST_SW[CUR] != LOCAL && RNG.below(256) < CFG.hot {
            random_switch(Ctr::sw_hot);
        }
    }
}

/// The current task waits for a lock that a descheduled task holds: run another task.
pub fn blocked() {
    unsafe {
        BLOCKED_SPINS += 1;
        if BLOCKED_SPINS > 100_000 {
            shm::die("deadlock", "every task waits for a lock");
        }
        let me = CUR;
        for d in 1..NT {
            let t = (me + d) % NT;
            if !DONE[t] {
                count(Ctr::sw_block);
                handoff(t);
                return;
            }
        }
        shm::die("deadlock", "the only task left waits for a lock that nobody will release");
    }
}

/// Runs `f` as code under test: instrumented, preemptible, budgeted.
pub fn enter_sut() {
    unsafe {
        BLOCKED_SPINS = 0;
        DEADLINE[CUR] = LOCAL.saturating_add(CFG.op_budget);
        IN_SUT = true;
        arm();
    }
}
pub fn leave_sut() {
    unsafe {
        IN_SUT = false;
        DEADLINE[CUR] = u64::MAX;
        shm::report().steps = now();
    }
}
/// For callbacks from the code under test into the simulator.
pub struct Outside(bool);
impl Outside {
    pub fn new() -> Outside {
        unsafe {
            let o = Outside(IN_SUT);
            IN_SUT = false;
            o
        }
    }
}
impl Drop for Outside {
    fn drop(&mut self) {
        unsafe { IN_SUT = self.0 }
    }
}
/// The reverse: call back into the code under test from a callback.
pub struct Inside(bool);
impl Inside {
    pub fn new() -> Inside {
        unsafe {
            let o = Inside(IN_SUT);
            IN_SUT = true;
            o
        }
    }
}
impl Drop for Inside {
    fn drop(&mut self) {
        unsafe { IN_SUT = self.0 }
    }
}

pub fn configure(cfg: SchedCfg, seed: u64, replay: Option<Vec<Sw>>) {
    unsafe {
        CFG = cfg;
        RNG = Rng::new(seed);
        REPLAY = replay;
    }
}
pub fn set_slow(task: usize, factor: u64) {
    unsafe { SLOW[task] = factor }
}

/// Runs the tasks to completion, interleaved. Returns when all are done. The threads are left
/// parked: the process that runs a simulation exits when it has reported.
pub fn run_tasks(tasks: Vec<Box<dyn FnOnce() + Send>>, stack: usize) {
    let n = tasks.len();
    assert!(n <= MAXT && n > 0);
    unsafe {
        NT = n;
        for i in 0..n {
            DONE[i] = false;
            SAVED_LOCAL[i] = 0;
            SAVED_SUT[i] = false;
            NEXT[i] = u64::MAX;
            RCUR[i] = 0;
            RLIST[i] = Vec::new();
        }
        if let Some(r) = &REPLAY {
            for s in r {
                if (s.task as usize) < n && s.local != FINISH {
                    RLIST[s.task as usize].push((s.local, s.target));
                }
            }
            for i in 0..n {
                RLIST[i].sort_by_key(|x| x.0);
                NEXT[i] = RLIST[i].first().map(|x| x.0).unwrap_or(u64::MAX);
            }
        } else {
            for i in 0..n {
                LOCAL = 0;
                draw_gap(i);
            }
        }
        READY.store(0, SeqCst);
        ALLDONE.store(0, SeqCst);
    }
    for (i, f) in tasks.into_iter().enumerate() {
        WORD[i].store(0, SeqCst);
        std::thread::Builder::new()
            .stack_size(stack)
            .spawn(move || {
                READY.fetch_add(1, SeqCst);
                sys::futex_wake(&READY);
                unsafe { wait_turn(i) };
                if std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).is_err() {
                    shm::harness_error("a task panicked outside the code under test");
                }
                finish(i);
                loop {
                    sys::futex_wait(&PARK, 0);
                }
            })
            .expect("spawn");
        // one at a time, so that thread start-up code never runs in parallel with anything
        loop {
            let r = READY.load(SeqCst);
            if r > i as u32 {
                break;
            }
            sys::futex_wait(&READY, r);
        }
    }
    unsafe {
        CUR = 0;
        LOCAL = 0;
        IN_SUT = false;
        WORD[0].store(1, SeqCst);
        sys::futex_wake(&WORD[0]);
        while ALLDONE.load(SeqCst) == 0 {
            sys::futex_wait(&ALLDONE, 0);
        }
        // back to single-task mode for the final checks
        let total = {
            let mut s = 0;
            for i in 0..n {
                s += SAVED_LOCAL[i];
            }
            s
        };
        NT = 1;
        CUR = 0;
        LOCAL = total;
        arm();
    }
}

fn finish(me: usize) {
    unsafe {
        DONE[me] = true;
        SAVED_LOCAL[me] = LOCAL;
        IN_SUT = false;
        let mut target = None;
        if let Some(r) = &REPLAY {
            for s in r {
                if s.task as usize == me && s.local == FINISH {
                    let t = s.target as usize;
                    if t < NT && !DONE[t] {
                        target = Some(t);
                    }
                }
            }
        } else {
            target = pick_other();
        }
        let target = target.or_else(|| (0..NT).find(|&t| !DONE[t]));
        match target {
            Some(t) => {
                record(FINISH, t);
                count(Ctr::sw_finish);
                CUR = t;
                LOCAL = SAVED_LOCAL[t];
                WORD[t].store(1, SeqCst);
                sys::futex_wake(&WORD[t]);
            }
            None => {
                ALLDONE.store(1, SeqCst);
                sys::futex_wake(&ALLDONE);
            }
        }
    }
}
