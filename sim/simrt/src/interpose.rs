//! Symbols that the program's std and libc calls resolve to: instrumentation callbacks, stdout,
//! randomness, clocks and blocking.
use crate::{count, sched, shm, sys, Ctr};

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(s: *mut u32, e: *mut u32) {
    static mut N: u32 = 0;
    if s == e || *s != 0 {
        return;
    }
    let mut p = s;
    while p < e {
        N += 1;
        *p = N;
        p = p.add(1);
    }
    GUARDS = N;
}
static mut GUARDS: u32 = 0;
pub fn guards() -> u32 {
    unsafe { GUARDS }
}
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(g: *mut u32) {
    if sched::in_sut() {
        shm::cover(*g);
        sched::tick();
    }
}
macro_rules! mem { ($($n:ident),*) => { $(
    #[no_mangle]
    pub extern "C" fn $n(_a: *const u8) {
        if sched::in_sut() {
            sched::tick();
        }
    }
)* } }
mem!(
    __sanitizer_cov_load1, __sanitizer_cov_load2, __sanitizer_cov_load4, __sanitizer_cov_load8,
    __sanitizer_cov_load16, __sanitizer_cov_store1, __sanitizer_cov_store2, __sanitizer_cov_store4,
    __sanitizer_cov_store8, __sanitizer_cov_store16
);

fn set_errno(e: i32) {
    unsafe { *sys::__errno_location() = e }
}

// ---- stdout / stderr -------------------------------------------------------------------------
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum StdoutMode {
    Ok,
    Short,
    Eintr,
    Enospc,
    Epipe,
}
static mut STDOUT: StdoutMode = StdoutMode::Ok;
static mut STDOUT_FLIP: bool = false;
pub fn set_stdout(m: StdoutMode) {
    unsafe { STDOUT = m }
}
pub fn stdout_bytes() -> usize {
    shm::report().out_len
}

#[no_mangle]
pub unsafe extern "C" fn write(fd: i32, b: *const u8, n: usize) -> isize {
    if (fd == 1 || fd == 2) && sched::in_sut() {
        sched::hot();
        shm::report().out_len += n; // every attempt counts
        match STDOUT {
            StdoutMode::Enospc => {
                count(Ctr::fault_stdout_error);
                set_errno(28);
                return -1;
            }
            StdoutMode::Epipe => {
                count(Ctr::fault_stdout_error);
                set_errno(32);
                return -1;
            }
            StdoutMode::Eintr => {
                STDOUT_FLIP = !STDOUT_FLIP;
                if STDOUT_FLIP {
                    count(Ctr::fault_stdout_eintr);
                    set_errno(4);
                    return -1;
                }
            }
            StdoutMode::Short if n > 1 => {
                count(Ctr::fault_stdout_short);
                return 1;
            }
            _ => {}
        }
        return n as isize;
    }
    let r = sys::raw6(sys::SYS_WRITE, fd as usize, b as usize, n, 0, 0, 0);
    if r < 0 {
        set_errno(-r as i32);
        return -1;
    }
    r
}

// ---- randomness --------------------------------------------------------------------------------
static mut HASH_RNG: crate::Rng = crate::Rng(7);
static mut SIM_RANDOM: bool = false;
pub fn set_hash_seed(s: u64) {
    unsafe {
        HASH_RNG = crate::Rng::new(s);
        SIM_RANDOM = true;
    }
}
#[no_mangle]
pub unsafe extern "C" fn getrandom(b: *mut u8, n: usize, f: u32) -> isize {
    if SIM_RANDOM {
        count(Ctr::fault_hash_reseed);
        for i in 0..n {
            *b.add(i) = HASH_RNG.next() as u8;
        }
        return n as isize;
    }
    let r = sys::raw6(sys::SYS_GETRANDOM, b as usize, n, f as usize, 0, 0, 0);
    if r < 0 {
        set_errno(-r as i32);
        return -1;
    }
    r
}

// ---- environment: variables, process identity, processors, files ---------------------------------
static mut ENV: i64 = 0;
static mut ENV_READS: u64 = 0;
/// What the code under test finds: 0 no variable is set, 1 to 5 every variable has some value,
/// 6 and up they come and go.
pub fn set_env(n: i64) {
    unsafe { ENV = n }
}
extern "C" {
    static environ: *const *const u8;
}
unsafe fn env_value() -> i64 {
    sched::hot();
    count(Ctr::fault_environment);
    ENV_READS += 1;
    if ENV < 6 { ENV } else { (crate::rng::mix(ENV_READS.wrapping_add(ENV as u64 * 977)) % 6) as i64 }
}
#[no_mangle]
pub unsafe extern "C" fn getenv(name: *const u8) -> *const u8 {
    let mut n = 0;
    while *name.add(n) != 0 {
        n += 1;
    }
    let name = core::slice::from_raw_parts(name, n);
    if sched::in_sut() && !name.starts_with(b"RUST_") {
        return match env_value() {
            1 => b"1\0".as_ptr(),
            2 => b"0\0".as_ptr(),
            3 => b"true\0".as_ptr(),
            4 => b"debug\0".as_ptr(),
            5 => b"\0".as_ptr(),
            _ => core::ptr::null(),
        };
    }
    let mut e = environ;
    while !e.is_null() && !(*e).is_null() {
        let v = *e;
        if (0..n).all(|i| *v.add(i) == name[i]) && *v.add(n) == b'=' {
            return v.add(n + 1);
        }
        e = e.add(1);
    }
    core::ptr::null()
}
#[no_mangle]
pub unsafe extern "C" fn getpid() -> i32 {
    if sched::in_sut() {
        return 1000 + env_value() as i32 * 37;
    }
    sys::raw6(39, 0, 0, 0, 0, 0, 0) as i32
}
#[no_mangle]
pub unsafe extern "C" fn sched_getaffinity(pid: i32, n: usize, set: *mut u8) -> i32 {
    if sched::in_sut() && n >= 1 {
        core::ptr::write_bytes(set, 0, n);
        *set = (1u32 << (1 + env_value() % 8)).wrapping_sub(1) as u8;
        return 0;
    }
    let r = sys::raw6(204, pid as usize, n, set as usize, 0, 0, 0);
    if r < 0 {
        set_errno(-r as i32);
        return -1;
    }
    if (r as usize) < n {
        core::ptr::write_bytes(set.add(r as usize), 0, n - r as usize);
    }
    0
}
unsafe fn no_file(flags: i32) -> i32 {
    // nothing the code under test does needs a file; to write one is to leave something behind
    if flags & 3 != 0 {
        shm::report().out_len += 1;
    }
    count(Ctr::fault_environment);
    set_errno(if env_value() % 2 == 0 { 2 } else { 13 });
    -1
}
#[no_mangle]
pub unsafe extern "C" fn open64(path: *const u8, flags: i32, mode: u32) -> i32 {
    if sched::in_sut() {
        return no_file(flags);
    }
    let r = sys::raw6(2, path as usize, flags as usize, mode as usize, 0, 0, 0);
    if r < 0 {
        set_errno(-r as i32);
        return -1;
    }
    r as i32
}

// ---- clocks --------------------------------------------------------------------------------------
static mut CLOCK_BASE: i64 = 1_700_000_000_000_000_000;
static mut CLOCK_RATE: i64 = 10;
static mut CLOCK_JUMPY: bool = false;
static mut CLOCK_READS: u64 = 0;
pub fn set_clock(base: i64, rate: i64, jumpy: bool) {
    unsafe {
        CLOCK_BASE = base;
        CLOCK_RATE = rate;
        CLOCK_JUMPY = jumpy;
    }
}
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: i32, ts: *mut i64) -> i32 {
    if sched::in_sut() {
        sched::hot();
        CLOCK_READS += 1;
        let mut t = CLOCK_BASE + sched::now() as i64 * CLOCK_RATE;
        if CLOCK_JUMPY && id == 0 {
            count(Ctr::fault_clock_jump);
            t += (crate::rng::mix(CLOCK_READS) % 4_000_000_000_000) as i64 - 2_000_000_000_000;
        }
        *ts = t / 1_000_000_000;
        *ts.add(1) = t % 1_000_000_000;
        return 0;
    }
    let r = sys::raw6(sys::SYS_CLOCK_GETTIME, id as usize, ts as usize, 0, 0, 0, 0);
    if r < 0 {
        set_errno(-r as i32);
        return -1;
    }
    0
}

// ---- blocking --------------------------------------------------------------------------------------
#[no_mangle]
pub unsafe extern "C" fn syscall(n: i64, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> i64 {
    if n as usize == sys::SYS_FUTEX && sched::in_sut() {
        let op = b & 0x7f;
        if op == 0 || op == 9 {
            // FUTEX_WAIT / FUTEX_WAIT_BITSET: the value is checked as the kernel would; then another
            // task runs, and the wait ends as a spurious wake-up, which every caller must handle.
            if *(a as *const u32) != c as u32 {
                set_errno(11);
                return -1;
            }
            sched::blocked();
            return 0;
        }
        if op == 1 || op == 10 {
            return 0;
        }
    }
    if n as usize == sys::SYS_GETRANDOM && SIM_RANDOM {
        return getrandom(a as *mut u8, b, c as u32) as i64;
    }
    let r = sys::raw6(n as usize, a, b, c, d, e, f);
    if r < 0 && r > -4096 {
        set_errno(-r as i32);
        return -1;
    }
    r as i64
}
