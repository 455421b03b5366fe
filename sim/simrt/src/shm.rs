//! What a run reports: shared with the parent process, so it survives any way the run ends.
use crate::NCTR;

pub const MAXSW: usize = 6000;
#[derive(Clone, Copy)]
#[repr(C)]
pub struct Sw {
    pub task: u32,
    pub target: u32,
    pub local: u64,
}
#[repr(C)]
pub struct Report {
    pub status: u32, // 0 running, 1 completed, 2 violation recorded, 3 harness error
    pub nsw: u32,
    pub nsw_total: u64,
    pub steps: u64,
    pub ev: u64,
    pub sig: u64,
    pub ops: u64,
    pub allocs: u64,
    pub line: i64,
    pub cls_len: usize,
    pub msg_len: usize,
    pub out_len: usize,
    pub cls: [u8; 96],
    pub msg: [u8; 6000],
    pub ctr: [u64; NCTR],
    pub sw: [Sw; MAXSW],
}
static mut REPORT: *mut Report = core::ptr::null_mut();
pub const COVN: usize = 1 << 17;
static mut COV: *mut u8 = core::ptr::null_mut();

pub fn report() -> &'static mut Report {
    unsafe { &mut *REPORT }
}
pub fn has_report() -> bool {
    unsafe { !REPORT.is_null() }
}
pub fn new_report() -> *mut Report {
    crate::sys::map_shared(core::mem::size_of::<Report>()) as *mut Report
}
pub fn use_report(r: *mut Report) {
    unsafe { REPORT = r }
}
pub fn reset(r: &mut Report) {
    r.status = 0;
    r.nsw = 0;
    r.nsw_total = 0;
    r.steps = 0;
    r.ev = 0xcbf29ce484222325;
    r.sig = 0x9e3779b97f4a7c15;
    r.ops = 0;
    r.allocs = 0;
    r.line = -1;
    r.cls_len = 0;
    r.msg_len = 0;
    r.out_len = 0;
    r.ctr = [0; NCTR];
}
pub fn new_cov() -> *mut u8 {
    crate::sys::map_shared(COVN)
}
pub fn use_cov(p: *mut u8) {
    unsafe { COV = p }
}
#[inline(always)]
pub fn cover(i: u32) {
    unsafe {
        if !COV.is_null() {
            *COV.add(i as usize & (COVN - 1)) = 1;
        }
    }
}
fn put(dst: &mut [u8], len: &mut usize, s: &str) {
    let n = s.len().min(dst.len());
    dst[..n].copy_from_slice(&s.as_bytes()[..n]);
    *len = n;
}
/// Records the first violation of the run.
pub fn violation(cls: &str, msg: &str) {
    let r = report();
    if r.status != 0 {
        return;
    }
    put(&mut r.cls, &mut r.cls_len, cls);
    put(&mut r.msg, &mut r.msg_len, msg);
    r.status = 2;
}
pub fn violated() -> bool {
    report().status == 2
}
pub fn harness_error(msg: &str) -> ! {
    let r = report();
    put(&mut r.cls, &mut r.cls_len, "harness");
    put(&mut r.msg, &mut r.msg_len, msg);
    r.status = 3;
    crate::sys::exit_now(70)
}
static mut FILTER: Option<fn(&str) -> bool> = None;
/// Which classes of violation belong to the property under check.
pub fn set_filter(f: fn(&str) -> bool) {
    unsafe { FILTER = Some(f) }
}
pub fn ours(cls: &str) -> bool {
    unsafe { FILTER.map_or(true, |f| f(cls)) }
}
/// Another property's violation: the run ends here and says nothing about this one.
pub fn inconclusive() -> ! {
    let r = report();
    crate::count(crate::Ctr::probe_other_property);
    if r.status == 0 {
        r.status = 1;
    }
    crate::sys::exit_now(0)
}
/// Ends the run at once with a violation (used where unwinding is impossible or unsafe).
pub fn die(cls: &str, msg: &str) -> ! {
    if !ours(cls) {
        inconclusive();
    }
    violation(cls, msg);
    crate::sys::exit_now(71)
}
impl Report {
    pub fn cls(&self) -> String {
        String::from_utf8_lossy(&self.cls[..self.cls_len]).into_owned()
    }
    pub fn msg(&self) -> String {
        String::from_utf8_lossy(&self.msg[..self.msg_len]).into_owned()
    }
}
/// Event log: folded into one hash per run; the determinism check compares these.
#[inline]
pub fn ev(x: u64) {
    let r = report();
    r.ev = (r.ev ^ x).wrapping_mul(0x100000001b3).rotate_left(23);
}
pub fn ev_bytes(b: &[u8]) {
    for &x in b {
        ev(x as u64);
    }
}
/// Signature of the execution: operations, outcomes, faults and switches, without values.
#[inline]
pub fn sig(x: u64) {
    let r = report();
    r.sig = crate::rng::mix(r.sig ^ x).wrapping_add(0x51ed27);
}
