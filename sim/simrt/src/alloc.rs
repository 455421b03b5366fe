//! The allocator is a seam: every allocation of the code under test is a preemption point, is
//! filled with a recognisable pattern, has red zones, always moves when it grows, and is kept
//! poisoned after it was freed. Reading memory that was never written, or that is no longer owned,
//! therefore gives the same (wrong) answer in every run instead of a lucky one.
use crate::{sched, shm, sys};
use core::alloc::{GlobalAlloc, Layout};

pub struct SimAlloc;

#[repr(C)]
struct Hdr {
    magic: u64,
    size: usize,
    raw: *mut u8,
    sut: u64,
}
const LIVE: u64 = 0x51_4c_49_56_45_b1_0c_4b;
const DEAD: u64 = 0x51_44_45_41_44_b1_0c_4b;
const HDR: usize = 32;
const TAIL: usize = 16;
const FILL_CAP: usize = 256 << 10;
const LIVE_CAP: usize = 1 << 30;
const QN: usize = 256;
const QCAP: usize = 8 << 20;
static mut Q: [*mut u8; QN] = [core::ptr::null_mut(); QN];
static mut QI: usize = 0;
static mut QBYTES: usize = 0;
static mut SUT_LIVE: usize = 0;
static mut ENABLED: bool = false;
static mut REUSE: bool = false;

/// Memory that was just freed is the next to be handed out, at the same address.
pub fn reuse(b: bool) {
    unsafe { REUSE = b }
}
/// The block of that size that was freed last.
unsafe fn take_freed(l: &Layout) -> *mut u8 {
    for k in 0..QN {
        let i = (QI + QN - 1 - k) % QN;
        let p = Q[i];
        if !p.is_null() && (*hdr(p)).size == l.size() && p as usize & (l.align() - 1) == 0 {
            Q[i] = core::ptr::null_mut();
            QBYTES -= l.size();
            check_freed(p);
            return p;
        }
    }
    core::ptr::null_mut()
}

/// Turn the checks on (in a process that runs simulations, and only one thread at a time).
pub fn enable(b: bool) {
    unsafe { ENABLED = b }
}
pub fn sut_live() -> usize {
    unsafe { SUT_LIVE }
}

unsafe fn hdr(p: *mut u8) -> *mut Hdr {
    p.sub(HDR) as *mut Hdr
}

unsafe fn check_freed(p: *mut u8) {
    let n = (*hdr(p)).size.min(FILL_CAP);
    for i in 0..n {
        if *p.add(i) != 0xDD {
            shm::die("heap", "memory was written after it was freed");
        }
    }
}
unsafe fn real_free(p: *mut u8) {
    check_freed(p);
    sys::free((*hdr(p)).raw);
}

unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let sut = sched::in_sut();
        if sut {
            shm::report().allocs += 1;
            sched::hot();
            if SUT_LIVE + l.size() > LIVE_CAP {
                shm::die("memory", "the code under test holds more than 1 GiB");
            }
        }
        if sut && REUSE && ENABLED {
            let p = take_freed(&l);
            if !p.is_null() {
                crate::count(crate::Ctr::fault_address_reuse);
                (*hdr(p)).magic = LIVE;
                (*hdr(p)).sut = 1;
                SUT_LIVE += l.size();
                core::ptr::write_bytes(p, 0xA5, l.size().min(FILL_CAP));
                return p;
            }
        }
        let raw = sys::malloc(l.size() + HDR + TAIL + l.align().max(16));
        if raw.is_null() {
            return raw;
        }
        let mut a = raw as usize + HDR;
        a = (a + l.align() - 1) & !(l.align() - 1);
        let p = a as *mut u8;
        *hdr(p) = Hdr { magic: LIVE, size: l.size(), raw, sut: sut as u64 };
        if sut {
            SUT_LIVE += l.size();
            core::ptr::write_bytes(p, 0xA5, l.size().min(FILL_CAP));
        }
        core::ptr::write_bytes(p.add(l.size()), 0xFB, TAIL);
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let h = hdr(p);
        if (*h).magic != LIVE {
            if (*h).magic == DEAD {
                shm::die("heap", "memory was freed twice");
            }
            shm::die("heap", "memory was freed that was never allocated, or its header was overwritten");
        }
        if (*h).size != l.size() {
            shm::die("heap", "memory was freed with another size than it was allocated with");
        }
        for i in 0..TAIL {
            if *p.add(l.size() + i) != 0xFB {
                shm::die("heap", "memory was written past the end of its allocation");
            }
        }
        if (*h).sut != 0 {
            SUT_LIVE -= l.size();
        }
        if (*h).sut == 0 || !ENABLED {
            (*h).magic = DEAD;
            sys::free((*h).raw);
            return;
        }
        (*h).magic = DEAD;
        core::ptr::write_bytes(p, 0xDD, l.size().min(FILL_CAP));
        let old = Q[QI];
        if !old.is_null() {
            QBYTES -= (*hdr(old)).size;
            real_free(old);
        }
        Q[QI] = p;
        QBYTES += l.size();
        QI = (QI + 1) % QN;
        let mut i = QI;
        while QBYTES > QCAP {
            let o = Q[i];
            if !o.is_null() && o != p {
                QBYTES -= (*hdr(o)).size;
                Q[i] = core::ptr::null_mut();
                real_free(o);
            }
            i = (i + 1) % QN;
            if i == QI {
                break;
            }
        }
        if sched::in_sut() {
            sched::hot();
        }
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let p = self.alloc(l);
        if !p.is_null() {
            core::ptr::write_bytes(p, 0, l.size());
        }
        p
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let q = self.alloc(Layout::from_size_align_unchecked(n, l.align()));
        if !q.is_null() {
            core::ptr::copy_nonoverlapping(p, q, l.size().min(n));
            self.dealloc(p, l);
        }
        q
    }
}
