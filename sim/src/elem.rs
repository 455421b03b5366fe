//! Element types whose every birth, clone, comparison and death the simulator sees.
use crate::fw::*;
use std::cmp::Ordering;
use std::hash::{Hash, Hasher};

const ALIVE: u64 = 0xA11E_0000_5EED_C0DE;
const GONE: u64 = 0xDEAD_0000_5EED_C0DE;

/// State of each element ever created: 1 live, 2 dropped.
pub struct Ledger {
    pub st: Vec<u8>,
    pub live: i64,
    pub born: u64,
    pub zst_live: i64,
}
static LEDGER: Sim<Ledger> = Sim::new(Ledger { st: Vec::new(), live: 0, born: 0, zst_live: 0 });
pub fn ledger() -> &'static mut Ledger {
    LEDGER.get()
}

pub trait Elem: Clone + Eq + Ord + Hash + core::fmt::Debug + Send + Sync + 'static {
    const NAME: &'static str;
    /// Elements carry an identity (moves can be told from copies).
    const IDENT: bool;
    fn make(v: u32) -> Self;
    fn val(&self) -> u32;
    fn id(&self) -> u32;
    /// Changes the value through a mutable reference.
    fn set_val(&mut self, v: u32);
    fn norm(v: u32) -> u32 {
        v
    }
    /// VecOption::get_copy, where the type allows it.
    fn copy_get(_v: &mut trellis::vec_option::VecOption<Self>, _i: usize) -> Option<Option<u32>> {
        None
    }
    fn push_entry_copy(_rt: &mut trellis::ramp_table::RampTable<Self>, _v: &[Self]) -> bool {
        false
    }
    /// Number of live elements of this kind.
    fn live() -> i64;
}

pub struct Tok<const PAD: usize> {
    canary: u64,
    id: u32,
    v: u32,
    pad: [u64; PAD],
}
impl<const PAD: usize> Tok<PAD> {
    fn ok(&self, what: &str) {
        let l = ledger();
        // a destructor run on the wrong memory, or any other access to it
        let cls = if what == "a drop" { "ownership" } else { "dead" };
        if self.canary != ALIVE {
            fail(cls, format!("{} of memory that holds no element (canary {:x})", what, self.canary));
        }
        if self.id as usize >= l.st.len() || l.st[self.id as usize] != 1 {
            fail(cls, format!("{} of element #{} which is not alive", what, self.id));
        }
        for p in self.pad.iter() {
            if *p != ALIVE ^ self.id as u64 {
                fail(cls, format!("{} of element #{}: its bytes changed", what, self.id));
            }
        }
    }
    fn born(v: u32) -> Self {
        let l = ledger();
        let id = l.st.len() as u32;
        l.st.push(1);
        l.live += 1;
        l.born += 1;
        Tok { canary: ALIVE, id, v, pad: [ALIVE ^ id as u64; PAD] }
    }
}
impl<const PAD: usize> Elem for Tok<PAD> {
    const NAME: &'static str = "Tok";
    const IDENT: bool = true;
    fn make(v: u32) -> Self {
        outside(|| Self::born(v))
    }
    fn val(&self) -> u32 {
        outside(|| self.ok("a read"));
        self.v
    }
    fn id(&self) -> u32 {
        outside(|| self.ok("a read"));
        self.id
    }
    fn set_val(&mut self, v: u32) {
        outside(|| self.ok("a write"));
        self.v = v;
    }
    fn live() -> i64 {
        ledger().live
    }
}
impl<const PAD: usize> Clone for Tok<PAD> {
    fn clone(&self) -> Self {
        point(K::Clone);
        outside(|| {
            self.ok("a clone");
            Self::born(self.v)
        })
    }
}
impl<const PAD: usize> Drop for Tok<PAD> {
    fn drop(&mut self) {
        outside(|| {
            let l = ledger();
            if self.canary == GONE {
                fail("ownership", format!("element #{} was dropped twice", self.id));
            }
            self.ok("a drop");
            l.st[self.id as usize] = 2;
            l.live -= 1;
            unsafe { core::ptr::write_volatile(&mut self.canary, GONE) };
        });
        point(K::Drop);
    }
}
impl<const PAD: usize> PartialEq for Tok<PAD> {
    fn eq(&self, o: &Self) -> bool {
        point(K::Cmp);
        outside(|| {
            self.ok("a comparison");
            o.ok("a comparison");
        });
        self.v == o.v
    }
}
impl<const PAD: usize> Eq for Tok<PAD> {}
impl<const PAD: usize> PartialOrd for Tok<PAD> {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl<const PAD: usize> Ord for Tok<PAD> {
    fn cmp(&self, o: &Self) -> Ordering {
        point(K::Cmp);
        outside(|| {
            self.ok("a comparison");
            o.ok("a comparison");
        });
        self.v.cmp(&o.v)
    }
}
impl<const PAD: usize> Hash for Tok<PAD> {
    fn hash<H: Hasher>(&self, h: &mut H) {
        point(K::Hash);
        outside(|| self.ok("a hash"));
        self.v.hash(h)
    }
}
impl<const PAD: usize> core::fmt::Debug for Tok<PAD> {
    fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
        point(K::Fmt);
        outside(|| self.ok("formatting"));
        core::fmt::Debug::fmt(&self.v, f)
    }
}

/// A zero-sized element with a destructor.
pub struct Zst;
impl core::fmt::Debug for Zst {
    fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
        core::fmt::Debug::fmt(&0u32, f)
    }
}
impl Elem for Zst {
    const NAME: &'static str = "Zst";
    const IDENT: bool = false;
    fn make(_v: u32) -> Self {
        ledger().zst_live += 1;
        Zst
    }
    fn val(&self) -> u32 {
        0
    }
    fn id(&self) -> u32 {
        0
    }
    fn set_val(&mut self, _v: u32) {}
    fn norm(_v: u32) -> u32 {
        0
    }
    fn live() -> i64 {
        ledger().zst_live
    }
}
impl Clone for Zst {
    fn clone(&self) -> Self {
        point(K::Clone);
        outside(|| {
            ledger().zst_live += 1;
            Zst
        })
    }
}
impl Drop for Zst {
    fn drop(&mut self) {
        outside(|| {
            ledger().zst_live -= 1;
            if ledger().zst_live < 0 {
                fail("ownership", "more zero-sized elements were dropped than exist".into());
            }
        });
        point(K::Drop);
    }
}
impl PartialEq for Zst {
    fn eq(&self, _o: &Self) -> bool {
        point(K::Cmp);
        true
    }
}
impl Eq for Zst {}
impl PartialOrd for Zst {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Zst {
    fn cmp(&self, _o: &Self) -> Ordering {
        point(K::Cmp);
        Ordering::Equal
    }
}
impl Hash for Zst {
    fn hash<H: Hasher>(&self, h: &mut H) {
        point(K::Hash);
        h.write_u8(7)
    }
}

/// Values 0 and 1 can be compared with nothing, not even themselves.
#[derive(Clone, Copy, Debug)]
pub struct Part(pub u32);
impl PartialEq for Part {
    fn eq(&self, o: &Self) -> bool {
        point(K::Cmp);
        self.0 > 1 && self.0 == o.0
    }
}
impl PartialOrd for Part {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        point(K::Cmp);
        if self.0 < 2 || o.0 < 2 { None } else { Some(self.0.cmp(&o.0)) }
    }
}

/// A plain Copy element.
impl Elem for u16 {
    const NAME: &'static str = "u16";
    const IDENT: bool = false;
    fn make(v: u32) -> Self {
        v as u16
    }
    fn val(&self) -> u32 {
        *self as u32
    }
    fn id(&self) -> u32 {
        0
    }
    fn set_val(&mut self, v: u32) {
        *self = v as u16
    }
    fn norm(v: u32) -> u32 {
        v & 0xffff
    }
    fn copy_get(v: &mut trellis::vec_option::VecOption<Self>, i: usize) -> Option<Option<u32>> {
        Some(v.get_copy(i).map(|x| x as u32))
    }
    fn push_entry_copy(rt: &mut trellis::ramp_table::RampTable<Self>, v: &[Self]) -> bool {
        rt.push_entry_copy(v);
        true
    }
    fn live() -> i64 {
        0
    }
}

/// A text sink that can panic at any write, or refuse the `left`-th write and all that follow.
pub struct TextSink {
    pub out: String,
    left: usize,
    pub refused: bool,
}
impl TextSink {
    pub fn new(refuse_at: usize) -> Self {
        TextSink { out: String::new(), left: refuse_at, refused: false }
    }
}
impl core::fmt::Write for TextSink {
    fn write_str(&mut self, s: &str) -> core::fmt::Result {
        point(K::Sink);
        if self.left == 1 {
            if !self.refused {
                outside(|| count(Ctr::fault_sink_error));
            }
            self.refused = true;
            return Err(core::fmt::Error);
        }
        self.left = self.left.saturating_sub(1);
        outside(|| self.out.push_str(s));
        Ok(())
    }
}
