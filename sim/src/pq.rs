//! C07: the priority queue over arbitrary histories, with comparisons that panic.
use crate::check;
use crate::elem::*;
use crate::fw::*;
use std::collections::BTreeMap;
use trellis::priority_queue::PQ;

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C07", own: &[],
        gen,
        run,
        quick: 90_000,
        op_budget: 400_000_000,
        real: &["trellis::priority_queue (all of it)", "std Vec"],
        stub: &["allocator: SimAlloc", "element type: instrumented; its comparison can panic at any call", "caller threads: simulated schedule"],
    }]
}

fn gen(r: &mut Rng, t: &Tier) -> Plan {
    let mut p = vec![];
    let tasks = *r.pick(&[1usize, 1, 2, 3]);
    gen_env(r, &mut p, tasks);
    p.push(Line::new(-1, "elem", &[r.weighted(&[5, 2, 2, 1]) as i64]));
    if tasks > 1 {
        p.push(Line::new(-1, "sched", &[*r.pick(&[0i64, 50, 400, 3000]), *r.pick(&[0i64, 10, 60]), 300]));
    }
    let faulty = r.chance(2, 5);
    let vrange = *r.pick(&[1i64, 3, 10, 1000, 60_000]);
    for task in 0..tasks {
        let nops = if r.chance(1, 25) { r.range(150, if t.thorough { 900 } else { 300 }) } else { r.range(1, 60) };
        let up = r.range(3, 9) as u64;
        let mut v = r.range(0, vrange);
        let trend = r.range(0, 3);
        for _ in 0..nops {
            if faulty && r.chance(1, 6) {
                let k = *r.pick(&[K::Cmp, K::Cmp, K::Cmp, K::Drop, K::Drop, K::Fmt, K::Sink]);
                p.push(Line::new(task as i32, "inj", &[k as i64, r.range(1, 6)]));
            }
            if r.chance(1, if nops < 20 { 600 } else { 8000 }) {
                // the queue re-checks all of itself after every operation: no larger than this
                let n = match r.usize(40) {
                    0 => *r.pick(&[2048i64, 2049, 4095, 4096, 4097]),
                    1..=8 => *r.pick(&[511i64, 512, 513, 1023, 1024, 1025]),
                    _ => *r.pick(&[100i64, 127, 128, 129, 255, 256, 257]),
                };
                p.push(Line::new(task as i32, "fill", &[n, r.range(0, 4), r.below(1 << 30) as i64]));
            }
            v = match trend {
                0 => v + 1,
                1 => v - 1,
                _ => r.range(0, vrange),
            };
            let op = if r.chance(up, 10) {
                "insert"
            } else {
                *["remove", "remove", "remove", "remove", "remove", "remove", "drainall", "clear", "new", "take", "show"].get(r.usize(11)).unwrap()
            };
            p.push(Line::new(task as i32, op, &[v.max(0), if op == "take" && r.chance(1, 8) { r.range(20, 300) } else { r.range(0, 20) }]));
        }
    }
    p
}

fn run(plan: &Plan) {
    match plan.iter().find(|l| l.kw == "elem").map(|l| l.arg(0)).unwrap_or(0) {
        0 => drive::<W<Tok<0>>>(plan),
        1 => drive::<W<Tok<5>>>(plan),
        2 => drive::<W<u16>>(plan),
        _ => drive::<W<Zst>>(plan),
    }
}

struct W<E> {
    single: bool,
    drop_fault: Sim<bool>,
    leak: Sim<i64>,
    _p: std::marker::PhantomData<fn() -> E>,
}
/// A bag of elements: (value, identity) and how many of each.
#[derive(Default)]
struct Model {
    m: BTreeMap<(u32, u32), u32>,
}
impl Model {
    fn push(&mut self, c: (u32, u32)) {
        *self.m.entry((c.1, c.0)).or_insert(0) += 1;
    }
    fn is_empty(&self) -> bool {
        self.m.is_empty()
    }
    fn clear(&mut self) {
        self.m.clear()
    }
    fn max(&self) -> Option<u32> {
        self.m.keys().next_back().map(|x| x.0)
    }
    fn take(&mut self, c: (u32, u32)) -> bool {
        match self.m.get_mut(&(c.1, c.0)) {
            None => false,
            Some(n) => {
                *n -= 1;
                if *n == 0 {
                    self.m.remove(&(c.1, c.0));
                }
                true
            }
        }
    }
}
impl std::fmt::Debug for Model {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        f.write_str("[")?;
        for (i, ((v, id), n)) in self.m.iter().enumerate() {
            if i == 40 {
                return write!(f, "... ({} different ones)]", self.m.len());
            }
            write!(f, "{}#{}={}", if i > 0 { ", " } else { "" }, id, v)?;
            if *n > 1 {
                write!(f, " x{}", n)?;
            }
        }
        f.write_str("]")
    }
}
struct Local<E: Elem> {
    q: Option<PQ<E>>,
    m: Model,
    /// A comparison panicked since the queue was last empty or cleared: its order is unspecified,
    /// but it still owns its elements. `held` counts them (exactly, single-task runs only).
    broken: bool,
    held: i64,
}
impl<E: Elem> Default for Local<E> {
    fn default() -> Self {
        Local { q: None, m: Model::default(), broken: false, held: 0 }
    }
}

impl<E: Elem> W<E> {
    fn insert(&self, l: &mut Local<E>, v: u32) {
        let e = E::make(E::norm(v));
        let c = (e.id(), e.val());
        let q = l.q.as_mut().unwrap();
        match sut(|| q.insert(e)) {
            Ok(()) => {
                l.m.push(c);
                l.held += 1;
            }
            Err(Pan::Injected(_)) => self.broke(l, 1, "insert"),
            Err(Pan::Real(m)) => {
                check!(l.broken, "panic", "insert({}) into {:?} panicked: {}", v, l.m, m);
                self.broke(l, 1, "insert");
            }
        }
    }
    /// A panic came out of an operation that had `extra` more elements in its hands than before.
    fn broke(&self, l: &mut Local<E>, extra: i64, what: &str) {
        l.broken = true;
        l.m.clear();
        if self.single && std::mem::needs_drop::<E>() && !*self.drop_fault.get() && !fired(K::Drop) {
            let live = E::live() - *self.leak.get();
            let (lo, hi) = if extra > 0 { (l.held, l.held + extra) } else { (l.held + extra, l.held) };
            check!(live >= lo && live <= hi, "ownership", "an interrupted {} left {} of {} elements alive", what, live, l.held);
            l.held = live;
        }
    }
    fn remove(&self, l: &mut Local<E>) -> bool {
        let q = l.q.as_mut().unwrap();
        match sut(|| q.remove()) {
            Ok(None) => {
                check!(l.broken || l.m.is_empty(), "model", "remove from {:?} returned nothing", l.m);
                if l.broken {
                    self.emptied(l, "remove returned nothing");
                }
                false
            }
            Ok(Some(e)) => {
                let c = (e.id(), e.val());
                note(c.1 as u64);
                if !l.broken {
                    check!(l.m.max() == Some(c.1), "model", "remove returned {} from {:?}, where {:?} is the greatest", c.1, l.m, l.m.max());
                    if !l.m.take(c) {
                        fail("ownership", format!("remove returned {:?}, which is not in {:?}", c, l.m));
                    }
                }
                l.held -= 1;
                let _ = sut_ok("dropping an element", move || drop(e));
                true
            }
            Err(Pan::Injected(_)) => {
                self.broke(l, -1, "remove");
                true
            }
            Err(Pan::Real(m)) => {
                check!(l.broken, "panic", "remove from {:?} panicked: {}", l.m, m);
                self.broke(l, -1, "remove");
                true
            }
        }
    }
    /// Formats the queue: every element it holds is in the text, once each, in some order.
    fn show(&self, l: &mut Local<E>, x: usize) {
        let q = l.q.as_ref().unwrap();
        let mut k = TextSink::new(if x % 3 == 1 { 1 + x } else { 0 });
        let r = sut_ok("formatting", || {
            use core::fmt::Write;
            if x % 2 == 0 { write!(k, "{:?}", q) } else { write!(k, "{:#?}", q) }
        });
        let mut got: Vec<u32> = k.out.split(|c: char| !c.is_ascii_digit()).filter_map(|w| w.parse().ok()).collect();
        got.sort_unstable();
        match r {
            Some(r) if k.refused => check!(r.is_err(), "model", "formatting {:?} into a sink that refuses gives {:?}", l.m, r),
            Some(r) => {
                check!(r.is_ok(), "model", "formatting {:?} gives {:?}", l.m, r);
                if !l.broken {
                    let want: Vec<u32> = l.m.m.iter().flat_map(|((v, _), n)| std::iter::repeat(*v).take(*n as usize)).collect();
                    check!(got == want, "model", "formatting {:?} gives {:?}", l.m, k.out);
                }
            }
            None => {}
        }
    }
    fn emptied(&self, l: &mut Local<E>, what: &str) {
        if self.single && std::mem::needs_drop::<E>() && !*self.drop_fault.get() && !fired(K::Drop) {
            check!(E::live() == *self.leak.get(), "ownership", "{}: {} elements are still alive", what, E::live());
        }
        if l.broken {
            count(Ctr::probe_retry_after_fault);
        }
        l.broken = false;
        l.held = 0;
        l.m.clear();
    }
    fn dispose(&self, l: &mut Local<E>) {
        if let Some(q) = l.q.take() {
            let _ = sut_ok("dropping the queue", move || drop(q));
            self.after_drop_fault();
            self.emptied(l, "dropping the queue");
        }
    }
    fn after_drop_fault(&self) {
        if fired(K::Drop) {
            *self.drop_fault.get() = true;
        }
    }
}

impl<E: Elem> World for W<E> {
    type Local = Local<E>;
    fn new(plan: &Plan) -> Self {
        W { single: plan_tasks(plan) == 1, drop_fault: Sim::new(false), leak: Sim::new(0), _p: std::marker::PhantomData }
    }
    fn step(&self, l: &mut Local<E>, line: &Line, _task: usize) {
        if l.q.is_none() || line.kw == "new" {
            self.dispose(l);
            let cap = line.u(1);
            l.q = Some(if cap % 2 == 0 { sut_ok("new", PQ::new) } else { sut_ok("with_capacity", || PQ::with_capacity(cap)) }.unwrap());
        }
        match line.kw.as_str() {
            "insert" => self.insert(l, line.u(0) as u32),
            "remove" => {
                self.remove(l);
            }
            "fill" => {
                let (n, mode) = (line.u(0).min(6000), line.arg(1));
                let mut r = Rng::new(line.arg(2) as u64);
                for i in 0..n {
                    let v = match mode {
                        0 => i as u32,
                        1 => (n - i) as u32,
                        2 => 7,
                        3 => r.usize(4) as u32,
                        _ => r.usize(60_000) as u32,
                    };
                    self.insert(l, v);
                }
            }
            "take" => {
                for _ in 0..line.u(1) {
                    if !self.remove(l) {
                        break;
                    }
                }
            }
            "drainall" => {
                let mut n = 0;
                while self.remove(l) {
                    n += 1;
                    if n > 200_000 {
                        fail("model", "the queue never becomes empty".into());
                    }
                }
                check!(l.m.is_empty(), "model", "the queue is empty but {:?} was never returned", l.m);
            }
            "show" => self.show(l, line.u(1)),
            "clear" => {
                let q = l.q.as_mut().unwrap();
                let _ = sut_ok("clear", || q.clear());
                self.after_drop_fault();
                self.emptied(l, "clear");
                let q = l.q.as_mut().unwrap();
                if let Some(Some(e)) = sut_ok("remove", || q.remove()) {
                    fail("model", format!("a cleared queue returned {}", e.val()));
                }
            }
            _ => {}
        }
        self.after_drop_fault();
        if self.single && std::mem::needs_drop::<E>() && !*self.drop_fault.get() {
            check!(E::live() == l.held + *self.leak.get(), "ownership", "after {}: {} elements are alive, the queue holds {}", line.kw, E::live(), l.held);
        }
    }
    fn end_task(&self, mut l: Local<E>, _t: usize) {
        if !l.broken && l.q.is_some() {
            let mut n = 0;
            while self.remove(&mut l) {
                n += 1;
                if n > 200_000 {
                    fail("model", "the queue never becomes empty".into());
                }
            }
            check!(l.m.is_empty(), "model", "the queue is empty but {:?} was never returned", l.m);
        }
        self.dispose(&mut l);
    }
    fn finish(self) {
        if std::mem::needs_drop::<E>() && !*self.drop_fault.get() {
            check!(E::live() == 0, "ownership", "{} elements are still alive at the end", E::live());
        }
    }
}
