//! C05: RampTable against Vec<Vec<_>>, with interrupted insertions.
//! C06: the builders give a result that depends only on the per-key order of arrival.
use crate::check;
use crate::elem::*;
use crate::fw::*;
use std::collections::BTreeMap;
use trellis::ramp_table::{RampTable, RampTableBuilder};

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C05", own: &[],
            gen: gen5,
            run: run5,
            quick: 35_000,
            op_budget: 400_000_000,
            real: &["trellis::ramp_table::RampTable (all of it)", "std Vec"],
            stub: &["allocator: SimAlloc", "element types: instrumented", "value sources: interruptible iterators and panicking clones", "formatter sink: fails or panics on command", "caller threads: simulated schedule"],
        },
        Prop {
            id: "C06", own: &[],
            gen: gen6,
            run: run6,
            quick: 60_000,
            op_budget: 400_000_000,
            real: &["trellis::ramp_table::RampTableBuilder", "trellis::testing::{GraphBuilder, graph_from_paths}", "trellis::graph", "std HashMap"],
            stub: &["message delivery between producers and builder: simulated (delay, cross-key reordering, batching)", "hash seeds: getrandom is simulated", "allocator: SimAlloc", "caller threads: simulated schedule"],
        },
    ]
}

type Id = (u32, u32);
#[derive(Clone, Default, PartialEq)]
struct Model {
    keys: Vec<Vec<Id>>,
    pending: Vec<Id>,
}
impl Model {
    fn all(&self) -> Vec<Id> {
        self.keys.iter().flatten().chain(self.pending.iter()).copied().collect()
    }
    fn n(&self) -> usize {
        self.keys.iter().map(|k| k.len()).sum::<usize>() + self.pending.len()
    }
    fn show(&self) -> String {
        let v = |x: &Vec<Id>| format!("{:?}", x.iter().map(|y| y.1).collect::<Vec<_>>());
        let mut s = String::new();
        for (i, k) in self.keys.iter().enumerate().take(40) {
            s.push_str(&format!("{}:{} ", i, v(k)));
        }
        s.push_str(&format!("pending:{}", v(&self.pending)));
        s
    }
    fn same_values(&self, o: &Model) -> bool {
        let f = |x: &Vec<Id>| x.iter().map(|y| y.1).collect::<Vec<_>>();
        self.keys.len() == o.keys.len() && self.keys.iter().zip(&o.keys).all(|(a, b)| f(a) == f(b)) && f(&self.pending) == f(&o.pending)
    }
}

const OPS: &[&str] = &[
    "val", "key", "entry", "clonee", "copye", "exte", "clear", "iter", "itermut", "get", "getm", "index", "range", "all", "allm",
    "pairs", "manual", "clone", "eq", "debug", "new", "drop", "bulk", "gap",
];

fn gen5(r: &mut Rng, t: &Tier) -> Plan {
    let mut p = vec![];
    let tasks = *r.pick(&[1usize, 1, 1, 2, 3]);
    gen_env(r, &mut p, tasks);
    p.push(Line::new(-1, "elem", &[r.weighted(&[6, 2, 1, 3]) as i64]));
    if tasks > 1 {
        p.push(Line::new(-1, "sched", &[*r.pick(&[0i64, 30, 200, 1500]), *r.pick(&[0i64, 10, 60]), 300]));
    }
    let faulty = r.chance(1, 2);
    let mut w: Vec<u32> = OPS
        .iter()
        .map(|o| match *o {
            "val" => 14,
            "key" | "exte" | "clonee" | "entry" => 9,
            "clear" | "drop" | "new" | "bulk" | "gap" => 1,
            _ => 4,
        })
        .collect();
    for (i, x) in w.iter_mut().enumerate() {
        if r.chance(1, 4) && !matches!(OPS[i], "val" | "key") {
            *x = 0;
        }
    }
    for task in 0..tasks {
        let nops = if r.chance(1, 3) { r.range(1, 8) } else { r.range(5, 70) };
        for _ in 0..nops {
            let op = OPS[r.weighted(&w)];
            if faulty && r.chance(1, 3) {
                let k = match op {
                    "clonee" | "clone" => *r.pick(&[K::Clone, K::Clone, K::Drop]),
                    "exte" => K::Next,
                    "eq" => K::Cmp,
                    "debug" => *r.pick(&[K::Sink, K::Fmt]),
                    _ => K::Drop,
                };
                p.push(Line::new(task as i32, "inj", &[k as i64, if r.chance(1, 2) { r.range(1, 4) } else { r.range(1, 20) }]));
            }
            let s = r.range(0, 1);
            let idx = if r.chance(1, 10) { r.range(0, 300) } else { -1 - r.range(0, 999) };
            let n = if op == "bulk" {
                if r.chance(1, if t.thorough { 30 } else { 400 }) { 66_000 } else { r.range(100, 1100) }
            } else if op == "gap" {
                *r.pick(&[7i64, 8, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300])
            } else {
                if r.chance(1, 60) {
                    *r.pick(&[31i64, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025])
                } else {
                    size(r, 70) as i64 / 4
                }
            };
            if op != "bulk" && op != "gap" {
                gen_times(r, &mut p, task as i32, 5000);
            }
            p.push(Line::new(task as i32, op, &[s, idx, n, r.range(0, 999), r.range(0, 9)]));
        }
    }
    p
}

fn run5(plan: &Plan) {
    match plan.iter().find(|l| l.kw == "elem").map(|l| l.arg(0)).unwrap_or(0) {
        0 => drive::<W<Tok<0>>>(plan),
        1 => {
            count(Ctr::probe_padded);
            drive::<W<Tok<5>>>(plan)
        }
        2 => {
            count(Ctr::probe_zst);
            drive::<W<Zst>>(plan)
        }
        _ => {
            count(Ctr::probe_copy_elem);
            drive::<W<u16>>(plan)
        }
    }
}

struct Slot<E> {
    t: RampTable<E>,
    m: Model,
}
struct W<E: Elem> {
    single: bool,
    leak: Sim<i64>,
    drop_fault: Sim<bool>,
    _p: std::marker::PhantomData<fn() -> E>,
}
struct Local<E> {
    s: [Option<Slot<E>>; 2],
}
impl<E> Default for Local<E> {
    fn default() -> Self {
        Local { s: [None, None] }
    }
}

fn id<E: Elem>(e: &E) -> Id {
    (e.id(), e.val())
}
fn ids<E: Elem>(v: &[E]) -> Vec<Id> {
    v.iter().map(id).collect()
}
fn vals(seed: i64, n: usize) -> Vec<u32> {
    let mut r = Rng::new(seed as u64 ^ 0x72616d70);
    (0..n).map(|_| r.below(60) as u32).collect()
}

/// Everything visible, through every non-mutating view.
fn observe<E: Elem>(t: &RampTable<E>) -> Model {
    sut_ok("reading the table", || {
        let n = t.len();
        let mut keys: Vec<Vec<Id>> = vec![];
        let mut it = t.iter();
        if it.len() != n {
            fail("model", format!("iter().len() is {} with {} keys", it.len(), n));
        }
        while let Some(s) = it.next() {
            keys.push(ids(s));
            if keys.len() > n + 4 {
                break;
            }
        }
        if keys.len() != n {
            fail("model", format!("len() is {} but iter() yields {} keys", n, keys.len()));
        }
        let all = ids(t.all_values());
        let owned: usize = keys.iter().map(|k| k.len()).sum();
        if t.num_values() != all.len() || owned > all.len() {
            fail("model", format!("num_values {} all_values {} owned {}", t.num_values(), all.len(), owned));
        }
        #[allow(deprecated)]
        if t.num_keys() != n || t.is_empty() != (n == 0) {
            fail("model", format!("num_keys {} is_empty {} with {} keys", t.num_keys(), t.is_empty(), n));
        }
        let m = Model { pending: all[owned..].to_vec(), keys };
        if m.all() != all {
            fail("model", "all_values() is not the concatenation of the keys' values".into());
        }
        m
    })
    .unwrap_or_else(|| fail("panic", "reading the table".into()))
}

fn expect<E: Elem>(s: &Slot<E>, what: &str) {
    let got = observe(&s.t);
    check!(got == s.m, "model", "after {}: the table is {} but the history says {}", what, got.show(), s.m.show());
    note(got.keys.len() as u64);
    for k in &got.keys {
        note(k.len() as u64);
    }
    note(got.pending.len() as u64);
}

struct Src<E> {
    it: std::vec::IntoIter<E>,
    hint: i64,
}
impl<E: Elem> Iterator for Src<E> {
    type Item = E;
    fn next(&mut self) -> Option<E> {
        point(K::Next);
        self.it.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        match self.hint % 3 {
            0 => self.it.size_hint(),
            1 => (0, None),
            _ => {
                outside(|| count(Ctr::fault_lying_size_hint));
                (self.it.len() + 9, None)
            }
        }
    }
}

impl<E: Elem> W<E> {
    fn balance(&self, l: &Local<E>, what: &str) {
        if fired(K::Drop) {
            *self.drop_fault.get() = true;
        }
        if !self.single || !std::mem::needs_drop::<E>() {
            return;
        }
        let want: i64 = l.s.iter().flatten().map(|s| s.m.n() as i64).sum();
        let leak = E::live() - want;
        let old = *self.leak.get();
        check!(leak >= old && (fired(K::Drop) || leak == old), "ownership", "after {}: {} values are alive, the tables hold {} ({} leaked earlier)", what, E::live(), want, old);
        *self.leak.get() = leak;
    }
    fn drop_slot(&self, s: Slot<E>) {
        sut_ok("dropping the table", move || drop(s.t));
        if fired(K::Drop) {
            *self.drop_fault.get() = true;
        }
    }
    fn op(&self, mut s: Slot<E>, l: &mut Local<E>, line: &Line) -> Option<Slot<E>> {
        let kw = line.kw.as_str();
        let nk = s.m.keys.len();
        let n = line.u(2);
        let seed = line.arg(3);
        let x = line.u(4);
        // how iterators are driven
        let how = if seed % 2 == 0 { 0 } else { seed * 16 + x as i64 };
        let key = if line.arg(1) < 0 { if nk > 0 { ((-1 - line.arg(1)) as usize * 31) % nk } else { 0 } } else { line.u(1) };
        match kw {
            "val" => {
                let e = E::make(E::norm(seed as u32 % 60));
                let c = id(&e);
                sut_ok("push_value", || s.t.push_value(e));
                s.m.pending.push(c);
                count(Ctr::probe_pending);
            }
            "key" => {
                let k = sut_ok("finish_key", || s.t.finish_key()).unwrap();
                check!(k == nk, "model", "finish_key returned {} for key number {}", k, nk);
                let p = std::mem::take(&mut s.m.pending);
                s.m.keys.push(p);
            }
            "gap" => {
                // many keys without values, or with a value here and there
                let some = if x < 5 { 0 } else { seed.unsigned_abs() as usize % 40 + 1 };
                for i in 0..n {
                    if some != 0 && i % some == some - 1 {
                        let e = E::make(E::norm((i % 60) as u32));
                        s.m.pending.push(id(&e));
                        sut_ok("push_value", || s.t.push_value(e));
                    }
                    let nk = s.m.keys.len();
                    let k = sut_ok("finish_key", || s.t.finish_key()).unwrap();
                    check!(k == nk, "model", "finish_key returned {} for key number {}", k, nk);
                    let p = std::mem::take(&mut s.m.pending);
                    s.m.keys.push(p);
                }
            }
            "entry" | "exte" | "bulk" => {
                let src: Vec<E> = vals(seed, n).into_iter().map(|v| E::make(E::norm(v))).collect();
                let c = ids(&src);
                let hint = if kw == "exte" { x as i64 } else { 0 };
                let it = Src { it: src.into_iter(), hint };
                let r = sut_ok("push_entry_extend", || s.t.push_entry_extend(it));
                self.entry_done(&mut s, r.is_some(), c, false);
            }
            "clonee" | "copye" => {
                let src: Vec<E> = vals(seed, n).into_iter().map(|v| E::make(E::norm(v))).collect();
                let c = ids(&src);
                let r = if kw == "copye" {
                    match sut_ok("push_entry_copy", || E::push_entry_copy(&mut s.t, &src)) {
                        Some(false) => {
                            expect(&s, kw);
                            drop(src);
                            return Some(s);
                        }
                        r => r.map(|_| ()),
                    }
                } else {
                    sut_ok("push_entry_clone", || s.t.push_entry_clone(&src))
                };
                check!(ids(&src) == c, "model", "push_entry_clone changed its source");
                self.entry_done(&mut s, r.is_some(), c, E::IDENT);
                drop(src);
            }
            "clear" => {
                let r = sut_ok("clear", || s.t.clear());
                s.m = Model::default();
                expect(&s, if r.is_some() { "clear" } else { "an interrupted clear" });
            }
            "iter" => {
                // from both ends
                let got = sut_ok("iter", || {
                    let (mut f, mut b) = (vec![], vec![]);
                    let mut it = s.t.iter();
                    let mut bits = seed as u64 * 77 + x as u64;
                    let skips = x % 2 == 1;
                    let mut left = nk;
                    // where the rest begins
                    let mut lo = 0;
                    for _ in 0..=nk {
                        if it.len() != left {
                            fail("model", format!("iter().len() is {} with {} keys left", it.len(), left));
                        }
                        if f.len() + b.len() == n + 3 {
                            break;
                        }
                        let back = bits & 1 == 1;
                        let k = if skips && bits & 6 == 0 { (bits >> 8) as usize % 5 } else { 0 };
                        bits = simrt::rng::mix(bits);
                        let e = match (back, k) {
                            (true, 0) => it.next_back(),
                            (false, 0) => it.next(),
                            (true, k) => it.nth_back(k),
                            (false, k) => it.nth(k),
                        };
                        let took = (k + 1).min(left);
                        match e {
                            Some(v) if back => b.push((lo + left - took, ids(v))),
                            Some(v) => f.push((lo + took - 1, ids(v))),
                            None => {}
                        }
                        if e.is_some() != (left > k) {
                            fail("model", format!("iter passes over {} of {} keys and gives {}", k, left, if e.is_some() { "one" } else { "none" }));
                        }
                        left -= took;
                        if !back {
                            lo += took;
                        }
                    }
                    f.append(&mut b);
                    f
                });
                for (k, v) in got.into_iter().flatten() {
                    check!(v[..] == s.m.keys[k], "model", "iter of {} yields {:?} as entry {}", s.m.show(), v, k);
                }
            }
            "itermut" => {
                let limit = if x < 6 { 100_000 } else { x };
                let keys = &s.m.keys;
                let seen = sut_ok("iter_mut", || {
                    walk("iter_mut", s.t.iter_mut(), keys, limit, how, |v| {
                        let g = ids(v);
                        v.reverse();
                        for e in v.iter_mut() {
                            let k = e.val() + 1;
                            e.set_val(E::norm(k));
                        }
                        g
                    })
                });
                for k in seen.into_iter().flatten() {
                    let k = &mut s.m.keys[k];
                    k.reverse();
                    for c in k.iter_mut() {
                        c.1 = E::norm(c.1 + 1);
                    }
                }
            }
            "get" | "getm" | "index" | "range" => {
                let want = s.m.keys.get(key).cloned();
                let r: Result<Vec<Id>, Pan> = match kw {
                    "get" => sut(|| ids(s.t.entry_values(key))),
                    "index" if x % 2 == 0 => sut(|| ids(&s.t[key])),
                    "index" => sut(|| ids(&mut s.t[key])),
                    "range" => sut(|| {
                        let g = s.t.entry_values_range(key);
                        ids(&s.t.all_values()[g])
                    }),
                    _ => {
                        let r = sut(|| {
                            let v = s.t.entry_values_mut(key);
                            let old = ids(v);
                            v.reverse();
                            old
                        });
                        if r.is_ok() && key < nk {
                            s.m.keys[key].reverse();
                        }
                        r
                    }
                };
                match r {
                    Ok(g) => check!(Some(&g) == want.as_ref(), "model", "{} of key {} of {} gives {:?}", kw, key, s.m.show(), g),
                    Err(p) => {
                        check!(want.is_none(), "panic", "{} of key {} of {}: {}", kw, key, s.m.show(), p.text());
                        count(Ctr::fault_rejected_arg);
                    }
                }
            }
            "all" => {
                let g = sut_ok("all_values", || ids(s.t.all_values())).unwrap();
                check!(g == s.m.all(), "model", "all_values of {} gives {:?}", s.m.show(), g);
            }
            "allm" => {
                sut_ok("all_values_mut", || {
                    for e in s.t.all_values_mut() {
                        let k = e.val() + 1;
                        e.set_val(E::norm(k));
                    }
                });
                for c in s.m.keys.iter_mut().flatten().chain(s.m.pending.iter_mut()) {
                    c.1 = E::norm(c.1 + 1);
                }
            }
            "pairs" | "manual" => {
                let limit = if x < 6 { 1_000_000 } else { n };
                let want: Vec<(usize, Id)> = s.m.keys.iter().enumerate().flat_map(|(k, v)| v.iter().map(move |i| (k, *i))).collect();
                if kw == "pairs" {
                    sut_ok(kw, || walk("iter_pairs", s.t.iter_pairs(), &want, limit, how, |(k, e)| (k, id(e))));
                } else {
                    sut_ok(kw, || walk("iter_pairs_manual", s.t.iter_pairs_manual(), &want, limit, how, |(k, e)| (k, id(e))));
                }
            }
            "clone" => {
                let c = sut_ok("clone", || s.t.clone());
                expect(&s, "being cloned");
                if let Some(t) = c {
                    let m = observe(&t);
                    check!(m.same_values(&s.m), "model", "the clone of {} is {}", s.m.show(), m.show());
                    if E::IDENT {
                        let a: std::collections::BTreeSet<_> = s.m.all().into_iter().collect();
                        check!(m.all().iter().all(|i| !a.contains(i)), "ownership", "a clone shares a value");
                    }
                    let d = 1 - line.u(0) % 2;
                    if let Some(o) = l.s[d].take() {
                        self.drop_slot(o);
                    }
                    l.s[d] = Some(Slot { t, m });
                }
            }
            "eq" => {
                if let Some(o) = &l.s[1 - line.u(0) % 2] {
                    if let Some((a, b, c)) = sut_ok("comparison", || (s.t == o.t, s.t != o.t, o.t == s.t)) {
                        let want = s.m.same_values(&o.m);
                        check!(a == want && b != want && c == want, "model", "{} == {} gives {}", s.m.show(), o.m.show(), a);
                    }
                    expect(o, "a comparison");
                }
            }
            "debug" => {
                let mut k = TextSink::new(if x % 5 == 1 { 1 + x / 5 % 40 } else { 0 });
                let alt = x % 2 == 0;
                let r = sut_ok("formatting", || {
                    use core::fmt::Write;
                    if alt { write!(k, "{:#?}", s.t) } else { write!(k, "{:?}", s.t) }
                });
                let mut want: BTreeMap<usize, Vec<u32>> = BTreeMap::new();
                for (i, v) in s.m.keys.iter().enumerate() {
                    if !v.is_empty() {
                        want.insert(i, v.iter().map(|c| c.1).collect());
                    }
                }
                let want = if alt { format!("{:#?}", want) } else { format!("{:?}", want) };
                match r {
                    Some(r) if k.refused => check!(r.is_err() && want.starts_with(&k.out), "model", "formatting {} into a sink that refuses gives {:?} {:?}", s.m.show(), r, k.out),
                    Some(r) => check!(r.is_ok() && k.out == want, "model", "formatting {} gives {:?} {:?}", s.m.show(), r, k.out),
                    None => check!(want.starts_with(&k.out), "model", "interrupted formatting of {} wrote {:?}", s.m.show(), k.out),
                }
            }
            "drop" => {
                self.drop_slot(s);
                return None;
            }
            _ => {}
        }
        expect(&s, kw);
        Some(s)
    }

    fn entry_done(&self, s: &mut Slot<E>, ok: bool, c: Vec<Id>, cloned: bool) {
        let got = observe(&s.t);
        let base = s.m.pending.len();
        if ok {
            let mut p = std::mem::take(&mut s.m.pending);
            let before = s.m.clone();
            p.extend(c);
            s.m.keys.push(p);
            let good = if cloned { got.same_values(&s.m) } else { got == s.m };
            check!(good, "model", "after pushing an entry to {}: the table is {}, expected {}", before.show(), got.show(), s.m.show());
            s.m = got;
        } else {
            // interrupted: no key was made; what had already arrived waits, unowned
            count(Ctr::fault_truncated_iter);
            let k = got.pending.len().saturating_sub(base);
            let mut ok = got.keys == s.m.keys && got.pending.len() >= base && got.pending[..base] == s.m.pending[..] && k <= c.len();
            ok = ok && got.pending[base..].iter().zip(&c).all(|(a, b)| a.1 == b.1 && (cloned || a.0 == b.0));
            check!(ok, "model", "an interrupted entry turned {} into {}", s.m.show(), got.show());
            s.m = got;
        }
    }
}

impl<E: Elem> World for W<E> {
    type Local = Local<E>;
    fn new(plan: &Plan) -> Self {
        W { single: plan_tasks(plan) == 1, leak: Sim::new(0), drop_fault: Sim::new(false), _p: std::marker::PhantomData }
    }
    fn step(&self, l: &mut Local<E>, line: &Line, _task: usize) {
        let i = line.u(0) % 2;
        if line.kw == "new" || l.s[i].is_none() {
            if let Some(o) = l.s[i].take() {
                self.drop_slot(o);
            }
            let t = match line.u(4) % 3 {
                0 => sut_ok("new", RampTable::new),
                1 => sut_ok("default", RampTable::default),
                _ => sut_ok("with_capacity", || RampTable::with_capacity(line.u(2), line.u(3))),
            }
            .unwrap();
            let s = Slot { t, m: Model::default() };
            expect(&s, "construction");
            l.s[i] = Some(s);
        }
        if line.kw != "new" {
            let s = l.s[i].take().unwrap();
            l.s[i] = self.op(s, l, line);
        }
        self.balance(l, &line.kw);
    }
    fn end_task(&self, mut l: Local<E>, _task: usize) {
        for s in l.s.iter_mut() {
            if let Some(s) = s.take() {
                expect(&s, "the whole history");
                self.drop_slot(s);
            }
        }
    }
    fn finish(self) {
        if std::mem::needs_drop::<E>() && !*self.drop_fault.get() {
            check!(E::live() == 0, "ownership", "{} values are still alive after every table was dropped", E::live());
        }
    }
}

// ---- C06 --------------------------------------------------------------------------------------------
// Producers emit messages on per-key FIFO channels; the simulated network decides how the channels
// are interleaved at each builder. Every builder must end with the table that the per-key order
// alone determines.
fn gen6(r: &mut Rng, t: &Tier) -> Plan {
    let mut p = vec![];
    let tasks = r.range(1, 4) as usize;
    gen_env(r, &mut p, tasks);
    if tasks > 1 {
        p.push(Line::new(-1, "sched", &[*r.pick(&[0i64, 50, 500, 4000]), *r.pick(&[0i64, 10, 60]), 300]));
    }
    let kind = r.range(0, 2); // 0 ramp builder, 1 graph builder edges, 2 paths
    p.push(Line::new(-1, "kind", &[kind]));
    let span = *r.pick(&[1i64, 3, 8, 40, 300]);
    let span = if kind == 0 && r.chance(1, 40) { if r.chance(1, if t.thorough { 1 } else { 12 }) { 70_000 } else { 5000 } } else { span };
    let n = if r.chance(1, 30) { 600 } else { size(r, 130) };
    let many = r.chance(1, if t.thorough { 300 } else { 1000 });
    if many {
        // past the range of a 16-bit number
        let keys = if r.chance(1, 4) { r.range(1, 600) } else { r.range(1, 20) };
        p.push(Line::new(-1, "many", &[*r.pick(&[65_535i64, 65_536, 65_537, 70_000, 100_000]), keys, r.range(0, 1 << 40)]));
    }
    let mut hot = vec![];
    for _ in 0..3 {
        hot.push(r.range(0, span));
    }
    for _ in 0..n {
        let key = if r.chance(1, 3) { *r.pick(&hot) } else { r.range(0, span) };
        if kind == 2 {
            let len = r.range(0, 7) as usize;
            let mut a = vec![key];
            for _ in 0..len {
                a.push(r.range(0, span));
            }
            if r.chance(1, 15) {
                a.clear();
            }
            p.push(Line::new(-1, "msg", &a));
        } else {
            p.push(Line::new(-1, "msg", &[key, r.range(0, if kind == 1 { span } else { 9 })]));
        }
    }
    for task in 0..tasks {
        let builds = if many { 1 } else { r.range(1, 2) };
        for _ in 0..builds {
            if kind == 0 && r.chance(1, 4) {
                p.push(Line::new(task as i32, "inj", &[*r.pick(&[K::Next as i64, K::Drop as i64]), r.range(1, 30)]));
            }
            if kind == 0 && r.chance(1, 6) {
                p.push(Line::new(task as i32, "cancel", &[r.range(0, 1 << 30), r.range(0, 3), r.range(0, 60)]));
            }
            // delivery seed, batching, style
            p.push(Line::new(task as i32, "build", &[r.range(0, 1 << 30), r.range(0, 6), r.range(0, 3)]));
        }
    }
    p
}
fn run6(plan: &Plan) {
    drive::<B>(plan)
}

struct B {
    kind: i64,
    msgs: Vec<Vec<i64>>,
    first: Sim<Option<(Vec<u32>, Vec<u32>)>>,
}

struct Batch {
    it: std::vec::IntoIter<(u32, Tok<0>)>,
}
impl Iterator for Batch {
    type Item = (u32, Tok<0>);
    fn next(&mut self) -> Option<Self::Item> {
        point(K::Next);
        self.it.next()
    }
}

impl B {
    /// Per-key FIFO delivery in a seeded global order.
    fn delivery(&self, msgs: &[(i64, usize)], seed: u64) -> Vec<usize> {
        let mut r = Rng::new(seed ^ 0xde11);
        let mut q: BTreeMap<i64, std::collections::VecDeque<usize>> = BTreeMap::new();
        for (k, i) in msgs {
            q.entry(*k).or_default().push_back(*i);
        }
        let style = r.below(4);
        let mut out = vec![];
        while !q.is_empty() {
            let keys: Vec<i64> = q.keys().copied().collect();
            let k = match style {
                0 => keys[0],
                1 => keys[keys.len() - 1],
                2 => keys[r.usize(keys.len())],
                _ => keys[(r.usize(keys.len()) + r.usize(keys.len())) / 2],
            };
            let burst = 1 + r.usize(4);
            let d = q.get_mut(&k).unwrap();
            for _ in 0..burst {
                if let Some(i) = d.pop_front() {
                    out.push(i);
                }
            }
            if d.is_empty() {
                q.remove(&k);
            }
        }
        if out.windows(2).any(|w| w[0] > w[1]) {
            count(Ctr::fault_reorder);
        }
        out
    }

    fn ramp(&self, line: &Line, cancel: bool) {
        let msgs: Vec<(u32, u32)> = self.msgs.iter().map(|m| (m.first().copied().unwrap_or(0).clamp(0, 1 << 20) as u32, m.get(1).copied().unwrap_or(0) as u32)).collect();
        let keyed: Vec<(i64, usize)> = msgs.iter().enumerate().map(|(i, m)| (m.0 as i64, i)).collect();
        let order = self.delivery(&keyed, line.arg(0) as u64);
        let mut r = Rng::new(line.arg(0) as u64 ^ 0xba7c);
        let mut want: Vec<Vec<u32>> = vec![];
        let mut b: RampTableBuilder<Tok<0>> = if line.arg(2) == 0 {
            sut_ok("with_capacity", || RampTableBuilder::with_capacity(17)).unwrap()
        } else {
            sut_ok("new", RampTableBuilder::new).unwrap()
        };
        let put = |want: &mut Vec<Vec<u32>>, k: u32, id: u32| {
            while want.len() <= k as usize {
                want.push(vec![]);
            }
            want[k as usize].push(id);
        };
        let live0 = Tok::<0>::live();
        let single = simrt::sched::num_tasks() == 1;
        let mut i = 0;
        let mut interrupted = false;
        while i < order.len() {
            if cancel && i >= line.u(2) {
                break;
            }
            let n = if line.arg(1) == 0 { 1 } else { 1 + r.usize(line.u(1).min(40) * 3) };
            let chunk: Vec<(u32, Tok<0>)> = order[i..(i + n).min(order.len())].iter().map(|&j| (msgs[j].0, Tok::<0>::make(msgs[j].1))).collect();
            let ids: Vec<(u32, u32)> = chunk.iter().map(|(k, e)| (*k, e.id())).collect();
            if n == 1 {
                let (k, e) = chunk.into_iter().next().unwrap();
                sut_ok("push", || b.push(k, e));
                put(&mut want, ids[0].0, ids[0].1);
            } else {
                let src = Batch { it: chunk.into_iter() };
                let len = ids.len();
                match sut_ok("extend", || b.extend(src)) {
                    Some(()) => ids.iter().for_each(|x| put(&mut want, x.0, x.1)),
                    None => {
                        // a prefix of the batch arrived; which one shows in the number alive
                        interrupted = true;
                        if fired(K::Drop) || !single {
                            let _ = sut_ok("dropping the builder", move || drop(b));
                            return;
                        }
                        let held: usize = want.iter().map(|v| v.len()).sum();
                        let k = (Tok::<0>::live() - live0) as usize - held;
                        check!(k <= len, "ownership", "an interrupted batch of {} left {} values", len, k);
                        ids.iter().take(k).for_each(|x| put(&mut want, x.0, x.1));
                    }
                }
            }
            i += n;
        }
        if cancel {
            count(Ctr::fault_cancel_abandon);
            let _ = sut_ok("dropping the builder", move || drop(b));
            if single && !fired(K::Drop) {
                check!(Tok::<0>::live() == live0, "ownership", "an abandoned builder left {} values alive", Tok::<0>::live() - live0);
            }
            return;
        }
        let t = match sut_ok("finish", move || b.finish()) {
            Some(t) => t,
            None => return,
        };
        let got: Vec<Vec<u32>> = sut_ok("reading", || t.iter().map(|v| v.iter().map(|e| e.id()).collect()).collect()).unwrap();
        check!(got == want, "model", "the table is {:?}, the messages say {:?}", got, want);
        check!(t.num_values() == want.iter().map(|v| v.len()).sum::<usize>(), "model", "the table holds unowned values");
        if !interrupted {
            let vals: Vec<u32> = t.all_values().iter().map(|e| e.val()).collect();
            let lens: Vec<u32> = got.iter().map(|v| v.len() as u32).collect();
            self.same(lens, vals);
        }
        let _ = sut_ok("dropping the table", move || drop(t));
        if single && !fired(K::Drop) {
            check!(Tok::<0>::live() == live0, "ownership", "{} values are still alive", Tok::<0>::live() - live0);
        }
    }
    fn same(&self, lens: Vec<u32>, vals: Vec<u32>) {
        for x in lens.iter().chain(&vals) {
            note(*x as u64);
        }
        let f = self.first.get();
        match f {
            None => *f = Some((lens, vals)),
            Some(x) => check!(x.0 == lens && x.1 == vals, "model", "two builders given the same messages per key disagree: {:?} and {:?}", x, (lens, vals)),
        }
    }

    fn graph(&self, line: &Line) {
        use trellis::testing::*;
        // clamp vertices
        let v = |x: i64| x.clamp(0, 1 << 16) as u32;
        let mut adj: Vec<Vec<u32>> = vec![];
        let mut edge = |f: u32, t: u32| {
            let n = f.max(t) as usize + 1;
            while adj.len() < n {
                adj.push(vec![]);
            }
            adj[f as usize].push(t);
        };
        let g = if self.kind == 1 {
            let keyed: Vec<(i64, usize)> = self.msgs.iter().enumerate().map(|(i, m)| (v(m.first().copied().unwrap_or(0)) as i64, i)).collect();
            let order = self.delivery(&keyed, line.arg(0) as u64);
            let e = |i: usize| {
                let m = &self.msgs[i];
                (v(m.first().copied().unwrap_or(0)), v(m.get(1).copied().unwrap_or(0)))
            };
            let style = line.arg(2);
            for &i in &order {
                let (f, t) = e(i);
                edge(f, t);
            }
            sut_ok("building a graph", || {
                let mut b = graph_builder();
                let mut i = 0;
                while i < order.len() {
                    let (f, t) = e(order[i]);
                    match style {
                        0 => b.edge(f, t),
                        1 => b.path(&[f, t]),
                        _ => {
                            // chain edges that happen to continue one another
                            let mut x = b.from(f).to(t);
                            let mut last = t;
                            while i + 1 < order.len() && e(order[i + 1]).0 == last {
                                i += 1;
                                last = e(order[i]).1;
                                x = x.to(last);
                            }
                            let _ = x;
                        }
                    }
                    i += 1;
                }
                b.build()
            })
        } else {
            let paths: Vec<Vec<u32>> = self.msgs.iter().map(|m| m.iter().map(|x| v(*x)).collect()).collect();
            for p in &paths {
                for w in p.windows(2) {
                    edge(w[0], w[1]);
                }
            }
            let refs: Vec<&[u32]> = paths.iter().map(|p| p.as_slice()).collect();
            sut_ok("graph_from_paths", || graph_from_paths(&refs))
        };
        let g = g.unwrap();
        let got: Vec<Vec<u32>> = sut_ok("reading", || g.iter_from_edges().map(|(_, t)| t.to_vec()).collect()).unwrap();
        check!(got == adj, "model", "the graph is {:?}, the edges say {:?}", got, adj);
        check!(g.num_verts() == adj.len() && g.num_edges() == adj.iter().map(|a| a.len()).sum::<usize>(), "model", "{} vertices and {} edges", g.num_verts(), g.num_edges());
        self.same(got.iter().map(|v| v.len() as u32).collect(), got.concat());
    }
}

impl World for B {
    type Local = ();
    fn new(plan: &Plan) -> Self {
        let kind = plan.iter().find(|l| l.kw == "kind").map(|l| l.arg(0)).unwrap_or(0);
        let mut msgs: Vec<Vec<i64>> = plan.iter().filter(|l| l.t == -1 && l.kw == "msg").map(|l| l.a.clone()).collect();
        for l in plan.iter().filter(|l| l.t == -1 && l.kw == "many") {
            let mut r = Rng::new(l.arg(2) as u64);
            let keys = l.u(1).clamp(1, 1000);
            msgs.extend((0..l.u(0).min(100_000)).map(|_| vec![r.usize(keys) as i64, r.usize(9) as i64]));
            count(Ctr::probe_big);
        }
        if msgs.is_empty() {
            count(Ctr::probe_empty);
        }
        B { kind, msgs, first: Sim::new(None) }
    }
    fn step(&self, _l: &mut (), line: &Line, _task: usize) {
        match (self.kind, line.kw.as_str()) {
            (0, "build") => self.ramp(line, false),
            (0, "cancel") => self.ramp(line, true),
            (_, "build") => self.graph(line),
            _ => {}
        }
    }
}
