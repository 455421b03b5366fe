//! C01..C04: VecOption against Vec<Option<_>>, under arbitrary histories, abandoned and leaked
//! iterators, panicking element callbacks, and interleaved readers.
use crate::check;
use crate::elem::*;
use crate::fw::*;
use std::hash::{BuildHasher, Hash, Hasher};
use std::ops::Bound;
use trellis::vec_option::VecOption;

type Cell = Option<(u32, u32)>; // (identity, value)
type Model = Vec<Cell>;

pub fn props() -> Vec<Prop> {
    const REAL: &[&str] = &["trellis::vec_option (all of it)", "bit_vec", "std Vec/alloc collections"];
    const STUB: &[&str] = &[
        "allocator: SimAlloc (poison, red zones, always-moving growth) over the real heap",
        "element types: instrumented (identity, canary, ledger, injected panics)",
        "caller threads: real threads, scheduled by the simulator",
    ];
    vec![
        Prop { id: "C01", own: &["model", "panic", "dead", "heap", "crash", "hang", "deadlock", "memory"], gen: |r, t| gen(r, t, 1), run, quick: 110_000, op_budget: 400_000_000, real: REAL, stub: STUB },
        Prop { id: "C02", own: &["ownership", "dead", "heap", "crash"], gen: |r, t| gen(r, t, 2), run, quick: 110_000, op_budget: 400_000_000, real: REAL, stub: STUB },
        Prop { id: "C03", own: &["model:drain", "model:intoiter", "model:intosome", "model@drained", "panic:drain", "panic:intoiter", "panic:intosome", "panic@drained", "ownership:drain", "ownership:intoiter", "ownership:intosome", "ownership@drained", "dead", "heap", "crash", "hang"], gen: |r, t| gen(r, t, 3), run, quick: 110_000, op_budget: 400_000_000, real: REAL, stub: STUB },
        Prop { id: "C04", own: &["model:clone", "model:eq", "model:cmp", "model:hash", "model:sclone", "model:seq", "model:shash", "model:pcmp", "panic:pcmp", "model@copied", "panic:clone", "panic:eq", "panic:cmp", "panic:hash", "panic:sclone", "panic:seq", "panic:shash", "panic@copied", "ownership:clone", "ownership:sclone", "dead", "heap", "crash", "hang"], gen: |r, t| gen(r, t, 4), run, quick: 50_000, op_budget: 400_000_000, real: REAL, stub: STUB },
    ]
}

// ---- generation -----------------------------------------------------------------------------------
const OPS: &[&str] = &[
    "push", "pushs", "pushn", "pop", "pops", "get", "replace", "replaces", "replacen", "set", "sets", "setn", "swap",
    "extend", "drain", "compact", "intovec", "intoiter", "intosome", "iter", "itermut", "isome", "isomem", "runs",
    "runsm", "clone", "eq", "cmp", "hash", "reserve", "drop", "new", "fill",
];
fn weights(mode: u32) -> Vec<u32> {
    OPS.iter()
        .map(|o| match (mode, *o) {
            (3, "drain") => 40,
            (3, "push" | "extend" | "fill") => 8,
            (3, "new" | "runs" | "isome") => 4,
            (3, "drop") => 1,
            (3, _) => 1,
            (4, "clone" | "eq" | "cmp" | "hash") => 14,
            (4, "push" | "pop" | "set" | "drain" | "extend" | "new" | "compact" | "intovec") => 4,
            (4, _) => 1,
            (2, "clone" | "drain" | "intoiter" | "intosome" | "drop" | "set" | "extend" | "new" | "fill" | "intovec") => 8,
            (2, "replace" | "swap" | "pops" | "compact" | "setn" | "sets" | "push") => 4,
            (_, "push" | "pushs" | "pushn" | "extend") => 8,
            (_, "drop" | "clone" | "new") => 2,
            _ => 4,
        })
        .collect()
}

fn gen(r: &mut Rng, t: &Tier, mode: u32) -> Plan {
    let mut p = vec![];
    let tasks = if mode == 4 { r.range(1, 4) as usize } else { *r.pick(&[1usize, 1, 1, 2, 3]) };
    gen_env(r, &mut p, tasks);
    let elem = r.weighted(&[6, 3, 2, 2]) as i64;
    p.push(Line::new(-1, "elem", &[elem]));
    if tasks > 1 {
        let gap = *r.pick(&[0i64, 30, 200, 1500, 8000]);
        p.push(Line::new(-1, "sched", &[gap, *r.pick(&[0i64, 10, 60]), 400]));
    }
    let cap = if r.chance(1, if t.thorough { 40 } else { 1200 }) { 70_000 } else if r.chance(1, 400) { 6000 } else if r.chance(1, 60) { 2000 } else { 300 };
    let big = |r: &mut Rng| -> i64 {
        if cap > 300 && r.chance(1, 2) { r.range(900, cap as i64) } else { size(r, 300) as i64 }
    };
    let nshared = if mode == 4 || r.chance(1, 6) { r.range(1, 3) } else { 0 };
    for k in 0..nshared {
        // pairs of equal shared vectors with different histories
        let n = size(r, 130) as i64;
        p.push(Line::new(-1, "shared", &[n, r.range(0, 3), r.range(0, 5), r.range(0, 100), r.range(0, 3), k]));
    }
    let faulty = mode == 2 || (mode == 1 && r.chance(1, 3)) || (mode == 3 && r.chance(1, 2)) || (mode == 4 && r.chance(1, 3));
    let mut w = weights(mode);
    // swarm: drop a random subset of the operations
    for (i, x) in w.iter_mut().enumerate() {
        if r.chance(1, 4) && !matches!(OPS[i], "new" | "push" | "extend") {
            *x = 0;
        }
    }
    for task in 0..tasks {
        let nops = if r.chance(1, 3) { r.range(1, 8) } else { r.range(5, 60) } as usize;
        let nslots = r.range(1, 3);
        for s in 0..nslots {
            if r.chance(3, 4) {
                p.push(Line::new(task as i32, "new", &[s, r.range(0, 5), big(r), r.range(0, 999), r.range(0, 6)]));
            }
        }
        for _ in 0..nops {
            if mode == 4 && r.chance(1, 12) {
                if faulty && r.chance(1, 3) {
                    p.push(Line::new(task as i32, "inj", &[K::Cmp as i64, r.range(1, 9)]));
                }
                p.push(Line::new(task as i32, "pcmp", &[size(r, 90) as i64, r.range(0, 999), r.range(0, 4), r.range(0, 999), r.range(0, 3)]));
                continue;
            }
            if nshared > 0 && r.chance(if mode == 4 { 6 } else { 1 }, 10) {
                let k = r.usize(4);
                p.push(Line::new(
                    task as i32,
                    ["sclone", "seq", "shash", "siter"][k],
                    &[r.range(0, nshared - 1), r.range(0, nshared - 1), r.range(0, 40)],
                ));
                continue;
            }
            let op = OPS[r.weighted(&w)];
            if faulty && r.chance(2, 5) {
                let k = match op {
                    "clone" | "fill" => *r.pick(&[K::Clone, K::Clone, K::Drop]),
                    "eq" | "cmp" => K::Cmp,
                    "hash" => K::Hash,
                    "extend" | "new" => *r.pick(&[K::Next, K::Next, K::Drop]),
                    "get" => K::Clone,
                    _ => K::Drop,
                };
                let at = if r.chance(1, 2) { r.range(1, 4) } else { r.range(1, 40) };
                p.push(Line::new(task as i32, "inj", &[k as i64, at]));
            }
            let s = r.range(0, nslots - 1);
            let v = r.range(0, 12);
            let idx = |r: &mut Rng| if r.chance(1, 12) { r.range(0, 400) } else { -1 - r.range(0, 1000) };
            let a: Vec<i64> = match op {
                "push" | "replace" | "set" => vec![s, v, r.range(0, 2), idx(r)],
                "pushs" | "replaces" | "sets" => vec![s, v, 1, idx(r)],
                "pushn" | "pop" | "pops" | "replacen" | "setn" | "compact" | "intovec" | "drop" => vec![s, v, 0, idx(r)],
                "get" => vec![s, r.range(0, 3), v, idx(r)],
                "swap" => vec![s, idx(r), idx(r)],
                "extend" => vec![s, if r.chance(1, 8) { big(r) } else { r.range(0, 20) }, r.range(0, 999), r.range(0, 4), r.range(0, 3)],
                "drain" => vec![s, r.range(0, 1000), r.range(0, 1000), r.range(0, 12), r.weighted(&[6, 3, 3]) as i64, r.range(0, 11), r.range(0, 3), if r.chance(1, 4) { r.range(1, 9) } else { 0 }],
                "intoiter" | "intosome" => vec![s, r.range(0, 12), r.weighted(&[5, 2, 3, 1, 1, 1]) as i64, if r.chance(1, 3) { r.range(1, 9) } else { 0 }],
                "iter" | "itermut" | "isome" | "isomem" | "runs" | "runsm" => vec![s, if r.chance(1, 2) { 100_000 } else { r.range(0, 10) }, v, if r.chance(1, 2) { r.range(1, 1 << 20) } else { 0 }],
                "clone" | "eq" | "cmp" | "hash" => vec![s, r.range(0, nslots - 1), r.range(0, 2)],
                "reserve" => vec![s, r.range(0, 300)],
                "new" => vec![s, r.range(0, 5), big(r), r.range(0, 999), r.range(0, 6)],
                _ => vec![s, r.range(0, 400), v, r.range(0, 3)],
            };
            gen_times(r, &mut p, task as i32, 5000);
            p.push(Line::new(task as i32, op, &a));
        }
    }
    p
}

/// The values a seeded bulk operation pushes.
fn pattern(seed: i64, n: usize, density: i64) -> Vec<Option<u32>> {
    let mut r = Rng::new(seed as u64 ^ 0x7061);
    let mut out = Vec::with_capacity(n);
    let mut run = r.chance(1, 2);
    let mut change = 0;
    for i in 0..n {
        let some = match density {
            5 => {
                // long runs that begin and end at, or next to, the edges of machine words
                if i == change {
                    run = !run;
                    let at = i + if run && r.chance(2, 3) { 0 } else { *r.pick(&[1usize, 32, 32, 64, 64, 96, 128]) };
                    change = (if r.chance(3, 4) { (at / 32 + 1) * 32 } else { at + 1 } + if r.chance(1, 2) { 0 } else { r.usize(3) }).saturating_sub(if r.chance(3, 4) { 0 } else { 1 }).max(i + 1);
                    if run && r.chance(1, 2) {
                        change = i + 1;
                    }
                }
                run
            }
            6 => r.chance(1, 60),
            0 => true,
            1 => false,
            2 => r.chance(1, 2),
            3 => r.chance(1, 9),
            _ => {
                if r.chance(1, 7) {
                    run = !run;
                }
                run
            }
        };
        out.push(if some { Some(r.below(50) as u32) } else { None });
    }
    out
}

// ---- the world ------------------------------------------------------------------------------------
fn run(plan: &Plan) {
    let k = plan.iter().find(|l| l.kw == "elem").map(|l| l.arg(0)).unwrap_or(0);
    match k {
        0 => drive::<W<Tok<0>>>(plan),
        1 => {
            count(Ctr::probe_padded);
            drive::<W<Tok<5>>>(plan)
        }
        2 => {
            count(Ctr::probe_zst);
            drive::<W<Zst>>(plan)
        }
        _ => {
            count(Ctr::probe_copy_elem);
            drive::<W<u16>>(plan)
        }
    }
}

struct Slot<E> {
    v: VecOption<E>,
    m: Model,
    /// Has been drained (1); is a copy or has been copied (2).
    tag: u8,
}
impl<E> Slot<E> {
    fn new(v: VecOption<E>, m: Model) -> Slot<E> {
        Slot { v, m, tag: 0 }
    }
    fn mark(&self) {
        let mut t = vec![];
        if self.tag & 1 != 0 {
            t.push("drained");
        }
        if self.tag & 2 != 0 {
            t.push("copied");
        }
        set_tags(t);
    }
}
struct W<E: Elem> {
    shared: Vec<Slot<E>>,
    single: bool,
    leak: Sim<i64>,
    slack: Sim<i64>,
    drop_fault: Sim<bool>,
}
struct Local<E> {
    s: Vec<Option<Slot<E>>>,
}
impl<E> Default for Local<E> {
    fn default() -> Self {
        Local { s: (0..4).map(|_| None).collect() }
    }
}

fn cell<E: Elem>(e: Option<&E>) -> Cell {
    e.map(|x| (x.id(), x.val()))
}
/// Everything visible, through the plain iterator.
fn observe<E: Elem>(v: &VecOption<E>) -> Model {
    let len = v.len();
    if let Some(m) = sut_ok("iter", || {
        let mut m = Vec::new();
        for x in v.iter() {
            m.push(cell(x));
            if m.len() > len + 8 {
                break;
            }
        }
        m
    }) {
        check!(m.len() == len, "model", "len() is {} but iter() yields {} items", len, m.len());
        check!(v.is_empty() == (len == 0), "model", "is_empty() is {} at length {}", v.is_empty(), len);
        m
    } else {
        fail("panic", "iter".into())
    }
}
fn somes(m: &[Cell]) -> i64 {
    m.iter().filter(|c| c.is_some()).count() as i64
}
fn show(m: &[Cell]) -> String {
    let mut s = String::from("[");
    for (i, c) in m.iter().enumerate() {
        if i > 0 {
            s.push(' ');
        }
        if i > 60 {
            s.push_str("...");
            break;
        }
        match c {
            Some((id, v)) => s.push_str(&format!("#{}={}", id, v)),
            None => s.push('-'),
        }
    }
    s.push(']');
    s
}
fn same_values(a: &[Cell], b: &[Cell]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.map(|c| c.1) == y.map(|c| c.1))
}

fn expect<E: Elem>(s: &Slot<E>, what: &str) {
    s.mark();
    let got = observe(&s.v);
    check!(got == s.m, "model", "after {}: the collection is {} but the history says {}", what, show(&got), show(&s.m));
    note(got.len() as u64);
}
fn note_model(m: &[Cell]) {
    for c in m {
        note(c.map(|x| x.1 as u64 + 2).unwrap_or(1));
    }
}

/// Index argument: negative = a valid position (if there is one), else absolute.
fn index(a: i64, len: usize) -> usize {
    if a < 0 && len > 0 {
        ((-1 - a) as usize * 7919) % len
    } else if a < 0 {
        0
    } else {
        a as usize
    }
}

struct Source<E> {
    items: std::vec::IntoIter<Option<E>>,
    hint: usize,
}
impl<E: Elem> Iterator for Source<E> {
    type Item = Option<E>;
    fn next(&mut self) -> Option<Option<E>> {
        point(K::Next);
        self.items.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        match self.hint {
            0 => self.items.size_hint(),
            1 => (0, None),
            2 => {
                outside(|| count(Ctr::fault_lying_size_hint));
                (self.items.len() + 37, Some(3))
            }
            _ => (self.items.len() / 2, None),
        }
    }
}

impl<E: Elem> W<E> {
    fn make_items(&self, pat: &[Option<u32>]) -> (Vec<Option<E>>, Model) {
        let items: Vec<Option<E>> = pat.iter().map(|o| o.map(|v| E::make(E::norm(v)))).collect();
        let m = items.iter().map(|x| cell(x.as_ref())).collect();
        (items, m)
    }

    fn build(&self, kind: i64, n: usize, seed: i64, density: i64) -> Option<Slot<E>> {
        let pat = pattern(seed, n, density);
        if n > 256 {
            count(Ctr::probe_big);
        }
        match kind {
            0 => Some(Slot::new(sut_ok("new", VecOption::new)?, vec![])),
            1 => Some(Slot::new(sut_ok("with_capacity", || VecOption::with_capacity(n))?, vec![])),
            2 => Some(Slot::new(sut_ok("new_repeat_none", || VecOption::new_repeat_none(n))?, vec![None; n])),
            3 => {
                let vs: Vec<E> = pat.iter().map(|o| E::make(E::norm(o.unwrap_or(7)))).collect();
                let m = vs.iter().map(|x| cell(Some(x))).collect();
                Some(Slot::new(sut_ok("from_vec", || VecOption::from_vec(vs))?, m))
            }
            4 => {
                let (items, m) = self.make_items(&pat);
                let src = Source { items: items.into_iter(), hint: (seed % 4) as usize };
                let v = sut_ok("from_iter", || src.collect::<VecOption<E>>())?;
                Some(Slot::new(v, m))
            }
            _ => {
                // one push at a time
                let (items, m) = self.make_items(&pat);
                let v = sut_ok("push", || {
                    let mut v = VecOption::new();
                    for i in items {
                        v.push(i);
                    }
                    v
                })?;
                Some(Slot::new(v, m))
            }
        }
    }

    /// After an operation: the books must balance.
    fn balance(&self, l: &Local<E>, what: &str) {
        if fired(K::Drop) {
            *self.drop_fault.get() = true;
        }
        if !self.single {
            return;
        }
        let want: i64 = if std::mem::needs_drop::<E>() {
            l.s.iter().flatten().map(|s| somes(&s.m)).sum::<i64>() + self.shared.iter().map(|s| somes(&s.m)).sum::<i64>()
        } else {
            0
        };
        let leak = E::live() - want;
        let (old, slack) = (*self.leak.get(), std::mem::take(self.slack.get()));
        let ok = leak >= old && (fired(K::Drop) || leak <= old + slack);
        check!(
            ok,
            "ownership",
            "after {}: {} elements are alive, the collections hold {} ({} were leaked earlier by faults)",
            what, E::live(), want, old
        );
        *self.leak.get() = leak;
    }
    /// A deliberate leak (mem::forget): that many elements may stay alive for ever.
    fn allow_leak(&self, n: i64) {
        *self.slack.get() += n;
    }
}

/// The operations that end an iterator early.
fn fate<I: Iterator>(mut it: I, mode: i64) {
    match mode {
        1 => {
            outside(|| count(Ctr::fault_cancel_forget));
            std::mem::forget(it)
        }
        2 => {
            // exhaust and poll again
            let mut n = 0;
            while it.next().is_some() {
                n += 1;
                if n > 200_000 {
                    fail("model", "an iterator does not end".into());
                }
            }
            if it.next().is_some() {
                fail("model", "an iterator yields again after its end".into());
            }
        }
        _ => drop(it),
    }
}

impl<E: Elem> World for W<E> {
    type Local = Local<E>;
    fn new(plan: &Plan) -> Self {
        let single = plan_tasks(plan) == 1;
        let mut w = W { shared: vec![], single, leak: Sim::new(0), slack: Sim::new(0), drop_fault: Sim::new(false) };
        for l in plan.iter().filter(|l| l.t == -1 && l.kw == "shared") {
            // two equal vectors, one built by a detour
            let n = l.u(0).min(5000);
            let a = w.build([3, 4, 5, 2][l.u(1) % 4], n, l.arg(3), l.arg(2)).unwrap();
            let pat: Vec<Option<u32>> = a.m.iter().map(|c| c.map(|x| x.1)).collect();
            let (items, m) = w.make_items(&pat);
            let b = detour(items, m, l.arg(4));
            expect(&a, "building a shared vector");
            expect(&b, "building a shared vector by a detour");
            // and one that differs from them in one place only
            let near = near_miss(&pat, l.arg(3));
            let (items, m) = w.make_items(&near);
            let c = detour(items, m, (l.arg(4) + 1) % 4);
            expect(&c, "building a shared vector by a detour");
            w.shared.push(a);
            w.shared.push(b);
            w.shared.push(c);
        }
        w
    }

    fn step(&self, l: &mut Local<E>, line: &Line, _task: usize) {
        let kw = line.kw.as_str();
        match kw {
            "sclone" | "seq" | "shash" | "siter" => {
                self.shared_op(line);
            }
            "new" => {
                let s = line.u(0) % 4;
                if let Some(old) = l.s[s].take() {
                    self.drop_slot(old);
                }
                let built = self.build(line.arg(1), line.u(2).min(100_000), line.arg(3), line.arg(4));
                if let Some(b) = built {
                    expect(&b, "construction");
                    l.s[s] = Some(b);
                }
            }
            "clone" | "eq" | "cmp" | "hash" => self.pair_op(l, line),
            "pcmp" => return partial(line),
            _ => {
                let s = line.u(0) % 4;
                if let Some(slot) = l.s[s].take() {
                    l.s[s] = self.slot_op(slot, line);
                }
            }
        }
        if let Some(slot) = l.s[line.u(0) % 4].as_ref() {
            if !matches!(kw, "sclone" | "seq" | "shash" | "siter") {
                note_model(&slot.m);
            }
        }
        self.balance(l, kw);
    }

    fn end_task(&self, mut l: Local<E>, _task: usize) {
        for s in l.s.iter_mut() {
            if let Some(slot) = s.take() {
                expect(&slot, "the whole history");
                self.drop_slot(slot);
            }
        }
    }

    fn finish(self) {
        for s in self.shared.iter() {
            expect(s, "all tasks finished with a shared vector");
        }
        let (leak, slack, df) = (*self.leak.get(), *self.slack.get(), *self.drop_fault.get());
        drop(self.shared);
        if std::mem::needs_drop::<E>() && !df && leak == 0 && slack == 0 {
            check!(E::live() == 0, "ownership", "{} elements are still alive after every collection was dropped", E::live());
        }
    }
}

/// A pattern that differs from `pat` as little as can be: two neighbours exchanged, one item more or
/// less, one item absent, one value changed, or everything moved by one place.
fn near_miss(pat: &[Option<u32>], seed: i64) -> Vec<Option<u32>> {
    let mut r = Rng::new(seed as u64 ^ 0x6e65);
    let mut v = pat.to_vec();
    let n = v.len();
    match r.below(7) {
        _ if n == 0 => v.push(None),
        0 => {
            v.pop();
        }
        1 => v.push(if r.chance(1, 2) { None } else { Some(3) }),
        2 => {
            let k = r.usize(n);
            v[k] = if v[k].is_some() { None } else { Some(0) };
        }
        3 => {
            let k = r.usize(n);
            v[k] = v[k].map(|x| (x + 1) % 50);
        }
        4 => v.rotate_left(1),
        _ => {
            // exchange an item with an absent neighbour, if there is one
            let at: Vec<usize> = (1..n).filter(|&i| v[i].is_some() != v[i - 1].is_some()).collect();
            if at.is_empty() {
                v[n - 1] = None;
            } else {
                let k = at[r.usize(at.len())];
                v.swap(k, k - 1);
            }
        }
    }
    v
}

/// The same content, reached through a history of drains, pops, replacements and compactions.
fn detour<E: Elem>(items: Vec<Option<E>>, m: Model, kind: i64) -> Slot<E> {
    let v = sut_ok("a detour history", || {
        let mut v: VecOption<E> = VecOption::new();
        match kind {
            0 => {
                for _ in 0..40 {
                    v.push(Some(E::make(9)));
                }
                v.drain(..);
                v.extend(items.into_iter());
            }
            1 => {
                let n = items.len();
                for _ in 0..n + 3 {
                    v.push_none();
                }
                for _ in 0..3 {
                    v.pop();
                }
                for (i, x) in items.into_iter().enumerate() {
                    v.set(i, x);
                }
            }
            2 => {
                for (i, x) in items.into_iter().enumerate() {
                    if i % 3 == 1 {
                        v.push_some(E::make(1));
                    } else {
                        v.push_none();
                    }
                    let k = v.len() - 1;
                    v.replace(k, x);
                    v.reserve(5);
                }
                for _ in 0..35 {
                    v.push_some(E::make(3));
                }
                let n = v.len();
                v.drain(n - 35..n);
            }
            _ => {
                v.push_some(E::make(4));
                v.extend(items.into_iter());
                v.drain(..1);
            }
        }
        v
    });
    match v {
        Some(v) => Slot::new(v, m),
        None => fail("panic", "detour".into()),
    }
}

fn order(a: &Model, b: &Model) -> std::cmp::Ordering {
    a.len().cmp(&b.len()).then_with(|| {
        let x: Vec<Option<u32>> = a.iter().map(|c| c.map(|y| y.1)).collect();
        let y: Vec<Option<u32>> = b.iter().map(|c| c.map(|y| y.1)).collect();
        x.cmp(&y)
    })
}

fn hash_with<E: Elem>(v: &VecOption<E>, s: &std::collections::hash_map::RandomState) -> (u64, u64) {
    let mut d = std::collections::hash_map::DefaultHasher::new();
    v.hash(&mut d);
    let mut h = s.build_hasher();
    v.hash(&mut h);
    (d.finish(), h.finish())
}

/// Vectors of values that are only partly ordered.
fn partial(line: &Line) {
    let pat: Vec<Option<u32>> = pattern(line.arg(1), line.u(0).min(1000), line.arg(2)).iter().map(|o| o.map(|v| v % 7)).collect();
    let other = match line.arg(4) {
        0 => pat.clone(),
        1 => pattern(line.arg(3), pat.len(), line.arg(2)).iter().map(|o| o.map(|v| v % 7)).collect(),
        _ => near_miss(&pat, line.arg(3)),
    };
    let make = |p: &[Option<u32>]| p.iter().map(|o| o.map(Part)).collect::<Vec<Option<Part>>>();
    let (a, b) = (make(&pat), make(&other));
    let built = sut_ok("building", || (a.iter().copied().collect::<VecOption<Part>>(), b.iter().copied().collect::<VecOption<Part>>()));
    let Some((x, y)) = built else { return };
    // one against the other, and against itself
    for twin in [false, true] {
        let (y, b) = if twin { (&x, &a) } else { (&y, &b) };
        let got = sut_ok("ordering", || (x == *y, x != *y, x.partial_cmp(y), x < *y, x >= *y));
        let saved = disarm();
        let want = match a.len().cmp(&b.len()) {
            std::cmp::Ordering::Equal => a.partial_cmp(b),
            o => Some(o),
        };
        let eq = a == *b;
        rearm(saved);
        if let Some((e, ne, c, lt, ge)) = got {
            note(c.map_or(9, |c| c as i8 as u64));
            let ok = e == eq && ne != e && c == want && lt == (want == Some(std::cmp::Ordering::Less)) && ge == want.map_or(false, |c| c.is_ge());
            check!(ok, "model", "{:?} against {:?}: == {}, partial_cmp {:?} instead of {:?}, < {}, >= {}", a, b, e, c, want, lt, ge);
        }
    }
}

impl<E: Elem> W<E> {
    fn drop_slot(&self, slot: Slot<E>) {
        let Slot { v, m, .. } = slot;
        let _ = m;
        sut_ok("dropping the collection", move || drop(v));
        if fired(K::Drop) {
            *self.drop_fault.get() = true;
        }
    }

    fn check_pair(&self, a: &Slot<E>, b: &Slot<E>, what: u32) {
        match what {
            0 => {
                let want = same_values(&a.m, &b.m);
                if let Some((e, ne, rev)) = sut_ok("comparison", || (a.v == b.v, a.v != b.v, b.v == a.v)) {
                    note(e as u64);
                    check!(e == want && ne != want && rev == want, "model", "{} == {} gives {} (reverse {}, != {})", show(&a.m), show(&b.m), e, rev, ne);
                }
            }
            1 => {
                let want = order(&a.m, &b.m);
                if let Some((c, pc, rev, lt, ge)) =
                    sut_ok("ordering", || (a.v.cmp(&b.v), a.v.partial_cmp(&b.v), b.v.cmp(&a.v), a.v < b.v, a.v >= b.v))
                {
                    note(c as i8 as u64);
                    let ok = c == want && pc == Some(want) && rev == want.reverse() && lt == (want == std::cmp::Ordering::Less) && ge != lt;
                    check!(ok, "model", "{} cmp {} gives {:?} (partial {:?}, reverse {:?}, < {}, >= {})", show(&a.m), show(&b.m), c, pc, rev, lt, ge);
                }
            }
            _ => {
                let st = std::collections::hash_map::RandomState::new();
                if let Some((x, y)) = sut_ok("hash", || (hash_with(&a.v, &st), hash_with(&b.v, &st))) {
                    if same_values(&a.m, &b.m) {
                        check!(x == y, "model", "{} and {} are equal but hash differently", show(&a.m), show(&b.m));
                    }
                    note((x.0 == y.0) as u64);
                    // and hashing is repeatable
                    if let Some(z) = sut_ok("hash", || hash_with(&a.v, &st)) {
                        check!(z == x, "model", "hashing {} twice gives different results", show(&a.m));
                    }
                }
            }
        }
    }

    fn pair_op(&self, l: &mut Local<E>, line: &Line) {
        let (s, d) = (line.u(0) % 4, line.u(1) % 4);
        if l.s[s].is_none() {
            return;
        }
        match line.kw.as_str() {
            "clone" => {
                let c = self.clone_checked(l.s[s].as_ref().unwrap(), line.arg(2));
                l.s[s].as_mut().unwrap().tag |= 2;
                if let (Some(c), true) = (c, s != d) {
                    if let Some(old) = l.s[d].take() {
                        self.drop_slot(old);
                    }
                    l.s[d] = Some(c);
                }
            }
            k => {
                if let Some(b) = l.s[d].as_ref() {
                    let a = l.s[s].as_ref().unwrap();
                    self.check_pair(a, b, match k { "eq" => 0, "cmp" => 1, _ => 2 });
                    expect(a, k);
                    expect(b, k);
                }
            }
        }
    }

    fn clone_checked(&self, a: &Slot<E>, mutate: i64) -> Option<Slot<E>> {
        let r = sut_ok("clone", || a.v.clone());
        expect(a, "being cloned");
        let v = r?;
        let m = observe(&v);
        check!(same_values(&m, &a.m), "model", "the clone of {} is {}", show(&a.m), show(&m));
        if E::IDENT {
            let ids: std::collections::BTreeSet<u32> = a.m.iter().flatten().map(|x| x.0).collect();
            for c in m.iter().flatten() {
                check!(!ids.contains(&c.0), "ownership", "the clone of {} shares element #{}", show(&a.m), c.0);
            }
        }
        let mut b = Slot::new(v, m);
        b.tag = a.tag | 2;
        // the two are independent
        if mutate > 0 && !any_fired() {
            let saved = disarm();
            let e = E::make(E::norm(41));
            let c = cell(Some(&e));
            sut_ok("push to a clone", || b.v.push_some(e));
            b.m.push(c);
            if mutate > 1 && b.m.len() > 1 {
                let old = sut_ok("replace in a clone", || b.v.replace_none(0)).unwrap();
                check!(cell(old.as_ref()) == b.m[0], "model", "replace_none(0) of a clone returned the wrong item");
                b.m[0] = None;
            }
            expect(&b, "changing the clone");
            expect(a, "changing its clone");
            rearm(saved);
        }
        Some(b)
    }

    fn shared_op(&self, line: &Line) {
        if self.shared.is_empty() {
            return;
        }
        count(Ctr::probe_shared_read);
        let n = self.shared.len();
        let i = (line.u(0) * 3 + line.u(2) % 3) % n;
        let j = (line.u(1) * 3 + line.u(2) / 3 % 3) % n;
        let (a, b) = (&self.shared[i], &self.shared[j]);
        match line.kw.as_str() {
            "sclone" => {
                if let Some(c) = self.clone_checked(a, line.arg(2) % 3) {
                    self.drop_slot(c);
                }
            }
            "seq" => self.check_pair(a, b, (line.u(2) / 9 % 2) as u32),
            "shash" => self.check_pair(a, b, 2),
            _ => {
                expect(a, "shared reading");
                self.views(a, 100_000);
            }
        }
        expect(a, "a shared read");
    }

    /// Every read-only view agrees with the model.
    fn views(&self, s: &Slot<E>, limit: usize) {
        self.view(s, "isome", limit, 0);
        self.view(s, "runs", limit, 0);
    }
    fn view(&self, s: &Slot<E>, kind: &str, limit: usize, how: i64) {
        match kind {
            "isome" => {
                let want: Vec<(usize, (u32, u32))> = s.m.iter().enumerate().filter_map(|(i, c)| c.map(|x| (i, x))).collect();
                sut_ok("iter_some_index", || walk("iter_some_index", s.v.iter_some_index(), &want, limit, how, |(i, e)| (i, (e.id(), e.val()))));
            }
            _ => {
                let want: Vec<Vec<(u32, u32)>> = runs_of(&s.m).into_iter().map(|(a, b)| s.m[a..b].iter().map(|c| c.unwrap()).collect()).collect();
                sut_ok("iter_runs", || walk("iter_runs", s.v.iter_runs(), &want, limit, how, |r| r.iter().map(|e| (e.id(), e.val())).collect()));
            }
        }
    }

    fn slot_op(&self, mut s: Slot<E>, line: &Line) -> Option<Slot<E>> {
        s.mark();
        if line.kw == "drain" {
            s.tag |= 1;
        }
        let kw = line.kw.as_str();
        let len = s.m.len();
        match kw {
            "push" | "pushs" | "pushn" => {
                let val = E::norm(line.u(1) as u32);
                let some = match kw { "push" => line.arg(2) > 0, "pushs" => true, _ => false };
                let e = if some { Some(E::make(val)) } else { None };
                let c = cell(e.as_ref());
                match kw {
                    "push" => sut_ok("push", || s.v.push(e)),
                    "pushs" => sut_ok("push_some", || s.v.push_some(e.unwrap())),
                    _ => sut_ok("push_none", || s.v.push_none()),
                };
                s.m.push(c);
                if s.m.len() % 32 == 0 {
                    count(Ctr::probe_word_edge);
                }
            }
            "pop" => {
                let want = s.m.pop();
                if let Some(got) = sut_ok("pop", || s.v.pop()) {
                    let g = got.as_ref().map(|o| cell(o.as_ref()));
                    check!(g == want, "model", "pop returned {:?}, the last item was {:?}", g, want);
                    let _ = sut_ok("dropping an item", move || drop(got));
                }
            }
            "pops" => {
                let mut want = None;
                while let Some(c) = s.m.pop() {
                    if c.is_some() {
                        want = c;
                        break;
                    }
                }
                if let Some(got) = sut_ok("pop_some", || s.v.pop_some()) {
                    let g = cell(got.as_ref());
                    check!(g == want, "model", "pop_some returned {:?}, the last Some item was {:?}", g, want);
                    let _ = sut_ok("dropping an item", move || drop(got));
                }
            }
            "get" => self.get(&mut s, line),
            "replace" | "replaces" | "replacen" | "set" | "sets" | "setn" => self.store(&mut s, line),
            "swap" => {
                let (a, b) = (index(line.arg(1), len), index(line.arg(2), len));
                let r = sut(|| s.v.swap(a, b));
                let legal = a < len && b < len;
                match r {
                    Ok(()) => {
                        check!(legal, "model", "swap({}, {}) was accepted at length {}", a, b, len);
                        s.m.swap(a, b);
                    }
                    Err(p) => {
                        check!(!legal, "panic", "swap({}, {}) at length {}: {}", a, b, len, p.text());
                        count(Ctr::fault_rejected_arg);
                    }
                }
            }
            "extend" => {
                let pat = pattern(line.arg(2), line.u(1).min(100_000), line.arg(3));
                let (items, m) = self.make_items(&pat);
                let src = Source { items: items.into_iter(), hint: line.u(4) };
                let r = sut_ok("extend", || s.v.extend(src));
                match r {
                    Some(()) => s.m.extend(m),
                    None => {
                        // interrupted: a prefix of what the source had already yielded
                        count(Ctr::fault_truncated_iter);
                        let got = observe(&s.v);
                        let k = got.len().saturating_sub(len);
                        let ok = got.len() >= len && got[..len] == s.m[..] && k <= m.len() && got[len..] == m[..k];
                        check!(ok, "model", "extend interrupted: {} became {}, the source held {}", show(&s.m), show(&got), show(&m));
                        s.m = got;
                    }
                }
            }
            "fill" => {
                // set every n-th existing item to a clone of one element
                let step = line.u(3) + 1;
                let val = E::norm(line.u(2) as u32);
                let proto = E::make(val);
                for i in (0..len.min(200)).step_by(step) {
                    let r = sut_ok("set", || s.v.set(i, Some(proto.clone())));
                    if r.is_none() {
                        let got = observe(&s.v);
                        let same_else = got.len() == len && (0..len).all(|k| k == i || got[k] == s.m[k]);
                        check!(same_else, "model", "set({}) interrupted: {} became {}", i, show(&s.m), show(&got));
                        if !fired(K::Drop) {
                            // the value was never made
                            check!(got[i] == s.m[i], "model", "set({}) interrupted before its value existed changed the item", i);
                        }
                        s.m = got;
                        break;
                    }
                    let now = sut_ok("get_ref", || cell(s.v.get_ref(i))).unwrap();
                    check!(now.map(|c| c.1) == Some(val), "model", "set({}) stored {:?}", i, now);
                    s.m[i] = now;
                }
                let _ = sut_ok("drop", move || drop(proto));
            }
            "drain" => return self.drain(s, line),
            "compact" => {
                let want: Vec<(u32, u32)> = s.m.iter().flatten().copied().collect();
                let r = sut_ok("compact", || s.v.compact().iter().map(|e| (e.id(), e.val())).collect::<Vec<_>>());
                if let Some(g) = r {
                    check!(g == want, "model", "compact of {} returned {:?}", show(&s.m), g);
                }
                s.m = want.into_iter().map(Some).collect();
            }
            "intovec" => {
                let want: Vec<(u32, u32)> = s.m.iter().flatten().copied().collect();
                let v = s.v;
                let r = sut_ok("some_into_vec", move || v.some_into_vec());
                match r {
                    Some(vec) => {
                        let g: Vec<(u32, u32)> = vec.iter().map(|e| (e.id(), e.val())).collect();
                        check!(g == want, "model", "some_into_vec of {} returned {:?}", show(&s.m), g);
                        let v = sut_ok("from_vec", move || VecOption::from_vec(vec)).unwrap();
                        s = Slot::new(v, want.into_iter().map(Some).collect());
                    }
                    None => return None,
                }
            }
            "intoiter" => {
                count(Ctr::fault_cancel_partial);
                let Slot { v, m, .. } = s;
                self.consume("into_iter", m, line, move || v.into_iter(), |x| cell(x.as_ref()));
                return None;
            }
            "intosome" => {
                count(Ctr::fault_cancel_partial);
                let Slot { v, m, .. } = s;
                let all: Vec<Cell> = m.iter().filter(|c| c.is_some()).copied().collect();
                self.consume("into_some_iter", all, line, move || v.into_some_iter(), |x| cell(Some(&x)));
                return None;
            }
            "iter" => {
                let limit = line.u(1);
                sut_ok("iter", || walk("iter", s.v.iter(), &s.m, limit, line.arg(3), cell));
                // two iterators at once
                count(Ctr::probe_nested_iter);
                sut_ok("nested iter", || {
                    let mut a = s.v.iter();
                    let mut b = s.v.iter();
                    let _ = a.next();
                    let _ = a.next();
                    for (k, c) in s.m.iter().take(40).enumerate() {
                        if b.next().map(cell) != Some(*c) {
                            fail("model", format!("a second iterator disagrees at {}", k));
                        }
                    }
                });
            }
            "itermut" => {
                let (limit, delta) = (line.u(1), line.u(2) as u32);
                let m = &s.m;
                let seen = sut_ok("iter_mut", || {
                    walk("iter_mut", s.v.iter_mut(), m, limit, line.arg(3), |x| {
                        x.map(|e| {
                            let c = (e.id(), e.val());
                            e.set_val(E::norm(c.1 + delta));
                            c
                        })
                    })
                });
                for i in seen.into_iter().flatten() {
                    if let Some(c) = &mut s.m[i] {
                        c.1 = E::norm(c.1 + delta);
                    }
                }
            }
            "isomem" => {
                let (limit, delta) = (line.u(1), line.u(2) as u32);
                let want: Vec<(usize, (u32, u32))> = s.m.iter().enumerate().filter_map(|(i, c)| c.map(|x| (i, x))).collect();
                let seen = sut_ok("iter_some_index_mut", || {
                    walk("iter_some_index_mut", s.v.iter_some_index_mut(), &want, limit, line.arg(3), |(i, e)| {
                        let c = (e.id(), e.val());
                        e.set_val(E::norm(c.1 + delta));
                        (i, c)
                    })
                });
                for k in seen.into_iter().flatten() {
                    if let Some(c) = &mut s.m[want[k].0] {
                        c.1 = E::norm(c.1 + delta);
                    }
                }
            }
            "runsm" => {
                let (limit, delta) = (line.u(1), line.u(2) as u32);
                let rs = runs_of(&s.m);
                let want: Vec<Vec<(u32, u32)>> = rs.iter().map(|&(a, b)| s.m[a..b].iter().map(|c| c.unwrap()).collect()).collect();
                let seen = sut_ok("iter_runs_mut", || {
                    walk("iter_runs_mut", s.v.iter_runs_mut(), &want, limit, line.arg(3), |run| {
                        let g = run.iter().map(|e| (e.id(), e.val())).collect();
                        run.reverse();
                        for e in run.iter_mut() {
                            let n = e.val() + delta;
                            e.set_val(E::norm(n));
                        }
                        g
                    })
                });
                for k in seen.into_iter().flatten() {
                    let (a, b) = rs[k];
                    s.m[a..b].reverse();
                    for c in s.m[a..b].iter_mut().flatten() {
                        c.1 = E::norm(c.1 + delta);
                    }
                }
            }
            "isome" | "runs" => self.view(&s, kw, line.u(1), line.arg(3)),
            "reserve" => {
                sut_ok("reserve", || s.v.reserve(line.u(1)));
            }
            "drop" => {
                self.drop_slot(s);
                return None;
            }
            _ => {}
        }
        expect(&s, kw);
        Some(s)
    }

    fn get(&self, s: &mut Slot<E>, line: &Line) {
        let len = s.m.len();
        let i = index(line.arg(3), len);
        let want = s.m.get(i).copied();
        let how = line.arg(1);
        let r: Result<Option<Cell>, Pan> = match how {
            0 => sut(|| Some(cell(s.v.get_ref(i)))),
            1 => {
                let nv = E::norm(line.u(2) as u32);
                let r = sut(|| {
                    Some(s.v.get_mut(i).map(|e| {
                        let c = (e.id(), e.val());
                        e.set_val(nv);
                        c
                    }))
                });
                if r.is_ok() {
                    if let Some(Some(c)) = s.m.get_mut(i) {
                        c.1 = nv;
                    }
                }
                r
            }
            2 => {
                let r = sut(|| E::copy_get(&mut s.v, i));
                match r {
                    Ok(None) => return,
                    Ok(Some(v)) => Ok(Some(v.map(|x| (0, x)))),
                    Err(p) => Err(p),
                }
            }
            _ => match sut(|| s.v.get_clone(i)) {
                Ok(e) => {
                    let g = e.as_ref().map(|x| (x.id(), x.val()));
                    if let (Some(g), Some(Some(w))) = (g, want) {
                        check!(!E::IDENT || g.0 != w.0, "ownership", "get_clone({}) returned the element itself", i);
                        check!(g.1 == w.1, "model", "get_clone({}) returned {}, the item is {}", i, g.1, w.1);
                        Ok(Some(Some(w)))
                    } else {
                        Ok(Some(g))
                    }
                }
                Err(p) => Err(p),
            },
        };
        match r {
            Ok(got) => match want {
                None => fail("model", format!("get({}) was accepted at length {}", i, len)),
                Some(w) => check!(got == Some(w), "model", "get({}) (form {}) returned {:?}, the item is {:?}", i, how, got, w),
            },
            Err(Pan::Injected(_)) => {}
            Err(Pan::Real(m)) => {
                check!(want.is_none(), "panic", "get({}) (form {}) at length {}: {}", i, how, len, m);
                count(Ctr::fault_rejected_arg);
            }
        }
    }

    fn store(&self, s: &mut Slot<E>, line: &Line) {
        let kw = line.kw.as_str();
        let len = s.m.len();
        let i = index(line.arg(3), len);
        let some = match kw { "replace" | "set" => line.arg(2) > 0, "replaces" | "sets" => true, _ => false };
        let e = if some { Some(E::make(E::norm(line.u(1) as u32))) } else { None };
        let c = cell(e.as_ref());
        let want = s.m.get(i).copied();
        let r: Result<Option<Option<E>>, Pan> = match kw {
            "replace" => sut(|| Some(s.v.replace(i, e))),
            "replaces" => sut(|| Some(s.v.replace_some(i, e.unwrap()))),
            "replacen" => sut(|| Some(s.v.replace_none(i))),
            "set" => sut(|| { s.v.set(i, e); None }),
            "sets" => sut(|| { s.v.set_some(i, e.unwrap()); None }),
            _ => sut(|| { s.v.set_none(i); None }),
        };
        match r {
            Ok(old) => {
                let w = match want {
                    Some(w) => w,
                    None => fail("model", format!("{}({}) was accepted at length {}", kw, i, len)),
                };
                if let Some(o) = &old {
                    let g = cell(o.as_ref());
                    check!(g == w, "model", "{}({}) returned {:?}, the item was {:?}", kw, i, g, w);
                }
                s.m[i] = c;
                let _ = sut_ok("dropping an item", move || drop(old));
            }
            Err(Pan::Injected(_)) => {
                // the destructor of the old item (or of the rejected new one) panicked
                if want.is_some() {
                    let got = observe(&s.v);
                    let ok = got.len() == len && (0..len).all(|k| k == i || got[k] == s.m[k]) && (got[i] == c || got[i].is_none());
                    check!(ok, "model", "{}({}) interrupted: {} became {}", kw, i, show(&s.m), show(&got));
                    s.m = got;
                }
            }
            Err(Pan::Real(m)) => {
                check!(want.is_none(), "panic", "{}({}) at length {}: {}", kw, i, len, m);
                count(Ctr::fault_rejected_arg);
            }
        }
    }

    /// An iterator that owns its items: some are taken or passed over, then it is dropped, leaked,
    /// exhausted, or asked for the rest all at once.
    fn consume<I: Iterator>(&self, what: &str, want: Vec<Cell>, line: &Line, make: impl FnOnce() -> I, mut f: impl FnMut(I::Item) -> Cell) {
        let (take, mode, every) = (line.u(1), line.arg(2), line.u(3));
        let mut got: Vec<Cell> = vec![];
        sut_ok(what, || {
            let mut it = make();
            let mut ended = false;
            for k in 0..take {
                let skip = if every > 0 && k % 3 == 1 { every * k % 11 } else { 0 };
                if !pull(&mut it, skip, &want, &mut got, &mut f) {
                    ended = true;
                    break;
                }
            }
            check!(got.len() <= want.len() && got[..] == want[..got.len()], "model", "{} of {} yielded {}", what, show(&want), show(&got));
            check!(!ended || got.len() == want.len(), "model", "{} of {} ended after {} items", what, show(&want), got.len());
            let left = want.len() - got.len();
            match mode {
                1 => {
                    outside(|| self.allow_leak(if std::mem::needs_drop::<E>() { somes(&want[got.len()..]) } else { 0 }));
                    fate(it, mode);
                }
                3 => {
                    let n = it.count();
                    check!(n == left, "model", "{} of {} counts {} items after {}", what, show(&want), n, got.len());
                }
                4 => {
                    let last = it.last().map(&mut f);
                    check!(last == if left > 0 { want.last().copied() } else { None }, "model", "the last item of {} of {} is {:?}", what, show(&want), last);
                }
                5 => {
                    let n = got.len();
                    let rest: Vec<I::Item> = it.collect();
                    for x in rest {
                        got.push(f(x));
                    }
                    check!(got == want, "model", "{} of {} yielded {} after {}", what, show(&want), show(&got[n.min(got.len())..]), n);
                }
                _ => fate(it, mode),
            }
        });
    }

    fn drain(&self, mut s: Slot<E>, line: &Line) -> Option<Slot<E>> {
        let len = s.m.len();
        let (mut a, mut b) = (line.u(1) % (len + 1), line.u(2) % (len + 1));
        let (take, mode, kind, every) = (line.u(3), line.arg(4), line.arg(5), line.u(7));
        // interior word edges are interesting
        if line.arg(6) == 1 && len > 32 {
            a = (a / 32) * 32;
        }
        if line.arg(6) == 2 && len > 32 {
            b = (b / 32) * 32;
        }
        if a > b && kind != 9 {
            std::mem::swap(&mut a, &mut b);
        }
        let range: (Bound<usize>, Bound<usize>) = match kind {
            0 | 1 | 2 => (Bound::Included(a), Bound::Excluded(b)),
            3 => { b = len; (Bound::Included(a), Bound::Unbounded) }
            4 => { a = 0; (Bound::Unbounded, Bound::Excluded(b)) }
            5 => { a = 0; b = len; (Bound::Unbounded, Bound::Unbounded) }
            6 if b > a => (Bound::Included(a), Bound::Included(b - 1)),
            7 if a > 0 => (Bound::Excluded(a - 1), Bound::Excluded(b)),
            8 => { b = len + 1 + b % 5; (Bound::Included(a), Bound::Excluded(b)) }
            9 => (Bound::Included(a), Bound::Excluded(b)),
            10 if a > 0 && b > a => (Bound::Excluded(a - 1), Bound::Included(b - 1)),
            _ => (Bound::Included(a), Bound::Excluded(b)),
        };
        let legal = a <= b && b <= len;
        if legal && a > 0 && b < len {
            count(Ctr::probe_drain_mid);
        }
        let m = s.m.clone();
        let mut got: Vec<Cell> = vec![];
        let mut forgot = false;
        let mut ended = false;
        let r = sut(|| {
            let mut d = s.v.drain(range);
            let part = if legal { &m[a..b] } else { &[] };
            for k in 0..take {
                let skip = if every > 0 && k % 3 == 1 { every * k % 11 } else { 0 };
                if !pull(&mut d, skip, part, &mut got, |x| cell(x.as_ref())) {
                    ended = true;
                    break;
                }
            }
            forgot = mode == 1;
            if forgot {
                outside(|| count(Ctr::fault_cancel_forget));
            } else if got.len() < b.saturating_sub(a) {
                outside(|| count(Ctr::fault_cancel_abandon));
            }
            if mode == 2 {
                // drain the rest by hand
                while let Some(x) = d.next() {
                    got.push(cell(x.as_ref()));
                    if got.len() > len + 5 {
                        fail("model", "a drain does not end".into());
                    }
                }
                if d.next().is_some() {
                    fail("model", "a drain yields again after its end".into());
                }
            }
            if forgot {
                std::mem::forget(d);
            } else {
                drop(d);
            }
        });
        match r {
            Err(Pan::Real(msg)) => {
                check!(!legal, "panic", "drain({}..{}) at length {}: {}", a, b, len, msg);
                count(Ctr::fault_rejected_arg);
                expect(&s, "a rejected drain");
                Some(s)
            }
            Err(Pan::Injected(_)) => {
                check!(legal, "model", "drain({}..{}) was accepted at length {}", a, b, len);
                check!(got.len() <= b - a && got[..] == m[a..a + got.len()], "model", "drain({}..{}) of {} yielded {}", a, b, show(&m), show(&got));
                self.after_broken_drain(s, a, b, got.len(), &m)
            }
            Ok(()) => {
                check!(legal, "model", "drain({}..{}) was accepted at length {}", a, b, len);
                let n = if mode == 2 || ended { b - a } else { got.len().max(take.min(b - a)) };
                check!(n <= b - a && got[..] == m[a..a + n], "model", "drain({}..{}) of {} yielded {}", a, b, show(&m), show(&got));
                if forgot {
                    return self.after_broken_drain(s, a, b, n, &m);
                }
                s.m.drain(a..b);
                expect(&s, "a drain");
                Some(s)
            }
        }
    }

    /// A drain that was leaked or interrupted by a panicking destructor: the items outside the range
    /// are intact and in order; what is left of the range is some of its not-yet-yielded items, in
    /// order, and holes.
    fn after_broken_drain(&self, mut s: Slot<E>, a: usize, b: usize, yielded: usize, m: &Model) -> Option<Slot<E>> {
        let got = observe(&s.v);
        let tail = m.len() - b;
        let ok_len = got.len() >= a + tail && got.len() <= m.len();
        check!(ok_len, "model", "drain({}..{}) of {} interrupted after {}: left {}", a, b, show(m), yielded, show(&got));
        let mid = &got[a..got.len() - tail];
        let mut ok = got[..a] == m[..a] && got[got.len() - tail..] == m[b..];
        // subsequence of the items not yielded
        let mut k = a + yielded;
        for c in mid.iter().filter(|c| c.is_some()) {
            while k < b && m[k] != *c {
                k += 1;
            }
            if k >= b {
                ok = false;
                break;
            }
            k += 1;
        }
        check!(ok, "model", "drain({}..{}) of {} interrupted after {}: left {}", a, b, show(m), yielded, show(&got));
        // items of the range that were neither yielded nor kept may have been leaked
        let lost = somes(&m[a + yielded..b]) - somes(mid);
        if std::mem::needs_drop::<E>() {
            self.allow_leak(lost.max(0));
        }
        s.m = got;
        expect(&s, "an interrupted drain");
        Some(s)
    }
}

fn runs_of(m: &[Cell]) -> Vec<(usize, usize)> {
    let mut out = vec![];
    let mut i = 0;
    while i < m.len() {
        if m[i].is_some() {
            let a = i;
            while i < m.len() && m[i].is_some() {
                i += 1;
            }
            out.push((a, i));
        } else {
            i += 1;
        }
    }
    out
}
