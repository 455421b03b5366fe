//! C08-C13, C16, C18: a "graph service". Shared graphs, several tasks, a log sink that may panic,
//! dawdle or call back into the library, callbacks that do the same, cursors that are polled in
//! turns and abandoned, operations that are cut short and repeated.
use crate::check;
use crate::fw::*;
use crate::gmodel::{self as gm, Adj, Walk};
use simrt::sched;
use std::collections::BTreeMap;
use trellis::error::Error;
use trellis::graph::Graph;
use trellis::ramp_table::RampTable;

const REAL: &[&str] = &["trellis::graph", "trellis::topo_sort", "trellis::layering", "trellis::disjoint", "trellis::find_chains", "trellis::ortho::shortest_path", "trellis::{traverse_depth_first_preorder, find_sources, find_sinks, degrees}", "trellis::ramp_table, trellis::vec_option (as used by these)", "log facade"];
const STUB: &[&str] = &["allocator: SimAlloc", "log sink: SimLog", "edge callback and its iterator: simulated", "caller threads: simulated schedule", "standard output, clock, hash seed: simulated"];

pub fn props() -> Vec<Prop> {
    fn mk(id: &'static str, gen: fn(&mut Rng, &Tier) -> Plan, quick: u64) -> Prop {
        // a wrong but repeatable answer, or one that never comes, is not C16's subject
        let own: &[&str] = if id == "C16" { &["result-changed", "stdout", "input-changed", "deadlock", "heap", "crash"] } else { &[] };
        Prop { id, gen, run, quick, own, op_budget: 600_000_000, real: REAL, stub: STUB }
    }
    vec![
        mk("C08", |r, t| gen(r, t, 8), 45_000),
        mk("C09", |r, t| gen(r, t, 9), 45_000),
        mk("C10", |r, t| gen(r, t, 10), 65_000),
        mk("C11", |r, t| gen(r, t, 11), 100_000),
        mk("C12", |r, t| gen(r, t, 12), 50_000),
        mk("C13", |r, t| gen(r, t, 13), 70_000),
        mk("C16", |r, t| gen(r, t, 16), 45_000),
        mk("C18", |r, t| gen(r, t, 18), 100_000),
    ]
}

fn gen(r: &mut Rng, t: &Tier, prop: i64) -> Plan {
    let mut p = vec![];
    let tasks = *r.pick(&[1usize, 2, 2, 3, 4]);
    gen_env(r, &mut p, tasks);
    p.push(Line::new(-1, "prop", &[prop]));
    if tasks > 1 {
        p.push(Line::new(-1, "sched", &[*r.pick(&[0i64, 50, 400, 3000, 20_000]), *r.pick(&[0i64, 10, 60]), 300]));
    }
    let level = *r.pick(&[0i64, 0, 4, 5]);
    let logging = level >= 4;
    p.push(Line::new(-1, "log", &[level, *r.pick(&[0i64, 0, 0, 7, 31]), r.range(0, 1)]));
    let kinds: &[usize] = match prop {
        8 | 9 => &[0, 1, 1, 2, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 11, 12, 14, 15, 16, 17],
        10 => &[0, 1, 3, 3, 4, 5, 6, 7, 7, 7, 8, 9, gm::DEEP + 10, 14, 15, 16],
        11 => &[0, 1, 3, 4, 5, 6, 6, 6, 6, 7, 8, 9, gm::DEEP + 10, 14, 15, 16],
        12 => &[0, 0, 1, 1, 2, 3, 4, 5, 6, 7, 8, 10, 10, 11, gm::DEEP + 12, 14, 15, 16],
        13 | 18 => &[0, 1, 1, 2, 3, 3, 4, 5, 6, 7, 8, 9, 10, 11, gm::DEEP + 12, 14, 15, 16],
        _ => &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 14, 15, 16],
    };
    let ng = 1 + r.usize(3);
    let mut ns = vec![];
    let mut hints = vec![None; ng];
    for g in 0..ng {
        ns.push(gm::emit(&mut p, r, g as i64, t, kinds, &mut hints[g]));
    }
    if prop == 16 {
        for i in 0..2 {
            let text = crate::lexer::gen_text(r, 60);
            let mut a = vec![i];
            a.extend(text.chars().map(|c| c as i64));
            p.push(Line::new(-1, "text", &a));
        }
    }
    let main: &[&str] = match prop {
        8 => &["topo", "topor"],
        9 => &["layer"],
        10 => &["disj"],
        11 => &["chains"],
        12 => &["sp"],
        13 => &["cur", "poll", "poll", "poll", "nth", "rest", "drop", "walk"],
        18 => &["view", "view", "deg", "cur2", "poll", "poll", "nth", "rest", "drop", "walk"],
        _ => &["topo", "topor", "layer", "disj", "chains", "sp", "view", "deg", "curs", "lex", "lex"],
    };
    let faulty = r.chance(1, 2);
    let wseed = r.range(0, 5);
    let wmode = r.range(0, 5);
    for task in 0..tasks {
        let tk = task as i32;
        let nops = if prop == 13 || prop == 18 { r.range(1, 30) } else { r.range(1, 10) };
        let own = r.chance(1, 4);
        for _ in 0..nops {
            if own && r.chance(1, 3) {
                match r.usize(12) {
                    0 => p.push(Line::new(tk, "own_new", &[])),
                    1 | 2 => p.push(Line::new(tk, "own_clear", &[])),
                    3 => p.push(Line::new(tk, "own_copy", &[r.range(0, ng as i64 - 1)])),
                    _ => {}
                }
                for _ in 0..r.usize(3) {
                    p.push(Line::new(tk, "own_edit", &[r.range(0, 400), r.range(0, 12), r.range(0, 4)]));
                }
                let kw = if r.chance(2, 3) { "own_dag" } else { "own_row" };
                for _ in 0..r.usize(5) {
                    let row: Vec<i64> = (0..r.usize(4)).map(|_| r.range(0, 12)).collect();
                    p.push(Line::new(tk, if r.chance(1, 12) { "own_row" } else { kw }, &row));
                }
            }
            if r.chance(1, 10) {
                p.push(Line::new(tk, "loglevel", &[if logging { *r.pick(&[0i64, 4, 5]) } else { 0 }]));
            }
            if r.chance(1, 12) {
                p.push(Line::new(tk, "stdout", &[r.range(0, 4)]));
            }
            if r.chance(1, 16) {
                p.push(Line::new(tk, "env", &[r.range(0, 12)]));
            }
            let op = *r.pick(main);
            let op = if op == "cur2" { "cur" } else { op };
            if faulty && r.chance(1, 3) {
                if op == "sp" && r.chance(3, 4) {
                    p.push(Line::new(tk, "inj", &[*r.pick(&[K::Cb, K::Next]) as i64, r.range(1, 30)]));
                } else if logging {
                    p.push(Line::new(tk, "inj", &[K::Log as i64, r.range(1, 40)]));
                }
            }
            if prop == 13 {
                gen_times(r, &mut p, tk, 1000);
            } else if r.chance(1, 600) {
                // the same again and again
                p.push(Line::new(tk, "storm", &[*r.pick(&[33i64, 65, 130, 260, 260, 520, 1030])]));
            }
            let g = if own && r.chance(1, 2) { ng } else { r.usize(ng) };
            let n = ns.get(g).copied().unwrap_or(12).max(1) as i64;
            let mut s = r.range(0, n - 1);
            if let Some(Some(h)) = hints.get(g) {
                if r.chance(2, 3) {
                    s = *h;
                }
            }
            let e = if r.chance(1, 10) { s } else { r.range(0, n - 1) };
            let slot = r.range(0, 2);
            let a: Vec<i64> = match op {
                "sp" => vec![g as i64, s, e, r.range(0, 63), wmode, wseed],
                "view" => vec![g as i64, r.range(0, 7)],
                "deg" => vec![g as i64, *r.pick(&[0i64, 1, 2, 3, 100, 65534, 65535])],
                "cur" => {
                    let kind = if prop == 13 { 0 } else if prop == 18 { r.range(1, 2) } else { r.range(0, 2) };
                    vec![slot, g as i64, kind, s]
                }
                "curs" => vec![g as i64, r.range(0, 2), s, r.range(1, 60)],
                "walk" => vec![g as i64, if prop == 13 { 0 } else { r.range(1, 2) }, s, *r.pick(&[3i64, 20, 3000]), r.below(1 << 30) as i64],
                "poll" | "nth" => {
                    let top = if r.chance(1, 4) { 60 } else { 6 };
                    vec![slot, r.range(1, top)]
                },
                "rest" | "drop" => vec![slot],
                "lex" => vec![r.range(0, 1)],
                _ => vec![g as i64],
            };
            p.push(Line::new(tk, op, &a));
        }
    }
    p
}

fn run(plan: &Plan) {
    drive::<W>(plan)
}

// ---- the log sink --------------------------------------------------------------------------------
struct SimLog;
static SIMLOG: SimLog = SimLog;
static REENTER: Sim<u64> = Sim::new(0);
static AGAIN: Sim<Option<fn()>> = Sim::new(None);
static FORMAT: Sim<bool> = Sim::new(false);
static IN_LOG: Sim<[bool; sched::MAXT]> = Sim::new([false; sched::MAXT]);
static RECORDS: Sim<u64> = Sim::new(0);
static SMALL: Sim<Option<Graph>> = Sim::new(None);

struct Flag(usize);
impl Drop for Flag {
    fn drop(&mut self) {
        IN_LOG.get()[self.0] = false;
    }
}
struct NullSink;
impl std::fmt::Write for NullSink {
    fn write_str(&mut self, _s: &str) -> std::fmt::Result {
        Ok(())
    }
}
impl log::Log for SimLog {
    fn enabled(&self, _m: &log::Metadata) -> bool {
        true
    }
    fn log(&self, rec: &log::Record) {
        if !sched::in_sut() {
            return;
        }
        let me = sched::current();
        if IN_LOG.get()[me] {
            return;
        }
        count(Ctr::probe_log_record);
        IN_LOG.get()[me] = true;
        let _f = Flag(me);
        point(K::Log);
        if *FORMAT.get() {
            let _ = std::fmt::write(&mut NullSink, *rec.args());
        }
        *RECORDS.get() += 1;
        let every = *REENTER.get();
        if every > 0 && *RECORDS.get() % every == 0 {
            if let Some(f) = *AGAIN.get() {
                f();
            }
        }
    }
    fn flush(&self) {}
}
static PROP: Sim<i64> = Sim::new(0);
/// A callback that uses the library itself: the same analysis, on another graph.
fn reenter() {
    let Some(g) = SMALL.get() else { return };
    count(Ctr::fault_reentrant_call);
    let all = *PROP.get() == 16;
    let is = |p: i64| all || *PROP.get() == p;
    let mut n = 0;
    if is(8) {
        n += trellis::topo_sort::topo_sort(g).is_ok() as usize;
    }
    if is(9) {
        n += trellis::layering::create_layer_map(g).is_ok() as usize;
    }
    if is(10) {
        n += trellis::disjoint::find_disjoint_subgraphs(g).subgraphs.num_keys();
    }
    if is(11) {
        n += trellis::find_chains::find_chains(g).num_keys();
    }
    if is(12) {
        n += trellis::ortho::shortest_path::find_shortest_path(|v| g.edges_from(v as u32).iter().map(|&t| (t as i32, 1)), 0, 3).is_some() as usize;
    }
    std::hint::black_box(n);
}

// ---- the world -----------------------------------------------------------------------------------
struct G {
    g: Graph,
    adj: Adj,
    /// Names the content.
    sig: String,
    layers: Sim<Option<Option<Vec<u32>>>>,
    comps: Sim<Option<Vec<Vec<u32>>>>,
    chains: Sim<Option<Vec<Vec<u32>>>>,
}
impl G {
    fn new(g: Graph, adj: Adj) -> G {
        let mut h = 0;
        for l in &adj {
            h = simrt::rng::mix(h ^ l.len() as u64 ^ 0x5151);
            for &x in l {
                h = simrt::rng::mix(h.wrapping_mul(3) ^ x as u64);
            }
        }
        let sig = format!("{:016x} ({} vertices)", h, adj.len());
        G { g, adj, sig, layers: Sim::new(None), comps: Sim::new(None), chains: Sim::new(None) }
    }
    fn layers(&self) -> &Option<Vec<u32>> {
        self.layers.get().get_or_insert_with(|| gm::layers(&self.adj))
    }
    fn comps(&self) -> &Vec<Vec<u32>> {
        self.comps.get().get_or_insert_with(|| gm::components(&self.adj))
    }
    fn chains(&self) -> &Vec<Vec<u32>> {
        self.chains.get().get_or_insert_with(|| gm::chains(&self.adj))
    }
}
struct W {
    prop: i64,
    gs: Vec<G>,
    texts: Vec<String>,
    memo: Sim<BTreeMap<String, (usize, Vec<i64>)>>,
    /// Analyses to be made again, on fresh copies.
    redo: Sim<Vec<(Line, Adj)>>,
}
enum It {
    Dfs(Box<dyn Iterator<Item = u32>>, Walk),
    Flat(Box<dyn Iterator<Item = (u32, u32)>>, usize, usize, usize),
    From(Box<dyn Iterator<Item = (u32, &'static [u32])>>, usize),
}
struct Cur {
    g: usize,
    it: It,
    done: bool,
    polls: u64,
}
#[derive(Default)]
struct Local {
    curs: [Option<Cur>; 3],
    own: Option<Graph>,
    own_adj: Adj,
    /// How often the next analysis is made, if its graph is small.
    times: usize,
}

fn build(adj: &Adj) -> Graph {
    let mut g = Graph::new();
    for l in adj {
        for &t in l {
            g.push_to(t);
        }
        g.finish_from();
    }
    g
}
const PANICKED: i64 = i64::MIN;

impl W {
    /// Runs one library call; if an injected fault cuts it short, runs it again without faults.
    fn call<T>(&self, what: &str, f: impl Fn() -> T) -> Result<T, String> {
        for _ in 0..2 {
            match sut(&f) {
                Ok(v) => return Ok(v),
                Err(Pan::Injected(_)) => {
                    disarm();
                    count(Ctr::probe_retry_after_fault);
                }
                Err(Pan::Real(m)) => {
                    if self.is_main(what) {
                        fail("panic", format!("{} panicked: {}", what, m));
                    }
                    return Err(m);
                }
            }
        }
        fail("retry", format!("{}: a fault fired with none armed", what))
    }
    fn is_main(&self, what: &str) -> bool {
        match self.prop {
            8 => what == "topo_sort" || what == "topo_sort_reverse",
            9 => what == "create_layer_map",
            10 => what == "find_disjoint_subgraphs",
            11 => what == "find_chains",
            12 => what == "find_shortest_path",
            13 => what == "traverse_depth_first_preorder",
            18 => what == "view",
            _ => false,
        }
    }
    fn memo(&self, key: String, v: Vec<i64>, task: usize) {
        for &x in v.iter().take(64) {
            note(x as u64);
        }
        if self.prop != 16 && self.prop != 8 {
            return;
        }
        match self.memo.get().get(&key) {
            None => {
                self.memo.get().insert(key, (task, v));
            }
            Some((t0, old)) => {
                if *old != v {
                    let at = old.iter().zip(&v).position(|(a, b)| a != b).unwrap_or(old.len().min(v.len()));
                    fail("result-changed", format!("{} gave a different result to task {} than to task {} before (lengths {} and {}, first difference at {})", key, task, t0, v.len(), old.len(), at));
                }
            }
        }
    }
    fn quiet(&self, what: &str) {
        if self.prop == 16 {
            check!(simrt::interpose::stdout_bytes() == 0, "stdout", "{} wrote {} bytes to standard output or error, or to a file", what, simrt::interpose::stdout_bytes());
        }
    }

    fn check_topo(&self, g: &G, r: &Result<Vec<u32>, Error>, reverse: bool, what: &str) {
        let acyclic = g.layers().is_some();
        count(if acyclic { Ctr::probe_acyclic } else { Ctr::probe_cycle });
        match r {
            Err(e) => {
                check!(!acyclic, "cycle", "{} reported {:?} for a graph without a cycle", what, e);
                check!(*e == Error::FoundCycle, "cycle", "{} reported {:?} for a graph with a cycle", what, e);
            }
            Ok(order) => {
                check!(acyclic, "cycle", "{} found an order for a graph with a cycle", what);
                let n = g.adj.len();
                let mut pos = vec![usize::MAX; n];
                for (i, &v) in order.iter().enumerate() {
                    check!((v as usize) < n, "order", "{} listed vertex {} of {}", what, v, n);
                    check!(pos[v as usize] == usize::MAX, "order", "{} listed vertex {} twice", what, v);
                    pos[v as usize] = i;
                }
                let mut touched = vec![false; n];
                for (u, l) in g.adj.iter().enumerate() {
                    for &v in l {
                        touched[u] = true;
                        touched[v as usize] = true;
                    }
                }
                for v in 0..n {
                    let listed = pos[v] != usize::MAX;
                    check!(listed == touched[v], "order", "{}: vertex {} {} an edge but is {}listed", what, v, if touched[v] { "has" } else { "does not have" }, if listed { "" } else { "not " });
                }
                for (u, l) in g.adj.iter().enumerate() {
                    for &v in l {
                        let ok = if reverse { pos[v as usize] < pos[u] } else { pos[u] < pos[v as usize] };
                        check!(ok, "order", "{} put the ends of edge {} -> {} at {} and {}", what, u, v, pos[u], pos[v as usize]);
                    }
                }
            }
        }
    }

    fn analyse(&self, g: &G, key: Option<String>, line: &Line, task: usize) {
        match line.kw.as_str() {
            "topo" => self.topo(g, key, false, task),
            "topor" => self.topo(g, key, true, task),
            "layer" => self.layer(g, key, task),
            "disj" => self.disj(g, key, task),
            "chains" => self.chains(g, key, task),
            "sp" => self.sp(g, key, line, task),
            "view" => self.view(g, key, line.u(1), task),
            _ => self.deg(g, key, line.arg(1) as u16, task),
        }
    }
    fn topo(&self, g: &G, key: Option<String>, reverse: bool, task: usize) {
        let what = if reverse { "topo_sort_reverse" } else { "topo_sort" };
        let r = self.call(what, || if reverse { trellis::topo_sort::topo_sort_reverse(&g.g) } else { trellis::topo_sort::topo_sort(&g.g) });
        let enc = match &r {
            Err(_) => vec![PANICKED],
            Ok(Err(_)) => vec![-1],
            Ok(Ok(o)) => o.iter().map(|&x| x as i64).collect(),
        };
        if self.is_main(what) {
            if let Ok(r) = &r {
                self.check_topo(g, r, reverse, what);
            }
        }
        if let Some(k) = key {
            self.memo(format!("{} of graph {}", what, k), enc, task);
        }
    }
    fn layer(&self, g: &G, key: Option<String>, task: usize) {
        let what = "create_layer_map";
        let r = self.call(what, || trellis::layering::create_layer_map(&g.g));
        if self.is_main(what) {
            match (&r, g.layers()) {
                (Ok(Ok(m)), Some(want)) => {
                    count(Ctr::probe_acyclic);
                    check!(m.v_layer.len() == want.len(), "layer", "{} layers for {} vertices", m.v_layer.len(), want.len());
                    for v in 0..want.len() {
                        check!(m.v_layer[v] == want[v], "layer", "vertex {} is in layer {}, its longest path to a sink has {} edges", v, m.v_layer[v], want[v]);
                    }
                    let top = want.iter().max().copied().unwrap_or(0) as usize + 1;
                    check!(m.num_layers == top, "layer", "{} layers reported, {} in use", m.num_layers, top);
                }
                (Ok(Err(e)), None) => {
                    count(Ctr::probe_cycle);
                    check!(*e == Error::FoundCycle, "cycle", "{:?} reported for a graph with a cycle", e);
                }
                (Ok(Ok(_)), None) => fail("cycle", "a graph with a cycle was layered".into()),
                (Ok(Err(e)), Some(_)) => fail("cycle", format!("{:?} reported for a graph without a cycle", e)),
                (Err(_), _) => {}
            }
        }
        if let Some(k) = key {
            let enc = match &r {
                Err(_) => vec![PANICKED],
                Ok(Err(_)) => vec![-1],
                Ok(Ok(m)) => std::iter::once(m.num_layers as i64).chain(m.v_layer.iter().map(|&x| x as i64)).collect(),
            };
            self.memo(format!("layers of graph {}", k), enc, task);
        }
    }
    fn enc_table(t: &RampTable<u32>) -> Vec<i64> {
        let mut v = vec![t.len() as i64];
        for k in 0..t.len() {
            v.push(-2);
            v.extend(t.entry_values(k).iter().map(|&x| x as i64));
        }
        v
    }
    fn disj(&self, g: &G, key: Option<String>, task: usize) {
        let what = "find_disjoint_subgraphs";
        let r = self.call(what, || trellis::disjoint::find_disjoint_subgraphs(&g.g));
        if let Ok(d) = &r {
            let t = &d.subgraphs;
            if self.is_main(what) {
                let mut got: Vec<Vec<u32>> = (0..t.len()).map(|k| t.entry_values(k).to_vec()).collect();
                for x in &mut got {
                    check!(!x.is_empty(), "groups", "an empty group was reported");
                    x.sort();
                }
                got.sort();
                let want = g.comps();
                if want.len() > 1 {
                    count(Ctr::probe_merge);
                }
                if got != *want {
                    let at = got.iter().zip(want).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
                    fail("groups", format!("{} groups reported, {} components; group {} is {:?}, component {:?}", got.len(), want.len(), at, short(got.get(at)), short(want.get(at))));
                }
                check!(t.num_values() == want.iter().map(|x| x.len()).sum::<usize>(), "groups", "{} vertices in the result", t.num_values());
            }
        }
        if let Some(k) = key {
            let enc = r.as_ref().map_or(vec![PANICKED], |d| Self::enc_table(&d.subgraphs));
            self.memo(format!("subgraphs of graph {}", k), enc, task);
        }
    }
    fn chains(&self, g: &G, key: Option<String>, task: usize) {
        let what = "find_chains";
        let r = self.call(what, || trellis::find_chains::find_chains(&g.g));
        if let Ok(t) = &r {
            if self.is_main(what) {
                let mut got: Vec<Vec<u32>> = (0..t.len()).map(|k| t.entry_values(k).to_vec()).collect();
                got.sort();
                let want = g.chains();
                if !want.is_empty() {
                    count(Ctr::probe_chain);
                }
                if got != *want {
                    let at = got.iter().zip(want).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
                    fail("chains", format!("{} chains reported, {} exist; chain {} is {:?}, should be {:?}", got.len(), want.len(), at, short(got.get(at)), short(want.get(at))));
                }
            }
        }
        if let Some(k) = key {
            let enc = r.as_ref().map_or(vec![PANICKED], Self::enc_table);
            self.memo(format!("chains of graph {}", k), enc, task);
        }
    }

    fn sp(&self, g: &G, key: Option<String>, line: &Line, task: usize) {
        let what = "find_shortest_path";
        let n = g.adj.len();
        let (from, to, flags, wmode, wseed) = (line.u(1), line.u(2), line.arg(3), line.arg(4), line.arg(5) as u64);
        let (from, to) = if n > 0 { (from % n, to % n) } else { (0, line.u(2) % 3) };
        let top: i64 = (i32::MAX as i64 - 1) / (n as i64 + 2);
        let weight = |u: usize, i: usize| -> i64 {
            let h = simrt::rng::mix(wseed << 40 ^ (u as u64) << 20 ^ i as u64) >> 8;
            let cap = match wmode {
                0 => 0,
                1 => 1,
                2 => 5,
                3 => 1000,
                // sums that no longer fit the type of the weights
                5 => return if h & 3 == 0 { h as i64 >> 2 & 3 } else { i32::MAX as i64 - (h as i64 >> 2 & 7) },
                _ => top,
            };
            (h % (cap.min(top) as u64 + 1)) as i64
        };
        let wadj: Vec<Vec<(u32, i64)>> = g.adj.iter().enumerate().map(|(u, l)| l.iter().enumerate().map(|(i, &v)| (v, weight(u, i))).collect()).collect();
        // labels: any i32
        let (mul, add) = match wseed % 3 {
            0 => (1i32, 0i32),
            1 => (-7_777_777, i32::MIN + 3),
            _ => (0x2545_F491u32 as i32, -5),
        };
        let label = |v: usize| -> i32 { (v as i32).wrapping_mul(mul).wrapping_add(add) };
        let back: BTreeMap<i32, usize> = (0..n).map(|v| (label(v), v)).collect();
        let (shuffled, doubled, nested, slow) = (flags & 1 != 0, flags & 2 != 0, flags & 4 != 0, flags & 8 != 0);
        let salt = (flags >> 4) as u64;
        let calls = Sim::new(0u64);
        let unknown = Sim::new(None);
        let deliver = |x: i32| -> Deliver {
            point(K::Cb);
            let nest = outside(|| {
                *calls.get() += 1;
                nested && *calls.get() % 5 == 0
            });
            if nest {
                reenter();
            }
            outside(|| {
                let mut v: Vec<(i32, i32)> = vec![];
                match back.get(&x) {
                    None => *unknown.get() = Some(x),
                    Some(&u) => {
                        let mut idx: Vec<usize> = (0..wadj[u].len()).collect();
                        let mut r = Rng::new(salt ^ (u as u64) << 8);
                        if shuffled {
                            count(Ctr::fault_reorder);
                            for i in (1..idx.len()).rev() {
                                idx.swap(i, r.usize(i + 1));
                            }
                        }
                        for i in idx {
                            let e = (label(wadj[u][i].0 as usize), wadj[u][i].1 as i32);
                            v.push(e);
                            if doubled && r.chance(1, 3) {
                                count(Ctr::fault_duplicate);
                                v.push(e);
                            }
                        }
                    }
                }
                Deliver { v, i: 0, slow }
            })
        };
        let (lf, lt) = (label(from), label(to));
        let r = self.call(what, || trellis::ortho::shortest_path::find_shortest_path(|x| deliver(x), lf, lt));
        let known = |v: i32| -> usize { back.get(&v).copied().unwrap_or(usize::MAX) };
        if self.is_main(what) {
            if let Some(x) = unknown.get() {
                if n > 0 {
                    fail("path", format!("the search asked for the edges of {}, which is not in the graph", x));
                }
            }
            let d = gm::dijkstra(&wadj, from);
            let want = if n == 0 { if from == to { Some(0) } else { None } } else { d[to] };
            match (&r, want) {
                (Ok(None), None) => count(Ctr::probe_unreachable),
                (Ok(None), Some(w)) => fail("path", format!("no path found from {} to {}, one of weight {} exists", from, to, w)),
                (Ok(Some(p)), None) => fail("path", format!("path {:?} found from {} to {}, none exists", short(Some(p)), from, to)),
                (Ok(Some(p)), Some(w)) => {
                    count(Ctr::probe_reachable);
                    check!(p.first() == Some(&lt) && p.last() == Some(&lf), "path", "path {:?} does not lead back from {} to {}", short(Some(p)), lt, lf);
                    let mut sum = 0;
                    for k in 1..p.len() {
                        let (a, b) = (known(p[k]), known(p[k - 1]));
                        let e = wadj.get(a).and_then(|l| l.iter().filter(|e| e.0 as usize == b).map(|e| e.1).min());
                        match e {
                            Some(x) => sum += x,
                            None => fail("path", format!("path {:?} uses an edge {} -> {} that does not exist", short(Some(p)), p[k], p[k - 1])),
                        }
                    }
                    check!(sum == w, "path", "path {:?} weighs {}, the least weight is {}", short(Some(p)), sum, w);
                }
                (Err(_), _) => {}
            }
        }
        if let Some(k) = key {
            let enc = match &r {
                Err(_) => vec![PANICKED],
                Ok(None) => vec![-1],
                Ok(Some(p)) => p.iter().map(|&x| x as i64).collect(),
            };
            let flags = flags & !(4 | 8); // nesting and slowness are no part of the input
            self.memo(format!("shortest path of graph {} {}->{} {} {} {}", k, from, to, flags, wmode, wseed), enc, task);
        }
    }

    fn view(&self, g: &G, key: Option<String>, which: usize, task: usize) {
        let main = self.is_main("view");
        let n = g.adj.len();
        let flat: Vec<(u32, u32)> = g.adj.iter().enumerate().flat_map(|(u, l)| l.iter().map(move |&v| (u as u32, v))).collect();
        let mut enc: Vec<i64> = vec![];
        match which {
            0 => {
                let r = self.call("view", || g.g.iter_edges_flattened().collect::<Vec<_>>());
                if let Ok(v) = &r {
                    check!(!main || *v == flat, "view", "the flattened edges are {:?}, should be {:?}", short(Some(v)), short(Some(&flat)));
                    enc = v.iter().flat_map(|x| [x.0 as i64, x.1 as i64]).collect();
                }
            }
            1 => {
                let r = self.call("view", || {
                    let mut v = vec![];
                    for (f, l) in g.g.iter_from_edges() {
                        v.push((f, l.to_vec()));
                    }
                    (v, g.g.num_verts(), g.g.num_edges(), (0..g.g.num_verts()).map(|x| g.g.edges_from(x as u32).to_vec()).collect::<Vec<_>>())
                });
                if let Ok((v, nv, ne, by)) = &r {
                    if main {
                        check!(*nv == n && *ne == flat.len(), "view", "{} vertices and {} edges reported, {} and {} exist", nv, ne, n, flat.len());
                        check!(v.len() == n && by.len() == n, "view", "{} vertices listed of {}", v.len(), n);
                        for u in 0..n {
                            check!(v[u].0 as usize == u && v[u].1 == g.adj[u], "view", "the edges of {} are listed as {:?}", u, v[u]);
                            check!(by[u] == g.adj[u], "view", "the edges from {} are {:?}, should be {:?}", u, by[u], g.adj[u]);
                        }
                    }
                    enc = by.iter().flat_map(|l| std::iter::once(-2).chain(l.iter().map(|&x| x as i64))).collect();
                }
            }
            2 | 3 => {
                let twice = which == 3;
                let r = self.call("view", || if twice { g.g.transpose().transpose() } else { g.g.transpose() });
                if let Ok(t) = &r {
                    if main {
                        let mut rev: Adj = vec![vec![]; n];
                        for &(a, b) in &flat {
                            if twice {
                                rev[a as usize].push(b);
                            } else {
                                rev[b as usize].push(a);
                            }
                        }
                        for l in &mut rev {
                            l.sort();
                        }
                        check!(t.num_verts() == n && t.num_edges() == flat.len(), "transpose", "{} vertices and {} edges, should be {} and {}", t.num_verts(), t.num_edges(), n, flat.len());
                        for v in 0..n {
                            check!(t.edges_from(v as u32) == &rev[v][..], "transpose", "vertex {} leads to {:?}, should be {:?}", v, short(Some(&t.edges_from(v as u32).to_vec())), short(Some(&rev[v])));
                        }
                    }
                    enc = Self::enc_table(&t.edges);
                }
            }
            4 | 5 | 6 => {
                let r = self.call("view", || match which {
                    4 => trellis::find_sources(&g.g.edges),
                    5 => trellis::find_sinks(&g.g.edges),
                    _ => trellis::find_referenced_edges(g.g.edges.all_values(), n),
                });
                if let Ok(v) = &r {
                    if main {
                        let mut hit = vec![false; n];
                        for x in &flat {
                            hit[x.1 as usize] = true;
                        }
                        let want: Vec<bool> = match which {
                            4 => hit.iter().map(|x| !x).collect(),
                            5 => g.adj.iter().map(|l| l.is_empty()).collect(),
                            _ => hit,
                        };
                        let name = ["sources", "sinks", "referenced targets"][which - 4];
                        check!(v.len() == n, "view", "{} {} for {} vertices", v.len(), name, n);
                        for u in 0..n {
                            check!(v[u] == want[u], "view", "{}: vertex {} is {}", name, u, v[u]);
                        }
                    }
                    enc = v.iter().map(|&x| x as i64).collect();
                }
            }
            _ => {
                let r = self.call("view", || (g.g.clone(), g.g == g.g.clone(), format!("{:?}", g.g).len()));
                if let Ok((c, same, len)) = &r {
                    if main {
                        check!(*same && *c == g.g, "view", "a copy of the graph differs from it");
                        for u in 0..n {
                            check!(c.edges_from(u as u32) == &g.adj[u][..], "view", "a copy's edges from {} differ", u);
                        }
                    }
                    enc = vec![*same as i64, *len as i64];
                }
            }
        }
        if let Some(k) = key {
            self.memo(format!("view {} of graph {}", which, k), enc, task);
        }
    }
    fn deg(&self, g: &G, key: Option<String>, preset: u16, task: usize) {
        let main = self.is_main("view");
        // there may be vertices that the edges do not know of
        let n = g.adj.len();
        let more = n + preset as usize % 3;
        let r = self.call("view", || {
            let plain = trellis::find_degree(g.g.edges.all_values(), more as u32);
            let mut d = vec![preset; more];
            let s = trellis::add_degree(g.g.edges.all_values(), &mut d);
            (plain, d, s)
        });
        if let Ok((plain, d, s)) = &r {
            if main {
                let mut want = vec![0usize; more];
                for l in &g.adj {
                    for &v in l {
                        want[v as usize] += 1;
                    }
                }
                let mut over = false;
                check!(plain.len() == more && d.len() == more, "degree", "{} degrees for {} vertices", plain.len(), more);
                for v in 0..more {
                    let w = (want[v] + preset as usize).min(65535);
                    over |= want[v] + preset as usize > 65535;
                    check!(plain[v] as usize == want[v].min(65535), "degree", "vertex {} has degree {}, reported {}", v, want[v], plain[v]);
                    check!(d[v] as usize == w, "degree", "{} edges added to a count of {} at vertex {} gave {}", want[v], preset, v, d[v]);
                }
                check!(*s == over, "degree", "saturation reported: {}, happened: {}", s, over);
                if over {
                    count(Ctr::probe_saturated);
                }
            }
        }
        if let Some(k) = key {
            let enc = r.as_ref().map_or(vec![PANICKED], |(p, d, s)| p.iter().chain(d).map(|&x| x as i64).chain(std::iter::once(*s as i64)).collect());
            self.memo(format!("degrees of graph {} from {}", k, preset), enc, task);
        }
    }

    /// A listing used up in the ways that iterators can be.
    fn drive(&self, g: &G, line: &Line) {
        const MOST: usize = 3000;
        let (start, limit, how) = (line.u(2), line.u(3), line.arg(4));
        let n = g.adj.len();
        let r = match line.arg(1) {
            0 => {
                if n == 0 {
                    return;
                }
                let start = start % n;
                let mut w = Walk::new(start);
                let mut want: Vec<u32> = std::iter::from_fn(|| w.next(&g.adj)).take(MOST + 1).collect();
                let endless = want.len() > MOST;
                want.truncate(MOST);
                sut(|| {
                    let it = trellis::traverse_depth_first_preorder(g.g.edges(), start as u32);
                    if endless {
                        walk("a depth-first traversal", it.take(MOST), &want, limit, how, |x| x)
                    } else {
                        walk("a depth-first traversal", it, &want, limit, how, |x| x)
                    }
                })
            }
            1 => {
                let want: Vec<(u32, u32)> = g.adj.iter().enumerate().flat_map(|(u, l)| l.iter().map(move |&v| (u as u32, v))).collect();
                sut(|| walk("the edge listing", g.g.iter_edges_flattened(), &want, limit, how, |x| x))
            }
            _ => {
                let want: Vec<(u32, &[u32])> = g.adj.iter().enumerate().map(|(u, l)| (u as u32, &l[..])).collect();
                sut(|| walk("the vertex listing", g.g.iter_from_edges(), &want, limit, how, |x| x))
            }
        };
        if let Err(Pan::Real(m)) = r {
            fail("panic", format!("a listing, used in the ways of iterators: {}", m));
        }
    }

    // ---- cursors ----
    fn cur_new(&self, gi: usize, kind: i64, start: usize) -> Option<Cur> {
        let g = &self.gs[gi];
        // the graphs outlive every task's cursors
        let gr: &'static Graph = unsafe { &*(&g.g as *const Graph) };
        let n = g.adj.len();
        let it = match kind {
            0 => {
                if n == 0 {
                    return None;
                }
                let start = start % n;
                let i = self.call("traverse_depth_first_preorder", || trellis::traverse_depth_first_preorder(gr.edges(), start as u32)).ok()?;
                It::Dfs(Box::new(i), Walk::new(start))
            }
            1 => It::Flat(Box::new(self.call("view", || gr.iter_edges_flattened()).ok()?), 0, 0, g.adj.iter().map(|l| l.len()).sum()),
            _ => It::From(Box::new(self.call("view", || gr.iter_from_edges()).ok()?), 0),
        };
        Some(Cur { g: gi, it, done: false, polls: 0 })
    }
    /// One poll (skip > 0: through `nth`). Returns false at the end.
    fn poll(&self, c: &mut Cur, skip: usize, enc: &mut Vec<i64>) -> bool {
        let a = &self.gs[c.g].adj;
        c.polls += 1;
        let at = c.polls;
        match &mut c.it {
            It::Dfs(it, w) => {
                let main = self.is_main("traverse_depth_first_preorder");
                let got = match sut(|| if skip > 0 { it.nth(skip) } else { it.next() }) {
                    Ok(x) => x,
                    Err(p) => {
                        check!(!main, "panic", "poll {} of a depth-first traversal: {}", at, p.text());
                        return false;
                    }
                };
                let mut want = None;
                for _ in 0..=skip {
                    want = w.next(a);
                    if want.is_none() {
                        break;
                    }
                }
                check!(!main || got == want, "walk", "poll {} of a depth-first traversal gave {:?}, should be {:?}", at, got, want);
                check!(!main || !c.done || got.is_none(), "walk", "an exhausted traversal went on with {:?}", got);
                enc.push(got.map_or(-1, |x| x as i64));
                c.done |= got.is_none();
                got.is_some()
            }
            It::Flat(it, u, i, left) => {
                let main = self.is_main("view");
                let rest = *left;
                let got = match sut(|| {
                    let h = it.size_hint();
                    (h, if skip > 0 { it.nth(skip) } else { it.next() })
                }) {
                    Ok(x) => x,
                    Err(p) => {
                        check!(!main, "panic", "poll {} of an edge listing: {}", at, p.text());
                        return false;
                    }
                };
                let ((lo, hi), got) = got;
                check!(!main || (lo <= rest && hi.map_or(true, |h| h >= rest)), "view", "an edge listing promises {}..{:?} edges, {} are left", lo, hi, rest);
                let mut want = None;
                for _ in 0..=skip {
                    while *u < a.len() && *i == a[*u].len() {
                        *u += 1;
                        *i = 0;
                    }
                    want = a.get(*u).map(|l| (*u as u32, l[*i]));
                    if want.is_none() {
                        break;
                    }
                    *i += 1;
                    *left -= 1;
                }
                check!(!main || got == want, "view", "poll {} of an edge listing gave {:?}, should be {:?}", at, got, want);
                enc.push(got.map_or(-1, |x| (x.0 as i64) << 32 | x.1 as i64));
                c.done |= got.is_none();
                got.is_some()
            }
            It::From(it, u) => {
                let main = self.is_main("view");
                let got = match sut(|| if skip > 0 { it.nth(skip) } else { it.next() }) {
                    Ok(x) => x,
                    Err(p) => {
                        check!(!main, "panic", "poll {} of a vertex listing: {}", at, p.text());
                        return false;
                    }
                };
                *u = (*u + skip).min(a.len());
                let want = a.get(*u).map(|l| (*u as u32, &l[..]));
                if want.is_some() {
                    *u += 1;
                }
                check!(!main || got == want, "view", "poll {} of a vertex listing gave {:?}, should be {:?}", at, got, want);
                enc.push(got.map_or(-1, |x| x.0 as i64 + x.1.len() as i64 * 1000));
                c.done |= got.is_none();
                got.is_some()
            }
        }
    }
}

struct Deliver {
    v: Vec<(i32, i32)>,
    i: usize,
    slow: bool,
}
impl Iterator for Deliver {
    type Item = (i32, i32);
    fn next(&mut self) -> Option<(i32, i32)> {
        point(K::Next);
        outside(|| {
            if self.slow {
                count(Ctr::fault_yield_in_callback);
            }
        });
        if self.slow {
            for _ in 0..3 {
                sched::hot();
            }
        }
        self.i += 1;
        self.v.get(self.i - 1).copied()
    }
}

fn short<T: std::fmt::Debug + Clone>(v: Option<&Vec<T>>) -> String {
    match v {
        None => "none".into(),
        Some(v) if v.len() <= 24 => format!("{:?}", v),
        Some(v) => format!("{:?}.. ({} in all)", &v[..24], v.len()),
    }
}

impl World for W {
    type Local = Local;
    fn new(plan: &Plan) -> Self {
        let mut prop = 16;
        let mut texts = vec![];
        for l in plan.iter().filter(|l| l.t == -1) {
            match l.kw.as_str() {
                "prop" => {
                    prop = l.arg(0);
                    *PROP.get() = prop;
                }
                "log" => setup_log(l, reenter),
                "text" => texts.push(l.a[1.min(l.a.len())..].iter().filter_map(|&c| char::from_u32(c as u32)).collect()),
                _ => {}
            }
        }
        if texts.is_empty() {
            texts.push("digraph { a -> \"b\" [x=1.5] }".to_string());
        }
        *SMALL.get() = Some(build(&vec![vec![1, 2], vec![3], vec![3], vec![], vec![3, 0]]));
        let read = gm::read(plan);
        let gs = read.values().map(|ed| {
            let a = gm::adj(ed);
            if ed.n == 0 {
                count(Ctr::probe_empty);
            }
            if ed.n > 300 {
                count(Ctr::probe_big);
            }
            G::new(build(&a), a)
        });
        W { prop, gs: gs.collect(), texts, memo: Sim::new(BTreeMap::new()), redo: Sim::new(vec![]) }
    }
    fn step(&self, l: &mut Local, line: &Line, task: usize) {
        match line.kw.as_str() {
            "loglevel" => return set_level(line.arg(0)),
            "stdout" => return set_stdout_mode(line.arg(0)),
            "env" => return simrt::interpose::set_env(line.arg(0)),
            "storm" => {
                l.times = line.u(0).min(3000);
                return;
            }
            "own_new" => {
                l.own = None;
                l.own_adj.clear();
                return;
            }
            "own_clear" => {
                if let Some(g) = l.own.as_mut() {
                    let _ = sut_ok("clearing", || g.edges_mut().clear());
                    l.own_adj.clear();
                }
                return;
            }
            "own_copy" => {
                let a = &self.gs[line.u(0) % self.gs.len()].adj;
                if a.len() <= 60 && a.iter().map(|l| l.len()).sum::<usize>() <= 400 {
                    let _ = sut_ok("building", || l.own = Some(build(a)));
                    l.own_adj = a.clone();
                }
                return;
            }
            "own_edit" => {
                // one edge is led elsewhere, in place
                let rows: Vec<usize> = (0..l.own_adj.len()).filter(|&k| !l.own_adj[k].is_empty()).collect();
                if let (Some(g), 2..=4) = (l.own.as_mut(), line.arg(2)) {
                    // several at once, so that what a careless fingerprint is made of stays the same
                    let n = l.own_adj.len() as i64;
                    let at: Vec<(usize, usize)> = rows.iter().flat_map(|&k| (0..l.own_adj[k].len()).map(move |i| (k, i))).collect();
                    let get = |p: (usize, usize)| l.own_adj[p.0][p.1] as i64;
                    if at.len() < 3 {
                        return;
                    }
                    let first = line.u(0) % (at.len() - 2);
                    let other = (first + 1 + line.u(1)) % at.len();
                    let new: Vec<((usize, usize), i64)> = match line.arg(2) {
                        2 => vec![(at[first], get(at[other])), (at[other], get(at[first]))],
                        3 => vec![(at[first], get(at[first]) + 1), (at[other], get(at[other]) - 1)],
                        _ => (0..3).map(|d| (at[first + d], get(at[first + d]) + if d == 1 { -2 } else { 1 })).collect(),
                    };
                    if first == other || new.iter().any(|x| x.1 < 0 || x.1 >= n) {
                        return;
                    }
                    let _ = sut_ok("changing edges", || {
                        for (p, v) in &new {
                            g.edges_mut().entry_values_mut(p.0)[p.1] = *v as u32;
                        }
                    });
                    for (p, v) in new {
                        l.own_adj[p.0][p.1] = v as u32;
                    }
                    return;
                }
                if let (Some(g), false) = (l.own.as_mut(), rows.is_empty()) {
                    let k = rows[line.u(0) % rows.len()];
                    let i = line.u(0) % l.own_adj[k].len();
                    let to = if line.arg(2) == 0 { line.u(1) % l.own_adj.len() } else { (k + 1 + line.u(1)).min(l.own_adj.len() - 1) } as u32;
                    let _ = sut_ok("changing an edge", || g.edges_mut().entry_values_mut(k)[i] = to);
                    l.own_adj[k][i] = to;
                }
                return;
            }
            "own_row" | "own_dag" => {
                if l.own_adj.len() > 200 {
                    return;
                }
                let g = l.own.get_or_insert_with(Graph::new);
                let base = if line.kw == "own_dag" { l.own_adj.len() as u32 + 1 } else { 0 };
                let row: Vec<u32> = line.a.iter().map(|x| base + x.unsigned_abs() as u32 % 40).collect();
                let _ = sut_ok("adding edges", || {
                    for &t in &row {
                        g.push_to(t);
                    }
                    g.finish_from();
                });
                l.own_adj.push(row);
                return;
            }
            "cur" => {
                let slot = line.u(0) % 3;
                if l.curs[slot].as_ref().map_or(false, |c| !c.done) {
                    count(Ctr::fault_cancel_abandon);
                }
                l.curs[slot] = self.cur_new(line.u(1) % self.gs.len(), line.arg(2), line.u(3));
                return;
            }
            "poll" | "nth" | "rest" | "drop" => {
                let slot = line.u(0) % 3;
                let Some(c) = l.curs[slot].as_mut() else { return };
                let mut enc = vec![];
                match line.kw.as_str() {
                    "poll" => {
                        for _ in 0..line.u(1).min(2000) {
                            self.poll(c, 0, &mut enc);
                        }
                    }
                    "nth" => {
                        self.poll(c, line.u(1).min(2000), &mut enc);
                    }
                    "rest" => {
                        for _ in 0..2500 + self.gs[c.g].adj.len() {
                            if !self.poll(c, 0, &mut enc) {
                                break;
                            }
                        }
                    }
                    _ => {
                        if !c.done {
                            count(Ctr::fault_cancel_abandon);
                        }
                        let c = l.curs[slot].take();
                        let _ = sut_ok("dropping a cursor", move || drop(c));
                    }
                }
                for x in enc.iter().take(32) {
                    note(*x as u64);
                }
                return;
            }
            "lex" => {
                let i = line.u(0) % self.texts.len();
                let t = &self.texts[i];
                let r = self.call("lexing", || {
                    let mut lx = dot_parser::lexer::Lexer::new(t);
                    let mut out = vec![];
                    let mut errs = 0;
                    for _ in 0..t.len() + 2 {
                        match lx.next() {
                            Some(tok) => out.push(format!("{:?}", tok)),
                            None if lx.errors().len() > errs => errs = lx.errors().len(),
                            None => break,
                        }
                    }
                    let mut s = String::new();
                    let _ = lx.write_errors(&mut s);
                    out.push(s);
                    out
                });
                let enc = r.map_or(vec![PANICKED], |v| v.iter().map(|s| hash_str(s) as i64).collect());
                self.memo(format!("tokens of text {}", i), enc, task);
                return self.quiet("lexing");
            }
            _ => {}
        }
        let gi = line.u(0) % (self.gs.len() + 1);
        let mut own = None;
        let (g, key) = if gi < self.gs.len() {
            if sched::num_tasks() > 1 {
                count(Ctr::probe_shared_read);
            }
            (&self.gs[gi], Some(self.gs[gi].sig.clone()))
        } else {
            let n = l.own_adj.iter().flatten().map(|&x| x as usize + 1).max().unwrap_or(0).max(l.own_adj.len());
            let mut gr = l.own.take().unwrap_or_else(Graph::new);
            while l.own_adj.len() < n {
                l.own_adj.push(vec![]);
                let _ = sut_ok("adding vertices", || gr.finish_from());
            }
            let o = own.insert(G::new(gr, l.own_adj.clone()));
            (&*o, Some(o.sig.clone()))
        };
        if self.prop == 16 && line.kw != "curs" && self.redo.get().len() < 48 && g.adj.len() + g.adj.iter().map(|l| l.len()).sum::<usize>() < 3000 {
            self.redo.get().push((line.clone(), g.adj.clone()));
        }
        match line.kw.as_str() {
            "topo" | "topor" | "layer" | "disj" | "chains" | "sp" | "view" | "deg" => {
                let size = g.adj.len() + g.adj.iter().map(|l| l.len()).sum::<usize>();
                let times = std::mem::take(&mut l.times).min(20_000 / (size + 20)).max(1);
                for _ in 0..times {
                    self.analyse(g, key.clone(), line, task);
                }
            }
            "walk" => self.drive(g, line),
            "curs" => {
                if gi < self.gs.len() {
                    let k = self.gs[gi].sig.as_str();
                    if let Some(mut c) = self.cur_new(gi, line.arg(1), line.u(2)) {
                        let mut enc = vec![];
                        for _ in 0..line.u(3).min(2000) {
                            self.poll(&mut c, 0, &mut enc);
                        }
                        self.memo(format!("walk {:?} of graph {}", &line.a[1..], k), enc, task);
                    }
                }
            }
            _ => {}
        }
        self.quiet(&line.kw);
        if let Some(o) = own {
            // the task's own graph is unchanged
            if self.is_main(main_name(self.prop)) || self.prop == 16 {
                same(&o.g, &o.adj, "the analysed graph");
            }
            l.own = Some(o.g);
        }
    }
    fn end_task(&self, l: Local, _t: usize) {
        let _ = sut_ok("dropping cursors", move || drop(l));
    }
    fn finish(self) {
        // the last ones first, each on a copy made just for it
        while let Some((line, adj)) = self.redo.get().pop() {
            disarm();
            count(Ctr::probe_redone);
            let g = G::new(build(&adj), adj);
            let key = Some(g.sig.clone());
            self.analyse(&g, key, &line, 99);
            self.quiet(&line.kw);
        }
        for (i, g) in self.gs.iter().enumerate() {
            same(&g.g, &g.adj, &format!("graph {}", i));
        }
        if self.prop == 16 {
            use std::io::Write;
            simrt::interpose::set_stdout(simrt::interpose::StdoutMode::Ok);
            let _ = sut(|| std::io::stdout().flush());
            self.quiet("some analysis");
        }
    }
}
fn main_name(prop: i64) -> &'static str {
    match prop {
        8 => "topo_sort",
        9 => "create_layer_map",
        10 => "find_disjoint_subgraphs",
        11 => "find_chains",
        12 => "find_shortest_path",
        13 => "traverse_depth_first_preorder",
        18 => "view",
        _ => "",
    }
}
fn same(g: &Graph, a: &Adj, what: &str) {
    check!(g.num_verts() == a.len(), "input-changed", "{} now has {} vertices instead of {}", what, g.num_verts(), a.len());
    for u in 0..a.len() {
        check!(g.edges_from(u as u32) == &a[u][..], "input-changed", "{}'s edges from {} are now {:?} instead of {:?}", what, u, g.edges_from(u as u32), a[u]);
    }
}
/// Installs the log sink; `again` is what it does when it calls back into the library.
pub fn setup_log(l: &Line, again: fn()) {
    let _ = log::set_logger(&SIMLOG);
    set_level(l.arg(0));
    *REENTER.get() = l.u(1) as u64;
    *FORMAT.get() = l.arg(2) != 0;
    *AGAIN.get() = Some(again);
}
pub fn set_level(n: i64) {
    log::set_max_level(match n {
        0 => log::LevelFilter::Off,
        1 => log::LevelFilter::Error,
        2 => log::LevelFilter::Warn,
        3 => log::LevelFilter::Info,
        4 => log::LevelFilter::Debug,
        _ => log::LevelFilter::Trace,
    });
}
fn set_stdout_mode(n: i64) {
    use simrt::interpose::*;
    set_stdout(match n {
        1 => StdoutMode::Short,
        2 => StdoutMode::Eintr,
        3 => StdoutMode::Enospc,
        4 => StdoutMode::Epipe,
        _ => StdoutMode::Ok,
    });
}
