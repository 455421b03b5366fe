//! C17, C19: drawing into path receivers that fail or call back, and shortest paths over a weight
//! callback that is slow, fails or calls back.
use crate::check;
use crate::fw::*;
use std::cell::Cell;
use std::collections::BTreeMap;
use std::f64::consts::PI;
use trellis::common::ellipse::{ellipticWedge, PathTarget};
use trellis::pathplan::array2::{allocArray, Array2};
use trellis::pathplan::shortestpth::{shortestPath, shortestPathGeneric};
use trellis::polyline::Ppolyline_t;
use trellis::vec2::Vec2;

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C17", own: &[],
            gen: gen17,
            run: |p| drive::<W17>(p),
            quick: 35_000,
            op_budget: 400_000_000,
            real: &["trellis::common::ellipse (all that ellipticWedge uses)", "trellis::polyline and its PathTarget implementation", "libm as linked"],
            stub: &["allocator: SimAlloc", "path receiver: simulated, may panic at any command, dawdle or draw itself", "caller threads: simulated schedule"],
        },
        Prop {
            id: "C19", own: &[],
            gen: gen19,
            run: |p| drive::<W19>(p),
            quick: 85_000,
            op_budget: 150_000_000,
            real: &["trellis::pathplan::shortestpth", "trellis::pathplan::array2"],
            stub: &["allocator: SimAlloc", "weight callback: simulated, may panic, dawdle or search itself", "caller threads: simulated schedule"],
        },
    ]
}

// ---- C17 -----------------------------------------------------------------------------------------
/// Sweeps that are not a multiple of a millionth of a radian.
const SWEEPS: [f64; 6] = [2.0 * PI, PI, PI / 2.0, 3.0 * PI / 2.0, PI / 4.0, PI / 180.0];

fn gen17(r: &mut Rng, _t: &Tier) -> Plan {
    let mut p = vec![];
    let tasks = *r.pick(&[1usize, 1, 2, 3]);
    gen_env(r, &mut p, tasks);
    if tasks > 1 {
        p.push(Line::new(-1, "sched", &[*r.pick(&[0i64, 400, 3000, 20_000]), *r.pick(&[0i64, 10, 60]), 300]));
    }
    let mut shapes = vec![];
    for _ in 0..1 + r.usize(4) {
        let a = 10f64.powi(r.range(1, 8) as i32) as i64 * r.range(1, 9);
        let b = match r.usize(5) {
            0 => a,
            1 => (a / r.range(2, 1000)).max(10),
            2 => (a.saturating_mul(r.range(2, 1000))).min(1_000_000_000),
            3 => (a / r.range(2, 6)).max(10),
            _ => (a * r.range(2, 6)).min(1_000_000_000),
        };
        let top = *r.pick(&[0i64, 100, 1_000_000]);
        let l1 = match r.usize(4) {
            0 => 0,
            1 => {
                let top = *r.pick(&[20_000_000, 20_000_000, 2_000_000_000]);
                r.range(-top, top)
            }
            _ => r.range(-7_000_000, 7_000_000),
        };
        let (sw, named) = if r.chance(1, 2) { (0, r.range(1, SWEEPS.len() as i64)) } else { (r.range(1000, 6_282_000), 0) };
        let (sw, named) = if r.chance(1, 30) { (0, 0) } else { (sw, named) };
        // a start angle may itself be a multiple of a named sweep
        let turns = if r.chance(1, 3) { r.range(-9, 9) } else { 0 };
        let k = if r.chance(1, 6) { *r.pick(&[-200, -60, -20, -8, 8, 20, 60, 200]) } else { 0 };
        shapes.push(vec![r.range(-top, top), r.range(-top, top), a, b, l1, sw, named, turns, 0, k]);
    }
    for task in 0..tasks {
        for _ in 0..r.range(1, 5) {
            if r.chance(1, 2) {
                let k = if r.chance(1, 4) { r.range(1, 70) } else { r.range(1, 6) };
                p.push(Line::new(task as i32, "inj", &[K::Sink as i64, k]));
            }
            if r.chance(1, 3) {
                p.push(Line::new(task as i32, "pcmd", &[if r.chance(1, 12) { r.range(60, 400) } else { r.range(1, 12) }, r.range(0, 1 << 40)]));
                continue;
            }
            gen_times(r, &mut p, task as i32, 400);
            let mut a = r.pick(&shapes).clone();
            a[8] = if r.chance(1, 4) { r.range(1, 12) } else { 0 };
            p.push(Line::new(task as i32, *r.pick(&["draw", "draw", "poly"]), &a));
        }
    }
    p
}

type P2 = (f64, f64);
#[derive(Clone, Copy, PartialEq, Debug)]
enum Cmd {
    Move(P2),
    Line(P2),
    Curve(P2, P2, P2),
    End(bool),
}
#[derive(Clone, Copy, PartialEq, Debug)]
struct Shape {
    c: P2,
    a: f64,
    b: f64,
    l1: f64,
    l2: f64,
    full: bool,
}
fn shape(l: &Line) -> Shape {
    let named = l.u(6).min(SWEEPS.len());
    let sw = if named > 0 { SWEEPS[named - 1] } else { l.arg(5).clamp(0, 6_282_000) as f64 / 1e6 };
    let l1 = l.arg(4) as f64 / 1e6 + l.arg(7) as f64 * (PI / 4.0);
    // enlarged by a power of two
    let k = (2.0f64).powi(l.arg(9).clamp(-200, 200) as i32);
    Shape {
        c: (l.arg(0) as f64 / 1e3 * k, l.arg(1) as f64 / 1e3 * k),
        a: l.arg(2).clamp(10, 1_000_000_000) as f64 / 1e3 * k,
        b: l.arg(3).clamp(10, 1_000_000_000) as f64 / 1e3 * k,
        l1,
        l2: l1 + sw,
        full: named == 1,
    }
}

struct Rec<'a> {
    got: Vec<Cmd>,
    poly: Option<&'a mut Ppolyline_t>,
    /// Draws another shape while receiving this command.
    nest: usize,
    other: Shape,
    nested: Option<Vec<Cmd>>,
}
fn pt(v: Vec2<f64>) -> P2 {
    (v.x, v.y)
}
impl<'a> Rec<'a> {
    fn take(&mut self, c: Cmd) {
        point(K::Sink);
        outside(|| {
            note(self.got.len() as u64);
            self.got.push(c)
        });
        if self.nest == self.got.len() {
            outside(|| count(Ctr::fault_reentrant_call));
            let mut r = outside(|| Rec { got: vec![], poly: None, nest: 0, other: self.other, nested: None });
            draw(self.other, &mut r);
            self.nested = Some(r.got);
        }
    }
}
impl<'a> PathTarget for Rec<'a> {
    fn move_to(&mut self, p: Vec2<f64>) {
        self.take(Cmd::Move(pt(p)));
        if let Some(x) = self.poly.as_mut() {
            x.move_to(p)
        }
    }
    fn line_to(&mut self, p: Vec2<f64>) {
        self.take(Cmd::Line(pt(p)));
        if let Some(x) = self.poly.as_mut() {
            x.line_to(p)
        }
    }
    fn curve_to(&mut self, p1: Vec2<f64>, p2: Vec2<f64>, p3: Vec2<f64>) {
        self.take(Cmd::Curve(pt(p1), pt(p2), pt(p3)));
        if let Some(x) = self.poly.as_mut() {
            x.curve_to(p1, p2, p3)
        }
    }
    fn end_path(&mut self, close: bool) {
        self.take(Cmd::End(close));
        if let Some(x) = self.poly.as_mut() {
            x.end_path(close)
        }
    }
}
fn draw(s: Shape, r: &mut Rec<'_>) {
    ellipticWedge(Vec2 { x: s.c.0, y: s.c.1 }, s.a, s.b, s.l1, s.l2, r)
}

struct W17 {
    /// What was drawn for a shape before, by anybody.
    memo: Sim<BTreeMap<String, Vec<Cmd>>>,
}
impl W17 {
    fn judge(&self, s: Shape, got: &[Cmd]) {
        let n = got.len();
        let show = |k: usize| format!("command {} of {} for {:?}: {:?}", k, n, s, got.get(k));
        let finite = |p: P2| p.0.is_finite() && p.1.is_finite();
        for (k, c) in got.iter().enumerate() {
            let ok = match *c {
                Cmd::Move(p) => k == 0 && finite(p),
                Cmd::Line(p) => k > 0 && k + 1 < n && finite(p),
                Cmd::Curve(a, b, p) => k > 1 && k + 1 < n && finite(a) && finite(b) && finite(p),
                Cmd::End(close) => k + 1 == n && close,
            };
            check!(ok, "protocol", "{}", show(k));
        }
        check!(n >= 4 && matches!(got[n - 1], Cmd::End(_)), "protocol", "only {} commands for {:?}: {:?}", n, s, got);
        let size = s.a.max(s.b) + s.c.0.abs() + s.c.1.abs();
        let tol = 1e-9 * size;
        let Cmd::Move(m) = got[0] else { unreachable!() };
        check!((m.0 - s.c.0).abs() <= tol && (m.1 - s.c.1).abs() <= tol, "geometry", "the path does not start at the centre: {}", show(0));
        let rad = |p: P2| (((p.0 - s.c.0) / s.a).powi(2) + ((p.1 - s.c.1) / s.b).powi(2)).sqrt();
        let par = |p: P2| f64::atan2((p.1 - s.c.1) / s.b, (p.0 - s.c.0) / s.a);
        let on_ray = |p: P2, l: f64| {
            let (dx, dy) = (p.0 - s.c.0, p.1 - s.c.1);
            (dx * l.sin() - dy * l.cos()).abs() <= tol && dx * l.cos() + dy * l.sin() > 0.0
        };
        let Cmd::Line(first) = got[1] else { fail("protocol", format!("the centre is not joined to the arc by a straight segment: {}", show(1))) };
        let mut cur = first;
        let mut sweep = 0.0;
        for k in 1..n - 1 {
            let (c1, c2, p) = match got[k] {
                Cmd::Line(p) => (cur, p, p),
                Cmd::Curve(a, b, p) => (a, b, p),
                _ => unreachable!(),
            };
            check!((rad(p) - 1.0).abs() * s.a.min(s.b) <= tol, "geometry", "a segment does not end on the ellipse: {}", show(k));
            if k == 1 {
                continue;
            }
            let mut d = par(p) - par(cur);
            if d < -1e-6 {
                d += 2.0 * PI;
            }
            sweep += d;
            check!(d < PI, "geometry", "a segment goes backwards or around: {}", show(k));
            for t in [0.25f64, 0.5, 0.75] {
                let u = 1.0 - t;
                let f = |a: f64, b: f64, c: f64, d: f64| u * u * u * a + 3.0 * u * u * t * b + 3.0 * u * t * t * c + t * t * t * d;
                let q = (f(cur.0, c1.0, c2.0, p.0), f(cur.1, c1.1, c2.1, p.1));
                check!((rad(q) - 1.0).abs() <= 1e-3, "geometry", "a segment leaves the ellipse by {}: {}", rad(q) - 1.0, show(k));
            }
            cur = p;
        }
        check!(on_ray(first, s.l1), "geometry", "the arc does not start at the start angle: {}", show(1));
        check!(on_ray(cur, s.l2), "geometry", "the arc does not end at the end angle: {}", show(n - 2));
        let eta = |l: f64| f64::atan2(l.sin() / s.b, l.cos() / s.a);
        let mut want = eta(s.l2) - eta(s.l1);
        while want < -1e-9 {
            want += 2.0 * PI;
        }
        let ok = if s.full { (sweep - 2.0 * PI).abs() < 1e-3 } else { (sweep - want).abs() < 1e-3 };
        check!(ok, "geometry", "the arc of {:?} sweeps {} instead of {}", s, sweep, if s.full { 2.0 * PI } else { want });
    }
    fn recall(&self, s: Shape, got: &[Cmd]) {
        let key = format!("{:?}", s);
        if let Some(old) = self.memo.get().get(&key) {
            check!(old == got, "repeat", "{:?} was drawn differently: {} and {} commands", s, old.len(), got.len());
        } else {
            self.memo.get().insert(key, got.to_vec());
        }
    }
}
impl World for W17 {
    type Local = Ppolyline_t;
    fn new(_plan: &Plan) -> Self {
        W17 { memo: Sim::new(BTreeMap::new()) }
    }
    fn step(&self, poly: &mut Ppolyline_t, line: &Line, _task: usize) {
        if line.kw == "pcmd" {
            return self.commands(poly, line);
        }
        let s = shape(line);
        let other = Shape { l1: s.l2, l2: s.l2 + 1.0, full: false, ..s };
        let is_poly = line.kw == "poly";
        loop {
            let clean = any_fired();
            let mut rec = Rec { got: vec![], poly: if is_poly { Some(&mut *poly) } else { None }, nest: line.u(8), other, nested: None };
            let r = sut(|| draw(s, &mut rec));
            let (got, nested) = (rec.got, rec.nested);
            if let Some(x) = nested {
                self.judge(other, &x);
                self.recall(other, &x);
            }
            match r {
                Ok(()) => {
                    self.judge(s, &got);
                    self.recall(s, &got);
                    if is_poly {
                        self.polyline(s, &got, poly);
                    }
                    if clean {
                        count(Ctr::probe_retry_after_fault);
                    }
                    return;
                }
                Err(Pan::Real(m)) => fail("panic", format!("drawing {:?} panicked: {}", s, m)),
                Err(Pan::Injected(_)) => {
                    // it saw a part of what an undisturbed receiver sees
                    disarm();
                    let mut rec = Rec { got: vec![], poly: None, nest: 0, other, nested: None };
                    if sut_ok("drawing again", || draw(s, &mut rec)).is_some() {
                        self.judge(s, &rec.got);
                        self.recall(s, &rec.got);
                        check!(rec.got.starts_with(&got), "repeat", "an interrupted drawing of {:?} was not a part of the whole: {:?}", s, got);
                    }
                }
            }
        }
    }
    fn end_task(&self, l: Ppolyline_t, _t: usize) {
        let _ = sut_ok("dropping a polyline", move || drop(l));
    }
}
/// The points a polyline holds after one more command.
fn receive(w: &mut Vec<P2>, c: Cmd) {
    let line = |w: &mut Vec<P2>, p: P2| {
        let c = *w.last().unwrap();
        w.extend([c, p, p]);
    };
    match c {
        Cmd::Move(p) => *w = vec![p],
        Cmd::Line(p) => line(w, p),
        Cmd::Curve(a, b, c) => w.extend([a, b, c]),
        Cmd::End(true) => {
            let p = w[0];
            line(w, p)
        }
        Cmd::End(false) => (),
    }
}
impl W17 {
    fn polyline(&self, s: Shape, got: &[Cmd], poly: &Ppolyline_t) {
        let mut want: Vec<P2> = vec![];
        for c in got {
            receive(&mut want, *c);
        }
        let have: Vec<P2> = poly.ps.iter().map(|p| pt(*p)).collect();
        check!(have == want, "polyline", "the polyline of {:?} has {} points, {} were drawn", s, have.len(), want.len());
    }
    /// Draws by hand, onwards from what the polyline holds.
    fn commands(&self, poly: &mut Ppolyline_t, line: &Line) {
        let mut r = Rng::new(line.arg(1) as u64);
        let mut want: Vec<P2> = poly.ps.iter().map(|p| pt(*p)).collect();
        for _ in 0..line.u(0).min(400) {
            let (x, y, z) = {
                let near = want.last().copied().unwrap_or((0.0, 0.0));
                let mut q = || if r.chance(1, 5) { near } else { (r.range(-50, 50) as f64 / 4.0, r.range(-50, 50) as f64 / 4.0) };
                (q(), q(), q())
            };
            let c = match r.usize(8) {
                _ if want.is_empty() => Cmd::Move(x),
                0 => Cmd::Move(x),
                1..=3 => Cmd::Line(x),
                4 | 5 => Cmd::Curve(x, y, z),
                k => Cmd::End(k == 6),
            };
            outside(|| note(want.len() as u64));
            let v = |p: P2| Vec2 { x: p.0, y: p.1 };
            let r = sut(|| match c {
                Cmd::Move(p) => poly.move_to(v(p)),
                Cmd::Line(p) => poly.line_to(v(p)),
                Cmd::Curve(a, b, p) => poly.curve_to(v(a), v(b), v(p)),
                Cmd::End(close) => poly.end_path(close),
            });
            if let Err(Pan::Real(m)) = r {
                fail("panic", format!("a polyline panicked in {:?}: {}", c, m))
            }
            let before = want.clone();
            receive(&mut want, c);
            let have: Vec<P2> = poly.ps.iter().map(|p| pt(*p)).collect();
            check!(have == want, "polyline", "{:?} turned {:?} into {:?}", c, before, have);
        }
    }
}

// ---- C19 -----------------------------------------------------------------------------------------
fn gen19(r: &mut Rng, t: &Tier) -> Plan {
    let mut p = vec![];
    let tasks = *r.pick(&[1usize, 1, 2, 3]);
    gen_env(r, &mut p, tasks);
    if tasks > 1 {
        p.push(Line::new(-1, "sched", &[*r.pick(&[0i64, 50, 400, 3000]), *r.pick(&[0i64, 10, 60]), 300]));
    }
    let nm = 1 + r.usize(3);
    let mut sizes = vec![];
    for m in 0..nm {
        let v = match r.usize(8) {
            0 => 1,
            1 => 2,
            7 => r.range(20, if t.thorough { 90 } else { 40 }),
            _ => r.range(3, 12),
        };
        let large = r.chance(1, 250);
        let v = if large { *r.pick(&[127i64, 128, 129, 255, 256, 257, 258, 300]) } else { v };
        sizes.push(v);
        let wmax = *r.pick(&[1i64, 3, 10, 1000, 20_000_000, 1 << 36]);
        let round = r.chance(1, 12);
        let dens = r.range(1, 10) as u64;
        // labels in random order, so that no shape is tied to the numbering
        let mut lab: Vec<i64> = (0..v).collect();
        for i in (1..lab.len()).rev() {
            lab.swap(i, r.usize(i + 1));
        }
        let kind = if large { *r.pick(&[0usize, 2, 3]) } else { r.usize(4) };
        p.push(Line::new(-1, "mat", &[m as i64, v]));
        for i in 0..v {
            for j in 0..i {
                let w = match kind {
                    // a long path with costly short cuts
                    0 if i == j + 1 => r.range(1, 3),
                    0 if r.chance(1, if large { 90 } else { 6 }) => (i - j) * 4 + r.range(0, 3),
                    1 if r.chance(dens, 10) => r.range(1, wmax),
                    2 if i / 3 == j / 3 || r.chance(1, if large { 90 } else { 12 }) => r.range(1, wmax),
                    3 if r.chance(2, v.max(2) as u64) => r.range(1, wmax),
                    _ => 0,
                };
                // at the bounds of what fits an integer
                let w = if round && w > 0 && r.chance(1, 3) { *r.pick(&[i32::MAX as i64, i32::MAX as i64 + 1, u32::MAX as i64]) } else { w };
                if w > 0 {
                    p.push(Line::new(-1, "w", &[m as i64, lab[i as usize], lab[j as usize], w]));
                }
            }
        }
        p.push(Line::new(-1, "unit", &[m as i64, r.range(0, 2), *r.pick(&[0i64, 0, 0, 0, 0, -1072, -1050, -1000, -60, -20, 10, 31, 40, 300, 900])]));
    }
    for task in 0..tasks {
        let mut own: Option<usize> = None;
        let mut last = (0, 0);
        for _ in 0..r.range(1, 10) {
            if r.chance(1, 3) {
                p.push(Line::new(task as i32, "inj", &[K::Cb as i64, r.range(1, 40)]));
            }
            let m = r.usize(nm + 1);
            if m == nm {
                // the task's own: a copy of another one, or changed where it is
                if own.is_none() || r.chance(1, 5) {
                    let k = r.usize(nm);
                    own = Some(k);
                    p.push(Line::new(task as i32, "copy", &[k as i64]));
                } else {
                    for _ in 0..r.usize(4) {
                        let v = sizes[own.unwrap()];
                        let top = *r.pick(&[3i64, 40]);
                        let w = if r.chance(1, 4) { 0 } else { r.range(1, top) };
                        p.push(Line::new(task as i32, "edit", &[r.range(0, v - 1), r.range(0, v - 1), w]));
                    }
                }
            }
            let v = sizes[if m == nm { own.unwrap() } else { m }];
            let to = if r.chance(1, 6) { -1 } else { r.range(0, v - 1) };
            let nest = if r.chance(1, 5) { r.range(1, 30) } else { 0 };
            // often the same question as before
            let (root, to) = if r.chance(1, 3) { last } else { (r.range(0, v - 1), to) };
            last = (root, to);
            gen_times(r, &mut p, task as i32, 500);
            p.push(Line::new(task as i32, *r.pick(&["search", "search", "matrix"]), &[m as i64, root, to, nest]));
        }
    }
    p
}

struct Mat {
    v: usize,
    /// In these units (powers of two), so that sums are exact. 0: no edge.
    w: Vec<i64>,
    unit: f64,
    dense: Array2<f64>,
}
impl Mat {
    fn get(&self, i: usize, j: usize) -> i64 {
        self.w[i * self.v + j]
    }
}
struct W19 {
    m: Vec<Mat>,
}
/// What the callback is asked is answered from here.
fn ask(m: &Mat, calls: &Cell<usize>, nest: usize, bad: &Cell<Option<(usize, usize)>>, dads: &Cell<Vec<i32>>, i: usize, j: usize) -> f64 {
    point(K::Cb);
    calls.set(calls.get() + 1);
    if i >= m.v || j > i {
        bad.set(Some((i, j)));
        return 0.0;
    }
    if nest > 0 && calls.get() == nest {
        outside(|| count(Ctr::fault_reentrant_call));
        let d = shortestPathGeneric(0, -1, m.v, |i, j| m.dense[(i.max(j), i.min(j))]);
        dads.set(d);
    }
    m.get(i, j) as f64 * m.unit
}

impl W19 {
    fn judge(&self, m: &Mat, root: usize, to: i64, dad: &[i32]) {
        let v = m.v;
        check!(dad.len() == v, "path", "{} predecessors for {} vertices", dad.len(), v);
        // the reference: relaxation until nothing changes
        let mut d: Vec<Option<i64>> = vec![None; v];
        d[root] = Some(0);
        let mut again = true;
        while again {
            again = false;
            for i in 0..v {
                let Some(x) = d[i] else { continue };
                for j in 0..v {
                    let w = m.get(i.max(j), i.min(j));
                    if i != j && w > 0 && d[j].map_or(true, |y| x + w < y) {
                        d[j] = Some(x + w);
                        again = true;
                    }
                }
            }
        }
        let targets: Vec<usize> = if to < 0 { (0..v).collect() } else { vec![to as usize] };
        for t in targets {
            let mut at = t;
            let mut len = 0;
            let mut steps = 0;
            loop {
                let up = dad[at];
                if up == -1 {
                    break;
                }
                check!(up >= 0 && (up as usize) < v && up as usize != at, "path", "the predecessor of {} is {} among {}", at, up, v);
                let w = m.get(at.max(up as usize), at.min(up as usize));
                check!(w > 0, "path", "the path to {} uses {} to {}, which are not joined", t, up, at);
                len += w;
                at = up as usize;
                steps += 1;
                check!(steps <= v, "path", "the predecessors of {} run in a circle: {:?}", t, dad);
            }
            match d[t] {
                Some(want) => {
                    check!(at == root, "path", "the path to {} ends at {}, not at {}: {:?}", t, at, root, dad);
                    check!(len == want, "path", "the path to {} has length {}, the least is {} (times {})", t, len, want, m.unit);
                }
                None => check!(at != root, "path", "a path from {} to {} was found, but there is none: {:?}", root, t, dad),
            }
            note(len as u64);
        }
    }
}
/// Two to the power of `e`, down to the smallest number there is (times 0.25).
fn scale(e: i32) -> f64 {
    let half = e / 2;
    (2.0f64).powi(half) * (2.0f64).powi(e - half)
}
impl World for W19 {
    type Local = Option<Mat>;
    fn new(plan: &Plan) -> Self {
        let mut m: BTreeMap<i64, (usize, Vec<i64>, f64)> = BTreeMap::new();
        for l in plan.iter().filter(|l| l.t == -1) {
            match l.kw.as_str() {
                "mat" => {
                    let v = l.u(1).clamp(1, 400);
                    m.insert(l.arg(0), (v, vec![0; v * v], 0.25));
                }
                "w" => {
                    if let Some((v, w, _)) = m.get_mut(&l.arg(0)) {
                        let (i, j) = (l.u(1).max(l.u(2)), l.u(1).min(l.u(2)));
                        if i < *v && i != j {
                            w[i * *v + j] = l.arg(3).clamp(0, 1 << 40);
                        }
                    }
                }
                "unit" => {
                    if let Some(x) = m.get_mut(&l.arg(0)) {
                        x.2 = if l.arg(1) == 0 { 1.0 } else { 0.25 } * scale(l.arg(2).clamp(-1072, 900) as i32);
                    }
                }
                _ => {}
            }
        }
        if m.is_empty() {
            m.insert(0, (1, vec![0], 1.0));
        }
        let m = m.into_values().map(|(v, w, unit)| {
            let mut dense: Array2<f64> = allocArray(v, v % 3);
            for i in 0..v {
                for j in 0..v {
                    // the upper triangle is not to be used
                    dense[(i, j)] = if j <= i { w[i * v + j] as f64 * unit } else { 0.25 * unit };
                }
            }
            Mat { v, w, unit, dense }
        });
        W19 { m: m.collect() }
    }
    fn step(&self, l: &mut Option<Mat>, line: &Line, _task: usize) {
        match line.kw.as_str() {
            "copy" => {
                let m = &self.m[line.u(0) % self.m.len()];
                match l {
                    // in place, if it is as large
                    Some(o) if o.v == m.v => {
                        o.unit = m.unit;
                        o.w.copy_from_slice(&m.w);
                        for i in 0..m.v {
                            for j in 0..m.v {
                                o.dense[(i, j)] = m.dense[(i, j)];
                            }
                        }
                    }
                    _ => *l = Some(Mat { v: m.v, w: m.w.clone(), unit: m.unit, dense: sut_ok("copying a table", || m.dense.clone()).unwrap_or_default() }),
                }
                return;
            }
            "edit" => {
                if let Some(o) = l {
                    let (i, j) = (line.u(0) % o.v, line.u(1) % o.v);
                    let (i, j) = (i.max(j), i.min(j));
                    if i != j && o.dense.vec.len() > 0 {
                        let w = line.arg(2).clamp(0, 1000);
                        o.w[i * o.v + j] = w;
                        o.dense[(i, j)] = w as f64 * o.unit;
                    }
                }
                return;
            }
            _ => {}
        }
        let k = line.u(0) % (self.m.len() + 1);
        let m = match (self.m.get(k), &*l) {
            (Some(m), _) => m,
            (_, Some(o)) => o,
            _ => &self.m[0],
        };
        let root = line.u(1) % m.v;
        let to = if line.arg(2) < 0 { -1 } else { (line.u(2) % m.v) as i64 };
        if line.kw == "matrix" {
            if let Some(d) = sut_ok("shortestPath", || shortestPath(root as i32, to as i32, m.v, &m.dense)) {
                self.judge(m, root, to, &d);
            }
            return;
        }
        for again in [false, true] {
            let calls = Cell::new(0);
            let bad = Cell::new(None);
            let dads = Cell::new(vec![]);
            let nest = line.u(3);
            let r = sut_ok("shortestPathGeneric", || shortestPathGeneric(root as i32, to as i32, m.v, |i, j| ask(m, &calls, nest, &bad, &dads, i, j)));
            if let Some((i, j)) = bad.get() {
                fail("path", format!("the weight of ({}, {}) was asked for among {} vertices; only i >= j exist", i, j, m.v));
            }
            let nested = dads.take();
            if !nested.is_empty() {
                self.judge(m, 0, -1, &nested);
            }
            if let Some(d) = r {
                self.judge(m, root, to, &d);
                if again {
                    count(Ctr::probe_retry_after_fault);
                }
                return;
            }
            disarm();
        }
    }
}
