//! C20, C21, C23: a path planning service. Obstacle maps that are opened once and asked by several
//! tasks, shortest paths inside rooms, and splines fitted to such paths. All coordinates are small
//! integers, so that the reference geometry below is exact.
use crate::check;
use crate::fw::*;
use crate::graphs::{setup_log, set_level};
use std::collections::BTreeMap;
use trellis::pathplan::route::Proutespline;
use trellis::pathplan::shortest::{Pshortestpath, ShortestPathError};
use trellis::pathplan::vis::vconfig_t;
use trellis::pathplan::{cvt, shortestpth, visibility, Pedge_t, POLYID_NONE, POLYID_UNKNOWN};
use trellis::polyline::Ppoly_t;
use trellis::vec2::Vec2;

const STUB: &[&str] = &["allocator: SimAlloc", "log sink: SimLog", "caller threads: simulated schedule"];

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C20", own: &[],
            gen: |r, t| gen(r, t, 20),
            run: |p| drive::<W>(p),
            quick: 40_000,
            op_budget: 400_000_000,
            real: &["trellis::pathplan::{cvt, visibility, vis, in_poly, shortestpth, array2}", "trellis::polyline, trellis::vec2"],
            stub: STUB,
        },
        Prop {
            id: "C21", own: &[],
            gen: |r, t| gen(r, t, 21),
            run: |p| drive::<W>(p),
            quick: 55_000,
            op_budget: 400_000_000,
            real: &["trellis::pathplan::shortest", "trellis::polyline, trellis::vec2", "log facade"],
            stub: STUB,
        },
        Prop {
            id: "C23", own: &[],
            gen: |r, t| gen(r, t, 23),
            run: |p| drive::<W>(p),
            quick: 45_000,
            op_budget: 400_000_000,
            real: &["trellis::pathplan::{route, solvers}", "trellis::polyline, trellis::vec2", "log facade", "libm as linked"],
            stub: STUB,
        },
    ]
}

// ---- exact geometry ------------------------------------------------------------------------------
type P = (i64, i64);
fn cross(a: P, b: P, c: P) -> i64 {
    ((b.0 - a.0) * (c.1 - a.1) - (b.1 - a.1) * (c.0 - a.0)).signum()
}
fn dot(a: P, b: P, c: P) -> i64 {
    (b.0 - a.0) * (c.0 - a.0) + (b.1 - a.1) * (c.1 - a.1)
}
/// c lies on the segment from a to b, ends included.
fn on(a: P, b: P, c: P) -> bool {
    cross(a, b, c) == 0 && dot(c, a, b) <= 0
}
fn strictly_between(a: P, b: P, c: P) -> bool {
    c != a && c != b && on(a, b, c)
}
/// The open segments cross in one point.
fn crosses(a: P, b: P, c: P, d: P) -> bool {
    cross(a, b, c) * cross(a, b, d) < 0 && cross(c, d, a) * cross(c, d, b) < 0
}
fn touch(a: P, b: P, c: P, d: P) -> bool {
    crosses(a, b, c, d) || on(a, b, c) || on(a, b, d) || on(c, d, a) || on(c, d, b)
}
fn edges(p: &[P]) -> impl Iterator<Item = (P, P)> + '_ {
    (0..p.len()).map(move |i| (p[i], p[(i + 1) % p.len()]))
}
fn area(p: &[P]) -> i64 {
    edges(p).map(|(a, b)| a.0 * b.1 - a.1 * b.0).sum()
}
#[derive(PartialEq, Clone, Copy, Debug)]
enum Where {
    In,
    On,
    Out,
}
fn locate(p: &[P], q: P) -> Where {
    let mut inside = false;
    for (a, b) in edges(p) {
        if on(a, b, q) {
            return Where::On;
        }
        if (a.1 > q.1) != (b.1 > q.1) {
            let (lo, hi) = if a.1 < b.1 { (a, b) } else { (b, a) };
            if cross(lo, hi, q) > 0 {
                inside = !inside;
            }
        }
    }
    if inside { Where::In } else { Where::Out }
}
fn simple(p: &[P]) -> bool {
    let n = p.len();
    if n < 3 || area(p) == 0 {
        return false;
    }
    let e: Vec<(P, P)> = edges(p).collect();
    for i in 0..n {
        if e[i].0 == e[i].1 {
            return false;
        }
        for j in i + 1..n {
            let next = j == i + 1;
            let prev = i == 0 && j == n - 1;
            let bad = if next {
                on(e[i].0, e[i].1, e[j].1) || on(e[j].0, e[j].1, e[i].0)
            } else if prev {
                on(e[j].0, e[j].1, e[i].1) || on(e[i].0, e[i].1, e[j].0)
            } else {
                touch(e[i].0, e[i].1, e[j].0, e[j].1)
            };
            if bad {
                return false;
            }
        }
    }
    true
}
fn convex(p: &[P]) -> bool {
    let n = p.len();
    n >= 3 && (0..n).all(|i| cross(p[i], p[(i + 1) % n], p[(i + 2) % n]) < 0)
}
fn general(p: &[P]) -> bool {
    let n = p.len();
    (0..n).all(|i| (0..i).all(|j| (0..j).all(|k| cross(p[i], p[j], p[k]) != 0)))
}
fn far(a: P, b: P) -> f64 {
    let (x, y) = ((a.0 - b.0) as f64, (a.1 - b.1) as f64);
    (x * x + y * y).sqrt()
}
fn dbl(a: P) -> P {
    (a.0 * 2, a.1 * 2)
}
fn mid2(a: P, b: P) -> P {
    (a.0 + b.0, a.1 + b.1)
}
/// Where the plane of the plan lies in that of the library: moved by so much, then enlarged by a
/// power of two, so that all coordinates are exact.
static PLACE: Sim<(f64, i64, i64)> = Sim::new((1.0, 0, 0));
fn v(a: P) -> Vec2<f64> {
    let (k, x, y) = *PLACE.get();
    Vec2 { x: (a.0 + x) as f64 * k, y: (a.1 + y) as f64 * k }
}
fn back(c: &Vec2<f64>) -> (f64, f64) {
    let (k, x, y) = *PLACE.get();
    (c.x / k - x as f64, c.y / k - y as f64)
}
fn unit() -> f64 {
    PLACE.get().0
}
/// Least distances from node s over a symmetric matrix (0: no edge).
fn least(w: &[Vec<f64>], s: usize) -> (Vec<f64>, Vec<usize>) {
    let n = w.len();
    let mut d = vec![f64::INFINITY; n];
    let mut up = vec![usize::MAX; n];
    d[s] = 0.0;
    let mut again = true;
    while again {
        again = false;
        for i in 0..n {
            for j in 0..n {
                if w[i][j] > 0.0 && d[i] + w[i][j] < d[j] - 1e-9 {
                    d[j] = d[i] + w[i][j];
                    up[j] = i;
                    again = true;
                }
            }
        }
    }
    (d, up)
}

// ---- plans ---------------------------------------------------------------------------------------
/// A closed walk of n corners that does not cross itself (usually), in a box.
fn gen_poly(r: &mut Rng, lo: P, hi: P, n: usize) -> Vec<P> {
    let px = |r: &mut Rng| (r.range(lo.0, hi.0), r.range(lo.1, hi.1));
    match r.usize(5) {
        // a corridor that winds from left to right
        0 => {
            let k = (n / 2).max(2);
            let mut xs: Vec<i64> = (0..k).map(|_| r.range(lo.0, hi.0)).collect();
            xs.sort();
            let gap = ((hi.1 - lo.1) / 6).max(1);
            let mid: Vec<i64> = xs.iter().map(|_| r.range(lo.1 + gap, (hi.1 - gap).max(lo.1 + gap))).collect();
            let mut p: Vec<P> = (0..k).map(|i| (xs[i] + r.range(0, 1), mid[i] - r.range(1, gap))).collect();
            p.extend((0..k).rev().map(|i| (xs[i] + r.range(0, 1), mid[i] + r.range(1, gap))));
            p
        }
        // a comb or a spiral of right angles
        1 => {
            let w = ((hi.0 - lo.0) / (n as i64 + 1)).max(1);
            let mut p = vec![(lo.0, lo.1)];
            let mut x = lo.0;
            for i in 0..n as i64 / 2 {
                x += w;
                let a = r.range(lo.1 + 1, hi.1 - 1);
                if i % 2 == 0 {
                    p.push((x, lo.1));
                    p.push((x + r.range(0, w - 1), a));
                } else {
                    p.push((x, a));
                    p.push((x, lo.1));
                }
            }
            p.push((x + w, lo.1));
            p.push((x + w, hi.1));
            p.push((lo.0, hi.1));
            p
        }
        // star shaped around the middle
        2 => {
            let c = ((lo.0 + hi.0) / 2, (lo.1 + hi.1) / 2);
            let mut p: Vec<P> = (0..n).map(|_| px(r)).filter(|q| *q != c).collect();
            p.sort_by(|a, b| {
                let f = |q: &P| f64::atan2((q.1 - c.1) as f64, (q.0 - c.0) as f64);
                f(a).partial_cmp(&f(b)).unwrap()
            });
            p
        }
        // a box or a triangle
        3 => {
            let (a, b) = (px(r), px(r));
            if r.chance(1, 3) { vec![a, b, px(r)] } else { vec![a, (b.0, a.1), b, (a.0, b.1)] }
        }
        // random corners, crossings undone one by one
        _ => {
            let mut p: Vec<P> = (0..n).map(|_| px(r)).collect();
            for _ in 0..60 {
                let n = p.len();
                let mut found = None;
                'out: for i in 0..n {
                    for j in i + 2..n {
                        if crosses(p[i], p[i + 1], p[j], p[(j + 1) % n]) {
                            found = Some((i + 1, j));
                            break 'out;
                        }
                    }
                }
                match found {
                    Some((i, j)) => p[i..=j].reverse(),
                    None => break,
                }
            }
            p
        }
    }
}
fn put(p: &mut Plan, t: i32, kw: &str, head: &[i64], poly: &[P]) {
    let mut a = head.to_vec();
    a.extend(poly.iter().flat_map(|q| [q.0, q.1]));
    p.push(Line::new(t, kw, &a));
}

fn gen(r: &mut Rng, t: &Tier, prop: i64) -> Plan {
    let mut p = vec![];
    let tasks = *r.pick(&[1usize, 1, 2, 3]);
    gen_env(r, &mut p, tasks);
    p.push(Line::new(-1, "prop", &[prop]));
    if r.chance(1, 3) {
        let k = match prop {
            20 => *r.pick(&[0, 0, -5, -1, 1, 8, 26, 40, 60]),
            21 => *r.pick(&[0, 0, -40, -12, -1, 1, 8, 26, 40, 60]),
            _ => *r.pick(&[0, 0, 1, 4, 8]),
        };
        let top = *r.pick(if prop == 23 { &[0i64, 10, 1 << 12] } else { &[0i64, 10, 3000, 1 << 22] });
        p.push(Line::new(-1, "place", &[k, r.range(-top, top), r.range(-top, top)]));
    }
    if tasks > 1 {
        p.push(Line::new(-1, "sched", &[*r.pick(&[0i64, 50, 400, 3000, 20_000]), *r.pick(&[0i64, 10, 60]), 300]));
    }
    let level = *r.pick(&[0i64, 0, 4, 5]);
    p.push(Line::new(-1, "log", &[level, *r.pick(&[0i64, 0, 0, 1, 3]), r.range(0, 1)]));
    let nm = 1 + r.usize(3);
    let mut boxes: Vec<(P, P, Vec<P>)> = vec![];
    for m in 0..nm as i64 {
        let top = if prop == 20 { *r.pick(&[8i64, 20, 20, 100, 1000]) } else { *r.pick(&[20i64, 60, 200, 1000, 5000]) };
        let many = r.chance(1, if t.thorough { 30 } else { 250 });
        let top = if many { *r.pick(&[400i64, 3000, 45_000]) } else { top };
        let off = (r.range(-top, top), r.range(-top, top));
        let (lo, hi) = (off, (off.0 + top, off.1 + top));
        let mut corners = vec![];
        if prop == 20 {
            let only_convex = r.chance(1, 3);
            p.push(Line::new(-1, "map", &[m]));
            for _ in 0..if many { r.usize(60) } else { r.usize(if t.thorough { 14 } else { 9 }) } {
                let s = (top / if many { 12 } else { *r.pick(&[2i64, 3, 3, 5]) }).max(2);
                let a = (r.range(lo.0, hi.0), r.range(lo.1, hi.1));
                let b = (a.0 + s, a.1 + s);
                let n = if only_convex { 3 + r.usize(2) } else { *r.pick(&[1usize, 2, 3, 4, 4, 5, 6, 8, 10]) };
                let q = if n < 3 {
                    (0..n).map(|_| (r.range(a.0, b.0), r.range(a.1, b.1))).collect()
                } else if only_convex && r.chance(2, 3) {
                    let c = (r.range(a.0, b.0), r.range(a.1, b.1));
                    vec![a, (b.0, a.1), (b.0, c.1), (c.0, b.1), (a.0, b.1)]
                } else {
                    gen_poly(r, a, b, n)
                };
                corners.extend(&q);
                put(&mut p, -1, "ob", &[m], &q);
            }
        } else {
            // a very large one
            if m == 0 && r.chance(1, if t.thorough { 400 } else { 1200 }) {
                let n = *r.pick(&[100i64, 126, 127, 128, 129, 131, 200, 254, 256, 258, 260, 300]);
                let (round, flat) = (r.chance(1, 2), *r.pick(&[1.0f64, 0.6]));
                let q: Vec<P> = (0..n)
                    .map(|i| {
                        let a = (i as f64 + 0.3) * 2.0 * std::f64::consts::PI / n as f64;
                        let f = if round { 1.0 } else { r.range(300, 1000) as f64 / 1000.0 };
                        ((45_000.0 * f * a.cos()) as i64, (45_000.0 * f * flat * a.sin()) as i64)
                    })
                    .collect();
                if ok_room(&q) {
                    corners = q;
                }
            }
            // several tries: a walk that crosses itself, or has three corners on a line, is not taken
            for i in 0..if corners.is_empty() { 40 } else { 0 } {
                let mut n = *r.pick(&[3usize, 4, 5, 6, 7, 8, 10, 12, 14, if t.thorough { 30 } else { 18 }]);
                if many && i < 30 {
                    n = 24 + r.usize(60);
                }
                let mut q = gen_poly(r, lo, hi, n);
                if r.chance(1, 2) {
                    let j = (top / 20).max(1);
                    for c in q.iter_mut() {
                        *c = (c.0 + r.range(-j, j), c.1 + r.range(-j, j));
                    }
                }
                if ok_room(&q) && (q.len() > 5 || i > 30) {
                    corners = q;
                    break;
                }
            }
            if corners.is_empty() {
                corners = vec![lo, (hi.0, lo.1 + 1), (hi.0 - 1, hi.1)];
            }
            if r.chance(1, 2) {
                corners.reverse();
            }
            let k = r.usize(corners.len());
            corners.rotate_left(k);
            put(&mut p, -1, "room", &[m], &corners);
            if prop == 23 && r.chance(1, 2) {
                // more barriers: straight up, straight across, and some of no length
                let mut bars = vec![];
                for _ in 0..r.range(1, 6) {
                    let a = (r.range(lo.0, hi.0), r.range(lo.1, hi.1));
                    let b = (r.range(lo.0, hi.0), r.range(lo.1, hi.1));
                    bars.push(a);
                    bars.push(*r.pick(&[b, b, (a.0, b.1), (b.0, a.1), a]));
                }
                if r.chance(1, 25) {
                    // and hundreds of short ones
                    let (w, h) = ((hi.0 - lo.0) / 20 + 1, (hi.1 - lo.1) / 20 + 1);
                    for _ in 0..*r.pick(&[100i64, 127, 128, 129, 200, 255, 256, 257, 300]) {
                        let a = (r.range(lo.0, hi.0), r.range(lo.1, hi.1));
                        bars.push(a);
                        bars.push((a.0 + r.range(-w, w), a.1 + r.range(-h, h)));
                    }
                    for _ in 0..r.usize(4) {
                        bars.extend([(r.range(lo.0, hi.0), r.range(lo.1, hi.1)), (r.range(lo.0, hi.0), r.range(lo.1, hi.1))]);
                    }
                }
                put(&mut p, -1, "bars", &[m], &bars);
            }
        }
        boxes.push((lo, hi, corners));
    }
    for task in 0..tasks {
        let tk = task as i32;
        let own = r.chance(1, 4);
        if own && prop == 20 {
            p.push(Line::new(tk, "own", &[r.usize(nm) as i64]));
        }
        for _ in 0..r.range(1, 12) {
            if r.chance(1, 12) {
                p.push(Line::new(tk, "loglevel", &[*r.pick(&[0i64, 4, 5])]));
            }
            if level > 0 && prop != 20 && r.chance(1, 4) {
                p.push(Line::new(tk, "inj", &[K::Log as i64, r.range(1, 4)]));
            }
            gen_times(r, &mut p, tk, 500);
            let m = r.usize(nm);
            let (lo, hi, cs) = &boxes[m];
            let mut pick = |r: &mut Rng| -> P {
                match r.usize(5) {
                    // near or at a corner
                    0 if !cs.is_empty() => {
                        let c = *r.pick(cs);
                        (c.0 + r.range(-1, 1), c.1 + r.range(-1, 1))
                    }
                    // between two corners
                    1 | 2 if !cs.is_empty() => {
                        let (a, b, c) = (*r.pick(cs), *r.pick(cs), *r.pick(cs));
                        ((a.0 + b.0 + c.0) / 3, (a.1 + b.1 + c.1) / 3)
                    }
                    _ => (r.range(lo.0 - 2, hi.0 + 2), r.range(lo.1 - 2, hi.1 + 2)),
                }
            };
            let (mut a, mut b) = (pick(r), pick(r));
            if prop != 20 && r.chance(9, 10) {
                // most points are inside
                for _ in 0..20 {
                    if locate(cs, a) == Where::Out {
                        a = pick(r);
                    }
                    if locate(cs, b) == Where::Out {
                        b = pick(r);
                    }
                }
            }
            let mut m = m as i64;
            if own && prop == 20 && r.chance(1, 2) {
                m = -1;
            }
            let line = match prop {
                20 if r.chance(1, 1200) => {
                    // hundreds of obstacles, or more
                    let k = match r.usize(12) {
                        0 => *r.pick(&[4097i64, 21_846, 65_537, 66_000]),
                        1 => r.range(1000, 3000),
                        _ => *r.pick(&[63i64, 64, 65, 85, 86, 127, 128, 129, 170, 254, 255, 256, 257, 300]),
                    };
                    Line::new(tk, "crowd", &[k, r.below(1 << 40) as i64, *r.pick(&[1i64, 12, 17, 40, 300])])
                }
                20 => match r.usize(10) {
                    0 if r.chance(1, 3) => Line::new(tk, "open", &[m.max(0)]),
                    0 if own && r.chance(1, 2) => Line::new(tk, "own", &[m.max(0)]),
                    0 | 1 if own => {
                        let d = *r.pick(&[1i64, 3, 30, 300]);
                        Line::new(tk, "shift", &[0, r.range(0, 8), r.range(-d, d), r.range(-d, d)])
                    }
                    0 => {
                        let d = *r.pick(&[1i64, 3, 30, 300]);
                        Line::new(tk, "move", &[m.max(0), r.range(0, 8), r.range(-d, d), r.range(-d, d)])
                    }
                    1 | 2 => Line::new(tk, "see", &[m, a.0, a.1, r.range(0, 9)]),
                    3 => Line::new(tk, "hit", &[m, a.0, a.1]),
                    4 | 5 => Line::new(tk, "direct", &[m, a.0, a.1, b.0, b.1]),
                    _ => Line::new(tk, "route", &[m, a.0, a.1, b.0, b.1]),
                },
                21 => Line::new(tk, if own { *r.pick(&["ownpath", "ownpath", "duppath"]) } else { "path" }, &[m, a.0, a.1, b.0, b.1]),
                _ => {
                    let mut ev = |r: &mut Rng| if r.chance(1, 2) { (0, 0) } else { (r.range(-9, 9), r.range(-9, 9)) };
                    let (e, f) = (ev(r), ev(r));
                    if r.chance(1, 4) {
                        // any polyline, barriers anywhere
                        let k = 2 + r.usize(5);
                        let pts: Vec<P> = (0..k).map(|_| (r.range(lo.0, hi.0), r.range(lo.1, hi.1))).collect();
                        let mut l = Line::new(tk, if own { "ownfree" } else { "free" }, &[m, e.0, e.1, f.0, f.1]);
                        l.a.extend(pts.iter().flat_map(|q| [q.0, q.1]));
                        l
                    } else {
                        Line::new(tk, if own { "ownspline" } else { "spline" }, &[m, a.0, a.1, b.0, b.1, e.0, e.1, f.0, f.1])
                    }
                }
            };
            p.push(line);
        }
    }
    p
}
fn ok_room(p: &[P]) -> bool {
    simple(p) && general(p)
}
fn points(a: &[i64]) -> Vec<P> {
    a.chunks_exact(2).map(|c| (c[0].clamp(-100_000, 100_000), c[1].clamp(-100_000, 100_000))).collect()
}

// ---- the world -----------------------------------------------------------------------------------
struct Map {
    polys: Vec<Vec<P>>,
    all: Vec<P>,
    /// Reference: which corners see each other, with their distances.
    vis: Vec<Vec<f64>>,
    convex: bool,
    conf: Sim<Option<vconfig_t>>,
}
impl Map {
    fn new(cands: &[Vec<P>]) -> Map {
        let mut polys: Vec<Vec<P>> = vec![];
        for c in cands {
            let mut c = c.clone();
            let fine = match c.len() {
                0 => false,
                1 => true,
                2 => c[0] != c[1],
                _ => simple(&c),
            };
            let apart = fine && polys.iter().all(|q| !edges(q).any(|(a, b)| edges(&c).any(|(d, e)| touch(a, b, d, e))) && locate(q, c[0]) == Where::Out && locate(&c, q[0]) == Where::Out);
            if apart {
                // obstacles are given clockwise
                if area(&c) > 0 {
                    c.reverse();
                }
                polys.push(c);
            }
        }
        let all: Vec<P> = polys.iter().flatten().copied().collect();
        let convex = polys.iter().all(|q| convex(q));
        if all.len() > 100 {
            count(Ctr::probe_big);
        }
        for _ in &polys {
            count(Ctr::probe_obstacles);
        }
        let mut m = Map { polys, all, vis: vec![], convex, conf: Sim::new(None) };
        let n = m.all.len();
        m.vis = vec![vec![0.0; n]; n];
        for i in 0..n {
            for j in 0..i {
                if m.clear(&[], m.all[i], m.all[j]) {
                    count(Ctr::probe_visible_pair);
                    let d = far(m.all[i], m.all[j]);
                    m.vis[i][j] = d;
                    m.vis[j][i] = d;
                } else {
                    count(Ctr::probe_hidden_pair);
                }
            }
        }
        m
    }
    /// Nothing that is not ignored lies between a and b.
    fn clear(&self, ignore: &[i32], a: P, b: P) -> bool {
        for (k, q) in self.polys.iter().enumerate() {
            if ignore.contains(&(k as i32)) {
                continue;
            }
            let beside = |f: fn(&P) -> i64| q.iter().all(|c| f(c) < f(&a).min(f(&b))) || q.iter().all(|c| f(c) > f(&a).max(f(&b)));
            if beside(|c| c.0) || beside(|c| c.1) {
                continue;
            }
            if q.iter().any(|c| strictly_between(a, b, *c)) || edges(q).any(|(c, d)| crosses(a, b, c, d)) {
                return false;
            }
            let big: Vec<P> = q.iter().map(|c| dbl(*c)).collect();
            if q.len() > 2 && locate(&big, mid2(a, b)) == Where::In {
                return false;
            }
        }
        true
    }
    /// The obstacle around a point; None if the point lies on the edge of one.
    fn home(&self, q: P) -> Option<i32> {
        for (k, p) in self.polys.iter().enumerate() {
            match locate(p, q) {
                Where::In => return Some(k as i32),
                Where::On => return None,
                Where::Out => {}
            }
        }
        Some(POLYID_NONE)
    }
    fn sees(&self, home: i32, p: P) -> Vec<f64> {
        let mut res = vec![];
        for (k, q) in self.polys.iter().enumerate() {
            for c in q {
                res.push(if k as i32 != home && self.clear(&[home], p, *c) { far(p, *c) } else { 0.0 });
            }
        }
        res
    }
    fn open(&self) -> Option<vconfig_t> {
        let polys: Vec<Ppoly_t> = self.polys.iter().map(|q| Ppoly_t { ps: q.iter().map(|c| v(*c)).collect() }).collect();
        let refs: Vec<&Ppoly_t> = polys.iter().collect();
        sut_ok("Pobsopen", || cvt::Pobsopen(&refs))
    }
    /// This map with one obstacle elsewhere.
    fn moved(&self, l: &Line) -> Option<Map> {
        let k = l.u(1) % self.polys.len().max(1);
        let by = (l.arg(2).clamp(-1000, 1000), l.arg(3).clamp(-1000, 1000));
        let mut polys = self.polys.clone();
        for c in polys.get_mut(k)?.iter_mut() {
            *c = (c.0 + by.0, c.1 + by.1);
        }
        let moved = Map::new(&polys);
        (moved.polys.len() == polys.len()).then_some(moved)
    }
    fn show(&self) -> String {
        let n = self.polys.len();
        format!("{:?}{}", &self.polys[..n.min(40)], if n > 40 { format!(" and {} more", n - 40) } else { String::new() })
    }
    fn judge(&self, c: &vconfig_t) {
        let n = self.all.len();
        check!(c.N == n && c.P.len() == n && c.Npoly == self.polys.len(), "map", "the map has {} corners of {} obstacles, not {} of {}", c.N, c.Npoly, n, self.polys.len());
        for i in 0..n {
            check!(c.P[i] == v(self.all[i]), "map", "corner {} is {:?}, not {:?}", i, c.P[i], self.all[i]);
            for j in 0..n {
                same(c.vis[(i, j)], self.vis[i][j], || format!("corners {} {:?} and {} {:?} of {:?}", i, self.all[i], j, self.all[j], self.polys));
            }
        }
    }
}
fn same(have: f64, want: f64, what: impl Fn() -> String) {
    let have = have / unit();
    check!((have - want).abs() <= 1e-9 * (1.0 + want), "visible", "the distance in sight of {} is {}, it should be {} (0: out of sight)", what(), have, want);
}
struct Room {
    p: Vec<P>,
    /// Further barriers, for lines that are not confined to the room.
    bars: Vec<(P, P)>,
    poly: Ppoly_t,
}
impl Room {
    /// The segment stays within the room (its edges included) and meets no corner on the way.
    fn clear(&self, a: P, b: P) -> bool {
        if self.p.iter().any(|c| strictly_between(a, b, *c)) || edges(&self.p).any(|(c, d)| crosses(a, b, c, d)) {
            return false;
        }
        let big: Vec<P> = self.p.iter().map(|c| dbl(*c)).collect();
        a == b || locate(&big, mid2(a, b)) != Where::Out
    }
    fn within(&self, a: P, b: P) -> bool {
        // cut at the corners on the way
        let mut s: Vec<P> = self.p.iter().copied().filter(|c| strictly_between(a, b, *c)).collect();
        s.push(a);
        s.push(b);
        s.sort_by_key(|c| dot(a, b, *c));
        s.windows(2).all(|w| self.clear(w[0], w[1]))
    }
    fn shortest(&self, a: P, b: P) -> Option<(f64, Vec<P>)> {
        let mut all = self.p.clone();
        all.push(a);
        all.push(b);
        let n = all.len();
        let mut w = vec![vec![0.0; n]; n];
        for i in 0..n {
            for j in 0..i {
                if all[i] != all[j] && self.clear(all[i], all[j]) {
                    w[i][j] = far(all[i], all[j]);
                    w[j][i] = w[i][j];
                }
            }
        }
        if a == b {
            return Some((0.0, vec![a]));
        }
        // a corner at the very place of an end point is the end point
        let s = all.iter().position(|c| *c == a).unwrap();
        let e = all.iter().position(|c| *c == b).unwrap();
        let (d, up) = least(&w, s);
        if d[e].is_infinite() {
            return None;
        }
        let mut path = vec![b];
        let mut at = e;
        while at != s {
            at = up[at];
            path.push(all[at]);
        }
        path.reverse();
        Some((d[e], path))
    }
}
struct W {
    maps: Vec<Map>,
    rooms: Vec<Room>,
    memo: Sim<BTreeMap<String, Vec<(f64, f64)>>>,
}
static PROP: Sim<i64> = Sim::new(0);
/// The log sink plans a path itself.
fn reenter() {
    outside(|| count(Ctr::fault_reentrant_call));
    let poly = outside(|| Ppoly_t { ps: [(0, 0), (9, 1), (8, 7), (4, 2), (1, 8)].iter().map(|c| v(*c)).collect() });
    match *PROP.get() {
        21 => {
            let _ = Pshortestpath(&poly, &[v((7, 5)), v((1, 6))]);
        }
        23 => {
            let mut out = Ppoly_t::default();
            let mut evs = [Vec2 { x: 1.0, y: 0.0 }, Vec2 { x: 0.0, y: 1.0 }];
            let e = [Pedge_t { a: v((4, 2)), b: v((1, 8)) }];
            let _ = Proutespline(&e, &poly, &mut evs, &mut out);
        }
        _ => {}
    }
}
/// What a task has for itself, changed in place.
#[derive(Default)]
struct Local {
    out: Ppoly_t,
    map: Option<(Map, vconfig_t)>,
    room: Ppoly_t,
    bars: Vec<Pedge_t>,
    line: Ppoly_t,
}
impl World for W {
    type Local = Local;
    fn new(plan: &Plan) -> Self {
        let mut maps: BTreeMap<i64, Vec<Vec<P>>> = BTreeMap::new();
        let mut rooms = BTreeMap::new();
        let mut bars: BTreeMap<i64, Vec<(P, P)>> = BTreeMap::new();
        for l in plan.iter().filter(|l| l.t == -1) {
            let rest = &l.a[1.min(l.a.len())..];
            match l.kw.as_str() {
                "prop" => *PROP.get() = l.arg(0),
                "place" => {
                    let top = if *PROP.get() == 23 { 1 << 12 } else { 1 << 22 };
                    *PLACE.get() = ((2.0f64).powi(l.arg(0).clamp(-40, 60) as i32), l.arg(1).clamp(-top, top), l.arg(2).clamp(-top, top));
                }
                "log" => setup_log(l, reenter),
                "map" => {
                    maps.entry(l.arg(0)).or_default();
                }
                "ob" => maps.entry(l.arg(0)).or_default().push(points(rest)),
                "bars" => bars.entry(l.arg(0)).or_default().extend(points(rest).chunks_exact(2).map(|c| (c[0], c[1]))),
                "room" => {
                    let q = points(rest);
                    if ok_room(&q) {
                        if q.len() > 24 {
                            count(Ctr::probe_big);
                        }
                        rooms.insert(l.arg(0), q);
                    }
                }
                _ => {}
            }
        }
        if maps.is_empty() {
            maps.insert(0, vec![]);
        }
        if rooms.is_empty() {
            rooms.insert(0, vec![(0, 0), (9, 1), (8, 7)]);
        }
        W {
            maps: maps.values().map(|m| Map::new(m)).collect(),
            rooms: rooms.into_iter().map(|(k, p)| Room { poly: Ppoly_t { ps: p.iter().map(|c| v(*c)).collect() }, p, bars: bars.remove(&k).unwrap_or_default() }).collect(),
            memo: Sim::new(BTreeMap::new()),
        }
    }
    fn step(&self, own: &mut Local, l: &Line, _task: usize) {
        match l.kw.as_str() {
            "loglevel" => set_level(l.arg(0)),
            "path" | "ownpath" | "duppath" => self.path(l, own),
            "spline" | "free" | "ownspline" | "ownfree" => self.spline(l, own),
            "own" => {
                let m = Map::new(&self.maps[l.u(0) % self.maps.len()].polys);
                let old = own.map.take();
                let _ = sut_ok("dropping a map", move || drop(old));
                if let Some(c) = m.open() {
                    m.judge(&c);
                    own.map = Some((m, c));
                }
            }
            "shift" => {
                // an obstacle is moved, and the visibility of the same map is worked out again
                let Some((m, c)) = own.map.as_mut() else { return };
                let Some(moved) = m.moved(l) else { return };
                for (have, want) in c.P.iter_mut().zip(&moved.all) {
                    *have = v(*want);
                }
                if sut_ok("visibility", || visibility::visibility(c)).is_some() {
                    count(Ctr::probe_moved);
                    moved.judge(c);
                    *m = moved;
                } else {
                    own.map = None;
                }
            }
            "crowd" => self.crowd(l),
            _ if l.arg(0) < 0 => {
                if let Some((m, c)) = own.map.as_ref() {
                    self.ask(m, c, l, false);
                }
            }
            _ => self.map(l),
        }
    }
    fn end_task(&self, l: Local, _t: usize) {
        let _ = sut_ok("dropping a polyline", move || drop(l));
    }
    fn finish(self) {
        // the shared maps are as they were
        for m in &self.maps {
            if let Some(c) = m.conf.get() {
                m.judge(c);
            }
        }
    }
}
fn pair(a: f64, b: f64) -> (f64, f64) {
    (a, b)
}
impl W {
    /// The same question has the same answer.
    fn recall(&self, l: &Line, have: Vec<(f64, f64)>) {
        let key = l.text().splitn(2, ' ').nth(1).unwrap_or("").trim_start_matches("own").to_string();
        for x in &have {
            note(x.0.to_bits() ^ x.1.to_bits().rotate_left(1));
        }
        if let Some(old) = self.memo.get().get(&key) {
            check!(*old == have, "repeat", "asked again, {} gave {:?} instead of {:?}", key, have, old);
        } else {
            self.memo.get().insert(key, have);
        }
    }
    fn map(&self, l: &Line) {
        let m = &self.maps[l.u(0) % self.maps.len()];
        if l.kw == "open" || m.conf.get().is_none() {
            let Some(c) = m.open() else { return };
            m.judge(&c);
            if m.conf.get().is_none() {
                *m.conf.get() = Some(c);
            }
        }
        let Some(c) = m.conf.get() else { return };
        self.ask(m, c, l, true);
    }
    /// Questions about a map of many small obstacles that is laid out by hand, without its table of distances.
    fn crowd(&self, l: &Line) {
        let mut r = Rng::new(l.arg(1) as u64);
        let (k, wide) = (l.arg(0).clamp(1, 70_000), l.arg(2).clamp(1, 300));
        let cell = *r.pick(&[6i64, 9, 30]);
        let polys: Vec<Vec<P>> = (0..k)
            .map(|i| {
                let a = (i % wide * cell, i / wide * cell);
                let mut at = |x: i64, y: i64| (a.0 + if x == 0 { r.range(0, 1) } else { r.range(4, cell - 1) }, a.1 + if y == 0 { r.range(0, 1) } else { r.range(4, cell - 1) });
                vec![at(0, 1), at(1, 0), at(0, 0)]
            })
            .collect();
        let mut c = vconfig_t { P: vec![], start: vec![], next: vec![], prev: vec![], N: 3 * polys.len(), Npoly: polys.len(), ..Default::default() };
        for q in &polys {
            let s = c.P.len() as i32;
            c.start.push(s);
            c.next.extend([s + 1, s + 2, s]);
            c.prev.extend([s + 2, s, s + 1]);
            c.P.extend(q.iter().map(|q| v(*q)));
        }
        c.start.push(c.P.len() as i32);
        let m = Map { all: polys.iter().flatten().copied().collect(), polys, vis: vec![], convex: true, conf: Sim::new(None) };
        count(Ctr::probe_crowd);
        for _ in 0..6 {
            let i = if r.chance(1, 2) { k - 1 - r.range(0, k.min(9) - 1) } else { r.range(0, k - 1) };
            let at = |r: &mut Rng, i: i64| (i % wide * cell + r.range(0, cell), i / wide * cell + r.range(0, cell));
            let p = at(&mut r, i);
            let j = if r.chance(2, 3) { (i + *r.pick(&[1, -1, wide, -wide, 2, wide + 1])).clamp(0, k - 1) } else { r.range(0, k - 1) };
            let q = at(&mut r, j);
            for (op, a) in [("hit", vec![0, p.0, p.1]), ("direct", vec![0, p.0, p.1, q.0, q.1]), ("see", vec![0, p.0, p.1, 9])] {
                if op != "see" || k <= 300 {
                    self.ask(&m, &c, &Line::new(0, op, &a), false);
                }
            }
        }
    }
    fn ask(&self, m: &Map, c: &vconfig_t, l: &Line, known: bool) {
        let ps = points(&l.a[1.min(l.a.len())..]);
        let p = ps.first().copied().unwrap_or((0, 0));
        let q = ps.get(1).copied().unwrap_or((0, 0));
        match l.kw.as_str() {
            "see" => {
                let Some(home) = m.home(p) else { return };
                let other = m.polys.len() as i64;
                // also as if the point belonged to some obstacle
                let home = if l.arg(3) < other && l.arg(3) >= 0 && home == POLYID_NONE { l.arg(3) as i32 } else { home };
                let say = if m.convex && l.arg(3) == 9 && m.home(p) == Some(home) { POLYID_UNKNOWN } else { home };
                let Some(got) = sut_ok("ptVis", || visibility::ptVis(c, say, v(p))) else { return };
                let want = m.sees(home, p);
                check!(got.len() >= want.len(), "visible", "{} distances for {} corners", got.len(), want.len());
                for (k, w) in want.iter().enumerate() {
                    same(got[k], *w, || format!("{:?} (of obstacle {}) and corner {} {:?} of {:?}", p, home, k, m.all[k], m.show()));
                }
                if known {
                    self.recall(l, got.iter().map(|x| pair(*x, 0.0)).collect());
                }
            }
            "move" => {
                // as "shift", on a copy
                let Some(moved) = m.moved(l) else { return };
                let mut c2 = c.clone();
                for (have, want) in c2.P.iter_mut().zip(&moved.all) {
                    *have = v(*want);
                }
                if sut_ok("visibility", || visibility::visibility(&mut c2)).is_some() {
                    count(Ctr::probe_moved);
                    moved.judge(&c2);
                }
            }
            "hit" => {
                let Some(home) = m.home(p) else { return };
                if !m.convex {
                    return;
                }
                let Some(got) = sut_ok("polyhit", || visibility::polyhit(c, v(p))) else { return };
                check!(got == home, "hit", "{:?} is said to be in obstacle {}, it is in {} ({} is none) of {:?}", p, got, home, POLYID_NONE, m.show());
                note(got as u64);
            }
            "direct" => {
                let (Some(hp), Some(hq)) = (m.home(p), m.home(q)) else { return };
                let Some(got) = sut_ok("directVis", || visibility::directVis(v(p), hp, v(q), hq, c)) else { return };
                let want = m.clear(&[hp, hq], p, q);
                check!(got == want, "visible", "{:?} (of {}) and {:?} (of {}) see each other: {}, it should be {}, in {:?}", p, hp, q, hq, got, want, m.show());
                if known {
                    self.recall(l, vec![pair(got as u8 as f64, 0.0)]);
                }
            }
            "route" => {
                let (Some(hp), Some(hq)) = (m.home(p), m.home(q)) else { return };
                if p == q {
                    return;
                }
                let n = m.all.len();
                let got = sut_ok("planning a route", || {
                    let pv = visibility::ptVis(c, hp, v(p));
                    let qv = visibility::ptVis(c, hq, v(q));
                    shortestpth::makePath(v(p), hp, &pv, v(q), hq, &qv, c)
                });
                let Some(dad) = got else { return };
                // reference: nodes 0..n corners, n the target, n + 1 the start
                let mut w = m.vis.clone();
                for row in w.iter_mut() {
                    row.extend([0.0, 0.0]);
                }
                w.push(vec![0.0; n + 2]);
                w.push(vec![0.0; n + 2]);
                for (node, home, at) in [(n, hq, q), (n + 1, hp, p)] {
                    for (k, d) in m.sees(home, at).into_iter().enumerate() {
                        w[node][k] = d;
                        w[k][node] = d;
                    }
                }
                let direct = m.clear(&[hp, hq], p, q);
                count(if direct { Ctr::probe_route_direct } else { Ctr::probe_route_bent });
                if hp != POLYID_NONE || hq != POLYID_NONE {
                    count(Ctr::probe_route_through_home);
                }
                if direct {
                    w[n][n + 1] = far(p, q);
                    w[n + 1][n] = far(p, q);
                }
                let (d, _) = least(&w, n + 1);
                check!(dad.len() == n + 2, "route", "{} predecessors for {} corners and two ends", dad.len(), n);
                let (mut at, mut len, mut steps) = (n, 0.0, 0);
                while dad[at] != -1 {
                    let up = dad[at];
                    check!(up >= 0 && (up as usize) < n + 2, "route", "the predecessor of {} is {}", at, up);
                    let x = w[up as usize][at];
                    check!(x > 0.0, "route", "the route from {:?} to {:?} goes from {} to {}, which do not see each other, in {:?}", p, q, up, at, m.polys);
                    len += x;
                    at = up as usize;
                    steps += 1;
                    check!(steps <= n + 2, "route", "the route runs in a circle: {:?}", dad);
                }
                if d[n].is_finite() {
                    check!(at == n + 1, "route", "the route to {:?} starts at node {}, not at {:?}: {:?}", q, at, p, dad);
                    check!((len - d[n]).abs() <= 1e-7 * (1.0 + len), "route", "the route from {:?} to {:?} is {} long, the shortest is {}, in {:?}", p, q, len, d[n], m.polys);
                } else {
                    check!(at != n + 1, "route", "a route from {:?} to {:?} was found, but there is none", p, q);
                }
                if known {
                    self.recall(l, vec![pair(len, 0.0)]);
                }
            }
            _ => {}
        }
    }
    fn path(&self, l: &Line, own: &mut Local) {
        let m = &self.rooms[l.u(0) % self.rooms.len()];
        let ps = points(&l.a[1.min(l.a.len())..]);
        let (Some(&p), Some(&q)) = (ps.first(), ps.get(1)) else { return };
        let poly = if l.kw == "ownpath" || l.kw == "duppath" {
            // the task's own polygon is given other corners
            own.room.ps.clear();
            let mut h = l.a.iter().fold(if l.kw == "duppath" { 1 } else { 0 }, |h, x| if h == 0 { 0 } else { simrt::rng::mix(h ^ *x as u64) | 1 });
            for c in m.p.iter() {
                own.room.ps.push(v(*c));
                h >>= 2;
                // some are given again, which says nothing new
                for _ in 0..if h & 3 == 3 { 1 + (h >> 2 & 1) } else { 0 } {
                    own.room.ps.push(v(*c));
                }
            }
            if h & 12 == 12 {
                own.room.ps.push(v(m.p[0]));
            }
            count(Ctr::fault_address_reuse);
            &own.room
        } else {
            &m.poly
        };
        let got = loop {
            match sut_ok("Pshortestpath", || Pshortestpath(poly, &[v(p), v(q)])) {
                Some(x) => break x,
                None => {
                    disarm();
                    count(Ctr::probe_retry_after_fault);
                }
            }
        };
        let want = match () {
            _ if locate(&m.p, p) == Where::Out => Err("source"),
            _ if locate(&m.p, q) == Where::Out => Err("destination"),
            _ => Ok(m.shortest(p, q)),
        };
        count(match &want {
            Err(_) => Ctr::probe_outside,
            Ok(Some((_, at))) if at.len() > 2 => Ctr::probe_route_bent,
            Ok(_) => Ctr::probe_route_direct,
        });
        match (got, want) {
            (Err(ShortestPathError::SourcePointNotInAnyTriangle), Err("source")) => self.recall(l, vec![pair(-1.0, 0.0)]),
            (Err(ShortestPathError::DestPointNotInAnyTriangle), Err("destination")) => self.recall(l, vec![pair(-2.0, 0.0)]),
            (Err(e), _) => {
                let e = if let ShortestPathError::SourcePointNotInAnyTriangle = e { "source" } else { "destination" };
                fail("path", format!("the {} point of {:?} to {:?} is said to be outside {:?}", e, p, q, m.p))
            }
            (Ok(_), Err(e)) => fail("path", format!("a path from {:?} to {:?} was found although the {} is outside {:?}", p, q, e, m.p)),
            (Ok(line), Ok(best)) => {
                let pts: Vec<P> = line.ps.iter().map(back).map(|c| (c.0 as i64, c.1 as i64)).collect();
                let show = || format!("{:?} from {:?} to {:?} in {:?}", line.ps, p, q, m.p);
                check!(line.ps.iter().zip(&pts).all(|(c, d)| *c == v(*d)), "path", "the path has points that are no corners: {}", show());
                check!(pts.len() >= 2 && pts[0] == p && pts[pts.len() - 1] == q, "path", "the path does not join the points: {}", show());
                check!(pts.windows(2).all(|w| m.within(w[0], w[1])), "path", "the path leaves the polygon: {}", show());
                let len: f64 = pts.windows(2).map(|w| far(w[0], w[1])).sum();
                if let Some((d, at)) = best {
                    check!((len - d).abs() <= 1e-7 * (1.0 + d), "path", "the path is {} long, the shortest is {} by {:?}: {}", len, d, at, show());
                }
                self.recall(l, line.ps.iter().map(|c| pair(c.x, c.y)).collect());
            }
        }
    }
    fn spline(&self, l: &Line, own: &mut Local) {
        let free = l.kw.ends_with("free");
        let Local { out, bars: own_bars, line: own_line, .. } = own;
        let m = &self.rooms[l.u(0) % self.rooms.len()];
        let rest = points(&l.a[1.min(l.a.len())..]);
        let (input, ev): (Vec<P>, [P; 2]) = if free {
            let mut q = rest.get(2..).unwrap_or(&[]).to_vec();
            q.dedup();
            (q, [rest.first().copied().unwrap_or((0, 0)), rest.get(1).copied().unwrap_or((0, 0))])
        } else {
            let (Some(&p), Some(&q)) = (rest.first(), rest.get(1)) else { return };
            if p == q || locate(&m.p, p) == Where::Out || locate(&m.p, q) == Where::Out {
                return;
            }
            let Some((_, path)) = m.shortest(p, q) else { return };
            (path, [rest.get(2).copied().unwrap_or((0, 0)), rest.get(3).copied().unwrap_or((0, 0))])
        };
        if input.len() < 2 {
            return;
        }
        let extra: &[(P, P)] = if free { &m.bars } else { &[] };
        let all: Vec<(P, P)> = edges(&m.p).chain(extra.iter().copied()).collect();
        let mut bars: Vec<Pedge_t> = all.iter().copied().map(|(a, b)| Pedge_t { a: v(a), b: v(b) }).collect();
        let mut line = Ppoly_t { ps: input.iter().map(|c| v(*c)).collect() };
        if l.kw.starts_with("own") {
            // in the place of those before
            count(Ctr::fault_address_reuse);
            own_bars.clear();
            own_bars.append(&mut bars);
            std::mem::swap(own_bars, &mut bars);
            own_line.ps.clear();
            own_line.ps.append(&mut line.ps);
            std::mem::swap(own_line, &mut line);
        }
        loop {
            let mut evs = ev.map(|e| Vec2 { x: e.0 as f64, y: e.1 as f64 });
            match sut_ok("Proutespline", || Proutespline(&bars, &line, &mut evs, out)) {
                Some(r) => {
                    check!(r.is_ok(), "spline", "no spline for {:?} among {:?}", input, m.p);
                    break;
                }
                None => {
                    disarm();
                    count(Ctr::probe_retry_after_fault);
                }
            }
        }
        if l.kw.starts_with("own") {
            std::mem::swap(own_bars, &mut bars);
            std::mem::swap(own_line, &mut line);
        }
        let o: Vec<(f64, f64)> = out.ps.iter().map(back).collect();
        let show = || format!("{:?} for {:?} with directions {:?} among {:?}", o, input, ev, all);
        let n = o.len();
        check!(o.iter().all(|c| c.0.is_finite() && c.1.is_finite()), "spline", "the spline is not finite: {}", show());
        check!(n >= 4 && n % 3 == 1, "spline", "{} control points: {}", n, show());
        let dir = |e: P| (e.0 as f64, e.1 as f64);
        // joints are points of the line, in its order, from its first to its last
        let mut at = 0;
        check!(o[0] == dir(input[0]), "spline", "the spline does not start where the line does: {}", show());
        for k in (3..n).step_by(3) {
            let f = input.iter().skip(at + 1).position(|c| dir(*c) == o[k]);
            let Some(f) = f else { fail("spline", format!("joint {} is not a further point of the line: {}", k, show())) };
            at += 1 + f;
        }
        check!(o[n - 1] == dir(input[input.len() - 1]), "spline", "the spline does not end where the line does: {}", show());
        let along = |a: (f64, f64), b: (f64, f64)| {
            // a and b do not differ in direction
            let (la, lb) = ((a.0 * a.0 + a.1 * a.1).sqrt(), (b.0 * b.0 + b.1 * b.1).sqrt());
            la < 1e-5 || lb < 1e-5 || ((a.0 * b.1 - a.1 * b.0).abs() <= 1e-6 * la * lb && a.0 * b.0 + a.1 * b.1 > 0.0)
        };
        let sub = |a: (f64, f64), b: (f64, f64)| (a.0 - b.0, a.1 - b.1);
        check!(along(sub(o[1], o[0]), dir(ev[0])), "spline", "the spline does not start in the direction given: {}", show());
        check!(along(sub(o[n - 1], o[n - 2]), dir(ev[1])), "spline", "the spline does not end in the direction given: {}", show());
        for (e, a, b) in [(ev[0], o[0], o[1]), (ev[1], o[n - 1], o[n - 2])] {
            check!(e != (0, 0) || a == b, "spline", "no direction was asked for, but there is one: {}", show());
        }
        for k in (3..n - 1).step_by(3) {
            check!(along(sub(o[k], o[k - 1]), sub(o[k + 1], o[k])), "spline", "a kink at joint {}: {}", k, show());
        }
        if input.len() > 2 {
            count(Ctr::probe_spline_bent);
        }
        for k in (0..n - 1).step_by(3) {
            count(Ctr::probe_spline_pieces);
            let s = [o[k], o[k + 1], o[k + 2], o[k + 3]];
            if s[0] == s[1] && s[2] == s[3] && input.windows(2).any(|w| dir(w[0]) == s[0] && dir(w[1]) == s[3]) {
                count(Ctr::probe_spline_forced);
                // a straight line, the last resort: only from one point of the line to the next
                continue;
            }
            for &(a, b) in &all {
                if a == b {
                    continue;
                }
                if let Some((t, q)) = cuts(&s, dir(a), dir(b)) {
                    fail("barrier", format!("the piece {:?} crosses the barrier {:?} {:?} at {:?} (t = {}): {}", s, a, b, q, t, show()));
                }
            }
        }
        self.recall(l, o.clone());
    }
}
/// Does the curve cross the segment, clearly away from the ends of both?
fn cuts(s: &[(f64, f64); 4], a: (f64, f64), b: (f64, f64)) -> Option<(f64, (f64, f64))> {
    let at = |t: f64| {
        let u = 1.0 - t;
        let (x, y, z, w) = (u * u * u, 3.0 * u * u * t, 3.0 * u * t * t, t * t * t);
        (x * s[0].0 + y * s[1].0 + z * s[2].0 + w * s[3].0, x * s[0].1 + y * s[1].1 + z * s[2].1 + w * s[3].1)
    };
    let (dx, dy) = (b.0 - a.0, b.1 - a.1);
    let len = (dx * dx + dy * dy).sqrt();
    let side = |q: (f64, f64)| ((q.0 - a.0) * dy - (q.1 - a.1) * dx) / len;
    const N: usize = 64;
    let mut last = side(s[0]);
    for k in 1..=N {
        let t1 = k as f64 / N as f64;
        let now = side(at(t1));
        if last * now < 0.0 && last.abs() > 1e-4 && now.abs() > 1e-4 {
            let (mut lo, mut hi) = (t1 - 1.0 / N as f64, t1);
            for _ in 0..50 {
                let mid = (lo + hi) / 2.0;
                if side(at(mid)) * last > 0.0 {
                    lo = mid;
                } else {
                    hi = mid;
                }
            }
            let q = at(lo);
            let d = ((q.0 - a.0) * dx + (q.1 - a.1) * dy) / len;
            if lo > 0.001 && lo < 0.999 && d > 0.1 && d < len - 0.1 {
                return Some((lo, q));
            }
        }
        last = now;
    }
    None
}
