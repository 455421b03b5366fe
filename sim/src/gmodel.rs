//! Reference graphs: generation and independently written reference analyses.
use crate::fw::*;
use std::collections::BTreeMap;

pub type Adj = Vec<Vec<u32>>;

#[derive(Clone, Debug, Default)]
pub struct Edges {
    pub n: usize,
    pub e: Vec<(u32, u32)>,
}

fn perm(r: &mut Rng, n: usize) -> Vec<u32> {
    let mut p: Vec<u32> = (0..n as u32).collect();
    for i in (1..n).rev() {
        p.swap(i, r.usize(i + 1));
    }
    p
}
fn shuffle<T>(r: &mut Rng, v: &mut [T]) {
    for i in (1..v.len()).rev() {
        v.swap(i, r.usize(i + 1));
    }
}

pub const KINDS: usize = 18;
pub fn make(r: &mut Rng, kind: usize, n: usize, m: usize) -> Edges {
    let mut e: Vec<(u32, u32)> = vec![];
    let mut n = n.max(1);
    match kind % KINDS {
        0 => {
            for _ in 0..m {
                e.push((r.usize(n) as u32, r.usize(n) as u32));
            }
        }
        1 | 2 => {
            let p = if r.chance(3, 4) { perm(r, n) } else { (0..n as u32).collect() };
            let local = r.chance(1, 3);
            for _ in 0..m {
                let a = r.usize(n);
                let b = if local { (a + 1 + r.usize(3)).min(n - 1) } else { r.usize(n) };
                if a != b {
                    e.push((p[a.min(b)], p[a.max(b)]));
                }
            }
            if kind == 2 && n >= 2 {
                // close one cycle along an existing path
                if let Some(&(a, b)) = e.get(r.usize(e.len().max(1))) {
                    let mut end = b;
                    for _ in 0..r.usize(6) {
                        if let Some(x) = e.iter().filter(|x| x.0 == end).last() {
                            end = x.1;
                        }
                    }
                    e.push((end, a));
                }
            }
        }
        3 => {
            let p = perm(r, n);
            let out = r.chance(1, 2);
            for i in 1..n {
                if r.chance(1, 12) {
                    continue;
                }
                let q = if r.chance(1, 2) { r.usize(i) } else { i - 1 - r.usize(i.min(3)) };
                e.push(if out { (p[q], p[i]) } else { (p[i], p[q]) });
            }
        }
        4 | 5 => {
            let p = match r.usize(3) {
                0 => perm(r, n),
                1 => (0..n as u32).collect(),
                _ => (0..n as u32).rev().collect::<Vec<_>>(),
            };
            for i in 1..n {
                e.push((p[i - 1], p[i]));
            }
            if kind == 5 {
                e.push((p[n - 1], p[0]));
                if n > 3 && r.chance(1, 2) {
                    e.push((p[r.usize(n)], p[r.usize(n)]));
                }
            }
        }
        6 => {
            // a small core whose edges are subdivided, perhaps with separate rings
            let k = (n / 5).clamp(1, 12);
            let core = r.usize(m.clamp(1, 24)) + 1;
            let mut next = k as u32;
            let mut total = vec![];
            for _ in 0..core {
                let (a, b) = (r.usize(k) as u32, r.usize(k) as u32);
                let mut prev = a;
                for _ in 0..*r.pick(&[0usize, 1, 1, 1, 2, 3, 6]) {
                    total.push((prev, next));
                    prev = next;
                    next += 1;
                }
                total.push((prev, b));
            }
            for _ in 0..*r.pick(&[0usize, 0, 1, 2]) {
                let len = 1 + r.usize(4) as u32;
                for i in 0..len {
                    total.push((next + i, next + (i + 1) % len));
                }
                next += len;
            }
            n = next as usize;
            let p = perm(r, n);
            e = total.into_iter().map(|(a, b)| (p[a as usize], p[b as usize])).collect();
        }
        7 => {
            // components that grow together in a random order
            let p = perm(r, n);
            let c = 1 + r.usize(4.min(n));
            for i in c..n {
                if r.chance(1, 20) {
                    continue;
                }
                let mut q = r.usize(i);
                while q % c != i % c {
                    q = r.usize(i);
                }
                e.push(if r.chance(1, 2) { (p[q], p[i]) } else { (p[i], p[q]) });
            }
            for _ in 0..r.usize(4) {
                let (a, b) = (r.usize(n), r.usize(n));
                if a % c == b % c {
                    e.push((p[a], p[b]));
                }
            }
        }
        8 => {
            let hub = r.usize(n) as u32;
            let mode = r.usize(3);
            for v in 0..n as u32 {
                if v != hub {
                    e.push(if mode == 0 || (mode == 2 && r.chance(1, 2)) { (hub, v) } else { (v, hub) });
                }
            }
        }
        9 => {
            if r.chance(1, 3) {
                e.push((r.usize(n) as u32, r.usize(n) as u32));
            }
        }
        10 => {
            n = n.min(9);
            for _ in 0..m.min(n * n + 3) {
                e.push((r.usize(n) as u32, r.usize(n) as u32));
            }
        }
        11 => {
            // layers, edges between layers near and far
            let p = perm(r, n);
            let w = 1 + r.usize(6);
            for i in 0..n {
                for _ in 0..r.usize(4) {
                    let j = i + 1 + r.usize(w * 3);
                    if j < n && j / w > i / w {
                        e.push((p[i], p[j]));
                    }
                }
            }
        }
        13 => {
            // one long path, with an edge back (or ahead) at a position where a small counter wraps
            let p = match r.usize(4) {
                0 => {
                    let mut p = perm(r, n);
                    let at = p.iter().position(|&v| v == 0).unwrap();
                    p.swap(0, at);
                    p
                }
                _ => (0..n as u32).collect(),
            };
            for i in 1..n {
                e.push((p[i - 1], p[i]));
            }
            let edge = |r: &mut Rng| {
                let x = (*r.pick(&[16usize, 64, 128, 256, 256, 512, 1024]) + r.usize(4)).saturating_sub(2);
                let y = x + r.usize(n.saturating_sub(x).max(1));
                (x.min(n - 1), y.min(n - 1))
            };
            for _ in 0..r.usize(3) {
                let (x, y) = edge(r);
                if x != y {
                    e.push((p[x], p[y]));
                }
            }
            if r.chance(1, 2) {
                let (x, y) = edge(r);
                e.push((p[y], p[x]));
            }
        }
        15 => {
            // a long chain whose vertices have further edges to leaves and to each other, near the end
            let len = (n * 2 / 3).max(1);
            let p = if r.chance(1, 2) { perm(r, n) } else { (0..n as u32).collect() };
            let first = r.chance(1, 2);
            let few = *r.pick(&[1u64, 1, 3, 20]);
            for i in 0..len {
                let side = n > len && r.chance(1, few);
                let leaf = (p[i], p[if n > len { len + r.usize(n - len) } else { i }]);
                if side && first {
                    e.push(leaf);
                }
                if i + 1 < len {
                    e.push((p[i], p[i + 1]));
                }
                if side && !first {
                    e.push(leaf);
                }
            }
            for _ in 0..r.usize(4) {
                let a = len - 1 - r.usize(len.min(6));
                let b = (a + 1 + r.usize(4)).min(len - 1);
                if a != b {
                    e.push((p[a], p[b]));
                }
            }
        }
        16 => {
            // many parts of one, two or three vertices
            let one = r.chance(1, 4);
            let p = if r.chance(1, 2) { perm(r, n) } else { (0..n as u32).collect() };
            let few = *r.pick(&[2u64, 20, 1 << 30]);
            let mut i = 0;
            while i + 1 < n {
                if one {
                    e.push((p[i], p[i]));
                    i += 1;
                } else {
                    e.push((p[i], p[i + 1]));
                    i += 2;
                    if i < n && r.chance(1, few) {
                        e.push((p[i], p[i - 1]));
                        i += 1;
                    }
                }
            }
        }
        17 => {
            // a long path, numbered from its end or nearly so, with leaves and shortcuts
            let p: Vec<u32> = if r.chance(3, 4) { (0..n as u32).rev().collect() } else { (0..n as u32).map(|v| (n as u32 - 1 - v) ^ 1).map(|v| v.min(n as u32 - 1)).collect() };
            let few = *r.pick(&[5u64, 100, 1 << 30]);
            let mut from = 0;
            for i in 1..n {
                e.push((p[from], p[i]));
                if i > 1 && r.chance(1, few) {
                    e.push((p[r.usize(i)], p[i]));
                }
                if !r.chance(1, few) {
                    from = i;
                }
            }
            e.retain(|x| x.0 != x.1);
        }
        14 => {
            // a forest, and some vertices with many edges to (or from) vertices at all depths
            let p = perm(r, n);
            for i in 1..n {
                if r.chance(4, 5) {
                    let q = if r.chance(1, 2) { r.usize(i) } else { i - 1 - r.usize(i.min(3)) };
                    e.push((p[q], p[i]));
                }
            }
            for _ in 0..1 + r.usize(3) {
                let h = r.usize(n);
                let out = r.chance(2, 3);
                let all = if out { h + 1..n } else { 0..h };
                for _ in 0..if all.is_empty() { 0 } else { *r.pick(&[8usize, 15, 16, 17, 31, 32, 33, 40, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300]) } {
                    let x = all.start + r.usize(all.len());
                    e.push(if out { (p[h], p[x]) } else { (p[x], p[h]) });
                }
            }
        }
        _ => {
            // diamonds: many paths between few vertices
            let k = (n / 3).clamp(1, 10);
            n = 3 * k + 1;
            let p = perm(r, n);
            for i in 0..k {
                let a = 3 * i;
                e.push((p[a], p[a + 1]));
                e.push((p[a], p[a + 2]));
                e.push((p[a + 1], p[a + 3]));
                e.push((p[a + 2], p[a + 3]));
            }
        }
    }
    if n > 0 && r.chance(1, 8) {
        let v = r.usize(n) as u32;
        e.push((v, v)); // an edge to itself
    }
    if !e.is_empty() && r.chance(1, 4) {
        for _ in 0..1 + r.usize(3) {
            let x = e[r.usize(e.len())];
            e.push(x); // parallel edges
        }
    }
    if r.chance(1, 2) {
        shuffle(r, &mut e);
    }
    if r.chance(1, 6) {
        n += 1 + r.usize(5); // isolated at the end
    }
    Edges { n, e }
}

/// Added to an entry of a list of kinds: 65,536 vertices in a row are fine too. (The searches that keep their path
/// on a work stack re-check all of it at every step, so they are given shallow ones only.)
pub const DEEP: usize = 100;

/// Emits the set-up lines of graph `g`.
/// Returns the number of vertices; `hint` becomes a good vertex to start from, if most are not.
pub fn emit(p: &mut Plan, r: &mut Rng, g: i64, t: &Tier, kinds: &[usize], hint: &mut Option<i64>) -> usize {
    if r.chance(1, 30) {
        p.push(Line::new(-1, "nv", &[g, 0]));
        return 0;
    }
    let kind = *r.pick(kinds) % 100;
    if r.chance(1, 50) {
        let n = r.range(0, 60) + *r.pick(&[120i64, 240, 250, 260, 500]);
        let seed = r.below(1 << 40) as i64;
        let kind = *r.pick(&[13i64, 13, 15]);
        let n = if kind == 15 { n * 3 / 2 } else { n };
        p.push(Line::new(-1, "gen", &[g, kind, n, 0, seed]));
        return make(&mut Rng::new(seed as u64), kind as usize, n as usize, 0).n;
    }
    if r.chance(1, if t.thorough { 800 } else { 2500 }) {
        // past the range of a 16-bit number
        let deep = kinds.iter().any(|&k| k >= DEEP);
        let kind = if deep { *r.pick(&[3i64, 4, 5, 7, 8, 9, 16, 16, 17]) } else { *r.pick(&[3i64, 7, 8, 9, 16, 17, 17]) };
        let n = *r.pick(&[65_534i64, 65_535, 65_536, 65_537, 66_000, 70_000]);
        let n = if kind == 16 { 2 * n + 200 } else { n };
        let seed = r.below(1 << 40) as i64;
        p.push(Line::new(-1, "gen", &[g, kind, n, 0, seed]));
        let ed = make(&mut Rng::new(seed as u64), kind as usize, n as usize, 0);
        *hint = ed.e.first().map(|x| x.0 as i64);
        return ed.n;
    }
    if r.chance(1, 60) {
        // a big one, in compact form
        let n = match r.usize(3) {
            0 => r.range(300, 1000),
            1 => *r.pick(&[511i64, 512, 513, 1023, 1024, 1025]),
            _ => r.range(1000, if t.thorough { 3000 } else { 1500 }),
        };
        let m = r.range(n / 2, 2 * n);
        let seed = r.below(1 << 40) as i64;
        p.push(Line::new(-1, "gen", &[g, kind as i64, n, m, seed]));
        return make(&mut Rng::new(seed as u64), kind, n as usize, m as usize).n;
    }
    let n = size(r, 160).max(1);
    let m = r.usize(3 * n + 2);
    let ed = make(r, kind, n, m);
    p.push(Line::new(-1, "nv", &[g, ed.n as i64]));
    for c in ed.e.chunks(16) {
        let mut a = vec![g];
        for &(x, y) in c {
            a.push(x as i64);
            a.push(y as i64);
        }
        p.push(Line::new(-1, "e", &a));
    }
    ed.n
}

/// The graphs described by the set-up lines of a plan.
pub fn read(plan: &Plan) -> BTreeMap<i64, Edges> {
    let mut out: BTreeMap<i64, Edges> = BTreeMap::new();
    for l in plan.iter().filter(|l| l.t == -1) {
        match l.kw.as_str() {
            "nv" => out.entry(l.arg(0)).or_default().n = l.u(1).min(100_000),
            "e" => {
                let g = out.entry(l.arg(0)).or_default();
                let n = g.n as u32;
                if n > 0 {
                    for c in l.a[1.min(l.a.len())..].chunks_exact(2) {
                        g.e.push((c[0].unsigned_abs() as u32 % n, c[1].unsigned_abs() as u32 % n));
                    }
                }
            }
            "gen" => {
                let x = make(&mut Rng::new(l.arg(4) as u64), l.u(1), l.u(2).min(150_000), l.u(3).min(100_000));
                out.insert(l.arg(0), x);
            }
            _ => {}
        }
    }
    if out.is_empty() {
        out.insert(0, Edges::default());
    }
    out
}

pub fn adj(ed: &Edges) -> Adj {
    let mut a = vec![vec![]; ed.n];
    for &(x, y) in &ed.e {
        a[x as usize].push(y);
    }
    a
}

/// Length of the longest path to a sink for each vertex; None if there is a cycle.
pub fn layers(a: &Adj) -> Option<Vec<u32>> {
    let n = a.len();
    let mut rev = vec![vec![]; n];
    let mut left: Vec<usize> = a.iter().map(|x| x.len()).collect();
    for (u, l) in a.iter().enumerate() {
        for &v in l {
            rev[v as usize].push(u);
        }
    }
    let mut ready: Vec<usize> = (0..n).filter(|&v| left[v] == 0).collect();
    let mut out = vec![0u32; n];
    let mut done = 0;
    while let Some(v) = ready.pop() {
        done += 1;
        for &u in &rev[v] {
            out[u] = out[u].max(out[v] + 1);
            left[u] -= 1;
            if left[u] == 0 {
                ready.push(u);
            }
        }
    }
    if done == n {
        Some(out)
    } else {
        None
    }
}

/// Sorted groups of sorted vertices; vertices without edges are in none.
pub fn components(a: &Adj) -> Vec<Vec<u32>> {
    let n = a.len();
    let mut nb = vec![vec![]; n];
    for (u, l) in a.iter().enumerate() {
        for &v in l {
            nb[u].push(v as usize);
            nb[v as usize].push(u);
        }
    }
    let mut seen = vec![false; n];
    let mut out = vec![];
    for s in 0..n {
        if seen[s] || nb[s].is_empty() {
            continue;
        }
        let mut q = vec![s];
        seen[s] = true;
        let mut i = 0;
        while i < q.len() {
            for &v in &nb[q[i]] {
                if !seen[v] {
                    seen[v] = true;
                    q.push(v);
                }
            }
            i += 1;
        }
        q.sort();
        out.push(q.into_iter().map(|x| x as u32).collect());
    }
    out.sort();
    out
}

/// Sorted multiset of chains.
pub fn chains(a: &Adj) -> Vec<Vec<u32>> {
    let n = a.len();
    let mut ind = vec![0usize; n];
    let mut own = vec![false; n];
    for (u, l) in a.iter().enumerate() {
        for &v in l {
            ind[v as usize] += 1;
            own[u] |= v as usize == u;
        }
    }
    let inner = |v: usize| a[v].len() == 1 && ind[v] == 1 && !own[v];
    let mut out = vec![];
    for s in 0..n {
        if inner(s) {
            continue;
        }
        for &f in &a[s] {
            if !inner(f as usize) {
                continue;
            }
            let mut c = vec![s as u32];
            let mut v = f;
            while inner(v as usize) {
                c.push(v);
                v = a[v as usize][0];
            }
            c.push(v);
            out.push(c);
        }
    }
    out.sort();
    out
}

/// Least weight from `from` to every vertex.
pub fn dijkstra(a: &[Vec<(u32, i64)>], from: usize) -> Vec<Option<i64>> {
    let mut d: Vec<Option<i64>> = vec![None; a.len()];
    let mut q = std::collections::BTreeSet::new();
    if from < a.len() {
        d[from] = Some(0);
        q.insert((0i64, from));
    }
    while let Some(&(w, v)) = q.iter().next() {
        q.remove(&(w, v));
        for &(t, x) in &a[v] {
            let t = t as usize;
            let nw = w + x;
            if d[t].map_or(true, |o| nw < o) {
                if let Some(o) = d[t] {
                    q.remove(&(o, t));
                }
                d[t] = Some(nw);
                q.insert((nw, t));
            }
        }
    }
    d
}

/// The depth-first preorder walk, one step at a time.
pub struct Walk {
    st: Vec<(usize, usize)>,
}
impl Walk {
    pub fn new(start: usize) -> Walk {
        Walk { st: vec![(start, 0)] }
    }
    pub fn next(&mut self, a: &Adj) -> Option<u32> {
        while let Some((v, i)) = self.st.last_mut() {
            if let Some(&x) = a[*v].get(*i) {
                *i += 1;
                self.st.push((x as usize, 0));
                return Some(x);
            }
            self.st.pop();
        }
        None
    }
}
