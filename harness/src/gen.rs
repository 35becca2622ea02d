//! Generators of polylines (as plain vertex lists), all driven by the choice tape.
use crate::geo::*;
use crate::tape::Tape;
use std::f64::consts::{PI, TAU};

pub const BQ: f64 = 0.414_213_562_373_095_03; // tan(pi/8): quarter circle

pub fn nice_bulge(t: &mut Tape) -> f64 {
    match t.weighted(&[6, 2, 2, 2, 4]) {
        0 => 0.0,
        1 => *t.pick(&[BQ, -BQ]),
        2 => *t.pick(&[1.0, -1.0]),
        3 => *t.pick(&[0.5, -0.5, 0.1, -0.1, 0.02, -0.02]),
        _ => t.f(-1.0, 1.0),
    }
}

fn clear(vs: &[V], gap: f64) -> bool {
    clearly_simple(&Path::new(vs, true), gap, 0.05)
}

/// Shrink bulges until the outline is clearly simple; the chord polygon is expected to be simple.
fn tame(mut vs: Vec<V>, gap: f64) -> Option<Vec<V>> {
    for _ in 0..3 {
        if clear(&vs, gap) {
            return Some(vs);
        }
        for q in vs.iter_mut() {
            q.b *= 0.45;
        }
    }
    for q in vs.iter_mut() {
        q.b = 0.0;
    }
    if clear(&vs, gap) {
        Some(vs)
    } else {
        None
    }
}

/// Star shaped outline around the origin, about unit radius.
pub fn star(t: &mut Tape, max_n: usize) -> Vec<V> {
    let n = 3 + t.idx(max_n - 2);
    let rough = t.f(0.0, 0.8);
    let arcs = t.weighted(&[2, 3, 3]);
    let mut vs = Vec::new();
    for i in 0..n {
        let a = TAU * (i as f64 + t.f(-0.3, 0.3)) / n as f64;
        let r = 1.0 - rough * t.unit();
        let b = match arcs {
            0 => 0.0,
            1 => {
                if t.chance(1, 3) {
                    nice_bulge(t)
                } else {
                    0.0
                }
            }
            _ => t.f(-1.0, 1.0) * 0.9,
        };
        vs.push(v(r * a.cos(), r * a.sin(), b));
    }
    tame(vs, 0.02).unwrap_or_else(|| ngon(n.max(3)))
}

fn ngon(n: usize) -> Vec<V> {
    (0..n)
        .map(|i| {
            let a = TAU * i as f64 / n as f64;
            v(a.cos(), a.sin(), 0.0)
        })
        .collect()
}

/// Boundary (counter clockwise, unit grid) of a random polyomino without holes or corner contacts.
pub fn polyomino(t: &mut Tape, max_cells: usize) -> Vec<V> {
    const W: usize = 9;
    let mut g = [[false; W]; W];
    let n = 1 + t.idx(max_cells);
    let mut cells = vec![(4usize, 4usize)];
    g[4][4] = true;
    let mut tries = 0;
    while cells.len() < n && tries < 60 {
        tries += 1;
        let (x, y) = cells[t.idx(cells.len())];
        let (nx, ny) = match t.below(4) {
            0 => (x + 1, y),
            1 => (x, y + 1),
            2 => (x.wrapping_sub(1), y),
            _ => (x, y.wrapping_sub(1)),
        };
        if nx == 0 || ny == 0 || nx >= W - 1 || ny >= W - 1 || g[ny][nx] {
            continue;
        }
        g[ny][nx] = true;
        if poly_ok(&g) {
            cells.push((nx, ny));
        } else {
            g[ny][nx] = false;
        }
    }
    trace(&g)
}

fn poly_ok(g: &[[bool; 9]; 9]) -> bool {
    // no 2x2 checkerboards
    for y in 0..8 {
        for x in 0..8 {
            let (a, b, c, d) = (g[y][x], g[y][x + 1], g[y + 1][x], g[y + 1][x + 1]);
            if (a && d && !b && !c) || (b && c && !a && !d) {
                return false;
            }
        }
    }
    // background connected
    let mut seen = [[false; 9]; 9];
    let mut st = vec![(0usize, 0usize)];
    seen[0][0] = true;
    let mut cnt = 0;
    while let Some((x, y)) = st.pop() {
        cnt += 1;
        for (dx, dy) in [(1i32, 0i32), (-1, 0), (0, 1), (0, -1)] {
            let (nx, ny) = (x as i32 + dx, y as i32 + dy);
            if nx < 0 || ny < 0 || nx > 8 || ny > 8 {
                continue;
            }
            let (nx, ny) = (nx as usize, ny as usize);
            if !g[ny][nx] && !seen[ny][nx] {
                seen[ny][nx] = true;
                st.push((nx, ny));
            }
        }
    }
    let bg: usize = g.iter().map(|r| r.iter().filter(|c| !**c).count()).sum();
    cnt == bg
}

fn trace(g: &[[bool; 9]; 9]) -> Vec<V> {
    // start at lowest-left filled cell's lower left corner, heading right
    let mut start = (0, 0);
    'o: for y in 0..9 {
        for x in 0..9 {
            if g[y][x] {
                start = (x as i32, y as i32);
                break 'o;
            }
        }
    }
    let at = |x: i32, y: i32| x >= 0 && y >= 0 && x < 9 && y < 9 && g[y as usize][x as usize];
    let (mut x, mut y) = start;
    let mut dir = 0; // 0 right 1 up 2 left 3 down
    let mut out = Vec::new();
    loop {
        // move one unit
        let (dx, dy) = [(1, 0), (0, 1), (-1, 0), (0, -1)][dir];
        out.push((x, y, dir));
        x += dx;
        y += dy;
        // cells ahead-left and ahead-right of the new corner
        let (l, r) = match dir {
            0 => (at(x, y), at(x, y - 1)),
            1 => (at(x - 1, y), at(x, y)),
            2 => (at(x - 1, y - 1), at(x - 1, y)),
            _ => (at(x, y - 1), at(x - 1, y - 1)),
        };
        if r {
            dir = (dir + 3) % 4;
        } else if !l {
            dir = (dir + 1) % 4;
        }
        if (x, y) == start && dir == 0 {
            break;
        }
    }
    // drop straight-through vertexes
    let n = out.len();
    let mut vs = Vec::new();
    for i in 0..n {
        let prev = out[(i + n - 1) % n].2;
        if prev != out[i].2 {
            vs.push(v(out[i].0 as f64 - 4.0, out[i].1 as f64 - 4.0, 0.0));
        }
    }
    vs
}

/// Optionally round the corners of a rectilinear outline and bump some edges.
pub fn decorate(t: &mut Tape, vs: Vec<V>) -> Vec<V> {
    match t.weighted(&[3, 2, 2]) {
        0 => vs,
        1 => {
            // fillet corners with radius rad
            let rad = *t.pick(&[0.25, 0.125, 0.4]);
            let n = vs.len();
            let mut out = Vec::new();
            for i in 0..n {
                let (p, c, q) = (vs[(i + n - 1) % n].p(), vs[i].p(), vs[(i + 1) % n].p());
                if t.chance(1, 2) {
                    let a = c + (p - c).unit() * rad;
                    let b = c + (q - c).unit() * rad;
                    let turn = (c - p).cross(q - c);
                    out.push(v(a.x, a.y, if turn > 0.0 { BQ } else { -BQ }));
                    out.push(v(b.x, b.y, 0.0));
                } else {
                    out.push(v(c.x, c.y, 0.0));
                }
            }
            if clear(&out, 0.05) {
                out
            } else {
                vs
            }
        }
        _ => {
            let mut out = vs.clone();
            for i in 0..out.len() {
                if t.chance(1, 3) {
                    let keep = out[i].b;
                    out[i].b = *t.pick(&[1.0, -1.0, BQ, -BQ, 0.5, -0.5, 0.2, -0.2]);
                    if !clear(&out, 0.03) {
                        out[i].b = keep;
                    }
                }
            }
            out
        }
    }
}

/// Parametric special shapes of roughly unit size, counter clockwise.
pub fn special(t: &mut Tape) -> Vec<V> {
    match t.below(9) {
        0 => vec![v(-1.0, 0.0, 1.0), v(1.0, 0.0, 1.0)], // circle
        1 => {
            // lens / moon of two arcs
            let a = t.f(0.1, 1.0);
            let b = if t.chance(1, 3) { -t.f(0.05, 0.7) * a } else { t.f(0.1, 1.0) };
            vec![v(-1.0, 0.0, a), v(1.0, 0.0, b)]
        }
        2 => {
            // capsule
            let l = t.f(0.2, 2.0);
            let r = t.f(0.1, 0.8);
            vec![v(-l, -r, 0.0), v(l, -r, 1.0), v(l, r, 0.0), v(-l, r, 1.0)]
        }
        3 => {
            // annular sector ("C"), two half arcs joined when long
            let r0 = t.f(0.3, 0.8);
            let sweep = t.f(0.5, 5.9);
            let h = (sweep / 8.0).tan();
            let q = |r: f64, a: f64, b: f64| v(r * a.cos(), r * a.sin(), b);
            vec![
                q(1.0, 0.0, h),
                q(1.0, sweep / 2.0, h),
                q(1.0, sweep, 0.0),
                q(r0, sweep, -h),
                q(r0, sweep / 2.0, -h),
                q(r0, 0.0, 0.0),
            ]
        }
        4 => {
            // comb
            let n = 2 + t.idx(4);
            let w = t.f(0.1, 0.35);
            let d = t.f(0.2, 1.5);
            let mut vs = vec![v(0.0, -0.4, 0.0), v(n as f64, -0.4, 0.0)];
            for i in (0..n).rev() {
                let x0 = i as f64;
                let dd = d * (1.0 - 0.5 * t.unit());
                let cap = *t.pick(&[0.0, 1.0, 0.4]);
                vs.push(v(x0 + 1.0 - w, 0.0, 0.0));
                vs.push(v(x0 + 1.0 - w, dd, cap));
                vs.push(v(x0 + w, dd, 0.0));
                vs.push(v(x0 + w, 0.0, 0.0));
            }
            // first/last teeth share the outer corners; rebuild outer corners apart
            vs[1].x += 0.3;
            vs[0].x -= 0.3;
            for q in vs.iter_mut() {
                q.x = (q.x - n as f64 / 2.0) * 0.7;
            }
            if clear(&vs, 0.02) {
                vs
            } else {
                vec![v(-1.0, -1.0, 0.0), v(1.0, -1.0, 0.0), v(1.0, 1.0, 0.0), v(-1.0, 1.0, 0.0)]
            }
        }
        5 => {
            // gear: alternating radii
            let n = 4 + t.idx(6);
            let ri = t.f(0.5, 0.85);
            let bo = nice_bulge(t);
            let bi = nice_bulge(t);
            let mut vs = Vec::new();
            for i in 0..2 * n {
                let a = TAU * i as f64 / (2 * n) as f64;
                let r = if i % 2 == 0 { 1.0 } else { ri };
                vs.push(v(r * a.cos(), r * a.sin(), if i % 2 == 0 { bo } else { bi }));
            }
            tame(vs, 0.02).unwrap_or_else(|| ngon(5))
        }
        6 => {
            // dumbbell: two discs joined by a bar
            let w = t.f(0.05, 0.5);
            let l = t.f(0.3, 1.5);
            let b = t.f(0.3, 1.0);
            let vs = vec![v(-l, -w, 0.0), v(l, -w, b), v(l + 0.8, 0.0, b), v(l, w, 0.0), v(-l, w, b), v(-l - 0.8, 0.0, b)];
            tame(vs, 0.02).unwrap_or_else(|| ngon(6))
        }
        7 => {
            // rectangle
            let w = t.f(0.2, 2.0);
            let h = t.f(0.2, 2.0);
            vec![v(-w, -h, 0.0), v(w, -h, 0.0), v(w, h, 0.0), v(-w, h, 0.0)]
        }
        _ => {
            // wedge of a disc / pie
            let a = t.f(0.3, PI);
            let h = (a / 4.0).tan();
            vec![v(0.0, 0.0, 0.0), v(1.0, 0.0, h), v(a.cos(), a.sin(), 0.0)]
        }
    }
}

/// Outlines in the manner of the library's own tests: mixed arcs and lines of general shape,
/// jittered.
pub fn corpus(t: &mut Tape) -> Vec<V> {
    let base: &[(f64, f64, f64)] = match t.below(6) {
        0 => &[(0.0, 25.0, 1.0), (0.0, 0.0, 0.0), (2.0, 0.0, 1.0), (10.0, 0.0, -0.5), (8.0, 9.0, 0.374794619217547), (21.0, 0.0, 0.0), (23.0, 0.0, 1.0), (32.0, 0.0, -0.5), (28.0, 0.0, 0.5), (39.0, 21.0, 0.0), (28.0, 12.0, 0.5)],
        1 => &[(10.0, 10.0, -0.5), (8.0, 9.0, 0.374794619217547), (21.0, 0.0, 0.0), (23.0, 0.0, 1.0), (32.0, 0.0, -0.5), (28.0, 0.0, 0.5), (38.0, 19.0, 0.0), (28.0, 12.0, 0.5)],
        2 => &[(0.0, 0.0, 0.0), (120.0, 0.0, 0.0), (120.0, 40.0, 0.0), (0.0, 40.0, 0.0)],
        3 => &[(100.0, 100.0, -0.5), (80.0, 90.0, 0.374794619217547), (210.0, 0.0, 0.0), (230.0, 0.0, 1.0), (320.0, 0.0, -0.5), (280.0, 0.0, 0.5), (390.0, 210.0, 0.0), (280.0, 120.0, 0.5)],
        4 => &[(0.0, 0.0, 0.0), (10.0, 0.0, 0.0), (10.0, 6.0, 0.3), (6.0, 8.0, -0.4), (4.0, 14.0, 0.0), (0.0, 10.0, -0.2)],
        _ => &[(-2.0, -2.0, 0.0), (3.0, -3.0, 0.3), (6.0, 1.0, -0.6), (4.0, 3.0, 0.0), (5.0, 7.0, 0.4), (0.0, 8.0, 0.0), (2.0, 4.0, -0.3), (-3.0, 3.0, 0.2)],
    };
    let sz = base.iter().map(|p| p.0.abs().max(p.1.abs())).fold(0.0, f64::max);
    let j = t.f(0.0, 0.12) * sz;
    let vs: Vec<V> = base
        .iter()
        .map(|p| v((p.0 + j * t.f(-1.0, 1.0) - sz * 0.5) / sz * 2.0, (p.1 + j * t.f(-1.0, 1.0) - sz * 0.25) / sz * 2.0, p.2))
        .collect();
    tame(vs, 0.01).unwrap_or_else(|| ngon(4))
}

/// Thickened random walk: a long corridor shape with bends (narrow necks for offsets).
pub fn corridor(t: &mut Tape) -> Vec<V> {
    let n = 2 + t.idx(5);
    let w = t.f(0.08, 0.3);
    let mut p = pt(0.0, 0.0);
    let mut a = 0.0f64;
    let mut left = Vec::new();
    let mut right = Vec::new();
    for i in 0..=n {
        let turn = if i == 0 || i == n { 0.0 } else { t.f(-1.2, 1.2) };
        let dir = a + turn * 0.5;
        let nrm = pt(-dir.sin(), dir.cos());
        let ww = w * (0.5 + t.unit()) / (turn * 0.5).cos();
        left.push(p + nrm * ww);
        right.push(p - nrm * ww);
        a += turn;
        let l = t.f(0.6, 1.4);
        p = p + pt(a.cos(), a.sin()) * l;
    }
    let mut vs: Vec<V> = Vec::new();
    for q in &right {
        vs.push(v(q.x, q.y, 0.0));
    }
    for q in left.iter().rev() {
        vs.push(v(q.x, q.y, 0.0));
    }
    let m = vs.len();
    for q in vs.iter_mut() {
        if t.chance(1, 4) {
            q.b = t.f(-0.3, 0.3);
        }
    }
    if t.chance(1, 2) {
        vs[n].b = 1.0;
        vs[m - 1].b = 1.0;
    }
    let c = vs.iter().fold(pt(0.0, 0.0), |s, q| s + q.p()) * (1.0 / m as f64);
    for q in vs.iter_mut() {
        q.x = (q.x - c.x) * 0.5;
        q.y = (q.y - c.y) * 0.5;
    }
    tame(vs, 0.02).unwrap_or_else(|| ngon(4))
}

/// Clearly simple closed outline of about unit size, counter clockwise.
pub fn simple_unit(t: &mut Tape) -> Vec<V> {
    let vs = match t.weighted(&[4, 3, 3, 2, 2]) {
        0 => star(t, 12),
        1 => special(t),
        2 => {
            let k = polyomino(t, 14);
            let k = decorate(t, k);
            k.iter().map(|q| v(q.x * 0.4, q.y * 0.4, q.b)).collect()
        }
        3 => corpus(t),
        _ => corridor(t),
    };
    let p = Path::new(&vs, true);
    if p.area() < 0.0 {
        reversed(&vs, true)
    } else {
        vs
    }
}

/// Random re-writing of an outline that does not change the curve: start, direction, subdivision.
pub fn rewrite(t: &mut Tape, vs: Vec<V>) -> Vec<V> {
    let mut vs = vs;
    if t.chance(1, 4) {
        vs = subdivide(t, &vs, true);
    }
    if t.chance(1, 2) {
        let k = t.idx(vs.len());
        vs = rotated(&vs, k);
    }
    if t.chance(1, 2) {
        vs = reversed(&vs, true);
    }
    vs
}

/// The same without changing direction.
pub fn rewrite_dir(t: &mut Tape, vs: Vec<V>) -> Vec<V> {
    let mut vs = vs;
    if t.chance(1, 6) {
        vs = subdivide(t, &vs, true);
    }
    if t.chance(1, 2) {
        let k = t.idx(vs.len());
        vs = rotated(&vs, k);
    }
    vs
}

/// Insert extra vertexes on some segments without moving the curve.
pub fn subdivide(t: &mut Tape, vs: &[V], closed: bool) -> Vec<V> {
    let path = Path::new(vs, closed);
    let mut out = Vec::new();
    for (i, q) in vs.iter().enumerate() {
        if i >= path.segs.len() || !t.chance(1, 3) {
            out.push(*q);
            continue;
        }
        let s = &path.segs[i];
        let f = *t.pick(&[0.5, 0.25, 0.7]);
        if s.len() < 0.2 {
            out.push(*q);
            continue;
        }
        let (a, b) = (s.sub(0.0, f), s.sub(f, 1.0));
        out.push(v(q.x, q.y, a.bulge));
        let m = s.at(f);
        out.push(v(m.x, m.y, b.bulge));
    }
    out
}

pub fn rand_sim(t: &mut Tape, smin: f64, smax: f64, tmax: f64) -> Sim {
    Sim {
        s: t.logf(smin, smax),
        rot: match t.weighted(&[2, 3, 1]) {
            0 => 0.0,
            1 => t.f(0.0, TAU),
            _ => PI / 2.0 * t.below(4) as f64,
        },
        mirror: false,
        t: pt(t.f(-tmax, tmax), t.f(-tmax, tmax)),
    }
}

/// Clearly simple closed outline with size in [smin, smax].
pub fn simple_closed(t: &mut Tape, smin: f64, smax: f64) -> Vec<V> {
    let vs = simple_unit(t);
    let s = rand_sim(t, smin, smax, smax);
    let vs = s.vs(&vs);
    rewrite(t, vs)
}

/// Any polyline without repeated positions, possibly self-intersecting; `n` vertexes.
pub fn wild(t: &mut Tape, nmin: usize, nmax: usize, closed: bool) -> Vec<V> {
    let n = nmin + t.idx(nmax - nmin + 1);
    let grid = t.chance(1, 3);
    let arcs = t.weighted(&[1, 2, 2]);
    let size = t.logf(1.0, 50.0);
    let mut vs: Vec<V> = Vec::new();
    let walk = t.chance(1, 2);
    let mut cur = pt(0.0, 0.0);
    for i in 0..n {
        let mut p = cur;
        for k in 0..6 {
            p = if grid {
                if walk {
                    pt(cur.x + t.int(-2, 2) as f64, cur.y + t.int(-2, 2) as f64)
                } else {
                    pt(t.int(-5, 5) as f64, t.int(-5, 5) as f64)
                }
            } else if walk {
                pt(cur.x + t.f(-1.0, 1.0) * size * 0.4, cur.y + t.f(-1.0, 1.0) * size * 0.4)
            } else {
                pt(t.f(-size, size), t.f(-size, size))
            };
            let bad_prev = i > 0 && p.dist(vs[i - 1].p()) < 1e-2;
            let bad_first = closed && i + 1 == n && i > 0 && p.dist(vs[0].p()) < 1e-2;
            if !bad_prev && !bad_first {
                break;
            }
            if k == 5 {
                p = pt(cur.x + 1.0 + size * 0.01, cur.y + 0.37 * (i + 1) as f64);
            }
        }
        let b = match arcs {
            0 => 0.0,
            1 => nice_bulge(t),
            _ => t.f(-1.0, 1.0),
        };
        vs.push(v(p.x, p.y, b));
        cur = p;
    }
    // guarantee the no-repeat precondition
    let m = vs.len();
    let mut ok = true;
    for i in 1..m {
        ok &= vs[i].p().dist(vs[i - 1].p()) > 1e-3;
    }
    if closed && m > 1 {
        ok &= vs[m - 1].p().dist(vs[0].p()) > 1e-3;
    }
    if !ok {
        return ngon(n.max(2));
    }
    vs
}
