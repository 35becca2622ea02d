//! Pairs of outlines for boolean operations and polyline/polyline intersection.
use crate::gen::*;
use crate::geo::*;
use crate::tape::Tape;
use std::f64::consts::{PI, TAU};

pub struct Pair {
    pub a: Vec<V>,
    pub b: Vec<V>,
    pub class: &'static str,
    /// overall size, for tolerances
    pub size: f64,
    /// true when the arrangement is exactly aligned by construction (shared edges, vertex touches)
    pub aligned: bool,
}

/// True if every contact of the two paths is clear-cut: a transversal crossing well inside both
/// segments, an exact meeting at an end point, an exact tangency, or an exact overlap; everything
/// else stays at least `g` apart. (Contacts that are neither exact nor clear are decided by the
/// library's position tolerance, so no definite answer can be demanded there.)
pub fn well_conditioned(a: &Path, b: &Path, g: f64) -> bool {
    a.segs.iter().all(|s| b.segs.iter().all(|t| farther_than(s, t, g) || pair_conditioned(s, t, g)))
}

/// A crossing at so small an angle, or so little into a small arc, that the position tolerance may
/// make it a tangency.
pub fn shallow(s: &Seg, t: &Seg, sin: f64) -> bool {
    let r = [s, t].iter().filter_map(|k| k.arc.as_ref()).map(|k| k.r).fold(f64::INFINITY, f64::min);
    sin < 0.03 || sin * sin * r < 1e-4
}

/// The same for two segments that come closer than `g`.
pub fn pair_conditioned(s: &Seg, t: &Seg, g: f64) -> bool {
    const EXACT: f64 = 1e-9;
    let clear_or_exact = |d: f64| d >= g || d <= EXACT;
    // end points against the other segment: clear or exact
    for e in [t.a, t.b] {
        if !clear_or_exact(s.dist(e)) || !clear_or_exact(s.a.dist(e)) || !clear_or_exact(s.b.dist(e)) {
            return false;
        }
    }
    for e in [s.a, s.b] {
        if !clear_or_exact(t.dist(e)) {
            return false;
        }
    }
    if same_support(s, t, EXACT) {
        return true;
    }
    let mut contacts: Vec<Pt> = Vec::new();
    for c in crossings(s, t, 0.0) {
        contacts.push(c.p);
    }
    for (e, o) in [(t.a, s), (t.b, s), (s.a, t), (s.b, t)] {
        if o.dist(e) <= EXACT {
            contacts.push(e);
        }
    }
    if contacts.is_empty() {
        return false;
    }
    for c in &contacts {
        let (t1, t2) = (s.closest_t(*c), t.closest_t(*c));
        let sin = s.tan(t1).cross(t.tan(t2)).abs();
        if sin > 1e-6 && shallow(s, t, sin) {
            return false;
        }
        for e in [s.a, s.b, t.a, t.b] {
            let d = e.dist(*c);
            if !(d >= g || d <= 1e-6) {
                return false;
            }
        }
        for c2 in &contacts {
            let d = c2.dist(*c);
            if !(d >= g || d <= 1e-6) {
                return false;
            }
        }
    }
    // pieces away from the contacts must be apart
    let near = g / 0.02;
    for k in 0..=16 {
        let p = s.at(k as f64 / 16.0);
        if t.dist(p) < g && contacts.iter().all(|c| c.dist(p) > near) {
            return false;
        }
        let p = t.at(k as f64 / 16.0);
        if s.dist(p) < g && contacts.iter().all(|c| c.dist(p) > near) {
            return false;
        }
    }
    true
}

/// Where two segments meet: isolated contacts and shared stretches (in the second's direction).
#[derive(Clone, Debug, Default)]
pub struct Meet {
    /// point, and whether the segments are tangent there
    pub contacts: Vec<(Pt, bool)>,
    pub overlaps: Vec<(Pt, Pt)>,
}

/// Where s and t meet, or None when that depends on tolerances.
pub fn meet(s: &Seg, t: &Seg, g: f64) -> Option<Meet> {
    let mut m = Meet::default();
    if farther_than(s, t, g) {
        return Some(m);
    }
    if !pair_conditioned(s, t, g) {
        return None;
    }
    let mut pts: Vec<Pt> = Vec::new();
    let mut add = |p: Pt| {
        if pts.iter().all(|q| q.dist(p) > 1e-6) {
            pts.push(p);
        }
    };
    for (e, o) in [(t.a, s), (t.b, s), (s.a, t), (s.b, t)] {
        if o.dist(e) <= 1e-8 {
            add(e);
        }
    }
    if same_support(s, t, 1e-9) {
        pts.sort_by(|p, q| t.closest_t(*p).total_cmp(&t.closest_t(*q)));
        let mut used = vec![false; pts.len()];
        for k in 1..pts.len() {
            let mid = 0.5 * (t.closest_t(pts[k - 1]) + t.closest_t(pts[k]));
            if s.dist(t.at(mid)) <= 1e-7 {
                m.overlaps.push((pts[k - 1], pts[k]));
                used[k - 1] = true;
                used[k] = true;
            }
        }
        for k in 0..pts.len() {
            if !used[k] {
                m.contacts.push((pts[k], true));
            }
        }
        return Some(m);
    }
    for c in crossings(s, t, 0.0) {
        add(c.p);
    }
    for p in pts {
        let sin = s.tan(s.closest_t(p)).cross(t.tan(t.closest_t(p))).abs();
        // nearly tangent at an end of a large arc: the exact contact may lie beyond the end
        let big = [s, t].iter().filter_map(|k| k.arc.as_ref()).map(|k| k.r).fold(0.0, f64::max);
        if sin < 1e-3 && sin * big > 2e-6 && [s.a, s.b, t.a, t.b].iter().any(|e| e.dist(p) < 1e-4) {
            return None;
        }
        m.contacts.push((p, sin < 1e-3));
    }
    // nearly one line or circle
    if m.contacts.len() > 1 && m.contacts.iter().any(|c| c.1) {
        return None;
    }
    m.contacts.sort_by(|p, q| t.closest_t(p.0).total_cmp(&t.closest_t(q.0)));
    Some(m)
}

fn sector_piece(t: &mut Tape) -> Vec<V> {
    // ring or pie pieces of concentric circles at multiples of 15 degrees
    let step = PI / 12.0;
    let i0 = t.int(0, 23);
    let n = t.int(1, 22);
    let radii = [0.5, 1.0, 1.5];
    let (ri, ro) = *t.pick(&[(0usize, 1usize), (1, 2), (0, 2)]);
    let inner = radii[ri];
    let outer = radii[ro];
    let q = |r: f64, i: f64, b: f64| v(r * (i * step).cos(), r * (i * step).sin(), b);
    let (s, e) = (i0 as f64, (i0 + n) as f64);
    let mut vs = Vec::new();
    // split arcs longer than a half turn
    let parts = if n > 12 { 2.0 } else { *t.pick(&[1.0, 2.0]) };
    let h = ((n as f64) * step / parts / 4.0).tan();
    for k in 0..parts as i64 {
        vs.push(q(outer, s + (e - s) * k as f64 / parts, h));
    }
    vs.push(q(outer, e, 0.0));
    if t.chance(1, 4) && n < 12 && n > 1 {
        // pie
        vs.push(v(0.0, 0.0, 0.0));
        return vs;
    }
    for k in 0..parts as i64 {
        vs.push(q(inner, e - (e - s) * k as f64 / parts, -h));
    }
    vs.push(q(inner, s, 0.0));
    vs
}

fn circle_at(c: Pt, r: f64, rot: f64) -> Vec<V> {
    let d = pt(rot.cos(), rot.sin()) * r;
    vec![v(c.x - d.x, c.y - d.y, 1.0), v(c.x + d.x, c.y + d.y, 1.0)]
}

fn size_of(a: &[V]) -> f64 {
    let b = Path::new(a, true).bbox();
    (b[2] - b[0]).max(b[3] - b[1])
}

pub fn interior_point(t: &mut Tape, p: &Path) -> Option<(Pt, f64)> {
    let b = p.bbox();
    let mut best: Option<(Pt, f64)> = None;
    for _ in 0..24 {
        let q = pt(t.f(b[0], b[2]), t.f(b[1], b[3]));
        let d = p.dist(q);
        if d > 1e-6 && p.winding(q).is_some_and(|w| w != 0) && best.map_or(true, |x| d > x.1) {
            best = Some((q, d));
        }
    }
    best
}

pub fn bool_pair(t: &mut Tape) -> Pair {
    let mode = t.weighted(&[8, 6, 3, 4, 2, 1, 2, 3, 2]);
    let (a, b, class, aligned): (Vec<V>, Vec<V>, &'static str, bool) = match mode {
        0 => {
            let a = simple_unit(t);
            let b = simple_unit(t);
            let s = Sim { s: t.logf(0.15, 1.6), rot: t.f(0.0, TAU), mirror: t.chance(1, 2), t: pt(t.f(-1.2, 1.2), t.f(-1.2, 1.2)) };
            (a, s.vs(&b), "general", false)
        }
        1 => {
            let a = polyomino(t, 14);
            let a = decorate(t, a);
            let b = polyomino(t, 10);
            let b = decorate(t, b);
            let s = Sim {
                s: 1.0,
                rot: PI / 2.0 * t.below(4) as f64,
                mirror: false,
                t: pt(t.int(-6, 6) as f64 * 0.5, t.int(-6, 6) as f64 * 0.5),
            };
            // exact quarter rotations
            let b = b
                .iter()
                .map(|q| {
                    let mut p = q.p();
                    for _ in 0..(s.rot / (PI / 2.0)).round() as i64 {
                        p = pt(-p.y, p.x);
                    }
                    v(p.x + s.t.x, p.y + s.t.y, q.b)
                })
                .collect();
            (a, b, "grid", true)
        }
        2 => {
            let a = simple_unit(t);
            let n = a.len();
            let i = t.idx(n);
            let d = a[(i + 1) % n].p() - a[i].p();
            let k = *t.pick(&[1.0, 0.5, -0.25, -1.0]);
            let b = a.iter().map(|q| v(q.x + d.x * k, q.y + d.y * k, q.b)).collect();
            (a, b, "slid-copy", true)
        }
        3 => (sector_piece(t), sector_piece(t), "sectors", true),
        4 => {
            let a = simple_unit(t);
            let pa = Path::new(&a, true);
            match interior_point(t, &pa) {
                Some((q, d)) => {
                    let b = simple_unit(t);
                    let m = b.iter().map(|x| x.p().len()).fold(0.0, f64::max) * 1.8;
                    let s = Sim { s: d * t.f(0.1, 0.9) / m, rot: t.f(0.0, TAU), mirror: false, t: q };
                    (a, s.vs(&b), "nested", false)
                }
                None => (a.clone(), a, "identical", true),
            }
        }
        5 => {
            let a = simple_unit(t);
            let b = simple_unit(t);
            let g = t.f(0.0, TAU);
            let s = Sim { s: t.logf(0.3, 2.0), rot: t.f(0.0, TAU), mirror: false, t: pt(g.cos(), g.sin()) * t.f(2.0, 9.0) };
            (a, s.vs(&b), "apart", false)
        }
        6 => {
            let a = simple_unit(t);
            (a.clone(), a, "identical", true)
        }
        7 => {
            // part of A cut off along a chord between two of its vertexes
            let a = simple_unit(t);
            let n = a.len();
            let i = t.idx(n);
            let k = 2 + t.idx(n.max(3) - 2);
            let mut b = Vec::new();
            for j in 0..=k.min(n - 1) {
                b.push(a[(i + j) % n]);
            }
            let l = b.len() - 1;
            b[l].b = if t.chance(1, 3) { t.f(-0.6, 0.6) } else { 0.0 };
            if b.len() >= 2 && clearly_simple(&Path::new(&b, true), 0.02, 0.05) {
                (a, b, "shared-part", true)
            } else {
                let s = Sim { s: 1.0, rot: 0.0, mirror: false, t: pt(0.3, 0.1) };
                let b = s.vs(&a);
                (a, b, "general", false)
            }
        }
        _ => {
            // circles on a grid: tangent, concentric, crossing
            let r1 = *t.pick(&[1.0, 0.5, 1.5, 2.0]);
            let r2 = *t.pick(&[1.0, 0.5, 1.5, 2.0]);
            let c = pt(t.int(-4, 4) as f64 * 0.5, t.int(-4, 4) as f64 * 0.5);
            let rr = PI / 4.0 * t.below(8) as f64;
            (circle_at(pt(0.0, 0.0), r1, 0.0), circle_at(c, r2, rr), "circles", true)
        }
    };
    // Exactly aligned arrangements may contain tangencies, whose location is only determined up to
    // sqrt(rounding * size); keep that well below the library's 1e-5 position tolerance.
    let (smax, tmax) = if aligned { (12.0, 15.0) } else { (150.0, 100.0) };
    let s = Sim {
        s: match t.weighted(&[2, 4, 1]) {
            0 => 1.0,
            1 => t.logf(2.0, smax),
            // small, down to features of some hundred tolerances
            _ => t.logf(0.02, 1.0),
        },
        rot: if t.chance(1, 2) { t.f(0.0, TAU) } else { 0.0 },
        mirror: false,
        t: pt(t.f(-tmax, tmax), t.f(-tmax, tmax)),
    };
    let s = if t.chance(1, 3) { Sim { s: 5.0, rot: 0.0, mirror: false, t: pt(0.0, 0.0) } } else { s };
    let a = rewrite(t, s.vs(&a));
    let b = rewrite(t, s.vs(&b));
    let (a, b) = if t.chance(1, 2) { (b, a) } else { (a, b) };
    let size = size_of(&a).max(size_of(&b));
    Pair { a, b, class, size, aligned }
}
