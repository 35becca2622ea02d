//! Independent reference geometry (shares no code with the library under test).
use std::f64::consts::{PI, TAU};

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Pt {
    pub x: f64,
    pub y: f64,
}

pub fn pt(x: f64, y: f64) -> Pt {
    Pt { x, y }
}

impl std::ops::Add for Pt {
    type Output = Pt;
    fn add(self, o: Pt) -> Pt {
        pt(self.x + o.x, self.y + o.y)
    }
}
impl std::ops::Sub for Pt {
    type Output = Pt;
    fn sub(self, o: Pt) -> Pt {
        pt(self.x - o.x, self.y - o.y)
    }
}
impl std::ops::Mul<f64> for Pt {
    type Output = Pt;
    fn mul(self, k: f64) -> Pt {
        pt(self.x * k, self.y * k)
    }
}
impl Pt {
    pub fn dot(self, o: Pt) -> f64 {
        self.x * o.x + self.y * o.y
    }
    pub fn cross(self, o: Pt) -> f64 {
        self.x * o.y - self.y * o.x
    }
    pub fn len(self) -> f64 {
        self.x.hypot(self.y)
    }
    pub fn dist(self, o: Pt) -> f64 {
        (self - o).len()
    }
    pub fn left(self) -> Pt {
        pt(-self.y, self.x)
    }
    pub fn unit(self) -> Pt {
        let l = self.len();
        pt(self.x / l, self.y / l)
    }
    pub fn ang(self) -> f64 {
        self.y.atan2(self.x)
    }
}

#[derive(Clone, Copy, Debug)]
pub struct Arc {
    pub c: Pt,
    pub r: f64,
    pub a0: f64,
    /// signed sweep, positive counter clockwise
    pub sweep: f64,
}

#[derive(Clone, Copy, Debug)]
pub struct Seg {
    pub a: Pt,
    pub b: Pt,
    pub bulge: f64,
    pub arc: Option<Arc>,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct V {
    pub x: f64,
    pub y: f64,
    pub b: f64,
}
pub fn v(x: f64, y: f64, b: f64) -> V {
    V { x, y, b }
}
impl V {
    pub fn p(&self) -> Pt {
        pt(self.x, self.y)
    }
}

/// Bulges with magnitude up to this are straight lines for the library.
pub const BULGE_ZERO: f64 = 1e-8;

impl Seg {
    pub fn new(a: Pt, b: Pt, bulge: f64) -> Seg {
        let d = b - a;
        let arc = if bulge.abs() <= BULGE_ZERO || d.len() == 0.0 {
            None
        } else {
            // center = midpoint + left * chord * (1 - k^2) / (4 k)
            let k = bulge;
            let m = (a + b) * 0.5;
            let c = m + d.left() * ((1.0 - k * k) / (4.0 * k));
            let r = d.len() * (1.0 + k * k) / (4.0 * k.abs());
            let sweep = 4.0 * k.atan();
            Some(Arc { c, r, a0: (a - c).ang(), sweep })
        };
        Seg { a, b, bulge, arc }
    }
    pub fn len(&self) -> f64 {
        match &self.arc {
            None => self.a.dist(self.b),
            Some(k) => k.r * k.sweep.abs(),
        }
    }
    /// Point at fraction t of the segment.
    pub fn at(&self, t: f64) -> Pt {
        if t <= 0.0 {
            return self.a;
        }
        if t >= 1.0 {
            return self.b;
        }
        match &self.arc {
            None => self.a + (self.b - self.a) * t,
            Some(k) => {
                let g = k.a0 + k.sweep * t;
                k.c + pt(g.cos(), g.sin()) * k.r
            }
        }
    }
    /// Unit tangent (direction of travel) at fraction t.
    pub fn tan(&self, t: f64) -> Pt {
        match &self.arc {
            None => (self.b - self.a).unit(),
            Some(k) => {
                let g = k.a0 + k.sweep * t;
                let n = pt(g.cos(), g.sin());
                if k.sweep > 0.0 {
                    n.left()
                } else {
                    n.left() * -1.0
                }
            }
        }
    }
    /// Fraction of sweep at the direction of p as seen from the center, in [0, TAU/|sweep|).
    fn arc_frac(k: &Arc, p: Pt) -> f64 {
        let g = (p - k.c).ang();
        let mut d = if k.sweep > 0.0 { g - k.a0 } else { k.a0 - g };
        d = d.rem_euclid(TAU);
        d / k.sweep.abs()
    }
    /// Fraction in [0,1] of the closest point on the segment.
    pub fn closest_t(&self, p: Pt) -> f64 {
        match &self.arc {
            None => {
                let d = self.b - self.a;
                let l2 = d.dot(d);
                if l2 == 0.0 {
                    0.0
                } else {
                    ((p - self.a).dot(d) / l2).clamp(0.0, 1.0)
                }
            }
            Some(k) => {
                if p.dist(k.c) > 1e-12 * k.r {
                    let f = Self::arc_frac(k, p);
                    if f <= 1.0 {
                        return f;
                    }
                }
                if p.dist(self.a) <= p.dist(self.b) {
                    0.0
                } else {
                    1.0
                }
            }
        }
    }
    pub fn dist(&self, p: Pt) -> f64 {
        match &self.arc {
            None => p.dist(self.at(self.closest_t(p))),
            Some(k) => {
                let e = p.dist(self.a).min(p.dist(self.b));
                let d = p.dist(k.c);
                if d <= 1e-12 * k.r {
                    return k.r.min(e);
                }
                if Self::arc_frac(k, p) <= 1.0 {
                    (d - k.r).abs().min(e)
                } else {
                    e
                }
            }
        }
    }
    pub fn rev(&self) -> Seg {
        Seg::new(self.b, self.a, -self.bulge)
    }
    /// Sub segment between fractions.
    pub fn sub(&self, t0: f64, t1: f64) -> Seg {
        let b = if self.arc.is_some() { (self.bulge.atan() * (t1 - t0)).tan() } else { 0.0 };
        Seg::new(self.at(t0), self.at(t1), b)
    }
    /// Bounding box (min_x, min_y, max_x, max_y).
    pub fn bbox(&self) -> [f64; 4] {
        let mut r = [self.a.x.min(self.b.x), self.a.y.min(self.b.y), self.a.x.max(self.b.x), self.a.y.max(self.b.y)];
        if let Some(k) = &self.arc {
            for (i, q) in [pt(1.0, 0.0), pt(0.0, 1.0), pt(-1.0, 0.0), pt(0.0, -1.0)].iter().enumerate() {
                let p = k.c + *q * k.r;
                if Self::arc_frac(k, p) <= 1.0 {
                    match i {
                        0 => r[2] = r[2].max(p.x),
                        1 => r[3] = r[3].max(p.y),
                        2 => r[0] = r[0].min(p.x),
                        _ => r[1] = r[1].min(p.y),
                    }
                }
            }
        }
        r
    }
    /// Green's theorem contribution: integral of (x dy - y dx)/2 along the segment.
    pub fn green(&self) -> f64 {
        let base = self.a.cross(self.b) * 0.5;
        match &self.arc {
            None => base,
            // circular segment between chord and arc, signed
            Some(k) => base + 0.5 * k.r * k.r * (k.sweep - k.sweep.sin()),
        }
    }
    /// Angle swept by the vector from p to the moving point.
    fn turn(&self, p: Pt, depth: u32) -> f64 {
        let chord_turn = |a: Pt, b: Pt| {
            let (u, w) = (a - p, b - p);
            u.cross(w).atan2(u.dot(w))
        };
        match &self.arc {
            None => chord_turn(self.a, self.b),
            Some(k) => {
                let d = self.b - self.a;
                let l = d.len();
                let h = if l > 0.0 { d.cross(p - self.a) / l } else { 0.0 };
                // distance to the chord; split when p is close to the chord line
                if depth < 24 && (k.sweep.abs() > PI * 0.51 || h.abs() < 1e-3 * l) {
                    // only matters if p is near the arc's hull
                    let m = self.at(0.5);
                    let hb = (self.bulge.atan() * 0.5).tan();
                    return Seg { a: self.a, b: m, bulge: hb, arc: Some(Arc { sweep: k.sweep * 0.5, ..*k }) }.turn(p, depth + 1)
                        + Seg { a: m, b: self.b, bulge: hb, arc: Some(Arc { sweep: k.sweep * 0.5, a0: k.a0 + k.sweep * 0.5, ..*k }) }
                            .turn(p, depth + 1);
                }
                let base = chord_turn(self.a, self.b);
                // p strictly between chord and arc?
                let in_circle = p.dist(k.c) < k.r;
                // arc bulges to the right of the chord for positive bulge
                let arc_side = if self.bulge > 0.0 { h < 0.0 } else { h > 0.0 };
                if in_circle && arc_side {
                    base + if self.bulge > 0.0 { TAU } else { -TAU }
                } else {
                    base
                }
            }
        }
    }
}

#[derive(Clone, Debug)]
pub struct Path {
    pub segs: Vec<Seg>,
    pub closed: bool,
}

impl Path {
    pub fn new(vs: &[V], closed: bool) -> Path {
        let n = vs.len();
        let mut segs = Vec::new();
        if n >= 2 {
            for i in 0..n - 1 {
                segs.push(Seg::new(vs[i].p(), vs[i + 1].p(), vs[i].b));
            }
            if closed {
                segs.push(Seg::new(vs[n - 1].p(), vs[0].p(), vs[n - 1].b));
            }
        }
        Path { segs, closed }
    }
    pub fn dist(&self, p: Pt) -> f64 {
        self.segs.iter().map(|s| s.dist(p)).fold(f64::INFINITY, f64::min)
    }
    /// Distance if below `cap`, otherwise any value >= cap.
    pub fn len(&self) -> f64 {
        self.segs.iter().map(|s| s.len()).sum()
    }
    pub fn area(&self) -> f64 {
        // shift to the first point to limit cancellation
        if !self.closed || self.segs.is_empty() {
            return 0.0;
        }
        let o = self.segs[0].a;
        self.segs
            .iter()
            .map(|s| {
                let base = (s.a - o).cross(s.b - o) * 0.5;
                match &s.arc {
                    None => base,
                    Some(k) => base + 0.5 * k.r * k.r * (k.sweep - k.sweep.sin()),
                }
            })
            .sum()
    }
    pub fn bbox(&self) -> [f64; 4] {
        let mut r = [f64::INFINITY, f64::INFINITY, f64::NEG_INFINITY, f64::NEG_INFINITY];
        for s in &self.segs {
            let b = s.bbox();
            r = [r[0].min(b[0]), r[1].min(b[1]), r[2].max(b[2]), r[3].max(b[3])];
        }
        r
    }
    /// Exact winding number for a point off the path; None if the result is numerically unclear.
    pub fn winding(&self, p: Pt) -> Option<i32> {
        if !self.closed || self.segs.is_empty() {
            return Some(0);
        }
        let t: f64 = self.segs.iter().map(|s| s.turn(p, 0)).sum::<f64>() / TAU;
        let r = t.round();
        if (t - r).abs() < 1e-3 {
            Some(r as i32)
        } else {
            None
        }
    }
    pub fn at_len(&self, target: f64) -> (usize, Pt) {
        let mut acc = 0.0;
        for (i, s) in self.segs.iter().enumerate() {
            let l = s.len();
            if target <= acc + l || i + 1 == self.segs.len() {
                let t = if l > 0.0 { (target - acc) / l } else { 0.0 };
                return (i, s.at(t));
            }
            acc += l;
        }
        (0, pt(0.0, 0.0))
    }
    pub fn samples(&self, per_seg: usize) -> Vec<Pt> {
        let mut r = Vec::new();
        for s in &self.segs {
            for k in 0..per_seg {
                r.push(s.at(k as f64 / per_seg as f64));
            }
        }
        if let Some(s) = self.segs.last() {
            r.push(s.b);
        }
        r
    }
}

/// A crossing of two segments: location, fractions on each, and the sine of the crossing angle.
#[derive(Clone, Copy, Debug)]
pub struct Cross {
    pub p: Pt,
    pub t1: f64,
    pub t2: f64,
    pub sin: f64,
}

/// All isolated intersections of the two supporting curves that fall on both segments when each
/// is extended by `slack` (absolute length) past its ends. Overlapping/concentric curves and
/// curves whose gap is ambiguous give no entries here.
pub fn crossings(s1: &Seg, s2: &Seg, slack: f64) -> Vec<Cross> {
    let mut pts: Vec<Pt> = Vec::new();
    match (&s1.arc, &s2.arc) {
        (None, None) => {
            let (d1, d2) = (s1.b - s1.a, s2.b - s2.a);
            let den = d1.cross(d2);
            if den.abs() > 1e-14 * d1.len() * d2.len() {
                let t = (s2.a - s1.a).cross(d2) / den;
                pts.push(s1.a + d1 * t);
            }
        }
        (None, Some(k)) | (Some(k), None) => {
            let l = if s1.arc.is_none() { s1 } else { s2 };
            let d = (l.b - l.a).unit();
            let f = l.a + d * (k.c - l.a).dot(d);
            let h2 = k.r * k.r - (f - k.c).dot(f - k.c);
            if h2 >= 0.0 {
                let h = h2.sqrt();
                pts.push(f + d * h);
                pts.push(f - d * h);
            } else if f.dist(k.c) - k.r < slack {
                pts.push(f);
            }
        }
        (Some(k1), Some(k2)) => {
            let d = k1.c.dist(k2.c);
            if d > 1e-12 * (k1.r + k2.r) {
                let u = (k2.c - k1.c) * (1.0 / d);
                let a = (d * d + k1.r * k1.r - k2.r * k2.r) / (2.0 * d);
                let h2 = k1.r * k1.r - a * a;
                if h2 >= 0.0 {
                    let h = h2.sqrt();
                    pts.push(k1.c + u * a + u.left() * h);
                    pts.push(k1.c + u * a - u.left() * h);
                } else if (d - k1.r - k2.r) < slack && d > k1.r + k2.r {
                    pts.push(k1.c + u * k1.r);
                }
            }
        }
    }
    let mut out = Vec::new();
    for p in pts {
        let p = polish(s1, s2, p);
        if s1.dist(p) <= slack + 1e-9 && s2.dist(p) <= slack + 1e-9 {
            let (t1, t2) = (s1.closest_t(p), s2.closest_t(p));
            let sin = s1.tan(t1).cross(s2.tan(t2)).abs();
            out.push(Cross { p, t1, t2, sin });
        }
    }
    if out.len() == 2 && out[0].p.dist(out[1].p) < 1e-9 {
        out.pop();
    }
    out
}

/// Newton iterations on the inscribed angle equations of both supports, which stay well
/// conditioned for arcs of very large radius.
fn polish(s1: &Seg, s2: &Seg, p: Pt) -> Pt {
    let f = |s: &Seg, p: Pt| -> (f64, Pt) {
        let h = 2.0 * s.bulge.atan();
        let (c, n) = (h.cos(), h.sin());
        let (u, w) = (s.a - p, s.b - p);
        let l = (s.b - s.a).len();
        let val = (u.cross(w) * c - u.dot(w) * n) / l;
        // derivative by p
        let gx = ((s.a.y - s.b.y) * c + (u.x + w.x) * n) / l;
        let gy = ((s.b.x - s.a.x) * c + (u.y + w.y) * n) / l;
        (val, pt(gx, gy))
    };
    let mut q = p;
    for _ in 0..3 {
        let (f1, g1) = f(s1, q);
        let (f2, g2) = f(s2, q);
        let det = g1.cross(g2);
        if det.abs() < 1e-6 * g1.len() * g2.len() || !det.is_finite() {
            return p;
        }
        q = pt(q.x - (f1 * g2.y - f2 * g1.y) / det, q.y - (g1.x * f2 - g2.x * f1) / det);
    }
    let moved = q.dist(p);
    if moved.is_finite() && moved < 1e-3 * (s1.len() + s2.len()) {
        q
    } else {
        p
    }
}

/// True if the two segments lie on the same line or circle (within eps).
pub fn same_support(s1: &Seg, s2: &Seg, eps: f64) -> bool {
    match (&s1.arc, &s2.arc) {
        (None, None) => {
            let d = (s1.b - s1.a).unit();
            (s2.a - s1.a).cross(d).abs() <= eps && (s2.b - s1.a).cross(d).abs() <= eps
        }
        (Some(a), Some(b)) => a.c.dist(b.c) <= eps && (a.r - b.r).abs() <= eps,
        _ => false,
    }
}

/// Conservative test that two segments stay farther apart than `gap`: recursive subdivision.
pub fn farther_than(s1: &Seg, s2: &Seg, gap: f64) -> bool {
    fn rec(s1: &Seg, s2: &Seg, gap: f64, depth: u32) -> bool {
        // lower bound: distance between midpoints minus half lengths
        let d = s1.at(0.5).dist(s2.at(0.5));
        let (l1, l2) = (s1.len(), s2.len());
        if d - 0.5 * (l1 + l2) > gap {
            return true;
        }
        if d <= gap || s1.a.dist(s2.a) <= gap {
            return false;
        }
        if depth == 0 || l1 + l2 < gap * 0.05 {
            return false;
        }
        if l1 >= l2 {
            rec(&s1.sub(0.0, 0.5), s2, gap, depth - 1) && rec(&s1.sub(0.5, 1.0), s2, gap, depth - 1)
        } else {
            rec(s1, &s2.sub(0.0, 0.5), gap, depth - 1) && rec(s1, &s2.sub(0.5, 1.0), gap, depth - 1)
        }
    }
    // quick box test
    let (a, b) = (s1.bbox(), s2.bbox());
    if a[2] + gap < b[0] || b[2] + gap < a[0] || a[3] + gap < b[1] || b[3] + gap < a[1] {
        return true;
    }
    rec(s1, s2, gap, 40)
}

/// A polyline is clearly simple: non adjacent segments stay `gap` apart, adjacent segments meet
/// only at their shared vertex and leave it at a clear angle.
pub fn clearly_simple(path: &Path, gap: f64, min_turn_sin: f64) -> bool {
    let n = path.segs.len();
    if n == 0 || (path.closed && n < 2) {
        return false;
    }
    for s in &path.segs {
        if s.len() < gap {
            return false;
        }
    }
    for i in 0..n {
        for j in i + 1..n {
            let (s, t) = (&path.segs[i], &path.segs[j]);
            let adj_fwd = j == i + 1;
            let adj_wrap = path.closed && i == 0 && j == n - 1;
            if adj_fwd || adj_wrap {
                // orient so that u ends where w begins
                let (u, w) = if adj_fwd { (s, t) } else { (t, s) };
                let both = adj_fwd && adj_wrap; // two segment closed path
                // leaving angle: reject spikes (w doubling back along u)
                let tu = u.tan(1.0);
                let tw = w.tan(0.0);
                if tu.dot(tw) < 0.0 && tu.cross(tw).abs() < min_turn_sin {
                    return false;
                }
                if both {
                    let tu = w.tan(1.0);
                    let tw = u.tan(0.0);
                    if tu.dot(tw) < 0.0 && tu.cross(tw).abs() < min_turn_sin {
                        return false;
                    }
                }
                // other contacts: compare pieces away from the shared vertex
                if !adjacent_clear(u, w, gap, both) {
                    return false;
                }
            } else if !farther_than(s, t, gap) {
                return false;
            }
        }
    }
    true
}

fn adjacent_clear(u: &Seg, w: &Seg, gap: f64, both: bool) -> bool {
    for c in crossings(u, w, 0.0) {
        let at_joint = c.p.dist(u.b) < 1e-7 || (both && c.p.dist(u.a) < 1e-7);
        if !at_joint {
            return false;
        }
    }
    // curves running back alongside each other: sample
    let lu = u.len();
    let lw = w.len();
    for k in 1..=8 {
        let t = k as f64 / 8.0;
        let p = u.at(1.0 - t);
        if both && t > 0.9 {
            continue;
        }
        let need = gap.min(0.2 * t * lu).min(if both { 0.2 * (1.0 - t) * lu } else { f64::INFINITY });
        if w.dist(p) < need {
            return false;
        }
        let q = w.at(t);
        if both && t > 0.9 {
            continue;
        }
        let need = gap.min(0.2 * t * lw).min(if both { 0.2 * (1.0 - t) * lw } else { f64::INFINITY });
        if u.dist(q) < need {
            return false;
        }
    }
    true
}

/// Similarity transform: scale, rotate, optional mirror (y -> -y first), translate.
#[derive(Clone, Copy, Debug)]
pub struct Sim {
    pub s: f64,
    pub rot: f64,
    pub mirror: bool,
    pub t: Pt,
}
impl Sim {
    pub fn id() -> Sim {
        Sim { s: 1.0, rot: 0.0, mirror: false, t: pt(0.0, 0.0) }
    }
    pub fn p(&self, p: Pt) -> Pt {
        let y = if self.mirror { -p.y } else { p.y };
        let (c, s) = if self.rot == 0.0 { (1.0, 0.0) } else { (self.rot.cos(), self.rot.sin()) };
        pt((p.x * c - y * s) * self.s + self.t.x, (p.x * s + y * c) * self.s + self.t.y)
    }
    pub fn vs(&self, vs: &[V]) -> Vec<V> {
        vs.iter()
            .map(|q| {
                let p = self.p(q.p());
                v(p.x, p.y, if self.mirror { -q.b } else { q.b })
            })
            .collect()
    }
}

pub fn reversed(vs: &[V], closed: bool) -> Vec<V> {
    let n = vs.len();
    if n == 0 {
        return vec![];
    }
    let mut out = Vec::with_capacity(n);
    for i in (0..n).rev() {
        // outgoing bulge of vertex i after reversal = -(bulge of segment ending at i)
        let b = if i > 0 {
            -vs[i - 1].b
        } else if closed {
            -vs[n - 1].b
        } else {
            // an open polyline's last bulge describes no segment
            -vs[n - 1].b
        };
        out.push(v(vs[i].x, vs[i].y, b));
    }
    out
}

pub fn rotated(vs: &[V], k: usize) -> Vec<V> {
    let n = vs.len();
    (0..n).map(|i| vs[(i + k) % n]).collect()
}

pub fn show(vs: &[V], closed: bool) -> String {
    let mut s = String::from(if closed { "closed[" } else { "open[" });
    for (i, q) in vs.iter().enumerate() {
        if i > 0 {
            s.push(' ');
        }
        s.push_str(&format!("({:?},{:?},{:?})", q.x, q.y, q.b));
    }
    s.push(']');
    s
}
