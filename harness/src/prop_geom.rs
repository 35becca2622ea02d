//! G01..G07: measurements and queries of single polylines against independent geometry.
use crate::gen;
use crate::geo::*;
use crate::run::*;
use crate::tape::Tape;
use crate::util::*;
use cavalier_contours::core::math::*;
use cavalier_contours::polyline::*;
use std::f64::consts::{PI, TAU};

// ---------------------------------------------------------------- shared generators

/// Any polyline without repeated positions (0 to `nmax` vertexes), closed or open.
pub fn any_pline(t: &mut Tape, nmin: usize, nmax: usize) -> (Vec<V>, bool) {
    let closed = t.chance(1, 2);
    let vs = match t.weighted(&[5, 3, 2, 1]) {
        0 => gen::wild(t, nmin.max(1), nmax, closed),
        1 => {
            let mut vs = gen::simple_closed(t, 0.5, 60.0);
            if !closed {
                let keep = 1 + t.idx(vs.len());
                vs.truncate(keep.max(nmin));
            }
            vs
        }
        2 => {
            // many small pieces of one line or circle among other segments
            let vs = gen::wild(t, nmin.max(2), nmax.max(3), closed);
            gen::subdivide(t, &vs, closed)
        }
        _ => {
            // far from the origin
            let vs = gen::wild(t, nmin.max(1), nmax, closed);
            let s = Sim { s: t.logf(0.05, 20.0), rot: 0.0, mirror: false, t: pt(t.f(-1e4, 1e4), t.f(-1e4, 1e4)) };
            s.vs(&vs)
        }
    };
    if nmin == 0 && t.chance(1, 40) {
        return (vec![], closed);
    }
    (vs, closed)
}

fn maxabs(vs: &[V]) -> f64 {
    vs.iter().map(|q| q.x.abs().max(q.y.abs())).fold(0.0, f64::max)
}

/// Rounding allowance for points of a segment: grows with coordinates and arc radius.
pub fn seg_tol(s: &Seg) -> f64 {
    let c = s.a.len().max(s.b.len());
    let r = s.arc.as_ref().map_or(0.0, |k| k.r + k.c.len());
    1e-11 + 2e-14 * c + 3e-15 * r * 4.0
}

/// What the fuzzy in-sweep decision at the ends of an arc (by 1e-5) can change about the closest point
/// to q: (distance to q, distance off the segment).
fn sweep_slack(s: &Seg, q: Pt) -> (f64, f64) {
    match &s.arc {
        None => (0.0, 0.0),
        Some(k) => {
            let rho = k.c.dist(q);
            if rho < 4e-5 {
                return (2.0 * rho + 1e-4, 2.0 * k.r + 1e-4);
            }
            // the angle by which q may lie past the end
            let x = 1.2e-5 * k.r.min(rho) / (k.r * rho);
            let g = if x >= 0.7 { PI } else { 1.5 * x.asin() };
            let h = 4.0 * rho * k.r * (g * 0.5).sin().powi(2);
            let d = rho - k.r;
            ((d * d + h).sqrt() - d.abs(), 2.0 * k.r * (g * 0.5).sin())
        }
    }
}

fn congruent(a: f64, b: f64, tol: f64) -> bool {
    let d = (a - b).rem_euclid(TAU);
    d < tol || TAU - d < tol
}

// ---------------------------------------------------------------- G01

fn gen_angle(t: &mut Tape) -> f64 {
    match t.weighted(&[3, 3, 2]) {
        0 => t.f(-7.0, 7.0),
        1 => PI / 4.0 * t.int(-16, 16) as f64,
        _ => t.f(-200.0, 200.0),
    }
}

pub fn g01(t: &mut Tape, ctx: &mut Ctx) -> Result<(), String> {
    let kind = t.idx(6);
    match kind {
        0 => {
            ctx.class("normalize/delta");
            let (a, b) = (gen_angle(t), gen_angle(t));
            ctx.note(|| format!("angles {a:?} {b:?}"));
            let tol = 1e-13 * (1.0 + a.abs() + b.abs());
            let n = normalize_radians(a);
            if !(0.0..=TAU).contains(&n) || !congruent(n, a, tol) {
                return Err(format!("normalize_radians({a:?}) = {n:?}"));
            }
            ctx.nontrivial = !(0.0..=TAU).contains(&a);
            let d = delta_angle(a, b);
            if !(d >= -PI - 1e-15 && d <= PI + 1e-15) || !congruent(a + d, b, tol) {
                return Err(format!("delta_angle({a:?},{b:?}) = {d:?} does not lead from the first to the second the short way"));
            }
            for neg in [false, true] {
                let s = delta_angle_signed(a, b, neg);
                if s.abs() != d.abs() || (neg && s > 0.0) || (!neg && s < 0.0) {
                    return Err(format!("delta_angle_signed({a:?},{b:?},{neg}) = {s:?}, delta is {d:?}"));
                }
            }
        }
        1 => {
            ctx.class("between/within-sweep");
            let start = gen_angle(t);
            let eps = *t.pick(&[1e-8, 1e-5, 1e-3]);
            // sweep in (0, 2pi), the test angle by its distance from the start
            let sweep = match t.weighted(&[3, 2]) {
                0 => t.f(0.01, 6.27),
                _ => PI / 4.0 * t.int(1, 7) as f64,
            };
            let mid = match t.weighted(&[4, 2, 2, 2]) {
                0 => t.f(0.0, TAU),
                1 => t.f(-0.5, 0.5) * eps,
                2 => sweep + t.f(-0.5, 0.5) * eps,
                _ => PI / 4.0 * t.int(0, 7) as f64,
            };
            let turns = TAU * t.int(-2, 2) as f64;
            let test = start + mid + turns;
            ctx.note(|| format!("start {start:?} sweep {sweep:?} test {test:?} (start+{mid:?}) eps {eps:?}"));
            ctx.nontrivial = true;
            let slop = 1e-12 * (1.0 + start.abs() + test.abs());
            let m = mid.rem_euclid(TAU);
            // distance outside of the swept interval
            let out = if m <= sweep { 0.0 } else { (m - sweep).min(TAU - m) };
            let want = if out + slop < eps {
                Some(true)
            } else if out > eps + slop {
                Some(false)
            } else {
                None
            };
            if out > 0.0 && out < eps {
                ctx.class("within-epsilon-outside");
            }
            if let Some(w) = want {
                let end = start + sweep + TAU * t.int(-1, 1) as f64;
                let got = [
                    ("angle_is_between_eps", angle_is_between_eps(test, start, end, eps)),
                    ("angle_is_within_sweep_eps", angle_is_within_sweep_eps(test, start, sweep, eps)),
                    ("angle_is_within_sweep_eps (reversed)", angle_is_within_sweep_eps(test, start + sweep, -sweep, eps)),
                ];
                for (n, g) in got {
                    if g != w {
                        return Err(format!("{n} is {g}, expected {w} (end {end:?})"));
                    }
                }
                if eps == 1e-8 {
                    if angle_is_between(test, start, end) != w || angle_is_within_sweep(test, start, sweep) != w {
                        return Err("default-epsilon variant differs".into());
                    }
                }
            }
        }
        2 => {
            ctx.class("bulge");
            let a = match t.weighted(&[3, 1]) {
                0 => t.f(-TAU + 0.01, TAU - 0.01),
                _ => PI / 4.0 * t.int(-7, 7) as f64,
            };
            let r = t.logf(0.01, 1000.0);
            ctx.note(|| format!("arc of sweep {a:?} radius {r:?}"));
            ctx.nontrivial = a != 0.0;
            let b = bulge_from_angle(a);
            // by definition: sagitta over half chord, positive counter clockwise
            let (p, q) = (pt(r, 0.0), pt(r * a.cos(), r * a.sin()));
            let m = pt(r * (a / 2.0).cos(), r * (a / 2.0).sin());
            let half = p.dist(q) / 2.0;
            if half > 1e-3 * r {
                let sag = m.dist((p + q) * 0.5);
                let want = sag / half * a.signum();
                if (b - want).abs() > 1e-9 * (1.0 + want.abs()).powi(2) {
                    return Err(format!("bulge_from_angle({a:?}) = {b:?}, sagitta/half chord = {want:?}"));
                }
            }
            let back = angle_from_bulge(b);
            if (back - a).abs() > 1e-12 * (1.0 + b.abs()) {
                return Err(format!("angle_from_bulge(bulge_from_angle({a:?})) = {back:?}"));
            }
            let b0 = t.f(-3.0, 3.0);
            let b1 = bulge_from_angle(angle_from_bulge(b0));
            if (b1 - b0).abs() > 1e-12 * (1.0 + b0 * b0) {
                return Err(format!("bulge {b0:?} comes back as {b1:?}"));
            }
            let vx = PlineVertex::new(0.0, 0.0, b);
            let (z, ps, ng) = (vx.bulge_is_zero(), vx.bulge_is_pos(), vx.bulge_is_neg());
            if a.abs() > 1e-6 && (z || ps != (a > 0.0) || ng != (a < 0.0)) {
                return Err(format!("sign predicates of bulge {b:?}: zero {z} pos {ps} neg {ng}"));
            }
            if PlineVertex::new(0.0, 0.0, 1e-9).bulge_is_zero() != true {
                return Err("tiny bulge is not zero".into());
            }
        }
        3 => {
            ctx.class("point-in-sweep");
            let c = pt(t.f(-50.0, 50.0), t.f(-50.0, 50.0));
            let r = t.logf(0.1, 100.0);
            let a0 = gen_angle(t);
            let sweep = match t.weighted(&[3, 2]) {
                0 => t.f(0.02, PI),
                _ => PI / 4.0 * t.int(1, 4) as f64,
            };
            let cw = t.chance(1, 2);
            let eps = 1e-5;
            let rho = r * t.logf(0.1, 10.0);
            let m = match t.weighted(&[4, 1, 1]) {
                0 => t.f(0.0, TAU),
                1 => 0.0,
                _ => sweep,
            };
            let dir = if cw { -1.0 } else { 1.0 };
            let on = |r: f64, a: f64| c + pt(a.cos(), a.sin()) * r;
            let (p, s, e) = (on(rho, a0 + dir * m), on(r, a0), on(r, a0 + dir * sweep));
            ctx.note(|| format!("center {c:?} start {s:?} end {e:?} cw {cw} point {p:?} (at {m:?} of {sweep:?})"));
            ctx.nontrivial = true;
            let got = point_within_arc_sweep(vec2(c), vec2(s), vec2(e), cw, vec2(p), eps);
            // clear of the ends of the sweep by angle, or inclusive exactly there
            let gap = (m - sweep).abs().min(m).min(TAU - m);
            let clear = gap * r * rho > 3.0 * eps && (gap * 0.6).sin() * r * rho > 2.0 * eps;
            let want = if m <= sweep { Some(true) } else if clear { Some(false) } else { None };
            // a half turn cone includes its own boundary line only
            if want.is_some_and(|w| w != got) {
                return Err(format!("point_within_arc_sweep is {got}"));
            }
        }
        4 => {
            ctx.class("fuzzy/quadratic/vectors");
            g01_small(t, ctx)?;
        }
        _ => {
            ctx.class("points-and-lines");
            let p0 = pt(t.f(-50.0, 50.0), t.f(-50.0, 50.0));
            let p1 = match t.below(4) {
                0 => pt(p0.x, p0.y + t.f(0.5, 40.0)),
                1 => pt(p0.x - t.f(0.5, 40.0), p0.y),
                _ => pt(t.f(-50.0, 50.0), t.f(-50.0, 50.0)),
            };
            let k = t.f(-2.0, 3.0);
            ctx.note(|| format!("line {p0:?} {p1:?} t {k:?}"));
            if p0.dist(p1) < 1e-2 {
                ctx.discard();
                return Ok(());
            }
            ctx.nontrivial = true;
            let l = p0.dist(p1);
            let q = p2(point_from_parametric(vec2(p0), vec2(p1), k));
            let want = p0 + (p1 - p0) * k;
            if q.dist(want) > 1e-11 {
                return Err(format!("point_from_parametric gives {q:?}"));
            }
            let back = parametric_from_point(vec2(p0), vec2(p1), vec2(q), 1e-5);
            if ((back - k) * l).abs() > 1e-9 {
                return Err(format!("parametric_from_point gives {back:?} for {k:?}"));
            }
            // sides
            let h = t.f(-10.0, 10.0);
            let s = want + (p1 - p0).unit().left() * h;
            if h.abs() > 1e-6 {
                let left = is_left(vec2(p0), vec2(p1), vec2(s));
                let le = is_left_or_equal(vec2(p0), vec2(p1), vec2(s));
                if left != (h > 0.0) || le != (h > 0.0) {
                    return Err(format!("point at {h:?} left: is_left {left}, is_left_or_equal {le}"));
                }
                if h.abs() * l > 1e-4 {
                    let lc = is_left_or_coincident_eps(vec2(p0), vec2(p1), vec2(s), 1e-5);
                    let rc = is_right_or_coincident_eps(vec2(p0), vec2(p1), vec2(s), 1e-5);
                    if lc != (h > 0.0) || rc != (h < 0.0) {
                        return Err(format!("point at {h:?} left: left-or-coincident {lc}, right-or-coincident {rc}"));
                    }
                }
            }
            if !is_left_or_coincident_eps(vec2(p0), vec2(p1), vec2(want), 1e-5) || !is_right_or_coincident_eps(vec2(p0), vec2(p1), vec2(want), 1e-5) {
                return Err("point on the line is not coincident".into());
            }
            // closest point of the line segment
            let cp = p2(line_seg_closest_point(vec2(p0), vec2(p1), vec2(s)));
            let sg = Seg::new(p0, p1, 0.0);
            if cp.dist(sg.at(sg.closest_t(s))) > 1e-7 / l + 1e-9 {
                return Err(format!("line_seg_closest_point to {s:?} is {cp:?}"));
            }
            if (dist_squared(vec2(p0), vec2(s)) - p0.dist(s).powi(2)).abs() > 1e-9 * (1.0 + p0.dist(s).powi(2)) {
                return Err("dist_squared".into());
            }
            if p2(midpoint(vec2(p0), vec2(p1))).dist((p0 + p1) * 0.5) > 1e-12 {
                return Err("midpoint".into());
            }
            let a = angle(vec2(p0), vec2(p1));
            let f = p2(point_on_circle(l, vec2(p0), a));
            if f.dist(p1) > 1e-11 {
                return Err(format!("point_on_circle at angle() of the line gives {f:?}"));
            }
            if min_max(k, h) != (k.min(h), k.max(h)) {
                return Err("min_max".into());
            }
            // quadratic with known roots
            let (r1, r2, qa) = (t.f(-9.0, 9.0), t.f(-9.0, 9.0), *t.pick(&[1.0, -2.0, 0.5]));
            if r1.abs() > 0.1 && r2.abs() > 0.1 && (r1 - r2).abs() > 0.1 {
                let (b, c) = (-qa * (r1 + r2), qa * r1 * r2);
                let sd = (b * b - 4.0 * qa * c).sqrt();
                let (s1, s2) = quadratic_solutions(qa, b, c, sd);
                let ok = |x: f64, y: f64| (x - r1).abs() < 1e-7 && (y - r2).abs() < 1e-7;
                if !ok(s1, s2) && !ok(s2, s1) {
                    return Err(format!("quadratic with roots {r1:?} {r2:?}: {s1:?} {s2:?}"));
                }
            }
            // vectors
            let (va, vb) = (vec2(p0), vec2(p1));
            let rot = t.f(-7.0, 7.0);
            let ro = p2(vb.rotate_about(va, rot));
            let d = p1 - p0;
            let want = p0 + pt(d.x * rot.cos() - d.y * rot.sin(), d.x * rot.sin() + d.y * rot.cos());
            if ro.dist(want) > 1e-10 {
                return Err(format!("rotate_about {rot:?} gives {ro:?}"));
            }
            if p2(va.perp()).dist(p0.left()) > 0.0 || (va.perp_dot(vb) - p0.cross(p1)).abs() > 1e-9 || (va.dot(vb) - p0.dot(p1)).abs() > 1e-9 {
                return Err("vector products".into());
            }
            if p0.len() > 1e-3 && (p2(va.unit_perp()).dist(p0.left().unit()) > 1e-9 || p2(va.normalize()).dist(p0.unit()) > 1e-9) {
                return Err("unit vectors".into());
            }
        }
    }
    Ok(())
}

/// Fuzzy comparisons, roots of quadratics (also zero and double ones) and the small vector and vertex helpers.
fn g01_small(t: &mut Tape, ctx: &mut Ctx) -> Result<(), String> {
    use cavalier_contours::core::traits::*;
    ctx.nontrivial = true;
    // fuzzy comparisons: the difference in units of the tolerance, clear of 1
    let eps = *t.pick(&[1e-8, 1e-5, 1e-3, 0.25]);
    let a = if t.chance(1, 4) { 0.0 } else { t.f(-20.0, 20.0) };
    let k = match t.weighted(&[3, 3, 1]) {
        0 => t.f(-0.95, 0.95),
        1 => t.logf(1.05, 1e6) * *t.pick(&[1.0, -1.0]),
        _ => 0.0,
    };
    let b = a + k * eps;
    ctx.note(|| format!("compare {a:?} {b:?} (tolerance {eps:?})"));
    let want = (k.abs() < 1.0, k < 1.0, k > -1.0); // equal, b <~ a, b >~ a
    let got = (b.fuzzy_eq_eps(a, eps), b.fuzzy_lt_eps(a, eps), b.fuzzy_gt_eps(a, eps));
    if got != want {
        return Err(format!("fuzzy eq/lt/gt are {got:?}, expected {want:?}"));
    }
    if (b - a).fuzzy_eq_zero_eps(eps) != want.0 {
        return Err("fuzzy_eq_zero_eps".into());
    }
    if eps == 1e-8 && (b.fuzzy_eq(a), b.fuzzy_lt(a), b.fuzzy_gt(a), (b - a).fuzzy_eq_zero()) != (want.0, want.1, want.2, want.0) {
        return Err("default tolerance variants of the fuzzy comparisons".into());
    }
    let w = t.f(0.0, 3.0) + 3.0 * eps;
    if b.fuzzy_in_range_eps(a, a + w, eps) != (k > -1.0 && b < a + w + eps) || b.fuzzy_in_range_eps(a - w, a, eps) != (k < 1.0 && b > a - w - eps) {
        return Err(format!("fuzzy_in_range_eps of {b:?} in {a:?} +- {w:?}"));
    }
    // the same for positions and vertexes: both (all) coordinates count
    let (dx, dy, db) = (t.below(3), t.below(3), t.below(3));
    let off = |n: u64| [0.0, 0.6, 1.7][n as usize] * eps;
    let p = Vector2::new(a, -a + 1.0);
    let q = Vector2::new(p.x + off(dx), p.y - off(dy));
    let want = dx < 2 && dy < 2;
    if p.fuzzy_eq_eps(q, eps) != want || q.fuzzy_eq_eps(p, eps) != want || (eps == 1e-8 && p.fuzzy_eq(q) != want) {
        return Err(format!("{p:?} and {q:?} fuzzy equal at {eps:?}: expected {want}"));
    }
    let (vp, vq) = (PlineVertex::new(p.x, p.y, 0.5), PlineVertex::new(q.x, q.y, 0.5 + off(db)));
    let want = want && db < 2;
    if vp.fuzzy_eq_eps(vq, eps) != want || (eps == 1e-8 && vp.fuzzy_eq(vq) != want) {
        return Err(format!("{vp:?} and {vq:?} fuzzy equal at {eps:?}: expected {want}"));
    }
    if PlineVertex::from_slice(&[p.x, p.y, 0.5]) != Some(vp) || PlineVertex::from_slice(&[p.x, p.y]).is_some() || PlineVertex::from_vector2(p, 0.5) != vp || vp.pos() != p {
        return Err("vertex construction".into());
    }
    let vb = vp.with_bulge(-0.25);
    if (vb.x, vb.y, vb.bulge) != (p.x, p.y, -0.25) {
        return Err("with_bulge".into());
    }
    // vectors
    let (s, d) = (Vector2::new(p.x + q.x, p.y + q.y), Vector2::new(p.x - q.x, p.y - q.y));
    if [p + q, &p + q, p + &q, &p + &q].iter().any(|x| *x != s) || [p - q, &p - q, p - &q, &p - &q].iter().any(|x| *x != d) || -p != Vector2::new(-p.x, -p.y) || -&p != -p {
        return Err("vector operators".into());
    }
    let f = t.f(-3.0, 3.0);
    if p.scale(f) != Vector2::new(p.x * f, p.y * f) || (p.length_squared() - p.dot(p)).abs() > 1e-12 * p.dot(p) || (p.length() - p.dot(p).sqrt()).abs() > 1e-12 * p.length() || Vector2::<f64>::zero() != Vector2::new(0.0, 0.0) {
        return Err("vector helpers".into());
    }
    // sides with the default tolerance: the tested value is twice the area of the triangle
    let (l0, l1) = (Vector2::new(a, 1.0), Vector2::new(a + 2.0, 1.0));
    let h = match t.weighted(&[1, 1]) {
        0 => t.logf(1.2e-8, 1.0),
        _ => t.f(0.0, 0.3e-8),
    } * *t.pick(&[1.0, -1.0]);
    let x = Vector2::new(a + f, 1.0 + h);
    let h = x.y - 1.0;
    let near = h.abs() < 0.4e-8;
    if is_left_or_coincident(l0, l1, x) != (h > 0.0 || near) || is_right_or_coincident(l0, l1, x) != (h < 0.0 || near) {
        return Err(format!("side of the point at {h:?} left of {l0:?} {l1:?}"));
    }
    // quadratics
    let root = |t: &mut Tape| match t.weighted(&[1, 2, 2]) {
        0 => 0.0,
        1 => t.int(-6, 6) as f64,
        _ => t.int(-64, 64) as f64 / 16.0,
    };
    let r1 = root(t);
    let r2 = if t.chance(1, 3) { r1 } else { root(t) };
    let qa = *t.pick(&[1.0, -1.0, 0.5, -4.0]);
    let (qb, qc) = (-qa * (r1 + r2), qa * r1 * r2);
    let sd = (qb * qb - 4.0 * qa * qc).max(0.0).sqrt();
    let (s1, s2) = quadratic_solutions(qa, qb, qc, sd);
    let ok = |x: f64, y: f64| (x - r1).abs() < 1e-9 && (y - r2).abs() < 1e-9;
    if !ok(s1, s2) && !ok(s2, s1) {
        return Err(format!("quadratic {qa:?} {qb:?} {qc:?} with roots {r1:?} {r2:?}: {s1:?} {s2:?}"));
    }
    Ok(())
}

// ---------------------------------------------------------------- G02

fn gen_seg(t: &mut Tape) -> (PlineVertex<f64>, PlineVertex<f64>, Seg) {
    let grid = t.chance(1, 2);
    let sc = *t.pick(&[1.0, 10.0, 0.1, 100.0]);
    let p = |t: &mut Tape| {
        if grid {
            pt(t.int(-4, 4) as f64 * sc, t.int(-4, 4) as f64 * sc)
        } else {
            pt(t.f(-5.0, 5.0) * sc, t.f(-5.0, 5.0) * sc)
        }
    };
    let a = p(t);
    let mut b = p(t);
    if a.dist(b) < (0.02 * sc).max(0.1) {
        b = pt(a.x + sc, a.y + 0.5 * sc);
    }
    if t.chance(1, 8) {
        // short, down to the size of the tolerances
        let (si, co) = t.f(-PI, PI).sin_cos();
        b = a + pt(co, si) * t.logf(2e-5, 0.1);
    }
    let k = match t.weighted(&[2, 3, 3, 1, 1]) {
        0 => 0.0,
        1 => *t.pick(&[1.0, -1.0, gen::BQ, -gen::BQ]),
        2 => t.f(-1.0, 1.0),
        3 => t.logf(2e-8, 1e-2) * *t.pick(&[1.0, -1.0]),
        _ => t.f(-0.99e-8, 0.99e-8),
    };
    (PlineVertex::new(a.x, a.y, k), PlineVertex::new(b.x, b.y, t.f(-1.0, 1.0)), Seg::new(a, b, k))
}

pub fn g02(t: &mut Tape, ctx: &mut Ctx) -> Result<(), String> {
    let (v1, v2, s) = gen_seg(t);
    ctx.note(|| format!("segment ({:?},{:?},{:?}) -> ({:?},{:?})", v1.x, v1.y, v1.bulge, v2.x, v2.y));
    ctx.nontrivial = s.arc.is_some();
    ctx.class(match &s.arc {
        None => "line",
        Some(k) if (k.sweep.abs() - PI).abs() < 1e-9 => "half-circle",
        Some(k) if k.sweep.abs() < 0.04 => "very-flat-arc",
        Some(_) => "arc",
    });
    let tol = seg_tol(&s);
    if let Some(k) = &s.arc {
        let (r, c) = seg_arc_radius_and_center(v1, v2);
        let c = p2(c);
        if (r - k.r).abs() > tol + 1e-12 * k.r || c.dist(k.c) > tol + 1e-12 * k.r {
            return Err(format!("radius {r:?} center {c:?}, expected {:?} {:?}", k.r, k.c));
        }
    }
    let l = seg_length(v1, v2);
    if (l - s.len()).abs() > tol * 4.0 {
        return Err(format!("length {l:?}, expected {:?}", s.len()));
    }
    let m = p2(seg_midpoint(v1, v2));
    if m.dist(s.at(0.5)) > tol * 4.0 {
        return Err(format!("midpoint {m:?}, expected {:?}", s.at(0.5)));
    }
    // boxes
    let eb = seg_bounding_box(v1, v2);
    let eb = [eb.min_x, eb.min_y, eb.max_x, eb.max_y];
    let want = s.bbox();
    for i in 0..4 {
        if (eb[i] - want[i]).abs() > tol * 4.0 {
            return Err(format!("bounding box {eb:?}, expected {want:?}"));
        }
    }
    let fb = seg_fast_approx_bounding_box(v1, v2);
    if fb.min_x > want[0] + tol || fb.min_y > want[1] + tol || fb.max_x < want[2] - tol || fb.max_y < want[3] - tol {
        return Err(format!("fast bounding box {fb:?} does not contain {want:?}"));
    }
    // tangent and split
    let f = match t.weighted(&[4, 1, 1]) {
        0 => t.unit(),
        1 => 0.0,
        _ => 1.0,
    };
    let q = s.at(f);
    let tv = p2(seg_tangent_vector(v1, v2, vec2(q)));
    if tv.len() <= 0.0 || tv.unit().dist(s.tan(f)) > 1e-7 {
        return Err(format!("tangent at {q:?} is {:?}, expected {:?}", tv.unit(), s.tan(f)));
    }
    let sp = seg_split_at_point(v1, v2, vec2(q), 1e-5);
    let (a, b) = (sp.updated_start, sp.split_vertex);
    if p2(b.pos()).dist(q) > 1.5e-5 || p2(a.pos()).dist(s.a) > 1.5e-5 {
        return Err(format!("split at {q:?} gives {a:?} {b:?}"));
    }
    let (sa, sb) = (Seg::new(p2(a.pos()), p2(b.pos()), a.bulge), Seg::new(p2(b.pos()), s.b, b.bulge));
    if (sa.len() + sb.len() - s.len()).abs() > 4e-5 {
        return Err(format!("split at {q:?} gives lengths {:?} + {:?}, whole is {:?}", sa.len(), sb.len(), s.len()));
    }
    for k in 0..=4 {
        let x = k as f64 / 4.0;
        for (pc, g) in [(&sa, x * f), (&sb, f + x * (1.0 - f))] {
            if pc.at(x).dist(s.at(g)) > 3e-5 {
                return Err(format!("split at {q:?} (fraction {f:?}): piece does not retrace the segment at {:?}", s.at(g)));
            }
        }
    }
    // closest point
    for _ in 0..3 {
        let q = match t.weighted(&[4, 2, 1, 1]) {
            0 => {
                let sz = s.len();
                let c = s.at(0.5);
                pt(c.x + t.f(-2.0, 2.0) * sz, c.y + t.f(-2.0, 2.0) * sz)
            }
            1 => {
                let g = t.unit();
                s.at(g) + s.tan(g).left() * (t.f(-0.3, 0.3) * s.len())
            }
            2 => s.at(t.unit()),
            _ => match &s.arc {
                Some(k) => k.c,
                None => s.a,
            },
        };
        let cp = p2(seg_closest_point(v1, v2, vec2(q), 1e-5));
        let (d, best) = (cp.dist(q), s.dist(q));
        let (ds, os) = sweep_slack(&s, q);
        let slack = tol * 10.0 + s.arc.as_ref().map_or(1e-8 / s.len(), |k| k.r * 1e-13);
        if (d - best).abs() > slack + ds {
            return Err(format!("closest point to {q:?} is {cp:?} at {d:?}; the best distance is {best:?}"));
        }
        if s.dist(cp) > slack + os {
            return Err(format!("closest point {cp:?} to {q:?} is {:?} off the segment", s.dist(cp)));
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- G03

fn f32_pline(vs: &[V], closed: bool) -> Polyline<f32> {
    let mut p = Polyline::new();
    p.set_is_closed(closed);
    for q in vs {
        p.add(q.x as f32, q.y as f32, q.b as f32);
    }
    p
}

pub fn g03(t: &mut Tape, ctx: &mut Ctx) -> Result<(), String> {
    let (vs, closed) = any_pline(t, 0, 12);
    ctx.note(|| show(&vs, closed));
    let pl = mk(&vs, closed);
    let path = Path::new(&vs, closed);
    ctx.nontrivial = path.segs.iter().any(|s| s.arc.is_some());
    ctx.class(if closed { "closed" } else { "open" });
    if vs.len() < 2 {
        ctx.class("fewer-than-2");
    }
    let tol: f64 = path.segs.iter().map(|s| seg_tol(s) * 4.0).sum::<f64>() + 1e-12;
    let len = pl.path_length();
    if (len - path.len()).abs() > tol {
        return Err(format!("path length {len:?}, expected {:?}", path.len()));
    }
    match pl.extents() {
        None => {
            if vs.len() >= 2 {
                return Err("no extents".into());
            }
        }
        Some(e) => {
            if vs.len() < 2 {
                return Err(format!("extents {e:?} for {} vertexes", vs.len()));
            }
            let w = path.bbox();
            let g = [e.min_x, e.min_y, e.max_x, e.max_y];
            for i in 0..4 {
                if (g[i] - w[i]).abs() > tol {
                    return Err(format!("extents {g:?}, expected {w:?}"));
                }
            }
        }
    }
    let m = maxabs(&vs);
    let atol = 1e-13 * (1.0 + vs.len() as f64) * (m * m + path.len() * path.len()) + tol * path.len() + 1e-12
        + path.segs.iter().filter_map(|s| s.arc.as_ref()).map(|k| k.r * k.r * 1e-15 + 1e-13 * k.r * k.r * k.sweep.abs()).sum::<f64>();
    let area = pl.area();
    let want = path.area();
    if (area - want).abs() > atol {
        return Err(format!("area {area:?}, expected {want:?} (tolerance {atol:e})"));
    }
    let o = pl.orientation();
    let owant = if !closed {
        Some(PlineOrientation::Open)
    } else if want > 2.0 * atol {
        Some(PlineOrientation::CounterClockwise)
    } else if want < -2.0 * atol {
        Some(PlineOrientation::Clockwise)
    } else {
        None
    };
    if owant.is_some_and(|w| w != o) {
        return Err(format!("orientation {o:?}, area {want:?}"));
    }
    // transforms
    let mut r = pl.clone();
    r.invert_direction_mut();
    if (r.area() + area).abs() > atol || (r.path_length() - len).abs() > tol {
        return Err(format!("reversed: area {:?} length {:?} (before {area:?} {len:?})", r.area(), r.path_length()));
    }
    let (dx, dy) = (t.f(-30.0, 30.0), t.f(-30.0, 30.0));
    let mut r = pl.clone();
    r.translate_mut(dx, dy);
    let m2 = m + 50.0;
    let atol2 = atol + 1e-13 * (1.0 + vs.len() as f64) * m2 * m2;
    if (r.area() - area).abs() > atol2 || (r.path_length() - len).abs() > tol + 1e-11 {
        return Err(format!("translated: area {:?} length {:?} (before {area:?} {len:?})", r.area(), r.path_length()));
    }
    let k = t.logf(0.2, 5.0);
    let mut r = pl.clone();
    r.scale_mut(k);
    if (r.area() - k * k * area).abs() > 26.0 * atol || (r.path_length() - k * len).abs() > 6.0 * tol + 1e-11 {
        return Err(format!("scaled by {k:?}: area {:?} length {:?} (before {area:?} {len:?})", r.area(), r.path_length()));
    }
    if closed && vs.len() >= 2 {
        let i = t.idx(vs.len());
        if let Some(r) = pl.rotate_start(i, vec2(vs[i].p()), 1e-5) {
            if (r.area() - area).abs() > atol || (r.path_length() - len).abs() > tol {
                return Err(format!("start moved to vertex {i}: area {:?} length {:?} (before {area:?} {len:?})", r.area(), r.path_length()));
            }
        }
    }
    // single precision
    let flat = path.segs.iter().any(|s| s.bulge != 0.0 && s.bulge.abs() < 1e-3) || path.segs.iter().any(|s| s.len() < 0.05);
    if !flat && m < 500.0 {
        ctx.class("compared-with-f32");
        let p = f32_pline(&vs, closed);
        let rmax = path.segs.iter().filter_map(|s| s.arc.as_ref()).map(|k| k.r).fold(0.0, f64::max);
        let e = 1e-6 * (m + rmax + 1.0) * (1.0 + vs.len() as f64) * 4.0;
        if (p.path_length() as f64 - len).abs() > e {
            return Err(format!("f32 path length {:?}, f64 {len:?}", p.path_length()));
        }
        if let (Some(a), Some(b)) = (p.extents(), pl.extents()) {
            for (x, y) in [(a.min_x, b.min_x), (a.min_y, b.min_y), (a.max_x, b.max_x), (a.max_y, b.max_y)] {
                // an extreme is decided by an angle; at an end of the arc both answers are close
                if (x as f64 - y).abs() > e {
                    return Err(format!("f32 extents {a:?}, f64 {b:?}"));
                }
            }
        }
        let ea = e * (m + rmax + path.len());
        if (p.area() as f64 - area).abs() > ea {
            return Err(format!("f32 area {:?}, f64 {area:?}", p.area()));
        }
        if closed && area.abs() > 2.0 * ea && p.orientation() != o {
            return Err(format!("f32 orientation {:?}, f64 {o:?}", p.orientation()));
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- G04

pub fn g04(t: &mut Tape, ctx: &mut Ctx) -> Result<(), String> {
    let (vs, closed) = any_pline(t, 0, 12);
    let closed = closed || t.chance(9, 10);
    let path = Path::new(&vs, closed);
    let mut ok = vs.len() < 2 || !closed || vs[0].p().dist(vs[vs.len() - 1].p()) > 1e-3;
    ok &= vs.len() < 2 || path.segs.iter().all(|s| s.len() > 1e-3);
    ctx.note(|| show(&vs, closed));
    if !ok {
        ctx.discard();
        return Ok(());
    }
    let pl = mk(&vs, closed);
    let size = if vs.len() >= 2 { let b = path.bbox(); (b[2] - b[0]).max(b[3] - b[1]) } else { 1.0 };
    let sh = (t.f(-20.0, 20.0), t.f(-20.0, 20.0));
    let k = t.logf(0.2, 5.0);
    let mut moved = pl.clone();
    moved.scale_mut(k);
    moved.translate_mut(sh.0, sh.1);
    let mut inv = pl.clone();
    inv.invert_direction_mut();
    let rot = if closed && vs.len() >= 2 {
        let i = t.idx(vs.len());
        let f = *t.pick(&[0.0, 0.5, 0.3]);
        pl.rotate_start(i, vec2(path.segs[i].at(f)), 1e-5)
    } else {
        None
    };
    for j in 0..8 {
        // aligned with vertexes (ray through a vertex), near the path, or anywhere
        let q = if vs.is_empty() {
            pt(t.f(-1.0, 1.0), t.f(-1.0, 1.0))
        } else {
            let a = vs[t.idx(vs.len())].p();
            match t.weighted(&[3, 3, 2, 2]) {
                0 => pt(t.f(-1.2, 1.2) * size + a.x * 0.5, t.f(-1.2, 1.2) * size + a.y * 0.5),
                1 => pt(a.x + t.f(-1.0, 1.0) * size, a.y),
                2 => pt(a.x, a.y + t.f(-1.0, 1.0) * size),
                _ if !path.segs.is_empty() => {
                    let s = &path.segs[t.idx(path.segs.len())];
                    let f = t.unit();
                    s.at(f) + s.tan(f).left() * (*t.pick(&[1.0, -1.0]) * t.logf(1e-5, 0.3) * size)
                }
                _ => a,
            }
        };
        let w = pl.winding_number(vec2(q));
        if !closed || vs.len() < 2 {
            if w != 0 {
                return Err(format!("winding number {w} of an open or too short polyline"));
            }
            continue;
        }
        let d = path.dist(q);
        if d < 2e-6 * size.max(1.0) + maxabs(&vs) * 1e-9 {
            continue;
        }
        let Some(want) = path.winding(q) else { continue };
        if want != 0 {
            ctx.nontrivial = true;
        }
        if want.abs() > 1 {
            ctx.class("several-turns");
        }
        if w != want {
            return Err(format!("winding number of ({:?},{:?}) is {w}, expected {want} (distance {d:e}, point {j})", q.x, q.y));
        }
        let wi = inv.winding_number(vec2(q));
        if wi != -want {
            return Err(format!("winding number of ({:?},{:?}) on the reversed polyline is {wi}, expected {}", q.x, q.y, -want));
        }
        if d > 1e-4 * size {
            if let Some(r) = &rot {
                let wr = r.winding_number(vec2(q));
                if wr != want {
                    return Err(format!("winding number of ({:?},{:?}) after moving the start is {wr}, expected {want}", q.x, q.y));
                }
            }
            let qm = pt(q.x * k + sh.0, q.y * k + sh.1);
            let wm = moved.winding_number(vec2(qm));
            if wm != want {
                return Err(format!("winding number of ({:?},{:?}) after scale {k:?} and move {sh:?} is {wm}, expected {want}", q.x, q.y));
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- G05

pub fn g05(t: &mut Tape, ctx: &mut Ctx) -> Result<(), String> {
    let (vs, closed) = any_pline(t, 0, 12);
    ctx.note(|| show(&vs, closed));
    let pl = mk(&vs, closed);
    let path = Path::new(&vs, closed);
    if vs.is_empty() {
        ctx.class("empty");
        return match pl.closest_point(vec2(pt(1.0, 2.0)), 1e-5) {
            None => Ok(()),
            Some(r) => Err(format!("closest point of an empty polyline {r:?}")),
        };
    }
    ctx.nontrivial = path.segs.len() > 1;
    let bb = if vs.len() > 1 { path.bbox() } else { [vs[0].x, vs[0].y, vs[0].x, vs[0].y] };
    let size = (bb[2] - bb[0]).max(bb[3] - bb[1]).max(1.0);
    for _ in 0..5 {
        let q = match t.weighted(&[3, 2, 1, 1]) {
            0 => pt(t.f(bb[0] - size, bb[2] + size), t.f(bb[1] - size, bb[3] + size)),
            1 if !path.segs.is_empty() => {
                let s = &path.segs[t.idx(path.segs.len())];
                let f = t.unit();
                s.at(f) + s.tan(f).left() * (t.f(-0.1, 0.1) * size)
            }
            2 => vs[t.idx(vs.len())].p(),
            _ => pt(bb[0] + (bb[2] - bb[0]) * 0.5, t.f(bb[1] - 10.0 * size, bb[3] + 10.0 * size)),
        };
        let Some(r) = pl.closest_point(vec2(q), 1e-5) else { return Err("nothing returned".into()) };
        let cp = p2(r.seg_point);
        let best = if path.segs.is_empty() { q.dist(vs[0].p()) } else { path.dist(q) };
        let tol = path.segs.iter().map(seg_tol).fold(1e-11, f64::max) * 10.0;
        if (cp.dist(q) - r.distance).abs() > tol {
            return Err(format!("reported distance {:?} of {cp:?} to {q:?}, actual {:?}", r.distance, cp.dist(q)));
        }
        // rounding, and the fuzzy decision at the ends of an arc (1e-5 as an area)
        let dtol = tol + 1e-10 * (1.0 + size);
        let (ds, os) = path.segs.iter().map(|s| sweep_slack(s, q)).fold((0.0, 0.0), |a: (f64, f64), b| (a.0.max(b.0), a.1.max(b.1)));
        if r.distance > best + dtol + ds || r.distance < best - dtol - ds {
            return Err(format!("closest point to {q:?} is reported at {:?} ({cp:?} on segment {}), the best distance is {best:?}", r.distance, r.seg_start_index));
        }
        if path.segs.is_empty() {
            if r.seg_start_index != 0 {
                return Err(format!("segment index {} on a one vertex polyline", r.seg_start_index));
            }
            continue;
        }
        let Some(s) = path.segs.get(r.seg_start_index) else {
            return Err(format!("segment index {} out of range", r.seg_start_index));
        };
        if s.dist(cp) > dtol + os {
            return Err(format!("reported point {cp:?} (query {q:?}) is {:?} off the reported segment {}", s.dist(cp), r.seg_start_index));
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- G06

pub fn g06(t: &mut Tape, ctx: &mut Ctx) -> Result<(), String> {
    let (vs, closed) = any_pline(t, 0, 12);
    ctx.note(|| show(&vs, closed));
    let pl = mk(&vs, closed);
    let path = Path::new(&vs, closed);
    if vs.is_empty() {
        ctx.class("empty");
        let target = t.f(-2.0, 2.0);
        return match no_panic("find_point_at_path_length", || pl.find_point_at_path_length(target))? {
            Err(l) if l == 0.0 => Ok(()),
            x => Err(format!("length {target:?} of an empty polyline gives {x:?}")),
        };
    }
    let total = path.len();
    let tol = path.segs.iter().map(|s| seg_tol(s) * 8.0).sum::<f64>() + 1e-10;
    for _ in 0..4 {
        let target = match t.weighted(&[4, 2, 1, 1, 1]) {
            0 => t.unit() * total,
            1 => {
                // exactly at a vertex
                let k = t.idx(path.segs.len() + 1);
                path.segs.iter().take(k).map(|s| s.len()).sum()
            }
            2 => 0.0,
            3 => -t.f(0.0, 5.0),
            _ => total + t.logf(1e-3, 10.0),
        };
        let r = pl.find_point_at_path_length(target);
        if target <= 0.0 {
            match r {
                Ok((0, p)) if p2(p).dist(vs[0].p()) == 0.0 => {}
                x => return Err(format!("target {target:?} gives {x:?}")),
            }
            continue;
        }
        if target > total + tol {
            ctx.class("beyond-the-end");
            match r {
                Err(l) if (l - total).abs() <= tol => {}
                x => return Err(format!("target {target:?} beyond the total {total:?} gives {x:?}")),
            }
            continue;
        }
        if target > total - tol {
            // at the very end: either answer
            match r {
                Err(l) if (l - total).abs() <= tol => {}
                Ok((i, p)) if i + 1 == path.segs.len() && p2(p).dist(path.segs[i].b) <= 4.0 * tol => {}
                x => return Err(format!("target {target:?} (total {total:?}) gives {x:?}")),
            }
            continue;
        }
        ctx.nontrivial = true;
        let (i, p) = match r {
            Ok((i, p)) => (i, p2(p)),
            Err(l) => return Err(format!("target {target:?} within the total {total:?} is refused with {l:?}")),
        };
        let (wi, wp) = path.at_len(target);
        if p.dist(wp) > 4.0 * tol {
            return Err(format!("target {target:?} gives {p:?}, expected {wp:?} on segment {wi}"));
        }
        if i != wi {
            // both segments meet here
            let start: f64 = path.segs.iter().take(i).map(|s| s.len()).sum();
            if i >= path.segs.len() || (target - start).abs() > 4.0 * tol && (target - start - path.segs[i].len()).abs() > 4.0 * tol {
                return Err(format!("target {target:?} gives segment {i}, expected {wi}"));
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- G07

pub fn g07(t: &mut Tape, ctx: &mut Ctx) -> Result<(), String> {
    let big = t.chance(1, 6);
    let (vs, closed) = any_pline(t, 0, if big { 60 } else { 10 });
    ctx.note(|| show(&vs, closed));
    let pl = mk(&vs, closed);
    let path = Path::new(&vs, closed);
    let n = path.segs.len();
    ctx.nontrivial = n > 1;
    ctx.class(match n {
        0 => "no-segments",
        1..=16 => "one-node",
        _ => "tree",
    });
    let (ap, ex) = (pl.create_approx_aabb_index(), pl.create_aabb_index());
    for (ix, exact) in [(&ap, false), (&ex, true)] {
        if ix.count() != n {
            return Err(format!("index of {} boxes for {n} segments", ix.count()));
        }
        if n == 0 {
            if !ix.query(-1e9, -1e9, 1e9, 1e9).is_empty() {
                return Err("boxes in an empty index".into());
            }
            continue;
        }
        let tol = path.segs.iter().map(seg_tol).fold(1e-11, f64::max) * 8.0;
        let b = ix.bounds().ok_or("no bounds")?;
        let w = path.bbox();
        if exact {
            let e = pl.extents().ok_or("no extents")?;
            for (x, y, z) in [(b.min_x, e.min_x, w[0]), (b.min_y, e.min_y, w[1]), (b.max_x, e.max_x, w[2]), (b.max_y, e.max_y, w[3])] {
                if (x - y).abs() > tol || (x - z).abs() > tol {
                    return Err(format!("exact index bounds {b:?}, extents {e:?}, expected {w:?}"));
                }
            }
        } else if b.min_x > w[0] + tol || b.min_y > w[1] + tol || b.max_x < w[2] - tol || b.max_y < w[3] - tol {
            return Err(format!("approximate index bounds {b:?} do not contain {w:?}"));
        }
        // every point of every segment is found by a query around it, with its own index
        let checks = if n > 16 { 8 } else { n };
        for c in 0..checks {
            let i = if n > 16 { t.idx(n) } else { c };
            let s = &path.segs[i];
            let p = s.at(t.unit());
            let r = ix.query(p.x - tol, p.y - tol, p.x + tol, p.y + tol);
            if !r.contains(&i) {
                return Err(format!("query at {p:?} of segment {i} ({}) gives {r:?}", if exact { "exact" } else { "approximate" }));
            }
        }
        // random window
        for _ in 0..3 {
            let c = pt(t.f(w[0], w[2]), t.f(w[1], w[3]));
            let h = pt(t.unit() * (w[2] - w[0]) * 0.3, t.unit() * (w[3] - w[1]) * 0.3);
            let win = [c.x - h.x, c.y - h.y, c.x + h.x, c.y + h.y];
            let mut r = ix.query(win[0], win[1], win[2], win[3]);
            r.sort();
            if r.windows(2).any(|k| k[0] == k[1]) {
                return Err(format!("query reports a segment twice: {r:?}"));
            }
            for (i, s) in path.segs.iter().enumerate() {
                let enters = (0..=8).any(|k| {
                    let p = s.at(k as f64 / 8.0);
                    p.x > win[0] && p.x < win[2] && p.y > win[1] && p.y < win[3]
                });
                let bx = s.bbox();
                let apart = bx[0] > win[2] + tol || bx[2] < win[0] - tol || bx[1] > win[3] + tol || bx[3] < win[1] - tol;
                let has = r.contains(&i);
                if enters && !has {
                    return Err(format!("segment {i} enters {win:?} but the query gives {r:?}"));
                }
                if exact && apart && has {
                    return Err(format!("segment {i} with box {bx:?} is reported for {win:?} by the exact index"));
                }
            }
        }
    }
    Ok(())
}
