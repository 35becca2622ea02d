//! I01..I04: intersections of lines, circles, segments and polylines against independent geometry.
use crate::gen;
use crate::geo::*;
use crate::pairs::*;
use crate::prop_geom::any_pline;
use crate::run::*;
use crate::tape::Tape;
use crate::util::*;
use cavalier_contours::core::math::*;
use cavalier_contours::core::Control;
use cavalier_contours::polyline::*;
use std::f64::consts::{PI, TAU};

const EPS: f64 = 1e-5;

// ---------------------------------------------------------------- I01

/// Angle of a direction: axis-aligned, diagonal, or any.
fn gen_dir(t: &mut Tape) -> f64 {
    match t.weighted(&[3, 1, 4, 1]) {
        0 => PI / 2.0 * t.below(4) as f64,
        1 => PI / 4.0 * t.below(8) as f64,
        2 => t.f(0.0, TAU),
        // nearly along an axis
        _ => PI / 2.0 * t.below(4) as f64 + t.logf(1e-9, 1e-2) * if t.chance(1, 2) { 1.0 } else { -1.0 },
    }
}
/// Exact unit vector for multiples of a quarter turn.
fn dir(a: f64) -> Pt {
    let q = (a / (PI / 2.0)).round();
    if (a - q * PI / 2.0).abs() < 1e-12 {
        return match (q as i64).rem_euclid(4) {
            0 => pt(1.0, 0.0),
            1 => pt(0.0, 1.0),
            2 => pt(-1.0, 0.0),
            _ => pt(0.0, -1.0),
        };
    }
    pt(a.cos(), a.sin())
}
fn gen_len(t: &mut Tape) -> f64 {
    match t.weighted(&[4, 6, 2]) {
        0 => *t.pick(&[1.0, 2.0, 0.5, 10.0]),
        1 => t.logf(0.1, 300.0),
        // short, still some hundred times the tolerance
        _ => t.logf(2e-3, 0.1),
    }
}
fn gen_pos(t: &mut Tape) -> Pt {
    match t.weighted(&[2, 4, 1]) {
        0 => pt(0.0, 0.0),
        1 => pt(t.f(-50.0, 50.0), t.f(-50.0, 50.0)),
        _ => pt(t.f(-3000.0, 3000.0), t.f(-3000.0, 3000.0)),
    }
}
/// A fraction along a segment: ends, inside, or outside of it.
fn gen_frac(t: &mut Tape) -> f64 {
    match t.weighted(&[2, 3, 2]) {
        0 => *t.pick(&[0.0, 1.0]),
        1 => t.f(0.02, 0.98),
        _ => *t.pick(&[-0.5, 1.5, -2.0, 3.0, -0.05, 1.05]),
    }
}

pub fn i01(t: &mut Tape, ctx: &mut Ctx) -> Result<(), String> {
    match t.idx(3) {
        0 => i01_lines(t, ctx),
        1 => i01_line_circle(t, ctx),
        _ => i01_circles(t, ctx),
    }
}

fn i01_lines(t: &mut Tape, ctx: &mut Ctx) -> Result<(), String> {
    let a1 = gen_dir(t);
    let d1 = dir(a1);
    let p = gen_pos(t);
    let (l1, l2) = (gen_len(t), gen_len(t));
    let kind = t.weighted(&[6, 3, 2, 2]);
    let scale = 1.0 + p.len() + l1 + l2;
    let at = |a: Pt, b: Pt, k: f64| a + (b - a) * k;
    let call = |v1: Pt, v2: Pt, u1: Pt, u2: Pt| line_line_intr(vec2(v1), vec2(v2), vec2(u1), vec2(u2), EPS);
    match kind {
        0 => {
            // lines meeting at p, at the fractions k1 and k2
            ctx.class("lines/meeting");
            // a fraction, or just off an end by a length
            let frac = |t: &mut Tape, l: f64| match t.weighted(&[5, 1]) {
                0 => gen_frac(t),
                _ => {
                    let g = t.logf(4e-5, 0.5) / l;
                    if t.chance(1, 2) { 1.0 + g } else { -g }
                }
            };
            let (k1, k2) = (frac(t, l1), frac(t, l2));
            let turn = *t.pick(&[PI / 2.0, 0.0]);
            let turn = if turn == 0.0 { t.f(0.02, PI - 0.02) } else { turn };
            let d2 = if turn == PI / 2.0 { d1.left() } else { dir(a1 + turn) };
            let (v1, v2) = (p - d1 * (l1 * k1), p + d1 * (l1 * (1.0 - k1)));
            let (u1, u2) = (p - d2 * (l2 * k2), p + d2 * (l2 * (1.0 - k2)));
            ctx.note(|| format!("lines {v1:?} {v2:?} / {u1:?} {u2:?}"));
            // parallel as far as the tolerance tells
            if l1.min(l2) * turn.sin() < 1e-4 {
                ctx.discard();
                return Ok(());
            }
            ctx.nontrivial = true;
            let inside = |k: f64| (0.0..=1.0).contains(&k);
            let want = inside(k1) && inside(k2);
            let (s1, s2, hit) = match call(v1, v2, u1, u2) {
                LineLineIntr::TrueIntersect { seg1_t, seg2_t } => (seg1_t, seg2_t, true),
                LineLineIntr::FalseIntersect { seg1_t, seg2_t } => (seg1_t, seg2_t, false),
                o => return Err(format!("lines meeting at {p:?} (fractions {k1} and {k2}) reported as {o:?}")),
            };
            if hit != want {
                return Err(format!("lines meeting at fractions {k1} and {k2} reported {}", if hit { "crossing" } else { "not crossing" }));
            }
            let tol = 1e-12 * scale * (1.0 + k1.abs() + k2.abs()) / turn.sin() + 1e-12;
            let (q1, q2) = (at(v1, v2, s1), at(u1, u2, s2));
            if q1.dist(p) > tol || q2.dist(p) > tol {
                return Err(format!("crossing at {p:?} but fractions {s1}, {s2} are at {q1:?}, {q2:?}"));
            }
            Ok(())
        }
        1 => {
            // on one line: v spans [0,l1], u spans [b,e] (as multiples)
            let grid = t.chance(1, 2);
            let (b, e) = if grid {
                let b = t.int(-4, 6) as f64 * 0.5;
                let w = *t.pick(&[0.5, 1.0, 1.5, 2.5, -0.5, -1.0, -1.5, -2.5]);
                (b, b + w)
            } else {
                (t.f(-2.0, 3.0), t.f(-2.0, 3.0))
            };
            let q = |k: f64| p + d1 * (l1 * k);
            let (v1, v2, u1, u2) = (q(0.0), q(1.0), q(b), q(e));
            ctx.note(|| format!("one line {v1:?} {v2:?} / {u1:?} {u2:?}"));
            let (lo, hi) = (b.min(e), b.max(e));
            let (olo, ohi) = (lo.max(0.0), hi.min(1.0));
            let over = (ohi - olo) * l1;
            if u1.dist(u2) < 1e-3 || (over.abs() > 1e-9 && over.abs() < 1e-4) {
                ctx.discard();
                return Ok(());
            }
            // rounding of the points must not look like a distance from the line
            if scale * 1e-15 * (l1 + u1.dist(u2)) * 8.0 > EPS {
                ctx.discard();
                return Ok(());
            }
            ctx.nontrivial = true;
            let tol = 1e-11 * scale;
            match call(v1, v2, u1, u2) {
                LineLineIntr::NoIntersect => {
                    if over > -1e-9 {
                        return Err(format!("collinear segments sharing {over} of length reported as not meeting"));
                    }
                    ctx.class("lines/collinear-apart");
                }
                LineLineIntr::TrueIntersect { seg1_t, seg2_t } => {
                    if over.abs() > 1e-9 {
                        return Err(format!("collinear segments sharing {over} of length reported as meeting in one point"));
                    }
                    ctx.class("lines/collinear-touch");
                    let (a, b) = (at(v1, v2, seg1_t), at(u1, u2, seg2_t));
                    let joint = q(if hi < 0.5 { 0.0 } else { 1.0 });
                    if a.dist(joint) > tol || b.dist(joint) > tol {
                        return Err(format!("collinear segments touching at {joint:?} reported at {a:?} / {b:?}"));
                    }
                }
                LineLineIntr::Overlapping { seg2_t0, seg2_t1 } => {
                    if over < 1e-9 {
                        return Err(format!("collinear segments apart by {} reported as overlapping", -over));
                    }
                    ctx.class("lines/collinear-overlap");
                    if !(seg2_t0 < seg2_t1) {
                        return Err(format!("overlap from {seg2_t0} to {seg2_t1} is not along the second segment"));
                    }
                    let (x, y) = (at(u1, u2, seg2_t0), at(u1, u2, seg2_t1));
                    let (wx, wy) = if b < e { (q(olo), q(ohi)) } else { (q(ohi), q(olo)) };
                    if x.dist(wx) > tol || y.dist(wy) > tol {
                        return Err(format!("shared stretch {wx:?}..{wy:?} reported as {x:?}..{y:?}"));
                    }
                }
                o => return Err(format!("collinear segments reported as {o:?}")),
            }
            Ok(())
        }
        2 => {
            // parallel, apart
            ctx.class("lines/parallel");
            let gap = t.logf(2e-3, 50.0) * if t.chance(1, 2) { 1.0 } else { -1.0 };
            let b = t.f(-2.0, 2.0);
            let w = l2 * if t.chance(1, 2) { 1.0 } else { -1.0 };
            let (v1, v2) = (p, p + d1 * l1);
            let u1 = p + d1 * (l1 * b) + d1.left() * gap;
            let u2 = u1 + d1 * w;
            ctx.note(|| format!("parallel {v1:?} {v2:?} / {u1:?} {u2:?}"));
            if (l1 * l2) * 1e-15 * scale * 8.0 > EPS || gap.abs() < 3e-5 / l1.max(l2).max(1.0) {
                ctx.discard();
                return Ok(());
            }
            ctx.nontrivial = true;
            match call(v1, v2, u1, u2) {
                LineLineIntr::NoIntersect => Ok(()),
                // nearly parallel after rounding is decided on an area: only a far crossing may come out
                LineLineIntr::FalseIntersect { .. } => Ok(()),
                o => Err(format!("parallel segments {gap} apart reported as {o:?}")),
            }
        }
        _ => {
            // one or both segments are single points
            ctx.class("lines/point");
            let k = gen_frac(t);
            let off = *t.pick(&[0.0, 0.0, 0.01, 3.0]);
            let q = p + d1 * (l1 * k) + d1.left() * off;
            let both = t.chance(1, 4);
            ctx.nontrivial = true;
            if both {
                let r = if t.chance(1, 2) { q } else { q + dir(gen_dir(t)) * t.logf(1e-3, 10.0) };
                ctx.note(|| format!("points {q:?} {r:?}"));
                let hit = match call(q, q, r, r) {
                    LineLineIntr::NoIntersect => false,
                    LineLineIntr::TrueIntersect { .. } => true,
                    o => return Err(format!("two points reported as {o:?}")),
                };
                if hit != (q.dist(r) == 0.0) {
                    return Err(format!("points {} apart: meeting is {hit}", q.dist(r)));
                }
                return Ok(());
            }
            let (v1, v2) = (p, p + d1 * l1);
            ctx.note(|| format!("point {q:?} and {v1:?} {v2:?}"));
            if scale * l1 * 1e-15 * 8.0 > EPS {
                ctx.discard();
                return Ok(());
            }
            let want = off == 0.0 && (0.0..=1.0).contains(&k);
            let first = t.chance(1, 2);
            let r = if first { call(q, q, v1, v2) } else { call(v1, v2, q, q) };
            match r {
                LineLineIntr::NoIntersect if !want => Ok(()),
                LineLineIntr::TrueIntersect { seg1_t, seg2_t } if want => {
                    let m = at(v1, v2, if first { seg2_t } else { seg1_t });
                    if m.dist(q) > 1e-11 * scale {
                        return Err(format!("point {q:?} on the line reported at {m:?}"));
                    }
                    Ok(())
                }
                o => Err(format!("point at fraction {k}, {off} beside a line of length {l1}: {o:?}")),
            }
        }
    }
}

fn i01_line_circle(t: &mut Tape, ctx: &mut Ctx) -> Result<(), String> {
    let d = dir(gen_dir(t));
    let c = gen_pos(t);
    let r = gen_len(t);
    // distance of the line from the center in radii
    let h = match t.weighted(&[3, 2, 2, 1]) {
        0 => t.f(-0.999, 0.999),
        1 => *t.pick(&[1.0, -1.0]),
        2 => *t.pick(&[0.0, 0.5, -0.5, 1.01, -1.01, 1.5, -3.0]),
        _ => 1.0 + t.logf(1e-3, 5.0),
    };
    let l = gen_len(t);
    // where the segment starts, relative to the foot of the perpendicular
    let half = (1.0f64 - h * h).max(0.0).sqrt() * r;
    let s0 = match t.weighted(&[3, 2, 2]) {
        0 => t.f(-3.0, 3.0) * r,
        1 => *t.pick(&[half, -half]),
        _ => *t.pick(&[half, -half]) - l,
    };
    let foot = c + d.left() * (h * r);
    let (p0, p1) = (foot + d * s0, foot + d * (s0 + l));
    ctx.note(|| format!("line {p0:?} {p1:?}, circle {c:?} r={r:?} (distance/r = {h})"));
    let gap = (h.abs() - 1.0) * r;
    if gap != 0.0 && gap.abs() < 1e-4 || l < 1e-3 {
        ctx.discard();
        return Ok(());
    }
    ctx.nontrivial = gap <= 0.0;
    let at = |k: f64| p0 + (p1 - p0) * k;
    let scale = 1.0 + c.len() + 4.0 * r + l;
    // a line through nearby points is known less well far away from them
    let lever = 1.0 + (s0.abs() + r) / l;
    let ltol = 1e-12 * scale * lever;
    if ltol > 1e-7 {
        ctx.discard();
        return Ok(());
    }
    let res = line_circle_intr(vec2(p0), vec2(p1), r, vec2(c), EPS);
    let on = |k: f64, tol: f64| -> Result<(), String> {
        let p = at(k);
        if (p.dist(c) - r).abs() > tol {
            return Err(format!("reported point {p:?} is {} from the circle", (p.dist(c) - r).abs()));
        }
        Ok(())
    };
    match res {
        LineCircleIntr::NoIntersect => {
            if gap <= 0.0 {
                return Err(format!("line at distance {} from the center of a circle of radius {r} reported as missing it", h.abs() * r));
            }
            ctx.class("line-circle/apart");
        }
        LineCircleIntr::TangentIntersect { t0 } => {
            if gap != 0.0 {
                return Err(format!("reported tangent although the line is {gap} off being tangent"));
            }
            ctx.class("line-circle/tangent");
            on(t0, 2e-5)?;
            if at(t0).dist(foot) > 1e-9 * scale * lever {
                return Err(format!("tangent point {foot:?} reported at {:?}", at(t0)));
            }
        }
        LineCircleIntr::TwoIntersects { t0, t1 } => {
            if gap >= 0.0 {
                return Err("reported two points for a line that does not cross the circle".into());
            }
            ctx.class("line-circle/two");
            if !(t0 <= t1) {
                return Err(format!("fractions {t0}, {t1} out of order"));
            }
            let tol = ltol * 8.0 * (r / half).max(1.0) + 1e-10;
            on(t0, tol)?;
            on(t1, tol)?;
            let (w0, w1) = (foot - d * half, foot + d * half);
            let wt = tol * (r / half).max(1.0) * 4.0;
            if at(t0).dist(w0) > wt || at(t1).dist(w1) > wt {
                return Err(format!("crossings {w0:?}, {w1:?} reported at {:?}, {:?}", at(t0), at(t1)));
            }
        }
    }
    // a line of no length
    if t.chance(1, 8) {
        let off = match t.below(3) {
            0 => 0.0,
            1 => t.f(-5e-6, 5e-6),
            _ => t.logf(2e-5, 5.0) * if t.chance(1, 2) { 1.0 } else { -1.0 },
        };
        let q = c + d * (r + off);
        let gap = (q.dist(c) - r).abs();
        if gap > 0.8 * EPS && gap < 1.5 * EPS {
            return Ok(());
        }
        let want = gap < EPS;
        match line_circle_intr(vec2(q), vec2(q), r, vec2(c), EPS) {
            LineCircleIntr::TangentIntersect { t0 } if want && t0 == 0.0 => {}
            LineCircleIntr::NoIntersect if !want => {}
            o => return Err(format!("single point {q:?}: {o:?}")),
        }
    }
    Ok(())
}

fn i01_circles(t: &mut Tape, ctx: &mut Ctx) -> Result<(), String> {
    let c1 = gen_pos(t);
    let (r1, r2) = match t.weighted(&[1, 3]) {
        0 => {
            let r = gen_len(t);
            (r, r)
        }
        _ => (gen_len(t), gen_len(t)),
    };
    let (lo, hi) = ((r1 - r2).abs(), r1 + r2);
    // nearly coincident circles touching within the tolerance, or not
    if t.chance(1, 8) {
        let d = t.logf(2e-5, 1e-1);
        let r2 = (r1 - d + t.f(-2e-5, 2e-5)).abs();
        let c2 = c1 + dir(gen_dir(t)) * d;
        ctx.note(|| format!("circles {c1:?} r={r1:?}, {c2:?} r={r2:?}"));
        ctx.class("circles/nearly-coincident");
        let off = |p: Vector2<f64>| (p2(p).dist(c1) - r1).abs().max((p2(p).dist(c2) - r2).abs());
        let scale = 1.0 + c1.len() + 2.0 * (r1 + r2);
        return match circle_circle_intr(r1, vec2(c1), r2, vec2(c2), EPS) {
            CircleCircleIntr::TangentIntersect { point } if off(point) > 1.5e-5 + 1e-9 * scale => {
                Err(format!("tangent point {point:?} is {} off the circles", off(point)))
            }
            CircleCircleIntr::TwoIntersects { point1, point2 } if off(point1).max(off(point2)) > 1e-9 * scale => {
                Err(format!("points {point1:?}, {point2:?} are {} and {} off the circles", off(point1), off(point2)))
            }
            r => {
                ctx.nontrivial = !matches!(r, CircleCircleIntr::NoIntersect);
                Ok(())
            }
        };
    }
    let d = match t.weighted(&[4, 2, 2, 1, 1]) {
        0 => lo + (hi - lo) * t.f(0.001, 0.999),
        1 => hi,
        2 => lo,
        3 => hi * t.f(1.001, 2.0),
        _ => lo * t.f(0.0, 0.999),
    };
    let u = dir(gen_dir(t));
    let c2 = c1 + u * d;
    ctx.note(|| format!("circles {c1:?} r={r1:?}, {c2:?} r={r2:?}, distance {d:?} of {lo:?}..{hi:?}"));
    let (gh, gl) = (d - hi, d - lo);
    let vague = |g: f64| g != 0.0 && g.abs() < 1e-4;
    if vague(gh) || vague(gl) || (d > 0.0 && d < 1e-3) {
        ctx.discard();
        return Ok(());
    }
    let scale = 1.0 + c1.len() + 2.0 * (r1 + r2);
    let res = circle_circle_intr(r1, vec2(c1), r2, vec2(c2), EPS);
    let off = |p: Pt| (p.dist(c1) - r1).abs().max((p.dist(c2) - r2).abs());
    let kind = if d == 0.0 && r1 == r2 {
        "circles/same"
    } else if gh > 0.0 || gl < 0.0 {
        "circles/apart"
    } else if gh == 0.0 || gl == 0.0 {
        "circles/tangent"
    } else {
        "circles/two"
    };
    ctx.class(kind);
    ctx.nontrivial = kind != "circles/apart";
    match (res, kind) {
        (CircleCircleIntr::NoIntersect, "circles/apart") => {}
        (CircleCircleIntr::Overlapping, "circles/same") => {}
        (CircleCircleIntr::TangentIntersect { point }, "circles/tangent") => {
            let w = if gh == 0.0 || r1 > r2 { c1 + u * r1 } else { c1 - u * r1 };
            let q = p2(point);
            // off the true point by the square root of the rounding at most
            if off(q) > 1e-9 * scale || q.dist(w) > 2e-5 {
                return Err(format!("tangent point {w:?} reported at {q:?}"));
            }
        }
        // two points a rounding's square root apart
        (CircleCircleIntr::TwoIntersects { point1, point2 }, "circles/tangent") => {
            let (p, q) = (p2(point1), p2(point2));
            // (nearly equal circles one in the other magnify the rounding)
            let spread = 8.0 * scale * scale + r1 * (r1 * r1 + r2 * r2 + r2 * scale) / d;
            if p.dist(q) > 4.0 * (1e-15 * spread).sqrt() || off(p).max(off(q)) > 1e-9 * scale {
                return Err(format!("tangent circles reported as crossing at {p:?} and {q:?}"));
            }
            ctx.class("circles/tangent-as-two");
        }
        (CircleCircleIntr::TwoIntersects { point1, point2 }, "circles/two") => {
            let (p, q) = (p2(point1), p2(point2));
            // conditioning: angle between the circles
            let a = (d * d + r1 * r1 - r2 * r2) / (2.0 * d);
            let h = (r1 * r1 - a * a).max(0.0).sqrt();
            let tol = 1e-12 * scale * (1.0 + scale / h + scale * scale / (d * h)) + 1e-11;
            if off(p).max(off(q)) > tol {
                return Err(format!("points {p:?}, {q:?} are {} and {} off the circles", off(p), off(q)));
            }
            let (x, y) = (c1 + u * a + u.left() * h, c1 + u * a - u.left() * h);
            let miss = (p.dist(x) + q.dist(y)).min(p.dist(y) + q.dist(x));
            if miss > tol * 8.0 + 1e-9 * scale {
                return Err(format!("crossings {x:?}, {y:?} reported at {p:?}, {q:?}"));
            }
        }
        (o, k) => return Err(format!("{k} reported as {o:?}")),
    }
    Ok(())
}

// ---------------------------------------------------------------- I02

fn seg_of(t: &mut Tape) -> (Pt, Pt, f64) {
    let a = pt(0.0, 0.0);
    let b = dir(gen_dir(t)) * gen_len(t);
    let bulge = match t.weighted(&[3, 5, 1]) {
        0 => 0.0,
        1 => gen::nice_bulge(t),
        // of large radius
        _ => t.logf(1e-4, 0.1) * if t.chance(1, 2) { 1.0 } else { -1.0 },
    };
    (a, b, bulge)
}
fn usable(s: &Seg) -> bool {
    s.a.dist(s.b) >= 1e-3 && s.arc.as_ref().is_none_or(|k| k.r >= 1e-3 && k.r < 5e3)
}

/// Two segments in some relation; the sort is only for reporting.
fn gen_seg_pair(t: &mut Tape) -> (Seg, Seg, &'static str) {
    let (a, b, k) = seg_of(t);
    let s = Seg::new(a, b, k);
    let mode = t.weighted(&[6, 6, 5, 4, 4, 3, 2]);
    let (u, class) = match mode {
        0 => {
            // passing through a point of s, at any angle
            let (c, d, k2) = seg_of(t);
            let m = Seg::new(c, d, k2);
            let (f1, f2) = (gen_frac(t).clamp(0.0, 1.0), gen_frac(t).clamp(0.0, 1.0));
            let o = s.at(f1) - m.at(f2);
            (Seg::new(m.a + o, m.b + o, k2), "through")
        }
        1 => {
            // anywhere near
            let (c, d, k2) = seg_of(t);
            let w = s.len().max(c.dist(d));
            let o = s.at(0.5) - (c + d) * 0.5 + pt(t.f(-0.8, 0.8), t.f(-0.8, 0.8)) * w;
            (Seg::new(c + o, d + o, k2), "near")
        }
        2 => {
            // pieces of one line or circle
            match &s.arc {
                None => {
                    let g = |t: &mut Tape| if t.chance(1, 2) { t.int(-3, 5) as f64 * 0.5 } else { t.f(-1.5, 2.5) };
                    let (x, y) = (g(t), g(t));
                    let y = if (x - y).abs() < 0.02 { y + 0.5 } else { y };
                    (Seg::new(a + (b - a) * x, a + (b - a) * y, 0.0), "same-line")
                }
                Some(arc) => {
                    let step = if t.chance(1, 2) { PI / 12.0 } else { t.f(0.05, 0.3) };
                    let a0 = (s.a - arc.c).ang();
                    let sw = 4.0 * s.bulge.atan();
                    let base = match t.idx(3) {
                        0 => a0,
                        1 => a0 + sw,
                        _ => a0 + sw * t.f(0.0, 1.0),
                    };
                    let i = t.int(-11, 11) as f64;
                    let n = t.int(1, 11) as f64 * if t.chance(1, 2) { 1.0 } else { -1.0 };
                    let n = if (n * step).abs() > PI { n.signum() * PI / step } else { n };
                    let (x, y) = (base + i * step, base + (i + n) * step);
                    let q = |g: f64| arc.c + pt(g.cos(), g.sin()) * arc.r;
                    (Seg::new(q(x), q(y), ((y - x) / 4.0).tan()), "same-circle")
                }
            }
        }
        3 => {
            // tangent at a point of s
            let f = gen_frac(t).clamp(0.0, 1.0);
            let p = s.at(f);
            let d = s.tan(f);
            let d = if t.chance(1, 2) { d } else { d * -1.0 };
            let k2 = if t.chance(1, 3) { 0.0 } else { gen::nice_bulge(t) };
            let l = gen_len(t).min(20.0 * s.len());
            // a segment with that tangent at its fraction f2
            let m = Seg::new(pt(0.0, 0.0), pt(l, 0.0), k2);
            let f2 = gen_frac(t).clamp(0.0, 1.0);
            let td = m.tan(f2);
            let rot = d.ang() - td.ang();
            let sim = Sim { s: 1.0, rot, mirror: false, t: pt(0.0, 0.0) };
            let (x, y) = (sim.p(m.a), sim.p(m.b));
            let o = p - sim.p(m.at(f2));
            (Seg::new(x + o, y + o, k2), "tangent")
        }
        4 => {
            // both ends on s or near it: two crossings
            let (f, g) = (t.f(0.0, 0.45), t.f(0.55, 1.0));
            let (x, y) = (s.at(f), s.at(g));
            let e = t.f(0.05, 0.8) * x.dist(y);
            let d = (y - x).unit();
            let k2 = match t.weighted(&[2, 2]) {
                0 => 0.0,
                _ => t.f(-1.0, 1.0),
            };
            let ext = if t.chance(2, 3) { e } else { 0.0 };
            (Seg::new(x - d * ext, y + d * ext, k2), "chord")
        }
        6 => {
            // an end just off the other one, by about the tolerance
            let (f, g) = (t.f(0.0, 0.4), t.f(0.6, 1.0));
            let (x, y) = (s.at(f), s.at(g));
            let n = s.tan(f).left();
            let top = *t.pick(&[5e-5, 1e-1]);
            let e = t.logf(1e-7, top) * if t.chance(1, 2) { 1.0 } else { -1.0 };
            let k2 = if t.chance(1, 3) { 0.0 } else { t.f(-1.0, 1.0) };
            let d = (y - x).unit() * (t.f(0.0, 0.5) * x.dist(y));
            let x = if t.chance(1, 4) { s.a } else { x };
            (Seg::new(x + n * e, y + d, k2), "near-touch")
        }
        _ => {
            // same shape moved aside (parallel lines, concentric or shifted arcs)
            let o = match (&s.arc, t.idx(2)) {
                (Some(arc), 0) => {
                    let f = t.logf(0.3, 3.0);
                    let q = |p: Pt| arc.c + (p - arc.c) * f;
                    return finish(t, s, Seg::new(q(s.a), q(s.b), s.bulge), "concentric");
                }
                _ => dir(gen_dir(t)) * (s.len() * t.logf(1e-2, 1.0)),
            };
            (Seg::new(s.a + o, s.b + o, k), "shifted")
        }
    };
    finish(t, s, u, class)
}
fn finish(t: &mut Tape, s: Seg, u: Seg, class: &'static str) -> (Seg, Seg, &'static str) {
    let o = if t.chance(1, 3) { pt(0.0, 0.0) } else { pt(t.f(-100.0, 100.0), t.f(-100.0, 100.0)) };
    let m = |s: &Seg| Seg::new(s.a + o, s.b + o, s.bulge);
    let (s, u) = (m(&s), m(&u));
    let s = if t.chance(1, 2) { s } else { s.rev() };
    let u = if t.chance(1, 2) { u } else { u.rev() };
    if t.chance(1, 2) {
        (s, u, class)
    } else {
        (u, s, class)
    }
}

fn intr(s: &Seg, u: &Seg) -> PlineSegIntr<f64> {
    let w = |s: &Seg| (PlineVertex::new(s.a.x, s.a.y, s.bulge), PlineVertex::new(s.b.x, s.b.y, 0.0));
    let ((a, b), (c, d)) = (w(s), w(u));
    pline_seg_intr(a, b, c, d, EPS)
}
fn points(r: &PlineSegIntr<f64>) -> Vec<Pt> {
    match *r {
        PlineSegIntr::NoIntersect => vec![],
        PlineSegIntr::TangentIntersect { point } | PlineSegIntr::OneIntersect { point } => vec![p2(point)],
        PlineSegIntr::TwoIntersects { point1, point2 }
        | PlineSegIntr::OverlappingLines { point1, point2 }
        | PlineSegIntr::OverlappingArcs { point1, point2 } => vec![p2(point1), p2(point2)],
    }
}
fn pts_short(v: &[Pt]) -> String {
    v.iter().map(|p| format!("({:?},{:?})", p.x, p.y)).collect::<Vec<_>>().join(" ")
}
/// How far off both segments a reported point may lie: the position tolerance.
fn off_allow(_s: &Seg, _u: &Seg) -> f64 {
    3e-5
}

/// Allowed distance between a true contact and the reported one.
fn contact_tol(s: &Seg, u: &Seg, tangent: bool) -> f64 {
    let r = |s: &Seg| s.arc.as_ref().map_or(0.0, |k| k.r);
    let sc = 1.0 + r(s) + r(u) + s.a.len().max(u.a.len());
    if tangent {
        // along the tangent the point is known to the square root of the rounding, or to the tolerance
        3e-5 + 4.0 * (1e-15 * sc * sc).sqrt()
    } else {
        1e-8 * sc
    }
}

fn judge(s: &Seg, u: &Seg, m: &Meet, r: &PlineSegIntr<f64>) -> Result<(), String> {
    if let Some(&(x, y)) = m.overlaps.first() {
        let lines = s.arc.is_none();
        let (p, q) = match *r {
            PlineSegIntr::OverlappingLines { point1, point2 } if lines => (p2(point1), p2(point2)),
            PlineSegIntr::OverlappingArcs { point1, point2 } if !lines => (p2(point1), p2(point2)),
            _ => return Err(format!("segments sharing {x:?}..{y:?} reported as {r:?}")),
        };
        if p.dist(x) > 1e-6 || q.dist(y) > 1e-6 {
            return Err(format!("shared stretch {x:?}..{y:?} reported as {p:?}..{q:?}"));
        }
        return Ok(());
    }
    let got = points(r);
    let want: Vec<Pt> = m.contacts.iter().map(|c| c.0).collect();
    // for large radii rounding can open a tangency up into two points next to it
    let blurred = m.contacts.len() == 1 && m.contacts[0].1 && contact_tol(s, u, true) > 3.1e-5;
    if blurred && got.len() == 2 && got.iter().all(|g| want[0].dist(*g) <= contact_tol(s, u, true)) {
        return Ok(());
    }
    if matches!(r, PlineSegIntr::OverlappingLines { .. } | PlineSegIntr::OverlappingArcs { .. }) || got.len() != want.len() {
        return Err(format!("segments meeting at [{}] reported as {r:?}", pts_short(&want)));
    }
    for (w, g) in m.contacts.iter().zip(&got) {
        if w.0.dist(*g) > contact_tol(s, u, w.1) {
            return Err(format!("segments meeting at [{}], along the second, reported as {r:?}", pts_short(&want)));
        }
    }
    if m.contacts.len() == 1 {
        let inner = [s.a, s.b, u.a, u.b].iter().all(|e| e.dist(want[0]) > 1e-3);
        let tangent = matches!(r, PlineSegIntr::TangentIntersect { .. });
        // a contact inside both segments is tangent or it is not
        if inner && !same_support(s, u, 1e-9) && m.contacts[0].1 != tangent {
            return Err(format!("the meeting at {:?} is {}tangent, reported as {r:?}", want[0], if m.contacts[0].1 { "" } else { "not " }));
        }
    }
    Ok(())
}

pub fn i02(t: &mut Tape, ctx: &mut Ctx) -> Result<(), String> {
    let (s, u, class) = gen_seg_pair(t);
    ctx.class(class);
    let showp = |s: &Seg, u: &Seg| {
        format!("{} / {}", show(&[v(s.a.x, s.a.y, s.bulge), v(s.b.x, s.b.y, 0.0)], false), show(&[v(u.a.x, u.a.y, u.bulge), v(u.b.x, u.b.y, 0.0)], false))
    };
    ctx.note(|| showp(&s, &u));
    if !usable(&s) || !usable(&u) {
        ctx.discard();
        return Ok(());
    }
    let m = meet(&s, &u, 2e-3);
    match &m {
        None => ctx.class("vague"),
        Some(m) if !m.overlaps.is_empty() => ctx.class("overlap"),
        Some(m) => ctx.class(match m.contacts.len() {
            0 => "apart",
            1 => "one",
            _ => "two",
        }),
    }
    ctx.nontrivial = m.as_ref().is_some_and(|m| !m.contacts.is_empty() || !m.overlaps.is_empty());
    // as given, swapped, and with either one reversed
    for k in 0..8 {
        let a = if k & 1 == 0 { s } else { s.rev() };
        let b = if k & 2 == 0 { u } else { u.rev() };
        let (a, b) = if k & 4 == 0 { (a, b) } else { (b, a) };
        let r = intr(&a, &b);
        // reported points lie on both
        let allow = off_allow(&a, &b);
        for p in points(&r) {
            if !(a.dist(p) <= allow && b.dist(p) <= allow) {
                return Err(format!("{}: reported point {p:?} is {} and {} off the segments ({r:?})", showp(&a, &b), a.dist(p), b.dist(p)));
            }
        }
        // crossings clear of the ends are found, however the rest of the pair looks
        // (unless ends of the two are apart by just about the tolerance that joins them)
        let split_ends = [a.a, a.b].iter().any(|e| [b.a, b.b].iter().any(|f| (8e-6..3e-5).contains(&e.dist(*f))));
        if m.is_none() && !same_support(&a, &b, 1e-3) && !split_ends {
            let pts = points(&r);
            let over = matches!(r, PlineSegIntr::OverlappingLines { .. } | PlineSegIntr::OverlappingArcs { .. });
            for c in crossings(&a, &b, 0.0) {
                let inner = [a.a, a.b, b.a, b.b].iter().all(|e| e.dist(c.p) > 5e-3);
                if inner && !crate::pairs::shallow(&a, &b, c.sin) && (over || pts.iter().all(|p| p.dist(c.p) > 1e-4)) {
                    return Err(format!("{}: crossing {:?} not reported ({r:?})", showp(&a, &b), c.p));
                }
            }
        }
        if let Some(m) = &m {
            judge(&a, &b, &oriented(m, &b), &r).map_err(|e| format!("{}: {e}", showp(&a, &b)))?;
        }
    }
    Ok(())
}
fn oriented(m: &Meet, b: &Seg) -> Meet {
    let mut m = m.clone();
    m.contacts.sort_by(|p, q| b.closest_t(p.0).total_cmp(&b.closest_t(q.0)));
    for o in m.overlaps.iter_mut() {
        if b.closest_t(o.0) > b.closest_t(o.1) {
            *o = (o.1, o.0);
        }
    }
    m
}

// ---------------------------------------------------------------- I03

/// Two paths, open or closed, in general or aligned position. The flag says both are simple.
fn gen_path_pair(t: &mut Tape) -> (Vec<V>, bool, Vec<V>, bool, bool, &'static str) {
    let open_up = |t: &mut Tape, vs: Vec<V>| -> (Vec<V>, bool) {
        if t.chance(1, 2) {
            return (vs, true);
        }
        // an open part of the outline, possibly all of it
        let n = vs.len();
        let k = t.idx(n);
        let mut r = rotated(&vs, k);
        let first = r[0];
        if t.chance(1, 2) {
            r.push(v(first.x, first.y, 0.0));
        }
        let keep = if t.chance(1, 3) { r.len() } else { (2 + t.idx(n)).min(r.len()) };
        r.truncate(keep);
        (r, false)
    };
    match t.weighted(&[5, 3, 2]) {
        0 => {
            let p = bool_pair(t);
            let (a, ca) = open_up(t, p.a);
            let (b, cb) = open_up(t, p.b);
            // (an open path whose ends meet touches itself there)
            let simple = |vs: &[V], c: bool| c || vs[0].p() != vs[vs.len() - 1].p();
            let s = simple(&a, ca) && simple(&b, cb);
            (a, ca, b, cb, s, p.class)
        }
        1 => {
            // walks on a small lattice, with arcs
            let one = |t: &mut Tape| -> (Vec<V>, bool) {
                let closed = t.chance(1, 2);
                let n = 2 + t.idx(7);
                let mut vs: Vec<V> = vec![];
                for _ in 0..n {
                    let p = pt(t.int(-3, 3) as f64, t.int(-3, 3) as f64);
                    if vs.last().is_some_and(|q: &V| q.p() == p) {
                        continue;
                    }
                    let b = match t.weighted(&[4, 2]) {
                        0 => 0.0,
                        _ => gen::nice_bulge(t),
                    };
                    vs.push(v(p.x, p.y, b));
                }
                if closed && vs.len() > 1 && vs[0].p() == vs[vs.len() - 1].p() {
                    vs.pop();
                }
                (vs, closed)
            };
            let (a, ca) = one(t);
            let (b, cb) = one(t);
            let s = gen::rand_sim(t, 0.05, 8.0, 20.0);
            (s.vs(&a), ca, s.vs(&b), cb, false, "lattice")
        }
        _ => {
            let (a, ca) = any_pline(t, 1, 8);
            let (b, cb) = any_pline(t, 1, 8);
            // same size and place
            let (ba, bb) = (Path::new(&a, ca).bbox(), Path::new(&b, cb).bbox());
            let w = |b: [f64; 4]| (b[2] - b[0]).max(b[3] - b[1]).max(1e-3);
            let k = (w(ba) / w(bb)).clamp(1e-3, 1e3) * t.logf(0.3, 2.0);
            let c = |b: [f64; 4]| pt((b[0] + b[2]) * 0.5, (b[1] + b[3]) * 0.5);
            let o = c(ba) - c(bb) * k + pt(t.f(-0.6, 0.6), t.f(-0.6, 0.6)) * w(ba);
            let s = Sim { s: k, rot: 0.0, mirror: false, t: o };
            let b = if b.is_empty() { b } else { s.vs(&b) };
            (a, ca, b, cb, false, "wild")
        }
    }
}

fn usable_path(p: &Path) -> bool {
    p.segs.iter().all(usable)
}

fn at_vertex(p: Pt, q: Pt) -> bool {
    p.dist(q) <= 1e-5
}

pub fn i03(t: &mut Tape, ctx: &mut Ctx) -> Result<(), String> {
    let (a, ca, b, cb, simple, class) = gen_path_pair(t);
    ctx.class(class);
    ctx.note(|| format!("A={} B={}", show(&a, ca), show(&b, cb)));
    let (pa, pb) = (mk(&a, ca), mk(&b, cb));
    let none = a.len() < 2 || b.len() < 2;
    let (xa, xb) = (Path::new(&a, ca), Path::new(&b, cb));
    if !none && (!usable_path(&xa) || !usable_path(&xb)) {
        ctx.discard();
        return Ok(());
    }
    let r = pa.find_intersects(&pb);
    if none {
        ctx.class("nothing");
        if !r.basic_intersects.is_empty() || !r.overlapping_intersects.is_empty() {
            return Err("a polyline without segments has intersects".into());
        }
        return Ok(());
    }
    // a supplied index, exact or approximate, changes nothing
    let key = |r: &PlineIntersectsCollection<f64>| {
        let mut k: Vec<(usize, usize, [u64; 4])> = r.basic_intersects.iter().map(|x| (x.start_index1, x.start_index2, [x.point.x.to_bits(), x.point.y.to_bits(), 0, 0])).collect();
        k.extend(r.overlapping_intersects.iter().map(|x| (x.start_index1, x.start_index2, [x.point1.x.to_bits(), x.point1.y.to_bits(), x.point2.x.to_bits(), x.point2.y.to_bits()])));
        k.sort();
        k
    };
    let exact = t.chance(1, 2);
    let idx = if exact { pa.create_aabb_index() } else { pa.create_approx_aabb_index() };
    let mut opts = FindIntersectsOptions::new();
    opts.pline1_aabb_index = Some(&idx);
    let r2 = pa.find_intersects_opt(&pb, &opts);
    // (boxes of exact and approximate indexes differ, so pairs that only touch within the tolerance
    // may be visited with one and not the other)
    if !exact && key(&r) != key(&r2) {
        return Err(format!("result changes when the spatial index is supplied: {:?} and {:?}", key(&r), key(&r2)));
    }

    // where the segments truly meet
    let mut vague = false;
    let mut truth: Vec<(usize, usize, Meet)> = Vec::new();
    for (i, s) in xa.segs.iter().enumerate() {
        for (j, u) in xb.segs.iter().enumerate() {
            match meet(s, u, 2e-3) {
                None => vague = true,
                Some(m) if m.contacts.is_empty() && m.overlaps.is_empty() => {}
                Some(m) => truth.push((i, j, m)),
            }
        }
    }
    for (k, r) in [&r, &r2].into_iter().enumerate() {
        judge_path(&xa, ca, &xb, cb, simple, vague, &truth, r).map_err(|e| if k == 1 { format!("with a supplied index: {e}") } else { e })?;
    }
    ctx.nontrivial = !truth.is_empty() && !vague;
    if vague {
        ctx.class("vague");
    }
    if truth.iter().any(|x| !x.2.overlaps.is_empty()) {
        ctx.class("has-overlap");
    }
    if truth.iter().any(|x| x.2.contacts.iter().any(|c| at_vertex(c.0, xa.segs[x.0].a) || at_vertex(c.0, xb.segs[x.1].a))) {
        ctx.class("at-vertex");
    }
    Ok(())
}

#[allow(clippy::too_many_arguments)]
fn judge_path(xa: &Path, ca: bool, xb: &Path, cb: bool, simple: bool, vague: bool, truth: &[(usize, usize, Meet)], r: &PlineIntersectsCollection<f64>) -> Result<(), String> {
    let (na, nb) = (xa.segs.len(), xb.segs.len());
    // sound
    for (i, j, ps) in r
        .basic_intersects
        .iter()
        .map(|x| (x.start_index1, x.start_index2, vec![p2(x.point)]))
        .chain(r.overlapping_intersects.iter().map(|x| (x.start_index1, x.start_index2, vec![p2(x.point1), p2(x.point2)])))
    {
        if i >= na || j >= nb {
            return Err(format!("segment indexes {i}, {j} out of range"));
        }
        let allow = off_allow(&xa.segs[i], &xb.segs[j]);
        for p in ps {
            if !(xa.segs[i].dist(p) <= allow && xb.segs[j].dist(p) <= allow) {
                return Err(format!("reported point {p:?} is not on both segments {i} and {j}"));
            }
        }
    }
    let ends: Vec<Pt> = truth.iter().flat_map(|x| x.2.overlaps.iter().flat_map(|o| [o.0, o.1])).collect();
    let at_overlap_end = |p: Pt| ends.iter().any(|e| e.dist(p) < 1e-5);
    // a contact belongs to the segments that start there
    let kept = |i: usize, j: usize, p: Pt| {
        let end1 = at_vertex(p, xa.segs[i].b) && (ca || i + 1 != na);
        let end2 = at_vertex(p, xb.segs[j].b) && (cb || j + 1 != nb);
        !end1 && !end2
    };
    let mut got = vec![0; r.basic_intersects.len()];
    for (i, j, m) in truth {
        let (s, u) = (&xa.segs[*i], &xb.segs[*j]);
        let mut last = -1;
        for (p, tangent) in &m.contacts {
            let tol = contact_tol(s, u, *tangent) + 1e-5;
            let hits: Vec<usize> =
                (0..r.basic_intersects.len()).filter(|k| { let x = &r.basic_intersects[*k]; x.start_index1 == *i && x.start_index2 == *j && p2(x.point).dist(*p) < tol }).collect();
            for h in &hits {
                got[*h] += 1;
            }
            let want = kept(*i, *j, *p);
            if at_overlap_end(*p) {
                if simple && !vague && !hits.is_empty() {
                    return Err(format!("{p:?} is the end of a shared stretch and also reported as a crossing of segments {i} and {j}"));
                }
                continue;
            }
            if want && hits.is_empty() && !(vague && at_end(s, u, *p)) {
                return Err(format!("segments {i} and {j} meet at {p:?}, which is not reported"));
            }
            if !want && !hits.is_empty() {
                return Err(format!("the meeting at vertex {p:?} is reported on segments {i} and {j}, which do not both start there"));
            }
            if hits.len() > 1 {
                return Err(format!("the meeting of segments {i} and {j} at {p:?} is reported {} times", hits.len()));
            }
            if let Some(h) = hits.first() {
                if (*h as i64) < last {
                    return Err(format!("meetings of segments {i} and {j} are not in order along the second"));
                }
                last = *h as i64;
            }
        }
        for (x, y) in &m.overlaps {
            let n = r.overlapping_intersects.iter().filter(|o| o.start_index1 == *i && o.start_index2 == *j && p2(o.point1).dist(*x) < 1e-5 && p2(o.point2).dist(*y) < 1e-5).count();
            if n != 1 {
                return Err(format!("the stretch {x:?}..{y:?} shared by segments {i} and {j} is reported {n} times"));
            }
        }
    }
    if !vague {
        if let Some(k) = got.iter().position(|n| *n == 0) {
            return Err(format!("reported intersect {:?} is no meeting of its segments", r.basic_intersects[k]));
        }
        for o in &r.overlapping_intersects {
            if !truth.iter().any(|(i, j, m)| *i == o.start_index1 && *j == o.start_index2 && !m.overlaps.is_empty()) {
                return Err(format!("reported overlap {o:?} is no shared stretch"));
            }
        }
    }
    Ok(())
}
fn at_end(s: &Seg, u: &Seg, p: Pt) -> bool {
    [s.a, s.b, u.a, u.b].iter().any(|e| e.dist(p) < 1e-3)
}

// ---------------------------------------------------------------- I04

#[derive(Clone, Debug, PartialEq)]
struct Hit {
    i: usize,
    j: usize,
    pts: Vec<Pt>,
}
struct Rec {
    hits: Vec<Hit>,
    stop_after: usize,
}
impl Rec {
    fn step(&self) -> Control {
        if self.hits.len() >= self.stop_after {
            Control::Break(())
        } else {
            Control::Continue
        }
    }
}
impl PlineIntersectVisitor<f64, Control> for Rec {
    fn visit_basic_intr(&mut self, x: PlineBasicIntersect<f64>) -> Control {
        self.hits.push(Hit { i: x.start_index1, j: x.start_index2, pts: vec![p2(x.point)] });
        self.step()
    }
    fn visit_overlapping_intr(&mut self, x: PlineOverlappingIntersect<f64>) -> Control {
        self.hits.push(Hit { i: x.start_index1, j: x.start_index2, pts: vec![p2(x.point1), p2(x.point2)] });
        self.step()
    }
}

pub fn i04(t: &mut Tape, ctx: &mut Ctx) -> Result<(), String> {
    let (a, ca, class, simple) = match t.weighted(&[2, 3, 4, 2]) {
        0 => (gen::simple_closed(t, 0.1, 60.0), true, "simple", true),
        1 => {
            let (a, ca, ..) = gen_path_pair(t);
            (a, ca, "pair-part", false)
        }
        2 => {
            // lattice walks that come back, retrace and touch
            let closed = t.chance(1, 2);
            let n = 2 + t.idx(9);
            let mut vs: Vec<V> = vec![];
            let mut cur = pt(0.0, 0.0);
            for _ in 0..n {
                let p = if t.chance(1, 2) { pt(t.int(-2, 2) as f64, t.int(-2, 2) as f64) } else { pt(cur.x + t.int(-2, 2) as f64, cur.y + t.int(-2, 2) as f64) };
                if vs.last().is_some_and(|q: &V| q.p() == p) {
                    continue;
                }
                let b = if t.chance(2, 3) { 0.0 } else { gen::nice_bulge(t) };
                vs.push(v(p.x, p.y, b));
                cur = p;
            }
            if closed && vs.len() > 1 && vs[0].p() == vs[vs.len() - 1].p() {
                vs.pop();
            }
            let s = gen::rand_sim(t, 0.05, 8.0, 20.0);
            (s.vs(&vs), closed, "lattice", false)
        }
        _ => {
            let (a, ca) = any_pline(t, 1, 10);
            (a, ca, "wild", false)
        }
    };
    ctx.class(class);
    ctx.note(|| show(&a, ca));
    let x = Path::new(&a, ca);
    if a.len() >= 2 && !usable_path(&x) {
        ctx.discard();
        return Ok(());
    }
    let pl = mk(&a, ca);
    let exact = t.chance(1, 3);
    let index = if a.len() < 2 || t.chance(1, 2) {
        None
    } else if exact {
        Some(pl.create_aabb_index())
    } else {
        Some(pl.create_approx_aabb_index())
    };
    let run = |include: SelfIntersectsInclude, stop_after: usize| -> (Vec<Hit>, bool) {
        let mut rec = Rec { hits: vec![], stop_after };
        let mut o = PlineSelfIntersectOptions::new();
        o.include = include;
        o.aabb_index = index.as_ref();
        let c: Control = pl.visit_self_intersects_opt(&mut rec, &o);
        (rec.hits, matches!(c, Control::Break(_)))
    };
    let (all, br) = run(SelfIntersectsInclude::All, usize::MAX);
    let (local, _) = run(SelfIntersectsInclude::Local, usize::MAX);
    let (global, _) = run(SelfIntersectsInclude::Global, usize::MAX);
    if br {
        return Err("the search reports a stop nobody asked for".into());
    }
    // stopping
    if !all.is_empty() {
        let k = 1 + t.idx(all.len());
        for (inc, full) in [(SelfIntersectsInclude::All, &all), (SelfIntersectsInclude::Local, &local), (SelfIntersectsInclude::Global, &global)] {
            if k > full.len() {
                continue;
            }
            let (part, br) = run(inc, k);
            if part.len() != k || !br {
                return Err(format!("asked to stop at report {k} of {}: {} reported, stopped: {br}", full.len(), part.len()));
            }
            if part[..] != full[..k] {
                return Err(format!("the first {k} reports change when stopping there"));
            }
        }
    }
    if index.is_none() {
        let mut rec = Rec { hits: vec![], stop_after: usize::MAX };
        let _: Control = pl.visit_self_intersects(&mut rec);
        if rec.hits != all {
            return Err("default options report something else".into());
        }
    }
    // partition
    let n = x.segs.len();
    let shares = |i: usize, j: usize| i + 1 == j || j + 1 == i || (ca && (i + 1 == n && j == 0 || j + 1 == n && i == 0));
    let key = |h: &Hit| (h.i, h.j, h.pts.iter().map(|p| (p.x.to_bits(), p.y.to_bits())).collect::<Vec<_>>());
    let mut both: Vec<_> = local.iter().chain(&global).map(key).collect();
    let mut whole: Vec<_> = all.iter().map(key).collect();
    both.sort();
    whole.sort();
    if both != whole {
        return Err("local and global reports together are not all reports".into());
    }
    for (h, want) in local.iter().map(|h| (h, true)).chain(global.iter().map(|h| (h, false))) {
        if h.i >= n || h.j >= n || h.i == h.j {
            return Err(format!("report names segments {}, {}", h.i, h.j));
        }
        if shares(h.i, h.j) != want {
            return Err(format!("segments {}, {} reported as {}", h.i, h.j, if want { "local" } else { "global" }));
        }
        let (s, u) = (&x.segs[h.i], &x.segs[h.j]);
        let allow = off_allow(s, u);
        for p in &h.pts {
            if !(s.dist(*p) <= allow && u.dist(*p) <= allow) {
                return Err(format!("reported point {p:?} is not on both segments {}, {}", h.i, h.j));
            }
        }
    }
    if simple {
        if let Some(h) = all.first() {
            return Err(format!("a simple outline has the self-intersect {h:?}"));
        }
    }
    // compare with where the segments truly meet
    let mut vague = false;
    let mut truth: Vec<(usize, usize, Meet)> = Vec::new();
    for i in 0..n {
        for j in i + 1..n {
            let (s, u) = (&x.segs[i], &x.segs[j]);
            match meet(s, u, 2e-3) {
                None => vague = true,
                Some(mut m) => {
                    // joints are no intersections
                    let mut joints = vec![];
                    if i + 1 == j {
                        joints.push(s.b);
                    }
                    if ca && i == 0 && j + 1 == n {
                        joints.push(s.a);
                    }
                    m.contacts.retain(|c| joints.iter().all(|q| !at_vertex(c.0, *q)));
                    if !m.contacts.is_empty() || !m.overlaps.is_empty() {
                        truth.push((i, j, m));
                    }
                }
            }
        }
    }
    if vague {
        ctx.class("vague");
    }
    ctx.nontrivial = !vague && !truth.is_empty();
    // every place is reported
    for (i, j, m) in &truth {
        let (s, u) = (&x.segs[*i], &x.segs[*j]);
        for (p, tangent) in &m.contacts {
            let tol = contact_tol(s, u, *tangent) + 1e-5;
            let near = |h: &Hit| h.pts.iter().any(|q| q.dist(*p) < tol);
            let own = all.iter().filter(|h| h.pts.len() == 1 && near(h) && (h.i == *i && h.j == *j || h.i == *j && h.j == *i)).count();
            if own > 1 {
                return Err(format!("the meeting of segments {i} and {j} at {p:?} is reported {own} times"));
            }
            if own == 0 {
                let at_end = [s.a, s.b, u.a, u.b].iter().any(|e| at_vertex(*e, *p));
                if !at_end {
                    return Err(format!("segments {i} and {j} cross at {p:?}, which is not reported"));
                }
                // at a vertex the report may name the neighbouring segments
                if !vague && !all.iter().any(near) {
                    return Err(format!("segments {i} and {j} touch at {p:?}, which is not reported"));
                }
                ctx.class("touch-by-neighbour");
            }
        }
        for (p, q) in &m.overlaps {
            let own: Vec<&Hit> = all.iter().filter(|h| h.pts.len() == 2 && (h.i == *i && h.j == *j || h.i == *j && h.j == *i)).collect();
            if own.len() != 1 {
                return Err(format!("the stretch {p:?}..{q:?} shared by segments {i} and {j} is reported {} times", own.len()));
            }
            ctx.class("overlap");
            // along the segment named second
            let h = own[0];
            let second = &x.segs[h.j];
            let (w0, w1) = if second.closest_t(*p) < second.closest_t(*q) { (p, q) } else { (q, p) };
            if h.pts[0].dist(*w0) > 1e-5 || h.pts[1].dist(*w1) > 1e-5 {
                if n == 2 && ca && h.pts[0].dist(*w1) <= 1e-5 && h.pts[1].dist(*w0) <= 1e-5 {
                    ctx.site = Some("two-vertex-overlap-order");
                }
                return Err(format!("the stretch {w0:?}..{w1:?} along segment {} is reported as {:?}", h.j, h.pts));
            }
        }
    }
    // and nothing else
    if !vague {
        for h in &all {
            let (lo, hi) = (h.i.min(h.j), h.i.max(h.j));
            let (s, u) = (&x.segs[h.i], &x.segs[h.j]);
            let ok = truth.iter().any(|(i, j, m)| {
                *i == lo
                    && *j == hi
                    && if h.pts.len() == 2 { !m.overlaps.is_empty() } else { m.contacts.iter().any(|c| c.0.dist(h.pts[0]) < contact_tol(s, u, c.1) + 1e-5) }
            });
            if !ok {
                return Err(format!("reported {h:?} is no meeting of its segments away from their joint"));
            }
        }
    }
    Ok(())
}
