//! R01: operations on any valid input complete, stay finite, repeat, and leave inputs alone.
use crate::gen;
use crate::geo::*;
use crate::prop_geom::any_pline;
use crate::prop_offset::{cond_margin, offset_flaw_of};
use crate::run::*;
use crate::tape::Tape;
use crate::util::*;
use cavalier_contours::core::{math::Vector2, Control};
use cavalier_contours::polyline::*;
use cavalier_contours::shape_algorithms::*;

/// Everything an operation returned, flattened: numbers by their bits, counts as they are.
#[derive(Default, PartialEq)]
struct Out {
    words: Vec<u64>,
    bad: bool,
    short: bool,
}

impl Out {
    fn n(&mut self, x: usize) {
        self.words.push(x as u64);
    }
    fn f(&mut self, x: f64) {
        self.bad |= !x.is_finite();
        self.words.push(x.to_bits());
    }
    fn v2(&mut self, p: Vector2<f64>) {
        self.f(p.x);
        self.f(p.y);
    }
    fn pl<P: PlineSource<Num = f64> + ?Sized>(&mut self, p: &P) {
        self.n(p.is_closed() as usize);
        self.n(p.vertex_count());
        for q in p.iter_vertexes() {
            self.f(q.x);
            self.f(q.y);
            self.f(q.bulge);
        }
    }
}

/// A polyline of any kind: random, touching itself, retracing itself, tiny, huge, far away.
fn any_valid(t: &mut Tape, nmax: usize) -> (Vec<V>, bool, &'static str) {
    match t.weighted(&[4, 3, 2, 2, 1, 1]) {
        0 => {
            let (a, b) = any_pline(t, 0, nmax);
            (a, b, "random")
        }
        1 => {
            // lattice walk with few directions: retraces and touches itself all the time
            let closed = t.chance(1, 2);
            let n = 1 + t.idx(nmax);
            let mut cur = (0i64, 0i64);
            let mut vs: Vec<V> = vec![];
            for _ in 0..n {
                let b = *t.pick(&[0.0, 0.0, 0.0, 1.0, -1.0, gen::BQ, -gen::BQ, 0.5]);
                vs.push(v(cur.0 as f64, cur.1 as f64, b));
                let d = *t.pick(&[(1, 0), (0, 1), (-1, 0), (0, -1), (2, 0), (0, -2), (1, 1)]);
                cur = (cur.0 + d.0, cur.1 + d.1);
            }
            while closed && vs.len() > 1 && vs[vs.len() - 1].p() == vs[0].p() {
                vs.pop();
            }
            (vs, closed, "lattice")
        }
        2 => {
            // pieces of one circle or line, back and forth
            let n = 2 + t.idx(nmax - 1);
            let closed = t.chance(1, 2);
            let on_line = t.chance(1, 3);
            let r = t.logf(0.5, 50.0);
            let mut a = 0i64;
            let mut vs = vec![];
            for _ in 0..n {
                let step = *t.pick(&[1i64, 2, 3, -1, -2, -3, 6, -6]);
                let (p, b) = if on_line {
                    (pt(a as f64 * r * 0.1, a as f64 * r * 0.05), 0.0)
                } else {
                    let k = a as f64 * std::f64::consts::PI / 6.0;
                    (pt(r * k.cos(), r * k.sin()), (step as f64 * std::f64::consts::PI / 24.0).tan())
                };
                vs.push(v(p.x, p.y, b));
                a += step;
            }
            if closed && vs.len() > 1 && vs[vs.len() - 1].p().dist(vs[0].p()) < 1e-3 {
                vs.pop();
            }
            if closed && !on_line {
                let l = vs.len() - 1;
                vs[l].b = 0.0;
            }
            (vs, closed, "one-circle-or-line")
        }
        3 => (gen::simple_closed(t, 0.5, 60.0), true, "simple"),
        4 => {
            // extreme proportions
            let (vs, c) = any_pline(t, 2, nmax);
            let (sx, sy) = (t.logf(1e-2, 1e2), t.logf(1e-2, 1e2));
            let vs: Vec<V> = vs.iter().map(|q| v(q.x * sx, q.y * sy, q.b)).collect();
            (vs, c, "stretched")
        }
        _ => {
            // bulges next to the limits of being a line or a half circle
            let (vs, c) = any_pline(t, 2, nmax);
            let vs = vs
                .iter()
                .map(|q| {
                    let b = *t.pick(&[1e-9, -1e-9, 5e-9, 1e-4, -1e-4, -1e-3, 1.0, -1.0, 1.0 - 1e-12, -1.0 + 1e-9, 0.999]);
                    v(q.x, q.y, if t.chance(1, 2) { b } else { q.b })
                })
                .collect();
            (vs, c, "limit-bulges")
        }
    }
}

fn repeats(vs: &[V], closed: bool) -> bool {
    crate::prop_boolean::repeat_at(vs, closed, 1e-3).is_some()
}

struct Everything(Out);
impl PlineIntersectVisitor<f64, Control> for Everything {
    fn visit_basic_intr(&mut self, i: PlineBasicIntersect<f64>) -> Control {
        self.0.n(i.start_index1);
        self.0.n(i.start_index2);
        self.0.v2(i.point);
        Control::Continue
    }
    fn visit_overlapping_intr(&mut self, i: PlineOverlappingIntersect<f64>) -> Control {
        self.0.n(i.start_index1);
        self.0.n(i.start_index2);
        self.0.v2(i.point1);
        self.0.v2(i.point2);
        Control::Continue
    }
}

/// A failed check of debug builds, as opposed to a failure that release builds have as well.
fn internal_check(m: &str) -> bool {
    m.contains("panic") && !["index out of", "out of range", "called `", "overflow", "unreachable", "expect"].iter().any(|w| m.contains(w))
}

fn bool_op(k: usize) -> BooleanOp {
    [BooleanOp::Or, BooleanOp::And, BooleanOp::Not, BooleanOp::Xor][k]
}

pub fn r01(t: &mut Tape, ctx: &mut Ctx) -> Result<(), String> {
    let op = t.weighted(&[6, 4, 3, 3, 3, 3, 3, 2]);
    // (outlines of shapes do not cross themselves; here they may cross or touch each other)
    let one = |t: &mut Tape, n: usize| {
        if op == 5 {
            (gen::simple_closed(t, 1.0, 40.0), true, "simple")
        } else {
            any_valid(t, n)
        }
    };
    let (mut va, mut ca, mut class) = one(t, 12);
    let (mut vb, mut cb, _) = one(t, 8);
    if matches!(op, 2 | 3 | 5) && t.chance(1, 2) {
        // outlines that share edges, arcs, tangencies and vertexes up to rounding
        let p = crate::pairs::bool_pair(t);
        let d = t.logf(1e-10, 1e-6);
        let shift = t.chance(1, 3).then(|| pt(t.f(-1.0, 1.0), t.f(-1.0, 1.0)));
        vb = p
            .b
            .iter()
            .map(|q| {
                let o = shift.unwrap_or_else(|| pt(t.f(-1.0, 1.0), t.f(-1.0, 1.0)));
                v(q.x + d * o.x, q.y + d * o.y, q.b)
            })
            .collect();
        (va, ca, cb, class) = (p.a, true, true, "aligned up to rounding");
    }
    let names = ["offset", "offset with self-intersect handling", "boolean", "intersects", "self intersects", "shape offset", "edits", "measures"];
    let name = names[op];
    let da = va.iter().map(|q| q.p().len()).fold(0.0f64, f64::max).max(0.1);
    let delta = match t.weighted(&[4, 2, 1]) {
        0 => t.logf(1e-3, 2.0) * da.min(200.0),
        1 => *t.pick(&[0.25, 0.5, 1.0, 2.0, 5.0]),
        _ => t.logf(1e-3, 1e3),
    } * if t.chance(1, 2) { 1.0 } else { -1.0 };
    let q = Vector2::new(t.f(-da, da), t.f(-da, da));
    let k = t.idx(4);
    let (i, f) = (t.below(1 << 20) as usize, t.unit());
    ctx.note(|| format!("{name}: A={} B={} offset={delta:?} op={k} point={q:?} i={i} f={f:?}", show(&va, ca), show(&vb, cb)));
    if repeats(&va, ca) || repeats(&vb, cb) {
        ctx.class("repeated-position(skipped)");
        ctx.discard();
        return Ok(());
    }
    ctx.class(class);
    ctx.class(name);
    ctx.nontrivial = va.len() > 2;
    let (a, b) = (mk(&va, ca), mk(&vb, cb));
    let run = || -> Out {
        let mut o = Out::default();
        match op {
            0 | 1 => {
                let opts = PlineOffsetOptions { handle_self_intersects: op == 1, ..Default::default() };
                let r = a.parallel_offset_opt(delta, &opts);
                o.n(r.len());
                o.short |= r.iter().any(|p| p.vertex_count() < 2);
                r.iter().for_each(|p| o.pl(p));
            }
            2 => {
                let r = a.boolean(&b, bool_op(k));
                o.n(r.result_info as usize);
                for l in [&r.pos_plines, &r.neg_plines] {
                    o.n(l.len());
                    for p in l {
                        o.pl(&p.pline);
                        o.n(p.subslices.len());
                    }
                }
            }
            3 => {
                let r = a.find_intersects(&b);
                o.n(r.basic_intersects.len());
                for i in &r.basic_intersects {
                    o.n(i.start_index1);
                    o.n(i.start_index2);
                    o.v2(i.point);
                }
                for i in &r.overlapping_intersects {
                    o.n(i.start_index1);
                    o.n(i.start_index2);
                    o.v2(i.point1);
                    o.v2(i.point2);
                }
            }
            4 => {
                let mut e = Everything(Out::default());
                let _: Control = a.visit_self_intersects(&mut e);
                o = e.0;
            }
            5 => {
                let s = Shape::from_plines([a.clone(), b.clone()]);
                let r = s.parallel_offset(delta, ShapeOffsetOptions::default());
                for l in [&r.ccw_plines, &r.cw_plines] {
                    o.n(l.len());
                    l.iter().for_each(|p| o.pl(&p.polyline));
                }
            }
            6 => {
                for r in [a.remove_repeat_pos(1e-5), a.remove_redundant(1e-5), a.arcs_to_approx_lines((delta.abs() * 0.1).max(1e-3))] {
                    o.n(r.is_some() as usize);
                    if let Some(r) = r {
                        o.pl(&r);
                    }
                }
                if a.vertex_count() > 1 {
                    let s = i % a.segment_count().max(1);
                    let p = seg_closest_point(a.at(s), a.at(a.next_wrapping_index(s)), q, 1e-5);
                    if let Some(r) = a.rotate_start(s, p, 1e-5) {
                        o.pl(&r);
                    }
                }
                let mut c = a.clone();
                c.invert_direction_mut();
                c.scale_mut(delta);
                c.translate_mut(q.x, q.y);
                o.pl(&c);
                c.extend(&b);
                o.pl(&c);
                o.pl(&Polyline::create_from_remove_repeat(&a, 1e-5));
            }
            _ => {
                if let Some(e) = a.extents() {
                    o.f(e.min_x);
                    o.f(e.min_y);
                    o.f(e.max_x);
                    o.f(e.max_y);
                }
                o.f(a.path_length());
                o.f(a.area());
                o.n(matches!(a.orientation(), PlineOrientation::Clockwise) as usize);
                if let Some(c) = a.closest_point(q, 1e-5) {
                    o.v2(c.seg_point);
                    o.f(c.distance);
                    o.n(c.seg_start_index);
                }
                o.n(a.winding_number(q) as usize);
                match a.find_point_at_path_length(a.path_length() * f * 1.1) {
                    Ok((i, p)) => {
                        o.n(i);
                        o.v2(p);
                    }
                    Err(l) => o.f(l),
                }
                for (v1, v2) in a.iter_segments() {
                    o.f(seg_length(v1, v2));
                    o.v2(seg_midpoint(v1, v2));
                    o.v2(seg_tangent_vector(v1, v2, seg_midpoint(v1, v2)));
                    o.v2(seg_closest_point(v1, v2, q, 1e-5));
                    for b in [seg_bounding_box(v1, v2), seg_fast_approx_bounding_box(v1, v2)] {
                        o.f(b.min_x);
                        o.f(b.min_y);
                        o.f(b.max_x);
                        o.f(b.max_y);
                    }
                }
                for idx in [a.create_aabb_index(), a.create_approx_aabb_index()] {
                    o.n(idx.count());
                }
            }
        }
        o
    };
    let r1 = match no_panic(name, run) {
        // a debug-build check of intermediate slices against tolerances; whether the input is one
        // on which it may trip is what B*, O* and S* decide
        Err(m) if m.contains("right: IsValid") => {
            ctx.class("slice-validation(debug builds)");
            return Ok(());
        }
        // (the same for offsets of single outlines that fall apart within the tolerances)
        Err(m) if op == 5 && internal_check(&m) && {
            let ps = [Path::new(&va, true), Path::new(&vb, true)];
            offset_flaw_of(&ps, delta, cond_margin(200.0), false, 1e-8).is_some()
        } => {
            ctx.class("near-degenerate shape(excused)");
            return Ok(());
        }
        Err(m) if op < 2 && internal_check(&m) && {
            let p = Path::new(&va, ca);
            let b = p.bbox();
            offset_flaw_of(&[p], delta, cond_margin((b[2] - b[0]).max(b[3] - b[1])), true, 1e-8).is_some()
        } => {
            ctx.class("near-degenerate offset(excused)");
            return Ok(());
        }
        r => r?,
    };
    if r1.bad {
        return Err(format!("{name}: the result has a coordinate that is not finite"));
    }
    if r1.short {
        return Err(format!("{name}: a result has fewer than two vertexes"));
    }
    let r2 = no_panic(name, run)?;
    if r1 != r2 {
        return Err(format!("{name}: a second run gives another answer"));
    }
    let same = |vs: &[V], p: &Polyline<f64>, c: bool| {
        let w = un(p);
        p.is_closed() == c
            && w.len() == vs.len()
            && w.iter().zip(vs).all(|(x, y)| (x.x.to_bits(), x.y.to_bits(), x.b.to_bits()) == (y.x.to_bits(), y.y.to_bits(), y.b.to_bits()))
    };
    if !same(&va, &a, ca) || !same(&vb, &b, cb) {
        return Err(format!("{name} changes its input"));
    }
    Ok(())
}
