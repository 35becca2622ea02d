//! S01, S02: multi-outline shapes.
use crate::gen;
use crate::geo::*;
use crate::prop_boolean::{repeat_at, scaled, too_fine, unit_scale};
use crate::prop_offset::*;
use crate::run::*;
use crate::tape::Tape;
use crate::util::*;
use cavalier_contours::polyline::*;
use cavalier_contours::shape_algorithms::*;

pub struct Outlines {
    pub vs: Vec<Vec<V>>,
    pub paths: Vec<Path>,
    pub size: f64,
    /// gaps between outlines, smallest first
    pub gaps: Vec<f64>,
}

fn gap_between(a: &Path, b: &Path) -> f64 {
    // (close enough for choosing distances: both sample the other)
    let x = a.samples(4).into_iter().map(|q| b.dist(q)).fold(f64::INFINITY, f64::min);
    let y = b.samples(4).into_iter().map(|q| a.dist(q)).fold(f64::INFINITY, f64::min);
    x.min(y)
}

fn apart(a: &Path, b: &Path, gap: f64) -> bool {
    a.segs.iter().all(|s| b.segs.iter().all(|w| farther_than(s, w, gap)))
}

/// Properly nested outlines that do not touch: outlines at even depth run counter-clockwise.
pub fn outlines(t: &mut Tape) -> Outlines {
    let target = 1 + t.weighted(&[1, 3, 4, 3, 2, 1, 1]);
    let mut paths: Vec<Path> = Vec::new();
    let mut vs: Vec<Vec<V>> = Vec::new();
    let regular = t.chance(1, 5);
    if regular {
        // boxes and discs on a grid, in a frame
        let pitch = *t.pick(&[1.0, 1.5, 2.0]);
        let (nx, ny) = (1 + t.idx(3), 1 + t.idx(3));
        let frame = t.chance(2, 3);
        if frame {
            let (w, h) = (nx as f64 * pitch + 1.0, ny as f64 * pitch + 1.0);
            let f = vec![v(-1.0, -1.0, 0.0), v(w - 1.0, -1.0, 0.0), v(w - 1.0, h - 1.0, 0.0), v(-1.0, h - 1.0, 0.0)];
            vs.push(f);
        }
        for i in 0..nx {
            for j in 0..ny {
                if vs.len() > target + 1 || t.chance(1, 5) {
                    continue;
                }
                let r = *t.pick(&[0.2, 0.25, 0.4]);
                let c = pt(i as f64 * pitch, j as f64 * pitch);
                vs.push(if t.chance(1, 2) {
                    vec![v(c.x - r, c.y - r, 0.0), v(c.x + r, c.y - r, 0.0), v(c.x + r, c.y + r, 0.0), v(c.x - r, c.y + r, 0.0)]
                } else {
                    vec![v(c.x - r, c.y, 1.0), v(c.x + r, c.y, 1.0)]
                });
            }
        }
        if vs.is_empty() {
            vs.push(gen::simple_unit(t));
        }
        paths = vs.iter().map(|x| Path::new(x, true)).collect();
    } else {
        vs.push(gen::simple_unit(t));
        paths.push(Path::new(&vs[0], true));
        let mut tries = 0;
        while vs.len() < target && tries < 24 {
            tries += 1;
            let mut bb = paths[0].bbox();
            for p in &paths {
                bb = join(bb, p.bbox());
            }
            let inside = t.chance(3, 4);
            let bb = if inside { paths[t.idx(paths.len())].bbox() } else { grow(bb, 0.3 * (bb[2] - bb[0])) };
            let q = pt(t.f(bb[0], bb[2]), t.f(bb[1], bb[3]));
            let d = paths.iter().map(|p| p.dist(q)).fold(f64::INFINITY, f64::min);
            if d < 0.02 {
                continue;
            }
            let u = if t.chance(1, 6) { vs[t.idx(vs.len())].clone() } else { gen::simple_unit(t) };
            let up = Path::new(&u, true);
            let b = up.bbox();
            let c = pt((b[0] + b[2]) / 2.0, (b[1] + b[3]) / 2.0);
            let rad = c.dist(pt(b[0], b[1]));
            let f = d * t.f(0.3, 2.0) / rad;
            let k = Sim { s: f, rot: if t.chance(1, 2) { 0.0 } else { t.f(0.0, 6.28) }, mirror: t.chance(1, 2), t: pt(0.0, 0.0) };
            let c2 = k.p(c);
            let k = Sim { t: q - c2, ..k };
            let w = k.vs(&u);
            let wp = Path::new(&w, true);
            if paths.iter().all(|p| apart(p, &wp, 5e-3)) {
                vs.push(w);
                paths.push(wp);
            }
        }
    }
    // depth decides direction
    for i in 0..vs.len() {
        let q = paths[i].segs[0].a;
        let depth = (0..vs.len()).filter(|j| *j != i && paths[*j].winding(q).is_some_and(|w| w != 0)).count();
        if (paths[i].area() > 0.0) != (depth % 2 == 0) {
            vs[i] = reversed(&vs[i], true);
        }
    }
    let mut k = gen::rand_sim(t, 5.0, 60.0, 40.0);
    k.mirror = false;
    let mut vs: Vec<Vec<V>> = vs.iter().map(|x| k.vs(x)).collect();
    for x in vs.iter_mut() {
        *x = gen::rewrite_dir(t, std::mem::take(x));
    }
    // any order
    for i in (1..vs.len()).rev() {
        let j = t.idx(i + 1);
        vs.swap(i, j);
    }
    let paths: Vec<Path> = vs.iter().map(|x| Path::new(x, true)).collect();
    let mut bb = paths[0].bbox();
    for p in &paths {
        bb = join(bb, p.bbox());
    }
    let size = (bb[2] - bb[0]).max(bb[3] - bb[1]);
    let mut gaps = Vec::new();
    for i in 0..paths.len() {
        for j in 0..i {
            gaps.push(gap_between(&paths[i], &paths[j]));
        }
    }
    gaps.sort_by(f64::total_cmp);
    Outlines { vs, paths, size, gaps }
}

fn gen_delta(t: &mut Tape, o: &Outlines) -> f64 {
    let m = match t.weighted(&[4, 5, 1]) {
        0 => t.logf(0.01, 0.4) * o.size,
        1 if !o.gaps.is_empty() => {
            // about half the gap between two outlines, so that their offsets just meet or miss
            let k = t.idx(o.gaps.len().min(4));
            o.gaps[k] * t.f(0.3, 1.3)
        }
        _ => *t.pick(&[0.05, 0.1, 0.125, 0.2, 0.25]) * o.size,
    };
    let m = m.max(0.05);
    if t.chance(1, 2) {
        -m
    } else {
        m
    }
}

pub fn shape_of(vs: &[Vec<V>]) -> Shape<f64> {
    Shape::from_plines(vs.iter().map(|x| mk(x, true)))
}

pub fn shape_paths(s: &Shape<f64>) -> Vec<Path> {
    s.ccw_plines.iter().chain(&s.cw_plines).map(|p| path_of(&p.polyline)).collect()
}

fn all(paths: &[Path]) -> Path {
    Path { segs: paths.iter().flat_map(|p| p.segs.iter().copied()).collect(), ..paths[0].clone() }
}

fn dist(paths: &[Path], q: Pt) -> f64 {
    paths.iter().map(|p| p.dist(q)).fold(f64::INFINITY, f64::min)
}

fn show_all(vs: &[Vec<V>]) -> String {
    vs.iter().map(|x| show(x, true)).collect::<Vec<_>>().join(" ")
}

fn gen_shape(t: &mut Tape, ctx: &mut Ctx) -> Option<(Outlines, f64)> {
    let o = outlines(t);
    let delta = gen_delta(t, &o);
    ctx.note(|| format!("S=[{}] offset={delta:?}", show_all(&o.vs)));
    if o.paths.iter().any(|p| too_fine(p)) {
        ctx.class("finer-than-domain(skipped)");
        ctx.discard();
        return None;
    }
    ctx.class(match o.vs.len() {
        1 => "one-outline",
        2 | 3 => "2-3-outlines",
        _ => "4+-outlines",
    });
    Some((o, delta))
}

/// None when every event of the construction is exact or clear of the tolerances.
fn flaw(o: &Outlines, delta: f64, pair_min: f64) -> Option<u32> {
    flaw_of(&o.paths, delta, cond_margin(o.size), pair_min)
}

/// Flaw of the offset of all outlines together or of one outline alone: each outline is offset by
/// itself first, also where the others cut its offset away.
fn flaw_of(paths: &[Path], delta: f64, m: f64, pair_min: f64) -> Option<u32> {
    offset_flaw_of(paths, delta, m, false, pair_min)
        .or_else(|| paths.iter().find_map(|p| offset_flaw_of(std::slice::from_ref(p), delta, m, false, pair_min)))
}

fn judged(r: Result<(), String>, o: &Outlines, delta: f64, t: &mut Tape, ctx: &mut Ctx) -> Result<(), String> {
    if r.is_ok() && t.chance(1, 64) {
        ctx.class(match flaw(o, delta, 4e-6) {
            None => "audit(1/64): judged",
            _ => "audit(1/64): would be excused",
        });
    }
    let pair_min = if r.as_ref().is_err_and(|m| m.contains("panic")) { 1e-8 } else { 4e-6 };
    if r.is_err() && flaw(o, delta, pair_min).is_some() {
        ctx.class("near-degenerate(excused)");
        return Ok(());
    }
    r
}

pub fn s01(t: &mut Tape, ctx: &mut Ctx) -> Result<(), String> {
    let Some((o, delta)) = gen_shape(t, ctx) else { return Ok(()) };
    let r = s01_inner(t, ctx, &o, delta);
    judged(r, &o, delta, t, ctx)
}

fn s01_inner(t: &mut Tape, ctx: &mut Ctx, o: &Outlines, delta: f64) -> Result<(), String> {
    let src = shape_of(&o.vs);
    let res = no_panic("shape offset", || src.parallel_offset(delta, ShapeOffsetOptions::default()))?;
    let res = filed(res, 1.0);
    s01_result(t, ctx, o, delta, &res)
}

/// The same shape in another unit of length, positions off by rounding.
pub fn s03(t: &mut Tape, ctx: &mut Ctx) -> Result<(), String> {
    let Some((o, delta)) = gen_shape(t, ctx) else { return Ok(()) };
    let near = 1e-4 * (1.0 + delta.abs());
    if o.paths.iter().flat_map(|p| &p.segs).any(|k| k.arc.as_ref().is_some_and(|a| (a.r - delta.abs()).abs() < near)) {
        ctx.class("arc-radius-equal-to-distance(skipped)");
        ctx.discard();
        return Ok(());
    }
    let d = t.logf(1e-11, 1e-6);
    let off: Vec<Vec<V>> =
        o.vs.iter().map(|x| x.iter().map(|q| v(q.x + d * t.f(-1.0, 1.0), q.y + d * t.f(-1.0, 1.0), q.b)).collect()).collect();
    let reach = o.vs.iter().flatten().fold(0.0, |m: f64, q| m.max(q.x.abs()).max(q.y.abs()));
    let k = unit_scale(t, reach, o.size);
    ctx.note(|| format!("positions off by up to {d:e}: [{}]; everything times {k}", show_all(&off)));
    let off: Vec<Vec<V>> = off.iter().map(|x| scaled(x, k)).collect();
    let r = (|| {
        let src = shape_of(&off);
        let opt = ShapeOffsetOptions { pos_equal_eps: 1e-5 * k, offset_dist_eps: 1e-4 * k, slice_join_eps: 1e-4 * k };
        let res = no_panic("shape offset", || src.parallel_offset(delta * k, opt))?;
        s01_result(t, ctx, &o, delta, &filed(res, 1.0 / k))
    })();
    ctx.class(if k > 16.0 { "unit: large" } else if k < 0.06 { "unit: small" } else { "unit: about one" });
    ctx.nontrivial &= k != 1.0;
    if r.as_ref().is_err_and(|m| m.contains("right: IsValid") || m.starts_with("result ends apart")) {
        ctx.class("left over from a collapse(excused)");
        return Ok(());
    }
    judged(r, &o, delta, t, ctx)
}

/// All outlines, scaled, with the sign of the list they are in.
fn filed(s: Shape<f64>, k: f64) -> Vec<(Polyline<f64>, f64)> {
    let f = |p: IndexedPolyline<f64>, s: f64| (mk(&scaled(&un(&p.polyline), k), p.polyline.is_closed()), s);
    let mut r: Vec<_> = s.ccw_plines.into_iter().map(|p| f(p, 1.0)).collect();
    r.extend(s.cw_plines.into_iter().map(|p| f(p, -1.0)));
    r
}

fn s01_result(t: &mut Tape, ctx: &mut Ctx, o: &Outlines, delta: f64, res: &[(Polyline<f64>, f64)]) -> Result<(), String> {
    for (p, _) in res {
        let vs = un(p);
        if !p.is_closed() || vs.len() < 2 || !finite(&vs) {
            let apart = !p.is_closed() && finite(&vs) && vs.len() > 1 && vs[0].p().dist(vs[vs.len() - 1].p()) > 5e-6;
            let what = if apart { "result ends apart" } else { "result is not a closed finite polyline" };
            return Err(format!("{what}: {}", show(&vs, p.is_closed())));
        }
    }
    let paths: Vec<Path> = res.iter().map(|p| path_of(&p.0)).collect();
    ctx.class(match paths.len() {
        0 => "consumed",
        n if n < o.vs.len() => "fewer-results",
        n if n > o.vs.len() => "more-results",
        _ => "as-many-results",
    });
    let lone: usize = o.vs.iter().map(|x| mk(x, true).parallel_offset(delta).len()).sum();
    ctx.nontrivial = lone != paths.len() || {
        // (a merge that keeps the number of outlines shows in the number of segments)
        let a: usize = o.vs.iter().flat_map(|x| mk(x, true).parallel_offset(delta)).map(|p| p.vertex_count()).sum();
        a != paths.iter().map(|p| p.segs.len()).sum::<usize>()
    };
    let m = off_margin(delta, o.size);
    let whole = all(&o.paths);
    for q in off_samples(t, &whole, delta, 12, 36) {
        let d = dist(&o.paths, q);
        if (d - delta.abs()).abs() < m || d < m {
            continue;
        }
        let Some(w) = winding_sum(&o.paths, q) else { continue };
        let want = if delta > 0.0 { w != 0 && d > delta } else { w != 0 || d < -delta };
        let Some(got) = winding_sum(&paths, q) else { continue };
        if got != want as i32 {
            return Err(format!(
                "point ({:?},{:?}) at distance {d:?} from the outlines, winding {w}: winding of the offset is {got}, expected {}; {} results",
                q.x, q.y, want as i32, paths.len()
            ));
        }
    }
    for (p, (_, s)) in paths.iter().zip(res) {
        let a = p.area();
        if a * s < -1e-6 * (1.0 + o.size) {
            return Err(format!("outline with area {a} filed as {}", if *s > 0.0 { "counter-clockwise" } else { "clockwise" }));
        }
    }
    // every point of every result lies at the offset distance
    for p in &paths {
        for _ in 0..4 {
            let q = p.segs[t.idx(p.segs.len())].at(t.unit());
            let d = dist(&o.paths, q);
            if (d - delta.abs()).abs() > 5e-4 + 1e-6 * o.size {
                return Err(format!("({:?},{:?}) on a result lies {d:?} from the outlines", q.x, q.y));
            }
        }
    }
    Ok(())
}

/// The description every shape satisfies.
fn check_shape(s: &Shape<f64>, t: &mut Tape) -> Result<(), String> {
    let n = s.ccw_plines.len() + s.cw_plines.len();
    if s.plines_index.count() != n {
        return Err(format!("overall index has {} boxes for {n} outlines", s.plines_index.count()));
    }
    for (i, p) in s.ccw_plines.iter().chain(&s.cw_plines).enumerate() {
        let ccw = i < s.ccw_plines.len();
        let vs = un(&p.polyline);
        let what = show(&vs, p.polyline.is_closed());
        if (p.polyline.orientation() == PlineOrientation::CounterClockwise) != ccw {
            return Err(format!("{what} filed as {}", if ccw { "counter-clockwise" } else { "clockwise" }));
        }
        let path = path_of(&p.polyline);
        if path.segs.is_empty() {
            return Err(format!("{what} has no segments"));
        }
        if p.spatial_index.count() != path.segs.len() {
            return Err(format!("index of {what} has {} boxes", p.spatial_index.count()));
        }
        let bb = path.bbox();
        let tol = 1e-9 * (1.0 + bb.iter().fold(0.0f64, |a, b| a.max(b.abs())));
        // each segment's box covers it
        for (k, seg) in path.segs.iter().enumerate() {
            for f in [0.0, 0.2, 0.5, 0.8, 1.0] {
                let q = seg.at(f);
                let hit = p.spatial_index.query(q.x - tol, q.y - tol, q.x + tol, q.y + tol);
                if !hit.contains(&k) {
                    return Err(format!("index of {what} does not find segment {k} at ({:?},{:?})", q.x, q.y));
                }
            }
        }
        // overall: the outline's bounds under its position
        let b = p.spatial_index.bounds().ok_or("index without bounds")?;
        let want = [b.min_x, b.min_y, b.max_x, b.max_y];
        let x = (want[2] - want[0]).max(want[3] - want[1]);
        let probe = |min_x: f64, min_y: f64, max_x: f64, max_y: f64| s.plines_index.query(min_x, min_y, max_x, max_y).contains(&i);
        if !probe(want[0], want[1], want[2], want[3]) {
            return Err(format!("overall index does not find outline {i} in its bounds"));
        }
        let (cx, cy) = ((want[0] + want[2]) / 2.0, (want[1] + want[3]) / 2.0);
        let e = 1e-6 * (1.0 + x) + tol;
        let far = 1e6;
        for (name, inner, outer) in [
            ("left", probe(want[0] - e, cy - e, want[0] + e, cy + e), probe(-far, -far, want[0] - e, far)),
            ("right", probe(want[2] - e, cy - e, want[2] + e, cy + e), probe(want[2] + e, -far, far, far)),
            ("bottom", probe(cx - e, want[1] - e, cx + e, want[1] + e), probe(-far, -far, far, want[1] - e)),
            ("top", probe(cx - e, want[3] - e, cx + e, want[3] + e), probe(-far, want[3] + e, far, far)),
        ] {
            if !inner || outer {
                return Err(format!("overall index box of outline {i} ({what}) ends elsewhere than its {name} bound"));
            }
        }
        let _ = t;
    }
    Ok(())
}

pub fn s02(t: &mut Tape, ctx: &mut Ctx) -> Result<(), String> {
    match t.weighted(&[3, 4, 3]) {
        0 => s02_build(t, ctx),
        1 => s02_chain(t, ctx),
        _ => s02_single(t, ctx),
    }
}

/// Any list of closed polylines, even ones without area or with fewer than two vertexes.
fn s02_build(t: &mut Tape, ctx: &mut Ctx) -> Result<(), String> {
    ctx.class("build");
    let n = t.idx(7);
    let mut vs: Vec<Vec<V>> = Vec::new();
    for _ in 0..n {
        vs.push(match t.weighted(&[4, 3, 1]) {
            0 => {
                let x = gen::simple_closed(t, 0.5, 40.0);
                if t.chance(1, 2) {
                    reversed(&x, true)
                } else {
                    x
                }
            }
            1 => gen::wild(t, 2, 6, true),
            _ => gen::wild(t, 0, 1, true),
        });
    }
    ctx.note(|| show_all(&vs));
    let s = no_panic("from_plines", || shape_of(&vs))?;
    let kept: Vec<&Vec<V>> = vs.iter().filter(|x| x.len() > 1).collect();
    ctx.nontrivial = kept.len() > 1;
    if kept.len() < vs.len() {
        ctx.class("with-empty");
    }
    // same outlines, each once, in order
    let mut a: Vec<&Vec<V>> = Vec::new();
    let mut b: Vec<&Vec<V>> = Vec::new();
    for x in &kept {
        let area = Path::new(x, true).area();
        let p = mk(x, true);
        let ccw = p.orientation() == PlineOrientation::CounterClockwise;
        let size = Path::new(x, true).len();
        if area.abs() > 1e-9 * size * size && ccw != (area > 0.0) {
            return Err(format!("orientation of {}", show(x, true)));
        }
        if ccw {
            a.push(x);
        } else {
            b.push(x);
        }
    }
    for (want, got, name) in [(&a, &s.ccw_plines, "counter-clockwise"), (&b, &s.cw_plines, "clockwise")] {
        if want.len() != got.len() {
            return Err(format!("{} {name} outlines become {}", want.len(), got.len()));
        }
        for (w, g) in want.iter().zip(got.iter()) {
            let g2 = un(&g.polyline);
            if !g.polyline.is_closed() || g2.len() != w.len() || g2.iter().zip(w.iter()).any(|(p, q)| (p.x, p.y, p.b) != (q.x, q.y, q.b)) {
                return Err(format!("{} becomes {}", show(w, true), show(&g2, g.polyline.is_closed())));
            }
        }
    }
    check_shape(&s, t)?;
    check_shape(&Shape::empty(), t)
}

fn s02_chain(t: &mut Tape, ctx: &mut Ctx) -> Result<(), String> {
    ctx.class("chain");
    let Some((o, delta)) = gen_shape(t, ctx) else { return Ok(()) };
    let steps = 1 + t.idx(4);
    let mut cur = shape_of(&o.vs);
    check_shape(&cur, t)?;
    let before: Vec<Vec<V>> = cur.ccw_plines.iter().chain(&cur.cw_plines).map(|p| un(&p.polyline)).collect();
    let mut d = delta;
    let mut log = vec![delta];
    let mut paths = o.paths.clone();
    for k in 0..steps {
        let opts = ShapeOffsetOptions::default();
        let r = no_panic("shape offset", || cur.parallel_offset(d, opts)).map(|s| {
            (check_shape(&s, t), s)
        });
        let excused = |paths: &[Path]| {
            let w = all(paths);
            let size = { let b = w.bbox(); (b[2] - b[0]).max(b[3] - b[1]) };
            flaw_of(paths, d, cond_margin(size), 1e-8).is_some() || paths.iter().any(|p| too_fine(p))
                // (an exact collapse leaves outlines that touch: not properly nested any more)
                || paths.iter().any(|p| !clearly_simple(p, 1e-3, 1e-2))
                || (0..paths.len()).any(|i| (0..i).any(|j| !apart(&paths[i], &paths[j], 1e-3)))
        };
        let s = match r {
            Ok((Ok(()), s)) => s,
            Ok((Err(e), _)) | Err(e) => {
                if excused(&paths) {
                    ctx.class("near-degenerate(excused)");
                    return Ok(());
                }
                return Err(format!("after offsets {log:?}: {e}"));
            }
        };
        // the source of the offset is left as it was
        if k == 0 {
            let after: Vec<Vec<V>> = cur.ccw_plines.iter().chain(&cur.cw_plines).map(|p| un(&p.polyline)).collect();
            if format!("{before:?}") != format!("{after:?}") {
                return Err("offset changes its source".into());
            }
        }
        for p in s.ccw_plines.iter().chain(&s.cw_plines) {
            if !p.polyline.is_closed() || !finite(&un(&p.polyline)) {
                if excused(&paths) {
                    ctx.class("near-degenerate(excused)");
                    return Ok(());
                }
                return Err(format!("after offsets {log:?}: {}", show(&un(&p.polyline), p.polyline.is_closed())));
            }
            if let Some(i) = repeat_at(&un(&p.polyline), true, 1e-5) {
                if !excused(&paths) {
                    return Err(format!("after offsets {log:?}: repeated position at {i}: {}", show(&un(&p.polyline), true)));
                }
            }
        }
        let n = s.ccw_plines.len() + s.cw_plines.len();
        ctx.nontrivial |= k > 0 && n > 0;
        if n == 0 {
            if s.plines_index.count() != 0 {
                return Err("empty shape with a non-empty index".into());
            }
            break;
        }
        cur = s;
        paths = shape_paths(&cur);
        d = match t.below(4) {
            0 => -d,
            1 => d,
            2 => -d * 0.5,
            _ => t.logf(0.005, 0.2) * o.size * if t.chance(1, 2) { 1.0 } else { -1.0 },
        };
        log.push(d);
    }
    Ok(())
}

fn s02_single(t: &mut Tape, ctx: &mut Ctx) -> Result<(), String> {
    ctx.class("single");
    let vs = gen::simple_closed(t, 1.0, 40.0);
    let vs = if Path::new(&vs, true).area() < 0.0 && t.chance(1, 2) { reversed(&vs, true) } else { vs };
    let path = Path::new(&vs, true);
    let o = Outlines { vs: vec![vs.clone()], size: { let b = path.bbox(); (b[2] - b[0]).max(b[3] - b[1]) }, paths: vec![path], gaps: vec![] };
    let delta = gen_delta(t, &o);
    ctx.note(|| format!("S={} offset={delta:?}", show(&vs, true)));
    if too_fine(&o.paths[0]) {
        ctx.class("finer-than-domain(skipped)");
        ctx.discard();
        return Ok(());
    }
    let r = (|| {
        let a = no_panic("offset", || mk(&vs, true).parallel_offset(delta))?;
        let b = no_panic("shape offset", || shape_of(&o.vs).parallel_offset(delta, ShapeOffsetOptions::default()))?;
        let a: Vec<Path> = a.iter().map(path_of).collect();
        let b = shape_paths(&b);
        ctx.nontrivial = !a.is_empty();
        let m = off_margin(delta, o.size);
        for q in off_samples(t, &o.paths[0], delta, 8, 16) {
            if (o.paths[0].dist(q) - delta.abs()).abs() < m {
                continue;
            }
            let (Some(x), Some(y)) = (winding_sum(&a, q), winding_sum(&b, q)) else { continue };
            if x != y {
                return Err(format!("winding at ({:?},{:?}) is {x} for the polyline offset, {y} for the shape offset", q.x, q.y));
            }
        }
        Ok(())
    })();
    judged(r, &o, delta, t, ctx)
}

