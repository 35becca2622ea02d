//! O01..O04: parallel offsets of polylines.
use crate::gen;
use crate::geo::*;
use crate::prop_boolean::{repeat_at, scaled, too_fine, unit_scale};
use crate::run::*;
use crate::tape::Tape;
use crate::util::*;
use cavalier_contours::polyline::*;

pub struct Src {
    pub vs: Vec<V>,
    pub path: Path,
    pub size: f64,
    pub ccw: bool,
    pub delta: f64,
    pub pl: Polyline<f64>,
}

fn extent(p: &Path) -> f64 {
    let b = p.bbox();
    (b[2] - b[0]).max(b[3] - b[1])
}

/// Offset distance: anything from far below the feature size to beyond the whole outline.
fn gen_delta(t: &mut Tape, size: f64) -> f64 {
    let m = match t.weighted(&[6, 3, 1]) {
        0 => t.logf(0.01, 0.3) * size,
        1 => t.logf(0.05, 0.8) * size,
        // round values: offsets that meet exactly on regular inputs
        _ => *t.pick(&[0.05, 0.1, 0.125, 0.2, 0.25, 0.3]) * size,
    };
    let m = m.max(0.01);
    if t.chance(1, 2) {
        -m
    } else {
        m
    }
}

fn gen_simple(t: &mut Tape, ctx: &mut Ctx) -> Option<Src> {
    let vs = gen::simple_closed(t, 0.2, 40.0);
    let path = Path::new(&vs, true);
    let size = extent(&path);
    let delta = gen_delta(t, size);
    ctx.note(|| format!("S={} offset={delta:?}", show(&vs, true)));
    if too_fine(&path) {
        ctx.class("finer-than-domain(skipped)");
        ctx.discard();
        return None;
    }
    let pl = mk(&vs, true);
    let ccw = path.area() > 0.0;
    Some(Src { vs, path, size, ccw, delta, pl })
}

fn run_offset(t: &mut Tape, pl: &Polyline<f64>, delta: f64, selfx: bool) -> Vec<Polyline<f64>> {
    let k = t.idx(3);
    if k == 0 && !selfx {
        return pl.parallel_offset(delta);
    }
    let idx = match k {
        0 => None,
        1 => Some(pl.create_aabb_index()),
        _ => Some(pl.create_approx_aabb_index()),
    };
    let o = PlineOffsetOptions { aabb_index: idx.as_ref(), handle_self_intersects: selfx, ..Default::default() };
    pl.parallel_offset_opt(delta, &o)
}

/// Distance within which a point's relation to the exact offset distance is left undecided.
pub fn off_margin(delta: f64, size: f64) -> f64 {
    (1e-3f64).max(2e-3 * delta.abs()).max(5e-4 * size)
}

/// Points at about the offset distance from the source, on both sides, plus random ones.
pub fn off_samples(t: &mut Tape, path: &Path, delta: f64, nrand: usize, nnear: usize) -> Vec<Pt> {
    let bb = grow(path.bbox(), delta.abs().min(extent(path)) * 1.1 + 1e-3);
    let mut r = Vec::new();
    for _ in 0..nrand {
        r.push(pt(t.f(bb[0], bb[2]), t.f(bb[1], bb[3])));
    }
    for _ in 0..nnear {
        let s = &path.segs[t.idx(path.segs.len())];
        let f = match t.below(4) {
            0 => 0.5,
            1 => 0.0,
            _ => t.unit(),
        };
        let side = if t.chance(1, 3) { -1.0 } else { 1.0 };
        let k = 1.0 + *t.pick(&[1.0, -1.0]) * t.logf(3e-3, 0.7);
        let mut n = s.tan(f).left();
        if f == 0.0 {
            let a = t.f(-1.6, 1.6);
            let (c, si) = (a.cos(), a.sin());
            n = pt(n.x * c - n.y * si, n.x * si + n.y * c);
        }
        r.push(s.at(f) + n * (delta * side * k));
    }
    r
}

/// Pieces of which the true offset curve consists: displaced segments and convex corner arcs.
fn raw_pieces(path: &Path, delta: f64) -> (Vec<Seg>, f64) {
    let mut out = Vec::new();
    let mut min_r = f64::INFINITY;
    let n = path.segs.len();
    for (i, s) in path.segs.iter().enumerate() {
        if let Some(k) = &s.arc {
            let r2 = if k.sweep > 0.0 { k.r - delta } else { k.r + delta };
            if r2.abs() > 1e-9 {
                min_r = min_r.min(r2.abs());
            }
            if r2 > 1e-9 {
                out.push(Seg::new(s.a + s.tan(0.0).left() * delta, s.b + s.tan(1.0).left() * delta, s.bulge));
            }
        } else {
            let n = s.tan(0.0).left() * delta;
            out.push(Seg::new(s.a + n, s.b + n, 0.0));
        }
        if i + 1 == n && !path.closed {
            continue;
        }
        let w = &path.segs[(i + 1) % n];
        let (t1, t2) = (s.tan(1.0), w.tan(0.0));
        let ang = t1.cross(t2).atan2(t1.dot(t2));
        if ang * delta < 0.0 && ang.abs() > 1e-9 {
            out.push(Seg::new(s.b + t1.left() * delta, s.b + t2.left() * delta, (ang / 4.0).tan()));
        }
    }
    (out, min_r)
}

fn n_last(path: &Path) -> usize {
    path.segs.len() - 1
}

pub fn offset_conditioned(path: &Path, delta: f64, m: f64, two_sided: bool) -> bool {
    offset_flaw(path, delta, m, two_sided, 4e-6).is_none()
}

/// None when every event of the offset construction (piece meeting piece, piece ending, curve
/// being cut off by another part of the source) is either exact or clear by the margin `m`:
/// no features of the true offset curve and no near misses are of the size of the tolerances.
///
/// `two_sided` also looks at where pieces meet the pieces of the opposite side (which is where
/// curves of self-crossing or open sources end).
pub fn offset_flaw(path: &Path, delta: f64, m: f64, two_sided: bool, pair_min: f64) -> Option<u32> {
    offset_flaw_of(std::slice::from_ref(path), delta, m, two_sided, pair_min)
}

/// The same for several outlines offset together.
pub fn offset_flaw_of(paths: &[Path], delta: f64, m: f64, two_sided: bool, pair_min: f64) -> Option<u32> {
    const EXACT: f64 = 2e-6;
    let whole;
    let path = match paths {
        [p] => p,
        _ => {
            whole = Path { segs: paths.iter().flat_map(|p| p.segs.iter().copied()).collect(), closed: true };
            &whole
        }
    };
    let mut raw = Vec::new();
    for p in paths {
        let (r, min_r) = raw_pieces(p, delta);
        if min_r < m {
            return Some(1);
        }
        raw.extend(r);
    }
    let mut crit: Vec<(Pt, f64)> = Vec::new();
    for s in &raw {
        if s.len() < m && [0.0, 0.5, 1.0].iter().any(|f| path.dist(s.at(*f)) > delta.abs() - m) {
            return Some(2);
        }
        crit.push((s.a, 1.0));
        crit.push((s.b, 1.0));
    }
    for i in 0..raw.len() {
        for j in i + 1..raw.len() {
            if farther_than(&raw[i], &raw[j], 2.0 * m) {
                continue;
            }
            for c in crossings(&raw[i], &raw[j], m) {
                crit.push((c.p, c.sin));
            }
        }
    }
    let mut others: Vec<Seg> = Vec::new();
    if two_sided {
        let (dual, min_r) = raw_pieces(path, -delta);
        if min_r < m {
            return Some(3);
        }
        others = dual;
        if !path.closed {
            let r = pt(delta.abs(), 0.0);
            for e in [path.segs[0].a, path.segs[n_last(path)].b] {
                others.push(Seg::new(e - r, e + r, 1.0));
                others.push(Seg::new(e + r, e - r, 1.0));
            }
        }
        for s in &raw {
            for o in &others {
                if farther_than(s, o, 2.0 * m) {
                    continue;
                }
                if same_support(s, o, 1e-4) {
                    // coinciding stretches of both sides: a collapse all along
                    if [0.0, 0.3, 0.5, 0.7, 1.0].iter().any(|f| o.dist(s.at(*f)) < m && path.dist(s.at(*f)) > delta.abs() - m) {
                        return Some(4);
                    }
                }
                for c in crossings(s, o, m) {
                    crit.push((c.p, c.sin));
                }
            }
        }
    }
    // pieces trimmed to about the position tolerance, even where they are cut away later
    for i in 0..crit.len() {
        for j in 0..i {
            let e = crit[i].0.dist(crit[j].0);
            if e > pair_min && e < 5e-5 {
                return Some(5);
            }
        }
    }
    for (q, sin) in crit {
        let d = path.dist(q) - delta.abs();
        if d < -m {
            continue;
        }
        if d < -EXACT {
            return Some(6);
        }
        if sin < 0.03 && sin > 1e-6 {
            return Some(7);
        }
        for s in raw.iter().chain(&others) {
            let e = s.dist(q);
            if e > EXACT && e < m {
                return Some(8);
            }
        }
    }
    None
}

pub fn winding_sum(ps: &[Path], p: Pt) -> Option<i32> {
    let mut c = 0;
    for q in ps {
        c += q.winding(p)?;
    }
    Some(c)
}

/// Margin of the conditioning test.
pub fn cond_margin(size: f64) -> f64 {
    (5e-3f64).max(3e-4 * size)
}

/// A failure counts only on inputs whose offset has no features or near misses of the size of
/// the tolerances (decided independently of the library).
fn judged(r: Result<(), String>, path: &Path, delta: f64, two_sided: bool, t: &mut Tape, ctx: &mut Ctx) -> Result<(), String> {
    if r.is_ok() && t.chance(1, 64) {
        // how much of what is generated would be judged at all
        ctx.class(match offset_flaw(path, delta, cond_margin(extent(path)), two_sided, 4e-6) {
            None => "audit(1/64): judged",
            _ => "audit(1/64): would be excused"
        });
    }
    // internal consistency assertions (debug builds) trip on intermediate pieces shorter than the
    // position tolerance, wherever they are
    let pair_min = if r.as_ref().is_err_and(|m| m.contains("panic")) { 1e-8 } else { 4e-6 };
    if r.is_err() && offset_flaw(path, delta, cond_margin(extent(path)), two_sided, pair_min).is_some() {
        ctx.class("near-degenerate(excused)");
        return Ok(());
    }
    r
}

pub fn o01(t: &mut Tape, ctx: &mut Ctx) -> Result<(), String> {
    let Some(s) = gen_simple(t, ctx) else { return Ok(()) };
    let r = o01_inner(t, ctx, &s);
    judged(r, &s.path, s.delta, false, t, ctx)
}

fn o01_inner(t: &mut Tape, ctx: &mut Ctx, s: &Src) -> Result<(), String> {
    let res = no_panic("offset", || run_offset(t, &s.pl, s.delta, false))?;
    o01_result(t, ctx, s, &res)
}

fn o01_result(t: &mut Tape, ctx: &mut Ctx, s: &Src, res: &[Polyline<f64>]) -> Result<(), String> {
    let paths: Vec<Path> = res.iter().map(path_of).collect();
    let inward = (s.delta > 0.0) == s.ccw;
    ctx.class(if inward { "inward" } else { "outward" });
    ctx.class(match paths.len() {
        0 => "consumed",
        1 => "one-result",
        _ => "several-results",
    });
    ctx.nontrivial = paths.len() != 1 || paths[0].segs.len() != s.path.segs.len();
    for (r, p) in res.iter().zip(&paths) {
        let vs = un(r);
        if !r.is_closed() || vs.len() < 2 || !finite(&vs) {
            // (an open one whose ends meet within the tolerance should have been closed)
            let apart = !r.is_closed() && finite(&vs) && vs.len() > 1 && vs[0].p().dist(vs[vs.len() - 1].p()) > 5e-6;
            let what = if apart { "result ends apart" } else { "result is not a closed finite polyline" };
            return Err(format!("{what}: {}", show(&vs, r.is_closed())));
        }
        let _ = p;
    }
    let sign = if s.ccw { 1 } else { -1 };
    let m = off_margin(s.delta, s.size);
    let mut seen = (false, false);
    for q in off_samples(t, &s.path, s.delta, 10, 24) {
        let d = s.path.dist(q);
        if (d - s.delta.abs()).abs() < m || d < m {
            continue;
        }
        let Some(w) = s.path.winding(q) else { continue };
        let inside = w != 0;
        let want = if inward { inside && d > s.delta.abs() } else { inside || d < s.delta.abs() };
        if want {
            seen.0 = true;
        } else {
            seen.1 = true;
        }
        let Some(got) = winding_sum(&paths, q) else { continue };
        if got != sign * want as i32 {
            return Err(format!(
                "point ({:?},{:?}) at distance {d:?} from the source, inside={inside}: winding of the offset is {got}, expected {}; {} results",
                q.x, q.y, sign * want as i32, paths.len()
            ));
        }
    }
    if seen.0 && seen.1 {
        ctx.class("both-sides-sampled");
    }
    Ok(())
}

/// O01 with the positions of the source off by rounding (tangencies, collapsing corridors and equal
/// distances then hold only up to it).
pub fn o05(t: &mut Tape, ctx: &mut Ctx) -> Result<(), String> {
    let Some(mut s) = gen_simple(t, ctx) else { return Ok(()) };
    // arcs that collapse onto their center leave pieces about as short as the rounding
    let near = 1e-4 * (1.0 + s.delta.abs());
    if s.path.segs.iter().any(|k| k.arc.as_ref().is_some_and(|a| (a.r - s.delta.abs()).abs() < near)) {
        ctx.class("arc-radius-equal-to-distance(skipped)");
        ctx.discard();
        return Ok(());
    }
    let d = t.logf(1e-11, 1e-6);
    let off: Vec<V> = s.vs.iter().map(|q| v(q.x + d * t.f(-1.0, 1.0), q.y + d * t.f(-1.0, 1.0), q.b)).collect();
    ctx.note(|| format!("positions off by up to {d:e}: {}", show(&off, true)));
    s.pl = mk(&off, true);
    let r = o01_inner(t, ctx, &s);
    // a part that collapses exactly at the distance may leave a bit as long as the contacts move
    // (by the root of the rounding), which is not closed or which a debug assertion stops at
    if r.as_ref().is_err_and(|m| m.contains("right: IsValid") || m.starts_with("result ends apart")) {
        ctx.class("left over from a collapse(excused)");
        return Ok(());
    }
    judged(r, &s.path, s.delta, false, t, ctx)
}

/// The same outline in another unit of length: positions, distance and tolerances are scaled alike.
pub fn o06(t: &mut Tape, ctx: &mut Ctx) -> Result<(), String> {
    let Some(s) = gen_simple(t, ctx) else { return Ok(()) };
    let near = 1e-4 * (1.0 + s.delta.abs());
    if s.path.segs.iter().any(|k| k.arc.as_ref().is_some_and(|a| (a.r - s.delta.abs()).abs() < near)) {
        ctx.class("arc-radius-equal-to-distance(skipped)");
        ctx.discard();
        return Ok(());
    }
    let d = t.logf(1e-11, 1e-6);
    let off: Vec<V> = s.vs.iter().map(|q| v(q.x + d * t.f(-1.0, 1.0), q.y + d * t.f(-1.0, 1.0), q.b)).collect();
    let reach = s.vs.iter().fold(0.0, |m: f64, q| m.max(q.x.abs()).max(q.y.abs()));
    let k = unit_scale(t, reach, s.size);
    ctx.note(|| format!("positions off by up to {d:e}: {}; everything times {k}", show(&off, true)));
    let pl = mk(&scaled(&off, k), true);
    let ik = t.idx(3);
    let r = (|| {
        let res = no_panic("offset", || {
            let idx = match ik {
                0 => None,
                1 => Some(pl.create_aabb_index()),
                _ => Some(pl.create_approx_aabb_index()),
            };
            let o = PlineOffsetOptions {
                aabb_index: idx.as_ref(),
                handle_self_intersects: false,
                pos_equal_eps: 1e-5 * k,
                slice_join_eps: 1e-4 * k,
                offset_dist_eps: 1e-4 * k,
            };
            pl.parallel_offset_opt(s.delta * k, &o)
        })?;
        let back: Vec<Polyline<f64>> = res.iter().map(|p| mk(&scaled(&un(p), 1.0 / k), p.is_closed())).collect();
        o01_result(t, ctx, &s, &back)
    })();
    ctx.class(if k > 16.0 { "unit: large" } else if k < 0.06 { "unit: small" } else { "unit: about one" });
    ctx.nontrivial &= k != 1.0;
    if r.as_ref().is_err_and(|m| m.contains("right: IsValid") || m.starts_with("result ends apart")) {
        ctx.class("left over from a collapse(excused)");
        return Ok(());
    }
    judged(r, &s.path, s.delta, false, t, ctx)
}

/// Any source: simple closed, self-crossing closed, or open.
fn gen_any(t: &mut Tape, ctx: &mut Ctx) -> Option<(Src, bool, bool)> {
    let kind = t.weighted(&[3, 3, 3, 2]);
    let (vs, closed, selfx, simple) = match kind {
        0 => {
            let x = t.chance(1, 3);
            (gen::simple_closed(t, 0.2, 40.0), true, x, true)
        }
        1 => {
            // open piece of a simple outline: travels without crossing itself
            let mut vs = gen::simple_closed(t, 0.2, 40.0);
            if vs.len() > 2 {
                let drop = t.idx(vs.len() - 2);
                vs.truncate(vs.len() - drop);
            }
            (vs, false, t.chance(1, 3), false)
        }
        2 => (gen::wild(t, 2, 8, false), false, true, false),
        _ => (gen::wild(t, 2, 8, true), true, true, false),
    };
    let path = Path::new(&vs, closed);
    let size = extent(&path);
    let delta = gen_delta(t, size);
    ctx.note(|| format!("S={} offset={delta:?} self-crossing handling={selfx}", show(&vs, closed)));
    if too_fine(&path) || size < 0.1 {
        ctx.class("finer-than-domain(skipped)");
        ctx.discard();
        return None;
    }
    ctx.class(match kind {
        0 => "closed-simple",
        1 => "open-simple",
        2 => "open-any",
        _ => "closed-any",
    });
    let pl = mk(&vs, closed);
    let ccw = path.area() > 0.0;
    Some((Src { vs, path, size, ccw, delta, pl }, selfx, simple))
}

/// Whether a point lies on the left (+1) or right (-1) of the nearest part of the path; None when
/// two parts compete or the nearest part is a segment end.
fn side_of(path: &Path, q: Pt) -> Option<f64> {
    let d = path.dist(q);
    let mut side: Option<f64> = None;
    for s in &path.segs {
        if s.dist(q) > d + 1e-2 * d.max(0.1) {
            continue;
        }
        let f = s.closest_t(q);
        if f < 0.02 || f > 0.98 || side.is_some() {
            return None;
        }
        side = Some(s.tan(f).cross(q - s.at(f)).signum());
    }
    side
}

fn o02_inner(t: &mut Tape, ctx: &mut Ctx, s: &Src, selfx: bool, simple: bool) -> Result<(), String> {
    let res = no_panic("offset", || run_offset(t, &s.pl, s.delta, selfx))?;
    let tol = 5e-4 + 1e-8 * s.size;
    if !res.is_empty() {
        ctx.nontrivial = true;
    } else {
        ctx.class("nothing-returned");
    }
    if res.len() > 1 {
        ctx.class("several-results");
    }
    for r in &res {
        let vs = un(r);
        if vs.len() < 2 || !finite(&vs) {
            return Err(format!("not a finite polyline of two or more vertexes: {}", show(&vs, r.is_closed())));
        }
        if let Some(i) = repeat_at(&vs, r.is_closed(), 0.99e-5) {
            return Err(format!("position repeated at vertex {i}: {}", show(&vs, r.is_closed())));
        }
        if simple && !r.is_closed() {
            return Err(format!("open result for a simple closed source: {}", show(&vs, false)));
        }
        if !s.path.closed && r.is_closed() {
            ctx.class("open-source-joins-up");
        }
        for g in &path_of(r).segs {
            for f in [0.0, 0.13, 0.5, 0.81] {
                let q = g.at(f);
                let d = s.path.dist(q);
                if (d - s.delta.abs()).abs() > tol {
                    return Err(format!("result point ({:?},{:?}) is {d:?} from the source", q.x, q.y));
                }
                if let Some(sd) = side_of(&s.path, q) {
                    if sd * s.delta < 0.0 {
                        return Err(format!("result point ({:?},{:?}) is on the wrong side", q.x, q.y));
                    }
                }
            }
        }
    }
    Ok(())
}

pub fn o02(t: &mut Tape, ctx: &mut Ctx) -> Result<(), String> {
    let Some((s, selfx, simple)) = gen_any(t, ctx) else { return Ok(()) };
    let r = o02_inner(t, ctx, &s, selfx, simple);
    judged(r, &s.path, s.delta, selfx || !simple, t, ctx)
}

// ---------------------------------------------------------------- O03

/// Whether a piece of the requested side and one of the opposite side run along each other: walls
/// twice the distance apart, or a source that retraces itself or visits a vertex twice.
fn sides_coincide(path: &Path, delta: f64) -> bool {
    // corner arcs of both sides around a vertex that is visited twice
    let n = path.segs.len();
    for i in 0..n {
        for j in 0..i {
            if path.segs[i].a.dist(path.segs[j].a) < 1e-4 || (!path.closed && path.segs[n - 1].b.dist(path.segs[j].a) < 1e-4) {
                return true;
            }
        }
    }
    let (raw, _) = raw_pieces(path, delta);
    let (dual, _) = raw_pieces(path, -delta);
    raw.iter().any(|s| {
        dual.iter().any(|o| {
            if farther_than(s, o, 1e-4) || !same_support(s, o, 1e-4) {
                return false;
            }
            let mut f = vec![0.0, 1.0, s.closest_t(o.a), s.closest_t(o.b)];
            f.retain(|f| o.dist(s.at(*f)) < 1e-4);
            f.sort_by(f64::total_cmp);
            f.windows(2).any(|w| (w[1] - w[0]) * s.len() > 1e-3 && o.dist(s.at((w[0] + w[1]) / 2.0)) < 1e-4)
        })
    })
}
/// As `judged`, for whole curves: names the listed finding first.
fn judged_whole(r: Result<(), String>, path: &Path, delta: f64, two_sided: bool, t: &mut Tape, ctx: &mut Ctx) -> Result<(), String> {
    if two_sided && r.is_err() && sides_coincide(path, delta) {
        ctx.site = Some("sides-coincide");
        return r;
    }
    judged(r, path, delta, two_sided, t, ctx)
}
/// Whether the path turns back on itself somewhere (which side of the tip is outside is then a
/// matter of rounding).
fn has_cusp(path: &Path) -> bool {
    let n = path.segs.len();
    (0..n).any(|i| {
        if i + 1 == n && !path.closed {
            return false;
        }
        let (a, b) = (path.segs[i].tan(1.0), path.segs[(i + 1) % n].tan(0.0));
        a.cross(b).abs() < 1e-3 && a.dot(b) < 0.0
    })
}

/// Distance from q to the segments of the path other than those marked.
fn dist_others(path: &Path, q: Pt, skip: &[usize]) -> f64 {
    path.segs.iter().enumerate().filter(|(i, _)| !skip.contains(i)).map(|(_, s)| s.dist(q)).fold(f64::INFINITY, f64::min)
}

/// Points of the true offset curve: displaced points of segments and points of corner arcs, clear
/// of everything else.
fn curve_points(t: &mut Tape, path: &Path, delta: f64, n: usize, m: f64) -> Vec<(Pt, bool)> {
    let r = delta.abs();
    let ns = path.segs.len();
    let mut out = Vec::new();
    for _ in 0..n {
        let i = t.idx(ns);
        let s = &path.segs[i];
        if t.chance(3, 4) {
            let f = if t.chance(1, 3) { *t.pick(&[0.5, 0.1, 0.9]) } else { t.unit() };
            let q = s.at(f) + s.tan(f).left() * delta;
            // the segment itself comes nearer when it curves around the point
            if s.dist(q) < r - 1e-9 * (1.0 + r) || s.arc.as_ref().is_some_and(|k| (q - k.c).len() < m) {
                continue;
            }
            if dist_others(path, q, &[i]) < r + m {
                continue;
            }
            out.push((q, false));
        } else {
            if !path.closed && i + 1 == ns {
                continue;
            }
            let j = (i + 1) % ns;
            let w = &path.segs[j];
            let (t1, t2) = (s.tan(1.0), w.tan(0.0));
            let ang = t1.cross(t2).atan2(t1.dot(t2));
            if ang * delta >= 0.0 || ang.abs() < 0.02 || ang.abs() > std::f64::consts::PI - 0.02 {
                continue;
            }
            let f = 0.02 + 0.96 * t.unit();
            let n = t1.left() * delta;
            let (si, co) = (ang * f).sin_cos();
            let q = s.b + pt(n.x * co - n.y * si, n.x * si + n.y * co);
            if s.dist(q) < r - 1e-9 * (1.0 + r) || w.dist(q) < r - 1e-9 * (1.0 + r) {
                continue;
            }
            if ns > 2 && dist_others(path, q, &[i, j]) < r + m {
                continue;
            }
            out.push((q, true));
        }
    }
    out
}

pub fn o03(t: &mut Tape, ctx: &mut Ctx) -> Result<(), String> {
    let Some((s, selfx, simple)) = gen_any(t, ctx) else { return Ok(()) };
    let r = o03_inner(t, ctx, &s, selfx);
    let two = selfx || !simple;
    let r = judged_whole(r, &s.path, s.delta, two, t, ctx);
    if r.is_err() && ctx.site.is_none() && two && has_cusp(&s.path) {
        ctx.class("near-degenerate(excused)");
        return Ok(());
    }
    r
}

fn o03_inner(t: &mut Tape, ctx: &mut Ctx, s: &Src, selfx: bool) -> Result<(), String> {
    let res = no_panic("offset", || run_offset(t, &s.pl, s.delta, selfx))?;
    let paths: Vec<Path> = res.iter().map(path_of).collect();
    let tol = 5e-4 + 1e-8 * s.size;
    let m = off_margin(s.delta, s.size);
    let pts = curve_points(t, &s.path, s.delta, 24, m);
    ctx.nontrivial = !pts.is_empty();
    for (q, corner) in pts {
        if corner {
            ctx.class("corner-points");
        }
        let d = paths.iter().map(|p| p.dist(q)).fold(f64::INFINITY, f64::min);
        if d > tol {
            return Err(format!(
                "({:?},{:?}) is a point of the offset curve{} but {d:?} from the nearest result ({} results)",
                q.x, q.y, if corner { " (rounded corner)" } else { "" }, paths.len()
            ));
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- O04

pub fn o04(t: &mut Tape, ctx: &mut Ctx) -> Result<(), String> {
    let Some((s, selfx, simple)) = gen_any(t, ctx) else { return Ok(()) };
    let closed = s.path.closed;
    let kind = t.weighted(&[3, 3, 3, 3, 2, if simple { 3 } else { 0 }]);
    let mut delta2 = s.delta;
    let mut undo: Option<Sim> = None;
    let (vs2, what): (Vec<V>, &'static str) = match kind {
        0 if closed => {
            let k = t.idx(s.vs.len());
            (rotated(&s.vs, k), "other start vertex")
        }
        0 | 1 => {
            delta2 = -s.delta;
            (reversed(&s.vs, closed), "reversed")
        }
        2 => (gen::subdivide(t, &s.vs, closed), "extra vertexes"),
        3 => {
            let k = Sim {
                s: *t.pick(&[1.0, 2.0, 0.5]),
                rot: t.f(0.0, std::f64::consts::TAU),
                mirror: t.chance(1, 2),
                t: pt(t.f(-20.0, 20.0), t.f(-20.0, 20.0)),
            };
            undo = Some(k);
            delta2 *= k.s * if k.mirror { -1.0 } else { 1.0 };
            (k.vs(&s.vs), "moved, rotated, mirrored or scaled")
        }
        4 => (s.vs.clone(), "supplied index"),
        _ => (s.vs.clone(), "self-intersect handling"),
    };
    ctx.class(what);
    let path2 = Path::new(&vs2, closed);
    let pl2 = mk(&vs2, closed);
    let one = |pl: &Polyline<f64>, d: f64, selfx: bool, index: bool, scale: f64| {
        let idx = index.then(|| pl.create_approx_aabb_index());
        // (the tolerances are lengths: they scale with everything else)
        let o = PlineOffsetOptions {
            aabb_index: idx.as_ref(),
            handle_self_intersects: selfx,
            // (not below 1e-5, which debug builds assert)
            pos_equal_eps: 1e-5 * scale.max(1.0),
            slice_join_eps: 1e-4 * scale,
            offset_dist_eps: 1e-4 * scale,
        };
        no_panic("offset", || pl.parallel_offset_opt(d, &o))
    };
    let sx1 = if kind == 5 { false } else { selfx };
    let sx2 = if kind == 5 { true } else { selfx };
    let r = (|| {
        let a = one(&s.pl, s.delta, sx1, false, 1.0)?;
        let b = one(&pl2, delta2, sx2, kind == 4, undo.map_or(1.0, |k| k.s))?;
        let k = undo.unwrap_or(Sim::id());
        let a: Vec<Path> = a.iter().map(|r| Path::new(&k.vs(&un(r)), r.is_closed())).collect();
        let b: Vec<Path> = b.iter().map(path_of).collect();
        ctx.nontrivial = !a.is_empty() || !b.is_empty();
        // (where the curves of a self-crossing source meet, there are several ways to join them up)
        same_curves(&a, &b, 5e-4 * k.s.max(1.0) + 1e-7 * s.size, simple)?;
        // direction of travel goes with the direction of the source
        let flip = (delta2 < 0.0) != (s.delta < 0.0) && undo.is_none();
        let area = |l: &[Path]| l.iter().filter(|p| p.closed).map(|p| p.area()).sum::<f64>();
        let (x, y) = (area(&a), area(&b));
        let y = if flip { -y } else { y };
        let per = a.iter().map(|p| p.len()).sum::<f64>();
        if simple && (x - y).abs() > 1e-3 * (1.0 + per) {
            return Err(format!("enclosed area {x} becomes {y}"));
        }
        Ok(())
    })();
    let r = r.map_err(|e| format!("{what}: {e} ({}, offset {delta2:?})", show(&vs2, closed)));
    let two = selfx || !simple || kind == 5;
    let r = judged_whole(r, &s.path, s.delta, two, t, ctx);
    if r.is_err() && ctx.site.is_none() && (two && has_cusp(&s.path) || offset_flaw(&path2, delta2, cond_margin(extent(&path2)), two, if r.as_ref().is_err_and(|m| m.contains("panic")) { 1e-8 } else { 4e-6 }).is_some()) {
        ctx.class("near-degenerate(excused)");
        return Ok(());
    }
    r
}

/// Both sets of polylines cover the same points, once.
fn same_curves(a: &[Path], b: &[Path], tol: f64, one_way: bool) -> Result<(), String> {
    if one_way && a.len() != b.len() {
        return Err(format!("{} results become {}", a.len(), b.len()));
    }
    for (x, y, k) in [(a, b, 0), (b, a, 1)] {
        for p in x {
            // (a touch can leave a piece as short as the distance tolerance allows)
            if !one_way && p.len() < 2e-3 {
                continue;
            }
            for s in &p.segs {
                for f in [0.05, 0.31, 0.5, 0.77] {
                    let q = s.at(f);
                    if !y.iter().any(|o| o.dist(q) <= tol) {
                        return Err(format!("({:?},{:?}) is only on the {} results", q.x, q.y, ["first", "second"][k]));
                    }
                }
            }
        }
    }
    let (la, lb) = (a.iter().map(|p| p.len()).sum::<f64>(), b.iter().map(|p| p.len()).sum::<f64>());
    if (la - lb).abs() > 20.0 * tol * (1.0 + a.len() as f64) {
        return Err(format!("total length {la} becomes {lb}"));
    }
    Ok(())
}
