//! B01..B05: boolean operations.
use crate::geo::*;
use crate::pairs::*;
use crate::run::*;
use crate::tape::Tape;
use crate::util::*;
use cavalier_contours::polyline::*;

pub const OPS: [(BooleanOp, &str); 4] =
    [(BooleanOp::Or, "or"), (BooleanOp::And, "and"), (BooleanOp::Not, "not"), (BooleanOp::Xor, "xor")];

pub fn op_truth(op: usize, a: bool, b: bool) -> bool {
    match op {
        0 => a || b,
        1 => a && b,
        2 => a && !b,
        _ => a != b,
    }
}

/// Sample points: random ones in the box, plus points just off segment middles and vertexes.
pub fn sample_points(t: &mut Tape, paths: &[&Path], size: f64, n_rand: usize, n_near: usize) -> Vec<Pt> {
    let mut bb = paths[0].bbox();
    for p in &paths[1..] {
        bb = join(bb, p.bbox());
    }
    let bb = grow(bb, 0.05 * size);
    let mut r = Vec::new();
    for _ in 0..n_rand {
        r.push(pt(t.f(bb[0], bb[2]), t.f(bb[1], bb[3])));
    }
    let all: Vec<&Seg> = paths.iter().flat_map(|p| p.segs.iter()).collect();
    if all.is_empty() {
        return r;
    }
    for _ in 0..n_near {
        let s = all[t.idx(all.len())];
        let f = match t.below(3) {
            0 => 0.5,
            1 => 0.0,
            _ => t.unit(),
        };
        let g = t.f(0.0, std::f64::consts::TAU);
        let d = size * t.logf(1e-3, 0.08);
        r.push(s.at(f) + pt(g.cos(), g.sin()) * d);
    }
    r
}

pub struct Regions {
    pub pos: Vec<Path>,
    pub neg: Vec<Path>,
}

pub fn regions(r: &BooleanResult<Polyline<f64>>) -> Regions {
    Regions {
        pos: r.pos_plines.iter().map(|p| path_of(&p.pline)).collect(),
        neg: r.neg_plines.iter().map(|p| path_of(&p.pline)).collect(),
    }
}

impl Regions {
    /// +1 per positive outline around p, -1 per negative; None when numerically unclear.
    pub fn count(&self, p: Pt) -> Option<i32> {
        let mut c = 0;
        for q in &self.pos {
            c += (q.winding(p)? != 0) as i32;
        }
        for q in &self.neg {
            c -= (q.winding(p)? != 0) as i32;
        }
        Some(c)
    }
    pub fn net_area(&self) -> f64 {
        self.pos.iter().map(|p| p.area().abs()).sum::<f64>() - self.neg.iter().map(|p| p.area().abs()).sum::<f64>()
    }
    pub fn show(&self) -> String {
        format!("{} pos, {} neg", self.pos.len(), self.neg.len())
    }
}

/// Margin within which the position of a point relative to an outline is left undecided.
pub fn margin(size: f64) -> f64 {
    (2e-4f64).max(1e-4 * size)
}

/// Contacts are exact or at least this clear.
pub fn gap(size: f64) -> f64 {
    (1e-3 * size).max(3e-4)
}

/// Features so small that the library's absolute tolerances matter.
pub fn too_fine(p: &Path) -> bool {
    p.segs.iter().any(|s| s.len() < 0.002 || s.arc.as_ref().is_some_and(|k| k.r < 0.005 || k.r > 1e5))
}

fn gen_pair(t: &mut Tape, ctx: &mut Ctx) -> Option<(Pair, Path, Path)> {
    let p = bool_pair(t);
    let (pa, pb) = (Path::new(&p.a, true), Path::new(&p.b, true));
    ctx.note(|| format!("A={} B={} ({})", show(&p.a, true), show(&p.b, true), p.class));
    if too_fine(&pa) || too_fine(&pb) {
        ctx.class("finer-than-domain(skipped)");
        ctx.discard();
        return None;
    }
    if !well_conditioned(&pa, &pb, gap(p.size)) {
        ctx.class("ill-conditioned(skipped)");
        ctx.discard();
        return None;
    }
    ctx.class(p.class);
    Some((p, pa, pb))
}

pub fn b01(t: &mut Tape, ctx: &mut Ctx) -> Result<(), String> {
    let Some((p, pa, pb)) = gen_pair(t, ctx) else { return Ok(()) };
    let (a, b) = (mk(&p.a, true), mk(&p.b, true));
    let (eps, ik) = options_pair(t, p.size);
    let pts = sample_points(t, &[&pa, &pb], p.size, 12, 20);
    let m = margin(p.size);
    let pts: Vec<(Pt, bool, bool)> = pts
        .into_iter()
        .filter(|q| pa.dist(*q) > m && pb.dist(*q) > m)
        .filter_map(|q| Some((q, pa.winding(q)? != 0, pb.winding(q)? != 0)))
        .collect();
    for (oi, (op, name)) in OPS.iter().enumerate() {
        let res = run_op(&a, &b, *op, eps, ik);
        if matches!(res.result_info, BooleanResultInfo::Intersected) {
            ctx.nontrivial = true;
            ctx.class("crossing-or-touching");
        }
        let reg = regions(&res);
        for (q, ia, ib) in &pts {
            let want = op_truth(oi, *ia, *ib) as i32;
            if let Some(got) = reg.count(*q) {
                if got != want {
                    return Err(format!(
                        "{name}: point ({:?},{:?}) in A={ia} in B={ib}: region count {got}, expected {want}; result {} ({:?})",
                        q.x, q.y, reg.show(), res.result_info
                    ));
                }
            }
        }
    }
    Ok(())
}

/// Contacts that positions off by rounding leave where they are: no tangencies (which open by the
/// root of the rounding), no crossings at small angles (which move by multiples of it), no shared stretches of nearly flat arcs (whose centers move by multiples).
fn steady(pa: &Path, pb: &Path, g: f64) -> bool {
    pa.segs.iter().all(|s| {
        pb.segs.iter().all(|t| {
            if farther_than(s, t, g) {
                return true;
            }
            let flat = |s: &Seg| s.arc.is_some() && s.bulge.abs() < 0.15;
            if same_support(s, t, 1e-9) {
                return !flat(s) && !flat(t);
            }
            meet(s, t, g).is_some_and(|m| {
                m.contacts.iter().all(|c| s.tan(s.closest_t(c.0)).cross(t.tan(t.closest_t(c.0))).abs() > 0.25)
            })
        })
    })
}

pub fn b06(t: &mut Tape, ctx: &mut Ctx) -> Result<(), String> {
    let Some((p, pa, pb)) = gen_pair(t, ctx) else { return Ok(()) };
    if !steady(&pa, &pb, gap(p.size)) {
        ctx.class("tangent-shallow-or-flat(skipped)");
        ctx.discard();
        return Ok(());
    }
    let eps = *t.pick(&[1e-5, 1e-5, 1e-6]);
    let d = eps * t.logf(1e-4, 0.1);
    let shift = t.chance(1, 4).then(|| pt(t.f(-1.0, 1.0), t.f(-1.0, 1.0)));
    let mut off = |vs: &[V]| -> Vec<V> {
        vs.iter()
            .map(|q| {
                let o = shift.unwrap_or_else(|| pt(t.f(-1.0, 1.0), t.f(-1.0, 1.0)));
                v(q.x + d * o.x, q.y + d * o.y, q.b)
            })
            .collect()
    };
    let jb = off(&p.b);
    ctx.note(|| format!("B off by up to {d:e}: {}, tolerance {eps:e}", show(&jb, true)));
    let (a, b) = (mk(&p.a, true), mk(&jb, true));
    let pts = sample_points(t, &[&pa, &pb], p.size, 12, 20);
    let ik = t.idx(3);
    let m = margin(p.size);
    let pts: Vec<(Pt, bool, bool)> = pts
        .into_iter()
        .filter(|q| pa.dist(*q) > m && pb.dist(*q) > m)
        .filter_map(|q| Some((q, pa.winding(q)? != 0, pb.winding(q)? != 0)))
        .collect();
    let touching = pa.segs.iter().any(|s| pb.segs.iter().any(|t| !farther_than(s, t, 1e-9)));
    for (oi, (op, name)) in OPS.iter().enumerate() {
        let res = run_op(&a, &b, *op, eps, ik);
        let reg = regions(&res);
        for (q, ia, ib) in &pts {
            let want = op_truth(oi, *ia, *ib) as i32;
            if let Some(got) = reg.count(*q) {
                if got != want {
                    return Err(format!(
                        "{name}: point ({:?},{:?}) in A={ia} in B={ib}: region count {got}, expected {want}; result {} ({:?})",
                        q.x, q.y, reg.show(), res.result_info
                    ));
                }
            }
        }
    }
    ctx.nontrivial = p.aligned && touching;
    Ok(())
}

/// A power of two by which to scale so that coordinates stay between about 0.02 and 1e4.
pub fn unit_scale(t: &mut Tape, reach: f64, size: f64) -> f64 {
    let hi = (1e4 / reach.max(1e-9)).log2().floor().min(12.0);
    let lo = (0.02 / size.max(1e-9)).log2().ceil().max(-8.0);
    if lo >= hi {
        return 1.0;
    }
    2f64.powi(lo as i32 + t.idx((hi - lo) as usize + 1) as i32)
}

pub fn scaled(vs: &[V], k: f64) -> Vec<V> {
    vs.iter().map(|q| v(q.x * k, q.y * k, q.b)).collect()
}

/// The same outlines in another unit of length: positions and tolerance are scaled alike.
pub fn b07(t: &mut Tape, ctx: &mut Ctx) -> Result<(), String> {
    let Some((p, pa, pb)) = gen_pair(t, ctx) else { return Ok(()) };
    if !steady(&pa, &pb, gap(p.size)) {
        ctx.class("tangent-shallow-or-flat(skipped)");
        ctx.discard();
        return Ok(());
    }
    let eps = 1e-5;
    let d = eps * t.logf(1e-4, 0.1);
    let reach = p.a.iter().chain(&p.b).fold(0.0, |m: f64, q| m.max(q.x.abs()).max(q.y.abs()));
    let k = unit_scale(t, reach, p.size);
    let jb: Vec<V> = p.b.iter().map(|q| v(q.x + d * t.f(-1.0, 1.0), q.y + d * t.f(-1.0, 1.0), q.b)).collect();
    ctx.note(|| format!("B off by up to {d:e}: {}; everything times {k}, tolerance {:e}", show(&jb, true), eps * k));
    let (a, b) = (mk(&scaled(&p.a, k), true), mk(&scaled(&jb, k), true));
    let pts = sample_points(t, &[&pa, &pb], p.size, 12, 20);
    let ik = t.idx(3);
    let m = margin(p.size);
    let pts: Vec<(Pt, bool, bool)> = pts
        .into_iter()
        .filter(|q| pa.dist(*q) > m && pb.dist(*q) > m)
        .filter_map(|q| Some((q, pa.winding(q)? != 0, pb.winding(q)? != 0)))
        .collect();
    let touching = pa.segs.iter().any(|s| pb.segs.iter().any(|t| !farther_than(s, t, 1e-9)));
    for (oi, (op, name)) in OPS.iter().enumerate() {
        let res = match no_panic("boolean", || run_op(&a, &b, *op, eps * k, ik)) {
            // (the tolerances of this debug assertion are not those of the options)
            Err(m) if m.contains("right: IsValid") && !(0.05..50.0).contains(&k) => {
                ctx.class("debug assertion in another unit(excused)");
                continue;
            }
            r => r?,
        };
        let reg = regions(&res);
        for (q, ia, ib) in &pts {
            let want = op_truth(oi, *ia, *ib) as i32;
            if let Some(got) = reg.count(*q * k) {
                if got != want {
                    return Err(format!(
                        "{name}: point ({:?},{:?}) times {k} in A={ia} in B={ib}: region count {got}, expected {want}; result {} ({:?})",
                        q.x, q.y, reg.show(), res.result_info
                    ));
                }
            }
        }
    }
    ctx.class(if k > 16.0 { "unit: large" } else if k < 0.06 { "unit: small" } else { "unit: about one" });
    ctx.nontrivial = p.aligned && touching && k != 1.0;
    Ok(())
}

use crate::clip::*;
use crate::gen;
use cavalier_contours::polyline::PlineSource;

fn options_pair(
    t: &mut Tape,
    size: f64,
) -> (f64, usize) {
    // position tolerance and kind of supplied index
    let eps = match t.weighted(&[6, 1, 1]) {
        0 => 1e-5,
        1 => 1e-6,
        _ => {
            if size > 3.0 {
                5e-5
            } else {
                1e-5
            }
        }
    };
    (eps, t.idx(3))
}

fn run_op(a: &Polyline<f64>, b: &Polyline<f64>, op: BooleanOp, eps: f64, index: usize) -> BooleanResult<Polyline<f64>> {
    if index == 0 && eps == 1e-5 {
        return a.boolean(b, op);
    }
    let idx = match index {
        0 => None,
        1 => Some(a.create_approx_aabb_index()),
        _ => Some(a.create_aabb_index()),
    };
    let o = PlineBooleanOptions { pline1_aabb_index: idx.as_ref(), pos_equal_eps: eps };
    a.boolean_opt(b, op, &o)
}

pub fn b02(t: &mut Tape, ctx: &mut Ctx) -> Result<(), String> {
    let Some((p, pa, pb)) = gen_pair(t, ctx) else { return Ok(()) };
    let (eps, ik) = options_pair(t, p.size);
    let (a, b) = (mk(&p.a, true), mk(&p.b, true));
    let Some(d) = decompose(&pa, &pb) else {
        ctx.class("unclear-decomposition");
        ctx.discard();
        return Ok(());
    };
    let perim = pa.len() + pb.len();
    let nseg = (pa.segs.len() + pb.segs.len()) as f64;
    let area_tol = eps.max(1e-5) * perim * 2.0 + 1e-9 * p.size * p.size;
    let len_tol = 1e-4 * nseg + 1e-7 * perim;
    if d.and_area > 10.0 * area_tol && (d.a_area - d.and_area) > 10.0 * area_tol {
        ctx.nontrivial = true;
    }
    for (oi, (op, name)) in OPS.iter().enumerate() {
        let res = run_op(&a, &b, *op, eps, ik);
        let reg = regions(&res);
        let want = d.area(oi);
        let got = reg.net_area();
        if (want - got).abs() > area_tol {
            return Err(format!("{name}: net area {got:?}, expected {want:?} (A {:?} B {:?})", d.a_area, d.b_area));
        }
        let lib: f64 = res.pos_plines.iter().map(|x| x.pline.area().abs()).sum::<f64>()
            - res.neg_plines.iter().map(|x| x.pline.area().abs()).sum::<f64>();
        if (lib - want).abs() > area_tol {
            return Err(format!("{name}: reported areas sum to {lib:?}, expected {want:?}"));
        }
        let wl = d.boundary(oi);
        // a wall shared by two regions that lie on opposite sides of it may be reported as an
        // outline without area; it must then really run along such a wall
        let (mut gl, mut folded) = (0.0, 0.0);
        for q in reg.pos.iter().chain(&reg.neg) {
            let on_both = |s: &Seg| [0.0, 0.31, 0.5].iter().all(|f| pa.dist(s.at(*f)) < 1e-6 && pb.dist(s.at(*f)) < 1e-6);
            if q.area().abs() <= 1e-6 * q.len() && q.segs.iter().all(on_both) {
                folded += q.len();
            } else {
                gl += q.len();
            }
        }
        if folded > 0.0 {
            ctx.class("zero-area-outline");
            if folded > 2.0 * (d.opp + d.same) + len_tol {
                return Err(format!("{name}: outlines without area of total length {folded:?}, shared walls measure {:?}", d.opp + d.same));
            }
        }
        if (wl - gl).abs() > len_tol {
            return Err(format!("{name}: total outline length {gl:?}, expected boundary length {wl:?}"));
        }
        for r in res.pos_plines.iter().chain(&res.neg_plines) {
            let vs = un(&r.pline);
            if !r.pline.is_closed() || vs.len() < 2 || !finite(&vs) {
                return Err(format!("{name}: outline is not a closed finite polyline: {}", show(&vs, r.pline.is_closed())));
            }
            if let Some(i) = repeat_at(&vs, true, eps * 0.5) {
                return Err(format!("{name}: outline repeats a position at vertex {i}: {}", show(&vs, true)));
            }
            let path = path_of(&r.pline);
            for s in &path.segs {
                for f in [0.0, 0.21, 0.5, 0.77] {
                    let q = s.at(f);
                    let dd = pa.dist(q).min(pb.dist(q));
                    if dd > 4.0 * eps.max(1e-5) {
                        return Err(format!("{name}: outline point ({:?},{:?}) is {dd:e} away from both input boundaries", q.x, q.y));
                    }
                }
            }
        }
    }
    Ok(())
}

/// First index whose position equals the next one within eps.
pub fn repeat_at(vs: &[V], closed: bool, eps: f64) -> Option<usize> {
    let n = vs.len();
    for i in 0..n {
        let j = (i + 1) % n;
        if (j == 0 && !closed) || n < 2 {
            continue;
        }
        if vs[i].p().dist(vs[j].p()) < eps {
            return Some(i);
        }
    }
    None
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Rel {
    Apart,
    AInB,
    BInA,
    Cross,
    Same,
}

fn info_rel(i: &BooleanResultInfo) -> Option<Rel> {
    match i {
        BooleanResultInfo::InvalidInput => None,
        BooleanResultInfo::Pline1InsidePline2 => Some(Rel::AInB),
        BooleanResultInfo::Pline2InsidePline1 => Some(Rel::BInA),
        BooleanResultInfo::Disjoint => Some(Rel::Apart),
        BooleanResultInfo::Overlapping => Some(Rel::Same),
        BooleanResultInfo::Intersected => Some(Rel::Cross),
    }
}

pub fn b03(t: &mut Tape, ctx: &mut Ctx) -> Result<(), String> {
    if t.chance(1, 12) {
        // invalid operands
        ctx.class("invalid");
        let a = gen::simple_closed(t, 1.0, 20.0);
        let (bad, closed) = match t.below(4) {
            0 => (gen::simple_closed(t, 1.0, 20.0), false),
            1 => (vec![], t.chance(1, 2)),
            2 => (vec![v(1.0, 2.0, 0.5)], t.chance(1, 2)),
            _ => (gen::wild(t, 2, 6, false), false),
        };
        ctx.nontrivial = true;
        ctx.note(|| format!("A={} B={}", show(&a, true), show(&bad, closed)));
        let (pa, pb) = (mk(&a, true), mk(&bad, closed));
        for (op, name) in OPS {
            for (x, y) in [(&pa, &pb), (&pb, &pa), (&pb, &pb)] {
                let r = x.boolean(y, op);
                if !matches!(r.result_info, BooleanResultInfo::InvalidInput) || !r.pos_plines.is_empty() || !r.neg_plines.is_empty() {
                    return Err(format!("{name}: invalid operand gives {:?} with {} outlines", r.result_info, r.pos_plines.len() + r.neg_plines.len()));
                }
            }
        }
        return Ok(());
    }
    let Some((p, pa, pb)) = gen_pair(t, ctx) else { return Ok(()) };
    let (a, b) = (mk(&p.a, true), mk(&p.b, true));
    // true relation
    let g = gap(p.size);
    let mut contact = false;
    let mut cross = false;
    for s in &pa.segs {
        for q in &pb.segs {
            if !farther_than(s, q, g) {
                contact = true;
                for c in crossings(s, q, 0.0) {
                    let e = c.p.dist(s.a).min(c.p.dist(s.b)).min(c.p.dist(q.a)).min(c.p.dist(q.b));
                    if c.sin > 0.03 && e > g {
                        cross = true;
                    }
                }
            }
        }
    }
    let rel = if p.class == "identical" {
        Rel::Same
    } else if cross {
        Rel::Cross
    } else if !contact {
        match (pb.winding(pa.segs[0].a), pa.winding(pb.segs[0].a)) {
            (Some(x), Some(y)) => {
                if x != 0 {
                    Rel::AInB
                } else if y != 0 {
                    Rel::BInA
                } else {
                    Rel::Apart
                }
            }
            _ => return Ok(()),
        }
    } else {
        ctx.class("touch-only");
        return Ok(());
    };
    ctx.nontrivial = rel != Rel::Apart;
    ctx.class(match rel {
        Rel::Apart => "rel-apart",
        Rel::AInB => "rel-first-inside",
        Rel::BInA => "rel-second-inside",
        Rel::Cross => "rel-crossing",
        Rel::Same => "rel-identical",
    });
    let (eps, ik) = options_pair(t, p.size);
    for (oi, (op, name)) in OPS.iter().enumerate() {
        let r = run_op(&a, &b, *op, eps, ik);
        if info_rel(&r.result_info) != Some(rel) {
            return Err(format!("{name}: relationship reported as {:?}, is {:?}", r.result_info, rel));
        }
        // 1 = A, 2 = B
        let (pos, neg): (&[i32], &[i32]) = match (rel, oi) {
            (Rel::Apart, 0) | (Rel::Apart, 3) => (&[1, 2], &[]),
            (Rel::Apart, 1) => (&[], &[]),
            (Rel::Apart, _) => (&[1], &[]),
            (Rel::AInB, 0) => (&[2], &[]),
            (Rel::AInB, 1) => (&[1], &[]),
            (Rel::AInB, 2) => (&[], &[]),
            (Rel::AInB, _) => (&[2], &[1]),
            (Rel::BInA, 0) => (&[1], &[]),
            (Rel::BInA, 1) => (&[2], &[]),
            (Rel::BInA, _) => (&[1], &[2]),
            (Rel::Same, 0) | (Rel::Same, 1) => (&[3], &[]),
            (Rel::Same, _) => (&[], &[]),
            (Rel::Cross, _) => continue,
        };
        for (what, got, want) in [("positive", &r.pos_plines, pos), ("negative", &r.neg_plines, neg)] {
            if got.len() != want.len() {
                return Err(format!("{name} ({rel:?}): {} {what} outlines, expected {}", got.len(), want.len()));
            }
            let mut left: Vec<i32> = want.to_vec();
            for o in got {
                let g = un(&o.pline);
                let hit = left.iter().position(|w| {
                    o.pline.is_closed()
                        && match w {
                            1 => g == p.a,
                            2 => g == p.b,
                            _ => g == p.a || g == p.b,
                        }
                });
                match hit {
                    Some(k) => {
                        left.remove(k);
                    }
                    None => return Err(format!("{name} ({rel:?}): {what} outline {} is not the expected input outline", show(&g, o.pline.is_closed()))),
                }
            }
        }
    }
    Ok(())
}

/// Order-free description of a boolean result: (sign, area, length, bbox) per outline.
fn summary(r: &BooleanResult<Polyline<f64>>) -> Vec<(i32, f64, f64, [f64; 4])> {
    let mut v = Vec::new();
    for (sgn, l) in [(1, &r.pos_plines), (-1, &r.neg_plines)] {
        for o in l.iter() {
            let p = path_of(&o.pline);
            v.push((sgn, p.area().abs(), p.len(), p.bbox()));
        }
    }
    v
}

fn same_summary(a: &[(i32, f64, f64, [f64; 4])], b: &[(i32, f64, f64, [f64; 4])], tol: f64, size: f64) -> Result<(), String> {
    // slivers below the tolerance may come and go
    let tiny = |x: &&(i32, f64, f64, [f64; 4])| x.1 > tol * size * 4.0;
    let a: Vec<_> = a.iter().filter(tiny).collect();
    let b: Vec<_> = b.iter().filter(tiny).collect();
    if a.len() != b.len() {
        return Err(format!("{} outlines against {}", a.len(), b.len()));
    }
    let mut used = vec![false; b.len()];
    for x in &a {
        let k = (0..b.len()).find(|&k| {
            let y = b[k];
            !used[k]
                && x.0 == y.0
                && (x.1 - y.1).abs() <= tol * (x.2 + size)
                && (x.2 - y.2).abs() <= 20.0 * tol
                && (0..4).all(|i| (x.3[i] - y.3[i]).abs() <= 10.0 * tol)
        });
        match k {
            Some(k) => used[k] = true,
            None => return Err(format!("outline with sign {} area {:?} length {:?} has no counterpart", x.0, x.1, x.2)),
        }
    }
    Ok(())
}

pub fn b04(t: &mut Tape, ctx: &mut Ctx) -> Result<(), String> {
    let Some((p, _pa, _pb)) = gen_pair(t, ctx) else { return Ok(()) };
    let (a, b) = (mk(&p.a, true), mk(&p.b, true));
    let kind = t.below(7);
    let (va, vb, undo, swap, what): (Vec<V>, Vec<V>, Option<Sim>, bool, &'static str) = match kind {
        0 => (reversed(&p.a, true), p.b.clone(), None, false, "first reversed"),
        1 => (p.a.clone(), reversed(&p.b, true), None, false, "second reversed"),
        2 => {
            let (i, j) = (t.idx(p.a.len()), t.idx(p.b.len()));
            (rotated(&p.a, i), rotated(&p.b, j), None, false, "other start vertexes")
        }
        3 => (gen::subdivide(t, &p.a, true), gen::subdivide(t, &p.b, true), None, false, "extra vertexes"),
        4 => (p.b.clone(), p.a.clone(), None, true, "operands swapped"),
        5 => {
            let s = Sim {
                s: *t.pick(&[1.0, 2.0, 0.5]),
                rot: t.f(0.0, std::f64::consts::TAU),
                mirror: t.chance(1, 2),
                t: pt(t.f(-20.0, 20.0), t.f(-20.0, 20.0)),
            };
            (s.vs(&p.a), s.vs(&p.b), Some(s), false, "moved, rotated, mirrored or scaled")
        }
        _ => (p.a.clone(), p.b.clone(), None, false, "supplied index"),
    };
    ctx.class(what);
    // subdividing may put a vertex in an unclear place
    let (qa, qb) = (Path::new(&va, true), Path::new(&vb, true));
    let scale = undo.map_or(1.0, |s| s.s);
    if !well_conditioned(&qa, &qb, gap(p.size * scale)) {
        ctx.discard();
        return Ok(());
    }
    let (a2, b2) = (mk(&va, true), mk(&vb, true));
    for (oi, (op, name)) in OPS.iter().enumerate() {
        if swap && oi == 2 {
            continue;
        }
        let r1 = a.boolean(&b, *op);
        let r2 = if kind == 6 { run_op(&a2, &b2, *op, 1e-5, 1 + t.idx(2)) } else { a2.boolean(&b2, *op) };
        let s1 = {
            // transform the first result the same way
            match undo {
                None => summary(&r1),
                Some(s) => {
                    let mut v = Vec::new();
                    for (sgn, l) in [(1, &r1.pos_plines), (-1, &r1.neg_plines)] {
                        for o in l.iter() {
                            let q = Path::new(&s.vs(&un(&o.pline)), true);
                            v.push((sgn, q.area().abs(), q.len(), q.bbox()));
                        }
                    }
                    v
                }
            }
        };
        let s2 = summary(&r2);
        if matches!(r1.result_info, BooleanResultInfo::Intersected) && !s1.is_empty() {
            ctx.nontrivial = true;
        }
        // several outlines may legitimately be joined or split at a mere touching point, so when
        // outlines do not match one to one compare the regions
        if same_summary(&s1, &s2, 2e-5, p.size * scale).is_err() {
            let sum = |s: &Vec<(i32, f64, f64, [f64; 4])>| {
                (s.iter().map(|x| x.0 as f64 * x.1).sum::<f64>(), s.iter().map(|x| x.2).sum::<f64>())
            };
            let ((a1, l1), (a2, l2)) = (sum(&s1), sum(&s2));
            if !p.aligned || (a1 - a2).abs() > 1e-4 * (l1 + p.size * scale) || (l1 - l2).abs() > 2e-4 * (qa.segs.len() + qb.segs.len()) as f64 {
                return Err(format!(
                    "{name} ({what}): result differs: {:?} vs {:?}; net area {a1:?} vs {a2:?}, length {l1:?} vs {l2:?}; other writing A={} B={}",
                    same_summary(&s1, &s2, 2e-5, p.size * scale).err(), (r1.pos_plines.len(), r1.neg_plines.len(), r2.pos_plines.len(), r2.neg_plines.len()), show(&va, true), show(&vb, true)
                ));
            }
            ctx.class("matched-by-region-only");
        }
        if std::mem::discriminant(&r1.result_info) != std::mem::discriminant(&r2.result_info) && !swap {
            return Err(format!("{name} ({what}): relationship {:?} vs {:?}", r1.result_info, r2.result_info));
        }
    }
    Ok(())
}

pub fn b05(t: &mut Tape, ctx: &mut Ctx) -> Result<(), String> {
    let Some((p, _pa, _pb)) = gen_pair(t, ctx) else { return Ok(()) };
    let (eps, ik) = options_pair(t, p.size);
    let (a, b) = (mk(&p.a, true), mk(&p.b, true));
    let tol = 5.0 * eps.max(1e-5);
    for (op, name) in OPS {
        let r = run_op(&a, &b, op, eps, ik);
        for o in r.pos_plines.iter().chain(&r.neg_plines) {
            if o.subslices.is_empty() {
                if matches!(r.result_info, BooleanResultInfo::Intersected) {
                    return Err(format!("{name}: stitched outline without slices"));
                }
                continue;
            }
            if !matches!(r.result_info, BooleanResultInfo::Intersected) {
                return Err(format!("{name}: whole outline lists slices"));
            }
            if o.subslices.len() > 1 {
                ctx.nontrivial = true;
            }
            let outline = path_of(&o.pline);
            let mut segs: Vec<Seg> = Vec::new();
            let mut first: Option<Pt> = None;
            let mut last: Option<Pt> = None;
            for s in &o.subslices {
                let src = if s.source_is_pline1 { &a } else { &b };
                let other = if s.source_is_pline1 { Path::new(&p.b, true) } else { Path::new(&p.a, true) };
                let val = s.view_data.validate_for_source(src);
                if !matches!(val, ViewDataValidation::IsValid) {
                    return Err(format!("{name}: slice is not valid for its source: {val:?}"));
                }
                let w = s.view(src);
                let vs = un(&w);
                let path = Path::new(&vs, false);
                if path.segs.is_empty() {
                    return Err(format!("{name}: slice with fewer than two vertexes"));
                }
                // the piece lies on its source
                let sp = path_of(src);
                for g in &path.segs {
                    let m = g.at(0.43);
                    if sp.dist(m) > tol {
                        return Err(format!("{name}: slice point ({:?},{:?}) is off its source", m.x, m.y));
                    }
                    let on_other = other.dist(m) < 1e-7;
                    if s.overlapping && other.dist(m) > tol {
                        return Err(format!("{name}: slice marked overlapping is not on the other outline at ({:?},{:?})", m.x, m.y));
                    }
                    if !s.overlapping && on_other && other.dist(g.at(0.31)) < 1e-7 && g.len() > 1e-3 {
                        return Err(format!("{name}: slice on both outlines is not marked overlapping at ({:?},{:?})", m.x, m.y));
                    }
                }
                let (st, en) = (path.segs[0].a, path.segs[path.segs.len() - 1].b);
                if let Some(l) = last {
                    if l.dist(st) > tol {
                        return Err(format!("{name}: consecutive slices do not join: gap {:e}", l.dist(st)));
                    }
                }
                first = first.or(Some(st));
                last = Some(en);
                segs.extend(path.segs);
            }
            let (f, l) = (first.unwrap(), last.unwrap());
            if f.dist(l) > tol {
                return Err(format!("{name}: slices do not close up: gap {:e}", f.dist(l)));
            }
            let laid = Path { segs, closed: false };
            let (l1, l2) = (laid.len(), outline.len());
            let n = laid.segs.len() as f64;
            if (l1 - l2).abs() > tol * n {
                return Err(format!("{name}: slices have total length {l1:?}, outline {l2:?}"));
            }
            // walk both in step
            for k in 0..8 {
                let q = laid.at_len(l1 * (k as f64 + 0.5) / 8.0).1;
                let w = outline.at_len(l2 * (k as f64 + 0.5) / 8.0).1;
                if q.dist(w) > 2.0 * tol * n {
                    return Err(format!("{name}: slices laid end to end leave the outline: ({:?},{:?}) against ({:?},{:?})", q.x, q.y, w.x, w.y));
                }
            }
        }
    }
    Ok(())
}
