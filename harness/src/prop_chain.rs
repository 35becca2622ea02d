//! H01: histories of offsets and boolean operations, each fed with the results of earlier ones.
use crate::gen;
use crate::geo::*;
use crate::pairs::*;
use crate::prop_boolean::*;
use crate::prop_offset::*;
use crate::run::*;
use crate::tape::Tape;
use crate::util::*;
use cavalier_contours::polyline::*;
use cavalier_contours::shape_algorithms::*;

struct Item {
    pl: Polyline<f64>,
    path: Path,
    /// how many operations it went through
    depth: usize,
    /// the offset it came from last
    last: f64,
}

fn extent(p: &Path) -> f64 {
    let b = p.bbox();
    (b[2] - b[0]).max(b[3] - b[1])
}

fn item(pl: Polyline<f64>, depth: usize, last: f64) -> Item {
    let path = path_of(&pl);
    Item { pl, path, depth, last }
}

/// Results serve as operands when they are clearly simple outlines of the usual fineness.
fn usable(i: &Item) -> bool {
    i.pl.is_closed() && i.path.segs.len() >= 2 && i.path.segs.len() <= 60 && extent(&i.path) > 0.3 && !too_fine(&i.path) && simple_enough(&i.path)
}
fn simple_enough(p: &Path) -> bool {
    clearly_simple(p, 2e-3f64.max(1e-3 * extent(p)), 0.02)
}

pub fn h01(t: &mut Tape, ctx: &mut Ctx) -> Result<(), String> {
    let mut pool: Vec<Item> = Vec::new();
    if t.chance(2, 3) {
        let p = bool_pair(t);
        ctx.note(|| format!("A={} B={} ({})", show(&p.a, true), show(&p.b, true), p.class));
        pool.push(item(mk(&p.a, true), 0, 0.0));
        pool.push(item(mk(&p.b, true), 0, 0.0));
    } else {
        let a = gen::simple_closed(t, 1.0, 40.0);
        ctx.note(|| format!("A={}", show(&a, true)));
        pool.push(item(mk(&a, true), 0, 0.0));
    }
    pool.retain(usable);
    if pool.is_empty() {
        ctx.class("finer-than-domain(skipped)");
        ctx.discard();
        return Ok(());
    }
    let steps = 2 + t.idx(4);
    let mut log = String::new();
    for _ in 0..steps {
        // recent results are preferred
        let n = pool.len();
        let pick = |t: &mut Tape| if t.chance(1, 2) { n - 1 } else { t.idx(n) };
        let new = if n > 1 && t.chance(3, 5) {
            let i = pick(t);
            // seldom with itself
            let j = if t.chance(1, 12) { i } else { (i + 1 + t.idx(n - 1)) % n };
            let op = t.idx(4);
            let what = format!("{}({i},{j})", OPS[op].1);
            ctx.note(|| what.clone());
            log = format!("{log}; {what}");
            step_boolean(t, ctx, &pool[i], &pool[j], op).map_err(|e| format!("after {log}: {e}"))?
        } else {
            let i = pick(t);
            let split = t.chance(1, 3);
            // undoing the offset an outline came from is as common as anything
            let size = extent(&pool[i].path);
            let d = match t.weighted(&[4, 2, if pool[i].last != 0.0 { 3 } else { 0 }]) {
                0 => t.logf(0.02, 0.3) * size,
                2 => pool[i].last.abs(),
                _ => *t.pick(&[0.05, 0.1, 0.125, 0.2, 0.25, 0.5, 1.0, 2.0]),
            }
            .max(0.02);
            let d = match pool[i].last {
                l if d == l.abs() => -l,
                _ if t.chance(1, 2) => d,
                _ => -d,
            };
            let what = format!("offset({i},{d:?}{})", if split { " in two" } else { "" });
            ctx.note(|| what.clone());
            log = format!("{log}; {what}");
            step_offset(t, ctx, &pool[i], d, split).map_err(|e| format!("after {log}: {e}"))?
        };
        for x in new {
            if usable(&x) {
                pool.push(x);
            }
        }
        if pool.len() > 12 {
            let k = pool.len() - 12;
            pool.drain(0..k);
        }
    }
    Ok(())
}

fn step_boolean(t: &mut Tape, ctx: &mut Ctx, a: &Item, b: &Item, op: usize) -> Result<Vec<Item>, String> {
    let size = extent(&a.path).max(extent(&b.path));
    let depth = 1 + a.depth.max(b.depth);
    if !well_conditioned(&a.path, &b.path, gap(size)) {
        ctx.class("boolean: ill-conditioned(skipped)");
        return Ok(vec![]);
    }
    let res = no_panic("boolean", || a.pl.boolean(&b.pl, OPS[op].0))?;
    let reg = regions(&res);
    let m = margin(size);
    let after = a.depth + b.depth > 0;
    if after {
        ctx.class(match res.result_info {
            BooleanResultInfo::Intersected => "boolean of results: crossing or touching",
            BooleanResultInfo::Overlapping => "boolean of results: same outline",
            BooleanResultInfo::InvalidInput => return Err("a result is refused as an operand".into()),
            _ => "boolean of results: nested or apart",
        });
        ctx.nontrivial = true;
    } else {
        ctx.class("boolean of inputs");
    }
    for q in sample_points(t, &[&a.path, &b.path], size, 6, 16) {
        if a.path.dist(q) <= m || b.path.dist(q) <= m {
            continue;
        }
        let (Some(x), Some(y)) = (a.path.winding(q), b.path.winding(q)) else { continue };
        let want = op_truth(op, x != 0, y != 0) as i32;
        let Some(got) = reg.count(q) else { continue };
        if got != want {
            return Err(format!(
                "point ({:?},{:?}) in first={} in second={}: region count {got}, expected {want}; result {} ({:?}); first={} second={}",
                q.x, q.y, x != 0, y != 0, reg.show(), res.result_info, show(&un(&a.pl), true), show(&un(&b.pl), true)
            ));
        }
    }
    if t.chance(1, 3) {
        step_shape(t, ctx, &res)?;
    }
    Ok(res.pos_plines.into_iter().chain(res.neg_plines).map(|p| item(p.pline, depth, 0.0)).collect())
}

/// Offset by d at once, or by part of it and then the rest (of every outline on its own).
fn step_offset(t: &mut Tape, ctx: &mut Ctx, a: &Item, d: f64, split: bool) -> Result<Vec<Item>, String> {
    let size = extent(&a.path);
    let ccw = a.path.area() > 0.0;
    let inward = (d > 0.0) == ccw;
    let cm = cond_margin(size);
    let mut parts = vec![d];
    if split {
        let f = *t.pick(&[0.5, 0.25, 0.75]);
        parts = vec![d * f, d - d * f];
    }
    ctx.class(match (a.depth > 0, split) {
        (true, false) => "offset of a result",
        (true, true) => "offset of a result, in two steps",
        (false, false) => "offset of an input",
        (false, true) => "offset of an input, in two steps",
    });
    ctx.nontrivial |= a.depth > 0 || split;
    // the offsets taken, for judging failures
    let mut taken: Vec<(Path, f64)> = vec![];
    let mut cur: Vec<Polyline<f64>> = vec![a.pl.clone()];
    let mut failed = None;
    for p in &parts {
        let mut next = vec![];
        for x in &cur {
            taken.push((path_of(x), *p));
            match no_panic("offset", || x.parallel_offset(*p)) {
                Ok(r) => next.extend(r),
                Err(e) => failed = Some(e),
            }
        }
        cur = next;
    }
    let r = (|| {
        if let Some(e) = failed {
            return Err(e);
        }
        let paths: Vec<Path> = cur.iter().map(path_of).collect();
        let sign = if ccw { 1 } else { -1 };
        let m = off_margin(d, size) * parts.len() as f64;
        for q in off_samples(t, &a.path, d, 6, 16) {
            let dist = a.path.dist(q);
            if (dist - d.abs()).abs() < m || dist < m {
                continue;
            }
            let Some(w) = a.path.winding(q) else { continue };
            let inside = w != 0;
            let want = if inward { inside && dist > d.abs() } else { inside || dist < d.abs() };
            let Some(got) = winding_sum(&paths, q) else { continue };
            if got != sign * want as i32 {
                return Err(format!(
                    "point ({:?},{:?}) at distance {dist:?} from the outline, inside={inside}: winding of the offset is {got}, expected {}; {} results; outline={}",
                    q.x, q.y, sign * want as i32, paths.len(), show(&un(&a.pl), true)
                ));
            }
        }
        Ok(())
    })();
    if r.is_err() && taken[1..].iter().any(|(p, _)| !simple_enough(p)) {
        // an offset that just collapses may leave an outline without area
        ctx.class("half-way result not clearly simple(excused)");
        return Ok(vec![]);
    }
    if r.is_err() {
        let pair_min = if r.as_ref().is_err_and(|m| m.contains("panic")) { 1e-8 } else { 4e-6 };
        if offset_flaw(&a.path, d, cm, false, pair_min).is_some() || taken.iter().any(|(p, d)| offset_flaw(p, *d, cm, false, pair_min).is_some()) {
            ctx.class("near-degenerate(excused)");
            return Ok(vec![]);
        }
    }
    r?;
    Ok(cur.into_iter().map(|p| item(p, a.depth + parts.len(), if split { 0.0 } else { d })).collect())
}

/// The whole region a boolean operation returned (with its holes), offset as a shape.
fn step_shape(t: &mut Tape, ctx: &mut Ctx, res: &BooleanResult<Polyline<f64>>) -> Result<(), String> {
    let mut paths: Vec<Path> = vec![];
    let mut plines: Vec<Polyline<f64>> = vec![];
    for (p, s) in res.pos_plines.iter().map(|p| (p, 1.0)).chain(res.neg_plines.iter().map(|p| (p, -1.0))) {
        let mut pl = p.pline.clone();
        if path_of(&pl).area() * s < 0.0 {
            pl.invert_direction_mut();
        }
        paths.push(path_of(&pl));
        plines.push(pl);
    }
    if paths.is_empty() {
        return Ok(());
    }
    let size = paths.iter().map(extent).fold(0.0, f64::max);
    let g = 4e-3f64.max(2e-3 * size);
    let n = paths.len();
    if size < 0.3 || !paths.iter().all(|p| !too_fine(p) && simple_enough(p)) || (0..n).any(|i| (0..i).any(|j| paths[i].segs.iter().any(|s| paths[j].segs.iter().any(|u| !farther_than(s, u, g))))) {
        ctx.class("shape of a result: touching or fine(skipped)");
        return Ok(());
    }
    ctx.class(if res.neg_plines.is_empty() { "shape of a result" } else { "shape of a result with holes" });
    ctx.nontrivial = true;
    let d = t.logf(0.02, 0.3) * size;
    let d = if t.chance(1, 2) { d } else { -d };
    let r = (|| {
        let shape = no_panic("shape offset", || Shape::from_plines(plines.iter().cloned()).parallel_offset(d, ShapeOffsetOptions::default()))?;
        let got: Vec<Path> = shape.ccw_plines.iter().chain(&shape.cw_plines).map(|p| path_of(&p.polyline)).collect();
        let dist = |q: Pt| paths.iter().map(|p| p.dist(q)).fold(f64::INFINITY, f64::min);
        let m = off_margin(d, size);
        for i in 0..n {
            for q in off_samples(t, &paths[i], d, 3, 8) {
                let away = dist(q);
                if (away - d.abs()).abs() < m || away < m {
                    continue;
                }
                let Some(w) = winding_sum(&paths, q) else { continue };
                if w != 0 && w != 1 {
                    return Err(format!("winding of a boolean result is {w} at ({:?},{:?})", q.x, q.y));
                }
                let want = if d > 0.0 { w == 1 && away > d } else { w == 1 || away < -d };
                let Some(k) = winding_sum(&got, q) else { continue };
                if k != want as i32 {
                    return Err(format!(
                        "shape of {n} outlines offset by {d:?}: point ({:?},{:?}) at distance {away:?}, inside={}: winding is {k}, expected {}; outlines {}",
                        q.x, q.y, w == 1, want as i32, plines.iter().map(|p| show(&un(p), true)).collect::<Vec<_>>().join(" ")
                    ));
                }
            }
        }
        Ok(())
    })();
    if r.is_err() {
        let pair_min = if r.as_ref().is_err_and(|m| m.contains("panic")) { 1e-8 } else { 4e-6 };
        if offset_flaw_of(&paths, d, cond_margin(size), true, pair_min).is_some() {
            ctx.class("near-degenerate(excused)");
            return Ok(());
        }
    }
    r
}
