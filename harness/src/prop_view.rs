//! V01: views against the same part of the path cut out by independent geometry.
use crate::geo::*;
use crate::prop_edit::same_run;
use crate::prop_geom::{any_pline, seg_tol};
use crate::run::*;
use crate::tape::Tape;
use crate::util::*;
use cavalier_contours::polyline::*;

/// The part of the path from (segment i, fraction f) forward to (segment j, fraction g), as the
/// vertexes of an open polyline. `wrap` goes around once more when both are on one segment.
fn cut(path: &Path, i: usize, f: f64, j: usize, g: f64, wrap: bool) -> Vec<V> {
    let n = path.segs.len();
    let mut out = Vec::new();
    let mut push = |s: &Seg, a: f64, b: f64| {
        if b > a {
            let q = s.sub(a, b);
            out.push(v(q.a.x, q.a.y, q.bulge));
        }
    };
    if i == j && !wrap {
        push(&path.segs[i], f, g);
    } else {
        push(&path.segs[i], f, 1.0);
        let mut k = (i + 1) % n;
        while k != j {
            push(&path.segs[k], 0.0, 1.0);
            k = (k + 1) % n;
        }
        push(&path.segs[j], 0.0, g);
    }
    let e = path.segs[j].at(g);
    out.push(v(e.x, e.y, 0.0));
    out
}

/// Every read operation of the view agrees with the same vertexes in an independent polyline.
fn reads_agree<A: PlineSource<Num = f64, OutputPolyline = Polyline<f64>>>(w: &A, t: &mut Tape, own: &Path) -> Result<(), String> {
    let vs = un(w);
    let c = mk(&vs, false);
    let n = vs.len();
    let tol = 1e-9 + own.segs.iter().map(seg_tol).sum::<f64>() * 8.0;
    if w.is_closed() || w.is_empty() || w.get(n).is_some() || w.get(n + 5).is_some() || w.segment_count() != n - 1 {
        return Err("view is not an open polyline of its vertexes".into());
    }
    let it: Vec<V> = w.iter_vertexes().map(|q| v(q.x, q.y, q.bulge)).collect();
    if it != vs || (0..n).any(|i| w.get(i).map(|q| v(q.x, q.y, q.bulge)) != Some(vs[i])) {
        return Err("iterator and index access disagree".into());
    }
    if w.last().map(|q| v(q.x, q.y, q.bulge)) != vs.last().copied() {
        return Err("last vertex differs".into());
    }
    let segs: Vec<_> = w.iter_segments().map(|(a, b)| (a.x, a.y, a.bulge, b.x, b.y)).collect();
    let cs: Vec<_> = c.iter_segments().map(|(a, b)| (a.x, a.y, a.bulge, b.x, b.y)).collect();
    if segs != cs {
        return Err("segments differ".into());
    }
    if (w.path_length() - own.len()).abs() > tol + 2e-5 || w.path_length() != c.path_length() {
        return Err(format!("length {:?}, expected {:?}", w.path_length(), own.len()));
    }
    let (e, b) = (w.extents(), own.bbox());
    match e {
        Some(e) if (e.min_x - b[0]).abs() < 4e-5 && (e.min_y - b[1]).abs() < 4e-5 && (e.max_x - b[2]).abs() < 4e-5 && (e.max_y - b[3]).abs() < 4e-5 => {}
        e => return Err(format!("extents {e:?}, expected {b:?}")),
    }
    if w.area() != 0.0 || w.orientation() != PlineOrientation::Open {
        return Err("a view has an area".into());
    }
    let q = pt(t.f(b[0] - 1.0, b[2] + 1.0), t.f(b[1] - 1.0, b[3] + 1.0));
    match (w.closest_point(vec2(q), 1e-5), c.closest_point(vec2(q), 1e-5)) {
        (Some(x), Some(y)) if x.distance == y.distance && x.seg_start_index == y.seg_start_index => {}
        (x, y) => return Err(format!("closest point {x:?}, of the copy {y:?}")),
    }
    let l = t.unit() * own.len() * 0.999;
    match w.find_point_at_path_length(l) {
        Ok((_, p)) if p2(p).dist(own.at_len(l).1) < 1e-4 => {}
        r => return Err(format!("point at length {l:?}: {r:?}, expected {:?}", own.at_len(l).1)),
    }
    if t.chance(1, 6) {
        operands_agree(w, &c, t)?;
    }
    // the library's own copy
    let k: Polyline<f64> = PlineCreation::create_from(w);
    if un(&k) != vs || k.is_closed() {
        return Err("copy of the view differs".into());
    }
    Ok(())
}

/// The view as the operand of an operation gives exactly what its copy gives.
fn operands_agree<A: PlineSource<Num = f64, OutputPolyline = Polyline<f64>>>(w: &A, c: &Polyline<f64>, t: &mut Tape) -> Result<(), String> {
    let all = |r: &[Polyline<f64>]| r.iter().map(|p| (un(p), p.is_closed())).collect::<Vec<_>>();
    let d = t.logf(0.05, 5.0) * *t.pick(&[1.0, -1.0]);
    // (whether an operation itself holds on the vertexes is not the matter here)
    if let Ok(want) = no_panic("", || c.parallel_offset(d)) {
        let got = no_panic("parallel_offset of the view", || w.parallel_offset(d))?;
        if all(&got) != all(&want) {
            return Err(format!("offset by {d:?} of the view differs from that of its copy: {got:?}, {want:?}"));
        }
    }
    if let Ok(want) = no_panic("", || c.remove_redundant(1e-5)) {
        let got = no_panic("remove_redundant of the view", || w.remove_redundant(1e-5))?;
        if got.map(|p| un(&p)) != want.map(|p| un(&p)) {
            return Err("remove_redundant of the view differs from that of its copy".into());
        }
    }
    if w.remove_repeat_pos(1e-5).map(|p| un(&p)) != c.remove_repeat_pos(1e-5).map(|p| un(&p)) {
        return Err("remove_repeat_pos of the view differs from that of its copy".into());
    }
    if w.arcs_to_approx_lines(0.1).map(|p| un(&p)) != c.arcs_to_approx_lines(0.1).map(|p| un(&p)) {
        return Err("arcs_to_approx_lines of the view differs from that of its copy".into());
    }
    let other = {
        let e = c.extents().unwrap();
        let (x, y) = ((e.min_x + e.max_x) / 2.0 + t.f(-1.0, 1.0), (e.min_y + e.max_y) / 2.0 + t.f(-1.0, 1.0));
        let r = (e.max_x - e.min_x).max(e.max_y - e.min_y) * t.f(0.1, 0.5);
        mk(&[v(x - r, y, 1.0), v(x + r, y, 1.0)], true)
    };
    let ints = |r: &PlineIntersectsCollection<f64>| {
        let b: Vec<_> = r.basic_intersects.iter().map(|i| (i.start_index1, i.start_index2, i.point.x, i.point.y)).collect();
        let o: Vec<_> = r.overlapping_intersects.iter().map(|i| (i.start_index1, i.start_index2, i.point1.x, i.point1.y, i.point2.x, i.point2.y)).collect();
        (b, o)
    };
    if ints(&w.find_intersects(&other)) != ints(&c.find_intersects(&other)) || ints(&other.find_intersects(w)) != ints(&other.find_intersects(c)) {
        return Err("intersects with the view differ from those with its copy".into());
    }
    // a view is open, no operand of a boolean operation
    let b = no_panic("boolean of the view", || other.boolean(w, BooleanOp::Or))?;
    if !matches!(b.result_info, BooleanResultInfo::InvalidInput) || !b.pos_plines.is_empty() || !b.neg_plines.is_empty() {
        return Err("boolean with an open operand is not rejected".into());
    }
    let (x, y) = (w.create_approx_aabb_index(), c.create_approx_aabb_index());
    let items = |i: &cavalier_contours::static_aabb2d_index::StaticAABB2DIndex<f64>| i.item_boxes().iter().map(|b| (b.min_x, b.min_y, b.max_x, b.max_y)).collect::<Vec<_>>();
    if items(&x) != items(&y) {
        return Err("spatial index of the view differs from that of its copy".into());
    }
    Ok(())
}

pub fn v01(t: &mut Tape, ctx: &mut Ctx) -> Result<(), String> {
    let (vs, closed) = any_pline(t, 2, 9);
    ctx.note(|| show(&vs, closed));
    let pl = mk(&vs, closed);
    let path = Path::new(&vs, closed);
    let n = path.segs.len();
    let eps = 1e-5;
    if n == 0 || path.segs.iter().any(|s| s.len() < 5e-3 || s.arc.as_ref().is_some_and(|k| k.r < 0.05 || k.r > 1e5)) {
        ctx.discard();
        return Ok(());
    }
    // a position on the path: segment, fraction, and the point handed over (maybe just off a
    // vertex), with the segment index that may name a vertex from either side
    let place = |t: &mut Tape| -> (usize, f64, Pt, usize) {
        let i = t.idx(n);
        let s = &path.segs[i];
        match t.weighted(&[4, 2, 2, 1]) {
            0 => {
                let f = t.unit();
                // keep clear of the ends by the tolerance
                let m = 5e-5 / s.len();
                let f = f.clamp(m.min(0.5), 1.0 - m.min(0.5));
                (i, f, s.at(f), i)
            }
            1 => (i, 0.0, s.a, i),
            2 => (i, 1.0, s.b, i),
            _ => {
                let d = 0.5 * eps;
                if t.chance(1, 2) { (i, 0.0, s.a + s.tan(0.0) * d, i) } else { (i, 1.0, s.b - s.tan(1.0) * d, i) }
            }
        }
    };
    let kind = t.weighted(&[6, 1, 2, 2]);
    let (data, want): (PlineViewData<f64>, Vec<V>) = match kind {
        0 => {
            let (mut a, mut b) = (place(t), place(t));
            if !closed && (b.0, b.1) < (a.0, a.1) {
                std::mem::swap(&mut a, &mut b);
            }
            let ((i, f, p, ii), (j, g, q, mut jj)) = (a, b);
            // an open polyline's end may also be named by its last vertex
            if !closed && j + 1 == n && g == 1.0 && t.chance(1, 2) {
                jj = n;
            }
            ctx.note(|| format!("from segment {ii} at {f:?} {p:?} to segment {jj} at {g:?} {q:?}"));
            let ahead = |s: &Seg, x: f64, y: f64| s.len() * (y - x);
            let same_point = p.dist(q) < 3e-5;
            if same_point {
                // positions that coincide by going nowhere
                if ii == jj && f == g {
                    ctx.class("collapsed");
                    return match no_panic("from_slice_points", || PlineViewData::from_slice_points(&pl, vec2(p), ii, vec2(q), jj, eps))? {
                        None => Ok(()),
                        // a closed loop from a vertex named by the end of its segment is a full turn
                        Some(d) if closed && f >= 1.0 && d.end_index_offset + 1 >= n => Ok(()),
                        Some(d) => Err(format!("collapsed slice gives {d:?}")),
                    };
                }
                ctx.discard();
                return Ok(());
            }
            let wrap = i == j && ahead(&path.segs[i], f, g) < 0.0;
            if wrap && !closed {
                ctx.discard();
                return Ok(());
            }
            ctx.class(if wrap { "wraps-to-same-segment" } else if i == j { "one-segment" } else if j < i { "wraps" } else { "forward" });
            let d = no_panic("from_slice_points", || PlineViewData::from_slice_points(&pl, vec2(p), ii, vec2(q), jj, eps))?;
            let w = cut(&path, i, f, j, g, wrap);
            match d {
                Some(d) => (d, w),
                None => return Err("slice is reported as collapsed".into()),
            }
        }
        1 => {
            ctx.class("entire");
            let d = no_panic("from_entire_pline", || PlineViewData::from_entire_pline(&pl))?;
            (d, cut(&path, 0, 0.0, n - 1, 1.0, n == 1 && false))
        }
        2 => {
            let (i, f, p, ii) = place(t);
            ctx.note(|| format!("new start segment {ii} at {f:?} {p:?}"));
            ctx.class("new-start");
            let d = no_panic("from_new_start", || PlineViewData::from_new_start(&pl, vec2(p), ii, eps))?;
            if closed {
                let Some(d) = d else { return Err("re-rooting a closed polyline gives nothing".into()) };
                let w = if f <= 0.0 {
                    cut(&path, i, 0.0, (i + n - 1) % n, 1.0, false)
                } else if f >= 1.0 {
                    cut(&path, (i + 1) % n, 0.0, i, 1.0, false)
                } else {
                    cut(&path, i, f, i, f, true)
                };
                (d, w)
            } else {
                if i + 1 == n && f >= 1.0 {
                    return match d {
                        None => Ok(()),
                        Some(d) => Err(format!("starting an open polyline at its end gives {d:?}")),
                    };
                }
                let Some(d) = d else { return Err("trimming an open polyline gives nothing".into()) };
                (d, cut(&path, i, f, n - 1, 1.0, false))
            }
        }
        _ => {
            ctx.class("single-segment");
            let i = t.idx(n);
            let s = &path.segs[i];
            let (f, g) = (t.unit(), t.unit());
            let (f, g) = (f.min(g), f.max(g));
            let m = 5e-5 / s.len();
            let (f, g) = if f < m { (0.0, g) } else { (f, g) };
            let (f, g) = if g > 1.0 - m { (f, 1.0) } else { (f, g) };
            let part = s.sub(f, g);
            ctx.note(|| format!("segment {i} from {f:?} to {g:?}"));
            let st = PlineVertex::new(part.a.x, part.a.y, part.bulge);
            let d = no_panic("create_on_single_segment", || PlineViewData::create_on_single_segment(&pl, i, st, vec2(part.b), eps));
            if part.a.dist(part.b) < 3e-5 {
                if part.a.dist(part.b) < 0.9 * eps {
                    ctx.class("collapsed");
                    return match d? {
                        None => Ok(()),
                        Some(d) => Err(format!("collapsed selection gives {d:?}")),
                    };
                }
                ctx.discard();
                return Ok(());
            }
            let Some(d) = d? else { return Err("selection is reported as collapsed".into()) };
            (d, vec![v(part.a.x, part.a.y, part.bulge), v(part.b.x, part.b.y, 0.0)])
        }
    };
    ctx.nontrivial = want.len() > 2;
    if data.validate_for_source(&pl) != ViewDataValidation::IsValid {
        return Err(format!("view data does not pass validation: {:?}", data.validate_for_source(&pl)));
    }
    if data.inverted_direction {
        return Err("view is inverted".into());
    }
    let wp = Path::new(&want, false);
    // forwards
    let w = no_panic("view", || data.view(&pl))?;
    let got = un(&w);
    let gp = Path::new(&got, false);
    let tol = 3e-5;
    if got.len() < 2 || got[0].p().dist(want[0].p()) > tol || got.last().unwrap().p().dist(want.last().unwrap().p()) > tol {
        return Err(format!("view runs from {:?} to {:?}, expected {:?} to {:?}", got.first(), got.last(), want[0], want.last()));
    }
    if got.len() != want.len() {
        return Err(format!("view has the vertexes {}, expected {}", show(&got, false), show(&want, false)));
    }
    same_run(&wp, &gp, tol).map_err(|e| format!("view {} does not follow {}: {e}", show(&got, false), show(&want, false)))?;
    if got.last().unwrap().b != 0.0 {
        return Err("the last vertex of a view has a bulge".into());
    }
    reads_agree(&w, t, &gp)?;
    if w.detach().end_index_offset != data.end_index_offset {
        return Err("detached view data differs".into());
    }
    // inverted
    let mut inv = data;
    inv.inverted_direction = true;
    if inv.validate_for_source(&pl) != ViewDataValidation::IsValid {
        return Err("inverted view data does not pass validation".into());
    }
    let w = no_panic("inverted view", || inv.view(&pl))?;
    let back = un(&w);
    let mut rv = reversed(&got, false);
    if let Some(l) = rv.last_mut() {
        l.b = 0.0;
    }
    if back.len() != rv.len() || back.iter().zip(&rv).any(|(a, b)| a.p() != b.p() || (a.b - b.b).abs() > 1e-12) {
        return Err(format!("inverted view is {}, expected {}", show(&back, false), show(&rv, false)));
    }
    reads_agree(&w, t, &Path::new(&back, false))?;
    // altered descriptions are rejected
    let mut bad = data;
    let what = t.below(6);
    let name = match what {
        0 => {
            bad.end_index_offset = vs.len() + 1 + t.idx(4);
            "offset out of range"
        }
        1 | 2 => {
            let start = what == 1;
            let i = if start { data.start_index } else { pl.fwd_wrapping_index(data.start_index, data.end_index_offset) };
            // the segment named (wrapping, as the library does)
            let s = Seg::new(vs[i].p(), vs[(i + 1) % vs.len()].p(), vs[i].b);
            let o = if start { pt(data.updated_start.x, data.updated_start.y) } else { p2(data.end_point) };
            let d = pt(t.f(-1.0, 1.0), t.f(-1.0, 1.0)) * t.logf(0.02, 50.0);
            let m = o + d;
            let near_center = s.arc.as_ref().is_some_and(|k| m.dist(k.c) < 0.05 * k.r + 0.01);
            if s.dist(m) < 0.01 || near_center {
                return Ok(());
            }
            if start {
                bad.updated_start.x = m.x;
                bad.updated_start.y = m.y;
                "start off the segment"
            } else {
                bad.end_point = vec2(m);
                "end off the segment"
            }
        }
        3 => {
            let i = pl.fwd_wrapping_index(data.start_index, data.end_index_offset);
            bad.end_point = vec2(vs[i].p());
            "end on the final vertex"
        }
        4 if data.end_index_offset == 0 => {
            bad.updated_end_bulge += t.logf(1e-3, 1.0);
            "end bulge of a single segment"
        }
        _ => {
            let one = mk(&vs[..1], closed);
            ctx.class("altered");
            return match data.validate_for_source(&one) {
                ViewDataValidation::SourceHasNoSegments => Ok(()),
                r => Err(format!("a source without segments is judged {r:?}")),
            };
        }
    };
    ctx.class("altered");
    if bad.validate_for_source(&pl) == ViewDataValidation::IsValid {
        return Err(format!("altered view data ({name}) passes validation: {bad:?}"));
    }
    Ok(())
}
