//! U01: what is drawn of polylines is the polylines.
use cavalier_contours::polyline::internal::pline_offset::create_untrimmed_raw_offset_segs;
use cavalier_contours::shape_algorithms::Shape;
use cavalier_contours_ui::plotting::*;
use cavver::gen;
use cavver::geo::*;
use cavver::prop_shape;
use cavver::run::*;
use cavver::tape::Tape;
use cavver::util::*;
use egui::{Color32, Rect};
use egui_plot::{PlotBounds, PlotItem, PlotTransform};

const STROKE: Color32 = Color32::from_rgb(200, 10, 20);
const FILL: Color32 = Color32::from_rgb(30, 210, 40);
const MARK: Color32 = Color32::from_rgb(50, 60, 220);
const COLLAPSED: Color32 = Color32::from_rgb(70, 180, 190);
/// half the stroke width times lyon's miter limit, and the distance drawings may be off, in pixels
const STROKE_REACH: f64 = 4.0;
const SLACK: f64 = 0.35;

thread_local! {
    static UI: std::cell::RefCell<egui::Ui> = std::cell::RefCell::new({
        let ctx = egui::Context::default();
        ctx.begin_pass(egui::RawInput::default());
        egui::Ui::new(ctx, egui::Id::new("u01"), egui::UiBuilder::new())
    });
}

/// An outline with its vertexes.
#[derive(Clone)]
struct Line {
    vs: Vec<V>,
    closed: bool,
    path: Path,
}

impl Line {
    fn new(vs: &[V], closed: bool) -> Line {
        Line { vs: vs.to_vec(), closed, path: Path::new(vs, closed) }
    }
}

impl std::ops::Deref for Line {
    type Target = Path;
    fn deref(&self) -> &Path {
        &self.path
    }
}

/// The plot window: frame on the screen and what it shows.
#[derive(Clone, Copy)]
struct Window {
    left: f64,
    top: f64,
    w: f64,
    h: f64,
    /// lower left corner and pixels per unit
    x: f64,
    y: f64,
    scale: f64,
}

impl Window {
    fn px(&self, p: Pt) -> Pt {
        pt(self.left + (p.x - self.x) * self.scale, self.top + self.h - (p.y - self.y) * self.scale)
    }
    fn path(&self, p: &Line) -> Line {
        // mirrored (pixels run downwards), so bulges change sign
        let vs: Vec<V> = p.vs.iter().map(|q| { let z = self.px(q.p()); v(z.x, z.y, -q.b) }).collect();
        Line::new(&vs, p.closed)
    }
    fn bounds(&self) -> PlotBounds {
        PlotBounds::from_min_max([self.x, self.y], [self.x + self.w / self.scale, self.y + self.h / self.scale])
    }
    fn transform(&self) -> PlotTransform {
        let frame = Rect::from_min_size(egui::pos2(self.left as f32, self.top as f32), egui::vec2(self.w as f32, self.h as f32));
        PlotTransform::new(frame, self.bounds(), false)
    }
    fn inside(&self, p: Pt, by: f64) -> bool {
        p.x > self.left + by && p.x < self.left + self.w - by && p.y > self.top + by && p.y < self.top + self.h - by
    }
}

fn window(t: &mut Tape, bbox: [f64; 4], path: Option<&Line>) -> Window {
    let (left, top) = (t.int(0, 400) as f64, t.int(0, 400) as f64);
    let (w, h) = (t.int(40, 1600) as f64, t.int(40, 1200) as f64);
    let (bw, bh) = ((bbox[2] - bbox[0]).max(1e-3), (bbox[3] - bbox[1]).max(1e-3));
    let fit = (w / bw).min(h / bh) / 1.1;
    let mid = pt((bbox[0] + bbox[2]) / 2.0, (bbox[1] + bbox[3]) / 2.0);
    let (c, scale) = match t.weighted(&[4, 3, 2, 1]) {
        0 => (mid, fit),
        1 => {
            // zoomed in on a point of the path
            let c = match path {
                Some(p) if !p.segs.is_empty() => p.segs[t.idx(p.segs.len())].at(t.unit()),
                _ => mid,
            };
            (c, fit * t.logf(1.0, 1e4))
        }
        2 => (pt(t.f(bbox[0], bbox[2]), t.f(bbox[1], bbox[3])), fit * t.logf(0.02, 30.0)),
        _ => (pt(mid.x + bw * t.f(-3.0, 3.0), mid.y + bh * t.f(-3.0, 3.0)), fit),
    };
    Window { left, top, w, h, x: c.x - w / scale / 2.0, y: c.y - h / scale / 2.0, scale }
}

struct Drawn {
    fill: Vec<[Pt; 3]>,
    stroke: Vec<([Pt; 3], Color32)>,
    marks: Vec<Pt>,
}

fn draw(item: &dyn PlotItem, w: &Window) -> Result<Drawn, String> {
    let mut shapes = Vec::new();
    UI.with(|ui| item.shapes(&ui.borrow(), &w.transform(), &mut shapes));
    let mut d = Drawn { fill: Vec::new(), stroke: Vec::new(), marks: Vec::new() };
    for s in &shapes {
        match s {
            egui::Shape::Mesh(m) => {
                for k in m.indices.chunks(3) {
                    let vs: Vec<_> = k.iter().map(|&i| m.vertices[i as usize]).collect();
                    let tri = [0, 1, 2].map(|i| pt(vs[i].pos.x as f64, vs[i].pos.y as f64));
                    if tri.iter().any(|p| !p.x.is_finite() || !p.y.is_finite()) {
                        return Err("a triangle that is not finite is drawn".into());
                    }
                    if vs.iter().any(|q| q.color != vs[0].color) {
                        return Err("a triangle of two colors is drawn".into());
                    }
                    match vs[0].color {
                        FILL => d.fill.push(tri),
                        c => d.stroke.push((tri, c)),
                    }
                }
            }
            egui::Shape::Circle(c) if c.fill == MARK => d.marks.push(pt(c.center.x as f64, c.center.y as f64)),
            other => return Err(format!("something else is drawn: {:?}", other.visual_bounding_rect())),
        }
    }
    Ok(d)
}

fn tri_dist(tri: &[Pt; 3], p: Pt) -> f64 {
    let side = |a: Pt, b: Pt| (b - a).cross(p - a);
    let s = [side(tri[0], tri[1]), side(tri[1], tri[2]), side(tri[2], tri[0])];
    if s.iter().all(|&x| x >= 0.0) || s.iter().all(|&x| x <= 0.0) {
        // (a triangle without area has the point on its line: measured below)
        if s.iter().any(|&x| x != 0.0) {
            return 0.0;
        }
    }
    (0..3).map(|i| Seg::new(tri[i], tri[(i + 1) % 3], 0.0).dist(p)).fold(f64::INFINITY, f64::min)
}

/// Triangles by cells, to look up those near to a point.
struct Grid {
    cell: f64,
    map: std::collections::HashMap<(i64, i64), Vec<usize>>,
}

impl Grid {
    fn new(tris: &[[Pt; 3]], w: &Window) -> Grid {
        let cell = (w.w.max(w.h) / 24.0).max(4.0);
        let mut map: std::collections::HashMap<(i64, i64), Vec<usize>> = Default::default();
        let (x0, x1) = (w.left - 2.0 * cell, w.left + w.w + 2.0 * cell);
        let (y0, y1) = (w.top - 2.0 * cell, w.top + w.h + 2.0 * cell);
        for (i, t) in tris.iter().enumerate() {
            let f = |g: fn(f64, f64) -> f64, k: fn(&Pt) -> f64| t.iter().map(k).reduce(g).unwrap();
            let (ax, bx) = ((f(f64::min, |p| p.x) - 1.0).max(x0), (f(f64::max, |p| p.x) + 1.0).min(x1));
            let (ay, by) = ((f(f64::min, |p| p.y) - 1.0).max(y0), (f(f64::max, |p| p.y) + 1.0).min(y1));
            if ax > bx || ay > by {
                continue;
            }
            for cx in (ax / cell).floor() as i64..=(bx / cell).floor() as i64 {
                for cy in (ay / cell).floor() as i64..=(by / cell).floor() as i64 {
                    map.entry((cx, cy)).or_default().push(i);
                }
            }
        }
        Grid { cell, map }
    }
    fn near(&self, p: Pt) -> &[usize] {
        self.map.get(&((p.x / self.cell).floor() as i64, (p.y / self.cell).floor() as i64)).map_or(&[], |x| x)
    }
}

/// Every point of the paths that is in the window is drawn, and nothing is drawn elsewhere.
fn check_stroke(t: &mut Tape, paths: &[Line], tris: &[[Pt; 3]], w: &Window, slack: f64) -> Result<(), String> {
    let grid = Grid::new(tris, w);
    for (k, path) in paths.iter().enumerate() {
        // (an outline smaller than a pixel may be left out)
        let b = path.bbox();
        if b[2] - b[0] < 1.0 && b[3] - b[1] < 1.0 {
            continue;
        }
        for (i, s) in path.segs.iter().enumerate() {
            for _ in 0..6 {
                let q = s.at(t.unit());
                if !w.inside(q, 1.0) {
                    continue;
                }
                if !grid.near(q).iter().any(|&x| tri_dist(&tris[x], q) <= slack) {
                    return Err(format!("outline {k} segment {i}: ({}, {}) of it in the window is not drawn", q.x, q.y));
                }
            }
        }
    }
    let dist = |p: Pt| paths.iter().map(|o| o.dist(p)).fold(f64::INFINITY, f64::min);
    // (a few of the triangles when there are very many)
    let step = 1 + tris.len() / 300;
    for tri in tris.iter().skip(t.idx(step)).step_by(step) {
        for p in [tri[0], tri[1], tri[2], (tri[0] + tri[1] + tri[2]) * (1.0 / 3.0)] {
            let d = dist(p);
            if d > STROKE_REACH + slack {
                return Err(format!("({}, {}) is drawn {d} pixels off the outlines", p.x, p.y));
            }
        }
    }
    Ok(())
}

/// Exactly the points an odd number of turns goes around are filled.
/// (The tessellator, a dependency, gives wrong triangles for two in a million drawings: these lie
/// over others, which those of the right drawing of a wrong path never do.)
fn check_fill(t: &mut Tape, paths: &[Line], tris: &[[Pt; 3]], w: &Window, slack: f64) -> Result<usize, String> {
    let grid = Grid::new(tris, w);
    let mut seen = 0;
    // the drawing closes open polylines for filling
    let closed: Vec<Line> = paths.iter().filter(|p| p.vs.len() > 1).map(|p| {
        let mut vs = p.vs.clone();
        if !p.closed {
            vs.last_mut().unwrap().b = 0.0;
        }
        Line::new(&vs, true)
    }).collect();
    for k in 0..30 {
        let mut q = pt(w.left + w.w * t.unit(), w.top + w.h * t.unit());
        if k % 2 == 0 && !closed.is_empty() {
            let p = &closed[t.idx(closed.len())];
            let s = &p.segs[t.idx(p.segs.len())];
            let (z, l) = (s.at(t.unit()), t.logf(slack * 1.1, 8.0));
            let a = t.f(0.0, 6.3);
            let z = pt(z.x + l * a.cos(), z.y + l * a.sin());
            if w.inside(z, 0.0) {
                q = z;
            }
        }
        if closed.iter().any(|p| p.dist(q) < slack) {
            continue;
        }
        let mut turns = 0;
        for p in &closed {
            match p.winding(q) {
                Some(n) => turns += n,
                None => return Ok(seen),
            }
        }
        seen += 1;
        let got = grid.near(q).iter().any(|&x| tri_dist(&tris[x], q) <= 0.0);
        let want = turns % 2 != 0;
        if got != want {
            if overlap(tris) {
                return Ok(seen);
            }
            return Err(format!("({}, {}) is {}filled, the outlines go around it {turns} times", q.x, q.y, if got { "" } else { "not " }));
        }
    }
    Ok(seen)
}

/// Whether triangles lie over one another.
fn overlap(tris: &[[Pt; 3]]) -> bool {
    let depth = |t: &[Pt; 3], p: Pt| {
        let side = |a: Pt, b: Pt| (b - a).cross(p - a) / b.dist(a).max(1e-9);
        let s = [side(t[0], t[1]), side(t[1], t[2]), side(t[2], t[0])];
        let m = s.iter().fold(f64::INFINITY, |m: f64, x| m.min(x.abs()));
        if s.iter().all(|&x| x > 0.0) || s.iter().all(|&x| x < 0.0) { m } else { 0.0 }
    };
    let mid = |t: &[Pt; 3], k: [f64; 3]| t[0] * k[0] + t[1] * k[1] + t[2] * k[2];
    for (i, a) in tris.iter().enumerate() {
        for k in [[1.0, 1.0, 1.0], [2.0, 0.5, 0.5], [0.5, 2.0, 0.5], [0.5, 0.5, 2.0], [1.4, 1.4, 0.2], [0.2, 1.4, 1.4], [1.4, 0.2, 1.4]] {
            let p = mid(a, k.map(|x| x / 3.0));
            if depth(a, p) > 0.01 && tris.iter().enumerate().any(|(j, b)| j != i && depth(b, p) > 0.01) {
                return true;
            }
        }
    }
    false
}

fn drawable(paths: &[Line]) -> Option<f64> {
    // single precision: what a pixel coordinate of this size is rounded by
    let far = paths.iter().filter(|p| !p.vs.is_empty()).map(|p| p.bbox()).flat_map(|b| b.map(f64::abs)).fold(0.0, f64::max);
    (far < 3e5).then_some(SLACK + far * 4e-7)
}

pub fn u01(t: &mut Tape, ctx: &mut Ctx) -> Result<(), String> {
    let kind = t.weighted(&[4, 3, 3, 2]);
    if kind == 3 {
        return raw_segments(t, ctx);
    }
    let vss: Vec<(Vec<V>, bool)> = match kind {
        0 => vec![(gen::simple_closed(t, 0.5, 50.0), true)],
        1 => {
            let closed = t.chance(1, 2);
            ctx.class(if closed { "any closed" } else { "any open" });
            vec![(gen::wild(t, 0, 12, closed), closed)]
        }
        _ => {
            let o = prop_shape::outlines(t);
            o.vs.into_iter().map(|x| (x, true)).collect()
        }
    };
    ctx.class(["closed outline", "any polyline", "shape"][kind]);
    let plines: Vec<_> = vss.iter().map(|(vs, c)| mk(vs, *c)).collect();
    // the shape sorts its outlines by orientation and leaves out those with less than two vertexes
    let shape = (kind == 2).then(|| Shape::from_plines(plines.iter().cloned()));
    let sources: Vec<Line> = match &shape {
        Some(s) => s.ccw_plines.iter().chain(&s.cw_plines).map(|p| Line::new(&un(&p.polyline), p.polyline.is_closed)).collect(),
        None => vec![Line::new(&vss[0].0, vss[0].1)],
    };
    let mut bbox: Option<[f64; 4]> = None;
    for p in sources.iter().filter(|p| !p.vs.is_empty()) {
        let b = if p.vs.len() == 1 { [p.vs[0].x, p.vs[0].y, p.vs[0].x, p.vs[0].y] } else { p.bbox() };
        bbox = Some(bbox.map_or(b, |o| join(o, b)));
    }
    let focus = if sources.is_empty() { None } else { Some(t.idx(sources.len())) };
    let w = window(t, bbox.unwrap_or([0.0, 0.0, 1.0, 1.0]), focus.map(|i| &sources[i]));
    let (stroke, fill, mark) = (t.chance(3, 4), t.chance(3, 4), t.chance(3, 4));
    ctx.note(|| format!("{} in [{} {} {}x{}] of ({}, {}) at {}", vss.iter().map(|(vs, c)| show(vs, *c)).collect::<Vec<_>>().join(" "), w.left, w.top, w.w, w.h, w.x, w.y, w.scale));
    let paths: Vec<Line> = sources.iter().map(|p| w.path(p)).collect();
    let Some(slack) = drawable(&paths) else {
        ctx.class("too far zoomed in(skipped)");
        ctx.discard();
        return Ok(());
    };
    let color = |on: bool, c: Color32| if on { c } else { Color32::TRANSPARENT };
    let (d, bounds) = match &shape {
            Some(s) => {
                let item = PlinesPlotItem::new(s).stroke_color(color(stroke, STROKE)).fill_color(color(fill, FILL)).vertex_color(color(mark, MARK));
                (draw(&item, &w)?, item.bounds())
            }
            None => {
                let item = PlinesPlotItem::new(PlinePlotData::new(&plines[0])).stroke_color(color(stroke, STROKE)).fill_color(color(fill, FILL)).vertex_color(color(mark, MARK));
                (draw(&item, &w)?, item.bounds())
            }
    };
    // bounds for zooming to fit
    match bbox {
        Some(b) => {
            let got = [bounds.min()[0], bounds.min()[1], bounds.max()[0], bounds.max()[1]];
            let size = b.iter().fold(1.0, |m: f64, x| m.max(x.abs()));
            // (a shape's are made of boxes around the sagitta rectangles of its arcs)
            let spare = if kind == 2 { sources.iter().flat_map(|p| p.vs.iter().enumerate().filter(|(_, q)| q.b != 0.0).map(|(i, q)| q.p().dist(p.vs[(i + 1) % p.vs.len()].p()))).fold(0.0, f64::max) } else { 0.0 };
            if (0..4).any(|i| {
                let out = if i < 2 { b[i] - got[i] } else { got[i] - b[i] };
                out < -1e-6 * size || out > spare + 1e-6 * size
            }) {
                return Err(format!("bounds {got:?}, expected {b:?}"));
            }
        }
        None => {
            if bounds.min()[0] <= bounds.max()[0] {
                return Err("bounds of nothing are not empty".into());
            }
        }
    }
    if stroke {
        let tris: Vec<[Pt; 3]> = d.stroke.iter().map(|x| x.0).collect();
        if d.stroke.iter().any(|x| x.1 != STROKE) {
            return Err("drawn in a color that was not asked for".into());
        }
        check_stroke(t, &paths, &tris, &w, slack)?;
    } else if !d.stroke.is_empty() {
        return Err("an outline is drawn without a color for it".into());
    }
    if fill {
        check_fill(t, &paths, &d.fill, &w, slack)?;
    } else if !d.fill.is_empty() {
        return Err("filled without a color for it".into());
    }
    // one mark per vertex in the window
    let mut want: Vec<Pt> = Vec::new();
    let mut optional: Vec<Pt> = Vec::new();
    for q in paths.iter().flat_map(|p| &p.vs) {
        if w.inside(q.p(), 1e-3) {
            want.push(q.p());
        } else if w.inside(q.p(), -1e-3) {
            optional.push(q.p());
        }
    }
    if mark {
        let mut got = d.marks.clone();
        for (list, must) in [(&want, true), (&optional, false)] {
            for q in list {
                let near = (0..got.len()).min_by(|&a, &b| got[a].dist(*q).total_cmp(&got[b].dist(*q)));
                match near.filter(|&i| got[i].dist(*q) < slack) {
                    Some(i) => {
                        got.swap_remove(i);
                    }
                    None if must => return Err(format!("no mark at the vertex at ({}, {})", q.x, q.y)),
                    None => {}
                }
            }
        }
        if let Some(g) = got.first() {
            return Err(format!("a mark at ({}, {}), where no vertex is", g.x, g.y));
        }
    } else if !d.marks.is_empty() {
        return Err("vertexes are marked without a color for it".into());
    }
    ctx.nontrivial = stroke && paths.iter().flat_map(|p| &p.segs).filter(|s| (0..9).any(|i| w.inside(s.at(i as f64 / 8.0), 1.0))).count() > 1;
    Ok(())
}

fn raw_segments(t: &mut Tape, ctx: &mut Ctx) -> Result<(), String> {
    ctx.class("raw offset segments");
    let closed = t.chance(2, 3);
    let vs = if closed { gen::simple_closed(t, 0.5, 50.0) } else { gen::wild(t, 2, 10, false) };
    let pl = mk(&vs, closed);
    let src = Line::new(&vs, closed);
    let size = { let b = src.bbox(); (b[2] - b[0]).max(b[3] - b[1]) };
    let offset = size * t.logf(0.01, 1.0) * if t.chance(1, 2) { 1.0 } else { -1.0 };
    let segs = create_untrimmed_raw_offset_segs(&pl, offset);
    let all: Vec<Line> = segs.iter().map(|s| Line::new(&[v(s.v1.x, s.v1.y, s.v1.bulge), v(s.v2.x, s.v2.y, 0.0)], false)).collect();
    if all.is_empty() || all.iter().any(|p| p.segs.is_empty() || p.segs[0].len() < 1e-4 * size) {
        ctx.class("raw segment without length(skipped)");
        ctx.discard();
        return Ok(());
    }
    let bbox = all.iter().map(|p| p.bbox()).reduce(join).unwrap();
    let k = t.idx(all.len());
    let w = window(t, bbox, Some(&all[k]));
    ctx.note(|| format!("raw offset by {offset} of {} in [{} {} {}x{}] of ({}, {}) at {}", show(&vs, closed), w.left, w.top, w.w, w.h, w.x, w.y, w.scale));
    let paths: Vec<Line> = all.iter().map(|p| w.path(p)).collect();
    let Some(slack) = drawable(&paths) else {
        ctx.class("too far zoomed in(skipped)");
        ctx.discard();
        return Ok(());
    };
    let (stroke, collapsed) = (t.chance(3, 4), t.chance(3, 4));
    let color = |on: bool, c: Color32| if on { c } else { Color32::TRANSPARENT };
    let item = RawPlineOffsetSegsPlotItem::new(&segs).color(color(stroke, STROKE)).collapsed_color(color(collapsed, COLLAPSED));
    let d = draw(&item, &w)?;
    let got = { let b = item.bounds(); [b.min()[0], b.min()[1], b.max()[0], b.max()[1]] };
    if (0..4).any(|i| (got[i] - bbox[i]).abs() > 1e-6 * bbox.iter().fold(1.0, |m: f64, x| m.max(x.abs()))) {
        return Err(format!("bounds {got:?}, expected {bbox:?}"));
    }
    for (on, c, which) in [(stroke, STROKE, false), (collapsed, COLLAPSED, true)] {
        let tris: Vec<[Pt; 3]> = d.stroke.iter().filter(|x| x.1 == c).map(|x| x.0).collect();
        if !on {
            if !tris.is_empty() {
                return Err("drawn without a color for it".into());
            }
            continue;
        }
        let of: Vec<Line> = segs.iter().zip(&paths).filter(|(s, _)| s.collapsed_arc == which).map(|(_, p)| p.clone()).collect();
        if which && !of.is_empty() {
            ctx.class("with collapsed arcs");
        }
        check_stroke(t, &of, &tris, &w, slack).map_err(|e| format!("{} segments: {e}", if which { "collapsed" } else { "remaining" }))?;
    }
    if !d.fill.is_empty() || !d.marks.is_empty() || d.stroke.iter().any(|x| x.1 != STROKE && x.1 != COLLAPSED) {
        return Err("something else is drawn".into());
    }
    ctx.nontrivial = (stroke || collapsed) && paths.iter().filter(|p| (0..9).any(|i| w.inside(p.segs[0].at(i as f64 / 8.0), 1.0))).count() > 1;
    Ok(())
}
