//! F01, F02: histories of C interface calls against a model holding plain vertex lists.
use crate::alloc;
use cavalier_contours::core::math::Vector2;
use cavalier_contours::polyline::{BooleanOp, PlineBooleanOptions, PlineOffsetOptions, PlineSource, PlineSourceMut, Polyline};
use cavalier_contours::static_aabb2d_index::StaticAABB2DIndex;
use cavalier_contours_ffi::*;
use cavver::gen;
use cavver::geo::{v, V};
use cavver::run::{no_panic, Ctx};
use cavver::tape::Tape;
use cavver::util::{mk, un};
use std::ptr::{null, null_mut};

#[derive(Clone, Debug)]
struct M {
    v: Vec<V>,
    closed: bool,
}
impl M {
    fn of(p: &Polyline<f64>) -> M {
        M { v: un(p), closed: p.is_closed() }
    }
    fn rust(&self) -> Polyline<f64> {
        mk(&self.v, self.closed)
    }
}

struct Idx {
    h: *mut cavc_aabbindex,
    of: M,
    exact: bool,
}
#[derive(Default)]
struct World {
    plines: Vec<(*mut cavc_pline, M)>,
    lists: Vec<(*mut cavc_plinelist, Vec<M>)>,
    idx: Vec<Idx>,
}

fn bits(a: f64, b: f64) -> bool {
    a.to_bits() == b.to_bits()
}
fn same_v(a: &V, b: &V) -> bool {
    bits(a.x, b.x) && bits(a.y, b.y) && bits(a.b, b.b)
}

/// One call of the interface, accounted for.
fn call<R>(f: impl FnOnce() -> R) -> R {
    alloc::tracked(f)
}

const SENT: f64 = 1234.5678e90;
const PSENT: *const cavc_pline = 0x5a5a_5a50 as *const cavc_pline;
const LSENT: *const cavc_plinelist = 0x5a5a_5a50 as *const cavc_plinelist;
const ISENT: *const cavc_aabbindex = 0x5a5a_5a50 as *const cavc_aabbindex;

fn vertex(t: &mut Tape) -> V {
    match t.weighted(&[8, 3, 1]) {
        0 => {
            let b = if t.chance(1, 3) { gen::nice_bulge(t) } else { 0.0 };
            v(t.int(0, 8) as f64 / 2.0, t.int(0, 8) as f64 / 2.0, b)
        }
        1 => v(t.f(-10.0, 10.0), t.f(-10.0, 10.0), t.f(-1.0, 1.0)),
        _ => {
            let pool = [0.0, -0.0, 1e-9, 1e15, f64::MIN_POSITIVE, -3.25, 1e-5, 2.0];
            v(*t.pick(&pool), *t.pick(&pool), *t.pick(&[0.0, -0.0, 1.0, -1.0, 0.5]))
        }
    }
}

fn any_m(t: &mut Tape) -> M {
    match t.weighted(&[3, 4, 5, 2]) {
        0 => M { v: Vec::new(), closed: t.chance(1, 2) },
        1 => {
            let n = t.int(1, 7);
            M { v: (0..n).map(|_| vertex(t)).collect(), closed: t.chance(1, 2) }
        }
        2 => {
            let mut vs = gen::simple_closed(t, 2.0, 8.0);
            vs.truncate(40);
            M { v: vs, closed: true }
        }
        _ => {
            let closed = t.chance(1, 2);
            M { v: gen::wild(t, 2, 8, closed), closed }
        }
    }
}

fn create(t: &mut Tape, w: &mut World) -> Result<(), String> {
    let mut m = any_m(t);
    if !w.plines.is_empty() && t.chance(1, 3) {
        // a displaced copy, so that two operands meet
        m = w.plines[t.idx(w.plines.len())].1.clone();
        let (dx, dy) = (t.int(-6, 6) as f64 / 4.0, t.int(-6, 6) as f64 / 4.0);
        for q in m.v.iter_mut() {
            (q.x, q.y) = (q.x + dx, q.y + dy);
        }
    }
    let data: Vec<cavc_vertex> = m.v.iter().map(|q| cavc_vertex::new(q.x, q.y, q.b)).collect();
    let null_data = m.v.is_empty() && t.chance(1, 2);
    let ptr = if null_data { null() } else { data.as_ptr() };
    let closed = if m.closed { *t.pick(&[1u8, 255, 2]) } else { 0 };
    let mut out = PSENT;
    let rc = call(|| unsafe { cavc_pline_create(ptr, data.len() as u32, closed, &mut out) });
    want(rc, 0, "cavc_pline_create")?;
    if out == PSENT || out.is_null() {
        return Err("cavc_pline_create: returned 0 but no polyline".into());
    }
    w.plines.push((out as *mut _, m));
    Ok(())
}

fn want(rc: i32, expect: i32, what: &str) -> Result<(), String> {
    if rc == expect {
        Ok(())
    } else {
        Err(format!("{what}: returned {rc}, expected {expect}"))
    }
}

/// Where a polyline handle comes from.
#[derive(Clone, Copy, Debug)]
enum At {
    Null,
    Own(usize),
    Elem(usize, usize),
}

fn pick(t: &mut Tape, w: &World, null_ok: bool) -> At {
    if null_ok && t.chance(1, 10) {
        return At::Null;
    }
    let elems: usize = w.lists.iter().map(|l| l.1.len()).sum();
    if elems > 0 && t.chance(1, 4) {
        let mut k = t.idx(elems);
        for (i, l) in w.lists.iter().enumerate() {
            if k < l.1.len() {
                return At::Elem(i, k);
            }
            k -= l.1.len();
        }
    }
    if w.plines.is_empty() {
        return At::Null;
    }
    At::Own(t.idx(w.plines.len()))
}
fn handle(w: &World, at: At) -> Result<*mut cavc_pline, String> {
    Ok(match at {
        At::Null => null_mut(),
        At::Own(i) => w.plines[i].0,
        At::Elem(l, k) => {
            let mut out = PSENT;
            let h = w.lists[l].0;
            let rc = call(|| unsafe { cavc_plinelist_get_pline(h, k as u32, &mut out) });
            want(rc, 0, "cavc_plinelist_get_pline")?;
            out as *mut _
        }
    })
}
fn model(w: &mut World, at: At) -> Option<&mut M> {
    match at {
        At::Null => None,
        At::Own(i) => Some(&mut w.plines[i].1),
        At::Elem(l, k) => Some(&mut w.lists[l].1[k]),
    }
}

fn verify(h: *const cavc_pline, m: &M, what: &str) -> Result<(), String> {
    let mut n = 0xdead_beefu32;
    let rc = call(|| unsafe { cavc_pline_get_vertex_count(h, &mut n) });
    want(rc, 0, "cavc_pline_get_vertex_count")?;
    if n as usize != m.v.len() {
        return Err(format!("{what}: has {n} vertexes, expected {}", m.v.len()));
    }
    let mut closed = 77u8;
    let rc = call(|| unsafe { cavc_pline_get_is_closed(h, &mut closed) });
    want(rc, 0, "cavc_pline_get_is_closed")?;
    if (closed != 0) != m.closed || closed == 77 {
        return Err(format!("{what}: is_closed {closed}, expected {}", m.closed));
    }
    // a buffer with room to spare: nothing past the count is written
    let mut data = vec![cavc_vertex::new(SENT, SENT, SENT); m.v.len() + 2];
    let rc = call(|| unsafe { cavc_pline_get_vertex_data(h, data.as_mut_ptr()) });
    want(rc, 0, "cavc_pline_get_vertex_data")?;
    for (i, d) in data.iter().enumerate() {
        let e = m.v.get(i).copied().unwrap_or(v(SENT, SENT, SENT));
        if !same_v(&v(d.x, d.y, d.bulge), &e) {
            return Err(format!("{what}: vertex {i} reads ({}, {}, {}), expected ({}, {}, {})", d.x, d.y, d.bulge, e.x, e.y, e.b));
        }
    }
    Ok(())
}

fn verify_all(w: &World) -> Result<(), String> {
    for (i, (h, m)) in w.plines.iter().enumerate() {
        verify(*h, m, &format!("polyline {i}"))?;
    }
    for (i, (h, ms)) in w.lists.iter().enumerate() {
        let mut n = 0xdead_beefu32;
        let rc = call(|| unsafe { cavc_plinelist_get_count(*h, &mut n) });
        want(rc, 0, "cavc_plinelist_get_count")?;
        if n as usize != ms.len() {
            return Err(format!("list {i}: has {n} polylines, expected {}", ms.len()));
        }
        for (k, m) in ms.iter().enumerate() {
            let p = handle(w, At::Elem(i, k))?;
            verify(p, m, &format!("list {i} polyline {k}"))?;
        }
    }
    for x in &w.idx {
        verify_index(x)?;
    }
    Ok(())
}

fn verify_index(x: &Idx) -> Result<(), String> {
    let (mut a, mut b, mut c, mut d) = (SENT, SENT, SENT, SENT);
    let h = x.h;
    let rc = call(|| unsafe { cavc_aabbindex_get_extents(h, &mut a, &mut b, &mut c, &mut d) });
    want(rc, 0, "cavc_aabbindex_get_extents")?;
    let p = x.of.rust();
    let r: StaticAABB2DIndex<f64> = if x.exact { p.create_aabb_index() } else { p.create_approx_aabb_index() };
    let ok = match r.bounds() {
        Some(e) => bits(a, e.min_x) && bits(b, e.min_y) && bits(c, e.max_x) && bits(d, e.max_y),
        None => a.is_nan() && b.is_nan() && c.is_nan() && d.is_nan(),
    };
    // what the index holds is visible to Rust code composing with the interface
    let inner = unsafe { &(*h).0 };
    let boxes = |i: &StaticAABB2DIndex<f64>| i.all_boxes().iter().map(|q| [q.min_x.to_bits(), q.min_y.to_bits(), q.max_x.to_bits(), q.max_y.to_bits()]).collect::<Vec<_>>();
    if !ok || boxes(inner) != boxes(&r) || inner.all_box_indices() != r.all_box_indices() {
        return Err(format!("index: extents ({a}, {b}, {c}, {d}) or contents differ from those of {:?}", r.bounds()));
    }
    Ok(())
}

fn position(t: &mut Tape, n: usize) -> u32 {
    match t.weighted(&[6, 1, 1, 1]) {
        0 if n > 0 => t.idx(n) as u32,
        0 | 1 => n as u32,
        2 => n as u32 + 1 + t.below(3) as u32,
        _ => *t.pick(&[u32::MAX, 1 << 31, 1 << 16]),
    }
}

/// Take over a returned list whose contents are to equal `expect`.
fn adopt(w: &mut World, h: *const cavc_plinelist, expect: Vec<M>, what: &str) -> Result<(), String> {
    if h == LSENT || h.is_null() {
        return Err(format!("{what}: returned 0 but no list"));
    }
    w.lists.push((h as *mut _, expect));
    let i = w.lists.len() - 1;
    let mut n = 0xdead_beefu32;
    let rc = call(|| unsafe { cavc_plinelist_get_count(h, &mut n) });
    want(rc, 0, "cavc_plinelist_get_count")?;
    if n as usize != w.lists[i].1.len() {
        return Err(format!("{what}: list of {n} polylines, expected {}", w.lists[i].1.len()));
    }
    Ok(())
}

/// Free one polyline (own) / list / index.
fn free_pline(w: &mut World, i: usize) {
    let (h, _) = w.plines.remove(i);
    call(|| unsafe { cavc_pline_f(h) });
}
fn free_list(w: &mut World, i: usize) {
    let (h, _) = w.lists.remove(i);
    call(|| unsafe { cavc_plinelist_f(h) });
}
fn free_idx(w: &mut World, i: usize) {
    let x = w.idx.remove(i);
    call(|| unsafe { cavc_aabbindex_f(x.h) });
}

#[derive(Default)]
struct Seen {
    calls: u32,
    failing: u32,
    produced: u32,
    panicked: u32,
    multi: u32,
}

fn step(t: &mut Tape, w: &mut World, s: &mut Seen, log: &mut Vec<String>) -> Result<(), String> {
    s.calls += 1;
    let op = t.weighted(&[6, 4, 4, 4, 3, 3, 3, 3, 3, 3, 3, 2, 3, 3, 3, 3, 3, 3, 6, 8, 3, 3, 2, 3, 3, 3, 3, 3, 2, 2]);
    let at = pick(t, w, true);
    macro_rules! say {
        ($($x:tt)*) => { log.push(format!($($x)*)) };
    }
    if let Some(m) = model(w, at) {
        if m.v.len() > 150 && matches!(op, 1 | 18 | 19) {
            return Ok(());
        }
    }
    let null_handle = matches!(at, At::Null);
    let on_null = if null_handle { 1 } else { 0 };
    if null_handle && (1..=19).contains(&op) {
        s.failing += 1;
    }
    match op {
        0 => {
            if w.plines.len() < 8 {
                create(t, w)?;
                say!("create #{} {:?}", w.plines.len() - 1, w.plines.last().unwrap().1);
            }
        }
        1 => {
            let q = vertex(t);
            say!("add {at:?} {q:?}");
            let h = handle(w, at)?;
            let rc = call(|| unsafe { cavc_pline_add(h, q.x, q.y, q.b) });
            want(rc, on_null, "cavc_pline_add")?;
            if let Some(m) = model(w, at) {
                m.v.push(q);
            }
        }
        2 => {
            let n = model(w, at).map(|m| m.v.len()).unwrap_or(0);
            let pos = position(t, n);
            say!("remove {at:?} {pos}");
            let h = handle(w, at)?;
            let rc = call(|| unsafe { cavc_pline_remove(h, pos) });
            let bad = pos as usize >= n;
            want(rc, if null_handle { 1 } else if bad { 2 } else { 0 }, "cavc_pline_remove")?;
            s.failing += bad as u32;
            if !null_handle && !bad {
                model(w, at).unwrap().v.remove(pos as usize);
            }
        }
        3 => {
            let n = model(w, at).map(|m| m.v.len()).unwrap_or(0);
            let pos = position(t, n);
            let q = vertex(t);
            say!("set {at:?} {pos} {q:?}");
            let h = handle(w, at)?;
            let rc = call(|| unsafe { cavc_pline_set_vertex(h, pos, cavc_vertex::new(q.x, q.y, q.b)) });
            let bad = pos as usize >= n;
            want(rc, if null_handle { 1 } else if bad { 2 } else { 0 }, "cavc_pline_set_vertex")?;
            s.failing += bad as u32;
            if !null_handle && !bad {
                model(w, at).unwrap().v[pos as usize] = q;
            }
        }
        4 => {
            let n = model(w, at).map(|m| m.v.len()).unwrap_or(0);
            let pos = position(t, n);
            say!("get {at:?} {pos}");
            let h = handle(w, at)?;
            let mut out = cavc_vertex::new(SENT, SENT, SENT);
            let rc = call(|| unsafe { cavc_pline_get_vertex(h, pos, &mut out) });
            let bad = pos as usize >= n;
            want(rc, if null_handle { 1 } else if bad { 2 } else { 0 }, "cavc_pline_get_vertex")?;
            s.failing += bad as u32;
            let e = if rc == 0 { model(w, at).unwrap().v[pos as usize] } else { v(SENT, SENT, SENT) };
            if !same_v(&v(out.x, out.y, out.bulge), &e) {
                return Err(format!("cavc_pline_get_vertex: wrote ({}, {}, {}), expected {e:?}", out.x, out.y, out.bulge));
            }
        }
        5 => {
            let c = *t.pick(&[0u8, 1, 2, 255]);
            say!("set_is_closed {at:?} {c}");
            let h = handle(w, at)?;
            let rc = call(|| unsafe { cavc_pline_set_is_closed(h, c) });
            want(rc, on_null, "cavc_pline_set_is_closed")?;
            if let Some(m) = model(w, at) {
                m.closed = c != 0;
            }
        }
        6 => {
            say!("get_is_closed/count {at:?}");
            let h = handle(w, at)?;
            let (mut c, mut n) = (77u8, 0xdead_beefu32);
            let rc = call(|| unsafe { cavc_pline_get_is_closed(h, &mut c) });
            want(rc, on_null, "cavc_pline_get_is_closed")?;
            let rc = call(|| unsafe { cavc_pline_get_vertex_count(h, &mut n) });
            want(rc, on_null, "cavc_pline_get_vertex_count")?;
            let (ec, en) = match model(w, at) {
                Some(m) => (m.closed as u8, m.v.len() as u32),
                None => (77, 0xdead_beef),
            };
            if (c != 0) != (ec != 0) || n != en || (null_handle && c != 77) {
                return Err(format!("is_closed {c}, count {n}, expected {ec}, {en}"));
            }
        }
        7 => {
            let m = any_m(t);
            let cut = if m.v.len() > 1 { t.idx(m.v.len() + 1) } else { m.v.len() };
            let data: Vec<cavc_vertex> = m.v.iter().map(|q| cavc_vertex::new(q.x, q.y, q.b)).collect();
            say!("set_vertex_data {at:?} {:?}", &m.v[..cut]);
            let h = handle(w, at)?;
            let rc = call(|| unsafe { cavc_pline_set_vertex_data(h, data.as_ptr(), cut as u32) });
            want(rc, on_null, "cavc_pline_set_vertex_data")?;
            if let Some(x) = model(w, at) {
                x.v = m.v[..cut].to_vec();
            }
        }
        8 => {
            say!("clear {at:?}");
            let h = handle(w, at)?;
            let rc = call(|| unsafe { cavc_pline_clear(h) });
            want(rc, on_null, "cavc_pline_clear")?;
            if let Some(x) = model(w, at) {
                x.v.clear();
            }
        }
        9 => {
            let k = t.below(50) as u32;
            say!("reserve {at:?} {k}");
            let h = handle(w, at)?;
            let rc = call(|| unsafe { cavc_pline_reserve(h, k) });
            want(rc, on_null, "cavc_pline_reserve")?;
        }
        10 => {
            if w.plines.len() < 8 {
                say!("clone {at:?} -> #{}", w.plines.len());
                let h = handle(w, at)?;
                let mut out = PSENT;
                let rc = call(|| unsafe { cavc_pline_clone(h, &mut out) });
                want(rc, on_null, "cavc_pline_clone")?;
                match model(w, at).cloned() {
                    Some(m) => {
                        if out == PSENT || out == h as *const _ || out.is_null() {
                            return Err("cavc_pline_clone: no new polyline".into());
                        }
                        w.plines.push((out as *mut _, m));
                    }
                    None if out != PSENT => return Err("cavc_pline_clone: wrote its output on failure".into()),
                    None => {}
                }
            }
        }
        11 => {
            say!("length/area {at:?}");
            let h = handle(w, at)?;
            let (mut l, mut a) = (SENT, SENT);
            let rl = call(|| unsafe { cavc_pline_eval_path_length(h, &mut l) });
            let ra = call(|| unsafe { cavc_pline_eval_area(h, &mut a) });
            let e = model(w, at).map(|m| m.rust());
            judge_f("cavc_pline_eval_path_length", rl, &[l], e.as_ref(), |p| vec![p.path_length()], s)?;
            judge_f("cavc_pline_eval_area", ra, &[a], e.as_ref(), |p| vec![p.area()], s)?;
        }
        12 => {
            let q = vertex(t);
            say!("winding {at:?} {q:?}");
            let h = handle(w, at)?;
            let mut n = i32::MIN + 7;
            let rc = call(|| unsafe { cavc_pline_eval_wn(h, q.x, q.y, &mut n) });
            let e = model(w, at).map(|m| m.rust());
            judge_f("cavc_pline_eval_wn", rc, &[if rc == 0 { n as f64 } else { SENT }], e.as_ref(), |p| vec![p.winding_number(Vector2::new(q.x, q.y)) as f64], s)?;
            if rc != 0 && n != i32::MIN + 7 {
                return Err("cavc_pline_eval_wn: wrote its output on failure".into());
            }
        }
        13 => {
            say!("invert {at:?}");
            let h = handle(w, at)?;
            let rc = call(|| unsafe { cavc_pline_invert_direction(h) });
            edit(w, at, rc, "cavc_pline_invert_direction", |p| p.invert_direction_mut(), s)?;
        }
        14 => {
            let f = *t.pick(&[1.0, 2.0, 0.5, -1.0, 0.0, 1.25]);
            say!("scale {at:?} {f}");
            let h = handle(w, at)?;
            let rc = call(|| unsafe { cavc_pline_scale(h, f) });
            edit(w, at, rc, "cavc_pline_scale", |p| p.scale_mut(f), s)?;
        }
        15 => {
            let (x, y) = (t.int(-8, 8) as f64 / 4.0, t.int(-8, 8) as f64 / 4.0);
            say!("translate {at:?} {x} {y}");
            let h = handle(w, at)?;
            let rc = call(|| unsafe { cavc_pline_translate(h, x, y) });
            edit(w, at, rc, "cavc_pline_translate", |p| p.translate_mut(x, y), s)?;
        }
        16 => {
            let eps = *t.pick(&[1e-5, 1e-9, 0.3, 0.6, 2.0]);
            let redundant = t.chance(1, 2);
            say!("remove_{} {at:?} {eps}", if redundant { "redundant" } else { "repeat_pos" });
            let h = handle(w, at)?;
            if redundant {
                let rc = call(|| unsafe { cavc_pline_remove_redundant(h, eps) });
                edit(w, at, rc, "cavc_pline_remove_redundant", |p| if let Some(r) = p.remove_redundant(eps) { *p = r }, s)?;
            } else {
                let rc = call(|| unsafe { cavc_pline_remove_repeat_pos(h, eps) });
                edit(w, at, rc, "cavc_pline_remove_repeat_pos", |p| if let Some(r) = p.remove_repeat_pos(eps) { *p = r }, s)?;
            }
        }
        17 => {
            say!("extents {at:?}");
            let h = handle(w, at)?;
            let (mut a, mut b, mut c, mut d) = (SENT, SENT, SENT, SENT);
            let rc = call(|| unsafe { cavc_pline_eval_extents(h, &mut a, &mut b, &mut c, &mut d) });
            let few = model(w, at).map(|m| m.v.len() < 2).unwrap_or(false);
            if few {
                s.failing += 1;
                want(rc, 2, "cavc_pline_eval_extents")?;
                if [a, b, c, d].iter().any(|x| !bits(*x, SENT)) {
                    return Err("cavc_pline_eval_extents: wrote its outputs on failure".into());
                }
            } else {
                let e = model(w, at).map(|m| m.rust());
                judge_f("cavc_pline_eval_extents", rc, &[a, b, c, d], e.as_ref(), |p| {
                    let x = p.extents().expect("extents of two vertexes");
                    vec![x.min_x, x.min_y, x.max_x, x.max_y]
                }, s)?;
            }
        }
        18 => {
            if w.lists.len() >= 5 {
                return Ok(());
            }
            let dist = *t.pick(&[0.25, -0.25, 0.5, -1.0, 0.1, 3.0, -0.05]);
            let h = handle(w, at)?;
            let m = model(w, at).cloned();
            let how = t.weighted(&[2, 2, 3]);
            let mut o = cavc_pline_parallel_offset_o { aabb_index: ISENT, pos_equal_eps: SENT, slice_join_eps: SENT, offset_dist_eps: SENT, handle_self_intersects: 77 };
            let mut ro = PlineOffsetOptions::default();
            let mut optr: *const cavc_pline_parallel_offset_o = null();
            let mut iopt = None;
            if how > 0 {
                let rc = call(|| unsafe { cavc_pline_parallel_offset_o_init(&mut o) });
                want(rc, 0, "cavc_pline_parallel_offset_o_init")?;
                if !o.aabb_index.is_null()
                    || !bits(o.pos_equal_eps, ro.pos_equal_eps)
                    || !bits(o.slice_join_eps, ro.slice_join_eps)
                    || !bits(o.offset_dist_eps, ro.offset_dist_eps)
                    || (o.handle_self_intersects != 0) != ro.handle_self_intersects
                {
                    return Err(format!("cavc_pline_parallel_offset_o_init: {o:?}"));
                }
                optr = &o;
            }
            if how == 2 {
                let k = t.below(16);
                if k & 1 != 0 {
                    o.handle_self_intersects = *t.pick(&[1, 2, 255]);
                    ro.handle_self_intersects = true;
                }
                if k & 2 != 0 {
                    o.pos_equal_eps = 1e-4;
                    ro.pos_equal_eps = 1e-4;
                }
                if k & 4 != 0 {
                    o.slice_join_eps = 1e-3;
                    ro.slice_join_eps = 1e-3;
                }
                if k & 8 != 0 {
                    o.offset_dist_eps = 0.01;
                    ro.offset_dist_eps = 0.01;
                }
                if let Some(m) = &m {
                    iopt = w.idx.iter().position(|x| x.of.closed == m.closed && x.of.v.len() == m.v.len() && x.of.v.iter().zip(&m.v).all(|(a, b)| same_v(a, b)));
                }
            }
            let rindex = iopt.map(|i| {
                o.aabb_index = w.idx[i].h;
                let p = w.idx[i].of.rust();
                if w.idx[i].exact { p.create_aabb_index() } else { p.create_approx_aabb_index() }
            });
            if how == 0 {
                optr = null();
            } else {
                optr = if optr.is_null() { null() } else { &o };
            }
            say!("offset {at:?} {dist} {:?}", if how == 0 { None } else { Some(o) });
            let mut out = LSENT;
            let rc = call(|| unsafe { cavc_pline_parallel_offset(h, dist, optr, &mut out) });
            let Some(m) = m else {
                want(rc, 1, "cavc_pline_parallel_offset")?;
                return if out != LSENT { Err("cavc_pline_parallel_offset: wrote its output on failure".into()) } else { Ok(()) };
            };
            let p = m.rust();
            let e = no_panic("parallel_offset", || {
                if how == 0 {
                    p.parallel_offset(dist)
                } else {
                    ro.aabb_index = rindex.as_ref();
                    p.parallel_offset_opt(dist, &ro)
                }
            });
            match e {
                Ok(r) => {
                    want(rc, 0, "cavc_pline_parallel_offset")?;
                    s.produced += 1;
                    s.multi += (r.len() > 1) as u32;
                    adopt(w, out, r.iter().map(M::of).collect(), "cavc_pline_parallel_offset")?;
                }
                Err(_) => {
                    s.panicked += 1;
                    want(rc, -1, "cavc_pline_parallel_offset")?;
                    if out != LSENT {
                        return Err("cavc_pline_parallel_offset: wrote its output on failure".into());
                    }
                }
            }
        }
        19 => {
            if w.lists.len() >= 5 {
                return Ok(());
            }
            let at2 = if t.chance(1, 8) { at } else { pick(t, w, true) };
            let (h1, h2) = (handle(w, at)?, handle(w, at2)?);
            let (m1, m2) = (model(w, at).cloned(), model(w, at2).cloned());
            let code = match t.weighted(&[8, 1]) {
                0 => t.below(4) as u32,
                _ => *t.pick(&[4u32, 5, 255, 256, u32::MAX]),
            };
            let how = t.weighted(&[2, 2, 3]);
            let mut o = cavc_pline_boolean_o { pline1_aabb_index: ISENT, pos_equal_eps: SENT };
            let mut ro = PlineBooleanOptions::default();
            if how > 0 {
                let rc = call(|| unsafe { cavc_pline_boolean_o_init(&mut o) });
                want(rc, 0, "cavc_pline_boolean_o_init")?;
                if !o.pline1_aabb_index.is_null() || !bits(o.pos_equal_eps, ro.pos_equal_eps) {
                    return Err(format!("cavc_pline_boolean_o_init: {o:?}"));
                }
            }
            let mut iopt = None;
            if how == 2 {
                if t.chance(1, 2) {
                    o.pos_equal_eps = 1e-3;
                    ro.pos_equal_eps = 1e-3;
                }
                if let Some(m) = &m1 {
                    iopt = w.idx.iter().position(|x| x.of.closed == m.closed && x.of.v.len() == m.v.len() && x.of.v.iter().zip(&m.v).all(|(a, b)| same_v(a, b)));
                }
            }
            let rindex = iopt.map(|i| {
                o.pline1_aabb_index = w.idx[i].h;
                let p = w.idx[i].of.rust();
                if w.idx[i].exact { p.create_aabb_index() } else { p.create_approx_aabb_index() }
            });
            let optr: *const cavc_pline_boolean_o = if how == 0 { null() } else { &o };
            say!("boolean {at:?} {at2:?} op {code} {:?}", if how == 0 { None } else { Some(o) });
            let (mut pos, mut neg) = (LSENT, LSENT);
            let rc = call(|| unsafe { cavc_pline_boolean(h1, h2, code, optr, &mut pos, &mut neg) });
            let (Some(m1), Some(m2)) = (m1, m2) else {
                s.failing += 1;
                want(rc, 1, "cavc_pline_boolean")?;
                return if pos != LSENT || neg != LSENT { Err("cavc_pline_boolean: wrote its outputs on failure".into()) } else { Ok(()) };
            };
            if code > 3 {
                s.failing += 1;
                want(rc, 2, "cavc_pline_boolean")?;
                return if pos != LSENT || neg != LSENT { Err("cavc_pline_boolean: wrote its outputs on failure".into()) } else { Ok(()) };
            }
            let op = [BooleanOp::Or, BooleanOp::And, BooleanOp::Not, BooleanOp::Xor][code as usize];
            let (p1, p2) = (m1.rust(), m2.rust());
            let e = no_panic("boolean", || {
                if how == 0 {
                    p1.boolean(&p2, op)
                } else {
                    ro.pline1_aabb_index = rindex.as_ref();
                    p1.boolean_opt(&p2, op, &ro)
                }
            });
            match e {
                Ok(r) => {
                    want(rc, 0, "cavc_pline_boolean")?;
                    if pos == neg {
                        return Err("cavc_pline_boolean: one list for both outputs".into());
                    }
                    s.produced += 1;
                    s.multi += (r.pos_plines.len() + r.neg_plines.len() > 1) as u32;
                    adopt(w, pos, r.pos_plines.iter().map(|x| M::of(&x.pline)).collect(), "cavc_pline_boolean positive")?;
                    adopt(w, neg, r.neg_plines.iter().map(|x| M::of(&x.pline)).collect(), "cavc_pline_boolean negative")?;
                }
                Err(_) => {
                    s.panicked += 1;
                    want(rc, -1, "cavc_pline_boolean")?;
                    if pos != LSENT || neg != LSENT {
                        return Err("cavc_pline_boolean: wrote its outputs on failure".into());
                    }
                }
            }
        }
        20 | 21 => {
            if w.idx.len() >= 4 {
                return Ok(());
            }
            let exact = op == 21;
            say!("create_{}aabbindex {at:?}", if exact { "" } else { "approx_" });
            let h = handle(w, at)?;
            let mut out = ISENT;
            let rc = call(|| unsafe {
                if exact {
                    cavc_pline_create_aabbindex(h, &mut out)
                } else {
                    cavc_pline_create_approx_aabbindex(h, &mut out)
                }
            });
            match model(w, at).cloned() {
                None => {
                    s.failing += 1;
                    want(rc, 1, "cavc_pline_create_aabbindex")?;
                    if out != ISENT {
                        return Err("cavc_pline_create_aabbindex: wrote its output on failure".into());
                    }
                }
                Some(of) => {
                    want(rc, 0, "cavc_pline_create_aabbindex")?;
                    if out == ISENT || out.is_null() {
                        return Err("cavc_pline_create_aabbindex: no index".into());
                    }
                    s.produced += 1;
                    w.idx.push(Idx { h: out as *mut _, of, exact });
                    verify_index(w.idx.last().unwrap())?;
                }
            }
        }
        22 => {
            let (mut a, mut b, mut c, mut d) = (SENT, SENT, SENT, SENT);
            if w.idx.is_empty() || t.chance(1, 4) {
                say!("index extents null");
                s.failing += 1;
                let rc = call(|| unsafe { cavc_aabbindex_get_extents(null(), &mut a, &mut b, &mut c, &mut d) });
                want(rc, 1, "cavc_aabbindex_get_extents")?;
                if [a, b, c, d].iter().any(|x| !bits(*x, SENT)) {
                    return Err("cavc_aabbindex_get_extents: wrote its outputs on failure".into());
                }
            } else {
                let i = t.idx(w.idx.len());
                say!("index extents {i}");
                verify_index(&w.idx[i])?;
            }
        }
        23 => {
            // list access
            let l = if w.lists.is_empty() || t.chance(1, 6) { None } else { Some(t.idx(w.lists.len())) };
            let (h, n) = l.map(|l| (w.lists[l].0, w.lists[l].1.len())).unwrap_or((null_mut(), 0));
            let pos = position(t, n);
            say!("list get {l:?} {pos}");
            let mut out = PSENT;
            let rc = call(|| unsafe { cavc_plinelist_get_pline(h, pos, &mut out) });
            let bad = pos as usize >= n;
            s.failing += (bad || l.is_none()) as u32;
            want(rc, if l.is_none() { 1 } else if bad { 2 } else { 0 }, "cavc_plinelist_get_pline")?;
            if rc == 0 {
                verify(out, &w.lists[l.unwrap()].1[pos as usize], "list element")?;
            } else if out != PSENT {
                return Err("cavc_plinelist_get_pline: wrote its output on failure".into());
            }
            let mut c = 0xdead_beefu32;
            let rc = call(|| unsafe { cavc_plinelist_get_count(h, &mut c) });
            want(rc, if l.is_none() { 1 } else { 0 }, "cavc_plinelist_get_count")?;
            if c != if l.is_none() { 0xdead_beef } else { n as u32 } {
                return Err(format!("cavc_plinelist_get_count: {c}, expected {n}"));
            }
        }
        24 | 25 => {
            let l = if w.lists.is_empty() || t.chance(1, 6) { None } else { Some(t.idx(w.lists.len())) };
            let (h, n) = l.map(|l| (w.lists[l].0, w.lists[l].1.len())).unwrap_or((null_mut(), 0));
            if w.plines.len() >= 10 {
                return Ok(());
            }
            let pos = if op == 24 { (n as u32).wrapping_sub(1) } else { position(t, n) };
            let what = if op == 24 { "cavc_plinelist_pop" } else { "cavc_plinelist_take" };
            say!("{what} {l:?} {pos}");
            let mut out = PSENT;
            let rc = call(|| unsafe {
                if op == 24 {
                    cavc_plinelist_pop(h, &mut out)
                } else {
                    cavc_plinelist_take(h, pos, &mut out)
                }
            });
            let bad = n == 0 || pos as usize >= n;
            s.failing += (bad || l.is_none()) as u32;
            want(rc, if l.is_none() { 1 } else if bad { 2 } else { 0 }, what)?;
            if rc == 0 {
                s.multi += (n > 1) as u32;
                let m = w.lists[l.unwrap()].1.remove(pos as usize);
                verify(out, &m, what)?;
                w.plines.push((out as *mut _, m));
            } else if out != PSENT {
                return Err(format!("{what}: wrote its output on failure"));
            }
        }
        26 => {
            if !w.plines.is_empty() {
                let i = t.idx(w.plines.len());
                say!("free polyline {i}");
                free_pline(w, i);
            }
        }
        27 => {
            if !w.lists.is_empty() {
                let i = t.idx(w.lists.len());
                s.multi += (w.lists[i].1.len() > 1) as u32;
                say!("free list {i}");
                free_list(w, i);
            }
        }
        28 => {
            if !w.idx.is_empty() {
                let i = t.idx(w.idx.len());
                say!("free index {i}");
                free_idx(w, i);
            }
        }
        _ => {
            say!("null releases and initialisers");
            s.failing += 1;
            call(|| unsafe {
                cavc_pline_f(null_mut());
                cavc_plinelist_f(null_mut());
                cavc_aabbindex_f(null_mut());
            });
            let rc = call(|| unsafe { cavc_pline_parallel_offset_o_init(null_mut()) });
            want(rc, 1, "cavc_pline_parallel_offset_o_init")?;
            let rc = call(|| unsafe { cavc_pline_boolean_o_init(null_mut()) });
            want(rc, 1, "cavc_pline_boolean_o_init")?;
        }
    }
    Ok(())
}

/// Judge the outputs of a query against the Rust call.
fn judge_f(what: &str, rc: i32, out: &[f64], p: Option<&Polyline<f64>>, f: impl Fn(&Polyline<f64>) -> Vec<f64>, s: &mut Seen) -> Result<(), String> {
    let (erc, e) = match p {
        None => (1, vec![SENT; out.len()]),
        Some(p) => match no_panic(what, || f(p)) {
            Ok(e) => (0, e),
            Err(_) => {
                s.panicked += 1;
                (-1, vec![SENT; out.len()])
            }
        },
    };
    want(rc, erc, what)?;
    if out.iter().zip(&e).any(|(a, b)| !bits(*a, *b) && !(a.is_nan() && b.is_nan())) {
        return Err(format!("{what}: wrote {out:?}, expected {e:?}"));
    }
    Ok(())
}

/// Apply an edit to the model through the Rust interface.
fn edit(w: &mut World, at: At, rc: i32, what: &str, f: impl Fn(&mut Polyline<f64>), s: &mut Seen) -> Result<(), String> {
    let Some(m) = model(w, at) else { return want(rc, 1, what) };
    let mut p = m.rust();
    match no_panic(what, || f(&mut p)) {
        Ok(()) => {
            *m = M::of(&p);
            want(rc, 0, what)
        }
        Err(_) => {
            s.panicked += 1;
            want(rc, -1, what)
        }
    }
}

fn history(t: &mut Tape, ctx: &mut Ctx, s: &mut Seen) -> Result<(), String> {
    let mut w = World::default();
    let mut log = Vec::new();
    let n = t.int(4, 30);
    let r = (|| {
        create(t, &mut w)?;
        log.push(format!("create #0 {:?}", w.plines[0].1));
        for _ in 0..n {
            step(t, &mut w, s, &mut log)?;
            if w.idx.len() + w.lists.len() + w.plines.len() > 24 {
                break;
            }
        }
        verify_all(&w)
    })();
    ctx.note(|| log.join(" | "));
    // release everything left, in an order of choice; what remains is unaffected
    while r.is_ok() && !(w.plines.is_empty() && w.lists.is_empty() && w.idx.is_empty()) {
        let (np, nl) = (w.plines.len(), w.lists.len());
        let k = t.idx(np + nl + w.idx.len());
        if k < np {
            free_pline(&mut w, k);
        } else if k < np + nl {
            s.multi += (w.lists[k - np].1.len() > 1) as u32;
            free_list(&mut w, k - np);
        } else {
            free_idx(&mut w, k - np - nl);
        }
        if w.plines.len() + w.lists.len() == 2 {
            verify_all(&w)?;
        }
    }
    r
}

pub fn f01(t: &mut Tape, ctx: &mut Ctx) -> Result<(), String> {
    let mut s = Seen::default();
    let r = history(t, ctx, &mut s);
    if s.panicked > 0 {
        ctx.class("internal-panic");
    }
    if s.failing > 0 {
        ctx.class("failing-call");
    }
    if s.produced > 0 {
        ctx.class("produced");
    }
    ctx.nontrivial = s.calls >= 8 && s.failing > 0 && s.produced > 0;
    r
}

thread_local! {
    static WARM: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}

/// What the runner's panic hook keeps is not the interface's.
fn hook() {
    static ONCE: std::sync::Once = std::sync::Once::new();
    ONCE.call_once(|| {
        let prev = std::panic::take_hook();
        std::panic::set_hook(Box::new(move |i| alloc::untracked(|| prev(i))));
    });
}

fn audited(t: &mut Tape, ctx: &mut Ctx, s: &mut Seen) -> (Result<(), String>, alloc::Account) {
    alloc::begin();
    let r = history(t, ctx, s);
    let a = alloc::account();
    alloc::end();
    (r, a)
}

pub fn f02(t: &mut Tape, ctx: &mut Ctx) -> Result<(), String> {
    hook();
    if !WARM.with(|c| c.replace(true)) {
        // whatever is set up once per thread happens here
        for seed in 0..4 {
            let _ = audited(&mut Tape::random(seed), &mut Ctx::new(false), &mut Seen::default());
        }
    }
    let mut s = Seen::default();
    let (r, a) = audited(t, ctx, &mut s);
    if s.panicked > 0 {
        ctx.class("internal-panic");
    }
    if s.multi > 0 {
        ctx.class("list-of-several");
    }
    ctx.nontrivial = s.multi > 0;
    if a.double > 0 {
        return Err(format!("{} blocks released twice (or never allocated)", a.double));
    }
    if let Err(m) = r {
        // wrong without accounting as well: a matter of the call results (F01), not of memory
        let mut again = Tape::replay(t.choices.clone());
        return match history(&mut again, &mut Ctx::new(false), &mut Seen::default()) {
            Err(_) => {
                ctx.class("wrong-result");
                Ok(())
            }
            Ok(()) => Err(format!("results depend on released memory: {m}")),
        };
    }
    if a.live != 0 {
        return Err(format!("{} of {} blocks allocated by the interface are still allocated after everything was released", a.live, a.total));
    }
    Ok(())
}
