//! E01..E05: editing and path-preserving rewrites against a list model and independent geometry.
use crate::gen;
use crate::geo::*;
use crate::prop_geom::any_pline;
use crate::run::*;
use crate::tape::Tape;
use crate::util::*;
use cavalier_contours::polyline::*;

// ---------------------------------------------------------------- path comparison

/// Largest distance from sampled points of `a` to `b`.
pub fn one_way(a: &Path, b: &Path, per_seg: usize) -> f64 {
    a.samples(per_seg).iter().map(|p| b.dist(*p)).fold(0.0, f64::max)
}

/// Both paths run through the same points in the same order: compared at equal lengths along them.
/// `tol` bounds the distance of corresponding points.
pub fn same_run(a: &Path, b: &Path, tol: f64) -> Result<(), String> {
    if a.segs.is_empty() || b.segs.is_empty() {
        return if a.segs.len() == b.segs.len() { Ok(()) } else { Err("one of the paths has no segments".into()) };
    }
    let (la, lb) = (a.len(), b.len());
    if (la - lb).abs() > tol * (2 + a.segs.len() + b.segs.len()) as f64 {
        return Err(format!("path lengths {la:?} and {lb:?} differ"));
    }
    let mut marks: Vec<f64> = vec![0.0, 1.0];
    for p in [a, b] {
        let (l, mut acc) = (p.len(), 0.0);
        for s in &p.segs {
            let sl = s.len();
            for k in 1..4 {
                marks.push((acc + sl * k as f64 / 4.0) / l);
            }
            acc += sl;
            marks.push(acc / l);
        }
    }
    let slack = tol * (2 + a.segs.len() + b.segs.len()) as f64;
    for m in marks {
        let (pa, pb) = (a.at_len(m * la).1, b.at_len(m * lb).1);
        if pa.dist(pb) > tol + 2.0 * slack {
            return Err(format!("at fraction {m:?} of the length one path is at {pa:?}, the other at {pb:?}"));
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- E01

#[derive(Clone, Debug)]
struct Model {
    vs: Vec<V>,
    closed: bool,
}

fn eq_v(a: PlineVertex<f64>, b: V) -> bool {
    a.x == b.x && a.y == b.y && a.bulge == b.b
}

fn near(a: V, b: V, eps: f64) -> bool {
    (a.x - b.x).abs() < eps && (a.y - b.y).abs() < eps
}

const EPS: f64 = 1e-5;

fn gv(t: &mut Tape) -> V {
    // grid positions with sub-tolerance jitter so that coincidences within and just outside of
    // the tolerance are common
    let j = |t: &mut Tape| *t.pick(&[0.0, 0.0, 0.4, 0.9, 1.3]) * EPS;
    let x = t.int(0, 3) as f64 + j(t);
    let y = t.int(0, 2) as f64 + j(t);
    let b = *t.pick(&[0.0, 0.5, -0.5, 1.0, -1.0, 0.25]);
    v(x, y, b)
}

fn pv(q: V) -> PlineVertex<f64> {
    PlineVertex::new(q.x, q.y, q.b)
}

impl Model {
    fn add_or_replace(&mut self, q: V) {
        match self.vs.last_mut() {
            Some(l) if near(*l, q, EPS) => l.b = q.b,
            _ => self.vs.push(q),
        }
    }
    fn segs(&self) -> Vec<(usize, usize)> {
        let n = self.vs.len();
        let mut r: Vec<(usize, usize)> = (1..n).map(|i| (i - 1, i)).collect();
        if self.closed && n > 1 {
            r.push((n - 1, 0));
        }
        r
    }
    fn check(&self, p: &Polyline<f64>, t: &mut Tape) -> Result<(), String> {
        let n = self.vs.len();
        if p.vertex_count() != n || p.is_closed() != self.closed || p.is_empty() != (n == 0) || p.vertex_data.len() != n {
            return Err(format!("{} vertexes, closed {}, expected {n}, {}", p.vertex_count(), p.is_closed(), self.closed));
        }
        for (i, q) in self.vs.iter().enumerate() {
            if !eq_v(p.at(i), *q) || !p.get(i).is_some_and(|x| eq_v(x, *q)) || !eq_v(p[i], *q) {
                return Err(format!("vertex {i} is {:?}, expected {q:?}", p.at(i)));
            }
        }
        if p.get(n).is_some() || p.get(n + 7).is_some() {
            return Err("vertex past the end".into());
        }
        let last = no_panic("last", || p.last())?;
        if last.is_some() != (n > 0) || last.is_some_and(|x| !eq_v(x, self.vs[n - 1])) {
            return Err(format!("last is {last:?}"));
        }
        // vertex iterator consumed from both ends
        let mut it = p.iter_vertexes();
        let (mut lo, mut hi) = (0, n);
        for _ in 0..n + 2 {
            if it.len() != hi - lo || it.size_hint() != (hi - lo, Some(hi - lo)) {
                return Err(format!("vertex iterator reports {:?} left, expected {}", it.size_hint(), hi - lo));
            }
            let back = t.chance(1, 3);
            let copy = it.clone();
            if copy.count() != hi - lo {
                return Err("copy of the vertex iterator differs".into());
            }
            let got = if back { it.next_back() } else { it.next() };
            let want = if lo == hi {
                None
            } else if back {
                hi -= 1;
                Some(self.vs[hi])
            } else {
                lo += 1;
                Some(self.vs[lo - 1])
            };
            if got.is_some() != want.is_some() || (got.is_some() && !eq_v(got.unwrap(), want.unwrap())) {
                return Err(format!("vertex iterator gives {got:?}, expected {want:?}"));
            }
        }
        // segments
        let segs = self.segs();
        if p.segment_count() != segs.len() {
            return Err(format!("{} segments, expected {}", p.segment_count(), segs.len()));
        }
        let ix: Vec<_> = p.iter_segment_indexes().collect();
        if ix != segs {
            return Err(format!("segment indexes {ix:?}, expected {segs:?}"));
        }
        let mut si = p.iter_segment_indexes();
        let mut it = p.iter_segments();
        for k in 0..segs.len() + 2 {
            let left = segs.len().saturating_sub(k);
            if it.len() != left || it.size_hint() != (left, Some(left)) || si.size_hint() != (left, Some(left)) || it.clone().count() != left {
                return Err(format!("segment iterators report {:?} and {:?} left, expected {left}", it.size_hint(), si.size_hint()));
            }
            let (g, gi) = (it.next(), si.next());
            match segs.get(k) {
                None if g.is_none() && gi.is_none() => {}
                Some(&(a, b)) if gi == Some((a, b)) && g.is_some_and(|(x, y)| eq_v(x, self.vs[a]) && eq_v(y, self.vs[b])) => {}
                w => return Err(format!("segment {k} is {g:?} / {gi:?}, expected {w:?}")),
            }
        }
        // wrapping helpers
        for i in 0..n {
            let (nx, pr) = (p.next_wrapping_index(i), p.prev_wrapping_index(i));
            if nx != (i + 1) % n || pr != (i + n - 1) % n {
                return Err(format!("neighbours of {i}: {pr} and {nx}"));
            }
        }
        if n > 0 {
            let (i, j) = (t.idx(n), t.idx(n));
            let d = p.fwd_wrapping_dist(i, j);
            if d != (j + n - i) % n || p.fwd_wrapping_index(i, d) != j {
                return Err(format!("forward distance {i} to {j} of {n} is {d}"));
            }
            let k = t.idx(n + 1);
            if p.fwd_wrapping_index(i, k) != (i + k) % n {
                return Err(format!("index {k} after {i} of {n} is {}", p.fwd_wrapping_index(i, k)));
            }
        }
        Ok(())
    }
}

pub fn e01(t: &mut Tape, ctx: &mut Ctx) -> Result<(), String> {
    let closed = t.chance(1, 2);
    let mut m = Model { vs: vec![], closed };
    let mut p: Polyline<f64> = match t.below(5) {
        0 if closed => Polyline::new_closed(),
        1 => PlineCreation::with_capacity(t.idx(6), closed),
        2 => {
            m.vs = (0..t.idx(5)).map(|_| gv(t)).collect();
            PlineCreation::from_iter(m.vs.iter().map(|q| pv(*q)), closed)
        }
        3 => {
            m.vs = (0..t.idx(5)).map(|_| gv(t)).collect();
            Polyline { vertex_data: m.vs.iter().map(|q| pv(*q)).collect(), is_closed: closed }
        }
        _ => {
            m.closed = false;
            match t.below(3) {
                0 => Polyline::new(),
                1 => Polyline::default(),
                _ => PlineCreation::empty(),
            }
        }
    };
    if p.is_closed != m.closed {
        // new() for a wanted closed one
        p.set_is_closed(m.closed);
    }
    m.check(&p, t)?;
    let steps = 1 + t.idx(16);
    let mut hist = String::new();
    for _ in 0..steps {
        let n = m.vs.len();
        let op = t.weighted(&[4, 3, 3, 3, 3, 3, 2, 1, 3, 2, 2, 2, 2, 2, 2, 2]);
        let before = p.clone();
        let mut name = "";
        match op {
            0 => {
                let q = gv(t);
                name = "add";
                match t.below(3) {
                    0 => p.add(q.x, q.y, q.b),
                    1 => p.add_vertex(pv(q)),
                    _ => p.add_from_array([q.x, q.y, q.b]),
                }
                m.vs.push(q);
            }
            1 => {
                let (i, q) = (t.idx(n + 1), gv(t));
                name = "insert";
                if t.chance(1, 2) {
                    p.insert(i, q.x, q.y, q.b);
                } else {
                    p.insert_vertex(i, pv(q));
                }
                m.vs.insert(i, q);
            }
            2 if n > 0 => {
                let (i, q) = (t.idx(n), gv(t));
                name = "set";
                match t.below(3) {
                    0 => p.set(i, q.x, q.y, q.b),
                    1 => p.set_vertex(i, pv(q)),
                    _ => p[i] = pv(q),
                }
                m.vs[i] = q;
            }
            3 if n > 0 => {
                let q = gv(t);
                name = "set_last";
                p.set_last(pv(q));
                m.vs[n - 1] = q;
            }
            4 if n > 0 => {
                let i = t.idx(n);
                name = "remove";
                let r = p.remove(i);
                if !eq_v(r, m.vs.remove(i)) {
                    return Err(format!("removing {i} returned {r:?}"));
                }
            }
            5 if n > 0 => {
                name = "remove_last";
                let r = p.remove_last();
                if !eq_v(r, m.vs.pop().unwrap()) {
                    return Err(format!("remove_last returned {r:?}"));
                }
            }
            6 => {
                name = "set_is_closed";
                m.closed = t.chance(1, 2);
                p.set_is_closed(m.closed);
            }
            7 => {
                name = "clear";
                p.clear();
                m.vs.clear();
            }
            8 => {
                let q = gv(t);
                // often right on the last vertex
                let q = if n > 0 && t.chance(1, 2) {
                    let l = m.vs[n - 1];
                    let d = *t.pick(&[0.0, 0.5, -0.5, 1.5, -1.5]) * EPS;
                    if t.chance(1, 2) { v(l.x + d, l.y, q.b) } else { v(l.x, l.y + d, q.b) }
                } else {
                    q
                };
                name = "add_or_replace";
                if t.chance(1, 2) {
                    p.add_or_replace(q.x, q.y, q.b, EPS);
                } else {
                    p.add_or_replace_vertex(pv(q), EPS);
                }
                m.add_or_replace(q);
            }
            9 => {
                name = "extend_vertexes";
                let qs: Vec<V> = (0..t.idx(4)).map(|_| gv(t)).collect();
                p.extend_vertexes(qs.iter().map(|q| pv(*q)));
                m.vs.extend(qs);
            }
            10 => {
                name = "extend";
                let qs: Vec<V> = (0..t.idx(4)).map(|_| gv(t)).collect();
                let o = mk(&qs, t.chance(1, 2));
                p.extend(&o);
                m.vs.extend(qs);
            }
            11 => {
                name = "extend_remove_repeat";
                let qs: Vec<V> = (0..t.idx(5)).map(|_| gv(t)).collect();
                let o = mk(&qs, t.chance(1, 2));
                p.extend_remove_repeat(&o, EPS);
                for q in qs {
                    m.add_or_replace(q);
                }
            }
            12 => {
                name = "reserve";
                p.reserve(t.idx(40));
            }
            13 => {
                name = "create_from";
                p = match t.below(3) {
                    0 => PlineCreation::create_from(&p),
                    1 => p.clone(),
                    _ => PlineCreation::from_iter(p.iter_vertexes(), p.is_closed()),
                };
            }
            14 => {
                name = "create_from_remove_repeat";
                p = PlineCreation::create_from_remove_repeat(&before, EPS);
                let mut r = Model { vs: vec![], closed: m.closed };
                for q in &m.vs {
                    r.add_or_replace(*q);
                }
                while r.closed && r.vs.len() > 1 && near(r.vs[0], *r.vs.last().unwrap(), EPS) {
                    r.vs.pop();
                }
                m = r;
            }
            15 => {
                name = "compare";
                let mut o = p.clone();
                let same = |a: &Polyline<f64>, b: &Polyline<f64>| a.fuzzy_eq(b) && b.fuzzy_eq_eps(a, 1e-8);
                if !same(&p, &o) {
                    return Err("a copy does not compare equal".into());
                }
                let what = t.below(4);
                match what {
                    0 => o.set_is_closed(!m.closed),
                    1 => o.add(9.0, 9.0, 0.0),
                    _ if n > 0 => {
                        let i = t.idx(n);
                        let mut q = o[i];
                        match t.below(3) {
                            0 => q.x += 1e-3,
                            1 => q.y -= 1e-3,
                            _ => q.bulge += 1e-3,
                        }
                        o.set_vertex(i, q);
                        if !p.fuzzy_eq_eps(&o, 2e-3) {
                            return Err("a difference below the tolerance compares unequal".into());
                        }
                    }
                    _ => o.add(9.0, 9.0, 0.0),
                }
                if p.fuzzy_eq(&o) || o.fuzzy_eq(&p) || p.fuzzy_eq_eps(&o, 5e-4) {
                    return Err("different polylines compare equal".into());
                }
            }
            _ => {}
        }
        if ctx.want_desc {
            hist.push_str(name);
            hist.push(' ');
        }
        if let Err(e) = m.check(&p, t) {
            return Err(format!("after {name} on {}: {e}", show(&un(&before), before.is_closed)));
        }
    }
    ctx.note(|| format!("{hist}-> {}", show(&m.vs, m.closed)));
    ctx.nontrivial = steps >= 4;
    ctx.class(match m.vs.len() {
        0 => "ends-empty",
        1..=3 => "ends-with-1-3",
        _ => "ends-with-4+",
    });
    Ok(())
}

// ---------------------------------------------------------------- E02

/// Put runs of repeated positions (within `eps`) into a polyline.
fn with_repeats(t: &mut Tape, vs: &[V], closed: bool, eps: f64, num: u64, den: u64) -> Vec<V> {
    // eps 0: exact repeats
    let mut out: Vec<V> = Vec::new();
    let jit = |t: &mut Tape| *t.pick(&[0.0, 0.0, 0.3, -0.3]) * eps;
    for q in vs {
        if t.chance(num, den) {
            for _ in 0..1 + t.idx(3) {
                let b = *t.pick(&[0.0, 0.5, -1.0, 0.1]);
                out.push(v(q.x + jit(t), q.y + jit(t), b));
            }
        }
        out.push(*q);
    }
    if closed && !vs.is_empty() && t.chance(num, den) {
        // across the closing joint
        for _ in 0..1 + t.idx(2) {
            let b = *t.pick(&[0.0, 0.5, -1.0, 0.1]);
            out.push(v(vs[0].x + jit(t), vs[0].y + jit(t), b));
        }
    }
    out
}

pub fn e02(t: &mut Tape, ctx: &mut Ctx) -> Result<(), String> {
    let eps = *t.pick(&[1e-5, 1e-5, 1e-8, 1e-3, 0.05]);
    let chain = t.chance(1, 6);
    let (base, closed) = if chain {
        // slow drift: steps below the tolerance whose sum is not
        let n = 1 + t.idx(10);
        let closed = t.chance(1, 2);
        let mut p = pt(0.0, 0.0);
        let vs = (0..n)
            .map(|_| {
                let q = v(p.x, p.y, *t.pick(&[0.0, 0.5, -0.5]));
                let d = *t.pick(&[0.6, 0.4, 1.7, -0.6, 30.0]) * eps;
                if t.chance(1, 2) {
                    p.x += d;
                } else {
                    p.y += d;
                }
                q
            })
            .collect();
        (vs, closed)
    } else {
        any_pline(t, 0, 8)
    };
    let vs = if chain { base.clone() } else { with_repeats(t, &base, closed, eps, 1, 3) };
    ctx.note(|| format!("{} eps {eps:?}", show(&vs, closed)));
    let pl = mk(&vs, closed);
    let r = no_panic("remove_repeat_pos", || pl.remove_repeat_pos(eps))?;
    // what has to be left: the first position of each run with the bulge of its last vertex
    let mut want: Vec<V> = Vec::new();
    for q in &vs {
        match want.last_mut() {
            Some(l) if near(*l, *q, eps) => l.b = q.b,
            _ => want.push(*q),
        }
    }
    let joint = closed && want.len() > 1 && near(want[0], *want.last().unwrap(), eps);
    while closed && want.len() > 1 && near(want[0], *want.last().unwrap(), eps) {
        want.pop();
    }
    ctx.nontrivial = want.len() < vs.len();
    if joint {
        ctx.class("across-the-closing-joint");
    }
    if chain {
        ctx.class("drift");
    }
    if want.len() == 1 && vs.len() > 1 {
        ctx.class("collapses-to-one");
    }
    let got = match &r {
        None => {
            if want.len() != vs.len() {
                return Err(format!("no change reported, but repeats at the tolerance leave {}", show(&want, closed)));
            }
            return Ok(());
        }
        Some(p) => {
            if p.is_closed() != closed {
                return Err("open/closed state changed".into());
            }
            un(p)
        }
    };
    if want.len() == vs.len() {
        return Err(format!("change reported without repeats: {}", show(&got, closed)));
    }
    if got.is_empty() {
        return Err("a non-empty polyline became empty".into());
    }
    for i in 0..got.len() {
        let j = (i + 1) % got.len();
        if i != j && (j > 0 || closed) && near(got[i], got[j], eps) {
            return Err(format!("repeat left between {i} and {j}: {}", show(&got, closed)));
        }
    }
    if got.len() != want.len() || got.iter().zip(&want).any(|(a, b)| a != b) {
        return Err(format!("result {}, expected {}", show(&got, closed), show(&want, closed)));
    }
    // copying with removal agrees
    let c: Polyline<f64> = PlineCreation::create_from_remove_repeat(&pl, eps);
    if un(&c) != got {
        return Err(format!("create_from_remove_repeat gives {}", show(&un(&c), closed)));
    }
    Ok(())
}

// ---------------------------------------------------------------- E03

pub fn e03(t: &mut Tape, ctx: &mut Ctx) -> Result<(), String> {
    let eps = *t.pick(&[1e-5, 1e-5, 1e-5, 1e-6, 1e-4]);
    let closed = t.chance(1, 2);
    let mut in_line = false;
    let base = match t.weighted(&[4, 3, 2, 2]) {
        0 => gen::wild(t, 2, 7, closed),
        1 => {
            let mut vs = gen::simple_closed(t, 1.0, 30.0);
            if !closed {
                let keep = 2 + t.idx(vs.len() - 1);
                vs.truncate(keep);
            }
            vs
        }
        2 => {
            // pieces of one circle, more than a half turn allowed
            let (c, r) = (pt(t.f(-20.0, 20.0), t.f(-20.0, 20.0)), t.logf(0.5, 50.0));
            let n = 2 + t.idx(8);
            let dir = *t.pick(&[1.0, -1.0]);
            let a0 = t.f(0.0, 6.28);
            let turn = if closed { std::f64::consts::TAU } else { t.f(0.5, 6.2) };
            let parts: Vec<f64> = (0..n).map(|_| 1.0 + t.unit()).collect();
            let sum: f64 = parts.iter().sum();
            let mut a = a0;
            let mut vs = Vec::new();
            for p in &parts {
                let s = turn * p / sum;
                let b = (s / 4.0).tan() * dir;
                if b.abs() > 1.0 {
                    ctx.discard();
                    return Ok(());
                }
                vs.push(v(c.x + r * a.cos(), c.y + r * a.sin(), b));
                a += s * dir;
            }
            if !closed {
                vs.push(v(c.x + r * a.cos(), c.y + r * a.sin(), *t.pick(&[0.0, 0.3])));
            }
            vs
        }
        _ => {
            // pieces of one line, back and forth
            let n = 2 + t.idx(6);
            let d = pt(t.f(-1.0, 1.0), t.f(-1.0, 1.0));
            let d = if d.len() < 0.1 { pt(1.0, 0.0) } else { d.unit() };
            let mut at = 0.0;
            let mut vs = Vec::new();
            for _ in 0..n {
                vs.push(v(d.x * at, d.y * at, 0.0));
                at += *t.pick(&[1.0, 2.0, 0.5, -0.7]);
            }
            if t.chance(1, 2) {
                vs.push(v(d.x * at - d.y, d.y * at + d.x, *t.pick(&[0.0, 0.5])));
            } else {
                in_line = true;
            }
            vs
        }
    };
    let mut vs = base;
    if t.chance(1, 4) {
        // down to a few tolerances in size
        let k = t.logf(10.0 * eps, 1.0) / Path::new(&vs, closed).len().max(1.0);
        vs = Sim { s: k, ..Sim::id() }.vs(&vs);
        // arcs of about the tolerance in radius are points to the library (a half turn is within
        // the tolerance of a full one): straighten them
        let path = Path::new(&vs, closed);
        for (q, s) in vs.iter_mut().zip(&path.segs) {
            if s.arc.as_ref().is_some_and(|a| a.r < 5.0 * eps) {
                q.b = 0.0;
            }
        }
        ctx.class("tiny");
    }
    for _ in 0..t.idx(3) {
        vs = gen::subdivide(t, &vs, closed);
    }
    if closed && vs.len() > 1 && t.chance(1, 2) {
        let k = t.idx(vs.len());
        vs = rotated(&vs, k);
    }
    let mut jittered = false;
    if t.chance(1, 3) {
        jittered = t.chance(1, 2);
        vs = with_repeats(t, &vs, closed, if jittered { eps } else { 0.0 }, 1, 4);
        ctx.class("repeats");
    }
    ctx.note(|| format!("{} eps {eps:?}", show(&vs, closed)));
    let pl = mk(&vs, closed);
    let norep = match pl.remove_repeat_pos(eps) {
        Some(p) => un(&p),
        None => vs.clone(),
    };
    let opath = Path::new(&norep, closed);
    let minlen = opath.segs.iter().map(|s| s.len()).fold(f64::INFINITY, f64::min);
    if norep.len() < 2 || minlen < 2.0 * eps || opath.segs.iter().filter_map(|s| s.arc.as_ref()).any(|k| k.r > 1e4) {
        ctx.discard();
        return Ok(());
    }
    let r = no_panic("remove_redundant", || pl.remove_redundant(eps))?;
    let got = match &r {
        None => vs.clone(),
        Some(p) => {
            if p.is_closed() != closed {
                return Err("open/closed state changed".into());
            }
            un(p)
        }
    };
    ctx.nontrivial = r.is_some();
    ctx.class(match (r.is_some(), closed) {
        (false, _) => "unchanged",
        (true, true) => "closed",
        (true, false) => "open",
    });
    if r.is_some() && got.len() >= vs.len() {
        return Err(format!("change reported with {} vertexes out of {}: {}", got.len(), vs.len(), show(&got, closed)));
    }
    // the tolerance is a distance for positions and an area for three vertexes in line; each
    // dropped vertex may move the path that much
    let tol = (2 + vs.len()) as f64 * 1.5 * eps / if in_line && !jittered { 1.0 } else { minlen.min(1.0) } + 1e-8;
    if tol > 0.3 * minlen {
        ctx.class("too-small-to-compare");
        return if got.is_empty() { Err("a non-empty polyline became empty".into()) } else { Ok(()) };
    }
    let gpath = Path::new(&got, closed);
    // the start may move to another vertex of a closed polyline
    let mut err = String::new();
    let mut ok = false;
    for k in 0..norep.len() {
        if k > 0 && !closed {
            break;
        }
        if norep[k].p().dist(got.first().map_or(pt(f64::NAN, 0.0), |q| q.p())) > 3.0 * eps {
            continue;
        }
        match same_run(&Path::new(&rotated(&norep, k), closed), &gpath, tol) {
            Ok(()) => {
                ok = true;
                break;
            }
            Err(e) => err = e,
        }
    }
    if !ok {
        return Err(format!("the path changed: result {}: {err}", show(&got, closed)));
    }
    if !closed && (got[0].p().dist(norep[0].p()) > 2.0 * eps || got.last().unwrap().p().dist(norep.last().unwrap().p()) > 2.0 * eps) {
        return Err(format!("end points changed: {}", show(&got, closed)));
    }
    // nothing clearly redundant is left (moved repeats disturb arcs by more than the tolerance)
    if jittered {
        return Ok(());
    }
    let n = got.len();
    for j in 0..n {
        let (i, k) = if closed { ((j + n - 1) % n, (j + 1) % n) } else if j == 0 || j + 1 == n { continue } else { (j - 1, j + 1) };
        if n < 3 {
            break;
        }
        let (a, b) = (Seg::new(got[i].p(), got[j].p(), got[i].b), Seg::new(got[j].p(), got[k].p(), got[j].b));
        let (ta, tb) = (a.tan(1.0), b.tan(0.0));
        let redundant = match (&a.arc, &b.arc) {
            (None, None) => (a.b - a.a).cross(b.b - b.a).abs() < 0.05 * eps && ta.dot(tb) > 0.1,
            (Some(x), Some(y)) => {
                x.c.dist(y.c) < 0.05 * eps
                    && (x.r - y.r).abs() < 0.05 * eps
                    && x.sweep * y.sweep > 0.0
                    && x.r * (x.sweep.abs() + y.sweep.abs()) < x.r * std::f64::consts::PI - 4.0 * eps
            }
            _ => false,
        };
        if redundant {
            return Err(format!("vertex {j} of the result is redundant: {}", show(&got, closed)));
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- E04

pub fn e04(t: &mut Tape, ctx: &mut Ctx) -> Result<(), String> {
    let (vs, closed) = any_pline(t, 0, 10);
    ctx.note(|| show(&vs, closed));
    let n = vs.len();
    let path = Path::new(&vs, closed);
    let tol = 1e-10 + path.segs.iter().map(crate::prop_geom::seg_tol).fold(0.0, f64::max) * 10.0;
    match t.below(4) {
        0 => {
            ctx.class("reverse");
            let mut p = mk(&vs, closed);
            p.invert_direction_mut();
            ctx.nontrivial = n > 1;
            let got = un(&p);
            let want = reversed(&vs, closed);
            // the last bulge of an open polyline describes nothing
            let m = if closed || n < 2 { n } else { n - 1 };
            let w = if n < 2 { vs.clone() } else { want };
            if p.is_closed() != closed || got.len() != n || (0..m).any(|i| got[i] != w[i]) || (n > 0 && got[n - 1].p() != w[n - 1].p()) {
                return Err(format!("reversed gives {}, expected {}", show(&got, closed), show(&w, closed)));
            }
            p.invert_direction_mut();
            let got = un(&p);
            if (0..m).any(|i| got[i] != vs[i]) || (n > 0 && got[n - 1].p() != vs[n - 1].p()) {
                return Err(format!("reversed twice gives {}", show(&got, closed)));
            }
        }
        1 => {
            ctx.class("translate");
            ctx.nontrivial = n > 0;
            let (dx, dy) = (t.f(-100.0, 100.0), t.f(-100.0, 100.0));
            let mut p = mk(&vs, closed);
            p.translate_mut(dx, dy);
            let got = un(&p);
            if p.is_closed() != closed || got.len() != n || got.iter().zip(&vs).any(|(g, q)| g.p().dist(pt(q.x + dx, q.y + dy)) > 1e-9 || g.b != q.b) {
                return Err(format!("moved by {dx:?} {dy:?} gives {}", show(&got, closed)));
            }
        }
        2 => {
            ctx.class("scale");
            ctx.nontrivial = n > 1;
            let k = t.logf(0.05, 20.0) * *t.pick(&[1.0, -1.0]);
            let mut p = mk(&vs, closed);
            p.scale_mut(k);
            let gp = path_of(&p);
            if p.is_closed() != closed || p.vertex_count() != n {
                return Err("state changed".into());
            }
            for (i, s) in path.segs.iter().enumerate() {
                for f in [0.0, 0.3, 0.5, 1.0] {
                    if gp.segs[i].at(f).dist(s.at(f) * k) > tol * (1.0 + k.abs()) {
                        return Err(format!("scaled by {k:?} gives {}", show(&un(&p), closed)));
                    }
                }
            }
            if n == 1 && un(&p)[0].p().dist(vs[0].p() * k) > tol {
                return Err("single vertex".into());
            }
        }
        _ => {
            ctx.class("re-root");
            let eps = 1e-5;
            let p = mk(&vs, closed);
            if !closed || n < 2 {
                ctx.class("refused");
                let q = vs.first().map_or(pt(0.0, 0.0), |q| q.p());
                return match p.rotate_start(0, vec2(q), eps) {
                    None => Ok(()),
                    Some(_) => Err("an open or single vertex polyline was re-rooted".into()),
                };
            }
            if p.rotate_start(n + t.idx(3), vec2(vs[0].p()), eps).is_some() {
                return Err("an index out of range was accepted".into());
            }
            ctx.nontrivial = true;
            let i = t.idx(n);
            let s = &path.segs[i];
            let (f, q) = match t.weighted(&[4, 1, 1, 1]) {
                0 => {
                    let f = t.unit();
                    (f, s.at(f))
                }
                1 => (0.0, s.a),
                2 => (1.0, s.b),
                _ => {
                    // just inside of the tolerance of an end
                    let d = 0.6 * eps;
                    if t.chance(1, 2) { (0.0, s.a + s.tan(0.0) * d) } else { (1.0, s.b - s.tan(1.0) * d) }
                }
            };
            ctx.note(|| format!("re-root on segment {i} at fraction {f:?}, {q:?}"));
            let Some(r) = p.rotate_start(i, vec2(q), eps) else { return Err("re-rooting was refused".into()) };
            if !r.is_closed() {
                return Err("result is open".into());
            }
            let got = un(&r);
            if got[0].p().dist(q) > 1.5 * eps {
                return Err(format!("result starts at {:?} instead of {q:?}", got[0]));
            }
            let whole = got.len() == n;
            if !whole && got.len() != n + 1 {
                return Err(format!("{} vertexes out of {n}", got.len()));
            }
            // same loop from there: original rotated with the segment split by independent geometry
            let want: Vec<V> = if f <= 0.0 {
                rotated(&vs, i)
            } else if f >= 1.0 {
                rotated(&vs, (i + 1) % n)
            } else {
                let (u, w) = (s.sub(0.0, f), s.sub(f, 1.0));
                let mut r: Vec<V> = rotated(&vs, (i + 1) % n);
                let l = r.len() - 1;
                r[l].b = if s.arc.is_some() { u.bulge } else { vs[i].b };
                r.insert(0, v(q.x, q.y, w.bulge));
                r
            };
            if let Err(e) = same_run(&Path::new(&want, true), &Path::new(&got, true), 2e-5) {
                return Err(format!("re-rooted polyline {} differs: {e}", show(&got, true)));
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- E05

pub fn e05(t: &mut Tape, ctx: &mut Ctx) -> Result<(), String> {
    let (vs, closed) = any_pline(t, 0, 8);
    let path = Path::new(&vs, closed);
    let rmax = path.segs.iter().filter_map(|s| s.arc.as_ref()).map(|k| k.r).fold(0.1, f64::max);
    let rmin = path.segs.iter().filter_map(|s| s.arc.as_ref()).map(|k| k.r).fold(rmax, f64::min);
    let e = match t.weighted(&[4, 2, 1]) {
        0 => rmax.min(1e3) * t.logf(1e-4, 3.0),
        1 => rmin * t.logf(0.2, 2.0),
        _ => *t.pick(&[0.1, 0.01, 1.0, 10.0]),
    };
    let e = e.max(rmax * 1e-6);
    ctx.note(|| format!("{} error {e:?}", show(&vs, closed)));
    let p = mk(&vs, closed);
    // (the sign of the error distance does not count)
    let signed = if t.chance(1, 6) { -e } else { e };
    let Some(r) = no_panic("arcs_to_approx_lines", || p.arcs_to_approx_lines(signed))? else {
        return Err("no result".into());
    };
    let got = un(&r);
    if r.is_closed() != closed {
        return Err("open/closed state changed".into());
    }
    let arcs = path.segs.iter().filter(|s| s.arc.is_some()).count();
    ctx.nontrivial = arcs > 0;
    if path.segs.is_empty() {
        if got.len() != vs.len() || got.iter().zip(&vs).any(|(a, b)| a.p() != b.p()) {
            return Err(format!("polyline without segments becomes {}", show(&got, closed)));
        }
        return Ok(());
    }
    let m = if closed { got.len() } else { got.len().max(1) - 1 };
    if got[..m].iter().any(|q| q.b.abs() > BULGE_ZERO) {
        return Err("arcs left".into());
    }
    let tol = 1e-9 + path.segs.iter().map(crate::prop_geom::seg_tol).fold(0.0, f64::max) * 20.0;
    // walk the segments and their pieces together
    let mut i = 0;
    for (k, s) in path.segs.iter().enumerate() {
        if i >= got.len() || got[i].p() != s.a {
            return Err(format!("original vertex {k} {:?} is not next (vertex {i} of {})", s.a, show(&got, closed)));
        }
        let mut pieces = vec![got[i].p()];
        i += 1;
        match &s.arc {
            None => {}
            Some(_) => {
                let mut last = 0.0;
                // end of the segment: exact position of the next original vertex
                while i < got.len() && got[i].p() != s.b {
                    let q = got[i].p();
                    if s.dist(q) > tol {
                        return Err(format!("approximation point {q:?} is {:?} off segment {k}", s.dist(q)));
                    }
                    let f = s.closest_t(q);
                    if f <= last {
                        return Err(format!("approximation points on segment {k} are not in order"));
                    }
                    last = f;
                    pieces.push(q);
                    i += 1;
                }
                pieces.push(s.b);
                if pieces.len() > 2 {
                    ctx.class("several-lines-per-arc");
                }
                let bound = e + tol + e * 1e-6;
                for w in pieces.windows(2) {
                    let (f0, f1) = (if w[0] == s.a { 0.0 } else { s.closest_t(w[0]) }, if w[1] == s.b { 1.0 } else { s.closest_t(w[1]) });
                    let l = Seg::new(w[0], w[1], 0.0);
                    for g in [0.25, 0.5, 0.75] {
                        let d = l.dist(s.at(f0 + (f1 - f0) * g));
                        let d2 = s.dist(l.at(g));
                        if d > bound || d2 > bound {
                            return Err(format!("a line for segment {k} is {:?} away from the arc, allowed {e:?} (radius {:?})", d.max(d2), s.arc.as_ref().unwrap().r));
                        }
                    }
                }
            }
        }
    }
    let end = if closed { got.len() } else { got.len() - 1 };
    if i != end || (!closed && got[i].p() != vs[vs.len() - 1].p()) {
        return Err(format!("vertexes left over or end point missing: {}", show(&got, closed)));
    }
    Ok(())
}

