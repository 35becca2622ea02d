//! Independent boundary decomposition of two simple closed outlines: every piece of either
//! boundary classified as inside, outside or shared with the other.
use crate::geo::*;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Where {
    In,
    Out,
    Same,
    Opp,
}

/// Pieces of `a` (all oriented as given) classified against `b`. None when unclear.
fn pieces(a: &Path, b: &Path) -> Option<Vec<(Seg, Where)>> {
    let mut out = Vec::new();
    for s in &a.segs {
        let mut ts = vec![0.0, 1.0];
        let mut add = |p: Pt| {
            let t = s.closest_t(p);
            if s.at(t).dist(p) < 1e-6 {
                ts.push(t);
            }
        };
        for t in &b.segs {
            if farther_than(s, t, 1e-9) {
                continue;
            }
            for c in crossings(s, t, 1e-9) {
                add(c.p);
            }
            if s.dist(t.a) < 1e-6 {
                add(t.a);
            }
            if s.dist(t.b) < 1e-6 {
                add(t.b);
            }
        }
        ts.sort_by(|x, y| x.partial_cmp(y).unwrap());
        let l = s.len();
        let mut i = 0;
        while i + 1 < ts.len() {
            if (ts[i + 1] - ts[i]) * l < 2e-6 {
                // drop an interior duplicate, keep 0 and 1
                if i + 2 < ts.len() {
                    ts.remove(i + 1);
                } else if i > 0 {
                    ts.remove(i);
                } else {
                    break;
                }
            } else {
                i += 1;
            }
        }
        for w in ts.windows(2) {
            let piece = s.sub(w[0], w[1]);
            let m = s.at(0.5 * (w[0] + w[1]));
            let q = s.at(w[0] + 0.37 * (w[1] - w[0]));
            let (dm, dq) = (b.dist(m), b.dist(q));
            let wh = if dm < 1e-7 && dq < 1e-7 {
                let o = b.segs.iter().min_by(|x, y| x.dist(m).partial_cmp(&y.dist(m)).unwrap())?;
                let d = s.tan(0.5 * (w[0] + w[1])).dot(o.tan(o.closest_t(m)));
                if d > 0.5 {
                    Where::Same
                } else if d < -0.5 {
                    Where::Opp
                } else {
                    return None;
                }
            } else if dm < 1e-7 {
                return None;
            } else if b.winding(m)? != 0 {
                Where::In
            } else {
                Where::Out
            };
            out.push((piece, wh));
        }
    }
    Some(out)
}

pub struct Decomp {
    pub a_area: f64,
    pub b_area: f64,
    pub and_area: f64,
    /// lengths of boundary pieces
    pub a_in: f64,
    pub a_out: f64,
    pub b_in: f64,
    pub b_out: f64,
    pub same: f64,
    pub opp: f64,
}

pub fn ccw(p: &Path) -> Path {
    if p.area() >= 0.0 {
        p.clone()
    } else {
        Path { segs: p.segs.iter().rev().map(|s| s.rev()).collect(), closed: true }
    }
}

pub fn decompose(a: &Path, b: &Path) -> Option<Decomp> {
    let (a, b) = (ccw(a), ccw(b));
    // common origin near the outlines limits cancellation in the area sums
    let o = a.segs[0].a;
    let sh = |p: &Path| Path {
        segs: p.segs.iter().map(|s| Seg::new(s.a - o, s.b - o, s.bulge)).collect(),
        closed: true,
    };
    let (a, b) = (sh(&a), sh(&b));
    let pa = pieces(&a, &b)?;
    let pb = pieces(&b, &a)?;
    let len = |v: &Vec<(Seg, Where)>, w: Where| v.iter().filter(|x| x.1 == w).map(|x| x.0.len()).sum::<f64>();
    let and_area = pa
        .iter()
        .filter(|x| x.1 == Where::In || x.1 == Where::Same)
        .chain(pb.iter().filter(|x| x.1 == Where::In))
        .map(|x| x.0.green())
        .sum();
    Some(Decomp {
        a_area: a.area(),
        b_area: b.area(),
        and_area,
        a_in: len(&pa, Where::In),
        a_out: len(&pa, Where::Out),
        b_in: len(&pb, Where::In),
        b_out: len(&pb, Where::Out),
        same: len(&pa, Where::Same),
        opp: len(&pa, Where::Opp),
    })
}

impl Decomp {
    pub fn area(&self, op: usize) -> f64 {
        match op {
            0 => self.a_area + self.b_area - self.and_area,
            1 => self.and_area,
            2 => self.a_area - self.and_area,
            _ => self.a_area + self.b_area - 2.0 * self.and_area,
        }
    }
    pub fn boundary(&self, op: usize) -> f64 {
        match op {
            0 => self.a_out + self.b_out + self.same,
            1 => self.a_in + self.b_in + self.same,
            2 => self.a_out + self.b_in + self.opp,
            _ => self.a_out + self.b_in + self.b_out + self.a_in + 2.0 * self.opp,
        }
    }
}
