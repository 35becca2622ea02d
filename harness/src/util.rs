//! Bridging between plain vertex lists and the library's types.
use crate::geo::*;
use cavalier_contours::core::math::Vector2;
use cavalier_contours::polyline::{PlineSource, PlineSourceMut, Polyline};

pub fn mk(vs: &[V], closed: bool) -> Polyline<f64> {
    let mut p = Polyline::new();
    p.set_is_closed(closed);
    for q in vs {
        p.add(q.x, q.y, q.b);
    }
    p
}
pub fn un<P: PlineSource<Num = f64> + ?Sized>(p: &P) -> Vec<V> {
    let mut r = Vec::new();
    for i in 0..p.vertex_count() {
        let q = p.at(i);
        r.push(v(q.x, q.y, q.bulge));
    }
    r
}
pub fn path_of<P: PlineSource<Num = f64> + ?Sized>(p: &P) -> Path {
    Path::new(&un(p), p.is_closed())
}
pub fn vec2(p: Pt) -> Vector2<f64> {
    Vector2::new(p.x, p.y)
}
pub fn p2(p: Vector2<f64>) -> Pt {
    pt(p.x, p.y)
}
pub fn finite(vs: &[V]) -> bool {
    vs.iter().all(|q| q.x.is_finite() && q.y.is_finite() && q.b.is_finite())
}

/// Grow a box.
pub fn grow(b: [f64; 4], m: f64) -> [f64; 4] {
    [b[0] - m, b[1] - m, b[2] + m, b[3] + m]
}
pub fn join(a: [f64; 4], b: [f64; 4]) -> [f64; 4] {
    [a[0].min(b[0]), a[1].min(b[1]), a[2].max(b[2]), a[3].max(b[3])]
}
