//! D01: values written out and read back, and damaged documents.
use crate::pack;
use cavalier_contours::core::math::Vector2;
use cavalier_contours::polyline::{
    BooleanOp, BooleanPlineSlice, BooleanResultPline, PlineSource, PlineSourceMut, PlineVertex, PlineViewData, Polyline,
};
use cavver::gen;
use cavver::run::{no_panic, Ctx};
use cavver::tape::Tape;
use cavver::util::mk;
use serde::de::DeserializeOwned;
use serde::Serialize;
use serde_json::Value;

/// Numbers the types are generic over.
trait N: cavalier_contours::core::traits::Real + Serialize + DeserializeOwned + std::fmt::Debug {
    fn any(t: &mut Tape) -> Self;
    fn bits(self) -> u64;
    fn text(self) -> String;
}
impl N for f64 {
    fn any(t: &mut Tape) -> f64 {
        match t.weighted(&[3, 2, 3, 2]) {
            0 => t.int(-20, 20) as f64 / 4.0,
            1 => *t.pick(&[0.0, -0.0, 1.0, -1.0, 0.1, 1e-5, 1e300, 5e-324, f64::MIN_POSITIVE, f64::MAX, -f64::MAX, 1e15, 123456789.123456789, 2f64.powi(53) + 1.0, 0.41421356237309503]),
            2 => {
                // any bit pattern of a finite number
                let hi = t.below(1 << 32);
                let lo = t.below(1 << 32);
                let x = f64::from_bits(hi << 32 | lo);
                if x.is_finite() { x } else { f64::from_bits(lo) }
            }
            _ => t.f(-1000.0, 1000.0) / 3.0,
        }
    }
    fn bits(self) -> u64 {
        self.to_bits()
    }
    fn text(self) -> String {
        format!("{self:e}")
    }
}
impl N for f32 {
    fn any(t: &mut Tape) -> f32 {
        match t.weighted(&[3, 2, 3]) {
            0 => t.int(-20, 20) as f32 / 4.0,
            1 => *t.pick(&[0.0, -0.0, 1.0, 0.1, 1e-5, f32::MAX, f32::MIN_POSITIVE, 1e-45, 16777217.0]),
            _ => {
                let b = t.below(1 << 32) as u32;
                let x = f32::from_bits(b);
                if x.is_finite() { x } else { f32::from_bits(b & 0x7f7f_ffff) }
            }
        }
    }
    fn bits(self) -> u64 {
        self.to_bits() as u64
    }
    fn text(self) -> String {
        format!("{self:e}")
    }
}

/// A serializable type: its content as a list of words, and the document it is expected to have.
trait Val: Serialize + DeserializeOwned {
    fn make(t: &mut Tape) -> Self;
    fn words(&self, out: &mut Vec<u64>);
    fn doc(&self, t: &mut Tape) -> String;
}
fn words<X: Val>(x: &X) -> Vec<u64> {
    let mut o = Vec::new();
    x.words(&mut o);
    o
}
fn object(t: &mut Tape, mut fields: Vec<(&str, String)>) -> String {
    // fields may come in any order
    if t.chance(1, 2) {
        let k = t.idx(fields.len());
        fields.rotate_left(k);
    }
    let sp = *t.pick(&["", " ", "\n  "]);
    let f: Vec<String> = fields.iter().map(|(k, v)| format!("{sp}\"{k}\":{sp}{v}")).collect();
    format!("{{{}{sp}}}", f.join(","))
}

impl<T: N> Val for Vector2<T> {
    fn make(t: &mut Tape) -> Self {
        Vector2 { x: T::any(t), y: T::any(t) }
    }
    fn words(&self, o: &mut Vec<u64>) {
        o.extend([self.x.bits(), self.y.bits()]);
    }
    fn doc(&self, _: &mut Tape) -> String {
        format!("[{},{}]", self.x.text(), self.y.text())
    }
}
impl<T: N> Val for PlineVertex<T> {
    fn make(t: &mut Tape) -> Self {
        PlineVertex { x: T::any(t), y: T::any(t), bulge: T::any(t) }
    }
    fn words(&self, o: &mut Vec<u64>) {
        o.extend([self.x.bits(), self.y.bits(), self.bulge.bits()]);
    }
    fn doc(&self, _: &mut Tape) -> String {
        format!("[{},{},{}]", self.x.text(), self.y.text(), self.bulge.text())
    }
}
impl<T: N> Val for Polyline<T> {
    fn make(t: &mut Tape) -> Self {
        let n = t.weighted(&[1, 1, 2, 2, 2, 1]);
        let n = if n == 5 { t.int(5, 60) as usize } else { n };
        Polyline { vertex_data: (0..n).map(|_| PlineVertex::make(t)).collect(), is_closed: t.chance(1, 2) }
    }
    fn words(&self, o: &mut Vec<u64>) {
        o.push(self.is_closed as u64);
        o.push(self.vertex_data.len() as u64);
        for q in &self.vertex_data {
            q.words(o);
        }
    }
    fn doc(&self, t: &mut Tape) -> String {
        let vs: Vec<String> = self.vertex_data.iter().map(|q| q.doc(t)).collect();
        object(t, vec![("vertexes", format!("[{}]", vs.join(","))), ("isClosed", self.is_closed.to_string())])
    }
}
impl<T: N> Val for PlineViewData<T> {
    fn make(t: &mut Tape) -> Self {
        let big = [0usize, 1, 7, u32::MAX as usize + 3, usize::MAX];
        PlineViewData {
            start_index: *t.pick(&big),
            end_index_offset: *t.pick(&big),
            updated_start: PlineVertex::make(t),
            updated_end_bulge: T::any(t),
            end_point: Vector2::make(t),
            inverted_direction: t.chance(1, 2),
        }
    }
    fn words(&self, o: &mut Vec<u64>) {
        o.extend([self.start_index as u64, self.end_index_offset as u64]);
        self.updated_start.words(o);
        o.push(self.updated_end_bulge.bits());
        self.end_point.words(o);
        o.push(self.inverted_direction as u64);
    }
    fn doc(&self, t: &mut Tape) -> String {
        let f = vec![
            ("startIndex", self.start_index.to_string()),
            ("endIndexOffset", self.end_index_offset.to_string()),
            ("updatedStart", self.updated_start.doc(t)),
            ("updatedEndBulge", self.updated_end_bulge.text()),
            ("endPoint", self.end_point.doc(t)),
            ("invertedDirection", self.inverted_direction.to_string()),
        ];
        object(t, f)
    }
}
impl<T: N> Val for BooleanPlineSlice<T> {
    fn make(t: &mut Tape) -> Self {
        BooleanPlineSlice { view_data: PlineViewData::make(t), source_is_pline1: t.chance(1, 2), overlapping: t.chance(1, 2) }
    }
    fn words(&self, o: &mut Vec<u64>) {
        self.view_data.words(o);
        o.extend([self.source_is_pline1 as u64, self.overlapping as u64]);
    }
    fn doc(&self, t: &mut Tape) -> String {
        let f = vec![
            ("viewData", self.view_data.doc(t)),
            ("sourceIsPline1", self.source_is_pline1.to_string()),
            ("overlapping", self.overlapping.to_string()),
        ];
        object(t, f)
    }
}
impl Val for BooleanResultPline<Polyline<f64>> {
    fn make(t: &mut Tape) -> Self {
        // the result of a real operation, or made up
        if t.chance(1, 2) {
            let a = gen::simple_closed(t, 2.0, 8.0);
            let d = (t.f(-2.0, 2.0), t.f(-2.0, 2.0));
            let p = mk(&a, true);
            let mut q = p.clone();
            q.translate_mut(d.0, d.1);
            let op = *t.pick(&[BooleanOp::Or, BooleanOp::And, BooleanOp::Not, BooleanOp::Xor]);
            if let Ok(r) = no_panic("boolean", || p.boolean(&q, op)) {
                if let Some(x) = r.pos_plines.into_iter().chain(r.neg_plines).next() {
                    return x;
                }
            }
        }
        let n = t.idx(4);
        BooleanResultPline { pline: Polyline::make(t), subslices: (0..n).map(|_| BooleanPlineSlice::make(t)).collect() }
    }
    fn words(&self, o: &mut Vec<u64>) {
        self.pline.words(o);
        o.push(self.subslices.len() as u64);
        for s in &self.subslices {
            s.words(o);
        }
    }
    fn doc(&self, t: &mut Tape) -> String {
        let s: Vec<String> = self.subslices.iter().map(|s| s.doc(t)).collect();
        let p = self.pline.doc(t);
        object(t, vec![("pline", p), ("subslices", format!("[{}]", s.join(",")))])
    }
}

fn round<X: Val>(t: &mut Tape, ctx: &mut Ctx, name: &str) -> Result<(), String> {
    let x = X::make(t);
    let w = words(&x);
    ctx.nontrivial = w.len() >= 8;
    let text = serde_json::to_string(&x).map_err(|e| format!("{name}: cannot be written as JSON: {e}"))?;
    ctx.note(|| format!("{name} {text}"));
    let eq = |y: &X, how: &str| -> Result<(), String> {
        if words(y) == w {
            Ok(())
        } else {
            Err(format!("{name}: read back different through {how}: {}", serde_json::to_string(y).unwrap_or_default()))
        }
    };
    let bad = |how: &str, e: String| format!("{name}: cannot be read back through {how}: {e}");
    eq(&serde_json::from_str(&text).map_err(|e| bad("JSON text", e.to_string()))?, "JSON text")?;
    let pretty = serde_json::to_vec_pretty(&x).map_err(|e| bad("JSON bytes", e.to_string()))?;
    eq(&serde_json::from_slice(&pretty).map_err(|e| bad("JSON bytes", e.to_string()))?, "JSON bytes")?;
    eq(&serde_json::from_reader(&pretty[..]).map_err(|e| bad("a JSON stream", e.to_string()))?, "a JSON stream")?;
    let value = serde_json::to_value(&x).map_err(|e| bad("a JSON value", e.to_string()))?;
    eq(&serde_json::from_value(value.clone()).map_err(|e| bad("a JSON value", e.to_string()))?, "a JSON value")?;
    let bin = pack::to_bytes(&x).map_err(|e| bad("the compact form", e.to_string()))?;
    eq(&pack::from_bytes(&bin).map_err(|e| bad("the compact form", e.to_string()))?, "the compact form")?;
    // the document as users store it
    let doc = x.doc(t);
    let stored: X = serde_json::from_str(&doc).map_err(|e| format!("{name}: document {doc} is not accepted: {e}"))?;
    eq(&stored, "a stored document")?;
    // cut short, the compact form is refused
    let cut = t.idx(bin.len().max(1));
    if no_panic("reading the compact form cut short", || pack::from_bytes::<X>(&bin[..cut]).is_ok())? {
        return Err(format!("{name}: {cut} of {} bytes are accepted", bin.len()));
    }
    // bytes changed: any answer, no panic (a length is not believed blindly)
    let mut b2 = bin.clone();
    for _ in 0..t.int(1, 3) {
        let i = t.idx(b2.len().max(1));
        if i < b2.len() {
            b2[i] = t.below(256) as u8;
        }
    }
    no_panic("reading a damaged compact form", || pack::from_bytes::<X>(&b2).is_ok())?;
    Ok(())
}

/// Every place in a document, by path of keys and indexes.
fn places(v: &Value, at: &mut Vec<String>, out: &mut Vec<Vec<String>>) {
    out.push(at.clone());
    match v {
        Value::Array(a) => {
            for (i, x) in a.iter().enumerate() {
                at.push(i.to_string());
                places(x, at, out);
                at.pop();
            }
        }
        Value::Object(o) => {
            for (k, x) in o {
                at.push(k.clone());
                places(x, at, out);
                at.pop();
            }
        }
        _ => {}
    }
}
fn at_mut<'a>(v: &'a mut Value, path: &[String]) -> &'a mut Value {
    let mut v = v;
    for k in path {
        v = match v {
            Value::Array(a) => &mut a[k.parse::<usize>().unwrap()],
            Value::Object(o) => o.get_mut(k).unwrap(),
            _ => unreachable!(),
        };
    }
    v
}

fn damage<X: Val>(t: &mut Tape, ctx: &mut Ctx, name: &str) -> Result<(), String> {
    ctx.nontrivial = true;
    ctx.class("damaged");
    let x = X::make(t);
    let text = serde_json::to_string(&x).map_err(|e| format!("{name}: cannot be written as JSON: {e}"))?;
    // damage whose outcome is known: the document must be refused
    let mut v: Value = serde_json::from_str(&text).map_err(|e| e.to_string())?;
    let mut all = Vec::new();
    places(&v, &mut Vec::new(), &mut all);
    let path = all[t.idx(all.len())].clone();
    let list = matches!(path.last().map(|s| s.as_str()), Some("vertexes") | Some("subslices"));
    let spot = at_mut(&mut v, &path);
    let what = match spot {
        Value::Array(a) if !list => {
            if t.chance(1, 2) || a.is_empty() {
                a.push(Value::from(1.5));
                "a vertex or point with a number too many"
            } else {
                a.pop();
                "a vertex or point with a number missing"
            }
        }
        Value::Array(_) => {
            *spot = t.pick(&[Value::from(1), Value::from("x"), Value::Null, Value::from(false)]).clone();
            "something else in place of a list"
        }
        Value::Object(o) => {
            let keys: Vec<String> = o.keys().cloned().collect();
            let k = keys[t.idx(keys.len())].clone();
            let gone = o.remove(&k).unwrap();
            if t.chance(1, 2) {
                o.insert(format!("{k}_"), gone);
                "a renamed field"
            } else {
                "a missing field"
            }
        }
        Value::Number(n) if n.is_u64() && t.chance(1, 2) && path.last().is_some_and(|k| k.contains("ndex")) => {
            *spot = t.pick(&[Value::from(-1), Value::from(0.5), Value::from(1e300)]).clone();
            "a negative or fractional index"
        }
        Value::Number(_) => {
            *spot = t.pick(&[Value::from("1"), Value::Null, Value::from(true), Value::from(vec![1])]).clone();
            "something else in place of a number"
        }
        _ => {
            *spot = t.pick(&[Value::from("true"), Value::Null, Value::from(1), Value::from(vec![true])]).clone();
            "something else in place of a truth value"
        }
    };
    let bad = serde_json::to_string(&v).map_err(|e| e.to_string())?;
    ctx.note(|| format!("{name} {bad}"));
    if no_panic(what, || serde_json::from_str::<X>(&bad).is_ok())? {
        return Err(format!("{name}: a document with {what} is accepted: {bad}"));
    }
    if no_panic(what, || serde_json::from_value::<X>(v).is_ok())? {
        return Err(format!("{name}: a value tree with {what} is accepted: {bad}"));
    }
    let cut = t.idx(text.len());
    if no_panic("a document cut short", || serde_json::from_str::<X>(&text[..cut]).is_ok())? {
        return Err(format!("{name}: a document cut short is accepted: {}", &text[..cut]));
    }
    // damage with unknown outcome: no panic, and what is accepted is a proper value
    let mut b = text.into_bytes();
    for _ in 0..t.int(1, 4) {
        let i = t.idx(b.len().max(1));
        let c = *t.pick(b"0123456789-+.eE[]{},:\"tfnul \xff\\");
        match t.below(3) {
            0 if i < b.len() => b[i] = c,
            1 if i < b.len() => {
                b.remove(i);
            }
            _ => b.insert(i.min(b.len()), c),
        }
    }
    let y = no_panic("reading a damaged document", || serde_json::from_slice::<X>(&b))?;
    if let Ok(y) = y {
        ctx.class("damaged-but-accepted");
        let w = words(&y);
        let again = pack::to_bytes(&y).map_err(|e| e.to_string())?;
        let z: X = pack::from_bytes(&again).map_err(|e| format!("{name}: accepted {} but it cannot be written and read: {e}", String::from_utf8_lossy(&b)))?;
        if words(&z) != w {
            return Err(format!("{name}: accepted {} but it does not round-trip", String::from_utf8_lossy(&b)));
        }
    }
    Ok(())
}

pub fn d01(t: &mut Tape, ctx: &mut Ctx) -> Result<(), String> {
    let kind = t.weighted(&[3, 3, 5, 3, 2, 2, 1, 1, 1, 1]);
    let hurt = t.chance(2, 5);
    macro_rules! go {
        ($ty:ty, $name:expr) => {{
            ctx.class($name);
            if hurt {
                damage::<$ty>(t, ctx, $name)
            } else {
                round::<$ty>(t, ctx, $name)
            }
        }};
    }
    match kind {
        0 => go!(Vector2<f64>, "Vector2"),
        1 => go!(PlineVertex<f64>, "PlineVertex"),
        2 => go!(Polyline<f64>, "Polyline"),
        3 => go!(PlineViewData<f64>, "PlineViewData"),
        4 => go!(BooleanPlineSlice<f64>, "BooleanPlineSlice"),
        5 => go!(BooleanResultPline<Polyline<f64>>, "BooleanResultPline"),
        6 => go!(Vector2<f32>, "Vector2 f32"),
        7 => go!(PlineVertex<f32>, "PlineVertex f32"),
        8 => go!(Polyline<f32>, "Polyline f32"),
        _ => go!(PlineViewData<f32>, "PlineViewData f32"),
    }
}
