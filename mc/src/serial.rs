//! J01: serialisation.

use crate::adapt::*;
use crate::core::*;
use crate::gen::*;
use crate::mesh::*;
use crate::surfaces::*;
use crate::check;
use curvo::prelude::*;
use nalgebra::Const;
use serde::de::value::{MapDeserializer, SeqDeserializer};
use serde::de::{DeserializeOwned, Deserializer, IntoDeserializer, Visitor};
use serde_json::Value;

pub fn table() -> Vec<(&'static str, fn(&Env))> {
    vec![("J01", j01)]
}

/// Input to be read: as `Value`, but maps keep their order and may repeat a field.
#[derive(Clone, Debug)]
enum Node {
    Leaf(Value),
    Seq(Vec<Node>),
    Map(Vec<(String, Node)>),
}

impl From<Value> for Node {
    fn from(v: Value) -> Node {
        match v {
            Value::Array(a) => Node::Seq(a.into_iter().map(Node::from).collect()),
            Value::Object(o) => Node::Map(o.into_iter().map(|(k, v)| (k, Node::from(v))).collect()),
            v => Node::Leaf(v),
        }
    }
}

impl Node {
    fn text(&self, out: &mut String) {
        match self {
            Node::Leaf(v) => *out += &v.to_string(),
            Node::Seq(a) => {
                for (i, x) in a.iter().enumerate() {
                    *out += if i == 0 { "[" } else { "," };
                    x.text(out);
                }
                *out += if a.is_empty() { "[]" } else { "]" };
            }
            Node::Map(m) => {
                for (i, (k, x)) in m.iter().enumerate() {
                    *out += if i == 0 { "{" } else { "," };
                    *out += &format!("{k:?}:");
                    x.text(out);
                }
                *out += if m.is_empty() { "{}" } else { "}" };
            }
        }
    }

    /// Numbers of the maps, in depth first order.
    fn maps(&self, at: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
        match self {
            Node::Leaf(_) => {}
            Node::Seq(a) => {
                for (i, x) in a.iter().enumerate() {
                    at.push(i);
                    x.maps(at, out);
                    at.pop();
                }
            }
            Node::Map(m) => {
                out.push(at.clone());
                for (i, (_, x)) in m.iter().enumerate() {
                    at.push(i);
                    x.maps(at, out);
                    at.pop();
                }
            }
        }
    }

    fn get(&mut self, at: &[usize]) -> &mut Node {
        match at.split_first() {
            None => self,
            Some((i, rest)) => match self {
                Node::Seq(a) => a[*i].get(rest),
                Node::Map(m) => m[*i].1.get(rest),
                Node::Leaf(_) => unreachable!(),
            },
        }
    }

    fn fields(&mut self) -> &mut Vec<(String, Node)> {
        match self {
            Node::Map(m) => m,
            _ => unreachable!(),
        }
    }

    fn items(&mut self) -> &mut Vec<Node> {
        match self {
            Node::Seq(m) => m,
            _ => unreachable!(),
        }
    }

    fn field(&mut self, name: &str) -> Option<&mut Node> {
        match self {
            Node::Map(m) => m.iter_mut().find(|(k, _)| k == name).map(|x| &mut x.1),
            _ => None,
        }
    }
}

impl<'de> IntoDeserializer<'de, serde_json::Error> for Node {
    type Deserializer = Node;
    fn into_deserializer(self) -> Node {
        self
    }
}

impl<'de> Deserializer<'de> for Node {
    type Error = serde_json::Error;

    fn deserialize_any<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value, Self::Error> {
        match self {
            Node::Leaf(v) => v.deserialize_any(visitor),
            Node::Seq(a) => {
                let mut d = SeqDeserializer::new(a.into_iter());
                let v = visitor.visit_seq(&mut d)?;
                d.end()?;
                Ok(v)
            }
            Node::Map(m) => {
                let mut d = MapDeserializer::new(m.into_iter());
                let v = visitor.visit_map(&mut d)?;
                d.end()?;
                Ok(v)
            }
        }
    }

    fn deserialize_option<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value, Self::Error> {
        match self {
            Node::Leaf(Value::Null) => visitor.visit_none(),
            x => visitor.visit_some(x),
        }
    }

    fn deserialize_newtype_struct<V: Visitor<'de>>(self, _: &'static str, visitor: V) -> Result<V::Value, Self::Error> {
        visitor.visit_newtype_struct(self)
    }

    serde::forward_to_deserialize_any! {
        bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf
        unit unit_struct seq tuple tuple_struct map struct enum identifier ignored_any
    }
}

fn near(a: &Value, b: &Value) -> bool {
    match (a, b) {
        (Value::Array(a), Value::Array(b)) => a.len() == b.len() && a.iter().zip(b).all(|(x, y)| near(x, y)),
        (Value::Object(a), Value::Object(b)) => a.len() == b.len() && a.iter().all(|(k, x)| b.get(k).is_some_and(|y| near(x, y))),
        (Value::Number(a), Value::Number(b)) => {
            let (x, y) = (a.as_f64().unwrap(), b.as_f64().unwrap());
            (x - y).abs() <= 1e-15 * x.abs().max(y.abs())
        }
        _ => a == b,
    }
}

/// What the objects under test offer.
trait Thing: Clone + Send + Sync + serde::Serialize + DeserializeOwned {
    fn same(&self, o: &Self) -> bool;
}

impl Thing for C2 {
    fn same(&self, o: &Self) -> bool {
        self == o
    }
}
impl Thing for C3 {
    fn same(&self, o: &Self) -> bool {
        self == o
    }
}
impl Thing for C3f {
    fn same(&self, o: &Self) -> bool {
        self == o
    }
}
impl Thing for S3 {
    fn same(&self, o: &Self) -> bool {
        let (a, b) = (surf_model(self), surf_model(o));
        a.pu == b.pu && a.pv == b.pv && a.ku == b.ku && a.kv == b.kv && a.cps == b.cps
    }
}
impl Thing for TrimmedSurface<f64> {
    fn same(&self, o: &Self) -> bool {
        self.surface().same(o.surface()) && self.exterior() == o.exterior() && self.interiors() == o.interiors()
    }
}
impl Thing for CompoundCurve<f64, Const<3>> {
    fn same(&self, o: &Self) -> bool {
        self == o
    }
}
impl Thing for CompoundCurve<f64, Const<4>> {
    fn same(&self, o: &Self) -> bool {
        self == o
    }
}
impl Thing for Region<f64> {
    fn same(&self, o: &Self) -> bool {
        self == o
    }
}

/// Read a map with the fields in some order, through both readers.
fn accept<T: Thing>(x: &T, v: &Value, n: &Node, what: &str, rec: &mut Rec) -> Res {
    rec.trans(1);
    match T::deserialize(n.clone()) {
        Ok(y) => check!(y.same(x), "changed", "{what}: another object is read"),
        Err(e) => return Err(Fail { kind: "refused".into(), detail: format!("{what}: {e}") }),
    }
    let mut t = String::new();
    n.text(&mut t);
    match serde_json::from_str::<T>(&t) {
        Ok(y) => check!(near(v, &serde_json::to_value(&y).unwrap()), "changed", "{what}, as text: another object is read"),
        Err(e) => return Err(Fail { kind: "refused".into(), detail: format!("{what}, as text: {e}") }),
    }
    Ok(())
}

fn refuse<T: Thing>(n: &Node, what: &str, rec: &mut Rec) -> Res {
    rec.trans(1);
    check!(T::deserialize(n.clone()).is_err(), "accepted", "{what} is accepted");
    let mut t = String::new();
    n.text(&mut t);
    check!(serde_json::from_str::<T>(&t).is_err(), "accepted", "{what}, as text, is accepted");
    Ok(())
}

/// Cut off an item or repeat the last one.
fn resized(n: &Node, at: &[usize], path: &dyn Fn(&mut Node) -> &mut Node, less: bool) -> Node {
    let mut m = n.clone();
    let s = path(m.get(at)).items();
    if less {
        s.pop();
    } else {
        let l = s.last().unwrap().clone();
        s.push(l);
    }
    m
}

fn thing<T: Thing>(x: &T, rec: &mut Rec) -> Res {
    let v = serde_json::to_value(x).map_err(|e| Fail { kind: "write".into(), detail: e.to_string() })?;
    let s = serde_json::to_string(x).map_err(|e| Fail { kind: "write".into(), detail: e.to_string() })?;
    rec.state(Canon::new().s(&s).get());
    let y: T = serde_json::from_str(&s).map_err(|e| Fail { kind: "refused".into(), detail: e.to_string() })?;
    check!(near(&v, &serde_json::to_value(&y).unwrap()), "changed", "another object is read");
    let n = Node::from(v.clone());
    accept(x, &v, &n, "fields by name", rec)?;
    // a second round
    let y = T::deserialize(n.clone()).map_err(|e| Fail { kind: "refused".into(), detail: e.to_string() })?;
    check!(serde_json::to_value(&y).unwrap() == v, "unstable", "written again, the object differs");
    let mut maps = vec![];
    n.maps(&mut vec![], &mut maps);
    for at in &maps {
        let names: Vec<String> = n.clone().get(at).fields().iter().map(|f| f.0.clone()).collect();
        for p in permutations(names.len()) {
            let mut m = n.clone();
            let f = m.get(at).fields();
            *f = p.iter().map(|i| f[*i].clone()).collect();
            accept(x, &v, &m, &format!("order {p:?} of {names:?} at {at:?}"), rec)?;
        }
        for i in 0..names.len() {
            let optional = names[i] == "exterior" && n.clone().get(at).field("surface").is_some();
            // left out
            if !optional {
                let mut m = n.clone();
                m.get(at).fields().remove(i);
                refuse::<T>(&m, &format!("{:?} without {:?}", at, names[i]), rec)?;
            }
            // repeated
            for j in 0..=names.len() {
                let mut m = n.clone();
                let f = m.get(at).fields();
                let c = f[i].clone();
                f.insert(j, c);
                refuse::<T>(&m, &format!("{at:?} with {:?} repeated at {j}", names[i]), rec)?;
            }
            // of another type
            let seq = matches!(n.clone().get(at).fields()[i].1, Node::Seq(_));
            let num = matches!(n.clone().get(at).fields()[i].1, Node::Leaf(Value::Number(_)));
            let mut others = vec![Node::Leaf(Value::Bool(true)), Node::Leaf(Value::from("1")), Node::Seq(vec![Node::Leaf(Value::from("x"))]), Node::Map(vec![("x".into(), Node::Leaf(Value::from(1)))]), Node::Leaf(Value::from(1.5)), Node::Leaf(Value::from(-1))];
            if !optional {
                others.push(Node::Leaf(Value::Null));
            }
            if !seq {
                others.push(Node::Seq(vec![]));
            }
            if !num {
                others.push(Node::Leaf(Value::from(1)));
            }
            for o in others {
                let mut m = n.clone();
                let what = format!("{at:?} with {:?} = {o:?}", names[i]);
                m.get(at).fields()[i].1 = o;
                refuse::<T>(&m, &what, rec)?;
            }
        }
        // numbers of control points and knots that do not fit the degrees
        let dirs: &[(&str, &str, usize)] = if names.contains(&"degree".to_string()) { &[("degree", "knots", 0)] } else if names.contains(&"u_degree".to_string()) { &[("u_degree", "u_knots", 0), ("v_degree", "v_knots", 1)] } else { &[] };
        for (degree, knots, depth) in dirs {
            for less in [true, false] {
                let k = resized(&n, at, &|x| x.field(knots).unwrap(), less);
                // knots out of order
                let mut o = n.clone();
                let l = o.get(at).field(knots).unwrap().items();
                let last = l.len() - 1;
                l.swap(0, last);
                refuse::<T>(&o, &format!("{at:?} with the first and last of {knots} exchanged"), rec)?;
                refuse::<T>(&k, &format!("{at:?} with a knot {} in {knots}", if less { "less" } else { "more" }), rec)?;
                let c = if *depth == 0 {
                    resized(&n, at, &|x| x.field("control_points").unwrap(), less)
                } else {
                    let mut m = n.clone();
                    for row in m.get(at).field("control_points").unwrap().items() {
                        let r = row.items();
                        if less {
                            r.pop();
                        } else {
                            let l = r.last().unwrap().clone();
                            r.push(l);
                        }
                    }
                    m
                };
                refuse::<T>(&c, &format!("{at:?} with a control point {} along {degree}", if less { "less" } else { "more" }), rec)?;
                let mut m = n.clone();
                if let Node::Leaf(d) = m.get(at).field(degree).unwrap() {
                    let p = d.as_u64().unwrap();
                    *d = Value::from(if less { p - 1 } else { p + 1 });
                }
                refuse::<T>(&m, &format!("{at:?} with another {degree}"), rec)?;
            }
            // no point at all
            let mut m = n.clone();
            m.get(at).field("control_points").unwrap().items().clear();
            refuse::<T>(&m, &format!("{at:?} without any control point"), rec)?;
        }
        if dirs.len() == 2 {
            // rows of different lengths
            let rows = n.clone().get(at).field("control_points").unwrap().items().len();
            for i in 0..rows {
                for less in [true, false] {
                    let m = resized(&n, at, &|x| &mut x.field("control_points").unwrap().items()[i], less);
                    refuse::<T>(&m, &format!("{at:?} with a row of another length"), rec)?;
                }
            }
        }
    }
    Ok(())
}

fn all<T: Thing>(env: &Env, what: &str, items: &[(String, T)]) {
    env.note(format!("{} {what}: every order, omission, repetition, wrong type and wrong count of the fields of each map", items.len()));
    env.par(items, |(name, x), rec| {
        rec.case(&format!("{}.{name}", what.replace(' ', "_")), |rec| {
            thing(x, rec)?;
            rec.outcome(what);
            Ok(())
        });
    });
}

fn j01(env: &Env) {
    let th = env.thorough();
    let mut ks = vec![];
    for p in 1..=if th { 5 } else { 3 } {
        ks.extend(clamped(p, if th { 3 } else { 2 }, if th { 4 } else { 2 }));
        ks.extend(unclamped(p, 1, 1));
        ks.extend(repeated_ends(p));
    }
    let (ws, ps): (&[char], &[char]) = if th { (&['1', 'a', 'g'], &['g', 'w', 'c']) } else { (&['1', 'g'], &['g', 'c']) };
    let c2: Vec<(String, C2)> = curves(&ks, ws, ps, 2).into_iter().map(|s| (s.name, C2::make(s.m.p, &s.m.cps, &s.m.knots).unwrap())).collect();
    let c3: Vec<(String, C3)> = curves(&ks, ws, &['g'], 3).into_iter().map(|s| (s.name, C3::make(s.m.p, &s.m.cps, &s.m.knots).unwrap())).collect();
    let c3f: Vec<(String, C3f)> = curves(&ks, &['g'], &['g'], 3)
        .into_iter()
        .map(|s| (s.name, C3f::try_new(s.m.p, s.m.cps.iter().map(|c| hpf::<4>(c)).collect(), s.m.knots.iter().map(|k| *k as f32).collect()).unwrap()))
        .collect();
    all(env, "plane curves", &c2);
    // objects that operations have made
    let mut made: Vec<(String, C2)> = vec![];
    for (i, (n, c)) in c2.iter().enumerate() {
        let (a, b) = c.knots_domain();
        made.push((format!("{n}.inverse"), c.inverse()));
        if let Ok((l, r)) = c.split(a + (b - a) * [0.3, 0.5, 0.8][i % 3]) {
            made.push((format!("{n}.left"), l.inverse()));
            made.push((format!("{n}.right"), r));
        }
        if let Ok(e) = c.elevate(c.degree() + 1) {
            made.push((format!("{n}.elevated"), e));
        }
    }
    all(env, "made curves", &made);
    all(env, "space curves", &c3);
    all(env, "single precision curves", &c3f);
    let dk = dir_knots(if th { 3 } else { 2 }, th);
    let mut ss = vec![];
    for ku in &dk {
        for kv in &dk {
            for w in ['1', 'g'] {
                let s = surface(ku, kv, w, 'w');
                ss.push((s.name, mks(&s.m)));
            }
        }
    }
    all(env, "surfaces", &ss);
    // trimmed surfaces: any combination of boundaries
    let mut ts = vec![];
    let bounds: Vec<C2> = c2.iter().step_by(17).take(4).map(|c| c.1.clone()).collect();
    for (i, (name, s)) in ss.iter().enumerate().step_by(if th { 7 } else { 9 }) {
        for e in 0..3 {
            for h in 0..3 {
                let ex = if e == 0 { None } else { Some(bounds[e].clone()) };
                ts.push((format!("{name}.{e}{h}"), TrimmedSurface::new(s.clone(), ex, (0..h).map(|k| bounds[(k + i) % 4].clone()).collect())));
            }
        }
    }
    all(env, "trimmed surfaces", &ts);
    // chains and regions
    let mut ch = vec![];
    let mut rs = vec![];
    let ls = shapes((0.5, -0.25), 1.3, (1.0, 0.7));
    for l in ls.iter() {
        for (n, l) in [(l.name.clone(), l.compound()), (format!("{}-", l.name), l.reversed().compound())] {
            for h in 0..3usize {
                let hs: Vec<CompoundCurve<f64, Const<3>>> = (0..h).map(|k| ls[(k * 3 + n.len()) % ls.len()].compound()).collect();
                rs.push((format!("{n}.{h}"), Region::new(l.clone(), hs)));
            }
            ch.push((n, l));
        }
    }
    all(env, "plane chains", &ch);
    all(env, "regions", &rs);
    let mut sc = vec![];
    for k in 1..=3usize {
        for (i, w) in c3.windows(k).enumerate().step_by(if th { 3 } else { 11 }) {
            let spans: Vec<C3> = w.iter().map(|c| c.1.clone()).collect();
            sc.push((format!("{k}.{i}"), spans.into_iter().collect::<CompoundCurve<f64, Const<4>>>()));
        }
    }
    all(env, "space chains", &sc);
}
