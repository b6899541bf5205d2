//! X01, X02, X03: intersections.

use crate::adapt::*;
use crate::boxes::*;
use crate::core::*;
use crate::curves::*;
use crate::gen::*;
use crate::model::*;
use crate::surfaces::*;
use crate::{check, fail};
use curvo::prelude::*;
use nalgebra::{Point2, Point3, Vector2, Vector3};
use std::f64::consts::TAU;

pub fn table() -> Vec<(&'static str, fn(&Env))> {
    vec![("X01", x01), ("X02", x02), ("X03", x03)]
}

type P2 = (f64, f64);

/// A crossing of two plane curves: parameters, point, sine of the angle.
#[derive(Clone, Debug)]
pub struct Cross {
    pub s: f64,
    pub t: f64,
    pub p: P2,
    pub sin: f64,
}

/// A curve as a fine polyline with parameters.
pub fn trail(m: &MC, per: usize) -> Vec<(f64, P2)> {
    let mut out = vec![];
    let br = m.breaks();
    let n = if m.p == 1 { 1 } else { per };
    for w in br.windows(2) {
        for i in 0..n {
            let u = w[0] + (w[1] - w[0]) * i as f64 / n as f64;
            let p = m.pt(u);
            out.push((u, (p[0], p[1])));
        }
    }
    let u = *br.last().unwrap();
    let p = m.pt(u);
    out.push((u, (p[0], p[1])));
    out
}

fn seg_seg(a: P2, b: P2, c: P2, d: P2) -> f64 {
    let o = |a: P2, b: P2, c: P2| (b.0 - a.0) * (c.1 - a.1) - (b.1 - a.1) * (c.0 - a.0);
    if o(a, b, c) * o(a, b, d) < 0.0 && o(c, d, a) * o(c, d, b) < 0.0 {
        return 0.0;
    }
    seg_dist(a, b, c).min(seg_dist(a, b, d)).min(seg_dist(c, d, a)).min(seg_dist(c, d, b))
}

/// The arrangement of two plane curves: all of their crossings, and how general their position is.
pub struct Meet {
    pub crossings: Vec<Cross>,
    /// least distance of parts of the curves that do not belong to a crossing
    pub clear: f64,
    /// least sine of the crossing angles
    pub sin: f64,
    /// least distance of a crossing from another one, from the ends of the curves and from their breaks
    pub apart: f64,
    /// least distance of two crossings in the parameters, as a part of the domain
    pub steps: f64,
}

pub fn meet(a: &MC, b: &MC, per: usize) -> Meet {
    let (ta, tb) = (trail(a, per), trail(b, per));
    let mut found: Vec<Cross> = vec![];
    let mut near: Vec<(f64, P2, P2)> = vec![];
    let h = |v: &[(f64, P2)]| v.windows(2).map(|w| ((w[1].1 .0 - w[0].1 .0).powi(2) + (w[1].1 .1 - w[0].1 .1).powi(2)).sqrt()).fold(0.0, f64::max);
    // how far a chord is off its arc
    let slack = 0.02;
    let _ = h;
    for x in ta.windows(2) {
        for y in tb.windows(2) {
            let d = seg_seg(x[0].1, x[1].1, y[0].1, y[1].1);
            if d > 0.12 {
                continue;
            }
            if d < slack {
                // Newton from the middle
                let (mut s, mut t) = (0.5 * (x[0].0 + x[1].0), 0.5 * (y[0].0 + y[1].0));
                let (sd, td) = (a.domain(), b.domain());
                let mut ok = false;
                for _ in 0..40 {
                    let (da, db) = (a.ders(s, 1, Side::Right), b.ders(t, 1, Side::Right));
                    let (fx, fy) = (db[0][0] - da[0][0], db[0][1] - da[0][1]);
                    let det = -da[1][0] * db[1][1] + da[1][1] * db[1][0];
                    if det.abs() < 1e-14 {
                        break;
                    }
                    let ds = (-fx * db[1][1] + fy * db[1][0]) / det;
                    let dt = (da[1][0] * fy - da[1][1] * fx) / det;
                    // stay near
                    let (ls, lt) = (x[1].0 - x[0].0, y[1].0 - y[0].0);
                    s = (s + ds).clamp(x[0].0 - ls, x[1].0 + ls).clamp(sd.0, sd.1);
                    t = (t + dt).clamp(y[0].0 - lt, y[1].0 + lt).clamp(td.0, td.1);
                    if ds.abs() < 1e-14 * (sd.1 - sd.0) && dt.abs() < 1e-14 * (td.1 - td.0) {
                        ok = true;
                        break;
                    }
                    ok = (fx * fx + fy * fy).sqrt() < 1e-12;
                }
                let (pa, pb) = (a.pt(s), b.pt(t));
                if ok && dist(&pa, &pb) < 1e-9 {
                    if !found.iter().any(|c| (c.p.0 - pa[0]).hypot(c.p.1 - pa[1]) < 1e-7) {
                        let (da, db) = (a.ders(s, 1, Side::Right), b.ders(t, 1, Side::Right));
                        let sin = (da[1][0] * db[1][1] - da[1][1] * db[1][0]).abs() / (norm(&da[1]) * norm(&db[1]));
                        found.push(Cross { s, t, p: (pa[0], pa[1]), sin });
                    }
                }
            }
            near.push((d, x[0].1, x[1].1));
        }
    }
    let mut clear = f64::INFINITY;
    for (d, p, q) in near {
        // parts next to a crossing are excused
        if !found.iter().any(|c| seg_dist(p, q, c.p) < 0.12) {
            clear = clear.min(d);
        }
    }
    let mut apart = f64::INFINITY;
    for (i, c) in found.iter().enumerate() {
        for o in &found[..i] {
            apart = apart.min((c.p.0 - o.p.0).hypot(c.p.1 - o.p.1));
        }
        for m in [a, b] {
            for k in m.breaks() {
                let smooth = k > m.domain().0 && k < m.domain().1 && m.p > 1;
                if !smooth {
                    let p = m.pt(k);
                    apart = apart.min((c.p.0 - p[0]).hypot(c.p.1 - p[1]));
                }
            }
        }
    }
    let mut steps = f64::INFINITY;
    for (i, c) in found.iter().enumerate() {
        for o in &found[..i] {
            for (m, x, y) in [(a, c.s, o.s), (b, c.t, o.t)] {
                let d = m.domain();
                steps = steps.min((x - y).abs() / (d.1 - d.0));
            }
        }
    }
    let sin = found.iter().map(|c| c.sin).fold(1.0, f64::min);
    found.sort_by(|x, y| x.s.partial_cmp(&y.s).unwrap());
    Meet { crossings: found, clear, sin, apart, steps }
}

/// Plane curves within about the square [-1,1]².
pub fn plane_curves() -> Vec<(&'static str, MC)> {
    let pl = |v: &[P2]| C2::polyline(&v.iter().map(|q| Point2::new(q.0, q.1)).collect::<Vec<_>>(), true).model();
    let bz = |p: usize, v: &[(f64, f64, f64)]| {
        let n = v.len();
        let mut k = vec![0.0; p + 1];
        for i in 1..n - p {
            k.push(i as f64);
        }
        k.extend(vec![(n - p) as f64; p + 1]);
        C2::try_new(p, v.iter().map(|q| Point3::new(q.0 * q.2, q.1 * q.2, q.2)).collect(), k).unwrap().model()
    };
    let o = Point2::origin();
    let (x, y) = (Vector2::x(), Vector2::y());
    let blob: Vec<P2> = vec![(1.0, 0.2), (0.6, 1.0), (-0.3, 0.7), (-1.0, 0.5), (-0.8, -0.9), (0.5, -0.6), (1.0, 0.2), (0.6, 1.0)];
    vec![
        ("line", pl(&[(-1.2, -0.3), (1.1, 0.55)])),
        ("zigzag", pl(&[(-1.0, -0.8), (-0.4, 0.9), (0.1, -0.7), (0.5, 0.8), (1.0, -0.2)])),
        ("square", pl(&[(-0.8, -0.8), (0.8, -0.8), (0.8, 0.8), (-0.8, 0.8), (-0.8, -0.8)])),
        ("circle", C2::try_circle(&o, &x, &y, 0.9).unwrap().model()),
        ("ellipse", C2::try_ellipse(&o, &(x * 1.1), &(y * 0.5)).unwrap().model()),
        ("arc", C2::try_arc(&o, &x, &y, 0.95, 0.4, 4.5).unwrap().model()),
        ("hook", bz(2, &[(-1.0, -0.6, 1.0), (0.2, 1.6, 2.0), (0.9, -0.9, 1.0)])),
        ("ess", bz(3, &[(-1.0, -0.9, 1.0), (0.9, -1.0, 1.0), (-0.9, 1.0, 1.0), (1.0, 0.9, 1.0)])),
        ("wave", bz(3, &[(-1.1, 0.0, 1.0), (-0.8, 1.0, 1.0), (-0.2, -1.2, 2.0), (0.3, 1.3, 1.0), (0.8, -1.1, 1.0), (1.1, 0.4, 1.0)])),
        ("quartic", bz(4, &[(-0.9, 0.9, 1.0), (-0.9, -1.3, 1.0), (0.1, 0.2, 0.5), (0.6, 1.4, 1.0), (0.8, -0.4, 1.0), (1.0, -0.8, 1.0)])),
        ("blob", C2::try_new(2, blob.iter().map(|q| Point3::new(q.0, q.1, 1.0)).collect(), (0..11).map(|i| i as f64).collect()).unwrap().model()),
    ]
}

pub fn moved2(m: &MC, d: P2, turn: f64) -> MC {
    let (c, s) = (turn.cos(), turn.sin());
    let mut o = m.clone();
    for q in &mut o.cps {
        let (x, y, w) = (q[0], q[1], q[2]);
        q[0] = c * x - s * y + d.0 * w;
        q[1] = s * x + c * y + d.1 * w;
    }
    o
}

pub fn scripts_x(th: bool) -> Vec<(String, Vec<f64>, f64)> {
    let top = 1.0 - 1e-12;
    let mut v: Vec<(String, Vec<f64>, f64)> = vec![];
    for (n, d) in [("m", 0.5), ("l", 0.0), ("h", top)] {
        v.push((n.to_string(), vec![], d));
    }
    let (len, dev) = if th { (6, 2) } else { (3, 1) };
    for (i, s) in scripts(len, &[0.0, top], 0.5, dev).into_iter().enumerate() {
        if s.iter().any(|x| *x != 0.5) {
            v.push((format!("d{i}"), s, 0.5));
        }
    }
    v
}

struct Hit {
    s: f64,
    t: f64,
    pa: Vec<f64>,
    pb: Vec<f64>,
}

fn run2(a: &C2, b: &C2, opt: Option<CurveIntersectionSolverOptions<f64>>) -> Result<Vec<Hit>, Fail> {
    let v = a.find_intersections(b, opt)?;
    Ok(v.iter().map(|h| Hit { s: h.a().1, t: h.b().1, pa: h.a().0.coords.as_slice().to_vec(), pb: h.b().0.coords.as_slice().to_vec() }).collect())
}

/// Reported crossings are crossings.
fn sound(a: &MC, b: &MC, hits: &[Hit], tol: f64) -> Res {
    for h in hits {
        let (da, db) = (a.domain(), b.domain());
        check!(da.0 <= h.s && h.s <= da.1 && db.0 <= h.t && h.t <= db.1, "range", "parameters {} {} are outside of {da:?} {db:?}", h.s, h.t);
        let (p, q) = (a.pt(h.s), b.pt(h.t));
        check!(close(&p, &h.pa, 1e-9 * a.scale()) && close(&q, &h.pb, 1e-9 * b.scale()), "point", "{:?} {:?} are not the points {p:?} {q:?} at {} {}", h.pa, h.pb, h.s, h.t);
        check!(dist(&p, &q) <= tol * 1.001, "apart", "{p:?} at {} and {q:?} at {} are apart", h.s, h.t);
    }
    Ok(())
}

/// Each of the crossings is reported once.
fn complete(m: &[Cross], hits: &[Hit], da: (f64, f64), db: (f64, f64)) -> Res {
    let _ = (da, db);
    for c in m {
        let n = hits.iter().filter(|h| (h.pa[0] - c.p.0).hypot(h.pa[1] - c.p.1) < 1e-3).count();
        check!(n == 1, if n == 0 { "missed" } else { "repeated" }, "the crossing {:?} at {} {} is reported {n} times: {:?}", c.p, c.s, c.t, hits.iter().map(|h| (h.s, h.t)).collect::<Vec<_>>());
    }
    check!(hits.len() == m.len(), "extra", "{} intersections for {} crossings: {:?}", hits.len(), m.len(), hits.iter().map(|h| (h.s, h.t, h.pa.clone())).collect::<Vec<_>>());
    Ok(())
}

/// The same curve over another range of parameters.
pub fn ranged(m: &MC, shift: f64, scale: f64) -> MC {
    let mut o = m.clone();
    for k in &mut o.knots {
        *k = *k * scale + shift;
    }
    o
}

fn general(m: &Meet) -> bool {
    m.clear > 0.02 && m.sin > 0.26 && m.apart > 0.05 && m.steps > 4.0 / 64.0
}

/// The same curve, larger and elsewhere.
pub fn sized(m: &MC, k: f64, off: f64) -> MC {
    let mut o = m.clone();
    let d = m.cps[0].len() - 1;
    for c in &mut o.cps {
        for x in &mut c[..d] {
            *x *= k;
        }
        c[0] += off * c[d];
    }
    o
}

/// Other sizes, with other parameter ranges.
fn sizes(env: &Env, items: &[(usize, usize, f64, f64)]) {
    let cs = plane_curves();
    let mut all = vec![];
    for (k, off) in [(1.0, 0.0), (100.0, 0.0), (1e3, 0.0), (1e4, -5e3), (1.0, 1e3)] {
        for (f, g) in [(1.0, 1.0), (1e-3, 1.0), (1.0, 1e2), (1e3, 1e-3), (1e3, 1e3), (1e-3, 1e-3)] {
            all.push((k, off, f, g));
        }
    }
    env.par(items, |(i, j, dx, dy), rec| {
        let (an, am) = &cs[*i];
        let (bn, bm) = &cs[*j];
        let bm = moved2(bm, (*dx, *dy), 0.6);
        let m = meet(am, &bm, 48);
        if !general(&m) {
            return;
        }
        for (k, off, f, g) in &all {
            rec.case(&format!("size.{an}.{bn}@{dx},{dy}.{k}.{off}.{f}.{g}"), |rec| {
                let (am, bm) = (sized(&ranged(am, 0.0, *f), *k, *off), sized(&ranged(&bm, 0.0, *g), *k, *off));
                let (a, b): (C2, C2) = (of_model(&am)?, of_model(&bm)?);
                rec.state(Canon::new().u(canon(&am)).u(canon(&bm)).get());
                rec.trans(1 + m.crossings.len() as u64);
                let hits = run2(&a, &b, None)?;
                sound(&am, &bm, &hits, 1e-5)?;
                let ok = |h: &Hit, c: &Cross| (h.pa[0] - c.p.0 * k - off).hypot(h.pa[1] - c.p.1 * k) < 1e-3 * k;
                for c in &m.crossings {
                    let n = hits.iter().filter(|h| ok(h, c)).count();
                    check!(n == 1, if n == 0 { "missed" } else { "repeated" }, "the crossing {:?} is reported {n} times: {:?}", c.p, hits.iter().map(|h| (h.s, h.t)).collect::<Vec<_>>());
                }
                check!(hits.len() == m.crossings.len(), "extra", "{} intersections for {} crossings", hits.len(), m.crossings.len());
                rec.outcome("other sizes");
                Ok(())
            });
        }
    });
}

/// Other parameter ranges.
fn ranges(env: &Env) {
    let th = env.thorough();
    let cs = plane_curves();
    let mut items = vec![];
    for i in 0..cs.len() {
        for j in 0..cs.len() {
            for (x, y) in [(0.07, -0.2), (-0.55, 0.31)] {
                items.push((i, j, x, y));
            }
        }
    }
    sizes(env, &items);
    let maps: &[(f64, f64)] = if th { &[(0.0, 1.0), (-3.0, 1.0), (5.0, 0.1), (0.0, 0.01), (2.0, 10.0)] } else { &[(-3.0, 1.0), (0.0, 0.01), (2.0, 10.0)] };
    env.par(&items, |(i, j, dx, dy), rec| {
        let (an, am) = &cs[*i];
        let (bn, bm) = &cs[*j];
        let bm = moved2(bm, (*dx, *dy), 0.6);
        for (k, f) in maps.iter().enumerate() {
            for (l, g) in maps.iter().enumerate() {
                rec.case(&format!("range.{an}.{bn}@{dx},{dy}.{k}{l}"), |rec| {
                    let (am, bm) = (ranged(am, f.0, f.1), ranged(&bm, g.0, g.1));
                    let m = meet(&am, &bm, 48);
                    let (a, b): (C2, C2) = (of_model(&am)?, of_model(&bm)?);
                    let hits = run2(&a, &b, None)?;
                    rec.state(Canon::new().u(canon(&am)).u(canon(&bm)).get());
                    rec.trans(1 + m.crossings.len() as u64);
                    sound(&am, &bm, &hits, 1e-5)?;
                    if general(&m) {
                        complete(&m.crossings, &hits, am.domain(), bm.domain())?;
                        rec.outcome("other ranges");
                    }
                    Ok(())
                });
            }
        }
    });
}

/// Crossings in special places: on the seam of a closed curve, on a vertex of a polyline, on a
/// knot; with a curve that is much longer; at the end of a curve that goes on in another one.
fn places_x(env: &Env) {
    let th = env.thorough();
    let cs = plane_curves();
    let ang: Vec<f64> = (0..if th { 12 } else { 4 }).map(|k| 0.35 + k as f64 * std::f64::consts::TAU / if th { 12.0 } else { 4.0 }).collect();
    let mut items = vec![];
    for i in 0..cs.len() {
        for k in 0..cs[i].1.breaks().len() {
            for a in &ang {
                for l in [1.0, 50.0] {
                    items.push((i, k, *a, l));
                }
            }
        }
    }
    let scr = scripts_x(th);
    env.par(&items, |(i, k, ang, l), rec| {
        let (an, am) = &cs[*i];
        let br = am.breaks();
        let closed = dist(&am.pt(br[0]), &am.pt(*br.last().unwrap())) < 1e-9;
        let inner = *k > 0 && *k + 1 < br.len();
        if !inner && !closed {
            return;
        }
        let p = am.pt(br[*k]);
        let dir = (ang.cos(), ang.sin());
        // both sides of the place are crossed in the same sense
        let side = |s: Side, u: f64| {
            let d = am.ders(u, 1, s);
            (d[1][0] * dir.1 - d[1][1] * dir.0) / norm(&d[1])
        };
        let (u0, u1) = if inner { (br[*k], br[*k]) } else { (*br.last().unwrap(), br[0]) };
        let (s0, s1) = (side(Side::Left, u0), side(Side::Right, u1));
        if s0 * s1 <= 0.0 || s0.abs() < 0.3 || s1.abs() < 0.3 {
            return;
        }
        let (e0, e1) = (1.37 * l, 1.61 * l);
        let line = C2::polyline(&[Point2::new(p[0] - dir.0 * e0, p[1] - dir.1 * e0), Point2::new(p[0] + dir.0 * e1, p[1] + dir.1 * e1)], true).model();
        // the other crossings
        let m = meet(am, &line, 48);
        let pos: Vec<&Cross> = m.crossings.iter().filter(|c| (c.p.0 - p[0]).hypot(c.p.1 - p[1]) > 1e-6).collect();
        if m.sin < 0.26 || m.clear < 0.02 {
            return;
        }
        let mut all: Vec<P2> = vec![(p[0], p[1])];
        all.extend(pos.iter().map(|c| c.p));
        let apart = |a: &P2, b: &P2| (a.0 - b.0).hypot(a.1 - b.1);
        if (0..all.len()).any(|i| (0..i).any(|j| apart(&all[i], &all[j]) < 0.2)) {
            return;
        }
        if pos.iter().any(|c| br.iter().any(|u| { let q = am.pt(*u); apart(&c.p, &(q[0], q[1])) < 0.05 })) {
            return;
        }
        for (sn, s, d) in &scr {
            for swap in [false, true] {
                rec.case(&format!("place.{an}.{k}@{ang:.2}.{l}.{sn}{}", if swap { "s" } else { "" }), |rec| {
                    let (a, b): (C2, C2) = (of_model(am)?, of_model(&line)?);
                    rand::script::set(s, *d);
                    let hits = if swap { run2(&b, &a, None)? } else { run2(&a, &b, None)? };
                    rec.state(Canon::new().u(canon(am)).u(canon(&line)).s(sn).u(swap as u64).get());
                    rec.trans(1 + all.len() as u64);
                    if swap { sound(&line, am, &hits, 1e-5)? } else { sound(am, &line, &hits, 1e-5)? };
                    for (i, c) in all.iter().enumerate() {
                        let n = hits.iter().filter(|h| apart(&(h.pa[0], h.pa[1]), c) < 1e-3).count();
                        let what = if i > 0 { "inner" } else if inner { "knot" } else { "seam" };
                        check!(n == 1, format!("{}-{what}", if n == 0 { "missed" } else { "repeated" }), "the crossing {c:?} is reported {n} times: {:?}", hits.iter().map(|h| (h.s, h.t)).collect::<Vec<_>>());
                    }
                    check!(hits.len() == all.len(), "extra", "{} intersections for {} crossings: {:?}", hits.len(), all.len(), hits.iter().map(|h| (h.s, h.t)).collect::<Vec<_>>());
                    rec.outcome(if inner { "on a knot" } else { "on a seam" });
                    Ok(())
                });
            }
        }
    });
}

/// Into a plane of space: columns are the images of the axes, then the origin.
fn lift(m: &MC, frame: &[[f64; 3]; 3]) -> MC {
    let mut o = m.clone();
    for q in &mut o.cps {
        let (x, y, w) = (q[0], q[1], q[2]);
        *q = (0..3).map(|i| frame[0][i] * x + frame[1][i] * y + frame[2][i] * w).chain([w]).collect();
    }
    o
}

/// Curves in space: pairs in a common plane meet as they do in the plane; out of it they do not.
fn space(env: &Env) {
    let th = env.thorough();
    let cs = plane_curves();
    let r = |x: f64, y: f64, z: f64| { let v = Vector3::new(x, y, z).normalize(); [v.x, v.y, v.z] };
    let frames: Vec<([[f64; 3]; 3], [f64; 3])> = vec![
        ([r(1.0, 0.0, 0.0), r(0.0, 1.0, 0.0), [0.0, 0.0, 0.0]], r(0.0, 0.0, 1.0)),
        ([r(0.0, 0.0, 1.0), r(1.0, 0.0, 0.0), [0.3, -2.0, 1.0]], r(0.0, 1.0, 0.0)),
        ([r(1.0, 2.0, 2.0), r(2.0, 1.0, -2.0), [1.0, 1.0, 1.0]], r(-6.0, 6.0, -3.0)),
    ];
    let mut items = vec![];
    for i in 0..cs.len() {
        for j in 0..cs.len() {
            for (x, y) in if th { vec![(0.07, -0.2), (-0.55, 0.31), (0.31, 0.63), (-0.2, -0.9)] } else { vec![(0.07, -0.2), (-0.55, 0.31)] } {
                for t in if th { vec![0.0, 0.6, 2.3] } else { vec![0.6] } {
                    items.push((i, j, x, y, t));
                }
            }
        }
    }
    env.par(&items, |(i, j, dx, dy, turn), rec| {
        let (an, am) = &cs[*i];
        let (bn, bm) = &cs[*j];
        let bm = moved2(bm, (*dx, *dy), *turn);
        let m = meet(am, &bm, 48);
        for (f, (frame, n)) in frames.iter().enumerate() {
            for (g, h) in [0.0, 1e-4, 0.02, -0.5].into_iter().enumerate() {
                for (sn, d) in [("l", 0.0), ("m", 0.5), ("h", 1.0 - 1e-12)] {
                    rec.case(&format!("space.{an}.{bn}@{dx},{dy},{turn}.{f}{g}{sn}"), |rec| {
                        let am = lift(am, frame);
                        let mut up = *frame;
                        for i in 0..3 {
                            up[2][i] += h * n[i];
                        }
                        let bm = lift(&bm, &up);
                        let (a, b): (C3, C3) = (of_model(&am)?, of_model(&bm)?);
                        rand::script::set(&[], d);
                        let v = a.find_intersections(&b, None)?;
                        rec.state(Canon::new().u(canon(&am)).u(canon(&bm)).s(sn).get());
                        rec.trans(1 + m.crossings.len() as u64);
                        let hits: Vec<Hit> = v.iter().map(|h| Hit { s: h.a().1, t: h.b().1, pa: h.a().0.coords.as_slice().to_vec(), pb: h.b().0.coords.as_slice().to_vec() }).collect();
                        sound(&am, &bm, &hits, 1e-5)?;
                        if h != 0.0 {
                            check!(hits.is_empty(), "extra", "curves at the distance {h} meet {} times", hits.len());
                            rec.outcome("apart in space");
                        } else if general(&m) {
                            for c in &m.crossings {
                                let p = am.pt(c.s);
                                let n = hits.iter().filter(|h| dist(&h.pa, &p) < 1e-3).count();
                                check!(n == 1, if n == 0 { "missed" } else { "repeated" }, "the crossing {p:?} at {} {} is reported {n} times", c.s, c.t);
                            }
                            check!(hits.len() == m.crossings.len(), "extra", "{} intersections for {} crossings", hits.len(), m.crossings.len());
                            rec.outcome("in a plane of space");
                        }
                        Ok(())
                    });
                }
            }
        }
    });
}

fn options(env: &Env) {
    let cs = plane_curves();
    let th = env.thorough();
    let mut items = vec![];
    for i in 0..cs.len() {
        for j in 0..cs.len() {
            for (x, y) in if th { vec![(0.07, -0.2), (-0.55, 0.31), (0.31, 0.63)] } else { vec![(0.07, -0.2)] } {
                items.push((i, j, x, y));
            }
        }
    }
    env.par(&items, |(i, j, dx, dy), rec| {
        let (an, am) = &cs[*i];
        let (bn, bm) = &cs[*j];
        let bm = moved2(bm, (*dx, *dy), 1.4);
        let m = meet(am, &bm, 48);
        for div in [48usize, 100, 200, 500] {
            for md in [1e-3, 1e-4, 1e-6] {
                for (ct, it) in [(1e-10, 1000), (1e-14, 300)] {
                    rec.case(&format!("options.{an}.{bn}@{dx},{dy}.{div},{md},{ct}"), |rec| {
                        let (a, b): (C2, C2) = (of_model(am)?, of_model(&bm)?);
                        let o = CurveIntersectionSolverOptions::<f64>::default().with_minimum_distance(md).with_knot_domain_division(div).with_max_iters(it).with_cost_tolerance(ct).with_step_size_tolerance(1e-9);
                        let hits = run2(&a, &b, Some(o))?;
                        rec.state(Canon::new().u(canon(am)).u(canon(&bm)).u(div as u64).f(md).f(-ct.log10()).get());
                        rec.trans(1 + m.crossings.len() as u64);
                        sound(am, &bm, &hits, md)?;
                        if general(&m) && m.steps > 4.0 / div as f64 && (md > 1e-5 || ct < 1e-12) {
                            complete(&m.crossings, &hits, am.domain(), bm.domain())?;
                            rec.outcome("options");
                        }
                        Ok(())
                    });
                }
            }
        }
    });
}

/// Curves that touch without crossing, and crossings close together on one of the curves only.
fn touches(env: &Env) {
    let th = env.thorough();
    let cs: Vec<(&'static str, MC)> = plane_curves().into_iter().filter(|(_, m)| m.p > 1).collect();
    let n = if th { 24 } else { 7 };
    let mut items = vec![];
    for i in 0..cs.len() {
        for k in 0..n {
            for other in 0..3 {
                items.push((i, k, other));
            }
        }
    }
    let scr = scripts_x(th);
    env.par(&items, |(i, k, other), rec| {
        let (an, am) = &cs[*i];
        let (lo, hi) = am.domain();
        let s = lo + (hi - lo) * (*k as f64 + 0.37) / n as f64;
        let d = am.ders(s, 2, Side::Right);
        let speed = norm(&d[1]);
        let t = [d[1][0] / speed, d[1][1] / speed];
        let curv = (d[1][0] * d[2][1] - d[1][1] * d[2][0]) / speed.powi(3);
        // towards the outside of the curve
        let out = if curv > 0.0 { [t[1], -t[0]] } else { [-t[1], t[0]] };
        let p = [d[0][0], d[0][1]];
        let at = |x: f64, y: f64| Point2::new(p[0] + t[0] * x + out[0] * y, p[1] + t[1] * x + out[1] * y);
        let kb = [0.0, 0.0, 2.0][*other];
        if curv.abs() < 0.15 {
            return;
        }
        let b: C2 = match other {
            0 => C2::polyline(&[at(-0.21, 0.0), at(0.34, 0.0)], true),
            1 => C2::polyline(&[at(0.5, 0.3), at(0.3, 0.0), at(-0.13, 0.0)], true),
            _ => C2::try_arc(&at(0.0, 0.5), &Vector2::new(-out[0], -out[1]), &Vector2::new(t[0], t[1]), 0.5, -1.1, 0.8).unwrap(),
        };
        let bm = b.model();
        for (md, div) in [(1e-5, 64usize), (1e-4, 500), (1e-3, 200)] {
            // both stay within the minimum distance over this length
            let len = (2.0 * md / (curv.abs() + kb)).sqrt() * 1.25;
            // evenly curved there
            let even = (-8..=8).all(|q| {
                let u = s + q as f64 / 8.0 * (len + 0.05) * 1.5 / speed;
                let d = am.ders(u.clamp(lo, hi), 2, Side::Right);
                let c = (d[1][0] * d[2][1] - d[1][1] * d[2][0]) / norm(&d[1]).powi(3);
                c / curv > 0.7 && c / curv < 1.4
            });
            if !even {
                continue;
            }
            // the other parts of the curves stay apart
            let clear = {
                let (ta, tb) = (trail(am, 96), trail(&bm, 96));
                let far = |q: P2| (q.0 - p[0]).hypot(q.1 - p[1]) > 3.0 * len + 0.05;
                let mut c = f64::MAX;
                for x in ta.windows(2).filter(|w| far(w[0].1) || far(w[1].1)) {
                    for y in tb.windows(2) {
                        c = c.min(seg_seg(x[0].1, x[1].1, y[0].1, y[1].1));
                    }
                }
                c
            };
            if clear < 4.0 * md {
                continue;
            }
            for (sn, sc, dv) in &scr {
                rec.case(&format!("touch.{an}.{k}.{other}.{md}.{sn}"), |rec| {
                    let a: C2 = of_model(am)?;
                    rand::script::set(sc, *dv);
                    let o = CurveIntersectionSolverOptions::<f64>::default().with_minimum_distance(md).with_knot_domain_division(div).with_max_iters(1000);
                    let hits = run2(&a, &b, Some(o))?;
                    rec.state(Canon::new().u(canon(am)).u(canon(&bm)).f(md).s(sn).get());
                    rec.trans(1);
                    sound(am, &bm, &hits, md)?;
                    check!(hits.len() == 1, if hits.is_empty() { "missed" } else { "repeated" }, "the contact at {s} is reported {} times: {:?}", hits.len(), hits.iter().map(|h| (h.s, h.t)).collect::<Vec<_>>());
                    check!((hits[0].pa[0] - p[0]).hypot(hits[0].pa[1] - p[1]) <= len, "contact", "the contact {p:?} is reported at {:?}", hits[0].pa);
                    rec.outcome("contact");
                    Ok(())
                });
            }
        }
    });
    // two legs of one curve cross the other one close together
    let gaps = [4e-4, 9e-4, 1.9e-3, 4e-3, 9e-3];
    let mut items = vec![];
    for g in gaps {
        for x in if th { vec![0.07, 0.21, 0.4, 0.533, 0.69, 0.9] } else { vec![0.21, 0.533] } {
            for turn in [0.0, 1.4, 4.0] {
                for smooth in [false, true] {
                    for swap in [false, true] {
                        items.push((g, x, turn, smooth, swap));
                    }
                }
            }
        }
    }
    env.par(&items, |(g, x, turn, smooth, swap), rec| {
        for (sn, sc, dv) in &scr {
            rec.case(&format!("legs.{g}.{x}.{turn}.{smooth}.{swap}.{sn}"), |rec| {
                let line: C2 = C2::polyline(&[Point2::new(0.0, 0.0), Point2::new(1.0, 0.0)], true);
                let legs: C2 = if *smooth {
                    // a narrow parabola: |x| = g/2 on the axis
                    C2::try_new(2, vec![Point3::new(x - g, -1.0, 1.0), Point3::new(*x, 3.0, 1.0), Point3::new(x + g, -1.0, 1.0)], vec![0.0, 0.0, 0.0, 1.0, 1.0, 1.0])?
                } else {
                    C2::polyline(&[Point2::new(x - g, 1.0), Point2::new(*x, -1.0), Point2::new(x + g, 1.0)], true)
                };
                let (am, bm) = (moved2(&line.model(), (0.0, 0.0), *turn), moved2(&legs.model(), (0.0, 0.0), *turn));
                let (am, bm) = if *swap { (bm, am) } else { (am, bm) };
                let (a, b): (C2, C2) = (of_model(&am)?, of_model(&bm)?);
                rand::script::set(sc, *dv);
                let hits = run2(&a, &b, None)?;
                rec.state(Canon::new().u(canon(&am)).u(canon(&bm)).s(sn).get());
                rec.trans(1);
                sound(&am, &bm, &hits, 1e-5)?;
                check!(hits.len() == 2, if hits.len() < 2 { "missed" } else { "repeated" }, "the two crossings {g} apart are reported as {:?}", hits.iter().map(|h| (h.s, h.t)).collect::<Vec<_>>());
                rec.outcome("close legs");
                Ok(())
            });
        }
    });
}

fn x01(env: &Env) {
    touches(env);
    env.note("11 plane curves (lines, polylines, conics, splines of degree 2 to 4, an unclamped one): every ordered pair over a lattice of positions and turns, in the plane and lifted into planes of space; crossings on knots, vertices and seams; other parameter ranges and solver options; scripted random choices of the subdivision (all-least, all-middle, all-greatest, and every script with a bounded number of deviations)");
    env.assume("completeness is decided for crossings at angles above 15 degrees that are 0.05 apart (curves of size 2) and 4/64 of the domain in each parameter, of curves without near misses, of sizes from 1 to 1e4 with parameter ranges of 0.001 to 1000 units; soundness everywhere; contacts of evenly curved pieces are reported once, and crossings that are close on one of the curves only (down to 4e-4) are all reported");
    options(env);
    space(env);
    places_x(env);
    ranges(env);
    let th = env.thorough();
    let cs = plane_curves();
    let mut items = vec![];
    let steps: Vec<f64> = if th { vec![-1.2, -0.9, -0.71, -0.55, -0.38, -0.2, -0.06, 0.07, 0.19, 0.31, 0.47, 0.63, 0.8, 1.0] } else { vec![-0.9, -0.55, -0.2, 0.07, 0.31, 0.63] };
    let turns: Vec<f64> = if th { vec![0.0, 0.6, 1.0, 1.4, 2.3, 3.0, 4.4, 5.5] } else { vec![0.0, 1.4, 3.0] };
    for (i, a) in cs.iter().enumerate() {
        for (j, b) in cs.iter().enumerate() {
            for dx in &steps {
                for dy in &steps {
                    for t in &turns {
                        items.push((i, j, *dx, *dy, *t));
                    }
                }
            }
            let _ = (a, b);
        }
    }
    let scr = scripts_x(th);
    env.par(&items, |(i, j, dx, dy, turn), rec| {
        let (an, am) = &cs[*i];
        let (bn, bm) = &cs[*j];
        let bm = moved2(bm, (*dx, *dy), *turn);
        let m = meet(am, &bm, 48);
        let general = general(&m);
        // in single precision
        for d in if general { &[0.5, 0.0][..] } else { &[] } {
            rec.case(&format!("single.{an}.{bn}@{dx},{dy},{turn}.{d}"), |rec| {
                let (a, b) = (of_model::<C2>(am)?.cast::<f32>(), of_model::<C2>(&bm)?.cast::<f32>());
                rand::script::set(&[], *d);
                let hits = a.find_intersections(&b, None)?;
                rec.state(Canon::new().u(canon(am)).u(canon(&bm)).s("single").f(*d).get());
                rec.trans(1 + m.crossings.len() as u64);
                for h in &hits {
                    let (p, q) = (h.a().0, h.b().0);
                    check!((p - q).norm() < 1.2e-5, "apart", "{p:?} and {q:?} are apart");
                    check!((a.point_at(h.a().1) - p).norm() < 1e-5 && (b.point_at(h.b().1) - q).norm() < 1e-5, "point", "{p:?} {q:?} are not the points at {} {}", h.a().1, h.b().1);
                }
                for c in &m.crossings {
                    let n = hits.iter().filter(|h| (h.a().0.x as f64 - c.p.0).hypot(h.a().0.y as f64 - c.p.1) < 1e-3).count();
                    check!(n == 1, if n == 0 { "missed" } else { "repeated" }, "the crossing {:?} is reported {n} times", c.p);
                }
                check!(hits.len() == m.crossings.len(), "extra", "{} intersections for {} crossings", hits.len(), m.crossings.len());
                rec.outcome(&format!("single precision: {} crossings", m.crossings.len()));
                Ok(())
            });
        }
        for (sn, s, d) in &scr {
            rec.case(&format!("plane.{an}.{bn}@{dx},{dy},{turn}.{sn}"), |rec| {
                let (a, b): (C2, C2) = (of_model(am)?, of_model(&bm)?);
                rand::script::set(s, *d);
                let hits = run2(&a, &b, None)?;
                rec.state(Canon::new().u(canon(am)).u(canon(&bm)).s(sn).get());
                rec.trans(1 + m.crossings.len() as u64);
                sound(am, &bm, &hits, 1e-5)?;
                if general {
                    complete(&m.crossings, &hits, am.domain(), bm.domain())?;
                    rec.outcome(&format!("{} crossings", m.crossings.len()));
                } else {
                    rec.outcome("special position: soundness only");
                }
                Ok(())
            });
        }
    });
}

// ---------------------------------------------------------------- X02

type K2 = CompoundCurve<f64, nalgebra::Const<3>>;

/// Chains within about the square [-1,1]²: their pieces in order.
pub fn plane_chains() -> Vec<(&'static str, Vec<MC>)> {
    let pl = |v: &[P2]| C2::polyline(&v.iter().map(|q| Point2::new(q.0, q.1)).collect::<Vec<_>>(), true);
    let o = Point2::origin();
    let (x, y) = (Vector2::x(), Vector2::y());
    let arc = |r: f64, a: f64, b: f64| C2::try_arc(&o, &x, &y, r, a, b).unwrap();
    let bz = |v: &[(f64, f64, f64)]| {
        let p = v.len() - 1;
        let mut k = vec![0.0; p + 1];
        k.extend(vec![1.0; p + 1]);
        C2::try_new(p, v.iter().map(|q| Point3::new(q.0 * q.2, q.1 * q.2, q.2)).collect(), k).unwrap()
    };
    let raw: Vec<(&'static str, Vec<C2>)> = vec![
        ("single", vec![C2::try_ellipse(&o, &(x * 1.1), &(y * 0.6)).unwrap()]),
        ("bend", vec![pl(&[(-1.1, -0.6), (0.1, 0.7)]), pl(&[(0.1, 0.7), (1.0, -0.5)])]),
        ("lag", vec![pl(&[(-0.9, -1.0), (0.8, -0.9)]), bz(&[(0.8, -0.9, 1.0), (1.4, 0.2, 2.0), (0.5, 0.8, 1.0)]), pl(&[(0.5, 0.8), (-0.2, 0.4), (-0.9, 0.9)])]),
        ("ring2", vec![arc(0.9, 0.0, 3.0), arc(0.9, 3.0, TAU)]),
        ("ring3", vec![arc(0.8, 0.5, 2.0), arc(0.8, 2.0, 4.5), arc(0.8, 4.5, 0.5 + TAU)]),
        ("triangle", vec![pl(&[(-0.9, -0.8), (0.9, -0.6)]), pl(&[(0.9, -0.6), (-0.1, 0.9)]), pl(&[(-0.1, 0.9), (-0.9, -0.8)])]),
        ("half", vec![arc(0.9, 0.0, std::f64::consts::PI), pl(&[(-0.9, 0.0), (-0.9, -0.8)]), pl(&[(-0.9, -0.8), (0.9, -0.8)]), pl(&[(0.9, -0.8), (0.9, 0.0)])]),
        ("leaf", vec![bz(&[(-1.0, 0.0, 1.0), (-0.4, 1.2, 1.0), (0.6, 0.9, 1.0), (1.0, 0.1, 1.0)]), bz(&[(1.0, 0.1, 1.0), (0.3, -1.3, 1.0), (-1.0, 0.0, 1.0)])]),
    ];
    raw.into_iter()
        .map(|(n, v)| {
            // the pieces as the chain keeps them
            let k = K2::new(v.clone());
            assert!(k.spans().len() == v.len());
            (n, k.spans().iter().map(|s| s.model()).collect())
        })
        .collect()
}

struct KHit {
    ca: C2,
    cb: C2,
    h: Hit,
}

fn k_hits(v: Vec<CompoundCurveIntersection<f64, nalgebra::Const<3>>>) -> Vec<KHit> {
    v.into_iter()
        .map(|h| KHit {
            ca: h.a_curve().clone(),
            cb: h.b_curve().clone(),
            h: Hit { s: h.a().2, t: h.b().2, pa: h.a().1.coords.as_slice().to_vec(), pb: h.b().1.coords.as_slice().to_vec() },
        })
        .collect()
}

fn chain_of(ms: &[MC]) -> Result<K2, Fail> {
    let v: Vec<C2> = ms.iter().map(|m| of_model(m)).collect::<Result<_, _>>()?;
    Ok(v.into_iter().collect())
}

/// All crossings of two chains off their joints, and how general their position is.
pub struct Meets {
    pub points: Vec<P2>,
    pub general: bool,
}

pub fn meets(a: &[MC], b: &[MC], joint: Option<P2>) -> Meets {
    let mut points: Vec<P2> = vec![];
    let mut general = true;
    for x in a {
        for y in b {
            let m = meet(x, y, 48);
            let cs: Vec<&Cross> = m.crossings.iter().filter(|c| joint.map_or(true, |j| (c.p.0 - j.0).hypot(c.p.1 - j.1) > 1e-6)).collect();
            general &= m.sin > 0.26 && m.steps > 4.0 / 64.0;
            for c in &cs {
                points.push(c.p);
                for m in a.iter().chain(b) {
                    for k in m.breaks() {
                        let smooth = k > m.domain().0 && k < m.domain().1 && m.p > 1;
                        let q = m.pt(k);
                        general &= smooth || (c.p.0 - q[0]).hypot(c.p.1 - q[1]) > 0.05;
                    }
                }
            }
            // near misses
            if joint.is_none() {
                general &= m.clear > 0.02;
            } else {
                let near = |m: &MC| m.breaks().iter().any(|k| { let q = m.pt(*k); (q[0] - joint.unwrap().0).hypot(q[1] - joint.unwrap().1) < 1e-6 });
                general &= m.clear > 0.02 || near(x) || near(y);
            }
        }
    }
    let mut all = points.clone();
    all.extend(joint);
    for i in 0..all.len() {
        for j in 0..i {
            general &= (all[i].0 - all[j].0).hypot(all[i].1 - all[j].1) > 0.1;
        }
    }
    Meets { points: all, general }
}

fn k_sound(a: &[MC], b: &[MC], hits: &[KHit], tol: f64) -> Res {
    let find = |c: &C2, ms: &[MC]| ms.iter().position(|m| { let d = c.model(); d.knots == m.knots && d.cps == m.cps });
    for k in hits {
        let (Some(i), Some(j)) = (find(&k.ca, a), find(&k.cb, b)) else { fail!("attribution", "the curve of an intersection is no piece of the chain: {:?} {:?}", k.h.s, k.h.t) };
        sound(&a[i], &b[j], std::slice::from_ref(&k.h), tol)?;
    }
    Ok(())
}

fn k_complete(want: &[P2], hits: &[KHit]) -> Res {
    let list = || hits.iter().map(|h| (h.h.s, h.h.t, h.h.pa.clone())).collect::<Vec<_>>();
    for c in want {
        let n = hits.iter().filter(|h| (h.h.pa[0] - c.0).hypot(h.h.pa[1] - c.1) < 1e-3).count();
        check!(n == 1, if n == 0 { "missed" } else { "repeated" }, "the crossing {c:?} is reported {n} times: {:?}", list());
    }
    check!(hits.len() == want.len(), "extra", "{} intersections for {} crossings: {:?}", hits.len(), want.len(), list());
    Ok(())
}

fn k_case(a: &[MC], b: &[MC], m: &Meets, rec: &mut Rec, s: &[f64], d: f64, single: bool, what: &str) -> Res {
    let (ka, kb) = (chain_of(a)?, chain_of(b)?);
    rand::script::set(s, d);
    let hits = if single { k_hits(ka.find_intersections(&kb.spans()[0], None)?) } else { k_hits(ka.find_intersections(&kb, None)?) };
    let mut h = Canon::new().u(single as u64).u((d * 10.0) as u64);
    for x in a.iter().chain(b) {
        h = h.u(canon(x));
    }
    rec.state(h.fs(s).get());
    rec.trans(1 + m.points.len() as u64);
    k_sound(a, b, &hits, 1e-5)?;
    if m.general {
        k_complete(&m.points, &hits)?;
        rec.outcome(&format!("{what}: {} crossings", m.points.len()));
    } else {
        rec.outcome("special position: soundness only");
    }
    Ok(())
}

/// The chains of another size and place.
fn k_sized(a: &[MC], b: &[MC], m: &Meets, rec: &mut Rec, (s, o): (f64, f64), single: bool, d: f64) -> Res {
    let big = |ms: &[MC]| -> Vec<MC> {
        let mut v = ms.to_vec();
        for c in v.iter_mut().flat_map(|m| m.cps.iter_mut()) {
            c[0] = c[0] * s + o * c[2];
            c[1] = c[1] * s - 2.0 * o * c[2];
        }
        v
    };
    let (a, b) = (big(a), big(b));
    let (ka, kb) = (chain_of(&a)?, chain_of(&b)?);
    rand::script::set(&[], d);
    let hits = if single { k_hits(ka.find_intersections(&kb.spans()[0], None)?) } else { k_hits(ka.find_intersections(&kb, None)?) };
    let mut h = Canon::new().u(single as u64).u((d * 10.0) as u64).s("sized");
    for x in a.iter().chain(&b) {
        h = h.u(canon(x));
    }
    rec.state(h.get());
    rec.trans(1 + m.points.len() as u64);
    let want: Vec<P2> = m.points.iter().map(|p| (p.0 * s + o, p.1 * s - 2.0 * o)).collect();
    k_sound(&a, &b, &hits, 1e-5)?;
    for c in &want {
        let n = hits.iter().filter(|h| (h.h.pa[0] - c.0).hypot(h.h.pa[1] - c.1) < 1e-3 * s).count();
        check!(n == 1, if n == 0 { "missed" } else { "repeated" }, "the crossing {c:?} is reported {n} times of {}", hits.len());
    }
    check!(hits.len() == want.len(), "extra", "{} intersections for {} crossings", hits.len(), want.len());
    rec.outcome(&format!("of other sizes: {} crossings", m.points.len()));
    Ok(())
}

const X_SIZES: [(f64, f64); 6] = [(100.0, 0.0), (1.0, 1e3), (1e3, 0.0), (0.2, 0.0), (1e4, -5e3), (20.0, 2e4)];

fn x02(env: &Env) {
    env.note("the same of six other sizes and places in turn (thorough: of all of them)");
    env.note("8 chains of one to four pieces against each other and against 11 curves over a lattice of positions and turns, crossings at each of their joints with lines and chains of five kinds (also joint on joint), and cut-off corners; scripted random choices");
    let th = env.thorough();
    let ks = plane_chains();
    let scr: Vec<_> = if th { scripts_x(false) } else { scripts_x(false).into_iter().take(3).collect() };
    // chains in general position
    let steps: Vec<f64> = if th { vec![-1.2, -0.9, -0.71, -0.55, -0.38, -0.2, -0.06, 0.07, 0.19, 0.31, 0.47, 0.63, 0.8, 1.0] } else { vec![-0.9, -0.55, -0.2, 0.07, 0.31, 0.63] };
    let turns: Vec<f64> = if th { vec![0.0, 0.6, 1.0, 1.4, 2.3, 3.0, 4.4, 5.5] } else { vec![0.0, 1.4, 3.0] };
    let curves = plane_curves();
    let mut items = vec![];
    for i in 0..ks.len() {
        for j in 0..ks.len() + curves.len() {
            for dx in &steps {
                for dy in &steps {
                    for t in &turns {
                        items.push((i, j, *dx, *dy, *t));
                    }
                }
            }
        }
    }
    env.par(&items, |(i, j, dx, dy, turn), rec| {
        let (an, a) = &ks[*i];
        let single = *j >= ks.len();
        let (bn, b) = if single { (curves[*j - ks.len()].0, vec![curves[*j - ks.len()].1.clone()]) } else { (ks[*j].0, ks[*j].1.clone()) };
        let b: Vec<MC> = b.iter().map(|m| moved2(m, (*dx, *dy), *turn)).collect();
        let m = meets(a, &b, None);
        for (sn, s, d) in &scr {
            rec.case(&format!("general.{an}.{}{bn}@{dx},{dy},{turn}.{sn}", if single { "curve-" } else { "" }), |rec| k_case(a, &b, &m, rec, s, *d, single, if single { "curve" } else { "chain" }));
        }
        if m.general {
            let k = i + j * 5 + steps.iter().position(|x| x == dx).unwrap() + 3 * steps.iter().position(|x| x == dy).unwrap();
            rec.case(&format!("single.{an}.{}{bn}@{dx},{dy},{turn}", if single { "curve-" } else { "" }), |rec| {
                let single_of = |v: &[MC]| -> Result<CompoundCurve<f32, nalgebra::Const<3>>, Fail> { Ok(chain_of(v)?.spans().iter().map(|s| s.cast::<f32>()).collect()) };
                let (ka, kb) = (single_of(a)?, single_of(&b)?);
                rand::script::set(&[], 0.5);
                let hits: Vec<(f64, f64, f64)> = if single { ka.find_intersections(&kb.spans()[0], None)?.iter().map(|h| (h.a().1.x as f64, h.a().1.y as f64, (h.a().1 - h.b().1).norm() as f64)).collect() } else { ka.find_intersections(&kb, None)?.iter().map(|h| (h.a().1.x as f64, h.a().1.y as f64, (h.a().1 - h.b().1).norm() as f64)).collect() };
                rec.trans(1 + m.points.len() as u64);
                for h in &hits {
                    check!(h.2 < 1.2e-5, "apart", "the points at {h:?} are apart");
                }
                for c in &m.points {
                    let n = hits.iter().filter(|h| (h.0 - c.0).hypot(h.1 - c.1) < 1e-3).count();
                    check!(n == 1, if n == 0 { "missed" } else { "repeated" }, "the crossing {c:?} is reported {n} times");
                }
                check!(hits.len() == m.points.len(), "extra", "{} intersections for {} crossings", hits.len(), m.points.len());
                rec.outcome(&format!("single precision: {} crossings", m.points.len()));
                Ok(())
            });
            for sz in if th { X_SIZES.to_vec() } else { vec![X_SIZES[k % 6], X_SIZES[(k + 1 + j) % 6]] } {
                rec.case(&format!("sized.{}.{}.{an}.{}{bn}@{dx},{dy},{turn}", sz.0, sz.1, if single { "curve-" } else { "" }), |rec| k_sized(a, &b, &m, rec, sz, single, 0.5));
            }
        }
    });
    // crossings on joints
    let n = if th { 24 } else { 8 };
    let mut items = vec![];
    for i in 0..ks.len() {
        for k in 0..ks[i].1.len() {
            for a in 0..n {
                for kind in ["line", "before", "joint", "bent", "bow"] {
                    items.push((i, k, 0.35 + a as f64 * TAU / n as f64, kind));
                }
            }
        }
    }
    env.par(&items, |(i, k, ang, kind), rec| {
        let (an, a) = &ks[*i];
        let next = (k + 1) % a.len();
        let end = a[*k].domain().1;
        let p = a[*k].pt(end);
        if dist(&p, &a[next].pt(a[next].domain().0)) > 1e-9 {
            return;
        }
        let p = (p[0], p[1]);
        let dir = (ang.cos(), ang.sin());
        let bent = ((ang + 0.5).cos(), (ang + 0.5).sin());
        // both directions of the other chain leave on different sides
        let d0 = a[*k].ders(end, 1, Side::Left);
        let d1 = a[next].ders(a[next].domain().0, 1, Side::Right);
        let wedge = |d: &Vec<Vec<f64>>, v: P2| (d[1][0] * v.1 - d[1][1] * v.0) / norm(&d[1]);
        let outs = [wedge(&d0, dir), wedge(&d1, dir), wedge(&d0, bent), wedge(&d1, bent)];
        if outs.iter().any(|w| w.abs() < 0.3 || w * outs[0] < 0.0) {
            return;
        }
        let at = |v: P2, l: f64| Point2::new(p.0 + v.0 * l, p.1 + v.1 * l);
        let line = |v: &[Point2<f64>]| C2::polyline(v, true);
        let b: Vec<C2> = match *kind {
            "line" => vec![line(&[at(dir, -1.3), at(dir, 1.6)])],
            "before" => vec![line(&[at(dir, -1.3), at(dir, -0.3)]), line(&[at(dir, -0.3), at(dir, 1.6)])],
            "joint" => vec![line(&[at(dir, -1.3), at(dir, 0.0)]), line(&[at(dir, 0.0), at(dir, 1.6)])],
            "bent" => vec![line(&[at(dir, -1.3), at(dir, 0.0)]), line(&[at(bent, 0.0), at(bent, 1.6)])],
            _ => {
                let h = |q: Point2<f64>| Point3::new(q.x, q.y, 1.0);
                let z = C2::try_new(2, vec![h(at(dir, -1.3)), h(at(dir, -0.5)), h(at(bent, -0.2)), h(at(dir, 0.0)), h(at(bent, 1.4))], vec![0.0, 0.0, 0.0, 1.0, 1.0, 2.0, 2.0, 2.0]).unwrap();
                vec![z]
            }
        };
        let b: Vec<MC> = chain_of(&b.iter().map(|c| c.model()).collect::<Vec<_>>()).unwrap().spans().iter().map(|c| c.model()).collect();
        let m = meets(a, &b, Some(p));
        if !m.general {
            return;
        }
        for (q, sz) in X_SIZES.iter().enumerate() {
            let swap = (i + k + q) % 2 == 0;
            let (x, y) = if swap { (&b, a) } else { (a, &b) };
            rec.case(&format!("sized.{}.{}.joint.{an}.{k}@{ang:.2}.{kind}", sz.0, sz.1), |rec| k_sized(x, y, &m, rec, *sz, false, 0.5));
        }
        for swap in [false, true] {
            for (sn, s, d) in &scr {
                rec.case(&format!("joint.{an}.{k}@{ang:.2}.{kind}.{sn}{}", if swap { "s" } else { "" }), |rec| {
                    let (x, y) = if swap { (&b, a) } else { (a, &b) };
                    k_case(x, y, &m, rec, s, *d, y.len() == 1 && !swap, if swap { "joint of the other chain" } else { "joint" })
                });
            }
        }
    });
    // corners cut off
    let mut items = vec![];
    for i in 0..ks.len() {
        for k in 0..ks[i].1.len() {
            for e in [0.008, 0.02, 0.05] {
                for f in [1.0, 0.6, 1.7] {
                    items.push((i, k, e, f));
                }
            }
        }
    }
    env.par(&items, |(i, k, e, f), rec| {
        let (an, a) = &ks[*i];
        let next = (k + 1) % a.len();
        let end = a[*k].domain().1;
        let p = a[*k].pt(end);
        if dist(&p, &a[next].pt(a[next].domain().0)) > 1e-9 {
            return;
        }
        let d0 = unit(&a[*k].ders(end, 1, Side::Left)[1]);
        let d1 = unit(&a[next].ders(a[next].domain().0, 1, Side::Right)[1]);
        if dot(&d0, &d1) > 0.8 {
            return;
        }
        let (x, y) = (add(&p, &mul(&d0, -e)), add(&p, &mul(&d1, e * f)));
        let d = unit(&sub(&y, &x));
        let (x, y) = (add(&x, &mul(&d, -0.15)), add(&y, &mul(&d, 0.22)));
        let b = C2::polyline(&[Point2::new(x[0], x[1]), Point2::new(y[0], y[1])], true).model();
        let want: Vec<Cross> = a.iter().flat_map(|m| meet(m, &b, 48).crossings).collect();
        if want.len() != 2 || want.iter().any(|c| c.sin < 0.3) || (want[0].p.0 - want[1].p.0).hypot(want[0].p.1 - want[1].p.1) < 0.007 {
            return;
        }
        for swap in [false, true] {
            for (sn, s, d) in &scr {
                rec.case(&format!("corner.{an}.{k}@{e}.{f}.{sn}{}", if swap { "s" } else { "" }), |rec| {
                    let m = Meets { points: want.iter().map(|c| c.p).collect(), general: true };
                    let b = vec![b.clone()];
                    let (x, y) = if swap { (&b, a) } else { (a, &b) };
                    k_case(x, y, &m, rec, s, *d, false, "corner")
                });
            }
        }
    });
}

// ---------------------------------------------------------------- X03

/// Surfaces of about the size 2 around the origin.
pub fn space_surfaces() -> Vec<(&'static str, MS)> {
    let o = Point3::origin();
    let line = C3::polyline(&[Point3::new(0.9, 0.0, -1.0), Point3::new(0.9, 0.0, 1.0)], true);
    let cone = C3::polyline(&[Point3::new(1.0, 0.0, -1.0), Point3::new(0.3, 0.0, 1.0)], true);
    let ring = C3::try_circle(&Point3::new(0.8, 0.0, 0.0), &Vector3::x(), &Vector3::z(), 0.35).unwrap();
    let bent = C3::try_new(
        3,
        [[-1.0, 0.0, -0.4], [-0.4, 0.1, 0.9], [0.3, -0.1, -0.9], [1.0, 0.0, 0.5]].iter().map(|p| nalgebra::Point4::new(p[0], p[1], p[2], 1.0)).collect(),
        vec![0.0, 0.0, 0.0, 0.0, 1.0, 1.0, 1.0, 1.0],
    )
    .unwrap();
    let fold = C3::polyline(&[Point3::new(-1.0, -0.9, -0.5), Point3::new(0.1, -0.9, 0.6), Point3::new(1.0, -0.9, -0.4)], true);
    let z = |i: usize, j: usize| [0.2, -0.5, 0.6, -0.1, 0.4, -0.6][(i * 2 + j * 3) % 6];
    let wavy = MS {
        pu: 2,
        pv: 3,
        ku: vec![0.0, 0.0, 0.0, 1.0, 2.0, 2.0, 2.0],
        kv: vec![0.0, 0.0, 0.0, 0.0, 1.0, 2.0, 2.0, 2.0, 2.0],
        cps: (0..4)
            .map(|i| {
                (0..5)
                    .map(|j| {
                        let w = [1.0, 1.5, 0.75][(i + j) % 3];
                        vec![(-1.0 + i as f64 * 0.67) * w, (-1.0 + j as f64 * 0.5) * w, z(i, j) * w, w]
                    })
                    .collect()
            })
            .collect(),
    };
    vec![
        ("plane", surf_model(&S3::plane(Point3::new(0.0, 0.0, 0.1), Vector3::new(2.0, 0.0, 0.4), Vector3::new(0.0, 2.0, 0.3)))),
        ("sphere", surf_model(&S3::try_sphere(&o, &Vector3::x(), &Vector3::y(), 0.9).unwrap())),
        ("cylinder", surf_model(&S3::try_revolve(&line, &o, &Vector3::z(), TAU).unwrap())),
        ("part", surf_model(&S3::try_revolve(&cone, &o, &Vector3::z(), 4.0).unwrap())),
        ("torus", surf_model(&S3::try_revolve(&ring, &o, &Vector3::z(), TAU).unwrap())),
        ("bent", surf_model(&S3::extrude(&bent, &Vector3::new(0.2, 1.8, 0.3)))),
        ("fold", surf_model(&S3::extrude(&fold, &Vector3::new(0.0, 1.8, 0.0)))),
        ("wavy", wavy),
    ]
}

pub fn space_curves() -> Vec<(&'static str, MC)> {
    let pl = |v: &[[f64; 3]]| C3::polyline(&v.iter().map(|q| Point3::new(q[0], q[1], q[2])).collect::<Vec<_>>(), true).model();
    let bz = |p: usize, v: &[[f64; 4]]| {
        let n = v.len();
        let mut k = vec![0.0; p + 1];
        for i in 1..n - p {
            k.push(i as f64);
        }
        k.extend(vec![(n - p) as f64; p + 1]);
        C3::try_new(p, v.iter().map(|q| nalgebra::Point4::new(q[0] * q[3], q[1] * q[3], q[2] * q[3], q[3])).collect(), k).unwrap().model()
    };
    vec![
        ("line", pl(&[[-0.3, 0.2, -1.7], [0.4, -0.1, 1.6]])),
        ("across", pl(&[[-1.7, -0.3, 0.2], [1.8, 0.4, -0.3]])),
        ("zigzag", pl(&[[-0.6, 0.1, -1.3], [-0.1, 0.3, 1.2], [0.3, -0.2, -1.2], [0.5, 0.2, 1.4]])),
        ("ring", C3::try_circle(&Point3::new(0.1, 0.0, 0.1), &Vector3::new(1.0, 0.4, 0.0).normalize(), &Vector3::z(), 0.75).unwrap().model()),
        ("arch", bz(2, &[[-0.9, -0.2, -1.2, 1.0], [0.1, 0.3, 2.4, 1.0], [0.7, 0.1, -1.3, 1.0]])),
        ("screw", bz(3, &[[-1.3, 0.1, -0.9, 1.0], [-0.6, -0.7, 1.4, 1.0], [0.1, 0.8, -1.3, 2.0], [0.6, -0.6, 1.1, 1.0], [1.2, 0.3, -0.2, 1.0]])),
    ]
}

/// Moves and turns a curve in space.
fn moved3(m: &MC, d: [f64; 3], turn: usize) -> MC {
    let r = match turn {
        0 => nalgebra::Rotation3::identity(),
        1 => nalgebra::Rotation3::from_euler_angles(0.7, 0.4, 0.1),
        2 => nalgebra::Rotation3::from_euler_angles(-0.5, 1.1, 0.8),
        _ => nalgebra::Rotation3::from_euler_angles(1.9, -0.4, 2.2),
    };
    let mut o = m.clone();
    for q in &mut o.cps {
        let w = q[3];
        let p = r * Vector3::new(q[0], q[1], q[2]);
        for i in 0..3 {
            q[i] = p[i] + d[i] * w;
        }
    }
    o
}

#[derive(Clone, Debug)]
struct Pierce {
    t: f64,
    u: f64,
    v: f64,
    p: Vec<f64>,
    sin: f64,
}

struct Through {
    all: Vec<Pierce>,
    pub general: bool,
}

struct Grid {
    us: Vec<f64>,
    vs: Vec<f64>,
    p: Vec<Vec<Vec<f64>>>,
}

fn grid(m: &MS, per: usize) -> Grid {
    let fine = |b: Vec<f64>| {
        let mut o: Vec<f64> = b.windows(2).flat_map(|w| (0..per).map(|i| w[0] + (w[1] - w[0]) * i as f64 / per as f64).collect::<Vec<_>>()).collect();
        o.push(*b.last().unwrap());
        o
    };
    let (us, vs) = (fine(m.u_model().breaks()), fine(m.v_model().breaks()));
    let p = us.iter().map(|u| vs.iter().map(|v| m.pt(*u, *v)).collect()).collect();
    Grid { us, vs, p }
}

fn through(s: &MS, g: &Grid, c: &MC) -> Through {
    let ((u0, u1), (v0, v1)) = s.domain();
    let (t0, t1) = c.domain();
    let mut ts = vec![];
    for w in c.breaks().windows(2) {
        for i in 0..40 {
            ts.push(w[0] + (w[1] - w[0]) * i as f64 / 40.0);
        }
    }
    ts.push(t1);
    let q: Vec<Vec<f64>> = ts.iter().map(|t| c.pt(*t)).collect();
    let mut all: Vec<Pierce> = vec![];
    let mut near: Vec<Vec<f64>> = vec![];
    for i in 0..g.us.len() - 1 {
        for j in 0..g.vs.len() - 1 {
            let (a, b, d, e) = (&g.p[i][j], &g.p[i + 1][j], &g.p[i][j + 1], &g.p[i + 1][j + 1]);
            let mid = mul(&add(&add(a, b), &add(d, e)), 0.25);
            let rad = [a, b, d, e].iter().map(|x| dist(x, &mid)).fold(0.0, f64::max);
            for k in 0..q.len() - 1 {
                let qm = mul(&add(&q[k], &q[k + 1]), 0.5);
                let gap = dist(&qm, &mid) - rad - 0.5 * dist(&q[k], &q[k + 1]);
                if gap > 0.05 {
                    continue;
                }
                near.push(qm);
                let (mut t, mut u, mut v) = (0.5 * (ts[k] + ts[k + 1]), 0.5 * (g.us[i] + g.us[i + 1]), 0.5 * (g.vs[j] + g.vs[j + 1]));
                let mut ok = false;
                for _ in 0..30 {
                    let ds = s.ders(u, v, 1, Side::Right, Side::Right);
                    let dc = c.ders(t, 1, Side::Right);
                    let r = sub(&ds[0][0], &dc[0]);
                    let m = nalgebra::Matrix3::new(-dc[1][0], ds[1][0][0], ds[0][1][0], -dc[1][1], ds[1][0][1], ds[0][1][1], -dc[1][2], ds[1][0][2], ds[0][1][2]);
                    let Some(inv) = m.try_inverse() else { break };
                    let x = inv * Vector3::new(r[0], r[1], r[2]);
                    t = (t - x.x).clamp(t0, t1);
                    u = (u - x.y).clamp(u0, u1);
                    v = (v - x.z).clamp(v0, v1);
                    if x.norm() < 1e-13 {
                        ok = true;
                        break;
                    }
                }
                let p = c.pt(t);
                if ok && dist(&p, &s.pt(u, v)) < 1e-9 && !all.iter().any(|o| dist(&o.p, &p) < 1e-7) {
                    let ds = s.ders(u, v, 1, Side::Right, Side::Right);
                    let dc = c.ders(t, 1, Side::Right);
                    let n = cross(&unit(&ds[1][0]), &unit(&ds[0][1]));
                    let skew = norm(&n);
                    all.push(Pierce { t, u, v, p, sin: if skew < 0.2 { 0.0 } else { (dot(&unit(&n), &dc[1]) / norm(&dc[1])).abs() } });
                }
            }
        }
    }
    let mut general = true;
    for p in &all {
        general &= p.sin > 0.35;
        let inner = |x: f64, a: f64, b: f64| (x - a) / (b - a) > 0.03 && (b - x) / (b - a) > 0.03;
        general &= inner(p.t, t0, t1) && inner(p.u, u0, u1) && inner(p.v, v0, v1);
        // creases
        if c.p == 1 {
            general &= c.breaks().iter().all(|k| dist(&c.pt(*k), &p.p) > 0.05);
        }
        if s.pu == 1 {
            general &= s.u_model().breaks().iter().all(|k| (k - p.u).abs() > 0.03 * (u1 - u0));
        }
        if s.pv == 1 {
            general &= s.v_model().breaks().iter().all(|k| (k - p.v).abs() > 0.03 * (v1 - v0));
        }
        for o in &all {
            if o.t != p.t {
                general &= dist(&o.p, &p.p) > 0.2 && (o.t - p.t).abs() > 4.0 / 64.0 * (t1 - t0);
            }
        }
    }
    for n in near {
        general &= all.iter().any(|p| dist(&p.p, &n) < 0.35);
    }
    Through { all, general }
}

fn x03(env: &Env) {
    env.note("8 surfaces and 6 curves over a lattice of positions and turns, piercings on knots and seams, other parameter ranges; scripted random choices");
    env.assume("completeness is decided for piercings at more than 20 degrees, 0.2 apart, 4/64 of the domain of the curve apart, off the edges of the surface and the ends of the curve, of sizes from 1 to 1000 with parameter ranges of 0.001 to 100 units, at most 1000 times as long in one object as in the other");
    let th = env.thorough();
    let (ss, cs) = (space_surfaces(), space_curves());
    let grids: Vec<Grid> = ss.iter().map(|s| grid(&s.1, 10)).collect();
    let steps: Vec<f64> = if th { vec![-0.55, -0.4, -0.15, 0.05, 0.18, 0.3, 0.5] } else { vec![-0.4, -0.15, 0.3] };
    let mut items = vec![];
    for i in 0..ss.len() {
        for j in 0..cs.len() {
            for x in &steps {
                for y in &steps {
                    for z in &steps {
                        for t in 0..if th { 4 } else { 2 } {
                            items.push((i, j, [*x, *y, *z], t));
                        }
                    }
                }
            }
        }
    }
    let scr: Vec<_> = if th { scripts_x(false) } else { scripts_x(false).into_iter().take(3).collect() };
    env.par(&items, |(i, j, d, turn), rec| {
        let (sn, s) = &ss[*i];
        let (cn, c) = &cs[*j];
        let c = moved3(c, *d, *turn);
        let m = through(s, &grids[*i], &c);
        for def in if m.general { &[0.5, 0.0][..] } else { &[] } {
            rec.case(&format!("single.{sn}.{cn}@{},{},{},{turn}.{def}", d[0], d[1], d[2]), |rec| {
                let (sf, cv) = (mks(s).cast::<f32>(), of_model::<C3>(&c)?.cast::<f32>());
                rand::script::set(&[], *def);
                let hits = sf.find_intersections(&cv, None)?;
                rec.state(Canon::new().u(canon_s(s)).u(canon(&c)).s("single").f(*def).get());
                rec.trans(1 + m.all.len() as u64);
                for h in &hits {
                    check!((h.a().0 - h.b().0).norm() < 1.2e-5, "apart", "{:?} and {:?} are apart", h.a().0, h.b().0);
                }
                for c in &m.all {
                    let n = hits.iter().filter(|h| { let p = h.b().0; dist(&[p.x as f64, p.y as f64, p.z as f64], &c.p) < 1e-3 }).count();
                    check!(n == 1, if n == 0 { "missed" } else { "repeated" }, "the piercing {:?} is reported {n} times", c.p);
                }
                check!(hits.len() == m.all.len(), "extra", "{} intersections for {} piercings", hits.len(), m.all.len());
                rec.outcome(&format!("single precision: {} piercings", m.all.len()));
                Ok(())
            });
        }
        for (rn, r, def) in &scr {
            rec.case(&format!("{sn}.{cn}@{},{},{},{turn}.{rn}", d[0], d[1], d[2]), |rec| {
                let (sf, cv): (S3, C3) = (mks(s), of_model(&c)?);
                rand::script::set(r, *def);
                let hits = sf.find_intersections(&cv, None)?;
                rec.state(Canon::new().u(canon_s(s)).u(canon(&c)).s(rn).get());
                rec.trans(1 + m.all.len() as u64);
                let ((u0, u1), (v0, v1)) = s.domain();
                let (t0, t1) = c.domain();
                for h in &hits {
                    let ((p, (u, v)), (q, t)) = (h.a(), h.b());
                    check!(u0 <= *u && *u <= u1 && v0 <= *v && *v <= v1 && t0 <= *t && *t <= t1, "range", "{u} {v} {t} are outside of the domains");
                    let (p, q) = (p.coords.as_slice(), q.coords.as_slice());
                    check!(close(p, &s.pt(*u, *v), 1e-9) && close(q, &c.pt(*t), 1e-9), "point", "{p:?} {q:?} are not the points at {u} {v} {t}");
                    check!(dist(p, q) <= 1e-5 * 1.001, "apart", "{p:?} {q:?} at {u} {v} {t} are apart");
                }
                if m.general {
                    let list = || hits.iter().map(|h| (h.a().1, h.b().1)).collect::<Vec<_>>();
                    for c in &m.all {
                        let n = hits.iter().filter(|h| dist(h.b().0.coords.as_slice(), &c.p) < 1e-3).count();
                        check!(n == 1, if n == 0 { "missed" } else { "repeated" }, "the piercing {:?} at {} {} {} is reported {n} times: {:?}", c.p, c.t, c.u, c.v, list());
                    }
                    check!(hits.len() == m.all.len(), "extra", "{} intersections for {} piercings: {:?}", hits.len(), m.all.len(), list());
                    rec.outcome(&format!("{} piercings", m.all.len()));
                } else {
                    rec.outcome("special position: soundness only");
                }
                Ok(())
            });
        }
    });
    // other ranges of the parameter
    let mut items = vec![];
    for i in 0..ss.len() {
        for j in 0..cs.len() {
            for d in [[-0.15, 0.3, 0.05], [0.3, -0.15, -0.4], [0.05, 0.18, 0.3]] {
                for t in 0..2 {
                    items.push((i, j, d, t));
                }
            }
        }
    }
    env.par(&items, |(i, j, d, turn), rec| {
        let (sn, s) = &ss[*i];
        let (cn, c) = &cs[*j];
        let c = moved3(c, *d, *turn);
        let m = through(s, &grids[*i], &c);
        if !m.general {
            return;
        }
        for (k, off) in [(1.0, 0.0), (100.0, 0.0), (1e3, 0.0), (1.0, 1e3)] {
            for (f, g) in [(1.0, 1.0), (1e-3, 1.0), (1.0, 1e2), (1e2, 1.0), (1e2, 1e2), (1e-3, 1e-3)] {
                rec.case(&format!("size.{sn}.{cn}@{},{},{},{turn}.{k}.{off}.{f}.{g}", d[0], d[1], d[2]), |rec| {
                    let c = sized(&ranged(&c, 0.0, g), k, off);
                    let mut s = s.clone();
                    s.ku.iter_mut().for_each(|x| *x *= f);
                    s.kv.iter_mut().for_each(|x| *x *= f);
                    for c in s.cps.iter_mut().flatten() {
                        for i in 0..3 {
                            c[i] *= k;
                        }
                        c[0] += off * c[3];
                    }
                    let (sf, cv): (S3, C3) = (mks(&s), of_model(&c)?);
                    rec.state(Canon::new().u(canon_s(&s)).u(canon(&c)).get());
                    rec.trans(1 + m.all.len() as u64);
                    let hits = sf.find_intersections(&cv, None)?;
                    for x in &m.all {
                        let at = [x.p[0] * k + off, x.p[1] * k, x.p[2] * k];
                        let n = hits.iter().filter(|h| dist(h.b().0.coords.as_slice(), &at) < 1e-3 * k).count();
                        check!(n == 1, if n == 0 { "missed" } else { "repeated" }, "the piercing {:?} is reported {n} times", x.p);
                    }
                    check!(hits.len() == m.all.len(), "extra", "{} intersections for {} piercings", hits.len(), m.all.len());
                    rec.outcome("other sizes");
                    Ok(())
                });
            }
        }
        for (shift, scale) in [(-3.0, 1.0), (0.0, 0.01), (5.0, 0.1), (2.0, 10.0)] {
            rec.case(&format!("range.{sn}.{cn}@{},{},{},{turn}.{scale}", d[0], d[1], d[2]), |rec| {
                let c = ranged(&c, shift, scale);
                let (sf, cv): (S3, C3) = (mks(s), of_model(&c)?);
                let hits = sf.find_intersections(&cv, None)?;
                rec.state(Canon::new().u(canon_s(s)).u(canon(&c)).get());
                rec.trans(1 + m.all.len() as u64);
                for x in &m.all {
                    let n = hits.iter().filter(|h| dist(h.b().0.coords.as_slice(), &x.p) < 1e-3).count();
                    check!(n == 1, if n == 0 { "missed" } else { "repeated" }, "the piercing {:?} is reported {n} times", x.p);
                }
                check!(hits.len() == m.all.len(), "extra", "{} intersections for {} piercings", hits.len(), m.all.len());
                rec.outcome("other ranges");
                Ok(())
            });
        }
    });
    // places on seams and knots
    let mut items = vec![];
    for i in 0..ss.len() {
        let m = &ss[i].1;
        let ((u0, u1), (v0, v1)) = m.domain();
        let mut places: Vec<(f64, f64, &str)> = vec![];
        let f = [0.21, 0.37, 0.68, 0.83];
        for x in f {
            let (u, v) = (u0 + (u1 - u0) * x, v0 + (v1 - v0) * x);
            if dist(&m.pt(u0, v), &m.pt(u1, v)) < 1e-9 {
                places.push((u0, v, "seam"));
            }
            if dist(&m.pt(u, v0), &m.pt(u, v1)) < 1e-9 {
                places.push((u, v0, "seam"));
            }
            for k in m.u_model().breaks() {
                if k > u0 && k < u1 && m.pu > 1 {
                    places.push((k, v, "knot"));
                }
            }
            for k in m.v_model().breaks() {
                if k > v0 && k < v1 && m.pv > 1 {
                    places.push((u, k, "knot"));
                }
            }
        }
        for (u, v, what) in places {
            for tilt in 0..if th { 6 } else { 3 } {
                items.push((i, u, v, what, tilt));
            }
        }
    }
    env.par(&items, |(i, u, v, what, tilt), rec| {
        let (sn, s) = &ss[*i];
        let ds = s.ders(*u, *v, 1, Side::Right, Side::Right);
        let (a, b) = (unit(&ds[1][0]), unit(&ds[0][1]));
        let n = unit(&cross(&a, &b));
        if norm(&ds[1][0]) < 1e-6 || norm(&ds[0][1]) < 1e-6 {
            return;
        }
        let (x, y) = [(0.0, 0.0), (0.5, 0.2), (-0.3, 0.6), (0.8, -0.1), (-0.6, -0.5), (0.1, -0.9)][*tilt];
        let d = unit(&add(&n, &add(&mul(&a, x), &mul(&b, y))));
        let at = |l: f64| { let p = add(&ds[0][0], &mul(&d, l)); Point3::new(p[0], p[1], p[2]) };
        for (rn, r, def) in &scr {
            for (l0, l1) in [(-0.13, 0.17), (-0.17, 0.11)] {
                rec.case(&format!("place.{sn}.{what}@{u:.3},{v:.3}.{tilt}.{l1}.{rn}"), |rec| {
                    let c = C3::polyline(&[at(l0), at(l1)], true);
                    let sf: S3 = mks(s);
                    rand::script::set(r, *def);
                    let hits = sf.find_intersections(&c, None)?;
                    rec.state(Canon::new().u(canon_s(s)).u(canon(&c.model())).s(rn).get());
                    rec.trans(1);
                    let n = hits.iter().filter(|h| dist(h.b().0.coords.as_slice(), &ds[0][0]) < 1e-4 && dist(h.a().0.coords.as_slice(), h.b().0.coords.as_slice()) < 1.001e-5).count();
                    check!(n == 1 && hits.len() == 1, if n == 0 { "missed" } else { "repeated" }, "the piercing at {u} {v} is reported {n} times of {}: {:?}", hits.len(), hits.iter().map(|h| (h.a().1, h.b().1)).collect::<Vec<_>>());
                    rec.outcome(what);
                    Ok(())
                });
            }
        }
    });
}
