//! O01, O02: boolean operations.

use crate::adapt::*;
use crate::boxes::*;
use crate::core::*;
use crate::cross::*;
use crate::curves::*;
use crate::mesh::*;
use crate::model::*;
use crate::{check, fail};
use curvo::prelude::operation::BooleanOperation;
use curvo::prelude::*;
use nalgebra::{Const, Point2};

pub fn table() -> Vec<(&'static str, fn(&Env))> {
    vec![("O01", o01), ("O02", o02)]
}

type P2 = (f64, f64);
type K2 = CompoundCurve<f64, Const<3>>;

const OPS: [(&str, BooleanOperation); 3] = [("union", BooleanOperation::Union), ("intersection", BooleanOperation::Intersection), ("difference", BooleanOperation::Difference)];

fn want(op: BooleanOperation, a: bool, b: bool) -> bool {
    match op {
        BooleanOperation::Union => a || b,
        BooleanOperation::Intersection => a && b,
        BooleanOperation::Difference => a && !b,
    }
}

/// A region: boundaries as fine polygons, the first one is the outer one.
struct Area {
    rings: Vec<Vec<P2>>,
}

impl Area {
    fn has(&self, q: P2) -> bool {
        winding(&self.rings[0], q) != 0 && self.rings[1..].iter().all(|r| winding(r, q) == 0)
    }
    fn off(&self, q: P2) -> f64 {
        self.rings.iter().map(|r| poly_dist(r, q)).fold(f64::INFINITY, f64::min)
    }
}

fn models(k: &K2) -> Vec<MC> {
    k.spans().iter().map(|s| s.model()).collect()
}

/// The pieces of another size and place.
fn sized(ms: &[MC], (s, o): (f64, f64)) -> Vec<MC> {
    let mut v = ms.to_vec();
    for c in v.iter_mut().flat_map(|m| m.cps.iter_mut()) {
        c[0] = c[0] * s + o * c[2];
        c[1] = c[1] * s - 2.0 * o * c[2];
    }
    v
}

/// Results on operands of another size and place, brought back.
fn areas_of(r: &[Region<f64>], (s, o): (f64, f64)) -> Result<Vec<Area>, Fail> {
    let back = |k: &K2| -> K2 {
        let ms: Vec<MC> = models(k);
        chain(&sized(&sized(&ms, (1.0, -o)), (1.0 / s, 0.0)))
    };
    let r: Vec<Region<f64>> = r.iter().map(|r| Region::new(back(r.exterior()), r.interiors().iter().map(|h| back(h)).collect())).collect();
    areas(&r)
}

type K2s = CompoundCurve<f32, Const<3>>;

fn single(ms: &[MC]) -> K2s {
    chain(ms).spans().iter().map(|s| s.cast::<f32>()).collect()
}

fn areas_single(r: &[Region<f32>]) -> Result<Vec<Area>, Fail> {
    let back = |k: &K2s| -> K2 { k.spans().iter().map(|s| s.cast::<f64>()).collect() };
    let r: Vec<Region<f64>> = r.iter().map(|r| Region::new(back(r.exterior()), r.interiors().iter().map(|h| back(h)).collect())).collect();
    areas(&r)
}

/// Other sizes and places of the operands.
const SIZES: [(f64, f64); 6] = [(100.0, 0.0), (1.0, 1e3), (0.2, 0.0), (1e4, -2e4), (1e3, 0.0), (7.0, 3e4)];

fn closed_ring(k: &K2, what: &str) -> Result<Vec<P2>, Fail> {
    let ms = models(k);
    check!(!ms.is_empty(), "empty", "{what} has no pieces");
    for i in 0..ms.len() {
        let n = &ms[(i + 1) % ms.len()];
        let (p, q) = (ms[i].pt(ms[i].domain().1), n.pt(n.domain().0));
        check!(dist(&p, &q) < 1e-3, "open", "{what} has a gap between {p:?} and {q:?} after piece {i} of {}", ms.len());
    }
    Ok(fine(&ms, 24))
}

fn areas(r: &[Region<f64>]) -> Result<Vec<Area>, Fail> {
    r.iter()
        .enumerate()
        .map(|(i, r)| {
            let mut rings = vec![closed_ring(r.exterior(), &format!("the boundary of region {i}"))?];
            for (j, h) in r.interiors().iter().enumerate() {
                rings.push(closed_ring(h, &format!("hole {j} of region {i}"))?);
            }
            Ok(Area { rings })
        })
        .collect()
}

/// Points off the boundaries, and whether they are within the operands.
fn probes(a: &Area, b: &Area, n: usize, off: f64) -> Vec<(P2, bool, bool)> {
    let all: Vec<P2> = a.rings.iter().chain(&b.rings).flatten().cloned().collect();
    let lo = all.iter().fold((f64::INFINITY, f64::INFINITY), |m, p| (m.0.min(p.0), m.1.min(p.1)));
    let hi = all.iter().fold((f64::NEG_INFINITY, f64::NEG_INFINITY), |m, p| (m.0.max(p.0), m.1.max(p.1)));
    let mut out = vec![];
    for i in 0..n {
        for j in 0..n {
            let q = (lo.0 - 0.1 + (hi.0 - lo.0 + 0.2) * (i as f64 + 0.413) / n as f64, lo.1 - 0.1 + (hi.1 - lo.1 + 0.2) * (j as f64 + 0.587) / n as f64);
            if a.off(q) > off && b.off(q) > off {
                out.push((q, a.has(q), b.has(q)));
            }
        }
    }
    out
}

fn compare(op: BooleanOperation, got: &[Area], probes: &[(P2, bool, bool)], rec: &mut Rec) -> Res {
    for (q, x, y) in probes {
        rec.trans(1);
        let n = got.iter().filter(|a| a.has(*q)).count();
        let w = want(op, *x, *y);
        check!((n > 0) == w, if w { "lacks" } else { "has" }, "the point {q:?} is {}in the first and {}in the second operand and {}in the result of {} regions with {:?} boundaries", if *x { "" } else { "not " }, if *y { "" } else { "not " }, if n > 0 { "" } else { "not " }, got.len(), got.iter().map(|a| a.rings.len()).collect::<Vec<_>>());
        check!(n < 2, "overlap", "the point {q:?} is in {n} regions of the result");
    }
    Ok(())
}

/// A closed shape at a place.
fn placed(l: &Loop, d: P2, turn: f64) -> Vec<MC> {
    models(&l.compound()).iter().map(|m| moved2(m, d, turn)).collect()
}

fn chain(ms: &[MC]) -> K2 {
    ms.iter().map(|m| of_model::<C2>(m).unwrap_or_else(|_| panic!("model"))).collect()
}

fn o01(env: &Env) {
    corner_pairs(env);
    lattice_pairs(env);
    let th = env.thorough();
    let unit: Vec<Loop> = shapes((0.0, 0.0), 1.0, (1.0, 1.0));
    let small: Vec<Loop> = shapes((0.0, 0.0), 0.45, (1.0, 1.2));
    let mut firsts: Vec<(String, Vec<MC>)> = vec![];
    for l in &unit {
        firsts.push((l.name.clone(), placed(l, (0.0, 0.0), 0.0)));
        firsts.push((format!("{}-", l.name), placed(&l.reversed(), (0.0, 0.0), 0.0)));
    }
    let steps: Vec<f64> = if th { vec![-2.6, -1.3, -0.9, -0.55, -0.2, 0.07, 0.31, 0.63, 1.0, 1.7] } else { vec![-1.3, -0.2, 0.31, 0.9] };
    let turns: Vec<f64> = if th { vec![0.0, 0.3, 0.7, 2.0] } else { vec![0.3] };
    let mut items = vec![];
    for i in 0..firsts.len() {
        for (j, l) in unit.iter().chain(&small).enumerate() {
            for x in &steps {
                for y in &steps {
                    for t in &turns {
                        for rev in [false, true] {
                            items.push((i, j, l, *x, *y, *t, rev));
                        }
                    }
                }
            }
        }
    }
    let scr: Vec<(&str, f64)> = if th { vec![("m", 0.5), ("l", 0.0), ("h", 1.0 - 1e-12)] } else { vec![("m", 0.5), ("l", 0.0)] };
    env.note(format!("{} closed shapes (polygons, conics, splines, as one curve or a chain, both ways) by {} shapes both ways at {} places and {} turns; all operations, as chains and as single curves where possible; probes on a grid of 14 x 14 points farther than 0.03 from the boundaries; {} constant scripts of the random choices", firsts.len(), unit.len() + small.len(), steps.len() * steps.len(), turns.len(), scr.len()));
    env.assume("pairs in general position: transversal crossings (15 degrees) that are well apart and off the joints");
    env.par(&items, |(i, j, l, x, y, t, rev), rec| {
        let (an, a) = &firsts[*i];
        let r;
        let l = if *rev { r = l.reversed(); &r } else { *l };
        let b = placed(l, (*x, *y), *t);
        let m = meets(a, &b, None);
        if !m.general {
            rec.outcome("special position: skipped");
            return;
        }
        let (ra, rb) = (Area { rings: vec![fine(a, 24)] }, Area { rings: vec![fine(&b, 24)] });
        let ps = probes(&ra, &rb, 14, 0.03);
        let turn = steps.iter().position(|s| s == x).unwrap() + steps.iter().position(|s| s == y).unwrap() * 2 + i + j;
        for (on, op) in if th { OPS.to_vec() } else { vec![OPS[turn % 3]] } {
            rec.case(&format!("{an}.{}{}@{x},{y},{t}.{on}.single", l.name, if *j >= unit.len() { "s" } else { "" }), |rec| {
                rand::script::set(&[], 0.5);
                let r = single(a).boolean(op, &single(&b), None)?;
                compare(op, &areas_single(&r.into_regions())?, &ps, rec)?;
                rec.outcome(&format!("{on}: in single precision"));
                Ok(())
            });
        }
        for sz in if th { SIZES.to_vec() } else { vec![SIZES[turn % 6]] } {
            let (on, op) = OPS[(turn / 6 + j) % 3];
            for (on, op) in if th { OPS.to_vec() } else { vec![(on, op)] } {
                rec.case(&format!("{an}.{}{}@{x},{y},{t}.{on}.size{}.{}", l.name, if *j >= unit.len() { "s" } else { "" }, sz.0, sz.1), |rec| {
                    rand::script::set(&[], 0.5);
                    let (ka, kb) = (chain(&sized(a, sz)), chain(&sized(&b, sz)));
                    let r = ka.boolean(op, &kb, None);
                    let mut h = Canon::new().s(on).f(sz.0).f(sz.1);
                    for m in a.iter().chain(&b) {
                        h = h.u(canon(m));
                    }
                    rec.state(h.get());
                    compare(op, &areas_of(&r?.into_regions(), sz)?, &ps, rec)?;
                    rec.outcome(&format!("{on}: of other sizes"));
                    Ok(())
                });
            }
        }
        for (on, op) in OPS {
            for (sn, def) in &scr {
                let kinds: &[&str] = &["kk", "kc", "ck", "cc"];
                for kind in kinds {
                    if (kind.starts_with('c') && a.len() > 1) || (kind.ends_with('c') && b.len() > 1) || (!th && *kind == "kk" && a.len() == 1 && b.len() == 1) {
                        continue;
                    }
                    rec.case(&format!("{an}.{}{}@{x},{y},{t}.{on}.{kind}{sn}", l.name, if *j >= unit.len() { "s" } else { "" }), |rec| {
                        rand::script::set(&[], *def);
                        let (ka, kb) = (chain(a), chain(&b));
                        let r = match *kind {
                            "kk" => ka.boolean(op, &kb, None),
                            "kc" => ka.boolean(op, &kb.spans()[0], None),
                            "ck" => ka.spans()[0].boolean(op, &kb, None),
                            _ => ka.spans()[0].boolean(op, &kb.spans()[0], None),
                        };
                        let mut h = Canon::new().s(on).s(kind).s(sn);
                        for m in a.iter().chain(&b) {
                            h = h.u(canon(m));
                        }
                        rec.state(h.get());
                        let r = r?.into_regions();
                        let got = areas(&r)?;
                        compare(op, &got, &ps, rec)?;
                        rec.outcome(&format!("{on}: {} crossings", m.points.len()));
                        Ok(())
                    });
                }
            }
        }
    });
}

fn signed(p: &[P2]) -> f64 {
    (0..p.len())
        .map(|i| {
            let q = p[(i + 1) % p.len()];
            p[i].0 * q.1 - p[i].1 * q.0
        })
        .sum()
}

/// No vertex of one on the other or nearly so.
fn apart(a: &[P2], b: &[P2], e: f64) -> bool {
    let off = |x: &[P2], y: &[P2]| x.iter().all(|p| (0..y.len()).all(|i| seg_dist(y[i], y[(i + 1) % y.len()], *p) > e));
    off(a, b) && off(b, a)
}

/// All pairs of lattice polygons, of several sizes.
fn lattice_pairs(env: &Env) {
    let th = env.thorough();
    let mut ps: Vec<Vec<P2>> = vec![];
    for k in 3..=4 {
        ps.extend(polygons(3, k).into_iter().filter(|p| simple(p) && signed(p) > 0.0));
    }
    let shifts = [(0.0, 0.0), (0.5, 0.5), (0.5, 0.25), (-0.25, 0.75), (1.0, 0.0), (0.3, 0.1), (-0.7, 0.45)];
    let sizes = [(1.0, 0.0), (100.0, 0.0), (1.0, 1e3), (0.1, 0.0), (1e3, 0.0), (1e4, -2e4)];
    let mut items = vec![];
    for i in 0..ps.len() {
        for j in 0..ps.len() {
            for k in 0..shifts.len() {
                if th || (i * 7 + j * 3 + k) % 5 == 0 {
                    items.push((i, j, k));
                }
            }
        }
    }
    env.note(format!("all ordered pairs of the {} simple lattice polygons of 3 and 4 vertices (both ways, from every vertex) at {} places and {} sizes in turn{}, none with a vertex on the other", ps.len(), shifts.len(), sizes.len(), if th { "" } else { ", every fifth of them" }));
    env.par(&items, |(i, j, k), rec| {
        let turn = |p: &[P2], rev: bool, rot: usize, d: P2| {
            let mut v: Vec<P2> = p.iter().map(|p| (p.0 + d.0, p.1 + d.1)).collect();
            if rev {
                v.reverse();
            }
            let n = v.len();
            v.rotate_left(rot % n);
            v
        };
        let a = turn(&ps[*i], (i + k) % 2 == 1, *j, (0.0, 0.0));
        let b = turn(&ps[*j], j % 2 == 1, i / 2, shifts[*k]);
        if !apart(&a, &b, 0.02) {
            rec.outcome("special position: skipped");
            return;
        }
        let (s, o) = sizes[(i + j / 3 + k) % sizes.len()];
        let sized = |v: Vec<P2>| -> Vec<P2> { v.into_iter().map(|p| (p.0 * s + o, p.1 * s - 2.0 * o)).collect() };
        let (a, b) = (sized(a), sized(b));
        let ring = |v: &[P2]| {
            let mut v = v.to_vec();
            v.push(v[0]);
            Area { rings: vec![v] }
        };
        let pr = probes(&ring(&a), &ring(&b), 16, 0.02 * s);
        for (on, op) in OPS {
            rec.case(&format!("lattice.{i}.{j}.{k}.{on}"), |rec| {
                rand::script::set(&[], 0.5);
                rec.state(Canon::new().s(on).fs(&a.iter().chain(&b).flat_map(|p| [p.0, p.1]).collect::<Vec<_>>()).get());
                let r = closed_line(&a).boolean(op, &closed_line(&b), None)?;
                compare(op, &areas(&r.into_regions())?, &pr, rec)?;
                rec.outcome(&format!("lattice {on}"));
                Ok(())
            });
        }
    });
}

/// Where the two rings cross.
fn crossings(a: &[P2], b: &[P2]) -> Vec<P2> {
    let mut out = vec![];
    for i in 0..a.len() {
        let (p, q) = (a[i], a[(i + 1) % a.len()]);
        for j in 0..b.len() {
            let (r, s) = (b[j], b[(j + 1) % b.len()]);
            let (d, e) = ((q.0 - p.0, q.1 - p.1), (s.0 - r.0, s.1 - r.1));
            let c = d.0 * e.1 - d.1 * e.0;
            let f = (r.0 - p.0, r.1 - p.1);
            let (x, y) = ((f.0 * e.1 - f.1 * e.0) / c, (f.0 * d.1 - f.1 * d.0) / c);
            if c != 0.0 && (0.0..=1.0).contains(&x) && (0.0..=1.0).contains(&y) {
                out.push((p.0 + d.0 * x, p.1 + d.1 * x));
            }
        }
    }
    out
}

/// A ring of n vertices on two radii in turn.
fn gear(n: usize, r: f64, inner: f64) -> Vec<P2> {
    (0..n)
        .map(|i| {
            let (a, r) = (0.1 + std::f64::consts::TAU * i as f64 / n as f64, if i % 2 == 0 { r } else { r * inner });
            (r * a.cos(), r * a.sin())
        })
        .collect()
}

/// Small shapes over the vertices of large ones, which may have many of them.
fn corner_pairs(env: &Env) {
    let th = env.thorough();
    let larges: Vec<(&str, Vec<P2>)> = vec![
        ("square", vec![(0.0, 0.0), (4.0, 0.0), (4.0, 4.0), (0.0, 4.0)]),
        ("wedge", vec![(0.0, 0.0), (6.0, 1.0), (6.0, 3.0)]),
        ("notch", vec![(0.0, 0.0), (5.0, 0.0), (5.0, 4.0), (2.5, 1.0), (0.0, 4.0)]),
        ("star", gear(14, 2.0, 0.5)),
        ("gear", gear(60, 3.0, 0.9)),
        ("saw", gear(200, 10.0, 0.97)),
        ("round", gear(240, 2.0, 1.0)),
    ];
    let smalls: Vec<(&str, Vec<P2>)> = vec![
        ("square", vec![(-1.0, -1.0), (1.0, -1.0), (1.0, 1.0), (-1.0, 1.0)]),
        ("triangle", vec![(-1.0, -0.8), (1.2, -0.5), (0.1, 1.1)]),
        ("ell", vec![(-1.0, -1.0), (1.0, -1.0), (1.0, 0.1), (0.1, 0.1), (0.1, 1.0), (-1.0, 1.0)]),
        ("round", gear(90, 1.0, 1.0)),
    ];
    let radii: Vec<f64> = if th { vec![0.7, 0.25, 0.1, 0.03, 0.01] } else { vec![0.7, 0.1, 0.03] };
    let offs: Vec<f64> = if th { vec![-0.83, -0.31, 0.12, 0.57] } else { vec![-0.31, 0.57] };
    let mut items = vec![];
    for (i, (_, l)) in larges.iter().enumerate() {
        let most = if th { 24 } else { 5 };
        let n = l.len();
        let vs: Vec<usize> = if n <= most { (0..n).collect() } else { (0..most).map(|k| (k * n) / most + k % 2).collect() };
        for v in vs {
            for j in 0..smalls.len() {
                for r in 0..radii.len() {
                    for x in 0..offs.len() {
                        for y in 0..offs.len() {
                            items.push((i, v, j, r, x, y));
                        }
                    }
                }
            }
        }
    }
    env.note(format!("{} small polygons of {} sizes (0.7 to {}) at {} places over the vertices of {} polygons of up to 240 vertices, both orders of the operands, from several starts, three operations, parameters by length or by number", smalls.len(), radii.len(), radii[radii.len() - 1], offs.len() * offs.len(), larges.len()));
    env.par(&items, |(i, v, j, r, x, y), rec| {
        let (ln, l) = &larges[*i];
        let (sn, s) = &smalls[*j];
        let w = radii[*r];
        let c = l[*v];
        let mut a = l.clone();
        let mut b: Vec<P2> = s.iter().map(|p| (c.0 + w * (p.0 + offs[*x]), c.1 + w * (p.1 + offs[*y]))).collect();
        let n = b.len();
        b.rotate_left((v + x) % n);
        let n = a.len();
        a.rotate_left((v * 5 + 3 * y + j) % n);
        if (x + y + v) % 2 == 1 {
            a.reverse();
        }
        if (x + j) % 2 == 1 {
            b.reverse();
        }
        let clear = f64::max(2e-3, w * 0.02);
        let xs = crossings(&a, &b);
        let close = (0..xs.len()).any(|i| (0..i).any(|j| (xs[i].0 - xs[j].0).hypot(xs[i].1 - xs[j].1) < 2.0 * clear));
        if !apart(&a, &b, clear) || close {
            rec.outcome("special position: skipped");
            return;
        }
        let ring = |v: &[P2]| {
            let mut v = v.to_vec();
            v.push(v[0]);
            Area { rings: vec![v] }
        };
        // around the small shape
        let (ra, rb) = (ring(&a), ring(&b));
        let mut pr = vec![];
        for p in 0..14 {
            for q in 0..14 {
                let g = |k: usize| w * (-2.4 + 4.8 * (k as f64 + 0.413) / 14.0);
                let q = (c.0 + g(p), c.1 + g(q));
                if ra.off(q) > 0.02 * w && rb.off(q) > 0.02 * w {
                    pr.push((q, ra.has(q), rb.has(q)));
                }
            }
        }
        pr.extend(probes(&ra, &rb, 6, 0.03));
        for (on, op) in OPS {
            for swap in [false, true] {
                rec.case(&format!("corner.{ln}.{v}.{sn}.{w}.{x}{y}.{on}{}", if swap { ".s" } else { "" }), |rec| {
                    rand::script::set(&[], 0.5);
                    rec.state(Canon::new().s(on).u(swap as u64).fs(&a.iter().chain(&b).flat_map(|p| [p.0, p.1]).collect::<Vec<_>>()).get());
                    let (ca, cb) = (line_of(&a, x % 2 == 0), line_of(&b, y % 2 == 0));
                    let r = if swap { cb.boolean(op, &ca, None)? } else { ca.boolean(op, &cb, None)? };
                    let got = areas(&r.into_regions())?;
                    let pr: Vec<_> = if swap { pr.iter().map(|(q, x, y)| (*q, *y, *x)).collect() } else { pr.clone() };
                    compare(op, &got, &pr, rec)?;
                    rec.outcome(&format!("corner {on}: {} crossings", xs.len()));
                    Ok(())
                });
            }
        }
    });
}

fn line_of(p: &[P2], normalize: bool) -> C2 {
    let mut v: Vec<Point2<f64>> = p.iter().map(|x| Point2::new(x.0, x.1)).collect();
    v.push(v[0]);
    C2::polyline(&v, normalize)
}

/// A region under test: its rings, the first one is the outer one.
struct Plot {
    name: String,
    rings: Vec<Vec<MC>>,
}

impl Plot {
    fn at(&self, d: P2, turn: f64) -> Vec<Vec<MC>> {
        self.rings.iter().map(|r| r.iter().map(|m| moved2(m, d, turn)).collect()).collect()
    }
}

fn region_of(rings: &[Vec<MC>]) -> Region<f64> {
    Region::new(chain(&rings[0]), rings[1..].iter().map(|r| chain(r)).collect())
}

fn area_of(rings: &[Vec<MC>]) -> Area {
    Area { rings: rings.iter().map(|r| fine(r, 24)).collect() }
}

/// Shapes with up to `most` holes; `pick` tells the shapes of the holes.
fn plots(r: f64, outers: &[&str], holes: &[&str], most: usize) -> Vec<Plot> {
    let mut out = vec![];
    for l in shapes((0.0, 0.0), r, (1.0, 1.0)) {
        if !outers.contains(&l.name.as_str()) {
            continue;
        }
        let (at, w) = places(&l.name);
        let hole = |k: usize, i: usize| -> Loop {
            let q = (at[i].0 * r, at[i].1 * r);
            shapes(q, w * r, (1.0, 1.0)).into_iter().find(|h| h.name == holes[k]).unwrap()
        };
        let outer = models(&l.compound());
        out.push(Plot { name: l.name.clone(), rings: vec![outer.clone()] });
        for k in 0..holes.len() {
            let h = hole(k, 0);
            out.push(Plot { name: format!("{}-{}", l.name, h.name), rings: vec![outer.clone(), models(&h.compound())] });
            if most > 1 {
                let h2 = hole((k + 1) % holes.len(), 1);
                let (h, h2) = if k % 2 == 0 { (h.reversed(), h2) } else { (h, h2.reversed()) };
                out.push(Plot { name: format!("{}-{}-{}", l.name, h.name, h2.name), rings: vec![outer.clone(), models(&h.compound()), models(&h2.compound())] });
            }
        }
    }
    out
}

fn o02(env: &Env) {
    let th = env.thorough();
    let firsts = if th { plots(2.0, &["square", "ellipse", "half", "ell", "comb", "blob"], &["square", "ellipse", "arcs", "star"], 2) } else { plots(2.0, &["square", "half", "ell", "comb", "blob"], &["ellipse", "square"], 2) };
    let mut seconds = if th { plots(1.6, &["square", "ellipse", "arcs", "ell"], &["ellipse", "diamond", "half"], 2) } else { plots(1.6, &["ellipse", "ell"], &["diamond", "half"], 2) };
    for p in &mut seconds {
        p.name += "'";
    }
    let mut small = plots(0.5, &["square", "ellipse", "half"], &["ellipse"], 1);
    for p in &mut small {
        p.name += "\"";
    }
    let steps: Vec<f64> = if th { vec![-3.0, -1.93, -1.3, -0.71, -0.15, 0.33, 0.87, 1.45, 2.1] } else { vec![-1.93, -1.1, -0.55, -0.15, 0.33, 0.87, 1.6] };
    let turns: Vec<f64> = if th { vec![0.0, 0.3, 1.1] } else { vec![0.0, 0.3] };
    let scr: Vec<(&str, f64)> = if th { vec![("m", 0.5), ("l", 0.0)] } else { vec![("m", 0.5)] };
    let mut items = vec![];
    for a in &firsts {
        for b in seconds.iter().chain(&small) {
            for x in &steps {
                for y in &steps {
                    for t in &turns {
                        items.push((a, b, *x, *y, *t));
                    }
                }
            }
        }
    }
    env.note(format!("{} regions with up to two holes by {} regions at {} places and {} turns; all operations, with regions, chains and curves as the second operand and both orders; probes on a grid of 24 x 24 points farther than 0.03 from the boundaries; {} constant scripts of the random choices", firsts.len(), seconds.len() + small.len(), steps.len() * steps.len(), turns.len(), scr.len()));
    env.assume("pairs in general position: transversal crossings (15 degrees) that are well apart and off the joints");
    env.par(&items, |(a, b, x, y, t), rec| {
        let ra = &a.rings;
        let rb = b.at((*x, *y), *t);
        let mut n = 0;
        for p in ra {
            for q in &rb {
                let m = meets(p, q, None);
                n += m.points.len();
                if !m.general {
                    rec.outcome("special position: skipped");
                    return;
                }
            }
        }
        let (aa, ab) = (area_of(ra), area_of(&rb));
        let ps = probes(&aa, &ab, 24, 0.03);
        let turn = steps.iter().position(|s| s == x).unwrap() + steps.iter().position(|s| s == y).unwrap() * 2 + a.rings.len() * 3;
        for (on, op) in if th { OPS.to_vec() } else { vec![OPS[turn % 3]] } {
            rec.case(&format!("{}.{}@{x},{y},{t}.{on}.single", a.name, b.name), |rec| {
                rand::script::set(&[], 0.5);
                let of = |r: &[Vec<MC>]| Region::new(single(&r[0]), r[1..].iter().map(|h| single(h)).collect());
                let r = of(ra).boolean(op, &of(&rb), None)?;
                compare(op, &areas_single(&r.into_regions())?, &ps, rec)?;
                rec.outcome(&format!("{on}: in single precision"));
                Ok(())
            });
        }
        for sz in if th { SIZES.to_vec() } else { vec![SIZES[turn % 6]] } {
            let (on, op) = OPS[(turn / 6 + b.rings.len()) % 3];
            for (on, op) in if th { OPS.to_vec() } else { vec![(on, op)] } {
                rec.case(&format!("{}.{}@{x},{y},{t}.{on}.size{}.{}", a.name, b.name, sz.0, sz.1), |rec| {
                    rand::script::set(&[], 0.5);
                    let big = |r: &[Vec<MC>]| region_of(&r.iter().map(|r| sized(r, sz)).collect::<Vec<_>>());
                    let r = big(ra).boolean(op, &big(&rb), None);
                    let mut h = Canon::new().s(on).f(sz.0).f(sz.1);
                    for m in ra.iter().chain(&rb).flatten() {
                        h = h.u(canon(m));
                    }
                    rec.state(h.get());
                    compare(op, &areas_of(&r?.into_regions(), sz)?, &ps, rec)?;
                    rec.outcome(&format!("{on}: of other sizes"));
                    Ok(())
                });
            }
        }
        for (on, op) in OPS {
            for (sn, def) in &scr {
                for kind in ["rr", "rk", "rc", "sr"] {
                    if kind == "rk" && rb.len() > 1 || kind == "rc" && (rb.len() > 1 || rb[0].len() > 1) || kind == "sr" && !th && *t > 0.0 {
                        continue;
                    }
                    rec.case(&format!("{}.{}@{x},{y},{t}.{on}.{kind}{sn}", a.name, b.name), |rec| {
                        rand::script::set(&[], *def);
                        let (ga, gb) = (region_of(ra), region_of(&rb));
                        let r = match kind {
                            "rr" => ga.boolean(op, &gb, None),
                            "rk" => ga.boolean(op, gb.exterior(), None),
                            "rc" => ga.boolean(op, &gb.exterior().spans()[0], None),
                            _ => gb.boolean(op, &ga, None),
                        };
                        let mut h = Canon::new().s(on).s(kind).s(sn);
                        for m in ra.iter().chain(&rb).flatten() {
                            h = h.u(canon(m));
                        }
                        rec.state(h.get());
                        let got = areas(&r?.into_regions())?;
                        if kind == "sr" {
                            let sp: Vec<(P2, bool, bool)> = ps.iter().map(|p| (p.0, p.2, p.1)).collect();
                            compare(op, &got, &sp, rec)?;
                        } else {
                            compare(op, &got, &ps, rec)?;
                        }
                        rec.outcome(&format!("{on}: {} and {} rings, {n} crossings", ra.len(), rb.len()));
                        Ok(())
                    });
                }
            }
        }
    });
}
