//! B01, K01: bounding boxes, the paired search, containment.

use crate::adapt::*;
use crate::core::*;
use crate::curves::all_knots;
use crate::gen::*;
use crate::mesh::*;
use crate::model::*;
use crate::surfaces::*;
use crate::{check, fail};
use curvo::prelude::*;
use nalgebra::{Const, Point2, Point3, SVector, Vector2, Vector3};
use std::f64::consts::TAU;

pub fn table() -> Vec<(&'static str, fn(&Env))> {
    vec![("B01", b01), ("K01", k01)]
}

pub fn of_model<C: Cv>(m: &MC) -> Result<C, Fail> {
    C::make(m.p, &m.cps, &m.knots).map_err(|e| Fail { kind: "new".into(), detail: e })
}

/// all intervals over a lattice of `n` points
fn intervals(n: usize) -> Vec<(f64, f64)> {
    let mut out = vec![];
    for i in 0..n {
        for j in i..n {
            out.push((i as f64, j as f64));
        }
    }
    out
}

fn all_boxes<const D: usize>(n: usize) -> Vec<[(f64, f64); D]> {
    let iv = intervals(n);
    let mut out: Vec<Vec<(f64, f64)>> = vec![vec![]];
    for _ in 0..D {
        out = out.into_iter().flat_map(|b| iv.iter().map(move |i| { let mut c = b.clone(); c.push(*i); c })).collect();
    }
    out.into_iter().map(|v| v.try_into().unwrap()).collect()
}

fn bb<const D: usize>(b: &[(f64, f64); D]) -> BoundingBox<f64, Const<D>> {
    BoundingBox::new(SVector::from_fn(|i, _| b[i].0), SVector::from_fn(|i, _| b[i].1))
}

fn lattice<const D: usize>(env: &Env, n: usize) {
    let all = all_boxes::<D>(n);
    env.note(format!("all {} boxes over a lattice of {n}^{D} points, every pair of them with 5 tolerances, every point of the lattice of half steps", all.len()));
    env.par(&all, |a, rec| {
        rec.case(&format!("lattice{D}.{}", format!("{a:?}").replace(' ', "")), |rec| {
            let x = bb(a);
            rec.state(a.iter().fold(7, |h, v| h * 31 + v.0 as u64 * 8 + v.1 as u64) + D as u64 * 1_000_000_007);
            // either diagonal gives the same box
            for flip in 0..1usize << D {
                let y = BoundingBox::<f64, Const<D>>::new(
                    SVector::from_fn(|i, _| if flip >> i & 1 == 1 { a[i].1 } else { a[i].0 }),
                    SVector::from_fn(|i, _| if flip >> i & 1 == 1 { a[i].0 } else { a[i].1 }),
                );
                check!(y.min() == x.min() && y.max() == x.max(), "new", "diagonal {flip}: {y:?}");
            }
            for i in 0..D {
                check!(x.min()[i] == a[i].0 && x.max()[i] == a[i].1, "new", "{x:?} of {a:?}");
                check!(x.center()[i] == 0.5 * (a[i].0 + a[i].1) && x.size()[i] == a[i].1 - a[i].0, "center", "{:?} {:?} of {a:?}", x.center(), x.size());
            }
            let f: BoundingBox<f32, Const<D>> = x.cast();
            check!((0..D).all(|i| f.min()[i] == a[i].0 as f32 && f.max()[i] == a[i].1 as f32), "cast", "{f:?}");
            // corners, and the box of the corners
            let cs = x.corners();
            check!(cs.len() == 1 << D, "corners", "{} corners", cs.len());
            for k in 0..1usize << D {
                check!(cs.iter().any(|c| (0..D).all(|i| c[i] == if k >> i & 1 == 1 { a[i].1 } else { a[i].0 })), "corners", "a corner is missing from {cs:?}");
            }
            let y = BoundingBox::new_with_points(cs.iter().rev().cloned());
            let z: BoundingBox<f64, Const<D>> = cs.iter().cloned().collect();
            check!(y.min() == x.min() && y.max() == x.max() && z.min() == x.min() && z.max() == x.max(), "of-points", "{y:?} {z:?} of {a:?}");
            let ls = x.lines();
            for k in 0..1usize << D {
                for i in 0..D {
                    let at = |k: usize| nalgebra::OPoint::<f64, Const<D>>::from(SVector::from_fn(|i, _| if k >> i & 1 == 1 { a[i].1 } else { a[i].0 }));
                    let (p, q) = (at(k), at(k ^ (1 << i)));
                    check!(ls.iter().any(|(s, e)| (s == &p && e == &q) || (s == &q && e == &p)), "lines", "the edge {p:?} {q:?} is missing");
                }
            }
            check!(ls.iter().all(|(s, e)| (0..D).filter(|i| s[*i] != e[*i]).count() <= 1), "lines", "a line is not an edge: {ls:?}");
            // points
            let m = 2 * n + 1;
            for k in 0..m.pow(D as u32) {
                let mut r = k;
                let p = nalgebra::OPoint::<f64, Const<D>>::from(SVector::from_fn(|_, _| { let v = r % m; r /= m; v as f64 * 0.5 - 0.5 }));
                rec.trans(1);
                let want = (0..D).all(|i| a[i].0 <= p[i] && p[i] <= a[i].1);
                check!(x.contains(&p) == want, "contains", "{p:?}: {}", !want);
            }
            for b in &all {
                let y = bb(b);
                for tol in [None, Some(0.0), Some(0.25), Some(0.5), Some(0.75)] {
                    rec.trans(1);
                    let grow = 2.0 * tol.unwrap_or(0.0);
                    let want = (0..D).all(|i| a[i].0.max(b[i].0) - a[i].1.min(b[i].1) <= grow);
                    let got = x.intersects(&y, tol);
                    check!(got == want, "overlap", "{a:?} and {b:?} with {tol:?}: {got}");
                }
            }
            rec.outcome("lattice");
            Ok(())
        });
    });
}

fn encloses(lo: &[f64], hi: &[f64], p: &[f64], e: f64) -> bool {
    (0..p.len()).all(|i| lo[i] - e <= p[i] && p[i] <= hi[i] + e)
}

fn curve_box<C: Cv>(s: &Spec, rec: &mut Rec) -> Res {
    let c: C = crate::curves::mk(s)?;
    let m = c.model();
    let (lo, hi) = c.bbox();
    let e = C::EPS * m.scale();
    let br = m.breaks();
    for w in br.windows(2) {
        for i in 0..=8 {
            let p = m.pt(w[0] + (w[1] - w[0]) * i as f64 / 8.0);
            rec.trans(1);
            check!(encloses(&lo, &hi, &p, e), "curve", "{p:?} is outside of {lo:?} {hi:?}");
        }
    }
    // not beyond the control points
    for d in 0..lo.len() {
        let v: Vec<f64> = m.cps.iter().map(|c| c[d] / c[lo.len()]).collect();
        let (a, b) = (v.iter().cloned().fold(f64::INFINITY, f64::min), v.iter().cloned().fold(f64::NEG_INFINITY, f64::max));
        check!(lo[d] >= a - e && hi[d] <= b + e, "loose", "{lo:?} {hi:?} exceeds the control points");
    }
    rec.outcome("curve");
    Ok(())
}

/// Moves a curve.
fn moved<const N: usize>(m: &MC, d: [f64; N]) -> MC {
    let mut o = m.clone();
    for c in &mut o.cps {
        let w = c[N];
        for i in 0..N {
            c[i] += d[i] * w;
        }
    }
    o
}

fn b01(env: &Env) {
    let th = env.thorough();
    lattice::<2>(env, if th { 5 } else { 4 });
    lattice::<3>(env, 3);
    // boxes of curves, chains and surfaces
    let mut ks: Vec<Knots> = all_knots(if th { 5 } else { 4 }, 2, 3, 1, 1);
    ks.retain(|k| k.p > 0);
    env.note(format!("{} knot vectors x weights x points, 2D and 3D: boxes of curves", ks.len()));
    for dim in [2, 3] {
        let specs = curves(&ks, &['1', 'm', 'g'], &['g', 'w'], dim);
        env.par(&specs, |s, rec| {
            rec.case(&format!("curve{dim}.{}", s.name), |rec| if dim == 2 { curve_box::<C2>(s, rec) } else { curve_box::<C3>(s, rec) });
        });
    }
    let sp = mesh_surfaces(th);
    env.par(&sp, |(name, sf), rec| {
        rec.case(&format!("surface.{name}"), |rec| {
            let b: BoundingBox<f64, Const<3>> = sf.into();
            let m = surf_model(sf);
            let sc = m.cps.iter().flatten().map(|c| norm(&c[..3]) / c[3]).fold(0.0, f64::max);
            let (us, vs) = m.params(5);
            for u in &us {
                for v in &vs {
                    rec.trans(1);
                    let p = m.pt(*u, *v);
                    check!(encloses(b.min().as_slice(), b.max().as_slice(), &p, 1e-12 * sc), "surface", "{p:?} is outside of {b:?}");
                }
            }
            rec.outcome("surface");
            Ok(())
        });
    });
    let ls = shapes((0.5, -0.25), 3.0, (1.0, 0.5));
    env.par(&ls, |l, rec| {
        rec.case(&format!("chain.{}", l.name), |rec| {
            let c = l.compound();
            let b: BoundingBox<f64, Const<2>> = (&c).into();
            for m in l.models() {
                for w in m.breaks().windows(2) {
                    for i in 0..=16 {
                        let p = m.pt(w[0] + (w[1] - w[0]) * i as f64 / 16.0);
                        rec.trans(1);
                        check!(encloses(b.min().as_slice(), b.max().as_slice(), &p, 1e-12), "chain", "{p:?} is outside of {b:?}");
                    }
                }
            }
            rec.outcome("chain");
            Ok(())
        });
    });
    // the paired search
    let ks: Vec<Knots> = clamped(1, 2, 2).into_iter().chain(clamped(2, 1, 2)).chain(clamped(3, if th { 2 } else { 1 }, 2)).chain(unclamped(2, 1, 1)).collect();
    let specs = curves(&ks, &['1', 'm'], &['g'], 2);
    let fr = [0.125, 0.4, 0.5, 0.9];
    let scr: Vec<(Vec<f64>, f64)> = {
        let hi = 1.0 - 1e-12;
        let mut v: Vec<(Vec<f64>, f64)> = vec![(vec![], 0.0), (vec![], 0.5), (vec![], hi)];
        for s in scripts(if th { 8 } else { 4 }, &[0.0, hi], 0.5, if th { 2 } else { 1 }) {
            v.push((s, 0.5));
        }
        v
    };
    let mut items = vec![];
    for i in 0..specs.len() {
        for j in 0..specs.len() {
            if th || (i + 2 * j) % 5 == 0 {
                items.push((i, j));
            }
        }
    }
    env.note(format!("{} pairs of curves brought together at {} pairs of parameters, {} scripts of the random split positions", items.len(), fr.len() * fr.len(), scr.len()));
    env.par(&items, |(i, j), rec| {
        let (ma, mb) = (&specs[*i].m, &specs[*j].m);
        for fa in fr {
            for fb in fr {
                let at = |m: &MC, f: f64| { let (a, b) = m.domain(); a + (b - a) * f };
                let (ta, tb) = (at(ma, fa), at(mb, fb));
                let (pa, pb) = (ma.pt(ta), mb.pt(tb));
                let b = moved::<2>(mb, [pa[0] - pb[0], pa[1] - pb[1]]);
                // crossing properly
                let (da, db) = (ma.ders(ta, 1, Side::Right), b.ders(tb, 1, Side::Right));
                let x = da[1][0] * db[1][1] - da[1][1] * db[1][0];
                if x.abs() < 0.1 * norm(&da[1]) * norm(&db[1]) {
                    continue;
                }
                rec.case(&format!("pair.{}.{}.{fa}.{fb}", specs[*i].name, specs[*j].name), |rec| {
                    let (ca, cb) = (of_model::<C2>(ma)?, of_model::<C2>(&b)?);
                    for (s, def) in &scr {
                        rand::script::set(s, *def);
                        let div = if def == &0.5 && s.is_empty() { None } else { Some(8.0) };
                        let tree = |c: &C2| div.map(|d| c.knots_domain_interval() / d);
                        let (x, y) = (CurveBoundingBoxTree::new(&ca, tree(&ca)), CurveBoundingBoxTree::new(&cb, tree(&cb)));
                        let t = BoundingBoxTraversal::try_traverse(x, y)?;
                        rec.trans(t.pairs().len() as u64);
                        let inside = |c: &C2, t: f64| { let (a, b) = c.knots_domain(); let e = 1e-9 * (1.0 + t.abs()); a - e <= t && t <= b + e };
                        check!(t.pairs().iter().any(|(p, q)| inside(p.curve(), ta) && inside(q.curve(), tb)), "missed", "choices {s:?} then {def}: no pair of {} holds {ta} and {tb}", t.pairs().len());
                        // the pieces are pieces of the curves
                        for (p, _) in t.pairs().iter().take(3) {
                            let (a, b) = p.curve().knots_domain();
                            let u = 0.5 * (a + b);
                            check!(close(p.curve().point_at(u).coords.as_slice(), &ma.pt(u), 1e-9 * ma.scale()), "piece", "a piece differs from the curve at {u}");
                            if let Some(d) = div {
                                let whole = ma.domain().1 - ma.domain().0;
                                check!(b - a <= whole / d + 1e-9, "wide", "a piece of {} of {whole}", b - a);
                            }
                        }
                        rec.outcome("pair found");
                    }
                    Ok(())
                });
            }
        }
    });
    // a curve and a surface
    let sp: Vec<&(String, S3)> = sp.iter().filter(|(n, _)| !["tiny", "huge"].contains(&n.as_str())).enumerate().filter(|(i, _)| th || i % 4 == 0).map(|(_, s)| s).collect();
    let line = gen_curves();
    env.note(format!("{} surfaces by {} curves brought together at 9 places", sp.len(), line.len()));
    env.par(&sp, |(name, sf), rec| {
        let m = surf_model(sf);
        let (du, dv) = m.domain();
        for (k, mc) in line.iter().enumerate() {
            for (fu, fv, ft) in [(0.3, 0.3, 0.4), (0.55, 0.8, 0.7), (0.8, 0.15, 0.25)] {
                let (u, v) = (du.0 + (du.1 - du.0) * fu, dv.0 + (dv.1 - dv.0) * fv);
                let (a, b) = mc.domain();
                let t = a + (b - a) * ft;
                let w = m.ders(u, v, 1, Side::Right, Side::Right);
                let c0 = mc.pt(t);
                let p = &w[0][0];
                let c = moved::<3>(mc, [p[0] - c0[0], p[1] - c0[1], p[2] - c0[2]]);
                let n = cross(&w[1][0], &w[0][1]);
                let d = &c.ders(t, 1, Side::Right)[1];
                if dot(&n, d).abs() < 0.2 * norm(&n) * norm(d) || norm(&n) < 1e-6 {
                    continue;
                }
                rec.case(&format!("through.{name}.{k}.{fu}"), |rec| {
                    let cc = of_model::<C3>(&c)?;
                    for def in [0.0, 0.5, 1.0 - 1e-12] {
                        for dir in [UVDirection::U, UVDirection::V] {
                            rand::script::set(&[], def);
                            let x = SurfaceBoundingBoxTree::new(sf, dir, Some(((du.1 - du.0) / 8.0, (dv.1 - dv.0) / 8.0)));
                            let y = CurveBoundingBoxTree::new(&cc, Some((b - a) / 8.0));
                            let tr = BoundingBoxTraversal::try_traverse(x, y)?;
                            rec.trans(tr.pairs().len() as u64);
                            let e = 1e-9;
                            let ok = tr.pairs().iter().any(|(s, c)| {
                                let ((u0, u1), (v0, v1)) = s.surface().knots_domain();
                                let (t0, t1) = c.curve().knots_domain();
                                u0 - e <= u && u <= u1 + e && v0 - e <= v && v <= v1 + e && t0 - e <= t && t <= t1 + e
                            });
                            check!(ok, "missed", "choice {def}: no pair of {} holds {u},{v} and {t}", tr.pairs().len());
                            rec.outcome("place found");
                        }
                    }
                    Ok(())
                });
            }
        }
    });
}

/// curves in space: a line, a parabola, an arc, a cubic
pub fn gen_curves() -> Vec<MC> {
    let l = C3::polyline(&[Point3::new(0.0, 0.0, 0.0), Point3::new(1.0, 2.0, 3.0)], true);
    let m = C3::polyline(&[Point3::new(0.0, 0.0, 0.0), Point3::new(3.0, -2.0, 0.5), Point3::new(4.0, 0.0, 0.0)], true);
    let c = C3::try_circle(&Point3::origin(), &Vector3::new(1.0, 0.0, 1.0).normalize(), &Vector3::y(), 1.5).unwrap();
    let k = curve(&knots(3, &[1], End::Clamped, End::Clamped, 'u', 'i'), 'm', 'g', 3);
    vec![l.model(), m.model(), c.model(), k.m]
}

// ---------------------------------------------------------------- K01

/// Winding number of a closed polygon about a point that is not on it.
pub fn winding(poly: &[(f64, f64)], q: (f64, f64)) -> i32 {
    let n = poly.len();
    let mut w = 0;
    for i in 0..n {
        let (a, b) = (poly[i], poly[(i + 1) % n]);
        let o = (b.0 - a.0) * (q.1 - a.1) - (b.1 - a.1) * (q.0 - a.0);
        if a.1 <= q.1 && b.1 > q.1 && o > 0.0 {
            w += 1;
        }
        if a.1 > q.1 && b.1 <= q.1 && o < 0.0 {
            w -= 1;
        }
    }
    w
}

pub fn seg_dist(a: (f64, f64), b: (f64, f64), q: (f64, f64)) -> f64 {
    let d = (b.0 - a.0, b.1 - a.1);
    let l = d.0 * d.0 + d.1 * d.1;
    let t = if l > 0.0 { (((q.0 - a.0) * d.0 + (q.1 - a.1) * d.1) / l).clamp(0.0, 1.0) } else { 0.0 };
    ((q.0 - a.0 - d.0 * t).powi(2) + (q.1 - a.1 - d.1 * t).powi(2)).sqrt()
}

pub fn poly_dist(p: &[(f64, f64)], q: (f64, f64)) -> f64 {
    (0..p.len()).map(|i| seg_dist(p[i], p[(i + 1) % p.len()], q)).fold(f64::INFINITY, f64::min)
}

/// A fine polygon of a closed chain.
pub fn fine(ms: &[MC], per: usize) -> Vec<(f64, f64)> {
    let mut out = vec![];
    for m in ms {
        let n = if m.p == 1 { 1 } else { per };
        for w in m.breaks().windows(2) {
            for i in 0..n {
                let p = m.pt(w[0] + (w[1] - w[0]) * i as f64 / n as f64);
                out.push((p[0], p[1]));
            }
        }
    }
    out
}

pub fn simple(p: &[(f64, f64)]) -> bool {
    let n = p.len();
    let orient = |a: (f64, f64), b: (f64, f64), c: (f64, f64)| ((b.0 - a.0) * (c.1 - a.1) - (b.1 - a.1) * (c.0 - a.0)).partial_cmp(&0.0).unwrap() as i32;
    for i in 0..n {
        for j in i + 1..n {
            if p[i] == p[j] {
                return false;
            }
            let (a, b, c, d) = (p[i], p[(i + 1) % n], p[j], p[(j + 1) % n]);
            let adjacent = j == i + 1 || (i == 0 && j == n - 1);
            if adjacent {
                // not folded back
                let (x, y, z) = if j == i + 1 { (a, b, d) } else { (c, a, b) };
                if orient(x, y, z) == 0 && (y.0 - x.0) * (z.0 - y.0) + (y.1 - x.1) * (z.1 - y.1) < 0.0 {
                    return false;
                }
                continue;
            }
            if seg_dist(a, b, c) < 1e-9 || seg_dist(a, b, d) < 1e-9 || seg_dist(c, d, a) < 1e-9 || seg_dist(c, d, b) < 1e-9 {
                return false;
            }
            if orient(a, b, c) * orient(a, b, d) < 0 && orient(c, d, a) * orient(c, d, b) < 0 {
                return false;
            }
        }
    }
    // not flat
    (0..n).map(|i| p[i].0 * p[(i + 1) % n].1 - p[i].1 * p[(i + 1) % n].0).sum::<f64>().abs() > 1e-9
}

/// All closed lattice polygons with `k` vertices that start at their least vertex.
pub fn polygons(side: usize, k: usize) -> Vec<Vec<(f64, f64)>> {
    let n = side * side;
    let mut out = vec![];
    let mut idx = vec![0usize; k];
    loop {
        if (1..k).all(|i| idx[i] >= idx[0]) {
            out.push(idx.iter().map(|i| ((i % side) as f64, (i / side) as f64)).collect());
        }
        let mut d = k;
        loop {
            if d == 0 {
                return out;
            }
            d -= 1;
            idx[d] += 1;
            if idx[d] < n {
                break;
            }
            idx[d] = 0;
        }
    }
}

pub fn closed_line(p: &[(f64, f64)]) -> C2 {
    let mut v: Vec<Point2<f64>> = p.iter().map(|x| Point2::new(x.0, x.1)).collect();
    v.push(v[0]);
    C2::polyline(&v, true)
}

fn k01(env: &Env) {
    let th = env.thorough();
    // ---- polygons, crossing themselves or not
    let mut polys: Vec<Vec<(f64, f64)>> = vec![];
    for k in 3..=if th { 5 } else { 4 } {
        polys.extend(polygons(3, k));
    }
    let quarter: Vec<(f64, f64)> = (0..81).map(|i| ((i % 9) as f64 * 0.5 - 1.0, (i / 9) as f64 * 0.5 - 1.0)).collect();
    env.note(format!("all {} lattice polygons of up to {} vertices (from their least vertex), 81 points each", polys.len(), if th { 5 } else { 4 }));
    let chunks: Vec<(usize, &[Vec<(f64, f64)>])> = polys.chunks(64).enumerate().collect();
    env.par(&chunks, |(i, ps), rec| {
        rec.case(&format!("polygons.{i}"), |rec| {
            for p in *ps {
                for rev in [false, true] {
                    let mut v = p.clone();
                    if rev {
                        v.reverse();
                    }
                    rec.state(v.iter().fold(11, |h: u64, p| h * 100 + p.0 as u64 * 10 + p.1 as u64));
                    let b = PolygonBoundary::new(v.iter().map(|x| Point2::new(x.0, x.1)).collect());
                    for q in &quarter {
                        if poly_dist(&v, *q) < 1e-9 {
                            continue;
                        }
                        rec.trans(1);
                        let want = winding(&v, *q) != 0;
                        let got = b.contains(&Point2::new(q.0, q.1), ())?;
                        check!(got == want, "polygon", "{q:?} in {v:?}: {got}");
                    }
                }
            }
            rec.outcome("polygons");
            Ok(())
        });
    });
    // ---- closed polylines
    let hi = 1.0 - 1e-12;
    let mut lines: Vec<Vec<(f64, f64)>> = vec![];
    for k in 3..=if th { 5 } else { 4 } {
        lines.extend(polygons(3, k).into_iter().filter(|p| simple(p)));
    }
    let lines: Vec<(usize, &Vec<(f64, f64)>)> = lines.iter().enumerate().filter(|(i, p)| th && (p.len() < 5 || i % 6 == 0) || !th && i % 3 == 0).collect();
    env.note(format!("{} simple lattice polygons as closed curves, both ways, 3 random choices, 49 points each", lines.len()));
    env.par(&lines, |(i, p), rec| {
        rec.case(&format!("polyline.{i}"), |rec| {
            // on the lattice and where the coordinates (and the interpolation between equal ones) are rounded
            for (rev, (k, ox, oy)) in [(false, (1.0, 0.0, 0.0)), (true, (1.0, 0.0, 0.0)), (false, (0.3, 0.63, -1.7)), (true, (0.7, -0.1, 0.37)), (true, (1e3, -400.0, 7e3)), (false, (7e4, 3e4, 0.7)), (true, (0.02, 0.03, 0.01))] {
                let at = |q: (f64, f64)| (q.0 * k + ox, q.1 * k + oy);
                let mut v: Vec<(f64, f64)> = p.iter().map(|q| at(*q)).collect();
                if rev {
                    v.reverse();
                }
                let c = closed_line(&v);
                rec.state(crate::curves::canon(&c.model()));
                for y in 0..7 {
                    for x in 0..7 {
                        // a grid through the vertices that also has points just off it
                        let q = at((x as f64 * 0.5 - 0.5, y as f64 * 0.5 - 0.5));
                        let d = poly_dist(&v, q);
                        let want = d < 1e-12 * k || winding(&v, q) != 0;
                        for ch in [0.0, 0.5, hi] {
                            rand::script::set(&[], ch);
                            rec.trans(1);
                            let got = c.contains(&Point2::new(q.0, q.1), None)?;
                            check!(got == want, if d < 1e-12 * k { "boundary" } else { "inside" }, "{q:?} in {v:?} (choice {ch}): {got}");
                        }
                    }
                }
            }
            rec.outcome("polyline");
            Ok(())
        });
    });
    // ---- curved and mixed boundaries, single and chained
    let mut ls: Vec<(String, Vec<C2>)> = vec![];
    for (sn, c, r, st) in [("", (0.5, -0.25), 2.0, (1.0, 1.0)), ("flat", (0.0, 0.0), 3.0, (1.0, 0.25)), ("big", (1234.5, -875.25), 700.0, (1.0, 1.0)), ("far", (1e4, -3e4), 2.0, (0.5, 1.0)), ("small", (0.0125, -0.05), 0.05, (1.0, 1.0))] {
        for l in shapes(c, r, st) {
            let rv = l.reversed();
            ls.push((format!("{}{sn}", l.name), l.spans));
            ls.push((format!("{}{sn}", rv.name), rv.spans));
        }
    }
    for k in 1..8 {
        // circles starting elsewhere
        let a = k as f64 * TAU / 8.0;
        ls.push((format!("turned{k}"), vec![C2::try_arc(&Point2::new(0.0, 0.0), &Vector2::x(), &Vector2::y(), 1.5, a, a + TAU).unwrap()]));
        let h = vec![
            C2::try_arc(&Point2::new(0.0, 0.0), &Vector2::x(), &Vector2::y(), 1.5, a, a + 2.0).unwrap(),
            C2::try_arc(&Point2::new(0.0, 0.0), &Vector2::x(), &Vector2::y(), 1.5, a + 2.0, a + TAU).unwrap(),
        ];
        ls.push((format!("halves{k}"), h));
    }
    env.note(format!("{} closed shapes (polygons, ellipses, arcs with lines, splines; reversed; other starts): points aligned with their vertices and extremes, beside these, and on the boundary", ls.len()));
    env.assume("single precision: shapes within 20 of the origin (farther out it does not resolve the default tolerance), points a hundredth of their size from the boundary");
    let mut scr: Vec<(Vec<f64>, f64)> = vec![(vec![], 0.5), (vec![], 0.0), (vec![], hi)];
    for s in scripts(if th { 6 } else { 2 }, &[0.0, hi], 0.5, if th { 2 } else { 1 }) {
        scr.push((s, 0.5));
    }
    env.par(&ls, |(name, spans), rec| {
        let ms: Vec<MC> = spans.iter().map(|s| s.model()).collect();
        let poly = fine(&ms, 256);
        let chain = CompoundCurve::new(spans.clone());
        // single precision does not resolve the tolerance of 1e-5 where the coordinates are large
        let coarse = poly.iter().any(|p| p.0.abs().max(p.1.abs()) > 20.0);
        let narrow: CompoundCurve<f32, nalgebra::Const<3>> = chain.spans().iter().map(|s| s.cast::<f32>()).collect();
        let size = 0.5 * (poly.iter().map(|p| p.0).fold(f64::NEG_INFINITY, f64::max) - poly.iter().map(|p| p.0).fold(f64::INFINITY, f64::min));
        // coordinates of the vertices, the ends of the pieces and the extremes
        let mut xs: Vec<f64> = vec![];
        let mut ys: Vec<f64> = vec![];
        for m in &ms {
            for u in m.breaks() {
                let p = m.pt(u);
                xs.push(p[0]);
                ys.push(p[1]);
            }
        }
        for f in [f64::min as fn(f64, f64) -> f64, f64::max] {
            xs.push(poly.iter().map(|p| p.0).reduce(f).unwrap());
            ys.push(poly.iter().map(|p| p.1).reduce(f).unwrap());
        }
        let spread = |v: &mut Vec<f64>| {
            v.sort_by(|a, b| a.partial_cmp(b).unwrap());
            v.dedup_by(|a, b| (*a - *b).abs() < 1e-9 * size);
            let (a, b) = (v[0], v[v.len() - 1]);
            for i in 0..=4 {
                v.push(a + (b - a) * (i as f64 + 0.37) / 4.5);
            }
            let k = v.len();
            for i in 0..k {
                v.push(v[i] + 0.013 * size);
            }
        };
        spread(&mut xs);
        spread(&mut ys);
        for (yi, y) in ys.iter().enumerate() {
            rec.case(&format!("shape.{name}.{yi}"), |rec| {
                for x in &xs {
                    if poly_dist(&poly, (*x, *y)) < 2e-3 * size {
                        continue;
                    }
                    let want = winding(&poly, (*x, *y)) != 0;
                    let q = Point2::new(*x, *y);
                    for (s, def) in &scr {
                        rand::script::set(s, *def);
                        rec.trans(1);
                        let got = chain.contains(&q, None)?;
                        check!(got == want, "inside", "{q:?}, choices {s:?} then {def}: {got}");
                        if spans.len() == 1 {
                            rand::script::set(s, *def);
                            let got = spans[0].contains(&q, None)?;
                            check!(got == want, "inside", "single curve, {q:?}, choices {s:?} then {def}: {got}");
                        }
                    }
                    if !coarse && poly_dist(&poly, (*x, *y)) > 1e-2 * size {
                        // the same in single precision
                        let q = Point2::new(*x as f32, *y as f32);
                        for d in [0.5, 0.0, hi] {
                            rand::script::set(&[], d);
                            rec.trans(1);
                            let got = narrow.contains(&q, None)?;
                            check!(got == want, "single", "single precision: {q:?}, choice {d}: {got}");
                        }
                        rec.outcome("single precision");
                    }
                    rec.outcome(if want { "inside" } else { "outside" });
                }
                Ok(())
            });
        }
        rec.case(&format!("on.{name}"), |rec| {
            let (lo, hi) = poly.iter().fold(((f64::INFINITY, f64::INFINITY), (f64::NEG_INFINITY, f64::NEG_INFINITY)), |(l, h), p| ((l.0.min(p.0), l.1.min(p.1)), (h.0.max(p.0), h.1.max(p.1))));
            for (k, m) in ms.iter().enumerate() {
                for w in m.breaks().windows(2) {
                    for i in 1..8 {
                        let u = w[0] + (w[1] - w[0]) * (i as f64 + 0.1) / 8.0;
                        let p = m.pt(u);
                        // rounding may put the outermost points beside the box
                        if [p[0] - lo.0, hi.0 - p[0], p[1] - lo.1, hi.1 - p[1]].iter().any(|d| *d < 1e-9 * size) {
                            continue;
                        }
                        rec.trans(1);
                        check!(chain.contains(&Point2::new(p[0], p[1]), None)?, "boundary", "the point {p:?} of span {k} is not contained");
                    }
                }
            }
            rec.outcome("boundary");
            Ok(())
        });
    });
    // ---- open curves are refused
    let open = vec![
        C2::polyline(&[Point2::new(0.0, 0.0), Point2::new(1.0, 0.0), Point2::new(1.0, 1.0)], true),
        C2::try_arc(&Point2::new(0.0, 0.0), &Vector2::x(), &Vector2::y(), 1.0, 0.0, 5.0).unwrap(),
        C2::try_interpolate(&[Point2::new(0.0, 0.0), Point2::new(1.0, 0.0), Point2::new(1.0, 1.0), Point2::new(0.0, 2.0)], 3).unwrap(),
    ];
    env.par(&[0], |_, rec| { rec.case("open", |rec| {
        for c in &open {
            for q in [Point2::new(0.5, 0.25), Point2::new(9.0, 9.0)] {
                match c.contains(&q, None) {
                    Err(_) => rec.outcome("refused"),
                    Ok(x) => fail!("open", "an open curve answers {x} for {q:?}"),
                }
            }
        }
        Ok(())
    }); });
}
