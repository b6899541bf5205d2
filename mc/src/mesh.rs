//! T01..T04: tessellations of surfaces, trimmed surfaces and regions.

use crate::adapt::*;
use crate::core::*;
use crate::gen::*;
use crate::model::*;
use crate::curves::mats;
use crate::surfaces::*;
use crate::{check, fail};
use curvo::prelude::*;
use nalgebra::{Point2, Point3, Vector2, Vector3};
use std::collections::HashMap;
use std::f64::consts::{PI, TAU};

pub fn table() -> Vec<(&'static str, fn(&Env))> {
    vec![("T01", t01), ("T02", t02), ("T03", t03), ("T04", t04)]
}

type Mesh = SurfaceTessellation<f64, nalgebra::Const<4>>;
type Opt = AdaptiveTessellationOptions<f64>;

// ---------------------------------------------------------------- triangulations of the plane

/// A triangulation of a part of the plane, with vertices identified by their coordinates.
pub struct Plane {
    /// vertex -> merged vertex
    ids: Vec<usize>,
    at: Vec<(f64, f64)>,
    pub faces: Vec<[usize; 3]>,
    /// (area, least area)
    pub area: f64,
    pub least: f64,
}

fn merge(xs: &[f64], tol: f64) -> Vec<usize> {
    let mut order: Vec<usize> = (0..xs.len()).collect();
    order.sort_by(|a, b| xs[*a].partial_cmp(&xs[*b]).unwrap());
    let mut id = vec![0; xs.len()];
    let mut k = 0;
    for w in 0..order.len() {
        if w > 0 && xs[order[w]] - xs[order[w - 1]] > tol {
            k += 1;
        }
        id[order[w]] = k;
    }
    id
}

impl Plane {
    pub fn new(pts: &[(f64, f64)], faces: &[[usize; 3]], size: (f64, f64)) -> Result<Plane, Fail> {
        for f in faces {
            for i in f {
                check!(*i < pts.len(), "index", "face {f:?} of {} vertices", pts.len());
            }
        }
        for p in pts {
            check!(p.0.is_finite() && p.1.is_finite(), "finite", "vertex {p:?}");
        }
        let xs: Vec<f64> = pts.iter().map(|p| p.0).collect();
        let ys: Vec<f64> = pts.iter().map(|p| p.1).collect();
        let (ix, iy) = (merge(&xs, 1e-9 * size.0), merge(&ys, 1e-9 * size.1));
        let mut map = HashMap::new();
        let mut at = vec![];
        let ids = (0..pts.len())
            .map(|i| {
                *map.entry((ix[i], iy[i])).or_insert_with(|| {
                    at.push(pts[i]);
                    at.len() - 1
                })
            })
            .collect();
        let areas: Vec<f64> = faces
            .iter()
            .map(|f| {
                let (a, b, c) = (pts[f[0]], pts[f[1]], pts[f[2]]);
                0.5 * ((b.0 - a.0) * (c.1 - a.1) - (b.1 - a.1) * (c.0 - a.0))
            })
            .collect();
        Ok(Plane { ids, at, faces: faces.to_vec(), area: areas.iter().sum(), least: areas.iter().cloned().fold(0.0, f64::min) })
    }

    /// Directed edges that no neighbour matches, as segments.
    pub fn boundary(&self) -> Result<Vec<((f64, f64), (f64, f64))>, Fail> {
        let mut net: HashMap<(usize, usize), i32> = HashMap::new();
        for f in &self.faces {
            for k in 0..3 {
                let (a, b) = (self.ids[f[k]], self.ids[f[(k + 1) % 3]]);
                if a < b {
                    *net.entry((a, b)).or_insert(0) += 1;
                } else if b < a {
                    *net.entry((b, a)).or_insert(0) -= 1;
                }
            }
        }
        let mut out = vec![];
        for ((a, b), n) in net {
            let (p, q) = (self.at[a], self.at[b]);
            match n {
                0 => {}
                1 => out.push((p, q)),
                -1 => out.push((q, p)),
                _ => fail!("overlap", "edge {p:?} {q:?} has {n} more faces on one side than on the other"),
            }
        }
        Ok(out)
    }

    /// Exactly tiles the rectangle.
    pub fn tiles(&self, du: (f64, f64), dv: (f64, f64)) -> Res {
        let total = (du.1 - du.0) * (dv.1 - dv.0);
        check!(self.least >= -1e-9 * total, "flipped", "a face has the area {}", self.least);
        check!((self.area - total).abs() <= 1e-8 * total, "cover", "the faces cover {} of {total}", self.area);
        let (eu, ev) = (1e-8 * (du.1 - du.0), 1e-8 * (dv.1 - dv.0));
        let mut len = [0.0; 4];
        for (p, q) in self.boundary()? {
            let on = |x: f64, t: f64, e: f64| (x - t).abs() <= e;
            if on(p.1, dv.0, ev) && on(q.1, dv.0, ev) {
                len[0] += q.0 - p.0;
            } else if on(p.0, du.1, eu) && on(q.0, du.1, eu) {
                len[1] += q.1 - p.1;
            } else if on(p.1, dv.1, ev) && on(q.1, dv.1, ev) {
                len[2] += p.0 - q.0;
            } else if on(p.0, du.0, eu) && on(q.0, du.0, eu) {
                len[3] += p.1 - q.1;
            } else {
                fail!("crack", "the edge from {p:?} to {q:?} has a face on one side only");
            }
        }
        for (i, l) in len.iter().enumerate() {
            let w = if i % 2 == 0 { du.1 - du.0 } else { dv.1 - dv.0 };
            check!((l - w).abs() <= 1e-8 * w, "side", "side {i} is covered over {l} of {w}");
        }
        Ok(())
    }
}

fn mesh_state(of: u64, ps: impl Iterator<Item = (f64, f64)>, rec: &mut Rec) {
    rec.state(ps.fold(Canon::new().u(of), |h, p| h.f(p.0).f(p.1)).get());
}

fn uv_of(m: &Mesh) -> Vec<(f64, f64)> {
    m.uvs().iter().map(|p| (p.x, p.y)).collect()
}

/// Vertices are points of the surface, with its unit normals.
fn vertices(t: &Mesh, m: &MS, rec: &mut Rec) -> Res {
    let n = t.points().len();
    check!(t.normals().len() == n && t.uvs().len() == n, "counts", "{n} points, {} normals, {} parameters", t.normals().len(), t.uvs().len());
    let sc = m.cps.iter().flatten().map(|c| norm(&c[..3]) / c[3]).fold(0.0, f64::max);
    let sides = [(Side::Right, Side::Right), (Side::Left, Side::Right), (Side::Right, Side::Left), (Side::Left, Side::Left)];
    let mut seen = HashMap::new();
    for i in 0..n {
        let (u, v) = (t.uvs()[i].x, t.uvs()[i].y);
        check!(u.is_finite() && v.is_finite(), "finite", "vertex {i}: parameters {u},{v}");
        let p = t.points()[i].coords.as_slice();
        let nm = t.normals()[i].as_slice();
        let key = (u.to_bits(), v.to_bits(), nm[0].to_bits(), nm[1].to_bits(), nm[2].to_bits());
        if seen.insert(key, ()).is_some() {
            continue;
        }
        rec.trans(1);
        let all: Vec<_> = sides.iter().map(|(x, y)| m.ders(u, v, 1, *x, *y)).collect();
        check!(close(p, &all[0][0][0], 1e-8 * sc), "vertex", "at {u},{v}: {p:?} must be {:?}", all[0][0][0]);
        check!(nm.iter().all(|x| x.is_finite()), "normal", "at {u},{v}: {nm:?}");
        let ok = all.iter().any(|w| {
            let (a, b) = (&w[1][0], &w[0][1]);
            let x = cross(a, b);
            let d = norm(a) * norm(b);
            norm(&x) < 1e-6 * sc * sc || norm(&x) < 1e-5 * d || close(nm, &unit(&x), 1e-6)
        });
        check!(ok, "normal", "at {u},{v}: {nm:?} must be {:?}", unit(&cross(&all[0][1][0], &all[0][0][1])));
    }
    Ok(())
}

fn plane_of(t: &Mesh, m: &MS, rec: &mut Rec) -> Result<Plane, Fail> {
    let (du, dv) = m.domain();
    mesh_state(canon_s(m), uv_of(t).into_iter(), rec);
    Plane::new(&uv_of(t), t.faces(), (du.1 - du.0, dv.1 - dv.0))
}

fn whole(t: &Mesh, m: &MS, rec: &mut Rec) -> Res {
    vertices(t, m, rec)?;
    let (du, dv) = m.domain();
    plane_of(t, m, rec)?.tiles(du, dv)
}

/// Surfaces to be tessellated, with whether they are smooth and evenly curved.
pub fn mesh_surfaces(th: bool) -> Vec<(String, S3)> {
    let mut sp: Vec<(String, S3)> = vec![];
    let ks: Vec<Knots> = dir_knots(3, th);
    for (i, ku) in ks.iter().enumerate() {
        for (j, kv) in ks.iter().enumerate() {
            if !th && (i * 3 + j * 2) % 4 != 0 {
                continue;
            }
            for w in ['1', 'm'] {
                let s = surface(ku, kv, w, if (i + j) % 3 == 0 { 'p' } else { 'g' });
                sp.push((s.name.clone(), mks(&s.m)));
            }
        }
    }
    // very small and very large parameter ranges
    for (n, fu, fv) in [("small", 1.0 / 1024.0, 1.0 / 4096.0), ("mixed", 1.0 / 1024.0, 1024.0), ("large", 512.0, 4096.0)] {
        for i in [0, ks.len() / 2, ks.len() - 1] {
            let mut s = surface(&ks[i], &ks[(i * 2 + 1) % ks.len()], 'm', 'g').m;
            s.ku.iter_mut().for_each(|x| *x *= fu);
            s.kv.iter_mut().for_each(|x| *x *= fv);
            sp.push((format!("{n}.{i}"), mks(&s)));
        }
    }
    let o = Point3::new(0.5, -0.25, 1.0);
    sp.push(("sphere".into(), S3::try_sphere(&o, &Vector3::x(), &Vector3::y(), 2.0).unwrap()));
    sp.push(("sphere2".into(), S3::try_sphere(&o, &Vector3::z(), &Vector3::x(), 1.0).unwrap()));
    for (n, r) in [("tiny", 1e-5), ("huge", 1e5)] {
        let l = NurbsCurve3D::polyline(&[Point3::new(r, 0.0, -r), Point3::new(r, 0.0, r)], true);
        sp.push((n.into(), S3::try_revolve(&l, &Point3::origin(), &Vector3::z(), TAU).unwrap()));
    }
    let line = NurbsCurve3D::polyline(&[Point3::new(2.0, 0.0, -1.0), Point3::new(2.0, 0.0, 2.0)], true);
    for (i, t) in [TAU, PI, 1.0, 4.0].iter().enumerate() {
        sp.push((format!("cylinder{i}"), S3::try_revolve(&line, &Point3::origin(), &Vector3::z(), *t).unwrap()));
    }
    let cone = NurbsCurve3D::polyline(&[Point3::new(2.0, 0.0, -1.0), Point3::new(0.0, 0.0, 2.0)], true);
    sp.push(("cone".into(), S3::try_revolve(&cone, &Point3::origin(), &Vector3::z(), TAU).unwrap()));
    let circ = NurbsCurve3D::try_circle(&Point3::new(3.0, 0.0, 0.0), &Vector3::x(), &Vector3::z(), 1.0).unwrap();
    sp.push(("torus".into(), S3::try_revolve(&circ, &Point3::origin(), &Vector3::z(), TAU).unwrap()));
    sp.push(("tube".into(), S3::extrude(&circ, &Vector3::new(0.0, 3.0, 0.0))));
    sp.push(("plane".into(), S3::plane(Point3::new(1.0, 0.0, 0.0), Vector3::new(2.0, 0.0, 0.0), Vector3::new(0.0, 1.0, 1.0))));
    let bend = NurbsCurve3D::polyline(&[Point3::new(0.0, 0.0, 0.0), Point3::new(1.0, 0.0, 1.0), Point3::new(2.0, 0.0, 0.0), Point3::new(4.0, 0.0, 0.0)], true);
    sp.push(("bend".into(), S3::extrude(&bend, &Vector3::new(0.0, 3.0, 1.0))));
    sp
}

fn options(th: bool) -> Vec<(String, Opt)> {
    let mut v = vec![];
    let tols: &[f64] = if th { &[0.3, 2.5e-2, 2e-3] } else { &[0.1, 5e-3] };
    let depths: &[(usize, usize)] = if th { &[(0, 0), (0, 1), (0, 2), (0, 3), (0, 6), (1, 1), (1, 3), (2, 2), (3, 0), (2, 5)] } else { &[(0, 0), (0, 1), (0, 3), (1, 2), (2, 1), (0, 5)] };
    let divs: &[(usize, usize)] = if th { &[(1, 1), (2, 3), (7, 1), (1, 9), (5, 4)] } else { &[(1, 1), (3, 5), (9, 2)] };
    for t in tols {
        for (a, b) in depths {
            for (du, dv) in divs {
                v.push((
                    format!("t{t}d{a}-{b}m{du}-{dv}"),
                    Opt { norm_tolerance: *t, min_divs_u: *du, min_divs_v: *dv, min_depth: *a, max_depth: *b },
                ));
            }
        }
    }
    v
}

/// (vertices of the side v = vmin, vertices of the side u = umin)
fn side_counts(t: &Mesh, m: &MS) -> (usize, usize) {
    let (du, dv) = m.domain();
    let mut us: Vec<f64> = uv_of(t).iter().filter(|p| (p.1 - dv.0).abs() < 1e-9).map(|p| p.0).collect();
    let mut vs: Vec<f64> = uv_of(t).iter().filter(|p| (p.0 - du.0).abs() < 1e-9).map(|p| p.1).collect();
    for x in [&mut us, &mut vs] {
        x.sort_by(|a, b| a.partial_cmp(b).unwrap());
        x.dedup_by(|a, b| (*a - *b).abs() < 1e-9);
    }
    (us.len(), vs.len())
}

fn t01(env: &Env) {
    let th = env.thorough();
    let sp = mesh_surfaces(th);
    let opts = options(th);
    env.note(format!("{} surfaces, regular meshes of 4 sizes, meshes without options and with {} option sets", sp.len(), opts.len()));
    env.par(&sp, |(name, sf), rec| {
        let m = surf_model(sf);
        let (du, dv) = m.domain();
        let total = (du.1 - du.0) * (dv.1 - dv.0);
        rec.case(&format!("regular.{name}"), |rec| {
            rec.state(canon_s(&m));
            for (a, b) in [(1, 1), (3, 2), (2, 5), (6, 6)] {
                let t = sf.regular_tessellate(a, b);
                whole(&t, &m, rec)?;
                check!(t.faces().len() == 2 * a * b, "faces", "{} faces for {a} by {b} divisions", t.faces().len());
                rec.outcome("regular");
            }
            Ok(())
        });
        rec.case(&format!("none.{name}"), |rec| {
            let t = sf.tessellate(None);
            whole(&t, &m, rec)?;
            rec.outcome("no options");
            let f: SurfaceTessellation<f32, nalgebra::Const<4>> = sf.cast::<f32>().tessellate(None);
            check!(f.faces() == t.faces(), "f32", "other faces in single precision");
            let c: SurfaceTessellation<f64, nalgebra::Const<4>> = t.cast();
            check!(c.faces() == t.faces() && c.points() == t.points() && c.uvs() == t.uvs(), "cast", "cast changes the mesh");
            Ok(())
        });
        for (on, o) in &opts {
            rec.case(&format!("{name}.{on}"), |rec| {
                let t = sf.tessellate(Some(o.clone()));
                whole(&t, &m, rec)?;
                // subdivision bounds, against the mesh of the same grid without subdivision
                let base = sf.tessellate(Some(Opt { min_depth: 0, max_depth: 0, ..o.clone() }));
                let (nb, nt) = (base.faces().len(), t.faces().len());
                let big = |t: &Mesh| {
                    t.faces()
                        .iter()
                        .map(|f| {
                            let p: Vec<_> = f.iter().map(|i| t.uvs()[*i]).collect();
                            0.5 * ((p[1].x - p[0].x) * (p[2].y - p[0].y) - (p[1].y - p[0].y) * (p[2].x - p[0].x)).abs()
                        })
                        .fold(0.0, f64::max)
                };
                let lo = 1usize << o.min_depth;
                let hi = 1usize << o.max_depth.max(o.min_depth);
                check!(nt >= nb * lo, "min-depth", "{nt} faces, {nb} before subdivision");
                check!(big(&t) <= big(&base) / lo as f64 + 1e-9 * total, "min-depth", "a face has the area {}, {} before subdivision", big(&t), big(&base));
                check!(nt <= nb * hi * 4, "max-depth", "{nt} faces, {nb} before subdivision");
                let (cu, cv) = side_counts(&base, &m);
                if m.pu > 1 {
                    check!(cu > o.min_divs_u, "min-divs", "{cu} vertices along u");
                }
                if m.pv > 1 {
                    check!(cv > o.min_divs_v, "min-divs", "{cv} vertices along v");
                }
                rec.outcome(if nt == nb { "as the grid" } else { "subdivided" });
                Ok(())
            });
        }
        // evenly curved shapes: no edge along a parameter turns by more than the tolerance
        if ["tiny", "huge", "sphere", "sphere2", "cylinder0", "cylinder1", "cylinder3", "torus", "tube"].contains(&name.as_str()) {
            for tol in [0.1, 2.5e-2, 4e-3] {
                rec.case(&format!("flat.{name}.{tol}"), |rec| {
                    let t = sf.tessellate(Some(Opt { norm_tolerance: tol, max_depth: 12, ..Default::default() }));
                    whole(&t, &m, rec)?;
                    for f in t.faces() {
                        for k in 0..3 {
                            let (a, b) = (f[k], f[(k + 1) % 3]);
                            let (p, q) = (t.uvs()[a], t.uvs()[b]);
                            // cells at a pole are not subdivided
                            let cap = 0.126 * (dv.1 - dv.0);
                            let polar = [p, q].iter().any(|x| name.starts_with("sphere") && (x.y < dv.0 + cap - 1e-9 || x.y > dv.1 - cap + 1e-9));
                            if polar || ((p.x - q.x).abs() > 1e-12 && (p.y - q.y).abs() > 1e-12) {
                                continue;
                            }
                            let d = (t.normals()[a] - t.normals()[b]).norm_squared();
                            check!(d <= tol * 1.01, "flat", "from {p:?} to {q:?} the normal turns by {d} (tolerance {tol})");
                        }
                    }
                    rec.outcome("flat enough");
                    Ok(())
                });
            }
        }
    });
}

// ---------------------------------------------------------------- T02

fn t02(env: &Env) {
    let th = env.thorough();
    let sp = mesh_surfaces(false);
    // prescribed parameters, as fractions of the side
    let lists: Vec<Vec<f64>> = vec![
        vec![0.0, 1.0],
        vec![0.0, 0.3, 1.0],
        vec![0.0, 0.25, 0.5, 0.75, 1.0],
        vec![0.0, 0.05, 0.1, 0.6, 1.0],
        (0..=13).map(|i| i as f64 / 13.0).collect(),
    ];
    let opts: Vec<(String, Option<Opt>)> = {
        let mut v = vec![("none".to_string(), None)];
        let o = |t: f64, a: usize, b: usize, d: usize| Some(Opt { norm_tolerance: t, min_depth: a, max_depth: b, min_divs_u: d, min_divs_v: d });
        v.push(("d3".into(), o(2e-2, 0, 3, 1)));
        v.push(("m1".into(), o(5e-2, 1, 2, 1)));
        if th {
            v.push(("d5".into(), o(1e-2, 0, 5, 3)));
            v.push(("d0".into(), o(1e-2, 0, 0, 7)));
            v.push(("m2".into(), o(1e-2, 2, 4, 2)));
        }
        v
    };
    // which list (or none) for each of the four sides
    let nl = lists.len();
    let mut layouts: Vec<[usize; 4]> = vec![];
    for a in 0..=nl {
        for b in 0..=nl {
            for c in 0..=nl {
                for d in 0..=nl {
                    if (a + 2 * b + 3 * c + 5 * d) % if th { 4 } else { 11 } == 0 || [a, b, c, d].iter().filter(|x| **x > 0).count() == 1 {
                        layouts.push([a, b, c, d]);
                    }
                }
            }
        }
    }
    let items: Vec<(usize, usize)> = (0..sp.len()).filter(|i| th || i % 3 == 0 || sp[*i].0.len() < 10).flat_map(|i| (0..opts.len()).map(move |o| (i, o))).collect();
    env.note(format!("{} surface and option pairs by {} layouts of prescribed sides", items.len(), layouts.len()));
    env.par(&items, |(i, o), rec| {
        let (name, sf) = &sp[*i];
        let (on, opt) = &opts[*o];
        let m = surf_model(sf);
        let (du, dv) = m.domain();
        for lay in &layouts {
            rec.case(&format!("{name}.{on}.{}{}{}{}", lay[0], lay[1], lay[2], lay[3]), |rec| {
                let mut c = BoundaryConstraints::<f64>::default();
                let at = |k: usize, d: (f64, f64)| -> Vec<f64> { lists[k - 1].iter().map(|f| if *f == 1.0 { d.1 } else { d.0 + (d.1 - d.0) * f }).collect() };
                if lay[0] > 0 {
                    c = c.with_u_parameters_at_v_min(at(lay[0], du));
                }
                if lay[1] > 0 {
                    c = c.with_v_parameters_at_u_max(at(lay[1], dv));
                }
                if lay[2] > 0 {
                    c = c.with_u_parameters_at_v_max(at(lay[2], du));
                }
                if lay[3] > 0 {
                    c = c.with_v_parameters_at_u_min(at(lay[3], dv));
                }
                let t = sf.constrained_tessellate(c, opt.clone());
                vertices(&t, &m, rec)?;
                let pl = plane_of(&t, &m, rec)?;
                pl.tiles(du, dv)?;
                let (eu, ev) = (1e-9 * (du.1 - du.0), 1e-9 * (dv.1 - dv.0));
                let used: Vec<(f64, f64)> = t.faces().iter().flatten().map(|i| (t.uvs()[*i].x, t.uvs()[*i].y)).collect();
                for s in 0..4 {
                    if lay[s] == 0 {
                        continue;
                    }
                    let (along, want): (Vec<f64>, Vec<f64>) = match s {
                        0 => (used.iter().filter(|p| (p.1 - dv.0).abs() < ev).map(|p| p.0).collect(), at(lay[s], du)),
                        1 => (used.iter().filter(|p| (p.0 - du.1).abs() < eu).map(|p| p.1).collect(), at(lay[s], dv)),
                        2 => (used.iter().filter(|p| (p.1 - dv.1).abs() < ev).map(|p| p.0).collect(), at(lay[s], du)),
                        _ => (used.iter().filter(|p| (p.0 - du.0).abs() < eu).map(|p| p.1).collect(), at(lay[s], dv)),
                    };
                    for x in &along {
                        check!(want.iter().any(|w| (w - x).abs() < eu.max(ev)), "extra", "side {s}: a vertex at {x}, prescribed are {want:?}");
                    }
                    for w in &want {
                        check!(along.iter().any(|x| (w - x).abs() < eu.max(ev)), "missing", "side {s}: no vertex at {w}");
                    }
                }
                rec.outcome(&format!("{} sides", lay.iter().filter(|x| **x > 0).count()));
                Ok(())
            });
        }
    });
}

// ---------------------------------------------------------------- T03

/// A closed boundary: its curve as one or several spans, and its exact area.
pub struct Loop {
    pub name: String,
    pub spans: Vec<C2>,
    /// positive
    pub area: f64,
    pub poly: bool,
}

impl Loop {
    pub fn models(&self) -> Vec<MC> {
        self.spans.iter().map(|s| s.model()).collect()
    }
    pub fn compound(&self) -> CompoundCurve<f64, nalgebra::Const<3>> {
        CompoundCurve::new(self.spans.clone())
    }
}

fn shoelace(p: &[(f64, f64)]) -> f64 {
    let n = p.len();
    (0..n).map(|i| p[i].0 * p[(i + 1) % n].1 - p[i].1 * p[(i + 1) % n].0).sum::<f64>() * 0.5
}

/// Area under a closed chain, by fine evaluation of the model.
fn area_of(ms: &[MC]) -> f64 {
    let mut p = vec![];
    for m in ms {
        for w in m.breaks().windows(2) {
            for i in 0..256 {
                let q = m.pt(w[0] + (w[1] - w[0]) * i as f64 / 256.0);
                p.push((q[0], q[1]));
            }
        }
    }
    shoelace(&p)
}

fn lines(p: &[(f64, f64)]) -> C2 {
    let mut v: Vec<Point2<f64>> = p.iter().map(|x| Point2::new(x.0, x.1)).collect();
    v.push(v[0]);
    C2::polyline(&v, true)
}

/// Closed shapes around a centre, within the square of half width `r`.
pub fn shapes(c: (f64, f64), r: f64, stretch: (f64, f64)) -> Vec<Loop> {
    let at = |x: f64, y: f64| (c.0 + r * x * stretch.0, c.1 + r * y * stretch.1);
    let p = |x: f64, y: f64| {
        let q = at(x, y);
        Point2::new(q.0, q.1)
    };
    let (ax, ay) = (Vector2::new(stretch.0, 0.0), Vector2::new(0.0, stretch.1));
    let (rx, ry) = (r * stretch.0, r * stretch.1);
    let polys: Vec<(&str, Vec<(f64, f64)>)> = vec![
        ("square", vec![(-1.0, -1.0), (1.0, -1.0), (1.0, 1.0), (-1.0, 1.0)]),
        ("diamond", vec![(1.0, 0.0), (0.0, 1.0), (-1.0, 0.0), (0.0, -1.0)]),
        ("ell", vec![(-1.0, -1.0), (1.0, -1.0), (1.0, 0.0), (0.0, 0.0), (0.0, 1.0), (-1.0, 1.0)]),
        ("star", vec![(1.0, 0.0), (0.25, 0.25), (0.0, 1.0), (-0.25, 0.25), (-1.0, 0.0), (-0.25, -0.25), (0.0, -1.0), (0.25, -0.25)]),
        ("comb", vec![(-1.0, -1.0), (1.0, -1.0), (1.0, 1.0), (0.5, 1.0), (0.5, -0.5), (0.25, -0.5), (0.25, 1.0), (-0.25, 1.0), (-0.25, -0.5), (-0.5, -0.5), (-0.5, 1.0), (-1.0, 1.0)]),
    ];
    let mut out = vec![];
    for (n, v) in polys {
        let v: Vec<(f64, f64)> = v.iter().map(|q| at(q.0, q.1)).collect();
        out.push((n, vec![lines(&v)], true));
    }
    let o = p(0.0, 0.0);
    out.push(("ellipse", vec![C2::try_ellipse(&o, &(ax * r), &(ay * r)).unwrap()], false));
    let arc = |a: f64, b: f64| C2::try_ellipse_arc(&o, &(ax * r), &(ay * r), a, b).unwrap();
    out.push(("arcs", vec![arc(0.0, 1.0), arc(1.0, 4.0), arc(4.0, TAU)], false));
    let seg = |a: Point2<f64>, b: Point2<f64>| C2::polyline(&[a, b], true);
    out.push(("half", vec![arc(0.0, PI), seg(p(-1.0, 0.0), p(-1.0, -1.0)), seg(p(-1.0, -1.0), p(1.0, -1.0)), seg(p(1.0, -1.0), p(1.0, 0.0))], false));
    // a rounded blob: uniform quadratic, closed
    let b: Vec<(f64, f64)> = vec![(1.0, 0.2), (0.6, 1.0), (-0.3, 0.7), (-1.0, 0.5), (-0.8, -0.9), (0.5, -0.6), (1.0, 0.2), (0.6, 1.0)];
    let cps: Vec<Point3<f64>> = b.iter().map(|q| { let a = at(q.0, q.1); Point3::new(a.0, a.1, 1.0) }).collect();
    out.push(("blob", vec![C2::try_new(2, cps, (0..11).map(|i| i as f64).collect()).unwrap()], false));
    let _ = (rx, ry);
    out.into_iter()
        .map(|(n, spans, poly)| {
            let ms: Vec<MC> = spans.iter().map(|s| s.model()).collect();
            Loop { name: n.to_string(), area: area_of(&ms).abs(), spans, poly }
        })
        .collect()
}

impl Loop {
    pub fn reversed(&self) -> Loop {
        let spans = self.spans.iter().rev().map(|s| s.inverse()).collect();
        Loop { name: format!("{}-", self.name), spans, area: self.area, poly: self.poly }
    }
}

/// Places for two holes inside of a shape, and their half width (in units of that of the shape).
pub fn places(shape: &str) -> ([(f64, f64); 2], f64) {
    match shape.trim_end_matches('-') {
        "blob" => ([(-0.5, 0.2), (-0.1, -0.4)], 0.15),
        "star" => ([(-0.25, 0.0), (0.0, -0.3)], 0.1),
        "comb" => ([(-0.75, 0.0), (0.0, -0.75)], 0.15),
        _ => ([(-0.5, 0.0), (0.0, -0.5)], 0.2),
    }
}

/// Distance of a point from a chain.
fn off(ms: &[MC], q: (f64, f64)) -> f64 {
    ms.iter().map(|m| nearest_on(m, &[q.0, q.1])).fold(f64::INFINITY, f64::min)
}

fn nearest_on(m: &MC, q: &[f64]) -> f64 {
    if m.p == 1 {
        let mut best = f64::INFINITY;
        for w in m.breaks().windows(2) {
            let (a, b) = (m.pt(w[0]), m.pt(w[1]));
            let d = sub(&b, &a);
            let t = (dot(&sub(q, &a), &d) / dot(&d, &d)).clamp(0.0, 1.0);
            best = best.min(dist(q, &add(&a, &mul(&d, t))));
        }
        return best;
    }
    // the best sample of each span, those that may lead to the nearest point
    let (a, b) = m.domain();
    let n = 32;
    let mut starts: Vec<(f64, f64, f64)> = vec![];
    for w in m.breaks().windows(2) {
        let ps: Vec<Vec<f64>> = (0..=n).map(|i| m.pt(w[0] + (w[1] - w[0]) * i as f64 / n as f64)).collect();
        let step = ps.windows(2).map(|x| dist(&x[0], &x[1])).fold(0.0, f64::max);
        let (i, d) = (0..=n).map(|i| (i, dist(&ps[i], q))).min_by(|x, y| x.1.partial_cmp(&y.1).unwrap()).unwrap();
        starts.push((d, w[0] + (w[1] - w[0]) * i as f64 / n as f64, step));
    }
    let least = starts.iter().map(|s| s.0).fold(f64::INFINITY, f64::min);
    let mut out = f64::INFINITY;
    if starts.iter().all(|s| s.0 > 2.0 * s.2) {
        return least;
    }
    for s in starts.iter().filter(|s| s.0 <= least + s.2) {
        let mut best = (s.0, s.1);
        let mut h = (b - a) / n as f64;
        while h > 1e-13 * (b - a) {
            let mut moved = false;
            for x in [best.1 - h, best.1 + h] {
                let x = x.clamp(a, b);
                let d = dist(&m.pt(x), q);
                if d < best.0 {
                    best = (d, x);
                    moved = true;
                }
            }
            if !moved {
                h *= 0.25;
            }
        }
        out = out.min(best.0);
        if out < 1e-12 {
            break;
        }
    }
    out
}

/// The mesh is the inside of `outer` (or of the rectangle) without the holes. Returns the boundary
/// edges per loop (the rectangle last).
fn meshes(pl: &Plane, outer: Option<&[MC]>, rect: Option<((f64, f64), (f64, f64))>, holes: &[Vec<MC>], tol: f64, rec: &mut Rec) -> Result<Vec<Vec<((f64, f64), (f64, f64))>>, Fail> {
    let mut loops: Vec<&[MC]> = holes.iter().map(|h| &h[..]).collect();
    if let Some(o) = outer {
        loops.push(o);
    }
    let n = loops.len() + rect.is_some() as usize;
    let mut out = vec![vec![]; n];
    let mut at: HashMap<(u64, u64), Vec<bool>> = HashMap::new();
    check!(pl.least >= -1e-12, "flipped", "a face has the area {}", pl.least);
    for (p, q) in pl.boundary()? {
        rec.trans(1);
        let mut hit = None;
        if let Some((du, dv)) = rect {
            let (eu, ev) = (1e-9 * (du.1 - du.0), 1e-9 * (dv.1 - dv.0));
            let same = |a: f64, b: f64, t: f64, e: f64| (a - t).abs() <= e && (b - t).abs() <= e;
            if same(p.1, q.1, dv.0, ev) || same(p.1, q.1, dv.1, ev) || same(p.0, q.0, du.0, eu) || same(p.0, q.0, du.1, eu) {
                hit = Some(n - 1);
            }
        }
        if hit.is_none() {
            let key = |x: (f64, f64)| (x.0.to_bits(), x.1.to_bits());
            for x in [p, q] {
                at.entry(key(x)).or_insert_with(|| (0..loops.len()).map(|i| off(loops[i], x) <= tol).collect());
            }
            let (a, b) = (&at[&key(p)], &at[&key(q)]);
            hit = (0..loops.len()).find(|i| a[*i] && b[*i]);
        }
        match hit {
            Some(i) => out[i].push((p, q)),
            None => fail!("crack", "the edge from {p:?} to {q:?} has a face on one side only"),
        }
    }
    Ok(out)
}

fn area_of_edges(e: &[((f64, f64), (f64, f64))]) -> f64 {
    e.iter().map(|(p, q)| 0.5 * (p.0 * q.1 - p.1 * q.0)).sum()
}

fn inside_area(name: &str, got: f64, l: &Loop, sign: f64, e: f64) -> Res {
    let want = sign * l.area;
    let e = if l.poly { 1e-8 * l.area } else { e };
    check!((got - want).abs() <= e, "area", "{name} {}: encloses {got} instead of {want}", l.name);
    Ok(())
}

/// Regions of other sizes and scalar types.
fn region_sizes(env: &Env, exts: &[Loop], holes_of: &(dyn Fn(&Loop) -> (Vec<Loop>, Vec<Loop>) + Sync)) {
    macro_rules! run {
        ($T:ty, $x:expr, $hs:expr, $k:expr, $o:expr, $tol:expr, $choice:expr, $eps:expr, $rec:expr) => {{
            let (k, o) = ($k, $o);
            let mv = |l: &Loop| -> CompoundCurve<$T, nalgebra::Const<3>> {
                let m = nalgebra::Matrix3::new(k, 0.0, o, 0.0, k, -2.0 * o, 0.0, 0.0, 1.0);
                CompoundCurve::new(l.spans.iter().map(|s| s.transformed(&m).cast::<$T>()).collect())
            };
            let tol = Some(($tol * k * k) as $T);
            let region = Region::new(mv($x), $hs.iter().map(|h| mv(h)).collect());
            rand::script::set(&[], $choice);
            let m = region.tessellate(tol)?;
            let pts: Vec<(f64, f64)> = m.vertices().iter().map(|p| ((p.x as f64 - o) / k, (p.y as f64 + 2.0 * o) / k)).collect();
            mesh_state(k.to_bits(), pts.iter().cloned(), $rec);
            $rec.trans(m.faces().len() as u64 + 1);
            let mut got = 0.0;
            for f in m.faces() {
                check!(f.iter().all(|i| *i < pts.len()), "index", "face {f:?} of {} vertices", pts.len());
                let a = shoelace(&[pts[f[0]], pts[f[1]], pts[f[2]]]);
                check!(a > -$eps * $x.area, "orientation", "face {f:?} has area {a}");
                got += a;
            }
            let polygon = |l: &Loop| -> f64 {
                rand::script::set(&[], $choice);
                shoelace(&mv(l).tessellate(tol).iter().map(|p| ((p.x as f64 - o) / k, (p.y as f64 + 2.0 * o) / k)).collect::<Vec<_>>()).abs()
            };
            let want = polygon($x) - $hs.iter().map(|h| polygon(h)).sum::<f64>();
            check!((got - want).abs() <= $eps * $x.area, "area", "the faces cover {got} instead of {want} (in units of {})", k);
            $rec.outcome(&format!("region of another size, {}", stringify!($T)));
        }};
    }
    let n = exts.len() / 2;
    let big = [(1e-4, 0.0), (1e-2, 0.0), (1e3, 2e3), (1e5, 0.0)];
    let small = [(1e-3, 0.0), (1e-2, 0.0), (1.0, 0.0), (1e3, 0.0), (1.0, 20.0)];
    let items: Vec<(usize, usize)> = (0..exts.len()).flat_map(|e| (0..=n).map(move |a| (e, a))).collect();
    env.note(format!("regions with none or two holes in double precision at sizes and places {big:?} and in single precision at {small:?}, 2 tolerances"));
    env.par(&items, |(e, a), rec| {
        let x = &exts[*e];
        let (h0, h1) = holes_of(x);
        let hs: Vec<&Loop> = if *a == n { vec![] } else { vec![&h0[*a], &h1[(a + e) % n]] };
        let name = format!("{}.{}", x.name, if *a == n { "none" } else { &h0[*a].name });
        for (k, o) in big {
            rec.case(&format!("size.f64.{k}.{o}.{name}"), |rec| {
                for tol in [1e-1, 1e-3] {
                    run!(f64, x, hs, k, o, tol, 0.5, 1e-8, rec);
                }
                Ok(())
            });
        }
        for (k, o) in small {
            rec.case(&format!("size.f32.{k}.{o}.{name}"), |rec| {
                for tol in [1e-1, 3e-3] {
                    run!(f32, x, hs, k, o, tol, 0.5, 1e-4, rec);
                }
                Ok(())
            });
        }
    });
}

fn t03(env: &Env) {
    let th = env.thorough();
    // ---- regions
    let ext = shapes((0.5, -0.25), 4.0, (1.0, 1.0));
    let mut exts: Vec<Loop> = vec![];
    for l in &ext {
        exts.push(l.reversed());
    }
    exts.extend(ext);
    let holes_of = |x: &Loop| -> (Vec<Loop>, Vec<Loop>) {
        let (at, r) = places(&x.name);
        let f = |k: usize| shapes((0.5 + 4.0 * at[k].0, -0.25 + 4.0 * at[k].1), 4.0 * r, (1.0, 1.0));
        (f(0), f(1).into_iter().map(|l| l.reversed()).collect())
    };
    let nshape = exts.len() / 2;
    let tols = [None, Some(1e-1), Some(1e-3)];
    env.note(format!("{} exteriors with none, one or two holes by 3 tolerances by 3 constant random choices", exts.len()));
    let mut items: Vec<(usize, Option<usize>, Option<usize>)> = vec![];
    for e in 0..exts.len() {
        items.push((e, None, None));
        for a in 0..nshape {
            items.push((e, Some(a), None));
            for b in 0..nshape {
                if th || (e + a + 2 * b) % 4 == 0 {
                    items.push((e, Some(a), Some(b)));
                }
            }
        }
    }
    env.par(&items, |(e, a, b), rec| {
        let x = &exts[*e];
        let (h0, h1) = holes_of(x);
        let hs: Vec<&Loop> = a.iter().map(|i| &h0[*i]).chain(b.iter().map(|i| &h1[*i])).collect();
        let name = hs.iter().map(|h| h.name.clone()).collect::<Vec<_>>().join("+");
        rec.case(&format!("region.{}.{name}", x.name), |rec| {
            let region = Region::new(x.compound(), hs.iter().map(|h| h.compound()).collect());
            let holes: Vec<Vec<MC>> = hs.iter().map(|h| h.models()).collect();
            for tol in tols {
                for choice in [0.0, 0.5, 1.0 - 1e-9] {
                    rand::script::set(&[], choice);
                    let m = region.tessellate(tol)?;
                    let pts: Vec<(f64, f64)> = m.vertices().iter().map(|p| (p.x, p.y)).collect();
                    mesh_state(0, pts.iter().cloned(), rec);
                    let pl = Plane::new(&pts, m.faces(), (8.0, 8.0))?;
                    let loops = meshes(&pl, Some(&x.models()), None, &holes, 1e-7, rec)?;
                    // enclosed by the tessellated boundaries
                    let polygon = |c: &CompoundCurve<f64, nalgebra::Const<3>>| -> f64 {
                        rand::script::set(&[], choice);
                        shoelace(&c.tessellate(tol).iter().map(|p| (p.x, p.y)).collect::<Vec<_>>()).abs()
                    };
                    let mut total = 0.0;
                    for (i, l) in hs.iter().map(|h| *h).chain([x]).enumerate() {
                        let sign = if i < hs.len() { -1.0 } else { 1.0 };
                        let want = sign * polygon(&l.compound());
                        let got = area_of_edges(&loops[i]);
                        check!((got - want).abs() <= 1e-8 * x.area, "area", "{} encloses {got} instead of {want}", l.name);
                        total += want;
                    }
                    check!((pl.area - total).abs() <= 1e-8 * x.area, "area", "the faces cover {} instead of {total}", pl.area);
                    check!((m.area() - pl.area).abs() <= 1e-9 * pl.area, "mesh-area", "area() is {}, the faces cover {}", m.area(), pl.area);
                    rec.outcome("region");
                }
            }
            Ok(())
        });
    });
    region_sizes(env, &exts, &holes_of);
    // ---- trimmed surfaces
    let keep = ["sphere", "cylinder0", "cylinder2", "cone", "torus", "plane", "bend", "tube"];
    let mut sp: Vec<(String, S3)> = mesh_surfaces(false).into_iter().enumerate().filter(|(i, (n, _))| keep.contains(&n.as_str()) || (n.len() > 10 && i % if th { 3 } else { 12 } == 0)).map(|(_, s)| s).collect();
    sp.sort_by(|a, b| a.0.cmp(&b.0));
    let mut sets: Vec<(String, Option<Opt>)> = vec![("none".into(), None)];
    sets.push(("coarse".into(), Some(Opt { norm_tolerance: 4e-3, min_depth: 0, max_depth: 3, min_divs_u: 1, min_divs_v: 1 })));
    if th {
        sets.push(("fine".into(), Some(Opt { norm_tolerance: 1e-2, min_depth: 1, max_depth: 4, min_divs_u: 4, min_divs_v: 4 })));
    }
    let mut items: Vec<(usize, usize, usize, usize)> = vec![];
    for s in 0..sp.len() {
        // 0: no exterior
        for e in 0..=2 * nshape {
            for a in 0..=nshape {
                for b in [0, 1, 5, 9] {
                    if b <= nshape && (a > 0 || b == 0) && (th || (s + e + 2 * a + b) % 11 == 0) && (e > 0 || a > 0) {
                        items.push((s, e, a, b));
                    }
                }
            }
        }
    }
    env.note(format!("{} surfaces, {} layouts of exteriors and holes, {} option sets, free and prescribed boundary parameters", sp.len(), items.len(), sets.len()));
    env.par(&items, |(s, e, a, b), rec| {
        let (sname, sf) = &sp[*s];
        let m = surf_model(sf);
        let (du, dv) = m.domain();
        let (wu, wv) = (du.1 - du.0, dv.1 - dv.0);
        let st = (wu, wv);
        let mid = (0.5 * (du.0 + du.1), 0.5 * (dv.0 + dv.1));
        let exts = shapes(mid, 0.45, st);
        let outer = if *e == 0 { None } else if *e <= nshape { Some(&exts[*e - 1]) } else { None };
        let turned = if *e > nshape { Some(exts[*e - 1 - nshape].reversed()) } else { None };
        let outer: Option<&Loop> = outer.or(turned.as_ref());
        let (at, r) = places(outer.map(|o| &o.name[..]).unwrap_or(""));
        let hole = |k: usize| shapes((mid.0 + 0.45 * at[k].0 * wu, mid.1 + 0.45 * at[k].1 * wv), 0.45 * r, st);
        let mut hs: Vec<Loop> = vec![];
        if *a > 0 {
            hs.push(hole(0).swap_remove(*a - 1));
        }
        if *b > 0 {
            hs.push(hole(1).swap_remove(*b - 1).reversed());
        }
        // trims are single curves
        let single = |l: &Loop| l.spans.len() == 1;
        if hs.iter().any(|h| !single(h)) || outer.map(|o| !single(o)).unwrap_or(false) {
            return;
        }
        let lay = format!("{}.{}", outer.map(|o| o.name.clone()).unwrap_or("-".into()), hs.iter().map(|h| h.name.clone()).collect::<Vec<_>>().join("+"));
        let ts = TrimmedSurface::new(sf.clone(), outer.map(|o| o.spans[0].clone()), hs.iter().map(|h| h.spans[0].clone()).collect());
        let om = outer.map(|o| o.models());
        let hm: Vec<Vec<MC>> = hs.iter().map(|h| h.models()).collect();
        let rect = if outer.is_none() { Some((du, dv)) } else { None };
        let tol = 1e-7 * wu.max(wv);
        for (on, o) in &sets {
            let nt = o.as_ref().map(|o| o.norm_tolerance).unwrap_or(1e-2);
            let slop = |l: &Loop| 8.0 * nt * l.area;
            rec.case(&format!("trimmed.{sname}.{on}.{lay}"), |rec| {
                let t = ts.tessellate(o.clone())?;
                vertices_dir(&t, &m, rec)?;
                let pl = plane_of(&t, &m, rec)?;
                let loops = meshes(&pl, om.as_deref(), rect, &hm, tol, rec)?;
                for (i, h) in hs.iter().enumerate() {
                    inside_area("hole", area_of_edges(&loops[i]), h, -1.0, slop(h))?;
                }
                match outer {
                    Some(x) => inside_area("exterior", area_of_edges(&loops[hs.len()]), x, 1.0, slop(x))?,
                    None => {
                        let w = area_of_edges(&loops[hs.len()]);
                        check!((w - wu * wv).abs() <= 1e-9 * wu * wv, "area", "the rectangle: {w} of {}", wu * wv);
                    }
                }
                rec.outcome("trimmed");
                Ok(())
            });
            // prescribed parameters on some of the trims
            for mask in 1..(1usize << (hs.len() + outer.is_some() as usize)) {
                if !th && mask.count_ones() > 1 && (mask + a + e) % 2 == 0 {
                    continue;
                }
                rec.case(&format!("prescribed{mask}.{sname}.{on}.{lay}"), |rec| {
                    let list = |l: &Loop, n: usize| -> Vec<f64> {
                        let mc = l.spans[0].model();
                        let br = mc.breaks();
                        let mut v = vec![];
                        for w in br.windows(2) {
                            for i in 0..n {
                                v.push(w[0] + (w[1] - w[0]) * i as f64 / n as f64);
                            }
                        }
                        v.push(*br.last().unwrap());
                        v
                    };
                    let lists: Vec<Option<Vec<f64>>> = hs.iter().enumerate().map(|(i, h)| if mask >> i & 1 == 1 { Some(list(h, 3 + i)) } else { None }).collect();
                    let el = outer.and_then(|x| if mask >> hs.len() & 1 == 1 { Some(list(x, 4)) } else { None });
                    let t = ts.constrained_tessellate(TrimmedSurfaceConstraints::new(el.clone(), lists.clone()), o.clone())?;
                    vertices_dir(&t, &m, rec)?;
                    let pl = plane_of(&t, &m, rec)?;
                    let loops = meshes(&pl, om.as_deref(), rect, &hm, tol, rec)?;
                    let mut all: Vec<(&Loop, &Option<Vec<f64>>, &Vec<((f64, f64), (f64, f64))>, f64)> = vec![];
                    for (i, h) in hs.iter().enumerate() {
                        all.push((h, &lists[i], &loops[i], -1.0));
                    }
                    if let Some(x) = outer {
                        all.push((x, &el, &loops[hs.len()], 1.0));
                    }
                    for (l, list, edges, sign) in all {
                        inside_area("trim", area_of_edges(edges), l, sign, if list.is_some() { 0.3 * l.area } else { slop(l) })?;
                        if let Some(us) = list {
                            let mc = l.spans[0].model();
                            let want: Vec<(f64, f64)> = us.iter().map(|u| { let p = mc.pt(*u); (p[0], p[1]) }).collect();
                            let near = |p: &(f64, f64), q: &(f64, f64)| (p.0 - q.0).abs() <= tol && (p.1 - q.1).abs() <= tol;
                            for w in &want {
                                check!(edges.iter().any(|(p, _)| near(p, w)), "missing", "{}: no boundary vertex at {w:?}", l.name);
                            }
                            if !l.poly {
                                for (p, _) in edges {
                                    check!(want.iter().any(|w| near(p, w)), "extra", "{}: a boundary vertex at {p:?}", l.name);
                                }
                            }
                        }
                    }
                    rec.outcome("prescribed");
                    Ok(())
                });
            }
        }
        if !hs.is_empty() {
            rec.case(&format!("count.{sname}.{lay}"), |rec| {
                let bad = ts.constrained_tessellate(TrimmedSurfaceConstraints::new(None, vec![None; hs.len() + 1]), None);
                check!(bad.is_err(), "count", "constraints for {} holes accepted for {}", hs.len() + 1, hs.len());
                rec.outcome("refused");
                Ok(())
            });
        }
    });
}

/// As `vertices`, for normals of any length.
fn vertices_dir(t: &Mesh, m: &MS, rec: &mut Rec) -> Res {
    let sc = m.cps.iter().flatten().map(|c| norm(&c[..3]) / c[3]).fold(0.0, f64::max);
    for (i, uv) in t.uvs().iter().enumerate() {
        rec.trans(1);
        let w = m.ders(uv.x, uv.y, 1, Side::Right, Side::Right);
        let p = t.points()[i].coords.as_slice();
        check!(close(p, &w[0][0], 1e-8 * sc), "vertex", "at {uv:?}: {p:?} must be {:?}", w[0][0]);
    }
    Ok(())
}

// ---------------------------------------------------------------- T04

fn trims(st: (f64, f64), mid: (f64, f64)) -> Vec<Loop> {
    shapes(mid, 0.45, st).into_iter().filter(|l| l.spans.len() == 1).collect()
}

/// Points of a trim's image, for all breakpoints and points between them.
fn image(sm: &MS, c: &MC, per: usize) -> Vec<Vec<f64>> {
    let (du, dv) = sm.domain();
    let mut out = vec![];
    for w in c.breaks().windows(2) {
        for i in 0..=per {
            let q = c.pt(w[0] + (w[1] - w[0]) * i as f64 / per as f64);
            out.push(sm.pt(q[0].clamp(du.0, du.1), q[1].clamp(dv.0, dv.1)));
        }
    }
    out
}

fn t04(env: &Env) {
    let th = env.thorough();
    let sp = mesh_surfaces(th);
    env.note(format!("{} surfaces with every exterior and hole of the family: {} transformations and inversion, twice", sp.len(), mats(3).len()));
    env.par(&sp, |(name, sf), rec| {
        let m = surf_model(sf);
        let (du, dv) = m.domain();
        let st = (du.1 - du.0, dv.1 - dv.0);
        let mid = (0.5 * (du.0 + du.1), 0.5 * (dv.0 + dv.1));
        let outers = trims(st, mid);
        let sc = m.cps.iter().flatten().map(|c| norm(&c[..3]) / c[3]).fold(0.0, f64::max);
        for (i, o) in outers.iter().enumerate() {
            for with in [false, true] {
                rec.case(&format!("edit.{name}.{}.{with}", o.name), |rec| {
                    let (at, r) = places(&o.name);
                    let hole = |k: usize, j: usize| shapes((mid.0 + 0.45 * at[k].0 * st.0, mid.1 + 0.45 * at[k].1 * st.1), 0.45 * r, st).into_iter().filter(|l| l.spans.len() == 1).nth(j).unwrap();
                    let holes = [hole(0, i), hole(1, (i + 2) % 7).reversed()];
                    let ext = if with { Some(o.spans[0].clone()) } else { None };
                    let ins: Vec<C2> = holes.iter().map(|h| h.spans[0].clone()).collect();
                    let ts = TrimmedSurface::new(sf.clone(), ext.clone(), ins.clone());
                    check!(ts.exterior() == ext.as_ref() && ts.interiors() == &ins[..], "parts", "the trims differ from those given");
                    check!(same_model(&surf_model(ts.surface()), &m), "parts", "the surface differs from the one given");
                    let plain: TrimmedSurface<f64> = sf.clone().into();
                    check!(plain.exterior().is_none() && plain.interiors().is_empty() && same_model(&surf_model(plain.surface()), &m), "plain", "a surface without trims gets some");
                    let trims_of = |t: &TrimmedSurface<f64>| -> Vec<MC> { t.exterior().into_iter().chain(t.interiors()).map(|c| c.model()).collect() };
                    let before: Vec<Vec<Vec<f64>>> = trims_of(&ts).iter().map(|c| image(&m, c, 6)).collect();
                    for (mn, mat) in mats(3) {
                        let mut x = ts.clone();
                        let mm = nalgebra::Matrix4::from_fn(|i, j| mat[i][j]);
                        x.transform(&mm);
                        let xm = surf_model(x.surface());
                        let after = trims_of(&x);
                        check!(after.len() == before.len(), "count", "{} trims after {mn}", after.len());
                        for (b, c) in before.iter().zip(&after) {
                            for (p, q) in b.iter().zip(image(&xm, c, 6)) {
                                rec.trans(1);
                                let w = affine(&mat, p);
                                check!(close(&w, &q, 1e-8 * (sc + 4.0)), "transform", "{mn}: {p:?} goes to {q:?} instead of {w:?}");
                            }
                        }
                        rec.outcome("transformed");
                    }
                    let mut x = ts.clone();
                    for round in 1..=2 {
                        x.invert();
                        let xm = surf_model(x.surface());
                        check!(same_domain(xm.domain(), (du, dv)) || round == 1, "domain", "after two inversions the domain is {:?}", xm.domain());
                        let after = trims_of(&x);
                        check!(after.len() == before.len(), "count", "{} trims after inversion", after.len());
                        for (k, (b, c)) in before.iter().zip(&after).enumerate() {
                            let g = image(&xm, c, 6);
                            let n = g.len();
                            check!(n == b.len(), "invert", "trim {k} has other spans");
                            rec.trans(n as u64);
                            let fwd = (0..n).all(|i| close(&b[i], &g[i], 1e-7 * sc));
                            let rev = (0..n).all(|i| close(&b[i], &g[n - 1 - i], 1e-7 * sc));
                            check!(fwd || rev, "invert", "after {round} inversions trim {k} starts at {:?} instead of {:?} or {:?}", g[0], b[0], b[n - 1]);
                        }
                        rec.outcome("inverted");
                    }
                    Ok(())
                });
            }
        }
    });
    // projections onto planes
    let frames: Vec<(&str, Point3<f64>, Vector3<f64>, Vector3<f64>)> = vec![
        ("xy", Point3::new(-8.0, -8.0, 0.0), Vector3::new(16.0, 0.0, 0.0), Vector3::new(0.0, 16.0, 0.0)),
        ("tilted", Point3::new(-8.0, -9.0, -4.0), Vector3::new(16.0, 0.0, 4.0), Vector3::new(0.0, 18.0, 4.0)),
        ("sheared", Point3::new(-16.0, -8.0, 1.0), Vector3::new(24.0, 0.0, 0.0), Vector3::new(8.0, 16.0, 0.0)),
    ];
    let dirs = [Vector3::new(0.0, 0.0, -1.0), Vector3::new(0.25, -0.125, -1.0), Vector3::new(0.0, 0.5, -2.0)];
    let mut items = vec![];
    for f in 0..frames.len() {
        for d in 0..dirs.len() {
            for deg in 1..=if th { 3 } else { 2 } {
                items.push((f, d, deg));
            }
        }
    }
    env.note(format!("{} frames, directions and degrees of planes, on which trims are projected", items.len()));
    env.par(&items, |(f, d, deg), rec| {
        let (fname, o, x, y) = &frames[*f];
        let dir = dirs[*d];
        // a plane of higher degree with its affine parameterization
        let knots: Vec<f64> = (0..=*deg).map(|_| 0.0).chain((0..=*deg).map(|_| 2.0)).collect();
        let cps: Vec<Vec<nalgebra::Point4<f64>>> = (0..=*deg)
            .map(|i| {
                (0..=*deg)
                    .map(|j| {
                        let p = o + x * (i as f64 / *deg as f64) + y * (j as f64 / *deg as f64);
                        nalgebra::Point4::new(p.x, p.y, p.z, 1.0)
                    })
                    .collect()
            })
            .collect();
        let sf = S3::new(*deg, *deg, knots.clone(), knots, cps);
        let m = surf_model(&sf);
        let n = x.cross(y);
        for l in trims((1.0, 1.0), (0.0, 0.0)) {
            for lift in [3.0, 9.0] {
                // in a slanted plane above
                let up = nalgebra::Matrix4::new(4.0, 0.0, 0.0, 0.5, 0.0, 4.0, 0.0, 0.25, 0.5, -0.25, 1.0, lift, 0.0, 0.0, 0.0, 1.0);
                rec.case(&format!("project.{fname}.{d}.{deg}.{}.{lift}", l.name), |rec| {
                    let flat: C3 = l.spans[0].elevate_dimension();
                    let c: C3 = flat.transformed(&up);
                    let cm = c.model();
                    for (how, alt) in [("along", false), ("nearest", true)] {
                        let ts = if alt {
                            TrimmedSurface::try_map_closest_point(sf.clone(), Some(c.clone()), vec![c.inverse()])?
                        } else {
                            TrimmedSurface::try_projection(sf.clone(), dir, Some(c.clone()), vec![c.inverse()])?
                        };
                        check!(ts.interiors().len() == 1 && ts.exterior().is_some(), "count", "{} interiors", ts.interiors().len());
                        let tm = [ts.exterior().unwrap().model(), ts.interiors()[0].inverse().model()];
                        for t in &tm {
                            check!(t.breaks().len() == cm.breaks().len(), "spans", "{:?} instead of {:?}", t.breaks(), cm.breaks());
                            for w in cm.breaks().windows(2) {
                                for i in 0..=8 {
                                    let u = w[0] + (w[1] - w[0]) * i as f64 / 8.0;
                                    rec.trans(1);
                                    let p = cm.pt(u);
                                    let uv = t.pt(u);
                                    let q = m.pt(uv[0], uv[1]);
                                    let v = Point3::new(p[0], p[1], p[2]) - o;
                                    let along = if alt { n } else { dir };
                                    let w = Point3::new(p[0], p[1], p[2]) - along * (v.dot(&n) / along.dot(&n));
                                    check!(close(&q, w.coords.as_slice(), 2e-3), "project", "{how}: at {u} the trim is at {q:?} instead of {w:?}");
                                }
                            }
                        }
                        rec.outcome(how);
                    }
                    Ok(())
                });
            }
        }
        rec.case(&format!("none.{fname}.{d}.{deg}"), |rec| {
            check!(TrimmedSurface::try_projection(sf.clone(), dir, None, vec![]).is_err(), "none", "projection of nothing accepted");
            check!(TrimmedSurface::try_map_closest_point(sf.clone(), None, vec![]).is_err(), "none", "mapping of nothing accepted");
            let far = C3::polyline(&[Point3::new(900.0, 0.0, 5.0), Point3::new(901.0, 0.0, 5.0), Point3::new(900.0, 1.0, 5.0)], true);
            check!(TrimmedSurface::try_projection(sf.clone(), dir, Some(far), vec![]).is_err(), "beside", "projection beside the surface accepted");
            rec.outcome("refused");
            Ok(())
        });
    });
}

fn same_domain(a: ((f64, f64), (f64, f64)), b: ((f64, f64), (f64, f64))) -> bool {
    [(a.0 .0, b.0 .0), (a.0 .1, b.0 .1), (a.1 .0, b.1 .0), (a.1 .1, b.1 .1)].iter().all(|(x, y)| (x - y).abs() <= 1e-12 * (1.0 + x.abs()))
}

fn same_model(a: &MS, b: &MS) -> bool {
    a.pu == b.pu && a.pv == b.pv && a.ku == b.ku && a.kv == b.kv && a.cps == b.cps
}
