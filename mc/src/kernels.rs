//! M01: the geometric kernels everything else is built from.


use crate::core::*;
use crate::gen::*;
use crate::check;
use curvo::prelude::*;
use nalgebra::{Matrix3, Point2, Point3, Vector2, Vector3};
use std::cmp::Ordering;

pub fn table() -> Vec<(&'static str, fn(&Env))> {
    vec![("M01", m01)]
}

/// Pascal's triangle
fn pascal(n: usize) -> Vec<Vec<u128>> {
    let mut t: Vec<Vec<u128>> = vec![vec![0; n + 2]; n + 1];
    for i in 0..=n {
        t[i][0] = 1;
        for k in 1..=i {
            t[i][k] = t[i - 1][k - 1] + t[i - 1][k];
        }
    }
    t
}

fn binomials(env: &Env) {
    let th = env.thorough();
    let top = 120;
    let tri = pascal(top);
    let at = |n: usize, k: usize| if k > n { 0u128 } else { tri[n][k] };
    let ns: Vec<usize> = (0..=top).collect();
    env.note(format!("binomials of every n up to {top}, every k up to n+2, by the function and by the tables of both precisions"));
    env.par(&ns, |n, rec| {
        rec.case(&format!("binomial.{n}"), |rec| {
            let mut t64 = Binomial::<f64>::new();
            let mut t32 = Binomial::<f32>::default();
            for k in 0..=n + 2 {
                rec.trans(3);
                rec.state(Canon::new().u(1).u(*n as u64).u(k as u64).get());
                let w = at(*n, k) as f64;
                let f = binomial(*n, k);
                check!((f - w).abs() <= 1e-12 * w, "function", "binomial({n},{k}) = {f} for {w}");
                let f = t64.get(*n, k);
                check!((f - w).abs() <= 1e-12 * w, "table", "table({n},{k}) = {f} for {w}");
                if w < 1e30 {
                    let f = t32.get(*n, k) as f64;
                    check!((f - w).abs() <= 1e-4 * w, "table32", "table({n},{k}) = {f} for {w}");
                }
            }
            rec.outcome("binomial");
            Ok(())
        });
    });
    // histories of requests to one table
    let (m, len) = if th { (8, 4) } else { (6, 4) };
    let reqs: Vec<(usize, usize)> = (0..=m).flat_map(|n| (0..=n + 1).map(move |k| (n, k))).collect();
    env.note(format!("every sequence of {len} requests out of {} to one table of binomials, read back in full afterwards", reqs.len()));
    env.par(&reqs, |first, rec| {
        rec.case(&format!("table.{}.{}", first.0, first.1), |rec| {
            let mut ix = vec![0usize; len - 1];
            loop {
                let mut t = Binomial::<f64>::new();
                let mut h = Canon::new().u(2);
                for (n, k) in std::iter::once(*first).chain(ix.iter().map(|i| reqs[*i])) {
                    let f = t.get(n, k);
                    h = h.u((n * 16 + k) as u64);
                    check!(f == at(n, k) as f64, "history", "table({n},{k}) = {f} for {} after {first:?} {ix:?}", at(n, k));
                }
                rec.state(h.get());
                rec.trans(len as u64);
                if len < 4 || ix[0] % 8 == 0 {
                    for (n, k) in &reqs {
                        let f = t.get(*n, *k);
                        check!(f == at(*n, *k) as f64, "history", "table({n},{k}) = {f} for {} after {first:?} {ix:?}", at(*n, *k));
                    }
                }
                let mut i = 0;
                while i < ix.len() {
                    ix[i] += 1;
                    if ix[i] < reqs.len() {
                        break;
                    }
                    ix[i] = 0;
                    i += 1;
                }
                if i == ix.len() {
                    break;
                }
            }
            rec.outcome("history");
            Ok(())
        });
    });
}

/// A number below 16 in size as a whole number of 2^-55 (all the coordinates here are).
fn fix(x: f64) -> i128 {
    let y = x * 2f64.powi(55);
    let i = y as i128;
    assert!(i as f64 == y && x.abs() < 32.0, "{x} is no whole number of 2^-55");
    i
}

type P = (i128, i128);

fn turn(p: P, q: P, r: P) -> Ordering {
    ((q.0 - p.0) * (r.1 - p.1) - (q.1 - p.1) * (r.0 - p.0)).cmp(&0)
}

fn name(o: Ordering) -> Orientation {
    match o {
        Ordering::Less => Orientation::Clockwise,
        Ordering::Equal => Orientation::Collinear,
        Ordering::Greater => Orientation::CounterClockwise,
    }
}

fn orientations(env: &Env) {
    let th = env.thorough();
    // lattices, exact and rounded: i * step + offset
    let n = if th { 9 } else { 6 };
    let ls: Vec<(f64, f64)> = vec![(1.0, 0.0), (0.1, 0.0), (1.0 / 3.0, -0.7), (2f64.powi(-40), 1.0), (2f64.powi(-52), 1.0), (2f64.powi(-52), -1.5), (0.3, 11.7)];
    env.note(format!("orientation of every triple of points of 7 lattices of {n} x {n} (steps down to the last bit of the coordinates), against integer arithmetic"));
    let items: Vec<(usize, usize)> = (0..ls.len()).flat_map(|l| (0..n * n).map(move |i| (l, i))).collect();
    env.par(&items, |(l, i), rec| {
        rec.case(&format!("orientation.{l}.{i}"), |rec| {
            let (st, o) = ls[*l];
            let pt = |k: usize| Point2::new((k % n) as f64 * st + o, (k / n) as f64 * st + o);
            let ex = |p: &Point2<f64>| (fix(p.x), fix(p.y));
            let p = pt(*i);
            for j in 0..n * n {
                let q = pt(j);
                for k in 0..n * n {
                    let r = pt(k);
                    rec.trans(1);
                    rec.state(Canon::new().u(3).u(*l as u64).u((*i * 4096 + j * 64 + k) as u64).get());
                    let w = name(turn(ex(&p), ex(&q), ex(&r)));
                    let g = orientation(&p, &q, &r);
                    check!(g == w, "orientation", "{p} {q} {r}: {g:?} for {w:?}");
                    if *l == 0 {
                        let f = |p: &Point2<f64>| Point2::new(p.x as f32, p.y as f32);
                        check!(orientation(&f(&p), &f(&q), &f(&r)) == w, "orientation32", "{p} {q} {r}");
                    }
                }
            }
            rec.outcome("orientation");
            Ok(())
        });
    });
    // points next to the line through two others, in every order of the arguments
    let w = if th { 512 } else { 128 };
    let rows: Vec<usize> = (0..w).collect();
    env.note(format!("orientation of {w} x {w} points one unit in the last place apart around a line, in all 6 orders"));
    env.par(&rows, |i, rec| {
        rec.case(&format!("near.{i}"), |rec| {
            for j in 0..w {
                for (q, r) in [((12.0, 12.0), (24.0, 24.0)), ((3.0, 3.0), (0.25, 0.25)), ((12.5, 12.5), (24.0, 24.0)), ((0.75, 1.0), (1.5, 2.5))] {
                    let u = 2f64.powi(-53);
                    let ps = [Point2::new(0.5 + *i as f64 * u, 0.5 + j as f64 * u), Point2::new(q.0, q.1), Point2::new(r.0, r.1)];
                    let ex: Vec<P> = ps.iter().map(|p| (fix(p.x), fix(p.y))).collect();
                    for o in permutations(3) {
                        rec.trans(1);
                        let w = name(turn(ex[o[0]], ex[o[1]], ex[o[2]]));
                        let g = orientation(&ps[o[0]], &ps[o[1]], &ps[o[2]]);
                        check!(g == w, "near", "{:?} in order {o:?}: {g:?} for {w:?}", ps);
                    }
                }
                rec.state(Canon::new().u(4).u((*i * 1000 + j) as u64).get());
            }
            rec.outcome("near");
            Ok(())
        });
    });
}

fn within(p: P, a: P, b: P) -> bool {
    p.0 >= a.0.min(b.0) && p.0 <= a.0.max(b.0) && p.1 >= a.1.min(b.1) && p.1 <= a.1.max(b.1)
}

/// whether two segments that are not on one line have a point in common
fn meet(a: P, b: P, c: P, d: P) -> bool {
    let (o1, o2, o3, o4) = (turn(a, b, c), turn(a, b, d), turn(c, d, a), turn(c, d, b));
    if o1 == Ordering::Equal && o2 == Ordering::Equal && o3 == Ordering::Equal && o4 == Ordering::Equal {
        return false;
    }
    let e = Ordering::Equal;
    (o1 != e && o2 != e && o3 != e && o4 != e && o1 != o2 && o3 != o4)
        || (o1 == e && within(c, a, b))
        || (o2 == e && within(d, a, b))
        || (o3 == e && within(a, c, d))
        || (o4 == e && within(b, c, d))
}

fn segments(env: &Env) {
    let th = env.thorough();
    let n = if th { 7 } else { 5 };
    let ls: Vec<(f64, f64)> = vec![(1.0, 0.0), (0.1, 0.0), (1.0 / 3.0, -0.7), (0.3, 1.7), (-2.0, 3.0)];
    env.note(format!("every ordered pair of segments over 5 lattices of {n} x {n}, points included, against integer arithmetic"));
    env.assume("whether segments on one line meet is not claimed");
    let items: Vec<(usize, usize)> = (0..ls.len()).flat_map(|l| (0..n * n * n * n).map(move |i| (l, i))).collect();
    env.par(&items, |(l, i), rec| {
        rec.case(&format!("segments.{l}.{i}"), |rec| {
            let (st, o) = ls[*l];
            let nn = n * n;
            let pt = |k: usize| Point2::new((k % n) as f64 * st + o, (k / n) as f64 * st + o);
            let ex = |p: &Point2<f64>| (fix(p.x), fix(p.y));
            let (a, b) = (pt(i % nn), pt(i / nn));
            let x = Line::new(a, b);
            check!(x.start() == &a && x.end() == &b && x.tangent() == b - a, "line", "{a} {b}: {} {} {}", x.start(), x.end(), x.tangent());
            let bb = x.bounding_rect();
            check!(bb.min() == &Vector2::new(a.x.min(b.x), a.y.min(b.y)) && bb.max() == &Vector2::new(a.x.max(b.x), a.y.max(b.y)), "rect", "{bb:?} of {a} {b}");
            for j in 0..nn * nn {
                let (c, d) = (pt(j % nn), pt(j / nn));
                let y = Line::new(c, d);
                rec.trans(1);
                rec.state(Canon::new().u(5).u(*l as u64).u((i * nn * nn + j) as u64).get());
                let w = meet(ex(&a), ex(&b), ex(&c), ex(&d));
                let g = x.intersects(&y);
                check!(g == w, "intersects", "{a} {b} with {c} {d}: {g} for {w}");
                if *l == 0 {
                    let f = |p: &Point2<f64>| Point2::new(p.x as f32, p.y as f32);
                    let g = Line::new(f(&a), f(&b)).intersects(&Line::new(f(&c), f(&d)));
                    check!(g == w, "intersects32", "{a} {b} with {c} {d}: {g} for {w}");
                }
                rec.outcome(if w { "meet" } else { "apart" });
            }
            Ok(())
        });
    });
}

fn cell3(k: usize, n: usize) -> Vector3<f64> {
    Vector3::new((k % n) as f64, (k / n % n) as f64, (k / n / n) as f64)
}

fn closest(env: &Env) {
    let th = env.thorough();
    let n2 = if th { 7 } else { 5 };
    let ranges = [(0.0, 1.0), (2.0, 5.0), (-1.0, -3.0), (4.0, 4.0)];
    env.note(format!("closest points of every segment over lattices of {n2} x {n2} and 3 x 3 x 3 to every point, 4 parameter ranges"));
    let s2: Vec<usize> = (0..n2 * n2 * n2 * n2).collect();
    let s3: Vec<usize> = (0..27 * 27).collect();
    let sc = [1.0, 0.1, 1e3];
    for dim in [2usize, 3] {
        let items = if dim == 2 { &s2 } else { &s3 };
        env.par(items, |i, rec| {
            rec.case(&format!("closest{dim}.{i}"), |rec| {
                let (n, m) = if dim == 2 { (n2, n2 * n2) } else { (3, 27) };
                let v = |k: usize| if dim == 2 { Vector3::new((k % n) as f64, (k / n) as f64, 0.0) } else { cell3(k, n) };
                let (a, b) = (v(i % m), v(i / m));
                for k in 0..m {
                    let p = v(k);
                    let d = b - a;
                    // whole numbers: the quotient is the only rounding
                    let t = if d.norm() == 0.0 { 0.0 } else { ((p - a).dot(&d) / d.dot(&d)).clamp(0.0, 1.0) };
                    let w = a + d * t;
                    rec.state(Canon::new().u(6 + dim as u64).u((i * m + k) as u64).get());
                    for s in sc {
                        for (u0, u1) in ranges {
                            rec.trans(1);
                            let (u, q) = if dim == 2 {
                                let f = |v: &Vector3<f64>| Point2::new(v.x * s, v.y * s);
                                let (u, q) = segment_closest_point(&f(&p), &f(&a), &f(&b), u0, u1);
                                (u, Vector3::new(q.x, q.y, 0.0))
                            } else {
                                let f = |v: &Vector3<f64>| Point3::from(v * s);
                                let (u, q) = segment_closest_point(&f(&p), &f(&a), &f(&b), u0, u1);
                                (u, q.coords)
                            };
                            check!((q - w * s).norm() <= 1e-13 * s * 8.0, "point", "{q:?} for {:?}: nearest of {a:?} {b:?} to {p:?}, scale {s}", w * s);
                            check!((u - (u0 + (u1 - u0) * t)).abs() <= 1e-12 && u >= u0.min(u1) && u <= u0.max(u1), "parameter", "{u} for {} of {u0} {u1}: nearest of {a:?} {b:?} to {p:?}, scale {s}", u0 + (u1 - u0) * t);
                        }
                    }
                }
                rec.outcome("closest");
                Ok(())
            });
        });
    }
}

fn flat(env: &Env) {
    env.note("flatness of every triple of lattices of 4 x 4 and 3 x 3 x 3, 3 tolerances, all orders");
    for dim in [2usize, 3] {
        let (n, m) = if dim == 2 { (4, 16) } else { (3, 27) };
        let items: Vec<usize> = (0..m * m).collect();
        env.par(&items, |i, rec| {
            rec.case(&format!("flat{dim}.{i}"), |rec| {
                let v = |k: usize| if dim == 2 { Vector3::new((k % n) as f64, (k / n) as f64, 0.0) } else { cell3(k, n) };
                for k in 0..m {
                    let ps = [v(i % m), v(i / m), v(k)];
                    let c = (ps[1] - ps[0]).cross(&(ps[2] - ps[0])).norm_squared();
                    // the doubled area in the plane, its square in space
                    let area = if dim == 2 { c.sqrt() } else { c };
                    for (o, tol) in [(0, 1e-9), (1, 0.5), (2, 2.5)].iter().flat_map(|(_, t)| permutations(3).into_iter().map(move |o| (o, *t))) {
                        rec.trans(1);
                        let g = if dim == 2 {
                            let f = |k: usize| Point2::new(ps[o[k]].x, ps[o[k]].y);
                            three_points_are_flat(&f(0), &f(1), &f(2), tol)
                        } else {
                            let f = |k: usize| Point3::from(ps[o[k]]);
                            three_points_are_flat(&f(0), &f(1), &f(2), tol)
                        };
                        check!(g == (area < tol), "flat", "{ps:?} in order {o:?} with tolerance {tol}: {g}, area {area}");
                    }
                    rec.state(Canon::new().u(10 + dim as u64).u((i * m + k) as u64).get());
                }
                rec.outcome("flat");
                Ok(())
            });
        });
    }
}

fn rays(env: &Env) {
    env.note("every pair of 24 directions of the lattice of 5 x 5 and all 26 of 3 x 3 x 3, 4 pairs of origins: whether rays meet in a point");
    for dim in [2usize, 3] {
        let (n, o) = if dim == 2 { (5usize, 2.0) } else { (3, 1.0) };
        let m = if dim == 2 { 25 } else { 27 };
        let dir = |k: usize| {
            if dim == 2 {
                Vector3::new((k % n) as f64 - o, (k / n) as f64 - o, 0.0)
            } else {
                cell3(k, 3) - Vector3::new(o, o, o)
            }
        };
        let items: Vec<usize> = (0..m).filter(|k| dir(*k).norm() > 0.0).collect();
        env.par(&items, |i, rec| {
            rec.case(&format!("ray{dim}.{i}"), |rec| {
                for j in (0..m).filter(|k| dir(*k).norm() > 0.0) {
                    for (a, b) in [([0.0; 3], [0.0; 3]), ([1.0, 2.0, 0.0], [-1.0, 0.5, 0.0]), ([0.0, 3.0, 0.0], [0.0, 3.0, 0.0]), ([-2.0, 1.0, 0.0], [7.0, 4.0, 0.0])] {
                        rec.trans(1);
                        rec.state(Canon::new().u(14).u(dim as u64).u((i * m + j) as u64).fs(&a).fs(&b).get());
                        let (d, e) = (dir(*i), dir(j));
                        let parallel = d.cross(&e).norm() == 0.0;
                        let got = if dim == 2 {
                            let x = Ray::new(Point2::new(a[0], a[1]), Vector2::new(d.x, d.y));
                            let y = Ray::new(Point2::new(b[0], b[1]), Vector2::new(e.x, e.y));
                            check!(x.origin() == &Point2::new(a[0], a[1]) && x.direction() == &Vector2::new(d.x, d.y), "ray", "{} {}", x.origin(), x.direction());
                            check!(x.point_at(2.5) == Point2::new(a[0] + 2.5 * d.x, a[1] + 2.5 * d.y), "at", "{}", x.point_at(2.5));
                            x.find_intersection(&y).is_some()
                        } else {
                            let x = Ray::new(Point3::new(a[0], a[1], a[2]), d);
                            let y = Ray::new(Point3::new(b[0], b[1], b[2]), e);
                            check!(x.point_at(-1.5) == Point3::new(a[0] - 1.5 * d.x, a[1] - 1.5 * d.y, a[2] - 1.5 * d.z), "at", "{}", x.point_at(-1.5));
                            x.find_intersection(&y).is_some()
                        };
                        check!(got != parallel, "parallel", "{d:?} {e:?}: {got}");
                        rec.outcome(if got { "meet" } else { "parallel" });
                    }
                }
                Ok(())
            });
        });
    }
}

fn matrices(env: &Env) {
    let shapes: Vec<(usize, usize)> = (1..=6).flat_map(|r| (1..=6).map(move |c| (r, c))).collect();
    env.note("transposition of every net of up to 6 x 6 points, every entry");
    env.par(&shapes, |(r, c), rec| {
        rec.case(&format!("transpose.{r}.{c}"), |rec| {
            let net: Vec<Vec<Point3<f64>>> = (0..*r).map(|i| (0..*c).map(|j| Point3::new(i as f64, j as f64, (i * 7 + j) as f64)).collect()).collect();
            let t = transpose_control_points(&net);
            check!(t.len() == *c && t.iter().all(|x| x.len() == *r), "shape", "{} rows", t.len());
            for i in 0..*r {
                for j in 0..*c {
                    rec.trans(1);
                    check!(t[j][i] == net[i][j], "entry", "{i} {j}: {} for {}", t[j][i], net[i][j]);
                }
            }
            check!(transpose_control_points(&t) == net, "involution", "{r} x {c}");
            rec.state(Canon::new().u(20).u((r * 8 + c) as u64).get());
            rec.outcome("transpose");
            Ok(())
        });
    });
}

fn meshes(env: &Env) {
    let th = env.thorough();
    // every mesh of one face over a lattice, and every sum of up to 3 of a few
    let tris: Vec<[usize; 3]> = (0..9).flat_map(|a| (0..9).flat_map(move |b| (0..9).map(move |c| [a, b, c]))).collect();
    env.note("meshes of every ordered pair of faces over 3 x 3 vertices; every sum of up to 3 meshes");
    let pos = |k: usize| ((k % 3) as f64, (k / 3) as f64);
    let area2 = |t: &[usize; 3]| {
        let (a, b, c) = (pos(t[0]), pos(t[1]), pos(t[2]));
        ((b.0 - a.0) * (c.1 - a.1) - (b.1 - a.1) * (c.0 - a.0)).abs()
    };
    let firsts: Vec<usize> = (0..tris.len()).collect();
    let v2: Vec<Point2<f64>> = (0..9).map(|k| Point2::new(pos(k).0, pos(k).1)).collect();
    // the same plane in space, by an isometry with a rational matrix
    let m = Matrix3::new(2.0, -1.0, 2.0, 2.0, 2.0, -1.0, -1.0, 2.0, 2.0);
    let v3: Vec<Point3<f64>> = v2.iter().map(|p| Point3::from(m * Vector3::new(p.x, p.y, 5.0))).collect();
    env.par(&firsts, |i, rec| {
        rec.case(&format!("mesh.{i}"), |rec| {
            for j in (0..tris.len()).step_by(if th { 1 } else { 3 }) {
                rec.trans(2);
                let fs = vec![tris[*i], tris[j]];
                let w = 0.5 * (area2(&fs[0]) + area2(&fs[1]));
                let x = PolygonMesh::new(v2.clone(), fs.clone());
                check!(x.area() == w, "area", "{} for {w}: {fs:?}", x.area());
                check!(x.faces() == fs && x.vertices() == v2, "faces", "{:?}", x.faces());
                let ts = x.triangles();
                check!(ts.len() == 2 && (0..2).all(|f| (0..3).all(|k| ts[f][k] == v2[fs[f][k]])), "triangles", "{ts:?} of {fs:?}");
                let y = PolygonMesh::new(v3.clone(), fs.clone());
                check!((y.area() - 9.0 * w).abs() <= 1e-12, "area3", "{} for {}: {fs:?}", y.area(), 9.0 * w);
                rec.state(Canon::new().u(21).u((i * 1000 + j) as u64).get());
            }
            rec.outcome("mesh");
            Ok(())
        });
    });
    // parts with 0 to 4 vertices of their own, and vertices no face uses
    let parts: Vec<(usize, Vec<[usize; 3]>)> = vec![(0, vec![]), (2, vec![]), (3, vec![[0, 1, 2]]), (4, vec![[0, 1, 2], [2, 1, 3]]), (5, vec![[4, 2, 0]]), (4, vec![[3, 3, 1]])];
    let part = |k: usize, at: f64| -> (Vec<Point2<f64>>, Vec<[usize; 3]>) {
        let (n, f) = &parts[k];
        ((0..*n).map(|i| Point2::new(at + (i * i) as f64, (3 * i % 4) as f64)).collect(), f.clone())
    };
    let np = parts.len();
    let seqs: Vec<Vec<usize>> = (0..=4).flat_map(|l: u32| (0..np.pow(l)).map(move |mut c| (0..l).map(|_| { let r = c % np; c /= np; r }).collect::<Vec<_>>())).collect();
    env.par(&seqs, |s, rec| {
        rec.case(&format!("sum.{}", s.iter().map(|x| x.to_string()).collect::<String>()), |rec| {
            let ms: Vec<PolygonMesh<f64, nalgebra::U2>> = s.iter().enumerate().map(|(i, k)| { let (v, f) = part(*k, i as f64 * 0.5); PolygonMesh::new(v, f) }).collect();
            let area: f64 = ms.iter().map(|m| m.area()).sum();
            let tris: Vec<[Point2<f64>; 3]> = ms.iter().flat_map(|m| m.triangles()).collect();
            let verts: Vec<Point2<f64>> = ms.iter().flat_map(|m| m.vertices().to_vec()).collect();
            let mut sums = vec![ms.iter().cloned().sum::<PolygonMesh<f64, nalgebra::U2>>()];
            if ms.len() > 1 {
                // from the right
                let mut it = ms.iter().rev().cloned();
                let l = it.next().unwrap();
                sums.push(it.fold(l, |a, b| b + a));
            }
            for x in &sums {
                rec.trans(1);
                check!((x.area() - area).abs() <= 1e-12, "sum-area", "{} for {area}", x.area());
                check!(x.triangles() == tris, "sum-triangles", "{:?} for {tris:?}", x.triangles());
                check!(x.vertices() == verts, "sum-vertices", "{:?} for {verts:?}", x.vertices());
            }
            rec.state(Canon::new().u(22).u(s.iter().fold(1u64, |a, b| a * 8 + *b as u64)).get());
            rec.outcome("sum");
            Ok(())
        });
    });
}

fn frames(env: &Env) {
    // orthonormal frames: (tangent, normal) of every signed permutation and of rational rotations
    let mut bases: Vec<[Vector3<f64>; 3]> = vec![];
    let ax = [Vector3::x(), Vector3::y(), Vector3::z()];
    for p in permutations(3) {
        for s in 0..4 {
            let t = ax[p[0]] * if s & 1 == 0 { 1.0 } else { -1.0 };
            let n = ax[p[1]] * if s & 2 == 0 { 1.0 } else { -1.0 };
            bases.push([t, n, t.cross(&n)]);
        }
    }
    let q = Matrix3::new(2.0, -1.0, 2.0, 2.0, 2.0, -1.0, -1.0, 2.0, 2.0) / 3.0;
    let r = Matrix3::new(0.6, -0.8, 0.0, 0.8, 0.6, 0.0, 0.0, 0.0, 1.0);
    let all: Vec<[Vector3<f64>; 3]> = [Matrix3::identity(), q, r, q * r, r * q].iter().flat_map(|m| bases.iter().map(|b| [m * b[0], m * b[1], m * b[2]]).collect::<Vec<_>>()).collect();
    env.note(format!("{} orthonormal frames x 3 positions", all.len()));
    let items: Vec<usize> = (0..all.len()).collect();
    env.par(&items, |i, rec| {
        rec.case(&format!("frame.{i}"), |rec| {
            let [t, n, b] = all[*i];
            for pos in [Point3::new(0.0, 0.0, 0.0), Point3::new(1.0, -2.0, 3.5), Point3::new(100.0, 0.25, -7.0)] {
                rec.trans(1);
                let f = FrenetFrame::new(pos, t, n, b);
                check!(f.position() == &pos && f.tangent() == &t && f.normal() == &n && f.binormal() == &b, "fields", "{f:?}");
                let m = f.matrix();
                let o = m * Point3::origin();
                check!((o - pos).norm() <= 1e-12, "origin", "{o} for {pos}");
                let z = m * Vector3::z();
                let y = m * Vector3::y();
                check!((z - t).norm() <= 1e-12 && (y - n).norm() <= 1e-12, "axes", "{z:?} {y:?} for {t:?} {n:?}");
                check!((f.rotation() * Vector3::z() - t).norm() <= 1e-12 && (f.rotation() * Vector3::y() - n).norm() <= 1e-12, "rotation", "{:?}", f.rotation());
                let g = f.cast::<f32>();
                check!((g.position().cast::<f64>() - pos).norm() <= 1e-4 && (g.tangent().cast::<f64>() - t).norm() <= 1e-6 && (g.normal().cast::<f64>() - n).norm() <= 1e-6 && (g.binormal().cast::<f64>() - b).norm() <= 1e-6, "cast", "{g:?}");
                rec.state(Canon::new().u(23).u(*i as u64).f(pos.x).get());
            }
            rec.outcome("frame");
            Ok(())
        });
    });
}

fn m01(env: &Env) {
    binomials(env);
    orientations(env);
    segments(env);
    closest(env);
    flat(env);
    rays(env);
    matrices(env);
    meshes(env);
    frames(env);
}
