//! C10..C16: conics, interpolation, periodic curves, arc length, closest points, tessellation,
//! moving frames.

use crate::adapt::*;
use crate::core::*;
use crate::curves::*;
use crate::gen::*;
use crate::model::*;
use crate::{check, fail};
use curvo::prelude::*;
use nalgebra::{Point2, Vector2};
use std::f64::consts::{FRAC_PI_2, FRAC_PI_4, PI, TAU};

pub fn table() -> Vec<(&'static str, fn(&Env))> {
    vec![
        ("C10", c10),
        ("C11", c11),
        ("C12", c12),
        ("C13", c13),
        ("C14", c14),
        ("C15", c15),
        ("C16", c16),
    ]
}

// ---------------------------------------------------------------- C10

/// Coordinates of `p` in the frame (o; x, y) and its distance to the plane.
fn in_frame(p: &[f64], o: &[f64], x: &[f64], y: &[f64]) -> (f64, f64, f64) {
    let d = sub(p, o);
    let (xx, xy, yy) = (dot(x, x), dot(x, y), dot(y, y));
    let (dx, dy) = (dot(&d, x), dot(&d, y));
    let det = xx * yy - xy * xy;
    let a = (dx * yy - dy * xy) / det;
    let b = (dy * xx - dx * xy) / det;
    let r = sub(&d, &add(&mul(x, a), &mul(y, b)));
    (a, b, norm(&r))
}

fn conic<C: Cv>(c: &C, o: &[f64], x: &[f64], y: &[f64], a: f64, b: f64, rec: &mut Rec) -> Res {
    let m = c.model();
    rec.state(canon(&m));
    if let Err(e) = m.well_formed() {
        fail!("malformed", "{e}");
    }
    let r = norm(x).max(norm(y));
    let sc = r + norm(o);
    let ratio = r / norm(x).min(norm(y));
    let eps = C::EPS * 20.0 * (1.0 + sc / r) * ratio;
    let (d0, d1) = c.dom();
    check!(
        (d0 - a).abs() <= C::EPS * 10.0 * (1.0 + a.abs()) && (d1 - b).abs() <= C::EPS * 10.0 * (1.0 + b.abs()),
        "domain",
        "{d0}..{d1} must be {a}..{b}"
    );
    let at = |t: f64| add(o, &add(&mul(x, t.cos()), &mul(y, t.sin())));
    check!(close(&c.pt(d0), &at(a), eps * r), "start", "{:?} must be {:?}", c.pt(d0), at(a));
    check!(close(&c.pt(d1), &at(b), eps * r), "end", "{:?} must be {:?}", c.pt(d1), at(b));
    let n = 48;
    let mut prev: Option<f64> = None;
    let mut total = 0.0;
    for i in 0..=n {
        let u = if i == n { d1 } else { d0 + (d1 - d0) * i as f64 / n as f64 };
        let p = c.pt(q::<C>(u));
        rec.trans(1);
        let (xi, eta, off) = in_frame(&p, o, x, y);
        check!(off <= eps * r, "plane", "at {u}: {p:?} is {off} off the plane");
        check!(
            (xi * xi + eta * eta - 1.0).abs() <= eps * 4.0,
            "conic",
            "at {u}: {p:?} is not on the conic ({})",
            xi * xi + eta * eta
        );
        let t = eta.atan2(xi);
        if let Some(q) = prev {
            let mut d = t - q;
            while d > PI {
                d -= TAU;
            }
            while d < -PI {
                d += TAU;
            }
            check!(d > -eps, "monotone", "at {u} the angle moves by {d}");
            check!(d < 2.5 * (b - a) / n as f64 + eps, "even", "at {u} the angle moves by {d}");
            total += d;
        }
        prev = Some(t);
    }
    check!((total - (b - a)).abs() <= eps * 50.0, "sweep", "sweeps {total}, must sweep {}", b - a);
    // at the knots the parameter is the angle
    for k in m.breaks() {
        check!(close(&c.pt(q::<C>(k)), &at(k), eps * 4.0 * r), "knot", "at {k} is {:?} must be {:?}", c.pt(k), at(k));
    }
    if (b - a - TAU).abs() < 1e-12 {
        check!(close(&c.pt(d0), &c.pt(d1), eps * r), "closed", "a full turn does not close: {:?} {:?}", c.pt(d0), c.pt(d1));
    }
    Ok(())
}

fn c10(env: &Env) {
    let th = env.thorough();
    let starts: Vec<f64> = if th {
        vec![-PI, -FRAC_PI_2 - 0.3, -FRAC_PI_4, -1e-3, 0.0, 0.3, FRAC_PI_4, 1.0, FRAC_PI_2, 2.0, PI, 4.0, 5.5, -7.0]
    } else {
        vec![-PI, -FRAC_PI_2 - 0.3, -FRAC_PI_4, 0.0, 0.3, FRAC_PI_2, 2.0, 5.5]
    };
    let mut sweeps: Vec<f64> = vec![0.01, 0.5, 1.0, 2.0, 2.5, 4.0, 5.0, 6.0];
    for k in 1..=4 {
        for d in [-0.1, -1e-4, 0.0, 1e-4, 0.1] {
            let s = FRAC_PI_2 * k as f64 + d;
            if s <= TAU {
                sweeps.push(s);
            }
        }
    }
    if th {
        for i in 1..40 {
            sweeps.push(TAU * i as f64 / 40.0);
        }
        for d in [-1e-12, -1e-9, 1e-12, 1e-9] {
            for k in 1..4 {
                sweeps.push(FRAC_PI_2 * k as f64 + d);
            }
        }
    }
    env.note(format!("{} start angles x {} sweeps (each quadrant multiple and its neighbours) x centres x orthogonal frames x radii, circle/ellipse/arc/elliptical arc, 2D and 3D, f64 and f32", starts.len(), sweeps.len()));
    let mut items = vec![];
    for (i, a) in starts.iter().enumerate() {
        for (j, s) in sweeps.iter().enumerate() {
            items.push((i, j, *a, *a + *s));
        }
    }
    let centres: [[f64; 3]; 3] = [[0.0, 0.0, 0.0], [3.0, -2.0, 1.5], [-700.0, 1e4, 33.3]];
    // orthogonal pairs
    let frames: Vec<([f64; 3], [f64; 3])> = vec![
        ([1.0, 0.0, 0.0], [0.0, 1.0, 0.0]),
        ([0.0, 2.0, 0.0], [2.0, 0.0, 0.0]),
        ([0.6, 0.8, 0.0], [-0.8, 0.6, 0.0]),
        ([1.0, 2.0, 2.0], [2.0, 1.0, -2.0]),
        ([0.0, 0.0, 1.0], [1.0, 0.0, 0.0]),
    ];
    fn run<C: Cv>(id: &str, o: &[f64], f: &([f64; 3], [f64; 3]), a: f64, b: f64, rec: &mut Rec) {
        let o = &o[..C::DIM];
        let (x, y) = (&f.0[..C::DIM], &f.1[..C::DIM]);
        if norm(x) == 0.0 || norm(y) == 0.0 || dot(x, y).abs() > 1e-12 {
            return;
        }
        let (a, b) = (q::<C>(a), q::<C>(b));
        for r in [1.0, 0.25, 40.0] {
            rec.case(&format!("{id}.arc.{}.r{r}", C::NAME), |rec| {
                let c = C::arc(o, x, y, r, a, b).map_err(|e| Fail { kind: "refused".into(), detail: e })?;
                rec.outcome(&format!("arcs {}", (c.model().n() - 1) / 2));
                conic(&c, o, &mul(&unit(x), r), &mul(&unit(y), r), a, b, rec)
            });
        }
        for (s, t) in [(1.0, 1.0), (2.0, 0.5), (0.5, 3.0)] {
            let (x, y) = (mul(x, s), mul(y, t));
            rec.case(&format!("{id}.ell.{}.{s}-{t}", C::NAME), |rec| {
                let c = C::ellipse_arc(o, &x, &y, a, b).map_err(|e| Fail { kind: "refused".into(), detail: e })?;
                rec.outcome("elliptical");
                conic(&c, o, &x, &y, a, b, rec)
            });
        }
    }
    env.par(&items, |(i, j, a, b), rec| {
        for (ci, o) in centres.iter().enumerate() {
            for (fi, f) in frames.iter().enumerate() {
                let id = format!("a{i}.s{j}.c{ci}.f{fi}");
                run::<C3>(&id, o, f, *a, *b, rec);
                run::<C2>(&id, o, f, *a, *b, rec);
                if fi < 3 && ci == 0 {
                    run::<C2f>(&id, o, f, *a, *b, rec);
                }
            }
        }
    });
    // full circles and ellipses
    fn full<C: Cv>(id: &str, o: &[f64], f: &([f64; 3], [f64; 3]), rec: &mut Rec) {
        let o = &o[..C::DIM];
        let (x, y) = (&f.0[..C::DIM], &f.1[..C::DIM]);
        if norm(x) == 0.0 || norm(y) == 0.0 || dot(x, y).abs() > 1e-12 {
            return;
        }
        let e = |e: String| Fail { kind: "refused".into(), detail: e };
        let tau = q::<C>(TAU);
        for r in [1.0, 0.125, 16.0, 700.0, 12345.6] {
            rec.case(&format!("{id}.circle.{}.r{r}", C::NAME), |rec| {
                let c = C::circle(o, x, y, r).map_err(e)?;
                check!(c.closed(), "closed", "a full circle is not closed");
                conic(&c, o, &mul(&unit(x), r), &mul(&unit(y), r), 0.0, tau, rec)
            });
        }
        for (s, t) in [(1.0, 1.0), (2.0, 0.5), (0.5, 3.0)] {
            rec.case(&format!("{id}.ellipse.{}.{s}-{t}", C::NAME), |rec| {
                let (x, y) = (mul(x, s), mul(y, t));
                let c = C::ellipse(o, &x, &y).map_err(e)?;
                check!(c.closed(), "closed", "a full ellipse is not closed");
                conic(&c, o, &x, &y, 0.0, tau, rec)
            });
        }
        // an empty or reversed range is an error
        for (a, b) in [(1.0, 1.0), (1.0, 0.5), (0.0, -1.0)] {
            rec.case(&format!("{id}.empty.{}.{a}-{b}", C::NAME), |rec| {
                rec.trans(1);
                rec.outcome("refused");
                check!(C::arc(o, x, y, 1.0, a, b).is_err(), "accepted", "{a}..{b}");
                check!(C::ellipse_arc(o, x, y, a, b).is_err(), "accepted", "{a}..{b}");
                Ok(())
            });
        }
    }
    let all: Vec<(usize, usize)> = (0..3).flat_map(|c| (0..frames.len()).map(move |f| (c, f))).collect();
    env.par(&all, |(ci, fi), rec| {
        let id = format!("full.c{ci}.f{fi}");
        full::<C3>(&id, &centres[*ci], &frames[*fi], rec);
        full::<C2>(&id, &centres[*ci], &frames[*fi], rec);
        full::<C2f>(&id, &centres[*ci], &frames[*fi], rec);
        full::<C3f>(&id, &centres[*ci], &frames[*fi], rec);
    });
}

// ---------------------------------------------------------------- C11 / C12

const LAT: [[f64; 3]; 5] = [
    [0.0, 0.0, 0.0],
    [1.0, 0.5, 0.5],
    [2.5, -1.0, 0.0],
    [0.5, 2.0, -1.0],
    [-1.0, 1.0, 2.0],
];

/// Sequences over `k` symbols of length `n` without equal neighbours (cyclic: nor equal ends).
fn seqs(k: usize, n: usize, cyclic: bool) -> Vec<Vec<usize>> {
    let mut fr: Vec<Vec<usize>> = (0..k).map(|i| vec![i]).collect();
    for _ in 1..n {
        let mut nx = vec![];
        for f in &fr {
            for i in 0..k {
                if i != *f.last().unwrap() {
                    let mut g = f.clone();
                    g.push(i);
                    nx.push(g);
                }
            }
        }
        fr = nx;
    }
    if cyclic {
        fr.retain(|f| f[0] != f[n - 1]);
    }
    fr
}

fn tag(s: &[usize]) -> String {
    s.iter().map(|i| i.to_string()).collect()
}

fn pts_of<C: Cv>(s: &[usize]) -> Vec<Vec<f64>> {
    s.iter().map(|i| LAT[*i][..C::DIM].to_vec()).collect()
}

/// Larger, smaller, far away.
fn resized(p: &[Vec<f64>], k: f64, o: f64) -> Vec<Vec<f64>> {
    p.iter().map(|p| p.iter().enumerate().map(|(i, x)| x * k + o * (1.0 - 0.7 * i as f64)).collect()).collect()
}

const SIZES: [(f64, f64); 5] = [(1e3, 0.0), (1.0, 2e3), (1e-3, 0.0), (37.0, -500.0), (1e-5, 0.0)];

/// Many points along a winding line.
fn many(n: usize, dim: usize, ring: bool) -> Vec<Vec<f64>> {
    (0..n)
        .map(|i| {
            let t = i as f64;
            let a = TAU * t / n as f64;
            let w = 1.0 + 0.3 * ((i * i) % 7) as f64 / 7.0;
            let p = if ring { [8.0 * w * a.cos(), 5.0 * w * a.sin(), (3.0 * a).sin()] } else { [t + 0.4 * (2.3 * t).sin(), w * (0.8 * t).sin(), 0.1 * t * w] };
            p[..dim].to_vec()
        })
        .collect()
}

fn c11(env: &Env) {
    let th = env.thorough();
    let maxn = if th { 7 } else { 6 };
    env.note(format!("every sequence of 1..={maxn} points over a lattice of 4 (thorough up to 5) points without equal neighbours x degrees 1..=5, 2D and 3D"));
    let mut items = vec![];
    for n in 1..=maxn {
        let k = if th && n <= 6 { 5 } else if n <= 5 { 4 } else { 3 };
        for s in seqs(k, n, false) {
            items.push(s);
        }
    }
    fn one<C: Cv>(pts: &[Vec<f64>], p: usize, rec: &mut Rec) -> Res {
        let size = pts.iter().flatten().fold(f64::MIN_POSITIVE, |m, x| m.max(x.abs()));
        let size = if size <= 2.5 && size > 0.2 { 1.0 } else { size };
        let r = C::interpolate(pts, p);
        rec.trans(1);
        if pts.len() < p + 1 {
            rec.outcome("too few");
            check!(r.is_err(), "accepted", "{} points for degree {p}", pts.len());
            return Ok(());
        }
        let c = match r {
            Ok(c) => c,
            Err(e) => fail!("refused", "{e}"),
        };
        rec.outcome("interpolated");
        let m = c.model();
        rec.state(canon(&m));
        if let Err(e) = m.well_formed() {
            fail!("malformed", "{e}");
        }
        check!(m.p == p && m.is_clamped(), "clamped", "degree {} knots {:?}", m.p, m.knots);
        check!(m.n() == pts.len(), "count", "{} control points for {} points", m.n(), pts.len());
        let mut at = vec![0.0];
        for w in pts.windows(2) {
            at.push(at.last().unwrap() + dist(&w[0], &w[1]));
        }
        let l = *at.last().unwrap();
        let (a, b) = c.dom();
        let tol = if C::EPS > 1e-6 { 5e-3 } else { 1e-7 };
        for (i, t) in at.iter().enumerate() {
            let u = a + (b - a) * t / l;
            let p = c.pt(q::<C>(u));
            rec.trans(1);
            check!(close(&p, &pts[i], tol * size), "point", "{i}: at {u} is {p:?}, must be {:?}", pts[i]);
        }
        Ok(())
    }
    env.par(&items, |s, rec| {
        for p in 1..=5 {
            rec.case(&format!("2d.p{p}.{}", tag(s)), |rec| one::<C2>(&pts_of::<C2>(s), p, rec));
            rec.case(&format!("3d.p{p}.{}", tag(s)), |rec| one::<C3>(&pts_of::<C3>(s), p, rec));
            if p <= 3 {
                rec.case(&format!("2f.p{p}.{}", tag(s)), |rec| one::<C2f>(&pts_of::<C2f>(s), p, rec));
            }
            if s.len() == 5 {
                for (k, o) in SIZES {
                    rec.case(&format!("3d.p{p}.{}.{k}.{o}", tag(s)), |rec| one::<C3>(&resized(&pts_of::<C3>(s), k, o), p, rec));
                }
            }
        }
    });
    // two neighbours that are very close to each other
    let gaps = [1e-2, 1e-3, 1e-4, 1e-5, 1e-6];
    let near: Vec<Vec<usize>> = seqs(4, if th { 5 } else { 4 }, false);
    env.note(format!("{} sequences with a further point at {gaps:?} from each of the points in turn, degrees 1..=4", near.len()));
    env.par(&near, |s, rec| {
        for i in 0..s.len() {
            for (g, gap) in gaps.iter().enumerate() {
                for p in 1..=4 {
                    let with = |mut v: Vec<Vec<f64>>| {
                        let mut q = v[i].clone();
                        let k = (i + g) % q.len();
                        q[k] += if (i + g) % 3 == 0 { -gap } else { *gap };
                        v.insert(i + 1, q);
                        v
                    };
                    rec.case(&format!("near2.p{p}.{}.{i}.{gap}", tag(s)), |rec| one::<C2>(&with(pts_of::<C2>(s)), p, rec));
                    rec.case(&format!("near3.p{p}.{}.{i}.{gap}", tag(s)), |rec| one::<C3>(&with(pts_of::<C3>(s)), p, rec));
                }
            }
        }
    });
    let long: Vec<(usize, usize)> = [11, 12, 20, 41, if th { 160 } else { 80 }].into_iter().flat_map(|n| (1..=7).map(move |p| (n, p))).collect();
    env.note("11 to 80 (thorough 160) points x degrees 1..=7; lattice sequences of 5 points of four other sizes");
    env.par(&long, |(n, p), rec| {
        rec.case(&format!("long2.p{p}.{n}"), |rec| one::<C2>(&many(*n, 2, false), *p, rec));
        rec.case(&format!("long3.p{p}.{n}"), |rec| one::<C3>(&many(*n, 3, false), *p, rec));
        for (k, o) in SIZES {
            rec.case(&format!("long3.p{p}.{n}.{k}.{o}"), |rec| one::<C3>(&resized(&many(*n, 3, false), k, o), *p, rec));
        }
    });
}

/// Smoothness of a curve over its seam: all derivatives below `p`.
fn smooth_seam(m: &MC, rec: &mut Rec, tol: f64) -> Res {
    let (a, b) = m.domain();
    let l = m.ders(a, m.p.max(1) - 1, Side::Right);
    let r = m.ders(b, m.p.max(1) - 1, Side::Left);
    for k in 0..l.len() {
        rec.trans(1);
        // close points have large derivatives, which are rounded accordingly
        let t = tol * m.scale() * 8f64.powi(k as i32) + 1e-9 * l[k].iter().map(|x| x.abs()).fold(0.0, f64::max);
        check!(close(&l[k], &r[k], t), "seam", "derivative {k}: {:?} at the start, {:?} at the end", l[k], r[k]);
    }
    Ok(())
}

fn c12(env: &Env) {
    let th = env.thorough();
    let maxn = if th { 7 } else { 6 };
    env.note(format!("every ring of 1..={maxn} points over a lattice without equal neighbours x degrees 1..=5 x 3 knot styles, 2D and 3D"));
    env.assume("periodic interpolation at the knots with an even degree: only rings with an odd number of points (the system of an even ring is singular)");
    let mut items = vec![];
    for n in 2..=maxn {
        let k = if n <= 5 { 5 } else { 4 };
        let k = if th { k } else { k.min(4) };
        for s in seqs(k, n, true) {
            items.push(s);
        }
    }
    fn periodic<C: Cv>(pts: &[Vec<f64>], p: usize, rec: &mut Rec) -> Res {
        let size = pts.iter().flatten().fold(f64::MIN_POSITIVE, |m, x| m.max(x.abs()));
        let size = if size <= 2.5 && size > 0.2 { 1.0 } else { size };
        let r = C::periodic(pts, p);
        rec.trans(1);
        if pts.len() < p + 1 {
            rec.outcome("too few");
            check!(r.is_err(), "accepted", "{} points for degree {p}", pts.len());
            return Ok(());
        }
        let c = match r {
            Ok(c) => c,
            Err(e) => fail!("refused", "{e}"),
        };
        rec.outcome("periodic");
        let m = c.model();
        rec.state(canon(&m));
        if let Err(e) = m.well_formed() {
            fail!("malformed", "{e}");
        }
        check!(m.p == p, "degree", "{}", m.p);
        check!(c.closed(), "closed", "not closed");
        smooth_seam(&m, rec, C::EPS * 10.0)?;
        // the control polygon is the ring: the blossom of a uniform periodic B-spline
        for (i, cp) in m.cps.iter().enumerate() {
            let want = &pts[i % pts.len()];
            check!(close(&cp[..C::DIM], want, C::EPS * size) && cp[C::DIM] == 1.0, "ring", "control point {i}: {cp:?} must be {want:?}");
        }
        Ok(())
    }
    fn interp<C: Cv>(pts: &[Vec<f64>], p: usize, st: usize, rec: &mut Rec) -> Res {
        let size = pts.iter().flatten().fold(f64::MIN_POSITIVE, |m, x| m.max(x.abs()));
        let n = pts.len();
        let style = match st {
            0 => KnotStyle::Uniform,
            1 => KnotStyle::Chordal,
            _ => KnotStyle::Centripetal,
        };
        let r = C::periodic_interpolate(pts, p, style);
        rec.trans(1);
        if n < p + 1 {
            rec.outcome("too few");
            check!(r.is_err(), "accepted", "{n} points for degree {p}");
            return Ok(());
        }
        let c = match r {
            Ok(c) => c,
            Err(e) => fail!("refused", "{e}"),
        };
        rec.outcome("interpolated");
        let m = c.model();
        rec.state(canon(&m));
        if let Err(e) = m.well_formed() {
            fail!("malformed", "{e}");
        }
        check!(m.p == p, "degree", "{}", m.p);
        let (a, b) = m.domain();
        check!(close(&c.pt(a), &c.pt(b), 1e-8 * m.scale()), "closed", "starts at {:?}, ends at {:?}", c.pt(a), c.pt(b));
        smooth_seam(&m, rec, 1e-8)?;
        let b = m.breaks();
        check!(b.len() == n + 1, "breaks", "{} knots in the domain for {n} points", b.len());
        for i in 0..=n {
            let p = c.pt(b[i]);
            let want = &pts[i % n];
            check!(close(&p, want, 1e-8 * m.scale()), "point", "{i}: at {} is {p:?}, must be {want:?}", b[i]);
        }
        // the spacing follows the style
        let raw: Vec<f64> = (0..n)
            .map(|i| {
                let d = dist(&pts[i], &pts[(i + 1) % n]);
                match st {
                    0 => 1.0,
                    1 => d,
                    _ => d.sqrt(),
                }
            })
            .collect();
        let k = (b[1] - b[0]) / raw[0];
        for i in 0..n {
            check!((b[i + 1] - b[i] - k * raw[i]).abs() < 1e-8 * size.max(1.0), "spacing", "interval {i} is {}, must be {}", b[i + 1] - b[i], k * raw[i]);
        }
        Ok(())
    }
    env.par(&items, |s, rec| {
        for p in 1..=5 {
            rec.case(&format!("periodic.2d.p{p}.{}", tag(s)), |rec| periodic::<C2>(&pts_of::<C2>(s), p, rec));
            rec.case(&format!("periodic.3d.p{p}.{}", tag(s)), |rec| periodic::<C3>(&pts_of::<C3>(s), p, rec));
            rec.case(&format!("periodic.2f.p{p}.{}", tag(s)), |rec| periodic::<C2f>(&pts_of::<C2f>(s), p, rec));
            if s.len() == 5 {
                for (k, o) in SIZES {
                    rec.case(&format!("periodic.3d.p{p}.{}.{k}.{o}", tag(s)), |rec| periodic::<C3>(&resized(&pts_of::<C3>(s), k, o), p, rec));
                    for st in 0..3 {
                        rec.case(&format!("interp.3d.p{p}.{st}.{}.{k}.{o}", tag(s)), |rec| interp::<C3>(&resized(&pts_of::<C3>(s), k, o), p, st, rec));
                    }
                }
            }
            if p % 2 == 0 && s.len() % 2 == 0 && s.len() > p {
                continue;
            }
            for st in 0..3 {
                rec.case(&format!("interp.2d.p{p}.{st}.{}", tag(s)), |rec| interp::<C2>(&pts_of::<C2>(s), p, st, rec));
                rec.case(&format!("interp.3d.p{p}.{st}.{}", tag(s)), |rec| interp::<C3>(&pts_of::<C3>(s), p, st, rec));
            }
        }
    });
    let long: Vec<(usize, usize)> = [11, 12, 21, if th { 81 } else { 41 }].into_iter().flat_map(|n| (1..=7).map(move |p| (n, p))).collect();
    env.note("rings of 11 to 41 (thorough 81) points x degrees 1..=7; lattice rings of 5 points of four other sizes");
    env.par(&long, |(n, p), rec| {
        rec.case(&format!("longperiodic2.p{p}.{n}"), |rec| periodic::<C2>(&many(*n, 2, true), *p, rec));
        rec.case(&format!("longperiodic3.p{p}.{n}"), |rec| periodic::<C3>(&many(*n, 3, true), *p, rec));
        if p % 2 == 1 || n % 2 == 1 {
            for st in 0..3 {
                rec.case(&format!("longinterp2.p{p}.{n}.{st}"), |rec| interp::<C2>(&many(*n, 2, true), *p, st, rec));
                rec.case(&format!("longinterp3.p{p}.{n}.{st}"), |rec| interp::<C3>(&many(*n, 3, true), *p, st, rec));
            }
        }
    });
}

// ---------------------------------------------------------------- C13

fn c13_one<C: Cv>(s: &Spec, rec: &mut Rec) {
    let rel = 1e-3;
    rec.case(&format!("len.{}.{}", C::NAME, s.name), |rec| {
        let c = mk::<C>(s)?;
        let m = c.model();
        rec.state(canon(&m));
        let (a, b) = m.domain();
        let want = m.length(a, b);
        let got = c.len_().map_err(|e| Fail { kind: "refused".into(), detail: e })?;
        rec.trans(1);
        rec.outcome("length");
        check!((got - want).abs() <= rel * want, "length", "{got} must be {want}");
        // reversal, insertion
        let r = c.inv().len_().map_err(|e| Fail { kind: "refused".into(), detail: e })?;
        check!((got - r).abs() <= rel * want, "reversed", "{r} must be {got}");
        let mut k = c.clone();
        let mid = a + (b - a) * 0.375;
        if k.refine(&[mid, mid]).is_ok() {
            let r = k.len_().map_err(|e| Fail { kind: "refused".into(), detail: e })?;
            check!((got - r).abs() <= rel * want, "refined", "{r} must be {got}");
        }
        for f in [0.25, 0.5, 0.8125] {
            let (x, y) = c.split(a + (b - a) * f).map_err(|e| Fail { kind: "split".into(), detail: e })?;
            let (lx, ly) = (x.len_(), y.len_());
            rec.trans(2);
            match (lx, ly) {
                (Ok(lx), Ok(ly)) => {
                    check!((lx + ly - got).abs() <= rel * want, "additive", "{lx} + {ly} must be {got}");
                    let wx = m.length(a, a + (b - a) * f);
                    check!((lx - wx).abs() <= rel * want, "part", "{lx} must be {wx}");
                }
                (x, y) => fail!("refused", "{x:?} {y:?}"),
            }
        }
        // parameter at length
        let br = m.breaks();
        let mut ls: Vec<f64> = (0..=8).map(|i| want * i as f64 / 8.0).collect();
        ls.pop();
        for k in &br[..br.len() - 1] {
            ls.push(m.length(a, *k));
        }
        let mut last = a;
        ls.sort_by(|x, y| x.partial_cmp(y).unwrap());
        for l in &ls {
            for tol in [None, Some(1e-6), Some(1e-2)] {
                let u = match c.param_at(*l, tol) {
                    Ok(u) => u,
                    Err(e) => fail!("refused", "at length {l} of {want}: {e}"),
                };
                rec.trans(1);
                check!(u >= a && u <= b, "outside", "length {l} at {u}, domain {a}..{b}");
                let back = m.length(a, u);
                let t = tol.unwrap_or(1e-4) * 1.01 + rel * want * 0.5;
                check!((back - l).abs() <= t, "inverse", "length {l} at {u}, where the length is {back}");
                if tol == Some(1e-6) {
                    check!(u >= last - 1e-6, "monotone", "length {l} at {u}, a shorter one at {last}");
                    last = u;
                }
            }
        }
        let u = c.param_at(got, Some(1e-6)).map_err(|e| Fail { kind: "refused".into(), detail: format!("at the full length: {e}") })?;
        check!((m.length(a, u) - got).abs() <= 1e-5 + rel * want * 0.5, "inverse-full", "full length at {u} of {a}..{b}");
        let u = c.param_at(0.0, None).map_err(|e| Fail { kind: "refused".into(), detail: e })?;
        check!(u == a, "inverse-zero", "zero length at {u}");
        check!(c.param_at(got * 1.5, None).is_err(), "beyond", "a length beyond the whole is accepted");
        Ok(())
    });
    rec.case(&format!("div.{}.{}", C::NAME, s.name), |rec| {
        let c = mk::<C>(s)?;
        let m = c.model();
        let (a, b) = m.domain();
        let want = m.length(a, b);
        let mut check_div = |d: Vec<(f64, f64)>, step: f64, n: usize, what: &str, rec: &mut Rec| -> Res {
            rec.trans(1);
            rec.outcome("divided");
            check!(d.len() == n + 1, "count", "{what}: {} division points, must be {}", d.len(), n + 1);
            for (i, (u, l)) in d.iter().enumerate() {
                check!((l - step * i as f64).abs() <= 1e-6 + rel * want * 0.1, "step", "{what}: point {i} at length {l}, must be {}", step * i as f64);
                check!(*u >= a && *u <= b, "outside", "{what}: point {i} at {u}");
                let back = m.length(a, *u);
                check!((back - l).abs() <= 2.6e-3 + rel * want * 0.5, "place", "{what}: point {i} at {u}, where the length is {back} and must be {l}");
                if i > 0 {
                    check!(d[i - 1].0 < *u, "order", "{what}: point {i} at {u} after {}", d[i - 1].0);
                }
            }
            Ok(())
        };
        for n in 1..=7usize {
            match c.div_count(n) {
                Ok(d) => check_div(d, want / n as f64, n, &format!("by count {n}"), rec)?,
                Err(e) => fail!("refused", "by count {n}: {e}"),
            }
        }
        for f in [0.1, 0.27, 0.45, 0.6, 0.95] {
            match c.div_len(want * f) {
                Ok(d) => check_div(d, want * f, (1.0 / f) as usize, &format!("by {f} of the length"), rec)?,
                Err(e) => fail!("refused", "by {f} of the length: {e}"),
            }
        }
        check!(c.div_len(want * 1.1).is_err(), "too-long", "dividing by more than the length is accepted");
        check!(c.div_len(0.0).is_err(), "zero", "dividing by zero length is accepted");
        check!(c.div_len(-1.0).is_err(), "negative", "dividing by a negative length is accepted");
        Ok(())
    });
}

fn c13(env: &Env) {
    let th = env.thorough();
    let ks = if th { all_knots(4, 2, 4, 2, 2) } else { all_knots(3, 2, 2, 1, 1) };
    env.note(format!("{} knot vectors x weights x points; lengths, all length fractions of an eighth and all knots, counts 1..=7", ks.len()));
    env.assume("the quadrature of the library is compared within 1e-3 of the length; division points within its tolerance of 2.5e-3");
    let s2 = curves(&ks, &['1', 'm'], &['k', 's'], 2);
    env.par(&s2, |s, rec| c13_one::<C2>(s, rec));
    let s3 = curves(&ks, &['1', 'm'], &['k', 's'], 3);
    env.par(&s3, |s, rec| c13_one::<C3>(s, rec));
}

// ---------------------------------------------------------------- C14

/// Is the nearest point unique and well separated? (best distance, parameter) if so.
fn separated(m: &MC, q: &[f64], per: usize) -> Option<(f64, f64)> {
    let d = m.dense(per);
    let ds: Vec<f64> = d.iter().map(|(_, p)| dist(p, q)).collect();
    let n = ds.len();
    let closed = dist(&d[0].1, &d[n - 1].1) < 1e-9 * m.scale();
    let mut mins: Vec<(f64, usize)> = vec![];
    for i in 0..n {
        let l = if i > 0 { ds[i - 1] } else if closed { ds[n - 2] } else { f64::INFINITY };
        let r = if i + 1 < n { ds[i + 1] } else if closed { ds[1] } else { f64::INFINITY };
        if ds[i] <= l && ds[i] <= r {
            mins.push((ds[i], i));
        }
    }
    mins.sort_by(|a, b| a.0.partial_cmp(&b.0).unwrap());
    let (best, u) = m.closest(q, per);
    let sc = m.extent();
    // other basins have to be farther by 5 % of the size
    for (dd, i) in mins.iter().skip(1) {
        let apart = i.abs_diff(mins[0].1);
        let apart = if closed { apart.min(n - 1 - apart) } else { apart };
        if apart > 3 && *dd < best + 0.1 * sc {
            return None;
        }
    }
    // not near a focal point: curvature of the squared distance
    let (a, b) = m.domain();
    if u > a && u < b {
        for s in [Side::Left, Side::Right] {
            let e = m.ders(u, 2, s);
            let r = sub(&e[0], q);
            let speed2 = dot(&e[1], &e[1]);
            let h = speed2 + dot(&r, &e[2]);
            if h < 0.35 * speed2 {
                return None;
            }
        }
    }
    Some((best, u))
}

/// How close to the nearest distance the result has to be: the solver's seed is the best of the
/// chords between `n * p` regular samples; from there Newton's method converges if the curve is
/// smooth, otherwise the seed is as good as the chords are.
fn slack(m: &MC) -> f64 {
    let tight = 5e-3 * m.extent() + 1e-12 * m.scale();
    let (a, b) = m.domain();
    let k = m.n() * m.p;
    let open = dist(&m.pt(a), &m.pt(b)) > 1e-6;
    let smooth = open && m.p > 1 && m.breaks().iter().all(|u| *u == a || *u == b || mult(&m.knots, *u) < m.p);
    if smooth && k >= 8 {
        return tight;
    }
    let at = |i: usize| a + (b - a) * i as f64 / (k - 1) as f64;
    let mut delta: f64 = 0.0;
    for i in 0..k - 1 {
        let (u0, u1) = (at(i), at(i + 1));
        let (p0, p1) = (m.pt(u0), m.pt(u1));
        for j in 1..32 {
            let t = j as f64 / 32.0;
            let c = add(&mul(&p0, 1.0 - t), &mul(&p1, t));
            delta = delta.max(dist(&c, &m.pt(u0 + (u1 - u0) * t)));
        }
    }
    2.1 * delta + tight
}

/// How close five steps of Newton's method come from anywhere near the nearest point (at `u`),
/// i.e. within the distance of regular samples: where the curve is gentle they find it.
fn gentle(m: &MC, q: &[f64], u: f64, best: f64, ring: bool) -> f64 {
    let (a, b) = m.domain();
    let w = 1.5 * (b - a) / ((m.n() * m.p - 1) as f64);
    if !ring && (u - w <= a || u + w >= b) {
        return f64::INFINITY;
    }
    let wrap = |v: f64| if v < a { v + (b - a) } else if v >= b { v - (b - a) } else { v };
    let mut worst: f64 = 0.0;
    for i in 0..=24 {
        let mut v = u + w * (i as f64 / 12.0 - 1.0);
        for _ in 0..5 {
            let e = m.ders(wrap(v), 2, Side::Right);
            let r = sub(&e[0], q);
            let h = dot(&e[1], &e[1]) + dot(&r, &e[2]);
            v -= dot(&r, &e[1]) / h;
            if !(v >= u - w && v <= u + w) {
                return f64::INFINITY;
            }
        }
        worst = worst.max(dist(&m.pt(wrap(v)), q) - best);
    }
    10.0 * worst + 1e-8 * m.extent() + 1e-12 * m.scale()
}

/// Queries all round a smooth closed curve, and close by where it starts and ends.
fn c14_ring<C: Cv>(name: &str, c: &C, rec: &mut Rec) {
    rec.case(&format!("ring.{}.{name}", C::NAME), |rec| {
        let m = c.model();
        rec.state(canon(&m));
        let (a, b) = m.domain();
        let (d0, d1) = (m.ders(a, 1, Side::Right), m.ders(b, 1, Side::Left));
        check!(close(&d0[0], &d1[0], 1e-9 * m.scale()) && close(&d0[1], &d1[1], 1e-6 * norm(&d0[1])), "harness", "not a smooth ring");
        let h = (b - a) / ((m.n() * m.p - 1) as f64);
        let mut us: Vec<f64> = (0..12).map(|i| a + (b - a) * (i as f64 + 0.5) / 12.0).collect();
        for f in [0.0, 1e-5, 1e-3, 0.01, 0.05, 0.1, 0.2, 0.3, 0.5, 0.7, 0.9, 1.2] {
            us.extend([a + f * h, b - f * h]);
        }
        let size = m.extent() / 2.0;
        let sl = slack(&m);
        for u in us {
            let e = m.ders(u.min(b - 1e-12 * (b - a)), 2, Side::Right);
            let t = unit(&e[1]);
            let nrm = if C::DIM == 2 { vec![-t[1], t[0]] } else { unit(&sub(&[0.3, 0.5, 1.0], &mul(&t, dot(&t, &[0.3, 0.5, 1.0])))) };
            for o in [0.0, 1e-3, 0.05, -0.05, 0.15, -0.15, -0.4] {
                let q = add(&e[0], &mul(&nrm, o * size));
                rec.trans(1);
                let v = c.closest_param(&q).map_err(|e| Fail { kind: "refused".into(), detail: e })?;
                check!(v >= a && v <= b, "outside", "query {q:?}: parameter {v}, domain {a}..{b}");
                let r = c.closest_pt(&q).map_err(|e| Fail { kind: "refused".into(), detail: e })?;
                check!(close(&r, &c.pt(v), 1e-12 * m.scale()), "point", "point {r:?} at {v} must be {:?}", c.pt(v));
                match separated(&m, &q, 60) {
                    None => rec.outcome("not separated"),
                    Some((best, w)) => {
                        let near = gentle(&m, &q, w, best, true);
                        rec.outcome(if near < 1e-6 * size { "ring, gentle" } else { "ring" });
                        check!(dist(&r, &q) <= best + sl.min(near), "nearest", "query {q:?}: {} away at {v}, the nearest is {best} away at {w}", dist(&r, &q));
                    }
                }
            }
        }
        Ok(())
    });
}

fn c14_one<C: Cv>(s: &Spec, grid: &[Vec<f64>], rec: &mut Rec) {
    rec.case(&format!("on.{}.{}", C::NAME, s.name), |rec| {
        let c = mk::<C>(s)?;
        let m = c.model();
        rec.state(canon(&m));
        let (a, b) = m.domain();
        for u in m.params(3) {
            let p = m.pt(u);
            rec.trans(1);
            // self-contacts and cusps excepted
            if separated(&m, &p, 60).is_none() {
                rec.outcome("not separated");
                continue;
            }
            rec.outcome("on the curve");
            let v = c.closest_param(&p).map_err(|e| Fail { kind: "refused".into(), detail: e })?;
            check!(v >= a && v <= b, "outside", "query at {u}: parameter {v}, domain {a}..{b}");
            let r = c.closest_pt(&p).map_err(|e| Fail { kind: "refused".into(), detail: e })?;
            check!(close(&r, &c.pt(v), 1e-12 * m.scale()), "point", "point {r:?} at {v} must be {:?}", c.pt(v));
            check!(dist(&r, &p) <= slack(&m), "on", "query on the curve at {u}: nearest found at {v}, {} away", dist(&r, &p));
        }
        Ok(())
    });
    rec.case(&format!("grid.{}.{}", C::NAME, s.name), |rec| {
        let c = mk::<C>(s)?;
        let m = c.model();
        let (a, b) = m.domain();
        let sl = slack(&m);
        for g in grid {
            let g = &g[..C::DIM];
            rec.trans(1);
            let v = c.closest_param(g).map_err(|e| Fail { kind: "refused".into(), detail: e })?;
            check!(v >= a && v <= b, "outside", "query {g:?}: parameter {v}, domain {a}..{b}");
            let r = c.closest_pt(g).map_err(|e| Fail { kind: "refused".into(), detail: e })?;
            check!(close(&r, &c.pt(v), 1e-12 * m.scale()), "point", "point {r:?} at {v} must be {:?}", c.pt(v));
            match separated(&m, g, 60) {
                None => rec.outcome("not separated"),
                Some((best, u)) => {
                    let near = gentle(&m, g, u, best, false);
                    rec.outcome(if u == a || u == b { "end" } else if near < 1e-6 { "inside, gentle" } else { "inside" });
                    check!(
                        dist(&r, g) <= best + sl.min(near),
                        "nearest",
                        "query {g:?}: {} away at {v}, the nearest is {best} away at {u}",
                        dist(&r, g)
                    );
                }
            }
        }
        Ok(())
    });
}

fn c14(env: &Env) {
    let th = env.thorough();
    let mut ks = vec![];
    for p in 1..=if th { 4 } else { 3 } {
        // the solver needs a speed that does not jump by orders of magnitude
        ks.extend(clamped(p, 2, 2).into_iter().filter(|k| !k.name.ends_with("zi")));
        ks.extend(unclamped(p, 1, 1));
    }
    let r: Vec<f64> = if th { vec![-5.0, -3.0, -1.0, 0.5, 2.0, 4.0, 6.5] } else { vec![-5.0, -1.0, 0.5, 2.0, 6.5] };
    let mut grid = vec![];
    for x in &r {
        for y in &r {
            for z in [0.25, -2.0] {
                grid.push(vec![*x, *y, z]);
            }
        }
    }
    env.note(format!("{} knot vectors x weights x points (open and closed); {} grid queries and queries on the curve at every knot and three parameters per interval", ks.len(), grid.len()));
    env.assume("distance is compared only where the nearest point is unique and well separated: every other local minimum farther by 10 % of the size, and not near a centre of curvature; in all cases the parameter has to be in the domain and the point to be the curve's");
    env.assume("the speed of the curve does not change by orders of magnitude from one knot interval to the next (Newton's method starts from sampled chords)");
    let s2 = curves(&ks, &['1', 'm'], &['k', 's', 'c'], 2);
    env.par(&s2, |s, rec| c14_one::<C2>(s, &grid, rec));
    let s3 = curves(&ks, &['1', 'm'], &['k', 'c'], 3);
    env.par(&s3, |s, rec| c14_one::<C3>(s, &grid, rec));
    // smooth rings
    let mut rings = vec![];
    for (k, o) in [(1.0, 0.0), (700.0, 3000.0), (0.01, 0.0), (20.0, -1e5)] {
        for n in 3..=if th { 6 } else { 5 } {
            for s in seqs(n.min(5), n, true) {
                let distinct = s.iter().enumerate().all(|(i, x)| !s[i + 1..].contains(x));
                if distinct && (th || (n < 5 || s[0] == 0) && (k == 1.0 || n == 4)) {
                    for p in 2..=4 {
                        rings.push((k, o, s.clone(), p));
                    }
                }
            }
        }
    }
    env.note(format!("{} periodic curves, circles and ellipses of four sizes and places, 252 queries about each, close by its start as well", rings.len()));
    fn ring<C: Cv>(k: f64, o: f64, s: &[usize], p: usize, rec: &mut Rec) {
        if s.len() > p {
            let pts = resized(&pts_of::<C>(s), k, o);
            if let Ok(c) = C::periodic(&pts, p) {
                c14_ring(&format!("periodic.p{p}.{}.{k}.{o}", tag(s)), &c, rec);
            }
        }
    }
    env.par(&rings, |(k, o, s, p), rec| {
        ring::<C2>(*k, *o, s, *p, rec);
        ring::<C3>(*k, *o, s, *p, rec);
    });
    let discs: Vec<(f64, f64, usize)> = [(1.0, 0.0), (700.0, 3000.0), (0.01, 0.0), (20.0, -1e5)].into_iter().flat_map(|(k, o)| (0..4).map(move |i| (k, o, i))).collect();
    env.par(&discs, |(k, o, i), rec| {
        let (x, y) = ([[0.6, 0.8, 0.0], [1.0, 0.0, 0.0]][i % 2], [[-0.8, 0.6, 0.0], [0.0, 1.0, 0.0]][i % 2]);
        let e = [1.0, 0.6][i / 2];
        if let Ok(c) = C2::ellipse(&[*o, 0.5 * o], &mul(&x[..2], *k), &mul(&y[..2], k * e)) {
            c14_ring(&format!("ellipse{i}.{k}.{o}"), &c, rec);
        }
        if let Ok(c) = C3::ellipse(&[*o, 0.5 * o, -*o], &mul(&x, *k), &mul(&y, k * e)) {
            c14_ring(&format!("ellipse{i}.{k}.{o}"), &c, rec);
        }
    });
    // polylines: the nearest point is known exactly
    let mut lines: Vec<Vec<Vec<f64>>> = vec![];
    let cells: Vec<Vec<f64>> = (0..6).map(|i| vec![(i % 3) as f64 * 2.0 - 1.5, (i / 3) as f64 * [1.0, 4.0][i % 2], (i % 2) as f64]).collect();
    for n in 2..=if th { 5 } else { 4 } {
        for k in 0..6usize.pow(n) {
            let mut r = k;
            let v: Vec<usize> = (0..n).map(|_| { let x = r % 6; r /= 6; x }).collect();
            if v.windows(2).all(|w| w[0] != w[1]) {
                lines.push(v.into_iter().map(|i| cells[i].clone()).collect());
            }
        }
    }
    env.note(format!("all {} polylines of up to {} vertices out of six uneven places, {} queries", lines.len(), if th { 5 } else { 4 }, grid.len()));
    let lines: Vec<(usize, &[Vec<Vec<f64>>])> = lines.chunks(16).enumerate().collect();
    fn go<C: Cv>(k: usize, ls: &[Vec<Vec<f64>>], grid: &[Vec<f64>], rec: &mut Rec) {
        rec.case(&format!("polylines.{}.{k}", C::NAME), |rec| {
            for l in ls {
                let v: Vec<Vec<f64>> = l.iter().map(|p| p[..C::DIM].to_vec()).collect();
                let c = C::polyline_(&v, true);
                rec.state(canon(&c.model()));
                for g in grid.iter().step_by(if C::DIM == 2 { 2 } else { 1 }) {
                    let g = &g[..C::DIM];
                    rec.trans(1);
                    let best = v.windows(2).map(|w| {
                        let d = sub(&w[1], &w[0]);
                        let t = (dot(&sub(g, &w[0]), &d) / dot(&d, &d)).clamp(0.0, 1.0);
                        dist(g, &add(&w[0], &mul(&d, t)))
                    }).fold(f64::INFINITY, f64::min);
                    let r = c.closest_pt(g).map_err(|e| Fail { kind: "refused".into(), detail: e })?;
                    check!(dist(&r, g) <= best + 1e-6, "polyline", "query {g:?} of {v:?}: {} away, the nearest is {best} away", dist(&r, g));
                }
            }
            rec.outcome("polylines");
            Ok(())
        });
    }
    env.par(&lines, |(k, ls), rec| go::<C2>(*k, ls, &grid, rec));
    env.par(&lines, |(k, ls), rec| go::<C3>(*k, ls, &grid, rec));
}

// ---------------------------------------------------------------- C15

/// Follow a polyline along the curve: for every vertex the first parameter after the one before
/// at which the curve passes it.
fn follow(m: &MC, poly: &[Vec<f64>], tol: f64) -> Result<Vec<f64>, String> {
    // vertices are at dyadic parameters of the domain (or, for degree 1, at the knots)
    let (a, b) = m.domain();
    let mut cand: Vec<f64> = if m.p == 1 {
        m.breaks()
    } else {
        let n = 1 << 10;
        (0..=n).map(|i| a + (b - a) * i as f64 / n as f64).collect()
    };
    cand.sort_by(|x, y| x.partial_cmp(y).unwrap());
    let mut j = 0;
    let mut out = vec![];
    for (i, p) in poly.iter().enumerate() {
        loop {
            if j >= cand.len() {
                return Err(format!("vertex {i} {p:?} is not on the curve after the one before"));
            }
            let u = cand[j];
            j += 1;
            if close(&m.pt(u), p, tol) {
                out.push(u);
                break;
            }
        }
    }
    Ok(out)
}

fn c15_check<C: Cv>(m: &MC, poly: &[Vec<f64>], tol: f64, convex: bool, rec: &mut Rec) -> Res {
    let (a, b) = m.domain();
    let e = C::EPS * 10.0 * m.scale();
    check!(poly.len() >= 2, "short", "{} vertices", poly.len());
    check!(close(&poly[0], &m.pt(a), e), "start", "{:?} must be {:?}", poly[0], m.pt(a));
    let l = poly.last().unwrap();
    check!(close(l, &m.pt(b), e), "end", "{l:?} must be {:?}", m.pt(b));
    let us = match follow(m, poly, e) {
        Ok(u) => u,
        Err(e) => fail!("order", "{e}"),
    };
    check!((us[0] - a).abs() < 1e-12 * (1.0 + a.abs()), "first", "starts at {}", us[0]);
    if !convex {
        return Ok(());
    }
    for (i, w) in us.windows(2).enumerate() {
        let (p1, p3) = (&poly[i], &poly[i + 1]);
        let chord = sub(p3, p1);
        for j in 1..16 {
            let u = w[0] + (w[1] - w[0]) * j as f64 / 16.0;
            let d = sub(&m.pt(u), p1);
            let (area, lim) = if C::DIM == 2 {
                ((d[0] * chord[1] - d[1] * chord[0]).abs(), tol)
            } else {
                let c = cross(&d, &chord);
                (dot(&c, &c), tol)
            };
            rec.trans(1);
            check!(area <= 4.0 * lim + 1e-12, "flat", "piece {i} ({}..{}): area {area} at {u}, tolerance {lim}", w[0], w[1]);
            // a piece whose ends are close has to be small altogether
            if norm(&chord).powi(2) < tol {
                check!(dot(&d, &d) <= 4.0 * tol, "loop", "piece {i} ({}..{}) leaves its ends by {}", w[0], w[1], norm(&d));
            }
        }
    }
    Ok(())
}

fn c15(env: &Env) {
    let th = env.thorough();
    let mut ks = vec![];
    for p in 1..=4 {
        // (the oracle looks for the vertices by sampling, which takes a speed without jumps)
        ks.extend(clamped(p, 2, if th { 4 } else { 2 }).into_iter().filter(|k| !k.name.ends_with("zi")));
        ks.extend(unclamped(p, 1, 1));
    }
    let alts = [0.0, 1.0 - f64::EPSILON / 2.0];
    let sc = scripts(if th { 10 } else { 6 }, &alts, 0.5, if th { 3 } else { 2 });
    env.note(format!("{} knot vectors x weights x points; tolerances 1e-1, 1e-2, 1e-3 and default; all {} scripts of the first random choices over {{lowest, middle, highest}} with at most {} deviations, and the three constant ones", ks.len(), sc.len(), if th { 3 } else { 2 }));
    env.assume("how far a piece may bulge is judged on convex curves only: the implementation looks at one random place per piece, which can coincide with an inflection");
    fn one<C: Cv>(s: &Spec, sc: &[Vec<f64>], convex: bool, rec: &mut Rec) {
        for (tn, tol) in [("d", None), ("1", Some(1e-1)), ("2", Some(1e-2)), ("3", Some(1e-3))] {
            rec.case(&format!("{}.{}.{tn}", C::NAME, s.name), |rec| {
                let c = mk::<C>(s)?;
                let m = c.model();
                rec.state(canon(&m));
                let run = |script: &[f64], def: f64, rec: &mut Rec| -> Res {
                    rand::script::set(script, def);
                    let poly = c.tess(tol);
                    rec.trans(1);
                    c15_check::<C>(&m, &poly, tol.unwrap_or(1e-3), convex, rec).map_err(|mut f| {
                        f.detail = format!("choices {script:?} then {def}: {}", f.detail);
                        f
                    })
                };
                for d in [0.0, 0.5, 1.0 - f64::EPSILON / 2.0] {
                    run(&[], d, rec)?;
                    rec.outcome("constant script");
                }
                if m.p > 1 {
                    for x in sc {
                        run(x, 0.5, rec)?;
                        rec.outcome("script");
                    }
                }
                Ok(())
            });
        }
    }
    let conv: Vec<Spec> = curves(&ks, &['1', 'm'], &['k', 'o'], 2);
    env.par(&conv, |s, rec| one::<C2>(s, &sc, true, rec));
    // in space: planar arcs
    let conv3: Vec<Spec> = curves(&ks, &['1'], &['k'], 3);
    env.par(&conv3, |s, rec| one::<C3>(s, &sc, false, rec));
    // the ends nearly meet
    let gaps = [0.3, 1e-2, 2e-3, 1e-3, 3e-4, 1e-4, 1e-5, 1e-7, 1e-9, 0.0];
    let radii = [1.0, 3.0, 0.2];
    env.note(format!("circles and ellipses (open by {gaps:?} of a radian), radii {radii:?}, all scripts"));
    let arcs: Vec<(f64, f64, f64, f64)> = gaps.iter().flat_map(|g| radii.iter().flat_map(move |r| [(1.0, 0.0), (0.4, 1.3)].into_iter().map(move |(e, s)| (*g, *r, e, s)))).collect();
    env.par(&arcs, |(gap, r, e, start), rec| {
        for (tn, tol) in [("d", None), ("1", Some(1e-1)), ("2", Some(1e-2)), ("3", Some(1e-3)), ("4", Some(1e-4))] {
            rec.case(&format!("arc.{gap}.{r}.{e}.{tn}"), |rec| {
                let (x, y) = (Vector2::new(0.6, 0.8) * *r, Vector2::new(-0.8, 0.6) * *r * *e);
                let c = C2::try_ellipse_arc(&Point2::new(0.3, -1.0), &x, &y, *start, *start + TAU - gap)?;
                let m = c.model();
                rec.state(canon(&m));
                // (half of) the size is well above the tolerance
                if *r * *e * *r < 4.0 * tol.unwrap_or(1e-3) {
                    return Ok(());
                }
                for x in sc.iter().chain(&[vec![0.0; 40], vec![alts[1]; 40]]) {
                    rand::script::set(x, 0.5);
                    let poly = c.tess(tol);
                    rec.trans(1);
                    c15_check::<C2>(&m, &poly, tol.unwrap_or(1e-3), true, rec)?;
                }
                rec.outcome("nearly closed");
                Ok(())
            });
        }
    });
    // tiny domains, at and about the length below which the implementation stops subdividing
    let mut tiny = vec![];
    for s in curves(&ks, &['1'], &['k', 'g'], 2) {
        let (a, b) = s.m.domain();
        for (n, len) in [("a", 2e-9), ("b", 1e-8), ("c", 3e-8), ("d", 1e-6)] {
            let mut t = s.clone();
            t.name = format!("tiny{n}.{}", s.name);
            for k in t.m.knots.iter_mut() {
                *k = (*k - a) * len / (b - a);
            }
            tiny.push(t);
        }
    }
    env.par(&tiny, |s, rec| one::<C2>(s, &sc[..sc.len().min(12)], false, rec));
    let gen: Vec<Spec> = curves(&ks, &['1', 'a'], &['g', 'w', 'c'], 2);
    env.par(&gen, |s, rec| one::<C2>(s, &sc[..sc.len().min(40)], false, rec));

    // chains
    let mut chains: Vec<(String, Vec<Spec>)> = vec![];
    for (n, closed) in [(2usize, false), (3, false), (3, true), (4, true)] {
        for p in [1usize, 2, 3] {
            chains.push((format!("n{n}.p{p}.{closed}"), chain(n, p, closed)));
        }
    }
    env.par(&chains, |(name, sp), rec| {
        for tol in [None, Some(1e-2)] {
            rec.case(&format!("chain.{name}.{}", tol.is_some()), |rec| {
                let cs: Vec<C2> = sp.iter().map(|s| mk::<C2>(s)).collect::<Result<_, _>>()?;
                let ch = CompoundCurve::new(cs.clone());
                check!(ch.spans().len() == cs.len(), "spans", "{} spans", ch.spans().len());
                for x in sc.iter() {
                    rand::script::set(x, 0.5);
                    let poly: Vec<Vec<f64>> = ch.tessellate(tol).iter().map(|p| p.coords.as_slice().to_vec()).collect();
                    rec.trans(1);
                    // cut the polyline at the joints
                    let mut i = 0;
                    for (k, c) in ch.spans().iter().enumerate() {
                        let m = c.model();
                        let (_, b) = m.domain();
                        let end = m.pt(b);
                        let mut j = i + 1;
                        while j < poly.len() && !close(&poly[j], &end, 1e-9) {
                            j += 1;
                        }
                        check!(j < poly.len(), "joint", "the polyline misses the end of piece {k}, choices {x:?}");
                        c15_check::<C2>(&m, &poly[i..=j], tol.unwrap_or(1e-3), false, rec)?;
                        i = j;
                    }
                    check!(i + 1 == poly.len(), "rest", "{} vertices beyond the end", poly.len() - i - 1);
                    rec.outcome("chain");
                }
                Ok(())
            });
        }
    });
}

/// A chain of `n` curves of degree p, each bulging; closed or open.
pub fn chain(n: usize, p: usize, closed: bool) -> Vec<Spec> {
    let total = if closed { n } else { n + 1 };
    let node = |i: usize| {
        let t = TAU * (i % total) as f64 / total as f64;
        vec![4.0 * t.cos() + 1.0, 3.0 * t.sin() - 0.5]
    };
    (0..n)
        .map(|i| {
            let (a, b) = (node(i), node(i + 1));
            let d = sub(&b, &a);
            let nrm = vec![d[1], -d[0]];
            let cnt = p + 1 + i % 2;
            let cps: Vec<Vec<f64>> = (0..cnt)
                .map(|j| {
                    let t = j as f64 / (cnt - 1) as f64;
                    let h = 0.2 * (t * (1.0 - t)) * 4.0;
                    let mut v = add(&add(&a, &mul(&d, t)), &mul(&nrm, h));
                    if j == 0 {
                        v = a.clone();
                    }
                    if j == cnt - 1 {
                        v = b.clone();
                    }
                    v.push(1.0);
                    v
                })
                .collect();
            let k = knots(p, &vec![1; cnt - p - 1], End::Clamped, End::Clamped, 'u', 'i');
            Spec {
                name: format!("piece{i}"),
                m: MC { p, knots: k.k, cps },
            }
        })
        .collect()
}

// ---------------------------------------------------------------- C16

fn c16(env: &Env) {
    let th = env.thorough();
    let mut ks = vec![];
    for p in 2..=4 {
        ks.extend(clamped(p, 2, if th { 3 } else { 2 }));
        ks.extend(unclamped(p, 1, 1));
    }
    env.note(format!("{} knot vectors x weights x points; every increasing parameter list (subsets of a grid of {} with the ends and knots)", ks.len(), if th { 9 } else { 7 }));
    env.assume("curves without cusps at the chosen parameters");
    let grid = if th { 9 } else { 7 };
    let mut sp: Vec<(Spec, &'static str)> = curves(&ks, &WEIGHTS, &['g', 'w', 'k', 'c'], 3).into_iter().map(|s| (s, "")).collect();
    // straight and axis-parallel curves: parallel tangents
    for axis in 0..3 {
        for sg in [1.0, -1.0] {
            for k in [clamped(2, 1, 1).remove(0), clamped(1, 2, 2).remove(0), clamped(3, 1, 1).remove(0)] {
                let n = k.n();
                let cps = (0..n)
                    .map(|i| {
                        let mut v = vec![0.5, -1.0, 2.0, 1.0];
                        v[axis] = sg * (i as f64 + 0.25 * (i * i) as f64);
                        v
                    })
                    .collect();
                sp.push((Spec { name: format!("axis{axis}{sg}.{}", k.name), m: MC { p: k.p, knots: k.k.clone(), cps } }, "straight"));
            }
        }
    }
    for s in curves(&clamped(2, 1, 1), &['1'], &['l'], 3) {
        sp.push((s, "straight"));
    }
    env.par(&sp, |(s, kind), rec| {
        rec.case(&s.name, |rec| {
            let c = mk::<C3>(s)?;
            let m = c.model();
            rec.state(canon(&m));
            let (a, b) = m.domain();
            let us: Vec<f64> = (0..grid).map(|i| if i + 1 == grid { b } else { a + (b - a) * i as f64 / (grid - 1) as f64 }).collect();
            let t: Vec<Vec<f64>> = us.iter().map(|u| c.tan(*u)).collect();
            if t.iter().any(|t| norm(t) < 1e-6) {
                rec.outcome("cusp");
                return Ok(());
            }
            for mask in 1u32..(1 << grid) {
                let sel: Vec<f64> = (0..grid).filter(|i| mask >> i & 1 == 1).map(|i| us[i]).collect();
                let f = c.compute_frenet_frames(&sel);
                rec.trans(1);
                check!(f.len() == sel.len(), "count", "{} frames for {sel:?}", f.len());
                let mut prev: Option<(Vec<f64>, Vec<f64>)> = None;
                for (i, f) in f.iter().enumerate() {
                    let v = |x: &nalgebra::Vector3<f64>| x.as_slice().to_vec();
                    let (t, n, bn) = (v(f.tangent()), v(f.normal()), v(f.binormal()));
                    let want = unit(&c.tan(sel[i]));
                    check!(close(f.position().coords.as_slice(), &m.pt(sel[i]), 1e-9 * m.scale()), "position", "{sel:?} frame {i}");
                    check!(close(&t, &want, 1e-7), "tangent", "{sel:?} frame {i}: {t:?} must be {want:?}");
                    let e = 1e-6;
                    check!(
                        (norm(&n) - 1.0).abs() < e && (norm(&bn) - 1.0).abs() < e && dot(&t, &n).abs() < e && dot(&t, &bn).abs() < e && dot(&n, &bn).abs() < e,
                        "orthonormal",
                        "{sel:?} frame {i}: {t:?} {n:?} {bn:?}"
                    );
                    check!(close(&cross(&t, &n), &bn, e), "handed", "{sel:?} frame {i}: {t:?} {n:?} {bn:?}");
                    if let Some((pt, pn)) = &prev {
                        // least rotation taking the previous tangent to this one
                        let axis = cross(pt, &t);
                        let s = norm(&axis);
                        let co = dot(pt, &t);
                        if co > -0.999 {
                            let want = if s < 1e-9 {
                                pn.clone()
                            } else {
                                let k = unit(&axis);
                                let kxn = cross(&k, pn);
                                let kdn = dot(&k, pn);
                                add(&add(&mul(pn, co), &mul(&kxn, s)), &mul(&k, kdn * (1.0 - co)))
                            };
                            check!(close(&n, &want, 1e-6), "twist", "{sel:?} frame {i}: normal {n:?} must be {want:?}");
                        }
                    }
                    prev = Some((t, n));
                    rec.outcome(if *kind == "straight" { "straight frame" } else { "frame" });
                }
            }
            Ok(())
        });
    });
}
