//! S01..S05: surface evaluation, construction, lofts and sweeps, edits, closest points.

use crate::adapt::*;
use crate::core::*;
use crate::curves::*;
use crate::gen::*;
use crate::model::*;
use crate::{check, fail};
use curvo::prelude::*;
use nalgebra::{Matrix4, Point3, Point4, Vector3};
use std::f64::consts::{FRAC_PI_2, PI, TAU};

pub fn table() -> Vec<(&'static str, fn(&Env))> {
    vec![("S01", s01), ("S02", s02), ("S03", s03), ("S04", s04), ("S05", s05)]
}

fn p4(c: &[f64]) -> Point4<f64> {
    Point4::new(c[0], c[1], c[2], c[3])
}

pub fn mks(m: &MS) -> S3 {
    NurbsSurface::new(
        m.pu,
        m.pv,
        m.ku.clone(),
        m.kv.clone(),
        m.cps.iter().map(|r| r.iter().map(|c| p4(c)).collect()).collect(),
    )
}

pub fn canon_s(m: &MS) -> u64 {
    let mut c = Canon::new().u(m.pu as u64).u(m.pv as u64).fs(&m.ku).fs(&m.kv);
    for p in m.cps.iter().flatten() {
        c = c.fs(p);
    }
    c.get()
}

pub fn pt3(s: &S3, u: f64, v: f64) -> Vec<f64> {
    s.point_at(u, v).coords.as_slice().to_vec()
}

/// Knot vectors for one direction of a surface.
pub fn dir_knots(pmax: usize, rich: bool) -> Vec<Knots> {
    let mut v = vec![];
    for p in 1..=pmax {
        v.push(knots(p, &[], End::Clamped, End::Clamped, 'u', 'i'));
        v.push(knots(p, &[1], End::Clamped, End::Clamped, 'n', 's'));
        v.push(knots(p, &[p], End::Clamped, End::Clamped, 'u', 'i'));
        v.push(knots(p, &[], End::Floating, End::Floating, 'n', 'i'));
        if rich {
            v.push(knots(p, &[1, 1], End::Clamped, End::Clamped, 'n', 'w'));
            v.push(knots(p, &[1], End::Floating, End::Clamped, 'u', 'i'));
            v.push(knots(p, &[1], End::Clamped, End::Floating, 'n', 's'));
            v.push(knots(p, &[1], End::Over, End::Over, 'n', 'i'));
            if p > 1 {
                v.push(knots(p, &[2], End::Half, End::Half, 'n', 'i'));
                v.push(knots(p, &[1], End::Inner, End::Inner, 'u', 'i'));
                v.push(knots(p, &[p - 1], End::Clamped, End::Clamped, 'n', 'i'));
            }
        }
    }
    v
}

/// Surfaces with many intervals or a high degree in one direction, huge and tiny ones.
fn large_surfaces() -> Vec<SSpec> {
    let l = large();
    let sm = dir_knots(3, false);
    let mut v = vec![];
    for (n, i) in [0usize, 2, 4, 5, 7, 9, 11, 12].into_iter().enumerate() {
        let (a, b) = (&sm[(n * 5 + 1) % sm.len()], &sm[(n * 7 + 2) % sm.len()]);
        v.push(surface(&l[i], a, ['1', 'm', 'g'][n % 3], ['g', 'H', 'T'][n % 3]));
        v.push(surface(b, &l[i], ['m', 'g', '1'][n % 3], ['T', 'g', 'H'][n % 3]));
    }
    for sh in ['H', 'T'] {
        for w in ['1', 'g'] {
            v.push(surface(&sm[5], &sm[9], w, sh));
            v.push(surface(&sm[2], &sm[7], w, sh));
        }
    }
    v.push(surface(&l[8], &l[7], 'm', 'g'));
    v
}

fn gap_of(k: &[f64]) -> f64 {
    k.windows(2).map(|w| w[1] - w[0]).filter(|d| *d > 0.0).fold(f64::INFINITY, f64::min)
}

// ---------------------------------------------------------------- S01

fn s01_one<const F32: bool>(s: &SSpec, rec: &mut Rec, th: bool) -> Res {
    let m = &s.m;
    rec.state(canon_s(m));
    let sf = mks(m);
    let c32: NurbsSurface3D<f32> = sf.cast::<f32>();
    let m = &if F32 {
        let f = |v: &f64| *v as f32 as f64;
        MS {
            ku: m.ku.iter().map(f).collect(),
            kv: m.kv.iter().map(f).collect(),
            cps: m.cps.iter().map(|r| r.iter().map(|c| c.iter().map(f).collect()).collect()).collect(),
            ..m.clone()
        }
    } else {
        m.clone()
    };
    let eps = if F32 { 2e-4 } else { 1e-9 };
    let ((a, b), (c, d)) = m.domain();
    if F32 {
        let ((x, y), (z, w)) = c32.knots_domain();
        check!((x as f64, y as f64, z as f64, w as f64) == (a, b, c, d), "domain", "{:?}", c32.knots_domain());
    } else {
        check!(sf.knots_domain() == ((a, b), (c, d)), "domain", "{:?}", sf.knots_domain());
        check!(sf.u_knots_domain() == (a, b) && sf.v_knots_domain() == (c, d), "domain", "per direction");
        check!(sf.knots_domain_at(UVDirection::U) == (a, b) && sf.knots_domain_at(UVDirection::V) == (c, d), "domain", "by direction");
        check!(sf.knots_domain_interval() == (b - a, d - c), "interval", "{:?}", sf.knots_domain_interval());
    }
    let (gu, gv) = (gap_of(&m.ku), gap_of(&m.kv));
    let um = 1.0 + (a.abs().max(b.abs()) / gu).max(c.abs().max(d.abs()) / gv);
    let ws: Vec<f64> = m.cps.iter().flatten().map(|c| c[3]).collect();
    let wr = ws.iter().cloned().fold(0.0, f64::max) / ws.iter().cloned().fold(f64::INFINITY, f64::min);
    let tol = |k: usize, l: usize| {
        eps * m.scale() * um * wr * 2.0 * (4.0 * m.pu as f64 / gu * wr).powi(k as i32) * (4.0 * m.pv as f64 / gv * wr).powi(l as i32)
    };
    let sides = [(Side::Right, Side::Right), (Side::Left, Side::Right), (Side::Right, Side::Left), (Side::Left, Side::Left)];
    let order = if F32 { 1 } else { 3 };
    let (us, vs) = m.params(if th { 3 } else { 1 });
    for u in &us {
        for v in &vs {
            let (u, v) = if F32 { (*u as f32 as f64, *v as f32 as f64) } else { (*u, *v) };
            let all: Vec<_> = sides.iter().map(|(x, y)| m.ders(u, v, order, *x, *y)).collect();
            let (p, dd, n): (Vec<f64>, Vec<Vec<Vec<f64>>>, Vec<f64>) = if F32 {
                let f = |v: &[f32]| v.iter().map(|x| *x as f64).collect::<Vec<_>>();
                (
                    f(c32.point_at(u as f32, v as f32).coords.as_slice()),
                    c32.rational_derivatives(u as f32, v as f32, order).iter().map(|r| r.iter().map(|x| f(x.as_slice())).collect()).collect(),
                    f(c32.normal_at(u as f32, v as f32).as_slice()),
                )
            } else {
                (
                    pt3(&sf, u, v),
                    sf.rational_derivatives(u, v, order).iter().map(|r| r.iter().map(|x| x.as_slice().to_vec()).collect()).collect(),
                    sf.normal_at(u, v).as_slice().to_vec(),
                )
            };
            rec.trans(3);
            check!(close(&p, &all[0][0][0], tol(0, 0)), "point", "at {u},{v}: {p:?} must be {:?}", all[0][0][0]);
            for k in 0..=order {
                for l in 0..=order - k {
                    check!(
                        all.iter().any(|w| close(&dd[k][l], &w[k][l], tol(k, l))),
                        "derivative",
                        "({k},{l}) at {u},{v}: {:?} must be {:?}",
                        dd[k][l],
                        all[0][k][l]
                    );
                }
            }
            let ok = all.iter().any(|w| {
                let x = cross(&w[1][0], &w[0][1]);
                close(&n, &x, tol(1, 1) * m.scale() * 2.0)
            });
            check!(ok, "normal", "at {u},{v}: {n:?} must be {:?}", cross(&all[0][1][0], &all[0][0][1]));
            rec.outcome("evaluated");
        }
    }
    // lower orders are prefixes
    if !F32 {
        let (u, v) = (us[us.len() / 2], vs[vs.len() / 3]);
        let full = sf.rational_derivatives(u, v, 3);
        for n in 0..3 {
            let part = sf.rational_derivatives(u, v, n);
            for k in 0..=n {
                for l in 0..=n - k {
                    check!((part[k][l] - full[k][l]).norm() <= tol(k, l), "order", "({k},{l}) of order {n}");
                }
            }
        }
    }
    // regular grids
    if F32 {
        return Ok(());
    }
    let divs: Vec<usize> = if th { vec![1, 2, 3, 4, 5, 7] } else { vec![1, 2, 3, 5] };
    for nu in &divs {
        for nv in &divs {
            let pts = sf.regular_sample_points(*nu, *nv);
            let nrm = sf.regular_sample_normals(*nu, *nv);
            let ders = sf.regular_sample_derivatives(*nu, *nv, 2);
            let rat = sf.regular_sample_rational_derivatives(*nu, *nv, 2);
            rec.trans(4);
            check!(pts.len() == nu + 1 && nrm.len() == nu + 1 && ders.len() == nu + 1 && rat.len() == nu + 1, "grid-rows", "{} rows for {nu} divisions", pts.len());
            for i in 0..=*nu {
                check!(pts[i].len() == nv + 1 && nrm[i].len() == nv + 1 && ders[i].len() == nv + 1 && rat[i].len() == nv + 1, "grid-columns", "{} columns for {nv} divisions", pts[i].len());
                for j in 0..=*nv {
                    let u = if i == *nu { b } else { a + (b - a) * i as f64 / *nu as f64 };
                    let v = if j == *nv { d } else { c + (d - c) * j as f64 / *nv as f64 };
                    // next to a knot the sample may fall on either side
                    let all: Vec<_> = sides.iter().map(|(x, y)| m.ders(u, v, 2, *x, *y)).collect();
                    let p = pts[i][j].coords.as_slice();
                    check!(close(p, &all[0][0][0], tol(0, 0)), "grid-point", "{i},{j} of {nu},{nv}: {p:?} must be {:?}", all[0][0][0]);
                    for k in 0..=2 {
                        for l in 0..=2 - k {
                            let g = rat[i][j][k][l].as_slice();
                            check!(
                                all.iter().any(|w| close(g, &w[k][l], tol(k, l) * 4.0)),
                                "grid-derivative",
                                "({k},{l}) at {i},{j} of {nu},{nv}: {g:?} must be {:?}",
                                all[0][k][l]
                            );
                            if k <= m.pu && l <= m.pv {
                                let g = ders[i][j][k][l].as_slice();
                                let ok = sides.iter().any(|(x, y)| close(g, &m.hom(u, v, k, l, *x, *y), tol(k, l) * 4.0 * 4.0));
                                check!(ok, "grid-homogeneous", "({k},{l}) at {i},{j} of {nu},{nv}: {g:?}");
                            }
                        }
                    }
                    let n = nrm[i][j].as_slice();
                    let mut seen = false;
                    let ok = all.iter().any(|w| {
                        let x = cross(&w[1][0], &w[0][1]);
                        if norm(&x) < 1e-6 {
                            seen = true;
                            return true;
                        }
                        close(n, &unit(&x), 1e-6)
                    });
                    if seen {
                        rec.outcome("degenerate normal");
                    }
                    check!(ok, "grid-normal", "{i},{j} of {nu},{nv}: {n:?} must be {:?}", unit(&cross(&all[0][1][0], &all[0][0][1])));
                }
            }
            rec.outcome("grid");
        }
    }
    Ok(())
}

fn s01(env: &Env) {
    let th = env.thorough();
    let ks = dir_knots(3, true);
    let small = dir_knots(if th { 4 } else { 3 }, false);
    let mut sp = vec![];
    for (i, ku) in ks.iter().enumerate() {
        for (j, kv) in ks.iter().enumerate() {
            let w = ['1', 'a', 'g'][(i + 2 * j) % 3];
            sp.push(surface(ku, kv, w, 'g'));
            if th {
                for w in ['1', 'a', 'g'] {
                    for sh in ['w', 'g'] {
                        sp.push(surface(ku, kv, w, sh));
                    }
                }
            }
        }
    }
    for ku in &small {
        for kv in &small {
            for w in ['1', 'a', 'g'] {
                sp.push(surface(ku, kv, w, 'w'));
            }
        }
    }
    sp.extend(large_surfaces());
    env.note(format!("{} surfaces (pairs of knot vectors of degree 1..={}, some larger, clamped, floating, half clamped, repeated ends, interior multiplicities up to the degree; weights; shapes); parameters: all knots and interior ones in both directions; derivatives up to order 3; every regular grid of 1..{} divisions each way", sp.len(), if th { 4 } else { 3 }, if th { 7 } else { 5 }));
    env.par(&sp, |s, rec| {
        rec.case(&format!("eval.{}", s.name), |rec| s01_one::<false>(s, rec, th));
        if !s.name.contains(".ns") && !s.name.ends_with("gw") {
            rec.case(&format!("eval32.{}", s.name), |rec| s01_one::<true>(s, rec, false));
        }
    });
    // accessors
    env.par(&sp, |s, rec| {
        rec.case(&format!("acc.{}", s.name), |rec| {
            let sf = mks(&s.m);
            let m = surf_model(&sf);
            rec.trans(1);
            rec.outcome("accessors");
            check!(m.pu == s.m.pu && m.pv == s.m.pv && m.ku == s.m.ku && m.kv == s.m.kv && m.cps == s.m.cps, "accessors", "{m:?}");
            let t = sf.transposed_control_points();
            check!(t.len() == m.nv() && t.iter().all(|r| r.len() == m.nu()), "transposed", "{} rows", t.len());
            let dh = sf.dehomogenized_control_points();
            for i in 0..m.nu() {
                for j in 0..m.nv() {
                    check!(t[j][i].coords.as_slice() == m.cps[i][j].as_slice(), "transposed", "{i},{j}");
                    let w = m.cps[i][j][3];
                    let want: Vec<f64> = m.cps[i][j][..3].iter().map(|x| x / w).collect();
                    check!(close(dh[i][j].coords.as_slice(), &want, 1e-12 * m.scale()), "dehomogenized", "{i},{j}");
                }
            }
            Ok(())
        });
    });
}

// ---------------------------------------------------------------- S02

/// Rotation of p about the axis (unit) through o.
fn rotate(p: &[f64], o: &[f64], k: &[f64], t: f64) -> Vec<f64> {
    let d = sub(p, o);
    let x = mul(&d, t.cos());
    let y = mul(&cross(k, &d), t.sin());
    let z = mul(k, dot(k, &d) * (1.0 - t.cos()));
    add(o, &add(&add(&x, &y), &z))
}

fn s02(env: &Env) {
    let th = env.thorough();
    let mut ks = vec![];
    for p in 1..=if th { 4 } else { 3 } {
        ks.extend(clamped(p, 2, 2));
        ks.extend(unclamped(p, 1, 1));
    }
    let profs = curves(&ks, &['1', 'a', 'g'], &['g', 'k'], 3);
    let vecs = [[0.0, 0.0, 1.0], [1.0, -2.0, 0.5], [-3.0, 0.0, 0.0], [0.25, 0.25, 0.25]];
    env.note(format!("{} profiles x {} extrusion vectors", profs.len(), vecs.len()));
    env.par(&profs, |s, rec| {
        for (i, t) in vecs.iter().enumerate() {
            rec.case(&format!("extrude.{}.t{i}", s.name), |rec| {
                let c = mk::<C3>(s)?;
                let m = c.model();
                let sf = S3::extrude(&c, &Vector3::new(t[0], t[1], t[2]));
                let sm = surf_model(&sf);
                rec.state(canon_s(&sm));
                if let Err(e) = sm.well_formed() {
                    fail!("malformed", "{e}");
                }
                let ((u0, u1), vd) = sf.knots_domain();
                check!(vd == m.domain(), "domain", "{vd:?} must be {:?}", m.domain());
                for v in m.params(2) {
                    let base = m.pt(v);
                    for i in 0..=6 {
                        let f = i as f64 / 6.0;
                        let u = u0 + (u1 - u0) * f;
                        let want = add(&base, &mul(t, 1.0 - f));
                        let p = pt3(&sf, u, v);
                        rec.trans(1);
                        check!(close(&p, &want, 1e-9 * m.scale()), "extrude", "at {u},{v}: {p:?} must be {want:?}");
                    }
                }
                rec.outcome("extruded");
                Ok(())
            });
        }
    });

    // revolutions
    let axes: Vec<[f64; 3]> = vec![[0.0, 0.0, 1.0], [1.0, 0.0, 0.0], [0.0, -1.0, 0.0], [1.0, 2.0, 2.0], [0.5, -0.25, 0.125], [100.0, -40.0, 0.0], [1e-3, 0.0, 2e-3]];
    let centres = [[0.0, 0.0, 0.0], [2.0, -1.0, 0.5], [300.0, -200.0, 1000.0]];
    let mut angles = vec![1e-3, 0.1, 1.0, 2.0, 4.0, 5.0];
    for k in 1..=4 {
        for d in [-0.05, -1e-6, 0.0, 1e-6, 0.05] {
            let a = FRAC_PI_2 * k as f64 + d;
            if a <= TAU + 1e-12 {
                angles.push(a);
            }
        }
    }
    if th {
        for i in 1..24 {
            angles.push(TAU * i as f64 / 24.0 + 0.013);
        }
        angles.retain(|a| *a <= TAU + 1e-12);
    }
    let mut rks = vec![];
    for p in 1..=3 {
        rks.push(knots(p, &[1], End::Clamped, End::Clamped, 'n', 's'));
        rks.push(knots(p, &[], End::Floating, End::Floating, 'u', 'i'));
        if th {
            rks.push(knots(p, &[1, 1], End::Clamped, End::Clamped, 'u', 'w'));
        }
    }
    let rp = curves(&rks, &['1', 'g'], &['g', 'k'], 3);
    env.note(format!("revolutions: {} profiles (and tiny, huge and far ones, and ones that touch or lie on the axis) x {} axes of several lengths x 3 centres x {} angles", rp.len(), axes.len(), angles.len()));
    let mut items: Vec<(String, Option<Spec>, usize, usize)> = vec![];
    let sized = curves(&rks, &['1', 'g'], &['T', 'H', 'F'], 3);
    for ai in 0..axes.len() {
        for ci in 0..centres.len() {
            for (n, s) in rp.iter().chain(&sized).enumerate() {
                if th || (ai < 5 && ci < 2 && n < rp.len()) || (n + ai + ci) % 3 == 0 {
                    items.push((format!("{}.a{ai}.c{ci}", s.name), Some(s.clone()), ai, ci));
                }
            }
            items.push((format!("onaxis.a{ai}.c{ci}"), None, ai, ci));
        }
    }
    env.par(&items, |(name, spec, ai, ci), rec| {
        let axis = axes[*ai];
        let o = centres[*ci];
        let k = unit(&axis);
        let spec = match spec {
            Some(s) => s.clone(),
            None => {
                // a profile that starts on the axis, leaves it, and returns to it
                let side = if k[0].abs() < 0.9 { cross(&k, &[1.0, 0.0, 0.0]) } else { cross(&k, &[0.0, 1.0, 0.0]) };
                let side = unit(&side);
                let at = |h: f64, r: f64| {
                    let mut p = add(&add(&o, &mul(&k, h)), &mul(&side, r));
                    p.push(1.0);
                    p
                };
                Spec {
                    name: "onaxis".into(),
                    m: MC {
                        p: 2,
                        knots: vec![0.0, 0.0, 0.0, 1.0, 2.0, 2.0, 2.0],
                        cps: vec![at(-1.0, 0.0), at(-0.5, 2.0), at(0.5, 1.0), at(2.0, 0.0)],
                    },
                }
            }
        };
        for (ti, theta) in angles.iter().enumerate() {
            rec.case(&format!("revolve.{name}.t{ti}"), |rec| {
                let c = mk::<C3>(&spec)?;
                let m = c.model();
                let r = S3::try_revolve(&c, &p3(&o), &Vector3::new(axis[0], axis[1], axis[2]), *theta);
                let sf = match r {
                    Ok(s) => s,
                    Err(e) => fail!("refused", "{e}"),
                };
                let sm = surf_model(&sf);
                rec.state(canon_s(&sm));
                if let Err(e) = sm.well_formed() {
                    fail!("malformed", "{e}");
                }
                let ((u0, u1), vd) = sf.knots_domain();
                check!(vd == m.domain(), "domain", "{vd:?} must be {:?}", m.domain());
                let sc = m.scale() + norm(&o);
                let n = 24;
                let mut angle_at: Vec<Option<f64>> = vec![None; n + 1];
                for v in m.params(1) {
                    let base = m.pt(v);
                    let d = sub(&base, &o);
                    let h = dot(&d, &k);
                    let x = sub(&d, &mul(&k, h));
                    let r = norm(&x);
                    for (f, t) in [(0, 0.0), (n, *theta)] {
                        let u = if f == 0 { u0 } else { u1 };
                        let p = pt3(&sf, u, v);
                        let want = rotate(&base, &o, &k, t);
                        check!(close(&p, &want, 1e-7 * sc), "end", "at {u},{v}: {p:?} must be {want:?}");
                    }
                    let y = cross(&k, &x);
                    let mut last = 0.0;
                    for i in 0..=n {
                        let u = if i == n { u1 } else { u0 + (u1 - u0) * i as f64 / n as f64 };
                        let p = pt3(&sf, u, v);
                        rec.trans(1);
                        let d = sub(&p, &o);
                        check!((dot(&d, &k) - h).abs() <= 1e-7 * sc, "height", "at {u},{v}: {} along the axis, must be {h}", dot(&d, &k));
                        let q = sub(&d, &mul(&k, h));
                        check!((norm(&q) - r).abs() <= 1e-7 * sc, "radius", "at {u},{v}: {} from the axis, must be {r}", norm(&q));
                        if r > 1e-3 * sc {
                            let mut a = dot(&q, &y).atan2(dot(&q, &x));
                            while a < last - 1e-6 {
                                a += TAU;
                            }
                            check!(a <= last + 2.5 * theta / n as f64 + 1e-6, "sweep", "at {u},{v}: the angle jumps from {last} to {a}");
                            last = a;
                            match angle_at[i] {
                                None => angle_at[i] = Some(a),
                                Some(b) => check!((a - b).abs() < 1e-5 * sc / r, "rigid", "at {u},{v}: turned by {a}, elsewhere by {b}"),
                            }
                        }
                    }
                    if r > 1e-3 * sc {
                        check!((last - theta).abs() < 1e-5 * sc / r, "angle", "turns by {last}, must turn by {theta}");
                        rec.outcome("revolved");
                    } else {
                        rec.outcome("on the axis");
                    }
                }
                Ok(())
            });
        }
    });

    // spheres
    let frames: Vec<([f64; 3], [f64; 3])> = vec![
        ([1.0, 0.0, 0.0], [0.0, 1.0, 0.0]),
        ([0.0, 0.0, 1.0], [1.0, 0.0, 0.0]),
        ([0.6, 0.8, 0.0], [-0.8, 0.6, 0.0]),
        ([1.0, 2.0, 2.0], [2.0, 1.0, -2.0]),
        ([0.0, -3.0, 0.0], [0.0, 0.0, 0.5]),
    ];
    let mut items = vec![];
    for f in 0..frames.len() {
        for c in 0..centres.len() {
            for r in [1.0, 0.125, 10.0, 3.7, 100.0, 1e-3, 1e4] {
                items.push((f, c, r));
            }
        }
    }
    env.note(format!("{} spheres; planes with every pair of axes", items.len()));
    env.par(&items, |(f, c, r), rec| {
        rec.case(&format!("sphere.f{f}.c{c}.r{r}"), |rec| {
            let (ax, x) = (&frames[*f].0, &frames[*f].1);
            let o = &centres[*c];
            let sf = match S3::try_sphere(&p3(o), &Vector3::new(ax[0], ax[1], ax[2]), &Vector3::new(x[0], x[1], x[2]), *r) {
                Ok(s) => s,
                Err(e) => fail!("refused", "{e}"),
            };
            let sm = surf_model(&sf);
            rec.state(canon_s(&sm));
            if let Err(e) = sm.well_formed() {
                fail!("malformed", "{e}");
            }
            let k = unit(ax);
            let ((u0, u1), (v0, v1)) = sf.knots_domain();
            let tol = 1e-8 * (r + norm(o));
            let n = 16;
            let mut full = vec![0.0; n + 1];
            for i in 0..=n {
                let v = if i == n { v1 } else { v0 + (v1 - v0) * i as f64 / n as f64 };
                let mut prev: Option<Vec<f64>> = None;
                for j in 0..=n {
                    let u = if j == n { u1 } else { u0 + (u1 - u0) * j as f64 / n as f64 };
                    let p = pt3(&sf, u, v);
                    let d = sub(&p, o);
                    rec.trans(1);
                    check!((norm(&d) - r).abs() <= tol, "radius", "at {u},{v}: {} from the centre", norm(&d));
                    let flat = sub(&d, &mul(&k, dot(&d, &k)));
                    if let Some(q) = &prev {
                        if norm(&flat) > 0.01 * r {
                            let a = dot(&cross(q, &flat), &k).atan2(dot(q, &flat));
                            check!(a > -1e-7, "turn", "at {u},{v}: turns back by {a}");
                            full[i] += a;
                        }
                    }
                    prev = Some(flat);
                }
                if i > 0 && i < n {
                    check!((full[i] - TAU).abs() < 1e-5, "full", "the parallel at {v} turns by {}", full[i]);
                }
            }
            let (s, e) = (pt3(&sf, u0, v0), pt3(&sf, u1, v1));
            check!(close(&s, &sub(o, &mul(&k, *r)), tol) && close(&e, &add(o, &mul(&k, *r)), tol), "poles", "{s:?} {e:?}");
            rec.outcome("sphere");
            Ok(())
        });
    });
    let mut items = vec![];
    for (i, x) in vecs.iter().enumerate() {
        for (j, y) in vecs.iter().enumerate() {
            for c in 0..centres.len() {
                items.push((format!("plane.{i}.{j}.{c}"), *x, *y, centres[c]));
            }
        }
    }
    env.par(&items, |(id, x, y, o), rec| {
        rec.case(id, |rec| {
            let v = |a: &[f64; 3]| Vector3::new(a[0], a[1], a[2]);
            let sf = S3::plane(p3(o), v(x), v(y));
            let ((u0, u1), (v0, v1)) = sf.knots_domain();
            for i in 0..=4 {
                for j in 0..=4 {
                    let (f, g) = (i as f64 / 4.0, j as f64 / 4.0);
                    let p = pt3(&sf, u0 + (u1 - u0) * f, v0 + (v1 - v0) * g);
                    let want = add(&add(o, &mul(x, 2.0 * f - 1.0)), &mul(y, 2.0 * g - 1.0));
                    rec.trans(1);
                    check!(close(&p, &want, 1e-12), "plane", "at {f},{g}: {p:?} must be {want:?}");
                }
            }
            rec.outcome("plane");
            Ok(())
        });
    });
    let _ = PI;
}

// ---------------------------------------------------------------- S03

/// The place v where the section of the surface is the given curve (as a map of u in 0..1),
/// searched beyond `from`. Returns (v, error).
fn find_section(sm: &MS, want: &dyn Fn(f64) -> Vec<f64>, us: &[f64]) -> (f64, f64) {
    let ((u0, u1), (v0, v1)) = sm.domain();
    let err = |v: f64| {
        us.iter()
            .map(|f| dist(&sm.pt(u0 + (u1 - u0) * f, v), &want(*f)))
            .fold(0.0, f64::max)
    };
    let mut cand: Vec<(f64, f64)> = vec![];
    let n = 96;
    for i in 0..=n {
        let v = v0 + (v1 - v0) * i as f64 / n as f64;
        cand.push((err(v), v));
    }
    let mut best = (f64::INFINITY, v0);
    for i in 0..=n {
        let l = i == 0 || cand[i - 1].0 >= cand[i].0;
        let r = i == n || cand[i + 1].0 >= cand[i].0;
        if !(l && r) {
            continue;
        }
        let (mut a, mut b) = (cand[i.max(1) - 1].1, cand[(i + 1).min(n)].1);
        let g = 0.6180339887498949;
        for _ in 0..70 {
            let x = b - g * (b - a);
            let y = a + g * (b - a);
            if err(x) < err(y) {
                b = y;
            } else {
                a = x;
            }
        }
        for v in [(a + b) / 2.0, cand[i].1] {
            let e = err(v);
            if e < best.0 {
                best = (e, v);
            }
        }
    }
    (best.1, best.0)
}

/// Profiles for lofts: different degrees, knots, domains, weights, counts.
fn profile(kind: usize, level: usize) -> MC {
    let ks = [
        knots(1, &[1], End::Clamped, End::Clamped, 'u', 'i'),
        knots(2, &[], End::Clamped, End::Clamped, 'u', 'i'),
        knots(3, &[1], End::Clamped, End::Clamped, 'n', 's'),
        knots(2, &[1, 1], End::Clamped, End::Clamped, 'n', 'w'),
        knots(3, &[2], End::Clamped, End::Clamped, 'u', 'i'),
        knots(2, &[1], End::Clamped, End::Clamped, 'n', 'i'),
        knots(3, &[1, 1, 1], End::Clamped, End::Clamped, 'u', 'i'),
        // a knot very close to the one of kind 5, and one close to a knot of kind 6
        Knots { name: "close".into(), p: 2, k: vec![0.0, 0.0, 0.0, 0.375 + 1.0 / 8192.0, 1.0 + 1.0 / 4096.0, 1.5, 1.5, 1.5] },
    ];
    let k = &ks[kind % 8];
    let w = ['1', 'm', '1', 'm', '1', '1', 'm', '1'][kind % 8];
    let s = curve(k, w, 's', 3);
    let mut m = s.m;
    let z = level as f64 * 2.0 + 0.5 * [0.0, 0.75, -0.25, 0.5, 0.1, 0.0][level % 6];
    // place it: progress in x, gently winding in y, level in z, sheared per level
    let n = m.n();
    for c in m.cps.iter_mut() {
        let w = c[3];
        let x = c[0] / w;
        let y = c[1] / w;
        let span = 1.5 * (n - 1) as f64;
        let f = (x + 2.0) / span;
        c[0] = w * (4.0 * f + 0.3 * level as f64);
        c[1] = w * (y + 0.25 * level as f64 * f);
        c[2] = w * (z + 0.5 * f * (level % 2) as f64);
        // mild weights, so that the interpolated ones stay positive
        let g = 1.0 + 0.2 * (w - 1.0).clamp(-1.0, 1.0);
        c.iter_mut().for_each(|x| *x *= g / w);
    }
    m
}

fn s03(env: &Env) {
    let th = env.thorough();
    let kinds = 8usize;
    let mut seqs: Vec<Vec<usize>> = vec![];
    for a in 0..kinds {
        for b in 0..kinds {
            seqs.push(vec![a, b]);
            for c in 0..kinds {
                seqs.push(vec![a, b, c]);
                if th || (a + b * 2 + c * 3) % 4 == 0 {
                    for d in 0..kinds {
                        seqs.push(vec![a, b, c, d]);
                        if th && (a + b + c + d) % 3 == 0 {
                            seqs.push(vec![a, b, c, d, (a + d) % kinds]);
                        }
                    }
                }
            }
        }
    }
    env.note(format!("{} sequences of profiles (of 8 kinds that differ in degree, knots, domain, weights, counts) x loft degrees none, 1, 2, 3; {} rails x profiles for sweeps", seqs.len(), 12));
    let us: Vec<f64> = (0..=12).map(|i| i as f64 / 12.0).collect();
    env.par(&seqs, |sq, rec| {
        for dv in [None, Some(1), Some(2), Some(3)] {
            let id = format!("loft.{}.{}", sq.iter().map(|d| d.to_string()).collect::<String>(), dv.map(|d: usize| d.to_string()).unwrap_or("d".into()));
            rec.case(&id, |rec| {
                let ms: Vec<MC> = sq.iter().enumerate().map(|(i, k)| profile(*k, i)).collect();
                let cs: Vec<C3> = ms
                    .iter()
                    .map(|m| C3::make(m.p, &m.cps, &m.knots).map_err(|e| Fail { kind: "construct".into(), detail: e }))
                    .collect::<Result<_, _>>()?;
                let sf = match S3::try_loft(&cs, dv) {
                    Ok(s) => s,
                    Err(e) => fail!("refused", "{e}"),
                };
                let sm = surf_model(&sf);
                rec.state(canon_s(&sm));
                if let Err(e) = sm.well_formed() {
                    fail!("malformed", "{e}");
                }
                let pmax = ms.iter().map(|m| m.p).max().unwrap();
                check!(sm.pu == pmax, "degree", "u degree {} must be {pmax}", sm.pu);
                check!(sm.pv == dv.unwrap_or(pmax).min(sq.len() - 1), "degree", "v degree {}", sm.pv);
                let (_, (v0, v1)) = sm.domain();
                let mut last = f64::NEG_INFINITY;
                for (i, m) in ms.iter().enumerate() {
                    let (a, b) = m.domain();
                    let want = |f: f64| m.pt(a + (b - a) * f);
                    let tol = 1e-6 * m.scale();
                    let (v, e) = if i == 0 || i + 1 == ms.len() {
                        let v = if i == 0 { v0 } else { v1 };
                        let ((u0, u1), _) = sm.domain();
                        let e = us.iter().map(|f| dist(&pt3(&sf, u0 + (u1 - u0) * f, v), &want(*f))).fold(0.0, f64::max);
                        (v, e)
                    } else {
                        find_section(&sm, &want, &us)
                    };
                    rec.trans(1);
                    check!(e <= tol, "section", "profile {i}: nearest section at {v}, {e} away");
                    check!(v > last, "order", "profile {i} at {v}, the one before at {last}");
                    // the surface itself there (not just its control data)
                    let ((u0, u1), _) = sm.domain();
                    for f in &us {
                        let p = pt3(&sf, u0 + (u1 - u0) * f, v);
                        check!(close(&p, &want(*f), tol * 2.0), "section", "profile {i} at {f}: {p:?} must be {:?}", want(*f));
                    }
                    last = v;
                }
                rec.outcome(&format!("loft of {}", sq.len()));
                Ok(())
            });
        }
    });
    // the same in other sizes and places, and with the levels unevenly apart
    let sized: Vec<(usize, &Vec<usize>)> = seqs.iter().enumerate().filter(|(i, q)| th || q.len() < 4 || i % 3 == 0).collect();
    let sizes = [(1e-3, 0.0, [1.0, 1.0, 1.0]), (1e4, 0.0, [1.0, 1.0, 1.0]), (1.0, 3e3, [1.0, 1.0, 1.0]), (1.0, 0.0, [1.0, 1.0, 40.0]), (1.0, 0.0, [20.0, 1.0, 0.05]), (1e-2, 5.0, [1.0, 3.0, 0.3])];
    env.note(format!("{} of these sequences in two (thorough: all) of six other sizes and places", sized.len()));
    env.par(&sized, |(k, sq), rec| {
        for (zi, (sc, off, ax)) in sizes.iter().enumerate() {
            if !th && (zi + 6 - k % 6) % 6 > 1 {
                continue;
            }
            rec.case(&format!("loft.size{zi}.{}", sq.iter().map(|d| d.to_string()).collect::<String>()), |rec| {
                let ms: Vec<MC> = sq
                    .iter()
                    .enumerate()
                    .map(|(i, k)| {
                        let mut m = profile(*k, i);
                        for c in m.cps.iter_mut() {
                            let w = c[3];
                            for d in 0..3 {
                                c[d] = c[d] * sc * ax[d] + w * off * [1.0, -0.5, 0.25][d];
                            }
                        }
                        m
                    })
                    .collect();
                let cs: Vec<C3> = ms.iter().map(|m| C3::make(m.p, &m.cps, &m.knots).map_err(|e| Fail { kind: "construct".into(), detail: e })).collect::<Result<_, _>>()?;
                let sf = match S3::try_loft(&cs, None) {
                    Ok(s) => s,
                    Err(e) => fail!("refused", "{e}"),
                };
                let sm = surf_model(&sf);
                rec.state(canon_s(&sm));
                match sm.well_formed() {
                    // interpolated weights may be negative where the levels are uneven: no claim
                    Err(e) if e.contains("weight") => {
                        rec.outcome("negative interpolated weight: not judged");
                        return Ok(());
                    }
                    Err(e) => fail!("malformed", "{e}"),
                    Ok(()) => (),
                }
                let tol = 1e-6 * sc + 1e-10 * off;
                let mut last = f64::NEG_INFINITY;
                for (i, m) in ms.iter().enumerate() {
                    let (a, b) = m.domain();
                    let want = |f: f64| m.pt(a + (b - a) * f);
                    let (v, e) = if i == 0 || i + 1 == ms.len() {
                        let ((u0, u1), (v0, v1)) = sm.domain();
                        let v = if i == 0 { v0 } else { v1 };
                        (v, us.iter().map(|f| dist(&pt3(&sf, u0 + (u1 - u0) * f, v), &want(*f))).fold(0.0, f64::max))
                    } else {
                        find_section(&sm, &want, &us)
                    };
                    rec.trans(1);
                    check!(e <= tol, "section", "profile {i}: nearest section at {v}, {e} away");
                    check!(v > last, "order", "profile {i} at {v}, the one before at {last}");
                    last = v;
                }
                rec.outcome(&format!("loft in size {sc}"));
                Ok(())
            });
        }
    });
    // profiles with common end points; rulings
    let fan: Vec<usize> = (0..6).collect();
    env.par(&fan, |k, rec| {
        rec.case(&format!("fan.{k}"), |rec| {
            let n = 2 + k % 3;
            let at_end = k / 3 == 1;
            let ms: Vec<MC> = (0..=n)
                .map(|i| {
                    let t = i as f64 * 0.5;
                    let (x, y) = (3.0 * t.cos(), 3.0 * t.sin());
                    let mut cps = vec![vec![0.0, 0.0, 0.0, 1.0], vec![x * 0.5, y * 0.5, 0.75, 1.0], vec![x, y, 0.0, 1.0]];
                    if at_end {
                        cps.reverse();
                    }
                    MC { p: 2, knots: vec![0.0, 0.0, 0.0, 1.0, 1.0, 1.0], cps }
                })
                .collect();
            let cs: Vec<C3> = ms.iter().map(|m| C3::make(m.p, &m.cps, &m.knots).unwrap()).collect();
            let sf = match S3::try_loft(&cs, None) {
                Ok(s) => s,
                Err(e) => fail!("refused", "{e}"),
            };
            let sm = surf_model(&sf);
            if let Err(e) = sm.well_formed() {
                fail!("malformed", "{e}");
            }
            for (i, m) in ms.iter().enumerate() {
                let want = |f: f64| m.pt(f);
                let (v, e) = find_section(&sm, &want, &us);
                rec.trans(1);
                check!(e <= 1e-6, "section", "profile {i}: nearest section at {v}, {e} away");
            }
            rec.outcome("fan");
            Ok(())
        });
    });

    // sweeps
    let mut rails = vec![];
    for k in [
        knots(1, &[], End::Clamped, End::Clamped, 'u', 'i'),
        knots(2, &[], End::Clamped, End::Clamped, 'u', 'i'),
        knots(3, &[1], End::Clamped, End::Clamped, 'n', 's'),
        knots(2, &[1], End::Clamped, End::Clamped, 'n', 'w'),
        knots(3, &[], End::Floating, End::Floating, 'u', 'i'),
        knots(2, &[1], End::Floating, End::Floating, 'n', 'i'),
    ] {
        for (w, p) in [('1', 's'), ('m', 'k')] {
            rails.push(curve(&k, w, p, 3));
        }
    }
    let mut items = vec![];
    for (i, _) in rails.iter().enumerate() {
        for k in 0..4usize {
            for dv in [None, Some(1), Some(2), Some(3)] {
                items.push((i, k, dv));
            }
        }
    }
    env.par(&items, |(ri, k, dv), rec| {
        let rail = &rails[*ri];
        rec.case(&format!("sweep.{}.{k}.{}", rail.name, dv.map(|d: usize| d.to_string()).unwrap_or("d".into())), |rec| {
            let r = mk::<C3>(rail)?;
            let rm = r.model();
            let mut pm = profile(*k, 0);
            for c in pm.cps.iter_mut() {
                // a small profile about the origin
                let w = c[3];
                c[0] = (c[0] / w - 2.0) * 0.2 * w;
                c[1] *= 0.25;
                c[2] *= 0.25;
            }
            let pc = C3::make(pm.p, &pm.cps, &pm.knots).map_err(|e| Fail { kind: "construct".into(), detail: e })?;
            let sf = match S3::try_sweep(&pc, &r, *dv) {
                Ok(s) => s,
                Err(e) => fail!("refused", "{e}"),
            };
            let sm = surf_model(&sf);
            rec.state(canon_s(&sm));
            if let Err(e) = sm.well_formed() {
                fail!("malformed", "{e}");
            }
            // expected sections: the profile in the moving frames of the rail (the model's own)
            let n = rm.n() * 2;
            let (a, b) = rm.domain();
            let (v0, v1) = sm.domain().1;
            let mut prev: Option<(Vec<f64>, Vec<f64>)> = None;
            let first = r.compute_frenet_frames(&[a]);
            let mut last = f64::NEG_INFINITY;
            let (pa, pb) = pm.domain();
            for i in 0..n {
                let u = if i + 1 == n { b } else { a + (b - a) * i as f64 / (n - 1) as f64 };
                let d = rm.ders(u, 1, if u >= b { Side::Left } else { Side::Right });
                let t = unit(&d[1]);
                let nn = match &prev {
                    None => first[0].normal().as_slice().to_vec(),
                    Some((pt, pn)) => {
                        let axis = cross(pt, &t);
                        let s = norm(&axis);
                        if s < 1e-9 {
                            pn.clone()
                        } else {
                            let k = unit(&axis);
                            let co = dot(pt, &t);
                            add(&add(&mul(pn, co), &mul(&cross(&k, pn), s)), &mul(&k, dot(&k, pn) * (1.0 - co)))
                        }
                    }
                };
                // z along the tangent, y along the normal
                let x = cross(&nn, &t);
                let want = |f: f64| {
                    let q = pm.pt(pa + (pb - pa) * f);
                    add(&d[0], &add(&add(&mul(&x, q[0]), &mul(&nn, q[1])), &mul(&t, q[2])))
                };
                let (v, e) = if i == 0 || i + 1 == n {
                    let v = if i == 0 { v0 } else { v1 };
                    let ((u0, u1), _) = sm.domain();
                    (v, us.iter().map(|f| dist(&sm.pt(u0 + (u1 - u0) * f, v), &want(*f))).fold(0.0, f64::max))
                } else {
                    find_section(&sm, &want, &us)
                };
                rec.trans(1);
                check!(e <= 1e-6 * (rm.scale() + pm.scale()), "section", "frame {i}: nearest section at {v}, {e} away");
                check!(v > last, "order", "frame {i} at {v}, the one before at {last}");
                last = v;
                prev = Some((t, nn));
            }
            rec.outcome("swept");
            Ok(())
        });
    });
}

// ---------------------------------------------------------------- S04

#[derive(Clone)]
struct Edit {
    sf: S3,
    /// parameter of the original = scale * u + shift, per direction
    mu: (f64, f64),
    mv: (f64, f64),
    m: Vec<Vec<f64>>,
}

fn ident() -> Vec<Vec<f64>> {
    (0..4).map(|i| (0..4).map(|j| if i == j { 1.0 } else { 0.0 }).collect()).collect()
}

fn matmul(a: &[Vec<f64>], b: &[Vec<f64>]) -> Vec<Vec<f64>> {
    (0..4).map(|i| (0..4).map(|j| (0..4).map(|k| a[i][k] * b[k][j]).sum()).collect()).collect()
}

fn agrees(e: &Edit, orig: &MS, rec: &mut Rec, what: &str) -> Res {
    let sm = surf_model(&e.sf);
    if let Err(x) = sm.well_formed() {
        fail!("malformed", "{what}: {x}");
    }
    let (us, vs) = sm.params(1);
    let (du, dv) = sm.domain();
    let (ou, ov) = orig.domain();
    let tol = 1e-7 * orig.scale() * 8.0;
    let map = |u: f64, m: (f64, f64), o: (f64, f64)| (m.0 * u + m.1).clamp(o.0, o.1);
    check!(e.sf.knots_domain() == (du, dv), "domain", "{what}: {:?} must be {du:?} {dv:?}", e.sf.knots_domain());
    for u in &us {
        for v in &vs {
            let want = affine(&e.m, &orig.pt(map(*u, e.mu, ou), map(*v, e.mv, ov)));
            let p = pt3(&e.sf, *u, *v);
            rec.trans(1);
            check!(close(&p, &want, tol), "shape", "{what}: at {u},{v} is {p:?}, must be {want:?}");
        }
    }
    Ok(())
}

fn s_ops() -> Vec<String> {
    let mut v: Vec<String> = vec!["inv", "fU", "fV", "fW", "cast", "m0", "m1", "m2"].into_iter().map(|s| s.to_string()).collect();
    for d in ["U", "V"] {
        for f in ["q", "h", "k"] {
            v.push(format!("r{d}{f}"));
            v.push(format!("s{d}{f}0"));
            v.push(format!("s{d}{f}1"));
        }
        v.push(format!("r{d}2"));
    }
    v
}

fn mat(i: usize) -> Vec<Vec<f64>> {
    match i {
        0 => vec![vec![1.0, 0.0, 0.0, 2.0], vec![0.0, 1.0, 0.0, -1.0], vec![0.0, 0.0, 1.0, 0.5], vec![0.0, 0.0, 0.0, 1.0]],
        1 => vec![vec![0.0, -1.0, 0.0, 0.0], vec![1.0, 0.0, 0.0, 0.5], vec![0.0, 0.0, 2.0, 0.0], vec![0.0, 0.0, 0.0, 1.0]],
        _ => vec![vec![1.0, 0.5, 0.0, 0.0], vec![0.0, 1.0, -0.25, 1.0], vec![0.5, 0.0, 1.0, -1.0], vec![0.0, 0.0, 0.0, 1.0]],
    }
}

fn s_step(e: &Edit, op: &str) -> Result<Option<Edit>, Fail> {
    let b = op.as_bytes();
    let sm = surf_model(&e.sf);
    let (du, dv) = sm.domain();
    let mut o = e.clone();
    let at = |d: (f64, f64), brk: Vec<f64>, f: u8| match f {
        b'q' => Some(d.0 + (d.1 - d.0) * 0.25),
        b'h' => Some(d.0 + (d.1 - d.0) * 0.5),
        _ => {
            if brk.len() > 2 {
                Some(brk[1])
            } else {
                None
            }
        }
    };
    let mult = |k: &[f64], u: f64| k.iter().filter(|x| **x == u).count();
    match b[0] {
        b'i' => {
            o.sf.invert();
            let (nu, nv) = o.sf.knots_domain();
            o.mu = (-e.mu.0, e.mu.0 * (du.1 + nu.0) + e.mu.1);
            o.mv = (-e.mv.0, e.mv.0 * (dv.1 + nv.0) + e.mv.1);
        }
        b'f' => {
            let d = match b[1] {
                b'U' => FlipDirection::U,
                b'V' => FlipDirection::V,
                _ => FlipDirection::UV,
            };
            o.sf = e.sf.flip(d);
            let (nu, nv) = o.sf.knots_domain();
            if b[1] != b'V' {
                o.mu = (-e.mu.0, e.mu.0 * (du.1 + nu.0) + e.mu.1);
            }
            if b[1] != b'U' {
                o.mv = (-e.mv.0, e.mv.0 * (dv.1 + nv.0) + e.mv.1);
            }
        }
        b'c' => {
            o.sf = e.sf.cast::<f64>();
            if canon_s(&surf_model(&o.sf)) != canon_s(&surf_model(&e.sf)) {
                fail!("cast", "a cast to the same type changes the surface");
            }
        }
        b'm' => {
            let i = (b[1] - b'0') as usize;
            let m = mat(i);
            let mm = Matrix4::from_fn(|r, c| m[r][c]);
            o.sf = e.sf.transformed(&mm);
            o.m = matmul(&m, &e.m);
        }
        b'r' | b's' => {
            let udir = b[1] == b'U';
            let (d, brk, ks, p) = if udir {
                (du, sm.u_model().breaks(), &sm.ku, sm.pu)
            } else {
                (dv, sm.v_model().breaks(), &sm.kv, sm.pv)
            };
            let dir = if udir { UVDirection::U } else { UVDirection::V };
            if b[0] == b'r' {
                let ins: Vec<f64> = if b[2] == b'2' {
                    vec![d.0 + (d.1 - d.0) * 0.75, d.0 + (d.1 - d.0) * 0.375, d.0 + (d.1 - d.0) * 0.75]
                } else {
                    match at(d, brk, b[2]) {
                        Some(x) => vec![x],
                        None => return Ok(None),
                    }
                };
                for x in &ins {
                    let c = ins.iter().filter(|y| *y == x).count();
                    if mult(ks, *x) + c > p {
                        return Ok(None);
                    }
                }
                let mut want: Vec<f64> = ks.clone();
                want.extend(&ins);
                want.sort_by(|a, b| a.partial_cmp(b).unwrap());
                if let Err(x) = o.sf.try_refine_knot(ins.clone(), dir) {
                    fail!("refused", "inserting {ins:?}: {x}");
                }
                let got = if udir { o.sf.u_knots().to_vec() } else { o.sf.v_knots().to_vec() };
                let other = if udir { o.sf.v_knots().to_vec() == sm.kv } else { o.sf.u_knots().to_vec() == sm.ku };
                if got != want || !other {
                    fail!("knots", "inserting {ins:?}: {got:?} must be {want:?}");
                }
            } else {
                let Some(x) = at(d, brk, b[2]) else { return Ok(None) };
                if x <= d.0 || x >= d.1 {
                    return Ok(None);
                }
                let (l, r) = match e.sf.try_split(SplitSurfaceOption::new(x, dir)) {
                    Ok(v) => v,
                    Err(er) => fail!("refused", "splitting at {x}: {er}"),
                };
                let dom = |s: &S3| if udir { s.u_knots_domain() } else { s.v_knots_domain() };
                if dom(&l) != (d.0, x) || dom(&r) != (x, d.1) {
                    fail!("domain", "splitting at {x}: {:?} {:?}", dom(&l), dom(&r));
                }
                o.sf = if b[3] == b'0' { l } else { r };
            }
        }
        _ => unreachable!(),
    }
    Ok(Some(o))
}

fn s04(env: &Env) {
    let th = env.thorough();
    // superfluous copies of the end knots are evaluated in S01, but not edited
    let ks: Vec<Knots> = dir_knots(3, true).into_iter().filter(|k| !k.name.contains('o')).collect();
    let small = dir_knots(3, false);
    // single edits, iso curves and boundary curves: all pairs
    let mut sp = vec![];
    for (i, ku) in ks.iter().enumerate() {
        for (j, kv) in ks.iter().enumerate() {
            if (ku.name.contains("i.") || ku.name.contains('o') || kv.name.contains('o')) && !th && (i + j) % 3 != 0 {
                continue;
            }
            sp.push(surface(ku, kv, ['1', 'm', 'g'][(i + j) % 3], 'g'));
        }
    }
    sp.extend(large_surfaces());
    env.note(format!("single edits, iso curves and splits at all knots and two parameters per interval of {} surfaces", sp.len()));
    let ops = s_ops();
    env.par(&sp, |s, rec| {
        rec.case(&format!("iso.{}", s.name), |rec| {
            let sf = mks(&s.m);
            let m = surf_model(&sf);
            rec.state(canon_s(&m));
            let (us, vs) = m.params(2);
            let tol = 1e-8 * m.scale() * 8.0;
            let one = |c: &C3, t: f64, udir: bool, rec: &mut Rec| -> Res {
                let cm = c.model();
                if let Err(e) = cm.well_formed() {
                    fail!("malformed", "{e}");
                }
                let want_dom = if udir { m.domain().1 } else { m.domain().0 };
                check!(c.dom() == want_dom, "iso-domain", "{:?} must be {want_dom:?}", c.dom());
                for x in if udir { &vs } else { &us } {
                    let w = if udir { m.pt(t, *x) } else { m.pt(*x, t) };
                    let p = c.pt(*x);
                    rec.trans(1);
                    check!(close(&p, &w, tol), "iso", "at {t} ({}) {x}: {p:?} must be {w:?}", if udir { "u" } else { "v" });
                }
                Ok(())
            };
            for t in &us {
                match sf.try_isocurve(*t, UVDirection::U) {
                    Ok(c) => one(&c, *t, true, rec)?,
                    Err(e) => fail!("iso-refused", "u {t}: {e}"),
                }
            }
            for t in &vs {
                match sf.try_isocurve(*t, UVDirection::V) {
                    Ok(c) => one(&c, *t, false, rec)?,
                    Err(e) => fail!("iso-refused", "v {t}: {e}"),
                }
            }
            let ((a, b), (c, d)) = m.domain();
            match sf.try_boundary_curves() {
                Ok(x) => {
                    one(&x[0], a, true, rec)?;
                    one(&x[1], c, false, rec)?;
                    one(&x[2], b, true, rec)?;
                    one(&x[3], d, false, rec)?;
                }
                Err(e) => fail!("boundary-refused", "{e}"),
            }
            rec.outcome("iso curves");
            Ok(())
        });
        let e = Edit { sf: mks(&s.m), mu: (1.0, 0.0), mv: (1.0, 0.0), m: ident() };
        for op in &ops {
            rec.case(&format!("op.{}.{op}", s.name), |rec| {
                if let Some(o) = s_step(&e, op)? {
                    rec.outcome(op);
                    agrees(&o, &s.m, rec, op)?;
                    if ["inv", "fU", "fV", "fW"].contains(&op.as_str()) {
                        let back = s_step(&o, op)?.unwrap();
                        agrees(&back, &s.m, rec, "twice")?;
                        let (x, y) = (surf_model(&back.sf), surf_model(&e.sf));
                        let shift = x.ku[0] - y.ku[0];
                        check!(x.cps == y.cps && shift.abs() < 1e-9, "twice", "reversing twice does not restore the surface");
                    }
                }
                Ok(())
            });
        }
        // all split places
        rec.case(&format!("split.{}", s.name), |rec| {
            let sf = mks(&s.m);
            let (us, vs) = s.m.params(2);
            for (dir, ts) in [(UVDirection::U, &us), (UVDirection::V, &vs)] {
                for t in &ts[1..ts.len() - 1] {
                    let udir = matches!(dir, UVDirection::U);
                    let (l, r) = match sf.try_split(SplitSurfaceOption::new(*t, if udir { UVDirection::U } else { UVDirection::V })) {
                        Ok(x) => x,
                        Err(e) => fail!("refused", "at {t}: {e}"),
                    };
                    for (w, part) in [("first", l), ("second", r)] {
                        let d = if udir { part.u_knots_domain() } else { part.v_knots_domain() };
                        let full = if udir { s.m.domain().0 } else { s.m.domain().1 };
                        let want = if w == "first" { (full.0, *t) } else { (*t, full.1) };
                        check!(d == want, "domain", "{w} part at {t}: {d:?} must be {want:?}");
                        agrees(&Edit { sf: part, mu: (1.0, 0.0), mv: (1.0, 0.0), m: ident() }, &s.m, rec, w)?;
                    }
                    rec.outcome("split");
                }
            }
            Ok(())
        });
    });
    // histories
    let depth = if th { 3 } else { 2 };
    let mut hist = vec![];
    let pairs: Vec<(usize, usize)> = if th { (0..small.len()).map(|i| (i, (i * 5 + 3) % small.len())).collect() } else { vec![(5, 2), (9, 7), (6, 11), (3, 10)] };
    for (i, j) in pairs {
        for w in ['1', 'm'] {
            let s = surface(&small[i % small.len()], &small[j % small.len()], w, 'g');
            for a in 0..ops.len() {
                hist.push((s.clone(), a));
            }
        }
    }
    env.note(format!("all edit sequences of depth {depth} over {} operations from {} surfaces", ops.len(), hist.len() / ops.len()));
    env.par(&hist, |(s, a), rec| {
        fn go(e: &Edit, ops: &[String], depth: usize, path: &str, s: &SSpec, rec: &mut Rec) {
            for op in ops {
                let p = format!("{path}.{op}");
                let mut next = None;
                let ok = rec.case(&p, |rec| {
                    if let Some(o) = s_step(e, op)? {
                        rec.state(canon_s(&surf_model(&o.sf)));
                        agrees(&o, &s.m, rec, op)?;
                        rec.outcome("history");
                        next = Some(o);
                    }
                    Ok(())
                });
                if ok && depth > 1 {
                    if let Some(o) = next {
                        go(&o, ops, depth - 1, &p, s, rec);
                    }
                }
            }
        }
        let e = Edit { sf: mks(&s.m), mu: (1.0, 0.0), mv: (1.0, 0.0), m: ident() };
        go(&e, &ops[*a..*a + 1], 1, &format!("hist.{}", s.name), s, rec);
        if let Ok(Some(o)) = s_step(&e, &ops[*a]) {
            go(&o, &ops, depth - 1, &format!("hist.{}.{}", s.name, ops[*a]), s, rec);
        }
    });
}

// ---------------------------------------------------------------- S05

/// Brute-force nearest point of the surface: (distance, u, v) and whether it is well separated.
fn nearest(m: &MS, q: &[f64], per: usize) -> (f64, f64, f64, bool) {
    let (us, vs) = m.params(per);
    let g: Vec<Vec<f64>> = us.iter().map(|u| vs.iter().map(|v| dist(&m.pt(*u, *v), q)).collect()).collect();
    let (nu, nv) = (us.len(), vs.len());
    let mut mins = vec![];
    for i in 0..nu {
        for j in 0..nv {
            let mut is = true;
            for di in -1i32..=1 {
                for dj in -1i32..=1 {
                    let (x, y) = (i as i32 + di, j as i32 + dj);
                    if x >= 0 && y >= 0 && (x as usize) < nu && (y as usize) < nv && g[x as usize][y as usize] < g[i][j] {
                        is = false;
                    }
                }
            }
            if is {
                mins.push((g[i][j], i, j));
            }
        }
    }
    mins.sort_by(|a, b| a.0.partial_cmp(&b.0).unwrap());
    let refine = |i: usize, j: usize| {
        let (mut u, mut v) = (us[i], vs[j]);
        let mut hu = (us[(i + 1).min(nu - 1)] - us[i.max(1) - 1]) / 2.0;
        let mut hv = (vs[(j + 1).min(nv - 1)] - vs[j.max(1) - 1]) / 2.0;
        let (du, dv) = m.domain();
        let mut best = g[i][j];
        for _ in 0..60 {
            let mut moved = false;
            for (a, b) in [(1.0, 0.0), (-1.0, 0.0), (0.0, 1.0), (0.0, -1.0), (1.0, 1.0), (-1.0, -1.0), (1.0, -1.0), (-1.0, 1.0)] {
                let x = (u + a * hu).clamp(du.0, du.1);
                let y = (v + b * hv).clamp(dv.0, dv.1);
                let d = dist(&m.pt(x, y), q);
                if d < best {
                    best = d;
                    u = x;
                    v = y;
                    moved = true;
                }
            }
            if !moved {
                hu *= 0.5;
                hv *= 0.5;
            }
        }
        (best, u, v)
    };
    let (d, u, v) = refine(mins[0].1, mins[0].2);
    let sc = m.scale();
    let here = m.pt(u, v);
    let mut sep = true;
    for (dd, i, j) in mins.iter().skip(1) {
        if dist(&m.pt(us[*i], vs[*j]), &here) > 0.1 * sc && *dd < d + 0.15 * sc {
            sep = false;
        }
    }
    (d, u, v, sep)
}

/// No knot inside of the domain is repeated as often as the degree
fn crease_free(k: &[f64], p: usize) -> bool {
    let (a, b) = (k[p], k[k.len() - p - 1]);
    k.iter().all(|x| *x <= a || *x >= b || k.iter().filter(|y| *y == x).count() < p)
}

fn s05(env: &Env) {
    let th = env.thorough();
    let mut sp: Vec<(String, S3)> = vec![];
    let ks = dir_knots(3, false);
    for (i, ku) in ks.iter().enumerate() {
        for (j, kv) in ks.iter().enumerate() {
            if !th && (i * 3 + j) % 4 != 0 {
                continue;
            }
            for w in ['1', 'm'] {
                let mut s = surface(ku, kv, w, 'g');
                // gentle relief
                for (r, row) in s.m.cps.iter_mut().enumerate() {
                    for (c, p) in row.iter_mut().enumerate() {
                        p[2] = p[3] * 0.6 * [0.0, 0.5, -0.25, 0.75, 0.25, -0.5][(r * 2 + c * 3) % 6];
                    }
                }
                s.name = format!("{}gentle", s.name);
                sp.push((s.name.clone(), mks(&s.m)));
            }
        }
    }
    let o = Point3::new(0.5, -0.25, 1.0);
    sp.push(("sphere".into(), S3::try_sphere(&o, &Vector3::x(), &Vector3::y(), 2.0).unwrap()));
    sp.push(("sphere2".into(), S3::try_sphere(&o, &Vector3::z(), &Vector3::x(), 1.0).unwrap()));
    let line = NurbsCurve3D::polyline(&[Point3::new(2.0, 0.0, -1.0), Point3::new(2.0, 0.0, 2.0)], true);
    for (i, t) in [TAU, PI, 1.0, 4.0].iter().enumerate() {
        sp.push((format!("cylinder{i}"), S3::try_revolve(&line, &Point3::origin(), &Vector3::z(), *t).unwrap()));
    }
    // where the seam closes only up to rounding, either end may be the initial guess
    for i in 0..if th { 24 } else { 8 } {
        let a = 0.37 + i as f64 * TAU / if th { 24.0 } else { 8.0 };
        let (x, y) = (2.0 * a.cos(), 2.0 * a.sin());
        let l = NurbsCurve3D::polyline(&[Point3::new(x, y, -1.0), Point3::new(x, y, 2.0)], true);
        sp.push((format!("seam{i}"), S3::try_revolve(&l, &Point3::origin(), &Vector3::z(), TAU).unwrap()));
    }
    let circ = NurbsCurve3D::try_circle(&Point3::new(3.0, 0.0, 0.0), &Vector3::x(), &Vector3::z(), 1.0).unwrap();
    sp.push(("torus".into(), S3::try_revolve(&circ, &Point3::origin(), &Vector3::z(), TAU).unwrap()));
    sp.push(("tube".into(), S3::extrude(&circ, &Vector3::new(0.0, 3.0, 0.0))));
    // rings that close exactly, in either direction
    let ring = NurbsCurve3D::try_new(
        3,
        [(2.0, 0.0), (2.0, 1.0), (1.0, 2.5), (-1.5, 2.0), (-2.5, 0.0), (-1.5, -2.0), (1.0, -2.5), (2.0, -1.0), (2.0, 0.0)]
            .iter()
            .map(|(x, y)| Point4::new(*x, *y, 0.0, 1.0))
            .collect(),
        vec![0.0, 0.0, 0.0, 0.0, 1.0, 2.0, 3.0, 4.0, 5.0, 6.0, 6.0, 6.0, 6.0],
    )
    .unwrap();
    for (i, r) in [ring.clone(), ring.inverse()].iter().enumerate() {
        let v = S3::extrude(r, &Vector3::new(0.25, 0.0, 2.0));
        sp.push((format!("ring{i}"), v.clone()));
        let t: Vec<Vec<Point4<f64>>> = (0..v.control_points()[0].len()).map(|j| v.control_points().iter().map(|row| row[j]).collect()).collect();
        sp.push((format!("ringT{i}"), S3::new(v.v_degree(), v.u_degree(), v.v_knots().to_vec(), v.u_knots().to_vec(), t)));
    }
    sp.push(("plane".into(), S3::plane(Point3::new(1.0, 0.0, 0.0), Vector3::new(2.0, 0.0, 0.0), Vector3::new(0.0, 1.0, 1.0))));
    let r: Vec<f64> = if th { vec![-2.5, -1.0, 0.5, 2.0, 3.5, 5.0] } else { vec![-1.0, 0.75, 3.5] };
    let zs: Vec<f64> = if th { vec![-2.0, 0.25, 1.0, 3.0] } else { vec![-1.5, 0.75] };
    env.note(format!("{} surfaces (splines, spheres, cylinders, torus, tube, plane); grid queries and queries on the surface at all knots and parameters between", sp.len()));
    env.assume("distance is compared only where the nearest point is unique and well separated, and to the precision of the solver: 1e-3 of the size for queries on a smooth surface, 1e-2 of it where the nearest point is inside the domain, and otherwise (at creases, around poles, at the boundary) the spacing of the initial tessellation");
    env.par(&sp, |(name, sf), rec| {
        rec.case(name, |rec| {
            let m = surf_model(sf);
            rec.state(canon_s(&m));
            let (du, dv) = m.domain();
            let sc = m.scale();
            let smooth = !name.ends_with("gentle") || crease_free(&m.ku, m.pu) && crease_free(&m.kv, m.pv);
            // spacing of the initial guesses
            let (nu, nv) = ((m.nu() - 1) * 2, (m.nv() - 1) * 2);
            let mut cell: f64 = 0.0;
            for i in 0..nu {
                for j in 0..nv {
                    let at = |i: usize, j: usize| m.pt(du.0 + (du.1 - du.0) * i as f64 / nu as f64, dv.0 + (dv.1 - dv.0) * j as f64 / nv as f64);
                    cell = cell.max(dist(&at(i, j), &at(i + 1, j + 1))).max(dist(&at(i + 1, j), &at(i, j + 1)));
                }
            }
            let mut qs: Vec<(Vec<f64>, bool)> = vec![];
            let (us, vs) = m.params(2);
            for u in &us {
                for v in &vs {
                    qs.push((m.pt(*u, *v), true));
                }
            }
            // on both sides of the seams
            for f in [0.003, 0.012, 0.03, 0.96, 0.981, 0.997] {
                for g in [0.0, 0.23, 0.41, 0.77, 1.0] {
                    qs.push((m.pt(du.0 + (du.1 - du.0) * f, dv.0 + (dv.1 - dv.0) * g), true));
                    qs.push((m.pt(du.0 + (du.1 - du.0) * g, dv.0 + (dv.1 - dv.0) * f), true));
                }
            }
            for x in &r {
                for y in &r {
                    for z in &zs {
                        qs.push((vec![*x, *y, *z], false));
                    }
                }
            }
            // a row of control points that coincide makes a pole
            let mut poles: Vec<Vec<f64>> = vec![];
            for (f, g) in [(du.0, true), (du.1, true), (dv.0, false), (dv.1, false)] {
                let at = |t: f64| if g { m.pt(f, dv.0 + (dv.1 - dv.0) * t) } else { m.pt(du.0 + (du.1 - du.0) * t, f) };
                if [0.2, 0.55, 0.9].iter().all(|t| dist(&at(*t), &at(0.0)) < 1e-9) {
                    poles.push(at(0.0));
                }
            }
            let sp = Spacing { cell, smooth, per: if th { 12 } else { 8 } };
            for (qp, on) in &qs {
                s05_query(sf, &m, &poles, sp, qp, *on, false, rec)?;
            }
            Ok(())
        });
        // the neighbourhood of a pole, to the precision of the solver
        if name == "sphere2" {
            rec.case(&format!("pole.{name}"), |rec| {
                let m = surf_model(sf);
                let (du, dv) = m.domain();
                for f in [0.03, 0.97] {
                    for g in [0.23, 0.41, 0.77] {
                        let qp = m.pt(du.0 + (du.1 - du.0) * g, dv.0 + (dv.1 - dv.0) * f);
                        let sp = Spacing { cell: 0.0, smooth: true, per: 8 };
                        s05_query(sf, &m, &[], sp, &qp, true, true, rec)?;
                    }
                }
                Ok(())
            });
        }
    });
}

#[derive(Clone, Copy)]
struct Spacing {
    /// extent of a cell of the initial guesses
    cell: f64,
    smooth: bool,
    per: usize,
}

#[allow(clippy::too_many_arguments)]
fn s05_query(sf: &S3, m: &MS, poles: &[Vec<f64>], sp: Spacing, qp: &[f64], on: bool, tight: bool, rec: &mut Rec) -> Res {
    let (du, dv) = m.domain();
    let sc = m.scale();
    let (u, v) = match sf.find_closest_parameter(&p3(qp)) {
        Ok(x) => x,
        Err(e) => fail!("refused", "query {qp:?}: {e}"),
    };
    rec.trans(1);
    check!(u >= du.0 && u <= du.1 && v >= dv.0 && v <= dv.1, "outside", "query {qp:?}: {u},{v} outside of {du:?} {dv:?}");
    let p = match sf.find_closest_point(&p3(qp)) {
        Ok(x) => x.coords.as_slice().to_vec(),
        Err(e) => fail!("refused", "query {qp:?}: {e}"),
    };
    check!(close(&p, &m.pt(u, v), 1e-9 * sc), "point", "query {qp:?}: {p:?} must be {:?}", m.pt(u, v));
    let (d, nu, nv, sep) = nearest(m, qp, sp.per);
    if !sep {
        rec.outcome("not separated");
        return Ok(());
    }
    let e = 1e-6;
    let inside = nu > du.0 + e && nu < du.1 - e && nv > dv.0 + e && nv < dv.1 - e;
    let polar = poles.iter().any(|p| dist(p, &m.pt(nu, nv)) < sp.cell);
    let tol = if tight || on && sp.smooth && !polar {
        1e-3 * sc
    } else if inside && sp.smooth && !polar {
        1e-2 * sc
    } else {
        0.75 * sp.cell + 1e-2 * sc
    };
    rec.outcome(if polar || tight { "around a pole" } else if on { "on the surface" } else if inside { "inside" } else { "boundary" });
    check!(dist(&p, qp) <= d + tol, "nearest", "query {qp:?}: {} away at {u},{v}; the nearest is {d} away at {nu},{nv} (tol {tol})", dist(&p, qp));
    Ok(())
}
