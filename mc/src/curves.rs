//! C01..C09: evaluation, construction and editing of curves.

use crate::adapt::*;
use crate::core::*;
use crate::gen::*;
use crate::model::*;
use crate::{check, fail};
use std::collections::HashSet;

pub fn table() -> Vec<(&'static str, fn(&Env))> {
    vec![
        ("C01", c01),
        ("C02", c02),
        ("C03", c03),
        ("C04", c04),
        ("C05", c05),
        ("C06", c06),
        ("C07", c07),
        ("C08", c08),
        ("C09", c09),
    ]
}

pub fn q<C: Cv>(u: f64) -> f64 {
    if C::NAME.ends_with('f') {
        u as f32 as f64
    } else {
        u
    }
}

pub fn canon(m: &MC) -> u64 {
    let mut c = Canon::new().u(m.p as u64).fs(&m.knots);
    for p in &m.cps {
        c = c.fs(p);
    }
    c.get()
}

/// `c` at u equals `orig` at map(u), for the breaks of `c` and `m` parameters per interval.
pub fn same_shape<C: Cv>(
    c: &C,
    orig: &MC,
    map: &dyn Fn(f64) -> f64,
    xf: &dyn Fn(Vec<f64>) -> Vec<f64>,
    m: usize,
    tol: f64,
    what: &str,
    rec: &mut Rec,
) -> Res {
    let cm = c.model();
    if let Err(e) = cm.well_formed() {
        fail!("malformed", "{what}: {e}");
    }
    for u in cm.params(m) {
        let u = q::<C>(u);
        let got = c.pt(u);
        let want = xf(orig.pt(map(u)));
        rec.trans(1);
        check!(
            close(&got, &want, tol),
            "shape",
            "{what}: at {u} is {got:?}, must be {want:?}"
        );
    }
    Ok(())
}

fn id(x: f64) -> f64 {
    x
}
fn idp(x: Vec<f64>) -> Vec<f64> {
    x
}

pub fn mk<C: Cv>(s: &Spec) -> Result<C, Fail> {
    C::make(s.m.p, &s.m.cps, &s.m.knots).map_err(|e| Fail {
        kind: "construct".into(),
        detail: e,
    })
}

pub fn all_knots(pmax: usize, parts: usize, sum: usize, uparts: usize, usum: usize) -> Vec<Knots> {
    let mut v = vec![];
    for p in 1..=pmax {
        v.extend(clamped(p, parts, sum));
        v.extend(unclamped(p, uparts, usum));
    }
    v
}

// ---------------------------------------------------------------- C01

fn c01_one<C: Cv>(s: &Spec, rec: &mut Rec, m: usize) -> Res {
    let c = mk::<C>(s)?;
    let mo = c.model();
    rec.state(canon(&mo));
    let sc = mo.scale();
    let (a, b) = mo.domain();
    check!(c.dom() == (a, b), "domain", "{:?} must be {:?}", c.dom(), (a, b));
    let br = mo.breaks();
    let gap = br.windows(2).map(|w| w[1] - w[0]).fold(f64::INFINITY, f64::min);
    let wmin = mo.cps.iter().map(|c| c[c.len() - 1]).fold(f64::INFINITY, f64::min);
    let wmax = mo.cps.iter().map(|c| c[c.len() - 1]).fold(0.0, f64::max);
    let wr = wmax / wmin;
    // parameters lose precision relative to their own size
    let um = 1.0 + a.abs().max(b.abs()) / gap;
    let tol = |k: i32| C::EPS * sc * um * wr * (4.0 * mo.p as f64 / gap * wr).powi(k) * 2.0;
    for u in mo.params(m) {
        let u = q::<C>(u);
        let l = mo.ders(u, 2, Side::Left);
        let r = mo.ders(u, 2, Side::Right);
        let (p, t, d2) = (c.pt(u), c.tan(u), c.acc(u));
        let (p1, t1) = c.pt_tan(u);
        rec.trans(4);
        check!(close(&p, &r[0], tol(0)), "point", "at {u}: {p:?} must be {:?}", r[0]);
        check!(close(&p1, &r[0], tol(0)), "point_tangent", "at {u}: {p1:?} must be {:?}", r[0]);
        for (n, g, k) in [("tangent", &t, 1), ("tangent2", &t1, 1), ("second", &d2, 2)] {
            check!(
                close(g, &r[k], tol(k as i32)) || close(g, &l[k], tol(k as i32)),
                n,
                "at {u}: {g:?} must be {:?} (or from the left {:?}) tol {}",
                r[k],
                l[k],
                tol(k as i32)
            );
        }
        rec.outcome(if br.contains(&u) { "knot" } else { "inside" });
    }
    let (mid0, mid1) = (q::<C>(a + (b - a) * 0.25), q::<C>(a + (b - a) * 0.625));
    for (x, y) in [(a, b), (mid0, mid1), (a, mid1), (b, a)] {
        for n in [2usize, 3, 5, 8] {
            let v = c.samples(x, y, n);
            let w = c.samples_p(x, y, n);
            rec.trans(2);
            check!(v.len() == n && w.len() == n, "sample-count", "{} and {} samples of {n}", v.len(), w.len());
            for i in 0..n {
                let u = x + (y - x) * i as f64 / (n as f64 - 1.0);
                // a sample on a knot may be evaluated a rounding error beside it
                let e = mo.pt(u);
                let t = tol(0) * 8.0;
                check!(close(&v[i], &e, t), "sample", "{i} of {n} on {x}..{y}: {:?} must be {e:?}", v[i]);
                check!(close(&w[i].1, &e, t), "sample-p", "{i} of {n} on {x}..{y}: {:?} must be {e:?}", w[i].1);
                check!(
                    (w[i].0 - u).abs() <= C::EPS * (1.0 + u.abs()),
                    "sample-param",
                    "{i} of {n} on {x}..{y}: parameter {} must be {u}",
                    w[i].0
                );
            }
        }
    }
    // the whole curve, in bulk
    Ok(())
}

fn c01(env: &Env) {
    let th = env.thorough();
    let ks = if th {
        let mut v = all_knots(4, 4, 6, 3, 4);
        v.extend(clamped(5, 2, 5));
        v.extend(unclamped(5, 1, 3));
        v.extend(clamped(6, 1, 6));
        v
    } else {
        all_knots(4, 3, 4, 2, 2)
    };
    let mut ks = ks;
    for p in 1..=4 {
        ks.extend(repeated_ends(p));
    }
    env.note(format!("{} knot vectors (degrees 1..=4, thorough 6; every interior multiplicity pattern up to a total of 4 (thorough 6); clamped, floating and half-clamped ends; uniform, uneven, shifted and widened domains) x weights x points x 2D/3D f64 and 2D f32", ks.len()));
    env.assume("derivatives where the curve is not differentiable (knots of multiplicity >= degree): either one-sided value is accepted");
    let m = if th { 5 } else { 3 };
    let s3 = curves(&ks, &WEIGHTS, if th { &['g', 'w', 'd', 'l'] } else { &['g', 'w'] }, 3);
    let mut s3 = s3;
    s3.extend(curves(&large(), &['1', 'a', 'x'], &['g', 'H', 'T', 'F'], 3));
    env.par(&s3, |s, rec| {
        rec.case(&format!("3d.{}", s.name), |rec| c01_one::<C3>(s, rec, m));
    });
    let mut s2 = curves(&ks, &WEIGHTS, &['g', 'c'], 2);
    s2.extend(curves(&large(), &['1', 'x'], &['g', 'T'], 2));
    env.par(&s2, |s, rec| {
        rec.case(&format!("2d.{}", s.name), |rec| c01_one::<C2>(s, rec, m));
    });
    let k32: Vec<Knots> = ks.iter().filter(|k| k.p <= 3 && !k.name.ends_with('s')).cloned().collect();
    let sf = curves(&k32, &['1', 'a'], &['g'], 2);
    env.par(&sf, |s, rec| {
        rec.case(&format!("2f.{}", s.name), |rec| c01_one::<C2f>(s, rec, m));
    });
    let sf = curves(&k32, &['1', 'a'], &['g'], 3);
    env.par(&sf, |s, rec| {
        rec.case(&format!("3f.{}", s.name), |rec| c01_one::<C3f>(s, rec, m));
    });
}

// ---------------------------------------------------------------- C02

fn c02(env: &Env) {
    let (pm, nm) = if env.thorough() { (6, 9) } else { (4, 7) };
    env.note(format!("all (degree 1..={pm}, control points 0..={nm}, knots 0..={}) x 4 orders of the knots, 2D and 3D; all polylines of 2..5 points over a small lattice", nm + pm + 3));
    let mut items = vec![];
    for p in 1..=pm {
        for n in 0..=nm {
            for k in 0..=(nm + pm + 3) {
                for o in 0..4usize {
                    items.push((p, n, k, o));
                }
            }
        }
    }
    fn one<C: Cv>(&(p, n, k, o): &(usize, usize, usize, usize), rec: &mut Rec) -> Res {
        let cps: Vec<Vec<f64>> = points('g', n, C::DIM)
            .into_iter()
            .enumerate()
            .map(|(i, mut v)| {
                v.push(weight('a', i, n));
                v
            })
            .collect();
        let sorted: Vec<f64> = (0..k).map(|i| (i / 2) as f64 * 0.5 - 1.0).collect();
        let mut ks = sorted.clone();
        match o {
            1 => ks.reverse(),
            2 => ks.rotate_left(k / 2),
            3 => {
                for i in (1..k).step_by(2) {
                    ks.swap(i, i - 1)
                }
                if k > 2 {
                    ks.swap(0, k - 1)
                }
            }
            _ => {}
        }
        let r = C::make(p, &cps, &ks);
        rec.trans(1);
        let ok = n > p && k == n + p + 1;
        rec.outcome(if ok { "accepted" } else { "refused" });
        rec.state(Canon::new().u(p as u64).u(n as u64).u(k as u64).get());
        match r {
            Ok(c) => {
                check!(ok, "accepted", "degree {p}, {n} control points, {k} knots accepted");
                let m = c.model();
                check!(m.p == p && c.deg() == p, "degree", "{}", m.p);
                check!(m.knots == sorted, "knots", "{:?} must be {sorted:?}", m.knots);
                check!(m.cps == cps, "points", "control points changed");
                let w: Vec<f64> = cps.iter().map(|c| c[C::DIM]).collect();
                check!(c.wts() == w, "weights", "{:?} must be {w:?}", c.wts());
                let d = c.dehom();
                for (a, b) in d.iter().zip(&cps) {
                    let e: Vec<f64> = b[..C::DIM].iter().map(|x| x / b[C::DIM]).collect();
                    check!(close(a, &e, C::EPS * 10.0), "dehomogenized", "{a:?} must be {e:?}");
                }
                check!(d.len() == n, "dehomogenized", "{} of {n}", d.len());
                check!(c.dom() == (sorted[p], sorted[k - 1 - p]), "domain", "{:?}", c.dom());
            }
            Err(e) => check!(!ok, "refused", "degree {p}, {n} control points, {k} knots: {e}"),
        }
        Ok(())
    }
    env.par(&items, |it, rec| {
        let t = format!("p{}.n{}.k{}.o{}", it.0, it.1, it.2, it.3);
        rec.case(&format!("new.2d.{t}"), |rec| one::<C2>(it, rec));
        rec.case(&format!("new.3d.{t}"), |rec| one::<C3>(it, rec));
        rec.case(&format!("new.2f.{t}"), |rec| one::<C2f>(it, rec));
    });

    // clamped, closed flags
    let ks = all_knots(4, 2, 3, 2, 2);
    let sp = curves(&ks, &['1', 'a'], &['g', 'c', 'd'], 3);
    env.par(&sp, |s, rec| {
        rec.case(&format!("flags.{}", s.name), |rec| {
            let c = mk::<C3>(s)?;
            let m = c.model();
            rec.trans(2);
            rec.state(canon(&m));
            check!(c.clamped() == m.is_clamped(), "clamped", "{} must be {}", c.clamped(), m.is_clamped());
            let (a, b) = m.domain();
            let gap = dist(&m.pt(a), &m.pt(b));
            let want = gap < 1e-9;
            rec.outcome(if want { "closed" } else { "open" });
            check!(gap > 1e-3 || gap < 1e-14, "scope", "ambiguous gap {gap}");
            check!(c.closed() == want, "closed", "{} must be {want}, gap {gap}", c.closed());
            let (e0, e1) = c.ends();
            check!(
                close(&e0, &m.pt(a), 1e-12 * m.scale()) && close(&e1, &m.pt(b), 1e-12 * m.scale()),
                "ends",
                "{e0:?} {e1:?} must be {:?} {:?}",
                m.pt(a),
                m.pt(b)
            );
            Ok(())
        });
    });

    // polylines: every sequence over a small lattice
    let lat: Vec<Vec<f64>> = vec![
        vec![0.0, 0.0, 0.0],
        vec![1.0, 0.0, 0.5],
        vec![1.0, 2.0, 0.0],
        vec![-0.5, 1.0, -1.0],
    ];
    let lens = if env.thorough() { 6 } else { 5 };
    let mut seqs: Vec<Vec<usize>> = vec![];
    let mut fr: Vec<Vec<usize>> = (0..lat.len()).map(|i| vec![i]).collect();
    for _ in 1..lens {
        let mut nx = vec![];
        for f in &fr {
            for i in 0..lat.len() {
                if i != *f.last().unwrap() {
                    let mut g = f.clone();
                    g.push(i);
                    nx.push(g);
                }
            }
        }
        seqs.extend(nx.iter().cloned());
        fr = nx;
    }
    fn poly<C: Cv>(sq: &[usize], lat: &[Vec<f64>], norm_: bool, rec: &mut Rec) -> Res {
        let pts: Vec<Vec<f64>> = sq.iter().map(|i| lat[*i][..C::DIM].to_vec()).collect();
        let c = C::polyline_(&pts, norm_);
        let m = c.model();
        rec.trans(1);
        rec.state(canon(&m));
        if let Err(e) = m.well_formed() {
            fail!("malformed", "{e}");
        }
        check!(m.p == 1 && m.is_clamped(), "degree", "{} {:?}", m.p, m.knots);
        let mut at = vec![0.0];
        for w in pts.windows(2) {
            at.push(at.last().unwrap() + dist(&w[0], &w[1]));
        }
        let total = *at.last().unwrap();
        for a in at.iter_mut() {
            if norm_ {
                *a /= total;
            }
        }
        let (d0, d1) = c.dom();
        let e = C::EPS * 10.0;
        check!(
            d0.abs() <= e && (d1 - at[at.len() - 1]).abs() <= e * (1.0 + total),
            "domain",
            "{d0}..{d1} must be 0..{}",
            at[at.len() - 1]
        );
        for i in 0..pts.len() {
            check!(
                close(&c.pt(q::<C>(at[i])), &pts[i], e * 4.0),
                "vertex",
                "at {} is {:?} must be {:?}",
                at[i],
                c.pt(at[i]),
                pts[i]
            );
            if i > 0 {
                for f in [0.25, 0.5, 0.875] {
                    let u = at[i - 1] + (at[i] - at[i - 1]) * f;
                    let w = add(&mul(&pts[i - 1], 1.0 - f), &mul(&pts[i], f));
                    check!(
                        close(&c.pt(q::<C>(u)), &w, e * 8.0),
                        "segment",
                        "at {u} is {:?} must be {w:?}",
                        c.pt(u)
                    );
                }
            }
        }
        rec.outcome("polyline");
        Ok(())
    }
    env.par(&seqs, |sq, rec| {
        let t: String = sq.iter().map(|i| i.to_string()).collect();
        for nm in [false, true] {
            rec.case(&format!("poly.3d.{t}.{nm}"), |rec| poly::<C3>(sq, &lat, nm, rec));
            rec.case(&format!("poly.2d.{t}.{nm}"), |rec| poly::<C2>(sq, &lat, nm, rec));
            rec.case(&format!("poly.2f.{t}.{nm}"), |rec| poly::<C2f>(sq, &lat, nm, rec));
        }
    });
}

// ---------------------------------------------------------------- C03

/// Where a parameter can stand relative to the knots: all breaks of the domain and one or two
/// places in each interval.
fn places(m: &MC, per: usize) -> Vec<f64> {
    let b = m.breaks();
    let mut v = vec![];
    for (i, w) in b.windows(2).enumerate() {
        v.push(w[0]);
        let f: &[f64] = if per == 1 {
            if i % 2 == 0 {
                &[0.375]
            } else {
                &[0.75]
            }
        } else {
            &[0.125, 0.625]
        };
        for x in f {
            v.push(w[0] + (w[1] - w[0]) * x);
        }
    }
    v.push(*b.last().unwrap());
    // long curves: both ends, and some of the places between
    let n = v.len();
    if n > 40 {
        let every = n / 9;
        v = v.into_iter().enumerate().filter(|(i, _)| *i < 5 || i + 5 >= n || i % every == 1).map(|x| x.1).collect();
    }
    v
}

pub fn mult(k: &[f64], u: f64) -> usize {
    k.iter().filter(|x| **x == u).count()
}

/// A multiset is admissible if no knot ends up with a multiplicity above p+1 (interior: `imax`).
fn admissible(m: &MC, ks: &[f64], imax: usize) -> bool {
    let (a, b) = m.domain();
    ks.iter().all(|k| {
        let t = mult(&m.knots, *k) + mult(ks, *k);
        if *k == a || *k == b {
            t <= m.p + 1
        } else {
            t <= imax
        }
    })
}

/// The curves up to a degree all of whose knots and places are numbers of single precision.
fn narrow(v: &[Spec], pmax: usize) -> Vec<Spec> {
    let exact = |u: &f64| *u as f32 as f64 == *u;
    v.iter().filter(|s| s.m.p <= pmax && !s.name.starts_with("large") && s.m.knots.iter().all(exact) && places(&s.m, 1).iter().all(exact)).cloned().collect()
}

fn c03_one<C: Cv>(s: &Spec, rec: &mut Rec, maxset: usize, per: usize) {
    let m0 = s.m.clone();
    let pl = places(&m0, per);
    let tolf = |m: &MC| C::EPS * 10.0 * m.scale() * 16.0;
    let sets = multisets(pl.len(), maxset.min(m0.p + 1).max(2));
    for set in &sets {
        let ks: Vec<f64> = set.iter().map(|i| pl[*i]).collect();
        if !admissible(&m0, &ks, m0.p + 1) {
            continue;
        }
        let tag: String = set.iter().map(|i| i.to_string()).collect::<Vec<_>>().join("-");
        rec.case(&format!("refine.{}.{}.{tag}", C::NAME, s.name), |rec| {
            let mut c = mk::<C>(s)?;
            let m = c.model();
            if let Err(e) = c.refine(&ks) {
                fail!("refused", "{e}");
            }
            rec.state(canon(&c.model()));
            rec.outcome("refined");
            after_insert(&c, &m, &ks, tolf(&m), rec)
        });
        // the same knots one by one, in ascending and descending order
        for (o, rev) in [("up", false), ("down", true)] {
            if rev && set.first() == set.last() {
                continue;
            }
            rec.case(&format!("add.{}.{}.{tag}.{o}", C::NAME, s.name), |rec| {
                let mut c = mk::<C>(s)?;
                let m = c.model();
                let mut ord = ks.clone();
                if rev {
                    ord.reverse();
                }
                for k in &ord {
                    if let Err(e) = c.add_knot(*k) {
                        fail!("refused", "{k}: {e}");
                    }
                }
                rec.state(canon(&c.model()));
                rec.outcome("added");
                after_insert(&c, &m, &ks, tolf(&m), rec)
            });
        }
        // the same knots by refinement one by one, and unsorted
        if set.len() > 1 && set.first() != set.last() {
            rec.case(&format!("refine1.{}.{}.{tag}", C::NAME, s.name), |rec| {
                let mut c = mk::<C>(s)?;
                let m = c.model();
                for k in ks.iter().rev() {
                    if let Err(e) = c.refine(&[*k]) {
                        fail!("refused", "{k}: {e}");
                    }
                }
                rec.state(canon(&c.model()));
                after_insert(&c, &m, &ks, tolf(&m), rec)
            });
            rec.case(&format!("unsorted.{}.{}.{tag}", C::NAME, s.name), |rec| {
                let mut c = mk::<C>(s)?;
                let m = c.model();
                let mut r = ks.clone();
                r.reverse();
                if let Err(e) = c.refine(&r) {
                    fail!("refused", "{e}");
                }
                after_insert(&c, &m, &ks, tolf(&m), rec)
            });
        }
    }
    rec.case(&format!("empty.{}.{}", C::NAME, s.name), |rec| {
        let mut c = mk::<C>(s)?;
        let b = c.clone();
        rec.trans(1);
        check!(c.refine(&[]).is_ok() && c == b, "empty", "an empty refinement changes the curve");
        Ok(())
    });
    // outside
    for (t, u) in [
        ("below", m0.knots[0] - 0.5),
        ("above", m0.knots[m0.knots.len() - 1] + 0.5),
    ] {
        rec.case(&format!("add-{t}.{}.{}", C::NAME, s.name), |rec| {
            let mut c = mk::<C>(s)?;
            let b = c.clone();
            rec.trans(1);
            check!(c.add_knot(u).is_err(), "outside", "a knot at {u} is accepted");
            check!(c == b, "changed", "a refused knot changes the curve");
            rec.outcome("refused");
            Ok(())
        });
    }
    rec.case(&format!("clamp.{}.{}", C::NAME, s.name), |rec| {
        let mut c = mk::<C>(s)?;
        let m = c.model();
        if let Err(e) = c.do_clamp() {
            fail!("refused", "{e}");
        }
        let r = c.model();
        rec.state(canon(&r));
        rec.outcome("clamped");
        check!(c.clamped() && r.is_clamped(), "not-clamped", "{:?}", r.knots);
        check!(r.domain() == m.domain(), "domain", "{:?} must be {:?}", r.domain(), m.domain());
        // the part of the result over the domain of the original
        same_shape(&c, &m, &id, &idp, 3, tolf(&m), "clamped", rec)
    });
}

fn after_insert<C: Cv>(c: &C, m: &MC, ks: &[f64], tol: f64, rec: &mut Rec) -> Res {
    let r = c.model();
    let mut want = m.knots.clone();
    want.extend(ks.iter().map(|k| q::<C>(*k)));
    want.sort_by(|a, b| a.partial_cmp(b).unwrap());
    check!(r.knots == want, "knots", "{:?} must be {want:?}", r.knots);
    check!(r.p == m.p, "degree", "{}", r.p);
    same_shape(c, m, &id, &idp, 2, tol, "refined", rec)
}

fn c03(env: &Env) {
    let th = env.thorough();
    let ks = if th { all_knots(4, 3, 4, 2, 2) } else { all_knots(3, 2, 3, 1, 1) };
    let ks: Vec<Knots> = ks.into_iter().filter(|k| !k.name.ends_with('w')).collect();
    let mset = if th { 3 } else { 2 };
    env.note(format!("{} knot vectors; every admissible multiset of up to {} (p+1 for multiplicities) insertion places, with all knots and ends among them; as one refinement, knot by knot both ways, and unsorted; clamping", ks.len(), mset));
    env.assume("insertion inside the domain with a resulting multiplicity of at most degree+1");
    let mut s2 = curves(&ks, &['1', 'g'], &['g'], 2);
    s2.extend(curves(&large(), &['1', 'x'], &['g', 'T'], 2));
    env.par(&s2, |s, rec| c03_one::<C2>(s, rec, if s.name.starts_with("large") { 2 } else { mset }, 1));
    let mut s3 = curves(&ks, &['a'], &['w'], 3);
    s3.extend(curves(&large(), &['a'], &['H', 'F'], 3));
    env.par(&s3, |s, rec| c03_one::<C3>(s, rec, 2, 1));
    let (n2, n3) = (narrow(&s2, 3), narrow(&s3, 3));
    env.note(format!("{} of the curves, whose knots and places are numbers of single precision, also in single precision", n2.len() + n3.len()));
    env.par(&n2, |s, rec| c03_one::<C2f>(s, rec, 2, 1));
    env.par(&n3, |s, rec| c03_one::<C3f>(s, rec, 2, 1));
    // full multiplicity in one go
    env.par(&s3, |s, rec| {
        for (i, u) in places(&s.m, 2).into_iter().enumerate() {
            for n in 1..=(s.m.p + 1) {
                if !admissible(&s.m, &vec![u; n], s.m.p + 1) {
                    continue;
                }
                rec.case(&format!("multi.3d.{}.{i}x{n}", s.name), |rec| {
                    let mut c = mk::<C3>(s)?;
                    let m = c.model();
                    if let Err(e) = c.refine(&vec![u; n]) {
                        fail!("refused", "{e}");
                    }
                    rec.state(canon(&c.model()));
                    after_insert(&c, &m, &vec![u; n], 1e-8 * m.scale(), rec)
                });
                rec.case(&format!("multi-add.3d.{}.{i}x{n}", s.name), |rec| {
                    let mut c = mk::<C3>(s)?;
                    let m = c.model();
                    for _ in 0..n {
                        if let Err(e) = c.add_knot(u) {
                            fail!("refused", "{e}");
                        }
                    }
                    rec.state(canon(&c.model()));
                    after_insert(&c, &m, &vec![u; n], 1e-8 * m.scale(), rec)
                });
            }
        }
    });
}

// ---------------------------------------------------------------- C04

fn max_dev<C: Cv>(c: &C, m: &MC, per: usize) -> f64 {
    let mut d: f64 = 0.0;
    for u in m.params(per) {
        d = d.max(dist(&c.pt(q::<C>(u)), &m.pt(q::<C>(u))));
    }
    d
}

fn c04_one<C: Cv>(s: &Spec, rec: &mut Rec) {
    let m0 = s.m.clone();
    let (a, b) = m0.domain();
    // insert n copies, then remove
    for (i, u) in places(&m0, 1).into_iter().enumerate() {
        if u == a || u == b {
            continue;
        }
        let m = mult(&m0.knots, u);
        for n in 1..=m0.p {
            if m + n > m0.p {
                break;
            }
            for by in ["refine", "add"] {
                rec.case(&format!("undo.{}.{}.{i}x{n}.{by}", C::NAME, s.name), |rec| {
                    let c0 = mk::<C>(s)?;
                    let mut c = c0.clone();
                    if by == "refine" {
                        c.refine(&vec![u; n]).map_err(|e| Fail { kind: "refine".into(), detail: e })?;
                    } else {
                        for _ in 0..n {
                            c.add_knot(u).map_err(|e| Fail { kind: "add".into(), detail: e })?;
                        }
                    }
                    rec.state(canon(&c.model()));
                    let r = c.remove_knot(u, None);
                    rec.trans(1);
                    let t = match r {
                        Ok(t) => t,
                        Err(e) => fail!("refused", "removing {n} inserted knots at {u} (had {m}): {e}"),
                    };
                    check!(t >= n, "kept", "{t} of {n} inserted knots at {u} (had {m}) removed");
                    let r = c.model();
                    rec.state(canon(&r));
                    rec.outcome(&format!("removed{t}"));
                    // an original knot may happen to be removable, too
                    let mut want = c0.model().knots;
                    for _ in n..t {
                        let p = want.iter().position(|k| *k == u);
                        check!(p.is_some(), "count", "{t} removed of {}", n + m);
                        want.remove(p.unwrap());
                    }
                    check!(r.knots == want, "knots", "{:?} must be {want:?}", r.knots);
                    same_shape(&c, &c0.model(), &id, &idp, 3, 1e-5 * m0.scale() * 8.0, "removed", rec)
                });
            }
        }
    }
    // remove every knot there is, under several tolerances
    for (i, u) in m0.breaks().into_iter().enumerate() {
        for (tn, tol) in [("d", None), ("tiny", Some(1e-9)), ("mid", Some(0.05)), ("big", Some(0.75))] {
            rec.case(&format!("try.{}.{}.{i}.{tn}", C::NAME, s.name), |rec| {
                let c0 = mk::<C>(s)?;
                let mut c = c0.clone();
                let r = c.remove_knot(u, tol);
                rec.trans(1);
                let m = c0.model();
                match r {
                    Err(_) => {
                        rec.outcome("error");
                        check!(c == c0, "changed", "a failed removal changes the curve");
                    }
                    Ok(0) => {
                        rec.outcome("none");
                        check!(c == c0, "changed", "removing nothing changes the curve");
                    }
                    Ok(t) => {
                        rec.outcome("removed");
                        let r = c.model();
                        rec.state(canon(&r));
                        let mut want = m.knots.clone();
                        for _ in 0..t {
                            let p = want.iter().position(|k| *k == u);
                            check!(p.is_some(), "count", "{t} removed of {}", mult(&m.knots, u));
                            want.remove(p.unwrap());
                        }
                        check!(r.knots == want, "knots", "{:?} must be {want:?}", r.knots);
                        if let Err(e) = r.well_formed() {
                            fail!("malformed", "{e}");
                        }
                        let tl = tol.unwrap_or(1e-6);
                        let d = max_dev(&c, &m, 12);
                        // the tolerance is on homogeneous points; weights here are all one
                        check!(d <= 4.0 * t as f64 * tl + 1e-9, "deviation", "{t} knots removed at {u} with tolerance {tl} move the curve by {d}");
                    }
                }
                Ok(())
            });
        }
    }
    for (t, u) in [("between", a + (b - a) * 0.3717), ("outside", b + 1.0)] {
        rec.case(&format!("missing-{t}.{}.{}", C::NAME, s.name), |rec| {
            let c0 = mk::<C>(s)?;
            let mut c = c0.clone();
            rec.trans(1);
            check!(c.remove_knot(u, None).is_err(), "missing", "removing a knot that is not there succeeds");
            check!(c == c0, "changed", "curve changed");
            Ok(())
        });
    }
}

fn c04(env: &Env) {
    let th = env.thorough();
    let (pm, parts, sum) = if th { (4, 3, 5) } else { (4, 2, 3) };
    let mut ks = vec![];
    for p in 1..=pm {
        ks.extend(clamped(p, parts, sum));
        ks.extend(repeated_ends(p).into_iter().filter(|k| !k.name.contains('o')));
        if th {
            ks.extend(unclamped(p, 1, 2));
        }
    }
    let ks: Vec<Knots> = ks.into_iter().filter(|k| !k.name.ends_with('w')).collect();
    env.note(format!("{} knot vectors; every interior place (knots included), 1..=p inserted copies by both insertion operations, then removal; removal of every existing knot under 4 tolerances", ks.len()));
    let mut s2 = curves(&ks, &['1'], if th { &['g', 'l', 'w', 'k'] } else { &['g', 'w'] }, 2);
    s2.extend(curves(&large(), &['1'], &['g', 'k'], 2));
    env.par(&s2, |s, rec| {
        c04_one::<C2>(s, rec);
    });
    // rational ones: only undoing
    let mut s3 = curves(&ks, &['m'], &['g'], 3);
    s3.extend(curves(&large(), &['m'], &['g'], 3));
    env.par(&s3, |s, rec| {
        let (a, b) = s.m.domain();
        for (i, u) in places(&s.m, 1).into_iter().enumerate() {
            let m = mult(&s.m.knots, u);
            if u == a || u == b {
                continue;
            }
            for n in 1..=s.m.p {
                if m + n > s.m.p {
                    break;
                }
                rec.case(&format!("rundo.3d.{}.{i}x{n}", s.name), |rec| {
                    let c0 = mk::<C3>(s)?;
                    let mut c = c0.clone();
                    c.refine(&vec![u; n]).map_err(|e| Fail { kind: "refine".into(), detail: e })?;
                    let t = c.remove_knot(u, None).map_err(|e| Fail { kind: "refused".into(), detail: e })?;
                    rec.trans(1);
                    rec.state(canon(&c.model()));
                    check!(t >= n, "kept", "{t} of {n} inserted knots at {u} (had {m}) removed");
                    check!(t > n || c.model().knots == c0.model().knots, "knots", "{:?}", c.model().knots);
                    same_shape(&c, &c0.model(), &id, &idp, 3, 1e-4 * s.m.scale(), "removed", rec)
                });
            }
        }
    });
}

// ---------------------------------------------------------------- C05

fn c05_one<C: Cv>(s: &Spec, up: usize, rec: &mut Rec) {
    for d in 0..=(s.m.p + up) {
        rec.case(&format!("{}.{}.to{d}", C::NAME, s.name), |rec| {
            let c0 = mk::<C>(s)?;
            let m = c0.model();
            let c = match c0.elevate(d) {
                Ok(c) => c,
                Err(e) => fail!("refused", "{e}"),
            };
            rec.trans(1);
            if d <= m.p {
                check!(c == c0, "lowered", "asking for degree {d} of a curve of degree {} changes it", m.p);
                return Ok(());
            }
            let r = c.model();
            rec.state(canon(&r));
            rec.outcome(&format!("by{}", d - m.p));
            check!(r.p == d, "degree", "{} must be {d}", r.p);
            if let Err(e) = r.well_formed() {
                fail!("malformed", "{e}");
            }
            let mut want = vec![];
            let mut last = f64::NAN;
            let (a, b) = m.domain();
            for k in &m.knots {
                if *k != last && a <= *k && *k <= b {
                    let now = if *k == a || *k == b { m.p + 1 } else { mult(&m.knots, *k) };
                    for _ in 0..(now + d - m.p) {
                        want.push(*k);
                    }
                    last = *k;
                }
            }
            check!(r.knots == want, "knots", "{:?} must be {want:?}", r.knots);
            let wmin = m.cps.iter().map(|c| c[C::DIM]).fold(f64::INFINITY, f64::min);
            same_shape(&c, &m, &id, &idp, d.max(3), C::EPS * 100.0 * m.scale() / wmin, "elevated", rec)
        });
    }
}

fn c05(env: &Env) {
    let th = env.thorough();
    let (pm, parts, sum, up) = if th { (5, 4, 6, 5) } else { (4, 3, 4, 3) };
    let mut ks = vec![];
    for p in 1..=pm {
        ks.extend(clamped(p, parts, sum));
        ks.extend(unclamped(p, 2, 3));
        ks.extend(repeated_ends(p));
    }
    for p in pm + 1..=if th { 9 } else { 7 } {
        ks.extend(clamped(p, 3, if th { p } else { 3 }));
    }
    // ill-conditioned: intervals of very different lengths at high degrees
    ks.retain(|k| k.p < 5 || !k.name.contains(".zi"));
    env.note(format!("{} knot vectors, clamped (every interior multiplicity pattern up to a total of {sum}; degrees up to 7) and not, x 3 weight patterns, to every degree from 0 to {up} above", ks.len()));
    let mut s3 = curves(&ks, &WEIGHTS, &['g'], 3);
    s3.extend(curves(&large(), &['1', 'x'], &['g', 'H', 'T'], 3));
    env.par(&s3, |s, rec| c05_one::<C3>(s, up, rec));
    let n3 = narrow(&s3, 3);
    env.note(format!("{} of the curves of degree up to 3 also in single precision, to every degree up to 2 above", n3.len()));
    env.par(&n3, |s, rec| c05_one::<C3f>(s, 2, rec));
    let s2 = curves(&ks, &['1', 'a'], &['w'], 2);
    env.par(&s2, |s, rec| c05_one::<C2>(s, up, rec));
}

// ---------------------------------------------------------------- C06

fn c06_one<C: Cv>(s: &Spec, rec: &mut Rec) {
    rec.case(&format!("{}.{}", C::NAME, s.name), |rec| {
        let c = mk::<C>(s)?;
        let m = c.model();
        let v = match c.beziers() {
            Ok(v) => v,
            Err(e) => fail!("refused", "{e}"),
        };
        rec.trans(1);
        let b = m.breaks();
        check!(v.len() == b.len() - 1, "count", "{} segments of {} intervals {b:?}", v.len(), b.len() - 1);
        rec.outcome(&format!("{}", v.len()));
        for (i, sgm) in v.iter().enumerate() {
            let sm = sgm.model();
            rec.state(canon(&sm));
            check!(sm.p == m.p && sm.cps.len() == m.p + 1, "segment", "degree {} with {} control points", sm.p, sm.cps.len());
            let mut want = vec![b[i]; m.p + 1];
            want.extend(vec![b[i + 1]; m.p + 1]);
            check!(sm.knots == want, "knots", "segment {i}: {:?} must be {want:?}", sm.knots);
            same_shape(sgm, &m, &id, &idp, m.p + 1, C::EPS * 40.0 * m.scale(), "segment", rec)?;
        }
        Ok(())
    });
}

fn c06(env: &Env) {
    let th = env.thorough();
    let ks = if th { all_knots(5, 4, 6, 2, 3) } else { all_knots(4, 3, 5, 2, 2) };
    env.note(format!("{} knot vectors, clamped and unclamped, x weights, 2D and 3D", ks.len()));
    let mut s3 = curves(&ks, &WEIGHTS, &['g'], 3);
    s3.extend(curves(&large(), &['1', 'x'], &['g', 'H', 'T', 'F'], 3));
    env.par(&s3, |s, rec| c06_one::<C3>(s, rec));
    let n3 = narrow(&s3, 4);
    env.note(format!("{} of the curves also in single precision", n3.len()));
    env.par(&n3, |s, rec| c06_one::<C3f>(s, rec));
    let s2 = curves(&ks, &['1', 'a'], &['w'], 2);
    env.par(&s2, |s, rec| c06_one::<C2>(s, rec));
}

// ---------------------------------------------------------------- C07

fn piece<C: Cv>(c: &C, m: &MC, a: f64, b: f64, tol: f64, what: &str, rec: &mut Rec) -> Res {
    let r = c.model();
    rec.state(canon(&r));
    check!(r.p == m.p, "degree", "{what}: {}", r.p);
    check!(c.dom() == (a, b), "domain", "{what}: {:?} must be {:?}", c.dom(), (a, b));
    same_shape(c, m, &id, &idp, 3, tol, what, rec)
}

fn c07_one<C: Cv>(s: &Spec, rec: &mut Rec, per: usize) {
    let m = s.m.clone();
    let (a, b) = m.domain();
    let tol = C::EPS * 100.0 * m.scale();
    let pl: Vec<f64> = places(&m, per).into_iter().filter(|u| *u != a && *u != b).collect();
    for (i, u) in pl.iter().enumerate() {
        rec.case(&format!("split.{}.{}.{i}", C::NAME, s.name), |rec| {
            let c = mk::<C>(s)?;
            let (l, r) = match c.split(*u) {
                Ok(x) => x,
                Err(e) => fail!("refused", "at {u}: {e}"),
            };
            rec.trans(1);
            rec.outcome(if m.knots.contains(u) { "split-knot" } else { "split-inside" });
            let m = c.model();
            piece(&l, &m, a, *u, tol, "left", rec)?;
            piece(&r, &m, *u, b, tol, "right", rec)
        });
    }
    // trims: all ordered pairs, ends included on the outside of the range
    let all: Vec<f64> = places(&m, per);
    for (i, x) in all.iter().enumerate() {
        for (j, y) in all.iter().enumerate() {
            if i == j {
                continue;
            }
            if i > j && (*x == b || *y == a) {
                // the outside of a range that reaches an end has an empty piece
                continue;
            }
            rec.case(&format!("trim.{}.{}.{i}-{j}", C::NAME, s.name), |rec| {
                let c = mk::<C>(s)?;
                let m = c.model();
                let r = match c.trim(*x, *y) {
                    Ok(r) => r,
                    Err(e) => fail!("refused", "{x}..{y}: {e}"),
                };
                rec.trans(1);
                if i < j {
                    rec.outcome("trim-inside");
                    check!(r.len() == 1, "pieces", "{} pieces", r.len());
                    piece(&r[0], &m, *x, *y, tol, "trimmed", rec)
                } else {
                    rec.outcome("trim-outside");
                    check!(r.len() == 2, "pieces", "{} pieces", r.len());
                    piece(&r[0], &m, *x, b, tol, "tail", rec)?;
                    piece(&r[1], &m, a, *y, tol, "head", rec)
                }
            });
        }
    }
}

fn c07(env: &Env) {
    let th = env.thorough();
    let ks = if th { all_knots(4, 3, 4, 2, 2) } else { all_knots(3, 2, 3, 1, 2) };
    let ks: Vec<Knots> = ks
        .into_iter()
        .filter(|k| !k.name.ends_with('w'))
        .collect();
    env.note(format!("{} knot vectors, clamped and unclamped; split at every interior place (knots of every multiplicity included), trim to every ordered pair of places; nested splits to depth 2 (thorough 3)", ks.len()));
    let mut s2 = curves(&ks, &['1', 'g'], &['g'], 2);
    s2.extend(curves(&large(), &['1', 'x'], &['g', 'T'], 2));
    env.par(&s2, |s, rec| c07_one::<C2>(s, rec, 1));
    let mut s3 = curves(&ks, &['a'], &['w'], 3);
    s3.extend(curves(&large(), &['a'], &['H', 'F'], 3));
    env.par(&s3, |s, rec| c07_one::<C3>(s, rec, 1));
    let (n2, n3) = (narrow(&s2, 3), narrow(&s3, 3));
    env.note(format!("{} of the curves, whose knots and places are numbers of single precision, also in single precision", n2.len() + n3.len()));
    env.par(&n2, |s, rec| c07_one::<C2f>(s, rec, 1));
    env.par(&n3, |s, rec| c07_one::<C3f>(s, rec, 1));
    // nested splits: pieces of pieces
    let depth = if th { 3 } else { 2 };
    env.par(&s3, |s, rec| {
        rec.case(&format!("nested.3d.{}", s.name), |rec| {
            let c = mk::<C3>(s)?;
            let m = c.model();
            let tol = 1e-7 * m.scale();
            let mut level = vec![c];
            for d in 0..depth {
                let mut next = vec![];
                for p in &level {
                    let (a, b) = p.dom();
                    let mut us: Vec<f64> = places(&p.model(), 1)
                        .into_iter()
                        .filter(|u| *u > a && *u < b)
                        .collect();
                    if d > 0 {
                        us.truncate(3);
                    }
                    for u in us {
                        let (l, r) = match p.split(u) {
                            Ok(x) => x,
                            Err(e) => fail!("refused", "level {d} at {u}: {e}"),
                        };
                        rec.trans(1);
                        piece(&l, &m, a, u, tol, "left", rec)?;
                        piece(&r, &m, u, b, tol, "right", rec)?;
                        next.push(l);
                        next.push(r);
                    }
                }
                level = next;
            }
            rec.outcome("nested");
            Ok(())
        });
    });
}

// ---------------------------------------------------------------- C08

pub fn mats(dim: usize) -> Vec<(&'static str, Vec<Vec<f64>>)> {
    let idm: Vec<Vec<f64>> = (0..=dim)
        .map(|i| (0..=dim).map(|j| if i == j { 1.0 } else { 0.0 }).collect())
        .collect();
    let mut tr = idm.clone();
    for i in 0..dim {
        tr[i][dim] = [3.0, -1.5, 0.25][i];
    }
    let mut rot = idm.clone();
    rot[0][0] = 0.0;
    rot[0][1] = -1.0;
    rot[1][0] = 1.0;
    rot[1][1] = 0.0;
    let mut sc = idm.clone();
    for i in 0..dim {
        sc[i][i] = [2.0, 0.5, -1.0][i];
    }
    let mut sh = idm.clone();
    sh[0][1] = 0.5;
    sh[1][0] = -0.25;
    sh[0][dim] = 1.0;
    sh[dim - 1][dim] = -2.0;
    vec![("id", idm), ("move", tr), ("turn", rot), ("scale", sc), ("shear", sh)]
}

fn mat_mul(a: &[Vec<f64>], b: &[Vec<f64>]) -> Vec<Vec<f64>> {
    let n = a.len();
    (0..n)
        .map(|i| (0..n).map(|j| (0..n).map(|k| a[i][k] * b[k][j]).sum()).collect())
        .collect()
}

fn c08_one<C: Cv>(s: &Spec, rec: &mut Rec) {
    let tol = C::EPS * 40.0 * s.m.scale();
    rec.case(&format!("invert.{}.{}", C::NAME, s.name), |rec| {
        let c = mk::<C>(s)?;
        let m = c.model();
        let r = c.inv();
        rec.trans(2);
        rec.state(canon(&r.model()));
        let (a, b) = m.domain();
        let (x, y) = r.dom();
        let w = (b - a).abs() + a.abs();
        check!(((y - x) - (b - a)).abs() <= C::EPS * w, "domain", "{x}..{y} must be as long as {a}..{b}");
        if m.is_clamped() {
            check!((x - a).abs() <= C::EPS * w, "domain", "{x}..{y} must be {a}..{b}");
        }
        same_shape(&r, &m, &|u| (b - (u - x)).max(a).min(b), &idp, 3, tol * 4.0, "inverse", rec)?;
        // the knots are mirrored
        let rk = r.model().knots;
        let n = rk.len();
        for i in 0..n {
            let want = x + (b - m.knots[n - 1 - i]);
            check!((rk[i] - want).abs() <= C::EPS * 10.0 * w, "knots", "knot {i}: {} must be {want}", rk[i]);
        }
        let rr = r.inv();
        let (x2, _) = rr.dom();
        same_shape(&rr, &m, &|u| (a + (u - x2)).max(a).min(b), &idp, 3, tol * 4.0, "twice", rec)?;
        rec.outcome("inverse");
        Ok(())
    });
    rec.case(&format!("normalize.{}.{}", C::NAME, s.name), |rec| {
        let mut c = mk::<C>(s)?;
        let m = c.model();
        c.normalize();
        rec.trans(1);
        rec.state(canon(&c.model()));
        let (a, b) = m.domain();
        let (x, y) = c.dom();
        check!(x.abs() <= C::EPS && (y - 1.0).abs() <= C::EPS, "domain", "{x}..{y}");
        same_shape(&c, &m, &|u| (a + u * (b - a)).max(a).min(b), &idp, 3, tol * 8.0, "normalized", rec)
    });
    let ms = mats(C::DIM);
    for (n1, a) in &ms {
        for (n2, b) in &ms {
            rec.case(&format!("affine.{}.{}.{n1}-{n2}", C::NAME, s.name), |rec| {
                let c = mk::<C>(s)?;
                let m = c.model();
                let t = c.transform_by(a).transform_by(b);
                rec.trans(2);
                rec.state(canon(&t.model()));
                check!(t.model().knots == m.knots && t.deg() == m.p, "knots", "knots or degree changed");
                check!(close(&t.wts(), &c.wts(), C::EPS), "weights", "{:?} must be {:?}", t.wts(), c.wts());
                let ab = mat_mul(b, a);
                same_shape(&t, &m, &id, &|p| affine(&ab, &p), 2, tol * 8.0, "transformed", rec)
            });
        }
    }
}

fn c08(env: &Env) {
    let th = env.thorough();
    let ks = if th { all_knots(4, 3, 4, 2, 2) } else { all_knots(3, 2, 3, 1, 2) };
    env.note(format!("{} knot vectors x weights; reversal once and twice, normalisation, all products of two of five affine maps, dimension raising, casts", ks.len()));
    env.assume("reversal of a curve whose two ends are not clamped alike may translate its domain (the first knot is kept)");
    let mut s2 = curves(&ks, &WEIGHTS, &['g'], 2);
    s2.extend(curves(&large(), &['1', 'x'], &['g', 'T'], 2));
    env.par(&s2, |s, rec| c08_one::<C2>(s, rec));
    let mut s3 = curves(&ks, &['1', 'a'], &['w'], 3);
    s3.extend(curves(&large(), &['a'], &['H', 'F'], 3));
    env.par(&s3, |s, rec| c08_one::<C3>(s, rec));
    let n3 = narrow(&s3, 3);
    env.note(format!("{} of the curves also in single precision", n3.len()));
    env.par(&n3, |s, rec| c08_one::<C3f>(s, rec));
    env.par(&s2, |s, rec| {
        rec.case(&format!("raise.{}", s.name), |rec| {
            let c = mk::<C2>(s)?;
            let m = c.model();
            let t: C3 = c.elevate_dimension();
            rec.trans(1);
            rec.state(canon(&t.model()));
            check!(t.model().knots == m.knots && t.deg() == m.p, "knots", "knots or degree changed");
            same_shape(
                &t,
                &m,
                &id,
                &|mut p| {
                    p.push(0.0);
                    p
                },
                3,
                1e-8 * m.scale(),
                "raised",
                rec,
            )?;
            // dehomogenisation: a curve of one dimension less through the projected control points
            let d = c.dehomogenize();
            let want: Vec<Vec<f64>> = c.dehom();
            for (p, w) in d.control_points().iter().zip(&want) {
                check!(close(p.coords.as_slice(), w, 1e-12), "dehomogenize", "{p:?} must be {w:?}");
            }
            Ok(())
        });
        rec.case(&format!("cast.{}", s.name), |rec| {
            let c = mk::<C2>(s)?;
            let m = c.model();
            let f: C2f = C2f::make(m.p, &m.cps, &m.knots).map_err(|e| Fail { kind: "construct".into(), detail: e })?;
            let up: C2 = f.cast::<f64>();
            rec.trans(1);
            rec.state(canon(&up.model()));
            check!(up.model().knots == f.model().knots && up.model().cps == f.model().cps && up.deg() == m.p, "cast", "casting up changes values");
            same_shape(&up, &f.model(), &id, &idp, 2, 1e-8 * m.scale(), "cast", rec)
        });
    });
}

// ---------------------------------------------------------------- C09

#[derive(Clone)]
struct St<C: Cv> {
    c: C,
    /// parameter of c -> parameter of the original: alpha*u + beta
    al: f64,
    be: f64,
    mat: Vec<Vec<f64>>,
    hist: Vec<&'static str>,
}

const OPS: [&str; 15] = [
    "refine", "add", "refine2", "remove", "elevate", "left", "right", "trim", "invert", "normalize",
    "clamp", "affine", "json", "first", "last",
];

fn apply<C: Cv>(s: &St<C>, op: &'static str) -> Result<Option<St<C>>, Fail> {
    let mut t = s.clone();
    t.hist.push(op);
    let (a, b) = s.c.dom();
    let at = |f: f64| a + (b - a) * f;
    let e = |e: String| Fail {
        kind: format!("refused-{op}"),
        detail: format!("after {:?}: {e}", t.hist),
    };
    let full = |c: &C, u: f64, n: usize| mult(&c.model().knots, u) + n > c.deg();
    match op {
        "refine" => {
            if full(&s.c, at(0.375), 1) {
                return Ok(None);
            }
            t.c.refine(&[at(0.375)]).map_err(e)?
        }
        "add" => {
            if full(&s.c, at(0.375), 1) {
                return Ok(None);
            }
            t.c.add_knot(at(0.375)).map_err(e)?
        }
        "refine2" => {
            if full(&s.c, at(0.25), 1) || full(&s.c, at(0.5), 2) {
                return Ok(None);
            }
            t.c.refine(&[at(0.25), at(0.5), at(0.5)]).map_err(e)?
        }
        "remove" => {
            let u = at(0.375);
            if !s.c.model().knots.contains(&u) || mult(&s.c.model().knots, u) > s.c.deg() {
                return Ok(None);
            }
            let _ = t.c.remove_knot(u, Some(1e-9));
        }
        "elevate" => {
            if s.c.deg() >= 5 {
                return Ok(None);
            }
            t.c = s.c.elevate(s.c.deg() + 1).map_err(e)?
        }
        "left" => t.c = s.c.split(at(0.5)).map_err(e)?.0,
        "right" => t.c = s.c.split(at(0.5)).map_err(e)?.1,
        "trim" => t.c = s.c.trim(at(0.25), at(0.75)).map_err(e)?.remove(0),
        "invert" => {
            t.c = s.c.inv();
            let (x, y) = t.c.dom();
            // v in x..y is  a + b' where v=x is b and v=y is a
            let k = (a - b) / (y - x);
            // u = k*(v-x)+b
            t.be = s.al * (b - k * x) + s.be;
            t.al = s.al * k;
        }
        "normalize" => {
            t.c.normalize();
            t.be = s.al * a + s.be;
            t.al = s.al * (b - a);
        }
        "clamp" => t.c.do_clamp().map_err(e)?,
        "affine" => {
            let m = mats(C::DIM).pop().unwrap().1;
            t.c = s.c.transform_by(&m);
            t.mat = mat_mul(&m, &s.mat);
        }
        "json" => {
            t.c = s.c.json().map_err(e)?;
            let (x, y) = (t.c.model(), s.c.model());
            let same = x.p == y.p
                && close(&x.knots, &y.knots, 1e-14 * (1.0 + y.knots[y.knots.len() - 1].abs()))
                && close(&x.cps.concat(), &y.cps.concat(), 1e-12 * y.scale());
            if !same {
                return Err(Fail {
                    kind: "json".into(),
                    detail: format!("after {:?}: a round trip changes the curve", t.hist),
                });
            }
        }
        "first" => t.c = s.c.beziers().map_err(e)?.remove(0),
        "last" => t.c = s.c.beziers().map_err(e)?.pop().unwrap(),
        _ => unreachable!(),
    }
    Ok(Some(t))
}

fn c09_from<C: Cv>(s: &Spec, depth: usize, rec: &mut Rec) {
    // the first operation is part of the case id so that cases stay small
    for first in OPS {
        rec.case(&format!("{}.{}.{first}", C::NAME, s.name), |rec| {
            let c = mk::<C>(s)?;
            let orig = c.model();
            let (oa, ob) = orig.domain();
            let idm = mats(C::DIM).remove(0).1;
            let root = St {
                c,
                al: 1.0,
                be: 0.0,
                mat: idm,
                hist: vec![],
            };
            let mut seen: HashSet<u64> = HashSet::new();
            let mut level = vec![root];
            for d in 0..depth {
                let mut next = vec![];
                for st in &level {
                    for op in OPS {
                        if d == 0 && op != first {
                            continue;
                        }
                        let r = guarded(|| apply(st, op));
                        rec.trans(1);
                        let t = match r {
                            Err(p) => fail!(format!("panic-{op}"), "after {:?} {op}: {p}", st.hist),
                            Ok(Err(f)) => return Err(f),
                            Ok(Ok(None)) => continue,
                            Ok(Ok(Some(t))) => t,
                        };
                        rec.outcome(op);
                        let h = Canon::new().u(canon(&t.c.model())).f(t.al).f(t.be).fs(&t.mat.concat()).get();
                        rec.state(h);
                        if !seen.insert(h) {
                            continue;
                        }
                        let scale = orig.scale() * t.mat.iter().flatten().fold(1.0, |x: f64, y| x.max(y.abs())) * 4.0;
                        let map = |u: f64| (t.al * u + t.be).max(oa).min(ob);
                        let xf = |p: Vec<f64>| affine(&t.mat, &p);
                        let r = guarded(|| same_shape(&t.c, &orig, &map, &xf, 2, 1e-7 * scale, &format!("after {:?}", t.hist), rec));
                        match r {
                            Err(p) => fail!("panic-eval", "after {:?}: {p}", t.hist),
                            Ok(x) => x?,
                        }
                        next.push(t);
                    }
                }
                level = next;
            }
            Ok(())
        });
    }
}

fn c09(env: &Env) {
    let th = env.thorough();
    // domains of length 4 with dyadic knots, so that every argument is exact
    let dy = |p: usize, name: &str, interior: &[f64], l: End, r: End| -> Knots {
        let mut k: Vec<f64> = vec![];
        for i in (1..=p).rev() {
            k.push(match l {
                End::Clamped | End::Over => 0.0,
                End::Floating | End::Inner => -(i as f64) * 0.5,
                End::Half => -((i - 1) as f64) * 0.5,
            });
        }
        k.push(0.0);
        k.extend(interior);
        k.push(4.0);
        for i in 1..=p {
            k.push(match r {
                End::Clamped | End::Over => 4.0,
                End::Floating | End::Inner => 4.0 + i as f64,
                End::Half => 4.0 + (i - 1) as f64,
            });
        }
        Knots {
            name: format!("p{p}.{name}.{}{}", l.tag(), r.tag()),
            p,
            k,
        }
    };
    let mut ks = vec![];
    use End::*;
    for p in 1..=3usize {
        ks.push(dy(p, "bez", &[], Clamped, Clamped));
        ks.push(dy(p, "one", &[2.0], Clamped, Clamped));
        ks.push(dy(p, "uneven", &[0.5, 1.5], Clamped, Clamped));
        ks.push(dy(p, "unif", &[1.0, 2.0, 3.0], Clamped, Clamped));
        if p > 1 {
            ks.push(dy(p, "full", &vec![2.0; p], Clamped, Clamped));
            ks.push(dy(p, "dbl", &[1.0, 1.5, 1.5], Clamped, Clamped));
        }
        ks.push(dy(p, "float", &[1.0, 3.0], Floating, Floating));
        ks.push(dy(p, "left", &[1.5], Floating, Clamped));
        if p > 1 {
            ks.push(dy(p, "half", &[2.0], Half, Floating));
        }
    }
    let depth = if th { 4 } else { 3 };
    env.note(format!("{} initial knot vectors x weights; every sequence of {} operations ({}) of length <= {depth}, states merged by canonical form", ks.len(), OPS.len(), OPS.join(" ")));
    env.assume("knots and arguments are dyadic, so that equal parameters are equal bit by bit");
    env.assume("'remove' is asked only where the knot is in the curve, 'elevate' only up to degree 6, insertions up to multiplicity degree (curves stay continuous)");
    let s2 = curves(&ks, &['1', 'a'], &['g'], 2);
    env.par(&s2, |s, rec| c09_from::<C2>(s, depth, rec));
    let s3 = curves(&ks, &['m'], &['w'], 3);
    env.par(&s3, |s, rec| c09_from::<C3>(s, depth - if th { 0 } else { 1 }, rec));
}
