//! N01: knot vectors and basis functions.

use crate::core::*;
use crate::curves::*;
use crate::gen::*;
use crate::model::*;
use crate::{check, fail};
use curvo::prelude::*;

pub fn table() -> Vec<(&'static str, fn(&Env))> {
    vec![("N01", n01)]
}

/// A curve whose homogeneous coordinates are the basis functions.
fn basis_model(k: &Knots) -> MC {
    let n = k.n();
    let cps = (0..n).map(|i| (0..=n).map(|j| if i == j || j == n { 1.0 } else { 0.0 }).collect()).collect();
    MC { p: k.p, knots: k.k.clone(), cps }
}

/// All the basis functions from those of one interval.
fn spread(i: usize, p: usize, n: usize, row: &[f64]) -> Vec<f64> {
    let mut v = vec![0.0; n];
    for (j, x) in row.iter().enumerate() {
        v[i - p + j] = *x;
    }
    v
}

fn distinct(k: &[f64]) -> Vec<(f64, usize)> {
    let mut v: Vec<(f64, usize)> = vec![];
    for x in k {
        match v.last_mut() {
            Some(l) if l.0 == *x => l.1 += 1,
            _ => v.push((*x, 1)),
        }
    }
    v
}

fn facts(k: &[f64], p: usize, kv: &KnotVector<f64>) -> Res {
    check!(kv.len() == k.len() && kv.to_vec() == k && kv.as_slice() == k && kv.iter().cloned().collect::<Vec<_>>() == k, "knots", "{:?} must be {k:?}", kv.to_vec());
    check!(!kv.is_empty() && kv.first() == k[0] && kv.last() == k[k.len() - 1], "ends", "{} {}", kv.first(), kv.last());
    check!((0..k.len()).all(|i| kv[i] == k[i]), "index", "indexing");
    let d = distinct(k);
    let m = kv.multiplicity();
    let got: Vec<(f64, usize)> = m.iter().map(|x| (*x.knot(), x.multiplicity())).collect();
    check!(got == d, "multiplicity", "{got:?} must be {d:?}");
    if k.len() > 2 * p {
        let dom = (k[p], k[k.len() - 1 - p]);
        check!(kv.domain(p) == dom, "domain", "{:?} must be {dom:?}", kv.domain(p));
        for u in [dom.0 - 1.0, dom.0, 0.5 * (dom.0 + dom.1), dom.1, dom.1 + 1e-3] {
            let want = u.max(dom.0).min(dom.1);
            check!(kv.clamp(p, u) == want, "clamp", "{u} is clamped to {} in {dom:?}", kv.clamp(p, u));
        }
    }
    let c = d[0].1 > p && d[d.len() - 1].1 > p;
    check!(kv.is_clamped(p) == c, "clamped", "is_clamped is {} for degree {p} of {k:?}", !c);
    let mut us: Vec<f64> = d.iter().map(|x| x.0).collect();
    us.extend(d.windows(2).map(|w| 0.5 * (w[0].0 + w[1].0)));
    us.extend([k[0] - 1.0, k[k.len() - 1] + 1.0]);
    for u in us {
        let want = k.iter().filter(|x| **x <= u).count().checked_sub(1);
        check!(kv.floor(u) == want, "floor", "{:?} for {u} in {k:?}, must be {want:?}", kv.floor(u));
    }
    Ok(())
}

fn one(k: &Knots, dense: usize, rec: &mut Rec) -> Res {
    let p = k.p;
    let n = k.n();
    let kv = KnotVector::new(k.k.clone());
    facts(&k.k, p, &kv)?;
    let m = basis_model(k);
    rec.state(canon(&m));
    let (a, b) = m.domain();
    let br = m.breaks();
    let gap = br.windows(2).map(|w| w[1] - w[0]).fold(f64::INFINITY, f64::min);
    let um = 1.0 + a.abs().max(b.abs()) / gap;
    let tol = |d: i32| 1e-14 * um * (4.0 * p as f64 / gap).powi(d) * 4.0;
    let mut us = m.params(dense);
    // just beside the knots
    for x in &br {
        for s in [-1.0, 1.0] {
            let u = x + s * gap * 1e-3;
            if a < u && u < b {
                us.push(u);
            }
        }
    }
    for u in us {
        rec.trans(1);
        let i = kv.find_knot_span_index(n - 1, p, u);
        let side = if u == b { Side::Left } else { Side::Right };
        let want = span(&k.k, p, n, u, side);
        check!(i == want, "span", "interval {i} for {u} in {:?}, must be {want}", k.k);
        if u < b {
            let l = kv.find_knot_span_linear(n, p, u);
            check!(l == want, "linear", "interval {l} for {u} in {:?}, must be {want}", k.k);
        }
        let bs = kv.basis_functions(i, u, p);
        check!(bs.len() == p + 1, "basis", "{} functions", bs.len());
        check!(bs.iter().all(|x| *x >= -1e-14 && x.is_finite()), "negative", "{bs:?} at {u}");
        check!((bs.iter().sum::<f64>() - 1.0).abs() < 1e-12, "partition", "{bs:?} at {u}");
        let all = spread(i, p, n, &bs);
        let w = m.hom(u, 0, side);
        check!(close(&all, &w[..n], tol(0)), "basis", "{all:?} at {u}, must be {:?}", &w[..n]);
        for order in 0..=p + 2 {
            let ds = kv.derivative_basis_functions(i, u, p, order);
            check!(ds.len() == order + 1 && ds.iter().all(|r| r.len() == p + 1), "orders", "{} rows for order {order}", ds.len());
            for (d, row) in ds.iter().enumerate() {
                let all = spread(i, p, n, row);
                let w = m.hom(u, d, side);
                check!(close(&all, &w[..n], tol(d as i32)), "derivative", "order {d} of {order}: {all:?} at {u}, must be {:?}", &w[..n]);
            }
        }
    }
    // regularly spaced
    for divs in [1usize, 2, 3, 7, 16] {
        rec.trans(1);
        let (s, e, h, c) = kv.regularly_spaced_span(p, divs);
        check!((s, e) == (a, b) && (h - (b - a) / divs as f64).abs() <= 1e-15 * (b - a).max(1.0) && c == n - 1, "spacing", "{:?}", (s, e, h, c));
        let (is, bs) = kv.regulary_spaced_basis_functions(p, divs);
        let (js, ds) = kv.regularly_spaced_derivative_basis_functions(p, divs);
        check!(is.len() == divs + 1 && bs.len() == divs + 1 && js.len() == divs + 1 && ds.len() == divs + 1, "count", "{} {} {} {}", is.len(), bs.len(), js.len(), ds.len());
        for i in 0..=divs {
            let u = a + (b - a) * i as f64 / divs as f64;
            let near = br.iter().map(|x| (x - u).abs()).fold(f64::INFINITY, f64::min);
            let u = if i == divs { b } else { u };
            let side = if i == divs { Side::Left } else { Side::Right };
            let w = m.hom(u, 0, side);
            let t = tol(0) + 1e-12 * um * p as f64 * 4.0;
            check!(close(&spread(is[i], p, n, &bs[i]), &w[..n], t), "regular", "{:?} at {u}, must be {:?}", spread(is[i], p, n, &bs[i]), &w[..n]);
            check!(close(&spread(js[i], p, n, &ds[i][0]), &w[..n], t), "regular", "{:?} at {u}, must be {:?}", spread(js[i], p, n, &ds[i][0]), &w[..n]);
            // a knot may be missed by rounding, and then the derivatives are those of the other side
            if near > 1e-6 * gap && ds[i].len() > 1 {
                let w = m.hom(u, 1, side);
                check!(close(&spread(js[i], p, n, &ds[i][1]), &w[..n], tol(1) + 1e-11 * um * (4.0 * p as f64 / gap).powi(2)), "regular", "slopes {:?} at {u}, must be {:?}", spread(js[i], p, n, &ds[i][1]), &w[..n]);
            }
        }
    }
    // reversal
    let r = kv.inverse();
    let want: Vec<f64> = k.k.iter().rev().map(|x| k.k[0] + (k.k[k.k.len() - 1] - x)).collect();
    check!(close(&r.to_vec(), &want, 1e-12 * um * gap), "reversal", "{:?} must be {want:?}", r.to_vec());
    let f: KnotVector<f32> = kv.cast();
    check!(f.iter().zip(&k.k).all(|(x, y)| *x == *y as f32) && f.len() == k.k.len(), "cast", "{:?}", f.to_vec());
    rec.outcome(if kv.is_clamped(p) { "clamped" } else { "unclamped" });
    Ok(())
}

fn n01(env: &Env) {
    let th = env.thorough();
    let mut ks = if th { all_knots(6, 4, 6, 3, 4) } else { all_knots(5, 3, 4, 2, 3) };
    for p in 1..=if th { 6 } else { 4 } {
        ks.extend(repeated_ends(p).into_iter().filter(|k| !k.name.contains('o')));
    }
    ks.extend(large());
    let len = if th { 6 } else { 5 };
    env.note(format!("{} knot vectors (degrees up to {}, every interior multiplicity pattern up to a bound, clamped and not, small, large and shifted ranges) at every knot, at inner parameters and beside the knots; every history of up to {len} additions to small knot vectors; uniform knot vectors of all sizes", ks.len(), if th { 6 } else { 5 }));
    env.assume("the linear search is given the number of control points and a parameter before the end of the domain, the binary one the last index of the control points");
    env.par(&ks, |k, rec| {
        rec.case(&format!("knots.{}", k.name), |rec| one(k, if th { 5 } else { 2 }, rec));
    });

    // histories of additions: every sequence over a pool that has old, new, first, last and outer knots
    let seeds: Vec<Vec<f64>> = vec![vec![0.0, 0.0, 1.0, 1.0], vec![0.0, 0.5, 1.0], vec![0.0], vec![-1.0, 0.0, 0.0, 0.25, 2.0]];
    let pool = [-2.0, 0.0, 0.25, 0.5, 1.0, 3.0];
    let mut items = vec![];
    for (i, _) in seeds.iter().enumerate() {
        for f in 0..pool.len() {
            items.push((i, f));
        }
    }
    env.par(&items, |(i, f), rec| {
        rec.case(&format!("add.{i}.{f}"), |rec| {
            let mut stack = vec![(KnotVector::new(seeds[*i].clone()), seeds[*i].clone(), 0usize)];
            while let Some((kv, model, depth)) = stack.pop() {
                if depth == len {
                    continue;
                }
                for (j, x) in pool.iter().enumerate() {
                    if depth == 0 && j != *f {
                        continue;
                    }
                    let mut next = kv.clone();
                    let at = next.add(*x);
                    rec.trans(1);
                    let mut want = model.clone();
                    want.push(*x);
                    want.sort_by(|a, b| a.partial_cmp(b).unwrap());
                    rec.state(Canon::new().fs(&want).get());
                    check!(next.to_vec() == want, "added", "{x} added to {model:?}: {:?}", next.to_vec());
                    check!(next[at] == *x, "place", "{x} is said to be at {at} of {want:?}");
                    check!(next.floor(*x) == Some(at), "place", "{x} is said to be at {at} of {want:?}, its last copy is not");
                    facts(&want, 1, &next)?;
                    facts(&want, 2, &next)?;
                    stack.push((next, want, depth + 1));
                }
            }
            rec.outcome("additions");
            Ok(())
        });
    });
    let mut sizes = vec![];
    for n in 1..=9usize {
        for p in 0..=6usize {
            sizes.push((n, p));
        }
    }
    env.par(&sizes, |(n, p), rec| {
        rec.case(&format!("uniform.{n}.{p}"), |rec| {
            let kv: KnotVector<f64> = KnotVector::uniform(*n, *p);
            rec.trans(1);
            let mut want = vec![0.0; *p];
            want.extend((0..*n).map(|i| i as f64));
            want.extend(vec![*n as f64 - 1.0; *p]);
            rec.state(Canon::new().fs(&want).u(*p as u64).get());
            check!(kv.to_vec() == want, "uniform", "{:?} must be {want:?}", kv.to_vec());
            facts(&want, *p, &kv)?;
            let it: KnotVector<f64> = want.iter().cloned().collect();
            check!(it == kv, "collect", "{:?}", it.to_vec());
            if *n > 1 {
                check!(kv.is_clamped(*p), "uniform", "not clamped");
            } else if kv.to_vec().is_empty() {
                fail!("uniform", "empty");
            }
            rec.outcome("uniform");
            Ok(())
        });
    });
}
