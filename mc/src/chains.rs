//! R01, R02: chains of curves.

use crate::adapt::*;
use crate::boxes::of_model;
use crate::core::*;
use crate::curves::*;
use crate::gen::*;
use crate::model::*;
use crate::{check, fail};
use curvo::prelude::*;
use nalgebra::{Const, Matrix3, Matrix4};

pub fn table() -> Vec<(&'static str, fn(&Env))> {
    vec![("R01", r01), ("R02", r02)]
}

/// Chains of curves in two and three dimensions.
trait Ch: Clone + Send + Sync + PartialEq {
    type C: Cv;
    fn assemble(v: Vec<Self::C>) -> Self;
    fn collect(v: Vec<Self::C>) -> Self;
    fn pieces(&self) -> Vec<Self::C>;
    fn at(&self, t: f64) -> Option<Vec<f64>>;
    fn closed(&self) -> bool;
    fn len_(&self) -> Result<f64, String>;
    fn closest(&self, q: &[f64]) -> Result<Vec<f64>, String>;
    fn inv(&self) -> Self;
    fn moved(&self, m: &[Vec<f64>]) -> Self;
    fn cut(&self, a: f64, b: f64) -> Result<Vec<Self::C>, String>;
    fn bounds(&self) -> (Vec<f64>, Vec<f64>);
}

macro_rules! chain_imp {
    ($C:ty, $H:expr, $M:ty) => {
        impl Ch for CompoundCurve<f64, Const<$H>> {
            type C = $C;
            fn assemble(v: Vec<$C>) -> Self {
                CompoundCurve::new(v)
            }
            fn collect(v: Vec<$C>) -> Self {
                v.into_iter().collect()
            }
            fn pieces(&self) -> Vec<$C> {
                self.spans().to_vec()
            }
            fn at(&self, t: f64) -> Option<Vec<f64>> {
                self.point_at(t).map(|p| p.coords.as_slice().to_vec())
            }
            fn closed(&self) -> bool {
                self.is_closed()
            }
            fn len_(&self) -> Result<f64, String> {
                self.try_length().map_err(|e| e.to_string())
            }
            fn closest(&self, q: &[f64]) -> Result<Vec<f64>, String> {
                let q = nalgebra::OPoint::<f64, Const<{ $H - 1 }>>::from_slice(q);
                self.find_closest_point(&q).map(|p| p.coords.as_slice().to_vec()).map_err(|e| e.to_string())
            }
            fn inv(&self) -> Self {
                self.inverse()
            }
            fn moved(&self, m: &[Vec<f64>]) -> Self {
                let m = <$M>::from_fn(|i, j| m[i][j]);
                self.transformed(&m)
            }
            fn cut(&self, a: f64, b: f64) -> Result<Vec<$C>, String> {
                self.try_trim_range((a, b)).map_err(|e| e.to_string())
            }
            fn bounds(&self) -> (Vec<f64>, Vec<f64>) {
                let b: BoundingBox<f64, Const<{ $H - 1 }>> = self.into();
                (b.min().as_slice().to_vec(), b.max().as_slice().to_vec())
            }
        }
    };
}
chain_imp!(C2, 3, Matrix3<f64>);
chain_imp!(C3, 4, Matrix4<f64>);

/// A curve from one node to the other.
fn piece(kind: char, a: &[f64], b: &[f64]) -> MC {
    let dim = a.len();
    let d = sub(b, a);
    let mut side = vec![d[1], -d[0]];
    if dim == 3 {
        side.push(0.4);
    }
    let at = |t: f64, h: f64| add(&add(a, &mul(&d, t)), &mul(&side, h));
    let (p, pts, w, k): (usize, Vec<Vec<f64>>, Vec<f64>, Vec<f64>) = match kind {
        'L' => (1, vec![a.to_vec(), b.to_vec()], vec![1.0; 2], vec![0.0, 0.0, 1.0, 1.0]),
        'P' => (1, vec![a.to_vec(), at(0.4, 0.25), b.to_vec()], vec![1.0; 3], vec![2.0, 2.0, 2.5, 3.0, 3.0]),
        'Q' => (2, vec![a.to_vec(), at(0.5, 0.4), b.to_vec()], vec![1.0, 0.5, 1.0], vec![-1.0, -1.0, -1.0, 1.0, 1.0, 1.0]),
        'C' => (
            3,
            vec![a.to_vec(), at(0.2, 0.3), at(0.5, -0.2), at(0.8, 0.1), b.to_vec()],
            vec![1.0; 5],
            vec![5.0, 5.0, 5.0, 5.0, 5.5, 7.0, 7.0, 7.0, 7.0],
        ),
        // not clamped: the ends are halfway between control points
        'U' => {
            let (x, y) = (at(0.3, 0.3), at(0.7, -0.1));
            (
                2,
                vec![sub(&mul(a, 2.0), &x), x, y.clone(), sub(&mul(b, 2.0), &y)],
                vec![1.0; 4],
                vec![0.0, 1.0, 2.0, 3.0, 4.0, 5.0, 6.0],
            )
        }
        _ => unreachable!(),
    };
    MC {
        p,
        knots: k,
        cps: pts
            .into_iter()
            .zip(w)
            .map(|(x, w)| {
                let mut v = mul(&x, w);
                v.push(w);
                v
            })
            .collect(),
    }
}

const KINDS: [char; 5] = ['L', 'Q', 'C', 'P', 'U'];

/// `n` connected pieces.
fn family(n: usize, closed: bool, rot: usize, dim: usize) -> Vec<MC> {
    let nodes: [[f64; 3]; 6] = [[0.0, 0.0, 0.0], [4.0, 0.5, 1.0], [5.0, 4.0, -1.0], [1.5, 6.0, 0.5], [-3.0, 4.5, 2.0], [-4.0, 1.0, 0.0]];
    let total = if closed { n } else { n + 1 };
    // spread the nodes of short chains
    let at = |i: usize| nodes[(i % total) * 6 / total.max(1)][..dim].to_vec();
    (0..n).map(|i| piece(KINDS[(i + rot) % 5], &at(i), &at(i + 1))).collect()
}

fn reversed(m: &MC) -> MC {
    let mut o = m.clone();
    o.cps.reverse();
    let (a, b) = (m.knots[0], m.knots[m.knots.len() - 1]);
    o.knots = m.knots.iter().rev().map(|k| a + (b - k)).collect();
    o
}

fn shifted(m: &MC, d: f64) -> MC {
    let mut o = m.clone();
    for k in &mut o.knots {
        *k += d;
    }
    o
}

/// Consecutive domains.
fn align(v: Vec<MC>, start: f64) -> Vec<MC> {
    let mut at = start;
    v.into_iter()
        .map(|m| {
            let o = shifted(&m, at - m.domain().0);
            at = o.domain().1;
            o
        })
        .collect()
}

fn ends(m: &MC) -> (Vec<f64>, Vec<f64>) {
    let (a, b) = m.domain();
    (m.pt(a), m.pt(b))
}

const E: f64 = 1e-9;

/// The same curve but for the parameter's origin.
fn same_piece(x: &MC, y: &MC) -> bool {
    let (a, b) = (x.domain(), y.domain());
    ((a.1 - a.0) - (b.1 - b.0)).abs() < E && (0..=8).all(|i| {
        let f = i as f64 / 8.0;
        close(&x.pt(a.0 + (a.1 - a.0) * f), &y.pt(b.0 + (b.1 - b.0) * f), E)
    })
}

fn assemble<H: Ch>(n: usize, closed: bool, rot: usize, perm: &[usize], rec: &mut Rec) -> Res {
    let base = family(n, closed, rot, <H::C as Cv>::DIM);
    let masks: Vec<usize> = (0..1usize << n).collect();
    ordered::<H>(&base, closed, perm, &masks, rec)
}

/// The pieces of another size and place.
fn resized(base: &[MC], k: f64, o: f64) -> Vec<MC> {
    let mut v = base.to_vec();
    for c in v.iter_mut().flat_map(|m| m.cps.iter_mut()) {
        let d = c.len() - 1;
        for x in 0..d {
            c[x] = c[x] * k + o * c[d];
        }
    }
    v
}

/// The chain of the pieces given in this order, those of the mask reversed.
fn ordered<H: Ch>(base: &[MC], closed: bool, perm: &[usize], masks: &[usize], rec: &mut Rec) -> Res {
    let n = base.len();
    let size = base.iter().map(|m| m.scale()).fold(0.0, f64::max);
    let tol = E * size.max(1.0);
    let same_piece = |x: &MC, y: &MC| {
        let (a, b) = (x.domain(), y.domain());
        ((a.1 - a.0) - (b.1 - b.0)).abs() < 1e-9 && same_piece_tol(x, y, tol)
    };
    for mask in masks.iter().copied() {
        let given: Vec<MC> = perm.iter().map(|i| if mask >> i & 1 == 1 { reversed(&base[*i]) } else { base[*i].clone() }).collect();
        let cs: Vec<H::C> = given.iter().map(of_model::<H::C>).collect::<Result<_, _>>()?;
        let ch = H::assemble(cs);
        rec.trans(1);
        let got: Vec<MC> = ch.pieces().iter().map(|c| c.model()).collect();
        rec.state(got.iter().fold(3, |h: u64, m| h.wrapping_mul(1_000_003) ^ canon(m)));
        check!(got.len() == n, "count", "{} of {n} pieces, reversed {mask:b}", got.len());
        // continuous
        for i in 0..n {
            if i + 1 < n || closed {
                let (e, s) = (ends(&got[i]).1, ends(&got[(i + 1) % n]).0);
                check!(close(&e, &s, tol), "gap", "piece {i} ends at {e:?}, the next begins at {s:?}, reversed {mask:b}");
            }
        }
        // consecutive parameters from zero
        let mut t = 0.0;
        for (i, m) in got.iter().enumerate() {
            let (a, b) = m.domain();
            check!((a - t).abs() < E, "parameter", "piece {i} is over {a}..{b}, {t} expected, reversed {mask:b}");
            t = b;
        }
        // every piece once
        let mut used = vec![false; n];
        for (i, m) in got.iter().enumerate() {
            let r = reversed(m);
            match (0..n).find(|j| !used[*j] && (same_piece(m, &base[*j]) || same_piece(&r, &base[*j]))) {
                Some(j) => used[j] = true,
                None => fail!("piece", "piece {i} is none of the given ones, reversed {mask:b}"),
            }
        }
        // the direction is that of the first piece given
        check!(got.iter().any(|m| same_piece(m, &given[0])), "direction", "the first piece is reversed, reversed {mask:b}");
        let gap = dist(&ends(&got[0]).0, &ends(&got[n - 1]).1);
        if gap > 1e-4 * size || gap < 1e-14 * size {
            check!(ch.closed() == (gap < 1e-14 * size), "closed", "is_closed is {} with a gap of {gap}, reversed {mask:b}", ch.closed());
        }
        // evaluation
        for m in &got {
            let (a, b) = m.domain();
            for f in [0.0, 0.3, 1.0] {
                let u = a + (b - a) * f;
                let p = ch.at(u);
                check!(p.as_ref().map(|p| close(p, &m.pt(u), tol)) == Some(true), "point", "{p:?} at {u}, {:?} expected", m.pt(u));
            }
        }
    }
    rec.outcome(if closed { "closed" } else { "open" });
    Ok(())
}

/// Pieces that only nearly meet at the joint `j`.
fn gaps<H: Ch>(n: usize, rot: usize, j: usize, gap: f64, perm: &[usize], rec: &mut Rec) -> Res {
    let mut base = family(n, false, rot, <H::C as Cv>::DIM);
    for m in &mut base[j + 1..] {
        let dim = <H::C as Cv>::DIM;
        for c in &mut m.cps {
            c[j % dim] += gap * c[dim];
        }
    }
    for mask in 0..1usize << n {
        let given: Vec<MC> = perm.iter().map(|i| if mask >> i & 1 == 1 { reversed(&base[*i]) } else { base[*i].clone() }).collect();
        let cs: Vec<H::C> = given.iter().map(of_model::<H::C>).collect::<Result<_, _>>()?;
        let ch = H::assemble(cs);
        rec.trans(1);
        let got: Vec<MC> = ch.pieces().iter().map(|c| c.model()).collect();
        rec.state(got.iter().fold(7, |h: u64, m| h.wrapping_mul(1_000_003) ^ canon(m)));
        for w in got.windows(2) {
            let (e, s) = (ends(&w[0]).1, ends(&w[1]).0);
            check!(dist(&e, &s) < 1e-6, "jump", "the chain jumps from {e:?} to {s:?}, reversed {mask:b}");
        }
        let mut used = vec![false; n];
        for (i, m) in got.iter().enumerate() {
            let r = reversed(m);
            match (0..n).find(|j| !used[*j] && (same_piece(m, &base[*j]) || same_piece(&r, &base[*j]))) {
                Some(j) => used[j] = true,
                None => fail!("piece", "piece {i} is none of the given ones, reversed {mask:b}"),
            }
        }
        check!(used[perm[0]], "first", "the first piece is not in the chain, reversed {mask:b}");
        // all that are connected to the first one, if they are joined at all
        let want = if gap < 1e-6 { n } else if perm[0] <= j { j + 1 } else { n - j - 1 };
        check!(got.len() == want, "count", "{} pieces, {want} are connected, reversed {mask:b}", got.len());
    }
    rec.outcome(if gap < 1e-6 { "rounding" } else { "gap" });
    Ok(())
}

fn r01(env: &Env) {
    let th = env.thorough();
    let nmax = if th { 6 } else { 5 };
    let mut items = vec![];
    for n in 1..=nmax {
        for closed in [false, true] {
            if closed && n < 2 {
                continue;
            }
            for rot in 0..5 {
                if n >= 5 && !th && rot > 0 || n >= 6 && rot > 1 {
                    continue;
                }
                for p in permutations(n) {
                    items.push((n, closed, rot, p));
                }
            }
        }
    }
    env.note(format!("chains of 1..={nmax} pieces (lines, polylines, rational, cubic, unclamped; open and closed): {} orders, every choice of orientations of each, two and three dimensions", items.len()));
    env.par(&items, |(n, closed, rot, p), rec| {
        let id: String = p.iter().map(|i| i.to_string()).collect();
        rec.case(&format!("d2.{n}.{closed}.{rot}.{id}"), |rec| assemble::<CompoundCurve<f64, Const<3>>>(*n, *closed, *rot, p, rec));
        rec.case(&format!("d3.{n}.{closed}.{rot}.{id}"), |rec| assemble::<CompoundCurve<f64, Const<4>>>(*n, *closed, *rot, p, rec));
        if *closed || *n > if th { 5 } else { 4 } {
            return;
        }
        for j in 0..n - 1 {
            for g in [2e-8, 1.5e-3, 0.4] {
                rec.case(&format!("gap2.{n}.{rot}.{id}.{j}.{g}"), |rec| gaps::<CompoundCurve<f64, Const<3>>>(*n, *rot, j, g, p, rec));
                rec.case(&format!("gap3.{n}.{rot}.{id}.{j}.{g}"), |rec| gaps::<CompoundCurve<f64, Const<4>>>(*n, *rot, j, g, p, rec));
            }
        }
    });
    r01_sizes(env);
}

/// Long chains and chains of other sizes.
fn r01_sizes(env: &Env) {
    let th = env.thorough();
    let sizes = [(1.0, 0.0), (1e-2, 0.0), (1e-3, 0.0), (1e3, 0.0), (1e5, 0.0), (1.0, 1e4), (30.0, -2e4)];
    let mut items = vec![];
    for (k, o) in &sizes[1..] {
        for n in 1..=4 {
            for closed in [false, true] {
                if n > 1 || !closed {
                    for p in permutations(n) {
                        items.push((*k, *o, n, closed, p));
                    }
                }
            }
        }
    }
    env.note(format!("the chains of up to 4 pieces of six other sizes and places, all orders and orientations"));
    env.par(&items, |(k, o, n, closed, p), rec| {
        let id: String = p.iter().map(|i| i.to_string()).collect();
        let masks: Vec<usize> = (0..1usize << n).collect();
        let rot = (*n + p[0]) % 5;
        rec.case(&format!("size2.{k}.{o}.{n}.{closed}.{id}"), |rec| ordered::<CompoundCurve<f64, Const<3>>>(&resized(&family(*n, *closed, rot, 2), *k, *o), *closed, p, &masks, rec));
        rec.case(&format!("size3.{k}.{o}.{n}.{closed}.{id}"), |rec| ordered::<CompoundCurve<f64, Const<4>>>(&resized(&family(*n, *closed, rot, 3), *k, *o), *closed, p, &masks, rec));
    });
    // long: in order, backwards, every two exchanged, interleaved, every start
    let mut long = vec![];
    for n in [12usize, if th { 40 } else { 25 }] {
        for closed in [false, true] {
            let fwd: Vec<usize> = (0..n).collect();
            let mut perms: Vec<Vec<usize>> = vec![fwd.clone(), fwd.iter().rev().copied().collect()];
            for i in 0..n {
                perms.push((0..n).map(|k| (k + i) % n).collect());
                perms.push((0..n).map(|k| (i + n - k) % n).collect());
                for j in 0..i {
                    if n == 12 || (i + j) % 7 == 0 {
                        let mut q = fwd.clone();
                        q.swap(i, j);
                        perms.push(q);
                    }
                }
            }
            for step in [2usize, 5, 7] {
                perms.push((0..step).flat_map(|r| (0..n).filter(move |k| k % step == r)).collect());
            }
            for p in perms {
                for (k, o) in [sizes[0], sizes[2], sizes[5]] {
                    long.push((n, closed, p.clone(), k, o));
                }
            }
        }
    }
    env.note(format!("chains of 12 and {} pieces: every rotation of the order both ways, every exchange of two, interleaved; none, all, every second, every single piece reversed; three sizes and places", if th { 40 } else { 25 }));
    env.par(&long, |(n, closed, p, k, o), rec| {
        let id: String = p.iter().map(|i| i.to_string()).collect::<Vec<_>>().join("-");
        let all = (1usize << n) - 1;
        let mut masks = vec![0, all, all / 3, all / 3 * 2];
        masks.extend((0..*n).step_by(if *n > 12 { 4 } else { 1 }).map(|i| 1usize << i));
        rec.case(&format!("long.{n}.{closed}.{k}.{o}.{id}"), |rec| {
            let total = if *closed { *n } else { n + 1 };
            let node = |i: usize| {
                let t = std::f64::consts::TAU * 0.97 * (i % total) as f64 / total as f64;
                let r = 5.0 + (i % total % 3) as f64;
                vec![r * t.cos(), r * t.sin()]
            };
            let ms: Vec<MC> = (0..*n).map(|i| piece(KINDS[i % 5], &node(i), &node(i + 1))).collect();
            ordered::<CompoundCurve<f64, Const<3>>>(&resized(&ms, *k, *o), *closed, p, &masks, rec)
        });
    });
}

// ---------------------------------------------------------------- R02

/// All observations of a chain against its pieces.
fn observe<H: Ch>(ch: &H, ms: &[MC], what: &str, grid: &[Vec<f64>], rec: &mut Rec) -> Res {
    let n = ms.len();
    let got: Vec<MC> = ch.pieces().iter().map(|c| c.model()).collect();
    rec.state(got.iter().fold(5, |h: u64, m| h.wrapping_mul(1_000_003) ^ canon(m)));
    check!(got.len() == n, "count", "{what}: {} pieces, {n} expected", got.len());
    let sc = ms.iter().map(|m| m.scale()).fold(1.0, f64::max);
    let e = E * sc;
    for (i, (g, m)) in got.iter().zip(ms).enumerate() {
        let (x, y) = (g.domain(), m.domain());
        check!((x.0 - y.0).abs() < E && (x.1 - y.1).abs() < E, "domain", "{what}: piece {i} over {x:?}, {y:?} expected");
        check!(same_piece_tol(g, m, e), "piece", "{what}: piece {i} differs");
    }
    let whole = (ms[0].domain().0, ms[n - 1].domain().1);
    for m in ms {
        let (a, b) = m.domain();
        for i in 0..=5 {
            let u = a + (b - a) * i as f64 / 5.0;
            rec.trans(1);
            // rounding may put the last parameter just outside
            if i == 5 && u == whole.1 && u > got[n - 1].domain().1 {
                continue;
            }
            if i == 0 && u == whole.0 && u < got[0].domain().0 {
                continue;
            }
            let p = ch.at(u);
            let seam = i == 0 || i == 5;
            match p {
                Some(p) => check!(close(&p, &m.pt(u), e), "point", "{what}: {p:?} at {u}, {:?} expected", m.pt(u)),
                None => check!(seam, "point", "{what}: nothing at {u}"),
            }
        }
    }
    for u in [whole.0 - 0.5, whole.1 + 0.5] {
        check!(ch.at(u).is_none(), "beyond", "{what}: a point at {u}, the domain is {whole:?}");
    }
    let gap = dist(&ends(&ms[0]).0, &ends(&ms[n - 1]).1);
    if gap > 1e-4 || gap < 1e-16 {
        rec.outcome(if gap > 1e-4 { "open" } else { "closed" });
        if gap > 1e-4 || dist(&got[0].pt(got[0].domain().0), &got[n - 1].pt(got[n - 1].domain().1)) < 1e-16 {
            check!(ch.closed() == (gap < 1e-4), "closed", "{what}: is_closed is {} with a gap of {gap}", ch.closed());
        }
    }
    let want: f64 = {
        let mut s = 0.0;
        for c in ch.pieces() {
            s += c.len_().map_err(|e| Fail { kind: "refused".into(), detail: e })?;
        }
        s
    };
    let l = ch.len_().map_err(|e| Fail { kind: "refused".into(), detail: e })?;
    check!((l - want).abs() < 1e-9 * want, "length", "{what}: {l}, the pieces have {want}");
    for q in grid {
        let q = &q[..<H::C as Cv>::DIM];
        rec.trans(1);
        let p = ch.closest(q).map_err(|e| Fail { kind: "refused".into(), detail: e })?;
        let mut best = f64::INFINITY;
        for c in ch.pieces() {
            let r = c.closest_pt(q).map_err(|e| Fail { kind: "refused".into(), detail: e })?;
            best = best.min(dist(&r, q));
        }
        check!((dist(&p, q) - best).abs() <= E * sc, "closest", "{what}: {q:?} is {} away, a piece is {best} away", dist(&p, q));
    }
    let (lo, hi) = ch.bounds();
    for d in 0..lo.len() {
        let a = ch.pieces().iter().map(|c| c.bbox().0[d]).fold(f64::INFINITY, f64::min);
        let b = ch.pieces().iter().map(|c| c.bbox().1[d]).fold(f64::NEG_INFINITY, f64::max);
        check!((lo[d] - a).abs() < e && (hi[d] - b).abs() < e, "box", "{what}: {lo:?} {hi:?}");
    }
    Ok(())
}

fn same_piece_tol(x: &MC, y: &MC, e: f64) -> bool {
    let (a, b) = (x.domain(), y.domain());
    (0..=8).all(|i| {
        let f = i as f64 / 8.0;
        close(&x.pt(a.0 + (a.1 - a.0) * f), &y.pt(b.0 + (b.1 - b.0) * f), e)
    })
}

/// Where the chain is cut: joints and places in the pieces.
fn places(ms: &[MC]) -> Vec<f64> {
    let mut v = vec![];
    for m in ms {
        let (a, b) = m.domain();
        v.push(a);
        v.push(a + (b - a) * 0.3);
        v.push(a + (b - a) * 0.625);
    }
    v.push(ms.last().unwrap().domain().1);
    v
}

/// The part of the pieces over a range.
fn parts(ms: &[MC], a: f64, b: f64) -> Vec<(usize, f64, f64)> {
    ms.iter()
        .enumerate()
        .filter_map(|(i, m)| {
            let (x, y) = m.domain();
            let (l, r) = (a.max(x), b.min(y));
            if r - l > 1e-9 {
                Some((i, l, r))
            } else {
                None
            }
        })
        .collect()
}

fn cuts<H: Ch>(ch: &H, ms: &[MC], what: &str, rec: &mut Rec) -> Res {
    // at the joints as the chain has them
    let have: Vec<MC> = ch.pieces().iter().map(|c| c.model()).collect();
    let ps = places(&have);
    let whole = (ps[0], ps[ps.len() - 1]);
    let sc = ms.iter().map(|m| m.scale()).fold(1.0, f64::max);
    for a in &ps {
        for b in &ps {
            if a == b {
                continue;
            }
            rec.trans(1);
            let got: Vec<MC> = ch.cut(*a, *b).map_err(|e| Fail { kind: "refused".into(), detail: format!("{what}: {a}..{b}: {e}") })?.iter().map(|c| c.model()).collect();
            let mut want = if a < b {
                parts(ms, *a, *b)
            } else {
                let mut v = parts(ms, whole.0, *b);
                v.extend(parts(ms, *a, whole.1));
                v
            };
            let mut have: Vec<(f64, f64, &MC)> = got.iter().map(|m| (m.domain().0, m.domain().1, m)).collect();
            if a > b {
                // around the seam: in whatever order
                have.sort_by(|x, y| x.0.partial_cmp(&y.0).unwrap());
                want.sort_by(|x, y| x.1.partial_cmp(&y.1).unwrap());
            }
            let list: Vec<(f64, f64)> = have.iter().map(|h| (h.0, h.1)).collect();
            check!(have.len() == want.len(), "cut", "{what}: {a}..{b} gives {list:?}, {want:?} expected");
            for ((x, y, g), (i, l, r)) in have.iter().zip(&want) {
                check!((x - l).abs() < E && (y - r).abs() < E, "cut", "{what}: {a}..{b} gives {list:?}, {want:?} expected");
                for k in 0..=4 {
                    let u = l + (r - l) * k as f64 / 4.0;
                    let v = x + (y - x) * k as f64 / 4.0;
                    check!(close(&g.pt(v), &ms[*i].pt(u), E * sc), "cut-shape", "{what}: {a}..{b}, piece over {l}..{r} differs at {u}");
                }
            }
            rec.outcome(if a < b { "cut" } else { "cut around" });
        }
    }
    Ok(())
}

#[derive(Clone, Copy, Debug)]
enum Op {
    Invert,
    Turn,
    Shear,
    Sub(usize, usize),
}

fn go<H: Ch>(n: usize, closed: bool, rot: usize, seq: &[Op], grid: &[Vec<f64>], rec: &mut Rec) -> Res {
    let dim = <H::C as Cv>::DIM;
    let mut ms = align(family(n, closed, rot, dim), 0.0);
    let cs: Vec<H::C> = family(n, closed, rot, dim).iter().map(of_model::<H::C>).collect::<Result<_, _>>()?;
    let mut ch = H::assemble(cs);
    let mut what = String::from("start");
    let mats = mats(dim);
    for k in 0..=seq.len() {
        if k > 0 {
            let op = seq[k - 1];
            what = format!("after {:?}", &seq[..k]);
            match op {
                Op::Invert => {
                    ch = ch.inv();
                    let s = ms[0].domain().0;
                    ms = align(ms.iter().rev().map(reversed).collect(), s);
                }
                Op::Turn | Op::Shear => {
                    let m = &mats[if matches!(op, Op::Turn) { 2 } else { 4 }].1;
                    ch = ch.moved(m);
                    for x in &mut ms {
                        for c in &mut x.cps {
                            let w = c[dim];
                            let p = affine(m, &mul(&c[..dim], 1.0 / w));
                            *c = mul(&p, w);
                            c.push(w);
                        }
                    }
                }
                Op::Sub(i, j) => {
                    let ps = places(&ch.pieces().iter().map(|c| c.model()).collect::<Vec<_>>());
                    let (a, b) = (ps[i % ps.len()], ps[ps.len() - 1 - j % ps.len()]);
                    if a >= b {
                        continue;
                    }
                    let v = ch.cut(a, b).map_err(|e| Fail { kind: "refused".into(), detail: format!("{what}: {a}..{b}: {e}") })?;
                    let cut: Vec<MC> = v.iter().map(|c| c.model()).collect();
                    let want = parts(&ms, a, b);
                    check!(cut.len() == want.len(), "cut", "{what}: {a}..{b} gives {} pieces, {} expected", cut.len(), want.len());
                    ch = H::assemble(v);
                    ms = align(cut, 0.0);
                }
            }
        }
        observe(&ch, &ms, &what, grid, rec)?;
        cuts(&ch, &ms, &what, rec)?;
    }
    rec.outcome("history");
    Ok(())
}

fn r02(env: &Env) {
    let th = env.thorough();
    let ops = [Op::Invert, Op::Turn, Op::Shear, Op::Sub(1, 0), Op::Sub(0, 2), Op::Sub(3, 1)];
    let depth = if th { 4 } else { 3 };
    let mut seqs: Vec<Vec<Op>> = vec![vec![]];
    let mut last = seqs.clone();
    for _ in 0..depth {
        last = last.iter().flat_map(|s: &Vec<Op>| ops.iter().map(move |o| { let mut t = s.clone(); t.push(*o); t })).collect();
    }
    // a sequence also checks all of its prefixes
    seqs = last;
    let grid: Vec<Vec<f64>> = vec![vec![-2.0, -3.0, 0.5], vec![1.5, 2.0, 0.0], vec![6.0, 3.5, -2.0], vec![-4.5, 5.0, 1.0]];
    let mut items = vec![];
    for n in 1..=4 {
        for closed in [false, true] {
            if closed && n < 2 {
                continue;
            }
            for rot in 0..5 {
                if !th && (n + rot) % 2 == 1 {
                    continue;
                }
                for s in 0..seqs.len() {
                    items.push((n, closed, rot, s));
                }
            }
        }
    }
    env.note(format!("open and closed chains of 1..=4 pieces, all {} sequences of {depth} operations out of {}; after each operation evaluation, closure, length, nearest points, box, and every pair of cut parameters out of joints and two places in each piece", seqs.len(), ops.len()));
    env.par(&items, |(n, closed, rot, s), rec| {
        let id = seqs[*s].iter().map(|o| match o { Op::Invert => "i".to_string(), Op::Turn => "t".into(), Op::Shear => "s".into(), Op::Sub(a, b) => format!("c{a}{b}") }).collect::<Vec<_>>().join("");
        rec.case(&format!("d2.{n}.{closed}.{rot}.{id}"), |rec| go::<CompoundCurve<f64, Const<3>>>(*n, *closed, *rot, &seqs[*s], &grid, rec));
        if (*n + *rot) % 3 == 0 {
            rec.case(&format!("d3.{n}.{closed}.{rot}.{id}"), |rec| go::<CompoundCurve<f64, Const<4>>>(*n, *closed, *rot, &seqs[*s], &grid, rec));
        }
    });
    // collected as they are, regions
    let mut small = vec![];
    for n in 1..=4 {
        for rot in 0..5 {
            small.push((n, rot));
        }
    }
    env.par(&small, |(n, rot), rec| {
        rec.case(&format!("collected.{n}.{rot}"), |rec| {
            let ms = family(*n, true, *rot, 2);
            let cs: Vec<C2> = ms.iter().map(of_model::<C2>).collect::<Result<_, _>>()?;
            let ch: CompoundCurve<f64, Const<3>> = Ch::collect(cs.clone());
            check!(ch.spans() == &cs[..], "collected", "the pieces are changed");
            let one: CompoundCurve<f64, Const<3>> = cs[0].clone().into();
            check!(one.spans().len() == 1 && same_piece(&one.spans()[0].model(), &ms[0]), "into", "a chain of one curve differs from it");
            check!(one.spans()[0].knots_domain().0 == 0.0, "into", "the domain begins at {}", one.spans()[0].knots_domain().0);
            Ok(())
        });
        rec.case(&format!("region.{n}.{rot}"), |rec| {
            let mk = |k: usize, r: usize| -> Result<CompoundCurve<f64, Const<3>>, Fail> {
                Ok(CompoundCurve::new(family(k, true, r, 2).iter().map(of_model::<C2>).collect::<Result<Vec<_>, _>>()?))
            };
            let (ex, ins) = (mk(*n + 1, *rot)?, vec![mk(2, *rot)?, mk(3, *rot + 1)?]);
            let re = Region::new(ex.clone(), ins.clone());
            check!(re.exterior() == &ex && re.interiors() == &ins[..], "region", "the boundaries are changed");
            let m = Matrix3::from_fn(|i, j| mats(2)[4].1[i][j]);
            let t = re.transformed(&m);
            check!(t.exterior() == &ex.transformed(&m), "region", "transformed exterior");
            check!(t.interiors().len() == 2 && t.interiors().iter().zip(&ins).all(|(a, b)| a == &b.transformed(&m)), "region", "transformed interiors");
            let i = re.inverse();
            check!(i.exterior() == &ex.inverse(), "region", "inverted exterior");
            check!(i.interiors().len() == 2 && i.interiors().iter().zip(&ins).all(|(a, b)| a == &b.inverse()), "region", "inverted interiors");
            let (a, b) = re.clone().into_tuple();
            check!(a == ex && b == ins, "region", "into_tuple");
            check!(re.clone().into_exterior() == ex && re.clone().into_interiors() == ins, "region", "into parts");
            let f: Region<f64> = ex.clone().into();
            check!(f.exterior() == &ex && f.interiors().is_empty(), "region", "from a chain");
            rec.outcome("region");
            Ok(())
        });
    });
}
