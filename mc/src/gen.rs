//! Small-scope families. Everything is enumerated; nothing is drawn.

use crate::model::{MC, MS};

/// All sequences of interior multiplicities with at most `parts` entries, each at most `max`, with
/// a sum of at most `sum`.
pub fn mult_patterns(parts: usize, max: usize, sum: usize) -> Vec<Vec<usize>> {
    let mut out = vec![vec![]];
    let mut frontier: Vec<Vec<usize>> = vec![vec![]];
    for _ in 0..parts {
        let mut next = vec![];
        for f in &frontier {
            let s: usize = f.iter().sum();
            for m in 1..=max {
                if s + m <= sum {
                    let mut g = f.clone();
                    g.push(m);
                    next.push(g);
                }
            }
        }
        out.extend(next.iter().cloned());
        frontier = next;
    }
    out
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum End {
    Clamped,
    /// distinct knots beyond the domain
    Floating,
    /// the domain end is a double knot, the others beyond are distinct
    Half,
    /// distinct knots beyond the domain, a second copy of the domain end on its inside
    Inner,
    /// clamped, with a superfluous copy
    Over,
}

impl End {
    pub fn tag(self) -> char {
        match self {
            End::Clamped => 'c',
            End::Floating => 'f',
            End::Half => 'h',
            End::Inner => 'i',
            End::Over => 'o',
        }
    }
}

#[derive(Clone, Debug)]
pub struct Knots {
    pub name: String,
    pub p: usize,
    pub k: Vec<f64>,
}

impl Knots {
    pub fn n(&self) -> usize {
        self.k.len() - self.p - 1
    }
}

const GAPS: [f64; 6] = [1.0, 0.5, 2.25, 0.75, 1.5, 0.625];

/// One knot vector. `gap` 'u' uniform, 'n' non-uniform or 'z' with tiny intervals; `map` 'i'
/// identity, 's' shifted and shrunk, 'w' wide, 't' tiny.
pub fn knots(p: usize, interior: &[usize], l: End, r: End, gap: char, map: char) -> Knots {
    let g = |i: usize| {
        match gap {
            'u' => 1.0,
            // every other interval is tiny
            'z' => [1.0, 1.0 / 65536.0, 0.75, 1.0 / 16384.0][i % 4],
            _ => GAPS[i % GAPS.len()],
        }
    };
    let mut k: Vec<f64> = vec![];
    let tail = |e: End| -> Vec<f64> {
        // offsets of the p knots beyond the domain end (going outward)
        match e {
            End::Clamped | End::Over => vec![0.0; p],
            End::Floating | End::Inner => (1..=p)
                .map(|i| (0..i).map(|j| g(j + 2)).sum::<f64>())
                .collect(),
            End::Half => (0..p)
                .map(|i| (0..i).map(|j| g(j + 1)).sum::<f64>())
                .collect(),
        }
    };
    for o in tail(l).into_iter().rev() {
        k.push(-o);
    }
    k.push(0.0);
    if matches!(l, End::Inner | End::Over) {
        k.push(0.0);
    }
    let mut x = 0.0;
    for (i, m) in interior.iter().enumerate() {
        x += g(i);
        for _ in 0..*m {
            k.push(x);
        }
    }
    x += g(interior.len());
    k.push(x);
    if matches!(r, End::Inner | End::Over) {
        k.push(x);
    }
    for o in tail(r) {
        k.push(x + o);
    }
    let k = k
        .into_iter()
        .map(|x| match map {
            's' => x * 0.125 - 3.0,
            'w' => x * 16.0 + 5.0,
            't' => x / 16384.0,
            'f' => x + 1024.0,
            _ => x,
        })
        .collect();
    let m: String = interior.iter().map(|d| d.to_string()).collect::<Vec<_>>().join("");
    Knots {
        name: format!("p{p}.{}{}{}.{gap}{map}", l.tag(), if m.is_empty() { "0".into() } else { m }, r.tag()),
        p,
        k,
    }
}

/// Clamped knot vectors of degree p: all interior patterns x gaps x maps.
pub fn clamped(p: usize, parts: usize, sum: usize) -> Vec<Knots> {
    let mut v = vec![];
    for m in mult_patterns(parts, p, sum) {
        for (g, s) in [('u', 'i'), ('n', 'i'), ('n', 's'), ('u', 'w'), ('n', 't'), ('z', 'i')] {
            v.push(knots(p, &m, End::Clamped, End::Clamped, g, s));
        }
    }
    v
}

/// Knot vectors that are not clamped at one end at least.
pub fn unclamped(p: usize, parts: usize, sum: usize) -> Vec<Knots> {
    let mut v = vec![];
    let ends = if p == 1 {
        vec![End::Clamped, End::Floating]
    } else {
        vec![End::Clamped, End::Floating, End::Half]
    };
    for m in mult_patterns(parts, p, sum) {
        for l in &ends {
            for r in &ends {
                if *l == End::Clamped && *r == End::Clamped {
                    continue;
                }
                for (g, s) in [('u', 'i'), ('n', 's')] {
                    v.push(knots(p, &m, *l, *r, g, s));
                }
            }
        }
    }
    v
}

/// Knot vectors with repetitions of the domain ends inside the domain.
pub fn repeated_ends(p: usize) -> Vec<Knots> {
    let mut v = vec![];
    for m in mult_patterns(1, p, 2) {
        for (l, r) in [
            (End::Inner, End::Inner),
            (End::Inner, End::Clamped),
            (End::Clamped, End::Inner),
            (End::Over, End::Over),
            (End::Over, End::Floating),
            (End::Half, End::Over),
            (End::Inner, End::Half),
        ] {
            if p == 1 && (l == End::Half || r == End::Half) {
                continue;
            }
            for (g, s) in [('u', 'i'), ('n', 's')] {
                v.push(knots(p, &m, l, r, g, s));
            }
        }
    }
    v
}

/// A few knot vectors far beyond the small scope: many intervals, high degrees, far from zero.
pub fn large() -> Vec<Knots> {
    use End::*;
    let rep = |pat: &[usize], n: usize| -> Vec<usize> { (0..n).map(|i| pat[i % pat.len()]).collect() };
    let mut v = vec![];
    for (p, pat, n, l, r, g, m) in [
        (1, vec![1], 50, Clamped, Clamped, 'n', 'i'),
        (2, vec![1], 40, Clamped, Clamped, 'u', 'i'),
        (2, vec![1, 2], 24, Clamped, Floating, 'n', 's'),
        (3, vec![1], 70, Clamped, Clamped, 'u', 'i'),
        (3, vec![1, 2, 3, 1, 3], 20, Clamped, Clamped, 'n', 'i'),
        (3, vec![1], 33, Floating, Half, 'n', 'i'),
        (4, vec![1, 1, 4, 2], 18, Half, Clamped, 'n', 'f'),
        (5, vec![2, 1, 1, 5], 9, Clamped, Clamped, 'u', 'f'),
        (6, vec![1], 12, Clamped, Clamped, 'u', 'i'),
        (7, vec![1, 3], 3, Clamped, Clamped, 'n', 'i'),
        (8, vec![2, 1], 2, Clamped, Floating, 'u', 'i'),
        (9, vec![1], 1, Clamped, Clamped, 'u', 'i'),
        (10, vec![], 0, Clamped, Clamped, 'u', 'i'),
    ] {
        let i = if n == 0 { vec![] } else { rep(&pat, n) };
        let mut k = knots(p, &i, l, r, g, m);
        k.name = format!("large{}.p{p}.{m}", v.len());
        v.push(k);
    }
    v
}

pub const WEIGHTS: [char; 3] = ['1', 'a', 'g'];
pub fn weight(kind: char, i: usize, _n: usize) -> f64 {
    match kind {
        '1' => 1.0,
        // alternating
        'a' => [1.0, 2.0][i % 2],
        // graded, powers of two so that f32 is exact
        'g' => [1.0, 0.5, 4.0, 0.25, 2.0, 1.0, 0.5, 3.0][i % 8],
        // far apart
        'x' => [1.0, 64.0, 0.03125, 8.0, 1.0, 0.25][i % 6],
        // mild
        'm' => [1.0, 1.25, 0.75, 1.5, 1.0, 0.875][i % 6],
        _ => unreachable!(),
    }
}

const T0: [f64; 12] = [0.0, 3.0, 1.0, -1.0, 2.0, 2.0, -2.0, 0.5, 3.0, -1.5, 1.0, 0.0];
const T1: [f64; 12] = [1.0, -1.0, 0.0, 2.0, 1.5, -2.0, 0.0, 1.0, -0.5, 2.0, 0.25, -1.0];
const T2: [f64; 12] = [2.0, 0.5, -1.0, 1.0, 0.0, -0.5, 1.0, -2.0, 1.5, 0.0, 1.0, 0.75];

/// Control points. 'g' generic progress along x with irregular y, z; 'w' a wild zig-zag; 'c' closed
/// (last = first); 'l' collinear; 'd' with a doubled point; 'k' a convex arc.
pub fn points(kind: char, n: usize, dim: usize) -> Vec<Vec<f64>> {
    let mut v: Vec<Vec<f64>> = (0..n)
        .map(|i| {
            let t = i as f64;
            let mut p = match kind {
                'w' => vec![T2[(i * 5 + 1) % 12] * 2.0, T0[(i * 7) % 12], T1[i % 12]],
                // gently winding
                's' => vec![t * 1.5 - 2.0, [0.0, 0.6, -0.2, 0.5, 0.3, -0.4, 0.2, 0.0][i % 8], 0.25 * t],
                // a convex arc of less than a quarter
                'o' => {
                    let a = 1.4 * t / (n as f64 - 1.0).max(1.0);
                    vec![4.0 * a.sin(), 4.0 * (1.0 - a.cos()), 0.0]
                }
                // huge, tiny, far away
                'H' => vec![t * 5000.0, 4096.0 * T0[i % 12], 4096.0 * T1[(i + 3) % 12]],
                'T' => vec![t / 1000.0, T0[i % 12] / 512.0, T1[(i + 3) % 12] / 512.0],
                'F' => vec![t * 1.25 + 1000.0, T0[i % 12] - 500.0, T1[(i + 3) % 12] + 250.0],
                'l' => vec![t * 1.5 - 2.0, t * 0.5 + 1.0, -t * 0.25],
                'k' => {
                    let a = std::f64::consts::PI * 0.8 * t / (n as f64 - 1.0).max(1.0);
                    vec![3.0 * a.cos(), 2.0 * a.sin(), 0.25 * t]
                }
                'c' => {
                    let a = std::f64::consts::TAU * t / (n as f64 - 1.0).max(1.0);
                    vec![
                        3.0 * a.cos() + 0.25 * T0[i % 12],
                        2.0 * a.sin() + 0.25 * T1[i % 12],
                        0.5 * T2[i % 12],
                    ]
                }
                _ => vec![t * 1.25 - 1.0, T0[i % 12], T1[(i + 3) % 12]],
            };
            p.truncate(dim);
            p
        })
        .collect();
    if kind == 'c' && n > 1 {
        v[n - 1] = v[0].clone();
    }
    if kind == 'd' && n > 2 {
        v[2] = v[1].clone();
    }
    v
}

#[derive(Clone, Debug)]
pub struct Spec {
    pub name: String,
    pub m: MC,
}

pub fn curve(k: &Knots, w: char, pt: char, dim: usize) -> Spec {
    let n = k.n();
    let cps = points(pt, n, dim)
        .into_iter()
        .enumerate()
        .map(|(i, mut p)| {
            let wi = weight(w, i, n);
            for x in p.iter_mut() {
                *x *= wi;
            }
            p.push(wi);
            p
        })
        .collect();
    Spec {
        name: format!("{}.{w}{pt}", k.name),
        m: MC {
            p: k.p,
            knots: k.k.clone(),
            cps,
        },
    }
}

/// Cartesian product of knot vectors, weights and point patterns.
pub fn curves(ks: &[Knots], ws: &[char], pts: &[char], dim: usize) -> Vec<Spec> {
    let mut v = vec![];
    for k in ks {
        for w in ws {
            for p in pts {
                v.push(curve(k, *w, *p, dim));
            }
        }
    }
    v
}

/// Surfaces from two knot vectors.
#[derive(Clone, Debug)]
pub struct SSpec {
    pub name: String,
    pub m: MS,
}

/// `w` '1' | 'a' | 'g' ; `shape` 'g' graph over the plane, 'w' wild, 'p' flat.
pub fn surface(ku: &Knots, kv: &Knots, w: char, shape: char) -> SSpec {
    let (nu, nv) = (ku.n(), kv.n());
    let cps = (0..nu)
        .map(|i| {
            (0..nv)
                .map(|j| {
                    let wi = match w {
                        '1' => 1.0,
                        'a' => [1.0, 2.0][(i + j) % 2],
                        'm' => [1.0, 1.25, 0.75, 1.5, 1.0][(i * 2 + j * 3) % 5],
                        _ => [1.0, 0.5, 4.0, 2.0, 0.25][(i * 2 + j * 3) % 5],
                    };
                    let (x, y) = (i as f64, j as f64);
                    let p = match shape {
                        'p' => vec![x * 1.5, y * 2.0, 0.0],
                        'H' => vec![x * 6000.0, y * 8000.0 + 512.0 * x, 2048.0 * T0[(i * 5 + j * 7) % 12]],
                        'T' => vec![x / 700.0, y / 500.0 + x / 8192.0, T0[(i * 5 + j * 7) % 12] / 2048.0],
                        'w' => vec![
                            x + 0.5 * T0[(i * 3 + j * 5) % 12],
                            y + 0.5 * T1[(i * 7 + j) % 12],
                            T2[(i + j * 4) % 12],
                        ],
                        _ => vec![
                            x * 1.5,
                            y * 2.0 + 0.125 * x,
                            0.5 * T0[(i * 5 + j * 7) % 12],
                        ],
                    };
                    let mut c: Vec<f64> = p.iter().map(|v| v * wi).collect();
                    c.push(wi);
                    c
                })
                .collect()
        })
        .collect();
    SSpec {
        name: format!("{}x{}.{w}{shape}", ku.name, kv.name),
        m: MS {
            pu: ku.p,
            pv: kv.p,
            ku: ku.k.clone(),
            kv: kv.k.clone(),
            cps,
        },
    }
}

/// All permutations of 0..n.
pub fn permutations(n: usize) -> Vec<Vec<usize>> {
    if n == 0 {
        return vec![vec![]];
    }
    let mut out = vec![];
    for p in permutations(n - 1) {
        for i in 0..=p.len() {
            let mut q = p.clone();
            q.insert(i, n - 1);
            out.push(q);
        }
    }
    out.sort();
    out
}

/// All multisets (sorted index lists) of size 1..=max over `n` values.
pub fn multisets(n: usize, max: usize) -> Vec<Vec<usize>> {
    let mut out = vec![];
    let mut frontier: Vec<Vec<usize>> = vec![vec![]];
    for _ in 0..max {
        let mut next = vec![];
        for f in &frontier {
            let s = f.last().copied().unwrap_or(0);
            for i in s..n {
                let mut g = f.clone();
                g.push(i);
                next.push(g);
            }
        }
        out.extend(next.iter().cloned());
        frontier = next;
    }
    out
}

/// Scripts of random choices: all sequences of length `len` over `alts`, with at most `dev`
/// entries different from `def`.
pub fn scripts(len: usize, alts: &[f64], def: f64, dev: usize) -> Vec<Vec<f64>> {
    let mut out: Vec<(Vec<f64>, usize)> = vec![(vec![], 0)];
    for _ in 0..len {
        let mut next = vec![];
        for (s, d) in &out {
            let mut t = s.clone();
            t.push(def);
            next.push((t, *d));
            if *d < dev {
                for a in alts {
                    let mut t = s.clone();
                    t.push(*a);
                    next.push((t, *d + 1));
                }
            }
        }
        out = next;
    }
    out.sort_by_key(|(_, d)| *d);
    out.into_iter().map(|(s, _)| s).collect()
}
