//! Reference model: rational B-splines from the recursive definition. Boring on purpose and
//! independent of curvo.

/// A rational B-spline curve: homogeneous rows (coordinates times weight, weight last).
#[derive(Clone, Debug)]
pub struct MC {
    pub p: usize,
    pub knots: Vec<f64>,
    pub cps: Vec<Vec<f64>>,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Side {
    Left,
    Right,
}

pub fn binom(n: usize, k: usize) -> f64 {
    let mut row = vec![1.0];
    for _ in 0..n {
        let mut next = vec![1.0];
        for w in row.windows(2) {
            next.push(w[0] + w[1]);
        }
        next.push(1.0);
        row = next;
    }
    if k > n {
        0.0
    } else {
        row[k]
    }
}

/// Index i of the non-empty knot interval [k_i, k_{i+1}] of the domain to use for u.
pub fn span(knots: &[f64], p: usize, n: usize, u: f64, side: Side) -> usize {
    // n control points; domain [k_p, k_n]
    let mut best = None;
    for i in p..n {
        if knots[i] < knots[i + 1] {
            let inside = match side {
                Side::Right => knots[i] <= u && u < knots[i + 1],
                Side::Left => knots[i] < u && u <= knots[i + 1],
            };
            if inside {
                return i;
            }
            if best.is_none() || u >= knots[i] {
                best = Some(i);
            }
        }
    }
    best.unwrap_or(p)
}

/// The k-th derivative of the (vector valued) B-spline, by differencing control points and the
/// de Boor recursion on the interval i.
fn deboor(knots: &[f64], p: usize, cps: &[Vec<f64>], i: usize, u: f64, k: usize) -> Vec<f64> {
    let dim = cps[0].len();
    if k > p {
        return vec![0.0; dim];
    }
    // local control points i-p..=i
    let mut q: Vec<Vec<f64>> = (0..=p).map(|j| cps[i - p + j].clone()).collect();
    // Difference k times. After r steps q[j] has degree p-r and a support that starts at the knot
    // i-p+r+j.
    for r in 0..k {
        let deg = p - r;
        q = (0..deg)
            .map(|j| {
                let a = i - p + r + j;
                let den = knots[a + deg + 1] - knots[a + 1];
                (0..dim)
                    .map(|c| deg as f64 * (q[j + 1][c] - q[j][c]) / den)
                    .collect()
            })
            .collect();
    }
    let d = p - k;
    // q[j] (j=0..=d) of degree d on interval i
    for r in 1..=d {
        for j in (r..=d).rev() {
            let a = i - d + j; // left knot index of this blend
            let den = knots[a + d - r + 1] - knots[a];
            let t = (u - knots[a]) / den;
            for c in 0..dim {
                q[j][c] = (1.0 - t) * q[j - 1][c] + t * q[j][c];
            }
        }
    }
    q[d].clone()
}

impl MC {
    pub fn n(&self) -> usize {
        self.cps.len()
    }
    pub fn dim(&self) -> usize {
        self.cps[0].len() - 1
    }
    pub fn domain(&self) -> (f64, f64) {
        (self.knots[self.p], self.knots[self.n()])
    }
    pub fn hom(&self, u: f64, k: usize, side: Side) -> Vec<f64> {
        let i = span(&self.knots, self.p, self.n(), u, side);
        deboor(&self.knots, self.p, &self.cps, i, u, k)
    }
    /// Rational derivatives 0..=k on one side of u.
    pub fn ders(&self, u: f64, k: usize, side: Side) -> Vec<Vec<f64>> {
        let d = self.dim();
        let h: Vec<Vec<f64>> = (0..=k).map(|j| self.hom(u, j, side)).collect();
        let mut c: Vec<Vec<f64>> = vec![];
        for j in 0..=k {
            let mut v: Vec<f64> = h[j][..d].to_vec();
            for i in 1..=j {
                let b = binom(j, i) * h[i][d];
                for x in 0..d {
                    v[x] -= b * c[j - i][x];
                }
            }
            for x in v.iter_mut() {
                *x /= h[0][d];
            }
            c.push(v);
        }
        c
    }
    pub fn pt(&self, u: f64) -> Vec<f64> {
        self.ders(u, 0, Side::Right).remove(0)
    }
    /// Distinct knots of the closed domain.
    pub fn breaks(&self) -> Vec<f64> {
        let (a, b) = self.domain();
        let mut v: Vec<f64> = vec![];
        for k in &self.knots {
            if *k >= a && *k <= b && v.last().map(|l| l != k).unwrap_or(true) {
                v.push(*k);
            }
        }
        v
    }
    /// Size of the curve (for relative tolerances).
    pub fn scale(&self) -> f64 {
        let d = self.dim();
        let mut s: f64 = 1e-6;
        for c in &self.cps {
            for x in 0..d {
                s = s.max((c[x] / c[d]).abs());
            }
        }
        s
    }
    /// Diagonal of the box around the control points.
    pub fn extent(&self) -> f64 {
        let d = self.dim();
        let mut s: f64 = 0.0;
        for x in 0..d {
            let (mut l, mut h) = (f64::INFINITY, f64::NEG_INFINITY);
            for c in &self.cps {
                l = l.min(c[x] / c[d]);
                h = h.max(c[x] / c[d]);
            }
            s = s.hypot(h - l);
        }
        s
    }
    /// Parameters of interest: all breaks, and `m` interior ones per interval.
    pub fn params(&self, m: usize) -> Vec<f64> {
        let b = self.breaks();
        let mut v = vec![];
        for w in b.windows(2) {
            v.push(w[0]);
            for j in 1..=m {
                v.push(w[0] + (w[1] - w[0]) * (j as f64) / (m as f64 + 1.0));
            }
        }
        v.push(*b.last().unwrap());
        v
    }
    /// Is the data a well-formed curve?
    pub fn well_formed(&self) -> Result<(), String> {
        if self.n() <= self.p {
            return Err(format!("{} control points for degree {}", self.n(), self.p));
        }
        if self.knots.len() != self.n() + self.p + 1 {
            return Err(format!(
                "{} knots, {} control points, degree {}",
                self.knots.len(),
                self.n(),
                self.p
            ));
        }
        if self.knots.windows(2).any(|w| !(w[0] <= w[1])) {
            return Err(format!("knots not sorted: {:?}", self.knots));
        }
        for w in self.knots.windows(self.p + 2) {
            if w[0] == w[self.p + 1] {
                return Err(format!("knot {} repeated more than degree + 1 times: {:?}", w[0], self.knots));
            }
        }
        for c in &self.cps {
            if c.iter().any(|x| !x.is_finite()) {
                return Err("control point not finite".into());
            }
            if *c.last().unwrap() <= 0.0 {
                return Err("weight not positive".into());
            }
        }
        let (a, b) = self.domain();
        if !(a < b) {
            return Err(format!("empty domain {a}..{b}"));
        }
        Ok(())
    }
    pub fn is_clamped(&self) -> bool {
        let k = &self.knots;
        let p = self.p;
        let m = k.len();
        (0..=p).all(|i| k[i] == k[0]) && (0..=p).all(|i| k[m - 1 - i] == k[m - 1])
    }
    pub fn length(&self, a: f64, b: f64) -> f64 {
        // composite Gauss-Legendre, 8 points, on a fine subdivision of every interval
        let mut total = 0.0;
        let mut bs: Vec<f64> = vec![a];
        for k in self.breaks() {
            if k > a && k < b {
                bs.push(k);
            }
        }
        bs.push(b);
        const X: [f64; 4] = [
            0.1834346424956498,
            0.5255324099163290,
            0.7966664774136267,
            0.9602898564975363,
        ];
        const W: [f64; 4] = [
            0.3626837833783620,
            0.3137066458778873,
            0.2223810344533745,
            0.1012285362903763,
        ];
        for w in bs.windows(2) {
            if w[1] <= w[0] {
                continue;
            }
            let m = 32;
            for s in 0..m {
                let l = w[0] + (w[1] - w[0]) * s as f64 / m as f64;
                let r = w[0] + (w[1] - w[0]) * (s + 1) as f64 / m as f64;
                let (c, h) = ((l + r) / 2.0, (r - l) / 2.0);
                for q in 0..4 {
                    for sg in [-1.0, 1.0] {
                        let d = self.ders(c + sg * h * X[q], 1, Side::Right);
                        total += W[q] * h * norm(&d[1]);
                    }
                }
            }
        }
        total
    }
    /// Dense samples (parameter, point).
    pub fn dense(&self, per: usize) -> Vec<(f64, Vec<f64>)> {
        self.params(per).into_iter().map(|u| (u, self.pt(u))).collect()
    }
    /// Brute-force closest point: dense samples, then golden-section refinement around the best
    /// candidates. Returns (distance, parameter).
    pub fn closest(&self, q: &[f64], per: usize) -> (f64, f64) {
        let d = self.dense(per);
        let dist: Vec<f64> = d.iter().map(|(_, p)| dist(p, q)).collect();
        let mut cands: Vec<usize> = vec![];
        for i in 0..d.len() {
            let l = i == 0 || dist[i - 1] >= dist[i];
            let r = i + 1 == d.len() || dist[i + 1] >= dist[i];
            if l && r {
                cands.push(i);
            }
        }
        let mut best = (f64::INFINITY, 0.0);
        for i in cands {
            let mut a = d[i.saturating_sub(1)].0;
            let mut b = d[(i + 1).min(d.len() - 1)].0;
            let g = 0.6180339887498949;
            for _ in 0..80 {
                let x = b - g * (b - a);
                let y = a + g * (b - a);
                if self::dist(&self.pt(x), q) < self::dist(&self.pt(y), q) {
                    b = y;
                } else {
                    a = x;
                }
            }
            let u = (a + b) / 2.0;
            for (dd, uu) in [(self::dist(&self.pt(u), q), u), (dist[i], d[i].0)] {
                if dd < best.0 {
                    best = (dd, uu);
                }
            }
        }
        best
    }
}

pub fn norm(a: &[f64]) -> f64 {
    a.iter().map(|x| x * x).sum::<f64>().sqrt()
}
pub fn dist(a: &[f64], b: &[f64]) -> f64 {
    a.iter()
        .zip(b)
        .map(|(x, y)| (x - y) * (x - y))
        .sum::<f64>()
        .sqrt()
}
pub fn sub(a: &[f64], b: &[f64]) -> Vec<f64> {
    a.iter().zip(b).map(|(x, y)| x - y).collect()
}
pub fn add(a: &[f64], b: &[f64]) -> Vec<f64> {
    a.iter().zip(b).map(|(x, y)| x + y).collect()
}
pub fn mul(a: &[f64], s: f64) -> Vec<f64> {
    a.iter().map(|x| x * s).collect()
}
pub fn dot(a: &[f64], b: &[f64]) -> f64 {
    a.iter().zip(b).map(|(x, y)| x * y).sum()
}
pub fn cross(a: &[f64], b: &[f64]) -> Vec<f64> {
    vec![
        a[1] * b[2] - a[2] * b[1],
        a[2] * b[0] - a[0] * b[2],
        a[0] * b[1] - a[1] * b[0],
    ]
}
pub fn unit(a: &[f64]) -> Vec<f64> {
    let n = norm(a);
    mul(a, 1.0 / n)
}
/// Affine matrix (row-major, (d+1)x(d+1)) applied to a point.
pub fn affine(m: &[Vec<f64>], p: &[f64]) -> Vec<f64> {
    let d = p.len();
    (0..d)
        .map(|i| (0..d).map(|j| m[i][j] * p[j]).sum::<f64>() + m[i][d])
        .collect()
}
pub fn close(a: &[f64], b: &[f64], tol: f64) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| (x - y).abs() <= tol)
}

/// A rational tensor-product surface: rows indexed by u, columns by v.
#[derive(Clone, Debug)]
pub struct MS {
    pub pu: usize,
    pub pv: usize,
    pub ku: Vec<f64>,
    pub kv: Vec<f64>,
    pub cps: Vec<Vec<Vec<f64>>>,
}

impl MS {
    pub fn nu(&self) -> usize {
        self.cps.len()
    }
    pub fn nv(&self) -> usize {
        self.cps[0].len()
    }
    pub fn dim(&self) -> usize {
        self.cps[0][0].len() - 1
    }
    pub fn domain(&self) -> ((f64, f64), (f64, f64)) {
        (
            (self.ku[self.pu], self.ku[self.nu()]),
            (self.kv[self.pv], self.kv[self.nv()]),
        )
    }
    pub fn hom(&self, u: f64, v: f64, du: usize, dv: usize, su: Side, sv: Side) -> Vec<f64> {
        let iu = span(&self.ku, self.pu, self.nu(), u, su);
        let iv = span(&self.kv, self.pv, self.nv(), v, sv);
        let dim = self.dim() + 1;
        let col: Vec<Vec<f64>> = (0..self.nu())
            .map(|r| {
                if r + self.pu >= iu && r <= iu {
                    deboor(&self.kv, self.pv, &self.cps[r], iv, v, dv)
                } else {
                    vec![0.0; dim]
                }
            })
            .collect();
        deboor(&self.ku, self.pu, &col, iu, u, du)
    }
    /// Rational partial derivatives d[k][l], k+l <= n (k in u, l in v).
    pub fn ders(&self, u: f64, v: f64, n: usize, su: Side, sv: Side) -> Vec<Vec<Vec<f64>>> {
        let d = self.dim();
        let mut s: Vec<Vec<Vec<f64>>> = vec![vec![vec![0.0; d]; n + 1]; n + 1];
        let h: Vec<Vec<Vec<f64>>> = (0..=n)
            .map(|k| (0..=n).map(|l| self.hom(u, v, k, l, su, sv)).collect())
            .collect();
        for k in 0..=n {
            for l in 0..=n {
                // A_kl = sum_ij C(k,i) C(l,j) w_ij S_{k-i,l-j}
                let mut x: Vec<f64> = h[k][l][..d].to_vec();
                for i in 0..=k {
                    for j in 0..=l {
                        if i == 0 && j == 0 {
                            continue;
                        }
                        let b = binom(k, i) * binom(l, j) * h[i][j][d];
                        for c in 0..d {
                            x[c] -= b * s[k - i][l - j][c];
                        }
                    }
                }
                for c in 0..d {
                    x[c] /= h[0][0][d];
                }
                s[k][l] = x;
            }
        }
        s
    }
    pub fn pt(&self, u: f64, v: f64) -> Vec<f64> {
        let h = self.hom(u, v, 0, 0, Side::Right, Side::Right);
        let d = self.dim();
        (0..d).map(|c| h[c] / h[d]).collect()
    }
    pub fn u_model(&self) -> MC {
        MC {
            p: self.pu,
            knots: self.ku.clone(),
            cps: self.cps.iter().map(|r| r[0].clone()).collect(),
        }
    }
    pub fn v_model(&self) -> MC {
        MC {
            p: self.pv,
            knots: self.kv.clone(),
            cps: self.cps[0].clone(),
        }
    }
    pub fn params(&self, m: usize) -> (Vec<f64>, Vec<f64>) {
        (self.u_model().params(m), self.v_model().params(m))
    }
    pub fn scale(&self) -> f64 {
        let d = self.dim();
        let mut s: f64 = 1e-6;
        for c in self.cps.iter().flatten() {
            for x in 0..d {
                s = s.max((c[x] / c[d]).abs());
            }
        }
        s
    }
    pub fn well_formed(&self) -> Result<(), String> {
        let nv = self.nv();
        if self.cps.iter().any(|r| r.len() != nv) {
            return Err("ragged control points".into());
        }
        self.u_model().well_formed().map_err(|e| format!("u: {e}"))?;
        self.v_model().well_formed().map_err(|e| format!("v: {e}"))?;
        for c in self.cps.iter().flatten() {
            if c.iter().any(|x| !x.is_finite()) {
                return Err("control point not finite".into());
            }
            if *c.last().unwrap() <= 0.0 {
                return Err("weight not positive".into());
            }
        }
        Ok(())
    }
}
