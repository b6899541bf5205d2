//! Uniform view (plain vectors of f64) of curvo's curves in two and three dimensions, f64 and f32.

use crate::model::{MC, MS};
use curvo::prelude::*;
use nalgebra::{Const, DimName, OMatrix, OPoint, OVector, Point2, Point3};

pub type C2 = NurbsCurve2D<f64>;
pub type C3 = NurbsCurve3D<f64>;
pub type C2f = NurbsCurve2D<f32>;
pub type C3f = NurbsCurve3D<f32>;
pub type S3 = NurbsSurface3D<f64>;

pub trait Cv: Clone + Send + Sync + PartialEq + std::fmt::Debug {
    const DIM: usize;
    /// Relative precision to expect of results.
    const EPS: f64;
    const NAME: &'static str;
    fn make(p: usize, cps: &[Vec<f64>], knots: &[f64]) -> Result<Self, String>;
    fn model(&self) -> MC;
    fn pt(&self, u: f64) -> Vec<f64>;
    fn tan(&self, u: f64) -> Vec<f64>;
    fn acc(&self, u: f64) -> Vec<f64>;
    fn pt_tan(&self, u: f64) -> (Vec<f64>, Vec<f64>);
    fn samples(&self, a: f64, b: f64, n: usize) -> Vec<Vec<f64>>;
    fn samples_p(&self, a: f64, b: f64, n: usize) -> Vec<(f64, Vec<f64>)>;
    fn dom(&self) -> (f64, f64);
    fn deg(&self) -> usize;
    fn refine(&mut self, ks: &[f64]) -> Result<(), String>;
    fn add_knot(&mut self, k: f64) -> Result<(), String>;
    fn remove_knot(&mut self, k: f64, tol: Option<f64>) -> Result<usize, String>;
    fn do_clamp(&mut self) -> Result<(), String>;
    fn elevate(&self, p: usize) -> Result<Self, String>;
    fn beziers(&self) -> Result<Vec<Self>, String>;
    fn split(&self, u: f64) -> Result<(Self, Self), String>;
    fn trim(&self, a: f64, b: f64) -> Result<Vec<Self>, String>;
    fn inv(&self) -> Self;
    fn normalize(&mut self);
    fn transform_by(&self, m: &[Vec<f64>]) -> Self;
    fn clamped(&self) -> bool;
    fn closed(&self) -> bool;
    fn len_(&self) -> Result<f64, String>;
    fn param_at(&self, l: f64, tol: Option<f64>) -> Result<f64, String>;
    fn div_len(&self, l: f64) -> Result<Vec<(f64, f64)>, String>;
    fn div_count(&self, n: usize) -> Result<Vec<(f64, f64)>, String>;
    fn wts(&self) -> Vec<f64>;
    fn dehom(&self) -> Vec<Vec<f64>>;
    fn closest_param(&self, q: &[f64]) -> Result<f64, String>;
    fn closest_pt(&self, q: &[f64]) -> Result<Vec<f64>, String>;
    fn tess(&self, tol: Option<f64>) -> Vec<Vec<f64>>;
    fn bbox(&self) -> (Vec<f64>, Vec<f64>);
    fn interpolate(pts: &[Vec<f64>], p: usize) -> Result<Self, String>;
    fn periodic(pts: &[Vec<f64>], p: usize) -> Result<Self, String>;
    fn periodic_interpolate(pts: &[Vec<f64>], p: usize, s: KnotStyle) -> Result<Self, String>;
    fn polyline_(pts: &[Vec<f64>], norm: bool) -> Self;
    fn ends(&self) -> (Vec<f64>, Vec<f64>);
    fn json(&self) -> Result<Self, String>;
    fn to_json(&self) -> serde_json::Value;
    fn of_json(v: &str) -> Result<Self, String>;
    fn circle(o: &[f64], x: &[f64], y: &[f64], r: f64) -> Result<Self, String>;
    fn ellipse(o: &[f64], x: &[f64], y: &[f64]) -> Result<Self, String>;
    fn arc(o: &[f64], x: &[f64], y: &[f64], r: f64, a: f64, b: f64) -> Result<Self, String>;
    fn ellipse_arc(o: &[f64], x: &[f64], y: &[f64], a: f64, b: f64) -> Result<Self, String>;
}

pub fn hp<const N: usize>(c: &[f64]) -> OPoint<f64, Const<N>> {
    OPoint::<f64, Const<N>>::from(OVector::<f64, Const<N>>::from_column_slice(c))
}
pub fn hpf<const N: usize>(c: &[f64]) -> OPoint<f32, Const<N>> {
    let v: Vec<f32> = c.iter().map(|x| *x as f32).collect();
    OPoint::<f32, Const<N>>::from(OVector::<f32, Const<N>>::from_column_slice(&v))
}

macro_rules! es {
    ($e:expr) => {
        $e.map_err(|e| e.to_string())
    };
}

macro_rules! imp {
    ($C:ty, $T:ty, $H:expr, $D:expr, $hp:ident, $eps:expr, $name:expr) => {
        impl Cv for $C {
            const DIM: usize = $D;
            const EPS: f64 = $eps;
            const NAME: &'static str = $name;
            fn make(p: usize, cps: &[Vec<f64>], knots: &[f64]) -> Result<Self, String> {
                es!(<$C>::try_new(
                    p,
                    cps.iter().map(|c| $hp::<$H>(c)).collect(),
                    knots.iter().map(|k| *k as $T).collect()
                ))
            }
            fn model(&self) -> MC {
                MC {
                    p: self.degree(),
                    knots: self.knots().iter().map(|k| *k as f64).collect(),
                    cps: self
                        .control_points()
                        .iter()
                        .map(|c| c.coords.iter().map(|x| *x as f64).collect())
                        .collect(),
                }
            }
            fn pt(&self, u: f64) -> Vec<f64> {
                self.point_at(u as $T).coords.iter().map(|x| *x as f64).collect()
            }
            fn tan(&self, u: f64) -> Vec<f64> {
                self.tangent_at(u as $T).iter().map(|x| *x as f64).collect()
            }
            fn acc(&self, u: f64) -> Vec<f64> {
                self.second_derivative_at(u as $T)
                    .iter()
                    .map(|x| *x as f64)
                    .collect()
            }
            fn pt_tan(&self, u: f64) -> (Vec<f64>, Vec<f64>) {
                let (p, t) = self.point_tangent_at(u as $T);
                (
                    p.coords.iter().map(|x| *x as f64).collect(),
                    t.iter().map(|x| *x as f64).collect(),
                )
            }
            fn samples(&self, a: f64, b: f64, n: usize) -> Vec<Vec<f64>> {
                self.sample_regular_range(a as $T, b as $T, n)
                    .into_iter()
                    .map(|p| p.coords.iter().map(|x| *x as f64).collect())
                    .collect()
            }
            fn samples_p(&self, a: f64, b: f64, n: usize) -> Vec<(f64, Vec<f64>)> {
                self.sample_regular_range_with_parameter(a as $T, b as $T, n)
                    .into_iter()
                    .map(|(u, p)| (u as f64, p.coords.iter().map(|x| *x as f64).collect()))
                    .collect()
            }
            fn dom(&self) -> (f64, f64) {
                let (a, b) = self.knots_domain();
                (a as f64, b as f64)
            }
            fn deg(&self) -> usize {
                self.degree()
            }
            fn refine(&mut self, ks: &[f64]) -> Result<(), String> {
                es!(self.try_refine_knot(ks.iter().map(|k| *k as $T).collect()))
            }
            fn add_knot(&mut self, k: f64) -> Result<(), String> {
                es!(self.try_add_knot(k as $T))
            }
            fn remove_knot(&mut self, k: f64, tol: Option<f64>) -> Result<usize, String> {
                es!(self.try_remove_knot(k as $T, tol.map(|t| t as $T)))
            }
            fn do_clamp(&mut self) -> Result<(), String> {
                es!(self.try_clamp())
            }
            fn elevate(&self, p: usize) -> Result<Self, String> {
                es!(self.try_elevate_degree(p))
            }
            fn beziers(&self) -> Result<Vec<Self>, String> {
                es!(self.try_decompose_bezier_segments())
            }
            fn split(&self, u: f64) -> Result<(Self, Self), String> {
                es!(self.try_split(u as $T))
            }
            fn trim(&self, a: f64, b: f64) -> Result<Vec<Self>, String> {
                es!(self.try_trim_range((a as $T, b as $T)))
            }
            fn inv(&self) -> Self {
                self.inverse()
            }
            fn normalize(&mut self) {
                self.normalize_knots()
            }
            fn transform_by(&self, m: &[Vec<f64>]) -> Self {
                let mat = OMatrix::<$T, Const<$H>, Const<$H>>::from_fn(|i, j| m[i][j] as $T);
                self.transformed(&mat)
            }
            fn clamped(&self) -> bool {
                self.is_clamped()
            }
            fn closed(&self) -> bool {
                self.is_closed()
            }
            fn len_(&self) -> Result<f64, String> {
                es!(self.try_length().map(|l| l as f64))
            }
            fn param_at(&self, l: f64, tol: Option<f64>) -> Result<f64, String> {
                es!(self
                    .try_parameter_at_length(l as $T, tol.map(|t| t as $T))
                    .map(|l| l as f64))
            }
            fn div_len(&self, l: f64) -> Result<Vec<(f64, f64)>, String> {
                es!(self.try_divide_by_length(l as $T).map(|v| v
                    .into_iter()
                    .map(|x| (x.parameter() as f64, x.length() as f64))
                    .collect()))
            }
            fn div_count(&self, n: usize) -> Result<Vec<(f64, f64)>, String> {
                es!(self.try_divide_by_count(n).map(|v| v
                    .into_iter()
                    .map(|x| (x.parameter() as f64, x.length() as f64))
                    .collect()))
            }
            fn wts(&self) -> Vec<f64> {
                self.weights().iter().map(|w| *w as f64).collect()
            }
            fn dehom(&self) -> Vec<Vec<f64>> {
                self.dehomogenized_control_points()
                    .into_iter()
                    .map(|p| p.coords.iter().map(|x| *x as f64).collect())
                    .collect()
            }
            fn closest_param(&self, q: &[f64]) -> Result<f64, String> {
                es!(self.find_closest_parameter(&$hp::<$D>(q)).map(|u| u as f64))
            }
            fn closest_pt(&self, q: &[f64]) -> Result<Vec<f64>, String> {
                es!(self
                    .find_closest_point(&$hp::<$D>(q))
                    .map(|p| p.coords.iter().map(|x| *x as f64).collect()))
            }
            fn tess(&self, tol: Option<f64>) -> Vec<Vec<f64>> {
                self.tessellate(tol.map(|t| t as $T))
                    .into_iter()
                    .map(|p| p.coords.iter().map(|x| *x as f64).collect())
                    .collect()
            }
            fn bbox(&self) -> (Vec<f64>, Vec<f64>) {
                let b: BoundingBox<$T, Const<$D>> = self.into();
                (
                    b.min().iter().map(|x| *x as f64).collect(),
                    b.max().iter().map(|x| *x as f64).collect(),
                )
            }
            fn interpolate(pts: &[Vec<f64>], p: usize) -> Result<Self, String> {
                let v: Vec<_> = pts.iter().map(|c| $hp::<$D>(c)).collect();
                es!(<$C>::try_interpolate(&v, p))
            }
            fn periodic(pts: &[Vec<f64>], p: usize) -> Result<Self, String> {
                let v: Vec<_> = pts.iter().map(|c| $hp::<$D>(c)).collect();
                es!(<$C>::try_periodic(&v, p))
            }
            fn periodic_interpolate(
                pts: &[Vec<f64>],
                p: usize,
                s: KnotStyle,
            ) -> Result<Self, String> {
                let v: Vec<_> = pts.iter().map(|c| $hp::<$D>(c)).collect();
                es!(<$C>::try_periodic_interpolate(&v, p, s))
            }
            fn polyline_(pts: &[Vec<f64>], norm: bool) -> Self {
                let v: Vec<_> = pts.iter().map(|c| $hp::<$D>(c)).collect();
                <$C>::polyline(&v, norm)
            }
            fn ends(&self) -> (Vec<f64>, Vec<f64>) {
                let (a, b) = self.end_points();
                (
                    a.coords.iter().map(|x| *x as f64).collect(),
                    b.coords.iter().map(|x| *x as f64).collect(),
                )
            }
            fn json(&self) -> Result<Self, String> {
                let s = es!(serde_json::to_string(self))?;
                es!(serde_json::from_str(&s))
            }
            fn to_json(&self) -> serde_json::Value {
                serde_json::to_value(self).unwrap()
            }
            fn of_json(v: &str) -> Result<Self, String> {
                es!(serde_json::from_str(v))
            }
            fn circle(o: &[f64], x: &[f64], y: &[f64], r: f64) -> Result<Self, String> {
                es!(<$C>::try_circle(
                    &$hp::<$D>(o),
                    &$hp::<$D>(x).coords,
                    &$hp::<$D>(y).coords,
                    r as $T
                ))
            }
            fn ellipse(o: &[f64], x: &[f64], y: &[f64]) -> Result<Self, String> {
                es!(<$C>::try_ellipse(
                    &$hp::<$D>(o),
                    &$hp::<$D>(x).coords,
                    &$hp::<$D>(y).coords
                ))
            }
            fn arc(
                o: &[f64],
                x: &[f64],
                y: &[f64],
                r: f64,
                a: f64,
                b: f64,
            ) -> Result<Self, String> {
                es!(<$C>::try_arc(
                    &$hp::<$D>(o),
                    &$hp::<$D>(x).coords,
                    &$hp::<$D>(y).coords,
                    r as $T,
                    a as $T,
                    b as $T
                ))
            }
            fn ellipse_arc(
                o: &[f64],
                x: &[f64],
                y: &[f64],
                a: f64,
                b: f64,
            ) -> Result<Self, String> {
                es!(<$C>::try_ellipse_arc(
                    &$hp::<$D>(o),
                    &$hp::<$D>(x).coords,
                    &$hp::<$D>(y).coords,
                    a as $T,
                    b as $T
                ))
            }
        }
    };
}

imp!(C2, f64, 3, 2, hp, 1e-9, "2d");
imp!(C3, f64, 4, 3, hp, 1e-9, "3d");
imp!(C2f, f32, 3, 2, hpf, 2e-4, "2f");
imp!(C3f, f32, 4, 3, hpf, 2e-4, "3f");

pub fn p2(v: &[f64]) -> Point2<f64> {
    Point2::new(v[0], v[1])
}
pub fn p3(v: &[f64]) -> Point3<f64> {
    Point3::new(v[0], v[1], v[2])
}

pub fn surf_model<D: DimName>(s: &NurbsSurface<f64, D>) -> MS
where
    nalgebra::DefaultAllocator: nalgebra::allocator::Allocator<D>,
    D: nalgebra::DimNameSub<nalgebra::U1>,
    nalgebra::DefaultAllocator: nalgebra::allocator::Allocator<nalgebra::DimNameDiff<D, nalgebra::U1>>,
{
    MS {
        pu: s.u_degree(),
        pv: s.v_degree(),
        ku: s.u_knots().to_vec(),
        kv: s.v_knots().to_vec(),
        cps: s
            .control_points()
            .iter()
            .map(|r| r.iter().map(|c| c.coords.iter().copied().collect()).collect())
            .collect(),
    }
}
