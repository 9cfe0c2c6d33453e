//! Rigid motions and the best of them, computed independently in f64.
use crate::num::*;
use crate::rng::Rng;
use mapping_algorithms::types::{AbstractIsometry, IsometryAbstractor};
use nalgebra::{Isometry, Translation, UnitComplex, UnitQuaternion, Vector3};

/// Largest eigenvalue of a symmetric 4x4.
pub fn max_eig4(a: [[f64; 4]; 4]) -> f64 {
    eig4(a).into_iter().fold(f64::NEG_INFINITY, f64::max)
}
/// Eigenvalues of a symmetric 4x4 (Jacobi), the rows they end on.
pub fn eig4(mut a: [[f64; 4]; 4]) -> [f64; 4] {
    // rotating mere rounding noise further would only add to it
    let noise = 1e-18 * a.iter().flatten().fold(0.0f64, |m, x| m.max(x.abs()));
    for _ in 0..60 {
        let mut off = 0.0f64;
        for p in 0..4 {
            for q in p + 1..4 {
                if a[p][q].abs() <= noise {
                    continue;
                }
                off = off.max(a[p][q].abs());
                let th = (a[q][q] - a[p][p]) / (2.0 * a[p][q]);
                let t = th.signum() / (th.abs() + (th * th + 1.0).sqrt());
                let t = if th == 0.0 { 1.0 } else { t };
                let c = 1.0 / (t * t + 1.0).sqrt();
                let s = t * c;
                for k in 0..4 {
                    let (x, y) = (a[k][p], a[k][q]);
                    a[k][p] = c * x - s * y;
                    a[k][q] = s * x + c * y;
                }
                for k in 0..4 {
                    let (x, y) = (a[p][k], a[q][k]);
                    a[p][k] = c * x - s * y;
                    a[q][k] = s * x + c * y;
                }
                (a[p][q], a[q][p]) = (0.0, 0.0);
            }
        }
        if off == 0.0 {
            break;
        }
    }
    std::array::from_fn(|i| a[i][i])
}

/// A compensated (Neumaier) sum.
#[derive(Clone, Copy, Default)]
pub struct Sum {
    s: f64,
    c: f64,
}
impl Sum {
    pub fn add(&mut self, v: f64) {
        let t = self.s + v;
        self.c += if self.s.abs() >= v.abs() { (self.s - t) + v } else { (v - t) + self.s };
        self.s = t;
    }
    pub fn get(self) -> f64 {
        self.s + self.c
    }
}
impl FromIterator<f64> for Sum {
    fn from_iter<I: IntoIterator<Item = f64>>(it: I) -> Sum {
        let mut s = Sum::default();
        it.into_iter().for_each(|v| s.add(v));
        s
    }
}

/// The smallest sum of squared distances a rigid motion of `p` onto `q`
/// (paired) can reach, and the scale Σ|p'|²+Σ|q'|² it is computed from.
pub fn best_residual<const N: usize>(p: &[[f64; N]], q: &[[f64; N]]) -> (f64, f64, [f64; 3]) {
    let n = p.len() as f64;
    // compensated sums: thousands of equal terms round the same way
    let mean = |v: &[[f64; N]]| -> [f64; N] { std::array::from_fn(|i| v.iter().map(|x| x[i]).collect::<Sum>().get() / n) };
    let (mp, mq) = (mean(p), mean(q));
    let mut s = [[Sum::default(); N]; N]; // s[i][j] = Σ p_i q_j
    let (mut pp, mut qq) = (Sum::default(), Sum::default());
    for (a, b) in p.iter().zip(q) {
        for i in 0..N {
            let x = a[i] - mp[i];
            pp.add(x * x);
            let y = b[i] - mq[i];
            qq.add(y * y);
            for j in 0..N {
                s[i][j].add(x * (b[j] - mq[j]));
            }
        }
    }
    let s = s.map(|r| r.map(|v| v.get()));
    let (pp, qq) = (pp.get(), qq.get());
    let (lam, sv) = best_trace(&s);
    ((pp + qq - 2.0 * lam).max(0.0), pp + qq, sv)
}
/// The largest Σ R_ji s_ij a rotation R reaches, and the singular values of s
/// (3D).
pub fn best_trace<const N: usize>(s: &[[f64; N]; N]) -> (f64, [f64; 3]) {
    let lam = if N == 2 {
        // max over angle of cos*(xx+yy) + sin*(xy-yx)
        let (c, d) = (s[0][0] + s[1][1], s[0][1] - s[1][0]);
        (c * c + d * d).sqrt()
    } else {
        let (xx, xy, xz) = (s[0][0], s[0][1], s[0][2]);
        let (yx, yy, yz) = (s[1][0], s[1][1], s[1][2]);
        let (zx, zy, zz) = (s[2][0], s[2][1], s[2][2]);
        max_eig4([
            [xx + yy + zz, yz - zy, zx - xz, xy - yx],
            [yz - zy, xx - yy - zz, xy + yx, zx + xz],
            [zx - xz, xy + yx, -xx + yy - zz, yz + zy],
            [xy - yx, zx + xz, yz + zy, -xx - yy + zz],
        ])
    };
    // singular values of the covariance (the roots of its Gram matrix)
    let sv = if N == 3 {
        let mut g = [[0.0; 4]; 4];
        for i in 0..3 {
            for j in 0..3 {
                g[i][j] = (0..3).map(|k| s[k][i] * s[k][j]).sum();
            }
        }
        let e = eig4(g);
        let mut e = [e[0].max(0.0).sqrt(), e[1].max(0.0).sqrt(), e[2].max(0.0).sqrt()];
        e.sort_by(|a, b| b.total_cmp(a));
        e
    } else {
        [0.0; 3]
    };
    (lam, sv)
}

/// What the best residual may be missed by in 3D: a covariance off by a few
/// roundings of its largest singular value turns the best rotation by that
/// over the sum of the two smaller ones, about the axis where it costs least.
pub fn svd_loss<T: Fl>(sv: [f64; 3]) -> f64 {
    let [a, b, c] = sv;
    if a == 0.0 {
        return 0.0;
    }
    let angle = if b == 0.0 { 2.0 } else { (256.0 * T::EPS * a / (b + c)).min(2.0) };
    (b + c) * angle * angle + 64.0 * T::EPS * T::EPS * a
}

/// A rigid motion of the harness, in f64.
#[derive(Clone, Copy)]
pub struct Rigid<const N: usize> {
    pub r: [[f64; N]; N],
    pub t: [f64; N],
}
impl<const N: usize> Rigid<N> {
    pub fn identity() -> Self {
        Rigid { r: std::array::from_fn(|i| std::array::from_fn(|j| (i == j) as u8 as f64)), t: [0.0; N] }
    }
    pub fn apply(&self, p: [f64; N]) -> [f64; N] {
        std::array::from_fn(|i| (0..N).map(|j| self.r[i][j] * p[j]).sum::<f64>() + self.t[i])
    }
    pub fn inv(&self, p: [f64; N]) -> [f64; N] {
        std::array::from_fn(|i| (0..N).map(|j| self.r[j][i] * (p[j] - self.t[j])).sum::<f64>())
    }
}
pub trait Dim<T: Fl, const N: usize>: AbstractIsometry<T, N> {
    fn make(angle: f64, axis: [f64; 3], t: [f64; N]) -> Isometry<T, Self::RotType, N>;
    fn parts(x: &Isometry<T, Self::RotType, N>) -> (Rigid<N>, f64);
}
impl<T: Fl> Dim<T, 2> for IsometryAbstractor<T, 2> {
    fn make(angle: f64, _: [f64; 3], t: [f64; 2]) -> Isometry<T, UnitComplex<T>, 2> {
        Isometry::from_parts(Translation::from([T::of(t[0]), T::of(t[1])]), UnitComplex::new(T::of(angle)))
    }
    fn parts(x: &Isometry<T, UnitComplex<T>, 2>) -> (Rigid<2>, f64) {
        let (c, s) = (x.rotation.re.f(), x.rotation.im.f());
        (Rigid { r: [[c, -s], [s, c]], t: [x.translation.x.f(), x.translation.y.f()] }, (c * c + s * s - 1.0).abs())
    }
}
impl<T: Fl> Dim<T, 3> for IsometryAbstractor<T, 3> {
    fn make(angle: f64, ax: [f64; 3], t: [f64; 3]) -> Isometry<T, UnitQuaternion<T>, 3> {
        let v = Vector3::new(T::of(ax[0] * angle), T::of(ax[1] * angle), T::of(ax[2] * angle));
        Isometry::from_parts(Translation::from(t.map(T::of)), UnitQuaternion::new(v))
    }
    fn parts(x: &Isometry<T, UnitQuaternion<T>, 3>) -> (Rigid<3>, f64) {
        let q = x.rotation.coords;
        let (i, j, k, w) = (q[0].f(), q[1].f(), q[2].f(), q[3].f());
        let n = i * i + j * j + k * k + w * w;
        let r = [
            [1.0 - 2.0 * (j * j + k * k), 2.0 * (i * j - k * w), 2.0 * (i * k + j * w)],
            [2.0 * (i * j + k * w), 1.0 - 2.0 * (i * i + k * k), 2.0 * (j * k - i * w)],
            [2.0 * (i * k - j * w), 2.0 * (j * k + i * w), 1.0 - 2.0 * (i * i + j * j)],
        ];
        let t = x.translation.vector;
        (Rigid { r, t: [t[0].f(), t[1].f(), t[2].f()] }, (n - 1.0).abs())
    }
}
pub fn unit3(r: &mut Rng) -> [f64; 3] {
    loop {
        let v = [r.gauss(), r.gauss(), r.gauss()];
        let l = d2(v, [0.0; 3]).sqrt();
        if l > 0.1 {
            return [v[0] / l, v[1] / l, v[2] / l];
        }
    }
}
