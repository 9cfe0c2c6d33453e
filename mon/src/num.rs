//! The two float types behind one trait, exact arithmetic, and generators.
use crate::rng::Rng;
use nalgebra::{Point, RealField};
use num_bigint::{BigInt, Sign};
use num_traits::{AsPrimitive, Bounded, Float};
use std::cmp::Ordering;

pub trait Fl:
    RealField
    + Float
    + Bounded
    + Copy
    + Default
    + mapping_algorithms::types::IsNan
    + std::iter::Sum
    + AsPrimitive<usize>
    + AsPrimitive<isize>
    + AsPrimitive<i32>
    + AsPrimitive<i64>
    + AsPrimitive<u32>
    + AsPrimitive<u64>
    + AsPrimitive<f32>
    + AsPrimitive<f64>
    + Send
    + Sync
    + 'static
{
    const EPS: f64;
    const NAME: &'static str;
    /// Largest n such that all integers in -n..=n are exact.
    const INT: i64;
    fn of(x: f64) -> Self;
    fn f(self) -> f64;
    fn bits(self) -> u64;
    fn from_bits(b: u64) -> Self;
}
impl Fl for f32 {
    const EPS: f64 = f32::EPSILON as f64;
    const NAME: &'static str = "f32";
    const INT: i64 = 1 << 24;
    fn of(x: f64) -> Self {
        x as f32
    }
    fn f(self) -> f64 {
        self as f64
    }
    fn bits(self) -> u64 {
        self.to_bits() as u64
    }
    fn from_bits(b: u64) -> Self {
        f32::from_bits(b as u32)
    }
}
impl Fl for f64 {
    const EPS: f64 = f64::EPSILON;
    const NAME: &'static str = "f64";
    const INT: i64 = 1 << 53;
    fn of(x: f64) -> Self {
        x
    }
    fn f(self) -> f64 {
        self
    }
    fn bits(self) -> u64 {
        self.to_bits()
    }
    fn from_bits(b: u64) -> Self {
        f64::from_bits(b)
    }
}

pub fn pt<T: Fl, const N: usize>(a: [f64; N]) -> Point<T, N> {
    Point::from(std::array::from_fn::<T, N, _>(|i| T::of(a[i])))
}
pub fn arr<T: Fl, const N: usize>(p: &Point<T, N>) -> [f64; N] {
    std::array::from_fn(|i| p[i].f())
}
pub fn bits<T: Fl, const N: usize>(p: &Point<T, N>) -> [u64; N] {
    std::array::from_fn(|i| p[i].bits())
}
/// Bits with -0.0 folded into 0.0: equal exactly when the points compare equal.
pub fn key<T: Fl, const N: usize>(p: &Point<T, N>) -> [u64; N] {
    std::array::from_fn(|i| (p[i] + T::of(0.0)).bits())
}
pub fn hash_pts<T: Fl, const N: usize>(ps: &[Point<T, N>]) -> u64 {
    crate::rt::hash_bytes(
        ps.iter()
            .flat_map(|p| bits(p))
            .chain([ps.len() as u64, N as u64, T::EPS.to_bits()]),
    )
}
pub fn show<T: Fl, const N: usize>(ps: &[Point<T, N>]) -> String {
    let v: Vec<[f64; N]> = ps.iter().map(arr).collect();
    format!("{} {}D n={} {:?}", T::NAME, N, ps.len(), v)
}
pub fn d2<const N: usize>(a: [f64; N], b: [f64; N]) -> f64 {
    (0..N).map(|i| (a[i] - b[i]) * (a[i] - b[i])).sum()
}

// ------------------------------------------------------------------- exact
/// mantissa and exponent: x = m * 2^e
fn split(x: f64) -> (i64, i32) {
    if x == 0.0 {
        return (0, 0);
    }
    let b = x.to_bits();
    let e = ((b >> 52) & 0x7ff) as i32;
    let f = (b & ((1 << 52) - 1)) as i64;
    let (m, e) = if e == 0 { (f, -1074) } else { (f | (1 << 52), e - 1075) };
    let t = m.trailing_zeros() as i32;
    let m = m >> t;
    (if x < 0.0 { -m } else { m }, e + t)
}
/// Coordinates scaled to a common power of two as integers, when they all fit
/// 60 bits (so that squared differences sum within i128).
pub fn to_ints<const N: usize>(ps: &[[f64; N]]) -> Option<Vec<[i128; N]>> {
    let mut lo = i32::MAX;
    for p in ps {
        for &x in p {
            let (m, e) = split(x);
            if m != 0 {
                lo = lo.min(e);
            }
        }
    }
    let mut out = Vec::with_capacity(ps.len());
    for p in ps {
        let mut q = [0i128; N];
        for i in 0..N {
            let (m, e) = split(p[i]);
            if m != 0 {
                let sh = e - lo;
                let bits = 64 - m.unsigned_abs().leading_zeros() as i32;
                if sh + bits > 60 {
                    return None;
                }
                q[i] = (m as i128) << sh;
            }
        }
        out.push(q);
    }
    Some(out)
}
fn big(x: f64, lo: i32) -> BigInt {
    let (m, e) = split(x);
    if m == 0 {
        return BigInt::from(0);
    }
    BigInt::from(m) << ((e - lo) as usize)
}
/// Exact sign of (b-a) x (c-a): Greater = counter-clockwise.
pub fn orient(a: [f64; 2], b: [f64; 2], c: [f64; 2]) -> Ordering {
    if let Some(v) = to_ints(&[a, b, c]) {
        let (a, b, c) = (v[0], v[1], v[2]);
        let d = (b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0]);
        return d.cmp(&0);
    }
    let mut lo = i32::MAX;
    for p in [a, b, c] {
        for x in p {
            let (m, e) = split(x);
            if m != 0 {
                lo = lo.min(e)
            }
        }
    }
    let g = |p: [f64; 2]| (big(p[0], lo), big(p[1], lo));
    let (ax, ay) = g(a);
    let (bx, by) = g(b);
    let (cx, cy) = g(c);
    let d = (bx - &ax) * (cy - &ay) - (by - &ay) * (cx - &ax);
    match d.sign() {
        Sign::Minus => Ordering::Less,
        Sign::NoSign => Ordering::Equal,
        Sign::Plus => Ordering::Greater,
    }
}
pub fn int_d2<const N: usize>(a: [i128; N], b: [i128; N]) -> i128 {
    (0..N).map(|i| (a[i] - b[i]) * (a[i] - b[i])).sum()
}

// -------------------------------------------------------------- generators
/// A generated cloud; `exact` when every coordinate is a small multiple of a
/// power of two, so that sums, differences and products of two differences
/// are exact in T and no rounding can excuse a result.
pub struct Cloud<T: Fl, const N: usize> {
    pub pts: Vec<Point<T, N>>,
    pub exact: bool,
    pub family: &'static str,
}

/// Bits of coordinate range that keep N-term sums of squared differences
/// exact in T.
pub fn exact_span<T: Fl>(n_dims: usize) -> i64 {
    // differences < 2^(k+1), squares < 2^(2k+2), N of them
    let bits = if T::INT == 1 << 24 { 24 } else { 53 };
    let nb = usize::BITS - n_dims.leading_zeros();
    1 << ((bits - nb as i64 - 2) / 2)
}

pub fn cloud<T: Fl, const N: usize>(r: &mut Rng, n: usize) -> Cloud<T, N> {
    let fam = r.below(14);
    cloud_of::<T, N>(r, n, fam)
}

pub fn cloud_of<T: Fl, const N: usize>(r: &mut Rng, n: usize, fam: u64) -> Cloud<T, N> {
    let span = exact_span::<T>(N);
    let mut pts: Vec<[f64; N]> = Vec::with_capacity(n);
    let (family, exact): (&'static str, bool) = match fam {
        0 | 1 => {
            let s = 10f64.powi(r.int(-3, 4) as i32);
            for _ in 0..n {
                pts.push(std::array::from_fn(|_| r.sym(s)));
            }
            ("uniform", false)
        }
        2 | 3 => {
            // tiny integer grid: many ties and duplicates
            let k = 1 + r.int(0, 6);
            for _ in 0..n {
                pts.push(std::array::from_fn(|_| r.int(-k, k) as f64));
            }
            ("small-grid", true)
        }
        4 => {
            // dyadic grid over the whole exact range
            let sc = 2f64.powi(r.int(-6, 3) as i32);
            for _ in 0..n {
                pts.push(std::array::from_fn(|_| r.int(-span + 1, span - 1) as f64 * sc));
            }
            ("dyadic", true)
        }
        5 => {
            // few distinct points, repeated
            let d = 1 + r.usize(6);
            let base: Vec<[f64; N]> = (0..d)
                .map(|_| std::array::from_fn(|_| r.int(-20, 20) as f64 / 4.0))
                .collect();
            for _ in 0..n {
                pts.push(*r.pick(&base));
            }
            ("repeated", true)
        }
        6 => {
            // sorted along an axis (both ways): degenerate search trees
            let sgn = if r.chance(1, 2) { 1 } else { -1 };
            let m = n.min(2 * span as usize - 2) as i64;
            for i in 0..n {
                let i = (i as i64) % m.max(1) - m / 2;
                pts.push(std::array::from_fn(|a| {
                    if a == 0 {
                        (sgn * i) as f64
                    } else {
                        r.int(-2, 2) as f64
                    }
                }));
            }
            ("sorted-axis", true)
        }
        7 => {
            // on a line in general direction
            let d: [f64; N] = std::array::from_fn(|_| r.int(-3, 3) as f64);
            let o: [f64; N] = std::array::from_fn(|_| r.int(-8, 8) as f64);
            let m = (span / 8).min(200);
            for _ in 0..n {
                let t = r.int(-m, m) as f64;
                pts.push(std::array::from_fn(|a| o[a] + t * d[a]));
            }
            ("collinear", true)
        }
        8 => {
            // one coordinate shared by everything
            let ax = r.usize(N);
            let v = r.int(-5, 5) as f64;
            for _ in 0..n {
                pts.push(std::array::from_fn(|a| {
                    if a == ax {
                        v
                    } else {
                        r.int(-50, 50) as f64 / 2.0
                    }
                }));
            }
            ("flat", true)
        }
        9 => {
            // tight clusters far apart
            let c: Vec<[f64; N]> = (0..4)
                .map(|_| std::array::from_fn(|_| r.sym(1000.0)))
                .collect();
            for _ in 0..n {
                let b = *r.pick(&c);
                pts.push(std::array::from_fn(|a| b[a] + r.sym(0.01)));
            }
            ("clusters", false)
        }
        10 => {
            // magnitudes spread over many decades
            for _ in 0..n {
                pts.push(std::array::from_fn(|_| {
                    r.sym(1.0) * 10f64.powi(r.int(-6, 6) as i32)
                }));
            }
            ("decades", false)
        }
        11 => {
            // large common offset, small detail
            let o: [f64; N] = std::array::from_fn(|_| r.sym(1e5));
            for _ in 0..n {
                pts.push(std::array::from_fn(|a| o[a] + r.sym(10.0)));
            }
            ("offset", false)
        }
        12 => {
            // signed zeros, extremes of the small range
            let vals = [0.0, -0.0, 1.0, -1.0, 0.5, -0.5, 2.0, -2.0];
            for _ in 0..n {
                pts.push(std::array::from_fn(|_| *r.pick(&vals)));
            }
            ("signed-zeros", true)
        }
        _ => {
            // on a sphere/circle with jitter
            let s = 10f64.powi(r.int(-1, 3) as i32);
            let j = if r.chance(1, 2) { 0.0 } else { 1e-3 };
            for _ in 0..n {
                let v: [f64; N] = std::array::from_fn(|_| r.gauss());
                let l = v.iter().map(|x| x * x).sum::<f64>().sqrt().max(1e-9);
                let k = s * (1.0 + r.sym(j)) / l;
                pts.push(std::array::from_fn(|a| v[a] * k));
            }
            ("shell", false)
        }
    };
    Cloud {
        pts: pts.into_iter().map(pt).collect(),
        exact,
        family,
    }
}

/// Any finite value of T, every exponent as likely as any other.
pub fn any_finite<T: Fl>(r: &mut Rng) -> T {
    loop {
        let b = r.u64();
        let x = if T::INT == 1 << 24 { f32::from_bits(b as u32) as f64 } else { f64::from_bits(b) };
        if x.is_finite() {
            return T::of(x);
        }
    }
}
/// The value `k` representable steps away from x (finite, k small).
pub fn steps<T: Fl>(x: T, k: i64) -> T {
    fn ord(b: i64) -> i64 {
        if b < 0 { i64::MIN.wrapping_sub(b) } else { b }
    }
    let y = if T::INT == 1 << 24 {
        let b = (x.bits() as u32 as i32) as i64;
        let o = if b < 0 { i32::MIN as i64 - b } else { b } + k;
        f32::from_bits((if o < 0 { i32::MIN as i64 - o } else { o }) as i32 as u32) as f64
    } else {
        f64::from_bits(ord(ord(x.bits() as i64).wrapping_add(k)) as u64)
    };
    if y.is_finite() { T::of(y) } else { x }
}
/// Points for guarantees that rest on comparisons alone and so hold over the
/// whole type: any bit pattern, subnormals, the largest magnitudes, neighbours
/// one or two representable steps apart. Never NaN or infinite.
pub fn wild_cloud<T: Fl, const N: usize>(r: &mut Rng, n: usize) -> Cloud<T, N> {
    let tiny: T = Float::min_positive_value();
    let max: T = Float::max_value();
    let fam = r.below(6);
    let base: Vec<T> = (0..1 + r.usize(3)).map(|_| any_finite::<T>(r)).collect();
    let g = |r: &mut Rng| -> T {
        match fam {
            0 => any_finite(r),
            1 => steps(T::of(0.0), r.int(-4, 4)),
            2 => tiny * T::of(r.sym(8.0)),
            3 => max * T::of(r.sym(1.0)),
            4 => {
                let b = *r.pick(&base);
                steps(b, r.int(-2, 2))
            }
            _ => *r.pick(&[T::of(0.0), T::of(-0.0), tiny, -tiny, max, -max, T::of(1.0), T::of(-1.0), steps(T::of(0.0), 1), steps(T::of(0.0), -1)]),
        }
    };
    Cloud {
        pts: (0..n).map(|_| Point::from(std::array::from_fn::<T, N, _>(|_| g(r)))).collect(),
        exact: false,
        family: ["any bits", "smallest subnormals", "around the smallest normals", "the largest", "representable neighbours", "extremes"][fam as usize],
    }
}
/// A cloud with every coordinate multiplied by one power of two, as far from 1
/// as squared distances allow; exactness survives.
pub fn rescaled<T: Fl, const N: usize>(r: &mut Rng, mut c: Cloud<T, N>) -> Cloud<T, N> {
    let lim = if T::INT == 1 << 24 { 34 } else { 440 };
    let k = T::of(2f64.powi(r.int(-lim, lim) as i32));
    for p in &mut c.pts {
        for i in 0..N {
            p[i] *= k;
        }
    }
    c
}

/// A query point related to the cloud in one of several adversarial ways.
pub fn query<T: Fl, const N: usize>(r: &mut Rng, c: &Cloud<T, N>) -> (Point<T, N>, bool) {
    if c.pts.is_empty() {
        return (pt(std::array::from_fn(|_| r.int(-3, 3) as f64)), true);
    }
    let a = arr(r.pick(&c.pts));
    let b = arr(r.pick(&c.pts));
    if c.exact {
        match r.below(5) {
            0 => return (pt(a), true),
            1 => {
                // between two points: halves stay exact for the small families
                let m: [f64; N] = std::array::from_fn(|i| (a[i] + b[i]) / 2.0);
                return (pt(m), false);
            }
            2 => {
                // mixed coordinates: sits on splitting planes
                let k = std::array::from_fn(|i| if r.chance(1, 2) { a[i] } else { b[i] });
                return (pt(k), true);
            }
            3 => {
                let k = std::array::from_fn(|i| {
                    let v = a[i] + if c.family == "dyadic" { 0.0 } else { r.int(-2, 2) as f64 };
                    v
                });
                return (pt(k), true);
            }
            _ => {}
        }
    }
    match r.below(4) {
        0 => (pt(a), c.exact),
        1 => (
            pt(std::array::from_fn(|i| if r.chance(1, 2) { a[i] } else { b[i] })),
            c.exact,
        ),
        2 => (pt(std::array::from_fn(|i| (a[i] + b[i]) / 2.0)), false),
        _ => {
            let s = (0..N).map(|i| (a[i] - b[i]).abs()).fold(1e-3, f64::max);
            (pt(std::array::from_fn(|i| a[i] + r.sym(2.0 * s))), false)
        }
    }
}

/// Verdict on a claimed nearest point: `cand` must be one of `pts` (as value)
/// and no other may be closer — exactly, when the inputs are exact, else up
/// to the rounding of the squared distance in T.
pub fn check_nearest<T: Fl, const N: usize>(
    q: &Point<T, N>,
    pts: &[Point<T, N>],
    cand: &Point<T, N>,
    exact: bool,
) -> Result<(), String> {
    let ck = key(cand);
    if !pts.iter().any(|p| key(p) == ck) {
        return Err(format!("{:?} is not one of the points", arr(cand)));
    }
    let qa = arr(q);
    if exact {
        let mut all: Vec<[f64; N]> = pts.iter().map(arr).collect();
        all.push(qa);
        all.push(arr(cand));
        if let Some(v) = to_ints(&all) {
            let n = pts.len();
            let dc = int_d2(v[n], v[n + 1]);
            // exact in T only while every squared distance is a T without rounding
            let widest = (0..n).map(|i| int_d2(v[n], v[i])).max().unwrap_or(0);
            let exact = (widest as f64) * T::EPS <= 2.0;
            for i in 0..n * exact as usize {
                if int_d2(v[n], v[i]) < dc {
                    return Err(format!(
                        "returned {:?} but {:?} is strictly closer to {:?}",
                        arr(cand),
                        all[i],
                        qa
                    ));
                }
            }
            if exact {
                return Ok(());
            }
        }
    }
    let dc = d2(qa, arr(cand));
    // rounding of each squared difference plus the sum, in T
    let tol = 1.0 + (4.0 + 2.0 * N as f64) * T::EPS;
    let tiny = Float::min_positive_value();
    let tiny: T = tiny;
    for p in pts {
        let d = d2(qa, arr(p));
        if d * tol + 4.0 * N as f64 * tiny.f() < dc {
            return Err(format!(
                "returned {:?} at squared distance {dc} but {:?} is at {d} from {:?}",
                arr(cand),
                arr(p),
                qa
            ));
        }
    }
    Ok(())
}

/// A NaN of either sign: the usual one, or any of the millions of others.
pub fn nan<T: Fl>(r: &mut crate::rng::Rng) -> T {
    let usual = T::of(f64::NAN);
    let q = if r.chance(1, 2) {
        usual
    } else {
        // every bit of the fraction is the payload's, as long as one is set
        let infinity = T::of(f64::INFINITY).bits();
        let frac = (usual.bits() ^ infinity) * 2 - 1;
        let p = match r.below(3) {
            0 => 1 << r.below(64 - frac.leading_zeros() as u64),
            _ => r.u64() & frac,
        };
        T::from_bits(infinity | p.max(1))
    };
    debug_assert!(q.f().is_nan());
    if r.chance(1, 2) { -q } else { q }
}
