//! Iterative closest point: validation, the step contract, convergence.
use mon::num::*;
use mon::rigid::*;
use mon::rng::Rng;
use mon::rt::*;
use mon::{bad, ensure};
use mapping_algorithms::kd_tree::KDTree;
use mapping_algorithms::point_clouds::{icp, icp_iteration, ICPConfiguration, ICPError};
use mapping_algorithms::types::{AbstractIsometry, IsometryAbstractor};
use nalgebra::{Isometry, Point};
use num_traits::{AsPrimitive, Bounded};

fn spread<T: Fl, const N: usize>(p: &[Point<T, N>]) -> f64 {
    p.iter().flat_map(|x| arr(x)).fold(0.0, |a, b| a.max(b.abs()))
}
/// Nearest of `b` to `p` with the gap to the runner-up (by location).
fn nn<const N: usize>(p: [f64; N], b: &[[f64; N]]) -> (usize, f64, f64) {
    let (mut bi, mut bd, mut sd) = (0, f64::INFINITY, f64::INFINITY);
    for (i, q) in b.iter().enumerate() {
        let d = d2(p, *q);
        if d < bd {
            if b[bi] != *q {
                sd = bd;
            }
            bi = i;
            bd = d;
        } else if d < sd && *q != b[bi] {
            sd = d;
        }
    }
    (bi, bd, sd)
}

/// Clouds ICP is run on.
fn icp_cloud<T: Fl, const N: usize>(r: &mut Rng, n: usize) -> (Vec<Point<T, N>>, &'static str) {
    let s = *r.pick(&[1.0, 5.0, 30.0]);
    let o: [f64; N] = if r.chance(1, 4) { std::array::from_fn(|_| r.sym(10.0 * s)) } else { [0.0; N] };
    let (name, v): (&'static str, Vec<[f64; N]>) = match r.below(9) {
        0 | 1 => ("uniform", (0..n).map(|_| std::array::from_fn(|_| r.sym(s))).collect()),
        2 => {
            // planar in general position (a line in 2D)
            let d1: [f64; N] = std::array::from_fn(|_| r.sym(1.0));
            let d2_: [f64; N] = if N == 2 { [0.0; N] } else { std::array::from_fn(|_| r.sym(1.0)) };
            ("hyperplane", (0..n).map(|_| { let (a, b) = (r.sym(s), r.sym(s)); std::array::from_fn(|i| a * d1[i] + b * d2_[i]) }).collect())
        }
        3 => {
            let z = r.usize(N);
            ("axis plane", (0..n).map(|_| std::array::from_fn(|i| if i == z { 0.0 } else { r.sym(s) })).collect())
        }
        4 => {
            let d1: [f64; N] = std::array::from_fn(|_| r.sym(1.0));
            ("line", (0..n).map(|_| { let a = r.sym(s); std::array::from_fn(|i| a * d1[i]) }).collect())
        }
        5 => {
            let k = 1 + r.usize(3);
            let b: Vec<[f64; N]> = (0..k).map(|_| std::array::from_fn(|_| r.sym(s))).collect();
            ("repeated", (0..n).map(|_| *r.pick(&b)).collect())
        }
        6 => ("shell", (0..n).map(|_| { let v: [f64; N] = std::array::from_fn(|_| r.gauss()); let l = d2(v, [0.0; N]).sqrt().max(1e-6); std::array::from_fn(|i| s * v[i] / l) }).collect()),
        7 => ("grid", (0..n).map(|_| std::array::from_fn(|_| r.int(-5, 5) as f64)).collect()),
        _ => ("anisotropic", (0..n).map(|_| std::array::from_fn(|i| r.sym(s) * 0.1f64.powi(i as i32))).collect()),
    };
    (v.into_iter().map(|p| pt(std::array::from_fn(|i| p[i] + o[i]))).collect(), name)
}

macro_rules! dims {
    ($c:expr, $f:ident) => {
        match $c.rng.below(4) {
            0 => $f::<f32, 2>($c),
            1 => $f::<f32, 3>($c),
            2 => $f::<f64, 2>($c),
            _ => $f::<f64, 3>($c),
        }
    };
}

type Iso<T, const N: usize> = Isometry<T, <IsometryAbstractor<T, N> as AbstractIsometry<T, N>>::RotType, N>;

fn cfg<T: Fl>(kd: bool, iters: usize, abs: Option<f64>, int: f64) -> ICPConfiguration<T>
where
    f32: AsPrimitive<T>,
{
    ICPConfiguration::builder()
        .with_kd_tree(kd)
        .with_max_iterations(iters)
        .with_absolute_mse_threshold(abs.map(T::of))
        .with_mse_interval_threshold(T::of(int))
        .build()
}

// --------------------------------------------------------- C11 validation
fn next_up<T: Fl>(x: T) -> T {
    if T::INT == 1 << 24 {
        T::of(f32::from_bits((x.f() as f32).to_bits() + 1) as f64)
    } else {
        T::of(f64::from_bits(x.f().to_bits() + 1))
    }
}
fn validation<T: Fl, const N: usize>(c: &mut Case) -> Out
where
    IsometryAbstractor<T, N>: Dim<T, N>,
    usize: AsPrimitive<T>,
    f32: AsPrimitive<T>,
{
    let eps = T::of(T::EPS);
    let thr = |r: &mut Rng| -> (T, bool) {
        match r.below(14) {
            0 => (T::of(0.0), true),
            1 => (T::of(-0.0), true),
            2 => (eps, true),
            3 => (next_up(eps), false),
            4 => (T::of(T::EPS * 0.5), true),
            5 => (T::of(-r.unit() - 1e-3), true),
            6 => (nan(r), true),
            7 => (T::of(f64::NEG_INFINITY), true),
            8 => (T::of(f64::INFINITY), false),
            9 => (-nan::<T>(r), true),
            10 => (T::of(1e-30), true),
            _ => (T::of(10f64.powi(r.int(-5, 3) as i32)), false),
        }
    };
    let bad_some = c.rng.chance(3, 4);
    let na = if bad_some && c.rng.chance(1, 4) { 0 } else { 1 + c.rng.usize(12) };
    let nb = if bad_some && c.rng.chance(1, 4) { 0 } else { 1 + c.rng.usize(12) };
    let (a, _) = icp_cloud::<T, N>(&mut c.rng, na);
    let (b, _) = icp_cloud::<T, N>(&mut c.rng, nb);
    let iters = if bad_some && c.rng.chance(1, 4) { 0 } else { 1 + c.rng.usize(6) };
    let good = |r: &mut Rng| (T::of(10f64.powi(r.int(-5, 3) as i32)), false);
    let (int, int_bad) = if bad_some && c.rng.chance(1, 2) { thr(&mut c.rng) } else { good(&mut c.rng) };
    let (abs, abs_bad) = if c.rng.chance(1, 2) {
        let (x, y) = if bad_some && c.rng.chance(1, 2) { thr(&mut c.rng) } else { good(&mut c.rng) };
        (Some(x), y)
    } else {
        (None, false)
    };
    let kd = c.rng.chance(1, 2);
    let config = ICPConfiguration::<T>::builder()
        .with_absolute_mse_threshold(abs)
        .with_mse_interval_threshold(int)
        .with_max_iterations(iters)
        .with_kd_tree(kd)
        .build();
    let text = format!(
        "{} {N}D {na} source, {nb} target points, {iters} iterations, interval {:?}, absolute {:?}, kd {kd}",
        T::NAME,
        int.f(),
        abs.map(|x| x.f())
    );
    c.note(|| format!("{text}\na {}\nb {}", show(&a), show(&b)));
    c.sample(|| text.clone());
    let r = c.call("icp", || icp(&a, &b, config))?;
    let any = na == 0 || nb == 0 || iters == 0 || int_bad || abs_bad;
    c.ev(if any { "invalid configurations" } else { "valid configurations" }, 1);
    match r {
        Ok(_) => ensure!(!any, "accepted: {text}"),
        Err(e) => {
            let named = match e {
                ICPError::SourcePointCloudEmpty => na == 0,
                ICPError::TargetPointCloudEmpty => nb == 0,
                ICPError::IterationNumIsZero => iters == 0,
                ICPError::MSEIntervalThreshold => int_bad,
                ICPError::MSEAbsoluteThreshold => abs_bad,
                ICPError::AlrogithmDidNotConverge => !any,
                _ => false,
            };
            ensure!(named, "answered {e:?}, which is not what is wrong: {text}");
        }
    }
    c.nontrivial(hash_bytes([na as u64, nb as u64, iters as u64, int.bits(), abs.map_or(1, |x| x.bits()), N as u64, T::EPS.to_bits(), any as u64]));
    // a single step against an empty target
    if c.rng.chance(1, 4) && na > 0 {
        let mut tr = a.clone();
        let (ang, ax) = (c.rng.sym(1.0), unit3(&mut c.rng));
        let t: [f64; N] = std::array::from_fn(|_| c.rng.sym(3.0));
        let mut x = <IsometryAbstractor<T, N> as Dim<T, N>>::make(ang, ax, t);
        let (x0, _) = <IsometryAbstractor<T, N> as Dim<T, N>>::parts(&x);
        let mut mse = T::of(7.0);
        let conf = cfg::<T>(kd, 5, None, 0.01);
        let empty: Vec<Point<T, N>> = vec![];
        let tree = KDTree::<T, N>::default();
        let tr0 = tr.clone();
        let r = c.call("icp_iteration", || {
            icp_iteration::<T, N>(&a, &mut tr, &empty, if kd { Some(&tree) } else { None }, &mut x, &mut mse, &conf)
        })?;
        c.ev("steps against nothing", 1);
        ensure!(matches!(r, Err(ICPError::NoNearestNeighbour)), "a step against an empty target answered {r:?}");
        let (x1, _) = <IsometryAbstractor<T, N> as Dim<T, N>>::parts(&x);
        ensure!(
            tr.iter().map(bits).eq(tr0.iter().map(bits)) && mse == T::of(7.0) && x1.r == x0.r && x1.t == x0.t,
            "a step refused for want of a target changed its state"
        );
    }
    Ok(())
}
fn c11(c: &mut Case) -> Out {
    dims!(c, validation)
}

// ---------------------------------------------------------- C12 the step
/// Relative slack on sums of squares: rounding of the covariance, the SVD and
/// the transformation, in T. Documented in DESIGN.md.
fn slack<T: Fl>() -> f64 {
    T::EPS * 64.0
}

struct Step<T: Fl, const N: usize> {
    residual: f64,
    res: Result<T, ICPError<T, N>>,
    /// correspondences were unambiguous
    clear: bool,
}

/// One monitored icp_iteration. `tr` must be what `x` makes of `a`.
#[allow(clippy::too_many_arguments)]
fn step<T: Fl, const N: usize>(
    c: &mut Case,
    a: &[Point<T, N>],
    tr: &mut [Point<T, N>],
    b: &[Point<T, N>],
    tree: Option<&KDTree<T, N>>,
    x: &mut Iso<T, N>,
    mse: &mut T,
    config: &ICPConfiguration<T>,
    abs: Option<f64>,
    int: f64,
) -> Result<Step<T, N>, Fail>
where
    IsometryAbstractor<T, N>: Dim<T, N>,
    usize: AsPrimitive<T>,
{
    let n = a.len();
    let before: Vec<[f64; N]> = tr.iter().map(arr).collect();
    let bf: Vec<[f64; N]> = b.iter().map(arr).collect();
    let aa: Vec<_> = a.iter().map(bits).collect();
    let bb: Vec<_> = b.iter().map(bits).collect();
    let prev = *mse;
    let res = c.call("icp_iteration", || icp_iteration::<T, N>(a, tr, b, tree, x, mse, config))?;
    c.ev("steps", 1);
    ensure!(a.iter().map(bits).eq(aa) && b.iter().map(bits).eq(bb), "the step changed its input clouds");
    let (m, dn) = <IsometryAbstractor<T, N> as Dim<T, N>>::parts(x);
    ensure!(
        dn <= 64.0 * T::EPS && m.t.iter().all(|v| v.is_finite()),
        "the transform after the step is not a proper rotation plus translation: |q|²-1 = {dn:e}, translation {:?}",
        m.t
    );
    let sa = spread(a);
    let sb = spread(b);
    let tmax = m.t.iter().fold(0.0f64, |p, q| p.max(q.abs()));
    let after: Vec<[f64; N]> = tr.iter().map(arr).collect();
    for i in 0..n {
        let want = m.apply(arr(&a[i]));
        for k in 0..N {
            ensure!(
                (after[i][k] - want[k]).abs() <= 64.0 * T::EPS * (sa + tmax),
                "transformed point {i} is {:?}, the transform takes the source point to {want:?}",
                after[i]
            );
        }
    }
    // correspondences of the cloud as it was before the step
    let mut clear = true;
    let mut q = Vec::with_capacity(n);
    let sbefore = before.iter().flatten().fold(0.0f64, |p, v| p.max(v.abs()));
    for p in &before {
        let (i, d, second) = nn(*p, &bf);
        let err = 16.0 * T::EPS * (d.sqrt() * (sbefore + sb) + d) + T::EPS * T::EPS * 64.0 * (sb + sbefore).powi(2);
        if second - d <= err {
            clear = false;
        }
        q.push(bf[i]);
    }
    let scale0 = (sbefore + sb + sa + tmax).powi(2) * n as f64;
    let residual = after.iter().zip(&q).map(|(p, q)| d2(*p, *q)).collect::<Sum>().get();
    if clear {
        c.ev("steps with unambiguous correspondences", 1);
        let (best, scale, sv) = best_residual(&before, &q);
        // first-order loss: an angle off by e costs about e²·scale; the
        // positions themselves carry rounding of size eps·extent
        // (a centroid of n points: up to n roundings)
        let pos = T::EPS * (sbefore + sb + sa + tmax) * (8.0 + 0.5 * n as f64);
        let tol = slack::<T>() * scale + svd_loss::<T>(sv) + 2.0 * (best * n as f64).sqrt() * pos + n as f64 * pos * pos;
        ensure!(
            residual <= best + tol,
            "the step leaves a sum of squared residuals of {residual:e} over {n} correspondences; the best rigid motion leaves {best:e} (tolerance {tol:e}; singular values {sv:?})"
        );
        let got = match &res {
            Ok(v) => v.f(),
            Err(_) => mse.f(),
        };
        let tol = 4.0 * (n as f64 + 8.0) * T::EPS * residual + 4.0 * (residual * n as f64).sqrt() * pos + n as f64 * pos * pos;
        ensure!(
            (got - residual).abs() <= tol,
            "the step reports {got:e} as the sum of squared residuals, which is {residual:e} (tolerance {tol:e})"
        );
        if let Err(ICPError::IterationDidNotConverge((ma, mb))) = &res {
            let nf = n as f64;
            for k in 0..N {
                let wa = before.iter().map(|p| p[k]).sum::<f64>() / nf;
                let wb = q.iter().map(|p| p[k]).sum::<f64>() / nf;
                let t = (nf + 4.0) * T::EPS;
                ensure!(
                    (ma[k].f() - wa).abs() <= t * (sbefore + 1e-30) && (mb[k].f() - wb).abs() <= t * (sb + 1e-30),
                    "means reported {:?} {:?}; axis {k} has {wa} and {wb}",
                    arr(ma),
                    arr(mb)
                );
            }
        }
    }
    let _ = scale0;
    match &res {
        Ok(v) => {
            let v = v.f();
            ensure!(mse.bits() == prev.bits(), "a converged step changed the stored error from {} to {}", prev.f(), mse.f());
            let by_abs = abs.map_or(false, |t| v < t);
            let by_int = (prev.f() - v).abs() < int * (1.0 + 8.0 * T::EPS) + 4.0 * T::EPS * (prev.f().abs().min(1e300) + v.abs()).min(v.abs() * 4.0 + int);
            ensure!(by_abs || by_int, "converged at {v:e} (previous {:e}) with interval {int:e} and absolute {abs:?}", prev.f());
        }
        Err(ICPError::IterationDidNotConverge(_)) => {
            let v = mse.f();
            let by_abs = abs.map_or(false, |t| v < t);
            let by_int = (prev.f() - v).abs() < int * (1.0 - 8.0 * T::EPS) - 4.0 * T::EPS * v.abs();
            ensure!(!by_abs && !by_int, "did not converge at {v:e} (previous {:e}) with interval {int:e} and absolute {abs:?}", prev.f());
        }
        Err(e) => bad!("a step over {n} points against {} answered {e:?}", b.len()),
    }
    Ok(Step { residual, res, clear })
}

/// Once in a long while a source of up to 200000 points (against few targets),
/// in double precision, where rounding of the sums stays out of the way.
fn giant<T: Fl>(c: &mut Case) -> Option<usize> {
    c.rng.giant().filter(|_| T::EPS < 1e-10).map(|n| n.min(200_000))
}
fn step_case<T: Fl, const N: usize>(c: &mut Case) -> Out
where
    IsometryAbstractor<T, N>: Dim<T, N>,
    usize: AsPrimitive<T>,
    f32: AsPrimitive<T>,
{
    let giant = giant::<T>(c);
    let n = giant.unwrap_or_else(|| 1 + c.rng.size(if c.idx % 100 == 0 { 600 } else { 120 }));
    let (a, fa) = icp_cloud::<T, N>(&mut c.rng, n);
    let (b, fb) = match c.rng.below(3) * giant.is_none() as u64 {
        0 => {
            let nb = 1 + c.rng.size(if giant.is_some() { 6 } else { 120 });
            icp_cloud::<T, N>(&mut c.rng, nb)
        }
        k => {
            // a displaced, possibly mirrored or noisy copy
            let ang = if k == 1 { c.rng.sym(0.2) } else { c.rng.sym(3.14) };
            let ax = unit3(&mut c.rng);
            let s = spread(&a) * 0.1;
            let t: [f64; N] = std::array::from_fn(|_| c.rng.sym(s));
            let (m, _) = <IsometryAbstractor<T, N> as Dim<T, N>>::parts(&<IsometryAbstractor<T, N> as Dim<T, N>>::make(ang, ax, t));
            let mirror = c.rng.chance(1, 4);
            let noise = if c.rng.chance(1, 2) { s } else { 0.0 };
            let v = a
                .iter()
                .map(|p| {
                    let mut p = arr(p);
                    if mirror {
                        p[0] = -p[0];
                    }
                    let q = m.apply(p);
                    pt(std::array::from_fn(|i| q[i] + c.rng.sym(noise)))
                })
                .collect();
            (v, if mirror { "mirrored copy" } else { "copy" })
        }
    };
    // the whole scene far smaller or larger
    let far = if T::INT == 1 << 24 { 4 } else { 9 };
    let unit = if c.rng.chance(1, 4) { 10f64.powi(c.rng.int(-far, far) as i32) } else { 1.0 };
    let at = |v: Vec<Point<T, N>>| -> Vec<Point<T, N>> { v.iter().map(|p| pt(arr(p).map(|x| x * unit))).collect() };
    let (a, b) = (at(a), at(b));
    let start_id = c.rng.chance(1, 3);
    let (ang, ax) = (if start_id { 0.0 } else { c.rng.sym(3.14) }, unit3(&mut c.rng));
    let s = spread(&a) * 0.3;
    let t: [f64; N] = if start_id { [0.0; N] } else { std::array::from_fn(|_| c.rng.sym(s)) };
    let mut x = <IsometryAbstractor<T, N> as Dim<T, N>>::make(ang, ax, t);
    let mut tr: Vec<Point<T, N>> = a.iter().map(|p| x.transform_point(p)).collect();
    let kd = c.rng.chance(1, 2);
    let int = 10f64.powi(c.rng.int(-5, 4) as i32) * unit * unit;
    let int = T::of(int).f();
    let abs = if c.rng.chance(1, 2) { Some(T::of(10f64.powi(c.rng.int(-5, 4) as i32) * unit * unit).f()) } else { None };
    let config = cfg::<T>(kd, 1 + c.rng.usize(9), abs, int);
    let mut mse = match c.rng.below(3) {
        0 => <T as Bounded>::max_value(),
        1 => T::of(10f64.powi(c.rng.int(-4, 4) as i32)),
        _ => T::of(0.0),
    };
    c.note(|| format!("{} {N}D source {fa} {}\ntarget {fb} {}\nstart angle {ang} axis {ax:?} translation {t:?} kd {kd} unit {unit:e} interval {int} absolute {abs:?}", T::NAME, show(&a), show(&b)));
    c.sample(|| format!("{} {N}D source {fa} of {n}, target {fb} of {}, start angle {ang:.3}, kd {kd}, interval {int:e}, absolute {abs:?}", T::NAME, b.len()));
    let tree = if kd { Some(c.call("KDTree::from", || KDTree::from(b.as_slice()))?) } else { None };
    let mut clear = 0;
    for _ in 0..1 + c.rng.usize(3) {
        let st = step(c, &a, &mut tr, &b, tree.as_ref(), &mut x, &mut mse, &config, abs, int)?;
        if st.clear {
            clear += 1;
        }
        match st.res {
            Ok(_) => c.ev("converged steps", 1),
            Err(_) => c.ev("unconverged steps", 1),
        }
    }
    if clear > 0 && n >= 2 {
        c.nontrivial(hash_pts(&a) ^ hash_pts(&b));
    }
    Ok(())
}
fn c12(c: &mut Case) -> Out {
    dims!(c, step_case)
}

// -------------------------------------------------- C13 residual descends
/// [`svd_loss`] of a step from `tr`, in its own correspondences.
fn step_loss<T: Fl, const N: usize>(tr: &[Point<T, N>], bf: &[[f64; N]]) -> f64 {
    let p: Vec<[f64; N]> = tr.iter().map(arr).collect();
    let q: Vec<[f64; N]> = p.iter().map(|x| bf[nn(*x, bf).0]).collect();
    svd_loss::<T>(best_residual(&p, &q).2)
}
fn descent<T: Fl, const N: usize>(c: &mut Case) -> Out
where
    IsometryAbstractor<T, N>: Dim<T, N>,
    usize: AsPrimitive<T>,
    f32: AsPrimitive<T>,
{
    let n = 3 + c.rng.size(100);
    let (mut a, fa) = icp_cloud::<T, N>(&mut c.rng, n);
    let (mut b, fb) = if c.rng.chance(1, 2) {
        let s = spread(&a) * *c.rng.pick(&[0.01, 0.1, 0.5]);
        let t: [f64; N] = std::array::from_fn(|_| c.rng.sym(s));
        let (ang, ax) = (c.rng.sym(0.5), unit3(&mut c.rng));
        let (m, _) = <IsometryAbstractor<T, N> as Dim<T, N>>::parts(&<IsometryAbstractor<T, N> as Dim<T, N>>::make(ang, ax, t));
        (a.iter().map(|p| { let q = m.apply(arr(p)); pt(std::array::from_fn(|i| q[i] + c.rng.sym(s))) }).collect(), "displaced copy")
    } else {
        let nb = 1 + c.rng.size(150);
        icp_cloud::<T, N>(&mut c.rng, nb)
    };
    // in any unit
    if c.rng.chance(1, 3) {
        let u = 10f64.powi(c.rng.int(-6, 6) as i32);
        for p in a.iter_mut().chain(b.iter_mut()) {
            *p = pt(std::array::from_fn(|i| p[i].f() * u));
        }
    }
    let nb = b.len();
    let kd = c.rng.chance(1, 2);
    c.note(|| format!("{} {N}D source {fa} {}\ntarget {fb} {}\nkd {kd}", T::NAME, show(&a), show(&b)));
    c.sample(|| format!("{} {N}D source {fa} of {n}, target {fb} of {nb}, kd {kd}", T::NAME));
    let tree = if kd { Some(c.call("KDTree::from", || KDTree::from(b.as_slice()))?) } else { None };
    let config = cfg::<T>(kd, 50, None, 1e-5);
    let bf: Vec<[f64; N]> = b.iter().map(arr).collect();
    let nnsum = |tr: &[Point<T, N>]| -> f64 { tr.iter().map(|p| nn(arr(p), &bf).1).sum() };
    let mut tr = a.clone();
    let mut x = Isometry::identity();
    let mut mse = <T as Bounded>::max_value();
    let mut last = nnsum(&tr);
    let mut moved = 0;
    let ext = spread(&a) + spread(&b);
    for k in 0..12 {
        let loss = step_loss::<T, N>(&tr, &bf);
        let r = c.call("icp_iteration", || icp_iteration::<T, N>(&a, &mut tr, &b, tree.as_ref(), &mut x, &mut mse, &config))?;
        c.ev("steps", 1);
        let reported = match r {
            Ok(v) => v.f(),
            Err(ICPError::IterationDidNotConverge(_)) => mse.f(),
            Err(e) => bad!("step {k} answered {e:?}"),
        };
        let now = nnsum(&tr);
        let (m, _) = <IsometryAbstractor<T, N> as Dim<T, N>>::parts(&x);
        let big = ext + m.t.iter().fold(0.0f64, |p, q| p.max(q.abs()));
        // Σ|p'|²+Σ|q'|² is at most n·big²
        let tol = loss + n as f64 * big * big * slack::<T>() + (8.0 + 0.5 * n as f64) * T::EPS * big * n as f64 * (last / n as f64).sqrt() * 4.0;
        ensure!(reported <= last + tol, "step {k} ({fa} onto {fb}): aligned residual {reported:e} exceeds the {last:e} it started from (tolerance {tol:e})");
        ensure!(now <= reported + tol, "step {k} ({fa} onto {fb}): nearest-neighbour residual {now:e} exceeds the aligned residual {reported:e} (tolerance {tol:e})");
        if now < last - tol {
            moved += 1;
        }
        last = now;
        if r.is_ok() {
            break;
        }
    }
    c.ev("steps with real descent", moved);
    if moved > 0 {
        c.nontrivial(hash_pts(&a) ^ hash_pts(&b));
    }
    Ok(())
}
fn c13(c: &mut Case) -> Out {
    dims!(c, descent)
}

// --------------------------------------------- C14/C15/C17 the whole loop
fn pair<T: Fl, const N: usize>(c: &mut Case) -> (Vec<Point<T, N>>, Vec<Point<T, N>>, String)
where
    IsometryAbstractor<T, N>: Dim<T, N>,
{
    let n = 1 + c.rng.size(100);
    let (a, fa) = icp_cloud::<T, N>(&mut c.rng, n);
    let (b, fb) = if c.rng.chance(1, 2) {
        let ang = c.rng.sym(0.5);
        let ax = unit3(&mut c.rng);
        let s = spread(&a) * 0.2;
        let t: [f64; N] = std::array::from_fn(|_| c.rng.sym(s));
        let (m, _) = <IsometryAbstractor<T, N> as Dim<T, N>>::parts(&<IsometryAbstractor<T, N> as Dim<T, N>>::make(ang, ax, t));
        let noise = if c.rng.chance(1, 2) { 0.02 * s } else { 0.0 };
        let v: Vec<Point<T, N>> = a.iter().map(|p| { let q = m.apply(arr(p)); pt(std::array::from_fn(|i| q[i] + c.rng.sym(noise))) }).collect();
        (v, "displaced copy")
    } else {
        let nb = 1 + c.rng.size(100);
        icp_cloud::<T, N>(&mut c.rng, nb)
    };
    let d = format!("{} {N}D source {fa} of {}, target {fb} of {}", T::NAME, a.len(), b.len());
    (a, b, d)
}

fn whole<T: Fl, const N: usize>(c: &mut Case) -> Out
where
    IsometryAbstractor<T, N>: Dim<T, N>,
    usize: AsPrimitive<T>,
    f32: AsPrimitive<T>,
{
    let (mut a, mut b, mut d) = pair::<T, N>(c);
    let kd = c.rng.chance(1, 2);
    let mut iters = match c.rng.below(4) {
        0 => 1,
        1 => 2,
        2 => 1 + c.rng.usize(6),
        _ => 1 + c.rng.usize(40),
    };
    let mut int = T::of(10f64.powf(c.rng.f(-6.0, 2.0))).f();
    if let Some(n) = giant::<T>(c) {
        // many against few
        a = icp_cloud::<T, N>(&mut c.rng, n.min(50_000)).0;
        b.truncate(6);
        d = format!("{} {N}D source of {}, target of {}", T::NAME, a.len(), b.len());
    } else if c.rng.chance(1, 5000) {
        // a long strip that has far to slide takes hundreds of iterations
        let n = 10f64.powf(c.rng.f(2.0, 3.1)) as usize;
        let (w, sh) = (c.rng.f(-0.1, 0.1).max(0.0), c.rng.f(2.0, 9.0));
        let mut strip = |o: f64| -> Vec<Point<T, N>> { (0..n).map(|_| pt(std::array::from_fn(|k| if k == 0 { c.rng.f(o, o + 10.0) } else { c.rng.sym(w) }))).collect() };
        (a, b) = (strip(0.0), strip(sh));
        d = format!("{} {N}D strips of {n}, {sh} apart", T::NAME);
        iters = *c.rng.pick(&[60, 200, 1000]);
        int = T::of(T::EPS * 100.0).f();
    }
    let abs = if c.rng.chance(1, 3) { Some(T::of(10f64.powf(c.rng.f(-6.0, 3.0))).f()) } else { None };
    c.note(|| format!("{d} kd {kd} iterations {iters} interval {int:e} absolute {abs:?}\na {}\nb {}", show(&a), show(&b)));
    c.sample(|| format!("{d} kd {kd} iterations {iters} interval {int:e} absolute {abs:?}"));
    let config = cfg::<T>(kd, iters, abs, int);
    let got = c.call("icp", || icp(&a, &b, config.clone()))?;
    // the same, one step at a time
    let tree = if kd { Some(c.call("KDTree::from", || KDTree::from(b.as_slice()))?) } else { None };
    let mut tr = a.clone();
    let mut x = Isometry::identity();
    let mut mse = <T as Bounded>::max_value();
    let mut want = None;
    let mut close = false;
    for k in 0..iters {
        let prev = mse;
        let r = c.call("icp_iteration", || icp_iteration::<T, N>(&a, &mut tr, &b, tree.as_ref(), &mut x, &mut mse, &config))?;
        c.ev("steps", 1);
        let v = match &r {
            Ok(v) => v.f(),
            _ => mse.f(),
        };
        // a step this close to a threshold may fall either way under reordering
        let near = |p: f64, q: f64| (p - q).abs() <= 1e-3 * q.abs() + 1e4 * T::EPS * v;
        if near((prev.f() - v).abs(), int) || abs.map_or(false, |t| near(v, t)) {
            close = true;
        }
        if let Ok(v) = r {
            want = Some((k, v));
            break;
        }
    }
    match (&got, want) {
        (Ok(g), Some((k, v))) => {
            c.ev("converged runs", 1);
            if k >= 100 {
                c.ev("converged runs of over 100 iterations", 1);
            }
            ensure!(g.iteration_num < iters, "converged in iteration {} of {iters}", g.iteration_num);
            if !close {
                ensure!(g.iteration_num == k, "icp reports iteration {}; stepping by hand converges in {k}", g.iteration_num);
                let (m1, _) = <IsometryAbstractor<T, N> as Dim<T, N>>::parts(&g.transform);
                let (m2, _) = <IsometryAbstractor<T, N> as Dim<T, N>>::parts(&x);
                let s = spread(&a) + spread(&b);
                let mut worst = 0.0f64;
                for p in &a {
                    worst = worst.max(d2(m1.apply(arr(p)), m2.apply(arr(p))).sqrt());
                }
                ensure!(worst <= 2e3 * T::EPS.sqrt() * 1e-2 * s + 1e-12, "the transform of icp and that of the same steps by hand move a point {worst:e} apart");
                ensure!((g.mse.f() - v.f()).abs() <= 1e-2 * v.f().abs() + 1e3 * T::EPS * s * s * a.len() as f64, "icp reports an error of {:e}, the steps by hand {:e}", g.mse.f(), v.f());
            }
        }
        (Err(ICPError::AlrogithmDidNotConverge), None) => c.ev("unconverged runs", 1),
        (g, w) => {
            let g = match g {
                Ok(s) => format!("convergence in iteration {}", s.iteration_num),
                Err(e) => format!("{e:?}"),
            };
            ensure!(close, "icp answers {g}; {iters} steps by hand give {:?}", w.map(|(k, v)| (k, v.f())));
        }
    }
    if a.len() >= 3 && b.len() >= 3 {
        c.nontrivial(hash_pts(&a) ^ hash_pts(&b) ^ int.to_bits());
    }
    Ok(())
}
fn c14(c: &mut Case) -> Out {
    dims!(c, whole)
}

fn truthful<T: Fl, const N: usize>(c: &mut Case) -> Out
where
    IsometryAbstractor<T, N>: Dim<T, N>,
    usize: AsPrimitive<T>,
    f32: AsPrimitive<T>,
{
    let (a, b, d) = pair::<T, N>(c);
    let kd = c.rng.chance(1, 2);
    let iters = 1 + c.rng.usize(50);
    let abs_only = c.rng.chance(1, 4);
    let int = T::of(if abs_only { 1e-6 } else { 10f64.powf(c.rng.f(-6.0, 1.0)) }).f();
    let abs = if abs_only || c.rng.chance(1, 3) { Some(T::of(10f64.powf(c.rng.f(-4.0, 4.0))).f()) } else { None };
    c.note(|| format!("{d} kd {kd} iterations {iters} interval {int:e} absolute {abs:?}\na {}\nb {}", show(&a), show(&b)));
    c.sample(|| format!("{d} kd {kd} iterations {iters} interval {int:e} absolute {abs:?}"));
    let got = c.call("icp", || icp(&a, &b, cfg::<T>(kd, iters, abs, int)))?;
    match got {
        Ok(g) => {
            c.ev("successes", 1);
            let (m, dn) = <IsometryAbstractor<T, N> as Dim<T, N>>::parts(&g.transform);
            ensure!(dn <= 64.0 * T::EPS * (g.iteration_num as f64 + 1.0), "rotation off the unit by {dn:e} after {} iterations", g.iteration_num + 1);
            ensure!(m.t.iter().all(|v| v.is_finite()), "translation {:?}", m.t);
            let det = if N == 2 {
                m.r[0][0] * m.r[1][1] - m.r[0][1] * m.r[1][0]
            } else {
                m.r[0][0] * (m.r[1][1] * m.r[2][2] - m.r[1][2] * m.r[2][1]) - m.r[0][1] * (m.r[1][0] * m.r[2][2] - m.r[1][2] * m.r[2][0])
                    + m.r[0][2] * (m.r[1][0] * m.r[2][1] - m.r[1][1] * m.r[2][0])
            };
            ensure!((det - 1.0).abs() < 1e-3, "rotation of determinant {det}");
            let v = g.mse.f();
            ensure!(v.is_finite() && v >= 0.0, "reported error {v}");
            let bf: Vec<[f64; N]> = b.iter().map(arr).collect();
            // what the reported transform really leaves
            let nn_sum: f64 = a.iter().map(|p| nn(m.apply(arr(p)), &bf).1).sum();
            let big = spread(&a) + spread(&b) + m.t.iter().fold(0.0f64, |p, q| p.max(q.abs()));
            let n = a.len() as f64;
            let pos = (64.0 + 0.5 * n) * T::EPS * big;
            let tol = 4.0 * (nn_sum * n).sqrt() * pos + n * pos * pos + (n + 8.0) * 4.0 * T::EPS * nn_sum;
            ensure!(
                v >= nn_sum - tol,
                "the report says {v:e}, but under the reported transform the {n} points are {nn_sum:e} (sum of squares) from their nearest targets"
            );
            // Once correspondences have settled the two agree; a wild
            // overstatement means the error belongs to another transform.
            let (mut upper, mut loss) = (0.0, 0.0);
            let mut ok = g.iteration_num >= 1;
            {
                // replay the correspondences of the last step
                let tree = if kd { Some(c.call("KDTree::from", || KDTree::from(b.as_slice()))?) } else { None };
                let config = cfg::<T>(kd, iters, abs, int);
                let mut tr = a.clone();
                let mut x = Isometry::identity();
                let mut mse = <T as Bounded>::max_value();
                for _ in 0..g.iteration_num {
                    let r = c.call("icp_iteration", || icp_iteration::<T, N>(&a, &mut tr, &b, tree.as_ref(), &mut x, &mut mse, &config))?;
                    if r.is_ok() {
                        ok = false;
                        break;
                    }
                }
                if g.iteration_num == 0 {
                    ok = true;
                }
                if ok {
                    loss = step_loss::<T, N>(&tr, &bf);
                }
                for p in a.iter().zip(&tr) {
                    upper += nn(arr(p.1), &bf).1;
                }
            }
            if ok {
                let tol = tol + loss + slack::<T>() * n * big * big + 4.0 * (upper * n).sqrt() * pos;
                ensure!(v <= upper + tol, "the report says {v:e}; the last step started from {upper:e} and can only have improved on it");
                c.ev("reports bounded above", 1);
            }
            if let Some(t) = abs {
                if v >= t {
                    c.ev("successes by interval alone", 1);
                }
            }
            if iters > 1 && a.len() >= 3 {
                c.nontrivial(hash_pts(&a) ^ hash_pts(&b) ^ int.to_bits());
            }
        }
        Err(ICPError::AlrogithmDidNotConverge) => c.ev("unconverged", 1),
        Err(e) => bad!("valid input answered {e:?}"),
    }
    Ok(())
}
fn c15(c: &mut Case) -> Out {
    dims!(c, truthful)
}

// ------------------------------------------------------------ C16 recovery
fn recover<T: Fl, const N: usize>(c: &mut Case) -> Out
where
    IsometryAbstractor<T, N>: Dim<T, N>,
    usize: AsPrimitive<T>,
    f32: AsPrimitive<T>,
{
    // targets on a jittered grid: known spacing
    let want_n = 2 + c.rng.size(120);
    let flat = c.rng.chance(1, 4);
    let line = c.rng.chance(1, 8);
    let side = if line { want_n as i64 } else { (want_n as f64).powf(1.0 / if flat { (N - 1) as f64 } else { N as f64 }).ceil() as i64 + 1 };
    let sc = *c.rng.pick(&[0.5, 1.0, 4.0]);
    let off: [f64; N] = std::array::from_fn(|_| c.rng.sym(5.0 * sc));
    // the slope of the plane/line in space
    let (ang0, ax0) = (c.rng.sym(3.0), unit3(&mut c.rng));
    let (m0, _) = <IsometryAbstractor<T, N> as Dim<T, N>>::parts(&<IsometryAbstractor<T, N> as Dim<T, N>>::make(ang0, ax0, off));
    let mut cells: Vec<[i64; N]> = vec![];
    let live = if line { 1 } else if flat { N - 1 } else { N };
    let total = side.pow(live as u32);
    for i in 0..total {
        let mut k = i;
        cells.push(std::array::from_fn(|d| {
            if d < live {
                let v = k % side;
                k /= side;
                v
            } else {
                0
            }
        }));
    }
    c.rng.shuffle(&mut cells);
    cells.truncate(want_n.max(2));
    let b: Vec<Point<T, N>> = cells
        .iter()
        .map(|k| {
            let p: [f64; N] = std::array::from_fn(|d| if d < live { sc * (k[d] as f64 + c.rng.sym(0.15)) } else { 0.0 });
            pt(m0.apply(p))
        })
        .collect();
    let bf: Vec<[f64; N]> = b.iter().map(arr).collect();
    let mut gap = f64::INFINITY;
    for i in 0..bf.len() {
        for j in 0..i {
            gap = gap.min(d2(bf[i], bf[j]));
        }
    }
    let gap = gap.sqrt();
    let n = bf.len();
    let cen: [f64; N] = std::array::from_fn(|i| bf.iter().map(|p| p[i]).sum::<f64>() / n as f64);
    let rad = bf.iter().map(|p| d2(*p, cen)).fold(0.0, f64::max).sqrt();
    // every point moves less than half the gap
    let budget = gap * c.rng.f(0.05, 0.42);
    let share = c.rng.unit();
    let ang = (budget * share / rad.max(1e-9)).min(0.8) * if c.rng.chance(1, 2) { 1.0 } else { -1.0 };
    let tl = budget * (1.0 - share);
    let ax = unit3(&mut c.rng);
    let dir = { let v: [f64; N] = std::array::from_fn(|_| c.rng.gauss()); let l = d2(v, [0.0; N]).sqrt().max(1e-9); v.map(|x| x / l) };
    let (rm, _) = <IsometryAbstractor<T, N> as Dim<T, N>>::parts(&<IsometryAbstractor<T, N> as Dim<T, N>>::make(ang, ax, [0.0; N]));
    // source = inverse image of the target about its centre
    let mut a: Vec<Point<T, N>> = vec![];
    let mut truth: Vec<[f64; N]> = vec![];
    for p in &bf {
        if n > 8 && c.rng.chance(1, 6) {
            continue; // a target without source
        }
        let q: [f64; N] = std::array::from_fn(|i| p[i] - cen[i]);
        let r = Rigid { r: rm.r, t: [0.0; N] }.inv(q);
        a.push(pt(std::array::from_fn(|i| r[i] + cen[i] + dir[i] * tl)));
        truth.push(*p);
    }
    if a.len() < 2 {
        return Ok(());
    }
    let mut order: Vec<usize> = (0..a.len()).collect();
    c.rng.shuffle(&mut order);
    let a: Vec<Point<T, N>> = order.iter().map(|&i| a[i]).collect();
    let truth: Vec<[f64; N]> = order.iter().map(|&i| truth[i]).collect();
    // pre-condition, checked on the rounded clouds
    for (p, t) in a.iter().zip(&truth) {
        if d2(arr(p), *t).sqrt() > 0.47 * gap {
            return Err(Fail::Harness("displacement generator out of bounds".into()));
        }
    }
    // centroids of many points must still be far better than the spacing
    if a.len() as f64 * T::EPS * (spread(&a) + spread(&b)) > 0.01 * gap {
        return Ok(());
    }
    let kd = c.rng.chance(1, 2);
    let iters = 2 + c.rng.usize(20);
    // a threshold above what the SVD in T can hold the error to
    let loss = if N == 3 { svd_loss::<T>(best_residual(&truth, &truth).2) } else { 0.0 };
    let int = T::of(gap * gap * *c.rng.pick(&[1e-1, 1e-2, 1e-3])).f().max(1e-4).max(T::of(8.0 * loss).f());
    let abs = if c.rng.chance(1, 3) { Some(int) } else { None };
    c.note(|| format!("{} {N}D gap {gap} moved {budget} (angle {ang}) kd {kd} iterations {iters} interval {int}\na {}\nb {}", T::NAME, show(&a), show(&b)));
    c.sample(|| format!("{} {N}D {} of {n} points, gap {gap:.3}, moved up to {budget:.3} (angle {ang:.4}), kd {kd}, interval {int:e}", T::NAME, a.len()));
    let g = c.call("icp", || icp(&a, &b, cfg::<T>(kd, iters, abs, int)))?;
    let g = match g {
        Ok(g) => g,
        Err(e) => bad!("{} points displaced by at most {budget:.4} with a gap of {gap:.4} between targets: {e:?}", a.len()),
    };
    ensure!(g.iteration_num <= 1, "took {} iterations where the second one can already stop", g.iteration_num + 1);
    let (m, _) = <IsometryAbstractor<T, N> as Dim<T, N>>::parts(&g.transform);
    let big = spread(&a) + spread(&b);
    let mut worst = 0.0f64;
    for (p, t) in a.iter().zip(&truth) {
        worst = worst.max(d2(m.apply(arr(p)), *t).sqrt());
    }
    // in 3D the rotation is as good as nalgebra's SVD: about sqrt(eps)
    let tol = 256.0 * T::EPS * big + if N == 3 { 2.0 * loss.sqrt() } else { 32.0 * T::EPS * rad };
    ensure!(worst <= tol, "a point ends {worst:e} from its counterpart (tolerance {tol:e}); it started within {budget:.4}");
    ensure!(g.mse.f() <= a.len() as f64 * tol * tol, "reported error {:e} after exact alignment", g.mse.f());
    c.ev("displacements recovered", 1);
    c.ev("points aligned", a.len() as u64);
    if ang.abs() > 1e-6 && a.len() >= 3 {
        c.nontrivial(hash_pts(&a) ^ hash_pts(&b));
    }
    Ok(())
}
fn c16(c: &mut Case) -> Out {
    dims!(c, recover)
}

// ------------------------------------------------------- C17 kd on and off
fn kd_switch<T: Fl, const N: usize>(c: &mut Case) -> Out
where
    IsometryAbstractor<T, N>: Dim<T, N>,
    usize: AsPrimitive<T>,
    f32: AsPrimitive<T>,
{
    let (a, mut b, d) = pair::<T, N>(c);
    if c.rng.chance(1, 4) {
        let k = c.rng.usize(b.len() + 1);
        for _ in 0..k {
            let p = *c.rng.pick(&b);
            b.push(p);
        }
    }
    // now and then a target far beyond the usual size
    let vast = a.len() <= 64 && c.rng.chance(1, 2500);
    if vast {
        let (lo, hi) = (b.iter().map(arr).fold([f64::MAX; N], |m, p| std::array::from_fn(|i| m[i].min(p[i]))), b.iter().map(arr).fold([f64::MIN; N], |m, p| std::array::from_fn(|i| m[i].max(p[i]))));
        let n = 10f64.powf(c.rng.f(3.5, 5.3)) as usize;
        let near = std::mem::take(&mut b);
        b = (0..n).map(|_| pt(std::array::from_fn(|i| { let w = (hi[i] - lo[i]).max(1.0); c.rng.f(lo[i] - 20.0 * w, hi[i] + 20.0 * w) }))).collect();
        // the ones that matter among, before or after the many
        match c.rng.below(3) {
            0 => b.extend(near),
            1 => b = near.into_iter().chain(b).collect(),
            _ => for p in near {
                let k = c.rng.usize(b.len());
                b[k] = p;
            }
        }
    }
    let iters = 1 + c.rng.usize(if vast { 4 } else { 30 });
    let int = T::of(10f64.powf(c.rng.f(-5.0, 0.0))).f();
    let abs = if c.rng.chance(1, 3) { Some(T::of(10f64.powf(c.rng.f(-4.0, 2.0))).f()) } else { None };
    c.note(|| if vast { format!("{d} iterations {iters} interval {int:e} absolute {abs:?}, {} targets\na {}", b.len(), show(&a)) } else { String::new() });
    c.note(|| if vast { String::new() } else { format!("{d} iterations {iters} interval {int:e} absolute {abs:?}\na {}\nb {}", show(&a), show(&b)) });
    c.sample(|| format!("{d} iterations {iters} interval {int:e} absolute {abs:?}"));
    // step both variants together; stop comparing where a tie lets them differ
    let bf: Vec<[f64; N]> = b.iter().map(arr).collect();
    let sb = spread(&b);
    let tree = c.call("KDTree::from", || KDTree::from(b.as_slice()))?;
    let (c1, c2) = (cfg::<T>(true, iters, abs, int), cfg::<T>(false, iters, abs, int));
    let (mut t1, mut t2) = (a.clone(), a.clone());
    let (mut x1, mut x2): (Iso<T, N>, Iso<T, N>) = (Isometry::identity(), Isometry::identity());
    let (mut m1, mut m2) = (<T as Bounded>::max_value(), <T as Bounded>::max_value());
    let mut agree = true;
    let mut done = None;
    for k in 0..iters {
        for p in t1.iter().chain(t2.iter()) {
            let p = arr(p);
            let (_, dd, sec) = nn(p, &bf);
            let s = sb + p.iter().fold(0.0f64, |x, y| x.max(y.abs()));
            if sec - dd <= 64.0 * T::EPS * (dd + dd.sqrt() * s + T::EPS * s * s) {
                agree = false;
            }
        }
        if !agree {
            c.ev("runs cut at a tie", 1);
            break;
        }
        let r1 = c.call("icp_iteration", || icp_iteration::<T, N>(&a, &mut t1, &b, Some(&tree), &mut x1, &mut m1, &c1))?;
        let r2 = c.call("icp_iteration", || icp_iteration::<T, N>(&a, &mut t2, &b, None, &mut x2, &mut m2, &c2))?;
        c.ev("paired steps", 1);
        ensure!(r1.is_ok() == r2.is_ok(), "step {k}: with the tree {r1:?}, without {r2:?}");
        ensure!(t1.iter().map(key).eq(t2.iter().map(key)), "step {k}: the clouds transformed with and without the tree differ");
        if r1.is_ok() {
            done = Some(k);
            break;
        }
    }
    if agree {
        let g1 = c.call("icp", || icp(&a, &b, c1.clone()))?;
        let g2 = c.call("icp", || icp(&a, &b, c2.clone()))?;
        c.ev("paired runs", 1);
        match (&g1, &g2) {
            (Ok(p), Ok(q)) => {
                ensure!(p.iteration_num == q.iteration_num, "iterations {} with the tree, {} without", p.iteration_num, q.iteration_num);
                let (m1, _) = <IsometryAbstractor<T, N> as Dim<T, N>>::parts(&p.transform);
                let (m2, _) = <IsometryAbstractor<T, N> as Dim<T, N>>::parts(&q.transform);
                ensure!(m1.t == m2.t && m1.r == m2.r && p.mse == q.mse, "transforms or errors differ with and without the tree: {:?}/{:?}, {:e}/{:e}", m1.t, m2.t, p.mse.f(), q.mse.f());
            }
            (Err(p), Err(q)) => ensure!(p == q, "{p:?} with the tree, {q:?} without"),
            (p, q) => bad!("with the tree converged={}, without converged={}", p.is_ok(), q.is_ok()),
        }
        if done.is_some() && a.len() >= 3 && b.len() >= 3 {
            c.nontrivial(hash_pts(&a) ^ hash_pts(&b));
        }
    }
    Ok(())
}
fn c17(c: &mut Case) -> Out {
    dims!(c, kd_switch)
}

// ---------------------------------------------------------- C19 the builder
#[derive(Clone, Copy, Debug)]
enum Op {
    Kd(bool),
    Iter(usize),
    Abs(Option<f64>),
    Int(f64),
}
fn builder<T: Fl>(c: &mut Case) -> Out
where
    f32: AsPrimitive<T>,
    usize: AsPrimitive<T>,
    IsometryAbstractor<T, 2>: Dim<T, 2>,
{
    let nops = c.rng.usize(9);
    let mut ops = vec![];
    for _ in 0..nops {
        ops.push(match c.rng.below(4) {
            0 => Op::Kd(c.rng.chance(1, 2)),
            1 => Op::Iter(*c.rng.pick(&[0, 1, 2, 3, 7, 20, 1000, usize::MAX])),
            2 => Op::Abs(*c.rng.pick(&[None, Some(0.0), Some(1e-3), Some(0.5), Some(1e4), Some(-1.0)])),
            _ => Op::Int(*c.rng.pick(&[0.0, 1e-3, 0.01, 0.25, 10.0, 1e6, -2.0])),
        });
    }
    c.note(|| format!("{ops:?}"));
    c.sample(|| format!("{} {ops:?}", T::NAME));
    // what the sequence should leave
    let (mut kd, mut it, mut ab, mut iv) = (false, 20usize, None, T::of(0.01f32 as f64).f());
    if T::INT != 1 << 24 {
        iv = 0.01f32 as f64;
    }
    let mut b = ICPConfiguration::<T>::builder();
    let base = b.clone();
    let base_dbg = format!("{:?}", base.build());
    let mut snaps = vec![];
    for o in &ops {
        snaps.push((b.clone(), format!("{:?}", b.build())));
        b = match *o {
            Op::Kd(v) => {
                kd = v;
                b.with_kd_tree(v)
            }
            Op::Iter(v) => {
                it = v;
                b.with_max_iterations(v)
            }
            Op::Abs(v) => {
                ab = v;
                b.with_absolute_mse_threshold(v.map(T::of))
            }
            Op::Int(v) => {
                iv = v;
                b.with_mse_interval_threshold(T::of(v))
            }
        };
    }
    c.ev("builder calls", nops as u64);
    let mk = |kd: bool, it: usize, ab: Option<f64>, iv: f64, order: u64| {
        let mut b = ICPConfiguration::<T>::builder();
        for k in 0..4 {
            b = match (k + order) % 4 {
                0 => b.with_kd_tree(kd),
                1 => b.with_max_iterations(it),
                2 => b.with_absolute_mse_threshold(ab.map(T::of)),
                _ => b.with_mse_interval_threshold(T::of(iv)),
            };
        }
        b.build()
    };
    let got = format!("{:?}", b.build());
    for order in 0..4 {
        let want = format!("{:?}", mk(kd, it, ab, iv, order));
        ensure!(got == want, "{ops:?} built {got}; setting the same four values once gives {want}");
    }
    // building does not consume or change a builder, nor do later calls on it
    for (bb, was) in &snaps {
        ensure!(&format!("{:?}", bb.build()) == was, "a builder changed after being used: {:?} was {was}", bb.build());
    }
    ensure!(format!("{:?}", base.build()) == base_dbg && format!("{:?}", b.build()) == got, "a builder changed by building");
    // each setting reaches its own field and no other
    let flips = [mk(!kd, it, ab, iv, 0), mk(kd, it ^ 1, ab, iv, 0), mk(kd, it, ab.map_or(Some(0.125), |_| None), iv, 0), mk(kd, it, ab, iv + 0.5, 0)];
    let mut all: Vec<String> = flips.iter().map(|f| format!("{f:?}")).collect();
    all.push(got.clone());
    all.sort();
    all.dedup();
    ensure!(all.len() == 5, "changing one setting is not visible in the configuration: {all:?}");
    // and the configuration means what was set: run it
    if it <= 1000 {
        let a: Vec<Point<T, 2>> = (0..6).map(|_| pt([c.rng.sym(3.0), c.rng.sym(3.0)])).collect();
        let t: Vec<Point<T, 2>> = (0..9).map(|_| pt([c.rng.sym(3.0), c.rng.sym(3.0)])).collect();
        c.note(|| format!("a {}\nt {}", show(&a), show(&t)));
        let run1 = c.call("icp", || icp(&a, &t, b.build()))?;
        // the contract of the four values, by hand
        let invalid = it == 0 || iv <= T::EPS || ab.map_or(false, |x| x <= T::EPS);
        c.ev(if invalid { "invalid configurations run" } else { "valid configurations run" }, 1);
        match &run1 {
            Ok(g) => {
                ensure!(!invalid, "{got} should be refused");
                ensure!(g.iteration_num < it, "{got}: converged in iteration {} of {it}", g.iteration_num);
                // stepping without thresholds tells at which iteration it should have stopped
                let open = cfg::<T>(false, 1, None, 1e-30);
                // the same neighbours as the configured run: ties may go either way
                let tree = if kd { Some(c.call("KDTree::from", || KDTree::from(t.as_slice()))?) } else { None };
                let (mut tr, mut x, mut mse) = (a.clone(), Isometry::identity(), <T as Bounded>::max_value());
                for k in 0..=g.iteration_num {
                    let prev = mse.f();
                    let r = c.call("icp_iteration", || icp_iteration::<T, 2>(&a, &mut tr, &t, tree.as_ref(), &mut x, &mut mse, &open))?;
                    let v = match r {
                        Ok(v) => v.f(),
                        _ => mse.f(),
                    };
                    let stop = ab.map_or(false, |z| v < z) || (prev - v).abs() < iv;
                    let near = |p: f64, q: f64| (p - q).abs() <= 1e-3 * q.abs() + 1e3 * T::EPS * v;
                    if near((prev - v).abs(), iv) || ab.map_or(false, |z| near(v, z)) {
                        break;
                    }
                    ensure!(stop == (k == g.iteration_num), "{got}: iteration {k} has error {v:e} after {prev:e}, icp stopped in iteration {}", g.iteration_num);
                    if r.is_ok() {
                        break;
                    }
                }
            }
            Err(ICPError::AlrogithmDidNotConverge) => ensure!(!invalid, "{got} should be refused"),
            Err(e) => ensure!(invalid, "{got} refused with {e:?}"),
        }
    }
    if nops >= 2 {
        c.nontrivial(hash_bytes(format!("{ops:?}{}", T::NAME).bytes().map(|b| b as u64)));
    }
    Ok(())
}
fn c19(c: &mut Case) -> Out {
    if c.rng.chance(1, 2) {
        builder::<f32>(c)
    } else {
        builder::<f64>(c)
    }
}

fn props() -> Vec<Prop> {
    vec![
        Prop { id: "C11", rule: "icp over random clouds with random subsets of the five invalid conditions (empty source, empty target, zero iterations, interval or absolute threshold zero, negative, tiny, machine epsilon, NaN, infinite), f32/f64 x 2D/3D; the answer must name a condition present, and no such answer may come from a valid input; single steps against an empty target. Each distinct configuration counts.", quick: 3_000_000, thorough: 40_000_000, run: c11, min_nontrivial: 5000, assumptions: &["finite coordinates"], ..Prop::BASE },
        Prop { id: "C12", rule: "single icp_iteration calls from identity and arbitrary poses on uniform, planar, collinear, repeated, shell, grid and anisotropic clouds, copies (mirrored, noisy) and unrelated targets; correspondences recomputed by brute force, achieved residual compared with the optimum of an independent closed form (2D) or Horn's quaternion method (3D), reported error, state updates and means recomputed. Non-trivial: at least 2 points and unambiguous correspondences.", quick: 400_000, thorough: 9_000_000, run: c12, min_nontrivial: 4000, assumptions: &["finite coordinates; transformed cloud in step with the transform", "optimality and reported error judged only where nearest neighbours are unambiguous at the precision of T"], ..Prop::BASE },
        Prop { id: "C13", rule: "up to 12 icp_iteration steps per pair of clouds; the nearest-neighbour residual recomputed between steps must not grow beyond rounding. Non-trivial: at least one step with real descent.", quick: 100_000, thorough: 4_000_000, run: c13, min_nontrivial: 2000, assumptions: &["finite coordinates"], ..Prop::BASE },
        Prop { id: "C14", rule: "icp against the same number of icp_iteration calls by hand: outcome, iteration number, transform and error. Non-trivial: at least 3 points on both sides.", quick: 400_000, thorough: 6_000_000, run: c14, min_nontrivial: 2500, assumptions: &["comparison of outcomes suspended for steps within rounding of a threshold"], ..Prop::BASE },
        Prop { id: "C15", rule: "every Ok of icp re-judged from outside: unit rotation, determinant one, finite, error not below the nearest-neighbour residual of the reported transform and not above the residual the last step started from. Non-trivial: a success over at least 3 points.", quick: 200_000, thorough: 5_000_000, run: c15, min_nontrivial: 2500, assumptions: &["finite coordinates"], ..Prop::BASE },
        Prop { id: "C16", rule: "jittered grids (full, planar and collinear in space) displaced rigidly by less than half their spacing, sources shuffled and thinned; icp must succeed within two iterations and bring every point to its counterpart. Non-trivial: a rotated set of at least 3 points.", quick: 700_000, thorough: 20_000_000, run: c16, min_nontrivial: 3000, assumptions: &["displacement of each point below 0.47 of the smallest gap between targets"], ..Prop::BASE },
        Prop { id: "C17", rule: "paired runs with and without the search tree, compared step by step until a nearest-neighbour tie and as whole runs when there is none; duplicated target points included. Non-trivial: converged pairs over at least 3 points on both sides.", quick: 90_000, thorough: 2_000_000, run: c17, min_nontrivial: 1500, assumptions: &["no source point equidistant (at the precision of T) from two targets"], ..Prop::BASE },
        Prop { id: "C19", rule: "random sequences of builder calls with repeats and reuse; the built configuration compared with the four final values set once in every order, builders re-read after use, one-field changes visible, and the configuration run and stopped where its values say. Non-trivial: at least 2 calls.", quick: 1_000_000, thorough: 30_000_000, run: c19, min_nontrivial: 3000, assumptions: &[], ..Prop::BASE },
    ]
}

fn main() {
    mon::cli::main(props());
}
