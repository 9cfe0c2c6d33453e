//! Sorting, downsampling, centroid, generation and rigid transformation of clouds.
use mon::num::*;
use mon::rng::Rng;
use mon::rt::*;
use mon::{bad, dispatch, ensure};
use mapping_algorithms::point_clouds::*;
use mapping_algorithms::types::IsNan;
use nalgebra::{Isometry, Point, Point2, Rotation2, Rotation3, Scalar, Translation, UnitComplex, UnitQuaternion, Vector3};
use num_traits::AsPrimitive;
use std::collections::HashMap;
use std::fmt::Debug;

// ------------------------------------------------------------ C06 lex_sort
trait Bits: Copy {
    fn b(self) -> u64;
}
macro_rules! ib { ($($t:ty),*) => { $(impl Bits for $t { fn b(self) -> u64 { self as u64 } })* } }
ib!(u8, i16, i32, u32, i64, u64, isize, usize);
impl Bits for f32 {
    fn b(self) -> u64 {
        self.to_bits() as u64
    }
}
impl Bits for f64 {
    fn b(self) -> u64 {
        self.to_bits()
    }
}
fn pb<T: Bits + Scalar, const N: usize>(p: &Point<T, N>) -> [u64; N] {
    std::array::from_fn(|i| p[i].b())
}

fn check_sorts<T: Bits + Scalar + PartialOrd + IsNan + Debug, const N: usize>(
    c: &mut Case,
    pts: Vec<Point<T, N>>,
) -> Out {
    let n = pts.len();
    let has_nan = pts.iter().any(|p| p.iter().any(|&x| x.is_nan()));
    let before: Vec<[u64; N]> = pts.iter().map(pb).collect();
    let mut inplace = pts.clone();
    let ok = c.call("lex_sort_in_place", || lex_sort_in_place(&mut inplace))?;
    let copy = c.call("lex_sort", || lex_sort(&pts))?;
    let refs = c.call("lex_sort_ref", || {
        lex_sort_ref(&pts).map(|v| {
            v.into_iter()
                .map(|r| r as *const Point<T, N> as usize)
                .collect::<Vec<usize>>()
        })
    })?;
    c.ev("sort calls", 3);
    let after: Vec<[u64; N]> = pts.iter().map(pb).collect();
    ensure!(before == after, "lex_sort or lex_sort_ref changed its input");
    if N == 0 || has_nan {
        c.ev("rejected inputs", 1);
        ensure!(!ok, "lex_sort_in_place accepted {} points of {N} dimensions with NaN={has_nan}", n);
        ensure!(copy.is_none(), "lex_sort accepted {} points of {N} dimensions with NaN={has_nan}", n);
        ensure!(refs.is_none(), "lex_sort_ref accepted {} points of {N} dimensions with NaN={has_nan}", n);
        let now: Vec<[u64; N]> = inplace.iter().map(pb).collect();
        ensure!(now == before, "lex_sort_in_place refused the input but rearranged it");
        return Ok(());
    }
    ensure!(ok, "lex_sort_in_place refused {n} valid points");
    let Some(copy) = copy else { bad!("lex_sort refused {n} valid points") };
    let Some(refs) = refs else { bad!("lex_sort_ref refused {n} valid points") };
    // refs: each element of the input once
    let base = pts.as_ptr() as usize;
    let sz = std::mem::size_of::<Point<T, N>>();
    let mut seen = vec![false; n];
    let mut byref = Vec::with_capacity(n);
    ensure!(refs.len() == n, "lex_sort_ref returned {} references for {n} points", refs.len());
    for r in refs {
        let off = r.wrapping_sub(base);
        ensure!(off % sz == 0 && off / sz < n, "lex_sort_ref returned a reference outside the input");
        ensure!(!seen[off / sz], "lex_sort_ref returned element {} twice", off / sz);
        seen[off / sz] = true;
        byref.push(pts[off / sz].clone());
    }
    let mut want = before.clone();
    want.sort();
    for (name, v) in [("lex_sort_in_place", &inplace), ("lex_sort", &copy), ("lex_sort_ref", &byref)] {
        ensure!(v.len() == n, "{name} returned {} of {n} points", v.len());
        let mut have: Vec<[u64; N]> = v.iter().map(pb).collect();
        have.sort();
        ensure!(have == want, "{name}: the result is not a permutation of the input");
        for w in v.windows(2) {
            let mut less = false;
            for i in 0..N {
                if w[0][i] < w[1][i] {
                    less = true;
                    break;
                }
                if w[0][i] > w[1][i] {
                    bad!("{name}: {:?} comes before {:?}", w[0], w[1]);
                }
            }
            if !less {
                c.ev("adjacent equal points", 1);
            }
        }
    }
    Ok(())
}

fn sort_float<T: Fl + Bits, const N: usize>(c: &mut Case) -> Out {
    let n = c.rng.vast(if c.idx % 64 == 0 { 20000 } else { 600 });
    let mut cl = if c.rng.chance(1, 4) { wild_cloud::<T, N>(&mut c.rng, n) } else { cloud::<T, N>(&mut c.rng, n) };
    if !cl.pts.is_empty() {
        match c.rng.below(6) {
            0 => {
                // NaN somewhere, any payload and sign
                for _ in 0..1 + c.rng.usize(3) {
                    let (i, a) = (c.rng.usize(n), c.rng.usize(N));
                    cl.pts[i][a] = nan(&mut c.rng);
                }
            }
            1 => {
                for _ in 0..1 + c.rng.usize(4) {
                    let (i, a) = (c.rng.usize(n), c.rng.usize(N));
                    cl.pts[i][a] = T::of(if c.rng.chance(1, 2) { f64::INFINITY } else { f64::NEG_INFINITY });
                }
            }
            2 => cl.pts.reverse(),
            3 => {
                if let Some(v) = lex_sort(&cl.pts) {
                    cl.pts = v;
                }
            }
            _ => {}
        }
    }
    c.note(|| show(&cl.pts));
    c.sample(|| format!("{} {}", cl.family, show(&cl.pts)));
    if n >= 3 {
        c.nontrivial(hash_pts(&cl.pts));
    }
    check_sorts::<T, N>(c, cl.pts)
}
fn sort_int<T: Bits + Scalar + PartialOrd + IsNan + 'static, const N: usize>(c: &mut Case) -> Out
where
    i64: AsPrimitive<T>,
{
    let n = c.rng.vast(300);
    let wide = c.rng.chance(1, 2);
    let pts: Vec<Point<T, N>> = (0..n)
        .map(|_| {
            Point::from(std::array::from_fn::<T, N, _>(|_| {
                // wide: every bit pattern of the type
                let v: i64 = if wide { c.rng.u64() as i64 } else { c.rng.int(-3, 3) };
                v.as_()
            }))
        })
        .collect();
    c.note(|| format!("{pts:?}"));
    if n >= 3 {
        c.nontrivial(hash_bytes(pts.iter().flat_map(|p| pb(p))));
    }
    check_sorts::<T, N>(c, pts)
}
fn c06(c: &mut Case) -> Out {
    if c.rng.chance(1, 200) {
        let n = c.rng.usize(4);
        let p0: Vec<Point<f64, 0>> = vec![Point::from([]); n];
        c.ev("zero-dimensional inputs", 1);
        return check_sorts::<f64, 0>(c, p0);
    }
    if c.rng.chance(1, 4) {
        return match c.rng.below(7) {
            0 => sort_int::<u8, 2>(c),
            1 => sort_int::<i16, 3>(c),
            2 => sort_int::<i32, 2>(c),
            3 => sort_int::<u64, 3>(c),
            4 => sort_int::<i64, 4>(c),
            5 => sort_int::<usize, 1>(c),
            _ => sort_int::<isize, 2>(c),
        };
    }
    dispatch!(c, sort_float, [1, 2, 3, 4, 6])
}

// ---------------------------------------------------------- C07 downsample
/// floor(p/v) with the quotient formed in O; None when too close to a voxel
/// wall for rounding not to matter.
fn voxel_of<O: Fl>(p: f64, v: f64, exact: bool) -> Option<i64> {
    let q = O::of(p).f() / O::of(v).f();
    if exact {
        return Some(q.floor() as i64);
    }
    let near = (q - q.round()).abs();
    if near <= 8.0 * O::EPS * q.abs().max(1.0) {
        return None;
    }
    Some(q.floor() as i64)
}

fn downsample<T: Fl + AsPrimitive<O>, O: Fl, const N: usize>(c: &mut Case) -> Out
where
    usize: AsPrimitive<T>,
{
    let big = c.idx % 50 == 0;
    let n = c.rng.vast(if big { 8000 } else { 500 });
    let cl = cloud::<T, N>(&mut c.rng, n);
    let ext = cl.pts.iter().flat_map(|p| arr(p)).fold(0.0f64, |a, b| a.max(b.abs())).max(1e-6);
    // coarse (few voxels) to fine (every point its own)
    let lim = if O::INT == 1 << 24 { 1e5 } else { 1e11 };
    let top = if c.rng.chance(1, 3) { (lim as f64).log10() } else { 2.5 };
    let ratio = 10f64.powf(c.rng.f(-1.0, top));
    let dyadic = c.rng.chance(1, 2);
    let mut v = ext / ratio;
    if dyadic {
        v = 2f64.powi(v.log2().round() as i32);
    } else if c.rng.chance(1, 3) {
        v = (v * 1000.0).round().max(1.0) / 1000.0;
    }
    let v = O::of(v);
    // A power-of-two voxel divides exactly, walls included — once the
    // coordinate itself converts to O without rounding.
    let conv_exact = T::INT <= O::INT || cl.exact;
    let exact = dyadic && conv_exact && cl.pts.iter().all(|p| arr(p).iter().all(|&x| O::of(x).f() == x));
    let mut pts = vec![];
    let mut cells: HashMap<[i64; N], (Vec<usize>, [f64; N])> = HashMap::new();
    for p in &cl.pts {
        let mut k = [0i64; N];
        let mut ok = true;
        for i in 0..N {
            match voxel_of::<O>(p[i].f(), v.f(), exact) {
                Some(x) if x.abs() < (1 << 46) => k[i] = x,
                _ => ok = false,
            }
        }
        if !ok {
            continue;
        }
        let e = cells.entry(k).or_insert((vec![], [0.0; N]));
        e.0.push(pts.len());
        for i in 0..N {
            e.1[i] += p[i].f();
        }
        pts.push(*p);
    }
    c.note(|| format!("voxel {:?} ({}) {}", v.f(), O::NAME, show(&pts)));
    c.sample(|| format!("{} voxel {:?} {}", cl.family, v.f(), show(&pts)));
    let out = c.call("downsample_point_cloud_voxel", || downsample_point_cloud_voxel::<T, O, N>(&pts, v))?;
    c.ev("voxels", cells.len() as u64);
    c.ev("points", pts.len() as u64);
    ensure!(
        out.len() == cells.len(),
        "{} points in {} occupied voxels of size {} gave {} points",
        pts.len(),
        cells.len(),
        v.f(),
        out.len()
    );
    // pair every output with its voxel
    let mut used: HashMap<[i64; N], bool> = cells.keys().map(|k| (*k, false)).collect();
    for o in &out {
        let oa = arr(o);
        ensure!(oa.iter().all(|x| x.is_finite()), "output {oa:?} from finite points");
        let mut hit = None;
        let is_mean = |(ix, sum): &(Vec<usize>, [f64; N])| {
            let cnt = ix.len() as f64;
            let mx: [f64; N] = std::array::from_fn(|i| ix.iter().map(|&j| pts[j][i].f().abs()).fold(0.0, f64::max));
            (0..N).all(|i| (oa[i] - sum[i] / cnt).abs() <= (cnt + 3.0) * T::EPS * mx[i])
        };
        // its own voxel, or one beside it when rounding put the mean on a wall
        let base: [i64; N] = std::array::from_fn(|i| (oa[i] / v.f()).floor() as i64);
        let combos = 3usize.pow(N as u32);
        for m in 0..combos {
            let mut mm = m;
            let k: [i64; N] = std::array::from_fn(|i| {
                let d = [0i64, -1, 1][mm % 3];
                mm /= 3;
                base[i] + d
            });
            if let Some(e) = cells.get(&k) {
                if is_mean(e) && !used[&k] {
                    hit = Some(k);
                    break;
                }
            }
        }
        // or, summed over very many points, further away
        let hit = hit.or_else(|| cells.iter().find(|(k, e)| !used[*k] && is_mean(e)).map(|(k, _)| *k));
        match hit {
            Some(k) => {
                used.insert(k, true);
            }
            None => bad!("output {oa:?} is not the mean of the points of any voxel of size {}", v.f()),
        }
    }
    c.ev("voxels with several points", cells.values().filter(|e| e.0.len() > 1).count() as u64);
    if cells.len() >= 2 && pts.len() >= 3 {
        c.nontrivial(hash_pts(&pts) ^ v.bits());
    }
    Ok(())
}
macro_rules! down_int {
    ($c:expr, $t:ty, $o:ty, $n:literal, $k:expr) => {{
        let c: &mut Case = $c;
        let k: i64 = $k;
        let n = c.rng.size(200);
        let lo = if <$t>::MIN == 0 { 0 } else { -k };
        let pts: Vec<Point<$t, $n>> = (0..n)
            .map(|_| Point::from(std::array::from_fn::<$t, $n, _>(|_| c.rng.int(lo, k) as $t)))
            .collect();
        let v = *c.rng.pick(&[0.5, 1.0, 2.0, 4.0, 8.0, 3.0, 5.0, 10.0, 1000.0]) as $o;
        c.note(|| format!("voxel {v} {pts:?}"));
        let mut cells: HashMap<[i64; $n], (i64, [i64; $n])> = HashMap::new();
        for p in &pts {
            // v and p are integers (or v a half): integer division is exact
            let key: [i64; $n] = std::array::from_fn(|i| (p[i] as i64 * 2).div_euclid((v * 2.0) as i64));
            let e = cells.entry(key).or_insert((0, [0; $n]));
            e.0 += 1;
            for i in 0..$n {
                e.1[i] += p[i] as i64;
            }
        }
        let out = c.call("downsample_point_cloud_voxel (integers)", || {
            downsample_point_cloud_voxel::<$t, $o, $n>(&pts, v)
        })?;
        c.ev("integer clouds", 1);
        ensure!(out.len() == cells.len(), "{} integer points in {} voxels gave {}", pts.len(), cells.len(), out.len());
        for o in &out {
            let key: [i64; $n] = std::array::from_fn(|i| (o[i] as i64 * 2).div_euclid((v * 2.0) as i64));
            // an integer mean is truncated, which can leave the voxel by one unit
            let ok = cells.iter().any(|(k, (cnt, s))| {
                (0..$n).all(|i| (o[i] as i64 * cnt - s[i]).abs() < *cnt)
                    && (0..$n).all(|i| (key[i] - k[i]).abs() <= 2)
            });
            ensure!(ok, "integer output {o:?} is not the mean of any voxel of size {v}");
        }
        Ok(())
    }};
}
fn c07(c: &mut Case) -> Out {
    if c.rng.chance(1, 10) {
        return match c.rng.below(5) {
            0 => down_int!(c, i32, f64, 3, 5000),
            1 => down_int!(c, i32, f32, 2, 5000),
            2 => down_int!(c, i64, f64, 2, 100000),
            3 => down_int!(c, u32, f32, 2, 5000),
            _ => down_int!(c, usize, f64, 2, 5000),
        };
    }
    match c.rng.below(8) {
        0 => downsample::<f32, f32, 1>(c),
        1 => downsample::<f32, f32, 2>(c),
        2 => downsample::<f32, f32, 3>(c),
        3 => downsample::<f64, f64, 2>(c),
        4 => downsample::<f64, f64, 3>(c),
        5 => downsample::<f64, f32, 2>(c),
        6 => downsample::<f32, f64, 3>(c),
        _ => downsample::<f64, f64, 4>(c),
    }
}

/// F11: the mean of narrow integers is taken by summing in their own type.
fn narrow_mean(c: &mut Case) -> Out {
    let p = [Point2::new(200u8, 10), Point2::new(210u8, 12)];
    let o = c.call("downsample_point_cloud_voxel (u8)", || downsample_point_cloud_voxel::<u8, f32, 2>(&p, 100.0));
    match o {
        Ok(o) if o == [Point2::new(205u8, 11)] => Ok(()),
        o => bad!("(200, 10) and (210, 12) in one voxel average to {o:?}"),
    }
}

// ------------------------------------------------------------ C08 centroid
fn centroid<T: Fl, const N: usize>(c: &mut Case) -> Out
where
    usize: AsPrimitive<T>,
{
    let n = match c.idx % 400 {
        0 => 70_000 + c.rng.usize(5000),
        1 => 1 << 16,
        i if i % 40 == 0 => c.rng.usize(9000),
        _ => c.rng.vast(400),
    };
    let cl = if n >= 60_000 {
        // small integers: the sum stays exact in T whatever the order
        let pts: Vec<Point<T, N>> = (0..n).map(|_| pt(std::array::from_fn(|i| c.rng.int(0, 3 + i as i64) as f64))).collect();
        Cloud { pts, exact: true, family: "many small integers" }
    } else {
        cloud::<T, N>(&mut c.rng, n)
    };
    c.note(|| show(&cl.pts));
    c.sample(|| format!("{} {}", cl.family, show(&cl.pts)));
    let got = c.call("calculate_point_cloud_center", || calculate_point_cloud_center(&cl.pts))?;
    c.ev("points averaged", n as u64);
    let g = arr(&got);
    if n == 0 {
        ensure!(g.iter().all(|&x| x == 0.0), "centroid of no points is {g:?}");
        return Ok(());
    }
    for i in 0..N {
        // compensated sum in f64: far below the tolerance
        let (mut s, mut comp) = (0.0f64, 0.0f64);
        let (mut sabs, mut mx) = (0.0f64, 0.0f64);
        for p in &cl.pts {
            let x = p[i].f();
            let y = x - comp;
            let t = s + y;
            comp = (t - s) - y;
            s = t;
            sabs += x.abs();
            mx = mx.max(x.abs());
        }
        let want = s / n as f64;
        // sums of multiples of one power of two that stay in range are exact
        let tol = if cl.exact && exact_sum::<T, N>(&cl.pts, i) {
            2.0 * T::EPS * want.abs()
        } else {
            (n as f64 + 3.0) * T::EPS * mx.min(sabs / n as f64 * 4.0 + mx * 0.5)
        };
        ensure!(
            (g[i] - want).abs() <= tol,
            "axis {i} of the centroid of {n} points ({}) is {} instead of {want} (tolerance {tol:e})",
            cl.family,
            g[i]
        );
    }
    if n >= 2 {
        c.nontrivial(hash_pts(&cl.pts));
    }
    Ok(())
}
fn exact_sum<T: Fl, const N: usize>(p: &[Point<T, N>], ax: usize) -> bool {
    let v: Vec<[f64; 1]> = p.iter().map(|q| [q[ax].f()]).collect();
    match to_ints(&v) {
        Some(k) => {
            let s: i128 = k.iter().map(|x| x[0].abs()).sum();
            s < T::INT as i128
        }
        None => false,
    }
}
fn centroid_int(c: &mut Case) -> Out {
    let n = c.rng.vast(500);
    let pts: Vec<Point<i64, 3>> = (0..n).map(|_| Point::from(std::array::from_fn::<i64, 3, _>(|_| c.rng.int(-100000, 100000)))).collect();
    c.note(|| format!("{pts:?}"));
    let g = c.call("calculate_point_cloud_center (i64)", || calculate_point_cloud_center(&pts))?;
    c.ev("integer clouds", 1);
    for i in 0..3 {
        let s: i64 = pts.iter().map(|p| p[i]).sum();
        let n = n as i64;
        ensure!(if n == 0 { g[i] == 0 } else { (g[i] * n - s).abs() < n }, "integer centroid {g:?} axis {i}: sum {s} over {n}");
    }
    Ok(())
}
fn c08(c: &mut Case) -> Out {
    if c.rng.chance(1, 20) {
        return centroid_int(c);
    }
    dispatch!(c, centroid, [1, 2, 3, 4, 6])
}

// ------------------------------------------------------------ C09 generate
fn generate<T: Fl + rand::distributions::uniform::SampleUniform, const N: usize>(c: &mut Case) -> Out {
    let n = if c.idx % 20 == 0 { c.rng.usize(20000) } else { c.rng.vast(800) };
    let mut lo = [0.0f64; N];
    let mut hi = [0.0f64; N];
    for i in 0..N {
        let s = 10f64.powi(c.rng.int(-4, 6) as i32);
        let (a, b) = (c.rng.sym(s), c.rng.sym(s));
        let (a, b) = match c.rng.below(8) {
            0 => (a, a),
            1 => (0.0, s),
            2 => (-s, 0.0),
            3 => (-s, s),
            4 => (s * 100.0, s * 101.0),
            _ => (a.min(b), a.max(b)),
        };
        lo[i] = T::of(a).f();
        hi[i] = T::of(b).f();
    }
    c.note(|| format!("{} points in {lo:?}..={hi:?} ({})", n, T::NAME));
    c.sample(|| format!("{} points in {lo:?}..={hi:?} ({})", n, T::NAME));
    let ranges = || std::array::from_fn::<_, N, _>(|i| T::of(lo[i])..=T::of(hi[i]));
    let a = c.call("generate_point_cloud", || generate_point_cloud::<T, N>(n, ranges()))?;
    ensure!(a.len() == n, "{} points instead of {n}", a.len());
    for p in &a {
        for i in 0..N {
            ensure!(p[i].f() >= lo[i] && p[i].f() <= hi[i], "coordinate {} on axis {i} outside {}..={}", p[i].f(), lo[i], hi[i]);
        }
    }
    c.ev("points generated", n as u64);
    // same arguments again, with other generations in between
    let _ = c.call("generate_point_cloud", || generate_point_cloud::<T, N>(3, ranges()))?;
    let b = c.call("generate_point_cloud", || generate_point_cloud::<T, N>(n, ranges()))?;
    ensure!(
        a.iter().map(bits).eq(b.iter().map(bits)),
        "two generations of {n} points from the same ranges differ"
    );
    c.ev("repeated generations", 1);
    // spread: each non-trivial axis fills its range, axes are not copies of each other
    if n >= 100 {
        let frac = |p: &Point<T, N>, i: usize| (p[i].f() - lo[i]) / (hi[i] - lo[i]);
        let wide: Vec<usize> = (0..N).filter(|&i| hi[i] - lo[i] > 1e-3 * hi[i].abs().max(lo[i].abs())).collect();
        for &i in &wide {
            for part in 0..4 {
                let k = a.iter().filter(|p| { let f = frac(p, i); f >= part as f64 / 4.0 && f <= (part + 1) as f64 / 4.0 }).count();
                ensure!(k >= n / 25, "only {k} of {n} points in quarter {part} of the range on axis {i}");
            }
            let mut d: Vec<u64> = a.iter().map(|p| p[i].bits()).collect();
            d.sort();
            d.dedup();
            // no more values than the type has between the bounds
            let slots = (hi[i] - lo[i]) / (T::EPS * hi[i].abs().max(lo[i].abs()));
            ensure!(d.len() as f64 > (n as f64).min(slots) / 4.0, "only {} distinct coordinates among {n} points on axis {i}", d.len());
        }
        for w in wide.windows(2) {
            let same = a.iter().filter(|p| (frac(p, w[0]) - frac(p, w[1])).abs() < 1e-4).count();
            ensure!(same < n / 10 + 3, "axes {} and {} carry the same values in {same} of {n} points", w[0], w[1]);
        }
        c.ev("spread checks", wide.len() as u64);
    }
    if n >= 2 {
        c.nontrivial(hash_bytes(lo.iter().chain(hi.iter()).map(|x| x.to_bits()).chain([n as u64])));
    }
    Ok(())
}
fn generate_int(c: &mut Case) -> Out {
    let n = 200 + c.rng.usize(300);
    let lo = c.rng.int(-1000, 1000) as i32;
    let w = c.rng.int(0, 3) as i32;
    let lo2 = c.rng.int(0, 200) as i32;
    let a = c.call("generate_point_cloud (i32)", || generate_point_cloud::<i32, 2>(n, [lo..=lo + w, lo2..=lo2 + 5]))?;
    ensure!(a.len() == n, "{} integer points instead of {n}", a.len());
    for v in lo..=lo + w {
        ensure!(a.iter().any(|p| p[0] == v), "{v} of {lo}..={} never drawn in {n} points", lo + w);
    }
    for v in lo2..=lo2 + 5 {
        ensure!(a.iter().any(|p| p[1] == v), "{v} of {lo2}..={} never drawn in {n} points", lo2 + 5);
    }
    ensure!(
        a.iter().all(|p| (lo..=lo + w).contains(&p[0]) && (lo2..=lo2 + 5).contains(&p[1])),
        "integer coordinate outside its range"
    );
    c.ev("integer generations", 1);
    Ok(())
}
fn c09(c: &mut Case) -> Out {
    if c.rng.chance(1, 10) {
        return generate_int(c);
    }
    dispatch!(c, generate, [1, 2, 3, 4])
}

// ----------------------------------------------------------- C10 transform
fn tol_check<const N: usize>(got: [f64; N], want: [f64; N], tol: f64, what: &str) -> Out {
    for i in 0..N {
        ensure!((got[i] - want[i]).abs() <= tol, "{what}: {got:?} instead of {want:?} (tolerance {tol:e})");
    }
    Ok(())
}
fn angle(r: &mut Rng) -> f64 {
    use std::f64::consts::PI;
    match r.below(6) {
        0 => 0.0,
        1 => *r.pick(&[PI, -PI, PI / 2.0, -PI / 2.0, PI / 4.0, 3.0 * PI / 4.0]),
        2 => r.sym(1e-6),
        _ => r.sym(PI),
    }
}
/// A translation from a thousandth to a light hour, now and then along some
/// axes only.
fn shift<T: Fl, const N: usize>(r: &mut Rng) -> [T; N] {
    let s = 10f64.powi(if r.chance(1, 4) { r.int(6, 12) } else { r.int(-3, 5) } as i32);
    let some = r.chance(1, 4);
    std::array::from_fn(|_| T::of(if some && r.chance(1, 2) { 0.0 } else { r.sym(s) }))
}
/// The same motion of the same cloud in a unit many times as long.
fn shrink<T: Fl, const N: usize>(r: &mut Rng, pts: &mut [Point<T, N>], t: &mut [T; N]) {
    let f = T::of(2f64.powi(-(if T::INT == 1 << 24 { r.int(1, 75) } else { r.int(1, 600) }) as i32));
    for x in t.iter_mut().chain(pts.iter_mut().flat_map(|p| p.coords.iter_mut())) {
        *x = *x * f;
    }
}
fn trans2<T: Fl>(c: &mut Case) -> Out {
    let n = c.rng.vast(2000);
    let mut cl = cloud::<T, 2>(&mut c.rng, n);
    let a = T::of(angle(&mut c.rng));
    let mut t: [T; 2] = shift(&mut c.rng);
    if c.rng.chance(1, 8) {
        shrink(&mut c.rng, &mut cl.pts, &mut t);
    }
    c.note(|| format!("angle {} translation {:?} {}", a.f(), [t[0].f(), t[1].f()], show(&cl.pts)));
    c.sample(|| format!("angle {} translation {:?} {}", a.f(), [t[0].f(), t[1].f()], show(&cl.pts)));
    let before: Vec<_> = cl.pts.iter().map(bits).collect();
    let iso = Isometry::from_parts(Translation::from(t), UnitComplex::new(a));
    let out = c.call("transform_point_cloud", || transform_point_cloud(&cl.pts, iso))?;
    let rot = Isometry::from_parts(Translation::from(t), Rotation2::new(a));
    let out2 = c.call("transform_point_cloud", || transform_point_cloud(&cl.pts, rot))?;
    ensure!(out.len() == n && out2.len() == n, "{} and {} points out of {n}", out.len(), out2.len());
    ensure!(cl.pts.iter().map(bits).eq(before.into_iter()), "the source cloud changed");
    let (sn, cs) = a.f().sin_cos();
    for i in 0..n {
        let p = arr(&cl.pts[i]);
        let want = [cs * p[0] - sn * p[1] + t[0].f(), sn * p[0] + cs * p[1] + t[1].f()];
        let m = p[0].abs() + p[1].abs() + t[0].f().abs() + t[1].f().abs();
        tol_check(arr(&out[i]), want, 16.0 * T::EPS * m, &format!("point {i} {p:?} under a unit complex"))?;
        tol_check(arr(&out2[i]), want, 16.0 * T::EPS * m, &format!("point {i} {p:?} under a rotation matrix"))?;
    }
    c.ev("points transformed", 2 * n as u64);
    let back = c.call("transform_point_cloud", || transform_point_cloud(&out, iso.inverse()))?;
    ensure!(back.len() == n, "{} points back out of {n}", back.len());
    for i in 0..n {
        let p = arr(&cl.pts[i]);
        let m = p[0].abs() + p[1].abs() + 2.0 * (t[0].f().abs() + t[1].f().abs());
        tol_check(arr(&back[i]), p, 48.0 * T::EPS * m, &format!("point {i} transformed and back"))?;
    }
    if n >= 1 {
        c.nontrivial(hash_pts(&cl.pts) ^ a.bits());
    }
    Ok(())
}
fn trans3<T: Fl>(c: &mut Case) -> Out {
    let n = c.rng.vast(2000);
    let mut cl = cloud::<T, 3>(&mut c.rng, n);
    let a = T::of(angle(&mut c.rng)).f();
    let ax = loop {
        let v = match c.rng.below(4) {
            0 => *c.rng.pick(&[[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0]]),
            _ => [c.rng.gauss(), c.rng.gauss(), c.rng.gauss()],
        };
        let l = d2(v, [0.0; 3]).sqrt();
        if l > 0.1 {
            break [v[0] / l, v[1] / l, v[2] / l];
        }
    };
    let mut t: [T; 3] = shift(&mut c.rng);
    if c.rng.chance(1, 8) {
        shrink(&mut c.rng, &mut cl.pts, &mut t);
    }
    c.note(|| format!("angle {a} axis {ax:?} translation {:?} {}", t.map(|x| x.f()), show(&cl.pts)));
    c.sample(|| format!("angle {a} axis {ax:?} translation {:?} {}", t.map(|x| x.f()), show(&cl.pts)));
    let va = Vector3::new(T::of(ax[0] * a), T::of(ax[1] * a), T::of(ax[2] * a));
    let before: Vec<_> = cl.pts.iter().map(bits).collect();
    let iso = Isometry::from_parts(Translation::from(t), UnitQuaternion::new(va));
    let out = c.call("transform_point_cloud", || transform_point_cloud(&cl.pts, iso))?;
    let rot = Isometry::from_parts(Translation::from(t), Rotation3::new(va));
    let out2 = c.call("transform_point_cloud", || transform_point_cloud(&cl.pts, rot))?;
    ensure!(out.len() == n && out2.len() == n, "{} and {} points out of {n}", out.len(), out2.len());
    ensure!(cl.pts.iter().map(bits).eq(before.into_iter()), "the source cloud changed");
    let (sn, cs) = a.sin_cos();
    for i in 0..n {
        let p = arr(&cl.pts[i]);
        // Rodrigues
        let dot = p[0] * ax[0] + p[1] * ax[1] + p[2] * ax[2];
        let cr = [ax[1] * p[2] - ax[2] * p[1], ax[2] * p[0] - ax[0] * p[2], ax[0] * p[1] - ax[1] * p[0]];
        let want: [f64; 3] = std::array::from_fn(|k| p[k] * cs + cr[k] * sn + ax[k] * dot * (1.0 - cs) + t[k].f());
        let m: f64 = (0..3).map(|k| p[k].abs() + t[k].f().abs()).sum();
        tol_check(arr(&out[i]), want, 32.0 * T::EPS * m, &format!("point {i} {p:?} under a unit quaternion"))?;
        tol_check(arr(&out2[i]), want, 32.0 * T::EPS * m, &format!("point {i} {p:?} under a rotation matrix"))?;
    }
    c.ev("points transformed", 2 * n as u64);
    let back = c.call("transform_point_cloud", || transform_point_cloud(&out, iso.inverse()))?;
    ensure!(back.len() == n, "{} points back out of {n}", back.len());
    for i in 0..n {
        let p = arr(&cl.pts[i]);
        let m: f64 = (0..3).map(|k| p[k].abs() + 2.0 * t[k].f().abs()).sum();
        tol_check(arr(&back[i]), p, 64.0 * T::EPS * m, &format!("point {i} transformed and back"))?;
    }
    if n >= 1 {
        c.nontrivial(hash_pts(&cl.pts) ^ a.to_bits());
    }
    Ok(())
}
fn c10(c: &mut Case) -> Out {
    match c.rng.below(4) {
        0 => trans2::<f32>(c),
        1 => trans2::<f64>(c),
        2 => trans3::<f32>(c),
        _ => trans3::<f64>(c),
    }
}

fn props() -> Vec<Prop> {
    vec![
        Prop { id: "C06", rule: "clouds of 1-6 dimensions, f32/f64 (with NaN of either sign, infinities, signed zeros, pre-sorted and reversed orders injected) and seven integer types over their whole range, plus 0-dimensional points; every adjacent pair of every result compared, permutation checked on bit patterns, references checked by address. Non-trivial: at least 3 points.", quick: 1_000_000, thorough: 30_000_000, run: c06, min_nontrivial: 4000, assumptions: &[], ..Prop::BASE },
        Prop { id: "C07", rule: "clouds of the 13 families x voxel sizes from coarser than the cloud to finer than the spacing, dyadic and not, f32/f64 points x f32/f64 voxels and integer points; occupied voxels and their means computed independently, every output paired with its voxel. Non-trivial: at least 2 voxels and 3 points.", quick: 900_000, thorough: 20_000_000, run: c07, min_nontrivial: 4000, assumptions: &["positive finite voxel size; point over voxel size fits an isize", "points closer to a voxel wall than the rounding of the quotient are left out unless the quotient is exact", "integer points whose per-voxel sums and counts fit the point type"], probes: &[("u8-mean-of-200-and-210", narrow_mean)], ..Prop::BASE },
        Prop { id: "C08", rule: "clouds of 1-6 dimensions and up to 75000 points; the mean recomputed with compensated summation, tolerance the rounding of a sum in T (none beyond the division where the sum is exact). Non-trivial: at least 2 points.", quick: 500_000, thorough: 10_000_000, run: c08, min_nontrivial: 4000, assumptions: &["sums do not overflow"], ..Prop::BASE },
        Prop { id: "C09", rule: "random, degenerate, one-sided and far-offset ranges per axis, 0-20000 points, f32/f64 x 1-4 dimensions and i32; bounds, count, repeatability and spread checked. Non-trivial: at least 2 points.", quick: 200_000, thorough: 6_000_000, run: c09, min_nontrivial: 1000, assumptions: &["non-empty ranges whose width is finite"], ..Prop::BASE },
        Prop { id: "C10", rule: "clouds x rotations (zero, tiny, right and straight angles, general; axis-aligned and general axes) x translations, unit complex, unit quaternion, Rotation2 and Rotation3, f32/f64; each image recomputed independently, inverse round trip. Non-trivial: at least 1 point.", quick: 300_000, thorough: 6_000_000, run: c10, min_nontrivial: 3000, assumptions: &["finite values"], ..Prop::BASE },
    ]
}

fn main() {
    mon::cli::main(props());
}
