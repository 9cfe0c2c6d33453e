//! Convex hulls against exact arithmetic.
use mon::num::*;
use mon::rng::Rng;
use mon::rt::*;
use mon::{bad, ensure};
use mapping_algorithms::polygons::{double_precision as dp, graham_scan, jarvis_march, single_precision as sp};
use mapping_algorithms::types::IsNan;
use nalgebra::{ComplexField, Point2};
use num_traits::{real::Real, AsPrimitive, NumAssign};
use std::cmp::Ordering;
use std::collections::{HashMap, HashSet};

type P = [i128; 2];

fn cross(a: P, b: P, c: P) -> i128 {
    (b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0])
}

/// The strict corners, clockwise from the leftmost-lowest; None when all the
/// points are on a line. `turn` is the exact sign of the turn a, b, c.
fn corners<Q: Copy>(mut s: Vec<Q>, cmp: impl Fn(&Q, &Q) -> Ordering, turn: impl Fn(Q, Q, Q) -> Ordering) -> Option<Vec<Q>> {
    s.sort_by(&cmp);
    s.dedup_by(|a, b| cmp(a, b) == Ordering::Equal);
    if s.len() < 3 {
        return None;
    }
    let chain = |it: &mut dyn Iterator<Item = Q>| {
        let mut h: Vec<Q> = vec![];
        for p in it {
            while h.len() > 1 && turn(h[h.len() - 2], h[h.len() - 1], p) != Ordering::Less {
                h.pop();
            }
            h.push(p);
        }
        h.pop();
        h
    };
    let mut up = chain(&mut s.iter().copied());
    let low = chain(&mut s.iter().rev().copied());
    up.extend(low);
    if up.len() < 3 {
        return None;
    }
    Some(up)
}
fn int_corners(p: &[P]) -> Option<Vec<P>> {
    corners(p.to_vec(), |a, b| a.cmp(b), |a, b, c| cross(a, b, c).cmp(&0))
}

// ------------------------------------------------------------- generators
/// Integer point sets within 0..=span on both axes, built to hit the corner
/// cases of hull algorithms. Span >= 7.
fn shape(r: &mut Rng, span: i64, cap: usize) -> (Vec<[i64; 2]>, &'static str) {
    let n = 3 + r.vast(160).min(cap);
    let mut v: Vec<[i64; 2]> = vec![];
    let name = match r.below(14) {
        0 | 1 => {
            for _ in 0..n {
                v.push([r.int(0, span), r.int(0, span)]);
            }
            "random"
        }
        2 => {
            let k = 1 + r.int(0, 5.min(span - 1));
            for _ in 0..n {
                v.push([r.int(0, k), r.int(0, k)]);
            }
            "tiny grid"
        }
        3 => {
            let (w, h) = (1 + r.int(0, 8.min(span - 1)), 1 + r.int(0, 8.min(span - 1)));
            for x in 0..=w {
                for y in 0..=h {
                    v.push([x, y]);
                }
            }
            "full lattice"
        }
        4 => {
            // strictly convex: x(x+1)/2 slopes
            let m = (((2 * span) as f64).sqrt() as i64 - 1).max(2);
            let k = n.min(m as usize) as i64;
            for x in 0..k {
                v.push([x, x * (x + 1) / 2]);
            }
            let top = (k - 1) * k / 2;
            if r.chance(1, 3) && top < span && k < span {
                // a point at one end that hides some or all of the corners
                let low = r.int(0, span - top);
                for p in &mut v {
                    p[1] += low;
                }
                v.push([k - 1 + r.int(0, 2.min(span - k + 1)), r.int(0, low)]);
                if r.chance(1, 2) {
                    for p in &mut v {
                        p[1] = span - p[1];
                    }
                }
                return finish(r, v, span, "hidden corners");
            }
            if r.chance(1, 2) {
                for _ in 0..n / 2 {
                    let x = r.int(0, k - 1);
                    let top = (k - 1) * k / 2;
                    v.push([x, r.int(x * (x + 1) / 2, top.max(x * (x + 1) / 2))]);
                }
            }
            "parabola"
        }
        5 => {
            // on a line, any slope, repeats
            let (dx, dy) = (r.int(-3, 3), r.int(-3, 3));
            let m = (span / 3).max(1);
            for _ in 0..n {
                let t = r.int(0, m);
                let f = |d: i64| if d < 0 { 3 * m + d * t } else { d * t };
                v.push([f(dx).min(span), f(dy).min(span)]);
            }
            if m * 3 > span {
                for p in &mut v {
                    p[1] = 0;
                }
            }
            "collinear"
        }
        6 => {
            // a line and one point off it
            let m = (span / 2).max(1);
            let (dx, dy) = (r.int(0, 2), r.int(0, 2));
            for _ in 0..n {
                let t = r.int(0, m);
                v.push([dx * t, dy * t]);
            }
            v.push([r.int(0, span), r.int(0, span)]);
            "line and a point"
        }
        7 => {
            let p = [r.int(0, span), r.int(0, span)];
            for _ in 0..n {
                v.push(p);
            }
            if r.chance(1, 2) {
                v.push([r.int(0, span), r.int(0, span)]);
            }
            "one point repeated"
        }
        8 => {
            // corners of a triangle, points along its edges and inside
            let s = span - span % 4;
            let t = [[0, 0], [s, r.int(0, 1) * s], [r.int(0, 1) * s / 2, s]];
            v.extend(t);
            for _ in 0..n {
                let (i, j) = (r.usize(3), r.usize(3));
                let k = r.int(0, 4);
                v.push([
                    t[i][0] + (t[j][0] - t[i][0]) / 4 * k,
                    t[i][1] + (t[j][1] - t[i][1]) / 4 * k,
                ]);
            }
            "edge points"
        }
        9 => {
            // rectangle border: many collinear boundary points on vertical edges
            for _ in 0..n {
                let t = r.int(0, span);
                v.push(match r.below(4) {
                    0 => [0, t],
                    1 => [span, t],
                    2 => [t, 0],
                    _ => [t, span],
                });
            }
            "rectangle border"
        }
        10 => {
            // rounded circle
            let c = span as f64 / 2.0;
            for _ in 0..n {
                let a = r.unit() * std::f64::consts::TAU;
                let f = |x: f64| ((c + c * x).round() as i64).clamp(0, span);
                v.push([f(a.cos()), f(a.sin())]);
            }
            "circle"
        }
        11 => {
            // almost a line: one unit of wobble over the whole span
            for _ in 0..n {
                let x = r.int(0, span);
                v.push([x, (x / 2 + r.int(0, 1)).min(span)]);
            }
            "wobbly line"
        }
        12 => {
            // two columns (all x equal within each)
            let g = r.int(1, span);
            for _ in 0..n {
                v.push([r.int(0, 1) * g, r.int(0, span)]);
            }
            "two columns"
        }
        _ => {
            // opposite extremes of the range
            for _ in 0..3 + r.usize(12) {
                v.push([r.int(0, 1) * span, r.int(0, 1) * span]);
            }
            for _ in 0..r.usize(6) {
                v.push([r.int(0, span), r.int(0, span)]);
            }
            "extremes"
        }
    };
    finish(r, v, span, name)
}
/// Turned over, cut short, with repeats, in some order.
fn finish(r: &mut Rng, mut v: Vec<[i64; 2]>, span: i64, name: &'static str) -> (Vec<[i64; 2]>, &'static str) {
    if r.chance(1, 4) {
        for p in &mut v {
            p.swap(0, 1);
        }
    }
    if r.chance(1, 3) {
        for p in &mut v {
            p[0] = span - p[0];
        }
    }
    if r.chance(1, 3) {
        for p in &mut v {
            p[1] = span - p[1];
        }
    }
    if r.chance(1, 12) {
        let k = r.usize(4);
        v.truncate(k);
    }
    if r.chance(1, 4) {
        let k = v.len();
        for _ in 0..k / 2 {
            let p = *r.pick(&v);
            v.push(p);
        }
    }
    match r.below(4) {
        0 => v.sort(),
        1 => {
            v.sort();
            v.reverse()
        }
        _ => r.shuffle(&mut v),
    }
    (v, name)
}

// ---------------------------------------------------------------- verdicts
fn judge_graham(input: &[P], got: &Option<Vec<P>>) -> Result<(), String> {
    let want = if input.len() < 3 { None } else { int_corners(input) };
    if *got != want {
        return Err(format!("got {got:?}, the corners are {want:?}"));
    }
    Ok(())
}
fn judge_jarvis(input: &[P], got: &Option<Vec<P>>) -> Result<usize, String> {
    let want = if input.len() < 3 { None } else { int_corners(input) };
    let (g, w) = match (got, want) {
        (None, None) => return Ok(0),
        (None, Some(w)) => return Err(format!("got None, the corners are {w:?}")),
        (Some(g), None) => return Err(format!("got {g:?} for points that are too few or on one line")),
        (Some(g), Some(w)) => (g, w),
    };
    let inset: HashSet<P> = input.iter().copied().collect();
    let mut seen = HashSet::new();
    for p in g {
        if !inset.contains(p) {
            return Err(format!("{p:?} is not one of the points"));
        }
        if !seen.insert(*p) {
            return Err(format!("{p:?} appears twice in {g:?}"));
        }
    }
    if g.first() != w.first() {
        return Err(format!("starts at {:?}, the leftmost-lowest point is {:?}", g.first(), w[0]));
    }
    // walk: between two corners only points of that edge, in order
    let mut i = 0;
    for k in 0..w.len() {
        let (a, b) = (w[k], w[(k + 1) % w.len()]);
        if i >= g.len() || g[i] != a {
            return Err(format!("position {i} should be the corner {a:?}; got {g:?}, corners {w:?}"));
        }
        i += 1;
        let along = |p: P| (p[0] - a[0]) * (b[0] - a[0]) + (p[1] - a[1]) * (b[1] - a[1]);
        let mut t = 0;
        while i < g.len() && g[i] != b && !(k + 1 == w.len()) || (k + 1 == w.len() && i < g.len()) {
            let p = g[i];
            if cross(a, b, p) != 0 || along(p) <= t || along(p) >= along(b) {
                return Err(format!("{p:?} is not the next point on the edge {a:?} {b:?}; got {g:?}, corners {w:?}"));
            }
            t = along(p);
            i += 1;
        }
    }
    if i != g.len() {
        return Err(format!("{} points past the last edge: {g:?}, corners {w:?}", g.len() - i));
    }
    Ok(g.len() - w.len())
}

/// Float points as exact integers, by value.
struct Exact {
    of: HashMap<[u64; 2], P>,
    input: Vec<P>,
}
fn exact<T: Fl>(pts: &[Point2<T>]) -> Option<Exact> {
    let a: Vec<[f64; 2]> = pts.iter().map(|p| [p.x.f(), p.y.f()]).collect();
    let input = to_ints(&a)?;
    let of = pts.iter().zip(&input).map(|(p, i)| (key(p), *i)).collect();
    Some(Exact { of, input })
}
impl Exact {
    fn back<T: Fl>(&self, got: &Option<Vec<Point2<T>>>) -> Result<Option<Vec<P>>, String> {
        match got {
            None => Ok(None),
            Some(v) => v
                .iter()
                .map(|p| self.of.get(&key(p)).copied().ok_or(format!("{:?} is not one of the points", arr(p))))
                .collect::<Result<Vec<P>, String>>()
                .map(Some),
        }
    }
}
macro_rules! judge {
    ($e:expr, $($a:tt)*) => { match $e { Ok(v) => v, Err(m) => bad!("{}: {m}", format!($($a)*)) } };
}

/// Points whose turns are exact in T.
fn exact_points<T: Fl>(r: &mut Rng, cap: usize) -> (Vec<Point2<T>>, &'static str) {
    if r.chance(1, 4) {
        let n = 3 + r.vast(200).min(cap);
        let fam = *r.pick(&[2, 4, 5, 6, 7, 8, 12]);
        let c = cloud_of::<T, 2>(r, n, fam);
        return (c.pts, c.family);
    }
    let span: i64 = if T::INT == 1 << 24 { 1 << 11 } else { 1 << 25 };
    let span = if r.chance(1, 2) { 7 + r.int(0, 40) } else { span };
    let (v, name) = shape(r, span, cap);
    let off = [r.int(-span, 0), r.int(-span, 0)];
    let far = if T::INT == 1 << 24 { 45 } else { 430 };
    let e = if r.chance(1, 5) { far } else { 8 };
    let sc = 2f64.powi(r.int(-e, e) as i32);
    let pts = v.iter().map(|p| pt([(p[0] + off[0]) as f64 * sc, (p[1] + off[1]) as f64 * sc])).collect();
    (pts, name)
}

// ------------------------------------------------------------ C20 graham
fn graham<T: Fl>(c: &mut Case) -> Out
where
    T: AsPrimitive<T> + AsPrimitive<isize>,
    usize: AsPrimitive<T>,
{
    let (pts, name) = exact_points::<T>(&mut c.rng, 300_000);
    c.note(|| format!("{name} {}", show(&pts)));
    c.sample(|| format!("{} {name}, {} points", T::NAME, pts.len()));
    let Some(e) = exact(&pts) else { return Err(Fail::Harness("not exact".into())) };
    let got = c.call("graham_scan", || graham_scan::<T, T>(&pts, false, None))?;
    let ints = judge!(e.back(&got), "graham_scan of {name}");
    judge!(judge_graham(&e.input, &ints), "graham_scan of {name} ({} points)", pts.len());
    // sorted input, saying so
    let mut sorted = pts.clone();
    sorted.sort_by(|a, b| a.x.partial_cmp(&b.x).unwrap().then(a.y.partial_cmp(&b.y).unwrap()));
    let got2 = c.call("graham_scan", || graham_scan::<T, T>(&sorted, true, None))?;
    let ints2 = judge!(e.back(&got2), "graham_scan of sorted {name}");
    ensure!(ints2 == ints, "sorted input gives {ints2:?} with assume_sorted, {ints:?} otherwise");
    match &ints {
        Some(h) => {
            c.ev("hulls", 1);
            c.ev("corners", h.len() as u64);
            c.nontrivial(hash_pts(&pts));
        }
        None => c.ev("no hull (too few or collinear)", 1),
    }
    // a NaN anywhere cannot be sorted
    if pts.len() >= 3 && c.rng.chance(1, 4) {
        let mut bad_pts = pts.clone();
        let i = c.rng.usize(bad_pts.len());
        bad_pts[i][c.rng.usize(2)] = nan(&mut c.rng);
        let g = c.call("graham_scan with a NaN", || graham_scan::<T, T>(&bad_pts, false, None))?;
        ensure!(g.is_none(), "a NaN among the points gave {g:?}");
        c.ev("NaN inputs refused", 1);
    }
    Ok(())
}
fn c20(c: &mut Case) -> Out {
    if c.rng.chance(1, 2) {
        graham::<f32>(c)
    } else {
        graham::<f64>(c)
    }
}

// ------------------------------------------------------------ C21 jarvis
fn jarvis<T: Fl>(c: &mut Case) -> Out
where
    T: AsPrimitive<T> + AsPrimitive<isize>,
    usize: AsPrimitive<T>,
{
    let (pts, name) = exact_points::<T>(&mut c.rng, 15_000);
    c.note(|| format!("{name} {}", show(&pts)));
    c.sample(|| format!("{} {name}, {} points", T::NAME, pts.len()));
    let Some(e) = exact(&pts) else { return Err(Fail::Harness("not exact".into())) };
    let got = c.call("jarvis_march", || jarvis_march::<T, T>(&pts, None))?;
    let ints = judge!(e.back(&got), "jarvis_march of {name}");
    let extra = judge!(judge_jarvis(&e.input, &ints), "jarvis_march of {name} ({} points)", pts.len());
    c.ev("collinear boundary points listed", extra as u64);
    match &ints {
        Some(h) => {
            c.ev("hulls", 1);
            c.ev("vertices", h.len() as u64);
            c.nontrivial(hash_pts(&pts));
        }
        None => c.ev("no hull (too few or collinear)", 1),
    }
    Ok(())
}
fn c21(c: &mut Case) -> Out {
    if c.rng.chance(1, 2) {
        jarvis::<f32>(c)
    } else {
        jarvis::<f64>(c)
    }
}

// ---------------------------------------------------- C22 arbitrary floats
fn seg_dist(p: [f64; 2], a: [f64; 2], b: [f64; 2]) -> f64 {
    let (dx, dy) = (b[0] - a[0], b[1] - a[1]);
    let l = dx * dx + dy * dy;
    let t = if l > 0.0 { (((p[0] - a[0]) * dx + (p[1] - a[1]) * dy) / l).clamp(0.0, 1.0) } else { 0.0 };
    d2(p, [a[0] + t * dx, a[1] + t * dy]).sqrt()
}
/// A hull of `a` (floats, turns rounded): what any acceptable answer satisfies.
fn judge_float(a: &[[f64; 2]], got: &Option<Vec<[f64; 2]>>, eps: f64) -> Result<bool, String> {
    let lex = |a: &[f64; 2], b: &[f64; 2]| a[0].partial_cmp(&b[0]).unwrap().then(a[1].partial_cmp(&b[1]).unwrap());
    let w = if a.len() < 3 { None } else { corners(a.to_vec(), lex, orient) };
    let mut d = 0.0f64;
    if let Some(w) = &w {
        for p in w {
            d = d.max((p[0] - w[0][0]).abs()).max((p[1] - w[0][1]).abs());
        }
        let lo = w.iter().map(|p| p[1]).fold(f64::INFINITY, f64::min);
        let hi = w.iter().map(|p| p[1]).fold(f64::NEG_INFINITY, f64::max);
        d = d.max(hi - lo);
    }
    let tol = 256.0 * eps * d;
    let Some(g) = got else {
        if let Some(w) = &w {
            // only right if the whole set is a line up to rounding
            let last = *w.iter().max_by(|a, b| lex(a, b)).unwrap();
            let far = w.iter().map(|p| seg_dist(*p, w[0], last)).fold(0.0, f64::max);
            if far > tol {
                return Err(format!("got None, but {} corners reach {far:e} off a line (tolerance {tol:e})", w.len()));
            }
        }
        return Ok(false);
    };
    let set: HashSet<[u64; 2]> = a.iter().map(|p| [(p[0] + 0.0).to_bits(), (p[1] + 0.0).to_bits()]).collect();
    for p in g {
        if !set.contains(&[(p[0] + 0.0).to_bits(), (p[1] + 0.0).to_bits()]) {
            return Err(format!("{p:?} is not one of the points"));
        }
    }
    if g.len() < 2 {
        return Err(format!("a hull of {} points", g.len()));
    }
    let Some(w) = w else {
        // exactly collinear, and rounding may not show it: a sliver on the line
        return Ok(false);
    };
    if lex(&g[0], &w[0]) != Ordering::Equal {
        return Err(format!("starts at {:?}, the leftmost-lowest point is {:?}", g[0], w[0]));
    }
    // goes up to the lexicographically last point, then back (so no point
    // repeats within a chain; where the set is as thin as rounding the two
    // chains may share one)
    let top = (0..g.len()).max_by(|&i, &j| lex(&g[i], &g[j])).unwrap();
    let last = *a.iter().max_by(|a, b| lex(a, b)).unwrap();
    if lex(&g[top], &last) != Ordering::Equal {
        return Err(format!("the rightmost point {last:?} is missing"));
    }
    for i in 0..g.len() - 1 {
        let o = lex(&g[i], &g[i + 1]);
        if (i < top) != (o == Ordering::Less) {
            return Err(format!("vertex {} goes the wrong way round: {:?} to {:?}", i + 1, g[i], g[i + 1]));
        }
    }
    // clockwise: the first chain above the second
    for p in &w {
        let f = (0..g.len()).map(|i| seg_dist(*p, g[i], g[(i + 1) % g.len()])).fold(f64::INFINITY, f64::min);
        if f > tol {
            return Err(format!("the corner {p:?} is {f:e} from the answer's boundary (tolerance {tol:e})"));
        }
    }
    // and nothing of the answer is well inside
    for p in g {
        let f = (0..w.len()).map(|i| seg_dist(*p, w[i], w[(i + 1) % w.len()])).fold(f64::INFINITY, f64::min);
        if f > tol {
            return Err(format!("the vertex {p:?} is {f:e} inside the hull (tolerance {tol:e})"));
        }
    }
    let area: f64 = (0..g.len())
        .map(|i| {
            let (p, q) = (g[i], g[(i + 1) % g.len()]);
            (p[0] - g[0][0]) * (q[1] - g[0][1]) - (q[0] - g[0][0]) * (p[1] - g[0][1])
        })
        .sum();
    if area > 8.0 * tol * d {
        return Err(format!("the vertices go counter-clockwise (area {area:e})"));
    }
    Ok(true)
}
fn floats<T: Fl>(c: &mut Case) -> Out
where
    T: AsPrimitive<T> + AsPrimitive<isize>,
    usize: AsPrimitive<T>,
{
    let n = 3 + c.rng.size(300);
    let (pts, name): (Vec<Point2<T>>, &'static str) = match c.rng.below(4) {
        0 => {
            // nearly collinear: a rotated line with rounding-size noise
            let a = c.rng.sym(3.2);
            let s = 10f64.powi(c.rng.int(-2, 4) as i32);
            let w = s * T::EPS * *c.rng.pick(&[0.0, 1.0, 30.0, 3000.0]);
            let o = [c.rng.sym(s), c.rng.sym(s)];
            let v = (0..n)
                .map(|_| {
                    let t = c.rng.sym(s);
                    pt([o[0] + t * a.cos() + c.rng.sym(w), o[1] + t * a.sin() + c.rng.sym(w)])
                })
                .collect();
            (v, "rounded line")
        }
        1 => {
            // rotated lattice: collinear rows up to rounding
            let a = c.rng.sym(3.2);
            let (k, s) = (1 + c.rng.int(0, 8), c.rng.f(0.1, 10.0));
            let v = (0..n)
                .map(|_| {
                    let (x, y) = (c.rng.int(0, k) as f64 * s, c.rng.int(0, k) as f64 * s);
                    pt([x * a.cos() - y * a.sin(), x * a.sin() + y * a.cos()])
                })
                .collect();
            (v, "rotated lattice")
        }
        _ => {
            let f = *c.rng.pick(&[0, 9, 10, 11, 13, 1]);
            let mut cl = cloud_of::<T, 2>(&mut c.rng, n, f);
            if c.rng.chance(1, 5) {
                cl = rescaled(&mut c.rng, cl);
            }
            (cl.pts, cl.family)
        }
    };
    c.note(|| format!("{name} {}", show(&pts)));
    c.sample(|| format!("{} {name}, {} points", T::NAME, pts.len()));
    let a: Vec<[f64; 2]> = pts.iter().map(arr).collect();
    let arrs = |g: &Option<Vec<Point2<T>>>| g.as_ref().map(|v| v.iter().map(arr).collect::<Vec<_>>());
    let g = c.call("graham_scan", || graham_scan::<T, T>(&pts, false, None))?;
    let ok = judge!(judge_float(&a, &arrs(&g), T::EPS), "graham_scan of {} {name}", T::NAME);
    let j = c.call("jarvis_march", || jarvis_march::<T, T>(&pts, None))?;
    let ok2 = judge!(judge_float(&a, &arrs(&j), T::EPS), "jarvis_march of {} {name}", T::NAME);
    if ok && ok2 {
        c.ev("hull pairs judged", 1);
        c.ev("vertices", (g.map_or(0, |v| v.len()) + j.map_or(0, |v| v.len())) as u64);
        c.nontrivial(hash_pts(&pts));
    }
    Ok(())
}
fn c22(c: &mut Case) -> Out {
    if c.rng.chance(1, 2) {
        floats::<f32>(c)
    } else {
        floats::<f64>(c)
    }
}

// -------------------------------------------------------- C23 with voxels
fn voxel_floats<T: Fl>(c: &mut Case) -> Out
where
    T: AsPrimitive<T> + AsPrimitive<isize>,
    usize: AsPrimitive<T>,
{
    let span = if T::INT == 1 << 24 { 1 << 9 } else { 1 << 16 };
    let span = if c.rng.chance(1, 2) { span } else { 40 };
    let (v, name) = shape(&mut c.rng, span, 15_000);
    let off = [c.rng.int(-60, 10), c.rng.int(-60, 10)];
    let sc = 2f64.powi(c.rng.int(-3, 3) as i32);
    let voxel = sc * 2f64.powi(c.rng.int(-1, 6) as i32);
    let pts: Vec<Point2<T>> = v.iter().map(|p| pt([(p[0] + off[0]) as f64 * sc, (p[1] + off[1]) as f64 * sc])).collect();
    // every sum is exact; the mean takes one rounding
    let mut cells: HashMap<[i64; 2], (Vec<[f64; 2]>, f64)> = HashMap::new();
    for p in &pts {
        let a = arr(p);
        let e = cells.entry(a.map(|x| (x / voxel).floor() as i64)).or_insert((vec![[0.0; 2]], 0.0));
        e.0[0][0] += a[0];
        e.0[0][1] += a[1];
        e.1 += 1.0;
    }
    let means: Vec<[f64; 2]> = cells.values().map(|(s, n)| s[0].map(|x| (T::of(x) / T::of(*n)).f())).collect();
    let assume = c.rng.chance(1, 2);
    let mut input = pts.clone();
    if assume {
        input.sort_by(|a, b| a.x.partial_cmp(&b.x).unwrap().then(a.y.partial_cmp(&b.y).unwrap()));
    }
    c.note(|| format!("{name} voxel {voxel} assume_sorted {assume} {}", show(&input)));
    c.sample(|| format!("{} {name}, {} points in {} voxels of {voxel}, assume_sorted {assume}", T::NAME, pts.len(), means.len()));
    let snap = |v: &Option<Vec<Point2<T>>>| -> Result<Option<Vec<[f64; 2]>>, String> {
        let Some(v) = v else { return Ok(None) };
        let mut out = vec![];
        for p in v {
            let a = arr(p);
            let t = |x: f64| 4.0 * T::EPS * x.abs() + 1e-30;
            match means.iter().find(|m| (m[0] - a[0]).abs() <= t(a[0]) && (m[1] - a[1]).abs() <= t(a[1])) {
                Some(m) => out.push(*m),
                None => return Err(format!("{a:?} is not the mean of a voxel")),
            }
        }
        Ok(Some(out))
    };
    // fewer than three points never make a hull, whatever the voxels
    let m: Vec<[f64; 2]> = if pts.len() < 3 { vec![] } else { means.clone() };
    let g = c.call("graham_scan", || graham_scan::<T, T>(&input, assume, Some(T::of(voxel))))?;
    let gs = judge!(snap(&g), "graham_scan with voxels of {name}");
    let a = judge!(judge_float(&m, &gs, T::EPS), "graham_scan with voxels of {name}");
    let j = c.call("jarvis_march", || jarvis_march::<T, T>(&input, Some(T::of(voxel))))?;
    let js = judge!(snap(&j), "jarvis_march with voxels of {name}");
    let b = judge!(judge_float(&m, &js, T::EPS), "jarvis_march with voxels of {name}");
    if a && b {
        c.ev("voxel hulls", 2);
        if means.len() < pts.len() {
            c.nontrivial(hash_pts(&input) ^ voxel.to_bits());
        }
    }
    Ok(())
}
fn voxel_ints<T, O: Fl>(c: &mut Case, ty: &'static str, lo: i64, span: i64) -> Out
where
    O: AsPrimitive<isize>,
    T: AsPrimitive<O> + std::fmt::Debug + IsNan + NumAssign + PartialOrd + nalgebra::Scalar + TryFrom<i64> + TryInto<i64>,
    usize: AsPrimitive<T>,
{
    // the sums of a cell have to fit the type of the points (C07 states that assumption): coordinates
    // reach 2 x span and a little, and one cell may hold them all
    let cap = if ty == "u32" { (u32::MAX as i64 / (2 * span + 64)).min(15_000) } else { 15_000 };
    let (v, name) = shape(&mut c.rng, span, cap as usize);
    let off = if lo < 0 { -c.rng.int(0, span) } else { c.rng.int(0, 5) };
    let v: Vec<P> = v.iter().map(|p| [(p[0] + off) as i128, (p[1] + off) as i128]).collect();
    let voxel = 1i128 << c.rng.below(5);
    let mut cells: HashMap<P, (P, i128)> = HashMap::new();
    for p in &v {
        let e = cells.entry(p.map(|x| x.div_euclid(voxel))).or_insert(([0; 2], 0));
        e.0[0] += p[0];
        e.0[1] += p[1];
        e.1 += 1;
    }
    // integer division truncates
    let means: Vec<P> = cells.values().map(|(s, n)| s.map(|x| x / n)).collect();
    let cv = |x: i128| T::try_from(x as i64).ok().unwrap();
    let assume = c.rng.chance(1, 2);
    let mut input: Vec<P> = v.clone();
    if assume {
        input.sort();
    }
    let pts: Vec<Point2<T>> = input.iter().map(|p| Point2::new(cv(p[0]), cv(p[1]))).collect();
    c.note(|| format!("{ty} {name} voxel {voxel} in {} assume_sorted {assume} {input:?}", O::NAME));
    let back = |g: Option<Vec<Point2<T>>>| g.map(|v| v.iter().map(|p| [p.x.try_into().ok().unwrap() as i128, p.y.try_into().ok().unwrap() as i128]).collect::<Vec<P>>());
    let m: Vec<P> = if v.len() < 3 { vec![] } else { means.clone() };
    let g = c.call("graham_scan", || graham_scan::<O, T>(&pts, assume, Some(O::of(voxel as f64))))?;
    let g = back(g);
    judge!(judge_graham(&m, &g), "graham_scan with voxels of {ty} {name}");
    let j = c.call("jarvis_march", || jarvis_march::<O, T>(&pts, Some(O::of(voxel as f64))))?;
    let j = back(j);
    judge!(judge_jarvis(&m, &j), "jarvis_march with voxels of {ty} {name}");
    if g.is_some() {
        c.ev("integer voxel hulls", 2);
        if means.len() < v.len() {
            c.nontrivial(hash_bytes(input.iter().flatten().map(|x| *x as u64).chain([voxel as u64])));
        }
    }
    Ok(())
}
fn c23(c: &mut Case) -> Out {
    match c.rng.below(8) {
        0..=2 => voxel_floats::<f32>(c),
        3..=4 => voxel_floats::<f64>(c),
        5 => voxel_ints::<i32, f32>(c, "i32", -1, 1000),
        6 => voxel_ints::<i64, f64>(c, "i64", -1, 1 << 20),
        _ => voxel_ints::<u32, f64>(c, "u32", 0, 1 << 20),
    }
}

// -------------------------------------------------- C24 every point type
trait IntPt: Copy {
    const LO: i128;
    const HI: i128;
    fn mk(x: i128) -> Self;
    fn un(self) -> i128;
}
macro_rules! int_pt { ($($t:ty)*) => { $(impl IntPt for $t {
    const LO: i128 = <$t>::MIN as i128;
    const HI: i128 = <$t>::MAX as i128;
    fn mk(x: i128) -> Self { x as $t }
    fn un(self) -> i128 { self as i128 }
})* } }
int_pt!(u8 u16 u32 u64 usize i8 i16 i32 i64 isize);
macro_rules! fl_pt { ($($t:ty)*) => { $(impl IntPt for $t {
    const LO: i128 = -(<$t as Fl>::INT as i128);
    const HI: i128 = <$t as Fl>::INT as i128;
    fn mk(x: i128) -> Self { x as $t }
    fn un(self) -> i128 { self as i128 }
})* } }
fl_pt!(f32 f64);

type Gf<T, O> = fn(&[Point2<T>], bool, Option<O>) -> Option<Vec<Point2<T>>>;
type Jf<T, O> = fn(&[Point2<T>], Option<O>) -> Option<Vec<Point2<T>>>;
fn typed<T, O: Fl>(c: &mut Case, ty: &'static str, gf: Gf<T, O>, jf: Jf<T, O>) -> Out
where
    O: AsPrimitive<isize> + Real + ComplexField,
    T: IntPt + AsPrimitive<O> + std::fmt::Debug + IsNan + NumAssign + PartialOrd + nalgebra::Scalar,
    usize: AsPrimitive<T>,
{
    // the widest differences whose products are exact in O
    let lim: i128 = if O::INT == 1 << 24 { 1 << 11 } else { 1 << 25 };
    let room = T::HI - T::LO;
    let span = lim.min(room);
    let span = if c.rng.chance(1, 3) { span.min(7 + c.rng.int(0, 30) as i128) } else { span };
    let place = c.rng.below(4);
    let base = |r: &mut Rng| -> i128 {
        match place {
            0 => T::LO,
            1 => T::HI - span,
            2 if T::LO < 0 => -(span + 1) / 2,
            2 => 0,
            _ => T::LO + ((r.u64() as i128) % (room - span + 1)).min(room - span),
        }
    };
    let o = [base(&mut c.rng), base(&mut c.rng)];
    let (v, name) = shape(&mut c.rng, span as i64, 15_000);
    let ints: Vec<P> = v.iter().map(|p| [p[0] as i128 + o[0], p[1] as i128 + o[1]]).collect();
    let pts: Vec<Point2<T>> = ints.iter().map(|p| Point2::new(T::mk(p[0]), T::mk(p[1]))).collect();
    c.note(|| format!("{ty} in {} {name} span {span} from {o:?}: {ints:?}", O::NAME));
    c.sample(|| format!("{ty} points in {} precision, {name} of {} over {span} from {o:?}", O::NAME, ints.len()));
    let back = |g: Option<Vec<Point2<T>>>| g.map(|v| v.iter().map(|p| [p.x.un(), p.y.un()]).collect::<Vec<P>>());
    let g = back(c.call("graham_scan", || gf(&pts, false, None))?);
    judge!(judge_graham(&ints, &g), "graham_scan of {ty} in {}, {name}", O::NAME);
    let g2 = back(c.call("graham_scan", || graham_scan::<O, T>(&pts, false, None))?);
    ensure!(g == g2, "graham_scan of {ty} in {}: premade {g:?}, generic {g2:?}", O::NAME);
    let j = back(c.call("jarvis_march", || jf(&pts, None))?);
    judge!(judge_jarvis(&ints, &j), "jarvis_march of {ty} in {}, {name}", O::NAME);
    let j2 = back(c.call("jarvis_march", || jarvis_march::<O, T>(&pts, None))?);
    ensure!(j == j2, "jarvis_march of {ty} in {}: premade {j:?}, generic {j2:?}", O::NAME);
    c.ev("typed hull calls", 4);
    if place < 2 {
        c.ev("at an end of the type's range", 1);
    }
    if g.is_some() {
        c.nontrivial(hash_bytes(ints.iter().flatten().map(|x| *x as u64).chain(ty.bytes().map(|b| b as u64)).chain([O::INT as u64])));
    }
    Ok(())
}
fn c24(c: &mut Case) -> Out {
    macro_rules! go {
        ($k:expr, $($i:literal $t:ident $g:ident $j:ident),*) => {
            match $k {
                $($i => if c.rng.chance(1, 2) {
                    typed::<$t, f32>(c, stringify!($t), sp::$g, sp::$j)
                } else {
                    typed::<$t, f64>(c, stringify!($t), dp::$g, dp::$j)
                },)*
                _ => unreachable!(),
            }
        };
    }
    let k = c.rng.below(12);
    go!(k, 0 u8 graham_scan_u8 jarvis_march_u8, 1 u16 graham_scan_u16 jarvis_march_u16, 2 u32 graham_scan_u32 jarvis_march_u32,
        3 u64 graham_scan_u64 jarvis_march_u64, 4 usize graham_scan_usize jarvis_march_usize, 5 i8 graham_scan_i8 jarvis_march_i8,
        6 i16 graham_scan_i16 jarvis_march_i16, 7 i32 graham_scan_i32 jarvis_march_i32, 8 i64 graham_scan_i64 jarvis_march_i64,
        9 isize graham_scan_isize jarvis_march_isize, 10 f32 graham_scan_f32 jarvis_march_f32, 11 f64 graham_scan_f64 jarvis_march_f64)
}

fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C20",
            rule: "point sets whose turns are exact in the precision (lattices, convex position, collinear, duplicated, border-heavy, dyadic), f32 and f64; graham_scan must equal the strict corners found in integer arithmetic, in order, for unsorted and for declared-sorted input, and refuse NaN. Non-trivial: a distinct set with a hull.",
            quick: 1_000_000,
            thorough: 30_000_000,
            run: c20,
            min_nontrivial: 20_000,
            assumptions: &["coordinate differences at most 2^12 (f32) or 2^26 (f64) units, so that turns are exact"], ..Prop::BASE
        },
        Prop {
            id: "C21",
            rule: "the same kind of point sets through jarvis_march: every strict corner, clockwise from the leftmost-lowest, nothing else but points of the boundary in order along their edge, each once; None exactly for fewer than three points or one line; always returns. Non-trivial: a distinct set with a hull.",
            quick: 800_000,
            thorough: 20_000_000,
            run: c21,
            min_nontrivial: 15_000,
            assumptions: &["coordinate differences at most 2^12 (f32) or 2^26 (f64) units, so that turns are exact"], ..Prop::BASE
        },
        Prop {
            id: "C22",
            rule: "arbitrary finite floats (uniform, clusters, decades, large offsets, circles, rounded lines, rotated lattices): both hulls are simple clockwise cycles of input points whose boundary is within rounding of the exact hull's. Non-trivial: a distinct set with an exact hull.",
            quick: 300_000,
            thorough: 8_000_000,
            run: c22,
            min_nontrivial: 8_000,
            assumptions: &["boundary tolerance 256 ulps of the set's extent"], ..Prop::BASE
        },
        Prop {
            id: "C23",
            rule: "a voxel size given to either hull: the answer is the hull of the voxel means computed by the harness (exact sums), for floats and integers, sorted or not, with and without assume_sorted. Non-trivial: a hull over voxels that merged points.",
            quick: 700_000,
            thorough: 20_000_000,
            run: c23,
            min_nontrivial: 8_000,
            assumptions: &["voxel boundaries are powers of two, so that no rounding decides membership"], ..Prop::BASE
        },
        Prop {
            id: "C24",
            rule: "all twelve point types in both precisions, generic and premade functions, placed at the bottom, top, middle or anywhere of the type's range with spans up to what the precision multiplies exactly. Non-trivial: a distinct typed set with a hull.",
            quick: 600_000,
            thorough: 20_000_000,
            run: c24,
            min_nontrivial: 15_000,
            assumptions: &["coordinate spans at most 2^11 (f32) or 2^25 (f64)"], ..Prop::BASE
        },
    ]
}

fn main() {
    mon::cli::main(props());
}
