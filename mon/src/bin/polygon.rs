//! Point in polygon and polygon extents.
use mon::dispatch;
use mon::ensure;
use mon::num::*;
use mon::rng::Rng;
use mon::rt::*;
use mapping_algorithms::polygons::{are_multiple_points_in_polygon, calculate_polygon_extents, is_single_point_in_polygon};
use nalgebra::{Point, Point2};
use num_traits::AsPrimitive;

type P = [i64; 2];

fn cross(a: P, b: P, c: P) -> i128 {
    (b[0] - a[0]) as i128 * (c[1] - a[1]) as i128 - (b[1] - a[1]) as i128 * (c[0] - a[0]) as i128
}
fn on_edge(a: P, b: P, p: P) -> bool {
    cross(a, b, p) == 0 && p[0] >= a[0].min(b[0]) && p[0] <= a[0].max(b[0]) && p[1] >= a[1].min(b[1]) && p[1] <= a[1].max(b[1])
}
fn edges(poly: &[P]) -> impl Iterator<Item = (P, P)> + '_ {
    (0..poly.len()).map(move |i| (poly[i], poly[(i + 1) % poly.len()]))
}
/// Even-odd by a vertical ray in integers (the code casts a horizontal one);
/// None on the boundary.
fn inside(poly: &[P], p: P) -> Option<bool> {
    let mut odd = false;
    for (a, b) in edges(poly) {
        if on_edge(a, b, p) {
            return None;
        }
        if (a[0] > p[0]) != (b[0] > p[0]) {
            // does the edge pass above p at x = p.x?
            let (l, r) = if a[0] < b[0] { (a, b) } else { (b, a) };
            if cross(l, r, p) < 0 {
                odd = !odd;
            }
        }
    }
    Some(odd)
}

/// Vertices within 0..=s.
fn polygon(r: &mut Rng, s: i64) -> (Vec<P>, &'static str) {
    let n = 3 + r.vast(40);
    let mut v: Vec<P> = vec![];
    let name = match r.below(9) {
        0 => {
            for _ in 0..n {
                v.push([r.int(0, s), r.int(0, s)]);
            }
            "random (self-crossing)"
        }
        1 | 2 => {
            // star-shaped about the middle
            let c = s as f64 / 2.0;
            let mut an: Vec<f64> = (0..n).map(|_| r.unit() * std::f64::consts::TAU).collect();
            an.sort_by(|a, b| a.total_cmp(b));
            for a in an {
                let q = r.f(0.2, 1.0) * c;
                v.push([(c + q * a.cos()).round() as i64, (c + q * a.sin()).round() as i64]);
            }
            "star"
        }
        3 => {
            // comb: many vertices at the same few heights
            let k = (n as i64 / 2).clamp(2, (s / 2).max(2));
            for i in 0..k {
                v.push([i * s / k, if i % 2 == 0 { s } else { s / 3 }]);
            }
            v.push([s, 0]);
            v.push([0, 0]);
            "comb"
        }
        4 => {
            // rectilinear walk, closed
            let mut p = [r.int(0, s), r.int(0, s)];
            v.push(p);
            for i in 0..n {
                p[i % 2] = r.int(0, s);
                v.push(p);
            }
            let q = [v[0][0], p[1]];
            v.push(q);
            "rectilinear"
        }
        5 => {
            // tiny lattice: repeated vertices, spikes, overlapping edges
            let k = 1 + r.int(0, 4.min(s - 1));
            for _ in 0..n {
                v.push([r.int(0, k), r.int(0, k)]);
            }
            "tiny lattice"
        }
        6 => {
            let (dx, dy) = (r.int(0, 2), r.int(0, 2));
            for _ in 0..n {
                let t = r.int(0, s / 2);
                v.push([dx * t, dy * t]);
            }
            "collinear"
        }
        7 => {
            // staircase, vertices at every height
            let k = (n as i64).min(s);
            for i in 0..k {
                v.push([i, i]);
                v.push([i + 1, i]);
            }
            v.push([0, s]);
            "staircase"
        }
        _ => {
            // few vertices
            for _ in 0..r.usize(6) {
                v.push([r.int(0, s), r.int(0, s)]);
            }
            "few"
        }
    };
    if r.chance(1, 3) {
        v.reverse();
    }
    if r.chance(1, 3) {
        for p in &mut v {
            p.swap(0, 1);
        }
    }
    if r.chance(1, 6) && !v.is_empty() {
        // a repeated vertex, an explicit closing vertex
        let i = r.usize(v.len());
        v.insert(i, v[i]);
        let f = v[0];
        v.push(f);
    }
    if r.chance(1, 3) {
        for p in &mut v {
            p[1] = s - p[1];
        }
    }
    (v, name)
}
fn queries(r: &mut Rng, poly: &[P], s: i64, n: usize) -> Vec<P> {
    (0..n)
        .map(|_| {
            if poly.is_empty() {
                return [r.int(0, s), r.int(0, s)];
            }
            let (a, b) = (*r.pick(poly), *r.pick(poly));
            match r.below(8) {
                0 => [r.int(-3, s + 3), a[1]],
                1 => [a[0], r.int(-3, s + 3)],
                2 => [a[0], b[1]],
                3 => [a[0] + r.int(-1, 1), a[1] + r.int(-1, 1)],
                4 => [(a[0] + b[0]) / 2, (a[1] + b[1]) / 2],
                5 => [r.int(-2 * s, 3 * s), r.int(-2 * s, 3 * s)],
                _ => [r.int(-1, s + 1), r.int(-1, s + 1)],
            }
        })
        .collect()
}

/// Lattice to floats, exactly, and fine enough that no rounding of the
/// crossing can reach the next lattice point: span 2^6 in f32, 2^20 in f64.
struct Lay {
    off: P,
    sc: f64,
}
impl Lay {
    fn pt<T: Fl>(&self, p: P) -> Point2<T> {
        pt([(p[0] + self.off[0]) as f64 * self.sc, (p[1] + self.off[1]) as f64 * self.sc])
    }
}
fn lattice<T: Fl>(r: &mut Rng) -> (i64, Lay) {
    let big = if T::INT == 1 << 24 { 64 } else { 1 << 20 };
    let s = if r.chance(1, 2) { 6 + r.int(0, 40) } else { big };
    let far = if T::INT == 1 << 24 { 45 } else { 430 };
    let e = if r.chance(1, 5) { far } else { 10 };
    (s, Lay { off: [r.int(-s, 0), r.int(-s, 0)], sc: 2f64.powi(r.int(-e, e) as i32) })
}
fn hashp(poly: &[P], q: &[P]) -> u64 {
    hash_bytes(poly.iter().chain(q).flatten().map(|x| *x as u64).chain([poly.len() as u64]))
}

// ------------------------------------------------------------- C25 single
fn single<T: Fl>(c: &mut Case) -> Out
where
    f32: AsPrimitive<T>,
{
    if c.rng.chance(1, 4) {
        return single_float::<T>(c);
    }
    let (s, lay) = lattice::<T>(&mut c.rng);
    let (poly, name) = polygon(&mut c.rng, s);
    let qs = queries(&mut c.rng, &poly, s, 12);
    let pf: Vec<Point2<T>> = poly.iter().map(|p| lay.pt(*p)).collect();
    c.note(|| format!("{name} scale {} offset {:?} polygon {poly:?}\nas {}", lay.sc, lay.off, show(&pf)));
    c.sample(|| format!("{} {name} of {} vertices within {s}, {} points", T::NAME, poly.len(), qs.len()));
    let (mut ins, mut outs) = (0, 0);
    for q in &qs {
        let p: Point2<T> = lay.pt(*q);
        let got = c.call("is_single_point_in_polygon", || is_single_point_in_polygon(&p, &pf))?;
        match inside(&poly, *q) {
            None => c.ev("on the boundary (either answer)", 1),
            Some(w) => {
                ensure!(got == w, "{name} of {} vertices: {q:?} (as {:?}) is {}, answered {got}", poly.len(), arr(&p), if w { "inside" } else { "outside" });
                if w {
                    ins += 1
                } else {
                    outs += 1
                }
            }
        }
    }
    c.ev("inside", ins);
    c.ev("outside", outs);
    if ins > 0 && outs > 0 {
        c.nontrivial(hashp(&poly, &qs));
    }
    Ok(())
}
fn single_float<T: Fl>(c: &mut Case) -> Out
where
    f32: AsPrimitive<T>,
{
    let n = c.rng.size(60);
    let fam = *c.rng.pick(&[0, 9, 10, 11, 13]);
    let mut cl = cloud_of::<T, 2>(&mut c.rng, n, fam);
    if c.rng.chance(1, 5) {
        cl = rescaled(&mut c.rng, cl);
    }
    let mut pf = cl.pts;
    if c.rng.chance(1, 2) && !pf.is_empty() {
        // around the centroid: mostly simple
        let m = [0, 1].map(|i| pf.iter().map(|p| p[i].f()).sum::<f64>() / pf.len() as f64);
        pf.sort_by(|a, b| {
            let g = |p: &Point2<T>| (p.y.f() - m[1]).atan2(p.x.f() - m[0]);
            g(a).total_cmp(&g(b))
        });
    }
    let poly: Vec<[f64; 2]> = pf.iter().map(arr).collect();
    c.note(|| format!("{} {}", cl.family, show(&pf)));
    let sc = poly.iter().flatten().fold(0.0f64, |a, b| a.max(b.abs()));
    let (mut ins, mut outs) = (0, 0);
    let mut hh = 0;
    for _ in 0..12 {
        let q: [f64; 2] = if poly.is_empty() {
            [0.0; 2]
        } else {
            let (a, b, d) = (*c.rng.pick(&poly), *c.rng.pick(&poly), *c.rng.pick(&poly));
            match c.rng.below(4) {
                0 => [c.rng.sym(sc), a[1]],
                1 => [0, 1].map(|i| (a[i] + b[i] + d[i]) / 3.0),
                2 => [0, 1].map(|i| (a[i] + b[i]) / 2.0 + c.rng.sym(sc * 0.1)),
                _ => [a[0], b[1]],
            }
        };
        let p: Point2<T> = pt(q);
        let q = arr(&p);
        let got = c.call("is_single_point_in_polygon", || is_single_point_in_polygon(&p, &pf))?;
        // parity along the horizontal through q, exact turns; skip where an
        // edge passes within rounding of q
        let (mut odd, mut near) = (false, false);
        for i in 0..poly.len() {
            let (a, b) = (poly[i], poly[(i + 1) % poly.len()]);
            if (a[1] < q[1]) != (b[1] < q[1]) {
                let x = a[0] + (q[1] - a[1]) / (b[1] - a[1]) * (b[0] - a[0]);
                if (x - q[0]).abs() <= 32.0 * T::EPS * (a[0].abs().max(b[0].abs()).max(q[0].abs()) + (b[0] - a[0]).abs()) {
                    near = true;
                }
                let (lo, hi) = if a[1] < b[1] { (a, b) } else { (b, a) };
                if orient(lo, hi, q) == std::cmp::Ordering::Greater {
                    odd = !odd;
                }
            } else if a[1] == q[1] && b[1] == q[1] && q[0] >= a[0].min(b[0]) && q[0] <= a[0].max(b[0]) {
                near = true;
            }
        }
        if near {
            c.ev("within rounding of the boundary (either answer)", 1);
            continue;
        }
        ensure!(got == odd, "{} of {} vertices: {q:?} is {}, answered {got}", cl.family, poly.len(), if odd { "inside" } else { "outside" });
        hh = hh ^ q[0].to_bits() ^ q[1].to_bits().rotate_left(7);
        if odd {
            ins += 1
        } else {
            outs += 1
        }
    }
    c.ev("inside", ins);
    c.ev("outside", outs);
    if ins > 0 && outs > 0 {
        c.nontrivial(hash_pts(&pf) ^ hh);
    }
    Ok(())
}
fn c25(c: &mut Case) -> Out {
    if c.rng.chance(1, 2) {
        single::<f32>(c)
    } else {
        single::<f64>(c)
    }
}

// -------------------------------------------------------------- C26 batch
fn batch<T: Fl>(c: &mut Case) -> Out
where
    f32: AsPrimitive<T>,
{
    let (s, lay) = lattice::<T>(&mut c.rng);
    let (mut poly, name) = polygon(&mut c.rng, s);
    if c.rng.chance(1, 8) {
        let k = c.rng.usize(4);
        poly.truncate(k);
    }
    let n = match poly.len() {
        5000.. => c.rng.usize(30),
        0..=50 => c.rng.vast(120),
        _ => c.rng.size(120),
    };
    let qs = queries(&mut c.rng, &poly, s, n);
    let pf: Vec<Point2<T>> = poly.iter().map(|p| lay.pt(*p)).collect();
    let mut qf: Vec<Point2<T>> = qs.iter().map(|p| lay.pt(*p)).collect();
    // values no polygon contains
    if c.rng.chance(1, 6) && !qf.is_empty() {
        let i = c.rng.usize(qf.len());
        let some = nan::<T>(&mut c.rng);
        let odd = *c.rng.pick(&[some, T::of(f64::INFINITY), T::of(f64::NEG_INFINITY)]);
        qf[i][c.rng.usize(2)] = odd;
    }
    c.note(|| format!("{name} polygon {}\npoints {}", show(&pf), show(&qf)));
    c.sample(|| format!("{} {name} of {} vertices, {n} points", T::NAME, poly.len()));
    let got = c.call("are_multiple_points_in_polygon", || are_multiple_points_in_polygon(&qf, &pf))?;
    let Some(got) = got else {
        ensure!(poly.len() < 3, "None for a polygon of {} vertices", poly.len());
        c.ev("refused (fewer than 3 vertices)", 1);
        return Ok(());
    };
    ensure!(poly.len() >= 3, "Some({got:?}) for {} vertices", poly.len());
    ensure!(got.len() == qf.len(), "{} answers for {} points", got.len(), qf.len());
    let mut yes = 0;
    for (i, q) in qf.iter().enumerate() {
        let one = c.call("is_single_point_in_polygon", || is_single_point_in_polygon(q, &pf))?;
        ensure!(got[i] == one, "{name}: point {i} {:?} is {} in the batch and {one} alone", arr(q), got[i]);
        let finite = q.x.f().is_finite() && q.y.f().is_finite();
        if finite {
            if let Some(w) = inside(&poly, qs[i]) {
                ensure!(got[i] == w, "{name}: point {i} {:?} answered {} in the batch, is {w}", qs[i], got[i]);
            }
        } else {
            ensure!(!got[i], "{name}: {:?} answered inside", arr(q));
        }
        if got[i] {
            yes += 1;
        }
    }
    c.ev("answers", got.len() as u64);
    c.ev("answers inside", yes);
    if yes > 0 && (yes as usize) < got.len() {
        c.nontrivial(hashp(&poly, &qs));
    }
    Ok(())
}
fn c26(c: &mut Case) -> Out {
    if c.rng.chance(1, 2) {
        batch::<f32>(c)
    } else {
        batch::<f64>(c)
    }
}

// -------------------------------------------------------- C27 invariances
fn invariant<T: Fl>(c: &mut Case) -> Out
where
    f32: AsPrimitive<T>,
{
    let (s, lay) = lattice::<T>(&mut c.rng);
    let s = s / 2 * 2;
    // even coordinates: edge midpoints stay on the lattice
    let (half, name) = polygon(&mut c.rng, s / 2);
    let poly: Vec<P> = half.iter().map(|p| p.map(|x| 2 * x)).collect();
    if poly.is_empty() {
        return Ok(());
    }
    let qs = queries(&mut c.rng, &poly, s, 10);
    let k = c.rng.usize(poly.len());
    let mut rot = poly.clone();
    rot.rotate_left(k);
    let mut rev = poly.clone();
    rev.reverse();
    let mut sub = vec![];
    for (a, b) in edges(&poly) {
        sub.push(a);
        if c.rng.chance(1, 2) {
            sub.push([(a[0] + b[0]) / 2, (a[1] + b[1]) / 2]);
        }
    }
    let mut dup = vec![];
    for p in &poly {
        for _ in 0..1 + c.rng.usize(3) {
            dup.push(*p);
        }
    }
    let mut spike = poly.clone();
    let at = c.rng.usize(poly.len());
    let tip = [c.rng.int(-s, 2 * s), c.rng.int(-s, 2 * s)];
    spike.insert(at, tip);
    spike.insert(at, poly[at]); // out to the tip and back along the same way
    let sh = [c.rng.int(-s, s), c.rng.int(-s, s)];
    let moved = Lay { off: [lay.off[0] + sh[0], lay.off[1] + sh[1]], sc: lay.sc * *c.rng.pick(&[0.5, 1.0, 2.0]) };
    // as far up or down as coordinates stay exact (heights only enter by their differences)
    let room = (T::INT as i64 - 8 * (s + lay.off[1].abs() + 4)).max(1);
    let up = (room as f64 * 2f64.powf(-c.rng.f(0.0, 30.0))) as i64 * if c.rng.chance(1, 2) { 1 } else { -1 };
    let lifted = Lay { off: [lay.off[0], lay.off[1] + up], sc: lay.sc };
    c.note(|| format!("{name} {poly:?} rotated by {k}, spike to {tip:?} at {at}, moved by {sh:?}, lifted by {up}; queries {qs:?}"));
    c.sample(|| format!("{} {name} of {} vertices within {s}", T::NAME, poly.len()));
    let f = |v: &[P], l: &Lay| -> Vec<Point2<T>> { v.iter().map(|p| l.pt(*p)).collect() };
    let variants: Vec<(&str, Vec<Point2<T>>, bool)> = vec![
        ("starting at another vertex", f(&rot, &lay), true),
        ("with repeated vertices", f(&dup, &lay), true),
        ("reversed", f(&rev, &lay), false),
        ("with split edges", f(&sub, &lay), false),
        ("with a spike out and back", f(&spike, &lay), false),
        ("moved and scaled", f(&poly, &moved), false),
        ("moved far up or down", f(&poly, &lifted), false),
    ];
    let base = f(&poly, &lay);
    let (mut ins, mut outs) = (0, 0);
    for q in &qs {
        let p: Point2<T> = lay.pt(*q);
        let want = c.call("is_single_point_in_polygon", || is_single_point_in_polygon(&p, &base))?;
        let off = inside(&poly, *q).is_some();
        let off_spike = off && inside(&spike, *q).is_some();
        for (what, v, always) in &variants {
            if !always && !off || *what == "with a spike out and back" && !off_spike {
                continue;
            }
            let pp = match *what {
                "moved and scaled" => moved.pt(*q),
                "moved far up or down" => lifted.pt(*q),
                _ => p,
            };
            let got = c.call("is_single_point_in_polygon", || is_single_point_in_polygon(&pp, v))?;
            ensure!(got == want, "{name}: {q:?} is {want}, but {got} in the polygon {what}");
            c.ev("variants compared", 1);
        }
        if off && want {
            ins += 1;
        } else if off {
            outs += 1;
        }
    }
    if ins > 0 && outs > 0 {
        c.nontrivial(hashp(&poly, &qs));
    }
    Ok(())
}
fn c27(c: &mut Case) -> Out {
    if c.rng.chance(1, 2) {
        invariant::<f32>(c)
    } else {
        invariant::<f64>(c)
    }
}

// ------------------------------------------------------------ C28 extents
fn extents<T: Fl, const N: usize>(c: &mut Case) -> Out {
    let n = c.rng.vast(200);
    let mut cl = if c.rng.chance(1, 3) { wild_cloud::<T, N>(&mut c.rng, n) } else { cloud::<T, N>(&mut c.rng, n) };
    if c.rng.chance(1, 4) {
        // everything on one side of zero, far from it
        let o = T::of(10f64.powi(c.rng.int(0, 6) as i32) * if c.rng.chance(1, 2) { -2.0 } else { 2.0 });
        for p in &mut cl.pts {
            for k in 0..N {
                // stays finite next to the largest values
                let v = p[k] + o;
                if num_traits::Float::is_finite(v) {
                    p[k] = v;
                }
            }
        }
    }
    let pts = cl.pts;
    c.note(|| format!("{} {}", cl.family, show(&pts)));
    c.sample(|| format!("{} {N}D {} of {}", T::NAME, cl.family, pts.len()));
    let before: Vec<_> = pts.iter().map(bits).collect();
    let got = c.call("calculate_polygon_extents", || calculate_polygon_extents(&pts))?;
    ensure!(before.iter().copied().eq(pts.iter().map(bits)), "the polygon changed");
    let Some(e) = got else {
        ensure!(pts.len() < 3, "None for {} vertices", pts.len());
        c.ev("refused (fewer than 3 vertices)", 1);
        return Ok(());
    };
    ensure!(pts.len() >= 3, "extents of {} vertices", pts.len());
    let a: Vec<[f64; N]> = pts.iter().map(|p: &Point<T, N>| arr(p)).collect();
    for k in 0..N {
        let lo = a.iter().map(|p| p[k]).fold(f64::INFINITY, f64::min);
        let hi = a.iter().map(|p| p[k]).fold(f64::NEG_INFINITY, f64::max);
        ensure!(
            e[k].start().f() == lo && e[k].end().f() == hi,
            "axis {k} of {N}: extents {:?}..={:?}, the vertices span {lo:?}..={hi:?}",
            e[k].start().f(),
            e[k].end().f()
        );
    }
    c.ev("axes compared", N as u64);
    c.nontrivial(hash_pts(&pts));
    Ok(())
}
fn c28(c: &mut Case) -> Out {
    dispatch!(c, extents, [1, 2, 3, 4])
}

fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C25",
            rule: "polygons (star, self-crossing, comb, rectilinear, staircase, collinear, with spikes and repeats, fewer than 3 vertices) on exact lattices and in arbitrary floats; points sharing coordinates with vertices, next to vertices, inside, far outside. The answer off the boundary must be the even-odd parity found along another ray in exact arithmetic. Non-trivial: a polygon with points on both sides.",
            quick: 3_000_000,
            thorough: 40_000_000,
            run: c25,
            min_nontrivial: 20_000,
            assumptions: &["lattices of 2^6 (f32) or 2^20 (f64) so that rounding cannot carry a point across an edge; elsewhere points within 32 ulps of an edge are not judged", "points on the boundary may answer either way"], ..Prop::BASE
        },
        Prop {
            id: "C26",
            rule: "the same polygons with up to 120 points at once, NaN and infinite points included: None exactly below 3 vertices, one answer per point in order, each equal to the single-point function and to the parity. Non-trivial: a batch with both answers.",
            quick: 3_000_000,
            thorough: 40_000_000,
            run: c26,
            min_nontrivial: 10_000,
            assumptions: &[], ..Prop::BASE
        },
        Prop {
            id: "C27",
            rule: "each polygon also started at another vertex, reversed, with split edges, repeated vertices, a spike out and back, moved and scaled exactly: the answer off the boundary (and on it, where the edges are the very same) stays. Non-trivial: a polygon with points on both sides.",
            quick: 2_000_000,
            thorough: 40_000_000,
            run: c27,
            min_nontrivial: 8_000,
            assumptions: &["lattices as for C25"], ..Prop::BASE
        },
        Prop {
            id: "C28",
            rule: "clouds of every family in 1 to 4 dimensions, also far from the origin: extents equal the least and greatest coordinates, None exactly below 3 vertices. Non-trivial: a distinct polygon of at least 3 vertices.",
            quick: 3_000_000,
            thorough: 40_000_000,
            run: c28,
            min_nontrivial: 20_000,
            assumptions: &[], ..Prop::BASE
        },
    ]
}

fn main() {
    mon::cli::main(props());
}
