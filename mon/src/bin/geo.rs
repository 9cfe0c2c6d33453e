//! Great-circle distance and bearing against the vector formulas.
use mon::ensure;
use mon::num::*;
use mon::rt::*;
use mapping_algorithms::geo::{calculate_haversine_distance, calculate_sphere_bearing};
use nalgebra::{Point2, RealField};
use num_traits::Float;
use std::f64::consts::{PI, TAU};

/// (lat, lon) in degrees; related pairs in adversarial ways.
fn place(c: &mut Case) -> [f64; 2] {
    let lat = match c.rng.below(8) {
        0 => 90.0,
        1 => -90.0,
        2 => 0.0,
        3 => 90.0 - 10f64.powf(c.rng.f(-6.0, 0.0)),
        4 => c.rng.int(-90, 90) as f64,
        _ => c.rng.sym(90.0),
    };
    let lon = match c.rng.below(8) {
        0 => 180.0,
        1 => -180.0,
        2 => 0.0,
        3 => c.rng.int(-360, 360) as f64,
        _ => c.rng.sym(180.0),
    };
    [lat, lon]
}
fn pair(c: &mut Case) -> ([f64; 2], [f64; 2], &'static str) {
    let a = place(c);
    let e = 10f64.powf(c.rng.f(-9.0, 0.0));
    let clamp = |x: f64| x.clamp(-90.0, 90.0);
    match c.rng.below(9) {
        0 => (a, a, "the same place"),
        1 => (a, [-a[0], a[1] + if c.rng.chance(1, 2) { 180.0 } else { -180.0 }], "antipodes"),
        2 => (a, [clamp(-a[0] + c.rng.sym(e)), a[1] + 180.0 + c.rng.sym(e)], "nearly antipodes"),
        3 => (a, [clamp(a[0] + c.rng.sym(e)), a[1] + c.rng.sym(e)], "neighbours"),
        4 => (a, [a[0], place(c)[1]], "one parallel"),
        5 => (a, [place(c)[0], a[1]], "one meridian"),
        6 => (a, [a[0], a[1] + if c.rng.chance(1, 2) { 360.0 } else { -360.0 }], "a full turn apart"),
        _ => (a, place(c), "anywhere"),
    }
}
fn vec3(p: [f64; 2]) -> [f64; 3] {
    let (la, lo) = (p[0].to_radians(), p[1].to_radians());
    [la.cos() * lo.cos(), la.cos() * lo.sin(), la.sin()]
}
fn angle(a: [f64; 2], b: [f64; 2]) -> f64 {
    let (u, v) = (vec3(a), vec3(b));
    // |u-v|, |u+v| keep their digits at both ends
    let m = (0..3).map(|i| (u[i] - v[i]).powi(2)).sum::<f64>().sqrt();
    let p = (0..3).map(|i| (u[i] + v[i]).powi(2)).sum::<f64>().sqrt();
    2.0 * m.atan2(p)
}

// --------------------------------------------------------------- C31
fn distance<T: Fl>(c: &mut Case) -> Out {
    let (a, b, what) = pair(c);
    let (pa, pb): (Point2<T>, Point2<T>) = (pt(a), pt(b));
    let (a, b) = (arr(&pa), arr(&pb));
    let r = T::of(*c.rng.pick(&[1.0, 6371.0, 3958.8, 6_371_000.0, 1e-3]));
    c.note(|| format!("{} {what} {a:?} {b:?} radius {r:?}", T::NAME));
    c.sample(|| format!("{} {what} {a:?} {b:?} radius {r:?}", T::NAME));
    let d = c.call("calculate_haversine_distance", || calculate_haversine_distance(pa, pb, r))?.f();
    let back = c.call("calculate_haversine_distance", || calculate_haversine_distance(pb, pa, r))?.f();
    let rr = r.f();
    if c.rng.chance(1, 64) {
        let (mut qa, mut qb, mut qr) = (pa, pb, r);
        match c.rng.below(5) {
            0 => qa.x = nan(&mut c.rng),
            1 => qa.y = nan(&mut c.rng),
            2 => qb.x = nan(&mut c.rng),
            3 => qb.y = nan(&mut c.rng),
            _ => qr = nan(&mut c.rng),
        }
        let n = c.call("calculate_haversine_distance", || calculate_haversine_distance(qa, qb, qr))?.f();
        ensure!(n.is_nan(), "{:?} {:?} radius {qr:?}: a NaN went in and {n} came out", arr(&qa), arr(&qb));
        c.ev("NaN in, NaN out", 1);
    }
    let e = T::EPS;
    ensure!(d.is_finite(), "{what} {a:?} {b:?}: distance {d}");
    ensure!(d >= 0.0 && d <= PI * rr * (1.0 + 8.0 * e), "{what} {a:?} {b:?}: distance {d} with radius {rr}");
    let want = angle(a, b);
    // rounding of the degree differences, then of the haversine, which loses
    // digits near the antipode
    let far = (1.0 + want.cos()) / 2.0; // 1 - haversine
    let arg = (a[0].abs() + b[0].abs() + a[1].abs() + b[1].abs() + 1.0).to_radians();
    let tol = 16.0 * e * (want + arg) + 16.0 * e / far.max(8.0 * e).sqrt() + 8.0 * f64::EPSILON.sqrt() * if far < 1e-12 { 1.0 } else { 0.0 };
    let near = if want < 1.0 { 16.0 * e * (want + arg) } else { tol };
    ensure!(
        (d / rr - want).abs() <= near.max(64.0 * f64::EPSILON),
        "{what} {a:?} {b:?}: central angle {} , the vectors enclose {want} (tolerance {near:e})",
        d / rr
    );
    ensure!((d - back).abs() / rr <= 2.0 * near.max(4.0 * e * want), "{what}: {d} there, {back} back");
    if a == b {
        ensure!(d == 0.0, "{a:?} is {d} from itself");
    }
    c.ev("distances", 2);
    if what.contains("antipode") {
        c.ev("at or near the antipode", 1);
    }
    if a != b {
        c.nontrivial(hash_bytes(a.iter().chain(&b).map(|x| x.to_bits()).chain([T::INT as u64])));
    }
    Ok(())
}
fn c31(c: &mut Case) -> Out {
    if c.rng.chance(1, 2) {
        distance::<f32>(c)
    } else {
        distance::<f64>(c)
    }
}

// --------------------------------------------------------------- C32
fn bearing<T: Fl>(c: &mut Case) -> Out {
    let (a, b, what) = pair(c);
    let (pa, pb): (Point2<T>, Point2<T>) = (pt(a), pt(b));
    let (a, b) = (arr(&pa), arr(&pb));
    c.note(|| format!("{} {what} {a:?} {b:?}", T::NAME));
    c.sample(|| format!("{} {what} {a:?} {b:?}", T::NAME));
    let t = c.call("calculate_sphere_bearing", || calculate_sphere_bearing(pa, pb))?;
    let g = t.f();
    ensure!(g >= 0.0 && t < <T as RealField>::two_pi(), "{what} {a:?} {b:?}: bearing {g} is not in [0, 2 pi)");
    // the direction to b in the tangent plane at a
    let v = vec3(b);
    let (la, lo) = (a[0].to_radians(), a[1].to_radians());
    let east = -lo.sin() * v[0] + lo.cos() * v[1];
    let north = -la.sin() * lo.cos() * v[0] - la.sin() * lo.sin() * v[1] + la.cos() * v[2];
    let rho = (east * east + north * north).sqrt();
    let arg = (a[0].abs() + b[0].abs() + a[1].abs() + b[1].abs() + 1.0).to_radians();
    let tol = 16.0 * T::EPS * (1.0 + arg) / rho + 16.0 * T::EPS;
    c.ev("bearings in range", 1);
    if tol > 0.3 {
        c.ev("direction undefined (same place, antipode)", 1);
        return Ok(());
    }
    let want = east.atan2(north).rem_euclid(TAU);
    let diff = (g - want).abs();
    let diff = diff.min(TAU - diff);
    ensure!(diff <= tol, "{what} {a:?} {b:?}: bearing {g}, the tangent points to {want} (tolerance {tol:e})");
    c.ev("bearings compared", 1);
    c.nontrivial(hash_bytes(a.iter().chain(&b).map(|x| x.to_bits()).chain([T::INT as u64])));
    Ok(())
}
fn c32(c: &mut Case) -> Out {
    if c.rng.chance(1, 2) {
        bearing::<f32>(c)
    } else {
        bearing::<f64>(c)
    }
}
#[allow(dead_code)]
fn _u<T: Float>(_: T) {}

fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C31",
            rule: "pairs of places (same, antipodal, nearly so, neighbours, poles, one parallel or meridian, a full turn apart, anywhere), five radii, f32 and f64: finite, in [0, pi r], symmetric, zero for the same place, and within conditioned rounding of the vector angle. Non-trivial: a distinct pair of different places.",
            quick: 3_000_000,
            thorough: 40_000_000,
            run: c31,
            min_nontrivial: 50_000,
            assumptions: &["latitudes in [-90, 90], longitudes within a few turns", "accuracy 16 ulps of the angles involved, sqrt(ulp) at the antipode"],
            ..Prop::BASE
        },
        Prop {
            id: "C32",
            rule: "the same pairs: bearings in [0, 2 pi) and, where a direction exists, within conditioned rounding of the tangent-plane direction. Non-trivial: a distinct pair with a direction.",
            quick: 3_000_000,
            thorough: 40_000_000,
            run: c32,
            min_nontrivial: 50_000,
            assumptions: &["accuracy 16 ulps of the angles involved, divided by the sine of the distance"],
            ..Prop::BASE
        },
    ]
}

fn main() {
    mon::cli::main(props());
}
