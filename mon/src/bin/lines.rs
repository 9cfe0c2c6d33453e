//! Bresenham lines.
use mon::ensure;
use mon::num::*;
use mon::rng::Rng;
use mon::rt::*;
use mapping_algorithms::lines::plot_bresenham_line;
use nalgebra::{Point, Scalar};
use num_traits::AsPrimitive;

fn pick_len(c: &mut Case) -> i64 {
    match c.rng.below(40) {
        0 => 0,
        1..=12 => c.rng.int(1, 8),
        13..=28 => c.rng.int(1, 60),
        29..=38 => c.rng.int(1, 600),
        // now and then, as many steps as a scan line across a city
        _ if c.rng.chance(1, 40) => c.rng.int(1, 100_000),
        _ => c.rng.int(1, if c.tier == Tier::Thorough { 20_000 } else { 4_000 }),
    }
}
/// Integer endpoints, deltas related in adversarial ways.
fn grid_ends<const N: usize>(c: &mut Case, lim: i64) -> ([i64; N], [i64; N]) {
    let l = pick_len(c);
    let o: i64 = *c.rng.pick(&[0, 10, 1000, lim - 200_000]);
    let a: [i64; N] = std::array::from_fn(|_| c.rng.int(-o, o));
    let kind = c.rng.below(6);
    let ax = c.rng.usize(N);
    let d: [i64; N] = std::array::from_fn(|i| {
        let v = match kind {
            0 => l,                                   // exact diagonal
            1 => if i == ax { l } else { 0 },         // axis-parallel
            2 => if i == ax { l } else { (l - 1).max(0) }, // one short of the diagonal
            3 => if i == ax { l } else { l / (2 + c.rng.int(0, 3)) },
            4 => if i == ax { l } else { c.rng.int(0, 2).min(l) },
            _ => c.rng.int(0, l),
        };
        if c.rng.chance(1, 2) { -v } else { v }
    });
    (a, std::array::from_fn(|i| a[i] + d[i]))
}

// --------------------------------------------------------------- C29 grid
fn grid<F: Fl, T, const N: usize>(c: &mut Case, unsigned: bool) -> Out
where
    F: AsPrimitive<T> + AsPrimitive<usize>,
    T: Scalar + Copy + AsPrimitive<f64>,
    usize: AsPrimitive<F>,
{
    let (mut a, mut b) = grid_ends::<N>(c, F::INT.min(if std::any::type_name::<T>() == "f32" { 1 << 24 } else { 1 << 30 }));
    if unsigned {
        for i in 0..N {
            let m = a[i].min(b[i]).min(0);
            a[i] -= m;
            b[i] -= m;
        }
    }
    c.note(|| format!("{} {N}D to {} {a:?} -> {b:?}", F::NAME, std::any::type_name::<T>()));
    c.sample(|| format!("{} {N}D to {} {a:?} -> {b:?}", F::NAME, std::any::type_name::<T>()));
    let fp = |p: [i64; N]| -> Point<F, N> { pt(p.map(|x| x as f64)) };
    let line = c.call("plot_bresenham_line", || plot_bresenham_line::<F, T, N>(fp(a), fp(b)))?;
    let got: Vec<[i64; N]> = line
        .iter()
        .map(|p| {
            std::array::from_fn(|i| {
                let v: f64 = p[i].as_();
                if v.fract() == 0.0 { v as i64 } else { i64::MIN / 2 }
            })
        })
        .collect();
    let len = (0..N).map(|i| (b[i] - a[i]).abs()).max().unwrap();
    ensure!(got.len() as i64 == len + 1, "{a:?} -> {b:?}: {} cells, the longest axis spans {len}", got.len());
    ensure!(got[0] == a && *got.last().unwrap() == b, "{a:?} -> {b:?}: runs from {:?} to {:?}", got[0], got.last().unwrap());
    for (k, p) in got.iter().enumerate() {
        for i in 0..N {
            let (lo, hi) = (a[i].min(b[i]), a[i].max(b[i]));
            ensure!(p[i] >= lo && p[i] <= hi, "{a:?} -> {b:?}: cell {k} {p:?} leaves the box");
            if k > 0 {
                let s = p[i] - got[k - 1][i];
                ensure!(s == 0 || s == (b[i] - a[i]).signum(), "{a:?} -> {b:?}: cell {k} {p:?} after {:?} on axis {i}", got[k - 1]);
            }
            // ideal position scaled by len: within one cell
            let off = (p[i] - a[i]) * len - (k as i64) * (b[i] - a[i]);
            ensure!(len == 0 || off.abs() < len, "{a:?} -> {b:?}: cell {k} {p:?} is {} cells from the ideal line on axis {i}", off as f64 / len as f64);
        }
        if k > 0 {
            ensure!(*p != got[k - 1], "{a:?} -> {b:?}: cell {k} repeats {p:?}");
            // along the longest axis every step counts
            for i in 0..N {
                if (b[i] - a[i]).abs() == len {
                    ensure!((p[i] - got[k - 1][i]).abs() == 1, "{a:?} -> {b:?}: cell {k} {p:?} does not advance on axis {i}");
                }
            }
        }
    }
    c.ev("cells", got.len() as u64);
    if len >= 2 && (0..N).filter(|&i| a[i] != b[i]).count() >= 2.min(N) {
        c.nontrivial(hash_bytes(a.iter().chain(&b).map(|x| *x as u64).chain([N as u64, F::INT as u64])));
    }
    Ok(())
}
macro_rules! by_type {
    ($c:expr, $f:ident, $n:literal, $fl:ty) => {
        match $c.rng.below(8) {
            0 => $f::<$fl, i32, $n>($c, false),
            1 => $f::<$fl, i64, $n>($c, false),
            2 => $f::<$fl, isize, $n>($c, false),
            3 => $f::<$fl, u32, $n>($c, true),
            4 => $f::<$fl, u64, $n>($c, true),
            5 => $f::<$fl, usize, $n>($c, true),
            6 => $f::<$fl, f32, $n>($c, false),
            _ => $f::<$fl, f64, $n>($c, false),
        }
    };
}
macro_rules! by_dim {
    ($c:expr, $f:ident) => {
        match ($c.rng.below(8), $c.rng.chance(1, 2)) {
            (0, true) => by_type!($c, $f, 1, f32),
            (0, _) => by_type!($c, $f, 1, f64),
            (1, true) => by_type!($c, $f, 4, f32),
            (1, _) => by_type!($c, $f, 4, f64),
            (2..=4, true) => by_type!($c, $f, 2, f32),
            (2..=4, _) => by_type!($c, $f, 2, f64),
            (_, true) => by_type!($c, $f, 3, f32),
            (_, _) => by_type!($c, $f, 3, f64),
        }
    };
}
fn c29(c: &mut Case) -> Out {
    by_dim!(c, grid)
}

// ---------------------------------------------------------- C30 fractions
fn fractions<F: Fl, T, const N: usize>(c: &mut Case, _unsigned: bool) -> Out
where
    F: AsPrimitive<T> + AsPrimitive<F> + AsPrimitive<usize>,
    T: Scalar + Copy + PartialEq,
    usize: AsPrimitive<F>,
{
    let huge = c.rng.chance(1, 6);
    let (a, b): (Point<F, N>, Point<F, N>) = if huge {
        // beyond the integers of the precision: steps of one are lost
        let m = F::INT as f64 * *c.rng.pick(&[0.5, 1.0, 2.0, 64.0]);
        let ulp = (m * F::EPS).max(1.0);
        let o: [f64; N] = std::array::from_fn(|_| if c.rng.chance(1, 2) { m } else { -m });
        let a = pt(o);
        let b = pt(std::array::from_fn(|i| o[i] + c.rng.int(-40, 40) as f64 * ulp));
        (a, b)
    } else {
        let l = pick_len(c) as f64;
        let o = *c.rng.pick(&[0.0, 1.0, 100.0, 1e4]);
        let a = pt(std::array::from_fn(|_| c.rng.sym(o + 1.0)));
        let aa: [f64; N] = arr(&a);
        let b = pt(std::array::from_fn(|i| aa[i] + c.rng.sym(l + 0.5)));
        (a, b)
    };
    let (fa, fb): ([f64; N], [f64; N]) = (arr(&a), arr(&b));
    c.note(|| format!("{} {N}D to {} {fa:?} -> {fb:?}", F::NAME, std::any::type_name::<T>()));
    c.sample(|| format!("{} {N}D to {} {fa:?} -> {fb:?}", F::NAME, std::any::type_name::<T>()));
    let line = c.call("plot_bresenham_line", || plot_bresenham_line::<F, T, N>(a, b))?;
    let trace = c.call("plot_bresenham_line", || plot_bresenham_line::<F, F, N>(a, b))?;
    // every output type is the cast of the same float trace
    ensure!(line.len() == trace.len(), "{} points as {}, {} as floats", line.len(), std::any::type_name::<T>(), trace.len());
    for (k, (p, q)) in line.iter().zip(&trace).enumerate() {
        for i in 0..N {
            let w: T = AsPrimitive::<T>::as_(q[i]);
            ensure!(p[i] == w, "point {k} axis {i} is {:?} as {}, {w:?} by casting {:?}", p[i], std::any::type_name::<T>(), q[i].f());
        }
    }
    let got: Vec<[f64; N]> = trace.iter().map(arr).collect();
    let d: [f64; N] = std::array::from_fn(|i| (b[i] - a[i]).f());
    let len = d.iter().fold(0.0f64, |p, q| p.max(q.abs()));
    let cnt = len.floor() as usize;
    ensure!(got.len() == cnt + 1, "{} points over a longest axis of {len}", got.len());
    ensure!(got[0] == fa || cnt == 0, "starts at {:?}", got[0]);
    ensure!(*got.last().unwrap() == fb, "ends at {:?}", got.last().unwrap());
    if !huge {
        for k in 0..cnt {
            for i in 0..N {
                let ideal = fa[i] + d[i] * k as f64 / len;
                let slack = F::EPS * (k as f64 + 4.0) * (fa[i].abs() + len + 1.0);
                ensure!((got[k][i] - ideal).abs() < 1.0 + slack, "point {k} axis {i} is at {:?}, the ideal line at {ideal:?}", got[k][i]);
                if k > 0 {
                    let s = got[k][i] - got[k - 1][i];
                    let sl = F::EPS * 4.0 * (got[k][i].abs() + 1.0);
                    ensure!(s == 0.0 || (s - d[i].signum()).abs() <= sl, "point {k} axis {i} moves by {s}");
                }
            }
        }
    }
    c.ev("points", got.len() as u64);
    if huge {
        c.ev("lines beyond the exact integers", 1);
    }
    if cnt >= 2 {
        c.nontrivial(hash_bytes(fa.iter().chain(&fb).map(|x| x.to_bits()).chain([N as u64])));
    }
    Ok(())
}
fn c30(c: &mut Case) -> Out {
    by_dim!(c, fractions)
}
#[allow(dead_code)]
fn _unused(_: &Rng) {}

fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C29",
            rule: "lines between integer cells (diagonals, axis-parallel, one short of a diagonal, simple and random slopes, any direction, any of eight output types, 1 to 4 dimensions): as many cells as the longest axis spans plus one, from end to end, each step to a neighbour cell in the right direction, within the box, less than one cell off the ideal line. Non-trivial: a distinct line on two axes or more.",
            quick: 3_000_000,
            thorough: 40_000_000,
            run: c29,
            min_nontrivial: 15_000,
            assumptions: &["lines up to 100000 cells, so that the accumulated error term keeps within its margin"], ..Prop::BASE
        },
        Prop {
            id: "C30",
            rule: "fractional endpoints and endpoints beyond the exactly representable integers: terminates, floor(longest axis)+1 points, first and last are the endpoints, unit steps, within a cell of the ideal line, and every output type is the cast of the float trace. Non-trivial: a distinct line of at least 2 steps.",
            quick: 3_000_000,
            thorough: 40_000_000,
            run: c30,
            min_nontrivial: 15_000,
            assumptions: &["finite endpoints at most 100000 steps apart"], ..Prop::BASE
        },
    ]
}

fn main() {
    mon::cli::main(props());
}
