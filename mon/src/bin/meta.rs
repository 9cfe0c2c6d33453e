//! Guarantees across modules: premade variants, purity under threads, cost on
//! large inputs, agreement of the parts with one another.
use mapping_algorithms::geo;
use mapping_algorithms::kd_tree::KDTree;
use mapping_algorithms::lines;
use mapping_algorithms::point_clouds::{self as pc, *};
use mapping_algorithms::polygons::{self as pg, *};
use mon::num::*;
use mon::rng::Rng;
use mon::rt::*;
use mon::{bad, ensure};
use nalgebra::{Isometry2, Isometry3, Point, Point2, Point3, Translation2, Translation3, UnitComplex, UnitQuaternion, Vector3};
use num_traits::AsPrimitive;
use std::fmt::Debug;
use std::sync::{Arc, Barrier};

// ------------------------------------------------------- C33 premade variants
fn dbg_pts<T: Debug + nalgebra::Scalar, const N: usize>(p: &[Point<T, N>]) -> String {
    format!("{:?}", p.iter().map(|q| q.iter().cloned().collect::<Vec<_>>()).collect::<Vec<_>>())
}
/// Ends of a line no premade output type distorts beyond the cast itself.
fn ends<F: Fl, const N: usize>(r: &mut Rng) -> (Point<F, N>, Point<F, N>) {
    let o = *r.pick(&[0.0, 100.0, 1e5]);
    let l = *r.pick(&[3.0, 40.0, 300.0]);
    let whole = r.chance(1, 2);
    let g = |x: f64| if whole { x.round() } else { x };
    let a: [f64; N] = std::array::from_fn(|_| g(r.sym(o)));
    (pt(a), pt(std::array::from_fn(|i| g(a[i] + r.sym(l)))))
}
macro_rules! lines_of {
    ($c:expr, $prec:ident, $fl:ty, $k:expr; $($i:literal $name:ident $out:ty, $n:literal);*) => {
        match $k {
            $($i => {
                let c: &mut Case = $c;
                let (a, b) = ends::<$fl, $n>(&mut c.rng);
                c.note(|| format!("{} {a:?} -> {b:?}", stringify!($prec::$name)));
                let x = c.call(stringify!($prec::$name), || lines::$prec::$name(a, b))?;
                let y = c.call("plot_bresenham_line", || lines::plot_bresenham_line::<$fl, $out, $n>(a, b))?;
                ensure!(dbg_pts(&x) == dbg_pts(&y), "{} gives {}, the generic function {}", stringify!($prec::$name), dbg_pts(&x), dbg_pts(&y));
                c.ev(stringify!($prec::$name), 1);
                c.nontrivial(hash_pts(&[a, b]) ^ ($i as u64).wrapping_mul(0x9E3779B97F4A7C15));
            })*
            _ => unreachable!(),
        }
    };
}
/// Points 4 (i, j), some with a twin at +2: cells of size 4 with means exact in
/// every type.
fn twin_cells(r: &mut Rng) -> Vec<[i64; 2]> {
    let n = r.size(60);
    let mut v = vec![];
    let mut seen = std::collections::HashSet::new();
    for _ in 0..n {
        let p = [4 * r.int(0, 14), 4 * r.int(0, 14)];
        if seen.insert(p) {
            v.push(p);
            if r.chance(1, 2) {
                v.push([p[0] + 2, p[1] + 2]);
            }
        }
    }
    r.shuffle(&mut v);
    v
}
fn supports(h: &Option<Vec<[f64; 2]>>) -> Option<Vec<f64>> {
    h.as_ref().map(|h| {
        (0..40)
            .map(|k| {
                let d = [((k * 37) % 41) as f64 - 20.0, ((k * 23) % 43) as f64 - 21.0];
                h.iter().map(|p| p[0] * d[0] + p[1] * d[1]).fold(f64::NEG_INFINITY, f64::max)
            })
            .collect()
    })
}
macro_rules! hulls_of {
    ($c:expr, $prec:ident, $fl:ty, $k:expr; $($i:literal $t:ty, $g:ident, $j:ident);*) => {
        match $k {
            $($i => {
                let c: &mut Case = $c;
                let ints = twin_cells(&mut c.rng);
                let pts: Vec<Point2<$t>> = ints.iter().map(|p| Point2::new(p[0] as $t, p[1] as $t)).collect();
                let mut sorted = pts.clone();
                sorted.sort_by(|a, b| a.x.partial_cmp(&b.x).unwrap().then(a.y.partial_cmp(&b.y).unwrap()));
                let vox = *c.rng.pick(&[4.0, 8.0, 2.0]) as $fl;
                c.note(|| format!("{} {ints:?} voxel {vox}", stringify!($prec)));
                // where single and double precision tell turns apart differently
                if c.rng.chance(1, 3) {
                    let room = (<$t>::MAX as f64).min(2e8) as i64;
                    let k = 3 + c.rng.usize(12);
                    let d = [c.rng.int(0, room), c.rng.int(0, room)];
                    let far: Vec<[i64; 2]> = (0..k)
                        .map(|_| {
                            let t = c.rng.unit();
                            std::array::from_fn(|i| ((d[i] as f64 * t) as i64 + c.rng.int(0, 2)).min(room))
                        })
                        .collect();
                    let far: Vec<Point2<$t>> = far.iter().map(|p| Point2::new(p[0] as $t, p[1] as $t)).collect();
                    let a = c.call(stringify!($prec::$g), || pg::$prec::$g(&far, false, None))?;
                    let b = c.call("graham_scan", || graham_scan::<$fl, $t>(&far, false, None))?;
                    ensure!(a == b, "{} of {far:?} gives {a:?}, generic {b:?}", stringify!($prec::$g));
                    let a = c.call(stringify!($prec::$j), || pg::$prec::$j(&far, None))?;
                    let b = c.call("jarvis_march", || jarvis_march::<$fl, $t>(&far, None))?;
                    ensure!(a == b, "{} of {far:?} gives {a:?}, generic {b:?}", stringify!($prec::$j));
                    c.ev("hulls where the precision matters", 2);
                }
                // without voxels: bit for bit
                let a = c.call(stringify!($prec::$g), || pg::$prec::$g(&sorted, true, None))?;
                let b = c.call("graham_scan", || graham_scan::<$fl, $t>(&sorted, true, None))?;
                ensure!(a == b, "{} of {sorted:?} gives {a:?}, generic {b:?}", stringify!($prec::$g));
                let a = c.call(stringify!($prec::$g), || pg::$prec::$g(&pts, false, None))?;
                let b = c.call("graham_scan", || graham_scan::<$fl, $t>(&pts, false, None))?;
                ensure!(a == b, "{} of {pts:?} gives {a:?}, generic {b:?}", stringify!($prec::$g));
                let a = c.call(stringify!($prec::$j), || pg::$prec::$j(&pts, None))?;
                let b = c.call("jarvis_march", || jarvis_march::<$fl, $t>(&pts, None))?;
                ensure!(a == b, "{} of {pts:?} gives {a:?}, generic {b:?}", stringify!($prec::$j));
                // with voxels, whose order is free: the same hull
                if vox < 8.0 {
                    let f = |h: Option<Vec<Point2<$t>>>| supports(&h.map(|h| h.iter().map(|p| [p.x as f64, p.y as f64]).collect()));
                    let none = f(a);
                    let a = f(c.call(stringify!($prec::$g), || pg::$prec::$g(&pts, false, Some(vox)))?);
                    let b = f(c.call("graham_scan", || graham_scan::<$fl, $t>(&pts, false, Some(vox)))?);
                    ensure!(a == b, "{} of {pts:?} with voxels of {vox}: supports {a:?}, generic {b:?}", stringify!($prec::$g));
                    let aj = f(c.call(stringify!($prec::$j), || pg::$prec::$j(&pts, Some(vox)))?);
                    let bj = f(c.call("jarvis_march", || jarvis_march::<$fl, $t>(&pts, Some(vox)))?);
                    ensure!(aj == bj, "{} of {pts:?} with voxels of {vox}: supports {aj:?}, generic {bj:?}", stringify!($prec::$j));
                    if a != none {
                        c.ev("voxels changed the hull", 1);
                    }
                }
                c.ev(stringify!($prec::$g), 1);
                c.ev(stringify!($prec::$j), 1);
                if pts.len() > 2 {
                    c.nontrivial(hash_bytes(ints.iter().flatten().map(|x| *x as u64).chain([$i, vox.to_bits() as u64])));
                }
            })*
            _ => unreachable!(),
        }
    };
}
macro_rules! rest_of {
    ($c:expr, $prec:ident, $fl:ty, $k:expr) => {{
        let c: &mut Case = $c;
        match $k {
            0 => {
                let n = 3 + c.rng.usize(20);
                let poly: Vec<Point2<$fl>> = (0..n).map(|_| pt([c.rng.int(0, 20) as f64, c.rng.int(0, 20) as f64])).collect();
                // at scales whose coordinates round, and with points within
                // rounding of the edges
                let by = *c.rng.pick(&[1.0, 1.0, 1.0 / 3.0, 0.7, 1e-3]);
                let poly: Vec<Point2<$fl>> = poly.iter().map(|p| pt([p.x as f64 * by, p.y as f64 * by])).collect();
                let qs: Vec<Point2<$fl>> = (0..c.rng.usize(40))
                    .map(|_| {
                        if c.rng.chance(1, 2) {
                            pt([c.rng.f(-1.0, 21.0) * by, c.rng.int(0, 20) as f64 * by])
                        } else {
                            let i = c.rng.usize(n);
                            let (p, q) = (poly[i], poly[(i + 1) % n]);
                            let t = c.rng.unit();
                            pt([p.x as f64 + t * (q.x as f64 - p.x as f64), p.y as f64 + t * (q.y as f64 - p.y as f64)])
                        }
                    })
                    .collect();
                let cut = if c.rng.chance(1, 6) { c.rng.usize(3) } else { n };
                let poly = &poly[..cut];
                c.note(|| format!("polygon {} points {}", show(poly), show(&qs)));
                for q in &qs {
                    let a = c.call("premade is_single_point_in_polygon", || pg::$prec::is_single_point_in_polygon(q, poly))?;
                    let b = c.call("is_single_point_in_polygon", || is_single_point_in_polygon(q, poly))?;
                    ensure!(a == b, "{q:?}: premade {a}, generic {b}");
                }
                let a = c.call("premade are_multiple_points_in_polygon", || pg::$prec::are_multiple_points_in_polygon(&qs, poly))?;
                let b = c.call("are_multiple_points_in_polygon", || are_multiple_points_in_polygon(&qs, poly))?;
                ensure!(a == b, "premade {a:?}, generic {b:?}");
                c.ev(concat!(stringify!($prec), "::point in polygon"), 1);
                if qs.len() > 1 {
                    c.nontrivial(hash_pts(poly) ^ hash_pts(&qs));
                }
            }
            1 => {
                let p: [Point2<$fl>; 2] = std::array::from_fn(|_| pt([c.rng.sym(90.0), c.rng.sym(180.0)]));
                let r = *c.rng.pick(&[1.0, 6371.0, 6.371e6]) as $fl;
                c.note(|| format!("{p:?} radius {r}"));
                let a = c.call("premade calculate_haversine_distance", || geo::$prec::calculate_haversine_distance(p[0], p[1], r))?;
                let b = c.call("calculate_haversine_distance", || geo::calculate_haversine_distance(p[0], p[1], r))?;
                ensure!(a.to_bits() == b.to_bits(), "distance of {p:?} radius {r}: premade {a}, generic {b}");
                let a = c.call("premade calculate_sphere_bearing", || geo::$prec::calculate_sphere_bearing(p[0], p[1]))?;
                let b = c.call("calculate_sphere_bearing", || geo::calculate_sphere_bearing(p[0], p[1]))?;
                ensure!(a.to_bits() == b.to_bits(), "bearing of {p:?}: premade {a}, generic {b}");
                c.ev(concat!(stringify!($prec), "::haversine and bearing"), 1);
                c.nontrivial(hash_pts(&p));
            }
            k => {
                macro_rules! run {
                    ($n:literal, $f:ident) => {{
                        let n = c.rng.usize(30);
                        let a: Vec<Point<$fl, $n>> = (0..n).map(|_| pt(std::array::from_fn(|_| c.rng.sym(10.0)))).collect();
                        let sh = c.rng.f(0.0, 0.5);
                        let mut b: Vec<Point<$fl, $n>> = a.iter().map(|p| pt(std::array::from_fn(|i| p[i].f() + sh + c.rng.sym(0.05)))).collect();
                        c.rng.shuffle(&mut b);
                        if c.rng.chance(1, 8) {
                            b.clear();
                        }
                        let mk = |kd, it, ab: Option<$fl>, int| ICPConfiguration::<$fl>::builder().with_kd_tree(kd).with_max_iterations(it).with_absolute_mse_threshold(ab).with_mse_interval_threshold(int).build();
                        let (kd, it) = (c.rng.chance(1, 2), *c.rng.pick(&[0usize, 1, 2, 5, 20]));
                        let ab = *c.rng.pick(&[None, Some(0.0), Some(0.01), Some(10.0), Some(-1.0)]);
                        let int = *c.rng.pick(&[0.01, 0.0, 1e-6, -1.0, 0.5]) as $fl;
                        c.note(|| format!("kd {kd} iterations {it} absolute {ab:?} interval {int} {} -> {}", show(&a), show(&b)));
                        let x = format!("{:?}", c.call(stringify!($f), || pc::$prec::$f(&a, &b, mk(kd, it, ab, int)))?);
                        let y = format!("{:?}", c.call("icp", || icp(&a, &b, mk(kd, it, ab, int)))?);
                        ensure!(x == y, "{}: premade {x}, generic {y}", stringify!($f));
                        c.ev(stringify!($prec::$f), 1);
                        if x.starts_with("Ok") {
                            c.ev("registrations that succeeded", 1);
                            c.nontrivial(hash_pts(&a) ^ hash_pts(&b));
                        }
                    }};
                }
                if k == 2 { run!(2, icp_2d) } else { run!(3, icp_3d) }
            }
        }
    }};
}
fn c33(c: &mut Case) -> Out {
    let k = c.rng.below(4);
    macro_rules! go {
        ($prec:ident, $fl:ty) => {
            if k == 0 {
                let k = c.rng.below(16);
                lines_of!(c, $prec, $fl, k;
                    0 plot_2d_i32_bresenham_line i32, 2; 1 plot_2d_i64_bresenham_line i64, 2; 2 plot_2d_isize_bresenham_line isize, 2;
                    3 plot_2d_u32_bresenham_line u32, 2; 4 plot_2d_u64_bresenham_line u64, 2; 5 plot_2d_usize_bresenham_line usize, 2;
                    6 plot_2d_f32_bresenham_line f32, 2; 7 plot_2d_f64_bresenham_line f64, 2;
                    8 plot_3d_i32_bresenham_line i32, 3; 9 plot_3d_i64_bresenham_line i64, 3; 10 plot_3d_isize_bresenham_line isize, 3;
                    11 plot_3d_u32_bresenham_line u32, 3; 12 plot_3d_u64_bresenham_line u64, 3; 13 plot_3d_usize_bresenham_line usize, 3;
                    14 plot_3d_f32_bresenham_line f32, 3; 15 plot_3d_f64_bresenham_line f64, 3)
            } else if k == 1 {
                let k = c.rng.below(12);
                hulls_of!(c, $prec, $fl, k;
                    0 u8, graham_scan_u8, jarvis_march_u8; 1 u16, graham_scan_u16, jarvis_march_u16; 2 u32, graham_scan_u32, jarvis_march_u32;
                    3 u64, graham_scan_u64, jarvis_march_u64; 4 usize, graham_scan_usize, jarvis_march_usize;
                    5 i8, graham_scan_i8, jarvis_march_i8; 6 i16, graham_scan_i16, jarvis_march_i16; 7 i32, graham_scan_i32, jarvis_march_i32;
                    8 i64, graham_scan_i64, jarvis_march_i64; 9 isize, graham_scan_isize, jarvis_march_isize;
                    10 f32, graham_scan_f32, jarvis_march_f32; 11 f64, graham_scan_f64, jarvis_march_f64)
            } else {
                let k = c.rng.below(4);
                rest_of!(c, $prec, $fl, k)
            }
        };
    }
    if c.rng.chance(1, 2) {
        go!(single_precision, f32)
    } else {
        go!(double_precision, f64)
    }
    Ok(())
}

// ----------------------------------------------- C36 purity, under threads
type Job = (&'static str, Box<dyn Fn() -> u64 + Send + Sync>);
fn h<T: Debug>(x: T) -> u64 {
    let s = format!("{x:?}");
    hash_bytes(s.bytes().map(|b| b as u64))
}
fn sorted_bits<T: Fl, const N: usize>(p: &[Point<T, N>]) -> Vec<[u64; N]> {
    let mut v: Vec<_> = p.iter().map(bits).collect();
    v.sort();
    v
}
fn jobs<T: Fl>(r: &mut Rng, out: &mut Vec<Job>)
where
    T: AsPrimitive<T> + rand::distributions::uniform::SampleUniform,
    f32: AsPrimitive<T>,
    usize: AsPrimitive<T>,
{
    let n = 20 + r.usize(120);
    let c3 = Arc::new(cloud::<T, 3>(r, n).pts);
    let c2: Arc<Vec<Point2<T>>> = Arc::new((0..n).map(|_| pt([r.sym(10.0), r.sym(10.0)])).collect());
    let moved: Arc<Vec<Point2<T>>> = Arc::new(c2.iter().map(|p| pt([p.x.f() + 0.3, p.y.f() - 0.2])).collect());
    let m3: Arc<Vec<Point3<T>>> = Arc::new((0..n).map(|_| pt([r.sym(10.0), r.sym(10.0), r.sym(10.0)])).collect());
    let tree = Arc::new(KDTree::from(m3.as_slice()));
    let sh = [r.sym(0.3), r.sym(0.3), r.sym(0.3)];
    macro_rules! job {
        ($name:literal, [$($v:ident),*], $e:expr) => {{
            $(let $v = $v.clone();)*
            out.push(($name, Box::new(move || $e)));
        }};
    }
    job!("KDTree::nearest", [tree, c3], h(c3.iter().map(|q| tree.nearest(q).map(|p| bits(&p))).collect::<Vec<_>>()));
    job!("KDTree build and traverse", [c3], {
        let t = KDTree::from(c3.as_slice());
        let mut v = vec![];
        t.traverse_tree(|p| v.push(bits(p)));
        v.sort();
        h((t.len(), v))
    });
    job!("KDTree clone, mutate", [tree], {
        let mut t = (*tree).clone();
        t.traverse_tree_mut(|p| *p = pt([0.0; 3]));
        t.insert(pt([1.0, 2.0, 3.0]));
        let mut s = vec![];
        tree.traverse_tree(|p| s.push(bits(p)));
        s.sort();
        h((t.len(), s))
    });
    job!("find_nearest_neighbour_naive", [m3, c3], h(c3.iter().map(|q| find_nearest_neighbour_naive(q, &m3).map(|p| bits(&p))).collect::<Vec<_>>()));
    job!("lex_sort", [c3], h((lex_sort(&c3).map(|v| v.iter().map(bits).collect::<Vec<_>>()), lex_sort_ref(&c3).map(|v| v.iter().map(|p| bits(*p)).collect::<Vec<_>>()))));
    job!("lex_sort_in_place", [c3], {
        let mut v = (*c3).clone();
        lex_sort_in_place(&mut v);
        h(v.iter().map(bits).collect::<Vec<_>>())
    });
    let vox = T::of(*r.pick(&[0.5, 1.0, 3.0]));
    job!("downsample_point_cloud_voxel", [m3], h(sorted_bits(&downsample_point_cloud_voxel::<T, T, 3>(&m3, vox))));
    job!("calculate_point_cloud_center", [c3], h(bits(&calculate_point_cloud_center(&c3))));
    let (num, lo, hi) = (r.usize(40), T::of(-r.unit() - 0.1), T::of(r.unit() + 0.1));
    job!("generate_point_cloud", [], h(generate_point_cloud::<T, 2>(num, [lo..=hi, lo..=hi]).iter().map(bits).collect::<Vec<_>>()));
    let iso3 = Isometry3::from_parts(Translation3::from(Vector3::new(T::of(sh[0]), T::of(sh[1]), T::of(sh[2]))), UnitQuaternion::new(Vector3::new(T::of(sh[2]), T::of(sh[0]), T::of(0.1))));
    job!("transform_point_cloud", [c3], h(transform_point_cloud(&c3, iso3).iter().map(bits).collect::<Vec<_>>()));
    let kd = r.chance(1, 2);
    job!("icp 2D", [c2, moved], h(icp(&c2, &moved, ICPConfiguration::builder().with_kd_tree(kd).with_max_iterations(8).with_mse_interval_threshold(T::of(1e-4)).build())));
    let d3: Arc<Vec<Point3<T>>> = Arc::new(m3.iter().map(|p| pt(std::array::from_fn(|i| p[i].f() + sh[i]))).collect());
    job!("icp 3D", [m3, d3], h(icp(&m3, &d3, ICPConfiguration::builder().with_kd_tree(!kd).with_max_iterations(6).build())));
    job!("graham_scan", [c2], h(graham_scan::<T, T>(&c2, false, None)));
    job!("jarvis_march", [c2], h(jarvis_march::<T, T>(&c2, None)));
    job!("are_multiple_points_in_polygon", [c2, moved], h(are_multiple_points_in_polygon(&moved, &c2[..12])));
    job!("is_single_point_in_polygon", [c2, moved], h(moved.iter().map(|p| is_single_point_in_polygon(p, &c2[3..20])).collect::<Vec<_>>()));
    job!("calculate_polygon_extents", [c3], h(calculate_polygon_extents(&c3)));
    let (a, b) = ends::<T, 3>(r);
    job!("plot_bresenham_line", [], h(lines::plot_bresenham_line::<T, i64, 3>(a, b)));
    job!("haversine and bearing", [c2], h(c2.windows(2).map(|w| (geo::calculate_haversine_distance(w[0], w[1], T::of(6371.0)).bits(), geo::calculate_sphere_bearing(w[0], w[1]).bits())).collect::<Vec<_>>()));
}
// ------------------------------------------ C36 histories, against a pristine
// process. A call may remember what it saw (in statics, in thread-locals, by
// address or by length), so the answer to a request at the end of a history on
// reused buffers is compared with that of a process in which nothing was ever
// called: a zygote, forked before anything runs, forks once per request.
mod pristine {
    use std::fs::File;
    use std::io::{Read, Write};
    use std::os::fd::{FromRawFd, RawFd};
    use std::sync::{Mutex, OnceLock};
    struct Zygote {
        tx: File,
        rx: File,
    }
    static POOL: OnceLock<Vec<Mutex<Zygote>>> = OnceLock::new();
    fn pipe() -> (RawFd, RawFd) {
        let mut p = [0; 2];
        assert_eq!(unsafe { libc::pipe2(p.as_mut_ptr(), libc::O_CLOEXEC) }, 0);
        (p[0], p[1])
    }
    /// Forks the pool; to be called while the process has one thread.
    pub fn start(f: fn([u64; 3]) -> u64) {
        let mut v: Vec<Mutex<Zygote>> = vec![];
        for _ in 0..8 {
            let (req_r, req_w) = pipe();
            let (ans_r, ans_w) = pipe();
            match unsafe { libc::fork() } {
                -1 => return,
                0 => {
                    drop(v); // the other zygotes' pipes
                    unsafe {
                        libc::close(req_w);
                        libc::close(ans_r);
                        libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                    }
                    let (mut rx, mut tx) = unsafe { (File::from_raw_fd(req_r), File::from_raw_fd(ans_w)) };
                    let mut b = [0u8; 24];
                    while rx.read_exact(&mut b).is_ok() {
                        let pid = unsafe { libc::fork() };
                        if pid == 0 {
                            unsafe { libc::alarm(60) };
                            std::panic::set_hook(Box::new(|_| ()));
                            let q = std::array::from_fn(|i| u64::from_le_bytes(b[8 * i..8 * i + 8].try_into().unwrap()));
                            if let Ok(x) = std::panic::catch_unwind(|| f(q)) {
                                let mut m = [0u8; 9];
                                m[1..].copy_from_slice(&x.to_le_bytes());
                                let _ = tx.write_all(&m);
                                unsafe { libc::_exit(0) };
                            }
                            unsafe { libc::_exit(1) };
                        }
                        let mut st = 0;
                        if pid < 0 || unsafe { libc::waitpid(pid, &mut st, 0) } != pid || st != 0 {
                            let _ = tx.write_all(&[1; 9]);
                        }
                    }
                    unsafe { libc::_exit(0) };
                }
                _ => {
                    unsafe {
                        libc::close(req_r);
                        libc::close(ans_w);
                    }
                    v.push(Mutex::new(unsafe { Zygote { tx: File::from_raw_fd(req_w), rx: File::from_raw_fd(ans_r) } }));
                }
            }
        }
        let _ = POOL.set(v);
    }
    pub fn on() -> bool {
        POOL.get().is_some()
    }
    /// The answer of a fresh process; None where that one failed.
    pub fn ask(who: u64, q: [u64; 3]) -> Result<Option<u64>, String> {
        let pool = POOL.get().ok_or("no zygotes")?;
        let mut z = pool[(who % pool.len() as u64) as usize].lock().map_err(|e| e.to_string())?;
        let mut b = [0u8; 24];
        for i in 0..3 {
            b[8 * i..8 * i + 8].copy_from_slice(&q[i].to_le_bytes());
        }
        z.tx.write_all(&b).map_err(|e| e.to_string())?;
        let mut m = [0u8; 9];
        z.rx.read_exact(&mut m).map_err(|e| e.to_string())?;
        Ok((m[0] == 0).then(|| u64::from_le_bytes(m[1..].try_into().unwrap())))
    }
}
/// The buffers of a history, refilled in place.
struct Bufs<T: Fl> {
    a: Vec<Point2<T>>,
    b: Vec<Point2<T>>,
    poly: Vec<Point2<T>>,
    c3: Vec<Point3<T>>,
    d3: Vec<Point3<T>>,
    /// Places whose latitude in radians is the same number in both precisions.
    places: Vec<Point2<T>>,
    opt: [u64; 4],
}
impl<T: Fl> Bufs<T> {
    fn new() -> Self {
        let cap = 256;
        Bufs { a: Vec::with_capacity(cap), b: Vec::with_capacity(cap), poly: Vec::with_capacity(cap), c3: Vec::with_capacity(cap), d3: Vec::with_capacity(cap), places: vec![], opt: [0; 4] }
    }
    /// What (base, variant) stands for: variants of a base are much alike.
    fn fill(&mut self, base: u64, variant: u64) {
        let mut r = Rng::new(base);
        let n = 12 + r.usize(60);
        let sc = *r.pick(&[1.0, 10.0, 1000.0]);
        let sh = [r.sym(0.05), r.sym(0.05), r.sym(0.05)].map(|x| x * sc);
        self.a.clear();
        self.b.clear();
        self.poly.clear();
        self.c3.clear();
        self.d3.clear();
        // both precisions may get the very same numbers
        let snap = r.chance(1, 2);
        self.places.clear();
        for _ in 0..400 {
            let d = r.f(-85.0, 85.0) as f32;
            let rad = d.to_radians() as f64;
            let deg = rad.to_degrees();
            if deg.to_radians() == rad && (deg as f32).to_radians() as f64 == rad {
                self.places.push(pt([deg, r.int(-180, 180) as f64]));
                if self.places.len() == 4 {
                    break;
                }
            }
        }
        for i in 0..n {
            let mut p: [f64; 3] = [r.sym(sc), r.sym(sc), r.sym(sc)];
            if snap {
                p = p.map(|x| (x * 256.0).round() / 256.0);
            }
            self.a.push(pt([p[0], p[1]]));
            self.b.push(pt([p[0] + sh[0], p[1] + sh[1]]));
            self.c3.push(pt(p));
            self.d3.push(pt(std::array::from_fn(|k| p[k] + sh[k])));
            let an = i as f64 / n as f64 * std::f64::consts::TAU;
            let q = r.f(0.3, 1.0) * sc;
            self.poly.push(pt([q * an.cos(), q * an.sin()]));
        }
        self.opt = std::array::from_fn(|_| r.below(2));
        let mut r = Rng::new(base.wrapping_add(variant.wrapping_mul(0x9E37_79B9_7F4A_7C15)));
        if variant == 0 {
            return;
        }
        let far = if r.chance(1, 4) { sc * 10.0 } else { 0.0 };
        for p in &mut self.a {
            p.x = T::of(p.x.f() + far);
        }
        for _ in 0..r.usize(4) {
            let (i, j) = (r.usize(n), r.usize(n));
            match r.below(4) {
                0 => {
                    self.a.swap(i, j);
                    self.c3.swap(i, j);
                    self.poly.swap(i, j);
                }
                1 => {
                    self.a[i] = pt([r.sym(sc), r.sym(sc)]);
                    self.b[i] = pt([r.sym(sc), r.sym(sc)]);
                    self.poly[i] = pt([r.sym(sc), r.sym(sc)]);
                }
                2 => {
                    self.c3[i] = pt([r.sym(sc), r.sym(sc), r.sym(sc)]);
                    self.d3[j] = pt([r.sym(sc), r.sym(sc), r.sym(sc)]);
                }
                _ => {
                    self.a[i] = self.a[j];
                    self.d3[i] = self.d3[j];
                    self.poly[i] = self.poly[j];
                }
            }
        }
        if r.chance(1, 5) {
            let k = n - 1 - r.usize(3);
            self.a.truncate(k);
            self.poly.truncate(k);
            self.c3.truncate(k);
        }
        if r.chance(1, 3) {
            self.opt[r.usize(4)] ^= 1;
        }
    }
}
const KINDS: u64 = 17;
const KIND_NAMES: [&str; KINDS as usize] = [
    "KDTree build and queries", "find_nearest_neighbour_naive", "lex_sort", "lex_sort_ref", "lex_sort_in_place", "downsample_point_cloud_voxel", "calculate_point_cloud_center",
    "generate_point_cloud", "transform_point_cloud", "icp 2D", "icp 3D", "graham_scan", "jarvis_march", "are_multiple_points_in_polygon", "is_single_point_in_polygon",
    "calculate_polygon_extents", "lines and geography",
];
fn request<T: Fl>(v: &mut Bufs<T>, kind: u64, base: u64, variant: u64) -> u64
where
    T: AsPrimitive<T> + rand::distributions::uniform::SampleUniform,
    f32: AsPrimitive<T>,
    usize: AsPrimitive<T>,
{
    v.fill(base, variant);
    let kd = v.opt[0] == 1;
    let cf = ICPConfiguration::builder().with_kd_tree(kd).with_max_iterations(if v.opt[1] == 1 { 12 } else { 3 }).with_mse_interval_threshold(T::of(1e-4));
    let cf = if v.opt[2] == 1 { cf.with_absolute_mse_threshold(Some(T::of(1e-2))) } else { cf };
    let vox = T::of(if v.opt[3] == 1 { 0.5 } else { 3.0 });
    match kind {
        0 => {
            let t = KDTree::from(v.c3.as_slice());
            let mut s = vec![];
            t.traverse_tree(|p| s.push(bits(p)));
            s.sort();
            h((t.len(), s, v.d3.iter().map(|q| t.nearest(q).map(|p| bits(&p))).collect::<Vec<_>>()))
        }
        1 => h(v.d3.iter().map(|q| find_nearest_neighbour_naive(q, &v.c3).map(|p| bits(&p))).collect::<Vec<_>>()),
        2 => h(lex_sort(&v.c3).map(|x| x.iter().map(bits).collect::<Vec<_>>())),
        3 => h(lex_sort_ref(&v.c3).map(|x| x.iter().map(|p| bits(*p)).collect::<Vec<_>>())),
        4 => {
            let ok = lex_sort_in_place(&mut v.c3);
            h((ok, v.c3.iter().map(bits).collect::<Vec<_>>()))
        }
        5 => h(sorted_bits(&downsample_point_cloud_voxel::<T, T, 3>(&v.c3, vox))),
        6 => h((bits(&calculate_point_cloud_center(&v.c3)), bits(&calculate_point_cloud_center(&v.a)))),
        7 => h(generate_point_cloud::<T, 2>(v.a.len() / 2, [vox..=vox + vox, v.a[0].x..=v.a[0].x + vox]).iter().map(bits).collect::<Vec<_>>()),
        8 => {
            let iso = Isometry3::from_parts(Translation3::from(v.d3[0].coords), UnitQuaternion::new(v.d3[1].coords / T::of(100.0)));
            h(transform_point_cloud(&v.c3, iso).iter().map(bits).collect::<Vec<_>>())
        }
        9 => h(icp(&v.a, &v.b, cf.build())),
        10 => h(icp(&v.c3, &v.d3, cf.build())),
        11 => h(graham_scan::<T, T>(&v.a, false, None)),
        12 => h(jarvis_march::<T, T>(&v.a, None)),
        13 => h(are_multiple_points_in_polygon(&v.a, &v.poly)),
        14 => h(v.a.iter().map(|p| is_single_point_in_polygon(p, &v.poly)).collect::<Vec<_>>()),
        15 => h((calculate_polygon_extents(&v.poly), calculate_polygon_extents(&v.c3))),
        _ => h((
            lines::plot_bresenham_line::<T, i64, 2>(v.a[0], v.a[1]),
            // ending with the pair it started with, for the next call to meet it
            v.places.windows(2).map(|w| (geo::calculate_haversine_distance(w[0], w[1], T::of(6371.0)).bits(), geo::calculate_sphere_bearing(w[0], w[1]).bits())).collect::<Vec<_>>(),
            v.a.windows(2).chain(v.places.windows(2).take(1)).map(|w| (geo::calculate_haversine_distance(w[0], w[1], T::of(6371.0)).bits(), geo::calculate_sphere_bearing(w[0], w[1]).bits())).collect::<Vec<_>>(),
        )),
    }
}
fn fresh(q: [u64; 3]) -> u64 {
    let kind = q[0] % KINDS;
    if q[0] < KINDS {
        request(&mut Bufs::<f32>::new(), kind, q[1], q[2])
    } else {
        request(&mut Bufs::<f64>::new(), kind, q[1], q[2])
    }
}
fn history(c: &mut Case) -> Out {
    let bases: [u64; 2] = [c.rng.u64(), c.rng.u64()];
    // few functions, so that each sees several of the variants
    let kinds: Vec<u64> = (0..1 + c.rng.usize(4)).map(|_| c.rng.below(KINDS)).collect();
    let wide = c.rng.below(2);
    let reqs: Vec<[u64; 3]> = (0..24)
        .map(|_| {
            let w = if c.rng.chance(1, 8) { 1 - wide } else { wide };
            [*c.rng.pick(&kinds) + w * KINDS, *c.rng.pick(&bases), c.rng.below(5)]
        })
        .collect();
    c.note(|| format!("{:?}\nrequests (kind + {KINDS} for f64, base, variant) {reqs:?}", kinds.iter().map(|k| KIND_NAMES[*k as usize]).collect::<Vec<_>>()));
    c.sample(|| format!("a history of 24 calls of {:?} on refilled buffers", kinds.iter().map(|k| KIND_NAMES[*k as usize]).collect::<Vec<_>>()));
    let (mut f, mut d) = (Bufs::<f32>::new(), Bufs::<f64>::new());
    let mut known: std::collections::HashMap<[u64; 3], Option<u64>> = Default::default();
    let mut all = vec![];
    for (i, q) in reqs.iter().enumerate() {
        let name = KIND_NAMES[(q[0] % KINDS) as usize];
        let got = c.call(name, || if q[0] < KINDS { request(&mut f, q[0] % KINDS, q[1], q[2]) } else { request(&mut d, q[0] % KINDS, q[1], q[2]) })?;
        all.push(got);
        let want = match known.get(q) {
            Some(w) => *w,
            None => {
                let w = pristine::ask(c.idx, *q).map_err(Fail::Harness)?;
                c.ev("answers of pristine processes", 1);
                known.insert(*q, w);
                w
            }
        };
        c.ev("answers at the end of a history", 1);
        ensure!(want == Some(got), "{name}, call {i} of a history on refilled buffers, answers unlike a fresh process{}", if want.is_none() { ", which failed" } else { "" });
    }
    c.nontrivial(hash_bytes(all));
    Ok(())
}
fn c36(c: &mut Case) -> Out {
    if pristine::on() && c.idx % 4 != 0 {
        return history(c);
    }
    let mut js: Vec<Job> = vec![];
    jobs::<f32>(&mut c.rng, &mut js);
    jobs::<f64>(&mut c.rng, &mut js);
    let js = Arc::new(js);
    let mut first = vec![];
    for (name, f) in js.iter() {
        first.push(c.call(name, || f())?);
    }
    // again, backwards
    for (i, (name, f)) in js.iter().enumerate().rev() {
        let again = c.call(name, || f())?;
        ensure!(again == first[i], "{name} answers differently the second time");
        // and, its answer dropped, keeps nothing
        if c.last_kept() > 0 {
            c.call(name, || f())?;
            ensure!(c.last_kept() <= 0, "{name} keeps {} bytes of heap every time it is called", c.last_kept());
        }
    }
    // all at once
    let threads = 4;
    let bar = Arc::new(Barrier::new(threads));
    let hs: Vec<_> = (0..threads)
        .map(|_| {
            let (js, bar) = (js.clone(), bar.clone());
            let mut ord: Vec<usize> = (0..js.len()).collect();
            c.rng.shuffle(&mut ord);
            std::thread::spawn(move || {
                bar.wait();
                ord.into_iter().map(|i| (i, js[i].1())).collect::<Vec<_>>()
            })
        })
        .collect();
    let mut n = 0;
    let mut bad_one = None;
    for t in hs {
        match t.join() {
            Ok(v) => {
                for (i, x) in v {
                    n += 1;
                    if x != first[i] {
                        bad_one = Some(format!("{} answers differently beside other threads", js[i].0));
                    }
                }
            }
            Err(_) => bad_one = Some("a call that returned alone panicked beside other threads".into()),
        }
    }
    if let Some(m) = bad_one {
        bad!("{m}");
    }
    c.ev("answers repeated sequentially", js.len() as u64);
    c.ev("answers repeated by 4 threads at once", n);
    c.nontrivial(hash_bytes(first));
    Ok(())
}

// --------------------------------------------------- C37 large inputs
fn cpu() -> f64 {
    let mut t = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe { libc::clock_gettime(libc::CLOCK_THREAD_CPUTIME_ID, &mut t) };
    t.tv_sec as f64 + t.tv_nsec as f64 * 1e-9
}
/// A call with budgets: heap in bytes, CPU in seconds (some forty times what
/// the call takes here).
fn within<R>(c: &mut Case, what: &'static str, heap: usize, secs: f64, f: impl FnOnce() -> R) -> Result<R, Fail> {
    c.heap_budget(heap as i64 + (64 << 10));
    let t = cpu();
    let r = c.call(what, f);
    let t = cpu() - t;
    c.heap_budget(256 << 20);
    let r = r?;
    c.ev("calls within their budgets", 1);
    c.ev("milliseconds of CPU in them", (t * 1e3) as u64);
    ensure!(t <= secs, "{what} took {t:.1} s of CPU, budget {secs} s");
    Ok(r)
}
fn arrangement<const N: usize>(r: &mut Rng, n: usize) -> (Vec<[f64; N]>, &'static str) {
    let side = (n as f64).powf(1.0 / N as f64).ceil() as usize;
    match r.below(7) {
        0 => ((0..n).map(|_| [7.0; N]).collect(), "one place"),
        1 => ((0..n).map(|i| std::array::from_fn(|_| i as f64)).collect(), "ascending diagonal"),
        2 => ((0..n).map(|i| std::array::from_fn(|k| if k == 0 { (n - i) as f64 } else { 0.0 })).collect(), "descending axis"),
        3 => ((0..n).map(|i| std::array::from_fn(|k| ((i / side.pow(k as u32)) % side) as f64)).collect(), "grid"),
        4 => ((0..n).map(|i| std::array::from_fn(|k| ((i * (k + 1)) % 17) as f64)).collect(), "few places"),
        5 => (
            (0..n)
                .map(|i| {
                    let a = i as f64 / n as f64 * std::f64::consts::TAU;
                    std::array::from_fn(|k| match k {
                        0 => 1000.0 * a.cos(),
                        1 => 1000.0 * a.sin(),
                        _ => 0.0,
                    })
                })
                .collect(),
            "circle",
        ),
        _ => ((0..n).map(|_| std::array::from_fn(|_| r.sym(1000.0))).collect(), "scattered"),
    }
}
fn large<T: Fl>(c: &mut Case) -> Out
where
    T: AsPrimitive<T> + rand::distributions::uniform::SampleUniform,
    f32: AsPrimitive<T>,
    usize: AsPrimitive<T>,
{
    let k = if c.tier == Tier::Thorough { 1 + c.rng.usize(5) } else { 1 };
    let kind = c.rng.below(13);
    let sz = std::mem::size_of::<T>();
    let n = k * 100_000;
    let (v3, name3) = arrangement::<3>(&mut c.rng, n);
    let p3: Vec<Point3<T>> = v3.iter().map(|p| pt(*p)).collect();
    let (v2, name2) = arrangement::<2>(&mut c.rng, n);
    let p2: Vec<Point2<T>> = v2.iter().map(|p| pt(*p)).collect();
    c.note(|| format!("{} kind {kind}, {n} points, {name3} / {name2}", T::NAME));
    c.sample(|| format!("{} kind {kind}, {n} points, {name3} / {name2}", T::NAME));
    let kf = k as f64;
    match kind {
        0 => {
            let a = within(c, "lex_sort", 8 * n * sz, 10.0 * kf, || lex_sort(&p3))?.unwrap_or_default();
            let r: Vec<Point3<T>> = within(c, "lex_sort_ref", 40 * n, 10.0 * kf, || lex_sort_ref(&p3).unwrap_or_default().into_iter().copied().collect())?;
            let mut m = p3.clone();
            within(c, "lex_sort_in_place", 8 * n * sz, 10.0 * kf, || lex_sort_in_place(&mut m))?;
            ensure!(a.len() == n && a == m && a == r, "{name3}: the sorts of {n} points differ");
            ensure!(a.windows(2).all(|w| w[0].coords.as_slice().partial_cmp(w[1].coords.as_slice()) != Some(std::cmp::Ordering::Greater)), "{name3}: {n} points not sorted");
            c.ev("large sorts", 3);
        }
        1 => {
            let v = T::of(*c.rng.pick(&[0.25, 1.0, 50.0, 1e6]));
            let o = within(c, "downsample_point_cloud_voxel", 600 * n, 20.0 * kf, || downsample_point_cloud_voxel::<T, T, 3>(&p3, v))?;
            ensure!(!o.is_empty() && o.len() <= n, "{name3}: {} voxels of {n} points", o.len());
            c.ev("large downsamplings", 1);
        }
        2 => {
            let m = within(c, "calculate_point_cloud_center", 1 << 12, 5.0 * kf, || calculate_point_cloud_center(&p3))?;
            ensure!(arr(&m).iter().all(|x| x.is_finite()), "{name3}: centroid {m:?}");
            let e = within(c, "calculate_polygon_extents", 1 << 12, 5.0 * kf, || calculate_polygon_extents(&p3))?;
            ensure!(e.is_some(), "{name3}: no extents");
            let t = within(c, "transform_point_cloud", 8 * n * sz, 5.0 * kf, || transform_point_cloud(&p3, Isometry3::<T>::identity()))?;
            ensure!(t.len() == n, "{name3}: {} of {n} points transformed", t.len());
            let q = within(c, "find_nearest_neighbour_naive", 1 << 12, 5.0 * kf, || find_nearest_neighbour_naive(&p3[n / 2], &p3))?;
            ensure!(q == Some(p3[n / 2]), "{name3}: the nearest to a point of the cloud is {q:?}");
            let g = within(c, "generate_point_cloud", 8 * n * sz, 5.0 * kf, || generate_point_cloud::<T, 3>(n, std::array::from_fn(|_| T::of(-1.0)..=T::of(1.0))))?;
            ensure!(g.len() == n, "{} of {n} points generated", g.len());
            c.ev("large linear passes", 5);
        }
        12 => {
            // so many that even a small frame of stack for each is too much
            let m = 1_500_000;
            let p: Vec<Point2<T>> = (0..m).map(|i| p2[i % n] + nalgebra::Vector2::new(T::of((i / n) as f64), T::of(0.0))).collect();
            let e = within(c, "calculate_polygon_extents of millions", 1 << 12, 5.0, || calculate_polygon_extents(&p))?;
            ensure!(e.is_some(), "no extents");
            within(c, "calculate_point_cloud_center of millions", 1 << 12, 5.0, || calculate_point_cloud_center(&p))?;
            within(c, "find_nearest_neighbour_naive of millions", 1 << 12, 5.0, || find_nearest_neighbour_naive(&p[m / 2], &p))?;
            within(c, "transform_point_cloud of millions", 8 * m * sz, 5.0, || transform_point_cloud(&p, Isometry2::<T>::identity()).len())?;
            within(c, "is_single_point_in_polygon of millions", 1 << 12, 5.0, || is_single_point_in_polygon(&p[7], &p))?;
            within(c, "are_multiple_points_in_polygon of millions", 1 << 16, 10.0, || are_multiple_points_in_polygon(&p[..3], &p))?;
            within(c, "are_multiple_points_in_polygon, millions of points", 4 * m, 10.0, || are_multiple_points_in_polygon(&p, &p2[..3]))?;
            within(c, "generate_point_cloud of millions", 8 * m * sz, 10.0, || generate_point_cloud::<T, 2>(m, [T::of(-1.0)..=T::of(1.0), T::of(-1.0)..=T::of(1.0)]).len())?;
            within(c, "lex_sort of millions", 8 * m * sz, 30.0, || lex_sort(&p).map(|v| v.len()))?;
            within(c, "graham_scan of millions", 40 * m * sz, 30.0, || graham_scan::<T, T>(&p, false, None).map(|v| v.len()))?;
            within(c, "downsample_point_cloud_voxel of millions", 600 * m, 30.0, || downsample_point_cloud_voxel::<T, T, 2>(&p, T::of(100.0)).len())?;
            let l = within(c, "plot_bresenham_line of millions", 8 * 3 * 3 * m, 10.0, || lines::plot_bresenham_line::<T, i32, 2>(pt([0.0, 0.0]), pt([m as f64, 777.0])).len())?;
            ensure!(l == m + 1, "{l} cells over {m}");
            c.ev("passes over millions", 12);
        }
        11 => {
            // few points far apart: what they take does not depend on where they are
            for _ in 0..12 {
                let m = 3 + c.rng.usize(40);
                let far = 10f64.powf(c.rng.f(0.0, 12.0));
                let s3: Vec<Point3<T>> = (0..m).map(|_| pt(std::array::from_fn(|_| c.rng.sym(far)))).collect();
                let s2: Vec<Point2<T>> = s3.iter().map(|p| pt([p.x.f(), p.y.f()])).collect();
                let vox = T::of(10f64.powf(c.rng.f(-2.0, 3.0)));
                within(c, "downsample_point_cloud_voxel of few", 0, 1.0, || downsample_point_cloud_voxel::<T, T, 3>(&s3, vox))?;
                within(c, "graham_scan of few", 0, 1.0, || (graham_scan::<T, T>(&s2, false, None), graham_scan::<T, T>(&s2, false, Some(vox))))?;
                within(c, "jarvis_march of few", 0, 1.0, || (jarvis_march::<T, T>(&s2, None), jarvis_march::<T, T>(&s2, Some(vox))))?;
                within(c, "lex_sort of few", 0, 1.0, || lex_sort(&s3))?;
                within(c, "are_multiple_points_in_polygon of few", 0, 1.0, || are_multiple_points_in_polygon(&s2, &s2))?;
                within(c, "KDTree of few", 0, 1.0, || {
                    let t = KDTree::from(s3.as_slice());
                    s3.iter().map(|p| t.nearest(p)).collect::<Vec<_>>()
                })?;
                // however long it may go on
                let cf = ICPConfiguration::builder().with_kd_tree(c.rng.chance(1, 2)).with_max_iterations(*c.rng.pick(&[1 << 20, 1 << 40, usize::MAX])).with_mse_interval_threshold(T::of(1e30)).build();
                within(c, "icp of few", 0, 1.0, || icp(&s2, &s2, cf.clone()).is_ok())?;
                let few: Vec<Point2<i64>> = s2.iter().map(|p| Point2::new(p.x.f() as i64, p.y.f() as i64)).collect();
                within(c, "downsample_point_cloud_voxel of few integers", 0, 1.0, || downsample_point_cloud_voxel::<i64, f64, 2>(&few, 1.0))?;
                c.ev("sparse clouds", 1);
            }
        }
        3 | 4 => {
            let g = within(c, "graham_scan", 40 * n * sz, 10.0 * kf, || graham_scan::<T, T>(&p2, false, None))?;
            ensure!(g.is_some() == !matches!(name2, "one place" | "ascending diagonal" | "descending axis"), "{name2}: hull of {n} points {:?}", g.map(|v| v.len()));
            c.ev("large Graham scans", 1);
        }
        5 => {
            // every vertex costs a pass: bounded hull, many points
            let m = if name2 == "circle" { 3000 * k } else { n };
            let j = within(c, "jarvis_march", 40 * m * sz, 20.0 * kf * kf, || {
                // a grid's boundary and a diagonal list their collinear points
                if matches!(name2, "ascending diagonal" | "descending axis" | "grid") {
                    jarvis_march::<T, T>(&p2[..4000], None)
                } else {
                    let step = n / m;
                    let s: Vec<_> = p2.iter().step_by(step).copied().collect();
                    jarvis_march::<T, T>(&s, None)
                }
            })?;
            ensure!(j.is_some() == !matches!(name2, "one place" | "ascending diagonal" | "descending axis"), "{name2}: hull {:?}", j.map(|v| v.len()));
            c.ev("large Jarvis marches", 1);
        }
        6 => {
            let q: Vec<Point2<T>> = (0..100).map(|_| pt([c.rng.sym(1000.0), c.rng.sym(1000.0)])).collect();
            let a = within(c, "are_multiple_points_in_polygon", 1 << 20, 20.0 * kf, || are_multiple_points_in_polygon(&q, &p2))?;
            ensure!(a.as_ref().map(|v| v.len()) == Some(100), "{name2}: {:?} answers", a.map(|v| v.len()));
            let few = &p2[..50.min(n)];
            let tri: Vec<Point2<T>> = vec![pt([-1e4, -1e4]), pt([1e4, -1e4]), pt([0.0, 1e6])];
            let a = within(c, "are_multiple_points_in_polygon", 4 * n, 5.0 * kf, || are_multiple_points_in_polygon(&p2, &tri))?;
            ensure!(a.as_ref().map(|v| v.len()) == Some(n), "{name2}: {:?} answers, {few:?}", a.map(|v| v.len()));
            c.ev("large polygons", 2);
        }
        7 => {
            let l = 3 * n;
            let a: Point3<T> = pt([-(l as f64) / 2.0, 5.0, 0.0]);
            let b: Point3<T> = pt([l as f64 / 2.0, c.rng.int(0, l as i64) as f64, -(c.rng.int(0, l as i64) as f64)]);
            let o = within(c, "plot_bresenham_line", 8 * 3 * 3 * l, 10.0 * kf, || lines::plot_bresenham_line::<T, i64, 3>(a, b))?;
            ensure!(o.len() == l + 1, "{} cells over {l}", o.len());
            c.ev("large lines", 1);
        }
        8 | 9 => {
            let mut v = p3.clone();
            c.rng.shuffle(&mut v);
            let t = within(c, "KDTree::from", 120 * n, 20.0 * kf, || KDTree::from(v.as_slice()))?;
            let mut want: Vec<_> = v.iter().map(key).collect();
            want.sort();
            want.dedup();
            ensure!(t.len() == want.len(), "{name3}: {} of {} distinct points", t.len(), want.len());
            let q: Vec<Point3<T>> = (0..200).map(|_| pt(std::array::from_fn(|_| c.rng.sym(1000.0)))).collect();
            within(c, "KDTree::nearest", 1 << 12, 10.0 * kf, || {
                for q in &q {
                    std::hint::black_box(t.nearest(q));
                }
            })?;
            let mut seen = 0;
            within(c, "KDTree::traverse_tree", 1 << 12, 5.0 * kf, || t.traverse_tree(|_| seen += 1))?;
            ensure!(seen == t.len(), "{name3}: traversed {seen} of {}", t.len());
            let d = within(c, "KDTree clone and drop", 120 * n, 5.0 * kf, || drop(t.clone()))?;
            let _ = d;
            c.ev("large trees", 1);
        }
        _ => {
            let m = 5000 * k;
            let a: Vec<Point2<T>> = (0..m).map(|_| pt([c.rng.sym(100.0), c.rng.sym(100.0)])).collect();
            let iso = Isometry2::from_parts(Translation2::new(T::of(0.01), T::of(-0.02)), UnitComplex::new(T::of(1e-4)));
            let b = transform_point_cloud(&a, iso);
            let r = within(c, "icp with a tree", 200 * m, 20.0 * kf, || icp(&a, &b, ICPConfiguration::builder().with_kd_tree(true).with_mse_interval_threshold(T::of(1e-3)).build()))?;
            ensure!(r.is_ok(), "{m} points displaced a little: {r:?}");
            let a = &a[..1000];
            let b = &b[..1000];
            let r = within(c, "icp without a tree", 200 * m, 20.0 * kf, || icp(a, b, ICPConfiguration::builder().with_mse_interval_threshold(T::of(1e-3)).build()))?;
            ensure!(r.is_ok(), "1000 points displaced a little: {r:?}");
            // a strip with far to slide, by small steps
            let m = 2000;
            let a: Vec<Point2<T>> = (0..m).map(|i| pt([i as f64, 0.0])).collect();
            let mut b: Vec<Point2<T>> = (0..m).map(|i| pt([i as f64 + 100.0, 0.0])).collect();
            c.rng.shuffle(&mut b);
            let kd = c.rng.chance(1, 2);
            let iters = 60;
            within(c, "icp of 60 iterations", 150 * m, 20.0, || {
                std::hint::black_box(icp(&a, &b, ICPConfiguration::builder().with_kd_tree(kd).with_max_iterations(iters).with_mse_interval_threshold(T::of(1e-6)).build()).is_ok());
            })?;
            // nobody asked for a tree, least of all one of a sorted target
            let few = [p3[0], p3[n / 2], p3[n - 1]];
            let target: Vec<Point3<T>> = (0..n).map(|i| pt([i as f64, 0.0, 0.0])).collect();
            within(c, "icp of 3 points without a tree", 1 << 14, 20.0 * kf, || {
                std::hint::black_box(icp(&few, &target, ICPConfiguration::builder().with_max_iterations(2).build()).is_ok());
            })?;
            c.ev("large registrations", 4);
        }
    }
    c.nontrivial(hash_pts(&p2) ^ hash_pts(&p3) ^ kind);
    Ok(())
}
/// The fastest of several runs, in CPU seconds.
fn fastest(mut f: impl FnMut()) -> f64 {
    let (mut best, mut total, mut k) = (f64::INFINITY, 0.0, 0);
    while k < 2 || (total < 4e-3 && k < 200) {
        let t = cpu();
        f();
        let t = cpu() - t;
        best = best.min(t);
        total += t;
        k += 1;
    }
    best
}
/// How a call's cost grows when its input does: `make(n)` builds the input and
/// returns the call. From 4096 to 65536 elements, n log n is 21 times the cost
/// and a cache that no longer fits some twice that; n² is 256 times.
fn grows<F: FnMut()>(c: &mut Case, what: &'static str, mut make: impl FnMut(usize) -> F) -> Out {
    let (small, large) = (1 << 12, 1 << 16);
    let mut worst = 0.0;
    for _ in 0..4 {
        let mut a = make(small);
        let mut b = make(large);
        let (x, y) = c.call(what, move || (fastest(&mut a), fastest(&mut b)))?;
        worst = y / x.max(2e-6);
        c.ev("growth measurements", 1);
        c.ev("microseconds for 4096 elements", (x * 1e6) as u64);
        c.ev("microseconds for 65536 elements", (y * 1e6) as u64);
        if worst < 110.0 || y < 0.05 {
            return Ok(());
        }
    }
    bad!("{what}: sixteen times the input costs {worst:.0} times the time, four times in a row")
}
fn circle<T: Fl>(n: usize) -> Vec<Point2<T>> {
    (0..n)
        .map(|i| {
            let a = i as f64 / n as f64 * std::f64::consts::TAU;
            pt([1000.0 * a.cos(), 1000.0 * a.sin()])
        })
        .collect()
}
fn growth<T: Fl>(c: &mut Case) -> Out
where
    T: AsPrimitive<T> + rand::distributions::uniform::SampleUniform,
    f32: AsPrimitive<T>,
    usize: AsPrimitive<T>,
{
    let kind = c.rng.below(12);
    let seed = c.rng.u64();
    let fam = c.rng.below(9);
    // arrangements no call here has a reason to be slow on
    let set3 = move |n: usize| -> Vec<Point3<T>> {
        let mut r = Rng::new(seed);
        (0..n)
            .map(|i| match fam {
                0 => pt(std::array::from_fn(|_| r.sym(1000.0))),
                1 => pt([7.0; 3]),
                2 => pt([i as f64, (i / 2) as f64, 0.0]),
                3 => pt([(n - i) as f64, 1.0, -1.0]),
                // what a sort may guess from a part of its input
                4 if i < n / 32 => pt([i as f64 - 1e5, 0.0, 0.0]),
                5 if i < n - n / 32 => pt([i as f64, 0.0, 0.0]),
                4 | 5 => pt(std::array::from_fn(|_| r.sym(n as f64))),
                6 => pt([i.min(n - i) as f64, (i % 3) as f64, 0.0]),
                7 => pt([((i % 2) * n + i) as f64, 0.0, 0.0]),
                _ => pt([(i % 256) as f64, (i / 256) as f64, (i % 7) as f64]),
            })
            .collect()
    };
    let set2 = move |n: usize| -> Vec<Point2<T>> {
        match fam {
            0 | 1 => circle(n),
            _ => set3(n).iter().map(|p| pt([p.x.f(), p.y.f()])).collect(),
        }
    };
    let name = ["random or circle", "one place or circle", "ascending", "descending", "sorted, then random", "sorted but for the end", "up and down", "two runs interleaved", "grid"][fam as usize];
    c.note(|| format!("growth {} kind {kind} {name}", T::NAME));
    c.sample(|| format!("growth {} kind {kind} {name}", T::NAME));
    use std::hint::black_box as bb;
    match kind {
        0 => {
            grows(c, "lex_sort", |n| { let v = set3(n); move || { bb(lex_sort(&v)); } })?;
            grows(c, "lex_sort_ref", |n| { let v = set3(n); move || { bb(lex_sort_ref(&v)); } })?;
            grows(c, "lex_sort_in_place", |n| { let v = set3(n); move || { bb(lex_sort_in_place(&mut v.clone())); } })?;
        }
        1 | 2 => {
            let v = T::of(if kind == 1 { 0.5 } else { 100.0 });
            grows(c, "downsample_point_cloud_voxel", |n| { let p = set3(n); move || { bb(downsample_point_cloud_voxel::<T, T, 3>(&p, v)); } })?;
        }
        3 => {
            grows(c, "calculate_point_cloud_center", |n| { let v = set3(n); move || { bb(calculate_point_cloud_center(&v)); } })?;
            grows(c, "calculate_polygon_extents", |n| { let v = set3(n); move || { bb(calculate_polygon_extents(&v)); } })?;
            grows(c, "transform_point_cloud", |n| { let v = set3(n); move || { bb(transform_point_cloud(&v, Isometry3::<T>::identity())); } })?;
            grows(c, "find_nearest_neighbour_naive", |n| { let v = set3(n); move || { bb(find_nearest_neighbour_naive(&v[n / 3], &v)); } })?;
            grows(c, "generate_point_cloud", |n| move || { bb(generate_point_cloud::<T, 3>(n, std::array::from_fn(|_| T::of(-1.0)..=T::of(1.0)))); })?;
        }
        4 | 5 => {
            let sorted = kind == 5;
            grows(c, "graham_scan", |n| {
                let mut v = set2(n);
                if sorted {
                    v.sort_by(|a, b| a.x.partial_cmp(&b.x).unwrap().then(a.y.partial_cmp(&b.y).unwrap()));
                }
                move || { bb(graham_scan::<T, T>(&v, sorted, None)); }
            })?;
            let vox = T::of(0.5);
            grows(c, "graham_scan with voxels", |n| { let v = set2(n); move || { bb(graham_scan::<T, T>(&v, false, Some(vox))); } })?;
        }
        6 => {
            // a hull of four, everything else inside it
            grows(c, "jarvis_march around four corners", |n| {
                let mut r = Rng::new(seed);
                let mut v: Vec<Point2<T>> = (4..n).map(|_| pt([r.sym(10.0), r.sym(10.0)])).collect();
                for (x, y) in [(20.0, 20.5), (-20.0, 20.0), (-20.5, -20.0), (20.0, -20.5)] {
                    let at = r.usize(v.len() + 1);
                    v.insert(at, pt([x, y]));
                }
                move || { bb(jarvis_march::<T, T>(&v, None)); }
            })?;
            let vox = T::of(0.01);
            grows(c, "jarvis_march with voxels", |n| {
                let mut r = Rng::new(seed);
                let mut v: Vec<Point2<T>> = (4..n).map(|_| pt([r.sym(10.0), r.sym(10.0)])).collect();
                v.extend([(20.0, 20.5), (-20.0, 20.0), (-20.5, -20.0), (20.0, -20.5)].map(|(x, y)| pt([x, y])));
                move || { bb(jarvis_march::<T, T>(&v, Some(vox))); }
            })?;
        }
        7 => {
            let q: Vec<Point2<T>> = (0..20).map(|i| pt([i as f64 * 40.0 - 400.0, 3.5])).collect();
            let q = &q;
            grows(c, "are_multiple_points_in_polygon (vertices)", |n| { let v = set2(n); move || { bb(are_multiple_points_in_polygon(q, &v)); } })?;
            let tri: Vec<Point2<T>> = vec![pt([-1e4, -1e4]), pt([1e4, -1e4]), pt([0.0, 1e6])];
            let tri = &tri;
            grows(c, "are_multiple_points_in_polygon (points)", |n| { let v = set2(n); move || { bb(are_multiple_points_in_polygon(&v, tri)); } })?;
        }
        8 => {
            let k = c.rng.unit();
            grows(c, "plot_bresenham_line", |n| move || {
                bb(lines::plot_bresenham_line::<T, i64, 3>(pt([0.0; 3]), pt([n as f64, (n as f64 * k).round(), -3.0])));
            })?;
        }
        9 | 10 => {
            let random = move |n: usize| -> Vec<Point3<T>> {
                let mut r = Rng::new(seed);
                (0..n).map(|_| pt(std::array::from_fn(|_| if fam == 1 { r.int(0, 9) as f64 } else { r.sym(1000.0) }))).collect()
            };
            grows(c, "KDTree::from", |n| { let v = random(n); move || { bb(KDTree::from(v.as_slice()).len()); } })?;
            grows(c, "KDTree::traverse_tree", |n| { let t = KDTree::from(random(n).as_slice()); move || { let mut k = 0; t.traverse_tree(|_| k += 1); bb(k); } })?;
            grows(c, "KDTree::len, a thousand times", |n| { let t = KDTree::from(random(n).as_slice()); move || { for _ in 0..1000 { bb(bb(&t).len()); } } })?;
            grows(c, "KDTree clone", |n| { let t = KDTree::from(random(n).as_slice()); move || { bb(t.clone().len()); } })?;
            // queries: one per stored point
            grows(c, "KDTree::nearest for every point", |n| { let v = random(n); let t = KDTree::from(v.as_slice()); move || { for p in &v { bb(t.nearest(p)); } } })?;
        }
        _ => {
            grows(c, "icp with a tree", |n| {
                let mut r = Rng::new(seed);
                let a: Vec<Point2<T>> = (0..n).map(|_| pt([r.sym(100.0), r.sym(100.0)])).collect();
                let b: Vec<Point2<T>> = a.iter().map(|p| pt([p.x.f() + 1e-3, p.y.f()])).collect();
                move || { bb(icp(&a, &b, ICPConfiguration::builder().with_kd_tree(true).with_max_iterations(2).with_mse_interval_threshold(T::of(1e-3)).build()).is_ok()); }
            })?;
        }
    }
    c.ev("calls whose growth held", 1);
    c.nontrivial(seed ^ kind);
    Ok(())
}
fn c37(c: &mut Case) -> Out {
    if c.rng.chance(1, 2) {
        return if c.rng.chance(1, 2) { growth::<f32>(c) } else { growth::<f64>(c) };
    }
    if c.rng.chance(1, 2) {
        large::<f32>(c)
    } else {
        large::<f64>(c)
    }
}
/// F10: recursion as deep as the tree is tall.
fn monotone_tree(_: &mut Case) -> Out {
    let h = std::thread::Builder::new()
        .stack_size(2 << 20)
        .spawn(|| {
            let p: Vec<Point2<f64>> = (0..40_000).map(|i| Point2::new(i as f64, i as f64)).collect();
            let t = KDTree::from(p.as_slice());
            t.nearest(&p[77]) == Some(p[77]) && t.len() == p.len()
        })
        .unwrap();
    match h.join() {
        Ok(true) => Ok(()),
        _ => bad!("a tree of 40000 ascending points is wrong"),
    }
}

// ------------------------------------------------ C38 the parts agree
fn together<T: Fl>(c: &mut Case) -> Out
where
    T: AsPrimitive<T>,
    f32: AsPrimitive<T>,
    usize: AsPrimitive<T>,
{
    // lattice points: every step of the pipeline is exact in T
    let s = *c.rng.pick(&[6i64, 20, 60]);
    let n = 3 + c.rng.vast(150).min(20_000);
    let (s, n) = if n > 3000 { (300, n) } else { (s, n) };
    let rare = c.rng.chance(1, 2); // few points near the border, so that every one of them counts
    let mut one = |r: &mut Rng| {
        let u = r.unit();
        if rare { ((2.0 * r.unit() - 1.0) * u * u * u * s as f64) as i64 } else { r.int(-s, s) }
    };
    let mut ints: Vec<[i64; 2]> = (0..n).map(|_| [one(&mut c.rng), one(&mut c.rng)]).collect();
    if rare {
        let i = c.rng.usize(n);
        ints[i] = [c.rng.int(-s, s), c.rng.int(-s, s)];
    }
    let cl: Vec<Point2<T>> = ints.iter().map(|p| pt(p.map(|x| x as f64))).collect();
    c.note(|| format!("{} {ints:?}", T::NAME));
    c.sample(|| format!("{} {n} points within {s}", T::NAME));
    let Some(hull) = c.call("graham_scan", || graham_scan::<T, T>(&cl, false, None))? else {
        let j = c.call("jarvis_march", || jarvis_march::<T, T>(&cl, None))?;
        ensure!(j.is_none(), "no Graham hull, yet a Jarvis hull {j:?}");
        return Ok(());
    };
    let hi: Vec<[i64; 2]> = hull.iter().map(|p| [p.x.f() as i64, p.y.f() as i64]).collect();
    let cr = |a: [i64; 2], b: [i64; 2], p: [i64; 2]| (b[0] - a[0]) * (p[1] - a[1]) - (b[1] - a[1]) * (p[0] - a[0]);
    // the tree and the scan find every hull vertex in the cloud
    let tree = c.call("KDTree::from", || KDTree::from(cl.as_slice()))?;
    for v in &hull {
        let a = c.call("KDTree::nearest", || tree.nearest(v))?;
        let b = c.call("find_nearest_neighbour_naive", || find_nearest_neighbour_naive(v, &cl))?;
        ensure!(a == Some(*v) && b == Some(*v), "hull vertex {v:?} is not a point of the cloud: tree {a:?}, scan {b:?}");
    }
    // what is strictly inside the hull is in the polygon, what is strictly outside is not
    let area2: i64 = (0..hi.len()).map(|i| hi[i][0] * hi[(i + 1) % hi.len()][1] - hi[i][1] * hi[(i + 1) % hi.len()][0]).sum();
    let side = |p: [i64; 2]| (0..hi.len()).map(|i| cr(hi[i], hi[(i + 1) % hi.len()], p) * area2.signum()).min().unwrap();
    let verdicts = c.call("are_multiple_points_in_polygon", || are_multiple_points_in_polygon(&cl, &hull))?.unwrap_or_default();
    ensure!(verdicts.len() == n, "{} verdicts for {n} points", verdicts.len());
    let mut inner = 0;
    for (p, v) in ints.iter().zip(&verdicts) {
        let sd = side(*p);
        ensure!(sd >= 0, "{p:?} lies outside the hull {hi:?}");
        if sd > 0 {
            inner += 1;
            ensure!(*v, "{p:?} is strictly inside the hull {hi:?} but not in it as a polygon");
        }
    }
    for _ in 0..20 {
        let p = [c.rng.int(-s - 2, s + 2), c.rng.int(-s - 2, s + 2)];
        if side(p) < 0 {
            let q: Point2<T> = pt(p.map(|x| x as f64));
            let v = c.call("is_single_point_in_polygon", || is_single_point_in_polygon(&q, &hull))?;
            ensure!(!v, "{p:?} is outside the hull {hi:?} but in it as a polygon");
        }
    }
    // extents of the hull are those of the cloud
    let e1 = c.call("calculate_polygon_extents", || calculate_polygon_extents(&cl))?;
    let e2 = c.call("calculate_polygon_extents", || calculate_polygon_extents(&hull))?;
    ensure!(e1 == e2, "extents {e1:?} of the cloud, {e2:?} of its hull");
    // hull of the hull; both hulls agree
    let again = c.call("graham_scan", || graham_scan::<T, T>(&hull, false, None))?;
    let f = |h: &Option<Vec<Point2<T>>>| supports(&h.as_ref().map(|h| h.iter().map(arr).collect()));
    ensure!(again.as_ref().map(|a| sorted_bits(a)) == Some(sorted_bits(&hull)), "the hull of the hull {hull:?} is {again:?}");
    let j = c.call("jarvis_march", || jarvis_march::<T, T>(&cl, None))?;
    ensure!(f(&j) == f(&Some(hull.clone())), "Jarvis {j:?} spans another region than Graham {hull:?}");
    // sorting, thinning by fine voxels or moving the cloud does not change the region
    let sorted = c.call("lex_sort", || lex_sort(&cl))?.unwrap_or_default();
    let g = c.call("graham_scan", || graham_scan::<T, T>(&sorted, true, None))?;
    ensure!(g.as_ref() == Some(&hull), "presorted: {g:?}, otherwise {hull:?}");
    let thin = c.call("downsample_point_cloud_voxel", || downsample_point_cloud_voxel::<T, T, 2>(&cl, T::of(0.5)))?;
    ensure!(thin.len() == tree.len(), "{} occupied fine voxels, {} distinct points in the tree", thin.len(), tree.len());
    let g = c.call("graham_scan", || graham_scan::<T, T>(&thin, false, None))?;
    ensure!(f(&g) == f(&Some(hull.clone())), "thinned by fine voxels: {g:?}, before {hull:?}");
    let sh = [c.rng.int(-40, 40), c.rng.int(-40, 40)];
    let iso = Isometry2::from_parts(Translation2::new(T::of(sh[0] as f64), T::of(sh[1] as f64)), UnitComplex::identity());
    let moved = c.call("transform_point_cloud", || transform_point_cloud(&cl, iso))?;
    let g = c.call("graham_scan", || graham_scan::<T, T>(&moved, false, None))?.unwrap_or_default();
    let back: Vec<[u64; 2]> = sorted_bits(&g.iter().map(|p| pt([p.x.f() - sh[0] as f64, p.y.f() - sh[1] as f64])).collect::<Vec<Point2<T>>>());
    let plus: Vec<Point2<T>> = hull.iter().map(|p| pt([p.x.f() + 0.0, p.y.f() + 0.0])).collect();
    ensure!(back == sorted_bits(&plus), "moved by {sh:?}: hull {g:?}, before {hull:?}");
    let m1 = arr(&c.call("calculate_point_cloud_center", || calculate_point_cloud_center(&cl))?);
    let m2 = arr(&c.call("calculate_point_cloud_center", || calculate_point_cloud_center(&moved))?);
    for i in 0..2 {
        ensure!((m2[i] - m1[i] - sh[i] as f64).abs() <= 8.0 * T::EPS * 2.0 * (s + 60) as f64, "centroid {m1:?}, moved by {sh:?} {m2:?}");
    }
    // the centre of a cloud lies in its hull
    let ctr: Point2<T> = pt(m1);
    let deep = (0..hi.len()).all(|i| {
        let (a, b) = (hi[i], hi[(i + 1) % hi.len()]);
        let d = ((b[0] - a[0]) as f64 * (m1[1] - a[1] as f64) - (b[1] - a[1]) as f64 * (m1[0] - a[0] as f64)) * area2.signum() as f64;
        d > 1e-3 * s as f64
    });
    if deep {
        let v = c.call("is_single_point_in_polygon", || is_single_point_in_polygon(&ctr, &hull))?;
        ensure!(v, "the centroid {m1:?} is not in the hull {hi:?}");
    }
    // the outline drawn on the grid: closed, within the extents, outside nothing
    let mut cells = 0;
    for i in 0..hull.len() {
        let (a, b) = (hull[i], hull[(i + 1) % hull.len()]);
        let l = c.call("plot_bresenham_line", || lines::plot_bresenham_line::<T, T, 2>(a, b))?;
        ensure!(l.first() == Some(&a) && l.last() == Some(&b), "edge {a:?} -> {b:?} is drawn from {:?} to {:?}", l.first(), l.last());
        cells += l.len();
        for p in &l {
            for k in 0..2 {
                ensure!(e1.as_ref().map(|e| e[k].contains(&p[k])) == Some(true), "outline cell {p:?} is outside the extents");
            }
        }
    }
    // registering a cloud on itself leaves it in place
    let r = c.call("icp", || icp(&cl, &cl, ICPConfiguration::builder().with_kd_tree(c_bool(n)).build()))?;
    match r {
        Ok(s) => {
            let mv = transform_point_cloud(&cl, s.transform);
            for (p, q) in cl.iter().zip(&mv) {
                ensure!(d2(arr(p), arr(q)).sqrt() <= 1e3 * T::EPS.sqrt() * 60.0, "registered on itself, {p:?} moved to {q:?}");
            }
        }
        Err(e) => bad!("a cloud does not register on itself: {e:?}"),
    }
    c.ev("pipelines", 1);
    c.ev("points strictly inside their hull", inner);
    c.ev("outline cells", cells as u64);
    c.nontrivial(hash_pts(&cl));
    Ok(())
}
fn c_bool(n: usize) -> bool {
    n % 2 == 0
}
fn c38(c: &mut Case) -> Out {
    if c.rng.chance(1, 2) {
        together::<f32>(c)
    } else {
        together::<f64>(c)
    }
}

fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C33",
            rule: "every premade single- and double-precision function (32 lines, 48 hulls, polygons, geography, registration) on random inputs, options varied, beside the generic function with the same type arguments: bit for bit, and where voxels leave the order free the same region. Non-trivial: a distinct input with something to do.",
            quick: 900_000,
            thorough: 20_000_000,
            run: c33,
            min_nontrivial: 10_000,
            ..Prop::BASE
        },
        Prop {
            id: "C36",
            rule: "38 calls over all modules on shared inputs and one shared tree: answered once, again in reverse order, then by 4 threads at once in 4 shuffled orders; every answer bit for bit the first; and histories of 24 calls of a few functions on buffers refilled in place with variants of the same data, every answer bit for bit that of a process in which nothing was called before (forked per request). Non-trivial: a distinct set of answers.",
            quick: 8_000,
            thorough: 160_000,
            run: c36,
            min_nontrivial: 100,
            ..Prop::BASE
        },
        Prop {
            id: "C37",
            rule: "inputs of 100000 (thorough: up to 500000) points arranged on one place, a diagonal, an axis, a grid, a few places, a circle, scattered, and few points up to 1e12 apart, through each function under a heap budget linear in the input, a CPU budget about forty times the usual and an 8 MiB stack; and each function timed on 4096 and 65536 elements, in CPU time, where sixteen times the input may not cost 110 times as much (linear 16, quadratic 256). Non-trivial: a distinct arrangement and function.",
            quick: 160,
            thorough: 1_500,
            run: c37,
            min_nontrivial: 16,
            assumptions: &["trees are built in shuffled order (see the finding on ascending order)"],
            probes: &[("kd-40000-ascending-points-2MiB-stack", monotone_tree)],
            ..Prop::BASE
        },
        Prop {
            id: "C38",
            rule: "lattice clouds through the whole library: hull, polygon test, extents, tree, scan, sort, voxels, translation, centroid, outline, self-registration, each judged against the others (and integer geometry). Non-trivial: a distinct cloud with a hull.",
            quick: 300_000,
            thorough: 7_000_000,
            run: c38,
            min_nontrivial: 3_000,
            ..Prop::BASE
        },
    ]
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let sanitized = std::env::var_os("MON_NO_FORK").is_some();
    if a.iter().any(|x| x == "C36") && a.iter().any(|x| x == "child") && !sanitized {
        pristine::start(fresh);
    }
    mon::cli::main(props());
}
