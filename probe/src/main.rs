//! Runs one deterministic workload over the public functions, in whatever
//! feature set it was built with, and prints every result. Lines:
//! `x NAME text` must be the same in every build, `t NAME tolerance v...` may
//! differ by the tolerance, `r N` counts recorded trace spans.
use mapping_algorithms::kd_tree::KDTree;
use mapping_algorithms::lines::plot_bresenham_line;
use mapping_algorithms::point_clouds::*;
use mapping_algorithms::polygons::*;
use mapping_algorithms::{geo, types::IsNan};
use nalgebra::{Isometry2, Isometry3, Point2, Point3, Translation3, UnitQuaternion, Vector2, Vector3};

#[cfg(feature = "tracing")]
mod spans {
    use std::sync::atomic::{AtomicU64, Ordering::*};
    use tracing_core::{span, Dispatch, Event, Interest, Metadata, Subscriber};
    pub static OPENED: AtomicU64 = AtomicU64::new(0);
    pub static DEPTH: AtomicU64 = AtomicU64::new(0);
    pub struct All;
    impl Subscriber for All {
        fn register_callsite(&self, _: &'static Metadata<'static>) -> Interest {
            Interest::always()
        }
        fn enabled(&self, _: &Metadata<'_>) -> bool {
            true
        }
        fn new_span(&self, _: &span::Attributes<'_>) -> span::Id {
            span::Id::from_u64(OPENED.fetch_add(1, Relaxed) + 1)
        }
        fn record(&self, _: &span::Id, _: &span::Record<'_>) {}
        fn record_follows_from(&self, _: &span::Id, _: &span::Id) {}
        fn event(&self, _: &Event<'_>) {}
        fn enter(&self, _: &span::Id) {
            DEPTH.fetch_add(1, Relaxed);
        }
        fn exit(&self, _: &span::Id) {
            DEPTH.fetch_sub(1, Relaxed);
        }
    }
    pub fn install() {
        let _ = tracing_core::dispatcher::set_global_default(Dispatch::new(All));
    }
}

struct Rng(u64);
impl Rng {
    fn u64(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    fn int(&mut self, lo: i64, hi: i64) -> i64 {
        lo + (self.u64() % (hi - lo + 1) as u64) as i64
    }
    /// A multiple of 1/64 in -a..=a.
    fn dy(&mut self, a: i64) -> f64 {
        self.int(-64 * a, 64 * a) as f64 / 64.0
    }
}

macro_rules! workload {
    ($r:expr, $t:ident, $tol:expr, $prec:ident, $max:expr) => {{
        let r: &mut Rng = $r;
        let n = r.int(0, $max) as usize;
        let p3: Vec<Point3<$t>> = (0..n).map(|_| Point3::new(r.dy(9) as $t, r.dy(9) as $t, r.dy(9) as $t)).collect();
        let p2: Vec<Point2<$t>> = (0..n).map(|_| Point2::new(r.int(-12, 12) as $t, r.int(-12, 12) as $t)).collect();
        let q3: Vec<Point3<$t>> = (0..10).map(|_| Point3::new(r.dy(9) as $t, r.dy(9) as $t, r.dy(9) as $t)).collect();
        let ty = stringify!($t);
        // tree and scan: distances are exact, so the answers' distances agree
        let t = KDTree::from(p3.as_slice());
        let d: Vec<_> = q3.iter().map(|q| t.nearest(q).map(|p| (p - q).norm_squared())).collect();
        println!("x tree {ty} {} {d:?}", t.len());
        let d: Vec<_> = q3.iter().map(|q| find_nearest_neighbour_naive(q, &p3).map(|p| (p - q).norm_squared())).collect();
        println!("x scan {ty} {d:?}");
        println!("x sort {ty} {:?}", lex_sort(&p3));
        let vox = [0.5, 1.0, 4.0][r.int(0, 2) as usize] as $t;
        let mut v: Vec<String> = downsample_point_cloud_voxel::<$t, $t, 3>(&p3, vox).iter().map(|p| format!("{p:?}")).collect();
        v.sort();
        println!("x voxels {ty} {vox} {v:?}");
        println!("x centre {ty} {:?}", calculate_point_cloud_center(&p3));
        let g = generate_point_cloud::<$t, 3>(n, [-1.0..=1.0, 0.0..=5.0, 3.0..=4.0]);
        println!("x generate {ty} {} {}", g.len(), g.iter().all(|p| (-1.0..=1.0).contains(&p.x) && (0.0..=5.0).contains(&p.y) && (3.0..=4.0).contains(&p.z)));
        println!("x hull {ty} {:?} {:?}", graham_scan::<$t, $t>(&p2, false, None), jarvis_march::<$t, $t>(&p2, None).map(|h| h.len()));
        println!("x hull by voxels {ty} {:?}", {
            let mut h = graham_scan::<$t, $t>(&p2, true, Some(0.5)).map(|h| h.iter().map(|p| (p.x as i64, p.y as i64)).collect::<Vec<_>>());
            if let Some(h) = &mut h {
                h.sort();
            }
            h
        });
        let q2: Vec<Point2<$t>> = (0..12).map(|_| Point2::new(r.dy(13) as $t, r.dy(13) as $t)).collect();
        println!("x polygon {ty} {:?}", are_multiple_points_in_polygon(&q2, &p2));
        println!("x extents {ty} {:?}", calculate_polygon_extents(&p2));
        let (a, b) = (Point3::new(r.int(-50, 50) as $t, r.int(-50, 50) as $t, 0.0), Point3::new(r.int(-50, 50) as $t, r.int(-50, 50) as $t, r.int(-9, 9) as $t));
        println!("x line {ty} {:?}", plot_bresenham_line::<$t, i32, 3>(a, b));
        println!("x nan {ty} {} {} {}", (<$t>::NAN).is_nan(), IsNan::is_nan(0 as $t), IsNan::is_nan(7u8));
        // transcendental functions may differ by rounding
        let m = [0, 1].map(|_| Point2::new(r.dy(80) as $t, r.dy(170) as $t));
        // (worse by as much as the sphere amplifies it near the antipode)
        let d = geo::calculate_haversine_distance(m[0], m[1], 1.0) as f64;
        println!("t distance {ty} {:e} {:e}", $tol * 16.0 * (1.0 + 1.0 / (d / 2.0).cos().max(1e-4)), d);
        if (m[0] - m[1]).norm() > 1.0 && d.sin() > 1e-2 {
            println!("t bearing {ty} {:e} {:e}", $tol * 800.0 / d.sin(), geo::calculate_sphere_bearing(m[0], m[1]));
        }
        let iso = Isometry3::from_parts(Translation3::new(0.5 as $t, -1.0, 2.0), UnitQuaternion::new(Vector3::new(0.1 as $t, 0.2, r.dy(1) as $t)));
        for p in transform_point_cloud(&p3[..n.min(3)], iso) {
            println!("t transform {ty} {:e} {:e} {:e} {:e}", $tol * 64.0, p.x, p.y, p.z);
        }
        // registration: spread points, small displacement, far from any threshold
        let a2: Vec<Point2<$t>> = (0..if $max < 60 { 8 } else { 24 }).map(|i| Point2::new((i % 6 * 5) as $t + r.dy(1) as $t, (i / 6 * 5) as $t + r.dy(1) as $t)).collect();
        let iso2 = Isometry2::new(Vector2::new(r.dy(1) as $t * 0.3, r.dy(1) as $t * 0.3), 0.01);
        let b2 = transform_point_cloud(&a2, iso2);
        let a3: Vec<Point3<$t>> = a2.iter().enumerate().map(|(i, p)| Point3::new(p.x, p.y, ((i * 7) % 5 * 5) as $t)).collect();
        let iso3 = Isometry3::from_parts(Translation3::new(0.25 as $t, -0.125, 0.25), UnitQuaternion::new(Vector3::new(0.01 as $t, -0.01, 0.005)));
        let b3 = transform_point_cloud(&a3, iso3);
        for kd in [false, true] {
            let cfg = ICPConfiguration::builder().with_kd_tree(kd).with_max_iterations(if $max < 60 { 2 } else { 20 }).with_absolute_mse_threshold(Some(1e-4)).build();
            let s2 = icp(&a2, &b2, cfg.clone());
            println!("x icp 2d {ty} {kd} {:?}", s2.is_ok());
            if let Ok(s) = s2 {
                println!("t icp 2d {ty} {:e} {:e} {:e} {:e}", 0.02, s.transform.translation.x, s.transform.translation.y, s.transform.rotation.angle());
            }
            let s3 = icp(&a3, &b3, cfg);
            println!("x icp 3d {ty} {kd} {:?}", s3.is_ok());
            if let Ok(s) = s3 {
                let v = s.transform.rotation.scaled_axis();
                println!("t icp 3d {ty} {:e} {:e} {:e} {:e} {:e}", 0.02, s.transform.translation.x, s.transform.translation.z, v.x, v.z);
            }
            let e = icp(&a2[..0], &b2, ICPConfiguration::builder().build()).err();
            let f = icp(&a2, &b2, ICPConfiguration::builder().with_max_iterations(0).build()).err();
            println!("x icp errors {ty} {e:?} {f:?}");
        }
        // nothing, one, two
        for k in 0..3usize.min(n) {
            let (s2, s3) = (&p2[..k], &p3[..k]);
            println!("x few {ty} {k} {:?} {:?} {:?}", is_single_point_in_polygon(&q2[0], s2), are_multiple_points_in_polygon(&q2, s2), are_multiple_points_in_polygon(s2, &q2));
            println!("x few {ty} {k} {:?} {:?} {:?}", calculate_polygon_extents(s3), calculate_point_cloud_center(s3), lex_sort(s3));
            println!("x few {ty} {k} {:?} {:?} {:?}", graham_scan::<$t, $t>(s2, false, None), jarvis_march::<$t, $t>(s2, Some(1.0)), graham_scan::<$t, $t>(s2, true, Some(1.0)));
            println!("x few {ty} {k} {:?} {:?} {:?}", lex_sort_ref(s2), lex_sort_in_place(&mut s3.to_vec()), find_nearest_neighbour_naive(&q3[0], s3));
            let t = KDTree::from(s3);
            println!("x few {ty} {k} {} {} {:?}", t.len(), t.is_empty(), t.nearest(&q3[0]));
            println!("x few {ty} {k} {} {}", downsample_point_cloud_voxel::<$t, $t, 3>(s3, 1.0).len(), transform_point_cloud(s2, Isometry2::<$t>::identity()).len());
            println!("x few {ty} {k} {:?}", plot_bresenham_line::<$t, i32, 2>(q2[k], q2[k]).len());
            let (e, f) = (icp(s2, &q2, ICPConfiguration::builder().build()).err(), icp(&q2, s2, ICPConfiguration::builder().with_kd_tree(true).build()).err());
            println!("x few {ty} {k} {:?} {:?}", e.filter(|_| k == 0), f.filter(|_| k == 0));
        }
        #[cfg(feature = "pregenerated")]
        {
            use mapping_algorithms as m;
            let same = m::polygons::$prec::are_multiple_points_in_polygon(&q2, &p2) == are_multiple_points_in_polygon(&q2, &p2)
                && m::lines::$prec::plot_3d_i32_bresenham_line(a, b) == plot_bresenham_line::<$t, i32, 3>(a, b)
                && m::geo::$prec::calculate_haversine_distance(q2[0], q2[1], 1.0).to_bits() == geo::calculate_haversine_distance(q2[0], q2[1], 1.0).to_bits()
                && format!("{:?}", m::point_clouds::$prec::icp_2d(&a2, &b2, ICPConfiguration::builder().build())) == format!("{:?}", icp(&a2, &b2, ICPConfiguration::builder().build()));
            println!("p {same}");
        }
    }};
}

/// One tree, clouds and a polygon used by several threads at once.
fn shared(r: &mut Rng) {
    use std::sync::Arc;
    let p3: Arc<Vec<Point3<f64>>> = Arc::new((0..14).map(|_| Point3::new(r.dy(9), r.dy(9), r.dy(9))).collect());
    let p2: Arc<Vec<Point2<f64>>> = Arc::new((0..14).map(|_| Point2::new(r.dy(9), r.dy(9))).collect());
    let tree = Arc::new(KDTree::from(p3.as_slice()));
    let hs: Vec<_> = (0..3u64)
        .map(|k| {
            let (p3, p2, tree) = (p3.clone(), p2.clone(), tree.clone());
            std::thread::spawn(move || {
                let mut out = vec![];
                for step in 0..9 {
                    out.push(match (step + 3 * k) % 9 {
                        0 => format!("{:?}", p3.iter().map(|p| tree.nearest(p)).collect::<Vec<_>>()),
                        1 => format!("{:?}", graham_scan::<f64, f64>(&p2, false, None)),
                        2 => format!("{:?}", jarvis_march::<f64, f64>(&p2, None)),
                        3 => format!("{:?}", are_multiple_points_in_polygon(&p2, &p2[..9])),
                        4 => format!("{:?} {:?}", calculate_polygon_extents(&p3), calculate_point_cloud_center(&p3)),
                        5 => format!("{:?}", lex_sort(&p3)),
                        6 => format!("{:?}", downsample_point_cloud_voxel::<f64, f64, 3>(&p3, 0.001).len()),
                        7 => format!("{:?}", icp(&p2, &p2, ICPConfiguration::builder().with_kd_tree(true).with_max_iterations(2).build()).is_ok()),
                        _ => {
                            let mut t = (*tree).clone();
                            t.insert(Point3::new(50.0, 50.0, 50.0));
                            let mut m = 0;
                            t.traverse_tree(|_| m += 1);
                            format!("{m} {:?} {:?}", plot_bresenham_line::<f64, i64, 2>(p2[0], p2[1]), geo::calculate_haversine_distance(p2[0], p2[1], 1.0) > 0.0)
                        }
                    });
                }
                out.rotate_right((3 * k % 9) as usize);
                out
            })
        })
        .collect();
    let v: Vec<Vec<String>> = hs.into_iter().map(|h| h.join().unwrap()).collect();
    println!("x shared {}", v[0] == v[1] && v[1] == v[2]);
}

fn main() {
    #[cfg(feature = "tracing")]
    spans::install();
    let a: Vec<u64> = std::env::args().skip(1).map(|x| x.parse().unwrap()).collect();
    let mut r = Rng(a[0]);
    let max = a.get(2).map_or(60, |m| *m as i64);
    for _ in 0..a[1] {
        workload!(&mut r, f32, f32::EPSILON as f64, single_precision, max);
        workload!(&mut r, f64, f64::EPSILON, double_precision, max);
    }
    if a.len() > 3 {
        shared(&mut r);
    }
    #[cfg(feature = "tracing")]
    {
        use std::sync::atomic::Ordering::*;
        println!("r {} {}", spans::OPENED.load(Relaxed), spans::DEPTH.load(Relaxed));
    }
}
