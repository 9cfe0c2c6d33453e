//! Search tree and linear nearest neighbour.
use mon::num::*;
use mon::rt::*;
use mon::{bad, dispatch, ensure};
use mapping_algorithms::kd_tree::KDTree;
use mapping_algorithms::point_clouds::find_nearest_neighbour_naive;
use nalgebra::Point;
use std::cell::Cell;
use std::collections::{BTreeMap, HashSet};

/// The distinct points of a list, first occurrence kept.
struct Model<T: Fl, const N: usize> {
    keys: BTreeMap<[u64; N], usize>,
    pts: Vec<Point<T, N>>,
}
impl<T: Fl, const N: usize> Clone for Model<T, N> {
    fn clone(&self) -> Self {
        Model { keys: self.keys.clone(), pts: self.pts.clone() }
    }
}
impl<T: Fl, const N: usize> Model<T, N> {
    fn new() -> Self {
        Model { keys: BTreeMap::new(), pts: vec![] }
    }
    fn insert(&mut self, p: Point<T, N>) -> bool {
        let n = self.pts.len();
        if self.keys.contains_key(&key(&p)) {
            return false;
        }
        self.keys.insert(key(&p), n);
        self.pts.push(p);
        true
    }
}

fn clamp_n(r: &mut mon::rng::Rng, max: usize) -> usize {
    r.giant().map_or_else(|| r.size(max), |n| n.min(100_000))
}

/// Large clouds in random order: the depth of the tree is a finding of C37.
fn keep_shallow<T: Fl, const N: usize>(r: &mut mon::rng::Rng, c: &mut Cloud<T, N>) {
    if c.pts.len() > 6000 {
        r.shuffle(&mut c.pts);
    }
}

// ------------------------------------------------------------ C01 nearest
fn nearest<T: Fl, const N: usize>(c: &mut Case) -> Out {
    let big = if c.tier == Tier::Thorough { 6000 } else { 1500 };
    let n = clamp_n(&mut c.rng, big);
    let mut cl = cloud::<T, N>(&mut c.rng, n);
    if c.rng.chance(1, 6) {
        cl = rescaled(&mut c.rng, cl);
    }
    keep_shallow(&mut c.rng, &mut cl);
    c.note(|| show(&cl.pts));
    c.sample(|| format!("{} {}", cl.family, show(&cl.pts)));
    let bulk = c.rng.chance(1, 2);
    let mut tree: KDTree<T, N> = KDTree::default();
    let mut fed: Vec<Point<T, N>> = vec![];
    if bulk {
        tree = c.call("KDTree::from", || KDTree::from(cl.pts.as_slice()))?;
        fed = cl.pts.clone();
    }
    let mut todo: &[Point<T, N>] = if bulk { &[] } else { &cl.pts };
    let mut rounds = 0;
    loop {
        // a query burst, then (when incremental) another batch of insertions
        let q_n = 1 + c.rng.usize(8);
        for _ in 0..q_n {
            let (q, ex) = query(&mut c.rng, &cl);
            let got = c.call("KDTree::nearest", || tree.nearest(&q))?;
            c.ev("queries", 1);
            match (&got, fed.is_empty()) {
                (None, true) => c.ev("empty-tree queries", 1),
                (None, false) => bad!("no answer for {:?} from a tree of {} points", arr(&q), fed.len()),
                (Some(p), true) => bad!("an empty tree answered {:?}", arr(p)),
                (Some(p), false) => {
                    if let Err(m) = check_nearest(&q, &fed, p, ex && cl.exact) {
                        bad!("{} tree over {} ({} points): {m}", if bulk { "bulk-built" } else { "grown" }, cl.family, fed.len());
                    }
                    if key(p) == key(&q) {
                        c.ev("exact hits", 1);
                    }
                    if cl.exact && ex {
                        c.ev("judged exactly", 1);
                    }
                }
            }
        }
        rounds += 1;
        if todo.is_empty() {
            if rounds > 3 {
                break;
            }
            continue;
        }
        let k = (1 + c.rng.usize(1 + todo.len() / 2)).min(todo.len());
        for p in &todo[..k] {
            c.call("KDTree::insert", || tree.insert(*p))?;
            fed.push(*p);
            c.ev("insertions", 1);
        }
        todo = &todo[k..];
    }
    if n >= 3 {
        c.nontrivial(hash_pts(&cl.pts));
    }
    Ok(())
}
fn c01(c: &mut Case) -> Out {
    dispatch!(c, nearest, [1, 2, 3, 4, 5])
}

// ----------------------------------------------------------- C02 contents
fn contents<T: Fl, const N: usize>(c: &mut Case) -> Out {
    let n = clamp_n(&mut c.rng, 800);
    let mut cl = if c.rng.chance(1, 4) { wild_cloud::<T, N>(&mut c.rng, n) } else { cloud::<T, N>(&mut c.rng, n) };
    keep_shallow(&mut c.rng, &mut cl);
    // re-feed some points, in random positions, so duplicates come early, late,
    // on leaves and on inner nodes
    let extra = c.rng.usize(1 + (n / 2).min(3000));
    for _ in 0..extra {
        if cl.pts.is_empty() {
            break;
        }
        let p = *c.rng.pick(&cl.pts);
        let at = c.rng.usize(cl.pts.len() + 1);
        cl.pts.insert(at, p);
    }
    c.note(|| show(&cl.pts));
    c.sample(|| format!("{} {}", cl.family, show(&cl.pts)));
    let start = c.rng.usize(cl.pts.len() + 1);
    let start = if c.rng.chance(1, 3) { 0 } else { start };
    let mut model = Model::<T, N>::new();
    let mut tree: KDTree<T, N> = if start == 0 && c.rng.chance(1, 2) {
        KDTree::default()
    } else {
        c.call("KDTree::from", || KDTree::from(&cl.pts[..start]))?
    };
    for p in &cl.pts[..start] {
        if !model.insert(*p) {
            c.ev("duplicates fed", 1);
        }
    }
    verify(c, &tree, &model)?;
    let mut frozen: Option<(KDTree<T, N>, Model<T, N>)> = None;
    let mut i = start;
    while i < cl.pts.len() {
        let k = (1 + c.rng.usize(12.max(n / 40))).min(cl.pts.len() - i);
        for p in &cl.pts[i..i + k] {
            let before = tree.len();
            c.call("KDTree::insert", || tree.insert(*p))?;
            let new = model.insert(*p);
            c.ev(if new { "new points inserted" } else { "duplicates fed" }, 1);
            ensure!(
                tree.len() == before + new as usize,
                "inserting {} point {:?} took the count from {} to {}",
                if new { "a new" } else { "an already stored" },
                arr(p),
                before,
                tree.len()
            );
        }
        i += k;
        if c.rng.chance(1, 4) {
            verify(c, &tree, &model)?;
        }
        if frozen.is_none() && c.rng.chance(1, 6) {
            frozen = Some((c.call("clone", || tree.clone())?, model.clone()));
        }
    }
    verify(c, &tree, &model)?;
    if let Some((t, m)) = frozen {
        c.ev("clones checked", 1);
        verify(c, &t, &m)?;
    }
    if n >= 3 {
        c.nontrivial(hash_pts(&cl.pts));
    }
    Ok(())
}
fn verify<T: Fl, const N: usize>(c: &mut Case, tree: &KDTree<T, N>, m: &Model<T, N>) -> Out {
    ensure!(
        tree.len() == m.pts.len(),
        "the tree counts {} elements, {} distinct points were inserted",
        tree.len(),
        m.pts.len()
    );
    ensure!(tree.is_empty() == m.pts.is_empty(), "is_empty() = {} with {} points", tree.is_empty(), m.pts.len());
    let mut seen: BTreeMap<[u64; N], usize> = BTreeMap::new();
    c.call("traverse_tree", || tree.traverse_tree(|p| *seen.entry(key(p)).or_default() += 1))?;
    c.ev("traversals", 1);
    for (k, v) in &seen {
        let x: [f64; N] = std::array::from_fn(|i| if T::EPS > 1e-10 { f32::from_bits(k[i] as u32) as f64 } else { f64::from_bits(k[i]) });
        ensure!(m.keys.contains_key(k), "traversal produced {x:?}, never inserted");
        ensure!(*v == 1, "traversal visited {x:?} {v} times");
    }
    ensure!(seen.len() == m.pts.len(), "traversal visited {} of {} points", seen.len(), m.pts.len());
    c.ev("points visited", seen.len() as u64);
    Ok(())
}
fn c02(c: &mut Case) -> Out {
    dispatch!(c, contents, [1, 2, 3, 4])
}

// --------------------------------------------------------------- C03 cost
thread_local! {
    static SUBS: Cell<u64> = const { Cell::new(0) };
    static CMPS: Cell<u64> = const { Cell::new(0) };
}
/// f64 that counts the subtractions and comparisons done with it.
#[derive(Clone, Copy, Debug, Default)]
struct Cnt(f64);
impl PartialEq for Cnt {
    fn eq(&self, o: &Self) -> bool {
        self.0 == o.0
    }
}
impl PartialOrd for Cnt {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        CMPS.with(|c| c.set(c.get() + 1));
        self.0.partial_cmp(&o.0)
    }
}
impl std::ops::Sub for Cnt {
    type Output = Cnt;
    fn sub(self, o: Cnt) -> Cnt {
        SUBS.with(|c| c.set(c.get() + 1));
        Cnt(self.0 - o.0)
    }
}
macro_rules! op {
    ($t:ident, $f:ident, $o:tt) => {
        impl std::ops::$t for Cnt {
            type Output = Cnt;
            fn $f(self, o: Cnt) -> Cnt {
                Cnt(self.0 $o o.0)
            }
        }
    };
}
op!(Add, add, +);
op!(Mul, mul, *);
op!(Div, div, /);
op!(Rem, rem, %);
impl num_traits::Zero for Cnt {
    fn zero() -> Self {
        Cnt(0.0)
    }
    fn is_zero(&self) -> bool {
        self.0 == 0.0
    }
}

fn cost<const N: usize>(c: &mut Case) -> Out {
    let scale = 10f64.powi(c.rng.int(-2, 4) as i32);
    let sizes: &[usize] = if c.tier == Tier::Thorough { &[2000, 8000, 32000] } else { &[2000, 8000] };
    let dist = c.rng.below(3);
    let off = c.rng.sym(100.0) * scale;
    let gen = |r: &mut mon::rng::Rng| -> Point<Cnt, N> {
        Point::from(std::array::from_fn::<Cnt, N, _>(|_| {
            Cnt(off + scale * match dist {
                0 => r.sym(1.0),
                1 => r.gauss() * 0.4,
                _ => (r.unit() + r.unit()) - 1.0,
            })
        }))
    };
    for &n in sizes {
        let pts: Vec<Point<Cnt, N>> = (0..n).map(|_| gen(&mut c.rng)).collect();
        CMPS.with(|x| x.set(0));
        let tree = c.call("KDTree::from", || KDTree::from(pts.as_slice()))?;
        let cmps = CMPS.with(|x| x.get());
        c.ev("comparisons in builds", cmps);
        // A random insertion order gives a depth of a few log n.
        let per_insert = cmps as f64 / n as f64;
        ensure!(
            per_insert < 8.0 * (n as f64).log2(),
            "building from {n} randomly ordered {N}D points took {per_insert:.0} comparisons per point"
        );
        let qn = 64;
        let mut total = 0;
        for _ in 0..qn {
            let q = gen(&mut c.rng);
            SUBS.with(|x| x.set(0));
            let got = c.call("KDTree::nearest", || tree.nearest(&q))?;
            total += SUBS.with(|x| x.get());
            // the answer must still be right
            let Some(got) = got else { bad!("no answer from a tree of {n} points") };
            let d = |p: &Point<Cnt, N>| -> f64 { (0..N).map(|i| (p[i].0 - q[i].0).powi(2)).sum() };
            let best = pts.iter().map(|p| d(p)).fold(f64::MAX, f64::min);
            ensure!(d(&got) <= best * (1.0 + 1e-12), "nearest over {n} points returned distance {} instead of {best}", d(&got));
        }
        let per = total as f64 / qn as f64;
        let linear = (n * N) as f64;
        c.ev("subtractions in queries", total);
        c.ev("queries", qn);
        c.ev("linear-scan subtractions for the same queries", (linear as u64) * qn);
        ensure!(
            per < linear / 2.5,
            "a query over {n} random {N}D points cost {per:.0} coordinate subtractions on average; scanning every point costs {linear:.0}"
        );
    }
    c.sample(|| format!("N={N} scale={scale} distribution={dist}"));
    c.nontrivial(c.idx);
    Ok(())
}
fn c03(c: &mut Case) -> Out {
    match c.rng.below(2) {
        0 => cost::<2>(c),
        _ if c.rng.chance(1, 6) => cost::<1>(c),
        _ => cost::<3>(c),
    }
}

// -------------------------------------------------------- C04 traverse_mut
fn mutate<T: Fl, const N: usize>(c: &mut Case) -> Out {
    let n = clamp_n(&mut c.rng, 400);
    let fams = [2u64, 5, 6, 7, 8, 12, 0, 4, 13];
    let fam = *c.rng.pick(&fams);
    let mut cl = cloud_of::<T, N>(&mut c.rng, n, fam);
    keep_shallow(&mut c.rng, &mut cl);
    c.note(|| show(&cl.pts));
    let mut tree = c.call("KDTree::from", || KDTree::from(cl.pts.as_slice()))?;
    let mut model = Model::<T, N>::new();
    for p in &cl.pts {
        model.insert(*p);
    }
    let mut cur: Vec<Point<T, N>> = model.pts.clone();
    let steps = 1 + c.rng.usize(4);
    for _ in 0..steps {
        // order-preserving on every axis, and exact on the exact families
        let scale = if cl.exact { 1.0 } else { *c.rng.pick(&[1.0, 2.0, 0.5, 4.0]) };
        let shift: [f64; N] = std::array::from_fn(|_| if cl.exact && cl.family != "dyadic" { c.rng.int(-8, 8) as f64 } else { 0.0 });
        // zeros change sign with the rest, which keeps their order
        let flip = c.rng.chance(1, 4);
        let f = |p: &Point<T, N>| -> Point<T, N> {
            pt(std::array::from_fn(|i| {
                let v = p[i].f() * scale + shift[i];
                if v == 0.0 && flip { -v } else { v }
            }))
        };
        let mut visited: Vec<Point<T, N>> = vec![];
        c.call("traverse_tree_mut", || {
            tree.traverse_tree_mut(|p| {
                visited.push(*p);
                *p = f(p);
            })
        })?;
        c.ev("mutating traversals", 1);
        c.ev("points rewritten", visited.len() as u64);
        let mut a: Vec<[u64; N]> = visited.iter().map(key).collect();
        let mut b: Vec<[u64; N]> = cur.iter().map(key).collect();
        a.sort();
        b.sort();
        ensure!(a == b, "a mutating traversal visited {} points, not each of the {} stored points once", a.len(), b.len());
        cur = cur.iter().map(f).collect();
        let mut seen = vec![];
        c.call("traverse_tree", || tree.traverse_tree(|p| seen.push(key(p))))?;
        let mut bits_seen: Vec<[u64; N]> = vec![];
        tree.traverse_tree(|p| bits_seen.push(std::array::from_fn(|i| p[i].bits())));
        let left: HashSet<[u64; N]> = visited.iter().map(|p| { let q = f(p); std::array::from_fn(|i| q[i].bits()) }).collect();
        ensure!(bits_seen.iter().all(|k| left.contains(k)), "the tree does not hold, bit for bit, what the visitor left");
        let mut b: Vec<[u64; N]> = cur.iter().map(key).collect();
        seen.sort();
        b.sort();
        ensure!(seen == b, "after the rewrite the tree does not hold exactly the rewritten points");
        ensure!(tree.len() == cur.len(), "rewriting changed the count to {} from {}", tree.len(), cur.len());
        let moved = Cloud { pts: cur.clone(), exact: cl.exact, family: cl.family };
        for _ in 0..6 {
            let (q, ex) = query(&mut c.rng, &moved);
            let got = c.call("KDTree::nearest", || tree.nearest(&q))?;
            c.ev("queries after rewrite", 1);
            match got {
                None => ensure!(cur.is_empty(), "no answer from {} rewritten points", cur.len()),
                Some(p) => {
                    if let Err(m) = check_nearest(&q, &cur, &p, ex && cl.exact) {
                        bad!("after an order-preserving rewrite: {m}");
                    }
                }
            }
        }
        // the tree stays usable for growth
        if c.rng.chance(1, 2) && !cur.is_empty() {
            let b = arr(c.rng.pick(&cur));
            let p: Point<T, N> = pt(std::array::from_fn(|i| if c.rng.chance(1, 2) { b[i] } else { b[i] + 1.0 }));
            let fresh = !cur.iter().any(|q| key(q) == key(&p));
            c.call("KDTree::insert", || tree.insert(p))?;
            if fresh {
                cur.push(p);
            }
            ensure!(tree.len() == cur.len(), "insert after rewrite: count {} for {} distinct points", tree.len(), cur.len());
        }
    }
    c.sample(|| format!("{} {}", cl.family, show(&cl.pts)));
    if n >= 3 {
        c.nontrivial(hash_pts(&cl.pts));
    }
    Ok(())
}
fn c04(c: &mut Case) -> Out {
    dispatch!(c, mutate, [1, 2, 3])
}

// --------------------------------------------------------------- C05 naive
fn naive<T: Fl, const N: usize>(c: &mut Case) -> Out {
    let n = c.rng.vast(3000);
    let mut cl = cloud::<T, N>(&mut c.rng, n);
    if c.rng.chance(1, 6) {
        cl = rescaled(&mut c.rng, cl);
    }
    c.note(|| show(&cl.pts));
    c.sample(|| format!("{} {}", cl.family, show(&cl.pts)));
    for _ in 0..6 {
        let (q, ex) = query(&mut c.rng, &cl);
        let got = c.call("find_nearest_neighbour_naive", || find_nearest_neighbour_naive(&q, &cl.pts))?;
        c.ev("queries", 1);
        match got {
            None => ensure!(cl.pts.is_empty(), "no answer among {} points", n),
            Some(p) => {
                ensure!(!cl.pts.is_empty(), "answered {:?} from no points", arr(&p));
                if let Err(m) = check_nearest(&q, &cl.pts, &p, ex && cl.exact) {
                    bad!("{} ({n} points): {m}", cl.family);
                }
            }
        }
        // position independence: moving the winner around keeps the distance
        if n > 1 {
            let mut sh = cl.pts.clone();
            c.rng.shuffle(&mut sh);
            let g2 = c.call("find_nearest_neighbour_naive", || find_nearest_neighbour_naive(&q, &sh))?;
            if let Some(p) = g2 {
                if let Err(m) = check_nearest(&q, &sh, &p, ex && cl.exact) {
                    bad!("shuffled {} ({n} points): {m}", cl.family);
                }
            }
            c.ev("shuffled queries", 1);
        }
    }
    if n >= 2 {
        c.nontrivial(hash_pts(&cl.pts));
    }
    Ok(())
}
/// Integer points: exact by nature.
fn naive_int(c: &mut Case) -> Out {
    let n = c.rng.size(400);
    let k = *c.rng.pick(&[3i64, 50, 4000]);
    let pts: Vec<Point<i32, 3>> = (0..n).map(|_| Point::from(std::array::from_fn::<i32, 3, _>(|_| c.rng.int(-k, k) as i32))).collect();
    c.note(|| format!("{pts:?}"));
    let q: Point<i32, 3> = Point::from(std::array::from_fn::<i32, 3, _>(|_| c.rng.int(-k, k) as i32));
    let got = c.call("find_nearest_neighbour_naive", || find_nearest_neighbour_naive(&q, &pts))?;
    let tree = c.call("KDTree::from", || KDTree::from(pts.as_slice()))?;
    let kd = c.call("KDTree::nearest", || tree.nearest(&q))?;
    let d = |p: &Point<i32, 3>| (0..3).map(|i| (p[i] as i64 - q[i] as i64).pow(2)).sum::<i64>();
    let best = pts.iter().map(d).min();
    ensure!(got.as_ref().map(d) == best, "i32 linear scan: distance {:?}, minimum {best:?}", got.as_ref().map(d));
    ensure!(kd.as_ref().map(d) == best, "i32 tree: distance {:?}, minimum {best:?}", kd.as_ref().map(d));
    if let Some(g) = got {
        ensure!(pts.contains(&g), "{g:?} is not one of the points");
    }
    c.ev("integer queries", 1);
    Ok(())
}
fn c05(c: &mut Case) -> Out {
    if c.rng.chance(1, 10) {
        return naive_int(c);
    }
    dispatch!(c, naive, [1, 2, 3, 4, 6])
}

fn props() -> Vec<Prop> {
    vec![
        Prop { id: "C01", rule: "seeded clouds from 13 families (uniform, tiny grids with ties, dyadic, repeated, sorted, collinear, flat, clusters, decades, offset, signed zeros, shells), f32/f64 x 1-5 dimensions, tree bulk-built or grown with query bursts between insertions; every answer judged against a scan of what was inserted (exact integers on exact families). Non-trivial: at least 3 points.", quick: 200_000, thorough: 5_000_000, run: c01, min_nontrivial: 3000, assumptions: &["finite coordinates whose squared distances neither overflow nor underflow"], ..Prop::BASE },
        Prop { id: "C02", rule: "seeded insertion histories with duplicates at random positions, bulk prefix plus single insertions, clones taken midway; element count checked after every insertion, full traversal against the set model at random quiescent points. Non-trivial: at least 3 points.", quick: 300_000, thorough: 7_000_000, run: c02, min_nontrivial: 2000, assumptions: &["finite coordinates; 0.0 and -0.0 are the same coordinate"], ..Prop::BASE },
        Prop { id: "C03", rule: "KD trees over an operation-counting scalar: 2000/8000(/32000) randomly ordered 2D and 3D points, 64 queries per size; subtractions per query and comparisons per insertion counted inside the real code. Every case is non-trivial.", quick: 2_000, thorough: 40_000, run: c03, min_nontrivial: 15, assumptions: &["random insertion order and queries drawn from the same distribution"], ..Prop::BASE },
        Prop { id: "C04", rule: "trees rewritten in place by order-preserving maps (translations, positive scalings), up to 4 times with queries and insertions between; visit multiset, stored multiset, count and nearest answers checked. Non-trivial: at least 3 points.", quick: 500_000, thorough: 10_000_000, run: c04, min_nontrivial: 3000, assumptions: &["the rewrite preserves the order of coordinates on each axis"], ..Prop::BASE },
        Prop { id: "C05", rule: "linear-scan queries over the same families as C01, in original and shuffled order, f32/f64 x 1-6 dimensions and i32; judged against an independent exact scan. Non-trivial: at least 2 points.", quick: 500_000, thorough: 10_000_000, run: c05, min_nontrivial: 4000, assumptions: &["finite coordinates whose squared distances neither overflow nor underflow"], ..Prop::BASE },
    ]
}

fn main() {
    mon::cli::main(props());
}
