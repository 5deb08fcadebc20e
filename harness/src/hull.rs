//! C01 (geometry of convex hulls) and C02 (their combinatorics).
use crate::ctx::Ctx;
use crate::gen;
use crate::geom::*;
use nalgebra::{Const, SVector};
use qhull_rs::{ConvexHull, RawHull};
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::hash::{Hash, Hasher};

#[derive(Clone, PartialEq, Debug)]
pub struct FacetView {
    pub v: Vec<usize>,
    pub nb: Vec<usize>,
    pub normal: Vec<f64>,
    pub offset: f64,
}

#[derive(Clone, PartialEq, Debug)]
pub struct HullView {
    pub n: usize,
    pub verts: Vec<Vec<f64>>,
    pub facets: Vec<FacetView>,
    /// inconsistencies of the handles (index(), ==, Hash) found while building the view
    pub handle_errors: Vec<String>,
}

fn hash_of<T: Hash>(t: &T) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

macro_rules! view {
    ($hull:expr, $n:expr) => {{
        let hull = &$hull;
        let mut errs: Vec<String> = vec![];
        let vs: Vec<_> = hull.vertices().collect();
        if hull.vertices().len() != vs.len() {
            errs.push("vertices().len() is wrong".into());
        }
        for (i, v) in vs.iter().enumerate() {
            if v.index() != i {
                errs.push(format!("vertex {i} reports index {}", v.index()));
            }
        }
        let fs: Vec<_> = hull.facets().collect();
        if hull.facets().len() != fs.len() {
            errs.push("facets().len() is wrong".into());
        }
        for (i, f) in fs.iter().enumerate() {
            if f.index() != i {
                errs.push(format!("facet {i} reports index {}", f.index()));
            }
            if f.vertices().len() != $n || f.neighbors().len() != $n {
                errs.push(format!(
                    "facet {i} reports {} vertices and {} neighbours",
                    f.vertices().len(), f.neighbors().len()
                ));
            }
            for v in f.vertices() {
                match vs.get(v.index()) {
                    None => errs.push(format!("facet {i} has vertex index {} out of range", v.index())),
                    Some(w) => {
                        if v != *w || hash_of(&v) != hash_of(w) {
                            errs.push("vertex handles with the same index differ".into())
                        }
                        if v.point() != w.point() {
                            errs.push("point() of two handles to one vertex differ".into())
                        }
                        let other = &vs[(v.index() + 1) % vs.len()];
                        if v == *other {
                            errs.push("handles to different vertices are equal".into())
                        }
                    }
                }
            }
            for g in f.neighbors() {
                if g.index() >= fs.len() {
                    errs.push(format!("facet {i} has neighbour index {} out of range", g.index()));
                }
            }
        }
        errs.truncate(4);
        HullView {
            n: $n,
            verts: vs.iter().map(|v| v.point().as_slice().to_vec()).collect(),
            facets: fs
                .iter()
                .map(|f| FacetView {
                    v: f.vertices().map(|v| v.index()).collect(),
                    nb: f.neighbors().map(|g| g.index()).collect(),
                    normal: f.normal().as_slice().to_vec(),
                    offset: f.offset(),
                })
                .collect(),
            handle_errors: errs,
        }
    }};
}

pub fn arrays<const N: usize>(p: &[Vec<f64>]) -> Vec<[f64; N]> {
    p.iter().map(|q| std::array::from_fn(|k| q[k])).collect()
}
pub fn vectors<const N: usize>(p: &[Vec<f64>]) -> Vec<SVector<f64, N>> {
    p.iter().map(|q| SVector::from_fn(|k, _| q[k])).collect()
}

/// The same items, from an iterator that doesn't know how many it will give, while unused memory is
/// full of something else.
pub fn unknown_length<T: Copy>(v: Vec<T>, junk: T) -> impl Iterator<Item = T> {
    drop((0..12).map(|k| vec![junk; 1 << k]).collect::<Vec<_>>());
    let mut i = v.into_iter();
    std::iter::from_fn(move || i.next())
}

/// Build a hull through one of the public constructors.
pub fn hull(p: &[Vec<f64>], n: usize, ctor: u64) -> HullView {
    macro_rules! go {
        ($n:literal) => {{
            let h: ConvexHull<Const<$n>> = match ctor % 5 {
                0 => ConvexHull::from_arrays(&arrays::<$n>(p)),
                1 => unknown_length(vectors::<$n>(p), SVector::from_element(1e6 * scale(p))).collect(),
                2 => ConvexHull::from_qhull_raw(RawHull::from_vectors(&vectors::<$n>(p))),
                3 => ConvexHull::from_qhull_raw(RawHull::from_arrays(&arrays::<$n>(p))),
                _ => {
                    let h: ConvexHull<Const<$n>> = ConvexHull::from_arrays(&arrays::<$n>(p));
                    let c = h.clone();
                    drop(h);
                    c
                }
            };
            let mut view = view!(h, $n);
            if ctor % 7 == 3 {
                // handles of another hull, with as many or fewer vertices
                let simplex: Vec<[f64; $n]> = (0..=$n)
                    .map(|i| std::array::from_fn(|k| if i == k + 1 { 2.0 } else { -1.0 }))
                    .collect();
                let o: ConvexHull<Const<$n>> = ConvexHull::from_arrays(&simplex);
                for (v, w) in h.vertices().zip(o.vertices()) {
                    if v == w || w == v {
                        view.handle_errors.push("handles to vertices of two hulls are equal".into());
                    }
                }
                if h.vertices().zip(h.vertices()).any(|(v, w)| v != w) {
                    view.handle_errors.push("handles to one vertex differ".into());
                }
            }
            view
        }};
    }
    match n {
        2 => go!(2),
        3 => go!(3),
        4 => go!(4),
        5 => go!(5),
        6 => go!(6),
        _ => panic!("dimension {n}"),
    }
}

pub struct Sample {
    pub kind: &'static str,
    pub n: usize,
    pub pts: Vec<Vec<f64>>,
    pub integer: bool,
}

pub fn rank(pts: &[Vec<f64>], integer: bool) -> usize {
    if integer {
        let p: Vec<Vec<i64>> = pts.iter().map(|q| q.iter().map(|x| *x as i64).collect()).collect();
        affine_rank(&p)
    } else {
        numeric_rank(pts)
    }
}

/// Number of directions in which the points clearly extend (Gram-Schmidt on the extremes).
pub fn numeric_rank(pts: &[Vec<f64>]) -> usize {
    let o = &pts[0];
    let mut d: Vec<Vec<f64>> =
        pts.iter().map(|p| p.iter().zip(o).map(|(a, b)| a - b).collect()).collect();
    let mut first = 0.0;
    for k in 0..o.len() {
        let (n, i) = d
            .iter()
            .enumerate()
            .map(|(i, v)| (dot(v, v).sqrt(), i))
            .max_by(|a, b| a.0.total_cmp(&b.0))
            .unwrap();
        if k == 0 {
            first = n;
        }
        if !(n > 1e-7 * first) {
            return k;
        }
        let u: Vec<f64> = d[i].iter().map(|x| x / n).collect();
        for v in &mut d {
            let t = dot(v, &u);
            for (x, y) in v.iter_mut().zip(&u) {
                *x -= t * y;
            }
        }
    }
    o.len()
}

/// A point set that spans the space.
pub fn sample(ctx: &mut Ctx, dims: &[usize], max_pts: &dyn Fn(usize) -> usize) -> Sample {
    loop {
        let r = &mut ctx.rng;
        let n = *r.pick(dims);
        let kind = *r.pick(gen::POINT_KINDS);
        let cap = max_pts(n);
        let count = match r.below(6) {
            0 => n + 1 + r.below(4) as usize,
            1 => cap,
            _ => n + 2 + r.below((cap - n - 1) as u64) as usize,
        };
        let pts = gen::points(kind, n, r, count);
        let integer = pts.iter().flatten().all(|x| x.fract() == 0.0 && x.abs() < 1e6);
        if rank(&pts, integer) < n {
            ctx.count("rejected_flat", 1);
            continue;
        }
        ctx.desc(format!("{kind} points, dim {n}, {} points", pts.len()));
        return Sample { kind, n, pts, integer };
    }
}

pub fn scale(pts: &[Vec<f64>]) -> f64 {
    pts.iter().flatten().fold(0.0f64, |m, x| m.max(x.abs()))
}
fn bits(p: &[f64]) -> Vec<u64> {
    p.iter().map(|x| x.to_bits()).collect()
}
pub fn dot(a: &[f64], b: &[f64]) -> f64 {
    a.iter().zip(b).map(|(x, y)| x * y).sum()
}
pub fn sig(pts: &[Vec<f64>]) -> Vec<u8> {
    pts.iter().flatten().flat_map(|x| x.to_le_bytes()).collect()
}

/// Relative tolerance for "on the inner side of a facet".
pub const PLANE_TOL: f64 = 1e-8;

fn max_pts(thorough: bool) -> impl Fn(usize) -> usize {
    move |n| match (n, thorough) {
        (2, _) => 400,
        (3, false) => 300,
        (3, true) => 1500,
        (4, false) => 80,
        (4, true) => 250,
        (5, false) => 40,
        (5, true) => 90,
        (_, false) => 24,
        (_, true) => 45,
    }
}

/// From five dimensions on, qhull's triangulation of merged facets (Qt) may have ridges with more
/// than two neighbours when many points are coplanar, as its documentation says.
fn proper(s: &Sample) -> bool {
    s.n <= 4 || crate::delaunay::GENERIC.contains(&s.kind) || s.kind == "sphere"
}

pub fn check_geometry(ctx: &mut Ctx, s: &Sample, h: &HullView) {
    let sc = scale(&s.pts);
    let input: HashSet<Vec<u64>> = s.pts.iter().map(|p| bits(p)).collect();
    let mut seen = HashSet::new();
    for (i, v) in h.verts.iter().enumerate() {
        ctx.check(input.contains(&bits(v)), || format!("vertex {i} {v:?} isn't an input point"));
        ctx.check(seen.insert(bits(v)), || format!("vertex {i} {v:?} occurs twice"));
    }
    ctx.check(h.verts.len() > s.n && h.facets.len() > s.n, || {
        format!("{} vertices and {} facets", h.verts.len(), h.facets.len())
    });
    let mut used = vec![0usize; h.verts.len()];
    for (i, f) in h.facets.iter().enumerate() {
        let nn = dot(&f.normal, &f.normal).sqrt();
        ctx.check((nn - 1.0).abs() < 1e-9, || format!("facet {i} has a normal of length {nn}"));
        let mut worst = f64::NEG_INFINITY;
        for p in &s.pts {
            worst = worst.max((dot(&f.normal, p) + f.offset) / sc);
        }
        ctx.max(&format!("outside_{}", s.kind), worst);
        ctx.check(worst <= PLANE_TOL, || {
            format!("an input point is {worst:e} (relative) outside of facet {i}")
        });
        for &v in &f.v {
            if v < used.len() {
                used[v] += 1;
                let d = (dot(&f.normal, &h.verts[v]) + f.offset).abs() / sc;
                ctx.max(&format!("offplane_{}", s.kind), d);
                ctx.check(d <= PLANE_TOL, || {
                    format!("vertex {v} is {d:e} (relative) off the plane of its facet {i}")
                });
            }
        }
    }
    for (v, n) in used.iter().enumerate() {
        ctx.check(*n >= s.n, || format!("vertex {v} only occurs in {n} facets"));
    }
    if s.integer && s.n == 3 && s.pts.len() <= 120 {
        let ip: Vec<I3> =
            s.pts.iter().map(|p| [p[0] as i64, p[1] as i64, p[2] as i64]).collect();
        if let Some(e) = ExactHull::new(&ip) {
            let got: BTreeSet<I3> =
                h.verts.iter().map(|p| [p[0] as i64, p[1] as i64, p[2] as i64]).collect();
            let want = e.extreme_points();
            ctx.count("exact_hulls", 1);
            ctx.check(got == want, || {
                format!(
                    "vertices differ from the exact hull: missing {:?}, extra {:?}",
                    want.difference(&got).take(3).collect::<Vec<_>>(),
                    got.difference(&want).take(3).collect::<Vec<_>>()
                )
            });
        }
    }
    // volume: cones over the facets from two different apexes must add up to the same volume,
    // otherwise the facets don't enclose anything
    let fs: Vec<Vec<usize>> = h.facets.iter().map(|f| f.v.clone()).collect();
    if fs.iter().flatten().all(|v| *v < h.verts.len()) {
        let v1 = hull_volume(&h.verts, &fs);
        let apex = &h.verts[0];
        let v2: f64 = fs
            .iter()
            .map(|f| {
                let mut q: Vec<Vec<f64>> = f.iter().map(|&i| h.verts[i].clone()).collect();
                q.push(apex.clone());
                simplex_volume(&q)
            })
            .sum();
        let rel = (v1 - v2).abs() / v1.max(v2).max(f64::MIN_POSITIVE);
        ctx.max(&format!("volume_{}", s.kind), rel);
        let tol = if proper(s) { 1e-6 } else { 0.05 };
        ctx.check(rel < tol, || format!("facets don't enclose a volume: {v1:e} vs {v2:e}"));
    }
    ctx.count("vertices", h.verts.len() as u64);
    ctx.count("facets", h.facets.len() as u64);
    ctx.count("point_facet_pairs", (h.facets.len() * s.pts.len()) as u64);
    ctx.count(&format!("dim{}", s.n), 1);
}

pub fn c01(ctx: &mut Ctx) {
    let th = ctx.thorough;
    let s = sample(ctx, &[2, 3, 3, 3, 4, 5, 5, 6], &max_pts(th));
    let ctor = ctx.rng.below(5);
    let Some(h) = ctx.must("constructing the hull", || hull(&s.pts, s.n, ctor)) else { return };
    check_geometry(ctx, &s, &h);
    // every other way of constructing it gives the same hull
    if ctx.rng.bool(1, 3) {
        let c2 = (ctor + 1 + ctx.rng.below(4)) % 5;
        if let Some(h2) = ctx.must("constructing the hull", || hull(&s.pts, s.n, c2)) {
            ctx.count("constructor_pairs", 1);
            ctx.check(h == h2, || format!("constructors {ctor} and {c2} disagree"));
        }
    }
    ctx.nontrivial(&sig(&s.pts));
}

pub fn c02(ctx: &mut Ctx) {
    let th = ctx.thorough;
    let s = sample(ctx, &[2, 3, 3, 3, 4, 5, 5, 6], &max_pts(th));
    let ctor = ctx.rng.below(5);
    let Some(h) = ctx.must("constructing the hull", || hull(&s.pts, s.n, ctor)) else { return };
    check_combinatorics(ctx, &s, &h);
    ctx.nontrivial(&sig(&s.pts));
}

pub fn check_combinatorics(ctx: &mut Ctx, s: &Sample, h: &HullView) {
    let n = s.n;
    for e in &h.handle_errors {
        ctx.viol(e);
    }
    let nf = h.facets.len();
    if h.facets.iter().any(|f| {
        f.v.iter().any(|v| *v >= h.verts.len()) || f.nb.iter().any(|g| *g >= nf)
            || f.v.len() != n || f.nb.len() != n
    }) {
        ctx.viol("facet with indices that are out of range");
        return;
    }
    let sets: Vec<BTreeSet<usize>> =
        h.facets.iter().map(|f| f.v.iter().copied().collect()).collect();
    let mut uniq: HashMap<&BTreeSet<usize>, usize> = HashMap::new();
    let mut ridges: BTreeMap<Vec<usize>, usize> = BTreeMap::new();
    let centroid: Vec<f64> = (0..n)
        .map(|k| h.verts.iter().map(|v| v[k]).sum::<f64>() / h.verts.len() as f64)
        .collect();
    for (i, f) in h.facets.iter().enumerate() {
        ctx.check(sets[i].len() == n, || format!("facet {i} repeats a vertex: {:?}", f.v));
        if let Some(j) = uniq.insert(&sets[i], i) {
            ctx.viol(format!("facets {i} and {j} have the same vertices"));
        }
        ctx.check(
            (dot(&f.normal, &centroid) + f.offset) < 0.0,
            || format!("normal of facet {i} doesn't point outwards"),
        );
        for k in 0..n {
            let mut r: Vec<usize> = f.v.iter().copied().filter(|v| *v != f.v[k]).collect();
            r.sort();
            *ridges.entry(r.clone()).or_default() += 1;
            let g = f.nb[k];
            ctx.check(g != i, || format!("facet {i} is its own neighbour"));
            ctx.check(r.iter().all(|v| sets[g].contains(v)), || {
                format!(
                    "neighbour {k} of facet {i} {:?} isn't across from vertex {k}: {:?}",
                    f.v, h.facets[g].v
                )
            });
            ctx.check(!sets[g].contains(&f.v[k]), || {
                format!("neighbour {k} of facet {i} contains vertex {k}")
            });
            ctx.check(h.facets[g].nb.contains(&i), || {
                format!("facet {g} is a neighbour of {i} but not the other way around")
            });
        }
        if n == 3 {
            let p: Vec<F3> = f.v.iter().map(|v| {
                let q = &h.verts[*v];
                [q[0], q[1], q[2]]
            }).collect();
            let c = fcross(fsub(p[1], p[0]), fsub(p[2], p[0]));
            let e = fnorm(fsub(p[1], p[0])).max(fnorm(fsub(p[2], p[0])));
            let area = fnorm(c) / (e * e).max(f64::MIN_POSITIVE);
            let d = fdot(c, [f.normal[0], f.normal[1], f.normal[2]]) / fnorm(c).max(f64::MIN_POSITIVE);
            if area > 1e-7 {
                ctx.count("oriented_triangles", 1);
                ctx.max(&format!("orientation_defect_{}", s.kind), 1.0 - d);
                ctx.check(d > 0.9, || {
                    format!("vertices of facet {i} aren't ordered by its outward normal (cos {d})")
                });
            }
        }
    }
    for (r, c) in &ridges {
        let fine = if proper(s) { *c == 2 } else { *c % 2 == 0 };
        ctx.check(fine, || format!("ridge {r:?} belongs to {c} facets"));
    }
    if n == 3 {
        let (v, e, f) = (h.verts.len() as i64, ridges.len() as i64, nf as i64);
        ctx.check(v - e + f == 2, || format!("V - E + F = {v} - {e} + {f}"));
    }
    if n == 2 {
        ctx.check(h.verts.len() == nf, || "polygon with different numbers of corners and edges".into());
    }
    ctx.count("facets", nf as u64);
    ctx.count("ridges", ridges.len() as u64);
    ctx.count(&format!("dim{n}"), 1);
}
