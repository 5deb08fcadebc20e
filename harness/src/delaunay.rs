//! C03 (Delaunay triangulations), C04 (point location).
use crate::ctx::Ctx;
use crate::geom::*;
use crate::hull::{arrays, dot, scale, sig, vectors, Sample};
use nalgebra::{Const, SVector};
use qhull_rs::{Delaunay, RawDelaunay};
use std::collections::{BTreeMap, BTreeSet, HashSet};

pub struct Tri {
    pub n: usize,
    pub verts: Vec<Vec<f64>>,
    pub simplices: Vec<Vec<usize>>,
    pub neighbors: Vec<Vec<Option<usize>>>,
    pub handle_errors: Vec<String>,
}

impl Tri {
    pub fn corners(&self, s: usize) -> Vec<Vec<f64>> {
        self.simplices[s].iter().map(|&i| self.verts[i].clone()).collect()
    }
}

#[macro_export]
macro_rules! dview {
    ($t:expr, $n:expr) => {{
        let t = &$t;
        let vs: Vec<_> = t.vertices().collect();
        let ss: Vec<_> = t.simplices().collect();
        let mut errs: Vec<String> = vec![];
        for (i, v) in vs.iter().enumerate() {
            if v.index() != i {
                errs.push(format!("vertex {i} reports index {}", v.index()));
            }
        }
        for (i, s) in ss.iter().enumerate() {
            if s.index() != i {
                errs.push(format!("simplex {i} reports index {}", s.index()));
            }
            if s.vertices().len() != $n + 1 || s.neighbors().len() != $n + 1 {
                errs.push(format!("simplex {i} has the wrong number of vertices or neighbours"));
            }
            for v in s.vertices() {
                if v.index() >= vs.len() || v.point() != vs[v.index()].point() {
                    errs.push(format!("simplex {i} has a wrong vertex handle {}", v.index()));
                }
            }
            for g in s.neighbors().flatten() {
                if g.index() >= ss.len() {
                    errs.push(format!("simplex {i} has a neighbour that's out of range"));
                }
            }
        }
        errs.truncate(4);
        Tri {
            n: $n,
            verts: vs.iter().map(|v| v.point().as_slice().to_vec()).collect(),
            simplices: ss.iter().map(|s| s.vertices().map(|v| v.index()).collect()).collect(),
            neighbors: ss
                .iter()
                .map(|s| s.neighbors().map(|g| g.map(|g| g.index())).collect())
                .collect(),
            handle_errors: errs,
        }
    }};
}

#[macro_export]
macro_rules! dims {
    ($n:expr, $go:ident) => {
        match $n {
            2 => $go!(2),
            3 => $go!(3),
            4 => $go!(4),
            5 => $go!(5),
            _ => panic!("dimension {}", $n),
        }
    };
}

/// Kinds whose points are in general position (no N+2 of them on a sphere), so that there's just
/// one Delaunay triangulation and it doesn't have slivers of volume 0.
pub const GENERIC: &[&str] = &["uniform", "gauss", "min", "scaled", "offset", "dups", "slab"];

fn max_pts(thorough: bool) -> impl Fn(usize) -> usize {
    move |n| match (n, thorough) {
        (2, false) => 150,
        (2, true) => 500,
        (3, false) => 70,
        (3, true) => 200,
        (4, false) => 32,
        (4, true) => 70,
        (_, false) => 20,
        (_, true) => 32,
    }
}

fn lib_hull_volume(pts: &[Vec<f64>], n: usize) -> f64 {
    let h = crate::hull::hull(pts, n, 0);
    hull_volume(&h.verts, &h.facets.iter().map(|f| f.v.clone()).collect::<Vec<_>>())
}

pub fn tri(p: &[Vec<f64>], n: usize, ctor: u64) -> Tri {
    macro_rules! go {
        ($n:literal) => {{
            let t: Delaunay<Const<$n>> = match ctor % 4 {
                0 => Delaunay::from_arrays(&arrays::<$n>(p)),
                1 => Delaunay::from_qhull_raw(RawDelaunay::from_vectors(&vectors::<$n>(p))),
                2 => Delaunay::from_qhull_raw(RawDelaunay::from_arrays(&arrays::<$n>(p))),
                _ => {
                    let t: Delaunay<Const<$n>> = Delaunay::from_arrays(&arrays::<$n>(p));
                    let c = t.clone();
                    drop(t);
                    c
                }
            };
            dview!(t, $n)
        }};
    }
    dims!(n, go)
}

pub fn dsample(ctx: &mut Ctx) -> Sample {
    let th = ctx.thorough;
    loop {
        let s = crate::hull::sample(ctx, &[2, 2, 3, 3, 4, 5], &max_pts(th));
        if s.kind == "scaled" && scale(&s.pts) > 1e4 {
            continue;
        }
        return s;
    }
}

fn c03_check(ctx: &mut Ctx, s: &Sample, t: &Tri) {
    let n = s.n;
    let generic = GENERIC.contains(&s.kind);
    for e in &t.handle_errors {
        ctx.viol(e);
    }
    if ctx.violated() {
        return;
    }
    let sc = scale(&s.pts);
    let input: HashSet<Vec<u64>> =
        s.pts.iter().map(|p| p.iter().map(|x| x.to_bits()).collect()).collect();
    let got: HashSet<Vec<u64>> =
        t.verts.iter().map(|p| p.iter().map(|x| x.to_bits()).collect()).collect();
    ctx.check(got.len() == t.verts.len(), || "a vertex occurs twice".into());
    ctx.check(got.is_subset(&input), || "a vertex isn't an input point".into());
    if generic {
        ctx.check(got == input, || {
            format!("{} of {} input points are vertices", got.len(), input.len())
        });
    }
    ctx.check(!t.simplices.is_empty(), || "no simplices".into());
    let sets: Vec<BTreeSet<usize>> =
        t.simplices.iter().map(|f| f.iter().copied().collect()).collect();
    let mut ridges: BTreeMap<Vec<usize>, usize> = BTreeMap::new();
    for (i, f) in t.simplices.iter().enumerate() {
        ctx.check(sets[i].len() == n + 1, || format!("simplex {i} repeats a vertex {f:?}"));
        for k in 0..=n {
            let mut r: Vec<usize> = f.iter().copied().filter(|v| *v != f[k]).collect();
            r.sort();
            *ridges.entry(r).or_default() += 1;
        }
    }
    for (i, f) in t.simplices.iter().enumerate() {
        for k in 0..=n {
            let mut r: Vec<usize> = f.iter().copied().filter(|v| *v != f[k]).collect();
            r.sort();
            let shared = ridges[&r];
            match t.neighbors[i][k] {
                Some(g) => {
                    ctx.check(r.iter().all(|v| sets[g].contains(v)) && !sets[g].contains(&f[k]) && g != i, || {
                        format!("neighbour {k} of simplex {i} isn't across from vertex {k}")
                    });
                    ctx.check(t.neighbors[g].contains(&Some(i)), || {
                        format!("{g} is a neighbour of {i} but not the other way around")
                    });
                    ctx.count("inner_ridges", 1);
                }
                None => {
                    ctx.check(!generic || shared == 1, || {
                        format!("simplex {i} has no neighbour {k} but another simplex has that face")
                    });
                    ctx.count("outer_ridges", 1);
                }
            }
            ctx.check(!generic || shared <= 2, || format!("ridge {r:?} belongs to {shared} simplices"));
        }
    }
    // Everything is covered and nothing is covered twice
    let vol: f64 = (0..t.simplices.len()).map(|i| simplex_volume(&t.corners(i))).sum();
    let hv = lib_hull_volume(&s.pts, n);
    let rel = (vol - hv).abs() / hv;
    let cls = if generic { "generic" } else { s.kind };
    ctx.max(&format!("volume_{cls}"), rel);
    {
        // (qhull's merging may lose corners when all points are on one sphere)
        let tol = if s.kind == "sphere" { 0.05 } else { 1e-6 };
        ctx.check(rel < tol, || format!("simplices fill {vol:e} of the hull's volume {hv:e}"));
    }
    // Empty circumspheres
    let mut worst = f64::NEG_INFINITY;
    for i in 0..t.simplices.len() {
        let c = t.corners(i);
        let diam = c.iter().skip(1).map(|p| {
            p.iter().zip(&c[0]).map(|(a, b)| (a - b) * (a - b)).sum::<f64>().sqrt()
        }).fold(0.0, f64::max);
        if simplex_volume(&c) < 1e-7 * diam.powi(n as i32) {
            ctx.count("slivers", 1);
            continue;
        }
        let a: Vec<Vec<f64>> = (1..=n)
            .map(|j| (0..n).map(|k| 2.0 * (c[j][k] - c[0][k])).collect())
            .collect();
        let b: Vec<f64> = (1..=n)
            .map(|j| (0..n).map(|k| (c[j][k] - c[0][k]).powi(2)).sum())
            .collect();
        let Some(o) = solve(&a, &b) else { continue };
        let r2 = dot(&o, &o);
        for p in &s.pts {
            let d2: f64 = (0..n).map(|k| (p[k] - c[0][k] - o[k]).powi(2)).sum();
            // how far inside, relative to the size of the sphere and of the coordinates
            let w = (r2 - d2) / (r2 + sc * sc);
            worst = worst.max(w);
        }
        ctx.count("circumspheres", 1);
    }
    ctx.max(&format!("inside_sphere_{cls}"), worst);
    {
        ctx.check(worst < 1e-7, || {
            format!("an input point is inside of a simplex's circumsphere by {worst:e}")
        });
    }
    ctx.count("simplices", t.simplices.len() as u64);
    ctx.count(&format!("dim{n}"), 1);
}

pub fn c03(ctx: &mut Ctx) {
    let s = dsample(ctx);
    let ctor = ctx.rng.below(4);
    let Some(t) = ctx.must("computing the triangulation", || tri(&s.pts, s.n, ctor)) else { return };
    c03_check(ctx, &s, &t);
    ctx.nontrivial(&sig(&s.pts));
}

// ---------------------------------------------------------------------------------------------

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Where {
    Inside,
    Outside,
    /// too close to the boundary to call
    Edge,
}

pub struct Query {
    pub p: Vec<f64>,
    pub what: &'static str,
    pub wher: Where,
}

pub fn queries(ctx: &mut Ctx, s: &Sample, t: &Tri, count: usize) -> Vec<Query> {
    let h = crate::hull::hull(&s.pts, s.n, 0);
    let sc = scale(&s.pts);
    let n = s.n;
    let r = &mut ctx.rng;
    let mut out = vec![];
    let lo: Vec<f64> = (0..n).map(|k| s.pts.iter().map(|p| p[k]).fold(f64::INFINITY, f64::min)).collect();
    let hi: Vec<f64> = (0..n).map(|k| s.pts.iter().map(|p| p[k]).fold(f64::NEG_INFINITY, f64::max)).collect();
    for _ in 0..count {
        let (what, p): (&'static str, Vec<f64>) = match r.below(8) {
            0 => ("box", (0..n).map(|k| r.u(lo[k], hi[k])).collect()),
            1 => ("vertex", r.pick(&s.pts).clone()),
            2 => {
                let (a, b) = (r.pick(&s.pts).clone(), r.pick(&s.pts).clone());
                let u = r.f();
                ("segment", (0..n).map(|k| a[k] + u * (b[k] - a[k])).collect())
            }
            3 => {
                let f = 10f64.powi(r.range(-3, 3) as i32);
                ("far", (0..n).map(|k| {
                    let m = (lo[k] + hi[k]) / 2.0;
                    m + f * (hi[k] - lo[k] + 1e-3 * sc) * r.u(-2.0, 2.0)
                }).collect())
            }
            4 => {
                // just inside or outside of a facet
                let f = r.pick(&h.facets).clone();
                let mut w: Vec<f64> = (0..n).map(|_| -r.f().max(1e-9).ln()).collect();
                let ws: f64 = w.iter().sum();
                w.iter_mut().for_each(|x| *x /= ws);
                let d = sc * 10f64.powf(r.u(-6.0, 0.0)) * if r.bool(1, 2) { 1.0 } else { -1.0 };
                ("facet", (0..n).map(|k| {
                    f.v.iter().zip(&w).map(|(v, w)| h.verts[*v][k] * w).sum::<f64>() + d * f.normal[k]
                }).collect())
            }
            _ => {
                let i = r.below(t.simplices.len() as u64) as usize;
                let c = t.corners(i);
                let mut w: Vec<f64> = (0..=n).map(|_| -r.f().max(1e-9).ln()).collect();
                let ws: f64 = w.iter().sum();
                w.iter_mut().for_each(|x| *x /= ws);
                ("simplex", (0..n).map(|k| c.iter().zip(&w).map(|(q, w)| q[k] * w).sum()).collect())
            }
        };
        let d = h.facets.iter().map(|f| dot(&f.normal, &p) + f.offset).fold(f64::NEG_INFINITY, f64::max) / sc;
        let wher = if d < -1e-7 { Where::Inside } else if d > 1e-7 { Where::Outside } else { Where::Edge };
        out.push(Query { p, what, wher });
    }
    out
}

/// Condition of a simplex: smallest height relative to the size.
pub fn flatness(c: &[Vec<f64>]) -> f64 {
    let n = c.len() - 1;
    let diam = c.iter().flat_map(|p| c.iter().map(move |q| {
        p.iter().zip(q).map(|(a, b)| (a - b) * (a - b)).sum::<f64>().sqrt()
    })).fold(0.0, f64::max);
    simplex_volume(c) / diam.powi(n as i32)
}

pub fn c04(ctx: &mut Ctx) {
    let s = loop {
        let s = dsample(ctx);
        if GENERIC.contains(&s.kind) || ctx.rng.bool(1, 3) {
            break s;
        }
    };
    let nq = if ctx.thorough { 120 } else { 50 };
    macro_rules! go2 {
        ($n:literal) => {{
            let Some(d) = ctx.must("computing the triangulation", || {
                Delaunay::<Const<$n>>::from_arrays(&arrays::<$n>(&s.pts))
            }) else { return };
            let t = dview!(d, $n);
            let generic = GENERIC.contains(&s.kind);
            let qs = queries(ctx, &s, &t, nq);
            let mut main = d.simplex_searcher();
            let mut brute = d.simplex_searcher();
            brute.set_bruteforce(true);
            let eps = *ctx.rng.pick(&[f64::EPSILON, 1e-12, 1e-10, 1e-8]);
            if ctx.rng.bool(3, 4) {
                main.set_eps(eps);
                brute.set_eps(eps);
            }
            let sane = main.eps() == brute.eps() && brute.bruteforce() && !main.bruteforce();
            ctx.check(sane, || "the searcher doesn't report its settings".into());
            // next to simplices without a volume the search is allowed to be more tolerant
            let flat = (0..t.simplices.len()).any(|i| flatness(&t.corners(i)) < 1e-10);
            let slack = if flat { 1e-6 + 1.5 * eps.sqrt() } else { 1e-6 };
            if flat { ctx.count("with_degenerate_simplices", 1); }
            for q in &qs {
                let p: SVector<f64, $n> = SVector::from_fn(|k, _| q.p[k]);
                match ctx.rng.below(10) {
                    0 => { main.clear_start_hint(); }
                    1 => { main.set_bruteforce(true); }
                    2 => { main.set_bruteforce(false); }
                    _ => (),
                }
                let mut coords = SVector::<f64, { $n + 1 }>::from_element(7.5);
                let Some(found) = ctx.must("searching", || main.find_simplex_mut(&p, &mut coords)) else { return };
                let mut bc = SVector::<f64, { $n + 1 }>::from_element(-3.5);
                let Some(bfound) = ctx.must("searching", || brute.find_simplex_mut(&p, &mut bc)) else { return };
                let fresh = {
                    let mut f = d.simplex_searcher();
                    f.set_eps(main.eps());
                    f.find_simplex(&p)
                };
                let (a, b, c) = (found.map(|x| x.index()), bfound.map(|x| x.index()), fresh.map(|x| x.index()));
                ctx.count(&format!("query_{}_{:?}", q.what, q.wher), 1);
                // only simplices in which coordinates can be computed well count
                let mut near_flat = false;
                for (name, idx) in [("directed", a), ("bruteforce", b), ("fresh", c)] {
                    let Some(i) = idx else { continue };
                    ctx.count("found", 1);
                    let fl = flatness(&t.corners(i));
                    if fl < 1e-6 {
                        near_flat = true;
                        ctx.count("near_flat", 1);
                        continue;
                    }
                    let Some(bary) = barycentric(&t.corners(i), &q.p) else { continue };
                    let m = bary.iter().copied().fold(f64::INFINITY, f64::min);
                    ctx.max("neg_coord", -m);
                    ctx.check(m >= -slack, || {
                        format!("{name} search returned a simplex that doesn't contain {:?}: {bary:?}", q.p)
                    });
                    let reported: Vec<f64> = match name {
                        "directed" => coords.as_slice().to_vec(),
                        "bruteforce" => bc.as_slice().to_vec(),
                        _ => {
                            let f = d.simplex_searcher();
                            f.barycentric_coords(fresh.unwrap(), p).as_slice().to_vec()
                        }
                    };
                    let e = reported.iter().zip(&bary).map(|(x, y)| (x - y).abs()).fold(0.0, f64::max);
                    ctx.max("coord_error", e);
                    ctx.check(e < 1e-6, || format!("{name} search reports coordinates {reported:?} instead of {bary:?} for {:?}", q.p));
                }
                // the simplex that contains the point, unless it is too close to a face to call
                let strict = (0..t.simplices.len()).find(|&i| {
                    let c = t.corners(i);
                    flatness(&c) >= 1e-6
                        && barycentric(&c, &q.p).map_or(false, |w| w.iter().all(|x| *x > 1e-7))
                });
                if let Some(w) = strict {
                    ctx.count("strictly_inside", 1);
                    for (name, idx) in [("directed", a), ("bruteforce", b), ("fresh", c)] {
                        ctx.check(idx == Some(w), || format!("{name} search returned {idx:?} for {:?} which is in simplex {w}", q.p));
                    }
                }
                match q.wher {
                    Where::Inside if generic && main.eps() >= 1e-10 => {
                        for (name, idx) in [("directed", a), ("bruteforce", b), ("fresh", c)] {
                            ctx.check(idx.is_some(), || format!("{name} search didn't find a simplex for {:?}", q.p));
                        }
                    }
                    Where::Outside => {
                        for (name, idx) in [("directed", a), ("bruteforce", b), ("fresh", c)] {
                            if near_flat || flat { continue }
                            ctx.check(idx.is_none(), || format!("{name} search found a simplex for {:?} which is outside", q.p));
                        }
                    }
                    _ => (),
                }
                if a != b || a != c {
                    ctx.count("ties", 1);
                }
            }
            // coordinates w.r.t. arbitrary simplices
            for _ in 0..6 {
                let i = ctx.rng.below(t.simplices.len() as u64) as usize;
                if flatness(&t.corners(i)) < 1e-5 { continue }
                let q = ctx.rng.pick(&qs).p.clone();
                let sx = d.simplices().nth(i).unwrap();
                let Some(bary) = barycentric(&t.corners(i), &q) else { continue };
                let mag = bary.iter().fold(1.0f64, |m, x| m.max(x.abs()));
                let p: SVector<f64, $n> = SVector::from_fn(|k, _| q[k]);
                let Some(got) = ctx.must("computing coordinates", || main.barycentric_coords(sx, p)) else { return };
                let mut got2 = SVector::<f64, { $n + 1 }>::from_element(1.5);
                main.barycentric_coords_mut(sx, p, &mut got2);
                let e = got.iter().zip(&bary).map(|(x, y)| (x - y).abs()).fold(0.0, f64::max) / mag;
                ctx.max("coord_error_any", e);
                ctx.check(e < 1e-6 && got == got2, || format!("barycentric coordinates {got:?}/{got2:?} instead of {bary:?}"));
                ctx.count("coords_of_any_simplex", 1);
            }
        }};
    }
    dims!(s.n, go2);
    ctx.nontrivial(&sig(&s.pts));
}

