//! C05: the raw API.
use crate::ctx::Ctx;
use crate::delaunay::*;
use crate::geom::*;
use crate::hull::{arrays, dot, scale, sig, vectors, Sample};
use crate::{dims, dview};
use nalgebra::{Const, SVector};
use qhull_rs::raw::BarycentricSolver;
use qhull_rs::{Delaunay, RawDelaunay, RawHull};
use std::collections::{BTreeMap, HashSet};

fn raw_hull_case<const N: usize>(ctx: &mut Ctx, s: &Sample)
where
    Const<N>: nalgebra::ToTypenum,
{
    let r: RawHull<Const<N>> = match ctx.rng.below(3) {
        0 => RawHull::from_arrays(&arrays::<N>(&s.pts)),
        1 => RawHull::from_vectors(&vectors::<N>(&s.pts)),
        _ => {
            crate::hull::unknown_length(vectors::<N>(&s.pts), SVector::from_element(1e6 * scale(&s.pts))).collect()
        }
    };
    let sc = scale(&s.pts);
    let h = crate::hull::hull(&s.pts, N, 0);
    let rv: Vec<_> = r.vertices().collect();
    let same = rv.len() == h.verts.len()
        && rv.iter().zip(&h.verts).all(|(a, b)| a.point() == &b[..] && a.point().len() == N);
    ctx.check(same, || "the vertices of the raw and the typed hull differ".into());
    let ids: HashSet<u64> = rv.iter().map(|v| v.id()).collect();
    ctx.check(ids.len() == rv.len(), || "vertex ids aren't unique".into());
    let rf: Vec<_> = r.facets().collect();
    ctx.check(rf.len() == h.facets.len(), || "different numbers of facets".into());
    // the facets around a vertex
    let Some(around) = ctx.must("listing the facets around vertices", || {
        rv.iter().map(|v| v.neighbors().map(|f| f.id()).collect::<Vec<_>>()).collect::<Vec<_>>()
    }) else { return };
    for (v, mut a) in rv.iter().zip(around) {
        let mut b: Vec<u64> = rf.iter().filter(|f| f.vertices().any(|w| w.id() == v.id())).map(|f| f.id()).collect();
        a.sort();
        b.sort();
        ctx.check(a == b, || format!("the facets around a vertex are {b:?} and not {a:?}"));
        ctx.count("facets_around", b.len() as u64);
    }
    let fid: BTreeMap<u64, usize> = rf.iter().enumerate().map(|(i, f)| (f.id(), i)).collect();
    ctx.check(fid.len() == rf.len(), || "facet ids aren't unique".into());
    for (f, t) in rf.iter().zip(&h.facets) {
        ctx.check(f.normal() == &t.normal[..] && f.offset() == t.offset, || "planes differ".into());
        let mut a: Vec<&[f64]> = f.vertices().map(|v| v.point()).collect();
        let mut b: Vec<&[f64]> = t.v.iter().map(|v| &h.verts[*v][..]).collect();
        let order = a == b;
        a.sort_by(|x, y| x.partial_cmp(y).unwrap());
        b.sort_by(|x, y| x.partial_cmp(y).unwrap());
        ctx.check(a == b && (order || N == 3), || format!("facet corners differ: {a:?} and {b:?}"));
        let mut x: Vec<Option<&usize>> = f.neighbors().map(|g| fid.get(&g.id())).collect();
        let mut y: Vec<Option<&usize>> = t.nb.iter().map(Some).collect();
        x.sort();
        y.sort();
        ctx.check(x == y, || "facet neighbours differ".into());
        ctx.check(!f.is_upper_delaunay(), || "facet of a hull is marked as upper Delaunay".into());
        for _ in 0..4 {
            let q = if ctx.rng.bool(1, 2) {
                ctx.rng.pick(&s.pts).clone()
            } else {
                (0..N).map(|_| sc * ctx.rng.u(-3.0, 3.0)).collect()
            };
            let want = dot(&t.normal, &q) + t.offset;
            let got = f.plane_distance(&SVector::<f64, N>::from_fn(|k, _| q[k]));
            ctx.check((got - want).abs() <= 1e-12 * (sc + want.abs()), || {
                format!("distance to a facet's plane is {want} and not {got}")
            });
            ctx.count("plane_distances", 1);
        }
    }
}

pub fn c05(ctx: &mut Ctx) {
    let s = dsample(ctx);
    macro_rules! hgo {
        ($n:literal) => {{
            if ctx.must("using a raw hull", || ()).is_none() { return }
            raw_hull_case::<$n>(ctx, &s)
        }};
    }
    dims!(s.n, hgo);
    let nq = if ctx.thorough { 80 } else { 30 };
    macro_rules! go {
        ($n:literal) => {{
            let r: RawDelaunay<Const<$n>> = if ctx.rng.bool(1, 2) {
                RawDelaunay::from_arrays(&arrays::<$n>(&s.pts))
            } else {
                RawDelaunay::from_vectors(&vectors::<$n>(&s.pts))
            };
            let d = Delaunay::<Const<$n>>::from_arrays(&arrays::<$n>(&s.pts));
            let t = dview!(d, $n);
            let generic = GENERIC.contains(&s.kind);
            let lower: Vec<_> = r.simplices().filter(|x| !x.is_upper_delaunay()).collect();
            let full: Vec<_> = r.full_simplices().filter(|x| !x.is_upper_delaunay()).collect();
            ctx.check(lower.len() == t.simplices.len() && full.len() == lower.len(), || "different numbers of simplices".into());
            if ctx.violated() { return }
            ctx.count("upper", r.simplices().filter(|x| x.is_upper_delaunay()).count() as u64);
            let lifted: Vec<Vec<f64>> = r.full_vertices().map(|v| v.point().to_vec()).collect();
            let flat: Vec<Vec<f64>> = r.vertices().map(|v| v.point().to_vec()).collect();
            ctx.check(lifted.len() == flat.len() && lifted.iter().zip(&flat).all(|(a, b)| a[..$n] == b[..] && a.len() == $n + 1), || "lifted vertices differ from the vertices".into());
            let lsc = scale(&lifted);
            for (i, (f, g)) in lower.iter().zip(&full).enumerate() {
                ctx.check(f.id() == g.id() && f.offset() == g.offset() && g.normal().len() == $n + 1 && f.normal() == &g.normal()[..$n], || "simplices() and full_simplices() differ".into());
                let a: Vec<Vec<f64>> = f.vertices().map(|v| v.point().to_vec()).collect();
                ctx.check(a == t.corners(i), || format!("corners of simplex {i} differ"));
                // the lifted simplex is a facet of the lower hull of the lifted points
                ctx.check(g.normal()[$n] < 0.0, || format!("normal of simplex {i} doesn't point down"));
                let ts = d.simplices().nth(i).unwrap();
                for (j, v) in lifted.iter().enumerate() {
                    let p = SVector::<f64, { $n + 1 }>::from_fn(|k, _| v[k]);
                    let want = dot(g.normal(), v) + g.offset();
                    let got = g.plane_distance(&p);
                    let typed = ts.plane_distance(&p);
                    ctx.check((got - want).abs() <= 1e-12 * lsc && (typed - want).abs() <= 1e-12 * lsc, || {
                        format!("distance of point {j} to simplex {i} is {want}, not {got} (raw) or {typed} (typed)")
                    });
                    ctx.max("lifted_outside", want / lsc);
                    ctx.check(want <= 1e-8 * lsc, || format!("lifted point {j} is outside of simplex {i}"));
                    ctx.count("plane_distances", 1);
                }
                for v in g.vertices() {
                    let x = (dot(g.normal(), v.point()) + g.offset()).abs();
                    ctx.check(x <= 1e-8 * lsc, || format!("corner of simplex {i} isn't on its lifted plane"));
                }
            }
            let Some(cache) = ctx.must("building the solver cache", || r.compute_barycentric_solver_cache()) else { return };
            let qs = queries(ctx, &s, &t, nq);
            let anyflat = (0..t.simplices.len()).any(|i| flatness(&t.corners(i)) < 1e-10);
            for (i, f) in lower.iter().enumerate() {
                let Some(solver) = cache.get(f) else {
                    ctx.count("no_solver", 1);
                    ctx.check(flatness(&t.corners(i)) < 1e-9, || format!("no solver for simplex {i}"));
                    continue
                };
                if flatness(&t.corners(i)) < 1e-5 { continue }
                let q = &ctx.rng.pick(&qs).p;
                let Some(bary) = barycentric(&t.corners(i), q) else { continue };
                let p = SVector::<f64, $n>::from_fn(|k, _| q[k]);
                let got = solver.solve(p);
                let mut got2 = SVector::<f64, { $n + 1 }>::from_element(9.0);
                solver.solve_mut(p, &mut got2);
                let mag = bary.iter().fold(1.0f64, |m, x| m.max(x.abs()));
                let e = got.iter().zip(&bary).map(|(x, y)| (x - y).abs()).fold(0.0, f64::max) / mag;
                ctx.max("solver_error", e);
                ctx.check(e < 1e-5 && got == got2, || format!("solver gives {got:?}/{got2:?} instead of {bary:?}"));
                // ... and one for the same corners
                let c = t.corners(i);
                let own = BarycentricSolver::<Const<$n>>::new(nalgebra::SMatrix::<f64, $n, { $n + 1 }>::from_fn(|r, k| c[k][r]));
                let got = own.solve(p);
                let e = got.iter().zip(&bary).map(|(x, y)| (x - y).abs()).fold(0.0, f64::max) / mag;
                // (this one isn't as precise far away from the origin)
                ctx.check(e < 1e-5 || s.kind == "offset", || format!("a solver for given corners gives {got:?} instead of {bary:?}"));
                ctx.count("solved", 1);
            }
            // (any simplex will do)
            let all: Vec<_> = r.simplices().collect();
            let mut hint = if ctx.rng.bool(1, 3) { *ctx.rng.pick(&all) } else { *ctx.rng.pick(&lower) };
            ctx.count(if hint.is_upper_delaunay() { "hints_upper" } else { "hints_lower" }, 1);
            let mut fhint = full[ctx.rng.below(full.len() as u64) as usize];
            let _ = &mut fhint;
            let tol = if ctx.rng.bool(1, 2) { None } else { Some(1e-10) };
            for q in &qs {
                let p = SVector::<f64, $n>::from_fn(|k, _| q.p[k]);
                let mut coords = SVector::<f64, { $n + 1 }>::from_element(4.0);
                let style = ctx.rng.below(3);
                let h = &mut hint;
                let Some(found) = ctx.must("searching", || match style {
                    0 => raw_find!(r, p, cache, tol, coords, None),
                    1 => raw_find!(r, p, cache, tol, coords, Some(h)),
                    _ => r.find_best_simplex__(p, &cache, tol, Some(h)),
                }) else { return };
                ctx.count(&format!("query_{}_{:?}", q.what, q.wher), 1);
                let idx = found.and_then(|f| lower.iter().position(|g| g.id() == f.id()));
                ctx.check(found.is_some() == idx.is_some(), || "search returned an upper facet".into());
                if let Some(i) = idx {
                    let c = t.corners(i);
                    if flatness(&c) >= 1e-6 {
                        if let Some(bary) = barycentric(&c, &q.p) {
                            let m = bary.iter().copied().fold(f64::INFINITY, f64::min);
                            ctx.max("neg_coord", -m);
                            ctx.check(m >= -1e-4 || (!anyflat && m >= -1e-6), || format!("search returned a simplex that doesn't contain {:?}: {bary:?}", q.p));
                            if style < 2 {
                                let e = coords.iter().zip(&bary).map(|(x, y)| (x - y).abs()).fold(0.0, f64::max);
                                ctx.max("coord_error", e);
                                ctx.check(e < 1e-5, || format!("search reports {coords:?} instead of {bary:?}"));
                            }
                        }
                        ctx.count("found", 1);
                    }
                }
                let strict = (0..t.simplices.len()).find(|&i| {
                    let c = t.corners(i);
                    flatness(&c) >= 1e-6
                        && barycentric(&c, &q.p).map_or(false, |w| w.iter().all(|x| *x > 1e-7))
                });
                if let Some(w) = strict {
                    ctx.count("strictly_inside", 1);
                    ctx.check(idx == Some(w) || (idx.is_some() && anyflat), || format!("search returned {idx:?} for {:?} which is in simplex {w}", q.p));
                }
                if q.wher == Where::Outside && generic && !anyflat {
                    ctx.check(idx.is_none(), || format!("search found a simplex for {:?} which is outside", q.p));
                }
            }
        }};
    }
    macro_rules! raw_find {
        ($r:expr, $p:expr, $cache:expr, $tol:expr, $coords:expr, $hint:expr) => {
            $r.find_best_simplex($p, &$cache, $tol, Some(&mut $coords), $hint)
        };
    }
    dims!(s.n, go);
    ctx.nontrivial(&sig(&s.pts));
}
