//! Monitors for palettes: which ones are accepted, and the ones that are computed.
use crate::ctx::*;
use crate::gen::{self, valid_palette};
use crate::geom::*;
use crate::images::{decompose, maxdiff, reconstruct, show};
use crate::model::ipt;
use image::{Rgb, RgbImage};
use image_palette_recoloring::{compute_palette, DecomposedImage, ImageWeights};
use std::collections::BTreeSet;

fn digest(parts: &[&[u8]]) -> Vec<u8> {
    parts.concat()
}

fn rgb(c: I3) -> Rgb<u8> {
    Rgb([c[0] as u8, c[1] as u8, c[2] as u8])
}

// ---------------------------------------------------------------------------------------------
// C10: exactly the usable palettes are accepted

fn candidate(ctx: &mut Ctx) -> (&'static str, Vec<Rgb<u8>>) {
    let r = &mut ctx.rng;
    let n = r.range(4, 10) as usize;
    let rnd = |r: &mut crate::rng::Rng| Rgb([r.byte(), r.byte(), r.byte()]);
    match r.below(13) {
        0 => ("short", (0..r.below(4)).map(|_| rnd(r)).collect()),
        1 => ("random", (0..n).map(|_| rnd(r)).collect()),
        2 => ("valid", valid_palette(r, n)),
        3 => {
            let mut p = valid_palette(r, n);
            let i = r.below(n as u64) as usize;
            let c = p[i];
            if r.bool(1, 2) {
                p.push(c);
            } else {
                p[(i + 1) % n] = c;
            }
            r.shuffle(&mut p);
            ("duplicate", p)
        }
        4 => {
            // a colour close to the centre of the others, or of a face or an edge
            let mut p = valid_palette(r, n);
            let k = *r.pick(&[2usize, 3, n]);
            let mut s = [0i64; 3];
            let mut q = p.clone();
            r.shuffle(&mut q);
            for c in &q[..k] {
                for j in 0..3 {
                    s[j] += c[j] as i64;
                }
            }
            let jitter = r.below(2) as i64;
            p.push(Rgb([0, 1, 2].map(|j| (s[j] / k as i64 + jitter * r.range(-1, 1)).clamp(0, 255) as u8)));
            r.shuffle(&mut p);
            ("centre", p)
        }
        5 => {
            // on a plane
            let (a, b, c) = (r.range(-3, 3), r.range(-3, 3), r.range(40, 200));
            let mut p: Vec<Rgb<u8>> = vec![];
            while p.len() < n {
                let (x, y) = (r.range(0, 255), r.range(0, 255));
                let z = c + a * (x - 128) / 4 + b * (y - 128) / 4;
                let exact = (a * (x - 128)) % 4 == 0 && (b * (y - 128)) % 4 == 0;
                if exact && (0..256).contains(&z) {
                    let mut v = [x as u8, y as u8, z as u8];
                    v.rotate_left((n % 3) as usize);
                    p.push(Rgb(v));
                }
            }
            if r.bool(1, 3) {
                let i = r.below(n as u64) as usize;
                let k = r.below(3) as usize;
                p[i][k] = p[i][k].saturating_add(1);
            }
            ("plane", p)
        }
        6 => {
            let mut p = vec![rnd(r); n];
            if r.bool(1, 2) {
                for (i, c) in p.iter_mut().enumerate() {
                    *c = Rgb([10 + 3 * i as u8, 20 + 5 * i as u8, 200 - 7 * i as u8]);
                }
            }
            ("line", p)
        }
        7 => {
            // subsets of a coarse grid: many faces with more than three corners
            let s = *r.pick(&[255i64, 128, 85, 51, 1]);
            let o = if s == 1 { r.range(0, 250) } else { 0 };
            let m = 255 / s;
            let mut set = BTreeSet::new();
            for _ in 0..n {
                set.insert([0, 1, 2].map(|_| o + s * r.range(0, m.min(4))));
            }
            ("grid", set.into_iter().map(|c| rgb(c.map(|x| x.clamp(0, 255)))).collect())
        }
        8 => {
            // as good as flat
            let t = r.range(1, 2);
            ("sliver", (0..n).map(|_| {
                let mut c = [r.byte(), r.byte(), (100 + r.range(0, t)) as u8];
                c.rotate_left(1);
                Rgb(c)
            }).collect())
        }
        9 => {
            // tiny
            let o = [r.range(1, 250), r.range(1, 250), r.range(1, 250)];
            ("tiny", (0..n.min(6)).map(|_| rgb([0, 1, 2].map(|k| o[k] + r.range(0, 2)))).collect())
        }
        10 => {
            // one colour just inside, on or just outside a face
            let mut p = valid_palette(r, n);
            let h = ExactHull::new(&p.iter().map(ipt).collect::<Vec<_>>()).unwrap();
            let f = r.pick(&h.faces);
            let (a, b, c) = (h.pts[f.extreme[0]], h.pts[f.extreme[1]], h.pts[f.extreme[2]]);
            let (s, t) = (r.f(), r.f());
            let (s, t) = if s + t > 1.0 { (1.0 - s, 1.0 - t) } else { (s, t) };
            let m = |k: usize| (a[k] as f64 + s * (b[k] - a[k]) as f64 + t * (c[k] - a[k]) as f64).round() as i64;
            let d = [r.range(-1, 1), r.range(-1, 1), r.range(-1, 1)];
            p.push(rgb([0, 1, 2].map(|k| (m(k) + d[k]).clamp(0, 255))));
            r.shuffle(&mut p);
            ("face", p)
        }
        11 => {
            // many colours
            let n = r.range(20, 45) as usize;
            let mut p: Vec<Rgb<u8>> = (0..n)
                .map(|_| {
                    let v = [r.gauss(), r.gauss(), r.gauss()];
                    let s = fnorm(v).max(1e-9);
                    Rgb([0, 1, 2].map(|k| (127.5 + 127.0 * v[k] / s).round() as u8))
                })
                .collect();
            if r.bool(2, 3) {
                let h = ExactHull::new(&p.iter().map(ipt).collect::<Vec<_>>()).unwrap();
                p = h.extreme_points().into_iter().map(rgb).collect();
                r.shuffle(&mut p);
            }
            ("many", p)
        }
        _ => {
            let mut p = gen::cube_palette();
            r.shuffle(&mut p);
            p.truncate(r.range(4, 8) as usize);
            if r.bool(1, 3) {
                p.push(*r.pick(&[Rgb([255u8, 128, 255]), Rgb([128, 128, 128]), Rgb([0, 0, 128]), Rgb([255, 128, 0])]));
            }
            ("cube", p)
        }
    }
}

pub fn c10(ctx: &mut Ctx) {
    let (kind, img) = crate::images::sample(ctx, &["rand", "few", "blobs", "photo", "primaries"], 6);
    let Some(iw) = crate::images::weights(ctx, &img) else { return };
    let mut all = vec![];
    for _ in 0..6 {
        let (k, pal) = candidate(ctx);
        ctx.desc(format!("{kind} {}x{} {k} palette {}", img.width(), img.height(), show(&pal)));
        let want = pal.len() >= 4 && strictly_convex(&pal.iter().map(ipt).collect::<Vec<_>>());
        let Some(got) = ctx.must("DecomposedImage::new", || DecomposedImage::new(&iw, &pal)) else { return };
        ctx.count(&format!("{}_{k}", if want { "accepted" } else { "rejected" }), 1);
        match got {
            Ok(d) => {
                ctx.check(want, || "a palette with too few or redundant colours is accepted".into());
                ctx.check(d.num_channels() == pal.len(), || "the number of channels is not that of the colours".into());
                ctx.check(d.get_channel_grayscale(pal.len() - 1).is_some() && d.get_channel_grayscale(pal.len()).is_none(), || "wrong channels".into());
                if want {
                    let Some(_) = reconstruct(ctx, &d, &pal) else { return };
                }
                let Some(none) = ctx.must("reconstruct", || d.reconstruct(&pal[1..])) else { return };
                ctx.check(none.is_none(), || "a smaller palette is accepted for recolouring".into());
            }
            Err(e) => {
                ctx.check(!want, || format!("a usable palette is rejected: {e}"));
                ctx.check(!e.is_empty(), || "empty error message".into());
            }
        }
        all.extend(show(&pal).into_bytes());
        if ctx.violated() {
            break;
        }
    }
    ctx.nontrivial(&all);
}

// ---------------------------------------------------------------------------------------------
// C11: computed palettes are valid

pub fn distinct(img: &RgbImage) -> Vec<I3> {
    img.pixels().map(ipt).collect::<BTreeSet<_>>().into_iter().collect()
}

fn colour_sample(ctx: &mut Ctx, kinds: &[&'static str], max: u32, most: usize) -> (&'static str, RgbImage, ExactHull) {
    loop {
        let (kind, img) = gen::any_image(&mut ctx.rng, kinds, max);
        // the exact hull takes its time
        let d = distinct(&img);
        if d.len() > most {
            continue;
        }
        if let Some(h) = ExactHull::new(&d) {
            ctx.count(&format!("kind_{kind}"), 1);
            return (kind, img, h);
        }
        ctx.count("rejected_flat", 1);
    }
}

fn few_image(ctx: &mut Ctx) -> RgbImage {
    // a handful of colours in general position
    let n = ctx.rng.range(5, 12) as usize;
    let style = ctx.rng.below(4);
    let cols: Vec<Rgb<u8>> = (0..n)
        .map(|_| {
            let r = &mut ctx.rng;
            match style {
                0 => Rgb([r.byte(), r.byte(), r.byte()]),
                1 => Rgb([0, 1, 2].map(|_| r.range(80, 175) as u8)),
                2 => {
                    let v = [r.gauss(), r.gauss(), r.gauss()];
                    let s = fnorm(v).max(1e-9);
                    Rgb([0, 1, 2].map(|k| (127.0 + 80.0 * v[k] / s).round() as u8))
                }
                _ => Rgb([0, 1, 2].map(|_| r.range(30, 225) as u8)),
            }
        })
        .collect();
    let (w, h) = (ctx.rng.range(3, 12) as u32, ctx.rng.range(4, 12) as u32);
    let mut i = 0;
    let mut px: Vec<Rgb<u8>> = (0..w * h)
        .map(|_| {
            i += 1;
            if i <= n { cols[i - 1] } else { *ctx.rng.pick(&cols) }
        })
        .collect();
    ctx.rng.shuffle(&mut px);
    RgbImage::from_raw(w, h, px.into_iter().flat_map(|p| p.0).collect()).unwrap()
}

pub fn c11(ctx: &mut Ctx) {
    let pinned = ctx.case < 2;
    let (kind, img, hull) = if ctx.case == 1 {
        // the solver of the linear programs gives up on these (see known-findings.txt)
        let raw = vec![
            0x7f, 0x55, 0x00, 0x80, 0xaa, 0x00, 0x80, 0x55, 0xff, 0x00, 0xcc, 0x55, 0x00, 0xcc, 0xaa, 0xff, 0xcc, 0x55,
            0x7f, 0x55, 0xff, 0x80, 0x55, 0x00, 0x7f, 0xaa, 0xff, 0x33, 0x33, 0xcc, 0x80, 0xaa, 0xff, 0xff, 0xcc, 0xaa,
            0x00, 0x33, 0x55, 0x7f, 0xaa, 0x00, 0xcc, 0xcc, 0xcc, 0xcc, 0x33, 0xcc, 0xff, 0x33, 0x55, 0xff, 0x33, 0xaa,
            0x00, 0x33, 0xaa,
        ];
        let i = RgbImage::from_raw(19, 1, raw).unwrap();
        let Some(h) = ExactHull::new(&distinct(&i)) else { return };
        ("pinned", i, h)
    } else if pinned {
        // simplifying these colours ends on a plane, once they are clamped
        let hex = [
            0xaaff00, 0xff00aa, 0x00aaff, 0xaa00ff, 0xffaa00, 0x00ffaa, 0xd69360, 0x9360d6, 0x60d693, 0xd66093,
            0x93d660, 0x6093d6u32,
        ];
        let raw = hex.iter().flat_map(|c| [(c >> 16) as u8, (c >> 8) as u8, *c as u8]).collect();
        let i = RgbImage::from_raw(12, 1, raw).unwrap();
        let Some(h) = ExactHull::new(&distinct(&i)) else { return };
        ("pinned", i, h)
    } else if ctx.rng.bool(1, 4) {
        let i = few_image(ctx);
        let Some(h) = ExactHull::new(&distinct(&i)) else { return };
        ("handful", i, h)
    } else if ctx.rng.bool(1, 5) {
        // all of the symmetries remain: every colour occurs, there's room for all of them
        let i = gen::image("symmetric", 24, ctx.rng.range(1, 3) as u32, &mut ctx.rng);
        let Some(h) = ExactHull::new(&distinct(&i)) else { return };
        ("symmetric", i, h)
    } else {
        let max = if ctx.case % 10 == 3 { 12 } else { 8 };
        let kinds: &[&'static str] = if ctx.rng.bool(1, 4) { &["symmetric"] } else { gen::IMAGE_KINDS };
        colour_sample(ctx, kinds, max, 90)
    };
    let n = hull.extreme.len();
    let min = match ctx.rng.below(4) {
        0 => ctx.rng.below(5) as usize,
        1 => ctx.rng.range(4, n as i64 + 1) as usize,
        _ => ctx.rng.range(4, 8) as usize,
    };
    let max = match ctx.rng.below(3) {
        0 => ctx.rng.below(8) as usize,
        1 => ctx.rng.range(4, 12) as usize,
        _ => 255,
    };
    let (min, max) = if pinned { (4, 10) } else { (min, max) };
    let bound = *ctx.rng.pick(&[0.0, 1.0 / 255.0, 2.0 / 255.0, 0.03, 0.1, 5.0, f64::INFINITY, -1.0]);
    let bound = if pinned { 10.0 } else { bound };
    ctx.desc(format!("{kind} {}x{} {n} hull colours; {min} {max} {bound:.4}", img.width(), img.height()));
    let Some(p) = ctx.must("compute_palette", || compute_palette(&img, min, max, bound)) else { return };
    let ip: Vec<I3> = p.iter().map(ipt).collect();
    let least = n.min(min.max(4));
    ctx.check(p.len() >= least && p.len() >= 4, || format!("{} colours, but at least {least} were asked for", p.len()));
    ctx.check(p.len() <= n, || format!("{} colours, but the hull of the colours has {n} vertices", p.len()));
    ctx.check(strictly_convex(&ip), || format!("palette {} has redundant colours", show(&p)));
    ctx.count("colours_removed", (n - p.len().min(n)) as u64);
    ctx.count(if p.len() < n { "simplified" } else { "unchanged" }, 1);
    if p.len() > max { ctx.count("more_than_max", 1); }
    if bound == f64::INFINITY && p.len() > least { ctx.count("stuck", 1); }
    if bound == f64::INFINITY && p.len() == least { ctx.count("reached_min", 1); }
    if ip.iter().flatten().any(|x| *x == 0 || *x == 255) { ctx.count("clamped", 1); }
    // and it can be used right away
    if !crate::images::full_rank(&img) {
        return;
    }
    if let Some(iw) = ctx.must("ImageWeights::new", || ImageWeights::new(&img)) {
        let Some(d) = decompose(ctx, &iw, &p) else { return };
        let Some(r) = reconstruct(ctx, &d, &p) else { return };
        if p.len() == n {
            ctx.check(maxdiff(&r, &img) <= 1, || "the hull of the colours doesn't reproduce the image".into());
        }
        ctx.count("used", 1);
    }
    ctx.nontrivial(&digest(&[img.as_raw(), &[min as u8, max as u8], &bound.to_le_bytes()]));
}

// ---------------------------------------------------------------------------------------------
// C12: the palette represents the image as well as requested

/// Hull of a few points, triangles oriented outwards. `None` when it is (close to being)
/// ambiguous which triangles there are.
struct FHull {
    tris: Vec<[usize; 3]>,
    verts: Vec<usize>,
}

fn fhull(p: &[F3], tol: f64) -> Option<FHull> {
    let n = p.len();
    let mut tris = vec![];
    let mut verts = BTreeSet::new();
    for a in 0..n {
        for b in a + 1..n {
            for c in b + 1..n {
                let nn = fcross(fsub(p[b], p[a]), fsub(p[c], p[a]));
                let l = fnorm(nn);
                if l < 1e-12 {
                    return None;
                }
                let nn = fmul(nn, 1.0 / l);
                let (mut lo, mut hi, mut near) = (0.0f64, 0.0f64, false);
                for i in 0..n {
                    if i != a && i != b && i != c {
                        let d = fdot(nn, fsub(p[i], p[a]));
                        near |= d.abs() < tol;
                        lo = lo.min(d);
                        hi = hi.max(d);
                    }
                }
                if lo > -tol || hi < tol {
                    if near {
                        return None;
                    }
                    tris.push(if hi <= 0.0 { [a, b, c] } else { [a, c, b] });
                    verts.extend([a, b, c]);
                }
            }
        }
    }
    let v = verts.len();
    if v < 4 || tris.len() != 2 * v - 4 {
        return None;
    }
    Some(FHull { tris, verts: verts.into_iter().collect() })
}

enum Step {
    Collapse(usize, usize, F3),
    Stuck,
    Ambiguous,
}

/// The cheapest way to replace an edge with a single vertex such that no volume is lost.
fn cheapest(p: &[F3], h: &FHull, tol: f64) -> Step {
    let mut edges = BTreeSet::new();
    for t in &h.tris {
        for k in 0..3 {
            let (a, b) = (t[k], t[(k + 1) % 3]);
            edges.insert((a.min(b), a.max(b)));
        }
    }
    let mut best: Vec<(f64, usize, usize, F3)> = vec![];
    for (u, v) in edges {
        let faces: Vec<&[usize; 3]> = h.tris.iter().filter(|t| t.contains(&u) || t.contains(&v)).collect();
        let planes: Vec<(F3, f64)> = faces
            .iter()
            .map(|t| {
                let n = fcross(fsub(p[t[1]], p[t[0]]), fsub(p[t[2]], p[t[0]]));
                let n = fmul(n, 1.0 / fnorm(n));
                (n, fdot(n, p[t[0]]))
            })
            .collect();
        let obj = planes.iter().fold([0.0; 3], |s, (n, _)| fadd(s, *n));
        let mut cand: Vec<(f64, F3)> = vec![];
        let m = planes.len();
        let mut narrow = false;
        for i in 0..m {
            for j in i + 1..m {
                for k in j + 1..m {
                    let a: Vec<Vec<f64>> = [i, j, k].iter().map(|x| planes[*x].0.to_vec()).collect();
                    if det(&a).abs() < 1e-7 {
                        continue;
                    }
                    let b: Vec<f64> = [i, j, k].iter().map(|x| planes[*x].1).collect();
                    let Some(x) = solve(&a, &b) else { continue };
                    let x = [x[0], x[1], x[2]];
                    let worst = planes.iter().map(|(n, o)| fdot(*n, x) - o).fold(f64::INFINITY, f64::min);
                    if worst > -tol {
                        if worst < -1e-10 {
                            narrow = true;
                        }
                        cand.push((fdot(obj, x), x));
                    }
                }
            }
        }
        if cand.is_empty() {
            continue;
        }
        cand.sort_by(|a, b| a.0.total_cmp(&b.0));
        let (o, x) = cand[0];
        if narrow || cand.iter().any(|(o2, x2)| *o2 < o + 1e-6 && fnorm(fsub(*x2, x)) > 1e-6) {
            return Step::Ambiguous;
        }
        let vol: f64 = faces
            .iter()
            .map(|t| {
                let (a, b, c) = (fsub(p[t[0]], x), fsub(p[t[1]], x), fsub(p[t[2]], x));
                fdot(a, fcross(b, c)).abs() / 6.0
            })
            .sum();
        best.push((vol, u, v, x));
    }
    best.sort_by(|a, b| a.0.total_cmp(&b.0));
    match best.len() {
        0 => Step::Stuck,
        n => {
            let (vol, u, v, x) = best[0];
            if n > 1 && best[1].0 < vol * (1.0 + 1e-5) + 1e-9 {
                return Step::Ambiguous;
            }
            Step::Collapse(u, v, x)
        }
    }
}

/// Colours of a palette after rounding: the set of extreme ones.
fn as_palette(p: &[F3], h: &FHull) -> Option<(BTreeSet<I3>, bool)> {
    let mut close = false;
    let q: Vec<I3> = h
        .verts
        .iter()
        .map(|&i| {
            p[i].map(|x| {
                let x = (x * 255.0).clamp(0.0, 255.0);
                close |= ((x - x.floor()) - 0.5).abs() < 1e-4;
                x.round() as i64
            })
        })
        .collect();
    ExactHull::new(&q).map(|h| (h.extreme_points(), close))
}

/// Root mean square distance of the pixels to a hull, in units of the colour range.
fn rms(img: &RgbImage, dist: &dyn Fn(F3) -> f64) -> f64 {
    let mut s = 0.0;
    for p in img.pixels() {
        let d = dist(p.0.map(|x| x as f64)) / 255.0;
        s += d * d;
    }
    (s / img.pixels().len() as f64).sqrt()
}

fn hull_distance(p: &[F3], h: &FHull, q: F3) -> f64 {
    let outside = h.tris.iter().any(|t| {
        let n = fcross(fsub(p[t[1]], p[t[0]]), fsub(p[t[2]], p[t[0]]));
        fdot(n, fsub(q, p[t[0]])) / fnorm(n) > 1e-9
    });
    if !outside {
        return 0.0;
    }
    h.tris
        .iter()
        .map(|t| fnorm(fsub(q, closest_on_triangle(q, p[t[0]], p[t[1]], p[t[2]]))))
        .fold(f64::INFINITY, f64::min)
}

/// Distance of the points from the plane through three far apart ones of them.
fn thickness(p: &[F3]) -> f64 {
    let far = |l: F3, r: F3| if fnorm(r) > fnorm(l) { r } else { l };
    let e: Vec<F3> = p.iter().map(|q| fsub(*q, p[0])).collect();
    let a = e.iter().copied().fold([0.0; 3], far);
    let n = e.iter().map(|b| fcross(a, *b)).fold([0.0; 3], far);
    if fnorm(n) < 1e-9 {
        return 0.0;
    }
    e.iter().map(|b| fdot(*b, n).abs() / fnorm(n)).fold(0.0, f64::max)
}

/// What the simplification described in the documentation yields; `None` if that depends on how
/// ties are broken.
fn simplify(
    ctx: &mut Ctx, img: &RgbImage, min: usize, max: usize, bound: f64, errors: &mut Vec<f64>,
) -> Option<(BTreeSet<I3>, usize)> {
    const TOL: f64 = 1e-6;
    let min = min.max(4);
    let mut p: Vec<F3> = distinct(img).iter().map(|c| c.map(|x| x as f64 / 255.0)).collect();
    let mut h = fhull(&p, TOL)?;
    let (mut pal, _) = as_palette(&p, &h)?;
    let mut steps = 0;
    while h.verts.len() > min {
        let (u, v, x) = match cheapest(&p, &h, 1e-8) {
            Step::Collapse(u, v, x) => (u, v, x),
            Step::Stuck => break,
            Step::Ambiguous => return None,
        };
        let q: Vec<F3> = h.verts.iter().filter(|i| **i != u && **i != v).map(|i| p[*i]).chain([x]).collect();
        let qh = fhull(&q, TOL)?;
        let (new, close) = as_palette(&q, &qh)?;
        let c: Vec<F3> = qh.verts.iter().map(|i| q[*i].map(|x| x.clamp(0.0, 1.0))).collect();
        // whether a hull that clamping makes (almost) flat is usable depends on rounding
        if thickness(&c) < 1e-6 {
            ctx.count("steps_flattened_by_clamping", 1);
            return None;
        }
        if close {
            return None;
        }
        if new.len() < min {
            break;
        }
        if h.verts.len() <= max {
            // clamping often creates faces with more than three vertices: do this exactly
            let e = match fhull(&c, 1e-9) {
                Some(ch) => rms(img, &|z| 255.0 * hull_distance(&c, &ch, z.map(|x| x / 255.0))),
                None => {
                    ctx.count("steps_with_ambiguous_error", 1);
                    return None;
                }
            };
            errors.push(e);
            if (e - bound).abs() < 1e-7 && e != 0.0 {
                return None;
            }
            if e > bound {
                ctx.count("stopped_by_error", 1);
                break;
            }
        }
        p = q;
        h = qh;
        pal = new;
        steps += 1;
    }
    Some((pal, steps))
}

pub fn c12(ctx: &mut Ctx) {
    let handful = ctx.rng.bool(3, 5);
    let (kind, img, hull) = if handful {
        let i = few_image(ctx);
        let Some(h) = ExactHull::new(&distinct(&i)) else { return };
        ("handful", i, h)
    } else {
        colour_sample(ctx, gen::IMAGE_KINDS, 8, 64)
    };
    let n = hull.extreme.len();
    let min = ctx.rng.range(0, n as i64) as usize;
    let min = if ctx.rng.bool(1, 2) { min.min(5) } else { min };
    let max = *ctx.rng.pick(&[0usize, 4, 5, 6, 8, 10, 255, 100]);
    let bound = match ctx.rng.below(6) {
        0 => 0.0,
        1 => 2.0 / 255.0,
        2 => -1.0,
        3 => f64::INFINITY,
        _ => ctx.rng.f().powi(2) * 0.12,
    };
    let few = n <= 14 && distinct(&img).len() <= 40;
    let (mut max, mut bound) = (max, bound);
    if few && ctx.rng.bool(1, 2) {
        // a bound that is only just enough for one of the steps, or isn't
        let mut errors = vec![];
        simplify(ctx, &img, min, usize::MAX, f64::INFINITY, &mut errors);
        errors.retain(|e| *e > 1e-4);
        if !errors.is_empty() {
            let i = ctx.rng.below(errors.len() as u64) as usize;
            bound = errors[i] + if ctx.rng.bool(1, 2) { 3e-7 } else { -3e-7 };
            if ctx.rng.bool(3, 4) {
                max = 255;
            }
            ctx.count("sharp_bounds", 1);
        }
    }
    ctx.desc(format!("{kind} {}x{} {n} hull colours; {min} {max} {bound:.8}", img.width(), img.height()));
    let Some(p) = ctx.must("compute_palette", || compute_palette(&img, min, max, bound)) else { return };
    let got: BTreeSet<I3> = p.iter().map(ipt).collect();
    let Some(ph) = ExactHull::new(&got.iter().copied().collect::<Vec<_>>()) else {
        ctx.viol(format!("palette {} is flat", show(&p)));
        return;
    };
    // nothing to simplify: exactly the extreme colours of the image
    if min >= n || (max >= n && bound < 0.0) {
        let want = hull.extreme_points();
        ctx.check(got == want, || format!("palette {} isn't the hull of the colours", show(&p)));
        ctx.count("exact_hull", 1);
    }
    // the error is what was asked for
    const ROUNDING: f64 = 0.8661 / 255.0;
    if max >= n {
        let e = rms(&img, &|z| fnorm(fsub(z, ph.closest(z))));
        ctx.max("error_above_bound", e - bound.max(0.0));
        ctx.check(e <= bound.max(0.0) + ROUNDING, || format!("error {e} of palette {} exceeds the bound {bound}", show(&p)));
        ctx.count("error_checked", 1);
    }
    // simplification only ever adds colours
    let clamped = got.iter().flatten().any(|x| *x == 0 || *x == 255);
    if !clamped {
        let worst = hull.extreme_points().iter().map(|c| {
            let z = c.map(|x| x as f64);
            fnorm(fsub(z, ph.closest(z)))
        }).fold(0.0, f64::max);
        ctx.max("unclamped_distance", worst);
        ctx.check(worst <= 0.8661, || format!("palette {} lost colours of the image ({worst} levels)", show(&p)));
        ctx.count("unclamped", 1);
    } else {
        ctx.count("clamped", 1);
    }
    // the documented algorithm
    if few {
        if let Some((want, steps)) = simplify(ctx, &img, min, max, bound, &mut vec![]) {
            ctx.count("simulated", 1);
            ctx.count(&format!("simulated_steps_{steps}"), 1);
            if got.len() > 4.max(min) { ctx.count("simulated_ends_early", 1); }
            ctx.check(got == want, || format!("palette {} instead of {}", show(&p), show(&want.iter().map(|c| rgb(*c)).collect::<Vec<_>>())));
        } else {
            ctx.count("ambiguous", 1);
        }
    }
    ctx.nontrivial(&digest(&[img.as_raw(), &[min as u8, max as u8], &bound.to_le_bytes()]));
}
