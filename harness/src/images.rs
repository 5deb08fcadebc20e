//! Monitors for the image pipeline: weights, decomposition, recolouring.
use crate::ctx::*;
use crate::gen::{self, cube_palette, valid_palette};
use crate::geom::*;
use crate::model::*;
use image::{GenericImageView, ImageBuffer, Rgb, RgbImage};
use image_palette_recoloring::{compute_palette, DecomposedImage, ImageWeights};

pub fn int_points(img: &RgbImage) -> Vec<Vec<i64>> {
    img.enumerate_pixels()
        .map(|(x, y, p)| vec![p[0] as i64, p[1] as i64, p[2] as i64, x as i64, y as i64])
        .collect()
}

pub fn full_rank(img: &RgbImage) -> bool {
    affine_rank(&int_points(img)) == 5
}

pub fn show(p: &[Rgb<u8>]) -> String {
    p.iter().map(|c| format!("{:02x}{:02x}{:02x}", c[0], c[1], c[2])).collect::<Vec<_>>().join(",")
}

/// An image the pipeline has to be able to handle.
pub fn sample(ctx: &mut Ctx, kinds: &[&'static str], max: u32) -> (&'static str, RgbImage) {
    loop {
        let (kind, img) = gen::any_image(&mut ctx.rng, kinds, max);
        if full_rank(&img) {
            ctx.count(&format!("kind_{kind}"), 1);
            return (kind, img);
        }
        ctx.count("rejected_degenerate", 1);
    }
}

pub fn weights(ctx: &mut Ctx, img: &RgbImage) -> Option<ImageWeights> {
    let iw = ctx.must("ImageWeights::new", || ImageWeights::new(img))?;
    ctx.check((iw.width(), iw.height()) == img.dimensions(), || "the weights have the wrong size".into());
    Some(iw)
}

pub fn decompose(ctx: &mut Ctx, iw: &ImageWeights, pal: &[Rgb<u8>]) -> Option<DecomposedImage> {
    match ctx.must("DecomposedImage::new", || DecomposedImage::new(iw, pal))? {
        Ok(d) => {
            let ok = (d.width(), d.height()) == (iw.width(), iw.height()) && d.num_channels() == pal.len();
            ctx.check(ok, || "the decomposed image has the wrong size".into());
            Some(d)
        }
        Err(e) => {
            ctx.viol(format!("palette {} was rejected: {e}", show(pal)));
            None
        }
    }
}

pub fn reconstruct(ctx: &mut Ctx, d: &DecomposedImage, pal: &[Rgb<u8>]) -> Option<RgbImage> {
    let r = ctx.must("reconstruct", || d.reconstruct(pal))?;
    match r {
        None => {
            ctx.viol("reconstruct returned None for a palette of the right size");
            None
        }
        Some(x) => {
            ctx.check(x.dimensions() == (d.width(), d.height()), || "the image has the wrong size".into());
            Some(x)
        }
    }
}

pub fn maxdiff(a: &RgbImage, b: &RgbImage) -> i64 {
    if a.dimensions() != b.dimensions() {
        return 999;
    }
    a.as_raw().iter().zip(b.as_raw()).map(|(x, y)| (*x as i64 - *y as i64).abs()).max().unwrap_or(0)
}

fn first_diff(a: &RgbImage, b: &RgbImage, tol: i64) -> String {
    for (x, y, p) in a.enumerate_pixels() {
        let q = b.get_pixel(x, y);
        if (0..3).any(|k| (p[k] as i64 - q[k] as i64).abs() > tol) {
            return format!("pixel ({x},{y}): {:?} and {:?}", p.0, q.0);
        }
    }
    "different sizes".into()
}

/// Signed channel weights, measured with recolouring palettes in which one colour stands out.
/// For each channel and pixel: an interval that contains the weight.
pub fn measure(ctx: &mut Ctx, d: &DecomposedImage) -> Option<Vec<Vec<(f64, f64)>>> {
    let n = d.num_channels();
    let mut out: Vec<Vec<(f64, f64)>> = vec![];
    for g in (0..n).step_by(3) {
        let mut pal = vec![Rgb([100u8; 3]); n];
        for k in 0..3.min(n - g) {
            pal[g + k][k] = 255;
        }
        let r = reconstruct(ctx, d, &pal)?;
        for k in 0..3.min(n - g) {
            out.push(
                r.pixels()
                    .map(|p| {
                        let v = p[k] as f64;
                        let lo = if p[k] == 0 { f64::NEG_INFINITY } else { (v - 100.0) / 155.0 };
                        let hi = if p[k] == 255 { f64::INFINITY } else { (v + 1.0 - 100.0) / 155.0 };
                        (lo, hi)
                    })
                    .collect(),
            );
        }
    }
    Some(out)
}

fn digest(parts: &[&[u8]]) -> Vec<u8> {
    let mut v = vec![];
    for p in parts {
        v.extend_from_slice(&(p.len() as u64).to_le_bytes());
        v.extend_from_slice(p);
    }
    v
}

fn colours(img: &RgbImage) -> usize {
    img.pixels().map(|p| p.0).collect::<std::collections::HashSet<_>>().len()
}

// ---------------------------------------------------------------------------------------------
// C06: every pixel is reproduced

pub fn c06(ctx: &mut Ctx) {
    // every so often: large and oddly shaped images
    let special = ctx.case % 40;
    let (kind, img) = match special {
        7 | 17 | 27 => {
            let big = if ctx.thorough { 1400 } else { 700 };
            let (w, h) = match special {
                7 => (ctx.rng.range(257, big) as u32, ctx.rng.range(2, 5) as u32),
                17 => (ctx.rng.range(2, 5) as u32, ctx.rng.range(257, big) as u32),
                _ => (ctx.rng.range(100, 400) as u32, ctx.rng.range(100, 300) as u32),
            };
            let kind = *ctx.rng.pick(&["few", "cube", "primaries", "block"]);
            let img = gen::image(kind, w, h, &mut ctx.rng);
            if !full_rank(&img) {
                return;
            }
            ctx.count("large", 1);
            (kind, img)
        }
        37 => sample(ctx, gen::IMAGE_KINDS, 40),
        _ => sample(ctx, gen::IMAGE_KINDS, 14),
    };
    let (w, h) = img.dimensions();
    ctx.desc(format!("{kind} {w}x{h}"));
    let iw = if ctx.rng.bool(1, 3) {
        // a view into a bigger image
        let (ox, oy) = (ctx.rng.below(5) as u32, ctx.rng.below(5) as u32);
        let mut big: RgbImage = ImageBuffer::from_fn(w + ox + 3, h + oy + 2, |x, y| {
            Rgb([(x * 7) as u8, (y * 11) as u8, (x ^ y) as u8])
        });
        image::imageops::replace(&mut big, &img, ox as i64, oy as i64);
        let sub = big.view(ox, oy, w, h);
        ctx.count("views", 1);
        ctx.must("ImageWeights::new", || ImageWeights::new(&*sub))
    } else {
        ctx.must("ImageWeights::new", || ImageWeights::new(&img))
    };
    let Some(iw) = iw else { return };
    ctx.check((iw.width(), iw.height()) == (w, h), || "the weights have the wrong size".into());
    let mut cube = cube_palette();
    ctx.rng.shuffle(&mut cube);
    let Some(d) = decompose(ctx, &iw, &cube) else { return };
    let Some(r) = reconstruct(ctx, &d, &cube) else { return };
    let m = maxdiff(&r, &img);
    ctx.max("level_error", m as f64);
    ctx.check(m <= 1, || format!("pixels aren't reproduced: {}", first_diff(&img, &r, 1)));
    ctx.count("pixels", (w * h) as u64);
    ctx.count("distinct_colours", colours(&img) as u64);
    // and with all of the channels exchanged for grey levels of their sum: nothing gets lost
    let Some(white) = reconstruct(ctx, &d, &vec![Rgb([255, 200, 1]); 8]) else { return };
    let bad = white.pixels().find(|p| p[0] < 254 || p[1] < 199 || p[1] > 200 || p[2] > 1);
    ctx.check(bad.is_none(), || format!("the weights of a pixel don't add up to one: {bad:?}"));
    ctx.nontrivial(&digest(&[&w.to_le_bytes(), img.as_raw()]));
}

// ---------------------------------------------------------------------------------------------
// C07: the weights are those of the Delaunay cell around the pixel

pub fn c07(ctx: &mut Ctx) {
    let max = if ctx.case % 9 == 0 { 18 } else { 10 };
    let kinds = ["rand", "mid", "blobs", "photo", "sphere", "smooth", "few", "edge255", "stripe"];
    let (kind, img) = if ctx.case % 40 == 13 {
        // rows or columns that don't fit into a byte
        let img = gen::long_image(&mut ctx.rng);
        ctx.count("long_images", 1);
        ("long", img)
    } else {
        sample(ctx, &kinds, max)
    };
    let n = ctx.rng.range(4, 9) as usize;
    // what a palette that isn't unambiguous maps colours to is up to the implementation
    let (pal, star) = loop {
        let p = if ctx.rng.bool(1, 4) {
            // contains all colours, or almost
            let mut p = vec![Rgb([0, 0, 0])];
            for _ in 1..n {
                p.push(Rgb([255, 255, 255]));
                for k in 0..3 {
                    let l = p.len() - 1;
                    p[l][k] = if ctx.rng.bool(1, 2) { 255 } else { ctx.rng.below(40) as u8 };
                }
            }
            p
        } else {
            valid_palette(&mut ctx.rng, n)
        };
        if let Some(s) = Star::new(&p) {
            if !s.ambiguous {
                break (p, s);
            }
        }
    };
    let (w, h) = img.dimensions();
    ctx.desc(format!("{kind} {w}x{h} palette {}", show(&pal)));
    let Some(iw) = weights(ctx, &img) else { return };
    let Some(d) = decompose(ctx, &iw, &pal) else { return };
    let total = (w * h) as usize;
    let mut pixels: Vec<usize> = (0..total).collect();
    ctx.rng.shuffle(&mut pixels);
    pixels.truncate(40);
    let rw = RefWeights::new(&img, &pixels);
    ctx.count("lp_infeasible", rw.infeasible as u64);
    let star_rows: Vec<Vec<f64>> =
        rw.hv.iter().map(|v| star.coords([v[0] * 255.0, v[1] * 255.0, v[2] * 255.0])).collect();
    let Some(m) = measure(ctx, &d) else { return };
    let recol: Vec<Rgb<u8>> =
        (0..pal.len()).map(|_| Rgb([ctx.rng.byte(), ctx.rng.byte(), ctx.rng.byte()])).collect();
    let Some(rec) = reconstruct(ctx, &d, &recol) else { return };
    let mut compared = 0;
    for (&i, row) in pixels.iter().zip(&rw.rows) {
        let Some(row) = row else {
            ctx.count("pixels_ambiguous", 1);
            continue;
        };
        compared += 1;
        let mut want = vec![0.0; pal.len()];
        let mut mixed = 0;
        for (j, wt) in row {
            if *wt > 1e-6 {
                mixed += 1;
            }
            for (o, s) in want.iter_mut().zip(&star_rows[*j]) {
                *o += wt * s;
            }
        }
        ctx.count(&format!("pixels_mixing_{mixed}"), 1);
        for (c, x) in want.iter().enumerate() {
            let (lo, hi) = m[c][i];
            ctx.max("weight_error", (lo - x).max(x - hi));
            ctx.check(lo - 1e-4 <= *x && *x <= hi + 1e-4, || {
                format!("pixel {i}: weight of channel {c} is in [{lo},{hi}] instead of {x}")
            });
        }
        let p = rec.get_pixel(i as u32 % w, i as u32 / w);
        for k in 0..3 {
            let v: f64 = want.iter().zip(&recol).map(|(a, c)| a * c[k] as f64).sum();
            let ok = (p[k] as f64) <= v + 0.01 && p[k] as f64 >= v - 1.01;
            ctx.check(ok, || format!("pixel {i} is recoloured to {:?} but component {k} should be {v} (new palette {})", p.0, show(&recol)));
        }
    }
    ctx.count("pixels_compared", compared);
    if compared > 0 {
        ctx.nontrivial(&digest(&[&w.to_le_bytes(), img.as_raw(), show(&pal).as_bytes()]));
    }
}

// ---------------------------------------------------------------------------------------------
// C08: decomposition into palette channels

fn inside_palette(ctx: &mut Ctx, h: &ExactHull, w: u32, hh: u32) -> RgbImage {
    let fpts: Vec<F3> = (0..h.pts.len()).map(|i| h.fpt(i)).collect();
    let r = &mut ctx.rng;
    ImageBuffer::from_fn(w, hh, |_, _| loop {
        let c = if r.bool(1, 4) {
            let p = r.pick(&h.pts);
            [p[0] as u8, p[1] as u8, p[2] as u8]
        } else {
            let k = r.range(2, 5) as usize;
            let mut s = [0.0; 3];
            let mut t = 0.0;
            for _ in 0..k {
                let x = r.f();
                s = fadd(s, fmul(*r.pick(&fpts), x));
                t += x;
            }
            [(s[0] / t).round() as u8, (s[1] / t).round() as u8, (s[2] / t).round() as u8]
        };
        if h.outside([c[0] as f64, c[1] as f64, c[2] as f64]) <= 0.0 {
            return Rgb(c);
        }
    })
}

/// Four or five colours close to a plane: obtuse faces whose closest points are on edges for most colours.
fn skinny_palette(r: &mut crate::rng::Rng) -> Vec<Rgb<u8>> {
    loop {
        let n = r.range(4, 5) as usize;
        let mut axis = || [r.f() - 0.5, r.f() - 0.5, r.f() - 0.5].map(|x| x * 2.0);
        let (a, b) = (axis(), axis());
        let noise = *r.pick(&[0.03, 0.1, 0.25]);
        let pal: Vec<Rgb<u8>> = (0..n)
            .map(|_| {
                let (s, t) = (r.f() - 0.5, r.f() - 0.5);
                Rgb(std::array::from_fn(|k| {
                    (255.0 * (0.5 + a[k] * s + b[k] * t + noise * (r.f() - 0.5))).round().clamp(0.0, 255.0) as u8
                }))
            })
            .collect();
        let ip: Vec<I3> = pal.iter().map(ipt).collect();
        if ExactHull::new(&ip).is_some() && Star::new(&pal).is_some() {
            return pal;
        }
    }
}

pub fn c08(ctx: &mut Ctx) {
    let many = ctx.case % 25 == 11;
    let skinny = ctx.case % 6 == 2 && !many;
    let n = if many { ctx.rng.range(17, if ctx.thorough { 90 } else { 50 }) } else { ctx.rng.range(4, 16) } as usize;
    let mut style = ctx.rng.below(4);
    let pal = if many {
        // the extreme points of random colours on a sphere; that's n or a few less
        let p: Vec<I3> = (0..n)
            .map(|_| {
                let v = [ctx.rng.gauss(), ctx.rng.gauss(), ctx.rng.gauss()];
                let s = fnorm(v).max(1e-9);
                let m = |x: f64| (127.0 + 127.0 * x / s).round() as i64;
                [m(v[0]), m(v[1]), m(v[2])]
            })
            .collect();
        let h = ExactHull::new(&p).unwrap();
        let mut p: Vec<Rgb<u8>> =
            h.extreme_points().into_iter().map(|c| Rgb([c[0] as u8, c[1] as u8, c[2] as u8])).collect();
        ctx.rng.shuffle(&mut p);
        p
    } else if skinny {
        skinny_palette(&mut ctx.rng)
    } else if style == 0 {
        let mut c = cube_palette();
        ctx.rng.shuffle(&mut c);
        c
    } else {
        valid_palette(&mut ctx.rng, n)
    };
    if many {
        style = 2;
    }
    if skinny {
        style = 3;
    }
    let ip: Vec<I3> = pal.iter().map(ipt).collect();
    let hull = ExactHull::new(&ip).unwrap();
    let star = Star::new(&pal).unwrap();
    let (kind, img) = if style == 2 {
        loop {
            let (w, h) = gen::dims(&mut ctx.rng, 9);
            let i = inside_palette(ctx, &hull, w, h);
            if full_rank(&i) {
                break ("inside", i);
            }
        }
    } else if skinny {
        ctx.count("skinny_palettes", 1);
        sample(ctx, &["rand", "sphere", "blobs", "primaries"], 13)
    } else {
        sample(ctx, gen::IMAGE_KINDS, 9)
    };
    let (w, h) = img.dimensions();
    ctx.desc(format!("{kind} {w}x{h} palette {}", show(&pal)));
    let Some(iw) = weights(ctx, &img) else { return };
    let Some(d) = decompose(ctx, &iw, &pal) else { return };
    // convex combinations
    let Some(m) = measure(ctx, &d) else { return };
    for (c, row) in m.iter().enumerate() {
        for (i, (_, hi)) in row.iter().enumerate() {
            ctx.max("negative_weight", -hi);
            ctx.check(*hi > -1e-4, || format!("weight of channel {c} at pixel {i} is negative ({hi})"));
        }
    }
    ctx.count("weights", (m.len() * (w * h) as usize) as u64);
    let k = Rgb([255, ctx.rng.byte(), ctx.rng.byte()]);
    let Some(flat) = reconstruct(ctx, &d, &vec![k; pal.len()]) else { return };
    for p in flat.pixels() {
        let ok = (0..3).all(|j| p[j] == k[j] || p[j] + 1 == k[j]);
        ctx.check(ok, || format!("weights don't add up to one: {:?} instead of {:?}", p.0, k.0));
    }
    // fidelity
    let Some(r) = reconstruct(ctx, &d, &pal) else { return };
    let outside = img.pixels().filter(|p| hull.outside([p[0] as f64, p[1] as f64, p[2] as f64]) > 1e-9).count();
    ctx.count("pixels_inside", (w * h) as u64 - outside as u64);
    ctx.count("pixels_outside", outside as u64);
    if outside == 0 {
        ctx.count("images_inside", 1);
        let e = maxdiff(&r, &img);
        ctx.check(e <= 1, || format!("the palette can represent every colour, but the pixels aren't reproduced: {}", first_diff(&img, &r, 1)));
    }
    // pixels that are vertices of the hull of all pixels are decomposed on their own
    let pts: Vec<[f64; 5]> = rgbxy(&img);
    let Some(ch) = ctx.must("hull", || qhull_rs::ConvexHull::<nalgebra::Const<5>>::from_arrays(&pts)) else { return };
    let hv: std::collections::HashSet<[u64; 5]> = ch
        .vertices()
        .map(|v| {
            let p = v.point();
            [p[0].to_bits(), p[1].to_bits(), p[2].to_bits(), p[3].to_bits(), p[4].to_bits()]
        })
        .collect();
    for (i, p) in pts.iter().enumerate() {
        if !hv.contains(&p.map(f64::to_bits)) {
            continue;
        }
        let c = *img.get_pixel(i as u32 % w, i as u32 / w);
        let c = [c[0] as f64, c[1] as f64, c[2] as f64];
        let want = hull.closest(c);
        let got = r.get_pixel(i as u32 % w, i as u32 / w);
        let off = fnorm(fsub(c, want));
        ctx.count(if off > 1e-9 { "corner_pixels_outside" } else { "corner_pixels_inside" }, 1);
        for k in 0..3 {
            let ok = got[k] as f64 <= want[k] + 0.01 && got[k] as f64 >= want[k] - 1.01;
            ctx.check(ok, || format!("pixel {i} {c:?} becomes {:?}, but {want:?} is the closest colour", got.0));
        }
        if !star.ambiguous {
            let x = star.coords(c);
            ctx.count("corner_pixels_unambiguous", 1);
            for (j, v) in x.iter().enumerate() {
                let (lo, hi) = m[j][i];
                ctx.max("star_error", (lo - v).max(v - hi));
                ctx.check(lo - 1e-4 <= *v && *v <= hi + 1e-4, || {
                    format!("pixel {i} {c:?}: weight of channel {j} is in [{lo},{hi}] instead of {v}")
                });
            }
        }
    }
    ctx.nontrivial(&digest(&[&w.to_le_bytes(), img.as_raw(), show(&pal).as_bytes()]));
}

// ---------------------------------------------------------------------------------------------
// C09: recolouring is linear in the palette

pub fn c09(ctx: &mut Ctx) {
    let (kind, img) = sample(ctx, gen::IMAGE_KINDS, 9);
    let n = ctx.rng.range(4, 12) as usize;
    let pal = if ctx.rng.bool(1, 5) { cube_palette() } else { valid_palette(&mut ctx.rng, n) };
    let n = pal.len();
    let ambiguous = Star::new(&pal).map_or(true, |s| s.ambiguous);
    let (w, h) = img.dimensions();
    ctx.desc(format!("{kind} {w}x{h} palette {}", show(&pal)));
    let Some(iw) = weights(ctx, &img) else { return };
    let Some(d) = decompose(ctx, &iw, &pal) else { return };
    // the channels as grayscale images
    let mut gray: Vec<Vec<u8>> = vec![];
    for c in 0..n {
        let Some(g) = ctx.must("get_channel_grayscale", || d.get_channel_grayscale(c)) else { return };
        let Some(g) = g else {
            ctx.viol(format!("channel {c} of {n} is missing"));
            return;
        };
        ctx.check(g.dimensions() == (w, h), || "a channel has the wrong size".into());
        gray.push(g.into_raw());
    }
    let Some(g) = ctx.must("get_channel_grayscale", || {
        [n, n + 1, usize::MAX].map(|c| d.get_channel_grayscale(c).is_none())
    }) else { return };
    ctx.check(g == [true; 3], || "there are more channels than colours".into());
    if ctx.violated() { return }
    for c in 0..n {
        let mut p = vec![Rgb([0u8; 3]); n];
        p[c] = Rgb([255, 0, 255]);
        let Some(r) = reconstruct(ctx, &d, &p) else { return };
        for (i, px) in r.pixels().enumerate() {
            let ok = px[1] == 0 && px[0] == px[2] && (px[0] as i64 - gray[c][i] as i64).abs() <= 1;
            ctx.check(ok, || format!("channel {c} is {} at pixel {i}, but recolouring gives {:?}", gray[c][i], px.0));
        }
    }
    let rnd = |ctx: &mut Ctx| -> Vec<Rgb<u8>> {
        (0..n).map(|_| Rgb([ctx.rng.byte(), ctx.rng.byte(), ctx.rng.byte()])).collect()
    };
    for _ in 0..3 {
        let p = rnd(ctx);
        let Some(a) = reconstruct(ctx, &d, &p) else { return };
        // twice the same
        let Some(b) = reconstruct(ctx, &d, &p) else { return };
        ctx.check(a == b, || "recolouring twice gives different images".into());
        // components are independent
        let q: Vec<Rgb<u8>> = p.iter().map(|c| Rgb([c[2], c[0], c[1]])).collect();
        let Some(b) = reconstruct(ctx, &d, &q) else { return };
        let ok = a.pixels().zip(b.pixels()).all(|(x, y)| [x[2], x[0], x[1]] == y.0);
        ctx.check(ok, || "exchanging the components of all colours doesn't exchange those of the image".into());
        // the complement
        let q: Vec<Rgb<u8>> = p.iter().map(|c| Rgb(c.0.map(|x| 255 - x))).collect();
        let Some(b) = reconstruct(ctx, &d, &q) else { return };
        for (x, y) in a.pixels().zip(b.pixels()) {
            for k in 0..3 {
                let s = x[k] as i64 + y[k] as i64;
                ctx.check((253..=255).contains(&s), || format!("image and complement add up to {s}"));
            }
        }
        // the mean of two palettes
        let q = rnd(ctx);
        let p2: Vec<Rgb<u8>> = p.iter().zip(&q).map(|(a, b)| Rgb([0, 1, 2].map(|k| (a[k] & !1).min(254) / 2 + (b[k] & !1) / 2))).collect();
        let pe: Vec<Rgb<u8>> = p.iter().map(|c| Rgb(c.0.map(|x| x & !1))).collect();
        let qe: Vec<Rgb<u8>> = q.iter().map(|c| Rgb(c.0.map(|x| x & !1))).collect();
        let (Some(x), Some(y), Some(z)) = (reconstruct(ctx, &d, &pe), reconstruct(ctx, &d, &qe), reconstruct(ctx, &d, &p2)) else { return };
        for ((x, y), z) in x.pixels().zip(y.pixels()).zip(z.pixels()) {
            for k in 0..3 {
                // each one is rounded down
                let e = (x[k] as f64 + y[k] as f64) / 2.0 - z[k] as f64;
                ctx.check(e <= 1.01 && e >= -1.01, || format!("mean palette gives {} instead of the mean of {} and {}", z[k], x[k], y[k]));
            }
        }
        // the sum of the channels
        for (i, x) in a.pixels().enumerate() {
            for k in 0..3 {
                let s: f64 = (0..n).map(|c| gray[c][i] as f64 / 255.0 * p[c][k] as f64).sum();
                let slack: f64 = (0..n).filter(|&c| gray[c][i] > 0 || n < 30).map(|c| p[c][k] as f64 / 255.0).sum();
                let v = x[k] as f64;
                ctx.check(v >= s - 1.01 && v <= s + slack + 0.01, || format!("pixel {i}: the channels add up to {s} and not {v}"));
            }
        }
        ctx.count("palettes", 5);
    }
    // wrong sizes
    let wrong = [0, 1, n - 1, n + 1, 2 * n, 300];
    for k in wrong {
        let p = vec![Rgb([9, 9, 9]); k];
        let Some(r) = ctx.must("reconstruct", || d.reconstruct(&p)) else { return };
        ctx.check(r.is_none(), || format!("palette of {k} colours accepted for {n} channels"));
    }
    // order of the palette
    if !ambiguous {
        let mut perm: Vec<usize> = (0..n).collect();
        ctx.rng.shuffle(&mut perm);
        let p2: Vec<Rgb<u8>> = perm.iter().map(|&i| pal[i]).collect();
        let Some(d2) = decompose(ctx, &iw, &p2) else { return };
        for c in 0..n {
            let Some(Some(g)) = ctx.must("get_channel_grayscale", || d2.get_channel_grayscale(c)) else { return };
            let e = g.as_raw().iter().zip(&gray[perm[c]]).map(|(a, b)| (*a as i64 - *b as i64).abs()).max().unwrap_or(0);
            ctx.check(e <= 1, || format!("the channels depend on the order of the palette (by {e})"));
        }
        let r = rnd(ctx);
        let r2: Vec<Rgb<u8>> = perm.iter().map(|&i| r[i]).collect();
        let (Some(a), Some(b)) = (reconstruct(ctx, &d, &r), reconstruct(ctx, &d2, &r2)) else { return };
        ctx.check(maxdiff(&a, &b) <= 1, || format!("the recoloured image depends on the order of the palette: {}", first_diff(&a, &b, 1)));
        ctx.count("permuted", 1);
    }
    ctx.nontrivial(&digest(&[&w.to_le_bytes(), img.as_raw(), show(&pal).as_bytes()]));
}

// ---------------------------------------------------------------------------------------------
// C15: determinism. The signature of a case is a digest of everything computed, so that the
// driver can compare it between processes.

pub fn everything(img: &RgbImage, min: usize, max: usize, bound: f64, pal: &[Rgb<u8>]) -> Vec<u8> {
    let p = compute_palette(img, min, max, bound);
    let iw = ImageWeights::new(img);
    let mut out = p.iter().flat_map(|c| c.0).collect::<Vec<u8>>();
    for pal in [&p[..], pal] {
        match DecomposedImage::new(&iw, pal) {
            Ok(d) => {
                for c in 0..d.num_channels() {
                    out.extend(d.get_channel_grayscale(c).unwrap().into_raw());
                }
                let q: Vec<Rgb<u8>> = (0..pal.len()).map(|i| Rgb([(i * 9) as u8, 255 - (i * 7) as u8, (i * 31) as u8])).collect();
                out.extend(d.reconstruct(&q).unwrap().into_raw());
            }
            Err(e) => out.extend(e.bytes()),
        }
    }
    out
}

pub fn c15(ctx: &mut Ctx) {
    let kinds: &[&'static str] = if ctx.rng.bool(1, 2) { gen::IMAGE_KINDS } else { &["sphere", "cube", "few", "rand"] };
    let (kind, img) = sample(ctx, kinds, if ctx.thorough { 10 } else { 7 });
    let (w, h) = img.dimensions();
    let min = ctx.rng.range(4, 9) as usize;
    let max = ctx.rng.range(4, 60) as usize;
    let bound = *ctx.rng.pick(&[0.0, 2.0 / 255.0, 0.03, 0.1, 10.0]);
    let pal = if ctx.rng.bool(1, 3) { cube_palette() } else { valid_palette(&mut ctx.rng, 7) };
    ctx.desc(format!("{kind} {w}x{h} {min} {max} {bound} {}", show(&pal)));
    let run = |i: &RgbImage| everything(i, min, max, bound, &pal);
    let Some(a) = ctx.must("the pipeline", || run(&img)) else { return };
    let Some(b) = ctx.must("the pipeline", || run(&img)) else { return };
    ctx.check(a == b, || "a second call gives different results".into());
    // something else in between, some of it failing
    let other = gen::image("rand", 6, 6, &mut ctx.rng);
    let deg = gen::image("gray", 5, 5, &mut ctx.rng);
    let _ = ctx.attempt(|| run(&other));
    let _ = ctx.attempt(|| run(&deg));
    let Some(b) = ctx.must("the pipeline", || run(&img)) else { return };
    ctx.check(a == b, || "results depend on what was computed before".into());
    // from another thread
    let b = std::thread::scope(|s| s.spawn(|| run(&img)).join());
    match b {
        Ok(b) => { ctx.check(a == b, || "results depend on the thread".into()); }
        Err(_) => ctx.viol("the pipeline panicked in a thread"),
    }
    // as a part of another image
    let (ox, oy) = (ctx.rng.below(4) as u32, ctx.rng.below(4) as u32);
    let mut big = RgbImage::from_pixel(w + ox + 1, h + oy + 1, Rgb([1, 200, 30]));
    image::imageops::replace(&mut big, &img, ox as i64, oy as i64);
    let sub = big.view(ox, oy, w, h);
    let Some(p1) = ctx.must("compute_palette", || compute_palette(&img, min, max, bound)) else { return };
    let Some(p2) = ctx.must("compute_palette", || compute_palette(&*sub, min, max, bound)) else { return };
    ctx.check(p1 == p2, || "the palette of a part of an image depends on the rest of it".into());
    let (Some(i1), Some(i2)) = (ctx.must("weights", || ImageWeights::new(&img)), ctx.must("weights", || ImageWeights::new(&*sub))) else { return };
    let (Some(d1), Some(d2)) = (decompose(ctx, &i1, &pal), decompose(ctx, &i2, &pal)) else { return };
    for c in 0..pal.len() {
        ctx.check(d1.get_channel_grayscale(c) == d2.get_channel_grayscale(c), || "the weights of a part of an image depend on the rest of it".into());
    }
    ctx.count("runs", 4);
    ctx.count("bytes_compared", 4 * a.len() as u64);
    // colours with symmetries, for which several ways of simplifying the palette are equally good
    let sym = loop {
        let i = gen::image("symmetric", ctx.rng.range(6, 24) as u32, 1, &mut ctx.rng);
        if ExactHull::new(&i.pixels().map(ipt).collect::<Vec<_>>()).is_some() {
            break i;
        }
    };
    ctx.desc(format!("symmetric colours {:02x?}", sym.as_raw()));
    let pals: Vec<_> = (0..6).map(|_| ctx.must("compute_palette", || compute_palette(&sym, 4, 10, 10.0))).collect();
    if pals.iter().any(|p| p.is_none()) { return }
    ctx.count("symmetric_palettes", 1);
    ctx.check(pals.iter().all(|p| *p == pals[0]), || format!("the palette of {:02x?} differs between calls", sym.as_raw()));
    let mut a = a;
    a.extend(pals[0].iter().flatten().flat_map(|c| c.0));
    if ctx.case % 11 == 1 && w * h <= 18 {
        // the error bound at which the palette changes, to the last bit
        let f = |b: f64| compute_palette(&img, 4, 100, b);
        let (mut lo, mut hi) = (1e-4f64, 0.6f64);
        let Some((first, last)) = ctx.must("compute_palette", || (f(lo), f(hi))) else { return };
        if first != last {
            while lo.to_bits() + 1 < hi.to_bits() {
                let m = f64::from_bits((lo.to_bits() + hi.to_bits()) / 2);
                let Some(x) = ctx.must("compute_palette", || f(m)) else { return };
                if x == last { hi = m } else { lo = m }
            }
            ctx.count("critical_bounds", 1);
            for b in [lo, hi] {
                let Some(x) = ctx.must("compute_palette", || f(b)) else { return };
                a.extend(x.iter().flat_map(|c| c.0));
                for _ in 0..5 {
                    ctx.check(f(b) == x, || format!("the palette for the error bound {b:?} differs between calls"));
                }
            }
            a.extend(lo.to_bits().to_le_bytes());
        }
    }
    ctx.nontrivial(&a);
}

// ---------------------------------------------------------------------------------------------
// C16: threads

/// Whether the code under test may be shared between threads is observed, not left to the type system.
struct Shared<T>(T);
unsafe impl<T> Sync for Shared<T> {}
unsafe impl<T> Send for Shared<T> {}
impl<T> Shared<T> {
    fn get(&self) -> &T {
        &self.0
    }
}

pub fn c16(ctx: &mut Ctx) {
    let nthreads = 6;
    let mut jobs: Vec<(RgbImage, usize, Vec<Rgb<u8>>, bool)> = vec![];
    for i in 0..5 {
        let deg = i == 4;
        let img = if deg {
            let k = *ctx.rng.pick(&["gray", "plane", "const", "line"]);
            gen::image(k, 5, 4, &mut ctx.rng)
        } else {
            sample(ctx, gen::IMAGE_KINDS, 6).1
        };
        let min = ctx.rng.range(4, 7) as usize;
        let n = ctx.rng.range(4, 8) as usize;
        let pal = valid_palette(&mut ctx.rng, n);
        jobs.push((img, min, pal, deg));
    }
    let run = |j: &(RgbImage, usize, Vec<Rgb<u8>>, bool)| {
        std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| everything(&j.0, j.1, 30, 0.02, &j.2))).ok()
    };
    let want: Vec<Option<Vec<u8>>> = jobs.iter().map(run).collect();
    for (w, j) in want.iter().zip(&jobs) {
        ctx.check(w.is_some() != j.3, || "the pipeline panicked".into());
    }
    if ctx.violated() { return }
    ctx.desc(format!("{} jobs on {nthreads} threads", jobs.len()));
    // shared between the threads
    let iw = ImageWeights::new(&jobs[0].0);
    let d = DecomposedImage::new(&iw, &jobs[0].2).unwrap();
    let recol: Vec<Rgb<u8>> = jobs[0].2.iter().map(|c| Rgb([c[2], 255 - c[0], c[1]])).collect();
    let want_rec = d.reconstruct(&recol).unwrap();
    let want_gray = d.get_channel_grayscale(0).unwrap();
    let pts: Vec<[f64; 3]> = (0..25).map(|_| [ctx.rng.f(), ctx.rng.f(), ctx.rng.f()]).collect();
    let tri = qhull_rs::Delaunay::<nalgebra::Const<3>>::from_arrays(&pts);
    let q: Vec<nalgebra::Vector3<f64>> = (0..10).map(|_| nalgebra::Vector3::new(ctx.rng.f(), ctx.rng.f(), ctx.rng.f())).collect();
    let find = |t: &qhull_rs::Delaunay<nalgebra::Const<3>>| -> Vec<Option<usize>> {
        let s = t.simplex_searcher();
        q.iter().map(|p| s.find_simplex(p).map(|x| x.index())).collect()
    };
    let want_find = find(&tri);
    let hull = qhull_rs::ConvexHull::<nalgebra::Const<3>>::from_arrays(&pts);
    let hsum = |h: &qhull_rs::ConvexHull<nalgebra::Const<3>>| -> Vec<(usize, Vec<usize>, Vec<usize>)> {
        h.facets()
            .map(|f| (f.index(), f.vertices().map(|v| v.index()).collect(), f.neighbors().map(|g| g.index()).collect()))
            .collect()
    };
    let want_hull = hsum(&hull);
    let (iw, d, tri, hull) = (Shared(iw), Shared(d), Shared(tri), Shared(hull));
    let barrier = std::sync::Barrier::new(nthreads);
    let bad = std::sync::Mutex::new(Vec::<String>::new());
    let overlap = std::sync::atomic::AtomicUsize::new(0);
    let maxo = std::sync::atomic::AtomicUsize::new(0);
    let rounds = if ctx.thorough { 4 } else { 2 };
    let calls = std::sync::atomic::AtomicUsize::new(0);
    std::thread::scope(|s| {
        for t in 0..nthreads {
            let (jobs, want, barrier, bad, overlap, maxo, run, calls) = (&jobs, &want, &barrier, &bad, &overlap, &maxo, &run, &calls);
            let (iw, d, recol, want_rec, want_gray, find, tri, want_find) = (&iw, &d, &recol, &want_rec, &want_gray, &find, &tri, &want_find);
            let (hsum, hull, want_hull, pts) = (&hsum, &hull, &want_hull, &pts);
            s.spawn(move || {
                use std::sync::atomic::Ordering::*;
                let (iw, d, tri, hull) = (iw.get(), d.get(), tri.get(), hull.get());
                for r in 0..rounds {
                    barrier.wait();
                    for k in 0..jobs.len() {
                        let j = (k + t * 2 + r) % jobs.len();
                        let o = overlap.fetch_add(1, Relaxed) + 1;
                        maxo.fetch_max(o, Relaxed);
                        let got = run(&jobs[j]);
                        overlap.fetch_sub(1, Relaxed);
                        calls.fetch_add(1, Relaxed);
                        if got != want[j] {
                            bad.lock().unwrap().push(format!("job {j} gives another result next to other threads"));
                        }
                    }
                    let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                        let d2 = DecomposedImage::new(iw, &jobs[0].2).unwrap();
                        for x in [d, &d2] {
                            if x.reconstruct(recol).unwrap() != *want_rec || x.get_channel_grayscale(0).unwrap() != *want_gray {
                                bad.lock().unwrap().push("using a shared decomposed image gives another result".into());
                            }
                        }
                        if find(tri) != *want_find {
                            bad.lock().unwrap().push("searching a shared triangulation gives another result".into());
                        }
                        let h2 = qhull_rs::ConvexHull::<nalgebra::Const<3>>::from_arrays(pts);
                        if hsum(hull) != *want_hull || hsum(&h2) != *want_hull {
                            bad.lock().unwrap().push("a hull differs next to other threads".into());
                        }
                    }));
                    if res.is_err() {
                        bad.lock().unwrap().push("panicked next to other threads".into());
                    }
                }
            });
        }
    });
    let bad = bad.into_inner().unwrap();
    ctx.check(bad.is_empty(), || bad[0].clone());
    let (c, m) = (calls.into_inner() as u64, maxo.into_inner());
    ctx.count("concurrent_pipelines", c);
    ctx.max("max_overlap", m as f64);
    ctx.nontrivial(&digest(&[jobs[0].0.as_raw(), jobs[1].0.as_raw()]));
}

// ---------------------------------------------------------------------------------------------
// C17: images that can't be decomposed

pub fn c17(ctx: &mut Ctx) {
    let kinds = ["gray", "const", "plane", "line", "posgray", "thin", "empty", "tiny", "two", "three", "rowconst", "rand"];
    let kind = *ctx.rng.pick(&kinds);
    let (w, h) = gen::dims(&mut ctx.rng, 12);
    let img = match kind {
        "thin" => {
            if ctx.rng.bool(1, 2) { gen::image("rand", 1, h, &mut ctx.rng) } else { gen::image("rand", w, 1, &mut ctx.rng) }
        }
        "empty" => {
            let (w, h) = *ctx.rng.pick(&[(0, 0), (0, 5), (5, 0), (0, 1), (1, 0)]);
            RgbImage::new(w, h)
        }
        "tiny" => {
            let (w, h) = *ctx.rng.pick(&[(1, 1), (2, 1), (1, 2), (2, 2), (1, 3), (3, 1), (2, 3), (3, 2)]);
            gen::image("rand", w, h, &mut ctx.rng)
        }
        "two" | "three" => {
            let n = if kind == "two" { 2 } else { 3 };
            let c: Vec<Rgb<u8>> = (0..n).map(|_| Rgb([ctx.rng.byte(), ctx.rng.byte(), ctx.rng.byte()])).collect();
            ImageBuffer::from_fn(w, h, |_, _| *ctx.rng.pick(&c))
        }
        "rowconst" => {
            // colours depend on x only
            let c: Vec<Rgb<u8>> = (0..w).map(|_| Rgb([ctx.rng.byte(), ctx.rng.byte(), ctx.rng.byte()])).collect();
            ImageBuffer::from_fn(w, h, |x, _| c[x as usize])
        }
        k => gen::image(k, w, h, &mut ctx.rng),
    };
    let (w, h) = img.dimensions();
    ctx.desc(format!("{kind} {w}x{h}"));
    let ok5 = affine_rank(&int_points(&img)) == 5;
    let ok3 = affine_rank(&img.pixels().map(|p| vec![p[0] as i64, p[1] as i64, p[2] as i64]).collect::<Vec<_>>()) == 3;
    ctx.count(&format!("kind_{kind}"), 1);
    ctx.count(if ok5 { "weights_possible" } else { "weights_impossible" }, 1);
    ctx.count(if ok3 { "palette_possible" } else { "palette_impossible" }, 1);
    let good = gen::image("rand", 5, 5, &mut ctx.rng);
    let cube = cube_palette();
    let before = ctx.must("the pipeline", || everything(&good, 5, 20, 0.02, &cube));
    if before.is_none() { return }
    for _ in 0..2 {
        let r = ctx.attempt(|| {
            let iw = ImageWeights::new(&img);
            (iw.width(), iw.height(), DecomposedImage::new(&iw, &cube).map(|d| d.reconstruct(&cube)))
        });
        match r {
            Ok((ww, hh, d)) => {
                ctx.check(ok5, || "an image without a volume was decomposed".into());
                let ok = (ww, hh) == (w, h) && matches!(&d, Ok(Some(i)) if maxdiff(i, &img) <= 1);
                ctx.check(ok, || "the image isn't reproduced".into());
            }
            Err(e) => {
                ctx.check(!ok5, || format!("an ordinary image made ImageWeights::new panic: {e}"));
                ctx.check(!e.starts_with(" at"), || "panic without a message".into());
                ctx.count("panics", 1);
            }
        }
        let (min, max) = (ctx.rng.below(9) as usize, ctx.rng.below(40) as usize);
        let bound = *ctx.rng.pick(&[0.0, 0.01, 1.0, f64::INFINITY, f64::NAN, -1.0]);
        match ctx.attempt(|| compute_palette(&img, min, max, bound)) {
            Ok(p) => {
                ctx.check(ok3 || p.is_empty(), || format!("palette {} for an image without a volume", show(&p)));
                ctx.check(!ok3 || p.len() >= 4, || "no palette for an ordinary image".into());
            }
            Err(e) => {
                ctx.check(!ok3, || format!("an ordinary image made compute_palette panic: {e}"));
                ctx.count("panics", 1);
            }
        }
    }
    let after = ctx.must("the pipeline", || everything(&good, 5, 20, 0.02, &cube));
    ctx.check(after == before, || "results are different after an image that can't be decomposed".into());
    if !ok5 || !ok3 {
        ctx.nontrivial(&digest(&[&w.to_le_bytes(), img.as_raw()]));
    }
}
