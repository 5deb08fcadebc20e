//! Workload generators: images, palettes and point sets.
use crate::rng::Rng;
use image::{ImageBuffer, Rgb, RgbImage};

pub const IMAGE_KINDS: &[&str] = &[
    "rand", "few", "smooth", "blobs", "mid", "grad", "gradprod", "cube", "stripe", "block",
    "nearflat", "photo", "edge255", "twotone", "primaries", "sphere", "symmetric",
];

/// Kinds for which the RGBXY points are in general position with overwhelming probability.
pub const GENERIC_KINDS: &[&str] = &["rand", "mid", "blobs", "photo", "sphere", "smooth"];

fn q(f: f64) -> u8 {
    f.round().clamp(0.0, 255.0) as u8
}

fn symmetric_colours(r: &mut Rng, most: usize) -> Vec<Rgb<u8>> {
    let mut cols: Vec<Rgb<u8>> = vec![];
    let kind = r.below(7);
    let coarse = r.bool(1, 2);
    for _ in 0..r.range(1, 4) {
        let mut c = || if coarse { *r.pick(&[0u8, 51, 85, 127, 170, 204, 255]) } else { r.byte() };
        let (a, b, c) = (c(), c(), c());
        let (x, y, z) = (255 - a, 255 - b, 255 - c);
        let all: Vec<[u8; 3]> = match kind {
            0 => vec![[a, b, c], [b, c, a], [c, a, b], [a, c, b], [b, a, c], [c, b, a]],
            1 => vec![[a, b, c], [b, a, c], [x, y, c], [y, x, c]],
            2 => vec![[a, b, c], [x, y, z]],
            3 => vec![[a, 127, 127], [x, 127, 127], [127, a, 127], [127, x, 127], [127, 127, a], [127, 127, x]],
            4 => vec![[a, b, c], [x, b, c], [a, y, c], [x, y, c], [a, b, z], [x, b, z], [a, y, z], [x, y, z]],
            5 => vec![[a, b, c], [b, c, a], [c, a, b], [x, y, z]],
            _ => vec![[a, a, a], [a, b, b], [b, a, b], [b, b, a]],
        };
        cols.extend(all.iter().map(|c| Rgb(*c)));
    }
    cols.truncate(most.max(1));
    cols
}

pub fn image(kind: &str, w: u32, h: u32, r: &mut Rng) -> RgbImage {
    let ncol = r.range(5, 14) as usize;
    let cols: Vec<[u8; 3]> = (0..ncol).map(|_| [r.byte(), r.byte(), r.byte()]).collect();
    let (fw, fh) = (w.max(1) as f64, h.max(1) as f64);
    match kind {
        "symmetric" => {
            // colours with symmetries: many equal volumes, coplanar and collinear colours
            let cols = symmetric_colours(r, (w * h) as usize);
            let mut i = 0;
            let mut px: Vec<Rgb<u8>> = (0..w * h)
                .map(|_| {
                    i += 1;
                    if i <= cols.len() { cols[i - 1] } else { *r.pick(&cols) }
                })
                .collect();
            r.shuffle(&mut px);
            RgbImage::from_raw(w, h, px.into_iter().flat_map(|p| p.0).collect()).unwrap()
        }
        "rand" => ImageBuffer::from_fn(w, h, |_, _| Rgb([r.byte(), r.byte(), r.byte()])),
        "mid" => {
            let lo = r.range(20, 120);
            let sp = r.range(20, 110);
            ImageBuffer::from_fn(w, h, |_, _| {
                Rgb([
                    r.range(lo, lo + sp) as u8,
                    r.range(lo, lo + sp) as u8,
                    r.range(lo, lo + sp) as u8,
                ])
            })
        }
        "few" => {
            // every colour occurs at least once when there is room
            let mut px: Vec<[u8; 3]> = (0..(w * h) as usize)
                .map(|i| if i < cols.len() { cols[i] } else { *r.pick(&cols) })
                .collect();
            r.shuffle(&mut px);
            let mut it = px.into_iter();
            ImageBuffer::from_fn(w, h, |_, _| Rgb(it.next().unwrap()))
        }
        "smooth" => {
            let c: Vec<f64> = (0..18).map(|_| r.u(-1.0, 1.0)).collect();
            let n = r.u(0.5, 6.0);
            ImageBuffer::from_fn(w, h, |x, y| {
                let (u, v) = (x as f64 / fw, y as f64 / fh);
                let mut p = [0u8; 3];
                for k in 0..3 {
                    let a = &c[k * 6..k * 6 + 6];
                    let s = a[0] * u + a[1] * v + a[2] * u * v
                        + (a[3] * 6.0 * u + a[4] * 6.0 * v).sin() * a[5];
                    p[k] = q(127.0 + 110.0 * s + n * r.gauss());
                }
                Rgb(p)
            })
        }
        "blobs" => {
            let bl: Vec<(f64, f64, f64, usize)> = (0..r.range(3, 9))
                .map(|_| (r.f(), r.f(), r.u(0.1, 0.5), r.below(ncol as u64) as usize))
                .collect();
            ImageBuffer::from_fn(w, h, |x, y| {
                let (u, v) = (x as f64 / fw, y as f64 / fh);
                let mut c = cols[0];
                for b in &bl {
                    if (u - b.0).powi(2) + (v - b.1).powi(2) < b.2 * b.2 {
                        c = cols[b.3]
                    }
                }
                Rgb([
                    q(c[0] as f64 + 4.0 * r.gauss()),
                    q(c[1] as f64 + 4.0 * r.gauss()),
                    q(c[2] as f64 + 4.0 * r.gauss()),
                ])
            })
        }
        "photo" => {
            // luminance ramp + chroma blobs + noise
            let bl: Vec<(f64, f64, f64, [f64; 3])> = (0..r.range(3, 8))
                .map(|_| {
                    (r.f(), r.f(), r.u(2.0, 30.0),
                     [r.u(-120.0, 120.0), r.u(-120.0, 120.0), r.u(-120.0, 120.0)])
                })
                .collect();
            let (gx, gy) = (r.u(-80.0, 80.0), r.u(-80.0, 80.0));
            ImageBuffer::from_fn(w, h, |x, y| {
                let (u, v) = (x as f64 / fw, y as f64 / fh);
                let mut p = [120.0 + gx * u + gy * v; 3];
                for b in &bl {
                    let g = (-b.2 * ((u - b.0).powi(2) + (v - b.1).powi(2))).exp();
                    for k in 0..3 {
                        p[k] += g * b.3[k];
                    }
                }
                Rgb([
                    q(p[0] + 3.0 * r.gauss()),
                    q(p[1] + 3.0 * r.gauss()),
                    q(p[2] + 3.0 * r.gauss()),
                ])
            })
        }
        "sphere" => {
            let rad = r.u(40.0, 120.0);
            ImageBuffer::from_fn(w, h, |_, _| {
                let (a, b, c) = (r.gauss(), r.gauss(), r.gauss());
                let n = (a * a + b * b + c * c).sqrt().max(1e-9);
                Rgb([q(127.0 + rad * a / n), q(127.0 + rad * b / n), q(127.0 + rad * c / n)])
            })
        }
        "grad" => ImageBuffer::from_fn(w, h, |x, y| {
            Rgb([(x * 255 / w) as u8, (y * 255 / h) as u8, ((x + y) * 255 / (w + h)) as u8])
        }),
        "gradprod" => ImageBuffer::from_fn(w, h, |x, y| {
            Rgb([(x * 255 / w) as u8, (y * 255 / h) as u8, ((x * y) % 256) as u8])
        }),
        "cube" => ImageBuffer::from_fn(w, h, |_, _| {
            let b = r.below(8);
            Rgb([(b & 1) as u8 * 255, (b >> 1 & 1) as u8 * 255, (b >> 2 & 1) as u8 * 255])
        }),
        "stripe" => ImageBuffer::from_fn(w, h, |x, _| Rgb(cols[x as usize % ncol])),
        "block" => ImageBuffer::from_fn(w, h, |x, y| {
            Rgb(cols[((x * 3 / w) + (y * 3 / h) * 3) as usize % ncol])
        }),
        "nearflat" => {
            let mut img: RgbImage = ImageBuffer::from_fn(w, h, |_, _| {
                let g = r.range(10, 240) as u8;
                Rgb([g, g, g])
            });
            for _ in 0..r.range(2, 6) {
                let (x, y) = (r.below(w as u64) as u32, r.below(h as u64) as u32);
                img.put_pixel(x, y, Rgb([r.byte(), r.byte(), r.byte()]));
            }
            img
        }
        "edge255" => ImageBuffer::from_fn(w, h, |_, _| {
            let mut p = [r.byte(), r.byte(), r.byte()];
            p[r.below(3) as usize] = if r.bool(1, 2) { 0 } else { 255 };
            Rgb(p)
        }),
        "twotone" => {
            let (a, b) = (cols[0], cols[1]);
            let mut img: RgbImage = ImageBuffer::from_fn(w, h, |_, _| {
                let t = r.f();
                let mut m = |i: usize| q(a[i] as f64 * t + b[i] as f64 * (1.0 - t) + 2.0 * r.gauss());
                let p = [m(0), m(1), m(2)];
                Rgb(p)
            });
            img.put_pixel(0, 0, Rgb(cols[2]));
            img
        }
        "primaries" => ImageBuffer::from_fn(w, h, |_, _| {
            let c = [[0u8, 0, 0], [255, 0, 0], [0, 255, 0], [0, 0, 255], [255, 255, 255], [128, 128, 128]];
            Rgb(*r.pick(&c))
        }),
        "gray" => ImageBuffer::from_fn(w, h, |_, _| {
            let g = r.byte();
            Rgb([g, g, g])
        }),
        "const" => ImageBuffer::from_pixel(w, h, Rgb(cols[0])),
        "plane" => ImageBuffer::from_fn(w, h, |_, _| Rgb([r.byte(), r.byte(), 77])),
        "line" => ImageBuffer::from_fn(w, h, |_, _| {
            let t = r.below(85) as u8;
            Rgb([t, 3 * t, 255 - t])
        }),
        "posgray" => ImageBuffer::from_fn(w, h, |x, y| {
            // colour is an affine function of the position
            Rgb([(3 * x + y) as u8, (x + 2 * y) as u8, (2 * x + 3 * y) as u8])
        }),
        k => panic!("unknown image kind {k}"),
    }
}

/// Corners of a convex polygon of lattice points: the sides are distinct primitive vectors.
fn lattice_polygon(r: &mut Rng, longest: i64) -> Vec<[i64; 2]> {
    fn gcd(a: i64, b: i64) -> i64 {
        if b == 0 { a } else { gcd(b, a % b) }
    }
    let mut sides = vec![];
    let skip = r.below(12);
    for x in -longest..=longest {
        for y in 0..=longest {
            if (y > 0 || x > 0) && x * x + y * y <= longest * longest && gcd(x.abs(), y) == 1 && !r.bool(skip, 100) {
                sides.extend([[x, y], [-x, -y]]);
            }
        }
    }
    let angle = |s: &[i64; 2]| (s[1] as f64).atan2(s[0] as f64);
    sides.sort_by(|a, b| angle(a).total_cmp(&angle(b)));
    let mut p = [0, 0];
    let mut corners = vec![];
    for s in sides {
        corners.push(p);
        p = [p[0] + s[0], p[1] + s[1]];
    }
    let low = [0, 1].map(|i| corners.iter().map(|c| c[i]).min().unwrap());
    corners.iter().map(|c| [c[0] - low[0], c[1] - low[1]]).collect()
}

/// An image with around 256 colours, most of which are corners of their hull, in such a way that
/// rounding the colours of a simplified hull makes several of them redundant at once.
pub fn many_colours(r: &mut Rng) -> RgbImage {
    let mut cols: Vec<[u8; 3]> = vec![];
    let (lo, hi) = (r.range(0, 40) as u8, r.range(215, 255) as u8);
    for level in [lo, hi] {
        for c in lattice_polygon(r, 8) {
            cols.push([c[0] as u8 + 27, c[1] as u8 + 27, level]);
        }
    }
    for i in 0..40 {
        let w = i as f64 / 40.0 * 6.28 + r.f() * 0.02;
        cols.push([(127.5 + 127.4 * w.cos()) as u8, (127.5 + 127.4 * w.sin()) as u8, 128]);
    }
    r.shuffle(&mut cols);
    cols.truncate(r.range(250, 275) as usize);
    let h = if r.bool(1, 4) { 2 } else { 1 };
    let w = (cols.len() as u32).div_ceil(h);
    RgbImage::from_fn(w, h, |x, y| Rgb(cols[(y * w + x) as usize % cols.len()]))
}

/// A palette of 129 to 255 colours: the corners of two lattice polygons, one above the other, and of
/// a wider one between them are in convex position, and so are subsets of them.
pub fn large_palette(r: &mut Rng) -> Vec<Rgb<u8>> {
    let (lo, hi) = (r.range(0, 40) as u8, r.range(215, 255) as u8);
    let mut cols: Vec<Rgb<u8>> = vec![];
    for level in [lo, hi] {
        cols.extend(lattice_polygon(r, 8).iter().map(|c| Rgb([c[0] as u8 + 27, c[1] as u8 + 27, level])));
    }
    let start = r.f();
    for i in 0..16 {
        let w = (i as f64 + start) / 16.0 * std::f64::consts::TAU;
        cols.push(Rgb([(127.5 + 127.4 * w.cos()).round() as u8, (127.5 + 127.4 * w.sin()).round() as u8, 128]));
    }
    r.shuffle(&mut cols);
    cols.truncate(if r.bool(1, 3) { 255 } else { r.range(129, 255) as usize });
    cols
}

/// Two or three rows or columns of 258 to 600 pixels, of which only some are corners of their hull.
pub fn long_image(r: &mut Rng) -> RgbImage {
    let (n, len) = (r.range(2, 3) as u32, r.range(258, 600) as u32);
    let img = ImageBuffer::from_fn(n, len, |_, y| {
        if y < 4 || y >= len - 4 {
            // one corner of a tetrahedron per row
            let i = y % 4;
            Rgb([i & 1, i >> 1, (i & 1) ^ (i >> 1)].map(|b| if b == 1 { 255 - r.below(30) as u8 } else { r.below(30) as u8 }))
        } else if r.bool(1, 100) {
            Rgb([r.byte(), r.byte(), r.byte()])
        } else {
            Rgb([0; 3].map(|_: u8| 105 + r.below(45) as u8))
        }
    });
    if r.bool(1, 2) { img } else { image::imageops::rotate90(&img) }
}

/// Ordinary (non-degenerate with high probability) image together with its kind name.
pub fn any_image(r: &mut Rng, kinds: &[&'static str], max: u32) -> (&'static str, RgbImage) {
    let kind = *r.pick(kinds);
    let (w, h) = dims(r, max);
    (kind, image(kind, w, h, r))
}

pub fn dims(r: &mut Rng, max: u32) -> (u32, u32) {
    let m = max as i64;
    match r.below(8) {
        0 => (2, r.range(4, m.max(5)) as u32),
        1 => (r.range(4, m.max(5)) as u32, 2),
        2 => (r.range(3, m) as u32, r.range(3, 6) as u32),
        3 => (r.range(3, 6) as u32, r.range(3, m) as u32),
        4 => {
            let n = r.range(3, m) as u32;
            (n, n)
        }
        _ => (r.range(3, m) as u32, r.range(3, m) as u32),
    }
}

pub fn cube_palette() -> Vec<Rgb<u8>> {
    (0..8u8)
        .map(|i| Rgb([(i & 1) * 255, (i >> 1 & 1) * 255, (i >> 2 & 1) * 255]))
        .collect()
}

pub const POINT_KINDS: &[&str] = &[
    "uniform", "gauss", "sphere", "grid", "coarse", "cubeplus", "slab", "rgbxy", "dups", "scaled",
    "offset", "min", "collinear",
];

/// Point sets for hulls. `exact` kinds have integer coordinates.
pub fn points(kind: &str, n: usize, r: &mut Rng, count: usize) -> Vec<Vec<f64>> {
    let mut v: Vec<Vec<f64>> = match kind {
        "uniform" => (0..count).map(|_| (0..n).map(|_| r.f()).collect()).collect(),
        "gauss" => (0..count).map(|_| (0..n).map(|_| r.gauss()).collect()).collect(),
        "sphere" => (0..count)
            .map(|_| {
                let p: Vec<f64> = (0..n).map(|_| r.gauss()).collect();
                let s = p.iter().map(|x| x * x).sum::<f64>().sqrt().max(1e-9);
                p.into_iter().map(|x| x / s).collect()
            })
            .collect(),
        "grid" => (0..count)
            .map(|_| (0..n).map(|_| r.range(0, 255) as f64).collect())
            .collect(),
        "coarse" => (0..count)
            .map(|_| (0..n).map(|_| r.range(0, 6) as f64).collect())
            .collect(),
        "cubeplus" => {
            let mut v: Vec<Vec<f64>> = (0..1usize << n)
                .map(|b| (0..n).map(|k| (b >> k & 1) as f64 * 255.0).collect())
                .collect();
            for _ in 0..count {
                v.push((0..n).map(|_| r.range(0, 255) as f64).collect());
            }
            v
        }
        "slab" => {
            let t = *r.pick(&[1e-2, 1e-3, 1e-4]);
            (0..count)
                .map(|_| (0..n).map(|k| if k == 0 { t * r.f() } else { r.f() }).collect())
                .collect()
        }
        "rgbxy" => {
            let w = r.range(3, 9);
            (0..count)
                .map(|i| {
                    (0..n)
                        .map(|k| {
                            if k < n.saturating_sub(2) || n <= 3 {
                                r.byte() as f64 / 255.0
                            } else if k == n - 2 {
                                (i as i64 % w) as f64 / w as f64
                            } else {
                                (i as i64 / w) as f64 / (count as f64 / w as f64).ceil()
                            }
                        })
                        .collect()
                })
                .collect()
        }
        "dups" => {
            let base: Vec<Vec<f64>> = (0..(count / 2).max(n + 2))
                .map(|_| (0..n).map(|_| r.u(-3.0, 3.0)).collect())
                .collect();
            let mut v = base.clone();
            for _ in 0..count {
                v.push(r.pick(&base).clone());
            }
            v
        }
        "scaled" => {
            let s = 10f64.powi(r.range(-6, 6) as i32);
            (0..count).map(|_| (0..n).map(|_| s * r.gauss()).collect()).collect()
        }
        "offset" => {
            let o = r.u(-1000.0, 1000.0);
            (0..count).map(|_| (0..n).map(|_| o + r.f()).collect()).collect()
        }
        "min" => (0..n + 1).map(|_| (0..n).map(|_| r.u(-5.0, 5.0)).collect()).collect(),
        "collinear" => {
            let mut v: Vec<Vec<f64>> = (0..(count / 2).max(n + 3))
                .map(|_| (0..n).map(|_| r.range(0, 40) as f64 * 6.0).collect())
                .collect();
            for _ in 0..count / 2 {
                let a = r.pick(&v).clone();
                let b = r.pick(&v).clone();
                let t = r.range(0, 6) as f64 / 6.0;
                v.push((0..n).map(|k| a[k] + (b[k] - a[k]) * t).collect());
            }
            v
        }
        k => panic!("unknown point kind {k}"),
    };
    r.shuffle(&mut v);
    v
}

/// A random palette in strictly convex position (rejection sampling on the exact oracle).
pub fn valid_palette(r: &mut Rng, n: usize) -> Vec<Rgb<u8>> {
    loop {
        let style = r.below(4);
        let mut p: Vec<[i64; 3]> = vec![];
        let mut tries = 0;
        while p.len() < n && tries < 400 {
            tries += 1;
            let c = match style {
                0 => [r.range(0, 255), r.range(0, 255), r.range(0, 255)],
                1 => {
                    let v = [r.gauss(), r.gauss(), r.gauss()];
                    let s = (v[0] * v[0] + v[1] * v[1] + v[2] * v[2]).sqrt().max(1e-9);
                    let rad = 127.0;
                    let m = |x: f64| (127.0 + rad * x / s).round() as i64;
                    [m(v[0]), m(v[1]), m(v[2])]
                }
                2 => {
                    let lo = 60;
                    [r.range(lo, 190), r.range(lo, 190), r.range(lo, 190)]
                }
                _ => {
                    let mut c = [r.range(0, 255), r.range(0, 255), r.range(0, 255)];
                    c[r.below(3) as usize] = if r.bool(1, 2) { 0 } else { 255 };
                    c
                }
            };
            p.push(c);
            if p.len() >= 4 && !crate::geom::strictly_convex(&p) {
                // keep only if the last one is what broke it and there's still hope
                p.pop();
            }
        }
        if p.len() == n && crate::geom::strictly_convex(&p) {
            return p.into_iter().map(|c| Rgb([c[0] as u8, c[1] as u8, c[2] as u8])).collect();
        }
    }
}
