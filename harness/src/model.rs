//! Reference model of the recolouring pipeline.
use crate::geom::*;
use image::{Rgb, RgbImage};
use qhull_rs::ConvexHull;
use nalgebra::Const;

pub fn rgbxy(img: &RgbImage) -> Vec<[f64; 5]> {
    let (w, h) = (img.width() as f64, img.height() as f64);
    img.enumerate_pixels()
        .map(|(x, y, p)| {
            [
                p[0] as f64 / 255.0,
                p[1] as f64 / 255.0,
                p[2] as f64 / 255.0,
                x as f64 / w,
                y as f64 / h,
            ]
        })
        .collect()
}

/// Pixel weights over the RGBXY hull vertices, from the definition of a Delaunay triangulation:
/// the simplex containing q is the optimal basis of  min sum w_i |v_i|^2  over all convex
/// combinations sum w_i v_i = q. No triangulation code is involved.
pub struct RefWeights {
    pub hv: Vec<[f64; 5]>,
    /// `None`: the Delaunay triangulation isn't unique around this pixel
    pub rows: Vec<Option<Vec<(usize, f64)>>>,
    pub infeasible: usize,
}

impl RefWeights {
    pub fn new(img: &RgbImage, pixels: &[usize]) -> RefWeights {
        let pts = rgbxy(img);
        let ch: ConvexHull<Const<5>> = ConvexHull::from_arrays(&pts);
        let hv: Vec<[f64; 5]> = ch
            .vertices()
            .map(|v| {
                let p = v.point();
                [p[0], p[1], p[2], p[3], p[4]]
            })
            .collect();
        // centre for conditioning
        let mut c = [0.0; 5];
        for v in &hv {
            for k in 0..5 {
                c[k] += v[k] / hv.len() as f64;
            }
        }
        let lp = Lp {
            m: 6,
            cols: hv
                .iter()
                .map(|v| {
                    let mut a: Vec<f64> = (0..5).map(|k| v[k] - c[k]).collect();
                    a.push(1.0);
                    a
                })
                .collect(),
            cost: hv
                .iter()
                .map(|v| (0..5).map(|k| (v[k] - c[k]) * (v[k] - c[k])).sum())
                .collect(),
        };
        let mut infeasible = 0;
        let rows = pixels
            .iter()
            .map(|&i| {
                let mut q: Vec<f64> = (0..5).map(|k| pts[i][k] - c[k]).collect();
                q.push(1.0);
                match lp.solve(&q) {
                    LpRes::Opt(s) => {
                        if s.w.iter().any(|x| *x < -1e-9) || !lp.unique(&q, &s, 1e-8) {
                            return None;
                        }
                        Some(s.basis.iter().copied().zip(s.w.iter().copied()).collect())
                    }
                    LpRes::Infeasible(_) => {
                        infeasible += 1;
                        None
                    }
                    LpRes::Stuck => None,
                }
            })
            .collect();
        RefWeights { hv, rows, infeasible }
    }
}

pub fn ipt(c: &Rgb<u8>) -> I3 {
    [c[0] as i64, c[1] as i64, c[2] as i64]
}

/// Coordinates w.r.t. the "star" triangulation of a palette.
pub struct Star {
    pub n: usize,
    pub hull: ExactHull,
    /// palette index of each hull point
    pub pidx: Vec<usize>,
    pub star: usize,
    pub tets: Vec<[usize; 4]>,
    /// several colours equally close to black, or non-triangular hull faces: the triangulation
    /// isn't uniquely determined
    pub ambiguous: bool,
}

impl Star {
    pub fn new(palette: &[Rgb<u8>]) -> Option<Star> {
        let pts: Vec<I3> = palette.iter().map(ipt).collect();
        if !strictly_convex(&pts) {
            return None;
        }
        let hull = ExactHull::new(&pts)?;
        let pidx: Vec<usize> =
            hull.pts.iter().map(|p| pts.iter().position(|q| q == p).unwrap()).collect();
        let n2 = |i: usize| idot(hull.pts[i], hull.pts[i]);
        let star = (0..hull.pts.len()).min_by_key(|&i| n2(i))?;
        let ties = (0..hull.pts.len()).filter(|&i| n2(i) == n2(star)).count();
        let ambiguous = ties > 1 || !hull.simplicial();
        let tets = hull
            .triangles()
            .into_iter()
            .filter(|t| !t.contains(&star))
            .map(|t| [star, t[0], t[1], t[2]])
            .filter(|t| {
                let o = hull.pts[t[0]];
                idot(icross(isub(hull.pts[t[1]], o), isub(hull.pts[t[2]], o)), isub(hull.pts[t[3]], o)) != 0
            })
            .collect();
        Some(Star { n: palette.len(), hull, pidx, star, tets, ambiguous })
    }
    /// (coordinates per palette colour)
    pub fn coords(&self, c: F3) -> Vec<f64> {
        let p = self.hull.closest(c);
        let mut best: Option<(f64, Vec<f64>, [usize; 4])> = None;
        for t in &self.tets {
            let v: Vec<Vec<f64>> = t.iter().map(|&i| self.hull.fpt(i).to_vec()).collect();
            if let Some(b) = barycentric(&v, &p) {
                let m = b.iter().copied().fold(f64::INFINITY, f64::min);
                if best.as_ref().map_or(true, |x| m > x.0) {
                    best = Some((m, b, *t));
                }
            }
        }
        let (_, b, t) = best.unwrap();
        let mut out = vec![0.0; self.n];
        for (i, x) in t.iter().zip(b) {
            out[self.pidx[*i]] = x;
        }
        out
    }
}
