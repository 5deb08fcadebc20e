//! Reference geometry, written independently of the code under test.
use std::collections::{BTreeMap, BTreeSet};

pub type I3 = [i64; 3];
pub type F3 = [f64; 3];

pub fn isub(a: I3, b: I3) -> I3 {
    [a[0] - b[0], a[1] - b[1], a[2] - b[2]]
}
pub fn icross(a: I3, b: I3) -> I3 {
    [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
}
pub fn idot(a: I3, b: I3) -> i64 {
    a[0] * b[0] + a[1] * b[1] + a[2] * b[2]
}
pub fn fsub(a: F3, b: F3) -> F3 {
    [a[0] - b[0], a[1] - b[1], a[2] - b[2]]
}
pub fn fadd(a: F3, b: F3) -> F3 {
    [a[0] + b[0], a[1] + b[1], a[2] + b[2]]
}
pub fn fmul(a: F3, s: f64) -> F3 {
    [a[0] * s, a[1] * s, a[2] * s]
}
pub fn fdot(a: F3, b: F3) -> f64 {
    a[0] * b[0] + a[1] * b[1] + a[2] * b[2]
}
pub fn fcross(a: F3, b: F3) -> F3 {
    [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
}
pub fn fnorm(a: F3) -> f64 {
    fdot(a, a).sqrt()
}
fn gcd(a: i64, b: i64) -> i64 {
    if b == 0 { a.abs() } else { gcd(b, a % b) }
}

/// A supporting plane `normal . x <= offset` (exact) with the indices of all points on it, in
/// cyclic order around the face restricted to the extreme ones.
#[derive(Clone, Debug)]
pub struct Face {
    pub normal: I3,
    pub offset: i64,
    pub on: Vec<usize>,
    pub extreme: Vec<usize>,
}

#[derive(Clone, Debug)]
pub struct ExactHull {
    pub pts: Vec<I3>,
    pub faces: Vec<Face>,
    pub extreme: BTreeSet<usize>,
}

impl ExactHull {
    /// Hull of distinct integer points by examining every triple; `None` if the set is flat.
    pub fn new(input: &[I3]) -> Option<ExactHull> {
        let pts: Vec<I3> = input.iter().copied().collect::<BTreeSet<_>>().into_iter().collect();
        let n = pts.len();
        let mut planes: BTreeMap<(I3, i64), ()> = BTreeMap::new();
        for i in 0..n {
            for j in i + 1..n {
                let e = isub(pts[j], pts[i]);
                for k in j + 1..n {
                    let mut nn = icross(e, isub(pts[k], pts[i]));
                    if nn == [0, 0, 0] {
                        continue;
                    }
                    let mut pos = false;
                    let mut neg = false;
                    for p in &pts {
                        let d = idot(nn, isub(*p, pts[i]));
                        pos |= d > 0;
                        neg |= d < 0;
                        if pos && neg {
                            break;
                        }
                    }
                    if pos && neg {
                        continue;
                    }
                    if !pos && !neg {
                        return None; // everything on one plane
                    }
                    if pos {
                        nn = [-nn[0], -nn[1], -nn[2]];
                    }
                    let g = gcd(gcd(nn[0], nn[1]), nn[2]);
                    let nn = [nn[0] / g, nn[1] / g, nn[2] / g];
                    planes.insert((nn, idot(nn, pts[i])), ());
                }
            }
        }
        if planes.is_empty() {
            return None;
        }
        let mut faces = vec![];
        let mut extreme = BTreeSet::new();
        for ((normal, offset), ()) in planes {
            let on: Vec<usize> = (0..n).filter(|&i| idot(normal, pts[i]) == offset).collect();
            let ext = planar_extreme(&pts, &on, normal);
            extreme.extend(ext.iter().copied());
            faces.push(Face { normal, offset, on, extreme: ext });
        }
        Some(ExactHull { pts, faces, extreme })
    }
    /// All faces are triangles and no further points lie on them.
    pub fn simplicial(&self) -> bool {
        self.faces.iter().all(|f| f.on.len() == 3)
    }
    pub fn extreme_points(&self) -> BTreeSet<I3> {
        self.extreme.iter().map(|&i| self.pts[i]).collect()
    }
    /// Largest signed distance of a point to any face plane (positive: outside).
    pub fn outside(&self, p: F3) -> f64 {
        self.faces
            .iter()
            .map(|f| {
                let nf = [f.normal[0] as f64, f.normal[1] as f64, f.normal[2] as f64];
                (fdot(nf, p) - f.offset as f64) / fnorm(nf)
            })
            .fold(f64::NEG_INFINITY, f64::max)
    }
    pub fn triangles(&self) -> Vec<[usize; 3]> {
        let mut t = vec![];
        for f in &self.faces {
            for i in 1..f.extreme.len() - 1 {
                t.push([f.extreme[0], f.extreme[i], f.extreme[i + 1]]);
            }
        }
        t
    }
    pub fn fpt(&self, i: usize) -> F3 {
        let p = self.pts[i];
        [p[0] as f64, p[1] as f64, p[2] as f64]
    }
    /// Closest point of the (solid) hull.
    pub fn closest(&self, p: F3) -> F3 {
        if self.outside(p) <= 0.0 {
            return p;
        }
        let mut best = (f64::INFINITY, p);
        for t in self.triangles() {
            let c = closest_on_triangle(p, self.fpt(t[0]), self.fpt(t[1]), self.fpt(t[2]));
            let d = fsub(p, c);
            let d = fdot(d, d);
            if d < best.0 {
                best = (d, c);
            }
        }
        best.1
    }
}

fn planar_extreme(pts: &[I3], on: &[usize], normal: I3) -> Vec<usize> {
    // project along the dominant axis and run an exact monotone chain
    let ax = (0..3).max_by_key(|&k| normal[k].abs()).unwrap();
    let (u, v) = ((ax + 1) % 3, (ax + 2) % 3);
    let mut s: Vec<usize> = on.to_vec();
    s.sort_by_key(|&i| (pts[i][u], pts[i][v]));
    let turn = |a: usize, b: usize, c: usize| {
        (pts[b][u] - pts[a][u]) * (pts[c][v] - pts[a][v])
            - (pts[b][v] - pts[a][v]) * (pts[c][u] - pts[a][u])
    };
    let half = |it: &mut dyn Iterator<Item = usize>| {
        let mut h: Vec<usize> = vec![];
        for i in it {
            while h.len() >= 2 && turn(h[h.len() - 2], h[h.len() - 1], i) <= 0 {
                h.pop();
            }
            h.push(i);
        }
        h.pop();
        h
    };
    let mut lo = half(&mut s.iter().copied());
    let hi = half(&mut s.iter().rev().copied());
    lo.extend(hi);
    lo
}

/// Are the points pairwise distinct, non-flat, and each one a vertex of their convex hull?
pub fn strictly_convex(p: &[I3]) -> bool {
    let set: BTreeSet<I3> = p.iter().copied().collect();
    if set.len() != p.len() || p.len() < 4 {
        return false;
    }
    match ExactHull::new(p) {
        None => false,
        Some(h) => h.extreme.len() == p.len(),
    }
}

/// Closest point on a triangle (Ericson, Real-Time Collision Detection, 5.1.5).
pub fn closest_on_triangle(p: F3, a: F3, b: F3, c: F3) -> F3 {
    let ab = fsub(b, a);
    let ac = fsub(c, a);
    let ap = fsub(p, a);
    let d1 = fdot(ab, ap);
    let d2 = fdot(ac, ap);
    if d1 <= 0.0 && d2 <= 0.0 {
        return a;
    }
    let bp = fsub(p, b);
    let d3 = fdot(ab, bp);
    let d4 = fdot(ac, bp);
    if d3 >= 0.0 && d4 <= d3 {
        return b;
    }
    let vc = d1 * d4 - d3 * d2;
    if vc <= 0.0 && d1 >= 0.0 && d3 <= 0.0 {
        return fadd(a, fmul(ab, d1 / (d1 - d3)));
    }
    let cp = fsub(p, c);
    let d5 = fdot(ab, cp);
    let d6 = fdot(ac, cp);
    if d6 >= 0.0 && d5 <= d6 {
        return c;
    }
    let vb = d5 * d2 - d1 * d6;
    if vb <= 0.0 && d2 >= 0.0 && d6 <= 0.0 {
        return fadd(a, fmul(ac, d2 / (d2 - d6)));
    }
    let va = d3 * d6 - d5 * d4;
    if va <= 0.0 && (d4 - d3) >= 0.0 && (d5 - d6) >= 0.0 {
        return fadd(b, fmul(fsub(c, b), (d4 - d3) / ((d4 - d3) + (d5 - d6))));
    }
    let den = 1.0 / (va + vb + vc);
    fadd(a, fadd(fmul(ab, vb * den), fmul(ac, vc * den)))
}

/// Solve a dense linear system with partial pivoting. Returns `None` if singular.
pub fn solve(a: &[Vec<f64>], b: &[f64]) -> Option<Vec<f64>> {
    let n = b.len();
    let mut m: Vec<Vec<f64>> = a
        .iter()
        .zip(b)
        .map(|(r, x)| {
            let mut r = r.clone();
            r.push(*x);
            r
        })
        .collect();
    let scale = m.iter().flat_map(|r| r[..n].iter()).fold(0.0f64, |s, x| s.max(x.abs()));
    for c in 0..n {
        let p = (c..n).max_by(|&i, &j| m[i][c].abs().total_cmp(&m[j][c].abs()))?;
        if !(m[p][c].abs() > 1e-15 * scale) {
            return None;
        }
        m.swap(c, p);
        for r in 0..n {
            if r != c {
                let f = m[r][c] / m[c][c];
                if f != 0.0 {
                    for k in c..=n {
                        let t = m[c][k];
                        m[r][k] -= f * t;
                    }
                }
            }
        }
    }
    Some((0..n).map(|i| m[i][n] / m[i][i]).collect())
}

pub fn det(a: &[Vec<f64>]) -> f64 {
    let n = a.len();
    let mut m = a.to_vec();
    let mut d = 1.0;
    for c in 0..n {
        let p = (c..n).max_by(|&i, &j| m[i][c].abs().total_cmp(&m[j][c].abs())).unwrap();
        if m[p][c] == 0.0 {
            return 0.0;
        }
        if p != c {
            m.swap(p, c);
            d = -d;
        }
        d *= m[c][c];
        for r in c + 1..n {
            let f = m[r][c] / m[c][c];
            for k in c..n {
                let t = m[c][k];
                m[r][k] -= f * t;
            }
        }
    }
    d
}

/// Barycentric coordinates of `p` w.r.t. the simplex `v` (n+1 points in dimension n).
pub fn barycentric(v: &[Vec<f64>], p: &[f64]) -> Option<Vec<f64>> {
    let n = p.len();
    let mut a = vec![vec![0.0; n + 1]; n + 1];
    let mut b = vec![1.0; n + 1];
    for k in 0..n {
        for (j, q) in v.iter().enumerate() {
            a[k][j] = q[k] - p[k];
        }
        b[k] = 0.0;
    }
    for j in 0..n + 1 {
        a[n][j] = 1.0;
    }
    solve(&a, &b)
}

pub fn simplex_volume(v: &[Vec<f64>]) -> f64 {
    let n = v.len() - 1;
    let m: Vec<Vec<f64>> =
        (1..=n).map(|i| (0..n).map(|k| v[i][k] - v[0][k]).collect()).collect();
    let f: f64 = (1..=n).map(|x| x as f64).product();
    det(&m).abs() / f
}

/// Volume of a hull given its facets: cones from an interior point.
pub fn hull_volume(verts: &[Vec<f64>], facets: &[Vec<usize>]) -> f64 {
    let n = verts[0].len();
    let mut c = vec![0.0; n];
    for v in verts {
        for k in 0..n {
            c[k] += v[k] / verts.len() as f64;
        }
    }
    facets
        .iter()
        .map(|f| {
            let mut s: Vec<Vec<f64>> = f.iter().map(|&i| verts[i].clone()).collect();
            s.push(c.clone());
            simplex_volume(&s)
        })
        .sum()
}

// ---------------------------------------------------------------------------------------------
// LP: min c.w  s.t.  sum w_j a_j = q, w >= 0 (dense revised simplex, tiny row count)

pub struct Lp {
    pub m: usize,
    pub cols: Vec<Vec<f64>>,
    pub cost: Vec<f64>,
}

pub struct LpSol {
    pub basis: Vec<usize>,
    pub w: Vec<f64>,
    pub y: Vec<f64>,
}

pub enum LpRes {
    Opt(LpSol),
    Infeasible(f64),
    Stuck,
}

impl Lp {
    fn mat(&self, basis: &[usize], art: &[f64]) -> Vec<Vec<f64>> {
        // rows x basis columns; artificial column k is index cols.len()+k
        let n = self.cols.len();
        let mut b = vec![vec![0.0; self.m]; self.m];
        for (c, &j) in basis.iter().enumerate() {
            if j < n {
                for r in 0..self.m {
                    b[r][c] = self.cols[j][r];
                }
            } else {
                b[j - n][c] = art[j - n];
            }
        }
        b
    }
    fn transpose(b: &[Vec<f64>]) -> Vec<Vec<f64>> {
        let m = b.len();
        (0..m).map(|i| (0..m).map(|j| b[j][i]).collect()).collect()
    }
    fn run(
        &self, q: &[f64], basis: &mut Vec<usize>, art: &[f64], cost: &dyn Fn(usize) -> f64,
        allowed: &dyn Fn(usize) -> bool,
    ) -> Option<(Vec<f64>, Vec<f64>)> {
        let n = self.cols.len();
        for iter in 0..2000 {
            let b = self.mat(basis, art);
            let w = solve(&b, q)?;
            let cb: Vec<f64> = basis.iter().map(|&j| cost(j)).collect();
            let y = solve(&Self::transpose(&b), &cb)?;
            let mut enter = None;
            let mut best = -1e-11;
            for j in 0..n {
                if !allowed(j) || basis.contains(&j) {
                    continue;
                }
                let rc = cost(j) - (0..self.m).map(|r| y[r] * self.cols[j][r]).sum::<f64>();
                if rc < best {
                    enter = Some(j);
                    if iter > 300 {
                        break; // Bland
                    }
                    best = rc;
                }
            }
            let Some(e) = enter else {
                return Some((w, y));
            };
            let d = solve(&b, &self.cols[e])?;
            let mut leave: Option<(usize, f64)> = None;
            for i in 0..self.m {
                if d[i] > 1e-11 {
                    let t = w[i].max(0.0) / d[i];
                    let better = match leave {
                        None => true,
                        Some((l, bt)) => {
                            t < bt - 1e-14
                                || (t <= bt + 1e-14
                                    && if iter > 300 { basis[i] < basis[l] } else { d[i] > d[l] })
                        }
                    };
                    if better {
                        leave = Some((i, t));
                    }
                }
            }
            let (l, _) = leave?;
            basis[l] = e;
        }
        None
    }
    pub fn solve(&self, q: &[f64]) -> LpRes {
        let n = self.cols.len();
        let art: Vec<f64> = q.iter().map(|x| if *x < 0.0 { -1.0 } else { 1.0 }).collect();
        let mut basis: Vec<usize> = (n..n + self.m).collect();
        let Some((w, _)) =
            self.run(q, &mut basis, &art, &|j| if j >= n { 1.0 } else { 0.0 }, &|_| true)
        else {
            return LpRes::Stuck;
        };
        let inf: f64 = basis.iter().zip(&w).filter(|(j, _)| **j >= n).map(|(_, x)| x.abs()).sum();
        if inf > 1e-7 {
            return LpRes::Infeasible(inf);
        }
        // drive out the artificials that are left in the basis at zero level
        for i in 0..self.m {
            if basis[i] >= n {
                let Some(inv_row) = ({
                    let b = self.mat(&basis, &art);
                    let mut e = vec![0.0; self.m];
                    e[i] = 1.0;
                    solve(&Self::transpose(&b), &e)
                }) else {
                    continue;
                };
                let best = (0..n)
                    .filter(|j| !basis.contains(j))
                    .map(|j| {
                        ((0..self.m).map(|r| inv_row[r] * self.cols[j][r]).sum::<f64>().abs(), j)
                    })
                    .max_by(|a, b| a.0.total_cmp(&b.0));
                if let Some((d, j)) = best {
                    if d > 1e-7 {
                        basis[i] = j;
                    }
                }
            }
        }
        // those that remain keep a huge cost so they stay at zero level
        let big = 1e7;
        let cost = |j: usize| if j >= n { big } else { self.cost[j] };
        match self.run(q, &mut basis, &art, &cost, &|_| true) {
            Some((w, y)) => {
                let inf: f64 =
                    basis.iter().zip(&w).filter(|(j, _)| **j >= n).map(|(_, x)| x.abs()).sum();
                if inf > 1e-8 {
                    return LpRes::Infeasible(inf);
                }
                LpRes::Opt(LpSol { basis, w, y })
            }
            None => LpRes::Stuck,
        }
    }
    /// Is the optimal `w` unique? (`tol`: reduced costs below this count as ties.)
    pub fn unique(&self, q: &[f64], s: &LpSol, tol: f64) -> bool {
        let n = self.cols.len();
        if s.basis.iter().any(|&j| j >= n) {
            return false;
        }
        let ties: Vec<usize> = (0..n)
            .filter(|j| !s.basis.contains(j))
            .filter(|&j| {
                self.cost[j] - (0..self.m).map(|r| s.y[r] * self.cols[j][r]).sum::<f64>() < tol
            })
            .collect();
        if ties.is_empty() {
            return true;
        }
        // optimise a couple of pseudo-random objectives over the tied columns
        let mut idx = s.basis.clone();
        idx.extend(&ties);
        for round in 0..2u64 {
            let mut r = crate::rng::Rng::new(77 + round);
            let sub = Lp {
                m: self.m,
                cols: idx.iter().map(|&j| self.cols[j].clone()).collect(),
                cost: idx.iter().map(|_| r.u(-1.0, 1.0)).collect(),
            };
            match sub.solve(q) {
                LpRes::Opt(o) => {
                    let mut full = vec![0.0; n];
                    for (b, w) in o.basis.iter().zip(&o.w) {
                        if *b < idx.len() {
                            full[idx[*b]] += w;
                        }
                    }
                    for (b, w) in s.basis.iter().zip(&s.w) {
                        full[*b] -= w;
                    }
                    if full.iter().any(|x| x.abs() > 1e-6) {
                        return false;
                    }
                }
                _ => return false,
            }
        }
        true
    }
}

/// Affine rank of integer points (exact, fraction-free elimination in i128).
pub fn affine_rank(p: &[Vec<i64>]) -> usize {
    let Some(o) = p.first() else { return 0 };
    let n = o.len();
    let mut basis: Vec<(usize, Vec<i128>)> = vec![];
    for q in &p[1..] {
        let mut v: Vec<i128> = q.iter().zip(o).map(|(a, b)| (a - b) as i128).collect();
        for (piv, b) in &basis {
            if v[*piv] != 0 {
                let (x, y) = (v[*piv], b[*piv]);
                for k in 0..n {
                    v[k] = v[k] * y - b[k] * x;
                }
                let g = v.iter().fold(0i128, |g, x| gcd128(g, *x));
                if g > 1 {
                    v.iter_mut().for_each(|x| *x /= g);
                }
            }
        }
        if let Some(piv) = (0..n).find(|&k| v[k] != 0) {
            basis.push((piv, v));
            if basis.len() == n {
                return n;
            }
        }
    }
    basis.len()
}
fn gcd128(a: i128, b: i128) -> i128 {
    if b == 0 { a.abs() } else { gcd128(b, a % b) }
}
