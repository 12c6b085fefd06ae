//! Independent small linear algebra for the oracles. Nothing here uses nalgebra's algorithms:
//! nalgebra types only carry numbers to and from the code under test.
#![allow(dead_code)]
use cv_core::nalgebra as na;
use na::{IsometryMatrix3, Matrix3, Matrix4, Rotation3, UnitVector3, Vector3, Vector4};

pub type V3 = [f64; 3];
pub type M3 = [[f64; 3]; 3];
pub const EPS: f64 = f64::EPSILON;

pub fn add(a: V3, b: V3) -> V3 {
    [a[0] + b[0], a[1] + b[1], a[2] + b[2]]
}
pub fn sub(a: V3, b: V3) -> V3 {
    [a[0] - b[0], a[1] - b[1], a[2] - b[2]]
}
pub fn mul(a: V3, s: f64) -> V3 {
    [a[0] * s, a[1] * s, a[2] * s]
}
pub fn neg(a: V3) -> V3 {
    [-a[0], -a[1], -a[2]]
}
pub fn dot(a: V3, b: V3) -> f64 {
    a[0] * b[0] + a[1] * b[1] + a[2] * b[2]
}
pub fn cross(a: V3, b: V3) -> V3 {
    [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
}
pub fn norm(a: V3) -> f64 {
    let m = a[0].abs().max(a[1].abs()).max(a[2].abs());
    if m == 0.0 || !m.is_finite() {
        return if a.iter().any(|x| x.is_nan()) { f64::NAN } else { m };
    }
    if m < 1e-290 {
        return norm(mul(a, 2f64.powi(900))) * 2f64.powi(-900);
    }
    let s = mul(a, 1.0 / m);
    m * dot(s, s).sqrt()
}
pub fn unit(a: V3) -> V3 {
    let m = a[0].abs().max(a[1].abs()).max(a[2].abs());
    if m > 0.0 && m < 1e-290 {
        return unit(mul(a, 2f64.powi(900)));
    }
    let s = mul(a, 1.0 / m);
    mul(s, 1.0 / dot(s, s).sqrt())
}
/// Accurate angle between two vectors.
pub fn angle(a: V3, b: V3) -> f64 {
    let (a, b) = (unit(a), unit(b));
    2.0 * norm(sub(a, b)).atan2(norm(add(a, b)))
}
pub fn mv(m: &M3, v: V3) -> V3 {
    [dot(m[0], v), dot(m[1], v), dot(m[2], v)]
}
pub fn mm(a: &M3, b: &M3) -> M3 {
    let t = tr(b);
    let mut r = [[0.0; 3]; 3];
    for i in 0..3 {
        for j in 0..3 {
            r[i][j] = dot(a[i], t[j]);
        }
    }
    r
}
pub fn tr(a: &M3) -> M3 {
    let mut r = [[0.0; 3]; 3];
    for i in 0..3 {
        for j in 0..3 {
            r[i][j] = a[j][i];
        }
    }
    r
}
pub fn msub(a: &M3, b: &M3) -> M3 {
    let mut r = *a;
    for i in 0..3 {
        for j in 0..3 {
            r[i][j] -= b[i][j];
        }
    }
    r
}
pub fn mscale(a: &M3, s: f64) -> M3 {
    let mut r = *a;
    for row in r.iter_mut() {
        for x in row.iter_mut() {
            *x *= s;
        }
    }
    r
}
pub fn fro(a: &M3) -> f64 {
    norm([norm(a[0]), norm(a[1]), norm(a[2])])
}
pub fn det(a: &M3) -> f64 {
    dot(a[0], cross(a[1], a[2]))
}
pub const I3: M3 = [[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0]];
pub fn hat(w: V3) -> M3 {
    [[0.0, -w[2], w[1]], [w[2], 0.0, -w[0]], [-w[1], w[0], 0.0]]
}
/// Rotation from axis (unit) and angle through a unit quaternion: orthonormal to rounding for every angle.
pub fn rot_aa(axis: V3, ang: f64) -> M3 {
    let (s, c) = (0.5 * ang).sin_cos();
    rot_q([c, axis[0] * s, axis[1] * s, axis[2] * s])
}
pub fn rot_q(q: [f64; 4]) -> M3 {
    let n = (q[0] * q[0] + q[1] * q[1] + q[2] * q[2] + q[3] * q[3]).sqrt();
    let [w, x, y, z] = [q[0] / n, q[1] / n, q[2] / n, q[3] / n];
    [
        [1.0 - 2.0 * (y * y + z * z), 2.0 * (x * y - w * z), 2.0 * (x * z + w * y)],
        [2.0 * (x * y + w * z), 1.0 - 2.0 * (x * x + z * z), 2.0 * (y * z - w * x)],
        [2.0 * (x * z - w * y), 2.0 * (y * z + w * x), 1.0 - 2.0 * (x * x + y * y)],
    ]
}
/// exp of an axis-angle vector (any angle, also tiny)
pub fn exp3(w: V3) -> M3 {
    let th = norm(w);
    if th == 0.0 {
        return I3;
    }
    rot_aa(mul(w, 1.0 / th), th)
}
/// How far a matrix is from being a proper rotation.
pub fn rot_defect(m: &M3) -> f64 {
    let d = msub(&mm(m, &tr(m)), &I3);
    let f = fro(&d);
    if det(m) > 0.0 {
        f
    } else if f.is_nan() {
        f64::NAN
    } else {
        f.max(1.0)
    }
}
/// Angle of a rotation between two rotations, accurate for small and large.
pub fn rot_dist(a: &M3, b: &M3) -> f64 {
    // |A-B|_F = 2 sqrt2 sin(theta/2)
    let f = fro(&msub(a, b)) / (2.0 * 2f64.sqrt());
    if f.is_nan() {
        return f64::NAN;
    }
    2.0 * f.min(1.0).asin()
}

/// Jacobi eigen decomposition of a symmetric N x N matrix: ascending eigenvalues, vectors as rows.
pub fn jacobi<const N: usize>(mut a: [[f64; N]; N]) -> ([f64; N], [[f64; N]; N]) {
    let mut v = [[0.0; N]; N]; // columns are eigenvectors
    for i in 0..N {
        v[i][i] = 1.0;
    }
    for _ in 0..100 {
        let mut off = 0.0f64;
        let mut diag = 0.0f64;
        for i in 0..N {
            diag += a[i][i] * a[i][i];
            for j in 0..N {
                if i != j {
                    off += a[i][j] * a[i][j];
                }
            }
        }
        if !(off > 1e-40 * diag) || off == 0.0 {
            break;
        }
        for p in 0..N {
            for q in p + 1..N {
                if a[p][q] == 0.0 {
                    continue;
                }
                let th = (a[q][q] - a[p][p]) / (2.0 * a[p][q]);
                let t = if th.is_infinite() {
                    0.0
                } else {
                    let s = if th >= 0.0 { 1.0 } else { -1.0 };
                    s / (th.abs() + th.hypot(1.0))
                };
                let c = 1.0 / (t * t + 1.0).sqrt();
                let s = t * c;
                for k in 0..N {
                    let (x, y) = (a[k][p], a[k][q]);
                    a[k][p] = c * x - s * y;
                    a[k][q] = s * x + c * y;
                }
                for k in 0..N {
                    let (x, y) = (a[p][k], a[q][k]);
                    a[p][k] = c * x - s * y;
                    a[q][k] = s * x + c * y;
                }
                for k in 0..N {
                    let (x, y) = (v[k][p], v[k][q]);
                    v[k][p] = c * x - s * y;
                    v[k][q] = s * x + c * y;
                }
            }
        }
    }
    let mut ix = [0usize; N];
    for (i, x) in ix.iter_mut().enumerate() {
        *x = i;
    }
    ix.sort_by(|&i, &j| a[i][i].partial_cmp(&a[j][j]).unwrap_or(std::cmp::Ordering::Equal));
    let mut w = [0.0; N];
    let mut r = [[0.0; N]; N];
    for (k, &i) in ix.iter().enumerate() {
        w[k] = a[i][i];
        for j in 0..N {
            r[k][j] = v[j][i];
        }
    }
    (w, r)
}

/// One-sided Jacobi SVD of an M x N matrix given as rows (M arbitrary): descending singular values
/// and right singular vectors as rows. Accurate for small singular values, unlike going through AtA.
pub fn svd_right<const N: usize>(rows: &[[f64; N]]) -> ([f64; N], [[f64; N]; N]) {
    let m = rows.len();
    let mut cols: Vec<Vec<f64>> = (0..N).map(|j| (0..m).map(|i| rows[i][j]).collect()).collect();
    let mut v = [[0.0; N]; N];
    for i in 0..N {
        v[i][i] = 1.0; // row i: vector i
    }
    for _ in 0..60 {
        let mut rot = false;
        for p in 0..N {
            for q in p + 1..N {
                let (mut al, mut be, mut ga) = (0.0, 0.0, 0.0);
                for k in 0..m {
                    al += cols[p][k] * cols[p][k];
                    be += cols[q][k] * cols[q][k];
                    ga += cols[p][k] * cols[q][k];
                }
                if ga == 0.0 || ga.abs() <= 1e-17 * (al * be).sqrt() || !ga.is_finite() {
                    continue;
                }
                rot = true;
                let z = (be - al) / (2.0 * ga);
                let t = if z >= 0.0 { 1.0 } else { -1.0 } / (z.abs() + z.hypot(1.0));
                let c = 1.0 / (1.0 + t * t).sqrt();
                let s = c * t;
                for k in 0..m {
                    let (x, y) = (cols[p][k], cols[q][k]);
                    cols[p][k] = c * x - s * y;
                    cols[q][k] = s * x + c * y;
                }
                for k in 0..N {
                    let (x, y) = (v[p][k], v[q][k]);
                    v[p][k] = c * x - s * y;
                    v[q][k] = s * x + c * y;
                }
            }
        }
        if !rot {
            break;
        }
    }
    let mut s: Vec<(f64, usize)> = (0..N)
        .map(|j| (cols[j].iter().map(|x| x * x).sum::<f64>().sqrt(), j))
        .collect();
    s.sort_by(|a, b| b.0.partial_cmp(&a.0).unwrap_or(std::cmp::Ordering::Equal));
    let mut w = [0.0; N];
    let mut r = [[0.0; N]; N];
    for (k, (x, j)) in s.iter().enumerate() {
        w[k] = *x;
        r[k] = v[*j];
    }
    (w, r)
}
pub fn sv3(m: &M3) -> V3 {
    svd_right::<3>(&m[..]).0
}
/// Full SVD of a 3x3: U columns via A v / s, completed; returns (u rows = left vectors, s, v rows = right vectors).
pub fn svd3(m: &M3) -> ([V3; 3], V3, [V3; 3]) {
    let (s, v) = svd_right::<3>(&m[..]);
    let mut u = [[0.0; 3]; 3];
    for k in 0..2 {
        u[k] = if s[k] > 0.0 { unit(mv(m, v[k])) } else { I3[k] };
    }
    u[2] = cross(u[0], u[1]);
    if dot(u[2], mv(m, v[2])) < 0.0 {
        u[2] = neg(u[2]);
    }
    (u, s, v)
}

/// Gaussian elimination with full pivoting, square N.
pub fn solve<const N: usize>(mut a: [[f64; N]; N], mut b: [f64; N]) -> Option<[f64; N]> {
    let mut perm = [0usize; N];
    for (i, p) in perm.iter_mut().enumerate() {
        *p = i;
    }
    for k in 0..N {
        let (mut pi, mut pj, mut best) = (k, k, 0.0);
        for i in k..N {
            for j in k..N {
                if a[i][j].abs() > best {
                    best = a[i][j].abs();
                    pi = i;
                    pj = j;
                }
            }
        }
        if !(best > 0.0) {
            return None;
        }
        a.swap(k, pi);
        b.swap(k, pi);
        for row in a.iter_mut() {
            row.swap(k, pj);
        }
        perm.swap(k, pj);
        for i in k + 1..N {
            let f = a[i][k] / a[k][k];
            for j in k..N {
                a[i][j] -= f * a[k][j];
            }
            b[i] -= f * b[k];
        }
    }
    let mut x = [0.0; N];
    for k in (0..N).rev() {
        let mut s = b[k];
        for j in k + 1..N {
            s -= a[k][j] * x[j];
        }
        x[k] = s / a[k][k];
    }
    let mut r = [0.0; N];
    for k in 0..N {
        r[perm[k]] = x[k];
    }
    Some(r)
}

// ------------------------------------------------------------------------------ pose as own type
#[derive(Clone, Copy, Debug)]
pub struct Iso {
    pub r: M3,
    pub t: V3,
}
impl Iso {
    pub fn id() -> Self {
        Iso { r: I3, t: [0.0; 3] }
    }
    pub fn apply(&self, p: V3) -> V3 {
        add(mv(&self.r, p), self.t)
    }
    pub fn inv(&self) -> Iso {
        let rt = tr(&self.r);
        Iso { r: rt, t: neg(mv(&rt, self.t)) }
    }
    /// self after o
    pub fn then(&self, o: &Iso) -> Iso {
        // o o self
        Iso { r: mm(&o.r, &self.r), t: o.apply(self.t) }
    }
    pub fn na(&self) -> IsometryMatrix3<f64> {
        IsometryMatrix3::from_parts(nv(self.t).into(), nrot(&self.r))
    }
    pub fn of(i: &IsometryMatrix3<f64>) -> Iso {
        Iso { r: om(i.rotation.matrix()), t: ov(&i.translation.vector) }
    }
    /// optical centre of a world-to-camera transform
    pub fn center(&self) -> V3 {
        neg(mv(&tr(&self.r), self.t))
    }
}
pub fn nv(v: V3) -> Vector3<f64> {
    Vector3::new(v[0], v[1], v[2])
}
pub fn ov(v: &Vector3<f64>) -> V3 {
    [v.x, v.y, v.z]
}
pub fn nv4(v: [f64; 4]) -> Vector4<f64> {
    Vector4::new(v[0], v[1], v[2], v[3])
}
pub fn ov4(v: &Vector4<f64>) -> [f64; 4] {
    [v.x, v.y, v.z, v.w]
}
pub fn nu(v: V3) -> UnitVector3<f64> {
    UnitVector3::new_unchecked(nv(v))
}
pub fn ou(v: &UnitVector3<f64>) -> V3 {
    [v.x, v.y, v.z]
}
pub fn nm(m: &M3) -> Matrix3<f64> {
    Matrix3::new(m[0][0], m[0][1], m[0][2], m[1][0], m[1][1], m[1][2], m[2][0], m[2][1], m[2][2])
}
pub fn om(m: &Matrix3<f64>) -> M3 {
    let mut r = [[0.0; 3]; 3];
    for i in 0..3 {
        for j in 0..3 {
            r[i][j] = m[(i, j)];
        }
    }
    r
}
pub fn om4(m: &Matrix4<f64>) -> [[f64; 4]; 4] {
    let mut r = [[0.0; 4]; 4];
    for i in 0..4 {
        for j in 0..4 {
            r[i][j] = m[(i, j)];
        }
    }
    r
}
pub fn nrot(m: &M3) -> Rotation3<f64> {
    Rotation3::from_matrix_unchecked(nm(m))
}
pub fn orot(r: &Rotation3<f64>) -> M3 {
    om(r.matrix())
}
pub fn fin3(v: V3) -> bool {
    v.iter().all(|x| x.is_finite())
}
pub fn fin33(m: &M3) -> bool {
    m.iter().all(|r| fin3(*r))
}
pub fn flat(i: &Iso) -> [f64; 12] {
    let mut o = [0.0; 12];
    for k in 0..3 {
        o[3 * k..3 * k + 3].copy_from_slice(&i.r[k]);
        o[9 + k] = i.t[k];
    }
    o
}
/// distance from a point to the line (not ray) c + s d
pub fn line_dist(p: V3, c: V3, d: V3) -> f64 {
    norm(cross(sub(p, c), unit(d)))
}
/// Least-squares 3d point closest to a set of lines, with the smallest eigenvalue of the mean of (I - d d^T).
pub fn lines_ls(ls: &[(V3, V3)]) -> Option<(V3, f64)> {
    let mut a = [[0.0; 3]; 3];
    let mut b = [0.0; 3];
    // centre for conditioning
    let c0 = mul(ls.iter().fold([0.0; 3], |s, l| add(s, l.0)), 1.0 / ls.len() as f64);
    for (c, d) in ls {
        let d = unit(*d);
        for i in 0..3 {
            for j in 0..3 {
                a[i][j] += (I3[i][j] - d[i] * d[j]) / ls.len() as f64;
            }
        }
        let cc = sub(*c, c0);
        let q = mul(sub(cc, mul(d, dot(d, cc))), 1.0 / ls.len() as f64);
        b = add(b, q);
    }
    let l = jacobi::<3>(a).0[0];
    Some((add(solve::<3>(a, b)?, c0), l))
}
