//! Minimal solvers: three-point (lambda-twist), eight-point, five-point (nister-stewenius).
use crate::fw::*;
use crate::gen::*;
use crate::m::*;
use cv_core::sample_consensus::Estimator;
use cv_core::{CameraToCamera, FeatureMatch, FeatureWorldMatch, Projective, WorldPoint, WorldToCamera};
use eight_point::EightPoint;
use lambda_twist::LambdaTwist;
use nister_stewenius::NisterStewenius;
use std::f64::consts::PI;

fn smallest(s: &[f64]) -> f64 {
    s.iter().fold(f64::MAX, |a, b| a.min(*b))
}
fn largest(s: &[f64]) -> f64 {
    s.iter().fold(0.0, |a, b| a.max(*b))
}

// ------------------------------------------------------------------------------------------ C17
/// A three-point problem: landmarks in the camera frame, the pose, and the landmarks in the world.
pub struct P3 {
    pub g: Iso,
    pub xw: [V3; 3],
    pub b: [V3; 3],
    /// mean depth
    pub ls: f64,
    /// conditioning by an own measure: 0 is singular, about 0.1 is typical
    pub k: f64,
}
impl P3 {
    pub fn new(g: Iso, xc: [V3; 3]) -> P3 {
        let inv = g.inv();
        let xw = xc.map(|x| inv.apply(x));
        let b = xc.map(unit);
        let l = xc.map(norm);
        let ls = (l[0] + l[1] + l[2]) / 3.0;
        let c = |i: usize, j: usize| dot(b[i], b[j]);
        // how the three distances between the landmarks react to the three depths
        let j = [
            [l[0] - c(0, 1) * l[1], l[1] - c(0, 1) * l[0], 0.0],
            [l[0] - c(0, 2) * l[2], 0.0, l[2] - c(0, 2) * l[0]],
            [0.0, l[1] - c(1, 2) * l[2], l[2] - c(1, 2) * l[1]],
        ]
        .map(|r| r.map(|x| x / ls));
        let kj = smallest(&svd_right(&j).0);
        let e = [sub(xc[1], xc[0]), sub(xc[2], xc[0]), sub(xc[2], xc[1])];
        let mx = norm(e[0]).max(norm(e[1])).max(norm(e[2]));
        let kt = norm(cross(e[0], e[1])) / (mx * mx) * (mx / ls).min(1.0);
        let s = |i: usize, j: usize| norm(cross(b[i], b[j]));
        let sb = s(0, 1).min(s(0, 2)).min(s(1, 2));
        P3 { g, xw, b, ls, k: kj.min(kt).min(sb) }
    }
    fn samples(&self, c: &mut Case) -> Vec<FeatureWorldMatch> {
        (0..3).map(|i| FeatureWorldMatch(nu(self.b[i]), wpoint(c, self.xw[i]))).collect()
    }
    fn hash(&self) -> u64 {
        let mut v = vec![];
        for i in 0..3 {
            v.extend(self.xw[i]);
            v.extend(self.b[i]);
        }
        hash_f64s(&v)
    }
    /// distance of a pose from the truth: radians, or translation relative to the depth
    pub fn err(&self, p: &Iso) -> f64 {
        let r = rot_dist(&p.r, &self.g.r);
        let t = norm(sub(p.t, self.g.t)) / self.ls;
        if r.is_nan() || t.is_nan() {
            f64::INFINITY
        } else {
            r.max(t)
        }
    }
}
/// The same point, with the homogeneous scale varied.
pub fn wpoint(c: &mut Case, p: V3) -> WorldPoint {
    if c.rng.chance(0.5) {
        WorldPoint::from_point(nv(p).into())
    } else {
        let w = c.rng.log(0.25, 4.0) * c.rng.sign();
        WorldPoint::from_homogeneous(nv4([p[0] * w, p[1] * w, p[2] * w, w]))
    }
}
fn p3p(c: &mut Case, s: &LambdaTwist, d: &[FeatureWorldMatch]) -> Option<Vec<Iso>> {
    let o = c.call("LambdaTwist::estimate", || s.estimate(d.iter().copied()))?;
    Some(o.iter().map(|p: &WorldToCamera| Iso::of(&p.0)).collect())
}
/// What holds for every returned pose whatever the conditioning.
pub fn proper(c: &mut Case, out: &[Iso], max: usize, tol: f64) -> bool {
    let mut ok = c.check(out.len() <= max, "too-many-poses", || format!("{}", out.len()));
    for p in out {
        let fin = fin33(&p.r) && fin3(p.t);
        ok &= c.check(fin, "pose-not-finite", || format!("{p:?}"));
        if fin {
            ok &= c.within(rot_defect(&p.r), tol, "pose-rotation-not-proper", || format!("{p:?}"));
        }
    }
    ok
}
const LT_ROT: f64 = 1e-9;

/// Is the truth among the poses, do they all reproduce the bearings?
fn p3_general(c: &mut Case, p: &P3) {
    let d = p.samples(c);
    let Some(out) = p3p(c, &LambdaTwist::new(), &d) else { return };
    c.note("k", &p.k);
    c.note("poses", &out);
    c.note("truth", &p.g);
    proper(c, &out, 4, LT_ROT);
    if p.k < 1e-4 {
        c.inconclusive("ill-conditioned");
        return;
    }
    c.nontrivial(p.hash());
    let best = out.iter().map(|q| p.err(q)).fold(f64::INFINITY, f64::min);
    c.bin(match out.len() {
        0 => "0 poses",
        1 => "1 pose",
        2 => "2 poses",
        3 => "3 poses",
        _ => "4 poses",
    });
    let det = |_: ()| format!("k {:e}, {} poses, best {best:e}, truth {:?}, landmarks {:?}", p.k, out.len(), p.g, p.xw);
    let mut reproj: f64 = 0.0;
    for q in &out {
        for i in 0..3 {
            let x = q.apply(p.xw[i]);
            // a landmark in the optical centre has no bearing
            if norm(x) > 1e-5 * p.ls {
                reproj = reproj.max(angle(x, p.b[i]));
            }
        }
    }
    if p.k >= 1e-2 {
        c.within(best, 1e-4, "true-pose-missing", || det(()));
        c.soft(best, 1e-10, "rate-true-pose-1e-10", || det(()));
        c.soft_at(1e-4, best, 1e-8, "rate-true-pose-1e-8", || det(()));
        c.within(reproj, 1e-3, "pose-contradicts-bearings", || det(()));
        c.soft(reproj, 1e-10, "rate-reprojection-1e-10", || det(()));
        c.soft_at(1e-4, reproj, 1e-8, "rate-reprojection-1e-8", || det(()));
        c.bin("well-conditioned");
    } else {
        c.soft_at(2e-2, best, 1e-6, "rate-true-pose-ill-conditioned", || det(()));
        c.soft_at(2e-2, reproj, 1e-6, "rate-reprojection-ill-conditioned", || det(()));
        c.bin("poorly-conditioned");
    }
}
fn p3_scale(c: &mut Case) -> f64 {
    c.rng.log(1e-3, 1e3)
}
fn pose_near(c: &mut Case, sc: f64) -> Iso {
    Iso { r: rot_uniform(&mut c.rng), t: mul(ball(&mut c.rng), sc * 5.0) }
}
fn c17_front(c: &mut Case) {
    let sc = p3_scale(c);
    let g = pose_near(c, sc);
    let r = &mut c.rng;
    let xc = std::array::from_fn(|_| mul([r.range(-1., 1.), r.range(-1., 1.), r.range(1., 4.)], sc));
    p3_general(c, &P3::new(g, xc));
}
fn c17_around(c: &mut Case) {
    let sc = p3_scale(c);
    let g = pose_near(c, sc);
    let r = &mut c.rng;
    let spread = r.range(1.0, 4.0);
    let xc = std::array::from_fn(|_| mul(unit3(r), sc * r.range(1.0, spread.max(1.001))));
    p3_general(c, &P3::new(g, xc));
}
fn c17_rotations(c: &mut Case) {
    let sc = p3_scale(c);
    let (_, rot, _, _) = rot_any(&mut c.rng);
    let (_, t) = trans_any(&mut c.rng);
    let t = if norm(t) > 20.0 { mul(unit(t), 20.0) } else { t };
    let g = Iso { r: rot, t: mul(t, sc) };
    let r = &mut c.rng;
    let xc = std::array::from_fn(|_| mul([r.range(-1., 1.), r.range(-1., 1.), r.range(1., 4.)], sc));
    p3_general(c, &P3::new(g, xc));
}
/// Symmetric triangles seen head on: calibration targets, fiducial markers.
fn c17_symmetric(c: &mut Case) {
    let sc = p3_scale(c);
    let g = if c.rng.chance(0.3) { Iso { r: Iso::id().r, t: mul(boxv(&mut c.rng, 2.0), sc) } } else { pose_near(c, sc) };
    let r = &mut c.rng;
    let d = r.range(1., 4.);
    let a = r.range(0.2, 1.5);
    let turn = if r.chance(0.5) { 0.0 } else { r.range(0., 2. * PI) };
    let xc: [V3; 3] = match r.below(3) {
        0 => std::array::from_fn(|i| {
            let t = turn + i as f64 * 2.0 * PI / 3.0;
            mul([a * t.cos(), a * t.sin(), d], sc)
        }),
        1 => {
            let h = r.range(0.2, 1.5);
            let q = if r.chance(0.5) { 0.0 } else { h * 0.5 };
            let x: [V3; 3] = [[a, -q, d], [-a, -q, d], [0., h - q, d]];
            let z = rot_aa([0., 0., 1.], turn);
            x.map(|v| mul(mv(&z, v), sc))
        }
        _ => {
            // equal distances from the camera, equal angles between the bearings, random orientation
            let o = rot_uniform(r);
            std::array::from_fn(|i| {
                let t = i as f64 * 2.0 * PI / 3.0;
                mul(mv(&o, [a * t.cos(), a * t.sin(), d]), sc)
            })
        }
    };
    let mut xc = xc;
    c.rng.shuffle(&mut xc);
    p3_general(c, &P3::new(g, xc));
}
/// Landmarks on integer positions: special positions where quotients of the published algorithm are 0/0.
fn c17_lattice(c: &mut Case) {
    let r = &mut c.rng;
    let g = if r.chance(0.5) {
        Iso { r: Iso::id().r, t: [r.below(5) as f64, r.below(5) as f64, 0.0] }
    } else {
        Iso { r: rot_uniform(r), t: mul(ball(r), 5.0) }
    };
    let xc: [V3; 3] = if r.chance(0.3) {
        let d = 1.0 + r.below(4) as f64;
        let q = [[1., 1., d], [-1., 1., d], [-1., -1., d], [1., -1., d]];
        let k = r.below(4);
        [q[k], q[(k + 1) % 4], q[(k + 2) % 4]]
    } else {
        std::array::from_fn(|_| [r.below(7) as f64 - 3.0, r.below(7) as f64 - 3.0, 1.0 + r.below(5) as f64])
    };
    let p = P3::new(g, xc);
    let d = p.samples(c);
    let mut missing = 0;
    let orders = [[0, 1, 2], [1, 2, 0], [2, 0, 1]];
    for o in orders {
        let dd: Vec<_> = o.iter().map(|i| d[*i]).collect();
        let Some(out) = p3p(c, &LambdaTwist::new(), &dd) else { return };
        proper(c, &out, 4, LT_ROT);
        if p.k < 1e-2 {
            continue;
        }
        let best = out.iter().map(|q| p.err(q)).fold(f64::INFINITY, f64::min);
        for q in &out {
            for i in 0..3 {
                let x = q.apply(p.xw[i]);
                if norm(x) > 1e-5 * p.ls {
                    c.within(angle(x, p.b[i]), 1e-3, "pose-contradicts-bearings", || format!("{q:?} order {o:?} landmarks {:?} truth {:?}", p.xw, p.g));
                }
            }
        }
        if !(best <= 1e-4) {
            missing += 1;
        }
    }
    if p.k < 1e-2 {
        c.inconclusive("ill-conditioned");
        return;
    }
    c.nontrivial(p.hash());
    c.bin(match missing {
        0 => "truth found in every sample order",
        3 => "truth found in no sample order",
        _ => "truth found in some sample orders",
    });
    c.check(missing == 0 || missing == 3, "special-position-order", || format!("truth missing in {missing} of 3 sample orders: k {} in camera {xc:?} truth {:?}", p.k, p.g));
    c.check(missing < 3, "special-position-all-orders", || format!("truth missing in all sample orders: k {} in camera {xc:?} truth {:?}", p.k, p.g));
}
/// Whatever the settings, poses are proper; with enough of both refinements they reproduce the data.
fn c17_settings(c: &mut Case) {
    let sc = p3_scale(c);
    let g = pose_near(c, sc);
    let r = &mut c.rng;
    let xc = std::array::from_fn(|_| mul([r.range(-1., 1.), r.range(-1., 1.), r.range(1., 4.)], sc));
    let gn = r.below(12);
    let ri = 20 + r.below(200);
    let re = r.log(1e-14, 1e-8);
    let s = LambdaTwist::new().gauss_newton_iterations(gn).rotation_convergence_iterations(ri).rotation_convergence_epsilon(re);
    c.check(
        s.gauss_newton_iterations == gn && s.rotation_convergence_iterations == ri && s.rotation_convergence_epsilon == re,
        "setting-lost",
        || format!("{s:?}", s = (s.gauss_newton_iterations, s.rotation_convergence_iterations, s.rotation_convergence_epsilon)),
    );
    let p = P3::new(g, xc);
    let d = p.samples(c);
    let Some(out) = p3p(c, &s, &d) else { return };
    proper(c, &out, 4, LT_ROT);
    if p.k < 1e-2 {
        c.inconclusive("ill-conditioned");
        return;
    }
    c.nontrivial(p.hash());
    c.bin(if gn == 0 { "no refinement" } else { "refinement" });
    let best = out.iter().map(|q| p.err(q)).fold(f64::INFINITY, f64::min);
    c.within(best, 0.2, "true-pose-missing", || format!("settings {gn} {ri} {re:e} k {:e} best {best:e}", p.k));
    c.soft_at(1e-2, best, 1e-7, "rate-settings-true-pose-1e-7", || format!("settings {gn} {ri} {re:e} k {:e} best {best:e}", p.k));
    // samples beyond the third are not used
    let mut more = d.clone();
    for _ in 0..c.rng.below(4) {
        let b = unit3(&mut c.rng);
        let x = mul(ball(&mut c.rng), sc);
        more.push(FeatureWorldMatch(nu(b), wpoint(c, x)));
    }
    if let Some(o2) = p3p(c, &s, &more) {
        c.check(format!("{o2:?}") == format!("{out:?}"), "later-samples-used", || format!("{out:?} {o2:?}"));
    }
}
/// Noisy bearings: three points are always matched exactly, whatever the noise.
fn c17_noise(c: &mut Case) {
    let sc = p3_scale(c);
    let g = pose_near(c, sc);
    let r = &mut c.rng;
    let xc: [V3; 3] = std::array::from_fn(|_| mul([r.range(-1., 1.), r.range(-1., 1.), r.range(1., 4.)], sc));
    let mut p = P3::new(g, xc);
    let noise = c.rng.log(1e-6, 1e-1);
    for b in &mut p.b {
        *b = unit(add(*b, mul(unit3(&mut c.rng), noise)));
    }
    let d = p.samples(c);
    let Some(out) = p3p(c, &LambdaTwist::new(), &d) else { return };
    proper(c, &out, 4, LT_ROT);
    for q in &out {
        // conditioning at the answer
        let y: [V3; 3] = std::array::from_fn(|i| q.apply(p.xw[i]));
        if y.iter().any(|y| norm(*y) < 1e-3 * p.ls) {
            c.inconclusive("landmark at the camera");
            continue;
        }
        let k = P3::new(*q, y).k;
        if k < 1e-2 {
            c.inconclusive("ill-conditioned");
            continue;
        }
        c.nontrivial(p.hash());
        c.bin("noisy solution");
        let e = (0..3).map(|i| angle(y[i], p.b[i])).fold(0.0, f64::max);
        c.within(e, 0.05, "pose-contradicts-bearings", || format!("noise {noise:e} k {k:e} {q:?} {:?}", p.xw));
        c.soft(e, 1e-9, "rate-noisy-reprojection-1e-9", || format!("noise {noise:e} k {k:e} {q:?} {:?}", p.xw));
    }
}
fn c17_degenerate(c: &mut Case) {
    let sc = p3_scale(c);
    let g = pose_near(c, sc);
    let r = &mut c.rng;
    let x: [V3; 3] = std::array::from_fn(|_| mul([r.range(-1., 1.), r.range(-1., 1.), r.range(1., 4.)], sc));
    let kind = r.below(7);
    let (name, mut w, b): (_, [V3; 3], [V3; 3]) = match kind {
        0 => ("one landmark at infinity", x, x),
        1 => {
            let q = [x[0], x[1], add(x[0], mul(sub(x[1], x[0]), r.range(-2., 2.)))];
            ("collinear", q, q)
        }
        2 => ("two coincide", [x[0], x[0], x[1]], [x[0], x[0], x[1]]),
        3 => ("all coincide", [x[0]; 3], [x[0]; 3]),
        4 => ("equal bearings", x, [x[0]; 3]),
        5 => ("opposite bearings", x, [x[0], neg(x[0]), x[1]]),
        _ => {
            let a = [[0., 0., 1.], [1., 0., 1.], [2., 0., 1.]];
            ("collinear lattice", a, a)
        }
    };
    c.bin(name);
    let inv = g.inv();
    w = w.map(|p| inv.apply(p));
    let at = c.rng.below(3);
    let d: Vec<_> = (0..3)
        .map(|i| {
            let p = if kind == 0 && i == at {
                let v = unit3(&mut c.rng);
                WorldPoint::from_homogeneous(nv4([v[0], v[1], v[2], 0.0]))
            } else {
                wpoint(c, w[i])
            };
            FeatureWorldMatch(nu(unit(b[i])), p)
        })
        .collect();
    let Some(out) = p3p(c, &LambdaTwist::new(), &d) else { return };
    c.nontrivial(hash_f64s(&[w[0][0], w[1][1], w[2][2], kind as f64]));
    c.check(out.len() <= 4, "too-many-poses", || format!("{}", out.len()));
    for p in &out {
        let nan = flat(p).iter().any(|x| x.is_nan());
        c.check(!nan, "degenerate-pose-nan", || format!("{name}: {p:?}"));
        if !nan {
            c.within(rot_defect(&p.r), 1e-6, "degenerate-pose-rotation-not-proper", || format!("{name}: {p:?}"));
        }
    }
    if kind == 0 {
        c.check(out.is_empty(), "pose-from-landmark-at-infinity", || format!("{out:?}"));
    }
}
pub fn c17() -> Prop {
    Prop {
        id: "C17",
        rule: "every returned pose is proper and projects the three landmarks onto their bearings; the pose which generated the data is among them; conditioning measured from the distance equations, not by the solver",
        assumptions: &["statistical bounds (rate-*) allow the numerical tail of the cubic and eigenvalue steps", "three-point samples with conditioning below 1e-4 are not judged"],
        workloads: vec![
            wl("front", 150_000, 6_000_000, 0.5, c17_front),
            wl("around", 150_000, 6_000_000, 0.5, c17_around),
            wl("rotations", 60_000, 2_000_000, 0.5, c17_rotations),
            wl("symmetric", 60_000, 2_000_000, 0.5, c17_symmetric),
            wl("lattice", 40_000, 1_000_000, 0.2, c17_lattice),
            wl("settings", 40_000, 1_500_000, 0.5, c17_settings),
            wl("noise", 40_000, 1_500_000, 0.2, c17_noise),
            wl("degenerate", 40_000, 1_000_000, 0.9, c17_degenerate),
        ],
    }
}

// ------------------------------------------------------------------------------------ C18 / C19
pub struct Two {
    pub g: Iso,
    pub m: Vec<(V3, V3)>,
}
impl Two {
    pub fn matches(&self) -> Vec<FeatureMatch> {
        self.m.iter().map(|(a, b)| FeatureMatch(nu(*a), nu(*b))).collect()
    }
    /// the epipolar rows, entry 3 i + j belongs to a_i b_j
    pub fn rows(&self) -> Vec<[f64; 9]> {
        self.m
            .iter()
            .map(|(a, b)| {
                let mut v = [0.0; 9];
                for i in 0..3 {
                    for j in 0..3 {
                        v[3 * i + j] = a[i] * b[j];
                    }
                }
                v
            })
            .collect()
    }
    /// n-th largest singular value of the rows over the largest
    pub fn k(&self, n: usize) -> f64 {
        let mut s = svd_right(&self.rows()).0.to_vec();
        s.sort_by(|a, b| b.total_cmp(a));
        s[n - 1] / s[0]
    }
    pub fn err(&self, p: &Iso) -> f64 {
        let e = rot_dist(&p.r, &self.g.r).max(angle(p.t, self.g.t));
        if e.is_nan() {
            f64::INFINITY
        } else {
            e
        }
    }
    pub fn hash(&self) -> u64 {
        let mut v = vec![];
        for (a, b) in &self.m {
            v.extend(*a);
            v.extend(*b);
        }
        hash_f64s(&v)
    }
}
pub fn two_front(c: &mut Case, n: usize) -> Two {
    let sc = c.rng.log(1e-3, 1e3);
    let far = c.rng.range(2.0, 10.0);
    let g = Iso { r: rot_upto(&mut c.rng, 0.6), t: mul(unit3(&mut c.rng), sc * c.rng.range(0.3, 1.5)) };
    let mut m = vec![];
    while m.len() < n {
        let z = c.rng.range(1.0, far);
        let p = mul([c.rng.range(-1., 1.) * z, c.rng.range(-1., 1.) * z, z], sc);
        let q = g.apply(p);
        if q[2] < 0.1 * sc {
            continue;
        }
        m.push((unit(p), unit(q)));
    }
    Two { g, m }
}
/// Cameras that see in every direction, any rotation.
pub fn two_around(c: &mut Case, n: usize) -> Two {
    let sc = c.rng.log(1e-3, 1e3);
    let (_, r, _, _) = rot_any(&mut c.rng);
    let g = Iso { r, t: mul(axis(&mut c.rng), sc * c.rng.range(0.3, 1.5)) };
    let mut m = vec![];
    while m.len() < n {
        let p = mul(unit3(&mut c.rng), sc * c.rng.range(1.0, 5.0));
        let q = g.apply(p);
        if norm(q) < 0.05 * sc {
            continue;
        }
        m.push((unit(p), unit(q)));
    }
    Two { g, m }
}
/// Bearings in the image plane or on coordinate axes in one of the cameras.
pub fn two_axes(c: &mut Case, n: usize) -> Two {
    let mut t = two_around(c, n);
    let count = 1 + c.rng.below(n.min(3));
    let inv = t.g.inv();
    let b = norm(t.g.t);
    for i in 0..count {
        let mut d = unit3(&mut c.rng);
        d[c.rng.below(3)] = 0.0;
        let d = if c.rng.chance(0.3) { axis(&mut c.rng) } else { unit(d) };
        let x = mul(d, b * c.rng.range(1.0, 5.0));
        t.m[i] = if c.rng.chance(0.5) { (d, unit(t.g.apply(x))) } else { (unit(inv.apply(x)), d) };
    }
    c.rng.shuffle(&mut t.m);
    t
}
pub fn e_of(g: &Iso) -> M3 {
    let e = mm(&hat(unit(g.t)), &g.r);
    mscale(&e, 1.0 / fro(&e))
}
/// distance of two essential matrices, up to scale and sign
fn e_dist(a: &M3, b: &M3) -> f64 {
    let (fa, fb) = (fro(a), fro(b));
    let (a, b) = (mscale(a, 1.0 / fa), mscale(b, 1.0 / fb));
    let d = fro(&msub(&a, &b)).min(fro(&msub(&a, &mscale(&b, -1.0))));
    if d.is_nan() {
        f64::INFINITY
    } else {
        d
    }
}
fn pair(c: &mut Case, out: &[Iso]) {
    // the hypotheses are two rotations with both signs of one translation
    let paired = out.iter().all(|p| out.iter().any(|q| rot_dist(&p.r, &q.r) < 1e-9 && norm(add(p.t, q.t)) < 1e-9 * norm(p.t)));
    c.check(paired, "opposite-translation-missing", || format!("{out:?}"));
}
fn eight(c: &mut Case, t: &Two, s: &EightPoint) {
    let d = t.matches();
    let k = Two { g: t.g, m: t.m[..8].to_vec() }.k(8);
    c.note("k", &k);
    let Some(e) = c.call("EightPoint::from_matches", || s.from_matches(d.iter().copied())) else { return };
    let Some(out) = c.call("EightPoint::estimate", || s.estimate(d.iter().copied())) else { return };
    let out: Vec<Iso> = out.iter().map(|p: &CameraToCamera| Iso::of(&p.0)).collect();
    c.note("poses", &out);
    proper(c, &out, 4, 1e-9);
    if k < 1e-3 {
        c.inconclusive("ill-conditioned");
        return;
    }
    c.nontrivial(t.hash());
    let det = |_: ()| format!("k {k:e} truth {:?} matches {:?}", t.g, t.m);
    let Some(e) = e else {
        c.check(false, "no-essential-matrix", || det(()));
        return;
    };
    let ee = e_dist(&om(&e.0), &e_of(&t.g));
    c.within(ee, 1e-5, "essential-matrix-wrong", || det(()));
    c.soft(ee, 2e-14 / (k * k) + 1e-12, "rate-essential-matrix", || det(()));
    c.check(out.len() == 4, "not-four-poses", || det(()));
    pair(c, &out);
    for p in &out {
        c.within((norm(p.t) - 1.0).abs(), 1e-9, "translation-not-unit", || format!("{p:?}"));
    }
    let best = out.iter().map(|p| t.err(p)).fold(f64::INFINITY, f64::min);
    c.within(best, 1e-4, "true-pose-missing", || det(()));
    c.soft_at(2e-2, best, 1e-13 / (k * k) + 1e-9, "rate-true-pose", || det(()));
    c.soft(best, 1e-13 / (k * k) + 1e-7, "rate-true-pose-1e-7", || det(()));
    // only the first eight matches are used
    if d.len() > 8 {
        c.bin("more than eight matches");
        if let Some(Some(e8)) = c.call("EightPoint::from_matches", || s.from_matches(d[..8].iter().copied())) {
            c.check(om(&e8.0) == om(&e.0), "later-matches-used", || det(()));
        }
    }
}
fn c18_front(c: &mut Case) {
    let t = two_front(c, 8);
    eight(c, &t, &EightPoint::new());
}
fn c18_around(c: &mut Case) {
    let t = two_around(c, 8);
    eight(c, &t, &EightPoint::new());
}
fn c18_axes(c: &mut Case) {
    let t = two_axes(c, 8);
    eight(c, &t, &EightPoint::new());
}
fn c18_more(c: &mut Case) {
    let n = 8 + c.rng.below(30);
    let mut t = if c.rng.chance(0.5) { two_front(c, n) } else { two_around(c, n) };
    if c.rng.chance(0.5) {
        for m in t.m[8..].iter_mut() {
            *m = (unit3(&mut c.rng), unit3(&mut c.rng));
        }
    }
    eight(c, &t, &EightPoint::default());
}
fn c18_settings(c: &mut Case) {
    let t = two_front(c, 8);
    let s = EightPoint { epsilon: c.rng.log(1e-15, 1e-11), iterations: 500 + c.rng.below(2000) };
    eight(c, &t, &s);
}
/// The same eight matches in another order describe the same essential matrix.
fn c18_order(c: &mut Case) {
    let t = two_front(c, 8);
    let k = t.k(8);
    if k < 1e-3 {
        c.inconclusive("ill-conditioned");
        return;
    }
    c.nontrivial(t.hash());
    let d = t.matches();
    let mut d2 = d.clone();
    c.rng.shuffle(&mut d2);
    let s = EightPoint::new();
    let a = c.call("EightPoint::from_matches", || s.from_matches(d.iter().copied()));
    let b = c.call("EightPoint::from_matches", || s.from_matches(d2.iter().copied()));
    if let (Some(Some(a)), Some(Some(b))) = (a, b) {
        let e = e_dist(&om(&a.0), &om(&b.0));
        c.within(e, 1e-3, "order-matters", || format!("k {k:e}"));
        c.soft(e, 4e-14 / (k * k) + 1e-12, "rate-order", || format!("k {k:e}"));
    } else {
        c.check(false, "no-essential-matrix", || format!("k {k:e}"));
    }
}
/// Noisy matches: the answer minimises the algebraic cost, so no essential matrix (and no perturbation of the answer) does better.
fn c18_noise(c: &mut Case) {
    let mut t = two_front(c, 8);
    let noise = c.rng.log(1e-6, 3e-2);
    for m in t.m.iter_mut() {
        m.0 = unit(add(m.0, mul(unit3(&mut c.rng), noise)));
        m.1 = unit(add(m.1, mul(unit3(&mut c.rng), noise)));
    }
    let k = t.k(8);
    if k < 1e-3 {
        c.inconclusive("ill-conditioned");
        return;
    }
    c.nontrivial(t.hash());
    let d = t.matches();
    let Some(Some(e)) = c.call("EightPoint::from_matches", || EightPoint::new().from_matches(d.iter().copied())) else {
        c.check(false, "no-essential-matrix", || format!("k {k:e}"));
        return;
    };
    let m = om(&e.0);
    let f = fro(&m);
    let cost = |m: &M3| t.m.iter().map(|(a, b)| dot(*b, mv(m, *a)).abs()).fold(0.0, f64::max);
    // eight equations always have an exact solution
    c.within(cost(&m) / f, 1e-6, "noisy-matches-not-solved", || format!("k {k:e} noise {noise:e}"));
    c.soft(cost(&m) / f, 1e-13 / (k * k) + 1e-12, "rate-noisy-matches-solved", || format!("k {k:e} noise {noise:e}"));
    c.bin("noisy");
}
fn c18_degenerate(c: &mut Case) {
    let mut t = two_around(c, 8);
    let name = match c.rng.below(6) {
        0 => {
            for i in 1..8 {
                t.m[i] = t.m[i % 3];
            }
            "repeated matches"
        }
        1 => {
            t.m = vec![t.m[0]; 8];
            "one match"
        }
        2 => {
            for m in t.m.iter_mut() {
                m.1 = m.0;
            }
            "no motion"
        }
        3 => {
            let r = rot_uniform(&mut c.rng);
            for m in t.m.iter_mut() {
                m.1 = mv(&r, m.0);
            }
            "pure rotation"
        }
        4 => {
            for m in t.m.iter_mut() {
                m.0 = [0., 0., 1.];
                m.1 = [0., 0., 1.];
            }
            "optical axis"
        }
        _ => {
            for m in t.m.iter_mut() {
                let p = [m.0[0], m.0[1], 1.0];
                *m = (unit(p), unit(t.g.apply(p)));
            }
            "planar scene"
        }
    };
    c.bin(name);
    c.nontrivial(t.hash() ^ c.idx);
    let d = t.matches();
    let s = EightPoint::new();
    let Some(out) = c.call("EightPoint::estimate", || s.estimate(d.iter().copied())) else { return };
    let out: Vec<Iso> = out.iter().map(|p: &CameraToCamera| Iso::of(&p.0)).collect();
    proper(c, &out, 4, 1e-6);
}
pub fn c18() -> Prop {
    Prop {
        id: "C18",
        rule: "essential matrix and one of the four poses equal the motion which generated the matches; conditioning = eighth singular value of the own epipolar rows",
        assumptions: &["statistical bounds (rate-*) allow the numerical tail of nalgebra's symmetric eigen decomposition", "samples with conditioning below 1e-3 are not judged"],
        workloads: vec![
            wl("front", 15_000, 800_000, 0.3, c18_front),
            wl("around", 15_000, 800_000, 0.3, c18_around),
            wl("axes", 10_000, 400_000, 0.3, c18_axes),
            wl("more", 8_000, 400_000, 0.3, c18_more),
            wl("settings", 5_000, 200_000, 0.3, c18_settings),
            wl("order", 8_000, 400_000, 0.3, c18_order),
            wl("noise", 8_000, 400_000, 0.3, c18_noise),
            wl("degenerate", 8_000, 200_000, 0.9, c18_degenerate),
        ],
    }
}

pub fn k5(t: &Two) -> f64 {
    let k = t.k(5);
    let u = unit(t.g.t);
    let e1 = unit(cross(u, if u[0].abs() < 0.7 { [1., 0., 0.] } else { [0., 1., 0.] }));
    let e2 = cross(u, e1);
    // b . (u x R a), differentiated by rotation and direction
    let j: Vec<[f64; 5]> = t
        .m
        .iter()
        .map(|(a, b)| {
            let ra = mv(&t.g.r, *a);
            let w = cross(ra, cross(*b, u));
            let d = cross(ra, *b);
            [w[0], w[1], w[2], dot(e1, d), dot(e2, d)]
        })
        .collect();
    let s = svd_right(&j).0;
    k.min(smallest(&s) / largest(&s).max(1e-300))
}
fn five(c: &mut Case, s: &NisterStewenius, t: &Two) -> Option<Vec<Iso>> {
    let d = t.matches();
    let o = c.call("NisterStewenius::estimate", || s.estimate(d.iter().copied()))?;
    let o: Vec<Iso> = o.iter().map(|p: &CameraToCamera| Iso::of(&p.0)).collect();
    proper(c, &o, 40, 1e-9);
    for p in &o {
        c.within((norm(p.t) - 1.0).abs(), 1e-9, "translation-not-unit", || format!("{p:?}"));
    }
    c.check(o.len() % 4 == 0, "poses-not-in-fours", || format!("{}", o.len()));
    pair(c, &o);
    Some(o)
}
fn five_general(c: &mut Case, t: &Two, s: &NisterStewenius) {
    let k = k5(t);
    c.note("k", &k);
    let Some(out) = five(c, s, t) else { return };
    if k < 1e-4 {
        c.inconclusive("ill-conditioned");
        return;
    }
    c.nontrivial(t.hash());
    let best = out.iter().map(|p| t.err(p)).fold(f64::INFINITY, f64::min);
    let mut epi: f64 = 0.0;
    for p in &out {
        let e = mm(&hat(p.t), &p.r);
        for (a, b) in &t.m {
            let x = dot(*b, mv(&e, *a)).abs();
            epi = if x.is_nan() { f64::INFINITY } else { epi.max(x) };
        }
    }
    c.note("poses", &out.len());
    c.note("best", &best);
    c.bin(match out.len() / 4 {
        0 => "0 essential matrices",
        1 | 2 => "1-2 essential matrices",
        3 | 4 => "3-4 essential matrices",
        5 | 6 => "5-6 essential matrices",
        _ => "7-10 essential matrices",
    });
    let det = |_: ()| format!("k {k:e} best {best:e} of {} truth {:?} matches {:?}", out.len(), t.g, t.m);
    if k >= 1e-2 {
        c.bin("well-conditioned");
        c.soft_at(1e-4, best, 1e-4, "rate-true-pose-missing", || det(()));
        c.soft_at(1e-2, best, 1e-9, "rate-true-pose-1e-9", || det(()));
        c.soft_at(1e-3, best, 1e-7, "rate-true-pose-1e-7", || det(()));
        c.within(epi, 1e-2, "pose-contradicts-matches", || det(()));
        c.soft_at(1e-2, epi, 1e-9, "rate-epipolar-1e-9", || det(()));
        c.soft_at(1e-3, epi, 1e-7, "rate-epipolar-1e-7", || det(()));
    } else {
        c.bin("poorly-conditioned");
        c.soft_at(2e-2, best, 1e-6, "rate-true-pose-ill-conditioned", || det(()));
        c.soft_at(2e-2, epi, 1e-6, "rate-epipolar-ill-conditioned", || det(()));
    }
}
fn c19_front(c: &mut Case) {
    let t = two_front(c, 5);
    five_general(c, &t, &NisterStewenius::new());
}
fn c19_around(c: &mut Case) {
    let t = two_around(c, 5);
    five_general(c, &t, &NisterStewenius::new());
}
fn c19_axes(c: &mut Case) {
    let t = two_axes(c, 5);
    five_general(c, &t, &NisterStewenius::default());
}
/// Five points of a plane, where the eight-point solver has no answer.
fn c19_plane(c: &mut Case) {
    let mut t = two_front(c, 5);
    let sc = norm(t.g.t);
    let n = unit(add([0., 0., 1.], mul(ball(&mut c.rng), 0.6)));
    let h = sc * c.rng.range(3., 6.);
    for m in t.m.iter_mut() {
        let x = mul(m.0, h / dot(m.0, n));
        let y = t.g.apply(x);
        *m = (unit(x), unit(y));
    }
    if t.m.iter().any(|m| dot(m.0, n) < 0.1) {
        c.inconclusive("plane not in view");
        return;
    }
    five_general(c, &t, &NisterStewenius::new());
}
/// Motions in a plane (a vehicle), rotations about the direction of travel, pure translations.
fn c19_planar(c: &mut Case) {
    let up = if c.rng.chance(0.7) { [[1., 0., 0.], [0., 1., 0.], [0., 0., 1.]][c.rng.below(3)] } else { unit3(&mut c.rng) };
    let rot = rot_aa(up, c.rng.range(-1.0, 1.0));
    let (name, g) = match c.rng.below(3) {
        0 => {
            let v = unit(cross(up, unit3(&mut c.rng)));
            ("planar motion", Iso { r: rot, t: v })
        }
        1 => ("screw motion", Iso { r: rot, t: up }),
        _ => ("pure translation", Iso { r: Iso::id().r, t: if c.rng.chance(0.5) { up } else { unit3(&mut c.rng) } }),
    };
    let mut m = vec![];
    while m.len() < 5 {
        let z = c.rng.range(2.0, 8.0);
        let p = [c.rng.range(-1., 1.) * z, c.rng.range(-1., 1.) * z, z];
        let q = g.apply(p);
        if q[2] < 0.1 {
            continue;
        }
        m.push((unit(p), unit(q)));
    }
    c.bin(name);
    five_general(c, &Two { g, m }, &NisterStewenius::new());
}
fn c19_settings(c: &mut Case) {
    let t = two_front(c, 5);
    let s = NisterStewenius { epsilon: c.rng.log(1e-15, 1e-10), iterations: 200 + c.rng.below(2000) };
    five_general(c, &t, &s);
}
/// Noisy matches: five equations still hold exactly for every solution.
fn c19_noise(c: &mut Case) {
    let mut t = two_front(c, 5);
    let noise = c.rng.log(1e-6, 1e-2);
    for m in t.m.iter_mut() {
        m.0 = unit(add(m.0, mul(unit3(&mut c.rng), noise)));
        m.1 = unit(add(m.1, mul(unit3(&mut c.rng), noise)));
    }
    if t.k(5) < 1e-2 {
        c.inconclusive("ill-conditioned");
        return;
    }
    let Some(out) = five(c, &NisterStewenius::new(), &t) else { return };
    c.nontrivial(t.hash());
    for p in &out {
        let e = mm(&hat(p.t), &p.r);
        let x = t.m.iter().map(|(a, b)| dot(*b, mv(&e, *a)).abs()).fold(0.0, f64::max);
        let k = k5(&Two { g: *p, m: t.m.clone() });
        if k < 1e-2 {
            c.inconclusive("ill-conditioned solution");
            continue;
        }
        c.bin("noisy solution");
        c.within(x, 1e-2, "pose-contradicts-matches", || format!("noise {noise:e} k {k:e}"));
        c.soft_at(1e-2, x, 1e-9, "rate-noisy-epipolar-1e-9", || format!("noise {noise:e} k {k:e}"));
    }
}
fn c19_degenerate(c: &mut Case) {
    let mut t = two_around(c, 5);
    let mut empty = false;
    let name = match c.rng.below(6) {
        0 => {
            t.m[1] = t.m[0];
            empty = true;
            "one match twice"
        }
        1 => {
            t.m = vec![t.m[0]; 5];
            empty = true;
            "one match"
        }
        2 => {
            for m in t.m.iter_mut() {
                m.1 = m.0;
            }
            "no motion"
        }
        3 => {
            let r = rot_uniform(&mut c.rng);
            for m in t.m.iter_mut() {
                m.1 = mv(&r, m.0);
            }
            "pure rotation"
        }
        4 => {
            for (i, m) in t.m.iter_mut().enumerate() {
                let p = [i as f64, 1.0, 3.0];
                *m = (unit(p), unit(add(p, [0.5, 0.0, 0.0])));
            }
            "collinear points"
        }
        _ => {
            let d = unit3(&mut c.rng);
            for m in t.m.iter_mut() {
                m.1 = d;
            }
            empty = true;
            "one bearing in the second camera"
        }
    };
    c.bin(name);
    c.rng.shuffle(&mut t.m);
    c.nontrivial(t.hash() ^ c.idx);
    let s = NisterStewenius::new();
    if let Some(out) = five(c, &s, &t) {
        if empty {
            c.check(out.is_empty(), "poses-from-repeated-matches", || format!("{name}: {} poses", out.len()));
        }
    }
}
pub fn c19() -> Prop {
    Prop {
        id: "C19",
        rule: "every hypothesis vanishes on the five matches, the motion which generated them is among the hypotheses; conditioning measured from the epipolar rows and their derivative",
        assumptions: &["statistical bounds (rate-*) allow the numerical tail of the elimination and the eigenvalue steps", "samples with conditioning below 1e-4 are not judged"],
        workloads: vec![
            wl("front", 10_000, 300_000, 0.3, c19_front),
            wl("around", 10_000, 300_000, 0.3, c19_around),
            wl("axes", 6_000, 150_000, 0.3, c19_axes),
            wl("plane", 6_000, 150_000, 0.3, c19_plane),
            wl("planar", 8_000, 200_000, 0.3, c19_planar),
            wl("settings", 4_000, 100_000, 0.3, c19_settings),
            wl("noise", 6_000, 150_000, 0.3, c19_noise),
            wl("degenerate", 4_000, 60_000, 0.9, c19_degenerate),
        ],
    }
}
