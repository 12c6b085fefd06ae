//! cv-geom: triangulators, epipolar gradients; cv-core consensus residuals.
use crate::fw::*;
use crate::gen::*;
use crate::m::*;
use cv_core::sample_consensus::Model;
use cv_core::{
    CameraPoint, CameraToCamera, FeatureMatch, FeatureWorldMatch, Projective, TriangulatorObservations,
    TriangulatorRelative, WorldPoint, WorldToCamera,
};
use cv_geom::epipolar;
use cv_geom::triangulation::*;
use std::f64::consts::PI;

pub type Obs = (Iso, V3);
pub fn conv(o: &[Obs]) -> Vec<(WorldToCamera, cv_core::nalgebra::UnitVector3<f64>)> {
    o.iter().map(|(p, b)| (WorldToCamera(p.na()), nu(*b))).collect()
}

/// The triangulators, by a uniform interface: homogeneous answer in the frame of the input poses.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum T {
    Linear,
    Sine,
    Dlt,
    L1,
    LInf,
    Mean,
}
pub const ALL: [T; 6] = [T::Linear, T::Sine, T::Dlt, T::L1, T::LInf, T::Mean];
pub const MULTI: [T; 3] = [T::Linear, T::Sine, T::Mean];
impl T {
    pub fn name(self) -> &'static str {
        match self {
            T::Linear => "LinearEigenTriangulator",
            T::Sine => "SineL1Triangulator",
            T::Dlt => "RelativeDltTriangulator",
            T::L1 => "AngularL1Triangulator",
            T::LInf => "AngularLInfinityTriangulator",
            T::Mean => "MeanMeanTriangulator",
        }
    }
    pub fn multi(self) -> bool {
        matches!(self, T::Linear | T::Sine | T::Mean)
    }
    pub fn obs(self, c: &mut Case, o: &[Obs]) -> Option<Option<[f64; 4]>> {
        let v = conv(o);
        let f = |p: WorldPoint| ov4(&p.homogeneous());
        match self {
            T::Linear => c.call("LinearEigen::triangulate_observations", || LinearEigenTriangulator::new().triangulate_observations(v.iter().copied())).map(|x| x.map(f)),
            T::Sine => c.call("SineL1::triangulate_observations", || SineL1Triangulator::new().triangulate_observations(v.iter().copied())).map(|x| x.map(f)),
            T::Mean => c.call("MeanMean::triangulate_observations", || MeanMeanTriangulator.triangulate_observations(v.iter().copied())).map(|x| x.map(f)),
            _ => unreachable!(),
        }
    }
    pub fn center(self, c: &mut Case, b0: V3, o: &[Obs]) -> Option<Option<[f64; 4]>> {
        let v: Vec<_> = o.iter().map(|(p, b)| (CameraToCamera(p.na()), nu(*b))).collect();
        let f = |p: CameraPoint| ov4(&p.homogeneous());
        match self {
            T::Linear => c.call("LinearEigen::triangulate_observations_to_camera", || LinearEigenTriangulator::new().triangulate_observations_to_camera(nu(b0), v.iter().copied())).map(|x| x.map(f)),
            T::Sine => c.call("SineL1::triangulate_observations_to_camera", || SineL1Triangulator::new().triangulate_observations_to_camera(nu(b0), v.iter().copied())).map(|x| x.map(f)),
            T::Mean => c.call("MeanMean::triangulate_observations_to_camera", || MeanMeanTriangulator.triangulate_observations_to_camera(nu(b0), v.iter().copied())).map(|x| x.map(f)),
            _ => unreachable!(),
        }
    }
    pub fn rel(self, c: &mut Case, p: &Iso, a: V3, b: V3) -> Option<Option<[f64; 4]>> {
        let p = CameraToCamera(p.na());
        let (a, b) = (nu(a), nu(b));
        let f = |p: CameraPoint| ov4(&p.homogeneous());
        match self {
            T::Linear => c.call("LinearEigen::triangulate_relative", || LinearEigenTriangulator::new().triangulate_relative(p, a, b)),
            T::Sine => c.call("SineL1::triangulate_relative", || SineL1Triangulator::new().triangulate_relative(p, a, b)),
            T::Mean => c.call("MeanMean::triangulate_relative", || MeanMeanTriangulator.triangulate_relative(p, a, b)),
            T::Dlt => c.call("RelativeDlt::triangulate_relative", || RelativeDltTriangulator::new().triangulate_relative(p, a, b)),
            T::L1 => c.call("AngularL1::triangulate_relative", || AngularL1Triangulator.triangulate_relative(p, a, b)),
            T::LInf => c.call("AngularLInfinity::triangulate_relative", || AngularLInfinityTriangulator.triangulate_relative(p, a, b)),
        }
        .map(|x| x.map(f))
    }
}
pub fn euc(h: [f64; 4]) -> V3 {
    [h[0] / h[3], h[1] / h[3], h[2] / h[3]]
}
fn unit4(h: [f64; 4]) -> [f64; 4] {
    let n = h.iter().map(|x| x * x).sum::<f64>().sqrt();
    [h[0] / n, h[1] / n, h[2] / n, h[3] / n]
}
fn dist4(a: [f64; 4], b: [f64; 4]) -> f64 {
    let (a, b) = (unit4(a), unit4(b));
    let d = |s: f64| (0..4).map(|i| (a[i] - s * b[i]).powi(2)).sum::<f64>().sqrt();
    d(1.0).min(d(-1.0))
}
/// Sum over the views of P^T (I - b b^T) P, the quadratic form the linear method states it minimises.
pub fn quad(o: &[Obs]) -> [[f64; 4]; 4] {
    let mut q = [[0.0; 4]; 4];
    for (p, b) in o {
        let mut rows = [[0.0; 4]; 3];
        for i in 0..3 {
            for j in 0..3 {
                rows[i][j] = p.r[i][j];
            }
            rows[i][3] = p.t[i];
        }
        let mut bp = [0.0; 4];
        for j in 0..4 {
            bp[j] = (0..3).map(|i| b[i] * rows[i][j]).sum();
        }
        for i in 0..3 {
            for j in 0..4 {
                rows[i][j] -= b[i] * bp[j];
            }
        }
        for i in 0..4 {
            for j in 0..4 {
                q[i][j] += (0..3).map(|k| rows[k][i] * rows[k][j]).sum::<f64>();
            }
        }
    }
    q
}
/// The same as rows, for a decomposition which does not square the condition.
pub fn quad_rows(o: &[Obs]) -> Vec<[f64; 4]> {
    let mut out = vec![];
    for (p, b) in o {
        let mut bp = [0.0; 4];
        for j in 0..3 {
            bp[j] = (0..3).map(|i| b[i] * p.r[i][j]).sum();
        }
        bp[3] = dot(*b, p.t);
        for i in 0..3 {
            out.push([p.r[i][0] - b[i] * bp[0], p.r[i][1] - b[i] * bp[1], p.r[i][2] - b[i] * bp[2], p.t[i] - b[i] * bp[3]]);
        }
    }
    out
}
/// Rows of the DLT system of two views (algorithm 12 of Multiple View Geometry)
pub fn dlt_rows(p: &Iso, a: V3, b: V3) -> Vec<[f64; 4]> {
    let row = |i: usize| [p.r[i][0], p.r[i][1], p.r[i][2], p.t[i]];
    let (r0, r1, r2) = (row(0), row(1), row(2));
    let comb = |x: f64, u: [f64; 4], y: f64, v: [f64; 4]| [x * u[0] - y * v[0], x * u[1] - y * v[1], x * u[2] - y * v[2], x * u[3] - y * v[3]];
    vec![[-a[2], 0.0, a[0], 0.0], [0.0, -a[2], a[1], 0.0], comb(b[0], r2, b[2], r0), comb(b[1], r2, b[2], r1)]
}

pub struct Scene {
    pub kind: &'static str,
    pub x: V3,
    pub o: Vec<Obs>,
}
/// n cameras looking at one point, from very different arrangements.
pub fn scene(r: &mut Rng, n: usize) -> Scene {
    let scale = if r.chance(0.5) { 1.0 } else { r.log(1e-3, 1e3) };
    let kind = r.below(6);
    let mut o: Vec<Obs> = vec![];
    // scene in local coordinates, point at distance ~1..20 from the cameras
    let depth = r.range(1.0, 20.0);
    let x = match kind {
        0 | 1 | 3 => [depth * r.range(-0.8, 0.8), depth * r.range(-0.8, 0.8), depth],
        2 => mul(unit3(r), depth),
        _ => boxv(r, 1.0),
    };
    let name = ["sideways", "first-at-origin", "forward", "small-rotations", "around", "around-far-from-origin"][kind];
    for i in 0..n {
        let (c, rot) = match kind {
            0 => ([r.range(-2.0, 2.0), r.range(-2.0, 2.0), r.range(-0.2, 0.2)], rot_upto(r, 0.5)),
            1 => (if i == 0 { [0.0; 3] } else { mul(unit3(r), r.log(0.05, 3.0)) }, if i == 0 { I3 } else { rot_upto(r, 1.0) }),
            2 => {
                // along the viewing direction, slightly off
                let d = unit(x);
                (add(mul(d, -r.range(0.0, 5.0) * i as f64), mul(unit3(r), 0.3)), rot_uniform(r))
            }
            3 => (mul(unit3(r), r.range(0.1, 1.5)), rot_upto(r, 0.1)),
            _ => {
                let c = add(x, mul(unit3(r), r.log(0.5, 10.0)));
                let aim = add(sub(x, c), mul(unit3(r), 0.2));
                (c, if r.chance(0.5) { look_to(r, aim) } else { rot_uniform(r) })
            }
        };
        o.push((Iso { r: rot, t: neg(mv(&rot, c)) }, [0.0; 3]));
    }
    // world frame
    let g = if kind == 1 {
        Iso::id()
    } else {
        let off = if kind == 5 { r.log(10.0, 300.0) } else { r.range(0.0, 3.0) };
        Iso { r: rot_uniform(r), t: mul(unit3(r), off) }
    };
    let mut s = Scene { kind: name, x, o };
    s = moved(&s, &g, scale);
    for (p, b) in s.o.iter_mut() {
        *b = unit(p.apply(s.x));
    }
    s
}
/// The scene after X' = s (G X), with every camera moved along.
pub fn moved(s: &Scene, g: &Iso, sc: f64) -> Scene {
    let gi = g.inv();
    Scene {
        kind: s.kind,
        x: mul(g.apply(s.x), sc),
        o: s.o
            .iter()
            .map(|(p, b)| {
                let q = gi.then(p); // p o g^-1
                (Iso { r: q.r, t: mul(q.t, sc) }, *b)
            })
            .collect(),
    }
}
pub fn noisy(r: &mut Rng, b: V3, n: f64) -> V3 {
    unit(add(b, mul(unit3(r), n * r.f())))
}
/// Largest angle between any two world rays.
pub fn parallax(o: &[Obs]) -> f64 {
    let w: Vec<V3> = o.iter().map(|(p, b)| mv(&tr(&p.r), *b)).collect();
    let mut m = 0.0f64;
    for i in 0..w.len() {
        for j in 0..i {
            let a = angle(w[i], w[j]);
            m = m.max(a.min(PI - a));
        }
    }
    m
}
fn scene_hash(s: &Scene) -> u64 {
    let mut h = hash_f64s(&s.x);
    for (p, b) in &s.o {
        h ^= hash_f64s(&flat(p)).rotate_left(7) ^ hash_f64s(b);
    }
    h
}
/// Allowed error of the linear method: in the unit homogeneous vector
fn lin_cond(o: &[Obs]) -> f64 {
    let s = svd_right::<4>(&quad_rows(o)).0;
    if s[2] > 0.0 {
        (s[0] / s[2]).powi(2)
    } else {
        f64::INFINITY
    }
}
const LIN_EPS: f64 = 1e-9;
const DLT_EPS: f64 = 1e-9;

/// nalgebra's symmetric eigen solver may mix the two vectors of its last 2x2 block by up to this angle (rarely).
const MIX: f64 = 3e-4;
#[derive(Clone, Copy)]
struct Tol {
    /// met by nearly all cases
    soft: f64,
    /// met by every case
    hard: f64,
}
/// Expected accuracy of each method on exact data: relative euclidean error of the point, None if not judged.
fn exact_tol(t: T, o: &[Obs], x: V3) -> Option<Tol> {
    // error e of a unit homogeneous vector (X, 1)/|(X,1)| becomes a euclidean error of e (1 + |X|^2)
    let blow = (1.0 + dot(x, x)) / norm(x);
    let lin = LIN_EPS * lin_cond(o) * blow;
    let mut mix = 0.0;
    let tol = match t {
        T::Linear => {
            mix = MIX * blow;
            lin
        }
        T::Sine => {
            let ls: Vec<(V3, V3)> = o.iter().map(|(p, b)| (p.center(), mv(&tr(&p.r), *b))).collect();
            let mu = lines_ls(&ls).map(|l| l.1).unwrap_or(0.0);
            let reach = ls.iter().map(|l| norm(l.0)).fold(norm(x), f64::max);
            mix = MIX * blow;
            lin + 1e-11 * reach / norm(x) / mu.max(1e-300)
        }
        T::Dlt => {
            let rel = o[0].0.inv().then(&o[1].0);
            let s = svd_right::<4>(&dlt_rows(&rel, o[0].1, o[1].1)).0;
            DLT_EPS * s[0] / s[2].max(1e-300) * blow
        }
        T::L1 | T::LInf => {
            let rel = o[0].0.inv().then(&o[1].0);
            let c = rel.center();
            let bw = mv(&tr(&rel.r), o[1].1);
            let phi = norm(cross(o[0].1, bw));
            let tn = norm(c);
            let (sa, sb) = (norm(cross(o[0].1, c)) / tn, norm(cross(bw, c)) / tn);
            let m = sa.max(sb);
            1e-12 * (1.0 / phi) * (1.0 + 1.0 / m) + 1e-12 / sa.min(sb).max(1e-300) + 1e-12 * tn / norm(x)
        }
        T::Mean => return None,
    };
    (tol < 1e-2).then_some(Tol { soft: tol, hard: tol + mix })
}
/// An exact point is accepted for sure when the error cannot bring it behind the nearest camera.
fn surely_in_front(tol: f64, o: &[Obs], x: V3) -> bool {
    let near = o.iter().map(|(p, _)| norm(p.apply(x))).fold(f64::INFINITY, f64::min);
    tol * norm(x) < 0.3 * near
}
fn judge_exact(c: &mut Case, t: T, tol: Tol, h: Option<[f64; 4]>, s: &Scene) {
    let front = surely_in_front(tol.hard, &s.o, s.x);
    let (kind, x, o) = (s.kind, s.x, s.o.clone());
    match h {
        None if front => c.fail(&format!("exact-rejected:{}", t.name()), format!("{kind} {x:?} {o:?}")),
        None => c.soft(1.0, 0.0, sig_exact(t), || format!("rejected: {kind} {x:?} {o:?}")),
        Some(h) => {
            let p = euc(h);
            let e = norm(sub(p, x)) / norm(x);
            c.soft(e, tol.soft, sig_exact(t), || format!("{kind} {x:?} {o:?}: got {p:?}"));
            if tol.hard < 3e-2 {
                c.within(e, tol.hard, sig_exact(t), || format!("{kind} {x:?} {o:?}: got {p:?}"));
            }
        }
    }
}

// ----------------------------------------------------------------------------------------- C11
/// Now and then a point is seen by very many cameras.
fn crowd(c: &mut Case, n: usize) -> usize {
    if c.rng.chance(0.06) {
        c.bin("crowd");
        20 + c.rng.below(70)
    } else {
        n
    }
}
/// Every now and then the point is much further away than the cameras are from each other.
fn distant(c: &mut Case, s: &mut Scene) {
    if !c.rng.chance(0.25) {
        return;
    }
    let far = c.rng.log(1.0, 1e5);
    let o = s.o[0].0.center();
    s.x = add(o, mul(sub(s.x, o), far));
    for (p, b) in s.o.iter_mut() {
        *b = unit(p.apply(s.x));
    }
    c.bin("distant");
}
const PARALLAX: f64 = 1e-6;
fn c11_two(c: &mut Case) {
    let mut s = scene(&mut c.rng, 2);
    distant(c, &mut s);
    // relative methods answer in camera A: make A the world
    let g = s.o[0].0;
    s = moved(&s, &g, 1.0);
    s.o[0].0 = Iso::id();
    for (p, b) in s.o.iter_mut() {
        *b = unit(p.apply(s.x));
    }
    if parallax(&s.o) < PARALLAX {
        c.inconclusive("no-parallax");
        return;
    }
    c.bin(s.kind);
    c.note("point", &s.x);
    c.note("observations", &s.o);
    let mut judged = 0;
    for t in ALL {
        let Some(tol) = exact_tol(t, &s.o, s.x) else { continue };
        judged += 1;
        let Some(h) = t.rel(c, &s.o[1].0, s.o[0].1, s.o[1].1) else { continue };
        judge_exact(c, t, tol, h, &s);
    }
    if judged >= 2 {
        c.nontrivial(scene_hash(&s));
    } else {
        c.inconclusive("ill-conditioned");
    }
}
fn sig_exact(t: T) -> &'static str {
    match t {
        T::Linear => "exact:LinearEigen",
        T::Sine => "exact:SineL1",
        T::Dlt => "exact:RelativeDlt",
        T::L1 => "exact:AngularL1",
        T::LInf => "exact:AngularLInfinity",
        T::Mean => "exact:MeanMean",
    }
}
fn c11_multi(c: &mut Case) {
    let n = 2 + c.rng.below(11);
    let n = crowd(c, n);
    let mut s = scene(&mut c.rng, n);
    distant(c, &mut s);
    if parallax(&s.o) < PARALLAX {
        c.inconclusive("no-parallax");
        return;
    }
    c.bin(s.kind);
    c.note("point", &s.x);
    c.note("observations", &s.o);
    let mut judged = 0;
    for t in [T::Linear, T::Sine] {
        let Some(tol) = exact_tol(t, &s.o, s.x) else { continue };
        judged += 1;
        let Some(h) = t.obs(c, &s.o) else { continue };
        judge_exact(c, t, tol, h, &s);
    }
    // too few observations
    let k = c.rng.below(2);
    let few: Vec<Obs> = s.o[..k].to_vec();
    if let Some(h) = T::Linear.obs(c, &few) {
        c.check(h.is_none(), "too-few-observations", || format!("{few:?} -> {h:?}"));
    }
    if judged > 0 {
        c.nontrivial(scene_hash(&s));
    } else {
        c.inconclusive("ill-conditioned");
    }
}
pub fn c11() -> Prop {
    Prop {
        id: "C11",
        rule: "a case is one scene (cameras sideways, forward, with small rotations, around the point, around it far from the origin; scale 1e-3..1e3; wide angles; points up to 1e5 times further away than the cameras are apart) with exact observations by 2 or 2-12 cameras; the allowed error of each method is its rounding amplified by the condition of its own design, computed independently; non-trivial = distinct scenes with parallax above 1e-6 where at least two (two views) or one (many views) methods are conditioned well enough to be judged (allowed relative error below 1e-2)",
        assumptions: &["default settings of the triangulators", "parallax of at least 1e-6 rad"],
        workloads: vec![wl("two-view", 150_000, 6_000_000, 0.5, c11_two), wl("multi-view", 60_000, 3_000_000, 0.5, c11_multi)],
    }
}

// ----------------------------------------------------------------------------------------- C12
/// The monitor proper: whatever came back must be finite and in front of every camera.
pub fn chk_front(c: &mut Case, t: T, h: [f64; 4], o: &[Obs], what: &str) {
    if !c.check(h.iter().all(|x| x.is_finite()), "finite", || format!("{} {what}: {h:?}", t.name())) {
        return;
    }
    for (i, (p, b)) in o.iter().enumerate() {
        let xyz = [h[0], h[1], h[2]];
        let v = add(mv(&p.r, xyz), mul(p.t, h[3]));
        let mag = norm(xyz) + norm(p.t) * h[3].abs();
        c.check(dot(v, *b) > -1e-9 * mag, &format!("cheirality:{}", t.name()), || {
            format!("{} {what}: point {h:?} is behind camera {i} ({:e}): {o:?}", t.name(), dot(v, *b) / mag)
        });
    }
}
fn run_front(c: &mut Case, o: &[Obs], what: &str) -> [Option<bool>; 6] {
    let mut r = [None; 6];
    for (k, t) in ALL.iter().enumerate() {
        let h = if t.multi() && (o.len() > 2 || c.idx % 2 == 0) {
            t.obs(c, o)
        } else if o.len() == 2 {
            // answer in camera A's frame: bring the observations there
            let rel = o[0].0.inv().then(&o[1].0);
            let o2 = [(Iso::id(), o[0].1), (rel, o[1].1)];
            let h = t.rel(c, &rel, o[0].1, o[1].1);
            if let Some(Some(h)) = h {
                chk_front(c, *t, h, &o2, what);
                r[k] = Some(true);
            } else if h.is_some() {
                r[k] = Some(false);
            }
            continue;
        } else {
            continue;
        };
        if let Some(h) = h {
            if let Some(h) = h {
                chk_front(c, *t, h, o, what);
            }
            r[k] = Some(h.is_some());
        }
    }
    r
}
fn c12_any(c: &mut Case) {
    let n = if c.rng.chance(0.6) { 2 } else { 2 + c.rng.below(7) };
    let n = crowd(c, n);
    let mut s = scene(&mut c.rng, n);
    let mode = c.rng.below(4);
    let name = ["noise", "one-negated", "random-bearings", "big-noise"][mode];
    match mode {
        0 => {
            let nz = c.rng.log(1e-6, 1e-1);
            for (_, b) in s.o.iter_mut() {
                *b = noisy(&mut c.rng, *b, nz);
            }
        }
        1 => {
            let k = c.rng.below(n);
            s.o[k].1 = neg(s.o[k].1);
            let nz = if c.rng.chance(0.5) { 0.0 } else { c.rng.log(1e-6, 1e-1) };
            for (_, b) in s.o.iter_mut() {
                *b = noisy(&mut c.rng, *b, nz);
            }
        }
        2 => {
            for (_, b) in s.o.iter_mut() {
                *b = unit3(&mut c.rng);
            }
        }
        _ => {
            for (_, b) in s.o.iter_mut() {
                *b = noisy(&mut c.rng, *b, 1.5);
            }
        }
    }
    c.bin(name);
    c.note("observations", &s.o);
    let r = run_front(c, &s.o, name);
    for x in r {
        match x {
            Some(true) => c.bin("returned-a-point"),
            Some(false) => c.bin("returned-none"),
            None => {}
        }
    }
    c.nontrivial(scene_hash(&s));
}
/// Exact rays, one or more of them reversed: the only meeting point is behind a camera.
fn c12_behind(c: &mut Case) {
    let n = if c.rng.chance(0.7) { 2 } else { 2 + c.rng.below(5) };
    let n = crowd(c, n);
    let mut s = scene(&mut c.rng, n);
    if parallax(&s.o) < 0.02 {
        c.inconclusive("no-parallax");
        return;
    }
    let k = c.rng.below(n);
    let orig = s.o.clone();
    for i in 0..n {
        if i == k || c.rng.chance(0.3) {
            s.o[i].1 = neg(s.o[i].1);
        }
    }
    c.note("observations", &s.o);
    let xa = s.o[0].0.apply(s.x);
    let rel: Vec<Obs> = orig.iter().map(|(p, b)| (orig[0].0.inv().then(p), *b)).collect();
    let mut judged = false;
    for t in [T::Linear, T::Sine, T::Dlt, T::L1, T::LInf] {
        let tol = if t.multi() {
            exact_tol(t, &orig, s.x)
        } else {
            if n != 2 {
                continue;
            }
            exact_tol(t, &rel, xa)
        };
        let Some(tol) = tol.filter(|t| t.soft < 1e-4) else { continue };
        let (fo, fx) = if t.multi() { (&orig, s.x) } else { (&rel, xa) };
        if !surely_in_front(tol.soft, fo, fx) {
            continue;
        }
        let h = if t.multi() { t.obs(c, &s.o) } else { t.rel(c, &rel[1].0, s.o[0].1, s.o[1].1) };
        judged = true;
        if let Some(h) = h {
            let d = || format!("{} {:?} {:?} -> {h:?}", s.kind, s.x, s.o);
            if surely_in_front(tol.hard, fo, fx) {
                c.check(h.is_none(), &format!("meets-behind:{}", t.name()), d);
            } else {
                c.soft(h.is_some() as u8 as f64, 0.5, "meets-behind", d);
            }
        }
    }
    if judged {
        c.nontrivial(scene_hash(&s));
    }
}
/// Exact or nearly exact observations of a point well in front must be accepted.
fn c12_accept(c: &mut Case) {
    let n = if c.rng.chance(0.6) { 2 } else { 2 + c.rng.below(7) };
    let n = crowd(c, n);
    let mut s = scene(&mut c.rng, n);
    let orig = s.o.clone();
    let nz = if c.rng.chance(0.5) { 0.0 } else { c.rng.log(1e-9, 1e-4) };
    for (_, b) in s.o.iter_mut() {
        *b = noisy(&mut c.rng, *b, nz);
    }
    let par = parallax(&orig);
    if par < 1e-2 {
        c.inconclusive("no-parallax");
        return;
    }
    c.bin(s.kind);
    c.bin(if nz == 0.0 { "exact" } else { "nearly-exact" });
    c.note("observations", &s.o);
    let xa = s.o[0].0.apply(s.x);
    let rel: Vec<Obs> = orig.iter().map(|(p, b)| (orig[0].0.inv().then(p), *b)).collect();
    let mut judged = false;
    for t in [T::Linear, T::Sine, T::Dlt, T::L1, T::LInf] {
        // a perturbation of the rays moves the answer by about noise x condition
        let (ok, k) = if t.multi() {
            let k = lin_cond(&s.o).sqrt() * (1.0 + dot(s.x, s.x)) / norm(s.x);
            (exact_tol(t, &orig, s.x).filter(|x| x.soft < 1e-3), k)
        } else {
            if n != 2 {
                continue;
            }
            let k = match t {
                T::Dlt => {
                    let sv = svd_right::<4>(&dlt_rows(&rel[1].0, rel[0].1, rel[1].1)).0;
                    sv[0] / sv[2] * (1.0 + dot(xa, xa)) / norm(xa)
                }
                _ => {
                    let cb = rel[1].0.center();
                    let sa = norm(cross(rel[0].1, unit(cb)));
                    let sb = norm(cross(mv(&tr(&rel[1].0.r), rel[1].1), unit(cb)));
                    10.0 / sa.min(sb) / par
                }
            };
            (exact_tol(t, &rel, xa).filter(|x| x.soft < 1e-3), k)
        };
        // the nearest camera sees the displacement magnified
        let near = s.o.iter().map(|(p, _)| norm(p.apply(s.x))).fold(f64::INFINITY, f64::min);
        let far = norm(if t.multi() { s.x } else { xa });
        let Some(tol) = ok.filter(|x| x.soft * far / near < 0.1 && nz * k * far / near < 1e-2) else { continue };
        judged = true;
        let h = if t.multi() { t.obs(c, &s.o) } else { t.rel(c, &rel[1].0, s.o[0].1, s.o[1].1) };
        if let Some(h) = h {
            let d = || format!("{} noise {nz:e} {:?} {:?}", s.kind, s.x, s.o);
            if tol.hard * far / near < 0.3 {
                c.check(h.is_some(), &format!("accepted:{}", t.name()), d);
            } else {
                c.soft(h.is_none() as u8 as f64, 0.5, "accepted", d);
            }
        }
    }
    if judged {
        c.nontrivial(scene_hash(&s));
    }
}
pub fn c12() -> Prop {
    Prop {
        id: "C12",
        rule: "a case is one scene of 2-8 cameras with noisy, reversed or unrelated bearings given to all six triangulators, every returned point judged against every camera by own arithmetic; or exact rays of which some are reversed; or (nearly) exact rays of a point in front; non-trivial = distinct scenes (for the last two: with parallax and at least one judged method)",
        assumptions: &["a point is not called behind when its depth along the bearing is within 1e-9 of zero relative to the magnitudes involved"],
        workloads: vec![
            wl("any", 150_000, 6_000_000, 0.9, c12_any),
            wl("behind", 100_000, 3_000_000, 0.4, c12_behind),
            wl("accept", 100_000, 3_000_000, 0.4, c12_accept),
        ],
    }
}

// ----------------------------------------------------------------------------------------- C13
/// min over planes through the baseline (unit vector t) of a cost of the two out-of-plane angles
fn plane_min(t: V3, a: V3, b: V3, cost: impl Fn(f64, f64) -> f64) -> f64 {
    let e1 = unit(cross(t, if t[0].abs() < 0.5 { [1.0, 0.0, 0.0] } else { [0.0, 1.0, 0.0] }));
    let e2 = cross(t, e1);
    let f = |psi: f64| {
        let n = add(mul(e1, psi.cos()), mul(e2, psi.sin()));
        cost(dot(a, n).abs().min(1.0).asin(), dot(b, n).abs().min(1.0).asin())
    };
    // where each out-of-plane angle vanishes
    let z = |v: V3| {
        let (x, y) = (dot(v, e1), dot(v, e2));
        x.atan2(-y) // n . v = x cos + y sin = 0
    };
    let mut best = f64::INFINITY;
    let mut bp = 0.0;
    let n = 96;
    let mut cand: Vec<f64> = (0..n).map(|i| PI * i as f64 / n as f64).collect();
    cand.push(z(a));
    cand.push(z(b));
    // crossings of |a.n| = |b.n|
    cand.push(z(add(a, b)));
    cand.push(z(sub(a, b)));
    for p in cand {
        let v = f(p);
        if v < best {
            best = v;
            bp = p;
        }
    }
    // golden section around the best
    let (mut lo, mut hi) = (bp - PI / n as f64, bp + PI / n as f64);
    let g = 0.618033988749895;
    for _ in 0..60 {
        let (x, y) = (hi - g * (hi - lo), lo + g * (hi - lo));
        if f(x) < f(y) {
            hi = y;
        } else {
            lo = x;
        }
    }
    best.min(f(0.5 * (lo + hi)))
}
fn c13_angular(c: &mut Case) {
    let mut s = scene(&mut c.rng, 2);
    let g = s.o[0].0;
    s = moved(&s, &g, 1.0);
    s.o[0].0 = Iso::id();
    let nz = c.rng.log(1e-6, 0.2);
    for i in 0..2 {
        s.o[i].1 = noisy(&mut c.rng, unit(s.o[i].0.apply(s.x)), nz);
    }
    let rel = s.o[1].0;
    let (a, b) = (s.o[0].1, s.o[1].1);
    let cb = rel.center();
    let t = unit(cb);
    let bw = mv(&tr(&rel.r), b);
    let (sa, sb) = (norm(cross(a, t)), norm(cross(bw, t)));
    if sa.min(sb) < 1e-3 {
        c.inconclusive("along-the-baseline");
        return;
    }
    c.note("pose", &rel);
    c.note("a,b", &(a, b));
    c.note("noise", &nz);
    for (tri, l1) in [(T::L1, true), (T::LInf, false)] {
        let min = plane_min(t, a, bw, |x, y| if l1 { x + y } else { x.max(y) });
        let Some(h) = tri.rel(c, &rel, a, b) else { continue };
        let Some(h) = h else {
            c.bin("rejected");
            continue;
        };
        let xyz = [h[0], h[1], h[2]];
        let vb = sub(xyz, mul(cb, h[3]));
        let (ea, eb) = (angle(a, xyz), angle(bw, vb));
        let cost = if l1 { ea + eb } else { ea.max(eb) };
        // rounding of the point, seen from B
        let amp = (norm(xyz) + norm(cb) * h[3]) / norm(vb);
        let tol = 1e-9 * (1.0 + amp);
        if tol > 1e-5 {
            c.inconclusive("point-at-the-second-camera");
            continue;
        }
        c.within(cost - min, tol, if l1 { "L1-minimal" } else { "LInf-minimal" }, || {
            format!("{rel:?} a {a:?} b {b:?}: cost {cost:e}, achievable {min:e}, point {h:?}")
        });
        c.check(cost > min - 1e-9 * (1.0 + amp), "oracle-is-a-bound", || format!("{cost:e} {min:e}"));
        c.nontrivial(hash_f64s(&flat(&rel)) ^ hash_f64s(&a));
    }
}
fn c13_linear(c: &mut Case) {
    let n = 2 + c.rng.below(9);
    let n = crowd(c, n);
    let mut s = scene(&mut c.rng, n);
    let nz = c.rng.log(1e-6, 0.2);
    for (_, b) in s.o.iter_mut() {
        *b = noisy(&mut c.rng, *b, nz);
    }
    c.note("observations", &s.o);
    let q = quad(&s.o);
    let (w, v) = jacobi::<4>(q);
    let Some(h) = T::Linear.obs(c, &s.o) else { return };
    // the acceptance decision follows from the minimiser
    let gap = (w[1] - w[0]) / w[3];
    if gap < 1e-8 {
        c.inconclusive("no-gap");
        return;
    }
    let m = v[0];
    let m = if m[3] < 0.0 { [-m[0], -m[1], -m[2], -m[3]] } else { m };
    let mut margin = f64::INFINITY;
    for (p, b) in &s.o {
        let xyz = [m[0], m[1], m[2]];
        let x = add(mv(&p.r, xyz), mul(p.t, m[3]));
        margin = margin.min(dot(x, *b) / (norm(xyz) + norm(p.t) * m[3]));
    }
    let err = 1e-10 / gap;
    match h {
        Some(h) => {
            c.bin("accepted");
            let u = unit4(h);
            let mut r = 0.0;
            for i in 0..4 {
                for j in 0..4 {
                    r += u[i] * q[i][j] * u[j];
                }
            }
            c.soft(r - w[0], 1e-10 * w[3], "cost-minimal", || format!("{:?}: {h:?} has {r:e}, minimum {:e}", s.o, w[0]));
            c.within(r - w[0], 1e-6 * w[3], "cost-minimal", || format!("{:?}: {h:?} has {r:e}, minimum {:e}", s.o, w[0]));
            c.soft(dist4(h, m), 10.0 * err, "is-the-minimiser", || format!("{:?}: {h:?} want {m:?}", s.o));
            c.within(dist4(h, m), 10.0 * err + MIX, "is-the-minimiser", || format!("{:?}: {h:?} want {m:?}", s.o));
            c.nontrivial(scene_hash(&s));
        }
        None => {
            c.bin("rejected");
            if m[3] > 1e-6 {
                let reach = 1.0 + s.o.iter().map(|(p, _)| norm(p.t)).fold(0.0, f64::max);
                c.soft(margin, 1e-6 + 10.0 * err * reach, "rejected-only-if-behind", || format!("{:?}: minimiser {m:?} is {margin:e} in front", s.o));
                c.check(margin < 1e-6 + (10.0 * err + MIX) * reach, "rejected-only-if-behind", || format!("{:?}: minimiser {m:?} is {margin:e} in front", s.o));
            }
        }
    }
}
fn c13_sine(c: &mut Case) {
    let n = 2 + c.rng.below(9);
    let n = crowd(c, n);
    let mut s = scene(&mut c.rng, n);
    let nz = c.rng.log(1e-6, 0.1);
    for (_, b) in s.o.iter_mut() {
        *b = noisy(&mut c.rng, *b, nz);
    }
    let ls: Vec<(V3, V3)> = s.o.iter().map(|(p, b)| (p.center(), mv(&tr(&p.r), *b))).collect();
    let Some((best, mu)) = lines_ls(&ls) else { return };
    let rate = c.rng.pick(&[1.0, 1.0, 0.7]);
    if mu * rate < 0.03 {
        c.inconclusive("ill-conditioned");
        return;
    }
    c.note("observations", &s.o);
    let v = conv(&s.o);
    let Some(h) = c.call("SineL1::triangulate_observations", || {
        SineL1Triangulator::new().optimization_rate(rate).triangulate_observations(v.iter().copied()).map(|p| ov4(&p.homogeneous()))
    }) else {
        return;
    };
    // where the iteration starts from
    let lin = T::Linear.obs(c, &s.o);
    let Some(Some(start)) = lin else {
        c.bin("no-start");
        return;
    };
    let margin = ls.iter().map(|(o, d)| dot(sub(best, *o), *d) / (norm(best) + norm(*o))).fold(f64::INFINITY, f64::min);
    match h {
        None => {
            c.bin("rejected");
            c.check(margin < 1e-6, "rejected-only-if-behind", || format!("{:?}: least squares point {best:?} is {margin:e} in front", s.o));
        }
        Some(h) => {
            c.bin("accepted");
            if h[3] == 0.0 {
                return;
            }
            let p = euc(h);
            let d0 = norm(sub(euc(start), best));
            if !d0.is_finite() {
                return;
            }
            let reach = ls.iter().map(|l| norm(l.0)).fold(norm(best), f64::max);
            let left = (1.0 - mu * rate).powi(1000) * d0;
            let tol = 2.0 * left + (3e-12 * norm(best) + 1e-12 * reach) / (mu * rate);
            c.within(norm(sub(p, best)), tol, "least-squares-point", || format!("{:?}: {p:?} want {best:?} (start {start:?})", s.o));
            c.nontrivial(scene_hash(&s));
        }
    }
}
fn c13_mean(c: &mut Case) {
    let n = 2 + c.rng.below(9);
    let n = crowd(c, n);
    let mut s = scene(&mut c.rng, n);
    let nz = c.rng.log(1e-6, 0.2);
    for (_, b) in s.o.iter_mut() {
        *b = noisy(&mut c.rng, *b, nz);
    }
    let ls: Vec<(V3, V3)> = s.o.iter().map(|(p, b)| (p.center(), mv(&tr(&p.r), *b))).collect();
    let k = 1.0 / n as f64;
    let cen = mul(ls.iter().fold([0.0; 3], |x, l| add(x, l.0)), k);
    let sum = ls.iter().fold([0.0; 3], |x, l| add(x, l.1));
    if norm(sum) < 0.05 * n as f64 {
        c.inconclusive("bearings-cancel");
        return;
    }
    let d = unit(sum);
    let mut dist = 0.0;
    let mut worst = f64::INFINITY;
    for (o, b) in &ls {
        // closest approach of the lines cen + s d and o + u b: 2x2 normal equations
        let db = dot(d, *b);
        let den = 1.0 - db * db;
        worst = worst.min(norm(cross(d, *b)));
        let w = sub(*o, cen);
        dist += k * (dot(w, d) - dot(w, *b) * db) / den;
    }
    if worst < 1e-2 {
        c.inconclusive("bearing-along-mean");
        return;
    }
    let want = add(cen, mul(d, dist));
    c.note("observations", &s.o);
    let Some(h) = T::Mean.obs(c, &s.o) else { return };
    let margin = ls.iter().map(|(o, b)| dot(sub(want, *o), *b) / (norm(want) + norm(*o))).fold(f64::INFINITY, f64::min);
    let reach = ls.iter().map(|l| norm(l.0)).fold(norm(want), f64::max);
    match h {
        None => {
            c.bin("rejected");
            c.check(margin < 1e-6, "mean-rejected-only-if-behind", || format!("{:?}: {want:?} is {margin:e} in front", s.o));
        }
        Some(h) => {
            c.bin("accepted");
            c.check(margin > -1e-6, "mean-accepted-only-if-in-front", || format!("{:?}: {want:?} is {margin:e} in front", s.o));
            let p = euc(h);
            // the answer is stored as direction and inverse distance: relative to |dist| as well
            let tol = 1e-10 * reach / (worst * worst) * (1.0 + reach / dist.abs());
            c.within(norm(sub(p, want)), tol, "mean-of-means-point", || format!("{:?}: {p:?} want {want:?}", s.o));
            c.nontrivial(scene_hash(&s));
        }
    }
}
pub fn c13() -> Prop {
    Prop {
        id: "C13",
        rule: "a case is one scene with ray noise 1e-6..0.2: two views for the angular methods (own minimisation over all epipolar planes: dense scan, analytic candidates, golden section), 2-10 views for the others (own Jacobi eigen decomposition, own least squares, own closest-approach formula); non-trivial = distinct scenes where the method returned a point and the reference is well conditioned",
        assumptions: &["default iteration limits", "sine-L1 judged where its iteration converges within them (smallest eigenvalue of the mean projector x rate >= 0.03)"],
        workloads: vec![
            wl("angular", 60_000, 3_000_000, 0.5, c13_angular),
            wl("linear", 100_000, 4_000_000, 0.4, c13_linear),
            wl("sine", 20_000, 600_000, 0.15, c13_sine),
            wl("mean", 100_000, 4_000_000, 0.2, c13_mean),
        ],
    }
}

// ----------------------------------------------------------------------------------------- C14
fn rmap(h: Option<[f64; 4]>) -> Option<V3> {
    h.filter(|h| h[3] > 0.0).map(euc)
}
fn c14_frame(c: &mut Case) {
    let n = if c.rng.chance(0.5) { 2 } else { 2 + c.rng.below(6) };
    let n = crowd(c, n);
    let mut s = scene(&mut c.rng, n);
    let orig = s.o.clone();
    let nz = if c.rng.chance(0.5) { 0.0 } else { c.rng.log(1e-6, 1e-2) };
    for (_, b) in s.o.iter_mut() {
        *b = noisy(&mut c.rng, *b, nz);
    }
    let sc = if c.rng.chance(0.3) { 1.0 } else { c.rng.log(1e-3, 1e3) };
    let pure_rot = c.rng.chance(0.3);
    let g = Iso {
        r: if c.rng.chance(0.2) { I3 } else { rot_uniform(&mut c.rng) },
        t: if pure_rot { [0.0; 3] } else { mul(unit3(&mut c.rng), norm(s.x) * c.rng.log(1e-2, 10.0)) },
    };
    let sc = if pure_rot { 1.0 } else { sc };
    let m = moved(&s, &g, sc);
    let morig = moved(&Scene { kind: s.kind, x: s.x, o: orig.clone() }, &g, sc);
    if parallax(&orig) < 1e-2 {
        c.inconclusive("no-parallax");
        return;
    }
    c.bin(if nz == 0.0 { "exact" } else { "noisy" });
    c.bin(if pure_rot { "rotation-about-origin" } else { "motion-and-scale" });
    c.note("observations", &s.o);
    c.note("motion", &g);
    c.note("scale", &sc);
    let ls: Vec<(V3, V3)> = s.o.iter().map(|(p, b)| (p.center(), mv(&tr(&p.r), *b))).collect();
    let mu = lines_ls(&ls).map(|l| l.1).unwrap_or(0.0);
    for t in MULTI {
        let tol = match (t, nz == 0.0) {
            (T::Linear, true) | (T::Sine, true) => {
                let (Some(a), Some(b)) = (exact_tol(t, &orig, s.x), exact_tol(t, &morig.o, morig.x)) else { continue };
                Tol { soft: a.soft * norm(s.x) + b.soft * norm(morig.x) / sc, hard: a.hard * norm(s.x) + b.hard * norm(morig.x) / sc }
            }
            (T::Linear, false) => {
                if !pure_rot {
                    continue;
                }
                let w = jacobi::<4>(quad(&s.o)).0;
                let e = 1e-9 * w[3] / (w[1] - w[0]);
                let blow = (1.0 + dot(s.x, s.x)) * 4.0;
                Tol { soft: e * blow, hard: (e + MIX) * blow }
            }
            (T::Sine, false) => {
                if mu < 0.03 {
                    continue;
                }
                let e = 1e-7 * (norm(s.x) + norm(morig.x) / sc);
                Tol { soft: e, hard: e }
            }
            _ => {
                // mean-of-means: rounding relative to the distances involved over the angle to the mean
                let sum = ls.iter().fold([0.0; 3], |x, l| add(x, l.1));
                let d = unit(sum);
                let worst = ls.iter().map(|l| norm(cross(d, l.1))).fold(f64::INFINITY, f64::min);
                if worst < 1e-2 || norm(sum) < 0.05 * n as f64 {
                    continue;
                }
                let far = ls.iter().map(|l| norm(l.0)).fold(norm(s.x), f64::max) + morig.o.iter().map(|l| norm(l.0.center())).fold(0.0, f64::max) / sc;
                let e = 1e-9 * far / (worst * worst);
                Tol { soft: e, hard: e }
            }
        };
        if tol.soft > 1e-3 * norm(s.x) {
            c.inconclusive("ill-conditioned");
            continue;
        }
        let (Some(a), Some(b)) = (t.obs(c, &s.o), t.obs(c, &m.o)) else { continue };
        if t == T::Sine && nz > 0.0 && a.is_some() != b.is_some() {
            // its starting point is the linear one, whose cost (and so whose side of the camera) depends on the frame
            let from = if a.is_none() { &s.o } else { &m.o };
            if let Some(None) = T::Linear.obs(c, from) {
                c.inconclusive("no-start-in-one-frame");
                continue;
            }
        }
        judge_same(c, t, "frame", a, b, |p| mul(g.apply(p), sc), Tol { soft: tol.soft * sc, hard: tol.hard * sc }, &s.o, &m.o);
        c.nontrivial(scene_hash(&s));
    }
}
/// Two answers that must be the same after a change of frame; an answer within rounding of being behind a camera is not judged.
#[allow(clippy::too_many_arguments)]
fn judge_same(c: &mut Case, t: T, what: &'static str, a: Option<[f64; 4]>, b: Option<[f64; 4]>, f: impl Fn(V3) -> V3, tol: Tol, oa: &[Obs], ob: &[Obs]) {
    let (pa, pb) = (rmap(a), rmap(b));
    if a.is_some() != b.is_some() {
        // acceptance may differ only if the accepted point is within rounding of a camera's own plane
        let (p, o) = if let Some(p) = pa { (p, oa) } else if let Some(p) = pb { (p, ob) } else { return };
        let m = o.iter().map(|(q, b)| { let v = q.apply(p); dot(v, *b) / (norm(p) + norm(q.t)) }).fold(f64::INFINITY, f64::min);
        let size = norm(p).max(1e-300);
        c.soft(m, 1e-6 + 10.0 * tol.soft / size, "acceptance", || format!("{what} {} {a:?} vs {b:?} (margin {m:e}): {oa:?} / {ob:?}", t.name()));
        c.check(m < 1e-6 + 10.0 * tol.hard / size, &format!("{what}-acceptance:{}", t.name()), || format!("{a:?} vs {b:?} (margin {m:e}): {oa:?} / {ob:?}"));
        return;
    }
    if let (Some(x), Some(y)) = (pa, pb) {
        let d = norm(sub(f(x), y));
        c.st.checks += 1;
        c.soft(d, tol.soft, what, || format!("{} moved answer {:?} but got {y:?}: {oa:?} / {ob:?}", t.name(), f(x)));
        if !(d <= tol.hard) {
            c.fail(&format!("{what}:{}", t.name()), format!("moved answer {:?} but got {y:?}, differ by {d:e} > {:e}: {oa:?} / {ob:?}", f(x), tol.hard));
        }
    }
}
fn c14_order(c: &mut Case) {
    let n = 3 + c.rng.below(6);
    let n = crowd(c, n);
    let mut s = scene(&mut c.rng, n);
    let nz = if c.rng.chance(0.3) { 0.0 } else { c.rng.log(1e-6, 1e-2) };
    for (_, b) in s.o.iter_mut() {
        *b = noisy(&mut c.rng, *b, nz);
    }
    let mut sh = s.o.clone();
    c.rng.shuffle(&mut sh);
    c.note("observations", &s.o);
    c.note("reordered", &sh);
    let w = jacobi::<4>(quad(&s.o)).0;
    let gap = (w[1] - w[0]) / w[3];
    if gap < 1e-9 {
        c.inconclusive("no-gap");
        return;
    }
    let ls: Vec<(V3, V3)> = s.o.iter().map(|(p, b)| (p.center(), mv(&tr(&p.r), *b))).collect();
    let mu = lines_ls(&ls).map(|l| l.1).unwrap_or(0.0);
    let sum = ls.iter().fold([0.0; 3], |x, l| add(x, l.1));
    let worst = ls.iter().map(|l| norm(cross(unit(sum), l.1))).fold(f64::INFINITY, f64::min);
    for t in MULTI {
        let (Some(a), Some(b)) = (t.obs(c, &s.o), t.obs(c, &sh)) else { continue };
        let Some(p) = rmap(a) else { continue };
        let blow = (1.0 + dot(p, p)) * 4.0;
        let one = |e: f64| Tol { soft: e, hard: e };
        let tol = match t {
            T::Linear => Tol { soft: 1e-9 / gap * blow, hard: (1e-9 / gap + MIX) * blow },
            T::Sine if mu >= 0.03 => one(1e-7 * ls.iter().map(|l| norm(l.0)).fold(norm(p), f64::max)),
            T::Mean if worst >= 1e-2 && norm(sum) > 0.05 * n as f64 => one(1e-9 * ls.iter().map(|l| norm(l.0)).fold(norm(p), f64::max) / (worst * worst)),
            _ => continue,
        };
        if tol.soft > 1e-3 * norm(p) {
            continue;
        }
        judge_same(c, t, "order", a, b, |p| p, tol, &s.o, &sh);
        c.nontrivial(scene_hash(&s));
    }
}
fn c14_entry(c: &mut Case) {
    let n = if c.rng.chance(0.6) { 2 } else { 2 + c.rng.below(5) };
    let n = crowd(c, n);
    let mut s = scene(&mut c.rng, n);
    let g = s.o[0].0;
    s = moved(&s, &g, 1.0);
    s.o[0].0 = Iso::id();
    let nz = c.rng.log(1e-8, 1e-2);
    let exact = c.rng.chance(0.4);
    for (p, b) in s.o.iter_mut() {
        *b = unit(p.apply(s.x));
        if !exact {
            *b = noisy(&mut c.rng, *b, nz);
        }
    }
    c.note("observations", &s.o);
    let w = jacobi::<4>(quad(&s.o)).0;
    let gap = (w[1] - w[0]) / w[3];
    for t in MULTI {
        let (Some(a), Some(b)) = (t.obs(c, &s.o), t.center(c, s.o[0].1, &s.o[1..])) else { continue };
        // 0 when the same; the conditioning decides how far rounding may part the two
        let diff = |x: Option<[f64; 4]>, y: Option<[f64; 4]>| match (x, y) {
            (None, None) => 0.0,
            (Some(x), Some(y)) => dist4(x, y),
            _ => 1.0,
        };
        let soft = 1e-9 / gap.max(1e-300) + 1e-7;
        let d = diff(a, b);
        c.soft(d, soft, "centre-entry-agrees", || format!("{} {a:?} vs {b:?}: {:?}", t.name(), s.o));
        if d < 1.0 && gap > 1e-5 && t != T::Mean {
            c.check(d < soft + 10.0 * MIX, &format!("centre-entry-agrees:{}", t.name()), || format!("{a:?} vs {b:?}: {:?}", s.o));
        }
        if n == 2 {
            let Some(e) = t.rel(c, &s.o[1].0, s.o[0].1, s.o[1].1) else { continue };
            let d = diff(a, e);
            c.soft(d, soft, "relative-entry-agrees", || format!("{} {a:?} vs {e:?}: {:?}", t.name(), s.o));
            if d < 1.0 && gap > 1e-5 && t != T::Mean {
                c.check(d < soft + 10.0 * MIX, &format!("relative-entry-agrees:{}", t.name()), || format!("{a:?} vs {e:?}: {:?}", s.o));
            }
        }
    }
    c.nontrivial(scene_hash(&s));
    if n != 2 || parallax(&s.o) < 0.02 {
        return;
    }
    // which camera comes first, rotating either camera's own frame, and scale
    let rel = s.o[1].0;
    let (a, b) = (s.o[0].1, s.o[1].1);
    let cb = rel.center();
    let sa = norm(cross(a, unit(cb)));
    let bw = mv(&tr(&rel.r), b);
    let sb = norm(cross(bw, unit(cb)));
    if sa.min(sb) < 1e-2 {
        return;
    }
    let one = |e: f64| Tol { soft: e, hard: e };
    for t in [T::L1, T::LInf, T::Dlt] {
        // at equal distances from the baseline the two L1 corrections cost the same: no unique answer
        if t == T::L1 && !exact && (sa - sb).abs() < 1e-6 {
            continue;
        }
        let base_tol = match t {
            T::Dlt => {
                if !exact {
                    continue;
                }
                let xb = rel.apply(s.x);
                let rb = [(rel.inv(), a), (Iso::id(), b)];
                let back: Vec<Obs> = vec![(Iso::id(), b), (rel.inv(), a)];
                let _ = rb;
                match (exact_tol(t, &s.o, s.x), exact_tol(t, &back, xb)) {
                    (Some(x), Some(y)) => x.hard * norm(s.x) + y.hard * norm(xb),
                    _ => continue,
                }
            }
            _ => 1e-9 * (norm(s.x) + norm(cb)) / norm(cross(a, bw)).powi(2) / sa.min(sb),
        };
        if base_tol > 1e-3 * norm(s.x) {
            continue;
        }
        let Some(h) = t.rel(c, &rel, a, b) else { continue };
        let o1 = [(Iso::id(), a), (rel, b)];
        // swap
        let ri = rel.inv();
        let Some(h2) = t.rel(c, &ri, b, a) else { continue };
        let o2 = [(Iso::id(), b), (ri, a)];
        judge_same(c, t, "swap", h, h2, |p| rel.apply(p), one(base_tol * 2.0), &o1, &o2);
        // rotated camera frames
        let (ra, rb) = (rot_uniform(&mut c.rng), rot_uniform(&mut c.rng));
        if t != T::Dlt {
            let rel2 = Iso { r: mm(&rb, &mm(&rel.r, &tr(&ra))), t: mv(&rb, rel.t) };
            let (a2, b2) = (mv(&ra, a), mv(&rb, b));
            let Some(h3) = t.rel(c, &rel2, a2, b2) else { continue };
            judge_same(c, t, "camera-frames", h, h3, |p| mv(&ra, p), one(base_tol * 2.0), &o1, &[(Iso::id(), a2), (rel2, b2)]);
        }
        // scale
        let sc = c.rng.log(1e-3, 1e3);
        let rel3 = Iso { r: rel.r, t: mul(rel.t, sc) };
        let tol3 = if t == T::Dlt {
            let o3 = vec![(Iso::id(), a), (rel3, b)];
            match exact_tol(t, &o3, mul(s.x, sc)) {
                Some(y) => base_tol * sc + y.hard * norm(s.x) * sc,
                None => continue,
            }
        } else {
            base_tol * sc * 2.0
        };
        let Some(h4) = t.rel(c, &rel3, a, b) else { continue };
        judge_same(c, t, "scale", h, h4, |p| mul(p, sc), one(tol3), &o1, &[(Iso::id(), a), (rel3, b)]);
    }
}
pub fn c14() -> Prop {
    Prop {
        id: "C14",
        rule: "a case is one scene triangulated in two frames (random rigid motion, scale 1e-3..1e3), in two orders, through the different entry points, with the cameras exchanged, with rotated camera frames, or rescaled; exact or noisy rays; non-trivial = distinct scenes conditioned well enough that a disagreement of 1e-3 is not rounding",
        assumptions: &["default settings", "acceptance is not judged within 1e-6 of a camera's own plane"],
        workloads: vec![
            wl("frame", 60_000, 3_000_000, 0.4, c14_frame),
            wl("order", 40_000, 2_000_000, 0.4, c14_order),
            wl("entry", 60_000, 3_000_000, 0.9, c14_entry),
        ],
    }
}

// ----------------------------------------------------------------------------------------- C16
fn c16_world(c: &mut Case) {
    let (iso, rl, tl) = iso_any(&mut c.rng);
    c.bin(rl);
    c.bin(tl);
    let d = axis(&mut c.rng);
    let w = match c.rng.below(4) {
        0 => 0.0,
        1 => c.rng.log(1e-8, 1e-2) / (1.0 + norm(iso.t)),
        _ => c.rng.log(1e-3, 1e3) / (1.0 + norm(iso.t)),
    };
    let v = add(mv(&iso.r, d), mul(iso.t, w));
    if norm(v) < 1e-6 * (1.0 + norm(iso.t) * w) {
        c.inconclusive("at-the-optical-centre");
        return;
    }
    let dir = unit(v);
    let k = c.rng.below(4);
    let b = match k {
        0 => dir,
        1 => neg(dir),
        2 => {
            let nz = c.rng.log(1e-6, 0.5);
            noisy(&mut c.rng, dir, nz)
        }
        _ => unit3(&mut c.rng),
    };
    c.bin(["consistent", "exactly-behind", "noisy", "random"][k]);
    c.note("pose", &iso);
    c.note("landmark", &(d, w));
    c.note("bearing", &b);
    let sc = c.rng.log(1e-3, 1e3);
    let p = WorldPoint::from_homogeneous(nv4([d[0] * sc, d[1] * sc, d[2] * sc, w * sc]));
    let Some(r) = c.call("WorldToCamera::residual", || WorldToCamera(iso.na()).residual(&FeatureWorldMatch(nu(b), p))) else { return };
    let amp = (1.0 + norm(iso.t) * w) / norm(v);
    let want = 1.0 - dot(b, dir);
    c.within((r - want).abs(), 1e-13 * (10.0 + amp), "world-residual", || format!("{iso:?} {d:?} w {w} b {b:?}: {r:e} want {want:e}"));
    c.check(r > -1e-12 && r < 2.0 + 1e-12, "world-residual-range", || format!("{r:e}"));
    c.nontrivial(hash_f64s(&flat(&iso)) ^ hash_f64s(&b));
}
fn c16_relative(c: &mut Case) {
    let k = c.rng.below(5);
    let mut s = scene(&mut c.rng, 2);
    let g = s.o[0].0;
    s = moved(&s, &g, 1.0);
    let rel = s.o[1].0;
    let (mut a, mut b) = (unit(s.x), unit(rel.apply(s.x)));
    match k {
        0 => {}
        1 => {
            let nz = c.rng.log(1e-6, 0.2);
            a = noisy(&mut c.rng, a, nz);
            b = noisy(&mut c.rng, b, nz);
        }
        2 => {
            a = unit3(&mut c.rng);
            b = unit3(&mut c.rng);
        }
        3 => {
            a = neg(a);
            b = neg(b);
        }
        _ => b = neg(b),
    }
    let name = ["consistent", "noisy", "random", "both-reversed", "one-reversed"][k];
    c.bin(name);
    c.note("pose", &rel);
    c.note("a,b", &(a, b));
    let Some(r) = c.call("CameraToCamera::residual", || CameraToCamera(rel.na()).residual(&FeatureMatch(nu(a), nu(b)))) else { return };
    c.check(r > -1e-9 && r < 2.0 + 1e-9, "relative-residual-range", || format!("{rel:?} {a:?} {b:?}: {r:e}"));
    let o = [(Iso::id(), a), (rel, b)];
    let (sv, v) = svd_right::<4>(&quad_rows(&o));
    let gap = (sv[2] * sv[2] - sv[3] * sv[3]) / (sv[0] * sv[0]);
    let m = v[3];
    let err = 4e-11 / gap;
    let vb0 = add(mv(&rel.r, [m[0], m[1], m[2]]), mul(rel.t, m[3]));
    let (na_, nb_) = (norm([m[0], m[1], m[2]]), norm(vb0));
    let amp = 1.0 / na_ + (1.0 + norm(rel.t)) / nb_;
    if !(err * amp < 1e-4) || m[3].abs() < 10.0 * err {
        c.inconclusive("ill-conditioned");
        return;
    }
    let sg = if m[3] < 0.0 { -1.0 } else { 1.0 };
    let da = mul([m[0], m[1], m[2]], sg / na_);
    let db = mul(vb0, sg / nb_);
    let want = 0.5 * (1.0 - dot(a, da) + 1.0 - dot(b, db));
    let hard = err + MIX;
    c.soft((r - want).abs(), 1e-12 + err * amp, "relative-residual", || format!("{name} {rel:?} {a:?} {b:?}: {r:e} want {want:e}"));
    c.within((r - want).abs(), 1e-12 + hard * amp, "relative-residual", || format!("{name} {rel:?} {a:?} {b:?}: {r:e} want {want:e}"));
    match k {
        0 => {
            c.soft(r, (err * amp).powi(2) + 1e-12, "consistent-vanishes", || format!("{rel:?} {a:?} {b:?}: {r:e}"));
            c.within(r, (hard * amp).powi(2) + 1e-12, "consistent-vanishes", || format!("{rel:?} {a:?} {b:?}: {r:e}"));
        }
        3 => {
            c.within((r - 2.0).abs(), (hard * amp).powi(2) + 1e-12, "behind-both-is-two", || format!("{rel:?} {a:?} {b:?}: {r:e}"));
        }
        4 => {
            c.within((r - 1.0).abs(), hard * amp + 1e-12, "behind-one-is-one", || format!("{rel:?} {a:?} {b:?}: {r:e}"));
        }
        _ => {}
    }
    c.nontrivial(scene_hash(&s) ^ hash_f64s(&b));
}
pub fn c16() -> Prop {
    Prop {
        id: "C16",
        rule: "a case is one world pose x one landmark (finite, far, at infinity; any homogeneous scale) x one bearing (consistent, opposite, noisy, random), or one relative pose x one match (consistent, noisy, random, one or both reversed), compared with own forward projection and own SVD of the linear system; non-trivial = distinct, landmark not at the optical centre, system conditioned well enough",
        assumptions: &["residual of a relative pose judged where rounding of the 4x4 eigen solution cannot move it by more than 1e-4"],
        workloads: vec![wl("world", 400_000, 20_000_000, 0.8, c16_world), wl("relative", 100_000, 4_000_000, 0.4, c16_relative)],
    }
}

// ----------------------------------------------------------------------------------------- C22
fn c22_single(c: &mut Case) {
    let t = match c.rng.below(5) {
        0 => [0.0; 3],
        1 => mul(axis(&mut c.rng), c.rng.log(1e-3, 1e3)),
        2 => mul(unit3(&mut c.rng), c.rng.log(1e-12, 1e12)),
        _ => mul(unit3(&mut c.rng), c.rng.log(1e-2, 1e2)),
    };
    let b = match c.rng.below(4) {
        0 if norm(t) > 0.0 => unit(t),
        1 if norm(t) > 0.0 => neg(unit(t)),
        2 => axis(&mut c.rng),
        _ => unit3(&mut c.rng),
    };
    c.note("t", &t);
    c.note("b", &b);
    let n = norm(t);
    if let Some(g) = c.call("point_gradient", || epipolar::point_gradient(nv(t), nu(b))) {
        let g = ov(&g);
        let want = sub(t, mul(b, dot(t, b)));
        c.within(norm(sub(g, want)), 1e-13 * n, "point-gradient", || format!("{t:?} {b:?}: {g:?} want {want:?}"));
        // moving the point by it puts it on the ray: camera at t relative to the point
        c.within(norm(cross(sub(t, g), b)), 1e-13 * n, "point-gradient-reaches-ray", || format!("{t:?} {b:?}: {g:?}"));
        c.within(dot(g, b).abs(), 1e-13 * n, "point-gradient-orthogonal", || format!("{t:?} {b:?}: {g:?}"));
    }
    if let Some(g) = c.call("world_pose_gradient", || epipolar::world_pose_gradient(nv(t), nu(b))) {
        let (gt, gr) = (ov(&g.translation), ov(&g.rotation));
        let wt = sub(mul(b, dot(t, b)), t);
        c.within(norm(sub(gt, wt)), 1e-13 * n, "pose-gradient-translation", || format!("{t:?} {b:?}: {gt:?} want {wt:?}"));
        let wr = if n == 0.0 { [0.0; 3] } else { cross(unit(t), b) };
        c.within(norm(sub(gr, wr)), 1e-13, "pose-gradient-rotation", || format!("{t:?} {b:?}: {gr:?} want {wr:?}"));
    }
    c.nontrivial(hash_f64s(&t) ^ hash_f64s(&b));
}
fn c22_loss(c: &mut Case) {
    let t = match c.rng.below(8) {
        0 => [0.0; 3],
        1 => mul(axis(&mut c.rng), c.rng.log(1e-3, 1e3)),
        _ => mul(unit3(&mut c.rng), c.rng.log(1e-4, 1e4)),
    };
    let tn = norm(t);
    let k = c.rng.below(6);
    let (a, b) = match k {
        0 if tn > 0.0 => {
            // coplanar, meeting somewhere
            let p = mul(unit3(&mut c.rng), tn * c.rng.log(0.1, 100.0));
            (unit(p), unit(sub(p, t)))
        }
        1 if tn > 0.0 => (unit(t), unit3(&mut c.rng)),
        2 if tn > 0.0 => (unit3(&mut c.rng), neg(unit(t))),
        3 => {
            let a = unit3(&mut c.rng);
            let n = c.rng.log(1e-6, 0.3);
            (a, noisy(&mut c.rng, a, n))
        }
        4 => {
            let a = unit3(&mut c.rng);
            (a, neg(a))
        }
        _ => (unit3(&mut c.rng), unit3(&mut c.rng)),
    };
    c.note("t", &t);
    c.note("a,b", &(a, b));
    let Some(l) = c.call("loss", || epipolar::loss(nv(t), nu(a), nu(b))) else { return };
    c.check((0.0..=1.0 + 1e-12).contains(&l), "loss-range", || format!("{t:?} {a:?} {b:?}: {l}"));
    let ab = dot(a, b);
    if ab < -1e-12 {
        c.bin("opposed");
        c.check(l == 1.0, "opposed-is-one", || format!("{t:?} {a:?} {b:?}: {l}"));
    } else if tn == 0.0 {
        c.bin("no-baseline");
        c.check(l == 1.0, "undefined-is-one", || format!("{t:?} {a:?} {b:?}: {l}"));
    } else if ab > 1e-12 {
        let u = unit(t);
        let (sa, sb) = (norm(cross(a, u)), norm(cross(b, u)));
        let m = sa.max(sb);
        if m < 1e-6 {
            c.inconclusive("along-the-baseline");
            return;
        }
        c.bin("defined");
        let want = dot(u, cross(a, b)).abs() / m;
        c.within((l - want).abs(), 1e-13 / m, "loss-is-sine-of-correction", || format!("{t:?} {a:?} {b:?}: {l:e} want {want:e}"));
    }
    c.nontrivial(hash_f64s(&t) ^ hash_f64s(&a) ^ hash_f64s(&b));
}
fn three(c: &mut Case, cc: V3, f: V3, ft: V3, s: V3, st: V3) -> Option<[(V3, V3); 2]> {
    c.call("three_view_gradients", || epipolar::three_view_gradients(nu(cc), nu(f), nv(ft), nu(s), nv(st)))
        .map(|g| g.map(|g| (ov(&g.translation), ov(&g.rotation))))
}
fn c22_three(c: &mut Case) {
    let sc = c.rng.log(1e-3, 1e3);
    let p = mul([c.rng.range(-0.7, 0.7), c.rng.range(-0.7, 0.7), 1.0], sc * c.rng.range(2.0, 10.0));
    let ft = mul(unit3(&mut c.rng), sc * c.rng.range(0.3, 2.0));
    let st = mul(unit3(&mut c.rng), sc * c.rng.range(0.3, 2.0));
    let (cc, f, s) = (unit(p), unit(sub(p, ft)), unit(sub(p, st)));
    let minpar = norm(cross(cc, f)).min(norm(cross(cc, s))).min(norm(cross(f, s)));
    if minpar < 0.02 {
        c.inconclusive("no-parallax");
        return;
    }
    c.note("point", &p);
    c.note("first,second", &(ft, st));
    let exact = c.rng.chance(0.4);
    let reach = norm(p);
    if let Some(g) = three(c, cc, f, ft, s, st) {
        for (k, (t, r)) in g.iter().enumerate() {
            c.within(norm(*t), 1e-11 * reach / minpar, "three-view-zero-translation", || format!("{p:?} {ft:?} {st:?}: gradient {k} {t:?}"));
            c.within(norm(*r), 1e-12 / minpar, "three-view-zero-rotation", || format!("{p:?} {ft:?} {st:?}: gradient {k} {r:?}"));
        }
    }
    c.nontrivial(hash_f64s(&p) ^ hash_f64s(&ft));
    if exact {
        return;
    }
    let wild = c.rng.chance(0.5);
    let nz = if wild { c.rng.range(0.1, 1.0) } else { c.rng.log(1e-5, 3e-3) };
    let (cc, f, s) = (noisy(&mut c.rng, cc, nz), noisy(&mut c.rng, f, nz), noisy(&mut c.rng, s, nz));
    c.note("noise", &nz);
    // the rays as corrected may be nearly parallel, or nearly along the baseline, although the exact ones are not
    let coplanar = |a: V3, b: V3, t: V3| {
        let (u, v) = (unit(cross(a, t)), unit(cross(b, t)));
        norm(cross(a, b)).min(norm(cross(a, unit(t)))).min(norm(cross(b, unit(t)))).min(1.0 - (dot(u, v).abs() < 1e-3) as u8 as f64)
    };
    // corrected rays
    let par = |a: V3, b: V3, t: V3| {
        let (na, nb) = (unit(cross(a, t)), unit(cross(b, t)));
        let (a, b) = if norm(cross(a, t)) < norm(cross(b, t)) { (unit(sub(a, mul(nb, dot(a, nb)))), b) } else { (a, unit(sub(b, mul(na, dot(b, na))))) };
        norm(cross(a, b))
    };
    let sf = sub(st, ft);
    let ok = [(cc, f, ft), (cc, s, st), (f, s, sf)].iter().map(|&(a, b, t)| coplanar(a, b, t).min(par(a, b, t))).fold(minpar, f64::min);
    if ok < 0.01 {
        c.inconclusive("no-parallax");
        return;
    }
    let minpar = ok;
    c.bin(if wild { "wild-observations" } else { "noisy-observations" });
    let Some(g) = three(c, cc, f, ft, s, st) else { return };
    let tt = 1e-10 * reach / (minpar * minpar);
    let rt = 1e-11 / minpar;
    let near = |x: &(V3, V3), y: &(V3, V3)| (norm(sub(x.0, y.0)) / tt).max(norm(sub(x.1, y.1)) / rt);
    // the L1 correction has two equal choices when both rays are equally far from the baseline
    let eq = |a: V3, b: V3, t: V3| (norm(cross(a, unit(t))) - norm(cross(b, unit(t)))).abs() < 1e-9;
    if eq(cc, f, ft) || eq(cc, s, st) || eq(f, s, sub(st, ft)) {
        c.inconclusive("tie");
        return;
    }
    if let Some(w) = three(c, cc, s, st, f, ft) {
        let sig = if wild { "three-view-swap-translation-behind" } else { "three-view-swap" };
        let rot = norm(sub(g[0].1, w[1].1)).max(norm(sub(g[1].1, w[0].1)));
        c.within(rot, rt, "three-view-swap-rotation", || format!("{p:?} {ft:?} {st:?}: {g:?} swapped {w:?}"));
        c.within(near(&g[0], &w[1]).max(near(&g[1], &w[0])), 1.0, sig, || format!("{p:?} {ft:?} {st:?}: {g:?} swapped {w:?}"));
    }
    let q = rot_uniform(&mut c.rng);
    if let Some(w) = three(c, mv(&q, cc), mv(&q, f), mv(&q, ft), mv(&q, s), mv(&q, st)) {
        for k in 0..2 {
            let r = (mv(&q, g[k].0), mv(&q, g[k].1));
            c.within(near(&r, &w[k]), 1.0, "three-view-rotates", || format!("{p:?} {ft:?} {st:?}: {r:?} got {w:?}"));
        }
    }
    let z = c.rng.log(1e-2, 1e2);
    if let Some(w) = three(c, cc, f, mul(ft, z), s, mul(st, z)) {
        for k in 0..2 {
            let r = (mul(w[k].0, 1.0 / z), w[k].1);
            c.within(near(&r, &g[k]), 1.0, "three-view-scales", || format!("{p:?} {ft:?} {st:?}: {r:?} got {w:?}"));
        }
    }
}
/// Rotation gradients: each edge turns one epipolar plane into the other, by axis and sine of the angle between them,
/// wherever both planes exist; two thirds for the edge to the centre, one third for the edge between the others.
fn c22_rotation(c: &mut Case) {
    let sc = c.rng.log(1e-3, 1e3);
    let cc = unit3(&mut c.rng);
    let near = |c: &mut Case, d: V3| {
        let n = c.rng.log(1e-5, 1.0);
        let d = if c.rng.chance(0.3) { neg(d) } else { d };
        noisy(&mut c.rng, d, n)
    };
    let mut dir = |c: &mut Case, a: V3| if c.rng.chance(0.4) { near(c, a) } else { unit3(&mut c.rng) };
    let (ft, st) = (dir(c, cc), dir(c, cc));
    let (ft, st) = (mul(ft, sc * c.rng.log(1e-2, 3.0)), mul(st, sc * c.rng.log(1e-2, 3.0)));
    let (f, s) = if c.rng.chance(0.3) {
        let p = mul(cc, sc * c.rng.log(0.1, 100.0));
        (sub(p, ft), sub(p, st))
    } else {
        (dir(c, ft), dir(c, st))
    };
    if norm(f).min(norm(s)) == 0.0 {
        return;
    }
    let (f, s) = (unit(f), unit(s));
    c.note("bearings", &[cc, f, s]);
    c.note("first,second", &(ft, st));
    let mut off = f64::INFINITY;
    let mut edge = |t: V3, a: V3, b: V3| {
        let (x, y) = (cross(a, t), cross(b, t));
        off = off.min(norm(x) / norm(t)).min(norm(y) / norm(t));
        cross(unit(y), unit(x))
    };
    let (cf, cs, fs) = (edge(ft, cc, f), edge(st, cc, s), edge(sub(st, ft), f, s));
    if !(off > 1e-6) {
        c.inconclusive("along-the-baseline");
        return;
    }
    c.bin(if off < 1e-2 { "nearly-along-the-baseline" } else { "planes-well-defined" });
    let Some(g) = three(c, cc, f, ft, s, st) else { return };
    let want = [sub(mul(cf, 2.0 / 3.0), mul(fs, 1.0 / 3.0)), add(mul(cs, 2.0 / 3.0), mul(fs, 1.0 / 3.0))];
    // the plane between the two other cameras also suffers when these are close to each other
    let tol = 1e-13 / off * (1.0 + (norm(ft) + norm(st)) / norm(sub(st, ft)));
    for k in 0..2 {
        c.within(norm(sub(g[k].1, want[k])), tol, "three-view-rotation", || format!("{cc:?} {f:?} {s:?} {ft:?} {st:?}: gradient {k} {:?} want {:?}", g[k].1, want[k]));
    }
    c.nontrivial(hash_f64s(&f) ^ hash_f64s(&ft));
}
/// With one camera slightly displaced or rotated, its gradient must point back.
fn c22_direction(c: &mut Case) {
    let p = mul([c.rng.range(-0.5, 0.5), c.rng.range(-0.5, 0.5), 1.0], c.rng.range(3.0, 8.0));
    let ft = mul(unit3(&mut c.rng), c.rng.range(0.5, 1.5));
    let st = mul(unit3(&mut c.rng), c.rng.range(0.5, 1.5));
    let (cc, f, s) = (unit(p), unit(sub(p, ft)), unit(sub(p, st)));
    let minpar = norm(cross(cc, f)).min(norm(cross(cc, s))).min(norm(cross(f, s)));
    let plane = |a: V3, b: V3, t: V3| norm(cross(a, unit(t))).min(norm(cross(b, unit(t))));
    if minpar < 0.05 || plane(cc, f, ft).min(plane(cc, s, st)).min(plane(f, s, sub(st, ft))) < 0.2 {
        c.inconclusive("no-parallax");
        return;
    }
    let second = c.rng.chance(0.5);
    let own = second as usize;
    // Rotate the camera's bearing (as a wrong pose rotation would) by a small angle, in the epipolar plane
    // it has with one of the others: that edge stays consistent, so the gradient must correct the other one.
    let (bear, tcen, toth, oth) = if second { (s, st, sub(st, ft), f) } else { (f, ft, sub(ft, st), s) };
    let edges = [(tcen, cc), (toth, oth)];
    let (keep, fixed) = if c.rng.chance(0.5) { (0, 1) } else { (1, 0) };
    let ax = unit(cross(bear, edges[keep].0));
    let d = rot_aa(ax, if c.rng.chance(0.5) { 1e-4 } else { -1e-4 });
    let bear2 = mv(&d, bear);
    c.note("point", &p);
    c.note("first,second", &(ft, st));
    c.note("rotated (second, edge kept)", &(second, keep));
    let g = if second { three(c, cc, f, ft, bear2, st) } else { three(c, cc, bear2, ft, s, st) };
    let Some(g) = g else { return };
    let (te, be) = edges[fixed];
    let off = |x: V3| dot(cross(be, x), te).abs() / norm(te);
    let before = off(bear2);
    let after = off(mv(&exp3(g[own].1), bear2));
    if before < 2e-6 {
        c.inconclusive("in-plane-rotation");
        return;
    }
    c.check(after < before, "rotation-gradient-reduces-error", || format!("{p:?} {ft:?} {st:?} axis {ax:?} second {second} keep {keep}: epipolar error {before:e} -> {after:e}, {g:?}"));
    c.nontrivial(hash_f64s(&p) ^ hash_f64s(&ft));
    // displaced camera
    let e = mul(unit3(&mut c.rng), 1e-4);
    let (ft2, st2) = if second { (ft, add(st, e)) } else { (add(ft, e), st) };
    let Some(g) = three(c, cc, f, ft2, s, st2) else { return };
    // distance of the known point from the camera's displaced ray
    let o2 = if second { st2 } else { ft2 };
    let b = if second { s } else { f };
    let before = line_dist(p, o2, b);
    if before < 2e-5 {
        c.inconclusive("displaced-along-the-ray");
        return;
    }
    if g[own].0 == [0.0; 3] {
        c.check(false, "three-view-translation-gradient-is-zero", || format!("{p:?} {ft:?} {st:?} e {e:?} second {second}: no translation gradient, ray error {before:e}"));
        return;
    }
    // (No bound on its size: the gradient mixes in the displacement seen from the third camera.)
    c.bin("translation-gradient");
}
pub fn c22() -> Prop {
    Prop {
        id: "C22",
        rule: "a case is one translation (zero, on axis, 1e-12..1e12) with one bearing (incl. parallel and antiparallel) for the single-view gradients; one baseline with two bearings (coplanar, parallel to the baseline, opposed, random) for the loss; one exact or noisy three-view observation with rotated, swapped and rescaled copies; one observation with bearings and baselines also (anti)parallel up to 1e-5, its rotation gradients against own arithmetic; or one three-view observation with a single camera slightly rotated or displaced; non-trivial = distinct, with parallax for the three-view ones",
        assumptions: &["three-view rays have parallax of at least 0.02 rad and are not on the tie between the two L1 corrections"],
        workloads: vec![
            wl("single", 400_000, 20_000_000, 0.9, c22_single),
            wl("loss", 400_000, 20_000_000, 0.7, c22_loss),
            wl("three", 150_000, 6_000_000, 0.5, c22_three),
            wl("rotation", 150_000, 8_000_000, 0.5, c22_rotation),
            wl("direction", 60_000, 3_000_000, 0.15, c22_direction),
        ],
    }
}
