//! Every public operation of the crates as a function from one bag of inputs to the bits of its outputs.
#![allow(dead_code)]
use crate::fw::*;
use crate::gen::*;
use crate::m::*;
use cv_core::nalgebra::{IsometryMatrix3, Matrix3, Point2, UnitVector3, Vector2, Vector3, Vector6};
use cv_core::sample_consensus::{Estimator, Model};
use cv_core::*;
use cv_geom::triangulation::*;
use cv_optimize::*;
use cv_pinhole::*;
use eight_point::EightPoint;
use lambda_twist::LambdaTwist;
use nister_stewenius::NisterStewenius;
use std::f64::consts::PI;

pub const N: usize = 10;
/// repetitions within an operation (the interpreter is too slow for more)
const K: usize = if cfg!(miri) { 1 } else { N };
const SL_ITER: usize = if cfg!(miri) { 10 } else { 1000 };
#[derive(Clone, Debug)]
pub struct In {
    /// three poses
    pub g: [Iso; 3],
    /// homogeneous coordinates of points
    pub p: [[f64; 4]; N],
    /// one bearing per view and point
    pub b: [[V3; 3]; N],
    pub e: M3,
    pub k: [f64; 6],
    pub px: [f64; 2],
    pub v6: [f64; 6],
    pub it: usize,
    pub rate: f64,
    pub label: &'static str,
    /// some numbers are so large that their products overflow: no promise about NaN
    pub extreme: bool,
}
impl In {
    pub fn hash(&self) -> u64 {
        let mut v = vec![];
        for g in &self.g {
            v.extend(flat(g));
        }
        v.extend(self.p.iter().flatten());
        v.extend(self.b.iter().flatten().flatten());
        v.extend(self.e.iter().flatten());
        v.extend(self.k);
        v.extend(self.px);
        v.extend(self.v6);
        hash_f64s(&v)
    }
    pub fn wp(&self, i: usize) -> WorldPoint {
        WorldPoint::from_homogeneous(nv4(self.p[i]))
    }
    pub fn cp(&self, i: usize) -> CameraPoint {
        CameraPoint::from_homogeneous(nv4(self.p[i]))
    }
    pub fn u(&self, i: usize, v: usize) -> UnitVector3<f64> {
        nu(self.b[i][v])
    }
    pub fn fm(&self, i: usize) -> FeatureMatch {
        FeatureMatch(self.u(i, 0), self.u(i, 1))
    }
    pub fn fw(&self, i: usize) -> FeatureWorldMatch {
        FeatureWorldMatch(self.u(i, 0), self.wp(i))
    }
    pub fn fms(&self, n: usize) -> Vec<FeatureMatch> {
        (0..n).map(|i| self.fm(i)).collect()
    }
    pub fn fws(&self, n: usize) -> Vec<FeatureWorldMatch> {
        (0..n).map(|i| self.fw(i)).collect()
    }
    pub fn ls(&self) -> Vec<[UnitVector3<f64>; 3]> {
        (0..N).map(|i| [self.u(i, 0), self.u(i, 1), self.u(i, 2)]).collect()
    }
    pub fn w2c(&self, i: usize) -> WorldToCamera {
        WorldToCamera(self.g[i].na())
    }
    pub fn c2c(&self, i: usize) -> CameraToCamera {
        CameraToCamera(self.g[i].na())
    }
    fn pairs(&self, i: usize, n: usize) -> Vec<(WorldToCamera, UnitVector3<f64>)> {
        (0..n).map(|v| (self.w2c(v), self.u(i, v))).collect()
    }
    pub fn intr(&self) -> CameraIntrinsics {
        CameraIntrinsics::identity()
            .focals(Vector2::new(self.k[0], self.k[1]))
            .principal_point(Point2::new(self.k[2], self.k[3]))
            .skew(self.k[4])
    }
}

/// What an operation gave back. The numbers are also what two runs are compared by.
#[derive(Clone, Debug, Default, PartialEq)]
pub struct Out(pub Vec<u64>);
impl Out {
    pub fn push(&mut self, x: f64) {
        self.0.push(x.to_bits());
    }
    pub fn tag(&mut self, x: u64) {
        self.0.push(x);
    }
}
pub trait Put {
    fn put(&self, o: &mut Out);
}
impl Put for f64 {
    fn put(&self, o: &mut Out) {
        o.push(*self)
    }
}
impl Put for u64 {
    fn put(&self, o: &mut Out) {
        o.tag(*self)
    }
}
impl<T: Put> Put for Option<T> {
    fn put(&self, o: &mut Out) {
        match self {
            None => o.tag(0),
            Some(v) => {
                o.tag(1);
                v.put(o)
            }
        }
    }
}
impl<T: Put> Put for Vec<T> {
    fn put(&self, o: &mut Out) {
        o.tag(self.len() as u64);
        self.iter().for_each(|x| x.put(o));
    }
}
impl<T: Put, const K: usize> Put for [T; K] {
    fn put(&self, o: &mut Out) {
        self.iter().for_each(|x| x.put(o));
    }
}
impl<A: Put, B: Put> Put for (A, B) {
    fn put(&self, o: &mut Out) {
        self.0.put(o);
        self.1.put(o);
    }
}
impl<A: Put, B: Put, C: Put> Put for (A, B, C) {
    fn put(&self, o: &mut Out) {
        self.0.put(o);
        self.1.put(o);
        self.2.put(o);
    }
}
macro_rules! put_iter {
    ($($t:ty),*) => { $(impl Put for $t { fn put(&self, o: &mut Out) { self.iter().for_each(|x| o.push(*x)); } })* };
}
put_iter!(nalgebra::Vector2<f64>, Vector3<f64>, nalgebra::Vector4<f64>, Vector6<f64>, Matrix3<f64>, nalgebra::Matrix4<f64>,
    nalgebra::Matrix4x6<f64>, UnitVector3<f64>, Point2<f64>, nalgebra::Point3<f64>, nalgebra::SMatrix<f64, 9, 4>);
impl Put for nalgebra::Rotation3<f64> {
    fn put(&self, o: &mut Out) {
        self.matrix().put(o)
    }
}
impl Put for IsometryMatrix3<f64> {
    fn put(&self, o: &mut Out) {
        self.rotation.put(o);
        self.translation.vector.put(o);
    }
}
macro_rules! put_0 {
    ($($t:ty),*) => { $(impl Put for $t { fn put(&self, o: &mut Out) { self.0.put(o) } })* };
}
put_0!(WorldToCamera, CameraToCamera, CameraToWorld, WorldToWorld, EssentialMatrix, WorldPoint, Skew3, KeyPoint);
impl Put for CameraPoint {
    fn put(&self, o: &mut Out) {
        self.homogeneous().put(o)
    }
}
impl Put for Se3TangentSpace {
    fn put(&self, o: &mut Out) {
        self.to_vec().put(o)
    }
}

/// What an operation promises to be free of NaN, whatever the finite input.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind {
    /// poses or points
    Geo,
    /// transformed points, the camera centre excepted: no projective point stands for it
    Proj,
    /// other numbers
    Num,
}
pub struct Op {
    pub name: &'static str,
    pub kind: Kind,
    pub f: fn(&In) -> Out,
}
macro_rules! ops {
    ($($kind:ident $name:literal |$i:ident| $e:expr;)*) => {
        pub const OPS: &[Op] = &[$(Op { name: $name, kind: Kind::$kind, f: |$i: &In| { let mut o = Out::default(); ($e).put(&mut o); o } }),*];
    };
}
ops! {
    Proj "Pose::transform" |i| [i.w2c(0).transform(i.wp(0)), i.w2c(1).transform(i.wp(1))].map(|p| p.homogeneous());
    Proj "Pose::transform (CameraToWorld)" |i| CameraToWorld(i.g[0].na()).transform(i.cp(0)).homogeneous();
    Proj "Pose::transform_jacobians" |i| i.c2c(0).transform_jacobians(i.cp(0));
    Proj "Pose::transform_jacobian_input" |i| i.c2c(1).transform_jacobian_input(i.cp(1));
    Proj "Pose::transform_jacobian_self" |i| i.c2c(2).transform_jacobian_self(i.cp(2));
    Geo "Pose::inverse" |i| (i.w2c(0).inverse(), i.c2c(1).inverse());
    Geo "Pose::scale" |i| i.c2c(0).scale(i.k[0]);
    Geo "Pose::homogeneous" |i| i.c2c(0).homogeneous();
    Geo "Pose::se3" |i| [i.w2c(0).se3(), i.w2c(1).se3(), i.w2c(2).se3()];
    Geo "Pose::from_se3" |i| WorldToCamera::from_se3(Vector6::from(i.v6));
    Geo "WorldToWorld::from_camera_poses" |i| WorldToWorld::from_camera_poses(i.w2c(0), i.w2c(1));
    Num "WorldToCamera::residual" |i| (0..K).map(|k| i.w2c(0).residual(&i.fw(k))).collect::<Vec<_>>();
    Num "CameraToCamera::residual" |i| (0..K).map(|k| i.c2c(k % 3).residual(&i.fm(k))).collect::<Vec<_>>();
    Num "EssentialMatrix::residual" |i| (0..K).map(|k| EssentialMatrix(nm(&i.e)).residual(&i.fm(k))).collect::<Vec<_>>();
    Geo "EssentialMatrix::from" |i| EssentialMatrix::from(i.c2c(0));
    Geo "EssentialMatrix::recondition" |i| EssentialMatrix(nm(&i.e)).recondition(1e-12, 1000);
    Geo "EssentialMatrix::possible_rotations" |i| EssentialMatrix(nm(&i.e)).possible_rotations(1e-12, 1000);
    Geo "EssentialMatrix::possible_rotations_unscaled_translation" |i| EssentialMatrix(nm(&i.e)).possible_rotations_unscaled_translation(1e-12, 1000);
    Geo "EssentialMatrix::possible_unscaled_poses" |i| EssentialMatrix(nm(&i.e)).possible_unscaled_poses(1e-12, 1000);
    Geo "EssentialMatrix::possible_unscaled_poses_bearing" |i| EssentialMatrix(nm(&i.e)).possible_unscaled_poses_bearing(1e-12, 1000);
    Geo "EssentialMatrix::from(pose) decomposed" |i| EssentialMatrix::from(i.c2c(1)).possible_unscaled_poses(1e-12, 1000);
    Geo "Projective::point" |i| (0..K).map(|k| i.wp(k).point()).collect::<Vec<_>>();
    Geo "Se3TangentSpace::isometry" |i| Se3TangentSpace::from_vec(Vector6::from(i.v6)).isometry();
    Geo "Se3TangentSpace::inverse" |i| Se3TangentSpace::from_vec(Vector6::from(i.v6)).inverse().isometry();
    Geo "Se3TangentSpace::l1" |i| { let t = Se3TangentSpace::from_vec(Vector6::from(i.v6)); t.l1().scale(i.rate) + t };
    Geo "Skew3::rotation" |i| [Skew3(nv([i.v6[3], i.v6[4], i.v6[5]])).rotation(), Skew3(nv([i.v6[0], i.v6[1], i.v6[2]])).rotation()];
    Geo "Skew3::from(Rotation3)" |i| (0..3).map(|k| Skew3::from(nrot(&i.g[k].r))).collect::<Vec<_>>();
    Geo "Skew3::hat2, vee, bracket" |i| { let s = Skew3(nv([i.v6[3], i.v6[4], i.v6[5]])); ((s.hat2(), s.hat()), (Skew3::vee(s.hat()), s.bracket(Skew3(i.u(0, 0).into_inner())))) };
    Num "CameraIntrinsics::calibrate" |i| i.intr().calibrate(KeyPoint(Point2::new(i.px[0], i.px[1])));
    Num "CameraIntrinsics::uncalibrate" |i| (0..K).map(|k| i.intr().uncalibrate(i.u(k, 0))).collect::<Vec<_>>();
    Num "CameraIntrinsicsK1Distortion::calibrate" |i| CameraIntrinsicsK1Distortion::new(i.intr(), i.k[5]).calibrate(KeyPoint(Point2::new(i.px[0], i.px[1])));
    Num "CameraIntrinsicsK1Distortion::uncalibrate" |i| (0..K).map(|k| CameraIntrinsicsK1Distortion::new(i.intr(), i.k[5]).uncalibrate(i.u(k, 0))).collect::<Vec<_>>();
    Num "CameraSpecification" |i| { let s = CameraSpecification::from_sensor(Vector2::new(i.it * 7, i.it * 3), Vector2::new(i.k[0], i.k[1])); s.intrinsics_centered(i.k[0]).matrix() };
    Num "pose_reprojection_error" |i| (0..K).map(|k| pose_reprojection_error(i.c2c(k % 3), i.fm(k), LinearEigenTriangulator::new())).collect::<Vec<_>>();
    Num "average_pose_reprojection_error" |i| (0..K).map(|k| average_pose_reprojection_error(i.c2c(k % 3), i.fm(k), RelativeDltTriangulator::new())).collect::<Vec<_>>();
    Geo "LinearEigenTriangulator::triangulate_observations" |i| (0..K).map(|k| LinearEigenTriangulator::new().triangulate_observations(i.pairs(k, 3).into_iter())).collect::<Vec<_>>();
    Geo "LinearEigenTriangulator::triangulate_relative" |i| (0..K).map(|k| LinearEigenTriangulator::new().triangulate_relative(i.c2c(k % 3), i.u(k, 0), i.u(k, 1))).collect::<Vec<_>>();
    Geo "SineL1Triangulator::triangulate_observations" |i| (0..K).map(|k| SineL1Triangulator::new().max_iterations(SL_ITER).triangulate_observations(i.pairs(k, 3).into_iter())).collect::<Vec<_>>();
    Geo "SineL1Triangulator::triangulate_relative" |i| (0..K).map(|k| SineL1Triangulator::new().max_iterations(SL_ITER).optimization_rate(i.rate).triangulate_relative(i.c2c(k % 3), i.u(k, 0), i.u(k, 1))).collect::<Vec<_>>();
    Geo "MeanMeanTriangulator::triangulate_observations" |i| (0..K).map(|k| MeanMeanTriangulator.triangulate_observations(i.pairs(k, 3).into_iter())).collect::<Vec<_>>();
    Geo "MeanMeanTriangulator::triangulate_relative" |i| (0..K).map(|k| MeanMeanTriangulator.triangulate_relative(i.c2c(k % 3), i.u(k, 0), i.u(k, 1))).collect::<Vec<_>>();
    Geo "triangulate_observations of too few" |i| [MeanMeanTriangulator.triangulate_observations(i.pairs(0, i.it % 2).into_iter()), LinearEigenTriangulator::new().triangulate_observations(i.pairs(0, i.it % 2).into_iter()), SineL1Triangulator::new().max_iterations(SL_ITER).triangulate_observations(i.pairs(0, i.it % 2).into_iter())];
    Geo "triangulate_observations_to_camera" |i| (0..K).map(|k| LinearEigenTriangulator::new().triangulate_observations_to_camera(i.u(k, 0), (1..3).map(|v| (i.c2c(v), i.u(k, v))))).collect::<Vec<_>>();
    Geo "RelativeDltTriangulator" |i| (0..K).map(|k| RelativeDltTriangulator::new().triangulate_relative(i.c2c(k % 3), i.u(k, 0), i.u(k, 1))).collect::<Vec<_>>();
    Geo "AngularL1Triangulator" |i| (0..K).map(|k| AngularL1Triangulator.triangulate_relative(i.c2c(k % 3), i.u(k, 0), i.u(k, 1))).collect::<Vec<_>>();
    Geo "AngularLInfinityTriangulator" |i| (0..K).map(|k| AngularLInfinityTriangulator.triangulate_relative(i.c2c(k % 3), i.u(k, 0), i.u(k, 1))).collect::<Vec<_>>();
    Num "epipolar::three_view_gradients" |i| (0..K).map(|k| cv_geom::epipolar::three_view_gradients(i.u(k, 0), i.u(k, 1), nv(i.g[0].t), i.u(k, 2), nv(i.g[1].t))).collect::<Vec<_>>();
    Num "epipolar::point_gradient" |i| (0..K).map(|k| cv_geom::epipolar::point_gradient(nv(i.g[0].t), i.u(k, 0))).collect::<Vec<_>>();
    Num "epipolar::world_pose_gradient" |i| (0..K).map(|k| cv_geom::epipolar::world_pose_gradient(nv(i.g[0].t), i.u(k, 0))).collect::<Vec<_>>();
    Num "epipolar::loss" |i| (0..K).map(|k| cv_geom::epipolar::loss(nv(i.g[0].t), i.u(k, 0), i.u(k, 1))).collect::<Vec<_>>();
    Geo "LambdaTwist::estimate" |i| LambdaTwist::new().estimate(i.fws(3).into_iter()).to_vec();
    Geo "EightPoint::estimate" |i| EightPoint::new().estimate(i.fms(8).into_iter()).to_vec();
    Geo "EightPoint::from_matches" |i| EightPoint::new().from_matches(i.fms(8).into_iter());
    Geo "NisterStewenius::estimate" |i| NisterStewenius::new().estimate(i.fms(5).into_iter()).to_vec();
    Geo "five_points_nullspace_basis" |i| nister_stewenius::five_points_nullspace_basis(&[0, 1, 2, 3, 4].map(|k| i.u(k, 0)), &[0, 1, 2, 3, 4].map(|k| i.u(k, 1)));
    Geo "single_view_simple_optimize_l1" |i| single_view_simple_optimize_l1(i.w2c(0), 1e-9, i.rate, i.it, &i.fws(N));
    Geo "single_view_simple_optimize_l2" |i| single_view_simple_optimize_l2(i.w2c(0), i.rate, i.it, &i.fws(N));
    Geo "three_view_simple_optimize_l1" |i| three_view_simple_optimize_l1([i.c2c(0), i.c2c(1)], 1e-9, i.rate, i.it, &i.ls());
    Geo "three_view_simple_optimize_l2" |i| three_view_simple_optimize_l2([i.c2c(0), i.c2c(1)], i.rate, i.it, &i.ls());
    Geo "three_view_adaptive_optimize_l2" |i| three_view_adaptive_optimize_l2([i.c2c(0), i.c2c(1)], i.it, &i.ls());
}

// -------------------------------------------------------------------------------- input generators
fn params(r: &mut Rng, i: &mut In) {
    i.k = [
        r.log(1e-3, 1e4) * r.sign(),
        r.log(1e-3, 1e4),
        r.range(-1e4, 1e4),
        r.range(-1e4, 1e4),
        if r.chance(0.5) { 0.0 } else { r.range(-10.0, 10.0) },
        r.range(-2.0, 2.0),
    ];
    i.px = [r.range(-1e4, 1e4), r.range(-1e4, 1e4)];
    i.it = r.below(if cfg!(miri) { 4 } else { 24 });
    i.rate = r.pick(&[1e-3, 1e-2, 0.1, 0.5, 1.0]);
    let (_, _, ax, a) = rot_any(r);
    let (_, t) = trans_any(r);
    let w = mul(ax, a * r.pick(&[1.0, 1.0, 1.0, 2.0, 3.0]));
    i.v6 = [t[0], t[1], t[2], w[0], w[1], w[2]];
    i.e = match r.below(8) {
        0 => [[0.0; 3]; 3],
        1 => I3,
        2 => {
            let (a, b) = (boxv(r, 1.0), boxv(r, 1.0));
            [mul(b, a[0]), mul(b, a[1]), mul(b, a[2])]
        }
        3 => hat(trans_any(r).1),
        4 => rot_any(r).1,
        5 => mm(&hat(trans_any(r).1), &rot_any(r).1),
        6 => {
            let s = if i.extreme { r.log(1e-300, 1e300) } else { r.log(1e-100, 1e100) };
            [boxv(r, s), boxv(r, s), boxv(r, s)]
        }
        _ => [boxv(r, 1.0), boxv(r, 1.0), boxv(r, 1.0)],
    };
}
fn blank() -> In {
    In { g: [Iso::id(); 3], p: [[0.0, 0.0, 1.0, 1.0]; N], b: [[[0.0, 0.0, 1.0]; 3]; N], e: I3, k: [1.0; 6], px: [0.0; 2], v6: [0.0; 6], it: 0, rate: 0.1, label: "", extreme: false }
}
/// An ordinary scene seen without error (or with a little) by three cameras.
pub fn scene(r: &mut Rng, noise: f64) -> In {
    let mut i = blank();
    params(r, &mut i);
    i.label = "scene";
    let sc = r.log(1e-2, 1e2);
    for k in 0..3 {
        let q = rot_upto(r, 0.8);
        i.g[k] = Iso { r: q, t: mul(ball(r), sc) };
    }
    if r.chance(0.5) {
        i.g[0] = Iso::id();
    }
    for k in 0..N {
        let x = mul(unit([r.range(-0.7, 0.7), r.range(-0.7, 0.7), 1.0]), sc * r.range(3.0, 9.0));
        i.p[k] = [x[0], x[1], x[2], 1.0];
        for v in 0..3 {
            let d = unit(i.g[v].apply(x));
            i.b[k][v] = if noise > 0.0 { unit(add(d, mul(ball(r), noise))) } else { d };
        }
    }
    i.e = mm(&hat(sub(i.g[1].t, mv(&mm(&i.g[1].r, &tr(&i.g[0].r)), i.g[0].t))), &mm(&i.g[1].r, &tr(&i.g[0].r)));
    i
}
/// Everything degenerate that is finite, with unit bearings and proper rotations.
pub fn hostile(r: &mut Rng) -> In {
    if r.chance(0.1) {
        let n = r.pick(&[0.0, 0.0, 1e-12, 1e-3, 0.3]);
        return scene(r, n);
    }
    let mut i = blank();
    i.extreme = r.chance(0.1);
    params(r, &mut i);
    let sc = match r.below(8) {
        0 if i.extreme => r.log(1e-300, 1e300),
        0 => r.log(1e-30, 1e30),
        1 => r.log(1e-8, 1e8),
        _ => 1.0,
    };
    // poses
    let same_pose = r.chance(0.2);
    for k in 0..3 {
        let (mut g, _, _) = iso_any(r);
        if r.chance(0.3) {
            g.r = I3;
        }
        if r.chance(0.3) {
            g.t = [0.0; 3];
        }
        g.t = mul(g.t, sc);
        i.g[k] = if k > 0 && same_pose { i.g[0] } else { g };
    }
    // points
    let layout = r.below(9);
    let (o, d1, d2) = (mul(boxv(r, 3.0), sc), axis(r), axis(r));
    for k in 0..N {
        let mut x = match layout {
            0 => mul(boxv(r, 5.0), sc),
            1 => o,
            2 => add(o, mul(d1, sc * r.range(-5.0, 5.0))),
            3 => add(o, add(mul(d1, sc * r.range(-5.0, 5.0)), mul(d2, sc * r.range(-5.0, 5.0)))),
            // grid with repetitions
            4 => [r.below(3) as f64 * sc, r.below(3) as f64 * sc, (1 + r.below(2)) as f64 * sc],
            // on a circle, symmetrical
            5 => {
                let a = 2.0 * PI * k as f64 / N as f64;
                [sc * a.cos(), sc * a.sin(), sc]
            }
            // at a camera centre
            6 => i.g[r.below(3)].center(),
            // along the baselines
            7 => {
                let (a, b) = (i.g[0].center(), i.g[1].center());
                add(a, mul(sub(b, a), r.range(-2.0, 2.0)))
            }
            _ => mul(axis(r), sc * r.log(1e-6, 1e6)),
        };
        if k > 0 && r.chance(0.1) {
            x = [i.p[k - 1][0], i.p[k - 1][1], i.p[k - 1][2]];
        }
        // the origin has no direction, so the projective types cannot hold it
        if norm(x) == 0.0 {
            x = [0.0, 0.0, sc * 1e-3];
        }
        let w = match r.below(12) {
            0 => 0.0,
            1 => -0.0,
            2 => -r.log(1e-3, 1e3),
            3 if i.extreme => r.log(1e-300, 1e-100),
            4 if i.extreme => 5e-324,
            _ => 1.0,
        };
        i.p[k] = [x[0], x[1], x[2], w];
    }
    // bearings
    let how = r.below(8);
    let (u0, u1) = (axis(r), axis(r));
    let flipped = r.sign();
    for k in 0..N {
        let x = [i.p[k][0], i.p[k][1], i.p[k][2]];
        let own = axis(r);
        for v in 0..3 {
            let seen = i.g[v].apply(x);
            let seen = if norm(seen) > 0.0 && fin3(seen) { unit(seen) } else { own };
            i.b[k][v] = match how {
                0 => axis(r),
                1 => own,
                2 => mul(own, if v == 1 { -1.0 } else { 1.0 }),
                3 => u0,
                4 => mul(if r.chance(0.5) { u0 } else { u1 }, r.sign()),
                // along the translation
                5 => {
                    let t = i.g[1].t;
                    if norm(t) > 0.0 {
                        mul(unit(t), flipped)
                    } else {
                        own
                    }
                }
                6 => mul(seen, flipped),
                _ => seen,
            };
        }
    }
    i.label = [
        "layout:random", "layout:coincident", "layout:collinear", "layout:coplanar", "layout:grid", "layout:circle", "layout:at a camera centre",
        "layout:on the baseline", "layout:axes",
    ][layout];
    i
}
