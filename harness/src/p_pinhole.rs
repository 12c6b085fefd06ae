//! cv-pinhole: camera models, essential matrices, reprojection errors.
use crate::fw::*;
use crate::gen::*;
use crate::m::*;
use cv_core::nalgebra as na;
use cv_core::sample_consensus::Model;
use cv_core::{
    CameraModel, CameraPoint, CameraToCamera, FeatureMatch, ImagePoint, KeyPoint, Projective, TriangulatorRelative,
};
use cv_geom::triangulation::*;
use cv_pinhole::*;
use na::{Point2, UnitVector3, Vector2};
use std::cell::RefCell;

#[derive(Clone, Copy, Debug)]
pub struct Cam {
    pub fx: f64,
    pub fy: f64,
    pub s: f64,
    pub cx: f64,
    pub cy: f64,
}
impl Cam {
    pub fn intr(&self) -> CameraIntrinsics {
        CameraIntrinsics {
            focals: Vector2::new(self.fx, self.fy),
            principal_point: Point2::new(self.cx, self.cy),
            skew: self.s,
        }
    }
    fn to_norm(&self, p: [f64; 2]) -> [f64; 2] {
        let y = (p[1] - self.cy) / self.fy;
        [((p[0] - self.cx) - self.s * y) / self.fx, y]
    }
    pub fn to_pix(&self, n: [f64; 2]) -> [f64; 2] {
        [self.fx * n[0] + self.s * n[1] + self.cx, self.fy * n[1] + self.cy]
    }
    /// sums of magnitudes of the terms of a pixel: what rounding is relative to
    fn mag(&self, p: [f64; 2], n: [f64; 2]) -> [f64; 2] {
        let my = p[1].abs() + self.cy.abs() + self.fy * n[1].abs();
        [p[0].abs() + self.cx.abs() + self.fx * n[0].abs() + self.s.abs() * (n[1].abs() + my / self.fy), my]
    }
    /// same, for normalised coordinates
    fn nmag(&self, p: [f64; 2], n: [f64; 2]) -> f64 {
        let m = self.mag(p, n);
        1.0 + m[0] / self.fx + m[1] / self.fy
    }
}
pub fn cam_any(r: &mut Rng) -> Cam {
    let fx = match r.below(3) {
        0 => 1.0,
        1 => r.log(1e-3, 1e5),
        _ => r.range(200.0, 3000.0),
    };
    let fy = match r.below(3) {
        0 => fx,
        1 => fx * r.range(0.8, 1.25),
        _ => r.log(1e-3, 1e5),
    };
    let s = match r.below(3) {
        0 => 0.0,
        1 => r.sign() * fx * r.log(1e-6, 1e-1),
        _ => r.sign() * fx * r.range(0.1, 2.0),
    };
    let (cx, cy) = match r.below(3) {
        0 => (0.0, 0.0),
        1 => (r.range(100.0, 2000.0), r.range(100.0, 2000.0)),
        _ => (r.sign() * fx * r.log(1e-3, 10.0), r.sign() * fy * r.log(1e-3, 10.0)),
    };
    Cam { fx, fy, s, cx, cy }
}
#[derive(Clone, Copy)]
struct Pix([f64; 2]);
impl ImagePoint for Pix {
    fn image_point(&self) -> Point2<f64> {
        Point2::new(self.0[0], self.0[1])
    }
}
fn norm_any(r: &mut Rng) -> [f64; 2] {
    match r.below(5) {
        0 => [0.0, 0.0],
        1 => {
            let mut v = [0.0; 2];
            v[r.below(2)] = r.sign() * r.log(1e-6, 10.0);
            v
        }
        2 => [r.sign() * r.log(1e-8, 1e3), r.sign() * r.log(1e-8, 1e3)],
        _ => [r.range(-1.5, 1.5), r.range(-1.5, 1.5)],
    }
}
fn kp2(k: KeyPoint) -> [f64; 2] {
    [k.0.x, k.0.y]
}

// ----------------------------------------------------------------------------------------- C06
fn c06_pixel(c: &mut Case) {
    let k = cam_any(&mut c.rng);
    let i = k.intr();
    let n0 = norm_any(&mut c.rng);
    let p = k.to_pix(n0);
    c.note("camera", &k);
    c.note("pixel", &p);
    let n = k.to_norm(p);
    let want = unit([n[0], n[1], 1.0]);
    let nm_ = k.nmag(p, n);
    let len = norm([n[0], n[1], 1.0]);
    let Some(b) = c.call("CameraIntrinsics::calibrate", || i.calibrate(KeyPoint(Point2::new(p[0], p[1])))) else { return };
    let bo = ou(&b);
    c.within(norm(sub(bo, want)), 1e-12 * nm_ / len + 1e-12, "calibrate", || format!("{k:?} {p:?}: {bo:?} want {want:?}"));
    c.within((norm(bo) - 1.0).abs(), 1e-12, "calibrate-unit", || format!("{bo:?}"));
    c.check(bo[2] > 0.0, "calibrate-forward", || format!("{bo:?}"));
    let Some(b2) = c.call("CameraIntrinsics::calibrate(own type)", || i.calibrate(Pix(p))) else { return };
    c.check(ou(&b2) == bo, "calibrate-any-image-point", || format!("{b2:?} {bo:?}"));
    let Some(q) = c.call("CameraIntrinsics::uncalibrate", || i.uncalibrate(b)) else { return };
    match q {
        None => c.fail("round-trip-rejected", format!("{k:?}: pixel {p:?}, bearing {bo:?} has no pixel")),
        Some(q) => {
            let q = kp2(q);
            let m = k.mag(p, n);
            for j in 0..2 {
                c.within((q[j] - p[j]).abs(), 1e-11 * m[j], "pixel-round-trip", || format!("{k:?}: {p:?} -> {q:?}"));
            }
        }
    }
    c.nontrivial(hash_f64s(&[k.fx, k.fy, k.s, k.cx, k.cy, p[0], p[1]]));
}
fn fwd_bearing(r: &mut Rng) -> V3 {
    let z = match r.below(3) {
        0 => r.log(1e-6, 1e-2),
        1 => 1.0,
        _ => r.range(0.01, 1.0),
    };
    let a = r.range(0.0, 6.3);
    let rho = (1.0 - z * z).max(0.0).sqrt();
    unit([rho * a.cos(), rho * a.sin(), z])
}
fn c06_bearing(c: &mut Case) {
    let k = cam_any(&mut c.rng);
    let i = k.intr();
    let b = fwd_bearing(&mut c.rng);
    c.note("camera", &k);
    c.note("bearing", &b);
    let n = [b[0] / b[2], b[1] / b[2]];
    let want = k.to_pix(n);
    let m = k.mag(want, n);
    let Some(q) = c.call("CameraIntrinsics::uncalibrate", || i.uncalibrate(nu(b))) else { return };
    let Some(q) = q else {
        c.fail("forward-has-pixel", format!("{k:?} {b:?}"));
        return;
    };
    let q2 = kp2(q);
    for j in 0..2 {
        c.within((q2[j] - want[j]).abs(), 1e-11 * m[j], "uncalibrate", || format!("{k:?} {b:?}: {q2:?} want {want:?}"));
    }
    let Some(b2) = c.call("CameraIntrinsics::calibrate", || i.calibrate(q)) else { return };
    let nmag = k.nmag(want, n);
    let len = norm([n[0], n[1], 1.0]);
    c.within(norm(sub(ou(&b2), b)), 1e-11 * nmag / len + 1e-12, "bearing-round-trip", || format!("{k:?} {b:?} -> {b2:?}"));
    // the intrinsic matrix does the same
    let Some(mat) = c.call("CameraIntrinsics::matrix", || i.matrix()) else { return };
    let mo = om(&mat);
    let wm = [[k.fx, k.s, k.cx], [0.0, k.fy, k.cy], [0.0, 0.0, 1.0]];
    c.check(mo == wm, "intrinsic-matrix", || format!("{k:?}: {mo:?}"));
    // builders
    let id = CameraIntrinsics::identity();
    c.check(om(&id.matrix()) == I3, "identity", || format!("{id:?}"));
    let base = k.intr();
    let o = cam_any(&mut c.rng);
    let f = |i: &CameraIntrinsics| [i.focals.x, i.focals.y, i.skew, i.principal_point.x, i.principal_point.y];
    let g = f(&base.focals(Vector2::new(o.fx, o.fy)));
    c.check(g == [o.fx, o.fy, k.s, k.cx, k.cy], "builder-focals", || format!("{g:?}"));
    let g = f(&base.focal(o.fx));
    c.check(g == [o.fx, o.fx, k.s, k.cx, k.cy], "builder-focal", || format!("{g:?}"));
    let g = f(&base.skew(o.s));
    c.check(g == [k.fx, k.fy, o.s, k.cx, k.cy], "builder-skew", || format!("{g:?}"));
    let g = f(&base.principal_point(Point2::new(o.cx, o.cy)));
    c.check(g == [k.fx, k.fy, k.s, o.cx, o.cy], "builder-principal", || format!("{g:?}"));
    c.nontrivial(hash_f64s(&[k.fx, k.fy, k.s, b[0], b[1], b[2]]));
}
fn back_bearing(r: &mut Rng) -> V3 {
    match r.below(4) {
        0 => {
            let a = r.range(0.0, 6.3);
            [a.cos(), a.sin(), 0.0]
        }
        1 => {
            let a = r.range(0.0, 6.3);
            [a.cos(), a.sin(), -0.0]
        }
        2 => [0.0, 0.0, -1.0],
        _ => {
            let b = fwd_bearing(r);
            [b[0], b[1], -b[2]]
        }
    }
}
fn c06_behind(c: &mut Case) {
    let k = cam_any(&mut c.rng);
    let b = back_bearing(&mut c.rng);
    c.note("bearing", &b);
    c.bin(if b[2] < 0.0 { "behind" } else if b[2].is_sign_positive() { "in-plane(+0)" } else { "in-plane(-0)" });
    let Some(q) = c.call("CameraIntrinsics::uncalibrate", || k.intr().uncalibrate(nu(b))) else { return };
    c.check(q.is_none(), "not-forward-has-no-pixel", || format!("{k:?} {b:?} -> {q:?}"));
    c.nontrivial(hash_f64s(&[k.fx, b[0], b[1], b[2]]));
}
pub fn c06() -> Prop {
    Prop {
        id: "C06",
        rule: "a case is one camera (focals 1e-3..1e5 equal or not, skew 0..2f, any principal point) with one pixel, one forward bearing (z from 1e-6) or one bearing in/behind the image plane; non-trivial = distinct inputs",
        assumptions: &["focal lengths are positive", "unit bearings"],
        workloads: vec![
            wl("pixel", 400_000, 20_000_000, 0.5, c06_pixel),
            wl("bearing", 400_000, 20_000_000, 0.9, c06_bearing),
            wl("behind", 100_000, 2_000_000, 0.5, c06_behind),
        ],
    }
}

// ----------------------------------------------------------------------------------------- C07
fn k1_any(r: &mut Rng) -> (&'static str, f64) {
    match r.below(7) {
        0 => ("k1=0", 0.0),
        1 => ("k1:tiny", r.sign() * r.log(1e-18, 1e-8)),
        2 => ("k1:small", r.sign() * r.log(1e-8, 1e-2)),
        3 => ("k1:big", r.sign() * r.range(1.0, 20.0)),
        _ => ("k1:usual", r.sign() * r.range(0.01, 1.0)),
    }
}
fn c07_pixel(c: &mut Case) {
    let k = cam_any(&mut c.rng);
    let (lab, k1) = k1_any(&mut c.rng);
    c.bin(lab);
    let i = CameraIntrinsicsK1Distortion::new(k.intr(), k1);
    // a distorted normalised point inside the one-to-one radius
    let lim = if k1 == 0.0 { 1e3 } else { (1.0 / k1.abs().sqrt()).min(1e3) };
    let rad = match c.rng.below(5) {
        0 => 0.0,
        1 => lim * c.rng.log(1e-9, 1e-2),
        2 => lim * (1.0 - c.rng.log(1e-3, 1e-1)),
        _ => lim.min(5.0) * c.rng.range(0.0, 0.99),
    };
    let a = c.rng.range(0.0, 6.3);
    let n0 = [rad * a.cos(), rad * a.sin()];
    let p = k.to_pix(n0);
    let n = k.to_norm(p);
    let r2 = n[0] * n[0] + n[1] * n[1];
    c.bin(if rad == 0.0 { "principal-point" } else if rad > 0.9 * lim { "near-edge" } else { "inside" });
    let nm_ = k.nmag(p, n);
    // rounding of the pixel may carry a point on the edge over it
    if k1.abs() * (r2 + 1e-9 * nm_ * nm_) > 0.9985 {
        c.inconclusive("too-close-to-edge");
        return;
    }
    c.note("camera", &k);
    c.note("k1", &k1);
    c.note("pixel", &p);
    let den = 1.0 + k1 * r2;
    let u = [n[0] / den, n[1] / den];
    let want = unit([u[0], u[1], 1.0]);
    let Some(b) = c.call("K1::calibrate", || i.calibrate(KeyPoint(Point2::new(p[0], p[1])))) else { return };
    let bo = ou(&b);
    // relative rounding of u: r2 and den
    let amp = (1.0 + k1.abs() * r2) / den.abs();
    let len = norm([u[0], u[1], 1.0]);
    let un = (u[0] * u[0] + u[1] * u[1]).sqrt();
    let tol = 1e-11 * amp * (un + nm_ / den.abs().min(1.0) ) / len + 1e-12;
    c.within(norm(sub(bo, want)), tol, "calibrate", || format!("{k:?} k1 {k1} {p:?}: {bo:?} want {want:?}"));
    c.within((norm(bo) - 1.0).abs(), 1e-12, "calibrate-unit", || format!("{bo:?}"));
    c.check(bo[2] > 0.0, "calibrate-forward", || format!("{bo:?}"));
    if k1 == 0.0 {
        let s = ou(&k.intr().calibrate(KeyPoint(Point2::new(p[0], p[1]))));
        c.within(norm(sub(bo, s)), 1e-12 * nm_, "k1-zero-is-pinhole", || format!("{bo:?} {s:?}"));
    }
    let Some(q) = c.call("K1::uncalibrate", || i.uncalibrate(b)) else { return };
    match q {
        None => c.fail("round-trip-rejected", format!("{k:?} k1 {k1}: pixel {p:?}, bearing {bo:?} has no pixel")),
        Some(q) => {
            let q = kp2(q);
            let m = k.mag(p, n);
            let back = if k1 > 0.0 { 1.0 / (1.0 - k1 * r2) } else { 1.0 };
            for j in 0..2 {
                // an error in r is shared by both axes
                let f = if j == 0 { k.fx + k.s.abs() } else { k.fy };
                let t = 1e-11 * back * (m[j] + f * r2.sqrt());
                c.within((q[j] - p[j]).abs(), t, "pixel-round-trip", || format!("{k:?} k1 {k1}: {p:?} -> {q:?}"));
            }
        }
    }
    c.nontrivial(hash_f64s(&[k.fx, k.fy, k.s, k1, p[0], p[1]]));
}
fn c07_bearing(c: &mut Case) {
    let k = cam_any(&mut c.rng);
    let (lab, k1) = k1_any(&mut c.rng);
    c.bin(lab);
    let i = CameraIntrinsicsK1Distortion::new(k.intr(), k1);
    let b = if c.rng.chance(0.1) { [0.0, 0.0, 1.0] } else { fwd_bearing(&mut c.rng) };
    let n = [b[0] / b[2], b[1] / b[2]];
    let u2 = n[0] * n[0] + n[1] * n[1];
    let disc = 1.0 - 4.0 * k1 * u2;
    c.note("camera", &k);
    c.note("k1", &k1);
    c.note("bearing", &b);
    let Some(q) = c.call("K1::uncalibrate", || i.uncalibrate(nu(b))) else { return };
    if let Some(q) = q {
        c.check(kp2(q).iter().all(|x| !x.is_nan()), "never-nan", || format!("{k:?} k1 {k1} {b:?} -> {q:?}"));
    }
    if disc.abs() < 1e-6 {
        c.inconclusive("at-the-edge");
        return;
    }
    c.nontrivial(hash_f64s(&[k.fx, k.fy, k.s, k1, b[0], b[1], b[2]]));
    if disc < 0.0 {
        c.bin("unreachable");
        c.check(q.is_none(), "unreachable-has-no-pixel", || format!("{k:?} k1 {k1} {b:?} -> {q:?}"));
        return;
    }
    c.bin("reachable");
    let Some(q) = q else {
        c.fail("reachable-has-pixel", format!("{k:?} k1 {k1} {b:?}"));
        return;
    };
    let f = 2.0 / (1.0 + disc.sqrt());
    let d = [n[0] * f, n[1] * f];
    let want = k.to_pix(d);
    let m = k.mag(want, d);
    let q2 = kp2(q);
    for j in 0..2 {
        let t = 1e-11 * m[j] / disc.min(1.0);
        c.within((q2[j] - want[j]).abs(), t, "uncalibrate", || format!("{k:?} k1 {k1} {b:?}: {q2:?} want {want:?}"));
    }
}
fn c07_behind(c: &mut Case) {
    let k = cam_any(&mut c.rng);
    let (_, k1) = k1_any(&mut c.rng);
    let b = back_bearing(&mut c.rng);
    c.note("bearing", &b);
    let i = CameraIntrinsicsK1Distortion::new(k.intr(), k1);
    let Some(q) = c.call("K1::uncalibrate", || i.uncalibrate(nu(b))) else { return };
    c.check(q.is_none(), "not-forward-has-no-pixel", || format!("{k:?} k1 {k1} {b:?} -> {q:?}"));
    c.nontrivial(hash_f64s(&[k.fx, k1, b[0], b[1], b[2]]));
}
pub fn c07() -> Prop {
    Prop {
        id: "C07",
        rule: "a case is one camera x one k1 (0, 1e-18..20, either sign) x one pixel strictly inside the one-to-one radius (centre, inside, near the edge), one forward bearing (reachable or not), or one bearing in/behind the image plane; non-trivial = distinct inputs not within rounding of the edge of the domain",
        assumptions: &["focal lengths are positive", "unit bearings", "pixels within the radius where the distortion is one-to-one (r^2 |k1| < 0.9985)"],
        workloads: vec![
            wl("pixel", 400_000, 20_000_000, 0.3, c07_pixel),
            wl("bearing", 400_000, 20_000_000, 0.5, c07_bearing),
            wl("behind", 100_000, 2_000_000, 0.5, c07_behind),
        ],
    }
}

// ----------------------------------------------------------------------------------------- C08
fn c08_spec(c: &mut Case) {
    let r = &mut c.rng;
    let px = [1 + r.log(1.0, 1e5) as usize, 1 + r.log(1.0, 1e5) as usize];
    let sz = [r.log(1e-4, 1.0), r.log(1e-4, 1.0)];
    let f = r.log(1e-3, 1e5);
    c.note("pixels", &px);
    c.note("sensor", &sz);
    c.note("focal", &f);
    let pixels = Vector2::new(px[0], px[1]);
    let mut specs = vec![];
    if let Some(s) = c.call("CameraSpecification::from_sensor", || CameraSpecification::from_sensor(pixels, Vector2::new(sz[0], sz[1]))) {
        c.check(s.pixels == pixels, "pixels-kept", || format!("{s:?}"));
        for j in 0..2 {
            c.within((s.pixel_dimensions[j] * px[j] as f64 - sz[j]).abs(), 1e-12 * sz[j], "pixel-size", || format!("{s:?} sensor {sz:?}"));
        }
        specs.push(s);
    }
    if let Some(s) = c.call("CameraSpecification::from_sensor_square", || CameraSpecification::from_sensor_square(pixels, sz[0])) {
        c.check(s.pixels == pixels, "pixels-kept", || format!("{s:?}"));
        for j in 0..2 {
            c.within((s.pixel_dimensions[j] * px[0] as f64 - sz[0]).abs(), 1e-12 * sz[0], "pixel-size-square", || format!("{s:?} width {}", sz[0]));
        }
        specs.push(s);
    }
    for s in specs {
        let Some(i) = c.call("CameraSpecification::intrinsics_centered", || s.intrinsics_centered(f)) else { return };
        c.check(i.focals.x == f && i.focals.y == f, "focal", || format!("{i:?}"));
        c.check(i.skew == 0.0, "no-skew", || format!("{i:?}"));
        for j in 0..2 {
            let w = px[j] as f64 / 2.0 - 0.5;
            c.within((i.principal_point[j] - w).abs(), 1e-12 * (1.0 + w), "principal-point-centred", || format!("{s:?}: {i:?}"));
        }
        // observable consequence: the bearings of opposite corners are mirror images
        let far = KeyPoint(Point2::new(px[0] as f64 - 1.0, px[1] as f64 - 1.0));
        let (Some(a), Some(b)) = (
            c.call("calibrate", || i.calibrate(KeyPoint(Point2::new(0.0, 0.0)))),
            c.call("calibrate", || i.calibrate(far)),
        ) else {
            return;
        };
        let d = (a.x + b.x).abs() + (a.y + b.y).abs() + (a.z - b.z).abs();
        c.within(d, 1e-11, "corners-symmetric", || format!("{s:?}: {a:?} {b:?}"));
    }
    c.nontrivial(hash_f64s(&[px[0] as f64, px[1] as f64, sz[0], f]));
}
pub fn c08() -> Prop {
    Prop {
        id: "C08",
        rule: "a case is one pixel grid (1..1e5 per side), one sensor size and one focal length; non-trivial = distinct inputs",
        assumptions: &["focal length in pixels; pixel coordinates at pixel centres, as the half-pixel offset in the code implies"],
        workloads: vec![wl("spec", 200_000, 5_000_000, 0.9, c08_spec)],
    }
}

// ----------------------------------------------------------------------------------------- C09
fn c09_pose(c: &mut Case) {
    let (iso, l1, l2) = iso_any(&mut c.rng);
    c.bin(l1);
    c.bin(l2);
    c.note("pose", &iso);
    let Some(e) = c.call("EssentialMatrix::from(pose)", || EssentialMatrix::from(CameraToCamera(iso.na()))) else { return };
    let eo = om(&e.0);
    let want = mm(&hat(iso.t), &iso.r);
    let tn = norm(iso.t);
    c.within(fro(&msub(&eo, &want)), 1e-13 * tn, "essential-of-pose", || format!("{iso:?}: {eo:?} want {want:?}"));
    // a point in general position seen by both
    let s = if tn > 0.0 { tn } else { 1.0 };
    let d = unit3(&mut c.rng);
    let p = mul(d, s * c.rng.log(1e-1, 1e3));
    let q = iso.apply(p);
    if p[2].abs() < 1e-3 * norm(p) || q[2].abs() < 1e-3 * norm(q) || norm(q) < 1e-6 * norm(p) {
        c.inconclusive("in-an-image-plane");
        return;
    }
    c.bin(if p[2] > 0.0 && q[2] > 0.0 { "in front of both" } else { "behind one" });
    let (a, b) = (unit(p), unit(q));
    let Some(r) = c.call("EssentialMatrix::residual", || e.residual(&FeatureMatch(nu(a), nu(b)))) else { return };
    let mag = tn / (a[2].abs() * b[2].abs());
    c.within(r, 1e-12 * mag, "consistent-match-residual", || format!("{iso:?} point {p:?}: residual {r:e}"));
    // bearings of any sign name the same image point
    let Some(r2) = c.call("EssentialMatrix::residual", || e.residual(&FeatureMatch(nu(neg(a)), nu(b)))) else { return };
    c.within(r2, 1e-12 * mag, "sign-of-bearing-irrelevant", || format!("{iso:?} point {p:?}: residual {r2:e}"));
    c.nontrivial(hash_f64s(&flat(&iso)) ^ hash_f64s(&p));
}
fn c09_any(c: &mut Case) {
    let mut e = [[0.0; 3]; 3];
    let s = c.rng.log(1e-6, 1e6);
    for row in e.iter_mut() {
        for x in row.iter_mut() {
            *x = s * c.rng.normal();
        }
    }
    let a = unit3(&mut c.rng);
    let b = unit3(&mut c.rng);
    if a[2].abs() < 1e-3 || b[2].abs() < 1e-3 {
        return;
    }
    c.note("matrix", &e);
    c.note("a,b", &(a, b));
    let (an, bn) = (mul(a, 1.0 / a[2]), mul(b, 1.0 / b[2]));
    let want = dot(bn, mv(&e, an)).abs();
    let Some(r) = c.call("EssentialMatrix::residual", || EssentialMatrix(nm(&e)).residual(&FeatureMatch(nu(a), nu(b)))) else { return };
    c.within((r - want).abs(), 1e-12 * fro(&e) * norm(an) * norm(bn), "residual-is-epipolar-product", || {
        format!("{e:?} {a:?} {b:?}: {r:e} want {want:e}")
    });
    c.check(r >= 0.0, "residual-not-negative", || format!("{r}"));
    c.nontrivial(hash_f64s(&[e[0][0], a[0], b[0]]));
}
pub fn c09() -> Prop {
    Prop {
        id: "C09",
        rule: "a case is one relative pose (all rotation and translation classes) with one 3-d point seen by both cameras from front or back, or one arbitrary 3x3 matrix with two bearings; non-trivial = distinct, with |z| at least 1e-3 of the length in both cameras",
        assumptions: &["bearings have non-zero z (the documented model divides by it)"],
        workloads: vec![wl("pose", 400_000, 20_000_000, 0.5, c09_pose), wl("any-matrix", 300_000, 10_000_000, 0.9, c09_any)],
    }
}

// ----------------------------------------------------------------------------------------- C10
fn c10_decompose(c: &mut Case) {
    let (rl, r, _, _) = rot_any(&mut c.rng);
    let dir = axis(&mut c.rng);
    let s = c.rng.sign() * if c.rng.chance(0.5) { 1.0 } else { c.rng.log(1e-6, 1e6) };
    c.bin(rl);
    let t = mul(dir, s.abs());
    let iso = Iso { r, t };
    c.note("pose", &iso);
    c.note("sign", &s.signum());
    let eps = c.rng.pick(&[1e-12, 1e-12, 1e-10, 1e-9]);
    let iters = c.rng.pick(&[1000usize, 200, 100]);
    // through the code's own conversion for s > 0, and as a matrix of either sign otherwise
    let e = if s > 0.0 { EssentialMatrix::from(CameraToCamera(iso.na())) } else { EssentialMatrix(nm(&mscale(&mm(&hat(t), &r), -1.0))) };
    let tol = 1e-4f64;
    let Some(x) = c.call("possible_rotations_unscaled_translation", || e.possible_rotations_unscaled_translation(eps, iters)) else { return };
    let Some((ra, rb, tt)) = x else {
        c.fail("decomposition-exists", format!("{iso:?} eps {eps} iters {iters}"));
        return;
    };
    let (ra, rb, tt) = (orot(&ra), orot(&rb), ov(&tt));
    for m in [&ra, &rb] {
        c.within(rot_defect(m), 1e-10, "rotation-proper", || format!("{iso:?}: {m:?}"));
    }
    c.within((norm(tt) - 1.0).abs(), 1e-10, "translation-unit", || format!("{iso:?}: {tt:?}"));
    let best = rot_dist(&ra, &r).min(rot_dist(&rb, &r));
    c.within(best, tol, "true-rotation-present", || format!("{iso:?}: {ra:?} {rb:?}"));
    let td = norm(sub(tt, dir)).min(norm(add(tt, dir)));
    c.within(td, tol, "translation-direction", || format!("{iso:?}: {tt:?} want +-{dir:?}"));
    // the two hypotheses differ by a half turn about the translation
    let other = mm(&rot_aa(dir, std::f64::consts::PI), &r);
    let w = rot_dist(&ra, &other).min(rot_dist(&rb, &other));
    c.within(w, 10.0 * tol, "twisted-pair", || format!("{iso:?}: {ra:?} {rb:?}"));
    // all four poses explain the matrix, and exactly the true one is there
    let Some(Some(ps)) = c.call("possible_unscaled_poses", || e.possible_unscaled_poses(eps, iters)) else {
        c.fail("poses-exist", format!("{iso:?}"));
        return;
    };
    let en = mscale(&om(&e.0), 1.0 / (fro(&om(&e.0)) / 2f64.sqrt()));
    let mut hit = 0;
    let mut seen: Vec<Iso> = vec![];
    for p in ps.iter() {
        let p = Iso::of(&p.0);
        let pe = mm(&hat(p.t), &p.r);
        let d = fro(&msub(&pe, &en)).min(fro(&msub(&pe, &mscale(&en, -1.0))));
        c.within(d, 10.0 * tol, "pose-explains-matrix", || format!("{iso:?}: {p:?}"));
        if rot_dist(&p.r, &r) < 1e-3 && norm(sub(p.t, dir)) < 1e-3 {
            hit += 1;
            c.within(rot_dist(&p.r, &r) + norm(sub(p.t, dir)), 2.0 * tol, "true-pose-present", || format!("{iso:?}: {p:?}"));
        }
        let distinct = seen.iter().all(|q| rot_dist(&q.r, &p.r) + norm(sub(q.t, p.t)) > 1e-3);
        c.check(distinct, "four-different-poses", || format!("{iso:?}: {ps:?}"));
        seen.push(p);
    }
    c.check(hit == 1, "true-pose-exactly-once", || format!("{iso:?}: {hit} of {ps:?}"));
    let Some(Some(rs)) = c.call("possible_rotations", || e.possible_rotations(eps, iters)) else {
        c.fail("rotations-exist", format!("{iso:?}"));
        return;
    };
    let Some(Some(bs)) = c.call("possible_unscaled_poses_bearing", || e.possible_unscaled_poses_bearing(eps, iters)) else {
        c.fail("bearing-poses-exist", format!("{iso:?}"));
        return;
    };
    let same = |l: Vec<M3>| {
        (rot_dist(&l[0], &ra).max(rot_dist(&l[1], &rb))).min(rot_dist(&l[0], &rb).max(rot_dist(&l[1], &ra)))
    };
    let d = same(rs.iter().map(orot).collect());
    c.within(d, tol, "possible_rotations-agrees", || format!("{iso:?}: {rs:?}"));
    let d = same(bs.iter().map(|b| Iso::of(&b.0).r).collect());
    c.within(d, tol, "bearing-poses-agree", || format!("{iso:?}: {bs:?}"));
    for b in bs.iter() {
        let bt = Iso::of(&b.0).t;
        let d = norm(sub(bt, dir)).min(norm(add(bt, dir)));
        c.within(d, tol, "bearing-poses-translation", || format!("{iso:?}: {b:?}"));
    }
    // the bearing variant gives one direction for both rotations
    let (ba, bb) = (Iso::of(&bs[0].0).t, Iso::of(&bs[1].0).t);
    c.within(norm(sub(ba, bb)), tol, "bearing-poses-share-the-translation", || format!("{iso:?}: {bs:?}"));
    c.nontrivial(hash_f64s(&flat(&iso)));
}
fn c10_recondition(c: &mut Case) {
    let kind = c.rng.below(6);
    let e = match kind {
        // chosen singular values: rank two or very nearly, the leading two apart or (nearly) equal
        4 | 5 => {
            let (_, u, _, _) = rot_any(&mut c.rng);
            let (_, v, _, _) = rot_any(&mut c.rng);
            let s = c.rng.log(1e-5, 1e5);
            let second = match c.rng.below(3) {
                0 => 1.0,
                1 => 1.0 - c.rng.log(1e-12, 1e-1),
                _ => c.rng.range(0.05, 1.0),
            };
            let third = if c.rng.chance(0.5) { 0.0 } else { second * c.rng.log(1e-16, 0.9) };
            let d = [s, s * second, s * third];
            let mut e = [[0.0; 3]; 3];
            for i in 0..3 {
                for j in 0..3 {
                    e[i][j] = (0..3).map(|k| u[i][k] * d[k] * v[j][k]).sum();
                }
            }
            e
        }
        0 | 1 => {
            let s = c.rng.log(1e-5, 1e5);
            let mut e = [[0.0; 3]; 3];
            for row in e.iter_mut() {
                for x in row.iter_mut() {
                    *x = s * c.rng.normal();
                }
            }
            e
        }
        _ => {
            let (_, r, _, _) = rot_any(&mut c.rng);
            let t = mul(axis(&mut c.rng), c.rng.log(1e-4, 1e4));
            let mut e = mm(&hat(t), &r);
            if kind == 3 {
                let n = norm(t) * c.rng.log(1e-8, 1e-2);
                for row in e.iter_mut() {
                    for x in row.iter_mut() {
                        *x += n * c.rng.normal();
                    }
                }
            }
            e
        }
    };
    c.bin(match kind {
        0 | 1 => "random-matrix",
        2 => "exact-essential",
        3 => "noisy-essential",
        _ => "chosen-singular-values",
    });
    c.note("matrix", &e);
    let (u, s, v) = svd3(&e);
    if s[1] - s[2] < 1e-3 * s[0] {
        c.inconclusive("singular-values-too-close");
        return;
    }
    let Some(got) = c.call("EssentialMatrix::recondition", || EssentialMatrix(nm(&e)).recondition(1e-12, 1000)) else { return };
    let Some(got) = got else {
        c.fail("recondition-exists", format!("{e:?}"));
        return;
    };
    let g = om(&got.0);
    let m = 0.5 * (s[0] + s[1]);
    let mut want = [[0.0; 3]; 3];
    for k in 0..2 {
        for i in 0..3 {
            for j in 0..3 {
                want[i][j] += m * u[k][i] * v[k][j];
            }
        }
    }
    let cond = s[0] / (s[1] - s[2]);
    // nalgebra's SVD loses digits, rarely, when whole columns nearly vanish
    let hard = 1e-3;
    c.soft(fro(&msub(&g, &want)), 1e-6 * s[0] * cond, "closest-essential-matrix", || format!("{e:?}: {g:?} want {want:?}"));
    c.within(fro(&msub(&g, &want)), hard * s[0] * cond, "closest-essential-matrix", || format!("{e:?}: {g:?} want {want:?}"));
    let sg = sv3(&g);
    c.soft((sg[0] - m).abs() + (sg[1] - m).abs() + sg[2], 1e-6 * m * cond, "singular-values", || format!("{e:?}: {sg:?} want {m}"));
    c.within((sg[0] - m).abs() + (sg[1] - m).abs() + sg[2], hard * m * cond, "singular-values", || format!("{e:?}: {sg:?} want {m}"));
    if kind == 2 {
        c.soft(fro(&msub(&g, &e)), 1e-6 * s[0], "essential-unchanged", || format!("{e:?} -> {g:?}"));
        c.within(fro(&msub(&g, &e)), hard * s[0], "essential-unchanged", || format!("{e:?} -> {g:?}"));
    }
    c.nontrivial(hash_f64s(&e[0]));
}
pub fn c10() -> Prop {
    Prop {
        id: "C10",
        rule: "a case is the essential matrix of one pose (all rotation classes incl. identity and half turns; translation direction on or off the axes; scale 1e-6..1e6; either sign) decomposed by all four entry points, or one arbitrary, noisy, rank-two, nearly rank-two or exact matrix reconditioned; non-trivial = distinct, with second and third singular value separated by 1e-3 relative for reconditioning",
        assumptions: &["iteration limits of at least 100 and SVD epsilon of at most 1e-9, as the documentation recommends"],
        workloads: vec![wl("decompose", 60_000, 4_000_000, 0.8, c10_decompose), wl("recondition", 60_000, 4_000_000, 0.7, c10_recondition)],
    }
}

// ----------------------------------------------------------------------------------------- C15
/// A triangulator that answers what it is told, and records what it was asked.
struct Scripted<'a> {
    answer: Option<CameraPoint>,
    asked: &'a RefCell<Vec<(CameraToCamera, UnitVector3<f64>, UnitVector3<f64>)>>,
}
impl TriangulatorRelative for Scripted<'_> {
    fn triangulate_relative(&self, p: CameraToCamera, a: UnitVector3<f64>, b: UnitVector3<f64>) -> Option<CameraPoint> {
        self.asked.borrow_mut().push((p, a, b));
        self.answer
    }
}
fn bear_z(r: &mut Rng) -> V3 {
    loop {
        let mut b = unit3(r);
        if b[2].abs() > 1e-2 {
            if r.chance(0.8) {
                b[2] = b[2].abs();
            }
            return b;
        }
    }
}
fn c15_scripted(c: &mut Case) {
    let (iso, _, _) = iso_any(&mut c.rng);
    let (a, b) = (bear_z(&mut c.rng), bear_z(&mut c.rng));
    let w = if c.rng.chance(0.15) { 0.0 } else { c.rng.log(1e-4, 1e4) / norm(iso.t).max(1.0) };
    let mut d = unit3(&mut c.rng);
    if c.rng.chance(0.7) {
        d[2] = d[2].abs();
    }
    let none = c.rng.chance(0.1);
    let ans = (!none).then(|| CameraPoint::from_homogeneous(nv4([d[0], d[1], d[2], w])));
    c.note("pose", &iso);
    c.note("a,b", &(a, b));
    c.note("answer", &ans);
    let asked = RefCell::new(vec![]);
    let pose = CameraToCamera(iso.na());
    let fm = FeatureMatch(nu(a), nu(b));
    let got = c.call("pose_reprojection_error", || pose_reprojection_error(pose, fm, Scripted { answer: ans, asked: &asked }));
    let avg = c.call("average_pose_reprojection_error", || {
        average_pose_reprojection_error(pose, fm, Scripted { answer: ans, asked: &asked })
    });
    let (Some(got), Some(avg)) = (got, avg) else { return };
    let q = asked.borrow();
    c.check(!q.is_empty() && q.iter().all(|x| x.0 == pose && x.1 == nu(a) && x.2 == nu(b)), "asks-the-triangulator", || format!("{q:?}"));
    drop(q);
    let db = add(mv(&iso.r, d), mul(iso.t, w));
    if d[2].abs() < 1e-9 || db[2].abs() < 1e-9 * (1.0 + norm(iso.t) * w) {
        c.inconclusive("in-an-image-plane");
        return;
    }
    c.nontrivial(hash_f64s(&[a[0], b[0], d[0], d[1], w]));
    let front = d[2] > 0.0 && db[2] > 0.0;
    if none || !front {
        c.bin(if none { "triangulation-fails" } else { "behind-a-camera" });
        c.check(got.is_none() && avg.is_none(), "absent-when-behind-or-failed", || format!("{iso:?} {d:?} w {w}: {got:?} {avg:?}"));
        return;
    }
    c.bin("in-front");
    let (Some(got), Some(avg)) = (got, avg) else {
        c.fail("present-when-in-front", format!("{iso:?} {d:?} w {w}: {got:?} {avg:?}"));
        return;
    };
    let mut lens = [0.0; 2];
    for (k, (o, p)) in [(a, d), (b, db)].iter().enumerate() {
        let want = [o[0] / o[2] - p[0] / p[2], o[1] / o[2] - p[1] / p[2]];
        let g = [got[k].x, got[k].y];
        let mag = norm(*o) / o[2].abs() + (1.0 + if k == 1 { norm(iso.t) * w } else { 0.0 }) * norm(*p).max(1.0) / (p[2] * p[2]);
        let mag = mag * (1.0 + 1.0 / p[2].abs());
        let e = (g[0] - want[0]).abs() + (g[1] - want[1]).abs();
        c.within(e, 1e-12 * mag, if k == 0 { "error-in-a" } else { "error-in-b" }, || format!("{iso:?} {d:?} w {w} a {a:?} b {b:?}: {g:?} want {want:?}"));
        lens[k] = (g[0] * g[0] + g[1] * g[1]).sqrt();
    }
    let want = 0.5 * (lens[0] + lens[1]);
    c.within((avg - want).abs(), 1e-12 * want, "average", || format!("{got:?}: {avg} want {want}"));
}
fn c15_real(c: &mut Case) {
    let r = rot_upto(&mut c.rng, 1.0);
    let t = mul(unit3(&mut c.rng), c.rng.log(1e-2, 10.0));
    let iso = Iso { r, t };
    let tn = norm(t);
    let z = tn * c.rng.range(1.0, 20.0);
    let p = [z * c.rng.range(-0.8, 0.8), z * c.rng.range(-0.8, 0.8), z];
    let q = iso.apply(p);
    if q[2] < 0.2 * norm(q) || angle(mv(&iso.r, p), q) < 0.01 {
        return;
    }
    c.note("pose", &iso);
    c.note("point", &p);
    let pose = CameraToCamera(iso.na());
    let fm = FeatureMatch(nu(unit(p)), nu(unit(q)));
    macro_rules! go {
        ($n:expr, $t:expr) => {
            if let Some(got) = c.call($n, || average_pose_reprojection_error(pose, fm, $t)) {
                match got {
                    None => c.fail("exact-match-has-error", format!("{}: {iso:?} {p:?}", $n)),
                    Some(e) => {
                        c.within(e, 1e-6, "exact-match-zero-error", || format!("{}: {iso:?} {p:?}: {e:e}", $n));
                    }
                }
            }
        };
    }
    go!("LinearEigen", LinearEigenTriangulator::new());
    go!("RelativeDlt", RelativeDltTriangulator::new());
    go!("AngularL1", AngularL1Triangulator);
    go!("AngularLInfinity", AngularLInfinityTriangulator);
    c.nontrivial(hash_f64s(&p));
}
pub fn c15() -> Prop {
    Prop {
        id: "C15",
        rule: "a case is one relative pose, one match and one scripted triangulator answer (a point in front of both, behind one, at infinity, or nothing), or one exact match with the four direct triangulators; non-trivial = distinct, points off the image planes",
        assumptions: &["bearings have non-zero z"],
        workloads: vec![wl("scripted", 400_000, 20_000_000, 0.6, c15_scripted), wl("real", 50_000, 2_000_000, 0.2, c15_real)],
    }
}
