//! cv-core: points, poses, so(3)/se(3).
use crate::fw::*;
use crate::gen::*;
use crate::m::*;
use cv_core::nalgebra as na;
use cv_core::{
    CameraPoint, CameraToCamera, CameraToWorld, Pose, Projective, Se3TangentSpace, Skew3, WorldPoint, WorldToCamera,
    WorldToWorld,
};
use na::{Matrix4, Matrix4x6, Point3, Rotation3, Vector6};
use std::f64::consts::PI;

// ------------------------------------------------------------------------------------ C01 points
fn proj_check<P: Projective>(c: &mut Case, v: [f64; 4], names: [&'static str; 3]) {
    let [n_from, n_point, n_bearing] = names;
    let n = norm([v[0], v[1], v[2]]);
    let s = if v[3] < 0.0 { -1.0 } else { 1.0 } / n;
    let want = [v[0] * s, v[1] * s, v[2] * s, v[3] * s];
    let Some(p) = c.call(n_from, || P::from_homogeneous(nv4(v))) else { return };
    let got = ov4(&p.homogeneous());
    let d = norm(sub([got[0], got[1], got[2]], [want[0], want[1], want[2]]));
    c.within(d, 1e-12, "canonical-bearing", || format!("{n_from}({v:?}) = {got:?}, want {want:?}"));
    c.within((got[3] - want[3]).abs(), 1e-12 * want[3].abs(), "canonical-w", || {
        format!("{n_from}({v:?}) = {got:?}, want {want:?}")
    });
    c.check(got[3] >= 0.0 && got[3].is_sign_positive(), "w-not-negative", || format!("{v:?} -> {got:?}"));
    let Some(b) = c.call(n_bearing, || p.bearing()) else { return };
    let b = ou(&b);
    c.within(norm(sub(b, [want[0], want[1], want[2]])), 1e-12, "bearing", || format!("{v:?} -> {b:?}"));
    c.within((norm(b) - 1.0).abs(), 1e-12, "bearing-unit", || format!("{v:?} -> {b:?}"));
    let Some(e) = c.call(n_point, || p.point()) else { return };
    if v[3] == 0.0 {
        c.bin("at-infinity");
        c.check(e.is_none(), "infinity-has-no-euclidean-point", || format!("{v:?} -> {e:?}"));
    } else {
        let w = [v[0] / v[3], v[1] / v[3], v[2] / v[3]];
        if fin3(w) && norm(w) < 1e300 {
            match e {
                None => {
                    c.fail("finite-has-point", format!("{n_point}: {v:?} gave None"));
                }
                Some(e) => {
                    let e = ov(&e.coords);
                    c.within(norm(sub(e, w)), 1e-12 * norm(w), "euclidean-point", || format!("{v:?} -> {e:?} want {w:?}"));
                }
            }
        } else {
            c.bin("overflowing");
            c.check(e.map_or(true, |e| fin3(ov(&e.coords))), "point-never-infinite", || format!("{v:?} -> {e:?}"));
        }
    }
    // idempotence
    let Some(q) = c.call(n_from, || P::from_homogeneous(p.homogeneous())) else { return };
    let q = ov4(&q.homogeneous());
    let dd = (0..4).map(|i| (q[i] - got[i]).abs() / if i == 3 { got[3].abs().max(1e-300) } else { 1.0 }).fold(0.0, f64::max);
    c.within(dd, 1e-12, "idempotent", || format!("{got:?} -> {q:?}"));
}
const N_W: [&str; 3] = ["WorldPoint::from_homogeneous", "WorldPoint::point", "WorldPoint::bearing"];
const N_C: [&str; 3] = ["CameraPoint::from_homogeneous", "CameraPoint::point", "CameraPoint::bearing"];

fn homog(c: &mut Case) -> [f64; 4] {
    let dir = axis(&mut c.rng);
    let m = match c.rng.below(4) {
        0 => 1.0,
        1 => c.rng.log(1e-60, 1e60),
        _ => c.rng.log(1e-6, 1e6),
    };
    let w = match c.rng.below(7) {
        0 => 0.0,
        1 => 1.0,
        2 => c.rng.log(1e-60, 1e-6),
        3 => c.rng.log(1e6, 1e60),
        4 => -c.rng.log(1e-60, 1e60),
        5 => c.rng.sign() * c.rng.log(1e-320, 1e-290),
        _ => c.rng.sign() * c.rng.log(1e-6, 1e6),
    };
    [dir[0] * m, dir[1] * m, dir[2] * m, w]
}
fn c01_scale(c: &mut Case) {
    let v = homog(c);
    let mut s = c.rng.log(1e-30, 1e30);
    if c.rng.chance(0.5) {
        s = -s;
    }
    // a negative multiple of a point at infinity has w = -0.0 and is the same point
    if v[3] != 0.0 && v[3].abs() < 1e-250 {
        s = 1.0;
    }
    c.note("v", &v);
    c.note("factor", &s);
    c.bin(if v[3] < 0.0 { "w<0" } else if v[3] == 0.0 { "w=0" } else { "w>0" });
    c.bin(if s < 0.0 { "factor<0" } else { "factor>0" });
    proj_check::<WorldPoint>(c, v, N_W);
    proj_check::<CameraPoint>(c, v, N_C);
    // scale invariance, observed as: the scaled vector is the same point
    let sv = [v[0] * s, v[1] * s, v[2] * s, v[3] * s];
    let a = c.call(N_W[0], || WorldPoint::from_homogeneous(nv4(v)));
    let b = c.call(N_W[0], || WorldPoint::from_homogeneous(nv4(sv)));
    let a2 = c.call(N_C[0], || CameraPoint::from_homogeneous(nv4(v)));
    let b2 = c.call(N_C[0], || CameraPoint::from_homogeneous(nv4(sv)));
    if let (Some(a), Some(b), Some(a2), Some(b2)) = (a, b, a2, b2) {
        for (x, y) in [(ov4(&a.0), ov4(&b.0)), (ov4(&a2.homogeneous()), ov4(&b2.homogeneous()))] {
            let d = (0..3).map(|i| (x[i] - y[i]).abs()).fold(0.0, f64::max);
            let dw = (x[3] - y[3]).abs() / x[3].abs().max(1e-300);
            let dw = if v[3].abs() < 1e-250 { 0.0 } else { dw };
            c.within(d.max(dw), 1e-12, "scale-invariant", || format!("{v:?} and {s:e} times it: {x:?} vs {y:?}"));
        }
    }
    c.nontrivial(hash_f64s(&v));
}
fn c01_euclid(c: &mut Case) {
    let p = match c.rng.below(4) {
        0 => mul(axis(&mut c.rng), c.rng.log(1e-100, 1e100)),
        1 => [c.rng.log(1e-8, 1e8), -c.rng.log(1e-8, 1e8), c.rng.sign() * c.rng.log(1e-8, 1e8)],
        _ => mul(unit3(&mut c.rng), c.rng.log(1e-6, 1e6)),
    };
    c.note("p", &p);
    fn go<P: Projective>(c: &mut Case, p: V3, nf: &'static str, np: &'static str) {
        let Some(q) = c.call(nf, || P::from_point(Point3::from(nv(p)))) else { return };
        let Some(e) = c.call(np, || q.point()) else { return };
        match e {
            None => c.fail("from_point-then-point", format!("{nf}({p:?}).point() is None")),
            Some(e) => {
                let e = ov(&e.coords);
                c.within(norm(sub(e, p)), 1e-12 * norm(p), "from_point-then-point-value", || format!("{p:?} -> {e:?}"));
            }
        }
        let b = ou(&q.bearing());
        c.within(norm(sub(b, unit(p))), 1e-12, "from_point-bearing", || format!("{p:?} -> {b:?}"));
        let h = ov4(&q.homogeneous());
        // the distance of the point is encoded as the reciprocal of w
        c.within((h[3] * norm(p) - 1.0).abs(), 1e-12, "w-is-inverse-distance", || format!("{p:?} -> {h:?}"));
    }
    go::<WorldPoint>(c, p, "WorldPoint::from_point", N_W[1]);
    go::<CameraPoint>(c, p, "CameraPoint::from_point", N_C[1]);
    c.nontrivial(hash_f64s(&p));
}
pub fn c01() -> Prop {
    Prop {
        id: "C01",
        rule: "a case is one homogeneous 4-vector (bearing on/off axes, magnitude 1e-60..1e60, w zero, tiny, subnormal, huge, either sign) with one scale factor of either sign, or one euclidean point; non-trivial = distinct input bits",
        assumptions: &["xyz part non-zero, finite, norm within 1e-100..1e100 (squares representable)"],
        workloads: vec![wl("homogeneous", 400_000, 40_000_000, 0.9, c01_scale), wl("euclidean", 200_000, 20_000_000, 0.9, c01_euclid)],
    }
}

// ------------------------------------------------------------------------------------- C02 poses
fn pose_input(c: &mut Case) -> ([f64; 4], &'static str) {
    let d = axis(&mut c.rng);
    let (l, w) = match c.rng.below(5) {
        0 => ("pt:infinity", 0.0),
        1 => ("pt:far", c.rng.log(1e-12, 1e-4)),
        2 => ("pt:near", c.rng.log(1e2, 1e8)),
        _ => ("pt:moderate", c.rng.log(1e-3, 1e2)),
    };
    ([d[0], d[1], d[2], w], l)
}
/// Expected homogeneous output with its own rounding bound on the direction.
fn pose_expect(i: &Iso, x: [f64; 4]) -> ([f64; 4], f64) {
    let a = mv(&i.r, [x[0], x[1], x[2]]);
    let b = mul(i.t, x[3]);
    let o = add(a, b);
    let n = norm(o);
    let amp = (1.0 + norm(b)) / n;
    ([o[0] / n, o[1] / n, o[2] / n, x[3] / n], 1e-12 * amp)
}
fn cmp_h(c: &mut Case, got: [f64; 4], want: [f64; 4], tol: f64, sig: &'static str, what: &str) {
    let d = norm(sub([got[0], got[1], got[2]], [want[0], want[1], want[2]]));
    let dw = if want[3] == 0.0 { if got[3] == 0.0 { 0.0 } else { f64::INFINITY } } else { (got[3] / want[3] - 1.0).abs() };
    c.within(d.max(dw), tol, sig, || format!("{what}: got {got:?} want {want:?}"));
}
macro_rules! pose_type {
    ($fname:ident, $P:ty, $name:literal) => {
        fn $fname(c: &mut Case, iso: &Iso, x: [f64; 4], s: f64) {
            type In = <$P as Pose>::InputPoint;
            let pose: $P = iso.na().into();
            let xin = In::from_homogeneous(nv4(x));
            let (want, tol) = pose_expect(iso, x);
            if !(tol < 1e-6) {
                c.inconclusive("point at the camera centre");
                return;
            }
            let Some(y) = c.call(concat!($name, "::transform"), || pose.transform(xin)) else { return };
            cmp_h(c, ov4(&y.homogeneous()), want, tol, "transform", concat!($name, "::transform"));
            // finite points in euclidean form
            if x[3] > 0.0 {
                let p = mul([x[0], x[1], x[2]], 1.0 / x[3]);
                let q = iso.apply(p);
                match y.point() {
                    Some(e) => {
                        let e = ov(&e.coords);
                        let m = norm(p) + norm(iso.t);
                        c.within(norm(sub(e, q)), 1e-12 * m * (1.0 + m / norm(q)), "transform-euclidean", || {
                            format!(concat!($name, ": {:?} -> {:?} want {:?}"), p, e, q)
                        });
                    }
                    None => c.fail("transform-loses-point", format!("{} {:?} {:?}", $name, iso, x)),
                }
            }
            // inverse
            let Some(inv) = c.call(concat!($name, "::inverse"), || pose.inverse()) else { return };
            let ii = Iso::of(&inv.isometry());
            let wi = iso.inv();
            c.within(fro(&msub(&ii.r, &wi.r)), 1e-12, "inverse-rotation", || format!("{} {:?}", $name, ii));
            c.within(norm(sub(ii.t, wi.t)), 1e-12 * norm(iso.t), "inverse-translation", || format!("{} {:?} want {:?}", $name, ii, wi));
            let yin = ov4(&y.homogeneous());
            let Some(back) = c.call(concat!($name, "::inverse.transform"), || {
                inv.transform(<<$P as Pose>::Inverse as Pose>::InputPoint::from_homogeneous(nv4(yin)))
            }) else {
                return;
            };
            let amp = 1.0 + norm(iso.t) * x[3];
            cmp_h(c, ov4(&back.homogeneous()), x, tol * amp * 4.0, "inverse-undoes", concat!($name, "::inverse"));
            let rt = inv.inverse();
            let ri = Iso::of(&rt.isometry());
            c.within(
                fro(&msub(&ri.r, &iso.r)) + norm(sub(ri.t, iso.t)) / (1e-300 + norm(iso.t)),
                1e-12,
                "inverse-involution",
                || format!("{} {:?} -> {:?}", $name, iso, ri),
            );
            // matrix
            let Some(h) = c.call(concat!($name, "::homogeneous"), || pose.homogeneous()) else { return };
            let h = om4(&h);
            let mut bad = 0.0f64;
            for i in 0..3 {
                for j in 0..3 {
                    bad = bad.max((h[i][j] - iso.r[i][j]).abs());
                }
                bad = bad.max((h[i][3] - iso.t[i]).abs() / (1.0 + norm(iso.t)));
                bad = bad.max(h[3][i].abs());
            }
            bad = bad.max((h[3][3] - 1.0).abs());
            c.within(bad, 1e-12, "homogeneous-matrix", || format!("{} {:?}", $name, h));
            // parts and scale
            let Some(p2) = c.call(concat!($name, "::from_parts"), || <$P>::from_parts(nv(iso.t), nrot(&iso.r))) else { return };
            let i2 = Iso::of(&p2.isometry());
            c.within(fro(&msub(&i2.r, &iso.r)) + norm(sub(i2.t, iso.t)) / (1e-300 + norm(iso.t)), 1e-12, "from_parts", || format!("{} {:?}", $name, i2));
            let Some(p3) = c.call(concat!($name, "::scale"), || pose.scale(s)) else { return };
            let i3 = Iso::of(&p3.isometry());
            c.within(
                fro(&msub(&i3.r, &iso.r)) + norm(sub(i3.t, mul(iso.t, s))) / (norm(iso.t) * s.abs() + 1e-300),
                1e-12,
                "scale-only-translation",
                || format!("{} scale {s:e}: {:?} -> {:?}", $name, iso, i3),
            );
            // scaling pose and point together keeps bearings
            if s > 0.0 && x[3] > 0.0 {
                let xs = In::from_homogeneous(nv4([x[0], x[1], x[2], x[3] / s]));
                if let Some(ys) = c.call(concat!($name, "::transform"), || p3.transform(xs)) {
                    let w2 = [want[0], want[1], want[2], want[3] / s];
                    cmp_h(c, ov4(&ys.homogeneous()), w2, 4.0 * tol, "scale-equivariant", concat!($name, "::scale"));
                }
            }
            let Some(idp) = c.call(concat!($name, "::identity"), <$P>::identity) else { return };
            let y0 = ov4(&idp.transform(xin).homogeneous());
            cmp_h(c, y0, x, 1e-12, "identity", concat!($name, "::identity"));
            let i0 = Iso::of(&idp.isometry());
            c.within(fro(&msub(&i0.r, &I3)) + norm(i0.t), 1e-14, "identity-isometry", || format!("{}", $name));
        }
    };
}
pose_type!(pt_w2c, WorldToCamera, "WorldToCamera");
pose_type!(pt_c2w, CameraToWorld, "CameraToWorld");
pose_type!(pt_c2c, CameraToCamera, "CameraToCamera");
pose_type!(pt_w2w, WorldToWorld, "WorldToWorld");
fn c02_types(c: &mut Case) {
    let (iso, a, b) = iso_any(&mut c.rng);
    let (x, l) = pose_input(c);
    let s = match c.rng.below(4) {
        0 => 0.0,
        1 => -c.rng.log(1e-6, 1e6),
        _ => c.rng.log(1e-6, 1e6),
    };
    c.bin(a);
    c.bin(b);
    c.bin(l);
    c.note("pose", &iso);
    c.note("point", &x);
    c.note("scale", &s);
    match c.idx % 4 {
        0 => pt_w2c(c, &iso, x, s),
        1 => pt_c2w(c, &iso, x, s),
        2 => pt_c2c(c, &iso, x, s),
        _ => pt_w2w(c, &iso, x, s),
    }
    c.nontrivial(hash_f64s(&flat(&iso)) ^ hash_f64s(&x));
}
fn c02_chain(c: &mut Case) {
    // two reconstructions seen by one camera; plus composition of relative poses
    let (a, _, _) = iso_any(&mut c.rng);
    let (b, _, _) = iso_any(&mut c.rng);
    let (x, l) = pose_input(c);
    c.bin(l);
    c.note("a", &a);
    c.note("b", &b);
    c.note("x", &x);
    let Some(w) = c.call("WorldToWorld::from_camera_poses", || {
        WorldToWorld::from_camera_poses(WorldToCamera(a.na()), WorldToCamera(b.na()))
    }) else {
        return;
    };
    let got = Iso::of(&w.isometry());
    let want = a.then(&b.inv());
    c.within(fro(&msub(&got.r, &want.r)), 1e-12, "world-to-world-rotation", || format!("{got:?} want {want:?}"));
    c.within(norm(sub(got.t, want.t)), 1e-12 * (norm(a.t) + norm(b.t)), "world-to-world-translation", || {
        format!("{got:?} want {want:?}")
    });
    // the camera sees the same thing in both reconstructions
    let xa = WorldPoint::from_homogeneous(nv4(x));
    let tot = 1.0 + x[3] * (norm(a.t) + norm(b.t));
    if let Some((ca, cb)) = c.call("WorldToWorld::transform", || {
        (WorldToCamera(a.na()).transform(xa), WorldToCamera(b.na()).transform(w.transform(xa)))
    }) {
        let (_, tol) = pose_expect(&a, x);
        if tol * tot < 1e-6 {
            cmp_h(c, ov4(&cb.homogeneous()), ov4(&ca.homogeneous()), 40.0 * tol * tot, "same-camera-view", "from_camera_poses");
            c.nontrivial(hash_f64s(&flat(&a)) ^ hash_f64s(&x));
        } else {
            c.inconclusive("point at a camera centre");
        }
    }
}
pub fn c02() -> Prop {
    Prop {
        id: "C02",
        rule: "a case is one rigid motion (rotation identity/tiny/quarter-turn/near-pi/exactly-pi/uniform, translation zero..1e8) x one homogeneous point (at infinity, far, moderate, near) x one scale, on each of the four pose types, or a pair of poses of one camera in two worlds; non-trivial = distinct inputs whose output is not at the optical centre",
        assumptions: &["rotation matrices are orthonormal to rounding"],
        workloads: vec![wl("pose-types", 400_000, 40_000_000, 0.9, c02_types), wl("chains", 200_000, 20_000_000, 0.8, c02_chain)],
    }
}

// --------------------------------------------------------------------------------- C03 rotations
fn c03_exp(c: &mut Case) {
    let ax = axis(&mut c.rng);
    let (l, th) = match c.rng.below(9) {
        0 => ("angle:0", 0.0),
        1 => ("angle:<1e-8", c.rng.log(1e-300, 1e-8)),
        2 => ("angle:switch", c.rng.range(0.5, 2.0) * f64::EPSILON.sqrt()),
        3 => ("angle:<1e-2", c.rng.log(1e-8, 1e-2)),
        4 => ("angle:near-pi", PI - c.rng.log(1e-12, 1e-2)),
        5 => ("angle:pi", PI),
        6 => ("angle:>pi", c.rng.range(PI, 6.0 * PI)),
        _ => ("angle:moderate", c.rng.range(1e-2, PI - 1e-2)),
    };
    c.bin(l);
    let w = mul(ax, th);
    c.note("w", &w);
    let want = exp3(w);
    let Some(r) = c.call("Rotation3::from(Skew3)", || Rotation3::from(Skew3(nv(w)))) else { return };
    let m = orot(&r);
    let tol_e = if th < 1e-2 { 1e-14 } else { 1e-13 * (1.0 + th) };
    c.within(fro(&msub(&m, &want)), tol_e, "exp-is-rodrigues", || format!("{w:?} -> {m:?} want {want:?}"));
    c.within(rot_defect(&m), 1e-12, "exp-proper", || format!("{w:?} -> {m:?}"));
    let Some(r2) = c.call("Skew3::rotation", || Skew3(nv(w)).rotation()) else { return };
    c.within(fro(&msub(&orot(&r2), &want)), tol_e, "rotation-is-exp", || format!("{w:?}"));
    if th <= 1e-3 {
        let Some(r3) = c.call("Skew3::rotation_small", || Skew3(nv(w)).rotation_small()) else { return };
        let m3 = orot(&r3);
        c.within(fro(&msub(&m3, &want)), th * th + 1e-12, "rotation-small", || format!("{w:?} -> {m3:?}"));
        c.within(rot_defect(&m3), 1e-12, "rotation-small-proper", || format!("{w:?} -> {m3:?}"));
    }
    // log(exp(w)) = w below pi
    let Some(b) = c.call("Skew3::from(Rotation3)", || Skew3::from(r)) else { return };
    let b = ov(&b.0);
    c.check(fin3(b) && norm(b) <= PI * (1.0 + 1e-12), "log-range", || format!("{w:?} -> {b:?}"));
    if th < PI {
        // at pi the two axes are the same rotation
        let d = norm(sub(b, w)).min(if PI - th < 1e-7 { norm(add(b, w)) } else { f64::INFINITY });
        let tol = if th < 1e-7 {
            1e-15 + 1e-6 * th // a matrix this close to identity carries w only to about eps
        } else if th < 1e-2 {
            1e-14
        } else if PI - th > 1e-3 {
            1e-10
        } else {
            1e-7
        };
        c.within(d, tol, "log-of-exp", || {
            format!("{w:?} -> {b:?}")
        });
    }
    c.nontrivial(hash_f64s(&w));
}
fn c03_log(c: &mut Case) {
    let (l, m, ax, th) = rot_any(&mut c.rng);
    c.bin(l);
    c.note("R", &m);
    let Some(k) = c.call("Skew3::from(Rotation3)", || Skew3::from(nrot(&m))) else { return };
    let w = ov(&k.0);
    c.check(fin3(w) && norm(w) <= PI * (1.0 + 1e-12), "log-range", || format!("{m:?} -> {w:?}"));
    let back = exp3(w);
    c.within(fro(&msub(&back, &m)), 1e-7, "exp-of-log", || format!("axis {ax:?} angle {th}: log {w:?}, exp of it {back:?} is not {m:?}"));
    if th < PI - 1e-3 && th > 1e-3 {
        c.within(norm(sub(w, mul(ax, th))), 1e-12, "log-value", || format!("{w:?} want axis {ax:?} angle {th}"));
    }
    let Some(r2) = c.call("Rotation3::from(Skew3)", || Rotation3::from(k)) else { return };
    c.within(fro(&msub(&orot(&r2), &m)), 1e-7, "exp-of-log-own", || format!("axis {ax:?} angle {th}: log {w:?}"));
    // se(3)
    let t = trans_any(&mut c.rng).1;
    c.note("t", &t);
    let iso = Iso { r: m, t };
    macro_rules! se3 {
        ($P:ty, $n1:literal, $n2:literal) => {{
            let pose: $P = iso.na().into();
            let Some(v) = c.call($n1, || pose.se3()) else { return };
            let tv = [v[0], v[1], v[2]];
            c.check(tv == t, "se3-translation-first", || format!("{tv:?} want {t:?}"));
            c.within(norm(sub([v[3], v[4], v[5]], w)), 1e-12, "se3-rotation-log", || format!("{v:?} want {w:?}"));
            let Some(p2) = c.call($n2, || <$P>::from_se3(v)) else { return };
            let i2 = Iso::of(&p2.isometry());
            c.within(fro(&msub(&i2.r, &m)), 1e-7, "se3-round-trip", || format!("{iso:?} -> {i2:?}"));
            c.check(i2.t == t, "se3-round-trip-t", || format!("{iso:?} -> {i2:?}"));
        }};
    }
    match c.idx % 4 {
        0 => se3!(WorldToCamera, "WorldToCamera::se3", "WorldToCamera::from_se3"),
        1 => se3!(CameraToCamera, "CameraToCamera::se3", "CameraToCamera::from_se3"),
        2 => se3!(CameraToWorld, "CameraToWorld::se3", "CameraToWorld::from_se3"),
        _ => se3!(WorldToWorld, "WorldToWorld::se3", "WorldToWorld::from_se3"),
    }
    // and from_se3 of arbitrary coordinates is (exp, t)
    let a = mul(axis(&mut c.rng), c.rng.range(0.0, 3.0 * PI));
    let Some(p3) = c.call("from_se3", || CameraToCamera::from_se3(Vector6::new(t[0], t[1], t[2], a[0], a[1], a[2]))) else {
        return;
    };
    let i3 = Iso::of(&p3.isometry());
    c.within(fro(&msub(&i3.r, &exp3(a))), 1e-12, "from_se3-rotation", || format!("{a:?} -> {i3:?}"));
    c.check(i3.t == t, "from_se3-translation", || format!("{i3:?} want {t:?}"));
    c.nontrivial(hash_f64s(&flat(&iso)));
}
fn c03_alg(c: &mut Case) {
    let s = c.rng.log(1e-3, 1e3);
    let (u, v) = (mul(axis(&mut c.rng), s), mul(axis(&mut c.rng), c.rng.log(1e-3, 1e3)));
    c.note("u", &u);
    c.note("v", &v);
    let (a, b) = (Skew3(nv(u)), Skew3(nv(v)));
    let Some((h, h2, br, rb)) = c.call("Skew3::hat/hat2/bracket", || (a.hat(), a.hat2(), a.bracket(b), b.bracket(a))) else {
        return;
    };
    let (hu, hh) = (om(&h), om(&h2));
    c.within(fro(&msub(&hu, &hat(u))), 1e-12 * norm(u), "hat", || format!("{u:?} -> {hu:?}"));
    c.within(norm(sub(mv(&hu, v), cross(u, v))), 1e-12 * norm(u) * norm(v), "hat-is-cross", || format!("{u:?} {v:?}"));
    c.within(fro(&msub(&hh, &mm(&hat(u), &hat(u)))), 1e-12 * norm(u) * norm(u), "hat2", || format!("{u:?} -> {hh:?}"));
    let (br, rb) = (ov(&br.0), ov(&rb.0));
    c.within(norm(sub(br, cross(u, v))), 1e-12 * norm(u) * norm(v), "bracket-is-cross", || format!("{u:?} {v:?} -> {br:?}"));
    c.within(norm(add(br, rb)), 1e-12 * norm(u) * norm(v), "bracket-antisymmetric", || format!("{u:?} {v:?}"));
    let Some(ve) = c.call("Skew3::vee", || Skew3::vee(h)) else { return };
    c.check(ov(&ve.0) == u, "vee-inverts-hat", || format!("{u:?} -> {ve:?}"));
    let ve2 = Skew3::vee(nm(&hat(v)));
    c.check(ov(&ve2.0) == v, "vee", || format!("{v:?} -> {ve2:?}"));
    c.nontrivial(hash_f64s(&u) ^ hash_f64s(&v));
}
pub fn c03() -> Prop {
    Prop {
        id: "C03",
        rule: "a case is one rotation vector (angle 0, 1e-300.., around the small-angle switch, near and beyond pi, axis on/off coordinate axes), one rotation matrix (incl. exact half turns) with one translation, or one pair of so(3) elements; non-trivial = distinct inputs",
        assumptions: &["rotation matrices are orthonormal to rounding"],
        workloads: vec![
            wl("exp", 300_000, 30_000_000, 0.8, c03_exp),
            wl("log-se3", 300_000, 30_000_000, 0.8, c03_log),
            wl("algebra", 100_000, 10_000_000, 0.9, c03_alg),
        ],
    }
}

// --------------------------------------------------------------------------------- C04 jacobians
type J6 = [[f64; 6]; 4];
fn om46(m: &Matrix4x6<f64>) -> J6 {
    let mut r = [[0.0; 6]; 4];
    for i in 0..4 {
        for j in 0..6 {
            r[i][j] = m[(i, j)];
        }
    }
    r
}
macro_rules! jac_type {
    ($fname:ident, $P:ty, $name:literal) => {
        fn $fname(c: &mut Case, iso: &Iso, x: [f64; 4]) {
            type In = <$P as Pose>::InputPoint;
            let pose: $P = iso.na().into();
            let xin = In::from_homogeneous(nv4(x));
            let xu = ov4(&xin.homogeneous());
            let Some((y, ji, js)) = c.call(concat!($name, "::transform_jacobians"), || pose.transform_jacobians(xin)) else { return };
            let Some((y1, ji1)) = c.call(concat!($name, "::transform_jacobian_input"), || pose.transform_jacobian_input(xin)) else { return };
            let Some((y2, js2)) = c.call(concat!($name, "::transform_jacobian_self"), || pose.transform_jacobian_self(xin)) else { return };
            let Some(y3) = c.call(concat!($name, "::transform"), || pose.transform(xin)) else { return };
            let (want, tol) = pose_expect(iso, x);
            if !(tol < 1e-6) {
                c.inconclusive("point at the camera centre");
                return;
            }
            for (k, v) in [y.homogeneous(), y1.homogeneous(), y2.homogeneous(), y3.homogeneous()].iter().enumerate() {
                cmp_h(c, ov4(v), want, tol, "outputs-agree", &format!("{} variant {k}", $name));
            }
            // numerical derivative of the un-normalised output, left perturbation: (t + dt, exp(dr) R)
            let f = |dx: [f64; 4], dt: V3, dr: V3| -> [f64; 4] {
                let q = Iso { r: mm(&exp3(dr), &iso.r), t: add(iso.t, dt) };
                let h: Matrix4<f64> = <$P>::from(q.na()).homogeneous();
                let v = h * nv4([xu[0] + dx[0], xu[1] + dx[1], xu[2] + dx[2], xu[3] + dx[3]]);
                ov4(&v)
            };
            let scale_t = 1.0 + norm(iso.t);
            let scale_w = 1.0 + xu[3].abs();
            let hstep = 1e-5;
            for (who, ji) in [("transform_jacobians", &ji), ("transform_jacobian_input", &ji1)] {
                let g = om4(ji);
                let mut worst = 0.0f64;
                for k in 0..4 {
                    let mut d = [0.0; 4];
                    d[k] = hstep * if k == 3 { 1.0 } else { scale_w };
                    let m = [-d[0], -d[1], -d[2], -d[3]];
                    let (p, q) = (f(d, [0.0; 3], [0.0; 3]), f(m, [0.0; 3], [0.0; 3]));
                    for i in 0..4 {
                        let num = (p[i] - q[i]) / (2.0 * d[k]);
                        worst = worst.max((num - g[i][k]).abs());
                    }
                }
                c.within(worst, 1e-8 * scale_t * scale_w, "input-jacobian-is-derivative", || format!("{}::{who} {:?}", $name, g));
                let mut ex = 0.0f64;
                for i in 0..4 {
                    for j in 0..4 {
                        let want = if i < 3 { if j < 3 { iso.r[i][j] } else { iso.t[i] } } else if j == 3 { 1.0 } else { 0.0 };
                        ex = ex.max((g[i][j] - want).abs() / if j == 3 { scale_t } else { 1.0 });
                    }
                }
                c.within(ex, 1e-12, "input-jacobian-exact", || format!("{}::{who} {:?}", $name, g));
            }
            for (who, js) in [("transform_jacobians", &js), ("transform_jacobian_self", &js2)] {
                let g = om46(js);
                let mut worst = 0.0f64;
                let mut row4 = 0.0f64;
                for k in 0..6 {
                    let mut d = [0.0; 6];
                    d[k] = hstep * if k < 3 { scale_t } else { 1.0 };
                    let (p, q) = (
                        f([0.0; 4], [d[0], d[1], d[2]], [d[3], d[4], d[5]]),
                        f([0.0; 4], [-d[0], -d[1], -d[2]], [-d[3], -d[4], -d[5]]),
                    );
                    for i in 0..4 {
                        let num = (p[i] - q[i]) / (2.0 * d[k]);
                        if i < 3 {
                            worst = worst.max((num - g[i][k]).abs());
                        } else {
                            row4 = row4.max((num - g[i][k]).abs());
                        }
                    }
                }
                c.within(worst, 1e-8 * scale_t * scale_w, "pose-jacobian-is-derivative", || format!("{}::{who} {:?}", $name, g));
                c.within(row4, 1e-8 * scale_w, "pose-jacobian-w-row", || format!("{}::{who} {:?}: w does not depend on the pose", $name, g));
                // exact form: [ w I | -hat(R x) ; 0 | 0 ]
                let hx = hat(mv(&iso.r, [xu[0], xu[1], xu[2]]));
                let mut ex = 0.0f64;
                for i in 0..3 {
                    for j in 0..3 {
                        ex = ex.max((g[i][j] - if i == j { xu[3] } else { 0.0 }).abs() / scale_w);
                        ex = ex.max((g[i][3 + j] + hx[i][j]).abs());
                    }
                }
                c.within(ex, 1e-12, "pose-jacobian-exact", || format!("{}::{who} {:?}", $name, g));
            }
        }
    };
}
jac_type!(j_w2c, WorldToCamera, "WorldToCamera");
jac_type!(j_c2w, CameraToWorld, "CameraToWorld");
jac_type!(j_c2c, CameraToCamera, "CameraToCamera");
jac_type!(j_w2w, WorldToWorld, "WorldToWorld");
fn c04_pose(c: &mut Case) {
    let (_, r, _, _) = rot_any(&mut c.rng);
    let t = match c.rng.below(5) {
        0 => [0.0; 3],
        1 => mul(unit3(&mut c.rng), c.rng.log(1e2, 1e4)),
        _ => mul(unit3(&mut c.rng), c.rng.log(1e-2, 1e2)),
    };
    let iso = Iso { r, t };
    let d = axis(&mut c.rng);
    let w = match c.rng.below(4) {
        0 => 0.0,
        1 => c.rng.log(1e-6, 1e-2),
        _ => c.rng.log(1e-2, 1e2),
    };
    let mut x = [d[0], d[1], d[2], w];
    if c.rng.chance(0.2) {
        // hand in an un-normalised, negated representative
        let s = -c.rng.log(1e-3, 1e3);
        if w > 0.0 {
            x = [x[0] * s, x[1] * s, x[2] * s, x[3] * s];
        }
    }
    c.note("pose", &iso);
    c.note("point", &x);
    let n = norm([x[0], x[1], x[2]]) * if x[3] < 0.0 { -1.0 } else { 1.0 };
    let xn = [x[0] / n, x[1] / n, x[2] / n, x[3] / n];
    match c.idx % 4 {
        0 => j_w2c(c, &iso, xn),
        1 => j_c2w(c, &iso, xn),
        2 => j_c2c(c, &iso, xn),
        _ => j_w2w(c, &iso, xn),
    }
    c.bin(if w == 0.0 { "pt:infinity" } else { "pt:finite" });
    c.bin(if norm(t) == 0.0 { "t:zero" } else { "t:nonzero" });
    c.nontrivial(hash_f64s(&flat(&iso)) ^ hash_f64s(&x));
}
fn c04_so3(c: &mut Case) {
    let y = mul(axis(&mut c.rng), c.rng.log(1e-3, 1e3));
    let (_, _, ax, th) = rot_any(&mut c.rng);
    let w = mul(ax, th);
    c.note("y", &y);
    c.note("w", &w);
    let Some(j) = c.call("Skew3::jacobian_self", || Skew3::jacobian_self(nv(y))) else { return };
    let g = om(&j);
    let h = 1e-5;
    let mut worst = 0.0f64;
    for k in 0..3 {
        let mut d = [0.0; 3];
        d[k] = h;
        let (p, q) = (mv(&exp3(d), y), mv(&exp3(neg(d)), y));
        for i in 0..3 {
            worst = worst.max(((p[i] - q[i]) / (2.0 * h) - g[i][k]).abs());
        }
    }
    c.within(worst, 1e-8 * norm(y), "rotation-jacobian-self", || format!("y {y:?}: {g:?} is not d(exp(w) y)/dw"));
    let Some(j) = c.call("Skew3::jacobian_input", || Skew3(nv(w)).jacobian_input()) else { return };
    let g = om4(&j);
    let r = exp3(w);
    let mut ex = 0.0f64;
    for i in 0..4 {
        for k in 0..4 {
            let want = if i < 3 && k < 3 { r[i][k] } else if i == k { 1.0 } else { 0.0 };
            ex = ex.max((g[i][k] - want).abs());
        }
    }
    c.within(ex, 1e-12, "rotation-jacobian-input", || format!("w {w:?}: {g:?}"));
    c.nontrivial(hash_f64s(&y) ^ hash_f64s(&w));
}
pub fn c04() -> Prop {
    Prop {
        id: "C04",
        rule: "a case is one pose (all rotation classes, translations 0..1e4) x one homogeneous point, on each pose type: all four transform functions are called and every Jacobian entry is compared to a central difference of the code's own matrix and to the closed form; non-trivial = distinct inputs",
        assumptions: &["the Jacobians are of the un-normalised output R x + w t with left-multiplied rotation increments, as the in-code derivation states"],
        workloads: vec![wl("pose", 150_000, 10_000_000, 0.8, c04_pose), wl("so3", 100_000, 5_000_000, 0.8, c04_so3)],
    }
}

// ------------------------------------------------------------------------------------ C05 tangent
fn c05_t(c: &mut Case) {
    let mut t = mul(axis(&mut c.rng), c.rng.log(1e-6, 1e6));
    let rmag = match c.rng.below(4) {
        0 => 0.0,
        1 => c.rng.log(1e-200, 1e-9),
        2 => c.rng.range(0.0, 3.0 * PI),
        _ => c.rng.log(1e-6, PI),
    };
    let mut w = mul(axis(&mut c.rng), rmag);
    if c.rng.chance(0.1) {
        t = [0.0; 3];
    }
    c.note("t", &t);
    c.note("w", &w);
    let Some(x) = c.call("Se3TangentSpace::new", || Se3TangentSpace::new(nv(t), nv(w))) else { return };
    let parts = |x: &Se3TangentSpace| (ov(&x.translation), ov(&x.rotation));
    c.check(parts(&x) == (t, w), "new-keeps", || format!("{t:?} {w:?} -> {x:?}"));
    let Some(iso) = c.call("Se3TangentSpace::isometry", || x.isometry()) else { return };
    let i = Iso::of(&iso);
    let r = exp3(w);
    c.within(fro(&msub(&i.r, &r)), 1e-12 * (1.0 + rmag), "isometry-rotation", || format!("{x:?} -> {i:?}"));
    c.within(norm(sub(i.t, mv(&r, t))), 1e-12 * (1.0 + rmag) * norm(t), "isometry-translates-then-rotates", || format!("{x:?} -> {i:?}"));
    let Some((ra, rb)) = c.call("Se3TangentSpace::rotations", || {
        let x = Se3TangentSpace::new(nv(w), nv(mul(t, 1e-6)));
        x.rotations()
    }) else {
        return;
    };
    c.within(fro(&msub(&orot(&ra), &r)), 1e-12 * (1.0 + rmag), "rotations-translation-part", || format!("{w:?} -> {ra:?}"));
    c.within(fro(&msub(&orot(&rb), &exp3(mul(t, 1e-6)))), 1e-12 * 2.0, "rotations-rotation-part", || format!("{t:?} -> {rb:?}"));
    // scaling
    let s = c.rng.sign() * c.rng.log(1e-6, 1e6);
    let Some((a, b, d, inv)) = c.call("Se3TangentSpace::scale*", || (x.scale(s), x.scale_translation(s), x.scale_rotation(s), x.inverse())) else {
        return;
    };
    c.check(parts(&a) == (mul(t, s), mul(w, s)), "scale", || format!("{x:?} * {s}: {a:?}"));
    c.check(parts(&b) == (mul(t, s), w), "scale_translation", || format!("{x:?} * {s}: {b:?}"));
    c.check(parts(&d) == (t, mul(w, s)), "scale_rotation", || format!("{x:?} * {s}: {d:?}"));
    c.check(parts(&inv) == (neg(t), neg(w)), "inverse-negates", || format!("{x:?}: {inv:?}"));
    // the inverse undoes the motion to first order, exactly for pure rotation / pure translation
    let Some(ii) = c.call("Se3TangentSpace::isometry", || inv.isometry()) else { return };
    let comp = i.then(&Iso::of(&ii));
    let bound = 1.001 * norm(cross(w, t)) + 1e-12 * norm(t) * (1.0 + rmag);
    c.within(fro(&msub(&comp.r, &I3)), 1e-12, "inverse-rotation", || format!("{x:?} {comp:?}"));
    c.within(norm(comp.t), bound, "inverse-first-order", || format!("{x:?} {comp:?}"));
    // vector form
    let Some(v) = c.call("Se3TangentSpace::to_vec", || x.to_vec()) else { return };
    c.check([v[0], v[1], v[2], v[3], v[4], v[5]] == [t[0], t[1], t[2], w[0], w[1], w[2]], "to_vec", || format!("{x:?} -> {v:?}"));
    let Some(f) = c.call("Se3TangentSpace::from_vec", || Se3TangentSpace::from_vec(v)) else { return };
    c.check(parts(&f) == (t, w), "from_vec", || format!("{v:?} -> {f:?}"));
    // l1: unit or zero
    let Some(l) = c.call("Se3TangentSpace::l1", || x.l1()) else { return };
    let (lt, lr) = parts(&l);
    for (n, got, src) in [("translation", lt, t), ("rotation", lr, w)] {
        if norm(src) == 0.0 {
            c.check(got == [0.0; 3], "l1-of-zero", || format!("{n}: {src:?} -> {got:?}"));
        } else if norm(src) > 1e-100 {
            c.within(norm(sub(got, unit(src))), 1e-12, "l1-unit", || format!("{n}: {src:?} -> {got:?}"));
        }
    }
    // NaN in one component never leaks, and leaves the other half alone
    let k = c.rng.below(3);
    if c.rng.chance(0.5) {
        let keep = w;
        t[k] = f64::NAN;
        if let Some(x) = c.call("Se3TangentSpace::new", || Se3TangentSpace::new(nv(t), nv(w))) {
            c.check(parts(&x) == ([0.0; 3], keep), "nan-translation-zeroed", || format!("{t:?} {w:?} -> {x:?}"));
        }
    } else {
        let keep = t;
        w[k] = f64::NAN;
        if let Some(x) = c.call("Se3TangentSpace::new", || Se3TangentSpace::new(nv(t), nv(w))) {
            c.check(parts(&x) == (keep, [0.0; 3]), "nan-rotation-zeroed", || format!("{t:?} {w:?} -> {x:?}"));
        }
    }
    c.nontrivial(v.iter().fold(0, |h, x| splitmix(&mut (h ^ x.to_bits()))));
}
fn c05_sum(c: &mut Case) {
    let n = c.rng.below(20);
    let v: Vec<([f64; 3], [f64; 3])> = (0..n)
        .map(|_| (mul(unit3(&mut c.rng), c.rng.log(1e-3, 1e3)), mul(unit3(&mut c.rng), c.rng.log(1e-3, 1e3))))
        .collect();
    c.note("terms", &v);
    let items: Vec<Se3TangentSpace> = v.iter().map(|(a, b)| Se3TangentSpace::new(nv(*a), nv(*b))).collect();
    let mut wt = [0.0; 3];
    let mut wr = [0.0; 3];
    let mut mag = 0.0;
    for (a, b) in &v {
        wt = add(wt, *a);
        wr = add(wr, *b);
        mag += norm(*a) + norm(*b);
    }
    let Some(s) = c.call("Se3TangentSpace::sum", || items.iter().copied().sum::<Se3TangentSpace>()) else { return };
    c.within(norm(sub(ov(&s.translation), wt)) + norm(sub(ov(&s.rotation), wr)), 1e-12 * mag, "sum", || format!("{s:?} want {wt:?} {wr:?}"));
    let Some(s2) = c.call("Se3TangentSpace::add_assign", || {
        let mut a = Se3TangentSpace::identity();
        for x in &items {
            a += *x;
        }
        a
    }) else {
        return;
    };
    c.within(norm(sub(ov(&s2.translation), wt)) + norm(sub(ov(&s2.rotation), wr)), 1e-12 * mag, "add_assign", || format!("{s2:?}"));
    if n >= 2 {
        if let Some(s3) = c.call("Se3TangentSpace::add", || items[0] + items[1]) {
            let (a, b) = (add(v[0].0, v[1].0), add(v[0].1, v[1].1));
            c.check((ov(&s3.translation), ov(&s3.rotation)) == (a, b), "add", || format!("{s3:?}"));
        }
    }
    if n > 0 {
        c.nontrivial(hash_f64s(&wt) ^ hash_f64s(&wr));
    }
}
pub fn c05() -> Prop {
    Prop {
        id: "C05",
        rule: "a case is one tangent (translation 0..1e6, rotation 0, denormal-small, up to 3 pi) with one scale, then a NaN planted in one component; or a list of 0-19 tangents to add; non-trivial = distinct inputs",
        assumptions: &[],
        workloads: vec![wl("single", 200_000, 20_000_000, 0.9, c05_t), wl("sums", 50_000, 5_000_000, 0.8, c05_sum)],
    }
}
