//! Input generators shared by the workloads.
#![allow(dead_code)]
use crate::fw::*;
use crate::m::*;
use std::f64::consts::PI;

pub fn unit3(r: &mut Rng) -> V3 {
    loop {
        let v = [r.normal(), r.normal(), r.normal()];
        let n = norm(v);
        if n > 1e-3 {
            let u = mul(v, 1.0 / n);
            return mul(u, 1.0 / dot(u, u).sqrt());
        }
    }
}
pub fn ball(r: &mut Rng) -> V3 {
    let s = r.f().cbrt();
    mul(unit3(r), s)
}
pub fn boxv(r: &mut Rng, s: f64) -> V3 {
    [r.range(-s, s), r.range(-s, s), r.range(-s, s)]
}
/// unit vector possibly exactly on an axis or in a coordinate plane
pub fn axis(r: &mut Rng) -> V3 {
    match r.below(4) {
        0 => {
            let mut v = [0.0; 3];
            v[r.below(3)] = r.sign();
            v
        }
        1 => {
            let a = r.range(0.0, 2.0 * PI);
            let mut v = [a.cos(), a.sin(), 0.0];
            let k = r.below(3);
            v.rotate_right(k);
            v
        }
        _ => unit3(r),
    }
}
/// any rotation: label, matrix, axis, angle in [0, pi]
pub fn rot_any(r: &mut Rng) -> (&'static str, M3, V3, f64) {
    let ax = axis(r);
    let (l, a) = match r.below(9) {
        0 => ("rot:identity", 0.0),
        1 => ("rot:tiny(<1e-6)", r.log(1e-14, 1e-6)),
        2 => ("rot:small(<1e-2)", r.log(1e-6, 1e-2)),
        3 => ("rot:near-pi", PI - r.log(1e-12, 1e-2)),
        4 => ("rot:exactly-pi", PI),
        5 => ("rot:quarter-turns", PI * 0.5),
        6 => ("rot:large(>pi/2)", r.range(PI * 0.5, PI - 1e-2)),
        _ => ("rot:moderate", r.range(1e-2, PI * 0.5)),
    };
    let m = match l {
        // exact entries for exactly representable cases
        "rot:exactly-pi" => {
            let mut m = [[0.0; 3]; 3];
            for i in 0..3 {
                for j in 0..3 {
                    m[i][j] = 2.0 * ax[i] * ax[j] - I3[i][j];
                }
            }
            m
        }
        "rot:quarter-turns" if ax.iter().filter(|x| **x == 0.0).count() == 2 => {
            let h = hat(ax);
            let mut m = [[0.0; 3]; 3];
            for i in 0..3 {
                for j in 0..3 {
                    m[i][j] = ax[i] * ax[j] + h[i][j];
                }
            }
            m
        }
        _ => rot_aa(ax, a),
    };
    (l, m, ax, a)
}
/// uniform rotation
pub fn rot_uniform(r: &mut Rng) -> M3 {
    rot_q([r.normal(), r.normal(), r.normal(), r.normal()])
}
/// translation of mixed magnitudes
pub fn trans_any(r: &mut Rng) -> (&'static str, V3) {
    match r.below(6) {
        0 => ("t:zero", [0.0; 3]),
        1 => {
            let mut v = [0.0; 3];
            v[r.below(3)] = r.sign() * r.log(1e-3, 1e3);
            ("t:axis", v)
        }
        2 => ("t:tiny", mul(unit3(r), r.log(1e-9, 1e-3))),
        3 => ("t:huge", mul(unit3(r), r.log(1e3, 1e8))),
        _ => ("t:moderate", mul(unit3(r), r.log(1e-2, 1e2))),
    }
}
pub fn iso_any(r: &mut Rng) -> (Iso, &'static str, &'static str) {
    let (a, m, _, _) = rot_any(r);
    let (b, t) = trans_any(r);
    (Iso { r: m, t }, a, b)
}
/// rotation with angle uniform in [0, max]
pub fn rot_upto(r: &mut Rng, max: f64) -> M3 {
    let ax = unit3(r);
    let a = r.range(0.0, max);
    rot_aa(ax, a)
}
/// A rotation taking +z to the given direction, with random roll.
pub fn look_to(r: &mut Rng, d: V3) -> M3 {
    // rows of world-to-camera: x, y, z axes of the camera in the world
    let z = unit(d);
    let mut up = unit3(r);
    while norm(cross(up, z)) < 0.1 {
        up = unit3(r);
    }
    let x = unit(cross(up, z));
    let y = cross(z, x);
    [x, y, z]
}
