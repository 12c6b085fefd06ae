//! Pictures of a painted room.
use crate::fw::*;
use crate::m::*;
use image::{DynamicImage, Rgb, RgbImage};

/// A wall of the room: the plane at `at` along `axis`, painted.
struct Wall {
    axis: usize,
    at: f64,
    paint: Vec<f32>,
    side: usize,
    res: f64,
}
pub struct Room {
    walls: Vec<Wall>,
}
pub const W: u32 = 480;
pub const H: u32 = 360;
pub const FOCAL: f64 = 390.0;

fn paint(r: &mut Rng, side: usize, blobs: usize) -> Vec<f32> {
    let mut t = vec![128f32; side * side];
    for _ in 0..blobs {
        let (cx, cy) = (r.range(0.0, side as f64), r.range(0.0, side as f64));
        let (s, a) = (r.log(2.0, 9.0), r.range(30.0, 90.0) * if r.chance(0.5) { -1.0 } else { 1.0 });
        let k = (3.0 * s).ceil() as i64;
        for y in (cy as i64 - k).max(0)..(cy as i64 + k).min(side as i64) {
            for x in (cx as i64 - k).max(0)..(cx as i64 + k).min(side as i64) {
                let d = ((x as f64 - cx).powi(2) + (y as f64 - cy).powi(2)) / (2.0 * s * s);
                t[y as usize * side + x as usize] += (a * (-d).exp()) as f32;
            }
        }
    }
    t
}
impl Room {
    /// A room whose walls are at various depths, the far one with a step.
    pub fn new(r: &mut Rng) -> Room {
        let spec = [(2, r.range(7.0, 9.0)), (0, r.range(-4.0, -2.5)), (0, r.range(2.5, 4.0)), (1, r.range(-3.0, -2.0)), (1, r.range(2.0, 3.0))];
        let walls = spec
            .iter()
            .map(|&(axis, at)| {
                let side = 512;
                let n = 1500;
                Wall { axis, at, paint: paint(r, side, n), side, res: 32.0 }
            })
            .collect();
        Room { walls }
    }
    fn hit(&self, o: V3, d: V3) -> Option<(f64, f64)> {
        let mut best: Option<(f64, &Wall)> = None;
        for w in &self.walls {
            if d[w.axis].abs() > 1e-9 {
                let t = (w.at - o[w.axis]) / d[w.axis];
                if t > 1e-6 && best.as_ref().map_or(true, |b| t < b.0) {
                    best = Some((t, w));
                }
            }
        }
        let (t, w) = best?;
        let p = add(o, mul(d, t));
        let q: Vec<f64> = (0..3).filter(|&k| k != w.axis).map(|k| p[k]).collect();
        let n = w.side as f64;
        let (x, y) = ((q[0] * w.res + n / 2.0).rem_euclid(n), (q[1] * w.res + n / 2.0).rem_euclid(n));
        let (i, j) = (x.floor(), y.floor());
        let (fx, fy) = (x - i, y - j);
        let at = |i: f64, j: f64| w.paint[(j as usize % w.side) * w.side + i as usize % w.side] as f64;
        let v = (at(i, j) * (1.0 - fx) + at(i + 1.0, j) * fx) * (1.0 - fy) + (at(i, j + 1.0) * (1.0 - fx) + at(i + 1.0, j + 1.0) * fx) * fy;
        Some((t, v))
    }
    pub fn point(&self, pose: &Iso, bearing: V3) -> Option<V3> {
        let (o, d) = (pose.center(), mv(&tr(&pose.r), bearing));
        self.hit(o, d).map(|h| add(o, mul(d, h.0)))
    }
    /// What a camera at that pose sees.
    pub fn picture(&self, pose: &Iso) -> DynamicImage {
        let (o, rt) = (pose.center(), tr(&pose.r));
        DynamicImage::ImageRgb8(RgbImage::from_fn(W, H, |x, y| {
            let mut v = 0.0;
            // a box of four samples per pixel
            for (sx, sy) in [(-0.25, -0.25), (0.25, -0.25), (-0.25, 0.25), (0.25, 0.25)] {
                let d = mv(&rt, ray(x as f64 + sx, y as f64 + sy));
                v += self.hit(o, d).map_or(0.0, |h| h.1) / 4.0;
            }
            let g = v.round().clamp(0.0, 255.0) as u8;
            Rgb([g, g, g])
        }))
    }
}
pub fn ray(x: f64, y: f64) -> V3 {
    [(x - (W as f64 - 1.0) / 2.0) / FOCAL, (y - (H as f64 - 1.0) / 2.0) / FOCAL, 1.0]
}
