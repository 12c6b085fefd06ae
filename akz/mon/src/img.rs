//! Reference images in f64, the oracle's filters, and the generators of test images.
use crate::fw::Rng;
use akaze_seq::image::GrayFloatImage;
use image::{ImageBuffer, Luma};
use std::sync::OnceLock;

pub type Buf = ImageBuffer<Luma<f32>, Vec<f32>>;

#[derive(Clone, Debug)]
pub struct Im {
    pub w: usize,
    pub h: usize,
    pub d: Vec<f64>,
}
impl Im {
    pub fn new(w: usize, h: usize) -> Im {
        Im { w, h, d: vec![0.0; w * h] }
    }
    pub fn f(w: usize, h: usize, mut f: impl FnMut(usize, usize) -> f64) -> Im {
        let mut im = Im::new(w, h);
        for y in 0..h {
            for x in 0..w {
                im.d[y * w + x] = f(x, y);
            }
        }
        im
    }
    pub fn at(&self, x: usize, y: usize) -> f64 {
        self.d[y * self.w + x]
    }
    /// with the border repeated outwards
    pub fn ext(&self, x: i64, y: i64) -> f64 {
        self.at(x.clamp(0, self.w as i64 - 1) as usize, y.clamp(0, self.h as i64 - 1) as usize)
    }
    pub fn put(&mut self, x: usize, y: usize, v: f64) {
        self.d[y * self.w + x] = v
    }
    /// round to what an f32 image can hold
    pub fn quantise(mut self) -> Im {
        for v in &mut self.d {
            *v = *v as f32 as f64;
        }
        self
    }
    pub fn buf(&self) -> Buf {
        ImageBuffer::from_raw(self.w as u32, self.h as u32, self.d.iter().map(|v| *v as f32).collect()).unwrap()
    }
    pub fn gfi(&self) -> GrayFloatImage {
        GrayFloatImage(self.buf())
    }
    pub fn pfi(&self) -> akaze_par::image::GrayFloatImage {
        akaze_par::image::GrayFloatImage(self.buf())
    }
    pub fn of(b: &Buf) -> Im {
        Im { w: b.width() as usize, h: b.height() as usize, d: b.as_raw().iter().map(|v| *v as f64).collect() }
    }
    pub fn conv_h(&self, k: &[f64]) -> Im {
        let r = (k.len() / 2) as i64;
        Im::f(self.w, self.h, |x, y| k.iter().enumerate().map(|(i, c)| c * self.ext(x as i64 + i as i64 - r, y as i64)).sum())
    }
    pub fn conv_v(&self, k: &[f64]) -> Im {
        let r = (k.len() / 2) as i64;
        Im::f(self.w, self.h, |x, y| k.iter().enumerate().map(|(i, c)| c * self.ext(x as i64, y as i64 + i as i64 - r)).sum())
    }
    pub fn sep(&self, kh: &[f64], kv: &[f64]) -> Im {
        self.conv_h(kh).conv_v(kv)
    }
    pub fn maxabs(&self) -> f64 {
        self.d.iter().fold(0.0, |a, v| a.max(v.abs()))
    }
    pub fn min(&self) -> f64 {
        self.d.iter().fold(f64::INFINITY, |a, v| a.min(*v))
    }
    pub fn max(&self) -> f64 {
        self.d.iter().fold(f64::NEG_INFINITY, |a, v| a.max(*v))
    }
    pub fn mean(&self) -> f64 {
        self.d.iter().sum::<f64>() / self.d.len() as f64
    }
    /// largest difference; NaN if any is NaN, infinite on different sizes
    pub fn diff(&self, o: &Im) -> f64 {
        if (self.w, self.h) != (o.w, o.h) {
            return f64::INFINITY;
        }
        self.d.iter().zip(&o.d).fold(0.0, |a, (x, y)| {
            let d = (x - y).abs();
            if d.is_nan() || a > d || f64::is_nan(a) {
                if d.is_nan() {
                    d
                } else {
                    a
                }
            } else {
                d
            }
        })
    }
    pub fn transpose(&self) -> Im {
        Im::f(self.h, self.w, |x, y| self.at(y, x))
    }
    pub fn rot90(&self) -> Im {
        // (x, y) of the result shows (y, h-1-x) of this image: a quarter turn clockwise
        Im::f(self.h, self.w, |x, y| self.at(y, self.h - 1 - x))
    }
    pub fn hash(&self) -> u64 {
        crate::fw::hash_f64s(&self.d) ^ (self.w as u64).rotate_left(32) ^ self.h as u64
    }
}
pub fn gauss(r: f64, half: i64) -> Vec<f64> {
    let k: Vec<f64> = (-half..=half).map(|i| (-(i as f64).powi(2) / (2.0 * r * r)).exp()).collect();
    let s: f64 = k.iter().sum();
    k.iter().map(|x| x / s).collect()
}
pub fn blur(im: &Im, r: f64) -> Im {
    let k = gauss(r, (2.0 * r).ceil() as i64);
    im.sep(&k, &k)
}
pub fn abs_sum(k: &[f64]) -> f64 {
    k.iter().map(|x| x.abs()).sum()
}

/// The two photographs that come with the repository.
pub fn photos() -> &'static Vec<Im> {
    static P: OnceLock<Vec<Im>> = OnceLock::new();
    P.get_or_init(|| ["0000000000", "0000000014"].iter().filter_map(|n| png(&format!("/repo/res/{n}.png"))).collect())
}
fn png(path: &str) -> Option<Im> {
    let d = std::fs::read(path).ok()?;
    let (mut p, mut idat, mut w, mut h) = (8, vec![], 0usize, 0usize);
    while p + 8 <= d.len() {
        let n = u32::from_be_bytes(d[p..p + 4].try_into().ok()?) as usize;
        let c = d.get(p + 8..p + 8 + n)?;
        match &d[p + 4..p + 8] {
            b"IHDR" => {
                w = u32::from_be_bytes(c[0..4].try_into().ok()?) as usize;
                h = u32::from_be_bytes(c[4..8].try_into().ok()?) as usize;
                if c[8] != 8 || c[9] != 0 || c[12] != 0 {
                    return None;
                }
            }
            b"IDAT" => idat.extend_from_slice(c),
            _ => {}
        }
        p += 12 + n;
    }
    let raw = miniz_oxide::inflate::decompress_to_vec_zlib(&idat).ok()?;
    let mut prev = vec![0u8; w];
    let mut out = Im::new(w, h);
    for y in 0..h {
        let row = raw.get(y * (w + 1)..(y + 1) * (w + 1))?;
        let mut line = row[1..].to_vec();
        for i in 0..w {
            let a = if i > 0 { line[i - 1] as i32 } else { 0 };
            let b = prev[i] as i32;
            let c = if i > 0 { prev[i - 1] as i32 } else { 0 };
            let v = match row[0] {
                1 => a,
                2 => b,
                3 => (a + b) / 2,
                4 => {
                    let q = a + b - c;
                    let (pa, pb, pc) = ((q - a).abs(), (q - b).abs(), (q - c).abs());
                    if pa <= pb && pa <= pc {
                        a
                    } else if pb <= pc {
                        b
                    } else {
                        c
                    }
                }
                _ => 0,
            };
            line[i] = line[i].wrapping_add(v as u8);
        }
        for x in 0..w {
            out.put(x, y, line[x] as f64 / 255.0);
        }
        prev = line;
    }
    Some(out)
}

pub fn blob(im: &mut Im, cx: f64, cy: f64, s: f64, a: f64) {
    let r = (5.0 * s).ceil() as i64 + 1;
    for y in (cy as i64 - r).max(0)..(cy as i64 + r + 1).min(im.h as i64) {
        for x in (cx as i64 - r).max(0)..(cx as i64 + r + 1).min(im.w as i64) {
            let e = ((x as f64 - cx).powi(2) + (y as f64 - cy).powi(2)) / (2.0 * s * s);
            im.d[y as usize * im.w + x as usize] += a * (-e).exp();
        }
    }
}
/// A picture: (kind, image), values in 0..1
pub fn scene(r: &mut Rng, w: usize, h: usize) -> (&'static str, Im) {
    match r.below(7) {
        0 => ("noise", Im::f(w, h, |_, _| r.f())),
        1 => {
            let mut im = Im::f(w, h, |_, _| 0.5);
            for _ in 0..(w * h / 800 + 1) {
                let (cx, cy, s) = (r.range(0.0, w as f64), r.range(0.0, h as f64), r.log(1.0, 8.0));
                let a = r.range(0.05, 0.4) * r.sign();
                blob(&mut im, cx, cy, s, a);
            }
            ("blobs", clamp01(im))
        }
        2 => {
            let mut im = Im::f(w, h, |_, _| 0.5);
            for _ in 0..(w * h / 500 + 2) {
                let (x0, y0) = (r.below(w), r.below(h));
                let (bw, bh, v) = (r.below(w / 3 + 2) + 1, r.below(h / 3 + 2) + 1, r.f());
                for y in y0..(y0 + bh).min(h) {
                    for x in x0..(x0 + bw).min(w) {
                        im.put(x, y, v);
                    }
                }
            }
            ("rectangles", im)
        }
        3 => {
            let c = r.below(12) + 2;
            let (a, b) = (r.f(), r.f());
            ("checkers", Im::f(w, h, |x, y| if (x / c + y / c) % 2 == 0 { a } else { b }))
        }
        4 => {
            let ws: Vec<(f64, f64, f64)> = (0..6).map(|_| (r.range(-0.6, 0.6), r.range(-0.6, 0.6), r.range(0.0, 6.3))).collect();
            ("waves", Im::f(w, h, |x, y| 0.5 + ws.iter().map(|(a, b, p)| (a * x as f64 + b * y as f64 + p).sin()).sum::<f64>() / 13.0))
        }
        5 => {
            let (mut gx, mut gy) = (r.range(-1.0, 1.0), r.range(-1.0, 1.0));
            gx /= w as f64;
            gy /= h as f64;
            let mut im = Im::f(w, h, |x, y| 0.5 + 0.45 * (gx * x as f64 + gy * y as f64));
            for _ in 0..r.below(6) {
                let (cx, cy, s) = (r.range(0.0, w as f64), r.range(0.0, h as f64), r.log(1.0, 6.0));
                blob(&mut im, cx, cy, s, 0.1);
            }
            ("ramp", clamp01(im))
        }
        _ => {
            let p = photos();
            if p.is_empty() {
                return ("noise", Im::f(w, h, |_, _| r.f()));
            }
            let p = &p[r.below(p.len())];
            let (x0, y0) = (r.below(p.w), r.below(p.h));
            // cropped where it fits, mirrored beyond the edge
            let m = |i: usize, n: usize| {
                let i = i % (2 * n);
                if i < n {
                    i
                } else {
                    2 * n - 1 - i
                }
            };
            ("photo", Im::f(w, h, |x, y| p.at(m(x0 + x, p.w), m(y0 + y, p.h))))
        }
    }
}
fn clamp01(mut im: Im) -> Im {
    for v in &mut im.d {
        *v = v.clamp(0.0, 1.0);
    }
    im
}
pub fn side(r: &mut Rng, lo: usize, hi: usize) -> usize {
    lo + r.below(hi - lo + 1)
}
