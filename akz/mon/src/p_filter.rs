//! C27: filters, kernels, halving, conversion.
use crate::fw::*;
use crate::img::*;
use akaze_seq::image as ai;
use akaze_seq::image::GrayFloatImage;
use image::{DynamicImage, ImageBuffer, Luma, LumaA, Rgb, Rgba};

const E32: f64 = f32::EPSILON as f64;

pub fn c27() -> Prop {
    Prop {
        id: "C27",
        rule: "distinct images and kernels whose filtered result was compared pixel by pixel with a direct convolution in f64",
        assumptions: &["stand-ins for the image, ndarray, nshare, bitarray and primal crates, which are not available offline"],
        workloads: vec![
            wl("filters", 40000, 900000, 0.9, filters),
            wl("gaussian", 12000, 300000, 0.9, gaussian),
            wl("halving", 12000, 300000, 0.6, halving),
            wl("conversion", 6000, 120000, 0.9, conversion),
        ],
    }
}
fn any_image(c: &mut Case, lo: usize) -> Im {
    let r = &mut c.rng;
    let dim = |r: &mut Rng| match r.below(4) {
        0 => side(r, lo, 8.max(lo)),
        1 => (r.pick(&[15usize, 16, 17, 31, 32, 33, 47, 48, 49, 64])).max(lo),
        _ => side(r, lo, 60),
    };
    let (w, h) = (dim(r), dim(r));
    let im = match r.below(8) {
        0 => {
            let v = r.range(-2.0, 2.0);
            Im::f(w, h, |_, _| v)
        }
        1 => {
            let (px, py, v) = (r.below(w), r.below(h), r.log(1e-6, 1e6) * r.sign());
            Im::f(w, h, |x, y| if (x, y) == (px, py) { v } else { 0.0 })
        }
        2 => {
            let s = r.log(1e-12, 1e12);
            Im::f(w, h, |_, _| s * r.range(-1.0, 1.0))
        }
        3 => Im::f(w, h, |x, y| x as f64 - 0.7 * y as f64),
        _ => scene(r, w, h).1,
    };
    im.quantise()
}
fn any_kernel(c: &mut Case) -> (Vec<f32>, Vec<f64>) {
    let r = &mut c.rng;
    let wide = if r.chance(0.1) { 40 } else { 9 };
    let n = 2 * r.below(wide) + 1;
    let k: Vec<f32> = match r.below(4) {
        0 => {
            let p = r.below(n);
            (0..n).map(|i| if i == p { 1.0 } else { 0.0 }).collect()
        }
        1 => (0..n).map(|_| 1.0 / n as f32).collect(),
        _ => (0..n).map(|_| r.range(-1.0, 1.0) as f32).collect(),
    };
    let k64 = k.iter().map(|x| *x as f64).collect();
    (k, k64)
}
fn cmp(c: &mut Case, got: &Buf, want: &Im, tol: f64, sig: &'static str, what: &str) {
    let got = Im::of(got);
    if !c.check((got.w, got.h) == (want.w, want.h), "filter-changes-size", || format!("{what}: {}x{} became {}x{}", want.w, want.h, got.w, got.h)) {
        return;
    }
    let d = got.diff(want);
    c.within(d, tol, sig, || {
        let i = (0..got.d.len()).max_by(|a, b| (got.d[*a] - want.d[*a]).abs().total_cmp(&(got.d[*b] - want.d[*b]).abs())).unwrap();
        format!("{what}, image {}x{}: pixel ({}, {}) is {:e}, should be {:e}", got.w, got.h, i % got.w, i / got.w, got.d[i], want.d[i])
    });
}
fn filters(c: &mut Case) {
    let im = any_image(c, 1);
    let (kh, kh64) = any_kernel(c);
    let (kv, kv64) = any_kernel(c);
    c.note("size", &(im.w, im.h));
    c.note("kernels", &(&kh, &kv));
    let b = im.buf();
    let m = im.maxabs();
    let tol = |k: &[f64], m: f64| (k.len() as f64 + 4.0) * E32 * abs_sum(k) * m + 1e-40;
    if kh.len() / 2 >= im.w || kv.len() / 2 >= im.h {
        c.bin("kernel reaches beyond the whole image");
    }
    if im.w == 1 || im.h == 1 {
        c.bin("one pixel wide or high");
    }
    if let Some(g) = c.call("horizontal_filter", || ai::horizontal_filter(&b, &kh)) {
        cmp(c, &g, &im.conv_h(&kh64), tol(&kh64, m), "horizontal-filter", &format!("kernel of {}", kh.len()));
    }
    if let Some(g) = c.call("vertical_filter", || ai::vertical_filter(&b, &kv)) {
        cmp(c, &g, &im.conv_v(&kv64), tol(&kv64, m), "vertical-filter", &format!("kernel of {}", kv.len()));
    }
    if let Some(g) = c.call("separable_filter", || ai::separable_filter(&b, &kh, &kv)) {
        let t = tol(&kh64, m) * abs_sum(&kv64) + tol(&kv64, m * abs_sum(&kh64));
        cmp(c, &g, &im.sep(&kh64, &kv64), t, "separable-filter", &format!("kernels of {} and {}", kh.len(), kv.len()));
    }
    c.nontrivial(im.hash() ^ hash_f64s(&kh64) ^ hash_f64s(&kv64).rotate_left(7));
}
fn gaussian(c: &mut Case) {
    let r = match c.rng.below(4) {
        0 => c.rng.log(0.05, 0.5),
        1 => c.rng.pick(&[0.5, 1.0, 1.5, 1.6, 2.0, 2.5, 3.0]),
        _ => c.rng.range(0.3, 6.0),
    } as f32;
    let half = c.rng.below(12) as i64;
    let n = 2 * half as usize + 1;
    c.note("sigma and size", &(r, n));
    if let Some(k) = c.call("gaussian_kernel", || ai::gaussian_kernel(r, n)) {
        let want = gauss(r as f64, half);
        c.check(k.len() == n, "gaussian-kernel-size", || format!("{} values instead of {n}", k.len()));
        if k.len() == n {
            let d = k.iter().zip(&want).map(|(a, b)| (*a as f64 - b).abs()).fold(0.0, f64::max);
            c.within(d, 1e-6, "gaussian-kernel", || format!("sigma {r}, size {n}: {k:?} instead of {want:?}"));
            let s: f64 = k.iter().map(|x| *x as f64).sum();
            c.within((s - 1.0).abs(), 1e-6, "gaussian-kernel-sum", || format!("sum {s}"));
            c.check((0..n).all(|i| k[i] == k[n - 1 - i]), "gaussian-kernel-symmetry", || format!("{k:?}"));
        }
    }
    let im = any_image(c, 1);
    c.note("size", &(im.w, im.h));
    let g = im.gfi();
    // where twice sigma is a whole number but for rounding, either radius may be taken
    let two = 2.0 * r as f64;
    if (two - two.round()).abs() < 1e-6 && two != two.round() {
        c.inconclusive("kernel radius");
        return;
    }
    if let Some(o) = c.call("gaussian_blur", || ai::gaussian_blur(&g, r)) {
        let m = im.maxabs();
        cmp(c, &o.0, &blur(&im, r as f64), (4.0 * r as f64 + 12.0) * 4.0 * E32 * m + 1e-40, "gaussian-blur", &format!("sigma {r}"));
    }
    c.nontrivial(im.hash() ^ r.to_bits() as u64);
}
fn halving(c: &mut Case) {
    let im = any_image(c, 2);
    c.note("size", &(im.w, im.h));
    let g = im.gfi();
    let Some(o) = c.call("half_size", || g.half_size()) else { return };
    let o = Im::of(&o.0);
    let (w, h) = (im.w / 2, im.h / 2);
    if !c.check((o.w, o.h) == (w, h), "half-size-dimensions", || format!("{}x{} halved to {}x{}", im.w, im.h, o.w, o.h)) {
        return;
    }
    c.bin(match (im.w % 2, im.h % 2) {
        (0, 0) => "even width and height",
        (1, 0) => "odd width",
        (0, _) => "odd height",
        _ => "odd width and height",
    });
    let m = im.maxabs();
    for y in 0..h {
        for x in 0..w {
            let xe = if x + 1 == w { im.w } else { 2 * x + 2 };
            let ye = if y + 1 == h { im.h } else { 2 * y + 2 };
            let tile: Vec<f64> = (2 * y..ye).flat_map(|v| (2 * x..xe).map(move |u| (u, v))).map(|(u, v)| im.at(u, v)).collect();
            let v = o.at(x, y);
            if xe == 2 * x + 2 && ye == 2 * y + 2 {
                let want = tile.iter().sum::<f64>() / 4.0;
                c.within((v - want).abs(), 4.0 * E32 * m + 1e-40, "half-size-tile", || format!("{}x{}: pixel ({x}, {y}) is {v:e}, the mean of its tile is {want:e}", im.w, im.h));
            } else {
                let lo = tile.iter().cloned().fold(f64::INFINITY, f64::min);
                let hi = tile.iter().cloned().fold(f64::NEG_INFINITY, f64::max);
                let out = (lo - v).max(v - hi);
                c.within(if out.is_nan() { out } else { out.max(0.0) }, 4.0 * E32 * m + 1e-40, "half-size-border-tile", || format!("{}x{}: border pixel ({x}, {y}) is {v:e}, outside its tile's {lo:e}..{hi:e}", im.w, im.h));
            }
        }
    }
    c.nontrivial(im.hash());
}
fn conversion(c: &mut Case) {
    let (w, h) = (side(&mut c.rng, 1, 20), side(&mut c.rng, 1, 20));
    let hue = c.rng.chance(0.3);
    let px: Vec<[f64; 3]> = (0..w * h)
        .map(|_| {
            let v = if c.rng.chance(0.1) { c.rng.pick(&[0.0, 1.0]) } else { c.rng.f() };
            if hue {
                [v, c.rng.f(), c.rng.f()]
            } else {
                [v; 3]
            }
        })
        .collect();
    let a = c.rng.f();
    let q8 = |v: f64| (v * 255.0).round() as u8;
    let q16 = |v: f64| (v * 65535.0).round() as u16;
    let (ww, hh) = (w as u32, h as u32);
    let at = |x: u32, y: u32| px[(y * ww + x) as usize];
    // (name, image, full scale of a channel, colour)
    let list: Vec<(&'static str, DynamicImage, f64, bool)> = vec![
        ("Luma8", DynamicImage::ImageLuma8(ImageBuffer::from_fn(ww, hh, |x, y| Luma([q8(at(x, y)[0])]))), 255.0, false),
        ("LumaA8", DynamicImage::ImageLumaA8(ImageBuffer::from_fn(ww, hh, |x, y| LumaA([q8(at(x, y)[0]), q8(a)]))), 255.0, false),
        ("Rgb8", DynamicImage::ImageRgb8(ImageBuffer::from_fn(ww, hh, |x, y| Rgb(at(x, y).map(q8)))), 255.0, true),
        ("Rgba8", DynamicImage::ImageRgba8(ImageBuffer::from_fn(ww, hh, |x, y| { let p = at(x, y).map(q8); Rgba([p[0], p[1], p[2], q8(a)]) })), 255.0, true),
        ("Luma16", DynamicImage::ImageLuma16(ImageBuffer::from_fn(ww, hh, |x, y| Luma([q16(at(x, y)[0])]))), 65535.0, false),
        ("LumaA16", DynamicImage::ImageLumaA16(ImageBuffer::from_fn(ww, hh, |x, y| LumaA([q16(at(x, y)[0]), q16(a)]))), 65535.0, false),
        ("Rgb16", DynamicImage::ImageRgb16(ImageBuffer::from_fn(ww, hh, |x, y| Rgb(at(x, y).map(q16)))), 65535.0, true),
        ("Rgba16", DynamicImage::ImageRgba16(ImageBuffer::from_fn(ww, hh, |x, y| { let p = at(x, y).map(q16); Rgba([p[0], p[1], p[2], q16(a)]) })), 65535.0, true),
        ("Rgb32F", DynamicImage::ImageRgb32F(ImageBuffer::from_fn(ww, hh, |x, y| Rgb(at(x, y).map(|v| v as f32)))), 0.0, true),
        ("Rgba32F", DynamicImage::ImageRgba32F(ImageBuffer::from_fn(ww, hh, |x, y| { let p = at(x, y).map(|v| v as f32); Rgba([p[0], p[1], p[2], a as f32]) })), 0.0, true),
    ];
    c.note("size", &(w, h));
    for (name, di, full, colour) in list {
        let Some(g) = c.call("from_dynamic", || GrayFloatImage::from_dynamic(&di)) else { continue };
        if !c.check((g.width(), g.height()) == (w, h), "conversion-size", || format!("{name}: {w}x{h} became {}x{}", g.width(), g.height())) {
            continue;
        }
        for y in 0..h {
            for x in 0..w {
                let v = g.get(x, y) as f64;
                let p = px[y * w + x].map(|v| if full > 0.0 { (v * full).round() / full } else { v as f32 as f64 });
                // one grey step for the integer rounding of colour conversions
                let step = if full > 0.0 && colour { 1.0 / full } else { 0.0 } + 1e-6;
                let (lo, hi) = if colour { (p.iter().cloned().fold(f64::INFINITY, f64::min), p.iter().cloned().fold(0.0, f64::max)) } else { (p[0], p[0]) };
                c.check(v >= lo - step && v <= hi + step, "conversion-value", || format!("{name}: pixel ({x}, {y}) {p:?} became {v}"));
            }
        }
    }
    // accessors agree on which index is which
    let mut g = GrayFloatImage::new(w, h);
    for y in 0..h {
        for x in 0..w {
            g.put(x, y, px[y * w + x][0] as f32);
        }
    }
    let arr = g.ref_array2();
    c.check(arr.dim() == (h, w) && g.zero_array().dim() == (h, w), "array-shape", || format!("{w}x{h}: {:?}", arr.dim()));
    let ok = (0..h).all(|y| (0..w).all(|x| g.get(x, y) == px[y * w + x][0] as f32 && arr[(y, x)] == g.get(x, y)));
    c.check(ok, "pixel-access", || "put, get and array view disagree".into());
    let back = GrayFloatImage::from_array2(arr.to_owned());
    c.check(Im::of(&back.0).diff(&Im::of(&g.0)) == 0.0, "array-round-trip", || "from_array2(ref_array2) differs".into());
    c.nontrivial(hash_f64s(&px.iter().map(|p| p[0]).collect::<Vec<_>>()));
}
