//! C31: whole extraction.
use crate::fw::*;
use crate::img::*;
use crate::p_scale::any_options;
use akaze_seq::{Akaze, KeyPoint};
use bitarray::BitArray;
use image::{DynamicImage, ImageBuffer, Luma, LumaA, Rgb, Rgba};
use std::f64::consts::PI;

pub fn c31() -> Prop {
    Prop {
        id: "C31",
        rule: "distinct pictures in which features were found and compared with those of the same picture shifted, scaled in brightness, stored differently, or extracted by more threads",
        assumptions: &["stand-ins for the image, ndarray, nshare, bitarray and primal crates"],
        workloads: vec![
            wl("any-size", 1500, 20000, 0.07, any_size),
            wl("same-result", 100, 1500, 0.5, same_result),
            wl("brightness", 90, 1400, 0.5, brightness),
            wl("shift", 60, 900, 0.5, shift),
            wl("blob", 500, 6000, 0.6, lone_blob),
            wl("storage", 60, 900, 0.5, storage),
        ],
    }
}
type Feats = (Vec<KeyPoint>, Vec<BitArray<64>>);
fn par(a: &Akaze) -> akaze_par::Akaze {
    akaze_par::Akaze {
        maximum_features: a.maximum_features,
        num_sublevels: a.num_sublevels,
        max_octave_evolution: a.max_octave_evolution,
        base_scale_offset: a.base_scale_offset,
        initial_contrast: a.initial_contrast,
        contrast_percentile: a.contrast_percentile,
        contrast_factor_num_bins: a.contrast_factor_num_bins,
        derivative_factor: a.derivative_factor,
        detector_threshold: a.detector_threshold,
        descriptor_channels: a.descriptor_channels,
        descriptor_pattern_size: a.descriptor_pattern_size,
    }
}
fn key(k: &KeyPoint) -> [u64; 7] {
    [k.point.0.to_bits() as u64, k.point.1.to_bits() as u64, k.response.to_bits() as u64, k.size.to_bits() as u64, k.octave as u64, k.class_id as u64, k.angle.to_bits() as u64]
}
fn pkey(k: &akaze_par::KeyPoint) -> [u64; 7] {
    [k.point.0.to_bits() as u64, k.point.1.to_bits() as u64, k.response.to_bits() as u64, k.size.to_bits() as u64, k.octave as u64, k.class_id as u64, k.angle.to_bits() as u64]
}
fn bits(f: &Feats) -> Vec<([u64; 7], [u8; 64])> {
    f.0.iter().zip(&f.1).map(|(k, d)| (key(k), *d.bytes())).collect()
}
/// What holds for the features of any picture.
fn well_formed(c: &mut Case, a: &Akaze, w: usize, h: usize, f: &Feats) {
    let (ks, ds) = f;
    c.check(ks.len() == ds.len(), "one-descriptor-each", || format!("{} key points, {} descriptors", ks.len(), ds.len()));
    c.check(ks.len() <= a.maximum_features, "too-many-features", || format!("{} with a maximum of {}", ks.len(), a.maximum_features));
    c.check(ks.windows(2).all(|p| p[0].response >= p[1].response), "not-sorted", || "responses are not in descending order".into());
    for k in ks {
        let fin = [k.point.0, k.point.1, k.response, k.size, k.angle].iter().all(|v| v.is_finite());
        let inside = k.point.0 >= 0.0 && k.point.1 >= 0.0 && k.point.0 <= w as f32 - 1.0 && k.point.1 <= h as f32 - 1.0;
        c.check(fin && inside, "key-point-outside", || format!("{k:?} in {w}x{h}"));
        c.check(k.response > a.detector_threshold as f32 && k.size > 0.0 && k.angle >= 0.0 && k.angle as f64 <= 2.0 * PI + 1e-6, "key-point-range", || format!("{k:?}"));
        c.check((k.octave as u32) < a.max_octave_evolution, "key-point-octave", || format!("{k:?}"));
    }
    *c.st.bins.entry("features seen").or_default() += ks.len() as u64;
}
fn extract(c: &mut Case, a: &Akaze, im: &Im) -> Option<Feats> {
    let g = im.gfi();
    let f = c.call("extract_from_gray_float_image", || a.extract_from_gray_float_image(&g))?;
    well_formed(c, a, im.w, im.h, &f);
    Some(f)
}
fn options(c: &mut Case) -> Akaze {
    let mut a = if c.rng.chance(0.6) { Akaze::default() } else { any_options(&mut c.rng) };
    a.detector_threshold = c.rng.log(1e-5, 1e-2);
    if c.rng.chance(0.15) {
        a.descriptor_channels = 1 + c.rng.below(3);
    }
    a
}
fn any_size(c: &mut Case) {
    let mut a = options(c);
    if c.rng.chance(0.3) {
        a.maximum_features = c.rng.below(40);
    }
    let dim = |r: &mut Rng| match r.below(5) {
        0 => side(r, 1, 45),
        1 => r.pick(&[1usize, 2, 3, 39, 40, 41, 79, 80, 81, 82, 159, 160, 161]),
        _ => side(r, 40, 150),
    };
    let (w, h) = (dim(&mut c.rng), dim(&mut c.rng));
    let (kind, im) = match c.rng.below(12) {
        0 => {
            let v = c.rng.pick(&[0.0, 0.5, 1.0, 0.3]);
            ("flat", Im::f(w, h, |_, _| v))
        }
        1 => {
            let (x0, y0) = (c.rng.below(w), c.rng.below(h));
            ("one pixel", Im::f(w, h, |x, y| ((x, y) == (x0, y0)) as u8 as f64))
        }
        2 => {
            let x0 = c.rng.below(w);
            ("step", Im::f(w, h, |x, _| (x > x0) as u8 as f64))
        }
        _ => scene(&mut c.rng, w, h),
    };
    c.note("options", &a);
    c.note("image", &(kind, w, h));
    c.bin(if w.min(h) < 40 { "side below 40" } else { "side of 40 or more" });
    let di = DynamicImage::ImageLuma8(ImageBuffer::from_fn(w as u32, h as u32, |x, y| Luma([(im.at(x as usize, y as usize) * 255.0).round() as u8])));
    let Some(f) = c.call("extract", || a.extract(&di)) else { return };
    well_formed(c, &a, w, h, &f);
    if kind == "flat" || w.min(h) < 40 {
        c.check(f.0.is_empty(), "features-of-nothing", || format!("{} features in a {kind} picture of {w}x{h}", f.0.len()));
    }
    if !f.0.is_empty() {
        c.nontrivial(im.hash());
    }
}
/// Sequential and parallel builds, any number of threads, first and second time: the same bits.
fn same_result(c: &mut Case) {
    let mut a = options(c);
    let (w, h) = (side(&mut c.rng, 60, 220), side(&mut c.rng, 60, 220));
    let (kind, im) = scene(&mut c.rng, w, h);
    c.note("options", &a);
    c.note("image", &(kind, w, h));
    let Some(f) = extract(c, &a, &im) else { return };
    let b = bits(&f);
    let Some(f2) = extract(c, &a, &im) else { return };
    c.check(bits(&f2) == b, "second-time-differs", || "the same picture gave other features the second time".into());
    let p = par(&a);
    let g = im.pfi();
    for threads in [1, 2 + c.rng.below(7)] {
        let pool = rayon::ThreadPoolBuilder::new().num_threads(threads).build().unwrap();
        let Some((ks, ds)) = c.call("parallel extract_from_gray_float_image", || pool.install(|| p.extract_from_gray_float_image(&g))) else { return };
        let q: Vec<_> = ks.iter().zip(&ds).map(|(k, d)| (pkey(k), *d.bytes())).collect();
        c.check(q == b, "threads-change-result", || format!("{} features with {threads} threads, {} sequentially, or they differ", q.len(), b.len()));
        c.bin("parallel run compared");
    }
    // a maximum keeps the strongest
    if !f.0.is_empty() {
        a.maximum_features = c.rng.below(f.0.len() + 2);
        let Some(t) = extract(c, &a, &im) else { return };
        let tb = bits(&t);
        c.check(tb.len() <= b.len() && tb[..] == b[..tb.len()], "maximum-keeps-others", || format!("with a maximum of {} the features are not the strongest of all", a.maximum_features));
        c.nontrivial(im.hash());
    }
}
/// Brightness times a power of two, with the threshold following: the same features exactly.
fn brightness(c: &mut Case) {
    let a = options(c);
    let (w, h) = (side(&mut c.rng, 60, 200), side(&mut c.rng, 60, 200));
    let (kind, im) = scene(&mut c.rng, w, h);
    let e = c.rng.pick(&[-6, -3, -2, -1, 1, 2, 4, 7]);
    let s = 2f64.powi(e);
    c.note("options", &a);
    c.note("image", &(kind, w, h, s));
    let Some(f) = extract(c, &a, &im) else { return };
    let bright = Im { w, h, d: im.d.iter().map(|v| v * s).collect() };
    // the threshold is compared in single precision
    let mut a0 = a;
    a0.detector_threshold = a.detector_threshold as f32 as f64;
    let a2 = Akaze { detector_threshold: a0.detector_threshold * s * s, ..a };
    let Some(g) = extract(c, &a2, &bright) else { return };
    let (x, y) = (bits(&f), bits(&g));
    let ok = x.len() == y.len()
        && f.0.iter().zip(&g.0).all(|(p, q)| p.point == q.point && p.angle == q.angle && p.class_id == q.class_id && p.size == q.size && (p.response as f64 * s * s) == q.response as f64)
        && x.iter().zip(&y).all(|(p, q)| p.1 == q.1);
    c.check(ok, "brightness-changes-features", || format!("{} features, {} with brightness and contrast times {s} (or they differ)", x.len(), y.len()));
    if !x.is_empty() {
        c.nontrivial(im.hash());
    }
}
/// The same content elsewhere in a larger flat picture: the same features, elsewhere.
fn shift(c: &mut Case) {
    let mut a = Akaze::default();
    a.max_octave_evolution = 1 + c.rng.below(3) as u32;
    a.num_sublevels = 1 + c.rng.below(4) as u32;
    a.detector_threshold = c.rng.log(1e-5, 3e-3);
    let grid = 1usize << (a.max_octave_evolution - 1);
    let (cw, ch) = (side(&mut c.rng, 20, 60), side(&mut c.rng, 20, 60));
    let (kind, mut content) = scene(&mut c.rng, cw, ch);
    // a regular pattern is full of exact ties, which rounding decides: break them
    for v in content.d.iter_mut() {
        *v = (*v + c.rng.range(-0.02, 0.02)).clamp(0.0, 1.0);
    }
    // what any level can see of the content's surroundings
    let margin = [80usize, 160, 300][a.max_octave_evolution as usize - 1];
    let (dx, dy) = (grid * c.rng.below(1 + 24 / grid), grid * c.rng.below(1 + 24 / grid));
    let mult = |n: usize| n.div_ceil(8) * 8;
    let (w, h) = (mult(cw + 2 * margin + 24), mult(ch + 2 * margin + 24));
    let bg = c.rng.f();
    let make = |ox: usize, oy: usize| Im::f(w, h, |x, y| if x >= ox && y >= oy && x < ox + cw && y < oy + ch { content.at(x - ox, y - oy) } else { bg });
    c.note("options", &a);
    c.note("content", &(kind, cw, ch, w, h, dx, dy));
    let Some(f) = extract(c, &a, &make(margin, margin)) else { return };
    let Some(g) = extract(c, &a, &make(margin + dx, margin + dy)) else { return };
    // features near the border may come or go: leave them out on both sides
    let safe = |k: &KeyPoint, ox: f64, oy: f64| {
        let (x, y) = (k.point.0 as f64 - ox, k.point.1 as f64 - oy);
        let m = 15.0 * k.size as f64 / 2.0 + 12.0 * 2f64.powi(k.octave as i32);
        let lo = m - margin as f64;
        x > lo && y > lo && x + (margin as f64) < (w - 24) as f64 - m && y + (margin as f64) < (h - 24) as f64 - m
    };
    let p: Vec<_> = (0..f.0.len()).filter(|i| safe(&f.0[*i], margin as f64, margin as f64)).map(|i| (f.0[i], f.1[i])).collect();
    let q: Vec<_> = (0..g.0.len()).filter(|i| safe(&g.0[*i], (margin + dx) as f64, (margin + dy) as f64)).map(|i| (g.0[i], g.1[i])).collect();
    if p.len() + q.len() < f.0.len() + g.0.len() {
        c.inconclusive("feature near the border");
    }
    let matched = p
        .iter()
        .filter(|(k, d)| {
            q.iter().any(|(l, e)| {
                (l.point.0 - k.point.0 - dx as f32).abs() < 1e-3
                    && (l.point.1 - k.point.1 - dy as f32).abs() < 1e-3
                    && l.class_id == k.class_id
                    && (l.response - k.response).abs() <= 1e-4 * k.response
                    && { let d = (l.angle - k.angle).abs() as f64; d.min(2.0 * PI - d) < 1e-3 }
                    && e.distance(d) <= 10
            })
        })
        .count();
    // every decision has its ties; a few features on such an edge may differ
    let slack = 1 + p.len() / 30;
    c.check(matched + slack >= p.len() && p.len() + slack >= q.len() && q.len() + slack >= p.len(), "shift-changes-features", || format!("{} features, {} after a shift by ({dx}, {dy}), {matched} of them the same", p.len(), q.len()));
    if p.len() >= 3 && (dx, dy) != (0, 0) {
        c.nontrivial(content.hash() ^ dx as u64 ^ (dy as u64) << 20);
    }
}
/// One round spot is one feature: at its centre, and in proportion to its size.
fn lone_blob(c: &mut Case) {
    let a = Akaze { detector_threshold: 1e-5, ..Default::default() };
    let s = c.rng.log(2.5, 9.0);
    let (w, h) = (side(&mut c.rng, 200, 280), side(&mut c.rng, 200, 280));
    let (cx, cy) = (w as f64 / 2.0 + c.rng.range(-12.0, 12.0), h as f64 / 2.0 + c.rng.range(-12.0, 12.0));
    let amp = c.rng.range(0.1, 0.5) * c.rng.sign();
    let mut im = Im::f(w, h, |_, _| 0.5);
    blob(&mut im, cx, cy, s, amp);
    c.note("spot", &(w, h, cx, cy, s, amp));
    let Some(f) = extract(c, &a, &im) else { return };
    c.note("features", &f.0);
    let near: Vec<&KeyPoint> = f.0.iter().filter(|k| (k.point.0 as f64 - cx).hypot(k.point.1 as f64 - cy) < 0.25 * s + 1.0).collect();
    if !c.check(!near.is_empty(), "spot-not-found", || format!("no feature at the centre of a spot of sigma {s} and amplitude {amp}: {:?}", f.0.iter().map(|k| k.point).collect::<Vec<_>>())) {
        return;
    }
    let best = near.iter().max_by(|p, q| p.response.total_cmp(&q.response)).unwrap();
    c.check(f.0[0].response == best.response, "spot-not-strongest", || format!("strongest feature {:?}, the spot at ({cx}, {cy})", f.0[0]));
    let ratio = best.size as f64 / s;
    c.note("ratio", &ratio);
    c.check((1.1..=3.6).contains(&ratio), "spot-size", || format!("size {} for a spot of sigma {s}", best.size));
    c.nontrivial(im.hash());
}
/// The same grey picture in every format.
fn storage(c: &mut Case) {
    let mut a = options(c);
    a.detector_threshold = c.rng.log(1e-5, 1e-3);
    let (w, h) = (side(&mut c.rng, 60, 150), side(&mut c.rng, 60, 150));
    let (kind, im) = scene(&mut c.rng, w, h);
    c.note("options", &a);
    c.note("image", &(kind, w, h));
    let q = |x: u32, y: u32| (im.at(x as usize, y as usize) * 255.0).round() as u8;
    let (ww, hh) = (w as u32, h as u32);
    let alpha = c.rng.below(256) as u8;
    let list: Vec<(&'static str, DynamicImage)> = vec![
        ("Luma8", DynamicImage::ImageLuma8(ImageBuffer::from_fn(ww, hh, |x, y| Luma([q(x, y)])))),
        ("LumaA8", DynamicImage::ImageLumaA8(ImageBuffer::from_fn(ww, hh, |x, y| LumaA([q(x, y), alpha])))),
        ("Rgb8", DynamicImage::ImageRgb8(ImageBuffer::from_fn(ww, hh, |x, y| Rgb([q(x, y); 3])))),
        ("Rgba8", DynamicImage::ImageRgba8(ImageBuffer::from_fn(ww, hh, |x, y| Rgba([q(x, y), q(x, y), q(x, y), alpha])))),
    ];
    let list16: Vec<(&'static str, DynamicImage)> = vec![
        ("Luma16", DynamicImage::ImageLuma16(ImageBuffer::from_fn(ww, hh, |x, y| Luma([q(x, y) as u16 * 257])))),
        ("LumaA16", DynamicImage::ImageLumaA16(ImageBuffer::from_fn(ww, hh, |x, y| LumaA([q(x, y) as u16 * 257, alpha as u16])))),
        ("Rgb16", DynamicImage::ImageRgb16(ImageBuffer::from_fn(ww, hh, |x, y| Rgb([q(x, y) as u16 * 257; 3])))),
    ];
    let mut first: Option<Vec<_>> = None;
    for (name, di) in list.into_iter().chain(list16) {
        let Some(f) = c.call("extract", || a.extract(&di)) else { return };
        let b = bits(&f);
        match &first {
            None => {
                if !b.is_empty() {
                    c.nontrivial(im.hash());
                }
                first = Some(b);
            }
            Some(x) if !name.contains("16") => {
                c.check(&b == x, "format-changes-features", || format!("{} features as {name}, {} as Luma8, or they differ", b.len(), x.len()));
            }
            Some(x) => {
                // v * 257 / 65535 and v / 255 are one number, which single precision may round twice
                let d = x.len().abs_diff(b.len());
                c.check(d <= 2 + x.len() / 20, "format-changes-features", || format!("{} features as {name}, {} as Luma8", b.len(), x.len()));
            }
        }
    }
}
