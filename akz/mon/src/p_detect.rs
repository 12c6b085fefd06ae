//! C29: detector response and key points.
use crate::fw::*;
use crate::img::*;
use crate::p_scale::any_options;
use akaze_seq::image::GrayFloatImage;
use akaze_seq::monitor::EvolutionStep;
use akaze_seq::{Akaze, KeyPoint};
use std::f64::consts::PI;

const E32: f64 = f32::EPSILON as f64;

pub fn c29() -> Prop {
    Prop {
        id: "C29",
        rule: "distinct level stacks whose response was recomputed, and distinct responses whose key points were each traced to a maximum and whose undisputed maxima were each found",
        assumptions: &["levels are built through the hook behind --cfg cv_monitor or by the harness", "stand-ins for the image, ndarray, nshare, bitarray and primal crates"],
        workloads: vec![
            wl("response", 900, 12000, 0.9, response),
            wl("planted-peaks", 3000, 40000, 0.25, planted),
            wl("pictures", 800, 10000, 0.3, pictures),
        ],
    }
}
fn scharr_kernels(s: usize) -> (Vec<f64>, Vec<f64>) {
    let n = 2 * s + 1;
    let (mut main, mut off) = (vec![0.0; n], vec![0.0; n]);
    main[0] = -1.0;
    main[n - 1] = 1.0;
    // weights 3 : 10 : 3 and a unit slope for a unit ramp
    let norm = 1.0 / (2.0 * s as f64) / 16.0;
    off[0] = 3.0 * norm;
    off[s] = 10.0 * norm;
    off[n - 1] = 3.0 * norm;
    (main, off)
}
fn sigma_of(e: &EvolutionStep, a: &Akaze) -> Option<usize> {
    let s = e.esigma * a.derivative_factor / 2f64.powi(e.octave as i32);
    if (s - s.floor() - 0.5).abs() < 1e-9 {
        return None;
    }
    Some(s.round() as usize)
}
fn response(c: &mut Case) {
    let mut a = any_options(&mut c.rng);
    if c.rng.chance(0.3) {
        a = Akaze::default();
    }
    a.max_octave_evolution = a.max_octave_evolution.min(3);
    let (w, h) = (side(&mut c.rng, 40, 130), side(&mut c.rng, 40, 130));
    let mut ev = a.allocate_evolutions(w as u32, h as u32);
    c.note("options", &a);
    c.note("size", &(w, h));
    let mut hashes = 0u64;
    let mut ims = vec![];
    for e in ev.iter_mut() {
        let (_, im) = scene(&mut c.rng, w >> e.octave, h >> e.octave);
        let im = im.quantise();
        hashes ^= im.hash().rotate_left(3);
        e.Lsmooth = im.gfi();
        ims.push(im);
    }
    if c.call("detector_response", || a.detector_response(&mut ev)).is_none() {
        return;
    }
    for (i, (e, im)) in ev.iter().zip(&ims).enumerate() {
        let Some(s) = sigma_of(e, &a) else { continue };
        if s == 0 {
            continue;
        }
        c.bin(if s == 1 { "derivative scale 1" } else { "derivative scale above 1" });
        let (m, o) = scharr_kernels(s);
        let lx = im.sep(&m, &o);
        let ly = im.sep(&o, &m);
        let (lxx, lyy, lxy) = (lx.sep(&m, &o), ly.sep(&o, &m), lx.sep(&o, &m));
        let big = im.maxabs();
        let unit = big / s as f64;
        let mut all = true;
        for (name, got, want, scale) in [
            ("Lx", &e.Lx, &lx, unit),
            ("Ly", &e.Ly, &ly, unit),
            ("Lxx", &e.Lxx, &lxx, unit / s as f64),
            ("Lyy", &e.Lyy, &lyy, unit / s as f64),
            ("Lxy", &e.Lxy, &lxy, unit / s as f64),
        ] {
            let d = Im::of(&got.0).diff(want);
            all &= c.within(d, 60.0 * E32 * scale, "derivative", || format!("level {i}, scale {s}: {name} is off by {d:e} of {:e}", want.maxabs()));
        }
        let det = Im::of(&e.Ldet.0);
        let s4 = (s as f64).powi(4);
        let want = Im::f(im.w, im.h, |x, y| (lxx.at(x, y) * lyy.at(x, y) - lxy.at(x, y).powi(2)) * s4);
        if all {
            c.within(det.diff(&want), 600.0 * E32 * big * big, "response-is-not-the-hessian-determinant", || format!("level {i}, scale {s}"));
        }
    }
    c.nontrivial(hashes);
}

struct Cand {
    lvl: usize,
    x: usize,
    y: usize,
    resp: f64,
    size: f64,
    px: f64,
    py: f64,
    /// offset of the refined position, none where the refinement leaves the pixel's neighbourhood
    off: Option<(f64, f64)>,
    /// too close to call
    vague: bool,
}
fn refine(l: &Im, x: usize, y: usize) -> (f64, f64, f64) {
    let g = |dx: i64, dy: i64| l.at((x as i64 + dx) as usize, (y as i64 + dy) as usize);
    let (dx, dy) = (0.5 * (g(1, 0) - g(-1, 0)), 0.5 * (g(0, 1) - g(0, -1)));
    let (xx, yy) = (g(1, 0) + g(-1, 0) - 2.0 * g(0, 0), g(0, 1) + g(0, -1) - 2.0 * g(0, 0));
    let xy = 0.25 * (g(1, 1) + g(-1, -1) - g(1, -1) - g(-1, 1));
    let det = xx * yy - xy * xy;
    let (ox, oy) = (-(yy * dx - xy * dy) / det, -(xx * dy - xy * dx) / det);
    let mx = xx.abs().max(yy.abs()).max(xy.abs());
    let err = 1e-5 + 40.0 * E32 * g(0, 0).abs() * mx / det.abs() * (1.0 + ox.abs().max(oy.abs()));
    (ox, oy, err)
}
fn candidates(ev: &[EvolutionStep], dets: &[Im], a: &Akaze) -> Vec<Cand> {
    let mut out = vec![];
    for (lvl, (e, l)) in ev.iter().zip(dets).enumerate() {
        let r = 2f64.powi(e.octave as i32);
        let size = e.esigma * a.derivative_factor;
        let Some(s) = sigma_of(e, a) else { continue };
        let reach = 10.0 * 2f64.sqrt() * s as f64;
        for y in 1..l.h - 1 {
            for x in 1..l.w - 1 {
                let v = l.at(x, y);
                if !(v > a.detector_threshold as f32 as f64) {
                    continue;
                }
                let top = (0..9).all(|k| k == 4 || v > l.at(x + k % 3 - 1, y + k / 3 - 1));
                if !top {
                    continue;
                }
                let edge = |p: f64, n: usize| {
                    let (lo, hi) = (p - reach, p + reach);
                    let out = lo.round() - 1.0 < 0.0 || hi.round() + 1.0 >= n as f64;
                    let tie = |q: f64| ((q - q.floor()) - 0.5).abs() < 1e-3;
                    (out, tie(lo) || tie(hi))
                };
                let (ox, tx) = edge(x as f64, l.w);
                let (oy, ty) = edge(y as f64, l.h);
                if (ox || oy) && !tx && !ty {
                    continue;
                }
                let (dx, dy, err) = refine(l, x, y);
                let worst = dx.abs().max(dy.abs());
                let fits = worst <= 1.0;
                out.push(Cand {
                    lvl,
                    x,
                    y,
                    resp: v,
                    size,
                    px: x as f64 * r + 0.5 * (r - 1.0),
                    py: y as f64 * r + 0.5 * (r - 1.0),
                    off: fits.then_some((dx, dy)),
                    vague: tx || ty || !((worst - 1.0).abs() > err.max(1e-3)),
                });
            }
        }
    }
    out
}
fn orientation(c: &mut Case, i: usize, kp: &KeyPoint, e: &EvolutionStep) {
    let r = 2f64.powi(e.octave as i32);
    let s = (0.5 * kp.size as f64 / r).round();
    let (xf, yf) = (kp.point.0 as f64 / r, kp.point.1 as f64 / r);
    let tie = |q: f64| ((q - q.floor()) - 0.5).abs() < 1e-4;
    if tie(xf) || tie(yf) || tie(0.5 * kp.size as f64 / r) {
        c.inconclusive("orientation sample between two pixels");
        return;
    }
    let mut v = vec![];
    for j in -5i32..=5 {
        for i in -5i32..=5 {
            if i * i + j * j < 36 {
                let (x, y) = ((xf + i as f64 * s).round() as usize, (yf + j as f64 * s).round() as usize);
                if x >= e.Lx.width() || y >= e.Lx.height() {
                    return;
                }
                let g = (-((i * i + j * j) as f64) / 12.5).exp() / (2.0 * PI * 6.25);
                let (gx, gy) = (g * e.Lx.get(x, y) as f64, g * e.Ly.get(x, y) as f64);
                v.push((gx, gy, gy.atan2(gx).rem_euclid(2.0 * PI)));
            }
        }
    }
    let total: f64 = v.iter().map(|a| a.0.hypot(a.1)).sum();
    // sums over windows of 60 degrees that start every 0.15 rad; which side of a window's edge an
    // angle within rounding of it falls is open
    let mut wins = vec![];
    let mut a1 = 0.0f32;
    while a1 < 2.0 * std::f32::consts::PI {
        let st = a1 as f64;
        let (mut sx, mut sy, mut open) = (0.0, 0.0, 0.0);
        for (gx, gy, ang) in &v {
            let d = (ang - st).rem_euclid(2.0 * PI);
            let w = PI / 3.0;
            let near = |q: f64| (d - q).abs() < 3e-6 || (d - q - 2.0 * PI).abs() < 3e-6 || (d - q + 2.0 * PI).abs() < 3e-6;
            if near(0.0) || near(w) {
                open += gx.hypot(*gy);
            }
            if d < w {
                sx += gx;
                sy += gy;
            }
        }
        wins.push((sx, sy, open));
        a1 += 0.15;
    }
    let best = wins.iter().map(|w| w.0.hypot(w.1) - w.2).fold(0.0, f64::max);
    if best < 1e-6 * total || total == 0.0 || best < 1e-15 {
        c.inconclusive("no gradient around the key point");
        return;
    }
    // a window's sum is known up to the gradients on its edge
    let ok = wins.iter().any(|w| {
        let l = w.0.hypot(w.1);
        let d = (w.1.atan2(w.0) - kp.angle as f64).rem_euclid(2.0 * PI);
        let slack = if w.2 < l { (w.2 / l).asin() } else { PI };
        l + w.2 >= best * (1.0 - 1e-4) && d.min(2.0 * PI - d) < 1e-3 + slack
    });
    if wins.iter().any(|w| w.2 > 0.0) {
        c.bin("gradient on the edge of a window");
    }
    if v.iter().any(|a| a.1 == 0.0 && a.0 > 0.0) {
        c.bin("gradient exactly along the x axis");
    }
    let top = wins.iter().max_by(|p, q| p.0.hypot(p.1).total_cmp(&q.0.hypot(q.1))).unwrap();
    c.check(ok, "orientation", || format!("key point {i} {kp:?}: the strongest window points to {}", top.1.atan2(top.0).rem_euclid(2.0 * PI)));
    c.bin("orientation recomputed");
}
/// All that must hold between the responses and the key points found in them.
fn judge(c: &mut Case, a: &Akaze, ev: &[EvolutionStep], kps: &[KeyPoint]) -> (usize, usize) {
    let dets: Vec<Im> = ev.iter().map(|e| Im::of(&e.Ldet.0)).collect();
    let cands = candidates(ev, &dets, a);
    let mut found = vec![0usize; cands.len()];
    for (i, kp) in kps.iter().enumerate() {
        if !c.check(kp.class_id < ev.len(), "level-of-key-point", || format!("{kp:?} with {} levels", ev.len())) {
            continue;
        }
        let e = &ev[kp.class_id];
        let r = 2f64.powi(e.octave as i32);
        let (u, v) = ((kp.point.0 as f64 - 0.5 * (r - 1.0)) / r, (kp.point.1 as f64 - 0.5 * (r - 1.0)) / r);
        c.check(kp.octave == e.octave as usize, "octave-of-key-point", || format!("{kp:?} on a level of octave {}", e.octave));
        c.within((kp.size as f64 - 2.0 * e.esigma * a.derivative_factor).abs(), 1e-5 * kp.size as f64, "size-of-key-point", || format!("{kp:?}, sigma {}", e.esigma));
        c.check(kp.angle >= 0.0 && kp.angle as f64 <= 2.0 * PI + 1e-6, "angle-range", || format!("{kp:?}"));
        c.check(kp.response > a.detector_threshold as f32, "below-threshold", || format!("{kp:?}, threshold {}", a.detector_threshold));
        // the maximum it came from
        let from = cands.iter().position(|q| q.lvl == kp.class_id && q.resp == kp.response as f64 && (q.x as f64 - u).abs() <= 1.001 && (q.y as f64 - v).abs() <= 1.001);
        let Some(k) = from else {
            c.fail("not-a-maximum", format!("key point {i} {kp:?} is at ({u}, {v}) of level {}, where no admissible maximum of its response is", kp.class_id));
            continue;
        };
        found[k] += 1;
        let q = &cands[k];
        let (dx, dy, err) = refine(&dets[q.lvl], q.x, q.y);
        let tol = err + 4.0 * E32 * (kp.point.0.abs().max(kp.point.1.abs()) as f64 + 1.0) / r;
        if tol < 0.05 {
            let d = (u - q.x as f64 - dx).abs().max((v - q.y as f64 - dy).abs());
            c.within(d, tol, "refined-position", || format!("key point {i}: offset ({}, {}) from its maximum, the parabola's top is at ({dx}, {dy})", u - q.x as f64, v - q.y as f64));
        } else {
            c.inconclusive("flat top");
        }
        orientation(c, i, kp, e);
    }
    for (k, n) in found.iter().enumerate() {
        c.check(*n <= 1, "maximum-reported-twice", || format!("({}, {}) of level {}", cands[k].x, cands[k].y, cands[k].lvl));
    }
    // rivals: maxima on the same or a neighbouring level within the size of a key point
    let n = cands.len();
    let mut rivals: Vec<Vec<(usize, bool)>> = vec![vec![]; n];
    for i in 0..n {
        for j in i + 1..n {
            let (p, q) = (&cands[i], &cands[j]);
            if q.lvl > p.lvl + 1 {
                break;
            }
            let d = (p.px - q.px).hypot(p.py - q.py);
            let r = 2f64.powi(ev[q.lvl].octave as i32);
            if d > q.size + 0.75 * r {
                continue;
            }
            let sure = d < p.size - 0.75 * r;
            rivals[i].push((j, sure));
            rivals[j].push((i, sure));
        }
    }
    let (mut alone, mut pairs) = (0, 0);
    for i in 0..n {
        let p = &cands[i];
        if p.vague {
            c.inconclusive("maximum at the edge of acceptance");
            continue;
        }
        match rivals[i].len() {
            0 => {
                let want = p.off.is_some() as usize;
                c.check(found[i] == want, "undisputed-maximum", || format!("({}, {}) of level {} with response {:e} and offset {:?} has no rival, and is reported {} times", p.x, p.y, p.lvl, p.resp, p.off, found[i]));
                alone += 1;
            }
            1 if rivals[i][0].1 && rivals[rivals[i][0].0].len() == 1 => {
                let q = &cands[rivals[i][0].0];
                if q.vague || q.resp == p.resp {
                    c.inconclusive("undecided pair");
                    continue;
                }
                let want = (p.off.is_some() && p.resp > q.resp) as usize;
                c.check(found[i] == want, "pair-of-maxima", || {
                    format!("({}, {}) of level {} with response {:e} and offset {:?} is reported {} times; its one rival is ({}, {}) of level {} with {:e}", p.x, p.y, p.lvl, p.resp, p.off, found[i], q.x, q.y, q.lvl, q.resp)
                });
                pairs += 1;
                c.bin(if p.lvl == q.lvl { "pair on one level" } else { "pair on neighbouring levels" });
            }
            _ => c.inconclusive("several rivals"),
        }
    }
    *c.st.bins.entry("undisputed maxima").or_default() += alone;
    *c.st.bins.entry("key points traced to their maximum").or_default() += kps.len() as u64;
    (alone as usize, pairs)
}
fn planted(c: &mut Case) {
    let mut a = if c.rng.chance(0.5) { Akaze::default() } else { any_options(&mut c.rng) };
    a.max_octave_evolution = a.max_octave_evolution.min(4);
    a.detector_threshold = c.rng.log(1e-4, 1e-1);
    let hi = if c.rng.chance(0.3) { 400 } else { 220 };
    let (w, h) = (side(&mut c.rng, 60, hi), side(&mut c.rng, 60, hi));
    c.note("options", &a);
    c.note("size", &(w, h));
    let mut ev = a.allocate_evolutions(w as u32, h as u32);
    let thr = a.detector_threshold;
    // where peaks go, in picture coordinates, so that levels compete for them
    let spots: Vec<(f64, f64)> = (0..1 + c.rng.below(8)).map(|_| (c.rng.range(0.1, 0.9) * w as f64, c.rng.range(0.1, 0.9) * h as f64)).collect();
    let mut hs = 0u64;
    for e in ev.iter_mut() {
        let r = 2f64.powi(e.octave as i32);
        let (lw, lh) = (w >> e.octave, h >> e.octave);
        let mut d = Im::f(lw, lh, |_, _| 0.2 * thr * c.rng.f());
        for s in &spots {
            if c.rng.chance(0.35) {
                let (jx, jy) = (c.rng.range(-2.0, 2.0) * r, c.rng.range(-2.0, 2.0) * r);
                let amp = thr * c.rng.log(0.3, 50.0);
                blob(&mut d, ((s.0 + jx) / r).max(0.0), ((s.1 + jy) / r).max(0.0), c.rng.range(0.8, 2.5), amp);
            }
        }
        if c.rng.chance(0.1) {
            let (x, y) = (c.rng.below(lw), c.rng.below(lh));
            let v = thr * c.rng.log(0.9, 1.2);
            d.put(x, y, v);
        }
        let d = d.quantise();
        hs ^= d.hash().rotate_left(5);
        e.Ldet = d.gfi();
        let amp = c.rng.log(1e-3, 1.0);
        let t = (c.rng.range(-1.0, 1.0), c.rng.range(-1.0, 1.0));
        // gradients of drawings: along the axes, or all in one direction
        let kind = c.rng.below(6);
        let g = |t: f64, c: &mut Case| {
            let d = (0..lw * lh).map(|_| match kind {
                0 => [-1.0, 0.0, 1.0][c.rng.below(3)] + t.round(),
                1 => t.round(),
                _ => t + c.rng.range(-1.0, 1.0),
            });
            let d = d.map(|v| amp * v).collect();
            Im { w: lw, h: lh, d }.gfi()
        };
        e.Lx = g(t.0, c);
        e.Ly = g(t.1, c);
        e.Lt = GrayFloatImage::new(lw, lh);
    }
    let Some(kps) = c.call("detect_keypoints", || a.detect_keypoints(&ev)) else { return };
    c.note("key points", &kps);
    let (n, m) = judge(c, &a, &ev, &kps);
    if n + m > 0 {
        c.nontrivial(hs);
    }
}
fn pictures(c: &mut Case) {
    let mut a = if c.rng.chance(0.6) { Akaze::default() } else { any_options(&mut c.rng) };
    a.detector_threshold = c.rng.log(1e-5, 1e-2);
    let (w, h) = (side(&mut c.rng, 60, 240), side(&mut c.rng, 60, 240));
    let (mut kind, mut im) = scene(&mut c.rng, w, h);
    if c.rng.chance(0.03) {
        let v = c.rng.pick(&[0.0, 0.3, 1.0]);
        im = Im::f(w, h, |_, _| v);
        kind = "flat";
    }
    c.note("options", &a);
    c.note("image", &(kind, w, h));
    let g = im.gfi();
    let Some(mut ev) = c.call("scale space", || a.monitor_scale_space(&g)) else { return };
    let Some(kps) = c.call("find_image_keypoints", || a.find_image_keypoints(&mut ev)) else { return };
    let nan = ev.iter().position(|e| e.Ldet.0.iter().any(|v| !v.is_finite()));
    if !c.check(nan.is_none(), "response-not-finite", || format!("level {}", nan.unwrap())) {
        return;
    }
    c.note("key points", &kps.len());
    let (n, m) = judge(c, &a, &ev, &kps);
    if n + m > 0 {
        c.bin(kind);
        c.nontrivial(im.hash());
    }
}
