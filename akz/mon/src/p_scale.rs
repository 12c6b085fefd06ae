//! C28: schedule of the scale space and what diffusion does.
use crate::fw::*;
use crate::img::*;
use akaze_seq::Akaze;

pub fn c28() -> Prop {
    Prop {
        id: "C28",
        rule: "distinct configurations whose schedule was compared with its definition, and distinct images whose every level was re-derived from the level before",
        assumptions: &["the levels are read through the hook behind --cfg cv_monitor", "stand-ins for the image, ndarray, nshare, bitarray and primal crates"],
        workloads: vec![wl("schedule", 6000, 100000, 0.25, schedule), wl("diffusion", 1200, 12000, 0.5, diffusion)],
    }
}
pub fn any_options(r: &mut Rng) -> Akaze {
    Akaze {
        num_sublevels: 1 + r.below(8) as u32,
        max_octave_evolution: 1 + r.below(6) as u32,
        base_scale_offset: r.range(0.8, 3.0),
        contrast_percentile: r.range(0.2, 0.95),
        contrast_factor_num_bins: 20 + r.below(500),
        derivative_factor: r.range(1.0, 2.5),
        ..Default::default()
    }
}
fn schedule(c: &mut Case) {
    let mut a = any_options(&mut c.rng);
    if c.rng.chance(0.3) {
        a.num_sublevels = 1 + c.rng.below(40) as u32;
    }
    if c.rng.chance(0.3) {
        a.base_scale_offset = c.rng.log(0.05, 20.0);
    }
    if c.rng.chance(0.2) {
        a.max_octave_evolution = c.rng.below(12) as u32;
    }
    if c.rng.chance(0.2) {
        a = Akaze::default();
    }
    let dim = |r: &mut Rng| match r.below(4) {
        0 => 35 + r.below(50) as u32,
        1 => r.pick(&[39u32, 40, 41, 79, 80, 81, 159, 160, 161, 319, 320, 640, 1023, 1024]),
        2 => 40 + r.below(5000) as u32,
        _ => r.below(700) as u32,
    };
    let (w, h) = (dim(&mut c.rng), dim(&mut c.rng));
    c.note("options", &a);
    c.note("size", &(w, h));
    let Some(ev) = c.call("allocate_evolutions", || a.allocate_evolutions(w, h)) else { return };
    // the definition
    let mut want = vec![];
    for o in 0..a.max_octave_evolution {
        let s = (w >> o).min(h >> o);
        if s < 40 {
            break;
        }
        let n = if s < 80 { 1 } else { a.num_sublevels };
        for l in 0..n {
            want.push((o, l, a.base_scale_offset * 2f64.powf(o as f64 + l as f64 / a.num_sublevels as f64)));
        }
    }
    let have: Vec<(u32, u32, f64)> = ev.iter().map(|e| (e.octave, e.sublevel, e.esigma)).collect();
    c.note("levels", &have);
    let same = have.len() == want.len() && have.iter().zip(&want).all(|(x, y)| x.0 == y.0 && x.1 == y.1 && (x.2 - y.2).abs() <= 1e-12 * y.2);
    if !c.check(same, "levels", || format!("{w}x{h}, {a:?}: levels {have:?} instead of {want:?}")) {
        return;
    }
    c.check(have.windows(2).all(|p| p[0].2 < p[1].2), "sigma-not-increasing", || format!("{have:?}"));
    let mut steps = 0;
    for (i, e) in ev.iter().enumerate() {
        c.within((e.etime - e.esigma * e.esigma / 2.0).abs(), 1e-12 * e.etime, "evolution-time", || format!("level {i}: time {} for sigma {}", e.etime, e.esigma));
        if i == 0 {
            c.check(e.fed_tau_steps.is_empty(), "first-level-is-diffused", || format!("{:?}", e.fed_tau_steps));
            continue;
        }
        let t = e.etime - ev[i - 1].etime;
        let tau = &e.fed_tau_steps;
        steps += tau.len();
        if tau.len() == 1 {
            c.bin("single-step level");
        }
        c.check(tau.iter().all(|x| *x > 0.0 && x.is_finite()), "step-not-positive", || format!("level {i}: {tau:?}"));
        let s: f64 = tau.iter().sum();
        c.within((s - t).abs(), 1e-9 * t, "steps-do-not-add-up", || format!("level {i}: steps add up to {s}, the level is {t} after the one before ({a:?})"));
        // the least number of steps with which a cycle of stability limit 1/4 reaches t: n (n + 1) / 12 >= t
        let n = tau.len() as f64;
        let fuzz = 1e-6 * (1.0 + t);
        c.check(n * (n + 1.0) / 12.0 >= t - fuzz, "too-few-steps", || format!("level {i}: {n} steps for {t}"));
        c.check((n - 1.0) * n / 12.0 < t + fuzz, "too-many-steps", || format!("level {i}: {n} steps for {t}"));
        // the step sizes are those of one cycle, in some order
        let scale = 12.0 * t / (n * (n + 1.0));
        let mut f: Vec<f64> = (0..tau.len()).map(|k| scale / 8.0 / (std::f64::consts::PI * (2.0 * k as f64 + 1.0) / (4.0 * n + 2.0)).cos().powi(2)).collect();
        let mut g = tau.clone();
        f.sort_by(f64::total_cmp);
        g.sort_by(f64::total_cmp);
        let d = f.iter().zip(&g).map(|(x, y)| (x - y).abs() / x).fold(0.0, f64::max);
        c.within(d, 1e-9, "step-sizes", || format!("level {i}: sorted steps {g:?} instead of {f:?}"));
    }
    if steps > 0 {
        c.nontrivial(hash_f64s(&[w as f64, h as f64, a.base_scale_offset, a.num_sublevels as f64, a.max_octave_evolution as f64]));
    }
}

fn scharr(im: &Im) -> (Im, Im) {
    let (d, s) = ([-1.0, 0.0, 1.0], [3.0, 10.0, 3.0]);
    (im.sep(&d, &s), im.sep(&s, &d))
}
/// One explicit step of dL/dt = div(c grad L), no flow across the border.
fn step(l: &Im, c: &Im, tau: f64) -> Im {
    let mut o = l.clone();
    for y in 0..l.h {
        for x in 0..l.w {
            for (u, v) in [(x + 1, y), (x, y + 1)] {
                if u < l.w && v < l.h {
                    let f = 0.5 * tau * (c.at(x, y) + c.at(u, v)) * (l.at(u, v) - l.at(x, y));
                    o.d[y * l.w + x] += f;
                    o.d[v * l.w + u] -= f;
                }
            }
        }
    }
    o
}
fn diffusion(c: &mut Case) {
    let mut a = if c.rng.chance(0.4) { Akaze::default() } else { any_options(&mut c.rng) };
    if c.rng.chance(0.06) {
        a.contrast_percentile = c.rng.pick(&[0.0, 1e-5, 1e-3, 1.0]);
    }
    let hi = if c.thorough { 260 } else { 180 };
    let lo = if c.rng.chance(0.8) { 80 } else { 40 };
    let (w, h) = (side(&mut c.rng, lo, hi), side(&mut c.rng, lo, hi));
    let (mut kind, mut im) = scene(&mut c.rng, w, h);
    if c.rng.chance(0.06) {
        let v = c.rng.pick(&[0.0, 0.2, 0.5, 1.0]);
        im = Im::f(w, h, |_, _| v);
        kind = "flat";
        if c.rng.chance(0.5) {
            let (x, y, v) = (c.rng.below(w), c.rng.below(h), c.rng.f());
            im.put(x, y, v);
            kind = "one pixel";
        }
    }
    let gain = if c.rng.chance(0.3) { c.rng.log(0.01, 100.0) } else { 1.0 };
    for v in &mut im.d {
        *v *= gain;
    }
    let im = im.quantise();
    c.note("options", &a);
    c.note("image", &(kind, w, h, gain));
    c.bin(kind);
    let g = im.gfi();
    let Some(ev) = c.call("scale space", || a.monitor_scale_space(&g)) else { return };
    let m = im.maxabs();
    // the contrast factor: a percentile of the non-zero gradients of the slightly blurred picture
    let (gx, gy) = scharr(&blur(&im, 1.0));
    let mut grads: Vec<f64> = (1..h - 1).flat_map(|y| (1..w - 1).map(move |x| (x, y))).map(|(x, y)| gx.at(x, y).hypot(gy.at(x, y))).collect();
    grads.sort_by(f64::total_cmp);
    let hmax = *grads.last().unwrap();
    let plain = hmax < 1e-3 * m || m == 0.0;
    if plain {
        c.bin("picture without gradients");
    }
    let m = m.max(1e-30);
    let mut prev: Option<Im> = None;
    let mut ks: Vec<(u32, f64)> = vec![];
    let mut cond_seen = false;
    for (i, e) in ev.iter().enumerate() {
        let lt = Im::of(&e.Lt.0);
        let (ew, eh) = (w >> e.octave, h >> e.octave);
        if !c.check((lt.w, lt.h) == (ew, eh), "level-size", || format!("level {i} of a {w}x{h} picture, octave {}: {}x{}", e.octave, lt.w, lt.h)) {
            return;
        }
        let Some(p) = prev.take() else {
            c.within(lt.diff(&blur(&im, a.base_scale_offset)), 1e-5 * m, "first-level", || "level 0 is not the picture blurred by the base scale".into());
            prev = Some(lt);
            continue;
        };
        // where the octave changes, the code's own halving (checked in C27) starts the level
        let start = if e.octave > ev[i - 1].octave { Im::of(&ev[i - 1].Lt.half_size().0) } else { p };
        let smooth = blur(&start, 1.0);
        c.within(Im::of(&e.Lsmooth.0).diff(&smooth), 1e-5 * m, "smoothed-level", || format!("level {i}: Lsmooth is not the level's start blurred by 1"));
        let (sx, sy) = scharr(&smooth);
        // conductivity 1 / (1 + g^2 / k^2): one k for the whole level
        let flow = Im::of(&e.Lflow.0);
        if !c.check((flow.w, flow.h) == (ew, eh) && flow.d.iter().all(|v| *v > 0.0 && *v <= 1.0), "conductivity-range", || format!("level {i}: conductivities {}..{}", flow.min(), flow.max())) {
            return;
        }
        let mut k2s: Vec<f64> = vec![];
        let gm = (0..ew * eh).map(|j| sx.d[j].hypot(sy.d[j])).fold(0.0, f64::max);
        for j in 0..ew * eh {
            let g2 = sx.d[j].powi(2) + sy.d[j].powi(2);
            let q = flow.d[j];
            if g2.sqrt() > 0.2 * gm && g2.sqrt() > 1e-2 * m && q < 0.97 && q > 1e-4 {
                k2s.push(g2 * q / (1.0 - q));
            }
        }
        if k2s.len() >= 4 {
            cond_seen = true;
            k2s.sort_by(f64::total_cmp);
            let k2 = k2s[k2s.len() / 2];
            let k = k2.sqrt();
            let mut worst = 0.0f64;
            for j in 0..ew * eh {
                let g2 = sx.d[j].powi(2) + sy.d[j].powi(2);
                // conductivity error due to the rounding of the gradient
                let dg = 1e-5 * m;
                let tol = 1e-4 + 2.0 * g2.sqrt() * dg / k2 + dg * dg / k2;
                worst = worst.max((flow.d[j] - 1.0 / (1.0 + g2 / k2)).abs() / tol);
            }
            c.within(worst, 1.0, "conductivity", || format!("level {i}: conductivity is not 1 / (1 + g^2 / k^2) for one k (median {k:e})"));
            ks.push((e.octave, k));
        } else {
            c.inconclusive("level without gradients");
        }
        // the level itself: its start after the scheduled steps with these conductivities
        let mut want = start.clone();
        for t in &e.fed_tau_steps {
            want = step(&want, &flow, *t);
        }
        c.within(lt.diff(&want), 5e-5 * m, "diffused-level", || format!("level {i} ({} steps): not the start of the level after these diffusion steps", e.fed_tau_steps.len()));
        let (m0, m1) = (start.mean(), lt.mean());
        c.within((m0 - m1).abs(), 2e-5 * m, "brightness-not-kept", || format!("level {i}: mean {m0} became {m1}"));
        let out = (start.min() - lt.min()).max(lt.max() - start.max()).max(0.0);
        c.within(out, 1e-3 * m, "level-out-of-range", || format!("level {i}: {}..{} became {}..{}", start.min(), start.max(), lt.min(), lt.max()));
        prev = Some(lt);
    }
    // k belongs to the percentile, to within a bin, and falls to three quarters with every octave
    if let (Some((o, k)), false) = (ks.first().copied(), plain) {
        let k0 = k / 0.75f64.powi(o as i32);
        for (o, k) in &ks {
            let b = k / 0.75f64.powi(*o as i32);
            c.within((b / k0 - 1.0).abs(), 5e-3, "contrast-factor-between-levels", || format!("contrast factors by octave: {ks:?}"));
        }
        let nz = grads.iter().filter(|g| **g > 1e-6 * hmax).count() as f64;
        let tiny = grads.iter().filter(|g| **g > 0.0 && **g <= 1e-6 * hmax).count() as f64;
        if tiny == 0.0 || tiny < 0.02 * nz {
            let bin = hmax / a.contrast_factor_num_bins as f64;
            let share = |v: f64| grads.iter().filter(|g| **g > 1e-6 * hmax && **g <= v).count() as f64 / nz;
            let slack = 0.03 + 2.0 / nz;
            c.check(share(k0 + 0.1 * bin) >= a.contrast_percentile - slack, "contrast-factor-too-small", || format!("k = {k0:e}: only {} of the gradients are below, percentile {}", share(k0), a.contrast_percentile));
            c.check(share(k0 - 1.1 * bin) <= a.contrast_percentile + slack, "contrast-factor-too-large", || format!("k = {k0:e} (bin {bin:e}): {} of the gradients are below the bin, percentile {}", share(k0 - 1.1 * bin), a.contrast_percentile));
        } else {
            c.inconclusive("picture with near-zero gradients");
        }
    }
    if (cond_seen || plain) && ev.len() > 1 {
        c.nontrivial(im.hash());
    }
}
