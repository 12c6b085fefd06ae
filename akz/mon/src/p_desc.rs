//! C30: descriptors.
use crate::fw::*;
use crate::img::*;
use crate::p_scale::any_options;
use akaze_seq::monitor::EvolutionStep;
use akaze_seq::{Akaze, KeyPoint};
use bitarray::BitArray;

pub fn c30() -> Prop {
    Prop {
        id: "C30",
        rule: "distinct key points whose descriptor was recomputed bit by bit from the level they belong to",
        assumptions: &["levels are built by the harness or read through the hook behind --cfg cv_monitor", "stand-ins for the image, ndarray, nshare, bitarray and primal crates"],
        workloads: vec![wl("bits", 8000, 120000, 0.9, bits), wl("turned", 4000, 60000, 0.5, turned)],
    }
}
struct Cell {
    v: [f64; 3],
    /// a sample lies within rounding of the boundary between two pixels
    vague: bool,
    /// how far rounding can move a value
    tol: [f64; 3],
}
/// The three grids of means around a key point; none if the pattern leaves the image, Some(Err) if that is undecided.
fn grids(a: &Akaze, e: &EvolutionStep, kp: &KeyPoint) -> Option<Result<Vec<Vec<Cell>>, ()>> {
    let r = 2f64.powi(kp.octave as i32);
    let sc = 0.5 * kp.size as f64 / r;
    if ((sc - sc.floor()) - 0.5).abs() < 1e-4 {
        return Some(Err(()));
    }
    let sc = sc.round();
    let (xf, yf) = (kp.point.0 as f64 / r, kp.point.1 as f64 / r);
    let (si, co) = (kp.angle as f64).sin_cos();
    let p = a.descriptor_pattern_size as i64;
    let (w, h) = (e.Lt.width() as i64, e.Lt.height() as i64);
    let mut out = vec![];
    for (num, den) in [(1, 1), (2, 3), (1, 2)] {
        let st = (p * num + den - 1) / den;
        let mut g = vec![];
        let mut i = -p;
        while i < p {
            let mut j = -p;
            while j < p {
                let mut cell = Cell { v: [0.0; 3], vague: false, tol: [0.0; 3] };
                for k in i..i + st {
                    for l in j..j + st {
                        let (k, l) = (k as f64, l as f64);
                        let x = xf + sc * (k * co - l * si);
                        let y = yf + sc * (k * si + l * co);
                        let near = |q: f64| ((q - q.floor()) - 0.5).abs() < 2e-4;
                        let (xi, yi) = (x.round() as i64, y.round() as i64);
                        let edge = (near(x) && (xi <= 0 || xi >= w - 1)) || (near(y) && (yi <= 0 || yi >= h - 1));
                        if edge {
                            return Some(Err(()));
                        }
                        if xi < 0 || yi < 0 || xi >= w || yi >= h {
                            return None;
                        }
                        cell.vague |= near(x) || near(y);
                        let (xi, yi) = (xi as usize, yi as usize);
                        let (rx, ry) = (e.Lx.get(xi, yi) as f64, e.Ly.get(xi, yi) as f64);
                        let v = match a.descriptor_channels {
                            1 => [e.Lt.get(xi, yi) as f64, 0.0, 0.0],
                            2 => [e.Lt.get(xi, yi) as f64, rx.hypot(ry), 0.0],
                            _ => [e.Lt.get(xi, yi) as f64, ry * co - rx * si, rx * co + ry * si],
                        };
                        let mag = [v[0].abs(), rx.abs() + ry.abs(), rx.abs() + ry.abs()];
                        for q in 0..3 {
                            cell.v[q] += v[q];
                            cell.tol[q] += mag[q];
                        }
                    }
                }
                let n = (st * st) as f64;
                for q in 0..3 {
                    cell.v[q] /= n;
                    cell.tol[q] *= (n + 8.0) * 1.2e-7 / n;
                }
                g.push(cell);
                j += st;
            }
            i += st;
        }
        out.push(g);
    }
    Some(Ok(out))
}
/// Compare every decidable bit. Returns how many were.
fn judge(c: &mut Case, a: &Akaze, g: &[Vec<Cell>], d: &BitArray<64>, kp: &KeyPoint) -> usize {
    let bit = |i: usize| d.bytes()[i / 8] >> (i % 8) & 1 == 1;
    let mut pos = 0;
    let (mut sure, mut bad, mut first) = (0usize, 0usize, String::new());
    for grid in g {
        for ch in 0..a.descriptor_channels {
            for i in 0..grid.len() {
                for j in i + 1..grid.len() {
                    let (p, q) = (&grid[i], &grid[j]);
                    let diff = p.v[ch] - q.v[ch];
                    if !p.vague && !q.vague && diff.abs() > 2.0 * (p.tol[ch] + q.tol[ch]) + 1e-30 {
                        sure += 1;
                        if bit(pos) != (diff > 0.0) {
                            bad += 1;
                            if first.is_empty() {
                                first = format!("bit {pos}: grid of {}, channel {ch}, cells {i} and {j} hold {:e} and {:e}", grid.len(), p.v[ch], q.v[ch]);
                            }
                        }
                    }
                    pos += 1;
                }
            }
        }
    }
    c.check(bad == 0, "descriptor-bit", || format!("{bad} of {sure} decidable bits of {kp:?} are wrong; {first}"));
    c.check((pos..512).all(|i| !bit(i)), "descriptor-tail", || format!("bits beyond {pos} are set: {:?}", d.bytes()));
    sure
}
fn levels(c: &mut Case, a: &Akaze, w: usize, h: usize) -> Vec<EvolutionStep> {
    let mut ev = a.allocate_evolutions(w as u32, h as u32);
    for e in ev.iter_mut() {
        let (lw, lh) = (w >> e.octave, h >> e.octave);
        let (_, t) = scene(&mut c.rng, lw, lh);
        let s = c.rng.log(1e-3, 1.0);
        e.Lt = t.gfi();
        e.Lx = Im::f(lw, lh, |_, _| s * c.rng.range(-1.0, 1.0)).gfi();
        e.Ly = Im::f(lw, lh, |_, _| s * c.rng.range(-1.0, 1.0)).gfi();
    }
    ev
}
fn bits(c: &mut Case) {
    let mut a = if c.rng.chance(0.5) { Akaze::default() } else { any_options(&mut c.rng) };
    a.max_octave_evolution = a.max_octave_evolution.min(4);
    a.descriptor_channels = if c.rng.chance(0.6) { 3 } else { 1 + c.rng.below(3) };
    a.descriptor_pattern_size = if c.rng.chance(0.6) { 10 } else { 4 + c.rng.below(12) };
    let (w, h) = (side(&mut c.rng, 60, 320), side(&mut c.rng, 60, 320));
    let ev = levels(c, &a, w, h);
    c.note("options", &a);
    c.note("size", &(w, h));
    let n = 1 + c.rng.below(8);
    let kps: Vec<KeyPoint> = (0..n)
        .map(|_| {
            let k = c.rng.below(ev.len());
            let e = &ev[k];
            let near_edge = c.rng.chance(0.3);
            let mut at = |n: usize| (if near_edge { c.rng.range(-5.0, n as f64 + 5.0) } else { c.rng.range(0.35, 0.65) * n as f64 }) as f32;
            let point = (at(w), at(h));
            let size = (2.0 * e.esigma * a.derivative_factor) as f32 * if c.rng.chance(0.3) { c.rng.range(0.3, 1.5) as f32 } else { 1.0 };
            let angle = match c.rng.below(5) {
                0 => c.rng.pick(&[0.0, 0.5, 1.0, 1.5, 2.0]) * std::f32::consts::PI,
                _ => c.rng.range(0.0, 6.2831) as f32,
            };
            KeyPoint { point, response: 1.0, size, octave: e.octave as usize, class_id: k, angle }
        })
        .collect();
    c.note("key points", &kps);
    let Some((ks, ds)) = c.call("extract_descriptors", || a.extract_descriptors(&ev, &kps)) else { return };
    if !c.check(ks.len() == ds.len(), "descriptor-count", || format!("{} key points, {} descriptors", ks.len(), ds.len())) {
        return;
    }
    let same = |p: &KeyPoint, q: &KeyPoint| p.point == q.point && p.angle == q.angle && p.size == q.size && p.class_id == q.class_id && p.octave == q.octave && p.response == q.response;
    let mut out = ks.iter().zip(&ds).peekable();
    for kp in &kps {
        let g = grids(&a, &ev[kp.class_id], kp);
        let here = out.peek().is_some_and(|o| same(o.0, kp));
        let d = if here { Some(*out.next().unwrap().1) } else { None };
        match (g, d) {
            (Some(Err(())), _) => c.inconclusive("sample on a border"),
            (None, d) => {
                c.bin("pattern leaves the image");
                c.check(d.is_none(), "descriptor-from-outside", || format!("{kp:?} has a descriptor although its pattern leaves the image"));
            }
            (Some(Ok(g)), Some(d)) => {
                let n = judge(c, &a, &g, &d, kp);
                *c.st.bins.entry("descriptor bits decided").or_default() += n as u64;
                c.nontrivial(hash_f64s(&[kp.point.0 as f64, kp.point.1 as f64, kp.angle as f64]) ^ splitmix(&mut (n as u64)));
            }
            (Some(Ok(_)), None) => c.fail("descriptor-missing", format!("{kp:?} in {w}x{h}: pattern lies inside the image, no descriptor (or out of order)")),
        }
    }
    c.check(out.next().is_none(), "descriptor-of-nobody", || "more key points out than in".into());
    if c.rng.chance(0.2) {
        // alone or among others, first or last: the same descriptor
        let i = c.rng.below(kps.len());
        if let Some((k1, d1)) = c.call("extract_descriptors", || a.extract_descriptors(&ev, &kps[i..=i])) {
            let in_all = ks.iter().position(|q| same(q, &kps[i]));
            let ok = match (in_all, k1.len()) {
                (None, 0) => true,
                (Some(p), 1) => ds[p] == d1[0],
                _ => false,
            };
            c.check(ok, "descriptor-depends-on-company", || format!("{:?}", kps[i]));
        }
    }
}
/// A quarter turn of image and key point leaves the descriptor as it is (up to bits within rounding).
fn turned(c: &mut Case) {
    let mut a = Akaze::default();
    a.max_octave_evolution = 1;
    a.num_sublevels = 1 + c.rng.below(4) as u32;
    a.descriptor_channels = if c.rng.chance(0.7) { 3 } else { 1 + c.rng.below(3) };
    let (w, h) = (side(&mut c.rng, 90, 160), side(&mut c.rng, 90, 160));
    let ev = levels(c, &a, w, h);
    let k = c.rng.below(ev.len());
    let mut te = a.allocate_evolutions(h as u32, w as u32);
    let (lt, lx, ly) = (Im::of(&ev[k].Lt.0), Im::of(&ev[k].Lx.0), Im::of(&ev[k].Ly.0));
    if te.len() != ev.len() {
        return;
    }
    te[k].Lt = lt.rot90().gfi();
    // gradient (gx, gy) turns into (-gy, gx)
    let mut my = ly.rot90();
    for v in &mut my.d {
        *v = -*v;
    }
    te[k].Lx = my.gfi();
    te[k].Ly = lx.rot90().gfi();
    let reach = 15.0 * (ev[k].esigma * 1.5).round();
    if reach * 2.0 + 4.0 > w.min(h) as f64 {
        c.inconclusive("image too small for the pattern");
        return;
    }
    let x = c.rng.range(reach + 1.0, w as f64 - reach - 2.0) as f32;
    let y = c.rng.range(reach + 1.0, h as f64 - reach - 2.0) as f32;
    let ang = c.rng.range(0.0, 6.28) as f32;
    let size = (2.0 * ev[k].esigma * 1.5) as f32;
    let kp = KeyPoint { point: (x, y), response: 1.0, size, octave: 0, class_id: k, angle: ang };
    // (x, y) of the image is at (h-1-y, x) of the turned one
    let tp = KeyPoint { point: (h as f32 - 1.0 - y, x), angle: ang + std::f32::consts::FRAC_PI_2, ..kp };
    c.note("key point", &kp);
    let Some((_, d0)) = c.call("extract_descriptors", || a.extract_descriptors(&ev, &[kp])) else { return };
    let Some((_, d1)) = c.call("extract_descriptors", || a.extract_descriptors(&te, &[tp])) else { return };
    if !c.check(d0.len() == 1 && d1.len() == 1, "turned-descriptor-missing", || format!("{} and {} descriptors of {kp:?} in {w}x{h}", d0.len(), d1.len())) {
        return;
    }
    let Some(Ok(g)) = grids(&a, &ev[k], &kp) else { return };
    let mut open = 0;
    for grid in &g {
        for ch in 0..a.descriptor_channels {
            for i in 0..grid.len() {
                for j in i + 1..grid.len() {
                    let (p, q) = (&grid[i], &grid[j]);
                    open += (p.vague || q.vague || (p.v[ch] - q.v[ch]).abs() <= 4.0 * (p.tol[ch] + q.tol[ch])) as u32;
                }
            }
        }
    }
    let d = d0[0].distance(&d1[0]);
    c.check(d <= open, "turned-descriptor", || format!("{d} bits differ after a quarter turn, {open} are within rounding ({kp:?})"));
    if open < 150 {
        c.nontrivial(hash_f64s(&[x as f64, y as f64, ang as f64]));
    }
}
