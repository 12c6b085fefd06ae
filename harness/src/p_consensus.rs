//! End to end: consensus with the shipped solvers and residuals, and a small reconstruction pipeline on top of it.
use crate::fw::*;
use crate::gen::*;
use crate::m::*;
use crate::p_pinhole::Cam;
use crate::p_solvers::*;
use arrsac::Arrsac;
use cv_core::nalgebra::Point2;
use cv_core::sample_consensus::{Consensus, Estimator, Model};
use cv_core::{
    CameraModel, CameraPoint, CameraToCamera, FeatureMatch, FeatureWorldMatch, KeyPoint, Pose, Projective, TriangulatorObservations,
    TriangulatorRelative, WorldPoint, WorldToCamera, WorldToWorld,
};
use cv_geom::triangulation::{AngularL1Triangulator, LinearEigenTriangulator, RelativeDltTriangulator};
use cv_pinhole::{CameraIntrinsicsK1Distortion, EssentialMatrix};
use eight_point::EightPoint;
use lambda_twist::LambdaTwist;
use nister_stewenius::NisterStewenius;
use rand::{rngs::SmallRng, SeedableRng};

// -------------------------------------------------------------------------------- scenes with outliers
/// Matches of a landmark scene and one camera. `good` tells which are exact.
struct WorldScene {
    g: Iso,
    size: f64,
    d: Vec<FeatureWorldMatch>,
    xc: Vec<V3>,
    good: Vec<bool>,
}
fn world_scene(c: &mut Case, n: usize, bad: usize) -> WorldScene {
    let size = c.rng.log(1e-2, 1e2);
    let g = Iso { r: rot_uniform(&mut c.rng), t: mul(ball(&mut c.rng), size * 5.0) };
    let inv = g.inv();
    let around = c.rng.chance(0.3);
    let far = c.rng.range(2.0, 8.0);
    let mut v = vec![];
    for i in 0..n {
        let x = if around {
            mul(unit3(&mut c.rng), size * c.rng.range(1.0, far))
        } else {
            let z = c.rng.range(1.0, far);
            mul([c.rng.range(-0.8, 0.8) * z, c.rng.range(-0.8, 0.8) * z, z], size)
        };
        let w = wpoint(c, inv.apply(x));
        let good = i >= bad;
        let b = if good {
            unit(x)
        } else {
            loop {
                // another direction, the opposite one, or one close by
                let b = match c.rng.below(6) {
                    0 => neg(unit(x)),
                    1 => unit(add(unit(x), mul(unit3(&mut c.rng), 0.1))),
                    _ => unit3(&mut c.rng),
                };
                if angle(b, x) > 0.05 {
                    break b;
                }
            }
        };
        v.push((FeatureWorldMatch(nu(b), w), x, good));
    }
    c.rng.shuffle(&mut v);
    WorldScene {
        g,
        size,
        d: v.iter().map(|x| x.0).collect(),
        xc: v.iter().map(|x| x.1).collect(),
        good: v.iter().map(|x| x.2).collect(),
    }
}
/// Matches between two cameras.
struct PairScene {
    t: Two,
    good: Vec<bool>,
}
fn pair_scene(c: &mut Case, n: usize, bad: usize) -> PairScene {
    let around = c.rng.chance(0.3);
    let mut t = if around { two_around(c, 1) } else { two_front(c, 1) };
    t.m.clear();
    let g = t.g;
    let b = norm(g.t);
    let far = c.rng.range(3.0, 10.0);
    let mut v: Vec<((V3, V3), bool)> = vec![];
    let n_plane = unit(g.t);
    while v.len() < n {
        let x = if around {
            mul(unit3(&mut c.rng), b * c.rng.range(0.7, far))
        } else {
            let z = c.rng.range(1.0, far);
            mul([c.rng.range(-0.9, 0.9) * z, c.rng.range(-0.9, 0.9) * z, z], b)
        };
        let q = g.apply(x);
        if norm(q) < 0.3 * b || (!around && q[2] < 0.2 * norm(q)) || angle(mv(&g.r, x), q) < 0.03 {
            continue;
        }
        let good = v.len() >= bad;
        let m = if good {
            (unit(x), unit(q))
        } else {
            loop {
                let m = match c.rng.below(5) {
                    // meets behind both cameras
                    0 => (neg(unit(x)), neg(unit(q))),
                    1 => (unit(x), unit(add(unit(q), mul(unit3(&mut c.rng), 0.2)))),
                    2 => (unit(add(unit(x), mul(unit3(&mut c.rng), 0.2))), unit(q)),
                    _ => (unit3(&mut c.rng), unit3(&mut c.rng)),
                };
                if bad_pair(&g, n_plane, &m) {
                    break m;
                }
            }
        };
        v.push((m, good));
    }
    c.rng.shuffle(&mut v);
    t.m = v.iter().map(|x| x.0).collect();
    PairScene { t, good: v.iter().map(|x| x.1).collect() }
}
/// Clearly inconsistent with the pose, by the epipolar planes or by meeting behind.
fn bad_pair(g: &Iso, u: V3, m: &(V3, V3)) -> bool {
    let ra = mv(&g.r, m.0);
    let (na, nb) = (cross(u, ra), cross(u, m.1));
    if norm(na) < 0.05 || norm(nb) < 0.05 || angle(ra, m.1) < 0.03 {
        return false;
    }
    let s = dot(m.1, unit(na)).abs().min(dot(ra, unit(nb)).abs());
    if s > 0.02 {
        return true;
    }
    // depths of the meeting point: x ra + t = y b
    let k = cross(ra, m.1);
    let y = dot(cross(ra, g.t), k) / dot(k, k);
    let x = dot(cross(m.1, g.t), k) / dot(k, k);
    x < 0.0 && y < 0.0 && s < 1e-9
}

// ------------------------------------------------------------------------------------- drivers
/// Plain RANSAC over the given samples; the best model and how many it explains.
fn vote<E, D>(c: &mut Case, est: &E, d: &[D], samples: &[Vec<usize>], thr: f64) -> Option<(E::Model, Vec<usize>)>
where
    E: Estimator<D>,
    E::Model: Model<D>,
    D: Copy,
{
    let mut best: Option<(E::Model, Vec<usize>)> = None;
    let mut cost = f64::INFINITY;
    for s in samples {
        let it = c.call("Estimator::estimate", || est.estimate(s.iter().map(|&i| d[i])))?;
        for m in it {
            let r = c.call("Model::residual", || d.iter().map(|x| m.residual(x)).collect::<Vec<f64>>())?;
            let inl: Vec<usize> = (0..d.len()).filter(|&i| r[i] < thr).collect();
            // among models which explain equally many, the one which explains them better
            let sum: f64 = inl.iter().map(|&i| r[i].abs()).sum();
            if best.as_ref().is_none_or(|b| inl.len() > b.1.len() || inl.len() == b.1.len() && sum < cost) {
                cost = sum;
                best = Some((m, inl));
            }
        }
    }
    best
}
/// ARRSAC as applications use it. The library panics by itself when its first hypotheses explain too little; that is a miss, not a
/// panic of the code under test.
fn arrsac<E, D>(c: &mut Case, est: &E, d: &[D], thr: f64) -> Option<(E::Model, Vec<usize>)>
where
    E: Estimator<D>,
    E::Model: Model<D>,
    D: Copy,
{
    let seed = c.rng.u64();
    c.call("Arrsac::model_inliers", || {
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            Arrsac::new(thr, SmallRng::seed_from_u64(seed)).model_inliers(est, d.iter().copied())
        }));
        match r {
            Ok(x) => x,
            Err(e) => {
                if e.downcast_ref::<&str>().is_some_and(|m| m.contains("cannot use arrsac")) {
                    None
                } else {
                    std::panic::resume_unwind(e)
                }
            }
        }
    })?
}
fn picks(c: &mut Case, n: usize, k: usize) -> Vec<usize> {
    let mut v: Vec<usize> = (0..n).collect();
    c.rng.shuffle(&mut v);
    v.truncate(k);
    v
}
/// Random samples, with a few clean and well-conditioned ones (by an own measure) among them.
fn samples(c: &mut Case, good: &[bool], k: usize, random: usize, clean: usize, cond: &dyn Fn(&[usize]) -> f64, min: f64) -> Option<Vec<Vec<usize>>> {
    let idx: Vec<usize> = (0..good.len()).filter(|&i| good[i]).collect();
    let mut v: Vec<Vec<usize>> = (0..random).map(|_| picks(c, good.len(), k)).collect();
    let mut found = 0;
    for _ in 0..100 {
        let s: Vec<usize> = picks(c, idx.len(), k).iter().map(|&i| idx[i]).collect();
        if cond(&s) >= min {
            v.push(s);
            found += 1;
            if found == clean {
                break;
            }
        }
    }
    c.rng.shuffle(&mut v);
    (found == clean).then_some(v)
}
fn counts(c: &mut Case, hi: f64) -> (usize, usize) {
    let n = 24 + c.rng.below(57);
    let bad = (n as f64 * c.rng.range(0.0, hi)) as usize;
    c.bin(match bad * 100 / n {
        0 => "no outliers",
        1..=20 => "up to 20% outliers",
        21..=35 => "20-35% outliers",
        _ => "35-50% outliers",
    });
    (n, bad)
}
fn same_set(got: &[usize], good: &[bool]) -> (usize, usize) {
    let extra = got.iter().filter(|&&i| !good[i]).count();
    let missed = good.iter().filter(|g| **g).count() - (got.len() - extra);
    (missed, extra)
}

// ------------------------------------------------------------------------------------ one camera
fn world_verdict(c: &mut Case, s: &WorldScene, got: Option<(WorldToCamera, Vec<usize>)>, hard: bool) {
    let det = format!("truth {:?} size {} outliers {}", s.g, s.size, s.good.iter().filter(|x| !**x).count());
    let (err, miss, extra) = match &got {
        None => (f64::INFINITY, f64::INFINITY, 0),
        Some((m, inl)) => {
            let p = Iso::of(&m.0);
            let e = rot_dist(&p.r, &s.g.r).max(norm(sub(p.t, s.g.t)) / s.size);
            let (miss, extra) = same_set(inl, &s.good);
            (if e.is_nan() { f64::INFINITY } else { e }, miss as f64, extra)
        }
    };
    if hard {
        c.within(err, 1e-4, "world-pose-wrong", || det.clone());
        c.within(miss, 0.0, "world-exact-match-not-inlier", || det.clone());
        c.check(extra == 0, "world-outlier-accepted", || format!("{extra}: {det}"));
        c.soft_at(2e-2, err, 1e-9, "rate-world-pose", || det.clone());
    } else {
        c.soft_at(2e-2, err, 1e-3, "rate-world-consensus-pose", || det.clone());
        c.soft_at(3e-2, err, 1e-6, "rate-world-consensus-pose-1e-6", || det.clone());
        c.soft_at(2e-2, miss, 0.0, "rate-world-consensus-inliers", || det.clone());
        if err < 1e-4 {
            c.check(extra == 0, "world-outlier-accepted", || format!("{extra}: {det}"));
        }
    }
}
fn world_hash(s: &WorldScene) -> u64 {
    hash_f64s(&s.xc.iter().flatten().copied().collect::<Vec<_>>())
}
fn c26_world_vote(c: &mut Case) {
    let (n, bad) = counts(c, 0.5);
    let s = world_scene(c, n, bad);
    let thr = c.rng.log(1e-7, 1e-5);
    let g = s.g;
    let xc = s.xc.clone();
    let cond = move |i: &[usize]| P3::new(g, [xc[i[0]], xc[i[1]], xc[i[2]]]).k;
    let Some(smp) = samples(c, &s.good, 3, 20, 2, &cond, 3e-2) else {
        c.inconclusive("no well-conditioned sample");
        return;
    };
    c.nontrivial(world_hash(&s));
    let d = s.d.clone();
    let got = vote(c, &LambdaTwist::new(), &d, &smp, thr);
    world_verdict(c, &s, got, true);
}
fn c26_world_arrsac(c: &mut Case) {
    let (n, bad) = counts(c, 0.5);
    let s = world_scene(c, n, bad);
    let thr = c.rng.log(1e-9, 1e-5);
    c.nontrivial(world_hash(&s));
    let d = s.d.clone();
    let got = arrsac(c, &LambdaTwist::new(), &d, thr);
    c.bin(if got.is_some() { "found" } else { "nothing found" });
    world_verdict(c, &s, got, false);
}

// ----------------------------------------------------------------------------------- two cameras
fn pair_verdict(c: &mut Case, s: &PairScene, got: Option<(CameraToCamera, Vec<usize>)>, level: u8) {
    let det = format!("truth {:?} outliers {} of {}", s.t.g, s.good.iter().filter(|x| !**x).count(), s.good.len());
    let (err, miss, extra) = match &got {
        None => (f64::INFINITY, f64::INFINITY, 0),
        Some((m, inl)) => {
            let (miss, extra) = same_set(inl, &s.good);
            (s.t.err(&Iso::of(&m.0)), miss as f64, extra)
        }
    };
    match level {
        // several clean samples
        0 => {
            c.within(err, 1e-3, "pair-pose-wrong", || det.clone());
            c.within(miss, 0.0, "pair-exact-match-not-inlier", || det.clone());
            c.soft_at(2e-2, err, 1e-8, "rate-pair-pose", || det.clone());
        }
        1 => {
            c.soft_at(2e-2, err, 1e-3, "rate-pair-consensus-pose", || det.clone());
            c.soft_at(3e-2, err, 1e-6, "rate-pair-consensus-pose-1e-6", || det.clone());
            c.soft_at(2e-2, miss, 0.0, "rate-pair-consensus-inliers", || det.clone());
        }
        _ => {
            c.soft_at(5e-2, err, 1e-3, "rate-pair-consensus-8-pose", || det.clone());
            c.soft_at(5e-2, miss, 0.0, "rate-pair-consensus-8-inliers", || det.clone());
        }
    }
    if err < 1e-4 {
        c.check(extra == 0, "pair-outlier-accepted", || format!("{extra}: {det}"));
    }
}
fn c26_eight_vote(c: &mut Case) {
    let (n, bad) = counts(c, 0.5);
    let s = pair_scene(c, n, bad);
    let thr = c.rng.log(1e-8, 1e-6);
    let t = Two { g: s.t.g, m: s.t.m.clone() };
    let cond = move |i: &[usize]| Two { g: t.g, m: i.iter().map(|&i| t.m[i]).collect() }.k(8);
    let Some(smp) = samples(c, &s.good, 8, 6, 3, &cond, 3e-3) else {
        c.inconclusive("no well-conditioned sample");
        return;
    };
    c.nontrivial(s.t.hash());
    let d = s.t.matches();
    let got = vote(c, &EightPoint::new(), &d, &smp, thr);
    pair_verdict(c, &s, got, 0);
}
fn c26_eight_arrsac(c: &mut Case) {
    let (n, bad) = counts(c, 0.25);
    let s = pair_scene(c, n, bad);
    let thr = c.rng.log(1e-8, 1e-6);
    c.nontrivial(s.t.hash());
    let d = s.t.matches();
    let got = arrsac(c, &EightPoint::new(), &d, thr);
    c.bin(if got.is_some() { "found" } else { "nothing found" });
    pair_verdict(c, &s, got, 2);
}
fn c26_five_vote(c: &mut Case) {
    let (n, bad) = counts(c, 0.5);
    let s = pair_scene(c, n, bad);
    let thr = c.rng.log(1e-8, 1e-6);
    let t = Two { g: s.t.g, m: s.t.m.clone() };
    let cond = move |i: &[usize]| k5(&Two { g: t.g, m: i.iter().map(|&i| t.m[i]).collect() });
    let Some(smp) = samples(c, &s.good, 5, 2, 4, &cond, 1e-2) else {
        c.inconclusive("no well-conditioned sample");
        return;
    };
    c.nontrivial(s.t.hash());
    let d = s.t.matches();
    let got = vote(c, &NisterStewenius::new(), &d, &smp, thr);
    pair_verdict(c, &s, got, 0);
}
fn c26_five_arrsac(c: &mut Case) {
    let (n, bad) = counts(c, 0.4);
    let s = pair_scene(c, n.min(40), bad.min(16));
    let thr = c.rng.log(1e-8, 1e-6);
    c.nontrivial(s.t.hash());
    let d = s.t.matches();
    let seed = c.rng.u64();
    let got = c
        .call("Arrsac::model_inliers", || {
            std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                Arrsac::new(thr, SmallRng::seed_from_u64(seed))
                    .initialization_hypotheses(96)
                    .max_candidate_hypotheses(32)
                    .model_inliers(&NisterStewenius::new(), d.iter().copied())
            }))
            .unwrap_or_else(|e| {
                if e.downcast_ref::<&str>().is_some_and(|m| m.contains("cannot use arrsac")) {
                    None
                } else {
                    std::panic::resume_unwind(e)
                }
            })
        })
        .flatten();
    c.bin(if got.is_some() { "found" } else { "nothing found" });
    pair_verdict(c, &s, got, 1);
}
/// The residual of the essential matrix separates exact matches from the rest as well.
fn c26_essential(c: &mut Case) {
    let (n, bad) = counts(c, 0.5);
    let s = pair_scene(c, n, bad);
    let d = s.t.matches();
    let idx: Vec<usize> = (0..d.len()).filter(|&i| s.good[i]).collect();
    let eight = picks(c, idx.len(), 8).iter().map(|&i| idx[i]).collect::<Vec<_>>();
    let k = Two { g: s.t.g, m: eight.iter().map(|&i| s.t.m[i]).collect() }.k(8);
    if k < 3e-3 {
        c.inconclusive("ill-conditioned");
        return;
    }
    c.nontrivial(s.t.hash());
    let Some(e) = c.call("EightPoint::from_matches", || EightPoint::new().from_matches(eight.iter().map(|&i| d[i]))) else { return };
    let Some(e) = e else {
        c.fail("no-essential-matrix", format!("k {k:e} truth {:?}", s.t.g));
        return;
    };
    let f = fro(&om(&e.0));
    for i in 0..d.len() {
        let (a, b) = s.t.m[i];
        let Some(r) = c.call("EssentialMatrix::residual", || e.residual(&d[i])) else { return };
        // independent of the depth convention of the residual: scale it back
        let x = r * (a[2] * b[2]).abs() / f;
        if a[2].abs() < 1e-3 || b[2].abs() < 1e-3 {
            continue;
        }
        let epi = dot(b, mv(&e_of(&s.t.g), a)).abs();
        if s.good[i] {
            c.within(x, 1e-5, "essential-residual-of-exact-match", || format!("{a:?} {b:?} truth {:?}", s.t.g));
            c.soft(x, 2e-14 / (k * k) + 1e-12, "rate-essential-residual-of-exact-match", || format!("k {k:e} {a:?} {b:?}"));
        } else {
            c.within((x - epi).abs(), 1e-4, "essential-residual-of-outlier", || format!("{a:?} {b:?} truth {:?} {x} want {epi}", s.t.g));
        }
    }
}

// --------------------------------------------------------------------------------------- pipeline
/// Pixels of a lens with radial distortion, by an own model (`u = d / (1 + k1 d^2)`).
fn pixel(k: &Cam, k1: f64, x: V3) -> Option<[f64; 2]> {
    if x[2] <= 0.0 {
        return None;
    }
    let n = [x[0] / x[2], x[1] / x[2]];
    let disc = 1.0 - 4.0 * k1 * (n[0] * n[0] + n[1] * n[1]);
    if disc < 0.05 {
        return None;
    }
    let f = 2.0 / (1.0 + disc.sqrt());
    Some(k.to_pix([n[0] * f, n[1] * f]))
}
/// Three photographs of one scene: calibrate, find the relative pose, triangulate, find the third camera, project back.
fn c26_reconstruct(c: &mut Case) {
    let f = c.rng.range(300.0, 2000.0);
    let k = Cam { fx: f, fy: f * c.rng.range(0.9, 1.1), s: c.rng.range(-2.0, 2.0), cx: c.rng.range(200., 1000.), cy: c.rng.range(200., 1000.) };
    let k1 = if c.rng.chance(0.2) { 0.0 } else { c.rng.range(-0.3, 0.2) };
    let lens = CameraIntrinsicsK1Distortion::new(k.intr(), k1);
    let size = c.rng.log(1e-2, 1e2);
    let pose = |c: &mut Case| Iso { r: rot_upto(&mut c.rng, 0.4), t: mul(unit3(&mut c.rng), size * c.rng.range(0.4, 1.2)) };
    let (gb, gc) = (pose(c), pose(c));
    let mut land = vec![];
    let mut pix: Vec<[[f64; 2]; 3]> = vec![];
    let want = 24 + c.rng.below(24);
    let mut tries = 0;
    while land.len() < want {
        tries += 1;
        if tries > 20000 {
            c.inconclusive("no common view");
            return;
        }
        let z = c.rng.range(2.0, 8.0);
        let x = mul([c.rng.range(-0.6, 0.6) * z, c.rng.range(-0.6, 0.6) * z, z], size);
        let (xb, xc) = (gb.apply(x), gc.apply(x));
        if xb[2] < 0.2 * norm(xb) || xc[2] < 0.2 * norm(xc) || angle(mv(&gb.r, x), xb) < 0.03 {
            continue;
        }
        if let (Some(a), Some(b), Some(d)) = (pixel(&k, k1, x), pixel(&k, k1, xb), pixel(&k, k1, xc)) {
            pix.push([a, b, d]);
            land.push(x);
        }
    }
    let n = land.len();
    let key = |p: [f64; 2]| KeyPoint(Point2::new(p[0], p[1]));
    let Some(bear) = c.call("K1::calibrate", || {
        pix.iter().map(|p| [lens.calibrate(key(p[0])), lens.calibrate(key(p[1])), lens.calibrate(key(p[2]))]).collect::<Vec<_>>()
    }) else {
        return;
    };
    // two views
    let tb = Two { g: gb, m: bear.iter().map(|b| (ou(&b[0]), ou(&b[1]))).collect() };
    let all = vec![true; n];
    let t2 = Two { g: gb, m: tb.m.clone() };
    let eight = c.rng.chance(0.6);
    let d: Vec<FeatureMatch> = bear.iter().map(|b| FeatureMatch(b[0], b[1])).collect();
    let got = if eight {
        let cond = move |i: &[usize]| Two { g: t2.g, m: i.iter().map(|&i| t2.m[i]).collect() }.k(8);
        let Some(s) = samples(c, &all, 8, 0, 2, &cond, 3e-3) else {
            c.inconclusive("no well-conditioned sample");
            return;
        };
        vote(c, &EightPoint::new(), &d, &s, 1e-7)
    } else {
        let cond = move |i: &[usize]| k5(&Two { g: t2.g, m: i.iter().map(|&i| t2.m[i]).collect() });
        let Some(s) = samples(c, &all, 5, 0, 3, &cond, 1e-2) else {
            c.inconclusive("no well-conditioned sample");
            return;
        };
        vote(c, &NisterStewenius::new(), &d, &s, 1e-7)
    };
    c.nontrivial(hash_f64s(&land.iter().flatten().copied().collect::<Vec<_>>()));
    let det = || format!("lens {k:?} k1 {k1} poses {gb:?} {gc:?}");
    let Some((rel, inl)) = got else {
        c.fail("pipeline-no-pose", det());
        return;
    };
    let e = tb.err(&Iso::of(&rel.0));
    if !c.within(e, 1e-3, "pipeline-relative-pose", det) | !c.check(inl.len() == n, "pipeline-match-rejected", det) {
        return;
    }
    // the map, in the frame of the first camera, up to the unknown scale of the baseline
    let world_of_a = WorldToCamera(cv_core::nalgebra::IsometryMatrix3::identity());
    let scale = norm(gb.t);
    let mut map: Vec<WorldPoint> = vec![];
    let how = c.rng.below(3);
    for b in &bear {
        let p: Option<CameraPoint> = match how {
            0 => c.call("LinearEigen", || LinearEigenTriangulator::new().triangulate_relative(rel, b[0], b[1])).flatten(),
            1 => c.call("RelativeDlt", || RelativeDltTriangulator::new().triangulate_relative(rel, b[0], b[1])).flatten(),
            _ => c.call("AngularL1", || AngularL1Triangulator.triangulate_relative(rel, b[0], b[1])).flatten(),
        };
        let Some(p) = p else {
            c.fail("pipeline-no-landmark", det());
            return;
        };
        map.push(world_of_a.inverse().transform(p));
    }
    let mut worst = 0.0f64;
    for (p, x) in map.iter().zip(&land) {
        let Some(q) = p.point() else {
            c.fail("pipeline-landmark-at-infinity", det());
            return;
        };
        let q = [q.x * scale, q.y * scale, q.z * scale];
        let w = norm(sub(q, *x)) / norm(*x);
        worst = worst.max(if w.is_nan() { f64::INFINITY } else { w });
    }
    c.within(worst, 1e-1, "pipeline-map", det);
    c.soft_at(2e-2, worst, 1e-7, "rate-pipeline-map", det);
    if worst > 1e-4 {
        return;
    }
    // the third camera, with some wrong matches
    let bad = c.rng.below(n / 3);
    let mut good = vec![true; n];
    let mut obs: Vec<FeatureWorldMatch> = vec![];
    for i in 0..n {
        if i < bad {
            good[i] = false;
            let mut b = unit3(&mut c.rng);
            while angle(b, ou(&bear[i][2])) < 0.05 {
                b = unit3(&mut c.rng);
            }
            obs.push(FeatureWorldMatch(nu(b), map[i]));
        } else {
            obs.push(FeatureWorldMatch(bear[i][2], map[i]));
        }
    }
    let xs: Vec<V3> = land.iter().map(|x| gc.apply(*x)).collect();
    let cond = move |i: &[usize]| P3::new(gc, [xs[i[0]], xs[i[1]], xs[i[2]]]).k;
    let Some(smp) = samples(c, &good, 3, 8, 3, &cond, 3e-2) else {
        c.inconclusive("no well-conditioned sample for the third camera");
        return;
    };
    let Some((third, inl)) = vote(c, &LambdaTwist::new(), &obs, &smp, 1e-6) else {
        c.fail("pipeline-no-third-pose", det());
        return;
    };
    let (miss, extra) = same_set(&inl, &good);
    let p = Iso::of(&third.0);
    let e3 = rot_dist(&p.r, &gc.r).max(norm(sub(mul(p.t, scale), gc.t)) / size);
    c.check(extra == 0, "pipeline-outlier-accepted", || format!("{extra}: {}", det()));
    c.within(e3, 1e-2, "pipeline-third-pose", det);
    c.soft_at(3e-2, e3, 1e-6, "rate-pipeline-third-pose", det);
    c.soft_at(2e-2, miss as f64, 0.0, "rate-pipeline-third-inliers", det);
    if e3 > 1e-6 {
        return;
    }
    c.bin("complete");
    // relative pose of cameras two and three, both ways round
    let bc = c.call("poses", || {
        let ab = WorldToCamera(rel.0);
        let bc = CameraToCamera(third.0 * ab.0.inverse());
        (bc, bc.inverse())
    });
    if let Some((bc, cb)) = bc {
        let w = gb.inv().then(&gc);
        let g = Iso::of(&bc.0);
        let e = rot_dist(&g.r, &w.r).max(norm(sub(mul(g.t, scale), w.t)) / size);
        c.within(e, 1e-3, "pipeline-composed-pose", det);
        // epipolar constraint of the composed pose
        let Some(em) = c.call("EssentialMatrix::from", || EssentialMatrix::from(cb)) else { return };
        for b in &bear {
            let Some(r) = c.call("EssentialMatrix::residual", || em.residual(&FeatureMatch(b[2], b[1]))) else { return };
            c.within(r, 1e-3, "pipeline-epipolar", det);
        }
    }
    // all three observations together, then back to pixels
    let poses = [world_of_a, WorldToCamera(rel.0), third];
    for i in 0..n {
        let Some(x) = c.call("LinearEigen::triangulate_observations", || {
            LinearEigenTriangulator::new().triangulate_observations((0..3).map(|j| (poses[j], bear[i][j])))
        }) else {
            return;
        };
        let Some(x) = x else {
            c.fail("pipeline-no-landmark-from-three", det());
            return;
        };
        for j in 0..3 {
            let Some(q) = c.call("K1::uncalibrate", || lens.uncalibrate(poses[j].transform(x).bearing())) else { return };
            match q {
                None => c.fail("pipeline-no-pixel", det()),
                Some(q) => {
                    let e = (q.0.x - pix[i][j][0]).abs() + (q.0.y - pix[i][j][1]).abs();
                    c.within(e / k.fx, 1e-2, "pipeline-reprojection", det);
                    c.soft_at(2e-2, e / k.fx, 1e-6, "rate-pipeline-reprojection", det);
                }
            }
        }
    }
    // the map in another world frame gives the same camera, seen from there
    let wa = Iso { r: rot_uniform(&mut c.rng), t: mul(ball(&mut c.rng), 3.0) };
    let ww = WorldToWorld(wa.na());
    let Some(obs2) = c.call("WorldToWorld::transform", || {
        obs.iter().map(|o| FeatureWorldMatch(o.0, ww.transform(o.1))).collect::<Vec<_>>()
    }) else {
        return;
    };
    if let Some((t2, _)) = vote(c, &LambdaTwist::new(), &obs2, &smp, 1e-6) {
        let want = wa.inv().then(&p);
        let g = Iso::of(&t2.0);
        let e = rot_dist(&g.r, &want.r).max(norm(sub(g.t, want.t)));
        c.within(e, 1e-2 * (1.0 + size / scale), "pipeline-other-world", det);
        c.soft_at(3e-2, e, 1e-6 * (1.0 + size / scale), "rate-pipeline-other-world", det);
    } else {
        c.fail("pipeline-no-pose-in-other-world", det());
    }
}
pub fn c26() -> Prop {
    Prop {
        id: "C26",
        rule: "a case is one scene with 24..80 shuffled matches, 0..50% of them wrong (another direction, the opposite one, or one close by; meeting behind the cameras), one inlier threshold and one consensus run: plain voting whose samples contain a few clean well-conditioned ones, or ARRSAC with its own sampling; or one reconstruction from pixels of three distorted views; non-trivial = distinct scenes which have the clean samples",
        assumptions: &[
            "wrong matches are wrong by a margin (0.05 rad, epipolar sine 0.02, or behind), exact ones have a parallax of at least 0.03",
            "ARRSAC is a dependency whose sampling may fail; its results are bounded statistically",
        ],
        workloads: vec![
            wl("world-vote", 4000, 60_000, 0.7, c26_world_vote),
            wl("world-arrsac", 500, 10_000, 0.9, c26_world_arrsac),
            wl("eight-vote", 3000, 40_000, 0.5, c26_eight_vote),
            wl("eight-arrsac", 120, 4_000, 0.9, c26_eight_arrsac),
            wl("five-vote", 600, 15_000, 0.4, c26_five_vote),
            wl("five-arrsac", 100, 1_500, 0.9, c26_five_arrsac),
            wl("essential", 4000, 60_000, 0.3, c26_essential),
            wl("reconstruct", 1000, 20_000, 0.4, c26_reconstruct),
        ],
    }
}
