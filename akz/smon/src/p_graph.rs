//! C33: the pose graph of a reconstruction: its constraints, a step of its optimisation, normalisation.
use crate::fw::*;
use crate::m::*;
use crate::p_map::unflat;
use crate::scene::*;
use cv_core::{CameraToCamera, Pose, Projective};
use cv_sfm::*;
use std::collections::{BTreeMap, BTreeSet, HashMap};

pub fn c33() -> Prop {
    Prop {
        id: "C33",
        rule: "distinct pose graphs, by their poses after the operation",
        assumptions: &["the containers cv-sfm is built on are replaced by exact stand-ins, as they are not available offline"],
        workloads: vec![
            wl("edges", 4000, 100000, 0.95, |c| c.isolated(crate::fixed_hashing, edges)),
            wl("steps", 1500, 40000, 0.9, |c| c.isolated(crate::fixed_hashing, steps)),
            wl("settles", 60, 1200, 0.9, |c| c.isolated(crate::fixed_hashing, settles)),
            wl("generated", 160, 3000, 0.5, |c| c.isolated(crate::fixed_hashing, generated)),
            wl("stationary", 120, 2500, 0.8, |c| c.isolated(crate::fixed_hashing, stationary)),
            wl("normalised", 600, 12000, 0.8, |c| c.isolated(crate::fixed_hashing, normalised)),
        ],
    }
}

fn any_iso(r: &mut Rng, ang: f64, reach: f64) -> Iso {
    let axis = unit([r.normal(), r.normal(), r.normal()]);
    let a = r.range(-ang, ang);
    Iso { r: rot_aa(axis, a), t: [reach * r.normal(), reach * r.normal(), reach * r.normal()] }
}
fn rel(a: &Iso, b: &Iso) -> Iso {
    a.inv().then(b)
}
/// A bare reconstruction of `poses` whose frames have no feature.
fn bare(s: &mut Slam, poses: &[Iso]) -> (ReconstructionKey, Vec<ViewKey>, Vec<FrameKey>) {
    let feed = s.add_feed(intrinsics());
    let rk = s.data.monitor_new_reconstruction();
    let (mut vs, mut fs) = (vec![], vec![]);
    for p in poses {
        let f = s.data.monitor_add_frame(feed, vec![]);
        vs.push(s.data.monitor_add_view(rk, f, w2c(p), |_| None));
        fs.push(f);
    }
    (rk, vs, fs)
}
/// The rotation vector of a rotation, by a series-free route (the angle from both trace and skew part).
fn log3(m: &M3) -> V3 {
    let w = [0.5 * (m[2][1] - m[1][2]), 0.5 * (m[0][2] - m[2][0]), 0.5 * (m[1][0] - m[0][1])];
    let s = norm(w);
    let c = 0.5 * (m[0][0] + m[1][1] + m[2][2] - 1.0);
    let ang = s.atan2(c);
    if s < 1e-300 { [0.0; 3] } else { mul(w, ang / s) }
}
fn diff(a: &Iso, b: &Iso) -> f64 {
    rot_dist(&a.r, &b.r) + norm(sub(a.t, b.t)) / (1.0 + norm(a.t))
}

fn edges(c: &mut Case) {
    let r = &mut c.rng;
    let mut s = slam(r, small());
    let far = r.log(1e-3, 1e3);
    let p: Vec<Iso> = (0..3).map(|_| any_iso(r, 3.0, far)).collect();
    let (_, vs, _) = bare(&mut s, &p);
    let (a, b) = (rel(&p[0], &p[1]), rel(&p[0], &p[2]));
    let k = ThreeViewConstraint::monitor_new([vs[0], vs[1], vs[2]], [a.na(), b.na()]);
    let Some(e) = c.call("edge_constraints", || k.monitor_edges()) else { return };
    let want: BTreeSet<(ViewKey, ViewKey)> = (0..3).flat_map(|i| (0..3).filter(move |j| *j != i).map(move |j| (i, j))).map(|(i, j)| (vs[i], vs[j])).collect();
    let got: BTreeSet<(ViewKey, ViewKey)> = e.iter().map(|x| (x.0, x.1 .0)).collect();
    c.check(e.len() == 6 && got == want, "edges-views", || format!("{got:?} expected {want:?}"));
    for (to, (from, iso)) in &e {
        let at = |v: &ViewKey| vs.iter().position(|x| x == v);
        let (Some(i), Some(j)) = (at(to), at(from)) else { continue };
        let w = rel(&p[j], &p[i]);
        let g = Iso::of(iso);
        c.within(rot_dist(&g.r, &w.r) + norm(sub(g.t, w.t)) / far, 1e-10, "edge-pose", || format!("from view {j} to view {i}: {:?} expected {:?}", flat(&g), flat(&w)));
    }
    c.nontrivial(hash_f64s(&flat(&a)));
}

struct Graph {
    poses: Vec<Iso>,
    cons: Vec<([usize; 3], [Iso; 2])>,
}
/// Poses after one step, `None` for views which cannot be placed.
fn model_step(g: &Graph, alive: &[bool], rate: f64) -> Vec<Option<Iso>> {
    let n = g.poses.len();
    let mut sum = vec![[0.0f64; 6]; n];
    let mut some = vec![false; n];
    for (v, p) in &g.cons {
        if v.iter().any(|v| !alive[*v]) {
            continue;
        }
        // all three poses relative to the first
        let r = [Iso::id(), p[0], p[1]];
        for i in 0..3 {
            for j in 0..3 {
                if i == j {
                    continue;
                }
                // where view i should be, by view j
                let want = g.poses[v[j]].then(&rel(&r[j], &r[i]));
                let d = g.poses[v[i]].inv().then(&want);
                let w = log3(&d.r);
                some[v[i]] = true;
                for k in 0..3 {
                    sum[v[i]][k] += d.t[k];
                    sum[v[i]][3 + k] += w[k];
                }
            }
        }
    }
    (0..n)
        .map(|i| {
            if !alive[i] || !some[i] || sum[i].iter().any(|x| !x.is_finite()) {
                return None;
            }
            let s = sum[i];
            let d = Iso { t: [s[0] * rate, s[1] * rate, s[2] * rate], r: exp3([s[3] * rate, s[4] * rate, s[5] * rate]) };
            Some(g.poses[i].then(&d))
        })
        .collect()
}
fn graph(r: &mut Rng, n: usize, m: usize, err: f64) -> Graph {
    let far = r.log(0.1, 10.0);
    let poses: Vec<Iso> = (0..n).map(|_| any_iso(r, 1.0, far)).collect();
    let mut cons = vec![];
    for _ in 0..m {
        let mut v: Vec<usize> = (0..n).collect();
        r.shuffle(&mut v);
        v.truncate(3);
        v.sort();
        let p: Vec<Iso> = (1..3).map(|i| rel(&poses[v[0]], &poses[v[i]]).then(&any_iso(r, err, err * far))).collect();
        cons.push(([v[0], v[1], v[2]], [p[0], p[1]]));
    }
    Graph { poses, cons }
}
fn put(s: &mut Slam, g: &Graph) -> (ReconstructionKey, Vec<ViewKey>, Vec<FrameKey>) {
    let (rk, vs, fs) = bare(s, &g.poses);
    for (v, p) in &g.cons {
        let k = ThreeViewConstraint::monitor_new([vs[v[0]], vs[v[1]], vs[v[2]]], [p[0].na(), p[1].na()]);
        s.data.monitor_reconstruction_mut(rk).constraints.insert(k);
    }
    (rk, vs, fs)
}

/// `apply_constraints` against a model of its steps.
fn steps(c: &mut Case) {
    let n = 3 + c.rng.below(7);
    let m = 1 + c.rng.below(8);
    let err = if c.rng.chance(0.2) { 0.0 } else { c.rng.log(1e-6, 0.6) };
    let mut g = graph(&mut c.rng, n, m, err);
    let mut st = small();
    st.optimization_iterations = 1 + c.rng.below(12);
    st.graph_optimization_rate = c.rng.log(1e-4, 0.03);
    // an unusable constraint takes its views out, and nothing else
    let broken = c.rng.chance(0.15);
    if broken {
        let k = c.rng.below(m);
        let bad = c.rng.pick(&[f64::NAN, f64::INFINITY]);
        let i = c.rng.below(2);
        g.cons[k].1[i].t[c.rng.below(3)] = bad;
    }
    let mut s = slam(&mut c.rng, st);
    let (rk, vs, fs) = put(&mut s, &g);
    let Some(got) = c.call("apply_constraints", || s.apply_constraints(rk)) else { return };
    let after = snap(&s.data);
    // the model
    let mut alive = vec![true; n];
    let mut lost = false;
    for _ in 0..st.optimization_iterations {
        let next = model_step(&g, &alive, st.graph_optimization_rate);
        if next.iter().filter(|x| x.is_some()).count() < 3 {
            lost = true;
            break;
        }
        for i in 0..n {
            match next[i] {
                Some(p) => g.poses[i] = p,
                None => alive[i] = false,
            }
        }
    }
    if lost {
        c.check(got.is_none() && !after.recs.contains_key(&rk), "kept-without-three-views", || format!("{got:?}, {:?} of {n} views are kept", after.recs.get(&rk).map(|r| r.views.len())));
        c.check(fs.iter().all(|f| after.frames[f].2.is_none()), "frames-of-removed", || "a frame still has a view".into());
        c.bin("reconstruction removed");
    } else {
        let Some(r) = after.recs.get(&rk).filter(|_| got == Some(rk)) else {
            c.fail("lost-reconstruction", format!("{got:?}, with {} views to place", alive.iter().filter(|x| **x).count()));
            return;
        };
        let kept: Vec<bool> = vs.iter().map(|v| r.views.contains_key(v)).collect();
        if !c.check(kept == alive, "views-removed", || format!("{kept:?} kept, expected {alive:?}")) {
            return;
        }
        let size = g.poses.iter().map(|p| norm(p.t)).fold(1.0, f64::max);
        let mut d = 0.0f64;
        for i in 0..n {
            if alive[i] {
                let p = unflat(&r.views[&vs[i]].pose);
                d = d.max(rot_dist(&p.r, &g.poses[i].r) + norm(sub(p.t, g.poses[i].t)) / size);
            } else {
                c.check(after.frames[&fs[i]].2.is_none(), "frames-of-removed", || "a frame still has a view".into());
            }
        }
        c.within(d, 1e-9, "step-pose", || format!("{n} views, {m} constraints, {} iterations at a rate of {}: off by {d:e}", st.optimization_iterations, st.graph_optimization_rate));
        c.bin(if alive.iter().all(|x| *x) { "all views placed" } else { "some views removed" });
        if err == 0.0 && !broken {
            c.bin("constraints already satisfied");
        }
    }
    if broken {
        c.bin("unusable constraint");
    }
    c.nontrivial(hash_f64s(&flat(&g.poses[0])) ^ (n as u64) << 40 ^ (m as u64) << 50);
}

/// Many steps on a graph of constraints which agree with each other settle on poses which satisfy all of them.
fn settles(c: &mut Case) {
    let n = 3 + c.rng.below(4);
    let mut g = graph(&mut c.rng, n, 0, 0.0);
    let truth = g.poses.clone();
    for a in 0..n {
        for b in a + 1..n {
            for d in b + 1..n {
                g.cons.push(([a, b, d], [rel(&truth[a], &truth[b]), rel(&truth[a], &truth[d])]));
            }
        }
    }
    let err = c.rng.log(1e-3, 0.15);
    let size = truth.iter().map(|p| norm(p.t)).fold(0.3, f64::max);
    for p in g.poses.iter_mut() {
        *p = p.then(&any_iso(&mut c.rng, err, err * size * 0.5));
    }
    let mut st = small();
    let per_view = ((n - 1) * (n - 2)) as f64; // edges which end in a view
    st.graph_optimization_rate = c.rng.range(0.05, 0.25) / per_view;
    // each iteration takes a share of the deviation away: 0.05 * n / (n - 1) at least
    st.optimization_iterations = 400;
    let mut s = slam(&mut c.rng, st);
    let (rk, vs, _) = put(&mut s, &g);
    let worst = |p: &[Iso]| g.cons.iter().flat_map(|(v, q)| (0..2).map(|i| diff(&q[i], &rel(&p[v[0]], &p[v[i + 1]]))).collect::<Vec<_>>()).fold(0.0, f64::max);
    let start = worst(&g.poses);
    if c.call("apply_constraints", || s.apply_constraints(rk)).flatten().is_none() {
        c.fail("lost-reconstruction", "removed".into());
        return;
    }
    let sn = snap(&s.data);
    let p: Vec<Iso> = vs.iter().map(|v| unflat(&sn.recs[&rk].views[v].pose)).collect();
    c.within(worst(&p), 1e-3 * start + 1e-9, "does-not-settle", || format!("{n} views started {start:e} off and ended {:e} off", worst(&p)));
    c.nontrivial(hash_f64s(&flat(&p[0])));
}

/// A map of a world, each feature with the landmark of its point, from exact or nearly exact poses.
pub struct Map {
    pub s: Slam,
    pub rk: ReconstructionKey,
    pub w: World,
    pub views: Vec<ViewKey>,
    pub frames: Vec<FrameKey>,
    pub truth: Vec<Iso>,
    /// which point a feature shows
    pub shows: BTreeMap<ViewKey, Vec<Option<usize>>>,
    pub bearings: BTreeMap<ViewKey, Vec<V3>>,
}
pub fn map_of(r: &mut Rng, st: VSlamSettings, n: usize, poses: &[Iso], off: &[Iso], look: Look) -> Map {
    let mut s = slam(r, st);
    let feed = s.add_feed(intrinsics());
    let rk = s.data.monitor_new_reconstruction();
    let w = world(r, n);
    let mut m = Map { s, rk, w, views: vec![], frames: vec![], truth: poses.to_vec(), shows: Default::default(), bearings: Default::default() };
    let mut lm: HashMap<usize, LandmarkKey> = HashMap::new();
    for (p, e) in poses.iter().zip(off) {
        let (f, t) = observe(r, &m.w, p, look);
        let b = f.iter().map(|x| ou(&x.1.bearing)).collect();
        let fk = m.s.data.monitor_add_frame(feed, f);
        let vk = m.s.data.monitor_add_view(rk, fk, w2c(&p.then(e)), |i| {
            let l = *lm.get(&t[i]?)?;
            let mut a: Vec<LandmarkKey> = vec![l];
            Some(a.drain(..).collect())
        });
        for (i, q) in t.iter().enumerate() {
            if let Some(q) = q {
                lm.insert(*q, m.s.data.view(rk, vk).landmarks[i]);
            }
        }
        m.views.push(vk);
        m.frames.push(fk);
        m.shows.insert(vk, t);
        m.bearings.insert(vk, b);
    }
    m
}
/// A ring of cameras with enough baseline.
pub fn cameras(r: &mut Rng, n: usize, reach: f64) -> Vec<Iso> {
    (0..n).map(|_| camera(r, reach)).collect()
}
/// Whether observations make a robust landmark: by the settings, `None` when it is too close to call.
pub fn robust(st: &VSlamSettings, nviews: usize, o: &[(Iso, V3)]) -> Option<bool> {
    if o.len() < st.robust_minimum_observations.min(nviews) {
        return Some(false);
    }
    let w: Vec<V3> = o.iter().map(|(p, b)| unit(mv(&tr(&p.r), *b))).collect();
    let mut best = f64::MIN;
    for i in 0..w.len() {
        for j in i + 1..w.len() {
            let d = sub(w[i], w[j]);
            best = best.max(0.5 * dot(d, d));
        }
    }
    let min = st.robust_observation_incidence_minimum_cosine_distance;
    if (best - min).abs() < 1e-9 {
        return None;
    }
    Some(best > min)
}
pub fn observations(m: &Map, s: &RecSnap, l: LandmarkKey) -> Vec<(Iso, V3)> {
    s.lms[&l].iter().map(|(v, f)| (unflat(&s.views[v].pose), m.bearings[v][*f])).collect()
}

/// The constraints generated from covisibility.
fn generated(c: &mut Case) {
    let mut st = small();
    st.optimization_maximum_three_view_constraints = 1 + c.rng.below(8);
    st.optimization_minimum_landmarks = 6 + c.rng.below(20);
    st.optimization_robust_covisibility_minimum_landmarks = 6 + c.rng.below(20);
    st.optimization_minimum_new_constraints = c.rng.below(3);
    st.optimization_iterations = 0;
    st.reconstruction_optimization_iterations = 1;
    st.minimum_robust_landmarks = 0;
    st.maximum_cosine_distance = 2.1;
    st.maximum_sine_distance = 1.1;
    st.constraint_patience = c.rng.pick(&[100, 400]);
    st.robust_view_num_robust_bearing_pair = c.rng.pick(&[0, 3, 3]);
    let n = 3 + c.rng.below(4);
    let reach = c.rng.range(0.6, 1.5);
    let poses = cameras(&mut c.rng, n, reach);
    let exact = c.rng.chance(0.5);
    let e = if exact { 0.0 } else { c.rng.log(1e-5, 1e-2) };
    let off: Vec<Iso> = (0..n).map(|_| any_iso(&mut c.rng, e, e)).collect();
    let look = Look { noise: 0.0, miss: c.rng.range(0.0, 0.4), wrong: 0.0, clutter: c.rng.below(5), flips: 10 };
    let np = 30 + c.rng.below(60);
    let mut m = map_of(&mut c.rng, st, np, &poses, &off, look);
    let before = snap(&m.s.data).recs[&m.rk].clone();
    if c.call("regenerate_reconstruction", || m.s.regenerate_reconstruction(m.rk)).is_none() {
        return;
    }
    let after = snap(&m.s.data);
    let Some(r) = after.recs.get(&m.rk) else {
        c.fail("lost-reconstruction", "removed although nothing is asked of it".into());
        return;
    };
    c.check(r.views.iter().all(|(k, v)| before.views[k].pose == v.pose), "poses-changed", || "poses changed without a step".into());
    // how many robust landmarks three views have in common
    let mut unclear = false;
    let mut covis: HashMap<[ViewKey; 3], usize> = HashMap::new();
    let all: Vec<ViewKey> = before.views.keys().copied().collect();
    for l in before.lms.keys() {
        let o = observations(&m, &before, *l);
        match robust(&st, n, &o) {
            None => unclear = true,
            Some(false) => continue,
            _ => {}
        }
        let v: Vec<ViewKey> = before.lms[l].keys().copied().collect();
        for i in 0..v.len() {
            for j in i + 1..v.len() {
                for k in j + 1..v.len() {
                    *covis.entry([v[i], v[j], v[k]]).or_default() += 1;
                }
            }
        }
    }
    if unclear {
        c.inconclusive("robustness too close to call");
        return;
    }
    let need = st.optimization_minimum_landmarks.max(st.optimization_robust_covisibility_minimum_landmarks);
    c.check(r.cons.len() <= n * st.optimization_maximum_three_view_constraints, "too-many-constraints", || format!("{} for {n} views of at most {}", r.cons.len(), st.optimization_maximum_three_view_constraints));
    for (v, p) in &r.cons {
        let k = covis.get(v).copied().unwrap_or(0);
        c.check(v[0] < v[1] && v[1] < v[2], "constraint-order", || format!("{v:?}"));
        c.check(k >= need, "constraint-without-landmarks", || format!("{k} robust landmarks in common, {need} are needed"));
        let now: Vec<Iso> = (0..3).map(|i| unflat(&before.views[&v[i]].pose)).collect();
        let (a, b) = (rel(&now[0], &now[1]), rel(&now[0], &now[2]));
        let (size, got) = (norm(a.t) + norm(b.t), norm(unflat(&p[0]).t) + norm(unflat(&p[1]).t));
        c.within((got / size - 1.0).abs(), 1e-9, "constraint-scale", || format!("{got} for {size}"));
        if exact {
            let at: Vec<usize> = v.iter().map(|k| m.views.iter().position(|x| x == k).unwrap()).collect();
            let d = (0..2).map(|i| diff(&unflat(&p[i]), &rel(&poses[at[0]], &poses[at[i + 1]]))).fold(0.0, f64::max);
            c.within(d, 1e-6, "constraint-pose", || format!("{d:e} away from the true relative poses"));
        }
    }
    // every view which shares enough landmarks with two others is constrained, as far as the limit goes
    if st.robust_view_num_robust_bearing_pair == 0 {
        let constrained = r.constrained();
        for v in &all {
            let can = covis.iter().filter(|(k, x)| k.contains(v) && **x >= need).count();
            let enough = can.min(st.optimization_maximum_three_view_constraints) >= st.optimization_minimum_new_constraints;
            if can > 0 && enough {
                c.check(constrained.contains(v), "view-without-constraint", || format!("{v:?} shares {need} robust landmarks with two views in {can} ways"));
            }
            let mine = r.cons.iter().filter(|x| x.0.contains(v)).count();
            let least = can.min(st.optimization_maximum_three_view_constraints);
            if enough {
                c.check(mine >= least, "too-few-constraints", || format!("{mine} for {v:?}, {least} are possible"));
            }
        }
    }
    if !r.cons.is_empty() {
        c.bin(if exact { "from exact poses" } else { "from deviating poses" });
        c.nontrivial(hash_f64s(&r.cons[0].1[0]));
    }
}

/// A camera which stood still for some frames: they are no reason to lose the others.
fn stationary(c: &mut Case) {
    let mut st = small();
    st.optimization_minimum_landmarks = 8;
    st.optimization_robust_covisibility_minimum_landmarks = 8;
    st.optimization_minimum_new_constraints = 0;
    st.optimization_iterations = 2 + c.rng.below(6);
    st.minimum_robust_landmarks = 0;
    st.constraint_patience = 100;
    let (k, n) = (2 + c.rng.below(3), 3 + c.rng.below(3));
    let mut poses = cameras(&mut c.rng, n, 1.2);
    let at = c.rng.below(n + 1);
    let still = if c.rng.chance(0.5) { Iso::id() } else { camera(&mut c.rng, 1.2) };
    for _ in 0..k {
        poses.insert(at, still);
    }
    let n = poses.len();
    let off: Vec<Iso> = vec![Iso::id(); n];
    let look = Look { noise: c.rng.pick(&[0.0, 1e-6]), miss: c.rng.range(0.0, 0.2), wrong: 0.0, clutter: c.rng.below(5), flips: 10 };
    let mut m = map_of(&mut c.rng, st, 60, &poses, &off, look);
    let Some(got) = c.call("regenerate_reconstruction", || m.s.regenerate_reconstruction(m.rk)) else { return };
    let s = snap(&m.s.data);
    if let Err(e) = integrity(&s) {
        c.fail("inconsistent-after-standing-still", e);
        return;
    }
    c.bin(if got.is_some() { "kept" } else { "removed" });
    let Some(r) = s.recs.get(&m.rk) else {
        c.fail("standing-still-loses-the-map", format!("{k} of {n} frames are from one place"));
        return;
    };
    let moving = (0..n).filter(|i| !(at..at + k).contains(i) && !r.views.contains_key(&m.views[*i])).count();
    c.check(moving == 0, "standing-still-loses-views", || format!("{moving} views from elsewhere were removed; {k} of {n} frames are from one place"));
    c.check(r.cons.len() > 0, "standing-still-constraints", || "no constraint".into());
    c.nontrivial(hash_f64s(&r.cons[0].1[0]));
}

fn normalised(c: &mut Case) {
    let mut st = small();
    st.robust_minimum_observations = c.rng.pick(&[2, 3, 4]);
    let n = 3 + c.rng.below(5);
    let reach = c.rng.range(0.1, 1.5);
    let mut poses = cameras(&mut c.rng, n, reach);
    // anywhere in the world, of any size
    let (g, k) = (any_iso(&mut c.rng, 3.0, 5.0), c.rng.log(1e-3, 1e3));
    let off: Vec<Iso> = vec![Iso::id(); n];
    let look = Look { noise: c.rng.log(1e-8, 1e-3), miss: c.rng.range(0.0, 0.5), wrong: 0.0, clutter: c.rng.below(5), flips: 10 };
    let mut m = map_of(&mut c.rng, st, 40, &poses, &off, look);
    for (p, v) in poses.iter_mut().zip(&m.views) {
        let q = g.then(p);
        *p = Iso { r: q.r, t: mul(q.t, k) };
        m.s.data.monitor_reconstruction_mut(m.rk).views[*v].pose = w2c(p);
    }
    let mut rels: Vec<[Iso; 2]> = vec![];
    for i in 0..n - 2 {
        let rl = [rel(&poses[i], &poses[i + 1]), rel(&poses[i], &poses[i + 2])];
        m.s.data.monitor_reconstruction_mut(m.rk).constraints.insert(ThreeViewConstraint::monitor_new([m.views[i], m.views[i + 1], m.views[i + 2]], [rl[0].na(), rl[1].na()]));
        rels.push(rl);
    }
    if c.rng.chance(0.3) {
        // the first view is another one
        let v = m.views.remove(0);
        m.s.data.monitor_remove_view(m.rk, v);
        m.truth.remove(0);
        poses.remove(0);
    }
    let before = snap(&m.s.data).recs[&m.rk].clone();
    // what the first view is: the first by its place in the map
    let first = m.s.data.reconstruction(m.rk).views.keys().next().unwrap();
    if c.call("normalize_reconstruction", || m.s.normalize_reconstruction(m.rk)).is_none() {
        return;
    }
    let after = snap(&m.s.data).recs[&m.rk].clone();
    c.check(after.lms == before.lms && after.views.keys().eq(before.views.keys()) && after.cons.len() == before.cons.len(), "normalize-content", || "views, observations or constraints changed".into());
    // the mean distance of the robust landmarks which the first view sees
    let nv = before.views.len();
    let mut sum = (0.0, 0usize);
    let mut unclear = false;
    for l in before.views[&first].landmarks.iter() {
        let o = observations(&m, &before, *l);
        match robust(&st, nv, &o) {
            None => unclear = true,
            Some(true) => {
                if let Some(p) = m.s.data.reconstruction(m.rk).landmarks.get(*l).and_then(|_| m.s.triangulate_pose_bearings(o.iter().map(|(p, b)| (w2c(p), nu(*b))).collect::<Vec<_>>().into_iter())).and_then(|p| p.point()) {
                    sum.0 += norm(unflat(&before.views[&first].pose).apply([p.x, p.y, p.z]));
                    sum.1 += 1;
                }
            }
            _ => {}
        }
    }
    if unclear {
        c.inconclusive("robustness too close to call");
        return;
    }
    if sum.1 == 0 {
        c.check(after == before, "normalize-without-landmarks", || "the reconstruction changed".into());
        c.bin("no robust landmark");
        return;
    }
    let scale = sum.1 as f64 / sum.0;
    let origin = unflat(&before.views[&first].pose);
    let mut d = 0.0f64;
    let size = before.views.values().map(|v| norm(rel(&origin, &unflat(&v.pose)).t) * scale).fold(1.0, f64::max) + norm(origin.t) * scale;
    for (k, v) in &before.views {
        let w = rel(&origin, &unflat(&v.pose));
        let g = unflat(&after.views[k].pose);
        d = d.max(rot_dist(&g.r, &w.r)).max(norm(sub(g.t, mul(w.t, scale))) / size);
    }
    c.within(d, 1e-7, "normalised-pose", || format!("scale {scale}, first view {first:?}: {d:e} off"));
    for (a, b) in before.cons.iter().zip(&after.cons) {
        let same = a.0 == b.0;
        let e = (0..2).map(|i| rot_dist(&unflat(&a.1[i]).r, &unflat(&b.1[i]).r) + norm(sub(mul(unflat(&a.1[i]).t, scale), unflat(&b.1[i]).t)) / size).fold(0.0, f64::max);
        c.check(same, "normalised-constraint", || "order".into());
        c.within(e, 1e-7, "normalised-constraint", || format!("{e:e} off after scaling by {scale}"));
    }
    let _ = CameraToCamera::identity();
    c.nontrivial(hash_f64s(&after.views[&m.views[m.views.len() - 1]].pose));
}
