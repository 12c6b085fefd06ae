//! Synthetic scenes, a consensus, and a look at the whole state of a map.
use crate::fw::*;
use crate::m::*;
use bitarray::BitArray;
use cv_core::nalgebra::IsometryMatrix3;
use cv_core::sample_consensus::{Consensus, Estimator, Model};
use cv_core::{Pose, WorldToCamera};
use cv_geom::triangulation::LinearEigenTriangulator;
use cv_pinhole::{CameraIntrinsics, CameraIntrinsicsK1Distortion};
use cv_sfm::*;
use eight_point::EightPoint;
use lambda_twist::LambdaTwist;
use rand::SeedableRng;
use std::collections::{BTreeMap, BTreeSet};

pub type Slam = VSlam<Vote, Vote, LambdaTwist, EightPoint, LinearEigenTriangulator, rand_pcg::Pcg64>;
pub type NIso = IsometryMatrix3<f64>;

/// A plain vote over random samples.
pub struct Vote {
    pub rng: Rng,
    pub threshold: f64,
    pub rounds: usize,
}
impl<E: Estimator<D>, D: Copy> Consensus<E, D> for Vote {
    type Inliers = Vec<usize>;
    fn model<I: Iterator<Item = D> + Clone>(&mut self, e: &E, data: I) -> Option<E::Model> {
        self.model_inliers(e, data).map(|x| x.0)
    }
    fn model_inliers<I: Iterator<Item = D> + Clone>(&mut self, e: &E, data: I) -> Option<(E::Model, Vec<usize>)> {
        let d: Vec<D> = data.collect();
        if d.len() < E::MIN_SAMPLES {
            return None;
        }
        let mut best: Option<(usize, f64, E::Model)> = None;
        let mut rounds = self.rounds;
        let mut r = 0;
        while r < rounds {
            r += 1;
            let mut pick: Vec<usize> = vec![];
            while pick.len() < E::MIN_SAMPLES {
                let i = self.rng.below(d.len());
                if !pick.contains(&i) {
                    pick.push(i);
                }
            }
            for m in e.estimate(pick.iter().map(|&i| d[i])) {
                let (mut n, mut sum) = (0usize, 0.0);
                for x in &d {
                    let v = m.residual(x);
                    if v < self.threshold {
                        n += 1;
                        sum += v;
                    }
                }
                if best.as_ref().map_or(true, |b| n > b.0 || n == b.0 && sum < b.1) {
                    best = Some((n, sum, m));
                    // the usual stop: a good sample has been drawn with a probability of 1 - 1e-4
                    let p = (n as f64 / d.len() as f64).powi(E::MIN_SAMPLES as i32);
                    if p > 1e-9 {
                        let need = (1e-4f64.ln() / (1.0 - p.min(0.999999)).ln()).ceil();
                        rounds = rounds.min((need as usize).max(20));
                    }
                }
            }
        }
        let (n, _, m) = best?;
        if n < E::MIN_SAMPLES {
            return None;
        }
        let inl = (0..d.len()).filter(|&i| m.residual(&d[i]) < self.threshold).collect();
        Some((m, inl))
    }
}
pub fn slam(r: &mut Rng, settings: VSlamSettings) -> Slam {
    let vote = |r: &mut Rng, threshold| Vote { rng: Rng::new(r.u64()), threshold, rounds: 600 };
    let (a, b) = (vote(r, settings.single_view_consensus_threshold), vote(r, settings.two_view_consensus_threshold));
    let seed = r.u64();
    VSlam::new(VSlamData::default(), settings, a, b, LambdaTwist::new(), EightPoint::new(), LinearEigenTriangulator::new(), rand_pcg::Pcg64::seed_from_u64(seed))
}
pub fn intrinsics() -> CameraIntrinsicsK1Distortion {
    CameraIntrinsicsK1Distortion::new(CameraIntrinsics::identity(), 0.0)
}
/// Settings for maps of a hundred points rather than thousands.
pub fn small() -> VSlamSettings {
    VSlamSettings {
        minimum_robust_landmarks: 8,
        single_view_minimum_landmarks: 12,
        single_view_minimum_robust_landmarks: 12,
        single_view_filter_loop_iterations: 2,
        single_view_patience: 100,
        two_view_minimum_robust_matches: 24,
        three_view_patience: 100,
        three_view_filter_loop_iterations: 2,
        three_view_minimum_robust_matches: 16,
        constraint_patience: 100,
        optimization_minimum_landmarks: 8,
        optimization_maximum_landmarks: 32,
        optimization_robust_covisibility_minimum_landmarks: 8,
        optimization_minimum_new_constraints: 1,
        optimization_maximum_three_view_constraints: 6,
        optimization_iterations: 8,
        ..Default::default()
    }
}

pub struct World {
    pub pts: Vec<V3>,
    pub desc: Vec<BitArray<64>>,
    pub col: Vec<[u8; 3]>,
}
pub fn descriptor(r: &mut Rng) -> BitArray<64> {
    let mut b = [0u8; 64];
    for k in b.iter_mut() {
        *k = (r.u64() >> 20) as u8;
    }
    BitArray::new(b)
}
pub fn flipped(r: &mut Rng, d: &BitArray<64>, n: usize) -> BitArray<64> {
    let mut b = *d.bytes();
    for _ in 0..n {
        let k = r.below(512);
        b[k / 8] ^= 1 << (k % 8);
    }
    BitArray::new(b)
}
/// Points in front of the camera of identity pose, between 3 and 12 units away, more or less in depth.
pub fn world(r: &mut Rng, n: usize) -> World {
    let (near, far) = (r.range(3.0, 5.0), r.range(6.0, 12.0));
    let pts = (0..n).map(|_| { let z = r.range(near, far); [r.range(-0.7, 0.7) * z, r.range(-0.6, 0.6) * z, z] }).collect();
    let desc = (0..n).map(|_| descriptor(r)).collect();
    let col = (0..n).map(|_| [r.below(256) as u8, r.below(256) as u8, r.below(256) as u8]).collect();
    World { pts, desc, col }
}
/// A camera near the origin which looks at the scene.
pub fn camera(r: &mut Rng, reach: f64) -> Iso {
    let c = [r.range(-reach, reach), r.range(-reach, reach) * 0.6, r.range(-reach, reach) * 0.6];
    let target = [r.range(-0.3, 0.3), r.range(-0.3, 0.3), 7.0];
    look_at(c, target, r.range(-0.3, 0.3))
}
pub fn look_at(c: V3, target: V3, roll: f64) -> Iso {
    let z = unit(sub(target, c));
    let x = unit(cross([0.0, 1.0, 0.0], z));
    let y = cross(z, x);
    let q = rot_aa([0.0, 0.0, 1.0], roll);
    let r = mm(&q, &[x, y, z]);
    Iso { r, t: neg(mv(&r, c)) }
}
#[derive(Clone, Copy)]
pub struct Look {
    /// standard deviation of a bearing, radians
    pub noise: f64,
    /// share of the visible points which are not seen
    pub miss: f64,
    /// share of features which show a point with a wrong bearing
    pub wrong: f64,
    /// features of no point
    pub clutter: usize,
    /// bits flipped in a descriptor
    pub flips: usize,
}
/// What the camera sees: features, and the point each of them shows truthfully.
pub fn observe(r: &mut Rng, w: &World, pose: &Iso, k: Look) -> (Vec<(BitArray<64>, Feature)>, Vec<Option<usize>>) {
    let mut v: Vec<(BitArray<64>, Feature, Option<usize>)> = vec![];
    for (i, p) in w.pts.iter().enumerate() {
        let q = pose.apply(*p);
        if q[2] < 0.5 || q[0].abs() > q[2] || q[1].abs() > q[2] || r.chance(k.miss) {
            continue;
        }
        let wrong = r.chance(k.wrong);
        let b = if wrong { [r.range(-0.8, 0.8), r.range(-0.8, 0.8), 1.0] } else { add(unit(q), [k.noise * r.normal(), k.noise * r.normal(), k.noise * r.normal()]) };
        let n = r.below(k.flips + 1);
        v.push((flipped(r, &w.desc[i], n), Feature { bearing: nu(unit(b)), response: 0.0, color: w.col[i] }, (!wrong).then_some(i)));
    }
    for _ in 0..k.clutter {
        let b = [r.range(-0.8, 0.8), r.range(-0.8, 0.8), 1.0];
        v.push((descriptor(r), Feature { bearing: nu(unit(b)), response: 0.0, color: [7, 8, 9] }, None));
    }
    r.shuffle(&mut v);
    let n = v.len();
    for (i, f) in v.iter_mut().enumerate() {
        f.1.response = (n - i) as f32 * 1e-3;
    }
    let truth = v.iter().map(|x| x.2).collect();
    (v.into_iter().map(|x| (x.0, x.1)).collect(), truth)
}

// ------------------------------------------------------------------------------ the state of a map
pub type Part = Vec<(ViewKey, usize)>;
#[derive(Clone, PartialEq, Debug)]
pub struct ViewSnap {
    pub frame: FrameKey,
    pub pose: Iso12,
    pub landmarks: Vec<LandmarkKey>,
}
pub type Iso12 = [f64; 12];
#[derive(Clone, PartialEq, Debug, Default)]
pub struct RecSnap {
    pub views: BTreeMap<ViewKey, ViewSnap>,
    pub lms: BTreeMap<LandmarkKey, BTreeMap<ViewKey, usize>>,
    pub cons: Vec<([ViewKey; 3], [Iso12; 2])>,
}
impl RecSnap {
    /// The landmarks as sets of observations.
    pub fn parts(&self) -> BTreeSet<Part> {
        self.lms.values().map(|o| o.iter().map(|(v, f)| (*v, *f)).collect()).collect()
    }
    pub fn constrained(&self) -> BTreeSet<ViewKey> {
        self.cons.iter().flat_map(|c| c.0).collect()
    }
}
#[derive(Clone, PartialEq, Debug, Default)]
pub struct Snap {
    pub recs: BTreeMap<ReconstructionKey, RecSnap>,
    pub frames: BTreeMap<FrameKey, (FeedKey, usize, Option<(ReconstructionKey, ViewKey)>, usize)>,
    pub feeds: BTreeMap<FeedKey, Vec<FrameKey>>,
}
pub fn i12(i: &NIso) -> Iso12 {
    flat(&Iso::of(i))
}
pub fn snap(d: &VSlamData) -> Snap {
    let mut s = Snap::default();
    for rk in d.reconstructions() {
        let r = d.reconstruction(rk);
        let mut q = RecSnap::default();
        for (k, v) in r.views.iter() {
            q.views.insert(k, ViewSnap { frame: v.frame, pose: i12(&v.pose.isometry()), landmarks: v.landmarks.clone() });
        }
        for (k, l) in r.landmarks.iter() {
            q.lms.insert(k, l.observations.iter().map(|(v, f)| (*v, *f)).collect());
        }
        for (_, c) in r.constraints.iter() {
            let (v, p) = c.monitor_parts();
            q.cons.push((v, [i12(&p[0]), i12(&p[1])]));
        }
        q.cons.sort_by(|a, b| a.partial_cmp(b).unwrap_or(std::cmp::Ordering::Equal));
        s.recs.insert(rk, q);
    }
    for (fk, frames) in d.monitor_feeds() {
        s.feeds.insert(fk, frames);
    }
    for fk in d.monitor_frames() {
        let f = d.frame(fk);
        s.frames.insert(fk, (f.feed, f.feed_frame, f.view, f.descriptor_features.len()));
    }
    s
}
/// What must hold of every map, or what does not.
pub fn integrity(s: &Snap) -> Result<(), String> {
    for (fk, frames) in &s.feeds {
        for (i, f) in frames.iter().enumerate() {
            let Some(x) = s.frames.get(f) else { return Err(format!("feed {fk:?} lists the frame {f:?}, which does not exist")) };
            if x.0 != *fk || x.1 != i {
                return Err(format!("frame {f:?} is number {i} of feed {fk:?} but says number {} of {:?}", x.1, x.0));
            }
        }
    }
    let listed: usize = s.feeds.values().map(|f| f.len()).sum();
    if listed != s.frames.len() {
        return Err(format!("the feeds list {listed} frames of {}", s.frames.len()));
    }
    for (f, x) in &s.frames {
        if let Some((rk, vk)) = x.2 {
            match s.recs.get(&rk).and_then(|r| r.views.get(&vk)) {
                None => return Err(format!("frame {f:?} names the view {vk:?} of {rk:?}, which does not exist")),
                Some(v) if v.frame != *f => return Err(format!("frame {f:?} names the view {vk:?}, which shows frame {:?}", v.frame)),
                _ => {}
            }
        }
    }
    for (rk, r) in &s.recs {
        for (vk, v) in &r.views {
            let Some(f) = s.frames.get(&v.frame) else { return Err(format!("view {vk:?} shows frame {:?}, which does not exist", v.frame)) };
            if f.2 != Some((*rk, *vk)) {
                return Err(format!("view {vk:?} of {rk:?} shows frame {:?}, which names the view {:?}", v.frame, f.2));
            }
            if v.landmarks.len() != f.3 {
                return Err(format!("view {vk:?} has {} landmarks for {} features", v.landmarks.len(), f.3));
            }
            for (i, l) in v.landmarks.iter().enumerate() {
                match r.lms.get(l) {
                    None => return Err(format!("feature {i} of view {vk:?} names the landmark {l:?}, which does not exist")),
                    Some(o) if o.get(vk) != Some(&i) => return Err(format!("feature {i} of view {vk:?} names the landmark {l:?}, which was observed there as {:?}", o.get(vk))),
                    _ => {}
                }
            }
        }
        for (l, o) in &r.lms {
            if o.is_empty() {
                return Err(format!("landmark {l:?} has no observation"));
            }
            for (v, f) in o {
                if r.views.get(v).and_then(|v| v.landmarks.get(*f)) != Some(l) {
                    return Err(format!("landmark {l:?} was observed as feature {f} of view {v:?}, which names {:?}", r.views.get(v).and_then(|v| v.landmarks.get(*f))));
                }
            }
        }
        for (v, p) in &r.cons {
            if v[0] == v[1] || v[0] == v[2] || v[1] == v[2] || v.iter().any(|v| !r.views.contains_key(v)) {
                return Err(format!("a constraint is on the views {v:?} of {:?}", r.views.keys().collect::<Vec<_>>()));
            }
            if p.iter().any(|p| p.iter().any(|x| !x.is_finite())) {
                return Err(format!("a constraint is not finite: {p:?}"));
            }
        }
        for (vk, v) in &r.views {
            if v.pose.iter().any(|x| !x.is_finite()) {
                return Err(format!("the pose of view {vk:?} is not finite: {:?}", v.pose));
            }
            let m: M3 = std::array::from_fn(|i| std::array::from_fn(|j| v.pose[i * 3 + j]));
            if rot_defect(&m) > 1e-9 {
                return Err(format!("the pose of view {vk:?} is not a rotation: {:?}", v.pose));
            }
        }
    }
    Ok(())
}
pub fn w2c(i: &Iso) -> WorldToCamera {
    WorldToCamera(i.na())
}
