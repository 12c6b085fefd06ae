//! C35: frames of a synthetic scene, tracked end to end.
use crate::fw::*;
use crate::m::*;
use crate::p_map::unflat;
use crate::room::*;
use crate::scene::*;
use cv_core::nalgebra::{Point2, Vector2};
use cv_core::Projective;
use cv_pinhole::{CameraIntrinsics, CameraIntrinsicsK1Distortion};
use cv_sfm::*;
use std::collections::{BTreeMap, HashMap};

pub fn c35() -> Prop {
    Prop {
        id: "C35",
        rule: "distinct sequences tracked, by the poses they ended with",
        assumptions: &[
            "the containers and the nearest neighbor search cv-sfm is built on are replaced by exact stand-ins, as they are not available offline",
            "the consensus is a plain vote over random samples",
        ],
        workloads: vec![
            wl("sequences", 160, 3600, 0.8, |c| c.isolated(crate::fixed_hashing, sequences)),
            wl("joining", 96, 2000, 0.7, |c| c.isolated(crate::fixed_hashing, joining)),
            wl("strangers", 96, 2000, 0.6, |c| c.isolated(crate::fixed_hashing, strangers)),
            wl("scenes", 64, 1500, 0.8, |c| c.isolated(crate::fixed_hashing, scenes)),
            wl("pictures", 24, 400, 0.5, |c| c.isolated(crate::fixed_hashing, pictures)),
            wl("narrow", 96, 2000, 0.6, |c| c.isolated(crate::fixed_hashing, narrow)),
        ],
    }
}

/// Where a feature of a frame comes from.
pub struct Seen {
    pub pose: Iso,
    pub points: Vec<Option<usize>>,
}
/// Deviation of a reconstruction from the truth, after the best similarity: of rotations (radians), of camera positions
/// and of points (both relative to the extent of the scene).
pub fn deviation(r: &RecSnap, of: &HashMap<FrameKey, &Seen>, pts: &[(V3, V3)]) -> (f64, f64, f64, f64) {
    let v: Vec<(Iso, Iso)> = r.views.values().map(|v| (unflat(&v.pose), of[&v.frame].pose)).collect();
    // the rotation between the worlds: the one of the first view; the scale and shift from all
    let q = mm(&tr(&v[0].1.r), &v[0].0.r); // est world -> true world
    let rot = v.iter().map(|(e, t)| rot_dist(&mm(&e.r, &tr(&q)), &t.r)).fold(0.0, f64::max);
    let pairs: Vec<(V3, V3)> = v.iter().map(|(e, t)| (mv(&q, e.center()), t.center())).chain(pts.iter().map(|(e, t)| (mv(&q, *e), *t))).collect();
    let n = pairs.len() as f64;
    let mean = |f: &dyn Fn(&(V3, V3)) -> V3| mul(pairs.iter().fold([0.0; 3], |a, p| add(a, f(p))), 1.0 / n);
    let (me, mt) = (mean(&|p| p.0), mean(&|p| p.1));
    let (mut num, mut den) = (0.0, 0.0);
    for (e, t) in &pairs {
        num += dot(sub(*e, me), sub(*t, mt));
        den += dot(sub(*e, me), sub(*e, me));
    }
    let s = num / den;
    let err = |p: &(V3, V3)| norm(sub(mul(sub(p.0, me), s), sub(p.1, mt)));
    let k = v.len();
    let cams = pairs[..k].iter().map(err).fold(0.0, f64::max);
    let mut pe: Vec<f64> = pairs[k..].iter().map(|p| err(p) / norm(sub(p.1, mt)).max(1.0)).collect();
    pe.sort_by(|a, b| a.total_cmp(b));
    let med = if pe.is_empty() { 0.0 } else { pe[pe.len() / 2] };
    (rot, cams, med, s)
}
pub fn landmark_points(s: &Slam, rk: ReconstructionKey, r: &RecSnap, of: &HashMap<FrameKey, &Seen>, w: &World) -> (Vec<(V3, V3)>, usize, usize) {
    let (mut pts, mut right, mut mixed) = (vec![], 0, 0);
    for (l, o) in &r.lms {
        if o.len() < 2 {
            continue;
        }
        let shows: Vec<Option<usize>> = o.iter().map(|(v, f)| of[&r.views[v].frame].points[*f]).collect();
        if shows.iter().all(|x| x.is_some() && *x == shows[0]) {
            right += 1;
            if let Some(p) = s.triangulate_landmark_robust(rk, *l).and_then(|p| p.point()) {
                pts.push(([p.x, p.y, p.z], w.pts[shows[0].unwrap()]));
            }
        } else {
            mixed += 1;
        }
    }
    (pts, right, mixed)
}

fn settings() -> VSlamSettings {
    VSlamSettings { single_view_patience: 2000, three_view_patience: 2000, constraint_patience: 400, optimization_iterations: 30, ..small() }
}
fn clear(r: &mut Rng, noise: f64) -> Look {
    Look { noise, miss: r.range(0.0, 0.2), wrong: 0.0, clutter: r.below(20), flips: r.below(40) }
}
/// The views of a scene are in one reconstruction, which shows it as it is.
fn judge(c: &mut Case, s: &Slam, sn: &Snap, seen: &BTreeMap<FrameKey, Seen>, w: &World, noise: f64, wrong: f64) -> Option<u64> {
    let mut recs: Vec<ReconstructionKey> = seen.keys().filter_map(|f| sn.frames[f].2.map(|x| x.0)).collect();
    recs.sort();
    recs.dedup();
    let views = seen.keys().filter(|f| sn.frames[f].2.is_some()).count();
    c.soft_at(0.02, (seen.len() - views) as f64, 0.0, "frames-left-out", || format!("{views} of {} frames of the scene have a view", seen.len()));
    c.soft_at(0.02, recs.len() as f64, 1.0, "maps-of-one-scene", || format!("{} reconstructions show it", recs.len()));
    if !c.check(!recs.is_empty(), "scene-not-tracked", || format!("none of the {} frames has a view", seen.len())) {
        return None;
    }
    let of: HashMap<FrameKey, &Seen> = seen.iter().map(|(k, v)| (*k, v)).collect();
    let mut h = 0u64;
    for rk in recs {
        let r = &sn.recs[&rk];
        if !c.check(r.views.values().all(|v| of.contains_key(&v.frame)), "views-of-another-scene", || format!("{rk:?} has views of frames which show something else")) {
            return None;
        }
        if r.views.len() < 3 {
            c.fail("map-of-too-few-views", format!("{}", r.views.len()));
            return None;
        }
        let (p, right, mixed) = landmark_points(s, rk, r, &of, w);
        let d = deviation(r, &of, &p);
        h ^= hash_f64s(&[d.0, d.1, right as f64]);
        let what = || format!("bearings off by {noise:.1e}; rotations by up to {:.2e} rad, cameras by up to {:.2e}, the median point by {:.2e} of its distance; {} views, {right} landmarks right, {mixed} mixed", d.0, d.1, d.2, r.views.len());
        if std::env::var_os("C35_PRINT").is_some() {
            println!("{} {} {} wrong {wrong:.2} recs {} {}", c.wl, c.idx, sn.recs.len(), seen.len(), what());
        }
        c.within(d.0, 0.03, "rotations", what);
        c.within(d.1, 0.08, "camera-positions", what);
        c.within(d.2, 0.03, "points", what);
        c.check(mixed as f64 <= 0.05 * wrong.ceil() * (right + mixed) as f64, "landmarks-of-different-points", what);
        c.soft_at(0.1, d.0, 100.0 * noise + 1e-6, "sharp-rotations", what);
        c.soft_at(0.1, d.1, 900.0 * noise + 1e-6, "sharp-camera-positions", what);
        c.soft_at(0.1, d.2, 200.0 * noise + 1e-6, "sharp-points", what);
        c.check(p.len() >= 16, "too-few-points", what);
    }
    Some(h)
}
fn sequences(c: &mut Case) {
    let mut st = settings();
    st.single_view_initial_features = c.rng.pick(&[64, 8192]);
    let mut s = slam(&mut c.rng, st);
    let feed = s.add_feed(intrinsics());
    let n = 120 + c.rng.below(80);
    let w = world(&mut c.rng, n);
    let noise = c.rng.log(1e-8, 3e-5);
    let look = clear(&mut c.rng, noise);
    let frames = 6 + c.rng.below(5);
    let reach = c.rng.range(0.6, 1.5);
    let mut seen: BTreeMap<FrameKey, Seen> = BTreeMap::new();
    for _ in 0..frames {
        let pose = camera(&mut c.rng, reach);
        let (f, t) = observe(&mut c.rng, &w, &pose, look);
        let Some((k, _)) = c.call("track", || s.monitor_track(feed, f)) else { return };
        seen.insert(k, Seen { pose, points: t });
    }
    let sn = snap(&s.data);
    if let Some(h) = judge(c, &s, &sn, &seen, &w, noise, 0.0) {
        c.nontrivial(h);
    }
}

/// Two maps of one scene, from two feeds, which a frame brings together.
fn joining(c: &mut Case) {
    let mut s = slam(&mut c.rng, settings());
    let feeds = [s.add_feed(intrinsics()), s.add_feed(intrinsics())];
    let n = 120 + c.rng.below(80);
    let w = world(&mut c.rng, n);
    let noise = c.rng.log(1e-8, 1e-5);
    let look = clear(&mut c.rng, noise);
    let mut seen: BTreeMap<FrameKey, Seen> = BTreeMap::new();
    let reach = c.rng.range(0.6, 1.5);
    // the feeds do not look at each other's frames
    s.settings.tracking_similar_frames = 0;
    for feed in feeds {
        for _ in 0..3 + c.rng.below(3) {
            let pose = camera(&mut c.rng, reach);
            let (f, t) = observe(&mut c.rng, &w, &pose, look);
            let Some((k, _)) = c.call("track", || s.monitor_track(feed, f)) else { return };
            seen.insert(k, Seen { pose, points: t });
        }
    }
    let two = snap(&s.data).recs.len();
    s.settings.tracking_similar_frames = 32;
    for _ in 0..1 + c.rng.below(2) {
        let pose = camera(&mut c.rng, reach);
        let (f, t) = observe(&mut c.rng, &w, &pose, look);
        let feed = c.rng.pick(&feeds);
        let Some((k, _)) = c.call("track", || s.monitor_track(feed, f)) else { return };
        seen.insert(k, Seen { pose, points: t });
    }
    let sn = snap(&s.data);
    if let Some(h) = judge(c, &s, &sn, &seen, &w, noise, 0.0) {
        if two == 2 {
            c.nontrivial(h);
        }
    }
}

/// Wrong matches, and frames which show nothing or something else, among those of a scene.
fn strangers(c: &mut Case) {
    let mut s = slam(&mut c.rng, settings());
    let feed = s.add_feed(intrinsics());
    let n = 150 + c.rng.below(80);
    let w = world(&mut c.rng, n);
    let other = world(&mut c.rng, 150);
    let noise = c.rng.log(1e-8, 1e-5);
    let wrong = c.rng.range(0.02, 0.2);
    let look = Look { wrong, miss: 0.05, ..clear(&mut c.rng, noise) };
    let reach = c.rng.range(0.6, 1.3);
    let mut seen: BTreeMap<FrameKey, Seen> = BTreeMap::new();
    let mut strange = vec![];
    let mut left = 7 + c.rng.below(3);
    while left > 0 {
        let pose = camera(&mut c.rng, reach);
        match c.rng.below(8) {
            0 => {
                let (f, _) = observe(&mut c.rng, &other, &pose, look);
                let n = f.len();
                let Some((k, v)) = c.call("track", || s.monitor_track(feed, f)) else { return };
                c.check(v.is_none() || !seen.is_empty(), "view-of-nothing", || format!("{v:?}"));
                strange.push((k, n, strange.len()));
            }
            1 => {
                let n = c.rng.pick(&[0usize, 1, 3, 7, 30]);
                let f: Vec<_> = observe(&mut c.rng, &other, &pose, look).0.into_iter().take(n).collect();
                let Some((k, _)) = c.call("track", || s.monitor_track(feed, f)) else { return };
                strange.push((k, n, 0));
            }
            _ => {
                let (f, t) = observe(&mut c.rng, &w, &pose, look);
                let Some((k, _)) = c.call("track", || s.monitor_track(feed, f)) else { return };
                seen.insert(k, Seen { pose, points: t });
                left -= 1;
            }
        }
    }
    let sn = snap(&s.data);
    // a frame of the other scene may be in a map of that scene only
    let here: Vec<ReconstructionKey> = seen.keys().filter_map(|f| sn.frames[f].2.map(|x| x.0)).collect();
    for (k, n, _) in &strange {
        if let Some((rk, _)) = sn.frames[k].2 {
            c.check(!here.contains(&rk), "stranger-in-the-map", || format!("a frame of another scene with {n} features is in {rk:?}"));
        }
    }
    if let Some(h) = judge(c, &s, &sn, &seen, &w, noise, wrong) {
        if !strange.is_empty() {
            c.nontrivial(h);
        }
    }
}

/// Two scenes, whose frames come in turns.
fn scenes(c: &mut Case) {
    let mut s = slam(&mut c.rng, settings());
    let one_feed = c.rng.chance(0.5);
    let feeds = [s.add_feed(intrinsics()), s.add_feed(intrinsics())];
    let worlds = [world(&mut c.rng, 150), world(&mut c.rng, 150)];
    let noise = c.rng.log(1e-8, 1e-5);
    let look = clear(&mut c.rng, noise);
    let reach = c.rng.range(0.6, 1.3);
    let mut seen: [BTreeMap<FrameKey, Seen>; 2] = Default::default();
    for _ in 0..12 + c.rng.below(4) {
        let k = c.rng.below(2);
        let pose = camera(&mut c.rng, reach);
        let (f, t) = observe(&mut c.rng, &worlds[k], &pose, look);
        let feed = feeds[if one_feed { 0 } else { k }];
        let Some((key, _)) = c.call("track", || s.monitor_track(feed, f)) else { return };
        seen[k].insert(key, Seen { pose, points: t });
    }
    let sn = snap(&s.data);
    for k in 0..2 {
        if seen[k].len() >= 5 {
            if let Some(h) = judge(c, &s, &sn, &seen[k], &worlds[k], noise, 0.0) {
                c.nontrivial(h);
            }
        }
    }
}

/// From pictures of a painted room to cameras and points.
fn pictures(c: &mut Case) {
    let st = VSlamSettings {
        akaze_threshold: 1e-3,
        tracking_features: 1000,
        two_view_consensus_threshold: 1e-6,
        constraint_patience: 100,
        optimization_iterations: 20,
        ..settings()
    };
    let seed = c.rng.u64();
    let mut s = slam(&mut Rng::new(seed), st);
    let intr = CameraIntrinsicsK1Distortion::new(
        CameraIntrinsics::identity().focals(Vector2::new(FOCAL, FOCAL)).principal_point(Point2::new((W as f64 - 1.0) / 2.0, (H as f64 - 1.0) / 2.0)),
        0.0,
    );
    let feed = s.add_feed(intr);
    let room = Room::new(&mut c.rng);
    let mut poses = BTreeMap::new();
    let mut at = [0.0; 3];
    for _ in 0..5 {
        let pose = look_at(at, add([at[0] * 0.5, at[1] * 0.5, 7.0], [c.rng.range(-0.2, 0.2), c.rng.range(-0.2, 0.2), 0.0]), c.rng.range(-0.1, 0.1));
        let im = room.picture(&pose);
        let Some(k) = c.call("add_frame", || s.add_frame(feed, &im)) else { return };
        poses.insert(k, pose);
        at = add(at, [c.rng.range(0.3, 0.7), c.rng.range(-0.3, 0.3), c.rng.range(-0.2, 0.2)]);
    }
    let sn = snap(&s.data);
    if let Err(e) = integrity(&sn) {
        c.fail("map", e);
    }
    let mut seen = BTreeMap::new();
    for (k, pose) in poses {
        seen.insert(k, Seen { pose, points: vec![None; sn.frames[&k].3] });
    }
    let of: HashMap<FrameKey, &Seen> = seen.iter().map(|(k, v)| (*k, v)).collect();
    let views = sn.recs.values().map(|r| r.views.len()).sum::<usize>();
    c.soft_at(0.25, (seen.len() - views) as f64, 0.0, "pictures-left-out", || format!("{views} of {} pictures have a view, in {} maps", seen.len(), sn.recs.len()));
    for (rk, r) in &sn.recs {
        let mut pts = vec![];
        for l in r.lms.keys() {
            if let Some(p) = s.triangulate_landmark_robust(*rk, *l).and_then(|p| p.point()) {
                let (v, f) = r.lms[l].iter().next().unwrap();
                let b = s.data.observation_bearing(*rk, *v, *f);
                if let Some(t) = room.point(&of[&r.views[v].frame].pose, [b.x, b.y, b.z]) {
                    pts.push(([p.x, p.y, p.z], t));
                }
            }
        }
        if r.views.len() < 3 {
            c.fail("map-of-too-few-pictures", format!("{}", r.views.len()));
            continue;
        }
        let d = deviation(r, &of, &pts);
        let what = || format!("rotations off by up to {:.2e} rad, cameras by up to {:.2e}, the median point by {:.2e} of its distance; {} views, {} points", d.0, d.1, d.2, r.views.len(), pts.len());
        if std::env::var_os("C35_PRINT").is_some() {
            println!("{} {} features {:?} {}", c.wl, c.idx, sn.frames.values().map(|f| f.3).collect::<Vec<_>>(), what());
        }
        c.soft_at(0.5, d.0, 0.15, "pictures-rotations", what);
        c.soft_at(0.1, d.2, 0.15, "pictures-points", what);
        c.soft_at(0.25, -(pts.len() as f64), -64.0, "pictures-few-points", what);
        if d.0 < 0.15 {
            c.nontrivial(hash_f64s(&[d.0, d.1, d.2]));
        }
    }
}

/// A frame which sees too small a part of the scene to start a map with does not keep others from it.
fn narrow(c: &mut Case) {
    let mut st = settings();
    st.single_view_minimum_landmarks = 1000; // no frame joins later
    let mut s = slam(&mut c.rng, st);
    let feed = s.add_feed(intrinsics());
    let mut w = world(&mut c.rng, 130);
    // some forty points close to one line of sight
    let axis = [c.rng.range(-0.3, 0.3), c.rng.range(-0.3, 0.3)];
    for i in 0..50 {
        let z = c.rng.range(5.0, 9.0);
        w.pts[i] = [(axis[0] + c.rng.range(-0.02, 0.02)) * z, (axis[1] + c.rng.range(-0.02, 0.02)) * z, z];
    }
    let look = Look { noise: 0.0, miss: 0.05, wrong: 0.0, clutter: c.rng.below(10), flips: c.rng.below(40) };
    let at = c.rng.below(3);
    let mut log = vec![];
    for i in 0..4 {
        let pose = if i == at { let z = c.rng.range(-0.3, 0.3); Iso { r: M3I, t: [axis[0] * z, axis[1] * z, z] } } else { camera(&mut c.rng, 1.0) };
        let (mut f, mut t) = observe(&mut c.rng, &w, &pose, look);
        if i == at {
            let keep: Vec<bool> = t.iter().map(|x| x.is_some_and(|x| x < 50)).collect();
            let mut k = keep.iter();
            f.retain(|_| *k.next().unwrap());
            let mut k = keep.iter();
            t.retain(|_| *k.next().unwrap());
        }
        let Some((_, v)) = c.call("track", || s.monitor_track(feed, f)) else { return };
        log.push((i == at, t.len(), v.is_some()));
    }
    let started = log.last().unwrap().2;
    c.soft_at(0.25, !started as u8 as f64, 0.0, "narrow-frame-keeps-a-map-from-starting", || format!("(narrow, features, has a view), of each frame: {log:?}"));
    if started {
        c.nontrivial(c.idx);
    }
}
const M3I: M3 = [[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0]];
