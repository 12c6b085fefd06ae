//! C36: what goes into a map and what comes out of it.
use crate::fw::*;
use crate::m::*;
use crate::p_map::unflat;
use crate::room::*;
use crate::scene::*;
use cv_core::nalgebra::{Point2, Vector2};
use cv_core::{CameraModel, Projective};
use cv_pinhole::{CameraIntrinsics, CameraIntrinsicsK1Distortion};
use cv_sfm::*;
use image::{DynamicImage, Rgb, RgbImage};
use serde_json::{json, Value};
use std::collections::BTreeMap;

pub fn c36() -> Prop {
    Prop {
        id: "C36",
        rule: "distinct settings, pictures and maps which were written out, by their content",
        assumptions: &["the containers, the hasher and the writer of PLY files cv-sfm is built on are replaced by stand-ins, as they are not available offline"],
        workloads: vec![
            wl("settings", 1500, 40000, 0.9, settings),
            wl("colours", 3000, 60000, 0.5, colours),
            wl("features", 64, 1200, 0.3, features),
            wl("exported", 64, 1500, 0.7, |c| c.isolated(crate::fixed_hashing, exported)),
            wl("saved", 64, 1500, 0.7, |c| c.isolated(crate::fixed_hashing, saved)),
        ],
    }
}

/// Settings survive being written and read; what is left out has the default value.
fn settings(c: &mut Case) {
    let Ok(Value::Object(def)) = serde_json::to_value(VSlamSettings::default()) else {
        return c.fail("settings-not-written", "the default settings are no object".into());
    };
    let mut given = serde_json::Map::new();
    let mut want = def.clone();
    let share = c.rng.range(0.0, 1.0);
    for (k, v) in &def {
        if !c.rng.chance(share) {
            continue;
        }
        let x = if v.is_f64() {
            json!(c.rng.log(1e-12, 1e6))
        } else if v.is_u64() {
            json!(c.rng.u64() as u32 >> c.rng.below(31))
        } else {
            v.clone()
        };
        given.insert(k.clone(), x.clone());
        want.insert(k.clone(), x);
    }
    let text = Value::Object(given).to_string();
    let Some(read) = c.call("read settings", || serde_json::from_str::<VSlamSettings>(&text)) else { return };
    let read = match read {
        Ok(x) => x,
        Err(e) => return c.fail("settings-not-read", format!("{e}: {text}")),
    };
    let got = serde_json::to_value(read).unwrap_or_default();
    for (k, v) in &want {
        c.check(got.get(k) == Some(v), "setting-changed", || format!("{k} is {:?}, not {v}, after reading {text}", got.get(k)));
    }
    let again = bincode::serialize(&read).ok().and_then(|b| bincode::deserialize::<VSlamSettings>(&b).ok()).and_then(|s| serde_json::to_value(s).ok());
    c.check(again.as_ref() == Some(&got), "settings-changed-in-binary", || format!("{again:?} was {got}"));
    c.nontrivial(hash_str(&text));
}

/// The bicubic through sixteen pixels, with the slopes of its neighbours (Catmull-Rom).
fn bicubic(im: &RgbImage, x: f64, y: f64, k: usize) -> f64 {
    let (l, t) = (x.floor(), y.floor());
    let cubic = |p: [f64; 4], s: f64| {
        let w = [
            -0.5 * s + s * s - 0.5 * s * s * s,
            1.0 - 2.5 * s * s + 1.5 * s * s * s,
            0.5 * s + 2.0 * s * s - 1.5 * s * s * s,
            -0.5 * s * s + 0.5 * s * s * s,
        ];
        (0..4).map(|i| p[i] * w[i]).sum::<f64>()
    };
    let rows: [f64; 4] = std::array::from_fn(|j| {
        let r = cubic(std::array::from_fn(|i| im.get_pixel((l as i64 - 1 + i as i64) as u32, (t as i64 - 1 + j as i64) as u32).0[k] as f64), x - l);
        r.clamp(0.0, 255.0)
    });
    cubic(rows, y - t).clamp(0.0, 255.0)
}
fn judge_colour(c: &mut Case, im: &RgbImage, x: f64, y: f64, got: [u8; 3], sig: &'static str) -> bool {
    let (w, h) = (im.width() as f64, im.height() as f64);
    let (l, t) = (x.floor(), y.floor());
    if !(l >= 1.0 && t >= 1.0 && l + 2.0 < w && t + 2.0 < h) {
        // not all of the sixteen pixels exist
        c.check(got == [0, 0, 0], "colour-outside", || format!("the colour at ({x}, {y}) of a picture of {w} x {h} is {got:?}"));
        return false;
    }
    if !(l + 3.0 < w && t + 3.0 < h) && got == [0, 0, 0] {
        return false;
    }
    for k in 0..3 {
        let want = bicubic(im, x, y, k);
        // each of the five blends drops the fraction
        c.check((got[k] as f64 - want).abs() <= 2.6, sig, || format!("channel {k} at ({x}, {y}) of a picture of {w} x {h} is {}, not {want}", got[k]));
    }
    true
}
fn noise(r: &mut Rng, w: u32, h: u32) -> RgbImage {
    let kind = r.below(3);
    let s: [f64; 6] = std::array::from_fn(|_| r.range(0.05, 1.2));
    RgbImage::from_fn(w, h, |x, y| match kind {
        0 => Rgb(std::array::from_fn(|_| r.below(256) as u8)),
        1 => Rgb(std::array::from_fn(|k| (127.0 + 120.0 * (s[k] * x as f64 + s[k + 3] * y as f64).sin()) as u8)),
        _ => Rgb(std::array::from_fn(|_| if r.chance(0.5) { 0 } else { 255 })),
    })
}
fn colours(c: &mut Case) {
    let (w, h) = (1 + c.rng.below(24) as u32, 1 + c.rng.below(24) as u32);
    let im = noise(&mut c.rng, w, h);
    let mut inside = false;
    for _ in 0..24 {
        let mut at = |n: u32| {
            let v = match c.rng.below(5) {
                0 => c.rng.below(n as usize + 2) as f64 - 1.0,
                1 => c.rng.below(n as usize + 2) as f64 - 1.0 + c.rng.pick(&[1e-6, 0.5, 0.99999]),
                2 => c.rng.pick(&[-1e9, -0.5, 1e9, n as f64, n as f64 - 3.0, n as f64 - 2.0 - 1e-5, 1.0, 0.99999]),
                _ => c.rng.range(-1.0, n as f64 + 1.0),
            };
            v as f32
        };
        let (x, y) = (at(w), at(h));
        let Some(got) = c.call("interpolate", || monitor::interpolate_bicubic(&im, x, y)) else { return };
        inside |= judge_colour(c, &im, x as f64, y as f64, got, "colour");
    }
    if inside {
        let h = c.rng.u64();
        c.nontrivial(h);
    }
}

/// The features of a frame are those of the picture, strongest first, with their colours and the directions they are in.
fn features(c: &mut Case) {
    let st = VSlamSettings { akaze_threshold: c.rng.log(1e-4, 3e-3), tracking_features: c.rng.pick(&[8, 50, 300, 8192]), ..small() };
    let seed = c.rng.u64();
    let mut s = slam(&mut Rng::new(seed), st);
    let k1 = c.rng.pick(&[0.0, -0.2, 0.1]);
    let (w, h) = (96 + c.rng.below(100) as u32, 96 + c.rng.below(60) as u32);
    let intr = CameraIntrinsicsK1Distortion::new(
        CameraIntrinsics::identity()
            .focals(Vector2::new(c.rng.range(100.0, 300.0), c.rng.range(100.0, 300.0)))
            .principal_point(Point2::new(w as f64 / 2.0 + c.rng.range(-9.0, 9.0), h as f64 / 2.0 + c.rng.range(-9.0, 9.0)))
            .skew(c.rng.pick(&[0.0, 3.0])),
        k1,
    );
    let feed = s.add_feed(intr);
    // coloured blobs over a gradient
    let blobs: Vec<(f64, f64, f64, [f64; 3])> =
        (0..40).map(|_| (c.rng.range(0.0, w as f64), c.rng.range(0.0, h as f64), c.rng.log(1.5, 7.0), std::array::from_fn(|_| c.rng.range(-90.0, 90.0)))).collect();
    let im = RgbImage::from_fn(w, h, |x, y| {
        Rgb(std::array::from_fn(|k| {
            let v = blobs.iter().map(|b| b.3[k] * (-((x as f64 - b.0).powi(2) + (y as f64 - b.1).powi(2)) / (2.0 * b.2 * b.2)).exp()).sum::<f64>();
            (110.0 + 0.2 * x as f64 + v).clamp(0.0, 255.0) as u8
        }))
    });
    let dy = DynamicImage::ImageRgb8(im.clone());
    let Some(got) = c.call("features", || s.monitor_features(feed, &dy)) else { return };
    let ak = akaze_seq::Akaze { maximum_features: st.tracking_features, ..akaze_seq::Akaze::new(st.akaze_threshold) };
    let (kps, desc) = ak.extract(&dy);
    if !c.check(got.len() == kps.len() && got.len() <= st.tracking_features, "feature-count", || format!("{} features of {} keypoints, at most {}", got.len(), kps.len(), st.tracking_features)) {
        return;
    }
    for p in got.windows(2) {
        c.check(p[0].1.response >= p[1].1.response, "features-not-in-order", || format!("{} before {}", p[0].1.response, p[1].1.response));
    }
    let mut left: Vec<(usize, [f64; 3])> = kps.iter().enumerate().map(|(i, k)| (i, [0, 1, 2].map(|j| intr.calibrate(*k)[j]))).collect();
    let mut coloured = 0;
    for (d, f) in &got {
        let b = [f.bearing.x, f.bearing.y, f.bearing.z];
        let found = left.iter().position(|(i, want)| desc[*i] == *d && kps[*i].response == f.response && norm(sub(*want, b)) < 1e-9);
        let Some(i) = found else {
            return c.fail("feature-of-no-keypoint", format!("{f:?}"));
        };
        let (i, _) = left.swap_remove(i);
        let (x, y) = kps[i].point;
        coloured += judge_colour(c, &im, x as f64, y as f64, f.color, "feature-colour") as usize;
    }
    // the frame the picture becomes has these features, under the same numbers
    let Some(k) = c.call("add_frame", || s.add_frame(feed, &dy)) else { return };
    let fr = s.data.frame(k);
    c.check(fr.descriptor_features.len() == got.len(), "frame-features", || format!("{} of {}", fr.descriptor_features.len(), got.len()));
    for (i, (d, f)) in got.iter().enumerate() {
        let same = s.data.descriptor(k, i) == d && s.data.bearing(k, i) == f.bearing && s.data.color(k, i) == f.color && fr.feature(i).response == f.response;
        c.check(same, "frame-feature", || format!("feature {i} of the frame is {:?}, extracted was {f:?}", fr.feature(i)));
    }
    if coloured >= 3 {
        c.nontrivial(hash_f64s(&got.iter().map(|g| g.1.bearing.x).collect::<Vec<_>>()));
    }
}

struct Tracked {
    s: Slam,
    feed: FeedKey,
    w: World,
    look: Look,
    frames: BTreeMap<FrameKey, (Iso, Vec<Feature>)>,
}
/// A map of a few views, whose features have colours of their own.
fn tracked(c: &mut Case) -> Option<Tracked> {
    let st = VSlamSettings { single_view_patience: 500, three_view_patience: 500, optimization_iterations: 10, ..small() };
    let mut s = slam(&mut c.rng, st);
    let feed = s.add_feed(intrinsics());
    let w = world(&mut c.rng, 110);
    let look = Look { noise: c.rng.log(1e-7, 1e-5), miss: c.rng.range(0.0, 0.2), wrong: 0.0, clutter: c.rng.below(9), flips: c.rng.below(30) };
    let reach = c.rng.range(0.6, 1.5);
    let mut t = Tracked { s, feed, w, look, frames: BTreeMap::new() };
    for _ in 0..3 + c.rng.below(3) {
        t.track(c, reach)?;
    }
    Some(t)
}
impl Tracked {
    fn track(&mut self, c: &mut Case, reach: f64) -> Option<FrameKey> {
        let pose = camera(&mut c.rng, reach);
        let (mut f, _) = observe(&mut c.rng, &self.w, &pose, self.look);
        for x in f.iter_mut() {
            x.1.color = std::array::from_fn(|_| c.rng.below(256) as u8);
        }
        let keep = f.iter().map(|x| x.1.clone()).collect();
        let (s, feed) = (&mut self.s, self.feed);
        let (k, _) = c.call("track", || s.monitor_track(feed, f))?;
        self.frames.insert(k, (pose, keep));
        Some(k)
    }
}
struct Ply {
    vertices: Vec<(V3, [u8; 3])>,
    faces: Vec<Vec<usize>>,
}
fn parse(text: &str) -> Result<Ply, String> {
    let mut l = text.lines();
    if l.next() != Some("ply") {
        return Err("does not start with ply".into());
    }
    let mut elements: Vec<(String, usize, Vec<String>)> = vec![];
    loop {
        let line = l.next().ok_or("the header does not end")?;
        let w: Vec<&str> = line.split_whitespace().collect();
        match w.first().copied() {
            Some("end_header") => break,
            Some("format") if w[1..] != ["ascii", "1.0"] => return Err(format!("unexpected {line}")),
            Some("format" | "comment" | "obj_info") => {}
            Some("element") => elements.push((w[1].to_string(), w[2].parse().map_err(|_| line.to_string())?, vec![])),
            Some("property") => elements.last_mut().ok_or("a property of no element")?.2.push(w[w.len() - 1].to_string()),
            _ => return Err(format!("unexpected {line}")),
        }
    }
    let mut p = Ply { vertices: vec![], faces: vec![] };
    for (name, n, props) in elements {
        for _ in 0..n {
            let w: Vec<&str> = l.next().ok_or("the file is cut short")?.split_whitespace().collect();
            match &name[..] {
                "vertex" => {
                    let get = |k: &str| props.iter().position(|p| p == k).and_then(|i| w.get(i)).ok_or(format!("a vertex without {k}"));
                    let f = |k: &str| get(k)?.parse::<f64>().map_err(|_| format!("{k} of a vertex: {w:?}"));
                    let u = |k: &str| get(k)?.parse::<u8>().map_err(|_| format!("{k} of a vertex: {w:?}"));
                    p.vertices.push(([f("x")?, f("y")?, f("z")?], [u("red")?, u("green")?, u("blue")?]));
                }
                "face" => {
                    let v: Result<Vec<usize>, _> = w.iter().map(|x| x.parse()).collect();
                    let v = v.map_err(|_| format!("a face: {w:?}"))?;
                    if v.is_empty() || v.len() != v[0] + 1 {
                        return Err(format!("a face: {w:?}"));
                    }
                    p.faces.push(v[1..].to_vec());
                }
                _ => return Err(format!("element {name}")),
            }
        }
    }
    match l.next() {
        Some(x) => Err(format!("more than the header says: {x}")),
        None => Ok(p),
    }
}
/// A map written to a file shows its points in their colours and its cameras where they are and as they look.
fn exported(c: &mut Case) {
    let Some(t) = tracked(c) else { return };
    let dir = std::env::temp_dir().join(format!("cvply-{}-{}", std::process::id(), c.idx));
    if std::fs::create_dir_all(&dir).is_err() {
        return c.inconclusive("no scratch directory");
    }
    let sn = snap(&t.s.data);
    for (rk, r) in &sn.recs {
        let faces = c.rng.chance(0.5);
        let path = dir.join("map.ply");
        let ok = c.call("export", || t.s.export_reconstruction(*rk, &path, faces)).is_some();
        let text = std::fs::read_to_string(&path).unwrap_or_default();
        if !ok {
            break;
        }
        let p = match parse(&text) {
            Ok(p) => p,
            Err(e) => {
                c.fail("not-a-ply-file", e);
                break;
            }
        };
        let mut left: Vec<usize> = (0..p.vertices.len()).collect();
        let mut take = |pos: V3, tol: f64, ok: &dyn Fn([u8; 3]) -> bool| -> Option<usize> {
            let i = left.iter().position(|&i| norm(sub(p.vertices[i].0, pos)) <= tol && ok(p.vertices[i].1))?;
            Some(left.remove(i))
        };
        // the cameras
        let mut points = 0;
        let mut fail: Option<(&'static str, String)> = None;
        let mut cams = vec![];
        let mut known = true;
        for (vk, v) in &r.views {
            let pose = unflat(&v.pose);
            let d: Vec<f64> = v.landmarks.iter().filter_map(|l| t.s.triangulate_landmark_robust(*rk, *l).and_then(|p| p.point())).map(|p| norm(pose.apply([p.x, p.y, p.z]))).collect();
            if d.is_empty() {
                known = false;
                continue;
            }
            let f = 0.01 * d.iter().sum::<f64>() / d.len() as f64;
            let tol = 1e-9 * (1.0 + norm(pose.center()) + f);
            let back = tr(&pose.r);
            let Some(centre) = take(pose.center(), tol, &|k| k == [255, 0, 255]) else {
                fail = Some(("camera-missing", format!("no vertex at the centre {:?} of view {vk:?}", pose.center())));
                break;
            };
            let mut corners = vec![];
            for s in [(1.0, 1.0), (1.0, -1.0), (-1.0, -1.0), (-1.0, 1.0)] {
                let at = add(pose.center(), mul(mv(&back, [s.0, s.1, 1.0]), f));
                match take(at, tol, &|k| k == [255, 0, 255]) {
                    Some(i) => corners.push(i),
                    None => fail = Some(("camera-corner", format!("no vertex at the corner {at:?} of view {vk:?}, with a focal length of {f}"))),
                }
            }
            cams.push((centre, corners));
            if fail.is_some() {
                break;
            }
        }
        // the points
        if fail.is_none() {
            for (lk, o) in &r.lms {
                let Some(q) = t.s.triangulate_landmark_robust(*rk, *lk).and_then(|p| p.point()) else { continue };
                points += 1;
                let q = [q.x, q.y, q.z];
                let cols: Vec<[u8; 3]> = o.iter().map(|(v, f)| t.frames[&r.views[v].frame].1[*f].color).collect();
                if take(q, 1e-9 * (1.0 + norm(q)), &|k| cols.contains(&k)).is_none() {
                    fail = Some(("point-missing", format!("no vertex at {q:?} in a colour of {cols:?}")));
                    break;
                }
            }
        }
        if let Some((sig, d)) = fail {
            c.fail(sig, d);
            break;
        }
        if known {
            c.check(left.is_empty(), "vertices-of-nothing", || format!("{} vertices are neither points nor cameras", left.len()));
            let want = if faces { 4 * cams.len() } else { 0 };
            c.check(p.faces.len() == want, "face-count", || format!("{} faces of {} cameras", p.faces.len(), cams.len()));
        }
        if faces {
            for (centre, co) in &cams {
                // sides between neighbouring corners, each once
                for k in 0..4 {
                    let (a, b) = (co[k], co[(k + 1) % 4]);
                    let n = p.faces.iter().filter(|f| f.len() == 3 && f.contains(centre) && f.contains(&a) && f.contains(&b)).count();
                    c.check(n == 1, "camera-face", || format!("{n} faces on the centre {centre} and the corners {a} and {b}: {:?}", p.faces));
                }
            }
        }
        c.check(!cams.is_empty() || !known, "no-cameras", String::new);
        if points >= 8 {
            c.nontrivial(hash_str(&text));
        }
    }
    let _ = std::fs::remove_dir_all(&dir);
}

/// A map which was saved and loaded is the same map, and goes on being tracked.
fn saved(c: &mut Case) {
    let Some(mut t) = tracked(c) else { return };
    let before = snap(&t.s.data);
    let Some(bytes) = c.call("save", || bincode::serialize(&t.s.data)) else { return };
    let Ok(bytes) = bytes else { return c.fail("not-saved", format!("{:?}", bytes.err())) };
    let Some(data) = c.call("load", || bincode::deserialize::<VSlamData>(&bytes)) else { return };
    let data = match data {
        Ok(d) => d,
        Err(e) => return c.fail("not-loaded", e.to_string()),
    };
    let after = snap(&data);
    c.check(after == before, "map-changed", || format!("{after:?} was {before:?}").chars().take(600).collect());
    for (k, (_, f)) in &t.frames {
        for (i, f) in f.iter().enumerate() {
            let same = data.bearing(*k, i) == f.bearing && data.color(*k, i) == f.color && data.descriptor(*k, i) == t.s.data.descriptor(*k, i) && data.frame(*k).lsh == t.s.data.frame(*k).lsh;
            c.check(same, "feature-changed", || format!("feature {i} of frame {k:?}"));
        }
    }
    t.s.data = data;
    let Some(k) = t.track(c, 1.0) else { return };
    let now = snap(&t.s.data);
    if let Err(e) = integrity(&now) {
        c.fail("loaded-map-not-consistent", e);
    }
    if before.recs.values().any(|r| r.views.len() >= 3) {
        c.soft_at(0.05, now.frames[&k].2.is_none() as u8 as f64, 0.0, "loaded-map-not-continued", || format!("{:?}", now.frames[&k]));
        c.nontrivial(hash_str(&format!("{before:?}")));
    }
}
