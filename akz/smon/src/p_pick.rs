//! C34: what the map matches, retrieves, keeps and throws out.
use crate::fw::*;
use crate::m::*;
use crate::p_graph::{cameras, map_of, observations, robust, Map};
use crate::p_map::unflat;
use crate::scene::*;
use bitarray::BitArray;
use cv_core::Projective;
use cv_geom::epipolar;
use cv_sfm::*;
use std::collections::{BTreeMap, BTreeSet};

pub fn c34() -> Prop {
    Prop {
        id: "C34",
        rule: "distinct frames matched, retrievals and maps filtered, by their outcome",
        assumptions: &["the containers and the nearest neighbor search cv-sfm is built on are replaced by exact stand-ins, as they are not available offline"],
        workloads: vec![
            wl("matches", 2500, 60000, 0.4, |c| c.isolated(crate::fixed_hashing, matches)),
            wl("retrieval", 700, 16000, 0.9, |c| c.isolated(crate::fixed_hashing, retrieval)),
            wl("robustness", 500, 10000, 0.5, |c| c.isolated(crate::fixed_hashing, robustness)),
            wl("filtered", 500, 10000, 0.7, |c| c.isolated(crate::fixed_hashing, filtered)),
            wl("merged", 600, 12000, 0.5, |c| c.isolated(crate::fixed_hashing, merged)),
        ],
    }
}
fn ham(a: &[u8], b: &[u8]) -> u32 {
    a.iter().zip(b).map(|(x, y)| (x ^ y).count_ones()).sum()
}
fn feature(r: &mut Rng) -> Feature {
    Feature { bearing: nu(unit([r.range(-0.8, 0.8), r.range(-0.8, 0.8), 1.0])), response: r.range(0.0, 1.0) as f32, color: [1, 2, 3] }
}

fn matches(c: &mut Case) {
    let r = &mut c.rng;
    let mut s = slam(r, small());
    let feed = s.add_feed(intrinsics());
    // descriptors near to each other, so that the margin decides
    let kinds = 1 + r.below(30);
    let again = r.pick(&[0.0, 0.2, 0.6]);
    let base: Vec<BitArray<64>> = (0..kinds).map(|_| descriptor(r)).collect();
    let spread = r.pick(&[0usize, 3, 8, 20, 60]);
    let one = |r: &mut Rng| -> Vec<BitArray<64>> {
        let n = match r.below(8) {
            0 => r.below(3),
            _ => 1 + r.below(30),
        };
        let mut order: Vec<usize> = (0..kinds).collect();
        r.shuffle(&mut order);
        (0..n)
            .map(|i| {
                let k = r.below(spread + 1);
                let j = if i >= kinds || r.chance(again) { r.below(kinds) } else { order[i] };
                flipped(r, &base[j], k)
            })
            .collect()
    };
    let (da, db) = (one(r), one(r));
    let mut put = |r: &mut Rng, d: &[BitArray<64>]| { let f = d.iter().map(|d| (*d, feature(r))).collect(); s.data.monitor_add_frame(feed, f) };
    let (fa, fb) = (put(r, &da), put(r, &db));
    let better = r.pick(&[1u32, 1, 2, 5, 24, 60]);
    let Some(got) = c.call("symmetric_matching", || monitor::symmetric_matching(s.data.frame(fa), s.data.frame(fb), better)) else { return };
    let best = |x: &BitArray<64>, o: &[BitArray<64>]| -> Option<usize> {
        let d: Vec<u32> = o.iter().map(|y| ham(x.bytes(), y.bytes())).collect();
        let i = (0..o.len()).min_by_key(|i| d[*i])?;
        let second = (0..o.len()).filter(|j| *j != i).map(|j| d[j]).min()?;
        (d[i] + better <= second).then_some(i)
    };
    let mut want: Vec<[usize; 2]> = vec![];
    if da.len() >= 2 && db.len() >= 2 {
        for (i, x) in da.iter().enumerate() {
            if let Some(j) = best(x, &db) {
                if best(&db[j], &da) == Some(i) {
                    want.push([i, j]);
                }
            }
        }
    }
    let mut sorted = got.clone();
    sorted.sort();
    c.check(sorted == want, "matches", || format!("{} and {} features, better by {better}: {sorted:?} expected {want:?}", da.len(), db.len()));
    c.bin(if want.is_empty() { "no match" } else { "matches" });
    if want.is_empty() {
        return;
    }
    c.nontrivial(want.iter().fold((da.len() * 64 + db.len()) as u64 ^ c.idx << 16, |h, x| h.rotate_left(7) ^ (x[0] * 64 + x[1]) as u64));
}

fn retrieval(c: &mut Case) {
    let r = &mut c.rng;
    let mut s = slam(r, small());
    let feeds: Vec<FeedKey> = (0..1 + r.below(3)).map(|_| s.add_feed(intrinsics())).collect();
    let places = 1 + r.below(5);
    let bags: Vec<Vec<BitArray<64>>> = (0..places).map(|_| (0..12).map(|_| descriptor(r)).collect()).collect();
    let n = 2 + r.below(40);
    let mut frames: Vec<(FrameKey, FeedKey, usize)> = vec![];
    let mut count: BTreeMap<FeedKey, usize> = BTreeMap::new();
    for _ in 0..n {
        let feed = feeds[r.below(feeds.len())];
        let b = &bags[r.below(places)];
        let f = b.iter().map(|d| { let k = r.below(60); (flipped(r, d, k), feature(r)) }).collect();
        let k = s.data.monitor_add_frame(feed, f);
        let i = count.entry(feed).or_default();
        frames.push((k, feed, *i));
        *i += 1;
    }
    // some have views, in some reconstructions
    let recs: Vec<ReconstructionKey> = (0..r.below(4)).map(|_| s.data.monitor_new_reconstruction()).collect();
    let mut view: BTreeMap<FrameKey, (ReconstructionKey, ViewKey)> = BTreeMap::new();
    if !recs.is_empty() {
        for (k, _, _) in &frames {
            if r.chance(0.6) {
                let rk = recs[r.below(recs.len())];
                view.insert(*k, (rk, s.data.monitor_add_view(rk, *k, w2c(&Iso::id()), |_| None)));
            }
        }
    }
    let (me, feed, at) = frames[r.below(n)];
    let similar = r.pick(&[0, 1, 3, 8]);
    let recent = r.pick(&[0, 1, 2, 3, 8, 32]);
    let near = r.pick(&[0, 0, 2, 5]);
    let search = r.pick(&[1, 4, 16, 64]);
    let Some((by_rec, free)) = c.call("find_visually_similar_and_recent_frames", || s.data.monitor_similar_and_recent(me, similar, recent, near, search)) else { return };
    let frame_of: BTreeMap<(ReconstructionKey, ViewKey), FrameKey> = view.iter().map(|(f, v)| (*v, *f)).collect();
    let mut got: Vec<FrameKey> = free.clone();
    for (rk, vs) in &by_rec {
        for v in vs {
            match frame_of.get(&(*rk, *v)) {
                Some(f) => got.push(*f),
                None => c.fail("retrieved-view", format!("{v:?} is no view of {rk:?}")),
            }
        }
    }
    c.check(free.iter().all(|f| !view.contains_key(f)), "retrieved-free", || "a frame of a reconstruction was returned as free".into());
    c.check(by_rec.values().all(|v| !v.is_empty()), "retrieved-empty", || "a reconstruction without views was returned".into());
    let set: BTreeSet<FrameKey> = got.iter().copied().collect();
    c.check(set.len() == got.len(), "retrieved-twice", || format!("{got:?}"));
    c.check(!set.contains(&me), "retrieved-itself", || "a frame matches itself".into());
    let recents: BTreeSet<FrameKey> = frames.iter().filter(|f| f.0 != me && f.1 == feed && f.2.abs_diff(at) < recent).map(|f| f.0).collect();
    c.check(recents.is_subset(&set), "retrieved-recent", || format!("recent frames {recents:?} expected among {set:?}"));
    // the rest by similarity: none nearer was passed over
    let lsh = |k: FrameKey| s.data.frame(k).lsh;
    let mine = lsh(me);
    let mut order: Vec<(u32, FrameKey)> = frames.iter().map(|f| (ham(mine.bytes(), lsh(f.0).bytes()), f.0)).collect();
    order.sort();
    let k = search.min(order.len());
    let cut = order[k - 1].0;
    let ties = k < order.len() && order[k].0 == cut;
    let ok = |f: FrameKey| {
        let x = frames.iter().find(|x| x.0 == f).unwrap();
        f != me && !recents.contains(&f) && !(x.1 == feed && x.2.abs_diff(at) < near)
    };
    let extra: Vec<FrameKey> = set.difference(&recents).copied().collect();
    c.check(extra.iter().all(|f| ok(*f)), "retrieved-too-close", || format!("similar frames {extra:?}"));
    c.check(extra.len() <= similar, "retrieved-too-many", || format!("{} similar frames of {similar}", extra.len()));
    if !ties {
        let pool: Vec<u32> = order[..k].iter().filter(|x| ok(x.1)).map(|x| x.0).collect();
        let want: Vec<u32> = pool.iter().copied().take(similar).collect();
        let mut g: Vec<u32> = extra.iter().map(|f| ham(mine.bytes(), lsh(*f).bytes())).collect();
        g.sort();
        c.check(g == want, "retrieved-similar", || format!("at distances {g:?} expected {want:?} (the nearest {search} of {n})"));
    } else {
        c.bin("ties at the end of the search");
    }
    c.bin(if extra.is_empty() { "recent only" } else { "similar frames" });
    c.nontrivial(hash_str(&format!("{set:?}{me:?}")) ^ c.idx << 20);
}

fn scene(c: &mut Case, st: VSlamSettings) -> Map {
    let n = 2 + c.rng.below(6);
    let reach = c.rng.log(0.05, 1.5);
    let poses = cameras(&mut c.rng, n, reach);
    let e = if c.rng.chance(0.3) { 0.0 } else { c.rng.log(1e-5, 3e-2) };
    let off: Vec<Iso> = (0..n).map(|_| Iso { r: exp3([e * c.rng.normal(), e * c.rng.normal(), e * c.rng.normal()]), t: [e * c.rng.normal(), e * c.rng.normal(), e * c.rng.normal()] }).collect();
    let look = Look { noise: c.rng.log(1e-6, 1e-2), miss: c.rng.range(0.0, 0.6), wrong: c.rng.pick(&[0.0, 0.1, 0.3]), clutter: c.rng.below(4), flips: 5 };
    // `wrong` features show no point truthfully, but are taken for it
    let np = 20 + c.rng.below(30);
    let mut m = map_of(&mut c.rng, st, np, &poses, &off, look);
    mislead(c, &mut m);
    m
}
/// Some landmarks of the map are of features which show different points.
fn mislead(c: &mut Case, m: &mut Map) {
    for _ in 0..c.rng.below(12) {
        let s = snap(&m.s.data).recs[&m.rk].clone();
        let l: Vec<LandmarkKey> = s.lms.keys().copied().collect();
        let (a, b) = (c.rng.pick(&l), c.rng.pick(&l));
        if a != b && !s.lms[&a].keys().any(|v| s.lms[&b].contains_key(v)) {
            m.s.data.merge_landmarks(m.rk, a, b);
        }
    }
}
fn settings(r: &mut Rng) -> VSlamSettings {
    let mut st = small();
    st.robust_minimum_observations = r.pick(&[2, 3, 3, 4]);
    st.robust_observation_incidence_minimum_cosine_distance = r.pick(&[1e-3, 1e-4, 1e-2]);
    st.maximum_cosine_distance = r.log(1e-8, 1e-3);
    st.maximum_sine_distance = r.log(1e-4, 0.3);
    st.minimum_robust_landmarks = r.pick(&[0, 0, 4, 12]);
    st
}
fn point(m: &Map, o: &[(Iso, V3)]) -> Option<V3> {
    let v: Vec<_> = o.iter().map(|(p, b)| (w2c(p), nu(*b))).collect();
    m.s.triangulate_pose_bearings(v.into_iter()).and_then(|p| p.point()).map(|p| [p.x, p.y, p.z])
}

fn robustness(c: &mut Case) {
    let st = settings(&mut c.rng);
    let m = scene(c, st);
    let s = snap(&m.s.data).recs[&m.rk].clone();
    let (n, rk) = (s.views.len(), m.rk);
    let keys: Vec<LandmarkKey> = s.lms.keys().copied().collect();
    let (mut yes, mut no) = (0, 0);
    for l in &keys {
        let o = observations(&m, &s, *l);
        let ov: Vec<(ViewKey, usize)> = s.lms[l].iter().map(|(v, f)| (*v, *f)).collect();
        if let Some(w) = robust(&st, n, &o) {
            let Some(g) = c.call("is_landmark_robust", || m.s.is_landmark_robust(rk, *l)) else { return };
            c.check(g == w, "landmark-robust", || format!("{g} for {} observations", o.len()));
            let g = m.s.are_observations_robust(rk, &ov);
            c.check(g == w, "observations-robust", || format!("{g} for {} observations", o.len()));
            let Some(t) = c.call("triangulate_landmark_robust", || m.s.triangulate_landmark_robust(rk, *l)) else { return };
            let p = point(&m, &o);
            c.check(t.is_some() == (w && p.is_some()), "triangulate-robust", || format!("{t:?} although robust is {w} and the point is {p:?}"));
            close_points(c, t.and_then(|t| t.point()).map(|p| [p.x, p.y, p.z]), p.filter(|_| w));
            if w { yes += 1 } else { no += 1 }
        }
        let Some(t) = c.call("triangulate_landmark", || m.s.triangulate_landmark(rk, *l)) else { return };
        let p = if o.len() >= 2 { point(&m, &o) } else { None };
        c.check(t.is_some() == p.is_some(), "triangulate-landmark", || format!("{t:?} for {} observations, the point is {p:?}", o.len()));
        close_points(c, t.and_then(|t| t.point()).map(|p| [p.x, p.y, p.z]), p);
        // without one of its views
        let v = ov[c.rng.below(ov.len())].0;
        let rest: Vec<(Iso, V3)> = s.lms[l].iter().filter(|x| *x.0 != v).map(|(v, f)| (unflat(&s.views[v].pose), m.bearings[v][*f])).collect();
        let two = VSlamSettings { robust_minimum_observations: 2, ..st };
        if let Some(w) = robust(&two, 2, &rest) {
            let g = m.s.is_landmark_robust_without_view(rk, *l, v);
            c.check(g == w, "robust-without-view", || format!("{g} for {} other observations", rest.len()));
            let t = m.s.triangulate_landmark_robust_without_view(rk, *l, v);
            c.check(t.is_some() == (w && point(&m, &rest).is_some()), "triangulate-without-view", || format!("{t:?}"));
            close_points(c, t.and_then(|t| t.point()).map(|p| [p.x, p.y, p.z]), point(&m, &rest).filter(|_| w));
        }
        // together with another one
        let b = c.rng.pick(&keys);
        if b != *l && !s.lms[l].keys().any(|v| s.lms[&b].contains_key(v)) {
            let mut both = o.clone();
            both.extend(observations(&m, &s, b));
            if let Some(w) = robust(&st, n, &both) {
                let g = m.s.is_merged_landmark_robust(rk, [*l, b]);
                c.check(g == w, "merged-robust", || format!("{g} for {} observations", both.len()));
                let t = m.s.triangulate_merged_landmark_robust(rk, [*l, b]);
                let p = point(&m, &both).filter(|_| w);
                c.check(t.is_some() == p.is_some(), "triangulate-merged", || format!("{t:?}, the point is {p:?}"));
                close_points(c, t.and_then(|t| t.point()).map(|p| [p.x, p.y, p.z]), p);
            }
        }
        // the ways to an observation lead to the same thing
        for (v, f) in &ov {
            let fr = s.views[v].frame;
            c.check(m.s.data.observation_landmark(rk, *v, *f) == *l && ou(&m.s.data.landmark_bearing(rk, *v, *l)) == m.bearings[v][*f] && m.s.data.observation_bearing(rk, *v, *f) == m.s.data.bearing(fr, *f) && m.s.data.observation_color(rk, *v, *f) == m.s.data.color(fr, *f), "observation-access", || format!("{v:?} {f}"));
        }
        let mut g: Vec<(ViewKey, usize)> = m.s.data.landmark_observations(rk, *l).collect();
        g.sort();
        c.check(g == ov, "observation-access", || format!("{g:?} expected {ov:?}"));
    }
    if yes > 0 && no > 0 {
        c.nontrivial(c.idx << 20 ^ yes << 8 ^ no);
    }
}
fn close_points(c: &mut Case, a: Option<V3>, b: Option<V3>) {
    if let (Some(a), Some(b)) = (a, b) {
        // the same observations in another order
        let far = norm(b) > 1e4;
        if far || !fin3(b) {
            return;
        }
        c.check(norm(sub(a, b)) <= 1e-4 * (1.0 + norm(b)), "triangulated-point", || format!("{a:?} expected {b:?}"));
    }
}

/// What the observations of a landmark come to: sets which stay together, or `None` if it is too close to call.
fn kept(m: &Map, st: &VSlamSettings, s: &RecSnap, l: LandmarkKey) -> Option<Vec<Part>> {
    let ov: Part = s.lms[&l].iter().map(|(v, f)| (*v, *f)).collect();
    let o = observations(m, s, l);
    let singles: Vec<Part> = ov.iter().map(|x| vec![*x]).collect();
    let near = |x: f64, t: f64| (x / t - 1.0).abs() < 1e-3 || (x - t).abs() < 1e-12;
    match o.len() {
        1 => Some(vec![ov]),
        2 => {
            let d = o[0].0.inv().then(&o[1].0);
            let v = epipolar::loss(nv(d.t), nu(unit(mv(&d.r, o[0].1))), nu(o[1].1));
            if near(v, st.maximum_sine_distance) || !v.is_finite() {
                return None;
            }
            Some(if v < st.maximum_sine_distance { vec![ov] } else { singles })
        }
        _ => {
            let Some(p) = point(m, &o) else { return Some(singles) };
            let mut stay: Part = vec![];
            let mut out: Vec<Part> = vec![];
            for (k, (i, b)) in ov.iter().zip(&o) {
                let d = sub(unit(i.apply(p)), *b);
                let v = 0.5 * dot(d, d);
                if near(v, st.maximum_cosine_distance) {
                    return None;
                }
                if v > st.maximum_cosine_distance { out.push(vec![*k]) } else { stay.push(*k) }
            }
            if !stay.is_empty() {
                out.push(stay);
            }
            Some(out)
        }
    }
}

fn filtered(c: &mut Case) {
    let st = settings(&mut c.rng);
    let mut m = scene(c, st);
    let (before, rk) = (snap(&m.s.data).recs[&m.rk].clone(), m.rk);
    let n = before.views.len();
    let by_observation = c.rng.chance(0.6);
    let mut want: BTreeSet<Part> = BTreeSet::new();
    let mut unclear: BTreeSet<(ViewKey, usize)> = BTreeSet::new();
    for l in before.lms.keys() {
        let ov: Part = before.lms[l].iter().map(|(v, f)| (*v, *f)).collect();
        let parts = if by_observation {
            kept(&m, &st, &before, *l)
        } else {
            let o = observations(&m, &before, *l);
            robust(&st, n, &o).map(|w| if w && point(&m, &o).is_some() { vec![ov.clone()] } else { ov.iter().map(|x| vec![*x]).collect() })
        };
        match parts {
            Some(p) => want.extend(p),
            None => unclear.extend(ov),
        }
    }
    let name = if by_observation { "filter_non_robust_observations" } else { "filter_non_robust_landmarks" };
    let got = if by_observation {
        c.call(name, || m.s.filter_non_robust_observations(rk))
    } else {
        c.call(name, || { m.s.filter_non_robust_landmarks(rk); Some(rk) })
    };
    let Some(got) = got else { return };
    let after = snap(&m.s.data);
    // how many robust landmarks are left
    if by_observation && unclear.is_empty() {
        let mut sure = (0, 0);
        for p in &want {
            let o: Vec<(Iso, V3)> = p.iter().map(|(v, f)| (unflat(&before.views[v].pose), m.bearings[v][*f])).collect();
            match robust(&st, n, &o) {
                Some(true) => sure.0 += 1,
                None => sure.1 += 1,
                _ => {}
            }
        }
        if sure.0 >= st.minimum_robust_landmarks {
            c.check(got == Some(rk), "map-rejected", || format!("with {} robust landmarks of {}", sure.0, st.minimum_robust_landmarks));
        } else if sure.0 + sure.1 < st.minimum_robust_landmarks {
            c.check(got.is_none() && !after.recs.contains_key(&rk), "map-kept", || format!("with {} robust landmarks of {}", sure.0 + sure.1, st.minimum_robust_landmarks));
            c.bin("map rejected");
        }
    }
    let Some(r) = after.recs.get(&rk) else {
        c.nontrivial(c.idx << 8);
        return;
    };
    let now: BTreeSet<Part> = r.parts().into_iter().filter(|p| !p.iter().any(|x| unclear.contains(x))).collect();
    c.check(now == want, "filter-outcome", || {
        let a: Vec<&Part> = now.difference(&want).collect();
        let b: Vec<&Part> = want.difference(&now).collect();
        format!("{name}: {a:?} instead of {b:?}")
    });
    if !unclear.is_empty() {
        c.bin("some too close to call");
    }
    let split = r.lms.len() > before.lms.len();
    c.bin(match (by_observation, split) {
        (true, true) => "observations thrown out",
        (true, false) => "all observations kept",
        (false, true) => "landmarks thrown out",
        (false, false) => "all landmarks kept",
    });
    if split {
        c.nontrivial(r.lms.len() as u64 ^ (before.lms.len() as u64) << 16 ^ c.idx << 32);
    }
}

/// How far an observation is from its landmark, as a cosine distance.
fn loss(m: &Map, s: &RecSnap, l: LandmarkKey, v: ViewKey) -> f64 {
    let o = observations(m, s, l);
    match o.len() {
        1 => 2.0,
        2 => {
            let d = o[0].0.inv().then(&o[1].0);
            let x = epipolar::loss(nv(d.t), nu(unit(mv(&d.r, o[0].1))), nu(o[1].1));
            1.0 - (1.0 - x * x).sqrt()
        }
        _ => match point(m, &o) {
            Some(p) => {
                let d = sub(unit(unflat(&s.views[&v].pose).apply(p)), m.bearings[&v][s.lms[&l][&v]]);
                0.5 * dot(d, d)
            }
            None => 2.0,
        },
    }
}
/// Two landmarks which share one view are merged: the better of its two observations stays.
fn merged(c: &mut Case) {
    let st = settings(&mut c.rng);
    let mut m = scene(c, st);
    let rk = m.rk;
    let mut seen = 0u64;
    for _ in 0..10 {
        let s = snap(&m.s.data).recs[&rk].clone();
        let l: Vec<LandmarkKey> = s.lms.keys().copied().collect();
        let mut pick = None;
        for _ in 0..80 {
            let (a, b) = (c.rng.pick(&l), c.rng.pick(&l));
            let share: Vec<ViewKey> = s.lms[&a].keys().filter(|v| s.lms[&b].contains_key(v)).copied().collect();
            let least = if c.rng.chance(0.02) { 1 } else { 2 };
            if a != b && share.len() == 1 && s.lms[&a].len().min(s.lms[&b].len()) >= least && s.lms[&a].len() + s.lms[&b].len() > 3 {
                pick = Some((a, b, share[0]));
                break;
            }
        }
        let Some((a, b, v)) = pick else { return };
        let (la, lb) = (loss(&m, &s, a, v), loss(&m, &s, b, v));
        let (fa, fb) = (s.lms[&a][&v], s.lms[&b][&v]);
        let Some(got) = c.call("merge_landmarks_dedup", || m.s.merge_landmarks_dedup(rk, a, b)) else { return };
        if (la - lb).abs() < 1e-10 + 1e-6 * la.max(lb) || la.is_nan() || lb.is_nan() {
            c.bin("equally good");
            continue;
        }
        let (good, bad, worse) = if la < lb { (fa, fb, b) } else { (fb, fa, a) };
        let alone = s.lms[&worse].len() == 1;
        let t = snap(&m.s.data).recs[&rk].clone();
        if alone {
            c.check(got.is_none(), "merge-of-one", || format!("{got:?} although one is nothing but the worse observation"));
            c.bin("refused");
            continue;
        }
        let Some(k) = got else {
            c.fail("merge-refused", format!("{} and {} observations share one view", s.lms[&a].len(), s.lms[&b].len()));
            return;
        };
        c.check(t.views[&v].landmarks[good] == k && t.lms.get(&k).and_then(|o| o.get(&v)) == Some(&good), "merge-keeps-worse", || format!("losses {la:e} and {lb:e}; feature {good} expected in {:?}", t.lms.get(&k)));
        c.check(t.lms[&t.views[&v].landmarks[bad]].len() == 1, "merge-splits-worse", || format!("{:?}", t.lms[&t.views[&v].landmarks[bad]]));
        c.bin("the better kept");
        seen = seen.rotate_left(9) ^ (good as u64) << 20 ^ bad as u64;
        c.nontrivial(seen ^ c.idx << 40);
    }
}
