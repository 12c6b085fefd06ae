//! C32: the map's cross references, through histories of operations.
use crate::fw::*;
use crate::m::*;
use crate::scene::*;
use cv_core::{CameraToCamera, WorldToWorld};
use cv_sfm::*;
use std::collections::{BTreeMap, BTreeSet, HashMap};

pub fn c32() -> Prop {
    Prop {
        id: "C32",
        rule: "distinct histories of operations on a map, by the operations done and the observations it ended with",
        assumptions: &[
            "histories respect the operations' contracts: a frame is in at most one reconstruction, landmarks merged unconditionally share no view",
            "the containers cv-sfm is built on are replaced by exact stand-ins, as they are not available offline",
        ],
        workloads: vec![
            wl("operations", 2500, 60000, 0.9, |c| c.isolated(crate::fixed_hashing, operations)),
            wl("tracking", 160, 3000, 0.6, |c| c.isolated(crate::fixed_hashing, tracking)),
        ],
    }
}

struct Sim {
    s: Slam,
    w: World,
    feed: FeedKey,
    /// the true pose and the true point of each feature
    frames: BTreeMap<FrameKey, (Iso, Vec<Option<usize>>)>,
    look: Look,
    reach: f64,
    /// the worst deviation of the poses put into the map
    err: f64,
    log: Vec<&'static str>,
}
impl Sim {
    fn new(r: &mut Rng, n: usize, settings: VSlamSettings) -> Sim {
        let mut s = slam(r, settings);
        let feed = s.add_feed(intrinsics());
        let look = Look {
            noise: if r.chance(0.3) { 0.0 } else { r.log(1e-5, 1e-3) },
            miss: r.range(0.0, 0.3),
            wrong: if r.chance(0.5) { 0.0 } else { r.range(0.0, 0.15) },
            clutter: r.below(6),
            flips: r.below(40),
        };
        let err = if r.chance(0.4) { 0.0 } else { r.log(1e-4, 0.1) };
        Sim { s, w: world(r, n), feed, frames: Default::default(), look, reach: r.range(0.3, 1.5), err, log: vec![] }
    }
    fn features(&self, r: &mut Rng) -> (Iso, Vec<(bitarray::BitArray<64>, Feature)>, Vec<Option<usize>>) {
        let pose = camera(r, self.reach);
        let (f, t) = observe(r, &self.w, &pose, self.look);
        (pose, f, t)
    }
    fn nudge(&self, r: &mut Rng, p: &Iso) -> Iso {
        let e = self.err;
        Iso { r: mm(&exp3([e * r.normal(), e * r.normal(), e * r.normal()]), &p.r), t: add(p.t, [e * r.normal(), e * r.normal(), e * r.normal()]) }
    }
    /// which feature of a frame shows a point
    fn by_point(&self, f: FrameKey) -> HashMap<usize, usize> {
        self.frames[&f].1.iter().enumerate().filter_map(|(i, p)| Some(((*p)?, i))).collect()
    }
}
fn some<T: Copy>(r: &mut Rng, v: &[T]) -> Option<T> {
    (!v.is_empty()).then(|| v[r.below(v.len())])
}
/// The observation sets after putting the sets of `a` and `b` together.
fn joined(parts: &BTreeSet<Part>, a: &Part, b: &Part) -> BTreeSet<Part> {
    let mut p = parts.clone();
    p.remove(a);
    p.remove(b);
    let mut u: Part = a.iter().chain(b).copied().collect();
    u.sort();
    p.insert(u);
    p
}
fn part_of(r: &RecSnap, l: LandmarkKey) -> Part {
    r.lms[&l].iter().map(|(v, f)| (*v, *f)).collect()
}
/// `fine` is `coarse` with some sets divided.
fn refines(fine: &BTreeSet<Part>, coarse: &BTreeSet<Part>) -> bool {
    let owner: HashMap<(ViewKey, usize), usize> = coarse.iter().enumerate().flat_map(|(i, p)| p.iter().map(move |o| (*o, i))).collect();
    let n: usize = fine.iter().map(|p| p.len()).sum();
    n == owner.len() && fine.iter().all(|p| p.iter().all(|o| owner.contains_key(o) && owner.get(o) == owner.get(&p[0])))
}
/// Observations of some views only.
fn restricted(parts: &BTreeSet<Part>, keep: impl Fn(ViewKey) -> bool) -> BTreeSet<Part> {
    parts.iter().map(|p| p.iter().copied().filter(|o| keep(o.0)).collect::<Part>()).filter(|p| !p.is_empty()).collect()
}
/// Views, poses and observations alike; constraints too.
fn same_but(a: &Snap, b: &Snap, except: &[ReconstructionKey]) -> Result<(), String> {
    for (k, r) in &a.recs {
        if except.contains(k) {
            continue;
        }
        if b.recs.get(k) != Some(r) {
            return Err(format!("the reconstruction {k:?} changed, which the operation is not on"));
        }
    }
    for k in b.recs.keys() {
        if !a.recs.contains_key(k) && !except.contains(k) {
            return Err(format!("a reconstruction {k:?} appeared"));
        }
    }
    for (k, f) in &a.frames {
        let inside = |v: &Option<(ReconstructionKey, ViewKey)>| v.is_some_and(|(r, _)| except.contains(&r));
        match b.frames.get(k) {
            None => return Err(format!("the frame {k:?} disappeared")),
            Some(g) => {
                if g.0 != f.0 || g.1 != f.1 || g.3 != f.3 || (g.2 != f.2 && !inside(&f.2) && !inside(&g.2)) {
                    return Err(format!("the frame {k:?} changed from {f:?} to {g:?}"));
                }
            }
        }
    }
    Ok(())
}
fn close12(a: &Iso12, b: &Iso12, tol: f64) -> bool {
    a.iter().zip(b).all(|(x, y)| (x - y).abs() <= tol * (1.0 + x.abs()))
}

fn operations(c: &mut Case) {
    let mut st = small();
    st.optimization_iterations = 1 + c.rng.below(8);
    st.optimization_minimum_new_constraints = c.rng.below(4);
    st.minimum_robust_landmarks = c.rng.pick(&[0, 4, 8, 20]);
    st.maximum_cosine_distance = c.rng.pick(&[1e-5, 1e-6, 1e-4]);
    st.maximum_sine_distance = c.rng.pick(&[0.1, 0.01]);
    st.robust_minimum_observations = c.rng.pick(&[2, 3, 3, 4]);
    st.graph_optimization_rate = c.rng.pick(&[0.001, 0.01]);
    let n = 20 + c.rng.below(50);
    let mut q = Sim::new(&mut c.rng, n, st);
    let steps = 6 + c.rng.below(if c.thorough { 60 } else { 30 });
    let mut before = snap(&q.s.data);
    let mut effects = 0u32;
    for _ in 0..steps {
        let mut op = c.rng.below(22);
        if before.recs.is_empty() && op > 1 {
            op = c.rng.below(2);
        }
        let Some(name) = step(c, &mut q, &before, op) else { return };
        let after = snap(&q.s.data);
        if let Err(e) = integrity(&after) {
            let mut log = q.log.clone();
            log.push(name);
            c.fail(&format!("inconsistent-after-{name}"), format!("{e}; after {log:?}"));
            return;
        }
        c.st.checks += 1;
        if after != before {
            effects += 1;
            q.log.push(name);
            c.bin(name);
        }
        if !c.fails.is_empty() {
            c.note("history", &q.log);
            return;
        }
        before = after;
    }
    c.note("history", &q.log);
    if effects >= 4 {
        let h = before.recs.values().flat_map(|r| r.parts()).fold(hash_str(&q.log.concat()), |h, p| h.rotate_left(5) ^ (p.len() as u64) << 7 ^ p[0].1 as u64);
        c.nontrivial(h);
    }
}

/// One operation and what it has to do to the map. `None` ends the history (a panic has been recorded).
fn step(c: &mut Case, q: &mut Sim, before: &Snap, op: usize) -> Option<&'static str> {
    let free: Vec<FrameKey> = before.frames.iter().filter(|f| f.1 .2.is_none()).map(|f| *f.0).collect();
    let recs: Vec<ReconstructionKey> = before.recs.keys().copied().collect();
    let rk = some(&mut c.rng, &recs);
    let ok = |c: &mut Case, r: Result<(), String>, sig: &str| {
        c.st.checks += 1;
        if let Err(e) = r {
            c.fail(sig, e);
        }
    };
    match (op, rk) {
        (0, _) => {
            let (pose, f, t) = q.features(&mut c.rng);
            let n = f.len();
            let (want, feed): (Vec<_>, FeedKey) = (f.clone(), q.feed);
            let k = c.call("add_frame", || q.s.data.monitor_add_frame(feed, f))?;
            q.frames.insert(k, (pose, t));
            let after = snap(&q.s.data);
            ok(c, same_but(before, &after, &[]), "add-frame-changes-others");
            let fr = q.s.data.frame(k);
            c.check(after.frames.len() == before.frames.len() + 1 && after.frames[&k].3 == n && after.frames[&k].2.is_none(), "add-frame", || format!("{:?} for {n} features", after.frames[&k]));
            c.check((0..n).all(|i| *fr.descriptor(i) == want[i].0 && fr.bearing(i) == want[i].1.bearing && fr.color(i) == want[i].1.color), "frame-features", || "the features of a frame are not the ones given".into());
            Some("add_frame")
        }
        (1, _) => {
            let mut f = free.clone();
            c.rng.shuffle(&mut f);
            while f.len() < 3 {
                let (pose, v, t) = q.features(&mut c.rng);
                let feed = q.feed;
                let k = c.call("add_frame", || q.s.data.monitor_add_frame(feed, v))?;
                q.frames.insert(k, (pose, t));
                f.push(k);
            }
            let before = snap(&q.s.data);
            let m: Vec<HashMap<usize, usize>> = (0..3).map(|i| q.by_point(f[i])).collect();
            let (mut all, mut first, mut second) = (vec![], vec![], vec![]);
            let mut pts: Vec<usize> = m[0].keys().copied().collect();
            pts.sort();
            for p in pts {
                if c.rng.chance(0.2) {
                    continue;
                }
                match (m[1].get(&p), m[2].get(&p)) {
                    (Some(&a), Some(&b)) if c.rng.chance(0.9) => all.push((m[0][&p], a, b)),
                    (Some(&a), _) => first.push([m[0][&p], a]),
                    (None, Some(&b)) => second.push([m[0][&p], b]),
                    _ => {}
                }
            }
            let world = q.frames[&f[0]].0.inv();
            let rel: Vec<Iso> = (1..3).map(|i| { let p = world.then(&q.frames[&f[i]].0); q.nudge(&mut c.rng, &p) }).collect();
            let (a, b, d) = (all.clone(), first.clone(), second.clone());
            let (p1, p2) = (CameraToCamera(rel[0].na()), CameraToCamera(rel[1].na()));
            let k = c.call("add_reconstruction", || q.s.data.add_reconstruction(f[0], f[1], f[2], p1, p2, a, b, d))?;
            let after = snap(&q.s.data);
            ok(c, same_but(&before, &after, &[k]), "add-reconstruction-changes-others");
            let r = &after.recs[&k];
            let v: Vec<Option<ViewKey>> = f[..3].iter().map(|f| after.frames[f].2.filter(|x| x.0 == k).map(|x| x.1)).collect();
            if !c.check(r.views.len() == 3 && v.iter().all(|v| v.is_some()), "add-reconstruction-views", || format!("{:?}", r.views)) {
                return None;
            }
            let v: Vec<ViewKey> = v.into_iter().flatten().collect();
            let mut want: BTreeSet<Part> = BTreeSet::new();
            let mut used: BTreeSet<(ViewKey, usize)> = BTreeSet::new();
            for p in all.iter().map(|x| vec![(v[0], x.0), (v[1], x.1), (v[2], x.2)]).chain(first.iter().map(|x| vec![(v[0], x[0]), (v[1], x[1])])).chain(second.iter().map(|x| vec![(v[0], x[0]), (v[2], x[1])])) {
                let mut p = p;
                p.sort();
                used.extend(p.iter().copied());
                want.insert(p);
            }
            for i in 0..3 {
                for j in 0..after.frames[&f[i]].3 {
                    if !used.contains(&(v[i], j)) {
                        want.insert(vec![(v[i], j)]);
                    }
                }
            }
            c.check(r.parts() == want, "add-reconstruction-observations", || format!("{:?} expected {want:?}", r.parts()));
            let id = flat(&Iso::id());
            c.check(r.views[&v[0]].pose == id && close12(&r.views[&v[1]].pose, &flat(&rel[0]), 1e-12) && close12(&r.views[&v[2]].pose, &flat(&rel[1]), 1e-12), "add-reconstruction-poses", || format!("{:?}", r.views));
            // the one constraint says how the views lie to each other
            if c.check(r.cons.len() == 1, "add-reconstruction-constraint", || format!("{:?}", r.cons)) {
                let (cv, cp) = &r.cons[0];
                let of = |v: ViewKey| r.views[&v].pose;
                let rel = |a: Iso12, b: Iso12| { let (a, b) = (unflat(&a), unflat(&b)); flat(&a.inv().then(&b)) };
                c.check((0..2).all(|i| close12(&cp[i], &rel(of(cv[0]), of(cv[i + 1])), 1e-9)), "add-reconstruction-constraint", || format!("{cv:?} {cp:?} for {:?}", r.views));
            }
            Some("add_reconstruction")
        }
        (2..=4, Some(rk)) => {
            let f = match some(&mut c.rng, &free) {
                Some(f) => f,
                None => {
                    let (pose, v, t) = q.features(&mut c.rng);
                    let feed = q.feed;
                    let k = c.call("add_frame", || q.s.data.monitor_add_frame(feed, v))?;
                    q.frames.insert(k, (pose, t));
                    k
                }
            };
            let before = snap(&q.s.data);
            let r = &before.recs[&rk];
            // landmarks of each point, by what their observations truly show
            let mut lms: HashMap<usize, Vec<LandmarkKey>> = HashMap::new();
            for (l, o) in &r.lms {
                let shows: BTreeSet<Option<usize>> = o.iter().map(|(v, f)| q.frames[&r.views[v].frame].1[*f]).collect();
                if shows.len() == 1 {
                    if let Some(Some(p)) = shows.first() {
                        lms.entry(*p).or_default().push(*l);
                    }
                }
            }
            let mut map: HashMap<usize, Vec<LandmarkKey>> = HashMap::new();
            let mut want = r.parts();
            let (_, truth) = q.frames[&f].clone();
            let mut taken: Vec<(usize, Part)> = vec![];
            for (i, p) in truth.iter().enumerate() {
                let Some(v) = p.and_then(|p| lms.get(&p)) else { continue };
                if c.rng.chance(0.2) {
                    continue;
                }
                let a = v[c.rng.below(v.len())];
                let b = v[c.rng.below(v.len())];
                let share = r.lms[&a].keys().any(|k| r.lms[&b].contains_key(k));
                let (pa, pb) = (part_of(r, a), part_of(r, b));
                want.remove(&pa);
                if !share && c.rng.chance(0.7) {
                    map.insert(i, vec![a, b]);
                    want.remove(&pb);
                    taken.push((i, pa.into_iter().chain(pb).collect()));
                } else {
                    map.insert(i, vec![a]);
                    taken.push((i, pa));
                }
            }
            let world = base(q, r);
            let pose = { let p = world.then(&q.frames[&f].0); q.nudge(&mut c.rng, &p) };
            let vk = c.call("add_view", || q.s.data.monitor_add_view(rk, f, w2c(&pose), |i| map.get(&i).map(|v| v.iter().copied().collect())))?;
            let after = snap(&q.s.data);
            ok(c, same_but(&before, &after, &[rk]), "add-view-changes-others");
            let matched: BTreeSet<usize> = taken.iter().map(|t| t.0).collect();
            for (i, mut p) in taken {
                p.push((vk, i));
                p.sort();
                want.insert(p);
            }
            for i in 0..truth.len() {
                if !matched.contains(&i) {
                    want.insert(vec![(vk, i)]);
                }
            }
            let s = &after.recs[&rk];
            c.check(s.parts() == want, "add-view-observations", || format!("{:?} expected {want:?}", s.parts()));
            c.check(s.cons == r.cons && r.views.iter().all(|(k, v)| s.views[k].pose == v.pose) && close12(&s.views[&vk].pose, &flat(&pose), 1e-12), "add-view-poses", || "poses or constraints changed".into());
            Some("add_view")
        }
        (5, Some(rk)) | (6, Some(rk)) => {
            let r = &before.recs[&rk];
            let l: Vec<LandmarkKey> = r.lms.keys().copied().collect();
            let (a, mut b) = (some(&mut c.rng, &l)?, some(&mut c.rng, &l)?);
            // more often two of which merging makes sense
            for _ in 0..c.rng.below(20) {
                if a == b || (op == 5 && r.lms[&a].keys().any(|k| r.lms[&b].contains_key(k))) || (op == 6 && r.lms[&a].len() + r.lms[&b].len() < 4) {
                    b = l[c.rng.below(l.len())];
                }
            }
            if a == b {
                return Some("nothing");
            }
            let share: Vec<ViewKey> = r.lms[&a].keys().filter(|k| r.lms[&b].contains_key(k)).copied().collect();
            let (pa, pb) = (part_of(r, a), part_of(r, b));
            if op == 5 {
                if !share.is_empty() {
                    return Some("nothing");
                }
                let k = c.call("merge_landmarks", || q.s.data.merge_landmarks(rk, a, b))?;
                let after = snap(&q.s.data);
                let s = &after.recs[&rk];
                ok(c, same_but(before, &after, &[rk]), "merge-changes-others");
                let want = joined(&r.parts(), &pa, &pb);
                c.check(s.parts() == want && s.lms.contains_key(&k) && part_of(s, k).len() == pa.len() + pb.len(), "merge-observations", || format!("{pa:?} and {pb:?} became {:?}", s.lms.get(&k)));
                unmoved(c, r, s);
                return Some("merge_landmarks");
            }
            let got = c.call("merge_landmarks_dedup", || q.s.merge_landmarks_dedup(rk, a, b))?;
            let after = snap(&q.s.data);
            let s = &after.recs[&rk];
            ok(c, same_but(before, &after, &[rk]), "merge-changes-others");
            unmoved(c, r, s);
            // whatever happened to the two, all others stay
            let mut rest = r.parts();
            rest.remove(&pa);
            rest.remove(&pb);
            let now = s.parts();
            c.check(rest.iter().all(|p| now.contains(p)), "dedup-changes-others", || format!("{rest:?} became {now:?}"));
            let mine: Vec<&Part> = now.iter().filter(|p| !rest.contains(*p)).collect();
            match got {
                Some(k) => {
                    // one landmark has one observation of each view; the others of a shared view are on their own
                    let p = part_of(s, k);
                    let views: BTreeSet<ViewKey> = p.iter().map(|o| o.0).collect();
                    let all: BTreeSet<ViewKey> = pa.iter().chain(&pb).map(|o| o.0).collect();
                    c.check(
                        views == all && p.len() == all.len() && mine.len() == 1 + share.len() && mine.iter().all(|m| **m == p || (m.len() == 1 && share.contains(&m[0].0))),
                        "dedup-observations",
                        || format!("{pa:?} and {pb:?} became {mine:?}"),
                    );
                    c.bin(if share.is_empty() { "dedup of disjoint landmarks" } else { "dedup of landmarks sharing views" });
                }
                None => {
                    // nothing was put together
                    c.check(!share.is_empty() && mine.iter().all(|m| m.iter().all(|o| pa.contains(o)) || m.iter().all(|o| pb.contains(o))), "dedup-refused", || format!("{pa:?} and {pb:?} became {mine:?}"));
                    c.bin("dedup refused");
                }
            }
            Some("merge_landmarks_dedup")
        }
        (7, Some(rk)) => {
            let r = &before.recs[&rk];
            let vs: Vec<ViewKey> = r.views.keys().copied().collect();
            let v = some(&mut c.rng, &vs)?;
            let nf = r.views[&v].landmarks.len();
            if nf == 0 {
                return Some("nothing");
            }
            let mut i = c.rng.below(nf);
            for _ in 0..10 {
                if r.lms[&r.views[&v].landmarks[i]].len() < 2 {
                    i = c.rng.below(nf);
                }
            }
            let p = part_of(r, r.views[&v].landmarks[i]);
            let did = c.call("split_observation", || q.s.data.monitor_split_observation(rk, v, i))?;
            let after = snap(&q.s.data);
            let s = &after.recs[&rk];
            let mut want = r.parts();
            if p.len() > 1 {
                want.remove(&p);
                want.insert(p.iter().copied().filter(|o| *o != (v, i)).collect());
                want.insert(vec![(v, i)]);
            }
            ok(c, same_but(before, &after, &[rk]), "split-changes-others");
            unmoved(c, r, s);
            c.check(did == (p.len() > 1) && s.parts() == want, "split-observations", || format!("{p:?} without {:?} became {:?}", (v, i), s.parts()));
            Some("split_observation")
        }
        (8, Some(rk)) => {
            let r = &before.recs[&rk];
            let vs: Vec<ViewKey> = r.views.keys().copied().collect();
            let v = some(&mut c.rng, &vs)?;
            c.call("remove_view", || q.s.data.monitor_remove_view(rk, v))?;
            let after = snap(&q.s.data);
            let s = &after.recs[&rk];
            ok(c, same_but(before, &after, &[rk]), "remove-view-changes-others");
            let want = restricted(&r.parts(), |k| k != v);
            let cons: Vec<_> = r.cons.iter().filter(|x| !x.0.contains(&v)).cloned().collect();
            c.check(!s.views.contains_key(&v) && s.views.len() + 1 == r.views.len() && s.views.iter().all(|(k, x)| r.views[k].pose == x.pose), "remove-view-views", || format!("{:?}", s.views.keys()));
            c.check(s.parts() == want, "remove-view-observations", || format!("{:?} expected {want:?}", s.parts()));
            c.check(s.cons == cons, "remove-view-constraints", || format!("{:?} expected {cons:?}", s.cons));
            c.check(after.frames[&r.views[&v].frame].2.is_none(), "remove-view-frame", || "the frame still has a view".into());
            if s.views.is_empty() {
                // an empty reconstruction is not something other operations accept
                c.call("remove_reconstruction", || q.s.data.monitor_remove_reconstruction(rk))?;
            }
            Some("remove_view")
        }
        (9, Some(rk)) => {
            if c.rng.chance(0.6) {
                return Some("nothing");
            }
            c.call("remove_reconstruction", || q.s.data.monitor_remove_reconstruction(rk))?;
            let after = snap(&q.s.data);
            ok(c, same_but(before, &after, &[rk]), "remove-reconstruction-changes-others");
            c.check(!after.recs.contains_key(&rk) && before.recs[&rk].views.values().all(|v| after.frames[&v.frame].2.is_none()), "remove-reconstruction", || "it or a view of it is still named".into());
            Some("remove_reconstruction")
        }
        (10, Some(rk)) | (11, Some(rk)) => {
            let r = &before.recs[&rk];
            let (got, name) = if op == 10 {
                (c.call("filter_non_robust_observations", || q.s.filter_non_robust_observations(rk))?, "filter_non_robust_observations")
            } else {
                c.call("filter_non_robust_landmarks", || q.s.filter_non_robust_landmarks(rk))?;
                (Some(rk), "filter_non_robust_landmarks")
            };
            let after = snap(&q.s.data);
            ok(c, same_but(before, &after, &[rk]), "filter-changes-others");
            c.check(got.is_none() || got == Some(rk), "filter-returns", || format!("{got:?} for {rk:?}"));
            c.check(got.is_some() == after.recs.contains_key(&rk), "filter-removal", || format!("{got:?} although the reconstruction is {}", if after.recs.contains_key(&rk) { "there" } else { "gone" }));
            match after.recs.get(&rk) {
                Some(s) => {
                    unmoved(c, r, s);
                    c.check(refines(&s.parts(), &r.parts()), "filter-only-splits", || format!("{:?} became {:?}", r.parts(), s.parts()));
                }
                None => {
                    c.check(r.views.values().all(|v| after.frames[&v.frame].2.is_none()), "removed-frames", || "a frame still has a view".into());
                }
            }
            Some(name)
        }
        (12, Some(dst)) => {
            let others: Vec<ReconstructionKey> = recs.iter().copied().filter(|r| *r != dst).collect();
            let Some(src) = some(&mut c.rng, &others) else { return Some("nothing") };
            let (a, b) = (&before.recs[&src], &before.recs[&dst]);
            let shows = |r: &RecSnap, o: &BTreeMap<ViewKey, usize>| -> Option<usize> {
                let s: BTreeSet<Option<usize>> = o.iter().map(|(v, f)| q.frames[&r.views[v].frame].1[*f]).collect();
                if s.len() == 1 { *s.first().unwrap() } else { None }
            };
            let mut of: HashMap<usize, LandmarkKey> = HashMap::new();
            for (l, o) in &b.lms {
                if let Some(p) = shows(b, o) {
                    of.insert(p, *l);
                }
            }
            let mut map: HashMap<LandmarkKey, LandmarkKey> = HashMap::new();
            let mut seen: HashMap<LandmarkKey, BTreeSet<ViewKey>> = HashMap::new();
            for (l, o) in &a.lms {
                let Some(d) = shows(a, o).and_then(|p| of.get(&p)) else { continue };
                let vs = seen.entry(*d).or_default();
                if c.rng.chance(0.1) || o.keys().any(|v| vs.contains(v)) {
                    continue;
                }
                vs.extend(o.keys());
                map.insert(*l, *d);
            }
            // source world to destination world
            let t = { let p = base(q, a).inv().then(&base(q, b)); let p = q.nudge(&mut c.rng, &p); p.inv() };
            let m = map.clone();
            c.call("incorporate_reconstruction", || q.s.incorporate_reconstruction(src, dst, WorldToWorld(t.na()), m))?;
            let after = snap(&q.s.data);
            ok(c, same_but(before, &after, &[src, dst]), "incorporate-changes-others");
            let Some(s) = after.recs.get(&dst) else {
                c.fail("incorporate-lost", "the destination is gone".into());
                return None;
            };
            c.check(!after.recs.contains_key(&src), "incorporate-source", || "the source is still there".into());
            // each view of the source is now one of the destination, or was refused
            let mut new: HashMap<ViewKey, ViewKey> = HashMap::new();
            for (v, x) in &a.views {
                match after.frames[&x.frame].2 {
                    Some((r, k)) if r == dst => {
                        new.insert(*v, k);
                        let want = flat(&t.inv().then(&unflat(&x.pose)));
                        c.check(close12(&s.views[&k].pose, &want, 1e-9), "incorporate-pose", || format!("{:?} expected {want:?}", s.views[&k].pose));
                    }
                    Some(o) => c.fail("incorporate-frame", format!("{o:?}")),
                    None => {}
                }
            }
            c.check(b.views.iter().all(|(k, v)| s.views.get(k).is_some_and(|x| x.pose == v.pose && x.frame == v.frame)) && s.views.len() == b.views.len() + new.len(), "incorporate-views", || format!("{:?} and {:?} became {:?}", b.views.keys(), a.views.keys(), s.views.keys()));
            let mut want: BTreeMap<LandmarkKey, Part> = b.lms.keys().map(|l| (*l, part_of(b, *l))).collect();
            let mut extra: BTreeSet<Part> = BTreeSet::new();
            for (l, o) in &a.lms {
                let p: Part = o.iter().filter_map(|(v, f)| Some((*new.get(v)?, *f))).collect();
                match map.get(l) {
                    Some(d) => want.get_mut(d).unwrap().extend(p),
                    None if !p.is_empty() => {
                        let mut p = p;
                        p.sort();
                        extra.insert(p);
                    }
                    _ => {}
                }
            }
            for mut p in want.into_values() {
                p.sort();
                extra.insert(p);
            }
            c.check(s.parts() == extra, "incorporate-observations", || format!("{:?} expected {extra:?}", s.parts()));
            c.check(b.cons.iter().all(|x| s.cons.contains(x)), "incorporate-constraints", || "constraints of the destination were lost".into());
            Some("incorporate_reconstruction")
        }
        (13, Some(rk)) => {
            let r = &before.recs[&rk];
            c.call("normalize_reconstruction", || q.s.normalize_reconstruction(rk))?;
            let after = snap(&q.s.data);
            let s = &after.recs[&rk];
            ok(c, same_but(before, &after, &[rk]), "normalize-changes-others");
            c.check(s.lms == r.lms && s.views.keys().eq(r.views.keys()) && s.cons.len() == r.cons.len(), "normalize-content", || "views, observations or constraints changed".into());
            Some("normalize_reconstruction")
        }
        (14, Some(rk)) | (15, Some(rk)) | (16, Some(rk)) => {
            let r = &before.recs[&rk];
            let (got, name) = match op {
                14 => (c.call("apply_constraints", || q.s.apply_constraints(rk))?, "apply_constraints"),
                15 => (c.call("optimize_reconstruction", || q.s.optimize_reconstruction(rk))?, "optimize_reconstruction"),
                _ => (c.call("regenerate_reconstruction", || q.s.regenerate_reconstruction(rk))?, "regenerate_reconstruction"),
            };
            let after = snap(&q.s.data);
            ok(c, same_but(before, &after, &[rk]), "optimization-changes-others");
            c.check(got.is_some() == after.recs.contains_key(&rk), "optimization-removal", || format!("{got:?} although the reconstruction is {}", if after.recs.contains_key(&rk) { "there" } else { "gone" }));
            match after.recs.get(&rk) {
                Some(s) => {
                    c.check(s.views.iter().all(|(k, v)| r.views.get(k).is_some_and(|x| x.frame == v.frame)), "optimization-views", || "a view appeared".into());
                    let coarse = restricted(&r.parts(), |k| s.views.contains_key(&k));
                    c.check(if op == 14 { s.parts() == coarse } else { refines(&s.parts(), &coarse) }, "optimization-observations", || format!("{coarse:?} became {:?}", s.parts()));
                    let gone = r.views.keys().filter(|k| !s.views.contains_key(k)).count();
                    if gone > 0 {
                        c.bin("optimization removed views");
                    }
                    if op != 16 {
                        c.check(s.cons.iter().all(|x| r.cons.contains(x)) && r.cons.iter().all(|x| s.cons.contains(x) || x.0.iter().any(|v| !s.views.contains_key(v))), "optimization-constraints", || "constraints changed".into());
                    }
                    // a view without any constraint cannot be placed
                    c.check(s.views.keys().all(|v| s.constrained().contains(v)) || q.s.settings.optimization_iterations == 0, "unconstrained-view-kept", || format!("{:?} of {:?}", s.constrained(), s.views.keys()));
                    c.check(s.views.len() >= 3, "optimization-keeps-too-few", || format!("{} views", s.views.len()));
                }
                None => {
                    c.bin("optimization removed the reconstruction");
                    c.check(r.views.values().all(|v| after.frames[&v.frame].2.is_none()), "removed-frames", || "a frame still has a view".into());
                }
            }
            Some(name)
        }
        (17..=19, Some(rk)) => {
            let r = &before.recs[&rk];
            let mut vs: Vec<ViewKey> = r.views.keys().copied().collect();
            if vs.len() < 3 {
                return Some("nothing");
            }
            c.rng.shuffle(&mut vs);
            vs.truncate(3);
            vs.sort();
            let p: Vec<Iso> = vs.iter().map(|v| unflat(&r.views[v].pose)).collect();
            let rel: Vec<Iso> = (1..3).map(|i| { let x = p[0].inv().then(&p[i]); q.nudge(&mut c.rng, &x) }).collect();
            q.s.data.monitor_reconstruction_mut(rk).constraints.insert(ThreeViewConstraint::monitor_new([vs[0], vs[1], vs[2]], [rel[0].na(), rel[1].na()]));
            Some("add_constraint")
        }
        (_, Some(rk)) => {
            c.call("sanity_check", || q.s.sanity_check(rk))?;
            Some("sanity_check")
        }
        _ => Some("nothing"),
    }
}
pub fn unflat(a: &Iso12) -> Iso {
    Iso { r: std::array::from_fn(|i| std::array::from_fn(|j| a[3 * i + j])), t: [a[9], a[10], a[11]] }
}
/// From the reconstruction's world to the true one, by its first view.
fn base(q: &Sim, r: &RecSnap) -> Iso {
    match r.views.values().next() {
        Some(v) => unflat(&v.pose).then(&q.frames[&v.frame].0.inv()),
        None => Iso::id(),
    }
}
fn unmoved(c: &mut Case, a: &RecSnap, b: &RecSnap) {
    c.check(
        a.views.len() == b.views.len() && a.views.iter().all(|(k, v)| b.views.get(k).is_some_and(|x| x.pose == v.pose && x.frame == v.frame)) && a.cons == b.cons,
        "views-or-constraints-changed",
        || "an operation on landmarks changed views or constraints".into(),
    );
}

/// Frames tracked one after the other: whatever is decided about each, the map stays consistent.
fn tracking(c: &mut Case) {
    let mut st = small();
    st.optimization_minimum_new_constraints = c.rng.below(3);
    st.tracking_recent_frames = c.rng.pick(&[3, 5, 32]);
    st.tracking_similar_frames = c.rng.pick(&[0, 3]);
    st.tracking_similar_frame_search_num = 16;
    let n = 90 + c.rng.below(60);
    let mut q = Sim::new(&mut c.rng, n, st);
    q.look.noise = c.rng.log(1e-6, 1e-4);
    q.look.clutter = c.rng.below(20);
    q.look.flips = c.rng.below(60);
    let frames = 4 + c.rng.below(6);
    let mut most = 0;
    for _ in 0..frames {
        let (pose, f, t) = match c.rng.below(12) {
            // nothing to see, almost nothing, something else
            0 => (Iso::id(), vec![], vec![]),
            1 => { let (p, mut f, mut t) = q.features(&mut c.rng); let k = c.rng.below(6); f.truncate(k); t.truncate(k); (p, f, t) }
            2 => { let o = world(&mut c.rng, 40); let p = camera(&mut c.rng, 0.5); let (f, t) = observe(&mut c.rng, &o, &p, q.look); let t = vec![None; t.len()]; (p, f, t) }
            _ => q.features(&mut c.rng),
        };
        let before = snap(&q.s.data);
        let feed = q.feed;
        let Some((k, view)) = c.call("track", || q.s.monitor_track(feed, f)) else { return };
        q.frames.insert(k, (pose, t));
        let after = snap(&q.s.data);
        if let Err(e) = integrity(&after) {
            c.fail("inconsistent-after-tracking", e);
            return;
        }
        c.st.checks += 1;
        c.check(after.frames.len() == before.frames.len() + 1 && after.frames[&k].2 == view, "tracked-frame", || format!("{:?}, {view:?} was returned", after.frames[&k]));
        c.check(before.frames.iter().all(|(f, x)| after.frames[f].0 == x.0 && after.frames[f].3 == x.3), "tracking-changes-frames", || "frames changed".into());
        most = most.max(after.recs.values().map(|r| r.views.len()).max().unwrap_or(0));
        q.log.push(if view.is_some() { "+" } else { "-" });
        for r in after.recs.values() {
            c.check(r.views.len() >= 3, "tiny-reconstruction", || format!("{} views", r.views.len()));
        }
    }
    c.note("tracked", &q.log);
    if most >= 3 {
        c.nontrivial(hash_str(&q.log.concat()) ^ c.idx << 8);
        c.bin(if most > 3 { "more than three views" } else { "three views" });
    }
}
