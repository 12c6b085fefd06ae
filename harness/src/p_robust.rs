//! C23 robustness, C24 determinism, C25 serialisation, C26 consensus.
use crate::fw::*;
use crate::gen::ball;
use crate::m::*;
use crate::ops::*;
use cv_core::nalgebra;
use cv_core::sample_consensus::Estimator;
use cv_core::*;
use cv_geom::triangulation::*;
use cv_optimize::*;
use cv_pinhole::*;
use eight_point::EightPoint;
use lambda_twist::LambdaTwist;
use nister_stewenius::NisterStewenius;

// ------------------------------------------------------------------------------------------ C23
/// The number of values an operation may return (a bound on every list).
fn one_op(c: &mut Case, op: &Op, i: &In) {
    let Some(o) = c.call(op.name, || (op.f)(i)) else {
        if c.verbose {
            c.note("input", i);
        }
        return;
    };
    c.bin(op.name);
    let nan = o.0.iter().any(|b| f64::from_bits(*b).is_nan());
    if nan && op.kind == Kind::Proj && at_centre(i) || nan && i.extreme {
        c.inconclusive(if i.extreme { "NaN after overflow" } else { "point at a camera centre" });
        return;
    }
    if op.kind != Kind::Num {
        if nan {
            c.note("input", i);
        }
        c.check(!nan, &format!("nan:{}", op.name), || format!("{} returned NaN for {}", op.name, i.label));
    }
}
/// One of the points transformed by the pose operations comes out at the origin.
fn at_centre(i: &In) -> bool {
    let near = |g: &Iso, p: &[f64; 4]| {
        let x = [p[0], p[1], p[2]];
        let y = add(mv(&g.r, x), mul(g.t, p[3]));
        norm(y) <= 1e-14 * (norm(x) + norm(g.t) * p[3].abs())
    };
    let inv = i.g[0].inv();
    near(&i.g[0], &i.p[0]) || near(&i.g[1], &i.p[1]) || near(&i.g[2], &i.p[2]) || near(&inv, &i.p[0])
}
fn c23_hostile(c: &mut Case) {
    let i = hostile(&mut c.rng);
    c.nontrivial(i.hash());
    c.bin(i.label);
    for op in OPS {
        // minutes under the interpreter: only on request
        if cfg!(miri) && op.name == "NisterStewenius::estimate" && std::env::var("CVMON_SLOW").is_err() {
            continue;
        }
        one_op(c, op, &i);
    }
}
fn nan_free(c: &mut Case, name: &'static str, i: &In, o: Option<Out>) {
    let Some(o) = o else { return };
    let nan = o.0.iter().any(|b| f64::from_bits(*b).is_nan());
    if nan && i.extreme {
        c.inconclusive("NaN after overflow");
        return;
    }
    c.check(!nan, &format!("nan:{name}"), || format!("{name} returned NaN for {}", i.label));
}
fn bits_of<T: Put>(x: T) -> Out {
    let mut o = Out::default();
    x.put(&mut o);
    o
}
/// The settings of the operations away from their defaults, lists of every length.
fn c23_settings(c: &mut Case) {
    let i = hostile(&mut c.rng);
    c.nontrivial(i.hash());
    c.note("input", &i);
    let eps = c.rng.pick(&[1e-3, 1e-6, 1e-9, 1e-12, 1e-15]);
    let it = c.rng.pick(&[1, 2, 3, 10, 100, 1000]);
    let rate = c.rng.pick(&[1e-3, 0.1, 1.0, 1.9]);
    c.note("epsilon, iterations, rate", &(eps, it, rate));
    c.bin("settings drawn");
    let n = c.rng.below(N + 1);
    let pr = |k: usize, n: usize| -> Vec<_> { (0..n).map(|v| (i.w2c(v % 3), i.u((k + v / 3) % N, v % 3))).collect() };
    let le = LinearEigenTriangulator::new().epsilon(eps).max_iterations(it);
    let o = c.call("LinearEigenTriangulator with settings", || bits_of((0..N).map(|k| le.triangulate_observations(pr(k, n).into_iter())).collect::<Vec<_>>()));
    nan_free(c, "LinearEigenTriangulator with settings", &i, o);
    let sl = SineL1Triangulator::new().epsilon(eps).max_iterations(it).optimization_rate(rate);
    let o = c.call("SineL1Triangulator with settings", || bits_of((0..N).map(|k| sl.triangulate_observations(pr(k, n).into_iter())).collect::<Vec<_>>()));
    nan_free(c, "SineL1Triangulator with settings", &i, o);
    let dl = RelativeDltTriangulator::new().epsilon(eps).max_iterations(it);
    let o = c.call("RelativeDltTriangulator with settings", || bits_of((0..N).map(|k| dl.triangulate_relative(i.c2c(k % 3), i.u(k, 0), i.u(k, 1))).collect::<Vec<_>>()));
    nan_free(c, "RelativeDltTriangulator with settings", &i, o);
    let o = c.call("MeanMeanTriangulator of many", || bits_of((0..N).map(|k| MeanMeanTriangulator.triangulate_observations(pr(k, n).into_iter())).collect::<Vec<_>>()));
    nan_free(c, "MeanMeanTriangulator of many", &i, o);
    let e = EssentialMatrix(nm(&i.e));
    let o = c.call("EssentialMatrix with settings", || bits_of((e.recondition(eps, it), e.possible_unscaled_poses(eps, it))));
    nan_free(c, "EssentialMatrix with settings", &i, o);
    let lt = LambdaTwist::new()
        .gauss_newton_iterations(c.rng.below(8))
        .rotation_convergence_iterations(it)
        .rotation_convergence_epsilon(eps);
    let o = c.call("LambdaTwist with settings", || bits_of(lt.estimate(i.fws(N)[..3.max(n)].iter().copied()).to_vec()));
    nan_free(c, "LambdaTwist with settings", &i, o);
    let ep = EightPoint { epsilon: eps, iterations: it };
    let o = c.call("EightPoint with settings", || bits_of(ep.estimate(i.fms(8.max(n)).into_iter()).to_vec()));
    nan_free(c, "EightPoint with settings", &i, o);
    let ns = NisterStewenius { epsilon: eps, iterations: it };
    let o = c.call("NisterStewenius with settings", || bits_of(ns.estimate(i.fms(5.max(n)).into_iter()).to_vec()));
    nan_free(c, "NisterStewenius with settings", &i, o);
    let steps = c.rng.pick(&[0, 1, 2, 60, 200]);
    let (fw, ls) = (i.fws(n), i.ls()[..n].to_vec());
    let o = c.call("single view optimizers with settings", || {
        bits_of([single_view_simple_optimize_l1(i.w2c(0), eps, rate, steps, &fw), single_view_simple_optimize_l2(i.w2c(0), rate, steps, &fw)])
    });
    nan_free(c, "single view optimizers with settings", &i, o);
    let p = [i.c2c(0), i.c2c(1)];
    let o = c.call("three view optimizers with settings", || {
        bits_of([
            three_view_simple_optimize_l1(p, eps, rate, steps, &ls),
            three_view_simple_optimize_l2(p, rate, steps, &ls),
            three_view_adaptive_optimize_l2(p, steps, &ls),
        ])
    });
    nan_free(c, "three view optimizers with settings", &i, o);
}
/// Many degenerate samples for each minimal solver.
fn c23_solvers(c: &mut Case) {
    let i = hostile(&mut c.rng);
    c.nontrivial(i.hash());
    for k in 0..6 {
        let ix: Vec<usize> = (0..8).map(|_| c.rng.below(N)).collect();
        let fm: Vec<_> = ix.iter().map(|j| i.fm(*j)).collect();
        let fw: Vec<_> = ix.iter().map(|j| i.fw(*j)).collect();
        if c.verbose {
            c.note("sample", &(k, &ix));
        }
        let o = c.call("LambdaTwist sample", || bits_of(LambdaTwist::new().estimate(fw.iter().copied()).to_vec()));
        nan_free(c, "LambdaTwist sample", &i, o);
        let o = c.call("NisterStewenius sample", || bits_of(NisterStewenius::new().estimate(fm.iter().copied()).to_vec()));
        nan_free(c, "NisterStewenius sample", &i, o);
        let o = c.call("EightPoint sample", || bits_of(EightPoint::new().estimate(fm.iter().copied()).to_vec()));
        nan_free(c, "EightPoint sample", &i, o);
    }
    c.note("input", &i);
}
pub fn c23() -> Prop {
    Prop {
        id: "C23",
        rule: "an input bag counts when every operation was run on it; distinct by the bits of the bag",
        assumptions: &["unit bearings and proper rotations, finite numbers"],
        workloads: vec![wl("hostile", 100_000, 3_000_000, 0.99, c23_hostile),
            wl("settings", 40_000, 1_500_000, 0.99, c23_settings),
            wl("solver-samples", 40_000, 1_500_000, 0.99, c23_solvers)],
    }
}

// ------------------------------------------------------------------------------------------ C24
/// Runs an operation; a panic counts as an outcome of its own (C23 judges panics).
fn outcome(c: &mut Case, op: &Op, i: &In) -> Out {
    c.st.calls += 1;
    quiet(|| (op.f)(i))
}
fn quiet(f: impl FnOnce() -> Out) -> Out {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).unwrap_or(Out(vec![u64::MAX]))
}
fn bag(c: &mut Case) -> In {
    if c.rng.chance(0.5) {
        let n = c.rng.pick(&[0.0, 1e-9, 1e-3]);
        scene(&mut c.rng, n)
    } else {
        hostile(&mut c.rng)
    }
}
fn describe(a: &Out, b: &Out) -> String {
    let k = a.0.iter().zip(&b.0).position(|(x, y)| x != y);
    match k {
        Some(k) => format!("value {k}: {:e} then {:e}", f64::from_bits(a.0[k]), f64::from_bits(b.0[k])),
        None => format!("{} then {} values", a.0.len(), b.0.len()),
    }
}
/// Every operation twice on the same input with a random history of other operations in between.
fn c24_history(c: &mut Case) {
    let a = bag(c);
    let b = bag(c);
    c.nontrivial(a.hash());
    let mut first: Vec<Out> = vec![];
    for op in OPS {
        let o = outcome(c, op, &a);
        first.push(o);
    }
    let mut order: Vec<usize> = (0..OPS.len()).collect();
    c.rng.shuffle(&mut order);
    for &k in &order {
        for _ in 0..c.rng.below(3) {
            let (j, on_b) = (c.rng.below(OPS.len()), c.rng.chance(0.7));
            let _ = outcome(c, &OPS[j], if on_b { &b } else { &a });
            c.bin("operations in between");
        }
        let again = outcome(c, &OPS[k], &a);
        c.check(again == first[k], &format!("history:{}", OPS[k].name), || format!("{} gives another result the second time: {}", OPS[k].name, describe(&first[k], &again)));
    }
}
/// Operations on objects that several threads hold at once.
struct Shared {
    lt: LambdaTwist,
    ep: EightPoint,
    ns: NisterStewenius,
    le: LinearEigenTriangulator,
    sl: SineL1Triangulator,
    dl: RelativeDltTriangulator,
    k1: CameraIntrinsicsK1Distortion,
    fm: Vec<FeatureMatch>,
    fw: Vec<FeatureWorldMatch>,
    ls: Vec<[nalgebra::UnitVector3<f64>; 3]>,
    i: In,
}
const SHARED: &[(&str, fn(&Shared) -> Out)] = &[
    ("LambdaTwist", |s| bits_of(s.lt.estimate(s.fw.iter().copied()).to_vec())),
    ("EightPoint", |s| bits_of(s.ep.estimate(s.fm.iter().copied()).to_vec())),
    ("NisterStewenius", |s| bits_of(s.ns.estimate(s.fm.iter().copied()).to_vec())),
    ("LinearEigenTriangulator", |s| bits_of((0..N).map(|k| s.le.triangulate_relative(s.i.c2c(0), s.fm[k].0, s.fm[k].1)).collect::<Vec<_>>())),
    ("SineL1Triangulator", |s| bits_of((0..N).map(|k| s.sl.triangulate_relative(s.i.c2c(0), s.fm[k].0, s.fm[k].1)).collect::<Vec<_>>())),
    ("RelativeDltTriangulator", |s| bits_of((0..N).map(|k| s.dl.triangulate_relative(s.i.c2c(0), s.fm[k].0, s.fm[k].1)).collect::<Vec<_>>())),
    ("camera with distortion", |s| {
        bits_of((0..N).map(|k| s.k1.uncalibrate(s.fm[k].0).map(|p| s.k1.calibrate(p))).collect::<Vec<_>>())
    }),
    ("single view optimizers", |s| {
        bits_of([single_view_simple_optimize_l1(s.i.w2c(0), 1e-9, 0.1, 5, &s.fw), single_view_simple_optimize_l2(s.i.w2c(0), 0.1, 5, &s.fw)])
    }),
    ("three view optimizers", |s| {
        let p = [s.i.c2c(0), s.i.c2c(1)];
        bits_of([three_view_simple_optimize_l1(p, 1e-9, 0.1, 5, &s.ls), three_view_simple_optimize_l2(p, 0.1, 5, &s.ls), three_view_adaptive_optimize_l2(p, 5, &s.ls)])
    }),
];
fn shared(i: In) -> Shared {
    Shared {
        lt: LambdaTwist::new(),
        ep: EightPoint::new(),
        ns: NisterStewenius::new(),
        le: LinearEigenTriangulator::new(),
        sl: SineL1Triangulator::new(),
        dl: RelativeDltTriangulator::new(),
        k1: CameraIntrinsicsK1Distortion::new(i.intr(), i.k[5]),
        fm: i.fms(N),
        fw: i.fws(N),
        ls: i.ls(),
        i,
    }
}
/// Up to eight threads in different orders on shared objects and inputs, against the serial results.
fn c24_threads(c: &mut Case) {
    let bags: Vec<In> = (0..2).map(|_| bag(c)).collect();
    let sh = shared(bag(c));
    c.nontrivial(bags[0].hash());
    let serial: Vec<Vec<Out>> = bags.iter().map(|i| OPS.iter().map(|op| outcome(c, op, i)).collect()).collect();
    let serial_sh: Vec<Out> = SHARED.iter().map(|s| quiet(|| s.1(&sh))).collect();
    let n = 2 + c.rng.below(7);
    // per thread: a shuffled list of (what, on which bag), some repeated
    let plans: Vec<Vec<(usize, usize)>> = (0..n)
        .map(|_| {
            let mut v: Vec<(usize, usize)> = (0..OPS.len()).map(|k| (k, c.rng.below(2))).collect();
            for _ in 0..3 {
                v.extend((0..SHARED.len()).map(|k| (k, 2)));
            }
            c.rng.shuffle(&mut v);
            v
        })
        .collect();
    let bar = std::sync::Barrier::new(n);
    let diffs: Vec<(String, Out, Out)> = std::thread::scope(|sc| {
        let hs: Vec<_> = plans
            .iter()
            .map(|plan| {
                let (bags, sh, serial, serial_sh, bar) = (&bags, &sh, &serial, &serial_sh, &bar);
                sc.spawn(move || {
                    let mut bad = vec![];
                    bar.wait();
                    for &(k, b) in plan {
                        let (name, got, want) = if b == 2 {
                            (SHARED[k].0, quiet(|| SHARED[k].1(sh)), &serial_sh[k])
                        } else {
                            (OPS[k].name, quiet(|| (OPS[k].f)(&bags[b])), &serial[b][k])
                        };
                        if &got != want {
                            bad.push((name.to_string(), want.clone(), got));
                        }
                    }
                    bad
                })
            })
            .collect();
        hs.into_iter().flat_map(|h| h.join().expect("harness thread")).collect()
    });
    let total: usize = plans.iter().map(|p| p.len()).sum();
    c.st.calls += total as u64;
    c.st.checks += total as u64;
    c.bin(match n {
        2 => "2 threads",
        3..=5 => "3-5 threads",
        _ => "6-8 threads",
    });
    for (name, a, b) in diffs {
        c.fail(&format!("threads:{name}"), format!("{name} gives another result when other threads compute: {}", describe(&a, &b)));
    }
}
/// Samples after those an estimator needs, and the kind of iterator, change nothing.
fn c24_extra(c: &mut Case) {
    let a = bag(c);
    let b = bag(c);
    c.nontrivial(a.hash());
    let k = 1 + c.rng.below(N);
    let (fm, fw) = (a.fms(8), a.fws(3));
    let xm: Vec<_> = b.fms(k);
    let xw: Vec<_> = b.fws(k);
    let cmp = |c: &mut Case, name: &'static str, p: Out, q: Out| {
        c.check(p == q, &format!("extra-samples:{name}"), || format!("{name} with {k} samples more: {}", describe(&p, &q)));
    };
    let (p, q) = (
        c.call("LambdaTwist", || bits_of(LambdaTwist::new().estimate(fw.iter().copied()).to_vec())),
        c.call("LambdaTwist", || bits_of(LambdaTwist::new().estimate(fw.iter().chain(&xw).copied()).to_vec())),
    );
    if let (Some(p), Some(q)) = (p, q) {
        cmp(c, "LambdaTwist", p, q);
    }
    let (p, q) = (
        c.call("EightPoint", || bits_of(EightPoint::new().estimate(fm.iter().copied()).to_vec())),
        c.call("EightPoint", || bits_of(EightPoint::new().estimate(fm.iter().chain(&xm).copied()).to_vec())),
    );
    if let (Some(p), Some(q)) = (p, q) {
        cmp(c, "EightPoint", p, q);
    }
    let (p, q) = (
        c.call("NisterStewenius", || bits_of(NisterStewenius::new().estimate(fm[..5].iter().copied()).to_vec())),
        c.call("NisterStewenius", || bits_of(NisterStewenius::new().estimate(fm[..5].to_vec().into_iter().chain(xm.clone())).to_vec())),
    );
    if let (Some(p), Some(q)) = (p, q) {
        cmp(c, "NisterStewenius", p, q);
    }
    // one observation list, two kinds of iterator
    let pairs: Vec<_> = (0..k).map(|j| (a.w2c(j % 3), a.u(j, j % 3))).collect();
    let le = LinearEigenTriangulator::new();
    let sl = SineL1Triangulator::new().max_iterations(20);
    let (x, y) = (
        c.call("triangulators", || {
            bits_of([le.triangulate_observations(pairs.iter().copied()), sl.triangulate_observations(pairs.iter().copied()), MeanMeanTriangulator.triangulate_observations(pairs.iter().copied())])
        }),
        c.call("triangulators", || {
            let v = || pairs.clone().into_iter().map(|p| (p, 1)).filter(|x| x.1 == 1).map(|x| x.0);
            bits_of([le.triangulate_observations(v()), sl.triangulate_observations(v()), MeanMeanTriangulator.triangulate_observations(v())])
        }),
    );
    if let (Some(x), Some(y)) = (x, y) {
        cmp(c, "triangulators", x, y);
    }
}
/// One of several bags that share most of their content: what a stale cache would mix up.
fn variant(seed: u64, v: u64) -> In {
    let mut r = Rng::new(seed);
    let mut i = if seed % 3 > 0 { scene(&mut r, 1e-6) } else { hostile(&mut r) };
    let o = if seed % 3 > 0 { scene(&mut r, 1e-6) } else { hostile(&mut r) };
    match v {
        1 => i.g = o.g,
        2 => i.b = o.b,
        3 => i.p = o.p,
        4 => {
            // all but one of the samples are the same
            let k = 7.min(r.below(N));
            i.b[k] = o.b[k];
            i.p[k] = o.p[k];
        }
        5 => {
            i.p.swap(0, 2);
            i.b.swap(0, 2);
        }
        6 => {
            i.k = o.k;
            i.px = o.px;
            i.it = o.it + 1;
            i.rate = if i.rate == 0.1 { 0.2 } else { 0.1 };
        }
        7 => {
            // a small change only
            for k in 0..N {
                i.b[k][1] = unit(add(i.b[k][1], mul(ball(&mut r), 1e-9)));
            }
            i.px[0] += 1e-9;
            i.v6[0] += 1e-9;
        }
        _ => {}
    }
    i
}
const VARIANTS: u64 = 8;
fn digest_one(k: usize, i: &In) -> u64 {
    quiet(|| (OPS[k].f)(i)).0.iter().fold(17, |h, x| {
        let mut h = h ^ x;
        splitmix(&mut h)
    })
}
/// Digest of the results of every operation on one bag: what another process must repeat.
pub fn digest(seed: u64, v: u64) -> Vec<u64> {
    let i = variant(seed, v);
    let mut ix: Vec<usize> = (0..OPS.len()).collect();
    let mut res = vec![0; OPS.len()];
    // another order in every process
    Rng::new(std::process::id() as u64).shuffle(&mut ix);
    for k in ix {
        res[k] = digest_one(k, &i);
    }
    res
}
/// A process which computed many similar things before, against new processes.
fn c24_process(c: &mut Case) {
    let seed = c.rng.u64() >> 1;
    c.nontrivial(seed);
    let bags: Vec<In> = (0..VARIANTS).map(|v| variant(seed, v)).collect();
    let mut plan: Vec<(usize, usize)> = (0..OPS.len()).flat_map(|k| (0..VARIANTS as usize).map(move |v| (k, v))).collect();
    let mut twice = plan.clone();
    c.rng.shuffle(&mut plan);
    c.rng.shuffle(&mut twice);
    // half of the time operation after operation, so that similar inputs follow each other
    if c.rng.chance(0.5) {
        plan.sort_by_key(|p| p.0);
        twice.sort_by_key(|p| p.0);
    }
    plan.extend(twice);
    let mut got = vec![];
    for &(k, v) in &plan {
        got.push((k, v, digest_one(k, &bags[v])));
    }
    c.st.calls += plan.len() as u64;
    for v in 0..VARIANTS {
        let out = std::process::Command::new(std::env::current_exe().expect("own path"))
            .args(["digest".to_string(), seed.to_string(), v.to_string()])
            .output()
            .expect("child process");
        c.bin("fresh processes");
        let s = String::from_utf8_lossy(&out.stdout).into_owned();
        let other: Vec<u64> = s.split_whitespace().filter_map(|x| x.parse().ok()).collect();
        if other.len() != OPS.len() {
            c.fail("process:no-answer", format!("a process of its own gave no result: {:?}", out.status));
            return;
        }
        for &(k, w, h) in &got {
            if w as u64 == v {
                c.check(h == other[k], &format!("process:{}", OPS[k].name), || format!("{} on variant {v} gives another result in a process of its own", OPS[k].name));
            }
        }
    }
}
pub fn c24() -> Prop {
    Prop {
        id: "C24",
        rule: "an input bag whose every operation was run in two or more contexts and compared bit for bit; distinct by the bits of the bag",
        assumptions: &["same machine and build: floating point differs between builds"],
        workloads: vec![
            wl("history", 6_000, 200_000, 0.99, c24_history),
            wl("threads", 600, 20_000, 0.99, c24_threads),
            wl("extra-samples", 20_000, 800_000, 0.99, c24_extra),
            wl("processes", 400, 8_000, 0.99, c24_process),
        ],
    }
}

// ------------------------------------------------------------------------------------------ C25
/// Any finite double, with the patterns that text and compact formats trip over.
fn any_f64(r: &mut Rng) -> f64 {
    match r.below(12) {
        0 => 0.0,
        1 => -0.0,
        2 => r.pick(&[1.0, -1.0, 2.0, 0.5, 1e15, 1e16, 1e17, 123456789.0]),
        3 => r.pick(&[f64::MIN_POSITIVE, f64::MAX, f64::MIN, f64::EPSILON, 5e-324, -5e-324]),
        // subnormal
        4 => f64::from_bits(r.u64() & 0x000f_ffff_ffff_ffff) * r.sign(),
        // thirds, tenths: never short in both bases
        5 => r.range(-100.0, 100.0).round() / 3.0,
        6 => (r.range(-1e6, 1e6)).round() / 1e3,
        // exactly a single precision number, or just beside one
        7 => r.range(-10.0, 10.0) as f32 as f64,
        8 => f64::from_bits((r.range(-10.0, 10.0) as f32 as f64).to_bits() ^ 1),
        9 => r.range(-1.0, 1.0),
        _ => loop {
            let x = f64::from_bits(r.u64());
            if x.is_finite() {
                break x;
            }
        },
    }
}
fn bytes_differ(a: &[f64], b: &[f64]) -> bool {
    a.iter().zip(b).any(|(x, y)| x.to_bits() != y.to_bits())
}
/// A value made from `n` numbers, and the numbers back from it.
struct Ser<T> {
    name: &'static str,
    n: usize,
    make: fn(&[f64]) -> T,
    bits: fn(&T) -> Out,
}
fn serde_one<T>(c: &mut Case, s: &Ser<T>)
where
    T: serde::Serialize + serde::de::DeserializeOwned + Clone,
{
    let x: Vec<f64> = (0..s.n).map(|_| any_f64(&mut c.rng)).collect();
    let v = (s.make)(&x);
    let want = (s.bits)(&v);
    c.note(s.name, &x);
    let sig = |k: &str| format!("{k}:{}", s.name);
    let Some(Ok(j)) = c.call("serialise to JSON", || serde_json::to_string(&v)) else {
        c.fail(&sig("json-refused"), format!("{} {x:?} cannot be serialised", s.name));
        return;
    };
    let Some(Ok(b)) = c.call("serialise to bincode", || bincode::serialize(&v)) else {
        c.fail(&sig("bincode-refused"), format!("{} {x:?} cannot be serialised", s.name));
        return;
    };
    let judge = |c: &mut Case, kind: &str, r: Option<Result<T, String>>| match r {
        None => {}
        Some(Err(e)) => c.fail(&format!("{kind}-unreadable:{}", s.name), format!("{} {x:?}: {e}", s.name)),
        Some(Ok(w)) => {
            let got = (s.bits)(&w);
            c.check(got == want, &format!("{kind}-changed:{}", s.name), || format!("{} {x:?}: {}", s.name, describe(&want, &got)));
        }
    };
    let r = c.call("read JSON", || serde_json::from_str::<T>(&j).map_err(|e| e.to_string()));
    judge(c, "json", r);
    let r = c.call("read bincode", || bincode::deserialize::<T>(&b).map_err(|e| e.to_string()));
    judge(c, "bincode", r);
    // self-describing: through the document tree, whose keys are in another order
    let r = c.call("read JSON tree", || serde_json::to_value(&v).and_then(serde_json::from_value::<T>).map_err(|e| e.to_string()));
    judge(c, "tree", r);
    let r = c.call("read pretty JSON from a reader", || {
        serde_json::to_vec_pretty(&v).and_then(|t| serde_json::from_reader::<_, T>(&t[..])).map_err(|e| e.to_string())
    });
    judge(c, "reader", r);
    // among others, in a stream
    let r = c.call("read bincode list", || {
        bincode::serialize(&vec![v.clone(), v.clone(), v.clone()])
            .and_then(|t| bincode::deserialize::<Vec<T>>(&t))
            .map_err(|e| e.to_string())
            .and_then(|l| l.last().cloned().filter(|_| l.len() == 3).ok_or("list changed".to_string()))
    });
    judge(c, "list", r);
    // every number matters: change one, and the serialised forms differ
    let k = c.rng.below(s.n);
    let mut y = x.clone();
    y[k] = if c.rng.chance(0.5) { any_f64(&mut c.rng) } else { f64::from_bits(x[k].to_bits() ^ 1) };
    if y[k].is_finite() && bytes_differ(&x, &y) {
        let u = (s.make)(&y);
        if (s.bits)(&u) != want {
            let (ju, bu) = (serde_json::to_string(&u).unwrap_or_default(), bincode::serialize(&u).unwrap_or_default());
            c.check(ju != j, &sig("json-loses-a-field"), || format!("{} {x:?} and {y:?} look the same", s.name));
            c.check(bu != b, &sig("bincode-loses-a-field"), || format!("{} {x:?} and {y:?} look the same", s.name));
            c.bin("pairs differing in one number");
        }
    }
    // damaged documents are refused or read, but nothing panics, and a document that misses a part is refused
    let cut = c.rng.below(b.len());
    let t = c.call("read truncated bincode", || bincode::deserialize::<T>(&b[..cut]).is_ok());
    c.check(t != Some(true), &sig("truncated-accepted"), || format!("{} from {cut} of {} bytes", s.name, b.len()));
    let cut = c.rng.below(j.len());
    if j.is_char_boundary(cut) {
        let t = c.call("read truncated JSON", || serde_json::from_str::<T>(&j[..cut]).is_ok());
        c.check(t != Some(true) || !j.ends_with(['}', ']']), &sig("truncated-accepted"), || format!("{} from {}", s.name, &j[..cut]));
    }
    c.nontrivial(hash_f64s(&x) ^ hash_str(s.name));
    c.bin(s.name);
}
fn iso_raw(x: &[f64]) -> nalgebra::IsometryMatrix3<f64> {
    nalgebra::IsometryMatrix3::from_parts(
        nalgebra::Vector3::new(x[0], x[1], x[2]).into(),
        nalgebra::Rotation3::from_matrix_unchecked(nalgebra::Matrix3::from_column_slice(&x[3..12])),
    )
}
fn usz(x: f64) -> usize {
    (x.to_bits() >> 3) as usize
}
fn intr_raw(x: &[f64]) -> CameraIntrinsics {
    CameraIntrinsics { focals: nalgebra::Vector2::new(x[0], x[1]), principal_point: nalgebra::Point2::new(x[2], x[3]), skew: x[4] }
}
fn intr_bits(i: &CameraIntrinsics) -> Out {
    bits_of(((i.focals, i.principal_point), i.skew))
}
fn c25_values(c: &mut Case) {
    serde_one(c, &Ser { name: "WorldToCamera", n: 12, make: |x| WorldToCamera(iso_raw(x)), bits: |v| bits_of(v.0) });
    serde_one(c, &Ser { name: "CameraToWorld", n: 12, make: |x| CameraToWorld(iso_raw(x)), bits: |v| bits_of(v.0) });
    serde_one(c, &Ser { name: "CameraToCamera", n: 12, make: |x| CameraToCamera(iso_raw(x)), bits: |v| bits_of(v.0) });
    serde_one(c, &Ser { name: "WorldToWorld", n: 12, make: |x| WorldToWorld(iso_raw(x)), bits: |v| bits_of(v.0) });
    serde_one(c, &Ser { name: "WorldPoint", n: 4, make: |x| WorldPoint::from_homogeneous_unchecked(nv4([x[0], x[1], x[2], x[3]])), bits: |v| bits_of(v.homogeneous()) });
    serde_one(c, &Ser { name: "CameraPoint", n: 4, make: |x| CameraPoint::from_homogeneous_unchecked(nv4([x[0], x[1], x[2], x[3]])), bits: |v| bits_of(v.homogeneous()) });
    serde_one(c, &Ser { name: "KeyPoint", n: 2, make: |x| KeyPoint(nalgebra::Point2::new(x[0], x[1])), bits: |v| bits_of(v.0) });
    serde_one(c, &Ser { name: "Skew3", n: 3, make: |x| Skew3(nv([x[0], x[1], x[2]])), bits: |v| bits_of(v.0) });
    serde_one(c, &Ser { name: "CameraIntrinsics", n: 5, make: intr_raw, bits: intr_bits });
    serde_one(
        c,
        &Ser {
            name: "CameraIntrinsicsK1Distortion",
            n: 6,
            make: |x| CameraIntrinsicsK1Distortion { simple_intrinsics: intr_raw(x), k1: x[5] },
            bits: |v| bits_of((bits_id(intr_bits(&v.simple_intrinsics)), v.k1)),
        },
    );
    serde_one(
        c,
        &Ser {
            name: "CameraSpecification",
            n: 4,
            make: |x| CameraSpecification { pixels: nalgebra::Vector2::new(usz(x[0]), usz(x[1])), pixel_dimensions: nalgebra::Vector2::new(x[2], x[3]) },
            bits: |v| bits_of(((v.pixels.x as u64, v.pixels.y as u64), v.pixel_dimensions)),
        },
    );
}
fn bits_id(o: Out) -> Vec<u64> {
    o.0
}
/// Values as the library makes them, used after the round trip: they behave as before.
fn c25_behaviour(c: &mut Case) {
    let i = hostile(&mut c.rng);
    c.nontrivial(i.hash());
    macro_rules! trip {
        ($v:expr, $t:ty) => {{
            let v: $t = $v;
            let r = c.call("round trip", || {
                let j = serde_json::to_string(&v).map_err(|e| e.to_string())?;
                let v: $t = serde_json::from_str(&j).map_err(|e| e.to_string())?;
                let b = bincode::serialize(&v).map_err(|e| e.to_string())?;
                bincode::deserialize::<$t>(&b).map_err(|e| e.to_string())
            });
            match r {
                Some(Ok(w)) => w,
                Some(Err(e)) => {
                    // numbers which JSON cannot write
                    if format!("{v:?}").contains("inf") || format!("{v:?}").contains("NaN") {
                        c.inconclusive("not finite");
                    } else {
                        c.fail("round-trip-refused", format!("{v:?}: {e}"));
                    }
                    return;
                }
                None => return,
            }
        }};
    }
    let (g, h) = (i.w2c(0), trip!(i.w2c(0), WorldToCamera));
    let (e, f) = (i.c2c(1), trip!(i.c2c(1), CameraToCamera));
    let (p, q) = (i.wp(0), trip!(i.wp(0), WorldPoint));
    let (a, b) = (i.cp(1), trip!(i.cp(1), CameraPoint));
    let (s, t) = (Skew3(nv([i.v6[3], i.v6[4], i.v6[5]])), trip!(Skew3(nv([i.v6[3], i.v6[4], i.v6[5]])), Skew3));
    let k1 = CameraIntrinsicsK1Distortion::new(i.intr(), i.k[5]);
    let k2 = trip!(k1, CameraIntrinsicsK1Distortion);
    let kp = KeyPoint(nalgebra::Point2::new(i.px[0], i.px[1]));
    let kq = trip!(kp, KeyPoint);
    let r = c.call("operations on values read back", || {
        let x = bits_of(((g.transform(p).homogeneous(), e.transform(a).homogeneous()), ((g.se3(), e.se3()), (g.inverse(), s.rotation())), (k1.calibrate(kp), k1.uncalibrate(i.u(0, 0)))));
        let y = bits_of(((h.transform(q).homogeneous(), f.transform(b).homogeneous()), ((h.se3(), f.se3()), (h.inverse(), t.rotation())), (k2.calibrate(kq), k2.uncalibrate(i.u(0, 0)))));
        (x, y)
    });
    if let Some((x, y)) = r {
        c.check(x == y, "behaves-differently", || describe(&x, &y));
    }
}
pub fn c25() -> Prop {
    Prop {
        id: "C25",
        rule: "a value written and read in JSON (text, tree, reader) and bincode (single, list) and compared bit for bit; distinct by type and bits",
        assumptions: &["serde_json with its float_roundtrip feature, bincode 1: formats that keep every double"],
        workloads: vec![wl("values", 40_000, 1_500_000, 0.99, c25_values), wl("behaviour", 40_000, 1_500_000, 0.99, c25_behaviour)],
    }
}
