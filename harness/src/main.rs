mod fw;
mod gen;
mod m;
mod ops;
mod p_consensus;
mod p_core;
mod p_opt;
mod p_geom;
mod p_pinhole;
mod p_robust;
mod p_solvers;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.get(1).map(|x| x.as_str()) == Some("digest") {
        std::panic::set_hook(Box::new(|_| {}));
        let d = p_robust::digest(a[2].parse().expect("seed"), a[3].parse().expect("variant"));
        println!("{}", d.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" "));
        return;
    }
    let get = |k: &str| a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned();
    let seed = get("--seed")
        .or_else(|| std::env::var("VERIF_SEED").ok())
        .and_then(|s| s.parse().ok())
        .unwrap_or(1u64);
    let thorough = get("--tier").or_else(|| std::env::var("VERIF_TIER").ok()).is_some_and(|t| t == "thorough");
    let o = fw::Opts {
        seed,
        thorough,
        out: get("--out").unwrap_or_else(|| "/verif/evidence".into()),
        known: get("--known").unwrap_or_else(|| "/verif/known_findings.txt".into()),
        threads: get("--threads").and_then(|x| x.parse().ok()).unwrap_or(8),
        scale: get("--scale").and_then(|x| x.parse().ok()).unwrap_or(1.0),
        wall_cap: get("--wall-cap").and_then(|x| x.parse().ok()).unwrap_or(if thorough { 780.0 } else { 420.0 }),
        only: get("--only"),
        max_fail: get("--max-fail").and_then(|x| x.parse().ok()).unwrap_or(50),
        hang_cpu_s: 60.0,
        tag: get("--tag").unwrap_or_default(),
    };
    let props: Vec<fn() -> fw::Prop> = vec![p_core::c01, p_core::c02, p_core::c03, p_core::c04, p_core::c05,
        p_pinhole::c06, p_pinhole::c07, p_pinhole::c08, p_pinhole::c09, p_pinhole::c10, p_pinhole::c15,
        p_geom::c11, p_geom::c12, p_geom::c13, p_geom::c14, p_geom::c16, p_geom::c22,
        p_solvers::c17, p_solvers::c18, p_solvers::c19, p_opt::c20, p_opt::c21, p_robust::c23, p_robust::c24, p_robust::c25, p_consensus::c26];
    let id = a.get(1).cloned().unwrap_or_default();
    for p in props {
        let p = p();
        if p.id == id {
            if let Some(w) = get("--replay-workload") {
                let idx = get("--replay-case").and_then(|x| x.parse().ok()).unwrap_or(0);
                std::process::exit(fw::replay(&o, &p, &w, idx));
            }
            if let Some(n) = get("--plain").and_then(|x| x.parse().ok()) {
                let from = get("--from").and_then(|x| x.parse().ok()).unwrap_or(0);
                std::process::exit(fw::run_plain(&o, &p, from, n));
            }
            std::process::exit(fw::run(&o, &p));
        }
    }
    eprintln!("unknown property {id}");
    std::process::exit(2);
}
