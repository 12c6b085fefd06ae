#[path = "../../../harness/src/fw.rs"]
#[allow(dead_code)]
mod fw;
mod img;
mod p_desc;
mod p_detect;
mod p_extract;
mod p_filter;
mod p_scale;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let get = |k: &str| a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned();
    let seed = get("--seed").or_else(|| std::env::var("VERIF_SEED").ok()).and_then(|s| s.parse().ok()).unwrap_or(1u64);
    let thorough = get("--tier").or_else(|| std::env::var("VERIF_TIER").ok()).is_some_and(|t| t == "thorough");
    let o = fw::Opts {
        seed,
        thorough,
        out: get("--out").unwrap_or_else(|| "/verif/evidence".into()),
        known: get("--known").unwrap_or_else(|| "/verif/known_findings.txt".into()),
        threads: get("--threads").and_then(|x| x.parse().ok()).unwrap_or(8),
        scale: get("--scale").and_then(|x| x.parse().ok()).unwrap_or(1.0),
        wall_cap: get("--wall-cap").and_then(|x| x.parse().ok()).unwrap_or(if thorough { 780.0 } else { 420.0 }),
        only: get("--only"),
        max_fail: get("--max-fail").and_then(|x| x.parse().ok()).unwrap_or(50),
        hang_cpu_s: 60.0,
        tag: get("--tag").unwrap_or_default(),
    };
    let props: Vec<fn() -> fw::Prop> = vec![p_filter::c27, p_scale::c28, p_detect::c29, p_desc::c30, p_extract::c31];
    let id = a.get(1).cloned().unwrap_or_default();
    for p in props {
        let p = p();
        if p.id == id {
            if let Some(w) = get("--replay-workload") {
                let idx = get("--replay-case").and_then(|x| x.parse().ok()).unwrap_or(0);
                std::process::exit(fw::replay(&o, &p, &w, idx));
            }
            if let Some(n) = get("--plain").and_then(|x| x.parse().ok()) {
                let from = get("--from").and_then(|x| x.parse().ok()).unwrap_or(0);
                std::process::exit(fw::run_plain(&o, &p, from, n));
            }
            std::process::exit(fw::run(&o, &p));
        }
    }
    eprintln!("unknown property {id}");
    std::process::exit(2);
}
