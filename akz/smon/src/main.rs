#[path = "../../../harness/src/fw.rs"]
#[allow(dead_code)]
mod fw;
#[path = "../../../harness/src/m.rs"]
#[allow(dead_code)]
mod m;
mod p_graph;
mod p_map;
mod p_out;
mod p_pick;
mod p_track;
mod room;
mod scene;

use std::cell::Cell;
thread_local! {
    /// what the next random bytes asked of the system are in this thread, if they are to be repeatable
    static BYTES: Cell<u64> = const { Cell::new(0) };
}
/// The hash maps of the code under test draw their keys here: fixed in the thread of a case, so that a case repeats.
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, flags: u32) -> isize {
    let mut x = BYTES.with(|b| b.get());
    if x == 0 {
        return libc::syscall(libc::SYS_getrandom, buf, len, flags) as isize;
    }
    for i in 0..len {
        *buf.add(i) = (fw::splitmix(&mut x) >> 24) as u8;
    }
    BYTES.with(|b| b.set(x | 1));
    len as isize
}
/// To be called first in the thread of a case.
pub fn fixed_hashing() {
    BYTES.with(|b| b.set(0x5eed));
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let get = |k: &str| a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned();
    let seed = get("--seed").or_else(|| std::env::var("VERIF_SEED").ok()).and_then(|s| s.parse().ok()).unwrap_or(1u64);
    let thorough = get("--tier").or_else(|| std::env::var("VERIF_TIER").ok()).is_some_and(|t| t == "thorough");
    let o = fw::Opts {
        seed,
        thorough,
        out: get("--out").unwrap_or_else(|| "/verif/evidence".into()),
        known: get("--known").unwrap_or_else(|| "/verif/known_findings.txt".into()),
        threads: get("--threads").and_then(|x| x.parse().ok()).unwrap_or(8),
        scale: get("--scale").and_then(|x| x.parse().ok()).unwrap_or(1.0),
        wall_cap: get("--wall-cap").and_then(|x| x.parse().ok()).unwrap_or(if thorough { 780.0 } else { 420.0 }),
        only: get("--only"),
        max_fail: get("--max-fail").and_then(|x| x.parse().ok()).unwrap_or(50),
        hang_cpu_s: 60.0,
        tag: get("--tag").unwrap_or_default(),
    };
    let props: Vec<fn() -> fw::Prop> = vec![p_map::c32, p_graph::c33, p_pick::c34, p_track::c35, p_out::c36];
    let id = a.get(1).cloned().unwrap_or_default();
    for p in props {
        let p = p();
        if p.id == id {
            if let Some(w) = get("--replay-workload") {
                let idx = get("--replay-case").and_then(|x| x.parse().ok()).unwrap_or(0);
                std::process::exit(fw::replay(&o, &p, &w, idx));
            }
            std::process::exit(fw::run(&o, &p));
        }
    }
    eprintln!("unknown property {id}");
    std::process::exit(2);
}
