fn main() {
    println!("cargo::rustc-check-cfg=cfg(cv_monitor)");
    println!("cargo::rustc-cfg=cv_monitor");
    println!("cargo::rerun-if-changed=build.rs");
}
