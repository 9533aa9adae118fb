fn main() {
    println!("cargo:rustc-env=SIM_OPT_LEVEL={}", std::env::var("OPT_LEVEL").unwrap());
    println!("cargo:rerun-if-changed=build.rs");
}
