fn main() {
    println!("cargo:rerun-if-env-changed=WRUSTER_SRC_HASH");
    println!("cargo:rerun-if-changed=../build_common.rs");
    if std::env::var_os("CARGO_FEATURE_HOOKS").is_some() {
        println!("cargo:rustc-cfg=wruster_mc");
    }
}
