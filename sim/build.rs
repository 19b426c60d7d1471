use std::{env, path::PathBuf, process::Command};
fn main() {
    println!("cargo:rerun-if-changed=csrc/simrt.c");
    println!("cargo:rerun-if-changed=build.rs");
    let out = PathBuf::from(env::var("OUT_DIR").unwrap());
    let obj = out.join("simrt.o");
    let ok = Command::new("gcc")
        .args(["-O2", "-g", "-c", "-fPIC", "-fno-builtin-memcmp", "-fno-builtin-bcmp", "-fno-tree-loop-distribute-patterns", "csrc/simrt.c", "-o"])
        .arg(&obj)
        .status()
        .expect("gcc")
        .success();
    assert!(ok, "simrt.c does not compile");
    println!("cargo:rustc-link-arg-bins={}", obj.display());
}
