use std::process::Command;
fn main() {
    let out = std::env::var("OUT_DIR").unwrap();
    let ok = |c: &mut Command| assert!(c.status().expect("cc").success());
    ok(Command::new("gcc").args(["-O1", "-c", "rt/symexrt.c", "-o", &format!("{out}/symexrt.o")]));
    ok(Command::new("ar").args(["crs", &format!("{out}/libsymexrt.a"), &format!("{out}/symexrt.o")]));
    println!("cargo:rustc-link-search=native={out}");
    println!("cargo:rustc-link-lib=static:+whole-archive=symexrt");
    println!("cargo:rerun-if-changed=rt/symexrt.c");
    println!("cargo:rerun-if-changed=build.rs");
}
