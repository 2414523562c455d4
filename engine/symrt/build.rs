use std::process::Command;
fn main() {
    let out = std::env::var("OUT_DIR").unwrap();
    println!("cargo:rerun-if-changed=shim.cpp");
    let ok = Command::new("g++")
        .args(["-O2", "-fPIC", "-w", "-fpermissive", "-D__STDC_LIMIT_MACROS", "-D__STDC_FORMAT_MACROS", "-c", "shim.cpp", "-o"])
        .arg(format!("{out}/shim.o"))
        .status()
        .unwrap()
        .success();
    assert!(ok);
    let ok = Command::new("ar").arg("crs").arg(format!("{out}/libshim.a")).arg(format!("{out}/shim.o")).status().unwrap().success();
    assert!(ok);
    println!("cargo:rustc-link-search=native={out}");
    println!("cargo:rustc-link-lib=static=shim");
    println!("cargo:rustc-link-search=native=/usr/lib");
    println!("cargo:rustc-link-lib=static=minisat");
    println!("cargo:rustc-link-lib=dylib=stdc++");
}
