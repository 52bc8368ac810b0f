//! Compiles the host program in C against the headers the repository ships. Without a C compiler the simulator
//! does without it; if the compiler works and the headers are to blame, that is for the check of C14 to report.
use std::env::var;
use std::fs;
use std::path::PathBuf;
use std::process::Command;

fn main() {
    println!("cargo:rustc-check-cfg=cfg(chost)");
    println!("cargo:rerun-if-changed=build.rs");
    println!("cargo:rerun-if-changed=c/chost.c");
    println!("cargo:rerun-if-env-changed=SIM_NO_C");
    let out = PathBuf::from(var("OUT_DIR").unwrap());
    let here = PathBuf::from(var("CARGO_MANIFEST_DIR").unwrap());
    let toml = fs::read_to_string(here.join("Cargo.toml")).unwrap();
    let repo = toml.lines().find(|l| l.starts_with("m68000-ffi")).and_then(|l| l.split('"').nth(1)).unwrap().trim_end_matches("/m68000-ffi").to_string();
    let inc = format!("{repo}/include/m68000");
    for h in ["m68000.h", "m68000-ffi.h"] {
        println!("cargo:rerun-if-changed={inc}/{h}");
    }
    let cc = |src: &PathBuf, obj: &PathBuf, inc: &str| {
        let r = Command::new("gcc").args(["-std=c11", "-O1", "-fPIC", "-w", "-Werror=implicit-function-declaration", "-Werror=incompatible-pointer-types", "-Werror=int-conversion", "-c", "-I", inc, "-o"]).arg(obj).arg(src).output();
        match r {
            Ok(o) if o.status.success() => Ok(()),
            Ok(o) => Err(String::from_utf8_lossy(&o.stderr).into_owned()),
            Err(e) => Err(e.to_string()),
        }
    };
    let note = |s: &str| fs::write(out.join("chost.txt"), s).unwrap();
    // Set by check.sh if only the final linking fails with it.
    if var("SIM_NO_C").is_ok() {
        return note("what the headers declare is not in the library: a program compiled against them does not link");
    }
    // A compiler that cannot compile this is no judge of the headers.
    let probe = out.join("probe.c");
    fs::write(&probe, "#include <stdint.h>\n#include <stddef.h>\n#include <stdbool.h>\nsize_t f(uint32_t x) { return x; }\n").unwrap();
    if cc(&probe, &out.join("probe.o"), &inc).is_err() || !PathBuf::from(&inc).is_dir() {
        return note("");
    }
    let obj = out.join("chost.o");
    match cc(&here.join("c/chost.c"), &obj, &inc) {
        Ok(()) => {
            note("");
            println!("cargo:rustc-cfg=chost");
            println!("cargo:rustc-link-arg={}", obj.display());
        }
        Err(e) => note(&e),
    }
}
