fn main() {
    // newest installed z3 first, the system one otherwise
    let dirs = [
        "/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3/lib",
        "/usr/lib/x86_64-linux-gnu",
    ];
    for d in dirs {
        if std::path::Path::new(&format!("{d}/libz3.so")).exists() {
            println!("cargo:rustc-link-search=native={d}");
            println!("cargo:rustc-link-lib=dylib=z3");
            println!("cargo:rerun-if-changed=build.rs");
            return;
        }
    }
    panic!("libz3.so not found");
}
