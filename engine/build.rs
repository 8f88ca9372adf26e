fn main() {
    // link against the newest z3 found; both expose the same C API
    for d in ["/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3/lib", "/usr/lib/x86_64-linux-gnu"] {
        if std::path::Path::new(d).join("libz3.so").exists() {
            println!("cargo:rustc-link-search=native={d}");
            println!("cargo:rustc-link-arg=-Wl,-rpath,{d}");
            break;
        }
    }
    println!("cargo:rustc-link-lib=dylib=z3");
}
