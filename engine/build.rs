fn main() {
    // link against the installed z3 (development link `libz3.so`)
    println!("cargo:rustc-link-lib=z3");
}
