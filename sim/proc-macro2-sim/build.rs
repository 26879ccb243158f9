fn main() {
    // Spans carry data, as they do inside a compiler.
    println!("cargo:rustc-cfg=span_locations");
    println!("cargo:rerun-if-changed=build.rs");
}
