fn main() {
    // bulk memory operations go through the runtime, which charges simulated time for them
    for f in ["memcpy", "memmove", "memset", "memcmp", "bcmp"] {
        println!("cargo:rustc-cdylib-link-arg=-Wl,--wrap={f}");
    }
}
