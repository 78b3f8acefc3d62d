fn main() {
    // the library under test must find our `syscall` before libc's
    println!("cargo:rustc-link-arg-bins=-rdynamic");
}
