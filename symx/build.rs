fn main() {
  // The SMT solver: the installed libz3 (Debian multiarch path first).
  println!("cargo:rustc-link-search=native=/usr/lib/x86_64-linux-gnu");
  println!("cargo:rustc-link-lib=dylib=z3");
}
