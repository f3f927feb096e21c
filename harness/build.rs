//! What the build script of the application would set.
fn main() {
    for name in ["BUILD_TIMESTAMP", "CARGO_FEATURES", "CARGO_OPT_LEVEL", "CARGO_TARGET_TRIPLE", "GIT_COMMIT_MESSAGE", "GIT_COMMIT_TIMESTAMP", "GIT_BRANCH", "GIT_SHA"] {
        println!("cargo:rustc-env=VERGEN_{name}=unknown");
    }
    println!("cargo:rerun-if-changed=build.rs");
}
