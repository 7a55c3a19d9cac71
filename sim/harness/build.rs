//! TLS gets its random numbers from the simulator: references to AWS-LC's generator are diverted to interpose.rs.
fn main() {
    for f in ["RAND_bytes", "RAND_bytes_with_user_prediction_resistance"] {
        println!("cargo:rustc-link-arg-bins=-Wl,--wrap=aws_lc_0_47_0_{f}");
    }
    println!("cargo:rerun-if-changed=build.rs");
}
