export RUSTUP_TOOLCHAIN=nightly-x86_64-unknown-linux-gnu
export RUSTFLAGS="-Zsanitizer=address -Zub-checks=yes -C target-cpu=generic -C link-arg=-fuse-ld=lld"
export CARGO_BUILD_TARGET=x86_64-unknown-linux-gnu
export CARGO_TARGET_DIR=/verif/harness/target/asan
