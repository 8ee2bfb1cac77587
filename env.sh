export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true
export CARGO_TERM_COLOR=never
export RUSTFLAGS="-C target-cpu=generic -C link-arg=-fuse-ld=lld"
export CARGO_TARGET_DIR=/verif/harness/target
unset CARGO_BUILD_TARGET
