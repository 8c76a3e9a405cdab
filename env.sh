export CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable CARGO_TARGET_DIR=/verif/target
