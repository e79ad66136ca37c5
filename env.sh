export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=/verif/target RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_TERM_COLOR=never
