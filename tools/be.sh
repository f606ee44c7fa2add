cd /verif/engine && RUSTFLAGS= RUSTUP_TOOLCHAIN=stable cargo build --release --offline --target-dir /verif/target/engine 2>&1 | grep -E '^(error|Finished)' -A6
