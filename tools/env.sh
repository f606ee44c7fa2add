export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true
export RUSTFLAGS="-C no-vectorize-loops -C no-vectorize-slp"
LL=$(rustc --print sysroot)/lib/libLLVM.so.23.1-rust-1.99.1-stable
# bc <features> [profile] [dir]
bc() { local p=${2:-release} d=${3:-/verif/target/t1}; (cd /verif/harness/${HCRATE:-heng} && cargo rustc --profile $p --lib --features $1 --target-dir $d -- --emit=llvm-bc,link 2>&1 | grep -E '^(error|warning: unused)' -A8 | head -40; ls -la $d/$p/deps/heng.bc); }
# sx <harness> [args]
sx() { local h=$1; shift; /verif/target/engine/release/symex --llvm $LL --bc ${BC:-/verif/target/t1/release/deps/heng.bc} --harness $h -v --out /tmp/o.json --timeout ${T:-100} --jobs 8 "$@"; }
