export RUST_BACKTRACE=0
export LD_LIBRARY_PATH=$(rustc +nightly --print sysroot)/lib
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=/tmp/ht
export RUSTFLAGS="-Zalways-encode-mir -Zmir-opt-level=0 -Coverflow-checks=on -Cdebug-assertions=on -Awarnings"
export RUSTC_WRAPPER=/verif/tool/target/release/linerlint
touch /verif/harness/src/lib.rs
cd /verif/harness && cargo +nightly check --offline
