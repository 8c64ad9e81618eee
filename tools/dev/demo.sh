#!/bin/bash
# Builds demo.rs against the crate in the current directory and runs it:
# exit 0 if the property holds, nonzero otherwise.
D=$(cd "$(dirname "$0")" && pwd)
R=$(pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
mkdir -p "$T/src" "$T/scratch"
cp "$D/demo.rs" "$T/src/main.rs"
cp "$D/Cargo.lock.txt" "$T/Cargo.lock"
cat > "$T/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
fast_paths = { path = "$R" }
serde = { version = "1.0", features = ["derive"] }
serde_json = "1.0"
bincode = "1.3.3"
EOF
export PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=stable CARGO_TARGET_DIR="$T/target"
unset RUSTFLAGS
cd "$T" || exit 2
cargo build --release --offline -q || exit 2
timeout 200 "$T/target/release/demo" "$T/scratch"
