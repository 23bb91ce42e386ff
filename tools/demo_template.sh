#!/bin/bash
# exit 0: the property held in the demonstrated scenario; nonzero: broken.  cwd is the repository.
set -u
repo=$(pwd)
here=$(cd "$(dirname "$0")" && pwd)
export HOME=/root PATH=/usr/local/bin:/usr/bin:/bin:$PATH
export RUSTUP_TOOLCHAIN=1.85.0 CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
s=$(mktemp -d)
trap 'rm -rf "$s"' EXIT
mkdir -p "$s/src"
cp "$here/main.rs" "$s/src/main.rs"
cp "$repo/Cargo.lock" "$s/Cargo.lock"
feat=""
[ -f "$here/features" ] && feat=", features = [\"$(cat "$here/features")\"]"
cat > "$s/Cargo.toml" <<T
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
cavalier_contours = { path = "$repo/cavalier_contours"$feat }
cavalier_contours_ffi = { path = "$repo/cavalier_contours_ffi" }
static_aabb2d_index = "2.0"
[workspace]
T
if [ -f "$here/extra_deps" ]; then sed -i "/^static_aabb2d_index/r $here/extra_deps" "$s/Cargo.toml"; fi
cd "$s" || exit 2
CARGO_TARGET_DIR="$s/target" cargo build --offline -q 2> "$s/err" || { cat "$s/err"; exit 3; }
timeout 100 "$s/target/debug/demo"
