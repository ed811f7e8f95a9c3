#!/bin/bash
# builds demo.rs (beside this script) against the library in the current directory and runs it in a scratch folder
HERE=$(cd "$(dirname "$0")" && pwd); REPO=$(pwd)
. /opt/vp/env.sh
D=$(mktemp -d); trap 'rm -rf "$D"' EXIT
mkdir -p "$D/src" "$D/work"; cp "$HERE/demo.rs" "$D/src/main.rs"; cp "$HERE/prelude.rs" "$D/src/"; cp "$REPO/Cargo.lock" "$D/"
printf '[package]\nname = "vpdemo"\nversion = "0.1.0"\nedition = "2018"\n[dependencies]\nosmgraphing = { path = "%s" }\nserde = { version = "1", features = ["derive"] }\n[workspace]\n' "$REPO" > "$D/Cargo.toml"
export CARGO_TARGET_DIR="$D/target"
[ -d "$REPO/target" ] && export CARGO_TARGET_DIR="$REPO/target/vpdemo"
(cd "$D" && $CARGO build --offline -q 2>"$D/build.log") || { tail -20 "$D/build.log"; exit 3; }
cp "$CARGO_TARGET_DIR/debug/vpdemo" "$D/vpdemo"
cd "$REPO" && PRE "$D/vpdemo" "$D/work"
