#!/bin/bash
# Runs main.rs (beside this file) against /repo's current sources: exit 0 when the property holds in its scenario.
HERE=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
D=$(mktemp -d /tmp/demo.XXXXXX) || exit 2
trap 'rm -rf "$D"' EXIT
cp -a /opt/vp/ws "$D/ws" && mkdir -p "$D/ws/demo/src" && cp "$HERE/main.rs" "$D/ws/demo/src/main.rs" && cp "$HERE/demo.toml" "$D/ws/demo/Cargo.toml" || exit 2
sed -i 's|^"members" = \[|"members" = ["demo", |' "$D/ws/Cargo.toml" || exit 2
# the dependencies /opt/vp/build.sh has built are used again where they fit
mkdir -p "$D/target/debug" && cp -a /opt/vp/target/debug/deps /opt/vp/target/debug/build /opt/vp/target/debug/.fingerprint "$D/target/debug/" 2>/dev/null
export CARGO_TARGET_DIR=$D/target CARGO_INCREMENTAL=0
cd "$D/ws" || exit 2
cargo run --offline -p demo
