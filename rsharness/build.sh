#!/bin/bash
# build.sh DIR [query]: builds /repo's rust-create-cascade (rust-query-crlite)
# against the stand-in crates into DIR.
D=$1 H=$(cd "$(dirname "$0")" && pwd)
R=${VERIF_REPO:-/repo}
if [ "$2" = query ]; then N=rust-query-crlite B=rq; else N=rust-create-cascade B=rs; fi
mkdir -p "$D/$B" || exit 2
[ -d "$D/$B/src" ] && rm -rf "$D/$B/src" "$D/$B/stubs"
cp -r "$H/stubs" "$D/$B/" && cp -r "$R/$N/src" "$D/$B/src" || exit 2
cp "$H/$B.lock" "$D/$B/Cargo.lock" 2>/dev/null
cat > "$D/$B/Cargo.toml" <<T
[package]
name = "$N"
version = "0.1.0"
edition = "$([ $B = rq ] && echo 2021 || echo 2015)"
[workspace]
[profile.dev]
debug = false
overflow-checks = true
[dependencies]
clap = { path = "stubs/clap", features = ["derive"] }
rust_cascade = { path = "stubs/rust_cascade", features = ["builder"] }
stderrlog = { path = "stubs/stderrlog" }
clubcard = { path = "stubs/clubcard", features = ["builder"] }
clubcard-crlite = { path = "stubs/clubcard-crlite", features = ["builder"] }
bincode = "1.3"
hex = "0.4"
log = "0.4"
serde_json = "1"
T
if [ $B = rq ]; then cat >> "$D/$B/Cargo.toml" <<T
base64 = { path = "stubs/base64_21" }
byteorder = { path = "stubs/byteorder" }
der-parser = { path = "stubs/der-parser" }
num-bigint = { path = "stubs/num-bigint" }
pem = { path = "stubs/pem" }
reqwest = { path = "stubs/reqwest", features = ["blocking", "json", "rustls-tls"] }
rustls = { path = "stubs/rustls", features = ["dangerous_configuration"] }
serde = { version = "1.0", features = ["derive"] }
sha2 = "0.10.2"
x509-parser = { path = "stubs/x509-parser", features = ["verify"] }
T
else cat >> "$D/$B/Cargo.toml" <<T
base64 = { path = "stubs/base64" }
rand = { path = "stubs/rand" }
statsd = { path = "stubs/statsd" }
rayon = "1.5"
tempfile = "3"
T
fi
cd "$D/$B" && CARGO_TARGET_DIR="$D/$B/target" cargo build --offline -q >"$D/$B/log" 2>&1 || { tail -40 "$D/$B/log" >&2; exit 2; }
cp "$D/$B/target/debug/$N" "$D/$N"
