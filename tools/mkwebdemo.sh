#!/bin/bash
# usage: mkwebdemo.sh ID PROP NEEDS BREAKS < main.rs : creates seeded/ID with a demonstration in Rust that runs
# the web frontend on the simulated browser and should panic or hang if the bug is present.
d=/verif/seeded/$1; mkdir -p $d; cat > $d/main.rs
rsync -a --delete /verif/web/stubs $d/; cp /verif/web/Cargo.lock $d/lock
python3 - "$@" <<'P'
import sys,json
i,p,n,w=sys.argv[1:5]
json.dump({"property":p,"needs":n,"what_it_breaks":w},open(f"/verif/seeded/{i}/meta.json","w"),indent=1)
P
cat > $d/demo.sh <<'E'
#!/bin/bash
# Builds and runs main.rs: the web frontend of /repo natively, on a simulated browser.
dir=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
mkdir "$tmp/src"
cp "$dir/main.rs" "$tmp/src/"
cp -r "$dir/stubs" "$tmp/"
sed 's/"vpweb"/"demo"/' "$dir/lock" >"$tmp/Cargo.lock"
cat >"$tmp/Cargo.toml" <<'T'
[package]
name = "demo"
version = "0.1.0"
edition = "2024"
[workspace]
[dependencies]
endbasic-web = { path = "/repo/web", default-features = false }
wasm-bindgen = "0.2"
web-sys = "0.3"
[patch.crates-io]
wasm-bindgen = { path = "stubs/wasm-bindgen" }
wasm-bindgen-futures = { path = "stubs/wasm-bindgen-futures" }
js-sys = { path = "stubs/js-sys" }
web-sys = { path = "stubs/web-sys" }
T
export PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=1.96 CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$tmp/target" RUSTC_WRAPPER=
cd "$tmp" || exit 2
cargo build --offline >"$tmp/log" 2>&1 || { cat "$tmp/log"; exit 3; }
timeout 60 "$tmp/target/debug/demo"
E
