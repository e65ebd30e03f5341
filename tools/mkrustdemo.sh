#!/bin/bash
# usage: mkrustdemo.sh ID PROP NEEDS BREAKS < main.rs : creates seeded/ID with a demonstration in Rust, which
# can use term.rs (the terminal emulator) and should panic or exit with nonzero if the bug is present.
d=/verif/seeded/$1; mkdir -p $d; cat > $d/main.rs
cp /verif/harness/src/term.rs $d/term.rs
python3 - "$@" <<'P'
import sys,json
i,p,n,w=sys.argv[1:5]
json.dump({"property":p,"needs":n,"what_it_breaks":w},open(f"/verif/seeded/{i}/meta.json","w"),indent=1)
P
cat > $d/demo.sh <<'E'
#!/bin/bash
# Builds and runs main.rs against /repo's crates.
dir=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
mkdir "$tmp/src"
cp "$dir"/*.rs "$tmp/src/"
cp /repo/Cargo.lock "$tmp/"
cat >"$tmp/Cargo.toml" <<'T'
[package]
name = "demo"
version = "0.1.0"
edition = "2024"
[workspace]
[dependencies]
endbasic-core = { path = "/repo/core" }
endbasic-std = { path = "/repo/std" }
endbasic-repl = { path = "/repo/repl" }
endbasic-client = { path = "/repo/client" }
async-channel = "2.2"
async-trait = "0.1"
futures-lite = "2.2"
EXTRADEPS
T
export PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=1.96 CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$tmp/target" RUSTC_WRAPPER=
cd "$tmp" || exit 2
cargo build --offline >"$tmp/log" 2>&1 || { cat "$tmp/log"; exit 3; }
timeout 60 "$tmp/target/debug/demo"
E
python3 - "$d/demo.sh" <<P
import sys,os
p=sys.argv[1];s=open(p).read()
open(p,"w").write(s.replace("EXTRADEPS\n",os.environ.get("DEPS","")))
P
