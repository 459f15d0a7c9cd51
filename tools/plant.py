#!/usr/bin/env python3
"""Make /verif/seeded/<id>: plant.py ID PROPERTY core|schema|ipm NEEDS BREAKS < demo.rs, with the change applied in a
scratch copy given by $WT (its diff becomes patch.diff)."""
import sys,os,subprocess,json
ID,prop,kind,needs,breaks=sys.argv[1:6]
wt=os.environ.get("WT","/tmp/wt")
d=f"/verif/seeded/{ID}"
os.makedirs(d,exist_ok=True)
diff=subprocess.run(["git","-C",wt,"diff"],capture_output=True,text=True).stdout
assert diff.strip(),"no change"
open(d+"/patch.diff","w").write(diff)
open(d+"/demo.rs","w").write({"core":open("/verif/tools/demo_core.rs").read(),"schema":open("/verif/tools/demo_schema.rs").read(),"ipm":""}[kind]+sys.stdin.read())
deps={"core":'''pywr-core = { path = "$repo/pywr-core", default-features = false, features = ["pyo3", "highs", "microlp", "ipm-simd", "ipm-ocl"] }
jiff = "0.2"
ndarray = "0.17"
rayon = "1.12"''',
"ipm":'''ipm-simd = { path = "$repo/ipm-simd" }
wide = "1.4"''',
"schema":'''pywr-core = { path = "$repo/pywr-core", default-features = false, features = ["microlp"] }
pywr-schema = { path = "$repo/pywr-schema", default-features = false, features = ["core", "pyo3", "hdf5", "highs", "ipm-simd"] }
serde_json = "1.0"
tempfile = "3.27"
jiff = "0.2"
ndarray = "0.17"'''}[kind]
open(d+"/demo.sh","w").write(f'''#!/bin/bash
# Builds and runs demo.rs against the tree in the current directory.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
mkdir -p "$tmp/src" "$tmp/work"
cp "$here/demo.rs" "$tmp/src/main.rs"
cp "$repo/Cargo.lock" "$tmp/"
cat > "$tmp/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2024"
[workspace]
[dependencies]
{deps}
T
# the same environment as the repository's own build, so that its products are reused
export CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=1 CARGO_PROFILE_DEV_DEBUG=line-tables-only RUSTC_WRAPPER= PYO3_PYTHON=/usr/bin/python3 RUST_BACKTRACE=0
export CARGO_TARGET_DIR="$repo/target"
cd "$tmp" && cargo build --offline -q && cd work && "$repo/target/debug/demo"
''')
json.dump({"property":prop,"needs":needs,"what_it_breaks":breaks},open(d+"/meta.json","w"),indent=1)
print("made",d)
