#!/usr/bin/env python3
"""mkseed.py FILE...: each FILE is a Python literal file with the fields of one planted bug:
id, property, needs, what_it_breaks, edits=[(path, old, new[, count])], demo (body of a Rust main), features and core_features (default: all).
Writes seeded/<id>/ from /repo HEAD; works in a scratch worktree."""
import json, os, subprocess, sys, tempfile, shutil
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO_SH = r'''#!/bin/bash
# Runs demo.rs against the crate in the current directory; exit 0 when the property holds there.
set -u
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
[ -d /root/.cargo/bin ] && PATH=/root/.cargo/bin:$PATH
export PATH RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true
unset RUSTFLAGS
t=$(mktemp -d) || exit 3
trap 'rm -rf "$t"' EXIT
mkdir "$t/src" && cp "$here/demo.rs" "$t/src/main.rs" || exit 3
cat > "$t/Cargo.toml" <<TOML
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[workspace]
[profile.dev]
debug = 0
[dependencies]
m-bus-parser = { path = "$repo", features = ["std", "serde", "decryption"] }
m-bus-core = { path = "$repo/crates/m-bus-core", features = ["std", "decryption"] }
serde_json = "1"
EXTRA_DEPS
TOML
CARGO_TARGET_DIR=$t/target timeout 280 cargo run -q --offline --manifest-path "$t/Cargo.toml" >"$t/log" 2>&1
rc=$?
grep -v '^warning' "$t/log" | tail -20
exit $rc
'''
PRELUDE = '''#![allow(unused)]
use m_bus_parser::*;
fn wired(c: u8, a: u8, payload: &[u8]) -> Vec<u8> {
    let l = (payload.len() + 2) as u8;
    let mut v = vec![0x68, l, l, 0x68, c, a];
    v.extend(payload);
    let sum = v[4..].iter().fold(0u8, |s, b| s.wrapping_add(*b));
    v.extend([sum, 0x16]);
    v
}
fn stream(records: &[u8]) -> Vec<u8> {
    wired(8, 1, &[&[0x78][..], records].concat())
}
fn wireless(payload: &[u8]) -> Vec<u8> {
    let mut v = vec![(9 + payload.len()) as u8, 0x44, 0xAE, 0x4C, 0x44, 0x55, 0x22, 0x33, 0x68, 0x07];
    v.extend(payload);
    v
}
fn crc(data: &[u8]) -> [u8; 2] {
    let mut crc: u16 = 0;
    for b in data {
        crc ^= (*b as u16) << 8;
        for _ in 0..8 {
            crc = if crc & 0x8000 != 0 { (crc << 1) ^ 0x3D65 } else { crc << 1 };
        }
    }
    (crc ^ 0xFFFF).to_be_bytes()
}
fn opts(key: Option<[u8; 16]>) -> DecodeOptions {
    DecodeOptions { key, include_enrichment: false }
}
fn decode(d: &[u8]) -> serde_json::Value {
    decode_key(d, None)
}
fn decode_key(d: &[u8], key: Option<[u8; 16]>) -> serde_json::Value {
    serde_json::to_value(decode_bytes(d, &opts(key)).expect("decodes")).unwrap()
}
fn render(d: &[u8], f: &str, width: Option<usize>) -> String {
    render_bytes(d, f.parse().ok().expect("format"), &RenderOptions { decode: opts(None), table_width: width }).ok().expect("renders")
}
'''
def one(path):
    s = eval(open(path).read())
    d = f"{root}/seeded/{s['id']}"
    wt = tempfile.mkdtemp(prefix="seedwt")
    try:
        subprocess.check_call(["git", "-C", "/repo", "worktree", "add", "-q", "--detach", "-f", wt, "HEAD"])
        for e in s["edits"]:
            f = f"{wt}/{e[0]}"
            t = open(f).read()
            n = t.count(e[1])
            want = e[3] if len(e) > 3 else 1
            assert n == want, f"{s['id']}: {n} matches for {e[1]!r}"
            open(f, "w").write(t.replace(e[1], e[2]))
        diff = subprocess.check_output(["git", "-C", wt, "diff"], text=True)
        assert diff
        os.makedirs(d, exist_ok=True)
        open(f"{d}/patch.diff", "w").write(diff)
        open(f"{d}/demo.sh", "w").write(DEMO_SH.replace("EXTRA_DEPS\n", s.get("deps", ""))
                                       .replace('["std", "serde", "decryption"]', s.get("features", '["std", "serde", "decryption"]'))
                                       .replace('["std", "decryption"]', s.get("core_features", '["std", "decryption"]')))
        open(f"{d}/demo.rs", "w").write((PRELUDE if "features" not in s else PRELUDE[:PRELUDE.index("fn opts")]) + s["demo"])
        json.dump({k: s[k] for k in ("property", "needs", "what_it_breaks")}, open(f"{d}/meta.json", "w"), indent=1)
        if "--nodemo" not in sys.argv:
            a = subprocess.run(["bash", f"{d}/demo.sh"], cwd="/repo", capture_output=True, text=True)
            b = subprocess.run(["bash", f"{d}/demo.sh"], cwd=wt, capture_output=True, text=True)
            ok = a.returncode == 0 and b.returncode == 101
            print(s["id"], s["property"], "demo", "ok" if ok else f"BAD {a.returncode} {b.returncode}")
            if not ok:
                print(a.stdout[-1500:], "----", b.stdout[-1500:])
    finally:
        subprocess.call(["git", "-C", "/repo", "worktree", "remove", "--force", wt])
        shutil.rmtree(wt, ignore_errors=True)
for p in sys.argv[1:]:
    if p != "--nodemo":
        one(p)
