#!/usr/bin/env python3
"""mkseed.py SPEC.py: SPEC defines id, prop, needs, breaks, edits=[(file, old, new)...], main (Rust source of the demo)."""
import sys, os, json, subprocess, runpy
DEMO = '''#!/bin/bash
# run with cwd = the repository; exit 0: behaves as specified
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD
export HOME=/root PATH="/root/.cargo/bin:$PATH" RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true RUSTC_WRAPPER=
w=$(mktemp -d /tmp/demo.XXXXXX) || exit 3
trap 'rm -rf "$w"' EXIT
mkdir "$w/src" && cp "$here/main.rs" "$w/src/main.rs" && cp "$repo/Cargo.lock" "$w/Cargo.lock"
printf '[package]\\nname = "demo"\\nversion = "0.1.0"\\nedition = "2021"\\n[dependencies]\\nprocedural_modelling = { path = "%s" }\\n[workspace]\\n' "$repo" > "$w/Cargo.toml"
cd "$w" || exit 3
export CARGO_TARGET_DIR="$w/target"
cargo build --offline -q 2>"$w/log" || { cat "$w/log"; exit 4; }
exec 2>&1
timeout 100 "$w/target/debug/demo"
'''
def main():
    s = runpy.run_path(sys.argv[1])
    sr = "/tmp/sr"
    if not os.path.isdir(sr):
        subprocess.check_call(["git", "clone", "-q", "/repo", sr]); subprocess.call(["cp", "/repo/Cargo.lock", sr])
    subprocess.check_call("cd /tmp/sr && git fetch -q && git reset -q --hard origin/HEAD", shell=True)
    for f, a, b in s["edits"]:
        t = open(f"{sr}/{f}").read()
        assert t.count(a) == 1, (f, t.count(a), a)
        open(f"{sr}/{f}", "w").write(t.replace(a, b))
    d = f"/verif/seeded/{s['id']}"
    os.makedirs(d, exist_ok=True)
    p = subprocess.check_output(["git", "-C", sr, "diff"], text=True)
    open(f"{d}/patch.diff", "w").write(p)
    subprocess.check_call(["git", "-C", sr, "checkout", "-q", "--", "."])
    open(f"{d}/demo.sh", "w").write(DEMO); os.chmod(f"{d}/demo.sh", 0o755)
    open(f"{d}/main.rs", "w").write(s["main"].lstrip())
    json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(f"{d}/meta.json", "w"), indent=1)
main()
