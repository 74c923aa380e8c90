#!/usr/bin/env python3
"""seed.py new ID PROP NEEDS BREAKS  < python edit spec   — not used by checks.
Takes a scratch copy of /repo at /tmp/seed/repo, applies edits (stdin: blocks FILE\n<<<<\nold\n====\nnew\n>>>>), builds, runs stable tests, runs demo on both."""
import json, pathlib, re, subprocess, sys, shutil, os
V = pathlib.Path("/verif"); S = pathlib.Path("/tmp/seed/repo")
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def fresh():
    if not S.exists():
        S.parent.mkdir(parents=True, exist_ok=True); sh("cp -a /repo /tmp/seed/repo")
    sh("git checkout -q -f -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD", cwd=S)
DEMO = '''#!/bin/bash
# run in /repo (after the build); exit 0 = property holds for this scenario
set -u
here="$(cd "$(dirname "$0")" && pwd)"; repo="$PWD"
t="$(mktemp -d)"; trap 'rm -rf "$t"' EXIT
mkdir "$t/src"; cp "$here/main.rs" "$t/src/main.rs"; cp "$repo/Cargo.lock" "$t/Cargo.lock" 2>/dev/null
cat > "$t/Cargo.toml" <<EOT
[package]
name = "demo"
version = "0.1.0"
edition = "2024"
[dependencies]
rlibphonenumber = { path = "$repo" }
[workspace]
EOT
cd "$t" && CARGO_TARGET_DIR="$t/target" cargo build --offline --quiet || exit 3
timeout 120 "$t/target/debug/demo"
'''
def main():
    sid, prop, needs, breaks = sys.argv[1:5]
    txt = sys.stdin.read()
    edits, main_rs = txt.split("@@MAIN\n")
    d = V / "seeded" / sid
    fresh()
    for m in re.finditer(r"(\S+)\n<<<<\n(.*?)\n====\n(.*?)\n?>>>>", edits, re.S):
        f = S / m.group(1); s = f.read_text()
        if s.count(m.group(2)) != 1: print("edit matches", s.count(m.group(2))); return
        f.write_text(s.replace(m.group(2), m.group(3)))
    d.mkdir(parents=True, exist_ok=True)
    (d / "patch.diff").write_text(sh("git diff", cwd=S).stdout)
    pre = '''use rlibphonenumber::*;
#[allow(unused_macros)] macro_rules! chk { ($a:expr, $b:expr) => { let (a, b) = (&$a, &$b); if a != b { eprintln!("{}: got {:?}, expected {:?}", stringify!($a), a, b); std::process::exit(1); } } }
#[allow(dead_code)] fn num(cc: i32, n: u64) -> PhoneNumber { let mut p = PhoneNumber::new(); p.set_country_code(cc); p.set_national_number(n); p }
#[allow(dead_code)] fn u() -> &'static PhoneNumberUtil { &PHONE_NUMBER_UTIL }
'''
    (d / "main.rs").write_text(pre + main_rs)
    (d / "demo.sh").write_text(DEMO)
    (d / "meta.json").write_text(json.dumps({"property": prop, "needs": needs, "what_it_breaks": breaks}, indent=1) + "\n")
    # tests
    t = sh("cargo nextest run --workspace --lib --bins --tests --offline --no-fail-fast --no-tests=pass 2>&1 | tail -40", cwd=S)
    failed = set(re.findall(r"FAIL \[[^\]]*\] +(?:\([^)]*\) )?(\S+ \S+)", t.stdout))
    summ = [l for l in t.stdout.splitlines() if "Summary" in l or "error" in l][:3]
    a = sh("bash %s/demo.sh" % d, cwd=S); 
    fresh()
    b = sh("bash %s/demo.sh" % d, cwd=S)
    print(sid, "tests:", summ, failed, "| demo patched rc", a.returncode, a.stderr.strip()[-90:], "| clean rc", b.returncode, b.stderr.strip()[-90:])
    print("OK" if a.returncode == 1 and b.returncode == 0 and not failed else "NOT OK")
main()
