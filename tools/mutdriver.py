#!/usr/bin/env python3
"""mutdriver.py OUT RES SECS FROM STEP: for mutants the proof rejects (automut.py output), does the driver of a property of that function find a failing input? Run on a private copy; not used by checks."""
import re, subprocess, sys, json, glob, os
OUT, RES, SECS, A, B = sys.argv[1], sys.argv[2], int(sys.argv[3]), int(sys.argv[4]), int(sys.argv[5])
F = {os.path.basename(f): f for f in glob.glob("/repo/src/**/*.rs", recursive=True)}
ck = json.load(open("/verif/checks/checks.json")); ck = ck.get("properties", ck)
t = "".join(open(f).read() for f in sorted(glob.glob(OUT)))
ms = re.findall(r"^([\w.]+):(\d+) (\S+)\n  - (.*)\n  \+ (.*)\n  => (.*)$", t, re.M)
ms = sorted(set(m for m in ms if "FAILED" in m[5]))
def sh(c, t=600):
    try: p = subprocess.run(c, shell=True, capture_output=True, text=True, timeout=t); return p.returncode, p.stdout + p.stderr
    except subprocess.TimeoutExpired: return 124, "TIMEOUT"
done = open(RES).read() if os.path.exists(RES) else ""
out = open(RES, "a")
for k, (f, ln, fn, a, b, r) in enumerate(ms):
    if k % B != A: continue
    key = "%s:%s %s | %s => %s" % (f, ln, fn, a[:90], b[:90])
    if key in done: continue
    src = open(F[f]).read(); L = src.split("\n"); i = int(ln) - 1
    if L[i].strip() != a.strip(): out.write(key + " :: stale\n"); continue
    L[i] = b
    props = [p for p, c in sorted(ck.items()) if any(x.split("::")[-1] == fn for x in c["targets"])]
    try:
        open(F[f], "w").write("\n".join(L))
        rc, o = sh("cd /verif/driver && RUSTFLAGS='--cfg verif_hooks --cfg verif_pats' VERIF_HOOKS_RS=/verif/driver/hooks.rs CARGO_TARGET_DIR=/verif/target/driver cargo build --offline --quiet 2>&1 | grep -m1 ^error")
        hit, miss = [], []
        for p in props:
            rc, o = sh("/verif/target/driver/debug/driver %s --secs %d --seed 1" % (p, SECS), 120)
            (hit if '"failure":null' not in o else miss).append(p)
            if hit and len(hit) >= 1 and len(props) > 6 and len(hit) + len(miss) >= 6: break
        out.write("%s :: hit %s miss %s\n" % (key, ",".join(hit), ",".join(miss)))
    finally: open(F[f], "w").write(src); out.flush()
