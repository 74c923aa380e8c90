#!/usr/bin/env python3
"""mutate.py LIST OUT [ids]: apply each mutation of LIST to /repo, run the stable tests and the property's check, undo. Not used by checks."""
import re, subprocess, sys, json, os
R = "/repo/src/phonenumberutil/"
F = {"I": R + "phonenumberutil_internal.rs", "H": R + "helper_functions.rs", "R": R + "phone_number_regexps_and_mappings.rs", "P": R + "phonenumberutil.rs", "C": R + "helper_constants.rs", "X": "/repo/src/regex_util.rs", "M": "/repo/src/regex_based_matcher.rs", "K": "/repo/src/regexp_cache.rs", "S": "/repo/src/string_util.rs", "Z": "/repo/src/region_code.rs"}
def sh(c, t=900):
    try: p = subprocess.run(c, shell=True, capture_output=True, text=True, timeout=t); return p.returncode, p.stdout + p.stderr
    except subprocess.TimeoutExpired: return 124, "TIMEOUT"
only = sys.argv[3:]
for m in re.finditer(r"@@ (\w+) (\S+) (\w)( benign)?\n(.*?)\n==\n(.*?)(?=\n@@ |\Z)", open(sys.argv[1]).read().rstrip(), re.S):
    i, props, f, benign, a, b = m.groups()
    if only and i not in only: continue
    s = open(F[f]).read()
    if s.count(a) != 1: print(i, "OLD MATCHES", s.count(a), flush=True); continue
    try:
        open(F[f], "w").write(s.replace(a, b))
        rc, o = sh("cd /repo && cargo nextest run --workspace --lib --bins --tests --offline --no-fail-fast --no-tests=pass 2>&1 | grep -E '^error|FAIL|Summary' | head -4")
        comp = [l for l in o.splitlines() if l.startswith("error")]
        fails = sorted(set(re.findall(r"FAIL.*?(\S+)$", o, re.M)))
        res = []
        for p in props.split(","):
            rc, o = sh("python3 /verif/checks/check.py " + p)
            v = [l for l in o.splitlines() if l.startswith("VIOLATION")]
            inp = ""
            if v and "no-failing" not in v[0]:
                try: inp = json.dumps(json.load(open(re.search(r"replay=(\S+)", v[0]).group(1)))["failure"], ensure_ascii=False)[:400]
                except Exception as e: inp = str(e)
            st = re.search(r"proof (\w+)(.{0,260})", o)
            fo = [l.strip()[:110] for l in o.splitlines() if "failed obligation" in l][:3]
            res.append("%s rc=%d %s | proof %s %s %s" % (p, rc, "nofail-input" if v and "no-failing" in v[0] else ("INPUT" if v else "-"), st and st.group(1), "" if st and st.group(1) in ("proved", "failed") else (st and st.group(2)), fo) + (" <<" + inp + ">>" if inp else ""))
    finally:
        open(F[f], "w").write(s)
    print(i, "benign" if benign else "", "COMPILE" + str(comp[:1]) if comp else ("tests FAIL %s" % fails[:2] if fails else "tests ok"), "||", " ;; ".join(res), flush=True)
