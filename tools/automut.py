#!/usr/bin/env python3
"""automut.py SLOT NSLOTS COUNT SEED OUT: systematic mutants of /repo's sources (run on a private copy): compile, stable tests, then the
verifier on the mutated function and on all functions. Prints what the proof says of each mutant the tests do not notice. Not used by checks."""
import re, subprocess, sys, random, json, os
SLOT, N, COUNT, SEED, OUT = int(sys.argv[1]), int(sys.argv[2]), int(sys.argv[3]), int(sys.argv[4]), sys.argv[5]
U = "/repo/src/phonenumberutil/"
FILES = [U + "phonenumberutil_internal.rs", U + "helper_functions.rs", U + "phonenumberutil.rs", U + "phone_number_regexps_and_mappings.rs", "/repo/src/regex_util.rs", "/repo/src/regex_based_matcher.rs", "/repo/src/regexp_cache.rs", "/repo/src/string_util.rs", U + "helper_constants.rs"]
TY = ["FixedLine", "Mobile", "FixedLineOrMobile", "TollFree", "PremiumRate", "SharedCost", "VoIP", "PersonalNumber", "Pager", "UAN", "VoiceMail", "Unknown"]
VR = ["IsPossible", "IsPossibleLocalOnly", "TooShort", "TooLong", "InvalidLength", "InvalidCountryCode"]
def sh(c, t=900):
    try: p = subprocess.run(c, shell=True, capture_output=True, text=True, timeout=t); return p.returncode, p.stdout + p.stderr
    except subprocess.TimeoutExpired: return 124, "TIMEOUT"
def muts(line):
    out = []
    def rep(rx, f):
        for m in re.finditer(rx, line):
            v = f(m)
            for r in (v if isinstance(v, list) else [v]):
                if r != m.group(0): out.append(line[:m.start()] + r + line[m.end():])
    rep(r" == ", lambda m: " != "); rep(r" != ", lambda m: " == "); rep(r" && ", lambda m: " || "); rep(r" \|\| ", lambda m: " && ")
    rep(r" < ", lambda m: [" <= ", " > "]); rep(r" > ", lambda m: [" >= ", " < "]); rep(r" <= ", lambda m: " < "); rep(r" >= ", lambda m: " > ")
    rep(r" \+ ", lambda m: " - "); rep(r" - ", lambda m: " + ")
    rep(r"\btrue\b", lambda m: "false"); rep(r"\bfalse\b", lambda m: "true")
    rep(r"(?<![\w.\"'])\d+(?![\w\"'.])", lambda m: [str(int(m.group(0)) + 1), str(max(0, int(m.group(0)) - 1))])
    rep(r"!(?=[a-z(])(?<![a-z]!)", lambda m: ""); rep(r"\.is_some\(\)", lambda m: ".is_none()"); rep(r"\.is_none\(\)", lambda m: ".is_some()"); rep(r"\.is_ok\(\)", lambda m: ".is_err()"); rep(r"\.is_err\(\)", lambda m: ".is_ok()")
    rep(r"(?<=if )(?=[a-z][\w.]*\.(is_empty|starts_with|contains|ends_with)\()", lambda m: "!")
    rep(r"(?<=PhoneNumberType::)\w+", lambda m: random.sample(TY, 2)); rep(r"(?:(?<=lidationResult::)|(?<=lidationError::))\w+", lambda m: random.sample(VR, 2))
    rep(r"(?<=PhoneNumberFormat::)\w+", lambda m: random.sample(["E164", "International", "National", "RFC3966"], 1)); rep(r"(?<=MatchType::)\w+", lambda m: random.sample(["NoMatch", "ShortNsnMatch", "NsnMatch", "ExactMatch"], 1))
    rep(r"\bfind_start\b|\bfull_match\b|\bfind\b", lambda m: {"find_start": ["find", "full_match"], "full_match": ["find_start"], "find": ["rfind"]}[m.group(0)])
    rep(r"\bstarts_with\b", lambda m: ["contains", "ends_with"]); rep(r"\bbreak;", lambda m: "continue;"); rep(r"\bcontinue;", lambda m: "break;")
    rep(r"\.national_prefix\(\)|\.leading_digits\(\)|\.mobile\.|\.fixed_line\.|\.general_desc\.|\.raw_input\(\)|\.extension\(\)", lambda m: {".national_prefix()": [".leading_digits()"], ".leading_digits()": [".national_prefix()"], ".mobile.": [".fixed_line."], ".fixed_line.": [".mobile."], ".general_desc.": [".fixed_line."], ".raw_input()": [".extension()"], ".extension()": [".raw_input()"]}[m.group(0)])
    st = line.strip()
    if st.endswith(";") and re.match(r"[a-z_][\w.]*\(|self\.|[a-z_]\w*(\.\w+)* [-+]?= ", st) and not st.startswith(("let ", "use ", "pub ")): out.append("")
    return out
random.seed(SEED); allm = []
for f in FILES:
    L = open(f).read().split("\n"); fn = None; const = "constants" in f
    for i, l in enumerate(L):
        m = re.match(r"\s*(?:pub(?:\([a-z ]+\))? )?(?:const )?fn (\w+)", l)
        if m: fn = m.group(1); continue
        s = l.strip()
        if s.startswith(("//", "#[", "use ", "mod ", "trace!", "debug!", "warn!", "error!", "error!(")) or (fn is None and not const) or "&'static" in l and not const: continue
        for r in muts(l): allm.append((f, i, fn or "?", l, r))
random.shuffle(allm)
print(len(allm), "mutants", flush=True)
def verus(targets, tag):
    p = "/tmp/w/am/p%d" % SLOT
    rc, o = sh("/verif/target/extract/release/extract --contracts /verif/contracts --targets '%s' --lemmas '' --out %s.rs --meta %s.json" % (targets, p, p))
    if rc: return "undecided(extract) " + o[-150:].replace("\n", " ")
    j = json.load(open(p + ".json")); er = [(x["fn"], x.get("errors"), x["status"]) for x in j["fns"] if x.get("errors") or x["status"] == "missing"]
    if j["parse_errors"] or j["unknown_targets"]: return "undecided(contract) " + str(j["parse_errors"])[:100]
    rc, o = sh("cd /tmp/w/am && verus p%d.rs --triggers-mode silent --num-threads 3 2>&1" % SLOT, 400)
    es = re.findall(r"^error(?:\[\w+\])?: (.*)$", o, re.M); r = re.search(r"(\d+) verified, (\d+) errors", o)
    if not r: return "undecided(compile) " + "; ".join(es[:2])[:200]
    if er: return "undecided(lost) " + str(er)[:150]
    if int(r.group(2)) == 0: return "proved"
    if all("rlimit" in e or "Resource" in e or "aborting" in e for e in es): return "undecided(rlimit)"
    return "FAILED " + "; ".join(sorted(set(es)))[:120]
_, o = sh("/verif/target/extract/release/extract --contracts /verif/contracts --targets all --lemmas '' --out /tmp/w/am/k%d.rs --meta /tmp/w/am/k%d.json" % (SLOT, SLOT))
keys = [x["fn"] for x in json.load(open("/tmp/w/am/k%d.json" % SLOT))["fns"]]
out = open(OUT, "a")
done = 0
for k, (f, i, fn, l, r) in enumerate(allm):
    if k % N != SLOT: continue
    if done >= COUNT: break
    done += 1
    src = open(f).read(); L = src.split("\n"); L[i] = r
    try:
        open(f, "w").write("\n".join(L))
        rc, o = sh("cd /repo && timeout 300 cargo nextest run --workspace --lib --bins --tests --offline --no-tests=pass 2>&1 | grep -E '^error|FAIL|Summary|TIMEOUT' | head -4", 320)
        if rc or "error" in o: res = "nocompile"
        elif "FAIL" in o or "Summary" not in o: res = "tests"
        else:
            ks = [x for x in keys if x.split("::")[-1] == fn]
            res = verus(",".join(ks), "f") if ks else "nofn"
            if not res.startswith("FAILED"): res = res + " | all: " + verus("all", "a")
    finally: open(f, "w").write(src)
    if res not in ("nocompile", "tests"): out.write("%s:%d %s\n  - %s\n  + %s\n  => %s\n" % (f.split("/")[-1], i + 1, fn, l.strip(), r.strip(), res)); out.flush()
    else: out.write("# %s %s:%d\n" % (res, f.split("/")[-1], i + 1)); out.flush()
