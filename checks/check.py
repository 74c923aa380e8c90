#!/usr/bin/env python3
"""check.py PROPERTY — decide one property on /repo's current tree.
1. build the extractor; extract the functions of the property from /repo's sources, mechanically, together with their contracts
2. Verus proves every generated obligation (contracts of the property's functions, its lemmas); canary lemmas must NOT be provable
3. the driver runs the real code against an independent reference (replay search, and a test of the trusted part)
4. write evidence; exit 0, or exit 1 with a VIOLATION line"""
import json, os, re, subprocess, sys, threading, time, pathlib
V = pathlib.Path(__file__).resolve().parent.parent
REPO = pathlib.Path(os.environ.get("VERIF_REPO", "/repo"))
T0 = time.time()

def sh(cmd, cwd=None, env=None, timeout=None):
    e = dict(os.environ); e.update(env or {})
    try:
        p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
        return p.returncode, p.stdout.decode("utf8", "replace"), p.stderr.decode("utf8", "replace")
    except subprocess.TimeoutExpired as x:
        return 124, (x.stdout or b"").decode("utf8", "replace"), (x.stderr or b"").decode("utf8", "replace") + "\nTIMEOUT"

def build_driver(out):
    d = V / "driver"
    hooks = {"RUSTFLAGS": "--cfg verif_hooks --cfg verif_pats", "VERIF_HOOKS_RS": str(d / "hooks.rs"), "CARGO_TARGET_DIR": str(V / "target/driver")}
    rc, _, err = sh(["cargo", "build", "--offline", "--quiet"], d, hooks, 600)
    if rc == 0: out.update(bin=str(V / "target/driver/debug/driver"), hooks=True); out["meta"] = run_meta(out["bin"]); return
    hooks.update(RUSTFLAGS="--cfg verif_hooks", CARGO_TARGET_DIR=str(V / "target/driver-hooks"))   # the fields the pattern hooks read may have moved
    rc, _, err = sh(["cargo", "build", "--offline", "--quiet"], d, hooks, 300)
    if rc == 0: out.update(bin=str(V / "target/driver-hooks/debug/driver"), hooks=True); out["meta"] = run_meta(out["bin"]); return
    out["note"] = "hooked build failed, public API only: " + first_err(err)
    rc, _, err = sh(["cargo", "build", "--offline", "--quiet"], d, {"CARGO_TARGET_DIR": str(V / "target/driver-pub"), "RUSTFLAGS": ""}, 600)
    if rc == 0: out.update(bin=str(V / "target/driver-pub/debug/driver"), hooks=False); out["meta"] = run_meta(out["bin"])
    else: out["error"] = "driver does not build: " + first_err(err)

def run_meta(binp):
    """the facts the proofs assume about the bundled metadata, checked on every entry"""
    rc, out, err = sh([binp, "META"], V, None, 200)
    try: return json.loads(out.strip().splitlines()[-1])
    except (ValueError, IndexError): return {"facts": 0, "violated": ["META did not run: " + (err or out)[-200:]]}

def first_err(s):
    for l in s.splitlines():
        if l.startswith("error"): return l[:300]
    return s.strip()[:300]

def run_driver(binp, prop, secs, seed):
    rc, out, err = sh([binp, prop, "--secs", str(secs), "--seed", str(seed)], V, None, secs * 6 + 240)
    for l in reversed(out.splitlines()):
        if l.startswith("{"):
            try: return rc, json.loads(l)
            except ValueError: pass
    return rc, {"driver_error": (err or out)[-400:], "failure": None, "cases": 0}

PROOF_FN = re.compile(r"\bproof fn (\w+)|\baxiom fn (\w+)")
def classify(diag, meta, lines, canary0):
    """-> list of failed obligations {fn,msg,clause,kind}; kind proof|limit|compile"""
    res = []
    for d in diag:
        if d.get("level") != "error": continue
        msg = d["message"]
        if msg.startswith("aborting due to"): continue
        spans = d.get("spans", [])
        prim = [s for s in spans if s.get("is_primary")] or spans
        low = msg.lower()
        if "rlimit" in low or "resource limit" in low: kind = "limit"
        elif any(k in low for k in ("postcondition not satisfied", "precondition not satisfied", "assertion failed", "invariant not satisfied", "overflow", "underflow", "decreases not satisfied", "division by zero",
                 "termination", "loop ensures", "possible", "assert_by", "assertion failure", "recommendation not met")): kind = "proof"
        else: kind = "compile"
        fn = None
        # the function whose body contains the error: prefer a span inside an extracted function
        for s in prim + spans:
            for f in meta["fns"]:
                if f.get("line0") and f["line0"] <= s["line_start"] <= f["line1"]: fn = f["fn"]; break
            if fn: break
        if "postcondition" in low:
            for s in spans:
                if "end of the function body" in (s.get("label") or "") or "at this exit" in (s.get("label") or ""):
                    for f in meta["fns"]:
                        if f.get("line0") and f["line0"] <= s["line_start"] <= f["line1"]: fn = f["fn"]
        ln = prim[0]["line_start"] if prim else 0
        lemma = None
        if fn is None:
            for i in range(min(ln, len(lines)) - 1, -1, -1):
                m = re.search(r"\bfn (\w+)", lines[i])
                if m: lemma = m.group(1); break
        if "precondition" in low and fn:  # callee side
            pass
        clause = ""
        for s in spans:
            if "fail" in (s.get("label") or "") or not clause:
                t = s.get("text") or []
                if t: clause = t[0]["text"][t[0]["highlight_start"] - 1: t[0]["highlight_end"] - 1 if len(t) == 1 else None].strip()[:240]
        res.append({"fn": fn or lemma or "?", "in_code": fn is not None, "msg": msg[:300], "clause": clause, "line": ln, "kind": kind, "rendered": d.get("rendered", "")[:3000]})
    return res

def verus(rs, tag, rlimit=None, limit=420, seed=0):
    cmd = ["verus", str(rs), "--triggers-mode", "silent", "--num-threads", "8", "--output-json", "--time-expanded", "--error-format=json"]
    if rlimit: cmd += ["--rlimit", str(rlimit)]
    if seed: cmd += ["--smt-option", "smt.random_seed=%d" % seed]
    t = time.time()
    rc, out, err = sh(cmd, rs.parent, None, limit)
    j = None
    i = out.find("{")
    if i >= 0:
        try: j = json.loads(out[i:])
        except ValueError: pass
    diag = []
    for l in err.splitlines():
        if l.startswith("{"):
            try: diag.append(json.loads(l))
            except ValueError: pass
    return rc, j, diag, err, time.time() - t, " ".join(cmd)

def prove(cfg, tier, work, found=lambda: False):
    """returns dict: status proved|failed|undecided, failed[], meta, stats"""
    rc, _, err = sh(["cargo", "build", "--offline", "--release", "--quiet"], V / "extract", {"CARGO_TARGET_DIR": str(V / "target/extract"), "RUSTFLAGS": ""}, 600)
    if rc: return {"status": "undecided", "why": "extractor does not build: " + first_err(err)}
    ext = str(V / "target/extract/release/extract")
    targets = cfg["targets"] if tier == "quick" or cfg.get("no_all") else cfg["targets"] + cfg.get("closure", [])
    excluded = []; notes = []; nohints = []
    for attempt in range(6):
        rs, mj = work / "proof.rs", work / "meta.json"
        tg = [t for t in targets if t not in excluded]
        cmd = [ext, "--repo", str(REPO), "--contracts", str(V / "contracts"), "--targets", ",".join(tg) or "none", "--lemmas", ",".join(cfg.get("lemmas", []) + ["99_canary"]), "--nohints", ",".join(nohints), "--out", str(rs), "--meta", str(mj)]
        rc, out, err = sh(cmd, V, None, 120)
        if rc: return {"status": "undecided", "why": "extraction failed: " + (err or out).strip()[-300:]}
        meta = json.loads(mj.read_text())
        if meta["parse_errors"]: return {"status": "undecided", "why": "source not parsed: %s" % meta["parse_errors"]}
        for f in meta["fns"]:
            if f["fn"] in tg and f["status"] != "verify":
                notes.append("%s: %s %s" % (f["fn"], f["status"], "; ".join(f.get("errors") or [])[:200])); excluded.append(f["fn"])
        for u in meta["unknown_targets"]:
            if u not in excluded: notes.append("%s: not found in the source" % u); excluded.append(u)
        if time.time() - T0 > 450: return {"status": "undecided", "why": "out of time; " + "; ".join(notes)[:1400], "meta": meta}
        rc, j, diag, err, secs, vcmd = verus(rs, "q", None, 420 if attempt == 0 else 250)
        if j is None: return {"status": "undecided", "why": "verus gave no result: " + err[-300:]}
        lines = rs.read_text().splitlines()
        fails = classify(diag, meta, lines, None)
        comp = [f for f in fails if f["kind"] == "compile"]
        vr = j.get("verification-results", {})
        if comp or "verified" not in vr or vr.get("encountered-vir-error"):
            bad = sorted({f["fn"] for f in comp if f["in_code"]} - set(excluded))
            bad = [b for b in bad if b in tg] or [b for b in bad]
            notes.append("not accepted by the verifier: " + "; ".join("%s: %s" % (f["fn"], f["msg"][:160]) for f in comp)[:600])
            new = [b for b in bad if b in tg]
            # a proof hint may name a local variable the changed code no longer has: try once without the hints
            again = [b for b in new if b not in nohints]
            if again: nohints += again; continue
            if not new: return {"status": "undecided", "why": "; ".join(notes)[:1500], "meta": meta}
            excluded += new; continue
        break
    else:
        return {"status": "undecided", "why": "; ".join(notes)[:1500], "meta": meta}
    # a failure in a function whose proof hints no longer fit its text is not evidence against the code
    heads = json.loads((V / "contracts/loops.json").read_text())
    for f in meta["fns"]:
        if f["target"] and f.get("heads", []) != heads.get(f["fn"], []): f["soft"] = (f.get("soft") or []) + ["its loops are not the ones the invariants were written for"]
    softfns = {f["fn"] for f in meta["fns"] if f.get("soft") and f["target"]}
    canaries = set(re.findall(r"proof fn (canary_\w+)", rs.read_text()))
    cf = {f["fn"] for f in fails if f["fn"] in canaries}
    # an obligation the solver gives up on is tried again with more resources and other solver seeds: a function proved in any run is proved
    # (the runs are about the same text, and a canary proved in any of them makes the check broken)
    for seed in (0, 1, 2):
        open_ = {f["fn"] for f in fails if f["fn"] not in canaries}
        if not open_ or (seed and open_ <= softfns) or time.time() - T0 > (250 if seed == 0 else 180) or (seed == 0 and found()): break
        rc2, j2, diag2, err2, s2, vcmd2 = verus(rs, "r", 60, 300, seed); secs += s2
        if not j2 or "verified" not in j2.get("verification-results", {}): break
        f2 = classify(diag2, meta, lines, None)
        cf &= {f["fn"] for f in f2 if f["fn"] in canaries}
        still = {f["fn"] for f in f2 if f["fn"] not in canaries}
        left = open_ & still
        f2k = {f["fn"] for f in f2 if f["kind"] == "proof"}
        # keep a definite refusal rather than a resource limit where one of the runs gave one
        fails = [f for f in fails if f["fn"] in left and (f["kind"] == "proof" or f["fn"] not in f2k)] + [f for f in f2 if f["fn"] in left and f["kind"] == "proof" and not [g for g in fails if g["fn"] == f["fn"] and g["kind"] == "proof"]]
        if not left and not still: j, vr, vcmd = j2, j2["verification-results"], vcmd2
        if open_ == left and seed: break
    real = [f for f in fails if f["fn"] not in canaries]
    fb = []
    lost = [f for f in real if f["fn"] in softfns]
    if lost:
        real = [f for f in real if f["fn"] not in softfns]
        for n in sorted({f["fn"] for f in lost}): notes.append("%s: proof hints no longer fit (%s), not re-proved" % (n, "; ".join(next(f["soft"] for f in meta["fns"] if f["fn"] == n))[:120])); excluded.append(n)
    for mm in j.get("times-ms", {}).get("smt", {}).get("smt-run-module-times", []): fb += mm.get("function-breakdown", [])
    r = {"meta": meta, "failed": real, "notes": notes, "excluded": excluded, "verus_s": secs, "cmd": vcmd, "canaries": len(canaries), "canaries_refused": len(cf),
         "verified": vr["verified"] + vr["errors"] - len(canaries) - len({f["fn"] for f in fails if f["fn"] not in canaries}), "errors": len(canaries) + len({f["fn"] for f in fails if f["fn"] not in canaries}), "fb": fb, "targets": targets, "rs": rs}
    if len(cf) != len(canaries) or not canaries: r.update(status="broken", why="a canary lemma (false) was proved: %s" % sorted(canaries - cf))
    elif [f for f in real if f["kind"] == "proof"]: r["status"] = "failed"
    elif real: r.update(status="undecided", why="solver limit: " + ", ".join(sorted({f["fn"] for f in real})))
    elif excluded: r.update(status="undecided", why="; ".join(notes)[:1500])
    else: r["status"] = "proved"
    return r

def trusted(rs):
    t = rs.read_text()
    ax = re.findall(r"axiom fn (\w+)", t)
    asm = re.findall(r"assume_specification[^\[]*\[\s*([^\]]+)\]", t)
    ext = re.findall(r"external_body\][^{;]*?\bfn (\w+)", t)
    un = re.findall(r"uninterp spec fn (\w+)", t)
    raw = len(re.findall(r"\bassume\(", t)) + len(re.findall(r"\badmit\(", t))
    return ax, asm, sorted(set(ext)), un, raw

def known_findings():
    out = []
    p = V / "known_findings.json"
    if p.exists(): out = json.loads(p.read_text()).get("findings", [])
    return out

def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv: tier = sys.argv[sys.argv.index("--tier") + 1]
    if tier not in ("quick", "thorough"): tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    cfg = json.loads((V / "checks/checks.json").read_text())[prop]
    work = V / "work" / prop; work.mkdir(parents=True, exist_ok=True)
    (V / "evidence").mkdir(exist_ok=True)
    drv = {}
    th = threading.Thread(target=build_driver, args=(drv,)); th.start()
    early = {}
    def found():
        th.join()
        if "bin" in drv: early["rc"], early["res"] = run_driver(drv["bin"], prop, 25, seed)
        return bool(early.get("res", {}).get("failure"))
    pr = prove(cfg, tier, work, found) if cfg.get("targets") or cfg.get("lemmas") else {"status": "undecided", "why": "no obligations"}
    th.join()
    mt = drv.get("meta")
    if mt and mt["violated"] and pr["status"] == "proved": pr.update(status="undecided", why="assumed facts about the bundled metadata do not hold: " + "; ".join(mt["violated"])[:400])
    secs = cfg.get("secs", 4) if tier == "quick" else cfg.get("thorough_secs", 120)
    if pr["status"] in ("failed", "undecided"): secs = max(secs, 25)
    res = {"driver_error": drv.get("error"), "failure": None, "cases": 0}
    if early: rc, res = early["rc"], early["res"]
    elif "bin" in drv: rc, res = run_driver(drv["bin"], prop, secs, seed)
    fail = res.get("failure")
    if fail is None and pr["status"] == "failed" and "bin" in drv:
        rc, res2 = run_driver(drv["bin"], prop, 60, seed + 1000); res2["cases"] = res2.get("cases", 0) + res.get("cases", 0); res = res2; fail = res.get("failure")
    # known findings
    kf = [k for k in known_findings() if k.get("property") == prop]
    for k in kf: print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    meta = pr.get("meta") or {"fns": []}
    under = [f for f in meta["fns"] if f["status"] == "verify"]
    cov = {}
    if pr.get("rs"):
        ax, asm, ext, un, raw = trusted(pr["rs"])
        assumed = sorted({f["fn"] for f in meta["fns"] if f["status"] == "assumed"})
        n_all = pr["verified"] + pr["errors"] - pr["canaries"]
        cov = {"obligations": n_all, "discharged": pr["verified"], "checker_cmd": pr["cmd"],
               "trusted_base": ["Verus %s and Z3" % verus_version(pr), "extractor /verif/extract (syn): drops nothing it does not list; translations listed in DESIGN.md"]
                   + ["axiom " + a for a in ax] + ["assumed std/regex/protobuf operation " + e for e in ext if e not in {a.split("::")[-1] for a in assumed}] + ["uninterpreted " + u for u in un]
                   + (["%d assume/admit" % raw] if raw else []),
               "functions_under_contract": [{"fn": f["fn"], "file": f["file"], "line": f["src_line"], "contract_clauses": f["clauses"], "loops": f["loops"], "inlined_callees": f.get("inlined", [])} for f in under],
               "callees_by_contract_proved_in_other_checks": [a for a in assumed],
               "proof_lemmas": [x["function"].split("::", 1)[-1] for x in pr["fb"] if x.get("mode:") == "proof" and "canary" not in x["function"]],
               "back_end": "Verus -> Z3 (SMT), one query set per function",
               "solver_s": round(sum(x.get("time-micros", 0) for x in pr["fb"]) / 1e6, 3), "verifier_wall_s": round(pr["verus_s"], 2),
               "canary_lemmas_refused": "%d of %d" % (pr["canaries_refused"], pr["canaries"]),
               "accessor_and_struct_obligations": len([1 for x in pr["fb"] if x.get("mode:") == "exec"]) - len(under)}
    cov["evaluations"] = res.get("cases", 0)
    cov["driver"] = {"cases": res.get("cases", 0), "seconds": res.get("seconds"), "hooks": res.get("hooks"), "error": res.get("driver_error"), "note": drv.get("note"), "role": "runs the real code against an independent reference: replay search for failed obligations and a bounded test of what the proof trusts; not counted as proof"}
    cov["metadata_facts"] = {"checked_by": "driver META (every entry of the bundled metadata; product automata for the format patterns)", "facts": (mt or {}).get("facts"), "conformance_cases": (mt or {}).get("conformance_cases"), "conformance": "assumed std, dec_from_char and regex contracts compared with the real operations (bounded: all characters, all short texts over 1- to 4-byte characters); e164_plain decided exactly on automata", "violated": (mt or {}).get("violated")}
    cov["proof_status"] = pr["status"]
    if pr.get("why"): cov["proof_note"] = pr["why"]
    if pr.get("failed"): cov["failed_obligations"] = [{k: f[k] for k in ("fn", "msg", "clause", "kind")} for f in pr["failed"]]
    viol = []
    if fail is not None:
        rp = work / "replay.json"
        rp.write_text(json.dumps({"property": prop, "failure": fail, "replay_cmd": "%s %s --secs %s --seed %s" % (drv["bin"], prop, secs, seed), "failed_obligations": [{k: f[k] for k in ("fn", "msg", "clause")} for f in pr.get("failed", [])]}, indent=1, ensure_ascii=False))
        viol.append("VIOLATION property=%s replay=%s" % (prop, rp))
    elif pr["status"] == "failed":
        rp = work / "replay.txt"
        with open(rp, "w") as fh:
            for f in pr["failed"]: fh.write("FAILED OBLIGATION in %s: %s\n  %s\n%s\n" % (f["fn"], f["msg"], f["clause"], f["rendered"]))
        viol.append("VIOLATION property=%s replay=%s no-failing-input-found" % (prop, rp))
    level = "proof" if pr["status"] in ("proved", "failed") else "exploration"
    if level == "exploration":
        cov.setdefault("distinct_nontrivial", res.get("cases", 0)); cov["rule"] = "bounded stand-in: cases of the driver's stream for this property, each compared with the reference"; cov["samples"] = [res.get("sample") or "see driver/src/props.rs"]
    ev = {"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov, "assumptions": cfg.get("assumptions", []), "wall_s": round(time.time() - T0, 2), "violations": len(viol)}
    (V / "evidence" / (prop + ".json")).write_text(json.dumps(ev, indent=1, ensure_ascii=False))
    print("%s: proof %s%s; verus %ss, %s verified; driver %s cases%s; %.1fs" % (prop, pr["status"], (" (" + pr["why"][:300] + ")") if pr.get("why") else "", round(pr.get("verus_s", 0), 1), pr.get("verified"), res.get("cases"), (" DRIVER ERROR " + str(res.get("driver_error"))[:200]) if res.get("driver_error") else "", time.time() - T0))
    if pr["status"] == "failed":
        for f in pr["failed"]: print("  failed obligation: %s: %s: %s" % (f["fn"], f["msg"][:120], f["clause"][:160]))
    for v in viol: print(v)
    if viol: sys.exit(1)
    if pr["status"] == "broken": print("check error: " + pr["why"]); sys.exit(2)
    sys.exit(0)

def verus_version(pr): return "0.2026.09.13"

main()
