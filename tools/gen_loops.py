#!/usr/bin/env python3
"""Writes contracts/loops.json: the loop headers the invariants in contracts/*.spec were written for (run on the unchanged tree)."""
import json, pathlib, subprocess
V = pathlib.Path(__file__).resolve().parent.parent
subprocess.run([str(V / "target/extract/release/extract"), "--repo", "/repo", "--contracts", str(V / "contracts"), "--targets", "all", "--lemmas", "", "--out", "/tmp/loops.rs", "--meta", "/tmp/loops.json"], check=True)
m = json.load(open("/tmp/loops.json"))
(V / "contracts/loops.json").write_text(json.dumps({f["fn"]: f["heads"] for f in m["fns"] if f.get("heads")}, indent=1) + "\n")
