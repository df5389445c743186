#!/usr/bin/env python3
"""Developer aid: mkseeds.py FILE   FILE calls seed(name, prop, needs, breaks, edits, files).
edits: [(path, old, new)] made in the clone /tmp/sw; files: demo inputs (bad*.alethe/.smt2, good*...)."""
import os, subprocess, sys, json, shutil
SW = "/tmp/sw"
DEMO = r'''#!/bin/bash
# Every bad*.alethe must be rejected and every good*.alethe accepted, holey*.alethe reported holey; the problem lies beside it.
d=$(cd "$(dirname "$0")" && pwd)
r=0
for f in "$d"/good*.alethe "$d"/bad*.alethe "$d"/holey*.alethe; do
  [ -f "$f" ] || continue
  p="${f%.alethe}.smt2"
  o=""; [ -f "${f%.alethe}.opts" ] && o=$(cat "${f%.alethe}.opts")
  [ -f "${f%.alethe}.rare" ] && o="$o --rare-file ${f%.alethe}.rare"
  out=$(timeout 60 ./target/debug/carcara check $o "$f" "$p" 2>/dev/null | tail -1)
  case "$(basename "$f")" in
    good*) case "$out" in valid|holey) ;; *) echo "$f: $out"; r=1;; esac ;;
    holey*) [ "$out" = holey ] || { echo "$f: $out"; r=1; } ;;
    bad*) [ "$out" = invalid ] || { echo "$f: $out"; r=1; } ;;
  esac
done
exit $r
'''
def sh(*a): return subprocess.run(a, check=True, capture_output=True, text=True).stdout
if not os.path.isdir(SW): sh("git", "clone", "-q", "/repo", SW)
sh("git", "-C", SW, "fetch", "-q", "/repo", "HEAD"); sh("git", "-C", SW, "checkout", "-q", "-f", "FETCH_HEAD")
def seed(name, prop, needs, breaks, edits, files, demo=DEMO):
    only = sys.argv[2:]
    if only and name not in only: return
    d = f"/verif/seeded/{name}"; os.makedirs(d, exist_ok=True)
    for p, o, n in edits:
        t = open(f"{SW}/{p}").read()
        assert t.count(o) == 1, (name, p, t.count(o))
        open(f"{SW}/{p}", "w").write(t.replace(o, n))
    open(d + "/patch.diff", "w").write(sh("git", "-C", SW, "diff"))
    sh("git", "-C", SW, "checkout", "-q", "--", ".")
    open(d + "/demo.sh", "w").write(demo); os.chmod(d + "/demo.sh", 0o755)
    for k, v in files.items(): open(f"{d}/{k}", "w").write(v)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    print("seed", name)
exec(open(sys.argv[1]).read())
