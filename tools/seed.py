"""Plant a bug: make patch, demo and meta under /verif/seeded, confirm them in /repo (undone straight afterwards), run the check.
usage: seed.py FILE.py  where FILE.py defines BUGS = [dict(id, prop, file, edits=[(old, new)], demo, needs, breaks)]"""
import json, os, subprocess, sys, runpy, shutil
REPO = "/repo"
BASE = "1588e2b"


def run(cmd, **kw):
    return subprocess.run(cmd, capture_output=True, text=True, errors="replace", **kw)


DEMO_SH = """#!/bin/bash
# builds and runs demo.cpp against the headers of the current directory; exit 0 when the behaviour is right
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d)
trap 'rm -r "$tmp"' EXIT
g++ -std=c++20 -O1 -g %s -I"$here" -Iinclude "$here/demo.cpp" -o "$tmp/demo" -pthread || exit 2
timeout 120 "$tmp/demo"
"""


def one(b, base_lines):
    d = f"/verif/seeded/{b['id']}"
    assert not run(["git", "-C", REPO, "status", "--porcelain", "--untracked-files=no"]).stdout.strip(), "repo not clean"
    edits = b["edits"]
    files = set()
    for e in edits:
        f, old, new = (b["file"], *e) if len(e) == 2 else e
        files.add(f)
        p = f"{REPO}/{f}"
        s = open(p).read()
        n = b.get("count", 1)
        assert s.count(old) >= 1, (b["id"], "not found", old)
        if s.count(old) != n and not b.get("first"):
            print(b["id"], "AMBIGUOUS", s.count(old)); run(["git", "-C", REPO, "checkout", "--", "."]); return
        open(p, "w").write(s.replace(old, new, 1 if b.get("first") else -1))
    diff = run(["git", "-C", REPO, "diff"]).stdout
    removed = [l[1:] for l in diff.split("\n") if l.startswith("-") and not l.startswith("---")]
    foreign = [l for l in removed if l.strip() and l not in base_lines]
    ok = True
    try:
        os.makedirs(d, exist_ok=True)
        open(f"{d}/patch.diff", "w").write(diff)
        open(f"{d}/demo.cpp", "w").write(b["demo"])
        open(f"{d}/demo.sh", "w").write(DEMO_SH % b.get("flags", ""))
        for name, text in b.get("extra", {}).items():
            os.makedirs(os.path.dirname(f"{d}/{name}") or d, exist_ok=True)
            open(f"{d}/{name}", "w").write(text)
        os.chmod(f"{d}/demo.sh", 0o755)
        json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(f"{d}/meta.json", "w"), indent=1)
        if foreign:
            print(b["id"], "touches lines of my own commits:", foreign); ok = False
        t = run(["bash", "/opt/vp/test.sh", "/tmp/seed.json"])
        r = json.load(open("/tmp/seed.json"))
        stable = json.load(open("/opt/vp/BASELINE.json"))["stable"]
        miss = [s for s in stable if s not in r["passed"]]
        if miss:
            print(b["id"], "TESTS FAIL", miss[:3], t.stderr[-300:] if len(miss) > 30 else ""); ok = False
        dm = run(["bash", f"{d}/demo.sh"], cwd=REPO)
        if dm.returncode == 0:
            print(b["id"], "DEMO DOES NOT FAIL with the patch"); ok = False
        ck = []
        for p in [b["prop"]] + b.get("also", []):
            c = run([sys.executable, "/verif/check.py", p])
            ck.append((p, c.returncode, [l for l in c.stdout.split("\n") if "VIOLATION" in l or "INCONC" in l][:1]))
    finally:
        run(["git", "-C", REPO, "checkout", "--", "."])
    dm0 = run(["bash", f"{d}/demo.sh"], cwd=REPO)
    if dm0.returncode != 0:
        print(b["id"], "DEMO FAILS on the clean tree:", dm0.stdout[-300:], dm0.stderr[-600:]); ok = False
    print(b["id"], "KEPT" if ok else "DROPPED", "demo rc", dm.returncode, dm.stdout.strip()[-100:], "| checks", ck, flush=True)
    if not ok:
        shutil.rmtree(d)


def main():
    bugs = runpy.run_path(sys.argv[1])["BUGS"]
    base_lines = set()
    for f in run(["git", "-C", REPO, "ls-tree", "-r", "--name-only", BASE, "include"]).stdout.split():
        base_lines |= set(run(["git", "-C", REPO, "show", f"{BASE}:{f}"]).stdout.split("\n"))
    only = sys.argv[2:]
    for b in bugs:
        if not only or b["id"] in only:
            try:
                one(b, base_lines)
            except AssertionError as e:
                run(["git", "-C", REPO, "checkout", "--", "."])
                print("ERR", e)


main()
