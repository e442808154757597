#!/usr/bin/env python3
"""Maintains /verif/seeded from tools/bug_list.py.

    bugs.py write [ID...]    write seeded/<id>/{patch.diff,demo.sh,demo.cpp,meta.json}
    bugs.py test [ID...]     in /repo: clean demo passes; with the patch it builds, passes the tests, the demo fails;
                             then the check of its property is run (and with --all-checks every check)
Results are appended to /tmp/bugs.log.
"""
import json, os, re, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "tools"))
sys.path.insert(0, HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")

DEMO = """#!/bin/bash
# Builds the demonstration against the headers of the current directory and runs it: 0 when the property holds.
here="$(cd "$(dirname "$0")" && pwd)"
tmp="$(mktemp -d)" || exit 99
trap 'rm -rf "$tmp"' EXIT
%s -I"$PWD/include" "$here/demo.cpp" -o "$tmp/demo" %s || exit 98
cd "$tmp" && timeout 120 ./demo
"""


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def clean():
    assert sh(["git", "-C", REPO, "status", "--porcelain", "-uno"]).stdout == "", "repo not clean"


def original_lines(path):
    out = sh(["git", "-C", REPO, "blame", "-s", path]).stdout.splitlines()
    return [l.startswith("^") for l in out]


def write(bug):
    d = os.path.join(HERE, "seeded", bug["id"])
    os.makedirs(d, exist_ok=True)
    clean()
    try:
        for f, old, new in bug["edits"]:
            p = os.path.join(REPO, f)
            s = open(p).read()
            assert s.count(old) == 1, (bug["id"], f, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        diff = sh(["git", "-C", REPO, "diff"]).stdout
    finally:
        sh(["git", "-C", REPO, "checkout", "--", "."])
    # at least one removed line must be an original one
    touched, f, n = [], None, 0
    for l in diff.splitlines():
        m = re.match(r"--- a/(.*)", l)
        if m:
            f, orig = m.group(1), original_lines(m.group(1))
            continue
        m = re.match(r"@@ -(\d+)", l)
        if m:
            n = int(m.group(1)) - 1
            continue
        if f is None or l.startswith("+++") or l.startswith("diff") or l.startswith("index"):
            continue
        if l.startswith("-"):
            touched.append(orig[n])
        if l.startswith(("-", " ")):
            n += 1
    if not touched or not all(touched):
        print("NOTE %s: %d of %d removed lines are original" % (bug["id"], sum(touched), len(touched)))
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    cxx = bug.get("cxx", "g++ -std=c++20 -w -O1")
    open(os.path.join(d, "demo.sh"), "w").write(DEMO % (cxx, bug.get("libs", "")))
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    open(os.path.join(d, "demo.cpp"), "w").write(bug["demo"].lstrip())
    json.dump({"property": bug["property"], "needs": bug["needs"], "what_it_breaks": bug["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)


def test(bug, all_checks=False, no_build=False):
    d = os.path.join(HERE, "seeded", bug["id"])
    clean()
    res = {"id": bug["id"], "property": bug["property"]}
    r = sh([os.path.join(d, "demo.sh")], cwd=REPO)
    res["clean_demo"] = r.returncode
    if r.returncode:
        print(r.stdout[-1500:])
    try:
        sh(["git", "-C", REPO, "apply", os.path.join(d, "patch.diff")])
        if not no_build:
            b = sh(["bash", "/opt/vp/build.sh"])
            t = sh(["bash", "/opt/vp/test.sh", "/tmp/bug_test.json"])
            js = json.load(open("/tmp/bug_test.json"))
            res["build"], res["failed"], res["passed"] = b.returncode, js["failed"], len(js["passed"])
        r = sh([os.path.join(d, "demo.sh")], cwd=REPO)
        res["bug_demo"] = r.returncode
        if r.returncode in (0, 98, 99):
            print(r.stdout[-1500:])
        from checks import CHECKS
        for c in (sorted(CHECKS) if all_checks else [bug["property"]] + bug.get("also", [])):
            if c not in CHECKS:
                continue
            r = sh([sys.executable, os.path.join(HERE, "run.py"), c], cwd=HERE)
            tail = r.stdout.strip().splitlines()
            res.setdefault("checks", {})[c] = r.returncode
            if r.returncode not in (0, 1) or c == bug["property"]:
                res["out"] = "\n".join(tail[-3:])[:700]
    finally:
        sh(["git", "-C", REPO, "checkout", "--", "."])
    ok = res["clean_demo"] == 0 and (res["bug_demo"] not in (0, 98, 99) or bug.get("link")) and (no_build or (res["build"] == 0 and not res["failed"] and res["passed"] == 13))
    res["valid"] = ok
    print("%s %-28s %s %s" % ("ok    " if ok else "INVALID", bug["id"], bug["property"], {k: v for k, v in res.items() if k not in ("id", "property", "out")}))
    print("      " + res.get("out", "").replace("\n", "\n      "))
    sys.stdout.flush()
    with open("/tmp/bugs.log", "a") as f:
        f.write(json.dumps(res) + "\n")
    return res


def main():
    from bug_list import BUGS
    args = [a for a in sys.argv[2:] if not a.startswith("--")]
    sel = [b for b in BUGS if not args or b["id"] in args or b["property"] in args]
    for b in sel:
        write(b)
    if sys.argv[1] == "test":
        rs = [test(b, "--all-checks" in sys.argv, "--no-build" in sys.argv) for b in sel]
        bad = [r["id"] for r in rs if not r["valid"]]
        missed = [r["id"] for r in rs if r.get("checks", {}).get(r["property"]) != 1]
        print("invalid: %s\nmissed: %s" % (bad, missed))


main()
