"""Writes /verif/seeded/<id>/ from the bugs listed in tools/bugs.py, after confirming
each in a scratch copy: applies, passes the stable tests, demo fails with it and
passes without; then says which check reports it.  usage: plant.py [id...] [--nocheck]"""
import json, os, shutil, subprocess, sys, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "tools"))
import bugs


def sh(cmd, cwd, env=None, **k):
    return subprocess.run(cmd, cwd=cwd, env=dict(os.environ, **(env or {})), capture_output=True, text=True, **k)


DEMO = '''#!/bin/bash
exec python3 -B "$(dirname "$0")/demo.py"
'''
PRE = '''import os, sys
sys.path.insert(0, os.getcwd())
'''


def one(b, check=True):
    tmp = tempfile.mkdtemp(prefix="plant")
    try:
        repo = os.path.join(tmp, "repo")
        sh(["cp", "-a", "/repo", repo], "/")
        for f, old, new in b["edits"]:
            p = os.path.join(repo, f)
            s = open(p).read()
            if s.count(old) != 1:
                return "edit matches %d times: %r" % (s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        diff = sh(["git", "diff"], repo).stdout
        d = os.path.join(tmp, "seed")
        os.mkdir(d)
        open(os.path.join(d, "patch.diff"), "w").write(diff)
        open(os.path.join(d, "demo.sh"), "w").write(DEMO)
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        open(os.path.join(d, "demo.py"), "w").write(PRE + b["demo"].lstrip("\n"))
        json.dump({k: b[k] for k in ("property", "needs", "what_it_breaks")}, open(os.path.join(d, "meta.json"), "w"), indent=1)
        good = sh(["bash", os.path.join(d, "demo.sh")], "/repo")
        bad = sh(["bash", os.path.join(d, "demo.sh")], repo)
        if good.returncode:
            return "demo fails on the tree: " + good.stderr[-300:]
        if not bad.returncode:
            return "demo passes with the bug"
        t = sh([sys.executable, "-B", "-m", "unittest", "-q", "tests.issue_7.test", "tests.test_basic", "tests.test_item"], repo, {"PYTHONPATH": repo})
        if t.returncode:
            return "tests fail: " + t.stdout[-300:] + t.stderr[-300:]
        res = ""
        if check:
            r = sh([sys.executable, "-m", "hsa.run", b["property"], "--jobs", "6"], ROOT, {"HSA_REPO": repo, "HSA_EVIDENCE": tmp})
            v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
            res = ("caught: " if r.returncode == 1 and v else "MISSED (%d): " % r.returncode) + r.stdout.splitlines()[0]
        out = os.path.join(ROOT, "seeded", b["id"])
        shutil.rmtree(out, ignore_errors=True)
        shutil.copytree(d, out)
        return "ok " + res
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == "__main__":
    want = [a for a in sys.argv[1:] if not a.startswith("-")]
    for b in bugs.BUGS:
        if not want or b["id"] in want:
            print(b["id"], b["property"], one(b, "--nocheck" not in sys.argv), flush=True)
