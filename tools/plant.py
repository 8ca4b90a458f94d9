"""Confirm a planted bug: tools/plant.py ID PROPERTY <<< json {"file","old","new","needs","breaks"} or edits list, with seeded/ID/demo.py written before.

In a scratch copy of /repo the edit is made, the tests are run, the demonstration is run with and without it; when all is as it should be
seeded/ID/{patch.diff,meta.json,demo.sh} are written.  Then the check of PROPERTY (and any others given) is run against it, in /repo, and undone.
"""
import json
import os
import re
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ORIGIN = subprocess.check_output(["git", "-C", "/repo", "rev-list", "--max-parents=0", "HEAD"], text=True).split()[0]


def run(cmd, cwd=None, timeout=300):
    try:
        p = subprocess.run(cmd, cwd=cwd, capture_output=True, text=True, timeout=timeout)
        return p.returncode, p.stdout + p.stderr
    except subprocess.TimeoutExpired:
        return 124, "timeout"


def main():
    id, prop = sys.argv[1:3]
    spec = json.load(sys.stdin)
    edits = spec.get("edits") or [spec]
    d = os.path.join(HERE, "seeded", id)
    scratch = "/tmp/plant-" + id
    shutil.rmtree(scratch, ignore_errors=True)
    shutil.copytree("/repo", scratch, symlinks=True)
    try:
        for e in edits:
            p = os.path.join(scratch, "mo_parsing", e["file"])
            s = open(p).read()
            n = s.count(e["old"])
            if n != 1:
                print("FAIL: %d matches of %r" % (n, e["old"][:80]))
                return 1
            open(p, "w").write(s.replace(e["old"], e["new"]))
        rc, diff = run(["git", "-C", scratch, "diff"])
        # only original lines
        bad = []
        for e in edits:
            f = "mo_parsing/" + e["file"]
            old = {}
            for line in run(["git", "-C", "/repo", "blame", "-s", "-l", "HEAD", "--", f])[1].splitlines():
                mm = re.match(r"\^?([0-9a-f]+)\s+(?:\S+\s+)?(\d+)\) ?(.*)$", line)
                old[int(mm.group(2))] = (mm.group(1), mm.group(3))
            ln = None
            for line in run(["git", "-C", scratch, "diff", "-U0", "--", f])[1].splitlines():
                h = re.match(r"@@ -(\d+)", line)
                if h:
                    ln = int(h.group(1))
                elif line.startswith("-") and not line.startswith("---"):
                    if not ORIGIN.startswith(old[ln][0][:30]):
                        bad.append(old[ln][1])
                    ln += 1
        removed = [l for l in diff.splitlines() if l.startswith("-") and not l.startswith("---")]
        if bad or not removed:
            print("FAIL: not original lines", bad, len(removed))
            return 1
        demo = os.path.join(d, "demo.py")
        sh = os.path.join(d, "demo.sh")
        open(sh, "w").write('#!/bin/bash\nexec timeout 120 /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        rc0, out0 = run(["bash", sh], cwd="/repo")
        rc1, out1 = run(["bash", sh], cwd=scratch)
        if rc0 != 0 or rc1 == 0:
            print("FAIL: demo unchanged rc=%d %s ; changed rc=%d %s" % (rc0, out0[-300:], rc1, out1[-300:]))
            return 1
        open(os.path.join(d, "patch.diff"), "w").write(diff)
        json.dump({"property": prop, "needs": spec["needs"], "what_it_breaks": spec["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
        # the tests, run in place because the installed package points at /repo
        try:
            rc, out = run(["git", "-C", "/repo", "apply", os.path.join(d, "patch.diff")])
            assert rc == 0, out
            rc, out = run(["bash", "/tmp/t.sh"])
            print("tests:", " ".join(out.split("\n")))
            if "missing: []" not in out:
                os.remove(os.path.join(d, "patch.diff"))
                return 1
            for c in sys.argv[2:]:
                rc, out = run(["bash", os.path.join(HERE, "run.sh"), c, "--quick"], timeout=900)
                print(c, "CAUGHT" if rc == 1 and "VIOLATION property=" + c in out else "MISSED rc=%d" % rc)
                if rc == 1:
                    print("   ", [l for l in out.splitlines() if l.strip()][1][:250])
                elif rc:
                    print(out[-500:])
        finally:
            run(["git", "-C", "/repo", "checkout", "--", "."])
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    return 0


sys.exit(main())
