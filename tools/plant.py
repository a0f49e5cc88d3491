#!/usr/bin/env python3
"""plant.py SPECFILE [id...]: make /verif/seeded/<id>/ from a spec, after confirming in a
scratch copy of /repo that the change builds, passes the tests, and that the demo
tells the two trees apart.  A spec file defines BUGS = [dict(id, property, edits=[(file, old, new)...],
demo=python source, needs=..., breaks=...)]."""
import importlib.util
import json
import os
import shutil
import subprocess
import sys
import tempfile

REPO, OUT, EXTRA = "/repo", "/verif/seeded", "/tmp/extra-seeded"
PY = "/opt/venv/bin/python"
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")
BASE = json.load(open("/opt/vp/BASELINE.json"))


def sh(cmd, cwd, **k):
    return subprocess.run(cmd, cwd=cwd, env=dict(ENV, **k), capture_output=True, text=True)


def run_tests(tree):
    r = sh([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "-x", "--timeout=300"], tree, PYTHONPATH=tree)
    return r.returncode == 0, r.stdout[-600:]


def main(spec, only):
    m = importlib.util.spec_from_file_location("spec", spec)
    mod = importlib.util.module_from_spec(m)
    m.loader.exec_module(mod)
    for b in mod.BUGS:
        if only and b["id"] not in only:
            continue
        tmp = tempfile.mkdtemp(prefix="plant.", dir="/tmp")
        tree = os.path.join(tmp, "repo")
        try:
            shutil.copytree(REPO, tree, symlinks=True)
            for path, old, new in b["edits"]:
                p = os.path.join(tree, path)
                s = open(p).read()
                assert s.count(old) == 1, (b["id"], path, s.count(old), old)
                open(p, "w").write(s.replace(old, new))
            diff = sh(["git", "diff"], tree).stdout
            bl = {}
            for path in {e[0] for e in b["edits"]}:
                bl[path] = sh(["git", "blame", "-s", "--abbrev=7", path], REPO).stdout.splitlines()
            cur, own, orig = None, 0, 0
            for ln in sh(["git", "diff", "-U0"], tree).stdout.splitlines():
                if ln.startswith("--- a/"):
                    cur = ln[6:]
                elif ln.startswith("@@"):
                    at = ln.split()[1][1:].split(",")
                    for k in range(int(at[0]), int(at[0]) + (int(at[1]) if len(at) > 1 else 1)):
                        o = bl[cur][k - 1].startswith("^d7deb88")
                        orig, own = orig + o, own + (not o)
            print(b["id"], "changes %d original lines, %d of ours" % (orig, own) if own or not orig else "")
            ok, log = run_tests(tree)
            demo = os.path.join(tmp, "demo.py")
            open(demo, "w").write(b["demo"].lstrip("\n"))
            clean = sh([PY, demo], REPO, PYTHONPATH=REPO)
            bad = sh([PY, demo], tree, PYTHONPATH=tree)
            good = ok and clean.returncode == 0 and bad.returncode != 0
            print(b["id"], "OK" if good else "REJECTED", "tests=%s clean=%d patched=%d" % (
                ok, clean.returncode, bad.returncode), (bad.stdout + bad.stderr).strip()[-160:].replace("\n", " | "))
            if not good:
                print(log if not ok else clean.stderr[-800:])
                continue
            # bugs which only insert lines, or sit on lines of our own repairs, are kept out of seeded/
            d = os.path.join(EXTRA if own or not orig else OUT, b["id"])
            os.makedirs(d, exist_ok=True)
            open(os.path.join(d, "patch.diff"), "w").write(diff)
            open(os.path.join(d, "demo.py"), "w").write(b["demo"].lstrip("\n"))
            open(os.path.join(d, "demo.sh"), "w").write(
                "#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg PYTHONPATH=\"$PWD\"\n"
                "exec /opt/venv/bin/python -W ignore \"$(dirname \"$0\")/demo.py\"\n")
            os.chmod(os.path.join(d, "demo.sh"), 0o755)
            json.dump(dict(property=b["property"], needs=b["needs"], what_it_breaks=b["breaks"]),
                      open(os.path.join(d, "meta.json"), "w"), indent=1)
        finally:
            shutil.rmtree(tmp)


if __name__ == "__main__":
    main(sys.argv[1], sys.argv[2:])
