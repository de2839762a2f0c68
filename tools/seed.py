"""Builds /verif/seeded/<id>/ from the tables in tools/seeds/*.py and tries them.

    seed.py build [ID...]         write the directories and confirm each in a scratch copy
    seed.py quiet [ID...]         run every check on each of tools/refactors/*.py
    seed.py check [--tier T] [--all-props] [ID...]   run the property's check on each
"""
import concurrent.futures as cf
import glob
import importlib.util
import io
import json
import os
import queue
import re
import shutil
import subprocess
import sys
import zipfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
TMP = "/tmp/seedw.%d" % os.getpid()
PK = "python/lsst/skymap/"


def tables(where="seeds/s_*.py", name="SEEDS"):
    out = {}
    for f in sorted(glob.glob(os.path.join(V, "tools", where))):
        spec = importlib.util.spec_from_file_location(os.path.basename(f)[:-3], f)
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
        for s in getattr(m, name):
            assert s["id"] not in out, s["id"]
            out[s["id"]] = s
    return out


def shim_zip():
    b = io.BytesIO()
    root = os.path.join(V, "shim")
    with zipfile.ZipFile(b, "w", zipfile.ZIP_DEFLATED) as z:
        for d, sub, fs in sorted(os.walk(root)):
            sub.sort()
            for f in sorted(fs):
                if f.endswith(".py"):
                    p = os.path.join(d, f)
                    info = zipfile.ZipInfo(os.path.relpath(p, root), (2026, 1, 1, 0, 0, 0))
                    info.compress_type = zipfile.ZIP_DEFLATED
                    z.writestr(info, open(p).read())
    return b.getvalue()


def sh(cmd, cwd=None, env=None, timeout=1000):
    e = dict(os.environ)
    e.update(env or {})
    p = subprocess.run(cmd, cwd=cwd, env=e, timeout=timeout, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return p.returncode, p.stdout


def original_lines():
    """File -> set of lines of the original repository that the fix commits did not add."""
    base = sh(["git", "rev-list", "--max-parents=0", "HEAD"], "/repo")[1].split()[-1]
    out = {}
    for f in sh(["git", "ls-files", PK], "/repo")[1].split():
        blame = sh(["git", "blame", "-s", "--root", "-l", f], "/repo")[1].splitlines()
        out[f] = [ln.lstrip("^").startswith(base[:30]) for ln in blame]
    return out


def build(s, W, blame):
    # "local" ones change lines our fixes added: they do not count, but are tried
    d = os.path.join(V, "build", "seeded", s["id"]) if s.get("local") else os.path.join(V, "seeded", s["id"])
    R = os.path.join(W, "repo")
    sh(["git", "checkout", "-q", "--", "."], R)
    files = set()
    for fn, old, new in s["edits"]:
        p = os.path.join(R, PK, fn)
        files.add(PK + fn)
        t = open(p).read()
        if t.count(old) != 1:
            return "edit matches %d times in %s: %r" % (t.count(old), fn, old[:80])
        open(p, "w").write(t.replace(old, new))
    rc, diff = sh(["git", "diff"], R)
    # Removed lines must be original ones.
    fn = None
    for ln in diff.splitlines():
        if ln.startswith("+++ b/"):
            fn = ln[6:]
        m = re.match(r"@@ -(\d+)", ln)
        if m:
            n = int(m.group(1))
            continue
        if ln.startswith("-") and not ln.startswith("---"):
            if not blame[fn][n - 1] and not s.get("local"):
                return "changes a line of ours: " + ln
            n += 1
        elif ln.startswith(" "):
            n += 1
    if not s.get("local") and not any(ln.startswith("-") and not ln.startswith("---") for ln in diff.splitlines()):
        return "no original line is changed"
    os.makedirs(d, exist_ok=True)
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]},
              open(os.path.join(d, "meta.json"), "w"), indent=1)
    open(os.path.join(d, "demo.py"), "w").write("from prelude import *  # noqa\n\n" + s["demo"].strip() + "\n")
    shutil.copy(os.path.join(V, "tools", "seeds", "prelude.py"), d)
    open(os.path.join(d, "shim.zip"), "wb").write(shim_zip())
    open(os.path.join(d, "demo.sh"), "w").write(
        '#!/bin/bash\n# Run with the repository as current directory.\nexport PYTHONPATH="$(cd "$(dirname "$0")" && pwd)"\n'
        'exec /opt/venv/bin/python "$PYTHONPATH/demo.py"\n')
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    # Confirm, from another place.
    lay = os.path.join(W, "lay")
    shutil.rmtree(lay, ignore_errors=True)
    shutil.copytree(d, lay, ignore=shutil.ignore_patterns("*.diff", "meta.json"))
    rc, out = stable(R)
    if rc:
        return "stable tests fail with it\n" + out[-800:]
    rc, out1 = sh(["bash", os.path.join(lay, "demo.sh")], R, timeout=300)
    sh(["git", "checkout", "-q", "--", "."], R)
    if rc == 0:
        return "demo passes with the patch"
    rc2, out = sh(["bash", os.path.join(lay, "demo.sh")], R, timeout=300)
    if rc2:
        return "demo fails without the patch\n" + out[-1500:]
    rc, out = sh(["git", "apply", "--check", os.path.join(d, "patch.diff")], R)
    if rc:
        return "does not apply\n" + out
    if not re.search(r"DEMO:|AssertionError", out1):
        return "suspicious demo failure\n" + out1[-1500:]
    return None


def stable(R):
    env = {"PYTHONPATH": "%s/python:%s/tests:%s" % (R, R, os.path.dirname(R)), "PYTHONDONTWRITEBYTECODE": "1"}
    plug = open("/opt/vp/support/skymap_no_init.py").read().replace("/repo/", R + "/")
    open(os.path.join(os.path.dirname(R), "skymap_no_init.py"), "w").write(plug)
    return sh([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "-p", "skymap_no_init", "tests/test_packers.py"], R, env)


def full(R):
    return sh(["bash", os.path.join(V, "tools", "selfcheck.sh")], R, {"VERIF_REPO": R})


def quiet(s, W):
    """Apply edits that keep the behaviour; every check has to be quiet."""
    R = os.path.join(W, "repo")
    sh(["git", "checkout", "-q", "--", "."], R)
    for fn, old, new in s["edits"]:
        p = os.path.join(R, PK, fn)
        t = open(p).read()
        if t.count(old) != 1:
            return "edit matches %d times in %s: %r" % (t.count(old), fn, old[:80])
        open(p, "w").write(t.replace(old, new))
    rc, out = stable(R)
    if rc:
        return "stable tests fail"
    rc, out = full(R)
    if rc:
        return "own tests fail\n" + out[-1500:]
    bad = []
    for p in (os.environ.get("ONLY") or " ".join("C%02d" % i for i in range(1, 31))).split():
        rc, out = sh(["bash", os.path.join(W, "verif", "check.sh"), p, "quick"], W,
                     {"VERIF_REPO": R, "VERIF_SEED": "1", "VERIF_TIER": "quick", "VERIF_JOBS": "3", "VERIF_ROUNDS": "1"}, 3000)
        if rc or "VIOLATION" in out:
            bad.append("%s rc=%d" % (p, rc))
            open("/tmp/seedlog/%s.%s.log" % (s["id"], p), "w").write(out)
    return ", ".join(bad) or None


def check(s, W, tier, props):
    R = os.path.join(W, "repo")
    sh(["git", "checkout", "-q", "--", "."], R)
    d = os.path.join(V, "build", "seeded", s["id"]) if s.get("local") else os.path.join(V, "seeded", s["id"])
    rc, out = sh(["git", "apply", os.path.join(d, "patch.diff")], R)
    if rc:
        return {p: "noapply" for p in props}
    res = {}
    for p in props:
        try:
            rc, out = sh(["bash", os.path.join(W, "verif", "check.sh"), p, tier], W,
                         {"VERIF_REPO": R, "VERIF_SEED": os.environ.get("VERIF_SEED", "1"), "VERIF_TIER": tier, "VERIF_FIRST": "1", "VERIF_JOBS": "2"}, 3000)
        except subprocess.TimeoutExpired:
            rc, out = -1, "timeout"
        viol = "VIOLATION property=%s" % p in out
        keys = sorted(set(re.findall(r"^  \[?([\w-]+)\]?:", out, re.M)))
        res[p] = "CAUGHT" if rc == 1 and viol else ("quiet" if rc == 0 and "VIOLATION" not in out else "rc=%d" % rc)
        os.makedirs("/tmp/seedlog", exist_ok=True)
        open("/tmp/seedlog/%s.%s.log" % (s["id"], p), "w").write(out)
    sh(["git", "checkout", "-q", "--", "."], R)
    return res


def workers(n):
    q = queue.Queue()
    for i in range(n):
        W = os.path.join(TMP, str(i))
        shutil.rmtree(W, ignore_errors=True)
        os.makedirs(W)
        subprocess.check_call(["cp", "-a", "/repo", W + "/repo"])
        shutil.copytree(V, W + "/verif", ignore=shutil.ignore_patterns("seeded", "build", ".git", "evidence", "replay", "__pycache__"))
        q.put(W)
    return q


def main(argv):
    cmd, ids, tier, allp = argv[0], [], "quick", False
    it = iter(argv[1:])
    for a in it:
        if a == "--tier":
            tier = next(it)
        elif a == "--all-props":
            allp = True
        else:
            ids.append(a)
    T = tables("refactors/r*.py", "REFACTORS") if cmd == "quiet" else tables()
    sel = [T[i] for i in T if not ids or any(i == x or i.startswith(x) for x in ids)]
    q = workers(min({"check": 4, "quiet": 4}.get(cmd, 6), len(sel)))
    blame = original_lines()
    allprops = ["C%02d" % i for i in range(1, 31)]

    def one(s):
        W = q.get()
        try:
            if cmd == "build":
                return s["id"], build(s, W, blame)
            if cmd == "quiet":
                return s["id"], quiet(s, W)
            if cmd == "full":
                R = W + "/repo"
                sh(["git", "checkout", "-q", "--", "."], R)
                sh(["git", "apply", os.path.join(V, "seeded", s["id"], "patch.diff")], R)
                rc, out = full(R)
                sh(["git", "checkout", "-q", "--", "."], R)
                return s["id"], None if rc == 0 else " ".join(re.findall(r"FAILED (\S+)", out))
            return s["id"], check(s, W, tier, allprops if allp else [s["prop"]])
        except Exception as e:
            return s["id"], "EXC %r" % e
        finally:
            q.put(W)

    bad = 0
    with cf.ThreadPoolExecutor(len(list(q.queue))) as ex:
        for i, r in ex.map(one, sel):
            if cmd in ("build", "full", "quiet"):
                print(i, "ok" if r is None else "PROBLEM " + r, flush=True)
                bad += r is not None
            else:
                print(i, r if isinstance(r, str) else " ".join("%s:%s" % kv for kv in r.items() if not allp or kv[1] != "quiet"),
                      flush=True)
    shutil.rmtree(TMP, ignore_errors=True)
    return bad


sys.exit(1 if main(sys.argv[1:]) else 0)
