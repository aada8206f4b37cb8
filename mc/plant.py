"""Makes seeded/<id>/ from a description, after confirming it in a scratch
copy:  python3-vt mc/plant.py FILE.py   (FILE.py defines BUGS, a list of
dicts id, property, edits [(file, old, new)], demo, needs, breaks).
python3-vt mc/plant.py --catch [ID ...]   runs all quick checks against each
planted bug (in a scratch copy) and records which report it (with --own only
the check of the property it breaks)."""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HEAD = '''import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import py2rt
py2rt.install(os.getcwd())
import numpy as np
from collections import OrderedDict


def make(axes, data=None, num_decays=1.0, name="spectrum_mc"):
    """axes: (name, low, high, bins) ..."""
    from echidna.core.config import SpectraConfig
    from echidna.core.spectra import Spectra
    pars = OrderedDict((n, {"low": l, "high": h, "bins": b})
                       for n, l, h, b in axes)
    s = Spectra(name, num_decays, SpectraConfig.load({"parameters": pars}))
    if data is not None:
        s._data = np.array(data, dtype=float)
    return s


'''
SH = '''#!/bin/sh
# cwd: the repository. Exit 0: it behaves as it should.
ECHIDNA_REPO=$(pwd) PYTHONDONTWRITEBYTECODE=1 exec python3-vt \\
    "$(dirname "$0")/demo.py"
'''


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE,
                          stderr=subprocess.STDOUT, text=True, **k)


def scratch():
    d = tempfile.mkdtemp(prefix="plant")
    subprocess.check_call(["cp", "-a", "/repo/.", d])
    return d


def LINE(f, n, old, new):
    """An edit of (the start of) line n, with context enough to be unique."""
    L = open("/repo/" + f).read().split("\n")
    assert L[n - 1].startswith(old), L[n - 1]
    for k in range(40):
        ctx = "\n".join(L[n - 1 - k:n])
        if "\n".join(L).count(ctx) == 1:
            return (f, ctx, "\n".join(
                L[n - 1 - k:n - 1] + [new + L[n - 1][len(old):]]))
    raise Exception("no unique context")


def plant(b):
    out = os.path.join(V, "seeded", b["id"])
    d = scratch()
    try:
        for f, old, new in b["edits"]:
            p = os.path.join(d, f)
            s = open(p).read()
            if s.count(old) != 1:
                print(b["id"], "edit matches %d times: %r" % (
                    s.count(old), old[:60]))
                return False
            open(p, "w").write(s.replace(old, new))
        diff = subprocess.check_output(["git", "-C", d, "diff"], text=True)
        base = subprocess.check_output(
            ["git", "-C", d, "diff", "-U0", "HEAD"], text=True)
        # only lines of the original repository may be changed
        for m in re.finditer(r"^-(?!--)(.*)$", base, re.M):
            line = m.group(1)
            if line.strip() and not any(
                    line in subprocess.check_output(
                        ["git", "-C", d, "show", "28e6743:" + f],
                        text=True).split("\n")
                    for f, _, _ in b["edits"]):
                print(b["id"], "touches a line not in the original:", line)
        if os.path.isdir(out):
            shutil.rmtree(out)
        os.makedirs(out)
        open(os.path.join(out, "patch.diff"), "w").write(diff)
        for f in ("py2rt.py", "stubs.py", "plots.py"):
            shutil.copy(os.path.join(V, "mc", f), out)
        open(os.path.join(out, "demo.py"), "w").write(
            HEAD + b["demo"].strip() + "\n")
        open(os.path.join(out, "demo.sh"), "w").write(SH)
        os.chmod(os.path.join(out, "demo.sh"), 0o755)
        with open(os.path.join(out, "meta.json"), "w") as f:
            json.dump({"property": b["property"], "needs": b["needs"],
                       "what_it_breaks": b["breaks"]}, f, indent=1)
            f.write("\n")
        ok = True
        for where, want in (("/repo", 0), (d, 1)):
            r = sh("bash %s/demo.sh" % out, cwd=where)
            if (r.returncode != 0) != bool(want):
                print(b["id"], "demo in", where, "gives", r.returncode,
                      r.stdout[-800:])
                ok = False
        r = sh("PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -m pytest -q "
               "-p no:cacheprovider echidna/test/test_test_statistic.py", cwd=d)
        if "5 passed" not in r.stdout:
            print(b["id"], "tests:", r.stdout[-300:])
            ok = False
        if not ok:
            shutil.rmtree(out)
        print(b["id"], "planted" if ok else "REJECTED")
        return ok
    finally:
        shutil.rmtree(d)


def catch(ids):
    cf = os.path.join(V, "mc", "caught.json")
    caught = json.load(open(cf)) if os.path.exists(cf) else {}
    own = "--own" in ids        # only the check of its own property
    ids = [i for i in ids if i != "--own"]
    ids = ids or sorted(os.listdir(os.path.join(V, "seeded")))
    for i in ids:
        s = os.path.join(V, "seeded", i)
        d = scratch()
        try:
            r = sh("git apply %s/patch.diff" % s, cwd=d)
            if r.returncode:
                print(i, "does not apply", r.stdout)
                continue
            prop = json.load(open(s + "/meta.json"))["property"]
            r = sh("python3-vt mc/runall.py --jobs 3" + (
                " " + prop if own else ""), cwd=V,
                env=dict(os.environ, ECHIDNA_REPO=d))
            m = re.search("CAUGHT BY: (.*)", r.stdout)
            caught[i] = m.group(1)
            print(i, prop, "->", m.group(1),
                  "" if prop in m.group(1).split() else "*** MISSED")
        finally:
            shutil.rmtree(d)
        json.dump(caught, open(cf, "w"), indent=1, sort_keys=True)


if __name__ == "__main__":
    if sys.argv[1] == "--catch":
        catch(sys.argv[2:])
    else:
        g = {"LINE": LINE}
        exec(open(sys.argv[1]).read(), g)
        only = sys.argv[2:]
        for b in g["BUGS"]:
            if not only or b["id"] in only:
                plant(b)
