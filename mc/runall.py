"""python3-vt mc/runall.py [--tier T] [--jobs N] [Pxx ...]: runs the claimed
checks and prints one line each (a convenience, not a check)."""
import argparse
import concurrent.futures
import json
import os
import subprocess
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = argparse.ArgumentParser()
p.add_argument("--tier", default="quick")
p.add_argument("--jobs", type=int, default=2)
p.add_argument("ids", nargs="*")
a = p.parse_args()
with open(os.path.join(VERIF, "MANIFEST.json")) as f:
    checks = json.load(f)["checks"]


def run(c):
    t = time.time()
    r = subprocess.run(c[a.tier + "_cmd"], shell=True, cwd=VERIF,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       text=True)
    return c["property"], r.returncode, time.time() - t, r.stdout


todo = [c for c in checks if not a.ids or c["property"] in a.ids]
bad = []
with concurrent.futures.ThreadPoolExecutor(a.jobs) as pool:
    for pid, rc, t, out in pool.map(run, todo):
        lines = out.strip().splitlines()
        if rc:
            bad.append(pid)
            print("%s rc=%d %.1fs\n   %s" % (pid, rc, t,
                                            "\n   ".join(lines[-9:])))
        else:
            print("%.1fs %s" % (t, " | ".join(lines)))
print("CAUGHT BY: " + (" ".join(bad) or "nothing"))
