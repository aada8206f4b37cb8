"""The explorer every check runs under.

A check module (checks/<name>.py) provides

  PROPERTY            its id
  cases(tier)         a deterministic generator of JSON-able cases, simplest
                      first; the whole of a bounded space
  run_case(ctx, case) drives the real code through one case (an operation
                      history, an input, an environment script) and compares
                      every observation with a reference model

or, instead of `cases`, `explore(ctx, tier)` for explicit-state search with
de-duplication of reached states (see `bfs`).

`ctx` counts what was executed: ctx.step() once per operation of the real code
whose outcome was compared, ctx.state(key) for every canonical state reached.
"""
import contextlib
import hashlib
import io
import json
import os
import signal
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CASE_SECONDS = 240


class CaseTimeout(Exception):
    pass


class Stop(Exception):
    """Enough violations."""


def jsonable(x):
    import numpy as np
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple, set, frozenset)):
        return [jsonable(v) for v in x]
    if isinstance(x, np.ndarray):
        return jsonable(x.tolist())
    if isinstance(x, np.generic):
        return x.item()
    if isinstance(x, (str, int, float, bool)) or x is None:
        return x
    return repr(x)


def digest(x):
    return hashlib.blake2b(repr(x).encode(), digest_size=8).digest()


class Ctx(object):
    def __init__(self, prop, tier, known=(), max_fail=5):
        self.prop, self.tier = prop, tier
        self.known = list(known)
        self.max_fail = max_fail
        self.transitions = 0
        self.cases = 0
        self.states = set()
        self.samples = []
        self.fails = []
        self.known_hit = {}
        self.failing = 0
        self.notes = {}
        self.case = None

    # -- counting
    def step(self, n=1):
        self.transitions += n

    def state(self, key):
        self.states.add(digest(key))

    def note(self, name, n=1):
        self.notes[name] = self.notes.get(name, 0) + n

    # -- verdicts
    def fail(self, key, message, **detail):
        """A violation. `key` names the failing input/call/history."""
        for k in self.known:
            if k["key"] == key:
                self.known_hit.setdefault(key, k)
                return
        self.failing += 1
        if sum(f["key"] == key for f in self.fails) < 2:
            self.fails.append({"key": key, "message": message,
                               "case": jsonable(self.case),
                               "detail": jsonable(detail)})
        if self.failing >= 200 or len(self.fails) >= 2 * self.max_fail:
            raise Stop()

    def check(self, ok, key, message, **detail):
        if not ok:
            self.fail(key, message, **detail)
        return bool(ok)


@contextlib.contextmanager
def quiet():
    out, err = sys.stdout, sys.stderr
    sys.stdout = sys.stderr = io.StringIO()
    try:
        yield
    finally:
        sys.stdout, sys.stderr = out, err


def _alarm(*_):
    raise CaseTimeout("no result after %d s" % CASE_SECONDS)


def guarded(ctx, case, fn):
    """Run one case; an escaping exception of the code is a violation."""
    ctx.case = case
    ctx.cases += 1
    if len(ctx.samples) < 3:
        ctx.samples.append(jsonable(case))
    before = ctx.failing
    signal.alarm(CASE_SECONDS)
    try:
        with quiet():
            fn()
    except Stop:
        raise
    except KeyboardInterrupt:
        raise
    except BaseException as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = [f for f in tb if "/echidna/" in f.filename]
        at = where[-1] if where else tb[-1]
        ctx.fail("exception:%s:%s" % (type(e).__name__, at.name),
                 "unexpected %s: %s (in %s, line %s)" %
                 (type(e).__name__, e, at.name, at.lineno),
                 traceback=traceback.format_exc().splitlines()[-12:])
    finally:
        signal.alarm(0)
    return ctx.failing == before


def _expand(args):
    """Worker: all successors of some histories."""
    ctx0, alphabet, build, canon = _BFS
    ctx = Ctx(ctx0.prop, ctx0.tier, ctx0.known)
    signal.signal(signal.SIGALRM, _alarm)
    out = []
    try:
        for h in args:
            scratch = Ctx(ctx0.prop, ctx0.tier, ctx0.known)
            with quiet():
                state = build(scratch, h)
            for op in alphabet(state, h):
                h2 = list(h) + [op]
                box = {}
                if not guarded(ctx, h2, lambda: box.update(
                        s=build(ctx, h2))) or box["s"] is None:
                    continue
                out.append((h2, digest(canon(box["s"]))))
    except Stop:
        pass
    return ctx, out


_BFS = None


def bfs(ctx, start, alphabet, build, canon, depth, jobs=8):
    """Explicit-state search over histories of the real code.

    start     list of initial histories (JSON-able op lists)
    build     (ctx, history) -> state, replaying the real code AND the model
              in lock step (raises/ctx.fail on disagreement)
    alphabet  (state, history) -> list of enabled ops
    canon     state -> hashable key; states with equal keys have equal futures
    Every history up to `depth` operations beyond its start is explored, except
    that a state already reached is not expanded again.
    """
    import multiprocessing
    global _BFS
    _BFS = (ctx, alphabet, build, canon)
    seen, layer = set(), []
    for h in start:
        box = {}
        if guarded(ctx, h, lambda: box.update(s=build(ctx, h))):
            k = digest(canon(box["s"]))
            if k not in seen:
                seen.add(k)
                layer.append(h)
    levels = [len(layer)]
    mp = multiprocessing.get_context("fork")
    with mp.Pool(jobs) as pool:
        for _ in range(depth):
            n = max(1, min(64, len(layer) // (4 * jobs)))
            chunks = [layer[i:i + n] for i in range(0, len(layer), n)]
            nxt = []
            for part, out in pool.imap(_expand, chunks):
                _merge(ctx, part)
                for h2, k in out:
                    if k not in seen:
                        seen.add(k)
                        nxt.append(h2)
            layer = nxt
            levels.append(len(layer))
            if not layer or ctx.fails:
                break
    ctx.states |= seen
    ctx.notes["bfs_levels"] = levels
    return seen


def _shard(args):
    modname, tier, known, i, n, limit = args
    import importlib
    mod = importlib.import_module(modname)
    ctx = Ctx(mod.PROPERTY, tier, known)
    signal.signal(signal.SIGALRM, _alarm)
    try:
        _run_cases(mod, ctx, tier, i, n)
    except Stop:
        pass
    return ctx


def _run_cases(mod, ctx, tier, i=0, n=1):
    for j, case in enumerate(mod.cases(tier)):
        if j % n == i:
            guarded(ctx, case, lambda: mod.run_case(ctx, case))


def _merge(a, b):
    a.transitions += b.transitions
    a.cases += b.cases
    a.states |= b.states
    a.samples = (a.samples + b.samples)[:3]
    a.fails += b.fails
    a.failing += b.failing
    a.known_hit.update(b.known_hit)
    for k, v in b.notes.items():
        a.notes[k] = a.notes.get(k, 0) + v if not isinstance(v, list) else v


def load_known(prop):
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as f:
        data = json.load(f)
    return [k for k in data.get("known", []) if k["property"] == prop]


def main(modname, tier, seed, replay=None):
    t0 = time.time()
    sys.path.insert(0, os.path.join(VERIF, "mc"))
    sys.path.insert(0, os.path.join(VERIF, "checks"))
    import importlib
    signal.signal(signal.SIGALRM, _alarm)
    pid = None
    try:
        import py2rt
        py2rt.install()
        meta = importlib.import_module("registry")
        pid = meta.PROPERTY_OF[modname]
        known = load_known(pid)
        ctx = Ctx(pid, tier, known)
        boot = []
        with quiet():
            try:
                mod = importlib.import_module(modname)
            except BaseException as e:
                boot.append((e, traceback.format_exc()))
        if boot:
            ctx.case = {"import": modname}
            ctx.fail("import", "the code under check does not load: %s: %s"
                     % (type(boot[0][0]).__name__, boot[0][0]),
                     traceback=boot[0][1].splitlines()[-12:])
        elif replay:
            with open(replay) as f:
                rep = json.load(f)
            ctx.known = []
            if hasattr(mod, "run_case"):
                guarded(ctx, rep["case"],
                        lambda: mod.run_case(ctx, rep["case"]))
            else:
                guarded(ctx, rep["case"], lambda: mod.build(ctx, rep["case"]))
        else:
            ctx = _explore(mod, modname, ctx, tier, known)
    except Stop:
        pass
    wall = time.time() - t0
    if replay:
        for f in ctx.fails:
            print("REPRODUCED %s: %s" % (f["key"], f["message"]))
            for line in f["detail"].get("traceback", []):
                print("   ", line)
        if not ctx.fails:
            print("not reproduced")
        return 1 if ctx.fails else 0
    ctx.fails.sort(key=lambda f: (len(json.dumps(f["case"])), f["key"]))
    evidence = {
        "property": pid, "tier": tier, "seed": seed,
        "level": "model_checking",
        "coverage": {
            "states": len(ctx.states),
            "transitions": ctx.transitions,
            "traces_validated_against_impl": ctx.cases,
            "samples": ctx.samples or [{"none": True}],
            "exhaustive": not ctx.fails,
            "explanation": getattr(sys.modules.get(modname), "BOUNDS", {}).get(
                tier, "") if isinstance(getattr(
                    sys.modules.get(modname), "BOUNDS", None), dict) else
            getattr(sys.modules.get(modname), "BOUNDS", ""),
            "notes": ctx.notes,
        },
        "assumptions": getattr(sys.modules.get(modname), "ASSUMPTIONS", []) +
        ["the Python 2 semantics and library stand-ins of mc/py2rt.py and "
         "mc/stubs.py (validated by mc/selftest.py)"],
        "wall_s": round(wall, 2),
        "violations": len(ctx.fails),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(evidence, f, indent=1, sort_keys=True)
        f.write("\n")
    for k in ctx.known_hit.values():
        print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    print("%s [%s]: %d states, %d transitions, %d traces, %.1f s" %
          (pid, tier, len(ctx.states), ctx.transitions, ctx.cases, wall))
    if ctx.fails:
        d = os.path.join(VERIF, "replays")
        os.makedirs(d, exist_ok=True)
        for i, f in enumerate(ctx.fails[:3]):
            path = os.path.join(d, "%s-%d.json" % (pid, i))
            with open(path, "w") as out:
                json.dump(dict(f, property=pid, module=modname,
                               how="python3-vt /verif/mc/run.py --replay " +
                               path), out, indent=1)
                out.write("\n")
            print("VIOLATION property=%s replay=%s" % (pid, path))
            print("   %s: %s" % (f["key"], f["message"]))
        return 1
    return 0


def _explore(mod, modname, ctx, tier, known):
    jobs = getattr(mod, "JOBS", {}).get(tier, 1)
    if hasattr(mod, "explore"):
        mod.explore(ctx, tier)
        if not hasattr(mod, "cases"):
            return ctx
    if jobs > 1:
        import multiprocessing
        mp = multiprocessing.get_context("fork")
        with mp.Pool(jobs) as pool:
            for part in pool.imap(_shard, [
                    (modname, tier, known, i, jobs, None)
                    for i in range(jobs)]):
                _merge(ctx, part)
    else:
        _run_cases(mod, ctx, tier)
    return ctx
