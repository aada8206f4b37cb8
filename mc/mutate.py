"""Mutation testing of the checks (a tool, not a check):

  python3-vt mc/mutate.py OUT.jsonl [--file PART] [--every N] [--procs P]

Makes one small change at a time in a scratch copy of /repo (an operator, a
constant, a condition or a whole statement) and runs the quick cases of the
checks that belong to that file until one reports a violation. OUT gets one
line per change: the check that caught it, or "SURVIVED".  Survivors are read
by hand: either the change keeps the behaviour, or a check has a hole."""
import argparse
import ast
import importlib
import io
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import token
import tokenize

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAP = {
    "core/parameter.py": "values geometry parvals premade config fitstat store",
    "core/spectra.py": "fill project add shrink rebin scale_counts copy "
                       "interp store shiftbin history labels",
    "core/config.py": "config store grid gridview parvals fithist",
    "core/smear.py": "resolution smear random copy",
    "core/shift.py": "shiftbin interp copy",
    "core/scale.py": "interp copy",
    "core/fill_spectrum.py": "fromfile",
    "core/dsextract.py": "fromfile",
    "calc/decay.py": "decay",
    "calc/constants.py": "decay",
    "fit/fit.py": "fitstat fitcheck fithist premade limit",
    "fit/minimise.py": "grid gridview results plotfit fithist",
    "fit/fit_results.py": "results plotfit gridview limit",
    "fit/test_statistic.py": "stats",
    "limit/limit.py": "limit",
    "output/store.py": "store results premade",
    "output/plot.py": "plotspec",
    "output/plot_root.py": "plotspec plotfit",
    "output/plot_chi_squared.py": "plotfit",
    "output/plot_chi_squared_root.py": "plotfit",
    "utilities.py": "errors log",
    "scripts/combine_hdf5.py": "scripts",
    "scripts/dump_scaled.py": "scripts",
    "scripts/dump_shifted.py": "scripts",
    "scripts/dump_shrink.py": "scripts",
    "scripts/dump_smeared.py": "scripts",
    "scripts/dump_smeared_energy.py": "scripts",
    "scripts/dump_spectra_ntuple.py": "scripts",
    "scripts/dump_spectra_root.py": "scripts",
    "scripts/multi_ntuple_spectrum.py": "scripts",
    "scripts/rebin.py": "scripts",
}
OPS = {"<": "<=", "<=": "<", ">": ">=", ">=": ">", "==": "!=", "!=": "==",
       "+": "-", "-": "+", "*": "/", "/": "*", "**": "*", "+=": "-=",
       "-=": "+=", "*=": "/=", "//": "*"}
NAMES = {"and": "or", "or": "and", "True": "False", "False": "True",
         "not": "", "continue": "break", "break": "continue"}
QUIET = ("print", "raise", "import", "from", "_logger", "self._logger",
         "logging", "parser", "log_text", "def", "class", "@", '"""', "'''")


def mutants(src):
    """(line, description, new source)"""
    lines = src.split("\n")
    toks = list(tokenize.generate_tokens(io.StringIO(src).readline))
    logical = None
    out = []
    start = True
    depth = 0
    stmt = []

    def quiet(text):
        t = text.strip()
        return t.startswith(QUIET) or "_logger." in t

    def put(tok, new, what):
        (r, c), (_, e) = tok.start, tok.end
        ls = list(lines)
        ls[r - 1] = ls[r - 1][:c] + new + ls[r - 1][e:]
        out.append((r, what, "\n".join(ls)))

    cur = []
    for i, t in enumerate(toks):
        if t.type in (token.NEWLINE, token.ENDMARKER):
            if cur:
                head = lines[cur[0].start[0] - 1]
                if not quiet(head) and not (
                        len(cur) == 1 and cur[0].type == token.STRING) and \
                        "__main__" not in head:
                    for j, k in enumerate(cur):
                        prev = cur[j - 1] if j else None
                        if k.type == token.OP and k.string in OPS:
                            unary = k.string in "+-*" and (
                                prev is None or prev.type == token.OP and
                                prev.string not in ")]}" or
                                prev.string in ("return", "in", "and", "or"))
                            if k.string in ("*", "**") and unary:
                                continue
                            if unary:
                                put(k, "", "drop unary " + k.string)
                            else:
                                put(k, OPS[k.string], "%s -> %s" % (
                                    k.string, OPS[k.string]))
                        elif k.type == token.NAME and k.string in NAMES:
                            put(k, NAMES[k.string], "%s -> %s" % (
                                k.string, NAMES[k.string]))
                        elif k.type == token.NUMBER:
                            n = k.string
                            put(k, str(float(n) + 1) if "." in n or "e" in n
                                else str(int(n) + 1), n + " + 1")
                    one = cur[0].start[0] == cur[-1].end[0]
                    first = cur[0].string
                    if first in ("if", "elif") and cur[-1].string == ":":
                        a, b = cur[1].start, cur[-1].start
                        ls = list(lines)
                        ls[a[0] - 1] = ls[a[0] - 1][:a[1]] + "not (" + \
                            ls[a[0] - 1][a[1]:]
                        col = b[1] + (5 if a[0] == b[0] else 0)
                        ls[b[0] - 1] = ls[b[0] - 1][:col] + ")" + \
                            ls[b[0] - 1][col:]
                        out.append((a[0], "negated condition", "\n".join(ls)))
                    elif first not in ("if", "elif", "else", "for", "while",
                                       "try", "except", "with", "def",
                                       "class", "return", "finally"):
                        a, b = cur[0].start, cur[-1].end
                        ls = list(lines)
                        rest = ls[b[0] - 1][b[1]:]
                        ls[a[0] - 1] = ls[a[0] - 1][:a[1]] + "pass" + rest
                        for r in range(a[0], b[0]):
                            ls[r] = ""
                        out.append((a[0], "statement dropped",
                                    "\n".join(ls)))
            cur = []
        elif t.type in (token.INDENT, token.DEDENT, tokenize.NL,
                        tokenize.COMMENT):
            continue
        else:
            cur.append(t)
    return out


def one_check(name, repo):
    """In a process of its own: the quick cases, one after the other."""
    sys.path[:0] = [os.path.join(V, "mc"), os.path.join(V, "checks")]
    os.environ["ECHIDNA_REPO"] = repo
    work = tempfile.mkdtemp(prefix="mut", dir="/tmp")
    os.chdir(work)
    out = os.fdopen(os.dup(1), "w")
    sys.stdout = sys.stderr = open(os.devnull, "w")
    try:
        import core
        import py2rt
        py2rt.install()
        import registry
        modname = "c_" + name
        pid = registry.PROPERTY_OF[modname]
        ctx = core.Ctx(pid, "quick", core.load_known(pid), max_fail=.5)
        signal.signal(signal.SIGALRM, core._alarm)
        try:
            mod = importlib.import_module(modname)
            if hasattr(mod, "explore"):
                mod.explore(ctx, "quick")
            if hasattr(mod, "cases"):
                core._run_cases(mod, ctx, "quick")
        except core.Stop:
            pass
        if ctx.fails:
            out.write("%s %s" % (pid, ctx.fails[0]["key"]))
    except BaseException as e:
        out.write("%s died: %r" % (name, e))
    finally:
        out.flush()
        shutil.rmtree(work, ignore_errors=True)


def work(args):
    path, r, what, src, limit = args[:5]
    names = args[5] if len(args) > 5 else MAP[path].split()
    repo = tempfile.mkdtemp(prefix="mutrepo", dir="/tmp")
    try:
        for d in ("echidna", "user", "output"):
            shutil.copytree(os.path.join("/repo", d), os.path.join(repo, d),
                            symlinks=True)
        with open(os.path.join(repo, "echidna", path), "w") as f:
            f.write(src)
        t = time.time()
        partial = []
        for name in names:
            p = subprocess.Popen(
                [sys.executable, os.path.abspath(__file__), "--one", name,
                 repo], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                start_new_session=True, text=True)
            try:
                got = p.communicate(timeout=limit)[0]
            except subprocess.TimeoutExpired:
                got = ""
                partial.append(name)
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
            p.wait()
            if got:
                return path, r, what, got, time.time() - t
        return path, r, what, "SURVIVED" + (
            " (cut short: %s)" % " ".join(partial) if partial else ""), \
            time.time() - t
    finally:
        shutil.rmtree(repo, ignore_errors=True)


def main():
    a = argparse.ArgumentParser()
    a.add_argument("out")
    a.add_argument("--file", default="")
    a.add_argument("--every", type=int, default=1)
    a.add_argument("--procs", type=int, default=8)
    a.add_argument("--limit", type=float, default=60.)
    a.add_argument("--again", help="an earlier OUT: only its survivors whose "
                   "checks were cut short, and only those checks")
    a = a.parse_args()
    todo, again = [], {}
    if a.again:
        for line in open(a.again):
            path, r, what, got, _ = json.loads(line)
            if "cut short: " in got:
                again[path, r, what] = got[:-1].split("cut short: ")[1].split()
    for path in MAP:
        if a.file not in path:
            continue
        with open(os.path.join("/repo/echidna", path)) as f:
            src = f.read()
        todo += [(path, r, w, s, a.limit) for r, w, s in mutants(src)]
    todo = todo[::a.every]
    if a.again:
        todo = [t + (again[t[:3]],) for t in todo if t[:3] in again]
    print(len(todo), "changes")
    from concurrent.futures import ThreadPoolExecutor, as_completed
    with open(a.out, "a") as f, ThreadPoolExecutor(a.procs) as pool:
        for job in as_completed([pool.submit(work, t) for t in todo]):
            path, r, what, got, t = job.result()
            f.write(json.dumps([path, r, what, got, round(t, 1)]) + "\n")
            f.flush()


if __name__ == "__main__":
    if sys.argv[1] == "--one":
        one_check(*sys.argv[2:])
    else:
        main()
