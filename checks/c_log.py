"""P31: once logging has started every message is kept in the log file, and
those of the chosen level also reach the terminal, once."""
import itertools
import logging
import os
import shutil
import sys
import tempfile
import warnings

import lib

PROPERTY = "P31"
LEVELS = ["debug", "info", "warning", "error", "critical"]
LOGGERS = ["", "extra", "extra.sub", "extras", "some.module"]
BOUNDS = {
    "quick": "all settings (3 levels, 2 modes, captured warnings or not, 4 "
             "forms of the file name, 3 forms of the directory), each with "
             "every message of 5 levels by 5 loggers, warning and restart; "
             "every sequence of 2 such operations for each level and mode; "
             "every choice of loggers with a form of their own",
    "thorough": "sequences of 3",
}
JOBS = {"quick": 8, "thorough": 8}
OPS = [("log", n, v) for n in LOGGERS for v in LEVELS] + [
    ("mine", None, v) for v in LEVELS[::2]] + [
        ("start",), ("warn", "user"), ("warn", "runtime")]


def cases(tier):
    yield {"forms": True}
    for level in LEVELS[:3]:
        for mode in ("normal", "cautious"):
            for capture in (True, False):
                for short, script in itertools.product((True, False),
                                                       repeat=2):
                    for form in ("slash", "plain", "missing"):
                        yield {"level": level, "mode": mode, "n": 1,
                               "capture": capture, "short": short,
                               "script": script, "form": form, "first": None}
            for op in OPS:
                yield {"level": level, "mode": mode, "capture": True,
                       "short": False, "script": True, "form": "slash",
                       "n": 3 if tier == "thorough" else 2, "first": op}


class Console(object):
    def __init__(self):
        self.text = ""

    def write(self, s):
        self.text += s

    def flush(self):
        pass


def caller(path):
    """A function of the script of that path, which starts the log."""
    env = {}
    exec(compile("def start(f, kw):\n    return f(**kw)\n", path, "exec"), env)
    return env["start"]


SCRIPTS = {"slash": ("/some/where/c_log.py", "c_log"),
           "plain": ("/data.v2/run.two.py", "run.two"),
           "missing": ("tool.py", "tool")}


def fresh(utilities):
    """As in a process that has not logged yet."""
    root = logging.getLogger()
    for h in list(root.handlers):
        root.removeHandler(h)
        h.close()
    root.setLevel(logging.WARNING)
    logging.captureWarnings(False)
    for h in list(logging.getLogger("py.warnings").handlers):
        logging.getLogger("py.warnings").removeHandler(h)
    utilities.logger_set = False


NAMES = ["root", "mc_a", "mc_a.b", "mc_a.b.c", "mc_other"]


def forms(ctx, utilities):
    """Every choice of loggers with a form of their own, every logger."""
    for n in NAMES + ["mc_a.x.y"]:
        logging.getLogger(n)
    for r in range(len(NAMES) + 1):
        for own in itertools.combinations(NAMES, r):
            f = utilities.DispatchingFormatter(
                dict((n, logging.Formatter(n + "> %(message)s"))
                     for n in own), logging.Formatter("> %(message)s"))
            for n in NAMES + ["mc_a.x.y", "mc_new"]:
                near, at = "", n.split(".")
                while at and not near:
                    near = ".".join(at) if ".".join(at) in own else ""
                    at.pop()
                if not near and "root" in own:
                    near = "root"
                got = f.format(logging.LogRecord(n, logging.INFO, "f.py", 1,
                                                 "%s", ("token",), None))
                ctx.step()
                ctx.state((own, n))
                ctx.check(got == near + "> token", "nearest", "loggers %r "
                          "have forms, the message of %s is %r" % (own, n,
                                                                   got))


def run_case(ctx, c):
    import echidna.settings as settings
    import echidna.utilities as utilities
    if "forms" in c:
        return forms(ctx, utilities)
    saved = dict(settings.user_profile)
    console, err, raising = Console(), sys.stderr, logging.raiseExceptions
    work = tempfile.mkdtemp(prefix="p31")
    try:
        sys.stderr = console
        logging.disable(logging.NOTSET)     # the loader silences it
        ops = OPS if c["first"] is None else [tuple(c["first"])]
        tails = [()] if c["first"] is None else list(itertools.product(
            OPS, repeat=c["n"] - 1))
        for op in ops:
            for rest in tails:
                settings.user_profile["mode"] = c["mode"]
                settings.user_profile["log_level"] = c["level"]
                where = os.path.join(work, "logs")
                if not os.path.isdir(where):
                    os.mkdir(where)
                with warnings.catch_warnings():
                    warnings.simplefilter("always")
                    one(ctx, c, utilities, settings, console, where,
                        (op,) + rest)
                fresh(utilities)
                shutil.rmtree(where)
                left = os.listdir(work)
                for f in left:
                    os.remove(os.path.join(work, f))
                ctx.check(not left, "place", "the log is %r next to the "
                          "directory asked for" % left)
    finally:
        logging.disable(logging.CRITICAL)
        sys.stderr = err
        logging.raiseExceptions = raising
        settings.user_profile.clear()
        settings.user_profile.update(saved)
        fresh(utilities)
        shutil.rmtree(work, ignore_errors=True)


def one(ctx, c, utilities, settings, console, where, ops):
    fresh(utilities)
    console.text = ""
    path, script = SCRIPTS[c["form"]]
    by = caller(path)
    start = lambda: by(utilities.start_logging, {      # noqa
        "capture_warnings": c["capture"], "short_name": c["short"],
        "script_name": c["script"]})
    ctx.step()
    if c["form"] == "missing":
        settings.user_profile["log_save_path"] = where + "/none/"
        ctx.check(lib.rejects(start), "refuse", "logging to a directory that "
                  "does not exist")
    settings.user_profile["log_save_path"] = where + (
        "" if c["form"] == "plain" else "/")
    logger = start()
    sent = []
    for k, op in enumerate(ops):
        token = "token-%d" % k
        ctx.state((c["level"], c["mode"], c["capture"], c["form"],
                   ops[:k + 1]))
        ctx.step()
        if op[0] == "start":
            again = start()
            ctx.check(again is logger, "restart", "starting again gives "
                      "logger %r instead of %r" % (again.name, logger.name))
        elif op[0] == "warn":
            kind = UserWarning if op[1] == "user" else RuntimeWarning
            raised = False
            try:
                warnings.warn_explicit(token, kind, "somewhere.py", k + 1)
            except UserWarning:
                raised = True
            ctx.check(raised == (c["mode"] == "cautious" and
                                 op[1] == "user"), "mode", "%s warning %s in "
                      "%s mode" % (op[1], "raised" if raised else
                                   "not raised", c["mode"]))
            if c["capture"] and not raised:
                sent.append((token, "warning", None))
            elif raised:
                sent.append((token, None, None))
        else:
            log = logger if op[0] == "mine" else logging.getLogger(op[1])
            getattr(log, op[2])("%s", token)
            sent.append((token, op[2], log.name))
    for h in logging.getLogger().handlers:
        h.flush()
    files = sorted(os.listdir(where))
    if not ctx.check(len(files) == 1, "file", "log files %r" % files):
        return
    name = files[0]
    ok = name.startswith("echidna") and name.endswith(".log") and \
        (".%d." % os.getpid() in name) == (not c["short"])
    if not c["script"]:
        ok = ok and script not in name
        ok = ok and (name == "echidna.log") == c["short"]
    elif not c["short"]:
        ok = ok and name.startswith("echidna.%s." % script)
    ctx.check(ok, "file-name", "short_name=%r, script_name=%r gives %r" % (
        c["short"], c["script"], name))
    with open(os.path.join(where, name)) as f:
        lines = f.read().splitlines()
    shown = console.text.splitlines()
    least = LEVELS.index(c["level"])
    for token, level, log in sent:
        kept = [x for x in lines if token in x]
        ctx.check(len(kept) == (level is not None), "kept", "%r of level %s "
                  "by %s is in the log %d times" % (token, level, log,
                                                    len(kept)), ops=ops)
        ctx.check(level is None or all(level.upper() in x for x in kept),
                  "kept", "the log calls a message of level %s %r" % (
                      level, kept), ops=ops)
        out = [x for x in shown if token in x]
        want = level is not None and LEVELS.index(level) >= least
        if not ctx.check(len(out) == want, "shown", "%r of level %s by %s is "
                         "shown %d times at level %s" % (
                             token, level, log, len(out), c["level"]),
                         ops=ops):
            return
        if want and log is not None:
            plain = log == "extra" or log.startswith("extra.")
            ctx.check((out[0].strip() == token) == plain, "form", "message "
                      "of logger %s shown as %r" % (log, out[0]), ops=ops)
            ctx.check(plain or log in out[0], "form", "message of logger %s "
                      "shown as %r" % (log, out[0]), ops=ops)
