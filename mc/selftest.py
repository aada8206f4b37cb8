"""setup_cmd: shows that the loader and the library stand-ins behave as the
Python 2.7 / numpy 1.9 / h5py 2.4 they stand for. Independent of /repo (it
loads programs written here), so that it judges the machinery alone."""
import os
import shutil
import sys
import tempfile

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import numpy as np

import core
import py2rt

# Python 2 expressions with the values Python 2.7 (and numpy 1.9) gives them
EXPR = [
    ("7 / 2", 3), ("-7 / 2", -4), ("7. / 2", 3.5), ("1 / 3 * 3", 0),
    ("7 // 2.", 3.0), ("True / 2", 0), ("7 % 3", 1), ("-7 % 3", 2),
    ("round(0.5)", 1.0), ("round(1.5)", 2.0), ("round(2.5)", 3.0),
    ("round(-0.5)", -1.0), ("round(1e300)", 1e300), ("round(0.125, 2)", 0.13), ("round(2.675, 2)", 2.67),
    ("type(round(3))", float), ("round(1234.5678, -2)", 1200.0),
    ("str(0.1 + 0.2)", "0.3"), ("str(1e16)", "1e+16"), ("str(1.0)", "1.0"),
    ("str(123456789012.0)", "123456789012.0"), ("str(1e12)", "1e+12"),
    ("str(2.0 / 3)", "0.666666666667"), ("str(3)", "3"),
    ("type('a') is str", True), ("type('a').__name__", "str"),
    ("isinstance(int, type) and isinstance('', type('a'))", True),
    ("'%s' % (0.1 + 0.2)", "0.3"), ("'%s_%d' % (1.5, 2.9)", "1.5_2"),
    ("'%(a)s' % {'a': 1e-5}", "1e-05"), ("'%.2f%%' % 12.345", "12.35%"),
    ("'%5s|' % 1.0", "  1.0|"), ("'%*d' % (4, 7)", "   7"),
    ("'{0} {1}'.format(0.1 + 0.2, 'x')", "0.3 x"),
    ("'{:.3f}'.format(2. / 3)", "0.667"),
    ("None < -1e300", True), ("None < 'a'", True), ("5 < 'a'", True),
    ("'a' > 5", True), ("1 < 2 < 3", True), ("1 < 3 < 2", False),
    ("max([None, 3])", None),
    ("range(3)", [0, 1, 2]), ("range(2, 8, 3)", [2, 5]),
    ("zip([1, 2], 'ab')", [(1, "a"), (2, "b")]),
    ("map(lambda x: x / 2, [3, 5])", [1, 2]), ("map(None, [1, 2])", [1, 2]),
    ("filter(None, [0, 1, 2])", [1, 2]), ("filter(str.isalpha, 'a1b')", "ab"),
    ("reduce(lambda a, b: a + b, [1, 2, 3])", 6),
    ("{1: 2}.keys() + [3]", [1, 3]), ("{1: 2}.items()[0]", (1, 2)),
    ("list({1: 2}.iteritems())", [(1, 2)]), ("{1: 2}.has_key(1)", True),
    ("sorted([3, 1, 2], cmp=lambda a, b: b - a)", [3, 2, 1]),
    ("sorted([3, 1, 2], lambda a, b: b - a)", [3, 2, 1]),
    ("cmp(1, 2)", -1), ("unicode('x')", "x"), ("long(3)", 3),
    ("isinstance('a', basestring)", True), ("isinstance('a', str)", True),
    ("isinstance(u'a', unicode)", True), ("isinstance(3, (int, long))", True),
    ("type('a') == str", True), ("type(1.) is float", True),
    ("eval('7 / 2')", 3), ("eval('x / 2', {'x': 5})", 2),
    ("numpy.array([1, 2, 3])[1.9]", 2),
    ("list(numpy.arange(6)[1.2:3.9])", [1, 2]),
    ("list(numpy.array([7, 8]) / 2)", [3, 4]),
    ("list(numpy.array([7., 8.]) / 2)", [3.5, 4.]),
    ("numpy.int64(7) / 2", 3), ("numpy.float64(7) / 2", 3.5),
    ("numpy.zeros(3.0).shape", (3,)), ("numpy.zeros((2.0, 3)).shape", (2, 3)),
    ("numpy.linspace(0., 1., 3.0).shape", (3,)),
    ("numpy.arange(6).reshape(2.0, 3).shape", (2, 3)),
    ("numpy.arange(6).reshape((2, 3.0)).shape", (2, 3)),
    ("numpy.product([2, 3])", 6),
    ("list(itertools.izip([1], [2]))", [(1, 2)]),
    ("string.join(['a', 'b'], '-')", "a-b"), ("0x10 + 010", 24),
    ("`1` + `'a'`", "1'a'"), ("1 <> 2", True),
]
# expressions that must raise
RAISES = ["range(2.0)", "1 / 0", "[1, 2][1.0]", "{}.nope()", "'%d' % 'a'",
          "numpy.arange(6).reshape(4, 2)", "None + 1", "int('x')"]
PROG = '''
import abc
import collections
class Base(object):
    __metaclass__ = abc.ABCMeta
    @abc.abstractmethod
    def f(self):
        pass
class Sub(Base):
    def f(self):
        return 1
try:
    Base()
    r1 = "made"
except TypeError:
    r1 = "refused"
r2 = Sub().f()
try:
    raise ValueError, "text"
except ValueError, detail:
    r3 = str(detail)
print "hello", 1 / 2
x = 7
x /= 2
r4 = x
x = numpy.array([4., 6.])
y = x
x /= 2
r5 = list(y)
s = "%s"
s %= 0.1 + 0.2
r6 = s
def pair((a, b), c):
    return a + b + c
r7 = pair((1, 2), 3)
class It(object):
    def __init__(self):
        self.n = 0
    def __iter__(self):
        return self
    def next(self):
        self.n += 1
        if self.n > 2:
            raise StopIteration
        return self.n
r8 = It().next()
a = numpy.zeros((2, 2))
a[1.0, 0] = 5
r9 = a[1, 0]
exec "r10 = 9 / 2"
d = collections.OrderedDict()
d["b"] = 1
d["a"] = 2
r11 = d.keys()
'''
WANT = dict(r1="refused", r2=1, r3="text", r4=3, r5=[2., 3.], r6="0.3", r7=6,
            r8=1, r9=5., r10=4, r11=["b", "a"])


def eq(a, b):
    return type(a) is type(b) and a == b or (
        isinstance(a, np.generic) and a == b) or (
        not isinstance(b, (list, tuple)) and not isinstance(a, str) and
        a == b and not isinstance(b, bool))


def refused(fn, *a, **k):
    try:
        fn(*a, **k)
    except Exception:
        return True
    return False


def main():
    bad = []

    def check(ok, what):
        if not ok:
            bad.append(what)

    head = "import numpy, itertools, string\n"
    d = tempfile.mkdtemp(prefix="selftest")
    try:
        os.mkdir(os.path.join(d, "echidna"))

        def put(name, text):
            with open(os.path.join(d, "echidna", name), "w") as f:
                f.write(text)
        put("__init__.py", "")
        put("prog.py", head + PROG)
        skip = [e for e, _ in EXPR if e.startswith("max(")]
        put("expr.py", head + "values = {}\n" + "".join(
            "values[%r] = (%s)\n" % (e, e) for e, _ in EXPR
            if e not in skip))
        put("future.py", "from __future__ import division\nr = 7 / 2\n")
        put("raises.py", head + "calls = [%s]\n" % ", ".join(
            "(lambda: %s)" % e for e in RAISES))
        for i in range(3):
            put("m%d.py" % i, "X = %d\n" % i)
        put("sub.py", "import echidna.m1\nfrom echidna import m2\n"
                      "import numpy as np\nr = (echidna.m1.X, m2.X, "
                      "np.zeros(2.).shape)\n")
        py2rt.install(d)
        with core.quiet():
            import echidna.expr as ex
            import echidna.prog as pr
            import echidna.future as fu
            import echidna.raises as ra
            import echidna.sub as su
        for e, want in EXPR:
            if e in ex.values:
                check(eq(ex.values[e], want), "%s gives %r, Python 2 gives %r"
                      % (e, ex.values[e], want))
        for k, want in WANT.items():
            got = getattr(pr, k)
            check(got == want, "%s is %r, Python 2 gives %r" % (k, got, want))
        check(fu.r == 3.5, "true division import ignored")
        for e, fn in zip(RAISES, ra.calls):
            check(refused(fn), "%s does not raise" % e)
        check(su.r == (1, 2, (2,)), "imports: %r" % (su.r,))
        left = [f for _, _, fs in os.walk(d) for f in fs if f.endswith("pyc")]
        check(not left, "byte code written to the source tree: %r" % left)
    finally:
        shutil.rmtree(d)
    stubs_ok(check)
    explorer_ok(check)
    for b in bad:
        print("SELFTEST FAILED: " + b)
    print("selftest: %d expressions, %d statements, stand-ins, explorer: %s"
          % (len(EXPR), len(WANT), "FAILED" if bad else "ok"))
    return 1 if bad else 0


def stubs_ok(check):
    import h5py
    a = np.arange(6.).reshape(2, 3)
    with h5py.File("t.h5", "w") as f:
        f.attrs["n"], f.attrs["x"], f.attrs["s"] = 3, 0.5, "text"
        f.create_dataset("d", data=a, compression="gzip")
        g = f.create_group("g/h")
        g.attrs["y"] = [1., 2.]
        check(refused(f.create_dataset, "d", data=a), "h5py: dataset twice")
        check(refused(f.create_group, "g/h"), "h5py: group twice")
        check(refused(f.attrs.__setitem__, "o", None), "h5py: None stored")
        check(refused(f.attrs.__setitem__, "o", {}), "h5py: dict stored")
        check(refused(f.create_dataset, "o", data=[None]), "h5py: objects")
    a[0, 0] = 99.
    with h5py.File("t.h5", "r") as f:
        check(f["d"].value[0, 0] == 0., "h5py: dataset aliases its source")
        f["d"].value[0, 0] = 7.
        check(f["d"][0, 0] == 0., "h5py: value aliases the file")
        check(f.attrs["n"] == 3 and type(f.attrs["n"]) is np.int64 and
              f.attrs["s"] == "text" and f.attrs["x"] == .5, "h5py: attrs")
        check(list(f.attrs.keys()) == ["n", "s", "x"], "h5py: attr order")
        check(refused(lambda: f.attrs["zz"]) and refused(lambda: f["zz"]),
              "h5py: missing names")
        check("g/h" in f and list(f["g/h"].attrs["y"]) == [1., 2.],
              "h5py: groups")
        check(refused(f.attrs.__setitem__, "q", 1), "h5py: read-only")
    check(refused(h5py.File, "none.h5", "r"), "h5py: missing file opened")
    with h5py.File("t.h5", "w") as f:
        check("d" not in f, "h5py: mode w keeps old contents")


def explorer_ok(check):
    """The search visits exactly the reachable states, in and across
    workers, and reports a planted failure with its history."""
    def build(ctx, h):
        x = 0
        for op in h[1:]:
            x = (x + op) % 17
            ctx.step()
        ctx.check(x != ctx.notes.get("bad"), "bad", "reached %d" % x)
        return x
    ctx = core.Ctx("T00", "quick")
    seen = core.bfs(ctx, [[0]], lambda s, h: [3, 5], build, lambda s: s, 20,
                    jobs=2)
    check(len(seen) == 17 and not ctx.fails, "explorer: %d of 17 states" %
          len(seen))
    ctx = core.Ctx("T00", "quick")
    ctx.notes["bad"] = 11

    def build2(c, h):
        x = 0
        for op in h[1:]:
            x = (x + op) % 17
        c.check(x != 11, "bad", "reached")
        return x
    core.bfs(ctx, [[0]], lambda s, h: [3, 5], build2, lambda s: s, 6, jobs=2)
    check(len(ctx.fails) >= 1 and sum(ctx.fails[0]["case"][1:]) % 17 == 11,
          "explorer: planted failure not reported")
    ctx = core.Ctx("T00", "quick", [{"property": "T00", "key": "k",
                                     "what": "w"}])
    ctx.fail("k", "known")
    ctx.fail("other", "not known")
    check(len(ctx.fails) == 1 and "k" in ctx.known_hit, "known findings")
    ctx = core.Ctx("T00", "quick")
    check(not core.guarded(ctx, 1, lambda: 1 / 0) and ctx.fails,
          "escaping exceptions are not reported")


if __name__ == "__main__":
    sys.exit(main())
