"""P32: the errors of an array are those of its elements, in its shape."""
import itertools
import math

import numpy as np

import lib

PROPERTY = "P32"
VALUES = [1., .25, 3., 1e-3, 7.5e4, 10., 2.]
BOUNDS = {
    "quick": "all shapes of 1-3 axes with 1-3 entries, every rotation of 7 "
             "values, as made, as a view of every second element and "
             "transposed; 5 error sizes; linear, log and log10 scale; zeros "
             "at every single place",
    "thorough": "1-4 axes with 1-4 entries",
}
JOBS = {"quick": 4, "thorough": 8}
SIZES = [.01, -.03, .2, 1., -.5]


def cases(tier):
    t = tier == "thorough"
    for n in range(1, 5 if t else 4):
        for shape in itertools.product(range(1, 5 if t else 4), repeat=n):
            yield {"shape": shape}


def run_case(ctx, c):
    from echidna.utilities import get_array_errors
    shape = tuple(c["shape"])
    n = int(np.prod(shape))
    for turn in range(len(VALUES) + min(n, 8)):
        flat = [VALUES[(i + turn) % len(VALUES)] for i in range(n)]
        if turn >= len(VALUES):
            flat[turn - len(VALUES)] = 0.
        a = np.array(flat).reshape(shape)
        wide = np.zeros([2 * k for k in shape])
        every = tuple(slice(None, None, 2) for _ in shape)
        wide[every] = a
        for form, arr in (
                ("made", a), ("view", wide[every]), ("transposed", np.array(
                    a.T, order="C").T), ("whole", np.ceil(a).astype(int))):
            for size, scale in itertools.product(SIZES, ("lin", "log",
                                                         "log10")):
                ctx.step()
                ctx.state((shape, turn, form, size, scale))
                before = arr.copy()
                kw = {} if scale == "lin" else {scale: True}
                with np.errstate(divide="ignore"):
                    got = get_array_errors(arr, lin_err=size, **kw)
                want = np.array([error(v, size, scale) for v in np.ravel(
                    before)]).reshape(shape)
                ctx.check(got.shape == shape, "shape", "errors of shape %r "
                          "for an array of shape %r" % (got.shape, shape))
                ctx.check(lib.close(np.ravel(got), np.ravel(want)), "value",
                          "errors %r of %r, expected %r" % (got, before,
                                                            want))
                ctx.check(np.array_equal(arr, before), "input",
                          "%r became %r" % (before, arr))
    ctx.check(lib.rejects(lambda: get_array_errors(a, lin_err=None)),
              "refuse", "errors of no size")


def error(v, size, scale):
    """By how much v grows when its logarithm, or v itself, grows by size."""
    if scale == "lin":
        return size
    base = math.e if scale == "log" else 10.
    return v * base ** size - v
