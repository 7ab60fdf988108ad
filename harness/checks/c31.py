"""C31: type checks convert exactly, refuse what they must, alter nothing else."""

import collections
import enum
import warnings

import numpy as np
from core import Section
from gens import array, dims, pick, sig
from modopt.base import types as ty
from util import quiet

Pair = collections.namedtuple("Pair", "one two")
Choice = enum.IntEnum("Choice", {"FIVE": 5})


class Own(np.ndarray):
    pass


class Items(list):
    pass


class Number(int):
    pass


class Real(float):
    pass


RULE = (
    "A case is one object of a random kind (scalars, sequences, arrays of every type "
    "and layout, other objects) given to each type check; the returned type and value, "
    "the exceptions, the writeable flag and the warning are judged.  Non-trivial: an "
    "accepted object."
)


def floats(ctx, rng, i):
    shape = dims(rng, 1, 4, int(rng.integers(1, 4)))
    dt = pick(rng, float, np.float32, np.float16, int, np.int8, bool)
    x = array(rng, shape, dtype=int, kind=2).astype(dt) if dt is not float else array(
        rng, shape)
    x0 = np.array(x)
    got = ty.check_float(x)
    ctx.check(isinstance(got, np.ndarray), "array in, array out")
    ctx.check(np.issubdtype(got.dtype, np.floating), f"type {got.dtype}")
    ctx.check(got.shape == shape and np.array_equal(got, x0.astype(float)), "values")
    if np.issubdtype(x.dtype, np.floating):
        ctx.check(got is x, "a float array is returned as it is")
    ctx.check(np.array_equal(x, x0) and x.dtype == x0.dtype, "input modified")
    for seq in (list, tuple):
        got = ty.check_float(seq(x0.tolist()))
        ctx.check(isinstance(got, np.ndarray) and got.dtype == float, "sequence")
        ctx.check(np.array_equal(got, x0.astype(float)), "values of a sequence")
    own = x0.view(Own)
    got = ty.check_float(own)
    ctx.check(isinstance(got, np.ndarray) and np.issubdtype(got.dtype, np.floating)
              and np.array_equal(got, x0.astype(float)), "array of a derived class")
    ctx.check(got is own or not np.issubdtype(own.dtype, np.floating), "as it is")
    pair = Pair(1, 2.5)
    ctx.check(np.array_equal(ty.check_float(pair), [1, 2.5]), "a named tuple")
    ctx.check(np.array_equal(ty.check_float(Items([1, 2])), [1, 2]), "a derived list")
    for num in (Number(5), np.float64(5), Real(5), Choice.FIVE):
        ctx.check(ty.check_float(num) == 5, f"number {num!r}")
    v = int(rng.integers(-10**6, 10**6))
    got = ty.check_float(v)
    ctx.check(type(got) is float and got == v, "int")
    f = float(rng.standard_normal() * 10.0 ** rng.integers(-300, 300))
    got = ty.check_float(f)
    ctx.check(type(got) is float and got == f, "float")
    ctx.seen("float", str(dt), sig(x0))


def ints(ctx, rng, i):
    shape = dims(rng, 1, 4, int(rng.integers(1, 4)))
    dt = pick(rng, float, np.float32, int, np.int8, bool, np.uint16)
    x = array(rng, shape, dtype=float, kind=1, scale=4.0)
    if dt is np.uint16:
        x = np.abs(x)
    x = x.astype(dt)
    x0 = np.array(x)
    trunc = np.trunc(x0.astype(float))
    got = ty.check_int(x)
    ctx.check(isinstance(got, np.ndarray), "array in, array out")
    ctx.check(np.issubdtype(got.dtype, np.integer), f"type {got.dtype}")
    ctx.check(got.shape == shape and np.array_equal(got, trunc), "values", got=got)
    if np.issubdtype(x.dtype, np.integer):
        ctx.check(got is x, "an integer array is returned as it is")
    ctx.check(np.array_equal(x, x0) and x.dtype == x0.dtype, "input modified")
    for seq in (list, tuple):
        got = ty.check_int(seq(x0.tolist()))
        ctx.check(isinstance(got, np.ndarray) and np.issubdtype(got.dtype, np.integer),
                  "sequence")
        ctx.check(np.array_equal(got, trunc), "values of a sequence")
        big = [int(v) for v in rng.integers(-2**62, 2**62, 3)]
        got = ty.check_int(seq(big))
        ctx.check([int(v) for v in got] == big, f"long integers in a sequence: {got}")
    own = x0.view(Own)
    got = ty.check_int(own)
    ctx.check(isinstance(got, np.ndarray) and np.issubdtype(got.dtype, np.integer)
              and np.array_equal(got, trunc), "array of a derived class")
    ctx.check(got is own or not np.issubdtype(own.dtype, np.integer), "as it is")
    ctx.check(np.array_equal(ty.check_int(Pair(1, 2.5)), [1, 2]), "a named tuple")
    ctx.check(np.array_equal(ty.check_int(Items([1, 2])), [1, 2]), "a derived list")
    for num in (Number(5), np.float64(5.5), Real(5.5), Choice.FIVE):
        ctx.check(ty.check_int(num) == 5, f"number {num!r}")
    big = rng.uniform(-1e15, 1e15, 3)
    ctx.check(np.array_equal(ty.check_int(big), np.trunc(big)), "large floats")
    f = float(rng.standard_normal() * pick(rng, 50, 1e12, 0.5))
    got = ty.check_int(f)
    ctx.check(type(got) is int and got == int(f), f"float {f}")
    f = float(rng.standard_normal() * 10.0 ** rng.uniform(15, 307))
    got = ty.check_int(f)
    ctx.check(type(got) is int and got == int(f), f"float {f} beyond 64 bits")
    for bad in (np.inf, -np.inf):
        ctx.raises((OverflowError, ValueError), lambda: ty.check_int(bad), f"int of {bad}")
    v = pick(rng, int(rng.integers(-10**9, 10**9)), 2**80 + 1, -(2**40), 0, True)
    ctx.check(ty.check_int(v) == v, "int")
    ctx.seen("int", str(dt), sig(x0))


class Call:
    def __call__(self):
        return 1


def others(ctx, rng, i):
    for bad in ("1.0", None, {1: 2}, {1}, object(), 1j, b"1"):
        ctx.raises(TypeError, lambda: ty.check_float(bad), f"check_float({bad!r})")
        ctx.raises(TypeError, lambda: ty.check_int(bad), f"check_int({bad!r})")
    for good in (len, lambda: 0, Call(), Call, np.sin, "".join):
        ctx.check(ty.check_callable(good) is good, f"callable {good!r}")
    for bad in (1, "len", None, [len], np.ones(2)):
        ctx.raises(TypeError, lambda: ty.check_callable(bad), f"callable {bad!r}")
    ctx.seen("others", i)


def arrays(ctx, rng, i):
    dt = pick(rng, float, np.float32, int, complex, bool)
    shape = pick(rng, (int(rng.integers(1, 5)), 3), (7,), (2, 1, 3), (), (0,), (3, 0))
    x = np.zeros(shape, dt)
    if x.size:
        x = array(rng, shape or (1,), dtype=int, kind=2).astype(dt).reshape(shape)
    x = np.array(x)
    keep = np.array(x)
    if rng.random() < 0.1:
        x = x.view(Own)
    want = pick(rng, None, np.floating, np.integer, np.complexfloating, float,
                np.number, (np.float32))
    if rng.random() < 0.3:
        x.flags.writeable = False
    was = x.flags.writeable
    writeable = pick(rng, True, False)
    verbose = pick(rng, True, False)
    owner = x.flags.owndata
    kw = {}
    if want is not None:
        kw["dtype"] = want
    if not writeable or rng.random() < 0.5:
        kw["writeable"] = writeable
    if not verbose or rng.random() < 0.5:
        kw["verbose"] = verbose
    ok = want is None or np.issubdtype(x.dtype, want)
    ctx.info(dtype=str(x.dtype), wanted=want, writeable=writeable, owner=owner)
    with quiet() as (_, err), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if ok:
            ty.check_npndarray(x, **kw)
            ctx.check(x.flags.writeable == writeable, "writeable flag")
            warned = bool(err.getvalue())
            ctx.check(warned == (not writeable and verbose and was),
                      f"warning: {warned}")
            ctx.seen("array", str(dt), str(want), writeable, verbose, was)
        else:
            ctx.raises(TypeError, lambda: ty.check_npndarray(x, **kw), "type of elements")
            ctx.check(x.flags.writeable == was, "flag changed by a refusal")
        for bad in ([1.0], 1.0, None, "a", (1, 2)):
            ctx.raises(TypeError, lambda: ty.check_npndarray(bad, **kw), f"{bad!r}")
    ctx.check(np.array_equal(x, keep), "values modified")


SECTIONS = [
    Section("floats", floats, 400, 4000),
    Section("ints", ints, 400, 4000),
    Section("others", others, 5, 50),
    Section("arrays", arrays, 600, 6000),
]
