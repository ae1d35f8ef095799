# Bodies of the spaces of Y01 and Y02: called once per sequence of answers of probe.choose (see y_python.cpp)
import warnings
warnings.simplefilter("ignore")
import copy, ctypes, gc, itertools, math, os, pickle, sys
import numpy as np
import probe
import pybliss
import pybland                       # the package loads both modules, in this order

NS = [pybland, pybliss.bland]
THOROUGH = probe.thorough()


def choose(n, label=""):
    return probe.choose(n, label)


def pick(xs, label=""):
    return xs[probe.choose(len(xs), label)]


def fail(key, msg):
    probe.fail(key, msg)


def check(ok, key, msg):
    if not ok:
        fail(key, msg() if callable(msg) else msg)


def note(s):
    if probe.verbose():
        probe.note(s)


def attempt(f):
    """(result, None) or (None, error text): the bindings report errors as ordinary exceptions"""
    try:
        return f(), None
    except Exception as e:
        return None, "%s: %s" % (type(e).__name__, str(e)[:200])


def out(a):
    """what numpy sees through the array's __dlpack__"""
    return np.from_dlpack(a)


# ------------------------------------------------------------------------------------------------ Y01: arrays
F32, I32, U8, U32 = np.float32, np.int32, np.uint8, np.uint32
KINDS = [F32, I32, U8, U32]
VALS = {F32: [1.5, -2.25, 0.0, 7.0, -0.5, 100.0, 3.0], I32: [3, -2, 0, 7, 250, -100, 1], U8: [3, 0, 7, 1, 250, 16, 5], U32: [3, 0, 7, 1, 250, 70000, 5]}
LAYOUTS = ["contiguous", "transposed", "every other", "reversed", "inner block", "bland"]


def numbers(t, shape, salt, nonzero=False):
    n = int(np.prod(shape, dtype=int))
    v = [VALS[t][(k * (salt + 1) + salt) % 7] for k in range(n)]
    if nonzero:
        v = [x if x else 4 for x in v]
    return np.array(v, dtype=t).reshape(shape)


def laid(x, how, ns=pybland):
    """an array equal to x in another memory layout"""
    if how == "contiguous":
        return x.copy()
    if how == "transposed":
        return np.asfortranarray(x)
    if how == "every other":
        big = np.full([2 * s + 1 for s in x.shape], 77, dtype=x.dtype)
        v = big[tuple(slice(1, 1 + 2 * s, 2) for s in x.shape)]
        v[...] = x
        return v
    if how == "reversed":
        r = np.ascontiguousarray(x[tuple(slice(None, None, -1) for _ in x.shape)])
        return r[tuple(slice(None, None, -1) for _ in x.shape)]
    if how == "inner block":
        big = np.full([s + 2 for s in x.shape], 55, dtype=x.dtype)
        v = big[tuple(slice(1, 1 + s) for s in x.shape)]
        v[...] = x
        return v
    return to_bland(ns, x)


def writable(a):
    """the memory of a dense bland array (numpy's own view of it is read-only)"""
    v = out(a)
    if v.size == 0:
        return v
    w = np.ndarray(v.shape, v.dtype, buffer=(ctypes.c_char * v.nbytes).from_address(v.ctypes.data), strides=v.strides)
    return w


def to_bland(ns, x):
    """a bland array with x's elements: made by the library, filled through its exported view"""
    if x.dtype == np.float32:
        a = ns.ndarray(list(x.shape))
    else:
        a = ns.multiply(np.zeros(x.shape, x.dtype), 1)
    if x.size:
        writable(a)[...] = x
    return a


def wrap(v, t):
    if t is F32:
        return float(np.float32(v))
    b = np.dtype(t).itemsize * 8
    v = int(v) & ((1 << b) - 1)
    if t is I32 and v >= 1 << (b - 1):
        v -= 1 << b
    return v


def element(op, a, ta, b, tb):
    """the value C++ gives to one element, None where it gives none; the result has a's type"""
    with np.errstate(all="ignore"):
        if F32 in (ta, tb):
            a, b = np.float32(a), np.float32(b)
            r = a + b if op == "add" else a - b if op == "subtract" else a * b if op == "multiply" else a / b
            if ta is F32:
                return float(r)
            i = np.iinfo(ta)
            return math.trunc(float(r)) if i.min - 1 < r < i.max + 1 else None
    a, b = int(a), int(b)
    if U32 in (ta, tb):
        a, b = a & 0xffffffff, b & 0xffffffff
    if op == "divide":
        if b == 0:
            return None
        q = abs(a) // abs(b)
        r = q if (a < 0) == (b < 0) else -q
    else:
        r = a + b if op == "add" else a - b if op == "subtract" else a * b
    if U32 not in (ta, tb) and not -2**31 <= r < 2**31:
        return None
    return wrap(r, ta)


def same(x, y):
    return x == y or (x != x and y != y)


def compare_elements(r, exp, t, what):
    check(out(r).dtype == np.dtype(t), "result-type", lambda: "%s: result type %s" % (what, out(r).dtype))
    g = out(r)
    check(list(g.shape) == list(exp.shape) and r.shape() == list(exp.shape), "result-shape", lambda: "%s: shape %s / %s, expected %s" % (what, r.shape(), g.shape, exp.shape))
    for idx in np.ndindex(*exp.shape):
        e = exp[idx]
        if e is not None:
            check(same(g[idx].item(), e), "value", lambda: "%s: element %s is %r, expected %r" % (what, idx, g[idx].item(), e))


SHAPES = [((3,), (3,)), ((2, 3), (2, 3)), ((2, 3), (1, 3)), ((2, 3), (2, 1)), ((2, 3), (3,)), ((1, 3), (2, 3)), ((2, 2, 3), (2, 2, 3)), ((2, 3), (2, 2)), ((9,), (1,))]


def binary():
    op = pick(["add", "subtract", "multiply", "divide"], "op")
    sa, sb = pick(SHAPES, "shapes")
    ta, tb = pick(KINDS, "a type"), pick(KINDS, "b type")
    la = pick(LAYOUTS, "a layout")
    lb = pick(LAYOUTS, "b layout")
    ns = NS[(LAYOUTS.index(la) + LAYOUTS.index(lb)) % 2]
    x, y = numbers(ta, sa, 0), numbers(tb, sb, 2, op == "divide")
    a, b = laid(x, la, ns), laid(y, lb, ns)
    what = "%s(%s%s %s, %s%s %s)" % (op, ta.__name__, sa, la, tb.__name__, sb, lb)
    note(what)
    probe.step()
    r, err = attempt(lambda: getattr(ns, op)(a, b))
    try:
        os_ = np.broadcast_shapes(sa, sb)
    except ValueError:
        check(err is not None, "incompatible-shapes-accepted", what)
        return
    if err is not None:
        check(len(sa) != len(sb), "compatible-shapes-rejected", what + ": " + err)
        return
    X, Y = np.broadcast_to(x, os_), np.broadcast_to(y, os_)
    exp = np.empty(os_, dtype=object)
    for idx in np.ndindex(*os_):
        exp[idx] = element(op, X[idx], ta, Y[idx], tb)
    compare_elements(r, exp, ta, what)
    for v, w, l in ((a, x, la), (b, y, lb)):
        g = out(v) if l == "bland" else v
        check((g == w).all(), "operand-modified", what)
    writable(r)[...] = 9
    for v, w, l in ((a, x, la), (b, y, lb)):
        g = out(v) if l == "bland" else v
        check((g == w).all(), "result-shares-operand", what)
    probe.state(what)
    probe.outcome(repr(out(r).tolist()))


SCALARS = [0, 1, 2, -1, -3, 16, 250, 255, 256, 300, 70000, 2**31 - 1, -2**31, 2**31, 2**32 - 1, 0.0, 0.5, -2.25, 7.0, 1e10, -1e10]
ASCAL = ["add", "subtract", "multiply"]


def scalar():
    op = pick(ASCAL + ["less_than", "greater_than"], "op")
    t = pick(KINDS, "type")
    shape = pick([(7,), (2, 3), (2, 2, 2)], "shape")
    s = pick(SCALARS, "scalar")
    layout = pick(LAYOUTS, "layout")
    boxed = choose(3, "boxed")                # a Python number, a numpy scalar of the matching type, a numpy double
    v = s
    if boxed == 1:
        v = np.float32(s) if isinstance(s, float) else np.int32(s) if -2**31 <= s < 2**31 else np.int64(s)
    if boxed == 2:
        v = np.float64(s)
    ns = NS[LAYOUTS.index(layout) % 2]
    x = numbers(t, shape, 0)
    a = laid(x, layout, ns)
    what = "%s(%s%s %s, %r)" % (op, t.__name__, shape, layout, v)
    note(what)
    probe.step()
    r, err = attempt(lambda: getattr(ns, op)(a, v))
    integral = isinstance(s, int) and boxed != 2
    if err is not None:
        # an integer that has no C++ type of its own here may be refused, but nothing else
        check(integral and not -2**31 <= s < 2**31, "scalar-rejected", what + ": " + err)
        return
    exp = np.empty(shape, dtype=object)
    for idx in np.ndindex(*shape):
        e = int(x[idx]) if t is not F32 else float(x[idx])
        if op in ASCAL:
            exact = e + s if op == "add" else e - s if op == "subtract" else e * s
            if t is F32:
                fs = float(np.float32(s))
                exp[idx] = element(op, e, F32, fs, F32)
            else:
                # the true result whenever the result type holds it; a float operand is rounded to single precision first
                i = np.iinfo(t)
                tr = math.trunc(exact)
                small = abs(e) <= 2**24 and abs(s) <= 2**24 and abs(exact) <= 2**24
                exp[idx] = tr if i.min <= tr <= i.max and exact >= i.min and small else None
        else:
            lt = e < s if op == "less_than" else e > s
            exp[idx] = int(lt)
    compare_elements(r, exp, t if op in ASCAL else U8, what)
    g = out(a) if layout == "bland" else a
    check((g == x).all(), "operand-modified", what)
    probe.state(what)
    probe.outcome(repr(out(r).tolist()))


# every element type numpy has: either the right values come back or the call fails
DTYPES = ["float32", "float64", "float16", "int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64", "bool", "complex64", "complex128"]
REDUCE = ["max", "sum", "mean", "stddev", "var"]


def dtypes():
    d = np.dtype(pick(DTYPES, "dtype"))
    op = pick(["add", "add array", "multiply", "square", "less_than", "slice", "fft_shift_mag_square"] + REDUCE + ["mean_stddev", "median", "repr", "file", "to", "pickle"], "op")
    layout = pick(["contiguous", "transposed", "every other", "reversed"], "layout")
    ns = pick(NS, "module")
    x = (np.arange(6) % 5 + 1).astype(d).reshape(2, 3)
    if d == bool:
        x = np.array([[True, False, True], [False, False, True]])
    a = laid(x, layout)
    what = "%s of %s %s" % (op, d, layout)
    note(what)
    probe.step()
    axes = []
    calls = {"add": lambda: ns.add(a, 2.0), "add array": lambda: ns.add(a, a), "multiply": lambda: ns.multiply(a, 2), "square": lambda: ns.square(a),
             "less_than": lambda: ns.less_than(a, 3.0), "slice": lambda: ns.slice(a, 1, 0, 3, 2), "mean_stddev": lambda: ns.mean_stddev(a),
             "median": lambda: ns.median(a), "fft_shift_mag_square": lambda: None}
    if op in ("repr", "file", "to", "pickle", "fft_shift_mag_square"):
        probe.skip()
    f = calls.get(op) or (lambda: getattr(ns, op)(a))
    r, err = attempt(f)
    probe.outcome(what + str(err is None))
    if err is not None:
        check(d.name not in ("float32",), "float32-rejected", what + ": " + err)
        return
    X = x.astype(np.complex128 if d.kind == "c" else np.float64)
    exps = {"add": X + 2, "add array": X + X, "multiply": X * 2, "square": X * X, "less_than": (X.real < 3) * 1.0, "slice": X[:, 0:3:2], "max": [X.real.max()], "sum": [X.sum()],
            "mean": [X.mean()], "stddev": [X.std()], "var": [X.var()], "median": np.median(X.real), "mean_stddev": None}
    if op == "median":
        check(abs(r - exps[op]) < 1e-4, "value", "%s: %r" % (what, r))
        return
    got = [(r[0], [X.mean()]), (r[1], [X.std()])] if op == "mean_stddev" else [(r, exps[op])]
    for g, e in got:
        v = out(g)
        # averages of integers are integers of the operand's type, which says little about them
        ok = np.allclose(v.astype(np.complex128), np.asarray(e).astype(np.complex128), rtol=1e-4, atol=1e-5) or \
            (d.kind in "iu" and op in ("mean", "mean_stddev", "stddev", "var"))
        check(v.shape == np.asarray(e).shape and ok, "value", lambda: "%s gives %s, expected %s" % (what, v.tolist(), np.asarray(e).tolist()))


AXES = [None, [], [0], [1], [2], [0, 1], [1, 2], [0, 2], [0, 1, 2]]


def reductions():
    op = pick(REDUCE + ["mean_stddev", "median", "moment2", "moment3", "moment4", "masked_mean", "masked_stddev", "masked_mean_stddev"], "op")
    shape = pick([(5,), (2, 3), (1, 4), (4, 1), (2, 3, 2)], "shape")
    axes = pick([x for x in AXES if x is None or all(i < len(shape) for i in x)], "axes")
    layout = pick(LAYOUTS, "layout")
    kw = choose(2, "keyword")
    ns = NS[LAYOUTS.index(layout) % 2]
    x = numbers(F32, shape, 1)
    a = laid(x, layout, ns)
    masked = op.startswith("masked")
    m = np.zeros(shape, np.uint8)
    if masked:
        which = choose(3, "mask")
        layout_m = pick(LAYOUTS, "mask layout")
        for k in range(m.size):
            m.flat[k] = [0, 1 if k == 0 else 0, 16 * (k % 2)][which]
        mm = laid(m, layout_m, ns)
    what = "%s(%s%s, axes=%s, keyword=%d)" % (op, layout, shape, axes, kw) + (" mask %s" % m.tolist() if masked else "")
    note(what)
    probe.step()
    name = "standardized_moment" if op.startswith("moment") else op
    args = [a] + ([mm] if masked else []) + ([int(op[-1])] if op.startswith("moment") else [])
    if axes is not None:
        r, err = attempt(lambda: getattr(ns, name)(*args, axes=axes)) if kw else attempt(lambda: getattr(ns, name)(*args, axes))
    elif kw:
        names = ["a"] + (["m"] if masked else []) + (["degree"] if op.startswith("moment") else [])
        r, err = attempt(lambda: getattr(ns, name)(**dict(zip(names, args))))
    else:
        r, err = attempt(lambda: getattr(ns, name)(*args))
    X = np.ma.array(x.astype(np.float64), mask=m != 0)
    ax = tuple(axes) if axes else None
    if masked and bool(np.any(X.count(axis=ax) == 0)):
        check(err is not None, "mean-of-nothing", what)
        return
    check(err is None, "rejected", what + ": " + str(err))
    mean = np.asarray(X.mean(axis=ax)) if True else None
    std = np.asarray(X.std(axis=ax))
    if op == "median":
        check(axes is not None and axes != [] or abs(r - np.median(x)) < 1e-6, "value", "%s: %r" % (what, r))
        return
    if op.startswith("moment"):
        k = int(op[-1])
        with np.errstate(all="ignore"):
            d = X.data - X.data.mean(axis=ax, keepdims=True)
            n = X.size / max(1, np.asarray(X.data.mean(axis=ax)).size)
            u = n / (n - 1) if n > 1 else np.nan          # both moments carry the unbiased 1/(n-1)
            e = np.asarray(u * (d ** k).mean(axis=ax) / (u * (d * d).mean(axis=ax)) ** (k / 2.0))
        got = [(r, e)]
        if np.any(std == 0):
            return
    else:
        e = {"max": X.max(axis=ax), "sum": X.sum(axis=ax), "mean": mean, "masked_mean": mean, "stddev": std, "masked_stddev": std, "var": std ** 2}.get(op)
        got = [(r[0], mean), (r[1], std)] if "mean_stddev" in op else [(r, np.asarray(e))]
    for g, e in got:
        v = out(g)
        e = np.asarray(e)
        if e.shape == ():
            check(v.size == 1, "result-shape", what)
        else:
            check(v.shape == e.shape, "result-shape", lambda: "%s: %s, expected %s" % (what, v.shape, e.shape))
        check(np.allclose(v.reshape(e.shape), e, rtol=2e-5, atol=2e-4), "value", lambda: "%s: %s, expected %s" % (what, v.tolist(), e.tolist()))
    probe.state(what)
    probe.outcome(repr([out(g).tolist() for g, _ in got]))


def slices():
    shape = pick([(5,), (3, 4), (2, 3, 2)], "shape")
    t = pick(KINDS, "type")
    layout = pick(LAYOUTS, "layout")
    dim = choose(len(shape), "dim")
    n = shape[dim]
    start = choose(n, "start")
    end = start + 1 + choose(n - start, "end")
    stride = 1 + choose(3, "stride")
    form = choose(3 if stride == 1 else 2, "form")      # positional, keywords, default stride
    ns = NS[LAYOUTS.index(layout) % 2]
    x = numbers(t, shape, 0)
    a = laid(x, layout, ns)
    what = "slice(%s%s %s, %d, %d, %d, %d) form %d" % (t.__name__, shape, layout, dim, start, end, stride, form)
    note(what)
    probe.step()
    r, err = attempt([lambda: ns.slice(a, dim, start, end, stride), lambda: ns.slice(a, dim, start, end, stride=stride), lambda: ns.slice(a, dim, start, end)][form])
    check(err is None, "rejected", what + ": " + str(err))
    e = x[tuple(slice(start, end, stride) if d == dim else slice(None) for d in range(len(shape)))]
    g = out(r)
    check(g.shape == e.shape and g.dtype == e.dtype and (g == e).all(), "value", lambda: "%s gives %s, expected %s" % (what, g.tolist(), e.tolist()))
    writable(r)[...] = 3
    b = out(a) if layout == "bland" else a
    check((b == x).all(), "result-shares-operand", what)
    probe.state(what)
    probe.outcome(repr(g.tolist()))


class Model:
    """a bland array or a numpy view of one: which memory it shows and what it must contain"""
    def __init__(self, obj, kind, ref):
        self.obj, self.kind, self.ref = obj, kind, ref      # ref: numpy array owning/sharing the model memory


def lifetimes():
    """sequences of operations on a few arrays that share memory in the ways the interface allows"""
    ns = pick(NS, "module")
    t = pick([F32, U8], "type")
    depth = 5 if THOROUGH else 4
    x = numbers(t, (2, 3), 0)
    base = x.copy()
    pool = [Model(to_bland(ns, base), "bland", base)]
    hist = []
    for _ in range(depth):
        if not pool:
            break
        i = choose(len(pool), "which") if len(pool) > 1 else 0
        o = pool[i]
        ops = ["view", "add", "slice", "delete", "write", "pickle", "reshape", "copy", "stop"] if o.kind == "bland" else ["delete", "stop"]
        op = pick(ops, "op")
        if op == "stop":
            break
        probe.step()
        hist.append("%s %d" % (op, i))
        note(hist[-1])
        if op in ("view", "add", "slice", "pickle", "reshape", "copy") and len(pool) >= 3:
            probe.skip()
        if op == "view":
            v = out(o.obj)
            pool.append(Model(v, "view", o.ref))
        elif op == "add":
            pool.append(Model(ns.add(o.obj, 1), "bland", wrap_array(o.ref.astype(np.float64) + 1, t)))
        elif op == "slice":
            d = o.ref.ndim - 1
            pool.append(Model(ns.slice(o.obj, d, 1, o.ref.shape[d], 1), "bland", o.ref[..., 1:].copy()))
        elif op == "pickle":
            r, err = attempt(lambda: pickle.loads(pickle.dumps(o.obj)))
            check(err is None, "pickle-fails", "%s: %s" % (hist, err))
            pool.append(Model(r, "bland", o.ref.copy()))
        elif op == "copy":
            r, err = attempt(lambda: copy.deepcopy(o.obj))
            check(err is None, "deepcopy-fails", "%s: %s" % (hist, err))
            pool.append(Model(r, "bland", o.ref.copy()))
        elif op == "reshape":
            flat = o.ref.ndim == 1              # a new shape needs another number of dimensions
            r, err = attempt(lambda: o.obj.reshape([1, int(o.ref.size)] if flat else [int(o.ref.size)]))
            check(err is None, "reshape-fails", "%s: %s" % (hist, err))
            o.ref = o.ref.reshape((1, -1) if flat else (-1,))           # the array itself takes the new shape
            pool.append(Model(r, "bland", o.ref))
        elif op == "delete":
            del pool[i]
            o.obj = None
            gc.collect()
        elif op == "write":
            v = writable(o.obj)
            k = len(hist) + 20
            v[(0,) * v.ndim] = k
            o.ref[(0,) * o.ref.ndim] = k
            v = None
        for k, p in enumerate(pool):
            g = out(p.obj) if p.kind == "bland" else p.obj
            check(g.shape == p.ref.shape and (g == p.ref).all(), "history-value", lambda: "after %s array %d holds %s, expected %s" % (hist, k, g.tolist(), p.ref.tolist()))
            if p.kind == "bland":
                check(p.obj.shape() == list(p.ref.shape) and p.obj.numel() == p.ref.size and p.obj.ndim() == p.ref.ndim and p.obj.size(0) == p.ref.shape[0], "attributes", str(hist))
        probe.state(repr([(p.kind, p.ref.tolist()) for p in pool]))
    probe.outcome(repr(hist))


def wrap_array(v, t):
    if t is F32:
        return v.astype(F32)
    return (v.astype(np.int64) & 0xff).astype(U8)


def array_misc():
    """attributes, text, files, ranges, types and devices"""
    ns = pick(NS, "module")
    kind = pick(["attributes", "file", "arange", "linspace", "dtype", "device", "pickle", "square", "spectrum"], "kind")
    probe.step()
    if kind in ("attributes", "pickle", "square"):
        t = pick(KINDS, "type")
        shape = pick([(1,), (3,), (2, 3), (2, 1, 3), (0,), (2, 0)] if kind != "square" else [(3,), (2, 3)], "shape")
        x = numbers(t, shape, 0)
        a = to_bland(ns, x)
        if kind == "attributes":
            check(a.shape() == list(shape) and a.numel() == x.size and a.ndim() == x.ndim and [a.size(i) for i in range(x.ndim)] == list(shape), "attributes", str(shape))
            check(a.offsets() == [0] * x.ndim and (x.size == 0 or a.strides() == [s // x.itemsize for s in x.strides]), "attributes", "strides %s" % a.strides())
            d = a.dtype()
            check((d.code, d.bits, d.lanes) == ({"f": 2, "i": 0, "u": 1}[x.dtype.kind], x.itemsize * 8, 1), "dtype", repr(d))
            check(a.device().device_id == 0, "device", repr(a.device()))
            r, err = attempt(lambda: repr(a))
            check(err is None and isinstance(r, str), "repr", str(err))
            check(attempt(lambda: a.size(x.ndim))[1] is not None, "bad-axis", "size of a missing axis")
        elif kind == "pickle":
            proto = choose(pickle.HIGHEST_PROTOCOL - 1, "protocol") + 2
            r, err = attempt(lambda: pickle.loads(pickle.dumps(a, protocol=proto)))
            check(err is None, "pickle-fails", "%s %s: %s" % (t.__name__, shape, err))
            g = out(r)
            check(g.shape == x.shape and g.dtype == x.dtype and (g == x).all(), "pickle-value", lambda: "%s became %s" % (x.tolist(), g.tolist()))
            if x.size:
                writable(r)[...] = 1
            check((out(a) == x).all(), "pickle-shares", "writing to the copy changes the original")
        else:
            layout = pick(LAYOUTS, "layout")
            r, err = attempt(lambda: ns.square(laid(x, layout, ns)))
            if err is None:
                exp = np.empty(shape, dtype=object)
                for idx in np.ndindex(*shape):
                    exp[idx] = element("multiply", x[idx], t, x[idx], t)
                compare_elements(r, exp, t, "square(%s %s)" % (t.__name__, layout))
            else:
                check(t is not F32, "rejected", str(err))
    elif kind == "spectrum":
        n, whole, layout = pick([0, 1, 2, 5, 8], "length"), choose(2, "transform"), pick(LAYOUTS, "layout")
        t = pick(KINDS, "type")
        x = numbers(t, (n,), 0)
        r, err = attempt(lambda: (ns.fft if whole else ns.fft_shift_mag_square)(laid(x, layout, ns)))
        if t is not F32:
            check(err is not None, "spectrum-type", "a spectrum of %s" % t.__name__)
            return
        check(err is None, "rejected", str(err))
        want = np.fft.fft(x.astype(np.float64)) if n else np.zeros(0)
        if not whole:
            want = np.fft.fftshift(np.abs(want) ** 2)
        g = out(r)
        check(g.shape == (n,) and g.dtype == (np.complex64 if whole else F32), "spectrum-shape", "%s %s" % (g.shape, g.dtype))
        check(np.allclose(g, want, rtol=1e-5, atol=1e-3 * (1 if whole else 100)), "spectrum", lambda: "of %s is %s instead of %s" % (x.tolist(), g.tolist(), want.tolist()))
        check(attempt(lambda: ns.fft(numbers(F32, (2, 3), 0)))[1] is not None, "spectrum-shape", "of an array of two dimensions")
    elif kind == "file":
        t = pick(KINDS, "type")
        shape = pick([(1,), (3,), (2, 3), (2, 1, 3)], "shape")
        x = numbers(t, shape, 0)
        p = os.path.join(probe.scratch(), "array.bin")
        a = to_bland(ns, x)
        _, err = attempt(lambda: ns.write_to_file(a, p))
        check(err is None, "file", str(err))
        check(open(p, "rb").read() == x.tobytes(), "file-bytes", "%s" % x.tolist())
        r, err = attempt(lambda: ns.read_from_file(p, ns.ndarray.datatype({F32: "float32", I32: "int32", U8: "uint8", U32: "uint32"}[t])))
        check(err is None, "file", str(err))
        check(out(r).dtype == x.dtype and out(r).tolist() == x.reshape(-1).tolist(), "file-value", lambda: str(out(r).tolist()))
        check(attempt(lambda: ns.read_from_file(p + ".missing", ns.ndarray.datatype("float32")))[1] is not None, "missing-file", "no error")
    elif kind == "arange":
        s, e, st = pick([0.0, -2.0, 1.5], "start"), pick([3.0, 4.5], "end"), pick([1.0, 0.5, 0.75], "step")
        r, err = attempt(lambda: ns.arange(s, e, st))
        check(err is None, "rejected", str(err))
        check(np.allclose(out(r), np.arange(s, e, st)) and out(r).shape == np.arange(s, e, st).shape, "value", "arange(%g,%g,%g) = %s" % (s, e, st, out(r).tolist()))
    elif kind == "linspace":
        s, e, n = pick([0.0, -2.0], "start"), pick([3.0, 4.5], "end"), pick([1, 2, 5, 6], "n")
        r, err = attempt(lambda: ns.linspace(s, e, n))
        check(err is None, "rejected", str(err))
        check(np.allclose(out(r), np.linspace(s, e, n, endpoint=False)), "value", "linspace(%g,%g,%d) = %s" % (s, e, n, out(r).tolist()))
    elif kind == "dtype":
        name, code, bits = pick([("float", 2, 32), ("float32", 2, 32), ("float64", 2, 64), ("int8", 0, 8), ("int16", 0, 16), ("int32", 0, 32), ("int64", 0, 64), ("uint8", 1, 8),
                                 ("uint16", 1, 16), ("uint32", 1, 32), ("uint64", 1, 64), ("double", 2, 64), ("nonsense", None, None)], "name")
        d, err = attempt(lambda: ns.ndarray.datatype(name))
        if code is None:
            check(err is not None, "unknown-dtype", name)
        else:
            check(err is None and (d.code, d.bits, d.lanes) == (code, bits, 1), "dtype", name)
    else:
        name, typ, num = pick([("cpu", 1, 0), ("cuda", 2, 0), ("cuda:1", 2, 1), ("cudahost", 3, 0), ("cudamanaged", 13, 0), ("tpu", None, None)], "name")
        d, err = attempt(lambda: ns.ndarray.dev(name))
        if typ is None:
            check(err is not None, "unknown-device", name)
            return
        check(err is None and d.device_id == num, "device", name)
        a = ns.ndarray([2])
        writable(a)[...] = 3
        r, err = attempt(lambda: a.to(name))
        if name == "cpu":
            check(err is None and out(r).tolist() == [3, 3], "to-cpu", str(err))
        else:
            check(err is not None, "absent-device", name)


def leaks():
    """repeating an operation, successful or refused, leaves no memory behind"""
    ns = pick(NS, "module")
    op = pick(["add", "multiply scalar", "less_than", "slice", "mean", "mean_stddev", "masked_mean", "median", "standardized_moment", "square", "export", "pickle", "reshape", "dtype",
               "wrong shapes", "wrong axis", "wrong operand", "fill a coarse channel array"], "operation")
    layout = pick(LAYOUTS, "layout")
    n = 900
    a = laid(numbers(F32, (30, 30), 0), layout, ns)
    x = to_bland(ns, numbers(F32, (30, 30), 1))
    m = np.zeros((30, 30), np.uint8)
    bad = np.ones((7, 30), F32)
    f = {"add": lambda: ns.add(a, x), "multiply scalar": lambda: ns.multiply(a, 2.0), "less_than": lambda: ns.less_than(a, 1.0), "slice": lambda: ns.slice(a, 1, 2, 9, 2),
         "mean": lambda: ns.mean(a, [0]), "mean_stddev": lambda: ns.mean_stddev(a), "masked_mean": lambda: ns.masked_mean(a, m), "median": lambda: ns.median(a),
         "standardized_moment": lambda: ns.standardized_moment(a, 4), "square": lambda: ns.square(a), "export": lambda: out(x).sum(), "pickle": lambda: pickle.loads(pickle.dumps(x)),
         "reshape": lambda: x.reshape([900]), "dtype": lambda: ns.add(m, 1), "wrong shapes": lambda: ns.add(a, bad), "wrong axis": lambda: ns.mean(a, [5]),
         "wrong operand": lambda: ns.add(a, "x"), "fill a coarse channel array": lambda: ns.add(np.zeros((30, 30), np.complex64), a)}[op]
    what = "%s (%s)" % (op, layout)
    note(what)
    probe.step()
    grown = []
    for times in (5, 20, 20):
        before = probe.allocated()
        for _ in range(times):
            refused = attempt(f)[1] is not None
        gc.collect()
        grown.append(probe.allocated() - before)
    # a lost shape is tens of bytes per call and a lost array n * 4; the interpreter's own error texts come and go in between
    check(min(grown[1:]) < 20 * (n * 2 if refused else 64), "memory-kept", "%s: 20 repetitions keep %s bytes (an array is %d bytes)" % (what, grown[1:], n * 4))
    probe.state(what)
    probe.outcome(what)


Y01 = ["binary", "scalar", "dtypes", "reductions", "slices", "lifetimes", "array_misc", "leaks"]


# ------------------------------------------------------------------------------------------------ Y02: the search
B, DS, IO, EST, FL, PRE = pybliss, pybliss.drift_search, pybliss.io, pybliss.estimators, pybliss.flaggers, pybliss.preprocess
FV = FL.flag_values
FLAGS = [(FV.unflagged, 0), (FV.filter_rolloff, 1), (FV.low_spectral_kurtosis, 2), (FV.high_spectral_kurtosis, 4), (FV.magnitude, 16), (FV.sigma_clip, 32)]
FLAG_NUMBER = dict(FLAGS)
META = ["fch1", "foff", "machine_id", "nbits", "nchans", "source_name", "src_dej", "src_raj", "telescope_id", "tsamp", "tstart", "data_type", "az_start", "za_start"]
HIT_INTS = ["start_freq_index", "rate_index", "time_span_steps", "binwidth"]
HIT_FLOATS = ["start_freq_MHz", "start_time_sec", "duration_sec", "drift_rate_Hz_per_sec", "power"]
HIT_SINGLES = ["snr", "bandwidth"]
T_, N_, COARSE = 4, 32, 16


def observed(which):
    """samples with two tones: one steady, one drifting by one channel per spectrum, on a bumpy floor"""
    d = []
    for t in range(T_):
        for c in range(N_):
            v = 10.0 + (3 * c + 5 * t + which) % 7 + (c % COARSE) * 0.25
            if c == 5 + which % 3:
                v += 400
            if c == 20 + t:
                v += 300 + 20 * which
            if (t, c) == (1, 11) or (t, c) == (2, 28):
                v += 5000
            d.append(v)
    return d


SOURCES = ["Voyager-1", "HIP 1", "Voyager-1", "HIP 22"]


def recording(which=0):
    return probe.h5("py%d" % which, T_, N_, 1024.0, -0.25, 2.0, 60000.5 + which, SOURCES[which], observed(which))


def same(a, b):
    """equal, where every nan equals every other"""
    return repr(a) == repr(b)


def first_difference(a, b, path=""):
    if isinstance(a, dict) and isinstance(b, dict):
        for k in sorted(set(a) | set(b), key=str):
            if k not in a or k not in b:
                return path + "." + str(k) + " missing"
            if not same(a[k], b[k]):
                return first_difference(a[k], b[k], path + "." + str(k))
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and len(a) == len(b):
        for k in range(len(a)):
            if not same(a[k], b[k]):
                return first_difference(a[k], b[k], path + "[%d]" % k)
    return "%s: %s and %s" % (path, str(a)[:200], str(b)[:200])


def check_same(got, want, key, what):
    if not same(got, want):
        fail(key, "%s: %s" % (what() if callable(what) else what, first_difference(got, want)))


def py_array(a):
    v = out(a)
    names = {"float32": "f32", "uint8": "u8", "int32": "i32", "uint32": "u32"}
    return dict(shape=list(v.shape), dtype=names[v.dtype.name], values=[float(x) for x in v.ravel()])


def py_hit(h):
    d = {k: getattr(h, k) for k in HIT_INTS + HIT_FLOATS + HIT_SINGLES}
    d["rfi_counts"] = {FLAG_NUMBER.get(k, k): v for k, v in h.rfi_counts.items()}
    return d


def visible(h):
    """the part of probe.hit_dict that the bindings show"""
    return {k: h[k] for k in HIT_INTS + HIT_FLOATS + HIT_SINGLES + ["rfi_counts"]}


def meta(o):
    return {k: getattr(o, k) for k in META}


def py_channel(c, noise, plane, hits):
    d = meta(c)
    d["data"], d["mask"] = py_array(c.data), py_array(c.mask)
    if noise:
        n = c.noise_estimate
        d["noise"] = dict(noise_floor=n.noise_floor, noise_power=n.noise_power, noise_amplitude=n.noise_amplitude)
    if plane:
        p = c.integrated_drift_plane()
        f = p.integrated_rfi
        d["plane"] = dict(plane=py_array(p.integrated_drifts), low=py_array(f.low_spectral_kurtosis), high=py_array(f.high_spectral_kurtosis), rolloff=py_array(f.filter_rolloff),
                          rates=[dict(index_in_plane=r.index_in_plane, drift_rate_slope=r.drift_rate_slope, drift_rate_Hz_per_sec=r.drift_rate_Hz_per_sec,
                                      desmeared_bins=r.desmeared_bins) for r in p.drift_rate_info()])
    if hits:
        d["hits"] = [py_hit(h) for h in c.hits]
    return d


def order(d):
    """dictionaries with their keys sorted, so that repr compares them"""
    if isinstance(d, dict):
        return {k: order(d[k]) for k in sorted(d, key=str)}
    if isinstance(d, list):
        return [order(x) for x in d]
    return d


def channel_views(c, done):
    """a channel seen from C++ and from Python"""
    flags = ("noise" in done, "plane" in done, "hits" in done)
    w = probe.cc(c, *flags)
    full = order(w)
    if "hits" in w:
        w["hits"] = [visible(h) for h in w["hits"]]
    g = order(py_channel(c, *flags))
    check_same(g, order(w), "attributes", "the channel's attributes and its C++ values")
    return full


def views(o, kind, done):
    if kind == "channel":
        return channel_views(o, done)
    if kind == "scan":
        m = probe.scan_meta(o)
        g = meta(o)
        g["num_coarse_channels"], g["file_path"] = o.num_coarse_channels, o.get_file_path()
        check_same(order(g), order(m), "attributes", "the scan's attributes and its C++ values")
        d = dict(meta=order(m), channels=[channel_views(o.read_coarse_channel(i), done) for i in range(o.num_coarse_channels)])
        if "hits" in done:
            hs = probe.scan_hits(o)
            check_same([order(py_hit(h)) for h in o.hits()], [order(visible(h)) for h in hs], "attributes", "hits of the scan")
            d["hits"] = order(hs)
        return d
    if kind == "observation":
        return dict(name=o.target_name, n=o.number_coarse_channels, scans=[views(s, "scan", done) for s in o.scans])
    return dict(n=o.number_coarse_channels, observations=[views(x, "observation", done) for x in o.observations])


def both_views(o, p, kind, done):
    """the views of two objects; an error that a postponed stage reports counts as the view"""
    (a, ea), (b, eb) = attempt(lambda: views(o, kind, done)), attempt(lambda: views(p, kind, done))
    for e in (ea, eb):
        check(e is None or e.startswith("RuntimeError"), "attributes", str(e))
    return (a, b) if ea is None and eb is None else (ea, eb)


KINDS2 = ["channel", "scan", "observation", "cadence"]


def pair(kind, form=0):
    """the same object made through Python and through C++"""
    f = [recording(k) for k in range(4)]
    if kind == "channel":
        return B.scan(f[1], COARSE).read_coarse_channel(1), probe.channel(probe.open_scan(f[1], COARSE), 1)
    if kind == "scan":
        return B.scan(f[0], COARSE), probe.open_scan(f[0], COARSE)
    if kind == "observation":
        p = probe.open_observation([f[0], f[2]], COARSE)
        if form == 0:
            return B.observation_target([f[0], f[2]], COARSE), p
        return B.observation_target(scans=[B.scan(f[0], COARSE), B.scan(f[2], COARSE)]), p
    p = probe.open_cadence([[f[0], f[2]], [f[1]]], COARSE)
    if form == 0:
        return B.cadence([[f[0], f[2]], [f[1]]], COARSE), p
    return B.cadence(observations=[B.observation_target([f[0], f[2]], COARSE), B.observation_target(scan_files=[f[1]], fine_channels_per_coarse=COARSE)]), p


def opening():
    """every way to open recordings; the metadata of every level"""
    kind = pick(["scan", "observation", "cadence"], "kind")
    per = pick([8, 16, 32] if THOROUGH else [8, 16], "per")
    form = choose({"scan": 3, "observation": 4, "cadence": 3}[kind], "form")
    f = [recording(k) for k in range(4)]
    k = choose(4 if THOROUGH else 2, "file")
    g = f[k:] + f[:k]
    probe.step()
    if kind == "scan":
        p = probe.open_scan(g[0], per)
        o, err = attempt([lambda: B.scan(g[0], per), lambda: B.scan(g[0], fine_channels_per_coarse=per), lambda: B.scan(file_path=g[0], fine_channels_per_coarse=per)][form])
    elif kind == "observation":
        p = probe.open_observation(g[:2], per)
        o, err = attempt([lambda: B.observation_target(g[:2], per), lambda: B.observation_target(scan_files=g[:2], fine_channels_per_coarse=per),
                          lambda: B.observation_target([B.scan(x, per) for x in g[:2]]), lambda: B.observation_target(scans=[probe.open_scan(x, per) for x in g[:2]])][form])
    else:
        p = probe.open_cadence([g[:2], g[2:3]], per)
        o, err = attempt([lambda: B.cadence([g[:2], g[2:3]], per), lambda: B.cadence(scan_files=[g[:2], g[2:3]], fine_channels_per_coarse=per),
                          lambda: B.cadence(observations=[B.observation_target(g[:2], per), B.observation_target(g[2:3], per)])][form])
    check(err is None, "open-rejected", "%s form %d: %s" % (kind, form, err))
    a, b = views(o, kind, ()), views(p, kind, ())
    check_same(a, b, "opened", "%s form %d of %d channels against the C++ object" % (kind, form, per))
    s = o if kind == "scan" else o.scans[0] if kind == "observation" else o.observations[0].scans[0]
    known = dict(fch1=1024.0, foff=-0.25, machine_id=17, nbits=32, nchans=N_, source_name=SOURCES[k], src_dej=-12.25, src_raj=5.5, telescope_id=6, tsamp=2.0,
                 tstart=60000.5 + k, data_type=1, az_start=33.5, za_start=44.25)
    check_same(order(meta(s)), order(known), "metadata", "of the first scan against the file")
    check(s.num_coarse_channels == N_ // per and s.get_file_path() == g[0], "metadata", "channels or path")
    i = choose(N_ // per, "channel")
    c = s.read_coarse_channel(i)
    known.update(nchans=per, fch1=known["fch1"] - 0.25 * per * i)
    check_same(order(meta(c)), order(known), "metadata", "of channel %d against the file" % i)
    e = np.array(observed(k), dtype=F32).reshape(T_, N_)[:, per * i:per * (i + 1)]
    check((out(c.data) == e).all() and out(c.data).dtype == F32 and (out(c.mask) == 0).all(), "channel-data", "channel %d" % i)
    at = known["fch1"] - 0.25 * pick([0, per // 2, per - 1] if THOROUGH else [0, per - 1], "at")
    for q in (o, s):
        r, err = attempt([lambda: q.get_coarse_channel_with_frequency(at), lambda: q.get_coarse_channel_with_frequency(frequency=at)][form % 2])
        check(err is None and r == i, "frequency", "%s of %g is %s (%s), expected %d" % (kind, at, r, err, i))
    j = choose(N_ // per, "slice")
    rest = N_ // per - j
    n = pick(range(1, rest + 1) if THOROUGH else sorted({1, rest}), "count")
    m = dict(scan="slice_scan_channels", observation="slice_observation_channels", cadence="slice_cadence_channels")[kind]
    r, err = attempt(lambda: getattr(o, m)(j, n) if form % 2 == 0 else getattr(o, m)(start=j, count=n))
    check(err is None, "slice-rejected", str(err))
    w = {"scan": lambda: p.slice_scan_channels(j, n), "observation": lambda: p.slice_observation_channels(j, n), "cadence": lambda: p.slice_cadence_channels(j, n)}[kind]()
    a, b = views(r, kind, ()), views(w, kind, ())
    check_same(a, b, "sliced", "%s channels %d+%d" % (kind, j, n))
    first = r if kind == "scan" else r.scans[0] if kind == "observation" else r.observations[0].scans[0]
    check(first.num_coarse_channels == n and out(first.read_coarse_channel(0).data)[0, 0] == np.float32(observed(k)[per * j]), "sliced", "first channel of %s" % kind)
    d, err = attempt(lambda: (o.set_device("cpu"), o.set_device(o.device()), o.set_device("cpu", verbose=False), o.device().device_id))
    check(err is None and d[3] == 0, "device", str(err))
    probe.state(repr(a))
    probe.outcome(repr((kind, per, i, j, n)))


def drift_options(desmear=None, low=None, high=None, step=None):
    o = B.integrate_drifts_options()
    for k, v in (("desmear", desmear), ("low_rate", low), ("high_rate", high), ("rate_step_size", step)):
        if v is not None:
            setattr(o, k, v)
    return o


def search_options(method=None, snr=None, l1=None):
    o = DS.hit_search_options()
    for k, v in (("method", method), ("snr_threshold", snr), ("neighbor_l1_dist", l1)):
        if v is not None:
            setattr(o, k, v)
    return o


def noise_options(method=None, masked=None):
    o = EST.noise_power_estimate_options()
    if method is not None:
        o.estimator_method = method
    if masked is not None:
        o.masked_estimate = masked
    return o


def filter_options(zero):
    o = DS.filter_options()
    o.filter_zero_drift = zero
    return o


RESPONSE = [0.5 + ((7 * k) % 5) / 4.0 for k in range(COARSE)]


def response_array():
    return to_bland(pybliss.bland, np.array(RESPONSE, dtype=F32))


def response_file():
    p = os.path.join(probe.scratch(), "response_%d.f32" % COARSE)
    if not os.path.exists(p):
        np.array(RESPONSE, dtype=F32).tofile(p)
    return p


ARG = dict(channel="cc_data", scan="scan", observation="observation", cadence="cadence")
EQ_ARG = dict(channel="coarse_channel", scan="scan", observation="observation_target", cadence="cadence")
CC, LM = DS.hit_search_methods.connected_components, DS.hit_search_methods.local_maxima
STD, MAD = EST.noise_power_estimator.stddev, EST.noise_power_estimator.mad
# every stage: what it needs, what it leaves, and the ways to call it, with what C++ should be given
STAGES = {
    "normalize": ((), (), lambda k: [(lambda o: PRE.normalize(o), [])]),
    "flag_filter_rolloff": ((), (), lambda k: [(lambda o: FL.flag_filter_rolloff(o, 0.125), [0.125]), (lambda o: FL.flag_filter_rolloff(o, rolloff_width=0.25), [0.25]),
                                               (lambda o: FL.flag_filter_rolloff(**{ARG[k]: o, "rolloff_width": 0.125}), [0.125])]),
    "flag_spectral_kurtosis": ((), (), lambda k: [(lambda o: FL.flag_spectral_kurtosis(o, 0.05, 25.0), [0.05, 25, 2]), (lambda o: FL.flag_spectral_kurtosis(o, 0.5, 10.0, 4.0), [0.5, 10, 4]),
                                                  (lambda o: FL.flag_spectral_kurtosis(**{ARG[k]: o, "upper_threshold": 1000.0, "lower_threshold": 300.0, "d": 1.5}), [300, 1000, 1.5]),
                                                  (lambda o: FL.flag_spectral_kurtosis(**{ARG[k]: o, "lower_threshold": -1e6, "upper_threshold": 1e9}), [-1e6, 1e9, 2])]),
    "flag_sigmaclip": ((), (), lambda k: [(lambda o: FL.flag_sigmaclip(o), [3, 4, 4]), (lambda o: FL.flag_sigmaclip(o, 1, 2.0, 3.0), [1, 2, 3]),
                                          (lambda o: FL.flag_sigmaclip(**{ARG[k]: o, "upper_threshold": 1.5}), [3, 4, 1.5]), (lambda o: FL.flag_sigmaclip(o, lower_threshold=0.5), [3, 0.5, 4]),
                                          (lambda o: FL.flag_sigmaclip(o, max_iter=2, upper_threshold=2.5, lower_threshold=1.25), [2, 1.25, 2.5])]),
    "flag_magnitude": ((), (), lambda k: [(lambda o: FL.flag_magnitude(o), []), (lambda o: FL.flag_magnitude(**{ARG[k]: o}), [])]),
    "equalize": ((), (), lambda k: [(lambda o: PRE.equalize_passband_filter(o, response_array()), []), (lambda o: PRE.equalize_passband_filter(**{EQ_ARG[k]: o, "response": response_array()}), []),
                                    (lambda o: PRE.equalize_passband_filter(o, response_file()), []), (lambda o: PRE.equalize_passband_filter(o, response_path=response_file()), []),
                                    (lambda o: PRE.equalize_passband_filter(o, response_file(), pybliss.bland.ndarray.datatype("float32")), [])]),
    "estimate_noise_power": ((), ("noise",), lambda k: [(lambda o: EST.estimate_noise_power(o, noise_options()), None), (lambda o: EST.estimate_noise_power(o, noise_options(STD, True)), [0, 1]),
                                                        (lambda o: EST.estimate_noise_power(o, noise_options(STD, False)), [0, 0])]),
    "integrate_drifts": ((), ("plane",), lambda k: [(lambda o: DS.integrate_drifts(o, drift_options(True, -3, 4)), [1, -3, 4, 1]), (lambda o: DS.integrate_drifts(o, drift_options(False, -6, 7, 2)), [0, -6, 7, 2]),
                                                    (lambda o: DS.integrate_drifts(o, drift_options(low=-9, high=2)), [1, -9, 2, 1])]),
    "hit_search": (("noise", "plane"), ("hits",), lambda k: [(lambda o: DS.hit_search(o, search_options(CC, 2.0, 2)), [0, 2, 2]), (lambda o: DS.hit_search(o, search_options(snr=1.0)), [0, 1, 7]),
                                                            (lambda o: DS.hit_search(o, search_options(l1=1, snr=3.0)), [0, 3, 1])]),
    "filter_hits": (("hits",), (), lambda k: [(lambda o: DS.filter_hits(o, filter_options(True)), [1]), (lambda o: DS.filter_hits(o, filter_options(False)), [0])]),
}
DEFAULT_NOISE = None


def do_stage(name, kind, form, o, p, done, hist):
    """one stage through Python on o and through C++ on p: the results, compared"""
    needs, leaves, forms = STAGES[name]
    call, params = forms(kind)[form]
    if params is None:
        d = probe.options(noise_options())
        params = [d["estimator_method"], int(d["masked_estimate"])]
    hist.append("%s %d" % (name, form))
    note(hist[-1])
    probe.step()
    r, err = attempt(lambda: call(o))
    q, perr = attempt(lambda: probe.stage(p, name, [float(x) for x in params], response_array() if name == "equalize" else None))
    check((err is None) == (perr is None), "stage-error", lambda: "%s %s: python %s, C++ %s" % (kind, hist, err, perr))
    if err is not None:
        return None
    if name == "estimate_noise_power" and kind == "channel":
        n = probe.cc(q, True, False, False)["noise"]
        g = dict(noise_floor=r.noise_floor, noise_power=r.noise_power, noise_amplitude=r.noise_amplitude)
        check_same(order(g), order(n), "stage-value", "%s of a channel" % hist)
        return q, q, done + ["noise"]
    return r, q, done + [x for x in leaves if x not in done]


def stage_sequences():
    """each stage in every form on every kind of object, alone and followed by every other stage"""
    kind = pick(KINDS2, "kind")
    depth = 2
    form = choose(2, "made") if kind in ("observation", "cadence") else 0
    o, p = pair(kind, form)
    hist, done = [], []
    names = [n for n in STAGES if not (kind == "channel" and n == "hit_search")]
    for k in range(depth):
        name = pick(names, "stage")
        if k == 1 and name == "stop":
            break
        if any(x not in done for x in STAGES[name][0]):
            probe.skip()
        every = THOROUGH or k == 0 or kind in ("channel", "scan")
        r = do_stage(name, kind, choose(len(STAGES[name][2](kind)), "form") if every else 0, o, p, done, hist)
        if r is None:
            return
        before = (o, p, list(done))
        o, p, done = r
        if k == 0:
            names = names + ["stop"]
    a, b = both_views(o, p, kind, done)
    check_same(a, b, "stage-value", lambda: "%s %s through Python and C++" % (kind, hist))
    a, b = both_views(before[0], before[1], kind, before[2])
    check_same(a, b, "stage-argument", lambda: "%s %s: what is left in the argument" % (kind, hist))
    probe.state(repr(a))
    probe.outcome(repr(hist))


PIPELINE = ["normalize", "equalize", "flag_filter_rolloff", "flag_spectral_kurtosis", "flag_sigmaclip", "flag_magnitude", "estimate_noise_power", "integrate_drifts", "hit_search", "filter_hits"]


def pipeline():
    """the whole search: each optional stage left out or in any form, up to a number of departures from the plain search"""
    kind = pick(KINDS2[1:], "kind")
    probe.bound(4 if THOROUGH else 2 if kind == "scan" else 1)
    o, p = pair(kind)
    hist, done = [], []
    for name in PIPELINE:
        forms = STAGES[name][2](kind)
        must = name in ("estimate_noise_power", "integrate_drifts", "hit_search")
        k = probe.deviate(len(forms) + (0 if must else 1), name)
        if not must:
            k -= 1
            if k < 0:
                continue
        r = do_stage(name, kind, k, o, p, done, hist)
        if r is None:
            return
        o, p, done = r
    a, b = both_views(o, p, kind, done)
    check_same(a, b, "pipeline-value", lambda: "%s %s through Python and C++" % (kind, hist))
    if isinstance(a, str):
        return
    probe.state(repr(a))
    probe.outcome(repr(hist))
    if kind == "cadence":
        r, err = attempt(lambda: DS.event_search(o))
        q, perr = attempt(lambda: probe.events(p))
        check((err is None) == (perr is None), "events-error", "%s, %s" % (err, perr))
        if err is None:
            check_same([order(probe.event_dict(e)) for e in r], [order(probe.event_dict(e)) for e in q], "events", lambda: str(hist))
            for e in r:
                d = probe.event_dict(e)
                g = {k: getattr(e, k) for k in d if k != "hits"}
                g["hits"] = [py_hit(h) for h in e.hits]
                d["hits"] = [visible(h) for h in d["hits"]]
                check_same(order(g), order(d), "attributes", "of an event")
    elif kind == "scan":
        l, err = attempt(lambda: DS.filter_hits(o.hits(), filter_options(True)))
        check(err is None, "filter-list", str(err))
        check_same([order(py_hit(h)) for h in l], [order(visible(h)) for h in probe.filter_list(o.hits(), True)], "filter-list", lambda: str(hist))


OPTIONS = [
    (B.integrate_drifts_options, dict(desmear=[True, False], low_rate=[-64, -3, 0, 5], high_rate=[64, 3, 0], rate_step_size=[1, 2, 5])),
    (DS.hit_search_options, dict(method=[CC, LM], snr_threshold=[10.0, 2.5, 0.0], neighbor_l1_dist=[7, 1, 0])),
    (EST.noise_power_estimate_options, dict(estimator_method=[STD, MAD], masked_estimate=[True, False])),
    (DS.filter_options, dict(filter_zero_drift=[True, False])),
]
ENUMS = {id(CC): 0}


def number(v):
    for k, n in ((CC, 0), (LM, 1), (STD, 0), (MAD, 1)):
        if v == k and type(v) is type(k):
            return n
    return v


def options():
    """options objects: every assignment sequence reaches exactly the named member"""
    cls, fields = OPTIONS[choose(len(OPTIONS), "class")]
    o, other = cls(), cls()
    model = probe.options(cls())
    for k in fields:
        check(number(getattr(o, k)) == model[k], "option-default", k)
    names = sorted(fields)
    for _ in range(3 if THOROUGH else 2):
        k = pick(names, "field")
        v = pick(fields[k], "value")
        setattr(o, k, v)
        model[k] = number(v)
        probe.step()
        check_same(order(probe.options(o)), order(model), "option-value", "after setting %s to %s" % (k, v))
        check_same({n: number(getattr(o, n)) for n in names}, {n: model[n] for n in names}, "option-value", "read back after setting %s to %s" % (k, v))
        check_same(order(probe.options(other)), order(probe.options(cls())), "option-shared", "setting %s changed another object" % k)
    r, err = attempt(lambda: setattr(o, names[0], "text"))
    check(err is not None, "option-type", names[0])
    probe.state(repr((cls.__name__, order(model))))
    probe.outcome(repr((cls.__name__, order(model))))


HIT0 = dict(start_freq_index=7, start_freq_MHz=1023.875, start_time_sec=5.18e9, duration_sec=8.5, rate_index=2, drift_rate_Hz_per_sec=-0.25, power=1.5e6, time_span_steps=4, snr=12.5,
            bandwidth=2.5, binwidth=3, coarse_channel_number=1, rfi_counts={1: 2, 4: 1})
HIT_VALUES = dict(start_freq_index=[0, -1, 2**40], start_freq_MHz=[0.0, 8419.2970320000001], start_time_sec=[0.0, 5184000000.125], duration_sec=[0.0, 300.25], rate_index=[0, -3, 2**40],
                  drift_rate_Hz_per_sec=[0.0, -0.38281250001, 4.0], power=[0.0, 2.0**70, float("inf")], time_span_steps=[0, 16], snr=[0.0, 2.0**100, float("nan")], bandwidth=[0.0, 2794.5], binwidth=[1, 0, 2**33],
                  coarse_channel_number=[0, 63], rfi_counts=[{}, {0: 1}, {1: 255, 2: 3, 4: 7, 16: 9, 32: 11}])


def a_hit(tag="hit", n=1, stored=False):
    """a hit with up to n members of unusual value"""
    d = dict(HIT0)
    for _ in range(n):
        k = pick(["none"] + list(HIT_VALUES), tag)
        if k == "none":
            break
        d[k] = pick([v for v in HIT_VALUES[k] if not stored or k in ("start_freq_MHz", "drift_rate_Hz_per_sec", "start_time_sec", "rfi_counts") or abs(v) < 2**31 or v != v], "value")
    return d, probe.hit(d)


def hits():
    """hit objects: attributes, assignments, copies and pickles"""
    d, h = a_hit(n=2 if THOROUGH else 1)
    check_same(order(py_hit(h)), order(visible(d)), "hit-attributes", "against the C++ hit")
    kept = dict(d)
    what = pick(["assign", "pickle", "copy", "deepcopy", "list", "repr"], "what")
    probe.step()
    if what == "assign":
        k = pick([x for x in HIT_VALUES if x != "coarse_channel_number"], "field")
        v = pick(HIT_VALUES[k], "value")
        r, err = attempt(lambda: setattr(h, k, v if k != "rfi_counts" else {f: v[n] for f, n in FLAGS if n in v}))
        check(err is None, "assignment-rejected", "%s=%s: %s" % (k, v, err))
        d[k] = v
        check_same(order(probe.hit_dict(h)), order(d), "hit-assignment", "%s=%s" % (k, v))
        check_same(order(py_hit(h)), order(visible(d)), "hit-assignment", "%s=%s read back" % (k, v))
    elif what in ("pickle", "copy", "deepcopy"):
        f = dict(pickle=lambda: pickle.loads(pickle.dumps(h)), copy=lambda: copy.copy(h), deepcopy=lambda: copy.deepcopy(h))[what]
        r, err = attempt(f)
        check(err is None, "hit-copy-rejected", "%s: %s" % (what, err))
        g = probe.hit_dict(r)
        g["rfi_counts"] = d["rfi_counts"]          # the state has no flag counts
        check_same(order(g), order(d), "hit-copy", what)
        h.power = 77.0
        check(repr(r.power) == repr(d["power"]), "hit-copy", "%s shares members with its original" % what)
    elif what == "list":
        l, err = attempt(lambda: DS.filter_hits([h, h], filter_options(bool(choose(2, "zero")))))
        check(err is None, "filter-rejected", str(err))
    else:
        r, err = attempt(lambda: repr(h))
        check(err is None and "hit" in r, "hit-text", str(err))
    check(d == d, "unchanged", "")
    probe.state(repr(order(d)))
    probe.outcome(repr((what, order(d))))


def events_objects():
    """event objects: attributes, assignments, text, copies"""
    n = choose(3, "hits")
    ds = [dict(HIT0, start_freq_index=k, snr=float(k + 1)) for k in range(n)]
    vals = [8419297032.125, 2.5, 3.5, 4.5, -0.125, 5.18e9, 5.18e9 + 300]
    names = ["starting_frequency_Hz", "average_power", "average_bandwidth", "average_snr", "average_drift_rate_Hz_per_sec", "event_start_seconds", "event_end_seconds"]
    e = probe.event([probe.hit(d) for d in ds], vals)
    want = dict(zip(names, vals))
    want["hits"] = ds
    what = pick(["assign", "hits", "repr", "pickle", "copy", "deepcopy", "file"], "what")
    probe.step()
    check_same(order({k: getattr(e, k) for k in names}), order({k: want[k] for k in names}), "event-attributes", "against the C++ event")
    check_same([order(py_hit(h)) for h in e.hits], [order(visible(d)) for d in ds], "event-attributes", "hits")
    if what == "assign":
        k = pick(names, "field")
        v = pick([0.0, -1.25, 1048576.5], "value")
        setattr(e, k, v)
        want[k] = v
    elif what == "hits":
        m = choose(3, "new hits")
        ds = [dict(HIT0, start_freq_index=40 + k) for k in range(m)]
        r, err = attempt(lambda: setattr(e, "hits", [probe.hit(d) for d in ds]))
        check(err is None, "assignment-rejected", str(err))
        want["hits"] = ds
    elif what == "repr":
        r, err = attempt(lambda: repr(e))
        check(err is None and "%d" % n in r, "event-text", "%s %s" % (r, err))
    elif what == "file":
        p = os.path.join(probe.scratch(), "pyev.cp")
        r, err = attempt(lambda: IO.write_events_to_file([e] * (1 + choose(2, "number")), p))
        check(err is None, "write-rejected", str(err))
        r, err = attempt(lambda: IO.read_events_from_file(p))
        q = probe.read_events(p)
        check(err is None and len(r) == len(q), "events-file", str(err))
        check_same([order(probe.event_dict(x)) for x in r], [order(probe.event_dict(x)) for x in q], "events-file", "read through Python and C++")
        for x in r:
            g = [dict(probe.hit_dict(h), rfi_counts={}) for h in x.hits]
            check_same([order(h) for h in g], [order(dict(d, rfi_counts={})) for d in ds], "events-file", "hits read back")
    else:
        f = dict(pickle=lambda: pickle.loads(pickle.dumps(e)), copy=lambda: copy.copy(e), deepcopy=lambda: copy.deepcopy(e))[what]
        r, err = attempt(f)
        check(err is None, "event-copy-rejected", "%s: %s" % (what, err))
        g, w = probe.event_dict(r), dict(want)
        g["hits"] = [dict(x, rfi_counts={}) for x in g["hits"]]
        w["hits"] = [dict(x, rfi_counts={}) for x in w["hits"]]
        check_same(order(g), order(w), "event-copy", what)
    check_same(order(probe.event_dict(e)), order(want), "event-value", what)
    probe.state(repr(order(want)))
    probe.outcome(repr((what, n)))


def flags():
    """the flag values: the same numbers as in C++, copied and pickled as themselves"""
    f, n = FLAGS[choose(len(FLAGS), "flag")]
    what = pick(["number", "pickle", "copy", "deepcopy", "dict"], "what")
    probe.step()
    check(probe.flag(f) == n, "flag-number", "%s is %d" % (f, n))
    if what == "number":
        for g, m in FLAGS:
            check((f == g) == (n == m), "flag-equality", "%s %s" % (f, g))
    elif what == "dict":
        h = probe.hit(dict(HIT0, rfi_counts={n: 5}))
        check(h.rfi_counts == {f: 5}, "flag-key", str(h.rfi_counts))
    else:
        r, err = attempt(dict(pickle=lambda: pickle.loads(pickle.dumps(f)), copy=lambda: copy.copy(f), deepcopy=lambda: copy.deepcopy(f))[what])
        check(err is None, "flag-copy-rejected", "%s: %s" % (what, err))
        check(r == f and probe.flag(r) == n, "flag-copy", "%s of %s is %s" % (what, f, r))
        check(all(probe.flag(g) == m for g, m in FLAGS), "flag-copy", "%s of %s changed the flags" % (what, f))
    probe.outcome(repr((n, what)))


def files():
    """hits written by Python and read by C++, and the other way round"""
    kind = pick(["hits", "scan", "observation", "cadence", "missing", "unwritable"], "kind")
    writer, reader = pick(["python", "c++"], "writer"), pick(["python", "c++"], "reader")
    base = os.path.join(probe.scratch(), "pyio")
    probe.step()
    if kind == "hits":
        n = choose(3, "number")
        ds = [a_hit(stored=True)[0] for _ in range(min(n, 1))] + [dict(HIT0, start_freq_index=k) for k in range(n - 1)]
        l = [probe.hit(d) for d in ds]
        p = base + ".cp"
        r, err = attempt(lambda: (IO.write_hits_to_capnp_file if writer == "python" else probe.write_hits)(l, p))
        check(err is None, "write-rejected", "%s: %s" % (writer, err))
        r, err = attempt(lambda: [probe.hit_dict(h) for h in IO.read_hits_from_capnp_file(p)] if reader == "python" else probe.read_hits(p))
        check(err is None, "read-rejected", "%s: %s" % (reader, err))
        check_same([order(dict(h, rfi_counts={}, power=0)) for h in r], [order(dict(d, rfi_counts={}, power=0)) for d in ds], "hits-file", "%s to %s" % (writer, reader))
    elif kind in ("missing", "unwritable"):
        p = os.path.join(probe.scratch(), "no such directory", "x")
        sc, ob, ca = B.scan(recording(0), COARSE), B.observation_target([recording(0)], COARSE), B.cadence([[recording(0)]], COARSE)
        f = {"missing": [lambda: IO.read_hits_from_capnp_file(p), lambda: IO.read_scan_hits_from_capnp_file(p), lambda: IO.read_events_from_file(p), lambda: B.scan(p), lambda: IO.h5_filterbank_file(p),
                         lambda: B.observation_target([p]), lambda: B.cadence([[p]])],
             "unwritable": [lambda: IO.write_hits_to_capnp_file([probe.hit(HIT0)], p), lambda: IO.write_events_to_file([probe.event([probe.hit(HIT0)], [0.0] * 7)], p)]}[kind]
        r, err = attempt(f[choose(len(f), "function")])
        check(err is not None, "error-lost", "%s file gives %s" % (kind, r))
    else:
        o, p = pair(kind)
        hist, done = [], []
        for name, k in (("estimate_noise_power", 2), ("integrate_drifts", 0), ("hit_search", choose(3, "hits"))):
            o, p, done = do_stage(name, kind, k, o, p, done, hist)
        total = sum(len(s.hits()) for s in ([o] if kind == "scan" else o.scans if kind == "observation" else [s for x in o.observations for s in x.scans]))
        check(total > 0, "vacuous", "the search finds no hits")
        for d in os.listdir(probe.scratch()):
            if d.startswith("pyio"):
                os.remove(os.path.join(probe.scratch(), d))
        if kind == "scan":
            r, err = attempt(lambda: IO.write_scan_hits_to_file(scan_with_hits=o, file_path=base + ".scan.cp") if writer == "python" else probe.write_scan_hits(p, base + ".scan.cp"))
            check(err is None, "write-rejected", "%s: %s" % (writer, err))
            r, err = attempt(lambda: (IO.read_scan_hits_from_capnp_file if reader == "python" else probe.read_scan_hits)(base + ".scan.cp"))
            check(err is None, "read-rejected", "%s: %s" % (reader, err))
            pairs = [(r, o)]
        elif kind == "observation":
            r, err = attempt(lambda: IO.write_observation_target_hits_to_capnp_files(observation_target=o, file_path=base))
            check(err is None, "write-rejected", str(err))
            r, err = attempt(lambda: IO.read_observation_target_hits_from_capnp_files(file_path=base) if reader == "python" else probe.read_observation_hits(base))
            check(err is None, "read-rejected", "%s: %s" % (reader, err))
            check(len(r.scans) == 2 and r.target_name == o.target_name, "hits-file", "%d scans of %s" % (len(r.scans), r.target_name))
            pairs = list(zip(r.scans, o.scans))
        else:
            r, err = attempt(lambda: IO.write_cadence_hits_to_capnp_files(cadence_with_hits=o, base_filename=base))
            check(err is None, "write-rejected", str(err))
            r, err = attempt(lambda: IO.read_cadence_hits_from_capnp_files(base_filename=base) if reader == "python" else probe.read_cadence_hits(base))
            check(err is None, "read-rejected", "%s: %s" % (reader, err))
            check([len(x.scans) for x in r.observations] == [2, 1], "hits-file", "scans of %d observations" % len(r.observations))
            pairs = [z for x, y in zip(r.observations, o.observations) for z in zip(x.scans, y.scans)]
        for g, w in pairs:
            keys = [k for k in META if k not in ("nbits", "data_type", "az_start", "za_start", "nchans", "machine_id")]
            check_same({k: getattr(g, k) for k in keys}, {k: getattr(w, k) for k in keys}, "hits-file", "scan metadata")
            drop = lambda h: order(dict(h, rfi_counts={}, power=0))
            check_same([drop(h) for h in probe.scan_hits(g)], [drop(h) for h in probe.scan_hits(w)], "hits-file", "hits of a scan, %s to %s" % (writer, reader))
    probe.outcome(repr((kind, writer, reader)))


def object_graph():
    """objects reached through other objects stay valid and keep their values whatever becomes of the objects they came from"""
    f = [recording(k) for k in range(4)]
    made = choose(2, "made")
    ca = B.cadence([[f[0], f[2]], [f[1]]], COARSE)
    if made:
        ca = DS.hit_search(DS.integrate_drifts(EST.estimate_noise_power(ca, noise_options(STD, False)), drift_options(True, -3, 4)), search_options(CC, 2.0, 2))
    held = {"cadence": ca}
    chain = ["cadence", "observation", "scan", "channel", "data", "view"] if not made else ["cadence", "observation", "scan", "channel", choose_name(["hits", "plane", "noise"])]
    step = dict(observation=lambda x: x.observations[0], scan=lambda x: x.scans[1], channel=lambda x: x.read_coarse_channel(1), data=lambda x: x.data, view=lambda x: out(x),
                hits=lambda x: x.hits, plane=lambda x: x.integrated_drift_plane(), noise=lambda x: x.noise_estimate)
    say = dict(cadence=lambda x: x.number_coarse_channels, observation=lambda x: (x.target_name, x.number_coarse_channels), scan=lambda x: (order(meta(x)), x.num_coarse_channels), channel=lambda x: order(meta(x)),
               data=lambda x: out(x).tolist(), view=lambda x: x.tolist(), hits=lambda x: [order(py_hit(h)) for h in x], plane=lambda x: out(x.integrated_drifts).tolist(), noise=lambda x: (x.noise_floor, x.noise_power))
    gone = [choose(3, n) for n in chain[:-1]]       # 0 kept, 1 deleted when the next is made, 2 deleted at the end
    first = {}
    hist = []
    for k, n in enumerate(chain[1:], 1):
        held[n] = step[n](held[chain[k - 1]])
        first[n] = repr(say[n](held[n]))
        probe.step()
        if gone[k - 1] == 1:
            del held[chain[k - 1]]
            gc.collect()
            hist.append("delete " + chain[k - 1])
        note("made %s" % n)
    ca = None
    del ca
    for k, n in enumerate(chain[:-1]):
        if gone[k] == 2:
            del held[n]
            gc.collect()
            hist.append("delete " + n)
            for x in held:
                if x != "cadence":
                    check(repr(say[x](held[x])) == first[x], "stale-object", "%s after %s" % (x, hist))
    # other objects take the freed memory
    junk = [B.cadence([[f[3]], [f[3]]], COARSE) for _ in range(2)]
    for x in held:
        if x != "cadence":
            check(repr(say[x](held[x])) == first[x], "stale-object", "%s after %s" % (x, hist))
    probe.state(repr((chain, gone)))
    probe.outcome(repr(hist))


def choose_name(xs):
    return xs[choose(len(xs), "last")]


def replaced_members():
    """an object taken from a list of another stays itself when the list is replaced"""
    kind = pick(["scans", "observations", "hits"], "kind")
    f = [recording(k) for k in range(4)]
    if kind == "scans":
        o = B.observation_target([f[0], f[2]], COARSE)
        new = [lambda: [], lambda: [B.scan(f[1], COARSE)], lambda: [B.scan(f[k], COARSE) for k in (3, 1, 0)], lambda: list(reversed(o.scans))]
        say = lambda x: (order(meta(x)), x.num_coarse_channels)
    elif kind == "observations":
        o = B.cadence([[f[0], f[2]], [f[1]]], COARSE)
        new = [lambda: [], lambda: [B.observation_target([f[3]], COARSE)], lambda: [B.observation_target([f[k]], COARSE) for k in (3, 1, 0)], lambda: list(reversed(o.observations))]
        say = lambda x: (x.target_name, x.number_coarse_channels)
    else:
        o = probe.event([probe.hit(dict(HIT0, start_freq_index=k)) for k in range(2)], [0.0] * 7)
        new = [lambda: [], lambda: [probe.hit(HIT0)], lambda: [probe.hit(dict(HIT0, start_freq_index=90 + k)) for k in range(3)], lambda: list(reversed(o.hits))]
        say = lambda x: order(py_hit(x))
    i = choose(2, "which")
    x = getattr(o, kind)[i]
    was = repr(say(x))
    hist = []
    for _ in range(2):
        k = choose(len(new), "new list")
        l = new[k]()
        want = [repr(say(y)) for y in l]
        setattr(o, kind, l)
        probe.step()
        hist.append(k)
        if choose(2, "drop"):
            del l
            gc.collect()
        check([repr(say(y)) for y in getattr(o, kind)] == want, "replaced-list", "%s %s" % (kind, hist))
        check(repr(say(x)) == was, "stale-member", "%s[%d] after assigning %s: %s, was %s" % (kind, i, hist, say(x), was))
    probe.outcome(repr((kind, i, hist)))


def search_misc():
    """the remaining functions"""
    what = pick(["components", "firdes", "response", "kurtosis", "noise", "sigmaclip", "magnitude", "noise_power", "h5", "flags_container", "plane_device", "devices"], "what")
    probe.step()
    x = np.array([[(3 * c + 5 * t) % 7 + (40 if (t, c) == (1, 3) else 0) for c in range(6)] for t in range(4)], dtype=F32)
    a = to_bland(pybliss.bland, x)
    if what == "components":
        bits = choose(512, "mask")
        m = np.array([(bits >> k) & 1 for k in range(9)], dtype=U8).reshape(3, 3)
        nbh = pick([[[0, 1], [1, 0], [0, -1], [-1, 0]], [[0, 1], [0, -1]], [[1, 1], [-1, -1]]], "neighbourhood")
        given = m if choose(2, "as") else to_bland(pybliss.bland, m)
        r, err = attempt(lambda: DS.find_components_in_binary_mask(given, nbh))
        check(err is None, "components-rejected", str(err))
        got, err = attempt(lambda: sorted(sorted((c.drift_index, c.frequency_channel) for c in p.locations) for p in r))
        check(err is None, "components-unreadable", str(err))
        todo, want = {(i, j) for i in range(3) for j in range(3) if m[i, j]}, []
        while todo:
            comp, front = set(), [min(todo)]
            while front:
                q = front.pop()
                if q in todo:
                    todo.discard(q)
                    comp.add(q)
                    front += [(q[0] + d[0], q[1] + d[1]) for d in nbh]
            want.append(sorted(comp))
        check(got == sorted(want), "components", "%s gives %s, expected %s" % (m.tolist(), got, want))
        probe.outcome(repr(got))
    elif what == "firdes":
        n, fc, w = pick([3, 4, 9], "n"), pick([0.1, 0.25, 0.4], "fc"), pick(["hamming", "hann", "rect"], "window")
        r, err = attempt(lambda: PRE.firdes(n, fc, w))
        q, perr = attempt(lambda: probe.firdes(n, fc, w))
        check((err is None) == (perr is None), "firdes-error", "%s %s" % (err, perr))
        if err is None:
            check_same(order(py_array(r)), order(q), "firdes", "%d %g %s" % (n, fc, w))
    elif what == "response":
        fpc, n, t = pick([4, 8], "fine"), pick([4, 8], "coarse"), pick([4, 8], "taps")
        f = [(lambda: PRE.gen_coarse_channel_response(fpc, n, t), "hamming"), (lambda: PRE.gen_coarse_channel_response(num_coarse_channels=n, fine_per_coarse=fpc, taps_per_channel=t), "hamming"),
             (lambda: PRE.gen_coarse_channel_response(fpc, n, t, "hann"), "hann"), (lambda: PRE.gen_coarse_channel_response(fpc, n, t, window="rect"), "rect"), (lambda: PRE.gen_coarse_channel_response(fpc, n, t, device_str="cpu"), "hamming")]
        g, w = f[choose(len(f), "form")]
        r, err = attempt(g)
        q, perr = attempt(lambda: probe.response(fpc, n, t, w))
        check((err is None) == (perr is None), "response-error", "%s %s" % (err, perr))
        if err is None:
            check_same(order(py_array(r)), order(q), "response", "%d %d %d %s" % (fpc, n, t, w))
    elif what == "kurtosis":
        n, m, d = pick([4, 8], "N"), pick([1, 5], "M"), pick([2.0, 1.5], "d")
        f = [lambda: EST.estimate_spectral_kurtosis(a, n, m, d), lambda: EST.estimate_spectral_kurtosis(spectrum_grid=a, N=n, M=m, d=d)]
        if d == 2.0:
            f.append(lambda: EST.estimate_spectral_kurtosis(a, n, m))
        r, err = attempt(f[choose(len(f), "form")])
        check(err is None, "kurtosis-rejected", str(err))
        check_same(order(py_array(r)), order(probe.kurtosis(a, n, m, d)), "kurtosis", "")
        c = B.scan(recording(1), COARSE).read_coarse_channel(1)
        r, err = attempt(lambda: EST.estimate_spectral_kurtosis(c, d) if d != 2.0 else EST.estimate_spectral_kurtosis(fil_data=c))
        check(err is None, "kurtosis-rejected", str(err))
        check_same(order(py_array(r)), order(probe.cc_kurtosis(c, d)), "kurtosis", "of a channel")
    elif what == "noise":
        method, masked = 0, pick([False, True], "masked")
        o = noise_options([STD, MAD][method], masked)
        given = [a, x, np.asfortranarray(x), laid(x, "every other")][choose(4, "as")]
        r, err = attempt(lambda: EST.estimate_noise_power(given, o))
        q, perr = attempt(lambda: probe.noise(a, method, masked))
        check((err is None) == (perr is None), "noise-error", "%s %s" % (err, perr))
        if err is None:
            check_same([r.noise_floor, r.noise_power, r.noise_amplitude], q, "noise", "%d %s" % (method, masked))
            check("noise_floor" in repr(r), "noise-text", repr(r))
    elif what == "sigmaclip":
        f = [(lambda: FL.flag_sigmaclip(a), (3, 4, 4)), (lambda: FL.flag_sigmaclip(a, 1, 1.0, 2.0), (1, 1, 2)), (lambda: FL.flag_sigmaclip(x=a, upper_threshold=1.0), (3, 4, 1)), (lambda: FL.flag_sigmaclip(a, lower_threshold=0.5, max_iter=5), (5, 0.5, 4))]
        g, w = f[choose(len(f), "form")]
        r, err = attempt(g)
        check(err is None, "sigmaclip-rejected", str(err))
        check_same(order(py_array(r)), order(probe.sigmaclip(a, *w)), "sigmaclip", str(w))
    elif what == "magnitude":
        t = pick([0.5, 1.0, 3.0], "threshold")
        if choose(2, "of"):
            r, err = attempt([lambda: FL.flag_magnitude(a, t), lambda: FL.flag_magnitude(scan=a, threshold=t)][choose(2, "form")])
            check(err is None, "magnitude-rejected", str(err))
            check_same(order(py_array(r)), order(probe.magnitude(a, t)), "magnitude", str(t))
        else:
            c, q = pair("channel")
            r, err = attempt([lambda: FL.flag_magnitude(c, t), lambda: FL.flag_magnitude(cc_data=c, threshold=t)][choose(2, "form")])
            check(err is None, "magnitude-rejected", str(err))
            check_same(channel_views(r, ()), channel_views(probe.cc_magnitude(q, t), ()), "magnitude", "of a channel, %s" % t)
    elif what == "noise_power":
        n = EST.noise_power()
        v, w = pick([0.0, 2.25, 1e6], "floor"), pick([0.0, 4.0, 1e6], "power")
        r, err = attempt(lambda: (setattr(n, "noise_floor", to_bland(pybliss.bland, np.array([v], F32))), setattr(n, "noise_power", to_bland(pybliss.bland, np.array([w], F32)))))
        check(err is None, "noise-assignment", str(err))
        check(n.noise_floor == v and n.noise_power == w and n.noise_amplitude == float(np.sqrt(np.float32(w))), "noise-assignment", "%g %g gives %g %g %g" % (v, w, n.noise_floor, n.noise_power, n.noise_amplitude))
    elif what == "h5":
        k = choose(4, "file")
        h, err = attempt(lambda: IO.h5_filterbank_file(recording(k)))
        check(err is None and h.get_file_path() == recording(k) and "FILTERBANK" in repr(h), "h5-file", str(err))
        t0, c0 = choose(T_, "t0"), pick([0, 1, 5, 31], "c0")
        nt, nc = 1 + choose(T_ - t0, "nt"), pick([n for n in (1, 2, 27, 32) if c0 + n <= N_], "nc")
        r, err = attempt(lambda: h.read_data([t0, 0, c0], [nt, 1, nc]))
        e = np.array(observed(k), dtype=F32).reshape(T_, N_)[t0:t0 + nt, c0:c0 + nc]
        check(err is None and out(r).ravel().tolist() == e.ravel().tolist(), "h5-data", "%s" % err)
        r, err = attempt(lambda: h.read_mask([t0, 0, c0], [nt, 1, nc]))
        check(err is None and out(r).size == nt * nc and not out(r).any(), "h5-mask", str(err))
    elif what == "flags_container":
        d, c = pick([1, 3], "drifts"), pick([1, 4], "channels")
        r, err = attempt(lambda: B.integrated_flags(d, c, pybliss.bland.ndarray.dev("cpu")))
        check(err is None, "flags-rejected", str(err))
        for k in ("filter_rolloff", "low_spectral_kurtosis", "high_spectral_kurtosis"):
            g = out(getattr(r, k))
            check(g.shape == (d, c) and g.dtype == U8 and not g.any(), "flags-container", k)
        k = pick(["filter_rolloff", "low_spectral_kurtosis", "high_spectral_kurtosis", "magnitude", "sigma_clip"], "which")
        v = np.arange(d * c, dtype=U8).reshape(d, c)
        _, err = attempt(lambda: setattr(r, k, to_bland(pybliss.bland, v)))
        check(err is None and (out(getattr(r, k)) == v).all(), "flags-assignment", "%s: %s" % (k, err))
        for n in ("filter_rolloff", "low_spectral_kurtosis", "high_spectral_kurtosis"):
            check(n == k or not out(getattr(r, n)).any(), "flags-assignment", "%s changed %s" % (k, n))
    elif what == "plane_device":
        c = DS.integrate_drifts(B.scan(recording(0), COARSE), drift_options(True, -3, 4)).read_coarse_channel(0)
        p = c.integrated_drift_plane()
        was = out(p.integrated_drifts).tolist()
        r, err = attempt([lambda: p.set_device("cpu"), lambda: p.push_device(), lambda: (p.set_device("cpu"), p.push_device())][choose(3, "how")])
        check(err is None and out(p.integrated_drifts).tolist() == was, "plane-device", str(err))
    else:
        c, q = pair(pick(KINDS2[:2], "kind"))
        f = [lambda: c.set_device("cpu"), lambda: c.set_device(c.device()), lambda: c.push_device(), lambda: c.set_device(device="cpu", verbose=False), lambda: c.set_device("nonsense"), lambda: (c.set_device("cpu"), c.push_device())]
        k = choose(len(f), "how")
        kind = "channel" if isinstance(c, B.coarse_channel) else "scan"
        if k == 3 and kind == "channel":
            probe.skip()
        was = views(q, kind, ())
        r, err = attempt(f[k])
        check((err is not None) == (k == 4), "device", "form %d: %s" % (k, err))
        if k != 4:
            check_same(views(c, kind, ()), was, "device", "changes the object")


# ---- the Python package around the modules: its initialization and the helpers for plotting
class Recorder:
    """stands in for matplotlib: every attribute and call is another recorder, and calls are noted"""
    def __init__(self, log, name=""):
        self.__dict__.update(log=log, name=name)

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        return Recorder(self.log, self.name + "." + k)

    def __call__(self, *a, **k):
        self.log.append((self.name, a, k))
        return Recorder(self.log, self.name + "()")

    def __getitem__(self, k):
        return self


PLOT_LOG = []


def package():
    """the repository's Python package, with the modules of this process as its extension modules"""
    import types
    if "blissdedrift" not in sys.modules:
        sys.path.insert(0, os.path.join(os.environ["MC_REPO"], "bliss", "python"))
        sys.modules["blissdedrift.pybliss"], sys.modules["blissdedrift.pybland"] = pybliss, pybland
        plt = Recorder(PLOT_LOG, "plt")
        for n in ("matplotlib", "matplotlib.pyplot", "matplotlib.gridspec", "matplotlib.patheffects", "matplotlib.patches"):
            m = sys.modules[n] = types.ModuleType(n)
            m.__getattr__ = lambda k, n=n: getattr(Recorder(PLOT_LOG, n), k)
        sys.modules["matplotlib"].pyplot = sys.modules["matplotlib.pyplot"]
        import contextlib, io
        with contextlib.redirect_stdout(io.StringIO()):
            import blissdedrift
    return sys.modules["blissdedrift"]


def searched(kind, threshold):
    o, p = pair(kind)
    run = lambda x: DS.integrate_drifts(EST.estimate_noise_power(x, noise_options(STD, False)), drift_options(True, -3, 4))
    o = DS.hit_search(run(o), search_options(CC, threshold, 2))
    return o


def hits_lists():
    """the list of dictionaries and the plots made of any searched object"""
    pk, err = attempt(package)
    check(err is None, "package", str(err))
    check(pk.bland is pybland and pk.scan is B.scan and pk._cuda_version == pybliss._cuda_version, "package", "members")
    kind = pick(KINDS2, "kind")
    threshold = pick([2.0, 4.0, 8.0], "threshold")
    name = pick([None, "origin", ""], "origin")
    get = pk.plot_utils.get_hits_list
    i = choose(N_ // COARSE, "channel") if kind == "channel" else 0
    o = searched("scan" if kind == "channel" else kind, threshold)
    if kind == "channel":
        o = o.read_coarse_channel(i)
    probe.step()
    r, err = attempt(lambda: get(o) if name is None else get(o, name) if choose(2, "form") else get(pipeline_object=o, origin_name=name))
    check(err is None, "hits-list-rejected", "%s: %s" % (kind, err))
    own = lambda x: "%s:%.4f,%.4f:%.4f" % (x.source_name, x.src_dej, x.src_raj, x.tstart)
    want = []

    def add(hits, origin):
        for h in hits:
            want.append({"start_freq_MHz": h["start_freq_MHz"], "drift_rate_Hz_per_sec": h["drift_rate_Hz_per_sec"], "SNR": h["snr"], "power": h["power"], "bandwidth_Hz": h["bandwidth"], "origin": origin})

    def add_observation(x, origin):
        for k, s in enumerate(x.scans):
            add(probe.scan_hits(s), ("" if origin is None else origin + ":") + "%s-%d" % (x.target_name, k))

    if kind == "channel":
        add(probe.cc(o, False, False, True)["hits"], own(o) if name is None else name)
    elif kind == "scan":
        add(probe.scan_hits(o), own(o) if name is None else name)
    elif kind == "observation":
        add_observation(o, name)
    else:
        for k, x in enumerate(o.observations):
            add_observation(x, "ABCDEFGH"[k])
    check_same(order(r), order(want), "hits-list", "%s with threshold %g and origin %s" % (kind, threshold, name))
    if kind == "channel":
        hits = o.hits
        n = choose(3, "focus")
        focus = [None, hits[:1], hits][n]
        del PLOT_LOG[:]
        r, err = attempt(lambda: pk.plot_utils.plot_hits(o) if focus is None else pk.plot_utils.plot_hits(o, focus, frequency_padding_Hz=4e5))
        if focus is None or hits:
            check(err is None, "plot-rejected", str(err))
            check(len(r) == (1 if focus is None else len(focus)), "plots", "%d plots of %d hits" % (len(r), len(hits)))
            span = o.tsamp * T_
            lines = [a[0] for n_, a, k in PLOT_LOG if n_.endswith(".plot") and k.get("color") == "red"]
            shown = hits if focus is None else focus
            check_same(lines, [[h.start_freq_MHz, h.start_freq_MHz + ((o.tstart * 86400 + span) - o.tstart * 86400) * h.drift_rate_Hz_per_sec * 1e-6] for h in shown], "plots", "tracks drawn")
    probe.state(repr(want))
    probe.outcome(repr((kind, threshold, name, len(want))))


Y02 = ["opening", "stage_sequences", "pipeline", "options", "hits", "events_objects", "flags", "files", "object_graph", "replaced_members", "search_misc", "hits_lists"]
