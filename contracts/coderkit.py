"""Schemas and instances for the coders and conversions."""
import numpy as np
import tensorflow as tf

TEXTS = [b"", b"a", b"a,b", b'"', b'"a"', b"a|b", b"x\ny", b"\r\n", b" pad ", "\u00e9\u4e2d".encode(), b"'", b"a;b", b"\t", b"0", b"None", b"nan", b"|", b",", b"a b", b"\xf0\x9f\x98\x80"]
FLOATS = [0.0, 1.5, -2.25, 0.1, 1e-30, 3.0e38, -7.0, 1 / 3, float("inf"), -0.0, 123456.789]
INTS = [0, 1, -1, 7, 2 ** 63 - 1, -2 ** 63, 10 ** 12, 42]
DTYPES = [tf.string, tf.int64, tf.float32]


def scalar(r, dt):
    if dt == tf.string:
        return r.choice(TEXTS) if r.random() < 0.7 else bytes("".join(r.choice("ab,|\"\n\r \t;\u00e9'") for _ in range(r.randint(0, 6))).encode())
    if dt == tf.int64:
        return r.choice(INTS) if r.random() < 0.6 else r.randint(-50, 50)
    return r.choice(FLOATS) if r.random() < 0.6 else float(np.float32(r.uniform(-100, 100)))


def array(r, dt, shape):
    n = int(np.prod(shape, dtype=int))
    return np.array([scalar(r, dt) for _ in range(n)] + [None], dtype=object)[:-1].reshape(shape)


def as_form(r, dt, values):
    """The values as a list, or as an array of the type of the feature, laid out
    in memory in one way or another."""
    a = np.asarray(values, dtype=object)
    if r.random() < 0.5:
        return a.tolist()
    return laid_out(r, a.astype({tf.string: object, tf.int64: np.int64, tf.float32: np.float32}[dt]))


def laid_out(r, a):
    """An array equal to a: contiguous, transposed, reversed or strided."""
    how = r.choice(["C", "C", "F", "reversed", "strided"])
    if how == "F" or a.ndim == 0:
        return np.asfortranarray(a) if a.ndim else a
    if how == "reversed":
        return a[::-1].copy()[::-1]
    if how == "strided":
        return np.repeat(a, 2, axis=-1)[..., ::2]
    return a


def same(dt, a, b):
    """Equality of values as the type of the feature."""
    a, b = np.asarray(a, dtype=object).ravel(), np.asarray(b, dtype=object).ravel()
    if len(a) != len(b):
        return False
    for x, y in zip(a, b):
        if dt == tf.string:
            x, y = (v if isinstance(v, bytes) else str(v).encode() for v in (x, y))
            if x != y:
                return False
        elif dt == tf.int64:
            if int(x) != int(y):
                return False
        elif not (np.float32(x) == np.float32(y) or np.isnan(x) and np.isnan(y)):
            return False
    return True


NAMES = ["x", "y", "a b", "value", "idx", "z,1", "\u00e9", "X", "x_1", "f/g", "x$y", " x", "x ", "a\\"]
