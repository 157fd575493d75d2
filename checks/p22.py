"""Linear weighted least squares: exhaustive small data sets against exact rational arithmetic."""
import itertools
from fractions import Fraction as F
import numpy as np

PROPERTY = "P22"
LEVEL = "exploration"
RULE = ("every data set of n points with abscissae, ordinates and errors from finite alphabets (including zero and "
        "negative values, zero errors, scalar/array/default errors) and every order of a base set; non-trivial = the "
        "returned number was compared with the exact rational least-squares solution")
ASSUMPTIONS = ["float64 (jax_enable_x64)", "at least two distinct abscissae (the fit is otherwise undefined)"]


def wls(x, y, e):
    """exact weighted least squares by rational arithmetic on the normal equations."""
    w = [F(1) if v == 0 else 1 / F(v) ** 2 for v in e]
    X = [F(v) for v in x]
    Y = [F(v) for v in y]
    S = sum(w)
    sx = sum(a * b for a, b in zip(w, X))
    sy = sum(a * b for a, b in zip(w, Y))
    xm = sx / S
    sxx = sum(a * (b - xm) ** 2 for a, b in zip(w, X))
    b = sum(a * (p - xm) * q for a, p, q in zip(w, X, Y)) / sxx
    a = sy / S - b * xm
    chi = sum(c * (q - a - b * p) ** 2 for c, p, q in zip(w, X, Y))
    vb = 1 / sxx
    va = 1 / S + xm * xm / sxx
    return [float(b), float(vb) ** .5, float(a), float(va) ** .5, float(chi)]


def _cmp(ctx, key, fn, rows, batch):
    """rows: list of (x, y, e)"""
    import jax, jax.numpy as jnp
    X = np.array([r[0] for r in rows], float)
    Y = np.array([r[1] for r in rows], float)
    E = np.array([r[2] for r in rows], float)
    got = np.stack([np.asarray(v) for v in jax.jit(jax.vmap(fn))(jnp.array(X), jnp.array(Y), jnp.array(E))], -1)
    want = np.array([wls(*r) for r in rows])
    ctx.count(evals=len(rows))
    scale = np.maximum(np.max(np.abs(Y), 1), 1)[:, None]
    for j, nm in enumerate(["slope", "slope_err", "intercept", "intercept_err", "chi2"]):
        lab = [f"x={r[0]},y={r[1]},e={r[2]}" for r in rows]
        ctx.close(f"{key}:{nm}", got[:, j], want[:, j], rtol=1e-8, atol=1e-8, labels=lab)
    ctx.sample(x=rows[-1][0], y=rows[-1][1], err=rows[-1][2], got=got[-1], want=want[-1])


def values(ctx):
    from microjax.likelihood import linear_chi2
    xs = [-2, 0, 1, 3]
    ys = [-1, 0, 2]
    es = [0, F(1, 2), 1, 3]
    for n in (2, 3) if not ctx.thorough else (2, 3, 4):
        rows = []
        for x in itertools.product(xs, repeat=n):
            if len(set(x)) < 2:
                continue
            for y in itertools.product(ys, repeat=n):
                for e in itertools.product(es[:3] if n > 2 else es, repeat=n):
                    if n == 4 and (sum(v == 0 for v in e) != 1 or sum(v == 0 for v in y) > 1):
                        continue
                    rows.append((x, y, e))
        ctx.spaces.append(dict(space=f"n={n} x^n y^n e^n", size=len(rows)))
        ctx.outcome(f"n={n}", len(rows))
        _cmp(ctx, "array_err", linear_chi2, rows, True)


def orders(ctx):
    """every permutation of one data set, exact."""
    from microjax.likelihood import linear_chi2
    base = [(-2, F(1, 2), 1), (0, -1, F(1, 2)), (1, 3, 0), (4, 2, 2), (7, F(-5, 2), F(1, 4))]
    rows = []
    for p in itertools.permutations(base):
        rows.append(tuple(zip(*p)))
    ctx.spaces.append(dict(space="permutations of 5 points", size=len(rows)))
    _cmp(ctx, "order", linear_chi2, rows, True)
    n = 40                                   # a longer set: large n, offset abscissae
    x = [F(8000 + 3 * i + (i * i) % 7, 4) for i in range(n)]
    y = [F(5 - 2 * i + (i * 37) % 11, 8) for i in range(n)]
    e = [F([0, 1, 2, 5][i % 4], 4) for i in range(n)]
    _cmp_long(ctx, linear_chi2, x, y, e)


def _cmp_long(ctx, fn, x, y, e):
    got = [float(v) for v in fn(np.array(x, float), np.array(y, float), np.array(e, float))]
    ctx.count(evals=1)
    for nm, g, w in zip(["slope", "slope_err", "intercept", "intercept_err", "chi2"], got, wls(x, y, e)):
        ctx.close(f"long:{nm}", g, w, rtol=1e-5, atol=1e-6)


def error_forms(ctx):
    """scalar, 0-d array, default and keyword errors; every combination over small sets."""
    import jax.numpy as jnp
    from microjax.likelihood import linear_chi2
    sets = [((0, 1), (1, 3)), ((-2, 0, 1), (2, -1, 0)), ((1, 1, 4, 2), (0, 5, -1, 2)), ((3, -1, 0, 2, 5), (1, 1, 1, 1, 1))]
    forms = [("default", None), ("scalar0", 0.0), ("int0", 0), ("scalar", 0.5), ("int", 2), ("zero-d", np.array(0.25)),
             ("jax-scalar", 3.0)]
    for x, y in sets:
        for nm, e in forms:
            xa, ya = jnp.array(x, float), jnp.array(y, float)
            if nm == "jax-scalar":
                r = linear_chi2(xa, ya, jnp.asarray(e))
            elif e is None:
                r = linear_chi2(xa, ya)
            else:
                r = linear_chi2(xa, ya, err=e)
            w = wls(x, y, [F(float(e or 0))] * len(x))
            ctx.count(evals=1)
            ctx.outcome(nm)
            for k, g, v in zip(["slope", "slope_err", "intercept", "intercept_err", "chi2"], r, w):
                ctx.expect(np.ndim(g) == 0, f"form:{nm}:{k}:scalar")
                ctx.close(f"form:{nm}:{k}", np.asarray(g), v, rtol=1e-9, atol=1e-10)
            # errors of size zero in the middle of a vector must not poison derivatives
    import jax
    g = jax.grad(lambda yy: linear_chi2(jnp.array([0., 1, 3]), yy, jnp.array([0., 1, .5]))[4])(jnp.array([1., 0, 2]))
    h = 1e-5
    f = lambda yy: float(linear_chi2(jnp.array([0., 1, 3]), jnp.array(yy), jnp.array([0., 1, .5]))[4])
    fd = [(f(np.array([1., 0, 2]) + h * np.eye(3)[i]) - f(np.array([1., 0, 2]) - h * np.eye(3)[i])) / 2 / h for i in range(3)]
    ctx.close("grad_chi2", np.asarray(g), np.array(fd), rtol=1e-5, atol=1e-7)
    ctx.count(evals=7)


PARTS = dict(values=values, orders=orders, error_forms=error_forms)
