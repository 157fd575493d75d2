"""Array helpers: exhaustive enumeration of small arrays against plain-Python contracts."""
import itertools
import numpy as np
from mc.engine import internal, seam

PROPERTY = "P23"
LEVEL = "exploration"
RULE = ("every array up to the stated length over an alphabet with zeros, negatives and ties (and, for matching, every pair "
        "of point sets); non-trivial = the returned index/value was compared with the contract computed by brute force")
ASSUMPTIONS = ["finite inputs", "samples beyond the tail index of the truncated trapezoid are zero, as in all its uses"]
ALPH = [-3.0, -1.0, 0.0, 2.0, 5.0]


def _arrs(n, alph=ALPH):
    return np.array(list(itertools.product(alph, repeat=n)))


def _vm(fn, *cols):
    import jax, jax.numpy as jnp
    return np.asarray(seam(jax.jit(jax.vmap(fn)), *[jnp.array(c) for c in cols]))


def searches(ctx):
    import jax.numpy as jnp
    fz, lz, f0 = [internal("microjax.utils", n) for n in ("first_nonzero", "last_nonzero", "first_zero")]
    for n in range(1, 7 if ctx.thorough else 6):
        X = _arrs(n)
        ctx.spaces.append(dict(space=f"real arrays n={n}", size=len(X)))
        nz = X != 0
        w_f = np.array([next((i for i in range(n) if r[i]), 0) for r in nz])
        w_l = np.array([next((i for i in range(n - 1, -1, -1) if r[i]), 0) for r in nz])
        w_z = np.array([next((i for i in range(n) if not r[i]), 0) for r in nz])
        lab = [str(list(r)) for r in X]
        ctx.close("first_nonzero", _vm(fz, X), w_f, labels=lab)
        ctx.close("last_nonzero", _vm(lz, X), w_l, labels=lab)
        ctx.close("first_zero", _vm(f0, X), w_z, labels=lab)
        ctx.close("first_nonzero_bool", _vm(fz, nz), w_f, labels=lab)
        ctx.close("last_nonzero_bool", _vm(lz, nz), w_l, labels=lab)
        ctx.count(evals=5 * len(X))
        ctx.outcome(f"n={n}", len(X))
    C = _arrs(3, [0, 1 + 2j, 3j, -2, 0.0])
    nz = C != 0
    ctx.close("first_nonzero_complex", _vm(fz, C), np.argmax(nz, 1))
    ctx.close("last_nonzero_complex", _vm(lz, C), np.array([next((i for i in (2, 1, 0) if r[i]), 0) for r in nz]))
    # explicit axes of 2-d arrays
    for k in itertools.product([0., 1., -2.], repeat=6):
        A = np.array(k).reshape(2, 3)
        for ax in (0, 1):
            ctx.count(evals=1)
            ctx.close("first_nonzero_axis", np.asarray(fz(A, axis=ax)), np.argmax(A != 0, axis=ax))
            if hash(k) % 3 == 0:
                ctx.close("first_zero_axis", np.asarray(f0(A, axis=ax)), np.argmax(A == 0, axis=ax))
    ctx.sample(x=[0.0, -3.0, 0.0], last_nonzero=int(lz(jnp.array([0.0, -3.0, 0.0]))))


def reductions(ctx):
    mn, mx, me, so = [internal("microjax.utils", n) for n in ("min_zero_avoiding", "max_zero_avoiding", "mean_zero_avoiding", "sparse_argsort")]
    for n in range(1, 7 if ctx.thorough else 6):
        X = _arrs(n)
        lab = [str(list(r)) for r in X]
        sel = lambda f: np.array([f([v for v in r if v != 0]) if np.any(r != 0) else 0.0 for r in X])
        ctx.close("min", _vm(mn, X), sel(min), labels=lab)
        ctx.close("max", _vm(mx, X), sel(max), labels=lab)
        ctx.close("mean", _vm(me, X), sel(lambda v: sum(v) / len(v)), rtol=1e-12, atol=1e-14, labels=lab)
        idx = _vm(so, X)
        ok_perm = (np.sort(idx, 1) == np.arange(n)).all(1)
        S = np.take_along_axis(X, idx, 1)
        for r, s, o, p in zip(X, S, ok_perm, idx):
            k = int(np.sum(r != 0))
            good = bool(o) and (s[:k] == np.sort(r[r != 0])).all() and (s[k:] == 0).all()
            ctx.expect(good, f"sparse_argsort@{list(r)}", x=r, idx=p)
        ctx.count(evals=4 * len(X))
        ctx.outcome(f"n={n}", len(X))
        ctx.spaces.append(dict(space=f"real arrays n={n}", size=len(X)))
    import jax.numpy as jnp
    ctx.sample(x=[-1.0, 0, -3.0], max=float(mx(jnp.array([-1.0, 0, -3.0]))))


def matching(ctx):
    """greedy nearest unused neighbour; ties may be resolved either way."""
    mp = internal("microjax.utils", "match_points")
    pts = [0, 1, 1j, 2 + 1j, -1.5, .6 - .8j]
    for n in (1, 2, 3, 4):
        A = list(itertools.product(pts, repeat=n)) if n < 4 else list(itertools.permutations(pts, n))
        B = list(itertools.permutations(pts, n)) if n < 4 else list(itertools.combinations(pts, n))
        if n == 3 and not ctx.thorough:
            A = [a for a in A if len(set(a)) > 1]
        pairs = [(a, b) for a in A for b in B]
        a = np.array([p[0] for p in pairs], complex)
        b = np.array([p[1] for p in pairs], complex)
        idx = _vm(mp, a, b)
        ctx.spaces.append(dict(space=f"pairs of point sets n={n}", size=len(pairs)))
        ctx.count(evals=len(pairs), states=len(pairs) * n)
        perm = (np.sort(idx, 1) == np.arange(n)).all(1)
        D = np.abs(a[:, :, None] - b[:, None, :])
        used = np.zeros((len(pairs), n), bool)
        ok = perm.copy()
        rows = np.arange(len(pairs))
        for i in range(n):
            best = np.where(used, np.inf, D[:, i]).min(1)
            j = np.clip(idx[:, i], 0, n - 1)
            ok &= np.abs(D[rows, i, j] - best) <= 1e-12
            ok &= ~used[rows, j]
            used[rows, j] = True
        ctx.n["compared"] += len(pairs)
        for k in np.nonzero(~ok)[0][:3]:
            ctx.fail(f"match_points:n={n}", a=a[k], b=b[k], idx=idx[k])
        ctx.outcome(f"n={n}", len(pairs))
    # more points than are needed (b longer than a)
    for a in itertools.permutations(pts, 2):
        for b in itertools.permutations(pts, 3):
            idx = list(np.asarray(mp(np.array(a, complex), np.array(b, complex)))) if hash((a, b)) % 4 == 0 else None
            if idx is None:
                continue
            d = [abs(a[0] - v) for v in b]
            ok = abs(d[idx[0]] - min(d)) < 1e-12
            d1 = {j: abs(a[1] - b[j]) for j in range(3) if j != idx[0]}
            ok &= idx[1] in d1 and abs(d1[idx[1]] - min(d1.values())) < 1e-12
            ctx.count(evals=1)
            ctx.expect(ok, "match_points:rectangular", a=a, b=b, idx=idx)


def trapezoid(ctx):
    tz = internal("microjax.utils", "trapz_zero_avoiding")
    import jax.numpy as jnp
    al = [-1.0, 0.5, 2.0]
    for n in (2, 3, 4, 5):
        rows = []
        for t in range(n):
            for y in itertools.product(al, repeat=t + 1):
                for x in itertools.product([-2.0, 1.0, 1.5], repeat=t + 1):
                    if n == 5 and t == 4 and not ctx.thorough and x[0] != 1.0:
                        continue
                    rows.append((list(y) + [0.0] * (n - t - 1), list(x) + [0.0] * (n - t - 1), t))
        Y, X, T = np.array([r[0] for r in rows]), np.array([r[1] for r in rows]), np.array([r[2] for r in rows])
        want = np.array([sum(.5 * (y[i] + y[i + 1]) * (x[i + 1] - x[i]) for i in range(t)) for y, x, t in rows])
        ctx.close(f"trapz:n={n}", _vm(tz, Y, X, T), want, atol=1e-12, labels=[f"{r}" for r in rows])
        ctx.count(evals=len(rows))
        ctx.spaces.append(dict(space=f"zero-padded samples n={n} x tail index", size=len(rows)))


def boundary(ctx):
    """indicator, step, interpolation and profile helpers of the integrators."""
    import jax.numpy as jnp
    ins = internal("microjax.inverse_ray.boundary", "in_source")
    stp = internal("microjax.inverse_ray.boundary", "step_smooth")
    cub = internal("microjax.inverse_ray.extended_source", "cubic_interp")
    prof = internal("microjax.inverse_ray.limb_darkening", "Is_limb_1st")
    fac = internal("microjax.inverse_ray.boundary", "calc_facB")
    for rho in (1e-4, .03, 1., 2.5):
        d = rho * np.concatenate([np.linspace(0, .999, 50), np.linspace(1.001, 4, 50)])
        ctx.close("in_source", np.asarray(seam(ins, jnp.array(d), rho)), (d < rho).astype(float), labels=[f"d={v},rho={rho}" for v in d])
        ctx.count(evals=len(d))
    x = np.concatenate([-np.logspace(1, -9, 40), np.logspace(-9, 1, 40)])
    for k in (1., 100., 1e4):
        ctx.close("step", np.asarray(seam(stp, jnp.array(x), k)), (x > 0).astype(float))
        ctx.count(evals=len(x))
    # cubic through four points reproduces every cubic of the alphabet
    nodes = [(-1., 0., 1., 2.), (0., .1, .2, .3), (3., 2., 1., 0.), (.02, .021, .0235, .03), (5., 1., 2., -4.)]
    for c in itertools.product([-2., 0., 1., 3.], repeat=4):
        for nd in nodes:
            for xq in (nd[1], .5 * (nd[1] + nd[2]), .3 * nd[2] + .7 * nd[3], nd[0]):
                y = [np.polyval(c, v) for v in nd]
                w = np.polyval(c, xq)
                g = _cub(cub, xq, nd, y)
                ctx.count(evals=1)
                ctx.expect(abs(g - w) <= 1e-6 * (1 + max(map(abs, y))), "cubic_interp", nodes=nd, coeff=c, x=xq, got=g, want=w)
    # profile: normalised to unit flux on the unit disk, zero outside, linear in mu
    t, g = np.polynomial.legendre.leggauss(40)
    mu = .5 * (t + 1)
    for u1 in (0., .1, .36, .5, .9, 1.):
        d = np.sqrt(1 - mu ** 2)
        I = np.asarray(seam(prof, jnp.array(d), u1))
        ctx.close("profile:flux", 2 * np.pi * np.sum(.5 * g * mu * I), 1.0, rtol=1e-9)
        ctx.close("profile:shape", I * np.pi * (1 - u1 / 3), 1 - u1 * (1 - mu), rtol=1e-9)
        ctx.close("profile:outside", np.asarray(seam(prof, jnp.array([1.001, 1.5, 30.]), u1)), np.zeros(3))
        ctx.count(evals=43)
    # partial-cell factor: continuous form of the 3/2-power rule on both sides of the switch
    for b in (0., 1e-8, 5e-3, 9.9e-3, .0101, .05, .3, .7, 1.):
        w = 2 / 3 * np.sqrt(1 + .5 / b) * (.5 + b) if b > .01 else 2 / 3 * b + .5
        ctx.close("facB", np.asarray(seam(fac, jnp.array(b + 1e-300), .01)), w, rtol=1e-9)
    ctx.spaces.append(dict(space="cubics x node sets x abscissae", size=256 * len(nodes) * 4))


_C = {}


def _cub(cub, x, nd, y):
    import jax, jax.numpy as jnp
    if "f" not in _C:
        _C["f"] = jax.jit(lambda x, n, y: cub(x, n[0], n[1], n[2], n[3], y[0], y[1], y[2], y[3]))
    return float(seam(_C["f"], x, jnp.array(nd), jnp.array(y)))


PARTS = dict(searches=searches, reductions=reductions, matching=matching, trapezoid=trapezoid, boundary=boundary)
