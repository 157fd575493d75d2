"""Polynomial root solver: every polynomial with roots from a finite alphabet, every warm-start edge between them."""
import itertools
import numpy as np
from mc import oracle as O
from mc.engine import internal, seam, Skip

PROPERTY = "P05"
LEVEL = "model_checking"
RULE = ("states = (polynomial, ordered list of current roots); transitions = solve a polynomial cold, or warm-started from the "
        "solver's own roots of any other polynomial / any permutation of them; every transition is executed by the real "
        "solver and its result compared as a multiset with the known exact roots")
ASSUMPTIONS = ["simple roots separated by at least 0.09, or one pair at least 6e-7 apart (multiple roots are ill-conditioned in any solver)", "float64"]
ROOTS = [-2, -1, -.5, 0, .4, 1, 2.5, 1j, -1j, .8 + .6j, .8 - .6j, -1.5j + .3, -1.2 + .9j]


def solver():
    return internal("microjax.poly_solver", "poly_roots")


def dist(a, b):
    """worst distance of the best matching, batched; exact for well separated sets.
    a: (B,n) exact, b: (B,n) computed.  inf when not a bijection."""
    D = np.abs(a[:, :, None] - b[:, None, :])
    j = np.argmin(np.where(np.isnan(D), np.inf, D), axis=2)
    bij = (np.sort(j, 1) == np.arange(a.shape[1])).all(1)
    d = np.take_along_axis(D, j[:, :, None], 2)[:, :, 0].max(1)
    return np.where(bij & np.isfinite(b).all(1), d, np.inf)


def expand(rs):
    return np.array([np.poly(np.array(r, complex)) for r in rs], complex)


def judge(ctx, key, rs, got, tol=1e-8, labels=None):
    a = np.array(rs, complex)
    e = dist(a, np.asarray(got))
    ctx.n["compared"] += len(e)
    ctx.worst[key] = max(ctx.worst.get(key, 0), float(np.max(e)) / tol)
    for k in np.nonzero(~(e <= tol))[0][:4]:
        ctx.fail(f"{key}@{list(rs[k])}" + (f"|{labels[k]}" if labels is not None else ""), exact=rs[k], got=np.asarray(got)[k],
                 err=float(e[k]), nbad=int((~(e <= tol)).sum()))


def cold(ctx):
    import jax.numpy as jnp
    f = solver()
    for n in range(1, 7):
        rs = list(itertools.combinations(ROOTS, n))
        c = expand(rs)
        got = np.asarray(seam(f, jnp.array(c)))
        ctx.expect(got.shape == (len(rs), n), "cold:shape", got=list(got.shape))
        judge(ctx, "cold", rs, got)
        # scaling of the coefficients must not matter
        for sc in (1e-6, -3., 1e5 * 1j, .2 - .7j):
            judge(ctx, f"cold:scaled:{sc}", rs, seam(f, jnp.array(c * sc)))
        # rotation / dilation of the root set: p(x/t)
        for t in (1j, 2. * np.exp(.7j), .25):
            rt = [tuple(t * v for v in np.array(r, complex)) for r in rs]
            judge(ctx, f"cold:rotated:{t:.2f}", rt, seam(f, jnp.array(expand(rt))))
        ctx.count(evals=8 * len(rs), states=len(rs), transitions=8 * len(rs), traces=8 * len(rs))
        ctx.outcome(f"degree {n}", len(rs))
        ctx.spaces.append(dict(space=f"root subsets, degree {n}", size=len(rs)))
    ctx.sample(roots=rs[0], coefficients=c[0], got=got[0])


def real_coeffs(ctx):
    """conjugate-closed root sets given as real arrays (real dtype)."""
    import jax.numpy as jnp
    f = solver()
    reals, pairs = [-2., -.7, 0., .4, 1., 2.5], [1j, .8 + .6j, -1.1 + .3j, .2 + 2j]
    for n in range(1, 7):
        rs = []
        for k in range(n // 2 + 1):
            for pp in itertools.combinations(pairs, k):
                for rr in itertools.combinations(reals, n - 2 * k):
                    rs.append(tuple(rr) + tuple(pp) + tuple(np.conj(p) for p in pp))
        c = expand(rs)
        assert np.abs(c.imag).max() < 1e-12
        judge(ctx, "real", rs, seam(f, jnp.array(c.real)))
        judge(ctx, "real-as-complex", rs, seam(f, jnp.array(c.real + 0j)))
        ctx.count(evals=2 * len(rs), states=len(rs), transitions=2 * len(rs), traces=2 * len(rs))
        ctx.outcome(f"degree {n}", len(rs))
    # binomials x^n - c : all starting symmetries
    for n in range(1, 11):
        for c0 in (1., -1., 1j, 16., -1e-3):
            p = np.zeros(n + 1, complex)
            p[0], p[-1] = 1, -c0
            ex = abs(c0) ** (1 / n) * np.exp(1j * (np.angle(c0) + 2 * np.pi * np.arange(n)) / n)
            judge(ctx, f"binomial:{n}:{c0}", [tuple(ex)], np.asarray(seam(f, jnp.array(p)))[None])
            ctx.count(evals=1, states=1, transitions=1, traces=1)


DEC = [1e-6, -1e-4, 1e-3j, .1 - .05j, 1., -30j, 1e3 + 2e2j, -1e6]


def decades(ctx):
    """roots of very different sizes: every subset of an alphabet spanning twelve decades, cold and warm."""
    import jax.numpy as jnp
    f = solver()
    for n in range(2, 7 if not ctx.thorough else 9):
        rs = [tuple(r) for r in itertools.combinations(DEC, n)]
        c = expand(rs)
        a = np.array(rs, complex)
        dp = np.array([np.polyval(np.polyder(x), r) for x, r in zip(c, a)])
        kap = np.array([np.polyval(np.abs(x), np.abs(r)) for x, r in zip(c, a)]) / np.abs(dp)
        tol = 1e-10 + 1e-6 * np.abs(a) + 1e-13 * kap
        far = np.array([[2e6 * np.exp(2j * k) for k in range(n)]] * len(rs))
        for nm, got in (("cold", seam(f, jnp.array(c))), ("warm-far", _warm(f, c, far)), ("warm-next", _warm(f, c, np.roll(a, 1, 0)))):
            got = np.asarray(got)
            D = np.abs(a[:, :, None] - got[:, None, :])
            ok = (D.min(2) <= tol).all(1)
            for k in np.nonzero(~ok)[0][:3]:
                ctx.fail(f"decades:{nm}@{list(rs[k])}", exact=rs[k], got=got[k], nbad=int((~ok).sum()))
            ctx.count(evals=len(rs), states=len(rs), transitions=len(rs), traces=len(rs), compared=len(rs))
        ctx.outcome(f"degree {n}", len(rs))
        ctx.spaces.append(dict(space=f"root subsets over twelve decades, degree {n}", size=len(rs)))


def close_pairs(ctx):
    """a pair of roots 1e-2 ... 3e-7 apart (conjugate pair of a real polynomial, and a rotated one) next to well separated roots."""
    import jax.numpy as jnp
    f = solver()
    rest = [(), (-2.,), (.4, -1.), (1j, -1j), (2.5, -.5, -1.), (-2., 2.5, .8 + .6j, .8 - .6j)]
    for d in (3e-7, 5e-7, 1e-6, 3e-6, 1e-5, 1e-4, 1e-3, 1e-2):
        for o in rest:
            rs = [tuple(t * r for r in (a + 1j * d, a - 1j * d) + o) for a in (1., 1e-3, 0., -.7) for t in (1., 1j, np.exp(.3j))]
            c = np.array([np.poly(r) for r in rs], complex)
            for k, r in enumerate(rs):                       # exactly real where the roots say so
                if np.allclose(sorted(r, key=lambda z: (z.real, z.imag)), sorted(np.conj(r), key=lambda z: (z.real, z.imag)), rtol=0, atol=1e-15):
                    c[k] = c[k].real
            a = np.array(rs)
            for nm, got in (("cold", seam(f, jnp.array(c))), ("warm", _warm(f, c, np.roll(a, 1, 1) + .01)), ("real", seam(f, jnp.array(c[::3].real)))):
                x = a[::3] if nm == "real" else a
                D = np.abs(x[:, :, None] - np.asarray(got)[:, None, :])
                ok = (D.min(2) <= d / 10).all(1)
                for k in np.nonzero(~ok)[0][:3]:
                    ctx.fail(f"close:{nm}@{d:g},{x[k]}", exact=x[k], got=np.asarray(got)[k], nbad=int((~ok).sum()))
                ctx.count(evals=len(x), states=len(x), transitions=len(x), traces=len(x), compared=len(x))
        ctx.outcome(f"pair distance {2 * d:g}", len(rest))
    ctx.spaces.append(dict(space="half distances x other roots x centres x rotations", size=8 * len(rest) * 12))


def _warm(f, c, init):
    import jax.numpy as jnp
    return np.asarray(seam(f, jnp.array(c), custom_init=True, roots_init=jnp.array(init)))


def warm(ctx):
    """complete digraph of warm starts among all degree-n polynomials of the alphabet."""
    import jax.numpy as jnp
    f = solver()
    for n, al in ((2, ROOTS), (3, ROOTS[:1] + ROOTS[3:10] if not ctx.thorough else ROOTS), (5, [-2, -.5, 0, 1, 1j, -1j, .8 + .6j] if not ctx.thorough else ROOTS[:8])):
        rs = list(itertools.combinations(al, n))
        c = expand(rs)
        base = np.asarray(seam(f, jnp.array(c)))
        i, j = [v.ravel() for v in np.meshgrid(np.arange(len(rs)), np.arange(len(rs)), indexing="ij")]
        got = _warm(f, c[j], base[i])
        judge(ctx, f"warm:n={n}", [rs[k] for k in j], got, labels=[f"from{list(rs[k])}" for k in i])
        ctx.count(evals=len(i), states=len(rs), transitions=len(i), traces=len(i))
        ctx.spaces.append(dict(space=f"warm-start digraph degree {n}", states=len(rs), transitions=len(i)))
        ctx.outcome(f"degree {n}", len(i))
    # every permutation of the initial values, for the same and for another polynomial
    rs = [(-2, -.5, .4, 1j, .8 - .6j), (0, 1, -1j, 1j, 2.5)]
    c = expand(rs)
    base = np.asarray(seam(f, jnp.array(c)))
    perms = np.array(list(itertools.permutations(range(5))))
    for a in (0, 1):
        for b in (0, 1):
            got = _warm(f, np.repeat(c[b:b + 1], len(perms), 0), base[a][perms])
            judge(ctx, f"warm:perm:{a}->{b}", [rs[b]] * len(perms), got)
            if a == b:
                # exact roots in a given order are a fixed point: order preserved
                ctx.close("warm:fixed-point", got, base[a][perms], atol=1e-8)
            ctx.count(evals=len(perms), transitions=len(perms), traces=len(perms), states=len(perms))
    # arbitrary (also all-real, clustered and far) initial values
    inits = [[.1, .2, .3, .4, .5], [-1, 0, 1, 2, 3], [1e3, -1e3, 1e3j, -1e3j, 5e2], [1j, 2j, 3j, -1j, -2j], [.1 + .1j, .1 - .1j, .12, 0, .3j]]
    alls = list(itertools.combinations(ROOTS, 5))
    if not ctx.thorough:
        alls = alls[::5]
    for k, it in enumerate(inits):
        judge(ctx, f"warm:arbitrary{k}", alls, _warm(f, expand(alls), np.repeat(np.array([it], complex), len(alls), 0)))
        ctx.count(evals=len(alls), transitions=len(alls), traces=len(alls))


def shapes(ctx):
    """batch axes: each polynomial of a batch of any rank has the roots it has alone."""
    import jax, jax.numpy as jnp
    f = solver()
    rs = list(itertools.combinations(ROOTS[:9], 3))[:60]
    c = expand(rs)
    one = np.array([np.asarray(f(jnp.array(x))) for x in c])
    judge(ctx, "alone", rs, one)
    for shp in ((60,), (1, 60), (60, 1), (3, 20), (2, 3, 10), (5, 3, 2, 2)):
        got = np.asarray(f(jnp.array(c.reshape(shp + (4,)))))
        ctx.expect(got.shape == shp + (3,), f"batch:{shp}:shape", got=list(got.shape))
        judge(ctx, f"batch:{shp}", rs, got.reshape(-1, 3))
        ini = np.roll(one, 7, axis=0)
        gw = np.asarray(f(jnp.array(c.reshape(shp + (4,))), custom_init=True, roots_init=jnp.array(ini.reshape(shp + (3,)))))
        ctx.expect(gw.shape == shp + (3,), f"batch-warm:{shp}:shape", got=list(gw.shape))
        judge(ctx, f"batch-warm:{shp}", rs, gw.reshape(-1, 3))
        ctx.count(evals=120, transitions=120, states=60, traces=120)
    got = np.asarray(jax.jit(jax.vmap(f))(jnp.array(c)))
    judge(ctx, "vmap", rs, got)
    # position of a badly scaled companion in the batch
    hard = np.array([1e-3, 1e3, 1, -1e-3], complex)
    for pos in range(4):
        b = np.insert(c[:3], pos, hard, axis=0)
        g = np.delete(np.asarray(f(jnp.array(b))), pos, axis=0)
        judge(ctx, f"mixed:{pos}", rs[:3], g)


def lens_polys(ctx):
    """degree 5 and 10 lens polynomials: residuals and bijection with LAPACK roots (well conditioned ones)."""
    import jax.numpy as jnp
    f = solver()
    W = np.array([x + 1j * y for x in (-2., -.9, -.3, 0., .05, .4, 1.3, 4.) for y in (-1.1, -.2, 0., .03, .6)])
    for nl in (2, 3):
        for s, q in itertools.product((.5, 1., 1.9), (.05, .6, 1., 3.)):
            for r3, psi, q3 in ([(0, 0, 0)] if nl == 2 else [(.8, 2.1, .4), (1.3, -.7, .1)]):
                m, zl = O.system(nl, dict(s=s, q=q, q3=q3, r3=r3, psi=psi))
                zl = zl - O.shift_cm(s, q)
                c = O.lens_poly(W, m, zl)[:, ::-1]
                keep = np.abs(c[:, 0]) > 1e-6
                c = c[keep]
                ref = O.roots_batch(c[:, ::-1])
                got = np.asarray(seam(f, jnp.array(c)))
                n = c.shape[1] - 1
                for k in range(len(c)):
                    dp = np.polyder(c[k])
                    kap = np.polyval(np.abs(c[k]), np.abs(ref[k])) / np.maximum(np.abs(np.polyval(dp, ref[k])), 1e-300)
                    tol = 1e-14 * kap * 50 + 1e-9
                    sep = np.min(np.abs(ref[k][:, None] - ref[k][None]) + 1e9 * np.eye(n), axis=1)
                    if (tol * 10 > sep).any() or (tol > 1e-3).any():
                        ctx.count(unjudged=1)
                        continue
                    D = np.abs(ref[k][:, None] - got[k][None])
                    j = D.argmin(1)
                    ok = (np.sort(j) == np.arange(n)).all() and (D.min(1) <= tol).all()
                    ctx.expect(ok, f"lens{nl}:s={s},q={q},r3={r3},psi={psi}", w=W[keep][k], got=got[k], ref=ref[k])
                ctx.count(evals=len(c), states=len(c), transitions=len(c), traces=len(c))
                ctx.outcome(f"lenses={nl}")


def derivatives(ctx):
    """root derivatives in both modes against the closed form d root / d coefficient."""
    import jax, jax.numpy as jnp
    f = solver()
    for n in (1, 2, 3, 4, 5, 6):
        rs = list(itertools.combinations(ROOTS[2:11], n))
        if n >= 3 and not ctx.thorough:
            rs = rs[::2]
        c = expand(rs)
        K = n + 1

        def closed(c, r):
            # p(z; c)=0 -> dz/dc_k = - z^(n-k) / p'(z)
            dp = np.array([np.polyval(np.polyder(a), b) for a, b in zip(c, r)])
            return -np.stack([r ** (n - k) for k in range(K)], -1) / dp[..., None]
        base = np.asarray(f(jnp.array(c)))
        want = closed(c, base)
        V = np.eye(K)
        for nm, fn in (("cold", lambda x, r: f(x)), ("warm", lambda x, r: f(x, custom_init=True, roots_init=r))):
            def tang(x, r, v):
                return jax.jvp(lambda y: fn(y, r), (x,), (v,))
            for k in range(K):
                for u in (1., 1j):
                    vv = jnp.array(np.repeat((u * V[k])[None], len(c), 0).astype(complex))
                    pr, tg = jax.jit(jax.vmap(tang))(jnp.array(c), jnp.array(base), vv)
                    j = np.argmin(np.abs(np.asarray(pr)[:, :, None] - base[:, None, :]), 2)
                    w = np.take_along_axis(want[:, :, k] * u, j, 1)
                    ctx.close(f"jvp:{nm}:n={n}", np.asarray(tg), w, rtol=1e-6, atol=1e-7)
                    ctx.count(evals=len(c), transitions=len(c), traces=len(c))
            # reverse mode: gradient of a real symmetric function of the roots w.r.t. real and imaginary parts
            def sym(x, r):
                z = fn(x[0] + 1j * x[1], r)
                return jnp.sum(jnp.abs(z) ** 2 + (z ** 2).real)
            x = np.stack([c.real, c.imag], 1)
            g = np.asarray(jax.jit(jax.vmap(jax.grad(sym)))(jnp.array(x), jnp.array(base)))
            hz = 2 * np.conj(base) + 2 * base            # d(|z|^2+Re z^2) = Re((2 conj z + 2 z) dz)
            w0 = np.real(np.sum(hz[:, :, None] * want, 1))
            w1 = np.real(np.sum(hz[:, :, None] * want * 1j, 1))
            ctx.close(f"grad:{nm}:n={n}", g, np.stack([w0, w1], 1), rtol=1e-6, atol=1e-6)
            ctx.count(evals=len(c), states=len(c))
        ctx.outcome(f"degree {n}", len(rs))


PARTS = dict(cold=cold, real_coeffs=real_coeffs, decades=decades, close_pairs=close_pairs, warm=warm, shapes=shapes, lens_polys=lens_polys, derivatives=derivatives)
