"""Marginalised likelihoods against the dense Gaussian density, exhaustively over small data sets."""
import itertools
import numpy as np

PROPERTY = "P21"
LEVEL = "exploration"
RULE = ("every combination of data vector, design matrix, noise (variances / correlated covariance), prior mean and prior "
        "covariance from finite alphabets, for 1-4 data points, plus every order of a base set; non-trivial = the value "
        "was compared with the dense Gaussian negative log density")
ASSUMPTIONS = ["float64", "symmetric positive definite covariances"]


def ref_batch(f, M, C, mu, L):
    """-log N(f; M mu, C + M L M^T) - n/2 log 2pi by an extended-precision LDL^T of the full covariance."""
    ld = np.longdouble
    f, M, C, mu, L = [np.asarray(v, float).astype(ld) for v in (f, M, C, mu, L)]
    S = C + np.einsum("bij,bjk,blk->bil", M, L, M)
    r = f - np.einsum("bij,bj->bi", M, mu)
    n = f.shape[1]
    out = np.zeros(f.shape[0], ld)
    S = S.copy()
    r = r.copy()
    for k in range(n):                      # symmetric elimination: pivots are conditional variances
        d = S[:, k, k]
        out += r[:, k] ** 2 / d + np.log(d)
        c = S[:, k + 1:, k] / d[:, None]
        r[:, k + 1:] -= c * r[:, k:k + 1]
        S[:, k + 1:, k + 1:] -= c[:, :, None] * S[:, k:k + 1, k + 1:]
    return (0.5 * out).astype(float)


def ref(f, M, C, mu, L):
    return ref_batch(*[np.asarray(v)[None] for v in (f, M, C, mu, L)])[0]


def _batch(fn, *cols):
    import jax, jax.numpy as jnp
    return np.asarray(jax.jit(jax.vmap(fn))(*[jnp.array(np.array(c, float)) for c in cols]))


MUS = [(0., 0.), (1.5, 0.), (0., -2.), (-.7, .3)]
LAMS = [np.diag([1., 1.]), np.diag([1e-3, 4.]), np.diag([50., 1e4]), np.array([[2., .9], [.9, .5]]), np.array([[.3, -.2], [-.2, .8]])]


def diagonal(ctx):
    from microjax.likelihood import nll_ulens, nll_ulens_general
    vals = [-1., 0., 2.5]
    mags = [1., 1.34, 20.]
    sig = [1e-2, 1., 9.]
    pri = [(1., 1.), (1e-4, 3.), (1e6, 1e-2), (5., 1e5)]
    for n in (1, 2, 3):
        rows = []
        for f in itertools.product(vals, repeat=n):
            for m in itertools.product(mags, repeat=n):
                for s in itertools.product(sig, repeat=n):
                    if n == 3 and not ctx.thorough and len(set(s)) == 1 and len(set(m)) == 1:
                        continue
                    for p in pri:
                        rows.append((f, m, s, p))
        ctx.spaces.append(dict(space=f"diagonal n={n}", size=len(rows)))
        f = np.array([r[0] for r in rows]); m = np.array([r[1] for r in rows])
        M = np.stack([m, np.ones_like(m)], -1)
        s = np.array([r[2] for r in rows]); p = np.array([r[3] for r in rows])
        got = _batch(lambda f, M, s, p: nll_ulens(f, M, s, p[0], p[1]), f, M, s, p)
        C = np.einsum("ni,ij->nij", s, np.eye(n))
        L = np.einsum("ni,ij->nij", p, np.eye(2))
        want = ref_batch(f, M, C, np.zeros((len(rows), 2)), L)
        lab = [f"flux={r[0]},m={r[1]},s2={r[2]},prior={r[3]}" for r in rows]
        ctx.close("diag", got, want, rtol=1e-6, atol=2e-6, labels=lab)
        gg = _batch(nll_ulens_general, f, M, C, np.zeros((len(rows), 2)), L)
        ctx.close("general_on_diag", gg, want, rtol=1e-6, atol=2e-6, labels=lab)
        ctx.count(evals=2 * len(rows))
        ctx.outcome(f"n={n}", len(rows))
        ctx.sample(flux=f[-1], m=m[-1], s2=s[-1], prior=p[-1], got=got[-1], want=want[-1])


def general(ctx):
    from microjax.likelihood import nll_ulens_general
    vals = [-1., .5, 3.]
    for n in (1, 2, 3, 4):
        Cs = [np.eye(n) * .3, np.diag(np.arange(1, n + 1) * 1.) ** 2 * .1,
              .5 * np.exp(-np.abs(np.subtract.outer(np.arange(n), np.arange(n)))) + .05 * np.eye(n),
              np.diag(np.arange(1, n + 1)) * .2 + .7 * np.outer(np.ones(n), np.ones(n)) + .1 * np.diag((-1.) ** np.arange(n)) * .5]
        Ms = [np.stack([1 + .4 * np.arange(n) ** 2, np.ones(n)], -1), np.stack([np.full(n, 1.3), np.ones(n)], -1),
              np.stack([np.sin(np.arange(n)) * 2, np.cos(np.arange(n)) + .2 * np.arange(n)], -1)]
        rows = [(f, M, C, mu, L) for f in itertools.product(vals, repeat=n) for M in Ms for C in Cs for mu in MUS for L in LAMS]
        if n == 4 and not ctx.thorough:
            rows = [r for r in rows if r[0][0] != r[0][3]]
        ctx.spaces.append(dict(space=f"general n={n}", size=len(rows)))
        cols = [np.array([r[k] for r in rows]) for k in range(5)]
        got = _batch(nll_ulens_general, *cols)
        want = ref_batch(*cols)
        ctx.close("general", got, want, rtol=1e-7, atol=1e-7, labels=[str(i) for i in range(len(rows))])
        ctx.count(evals=len(rows))
        ctx.outcome(f"n={n}", len(rows))
        ctx.sample(flux=cols[0][-1], mu=cols[3][-1], got=got[-1], want=want[-1])


def orders(ctx):
    from microjax.likelihood import nll_ulens, nll_ulens_general
    f = np.array([1., -2., 4., .5, 7.]); m = np.array([1., 3., 2., 10., 1.2]); s = np.array([.1, 1., .4, 2., .03])
    perms = [list(p) for p in itertools.permutations(range(5))]
    ctx.spaces.append(dict(space="orders of 5 points", size=len(perms)))
    M = np.stack([m, np.ones(5)], -1)
    C = np.diag(s) + .2 * np.exp(-np.abs(np.subtract.outer(np.arange(5), np.arange(5))))
    w1 = ref(f, M, np.diag(s), np.zeros(2), np.diag([3., 8.]))
    w2 = ref(f, M, C, np.array([1., -.5]), LAMS[3])
    F = np.array([f[p] for p in perms]); MM = np.array([M[p] for p in perms]); SS = np.array([s[p] for p in perms])
    CC = np.array([C[np.ix_(p, p)] for p in perms])
    ctx.close("order:diag", _batch(lambda a, b, c: nll_ulens(a, b, c, 3., 8.), F, MM, SS), np.full(len(perms), w1), rtol=1e-8)
    import jax.numpy as jnp
    ctx.close("order:general", _batch(lambda a, b, c: nll_ulens_general(a, b, c, jnp.array([1., -.5]), jnp.array(LAMS[3])), F, MM, CC),
              np.full(len(perms), w2), rtol=1e-8)
    ctx.count(evals=2 * len(perms))
    # a long light curve: offset flux, large baseline
    n = 300
    t = np.linspace(-30, 30, n)
    u = np.sqrt(.1 ** 2 + (t / 20) ** 2)
    A = (u * u + 2) / (u * np.sqrt(u * u + 4))
    fl = 12.3 * A + 4. + .3 * np.sin(11.3 * t)
    s2 = .04 + .02 * np.cos(t) ** 2
    M = np.stack([A, np.ones(n)], -1)
    for pr in ((1e9, 1e9), (1., 1.), (1e2, 1e-6)):
        w = ref(fl, M, np.diag(s2), np.zeros(2), np.diag(pr))
        ctx.close("long:diag", np.asarray(nll_ulens(jnp.array(fl), jnp.array(M), jnp.array(s2), *pr)), w, rtol=1e-6)
        ctx.close("long:general", np.asarray(nll_ulens_general(jnp.array(fl), jnp.array(M), jnp.diag(jnp.array(s2)), jnp.zeros(2), jnp.diag(jnp.array(pr)))), w, rtol=1e-6)
        ctx.count(evals=2)


def gradients(ctx):
    import jax, jax.numpy as jnp
    from microjax.likelihood import nll_ulens, nll_ulens_general
    n = 3
    f0 = [np.array(v) for v in itertools.product([-1., 2.], repeat=n)]
    C = .3 * np.exp(-np.abs(np.subtract.outer(np.arange(n), np.arange(n)))) + .1 * np.diag(np.arange(n) + 1.)
    m = np.array([1., 2.5, 1.4])

    def unpack(p):
        return p[:n], jnp.stack([p[n:2 * n], jnp.ones(n)], -1)

    def g_d(p):
        f, M = unpack(p)
        return nll_ulens(f, M, p[2 * n:3 * n], p[3 * n], p[3 * n + 1])

    def g_g(p):
        f, M = unpack(p)
        return nll_ulens_general(f, M, jnp.array(C), p[2 * n:2 * n + 2], jnp.array([[1., .3], [.3, 1.]]) * p[2 * n + 2])

    def r_d(p):
        return ref(p[:n], np.stack([p[n:2 * n], np.ones(n)], -1), np.diag(p[2 * n:3 * n]), np.zeros(2), np.diag(p[3 * n:3 * n + 2]))

    def r_g(p):
        return ref(p[:n], np.stack([p[n:2 * n], np.ones(n)], -1), C, p[2 * n:2 * n + 2], np.array([[1., .3], [.3, 1.]]) * p[2 * n + 2])

    h = 1e-5
    for nm, fn, rf, tail in (("diag", g_d, r_d, [.5, 1., .2, 2., 3.]), ("general", g_g, r_g, [.4, -1., .7])):
        rev = jax.jit(jax.grad(fn)); fwd = jax.jit(jax.jacfwd(fn))
        for f in f0:
            p = np.concatenate([f, m, tail])
            fd = np.array([(rf(p + h * e) - rf(p - h * e)) / (2 * h) for e in np.eye(len(p))])
            ctx.close(f"grad:{nm}:rev", np.asarray(rev(jnp.array(p))), fd, rtol=1e-4, atol=1e-5)
            ctx.close(f"grad:{nm}:fwd", np.asarray(fwd(jnp.array(p))), fd, rtol=1e-4, atol=1e-5)
            ctx.count(evals=2)
    ctx.spaces.append(dict(space="gradient sign patterns", size=2 * len(f0)))


PARTS = dict(diagonal=diagonal, general=general, orders=orders, gradients=gradients)
