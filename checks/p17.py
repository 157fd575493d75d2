"""Special functions: every argument of a lattice that brackets each internal switch-over point."""
import numpy as np

PROPERTY = "P17"
LEVEL = "exploration"
RULE = ("all arguments of fixed lattices: logarithmic and linear grids over the range used, exact special values, and the floating-point "
        "neighbours of every switch-over point (0, 1e-5, 0.5, 1, 3, 5, 8, ...), values and first derivatives in both modes")
ASSUMPTIONS = ["reference values: scipy.special (Cephes/AMOS/boost), independent of the JAX code",
               "elliptic integrals: parameter m from -1e4 to 0.9999, scalars", "gamma: real part -20..100, imaginary part up to 150"]


def xs(lo, hi, n):
    v = list(np.geomspace(lo, hi, n)) + list(np.linspace(.05, 60, 1 + n))
    for c in (1e-5, 1e-4, 1e-3, .01, .1, .25, .5, 1., 2., 3., 4., 5., 6., 8., 10., 12., 15., 20., 25., 30., 50., 100.):
        v += [c, np.nextafter(c, 0), np.nextafter(c, 99), c * (1 - 1e-9), c * (1 + 1e-9)]
    return np.unique(v)


def _pad(x, n):
    return np.concatenate([x, np.full(-len(x) % n, x[-1])])


def bessel(ctx):
    import jax, jax.numpy as jnp, scipy.special as sp
    from microjax.fastlens import special as S
    n = 3000 if not ctx.thorough else 40000
    x = xs(1e-9, 1e6, n)
    fam = dict(j0=(S.j0, lambda t: sp.jv(0, t), lambda t: -sp.jv(1, t), True),
               j1=(S.j1, lambda t: sp.jv(1, t), lambda t: sp.jvp(1, t), True),
               j2=(S.j2, lambda t: sp.jv(2, t), lambda t: sp.jvp(2, t), True),
               j1p5=(S.j1p5, lambda t: sp.jv(1.5, t), lambda t: np.where(t > 0, sp.jvp(1.5, t), 0), False))
    for name, (f, ref, dref, even) in fam.items():
        for sgn in (1, -1) if even else (1,):
            t = sgn * np.concatenate([[0.], x])
            a = np.asarray(f(jnp.asarray(t)))
            ctx.expect(a.shape == t.shape, f"{name}:shape")
            with np.errstate(all="ignore"):
                b, db = ref(t), dref(np.maximum(t, 1e-300) if name == "j1p5" else t)
            env = (1 + 1e-3 * np.abs(t)) / np.sqrt(1 + np.abs(t))      # argument reduction at very large x
            ctx.close(f"{name}", a, b, atol=1e-12 * env, labels=[f"{v:.17g}" for v in t])
            s = (np.abs(t) < 1.2) & (t != 0)
            ctx.close(f"{name}:relative", a[s] / b[s], 1., atol=1e-9, labels=[f"{v:.17g}" for v in t[s]])
            ctx.close(f"{name}:zero", a[0], 1. if name == "j0" else 0., atol=1e-15)
            g = np.asarray(jax.jit(jax.vmap(jax.grad(lambda v: f(v[None])[0])))(jnp.asarray(t)))
            h = np.asarray(jax.jit(lambda v: jax.jvp(f, (v,), (jnp.ones_like(v),))[1])(jnp.asarray(t)))
            db[0] = .5 if name == "j1" else 0.
            ctx.close(f"{name}:reverse", g, db, atol=1e-11 * env, labels=[f"{v:.17g}" for v in t])
            ctx.close(f"{name}:forward", h, db, atol=1e-11 * env, labels=[f"{v:.17g}" for v in t])
            ctx.count(states=len(t), evals=3 * len(t), traces=1)
            ctx.outcome(name, len(t))
    # smooth joins: no jump across any pair of neighbouring doubles
    for name in fam:
        f = fam[name][0]
        lo = np.array([1e-5, .25, .5, 1., 2., 3., 5., 8., 20., 25.])
        d = np.abs(np.asarray(f(jnp.asarray(lo))) - np.asarray(f(jnp.asarray(np.nextafter(lo, 0)))))
        ctx.expect((d < 1e-13).all(), f"{name}:join", jumps=d)
    ctx.spaces.append(dict(space="Bessel arguments x {4 functions, signs, value/forward/reverse}", size=int(len(x)) * 21))


def gamma(ctx):
    import jax, jax.numpy as jnp, scipy.special as sp
    from microjax.fastlens import special as S
    re = [-20.5, -7.3, -2.5, -1.5, -1 + 1e-3, -.5, -1e-3, -1e-9, 1e-9, 1e-3, .25, .5, .75, 1., 1.25, 1.5, 2., 2.5, 3., 4.7, 7., 8., 9., 15.9, 16., 17., 40., 100.]
    im = [0., 1e-9, 1e-3, .1, .5, 1., 3., 7.9, 8., 20., 50., 77., 100., 150.]
    if ctx.thorough:
        re, im = re + list(np.linspace(-19.77, 60, 400)), im + list(np.geomspace(1e-6, 160, 120))
    im = im + [-v for v in im if v]
    z = (np.array(re)[:, None] + 1j * np.array(im)).ravel()
    b, psi = sp.gamma(z), sp.digamma(z)
    lab = [f"{v:.9g}" for v in z]
    a = np.asarray(S.gamma(jnp.asarray(z)))
    # conditioning at the poles
    tol = 1e-11 + 1e-15 / np.maximum(1e-300, np.abs(np.where(z.real < .5, np.sin(np.pi * z), 1)))
    ctx.close("gamma", a / b - 1, 0., atol=tol, labels=lab)
    d = np.asarray(jax.jit(jax.vmap(lambda q: jax.jvp(lambda y: S.gamma(y[None])[0], (q,), (1. + 0j,))[1]))(jnp.asarray(z)))
    ctx.close("gamma:derivative", d / b - psi, 0., atol=1e-10 * (1 + np.abs(psi)) + tol * np.abs(psi) * 10, labels=lab)
    x = np.array([v for v in re if v < 170])
    ctx.close("gamma:real", np.asarray(S.gamma(jnp.asarray(x))) / sp.gamma(x), 1., atol=1e-9, labels=[f"{v:.9g}" for v in x])
    for shp in ((4,), (2, 2), (1, 4), (2, 1, 2)):
        ctx.close("gamma:shape", np.asarray(S.gamma(jnp.asarray(np.array([.5, 1.5, 3., -.5]).reshape(shp)))), sp.gamma(np.array([.5, 1.5, 3., -.5]).reshape(shp)), rtol=1e-11)
    # exact functional equations, independent of the reference
    ctx.close("gamma:recurrence", np.asarray(S.gamma(jnp.asarray(z + 1))) / (z * a) - 1, 0., atol=10 * tol + 1e-9, labels=lab)
    ctx.count(states=len(z) + len(x), evals=3 * len(z) + len(x), traces=1)
    ctx.outcome("gamma arguments", len(z))
    ctx.spaces.append(dict(space="gamma: real x imaginary parts", size=len(z)))


def elliptic(ctx):
    import jax, jax.numpy as jnp, scipy.special as sp
    from microjax.fastlens import special as S
    n = 60 if not ctx.thorough else 1500
    pos = np.concatenate([[0.], np.geomspace(1e-13, .5, n), 1 - np.geomspace(1e-4, .5, n), [.5, 1e-3, np.nextafter(1e-3, 0), np.nextafter(1e-3, 1), .1, .9]])
    neg = -np.concatenate([np.geomspace(1e-13, 1e4, 2 * n), [1e-3, 1., 4., 25., 1 / 999.]])
    m = np.unique(np.concatenate([pos, neg]))
    for name, f, ref in (("ellipk", S.ellipk, sp.ellipk), ("ellipe", S.ellipe, sp.ellipe)):
        g = jax.jit(lambda v: jax.lax.map(lambda t: jnp.stack([f(t), jax.grad(f)(t), jax.jvp(f, (t,), (1.,))[1]]), v))
        r = np.asarray(g(jnp.asarray(m)))
        lab = [f"{v:.17g}" for v in m]
        ctx.close(name, r[:, 0] / ref(m), 1., atol=1e-10, labels=lab)
        K, E = sp.ellipk(m), sp.ellipe(m)
        with np.errstate(all="ignore"):
            d = (E - (1 - m) * K) / (2 * m * (1 - m)) if name == "ellipk" else (E - K) / (2 * m)
        small = np.abs(m) < 1e-2                           # Taylor series of the definition
        c = np.array([(np.prod(np.arange(1, 2 * k, 2)) / np.prod(np.arange(2, 2 * k + 1, 2))) ** 2 for k in range(9)])
        if name == "ellipe":
            c = -c / (2 * np.arange(9) - 1)
        d[small] = np.pi / 2 * np.polyval((c * np.arange(9))[:0:-1], m[small])
        ctx.close(f"{name}:reverse", r[:, 1] / d, 1., atol=1e-8, labels=lab)
        ctx.close(f"{name}:forward", r[:, 2] / d, 1., atol=1e-8, labels=lab)
        ctx.close(f"{name}:eager", float(f(-.3)), float(ref(-.3)), rtol=1e-12)
        ctx.count(states=len(m), evals=3 * len(m), traces=1)
        ctx.outcome(name, len(m))
    # Legendre's relation between complementary parameters
    q = np.concatenate([np.geomspace(1e-4, .5, 12)])
    fk, fe = (jax.jit(lambda v: jax.lax.map(f, v)) for f in (S.ellipk, S.ellipe))
    fk, fe = jax.jit(lambda v: jax.lax.map(S.ellipk, v)), jax.jit(lambda v: jax.lax.map(S.ellipe, v))
    k1, e1, k2, e2 = (np.asarray(v) for v in (fk(jnp.asarray(q)), fe(jnp.asarray(q)), fk(jnp.asarray(1 - q)), fe(jnp.asarray(1 - q))))
    ctx.close("legendre", e1 * k2 + e2 * k1 - k1 * k2, np.pi / 2, atol=1e-9)
    ctx.spaces.append(dict(space="elliptic parameters x {K, E} x {value, forward, reverse}", size=6 * len(m)))


PARTS = dict(bessel=bessel, gamma=gamma, elliptic=elliptic)
