"""FFT-based single-lens magnification: every class x source radius x impact parameter x profile against exact disk integrals."""
import itertools
import numpy as np
from numpy.polynomial.legendre import leggauss

PROPERTY = "P19"
LEVEL = "exploration"
NEEDS_JAX = True
RULE = ("all (implementation class, source radius, impact parameter in units of the radius, profile) combinations on a lattice refined around the limb, "
        "the switch-over radius, the switch-over impact parameter and the end of the table; every value compared with a two-dimensional quadrature, "
        "and with the other implementation; array shapes, signs and orders enumerated")
ASSUMPTIONS = ["impact parameters within 2.5% of the limb are judged at 1.5% (interpolation across the logarithmic singularity of the slope), everything else at 0.5%",
               "mag_disk and mag_limb have no small-source branch and are judged for rho >= 1.05e-4 only",
               "magnification_log is an unimplemented stub in both modules and is not judged"]

X, W = leggauss(80)
T, CT = np.sin(X * np.pi / 2), np.cos(X * np.pi / 2)


def quad(f, a, b):                       # integrable square-root or logarithmic ends
    m, h = (a + b) / 2, (b - a) / 2
    return sum(w * np.pi / 2 * h * c * f(m + h * t) for t, c, w in zip(T, CT, W))


def exact(u, rho, S):
    if u > 3 * rho:                      # smooth: source-centred polar coordinates
        x, ph = (1 + T) / 2, np.arange(96) * np.pi / 48
        d = np.abs(u + rho * x[:, None] * np.exp(1j * ph))
        A = ((d * d + 2) / d / np.sqrt(d * d + 4)).mean(1) * 2 * np.pi
        return float(np.sum(W * np.pi / 4 * CT * x * S(x) * A))
    def ring(r):
        if u == 0:
            return 2 * np.pi * float(S(np.array([r / rho]))[0])
        c = (r * r + u * u - rho * rho) / (2 * r * u)
        if c >= 1:
            return 0.
        pm = np.pi if c <= -1 else np.arccos(c)
        phi = pm / 2 * (1 + T)
        d = np.sqrt(np.maximum(0, r * r + u * u - 2 * r * u * np.cos(phi))) / rho
        return 2 * np.sum(W * np.pi / 2 * pm / 2 * CT * S(np.minimum(d, 1)))
    g = lambda r: (r * r + 2) / np.sqrt(r * r + 4) * ring(r)
    if u < rho:
        tot = quad(g, 0, rho - u) + (quad(g, rho - u, rho + u) if u else 0)
    else:
        tot = quad(g, u - rho, u + rho)
    return tot / rho ** 2


DISK = lambda x: np.ones_like(x) / np.pi
N1 = lambda x: 1.5 / np.pi * np.sqrt(1 - x * x)
N2 = lambda x: 2 / np.pi * (1 - x * x)
LIN = lambda a: (lambda x: (1 - a * (1 - np.sqrt(1 - x * x))) / np.pi / (1 - a / 3))

US = (0., 1e-4, .01, .1, .3, .5, .7, .85, .93, .97, .985, 1., 1.015, 1.03, 1.07, 1.15, 1.3, 1.7, 2.5, 4., 7., 9.97, 10.03, 13., 30.)
RHOS = (1e-6, 3e-5, 9.9e-5, 1.01e-4, 1.2e-4, 3e-4, 1e-3, 3e-3, .01, .03, .1, .3, .7, 1., 1.5, 3.)


def us(rho, thorough):
    u = US + ((.002, .05, .2, .4, .6, .78, .89, .95, .99, .996, 1.004, 1.01, 1.05, 1.1, 1.22, 1.5, 2., 3., 5.5, 9.3, 10.7, 18., 55., 90.) if thorough else ())
    return np.array(sorted(set(x * rho for x in u) | {1., 3., 30., 95., 99.9, 100.1, 150.}))


def rhos(thorough):
    return RHOS + ((1e-5, 9.999e-5, 1.001e-4, 1.5e-4, 6e-4, 2e-3, 6e-3, .02, .06, .2, .5, 2., 5.) if thorough else ())


def judge(ctx, key, u, rho, got, want):
    lim = np.abs(u / rho - 1) < .025
    ctx.close(key, got / want - 1, 0, atol=5e-3, labels=[f"u={v:.6g}" for v in u], mask=~lim)
    if lim.any():
        ctx.close(key + ":limb", got / want - 1, 0, atol=1.5e-2, labels=[f"u={v:.6g}" for v in u], mask=lim)
    ctx.count(states=len(u), evals=1, traces=1)


def _profile(ctx, S, makers, lo=0.):
    objs = [(nm, mk()) for nm, mk in makers]
    for rho in rhos(ctx.thorough):
        if rho < lo:
            continue
        u = us(rho, ctx.thorough)
        want = np.array([exact(v, rho, S) for v in u])
        vals = {}
        for nm, o in objs:
            a = np.asarray(o(u, rho))
            ctx.expect(a.shape == u.shape, f"{nm}:shape,rho={rho}")
            judge(ctx, f"{nm}:rho={rho:.6g}", u, rho, a, want)
            vals[nm] = a
            ctx.outcome(nm)
        ns = list(vals)
        for i in range(1, len(ns)):
            ctx.close(f"{ns[0]}=={ns[i]}:rho={rho:.6g}", vals[ns[i]] / vals[ns[0]], 1, atol=2e-3, labels=[f"u={v:.6g}" for v in u])
    ctx.spaces.append(dict(space=f"{[n for n, _ in makers]}: radii x impact parameters", size=sum(r >= lo for r in rhos(ctx.thorough)) * len(us(1., ctx.thorough))))
    ctx.sample(rho=rho, u=u[:3], exact=want[:3], got=a[:3])


def mods():
    from microjax.fastlens import mag_fft, mag_fft_jax
    return mag_fft, mag_fft_jax


def disk(ctx):
    N, J = mods()
    _profile(ctx, DISK, [("numpy-disk", lambda: N.magnification_disk().A), ("jax-disk", lambda: J.magnification_disk().A)])


def disk_plain(ctx):
    N, J = mods()
    _profile(ctx, DISK, [("jax-mag_disk", lambda: J.mag_disk().A), ("jax-mag_limb(0)", lambda: (lambda o: lambda u, r: o.A(u, r, 0.))(J.mag_limb()))], 1.05e-4)


def power(ctx):
    N, J = mods()
    _profile(ctx, N1, [("numpy-limb1", lambda: N.magnification_limb(1).A), ("jax-limb1", lambda: J.magnification_limb1().A)])
    _profile(ctx, N2, [("numpy-limb2", lambda: N.magnification_limb(2).A), ("jax-limb2", lambda: J.magnification_limb2().A)])


def linear(ctx):
    N, J = mods()
    o = J.mag_limb()
    for a1 in (0., .2, .5, .8, 1.) if not ctx.thorough else (0., .05, .2, .35, .5, .65, .8, .95, 1.):
        _profile(ctx, LIN(a1), [(f"mag_limb(a1={a1})", lambda: lambda u, r: o.A(u, r, a1))], 1.05e-4)
        _profile(ctx, LIN(a1), [(f"mag_limb1(a1={a1})", lambda: J.mag_limb1(a1=a1).A)])


def _forms(ctx, which):
    """the same values for every array form, order and sign of the impact parameters; continuity across the switch-overs; constructor options."""
    import jax, jax.numpy as jnp
    N, J = mods()
    u = np.array([.3, 0., 1., 2.5, .05, 30.])
    classes = [("numpy-disk", N.magnification_disk, 0), ("numpy-limb1", lambda **k: N.magnification_limb(1, **k), 0), ("numpy-limb2", lambda **k: N.magnification_limb(2, **k), 0),
               ("jax-disk", J.magnification_disk, 1), ("jax-limb1", J.magnification_limb1, 1), ("jax-limb2", J.magnification_limb2, 1), ("mag_limb1", lambda **k: J.mag_limb1(a1=.6, **k), 1)]
    S = {"disk": DISK, "limb1": N1, "limb2": N2}
    for nm, mk, isj in [c for c in classes if c[0] == which]:
        o = mk()
        prof = LIN(.6) if nm == "mag_limb1" else S[nm.split("-")[1]]
        for rho in (5e-5, .02, .8):
            v = u * rho if rho < 1e-3 else u
            base = np.asarray(o.A(v, rho))
            for perm in itertools.permutations(range(3 + ctx.thorough)):
                idx = list(perm) + list(range(len(perm), 6))
                ctx.close(f"{nm}:order,rho={rho}", np.asarray(o.A(v[idx], rho)), base[idx], rtol=1e-12)
                ctx.count(states=1, evals=1)
            for m in range(2 ** (3 + ctx.thorough)):
                sgn = np.array([-1. if m >> i & 1 else 1. for i in range(4)] + [1., -1.])
                ctx.close(f"{nm}:sign,rho={rho}", np.asarray(o.A(v * sgn, rho)), base, rtol=1e-12)
                ctx.count(states=1, evals=1)
            for i, x in enumerate(v):
                for form in (float(x), np.array(x), np.array([x]), np.array([[x]])):
                    r = np.asarray(o.A(form, rho))
                    ctx.close(f"{nm}:form,rho={rho}", r.ravel(), base[i:i + 1], rtol=1e-12)
                    ctx.expect(r.shape == np.atleast_1d(form).shape, f"{nm}:form-shape,rho={rho}")
                    ctx.count(states=1, evals=1)
            for shp in ((2, 3), (3, 2), (1, 6), (6, 1), (2, 1, 3)):
                r = np.asarray(o.A(v.reshape(shp), rho))
                ctx.expect(r.shape == shp, f"{nm}:shape={shp},rho={rho}", got=r.shape)
                ctx.close(f"{nm}:shape={shp},rho={rho}", r.ravel(), base, rtol=1e-12)
                ctx.count(states=1, evals=1)
            if isj:
                ctx.close(f"{nm}:jit,rho={rho}", np.asarray(jax.jit(o.A)(jnp.array(v), rho)), base, rtol=1e-9)
                ctx.close(f"{nm}:vmap,rho={rho}", np.asarray(jax.vmap(lambda r: o.A(jnp.array(v), r))(jnp.array([rho, rho]))), np.stack([base] * 2), rtol=1e-9)
        # other switch-overs and tables: always within tolerance of the exact value
        for opt in (dict(rho_switch=3e-4), dict(rho_switch=1.5e-4), dict(u_switch=6), dict(u_switch=20), dict(N_fft=1025), dict(N_fft=2048), dict(fft_logumin=-7),
                    dict(fft_logumax=4), dict(normalize_sk=False)):
            p = mk(**opt)
            for rho in (6e-5, .9 * opt.get("rho_switch", 1e-4), 1.1 * opt.get("rho_switch", 1.2e-4), .03, 1.):
                w = np.array([0., .2, .6, .9, 1.1, 1.6, 5., .98 * p.u_switch, 1.02 * p.u_switch, 25.]) * rho
                judge(ctx, f"{nm}:{opt}:rho={rho:.4g}".replace(" ", ""), w, rho, np.asarray(p.A(w, rho)), np.array([exact(x, rho, prof) for x in w]))
        s = o.rho_switch
        w = np.array([0., .3, .8, 1.2, 2., 5., 9., 9.99, 10.01, 12., 50.]) * s
        a, b = (np.asarray(o.A(w, s * f)) for f in (1 - 1e-9, 1 + 1e-9))
        ctx.close(f"{nm}:continuous-in-rho", a / b, 1, atol=6e-3, labels=[f"u/rho={x / s:.4g}" for x in w])
        w = np.array([1 - 1e-9, 1 + 1e-9]) * o.u_switch * s / 2
        a = np.asarray(o.A(w, s / 2))
        ctx.close(f"{nm}:continuous-in-u", a[0] / a[1], 1, atol=3e-3)
        ctx.outcome(nm)


PARTS = dict(disk=disk, disk_plain=disk_plain, power=power, linear=linear,
             **{"forms-" + c: (lambda ctx, c=c: _forms(ctx, c)) for c in ("numpy-disk", "numpy-limb1", "numpy-limb2", "jax-disk", "jax-limb1", "jax-limb2", "mag_limb1")})
