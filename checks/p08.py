"""Positions at which the light-curve code keeps the multipole value."""
import numpy as np
from mc import oracle as O
from checks import common as K

PROPERTY = "P08"
LEVEL = "exploration"
RULE = ("all positions at lattice offsets (in units of the source radius) from caustic points, planetary caustics and lenses x configurations x radii; "
        "each position the light curve accepts is compared with a finite-source reference, and no accepted disk may overlap a caustic")
ASSUMPTIONS = ["acceptance is observed as equality of the light-curve value with the multipole value",
               "finite-source reference for binaries: VBMicrolensing, cross-checked here against the image-plane subdivision", "accuracy required: 1.2%"]

OFF = (0., .5, .95, 1.3, 2., 3., 4.5, 7.)
DIR = (.3, 1.7, 3.0, 4.4, 5.6)
NB = 512


def configs(thorough):
    out = [dict(s=s, q=q) for s in (.5, .8, 1., 1.25, 2.) for q in (1e-5, 1e-3, 9e-3, .011, .1, 1., 4.)]
    if thorough:
        out += [dict(s=s, q=q) for s in (.3, .65, .9, 1.1, 1.6, 3., 4.5) for q in (1e-6, 1e-4, 3e-3, .0099, .03, .4, 30., 300.)]
    return out


def anchors(p, thorough):
    m, zl = O.system(2, p)
    c = O.caustic_points(m, zl, (.2, 1.3, 2.9, 4.1) if not thorough else np.linspace(.1, 6.2, 9))
    c = c[np.abs(c) < 12]
    s, q = p["s"], p["q"]
    sh = O.shift_cm(s, q)
    out = [complex(x) for x in c[::1 if thorough else 2]] + [0j, .5 * s - 1 / s + sh]
    if s < 1:                                     # the two triangular planetary caustics
        y = 2 * np.sqrt(q) * np.sqrt(1 - s * s) / s
        if y < 5:
            out += [.5 * s - 1 / s + sh + 1j * y, .5 * s - 1 / s + sh - 1j * y]
    return out


def positions(p, rho, thorough):
    w = []
    for a in anchors(p, thorough):
        for o in OFF:
            for d in DIR if o else (0.,):
                w.append(a + o * rho * np.exp(1j * d))
    # planetary neighbourhood in units of its own size
    s, q = p["s"], p["q"]
    c = .5 * s - 1 / s + O.shift_cm(s, q)
    size = 2 * np.sqrt(q) / s
    for r in (.3, .8, 1.3, 2., 3.):
        for d in np.arange(8) * np.pi / 4 + .02:
            w.append(c + r * size * np.exp(1j * d))
    return np.array(w)


def dist_caustic(p, w):
    m, zl = O.system(2, p)
    c = O.caustic_points(m, zl, np.linspace(0, 2 * np.pi, 240, endpoint=False))
    return np.abs(w[:, None] - c[None, :]).min(1)


def _pad(w):
    n = -(-len(w) // NB) * NB
    return np.concatenate([w, np.full(n - len(w), w[-1])]).reshape(-1, NB)


def values_inverse(p, w, rho, u1):
    import jax.numpy as jnp
    from microjax.inverse_ray.lightcurve import mag_binary
    out = [np.asarray(mag_binary(jnp.asarray(x), rho, u1=u1, r_resolution=12, th_resolution=12, Nlimb=40, MAX_FULL_CALLS=NB, chunk_size=64, **p)) for x in _pad(w)]
    return np.concatenate(out)[:len(w)]


def values_contour(p, w, rho, u1):
    import jax.numpy as jnp
    from microjax.caustics.lightcurve import magnifications
    kw = dict(limb_darkening=True, u1=u1, npts_ld=10) if u1 else {}
    out = [np.asarray(magnifications(jnp.asarray(x), rho, nlenses=2, npts_limb=20, **kw, **p)) for x in _pad(w)]
    return np.concatenate(out)[:len(w)]


def run(ctx, values, name, u1, rhos, cfs):
    nacc = 0
    for p in cfs:
        for rho in rhos:
            w = positions(p, rho, ctx.thorough)
            v = values(p, w, rho, u1)
            hx, _ = K.hexa(2, w, rho, [p] * len(w), u1=u1)
            acc = np.abs(v - hx) <= 1e-10 * np.abs(hx)
            d = dist_caustic(p, w)
            key = f"{name}:{K.tag(2, p)},rho={rho},u1={u1}"
            for k in np.nonzero(acc & (d < .97 * rho))[0][:4]:
                ctx.fail(f"{key}:overlap:w={w[k]:.6g}", distance=float(d[k]), multipole=float(hx[k]), reference=float(O.fs_vbm(w[k], rho, *O.system(2, p), u1=u1)))
            i = np.nonzero(acc)[0]
            i = i[:: max(1, len(i) // (60 if not ctx.thorough else 400))]
            ref = np.array([O.fs_vbm(w[k], rho, *O.system(2, p), u1=u1, reltol=1e-4) for k in i])
            ctx.close(key + ":accuracy", hx[i] / ref - 1, 0 * ref, atol=.012, labels=[f"{w[k]:.6g}" for k in i])
            nacc += int(acc.sum())
            ctx.outcome("accepted", int(acc.sum()))
            ctx.outcome("refused, disk overlaps a caustic", int((~acc & (d < rho)).sum()))
            ctx.outcome("refused, disk clear of caustics", int((~acc & (d >= rho)).sum()))
            ctx.count(states=len(w), evals=len(w), traces=1, transitions=len(w) - 1, compared=len(w))
            ctx.sample(cfg=p, rho=rho, accepted=int(acc.sum()), of=len(w))
    ctx.spaces.append(dict(space=f"{name} u1={u1}: configurations x radii x positions", size=len(cfs) * len(rhos)))
    ctx.expect(nacc > 100, f"{name}:u1={u1}:some-accepted", n=nacc)


def inverse_uniform(ctx):
    for i, rho in enumerate((.002, .02, .1)):
        run(ctx, values_inverse, "inverse", 0., (rho,), configs(ctx.thorough)[0 if ctx.thorough else i % 2::1 if ctx.thorough or i == 1 else 2])


def inverse_ld(ctx):
    run(ctx, values_inverse, "inverse", .7, (.02,) if not ctx.thorough else (.002, .05), configs(ctx.thorough)[::2])


def contour_uniform(ctx):
    run(ctx, values_contour, "contour", 0., (.02,) if not ctx.thorough else (.002, .02, .1), configs(ctx.thorough))


def contour_ld(ctx):
    run(ctx, values_contour, "contour", .7, (.05,), configs(ctx.thorough)[1::3])


def single(ctx):
    """one lens (contour light curve): every accepted position against direct disk integration."""
    import jax.numpy as jnp
    from microjax.caustics.lightcurve import magnifications
    m, zl = O.lens1()
    for rho in (.001, .02, .2, .7):
        w = np.array([f * rho * np.exp(1j * t) for f in (.02, .5, .9, 1.1, 1.5, 1.9, 2.05, 2.3, 3., 5., 20.) for t in (.1, 2., 4.)])
        for u1 in (0., .6):
            kw = dict(limb_darkening=True, u1=u1, npts_ld=20) if u1 else {}
            v = np.asarray(magnifications(jnp.asarray(w), rho, nlenses=1, npts_limb=60, **kw))
            hx, _ = K.hexa(1, w, rho, [{}] * len(w), u1=u1)
            acc = np.abs(v - hx) <= 1e-10 * np.abs(hx)
            ref = np.array([O.disk_mag(x, rho, m, zl, u1=u1)[0] for x in w])
            ctx.close(f"single:rho={rho},u1={u1}:accuracy", (hx / ref - 1)[acc], 0 * ref[acc], atol=.012, labels=[f"{x:.4g}" for x in w[acc]])
            ctx.expect(not acc[np.abs(w) < rho].any(), f"single:rho={rho},u1={u1}:overlap")
            ctx.expect(acc[np.abs(w) > 4 * rho].all(), f"single:rho={rho},u1={u1}:far")
            ctx.count(states=len(w), evals=len(w), traces=1)
            ctx.outcome("single accepted", int(acc.sum()))


def reference(ctx):
    """the reference itself: VBMicrolensing against image-plane subdivision."""
    from mc import refs
    cf = configs(False)[::6]
    it = [(p, positions(p, .05, False)[k]) for p in cf for k in (20, 60, 110)]
    a = refs.mags(2, [i[1] for i in it], .05, [i[0] for i in it])
    b = np.array([O.fs_vbm(w, .05, *O.system(2, p)) for p, w in it])
    if not np.all(np.abs(a / b - 1) < 2e-3):
        raise RuntimeError(f"references disagree: {np.abs(a / b - 1).max()}")
    ctx.count(states=len(it), evals=len(it), compared=len(it))
    ctx.outcome("reference cross-check", len(it))


PARTS = dict(inverse_uniform=inverse_uniform, inverse_ld=inverse_ld, contour_uniform=contour_uniform, contour_ld=contour_ld, single=single, reference=reference)
