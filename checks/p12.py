"""Contour-integration magnification (uniform and limb darkened) and its light curve."""
import numpy as np
from mc import oracle as O, refs
from checks import common as K, p09

PROPERTY = "P12"
LEVEL = "exploration"
RULE = ("complete lattices of configuration x source position (lenses, origin, planetary position, caustic points, generic) x radius x "
        "limb-darkening coefficient; every element compared with an image-plane subdivision that uses no root finding; light curves: every "
        "sample equals the multipole or the contour value of that position and is accurate")
ASSUMPTIONS = ["1% at npts_limb=200 for 0.02 <= rho <= 0.1, at npts_limb=400 for rho = 0.003 and 0.4 (one lens: up to rho = 2)",
               "triple systems: mass ratios >= 0.01, lenses at least 0.2 apart", "known accuracy of the reference: 1e-4 (uniform), 3e-4 (limb darkened)"]


def judge(ctx, key, nl, items, npts, u1=None, tol=.01, **kw):
    W = [i[1] for i in items]
    R = [i[2] for i in items]
    P = [i[0] for i in items]
    U = None if u1 is None else np.broadcast_to(np.asarray(u1, float), (len(items),))
    v = K.contour_mag(nl, W, R, P, u1=U, npts=npts, **kw)
    ref = refs.mags(nl, W, R, P, 0. if u1 is None else U, res=64 if u1 is None else 24)
    lab = [f"{K.tag(nl, p)},w={w:.4g},rho={rh},npts={npts}" + ("" if u1 is None else f",u1={U[k]:g}") for k, (p, w, rh) in enumerate(items)]
    have = np.isfinite(ref)
    ctx.close(key, v[have], ref[have], rtol=tol, labels=[x for x, h in zip(lab, have) if h])
    ctx.count(states=len(items), evals=len(items), traces=len(items), unjudged=int((~have).sum()))
    ctx.spaces.append(dict(space=f"{key} npts={npts}: configurations x sources x rho (x u1)", size=len(items)))
    e = np.abs(v / ref - 1)[have]
    for k in range(0, len(items), max(1, len(items) // 3)):
        ctx.sample(cfg=P[k], w=W[k], rho=R[k], got=float(v[k]), ref=float(ref[k]))
    for a, b in ((0, 1e-4), (1e-4, 1e-3), (1e-3, 1e-2), (1e-2, 9e9)):
        n = int(((e >= a) & (e < b)).sum())
        if n:
            ctx.outcome(f"{key} error in [{a:g},{b:g})", n)
    return v, ref


def binary(ctx):
    cf = p09.bin_family(ctx.thorough)
    judge(ctx, "binary", 2, p09.family(2, cf, (.02, .1), 5), 200)
    judge(ctx, "binary", 2, p09.family(2, cf if ctx.thorough else cf[::2], (.4,), 5), 400)
    # (not exactly at the beak-to-beak point s = 2, q = 1, w = 0)
    judge(ctx, "binary", 2, [i for i in p09.family(2, cf[::4], (.003,), 3) if (i[1] != 0 or i[0]["s"] != 2) and not (abs(i[1]) < .02 and i[0]["q"] < .01)], 400)
    judge(ctx, "binary", 2, p09.family(2, cf[1::4], (.05,), 5), 200)


def triple(ctx):
    cf = p09.tri_family(ctx.thorough)
    judge(ctx, "triple", 3, p09.family(3, cf, (.1,), 6), 200)
    judge(ctx, "triple", 3, p09.family(3, cf[::2], (.02,), 6), 200)
    judge(ctx, "triple", 3, p09.family(3, cf[1::2], (.4,), 6), 400)


def ld(items, us):
    return [i for i in items for _ in us], [u for _ in items for u in us]


def binary_ld(ctx):
    cf = p09.bin_family(ctx.thorough)
    us = (0., .3, .7, 1.)
    it, u = ld(p09.family(2, cf if ctx.thorough else cf[::2], (.1,), 5)[:: 1 if ctx.thorough else 2], us)
    v, _ = judge(ctx, "binary-ld", 2, it, 200, u1=u)
    w = K.contour_mag(2, [i[1] for i in it[::4]], [i[2] for i in it[::4]], [i[0] for i in it[::4]], npts=200)
    ctx.close("binary-ld:u1=0-is-uniform", v.reshape(-1, 4)[:, 0], w, rtol=2e-3)
    it, u = ld(p09.family(2, cf[::3], (.02,), 5), us[1:])
    judge(ctx, "binary-ld", 2, it, 200, u1=u)


def triple_ld(ctx):
    cf = p09.tri_family(ctx.thorough)
    us = (.3, 1.)
    it, u = ld(p09.family(3, cf[::1 if ctx.thorough else 3], (.1,), 4), us)
    judge(ctx, "triple-ld", 3, it, 200, u1=u)


def single(ctx):
    """impact parameter over the source centre, inside, on both sides of the limb, outside; small and large sources."""
    rhos = (.005, .03, .2, .9, 2.)
    fr = (1e-3, .2, .5, .9, .97, 1.03, 1.2, 1.9, 2.1, 4.)
    ph = (0., 1.1, -2.5)
    it = [({}, complex(f * r * np.exp(1j * t)), r) for r in rhos for f in fr for t in ph[:None if ctx.thorough else 2]]
    judge(ctx, "single", 1, it, 300, tol=.01)
    # the limb passes exactly through the lens
    judge(ctx, "single-limb", 1, [({}, complex(r * np.exp(1j * t)), r) for r in rhos for t in (0., .7, np.pi / 2, np.pi)], 200)
    judge(ctx, "single-limb-ld", 1, [({}, .1 + 0j, .1), ({}, .1j, .1)], 200, u1=[.5, .5])
    it2, u = ld(it[::1 if ctx.thorough else 2], (.4, 1.))
    judge(ctx, "single-ld", 1, it2, 300, u1=u)


def _curve(nl, w, rho, p, **kw):
    from microjax.caustics.lightcurve import magnifications
    import jax.numpy as jnp
    return np.asarray(magnifications(jnp.asarray(w), rho, nlenses=nl, **kw, **p))


def _lightcurve(ctx, nls):
    """each sample is the multipole value or the contour value of that very position; accepted ones are accurate."""
    b = [dict(s=.8, q=1e-3), dict(s=1.3, q=1e-3), dict(s=.8, q=.1), dict(s=2., q=1.), dict(s=1., q=2.5)]
    if ctx.thorough:
        b += [dict(s=s, q=q) for s in (.4, .6, 1., 1.6, 3.) for q in (1e-4, 5e-3, .011, .3, 10.)]
    t = [p09.tri_family(False)[k] for k in ((2, 7) if not ctx.thorough else range(0, 13, 2))]
    for nl, cf in ((1, [{}]), (2, b), (3, t)):
        for p in cf if nl in nls else ():
            w = np.array(p09.srcs(nl, p, 5) if nl > 1 else [1e-3 + 0j, .021, .09j, .11, -.19, .21j, .25 + .1j, -.7, 2.2 + .4j])
            w = np.concatenate([w, [x + (.07 - .05j) for x in w[:len(w) - 8]], [6. + 1j, -9.]])
            for rho in (.02, .1):
                for u1 in (None, .6):
                    if (nl == 3 and (rho == .02 or u1)) or (nl == 1 and u1):
                        if not ctx.thorough:
                            continue
                    kw = {} if u1 is None else dict(limb_darkening=True, u1=u1)
                    v = _curve(nl, w, rho, p, **kw)
                    n = len(w)
                    full = K.contour_mag(nl, w, rho, [p] * n, u1=u1, npts=200)
                    hx, _ = K.hexa(nl, w, rho, [p] * n, u1=u1 or 0.)
                    a, c = np.abs(v - hx) < 1e-8 * np.abs(v), np.abs(v - full) < 1e-4 * np.abs(v)
                    key = f"curve:{K.tag(nl, p)},rho={rho},u1={u1}"
                    for k in range(n):
                        ctx.expect(a[k] or c[k], f"{key}:w={w[k]:.4g}", got=float(v[k]), contour=float(full[k]), multipole=float(hx[k]))
                    ref = refs.mags(nl, w, rho, [p] * n, u1 or 0., res=64 if u1 is None else 24)
                    have = np.isfinite(ref)
                    ctx.close(key + ":accuracy", v[have], ref[have], rtol=.012, labels=[f"{x:.4g}" for x in w[have]])
                    ctx.outcome(f"n{nl} multipole value used", int((a & ~c).sum()))
                    ctx.outcome(f"n{nl} contour value used", int((c & ~a).sum()))
                    ctx.count(states=n, evals=n, traces=1, transitions=n - 1)
                    # the same samples in another order, alone
                    o = np.arange(n)[::-1]
                    ctx.close(key + ":order", _curve(nl, w[o], rho, p, **kw)[o], v, rtol=1e-4)
                    if u1 is None and rho == .1:
                        ctx.close(key + ":alone", np.array([_curve(nl, w[k:k + 1], rho, p, **kw)[0] for k in (0, n - 1)]), v[[0, n - 1]], rtol=1e-4)


def lightcurve2(ctx):
    _lightcurve(ctx, (2,))


def lightcurve13(ctx):
    _lightcurve(ctx, (1, 3))


PARTS = dict(lightcurve2=lightcurve2, lightcurve13=lightcurve13, binary=binary, triple=triple, binary_ld=binary_ld, triple_ld=triple_ld, single=single)
