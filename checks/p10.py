"""Inverse-ray limb-darkened magnification against exhaustive subdivision of the image plane."""
import numpy as np
from mc import oracle as O
from checks import common as K
from checks import p09

PROPERTY = "P10"
LEVEL = "exploration"
RULE = ("complete lattices of configuration x source position x radius x limb-darkening coefficient; every element compared with an "
        "image-plane subdivision weighted by the brightness profile; limits u1 -> 0 and far sources compared with the uniform and point-source values")
ASSUMPTIONS = ["0.6% + 0.1% per unit of magnification at 200 x 200 cells for rho >= 0.1, at 500 x 500 for rho = 0.02",
               "triple systems: mass ratios >= 0.01, lenses at least 0.2 apart", "known accuracy of the reference: 3e-4",
               "angular error at 200 cells against 1600: half of the cases within 6e-4, nine tenths within 2e-3, all within 0.6%"]
U = (0., .3, .7, 1.)


def _thin(nl, p, w, rho, thorough):
    return True


def fam(nl, cfgs, rhos, ncau, ngen):
    out = []
    for k, p in enumerate(cfgs):
        s = p09.srcs(nl, p, ncau)
        head, gen = s[:-len(p09.GEN)], s[-len(p09.GEN):]
        out += [(p, w, r) for w in head + [gen[(k + j) % len(gen)] for j in range(ngen)] for r in rhos]
    return out


def run(ctx, key, nl, it, r, batch=8):
    ctx.spaces.append(dict(space=f"{key}: configurations x sources x rho x u1", size=len(it) * len(U)))
    items = [i for i in it for _ in U]
    us = [u for _ in it for u in U]
    v, ref = p09.judge(ctx, key, nl, items, r, u1=us, batch=batch)
    return v.reshape(-1, len(U))


def binary(ctx):
    cf = p09.bin_family(ctx.thorough)
    it = fam(2, cf if ctx.thorough else cf[::2], (.1, .6), 3, 2)
    v = run(ctx, "binary", 2, it, 200)
    # u1 = 0 is the uniform disk, computed by the other integrator
    w = K.inv_mag(2, [i[1] for i in it], [i[2] for i in it], [i[0] for i in it], r=200, th=200)
    lim = .012 + .001 * np.clip(w, 1, 40)
    ctx.close("u1=0", v[:, 0] / w - 1, 0. * w, atol=lim, labels=[f"{K.tag(2, i[0])},w={i[1]:.4g},rho={i[2]}" for i in it])


def binary_small(ctx):
    cf = p09.bin_family(ctx.thorough)
    it = fam(2, cf[::3] if ctx.thorough else cf[1::9], (.02,), 3, 1)
    run(ctx, "binary", 2, it, 500)


def triple(ctx):
    cf = p09.tri_family(ctx.thorough)
    it = fam(3, cf[::2] if ctx.thorough else cf[::4], (.1, .5), 3, 1)
    v = run(ctx, "triple", 3, it, 200)
    w = K.inv_mag(3, [i[1] for i in it], [i[2] for i in it], [i[0] for i in it], r=200, th=200)
    lim = .012 + .001 * np.clip(w, 1, 40)
    ctx.close("u1=0", v[:, 0] / w - 1, 0. * w, atol=lim, labels=[f"{K.tag(3, i[0])},w={i[1]:.4g},rho={i[2]}" for i in it])


def far(ctx):
    """far-away and point-like sources: the point-source value for every coefficient."""
    for nl, cf in ((2, p09.bin_family(False)[::5]), (3, p09.tri_family(False)[::4])):
        for it, r in (([(p, w, rho) for p in cf for w in (5 + 1j, -6 + .5j, -3 - 5j) for rho in (.02, .1)], 150),
                      ([(p, w, 1e-3) for p in cf[:2] for w in (1.9 + 1.2j,)], 500)):
            d = [O.disk_mag(w, rho, *O.system(nl, p)) for p, w, rho in it]
            ref, smooth = np.array([x[0] for x in d]), np.array([x[1] for x in d])
            for u in (0., .5, 1.):
                v = K.inv_mag(nl, [i[1] for i in it], [i[2] for i in it], [i[0] for i in it], u1=u, r=r, th=r)
                ctx.close("far", v, ref, rtol=.012, mask=smooth, labels=[f"{K.tag(nl, p)},w={w:.4g},rho={rho},u1={u}" for p, w, rho in it])
                ctx.count(states=len(it), evals=len(it), traces=len(it), unjudged=int((~smooth).sum()))
        ctx.outcome(f"far {nl} lenses")


def angular(ctx):
    p09.angular(ctx, u1=.5, lim={200: (6e-4, 2e-3, 6e-3)})


PARTS = dict(angular=angular, binary=binary, binary_small=binary_small, triple=triple, far=far)
