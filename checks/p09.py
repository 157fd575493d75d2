"""Inverse-ray uniform-disk magnification against exhaustive subdivision of the image plane."""
import numpy as np
from mc import oracle as O, refs
from checks import common as K

PROPERTY = "P09"
LEVEL = "exploration"
RULE = ("complete lattices of configuration x source position (lenses, origin, planetary position, caustic points, generic) x radius x "
        "resolution; every element compared with an image-plane subdivision that uses no root finding")
ASSUMPTIONS = ["0.6% + 0.1% per unit of magnification (at most 4.6%) at 200 x 200 cells for rho >= 0.1, at 500 x 500 for rho = 0.02, at 1000 x 1000 for rho = 0.003",
               "triple systems: mass ratios >= 0.01, lenses at least 0.2 apart",
               "known accuracy of the reference: 1e-4",
               "angular error at 200 (100) cells against 1600: half of the cases within 3e-5 (2e-4), nine tenths within 5e-4 (1e-3), all within 0.3% (1%)"]
GEN = (.2 + .1j, -.3 + .02j, .05 - .6j, 1.1 + 0j, -1.2 - .1j, .5j, -.7 - .7j, 2.2 + .4j)


def srcs(nl, p, ncau):
    m, zl = O.system(nl, p)
    out = [0j] + [complex(z) for z in zl]
    if nl == 2:
        out.append(complex(p["s"] - 1 / p["s"] + O.shift_cm(p["s"], p["q"]) - O.shift_cm(p["s"], 0.)) if p["q"] < .2 else .03 + 0j)
    c = O.caustic_points(m, zl, (.35, 2.4, 4.0))
    out += [complex(w) for w in c[::max(1, len(c) // ncau)][:ncau]]
    return out + list(GEN)


def family(nl, cfgs, rhos, ncau):
    return [(p, w, rho) for p in cfgs for w in srcs(nl, p, ncau) for rho in rhos]


def bin_family(thorough):
    s = (.4, .8, 1., 1.3, 2., 3.)
    q = (1e-3, .1, 1., 2.5)
    if thorough:
        s = (.3, .4, .6, .8, .9, 1., 1.1, 1.3, 1.6, 2., 2.4, 3., 4.5)
        q = (1e-4, 1e-3, 1e-2, .1, .4, .8, 1., 1.25, 2.5, 10., 300.)
    return [dict(s=a, q=b) for a in s for b in q]


def tri_family(thorough):
    return K.tri_cfgs()[::(7 if thorough else 80)]


def judge(ctx, key, nl, items, r, u1=None, tol=.01, batch=8, **kw):
    W = [i[1] for i in items]
    R = [i[2] for i in items]
    P = [i[0] for i in items]
    U = None if u1 is None else np.broadcast_to(np.asarray(u1, float), (len(items),))
    v = K.inv_mag(nl, W, R, P, u1=U, r=r, th=r, batch=batch, **kw)
    ref = refs.mags(nl, W, R, P, 0. if u1 is None else U, res=64 if u1 is None else 24)
    lab = [f"{K.tag(nl, p)},w={w:.4g},rho={rh}" + ("" if u1 is None else f",u1={U[k]:g}") for k, (p, w, rh) in enumerate(items)]
    have = np.isfinite(ref)
    # thin, strongly stretched images: the error grows with the magnification
    lim = tol * (.6 + .1 * np.clip(np.nan_to_num(ref, nan=1.), 1, 40))
    ctx.close(key, (v / ref - 1)[have], 0. * v[have], rtol=0, atol=lim[have], labels=[x for x, h in zip(lab, have) if h])
    ctx.count(states=len(items), evals=len(items), traces=len(items), unjudged=int((~have).sum()))
    e = np.abs(v / ref - 1)[have]
    for k in range(0, len(items), max(1, len(items) // 3)):
        ctx.sample(cfg=P[k], w=W[k], rho=R[k], got=float(v[k]), ref=float(ref[k]))
    for k, (a, b) in enumerate(((0, 1e-4), (1e-4, 1e-3), (1e-3, 1e-2), (1e-2, 9e9))):
        n = int(((e >= a) & (e < b)).sum())
        if n:
            ctx.outcome(f"{key} error in [{a:g},{b:g})", n)
    return v, ref


def binary(ctx):
    it = family(2, bin_family(ctx.thorough), (.1, .4, 1.), 5)
    ctx.spaces.append(dict(space="binary configurations x sources x rho", size=len(it)))
    judge(ctx, "binary", 2, it, 200)


def binary_small(ctx):
    cf = bin_family(ctx.thorough)[::1 if ctx.thorough else 5]
    it = family(2, cf, (.02,), 6)
    judge(ctx, "binary", 2, it, 500)
    cf = cf[::2]
    it = [i for i in family(2, cf, (.003,), 3)]
    judge(ctx, "binary", 2, it if ctx.thorough else it[::3], 1000, batch=4)


def triple(ctx):
    it = family(3, tri_family(ctx.thorough), (.1, .5), 6)
    ctx.spaces.append(dict(space="triple configurations x sources x rho", size=len(it)))
    judge(ctx, "triple", 3, it, 200)


def triple_small(ctx):
    cf = tri_family(ctx.thorough)[::1 if ctx.thorough else 6]
    judge(ctx, "triple", 3, family(3, cf, (.02,), 6), 500)


def resolution(ctx):
    """the error shrinks as the grid is refined."""
    cf = bin_family(ctx.thorough)[1::7 if not ctx.thorough else 3]
    it = family(2, cf, (.1,), 5)
    ref = refs.mags(2, [i[1] for i in it], [i[2] for i in it], [i[0] for i in it])
    E = []
    for r in (60, 120, 240, 480):
        v = K.inv_mag(2, [i[1] for i in it], [i[2] for i in it], [i[0] for i in it], r=r, th=r)
        e = np.abs(v / ref - 1)
        E.append(e)
        ctx.close(f"resolution:{r}", v, ref, rtol={60: .12, 120: .03, 240: .01, 480: .01}[r], labels=[f"{K.tag(2, i[0])},w={i[1]:.4g}" for i in it])
        ctx.count(states=len(it), transitions=len(it), evals=len(it), traces=len(it))
        ctx.outcome(f"resolution {r}: median error {np.median(e):.1e}")
    for a, b in ((0, 1), (1, 2), (2, 3)):
        ctx.expect(np.median(E[b]) < np.median(E[a]) * .75, f"resolution:median:{b}", medians=[float(np.median(e)) for e in E])


def angular(ctx, key="angular", u1=None, lim={100: (2e-4, 1e-3, .01), 200: (3e-5, 5e-4, 3e-3)}):
    """the sub-cell placement of the limb: coarse against fine angular meshes at a fixed radial mesh."""
    for nl, it in ((2, family(2, bin_family(ctx.thorough)[1::4][:6 if not ctx.thorough else None], (.1, .4), 3)), (3, family(3, tri_family(False)[::4], (.3,), 3))):
        W, R, P = [i[1] for i in it], [i[2] for i in it], [i[0] for i in it]
        U = None if u1 is None else np.full(len(it), u1)
        fine = K.inv_mag(nl, W, R, P, u1=U, r=300, th=1600)
        lab = [f"{K.tag(nl, p)},w={w:.4g},rho={rh}" for p, w, rh in it]
        for th, (half, most, each) in lim.items():
            e = K.inv_mag(nl, W, R, P, u1=U, r=300, th=th) / fine - 1
            ctx.close(f"{key}:n{nl}:{th}", e, 0 * e, atol=each, labels=lab)
            for nm, q, tol in (("half", .5, half), ("most", .9, most)):
                x = float(np.quantile(np.abs(e), q))
                ctx.expect(x <= tol, f"{key}:n{nl}:{th}:{nm}", quantile=q, error=x, tol=tol)
                ctx.worst[f"{key}:n{nl}:{th}:{nm}"] = x / tol
            ctx.count(states=len(it), transitions=len(it), evals=len(it), traces=1)
            ctx.outcome(f"{key} {nl} lenses, {th} cells: median error {np.median(np.abs(e)):.0e}")
        ctx.sample(cfg=P[0], w=W[0], rho=R[0], fine=float(fine[0]), error=float(e[0]))
        ctx.spaces.append(dict(space=f"{key}: {nl}-lens configurations x sources x rho x angular meshes", size=len(it) * len(lim)))


PARTS = dict(angular=angular, binary=binary, binary_small=binary_small, triple=triple, triple_small=triple_small, resolution=resolution)
