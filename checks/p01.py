"""Image sets: exhaustive lattice of lens systems x sources, certified reference image sets."""
import itertools
import numpy as np
from mc import oracle as O
from mc.engine import internal, seam
from checks import common as K

PROPERTY = "P01"
LEVEL = "exploration"
RULE = ("every (lens system, source position) of the lattice, including on-axis, on-lens, next-to-lens and far sources; "
        "non-trivial = the set of reported valid images was compared element by element with the certified reference set")
ASSUMPTIONS = ["reference image set certified by residual, parity and count theorem (otherwise counted as unjudged)",
               "images with individual magnification below 1e-4 are negligible and may be dropped or kept",
               "sources with min |det J| < 1e-3 (on a caustic) are not judged",
               "triples: mass ratios >= 0.01, lens distances >= 0.2 (double precision limits the degree-10 polynomial)"]


def judge(ctx, key, nl, p, W, z, mask, negl, ztol):
    m, zl = O.system(nl, p)
    sh = 0 if nl == 1 else O.shift_cm(p["s"], p["q"])
    ims, ok = O.images(W, m, zl)
    for k, w in enumerate(W):
        if not ok[k]:
            ctx.count(unjudged=1)
            continue
        t = ims[k] - sh
        mu = 1 / np.abs(O.detj(ims[k], m, zl))
        if mu.max() > 1e3:
            ctx.count(unjudged=1)
            continue
        v = z[:, k][mask[:, k]]
        lab = f"{key}@{K.tag(nl, p)},w={w:.5g}"
        D = np.abs(v[:, None] - t[None, :]) / (1 + np.abs(t)[None, :])
        near = D.argmin(1) if len(v) else np.array([], int)
        ctx.expect(np.isfinite(v).all() and (len(v) == 0 or (D.min(1) < ztol).all()), lab + ":genuine", valid=v, true=t)
        ctx.expect(len(set(near)) == len(near), lab + ":duplicate", valid=v, true=t)
        miss = [i for i in range(len(t)) if mu[i] > negl and i not in set(near)]
        ctx.expect(not miss, lab + ":missing", valid=v, true=t, missing=[t[i] for i in miss])
        if (mu > negl).all():
            ctx.expect(len(v) == len(t), lab + ":count", valid=v, true=t)
        ctx.outcome(f"{nl} lenses, {len(t)} images")
    ctx.count(evals=len(W))


def _run(ctx, nl, cfgs, negl, ztol, xs=K.GX, ys=K.GY):
    import jax.numpy as jnp
    fn = internal("microjax.point_source", "_images_point_source")
    tot = 0
    for p in cfgs:
        m, zl = O.system(nl, p)
        W = K.sources(zl, xs, ys)
        if nl == 1:
            W = W[np.abs(W) > 0]
        sh = 0 if nl == 1 else O.shift_cm(p["s"], p["q"])
        z, mask = seam(fn, jnp.array(W - sh), nlenses=nl, **K.mid_params(nl, p))
        z, mask = np.asarray(z), np.asarray(mask).astype(bool)
        n = {1: 2, 2: 5, 3: 10}[nl]
        ctx.expect(z.shape == (n, len(W)) and mask.shape == z.shape, f"shape@{K.tag(nl, p)}", got=z.shape)
        judge(ctx, "set", nl, p, W, z, mask, negl, ztol)
        tot += len(W)
    ctx.spaces.append(dict(space=f"{nl} lenses: systems x sources", systems=len(cfgs), size=tot))
    ctx.sample(system=cfgs[-1], source=W[0], valid=z[:, 0][mask[:, 0]])


def single(ctx):
    _run(ctx, 1, [{}], 0, 1e-9)


def binary(ctx):
    _run(ctx, 2, K.bin_cfgs(ctx.thorough), 1e-4, 1e-6)


def _tri(i):
    def f(ctx):
        c = K.tri_cfgs(ctx.thorough)
        c = c[i::3] if ctx.thorough else c[i::6]
        _run(ctx, 3, c, 1e-4, 2e-5, *([K.GX, K.GY] if ctx.thorough else [K.GX[::2], K.GY[::2]]))
    return f


def maps(ctx):
    """lens equation and Jacobian determinant, pointwise, against the reference."""
    import jax.numpy as jnp
    from microjax.point_source import lens_eq, lens_eq_det_jac
    Z = K.grid([-1.9, -.7, -.21, 0.03, .36, 1.2], [-1.4, -.45, 0., .17, .8])
    for nl, cf in ((1, [{}]), (2, K.bin_cfgs()), (3, K.tri_cfgs()[::5])):
        for p in cf:
            m, zl = O.system(nl, p)
            zl = zl - (0 if nl == 1 else O.shift_cm(p["s"], p["q"]))
            z = Z[np.abs(Z[:, None] - zl[None]).min(1) > 1e-2]
            for arr in (z, z[:6].reshape(2, 3), z[0]):
                w = lens_eq(jnp.array(arr), nlenses=nl, **K.mid_params(nl, p))
                d = lens_eq_det_jac(jnp.array(arr), nlenses=nl, **K.mid_params(nl, p))
                ctx.close(f"lens_eq@{K.tag(nl, p)}", np.asarray(w), O.lens_eq(arr, m, zl), rtol=1e-9, atol=1e-9)
                ctx.close(f"det_jac@{K.tag(nl, p)}", np.asarray(d), O.detj(arr, m, zl), rtol=1e-8, atol=1e-8)
                ctx.count(evals=2 * np.size(arr))
        ctx.outcome(f"{nl} lenses", len(cf))


def shapes(ctx):
    """scalar and multi-dimensional source arrays give the same images as a flat one."""
    import jax.numpy as jnp
    fn = internal("microjax.point_source", "_images_point_source")
    p2, p3 = dict(s=.9, q=.3), dict(s=1.2, q=.5, q3=.3, r3=.9, psi=1.9)
    W = K.grid([-.8, .15, .4], [-.3, .02])
    for nl, p in ((1, {}), (2, p2), (3, p3)):
        for shp in ((6,), (2, 3), (1, 6), (3, 1, 2), (6, 1)):
            z, mk = seam(fn, jnp.array(W.reshape(shp)), nlenses=nl, **K.mid_params(nl, p))
            n = {1: 2, 2: 5, 3: 10}[nl]
            ctx.expect(z.shape == (n,) + shp and mk.shape == z.shape, f"shape:{nl}:{shp}", got=z.shape)
            sh = 0 if nl == 1 else O.shift_cm(p["s"], p["q"])
            judge(ctx, f"shape{shp}", nl, p, W + sh, np.asarray(z).reshape(n, -1), np.asarray(mk).reshape(n, -1), 1e-4, 1e-5)
        for w in W:
            z, mk = seam(fn, jnp.array(w), nlenses=nl, **K.mid_params(nl, p))
            judge(ctx, "scalar", nl, p, np.array([w + sh]), np.asarray(z).reshape(n, 1), np.asarray(mk).reshape(n, 1), 1e-4, 1e-5)


PARTS = dict(single=single, binary=binary, triple0=_tri(0), triple1=_tri(1), triple2=_tri(2), maps=maps, shapes=shapes)
