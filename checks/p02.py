"""Point-source magnification: exhaustive lattice against the certified reference sum, shapes, symmetry, limits."""
import numpy as np
from mc import oracle as O
from checks import common as K

PROPERTY = "P02"
LEVEL = "exploration"
RULE = ("every (lens system, source position) of the lattice incl. on-axis, on-lens, next-to-lens and far sources; non-trivial = "
        "value compared with the certified sum over reference images; every array shape of the shape list compared elementwise")
ASSUMPTIONS = ["reference image set certified by residual, parity and count theorem (otherwise counted as unjudged)",
               "images with individual magnification below 1e-4 of lenses with mass ratio < 1e-4 may be dropped",
               "sources with min |det J| < 1e-3 (on a caustic) are not judged",
               "triples: mass ratios >= 0.01, lens distances >= 0.2 (double precision limits the degree-10 polynomial)"]


def mag(W, nl, p):
    import jax.numpy as jnp
    from microjax.point_source import mag_point_source
    return np.asarray(mag_point_source(jnp.array(W), nlenses=nl, **p))


def _run(ctx, nl, cfgs, rtol, xs=K.GX, ys=K.GY):
    tot = 0
    for p in cfgs:
        m, zl = O.system(nl, p)
        W = K.sources(zl, xs, ys)
        if nl == 1:
            W = W[np.abs(W) > 0]
        got = mag(W, nl, p)
        ref, ok, n, mind = O.point_mag(W, m, zl)
        good = ok & (mind > 1e-3)
        lab = [f"{K.tag(nl, p)},w={w:.6g}" for w in W]
        # images next to a lens of relative mass < 1e-4 carry < 1e-4 and may be dropped (numerical residual next to the pole)
        at = 1e-4 if nl == 2 and not 1e-4 <= p["q"] <= 1e4 else 0.
        ctx.close("value", got, ref, rtol=rtol, atol=at, labels=lab, mask=good)
        far = np.abs(W) > 100
        ctx.close("far", got, 1.0, atol=2e-4, labels=lab, mask=far)
        ctx.expect(np.all(got[good] >= 1 - 1e-6), f"ge1@{K.tag(nl, p)}", worst=float(np.min(got[good])))
        ctx.count(evals=len(W), unjudged=(~good).sum())
        for k in np.unique(n[good]):
            ctx.outcome(f"{nl} lenses, {k} images", (n[good] == k).sum())
        tot += len(W)
    ctx.spaces.append(dict(space=f"{nl} lenses: systems x sources", systems=len(cfgs), size=tot))
    ctx.sample(system=cfgs[-1], source=W[0], got=got[0], reference=ref[0])


def single(ctx):
    _run(ctx, 1, [{}], 1e-9)
    u = np.array([1e-4, 1e-2, .1, .5, 1, 2, 5, 50])
    for t in (0, .7, np.pi / 2, 2.9, -1.2):
        ctx.close("paczynski", mag(u * np.exp(1j * t), 1, {}), (u ** 2 + 2) / (u * np.sqrt(u ** 2 + 4)), rtol=1e-9, labels=u)


def binary(ctx):
    _run(ctx, 2, K.bin_cfgs(ctx.thorough), 3e-6)


def _tri(i):
    def f(ctx):
        c = K.tri_cfgs(ctx.thorough)
        c = c[i::3] if ctx.thorough else c[i::6]
        _run(ctx, 3, c, 2e-4, *([K.GX, K.GY] if ctx.thorough else [K.GX[::2], K.GY[::2]]))
    return f


def shapes(ctx):
    """any rank, any subset, any order: every element is what it is alone."""
    p2, p3 = dict(s=.9, q=.3), dict(s=1.2, q=.5, q3=.3, r3=.9, psi=1.9)
    W = K.grid([-.8, .15, .4, 1.3], [-.3, .02, .5])
    shp = [(12,), (3, 4), (4, 3), (1, 12), (12, 1), (2, 3, 2), (1, 1, 12), (2, 1, 6), (3, 2, 1, 2)]
    for nl, p in ((1, {}), (2, p2), (3, p3)):
        m, zl = O.system(nl, p)
        ref = O.point_mag(W, m, zl)[0]
        for i, w in enumerate(W):
            g = mag(w, nl, p)
            ctx.expect(g.shape == (), f"scalar:shape:{nl}", got=g.shape)
            ctx.close(f"scalar:{nl}", g, ref[i], rtol=1e-5, labels=None)
            g = mag(W[i:i + 1], nl, p)
            ctx.expect(g.shape == (1,), f"one:shape:{nl}", got=g.shape)
            ctx.close(f"one:{nl}", g, ref[i:i + 1], rtol=1e-5)
        for s in shp:
            g = mag(W.reshape(s), nl, p)
            if ctx.expect(g.shape == s, f"shape:{nl}:{s}", got=g.shape) is None and g.shape == s:
                ctx.close(f"array:{nl}:{s}", g, ref.reshape(s), rtol=1e-5)
            ctx.outcome(f"rank {len(s)}")
        for perm in (np.arange(12)[::-1], np.roll(np.arange(12), 5), np.array([0] * 12), np.arange(12) // 2):
            ctx.close(f"order:{nl}", mag(W[perm], nl, p), ref[perm], rtol=1e-5)
        for k in range(1, 12):
            ctx.close(f"prefix:{nl}", mag(W[:k], nl, p), ref[:k], rtol=1e-5)
        # real-valued source arrays are positions on the axis
        x = np.array([-1.3, -.21, .33, 1.7])
        ctx.close(f"real-input:{nl}", mag(x, nl, p), O.point_mag(x + 0j, m, zl)[0], rtol=1e-5)
        ctx.count(evals=12 * (len(shp) + 6))
    ctx.spaces.append(dict(space="shapes x lenses", size=3 * len(shp)))


def symmetry(ctx):
    """reflection about the lens axis: exact for aligned systems, with psi -> -psi otherwise."""
    W = K.grid([-1.7, -.6, -.09, .31, .97, 2.1], [.017, .26, .9])
    cfgs = [(1, {}, {})] + [(2, p, p) for p in K.bin_cfgs(ctx.thorough)]
    cfgs += [(3, p, {**p, "psi": -p["psi"]}) for p in K.tri_cfgs(ctx.thorough)[::(3 if ctx.thorough else 11)]]
    for nl, p, pm in cfgs:
        m, zl = O.system(nl, p)
        good = O.point_mag(W, m, zl)[3] > 1e-3
        ctx.close(f"mirror:{nl}", mag(W, nl, p), mag(W.conj(), nl, pm), rtol=3e-6 if nl < 3 else 4e-4, mask=good,
                  labels=[f"{K.tag(nl, p)},w={w:.5g}" for w in W])
        ctx.count(evals=2 * len(W))
        ctx.outcome(f"{nl} lenses")
    ctx.spaces.append(dict(space="mirror images", size=len(cfgs) * len(W)))


PARTS = dict(single=single, binary=binary, triple0=_tri(0), triple1=_tri(1), triple2=_tri(2), shapes=shapes, symmetry=symmetry)
