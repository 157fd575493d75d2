"""Critical/caustic curves: every configuration x sample count; each column checked as a complete root set, each step as a matching."""
import numpy as np
from mc import oracle as O
from checks import common as K

PROPERTY = "P04"
LEVEL = "model_checking"
RULE = ("states = (configuration, sample count, phase sample) root tuples; transitions = branch-matching steps between consecutive "
        "samples; every state checked for det J = 0, common phase, completeness and the mapped caustic, every transition for the "
        "nearest-neighbour matching wherever that matching is unambiguous; caustic segments checked to separate image counts")
ASSUMPTIONS = ["a step is judged for continuity when nearest neighbours form a bijection with a margin of 2 in distance",
               "separation is judged on caustic samples away from cusps, offset by 1e-5 of the local scale, when the reference certifies both image counts"]


def curves(npts, nl, p):
    from microjax.point_source import critical_and_caustic_curves
    zc, wc = critical_and_caustic_curves(npts=npts, nlenses=nl, **p)
    return np.asarray(zc), np.asarray(wc)


def state_checks(ctx, key, nl, p, npts, zc, wc):
    m, zl = O.system(nl, p)
    n = 2 * nl
    if not (zc.shape == (n, npts) and wc.shape == (n, npts)):
        ctx.fail(f"{key}:shape", got=[list(zc.shape), list(wc.shape)])
        return False
    k = O.dfbar(zc, m, zl)
    # conditioning of the roots: d kappa/dz
    dk = np.abs(sum(-2 * mk / (zc - zk) ** 3 for mk, zk in zip(m, zl)))
    dmin = np.min([np.abs(zc - z) for z in zl], 0)
    tol = np.maximum(1e-7, 1e-12 * dk / np.maximum(dmin, 1e-9))
    ctx.expect(np.isfinite(zc).all() and (np.abs(np.abs(k) - 1) < tol).all(), f"{key}:critical", worst=float(np.nanmax(np.abs(np.abs(k) - 1) / tol)))
    ph = k / np.abs(k)
    ctx.expect((np.abs(ph - ph[:1]) < 2 * tol + 2 * tol[:1]).all(), f"{key}:one-phase-per-column")
    # the columns go once round the circle of phases in equal steps, ending where they began
    step = np.angle(ph[0, 1:] / ph[0, :-1])
    sg = np.sign(np.median(step)) if npts > 3 else 1.
    ctx.expect(npts < 3 or np.allclose(step * sg, 2 * np.pi / (npts - 1), atol=1e-5) or npts == 3, f"{key}:phase-steps", steps=step[:4])
    e = np.abs(zc[:, -1][:, None] - zc[:, 0][None]).min(1)
    ctx.expect((e < 1e-6 + 10 * tol[:, -1]).all(), f"{key}:closed", gap=float(e.max()))
    D = np.abs(zc[:, None] - zc[None]) + 9 * np.eye(n)[:, :, None]
    sep = D.min(1).min(0)
    # distinct unless nearly degenerate (close to a topology change)
    lim = 1e-6 * np.minimum(1, np.min(dmin, 0))
    ctx.expect((sep > lim).all(), f"{key}:distinct", worst=float(sep.min()))
    want = O.lens_eq(zc, m, zl)
    ctx.expect((np.abs(wc - want) < 1e-9 * (1 + np.abs(want)) + 1e-10 / dmin).all(), f"{key}:caustic", worst=float(np.abs(wc - want).max()))
    a = np.sort(np.angle(ph[0]))
    if npts > 2:
        gaps = np.diff(np.concatenate([a, [a[0] + 2 * np.pi]]))
        ctx.expect(gaps.max() < 2 * np.pi / (npts - 1) * 1.01 + 1e-6, f"{key}:phases-cover-circle", worst=float(gaps.max()))
    ctx.count(states=npts, traces=1, evals=n * npts)
    return True


def step_checks(ctx, key, zc):
    n, npts = zc.shape
    D = np.abs(zc[:, None, :-1] - zc[None, :, 1:])        # old i, new j, step
    j = D.argmin(1)                                       # (n, steps)
    srt = np.sort(D, 1)
    clear = (srt[:, 0] < .5 * srt[:, 1]).all(0) & (np.sort(j, 0) == np.arange(n)[:, None]).all(0)
    same = (j == np.arange(n)[:, None]).all(0)
    bad = clear & ~same
    ctx.expect(not bad.any(), f"{key}:continuous", steps=np.nonzero(bad)[0][:5], nbad=int(bad.sum()))
    ctx.count(transitions=npts - 1, unjudged=(~clear).sum())
    ctx.n["compared"] += int(clear.sum())


def separation(ctx, key, nl, p, zc, wc, every):
    m, zl = O.system(nl, p)
    n, npts = zc.shape
    kk = O.dfbar(zc, m, zl)
    A, B, sel = [], [], []
    for b in range(n):
        w = wc[b]
        t1, t0 = w[2:] - w[1:-1], w[1:-1] - w[:-2]
        ok = (np.abs(t1) > 2e-4) & (np.abs(t0) > 2e-4) & (np.abs(np.angle(t1 / t0)) < .15)
        ok = np.lib.stride_tricks.sliding_window_view(np.pad(ok, 6), 13).all(1)      # no cusp within 6 samples
        i = np.nonzero(ok)[0][::every]
        t = (t1 + t0)[i]
        nor = 1j * t / np.abs(t)
        eps = 1e-5 * np.minimum(1, np.abs(t) * 20)
        A.append(w[1:-1][i] + eps * nor)
        B.append(w[1:-1][i] - eps * nor)
        sel.append(w[1:-1][i])
    A, B, sel = map(np.concatenate, (A, B, sel))
    if not len(A):
        return
    _, ok1, n1, _ = O.point_mag(A, m, zl)
    _, ok2, n2, _ = O.point_mag(B, m, zl)
    good = ok1 & ok2
    d = np.abs(n1 - n2)
    # crossing one fold changes the count by 2; a second fold within eps would make it 0 or 4
    near = np.array([np.sum(np.abs(wc - v) < 5e-4) for v in sel])
    lim = np.array([np.sum(np.min(np.abs(wc - v), 1) < 3e-3) for v in sel])
    good &= lim <= 1
    # smaller offset where another fold lies between the two points
    for f in (.1, 10.):
        r = np.nonzero(good & (d != 2))[0]
        if not len(r):
            break
        h = (A[r] - B[r]) / 2 * f
        _, o1, a1, _ = O.point_mag(sel[r] + h, m, zl)
        _, o2, a2, _ = O.point_mag(sel[r] - h, m, zl)
        fix = (np.abs(a1 - a2) == 2) | ~(o1 & o2)
        d[r[fix]] = 2
    ctx.expect((d[good] == 2).all(), f"{key}:separates", bad=sel[good][d[good] != 2][:3], counts=[n1[good][d[good] != 2][:3], n2[good][d[good] != 2][:3]])
    ctx.n["compared"] += int(good.sum())
    ctx.count(unjudged=(~good).sum())
    ctx.outcome("folds crossed", good.sum())


def _run(ctx, nl, cfgs, NP, sep_every):
    for p in cfgs:
        for npts in NP:
            zc, wc = curves(npts, nl, p)
            key = f"npts={npts}@{K.tag(nl, p)}"
            if state_checks(ctx, key, nl, p, npts, zc, wc):
                step_checks(ctx, key, zc)
                if npts >= 200 and npts < 400:
                    separation(ctx, key, nl, p, zc, wc, sep_every)
        ctx.outcome(f"{nl} lenses")
    ctx.spaces.append(dict(space=f"{nl} lenses: configurations x sample counts", size=len(cfgs) * len(NP)))
    ctx.sample(system=cfgs[-1], npts=NP[-1], critical=zc[:, 0], caustic=wc[:, 0])


NPTS = (2, 5, 20, 51, 200, 1000)


def single(ctx):
    for npts in NPTS:
        zc, wc = curves(npts, 1, {})
        ctx.close("circle", np.abs(zc), 1., atol=1e-12)
        ctx.close("point", wc, 0., atol=1e-12)
        z = zc.ravel()
        ctx.close("closed", z[-1], z[0], atol=1e-9)
        if npts > 3:
            ctx.close("phase-steps", np.abs(np.angle(z[1:] / z[:-1])), 2 * np.pi / (npts - 1), atol=1e-9)
        ctx.expect(zc.size == npts and wc.size == npts, "single:size", got=[zc.shape, wc.shape])
        ctx.count(evals=npts, states=npts, traces=1)
        ctx.outcome(npts)


def binary(ctx):
    q = (1e-6, 1e-4, .009, .05, .4, 1., 2.5, 40.) if not ctx.thorough else tuple(10. ** np.arange(-7, 4)) + (.05, .3, .62, 1., 2.5)
    s = (.25, .55, .83, 1., 1.21, 1.7, 2.6, 4.) if not ctx.thorough else tuple(np.round(np.geomspace(.2, 5, 17), 3)) + (1.,)
    _run(ctx, 2, [dict(s=a, q=b) for a in s for b in q], NPTS, 8 if not ctx.thorough else 3)


def _tri(i, n):
    def f(ctx):
        c = K.tri_cfgs(ctx.thorough)
        c = c[i::n] if ctx.thorough else c[i::3 * n]
        _run(ctx, 3, c, NPTS if ctx.thorough else (20, 51, 200, 1000), 20 if not ctx.thorough else 10)
    return f


PARTS = dict(single=single, binary=binary, **{f"triple{i}": _tri(i, 4) for i in range(4)})
