"""Relabelling, mirror images and reductions: every label permutation of every configuration describes one physical system."""
import itertools
import numpy as np
from mc import oracle as O
from checks import common as K

PROPERTY = "P03"
LEVEL = "model_checking"
RULE = ("states = descriptions of one physical lens system (all label permutations x mirror images); transitions = relabelling one "
        "description into another; every description is evaluated by the real solvers at the transported source positions and all "
        "values inside one orbit compared; reductions (vanishing companion, vanishing third mass, merged lenses) compared with the reduced system")
ASSUMPTIONS = ["point-source and multipole compared to 2e-4 (triples) / 3e-6 (binaries) away from caustics, finite-source values to 1% + grid error",
               "reductions compared to first order in the vanishing mass"]
W0 = K.grid([-1.6, -.7, -.13, .29, .9, 1.8], [-1.1, -.34, .04, .47, 1.3])


def physical(nl, p):
    m, z = O.system(nl, p)
    return list(m), list(z)


def describe(m, z, perm, mirror):
    """parameters and source transport for one labelling of a physical system; perm = (companion, primary[, third])."""
    c, b = perm[0], perm[1]
    f = (lambda x: np.conj(x)) if mirror else (lambda x: np.asarray(x))
    zz = [f(x) for x in z]
    d = zz[c] - zz[b]
    mid, rot = .5 * (zz[c] + zz[b]), d / abs(d)
    p = dict(s=float(abs(d)), q=float(m[c] / m[b]))
    if len(m) == 3:
        t = (zz[perm[2]] - mid) / rot
        p.update(q3=float(m[perm[2]] / m[b]), r3=float(abs(t)), psi=float(np.angle(t)))
    sh = O.shift_cm(p["s"], p["q"])
    return p, (lambda w: (f(w) - mid) / rot + sh), (lambda w: f((np.asarray(w) - sh) * rot + mid))


def orbit(nl, p):
    m, z = physical(nl, p)
    return [describe(m, z, perm, mir) for perm in itertools.permutations(range(nl)) for mir in (False, True)]


def values(W, nl, p):
    import jax.numpy as jnp
    from microjax.point_source import mag_point_source
    return np.asarray(mag_point_source(jnp.array(W), nlenses=nl, **p))


def _cfgs(nl, thorough, step):
    if nl == 2:
        return [c for c in K.bin_cfgs(thorough) if 1e-4 <= c["q"] <= 1e4]
    return K.tri_cfgs(thorough)[::step]


def _point(nl, step):
    def f(ctx):
        cf = _cfgs(nl, ctx.thorough, step)
        for p in cf:
            m, z = physical(nl, p)
            mind = O.point_mag(W0, m, z)[3]
            good = mind > 3e-3
            base = None
            for pp, to, _ in orbit(nl, p):
                # every description respects the parameter range of the property
                v = values(to(W0), nl, pp)
                h, _e = K.hexa(nl, to(W0), .01, [pp] * len(W0))
                lab = [f"{K.tag(nl, p)}->{K.tag(nl, pp)},w={w:.4g}" for w in W0]
                if base is None:
                    base, bh = v, h
                ctx.close(f"point:{nl}", v, base, rtol=3e-6 if nl == 2 else 4e-4, mask=good, labels=lab)
                ctx.close(f"multipole:{nl}", h, bh, rtol=1e-5 if nl == 2 else 1e-3, mask=mind > .05, labels=lab)
                ctx.count(states=1, transitions=1, traces=1, evals=2 * len(W0))
            ctx.outcome(f"{nl} lenses orbit")
        ctx.spaces.append(dict(space=f"{nl} lenses: orbits x sources", size=len(cf) * (4 if nl == 2 else 12) * len(W0)))
        ctx.sample(system=p, description=pp, source=W0[0], image=to(W0)[0])
    return f


def curves(ctx):
    """critical curves and caustics of all descriptions coincide as point sets, transported back."""
    from microjax.point_source import critical_and_caustic_curves
    N = 1000
    for nl, cf in ((2, _cfgs(2, False, 1)[::2]), (3, _cfgs(3, False, 37 if not ctx.thorough else 9))):
        for p in cf:
            ref = None
            for pp, _, back in orbit(nl, p):
                zc, wc = [back(np.asarray(x)) for x in critical_and_caustic_curves(npts=N, nlenses=nl, **pp)]
                if ref is None:
                    ref = zc, wc
                    sp = [float(np.abs(np.diff(x, axis=1)).max()) for x in ref]
                    continue
                for nm, a, b, s in (("critical", zc, ref[0], sp[0]), ("caustic", wc, ref[1], sp[1])):
                    sub = a.ravel()[::23]
                    d = np.abs(sub[:, None] - b.ravel()[None]).min(1).max()
                    sub = b.ravel()[::23]
                    d2 = np.abs(sub[:, None] - a.ravel()[None]).min(1).max()
                    s2 = float(np.abs(np.diff(a, axis=1)).max())
                    ctx.expect(max(d, d2) < 1.1 * max(s, s2) + 1e-6, f"{nm}@{K.tag(nl, p)}->{K.tag(nl, pp)}", hausdorff=[d, d2], spacing=[s, s2])
                ctx.count(states=1, transitions=1, traces=1, evals=N)
            ctx.outcome(f"{nl} lenses curves")


def _finite(nl, kind):
    def f(ctx):
        cf = [dict(s=.9, q=.3), dict(s=1.6, q=2.5), dict(s=1., q=1.), dict(s=.6, q=.05)] if nl == 2 else \
            [dict(s=1.2, q=.5, q3=.3, r3=.9, psi=1.9), dict(s=.8, q=2., q3=.4, r3=1.1, psi=-.6)]
        Wf = np.array([.21 + .13j, -.35 - .02j, .6 + .4j, 1.3 - .2j, -.1 + .9j])
        if ctx.thorough:
            Wf = K.grid([-.9, -.35, .04, .21, .8, 1.4], [-.8, -.13, .02, .31])
        items = []
        for p in cf:
            orb = orbit(nl, p)
            if nl == 3 and not ctx.thorough:
                orb = orb[::2] + orb[1:2]
                orb = orb[::2] if kind == "contour" else orb
            for rho in (.03, .2):
                for pp, to, _ in orb:
                    items += [(p, pp, w, to(w), rho) for w in Wf]
        W = np.array([i[3] for i in items])
        R = np.array([i[4] for i in items])
        P = [i[1] for i in items]
        if kind == "inverse":
            v = K.inv_mag(nl, W, R, P, r=200, th=200)
        elif kind == "limb":
            v = K.inv_mag(nl, W, R, P, u1=.6, r=200, th=200)
        elif kind == "contour":
            v = K.contour_mag(nl, W, R, P, npts=300)
        base = {}
        for it, x in zip(items, v):
            k = (tuple(sorted(it[0].items())), it[2], it[4])
            base.setdefault(k, []).append((x, it))
        for k, l in base.items():
            x = np.array([a for a, _ in l])
            ctx.close(f"{kind}:{nl}", x, np.median(x), rtol=1.5e-2, labels=[f"{K.tag(nl, i[1])},w={i[3]:.4g},rho={i[4]}" for _, i in l])
            ctx.count(states=len(x), transitions=len(x) - 1, traces=len(x), evals=len(x))
            ctx.outcome(f"{kind} {nl} lenses orbit")
    return f


def reductions(ctx):
    # companion of vanishing mass (numerically clean down to any q): binary == single
    s1 = O.point_mag(W0, *O.lens1())[0]
    for s in K.BIN_S + (4.,):
        for q in (1e-6, 1e-8, 1e-10):
            for flip in (False, True):
                p = dict(s=s, q=1 / q if flip else q)
                m, z = O.system(2, p)
                far = np.abs(W0 - (s - 1 / s) * (-1 if flip else 1)) > 30 * np.sqrt(q) / min(1, s)
                # two planetary caustics for s<1 lie off the axis: |y| ~ 2 sqrt(q)/s ...
                v = values(W0, 2, p)
                ok = far & (O.point_mag(W0, m, z)[3] > 1e-2) & (np.abs(W0) > .1)
                ctx.close("q->0", v, s1, rtol=30 * np.sqrt(q), mask=ok, labels=[f"{K.tag(2, p)},w={w:.4g}" for w in W0])
                ctx.count(states=1, transitions=1, traces=1, evals=len(W0))
        ctx.outcome("q->0")
    # third mass vanishing, in every direction: triple == binary to first order
    for s, q, r3, psi in itertools.product((.7, 1.3), (.3, 2.), (.9, 1.8), (0.3, 2.5, -1.2, np.pi)):
        m2, z2 = O.system(2, dict(s=s, q=q))
        b, ok2, _, mind = O.point_mag(W0, m2, z2)
        d = []
        for q3 in (1e-2, 1e-3):
            p = dict(s=s, q=q, q3=q3, r3=r3, psi=psi)
            m, z = O.system(3, p)
            zt = z[2]
            wc = zt - np.conj(sum(mk / (zt - zk) for mk, zk in zip(m2, z2)))   # source position imaged at the third lens
            far = (np.abs(W0 - wc) > .3) & (mind > .2) & ok2
            v = values(W0, 3, p)
            kap = np.abs(O.dfbar(np.array([zt]), m2, z2))[0]
            lim = 6 * q3 * (1 + kap) * np.maximum(b, 1) ** 2      # the caustics move by O(q3): local sensitivity of the magnification
            ctx.close("q3->0", v / b, 1., rtol=0, atol=np.maximum(lim, 5e-3), mask=far & (np.abs(v) < 20), labels=[f"{K.tag(3, p)},w={w:.4g}" for w in W0])
            ctx.count(states=1, transitions=1, traces=1, evals=len(W0))
        ctx.outcome("q3->0")
    # lenses merged: far away a single lens of unit mass at the centre of mass
    Wf = np.concatenate([r * np.exp(1j * np.array([.1, 1.2, 2.9, -2.])) for r in (1., 2., 5.)])
    for q in (.05, .5, 1., 3.):
        for s in (.02, .05):
            v = values(Wf, 2, dict(s=s, q=q))
            ctx.close("merged", v, O.point_mag(Wf, *O.lens1())[0], rtol=8 * s ** 2 + 1e-6, labels=[f"s={s},q={q},w={w:.3g}" for w in Wf])
            ctx.count(states=1, transitions=1, traces=1, evals=len(Wf))
    # three collinear lenses in a row: the third one taken as companion is covered by the orbits; third lens onto the centre of mass direction
    ctx.outcome("merged")


PARTS = dict(point2=_point(2, 1), point3=_point(3, 9), curves=curves, inverse2=_finite(2, "inverse"), limb2=_finite(2, "limb"), contour2=_finite(2, "contour"),
             inverse3=_finite(3, "inverse"), contour3=_finite(3, "contour"), limb3=_finite(3, "limb"), reductions=reductions)
