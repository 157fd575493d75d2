"""Multipole approximation against the Taylor coefficients of the true magnification."""
import numpy as np
from mc import oracle as O
from checks import common as K

PROPERTY = "P14"
LEVEL = "exploration"
RULE = ("all systems x sources x radii (in units of the distance to the nearest caustic) x limb-darkening coefficients of a lattice; value and error estimate compared "
        "with the disk average through order rho^4 built, image by image, from certified images on rings round the source, and with the full disk average")
ASSUMPTIONS = ["position at least 3 source radii from every caustic, and inside a third of the radius of convergence of the multipole series", "images fainter than 1e-10 ignored (1e-4 for three lenses may or may not be counted)", "rho^6 remainder: the reference's own next coefficients"]

FR = (0., .02, .1, .3)                     # rho / distance to the caustics
U1 = (0., .37, 1.)
PH = np.linspace(0, 2 * np.pi, 144, endpoint=False)
NT, NR, DEG = 32, 12, 8


def moments(u1):
    """mean of r^2k, k = 0..DEG, over a unit disk of profile 1-u1(1-sqrt(1-r^2))."""
    x, g = np.polynomial.legendre.leggauss(64)
    mu = .5 * (x + 1)
    wt = g * mu * (1 - u1 * (1 - mu))
    return np.array([np.sum(wt * (1 - mu * mu) ** k) for k in range(DEG + 1)]) / wt.sum()


def rings(w, m, zl, d):
    """per image: coefficients c_k of the ring mean sum_k c_k r^2k."""
    ims, ok = O.images(np.array([w]), m, zl)
    if not ok[0]:
        return None
    z0 = ims[0]
    z0 = z0[1 / np.abs(O.detj(z0, m, zl)) > 1e-10]
    R = .4 * d
    rr = R * np.sqrt(.5 - .5 * np.cos(np.pi * (np.arange(NR) + .5) / NR))        # Chebyshev nodes in r^2
    t = np.exp(1j * (np.arange(NT) + .5) * 2 * np.pi / NT)
    z = np.repeat(z0[:, None], NT, 1)
    old, M = 0., []
    for r in rr:
        for f in np.linspace(old, r, 4)[1:]:
            k = np.conj(O.dfbar(z, m, zl))
            dw = O.lens_eq(z, m, zl) - (w + f * t)
            dz = -(dw - k * np.conj(dw)) / (1 - np.abs(k) ** 2)
            z = O.newton_images(z + dz, w + f * t, m, zl, it=6)
        old = r
        det = O.detj(z, m, zl)
        if (np.sign(det) != np.sign(det[:, :1])).any() or np.abs(O.lens_eq(z, m, zl) - w - r * t).max() > 1e-9:
            return None
        M.append((1 / np.abs(det)).mean(1))
    M.insert(0, 1 / np.abs(O.detj(z0, m, zl)))
    x = np.concatenate([[0], (rr / R) ** 2])
    wt = np.ones(NR + 1)
    wt[0] = 100.
    c = np.linalg.lstsq(np.vander(x, DEG + 1, increasing=True) * wt[:, None], np.array(M) * wt[:, None], rcond=None)[0]
    return (c / (R ** (2 * np.arange(DEG + 1)))[:, None]).T                        # (images, DEG+1)


def scale(w, m, zl, d):
    """largest d <= caustic distance at which the series has converged (complex singularities may be nearer than the caustic)."""
    for _ in range(7):
        c = rings(w, m, zl, d)
        if c is None:
            return d, None
        t = np.abs(c) * (.4 * d) ** (2 * np.arange(DEG + 1))
        if t[:, -2:].sum() < 1e-7 and t[:, -2:].sum() < 1e-3 * t[:, 2].sum() + 1e-12:
            return d, c
        d *= .6
    return d, None


def positions(nl, zl, thorough):
    g = K.grid(K.GX[::2] + [.8], K.GY[::2] + [-.3]) if not thorough or nl == 3 else K.grid()
    g = np.concatenate([g, [6., -5j, 3 - 4j, -8 + .3j]])
    return g


def family(ctx, nl, cfgs):
    mom = {u: moments(u) for u in U1}
    items = []
    for p in cfgs:
        m, zl = O.system(nl, p)
        cau = O.caustic_points(m, zl, PH) if nl > 1 else zl
        for w in positions(nl, zl, ctx.thorough):
            d = np.abs(w - cau).min()
            if d < .03 or np.abs(w - zl).min() < 1e-9:
                continue
            d, c = scale(w, m, zl, min(d, 1.))
            ctx.count(states=1)
            if c is None:
                ctx.count(unjudged=1)
                continue
            items.append((p, w, d, c))
    W = np.array([i[1] for i in items])
    D = np.array([i[2] for i in items])
    cf = [i[0] for i in items]
    C = [np.abs(i[3]) for i in items]
    lab = [f"{K.tag(nl, p)}:w={w:.4g}" for p, w in zip(cf, W)]
    faint = np.array([c[:, 0][c[:, 0] < (1e-6 if nl < 3 else 1e-4)].sum() for c in C])      # images the solver may or may not resolve
    vals = {}
    for u in U1:
        q = mom[u]
        for f in FR:
            rho = f * D
            v, e = K.hexa(nl, W, rho, cf, u1=u)
            vals[u, f] = v
            S = np.array([i[3].sum(0)[:3] for i in items])                    # signed totals
            A = np.array([c.sum(0)[:3] for c in C])                          # sums of absolute values
            want = (S * q[:3] * rho[:, None] ** np.array([0, 2, 4])).sum(1)
            tol = (1e-9 if nl < 3 else 1e-7) * S[:, 0] + 2 * faint + 1e-5 * A[:, 1] * q[1] * rho ** 2 + 1e-3 * A[:, 2] * q[2] * rho ** 4
            ctx.close(f"value:u1={u},rho/d={f}", (v - want) / tol, 0 * v, atol=1., labels=lab)
            ewant = (A[:, 1:] * q[1:3] * rho[:, None] ** np.array([2, 4])).sum(1)
            etol = tol + 1e-3 * ewant                # which of the faintest images count is left open
            ctx.close(f"estimate:u1={u},rho/d={f}", (e - ewant) / etol, 0 * e, atol=1., labels=lab)
            ctx.count(evals=len(v), traces=1, compared=2 * len(v))
            ctx.outcome("radius zero" if f == 0 else "rho>0", len(v))
    # the remainder is of order rho^6: whole disk average at rho = .3 d
    step = 1 if ctx.thorough else max(1, len(items) // 60)
    for u in U1[:2]:
        for k in range(0, len(items), step):
            p, w, d, c = items[k]
            f = FR[-1]
            ref, smooth = O.disk_mag(w, f * d, *O.system(nl, p), u1=u, nr=10, nt=24)
            if not smooth:
                ctx.count(unjudged=1)
                continue
            rest = (c.sum(0) * mom[u] * (f * d) ** (2 * np.arange(DEG + 1)))[3:].sum()
            ctx.expect(abs(vals[u, f][k] + rest - ref) <= 1e-4 * (ref - 1) + 2e-6 * ref + .02 * abs(rest), f"disk:u1={u}:{lab[k]}", multipole=vals[u, f][k], disk=ref, rest=float(rest))
            ctx.count(evals=1, compared=1)
    ctx.expect(len(items) > (20 if nl == 1 else 50), f"n{nl}:enough-judged", n=len(items))
    ctx.spaces.append(dict(space=f"{nl} lenses: systems x sources x radii x u1", size=len(items) * len(FR) * len(U1)))
    if items:
        ctx.sample(cfg=cf[0], w=W[0], value=vals[0., .3][0])


def single(ctx):
    family(ctx, 1, [{}])


def binary(ctx, i, k):
    family(ctx, 2, K.bin_cfgs(ctx.thorough)[i::k])


def triple(ctx, i, k):
    c = K.tri_cfgs(ctx.thorough)
    family(ctx, 3, c[(13 * i) % 25:: k * (5 if ctx.thorough else 12)])


PARTS = dict(single=single, **{f"binary{i}": (lambda c, i=i: binary(c, i, 4)) for i in range(4)}, **{f"triple{i}": (lambda c, i=i: triple(c, i, 4)) for i in range(4)})
