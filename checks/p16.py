"""Derivatives of the finite-source magnifications."""
import itertools
import numpy as np
from mc import oracle as O, limb as L
from checks import common as K

PROPERTY = "P16"
LEVEL = "exploration"
RULE = ("all systems x sources x radii x parameters of a lattice away from tangencies, for the inverse-ray, adaptive and contour solvers, uniform and limb darkened; "
        "derivatives compared with integrals along the source limb over certified images, value under differentiation with the plain value, forward with reverse mode")
ASSUMPTIONS = ["tangencies: the number of limb-caustic crossings must be the same for 0.85, 1 and 1.15 times the radius",
               "errors are measured in units of the same limb integral taken over absolute values: every case within 12-30 % of it, four fifths within 1-3 %, "
               "and the regression of all derivatives on the reference within 3-10 % of one (discretisation at 400 cells, 300 limb points)",
               "the finite-source magnification entering d/d rho is P09/P10's reference",
               "values under differentiation: within 0.5% (uniform), 1.5% (limb darkened)"]

BIN = [dict(s=s, q=q) for s, q in ((1., .1), (.8, .01), (1.5, 1.), (.6, .3), (1.1, 3.))]
TRI = [dict(s=1.1, q=.5, q3=.2, r3=.7, psi=.9), dict(s=.9, q=.1, q3=.05, r3=1.2, psi=-2.2), dict(s=.7, q=1., q3=.5, r3=.9, psi=2.6)]
SRC = (.05 + .1j, .05 + .01j, .3 + .4j, -.2 + .15j, .1 - .3j, .5 + 0j, -.4 - .05j)
RHO = (.03, .1, .3)
MORE_BIN = [dict(s=s, q=q) for s, q in ((.5, 1.), (1., 1e-3), (2., .1), (1.3, .05), (.9, 10.))]
MORE_SRC = (-.1 + .6j, .9 - .4j, -.7 + 0j, .02 - .02j, 1.2 + .7j)


def names(nl):
    return ("x", "y", "rho") + L.PAR[nl]


def cases(nl, systems, srcs, rhos, u1):
    """[(p, w, rho, F, gradient, scale, crossings)] for everything the reference can judge."""
    out, skipped = [], 0
    for p, rho, w in itertools.product(systems, rhos, srcs):
        m, zl = O.system(nl, p)
        cs = [L.cuts(w, rho * f, m, zl) for f in (.85, 1., 1.15)] if nl > 1 else [[], [], []]
        if any(c is None for c in cs) or len({len(c) for c in cs}) > 1 or (nl == 1 and abs(abs(w) / rho - 1) < .15):
            skipped += 1
            continue
        if nl == 1:
            F = single_mag(w, rho, u1)
        else:
            F = O.fs_vbm(w, rho, m, zl, u1=u1, reltol=1e-5, tol=1e-5) if nl == 2 else O.area_mag(w, rho, m, zl, u1=u1, res=96)
        g = L.uniform(nl, w, rho, p, F) if not u1 else L.limb_dark(nl, w, rho, p, F, u1, nt=16, n=48)
        if g is None:
            skipped += 1
            continue
        out.append((p, w, rho, F, g[0][0], g[0][1], g[1]))
    return out, skipped


def single_mag(w, rho, u1):
    """one lens: rings round the lens (area integral in the source plane, exact in the angle)."""
    x, gx = np.polynomial.legendre.leggauss(200)
    u0 = abs(w)
    tot = 0.
    for lo, hi in ((max(u0 - rho, 0.), u0 + rho),) if u0 >= rho else ((0., rho - u0), (rho - u0, rho + u0)):
        f = (x + 1) * np.pi / 4                                    # cosine spacing at both ends
        r = lo + (hi - lo) * np.sin(f) ** 2
        wr = gx * np.pi / 4 * (hi - lo) * 2 * np.sin(f) * np.cos(f)
        A = (r * r + 2) / np.sqrt(r * r + 4)                       # r * A(r)
        c = np.clip((r * r + u0 * u0 - rho * rho) / np.maximum(2 * r * u0, 1e-300), -1, 1) if u0 > 0 else -np.ones_like(r)
        half = np.arccos(c)
        if u1:
            t = (np.arange(64) + .5) / 64 * np.pi
            th = half[:, None] * (1 - np.cos(t)) / 2
            wt = half[:, None] * np.sin(t) / 2 * np.pi / 64
            d2 = (r[:, None] ** 2 + u0 ** 2 - 2 * r[:, None] * u0 * np.cos(th)) / rho ** 2
            ang = 2 * (wt * (1 - u1 * (1 - np.sqrt(np.clip(1 - d2, 0, 1))))).sum(1)
        else:
            ang = 2 * half
        tot += (wr * A * ang).sum()
    return tot / (np.pi * rho ** 2 * (1 - u1 / 3))


def kwargs(nl, t):
    return dict(zip(L.PAR[nl], [t[3 + i] for i in range(len(L.PAR[nl]))]))


def inverse(nl, u1, R):
    from microjax.inverse_ray.extended_source import mag_uniform, mag_limb_dark
    o = dict(nlenses=nl, r_resolution=R, th_resolution=R, Nlimb=400)
    if not u1:
        return lambda t: mag_uniform(t[0] + 1j * t[1], t[2], **o, **kwargs(nl, t))
    return lambda t: mag_limb_dark(t[0] + 1j * t[1], t[2], u1=t[-1], **o, **kwargs(nl, t))


def contour(nl, u1, N, ld=150):
    from microjax.caustics.extended_source import mag_extended_source
    if not u1:
        return lambda t: mag_extended_source(t[0] + 1j * t[1], t[2], nlenses=nl, npts_limb=N, **kwargs(nl, t))
    return lambda t: mag_extended_source(t[0] + 1j * t[1], t[2], nlenses=nl, npts_limb=N, limb_darkening=True, u1=t[-1], npts_ld=ld, **kwargs(nl, t))


def judge(ctx, key, nl, f, items, u1, each, most, slope, vtol, back=4):
    import jax
    T = np.array([[w.real, w.imag, rho] + [p[k] for k in L.PAR[nl]] + [u1] for p, w, rho, *_ in items]).reshape(len(items), -1)
    eye = np.eye(T.shape[1])
    F = jax.jit(lambda T: jax.lax.map(lambda t: jax.vmap(lambda e: jax.jvp(f, (t,), (e,)), out_axes=(None, 0))(eye), T))
    vj, g = (np.asarray(a) for a in F(T))
    v = np.asarray(jax.jit(lambda T: jax.lax.map(f, T))(T))
    n = 3 + len(L.PAR[nl])
    W = np.array([i[4] for i in items])
    S = np.array([i[5] for i in items])
    lab = [f"{K.tag(nl, p)},w={w:.4g},rho={rho},u1={u1}" for p, w, rho, *_ in items]
    ctx.expect(np.isfinite(g).all(), f"{key}:finite", bad=[lab[i] for i in np.nonzero(~np.isfinite(g).all(1))[0][:4]])
    E = (g[:, :n] - W) / S
    ctx.close(f"{key}:primal", vj / v - 1, 0 * v, atol=vtol, labels=lab)
    for j, k in enumerate(names(nl)):
        ctx.close(f"{key}:d/d{k}", E[:, j], 0 * v, atol=each, labels=lab)
        q = float(np.quantile(np.abs(E[:, j]), .8))
        ctx.expect(q <= most, f"{key}:d/d{k}:most", quantile80=q, tol=most)
        ctx.worst[f"{key}:d/d{k}:most"] = q / most
        x = W[:, j] / S[:, j]
        big = np.abs(x) > .05
        if big.sum() >= 4:
            b = float(np.median((E[:, j] / x)[big]) + 1)
            ctx.expect(abs(b - 1) <= slope, f"{key}:d/d{k}:slope", slope=b, tol=slope)
            ctx.worst[f"{key}:d/d{k}:slope"] = abs(b - 1) / slope
        ctx.outcome(f"d/d{k}", len(items))
    if back:
        r = np.asarray(jax.jit(lambda T: jax.lax.map(jax.grad(f), T))(T[:back]))
        Su = np.concatenate([S, np.abs(v)[:, None]], 1)[:back]
        ctx.close(f"{key}:reverse=forward", (r - g[:back]) / Su, 0 * r, atol=1e-6)
    ctx.count(states=len(items), evals=len(items), traces=1, compared=E.size)
    ctx.spaces.append(dict(space=f"{key}: systems x radii x sources x parameters", size=E.size))
    ctx.outcome("limb crosses a caustic", sum(i[6] > 0 for i in items))
    ctx.outcome("no crossing", sum(i[6] == 0 for i in items))
    ctx.sample(cfg=items[0][0], w=items[0][1], rho=items[0][2], gradient=g[0], reference=W[0])
    return v, g


def du1(ctx, key, nl, items, g, u1, tol):
    """derivative with respect to the coefficient: from the reference magnifications at u1 = 0 and 1."""
    mag = (lambda w, r, m, zl, u: O.fs_vbm(w, r, m, zl, u1=u, reltol=1e-5, tol=1e-5)) if nl == 2 else (lambda w, r, m, zl, u: O.area_mag(w, r, m, zl, u1=u, res=96))
    for (p, w, rho, F, *_), gi in list(zip(items, g))[:12]:
        m, zl = O.system(nl, p)
        F0, F1 = mag(w, rho, m, zl, 0.), mag(w, rho, m, zl, 1.)
        want = ((2 / 3 * F1 - F0) * (1 - u1 / 3) + ((1 - u1) * F0 + 2 * u1 / 3 * F1) / 3) / (1 - u1 / 3) ** 2
        ctx.expect(abs(gi[-1] - want) <= tol * F, f"{key}:d/du1:{K.tag(nl, p)},w={w:.4g},rho={rho}", got=float(gi[-1]), want=float(want), tol=tol * F)
        ctx.count(compared=1)
    ctx.outcome("d/du1", min(12, len(items)))


def build(ctx, nl, systems, srcs, rhos, u1):
    it, sk = cases(nl, systems, srcs, rhos, u1)
    if not it:
        raise RuntimeError("nothing to judge")
    ctx.count(states=sk, unjudged=sk)
    return it


def bins(ctx):
    return (BIN, SRC) if not ctx.thorough else (BIN + MORE_BIN, SRC + MORE_SRC)


def tris(ctx):
    return (TRI, SRC[:5]) if not ctx.thorough else (TRI, SRC + MORE_SRC)


def inverse_uniform(ctx):
    it = build(ctx, 2, *bins(ctx), RHO, 0.)
    judge(ctx, "inverse", 2, inverse(2, 0., 400 if not ctx.thorough else 800), it, 0., .25, .015, .03, .005)


def inverse_ld(ctx):
    B, s = bins(ctx)
    for u1 in ((.5,) if not ctx.thorough else (.5, 1.)):
        it = build(ctx, 2, B, s[::2] if not ctx.thorough else s, RHO[1:] if not ctx.thorough else RHO, u1)
        v, g = judge(ctx, f"inverse-ld u1={u1}", 2, inverse(2, u1, 400 if not ctx.thorough else 800), it, u1, .2, .015, .04, .015)
        du1(ctx, f"inverse-ld u1={u1}", 2, it, g, u1, .02)


def inverse_triple(ctx):
    T, s = tris(ctx)
    it = build(ctx, 3, T, s, RHO[1:], 0.)
    judge(ctx, "inverse-triple", 3, inverse(3, 0., 400), it, 0., .12, .015, .04, .005, back=2)


def inverse_triple_ld(ctx):
    T, s = tris(ctx)
    it = build(ctx, 3, T, s[:4], RHO[1:], .6)
    v, g = judge(ctx, "inverse-triple-ld", 3, inverse(3, .6, 400), it, .6, .25, .03, .06, .015, back=0)
    du1(ctx, "inverse-triple-ld", 3, it, g, .6, .02)


def contour_uniform(ctx):
    B, s = bins(ctx)
    it = build(ctx, 2, B[:: 1 if ctx.thorough else 2], s, RHO[1:], 0.)
    judge(ctx, "contour", 2, contour(2, 0., 300), it, 0., .15, .02, .08, 1e-9, back=2)


def contour_ld(ctx):
    B, s = bins(ctx)
    it = build(ctx, 2, B[1::2], s[:: 1 if ctx.thorough else 2], (.1,), .5)
    v, g = judge(ctx, "contour-ld", 2, contour(2, .5, 300), it, .5, 3., .03, .1, 1e-9, back=2 * ctx.thorough)
    du1(ctx, "contour-ld", 2, it, g, .5, .005)


def contour_single(ctx):
    for u1 in (0., .5):
        it = build(ctx, 1, [{}], SRC + MORE_SRC, RHO, u1)
        judge(ctx, f"contour-single u1={u1}", 1, contour(1, u1, 200), it, u1, .02 if not u1 else 10., .002 if not u1 else .03, .01 if not u1 else .05, 1e-9, back=2)


def contour_triple(ctx):
    T, s = tris(ctx)
    it = build(ctx, 3, T, s[:4], (.1, .3), 0.)
    judge(ctx, "contour-triple", 3, contour(3, 0., 200), it, 0., .2, .03, .1, 1e-9, back=1 * ctx.thorough)


def adaptive(ctx, only):
    """light curves: the derivative of every sample is that of the value it was given (multipole or full)."""
    import jax
    import jax.numpy as jnp
    from microjax.inverse_ray import lightcurve as lc
    from microjax.inverse_ray.extended_source import mag_uniform, mag_limb_dark
    from microjax.caustics.lightcurve import magnifications
    from microjax.caustics.extended_source import mag_extended_source
    W = np.array([3 + 2j, .05 + .02j, -1.4 + 1.5j, .2 - .1j, -2 + 0j, .5 + 0j, .05 + .02j])
    st = dict(r_resolution=60, th_resolution=60, Nlimb=100)

    def hexv(nl, t, w, u1):
        from microjax.point_source import _images_point_source
        from microjax.multipole import mag_hexadecapole
        k = kwargs(nl, t)
        if nl == 1:
            return mag_hexadecapole(*_images_point_source(w, nlenses=1), t[2], u1=u1, nlenses=1)[0]
        s, q, q3 = k["s"], k["q"], k.get("q3", 0.)
        w = w - .5 * s * (1 - q) / (1 + q)
        o = dict(a=.5 * s, e1=q / (1 + q + q3))
        if nl == 3:
            o.update(e2=1 / (1 + q + q3), r3=k["r3"], psi=k["psi"])
        z, mk = _images_point_source(w, nlenses=nl, **o)
        return mag_hexadecapole(z, mk, t[2], u1=u1, nlenses=nl, **o)[0]
    configs = []
    for u1 in (0., .6):
        for nl, p in ((2, dict(s=1., q=.5)), (3, dict(s=1.1, q=.5, q3=.2, r3=.7, psi=.9))):
            m = dict(margin_r=1., margin_th=1.)
            cur = lc.mag_binary if nl == 2 else lc.mag_triple
            configs.append((f"adaptive n{nl} u1={u1}", nl, p, u1, lambda t, cur=cur, nl=nl, u1=u1: cur(jnp.asarray(W) + t[0] + 1j * t[1], t[2], u1=u1, MAX_FULL_CALLS=5, chunk_size=3, **st, **kwargs(nl, t)),
                            (lambda t, w, nl=nl, m=m: mag_uniform(w, t[2], nlenses=nl, **st, **m, **kwargs(nl, t))) if not u1 else
                            (lambda t, w, nl=nl, m=m, u1=u1: mag_limb_dark(w, t[2], u1=u1, nlenses=nl, **st, **m, **kwargs(nl, t)))))
        for nl, p in ((1, {}), (2, dict(s=1., q=.5))):
            kw = dict(limb_darkening=True, u1=u1, npts_ld=20) if u1 else {}
            configs.append((f"contour curve n{nl} u1={u1}", nl, p, u1, lambda t, nl=nl, kw=kw: magnifications(jnp.asarray(W) + t[0] + 1j * t[1], t[2], nlenses=nl, npts_limb=60, **kw, **kwargs(nl, t)),
                            lambda t, w, nl=nl, kw=kw: mag_extended_source(w, t[2], nlenses=nl, npts_limb=60, **kw, **kwargs(nl, t))))
    for key, nl, p, u1, curve, full in configs:
        if not key.startswith(only) or not (ctx.thorough or key.endswith(("n2 u1=0.6", "adaptive n3 u1=0.0", "contour curve n1 u1=0.6"))):
            continue
        t = np.array([0., 0., .05] + [p[k] for k in L.PAR[nl]])
        v = np.asarray(curve(t))
        J = np.asarray(jax.jit(jax.jacfwd(curve))(t))
        B = np.asarray(jax.jit(jax.jacrev(curve))(t)) if ctx.thorough or nl == 2 else J
        fv, fj = (np.asarray(a) for a in jax.jit(lambda: jax.lax.map(lambda w: (full(t, w), jax.jacfwd(lambda t: full(t, w + t[0] + 1j * t[1]))(t)), jnp.asarray(W)))())
        hv, hj = (np.asarray(a) for a in jax.jit(lambda: jax.lax.map(lambda w: (hexv(nl, t, w, u1), jax.jacfwd(lambda t: hexv(nl, t, w + t[0] + 1j * t[1], u1))(t)), jnp.asarray(W)))())
        isf = np.abs(v - fv) < np.abs(v - hv)
        want = np.where(isf[:, None], fj, hj)
        sc = np.abs(want) + 1e-2 * np.abs(want).max(1, keepdims=True) + 1e-6
        ctx.close(f"{key}:forward", (J - want) / sc, 0 * J, atol=1e-6)
        # limb-darkened contours: quadrature points falling on the limb to the last bit make the modes differ there
        rough = only == "contour" and u1 > 0
        keep = np.abs(W.imag) > 0 if rough else slice(None)
        ctx.close(f"{key}:reverse", ((B - want) / sc)[keep], 0 * J[keep], atol=1e-3 if rough else 1e-6)
        ctx.outcome("sample full", int(isf.sum()))
        ctx.outcome("sample multipole", int((~isf).sum()))
        ctx.expect(isf.any() and (nl == 3 or (~isf).any()), f"{key}:both", full=int(isf.sum()))
        ctx.count(states=len(W), evals=len(W), traces=1, compared=2 * J.size)


def finite(ctx):
    """derivatives are finite at every special position: on the axis, on lenses, symmetric systems, tiny and large disks, far away."""
    import jax
    for nl, systems in ((2, [dict(s=1., q=1.), dict(s=1., q=.5), dict(s=.5, q=1e-3), dict(s=2., q=4.)]), (3, TRI[:2])):
        T = []
        for p in systems:
            m, zl = O.system(nl, p)
            ws = [0j, .5 + 0j, -.5 + 0j, .3j, -1.2 + .4j, 5 + 5j, -30 + 0j] + list(zl) + [zl[0] + 1e-6]
            for w, rho in itertools.product(ws, (1e-3, .05, .7)):
                T.append([w.real, w.imag, rho] + [p[k] for k in L.PAR[nl]] + [.5])
        T = np.array(T)
        for nm, f in (("inverse", inverse(nl, 0., 40)), ("inverse-ld", inverse(nl, .5, 40))) + ((("contour", contour(nl, 0., 60)),) if nl == 2 else ()):
            t = T[(T[:, 2] < .5) & (np.hypot(T[:, 0], T[:, 1]) < 10)] if nm == "contour" else T
            g = np.asarray(jax.jit(lambda X: jax.lax.map(jax.jacfwd(f), X, batch_size=8))(t))
            for b in np.nonzero(~np.isfinite(g).all(1))[0][:6]:
                ctx.fail(f"finite:{nm}:n{nl}:" + ",".join(f"{x:.4g}" for x in t[b]), gradient=g[b])
            ctx.count(states=len(t), evals=len(t), compared=g.size)
            ctx.outcome(f"finite {nm}", len(t))


PARTS = dict(inverse_uniform=inverse_uniform, inverse_ld=inverse_ld, inverse_triple=inverse_triple, inverse_triple_ld=inverse_triple_ld, contour_uniform=contour_uniform,
             contour_ld=contour_ld, contour_single=contour_single, contour_triple=contour_triple, curve_inverse=lambda c: adaptive(c, "adaptive"), curve_contour=lambda c: adaptive(c, "contour"), finite=finite)
