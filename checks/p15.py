"""Forward and reverse derivatives of the point-source and multipole magnifications."""
import numpy as np
from mc import oracle as O
from checks import common as K

PROPERTY = "P15"
LEVEL = "exploration"
RULE = ("all systems x sources x parameters of a lattice, in forward and reverse mode, alone and inside arrays, jit, vmap and parametrised trajectories; compared with "
        "differences of the reference's own magnification (point source) or of the verified primal (multipole); primal values under differentiation equal the plain ones")
ASSUMPTIONS = ["images carrying less than 1e-4 (or 2e-5 of the total) may be left out by the solver (P01)", "sources off the caustics and not exactly on a lens of the single-lens system", "multipole: the primal is the one judged by P14"]

PAR = {1: (), 2: ("s", "q"), 3: ("s", "q", "q3", "r3", "psi")}
PH = np.linspace(0, 2 * np.pi, 96, endpoint=False)
NB = 64
STEPS = (1., .1)
TOL = {1: 1e-5, 2: 5e-4, 3: 1e-3}


def ref_grad(nl, w, p, d):
    """(value, gradient, scale) of the point-source magnification by 4th-order differences of continued images."""
    m, zl = O.system(nl, p)
    ims, ok = O.images(np.array([w]), m, zl)
    if not ok[0]:
        return None
    z0 = ims[0]
    base = 1 / np.abs(O.detj(z0, m, zl))

    def mu(w, p):
        m, zl = O.system(nl, p)
        z = O.newton_images(z0, w, m, zl, it=8)
        return 1 / np.abs(O.detj(z, m, zl)) if np.abs(z - z0).max() < .2 else np.nan * z0

    g, sc, hs = [], [], []
    for k in ("x", "y") + PAR[nl]:
        for f in (1e-3, 2e-4, 4e-5):
            h = f * d * (1. if k in "xy" or k == "psi" else p[k])
            v = []
            for n in (-2, -1, 1, 2):
                if k in ("x", "y"):
                    v.append(mu(w + n * h * (1 if k == "x" else 1j), p))
                else:
                    v.append(mu(w, dict(p, **{k: p[k] + n * h})))
            t = (v[0] - 8 * v[1] + 8 * v[2] - v[3]) / (12 * h)
            e = np.abs((v[2] - v[1]) / (2 * h) - t)                   # size of the next order: how well differences do here
            if e.sum() < 1e-3 * np.abs(t).sum():
                break
        g.append(t.sum())
        hs.append(h)
        lost = np.abs(t[base < max(1e-4, 2e-5 * base.sum())]).sum()                          # images the solver need not report
        sc.append(np.abs(t).sum() + e.sum() + 2 * lost / TOL[nl] + 1e-3 * base.sum() * (1 if k in "xy" or k == "psi" else 1 / p[k]) * min(1., base.sum() - .99))
    sc = np.array(sc)
    sc[:2] = np.maximum(sc[:2], .05 * sc[:2].max())
    sc[2:] += 1e-4 * np.hypot(*sc[:2]) if nl > 1 else 0                 # moving all lenses together cancels to rounding
    sc += 2e-15 * np.hypot(g[0], g[1]) / np.array(hs) / TOL[nl]         # rounding of the differences
    return base.sum(), np.array(g), sc


def bins(ctx):
    return [p for p in K.bin_cfgs(ctx.thorough) if p["q"] >= 1e-6]


def sources(nl, zl, thorough):
    g = np.concatenate([K.grid(K.GX[::2], K.GY[::2] + [-.3]), [6., -5j, 3 - 4j, -8 + .3j, .37, -.52, .2j, 0j]]) if not thorough else np.concatenate([K.grid(), [6., -5j, 3 - 4j, .2j, 0j]])
    if nl > 1:
        g = np.concatenate([g, [z + 1e-3 * np.exp(.7j) for z in zl[:2]], [z + .03 * np.exp(-2.1j) for z in zl]])
    return g


def fns(nl):
    """jitted, mapped value, forward and reverse derivative of (x, y, params) -> magnification."""
    import jax, jax.numpy as jnp
    from microjax.point_source import mag_point_source

    def f(t):
        return mag_point_source(t[0] + 1j * t[1], nlenses=nl, **dict(zip(PAR[nl], t[2:])))

    def alone(t):
        v, r = jax.value_and_grad(f)(t)
        vf, one = jax.jvp(f, (t,), (jnp.ones_like(t),))
        return f(t), v, vf, r, jax.jacfwd(f)(t), one
    return jax.jit(lambda T: jax.lax.map(alone, T, batch_size=NB)), f


def run(ctx, nl, cfgs):
    items = []
    for p in cfgs:
        m, zl = O.system(nl, p)
        cau = O.caustic_points(m, zl, PH) if nl > 1 else zl
        for w in sources(nl, zl, ctx.thorough):
            d = np.abs(w - cau).min()
            if d < .01 * min(1., np.sqrt(p.get("q", 1.))) + (0 if nl > 1 else .02):
                continue
            ctx.count(states=1)
            r = ref_grad(nl, w, p, min(d, .5))
            if r is None or not np.isfinite(r[1]).all():
                ctx.count(unjudged=1)
                continue
            items.append((p, w, *r))
    T = np.array([[w.real, w.imag] + [p[k] for k in PAR[nl]] for p, w, *_ in items])
    F, _ = fns(nl)
    n = len(T)
    pad = -(-n // NB) * NB
    out = [np.asarray(o)[:n] for o in F(T[np.minimum(np.arange(pad), n - 1)])]
    plain, v_rev, v_fwd, rev, fwd, one = out
    lab = [f"{K.tag(nl, p)}:w={w:.5g}" for p, w, *_ in items]
    V = np.array([i[2] for i in items])
    G = np.array([i[3] for i in items])
    S = np.array([i[4] for i in items])
    tol = TOL[nl]
    ctx.close(f"n{nl}:primal-reverse", v_rev, plain, rtol=1e-12, labels=lab)
    ctx.close(f"n{nl}:primal-forward", v_fwd, plain, rtol=1e-12, labels=lab)
    ctx.close(f"n{nl}:value", plain / V - 1, 0 * V, atol=1e-5 if nl == 1 else 1e-4, labels=lab)
    for j, k in enumerate(("x", "y") + PAR[nl]):
        ctx.close(f"n{nl}:d/d{k}:reverse", (rev[:, j] - G[:, j]) / S[:, j], 0 * V, atol=tol, labels=lab)
        ctx.close(f"n{nl}:d/d{k}:forward", (fwd[:, j] - G[:, j]) / S[:, j], 0 * V, atol=tol, labels=lab)
        ctx.outcome(f"d/d{k}", n)
    ctx.close(f"n{nl}:forward=reverse", (fwd - rev) / (np.abs(fwd) + np.abs(rev) + S), 0 * fwd, atol=1e-5, labels=None)
    ctx.close(f"n{nl}:direction", (one - rev.sum(1)) / S.sum(1), 0 * V, atol=1e-6, labels=lab)
    ctx.count(evals=n, traces=1, compared=n * (2 * G.shape[1] + 3))
    ctx.spaces.append(dict(space=f"{nl} lenses: systems x sources x parameters", size=n * G.shape[1]))
    ctx.expect(n > 20, f"n{nl}:judged", n=n)
    ctx.sample(cfg=items[0][0], w=items[0][1], gradient=G[0])


def trajectory(ctx):
    """light curves over arrays: derivatives w.r.t. functions of the parameters (log s, log q, t0, u0, tE, alpha ...)."""
    import jax, jax.numpy as jnp
    from microjax.point_source import mag_point_source
    ts = np.linspace(-1.3, 1.7, 13)
    wt = np.cos(np.arange(13) * 1.3)

    def curve(nl, th):
        t0, u0, ltE, al = th[:4]
        tau = (ts - t0) / jnp.exp(ltE)
        w = (tau + 1j * u0) * jnp.exp(1j * al)
        kw = {}
        if nl >= 2:
            kw = dict(s=10 ** th[4], q=10 ** th[5])
        if nl == 3:
            kw.update(q3=10 ** th[6], r3=jnp.sqrt(th[7] ** 2 + th[8] ** 2), psi=jnp.arctan2(th[8], th[7]))
        return w, kw

    base = {1: [[.1, .3, .2, .7], [-.2, -1.1, -.1, 3.]],
            2: [[.1, .63, .2, .7, .05, -1.5], [-.2, -.81, -.1, 2.5, .2, .3], [.3, .4, 0., -.4, -.2, -3.]],
            3: [[.1, .93, .2, .7, .05, -.5, -.9, .5, .8], [-.2, -1.2, 0., 2.5, .1, .2, -.3, -.7, -.6]]}
    for nl in (1, 2, 3):
        def full(th, nl=nl):
            w, kw = curve(nl, th)
            return mag_point_source(w, nlenses=nl, **kw)
        fj = jax.jit(lambda th: (full(th), jax.jacfwd(full)(th), jax.jacrev(full)(th), jax.grad(lambda t: jnp.sum(wt * full(t) ** 2))(th)))
        for th in base[nl]:
            th = np.array(th)
            v, jf, jr, g = (np.asarray(x) for x in fj(th))
            want = np.zeros_like(jf)
            ok = np.ones(13, bool)
            sc = np.zeros_like(jf)
            num = {}
            for k in range(13):
                # chain rule: derivatives of (x, y, params) w.r.t. th by complex-safe differences of the map itself
                def maps(t):
                    w, kw = curve(nl, t)
                    w = np.asarray(w)[k]
                    return np.array([w.real, w.imag] + [float(kw[n]) for n in PAR[nl]])
                J = np.stack([(maps(th + 1e-5 * e) - maps(th - 1e-5 * e)) / 2e-5 for e in np.eye(len(th))], 1)
                x = maps(th)
                p = dict(zip(PAR[nl], x[2:]))
                m, zl = O.system(nl, p)
                d = np.abs(x[0] + 1j * x[1] - (O.caustic_points(m, zl, PH) if nl > 1 else zl)).min()
                r = ref_grad(nl, x[0] + 1j * x[1], p, min(d, .5)) if d > .02 else None
                if r is None or not np.isfinite(r[1]).all():
                    ok[k] = False
                    continue
                want[k] = r[1] @ J
                sc[k] = r[2] @ np.abs(J) + 1e-3
            key = f"curve:n{nl}:{th[:3]}"
            for nm, j in (("forward", jf), ("reverse", jr)):
                ctx.close(f"{key}:{nm}", ((j - want) / np.maximum(sc, 1e-9))[ok], 0 * want[ok], atol=1e-4)
            ctx.expect(np.isfinite(jf).all() and np.isfinite(jr).all() and np.isfinite(g).all(), key + ":finite")
            ctx.close(f"{key}:sum", (g - 2 * (wt * v) @ jf) / (np.abs(wt * v) @ np.abs(jf) + 1e-6), 0 * g, atol=1e-6)
            ctx.expect(ok.sum() >= 8, key + ":judged", n=int(ok.sum()))
            ctx.count(states=13, evals=13, traces=1, compared=int(ok.sum()) * len(th) * 2)
            ctx.outcome(f"curve n{nl}")


def arrays(ctx):
    """array calls: the derivative of element i w.r.t. position j vanishes unless i = j; shapes of any rank."""
    import jax, jax.numpy as jnp
    from microjax.point_source import mag_point_source
    W = np.array([.3 + .4j, -.8 + .9j, 1.3 - 1.1j, .9 + 1.2j, -1.5 - .2j, 2. + 0j]).reshape(2, 3)
    P = {1: {}, 2: dict(s=1.2, q=.3), 3: dict(s=1.2, q=.3, q3=.2, r3=.9, psi=2.)}
    for nl in (1, 2, 3):
        f = lambda x, y: mag_point_source(x + 1j * y, nlenses=nl, **P[nl])
        one = np.array([[jax.grad(f, k)(w.real, w.imag) for k in (0, 1)] for w in W.ravel()])
        for mode, J in (("forward", jax.jacfwd), ("reverse", jax.jacrev)):
            for k in (0, 1):
                j = np.asarray(J(f, k)(W.real, W.imag)).reshape(6, 6)
                ctx.close(f"arrays:n{nl}:{mode}:{'xy'[k]}", j, np.diag(one[:, k]), rtol=1e-8, atol=1e-9)
                ctx.count(states=6, evals=6, compared=36)
        ctx.outcome(f"arrays n{nl}")


def multipole(ctx, nl, cfgs):
    import jax, jax.numpy as jnp
    from microjax.point_source import _images_point_source
    from microjax.multipole import mag_hexadecapole

    def f(t, bright=False):
        rho, u1 = t[2], t[3]
        pr = dict(zip(PAR[nl], t[4:]))
        w = t[0] + 1j * t[1]
        kw = {}
        if nl >= 2:
            s, q, q3 = pr["s"], pr["q"], pr.get("q3", 0.)
            w = w - .5 * s * (1 - q) / (1 + q)
            kw = dict(a=.5 * s, e1=q / (1 + q + q3))
        if nl == 3:
            kw.update(e2=1 / (1 + q + q3), r3=pr["r3"], psi=pr["psi"])
        z, mk = _images_point_source(w, nlenses=nl, **kw)
        if bright:                       # differences: images too faint to be reported reliably come and go
            mu = mag_hexadecapole(z[None], mk[None], 0., nlenses=nl, **kw)[0]
            mk = mk * jnp.clip((jnp.log10(mu + 1e-300) + 7) / 2, 0, 1)
        return jnp.stack(mag_hexadecapole(z, mk, rho, u1=u1, nlenses=nl, **kw))

    def diff(t, h):
        k = len(h)
        E = jnp.concatenate([n * jnp.diag(h) for n in (-2, -1, 1, 2)])
        d = jax.vmap(lambda e: f(t + e, True))(E).reshape(4, k, -1)
        fd = ((d[0] - 8 * d[1] + 8 * d[2] - d[3]) / (12 * h[:, None])).T
        f2 = ((d[2] - d[1]) / (2 * h[:, None])).T
        return fd, jnp.abs(f2 - fd)

    def alone(t, h):
        v = f(t)
        vj, one = jax.jvp(f, (t,), (jnp.ones_like(t),))
        return v, vj, one, jax.jacfwd(f)(t), jax.jacrev(f)(t), [diff(t, h * c) for c in STEPS]
    F = jax.jit(lambda T, H: jax.lax.map(lambda a: alone(*a), (T, H), batch_size=NB))
    T, H, lab = [], [], []
    for p in cfgs:
        m, zl = O.system(nl, p)
        cau = O.caustic_points(m, zl, PH) if nl > 1 else zl
        for w in sources(nl, zl, False)[:: 1 if ctx.thorough else 3]:
            d = min(np.abs(w - cau).min(), .5)
            if d < .03:
                continue
            for fr in (0., .05, .3):
                for u1 in (0., .6):
                    T.append([w.real, w.imag, fr * d, u1] + [p[k] for k in PAR[nl]])
                    H.append([1e-3 * d, 1e-3 * d, 1e-3 * d, 1e-2] + [1e-3 * d * (1 if k == "psi" else p[k]) for k in PAR[nl]])
                    lab.append(f"{K.tag(nl, p)}:w={w:.5g},rho={fr * d:.3g},u1={u1}")
    n = len(T)
    idx = np.minimum(np.arange(-(-n // NB) * NB), n - 1)
    *o, D = F(np.array(T)[idx], np.array(H)[idx])
    v, vj, one, fwd, rev = (np.asarray(x)[:n] for x in o)
    D = [(np.asarray(a)[:n], np.asarray(b)[:n]) for a, b in D]
    ctx.close(f"hexa:n{nl}:primal", vj, v, rtol=1e-12, atol=1e-14)
    for j, k in enumerate(("x", "y", "rho", "u1") + PAR[nl]):
        unit = np.array([t[4 + PAR[nl].index(k)] if k in ('s', 'q', 'q3', 'r3') else 1. for t in T])[:, None]
        for nm, g in (("forward", fwd), ("reverse", rev)):
            b = np.inf
            for c, (fd, e) in zip(STEPS, D):            # the larger steps may straddle a kink of the error estimate or a dropped image
                # rounding of the primal is amplified by 1/step
                sc = np.abs(fd[..., j]) + 10 * e[..., j] + 1e-2
                tol = 1e-4 * sc + 1e-5 / unit + (1e-12 if nl < 3 else 1e-8) * np.abs(v[:, :1]) / np.array(H)[:, j:j + 1] / c
                x = (g[..., j] - fd[..., j]) / tol
                x = np.where(np.isfinite(fd[..., j]), x, 0)
                x = np.where(np.isfinite(g[..., j]), x, np.inf)
                b = np.where(np.abs(x) < np.abs(b), x, b)
            ctx.close(f"hexa:n{nl}:d/d{k}:{nm}", b[:, 0], 0 * b[:, 0], atol=1., labels=lab)
            ctx.close(f"hexa-estimate:n{nl}:d/d{k}:{nm}", b[:, 1], 0 * b[:, 1], atol=1., labels=lab)
        ctx.outcome(f"hexa d/d{k}", n)
    ctx.close(f"hexa:n{nl}:direction", (one - rev.sum(-1)) / (np.abs(rev).sum(-1) + 1e-3), 0 * one, atol=1e-5)
    ctx.count(states=n, evals=n, traces=1, compared=2 * fwd.size)
    ctx.spaces.append(dict(space=f"multipole {nl} lenses: systems x sources x radii x u1 x parameters", size=n * fwd.shape[-1]))


def tri(ctx):
    return K.tri_cfgs(ctx.thorough)[:: 5 if ctx.thorough else 31]


PARTS = dict(single=lambda c: run(c, 1, [{}]), binary=lambda c: run(c, 2, bins(c)), triple0=lambda c: run(c, 3, tri(c)[::2]), triple1=lambda c: run(c, 3, tri(c)[1::2]),
             curves=trajectory, arrays=arrays, hexa1=lambda c: multipole(c, 1, [{}]), hexa2=lambda c: multipole(c, 2, bins(c)[:: 1 if c.thorough else 2]),
             hexa3=lambda c: multipole(c, 3, tri(c)[:: 4 if c.thorough else 2]))
