"""Derivatives of trajectories, transforms, FFT magnifications, second derivatives and whole likelihoods."""
import itertools
import numpy as np
from mc import oracle as O
from checks import common as K, p15, p19, p20, p21

PROPERTY = "P24"
LEVEL = "exploration"
NEEDS_JAX = True
RULE = ("all (sky, epoch, orbit, parallax vector), (class, radius, impact parameter, profile), (transform, option set, direction) and (model, parameter vector) elements of "
        "fixed lattices in forward and reverse mode; first derivatives compared with differences of independent references (Kepler orbit, disk quadrature, certified images, dense "
        "Gaussian), second derivatives with differences of the first derivatives")
ASSUMPTIONS = ["FFT magnifications interpolate linearly in a table: derivatives are judged at 8% (four fifths of them at 2%) of the sum of the two first derivatives, further than 5% from the limb",
               "declinations up to 89.9 degrees (the direction of north has no derivative at a pole)",
               "second derivatives: sources further than 0.05 from the caustics"]
PNAME = ("t", "piEN", "piEE", "tref", "tperi", "tvernal", "RA", "Dec", "obliquity", "ecc", "period")


def d4(f, x, h):
    return (f(x - 2 * h) - 8 * f(x - h) + 8 * f(x + h) - f(x + 2 * h)) / (12 * h)


def parallax(ctx):
    import jax, jax.numpy as jnp
    from microjax.trajectory.parallax import set_parallax, compute_parallax
    P, V = p20.ref_epochs()

    def f(t):
        pp = set_parallax(t[3], t[4], t[5], t[6], t[7], rotaxis_deg=t[8], ecc=t[9], period=t[10])
        a, b = compute_parallax(t[0], t[1], t[2], pp)
        return jnp.stack([a[0], b[0]])

    def ref(x):
        return np.array([v[0] for v in p20.expected(x[0], x[3], x[1], x[2], .1, tperi=x[4], tvern=x[5], P=x[10], e=x[9], obl=x[8], ra=x[6], dec=x[7])])
    sky = p20.SKY[::6] if not ctx.thorough else p20.SKY
    X = []
    for (ra, dec), tref in itertools.product([s for s in sky if abs(s[1]) < 89.95], (2500.3, 7500., 7939., 9000.)):
        for dt, (pn, pe), e in itertools.product((-400., -3., 0., 40., 182.6), ((.1, -.3), (0., 0.)), (0., .0167, .3)):
            if pn == 0 and e != .0167:
                continue
            X.append([tref + dt, pn, pe, tref, P[np.abs(P - tref).argmin()], V[np.abs(V - tref).argmin()], ra, dec, 23.44, e, 365.25636])
    X = np.array(X)
    h = np.array([.05, 1e-2, 1e-2, .05, .05, .05, .05, .02, .05, 2e-4, .02])
    fd = np.empty((len(X), 2, 11))
    for i, x in enumerate(X):
        for j in range(11):
            e = np.eye(11)[j]
            if j == 9 and x[9] == 0:                     # one-sided at the circular orbit
                g = [ref(x + k * h[j] * e) for k in range(5)]
                fd[i, :, j] = (-25 * g[0] + 48 * g[1] - 36 * g[2] + 16 * g[3] - 3 * g[4]) / (12 * h[j])
            else:
                fd[i, :, j] = (ref(x - 2 * h[j] * e) - 8 * ref(x - h[j] * e) + 8 * ref(x + h[j] * e) - ref(x + 2 * h[j] * e)) / (12 * h[j])
    lab = [f"ra={x[6]:g},dec={x[7]:g},tref={x[3]:g},dt={x[0] - x[3]:g},piE={x[1]:g}/{x[2]:g},e={x[9]:g}" for x in X]
    z = np.zeros((3, 0))
    for nm, J in (("forward", jax.jacfwd), ("reverse", jax.jacrev)):
        g = np.asarray(jax.jit(lambda T: jax.lax.map(J(f), T, batch_size=256))(jnp.array(X)))
        for j, k in enumerate(PNAME):
            for c, nn in enumerate(("dtn", "dum")):
                ctx.close(f"parallax:{nn}:d/d{k}:{nm}", g[:, c, j], fd[:, c, j], rtol=2e-6, atol=1e-7 / (1 if k != "ecc" else .01), labels=lab)
    # epochs found automatically: the same derivatives, none with respect to the epochs
    Y = X[np.abs(X[:, 1]) > 0][::5].copy()
    full = np.asarray(jax.lax.map(jax.jacrev(f), jnp.array(Y)))
    Y[:, 4:6] = 0
    auto = np.asarray(jax.lax.map(jax.jacrev(f), jnp.array(Y)))
    keep = [0, 1, 2, 3, 6, 7, 8, 9, 10]
    ctx.close("parallax:auto", auto[..., keep], full[..., keep], rtol=1e-9, atol=1e-11)
    ctx.close("parallax:auto-epochs", auto[..., 4:6], 0, atol=1e-12)
    ctx.count(states=len(X) + len(Y), evals=2 * len(X) + 2 * len(Y), traces=2)
    ctx.spaces.append(dict(space="parallax: sky x reference time x time x vector x eccentricity x 11 parameters", size=len(X) * 11))
    ctx.sample(case=lab[0], gradient=fd[0, 0])
    ctx.outcome("parallax derivatives", len(X))


UX = (0., .01, .3, .6, .8, .93, 1.07, 1.3, 1.7, 2.5, 5., 9.5, 13., 30.)


def _fft(ctx, S, makers, lo=0., da=None):
    import jax, jax.numpy as jnp
    objs = [(nm, mk()) for nm, mk in makers]
    errs = {nm: [] for nm, _ in objs}
    for rho in [r for r in ((3e-5, 9e-5, 1.2e-4, 1e-3, .01, .1, .5, 1.5) if not ctx.thorough else p19.rhos(True)) if r >= lo]:
        u = np.array([x * rho for x in UX + ((.1, .45, .7, .88, 1.12, 1.5, 3.5, 7., 10.5, 50.) if ctx.thorough else ()) if x * rho < 60])
        hu = 1e-3 * np.maximum(u, .01 * rho)
        ex = lambda v, r: p19.exact(abs(v), r, S)
        gu = np.array([0. if v == 0 else d4(lambda y: ex(y, rho), v, h) for v, h in zip(u, hu)])
        gr = np.array([d4(lambda y: ex(v, y), rho, 1e-3 * rho) for v in u])
        A = np.array([ex(v, rho) for v in u])
        sc = (np.abs(gu) + np.abs(gr)) * rho + 3e-3 * np.minimum(A - 1, 1) + 1e-6
        lab = [f"u={v:.5g}" for v in u]
        for nm, o in objs:
            f = lambda v, r: o(v, r)[0]
            for mode, J in (("forward", lambda a: jax.jacfwd(f, a)), ("reverse", lambda a: jax.grad(f, a))):
                g = [np.array(x) for x in jax.vmap(J((0, 1)), (0, None))(jnp.array(u), rho)]
                for k, (a, b) in enumerate(((g[0], gu), (g[1], gr))):
                    e = (a - b) * rho / sc
                    ctx.close(f"{nm}:d/d{('u', 'rho')[k]}:{mode}:rho={rho:g}", e, 0 * e, atol=.08, labels=lab)
                    errs[nm].append(e)
            m = np.array([np.asarray(jax.grad(f)(jnp.array(-v), rho)) for v in u[1:4]])
            ctx.close(f"{nm}:odd:rho={rho:g}", m, -np.array([np.asarray(jax.grad(f)(jnp.array(v), rho)) for v in u[1:4]]), rtol=1e-9)
            ctx.count(states=len(u), evals=len(u), traces=1)
            ctx.outcome(nm, len(u))
    for nm, e in errs.items():
        q = float(np.quantile(np.abs(np.concatenate(e)), .8))
        ctx.expect(q <= .02, f"{nm}:most", error=q)
        ctx.worst[nm + ":most"] = q / .02
    ctx.spaces.append(dict(space=f"{[n for n, _ in objs]}: radii x impact parameters", size=len(u) * 8))
    ctx.sample(rho=rho, u=u[:3], d_du=gu[:3], d_drho=gr[:3])


def fft_disk(ctx):
    from microjax.fastlens import mag_fft_jax as J
    _fft(ctx, p19.DISK, [("jax-disk", lambda: J.magnification_disk().A)])
    _fft(ctx, p19.DISK, [("jax-mag_disk", lambda: J.mag_disk().A)], 1.05e-4)


def fft_limb(ctx):
    from microjax.fastlens import mag_fft_jax as J
    import jax, jax.numpy as jnp
    _fft(ctx, p19.N1, [("jax-limb1", lambda: J.magnification_limb1().A)])
    _fft(ctx, p19.N2, [("jax-limb2", lambda: J.magnification_limb2().A)])
    _fft(ctx, p19.LIN(.5), [("mag_limb(.5)", lambda: (lambda o: lambda u, r: o.A(u, r, .5))(J.mag_limb()))], 1.05e-4)
    _fft(ctx, p19.LIN(.5), [("mag_limb1(.5)", lambda: J.mag_limb1(a1=.5).A)])
    o = J.mag_limb()
    for a1 in (0., .3, .8):
        for rho in (1e-3, .1, 1.):
            u = rho * np.array(UX)
            want = np.array([d4(lambda a: p19.exact(v, rho, p19.LIN(a)), a1, 1e-3) for v in u])
            # differences of nearly equal profiles: relative to the magnification
            A = np.array([p19.exact(v, rho, p19.LIN(a1)) for v in u])
            for mode, g in (("forward", jax.jacfwd), ("reverse", jax.jacrev)):
                got = np.asarray(g(lambda a: o.A(jnp.array(u), rho, a))(a1))
                ctx.close(f"mag_limb:d/da1:{mode}:rho={rho},a1={a1}", (got - want) / A, 0, atol=4e-3, labels=[f"u={v:.5g}" for v in u])
            ctx.count(states=len(u), evals=2, traces=1)


def transforms(ctx):
    """the transforms are linear (without extrapolation): the derivative along g is the transform of g, also in reverse mode."""
    import jax, jax.numpy as jnp
    from microjax.fastlens import fftlog_jax as F
    n = 0
    for N, nu, pad, win, ext in itertools.product((64, 65, 128), (.9, 1.1, 1.5), (0, 33, 200), (.1, .25), ((0, 0), (20, 31), (64, 0))):
        x = np.logspace(-3, 2, N)
        f0, g0 = np.exp(-x) * x, (1 + np.sin(np.log(x))) * np.exp(-x * .5) * x
        wt = np.cos(np.arange(4 * (N + pad + sum(ext))))
        for nm in ("fftlog", "fftlog_dj", "fftlog_ddj", "fftlog_jsqr", "hankel"):
            if nm == "hankel":
                def T(f):
                    return F.hankel(x, f, nu, N_extrap_low=ext[0], N_extrap_high=ext[1], c_window_width=win, N_pad=pad).hankel(0)[1]
            else:
                if nu == .9 and nm == "fftlog_jsqr":
                    continue
                def T(f):
                    return getattr(F.fftlog(x, f, nu, N_extrap_low=ext[0], N_extrap_high=ext[1], c_window_width=win, N_pad=pad), nm)(1)[1]
            if not ctx.thorough and (n % 3):
                n += 1
                continue
            n += 1
            f, g = jnp.array(f0), jnp.array(g0)
            y, dy = jax.jvp(T, (f,), (g,))
            y, dy = np.asarray(y), np.asarray(dy)
            lab = f"{nm}:N={N},nu={nu},pad={pad},window={win},extension={ext}"
            if ext == (0, 0):
                want, tol = np.asarray(T(g)), 1e-9
            else:
                h = 1e-4
                want = np.asarray((T(f - 2 * h * g) - 8 * T(f - h * g) + 8 * T(f + h * g) - T(f + 2 * h * g)) / (12 * h))
                tol = 1e-6
            s = np.abs(want) + 1e-6 * np.abs(want).max()
            ctx.close(lab + ":forward", (dy - want) / s, 0, atol=tol if ext == (0, 0) else 1e-4)
            w = jnp.array(wt[:len(y)] / (np.abs(y) + 1e-3 * np.abs(y).max()))
            r = np.asarray(jax.grad(lambda f: jnp.sum(w * T(f)))(f)) @ g0
            q = float(np.asarray(w) @ dy)
            ctx.close(lab + ":reverse", r, q, rtol=1e-8, atol=1e-8 * float(np.abs(np.asarray(w) * dy).sum()))
            ctx.count(states=1, evals=2, traces=1)
            ctx.outcome(nm)
    ctx.spaces.append(dict(space="transform x sample count x bias x padding x window x extension", size=n if ctx.thorough else -(-n // 3)))


# ---------------------------------------------------------------- whole models
T = np.array([7410.3, 7440.1, 7444.4, 7447.2, 7449.5, 7451.6, 7455.2, 7463.3, 7520.4])
NAMES = {1: (), 2: ("ls", "lq"), 3: ("ls", "lq", "lq3", "r3", "psi"), "fft": ("lrho",)}


def models(ctx, kinds):
    import jax, jax.numpy as jnp
    from microjax.trajectory.parallax import set_parallax, compute_parallax
    from microjax.point_source import mag_point_source
    from microjax.fastlens import mag_fft_jax as J
    from microjax.likelihood import nll_ulens
    P, V = p20.ref_epochs()
    epo = dict(tperi=float(P[np.abs(P - 7450).argmin()]), tvern=float(V[np.abs(V - 7450).argmin()]))
    pp = set_parallax(7450., epo["tperi"], epo["tvern"], 268., -29.)
    disk = J.magnification_disk()
    s2 = .02 + .01 * np.cos(np.arange(9.)) ** 2

    def traj(th, xp, dtn, dum):
        t0, ltE, u0, pn, pe, al = th[:6]
        tau = (T - t0) / xp.exp(ltE) + dtn
        u = u0 + dum
        return (tau + 1j * u) * xp.exp(1j * al)

    def params(kind, th, xp):
        v = dict(zip(NAMES[kind], th[6:]))
        out = {}
        if kind in (2, 3):
            out = dict(s=xp.exp(v["ls"]), q=xp.exp(v["lq"]))
        if kind == 3:
            out.update(q3=xp.exp(v["lq3"]), r3=v["r3"], psi=v["psi"])
        return out

    def code(kind, th):
        dtn, dum = compute_parallax(jnp.array(T), th[3], th[4], pp)
        w = traj(th, jnp, dtn, dum)
        if kind == "fft":
            return disk.A(jnp.abs(w), jnp.exp(th[6]))
        return mag_point_source(w, nlenses=kind, **params(kind, th, jnp))

    def truth(kind, th):
        dtn, dum = p20.expected(T, 7450., th[3], th[4], .1, P=365.25636, e=.0167, obl=23.44, ra=268., dec=-29., **epo)
        w = traj(th, np, dtn, dum)
        if kind == "fft":
            return np.array([p19.exact(abs(v), np.exp(th[6]), p19.DISK) for v in w])
        m, zl = O.system(kind, params(kind, th, np))
        out = []
        for v in w:
            z, ok = O.images(np.array([v]), m, zl)
            out.append(np.nansum(1 / np.abs(O.detj(z[0], m, zl))))
        return np.array(out)

    def nll_ref(fl, A):
        return p21.ref(fl, np.stack([A, np.ones(9)], -1), np.diag(s2), np.zeros(2), np.diag([10., 4.]))

    for kind in kinds:
        def nll(th, fl):
            return nll_ulens(fl, jnp.stack([code(kind, th), jnp.ones(9)], -1), jnp.array(s2), 10., 4.)
        gr = jax.jit(jax.grad(nll))
        hess = jax.jit(jax.hessian(nll))
        fn = jax.jit(lambda th, fl: (nll(th, fl), jax.grad(nll)(th, fl), jax.jacfwd(nll)(th, fl), jax.jacfwd(lambda t: code(kind, t))(th)))
        tail = {1: [()], 2: [(.1, -1.2), (-.2, -5.)], 3: [(.1, -1., -1.5, .9, 2.), (.2, -2., -.5, 1.2, -.7)], "fft": [(np.log(.05),), (np.log(.6),)]}[kind]
        for k, (u0, pe, al, tl) in enumerate(itertools.product((.23, -.41), ((.1, -.2), (-.3, .15)), (.3, 2.9) if kind != 1 else (.3,), tail)):
            th = np.array([7449.1, np.log(23.), u0, *pe, al, *tl])
            fl = 3. * truth(kind, th) * (1 + .1 * np.sin(np.arange(9.))) + .3

            n = len(th)
            got = [np.asarray(x) for x in fn(jnp.array(th), jnp.array(fl))]
            h = np.full(n, 2e-4); h[0] = 5e-3
            dA = np.array([(truth(kind, th - 2 * hh * e) - 8 * truth(kind, th - hh * e) + 8 * truth(kind, th + hh * e) - truth(kind, th + 2 * hh * e)) / (12 * hh) for e, hh in zip(np.eye(n), h)]).T
            g = np.array([(nll_ref(fl, truth(kind, th - 2 * hh * e)) - 8 * nll_ref(fl, truth(kind, th - hh * e)) + 8 * nll_ref(fl, truth(kind, th + hh * e))
                           - nll_ref(fl, truth(kind, th + 2 * hh * e))) / (12 * hh) for e, hh in zip(np.eye(n), h)])
            key = f"model:{kind}:u0={u0},piE={pe},alpha={al},{tl}"
            tol = 1e-4 if kind != "fft" else .15
            ctx.close(key + ":nll", got[0], nll_ref(fl, truth(kind, th)), rtol=1e-6 if kind != "fft" else 2e-2, atol=1e-4)
            sc = np.abs(g) + .02 * np.abs(dA).sum(0) + 1e-3
            if kind != "fft":
                ctx.close(key + ":reverse", (got[1] - g) / sc, 0, atol=tol)
                ctx.close(key + ":forward", (got[2] - g) / sc, 0, atol=tol)
            ctx.close(key + ":modes", got[1], got[2], rtol=1e-7, atol=1e-7 * float(np.abs(g).max()))
            ctx.close(key + ":light-curve", (got[3] - dA) / (np.abs(dA) + .02 * np.abs(dA).max(0) + 1e-3), 0, atol=tol)
            if kind != "fft":
                hs = np.asarray(hess(th, fl))
                H = np.array([(np.asarray(gr(th - 2 * hh * e, fl)) - 8 * np.asarray(gr(th - hh * e, fl)) + 8 * np.asarray(gr(th + hh * e, fl)) - np.asarray(gr(th + 2 * hh * e, fl))) / (12 * hh) for e, hh in zip(np.eye(n), h)])
                ctx.close(key + ":hessian", (hs - H) / np.sqrt(np.abs(np.outer(np.diag(H), np.diag(H))) + 1e-6 * np.abs(H).max()), 0, atol=1e-3)
                ctx.close(key + ":hessian-symmetric", hs, hs.T, rtol=1e-6, atol=1e-7 * float(np.abs(H).max()))
            ctx.count(states=1, evals=3 + 8 * n, traces=1)
            ctx.outcome(f"model {kind}")
        ctx.spaces.append(dict(space=f"model {kind}: parameter vectors x parameters", size=(k + 1) * n))
        ctx.sample(model=str(kind), theta=th, gradient=g)


def hessian(ctx):
    """second derivatives of the point-source magnification."""
    import jax, jax.numpy as jnp
    for nl in (1, 2, 3):
        _, f = p15.fns(nl)
        X = []
        for p in ([{}] if nl == 1 else p15.bins(ctx)[::1 if ctx.thorough else 4] if nl == 2 else p15.tri(ctx)[::2]):
            m, zl = O.system(nl, p)
            cau = O.caustic_points(m, zl, p15.PH) if nl > 1 else zl
            for w in p15.sources(nl, zl, False)[::1 if ctx.thorough else 2]:
                d = np.abs(w - cau).min()
                z, ok = O.images(np.array([w]), m, zl)
                mu = 1 / np.abs(O.detj(z[0], m, zl))
                if d < .05 or (nl > 1 and p["q"] < 1e-3) or not ok[0] or np.nanmin(mu) < 1e-4:
                    continue
                X.append([w.real, w.imag] + [p[k] for k in p15.PAR[nl]])
        X = np.array(X)
        h = np.array([1e-4] * 2 + [1e-4] * len(p15.PAR[nl]))
        H0 = X * 0 + h
        for j, k in enumerate(p15.PAR[nl]):
            if k != "psi":
                H0[:, 2 + j] *= X[:, 2 + j]

        def alone(x, h):
            g = jax.grad(f)
            E = jnp.diag(h)
            G = jax.vmap(g)(jnp.concatenate([x + n * E for n in (-2, -1, 1, 2)])).reshape(4, len(h), -1)
            fd = (G[0] - 8 * G[1] + 8 * G[2] - G[3]) / (12 * h[:, None])
            return jax.jacfwd(g)(x), jax.jacrev(g)(x), fd, jnp.abs((G[2] - G[1]) / (2 * h[:, None]) - fd)
        A, B, F, e = (np.asarray(v) for v in jax.jit(lambda X, H: jax.lax.map(lambda a: alone(*a), (X, H), batch_size=32))(jnp.array(X), jnp.array(H0)))
        u = np.stack([np.where(np.isin(np.arange(X.shape[1]), [2 + j for j, k in enumerate(p15.PAR[nl]) if k != "psi"]), X[i], 1.) for i in range(len(X))])
        S = u[:, :, None] * u[:, None, :]
        sc = np.abs(F * S).max((1, 2), keepdims=True) * .05 + np.abs(F * S) + 20 * e * S + 1e-3
        lab = [f"{K.tag(nl, dict(zip(p15.PAR[nl], x[2:])))}:w={x[0] + 1j * x[1]:.4g}" for x in X]
        for nm, v in (("forward-reverse", A), ("reverse-reverse", B)):
            ctx.close(f"hessian:n{nl}:{nm}", (np.abs(v - F) * S / sc).max((1, 2)), np.zeros(len(X)), atol=1e-3 if nl < 3 else 5e-3, labels=lab)
        ctx.count(states=len(X), evals=len(X), traces=1)
        ctx.outcome(f"hessian {nl} lenses", len(X))
        ctx.spaces.append(dict(space=f"{nl} lenses: systems x sources x pairs of parameters", size=F.size))


PARTS = dict(parallax=parallax, fft_disk=fft_disk, fft_limb=fft_limb, transforms=transforms, model12=lambda c: models(c, (1, 2)), model3=lambda c: models(c, (3, "fft")), hessian=hessian)
