"""Log-FFT transforms: every combination of implementation x sample count x order x bias x extension x padding x window."""
import itertools
import numpy as np
import scipy.special as sp
from mc.engine import internal, Skip

PROPERTY = "P18"
LEVEL = "exploration"
RULE = ("all option combinations (numpy/JAX, even/odd sample counts, order, bias nu, extrapolation lengths, padding, window width) for functions "
        "with closed-form transforms; the output grid and every interior value compared with the closed form and between the implementations")
ASSUMPTIONS = ["functions are non-zero with one sign at both ends where extrapolation is requested (it is linear in log f)",
               "interior = the middle 3/4 of the output grid; error measured against |F| + 1e-3 max|F|"]


def I(l, s, y):      # int x^(s-1) exp(-x) j_l(xy) dx
    return np.sqrt(np.pi) * y ** l * sp.gamma(s + l) / (2 ** (l + 1) * sp.gamma(l + 1.5)) * sp.hyp2f1((s + l) / 2, (s + l + 1) / 2, l + 1.5, -y * y)


def G(l, s, y):      # int x^(s-1) exp(-x^2) j_l(xy) dx
    return np.sqrt(np.pi) * y ** l * sp.gamma((s + l) / 2) / (2 ** (l + 2) * sp.gamma(l + 1.5)) * sp.hyp1f1((s + l) / 2, l + 1.5, -y * y / 4)


def d1(F, l, s, y):
    return l / y * F(l, s - 1, y) - F(l + 1, s, y)


def d2(F, l, s, y):
    return (l * (l - 1) / y ** 2 * F(l, s - 2, y) if l * (l - 1) else 0) - F(l, s, y) + 2 / y * F(l + 1, s - 1, y)


def sq(l, y):        # int x^2 exp(-x^2) j_l(xy)^2 dx
    z = y * y / 2
    return np.pi / (4 * y) * np.where(z > 1e6, 1 / np.sqrt(2 * np.pi * z) * (1 - (4 * (l + .5) ** 2 - 1) / 8 / z), sp.ive(l + .5, np.minimum(z, 1e6)))


METHODS = ("fftlog", "fftlog_dj", "fftlog_ddj", "fftlog_jsqr")


def make(F, l, s, y, nm):
    if nm == "fftlog":
        return F(l, s, y)
    if nm == "fftlog_dj":
        return d1(F, l, s, y)
    if nm == "fftlog_ddj":
        return d2(F, l, s, y)
    return sq(l, y) if F is G and s == 3. else None


def mellin(nm, l, z):
    """Mellin transforms of the kernels: int x^(z-1) {j_l, j_l', j_l'', j_l^2}(x) dx."""
    lg = lambda a: sp.loggamma(np.asarray(a, complex))
    bessel = lambda z: np.sqrt(np.pi) / 4 * np.exp(z * np.log(2) + lg((l + z) / 2) - lg((3 + l - z) / 2))
    if nm == "fftlog":
        return bessel(z)
    if nm == "fftlog_dj":
        return -(z - 1) * bessel(z - 1)              # integration by parts
    if nm == "fftlog_ddj":
        return (z - 1) * (z - 2) * bessel(z - 2)
    return np.pi / 4 * np.exp(lg(l + z / 2) + lg(1.5 - z / 2 - .5) - lg(1.5 - z / 2) - lg(l + 2 - z / 2)) / np.sqrt(np.pi)


def direct(x, f, nu, lo, hi, w, pad, ls):
    """the discrete transform by an explicit sum over power laws; says how far the closed form can be reached with these options."""
    d = np.log(x[1] / x[0])
    def ext(v, r, a, b):
        return np.hstack([v[0] * r[0] ** np.arange(-a, 0), v, v[-1] * r[1] ** np.arange(1, b + 1)])
    X = ext(x, [np.exp(d)] * 2, lo + pad, hi + pad)
    Y = np.hstack([np.zeros(pad), ext(f, [f[1] / f[0], f[-1] / f[-2] if f[-2] else 1.], lo, hi), np.zeros(pad)])
    n = len(X) - len(X) % 2
    X, Y = X[:n], Y[:n]
    m = np.arange(n // 2 + 1)
    eta = 2 * np.pi * m / (n * d)
    c = np.fft.rfft(Y * X ** -nu) / n
    cut = int(w * n // 2)
    t = np.clip((m[-1] - m) / max(cut - 1, 1), 0, 1)
    c = c * np.where(m > m[-1] - cut, t - np.sin(2 * np.pi * t) / 2 / np.pi, 1.)
    wt = np.where((m == 0) | (m == m[-1]), 1., 2.)
    out = {}
    for l, nm in itertools.product(ls, METHODS):
        y = (l + 1) / X[::-1]
        e0 = (X[0] * y[0]) ** (1j * eta)
        h = wt * np.conj(c) * e0 * np.conj(mellin(nm, l, nu + 1j * eta))
        h = np.conj(h)
        k = slice(max(hi + pad - len(X) % 2 - (lo + hi + 2 * pad + len(x)) % 2, 0), n - lo - pad)
        full = np.fft.irfft(np.conj(h) / wt, n) * n * y ** -nu
        out[l, nm] = full[k]
    return out


def mods():
    from microjax.fastlens import fftlog, fftlog_jax
    return ("numpy", fftlog), ("jax", fftlog_jax)


def grid_ok(ctx, key, y, Fy, x, l, bare):
    want = (l + 1) / x[::-1]
    if bare:                                   # nothing was added at the high end: the last sample of an odd total is dropped
        want = want[1:]
    ok = y.shape == want.shape and Fy.shape == y.shape and np.allclose(y, want, rtol=1e-9, atol=0)
    ctx.expect(ok, key + ":grid", got=[len(y), len(Fy)], want=len(want), first=y[:2])
    return ok


def err(Fy, r):
    n = len(r)
    e = np.abs(Fy - r) / (np.abs(r) + 1e-3 * np.abs(r).max())
    return float(np.max(e[n // 8:-(n // 8)])) if np.isfinite(Fy).all() else np.inf


def _family(ctx, fam, i, k):
    NS = (300, 301, 512) if not ctx.thorough else (256, 257, 301, 512, 513, 1501)
    pads = (0, 200, 201) if not ctx.thorough else (0, 1, 2, 200, 201, 512)
    exts = ((0, 0), (0, 150), (101, 0), (100, 150), (101, 150), (150, 101)) if fam == "exp" else ((0, 0), (100, 0), (101, 0))
    wins = (0., .004, .25, .7) if not ctx.thorough else (0., .003, .004, .01, .1, .25, .5, .7, 1.)
    nus = (1.1, .7, 1.5) if not ctx.thorough else (1.1, .55, .7, .9, 1.3, 1.5, 1.8)
    ls = (0, 1, 2, 4) if not ctx.thorough else (0, 1, 2, 3, 4, 6, 10)
    F = I if fam == "exp" else G
    ref = {}
    combos = list(itertools.product(NS, pads, exts, wins, nus))[i::k]
    sharp = 0
    for N, pad, (lo, hi), w, nu in combos:
        x = np.logspace(-4, 1.2, N)
        s = 3.
        f = x ** s * (np.exp(-x) if fam == "exp" else np.exp(-x * x))
        odd = (N + lo + hi + 2 * pad) % 2 == 1
        bare = odd and hi + pad == 0
        keep = {}
        own = direct(x, f, nu, lo, hi, w, pad, ls)
        for name, M in mods():
            o = M.fftlog(x, f, nu=nu, N_extrap_low=lo, N_extrap_high=hi, c_window_width=w, N_pad=pad)
            for l, nm in itertools.product(ls, METHODS):
                key = f"{name}:{fam}:N={N},pad={pad},ext={lo}+{hi},win={w},nu={nu},l={l}:{nm}"
                if nm == "fftlog_jsqr" and F is I:
                    continue
                y, Fy = (np.asarray(v) for v in getattr(o, nm)(l))
                ctx.count(states=1, evals=1, traces=1)
                if not grid_ok(ctx, key, y, Fy, x, l, bare):
                    continue
                rk = (N, l, nm, bare)
                if rk not in ref:
                    ref[rk] = make(F, l, s, y, nm)
                r = ref[rk]
                D = own[l, nm]
                far = err(D, r)
                ctx.expect(err(Fy, D) <= 1e-6, key + ":discrete", error=err(Fy, D))
                tol = max(1.5e-3, 1.5 * far)
                e = err(Fy, r)
                ctx.worst[f"{nm}"] = max(ctx.worst.get(nm, 0), e / tol)
                ctx.expect(e <= tol, key + ":value", error=e, tol=tol)
                sharp += far <= 1.5e-3
                ctx.count(compared=len(r))
                keep.setdefault((l, nm), []).append(Fy)
                ctx.outcome(nm)
        for (l, nm), v in keep.items():
            if len(v) == 2:
                ctx.expect(np.abs(v[0] - v[1]).max() <= 1e-9 * np.abs(v[0]).max(), f"{fam}:N={N},pad={pad},ext={lo}+{hi},win={w},nu={nu},l={l}:{nm}:numpy-vs-jax",
                           worst=float(np.abs(v[0] - v[1]).max() / np.abs(v[0]).max()))
    ctx.expect(sharp > 0, f"{fam}:nothing-judged-sharply")
    ctx.spaces.append(dict(sharp=sharp, space=f"{fam}: N x padding x extension x window x bias", size=len(combos)))
    ctx.sample(N=N, pad=pad, ext=[lo, hi], y=y[:3], F=Fy[:3])


def hankel(ctx):
    """limb-darkening-like functions with an edge, Gaussians and exponentials through the cylindrical transform."""
    sizes = (1024, 1025) if not ctx.thorough else (512, 513, 1024, 1025, 2048)
    for N, pad, n, w in itertools.product(sizes, (0, 128, 512), (0, 1, 2), (.25,)):
        x = np.logspace(-4, 2, N)
        for nu in (1.5, 1.1, .8):
            for mu in (None, .5, 1., 2.):
                if mu is None:
                    f = x ** (n + 2) * np.exp(-x * x)           # int x^(n+1) exp(-x^2) J_n(xy) = (y/2)^n exp(-y^2/4) / 2
                else:
                    f = np.where(x < 1, x ** (n + 2) * np.maximum(0, 1 - x * x) ** mu, 0.)
                res = []
                for name, M in mods():
                    h = M.hankel(x, f, nu=nu, N_pad=pad, c_window_width=w)
                    y, Fy = (np.asarray(v) for v in h.hankel(n))
                    key = f"{name}:hankel:N={N},pad={pad},n={n},nu={nu},mu={mu}"
                    ctx.count(states=1, evals=1, traces=1)
                    if not grid_ok(ctx, key, y, Fy, x, n - .5, N % 2 == 1 and pad == 0):
                        continue
                    if mu is None:
                        r = (y / 2) ** n * np.exp(-y * y / 4) / 2
                    else:
                        r = 2 ** mu * sp.gamma(mu + 1) * y ** (-mu - 1) * sp.jv(n + mu + 1, y)
                    k = (y > 1e-2) & (y < 30)
                    e = float(np.abs(Fy - r)[k].max() / np.abs(r[k]).max()) if np.isfinite(Fy).all() else np.inf
                    tol = 3e-4 if pad else 4e-3
                    if nu > 1.4 and pad < .3 * N:      # ringing of high log-frequencies next to the convergence limit dies out with padding only
                        tol = 4e-2
                    tol = max(tol, 1.5 * np.exp(-(nu + n - .5) * np.log(x[-1] / x[0]) * (N + 2 * pad) / N))
                    tol = tol if mu is None else max(tol, {.5: 4e-3, 1.: 1e-3, 2.: 3e-4}[mu] * max(1, 1024 / N) ** 1.5)   # sampling of the edge
                    ctx.worst[f"hankel mu={mu}"] = max(ctx.worst.get(f"hankel mu={mu}", 0), e / tol)
                    ctx.expect(e <= tol, key, error=e, tol=tol)
                    res.append(Fy)
                    ctx.count(compared=int(k.sum()))
                    ctx.outcome(f"n={n}")
                if len(res) == 2:
                    ctx.expect(np.abs(res[0] - res[1]).max() <= 1e-9 * np.abs(res[0]).max(), f"hankel:N={N},pad={pad},n={n},nu={nu},mu={mu}:numpy-vs-jax")


def kernels(ctx):
    """the Gamma-function ratios behind the transforms, on both sides of their asymptotic switch-over."""
    from scipy.special import loggamma
    for name, mod in (("numpy", "microjax.fastlens.fftlog"), ("jax", "microjax.fastlens.fftlog_jax")):
        g, h = internal(mod, "g_m_vals"), internal(mod, "g_m_ratio")
        for mu in (-.5 + .5, .5, 1., 1.5, 2.5, 5.5, 20.5):
            for re in (-2.9, -1.4, -.4, .05, .6, 1.4):
                if mu + 1 + re == 0:
                    continue
                q = re + 1j * np.concatenate([[0, 1e-3, .5, 3., 30.], np.linspace(150, 260, 221), [400., 1000.]])
                with np.errstate(all="ignore"):
                    r = np.exp(loggamma((mu + 1 + q) / 2) - loggamma((mu + 1 - q) / 2))
                got = np.asarray(g(mu, q))
                ctx.close(f"{name}:ratio:mu={mu},re={re}", got / r - 1, 0, atol=1e-8, labels=[f"{v:.6g}" for v in q])
                ctx.count(states=len(q), evals=len(q))
        for re in (-.4, .05, .3, .7, 1.):
            a = re + 1j * np.concatenate([[0, 1e-3, .5, 3., 30.], np.linspace(80, 130, 201), [400., 1000.]])
            r = np.exp(loggamma(a) - loggamma(a + .5))
            ctx.close(f"{name}:half-ratio:re={re}", np.asarray(h(a)) / r - 1, 0, atol=1e-8, labels=[f"{v:.6g}" for v in a])
            ctx.count(states=len(a), evals=len(a))
        ctx.outcome(name)


K = 3
PARTS = dict(hankel=hankel, kernels=kernels, **{f"{f}{i}": (lambda ctx, f=f, i=i: _family(ctx, f, i, K)) for f in ("exp", "gauss") for i in range(K)})
