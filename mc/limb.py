"""Derivatives of finite-source magnifications from integrals along the source limb.

With F(w0, rho) = area of the images of the disk / (pi rho^2), a displacement of the
source-plane position of image i by v_i moves the boundary of the image area by

    dF = 1/(pi rho^2) * integral over the limb of sum_i mu_i * (v_i . n) rho dtheta

with v = the displacement of the source, or minus the change of the lens mapping at the fixed image.
The integrand has inverse-square-root singularities where the limb crosses a caustic; the limb is cut there
(bisection on the number of images) and every piece is integrated with cosine-spaced nodes.
"""
import numpy as np
from mc import oracle as O

PAR = {1: (), 2: ("s", "q"), 3: ("s", "q", "q3", "r3", "psi")}


def cuts(w0, rho, m, zl, n=360, phase=.123):
    """angles at which the number of images along the limb changes; None if the reference cannot tell."""
    if len(m) == 1:
        return np.array([])
    t = phase + np.arange(n + 1) * 2 * np.pi / n

    def cnt(t):
        ims, ok = O.images(w0 + rho * np.exp(1j * np.atleast_1d(t)), m, zl)
        return np.array([len(i) if o else -1 for i, o in zip(ims, ok)])
    c = cnt(t)
    if (c < 0).any():
        return None
    k = np.nonzero(c[1:] != c[:-1])[0]
    lo, hi, cl, ch = t[k].copy(), t[k + 1].copy(), c[k], c[k + 1]
    if (np.abs(cl - ch) != 2).any():
        return None
    for _ in range(36):
        mid = .5 * (lo + hi)
        cm = cnt(mid) if len(mid) else mid
        up = cm == cl
        lo, hi = np.where(up, mid, lo), np.where(up, hi, mid)
    return .5 * (lo + hi)


def nodes(w0, rho, m, zl, n=96):
    c = cuts(w0, rho, m, zl)
    if c is None:
        return None
    if len(c) == 0:
        t = (np.arange(4 * n) + .5) * 2 * np.pi / (4 * n)
        return t, np.full(4 * n, 2 * np.pi / (4 * n)), 0
    T, Wt = [], []
    for a, b in zip(c, np.append(c[1:], c[0] + 2 * np.pi)):
        u = (np.arange(n) + .5) * np.pi / n
        T.append(.5 * (a + b) - .5 * (b - a) * np.cos(u))
        Wt.append(.5 * (b - a) * np.sin(u) * np.pi / n)
    return np.concatenate(T), np.concatenate(Wt), len(c)


def uniform(nl, w0, rho, p, F, n=96):
    """([gradient w.r.t. x, y, rho, lens parameters; the same integrals of absolute values], number of limb-caustic crossings) or None.
    F: the magnification itself."""
    m, zl = O.system(nl, p)
    nd = nodes(w0, rho, m, zl, n)
    if nd is None:
        return None
    t, wt, nc = nd
    e = np.exp(1j * t)
    ims, ok = O.images(w0 + rho * e, m, zl)
    g = np.zeros((2, 3 + len(PAR[nl])))
    for z, o, n_, k in zip(ims, ok, e, wt):
        if not o:
            if k > 1e-5:
                return None
            continue
        mu = 1 / np.abs(O.detj(z, m, zl))
        v = [n_.real * mu, n_.imag * mu, mu]
        for nm in PAR[nl]:
            h = 1e-5 * (p[nm] if nm != "psi" else 1.)
            d = (O.lens_eq(z, *O.system(nl, dict(p, **{nm: p[nm] + h}))) - O.lens_eq(z, *O.system(nl, dict(p, **{nm: p[nm] - h})))) / (2 * h)
            v.append(-(mu * (np.conj(n_) * d).real))
        g += k * np.array([[x.sum() for x in v], [np.abs(x).sum() for x in v]])
    g /= np.pi * rho
    g[0, 2] -= 2 * F / rho
    return g, nc


def _raw(nl, w0, r, p, n=96):
    """limb integrals of mu (v . n) r dtheta for v = x, y, outward, and minus the change of the mapping with every lens parameter."""
    g = uniform(nl, w0, r, p, 0., n)
    return None if g is None else (g[0] * np.pi * r * r, g[1])


def limb_dark(nl, w0, rho, p, F, u1, nt=24, n=64):
    """the same for a linearly limb-darkened disk (a superposition of uniform disks); F its magnification."""
    a = _raw(nl, w0, rho, p, n)
    if a is None:
        return None
    tot = (1 - u1) * a[0]
    x, wx = np.polynomial.legendre.leggauss(nt)
    phi = (x + 1) * np.pi / 4
    for f, k in zip(phi, wx * np.pi / 4):
        t = np.sin(f)
        for e in (0, 1e-3, -1e-3, 4e-3):
            b = _raw(nl, w0, rho * t * (1 - e), p, n)
            if b is not None:
                break
        else:
            return None
        b = b[0].copy()
        b[:, 2] *= t
        tot = tot + k * u1 * t * b
    g = tot / (np.pi * rho ** 2 * (1 - u1 / 3))
    g[0, 2] -= 2 * F / rho
    return g, a[1]
