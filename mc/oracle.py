"""Independent reference model of the N-point-mass lens, written in plain numpy.

Nothing here imports microjax.  The lens polynomial is assembled generically
for any number of lenses (the repository hard-codes expanded coefficients), the
roots come from LAPACK companion eigenvalues (the repository uses an
Ehrlich-Aberth iteration) and every image is polished by Newton on the lens
equation itself.  Completeness of an image set is *certified* with the parity
theorem  n(+) - n(-) = 1 - N ; a source for which the reference cannot certify
its own answer is reported as not judged.
"""
import numpy as np


# --------------------------------------------------------------------- geometry
def lens2(s, q):
    """(masses, positions) of a binary in the mid-point frame; companion at +s/2."""
    return np.array([q / (1 + q), 1 / (1 + q)]), np.array([0.5 * s, -0.5 * s], complex)


def lens3(s, q, q3, r3, psi):
    M = 1 + q + q3
    return (np.array([q / M, 1 / M, q3 / M]),
            np.array([0.5 * s, -0.5 * s, r3 * np.exp(1j * psi)], complex))


def lens1():
    return np.array([1.0]), np.array([0.0 + 0j])


def shift_cm(s, q):
    """CM frame (of lenses 1 and 2) = mid-point frame + shift."""
    return 0.5 * s * (1 - q) / (1 + q)


def system(nl, p):
    """(masses, positions in the public centre-of-mass frame)."""
    if nl == 1:
        return lens1()
    if nl == 2:
        m, z = lens2(p["s"], p["q"])
    else:
        m, z = lens3(p["s"], p["q"], p["q3"], p["r3"], p["psi"])
    return m, z + shift_cm(p["s"], p["q"])


def lens_eq(z, m, zl):
    z = np.asarray(z)
    w = z.astype(complex).copy()
    for mk, zk in zip(m, zl):
        w = w - mk / np.conj(z - zk)
    return w


def dfbar(z, m, zl):
    """kappa(z) = sum m/(z-zk)^2 ; det J = 1-|kappa|^2 ; dw/dzbar = conj(kappa)."""
    k = 0
    for mk, zk in zip(m, zl):
        k = k + mk / (z - zk) ** 2
    return k


def detj(z, m, zl):
    return 1 - np.abs(dfbar(z, m, zl)) ** 2


# ------------------------------------------------------------------- polynomial
def _pm(a, b):
    """batched polynomial product, ascending order on the last axis."""
    out = np.zeros(np.broadcast_shapes(a.shape[:-1], b.shape[:-1]) + (a.shape[-1] + b.shape[-1] - 1,), complex)
    for i in range(a.shape[-1]):
        out[..., i:i + b.shape[-1]] += a[..., i:i + 1] * b
    return out


def lens_poly(w, m, zl):
    """coefficients (ascending) of the degree N^2+1 lens polynomial, batched in w."""
    w = np.asarray(w, complex).reshape(-1)
    N = len(m)
    one = np.ones(1, complex)
    P = one
    for zk in zl:
        P = _pm(P, np.array([-zk, 1]))
    S = np.zeros(N, complex)
    for k in range(N):
        t = one
        for i in range(N):
            if i != k:
                t = _pm(t, np.array([-zl[i], 1]))
        S = S + m[k] * t
    Spad = np.concatenate([S, [0]])
    D = [(np.conj(w) - np.conj(zj))[:, None] * P[None, :] + Spad[None, :] for zj in zl]
    prod = np.ones((w.size, 1), complex)
    for d in D:
        prod = _pm(prod, d)
    lhs = _pm(np.stack([-w, np.ones_like(w)], -1), prod)
    rhs = np.zeros((w.size, N * N + 1), complex)
    for j in range(N):
        t = np.ones((w.size, 1), complex)
        for i in range(N):
            if i != j:
                t = _pm(t, D[i])
        t = _pm(t, np.broadcast_to(P, (w.size, N + 1)))
        rhs[:, :t.shape[-1]] += m[j] * t
    out = lhs.copy()
    out[:, :rhs.shape[-1]] -= rhs
    return out


def roots_batch(c):
    """roots of ascending-coefficient polynomials, batched, via companion matrices."""
    c = np.asarray(c, complex)
    n = c.shape[-1] - 1
    A = np.zeros(c.shape[:-1] + (n, n), complex)
    A[..., np.arange(1, n), np.arange(n - 1)] = 1
    A[..., :, n - 1] = -c[..., :-1] / c[..., -1:]
    return np.linalg.eigvals(A)


def newton_images(z, w, m, zl, it=30):
    """2-d Newton polish of trial images on the lens equation."""
    with np.errstate(all="ignore"):
        for _ in range(it):
            f = lens_eq(z, m, zl) - w
            k = np.conj(dfbar(z, m, zl))          # dw/dzbar
            J = 1 - np.abs(k) ** 2
            # f + dz + k conj(dz) = 0  ->  dz = -(f - k conj f)/J
            dz = -(f - k * np.conj(f)) / J
            bad = ~np.isfinite(dz)
            dz = np.where(bad, 0, dz)
            lim = 0.3
            a = np.abs(dz)
            dz = np.where(a > lim, dz / np.where(a == 0, 1, a) * lim, dz)
            z = z + dz
    return z


def images(w, m, zl):
    """Certified point-source images.

    returns list of (z array) per w and a boolean `certified` array."""
    w = np.asarray(w, complex).reshape(-1)
    N = len(m)
    if N == 1:
        d = w - zl[0]
        r2 = np.abs(d) ** 2
        with np.errstate(all="ignore"):
            rt = np.sqrt(1 + 4 / r2)
        z = np.stack([0.5 * d * (1 + rt), 0.5 * d * (1 - rt)]) + zl[0]
        return [z[:, i] for i in range(w.size)], r2 > 0
    wp = w.copy()                                    # leading coefficient vanishes at a lens position
    for zk in zl:
        wp = np.where(np.abs(wp - zk) < 1e-9, wp + 1e-9 * (1 + 0.7j), wp)
    z = roots_batch(lens_poly(wp, m, zl)).T          # (deg, nw)
    # extra trial images next to every lens (tiny masses are badly conditioned)
    extra = []
    for k in range(N):
        rest = w.copy()
        for i in range(N):
            if i != k:
                rest = rest + m[i] / np.conj(zl[k] - zl[i])
        u = rest - zl[k]
        au = np.where(np.abs(u) == 0, 1e-300, np.abs(u))
        d = u / au
        for sg in (1, -1):
            rr = 0.5 * (au + sg * np.sqrt(au ** 2 + 4 * m[k]))
            extra.append(zl[k] + d * rr)
            extra.append(zl[k] + 1j * d * rr)
    z0 = np.concatenate([z, np.array(extra)])
    z1 = newton_images(z0, w[None, :], m, zl)
    with np.errstate(all="ignore"):
        res = np.abs(lens_eq(z1, m, zl) - w)
        scale = np.abs(z1) + np.abs(w)[None, :]
        for mk, zk in zip(m, zl):
            scale = scale + mk / np.abs(z1 - zk)
        D = detj(z1, m, zl)
        amp = 1e-14 * (1 + np.abs(dfbar(z1, m, zl))) * (np.abs(z1) + max(abs(np.asarray(zl))))
    out, ok = [], np.zeros(w.size, bool)
    for j in range(w.size):
        good = np.isfinite(z1[:, j]) & (res[:, j] < 1e-11 * scale[:, j] + amp[:, j])
        cand = z1[good, j]
        par = np.sign(D[good, j])
        keep, kp = [], []
        for c, p in zip(cand, par):
            if all(abs(c - k) > 1e-9 * (1e-3 + abs(c)) + 0 for k in keep) or not keep:
                if keep and min(abs(c - k) for k in keep) <= 1e-9 * (1e-3 + abs(c)):
                    continue
                keep.append(c)
                kp.append(p)
        out.append(np.array(keep))
        n = len(keep)
        ok[j] = (n >= N + 1) and ((n - N - 1) % 2 == 0) and (n <= 5 * N - 5) and int(sum(kp)) == 1 - N
    return out, ok


def point_mag(w, m, zl):
    """sum 1/|detJ| over certified images; (mag, certified, n_images, min|detJ|)."""
    w = np.asarray(w, complex)
    im, ok = images(w.reshape(-1), m, zl)
    mag = np.array([np.sum(1 / np.abs(detj(z, m, zl))) if len(z) else np.nan for z in im])
    n = np.array([len(z) for z in im])
    mind = np.array([np.min(np.abs(detj(z, m, zl))) if len(z) else 0 for z in im])
    return mag.reshape(w.shape), ok.reshape(w.shape), n.reshape(w.shape), mind.reshape(w.shape)


# -------------------------------------------------------------- finite sources
def disk_nodes(rho, u1=0.0, nr=24, nt=64):
    """quadrature nodes/weights (sum to 1) of a linear limb-darkened disk."""
    x, g = np.polynomial.legendre.leggauss(nr)
    mu = 0.5 * (x + 1)                      # mu = sqrt(1-r^2); r dr = -mu dmu
    wr = 0.5 * g * mu * (1 - u1 * (1 - mu))
    r = rho * np.sqrt(1 - mu ** 2)
    t = (np.arange(nt) + 0.5) * 2 * np.pi / nt
    nodes = (r[:, None] * np.exp(1j * t)[None, :]).ravel()
    wts = np.repeat(wr, nt)
    return nodes, wts / wts.sum()


def disk_mag(w0, rho, m, zl, u1=0.0, nr=16, nt=48):
    """disk-averaged point-source magnification.  Exponentially convergent when
    the disk does not touch a caustic; returns (mag, smooth) with `smooth` true
    when the number of images is constant over the disk."""
    n, wt = disk_nodes(rho, u1, nr, nt)
    mag, ok, cnt, _ = point_mag(w0 + n, m, zl)
    return float(np.sum(mag * wt)), bool(ok.all() and cnt.min() == cnt.max())


_V = None


def vbm(tol=1e-6, reltol=1e-6):
    global _V
    if _V is None:
        import VBMicrolensing
        _V = VBMicrolensing.VBMicrolensing()
    _V.Tol = tol
    _V.RelTol = reltol
    return _V


def fs_vbm(w0, rho, m, zl, u1=0.0, tol=1e-6, reltol=1e-5):
    """finite-source magnification from VBMicrolensing for any lens system
    (positions in the same frame as w0)."""
    v = vbm(tol, reltol)
    v.a1 = float(u1)
    if len(m) == 1:
        u = float(abs(w0 - zl[0]))
        raise ValueError("use direct integration for single lenses")
    if len(m) == 2:
        m1, m2 = m
        z1, z2 = zl
        s = abs(z1 - z2)
        q = m2 / m1
        # VBM: origin at the centre of mass, first mass on the ... side (calibrated in selftest)
        cm = m1 * z1 + m2 * z2
        e = (z1 - z2) / s
        y = (w0 - cm) / e
        if u1 == 0:
            return float(v.BinaryMag(float(s), float(q), float(-y.real), float(-y.imag), float(rho), float(tol)))
        return float(v.BinaryMagDark(float(s), float(q), float(-y.real), float(-y.imag), float(rho), float(tol)))
    par = []
    for mk, zk in zip(m, zl):
        par += [float(np.real(zk)), float(np.imag(zk)), float(mk)]
    v.SetLensGeometry(par)
    if u1 == 0:
        return float(v.MultiMag(float(w0.real), float(w0.imag), float(rho)))
    return float(v.MultiMagDark(float(w0.real), float(w0.imag), float(rho), float(tol)))


def area_mag(w0, rho, m, zl, u1=0.0, res=96, maxcells=3_000_000):
    """finite-source magnification by exhaustive subdivision of the image plane: cells that can not (by a Lipschitz bound)
    contain an image are discarded, cells certainly inside an image are counted whole, the rest is subdivided down to
    rho/res and sampled.  Independent of any root finding.  nan when the cell budget is exceeded."""
    L = float(abs(w0) + rho + 2.5 + np.abs(zl).max())
    n = 64
    h = L / n
    g = (np.arange(2 * n) + .5) * h - L
    c = (g[:, None] + 1j * g[None, :]).ravel()
    area = 0.
    sub = np.array([-.25 - .25j, -.25 + .25j, .25 - .25j, .25 + .25j])
    while True:
        R = h / np.sqrt(2)
        d = np.abs(c[:, None] - zl[None, :])
        with np.errstate(all="ignore"):
            f = np.abs(lens_eq(c, m, zl) - w0)
            sp = R * (1 + np.sum(np.where(d > R, m / (d * np.maximum(d - R, 1e-300)), np.inf), axis=1))
            keep = ~(f - sp > rho)
            if not u1:
                ins = f + sp < rho
                area += ins.sum() * h * h
                keep &= ~ins
        c = c[keep]
        if h * res <= rho or (not len(c)):
            break
        if len(c) > maxcells:
            return np.nan
        c = (c[:, None] + h * sub[None, :]).ravel()
        h /= 2
    if len(c):
        k = (np.arange(4) + .5) / 4 - .5
        o = (k[:, None] + 1j * k[None, :]).ravel() * h
        wgt = h * h / 16
        for i in range(0, len(c), 200000):
            z = (c[i:i + 200000, None] + o[None, :]).ravel()
            with np.errstate(all="ignore"):
                t = np.abs(lens_eq(z, m, zl) - w0) / rho
            t = t[t < 1]
            area += wgt * (len(t) if not u1 else np.sum(1 - u1 * (1 - np.sqrt(1 - t * t))))
    return float(area / (np.pi * rho ** 2 * (1 - u1 / 3)))


def caustic_points(m, zl, phases):
    """caustic points at the given phases of the critical-curve condition sum m/(z-zl)^2 = exp(i phase)."""
    n = len(m)
    out = []
    for ph in phases:
        den = np.array([1. + 0j])
        for zk in zl:
            den = np.convolve(den, np.convolve([1., -zk], [1., -zk]))
        num = np.zeros(2 * n + 1, complex)
        for j in range(n):
            t = np.array([m[j] + 0j])
            for k in range(n):
                if k != j:
                    t = np.convolve(t, np.convolve([1., -zl[k]], [1., -zl[k]]))
            num[2 * n + 1 - len(t):] += t
        z = np.roots(np.exp(1j * ph) * den - num)
        z = z[np.lexsort((np.round(z.imag, 9), np.round(z.real, 9)))]
        out += list(lens_eq(z, m, zl))
    return np.array(out)
