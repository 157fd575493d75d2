"""lattices shared by several checks."""
import itertools
import numpy as np
from mc import oracle as O

# source positions: both half planes, all quadrants, on both axes, near/far
GX = [-2.7, -1.31, -.52, -.11, 0., .043, .37, 1.07, 2.2]
GY = [-1.7, -.61, -.083, 0., .0151, .29, 1.13]


def grid(xs=GX, ys=GY):
    return np.array([complex(x, y) for x in xs for y in ys])


def special(zl):
    """positions around every lens (down to exactly on it) and far away."""
    out = []
    for z in zl:
        for e in (0, 1e-10, 1e-7, 1e-4, .03):
            for t in (.4, 2.2, -1.3) if e else (0,):
                out.append(z + e * np.exp(1j * t))
    for r in (6., 40., 300.):
        for t in (0., .5, np.pi / 2, 2.5, np.pi, -1.9):
            out.append(r * np.exp(1j * t))
    return np.array(out, complex)


def sources(zl, xs=GX, ys=GY):
    return np.concatenate([grid(xs, ys), special(zl)])


BIN_S = (.25, .7, 1., 1.4, 2.6)
BIN_Q = (1e-6, 1e-3, .05, .4, 1., 2.5, 40.)
TRI_S = (.6, 1., 1.7)
TRI_Q = (.01, .2, 1., 3.)
TRI_Q3 = (.01, .15, .7, 2.)
TRI_R3 = (.35, .8, 1.4)
TRI_PSI = (0., .7, np.pi / 2, 2.6, np.pi, -.9, -2.2)


def bin_cfgs(thorough=False):
    s = BIN_S if not thorough else (.1, .25, .5, .7, .9, 1., 1.1, 1.4, 2., 2.6, 5.)
    q = BIN_Q if not thorough else (1e-7, 1e-6, 1e-5, 1e-4, 1e-3, 9.9e-3, .05, .2, .4, .8, 1., 1.25, 2.5, 10., 40., 1e3)
    return [dict(s=a, q=b) for a in s for b in q]


def tri_cfgs(thorough=False, dmin=.2):
    out = []
    psi = TRI_PSI if not thorough else tuple(np.concatenate([np.linspace(-np.pi, np.pi, 17), TRI_PSI]))
    for s, q, q3, r3, p in itertools.product(TRI_S, TRI_Q, TRI_Q3, TRI_R3, psi):
        z = r3 * np.exp(1j * p)
        if min(abs(z - s / 2), abs(z + s / 2)) >= dmin:
            out.append(dict(s=s, q=q, q3=q3, r3=r3, psi=p))
    return out


def mid_params(nl, p):
    """parameters of the mid-point-frame functions."""
    if nl == 1:
        return {}
    m, _ = O.system(nl, p)
    if nl == 2:
        return dict(a=.5 * p["s"], e1=m[0])
    return dict(a=.5 * p["s"], e1=m[0], e2=m[1], r3=p["r3"], psi=p["psi"])


def tag(nl, p):
    return f"n{nl}:" + ",".join(f"{k}={v:.4g}" for k, v in p.items())


# ------------------------------------------------------------- batched solvers of the code under test
_JIT = {}


def _key(*a):
    return tuple(a)


def pack(nl, cfgs):
    """list of parameter dicts -> dict of arrays."""
    names = {1: (), 2: ("s", "q"), 3: ("s", "q", "q3", "r3", "psi")}[nl]
    return {k: np.array([float(c[k]) for c in cfgs]) for k in names}


CHUNK = 64


def _bmap(f, key, args, batch=16):
    """f over the leading axis, in blocks of one fixed size (one compilation per function)."""
    import jax
    import jax.numpy as jnp
    if key not in _JIT:
        _JIT[key] = jax.jit(lambda a: jax.lax.map(lambda x: f(*x), a, batch_size=batch))
    leaves, tree = jax.tree.flatten(args)
    leaves = [np.asarray(x) for x in leaves]
    n = len(leaves[0])
    if n == 0:
        return np.zeros(0)
    out = []
    for k in range(0, n, CHUNK):
        idx = np.minimum(np.arange(k, k + CHUNK), n - 1)
        if n < CHUNK // 2:
            idx = np.minimum(np.arange(-(-n // (batch or 1)) * (batch or 1)), n - 1)
        r = np.asarray(_JIT[key](jax.tree.unflatten(tree, [jnp.asarray(x[idx]) for x in leaves])))
        out.append(r[:n - k])
    return np.concatenate(out)


def inv_mag(nl, W, rho, cfgs, u1=None, r=200, th=200, Nlimb=500, batch=8, **kw):
    """inverse-ray magnification, elementwise over W (n,), rho (n,), cfgs (n dicts), u1 None or (n,)."""
    from microjax.inverse_ray.extended_source import mag_uniform, mag_limb_dark
    W = np.asarray(W, complex)
    rho = np.broadcast_to(np.asarray(rho, float), W.shape)
    P = pack(nl, cfgs)
    o = dict(nlenses=nl, r_resolution=r, th_resolution=th, Nlimb=Nlimb, **kw)
    kk = ("inv", nl, r, th, Nlimb, batch, tuple(sorted(kw.items())), u1 is None)
    if u1 is None:
        return _bmap(lambda w, rh, p: mag_uniform(w, rh, **o, **p), kk, (W, rho, P), batch)
    u1 = np.broadcast_to(np.asarray(u1, float), W.shape)
    return _bmap(lambda w, rh, p, u: mag_limb_dark(w, rh, u1=u, **o, **p), kk, (W, rho, P, u1), batch)


def contour_mag(nl, W, rho, cfgs, u1=None, npts=200, batch=None, **kw):
    """contour magnification, elementwise; u1 None (uniform) or array."""
    from microjax.caustics.extended_source import mag_extended_source
    W = np.asarray(W, complex)
    rho = np.broadcast_to(np.asarray(rho, float), W.shape)
    P = pack(nl, cfgs)
    kk = ("con", nl, u1 is None, npts, batch, tuple(sorted(kw.items())))
    if u1 is None:
        return _bmap(lambda w, rh, p: mag_extended_source(w, rh, nlenses=nl, npts_limb=npts, **kw, **p), kk, (W, rho, P), batch)
    u1 = np.broadcast_to(np.asarray(u1, float), W.shape)
    return _bmap(lambda w, rh, p, u: mag_extended_source(w, rh, nlenses=nl, u1=u, limb_darkening=True, npts_limb=npts, **kw, **p),
                 kk, (W, rho, P, u1), batch)


def hexa(nl, W, rho, cfgs, u1=0.):
    """hexadecapole magnification and error estimate through the public frame (as the light-curve code does)."""
    from microjax.point_source import _images_point_source
    from microjax.multipole import mag_hexadecapole
    import jax, jax.numpy as jnp
    W = np.asarray(W, complex)
    rho = np.broadcast_to(np.asarray(rho, float), W.shape)
    sh = np.array([0. if nl == 1 else O.shift_cm(c["s"], c["q"]) for c in cfgs])
    mp = [mid_params(nl, c) for c in cfgs]
    P = {k: np.array([float(m[k]) for m in mp]) for k in mp[0]}

    def f(w, rh, p):
        z, mk = _images_point_source(w, nlenses=nl, **p)
        return jnp.stack(mag_hexadecapole(z, mk, rh, nlenses=nl, u1=u1, **p))
    out = _bmap(f, ("hex", nl, u1), (W - sh, rho, P), 64)
    return out[:, 0], out[:, 1]
