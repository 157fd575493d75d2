"""Integration regions: every arrangement of images must be covered, and covered once."""
import itertools
import numpy as np
from mc import engine, oracle as O, refs
from checks import common as K
from checks import p09

PROPERTY = "P11"
LEVEL = "model_checking"
RULE = ("states = image arrangements (all placements of up to 3 blobs on a lattice of radii, angles and sizes incl. full rings, and the "
        "arrangements of a lattice of real lens systems); each state is handed to the real region construction and every image point "
        "must lie in exactly one region; transitions = small source steps and changes of limb sampling, bins and margins between "
        "states, across which the magnification may not jump")
ASSUMPTIONS = ["up to 1% of the area of an image may be missed between limb samples (500 samples), 0.3% counted twice by a synthetic overlap",
               "margins 0.5..2 (radii of the source / degrees), bins 30..240, limb samples 250..1000"]
TWO = 2 * np.pi


def count_in(z, r, th):
    """number of regions containing each point (angles modulo 2 pi)."""
    n = np.zeros(z.shape, int)
    R, A = np.abs(z), np.angle(z)
    for (a, b), (c, d) in zip(r, th):
        if b > a and d > c:
            k = np.floor((d - c) / TWO + 1e-12)
            n += ((R >= a) & (R <= b)) * ((np.mod(A - c, TWO) < d - c - k * TWO).astype(int) + int(k))
    return n


# ------------------------------------------------------------- synthetic arrangements
def blob(kind, r, th, size, n=60):
    t = np.arange(n) / n * TWO
    if kind == "disk":
        return r * np.exp(1j * th) + size * np.exp(1j * t)
    if kind == "arc":                      # thin image, elongated by 60 degrees
        half = np.pi / 6
        u = np.concatenate([np.linspace(-half, half, n // 2), np.linspace(half, -half, n - n // 2)])
        w = np.concatenate([np.full(n // 2, size / 4), np.full(n - n // 2, -size / 4)])
        return (r + w) * np.exp(1j * (th + u))
    if kind == "ring":
        return np.concatenate([(r - size / 2) * np.exp(1j * t[::2] * 1.), (r + size / 2) * np.exp(1j * t[1::2])])


def interior(kind, r, th, size):
    x = np.linspace(-1, 1, 9)
    if kind == "disk":
        g = (x[:, None] + 1j * x[None]).ravel()
        return r * np.exp(1j * th) + size * g[np.abs(g) < .97]
    if kind == "arc":
        return ((r + x[:, None] * size / 4 * .97) * np.exp(1j * (th + np.linspace(-1, 1, 25)[None] * np.pi / 6 * .97))).ravel()
    if kind == "ring":
        return ((r + x[:, None] * size / 2 * .97) * np.exp(1j * np.linspace(0, TWO, 73)[None, :-1])).ravel()


def arrangements(ctx, nl):
    """all placements of up to nmax blobs, real define_regions on each."""
    import jax
    import jax.numpy as jnp
    f = engine.internal("microjax.inverse_ray.merge_area", "define_regions")
    RAD = (.35, 1., 1.6)
    ANG = (0., np.pi / 2, np.pi, -2.1) if not ctx.thorough else (0., .6, np.pi / 2, 2.4, np.pi, -2.1, -.9)
    size = .1
    one = [("disk", r, a, size) for r in RAD for a in ANG] + [("arc", r, a, size) for r in RAD[1:] for a in ANG] + [("ring", r, 0., size) for r in RAD[1:]]
    states = [(b,) for b in one] + list(itertools.combinations(one, 2))
    trip = list(itertools.combinations(one, 3))
    states += trip if ctx.thorough else trip[::1]
    if nl == 3 and not ctx.thorough:
        states = states[::2]
    # disjoint images only (all images of a lens system are disjoint)
    keep = []
    for st in states:
        pts = [interior(*b) for b in st]
        if all(np.abs(p[:, None] - q[None]).min() > .06 for p, q in itertools.combinations(pts, 2)):
            keep.append(st)
    nimg = 5 if nl == 2 else 10
    n = 60
    Z = np.zeros((len(keep), nimg, n), complex)
    M = np.zeros((len(keep), nimg, n), bool)
    for k, st in enumerate(keep):
        for j, b in enumerate(st):
            Z[k, j] = blob(*b, n=n)
            M[k, j] = True
        Z[k, len(st):] = .77 - .6j            # unused rows carry arbitrary masked values
    fn = jax.jit(lambda a: jax.lax.map(lambda x: f(x[0], x[1], size, nlenses=nl), a, batch_size=64))
    R, T = (np.asarray(x) for x in engine.seam(fn, (jnp.asarray(Z), jnp.asarray(M))))
    for k, st in enumerate(keep):
        for b in st:
            c = count_in(interior(*b), R[k], T[k])
            key = f"synthetic:{nl}:" + "+".join(f"{q[0]}({q[1]:g},{q[2]:.3g})" for q in st)
            ctx.expect((c > 0).all(), key + ":missed", missed=float((c == 0).mean()), regions=np.c_[R[k], T[k]])
            ctx.expect((c > 1).mean() < .003, key + ":twice", twice=float((c > 1).mean()), regions=np.c_[R[k], T[k]])
        ctx.count(states=1, traces=1, evals=1)
    nreg = (R[..., 1] > R[..., 0]).sum(1)
    for a, b in zip(*np.unique(nreg, return_counts=True)):
        ctx.outcome(f"{nl} lenses: {a} regions", b)
    ctx.spaces.append(dict(space=f"placements of 1..3 blobs, {nl} lenses", size=len(keep), kinds=3, radii=len(RAD), angles=len(ANG)))
    ctx.sample(arrangement=[list(b) for b in keep[len(keep) // 2]], regions=np.c_[R[len(keep) // 2], T[len(keep) // 2]])


# ------------------------------------------------------------- arrangements of real lens systems
def cells(w, rho, m, zl, res=10):
    """points inside the images, each standing for the same area (cells of the subdivision of the image plane)."""
    L = float(abs(w) + rho + 2.5 + np.abs(zl).max())
    h = L / 32
    g = (np.arange(64) + .5) * h - L
    c = (g[:, None] + 1j * g[None]).ravel()
    sub = np.array([-.25 - .25j, -.25 + .25j, .25 - .25j, .25 + .25j])
    while h * res > rho:
        R = h / np.sqrt(2)
        d = np.abs(c[:, None] - zl[None])
        with np.errstate(all="ignore"):
            sp = R * (1 + np.sum(np.where(d > R, m / (d * np.maximum(d - R, 1e-300)), np.inf), axis=1))
            c = c[~(np.abs(O.lens_eq(c, m, zl) - w) - sp > rho)]
        c = (c[:, None] + h * sub[None]).ravel()
        h /= 2
    return c[np.abs(O.lens_eq(c, m, zl) - w) < rho]


_REG = {}


def captured_regions(nl, items, limb, **opt):
    """the regions the integrator really uses, captured while tracing the public function."""
    import jax
    import jax.numpy as jnp
    import microjax.inverse_ray.extended_source as ES
    orig = engine.internal("microjax.inverse_ray.extended_source", "define_regions")
    key = (nl, limb, tuple(sorted(opt.items())))
    if key not in _REG:
        def f(w, rho, p):
            box = {}

            def spy(*a, **k):
                out = orig(*a, **k)
                box["r"] = out
                return out
            ES.define_regions = spy
            try:
                g = ES.mag_limb_dark if limb else ES.mag_uniform
                g(w, rho, nlenses=nl, r_resolution=8, th_resolution=8, **opt, **p)
            finally:
                ES.define_regions = orig
            if "r" not in box:
                raise engine.Skip("the integrator does not use define_regions")
            r, t = box["r"]
            return r, t
        _REG[key] = jax.jit(lambda a: jax.lax.map(lambda x: f(*x), a, batch_size=16))
    W = jnp.asarray([i[1] for i in items])
    R = jnp.asarray([i[2] for i in items])
    P = {k: jnp.asarray(v) for k, v in K.pack(nl, [i[0] for i in items]).items()}
    r, t = _REG[key]((W, R, P))
    return np.asarray(r), np.asarray(t)


def _systems(nl, opts):
    def f(ctx):
        if nl == 2:
            it = p09.family(2, p09.bin_family(ctx.thorough), (.1, .4, 1.), 5)
            it = it if ctx.thorough else it[::8]
        else:
            it = p09.family(3, p09.tri_family(ctx.thorough), (.1, .5), 6)
            it = it if ctx.thorough else it[::7]
        pts = [cells(w, rho, *O.system(nl, p)) for p, w, rho in it]
        for limb in (False, True):
            for o in opts[:2] if limb and not ctx.thorough else opts:
                r, t = captured_regions(nl, it, limb, **o)
                for k, (p, w, rho) in enumerate(it):
                    c = count_in(pts[k], r[k], t[k])
                    key = f"system:{K.tag(nl, p)},w={w:.4g},rho={rho},{'limb' if limb else 'uniform'}," + ",".join(f"{a}={b}" for a, b in o.items())
                    ctx.expect((c == 0).mean() < .012, key + ":missed", missed=float((c == 0).mean()), regions=np.c_[r[k], t[k]])
                    ctx.expect((c > 1).mean() < .003, key + ":twice", twice=float((c > 1).mean()), regions=np.c_[r[k], t[k]])
                    ctx.count(states=1, traces=1, evals=1)
                n = (r[..., 1] > r[..., 0]).sum(1)
                for a, b in zip(*np.unique(n, return_counts=True)):
                    ctx.outcome(f"{nl} lenses: {a} regions", b)
        ctx.spaces.append(dict(space=f"{nl}-lens systems x sources x rho x options", size=len(it) * (2 * len(opts) if ctx.thorough else len(opts) + 2)))
    return f


OPTS = ({}, dict(margin_r=1., margin_th=1.), dict(bins_r=120, bins_th=240), dict(Nlimb=1000), dict(bins_r=30, bins_th=60, margin_r=2., margin_th=2.))


# ------------------------------------------------------------- no jumps
def steps(ctx):
    """source steps across every direction where images pass the cut of the angle, cross radii of other images or enclose the origin."""
    lines = []
    for p in (dict(s=1., q=1.), dict(s=.7, q=.1), dict(s=1.3, q=2.5), dict(s=2., q=.4), dict(s=1.1, q=1e-3)):
        for w0, d in ((-.45 - .02j, 1.), (.1 - .5j, 1j), (-1.4 + .003j, 1.), (1.0 - .05j, 1j)):
            lines.append((p, [w0 + d * k * .04 for k in range(24 if not ctx.thorough else 60)]))
    for rho in (.1, .4):
        items = [(p, w, rho) for p, ws in lines for w in ws]
        v = K.inv_mag(2, [i[1] for i in items], rho, [i[0] for i in items], r=160, th=160)
        ref = refs.mags(2, [i[1] for i in items], rho, [i[0] for i in items])
        n = len(lines[0][1])
        e = (v / ref - 1).reshape(len(lines), n)
        lim = (.012 + .001 * np.clip(ref, 1, 40)).reshape(len(lines), n)
        lab = [f"{K.tag(2, p)},rho={rho},w={ws[0]:.4g}" for p, ws in lines]
        jump = np.abs(np.diff(e, axis=1))
        bad = ~(jump < lim[:, 1:])
        for i, j in np.argwhere(bad)[:10]:
            ctx.fail(f"step:{lab[i]}:{j}", error_before=e[i, j], error_after=e[i, j + 1])
        ctx.count(states=e.size, transitions=jump.size, evals=e.size, traces=len(lines), compared=jump.size)
        ctx.outcome(f"rho={rho}: largest jump of the relative error below {np.ceil(jump.max() * 1e3) / 1e3:g}")
    ctx.spaces.append(dict(space="source paths in small steps", size=2 * len(items)))


def options(ctx):
    """the value does not depend on limb sampling, bins and margins within their useful range."""
    cf = p09.bin_family(False)[::3]
    it = p09.family(2, cf, (.1, .6), 3)
    it = it[::1 if ctx.thorough else 4]
    W, R, P = [i[1] for i in it], [i[2] for i in it], [i[0] for i in it]
    base = K.inv_mag(2, W, R, P)
    lab = [f"{K.tag(2, p)},w={w:.4g},rho={rho}" for p, w, rho in it]
    lim = .012 + .0015 * np.clip(base, 1, 40)
    opts = [dict(Nlimb=250), dict(Nlimb=1000), dict(bins_r=30, bins_th=60), dict(bins_r=120, bins_th=240),
            dict(margin_r=1.), dict(margin_th=1.), dict(margin_r=.25, margin_th=.25)]
    if not ctx.thorough:
        opts = [opts[0], opts[2], opts[4], opts[6]]
    for o in opts:
        n = o.get("Nlimb", 500)
        v = K.inv_mag(2, W, R, P, Nlimb=n, **{k: x for k, x in o.items() if k != "Nlimb"})
        nm = ",".join(f"{a}={b}" for a, b in o.items())
        ctx.close(f"option:{nm}", v / base - 1, 0 * v, atol=lim * (1.5 if n == 250 else 1), labels=lab)
        ctx.count(states=len(it), transitions=len(it), evals=len(it), traces=len(it))
        ctx.outcome(nm)
    for o in (dict(Nlimb=250, bins_th=60, bins_r=30, margin_r=1., margin_th=1.),):
        n = o.get("Nlimb", 500)
        b = K.inv_mag(2, W, R, P, u1=.5)
        v = K.inv_mag(2, W, R, P, u1=.5, Nlimb=n, **{k: x for k, x in o.items() if k != "Nlimb"})
        ctx.close(f"limb-option:{','.join(f'{a}={c}' for a, c in o.items())}", v / b - 1, 0 * v, atol=lim * 1.5, labels=lab)
        ctx.count(states=len(it), transitions=len(it), evals=len(it), traces=len(it))
    ctx.spaces.append(dict(space="options x sources", size=len(it) * len(opts)))


PARTS = dict(arrangements2=lambda c: arrangements(c, 2), arrangements3=lambda c: arrangements(c, 3), systems2=_systems(2, OPTS),
             systems3=_systems(3, OPTS[:2]), steps=steps, options=options)
