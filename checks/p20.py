"""Annual parallax: every sky position x reference time x observation time x orbit option against an independent Kepler orbit and the ERFA ephemeris."""
import itertools
import numpy as np

PROPERTY = "P20"
LEVEL = "exploration"
NEEDS_JAX = True
RULE = ("all combinations of sky position, reference time, observation times, orbit options and parallax components on a lattice (poles, nodes, all seasons of all tabulated years); "
        "exact reference: independent Kepler orbit and projection; physical reference: ERFA Earth ephemeris")
ASSUMPTIONS = ["ERFA (shipped with astropy) is right about the position of the Earth", "times in JD-2450000; exactly at a celestial pole the direction of north is that of the given right ascension",
               "the fixed perihelion table and two-body orbit are judged against the ephemeris at 0.008 AU (position) and 0.05 AU (displacement over 300 days)"]


def kepler(M, e):
    """bisection: E - e sin E is increasing."""
    M = np.asarray(M, float)
    lo, hi = M - 1.1, M + 1.1
    for _ in range(70):
        m = (lo + hi) / 2
        b = m - e * np.sin(m) < M
        lo, hi = np.where(b, m, lo), np.where(b, hi, m)
    return (lo + hi) / 2


def orbit(t, tperi, tvern, P, e, obl, ra, dec):
    """the Sun as seen from the Earth: at the longitude of the vernal point at tvern; (north, east) components."""
    def anomaly(t):
        E = kepler(2 * np.pi * (np.asarray(t, float) - tperi) / P, e)
        return 2 * np.arctan2(np.sqrt(1 + e) * np.sin(E / 2), np.sqrt(1 - e) * np.cos(E / 2)), 1 - e * np.cos(E)
    f, r = anomaly(t)
    lam = f - anomaly(tvern)[0]
    o, a, d = np.radians(obl), np.radians(ra), np.radians(dec)
    x, y = r * np.cos(lam), r * np.sin(lam)
    s = np.array([x, y * np.cos(o), y * np.sin(o)])
    east = np.array([-np.sin(a), np.cos(a), 0])
    north = np.array([-np.sin(d) * np.cos(a), -np.sin(d) * np.sin(a), np.cos(d)])
    return np.array([north @ s, east @ s])


def expected(t, tref, pN, pE, h, **k):
    q = lambda t: orbit(np.atleast_1d(t), **k)
    v = (q(tref + h) - q(tref - h)) / (2 * h)
    d = q(t) - q(tref) - v * (np.atleast_1d(t) - tref)
    return pN * d[0] + pE * d[1], pN * d[1] - pE * d[0]


SKY = [(ra, dec) for ra in (0., 45., 90., 180., 266.4168, 300., 359.9, -30., 400.) for dec in (-89.9, -66.56, -29.0078, 0., 23.44, 66., 89.9)] + [(30., 90.), (200., -90.)]
TREF = (1500., 1623., 2500.3, 4000., 5199.5, 5276.2, 6000., 7000.25, 7500., 7939., 8000., 8121.75, 8400., 9000., 10200., 11300.)
DT = np.array([-2000., -700., -365.25636, -182.6, -100., -50., -10., -1., -.1, -.01, 0., .01, .1, 1., 10., 50., 100., 182.6, 365.25636, 700., 2000.])
DEF = dict(rotaxis_deg=23.44, ecc=.0167, period=365.25636, dt=.1)


def ref_epochs():
    from microjax.trajectory.parallax import peri_vernal
    import jax, jax.numpy as jnp
    t = jnp.arange(900., 9600., .5)
    p, v = jax.vmap(peri_vernal)(t)
    return np.unique(np.asarray(p)), np.unique(np.asarray(v))


def epochs(ctx):
    import erfa, jax, jax.numpy as jnp
    from microjax.trajectory.parallax import peri_vernal
    P, V = ref_epochs()
    ctx.expect(len(P) == 21 and len(V) == 21, "tables", got=[len(P), len(V)])
    # the tables against the ephemeris
    for p in P:
        t = p + np.arange(-4, 4.001, .01)
        r = np.linalg.norm(erfa.epv00(2450000., t)[0]["p"], axis=1)
        ctx.expect(abs(t[r.argmin()] - p) < .1, f"perihelion={p}", true=t[r.argmin()])
        ctx.count(states=1, evals=1)
    for v in V:
        t = v + np.arange(-1, 1.0005, .001)
        s = -erfa.epv00(2450000., t)[0]["p"]
        lat = np.einsum("nij,nj->ni", erfa.pnm06a(2450000., t), s)[:, 2]        # declination of date changes sign at the equinox
        i = np.abs(lat).argmin()
        ctx.expect(abs(t[i] - v) < .02 and lat[-1] > lat[0], f"equinox={v}", true=t[i])
        ctx.count(states=1, evals=1)
    ctx.expect(np.all(np.abs(np.diff(P) - 365.26) < 4.) and np.all(np.abs(np.diff(V) - 365.2422) < .03), "spacing")
    # nearest choice on a fine lattice and next to every tie
    ts = [np.arange(1400., 9400., 2. if not ctx.thorough else .25)]
    for tab in (P, V):
        mid = (tab[1:] + tab[:-1]) / 2
        ts += [mid + d for d in (-1e-5, 1e-5, -.5, .5)] + [tab, tab + .01]
    ts = np.concatenate(ts)
    for off in (0., 2450000.):
        p, v = (np.asarray(x) for x in jax.vmap(peri_vernal)(jnp.array(ts + off)))
        for nm, got, tab in (("perihelion", p, P), ("equinox", v, V)):
            want = tab[np.abs(tab[None] - ts[:, None]).argmin(1)]
            bad = np.abs(got - ts) > np.abs(want - ts) + 1e-7
            ctx.expect(not bad.any(), f"nearest-{nm}:offset={off:.0f}", at=ts[bad][:3], got=got[bad][:3], want=want[bad][:3])
        ctx.count(states=len(ts), evals=len(ts), traces=1)
        for t in (1500., 5300., 7939., 8800.):
            a = peri_vernal(t + off)
            i = np.abs(ts - t).argmin()
            ctx.expect(abs(float(a[0]) - P[np.abs(P - t).argmin()]) < 1e-9 and abs(float(a[1]) - V[np.abs(V - t).argmin()]) < 1e-9, f"scalar:t={t},offset={off:.0f}", got=[float(x) for x in a])
    ctx.sample(perihelia=P[:3], equinoxes=V[:3])


def kepler_part(ctx):
    import jax, jax.numpy as jnp
    from microjax.trajectory.parallax import getpsi
    n = 2001 if not ctx.thorough else 40001
    E = np.concatenate([np.linspace(-10, 10, n), 2 * np.pi * np.array([-20, -3, -1, 0, 1, 2, 50.]), np.pi * np.array([-5, -1, 1, 3, 101.])])
    E = np.concatenate([E] + [c + s * np.logspace(-9, -.5, 30) for c in (0, np.pi, 2 * np.pi, -np.pi) for s in (1, -1)])
    for e in (0., .001, .0167, .05, .1, .2, .3, .4, .5, .6, .7, .75, .8, .85, .88, .8999):
        M = E - e * np.sin(E)
        for nm, f in (("plain", getpsi), ("jit", jax.jit(getpsi)), ("vmap", jax.vmap(getpsi, (0, None)))):
            g = np.asarray(f(jnp.array(M), e))
            tol = 1e-10 * np.maximum(1, np.abs(E)) + 4e-15 * np.abs(E) / (1 - e)
            ctx.close(f"{nm}:ecc={e}", (g - E) / tol, 0, atol=1, labels=[f"M={m:.8g}" for m in M])
        g = np.asarray(getpsi(jnp.array(M[: len(M) // 4 * 4].reshape(4, -1)), e))
        ctx.close(f"2d:ecc={e}", g.ravel(), E[: len(M) // 4 * 4], atol=1e-8)
        gr = np.asarray(jax.vmap(jax.grad(getpsi), (0, None))(jnp.array(M), e))
        k = np.abs(np.sin(M)) > 1e-6                                          # the starting guess jumps at multiples of pi
        ctx.close(f"slope:ecc={e}", gr * (1 - e * np.cos(E)), 1, atol=1e-6, mask=k, labels=[f"M={m:.8g}" for m in M])
        ctx.count(states=len(M), evals=3 * len(M), traces=3)
        ctx.outcome(f"ecc={e}")
    for M in (0., 1., -3., 7.):
        ctx.expect(np.shape(getpsi(M, .3)) == () and abs(float(getpsi(M, .3)) - kepler(M, .3)) < 1e-10, f"scalar:M={M}")
    ctx.sample(e=e, M=M, E=float(getpsi(M, e)))


def ask(tref, sky, opts, t, pN, pE, epochs=(0., 0.)):
    from microjax.trajectory.parallax import set_parallax, compute_parallax
    pp = set_parallax(tref, epochs[0], epochs[1], sky[0], sky[1], **opts)
    a, b = compute_parallax(t, pN, pE, pp)
    return np.asarray(a), np.asarray(b)


def nearest(tref):
    P, V = ref_epochs()
    return P[np.abs(P - tref).argmin()], V[np.abs(V - tref).argmin()]


def _sky(ctx, i, n):
    """default orbit: all sky positions x reference times; exact displacement, linearity in the parallax vector, vanishing value and slope, period."""
    import jax, jax.numpy as jnp
    from microjax.trajectory.parallax import set_parallax, compute_parallax
    f = jax.jit(lambda tref, ra, dec, t, pN, pE, tp, tv: compute_parallax(t, pN, pE, set_parallax(tref, tp, tv, ra, dec)))
    sky = SKY if not ctx.thorough else SKY + [(ra, dec) for ra in np.arange(15., 360., 30.) for dec in np.arange(-80., 81., 20.)]
    pis = ((1., 0.), (0., 1.), (.3, -.2)) if not ctx.thorough else ((1., 0.), (0., 1.), (.3, -.2), (-1.5, 2.), (0., 0.))
    cases = [(s, tr) for s in sky for tr in TREF][i::n]
    near = {tr: nearest(tr) for tr in TREF}
    for (ra, dec), tr in cases:
        tp, tv = near[tr]
        kw = dict(tperi=tp, tvern=tv, P=DEF["period"], e=DEF["ecc"], obl=DEF["rotaxis_deg"], ra=ra, dec=dec)
        t = tr + DT
        got = {}
        for pN, pE in pis:
            got[pN, pE] = a = np.array(f(tr, ra, dec, t, pN, pE, 0., 0.))
            ctx.close(f"ra={ra},dec={dec},tref={tr},pi={pN},{pE}", a, np.array(expected(t, tr, pN, pE, .1, **kw)), atol=3e-7 * max(abs(pN), abs(pE), 1) , labels=None)
            ctx.count(states=1, evals=1, traces=len(t))
        a = np.array(f(tr, ra, dec, t, 1., 0., tp, tv))
        ctx.close(f"explicit-epochs:ra={ra},dec={dec},tref={tr}", a, got[1., 0.], atol=1e-10)
        lin = .3 * got[1., 0.] - .2 * got[0., 1.]
        ctx.close(f"linear:ra={ra},dec={dec},tref={tr}", got[.3, -.2], lin, atol=1e-12)
        d = got[1., 0.]
        z = len(DT) // 2
        ctx.expect(np.abs(d[:, z]).max() < 1e-13 and np.abs(d[:, z + 1] - d[:, z - 1]).max() / .02 < 1e-7, f"anchor:ra={ra},dec={dec},tref={tr}", at=d[:, z - 1:z + 2])
        # one orbital period later the displacement differs by the removed drift alone: equal and opposite at +P and -P
        ctx.expect(np.abs(d[:, 2] + d[:, -3]).max() < 1e-6, f"period:ra={ra},dec={dec},tref={tr}", at=[d[:, 2], d[:, -3]])
        v = np.abs(d[:, -3]).max() / DEF["period"]
        ctx.expect(np.hypot(*d).max() <= 2.04 + np.hypot(*(d[:, -3] / DEF["period"])) * 2000 * 1.0001 and v < 1.8e-2, f"bound:ra={ra},dec={dec},tref={tr}")
    ctx.spaces.append(dict(space="sky x reference time x 21 observation times x parallax vectors", size=len(cases) * len(pis)))
    ctx.sample(ra=ra, dec=dec, tref=tr, got=d[:, 5])


def options(ctx):
    """orbit options, epoch options, and the forms in which times are given."""
    import jax.numpy as jnp
    from microjax.trajectory.parallax import set_parallax, compute_parallax
    for ecc, obl, per, h in itertools.product((0., .0167, .2, .6, .89), (0., 23.44, 60., 90., -10.), (365.25636, 200., 11.), (.1, .01, 1.)):
        for ra, dec in ((266.4, -29.), (80., 10.)):
            for tr, ep in ((7500., (0., 0.)), (7500., (7400., 7450.)), (5000.5, (5001., 4800.)), (8000., (0., 7800.)), (8000., (7700., 0.))):
                tp, tv = ep if ep[0] * ep[1] else nearest(tr)
                kw = dict(tperi=tp, tvern=tv, P=per, e=ecc, obl=obl, ra=ra, dec=dec)
                t = tr + DT[4:-4]
                a = np.array(ask(tr, (ra, dec), dict(rotaxis_deg=obl, ecc=ecc, period=per, dt=h), t, .7, -.4, ep))
                tol = 1e-9 if ecc < .8 else 1e-6
                ctx.close(f"ecc={ecc},obl={obl},period={per},dt={h},ra={ra},tref={tr},epochs={ep}".replace(" ", ""), a, np.array(expected(t, tr, .7, -.4, h, **kw)), atol=tol * 200 / h, labels=None)
                ctx.count(states=1, evals=1, traces=len(t))
        if not ctx.thorough and h == .1:
            continue
    pp = set_parallax(7500., 0., 0., 266., -29.)
    t = 7500. + np.array([-30., 5., 200.])
    base = np.array(compute_parallax(jnp.array(t), .1, .2, pp))
    for nm, f in (("numpy", lambda t: compute_parallax(np.array(t), .1, .2, pp)), ("reversed", lambda t: [x[::-1] for x in compute_parallax(jnp.array(t[::-1]), .1, .2, pp)]),
                  ("one-by-one", lambda t: np.array([[float(np.asarray(x).ravel()[0]) for x in compute_parallax(float(v), .1, .2, pp)] for v in t]).T)):
        ctx.close(f"form:{nm}", np.array(f(t)), base, atol=1e-13)
        ctx.count(states=1, evals=1)
    ctx.expect(all(np.shape(x) == (1,) for x in compute_parallax(7510., .1, .2, pp)), "form:scalar-shape")
    ctx.sample(base=base)


def ephemeris(ctx):
    """projected position and displacement against the ERFA ephemeris: signs, axes, seasons."""
    import erfa
    from microjax.trajectory.parallax import set_parallax, project_earth_position
    def sun(t, ra, dec):
        s = -erfa.epv00(2450000., np.atleast_1d(t))[0]["p"]
        a, d = np.radians(ra), np.radians(dec)
        return np.array([s @ np.array([-np.sin(d) * np.cos(a), -np.sin(d) * np.sin(a), np.cos(d)]), s @ np.array([-np.sin(a), np.cos(a), 0])])
    for (ra, dec), tr in itertools.product(SKY[::2] if not ctx.thorough else SKY, np.arange(1560., 8900., 293. if not ctx.thorough else 61.)):
        t = tr + np.linspace(-300, 300, 25)
        pp = set_parallax(tr, 0., 0., ra, dec)
        q = np.asarray(project_earth_position(t, pp[6], pp[7], pp[8], pp[2], pp[3], pp[4]))
        s = sun(t, ra, dec)
        ctx.expect(np.abs(q - s).max() < 8e-3, f"position:ra={ra},dec={dec},tref={tr}", worst=float(np.abs(q - s).max()))
        want = s - sun(tr, ra, dec) - (sun(tr + .5, ra, dec) - sun(tr - .5, ra, dec)) * (t - tr)
        for pN, pE in ((1., 0.), (0., 1.)):
            got = np.array(ask(tr, (ra, dec), {}, t, pN, pE))
            w = np.array([pN * want[0] + pE * want[1], pN * want[1] - pE * want[0]])
            ctx.expect(np.abs(got - w).max() < 5e-2, f"displacement:ra={ra},dec={dec},tref={tr},pi={pN},{pE}", worst=float(np.abs(got - w).max()))
            ctx.count(states=1, evals=1, traces=len(t), compared=2 * len(t))
    ctx.sample(ra=ra, dec=dec, tref=tr, q=q[:, 0], ephemeris=s[:, 0])


PARTS = dict(epochs=epochs, kepler=kepler_part, options=options, ephemeris=ephemeris, **{f"sky{i}": (lambda ctx, i=i: _sky(ctx, i, 3)) for i in range(3)})
