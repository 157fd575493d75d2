"""Adaptive light curves: which sample gets the multipole value and which the full one.

The control logic (acceptance, ordering, budget, chunking, padding) is explored exhaustively with the expensive integrators
replaced by stand-ins that encode every argument they receive; the real integrators are then compared on fewer sequences."""
import itertools
import inspect
import numpy as np
from mc import engine
from checks import common as K

PROPERTY = "P07"
LEVEL = "model_checking"
RULE = ("all sequences over an alphabet of accepted and refused positions x every budget x every chunk size; reference model: position-wise "
        "multipole value, position-wise full value, first MAX_FULL_CALLS refused samples in input order get the full value")
ASSUMPTIONS = ["acceptance of a position is read off from a one-sample light curve; its correctness is property P08",
               "stand-in integrators are installed on microjax.inverse_ray.lightcurve.mag_uniform / mag_limb_dark; the parts with real integrators need no seam"]

BIN = dict(s=1., q=.5)
PLA = dict(s=1.3, q=2e-3)
TRI = dict(s=1.1, q=.5, q3=.2, r3=.7, psi=.9)
# far, outside, near a caustic, on the planetary caustic
ALPHA = {"bin": [3 + 2j, -1.4 + 1.5j, .05 + .02j, .33 - .1j],
         "pla": [3 + 2j, -.7 + .3j, .002 + 0j, 1.3 - 1 / 1.3 + .02j],
         "tri": [3 + 2j, -1.4 + 1.5j, .05 + .02j, .33 - .1j]}
STAT = dict(r_resolution=40, th_resolution=44, Nlimb=120, bins_r=33, bins_th=77, margin_r=.9, margin_th=1.1)
WT = dict(r_resolution=.01, th_resolution=.013, Nlimb=.031, bins_r=.017, bins_th=.019, margin_r=.23, margin_th=.29)


def code(w, rho, P, nl, u1=None, delta_c=0., **st):
    v = 1e3 + 3 * w.real + 5 * w.imag + 7 * rho + 43 * nl
    for k, c in dict(s=11., q=13., q3=17., r3=19., psi=23.).items():
        if k in P:
            v = v + c * P[k]
    for k, c in WT.items():
        v = v + c * st[k]
    if u1 is not None:
        v = v + 37 * u1 + 410 * delta_c + 1e4
    return v


def install():
    import microjax.inverse_ray.lightcurve as L
    seen = []
    for name, ld in (("mag_uniform", False), ("mag_limb_dark", True)):
        if not hasattr(L, name):
            raise engine.Skip(f"inverse_ray.lightcurve.{name} not present")
        sig = inspect.signature(getattr(L, name))

        def stub(*a, _sig=sig, _ld=ld, **kw):
            try:
                b = _sig.bind(*a, **kw)
                b.apply_defaults()
                d = dict(b.arguments)
                for p in _sig.parameters.values():
                    if p.kind is p.VAR_KEYWORD:
                        d.update(d.pop(p.name, {}) or {})
                w, rho = b.args[:2]
                extra = dict(u1=d["u1"], delta_c=d["delta_c"]) if _ld else {}
                need = [d[k] for k in WT] + [d["nlenses"]]
            except Exception as e:
                raise engine.Skip(f"integrator called in another way: {e!r}")
            seen.append(1)
            return code(w, rho, {k: v for k, v in d.items() if k in ("s", "q", "q3", "r3", "psi")}, d["nlenses"],
                        **{k: d[k] for k in WT}, **extra)
        setattr(L, name, stub)
    return seen


def curve(kind, P):
    from microjax.inverse_ray import lightcurve as L
    f = L.mag_triple if "q3" in P else L.mag_binary
    return f


def model(seq, mult, full, acc, mx):
    out, n = [], 0
    for x in seq:
        if acc[x]:
            out.append(mult[x])
        else:
            out.append(full[x] if n < mx else mult[x])
            n += 1
    return np.array(out)


def explore(ctx, kind, P, u1):
    import jax.numpy as jnp
    seen = install()
    nl = 3 if "q3" in P else 2
    A = ALPHA[kind]
    rho = .1 if kind != "pla" else .01
    f = curve(kind, P)
    kw = dict(STAT, **P)
    if u1:
        kw.update(u1=u1, delta_c=.02)
    call = lambda w, mx, ch: np.asarray(f(jnp.asarray(w), rho, MAX_FULL_CALLS=mx, chunk_size=ch, **kw))
    mult, full, acc = [], [], []
    full = [code(a, rho, P, nl, u1=u1 or None, delta_c=.02 if u1 else 0., **STAT) for a in A]
    hx, _ = K.hexa(nl, A, rho, [P] * len(A), u1=u1 or 0.)
    for k, a in enumerate(A):
        v0 = call([a], 0, 1)[0]
        v1 = call([a], 1, 1)[0]
        mult.append(v0)
        ctx.close(f"{kind}:u1={u1}:budget0-is-multipole@{a}", v0, hx[k], rtol=1e-7)
        is_full = abs(v1 - full[k]) < 1e-9 * full[k]
        if v1 > 900 and not is_full:
            ctx.fail(f"{kind}:u1={u1}:arguments@{a}", got=float(v1), want=float(full[k]))
        acc.append(not v1 > 900)
        if acc[-1]:
            ctx.close(f"{kind}:u1={u1}:accepted@{a}", v1, v0, rtol=1e-9)
    if not seen:
        raise engine.Skip("the stand-in integrators are not called")
    ctx.outcome(f"{kind} accepted alphabet: {acc}")
    if nl == 3:
        ctx.expect(not any(acc), f"{kind}:never-accepts", acc=acc)
    else:
        ctx.expect(acc[0], f"{kind}:far-position-accepted", acc=acc)
        ctx.expect(not acc[2] and not acc[3], f"{kind}:caustic-position-refused", acc=acc)
    lens = ((2, 3, 5) if nl == 2 else (2, 4)) if not ctx.thorough else (2, 3, 4, 5, 6)
    tot = 0
    for n in lens:
        seqs = list(itertools.product(range(len(A)), repeat=n)) if len(A) ** n <= 5000 else list(itertools.product((0, 2, 3), repeat=n))
        mxs = range(n + 2) if ctx.thorough or n < 5 else (1, 2, 4, 5, 8)
        chs = (1, 2, n - 1, n, n + 2) if not ctx.thorough else range(1, n + 3)
        for mx in mxs:
            for ch in sorted(set(c for c in chs if c > 0)):
                if not ctx.thorough and (mx + ch) % 2 and n >= 4:
                    continue
                sub = seqs if (mx + ch) % 3 == 0 or n < 5 or ctx.thorough else seqs[(mx * 7 + ch) % 4::4]
                for s in sub:
                    got = call([A[x] for x in s], mx, ch)
                    want = model(s, mult, full, acc, mx)
                    tot += 1
                    if got.shape != want.shape or not np.all(np.abs(got - want) <= 1e-7 * np.abs(want)):
                        ctx.fail(f"{kind}:u1={u1}:{''.join(map(str, s))}:max={mx}:chunk={ch}", got=got, want=want)
        ctx.spaces.append(dict(space=f"{kind} u1={u1}: sequences of length {n} x budgets x chunk sizes", size=len(seqs) * len(mxs)))
    ctx.count(states=tot, traces=tot, transitions=tot, evals=tot, compared=tot)
    ctx.sample(kind=kind, alphabet=A, accepted=acc, multipole=mult, full=full)


def control_binary(ctx):
    explore(ctx, "bin", BIN, 0.)


def control_binary_ld(ctx):
    explore(ctx, "pla", PLA, .4)


def control_triple(ctx):
    explore(ctx, "tri", TRI, 0.)


def control_triple_ld(ctx):
    explore(ctx, "tri", TRI, .4)


def _real(ctx, kind, P, u1s):
    """real integrators, one option varied at a time; a sequence with repeats and several budgets."""
    import jax.numpy as jnp
    from microjax.inverse_ray.extended_source import mag_uniform, mag_limb_dark
    nl = 3 if "q3" in P else 2
    rho = .1 if kind != "pla" else .01
    A = ALPHA[kind]
    f = curve(kind, P)
    base = dict(r_resolution=60, th_resolution=50, Nlimb=200, bins_r=50, bins_th=120, margin_r=1., margin_th=1.)
    vary = [{}, dict(r_resolution=83), dict(th_resolution=71), dict(Nlimb=97), dict(margin_r=.5), dict(margin_th=2.5), dict(bins_r=30, bins_th=90)]
    if not ctx.thorough:
        vary = vary[:3] if kind == "bin" else vary[3:5] if kind == "pla" else vary[5:]
    for u1 in u1s:
        for va in vary + ([dict(delta_c=.05)] if u1 and kind == "bin" else []):
            o = dict(base, **va)
            if u1:
                full = [float(mag_limb_dark(a, rho, u1=u1, nlenses=nl, **o, **P)) for a in A]
            else:
                full = [float(mag_uniform(a, rho, nlenses=nl, **o, **P)) for a in A]
            hx, _ = K.hexa(nl, A, rho, [P] * len(A), u1=u1)
            kw = dict(o, **P)
            if u1:
                kw["u1"] = u1
            acc = None
            for mx, ch, seqs in ((9, 4, [(0, 1, 2, 3), (3, 2, 1, 0), (2, 0, 3, 1), (2, 2, 3, 3)]), (2, 3, [(0, 3, 2, 2), (3, 1, 0, 2), (2, 3, 3, 0)])):
                for s in seqs:
                    v = np.asarray(f(jnp.asarray([A[x] for x in s]), rho, MAX_FULL_CALLS=mx, chunk_size=ch, **kw))
                    if acc is None:
                        acc = [abs(v[k] - hx[k]) <= 1e-9 * abs(hx[k]) for k in range(4)]
                        if nl == 2:
                            ctx.expect(acc[0] and not acc[2] and not acc[3], f"real:{kind}:u1={u1}:acceptance:{va}", acc=acc)
                        else:
                            ctx.expect(not any(acc), f"real:{kind}:u1={u1}:acceptance:{va}", acc=acc)
                    want = model(s, hx, full, acc, mx)
                    ctx.close(f"real:{kind}:u1={u1}:{va}:{''.join(map(str, s))}:max={mx}", v, want, rtol=1e-5)
                    ctx.count(states=1, traces=1, transitions=3, evals=4)
            ctx.outcome(f"{kind} option {va} u1={u1}")


def real_binary(ctx):
    _real(ctx, "bin", BIN, (0., .5))


def real_planet(ctx):
    _real(ctx, "pla", PLA, (0., .5))


def real_triple(ctx):
    _real(ctx, "tri", TRI, (0., .5))


def defaults(ctx):
    """default budget and chunk size: 230 samples, mixed, more than two default chunks; order and shape kept."""
    import jax.numpy as jnp
    from microjax.inverse_ray import lightcurve as L
    install()
    rng = np.arange(230)
    for kind, P, f in (("bin", BIN, L.mag_binary), ("tri", TRI, L.mag_triple)):
        A = ALPHA[kind]
        nl = 3 if "q3" in P else 2
        idx = (rng * rng * 7 + rng * 3 + rng // 9) % 4
        full = [code(a, .1, P, nl, **STAT) for a in A]
        hx, _ = K.hexa(nl, A, .1, [P] * 4)
        acc = [nl == 2 and k < 2 for k in range(4)]
        v1 = np.asarray(f(jnp.asarray(A[:2]), .1, **STAT, **P))
        if nl == 2:
            acc = [abs(v1[0] - hx[0]) < 1e-7, abs(v1[1] - hx[1]) < 1e-7, False, False]
        for n in (230, 100, 101, 50, 99):
            for mx in (500, 40, 101):
                got = np.asarray(f(jnp.asarray([A[k] for k in idx[:n]]), .1, MAX_FULL_CALLS=mx, **STAT, **P))
                ctx.close(f"defaults:{kind}:n={n}:max={mx}", got, model(idx[:n], hx, full, acc, mx), rtol=1e-7)
                ctx.count(states=n, traces=1, transitions=n - 1, evals=n)
    ctx.outcome("default chunking")


PARTS = dict(control_binary=control_binary, control_binary_ld=control_binary_ld, control_triple=control_triple, control_triple_ld=control_triple_ld,
             real_binary=real_binary, real_planet=real_planet, real_triple=real_triple, defaults=defaults)
