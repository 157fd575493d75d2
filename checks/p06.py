"""Sequential image tracking: every path over a finite set of source positions, and fine trajectories for row continuity."""
import itertools
import numpy as np
from mc import oracle as O
from mc.engine import internal, seam, Skip
from checks import common as K

PROPERTY = "P06"
LEVEL = "model_checking"
RULE = ("states = (lens system, current position, tracked rows); transitions = moves to any position of the alphabet (incl. staying, "
        "reversing, crossing caustics, jumping far, landing on a lens); all paths up to the depth are executed by the real tracker and the "
        "valid set at every step compared with the certified image set; fine trajectories: row continuity at every step")
ASSUMPTIONS = ["reference image set certified (otherwise unjudged)", "images of magnification below 1e-4 may be dropped",
               "row continuity judged when the step is small against the separations of all polynomial roots (nearest-neighbour bijection with margin 3)",
               "triples: mass ratios >= 0.01, lens distances >= 0.2"]


def tracker():
    return internal("microjax.point_source", "_images_point_source_sequential")


def track(nl, p, paths):
    """paths: (B, L) complex, centre-of-mass frame -> z (B, n, L), mask"""
    import jax, jax.numpy as jnp
    fn = tracker()
    sh = 0 if nl == 1 else O.shift_cm(p["s"], p["q"])
    mp = K.mid_params(nl, p)
    key = (nl, paths.shape[1])
    if key not in _J:
        _J[key] = jax.jit(jax.vmap(lambda w, q: seam(fn, w, nlenses=nl, **q), in_axes=(0, None)))
    z, mk = _J[key](jnp.array(paths - sh), {k: jnp.asarray(float(v)) for k, v in mp.items()})
    return np.asarray(z) + sh, np.asarray(mk).astype(bool)


_J = {}


def judge_sets(ctx, key, nl, p, paths, z, mk, ztol):
    m, zl = O.system(nl, p)
    pos, inv = np.unique(paths, return_inverse=True)
    inv = inv.reshape(paths.shape)
    ims, ok = O.images(pos, m, zl)
    n = {1: 2, 2: 5, 3: 10}[nl]
    if z.shape != (len(paths), n, paths.shape[1]):
        ctx.fail(f"{key}:shape", got=list(z.shape))
        return
    for b in range(len(paths)):
        for k in range(paths.shape[1]):
            i = inv[b, k]
            t = ims[i]
            if not ok[i]:
                ctx.count(unjudged=1)
                continue
            mu = 1 / np.abs(O.detj(t, m, zl))
            if mu.max() > 1e3:
                ctx.count(unjudged=1)
                continue
            v = z[b, mk[b, :, k], k]
            D = np.abs(v[:, None] - t[None]) / (1 + np.abs(t))
            nb = D.argmin(1) if len(v) else np.array([], int)
            good = len(v) and np.isfinite(v).all() and (D.min(1) < ztol).all() and len(set(nb)) == len(nb) and set(nb) >= set(np.nonzero(mu > 1e-4)[0])
            ctx.expect(good, f"{key}@{K.tag(nl, p)},path={[complex(round(w.real, 5), round(w.imag, 5)) for w in paths[b, :k + 1][-6:]]}",
                       step=k, valid=v, true=t)
            ctx.outcome(f"{nl} lenses, {len(t)} images")
            if not good:
                break


def alphabet(nl, p, thorough):
    """positions forced to collide: inside/outside caustics, on the axis, on and next to a lens, far."""
    m, zl = O.system(nl, p)
    W = K.grid(np.linspace(-1.6, 1.6, 33), np.linspace(-1.2, 1.2, 21))
    ims, ok = O.images(W, m, zl)
    n = np.array([len(i) for i in ims])
    mind = np.array([np.min(np.abs(O.detj(i, m, zl))) if len(i) else 0 for i in ims])
    out = []
    for c in sorted(set(n[ok])):
        i = np.nonzero(ok & (n == c) & (mind > .02))[0]
        if len(i):
            out += [W[i[len(i) // 3]], W[i[(2 * len(i)) // 3]]]
    out += [zl[0], zl[-1] + 1e-4, 40. - 25j, -.9 + 0j, .0123 - 1.1j]
    return np.array(list(dict.fromkeys(out)))


def _paths(nl, cfgs, depth, cap):
    def f(ctx):
        for p in cfgs:
            al = alphabet(nl, p, ctx.thorough)
            if nl == 1:
                al = al[al != 0]
            d = depth + (1 if ctx.thorough else 0)
            al = al[:cap]
            P = np.array(list(itertools.product(al, repeat=d)))
            ctx.spaces.append(dict(space=f"paths@{K.tag(nl, p)}", alphabet=len(al), depth=d, size=len(P)))
            z, mk = track(nl, p, P)
            judge_sets(ctx, "paths", nl, p, P, z, mk, 1e-6 if nl < 3 else 2e-5)
            ctx.count(states=sum(len(al) ** i for i in range(1, d + 1)), transitions=sum(len(al) ** i for i in range(2, d + 1)),
                      traces=len(P), evals=P.size)
            ctx.sample(system=p, path=P[len(P) // 2], valid_last=z[len(P) // 2][mk[len(P) // 2, :, -1], -1])
    return f


def _fine(nl, cfgs):
    def f(ctx):
        L = 400
        for p in cfgs:
            m, zl = O.system(nl, p)
            t = np.linspace(-1, 1, L)
            lines = [2.1 * t + 1j * y for y in (0., .07, -.4, .83)] + [x + 1.7j * t for x in (-.6, .013, .45)]
            lines += [.5 * np.exp(1j * np.pi * t), .08 + .9 * np.exp(1j * np.pi * t), (1 + .8j) * t + .03, 2.1 * t[::-1] + .07j,
                      np.concatenate([t[::2], t[::2][::-1]]) + .21j, np.round(t * 40) / 40 - .31j]
            P = np.array(lines)
            if nl == 1:
                P[np.abs(P) == 0] = 1e-3
            z, mk = track(nl, p, P)
            judge_sets(ctx, "fine", nl, p, P, z, mk, 1e-6 if nl < 3 else 2e-5)
            # row continuity
            mu = np.abs(O.detj(z, m, zl))
            for b in range(len(P)):
                for k in range(L - 1):
                    v0, v1 = mk[b, :, k], mk[b, :, k + 1]
                    if v0.sum() != v1.sum() or v0.sum() == 0:
                        continue
                    a, c = z[b, :, k], z[b, :, k + 1]           # all roots, also the spurious ones
                    D = np.abs(a[:, None] - c[None])
                    s = np.sort(D, 1)
                    j = D.argmin(1)
                    if len(set(j)) != len(j) or not (s[:, 0] < s[:, 1] / 3).all() or min(mu[b, v0, k].min(), mu[b, v1, k + 1].min()) < .02:
                        ctx.count(unjudged=1)
                        continue
                    ctx.expect((j == np.arange(len(j)))[v0].all(), f"rows@{K.tag(nl, p)},line={b},w={P[b, k]:.4g}", step=k, rows0=np.nonzero(v0)[0],
                               moved_to=j[v0])
            ctx.count(states=P.size, transitions=P.size - len(P), traces=len(P), evals=P.size)
            ctx.outcome(f"{nl} lenses lines", len(P))
        ctx.spaces.append(dict(space=f"{nl} lenses: fine trajectories", size=len(cfgs) * len(lines), steps=L))
    return f


def lengths(ctx):
    """paths of length 1..6 and constant paths."""
    for nl, p in ((1, {}), (2, dict(s=.9, q=.3)), (3, dict(s=1.2, q=.5, q3=.3, r3=.9, psi=1.9))):
        W = np.array([.31 + .2j, -.4 + .02j, .9 - .3j, .31 + .2j, .31 + .2j, 2 - 1j])
        for L in range(1, 7):
            P = np.array([W[:L], W[::-1][:L], np.full(L, W[0])])
            z, mk = track(nl, p, P)
            judge_sets(ctx, f"length{L}", nl, p, P, z, mk, 1e-6 if nl < 3 else 2e-5)
            ctx.count(states=L * 3, transitions=3 * (L - 1), traces=3, evals=3 * L)
            ctx.outcome(f"length {L}")


C2 = [dict(s=.9, q=.3), dict(s=1., q=1.), dict(s=.6, q=2.5), dict(s=1.8, q=.05), dict(s=1.1, q=1e-3)]
C3 = [dict(s=1.2, q=.5, q3=.3, r3=.9, psi=1.9), dict(s=.7, q=1., q3=1., r3=1.1, psi=-.6), dict(s=1.7, q=2., q3=.05, r3=.5, psi=np.pi / 2),
      dict(s=1., q=.2, q3=.2, r3=1.2, psi=0.)]
PARTS = dict(paths1=_paths(1, [{}], 4, 7), paths2a=_paths(2, C2[:3], 4, 8), paths2b=_paths(2, C2[3:], 4, 8), paths3a=_paths(3, C3[:2], 3, 12),
             paths3b=_paths(3, C3[2:], 3, 12), fine2=_fine(2, C2), fine1=_fine(1, [{}]), fine3=_fine(3, C3), lengths=lengths)
