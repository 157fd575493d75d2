"""Contour stitching: every way of cutting small closed contours into segments, every storage order and direction."""
import itertools
import numpy as np
from mc.engine import internal, seam, Skip

PROPERTY = "P13"
LEVEL = "model_checking"
NEEDS_JAX = True
RULE = ("explicit enumeration of cut positions x segment directions x row orders x gaps at the cuts of small families of closed contours, and of all track words "
        "over {no image, parity +, parity -} x jumps up to a length; every final state (stitched contours) is compared with the uncut contours: signed area and point multiset")
ASSUMPTIONS = ["contours are sampled with steps below 0.05 and turn by less than 45 degrees per step; cuts lose at most one sample",
               "at most 3 open contours and 20 segments (the documented limits of the merge loop)",
               "no sample at exactly z = 0 (the buffers use zero as 'empty')",
               "direct calls of the private stitching functions; if they are renamed or get other arguments the part is skipped and only P12 judges them"]
SEG, CON = "microjax.caustics.extended_source.segments", "microjax.caustics.extended_source.contours"


def poly_area(c):
    return .5 * np.sum((np.conj(c) * np.roll(c, -1)).imag)


def ellipse(n, a, b, c=0, rot=0., ph=.37):
    t = 2 * np.pi * (np.arange(n) + ph) / n
    return c + np.exp(1j * rot) * (a * np.cos(t) + 1j * b * np.sin(t))


def banana(n, r, w, c=0, span=2.2, rot=0.):
    """closed crescent around an arc."""
    m = 4000
    t = np.linspace(-span / 2, span / 2, m)
    h = w * np.sqrt(np.maximum(0, 1 - (2 * t / span) ** 2))
    p = np.concatenate([(r + h) * np.exp(1j * t), ((r - h) * np.exp(1j * t))[::-1][1:-1]])
    s = np.concatenate([[0], np.cumsum(np.abs(np.diff(np.append(p, p[0]))))])
    x = np.interp((np.arange(n) + .4) / n * s[-1], s, np.arange(len(s)))
    p = np.append(p, p[0])
    return c + np.exp(1j * rot) * (np.interp(x, np.arange(len(p)), p.real) + 1j * np.interp(x, np.arange(len(p)), p.imag))


def pieces(c, cuts, gap):
    """cut the closed contour before the samples `cuts`; gap: 0 adjacent samples, 1 one sample lost at each cut, -1 the sample at the cut kept on both sides."""
    n, cuts = len(c), sorted(cuts)
    out = []
    for i, a in enumerate(cuts):
        b = cuts[(i + 1) % len(cuts)]
        L = (b - a) % n or n
        lo, hi = (1 if gap == 1 else 0), L + (1 if gap == -1 else 0)
        idx = [(a + j) % n for j in range(lo, hi)]
        out.append(c[idx])
    return out


def rows(segs, dirs, order, parity, slots, width, extra=()):
    """the canonical form handed to the merge loop: head at column 0, zeros behind."""
    R = np.zeros((slots, 2, width), complex)
    for k, i in enumerate(order):
        s, d = segs[i], dirs[i]
        R[k, 0, :len(s)] = s[::-1] if d else s
        R[k, 1, :len(s)] = -parity[i] if d else parity[i]
    return R


def runner(slots, width):
    import jax
    f = internal(CON, "_contours_from_open_segments")
    g = jax.jit(jax.vmap(lambda s: f(s)))
    return lambda R: tuple(np.asarray(x) for x in seam(g, R))


def total(C, p):
    """signed area of the returned contours and the points in them."""
    A, pts = 0., []
    for c, s in zip(C, p):
        k = np.flatnonzero(c != 0)
        if len(k) == 0:
            continue
        z = c[:k[-1] + 1]
        A += s * poly_area(z)
        pts.append(z[:-1] if abs(z[-1] - z[0]) == 0 else z)
    return A, np.concatenate(pts) if pts else np.zeros(0)


def same_points(a, b, tol=1e-12):
    if len(a) != len(b):
        return False
    k = lambda z: np.lexsort((np.round(z.imag, 9), np.round(z.real, 9)))
    return bool(np.all(np.abs(a[k(a)] - b[k(b)]) < tol))


def explore(ctx, name, states, slots, width, batch=512):
    """states: iterator of (label, rows, expected area, expected points)"""
    run = runner(slots, width)
    n = 0
    while True:
        chunk = list(itertools.islice(states, batch))
        if not chunk:
            break
        R = np.stack([c[1] for c in chunk] + [chunk[0][1]] * (batch - len(chunk)))
        C, P = run(R)
        for (lab, r, area, pts), c, p in zip(chunk, C, P):
            A, got = total(c, p)
            ok = abs(A - area) <= 1e-9 * max(1, abs(area)) and np.isfinite(A)
            ctx.expect(ok, f"{name}:{lab}:area", got=A, want=area)
            ctx.expect(same_points(got, pts), f"{name}:{lab}:points", got=len(got), want=len(pts))
            n += 1
        ctx.count(states=len(chunk), traces=len(chunk), evals=len(chunk), transitions=sum(int(np.any(c[1][:, 1] != 0, axis=1).sum()) for c in chunk))
    ctx.spaces.append(dict(space=name, size=n))
    return n


def shapes(ctx):
    # (name, contour, parity); steps stay below .05
    yield "circle", ellipse(26, .15, .15, .8 + .3j), 1
    yield "ellipse-", ellipse(32, .19, .1, -.5 + .1j, .6), -1
    yield "around-origin", ellipse(26, .17, .12, .0), 1
    yield "banana", banana(30, .3, .05, .2 - 1j, 1.6, .4), 1


def small(c, k, thorough):
    """cut positions: all, or a sub-lattice that still contains one-sample-apart, opposite and irregular pairs."""
    n = len(c)
    if k <= 1 or (k == 2):
        return itertools.combinations(range(n), k)
    pos = sorted({0, 2, 3, 5, n // 3, n // 2, n // 2 + 2, n - 6, n - 2} | (set(range(0, n, 2)) if thorough else set()))
    return itertools.combinations(pos, k)


def joints(segs):
    """ends to be joined turn by less than 50 degrees over the gap"""
    for i, a in enumerate(segs):
        b = segs[(i + 1) % len(segs)]
        u, v = a[-1] - a[-2], b[1] - b[0]
        if abs(b[0] - a[-1]) > .09 or abs(np.angle(v / u)) > np.radians(50):
            return False
    return True


def valid(segs):
    return all(len(s) >= 2 for s in segs) and joints(segs)


def one(ctx, which):
    """one contour: all cuts x directions x orders."""
    def states():
        for nm, c, par in shapes(ctx):
            if nm != which:
                continue
            for k in (1, 2, 3) + ((4,) if ctx.thorough else ()):
                for cuts in small(c, k, ctx.thorough):
                    for gap in (0, 1, -1):
                        segs = pieces(c, cuts, gap)
                        if not valid(segs):
                            continue
                        pts = np.concatenate(segs)
                        flat = np.concatenate(segs)
                        area = par * poly_area(flat)
                        for dirs in itertools.product((0, 1), repeat=k):
                            for order in itertools.permutations(range(k)) if k < 4 else [tuple(range(k)), tuple(range(k))[::-1], (2, 0, 3, 1)]:
                                yield (f"cuts={'+'.join(map(str, cuts))},gap={gap},dirs={''.join(map(str, dirs))},order={''.join(map(str, order))}",
                                       rows(segs, dirs, order, [par] * k, 6, 40), area, pts)
    n = explore(ctx, which, states(), 6, 40)
    ctx.sample(shape=which, states=n)


def cond_orders(k, thorough):
    al = list(itertools.permutations(range(k)))
    return al if thorough or k <= 3 else al[::max(1, len(al) // 6)]


def pair(ctx, which):
    """two contours side by side (also closer to each other than the largest distance at which ends are joined), all cut pairs of each."""
    fam = {"side-by-side": (ellipse(22, .12, .12, .5), 1, ellipse(22, .12, .12, .78), 1), "opposite-parity": (ellipse(22, .12, .1, .5), 1, ellipse(22, .1, .12, .76 + .02j), -1),
           "nested": (ellipse(30, .2, .2, 1j), 1, ellipse(20, .12, .12, 1j), -1), "far": (ellipse(20, .1, .1, -1.), -1, ellipse(24, .14, .1, 1. + 1j), 1)}[which]
    c1, p1, c2, p2 = fam
    def states():
        step = 1 if ctx.thorough else 3
        for cuts1 in itertools.combinations(range(0, len(c1), step), 2):
            for cuts2 in itertools.combinations(range(1, len(c2), 5 if not ctx.thorough else 4), 2):
                for gap in (0, 1):
                    s, s2 = pieces(c1, cuts1, gap), pieces(c2, cuts2, gap)
                    if not (valid(s) and valid(s2)):
                        continue
                    s = s + s2
                    area = p1 * poly_area(np.concatenate(s[:2])) + p2 * poly_area(np.concatenate(s[2:]))
                    for dirs in ((0, 0, 0, 0), (0, 1, 1, 0), (1, 1, 0, 1), (0, 1, 0, 1)) if not ctx.thorough else itertools.product((0, 1), repeat=4):
                        for order in ((0, 1, 2, 3), (2, 0, 3, 1), (3, 2, 1, 0)):
                            yield (f"cuts={cuts1[0]}+{cuts1[1]}|{cuts2[0]}+{cuts2[1]},gap={gap},dirs={''.join(map(str, dirs))},order={''.join(map(str, order))}",
                                   rows(s, dirs, order, [p1, p1, p2, p2], 8, 40), area, np.concatenate(s))
    ctx.sample(pair=which, states=explore(ctx, which, states(), 8, 40))


def many(ctx):
    """three contours, up to 20 segments in one contour, and rows in every rotation."""
    c = [ellipse(24, .13, .13, .5), ellipse(20, .1, .1, .8 + .6j), ellipse(22, .12, .1, -.7j)]
    pr = [1, -1, 1]
    def three():
        for ks in itertools.product((1, 2, 3), repeat=3):
            for sh in range(0, 20, 2 if ctx.thorough else 7):
                s, p = [], []
                area = 0
                for cc, q, k in zip(c, pr, ks):
                    seg = pieces(cc, [(sh + i * len(cc) // k) % len(cc) for i in range(k)], 0)
                    area += q * poly_area(np.concatenate(seg))
                    s += seg
                    p += [q] * k
                n = len(s)
                for word in range(4 if not ctx.thorough else 12):
                    dirs = [(word * 37 + i * (word + 1)) >> 1 & 1 for i in range(n)]
                    order = sorted(range(n), key=lambda i: ((i + 1) * (2 * word + 3)) % 11 + i / 100)
                    yield f"k={ks},shift={sh},word={word}".replace(" ", ""), rows(s, dirs, order, p, 10, 60), area, np.concatenate(s)
    explore(ctx, "three", three(), 10, 60)
    big = ellipse(60, .3, .25, .4 + .2j)
    def chop():
        for k in range(2, 21):
            for sh in range(0, 60, 1 if ctx.thorough else 4):
                cuts = [(sh + (i * 60) // k) % 60 for i in range(k)]
                s = pieces(big, cuts, 0)
                if not valid(s):
                    continue
                area = poly_area(np.concatenate([s[i] for i in range(k)]))
                for word in range(3 if not ctx.thorough else 8):
                    dirs = [(i * (word + 2) + word) // 2 & 1 for i in range(k)]
                    order = sorted(range(k), key=lambda i: (i * (2 * word + 5) + word) % 23 + i / 100)
                    yield f"k={k},shift={sh},word={word}", rows(s, dirs, order, [1] * k, 21, 70), area, np.concatenate(s)
    explore(ctx, "chop", chop(), 21, 70)
    ctx.sample(three=True)


def axis(ctx):
    """samples exactly on the coordinate axes, at every place of the contour relative to the cuts."""
    def states():
        for nm, c, par in (("imag", ellipse(24, .15, .15, 0, 0, 0.), 1), ("imag-offset", ellipse(24, .15, .12, .7j, 0, 0.), 1), ("real", ellipse(24, .15, .12, .6, 0, 0.), -1)):
            c = np.where(np.abs(c.real) < 1e-12, 0, c.real) + 1j * np.where(np.abs(c.imag) < 1e-12, 0, c.imag)
            for k in (1, 2):
                for cuts in itertools.combinations(range(24), k):
                    for gap in (0, 1, -1):
                        s = pieces(c, cuts, gap)
                        if not valid(s):
                            continue
                        area = par * poly_area(np.concatenate(s))
                        for dirs in itertools.product((0, 1), repeat=k):
                            for order in itertools.permutations(range(k)):
                                yield (f"{nm}:cuts={'+'.join(map(str, cuts))},gap={gap},dirs={''.join(map(str, dirs))},order={''.join(map(str, order))}", rows(s, dirs, order, [par] * k, 5, 40), area,
                                       np.concatenate(s))
    ctx.sample(axis=explore(ctx, "axis", states(), 5, 40))


def words(ctx):
    """splitting of an image track: all words over {no image, +, -} and all jump patterns."""
    import jax
    f = internal(SEG, "_process_segments")
    L = 7 if not ctx.thorough else 9
    g = jax.jit(jax.vmap(lambda s: f(s[None], 20)))
    js = [j for j in range(2 ** (L - 1)) if bin(j).count("1") <= (1 if not ctx.thorough else 2)]
    todo = [(w, j) for w in itertools.product((0, 1, -1), repeat=L) for j in js if any(w)]
    for b in range(0, len(todo), 4096):
        chunk = todo[b:b + 4096]
        Z = []
        for w, j in chunk:
            z = np.cumsum([1.5 + .7j] + [(.02 + .01j) + (.3 if j >> i & 1 else 0) for i in range(L - 1)])
            m = np.array(w) != 0
            Z.append(np.stack([z * m, np.array(w, complex), m.astype(complex)]))
        out = np.asarray(seam(g, np.stack(Z + [Z[0]] * (4096 - len(chunk)))))
        for (w, j), z, o in zip(chunk, Z, out):
            want = []
            i = 0
            while i < L:
                if w[i] == 0:
                    i += 1
                    continue
                k = i + 1
                while k < L and w[k] == w[i] and not j >> (k - 1) & 1:
                    k += 1
                want.append((w[i], tuple(z[0, i:k])))
                i = k
            want = [x for x in want if len(x[1]) > 1]
            got = []
            for s in o:
                k = np.flatnonzero(s[0] != 0)
                if len(k):
                    got.append((int(s[1, 0].real), tuple(s[0, :k[-1] + 1])))
            if len(want) <= 5:
                key = "".join("0+-"[x] for x in w) + f":jumps={j}"
                ctx.expect(sorted(want, key=str) == sorted(got, key=str), f"word:{key}", got=len(got), want=len(want))
                ctx.outcome(f"{len(want)} pieces")
            else:
                ctx.count(unjudged=1)
        ctx.count(states=len(chunk), evals=len(chunk), traces=len(chunk), transitions=len(chunk) * (L - 1))
    ctx.spaces.append(dict(space=f"track words of length {L} x jump patterns", size=len(todo)))
    ctx.sample(word=w, jumps=j)


def tracks(ctx):
    """the whole pipeline: contours laid out in image tracks as the solver delivers them (several pieces per track, parity-ordered direction), plus closed tracks."""
    import jax
    get = internal(SEG, "_get_segments")
    opened = internal(CON, "_contours_from_open_segments")
    closed = internal(CON, "_contours_from_closed_segments")
    N = 64
    def pipe(z, m, p):
        sc, so, allc = get(z, m, p, nlenses=2)
        return closed(sc) + opened(so) + (allc,)
    g = jax.jit(jax.vmap(pipe))
    cA, cB, ring = ellipse(40, .2, .15, .7 + .1j), ellipse(24, .12, .1, -.6 + .3j), None
    def states():
        for split in range(4, 37, 1 if ctx.thorough else 3):          # contour A = arc of parity + and arc of parity -, running in limb direction
            for offA, offB in itertools.product(range(0, N - 40, 6 if ctx.thorough else 11), repeat=2):
                for perm in ((0, 1, 2, 3, 4), (4, 3, 2, 1, 0), (2, 0, 4, 1, 3)):
                    for mode in ("rows", "one-row", "wrap"):
                        for closedB in (False, True):
                            z, m, p = np.zeros((5, N), complex), np.zeros((5, N), bool), np.zeros((5, N))
                            def put(r, o, seg, par):
                                idx = [(o + i) % N for i in range(len(seg))]
                                if m[r, idx].any():
                                    return False
                                z[r, idx], m[r, idx], p[r, idx] = seg, True, par
                                return True
                            a, b = cA[:split], cA[split:][::-1]
                            ok = put(perm[0], N - split // 2 if mode == "wrap" else offA, a, 1)
                            ok &= put(perm[0] if mode == "one-row" else perm[1], (offA + split if mode == "one-row" else offB), b, -1)
                            area = poly_area(cA)
                            if closedB:
                                t = 2 * np.pi * np.arange(N) / (N - 1)
                                zb = -.6 + .3j + .12 * np.cos(t) + .1j * np.sin(t)
                                zb[-1] = zb[0]
                                ok &= put(perm[4], 0, zb, -1)
                                area -= poly_area(zb[:-1])
                                nB = 0
                            else:
                                h = 12
                                ok &= put(perm[2], offB, cB[:h][::-1], 1) and put(perm[3], offA, cB[h:], -1)
                                area -= poly_area(cB)
                            if ok:
                                yield f"split={split},off={offA}+{offB},perm={''.join(map(str, perm))},{mode},closedB={int(closedB)}", z, m, p, area
    it = states()
    n = 0
    while True:
        chunk = list(itertools.islice(it, 256))
        if not chunk:
            break
        st = [np.stack([c[i] for c in chunk] + [chunk[0][i]] * (256 - len(chunk))) for i in (1, 2, 3)]
        c1, p1, c2, p2, allc = (np.asarray(x) for x in seam(g, *st))
        for i, c in enumerate(chunk):
            A1 = sum(s * poly_area(x[:-1]) for x, s in zip(c1[i], p1[i]) if s)
            A2 = total(c2[i], p2[i])[0]
            ctx.expect(abs(A1 + A2 - c[4]) < 1e-9, f"tracks:{c[0]}", got=A1 + A2, want=c[4])
            ctx.expect(not allc[i], f"tracks:{c[0]}:all-closed")
        n += len(chunk)
        ctx.count(states=len(chunk), evals=len(chunk), traces=len(chunk), transitions=4 * len(chunk))
    # only closed tracks
    t = 2 * np.pi * np.arange(N) / (N - 1)
    for par in itertools.product((1, -1), repeat=5):
        z = np.array([c + r * np.exp(1j * t) for c, r in ((0, .3), (1, .1), (1j, .2), (-1, .15), (-1j, .05))])
        z[:, -1] = z[:, 0]
        m = np.ones((5, N), bool)
        p = np.array(par)[:, None] * np.ones((5, N))
        o = seam(jax.jit(pipe), z, m, p)
        A = sum(s * poly_area(x[:-1]) for x, s in zip(np.asarray(o[0]), np.asarray(o[1])))
        ctx.expect(abs(A - sum(q * poly_area(x[:-1]) for x, q in zip(z, par))) < 1e-9 and bool(o[4]), f"closed:{par}".replace(" ", ""), got=A)
        ctx.count(states=1, evals=1)
    ctx.spaces.append(dict(space="layouts of two contours in five tracks", size=n))
    ctx.sample(tracks=n)


PARTS = dict(words=words, tracks=tracks, axis=axis, many=many, **{s: (lambda ctx, s=s: one(ctx, s)) for s in ("circle", "ellipse-", "around-origin", "banana")},
             **{"pair-" + s: (lambda ctx, s=s: pair(ctx, s)) for s in ("side-by-side", "opposite-parity", "nested", "far")})
