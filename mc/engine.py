"""Bounded-exhaustive exploration engine.

A *check* (module checks/pNN.py) declares PROPERTY, LEVEL, RULE, ASSUMPTIONS and
PARTS = {name: function(ctx)}.  Every part enumerates a finite space completely
(Cartesian lattices via ctx.lattice, histories / state graphs via ctx.bfs,
choice trees via ctx.paths), runs the real code of /repo on each element and
compares with a reference model.  Parts run in separate processes; the parent
merges the counts, matches violations against known_findings.txt, writes the
evidence file and prints the verdict.
"""
import importlib, itertools, json, os, subprocess, sys, time, traceback, hashlib, math
import numpy as np

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO_SRC = os.environ.get("MC_REPO_SRC", "/repo/src")
KNOWN = os.path.join(VERIF, "known_findings.txt")


class Skip(Exception):
    """an internal seam used by a part no longer exists (refactored): nothing to judge there."""


def jsonable(x):
    if isinstance(x, (str, bool, int, type(None))):
        return x
    if isinstance(x, float):
        return x if math.isfinite(x) else repr(x)
    if isinstance(x, complex):
        return f"{x.real!r}{x.imag:+.17g}j"
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple, set)):
        return [jsonable(v) for v in x]
    if hasattr(x, "tolist"):
        return jsonable(np.asarray(x).tolist())
    return repr(x)


class Ctx:
    MAXV = 40

    def __init__(self, prop, part, tier, seed):
        self.prop, self.part, self.tier, self.seed = prop, part, tier, seed
        self.thorough = tier == "thorough"
        self.n = dict(states=0, transitions=0, traces=0, evals=0, compared=0, unjudged=0)
        self.outcomes = {}
        self.violations = []
        self.nviol = 0
        self.samples = []
        self.spaces = []
        self.skipped = []
        self.worst = {}
        self.capped = []
        self.known = {k for p, k in load_known() if p == prop}
        self.listed = {}

    # ---- enumeration -----------------------------------------------------
    def lattice(self, name, **dims):
        """complete Cartesian product of the named dimensions, as a list of dicts."""
        keys = list(dims)
        out = [dict(zip(keys, v)) for v in itertools.product(*[list(dims[k]) for k in keys])]
        self.spaces.append(dict(space=name, size=len(out), dims={k: len(list(dims[k])) for k in keys}))
        return out

    def paths(self, name, alphabet, depth):
        """all action sequences up to the depth (a full choice tree)."""
        out = []
        for d in range(depth + 1):
            out += [tuple(p) for p in itertools.product(alphabet, repeat=d)]
        self.spaces.append(dict(space=name, size=len(out), alphabet=len(alphabet), depth=depth))
        self.n["transitions"] += len(out) - 1
        self.n["states"] += len(out)
        return out

    def bfs(self, name, init, actions, step, canon, invariant, depth=None):
        """explicit-state breadth-first search; `step(state, action)` runs the real code."""
        import collections
        seen = {canon(s): 0 for s in init}
        fr = collections.deque((s, (i,), 0) for i, s in enumerate(init))
        for s in init:
            invariant(s, ())
        tr, md = 0, 0
        while fr:
            s, hist, d = fr.popleft()
            if depth is not None and d >= depth:
                continue
            for a in actions(s):
                t = step(s, a)
                tr += 1
                if t is None:
                    continue
                invariant(t, hist + (a,))
                k = canon(t)
                if k not in seen:
                    seen[k] = d + 1
                    md = max(md, d + 1)
                    fr.append((t, hist + (a,), d + 1))
        self.n["states"] += len(seen)
        self.n["transitions"] += tr
        self.spaces.append(dict(space=name, states=len(seen), transitions=tr, max_depth=md))
        return seen

    def count(self, **kw):
        for k, v in kw.items():
            self.n[k] = self.n.get(k, 0) + int(v)

    def outcome(self, label, k=1):
        label = str(label)
        self.outcomes[label] = self.outcomes.get(label, 0) + int(k)

    def sample(self, **kw):
        if len(self.samples) < 6:
            self.samples.append(jsonable(kw))

    # ---- judging ---------------------------------------------------------
    def fail(self, key, **detail):
        key = str(key).replace(" ", "")
        if key in self.known:                      # a recorded finding: reported, but not an alarm
            self.listed.setdefault(key, jsonable(detail))
            return
        self.nviol += 1
        if len(self.violations) < self.MAXV:
            self.violations.append(dict(key=key, part=self.part, detail=jsonable(detail)))

    def expect(self, ok, key, **detail):
        self.n["compared"] += 1
        if not bool(ok):
            self.fail(key, **detail)

    def close(self, key, got, want, rtol=0.0, atol=0.0, labels=None, mask=None, finite=True, **detail):
        """elementwise |got-want| <= atol + rtol*|want|; non-finite `got` where `want` is finite fails."""
        got = np.asarray(got)
        want = np.asarray(want)
        if got.shape != want.shape:
            try:
                want = np.broadcast_to(want, got.shape)
            except Exception:
                self.n["compared"] += 1
                self.fail(key + ":shape", got_shape=list(got.shape), want_shape=list(want.shape), **detail)
                return False
        with np.errstate(all="ignore"):
            err = np.abs(got - want)
            lim = atol + rtol * np.abs(want)
            bad = ~(err <= lim)
            bad &= ~(got == want)
        if mask is not None:
            bad &= np.broadcast_to(np.asarray(mask, bool), bad.shape)
            cnt = int(np.sum(np.broadcast_to(np.asarray(mask, bool), bad.shape)))
        else:
            cnt = bad.size
        self.n["compared"] += cnt
        with np.errstate(all="ignore"):
            r = err / np.where(lim > 0, lim, 1)
            if mask is not None:
                r = np.where(np.broadcast_to(np.asarray(mask, bool), r.shape), r, 0)
            r = np.where((got == want), 0, r)
            w = float(np.nanmax(r)) if r.size else 0.0
        kk = key.split("@")[0]
        self.worst[kk] = max(self.worst.get(kk, 0.0), w)
        if bad.any():
            for i in list(zip(*np.nonzero(np.atleast_1d(bad))))[:4]:
                g = np.atleast_1d(got)[i]
                w_ = np.atleast_1d(want)[i]
                lab = ""
                if labels is not None:
                    j = i[0] if len(i) == 1 else i
                    try:
                        lab = labels[j] if not isinstance(j, tuple) else labels[j[-1]]
                    except Exception:
                        lab = str(i)
                self.fail(f"{key}{'@' + str(lab) if lab != '' else ''}", index=[int(v) for v in i],
                          got=g.item() if hasattr(g, "item") else g, want=w_.item() if hasattr(w_, "item") else w_,
                          nbad=int(bad.sum()), **detail)
            return False
        return True

    def call(self, key, fn, *a, **k):
        """run code under test: an exception is an observable failure."""
        try:
            return fn(*a, **k)
        except Skip:
            raise
        except Exception as e:
            self.fail(key + ":raised", error=f"{type(e).__name__}: {e}"[:600], trace=traceback.format_exc()[-1500:])
            return None

    def result(self):
        return dict(listed=self.listed, part=self.part, n=self.n, outcomes=self.outcomes, violations=self.violations, nviol=self.nviol,
                    samples=self.samples, spaces=self.spaces, skipped=self.skipped, worst=self.worst,
                    capped=self.capped)


def internal(modname, attr):
    """fetch an internal seam; Skip when a refactoring removed it."""
    try:
        m = importlib.import_module(modname)
    except ModuleNotFoundError:
        raise Skip(f"{modname} not present")
    if not hasattr(m, attr):
        raise Skip(f"{modname}.{attr} not present")
    return getattr(m, attr)


def seam(fn, *a, **k):
    """call an internal seam; a call that does not fit its signature (any more), or that
    unpacks to something else, is a refactored seam: Skip.  Errors raised deeper are real."""
    try:
        return fn(*a, **k)
    except TypeError as e:
        tb = e.__traceback__
        if tb.tb_next is None:
            raise Skip(f"{getattr(fn, '__module__', '?')}.{getattr(fn, '__name__', '?')} has another signature: {e}")
        import inspect
        try:
            inspect.signature(fn).bind(*a, **k)
        except TypeError:
            raise Skip(f"{getattr(fn, '__module__', '?')}.{getattr(fn, '__name__', '?')} has another signature: {e}")
        except ValueError:
            pass
        raise


# ------------------------------------------------------------------------ worker
def setup_jax():
    sys.path.insert(0, REPO_SRC)
    import jax
    jax.config.update("jax_enable_x64", True)
    jax.config.update("jax_platforms", "cpu")
    import microjax
    f = os.path.realpath(os.path.dirname(microjax.__file__))
    assert f.startswith(os.path.realpath(REPO_SRC)), f"wrong microjax imported: {f}"


def run_part(prop, part, tier, seed, out):
    mod = importlib.import_module(f"checks.{prop.lower()}")
    ctx = Ctx(prop, part, tier, seed)
    t0 = time.time()
    if getattr(mod, "NEEDS_JAX", True):
        try:
            setup_jax()
        except AssertionError:
            raise
        except Exception as e:
            ctx.fail("import:raised", error=f"{type(e).__name__}: {e}"[:600])
            r = ctx.result(); r["wall"] = time.time() - t0
            json.dump(r, open(out, "w"))
            return
    np.seterr(all="ignore")
    try:
        mod.PARTS[part](ctx)
    except Skip as e:
        ctx.skipped.append(str(e))
    except Exception as e:
        # an exception that passes through the code under test is an observable failure of it;
        # anything else is an error of the check
        frames = [os.path.realpath(f.filename) for f in traceback.extract_tb(e.__traceback__)]
        root = os.path.realpath(REPO_SRC)
        if any(f.startswith(root) for f in frames) or (isinstance(e, ImportError) and "microjax" in str(e)):
            ctx.fail(f"{part}:raised", error=f"{type(e).__name__}: {e}"[:600], trace=traceback.format_exc()[-2500:])
        else:
            raise
    r = ctx.result()
    r["wall"] = time.time() - t0
    json.dump(r, open(out, "w"))


# ------------------------------------------------------------------------ parent
def load_known():
    known = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if line.startswith("finding:"):
                tok = line[len("finding:"):].split()
                d = dict(t.split("=", 1) for t in tok[:2])
                known[(d["property"], d["key"])] = " ".join(tok[2:])
    return known


def main(prop, tier, only=None):
    t0 = time.time()
    sys.path.insert(0, VERIF)
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    mod = importlib.import_module(f"checks.{prop.lower()}")
    evdir = os.path.join(VERIF, "evidence")
    os.makedirs(evdir, exist_ok=True)
    import tempfile, shutil
    tmp = tempfile.mkdtemp(prefix=f"mc_{prop}_")
    names = [p for p in mod.PARTS if only is None or p in only]
    maxp = int(os.environ.get("MC_JOBS", getattr(mod, "JOBS", 8)))
    env = dict(os.environ)
    env.setdefault("JAX_PLATFORMS", "cpu")
    env["PYTHONDONTWRITEBYTECODE"] = "1"
    env["PYTHONHASHSEED"] = "0"
    env["PYTHONPATH"] = VERIF
    env["MPLBACKEND"] = "Agg"
    threads = max(1, 8 // max(1, min(maxp, len(names))))
    env["OMP_NUM_THREADS"] = str(threads)
    env["OPENBLAS_NUM_THREADS"] = str(threads)
    pend, run, res, errs = list(names), [], [], []
    while pend or run:
        while pend and len(run) < maxp:
            p = pend.pop(0)
            o = os.path.join(tmp, p + ".json")
            lg = open(os.path.join(tmp, p + ".log"), "w+")
            pr = subprocess.Popen([sys.executable, "-m", "mc.engine", "--worker", prop, p, tier, str(seed), o],
                                  cwd=VERIF, env=env, stdout=lg, stderr=subprocess.STDOUT)
            run.append((p, pr, o, lg))
        time.sleep(0.05)
        for r in list(run):
            if r[1].poll() is not None:
                run.remove(r)
                if r[1].returncode == 0 and os.path.exists(r[2]):
                    res.append(json.load(open(r[2])))
                else:
                    r[3].seek(0)
                    errs.append((r[0], r[1].returncode, r[3].read()[-4000:]))
                r[3].close()
    shutil.rmtree(tmp, ignore_errors=True)
    res.sort(key=lambda r: names.index(r["part"]))
    n = {}
    outc, viol, samples, spaces, skipped, worst, capped = {}, [], [], [], [], {}, []
    nv = 0
    for r in res:
        for k, v in r["n"].items():
            n[k] = n.get(k, 0) + v
        for k, v in r["outcomes"].items():
            outc[f"{r['part']}:{k}"] = v
        viol += r["violations"]
        nv += r["nviol"]
        samples += [dict(part=r["part"], case=s) for s in r["samples"][:2]]
        spaces += [dict(part=r["part"], **s) for s in r["spaces"]]
        skipped += [dict(part=r["part"], why=s) for s in r["skipped"]]
        capped += [dict(part=r["part"], cap=s) for s in r["capped"]]
        for k, v in r["worst"].items():
            worst[f"{r['part']}:{k}"] = float(f"{v:.3g}") if math.isfinite(v) else repr(v)
    known = load_known()
    new, listed = viol, {}
    for r in res:
        for k, v in r["listed"].items():
            listed[(prop, k)] = v
    level = mod.LEVEL
    cov = dict(exhaustive=not capped and not errs, spaces=spaces, samples=samples or [dict(note="no sample")],
               comparisons=n.get("compared", 0), unjudged=n.get("unjudged", 0), distinct_outcomes=len(outc),
               outcomes=outc, worst_error_over_tolerance=worst, skipped=skipped, capped=capped,
               part_wall_s={r["part"]: round(r["wall"], 1) for r in res})
    if level == "model_checking":
        cov.update(states=n.get("states", 0), transitions=n.get("transitions", 0),
                   traces_validated_against_impl=n.get("traces", 0), rule=mod.RULE, evaluations=n.get("evals", 0))
    else:
        cov.update(evaluations=n.get("evals", 0), distinct_nontrivial=n.get("compared", 0), rule=mod.RULE)
    ev = dict(property=prop, tier=tier, seed=seed, level=level, coverage=cov, assumptions=mod.ASSUMPTIONS,
              wall_s=round(time.time() - t0, 2), violations=len(new))
    json.dump(ev, open(os.path.join(evdir, f"{prop}.json"), "w"), indent=1)
    for (p, k), v in listed.items():
        print(f"KNOWN-FINDING: property={p} {k} {known[(p, k)]}")
    if new:
        rdir = os.path.join(evdir, "replay")
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, f"{prop}.json")
        json.dump(dict(property=prop, tier=tier, seed=seed, total=nv,
                       replay_cmd=f"cd {VERIF} && ./check {prop} {tier} --part " + ",".join(sorted({v['part'] for v in new})),
                       violations=new), open(path, "w"), indent=1)
        for v in new[:8]:
            print(f"  [{v['part']}] {v['key']} {json.dumps(v['detail'])[:300]}")
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    if errs:
        for p, rc, tail in errs:
            print(f"ERROR part {p} rc={rc}\n{tail}")
        return 2
    print(f"OK property={prop} tier={tier} states={n.get('states',0)} transitions={n.get('transitions',0)} "
          f"evals={n.get('evals',0)} compared={n.get('compared',0)} unjudged={n.get('unjudged',0)} "
          f"outcomes={len(outc)} wall={time.time()-t0:.1f}s")
    return 0


if __name__ == "__main__":
    if sys.argv[1] == "--worker":
        sys.path.insert(0, VERIF)
        run_part(sys.argv[2], sys.argv[3], sys.argv[4], int(sys.argv[5]), sys.argv[6])
    else:
        prop = sys.argv[1]
        tier = sys.argv[2] if len(sys.argv) > 2 and not sys.argv[2].startswith("-") else os.environ.get("VERIF_TIER", "quick")
        only = None
        if "--part" in sys.argv:
            only = sys.argv[sys.argv.index("--part") + 1].split(",")
        sys.exit(main(prop, tier, only))
