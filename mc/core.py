"""Exploration harness shared by all checks.

A check module provides  cases(tier) -> list[Case].  Every case is one point (or a whole
sub-space) of the explored space: a function run on the real code that reports what it
covered and every disagreement with its oracle.  All cases of a tier are always run (no
sampling); they are distributed over forked workers.  See DESIGN.md.
"""
from __future__ import annotations

import json, os, re, signal, subprocess, sys, tempfile, time, traceback, zlib
import importlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("GCONV_REPO", "/repo")

SEED = int(os.environ.get("VERIF_SEED", "1") or 1)

CASE_TIMEOUT = 240 if os.environ.get("VERIF_TIER", "quick") == "quick" else 900  # seconds; a case takes a few seconds when all is well
MAX_PRINTED = 5


class Case:
    def __init__(self, cid, fn, **params):
        self.id, self.fn, self.params = cid, fn, params


class CaseTimeout(BaseException):
    pass


class Ctx:
    """Handed to a case: counters, comparisons, seeded generators."""

    def __init__(self, case, tier):
        import numpy as np

        self.case, self.tier = case, tier
        self.states = self.transitions = self.traces = 0
        self.fails, self.samples, self.outcomes = [], [], set()
        self.rng = np.random.default_rng([SEED, zlib.crc32(case.id.encode())])
        self.nfail = 0

    @property
    def thorough(self):
        return self.tier == "thorough"

    def state(self, n=1):
        self.states += n

    def trans(self, n=1):
        self.transitions += n

    def trace(self, n=1):
        self.traces += n

    def outcome(self, key):
        self.outcomes.add(repr(key))

    def sample(self, obj):
        if len(self.samples) < 1:
            self.samples.append(obj)

    def fail(self, sig, msg):
        self.nfail += 1
        if len(self.fails) < 20 and not any(f[0] == sig for f in self.fails):
            self.fails.append((sig, str(msg)[:2000]))

    def check(self, cond, sig, msg=""):
        self.trans()
        if not cond:
            self.fail(sig, msg)
        return bool(cond)

    def close(self, got, want, sig, tol=1e-6, msg=""):
        """max |got - want| <= tol * max(1, max |want|), same shape, nothing NaN."""
        import numpy as np

        self.trans()
        g, w = to_np(got), to_np(want)
        if g.shape != w.shape:
            self.fail(sig, f"shape {g.shape} instead of {w.shape}; {msg}")
            return False
        if g.size == 0:
            return True
        if not np.isfinite(g).all():
            self.fail(sig, f"not finite: {int((~np.isfinite(g)).sum())} of {g.size}; {msg}")
            return False
        d = np.abs(g - w)
        scale = max(1.0, float(np.abs(w).max()))
        if not d.max() <= tol * scale:
            i = np.unravel_index(int(d.argmax()), d.shape)
            self.fail(sig, f"differs by {d.max():.3g} at {tuple(map(int, i))}: got {g[i]:.6g}, expected {w[i]:.6g}; {msg}")
            return False
        return True

    def same(self, got, want, sig, msg=""):
        """Bit for bit."""
        import numpy as np

        self.trans()
        g, w = to_np(got), to_np(want)
        if g.shape != w.shape or not np.array_equal(g, w, equal_nan=True):
            self.fail(sig, f"{msg}: changed" + (f" by {np.nanmax(np.abs(g - w)):.3g}" if g.shape == w.shape and g.size else f" shape {g.shape} vs {w.shape}"))
            return False
        return True

    def raises(self, fn, sig, msg="", exc=Exception):
        self.trans()
        try:
            r = fn()
        except exc:
            return True
        self.fail(sig, f"no error raised; {msg}; got {type(r).__name__}")
        return False


def to_np(x):
    import numpy as np

    if hasattr(x, "detach"):
        x = x.detach().cpu()
        x = x.double() if x.is_floating_point() else x
        x = x.numpy()
    x = np.asarray(x)
    return x.astype(np.float64) if x.dtype.kind in "iubf" else x


def setup_env():
    os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
    os.environ.setdefault("OMP_NUM_THREADS", "1")
    os.environ.setdefault("MPLCONFIGDIR", tempfile.gettempdir())
    sys.dont_write_bytecode = True
    for p in (REPO, os.path.join(VERIF, "mc")):
        if p in sys.path:
            sys.path.remove(p)
        sys.path.insert(0, p)
    import warnings

    warnings.filterwarnings("ignore")
    import torch

    torch.set_num_threads(1)
    return torch


def run_case(case, tier):
    import torch

    ctx = Ctx(case, tier)
    torch.manual_seed(zlib.crc32(case.id.encode()) ^ SEED)
    torch.set_default_dtype(torch.float32)

    def on_alarm(*_):
        raise CaseTimeout()

    signal.signal(signal.SIGALRM, on_alarm)
    signal.alarm(CASE_TIMEOUT)
    t0 = time.time()
    try:
        case.fn(ctx, **case.params)
    except CaseTimeout:
        ctx.fail("timeout", f"no answer within {CASE_TIMEOUT} s")
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = [f"{os.path.relpath(f.filename, REPO) if f.filename.startswith(REPO + '/') else os.path.basename(f.filename)}:{f.lineno}" for f in tb[-4:]]
        ctx.fail(f"exception:{type(e).__name__}", f"{e} [{' < '.join(reversed(where))}]")
    finally:
        signal.alarm(0)
    return {
        "id": case.id, "states": ctx.states, "transitions": ctx.transitions,
        "traces": ctx.traces or 1, "fails": ctx.fails, "nfail": ctx.nfail,
        "samples": ctx.samples, "outcomes": sorted(ctx.outcomes)[:200],
        "seconds": round(time.time() - t0, 3),
    }


def known_findings(prop):
    """known: {json}  lines of KNOWN_FINDINGS for this property."""
    out = []
    path = os.path.join(VERIF, "KNOWN_FINDINGS")
    if os.path.exists(path):
        for line in open(path):
            if line.startswith("known:"):
                k = json.loads(line[len("known:"):])
                if k["property"] == prop:
                    out.append(k)
    return out


def _worker(cases, idxs, tier, path):
    if not os.environ.get("MC_STDERR"):  # progress bars of the package
        os.dup2(os.open(os.devnull, os.O_WRONLY), 2)
    with open(path, "a", buffering=1) as f:
        for i in idxs:
            f.write(json.dumps({"start": i}) + "\n")
            f.write(json.dumps({"done": i, "r": run_case(cases[i], tier)}) + "\n")


def run_all(cases, tier, nproc, fail_fast=40):
    """Runs every case in forked workers; returns {index: result}."""
    results = {}
    tmp = tempfile.mkdtemp(prefix="gconv-mc-")
    try:
        # long cases are spread by interleaving; a dead worker's remaining cases are re-queued
        chunks = [list(range(k, len(cases), nproc)) for k in range(nproc)]
        procs, attempts, n = {}, {}, 0

        def spawn(idxs):
            nonlocal n
            path = os.path.join(tmp, f"w{n}")
            n += 1
            open(path, "w").close()
            sys.stdout.flush(); sys.stderr.flush()
            pid = os.fork()
            if pid == 0:
                code = 1
                try:
                    os.setpgid(0, 0)
                    _worker(cases, idxs, tier, path)
                    code = 0
                finally:
                    os._exit(code)
            procs[pid] = (path, idxs)

        for c in chunks:
            if c:
                spawn(c)
        stopped = False
        while procs:
            time.sleep(0.05)
            for pid in list(procs):
                path, idxs = procs[pid]
                done, status = os.waitpid(pid, os.WNOHANG)
                stale = time.time() - os.path.getmtime(path) > CASE_TIMEOUT + 60
                if not done and stale:
                    os.kill(pid, signal.SIGKILL)
                    done, status = os.waitpid(pid, 0)
                if not done:
                    continue
                del procs[pid]
                started = None
                for line in open(path):
                    d = json.loads(line)
                    if "start" in d:
                        started = d["start"]
                    else:
                        results[d["done"]] = d["r"]
                        started = None
                rest = [i for i in idxs if i not in results]
                if started is not None:  # died inside a case
                    attempts[started] = attempts.get(started, 0) + 1
                    if attempts[started] >= 2:
                        results[started] = {
                            "id": cases[started].id, "states": 0, "transitions": 0, "traces": 1,
                            "fails": [("died", f"the process died or hung (status {status})")],
                            "nfail": 1, "samples": [], "outcomes": [], "seconds": 0}
                        rest.remove(started)
                if rest and not stopped:
                    spawn(rest)
    finally:
        for f in os.listdir(tmp):
            os.unlink(os.path.join(tmp, f))
        os.rmdir(tmp)
    return results


def main(prop, module, tier, only=None, replay=None, nproc=None, verbose=False):
    t0 = time.time()
    setup_env()
    if replay:
        rp = json.load(open(replay))
        only, tier = rp["case"], rp["tier"]
        global SEED
        SEED = rp["seed"]
    mod = importlib.import_module(module)
    try:
        import gconv.gnn, gconv.geometry  # noqa: F401

        cases = mod.cases(tier)
    except Exception as e:  # the package cannot even be imported or its menus not be built
        err = f"{type(e).__name__}: {e}"

        def broken(ctx):
            raise RuntimeError(err)

        cases = [Case("setup", broken)]
        only = None
    ids = [c.id for c in cases]
    assert len(set(ids)) == len(ids), "duplicate case ids: " + str([i for i in ids if ids.count(i) > 1][:3])
    total = len(cases)
    if only:
        cases = [c for c in cases if c.id == only or (not replay and re.fullmatch(only, c.id))]
        if not cases:
            print("no such case", only)
            return 2
    # cases of a module share what it prepared once
    nproc = nproc or min(int(os.environ.get("MC_PROCS", 0)) or os.cpu_count() or 1, 8, max(1, len(cases)))
    res = run_all(cases, tier, nproc)

    kf = {(k["case"], k["signature"]): k for k in known_findings(prop)}
    known, bad = [], []
    for i, c in enumerate(cases):
        for sig, msg in res[i]["fails"]:
            k = kf.get((c.id, sig))
            (known if k else bad).append((c, sig, msg, k))
    seen = set()
    for c, sig, msg, k in known:
        line = f"KNOWN-FINDING: property={prop} {k['what']} [case {c.id}, {sig}]"
        if line not in seen:
            print(line)
        seen.add(line)

    if bad:
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
    for n, (c, sig, msg, _) in enumerate(bad[:MAX_PRINTED]):
        name = re.sub(r"[^A-Za-z0-9_.-]+", "_", f"{prop}-{c.id}")[:120]
        path = os.path.join(VERIF, "replays", name + ".json")
        with open(path, "w") as f:
            json.dump({"property": prop, "case": c.id, "tier": tier, "seed": SEED, "signature": sig,
                       "message": msg, "params": repr(c.params),
                       "replay": f"/opt/venv/bin/python {VERIF}/mc/run.py {prop} --replay {path}"}, f, indent=1)
        print(f"VIOLATION property={prop} replay={path}")
        print(f"  case {c.id}: {sig}: {msg}")
    if len(bad) > MAX_PRINTED:
        print(f"  ... and {len(bad) - MAX_PRINTED} more")

    rs = list(res.values())
    outcomes = set(o for r in rs for o in r["outcomes"])
    wall = time.time() - t0
    samples = []
    step = max(1, len(cases) // 6)
    for i in range(0, len(cases), step):
        samples.append({"case": cases[i].id, "params": repr(cases[i].params)[:300], "detail": res[i]["samples"][:1]})
    cov = {
        "states": sum(r["states"] for r in rs),
        "transitions": sum(r["transitions"] for r in rs),
        "traces_validated_against_impl": sum(r["traces"] for r in rs),
        "evaluations": len(cases),
        "samples": samples,
        "exhaustive": not only,
        "explanation": getattr(mod, "EXPLAIN", {}).get(prop, (mod.__doc__ or "").strip()),
        "distinct_outcomes": len(outcomes),
        "slowest": sorted(((r["seconds"], r["id"]) for r in rs), reverse=True)[:3],
    }
    if not only:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        ev = {"property": prop, "tier": tier, "seed": SEED, "level": "model_checking", "coverage": cov,
              "assumptions": getattr(mod, "ASSUME", []) + [f"bounds of tier {tier}: {total} cases, all run"],
              "wall_s": round(wall, 2), "violations": len(bad)}
        with open(os.path.join(VERIF, "evidence", f"{prop}.json"), "w") as f:
            json.dump(ev, f, indent=1)
    print(f"{prop} {tier}: cases={len(cases)} states={cov['states']} transitions={cov['transitions']} "
          f"traces={cov['traces_validated_against_impl']} outcomes={len(outcomes)} known={len(known)} "
          f"violations={len(bad)} wall={wall:.1f}s slowest={cov['slowest'][0]}")
    return 1 if bad else 0
