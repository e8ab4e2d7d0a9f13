"""C24: product of metrics x grid sizes x steps x step sizes x noise scales x noise answers x energies x in-place,
lock-step with a reference gradient descent (own metrics, double precision); all call sequences up to a depth from an
alphabet that includes failing calls and other gradient modes; all orders of the elements."""
import importlib, itertools, math
import numpy as np
from core import Case, to_np
from lib import T
from rng import Answers, NORMAL


# ------------------------------------------------- metrics: (library arguments, reference distance matrix)

def unit_angle(u, v):
    """Angle between unit vectors, differentiable and accurate away from 0 and pi."""
    import torch

    d = (u * v).sum(-1)
    return torch.acos(d.clamp(-1 + 1e-12, 1 - 1e-12))


def s2_vec(g):
    import torch

    return torch.stack((torch.cos(g[..., 1]) * torch.sin(g[..., 0]), torch.sin(g[..., 1]) * torch.sin(g[..., 0]), torch.cos(g[..., 0])), -1)


def qmul(a, b):
    import torch

    w1, x1, y1, z1 = a.unbind(-1)
    w2, x2, y2, z2 = b.unbind(-1)
    return torch.stack((w1 * w2 - x1 * x2 - y1 * y2 - z1 * z2, w1 * x2 + x1 * w2 + y1 * z2 - z1 * y2,
                        w1 * y2 - x1 * z2 + y1 * w2 + z1 * x2, w1 * z2 + x1 * y2 - y1 * x2 + z1 * w2), -1)


def euler_quat(e):
    """R = Rz(gamma) Ry(beta) Rz(alpha)."""
    import torch

    def q(t, i):
        v = [torch.cos(t / 2)] + [torch.zeros_like(t)] * 3
        v[1 + i] = torch.sin(t / 2)
        return torch.stack(v, -1)
    a, b, g = e.unbind(-1)
    return qmul(qmul(q(g, 2), q(b, 1)), q(a, 2))


def metric(name):
    """(metric_fn, transform_fn, reference (N, D) -> (N, N), dimension, diameter of the normalised metric)."""
    import torch
    from gconv.geometry import so2, so3
    s2 = importlib.import_module("gconv.geometry.groups.s2")

    def off(f):
        """Distance matrix with nothing differentiated on the diagonal."""
        def m(g):
            n = len(g)
            i, j = np.where(~np.eye(n, dtype=bool))
            out = torch.zeros(n, n, dtype=g.dtype)
            out[i, j] = f(g[i], g[j])
            return out
        return m

    ident = lambda x: x
    return {
        "default": (None, None, off(lambda a, b: (a - b).pow(2).sum(-1).sqrt()), 3),
        "euclid": (lambda x, y: torch.linalg.norm(x - y, dim=-1), ident, off(lambda a, b: (a - b).pow(2).sum(-1).sqrt()), 2),
        "l1": (lambda x, y: (x - y).abs().sum(-1), ident, off(lambda a, b: (a - b).abs().sum(-1)), 3),
        "s2": (s2.geodesic_distance_s2, s2.spherical_to_euclid, off(lambda a, b: unit_angle(s2_vec(a), s2_vec(b))), 2),
        "so3": (so3.geodesic_distance, so3.euler_to_quat, off(lambda a, b: torch.acos((euler_quat(a) * euler_quat(b)).sum(-1).abs().clamp(max=1 - 1e-12))), 3),
        "so2": (so2.geodesic_distance, ident, off(lambda a, b: unit_angle(torch.cat((torch.cos(a), torch.sin(a)), -1), torch.cat((torch.cos(b), torch.sin(b)), -1))), 1),
        "double cover": (s2.geodesic_distance_s2, lambda g: s2.spherical_to_euclid(g * 2), off(lambda a, b: unit_angle(s2_vec(2 * a), s2_vec(2 * b))), 2),
    }[name]


METRICS = ("default", "euclid", "l1", "s2", "so3", "so2", "double cover")


def energies():
    import torch
    from gconv.geometry import repulsion

    return {"default": (None, lambda d: d ** -2), "columb": (repulsion.columb_energy, lambda d: d ** -2), "k1": (lambda d: repulsion.columb_energy(d, 1), lambda d: d ** -1),
            "k3": (lambda d: repulsion.columb_energy(d, k=3), lambda d: 1 / (d * d * d)),
            "exp": (lambda d: torch.exp(-d), lambda d: torch.exp(-d))}


STARTS = 3


def start(name, n, i):
    """Generic, well separated starting grids."""
    d = metric(name)[3]
    rng = np.random.default_rng([24, n, i, d])
    best = None
    for _ in range(40):
        g = rng.uniform(0.4, 2.6, (n, d)) if d > 1 else rng.uniform(0, 6.2, (n, 1))
        if n < 2:
            return g
        D = to_np(metric(name)[2](T(g)))
        off = D[~np.eye(n, dtype=bool)]
        q = min(off.min(), 0.5) + 0.2 * float(off.max() < 1.3)
        if best is None or q > best[0]:
            best = (q, g)
    return best[1]


def noise(vals, n, d, steps):
    it = itertools.cycle(vals)
    return np.array([next(it) for _ in range(n * d * steps)]).reshape(steps, n, d)


def ref_energy(name, energy, c, g):
    D = metric(name)[2](g)
    n = len(g)
    i, j = np.where(~np.eye(n, dtype=bool))
    return energies()[energy][1](D[i, j] / c).mean()


def reference(name, g0, steps, lr, alpha, c, energy, vals):
    import torch

    g = T(g0)
    n, d = g.shape
    z = noise(vals, n, d, steps)
    for e in range(steps):
        if n > 1:
            v = g.clone().requires_grad_(True)
            (grad,) = torch.autograd.grad(ref_energy(name, energy, c, v), v)
        else:
            grad = torch.zeros_like(g)
        g = g - lr * (grad + (steps - e) / steps * alpha * T(z[e]))
    return g


def call(name, g, energy="default", **kw):
    from gconv.geometry import repulsion

    m, t, _, _ = metric(name)
    if m is not None:
        kw.setdefault("metric_fn", m)
        kw.setdefault("transform_fn", t)
    if energies()[energy][0] is not None:
        kw["energy_fn"] = energies()[energy][0]
    kw.setdefault("show_pbar", False)
    return repulsion.repulse(g, **kw)


def contract(ctx, g, before, r, in_place, what):
    import torch

    ctx.check(r.shape == before.shape and r.dtype == before.dtype, "another shape or precision", f"{what}: {tuple(r.shape)} {r.dtype}")
    ctx.check(not r.requires_grad and r.grad_fn is None, "requires a gradient", what)
    if in_place:
        ctx.check(r.data_ptr() == g.data_ptr() or not r.numel(), "not in place", what)
        ctx.same(g.detach(), r, "not in place", what)
        ctx.check(not g.requires_grad, "the grid requires a gradient", what)
    else:
        ctx.same(g.detach(), before, "the given grid changed", what)
        ctx.check(not r.numel() or r.data_ptr() != g.data_ptr(), "shares memory with the given grid", what)
        ctx.check(g.grad is None, "leaves a gradient on the given grid", what)


def descent(ctx, name, n, energy, full):
    import torch

    steps_menu = (0, 1, 2, 3, 5) if full else (0, 1, 3)
    for i in range(STARTS if full else 1):
        g0 = start(name, n, i)
        for steps, lr, alpha, c, in_place, dt in itertools.product(
                steps_menu, (0.0, 0.01, 0.03), (0.0, 0.001, 0.5), (1, math.pi / 2) if full else (1, 2.5), (False, True), (torch.float64, torch.float32)):
            if name in ("so2", "l1") and dt == torch.float32:
                continue  # so2's metric has no finite gradient on the diagonal in single precision
            for vals in (NORMAL[5], NORMAL[8]) if full and alpha else (NORMAL[5],):
                g = T(g0, dt)
                before = g.clone()
                kw = dict(steps=steps, step_size=lr, alpha=alpha, dist_normalization_constant=c, in_place=in_place)
                if alpha == 0.001 and not full:
                    kw.pop("alpha")  # the default
                with Answers([0.5], vals):
                    r = call(name, g, energy, **kw)
                what = f"steps={steps} step_size={lr} alpha={alpha} constant={c:.2f} {'in place ' if in_place else ''}{dt} start {i}"
                contract(ctx, g, before, r, in_place, what)
                want = reference(name, g0, steps, lr, alpha, c, energy, vals)
                ctx.close(r, want, "not the described descent", 1e-6 if dt == torch.float64 else 2e-3, what)
                if steps == 0 or lr == 0:
                    ctx.same(r, before, "moves without a step", what)
                ctx.state(max(steps, 1))
        ctx.trace()
    ctx.sample({"metric": name, "n": n, "start": g0.round(3).tolist()})


def robust(ctx, name, n, full):
    """Large steps and extreme noise on compact metrics: finite, same shape; duplicates of the defaults."""
    import torch

    for steps, lr, vals, in_place, dt, i in itertools.product((0, 1, 2, 10), (0.1, 1.0, 10.0) if full else (10.0,), NORMAL if full else NORMAL[1::2], (False, True), (torch.float32, torch.float64), (0, 1)):
        if name == "so2" and dt == torch.float32:
            continue
        g = T(start(name, n, i).reshape(n, -1), dt)
        before = g.clone()
        with Answers([0.5], vals):
            try:
                r = call(name, g, steps=steps, step_size=lr, alpha=0.5, in_place=in_place)
            except Exception as e:
                ctx.fail("fails", f"n={n} steps={steps} step_size={lr}: {type(e).__name__} {e}")
                continue
        what = f"n={n} steps={steps} step_size={lr} noise={vals} {dt}"
        contract(ctx, g, before, r, in_place, what)
        ctx.check(bool(torch.isfinite(r).all()), "not finite", what)
        ctx.state()
    # defaults of every argument
    g = T(start(name, n, 0), torch.float64)
    m, t, _, _ = metric(name)
    from gconv.geometry import repulsion
    with Answers([0.5], NORMAL[5]):
        a = repulsion.repulse(g) if m is None else repulsion.repulse(g, metric_fn=m, transform_fn=t)
    with Answers([0.5], NORMAL[5]):
        b = call(name, g, steps=200, step_size=10, alpha=0.001, dist_normalization_constant=1, in_place=False, energy="columb")
    ctx.check(bool(torch.isfinite(a).all()) and a.shape == g.shape, "not finite", f"defaults n={n}")
    ctx.same(a, b, "defaults are not the documented ones", f"n={n}")
    ctx.trace()


def order(ctx, name, n):
    """No noise: relabelling the elements relabels the result; each call repeats exactly."""
    import torch

    g0 = T(start(name, n, 1))
    kw = dict(steps=4, step_size=0.02, alpha=0.0)
    base = call(name, g0, **kw)
    ctx.close(call(name, g0, **kw), base, "not deterministic", 0, "")
    for p in itertools.permutations(range(n)):
        for in_place in (False, True):
            ctx.close(call(name, g0[list(p)].clone(), in_place=in_place, **kw), base[list(p)], "elements lose their order", 1e-9, str(p))
            ctx.state()
    for vals in NORMAL:
        with Answers([0.5], vals):
            ctx.close(call(name, g0, **kw), base, "not deterministic without noise", 0, str(vals))
        ctx.state()
    ctx.close(call(name, g0, **dict(kw, show_pbar=True)), base, "progress bar changes the result", 0, "")
    for dt in (torch.float64, torch.float32):
        torch.set_default_dtype(dt)
        try:
            ctx.close(call(name, g0, **kw), base, "default precision changes the result", 1e-12, "")
        finally:
            torch.set_default_dtype(torch.float32)
    ctx.trace()


def lowers(ctx, name, n, smax):
    import torch

    for i in range(STARTS):
        g0 = T(start(name, n, i))
        for energy, c in (("default", 1), ("k1", 2.0), ("exp", 1)):
            last = float(ref_energy(name, energy, c, g0))
            first = last
            for s in range(1, smax + 1):
                r = call(name, g0, energy, steps=s, step_size=2e-3, alpha=0.0, dist_normalization_constant=c)
                e = float(ref_energy(name, energy, c, r))
                ctx.check(e <= last + 1e-9 * abs(last), "energy rises", f"start {i} {energy} step {s}: {last} -> {e}")
                last = e
                ctx.state()
            ctx.check(last < first - 1e-9, "energy is not lowered", f"start {i} {energy}: {first} -> {last}")
    ctx.trace()


def long(ctx, name, n):
    """Many steps: nothing about a step depends on how many there are, apart from the noise scale."""
    import torch

    g0 = start(name, n, 0)
    for steps, alpha, in_place in itertools.product((20, 50, 64, 99, 100, 101, 128, 150, 200, 201, 256, 300, 500), (0.0, 0.01), (False, True)):
        if in_place and steps % 50:
            continue
        g = T(g0)
        before = g.clone()
        with Answers([0.5], NORMAL[5]):
            r = call(name, g, "exp", steps=steps, step_size=2e-3, alpha=alpha, in_place=in_place)
        what = f"steps={steps} alpha={alpha} in_place={in_place}"
        contract(ctx, g, before, r, in_place, what)
        ctx.close(r, reference(name, g0, steps, 2e-3, alpha, 1, "exp", NORMAL[5]), "not the described descent", 1e-5, what)
        ctx.state(steps)
    ctx.trace()


def large(ctx, name, ns):
    """Grids beyond any usual block size."""
    for n in ns:
        g0 = start(name, n, 0)
        for steps, in_place in itertools.product((1, 2), (False, True)):
            g = T(g0)
            before = g.clone()
            with Answers([0.5], NORMAL[5]):
                r = call(name, g, "exp", steps=steps, step_size=0.5, alpha=0.01, in_place=in_place)
            contract(ctx, g, before, r, in_place, f"n={n}")
            ctx.close(r, reference(name, g0, steps, 0.5, 0.01, 1, "exp", NORMAL[5]), "not the described descent", 1e-6, f"n={n} steps={steps}")
            ctx.state(steps)
        ctx.trace()


def reuse(ctx, name, depth):
    """All sequences of calls on one and the same tensor, with gradients left on it by other uses."""
    import torch

    ops = {"in place": dict(in_place=True, steps=2, alpha=0.0), "noisy in place": dict(in_place=True, steps=3, alpha=0.05), "no steps in place": dict(in_place=True, steps=0, alpha=0.05),
           "copy": dict(in_place=False, steps=2, alpha=0.05), "gradient": None, "use": None}
    for seq in itertools.product(ops, repeat=depth):
        g = T(start(name, 3, 0))
        now = to_np(g).copy()
        for op in seq:
            if op == "gradient":
                g.grad = torch.full_like(g, 3.0)
                continue
            if op == "use":  # the caller trains the grid for a moment
                g.requires_grad_(True)
                (g * 2).sum().backward()
                g.requires_grad_(False)
                continue
            kw = ops[op]
            with Answers([0.5], NORMAL[5]):
                r = call(name, g, "k1", step_size=0.02, **kw)
            want = reference(name, now, kw["steps"], 0.02, kw["alpha"], 1, "k1", NORMAL[5])
            ctx.close(r, want, "depends on earlier use of the grid", 1e-6, " > ".join(seq))
            if kw["in_place"]:
                now = to_np(r).copy()
            ctx.same(g.detach(), now, "the given grid", " > ".join(seq))
            ctx.check(not r.requires_grad, "requires a gradient", " > ".join(seq))
            ctx.state()
        ctx.trace()


def layouts(ctx, name):
    """Views of larger tensors, other layouts, grids that require a gradient, other gradient modes."""
    import torch

    n = 4
    g0 = T(start(name, n, 2))
    kw = dict(steps=3, step_size=0.02, alpha=0.01)

    def run(g, **k):
        with Answers([0.5], NORMAL[5]):
            return call(name, g, **dict(kw, **k))
    want = run(g0.clone())
    d = g0.shape[1]

    def forms():
        yield "contiguous", g0.clone(), None
        yield "transposed", g0.t().clone(memory_format=torch.contiguous_format).t(), None
        base = torch.full((n + 2, d + 2), 9.0, dtype=torch.float64)
        base[1:-1, 1:-1] = g0
        yield "window", base[1:-1, 1:-1], base
        base = torch.full((2 * n, d), 9.0, dtype=torch.float64)
        base[::2] = g0
        yield "every second", base[::2], base
    for in_place in (False, True):
        for what, g, base in forms():
            outside = None if base is None else base.clone()
            before = g.clone()
            r = run(g, in_place=in_place)
            ctx.close(r, want, "memory layout matters", 1e-12, f"{what} in_place={in_place}")
            if in_place:
                ctx.close(g.detach(), want, "not in place", 1e-12, what)
            else:
                ctx.same(g, before, "the given grid changed", what)
            if base is not None:
                mask = torch.ones_like(outside, dtype=torch.bool)
                mask[(slice(1, -1),) * 2 if what == "window" else slice(0, None, 2)] = False
                ctx.same(base.detach()[mask], outside[mask], "writes outside the given grid", what)
            ctx.state()
    for mode in ("enable", "no_grad", "requires", "non-leaf", "parameter"):
        g = g0.clone()
        with torch.set_grad_enabled(mode != "no_grad"):
            if mode == "requires":
                g.requires_grad_(True)
            elif mode == "non-leaf":
                g = g.requires_grad_(True) * 1
            elif mode == "parameter":
                g = torch.nn.Parameter(g)
            req = g.requires_grad
            r = run(g)
            ctx.check(torch.is_grad_enabled() == (mode != "no_grad"), "gradient mode changed", mode)
        ctx.close(r, want, "gradient mode matters", 1e-12, mode)
        ctx.check(not r.requires_grad and r.grad_fn is None, "requires a gradient", mode)
        ctx.check(g.requires_grad == req and (not g.is_leaf or g.grad is None), "the given grid changed", mode)
        ctx.same(g.detach(), g0, "the given grid changed", mode)
        ctx.state()
    with torch.no_grad():
        g = g0.clone()
        r = run(g, in_place=True)
        ctx.close(g, want, "gradient mode matters", 1e-12, "in place under no_grad")
    ctx.trace()


def alphabet():
    import torch
    from gconv.geometry import repulsion, so3
    s2 = importlib.import_module("gconv.geometry.groups.s2")

    def boom(x, y):
        raise ZeroDivisionError

    def ok(name, n, dt=torch.float64, **kw):
        kw = dict(dict(steps=2, step_size=0.02, alpha=0.01), **kw)
        return lambda: call(name, T(start(name, n, 0), dt), **kw)

    def fails():
        try:
            repulsion.repulse(torch.rand(3, 2), steps=2, metric_fn=boom, show_pbar=False)
        except ZeroDivisionError:
            pass

    def fails_in_place():
        try:
            repulsion.repulse(torch.rand(3, 2), steps=2, metric_fn=boom, in_place=True, show_pbar=False)
        except ZeroDivisionError:
            pass

    def nograd():
        with torch.no_grad():
            return ok("so3", 3)()

    return {
        "so3": ok("so3", 3), "s2 in place": ok("s2", 4, in_place=True), "single": ok("euclid", 3, torch.float32, steps=3),
        "one": ok("so3", 1), "no steps": ok("s2", 2, steps=0), "metric fails": fails, "in place, metric fails": fails_in_place,
        "no_grad": nograd, "so3 grid": lambda: so3.uniform_grid(26, "euler", steps=2, show_pbar=False),
        "s2 grid": lambda: s2.uniform_grid_s2(3, "spherical", steps=2, show_pbar=False),
    }


def history(ctx, first, depth):
    import torch

    ops = alphabet()

    def do(n):
        with Answers([0.125, 0.5, 0.3, 0.8, 0.65], NORMAL[5]):
            return ops[n]()
    want = {n: do(n) for n in ops}
    for rest in itertools.product(ops, repeat=depth - 1):
        seq = (first,) + rest
        for n in seq:
            r = do(n)
            if want[n] is None:
                continue
            ctx.same(r, want[n], "depends on earlier calls", " > ".join(seq))
            ctx.check(torch.is_grad_enabled() and torch.get_default_dtype() == torch.float32, "leaves the global state changed", " > ".join(seq))
            ctx.trans()
        ctx.state()
        ctx.trace()


def uniform(ctx, which, n):
    """The grids made by repulsion are better spread than the ones they start from, for all answers."""
    import torch
    from gconv.geometry import so3
    s2 = importlib.import_module("gconv.geometry.groups.s2")

    for k, vals in enumerate(NORMAL[5:6] + NORMAL[8:]):
        for u in range(4):
            rng = np.random.default_rng([k, u, 241])
            U, N = rng.uniform(0.02, 0.98, 4 * n + 3).tolist(), rng.normal(size=4 * n + 1).tolist()

            def make(steps, grad=True, **kw):
                with Answers(U, N), torch.set_grad_enabled(grad):
                    if which == "so3":
                        return so3.uniform_grid(n, "euler", steps=steps, show_pbar=False, **kw)
                    return s2.uniform_grid_s2(n, "spherical", steps=steps, show_pbar=False, **kw)
            name = "so3" if which == "so3" else "s2"
            e = [float(ref_energy(name, "default", 1, make(s).double())) for s in (0, 60)]
            ctx.check(math.isfinite(e[1]) and e[1] < e[0], "repulsion does not spread the grid", f"n={n} answers {k},{u}: energy {e}")
            ctx.same(make(20), make(20, grad=False), "gradient mode matters", f"n={n}")
            ctx.check(not make(3).requires_grad, "requires a gradient", f"n={n}")
            small = [float(ref_energy(name, "default", 1, make(s, step_size=1e-4).double())) for s in (0, 1, 4)]
            ctx.check(small[2] <= small[1] + 1e-3 * small[0] and small[1] <= small[0] * (1 + 1e-3), "small steps raise the energy", f"n={n}: {small}")
            ctx.state()
        ctx.trace()


def missing_sizes():
    """Sizes for which no grid is built in (the table's file is data, not code)."""
    import torch
    from gconv.geometry import so3

    out = []
    for n in range(2, 60):
        with Answers([0.1, 0.5, 0.8, 0.3], NORMAL[5]):
            a = so3.uniform_grid(n, "quat", steps=0, show_pbar=False)
        with Answers([0.2, 0.6, 0.7, 0.35], NORMAL[6]):
            b = so3.uniform_grid(n, "quat", steps=0, show_pbar=False)
        if not torch.equal(a, b):
            out.append(n)
    return out


def uniform_so3(ctx, count):
    sizes = missing_sizes()
    ctx.outcome(("sizes that are not built in", sizes))
    for n in sizes[:count]:
        uniform(ctx, "so3", n)


def cases(tier):
    th = tier == "thorough"
    out = []
    for name in METRICS:
        for n in (1, 2, 3, 5) if not th else (1, 2, 3, 4, 5, 7):
            for energy in ("default", "columb", "k1", "k3", "exp"):
                out.append(Case(f"descent:{name}:{n}:{energy}", descent, name=name, n=n, energy=energy, full=th or energy == "default"))
        if name in ("s2", "so3", "so2", "double cover"):
            for n in (1, 2, 6) + ((3, 12) if th else ()):
                out.append(Case(f"robust:{name}:{n}", robust, name=name, n=n, full=th))
        for n in (2, 3, 4) + ((5, ) if th else ()):
            out.append(Case(f"order:{name}:{n}", order, name=name, n=n))
            out.append(Case(f"lowers:{name}:{n}", lowers, name=name, n=n, smax=20 if th else 8))
        for n in (2, 4):
            out.append(Case(f"long:{name}:{n}", long, name=name, n=n))
        out.append(Case(f"layouts:{name}", layouts, name=name))
        out.append(Case(f"reuse:{name}", reuse, name=name, depth=4 if th else 3))
        out.append(Case(f"large:{name}", large, name=name, ns=(31, 65, 129, 200, 257, 520) + ((1030,) if th else ())))
    for first in alphabet():
        out.append(Case(f"history:{first}", history, first=first, depth=4 if th else 3))
    for n in (2, 3, 5, 8) + ((13, 24) if th else ()):
        out.append(Case(f"uniform:s2:{n}", uniform, which="s2", n=n))
    out.append(Case("uniform:so3", uniform_so3, count=12 if th else 2))
    return out
