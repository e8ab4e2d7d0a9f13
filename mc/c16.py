"""C16: depth-first search over all train/eval/forward/reset histories of the normalisation modules in
lock-step with a float64 statistics model; activations and wrapped modules over all module settings,
histories of mode changes, and every permutation of the group axis."""
import copy, itertools, math
import numpy as np
from core import Case, to_np
from c15 import LARGE
from lib import T, grid_menu


class Model:
    """Ordinary batch / instance normalisation on x (N, C, everything else)."""

    def __init__(self, kind, C, affine, track, momentum, eps):
        self.kind, self.track, self.m, self.eps, self.affine = kind, track, momentum, eps, affine
        self.w, self.b = np.ones(C), np.zeros(C)
        self.training = True
        self.reset()

    def reset(self):
        C = len(self.w)
        self.rm, self.rv, self.nb = np.zeros(C), np.ones(C), 0

    def clone(self):
        m = copy.copy(self)
        m.w, m.b, m.rm, m.rv = (a.copy() for a in (self.w, self.b, self.rm, self.rv))
        return m

    def forward(self, x):
        N, C = x.shape[:2]
        f = x.reshape(N, C, -1)
        if self.kind == "bn":
            mean = np.broadcast_to(f.mean((0, 2)), (N, C))
            var = np.broadcast_to(f.var((0, 2)), (N, C))
            unb = var * (N * f.shape[2]) / (N * f.shape[2] - 1)
        else:
            mean, var = f.mean(2), f.var(2)
            unb = var * f.shape[2] / (f.shape[2] - 1)
        if self.track:
            if self.training:
                if self.kind == "bn":
                    self.nb += 1
                m = self.m if self.m is not None else 1 / self.nb
                self.rm = (1 - m) * self.rm + m * mean.mean(0)
                self.rv = (1 - m) * self.rv + m * unb.mean(0)
            else:
                mean, var = np.broadcast_to(self.rm, (N, C)), np.broadcast_to(self.rv, (N, C))
        y = (f - mean[..., None]) / np.sqrt(var[..., None] + self.eps) * self.w[:, None] + self.b[:, None]
        return y.reshape(x.shape)


OPS = ("F0", "F1", "train", "eval", "reset", "weights")


def norm(ctx, kind, dim, cfg, depth):
    import torch
    import gconv.gnn as gnn

    cls = getattr(gnn, ("GBatchNorm" if kind == "bn" else "GInstanceNorm") + f"{dim}d")
    C = 2
    mod = cls(C, **cfg).double()
    model = Model(kind, C, cfg["affine"], cfg["track_running_stats"], cfg["momentum"], cfg["eps"])
    S = (3, 2) if dim == 2 else (2, 3, 2)
    xs = [ctx.rng.normal(size=(2, C, 3) + S) * np.array([1.0, 3.0])[:, None, None, None].reshape((1, 2, 1) + (1,) * dim) + 0.7,
          ctx.rng.normal(size=(3, C, 2) + S[::-1]) * 2 - 1.5]
    Hs = [T(ctx.rng.normal(size=(3, 1))), T(ctx.rng.normal(size=(2, 1)))]
    new = (np.array([1.5, -0.5]), np.array([0.25, 2.0]))

    def stats(m, mo, hist):
        if mo.track:
            ctx.close(m.running_mean, mo.rm, "running mean", 1e-9, hist)
            ctx.close(m.running_var, mo.rv, "running variance", 1e-9, hist)
            if kind == "bn":
                ctx.check(int(m.num_batches_tracked) == mo.nb, "number of batches", f"{hist}: {m.num_batches_tracked} instead of {mo.nb}")

    def go(m, mo, hist):
        for op in OPS:
            if op == "weights" and (not cfg["affine"] or "weights" in hist):
                continue
            m2, o2 = copy.deepcopy(m), mo.clone()
            h = hist + (op,)
            ctx.state()
            if op[0] == "F":
                i = int(op[1])
                x = T(xs[i])
                r = m2(x, Hs[i])
                if not ctx.check(isinstance(r, tuple) and len(r) == 2, "result", f"{h}: {type(r).__name__}"):
                    continue
                ctx.close(r[0], o2.forward(xs[i]), "not the ordinary normalisation of the folded input", 1e-8, f"{cls.__name__} {cfg} {h}")
                ctx.same(r[1], Hs[i], "grid changed", str(h))
                ctx.same(x, xs[i], "input changed", str(h))
            elif op in ("train", "eval"):
                m2.train(op == "train")
                o2.training = op == "train"
            elif op == "reset":
                m2.reset_running_stats()
                o2.reset()
            else:
                with torch.no_grad():
                    m2.weight.copy_(T(new[0]))
                    m2.bias.copy_(T(new[1]))
                o2.w, o2.b = new
            stats(m2, o2, str(h))
            if len(h) < depth:
                go(m2, o2, h)
            else:
                ctx.trace()

    go(mod, model, ())
    # all orders of the group elements and positions: statistics are joint
    x, S = xs[0], xs[0].shape[3:]
    base = to_np(copy.deepcopy(mod)(T(x), Hs[0])[0])
    for p in itertools.permutations(range(3)):
        y = copy.deepcopy(mod)(T(x[:, :, list(p)]), Hs[0])[0]
        ctx.close(y, base[:, :, list(p)], "does not commute with a permutation of the group elements", 1e-9, f"{p}")
        ctx.state()
    n = int(np.prod(S)) * 3
    for shift in range(1, n):
        q = (np.arange(n) * 5 + shift) % n if n % 5 else (np.arange(n) + shift) % n
        xf = x.reshape(*x.shape[:2], n)[..., q].reshape(x.shape)
        want = base.reshape(*x.shape[:2], n)[..., q].reshape(x.shape)
        ctx.close(copy.deepcopy(mod)(T(xf), Hs[0])[0], want, "does not commute with a permutation over group and space", 1e-9, f"shift {shift}")
        ctx.state()


def layernorm(ctx, dim):
    import torch
    import gconv.gnn as gnn

    S = (3, 2) if dim == 2 else (2, 3, 2)
    x = ctx.rng.normal(size=(2, 2, 3) + S) * 2 + 1
    H = T(ctx.rng.normal(size=(3, 1)))
    shapes = [S[i:] for i in range(dim)] + [(3,) + S, S[-1]]
    for ns, affine, eps, training in itertools.product(shapes, (True, False), (1e-5, 0.1), (True, False)):
        m = gnn.GLayerNorm(ns, eps=eps, elementwise_affine=affine).double().train(training)
        k = 1 if isinstance(ns, int) else len(ns)
        ax = tuple(range(-k, 0))
        w = b = None
        y = (x - x.mean(ax, keepdims=True)) / np.sqrt(x.var(ax, keepdims=True) + eps)
        if affine:
            w, b = ctx.rng.normal(size=x.shape[-k:]), ctx.rng.normal(size=x.shape[-k:])
            with torch.no_grad():
                m.weight.copy_(T(w)); m.bias.copy_(T(b))
            y = y * w + b
        xt = T(x)
        r = m(xt, H)
        ctx.close(r[0], y, "not layer normalisation", 1e-9, f"{ns} affine={affine} eps={eps}")
        ctx.same(xt, x, "input changed", f"{ns}")
        ctx.same(r[1], H, "grid changed")
        ctx.state(); ctx.trace()
        if k <= dim:
            for p in itertools.permutations(range(3)):
                ctx.close(m(T(x[:, :, list(p)]), H)[0], y[:, :, list(p)], "does not commute with a permutation of the group elements", 1e-9)
                ctx.state()


def gelu(x, tanh=False):
    if tanh:
        return 0.5 * x * (1 + np.tanh(math.sqrt(2 / math.pi) * (x + 0.044715 * x ** 3)))
    return 0.5 * x * (1 + np.vectorize(math.erf)(x / math.sqrt(2)))


def activations(ctx):
    import torch.nn as nn
    import gconv.gnn as gnn

    lattice = np.array([-1e3, -5.0, -1.0, -0.5, -1e-6, -0.0, 0.0, 1e-6, 0.3, 1.0, 4.0, 1e3])
    mods = {
        "GReLU()": (lambda: gnn.GReLU(), lambda x: np.maximum(x, 0)),
        "GReLU(inplace)": (lambda: gnn.GReLU(inplace=True), lambda x: np.maximum(x, 0)),
        "GGELU()": (lambda: gnn.GGELU(), gelu),
        "GGELU(tanh)": (lambda: gnn.GGELU(approximate="tanh"), lambda x: gelu(x, True)),
    }
    for s in (0.01, 0.2, 0.0, 1.5, -0.5):
        mods[f"GLeakyReLU({s})"] = (lambda s=s: gnn.GLeakyReLU(s), lambda x, s=s: np.where(x > 0, x, s * x))
    mods["GLeakyReLU()"] = (lambda: gnn.GLeakyReLU(), lambda x: np.where(x > 0, x, 0.01 * x))
    mods["GLeakyReLU(inplace)"] = (lambda: gnn.GLeakyReLU(0.3, inplace=True), lambda x: np.where(x > 0, x, 0.3 * x))
    shapes = [(1, 1, 12, 1, 1), (2, 3, 2, 1, 1), (1, 2, 1, 2, 3), (1, 1, 3, 2, 2, 1), (1, 2, 2, 3, 1, 1), (3, 2, 2)]
    for name, (make, f) in mods.items():
        m = make()
        for seq in itertools.product(("train", "eval"), repeat=2):
            for mode in seq:
                m.train(mode == "train")
                for sh in shapes:
                    for off in range(0, 12, 1 if ctx.thorough else 4):
                        x = np.roll(lattice, off)[np.arange(int(np.prod(sh))) % 12].reshape(sh)
                        H = T(ctx.rng.normal(size=(sh[2], 2)))
                        H0 = to_np(H).copy()
                        xt = T(x)
                        r = m(xt, H)
                        if not ctx.check(isinstance(r, tuple) and len(r) == 2, "result", f"{name}: {type(r).__name__}"):
                            return
                        if "inplace" not in name:
                            ctx.same(xt, x, "input changed", name)
                            r2 = m(T(x).requires_grad_(), H)
                            ctx.same(r2[0], r[0], "differs when the input requires a gradient", name)
                        ctx.close(r[0], f(x), "not the element-wise activation", 1e-9, f"{name} {sh}")
                        ctx.same(r[1], H0, "grid changed", name)
                        ctx.state()
            ctx.trace()
        x = ctx.rng.normal(size=(2, 2, 4, 2, 2))
        for p in itertools.permutations(range(4)):
            ctx.close(m(T(x[:, :, list(p)]), H)[0], f(x)[:, :, list(p)], "does not commute with a permutation of the group elements", 1e-9, name)
            ctx.state()


def wrap(ctx, depth):
    """Wrapped modules: every history of mode changes on wrapper or parent, parameters, state, conversions."""
    import torch
    import torch.nn as nn
    import gconv.gnn as gnn

    class Probe(nn.Module):
        def __init__(self):
            super().__init__()
            self.calls = []
            self.p = nn.Parameter(torch.ones(1))

        def forward(self, *a, **k):
            self.calls.append((a, k, self.training))
            return a[0] * self.p if self.training else a[0] * self.p + 1

    menu = {
        "softplus": lambda: nn.Softplus(), "prelu": lambda: nn.PReLU(), "dropout": lambda: nn.Dropout(0.5),
        "sequential": lambda: nn.Sequential(nn.Tanh(), nn.PReLU(), nn.Dropout(0.25)), "identity": lambda: nn.Identity(), "softmax 1": lambda: nn.Softmax(1), "softmax 2": lambda: nn.Softmax(2),
        "probe": Probe, "nested": lambda: nn.Sequential(Probe(), nn.Sequential(Probe())),
    }
    x = ctx.rng.normal(size=(2, 2, 3, 2, 2))
    H = T(ctx.rng.normal(size=(3, 1)))
    ops = ("train", "eval", "ptrain", "peval", "F", "Fd")
    for name, make in menu.items():
        for hist in itertools.product(ops, repeat=depth):
            inner = make()
            w = gnn.GWrap(inner)
            parent = nn.ModuleList([nn.Identity(), w])
            mode, dt = True, torch.float32
            for op in hist:
                if op in ("train", "eval"):
                    w.train(op == "train"); mode = op == "train"
                elif op in ("ptrain", "peval"):
                    parent.train(op == "ptrain"); mode = op == "ptrain"
                else:
                    if op == "Fd" and dt != torch.float64:
                        parent.double(); dt = torch.float64
                    xt = torch.as_tensor(x, dtype=dt)
                    torch.manual_seed(5)
                    r = w(xt, H)
                    ctx.same(xt, torch.as_tensor(x, dtype=dt), "input changed", f"{name} {hist}")
                    torch.manual_seed(5)
                    probe = make().to(dt)
                    probe.load_state_dict(inner.state_dict())
                    want = probe.train(mode)(xt)
                    ctx.same(r[0], want, "not the wrapped module", f"{name} {hist}")
                    ctx.same(r[1], H, "grid changed", f"{name} {hist}")
                    ctx.check(r[0].dtype == dt, "dtype", f"{name} {hist}")
                ctx.check(all(m.training == mode for m in inner.modules()) and w.training == mode, "mode does not reach the wrapped module", f"{name} {hist} after {op}")
                ctx.state()
            a, b = list(inner.parameters()), list(w.parameters())
            ctx.check(len(a) == len(b) and all(i is j for i, j in zip(a, b)), "parameters of the wrapped module are not the wrapper's", name)
            ctx.check(len(w.state_dict()) == len(inner.state_dict()), "state dict", name)
            ctx.trace()
        for sh in [(1, 1, 1, 1, 1), (2, 3, 1, 4, 3), (1, 2, 4, 3, 3), (3, 1, 2, 1, 5), (1, 1, 1, 1, 1, 1), (2, 3, 1, 2, 3, 4), (1, 2, 4, 3, 2, 2), (2, 1, 3, 1, 1, 1), (2, 3, 4)]:
            for train, grad in itertools.product((True, False), repeat=2):
                inner = make()
                e = gnn.GWrap(inner).train(train)
                xs, Hs = torch.randn(sh, generator=torch.Generator().manual_seed(7)), torch.randn((sh[2], 3, 3), generator=torch.Generator().manual_seed(8))
                got = []
                hook = inner.register_forward_pre_hook(lambda m, a, k: got.append((a, k)), with_kwargs=True)
                torch.manual_seed(5)
                r = e(xs.clone().requires_grad_(grad), Hs)
                hook.remove()
                if ctx.check(len(got) == 1 and len(got[0][0]) == 1 and not got[0][1], "wrapped module called differently", f"{name} {sh}"):
                    ctx.same(got[0][0][0].detach(), xs, "wrapped module called with something else", f"{name} input {sh}")
                torch.manual_seed(5)
                ctx.same(r[0], inner(xs), "not the wrapped module", f"{name} input {sh}, training={train}, requires_grad={grad}")
                ctx.check(r[1] is Hs or np.array_equal(to_np(r[1]), to_np(Hs)), "grid changed", f"{name} {sh}")
                ctx.state()
        # the wrapped module is called once, on the input alone; gradients reach its parameters
        inner = Probe()
        w = gnn.GWrap(inner)
        xt = T(x, torch.float32)
        w(xt, H)
        ctx.check(len(inner.calls) == 1 and len(inner.calls[0][0]) == 1 and not inner.calls[0][1] and inner.calls[0][0][0].shape == xt.shape, "wrapped module called differently", f"{len(inner.calls)} calls")
        y, _ = w(xt, H)
        y.sum().backward()
        ctx.close(inner.p.grad, [xt.sum().item()], "gradient of the wrapped module", 1e-5)
        for p in itertools.permutations(range(3)):
            e = gnn.GWrap(make()).double().eval()
            ctx.close(e(T(x[:, :, list(p)]), H)[0], to_np(e(T(x), H)[0])[:, :, list(p)], "does not commute with a permutation of the group elements", 1e-12, name)


def grids(ctx, dim):
    """These modules see features alone: every kind of grid leaves result and state alone."""
    import torch
    import gconv.gnn as gnn

    S = (4, 3) if dim == 2 else (2, 3, 4)
    for G in (1, 2, 3, 4, 6, 8):
        x = ctx.rng.normal(size=(2, 3, G) + S) + 0.5
        ln = (x - x.mean(-1, keepdims=True)) / np.sqrt(x.var(-1, keepdims=True) + 1e-5)
        for name, H in grid_menu(G):
            keep = None if H is None else to_np(H).copy()
            what = f"{G} elements, {name}"
            runs = [(gnn.GReLU(), np.maximum(x, 0)), (gnn.GGELU(), gelu(x)), (gnn.GLeakyReLU(0.2), np.where(x > 0, x, 0.2 * x)), (gnn.GWrap(torch.nn.Tanh()), np.tanh(x)),
                    (gnn.GLayerNorm(S[-1:]).double(), ln)]
            for m, want in runs:
                y, h = m(T(x), H)
                ctx.close(y, want, "depends on the grid", 1e-9, f"{m}, {what}")
                ctx.check(h is H or H is not None and np.array_equal(to_np(h), keep), "grid changed", f"{m} {what}")
                ctx.state()
            for kind, train in itertools.product(("bn", "in"), (True, False)):
                m = getattr(gnn, ("GBatchNorm" if kind == "bn" else "GInstanceNorm") + f"{dim}d")(3, affine=True, track_running_stats=True).double().train(train)
                mo = Model(kind, 3, True, True, 0.1, 1e-5)
                mo.training = train
                for _ in range(2):
                    y, h = m(T(x), H)
                    ctx.close(y, mo.forward(x), "depends on the grid", 1e-9, f"{m}, {what}")
                    ctx.check(h is H or H is not None and np.array_equal(to_np(h), keep), "grid changed", f"{m} {what}")
                ctx.close(m.running_mean, mo.rm, "running mean depends on the grid", 1e-9, what)
                ctx.close(m.running_var, mo.rv, "running variance depends on the grid", 1e-9, what)
                ctx.state()
            if H is not None:
                ctx.same(H, keep, "grid changed", what)
        ctx.trace()


def large(ctx, dim, shape):
    """Normalisations and activations on inputs beyond any usual block size."""
    import torch
    import gconv.gnn as gnn

    N, C, G = shape[:3]
    x = ctx.rng.normal(size=shape) * 2 + 1
    H = T(ctx.rng.normal(size=(G, 2)))
    for dt, tol in ((torch.float64, 1e-9), (torch.float32, 2e-4)):
        for kind, train, track in itertools.product(("bn", "in"), (True, False), (True, False)):
            m = getattr(gnn, ("GBatchNorm" if kind == "bn" else "GInstanceNorm") + f"{dim}d")(C, affine=True, track_running_stats=track).to(dt).train(train)
            mo = Model(kind, C, True, track, 0.1, 1e-5)
            mo.training = train
            w, b = ctx.rng.normal(size=C), ctx.rng.normal(size=C)
            with torch.no_grad():
                m.weight.copy_(T(w)); m.bias.copy_(T(b))
            mo.w, mo.b = w, b
            for _ in range(2):
                r = m(T(x, dt), H)
                ctx.close(r[0], mo.forward(x), "not the ordinary normalisation of the folded input", tol, f"{kind} {shape} {dt} train={train} track={track}")
                ctx.same(r[1], H, "grid changed", str(shape))
            if track:
                ctx.close(m.running_mean, mo.rm, "running mean", tol, str(shape))
                ctx.close(m.running_var, mo.rv, "running variance", tol, str(shape))
            ctx.state()
        S = shape[-1:]
        y = (x - x.mean(-1, keepdims=True)) / np.sqrt(x.var(-1, keepdims=True) + 1e-5)
        if S[0] > 1:
            ctx.close(gnn.GLayerNorm(S).to(dt)(T(x, dt), H)[0], y, "not layer normalisation", tol * 10, str(shape))
        for m, f in ((gnn.GReLU(), lambda v: np.maximum(v, 0)), (gnn.GGELU(), gelu), (gnn.GLeakyReLU(0.2), lambda v: np.where(v > 0, v, 0.2 * v)),
                     (gnn.GWrap(torch.nn.Tanh()), np.tanh)):
            ctx.close(m(T(x, dt), H)[0], f(x), "not the element-wise activation", tol, f"{m} {shape}")
            ctx.close(m.eval()(T(x, dt), H)[0], f(x), "not the element-wise activation", tol, f"{m} {shape} evaluation")
            ctx.state()
    ctx.trace()


def cases(tier):
    th = tier == "thorough"
    out = []
    for dim in (2, 3):
        for kind in ("bn", "in"):
            for affine, track, mom, eps in itertools.product((True, False), (True, False), (0.1, 0.4, 0.0, 1.0, None), (1e-5, 0.5)):
                if (mom is None and kind == "in") or (not th and eps != 1e-5 and mom != 0.1):
                    continue
                cfg = dict(affine=affine, track_running_stats=track, momentum=mom, eps=eps)
                out.append(Case(f"{kind}{dim}d:affine={affine},track={track},momentum={mom},eps={eps}", norm, kind=kind, dim=dim, cfg=cfg, depth=5 if th else 4))
        out += [Case(f"layernorm{dim}d", layernorm, dim=dim), Case(f"grids{dim}d", grids, dim=dim)]
        out += [Case(f"large{dim}d:{i}", large, dim=dim, shape=sh) for i, sh in enumerate(LARGE[dim])]
    out += [Case("activations", activations), Case("wrap", wrap, depth=4 if th else 3)]
    return out
