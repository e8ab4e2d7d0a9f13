"""C17: every interleaved history, up to a depth, of operations on several live layers that share input, grids
and the library's global state.  Each history is executed from scratch on real layers; after every step the
result is compared with a table of weight responses recorded before anything happened (a layer is (bi)linear
in its weights, so the table decides its output for any weights), and everything the step must not touch -
other layers, inputs, grids, earlier results - is compared bit for bit."""
import copy, itertools
import numpy as np
from core import Case, to_np
from lib import BY_NAME, T

OPS = ("call", "callG", "reset", "set", "step", "copy", "cast", "rebuild", "save", "load", "zerograd", "change", "mode")
GKS = {"SE2": 3, "E2": (2, 1), "SE3": 2, "E3": (2, 1)}


def make(g, kind, grid, o, extra):
    kw = dict(extra)
    return g.layer(kind, 1, o, 3, group_kernel_size=GKS[g.name], bias=True, grid_H=grid, **kw)


class World:
    """The tensors every layer of one dimension shares."""

    def __init__(self, rng, specs):
        self.t = {}
        for group, kind, o, extra in specs:
            g = BY_NAME[group]
            if group in self.t:
                continue
            n = GKS[group]
            if g.improper:
                pool = g.rand(8, np.random.default_rng(171))
                G = np.concatenate((pool[pool[:, 0] > 0][:n[0]], pool[pool[:, 0] < 0][:n[1]]))
            else:
                G = g.rand(n, np.random.default_rng(171))
            S = (4, 3) if g.dim == 2 else (3, 3, 3)
            self.t[group] = dict(grid=T(G).float(), Hin=T(g.rand(2, np.random.default_rng(172))), Hout=T(g.rand(2, np.random.default_rng(173))),
                                 x=T(rng.normal(size=(1, 1) + S)), xh=T(rng.normal(size=(1, 1, 2) + S)))
        # two versions of what the caller gives to the forward passes; the caller's buffers are reused for both
        self.versions = [{(k, n): to_np(v).copy() for k, d in self.t.items() for n, v in d.items()}]
        other = dict(self.versions[0])
        for k in self.t:
            g = BY_NAME[k]
            other[k, "Hin"], other[k, "Hout"] = g.rand(2, np.random.default_rng(174)), g.rand(2, np.random.default_rng(175))
            for n in ("x", "xh"):
                other[k, n] = rng.normal(size=other[k, n].shape)
        self.versions.append(other)
        self.now = 0
        self.single()

    def single(self):
        """What is given to layers in single precision."""
        for d in self.t.values():
            for n in ("Hin", "Hout", "x", "xh"):
                if n + "32" not in d:
                    d[n + "32"] = d[n].float()
                else:
                    d[n + "32"].copy_(d[n])

    @property
    def snap(self):
        return self.versions[self.now]

    def show(self, v):
        import torch
        if v != self.now:
            self.now = v
            with torch.no_grad():
                for (k, n), a in self.snap.items():
                    if n != "grid":
                        self.t[k][n].copy_(torch.as_tensor(a))
                self.single()

    def check(self, ctx, hist):
        for (k, n), v in self.snap.items():
            ctx.same(self.t[k][n], v, "an input or a grid given to a layer changed", f"{k} {n} after {hist}")
            if n != "grid":
                ctx.same(self.t[k][n + "32"], self.t[k][n].float(), "an input or a grid given to a layer changed", f"{k} single precision {n} after {hist}")


def invoke(layer, kind, w, dtype, explicit):
    import torch

    suffix = "" if dtype == torch.float64 else "32"
    x, Hi, Ho = w[("x" if kind == "lift" else "xh") + suffix], w["Hin" + suffix], w["Hout" + suffix]
    if kind == "lift":
        return layer(x, Ho) if explicit else layer(x)
    return layer(x, Hi, Ho) if explicit else layer(x, Hi)


def params(layer, kind):
    k = layer.kernel
    return [k.weight_H, k.weight, layer.bias] if kind == "sep" else [k.weight, layer.bias]


def table(g, kind, o, extra, w):
    """Responses (explicit -> array) of a pristine double layer to every unit weight."""
    import torch
    layer = make(g, kind, w["grid"], o, extra).double()
    ps = params(layer, kind)
    out = {}
    with torch.no_grad():
        for explicit in (False, True):
            for p in ps:
                p.zero_()
            y0 = to_np(invoke(layer, kind, w, torch.float64, explicit)[0])
            assert not y0.any()
            if kind == "sep":
                wh, ws = ps[0], ps[1]
                R = np.zeros((wh.numel(), ws.numel()) + y0.shape)
                fh, fs = wh.view(-1), ws.view(-1)
                for a in range(wh.numel()):
                    for b in range(ws.numel()):
                        fh[a] = 1; fs[b] = 1
                        R[a, b] = to_np(invoke(layer, kind, w, torch.float64, explicit)[0])
                        fh[a] = 0; fs[b] = 0
            else:
                f = ps[0].view(-1)
                R = np.zeros((f.numel(),) + y0.shape)
                for a in range(f.numel()):
                    f[a] = 1
                    R[a] = to_np(invoke(layer, kind, w, torch.float64, explicit)[0])
                    f[a] = 0
            assert np.abs(R).max() > 0
            out[explicit] = R
    return out


def predict(R, kind, vals):
    if kind == "sep":
        y = np.tensordot(vals[0].ravel(), np.tensordot(vals[1].ravel(), R, (0, 1)), (0, 0))
    else:
        y = np.tensordot(vals[0].ravel(), R, (0, 0))
    b = vals[-1].reshape(-1)
    return y + b.reshape((1, -1) + (1,) * (y.ndim - 2))


def gradient(R, kind, vals, c):
    """d <c, y> / d parameters."""
    flat = R.reshape(R.shape[:2 if kind == "sep" else 1] + (-1,)) @ c.ravel()
    gb = c.sum(tuple(i for i in range(c.ndim) if i != 1)).reshape(vals[-1].shape)
    if kind == "sep":
        return [(flat @ vals[1].ravel()).reshape(vals[0].shape), (vals[0].ravel() @ flat).reshape(vals[1].shape), gb]
    return [flat.reshape(vals[0].shape), gb]


class Live:
    def __init__(self, spec, world, tab, c, i):
        self.spec, self.world, self.tabs, self.c, self.i = spec, world.t[spec[0]], tab, c, i
        self.w = world
        self.g, self.kind = BY_NAME[spec[0]], spec[1]
        self.saved = None
        self.dead = []
        self.build(0)

    @property
    def tab(self):
        return self.tabs[self.w.now]

    def build(self, n):
        import torch
        torch.manual_seed(1000 * self.i + n)
        self.layer = make(self.g, self.kind, self.world["grid"], self.spec[2], self.spec[3])
        self.dtype = torch.float32
        self.remember()

    def remember(self):
        self.mode = [m.training for m in self.layer.modules()]
        self.snap = {k: to_np(v).copy() for k, v in self.layer.state_dict().items()}
        self.vals = [to_np(p).copy() for p in params(self.layer, self.kind)]
        self.grads = [None if p.grad is None else to_np(p.grad).copy() for p in params(self.layer, self.kind)]

    def untouched(self, ctx, sig, hist):
        sd = self.layer.state_dict()
        ctx.check(set(sd) == set(self.snap), sig, f"{hist}: entries {sorted(set(sd) ^ set(self.snap))}")
        for k, v in sd.items():
            if k in self.snap:
                ctx.same(v, self.snap[k], sig, f"layer {self.i} {k} after {hist}")
        for p, gr in zip(params(self.layer, self.kind), self.grads):
            now = None if p.grad is None else to_np(p.grad)
            ctx.check((now is None) == (gr is None) and (gr is None or np.array_equal(now, gr)), sig, f"layer {self.i} gradient after {hist}")
        ctx.check([m.training for m in self.layer.modules()] == self.mode, sig, f"layer {self.i} mode after {hist}")


def apply(ctx, L, op, n, hist, held):
    """One step on layer L with its checks."""
    import torch
    tol = 1e-8 if L.dtype == torch.float64 else 2e-4
    permuted = L.spec[3].get("permute_output_grid", False)
    if op in ("call", "callG"):
        with torch.no_grad():
            y, H = invoke(L.layer, L.kind, L.world, L.dtype, op == "callG")
        ctx.check(y.dtype == L.dtype, "dtype of the result", str(hist))
        if not permuted:
            ctx.close(y, predict(L.tab[op == "callG"], L.kind, L.vals), "not the result of the layer's current weights", tol, f"layer {L.i} after {hist}")
        L.untouched(ctx, "a forward pass changed the layer", hist)
        held.append((y, to_np(y).copy()))
    elif op == "reset":
        torch.manual_seed(77 + n)
        L.layer.reset_parameters()
        old = L.vals
        L.remember()
        for a, b in zip(old, L.vals):
            ctx.check(np.isfinite(b).all() and (a != b).all(), "re-initialisation keeps old values", f"layer {L.i} {hist}")
    elif op == "set":
        rng = np.random.default_rng([17, L.i, n])
        with torch.no_grad():
            for p in params(L.layer, L.kind):
                p.copy_(torch.as_tensor(rng.normal(size=tuple(p.shape)), dtype=p.dtype))
        L.remember()
    elif op == "step":
        opt = torch.optim.SGD(L.layer.parameters(), lr=0.125)
        opt.zero_grad()
        y, H = invoke(L.layer, L.kind, L.world, L.dtype, True)
        ctx.check(y.requires_grad and y.grad_fn is not None, "result is detached from the weights", str(hist))
        c = L.c[True]
        if tuple(y.shape) != c.shape:
            ctx.fail("shape", f"{tuple(y.shape)} {c.shape}")
            return
        (y * torch.as_tensor(c, dtype=y.dtype)).sum().backward()
        if not permuted:
            G = gradient(L.tab[True], L.kind, L.vals, c)
            for p, gr in zip(params(L.layer, L.kind), G):
                ctx.close(p.grad, gr, "gradient is not that of the current weights", tol * 3, f"layer {L.i} after {hist}")
        want = [v - 0.125 * to_np(p.grad) for v, p in zip(L.vals, params(L.layer, L.kind))]
        opt.step()
        for p, v in zip(params(L.layer, L.kind), want):
            ctx.close(p, v, "training step", 1e-6)
        L.remember()
    elif op == "copy":
        new = copy.deepcopy(L.layer)
        old = L.layer
        L.layer = new
        L.grads = [None if p.grad is None else to_np(p.grad).copy() for p in params(new, L.kind)]  # torch's business
        L.untouched(ctx, "a copy differs", hist)
        with torch.no_grad():  # the original must not matter any more
            for t in list(old.parameters()) + list(old.buffers()):
                t.fill_(float("nan")) if t.is_floating_point() else None
        L.untouched(ctx, "a copy shares state with its original", hist)
    elif op == "cast":
        L.dtype = torch.float64 if L.dtype == torch.float32 else torch.float32
        L.layer = L.layer.to(L.dtype)
        before = L.snap
        L.remember()
        for k, v in L.snap.items():
            ctx.close(v, before[k], "conversion changes values", 1e-6, f"layer {L.i} {k}")
    elif op == "rebuild":
        L.build(n + 1)
    elif op == "save":
        L.saved = {k: v.clone() for k, v in L.layer.state_dict().items()}
    elif op == "load":
        if L.saved is None:
            return
        L.layer.load_state_dict(L.saved)
        L.remember()
        for k, v in L.saved.items():
            ctx.close(L.snap[k], v, "loading does not restore", 1e-6, k)
    elif op == "change":
        L.w.show(1 - L.w.now)
    elif op == "mode":
        on = not L.layer.training
        L.layer.train(on)
        ctx.check(all(m.training == on for m in L.layer.modules()), "mode", str(hist))
        L.remember()
    elif op == "zerograd":
        L.layer.zero_grad()
        L.remember()


def explore(ctx, specs, ops, depth, prefix):
    import torch

    rng = np.random.default_rng(170)
    world = World(rng, specs)
    tabs = []
    for s in specs:
        both = []
        for v in (1, 0):
            world.show(v)
            both.append(table(BY_NAME[s[0]], s[1], s[2], s[3], world.t[s[0]]))
        tabs.append(both[::-1])
    cs = [{e: rng.normal(size=t[0][e].shape[2 if s[1] == "sep" else 1:]) for e in t[0]} for s, t in zip(specs, tabs)]
    world.check(ctx, "building")
    alphabet = [(i, op) for i in range(len(specs)) for op in ops]
    probes = ("callG", "call")  # another order than most histories end with
    for tail in itertools.product(alphabet, repeat=depth - len(prefix)):
        hist = [alphabet[p] for p in prefix] + list(tail)
        # zero-information histories: trailing steps that only prepare are followed by probing every layer below
        layers = [Live(s, world, t, c, i) for i, (s, t, c) in enumerate(zip(specs, tabs, cs))]
        held = []
        world.show(0)
        for n, (i, op) in enumerate(hist):
            h = hist[:n + 1]
            apply(ctx, layers[i], op, n, h, held)
            for j, L in enumerate(layers):
                if j != i:
                    L.untouched(ctx, "another layer changed", h)
            ctx.state()
        for L in layers:  # probe every layer at the end of every history
            for op in probes:
                apply(ctx, L, op, 99, hist + ["probe"], held)
        world.check(ctx, hist)
        for y, v in held:
            ctx.same(y, v, "an earlier result changed", str(hist))
        ctx.trace()
        if ctx.nfail > 200:
            break
    ctx.sample({"histories of": [s[:2] for s in specs], "prefix": prefix})


def modes(ctx, group, kind, conf):
    """Single steps in every surrounding: recording mode x training mode x who wants gradients x layout x
    precision x magnitude and kind of the features, twice on one layer."""
    import contextlib
    import torch

    g = BY_NAME[group]
    world = World(np.random.default_rng(170), [(group, kind, 1, {})])
    base = world.t[group]
    conf = dict(conf)
    layer = g.layer(kind, 1, 2, 3, group_kernel_size=GKS[g.name], bias=conf.pop("bias", True), grid_H=base["grid"], **conf)
    dup = g.layer(kind, 1, 2, 3, group_kernel_size=GKS[g.name], bias=False, grid_H=base["grid"], **conf)
    dup.load_state_dict({k: v for k, v in layer.state_dict().items() if k != "bias"})
    x0 = base["x" if kind == "lift" else "xh"]
    recording = {"grad": contextlib.nullcontext, "no_grad": torch.no_grad, "inference": torch.inference_mode}
    layouts = {"contiguous": lambda v: v.clone(), "reversed strides": lambda v: v.permute(*reversed(range(v.ndim))).contiguous().permute(*reversed(range(v.ndim))),
               "part": lambda v: torch.cat((v, v + 1), -1)[..., :v.shape[-1]], "expanded": lambda v: v[:, :, ..., :1].expand(v.shape)}
    values = {"ordinary": lambda v: v, "huge": lambda v: v * 1e9, "tiny": lambda v: v * 1e-9, "zero": lambda v: v * 0, "far": lambda v: v + 1e5,
              "nan": lambda v: torch.where(v > 0.5, torch.full_like(v, float("nan")), v), "inf": lambda v: torch.where(v > 0.5, torch.full_like(v, float("inf")), v)}
    for dt in (torch.float32, torch.float64):
        layer.to(dt); dup.to(dt)
        par = {k: v.detach().clone() for k, v in layer.state_dict().items()}
        for (lname, lay), (vname, val) in itertools.product(layouts.items(), values.items()):
            x = lay(val(x0.to(dt)))
            keep = x.clone()
            Hi, Ho = base["Hin"].to(dt), base["Hout"].to(dt)
            with torch.no_grad():
                f = lambda v: (dup(v, Ho) if kind == "lift" else dup(v, Hi, Ho))[0]
                if vname in ("huge", "tiny", "zero"):  # linear in the features
                    pure = val(f(lay(x0.to(dt))))
                elif vname == "far":
                    pure = f(lay(x0.to(dt))) + 1e5 * f(torch.ones_like(keep))
                else:
                    pure = f(keep.clone())
                want = to_np(pure + (layer.bias.reshape((1, -1) + (1,) * (pure.ndim - 2)) if layer.bias is not None else 0))
            for (rname, rec), train, wants, again in itertools.product(recording.items(), (True, False), (False, True), (0, 1)):
                layer.train(train)
                what = f"{lname} {vname} {dt} {rname} training={train} input wants gradients={wants}"
                xi = x if not wants else lay(val(x0.to(dt))).detach().requires_grad_()
                hi, ho = Hi.clone(), Ho.clone()
                with rec():
                    y, H = layer(xi, ho) if kind == "lift" else layer(xi, hi, ho)
                ctx.state()
                ctx.check(y.dtype == dt, "dtype of the result", what)
                ctx.check(y.requires_grad == (rname == "grad"), "gradient recording of the result", what)
                a = to_np(y)
                fin = np.isfinite(want)
                scale = max(1.0, np.abs(want[fin]).max(initial=0))
                ctx.check(a.shape == want.shape and (np.isfinite(a) == fin).all() and np.abs(a[fin] - want[fin]).max(initial=0) <= scale * (1e-5 if dt == torch.float32 else 1e-12), "depends on the surroundings", what)
                ctx.same(xi.detach(), keep, "an input or a grid given to a layer changed", what)
                ctx.same(ho, Ho, "an input or a grid given to a layer changed", what)
                ctx.same(hi, Hi, "an input or a grid given to a layer changed", what)
                for k, v in layer.state_dict().items():
                    ctx.same(v, par[k], "a forward pass changed the layer", f"{k}: {what}")
                ctx.check(all(p.requires_grad and p.grad is None for p in layer.parameters()), "a forward pass changed the layer", what)
                with rec():  # and what came out is the caller's
                    y.mul_(0) if not (y.requires_grad or wants and rname == "grad") else None
                for k, v in layer.state_dict().items():
                    ctx.same(v, par[k], "a result shares memory with the layer", f"{k}: {what}")
                ctx.same(xi.detach(), keep, "a result shares memory with its input", what)
            ctx.trace()


WEIGHT_WAYS = ("data", "numpy", "parameter", "swap", "load", "copy_")
TENSOR_WAYS = ("copy_", "numpy", "view", "new", "data", "set_")


def memory(ctx, group, kind, depth):
    """All sequences of ways in which weights, grids or features get new values - in place behind torch's back, by another
    tensor over the same memory, by another tensor in memory just given back, by exchanging the storage - between calls."""
    import torch

    g = BY_NAME[group]
    spec = (group, kind, 1, dict(permute_output_grid=False))
    world = World(np.random.default_rng(176), [spec])
    w = world.t[group]
    xn = "x" if kind == "lift" else "xh"
    names = (xn, "Hout") if kind == "lift" else (xn, "Hin", "Hout")
    vers = [{n: world.versions[v][group, n] for n in names} for v in (0, 1)]
    tabs = {}
    for vs in itertools.product((0, 1), repeat=len(names)):
        with torch.no_grad():
            for n, v in zip(names, vs):
                w[n].copy_(T(vers[v][n]))
        tabs[vs] = table(g, kind, 1, spec[3], w)[True]
    shapes = [tuple(p.shape) for p in params(make(g, kind, w["grid"], 1, spec[3]), kind)]
    sets = [[np.random.default_rng([177, v, j]).normal(size=s) for j, s in enumerate(shapes)] for v in (0, 1)]
    alphabet = [("weights", way) for way in WEIGHT_WAYS] + [(n, way) for n in names for way in TENSOR_WAYS]
    for hist in itertools.product(alphabet, repeat=depth):
        layer = make(g, kind, w["grid"].clone(), 1, spec[3]).double()
        now = {**{n: 0 for n in names}, "weights": 0}
        with torch.no_grad():
            for p, v in zip(params(layer, kind), sets[0]):
                p.copy_(T(v))
        bufs = {n: vers[0][n].copy() for n in names}
        ts = {n: torch.from_numpy(bufs[n]) for n in names}

        def probe(what):
            for grad in (False, True):
                with torch.set_grad_enabled(grad):
                    y = layer(*[ts[n] for n in names])[0]
                want = predict(tabs[tuple(now[n] for n in names)], kind, sets[now["weights"]])
                ctx.close(y, want, "not the result of the current values", 1e-8, f"{what}, gradients {grad}")
                del y
        probe("at first")
        for i, (n, way) in enumerate(hist):
            now[n] = 1 - now[n]
            what = f"{hist[:i + 1]}"
            if n == "weights":
                vals = sets[now[n]]
                ps = params(layer, kind)
                if way == "load":
                    keys = {id(p): k for k, p in layer.named_parameters()}
                    layer.load_state_dict(dict(layer.state_dict(), **{keys[id(p)]: T(v) for p, v in zip(ps, vals)}))
                for p, v in zip(ps, vals):
                    if way == "data":
                        p.data.copy_(T(v))
                    elif way == "numpy":
                        p.detach().numpy()[...] = v
                    elif way == "swap":
                        p.data = T(v)
                    elif way == "copy_":
                        with torch.no_grad():
                            p.copy_(T(v))
                    elif way == "parameter":
                        for m in layer.modules():
                            for k, q in list(m._parameters.items()):
                                if q is p:
                                    setattr(m, k, torch.nn.Parameter(T(v)))
                del ps
            else:
                v = vers[now[n]][n]
                if way == "copy_":
                    ts[n].copy_(T(v))
                elif way == "numpy":
                    ts[n].numpy()[...] = v
                elif way == "view":  # another tensor over the same memory
                    a = ts[n].numpy()
                    del ts[n]
                    a[...] = v
                    ts[n] = torch.from_numpy(a)
                elif way == "new":  # usually the memory and the identity just given back
                    del ts[n], bufs[n]
                    bufs[n] = None
                    ts[n] = T(v)
                elif way == "data":
                    ts[n].data = T(v)
                elif way == "set_":
                    ts[n].set_(T(v))
            probe(what)
            ctx.state()
        ctx.trace()
        if ctx.nfail > 50:
            return


MODE_CONF = {"plain": {}, "no bias": dict(bias=False), "padded": dict(padding=1, padding_mode="replicate"), "same": dict(padding="same", padding_mode="circular"), "strided": dict(stride=2, padding=1), "nearest": dict(group_sampling_mode="nearest")}
NP = dict(permute_output_grid=False)
PAIRS = {
    "SE2 lift+lift": [("SE2", "lift", 1, NP), ("SE2", "lift", 2, NP)],
    "SE2 sep+conv": [("SE2", "sep", 1, NP), ("SE2", "conv", 1, NP)],
    "SE2 conv+conv": [("SE2", "conv", 1, NP), ("SE2", "conv", 1, NP)],
    "E2 lift+sep": [("E2", "lift", 2, NP), ("E2", "sep", 1, NP)],
    "E2 conv+conv": [("E2", "conv", 1, NP), ("E2", "conv", 1, dict(NP, group_sampling_mode="nearest"))],
    "SE2 sep+E2 sep": [("SE2", "sep", 1, NP), ("E2", "sep", 1, NP)],
    "SE3 lift+sep": [("SE3", "lift", 1, NP), ("SE3", "sep", 1, NP)],
    "SE3 conv+conv": [("SE3", "conv", 1, NP), ("SE3", "conv", 1, NP)],
    "E3 lift+conv": [("E3", "lift", 1, NP), ("E3", "conv", 1, NP)],
    "E3 sep+sep": [("E3", "sep", 1, NP), ("E3", "sep", 1, NP)],
    "SE2 permuted": [("SE2", "sep", 1, dict(permute_output_grid=True)), ("SE2", "lift", 1, dict(permute_output_grid=True))],
    "E3 permuted": [("E3", "conv", 1, dict(permute_output_grid=True)), ("E3", "lift", 1, dict(permute_output_grid=True))],
}


def cases(tier):
    th = tier == "thorough"
    out = []
    for g in ("SE2", "E2", "SE3", "E3"):
        for kind in ("lift", "sep", "conv"):
            for name, conf in MODE_CONF.items():
                if kind == "lift" and name == "nearest":
                    continue
                out.append(Case(f"modes:{g}:{kind}:{name}", modes, group=g, kind=kind, conf=conf))
    for g in ("SE2", "E2", "SE3", "E3"):
        for kind in ("lift", "sep", "conv"):
            out.append(Case(f"memory:{g}:{kind}", memory, group=g, kind=kind, depth=3 if th and g in ("SE2", "E2") else 2))
    for name, specs in PAIRS.items():
        n = 2 * len(OPS)
        three_d = specs[0][0] in ("SE3", "E3")
        depth = 3 if th or not three_d else 2
        if depth == 2:
            out.append(Case(f"{name}:2", explore, specs=specs, ops=OPS, depth=2, prefix=()))
        else:
            ops = OPS if th else ("callG", "reset", "set", "step", "copy", "cast", "rebuild", "load", "change", "mode")
            for a in range(2 * len(ops)):
                out.append(Case(f"{name}:3:{a}", explore, specs=specs, ops=ops, depth=3, prefix=(a,)))
            if th and not three_d:
                small = ("callG", "step", "copy", "cast", "rebuild", "change")
                for a, b in itertools.product(range(2 * len(small)), repeat=2):
                    out.append(Case(f"{name}:4:{a},{b}", explore, specs=specs, ops=small, depth=4, prefix=(a, b)))
            if not th:
                out.append(Case(f"{name}:2", explore, specs=specs, ops=OPS, depth=2, prefix=()))
    return out
