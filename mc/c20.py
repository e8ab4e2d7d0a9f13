"""C20: every weight entry, bias entry and input entry of small layers: since the layers are linear in each of
them, the derivative must equal the change of the output caused by adding one to that entry alone.  Pooling,
normalisation, activation and wrapper modules: gradients against ordinary modules applied slice by slice.
Histories of {freeze, accumulate, shared use, no_grad, re-initialise} over every layer kind."""
import itertools
import numpy as np
import cfg
from core import Case, to_np
from lib import BY_NAME, T, set_weights, nH, num_ref

SIZES = {"SE2": 3, "E2": (2, 1), "SE3": 3, "E3": (2, 1)}


def setup(ctx, group, kind, c):
    g = BY_NAME[group]
    n = cfg.geometry(c, g.dim, symmetric=False)
    S = (n, n + 1) if g.dim == 2 else (n, n, n)
    i, o, kw = cfg.layer_args(c, g, kind, 2)
    layer = g.layer(kind, i, o, c["k"], group_kernel_size=SIZES[group], **kw).double()
    set_weights(layer, ctx.rng)
    rng = np.random.default_rng(200)
    Hin, Hout = g.rand(2, rng), g.rand(2, rng)
    x = ctx.rng.normal(size=(2, i) + ((2,) if kind != "lift" else ()) + S)
    fwd = lambda x, l=layer: (l(x, T(Hout)) if kind == "lift" else l(x, T(Hin), T(Hout)))[0]
    return g, layer, fwd, T(x)


def entries(ctx, group, kind, c):
    import torch

    g, layer, fwd, x = setup(ctx, group, kind, c)
    x.requires_grad_(True)
    y = fwd(x)
    L = torch.as_tensor(ctx.rng.normal(size=tuple(y.shape)))
    params = dict(layer.named_parameters())
    grads = dict(zip(params, torch.autograd.grad((y * L).sum(), list(params.values()), retain_graph=True, allow_unused=True)))
    gx, = torch.autograd.grad((y * L).sum(), x, retain_graph=True)
    for name, p in params.items():
        if not ctx.check(grads[name] is not None, "a parameter does not reach the output", name):
            continue
        want = np.zeros(p.numel())
        with torch.no_grad():
            flat = p.view(-1)
            for e in range(p.numel()):
                old = flat[e].item()
                flat[e] = old + 1.0
                want[e] = float(((fwd(x) - y) * L).sum())
                flat[e] = old
                ctx.state()
        ctx.close(grads[name].reshape(-1), want, "gradient is not the derivative", 1e-9, f"{name} {tuple(p.shape)}")
        ctx.check(np.abs(want).max() > 1e-6, "a parameter does not influence the output", name)
    if layer.bias is not None:
        g1, = torch.autograd.grad(y.sum(), layer.bias, retain_graph=True)
        ctx.close(g1.reshape(-1), np.full(layer.out_channels, y[:, 0].numel()), "bias gradient is not the number of positions", 1e-9)
        if layer.bias.numel() != layer.out_channels:
            ctx.fail("bias entries", f"{tuple(layer.bias.shape)}")
    # the input: one-hot images, as many at a time as there are entries in one image
    one = x[0].numel()
    with torch.no_grad():
        E = torch.eye(one, dtype=torch.float64).reshape(one, *x.shape[1:])
        base = fwd(torch.zeros_like(x[:1]))
        R = fwd(E) - base
    for b in range(len(x)):
        ctx.close(gx[b].reshape(-1), (R * L[b]).reshape(one, -1).sum(1), "input gradient is not the adjoint", 1e-9, f"image {b}")
        ctx.state(one)
    # gradients in single precision are those of double precision up to rounding
    layer.float()
    L32, x32 = L.float(), x.detach().float()
    ys = ((layer(x32, *_grids(group, kind, torch.float32)))[0] * L32).sum()
    for name, gr in zip(params, torch.autograd.grad(ys, list(layer.parameters()), allow_unused=True)):
        if c["smode"] == "bilinear" and ctx.check(gr is not None and gr.dtype == torch.float32, "single precision gradient", name):
            s = float(grads[name].abs().max())
            ctx.close(to_np(gr) / max(1.0, s), to_np(grads[name]) / max(1.0, s), "single precision gradient", 2e-3, name)
    ctx.trace()


def _grids(group, kind, dtype):
    g = BY_NAME[group]
    rng = np.random.default_rng(200)
    Hin, Hout = T(g.rand(2, rng), dtype), T(g.rand(2, rng), dtype)
    return (Hout,) if kind == "lift" else (Hin, Hout)


def wide(ctx, group, kind, conf):
    """Sizes far from the small ones.  The layers are linear in the weights and in the input: the gradient's product
    with a direction is the exact change of the output; directions: generic, one group of entries at a time."""
    import torch

    g = BY_NAME[group]
    d = g.dim
    B, i, o, gr, S, ni, no, nr = conf
    rng = np.random.default_rng(203)
    Hin, Hout = T(g.rand(ni, rng)), T(g.rand(no, rng))
    layer = g.layer(kind, i, o, 3, groups=gr, padding=1, bias=True, group_kernel_size=((nr + 1) // 2, nr // 2) if g.improper else nr).double()
    linear(ctx, layer, kind, B, i, S, ni, Hin, Hout, conf)


def linear(ctx, layer, kind, B, i, S, ni, Hin, Hout, conf):
    import torch

    set_weights(layer, ctx.rng)
    fwd = lambda x: (layer(x, Hout) if kind == "lift" else layer(x, Hin, Hout))[0]
    x = T(ctx.rng.normal(size=(B, i) + ((ni,) if kind != "lift" else ()) + S)).requires_grad_(True)
    y = fwd(x)
    L = T(ctx.rng.normal(size=tuple(y.shape)))
    ps = dict(layer.named_parameters())
    grads = torch.autograd.grad((y * L).sum(), [x] + list(ps.values()), allow_unused=True)
    y = y.detach()

    def directions(p, n=3):
        yield T(ctx.rng.normal(size=tuple(p.shape)))
        for a in range(p.ndim):  # the last index of every axis alone, and the first
            for k in {p.shape[a] - 1, 0}:
                v = torch.zeros_like(p)
                v.select(a, k).copy_(T(ctx.rng.normal(size=tuple(v.select(a, k).shape))))
                yield v
    with torch.no_grad():
        for name, p, gr_ in zip(["input"] + list(ps), [x] + list(ps.values()), grads):
            if not ctx.check(gr_ is not None, "a parameter does not reach the output", f"{name} {conf}") or not p.numel():
                continue
            old = p.detach().clone()
            for j, v in enumerate(directions(old)):
                p.copy_(old + v)
                r = fwd(p if name == "input" else x) - y
                p.copy_(old)
                want = float((r * L).sum())
                sc = float(((r.abs() + 1e-4 * y.abs()) * L.abs()).sum()) + 1e-12
                ctx.close((gr_ * v).sum() / sc, want / sc, "gradient is not the derivative", 1e-9, f"{name} direction {j} {conf}")
                ctx.state()
    ctx.trace()


def sampling(ctx, group, kind, gmode, width, train):
    """Group sampling modes and widths x numbers of elements in, out and of reference; no, one or all of them given."""
    import torch

    g = BY_NAME[group]
    d = g.dim
    rng = np.random.default_rng(204)
    for nr, ni, no in itertools.product((1, 2, 5), (1, 2, 4), (1, 2, 4)):
        if g.improper and nr == 1:
            continue
        kw = {} if not width else dict(group_sampling_width=width) if not g.improper else dict(group_rotation_sampling_width=width, group_reflection_sampling_width=width)
        layer = g.layer(kind, 2, 2, 2, groups=2, padding=1, bias=True, group_sampling_mode=gmode, group_kernel_size=((nr + 1) // 2, nr // 2) if g.improper else nr, **kw)
        layer = layer.double().train(train)
        R = layer.kernel.grid_H.clone().numpy()
        conf = (nr, ni, no)
        S = (3, 2) if d == 2 else (2, 3, 2)
        Hin, Hout = T(g.rand(ni, rng)), T(g.rand(no, rng))
        linear(ctx, layer, kind, 1, 2, S, ni, Hin, Hout, conf)
        if no == 1:  # grids taken from the reference grid, in the caller's order
            linear(ctx, layer, kind, 2, 2, S, nr, T(R), T(R[::-1]), conf + ("reference",))
            linear(ctx, layer, kind, 2, 2, S, 1, T(R[-1:]), T(R[:1]), conf + ("one of the reference",))


OPS = ("forward", "nograd", "backward", "backward2", "freeze", "unfreeze", "zero", "reset", "step", "eval")


def histories(ctx, group, kind, depth):
    """All histories of training operations: gradients accumulate and nothing else changes."""
    import torch

    g = BY_NAME[group]
    rng = np.random.default_rng(201)
    S = (4, 3) if g.dim == 2 else (3, 3, 3)
    xs = [T(rng.normal(size=(1, 1) + ((2,) if kind != "lift" else ()) + S)) for _ in range(2)]
    grids = _grids(group, kind, torch.float64)
    H0 = [to_np(h).copy() for h in grids]
    x0 = [to_np(x).copy() for x in xs]
    for hist in itertools.product(OPS, repeat=depth):
        torch.manual_seed(3)
        layer = g.layer(kind, 1, 2, 3, group_kernel_size=SIZES[group], padding=1, bias=True).double()
        ref = layer_grads(layer, xs, grids)
        first = next(iter(layer.parameters()))
        acc = {n: None for n, _ in layer.named_parameters()}
        for op in hist:
            state = {k: v.clone() for k, v in layer.state_dict().items()}
            may_change = False
            if op == "forward":
                y = layer(xs[0], *grids)[0]
                ctx.check(y.requires_grad, "the output does not require gradients", str(hist))
            elif op == "nograd":
                with torch.no_grad():
                    a = layer(xs[0], *grids)[0]
                    ctx.check(not a.requires_grad, "gradients recorded without need", str(hist))
                ctx.close(a, layer(xs[0], *grids)[0].detach(), "no_grad changes the output", 1e-12, str(hist))
            elif op in ("backward", "backward2"):
                k = int(op == "backward2")
                layer(xs[k], *grids)[0].square().sum().backward()
                for n, p in layer.named_parameters():
                    if p.requires_grad:
                        acc[n] = ref[k][n] if acc[n] is None else acc[n] + ref[k][n]
            elif op == "freeze":
                first.requires_grad_(False)
            elif op == "unfreeze":
                first.requires_grad_(True)
            elif op == "zero":
                layer.zero_grad()
                acc = {n: None for n in acc}
            elif op == "eval":
                layer.eval()
            elif op == "step":
                torch.optim.SGD(layer.parameters(), lr=1e-2).step()
                ref = layer_grads(layer, xs, grids)
                may_change = any(v is not None for v in acc.values())
            elif op == "reset":
                reset(ctx, layer, hist)
                ref = layer_grads(layer, xs, grids)
                may_change = True
            for n, p in layer.named_parameters():
                if acc[n] is None:
                    ctx.check(p.grad is None or not p.grad.any(), "gradient from nowhere", f"{hist} {n}")
                elif ctx.check(p.grad is not None, "gradient missing", f"{hist} {n}"):
                    ctx.close(p.grad, acc[n], "gradients do not accumulate", 1e-9, f"{hist} {n}")
            for n, v in layer.state_dict().items():
                if not may_change or "weight" not in n and "bias" not in n:
                    ctx.same(v, to_np(state[n]), "state changed", f"{hist} after {op}: {n}")
            ctx.state()
        ctx.trace()
        if ctx.nfail > 20:
            return
    for a, b in list(zip(grids, H0)) + list(zip(xs, x0)):
        ctx.same(a, b, "arguments changed")


def frozen(ctx, group, kind):
    """Every subset of the parameters and the input frozen, in both modes: the others' gradients stay as they are."""
    import torch

    g = BY_NAME[group]
    rng = np.random.default_rng(205)
    S = (4, 3) if g.dim == 2 else (3, 3, 3)
    grids = _grids(group, kind, torch.float64)
    for groups, train, permute in itertools.product((1, 2), (True, False), (False, True)):
        torch.manual_seed(3)
        layer = g.layer(kind, 2, 2, 3, groups=groups, group_kernel_size=SIZES[group], padding=1, bias=True, permute_output_grid=permute).double().train(train)
        x = T(rng.normal(size=(2, 2) + ((2,) if kind != "lift" else ()) + S))
        ps = dict(layer.named_parameters(), input=x)
        L = None
        full = None
        for r in range(len(ps), 0, -1):
            for sub in itertools.combinations(ps, r):
                for n, p in ps.items():
                    p.grad = None
                    p.requires_grad_(n in sub)
                torch.manual_seed(4)
                y = layer(x, *grids)[0]
                what = f"groups={groups} train={train} permute={permute}: only {sub} requires gradients"
                if not ctx.check(y.requires_grad, "the output does not require gradients", what):
                    continue
                L = T(rng.normal(size=y.shape)) if L is None else L
                (y * L).sum().backward()
                if full is None:
                    full = {n: p.grad.clone() for n, p in ps.items()}
                    for n, v in full.items():
                        ctx.check(bool(v.abs().max() > 0), "gradient missing", f"{what}: {n}")
                for n, p in ps.items():
                    if n not in sub:
                        ctx.check(p.grad is None, "gradient of something frozen", f"{what}: {n}")
                    elif ctx.check(p.grad is not None, "gradient missing", f"{what}: {n}"):
                        ctx.close(p.grad, full[n], "gradient depends on what else is frozen", 1e-10, f"{what}: {n}")
                ctx.state()
        ctx.trace()


def layer_grads(layer, xs, grids):
    """Gradients of a pristine copy."""
    import copy
    out = []
    for x in xs:
        l = copy.deepcopy(layer)
        for p in l.parameters():
            p.grad = None
            p.requires_grad_(True)
        l(x, *grids)[0].square().sum().backward()
        out.append({n: p.grad.clone() for n, p in l.named_parameters()})
    return out


def reset(ctx, layer, what):
    old = {n: p.detach().clone() for n, p in layer.named_parameters()}
    ids = {n: id(p) for n, p in layer.named_parameters()}
    layer.reset_parameters()
    for n, p in layer.named_parameters():
        ctx.check(id(p) == ids[n], "re-initialisation replaces the parameter", f"{what} {n}")
        v = to_np(p)
        if ctx.check(np.isfinite(v).all() and np.abs(v).max() < 1e3, "re-initialised parameter not finite", f"{what} {n}"):
            ctx.check((v != to_np(old[n])).all(), "re-initialisation keeps old values", f"{what} {n}: {(v == to_np(old[n])).sum()} of {v.size}")
            if v.size > 8:
                ctx.check(len(np.unique(v)) > v.size // 2, "re-initialised values are not drawn independently", f"{what} {n}")


def initialise(ctx, group, kind):
    """Construction and re-initialisation over channels, kernel sizes, groups: finite, new, reproducible."""
    import torch

    g = BY_NAME[group]
    for (i, o, gr), k, bias, sz in itertools.product(((1, 1, 1), (2, 3, 1), (4, 6, 2), (3, 3, 3), (16, 8, 1)), (1, 2, 3, 5), (False, True), g.sizes[:3]):
        if g.dim == 3 and k == 5 and i == 16:
            continue
        what = f"{(i, o, gr)} k={k} bias={bias} size={sz}"
        build = lambda: g.layer(kind, i, o, k, groups=gr, bias=bias, group_kernel_size=sz)
        torch.manual_seed(5)
        layer = build()
        vals = {n: to_np(p).copy() for n, p in layer.named_parameters()}
        ctx.check(("bias" in vals) == bias, "bias", what)
        for n, p in layer.named_parameters():
            ctx.check(p.requires_grad and p.is_leaf, "not trainable", f"{what} {n}")
            v = vals[n]
            ctx.check(np.isfinite(v).all() and 0 < np.abs(v).max() < 1e2, "initial values", f"{what} {n}")
        # as many weights as the definition has
        m, K, d = num_ref(sz) if g.improper else sz, k ** g.dim, o * i // gr
        want = {"lift": [d * K], "sep": sorted((m * d, o * K)), "conv": [m * d * K]}[kind]
        got = sorted(v.size for n, v in vals.items() if n != "bias")
        ctx.check(got == want, "number of weights", f"{what}: {got} instead of {want}")
        torch.manual_seed(5)
        for n, p in build().named_parameters():
            ctx.same(p, vals[n], "construction is not reproducible", f"{what} {n}")
        torch.manual_seed(6)
        reset(ctx, layer, what)
        a = {n: to_np(p).copy() for n, p in layer.named_parameters()}
        reset(ctx, layer, what)
        torch.manual_seed(6)
        layer.reset_parameters()
        for n, p in layer.named_parameters():
            ctx.same(p, a[n], "re-initialisation is not reproducible", f"{what} {n}")
        ctx.state()
    ctx.trace()


def slices(mod, x, dims=2):
    """An ordinary spatial module, group element by group element."""
    import torch
    return torch.stack([mod(x[:, :, h]) for h in range(x.shape[2])], 2)


def modules(ctx, dim):
    import torch
    import torch.nn as nn
    import gconv.gnn as gnn

    N = lambda name: getattr(nn, f"{name}{dim}d")
    G = lambda name: getattr(gnn, f"{name}{dim}d")
    S = (5, 4) if dim == 2 else (4, 3, 4)
    C, K = 2, 3
    H = T(ctx.rng.normal(size=(K, 1)))

    def affine(m):
        with torch.no_grad():
            for j, p in enumerate(m.parameters()):
                p.copy_(torch.linspace(0.5, 1.5 + j, p.numel(), dtype=torch.float64).reshape(p.shape))
        return m

    pairs = []
    for k, s, p, ceil in itertools.product((1, 2, 3), (None, 1, 2), (0, 1), (False, True)):
        if 2 * p > k:
            continue
        pairs.append((f"max k={k} s={s} p={p} ceil={ceil}", G("GMaxSpatialPool")(k, s, p, ceil_mode=ceil), lambda x, m=N("MaxPool")(k, s, p, ceil_mode=ceil): slices(m, x), ()))
        pairs.append((f"avg k={k} s={s} p={p} ceil={ceil}", G("GAvgSpatialPool")(k, s, p, ceil), lambda x, m=N("AvgPool")(k, s, p, ceil): slices(m, x), ()))
    for n in (1, 2, 3, 5):
        pairs.append((f"adaptive max {n}", G("GAdaptiveMaxSpatialPool")(n), lambda x, m=N("AdaptiveMaxPool")(n): slices(m, x), ()))
        pairs.append((f"adaptive avg {n}", G("GAdaptiveAvgSpatialPool")(n), lambda x, m=N("AdaptiveAvgPool")(n): slices(m, x), ()))
    flat = lambda x: x.reshape(*x.shape[:2], -1)

    def pick(x, axis):  # maximum by explicit selection
        i = x.argmax(axis, keepdim=True)
        return x.gather(axis, i)
    pairs += [("max group", gnn.GMaxGroupPool(), lambda x: pick(x, 2).squeeze(2), ()),
              ("avg group", gnn.GAvgGroupPool(), lambda x: x.sum(2) / x.shape[2], ()),
              ("max global", gnn.GMaxGlobalPool(), lambda x: pick(flat(x), 2), ()),
              ("avg global", gnn.GAvgGlobalPool(), lambda x: flat(x).sum(2, keepdim=True) / flat(x).shape[2], ()),
              ("relu", gnn.GReLU(), lambda x: torch.where(x > 0, x, 0 * x), ()),
              ("relu inplace", gnn.GReLU(inplace=True), lambda x: torch.where(x > 0, x, 0 * x), ()),
              ("leaky", gnn.GLeakyReLU(0.3), lambda x: torch.where(x > 0, x, 0.3 * x), ()),
              ("gelu", gnn.GGELU(), nn.functional.gelu, ()),
              ("gelu tanh", gnn.GGELU("tanh"), lambda x: nn.functional.gelu(x, approximate="tanh"), ()),
              ]
    for inner in (nn.Sigmoid(), nn.PReLU(), nn.Softplus(), nn.Identity(), nn.Dropout(0.0), nn.Sequential(nn.Tanh(), nn.PReLU())):
        inner = inner.double()
        pairs.append((f"wrap {type(inner).__name__}", gnn.GWrap(inner), inner, ("shared",)))
    for train in (True, False):
        for aff in (True, False):
            a, b = affine(G("GBatchNorm")(C, affine=aff).double()), affine(nn.BatchNorm1d(C, affine=aff).double())
            pairs.append((f"batch norm {train} {aff}", a.train(train), lambda x, b=b.train(train): b(flat(x)).reshape(x.shape), (a, b)))
            for tr in (True, False):
                a, b = affine(G("GInstanceNorm")(C, affine=aff, track_running_stats=tr).double()), affine(nn.InstanceNorm1d(C, affine=aff, track_running_stats=tr).double())
                pairs.append((f"instance norm {train} {aff} {tr}", a.train(train), lambda x, b=b.train(train): b(flat(x)).reshape(x.shape), (a, b)))
    for shape in (S[-1:], S):
        a, b = affine(gnn.GLayerNorm(shape).double()), affine(nn.LayerNorm(shape).double())
        pairs.append((f"layer norm {shape}", a, lambda x, b=b: torch.stack([b(x[:, :, h]) for h in range(x.shape[2])], 2), (a, b)))

    for name, mod, ref, par in pairs:
        for trial in range(2):
            x = T(ctx.rng.normal(size=(2, C, K) + S))
            x1, x2 = x.clone().requires_grad_(True), x.clone().requires_grad_(True)
            shared = par == ("shared",)
            if shared:
                mod.zero_grad()
            r = mod(x1 * 1.0, H)  # in-place modules may overwrite their input
            y = r[0] if isinstance(r, tuple) else r
            z = ref(x2 * 1.0)
            if not ctx.close(y, z, "output", 1e-9, name):
                break
            L = T(ctx.rng.normal(size=tuple(y.shape)))
            pa = list(mod.parameters()) if par else []
            pb = pa if shared else list(par[1].parameters()) if par else []
            ga = torch.autograd.grad((y * L).sum(), [x1] + pa)
            gb = torch.autograd.grad((z * L).sum(), [x2] + pb)
            for i, (u, v) in enumerate(zip(ga, gb)):
                ctx.close(u, v, "gradient differs from the ordinary module's", 1e-9, f"{name} {'input' if i == 0 else f'parameter {i}'}")
            ctx.state()
        ctx.trace()


def chain(ctx, group):
    """Gradients through a whole network: directional derivative in double precision against a central difference."""
    import torch
    import torch.nn as nn
    import gconv.gnn as gnn

    g = BY_NAME[group]
    d = g.dim
    kw = dict(group_kernel_size=SIZES[group], padding=1, bias=True)
    rng = np.random.default_rng(202)
    for combo in itertools.product(("sep", "conv"), ("bn", "in", "none"), ("gelu", "wrap")):
        net = [g.layer("lift", 1, 2, 3, **kw)]
        net += {"bn": [getattr(gnn, f"GBatchNorm{d}d")(2)], "in": [getattr(gnn, f"GInstanceNorm{d}d")(2, affine=True)], "none": []}[combo[1]]
        net += [gnn.GGELU() if combo[2] == "gelu" else gnn.GWrap(nn.Softplus()), g.layer(combo[0], 2, 2, 3, **kw), getattr(gnn, f"GAvgSpatialPool{d}d")(2)]
        net = nn.ModuleList(net).double()
        set_weights(net, ctx.rng, 0.5)
        H = [T(g.rand(2, rng)), T(g.rand(3, rng))]
        x = T(ctx.rng.normal(size=(2, 1) + (4,) * d)).requires_grad_(True)

        def f():
            y, h = net[0](x, H[0])
            for m in net[1:-2]:
                y, h = m(y, h)
            y, h = net[-2](y, h, H[1])
            y, h = net[-1](y, h)
            return y
        y = f()
        L = T(ctx.rng.normal(size=tuple(y.shape)))
        ps = list(net.parameters()) + [x]
        gr = torch.autograd.grad((y * L).sum(), ps)
        for j, p in enumerate(ps):
            v = T(ctx.rng.normal(size=tuple(p.shape)))
            vals = []
            with torch.no_grad():
                for e in (1e-5, -1e-5):
                    p.add_(v, alpha=e)
                    vals.append(float((f() * L).sum()))
                    p.add_(v, alpha=-e)
            ctx.close(float((gr[j] * v).sum()), (vals[0] - vals[1]) / 2e-5, "gradient through a network", 1e-5, f"{combo} parameter {j}")
            ctx.state()
        ctx.trace()


def cases(tier):
    th = tier == "thorough"
    out = []
    from c04 import WIDE
    for group, kind in itertools.product(BY_NAME, ("lift", "sep", "conv")):
        for j, c in enumerate(WIDE[BY_NAME[group].dim]):
            if c[5] * c[6] < 4000 and (kind != "lift" or c[5] < 60):
                out.append(Case(f"wide:{group}:{kind}:{j}", wide, group=group, kind=kind, conf=c))
    for group in BY_NAME:
        d = BY_NAME[group].dim
        menu = cfg.MENU if d == 2 else cfg.MENU3
        for kind in ("lift", "sep", "conv"):
            done = set()
            for c in itertools.chain(cfg.deviations(menu, 2 if th and d == 2 else 1), cfg.padded(menu)):
                if not cfg.valid(c, d, symmetric=False) or cfg.cid(c, menu) in done:
                    continue
                if c["padding"] != 0 and c["padding_mode"] != "zeros" and d == 3 and not th and (c["stride"], c["dilation"], c["chan"], c["k"]) != (1, 1, "basis", 3):
                    continue
                done.add(cfg.cid(c, menu))
                if d == 3 and not th and group == "E3" and c["k"] == 3 and kind == "conv" and c["chan"] != "basis":
                    continue
                out.append(Case(f"{group}:{kind}:{cfg.cid(c, menu)}", entries, group=group, kind=kind, c=c))
            out.append(Case(f"{group}:{kind}:histories", histories, group=group, kind=kind, depth=3 if th else 2))
            out.append(Case(f"{group}:{kind}:frozen", frozen, group=group, kind=kind))
            out.append(Case(f"{group}:{kind}:initialise", initialise, group=group, kind=kind))
        out.append(Case(f"{group}:chain", chain, group=group))
        for kind, gmode, width, train in itertools.product(("sep", "conv"), ("rbf", "nearest"), (0.0, 0.5), (True, False)):
            if gmode == "rbf" or not width:
                out.append(Case(f"{group}:{kind}:sampling:{gmode}:{width}:{'train' if train else 'eval'}", sampling, group=group, kind=kind,
                                gmode=gmode, width=width, train=train))
    out += [Case(f"modules{d}d", modules, dim=d) for d in (2, 3)]
    return out
