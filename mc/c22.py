"""C22: all constructors x devices; all layers (deviation-bounded configurations), modules and group operations x
precisions x memory layouts of every argument; all compositions of a batch.  Oracle: the same computation on
contiguous single-device whole-batch arguments."""
import itertools, math
import numpy as np
import cfg
from core import Case, to_np
from lib import BY_NAME, T, set_weights

SIZES = {"SE2": 3, "E2": (2, 1), "SE3": 3, "E3": (2, 1)}


# ---------------------------------------------------------------- devices

def constructors():
    """(name, function of device, parameters are moved by it)."""
    import importlib
    from gconv.geometry import so2, o2, so3, o3
    from gconv.gnn import functional as gF
    s2 = importlib.import_module("gconv.geometry.groups.s2")

    def add(name, f):
        out.append((name, f))
    out = []
    for n in (0, 1, 2, 5, 24):
        add(f"so2.uniform_grid({n})", lambda d, n=n: so2.uniform_grid(n, device=d))
        add(f"so2.random_grid({n})", lambda d, n=n: so2.random_grid(n, device=d))
        add(f"o2.random_grid({n})", lambda d, n=n: o2.random_grid(n, device=d))
        add(f"so3.random_quat({n})", lambda d, n=n: so3.random_quat(n, device=d))
        add(f"so3.random_matrix({n})", lambda d, n=n: so3.random_matrix(n, device=d))
        add(f"o3.random_grid({n})", lambda d, n=n: o3.random_grid(n, device=d))
        add(f"s2.random_s2({n})", lambda d, n=n: s2.random_s2((n,), device=d))
        add(f"so3.random_matrix(({n}, 2))", lambda d, n=n: so3.random_matrix((n, 2), device=d))
        if n:
            add(f"create_grid_R2({n})", lambda d, n=n: gF.create_grid_R2(n, device=d))
            add(f"create_spherical_mask_R2({n})", lambda d, n=n: gF.create_spherical_mask_R2(n, device=d))
        if 0 < n < 9:
            add(f"create_grid_R3({n})", lambda d, n=n: gF.create_grid_R3(n, device=d))
            add(f"create_spherical_mask_R3({n})", lambda d, n=n: gF.create_spherical_mask_R3(n, device=d))
        if n:
            for p in ("quat", "matrix", "euler"):
                add(f"so3.uniform_grid({n}, {p})", lambda d, n=n, p=p: so3.uniform_grid(n, p, show_pbar=False, device=d))
            for ax in "xyz":
                add(f"so3.cyclic({n}, {ax})", lambda d, n=n, ax=ax: so3.cyclic(n, ax, device=d))
                add(f"so3.cyclic_{ax}({n})", lambda d, n=n, ax=ax: getattr(so3, f"cyclic_{ax}")(n, device=d))
    for a, b in itertools.product((0, 1, 3), repeat=2):
        add(f"o2.uniform_grid({a}, {b})", lambda d, a=a, b=b: o2.uniform_grid((a, b), device=d))
        if a + b:
            for p in ("matrix", ):
                add(f"o3.uniform_grid({a}, {b})", lambda d, a=a, b=b: o3.uniform_grid((a, b), device=d))
        add(f"o3.random_grid(({a}, {b}))", lambda d, a=a, b=b: o3.random_grid((a, b), device=d))
    for n in ("identity", "klein_group", "tetrahedral", "octahedral", "icosahedral"):
        add(f"so3.{n}", lambda d, n=n: getattr(so3, n)(device=d))
    add("so3.random_euler", lambda d: so3.random_euler(4, device=d))
    add("so3.random_quat tuple", lambda d: so3.random_quat((2, 3), device=d))
    return out


def data_dependent(e):
    """The allocation-free device cannot run steps whose shape or course depends on values."""
    m = str(e)
    return "nonzero" in m or "meta tensors" in m or "data-dependent" in m or "data dependent" in m


def devices(ctx, lo, hi):
    import torch

    allc = constructors()
    for name, f in allc[lo:hi]:
        base = f("cpu")
        for dev in (None, "cpu", "meta", torch.device("cpu"), torch.device("meta")):
            try:
                t = f(dev)
            except Exception as e:
                if data_dependent(e):
                    ctx.outcome(("data dependent", name))
                    continue
                ctx.fail("constructor fails on a device", f"{name} on {dev}: {type(e).__name__} {e}")
                continue
            want = "cpu" if dev is None else torch.device(dev).type
            ctx.check(t.device.type == want, "wrong device", f"{name} on {dev}: {t.device}")
            ctx.check(t.shape == base.shape and t.dtype == base.dtype, "another shape or precision", f"{name} on {dev}: {tuple(t.shape)} {t.dtype}")
            ctx.check(not t.requires_grad, "requires a gradient", name)
            ctx.state()
        with torch.device("meta"):  # the ambient device does not override an explicit one
            try:
                t = f("cpu")
                ctx.check(t.device.type == "cpu" and t.shape == base.shape, "wrong device", f"{name} on cpu under another ambient device")
            except Exception as e:
                ctx.outcome(("ambient", name, type(e).__name__))
        ctx.trace()
    ctx.sample({"constructors": [n for n, _ in allc[lo:hi]][:5]})


def meta_layers(ctx, group, kind):
    """A layer moved to another device computes there; every random grid is drawn where the input is."""
    import torch

    g = BY_NAME[group]
    for permute, grids, bias in itertools.product((False, True), (0, 1, 2), (False, True)):
        if kind == "lift" and grids == 2:
            continue
        layer = g.layer(kind, 1, 2, 3, group_kernel_size=SIZES[group], permute_output_grid=permute, bias=bias)
        want_p = {n: p.shape for n, p in layer.named_parameters()}
        layer = layer.to("meta")
        x = torch.empty((1, 1) + ((2,) if kind != "lift" else ()) + (5,) * g.dim, device="meta")
        H = torch.empty((2,) + g.shape(), device="meta")
        O = torch.empty((3,) + g.shape(), device="meta")
        args = {"lift": [(x,), (x, O)], "sep": [(x, H), (x, H, O)], "conv": [(x, H), (x, H, O)]}[kind]
        for a in args:
            try:
                y, h = layer(*a)
            except Exception as e:
                if data_dependent(e):
                    ctx.outcome("data dependent")
                    continue
                ctx.fail("layer fails on another device", f"permute={permute} bias={bias} {len(a)} arguments: {type(e).__name__} {e}")
                continue
            ctx.check(y.device.type == "meta" and h.device.type == "meta", "layer leaves the device", f"permute={permute} {len(a)}: {y.device} {h.device}")
            ctx.state()
        ctx.check(all(t.device.type == "meta" for t in layer.state_dict().values()), "state left on another device", str({n: t.device for n, t in layer.state_dict().items()}))
        ctx.check({n: p.shape for n, p in layer.named_parameters()} == want_p, "shapes", "")
        ctx.trace()


# ---------------------------------------------------------------- memory layouts

def layouts(t):
    """(name, tensor equal to t in another memory layout)."""
    import torch

    n = t.dim()
    if n == 0 or t.numel() == 0:
        return
    for perm in {tuple(range(n))[::-1], tuple(range(1, n)) + (0,), (n - 1,) + tuple(range(n - 1))}:
        inv = np.argsort(perm).tolist()
        yield f"permuted {perm}", t.permute(perm).contiguous().permute(inv)
    big = torch.full([2 * s + 1 for s in t.shape], 77.0 if t.is_floating_point() else 7, dtype=t.dtype)
    v = big[tuple(slice(1, 2 * s + 1, 2) for s in t.shape)]
    v.copy_(t)
    yield "every second entry", v
    big = torch.full([s + 2 for s in t.shape], 77.0 if t.is_floating_point() else 7, dtype=t.dtype)
    v = big[tuple(slice(1, s + 1) for s in t.shape)]
    v.copy_(t)
    yield "window", v
    if n in (4, 5):
        yield "channels last", t.contiguous(memory_format=torch.channels_last if n == 4 else torch.channels_last_3d)
    if n == 1:
        yield "column", torch.stack((t, t + 1), 1)[:, 0]
    yield "unsafe view of a stack", torch.stack((t, t * 0 + 3), -1)[..., 0]


def expanded(t, axes):
    """(name, expanded tensor) constant along an axis."""
    for a in axes:
        if a < t.dim() and t.shape[a] > 1:
            yield f"expanded axis {a}", t.narrow(a, 0, 1).expand(t.shape)


def pristine(t):
    """A copy of the values, to see whether a call changed its arguments."""
    return to_np(t).copy()


def conf_layer(ctx, group, kind, c):
    g = BY_NAME[group]
    n = cfg.geometry(c, g.dim, symmetric=False)
    S = (n, n + 1) if g.dim == 2 else (n, n, n + 1)
    i, o, kw = cfg.layer_args(c, g, kind, 2)
    layer = g.layer(kind, i, o, c["k"], group_kernel_size=SIZES[group], **kw)
    set_weights(layer, ctx.rng)
    rng = np.random.default_rng(220)
    Hin, Hout = T(g.rand(2, rng)), T(g.rand(3, rng))
    x = T(ctx.rng.normal(size=(4, i) + ((2,) if kind != "lift" else ()) + S))
    return g, layer, x, Hin, Hout


def layer_case(ctx, group, kind, c):
    import torch

    g, layer, x, Hin, Hout = conf_layer(ctx, group, kind, c)
    call = (lambda l, x, i, o: l(x, o)) if kind == "lift" else (lambda l, x, i, o: l(x, i, o))
    # ---- precision
    f32 = call(layer, x.float(), Hin.float(), Hout.float())
    ctx.check(f32[0].dtype == torch.float32 and f32[1].dtype == torch.float32, "precision of the output", f"single: {f32[0].dtype}, {f32[1].dtype}")
    layer = layer.double()
    y, h = call(layer, x, Hin, Hout)
    ctx.check(y.dtype == torch.float64 and h.dtype == torch.float64, "precision of the output", f"double: {y.dtype}, {h.dtype}")
    if c["smode"] == "bilinear":
        ctx.close(f32[0], y, "single and double precision disagree", 5e-3)
    ctx.check(layer.kernel.grid_H.dtype == torch.float64, "buffers are not converted", str(layer.kernel.grid_H.dtype))
    d = layer(x) if kind == "lift" else layer(x, Hin)
    ctx.check(d[0].dtype == torch.float64 and d[1].dtype == torch.float64, "precision of the output", f"default grid: {d[0].dtype}, {d[1].dtype}")
    back = call(layer.to(torch.float32), x.float(), Hin.float(), Hout.float())
    ctx.close(back[0], f32[0], "conversion there and back changes the layer", 1e-4 if c["smode"] == "bilinear" else 1e9)
    ctx.check(back[0].dtype == torch.float32, "precision of the output", f"back: {back[0].dtype}")
    layer = layer.double()
    y, h = call(layer, x, Hin, Hout)
    ctx.state(4)

    # ---- memory layouts of each argument, and of all of them
    def compare(xx, i, o, want, what):
        before = [pristine(t) for t in (xx, i, o)]
        r, rh = call(layer, xx, i, o)
        ctx.close(r, want[0], "memory layout matters", 1e-9, what)
        ctx.same(rh, to_np(want[1]), "memory layout matters", what)
        for t, b in zip((xx, i, o), before):
            ctx.same(t, b, "argument changed", what)
        ctx.state()

    lx, li, lo = list(layouts(x)), list(layouts(Hin)), list(layouts(Hout))
    for name, v in lx:
        compare(v, Hin, Hout, (y, h), f"input {name}")
    if kind != "lift":
        for name, v in li:
            compare(x, v, Hout, (y, h), f"input grid {name}")
    for name, v in lo:
        compare(x, Hin, v, (y, h), f"output grid {name}")
    for j in range(max(len(lx), len(li), len(lo))):
        compare(lx[j % len(lx)][1], li[j % len(li)][1], lo[j % len(lo)][1], (y, h), f"all: {lx[j % len(lx)][0]}, {li[j % len(li)][0]}")
    for name, v in expanded(x, range(x.dim())):
        compare(v, Hin, Hout, call(layer, v.contiguous(), Hin, Hout), f"input {name}")
    if kind != "lift":
        v = Hin[:1].expand(Hin.shape)
        compare(x, v, Hout, call(layer, x, v.contiguous(), Hout), "input grid expanded")
    v = Hout[:1].expand(Hout.shape)
    compare(x, Hin, v, call(layer, x, Hin, v.contiguous()), "output grid expanded")
    # the same tensor given twice
    if kind != "lift":
        compare(x, Hin, Hin, call(layer, x, Hin.clone(), Hin.clone()), "same grid twice")
    # parameters in another layout
    for n, p in layer.named_parameters():
        old = p.data
        for name, v in layouts(old):
            p.data = v
            compare(x, Hin, Hout, (y, h), f"{n} {name}")
        p.data = old

    # ---- all compositions of the batch, empty parts, permutations
    N = x.shape[0]
    for cuts in itertools.chain.from_iterable(itertools.combinations(range(1, N), r) for r in range(N)):
        e = (0,) + cuts + (N,)
        parts = [call(layer, x[a:b], Hin, Hout) for a, b in zip(e, e[1:])]
        ctx.close(torch.cat([p[0] for p in parts]), y, "batch composition matters", 1e-9, f"cuts {cuts}")
        ctx.state()
    for perm in itertools.permutations(range(N)):
        r, _ = call(layer, x[list(perm)], Hin, Hout)
        ctx.close(r, y[list(perm)], "batch composition matters", 1e-9, f"order {perm}")
    big, _ = call(layer, torch.cat((x, -2 * x[:1], x[1:2] * 100)), Hin, Hout)
    ctx.close(big[:N], y, "batch composition matters", 1e-9, "further samples")
    try:
        e, _ = call(layer, x[:0], Hin, Hout)
        ctx.check(e.shape == (0,) + y.shape[1:], "empty batch", str(tuple(e.shape)))
    except Exception as ex:
        if not empty_ok(g.dim, c):
            ctx.outcome("empty batch refused by the convolution itself")
        else:
            ctx.fail("empty batch", f"{type(ex).__name__} {ex}")
    ctx.trace()


SPLITS = ([1], [64], [128], [255, 256], [100, 101, 200], [32, 64, 96, 128, 160, 192, 224, 256, 288], [299])


def batches(ctx, group, kind, dtype, conf):
    """A large batch against its parts, its samples alone, and other orders."""
    import torch

    g = BY_NAME[group]
    dt = getattr(torch, dtype)
    N = 300
    kw = {"plain": {}, "strided": dict(stride=2, padding=1, bias=True, groups=2), "circular": dict(padding=1, padding_mode="circular", bias=True)}[conf]
    layer = g.layer(kind, 2, 2, 3, group_kernel_size=SIZES[group], **kw).to(dt)
    set_weights(layer, ctx.rng)
    rng = np.random.default_rng(222)
    Hin, Hout = T(g.rand(2, rng), dt), T(g.rand(3, rng), dt)
    x = T(ctx.rng.normal(size=(N, 2) + ((2,) if kind != "lift" else ()) + (3, 4, 3)[:g.dim]), dt)
    run = lambda x: (layer(x, Hout) if kind == "lift" else layer(x, Hin, Hout))[0].detach()
    y = run(x)
    tol = 1e-9 if dtype == "float64" else 1e-4
    scale = float(y.abs().max())
    for cuts in SPLITS:
        e = [0] + cuts + [N]
        ctx.close(torch.cat([run(x[a:b]) for a, b in zip(e, e[1:])]) / scale, y / scale, "batch composition matters", tol, f"cuts {cuts}")
        ctx.state()
    for i in range(0, N, 23):
        ctx.close(run(x[i:i + 1]) / scale, y[i:i + 1] / scale, "batch composition matters", tol, f"sample {i} alone")
        ctx.state()
    p = torch.as_tensor(rng.permutation(N))
    ctx.close(run(x[p]) / scale, y[p] / scale, "batch composition matters", tol, "order")
    for n in (1, 2, 15, 16, 17, 31, 33, 63, 64, 65, 100, 127, 128, 129, 192, 255, 256, 257, N):
        for mode in (torch.no_grad, torch.inference_mode):
            with mode():
                ctx.close(run(x[:n]) / scale, y[:n] / scale, "batch composition matters", tol, f"first {n}, {mode.__name__}")
            ctx.state()
    v = x[7:8].expand(x.shape)
    ctx.close(run(v) / scale, run(x[7:8]).expand(y.shape) / scale, "batch composition matters", tol, "one sample repeated")
    ctx.close(run(x.transpose(0, 1).contiguous().transpose(0, 1)) / scale, y / scale, "memory layout matters", tol, "transposed")
    ctx.trace()


def empty_ok(dim, c):
    """Does the ordinary convolution with this padding mode take an empty batch?"""
    import torch
    try:
        m = getattr(torch.nn, f"Conv{dim}d")(1, 1, c["k"], padding=1 if c["padding"] == "tuple" else c["padding"], padding_mode=c["padding_mode"], stride=c["stride"])
        m(torch.empty((0, 1) + (7,) * dim))
        return True
    except Exception:
        return False


def modules(ctx, dim, name):
    import torch
    import torch.nn as nn
    import gconv.gnn as gnn

    C, K = 2, 3
    S = (4, 5) if dim == 2 else (4, 3, 4)
    G = lambda n: getattr(gnn, f"{n}{dim}d")

    def norm(m):
        for p in m.parameters():
            p.data = torch.as_tensor(np.random.default_rng(5).normal(size=tuple(p.shape)), dtype=p.dtype)
        if getattr(m, "running_mean", None) is not None:
            m.running_mean.copy_(torch.tensor([0.3, -0.7]))
            m.running_var.copy_(torch.tensor([1.3, 0.6]))
        return m

    builders = {
        "max": lambda: G("GMaxSpatialPool")(2), "max overlapping": lambda: G("GMaxSpatialPool")(3, 1, 1), "avg": lambda: G("GAvgSpatialPool")(2), "avg overlapping": lambda: G("GAvgSpatialPool")(3, 2, 1),
        "adaptive max": lambda: G("GAdaptiveMaxSpatialPool")(2), "adaptive avg": lambda: G("GAdaptiveAvgSpatialPool")(2),
        "max group": gnn.GMaxGroupPool, "avg group": gnn.GAvgGroupPool, "max global": gnn.GMaxGlobalPool, "avg global": gnn.GAvgGlobalPool,
        "relu": gnn.GReLU, "gelu": gnn.GGELU, "leaky": lambda: gnn.GLeakyReLU(0.2), "wrap": lambda: gnn.GWrap(nn.Sequential(nn.Sigmoid(), nn.PReLU())),
        "batch norm eval": lambda: norm(G("GBatchNorm")(C)).eval(), "batch norm train": lambda: norm(G("GBatchNorm")(C)),
        "instance norm": lambda: norm(G("GInstanceNorm")(C, affine=True)), "instance norm eval": lambda: norm(G("GInstanceNorm")(C, affine=True, track_running_stats=True)).eval(),
        "layer norm": lambda: norm(gnn.GLayerNorm(S[-1])), "layer norm all": lambda: norm(gnn.GLayerNorm(S)),
    }
    if name is None:
        return list(builders)
    make = builders[name]
    x = T(ctx.rng.normal(size=(4, C, K) + S))
    H = T(ctx.rng.normal(size=(K, 2)))
    first = lambda r: r[0] if isinstance(r, tuple) else r
    run = lambda x, m=None: first((m or make().double())(x, H)).detach()
    y = run(x)
    ctx.check(y.dtype == torch.float64, "precision of the output", f"{name}: {y.dtype}")
    s = first(make()(x.float(), H))
    ctx.check(s.dtype == torch.float32, "precision of the output", f"{name}: {s.dtype}")
    ctx.close(s, y, "single and double precision disagree", 1e-4, name)
    ctx.close(run(x, make().double().float().double()), y, "conversion there and back", 1e-5, name)
    h = make().to(torch.bfloat16)
    try:
        b = first(h(x.to(torch.bfloat16), H))
        ctx.check(b.dtype == torch.bfloat16, "precision of the output", f"{name}: {b.dtype}")
        ctx.close(b.double(), y, "bfloat16 disagrees", 0.1, name)
    except NotImplementedError:
        pass
    for n, v in itertools.chain(layouts(x), ((n, v) for n, v in expanded(x, range(x.dim())))):
        want = y if "expanded" not in n else run(v.contiguous())
        before = pristine(v)
        ctx.close(run(v), want, "memory layout matters", 1e-9, f"{name} {n}")
        ctx.same(v, before, "argument changed", f"{name} {n}")
        ctx.state()
    m = make()
    y_meta = first(m.to("meta")(x.float().to("meta"), H.to("meta")))
    ctx.check(y_meta.device.type == "meta" and y_meta.shape == y.shape, "device", name)
    if name == "batch norm train":
        return ctx.trace()
    N = x.shape[0]
    for cuts in itertools.chain.from_iterable(itertools.combinations(range(1, N), r) for r in range(N)):
        e = (0,) + cuts + (N,)
        ctx.close(torch.cat([run(x[a:b]) for a, b in zip(e, e[1:])]), y, "batch composition matters", 1e-9, f"{name} cuts {cuts}")
        ctx.state()
    for perm in itertools.permutations(range(N)):
        ctx.close(run(x[list(perm)]), y[list(perm)], "batch composition matters", 1e-9, f"{name} order {perm}")
    x = T(ctx.rng.normal(size=(300, C, K) + S))
    y = run(x)
    for cuts in SPLITS:
        e = [0] + cuts + [300]
        ctx.close(torch.cat([run(x[a:b]) for a, b in zip(e, e[1:])]), y, "batch composition matters", 1e-9, f"{name} cuts {cuts}")
        ctx.state()
    ctx.close(run(x.transpose(0, 2).contiguous().transpose(0, 2)), y, "memory layout matters", 1e-9, f"{name} large")
    ctx.trace()


# ---------------------------------------------------------------- group operations

def operations():
    """(name, function, argument builders returning float64 numpy, per-argument)."""
    import importlib
    from gconv.geometry import so2, o2, so3, o3, interpolation
    from gconv.gnn import functional as gF
    import lib
    s2 = importlib.import_module("gconv.geometry.groups.s2")
    SE2, E2, SE3, E3 = (BY_NAME[n] for n in ("SE2", "E2", "SE3", "E3"))
    r = lambda *s: (lambda rng: rng.normal(size=s))
    el = lambda g, n: (lambda rng: g.rand(n, rng))

    def quat(*s):
        def f(rng):
            q = rng.normal(size=s + (4,))
            return q / np.linalg.norm(q, axis=-1, keepdims=True)
        return f

    def mats(*s):
        return lambda rng: lib.rand_rot(int(np.prod(s)), rng).reshape(s + (3, 3))

    def unit(*s):
        def f(rng):
            q = rng.normal(size=s)
            return q / np.linalg.norm(q, axis=-1, keepdims=True)
        return f
    ang = lambda n: (lambda rng: rng.uniform(0, 6.2, (n, 1)))
    eul = lambda *s: (lambda rng: rng.uniform(0.1, 1.4, s + (3,)))
    ops = [
        ("so2.angle_to_matrix", so2.angle_to_matrix, [ang(4)]), ("so2.angle_to_euclid", so2.angle_to_euclid, [ang(4)]),
        ("so2.inverse_matrix", so2.inverse_matrix, [r(3, 2, 2)]), ("so2.inverse_angle", so2.inverse_angle, [ang(4)]),
        ("so2.left_apply_angle", so2.left_apply_angle, [ang(4), ang(4)]), ("so2.left_apply_to_angle", so2.left_apply_to_angle, [ang(3), ang(4)]),
        ("so2.left_apply_angle_to_R2", so2.left_apply_angle_to_R2, [ang(3), r(4, 5, 2)]), ("so2.left_apply_matrix_to_R2", so2.left_apply_matrix_to_R2, [r(3, 2, 2), r(4, 5, 2)]),
        ("so2.geodesic_distance_euclid", so2.geodesic_distance_euclid, [unit(3, 2), unit(3, 2)]), ("so2.geodesic_distance", so2.geodesic_distance, [ang(3), ang(3)]),
        ("so2.nearest_neighbour_distance", so2.nearest_neighbour_distance, [ang(4)]),
        ("so2.grid_sample rbf", lambda a, b, c: so2.grid_sample(a, b, c, "rbf", 0.5), [ang(5), r(4, 6), ang(4)]), ("so2.grid_sample nearest", lambda a, b, c: so2.grid_sample(a, b, c, "nearest"), [ang(5), r(4, 6), ang(4)]),
        ("o2.inverse", o2.inverse, [el(E2, 4)]), ("o2.det", o2.det, [el(E2, 4)]), ("o2.left_apply_angle", o2.left_apply_angle, [el(E2, 1), el(E2, 4)]),
        ("o2.left_apply_to_angle", o2.left_apply_to_angle, [el(E2, 3), el(E2, 4)]), ("o2.left_apply_to_R2", o2.left_apply_to_R2, [el(E2, 3), r(4, 5, 2)]),
        ("so3.matrix_x", so3.matrix_x, [r(5)]), ("so3.matrix_y", so3.matrix_y, [r(5)]), ("so3.matrix_z", so3.matrix_z, [r(5)]),
        ("so3.quat_inverse", so3.quat_inverse, [quat(3)]), ("so3.matrix_inverse", so3.matrix_inverse, [mats(3)]), ("so3.left_apply_quat", so3.left_apply_quat, [quat(3), quat(3)]),
        ("so3.euler_to_quat", so3.euler_to_quat, [eul(4)]), ("so3.euler_to_matrix", so3.euler_to_matrix, [eul(4)]), ("so3.matrix_to_quat", so3.matrix_to_quat, [mats(4)]),
        ("so3.matrix_to_quat (2, 3)", so3.matrix_to_quat, [mats(2, 3)]), ("so3.matrix_to_euler", so3.matrix_to_euler, [mats(4)]), ("so3.quat_to_matrix", so3.quat_to_matrix, [quat(4)]), ("so3.quat_to_euler", so3.quat_to_euler, [quat(4)]),
        ("so3.left_apply_to_R3", so3.left_apply_to_R3, [mats(3), r(2, 3, 4, 3)]), ("so3.left_apply_matrix", so3.left_apply_matrix, [mats(3), mats(3)]), ("so3.left_apply_to_matrix", so3.left_apply_to_matrix, [mats(3), mats(4)]),
        ("so3.so3_log", so3.so3_log, [mats(4)]), ("so3.geodesic_distance", so3.geodesic_distance, [quat(4), quat(4)]), ("so3.nearest_neighbour_distance quat", so3.nearest_neighbour_distance, [quat(4)]),
        ("so3.nearest_neighbour_distance matrix", so3.nearest_neighbour_distance, [mats(4)]), ("so3.quaternion_log", so3.quaternion_log, [quat(4)]),
        ("so3.grid_sample rbf", lambda a, b, c: so3.grid_sample(a, b, c, "rbf", 0.7), [mats(5), r(4, 6), mats(4)]), ("so3.grid_sample nearest", lambda a, b, c: so3.grid_sample(a, b, c, "nearest"), [mats(5), r(4, 6), mats(4)]),
        ("o3.det", o3.det, [el(E3, 4)]), ("o3.inverse", o3.inverse, [el(E3, 4)]), ("o3.left_apply_O3", o3.left_apply_O3, [el(E3, 1), el(E3, 4)]), ("o3.left_apply_to_O3", o3.left_apply_to_O3, [el(E3, 3), el(E3, 4)]),
        ("o3.left_apply_to_R3", o3.left_apply_to_R3, [el(E3, 3), r(2, 3, 4, 3)]),
        ("s2.spherical_to_euclid", s2.spherical_to_euclid, [lambda rng: rng.uniform(0.1, 1.5, (4, 2))]), ("s2.euclid_to_spherical", s2.euclid_to_spherical, [unit(4, 3)]),
        ("s2.geodesic_distance_s2", s2.geodesic_distance_s2, [unit(4, 3), unit(4, 3)]), ("s2.spherical_to_euler", s2.spherical_to_euler, [r(4, 2)]), ("s2.spherical_to_euler_neg_gamma", s2.spherical_to_euler_neg_gamma, [r(4, 2)]),
        ("interpolate_RBF", lambda *a: interpolation.interpolate_RBF(a[0], a[1], a[2], so2.geodesic_distance, 0.6) if False else None, None),
        ("grid_sample R2", gF.grid_sample, [r(2, 3, 4, 4), lambda rng: rng.uniform(-1, 1, (2, 5, 4, 2))]), ("grid_sample R3", gF.grid_sample, [r(2, 3, 4, 4, 4), lambda rng: rng.uniform(-1, 1, (2, 3, 4, 2, 3))]),
    ]

    def two_cosets(n):
        def f(rng):
            return np.concatenate((E2.rand(2 * n, rng)[::2], E2.rand(2 * n, rng)[1::2]))
        return f

    def two_cosets3(n):
        def f(rng):
            return np.concatenate((E3.rand(2 * n, rng)[::2], E3.rand(2 * n, rng)[1::2]))
        return f
    for mode in ("rbf", "nearest"):
        ops.append((f"o2.grid_sample {mode}", lambda a, b, c, m=mode: o2.grid_sample(a, b, c, (3, 3), m, 0.5, 0.7), [el(E2, 5), r(6, 4), two_cosets(3)]))
        ops.append((f"o3.grid_sample {mode}", lambda a, b, c, m=mode: o3.grid_sample(a, b, c, (3, 3), m, 0.5, 0.7), [el(E3, 5), r(6, 4), two_cosets3(3)]))
    return [o for o in ops if o[2] is not None]


def operation(ctx, lo, hi):
    import torch

    for name, f, build in operations()[lo:hi]:
        rng = np.random.default_rng(221)
        args = [T(b(rng)) for b in build]
        want = f(*[a.clone() for a in args])
        ctx.check(want.dtype == torch.float64, "precision of the result", f"{name}: double arguments give {want.dtype}")
        single = f(*[a.float() for a in args])
        ctx.check(single.dtype == torch.float32, "precision of the result", f"{name}: single arguments give {single.dtype}")
        ctx.check(bool(torch.isfinite(want).all()), "not finite", name)
        ctx.close(single, want, "single and double precision disagree", 2e-3, name)
        variants = [[("contiguous", a)] + list(layouts(a)) for a in args]
        for combo in itertools.product(*variants) if len(args) < 3 else ([v[j % len(v)] for v in variants] for j in range(40)):
            ts = [v for _, v in combo]
            before = [pristine(t) for t in ts]
            what = f"{name} " + ", ".join(n for n, _ in combo)
            ctx.close(f(*ts), want, "memory layout matters", 1e-9, what)
            for t, b in zip(ts, before):
                ctx.same(t, b, "argument changed", what)
            ctx.state()
        for j, a in enumerate(args):
            for n, v in expanded(a, (0,)):
                ts = [v if i == j else b for i, b in enumerate(args)]
                if "grid_sample" in name and j == 2 or "neighbour" in name:
                    continue  # coinciding nodes
                ctx.close(f(*ts), f(*[t.contiguous() for t in ts]), "memory layout matters", 1e-9, f"{name} argument {j} {n}")
        for a in args:
            a.requires_grad_(True)
        r = f(*args)
        ctx.close(r.detach(), want, "tracking gradients changes the result", 1e-12, name)
        if r.requires_grad:
            r.sum().backward()
            for a in args:
                if a.grad is not None:
                    ctx.check(a.grad.dtype == a.dtype and a.grad.shape == a.shape, "gradient", name)
        ctx.trace()


def cases(tier):
    import torch
    th = tier == "thorough"
    out = []
    n = len(constructors())
    for i in range(0, n, 20):
        out.append(Case(f"devices:{i // 20}", devices, lo=i, hi=i + 20))
    n = len(operations())
    for i in range(0, n, 6):
        out.append(Case(f"operations:{i // 6}", operation, lo=i, hi=i + 6))
    for d in (2, 3):
        for name in modules(None, d, None):
            out.append(Case(f"module:{d}d:{name}", modules, dim=d, name=name))
    for group in BY_NAME:
        d = BY_NAME[group].dim
        menu = cfg.MENU if d == 2 else cfg.MENU3
        for kind in ("lift", "sep", "conv"):
            for dtype, conf in itertools.product(("float64", "float32"), ("plain", "strided", "circular")):
                out.append(Case(f"{group}:{kind}:batches:{dtype}:{conf}", batches, group=group, kind=kind, dtype=dtype, conf=conf))
            out.append(Case(f"{group}:{kind}:meta", meta_layers, group=group, kind=kind))
            done = set()
            for c in itertools.chain(cfg.deviations(menu, 2 if th and d == 2 else 1), cfg.padded(menu)):
                if cfg.valid(c, d, symmetric=False) and cfg.cid(c, menu) not in done:
                    done.add(cfg.cid(c, menu))
                    out.append(Case(f"{group}:{kind}:{cfg.cid(c, menu)}", layer_case, group=group, kind=kind, c=c))
    return out
