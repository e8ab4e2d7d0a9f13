"""C19: every history, up to a depth, of {state-dict round trip, torch.save, pickle, deepcopy, copy of the
checkpoint, conversion, new weights, further use} over every layer kind and configuration; after every
step the derived layer must have the original's state and outputs, and the two must not share anything."""
import copy, io, itertools, pickle
import numpy as np
from core import Case, to_np
from lib import BY_NAME, T

NP = dict(permute_output_grid=False)
CONF = {
    "default": {},
    "bias": dict(bias=True, padding=1),
    "nomask": dict(mask=False, padding="same", padding_mode="circular"),
    "groups": dict(groups=2, stride=2, padding=1, bias=True, _io=(2, 4)),
    "dilated": dict(dilation=2, padding=2, padding_mode="reflect"),
    "size1": dict(_size=1),
    "size2": dict(_size=2, bias=True),
    "size5": dict(_size=5),
    "rotations": dict(_size=(3, 0)),
    "reflections": dict(_size=(0, 3)),
    "unequal": dict(_size=(1, 4), bias=True),
    "given": dict(_grid=True, bias=True),
    "given1": dict(_grid=True, _size=1),
    "nearest": dict(group_sampling_mode="nearest", spatial_sampling_mode="nearest"),
    "zeros": dict(spatial_sampling_padding_mode="zeros", mask=False),
    "width": dict(_width=(0.45, 0.7), bias=True),
    "permuted": dict(permute_output_grid=True),
    "kernel1": dict(_k=1, bias=True),
    "kernel5": dict(_k=5, padding=2),
    "generated": dict(_size=26),
}


def spec(group, kind, conf):
    """A function building new layers with the same arguments, or None if the configuration does not apply."""
    g = BY_NAME[group]
    c = dict(CONF[conf])
    size = c.pop("_size", 4)
    if isinstance(size, tuple) and not g.improper:
        return None
    if conf == "generated" and (g.dim == 2 or kind == "lift"):
        return None
    i, o = c.pop("_io", (1, 2))
    k = c.pop("_k", 3)
    w = c.pop("_width", None)
    grid = c.pop("_grid", False)
    if kind == "lift":
        if w:
            return None
        c = {a.replace("spatial_sampling", "sampling"): b for a, b in c.items() if a != "group_sampling_mode"}
    elif w:
        c.update(dict(zip(("group_rotation_sampling_width", "group_reflection_sampling_width"), w)) if g.improper else {"group_sampling_width": w[0]})
    given = None
    if grid:
        rng = np.random.default_rng(190)
        G = g.rand(2 * size, rng)
        given = T(np.concatenate([h[None] for h in sorted(G, key=lambda h: -h[0])]) if g.improper else G).float()
    kw = dict(NP)
    kw.update(c)

    def build():
        a = dict(kw)
        if given is not None:
            a["grid_H"] = given
        return g.layer(kind, i, o, k, group_kernel_size=size, **a)
    return g, i, build, given, k


def outputs(g, kind, i, layer, fixed):
    """Outputs for the default and for requested grids, in float64 numpy."""
    import torch
    p = next(layer.parameters())
    x, Hi, Ho = (t.to(p.dtype) for t in fixed)
    out = []
    with torch.no_grad():
        for explicit in (False, True):
            torch.manual_seed(9)
            if kind == "lift":
                r = layer(x, Ho) if explicit else layer(x)
            else:
                r = layer(x, Hi, Ho) if explicit else layer(x, Hi)
            out += [to_np(r[0]).copy(), to_np(r[1]).copy()]
    return out


def state(layer):
    return {k: to_np(v).copy() for k, v in layer.state_dict().items()}


def scramble(layer, seed):
    """New values in every parameter (and nothing else)."""
    import torch
    gen = torch.Generator().manual_seed(seed)
    with torch.no_grad():
        for p in layer.parameters():
            p.copy_(torch.randn(p.shape, generator=gen))


def poison(layer):
    """In-place change of everything a layer owns."""
    import torch
    with torch.no_grad():
        for t in list(layer.parameters()) + list(layer.buffers()):
            t.mul_(0).sub_(7)


def checkpoint(build, layer, how):
    import torch
    sd = layer.state_dict()
    if how == "file":
        f = io.BytesIO()
        torch.save(sd, f)
        f.seek(0)
        sd = torch.load(f)
    elif how == "copied":
        sd = copy.deepcopy(sd)
    new = build()
    new = new.to(next(layer.parameters()).dtype)
    scramble(new, 3)
    r = new.load_state_dict(sd, strict=True, **({"assign": True} if how == "assign" else {}))
    assert not r.missing_keys and not r.unexpected_keys, f"missing {r.missing_keys}, unexpected {r.unexpected_keys}"
    if how == "assign":  # shares storage by request
        new = copy.deepcopy(new)
    return new.train(layer.training)


def transform(op, build, layer):
    import torch
    if op in ("load", "file", "copied", "assign"):
        return checkpoint(build, layer, op)
    if op == "deepcopy":
        return copy.deepcopy(layer)
    if op == "pickle":
        return pickle.loads(pickle.dumps(layer))
    if op == "whole":
        f = io.BytesIO()
        torch.save(layer, f)
        f.seek(0)
        return torch.load(f, weights_only=False)
    raise KeyError(op)


DERIVE = ("load", "file", "assign", "deepcopy", "pickle", "whole")


def histories(ctx, group, kind, conf, depth):
    import torch

    g, i, build, given, k = spec(group, kind, conf)
    rng = np.random.default_rng(191)
    S = (5, 6) if g.dim == 2 else (5, 5, 5)
    n = 2
    fixed = [T(ctx.rng.normal(size=(1, i) + ((n,) if kind != "lift" else ()) + S)), T(g.rand(n, rng)), T(g.rand(3, rng))]
    given0 = None if given is None else to_np(given).copy()
    tol = 1e-6

    def compare(a, b, h):
        sa, sb = state(a), state(b)
        ctx.check(list(sa) == list(sb), "entries differ", f"{h}: {sorted(set(sa) ^ set(sb))}")
        for key in sa:
            if key in sb:
                ctx.same(sb[key], sa[key], "restored state differs", f"{h}: {key}")
        for x, y, what in zip(outputs(g, kind, i, a, fixed), outputs(g, kind, i, b, fixed), ("default grid", "default grid H", "requested grid", "requested grid H")):
            ctx.close(y, x, "restored layer computes something else", tol, f"{h} {what}")
        ctx.check(type(a) is type(b) and a.training == b.training, "type or mode", str(h))
        ctx.check(conf == "generated" or repr(a) == repr(b), "configuration differs", f"{h}: {a!r} {b!r}"[:300])

    alphabet = DERIVE + ("double", "weights", "eval")
    for h in itertools.product(alphabet, repeat=depth):
        if h[-1] not in DERIVE or (conf == "generated" and h[-1] not in ("file", "deepcopy")):
            continue
        torch.manual_seed(192)
        layer = build()
        for j, op in enumerate(h):
            if op == "double":
                layer = layer.double()
            elif op == "weights":
                scramble(layer, 5 + j)
            elif op == "eval":
                layer = layer.eval()
            else:
                new = transform(op, build, layer)
                compare(layer, new, h[:j + 1])
                s = state(layer)
                probe = transform(op, build, layer)
                poison(probe)
                now = state(layer)
                ctx.check(all(np.array_equal(now[key], s[key]) for key in s), "changing a restored layer changes the original", f"{h[:j + 1]}")
                s = state(new)
                poison(layer)
                now = state(new)
                ctx.check(all(np.array_equal(now[key], s[key]) for key in s), "changing the original changes the restored layer", f"{h[:j + 1]}")
                layer = new
            ctx.state()
        if given is not None:
            ctx.same(given, given0, "the user's grid changed", str(h))
        fresh = build()
        ctx.check(all(bool(np.isfinite(v).all()) and not (v == -7).all() for v in state(fresh).values()), "a new layer is affected by changes to others", str(h))
        ctx.trace()
        if ctx.nfail > 20:
            break


def isolation(ctx, group):
    """Restoring one layer (another reference grid, other weights) never changes any other one: all ordered pairs."""
    import torch

    g = BY_NAME[group]
    size = 4 if not g.improper else (2, 2)
    rng = np.random.default_rng(193)
    G = g.rand(4, rng)
    given = T(np.concatenate([h[None] for h in sorted(G, key=lambda h: -h[0])]) if g.improper else G).float()
    given0 = to_np(given).copy()
    mk = [(kind, gr) for kind in ("lift", "sep", "conv") for gr in (None, given)]
    build = lambda s: g.layer(s[0], 1, 1, 3, group_kernel_size=size, bias=True, **dict(NP, **({} if s[1] is None else {"grid_H": s[1]})))
    for a, b in itertools.product(range(len(mk)), repeat=2):
        la, lb = build(mk[a]), build(mk[b])
        sb = state(lb)
        sd = {k: v.clone() + 0.5 if v.is_floating_point() else v for k, v in la.state_dict().items()}
        la.load_state_dict(sd)
        for key, v in state(la).items():
            ctx.same(v, to_np(sd[key]), "loading does not restore", key)
        for key, v in state(lb).items():
            ctx.same(v, sb[key], "restoring one layer changes another", f"{mk[a][0]}/{mk[b][0]} {key}")
        ctx.same(given, given0, "restoring a layer changes the user's grid", f"{mk[a][0]}")
        lc = build(mk[b])
        sc = state(lc)
        for key in sc:
            if "weight" not in key and "bias" not in key:
                ctx.same(sc[key], sb[key], "restoring one layer changes layers built later", f"{mk[a][0]}/{mk[b][0]} {key}")
        ctx.state(); ctx.trace()


def networks(ctx, group):
    """Whole networks, as one module."""
    import torch
    import torch.nn as nn
    import gconv.gnn as gnn

    g = BY_NAME[group]
    d = g.dim
    size = 3 if not g.improper else (2, 1)

    def build():
        return nn.ModuleList([
            g.layer("lift", 1, 2, 3, group_kernel_size=size, padding=1), getattr(gnn, f"GBatchNorm{d}d")(2), gnn.GReLU(),
            g.layer("sep", 2, 2, 3, group_kernel_size=size, padding=1, bias=True), getattr(gnn, f"GInstanceNorm{d}d")(2, affine=True, track_running_stats=True),
            gnn.GWrap(nn.PReLU()), g.layer("conv", 2, 2, 3, group_kernel_size=size, padding=1), gnn.GLayerNorm(3), getattr(gnn, f"GMaxSpatialPool{d}d")(2)])
    rng = np.random.default_rng(194)
    H = T(g.rand(2, rng))
    X = [T(ctx.rng.normal(size=(2, 1) + (3,) * d)) for _ in range(2)]

    def run(net, x):
        y, h = x, H
        outs = []
        for i, m in enumerate(net):
            y, h = m(y, h)
            outs.append(to_np(y).copy())
        return outs

    for hist in itertools.product(("train0", "train1", "eval"), repeat=3):
        torch.manual_seed(1)
        net = build().double()
        for op in hist:
            net.train(op != "eval")
            run(net, X[int(op[-1]) if op[-1].isdigit() else 0])
        for op in DERIVE:
            new = checkpoint(lambda: build().double(), net, op) if op in ("load", "file", "assign") else transform(op, build, net)
            net.eval(); new.eval()
            for i, (a, b) in enumerate(zip(run(net, X[1]), run(new, X[1]))):
                ctx.close(b, a, "restored network computes something else", 1e-9, f"{hist} {op} module {i}")
            ctx.state()
        ctx.trace()


def cases(tier):
    th = tier == "thorough"
    out = []
    for group, kind, conf in itertools.product(BY_NAME, ("lift", "sep", "conv"), CONF):
        if spec(group, kind, conf) is None:
            continue
        depth = 1 if conf == "generated" else 3 if th else 2
        out.append(Case(f"{group}:{kind}:{conf}", histories, group=group, kind=kind, conf=conf, depth=depth))
    for group in BY_NAME:
        out += [Case(f"{group}:isolation", isolation, group=group), Case(f"{group}:networks", networks, group=group)]
    return out
