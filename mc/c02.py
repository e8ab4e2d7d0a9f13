"""C02: separable and full group convolutions (and convolutions on a subgroup-only kernel): every
configuration within the deviation bound x (input grid, output grid) pairs x every lattice
symmetry; input basis = every (element, voxel) impulse, weight basis = every one-hot weight."""
import itertools
import numpy as np
import cfg, lib, ref
from core import Case
from lib import GROUPS, BY_NAME, T, act_t, set_weights

GEXTRA = {"gmode": ["rbf", "nearest"], "width": ["auto", 0.7]}


def pairs(g, full):
    rng = np.random.default_rng(12)
    lat = np.stack([e for e, _ in g.lattice()])
    some = lat if len(lat) <= 8 else lat[[0, 3, 7, 13] + ([25, 40] if len(lat) > 24 else [])]
    a, b, c = g.rand(3, rng), g.rand(2, rng), g.rand(1, rng)
    out = [("generic3->generic2", a, b), ("lattice->same", some, some), ("generic2->other2", b, g.rand(2, rng))]
    if full:
        out += [("generic1->generic3", c, a), ("generic2->same", b, b),
                ("lattice->generic2", some, b), ("generic3->1", a, c)]
    return out


def near_tie(g, Hin, Hout, refs):
    """Nearest group sampling is only defined away from ties."""
    rel = np.concatenate([g.mul(i, Hin) for i in g.inv(Hout)])
    D = np.sort(g.dist(rel, refs), axis=1)
    if D.shape[1] < 2:
        return False
    with np.errstate(invalid="ignore"):
        gap = D[:, 1] - D[:, 0]
    return bool(np.nanmin(np.where(np.isfinite(gap), gap, 1.0)) < 1e-4)


def basis_input(n_in, n, dim):
    m = n_in * n ** dim
    return T(np.eye(m).reshape((m, 1, n_in) + (n,) * dim))


def orders(n):
    """Every order of up to three elements; the adjacent swaps and the reversal of more."""
    if n <= 3:
        return list(itertools.permutations(range(n)))[1:]
    swaps = [[j + 1 if i == j else j if i == j + 1 else i for i in range(n)] for j in range(n - 1)]
    return swaps + [list(range(n))[::-1]]


def relabel(ctx, layer, x, y, Hin, Hout, gname):
    """Grids are sets: the order of the input elements does not matter, every output element depends
    on its own output group element only."""
    for o in orders(len(Hin)):
        o = list(o)
        ctx.state()
        ctx.close(layer(x[:, :, o], T(Hin[o]), T(Hout))[0], y, "order of the input elements matters", 1e-7, f"grids {gname}, order {o}")
    for o in orders(len(Hout)) + [[i] for i in range(len(Hout))]:
        o = list(o)
        ctx.state()
        ctx.close(layer(x, T(Hin), T(Hout[o]))[0], y[:, :, o], "an output element depends on the others", 1e-7, f"grids {gname}, elements {o}")


def run(ctx, group, kind, c, gks, full):
    import torch

    g = BY_NAME[group]
    dim, k = g.dim, c["k"]
    n = cfg.geometry(c, dim)
    nref = lib.nH(g, gks)
    i, o, kw = cfg.layer_args(c, g, kind, nref * k ** dim)
    kw["group_sampling_mode"] = c["gmode"]
    if c["width"] != "auto":
        if g.improper:
            kw.update(group_rotation_sampling_width=c["width"], group_reflection_sampling_width=c["width"] + 0.1)
        else:
            kw["group_sampling_width"] = c["width"]
    layer = g.layer(kind, i, o, k, group_kernel_size=gks, **kw).double()
    basis = c["chan"] == "basis"
    set_weights(layer, ctx.rng)
    if basis:
        lib.basis_weights(layer, kind, dim, k)
    refs = layer.kernel.grid_H.numpy()
    nonzero = False
    for gname, Hin, Hout in pairs(g, full):
        if c["gmode"] == "nearest" and near_tie(g, Hin, Hout, refs):
            continue
        if basis:
            if dim == 3 and len(Hin) > 3 and not ctx.thorough:
                Hin, Hout = Hin[:3], Hout[:3]
            if len(Hin) * n ** dim <= (100 if not ctx.thorough else 400):
                x = basis_input(len(Hin), n, dim)
            else:  # large input space: one generic point of it (the identity is linear in the input)
                x = T(ctx.rng.normal(size=(1, 1, len(Hin)) + (n,) * dim))
        else:
            x = T(ctx.rng.normal(size=(2, i, len(Hin)) + (n,) * dim))
        y, Hr = layer(x, T(Hin), T(Hout))
        ctx.same(Hr, Hout, "returned grid", gname)
        nonzero |= bool((y != 0).any())
        for li, (e, A) in enumerate(g.lattice()):
            gy, _ = layer(act_t(A, x, dim), T(g.mul(e, Hin)), T(g.mul(e, Hout)))
            ctx.state()
            ctx.close(gy, act_t(A, y, dim), "not equivariant", 1e-7, f"grids {gname}, symmetry {li} {np.asarray(A).tolist()}")
        relabel(ctx, layer, x[:2], y[:2], Hin, Hout, gname)
        ctx.trace()
    if k != 2 or not c["mask"]:
        ctx.check(nonzero, "vacuous", "the layer's output is zero")
    ctx.sample({"input": n, "pairs": [p[0] for p in pairs(g, full)], "layer": repr(layer)[:200]})


def relative(ctx, group, kind, gks, mode):
    """Group-axis weights depend on (h, k) only through k^-1 h: any left translation, on or off the
    lattice, leaves them unchanged, and pairs with the same relative element share their weights."""
    g = BY_NAME[group]
    in_ch, out_ch, groups = 4, 6, 2
    key = dict(group_sampling_mode=mode)
    kern = g.kernel(kind, in_ch, out_ch, 1, gks, groups=groups, mask=False, **key).double()
    set_weights(kern, ctx.rng)

    def wH(a, b):
        r = kern(T(a), T(b))
        return (r[0] if kind == "sep" else r).flatten(4)

    rng = np.random.default_rng(5)
    Hin, Hout = g.rand(3, rng), g.rand(2, rng)
    refs = kern.grid_H.numpy()
    if mode == "nearest" and near_tie(g, Hin, Hout, refs):
        raise AssertionError("choose other grids")
    w = wH(Hin, Hout)
    ctx.check(tuple(w.shape[:4]) == (out_ch, 2, in_ch // groups, 3), "axes", str(tuple(w.shape)))
    ts = np.concatenate((g.rand(6, rng), np.stack([e for e, _ in g.lattice()])))
    for t in ts:
        ctx.state()
        ctx.close(wH(g.mul(t, Hin), g.mul(t, Hout)), w, "left translation changes group weights", 1e-7)
    # singletons, and the identity as output element
    ident = g.lattice()[0][0]
    for i, k in enumerate(Hout):
        for j in range(len(Hin)):
            ctx.state()
            ctx.close(wH(Hin[j:j + 1], Hout[i:i + 1])[:, 0, :, 0], w[:, i, :, j], "weights depend on other elements", 1e-7)
            rel = g.mul(g.inv(Hout[i:i + 1])[0], Hin[j:j + 1])
            ctx.close(wH(rel, ident[None])[:, 0, :, 0], w[:, i, :, j], "weights not a function of k^-1 h", 1e-7)


def subgroup(ctx, group, spatial, chan, sizes, quat):
    """GConv on a subgroup-only kernel: 1x1 spatially, mixes only the group axis."""
    import torch
    import gconv.gnn as gnn
    from gconv.gnn import kernels
    from gconv.geometry import so2, o2, so3, o3

    g = BY_NAME[group]
    i, o, gr = {"one": (1, None, 1), "g2": (4, 6, 2), "dw": (3, 3, 3)}[chan]
    nref = 5
    if group == "SE3":
        gh = None if quat else T(np.stack([ref.quat_mat(q) for q in so3.uniform_grid(nref).numpy()]))
        kern = kernels.GSubgroupKernelSO3(i, o or nref, nref, gr, grid_H=gh)
    else:
        inv, mul, smp = {"SE2": (so2.inverse_angle, so2.left_apply_to_angle, so2.grid_sample),
                         "E2": (o2.inverse, o2.left_apply_to_angle, o2.grid_sample),
                         "E3": (o3.inverse, o3.left_apply_to_O3, o3.grid_sample)}[group]
        if group == "SE2":
            gh, kws, gsz = so2.uniform_grid(nref), dict(width=0.9), (nref,)
        else:
            gh = (o2 if group == "E2" else o3).uniform_grid((3, 2))
            kws, gsz = dict(signal_grid_size=(3, 2), rotation_width=0.9, reflection_width=0.8), (3, 2)
        kern = kernels.GSubgroupKernel(i, o or nref, (1,) * g.dim, gsz, gh, gr, inverse_H=inv, left_apply_to_H=mul,
                                       sample_H=smp, sample_H_kwargs=kws)
    cls = gnn.GConv2d if g.dim == 2 else gnn.GConv3d
    layer = cls(i, o or nref, 1, nref, kern, groups=gr).double()
    set_weights(layer, ctx.rng)
    if chan == "one":
        with torch.no_grad():
            kern.weight.zero_()
            for d in range(nref):
                kern.weight[d, d] = 1
    rng = np.random.default_rng(8)
    Hin, Hout = g.rand(sizes[0], rng), g.rand(sizes[1], rng)
    n = 3
    x = basis_input(len(Hin), n, g.dim) if chan == "one" else T(rng.normal(size=(2, i, len(Hin)) + (n,) * g.dim))
    y, Hr = layer(x, T(Hin), T(Hout))
    ctx.same(Hr, Hout, "returned grid")
    ctx.check(tuple(y.shape[:3]) == (x.shape[0], o or nref, len(Hout)), "shape", str(tuple(y.shape)))
    for e, A in g.lattice():
        ctx.state()
        gy, _ = layer(act_t(A, x, g.dim), T(g.mul(e, Hin)), T(g.mul(e, Hout)))
        ctx.close(gy, act_t(A, y, g.dim), "not equivariant", 1e-7)
    # acts on every position separately, and on any other translation of both grids the same way
    for t in g.rand(4, rng):
        ctx.state()
        ctx.close(layer(x, T(g.mul(t, Hin)), T(g.mul(t, Hout)))[0], y, "left translation changes the group convolution", 1e-7)
    one = layer(x[(Ellipsis,) + (slice(1, 2),) * g.dim], T(Hin), T(Hout))[0]
    ctx.close(one, y[(Ellipsis,) + (slice(1, 2),) * g.dim], "mixes positions", 1e-9)


# batch, channels, groups, image, kernel, elements in and out, reference elements, stride, padding, mode, bias
WIDE = {2: [(130, 2, 3, 1, 4, 3, 3, 2, 4, 1, 1, "zeros", True), (2, 33, 65, 1, 4, 3, 2, 3, 4, 1, 1, "circular", False), (2, 66, 66, 66, 4, 3, 3, 2, 4, 1, 1, "zeros", True),
            (1, 4, 258, 2, 4, 3, 2, 2, 4, 1, 0, "zeros", True), (1, 130, 4, 2, 4, 3, 3, 2, 4, 1, 1, "replicate", False), (1, 2, 3, 1, 33, 3, 3, 2, 4, 2, 1, "reflect", True),
            (1, 1, 1, 1, 65, 3, 2, 2, 4, 1, "same", "zeros", False), (2, 2, 3, 1, 4, 3, 33, 5, 4, 1, 1, "zeros", True), (2, 2, 3, 1, 4, 3, 5, 33, 4, 1, 1, "zeros", True),
            (1, 1, 2, 1, 3, 2, 130, 3, 4, 1, 0, "zeros", False), (1, 1, 2, 1, 3, 2, 3, 130, 4, 1, 0, "zeros", False), (1, 1, 2, 1, 3, 1, 66, 66, 4, 1, 0, "zeros", False),
            (1, 1, 2, 1, 3, 2, 3, 3, 16, 1, 0, "zeros", False), (1, 2, 3, 1, 7, 7, 3, 2, 4, 1, "same", "circular", True), (1, 8, 8, 4, 9, 3, 8, 8, 8, 1, "same", "zeros", True)],
        3: [(33, 2, 3, 1, 3, 3, 2, 2, 4, 1, 1, "zeros", True), (1, 17, 33, 1, 3, 3, 2, 2, 4, 1, 1, "circular", False), (1, 34, 34, 34, 3, 3, 2, 2, 4, 1, 1, "zeros", True),
            (1, 2, 2, 1, 9, 3, 2, 2, 4, 2, 1, "reflect", True), (1, 2, 3, 1, 3, 3, 17, 3, 4, 1, 1, "zeros", True), (1, 1, 2, 1, 3, 3, 3, 17, 4, 1, 1, "zeros", True),
            (1, 1, 2, 1, 2, 1, 66, 3, 4, 1, 0, "zeros", False), (1, 1, 2, 1, 2, 1, 3, 66, 4, 1, 0, "zeros", False), (1, 1, 2, 1, 5, 5, 2, 2, 4, 1, "same", "circular", True),
            (1, 1, 1, 1, 17, 3, 2, 2, 4, 1, 1, "zeros", False), (1, 4, 4, 2, 4, 3, 5, 5, 8, 1, "same", "zeros", True)]}


def wide(ctx, group, kind, cfg, mode):
    """Sizes far from the small ones."""
    import torch

    g = BY_NAME[group]
    dim = g.dim
    B, i, o, gr, n, k, ni, no, nr, stride, padding, pm, bias = cfg
    layer = g.layer(kind, i, o, k, groups=gr, stride=stride, padding=padding, padding_mode=pm, bias=bias, group_sampling_mode=mode,
                    group_kernel_size=(nr // 2, nr // 2) if g.improper else nr).double()
    set_weights(layer, ctx.rng)
    rng = np.random.default_rng(14)
    Hin, Hout = g.rand(ni, rng), g.rand(no, rng)
    if mode == "nearest" and near_tie(g, Hin, Hout, layer.kernel.grid_H.numpy()):
        return
    x = T(ctx.rng.normal(size=(B, i, ni) + (n,) * dim))
    with torch.no_grad():
        y, Hr = layer(x, T(Hin), T(Hout))
        ctx.same(Hr, Hout, "returned grid")
        ctx.check(bool((y != 0).any()), "vacuous", "zero output")
        scale = float(y.abs().max())
        for li, (e, A) in enumerate(g.lattice()):
            gy, _ = layer(act_t(A, x, dim), T(g.mul(e, Hin)), T(g.mul(e, Hout)))
            ctx.state()
            ctx.close(gy / scale, act_t(A, y, dim) / scale, "not equivariant", 1e-7 if k < 6 else 3e-6, f"{cfg} symmetry {li}")
        for j in range(0, no, max(1, no // 4)):
            ctx.state()
            ctx.close(layer(x[:1], T(Hin), T(Hout[j:j + 1]))[0] / scale, y[:1, :, j:j + 1] / scale, "an output element depends on the others", 1e-7, f"{cfg} element {j}")
        # one tensor as both grids, and parts of one tensor
        H = T(Hin)
        y1 = layer(x[:1], H, H)[0]
        ctx.close(y1 / scale, layer(x[:1], T(Hin), T(Hin.copy()))[0] / scale, "the same tensor as both grids matters", 1e-9, f"{cfg}")
        e, A = g.lattice()[-1]
        tH = T(g.mul(e, Hin))
        if mode != "nearest" or not near_tie(g, Hin, Hin, layer.kernel.grid_H.numpy()):
            ctx.close(layer(act_t(A, x[:1], dim), tH, tH)[0] / scale, act_t(A, y1, dim) / scale, "not equivariant", 1e-7 if k < 6 else 3e-6, f"{cfg} one tensor as both grids")
        both = T(np.concatenate((Hin, Hout)))
        ctx.close(layer(x[:1], both[:ni], both[ni:])[0] / scale, y[:1] / scale, "grids that are parts of one tensor matter", 1e-9, f"{cfg}")
        ctx.state(3)
        p = np.roll(np.arange(ni)[::-1], 1)
        ctx.close(layer(x[:1, :, p], T(Hin[p]), T(Hout))[0] / scale, y[:1] / scale, "order of the input elements matters", 1e-7, f"{cfg}")
    ctx.trace()
    ctx.outcome(tuple(y.shape))


def cases(tier):
    th = tier == "thorough"
    out = []
    for g in GROUPS:
        for kind, mode in itertools.product(("sep", "conv"), ("rbf", "nearest")):
            for j, c in enumerate(WIDE[g.dim]):
                if mode == "rbf" or th or j % 4 == 0:
                    out.append(Case(f"wide:{g.name}:{kind}:{mode}:{j}", wide, group=g.name, kind=kind, cfg=c, mode=mode))
        base = (cfg.MENU if g.dim == 2 else dict(cfg.MENU3, k=[3, 1, 2])) | GEXTRA
        if th and g.dim == 3:
            base = dict(cfg.MENU, k=[3, 1, 2]) | GEXTRA
        for kind in ("sep", "conv"):
            bound = 2 if g.dim == 2 or (th and kind == "sep") else 1
            for c in cfg.deviations(base, bound):
                if not cfg.valid(c, g.dim):
                    continue
                gks = {"SE2": 3, "E2": (2, 2), "SE3": 2, "E3": (2, 2)}[g.name] if not (th and g.dim == 2) else g.size
                out.append(Case(f"{g.name}:{kind}:{cfg.cid(c, base)}", run, group=g.name, kind=kind, c=c, gks=gks,
                                full=g.dim == 2 or th))
            if g.dim == 3 and not th:
                m = {k: base[k] for k in ("k", "stride", "padding", "dilation", "padding_mode")}
                for c in cfg.deviations(m, 2):
                    fc = {k: v[0] for k, v in base.items()} | c | {"chan": "g2"}
                    if sum(c[k] != m[k][0] for k in m) == 2 and cfg.valid(fc, 3):
                        out.append(Case(f"{g.name}:{kind}:geo:{cfg.cid(fc, base)}", run, group=g.name, kind=kind, c=fc,
                                        gks={"SE3": 2, "E3": (2, 2)}[g.name], full=False))
            c0 = {k: v[0] for k, v in base.items()} | ({"chan": "g2"} if g.dim == 3 and not th else {})
            for s in g.sizes:
                out.append(Case(f"{g.name}:{kind}:group_size={s}", run, group=g.name, kind=kind, c=c0, gks=s, full=True))
            for s in g.sizes:
                for mode in ("rbf", "nearest"):
                    out.append(Case(f"{g.name}:{kind}:relative:{mode}:size={s}", relative, group=g.name, kind=kind, gks=s, mode=mode))
        for chan in ("one", "g2", "dw"):
            for sizes in ((2, 3), (3, 3), (1, 4)):
                for quat in (False, True) if g.name == "SE3" else (False,):
                    out.append(Case(f"{g.name}:subgroup:{chan}:{sizes}{':quat' if quat else ''}", subgroup, group=g.name,
                                    spatial=1, chan=chan, sizes=sizes, quat=quat))
    return out
