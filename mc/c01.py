"""C01: lifting layers, every configuration within the deviation bound x every lattice symmetry
x the full one-voxel input basis x the full one-hot weight basis x output grids."""
import numpy as np
import cfg, lib, ref
from core import Case
from lib import GROUPS, BY_NAME, T, act_t, impulses, set_weights


def grids(g, ctx, full):
    """Output grids: on-lattice closed, off-lattice generic, single element."""
    rng = np.random.default_rng(11)
    lat = np.stack([e for e, _ in g.lattice()])
    out = [("lattice", lat), ("generic", g.rand(3, rng))]
    if full:
        out += [("one", g.rand(1, rng)), ("coset", g.mul(g.rand(1, rng)[0], lat[::-1].copy()))]
    return out


def run(ctx, group, c, gks):
    import torch

    g = BY_NAME[group]
    dim, k = g.dim, c["k"]
    n = cfg.geometry(c, dim)
    i, o, kw = cfg.layer_args(c, g, "lift", k ** dim)
    layer = g.layer("lift", i, o, k, group_kernel_size=gks, **kw).double()
    rng = np.random.default_rng([3, ctx.case.params["c"]["k"]])
    set_weights(layer, ctx.rng)
    if c["chan"] == "basis":
        lib.one_hot_(layer.kernel.weight)
        x = T(impulses((n,) * dim))
    else:
        x = T(ctx.rng.normal(size=(3, i) + (n,) * dim))
    nonzero = False
    for gname, H in grids(g, ctx, ctx.thorough or dim == 2):
        if len(H) > 8 and (c["chan"] == "basis" and dim == 3) and not ctx.thorough:
            H = H[::5]
        y, Hr = layer(x, T(H))
        ctx.same(Hr, H, "returned grid", gname)
        nonzero |= bool((y != 0).any())
        for li, (e, A) in enumerate(g.lattice()):
            gy, gHr = layer(act_t(A, x, dim), T(g.mul(e, H)))
            ctx.state()
            ctx.close(gy, act_t(A, y, dim), "not equivariant", 1e-8, f"grid {gname}, symmetry {li} {np.asarray(A).tolist()}")
            if gname == "lattice" and len(H) == len(g.lattice()):
                # closed grid: same grid, permuted slices
                perm = [int(np.argmin([np.abs(g.mul(e, H[j:j + 1]) - h).max() if g.name not in ("SE2", "E2")
                                       else _adist(g, g.mul(e, H[j:j + 1])[0], h) for j in range(len(H))])) for h in H]
                py, _ = layer(act_t(A, x, dim), T(H))
                ctx.close(py, act_t(A, y, dim)[:, :, perm], "closed grid not permuted", 1e-8, f"symmetry {li}")
        for o in [[i] for i in range(len(H))][:6] + [list(range(len(H)))[::-1]]:
            ctx.state()
            ctx.close(layer(x, T(H[o]))[0], y[:, :, o], "an output element depends on the others", 1e-8, f"grid {gname}, elements {o}")
        ctx.trace()
    if k != 2 or not c["mask"]:
        ctx.check(nonzero, "vacuous", "the layer's output is zero")
    ctx.sample({"input": n, "layer": repr(layer)[:300]})


def _adist(g, a, b):
    d = abs(a[-1] - b[-1]) % lib.TAU
    return min(d, lib.TAU - d) + (abs(a[0] - b[0]) if g.name == "E2" else 0)


def translate(ctx, group, k, stride, pm):
    """Moving the input moves the output: exactly with circular padding, and for every interior
    impulse with the other modes."""
    g = BY_NAME[group]
    dim = g.dim
    n = 6 if dim == 2 else 4
    layer = g.layer("lift", 1, k ** dim, k, padding=k // 2, padding_mode=pm, stride=stride, mask=False).double()
    lib.one_hot_(layer.kernel.weight)
    H = T(g.rand(2, ctx.rng))
    x = T(impulses((n,) * dim))
    y = layer(x, H)[0]
    import torch

    axes = tuple(range(-dim, 0))
    for t in np.ndindex(*(n,) * dim):
        if any(v % stride for v in t):
            continue
        ctx.state()
        ty = layer(torch.roll(x, t, axes), H)[0]
        tt = tuple(v // stride for v in t)
        if pm == "circular":
            ctx.close(ty, torch.roll(y, tt, axes), "translation", 1e-9, f"by {t}")
        else:
            # impulses that stay k away from the border before and after the move
            pos = np.stack(np.unravel_index(np.arange(n ** dim), (n,) * dim), -1)
            r = k // 2 if pm == "zeros" else k
            mv = pos + np.array(t)
            ok = ((mv < n) if pm == "zeros" else (pos >= r) & (mv < n - r)).all(-1)
            if not ok.any():
                continue
            a, b = ty[ok], torch.roll(y, tt, axes)[ok]
            # compare where the shifted output did not wrap
            sl = (slice(None),) * 3 + tuple(slice(v, None) for v in tt)
            ctx.close(a[sl], b[sl], "translation", 1e-9, f"by {t}")


# batch, channels, groups, image, kernel, output elements, reference elements, stride, padding, mode, bias
WIDE = {2: [(130, 2, 3, 1, 5, 3, 3, 4, 1, 1, "zeros", True), (2, 33, 65, 1, 5, 3, 3, 4, 1, 1, "circular", False), (2, 66, 66, 66, 5, 3, 3, 4, 2, 1, "zeros", True),
            (1, 4, 258, 2, 4, 3, 2, 4, 1, 0, "zeros", True), (1, 130, 4, 2, 4, 3, 3, 4, 1, "same", "replicate", False), (1, 2, 3, 1, 33, 3, 3, 4, 2, 1, "reflect", True),
            (1, 1, 1, 1, 65, 5, 2, 4, 1, 2, "zeros", False), (1, 1, 2, 1, 130, 3, 2, 4, 1, 0, "zeros", False), (2, 2, 3, 1, 5, 3, 33, 4, 1, 1, "zeros", True),
            (1, 1, 2, 1, 5, 3, 130, 4, 1, 0, "zeros", False), (1, 2, 3, 1, 9, 7, 3, 4, 1, "same", "circular", True), (1, 1, 2, 1, 11, 9, 3, 4, 2, 4, "zeros", False),
            (2, 2, 2, 1, 13, 11, 2, 4, 1, 0, "zeros", False), (2, 2, 3, 1, 8, 6, 3, 4, 2, 0, "zeros", False), (1, 16, 16, 4, 17, 3, 8, 16, 1, "same", "zeros", True)],
        3: [(33, 2, 3, 1, 3, 3, 2, 4, 1, 1, "zeros", True), (1, 17, 33, 1, 3, 3, 2, 4, 1, 1, "circular", False), (1, 34, 34, 34, 3, 3, 2, 4, 1, 1, "zeros", True),
            (1, 2, 2, 1, 17, 3, 2, 4, 2, 1, "reflect", True), (1, 2, 3, 1, 4, 3, 33, 4, 1, 1, "zeros", True), (1, 1, 2, 1, 7, 5, 3, 4, 1, "same", "circular", True),
            (1, 1, 2, 1, 7, 7, 2, 4, 1, 0, "zeros", False), (1, 1, 1, 1, 33, 3, 1, 4, 1, 1, "zeros", False), (1, 8, 8, 4, 5, 3, 5, 8, 1, "same", "zeros", True)]}


def wide(ctx, group, cfg):
    """Sizes far from the small ones."""
    import torch

    g = BY_NAME[group]
    dim = g.dim
    B, i, o, gr, n, k, nh, nr, stride, padding, pm, bias = cfg
    layer = g.layer("lift", i, o, k, groups=gr, stride=stride, padding=padding, padding_mode=pm, bias=bias,
                    group_kernel_size=(nr // 2, nr // 2) if g.improper else nr).double()
    set_weights(layer, ctx.rng)
    H = g.rand(nh, np.random.default_rng(13))
    x = T(ctx.rng.normal(size=(B, i) + (n,) * dim))
    with torch.no_grad():
        y, Hr = layer(x, T(H))
        ctx.same(Hr, H, "returned grid")
        ctx.check(bool((y != 0).any()), "vacuous", "zero output")
        scale = float(y.abs().max())  # the coordinates of kernels above 5 are not exact in single precision
        for li, (e, A) in enumerate(g.lattice()):
            gy, _ = layer(act_t(A, x, dim), T(g.mul(e, H)))
            ctx.state()
            ctx.close(gy / scale, act_t(A, y, dim) / scale, "not equivariant", 1e-8 if k < 6 else 3e-6, f"{cfg} symmetry {li}")
        for j in range(0, nh, max(1, nh // 4)):
            ctx.state()
            ctx.close(layer(x[:1], T(H[j:j + 1]))[0] / scale, y[:1, :, j:j + 1] / scale, "an output element depends on the others", 1e-8, f"{cfg} element {j}")
    ctx.trace()
    ctx.outcome(tuple(y.shape))


def cases(tier):
    out = []
    th = tier == "thorough"
    for g in GROUPS:
        for j, c in enumerate(WIDE[g.dim]):
            out.append(Case(f"wide:{g.name}:{j}", wide, group=g.name, cfg=c))
    for g in GROUPS:
        menu = cfg.MENU if g.dim == 2 or th else cfg.MENU3
        bound = (3 if th else 2) if g.dim == 2 else (2 if th else 1)
        seen = set()
        for c in cfg.deviations(menu, bound):
            if not cfg.valid(c, g.dim):
                continue
            out.append(Case(f"{g.name}:{cfg.cid(c, menu)}", run, group=g.name, c=c, gks=g.size))
        if g.dim == 3 and not th:  # pairs of the geometric parameters
            m = {k: menu[k] for k in ("k", "stride", "padding", "dilation", "padding_mode")}
            for c in cfg.deviations(m, 2):
                full = {k: v[0] for k, v in menu.items()} | c | {"chan": "g2"}
                if sum(c[k] != m[k][0] for k in m) == 2 and cfg.valid(full, 3):
                    out.append(Case(f"{g.name}:geo:{cfg.cid(full, menu)}", run, group=g.name, c=full, gks=g.size))
        base = {k: v[0] for k, v in menu.items()}
        for s in g.sizes:
            out.append(Case(f"{g.name}:group_size={s}", run, group=g.name, c=base, gks=s))
        for k in (1, 3) if g.dim == 3 and not th else (1, 3, 5):
            for stride in (1, 2):
                for pm in ("circular", "zeros", "replicate"):
                    if k % 2 == 0 and pm != "circular":
                        continue
                    if k % 2 == 0 and stride == 2:
                        continue
                    out.append(Case(f"{g.name}:translate:k={k},stride={stride},{pm}", translate, group=g.name, k=k, stride=stride, pm=pm))
    return out
