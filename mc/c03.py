"""C03: every program  lift ; l1 ; ... ; ld  over the layer alphabet up to a depth, on a grid closed
under the symmetry group: one run per program on the batch of all transformed inputs; each prefix
is a state, each layer application a transition.  Every state is checked for equivariance and,
through the four pools, for invariance."""
import numpy as np
import ref
from core import Case
from lib import GROUPS, BY_NAME, T, act_t, set_weights


def subgroup(g, which):
    """Elements (params, integer matrix) of a finite subgroup; also used as the (closed) group grid."""
    L = g.lattice()
    if which == "full" or g.dim == 2 and which != "half":
        return L
    if g.dim == 2:
        return [l for l in L if (np.abs(l[1]) == np.eye(2)).all()]
    if which == "klein":
        return [l for l in L if (np.abs(l[1]) == np.eye(3)).all()]
    if which == "c4":
        return [l for l in L if abs(l[1][2, 2]) == 1 and l[1][2, 2] == (l[0][0] if g.improper else 1)]
    raise KeyError(which)


def alphabet(g, gks):
    import torch.nn as nn
    import gconv.gnn as gnn

    d = g.dim
    P = lambda name: getattr(gnn, f"{name}{d}d")
    C = 2
    return {
        "relu": lambda n: gnn.GReLU(),
        "sep": lambda n: g.layer("sep", C, C, 3, group_kernel_size=gks, padding=1, bias=True),
        "conv": lambda n: g.layer("conv", C, C, 3, group_kernel_size=gks, padding="same", mask=False),
        "bn": lambda n: P("GBatchNorm")(C),
        "in": lambda n: P("GInstanceNorm")(C, affine=True),
        "max": lambda n: P("GMaxSpatialPool")(3, stride=1, padding=1),
        "avg": lambda n: P("GAvgSpatialPool")(2, stride=1) if n > 1 else None,
        "amax": lambda n: P("GAdaptiveMaxSpatialPool")(3),
        "aavg": lambda n: P("GAdaptiveAvgSpatialPool")(2),
        "wrap": lambda n: gnn.GWrap(nn.Softplus()),
        "sep2": lambda n: g.layer("sep", C, C, 3, group_kernel_size=gks, padding=1, stride=2, groups=2) if n % 2 else None,
        "conv2": lambda n: g.layer("conv", C, C, 3, group_kernel_size=gks, padding=1, stride=2, padding_mode="replicate", groups=2) if n % 2 else None,
        "max2": lambda n: P("GMaxSpatialPool")(3, stride=2) if n % 2 and n > 2 else None,
        "gelu": lambda n: gnn.GGELU(),
        "lrelu": lambda n: gnn.GLeakyReLU(0.2),
        "ln": lambda n: gnn.GLayerNorm((n,) * d, elementwise_affine=False),
    }


def perms(g, L):
    """perm[s][i] = j with  s h_j = h_i."""
    mats = [np.asarray(A) for _, A in L]
    keys = [(e[0] if g.improper else 1,) + tuple(map(int, A.ravel())) for e, A in L]
    out = []
    for e, A in L:
        c = e[0] if g.improper else 1
        row = []
        for i in range(len(L)):
            row.append(next(j for j in range(len(L)) if (c * keys[j][0],) + tuple(map(int, (np.asarray(A) @ mats[j]).ravel())) == keys[i]))
        out.append(row)
    return out


def run(ctx, group, which, first, depth, names):
    import torch
    import gconv.gnn as gnn

    g = BY_NAME[group]
    d = g.dim
    L = subgroup(g, which)
    H = T(np.stack([e for e, _ in L]))
    pm = perms(g, L)
    gks = {"SE2": 3, "E2": (2, 3), "SE3": 3, "E3": (2, 2)}[group]
    alpha = alphabet(g, gks)
    n0 = 5 if d == 2 else 3
    f = T(ctx.rng.normal(size=(1, 1) + (n0,) * d))
    X = torch.cat([act_t(A, f, d) for _, A in L])
    lift = set_weights(g.layer("lift", 1, 2, 3, group_kernel_size=gks, padding=1, bias=True).double().eval(), ctx.rng, 0.7)
    pools = [("GMaxGroupPool", True), ("GAvgGroupPool", True), ("GMaxGlobalPool", False), ("GAvgGlobalPool", False)]

    def check(y, prog):
        ctx.state()
        scale = max(1.0, float(y.abs().max()))
        y = y / scale
        base = y[0]
        for s, (e, A) in enumerate(L):
            ctx.close(y[s], act_t(A, base, d)[:, pm[s]], "not equivariant", 1e-7, f"program {'>'.join(prog)}, symmetry {s}")
        for pname, spatial in pools:
            p = getattr(gnn, pname)()(y, H)
            ctx.check(torch.is_tensor(p), "pool result", f"{pname} gives {type(p).__name__}")
            want = torch.stack([act_t(A, p[0], d) if spatial else p[0] for _, A in L])
            ctx.close(p, want, "pooled features not invariant", 1e-7, f"{pname} after {'>'.join(prog)}")
            if len(prog) == 1:
                ctx.check(float((p[0] - p[0].mean()).abs().max()) > 0, "vacuous", f"{pname} {prog}")
            ctx.outcome(round(float(p[0].sum()), 6))
        ctx.trace()

    def extend(y, prog, names_here):
        n = y.shape[-1]
        for name in names_here:
            mod = alpha[name](n)
            if mod is None:
                continue
            mod = mod.double().eval()
            if name not in ("bn", "in"):
                set_weights(mod, ctx.rng, 0.5)
            else:
                set_weights(mod, ctx.rng, 1.0)
            if name == "bn":
                with torch.no_grad():
                    mod.running_mean.copy_(T(ctx.rng.normal(size=2)))
                    mod.running_var.copy_(T(ctx.rng.uniform(0.5, 2, 2)))
            r = mod(y, H) if name not in ("sep", "conv", "sep2", "conv2") else mod(y, H, H)
            ctx.trans()
            z, Hr = r
            ctx.same(Hr, H, "grid changed", name)
            z = z.detach()
            check(z, prog + [name])
            if len(prog) < depth:
                extend(z, prog + [name], names)

    y, Hr = lift(X, H)
    y = y.detach()
    if first == names[0]:
        check(y, ["lift"])
    extend(y, ["lift"], [first])
    ctx.sample({"group": group, "symmetries": len(L), "first": first, "depth": depth})


def train(ctx, group, prog):
    """Training mode: the batch statistics of a transformed batch are those of the batch."""
    import torch
    import gconv.gnn as gnn

    g = BY_NAME[group]
    d = g.dim
    L = subgroup(g, "full" if d == 2 else "c4")
    H = T(np.stack([e for e, _ in L]))
    gks = {"SE2": 3, "E2": (2, 2), "SE3": 2, "E3": (2, 1)}[group]
    alpha = alphabet(g, gks)
    n = 5 if d == 2 else 3
    x = T(ctx.rng.normal(size=(3, 1) + (n,) * d))
    lift = set_weights(g.layer("lift", 1, 2, 3, group_kernel_size=gks, padding=1).double(), ctx.rng)
    mods = []
    probe = lift(x, H)[0]
    for name in prog:
        m = alpha[name](probe.shape[-1])
        if m is None:
            return
        m = set_weights(m.double(), ctx.rng, 0.7).train()
        mods.append((name, m))
        probe = (m(probe, H, H) if name in ("sep", "conv", "sep2", "conv2") else m(probe, H))[0]

    def net(x):
        y = lift(x, H)[0]
        for name, m in mods:
            y = (m(y, H, H) if name in ("sep", "conv", "sep2", "conv2") else m(y, H))[0]
        return y

    base = net(x)
    for s, (e, A) in enumerate(L):
        ctx.state()
        y = net(act_t(A, x, d))
        for pname in ("GMaxGlobalPool", "GAvgGlobalPool"):
            ctx.close(getattr(gnn, pname)()(y, H), getattr(gnn, pname)()(base, H), "training features not invariant", 1e-7,
                      f"{pname} after {prog}, symmetry {s}")
    ctx.trace()


NAMES = ["relu", "sep", "conv", "bn", "in", "max", "avg", "amax", "aavg", "wrap", "sep2", "conv2", "max2", "gelu", "lrelu", "ln"]
SHORT = ["relu", "sep", "conv", "bn", "in", "max", "aavg", "wrap", "sep2", "max2"]


def cases(tier):
    th = tier == "thorough"
    out = []
    for g in GROUPS:
        if g.dim == 2:
            plan = [("full", 3, NAMES)] + ([("full", 4, SHORT)] if th else [])
        else:
            plan = [("full", 3 if th else 2, SHORT), ("klein", 3, NAMES), ("c4", 3 if th else 2, SHORT)]
        for which, depth, names in plan:
            for first in names:
                out.append(Case(f"{g.name}:{which}:depth{depth}:{first}", run, group=g.name, which=which, first=first, depth=depth, names=names))
        for a in ("relu", "sep", "conv", "max", "in"):
            for b in ("bn", "in"):
                out.append(Case(f"{g.name}:train:{a}>{b}", train, group=g.name, prog=[a, b]))
                out.append(Case(f"{g.name}:train:{b}>{a}>bn", train, group=g.name, prog=[b, a, "bn"]))
    return out
