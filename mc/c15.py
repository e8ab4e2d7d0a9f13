"""C15: the product of pooling classes and their arguments (window, stride, padding, dilation, ceil mode,
divisor, adaptive sizes) x spatial shapes x inputs (generic, all negative, one-hot, extreme), lock-step
with a loop model; group and global pools under all orders of the group axis."""
import itertools, math
import numpy as np
from core import Case, to_np
from lib import T, grid_menu


def tup(v, d):
    return (v,) * d if not isinstance(v, (tuple, list)) else tuple(v)


def out_size(n, k, s, p, dl, ceil):
    num = n + 2 * p - dl * (k - 1) - 1
    if num < 0 and not ceil:
        return 0
    o = (-(-num // s) if ceil else num // s) + 1
    if ceil and (o - 1) * s >= n + p:
        o -= 1
    return o


def windows(n, k, s, p, dl, ceil):
    return [[i * s - p + t * dl for t in range(k)] for i in range(out_size(n, k, s, p, dl, ceil))]


def model_pool(x, kind, k, s, p, dl, ceil, count_pad=True, divisor=None):
    """Over the trailing len(k) axes."""
    d = len(k)
    S = x.shape[-d:]
    W = [windows(S[a], k[a], s[a], p[a], dl[a], ceil) for a in range(d)]
    y = np.zeros(x.shape[:-d] + tuple(len(w) for w in W))
    for pos in itertools.product(*[range(len(w)) for w in W]):
        idx = [[i for i in W[a][pos[a]] if 0 <= i < S[a]] for a in range(d)]
        v = x[(Ellipsis,) + np.ix_(*idx)].reshape(*x.shape[:-d], -1)
        if kind == "max":
            y[(Ellipsis,) + pos] = v.max(-1)
        else:
            # a window counts its padding, but not what sticks out beyond the padded input (ceil mode)
            full = np.prod([sum(1 for i in W[a][pos[a]] if i < S[a] + p[a]) for a in range(d)])
            n = divisor or (full if count_pad else np.prod([len(i) for i in idx]))
            y[(Ellipsis,) + pos] = v.sum(-1) / n
    return y


def model_adaptive(x, kind, size):
    d = len(size)
    S = x.shape[-d:]
    O = [S[a] if size[a] is None else size[a] for a in range(d)]
    y = np.zeros(x.shape[:-d] + tuple(O))
    for pos in itertools.product(*[range(o) for o in O]):
        idx = [slice(i * n // o, -((-(i + 1) * n) // o)) for i, n, o in zip(pos, S, O)]
        v = x[(Ellipsis,) + tuple(idx)].reshape(*x.shape[:-d], -1)
        y[(Ellipsis,) + pos] = v.max(-1) if kind == "max" else v.mean(-1)
    return y


def inputs(ctx, N, C, G, S):
    rng = ctx.rng
    sh = (N, C, G) + S
    yield "generic", rng.normal(size=sh)
    yield "negative", -1 - rng.random(size=sh)
    x = np.zeros(sh)  # one-hot, somewhere else in each slice
    f = x.reshape(N * C * G, -1)
    f[np.arange(len(f)), (5 * np.arange(len(f)) + 1) % f.shape[1]] = 1
    yield "onehot", x
    yield "constant", np.full(sh, -3.0)


def axes_kept(ctx, mod, x, Hobj, what):
    xt = T(x)
    y = mod(xt, Hobj)
    ctx.same(xt, x, "input changed", what)
    if not ctx.check(isinstance(y, tuple) and len(y) == 2, "result", f"{what}: {type(y).__name__}"):
        return None
    ctx.check(y[1] is Hobj or (hasattr(y[1], "shape") and np.array_equal(to_np(y[1]), to_np(Hobj))), "grid changed", what)
    return y[0]


def spatial(ctx, kind, dim, shape, confs):
    import gconv.gnn as gnn

    cls = getattr(gnn, f"G{kind.capitalize()}SpatialPool{dim}d")
    H = T(ctx.rng.normal(size=(3, 2)))
    for c in confs:
        k, s, p = tup(c["k"], dim), c["s"], tup(c["p"], dim)
        st = k if s is None else tup(s, dim)
        dl = tup(c.get("dl", 1), dim)
        if any(2 * a > b for a, b in zip(p, k)):
            continue
        if any(out_size(n, a, b, q, e, c["ceil"]) < 1 for n, a, b, q, e in zip(shape, k, st, p, dl)):
            continue
        kw = dict(stride=s, padding=c["p"], ceil_mode=c["ceil"])
        if kind == "max":
            kw["dilation"] = c["dl"]
            ref_kw = {}
        else:
            kw.update(count_include_pad=c["cp"], divisor_override=c["div"])
            ref_kw = dict(count_pad=c["cp"], divisor=c["div"])
        mod = cls(c["k"], **kw)
        for (N, C, G) in ((2, 2, 3), (1, 3, 1)):
            for name, x in inputs(ctx, N, C, G, shape):
                what = f"{cls.__name__}({c}) on {name} {x.shape}"
                y = axes_kept(ctx, mod, x, H, what)
                ctx.state()
                if y is not None:
                    ctx.close(y, model_pool(x, kind, k, st, p, dl, c["ceil"], **ref_kw), "not the pooled slices", 1e-9, what)
        ctx.outcome(tuple(out_size(n, a, b, q, e, c["ceil"]) for n, a, b, q, e in zip(shape, k, st, p, dl)))
        ctx.trace()
    ctx.sample({"confs": len(confs), "shape": shape})


def adaptive(ctx, kind, dim, shape, sizes):
    import gconv.gnn as gnn

    cls = getattr(gnn, f"GAdaptive{kind.capitalize()}SpatialPool{dim}d")
    H = T(ctx.rng.normal(size=(3, 2)))
    for size in sizes:
        mod = cls(size)
        for (N, C, G) in ((2, 2, 3), (1, 3, 1), (1, 1, 2)):
            for name, x in inputs(ctx, N, C, G, shape):
                what = f"{cls.__name__}({size}) on {name} {x.shape}"
                y = axes_kept(ctx, mod, x, H, what)
                ctx.state()
                if y is not None:
                    ctx.close(y, model_adaptive(x, kind, tup(size, dim)), "not the pooled slices", 1e-9, what)
        ctx.trace()


def group_pools(ctx, dim):
    """Group and global pools: values, shapes, with and without the grid, every order of the group axis."""
    import gconv.gnn as gnn

    shapes = [(3, 3), (2, 5), (1, 1), (1, 4)] if dim == 2 else [(2, 2, 2), (2, 3, 4), (1, 1, 1), (3, 1, 2)]
    for G in range(1, 6 if ctx.thorough else 5):
        H = T(ctx.rng.normal(size=(G, 3, 3)))
        for (N, C), S in itertools.product(((1, 1), (2, 3), (3, 2)), shapes):
            for name, x in inputs(ctx, N, C, G, S):
                what = f"{name} {x.shape}"
                wants = {
                    "GMaxGroupPool": x.max(2), "GAvgGroupPool": x.mean(2),
                    "GMaxGlobalPool": x.reshape(N, C, -1).max(-1)[..., None], "GAvgGlobalPool": x.reshape(N, C, -1).mean(-1)[..., None],
                }
                for cls, want in wants.items():
                    mod = getattr(gnn, cls)()
                    for args in ((H,), ()):
                        xt = T(x)
                        y = mod(xt, *args)
                        ctx.same(xt, x, "input changed", f"{cls} {what}")
                        ctx.check(hasattr(y, "shape"), "not a tensor", f"{cls} {what}: {type(y).__name__}")
                        ctx.close(y, want, f"not the reduction over the documented axes", 1e-9, f"{cls} {what}")
                        ctx.state()
                    if S == shapes[0] and name == "generic":
                        for perm in itertools.permutations(range(G)):
                            y = mod(T(x[:, :, list(perm)]), H)
                            ctx.close(y, want, "depends on the order of the group elements", 1e-9, f"{cls} {perm} {what}")
                            ctx.state(); ctx.trace()
    # spatial order does not matter to global pooling
    x = ctx.rng.normal(size=(2, 2, 2) + shapes[1])
    for p in itertools.permutations(range(dim)):
        xt = np.transpose(x, (0, 1, 2) + tuple(3 + a for a in p))
        for cls in ("GMaxGlobalPool", "GAvgGlobalPool"):
            ctx.close(getattr(gnn, cls)()(T(xt), None), to_np(getattr(gnn, cls)()(T(x), None)), "global pool depends on positions", 1e-9)


def grids(ctx, dim):
    """Pooling sees features alone: every kind of grid, in every arrangement, leaves the result alone."""
    import gconv.gnn as gnn

    S = (4, 3) if dim == 2 else (2, 3, 4)
    for G in (1, 2, 3, 4, 6, 8, 12, 24):
        x = ctx.rng.normal(size=(2, 2, G) + S)
        N, C = 2, 2
        k, one, zero = (2,) * dim, (1,) * dim, (0,) * dim
        flat = x.reshape(N, C, -1)
        wants = {"GMaxGroupPool": x.max(2), "GAvgGroupPool": x.mean(2), "GMaxGlobalPool": flat.max(-1)[..., None], "GAvgGlobalPool": flat.mean(-1)[..., None]}
        spatial = {f"GMaxSpatialPool{dim}d": model_pool(x, "max", k, k, zero, one, False), f"GAvgSpatialPool{dim}d": model_pool(x, "avg", k, k, zero, one, False),
                   f"GAdaptiveMaxSpatialPool{dim}d": model_adaptive(x, "max", k), f"GAdaptiveAvgSpatialPool{dim}d": model_adaptive(x, "avg", k)}
        mods = {c: getattr(gnn, c)() for c in wants} | {c: getattr(gnn, c)(2) for c in spatial}
        for name, H in grid_menu(G):
            keep = None if H is None else to_np(H).copy()
            for c, want in wants.items():
                ctx.close(mods[c](T(x), H), want, "depends on the grid", 1e-12, f"{c}, {G} elements, {name}")
                ctx.state()
            for c, want in spatial.items():
                y, h = mods[c](T(x), H)
                ctx.close(y, want, "depends on the grid", 1e-12, f"{c}, {G} elements, {name}")
                ctx.check(h is H or H is not None and np.array_equal(to_np(h), keep), "grid changed", f"{c} {name}")
                ctx.state()
            if H is not None:
                ctx.same(H, keep, "grid changed", name)
        ctx.trace()


def special(ctx, dim):
    """Features that are not ordinary numbers, in every place of a small input."""
    import torch
    import gconv.gnn as gnn

    S = (2, 2) if dim == 2 else (2, 1, 2)
    G, n = 2, 4
    for vals in itertools.product((0.5, -2.0, np.nan, np.inf, -np.inf, 1e300, -0.0), repeat=3):
        x = np.array([-1.0, -3.0, -1.5, -4.0] * 2)
        for place in itertools.combinations(range(2 * n), 3) if vals[0] != 0.5 else [(0, 1, 2)]:
            v = x.copy()
            v[list(place)] = vals
            v = v.reshape((1, 1, G) + S)
            with np.errstate(all="ignore"):
                wants = {"GMaxGroupPool": v.max(2), "GAvgGroupPool": v.mean(2), "GMaxGlobalPool": v.reshape(1, 1, -1).max(-1)[..., None], "GAvgGlobalPool": v.reshape(1, 1, -1).mean(-1)[..., None]}
            for c, want in wants.items():
                y = to_np(getattr(gnn, c)()(T(v), None))
                fin = np.isfinite(want)
                ctx.check(y.shape == want.shape and np.array_equal(np.isnan(y), np.isnan(want)) and np.array_equal(y[~fin & ~np.isnan(want)], want[~fin & ~np.isnan(want)])
                          and np.allclose(y[fin], want[fin], rtol=1e-12), "special values", f"{c}: {v.ravel().tolist()} gives {y.ravel().tolist()}")
                ctx.state()
    ctx.trace()


LARGE = {2: [(3, 5, 7, 33, 35), (2, 129, 3, 4, 5), (130, 2, 3, 5, 4), (2, 2, 65, 9, 8), (1, 1030, 1, 3, 2), (1, 1, 1030, 2, 3), (1030, 1, 1, 3, 3), (1, 1, 2, 130, 129), (1, 2, 1, 3, 600), (2, 33, 65, 3, 3)],
         3: [(3, 5, 7, 9, 8, 10), (2, 129, 3, 3, 2, 2), (130, 2, 3, 2, 2, 3), (2, 2, 65, 3, 3, 2), (1, 1, 1030, 2, 2, 2), (1030, 1, 1, 2, 3, 2), (1, 1, 2, 30, 29, 17), (2, 33, 65, 2, 2, 2)]}


def large(ctx, dim, shape):
    """Every pool on inputs beyond any usual block size, in both precisions, also with infinite features."""
    import torch
    import gconv.gnn as gnn

    N, C, G = shape[:3]
    H = T(ctx.rng.normal(size=(G, 2)))
    x = ctx.rng.normal(size=shape) * 3 + 5
    inf = np.where(ctx.rng.random(size=shape) < 0.3, -np.inf, x)
    inf[0, 0] = -np.inf
    for dt, tol in ((torch.float64, 1e-10), (torch.float32, 1e-5)):
        for cls, want in {"GMaxGroupPool": lambda v: v.max(2), "GAvgGroupPool": lambda v: v.mean(2), "GMaxGlobalPool": lambda v: v.reshape(N, C, -1).max(-1)[..., None],
                          "GAvgGlobalPool": lambda v: v.reshape(N, C, -1).mean(-1)[..., None]}.items():
            for v in (x, inf) if "Max" in cls else (x,):
                v = to_np(T(v, dt)).astype(float)
                same = (lambda a, b, m, _, w: ctx.same(a, b, m, w)) if v.min() == -np.inf else ctx.close
                same(getattr(gnn, cls)()(T(v, dt), H), want(v), "not the reduction over the documented axes", tol, f"{cls} {shape} {dt}")
                ctx.state()
        for kind in ("max", "avg"):
            for v in (x, inf) if kind == "max" else (x,):
                v = to_np(T(v, dt)).astype(float)
                same = (lambda a, b, m, _, w: ctx.same(a, b, m, w)) if v.min() == -np.inf else ctx.close
                for k, s, p in ((2, None, 0), (2, 1, 1)):
                    mod = getattr(gnn, f"G{kind.capitalize()}SpatialPool{dim}d")(k, stride=s, padding=p)
                    y = mod(T(v, dt), H)
                    same(y[0], model_pool(v, kind, (k,) * dim, (s or k,) * dim, (p,) * dim, (1,) * dim, False), "not the pooled slices", tol, f"{kind} pool {k, s, p} {shape} {dt}")
                    ctx.check(y[1] is H or np.array_equal(to_np(y[1]), to_np(H)), "grid changed", str(shape))
                y = getattr(gnn, f"GAdaptive{kind.capitalize()}SpatialPool{dim}d")(2)(T(v, dt), H)
                same(y[0], model_adaptive(v, kind, (2,) * dim), "not the pooled slices", tol, f"adaptive {kind} pool {shape} {dt}")
                ctx.state()
    ctx.trace()


def cases(tier):
    th = tier == "thorough"
    out = []
    for dim in (2, 3):
        if dim == 2:
            K, S, P = [1, 2, 3, (2, 3), (3, 1)], [None, 1, 2, (1, 2), (3, 1)], [0, 1, (0, 1), (1, 0)]
            DL, shapes = [1, 2, (2, 1)], [(4, 5), (6, 6), (7, 3)] + ([(5, 4), (8, 8), (9, 2)] if th else [])
        else:
            K, S, P = [1, 2, 3, (1, 2, 3), (2, 1, 2)], [None, 1, 2, (1, 2, 3)], [0, 1, (0, 1, 0)]
            DL, shapes = [1, (2, 1, 1)], [(4, 4, 4), (3, 4, 5)] + ([(5, 3, 4), (6, 2, 3)] if th else [])
        for shape in shapes:
            mx = [dict(k=k, s=s, p=p, dl=dl, ceil=c) for k, s, p, dl, c in itertools.product(K, S, P, DL, (False, True))]
            av = [dict(k=k, s=s, p=p, ceil=c, cp=cp, div=dv) for k, s, p, c, cp, dv in itertools.product(K, S, P, (False, True), (True, False), (None, 3))]
            for kind, confs in (("max", mx), ("avg", av)):
                for a in range(0, len(confs), 60):
                    out.append(Case(f"{kind}{dim}d:{shape}:{a}", spatial, kind=kind, dim=dim, shape=shape, confs=confs[a:a + 60]))
            sizes = [1, 2, 3, None, 4]
            sizes = [s for s in sizes if s is not None] + list(itertools.product([1, 2, 3, None], repeat=dim))
            for kind in ("max", "avg"):
                out.append(Case(f"adaptive-{kind}{dim}d:{shape}", adaptive, kind=kind, dim=dim, shape=shape, sizes=sizes))
        out.append(Case(f"group{dim}d", group_pools, dim=dim))
        out += [Case(f"grids{dim}d", grids, dim=dim), Case(f"special{dim}d", special, dim=dim)]
        out += [Case(f"large{dim}d:{i}", large, dim=dim, shape=sh) for i, sh in enumerate(LARGE[dim])]
    return out
