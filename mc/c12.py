"""C12: explicit-state search over every history (up to a depth) of operations on the grid table: requests,
cached requests, explicit saves and loads, callers modifying what they got or gave, layers built on default
grids and checkpoints loaded into them.  After every operation the whole visible table is compared with a
dictionary model.  The table is put back between histories."""
import copy, importlib, itertools
import numpy as np
from core import Case, to_np
from c11 import TAIL, valid_rot
from core import Ctx

KEYS = [(n, p) for n in (4, 26, 27) for p in ("quat", "matrix", "euler")]


def modules():
    return importlib.import_module("gconv.geometry.groups._grid_cache"), importlib.import_module("gconv.geometry.groups.so3")


def snapshot():
    snap = []
    for m in modules():
        for k, v in vars(m).items():
            if isinstance(v, dict) and not k.startswith("__"):
                snap.append((v, copy.deepcopy(v)))
    return snap


def restore(snap):
    for d, old in snap:
        d.clear()
        d.update(copy.deepcopy(old))


class World:
    """The real objects together with their model."""

    def __init__(self, base):
        self.table = dict(base)  # (n, p) -> numpy content
        self.last = None  # last tensor handed to a caller
        self.kernels = []  # [(kernel, numpy grid)]


def some_grid(p, n, k):
    import torch

    g = torch.Generator().manual_seed(100 + k)
    return torch.randn(n, *TAIL[p], generator=g)


# ------------------------------------------------------------------ operations: each runs the real code and moves the model


def op_request(ctx, w, n, p, cache, spelled=None):
    from gconv.geometry import so3

    X = so3.uniform_grid(n, spelled or p, steps=0, show_pbar=False, cache_grid=cache)
    if (n, p) in w.table:
        ctx.same(X, w.table[n, p], "request does not return the stored grid", f"({n}, {p})")
    else:
        valid_rot(ctx, X, (n,), p, f"({n}, {p})")
        if cache:
            w.table[n, p] = to_np(X).copy()
    w.last = X


def op_o3(ctx, w):
    from gconv.geometry import o3

    X = o3.uniform_grid((4, 4))
    ctx.same(to_np(X)[:, 1:].reshape(8, 3, 3), np.concatenate([w.table[4, "matrix"]] * 2), "O3 grid is not the stored grid")
    w.last = X


def op_o3m(ctx, w):
    from gconv.geometry import o3

    X = o3.uniform_grid((4, 0), matrix_only=True)
    ctx.same(X, w.table[4, "matrix"], "O3 grid is not the stored grid")
    w.last = X


def op_mutate(ctx, w):
    import torch

    if w.last is not None:
        with torch.no_grad():
            w.last.mul_(0).add_(5.0)


def op_resize(ctx, w):
    """The caller turns what it got into a parameter and trains it."""
    import torch

    if w.last is not None and not w.last.requires_grad:
        w.last.requires_grad_(True)
        with torch.no_grad():
            w.last.sub_(1.0)


def op_save(ctx, w, n, p, over, k):
    m, _ = modules()
    g = some_grid(p, n, k)
    m.save_grid(g, "so3", p, overwrite=over)
    if over or (n, p) not in w.table:
        w.table[n, p] = to_np(g).copy()
    w.last = g  # still the caller's


def op_load(ctx, w, n, p):
    m, _ = modules()
    if (n, p) in w.table:
        X = m.load_grid(n, "so3", p)
        ctx.same(X, w.table[n, p], "load does not return the stored grid", f"({n}, {p})")
        w.last = X
    else:
        ctx.raises(lambda: m.load_grid(n, "so3", p), "load of an absent grid", f"({n}, {p})", KeyError)


def op_layer(ctx, w, kind):
    from gconv.gnn import kernels as K

    if len(w.kernels) >= 2:
        return
    k = {"lift": lambda: K.GLiftingKernelSE3(1, 1, 1), "conv": lambda: K.GKernelSE3(1, 1, 1, 4), "e3": lambda: K.GLiftingKernelE3(1, 1, 1, (4, 4))}[kind]()
    want = w.table[4, "matrix"]
    got = to_np(k.grid_H)
    if kind == "e3":
        ctx.same(got[:, 1:].reshape(8, 3, 3), np.concatenate((want, want)), "layer does not use the stored grid")
    else:
        ctx.same(got, want, "layer does not use the stored grid")
    w.kernels.append((k, got.copy()))


def op_checkpoint(ctx, w):
    """A checkpoint with another reference grid is loaded into the newest layer."""
    import torch

    if w.kernels:
        k, g = w.kernels[-1]
        sd = {n: torch.full_like(v, 0.25) if n == "grid_H" else v.clone() for n, v in k.state_dict().items()}
        k.load_state_dict(sd)
        w.kernels[-1] = (k, np.full_like(g, 0.25))


def op_inplace(ctx, w):
    if w.kernels:
        k, g = w.kernels[0]
        k.grid_H.neg_()
        w.kernels[0] = (k, -g)


OPS = {
    "request 26 quat": lambda c, w: op_request(c, w, 26, "quat", False),
    "cached request 26 quat": lambda c, w: op_request(c, w, 26, "quat", True),
    "cached request 26 Matrix": lambda c, w: op_request(c, w, 26, "matrix", True, "Matrix"),
    "cached request 26 euler": lambda c, w: op_request(c, w, 26, "euler", True),
    "cached request 27 matrix": lambda c, w: op_request(c, w, 27, "matrix", True),
    "request 26 matrix": lambda c, w: op_request(c, w, 26, "matrix", False),
    "request 4 matrix": lambda c, w: op_request(c, w, 4, "matrix", False),
    "cached request 4 QUAT": lambda c, w: op_request(c, w, 4, "quat", True, "QUAT"),
    "cached request 4 euler": lambda c, w: op_request(c, w, 4, "euler", True),
    "O3 request": op_o3,
    "O3 matrix request": op_o3m,
    "caller modifies its tensor": op_mutate,
    "caller trains its tensor": op_resize,
    "save 26 quat": lambda c, w: op_save(c, w, 26, "quat", False, 1),
    "save 4 matrix": lambda c, w: op_save(c, w, 4, "matrix", False, 2),
    "overwrite 4 matrix": lambda c, w: op_save(c, w, 4, "matrix", True, 3),
    "overwrite 26 quat": lambda c, w: op_save(c, w, 26, "quat", True, 4),
    "load 4 quat": lambda c, w: op_load(c, w, 4, "quat"),
    "load 26 quat": lambda c, w: op_load(c, w, 26, "quat"),
    "lifting layer": lambda c, w: op_layer(c, w, "lift"),
    "E3 layer": lambda c, w: op_layer(c, w, "e3"),
    "group layer": lambda c, w: op_layer(c, w, "conv"),
    "load checkpoint": op_checkpoint,
    "modify a layer's grid": op_inplace,
}


def audit(ctx, w, hist):
    m, so3 = modules()
    for n, p in KEYS:
        try:
            X = m.load_grid(n, "so3", p)
        except KeyError:
            X = None
        if (X is None) != ((n, p) not in w.table):
            ctx.fail("table entry " + ("lost" if X is None else "appeared"), f"({n}, {p}) after {hist}")
        elif X is not None:
            Y = to_np(X)
            if Y.shape != w.table[n, p].shape or not np.array_equal(Y, w.table[n, p]):
                ctx.fail("table entry changed", f"({n}, {p}) after {hist}")
            if X.requires_grad:
                ctx.fail("table entry requires grad", f"({n}, {p}) after {hist}")
        ctx.trans()
    for k, g in w.kernels:
        ctx.same(k.grid_H, g, "layer's grid changed", str(hist))


def histories(ctx, first, depth):
    m, so3 = modules()
    base = {(n, p): to_np(so3.uniform_grid(n, p, show_pbar=False)) for n in (4,) for p in ("quat", "matrix")}
    snap = snapshot()
    count = 0
    try:
        for L in range(0, depth):
            for rest in itertools.product(OPS, repeat=L):
                hist = (first,) + rest
                w = World(base)
                before = ctx.nfail
                for op in hist:
                    OPS[op](ctx, w)
                    ctx.state()
                audit(ctx, w, hist)
                if ctx.nfail > before and count < 3:
                    count += 1
                    ctx.fail(f"history {count}", " ; ".join(hist))
                ctx.trace()
                restore(snap)
                if ctx.nfail > 30:
                    return
    finally:
        restore(snap)
    ctx.sample({"first": first, "depth": depth})


def whole_table(ctx):
    """Every built-in entry: what callers do to a returned grid never shows up in later requests."""
    from gconv.geometry import so3, o3

    for n, p in itertools.product(range(1, 25), ("quat", "matrix")):
        X = so3.uniform_grid(n, p)
        keep = to_np(X).copy()
        others = {(k, q): to_np(so3.uniform_grid(k, q)) for k in range(1, 25) for q in ("quat", "matrix")}
        X.zero_()
        for (k, q), v in others.items():
            ctx.same(so3.uniform_grid(k, q), v if (k, q) != (n, p) else keep, "modifying a returned grid changed the table", f"({n}, {p}) -> ({k}, {q})")
        ctx.same(so3.uniform_grid(n, p, device="cpu"), keep, "device request", f"({n}, {p})")
        ctx.same(so3.uniform_grid(n, p, cache_grid=True), keep, "cached request", f"({n}, {p})")
        ctx.state(); ctx.trace()


def sizes(ctx, lo, hi):
    """Every size: cached requests in every ordered pair of parameterisations keep their own entries."""
    from gconv.geometry import so3

    snap = snapshot()
    m, _ = modules()
    try:
        for n in range(lo, hi):
            have = {p: to_np(m.load_grid(n, "so3", p)).copy() for p in ("quat", "matrix", "euler") if p in ("quat", "matrix") and n <= 24}
            # requests that do not ask for caching leave no entry behind, in whichever order they are made
            for seq in itertools.permutations(("quat", "matrix", "euler"), 2):
                for p in seq:
                    X = so3.uniform_grid(n, p, steps=0, show_pbar=False)
                    X.mul_(-3.0)
                    for q in ("quat", "matrix", "euler"):
                        try:
                            Y = to_np(m.load_grid(n, "so3", q))
                        except KeyError:
                            Y = None
                        if (Y is None) != (q not in have):
                            ctx.fail("table entry " + ("lost" if Y is None else "appeared"), f"({n}, {q}) after an uncached request for {p}")
                        elif Y is not None:
                            ctx.same(Y, have[q], "table entry changed", f"({n}, {q}) after an uncached request for {p}")
                        ctx.trans()
                    ctx.state()
                ctx.trace()
                restore(snap)
            for seq in itertools.permutations(("quat", "matrix", "euler")):
                table = dict(have)
                for p in seq:
                    X = so3.uniform_grid(n, p, steps=0, show_pbar=False, cache_grid=True)
                    if p in table:
                        ctx.same(X, table[p], "request does not return the stored grid", f"({n}, {p}) in {seq}")
                    else:
                        valid_rot(ctx, X, (n,), p, f"({n}, {p}) in {seq}")
                    table.setdefault(p, to_np(X).copy())
                    X.add_(1.0)
                    for q, v in table.items():
                        ctx.same(m.load_grid(n, "so3", q), v, "stored grid changed", f"({n}, {q}) after {p} in {seq}")
                        ctx.same(so3.uniform_grid(n, q, steps=0, show_pbar=False), v, "request does not return the stored grid", f"({n}, {q}) after {p} in {seq}")
                        ctx.trans()
                    ctx.state()
                ctx.trace()
                restore(snap)
            if ctx.nfail > 30:
                return
    finally:
        restore(snap)


def cases(tier):
    d = 4 if tier == "thorough" else 3
    out = [Case(f"first:{op}", histories, first=op, depth=d) for op in OPS]
    top = 1024 if tier == "thorough" else 256
    out += [Case(f"sizes:{k}", sizes, lo=k, hi=k + 16) for k in range(1, top, 16)]
    return out + [Case("whole table", whole_table)]
