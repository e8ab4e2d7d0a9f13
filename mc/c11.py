"""C11: every grid generator for every size, subgroup split and parameterisation of the bound, under every
answer of the random generator's menu; oracle: validity, spacing and separation predicates."""
import importlib, itertools, math
import numpy as np
import ref
from core import Case, to_np
from c09 import euler_mats
from rng import Answers, UNIFORM, NORMAL

TAU = 2 * math.pi
TABLE = 24
TOL = 1e-3  # the built-in grids have four digits


def rot_of(param, X):
    return {"quat": ref.quat_mat, "matrix": lambda m: m, "euler": euler_mats}[param](X)


TAIL = {"quat": (4,), "matrix": (3, 3), "euler": (3,)}


def valid_rot(ctx, X, lead, param, what, tol=TOL, ranged=True):
    """Elements of the parameterisation; returns their matrices."""
    X = to_np(X)
    if not ctx.check(X.shape == (*lead, *TAIL[param]), "number or layout of elements", f"{what}: {X.shape}"):
        return None
    if X.size == 0:
        return np.zeros((*lead, 3, 3))
    if not ctx.check(np.isfinite(X).all(), "not finite", what):
        return None
    if param == "quat":
        ctx.check(np.abs(np.linalg.norm(X, axis=-1) - 1).max() < tol, "not unit quaternions", what)
    elif param == "matrix":
        ctx.check(np.abs(X @ np.swapaxes(X, -1, -2) - np.eye(3)).max() < tol, "not orthonormal", what)
        ctx.check((np.abs(np.linalg.det(X) - 1) < tol).all(), "not proper rotations", what)
    elif ranged:  # (the sphere's Euler angles may leave their domain, as the module documents)
        ctx.check(np.abs(X).max() <= math.pi + 1e-4, "angles out of range", what)
    return rot_of(param, X)


def ideal(n):
    """Separation (half angle) a packing of density 0.7 would have."""
    lo, hi = 0.0, math.pi
    for _ in range(60):
        m = (lo + hi) / 2
        lo, hi = (m, hi) if n * (m - math.sin(m)) / math.pi < 0.7 else (lo, m)
    return lo


def separated(ctx, R, what, frac=0.45):
    n = len(R)
    if n < 2:
        return
    D = ref.rot_angle(np.swapaxes(R, -1, -2)[:, None] @ R[None]) / 2 + 9 * np.eye(n)
    ctx.check(D.min() > frac * ideal(n), "elements not well separated", f"{what}: {D.min():.3g}, ideal {ideal(n):.3g}")


def circle(ctx, lo, hi):
    import torch
    from gconv.geometry import so2, o2

    for n in range(lo, hi):
        for dev in (None, "cpu"):
            X = to_np(so2.uniform_grid(n, device=dev))
            ctx.check(X.shape == (n, 1), "number or layout of elements", f"n={n}: {X.shape}")
            ctx.close(X, np.arange(n)[:, None] * TAU / max(n, 1), "not equally spaced from zero", 1e-6, f"n={n}")
        ctx.check(n == 0 or (X.min() >= 0 and X.max() < TAU), "angles out of range", f"n={n}")
        ctx.state()
    for a, b in itertools.product(range(lo, min(hi, 26)), range(0, 26)):
        X = to_np(o2.uniform_grid((a, b)))
        if ctx.check(X.shape == (a + b, 2), "number or layout of elements", f"{(a, b)}: {X.shape}"):
            ctx.same(X[:, 0], [1.0] * a + [-1.0] * b, "proper elements first", f"{(a, b)}")
            ctx.close(X[:, 1], np.concatenate((np.arange(a) * TAU / max(a, 1), np.arange(b) * TAU / max(b, 1))), "not equally spaced from zero", 1e-6, f"{(a, b)}")
        ctx.state()
    ctx.trace()


NORMAL3 = ([1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 2.0], [0.0, 0.0, -1.0], [-1.0, 0.0, 0.0], [1e-3, 2e-3, -1e-3], [4.0, 4.0, -4.0])


def answers(seeds, normal=NORMAL):
    """Draws of whole vectors; the zero vector (probability 0) is not an answer."""
    for u, n in itertools.product(UNIFORM, normal):
        yield Answers(u, n), f"uniform {u} normal {n}"
    # mixed answers: one list running through the whole menu
    yield Answers([x for u in UNIFORM for x in u], [x for n in normal for x in n]), "mixed"
    for s in range(seeds):
        yield s, f"seed {s}"


def drawn(a, f):
    import torch

    if isinstance(a, int):
        torch.manual_seed(a)
        return f()
    with a:
        return f()


def random_planar(ctx):
    from gconv.geometry import so2, o2

    for a, what in answers(24):
        for n in range(0, 9):
            X = to_np(drawn(a, lambda: so2.random_grid(n)))
            ctx.check(X.shape == (n, 1), "number or layout of elements", f"{what}, n={n}: {X.shape}")
            ctx.check(n == 0 or (X.min() >= 0 and X.max() < TAU + 1e-6), "angles out of range", f"{what}, n={n}")
            X = to_np(drawn(a, lambda: o2.random_grid(n)))
            ctx.check(X.shape == (n, 2), "number or layout of elements", f"O2 {what}, n={n}: {X.shape}")
            ctx.check((np.abs(X[:, 0]) == 1).all(), "signs not +-1", f"{what}, n={n}")
            ctx.check(n == 0 or (X[:, 1].min() >= 0 and X[:, 1].max() < TAU + 1e-6), "angles out of range", f"O2 {what}, n={n}")
            ctx.state(2)
        ctx.trace()
    # a thousand draws reach every part of the group
    X = to_np(drawn(1, lambda: so2.random_grid(1000)))
    ctx.check(len(set((X[:, 0] // (TAU / 8)).astype(int))) == 8, "random grid misses part of the group", "SO2")
    X = to_np(drawn(1, lambda: o2.random_grid(1000)))
    ctx.check(len(set(zip(X[:, 0], (X[:, 1] // (TAU / 8)).astype(int)))) == 16, "random grid misses part of the group", "O2")


def cells(R):
    """Nearest of the 24 lattice rotations."""
    L = np.stack([m.astype(float) for m in ref.ROT3_INT])
    return np.einsum("nij,mij->nm", R, L).argmax(1)


def random_space(ctx):
    import torch
    from gconv.geometry import so3, o3

    shapes = [0, 1, 2, 5, (0,), (1,), (3,), (2, 3), (2, 1, 3), torch.Size((0,)), torch.Size((2, 3))]
    for a, what in answers(12):
        for s in shapes:
            lead = s if isinstance(s, tuple) else (s,)
            for p, f in (("quat", so3.random_quat), ("matrix", so3.random_matrix), ("euler", so3.random_euler)):
                X = drawn(a, lambda: f(s))
                valid_rot(ctx, X, lead, p, f"random_{p}({s}) {what}", 2e-5)
            X = to_np(drawn(a, lambda: o3.random_grid(s)))
            if ctx.check(X.shape == (*lead, 10), "number or layout of elements", f"O3 random_grid({s}) {what}: {X.shape}"):
                ctx.check((np.abs(X[..., 0]) == 1).all(), "signs not +-1", f"{what} {s}")
                valid_rot(ctx, X[..., 1:].reshape(*lead, 3, 3), lead, "matrix", f"O3 {s} {what}", 2e-5)
            ctx.state(4)
        ctx.trace()
    for p, f in (("quat", so3.random_quat), ("matrix", so3.random_matrix), ("euler", so3.random_euler)):
        R = rot_of(p, to_np(drawn(2, lambda: f(4000))))
        ctx.check(len(set(cells(R))) == 24, "random grid misses part of the group", p)
    X = to_np(drawn(2, lambda: o3.random_grid(4000)))
    ctx.check(len(set(zip(X[:, 0], cells(X[:, 1:].reshape(-1, 3, 3))))) == 48, "random grid misses part of the group", "O3")


def table(ctx):
    """Every size of the built-in table in every parameterisation and spelling."""
    from gconv.geometry import so3

    for n in range(1, TABLE + 1):
        R = {}
        for p in ("quat", "matrix"):
            for spelling in (p, p.upper(), p.capitalize()):
                X = so3.uniform_grid(n, spelling, show_pbar=False)
                R[p] = valid_rot(ctx, X, (n,), p, f"n={n} {spelling}")
                if R[p] is None:
                    return
                separated(ctx, R[p], f"n={n} {spelling}")
                ctx.state()
        ctx.close(R["quat"], R["matrix"], "parameterisations describe different grids", TOL, f"n={n}")
        ctx.same(so3.uniform_grid(n), so3.uniform_grid(n, "quat"), "default parameterisation", f"n={n}")
        ctx.trace()


def rejected(ctx):
    from gconv.geometry import so3

    s2 = importlib.import_module("gconv.geometry.groups.s2")
    for n in (0, 1, 2, 4, 24, 25, 26):
        for p in ("", "quaternion", "mat", "eul", "so3", "angle", "quat ", "matrices", "axis"):
            ctx.raises(lambda: so3.uniform_grid(n, p, steps=1, show_pbar=False), "unsupported parameterisation accepted", f"n={n} {p!r}")
            ctx.state()
    for p in ("", "quaternion", "sphere"):
        ctx.raises(lambda: s2.uniform_grid_s2(3, p, steps=1, show_pbar=False), "unsupported parameterisation accepted", f"S2 {p!r}")
    ctx.trace()


def space(ctx, n, seeds, steps):
    """Generated (or tabulated) SO(3) grids: every parameterisation, every answer."""
    from gconv.geometry import so3

    for p in ("quat", "matrix", "euler"):
        for s in range(seeds):
            X = drawn(s, lambda: so3.uniform_grid(n, p, show_pbar=False) if steps is None else so3.uniform_grid(n, p, steps=steps, show_pbar=False))
            ctx.check(not X.requires_grad, "grid requires grad", f"n={n} {p}")
            R = valid_rot(ctx, X, (n,), p, f"n={n} {p} seed {s}")
            if R is not None and steps is None:
                separated(ctx, R, f"n={n} {p} seed {s}")
            ctx.state(); ctx.trace()


def space_answers(ctx, n):
    """Degenerate answers (all draws equal, aligned, tiny): the grid is still valid."""
    from gconv.geometry import so3

    for a, what in answers(0):
        for p in ("quat", "matrix", "euler"):
            for steps in (0, 1, 3):
                X = drawn(a, lambda: so3.uniform_grid(n, p, steps=steps, show_pbar=False))
                valid_rot(ctx, X, (n,), p, f"n={n} {p} steps={steps} {what}")
                ctx.state()
        ctx.trace()


def o3_grids(ctx, lo, hi):
    from gconv.geometry import o3, so3

    S = {n: to_np(so3.uniform_grid(n, "matrix", show_pbar=False)) for n in range(0, TABLE + 1)}
    for a, b in itertools.product(range(lo, hi), range(0, TABLE + 1)):
        X = to_np(o3.uniform_grid((a, b)))
        if ctx.check(X.shape == (a + b, 10), "number or layout of elements", f"{(a, b)}: {X.shape}"):
            ctx.same(X[:, 0], [1.0] * a + [-1.0] * b, "proper elements first", f"{(a, b)}")
            R = X[:, 1:].reshape(-1, 3, 3)
            valid_rot(ctx, R, (a + b,), "matrix", f"O3 {(a, b)}")
            ctx.same(R[:a], S[a], "rotations are a uniform grid", f"{(a, b)}")
            ctx.same(R[a:], S[b], "reflections are a uniform grid", f"{(a, b)}")
        M = to_np(o3.uniform_grid((a, b), matrix_only=True))
        if ctx.check(M.shape == (a + b, 3, 3), "matrix_only layout", f"{(a, b)}: {M.shape}"):
            ctx.same(M, X[:, 1:].reshape(-1, 3, 3), "matrix_only", f"{(a, b)}")
        ctx.state(2)
    ctx.trace()


def sphere(ctx, n):
    s2 = importlib.import_module("gconv.geometry.groups.s2")
    from gconv.geometry import so3

    for neg in (False, True):
        for p in ("spherical", "euclidean", "euler", "matrix", "quat", "Euclidean"):
            for s in range(2):
                X = drawn(s, lambda: s2.uniform_grid_s2(n, p, set_alpha_as_neg_gamma=neg, show_pbar=False))
                P = to_np(X)
                what = f"n={n} {p} neg={neg} seed {s}"
                q = p.lower()
                tail = {"spherical": (2,), "euclidean": (3,)}.get(q) or TAIL[q]
                if not ctx.check(P.shape == (n, *tail) and np.isfinite(P).all(), "number or layout of elements", f"{what}: {P.shape}"):
                    continue
                if q == "spherical":
                    V = np.stack((np.sin(P[:, 0]) * np.cos(P[:, 1]), np.sin(P[:, 0]) * np.sin(P[:, 1]), np.cos(P[:, 0])), -1)
                elif q == "euclidean":
                    V = P
                else:
                    R = valid_rot(ctx, X, (n,), q, what, ranged=False)
                    V = R[:, :, 2]
                    if neg:  # no twist: the axis lies in the x-y plane
                        ctx.check(np.abs(R[:, 1, 0] - R[:, 0, 1]).max() < 1e-4, "alpha is not minus gamma", what)
                    else:  # alpha = 0: the x axis stays in the plane of z and the point, R_zy(alpha = 0) = 0
                        ctx.check(np.abs(R[:, 2, 1]).max() < 1e-4, "alpha is not zero", what)
                ctx.check(np.abs(np.linalg.norm(V, axis=1) - 1).max() < 1e-4, "not on the sphere", what)
                if n > 1:
                    D = np.arccos(np.clip(V @ V.T, -1, 1)) + 9 * np.eye(n)
                    ctx.check(D.min() > 0.6 * math.sqrt(4 * math.pi / n), "elements not well separated", f"{what}: {D.min():.3g}")
                ctx.state(); ctx.trace()


def random_sphere(ctx):
    s2 = importlib.import_module("gconv.geometry.groups.s2")

    for a, what in answers(12, NORMAL3):
        for s in ((), (0,), (1,), (4,), (2, 3)):
            X = to_np(drawn(a, lambda: s2.random_s2(s)))
            if ctx.check(X.shape == (*s, 2), "number or layout of elements", f"{s}: {X.shape}") and X.size:
                ctx.check(np.isfinite(X).all() and X[..., 0].min() >= 0 and X[..., 0].max() <= math.pi + 1e-6 and np.abs(X[..., 1]).max() <= math.pi + 1e-6, "angles out of range", f"{what}: {X}")
            ctx.state()
        ctx.trace()
    X = to_np(drawn(3, lambda: s2.random_s2((2000,))))
    ctx.check(len(set(zip(np.floor(np.cos(X[:, 0]) * 2).astype(int), np.floor(X[:, 1]).astype(int)))) >= 24, "random grid misses part of the sphere", "")


def cases(tier):
    th = tier == "thorough"
    out = []
    for lo in range(0, 257 if th else 65, 16):
        out.append(Case(f"circle:{lo}", circle, lo=lo, hi=lo + 16))
    out += [Case("random:planar", random_planar), Case("random:space", random_space), Case("random:sphere", random_sphere),
            Case("table", table), Case("rejected", rejected)]
    for lo in range(0, TABLE + 1, 4):
        out.append(Case(f"O3:{lo}", o3_grids, lo=lo, hi=min(lo + 4, TABLE + 1)))
    for n in range(0, 41 if th else 31):
        # sizes inside the table are generated only as Euler angles
        if th or n <= 6 or n in (8, 12, 16, 24, 25, 26, 27, 30):
            out.append(Case(f"SO3:{n}:uniform", space, n=n, seeds=(8 if th else 2) if n else 1, steps=None))
        out.append(Case(f"SO3:{n}:steps", space, n=n, seeds=2, steps=0 if n % 2 else 2))
    for n in (1, 2, 3, 5, 25, 26):
        out.append(Case(f"SO3:{n}:answers", space_answers, n=n))
    for n in range(1, 25 if th else 10):
        out.append(Case(f"S2:{n}", sphere, n=n))
    return out
