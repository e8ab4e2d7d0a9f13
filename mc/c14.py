"""C14: all pairs and triples of a finite set of elements against exact angles; nearest neighbours of all
subsets; sampled group weights of every kernel/layer over all reference grids and widths against the
Gaussian interpolant of width 0.8 x mean nearest-neighbour distance."""
import importlib, itertools, math
import numpy as np
import ref, lib
from core import Case, to_np
from c07 import tensor
from lib import BY_NAME, TAU, T

DT = ("float32", "float64")


def angle_set(th):
    n = 24 if th else 16
    return np.concatenate((np.arange(n) * TAU / n, [0.01, 1.0, -1.0, TAU, -TAU, 2.5 * TAU, -3.3, 9.9, math.pi - 0.02, math.pi + 0.02]))[:, None]


def so2_pairs(ctx, dt):
    from gconv.geometry import so2
    A = angle_set(ctx.thorough)
    g = BY_NAME["SE2"]
    t = lambda x: tensor(x, dt)
    tol = 2e-3 if dt == "float32" else 1e-5
    D = so2.geodesic_distance(t(A)[:, None], t(A)[None])
    W = g.dist(A, A)
    ctx.state(len(A) ** 2)
    ctx.close(D, W, "not the angle between the rotations", tol)
    ctx.close(D, to_np(D).T, "not symmetric", 1e-6)
    ctx.check(((to_np(D) < 2 * tol) == (W < 2 * tol)).all(), "zero for different rotations")
    E = so2.angle_to_euclid(t(A))
    for eps in (None, 1e-6):
        kw = {} if eps is None else {"eps": eps}
        ctx.close(so2.geodesic_distance_euclid(E[:, None], E[None], **kw), W, "Euclidean form differs", 2e-3)
    Dn = to_np(D)
    ctx.check((Dn[:, None, :] <= Dn[:, :, None] + Dn[None] + 3 * tol).all(), "triangle inequality")
    ctx.state(len(A) ** 3)
    for h in A:
        Ah = so2.left_apply_angle(t(h)[None], t(A))
        ctx.close(so2.geodesic_distance(Ah[:, None], Ah[None]), W, "changes under multiplication", tol, f"{h}")
        ctx.state(); ctx.trace()
    for i in range(len(A)):  # element-wise calls and shapes
        for j in range(0, len(A), 3):
            d = so2.geodesic_distance(t(A[i]), t(A[j]))
            ctx.check(tuple(d.shape) == (), "shape")
            ctx.close(d, W[i, j], "depends on batching", tol)
            ctx.state()
    for s1, s2 in (((2, 3), (2, 3)), ((2, 1), (1, 3)), ((3,), (2, 3)), ((1,), (4,)), ((0,), (1,))):
        a, b = A[np.arange(int(np.prod(s1))) % len(A)].reshape(*s1, 1), A[3 + np.arange(int(np.prod(s2))) % 9].reshape(*s2, 1)
        d = np.abs(a - b)[..., 0] % TAU
        ctx.close(so2.geodesic_distance(t(a), t(b)), np.minimum(d, TAU - d), "broadcasting", tol, f"{s1} {s2}")


def rot_set():
    """quaternions and matrices: rotation group of the cube, generic, nearly equal and nearly opposite."""
    g = BY_NAME["SE3"]
    qs = [ref.axis_angle_quat((0, 0, 1), 0)]
    for ax, ang in itertools.product(((1, 0, 0), (0, 1, 0), (0, 0, 1), (1, 1, 0), (1, -1, 1)), (math.pi / 2, math.pi, -math.pi / 2, 2 * math.pi / 3)):
        qs.append(ref.axis_angle_quat(ax, ang))
    rng = np.random.default_rng(141)
    for q in rng.normal(size=(6, 4)):
        qs.append(q / np.linalg.norm(q))
    qs += [ref.axis_angle_quat((1, 2, 3), 0.05), ref.axis_angle_quat((1, 2, 3), math.pi - 0.05), ref.axis_angle_quat((-1, 0, 2), math.pi)]
    return np.stack(qs)


def so3_pairs(ctx, dt):
    from gconv.geometry import so3
    Q = rot_set()
    M = ref.quat_mat(Q)
    t = lambda x: tensor(x, dt)
    tol = 2e-3
    W = BY_NAME["SE3"].dist(M, M)
    n = len(Q)
    for s1, s2 in itertools.product((1, -1), repeat=2):
        D = so3.geodesic_distance(t(s1 * Q)[:, None], t(s2 * Q)[None])
        ctx.close(D, W, "not half the rotation angle between", tol, f"signs {s1} {s2}")
        ctx.close(D, to_np(D).T, "not symmetric", 1e-6)
        ctx.check(((to_np(D) < 5e-3) == (W < 5e-3)).all(), "zero for different rotations")
        ctx.state(n * n)
    Dn = to_np(D)
    ctx.check((Dn[:, None, :] <= Dn[:, :, None] + Dn[None] + 3 * tol).all(), "triangle inequality")
    for h in Q:
        for L in (True, False):
            P = np.stack([ref.quat_mul(h, q) if L else ref.quat_mul(q, h) for q in Q])
            ctx.close(so3.geodesic_distance(t(P)[:, None], t(P)[None]), W, "changes under multiplication", tol, f"{'left' if L else 'right'} {h}")
            ctx.state(); ctx.trace()
    for i, j in itertools.product(range(n), repeat=2):
        d = so3.geodesic_distance(t(Q[i]), t(Q[j]))
        ctx.check(tuple(d.shape) == (), "shape")
        ctx.close(d, W[i, j], "depends on batching", tol)
    for s1, s2 in (((2, 3), (2, 3)), ((2, 1), (1, 3)), ((3,), (2, 3)), ((1,), (4,)), ((0,), (1,))):
        i, j = np.arange(int(np.prod(s1))).reshape(s1) % n, (5 + np.arange(int(np.prod(s2)))).reshape(s2) % n
        ctx.close(so3.geodesic_distance(t(Q[i]), t(Q[j])), W[i, j], "broadcasting", tol, f"{s1} {s2}")


def s2_pairs(ctx, dt):
    s2 = importlib.import_module("gconv.geometry.groups.s2")
    V = [v for v in itertools.product((0, 1, -1), repeat=3) if any(v)] + [(1, 2, 3), (-3, .1, .2), (0.02, 0, 1), (0.02, 0, -1)]
    V = np.array(V, float)
    V /= np.linalg.norm(V, axis=-1, keepdims=True)
    W = np.arctan2(np.linalg.norm(np.cross(V[:, None], V[None]), axis=-1), V @ V.T)
    t = lambda x: tensor(x, dt)
    ctx.close(s2.geodesic_distance_s2(t(V)[:, None], t(V)[None]), W, "not the angle between the points", 2e-3)
    ctx.state(len(V) ** 2)
    for R in np.concatenate((np.stack([m.astype(float) for m in ref.ROT3_INT]), lib.rand_rot(5, np.random.default_rng(142)))):
        P = V @ R.T
        ctx.close(s2.geodesic_distance_s2(t(P)[:, None], t(P)[None]), W, "changes under rotation", 2e-3)
        ctx.state(); ctx.trace()
    for i, j in itertools.product(range(len(V)), repeat=2):
        ctx.close(s2.geodesic_distance_s2(t(V[i]), t(V[j])), W[i, j], "depends on batching", 2e-3)


def nn_ref(g, G):
    D = g.dist(G, G)
    n = len(G)
    if n < 2:
        return np.full(n, np.inf)
    return np.where(np.eye(n, dtype=bool), np.inf, D).min(1)


def neighbours(ctx, kind, dt):
    """Every subset up to a size, whole grids, repeated elements, orders."""
    so = importlib.import_module("gconv.geometry.groups." + kind.lower())
    g = BY_NAME["SE2" if kind == "SO2" else "SE3"]
    t = lambda x: tensor(x, dt)
    rng = np.random.default_rng(143)
    if kind == "SO2":
        pool = np.concatenate((np.arange(6)[:, None] * TAU / 6, [[0.3], [-0.4], [9.0]]))
        big = [g.uniform(n) for n in range(2, 33)] + [g.rand(n, rng) for n in (5, 12, 40)]
        forms = [lambda x: x]
    else:
        pool = np.concatenate((ref.quat_mat(rot_set()[[0, 1, 2, 5, 9, 13]]), g.rand(3, rng)))
        big = [g.closed(), g.closed()[:12]] + [g.rand(n, rng) for n in (5, 12, 40)]
        from gconv.geometry import so3
        forms = [lambda x: x, so3.matrix_to_quat, lambda x: -so3.matrix_to_quat(x), lambda x: so3.matrix_to_quat(x) * (1 - 2 * (t(np.arange(len(x))) % 2))[:, None]]
    sets = [pool[list(s)] for k in range(1, 6 if ctx.thorough else 4) for s in itertools.combinations(range(len(pool)), k)]
    sets += [pool[list(s)] for s in itertools.permutations((0, 2, 4, 7))] + [pool[[0, 0]], pool[[1, 4, 1]], pool[[8, 8, 8]]] + big
    for G in sets:
        W = nn_ref(g, G)
        for k, f in enumerate(forms):
            d = so.nearest_neighbour_distance(f(t(G)))
            ctx.state()
            if len(G) < 2:
                ctx.check(d.numel() == len(G) and not (to_np(d) < 1e3).any(), "a single element has a neighbour", str(d))
            else:
                ctx.close(d.reshape(-1), W, "not the distance to the nearest other element", 3e-3, f"{len(G)} elements, form {k}")
        ctx.trace()


# ------------------------------------------------------------------ widths


KERNELS = [("sep", n) for n in BY_NAME] + [("conv", n) for n in BY_NAME] + [("sub", "SE3")]


def build(kind, g, i, o, size, grid, via, **w):
    kw = dict(w)
    if grid is not None:
        kw["grid_H"] = grid
    if kind == "sub":
        from gconv.gnn import kernels
        kw = {k.replace("group_sampling", "sampling"): v for k, v in kw.items()}
        return kernels.GSubgroupKernelSO3(i, o, size, **kw).double()
    if via == "kernel":
        return g.kernel(kind, i, o, 1, group_kernel_size=size, **kw).double()
    return g.layer(kind, i, o, 1, group_kernel_size=size, **kw).double().kernel


def sampled(kernel, kind, Hi, Ho):
    """(out, outH, in, inH) group weights."""
    w = kernel(T(Hi), T(Ho))
    w = w[0] if kind == "sep" else w
    return to_np(w).reshape(w.shape[:4])


def stored(kernel, kind, n, rng, i, o):
    import torch
    S = rng.normal(size=(n, o, i))
    with torch.no_grad():
        p = kernel.weight_H if kind == "sep" else kernel.weight
        p.copy_(T(S).reshape(p.shape))
        if kind == "sep":
            kernel.weight.fill_(1.0)
    return S


def expected(g, G, S, Hi, Ho, size, widths):
    """Gaussian interpolant at out^-1 in, each coset on its own."""
    rel = np.concatenate([g.mul(h, Hi) for h in g.inv(Ho)])
    n = len(G)
    V = S.reshape(n, -1)
    out = np.zeros((len(rel), V.shape[1]))
    parts = [(slice(0, n), np.ones(len(rel), bool), widths[0])]
    if g.improper:
        parts = [(slice(0, size[0]), rel[:, 0] > 0, widths[0]), (slice(size[0], n), rel[:, 0] < 0, widths[1])]
    for sl, q, w in parts:
        N = G[sl]
        if not len(N):
            continue
        if w is None:
            w = 0.8 * nn_ref(g, N).mean()
        D, M = g.dist(rel[q], N), g.dist(N, N)
        if np.isinf(w):
            out[q] = V[sl].mean(0)
        else:
            B = ref.rbf_matrix(M, w)
            if np.linalg.cond(B) > 300:
                return None  # single-precision grids cannot resolve it
            out[q] = ref.rbf_matrix(D, w) @ np.linalg.solve(B, V[sl])
    o, i = S.shape[1:]
    return out.reshape(len(Ho), len(Hi), o, i).transpose(2, 0, 3, 1)


def widths(ctx, kind, group, via, sizes, given):
    g = BY_NAME[group]
    rng = np.random.default_rng(144)
    Hi, Ho = g.rand(9, rng), g.rand(6, rng)
    if g.improper:
        Ho = np.concatenate((Ho, g.rand(1, rng)))
    names = ["group_rotation_sampling_width", "group_reflection_sampling_width"] if g.improper else ["group_sampling_width"]
    for size in sizes:
        for src in ("default", "given"):
            if src == "given":
                if g.improper:
                    pool = g.rand(4 * sum(size) + 4, rng)
                    G = np.concatenate((pool[pool[:, 0] > 0][:size[0]], pool[pool[:, 0] < 0][:size[1]]))
                else:
                    G = g.rand(size, rng)
                grid = T(G).float()
            else:
                grid = None
            for gw in given:
                gw = gw[:len(names)]
                kw = {n: w for n, w in zip(names, gw) if w is not None}
                i, o = 1, 3  # which stored entry drives which connection is C05's business
                k = build(kind, g, i, o, size, grid, via, **kw)
                G = to_np(k.grid_H)
                if group == "SE3" and G.shape[-1] == 4:
                    G = ref.quat_mat(G)
                S = stored(k, kind, len(G), rng, i, o)
                want = expected(g, G, S, Hi, Ho, size, gw)
                got = sampled(k, kind, Hi, Ho)
                if want is None:
                    ctx.check(np.isfinite(got).all() or min(w or 9 for w in gw) < 9, "weights not finite", f"{kind} {group} {size} {src} {gw}")
                    continue
                ctx.state(); ctx.trace()
                tol = 1e-2
                sc = np.abs(S).max()
                cond = max(1.0, np.abs(want).max() / sc)
                ctx.close(got / cond, want / cond, "weights are not the interpolant of the right width", tol,
                          f"{kind} {group} via {via} size {size} {src} grid, given widths {gw}")
                ctx.outcome((group, size, gw))
                # neither vanishing nor exploding between the elements of a default grid
                if src == "default" and all(w is None for w in gw):
                    import torch
                    with torch.no_grad():
                        p = k.weight_H if kind == "sep" else k.weight
                        p.fill_(1.0)
                    y = sampled(k, kind, Hi, Ho)
                    if g.improper:
                        rel = np.concatenate([g.mul(h, Hi) for h in g.inv(Ho)])[:, 0].reshape(len(Ho), len(Hi))
                        y = np.moveaxis(y, 2, 1)
                        use = np.array([[size[0] > 0 if r > 0 else size[1] > 0 for r in row] for row in rel])
                        y = y[..., use]
                    ctx.check(np.isfinite(y).all() and (y > 0.02).all() and (y < 3).all(), "constant weights vanish or explode between the elements",
                              f"{kind} {group} size {size}: {y.min():.3g} .. {y.max():.3g}")


def large(ctx, kind, dt):
    """All pairs and nearest neighbours of sizes far from the small ones, any order."""
    so = importlib.import_module("gconv.geometry.groups." + kind.lower())
    t = lambda x: tensor(x, dt)
    rng = np.random.default_rng(145)
    tol = 3e-3
    if kind == "S2":
        unit = lambda v: v / np.linalg.norm(v, axis=-1, keepdims=True)
        draw = lambda n: unit(rng.normal(size=(n, 3)))
        dist = lambda a, b: np.arctan2(np.linalg.norm(np.cross(a[:, None], b[None]), axis=-1), a @ b.T)
        form, f = (lambda x: t(x)), so.geodesic_distance_s2
    else:
        g = BY_NAME["SE2" if kind == "SO2" else "SE3"]
        draw, dist = (lambda n: g.rand(n, rng)), g.dist
        form = (lambda x: t(x)) if kind == "SO2" else (lambda x: so.matrix_to_quat(t(x)))
        f = so.geodesic_distance
    for a, b in ((1, 66), (66, 1), (65, 70), (130, 129), (3, 1030), (1030, 3), (257, 258)):
        A, B = draw(a), draw(b)
        W = dist(A, B)
        ctx.close(f(form(A)[:, None], form(B)[None]), W, "all pairs", tol, f"{a} x {b}")
        ctx.state(a * b)
        m = max(a, b)
        A2, B2 = A[np.arange(m) % a], B[np.arange(m) % b]
        ctx.close(f(form(A2), form(B2)), W[np.arange(m) % a, np.arange(m) % b], "element by element", tol, f"{m}")
    ctx.trace()
    if kind == "S2":
        return
    for n in (33, 63, 64, 65, 66, 100, 128, 129, 130, 256, 257, 300, 513, 700, 1030):
        G = draw(n)
        ctx.close(so.nearest_neighbour_distance(form(G)).reshape(-1), nn_ref(g, G), "not the distance to the nearest other element", tol, f"{n} elements")
        if kind == "SO3":
            ctx.close(so.nearest_neighbour_distance(t(G)).reshape(-1), nn_ref(g, G), "not the distance to the nearest other element", tol, f"{n} matrices")
        if kind == "SO2":
            G = g.uniform(n)[::-1].copy()
            ctx.close(so.nearest_neighbour_distance(form(G)).reshape(-1), nn_ref(g, G), "not the distance to the nearest other element", tol, f"{n} uniform elements")
        ctx.state(); ctx.trace()


def cases(tier):
    th = tier == "thorough"
    out = []
    for dt in DT:
        out += [Case(f"{n}:{dt}", f, dt=dt) for n, f in (("SO2", so2_pairs), ("SO3", so3_pairs), ("S2", s2_pairs))]
        out += [Case(f"large:{k}:{dt}", large, kind=k, dt=dt) for k in ("SO2", "SO3", "S2")]
        out += [Case(f"neighbours:{k}:{dt}", neighbours, kind=k, dt=dt) for k in ("SO2", "SO3")]
    for (kind, group), via in itertools.product(KERNELS, ("kernel", "layer")):
        if kind == "sub" and via == "layer":
            continue
        g = BY_NAME[group]
        if g.improper:
            top = 8 if th else 5
            sizes = [(a, b) for a in range(0, top) for b in range(0, top) if a + b] + ([(24, 24), (12, 5), (24, 3), (0, 24), (20, 0)] if group == "E3" else [(16, 16), (9, 2), (65, 33), (1, 66)])
            given = [(None, None), (0.4, None), (None, 0.7), (0.3, 0.6)]
        else:
            sizes = list(range(1, 25)) + ([32, 64, 65, 100, 130] if group == "SE2" else [])
            given = [(None,), (0.3,), (0.9,)]
        if not th and via == "layer":
            sizes = sizes[::3]
        per = 12
        for a in range(0, len(sizes), per):
            out.append(Case(f"width:{kind}:{group}:{via}:{a}", widths, kind=kind, group=group, via=via, sizes=sizes[a:a + per], given=given))
    return out
