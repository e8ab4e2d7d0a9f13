"""C13: all node subsets up to a size, one-hot signals, lattice and generic queries, all orders, every mode;
oracle: float64 interpolants on exact angles."""
import importlib, itertools, math
import numpy as np
import ref, lib
from core import Case, to_np
from c07 import tensor, icosahedral_ref
from lib import BY_NAME, TAU


class SO2:
    name = "SO2"
    g = BY_NAME["SE2"]
    pool = np.arange(8)[:, None] * TAU / 8
    queries = np.concatenate((np.arange(24)[:, None] * TAU / 24, [[0.1], [-1.3], [4.7], [8.0]]))

    def sample(self, q, s, n, mode, width, form=None):
        from gconv.geometry import so2
        return so2.grid_sample(q, s, n, mode=mode, width=width)


def rots():
    L = np.stack([m.astype(float) for m in ref.ROT3_INT])
    G = lib.rand_rot(6, np.random.default_rng(131))
    return np.concatenate((L, G, L[3:4] @ ref.rx(0.2), np.eye(3)[None] @ ref.rot3((1, 2, 3), 1e-2)))


class SO3:
    name = "SO3"
    g = BY_NAME["SE3"]
    pool = np.stack([m.astype(float) for m in ref.ROT3_INT])
    queries = rots()

    def sample(self, q, s, n, mode, width, form="mm"):
        from gconv.geometry import so3
        conv = {"m": lambda x: x, "q": so3.matrix_to_quat, "n": lambda x: -so3.matrix_to_quat(x)}
        return so3.grid_sample(conv[form[0]](q), s, conv[form[1]](n), mode=mode, width=width)


SETS = {"SO2": SO2, "SO3": SO3}


def model(g, Q, N, mode, width):
    """(queries, nodes) weights; nearest: distance matrix."""
    D = g.dist(Q, N)
    if mode == "nearest":
        return D
    return ref.interp_rbf(D, g.dist(N, N), np.eye(len(N)), width)


def closest(ctx, got, D, S, msg, margin=2e-3):
    """Every row of got is the signal of a node within the margin of the closest."""
    got = to_np(got)
    for k in range(len(D)):
        ok = np.where(D[k] <= D[k].min() + margin)[0]
        if not any(np.array_equal(got[k], S[i]) for i in ok):
            ctx.fail("not the value of a closest node", f"{msg} query {k}: {got[k]}, closest {ok.tolist()}")
    ctx.trans(len(D))


def subsets(ctx, kind, subs, dt, widths):
    o = SETS[kind]()
    g = o.g
    Q = o.queries
    tol = 3e-4 if dt == "float32" else 1e-5
    forms = ("mm", "qq", "mq", "qn", "nm", "nn") if kind == "SO3" else (None,)
    tq = tensor(Q, dt)
    for sub in subs:
        N = o.pool[list(sub)]
        n = len(N)
        # one-hot channels plus a generic and a constant one
        S = np.concatenate((np.eye(n), ctx.rng.normal(size=(n, 1)), np.ones((n, 1))), 1)
        tn, ts = tensor(N, dt), tensor(S, dt)
        S = to_np(ts)
        for mode in ("nearest", "rbf"):
            for width in widths if mode == "rbf" else (0.5,):
                W = model(g, Q, N, mode, width)
                first = None
                for form in forms:
                    what = f"nodes {sub} {mode} width={width} form={form}"
                    y = o.sample(tq, ts, tn, mode, width, form)
                    ctx.state()
                    if not ctx.check(tuple(y.shape) == (len(Q), S.shape[1]), "shape", f"{what}: {tuple(y.shape)}"):
                        continue
                    at = o.sample(tn, ts, tn, mode, width, form)
                    if mode == "nearest":
                        closest(ctx, y, W, S, what)
                        ctx.same(at, S, "nodes do not return their value", what)
                    else:
                        ctx.close(y, W @ S, "not the Gaussian interpolant", tol, what)
                        ctx.close(at, S, "nodes do not return their value", tol, what)
        ctx.trace()
    ctx.sample({"subsets": len(subs), "queries": len(Q)})


def symmetry(ctx, kind, dt):
    """Orders of nodes and queries, left multiplication, channels, several signal dtypes."""
    o = SETS[kind]()
    g = o.g
    rng = np.random.default_rng(132)
    N = np.concatenate((o.pool[[1, 4, 6]], g.rand(1, rng)))
    Q = np.concatenate((o.queries[::5], g.rand(3, rng)))
    S = ctx.rng.normal(size=(4, 3))
    tol = 3e-4 if dt == "float32" else 1e-5
    t = lambda x: tensor(x, dt)
    for mode in ("nearest", "rbf"):
        base = to_np(o.sample(t(Q), t(S), t(N), mode, 0.6, "mm"))
        D = g.dist(Q, N)
        srt = np.sort(D, 1)
        clear = srt[:, 1] - srt[:, 0] > 2e-3 if mode == "nearest" else np.ones(len(Q), bool)
        for p in itertools.permutations(range(4)):
            p = list(p)
            y = o.sample(t(Q), t(S[p]), t(N[p]), mode, 0.6, "mm")
            ctx.close(to_np(y)[clear], base[clear], "depends on the order of the nodes", tol, f"{mode} {p}")
            ctx.state()
        for p in list(itertools.permutations(range(3))) + [tuple(range(len(Q)))[::-1], (0,), (2, 2, 1)]:
            p = list(p)
            ctx.close(o.sample(t(Q[p]), t(S), t(N), mode, 0.6, "mm"), base[p], "depends on the order of the queries", tol, f"{mode} {p}")
            ctx.state()
        ctx.close(o.sample(t(Q[:0]), t(S), t(N), mode, 0.6, "mm"), base[:0], "no queries", tol)
        for h in np.concatenate((o.pool, g.rand(4, rng))):
            y = o.sample(t(g.mul(h, Q)), t(S), t(g.mul(h, N)), mode, 0.6, "mm")
            ctx.close(to_np(y)[clear], base[clear], "changes under left multiplication", tol * 2, f"{mode} by {h.ravel()[:3]}")
            ctx.state()
        for k in range(3):
            ctx.close(o.sample(t(Q), t(S[:, k:k + 1]), t(N), mode, 0.6, "mm"), base[:, k:k + 1], "channels mix", tol)
        y2 = to_np(o.sample(t(Q), t(2.5 * S - 1.0), t(N), mode, 0.6, "mm"))
        one = to_np(o.sample(t(Q), t(np.ones((4, 1))), t(N), mode, 0.6, "mm"))
        ctx.close(y2, 2.5 * base - one, "not linear", tol * 3, mode)
        ctx.trace()
    for bad in ("bilinear", "", "NEAREST", "gauss", "bcc", None):
        ctx.raises(lambda: o.sample(t(Q), t(S), t(N), bad, 0.6, "mm"), "unknown mode accepted", repr(bad))
    # default arguments
    mod = importlib.import_module("gconv.geometry.groups." + kind.lower())
    ctx.close(mod.grid_sample(t(Q), t(S), t(N)), o.sample(t(Q), t(S), t(N), "rbf", 0.5, "mm"), "default mode and width", 1e-12)


class IMP:
    """O2 / O3 from the point of view of their proper part."""

    def __init__(self, kind):
        self.kind = kind
        self.part = {"O2": SO2, "O3": SO3}[kind]()
        self.g = BY_NAME["E2" if kind == "O2" else "E3"]

    def join(self, c, R):
        c = np.asarray(c, float)
        return np.concatenate((c[:, None], R), 1) if self.kind == "O2" else self.g.join(c, R)

    def sample(self, q, s, n, size, mode, wr, wi):
        m = importlib.import_module("gconv.geometry.groups." + self.kind.lower())
        return m.grid_sample(q, s, n, size, mode=mode, rotation_width=wr, reflection_width=wi)


def cosets(ctx, kind, dt):
    o = IMP(kind)
    P = o.part.pool
    Q0 = o.part.queries
    rng = np.random.default_rng(133)
    tol = 3e-4 if dt == "float32" else 1e-5
    t = lambda x: tensor(x, dt)
    splits = [(a, b) for a in range(0, 4) for b in range(0, 4) if a + b]
    patterns = [[1.0] * len(Q0), [-1.0] * len(Q0), [1.0 if i % 2 else -1.0 for i in range(len(Q0))], [-1.0 if i < 5 else 1.0 for i in range(len(Q0))]]
    for a, b in splits:
        step = 2 if kind == "O2" else 5
        N = o.join([1.0] * a + [-1.0] * b, np.concatenate((P[[step * i % len(P) for i in range(a)]], P[[(1 + step * i) % len(P) for i in range(b)]])))
        S = np.concatenate((np.eye(a + b), rng.normal(size=(a + b, 2))), 1)
        tn, ts = t(N), t(S)
        Sf = to_np(ts)
        for signs, (mode, wr, wi) in itertools.product(patterns, (("nearest", .5, .5), ("rbf", .5, .5), ("rbf", .4, .8))):
            Q = o.join(signs, Q0)
            y = to_np(o.sample(t(Q), ts, tn, (a, b), mode, wr, wi))
            what = f"sizes {(a, b)} {mode} widths {wr} {wi} signs {signs[:3]}"
            ctx.state(); ctx.trace()
            if not ctx.check(y.shape == (len(Q), S.shape[1]), "shape", f"{what}: {y.shape}"):
                continue
            sg = np.array(signs)
            for s, lo, hi, w in ((1, 0, a, wr), (-1, a, a + b, wi)):
                k = sg == s
                if not k.any():
                    continue
                if lo == hi:
                    ctx.close(y[k], np.zeros((k.sum(), S.shape[1])), "empty coset is not zero", 1e-9, what)
                    continue
                W = model(o.part.g, Q0[k], part(o, N[lo:hi]), mode, w)
                if mode == "nearest":
                    closest(ctx, y[k], W, Sf[lo:hi], what)
                else:
                    ctx.close(y[k], W @ Sf[lo:hi], "not the interpolant over its own coset", tol, what)
        # at the nodes, and reordering queries across cosets
        for mode in ("nearest", "rbf"):
            ctx.close(o.sample(tn, ts, tn, (a, b), mode, .5, .5), Sf, "nodes do not return their value", tol, f"{(a, b)} {mode}")
            for p in itertools.permutations(range(min(a + b, 4))):
                p = list(p)
                ctx.close(o.sample(tn[p], ts, tn, (a, b), mode, .5, .5), Sf[p], "depends on the order of the queries", tol, f"{(a, b)} {mode} {p}")
                ctx.state()
            # left multiplication by proper and improper elements: the cosets change places
            for h in np.concatenate((o.g.closed()[::3], o.g.rand(2, rng))):
                if o.g.elem_det(h) < 0:
                    hn = np.concatenate((o.g.mul(h, N[a:]), o.g.mul(h, N[:a])))
                    hs, size = np.concatenate((S[a:], S[:a])), (b, a)
                else:
                    hn, hs, size = o.g.mul(h, N), S, (a, b)
                Q = o.join(patterns[2][:6], Q0[1:7])
                D = o.g.dist(Q, N)
                srt = np.sort(np.where(np.isfinite(D), D, 9), 1)
                clear = srt[:, 1] - srt[:, 0] > 2e-3 if mode == "nearest" and a + b > 1 else np.ones(len(Q), bool)
                y0 = to_np(o.sample(t(Q), ts, tn, (a, b), mode, .5, .5))
                y1 = to_np(o.sample(t(o.g.mul(h, Q)), t(hs), t(hn), size, mode, .5, .5))
                ctx.close(y1[clear], y0[clear], "changes under left multiplication", tol * 2, f"{(a, b)} {mode} by {h[:2]}")
                ctx.state()
    N = o.join([1.0, 1.0, -1.0], P[[0, 2, 3]])
    for bad in ("bilinear", "", "gauss", None):
        ctx.raises(lambda: o.sample(t(N), t(np.eye(3)), t(N), (2, 1), bad, .5, .5), "unknown mode accepted", repr(bad))


def part(o, N):
    return N[:, 1:] if o.kind == "O2" else o.g.split(N)[1]


def primitives(ctx, dt):
    """interpolate_RBF / NN / BCC themselves: batches, several channels, barycentric weights."""
    import torch
    from gconv.geometry import interpolation as I

    s2 = importlib.import_module("gconv.geometry.groups.s2")
    tol = 3e-4 if dt == "float32" else 1e-5
    t = lambda x: tensor(x, dt)
    x = np.linspace(-4, 4, 33)
    for w in (0.2, 0.5, 1.0, 2.7):
        ctx.close(I.RBF_gauss(t(x), w), np.exp(-x ** 2 * math.log(2) / w ** 2), "Gaussian", 1e-6, f"width {w}")
        ctx.close(I.RBF_gauss(t([w, -w, 0.0]), w), [.5, .5, 1.0], "half height at the width", 1e-6)
    phi = (1 + 5 ** .5) / 2
    ico = np.array([p for a, b in itertools.product((1, -1), (phi, -phi)) for p in ((0, a, b), (a, b, 0), (b, 0, a))], float)
    octa = np.concatenate((np.eye(3), -np.eye(3)))
    cube = np.array(list(itertools.product((1.0, -1.0), repeat=3)))
    rng = np.random.default_rng(134)
    gen = np.concatenate((rng.normal(size=(40, 3)), [v for v in itertools.product((0, 1, -1), repeat=3) if any(v)]))
    unit = lambda v: v / np.linalg.norm(v, axis=-1, keepdims=True)
    ang = lambda a, b: np.arctan2(np.linalg.norm(np.cross(a[:, None], b[None]), axis=-1), a @ b.T)
    dist = lambda a, b: s2.geodesic_distance_s2(a, b)
    for name, N in (("icosahedron", unit(ico)), ("octahedron", octa), ("tetrahedron", unit(cube[[0, 3, 5, 6]]))):
        Q = np.concatenate((unit(gen), N))
        n = len(N)
        S = np.concatenate((np.eye(n), rng.normal(size=(n, 2))), 1)
        Sf = to_np(t(S))
        D = ang(Q, N)
        y = I.interpolate_NN(t(Q)[None], t(N)[None], t(S)[None], dist_fn=dist)
        if ctx.check(tuple(y.shape) == (1, len(Q), n + 2), "shape", f"NN {tuple(y.shape)}"):
            closest(ctx, y[0], D, Sf, f"NN {name}")
        y = I.interpolate_RBF(t(Q)[None], t(N)[None], t(S)[None], dist_fn=dist, width=0.7)
        if ctx.check(tuple(y.shape) == (1, len(Q), n + 2), "shape", f"RBF {tuple(y.shape)}"):
            ctx.close(y[0], ref.interp_rbf(D, ang(N, N), S, 0.7), "not the Gaussian interpolant", tol, name)
        # own radial function
        y = I.interpolate_RBF(t(Q)[None], t(N)[None], t(S)[None], dist_fn=dist, rbf=lambda d, w: torch.exp(-d * w), width=1.5)
        ctx.close(y[0], np.exp(-D * 1.5) @ np.linalg.solve(np.exp(-ang(N, N) * 1.5), S), "given radial function", 5e-3, name)
        y = to_np(I.interpolate_BCC(t(Q)[None], t(N)[None], t(S)[None], dist_fn=dist))[0]
        if ctx.check(y.shape == (len(Q), n + 2) and np.isfinite(y).all(), "barycentric result", f"{name}: {y.shape}"):
            W = y[:, :n]  # weights from the one-hot channels
            ctx.check(W.min() > -1e-6, "barycentric weights negative", f"{name}: {W.min()}")
            ctx.close(W.sum(1), np.ones(len(Q)), "barycentric weights do not sum to one", 1e-5, name)
            ctx.check(((W > 1e-6).sum(1) <= 3).all(), "more than three nodes", name)
            used = np.where(W > 1e-4, D, 0).max(1)
            third = np.sort(D, 1)[:, 2]
            ctx.check((used <= third + 2e-3).all(), "not the nearest three nodes", name)
            ctx.close(y, W @ Sf, "barycentric channels", 1e-4, name)
            ctx.close(y[-n:], Sf, "nodes do not return their value", 2e-3, f"BCC {name}")
            # inside the triangle of its three nodes the point is reproduced in direction
            for k in range(len(gen)):
                i3 = np.argsort(D[k])[:3]
                if np.sort(D[k])[3] - D[k][i3[2]] < 2e-3:
                    continue
                b = np.linalg.solve(N[i3].T, Q[k])
                if b.min() > 1e-6:
                    w = np.zeros(n)
                    w[i3] = b / b.sum()
                    ctx.close(W[k], w, "barycentric coordinates", 1e-3, f"{name} query {Q[k]}")
                    ctx.state()
        # batches: every order of two different problems
        for order in itertools.product((0, 1), repeat=2):
            Ns = [N, N[::-1]]
            Ss = [S, 2 * S[::-1]]
            Qs = [Q, Q[::-1]]
            st = lambda L: t(np.stack([L[i] for i in order]))
            for f, kw in ((I.interpolate_NN, {}), (I.interpolate_RBF, dict(width=.7)), (I.interpolate_BCC, {})):
                y = to_np(f(st(Qs), st(Ns), st(Ss), dist_fn=dist, **kw))
                for b, i in enumerate(order):
                    alone = to_np(f(t(Qs[i])[None], t(Ns[i])[None], t(Ss[i])[None], dist_fn=dist, **kw))[0]
                    ctx.close(y[b], alone, "depends on the other problems of the batch", 1e-5, f"{f.__name__} {order}")
                ctx.state()
        ctx.trace()
    # irregular meshes: queries inside and outside the triangle of their nearest nodes, and beyond all nodes
    lat = unit(np.array([v for v in itertools.product((-2, -1, 0, 1, 2), repeat=3) if math.gcd(*v) == 1], float))
    for m, seed, cap in itertools.product((3, 4, 5, 7, 12, 30), range(6), (-1.0, 0.3, 0.8)):
        r = np.random.default_rng([135, m, seed])
        N = r.normal(size=(m, 3)) + np.array([0, 0, 6.0 * (cap + 1) ** 2])
        N = unit(N)
        Q = np.concatenate((lat, N))
        D = ang(Q, N)
        y = to_np(I.interpolate_BCC(t(Q)[None], t(N)[None], t(np.eye(m))[None], dist_fn=dist))[0]
        what = f"irregular mesh {m} {seed} {cap}"
        ctx.state(len(Q))
        if not ctx.check(y.shape == (len(Q), m) and np.isfinite(y).all(), "barycentric result", f"{what}: {Q[~np.isfinite(y).all(1)][:1]}"):
            continue
        ctx.check(y.min() >= 0, "barycentric weights negative", f"{what}: {y.min()}")
        ctx.close(y.sum(1), np.ones(len(Q)), "barycentric weights do not sum to one", 1e-5, what)
        ctx.check(((y > 0).sum(1) <= 3).all(), "more than three nodes", what)
        ctx.check((np.where(y > 1e-4, D, 0).max(1) <= np.sort(D, 1)[:, 2] + 2e-3).all(), "not the nearest three nodes", what)
        gap = np.abs(D[-m:] + 10 * np.eye(m)).min(1) > 0.05
        ctx.close(y[-m:][gap], np.eye(m)[gap], "nodes do not return their value", 2e-3, "BCC " + what)
        for k in range(len(lat)):
            i3 = np.argsort(D[k])[:3]
            d = np.sort(D[k])
            if m > 3 and d[3] - d[2] < 3e-3 or abs(np.linalg.det(N[i3])) < 0.02 or d[0] < 5e-3:
                continue
            b = np.linalg.solve(N[i3].T, Q[k])
            b = np.maximum(b, 0)
            if b.sum() > 0.05:
                w = np.zeros(m)
                w[i3] = b / b.sum()
                ctx.close(y[k], w, "barycentric coordinates", 2e-2 if dt == "float32" else 1e-6, f"{what} query {Q[k]}")
    # meshes whose nearest three nodes span no triangle (a great circle, a pole with its neighbours on one circle)
    chord = lambda a, b: 2 * torch.asin(((a - b).norm(dim=-1) / 2).clamp(max=1))
    rots_ = ref.rot3((1, 2, 3), 0.7), ref.rx(1.1), np.eye(3)
    for m in range(3, 9):
        for gaps in ((1.0,), (0.05, 1.0), (0.01, 0.02, 1.5)):
            a = np.cumsum([gaps[i % len(gaps)] for i in range(m)])
            a = a * min(1.0, 6.0 / a[-1])
            circ = np.stack((np.cos(a), np.sin(a), 0 * a), -1)
            for R in rots_:
                N = circ @ R.T
                S = np.concatenate((np.eye(m), rng.normal(size=(m, 2))), 1)
                for p in (list(range(m)), list(range(m))[::-1], [0], [m - 1, 0]):
                    y = to_np(I.interpolate_BCC(t(N[p])[None], t(N)[None], t(S)[None], dist_fn=chord))[0]
                    ctx.close(y, S[p], "nodes do not return their value", 1e-5, f"BCC great circle of {m} gaps {gaps} nodes {p}")
                    y = to_np(I.interpolate_NN(t(N[p])[None], t(N)[None], t(S)[None], dist_fn=chord))[0]
                    ctx.close(y, S[p], "nodes do not return their value", 1e-5, f"NN great circle of {m} gaps {gaps} nodes {p}")
                    ctx.state()
    ctx.trace()


# queries, nodes, channels; more than 12 nodes only for the nearest mode (conditioning)
LARGE = [(1, 3, 2), (65, 4, 3), (130, 6, 1), (257, 5, 9), (1030, 4, 2), (4100, 3, 1), (9, 6, 65), (7, 5, 257), (3, 6, 1030), (1, 1, 130),
         (66, 66, 3), (9, 130, 2), (300, 257, 2), (40, 300, 66)]


def large(ctx, kind, dt, sub):
    """Sizes far from the small ones."""
    q, n, c = sub
    rng = np.random.default_rng(135)
    tol = 1e-3 if dt == "float32" else 1e-5
    t = lambda x: tensor(x, dt)
    o = SETS[kind]() if kind in SETS else IMP(kind)
    base = o.g if kind in SETS else o.part.g
    Q0 = base.rand(q, rng)
    if n <= 12:  # well separated
        pool = base.rand(40, rng) if kind.endswith("3") else base.uniform(7)
        keep = [0]
        while len(keep) < n:
            D = base.dist(pool, pool[keep]).min(1)
            keep.append(int(D.argmax()))
        P = pool[keep]
    else:
        P = base.rand(n, rng)
    S = rng.normal(size=(n, c))
    ts = t(S)
    Sf = to_np(ts)
    for mode, width in (("nearest", .5), ("rbf", .5), ("rbf", .35)):
        if mode == "rbf" and n > 12:
            continue
        if kind in SETS:
            for form in ("mm", "qq", "mq") if kind == "SO3" else (None,):
                y = o.sample(t(Q0), ts, t(P), mode, width, form)
                ctx.state()
                W = model(base, Q0, P, mode, width)
                if ctx.check(tuple(y.shape) == (q, c), "shape", f"{sub} {mode} {form} {tuple(y.shape)}"):
                    if mode == "nearest":
                        closest(ctx, y, W, Sf, f"{sub} {form}")
                    else:
                        ctx.close(y, W @ S, "not the Gaussian interpolant", tol, f"{sub} {form}")
                        ctx.close(o.sample(t(P), ts, t(P), mode, width, form), Sf, "nodes do not return their value", tol, f"{sub} {form}")
            continue
        for a in {n, (n + 1) // 2, n // 3, 0}:
            b = n - a
            N = o.join([1.0] * a + [-1.0] * b, P)
            for signs in ([1.0] * q, [-1.0] * q, np.where(np.arange(q) % 3 == 1, -1.0, 1.0)):
                y = to_np(o.sample(t(o.join(signs, Q0)), ts, t(N), (a, b), mode, width, width + .1))
                ctx.state()
                if not ctx.check(y.shape == (q, c), "shape", f"{sub} {(a, b)} {mode} {y.shape}"):
                    continue
                for s, sl, w in ((1, slice(0, a), width), (-1, slice(a, n), width + .1)):
                    k = np.asarray(signs) == s
                    if not k.any():
                        continue
                    what = f"{sub} {(a, b)} sign {s}"
                    if not len(P[sl]):
                        ctx.close(y[k], np.zeros((k.sum(), c)), "empty coset is not zero", 1e-9, what)
                    elif mode == "nearest":
                        closest(ctx, y[k], model(base, Q0[k], P[sl], mode, w), Sf[sl], what)
                    else:
                        ctx.close(y[k], model(base, Q0[k], P[sl], mode, w) @ S[sl], "not the interpolant over its own coset", tol, what)
    ctx.trace()


def spread(base, n, rng):
    """Well separated elements: each the farthest from those before it."""
    pool = base.rand(6 * n, rng)
    keep, D = [0], base.dist(pool, pool[[0]])[:, 0]
    while len(keep) < n:
        keep.append(int(D.argmax()))
        D = np.minimum(D, base.dist(pool, pool[keep[-1:]])[:, 0])
    return pool[keep]


DENSE = (13, 17, 24, 33, 48, 60, 65, 100, 130, 257)


def dense(ctx, kind, dt, n):
    """Many nodes with the width that the layers choose, which keeps the interpolation well conditioned."""
    rng = np.random.default_rng(136)
    t = lambda x: tensor(x, dt)
    o = SETS[kind]() if kind in SETS else IMP(kind)
    base = o.g if kind in SETS else o.part.g
    at_tol, tol = (3e-5, 5e-4 if n <= 100 else 5e-3) if dt == "float32" else (1e-9, 1e-4)

    def nodes(m, shift):
        P = base.uniform(m) + shift if kind.endswith("2") else spread(base, m, rng)
        P = P[rng.permutation(m)]
        return P, 0.8 * np.sort(base.dist(P, P), 1)[:, 1].mean()
    Q = base.rand(11, rng)
    if kind in SETS:
        P, w = nodes(n, 0.1)
        for c in (1, 3, 70):
            S = rng.normal(size=(n, c))
            S[:, 0] = 1
            ts = t(S)
            for form in ("mm", "qq") if kind == "SO3" else (None,):
                ctx.close(o.sample(t(P), ts, t(P), "rbf", w, form), ts, "nodes do not return their value", at_tol, f"n={n} {form}")
                ctx.close(o.sample(t(Q), ts, t(P), "rbf", w, form), model(base, Q, P, "rbf", w) @ S, "not the Gaussian interpolant", tol, f"n={n} {form}")
                ctx.state()
    else:
        for a in {n - 2, n // 2, 2}:
            (P, w), (P2, w2) = nodes(a, 0.1), nodes(n - a, 0.3)
            S = rng.normal(size=(n, 3))
            ts = t(S)
            N = o.join([1.0] * a + [-1.0] * (n - a), np.concatenate((P, P2)))
            at = o.sample(t(N), ts, t(N), (a, n - a), "rbf", w, w2)
            ctx.close(at, ts, "nodes do not return their value", at_tol, f"n={n} {a}")
            signs = np.where(np.arange(len(Q)) % 3 == 1, -1.0, 1.0)
            y = to_np(o.sample(t(o.join(signs, Q)), ts, t(N), (a, n - a), "rbf", w, w2))
            for s, nod, ww, sl in ((1, P, w, slice(0, a)), (-1, P2, w2, slice(a, n))):
                ctx.close(y[signs == s], model(base, Q[signs == s], nod, "rbf", ww) @ S[sl], "not the interpolant over its own coset", tol, f"n={n} {a} sign {s}")
            ctx.state()
    ctx.trace()


def cases(tier):
    th = tier == "thorough"
    out = []
    for dt in ("float32", "float64"):
        for kind, o in SETS.items():
            n = len(o.pool)
            allsub = [s for k in range(1, (5 if th else 4) if kind == "SO2" else (4 if th else 3)) for s in itertools.combinations(range(n), k)]
            if kind == "SO3":
                allsub += [s for s in itertools.combinations((0, 4, 9, 13, 22), 4)] + [tuple(range(24))]
                if not th:
                    allsub = [s for s in allsub if len(s) != 2 or s[0] in (0, 7, 13)]
            else:
                allsub += [tuple(range(8)), (0, 2, 4, 6), (1, 2, 3, 4, 5)]
            allsub = list(dict.fromkeys(allsub))
            for i in range(0, len(allsub), 40):
                out.append(Case(f"{kind}:{dt}:subsets{i}", subsets, kind=kind, subs=allsub[i:i + 40], dt=dt, widths=(0.3, 0.5, 0.65)))
            out.append(Case(f"{kind}:{dt}:symmetry", symmetry, kind=kind, dt=dt))
        for kind in ("O2", "O3"):
            out.append(Case(f"{kind}:{dt}:cosets", cosets, kind=kind, dt=dt))
        for kind, sub in itertools.product(("SO2", "SO3", "O2", "O3"), LARGE):
            out.append(Case(f"large:{kind}:{dt}:{sub}", large, kind=kind, dt=dt, sub=sub))
        for kind, n in itertools.product(("SO2", "SO3", "O2", "O3"), DENSE):
            out.append(Case(f"dense:{kind}:{dt}:{n}", dense, kind=kind, dt=dt, n=n))
        out.append(Case(f"primitives:{dt}", primitives, dt=dt))
    return out
