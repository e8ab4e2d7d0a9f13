"""C09: every chain of conversions up to a length, from every element of an angle lattice that contains the
degenerate configurations; after every step the rotation is compared with the one started from."""
import itertools, math
import numpy as np
import ref
from core import Case, to_np
from c07 import tensor, icosahedral_ref

PI = math.pi
EDGES = {"quat": ("matrix", "euler"), "matrix": ("quat", "euler"), "euler": ("quat", "matrix")}
TAIL = {"quat": (4,), "matrix": (3, 3), "euler": (3,), "log": (3,), "qlog": (4,)}


def fns():
    from gconv.geometry import so3

    return {("quat", "matrix"): so3.quat_to_matrix, ("quat", "euler"): so3.quat_to_euler,
            ("matrix", "quat"): so3.matrix_to_quat, ("matrix", "euler"): lambda r: so3.matrix_to_euler(r),
            ("euler", "quat"): so3.euler_to_quat, ("euler", "matrix"): so3.euler_to_matrix,
            ("matrix", "log"): so3.so3_log, ("quat", "qlog"): so3.quaternion_log}


def to_mat(form, x):
    if form == "quat":
        return ref.quat_mat(x)
    if form == "matrix":
        return x
    if form == "euler":
        return euler_mats(x)
    if form == "log":
        return ref.expm_so3(x)
    s, v = x[..., 0], x[..., 1:]
    t = np.linalg.norm(v, axis=-1)
    q = np.concatenate((np.cos(t)[..., None], np.sinc(t / PI)[..., None] * v), -1)
    return ref.quat_mat(q)


def euler_mats(e):
    a, b, g = np.moveaxis(e, -1, 0)
    z = lambda t: np.stack((np.stack((np.cos(t), -np.sin(t), 0 * t), -1), np.stack((np.sin(t), np.cos(t), 0 * t), -1), np.stack((0 * t, 0 * t, 1 + 0 * t), -1)), -2)
    y = lambda t: np.stack((np.stack((np.cos(t), 0 * t, np.sin(t)), -1), np.stack((0 * t, 1 + 0 * t, 0 * t), -1), np.stack((-np.sin(t), 0 * t, np.cos(t)), -1)), -2)
    return z(g) @ y(b) @ z(a)


TINY = (1e-2, 1e-3, 1e-4, 1e-5, 1e-6, 1e-7)


def start_euler(th):
    step = PI / 6 if th else PI / 4
    az = np.arange(-round(PI / step), round(PI / step) + 1) * step
    be = np.concatenate((np.arange(-round(PI / step), round(PI / step) + 1) * step, [s * t for t in TINY for s in (1, -1)], [PI - t for t in TINY]))
    out = [np.stack(np.meshgrid(az, be, az, indexing="ij"), -1).reshape(-1, 3)]
    sp = np.array([0.3, -1.7, 2.9, 1e-4, PI - 1e-4])
    out.append(np.stack(np.meshgrid(sp, be, sp, indexing="ij"), -1).reshape(-1, 3))
    return np.concatenate(out)


def start_quat(th):
    r = math.sqrt(0.5)
    Q = [q for q in itertools.product((0.5, -0.5), repeat=4)] + [s * e for e in np.eye(4) for s in (1, -1)]
    for i, j in itertools.combinations(range(4), 2):
        for a, b in itertools.product((r, -r), repeat=2):
            q = np.zeros(4)
            q[i], q[j] = a, b
            Q.append(q)
    I = icosahedral_ref()
    Q += list(I) + list(-I)
    axes = [v for v in itertools.product((0, 1, -1), repeat=3) if any(v)] + [(1, 2, 3), (-0.2, 1, 0.1), (1, 1e-3, 0), (1e-4, 0, 1)]
    for v in axes:
        for t in [t for s in TINY for t in (s, PI - s, -s, PI + s)] + [PI, PI / 3, 1.0, 2 * PI / 3, 3.0]:
            Q.append(ref.axis_angle_quat(v, t))
    rng = np.random.default_rng(91)
    g = rng.normal(size=(400 if th else 100, 4))
    return np.concatenate((np.stack(Q), g / np.linalg.norm(g, axis=1, keepdims=True)))


def starts(form, th):
    if form == "euler":
        return start_euler(th)
    q = start_quat(th)
    if form == "quat":
        return q
    M = ref.quat_mat(q)
    ex = np.stack([m.astype(float) for m in ref.ROT3_INT])
    return np.concatenate((ex, M))


def err(form, got, want):
    """Distance of matrices; not finite counts as infinite."""
    M = to_mat(form, got)
    e = np.abs(M - want).reshape(len(want), -1).max(1)
    return np.where(np.isfinite(e), e, np.inf)


def chains(ctx, first, dt, length):
    F = fns()
    X = starts(first, ctx.thorough)
    x0 = tensor(X, dt)
    want = to_mat(first, to_np(x0))
    tol = 3e-5 if dt == "float32" else 2e-5  # near gimbal lock the third angle is dropped below 1e-5
    ctx.state(len(X))
    stack = [((first,), x0)]
    while stack:
        path, x = stack.pop()
        for nxt in EDGES[path[-1]] + {"matrix": ("log",), "quat": ("qlog",), "euler": ()}[path[-1]]:
            keep = x.clone()
            y = F[path[-1], nxt](x)
            p = path + (nxt,)
            name = "->".join(p)
            ctx.same(x, keep, "input changed", name)
            Y = to_np(y)
            if not ctx.check(Y.shape == (len(X), *TAIL[nxt]), "shape", f"{name}: {Y.shape}"):
                continue
            # quaternion_log takes acos of the real part: accurate to the square root of the precision
            t = (3e-3 if dt == "float32" else 2e-4) if nxt == "qlog" else tol * len(p)
            e = err(nxt, Y, want)
            i = int(e.argmax())
            ctx.trans(len(X)); ctx.state(len(X)); ctx.trace(len(X))
            if not e[i] <= t:
                ctx.fail(f"{path[-1]}->{nxt} changes the rotation", f"{name}: from {X[i].tolist()} off by {e[i]:.3g}: {Y[i].tolist()}")
            if nxt == "quat":
                ctx.check(np.abs(np.linalg.norm(Y, axis=1) - 1).max() < 1e-5, "not a unit quaternion", name)
            if nxt == "log":
                ctx.check(np.linalg.norm(Y, axis=1).max() < PI + 1e-3, "logarithm longer than pi", name)
            if nxt in EDGES and len(p) <= length:
                stack.append((p, y))
    ctx.sample({"start": first, "elements": len(X), "length": length})


def batching(ctx, dt):
    """Every conversion: alone, with every other kind of rotation, in every leading shape and layout."""
    import torch

    F = fns()
    kinds = {
        "identity": [1, 0, 0, 0], "minus identity": [-1.0, 0, 0, 0], "half x": [0, 1, 0, 0], "half y": [0, 0, 1, 0], "half z": [0, 0, 0, 1],
        "half xy": [0, .6, .8, 0], "quarter z": [math.sqrt(.5), 0, 0, math.sqrt(.5)], "quarter y": [math.sqrt(.5), 0, math.sqrt(.5), 0],
        "third": [.5, .5, -.5, .5], "generic": [.1, -.7, .5, .5], "w big": [.9, .1, .3, .3], "z big": [.1, .2, -.1, .97], "near": [1, 1e-3, 0, 0]}
    Q = np.array([np.array(v) / np.linalg.norm(v) for v in kinds.values()])
    E = to_np(F["matrix", "euler"](tensor(ref.quat_mat(Q), "float64")))
    src = {"quat": Q, "matrix": ref.quat_mat(Q), "euler": E}
    tol = 1e-6 if dt == "float32" else 1e-12
    for (a, b), f in F.items():
        x = tensor(src[a], dt)
        alone = np.stack([to_np(f(x[i:i + 1]))[0] for i in range(len(x))])
        n = len(x)
        for i, j in itertools.product(range(n), repeat=2):
            ctx.close(f(x[[i, j]]), alone[[i, j]], f"{a}->{b} depends on the batch", tol, f"{list(kinds)[i]} with {list(kinds)[j]}")
            ctx.state()
        ctx.close(f(x), alone, f"{a}->{b} depends on the batch", tol, "all")
        ctx.close(f(x.flip(0)), alone[::-1], f"{a}->{b} depends on the batch", tol, "reversed")
        # batches of one kind only: every sign of every component, every kind alone in number, every degenerate kind
        many = np.concatenate((start_quat(False), Q))
        ms = {"quat": many, "matrix": ref.quat_mat(many)}.get(a)
        if ms is None:
            ms = to_np(F["matrix", "euler"](tensor(ref.quat_mat(many), "float64")))
        xm = tensor(ms, dt)
        one = np.stack([to_np(f(xm[i:i + 1]))[0] for i in range(len(xm))])
        near = lambda v: np.abs(v) < 1e-6
        tests = {f"{op} {k}": o(many[:, k]) for k in range(4) for op, o in (("positive", lambda v: v > 0), ("negative", lambda v: v < 0), ("zero", near), ("not zero", lambda v: ~near(v)))}
        tests |= {"half turns": near(many[:, 0]), "gimbal": near(np.hypot(many[:, 1], many[:, 2])) | near(np.hypot(many[:, 0], many[:, 3])), "real": np.abs(many[:, 0]) > 1 - 1e-6}
        tests["ordinary"] = ~tests["half turns"] & ~tests["gimbal"] & ~tests["real"]
        sel = [(k, v) for k, v in tests.items() if v.any()]
        for (k1, v1), (k2, v2) in itertools.product(sel, repeat=2):
            i = np.flatnonzero(v1 & v2)
            if len(i):
                ctx.close(f(xm[i]), one[i], f"{a}->{b} depends on the batch", tol, f"only {k1}, {k2}")
                ctx.state(len(i))
        shapes = [(1,), (0,), (n,), (2,)] if b == "qlog" else [(), (1,), (0,), (n,), (2, 3), (3, 2, 2), (1, 1), (2, 0)]
        for s in shapes:
            k = int(np.prod(s))
            y = x[:k].reshape(*s, *x.shape[1:])
            w = alone[:k].reshape(*s, *alone.shape[1:])
            views = [("plain", y)]
            if y.ndim > 1 and k:
                views.append(("permuted", y.permute(*reversed(range(y.ndim))).contiguous().permute(*reversed(range(y.ndim)))))
                views.append(("sliced", torch.cat((y, y + 1), -1)[..., :y.shape[-1]]))
                views.append(("strided", torch.stack((y, y + 1), 0).transpose(0, 1).contiguous().transpose(0, 1)[0]))
            for what, v in views:
                ctx.close(f(v), w, f"{a}->{b} on leading shape", tol, f"{s} {what}")
                ctx.state()
        for s in ((65,), (130,), (257,), (1030,), (4100,), (65, 66), (3, 1030), (1030, 3), (9, 10, 11)):
            if len(s) > 1 and b == "qlog":
                continue
            idx = np.random.default_rng(92).integers(0, n, s)
            ctx.close(f(x[torch.as_tensor(idx)]), alone[idx], f"{a}->{b} on leading shape", tol, f"{s}")
            ctx.state(idx.size)
    ctx.trace()


def consistency(ctx, dt):
    """Conventions agree with each other and with the action on space."""
    from gconv.geometry import so3

    tol = 1e-5 if dt == "float32" else 1e-11
    T = np.concatenate((np.arange(-24, 25) * PI / 12, [1e-3, PI - 1e-3]))
    z = np.zeros_like(T)
    X, Y, Z = (to_np(f(tensor(T, dt))) for f in (so3.matrix_x, so3.matrix_y, so3.matrix_z))
    c, s = np.cos(T / 2), np.sin(T / 2)
    for M, i, name in ((X, 1, "x"), (Y, 2, "y"), (Z, 3, "z")):
        q = np.zeros((len(T), 4))
        q[:, 0], q[:, i] = c, s
        ctx.close(so3.quat_to_matrix(tensor(q, dt)), M, "quaternion axis convention", tol, name)
        back = to_np(so3.matrix_to_quat(tensor(M, dt)))
        ctx.close(np.abs((back * q).sum(1)), np.ones(len(T)), "matrix to quaternion axis convention", tol, name)
        log = to_np(so3.so3_log(tensor(M, dt)))
        t = (T + PI) % (2 * PI) - PI
        half = np.abs(np.abs(t) - PI) < 1e-2
        want = np.zeros((len(T), 3))
        want[:, i - 1] = t
        ctx.close(log[~half], want[~half], "logarithm axis convention", 10 * tol, name)
        ctx.close(np.abs(log), np.abs(want), "logarithm axis convention", 1e-3 if dt == "float32" else 1e-8, name)
        ctx.state(len(T))
    eul = lambda a, b, g: so3.euler_to_matrix(tensor(np.stack((a, b, g), -1), dt))
    ctx.close(eul(T, z, z), Z, "alpha turns about z", 3e-6)
    ctx.close(eul(z, T, z), Y, "beta turns about y", 3e-6)
    ctx.close(eul(z, z, T), Z, "gamma turns about z", 3e-6)
    # extrinsic: alpha first
    for a, b, g in itertools.product((0.4, -2.0), (0.7, 2.5), (1.1, -0.3)):
        M = to_np(so3.left_apply_matrix(so3.matrix_z(tensor(g, dt)), so3.left_apply_matrix(so3.matrix_y(tensor(b, dt)), so3.matrix_z(tensor(a, dt)))))
        ctx.close(so3.euler_to_matrix(tensor([a, b, g], dt)), M, "order of the Euler angles", 3e-6)
        ctx.state()
    # the logarithm of the inverse is the negative; angle = geodesic distance to the identity
    Q = start_quat(False)
    M = ref.quat_mat(Q)
    tm = tensor(M, dt)
    L = to_np(so3.so3_log(tm))
    ang = ref.rot_angle(to_np(tm))
    ctx.close(np.linalg.norm(L, axis=1), ang, "length of the logarithm", 1e-3 if dt == "float32" else 1e-7)
    safe = ang < 3.1
    ctx.close(to_np(so3.so3_log(so3.matrix_inverse(tm)))[safe], -L[safe], "logarithm of the inverse", 1e-4 if dt == "float32" else 1e-9)
    # q and -q
    tq = tensor(Q, dt)
    ctx.close(so3.quat_to_matrix(-tq), so3.quat_to_matrix(tq), "q and -q", 1e-12)
    # logarithm of quaternions: the norm is kept, exp(log q) = q
    for s in (1.0, 0.1, 3.7):
        x = tensor(Q * s, dt)
        l = to_np(so3.quaternion_log(x))
        ctx.check(np.isfinite(l).all(), "quaternion log not finite", f"scale {s}: {Q[~np.isfinite(l).all(1)][:2]}")
        t = np.linalg.norm(l[:, 1:], axis=1)
        e = np.exp(l[:, :1]) * np.concatenate((np.cos(t)[:, None], np.sinc(t / PI)[:, None] * l[:, 1:]), 1)
        X = to_np(x)
        real = np.linalg.norm(X[:, 1:], axis=1) == 0
        lim = 3e-3 if dt == "float32" else 1e-6
        ctx.close(e[~real], X[~real], "exp of the quaternion log", lim)
        ctx.close(np.abs(e[real]), np.abs(X[real]), "exp of the quaternion log", lim)
        ctx.state(len(X))
    ctx.trace()


def sphere(ctx, dt):
    """Spherical, Euclidean and Euler forms of points."""
    import importlib

    s2 = importlib.import_module("gconv.geometry.groups.s2")
    from gconv.geometry import so3

    tol = 1e-3 if dt == "float32" else 1e-7
    tight = 3e-6 if dt == "float32" else 2e-6
    be = np.concatenate((np.arange(-12, 13) * PI / 12, TINY, PI - np.array(TINY)))
    ga = np.concatenate((np.arange(-12, 13) * PI / 12, [0.3, -3.1]))
    B, G = [x.ravel() for x in np.meshgrid(be, ga, indexing="ij")]
    g = tensor(np.stack((B, G), -1), dt)
    g64 = to_np(g)
    want = np.stack((np.sin(g64[:, 0]) * np.cos(g64[:, 1]), np.sin(g64[:, 0]) * np.sin(g64[:, 1]), np.cos(g64[:, 0])), -1)
    x = s2.spherical_to_euclid(g)
    ctx.close(x, want, "spherical to euclid", tight)
    back = s2.euclid_to_spherical(x)
    bb = to_np(back)
    ctx.check((bb[:, 0] >= 0).all() and (bb[:, 0] <= PI + 1e-6).all(), "polar angle out of range", "")
    ctx.close(s2.spherical_to_euclid(back), want, "round trip", tol)
    # exact points: axes, antipodes, corners
    P = np.array([v for v in itertools.product((0, 1, -1), repeat=3) if any(v)], float)
    P /= np.linalg.norm(P, axis=1, keepdims=True)
    P = np.concatenate((P, -P))
    sp = s2.euclid_to_spherical(tensor(P, dt))
    ctx.close(s2.spherical_to_euclid(sp), P, "euclid round trip", tol)
    ctx.close(s2.spherical_to_euclid(s2.euclid_to_spherical(tensor(-P, dt))), -P, "antipodes", tol)
    # unit only up to rounding, as a normalisation leaves them
    ulp = float(np.finfo(dt).eps)
    near = np.concatenate([P * (1 + k * ulp) for k in range(-4, 5)])
    ctx.close(s2.spherical_to_euclid(s2.euclid_to_spherical(tensor(near, dt))), near, "round trip of a point that is unit up to rounding", tol)
    north = tensor([[[[0.0, 0, 1]]]], dt)
    for name, f in (("spherical_to_euler", s2.spherical_to_euler), ("neg_gamma", s2.spherical_to_euler_neg_gamma)):
        e = f(g)
        if not ctx.check(tuple(e.shape) == (len(B), 3), "shape", f"{name} {tuple(e.shape)}"):
            continue
        ctx.close(so3.left_apply_to_R3(so3.euler_to_matrix(e), north).reshape(-1, 3), want, "Euler form moves the pole elsewhere", 1e-5, name)
        E = to_np(e)
        ctx.close(E[:, 1:], g64, "beta and gamma", 1e-12, name)
        ctx.close(E[:, 0], -g64[:, 1] if name == "neg_gamma" else np.zeros(len(B)), "alpha", 1e-12, name)
        q = so3.euler_to_quat(e)
        ctx.close(so3.left_apply_to_R3(so3.quat_to_matrix(q), north).reshape(-1, 3), want, "quaternion form moves the pole elsewhere", 1e-5, name)
        for k in (0, 1, 2):
            ctx.close(f(g[:k]), E[:k], "batch", 1e-12, f"{name} {k}")
    # batching
    for s in ((), (1,), (0,), (2, 3), (2, 1, 2)):
        k = int(np.prod(s))
        off = 40
        ctx.close(s2.spherical_to_euclid(g[off:off + k].reshape(*s, 2)), to_np(x)[off:off + k].reshape(*s, 3), "leading shape", 1e-6, str(s))
        ctx.close(s2.euclid_to_spherical(x[off:off + k].reshape(*s, 3)), bb[off:off + k].reshape(*s, 2), "leading shape", 1e-6, str(s))
        ctx.state()
    for s in ((1030,), (33, 65), (4100,)):
        i = np.random.default_rng(93).integers(0, len(B), s)
        j = __import__("torch").as_tensor(i)
        ctx.close(s2.spherical_to_euclid(g[j]), to_np(x)[i], "leading shape", 1e-6, str(s))
        ctx.close(s2.euclid_to_spherical(x[j]), bb[i], "leading shape", 1e-6, str(s))
        if len(s) == 1:
            ctx.close(s2.spherical_to_euler(g[j])[:, 1:], g64[i], "batch", 1e-12, str(s))
            ctx.close(s2.spherical_to_euler_neg_gamma(g[j])[:, 0], -g64[i][:, 1], "batch", 1e-12, str(s))
        ctx.state()
    alone = np.concatenate([to_np(s2.euclid_to_spherical(tensor(P[i:i + 1], dt))) for i in range(len(P))])
    ctx.close(sp, alone, "depends on the batch", 1e-6)
    # distances between points
    D = to_np(s2.geodesic_distance_s2(tensor(P, dt)[:, None], tensor(P, dt)[None]))
    w = np.arctan2(np.linalg.norm(np.cross(P[:, None], P[None]), axis=-1), P @ P.T)
    ctx.close(D, w, "distance on the sphere", 1e-3)
    ctx.close(D, D.T, "distance on the sphere not symmetric", 1e-6)
    ctx.state(len(B)); ctx.trace(len(B))


def cases(tier):
    L = 6 if tier == "thorough" else 5
    out = []
    for dt in ("float32", "float64"):
        for f in EDGES:
            out.append(Case(f"chains:{f}:{dt}", chains, first=f, dt=dt, length=L))
        out += [Case(f"batching:{dt}", batching, dt=dt), Case(f"conventions:{dt}", consistency, dt=dt), Case(f"sphere:{dt}", sphere, dt=dt)]
    return out
