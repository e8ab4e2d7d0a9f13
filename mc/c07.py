"""C07: explicit-state search over the Cayley graphs of finite subgroups (and a set of generic elements) with
the real operations as transitions: every word up to a length, every pair and triple, every leading shape."""
import itertools, math
import numpy as np
import ref
from core import Case, to_np
from lib import BY_NAME, T, TAU
import lib

SHAPES = [(), (1,), (3,), (0,), (2, 3), (2, 1, 3), (1, 2, 1, 2)]
BCAST = [((3,), (1,)), ((1,), (3,)), ((2, 1), (1, 3)), ((2, 3), (1, 1)), ((2, 1, 3), (1, 2, 1))]
BCAST_ND = [((), (3,)), ((3,), ()), ((2, 1), (3,)), ((3,), (2, 1)), ((2, 3, 1), (2,))]


class Ops:
    """One operation set of the library with its float64 model."""
    det = pair = None
    nd = True


class SO2(Ops):
    name, tail = "SO2", (1,)

    def __init__(self):
        from gconv.geometry import so2 as m
        self.mul, self.pair, self.inv = m.left_apply_angle, m.left_apply_to_angle, m.inverse_angle

    def rmul(self, a, b):
        return (a + b) % TAU

    def rinv(self, a):
        return -a

    def err(self, a, b):
        d = np.abs(a - b) % TAU
        return np.minimum(d, TAU - d)[..., 0]

    def valid(self, a, product):
        return ((a >= -1e-5) & (a <= TAU + 1e-5)).all() if product else np.isfinite(a).all()

    one = np.zeros((1,))

    def sets(self, th):
        for n in range(1, 25 if th else 13):
            yield f"C{n}", np.arange(n)[:, None] * TAU / n, [np.array([TAU / n])]
        yield "generic", np.array([[0.0], [1.1], [-2.3], [3.0], [7.5], [-9.1], [math.pi], [6.2]]), [np.array([1.1]), np.array([-2.3])]


class SO2M(Ops):
    """2x2 matrices: only the inverse is an operation of its own."""
    name, tail = "SO2matrix", (2, 2)

    def __init__(self):
        from gconv.geometry import so2 as m
        self.mul, self.inv = (lambda a, b: a @ b), m.inverse_matrix

    def rmul(self, a, b):
        return a @ b

    def rinv(self, a):
        return np.swapaxes(a, -1, -2)

    def err(self, a, b):
        return np.abs(a - b).max((-1, -2))

    def valid(self, a, product):
        return np.abs(a @ np.swapaxes(a, -1, -2) - np.eye(2)).max(initial=0) < 1e-5

    one = np.eye(2)

    def sets(self, th):
        for n in (1, 2, 3, 4, 5, 6, 8):
            yield f"C{n}", np.stack([ref.rot2(k * TAU / n) for k in range(n)]), [ref.rot2(TAU / n)]


class O2(Ops):
    name, tail = "O2", (2,)

    def __init__(self):
        from gconv.geometry import o2 as m
        self.mul, self.pair, self.inv, self.det = m.left_apply_angle, m.left_apply_to_angle, m.inverse, m.det

    def rmul(self, a, b):
        return np.stack((a[..., 0] * b[..., 0], (a[..., 1] + b[..., 1]) % TAU), -1)

    def rinv(self, a):
        return np.stack((a[..., 0], -a[..., 1]), -1)

    def rdet(self, a):
        return a[..., :1]

    def err(self, a, b):
        d = np.abs(a[..., 1] - b[..., 1]) % TAU
        return np.maximum(np.minimum(d, TAU - d), np.abs(a[..., 0] - b[..., 0]))

    def valid(self, a, product):
        ok = (np.abs(a[..., 0]) == 1).all()
        return ok and (((a[..., 1] >= -1e-5) & (a[..., 1] <= TAU + 1e-5)).all() or not product)

    one = np.array([1.0, 0.0])

    def sets(self, th):
        for n in range(1, 13 if th else 9):
            yield f"C{n}x2", lib.BY_NAME["E2"].uniform(n), [np.array([1, TAU / n]), np.array([-1.0, 0.0])]
        yield "generic", np.array([[1, 0.0], [-1, 0.7], [1, -2.3], [-1, 3.0], [-1, 8.1], [1, 5.5], [-1, -4.0]]), [np.array([-1, 0.7]), np.array([1, -2.3])]


class SO3M(Ops):
    name, tail = "SO3matrix", (3, 3)

    def __init__(self):
        from gconv.geometry import so3 as m
        self.mul, self.pair, self.inv = m.left_apply_matrix, m.left_apply_to_matrix, m.matrix_inverse

    def rmul(self, a, b):
        return a @ b

    def rinv(self, a):
        return np.swapaxes(a, -1, -2)

    def err(self, a, b):
        return np.abs(a - b).max((-1, -2))

    def valid(self, a, product):
        return np.abs(a @ np.swapaxes(a, -1, -2) - np.eye(3)).max(initial=0) < 1e-5 and (np.abs(np.linalg.det(a) - 1) < 1e-5).all()

    one = np.eye(3)

    def sets(self, th):
        O = np.stack([m.astype(float) for m in ref.ROT3_INT])
        yield "octahedral", O, [ref.rx(math.pi / 2).round(), ref.rz(math.pi / 2).round()]
        if th:
            I = icosahedral_ref()
            yield "icosahedral", ref.quat_mat(I), [ref.quat_mat(I[13]), ref.quat_mat(I[20])]
        R = lib.rand_rot(7, np.random.default_rng(71))
        yield "generic", R, list(R[:2])


def icosahedral_ref():
    """Closure of two generators, one quaternion per rotation."""
    phi = (1 + 5 ** .5) / 2
    gens = [np.array([.5, .5, .5, .5]), np.array([phi / 2, 1 / (2 * phi), .5, 0])]
    out = [np.array([1.0, 0, 0, 0])]
    i = 0
    while i < len(out):
        for g in gens:
            q = ref.quat_mul(g, out[i])
            if max(abs(p @ q) for p in out) < 1 - 1e-9:
                out.append(q)
        i += 1
    assert len(out) == 60
    return np.stack(out)


class SO3Q(Ops):
    name, tail, nd = "SO3quat", (4,), False

    def __init__(self):
        from gconv.geometry import so3 as m
        self.mul, self.inv = m.left_apply_quat, m.quat_inverse

    def rmul(self, a, b):
        return ref.quat_mul(a, b)

    def rinv(self, a):
        return a * np.array([1.0, -1, -1, -1])

    def err(self, a, b):
        return np.abs(a - b).max(-1)

    def valid(self, a, product):
        return (np.abs(np.linalg.norm(a, axis=-1) - 1) < 1e-5).all()

    one = np.array([1.0, 0, 0, 0])

    def sets(self, th):
        Q = np.array([q for q in itertools.product((0.5, -0.5), repeat=4)] + [s * e for e in np.eye(4) for s in (1, -1)])
        yield "2T", Q, [np.array([.5, .5, .5, .5]), np.array([0.0, 1, 0, 0])]
        r = math.sqrt(0.5)
        if th:
            I = icosahedral_ref()
            yield "2I", np.concatenate((I, -I)), [I[1], I[5]]
        q = np.random.default_rng(72).normal(size=(7, 4))
        q /= np.linalg.norm(q, axis=1, keepdims=True)
        yield "generic", np.concatenate((q, [[r, r, 0, 0], [r, 0, -r, 0]])), [q[0], np.array([r, r, 0, 0])]


class O3(Ops):
    name, tail = "O3", (10,)

    def __init__(self):
        from gconv.geometry import o3 as m
        self.mul, self.pair, self.inv, self.det = m.left_apply_O3, m.left_apply_to_O3, m.inverse, m.det
        self.g = BY_NAME["E3"]

    def rmul(self, a, b):
        c, R = self.g.split(a)
        d, S = self.g.split(b)
        return self.g.join(c * d, R @ S)

    def rinv(self, a):
        return self.g.inv(a)

    def rdet(self, a):
        return a[..., :1]

    def err(self, a, b):
        return np.abs(a - b).max(-1)

    def valid(self, a, product):
        c, R = self.g.split(a)
        return (np.abs(c) == 1).all() and np.abs(R @ np.swapaxes(R, -1, -2) - np.eye(3)).max(initial=0) < 1e-5 and (np.abs(np.linalg.det(R) - 1) < 1e-5).all()

    one = np.concatenate(([1.0], np.eye(3).ravel()))

    def sets(self, th):
        L = self.g.closed()
        e = lambda c, m: np.concatenate(([c], m.ravel()))
        if th:
            yield "full octahedral", L, [e(1.0, ref.rx(math.pi / 2).round()), e(-1.0, ref.rz(math.pi / 2).round())]
        V = np.stack([e(c, np.diag(d).astype(float)) for c in (1, -1) for d in ((1, 1, 1), (1, -1, -1), (-1, 1, -1), (-1, -1, 1))])
        T_ = [x for x in L if abs(np.abs(x[1:].reshape(3, 3)) @ np.ones(3) - 1).max() < 1e-9 and self.tet(x)]
        yield "pyritohedral", np.stack(T_), [T_[1], e(-1.0, np.eye(3)), T_[5]]
        yield "Klein x2", V, [V[1], V[6], V[4]]
        G = self.g.rand(6, np.random.default_rng(73))
        yield "generic", G, list(G[:2])

    @staticmethod
    def tet(x):
        """Even permutation matrices with signs: the tetrahedral rotations."""
        return np.linalg.det(np.abs(x[1:].reshape(3, 3))) > 0


OPS = {c.name: c for c in (SO2, SO2M, O2, SO3M, SO3Q, O3)}


def tensor(a, dt):
    import torch

    return torch.as_tensor(np.array(a, float), dtype=getattr(torch, dt))


def expect(ctx, o, got, want, sig, msg, tol, product=True):
    g = to_np(got)
    ctx.trans()
    if g.shape != want.shape:
        ctx.fail(sig, f"shape {g.shape} instead of {want.shape}; {msg}")
        return
    if g.size == 0:
        return
    e = o.err(g, want)
    if not (np.isfinite(g).all() and e.max() <= tol):
        i = np.unravel_index(int(np.nan_to_num(e, nan=9e9).argmax()), e.shape)
        ctx.fail(sig, f"{msg}: {g[i]} instead of {want[i]}")
        return
    ctx.check(o.valid(g, product), sig + " leaves the parameterisation", msg)


def laws(ctx, ops, name, dt):
    o = OPS[ops]()
    E, gens = {n: (e, g) for n, e, g in o.sets(True)}[name]
    tol = 3e-6 if dt == "float32" else 1e-12
    finite = name != "generic"
    n = len(E)
    tE = tensor(E, dt)
    keep = tE.clone()
    t = o.tail
    one = tensor(o.one, dt)
    up = lambda x, *lead: x.reshape(*lead, *t)
    # pairs: the broadcasting and the all-pairs product
    P = o.mul(up(tE, n, 1), up(tE, 1, n))
    want = o.rmul(E[:, None], E[None])
    expect(ctx, o, P, want, "product", f"{name} pairs", tol * 10)
    ctx.state(n * n)
    if o.pair:
        expect(ctx, o, o.pair(tE, tE), want, "all-pairs product", name, tol * 10)
        for m in range(0, min(n, 4)):
            expect(ctx, o, o.pair(tE[:m], tE), want[:m], "all-pairs product", f"{m} x {n}", tol * 10)
            expect(ctx, o, o.pair(tE, tE[:m]), want[:, :m], "all-pairs product", f"{n} x {m}", tol * 10)
    if finite:  # closed
        for i in range(n):
            d = np.stack([o.err(to_np(P[i]), np.broadcast_to(e, (n, *t))) for e in E])
            ctx.check((d.min(0) < 1e-4).all(), "not closed", f"{name} row {i}")
    # identity and inverses
    I = o.inv(tE)
    expect(ctx, o, I, o.rinv(E), "inverse", name, tol * 10, product=False)
    ones = np.broadcast_to(o.one, E.shape)
    expect(ctx, o, o.mul(tE, I), ones, "right inverse", name, tol * 10)
    expect(ctx, o, o.mul(I, tE), ones, "left inverse", name, tol * 10)
    expect(ctx, o, o.inv(I), E, "double inverse", name, tol * 10, product=False)
    expect(ctx, o, o.mul(up(one, 1), tE), E, "left identity", name, tol * 10)
    expect(ctx, o, o.mul(tE, up(one, 1)), E, "right identity", name, tol * 10)
    expect(ctx, o, o.inv(P), o.rmul(o.rinv(E)[None], o.rinv(E)[:, None]), "inverse of a product", name, tol * 30, product=False)
    # determinant
    if o.det:
        d, dP = to_np(o.det(tE)), to_np(o.det(P))
        ctx.check(d.shape == (n, 1) and dP.shape == (n, n, 1), "det shape", f"{d.shape} {dP.shape}")
        ctx.same(d, o.rdet(E), "det")
        ctx.same(dP, d[:, None] * d[None], "det not multiplicative")
        ctx.same(o.det(I), d, "det of inverse")
    # all triples
    ctx.state(n ** 3)
    step = max(1, 200000 // (n * n))
    for a in range(0, n, step):
        A = up(tE[a:a + step], -1, 1, 1)
        left = o.mul(o.mul(A, up(tE, 1, n, 1)), up(tE, 1, 1, n))
        right = o.mul(A, o.mul(up(tE, 1, n, 1), up(tE, 1, 1, n)))
        w = o.rmul(o.rmul(E[a:a + step, None, None], E[None, :, None]), E[None, None])
        expect(ctx, o, left, w, "associativity", name, tol * 30)
        expect(ctx, o, right, w, "associativity", name, tol * 30)
    # words: every word over generators and inverses up to a length, the library's own values carried along
    letters = [tensor(g, dt) for g in gens]
    letters += [o.inv(l) for l in letters]
    rl = list(gens) + [o.rinv(g) for g in gens]
    L = {1: 10, 2: 6, 3: 5}[len(gens)] + (2 if ctx.thorough else 0)
    frontier = [(one.reshape(1, *t), np.array(o.one)[None])]
    for depth in range(L):
        nxt = []
        for x, w in frontier:
            xs = o.mul(tensor(np.stack([to_np(l) for l in letters]), dt).reshape(-1, 1, *t), x.reshape(1, -1, *t)).reshape(-1, *t)
            ws = o.rmul(np.stack(rl)[:, None], w[None]).reshape(-1, *t)
            nxt.append((xs, ws))
        frontier = nxt
        for x, w in frontier:
            expect(ctx, o, x, w, "word", f"length {depth + 1}", tol * 10 * (depth + 2))
            ctx.state(len(w)); ctx.trace(len(w))
    ctx.same(tE, keep, "operands changed")
    ctx.sample({"set": name, "elements": n, "words": len(frontier[0][1])})


FINE = [s * 10.0 ** -k for k in range(1, 16) for s in (1, 3, -1, -3)]


def fine(ctx, ops, dt):
    """Elements next to one another and next to the ends of the parameter range: products and inverses over all
    pairs, compared to a few units in the last place."""
    o = OPS[ops]()
    eps = 1.2e-7 if dt == "float32" else 2.3e-16
    if ops in ("SO2", "O2"):
        base = [k * math.pi / 4 for k in range(-9, 18)] + [math.pi / 6, 1.0, 2.0]
        ang = np.array(base + [b + f for b in (0.0, math.pi / 2, math.pi, TAU, -TAU) for f in FINE])
        E = ang[:, None] if ops == "SO2" else np.concatenate([np.stack((np.full(len(ang), c), ang), -1) for c in (1.0, -1.0)])
        tol = 60 * eps
    else:
        axes = np.array([(1, 0, 0), (0, 1, 0), (0, 0, 1), (1, 1, 0), (1, -1, 1), (.3, -.2, 1)], float)
        tt = [b + f for b in (0, math.pi / 2, math.pi) for f in FINE[::4] + [0]]
        Q = np.stack([ref.axis_angle_quat(v, t) for v in axes for t in tt])
        R = ref.quat_mat(Q)
        E = {"SO3quat": Q, "SO3matrix": R, "SO2matrix": np.stack([ref.rot2(t) for t in tt]),
             "O3": np.concatenate([np.concatenate((np.full((len(R), 1), c), R.reshape(-1, 9)), 1) for c in (1.0, -1.0)])}[ops]
        tol = 30 * eps
    x = tensor(E, dt)
    E = to_np(x)
    n, t = len(E), o.tail
    want = o.rmul(E[:, None], E[None])

    def check(got, want, sig):
        g = to_np(got)
        if ctx.check(g.shape == want.shape, sig, f"shape {g.shape}"):
            e = o.err(g, want)
            i = np.unravel_index(int(np.nan_to_num(e, nan=9e9).argmax()), e.shape)
            ctx.check(e[i] <= tol, sig, f"{E[i[0]].tolist()}, {E[i[-1]].tolist()}: {g[i].tolist()} instead of {want[i].tolist()}")
        ctx.state(e.size); ctx.trans()

    check(o.mul(x.reshape(n, 1, *t), x.reshape(1, n, *t)), want, "product of close elements")
    if o.pair:
        check(o.pair(x, x), want, "all-pairs product of close elements")
        check(o.pair(x[:1], x), want[:1], "all-pairs product of close elements")
        check(o.pair(x, x[:1]), want[:, :1], "all-pairs product of close elements")
    check(o.inv(x), o.rinv(E), "inverse of close elements")
    ctx.trace()


def shapes(ctx, ops, dt):
    import torch

    o = OPS[ops]()
    sets = {n: e for n, e, g in o.sets(False)}
    E = sets.get("generic", list(sets.values())[-1])
    tol = 1e-5 if dt == "float32" else 1e-12

    def pick(shape, off):
        k = int(np.prod(shape))
        idx = [(off + 2 * i) % len(E) for i in range(k)]
        return E[idx].reshape(*shape, *o.tail) if k else np.zeros((*shape, *o.tail))

    def variants(a):
        """Same values, different memory layouts."""
        x = tensor(a, dt)
        yield "contiguous", x
        if x.ndim > 1:
            yield "permuted", x.permute(*reversed(range(x.ndim))).contiguous().permute(*reversed(range(x.ndim)))
            y = torch.zeros(*x.shape[:-1], x.shape[-1] + 3, dtype=x.dtype)
            y[..., 2:2 + x.shape[-1]] = x
            yield "sliced", y[..., 2:2 + x.shape[-1]]
            z = torch.stack((x, x + 1), 0)
            yield "strided", z.transpose(0, 1).contiguous().transpose(0, 1)[0]

    pairs = [(s, s) for s in SHAPES] + BCAST + (BCAST_ND if o.nd else [])
    for s1, s2 in pairs:
        a, b = pick(s1, 0), pick(s2, 1)
        out = np.broadcast_shapes(s1, s2)
        want = o.rmul(np.broadcast_to(a, out + o.tail), np.broadcast_to(b, out + o.tail))
        for (v1, x), (v2, y) in itertools.product(variants(a), variants(b)):
            kx, ky = x.clone(), y.clone()
            expect(ctx, o, o.mul(x, y), want, "product batches", f"shapes {s1} {s2} {v1} {v2}", tol)
            ctx.same(x, kx, "operand changed"); ctx.same(y, ky, "operand changed")
            ctx.state()
    for s in SHAPES:
        a = pick(s, 2)
        for v, x in variants(a):
            k = x.clone()
            expect(ctx, o, o.inv(x), o.rinv(a), "inverse batches", f"shape {s} {v}", tol, product=False)
            if o.det:
                ctx.same(o.det(x), o.rdet(a), "det batches", f"shape {s} {v}")
            ctx.same(x, k, "operand changed")
            ctx.state()
    if o.pair:
        for n, m in itertools.product((0, 1, 2, 3), repeat=2):
            a, b = pick((n,), 0), pick((m,), 3)
            for (v1, x), (v2, y) in itertools.product(variants(a), variants(b)):
                want = o.rmul(a[:, None], b[None]) if n and m else np.zeros((n, m, *o.tail))
                expect(ctx, o, o.pair(x, y), want, "pairs batches", f"{n} x {m} {v1} {v2}", tol)
                ctx.state()
    ctx.trace(len(pairs))


def large(ctx, ops, dt):
    """Batches far from the small ones, built from the elements of every set."""
    o = OPS[ops]()
    rng = np.random.default_rng(74)
    pool = np.concatenate([e for n, e, g in o.sets(False)])
    tol = 1e-5 if dt == "float32" else 1e-12
    draw = lambda *s: pool[rng.integers(0, len(pool), s)]
    for s1, s2 in (((33,), (33,)), ((65,), (65,)), ((130,), (130,)), ((257,), (257,)), ((1030,), (1030,)), ((4100,), (4100,)), ((65, 66), (65, 66)), ((1, 130), (129, 1)),
                   ((1030, 1), (1, 3)), ((3, 1), (1, 1030)), ((1,), (2050,)), ((2050,), (1,)), ((9, 1, 10, 1), (1, 11, 1, 12)), ((17, 18, 19), (17, 18, 19))):
        a, b = draw(*s1), draw(*s2)
        x, y = tensor(a, dt), tensor(b, dt)
        expect(ctx, o, o.mul(x, y), o.rmul(a, b), "product batches", f"shapes {s1} {s2}", tol)
        expect(ctx, o, o.inv(x), o.rinv(a), "inverse batches", f"shape {s1}", tol, product=False)
        expect(ctx, o, o.mul(o.inv(x), x), np.broadcast_to(o.one, a.shape), "left inverse", f"shape {s1}", tol)
        if o.det:
            ctx.same(o.det(x), o.rdet(a), "det batches", f"shape {s1}")
        ctx.state(max(len(a), len(b)))
    if o.pair:
        for n, m in ((65, 66), (1, 130), (130, 1), (129, 257), (3, 1030), (1030, 3), (300, 300)):
            a, b = draw(n), draw(m)
            expect(ctx, o, o.pair(tensor(a, dt), tensor(b, dt)), o.rmul(a[:, None], b[None]), "pairs batches", f"{n} x {m}", tol)
            ctx.state(n * m)
    ctx.trace()


def cases(tier):
    th = tier == "thorough"
    out = []
    for name, cls in OPS.items():
        o = cls()
        for dt in ("float32", "float64"):
            for n, e, g in o.sets(True):
                out.append(Case(f"{name}:{n}:{dt}", laws, ops=name, name=n, dt=dt))
            out.append(Case(f"{name}:large:{dt}", large, ops=name, dt=dt))
            out.append(Case(f"{name}:fine:{dt}", fine, ops=name, dt=dt))
            out.append(Case(f"{name}:shapes:{dt}", shapes, ops=name, dt=dt))
    return out
