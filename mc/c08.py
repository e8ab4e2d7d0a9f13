"""C08: every element pair of finite subgroups (and generic elements) acts on every basis vector and on grids
of every small shape; oracle: exact matrices."""
import itertools, math
import numpy as np
import ref, lib
from core import Case, to_np
from lib import BY_NAME, TAU
from c07 import tensor, icosahedral_ref

DT = ("float32", "float64")


class A:
    """An action: act(R, grid) with model matrices."""
    det = None
    lead = False  # documented leading shape (...,)


class SO2Angle(A):
    name, dim = "SO2angle", 2

    def __init__(self):
        from gconv.geometry import so2
        self.act, self.mul, self.inv = so2.left_apply_angle_to_R2, so2.left_apply_to_angle, so2.inverse_angle

    one = np.zeros(1)
    sets = {"C12": np.arange(12)[:, None] * TAU / 12, "C7": np.arange(7)[:, None] * TAU / 7,
            "generic": np.array([[0.0], [1.1], [-2.3], [3.0], [7.5], [-9.1], [math.pi], [6.2]])}

    def mat(self, e):
        return ref.rot2(e[0])


class SO2Matrix(SO2Angle):
    name = "SO2matrix"

    def __init__(self):
        from gconv.geometry import so2
        self.act, self.inv = so2.left_apply_matrix_to_R2, so2.inverse_matrix
        self.mul = lambda a, b: a[:, None] @ b[None]

    one = np.eye(2)
    sets = {k: np.stack([ref.rot2(e[0]) for e in v]) for k, v in SO2Angle.sets.items()}

    def mat(self, e):
        return e


class O2(A):
    name, dim = "O2", 2

    def __init__(self):
        from gconv.geometry import o2
        self.act, self.mul, self.inv, self.det = o2.left_apply_to_R2, o2.left_apply_to_angle, o2.inverse, o2.det

    one = np.array([1.0, 0.0])
    sets = {"C8x2": BY_NAME["E2"].uniform(8), "C3x2": BY_NAME["E2"].uniform(3),
            "generic": np.array([[1, 0.0], [-1, 0.7], [1, -2.3], [-1, 3.0], [-1, 8.1], [1, 5.5], [-1, -4.0]])}

    def mat(self, e):
        return e[0] * ref.rot2(e[1])


class SO3(A):
    name, dim, lead = "SO3", 3, True

    def __init__(self):
        from gconv.geometry import so3
        self.act, self.mul, self.inv = so3.left_apply_to_R3, so3.left_apply_to_matrix, so3.matrix_inverse

    one = np.eye(3)
    sets = {"octahedral": np.stack([m.astype(float) for m in ref.ROT3_INT]), "icosahedral": ref.quat_mat(icosahedral_ref()),
            "generic": lib.rand_rot(7, np.random.default_rng(81))}

    def mat(self, e):
        return e


class O3(A):
    name, dim, lead = "O3", 3, True

    def __init__(self):
        from gconv.geometry import o3
        self.act, self.mul, self.inv, self.det = o3.left_apply_to_R3, o3.left_apply_to_O3, o3.inverse, o3.det

    one = np.concatenate(([1.0], np.eye(3).ravel()))
    sets = {"full octahedral": BY_NAME["E3"].closed(), "generic": BY_NAME["E3"].rand(7, np.random.default_rng(82))}

    def mat(self, e):
        return e[0] * e[1:].reshape(3, 3)


ACTS = {c.name: c for c in (SO2Angle, SO2Matrix, O2, SO3, O3)}


def grids(dim, small):
    r = range(1, 4 if small else 5)
    for s in itertools.product(r, repeat=dim):
        yield s


def vectors(dim, rng):
    """Basis, sums, generic: spans R^n and checks linearity by itself."""
    return np.concatenate((np.eye(dim), -np.eye(dim), np.ones((1, dim)), np.zeros((1, dim)), rng.normal(size=(7 - dim + 1, dim))))


def run(ctx, act, name, dt):
    a = ACTS[act]()
    d = a.dim
    E = a.sets[name]
    M = np.stack([a.mat(e) for e in E])
    tol = 1e-5 if dt == "float32" else 1e-12
    V = vectors(d, np.random.default_rng(83))
    V = np.concatenate((V, V[:3], V[:2]))[:12].reshape(*((3, 4) if d == 2 else (2, 3, 2)), d)
    n = len(E)
    tE, tV = tensor(E, dt), tensor(V, dt)
    kE, kV = tE.clone(), tV.clone()
    W = a.act(tE, tV)
    want = np.einsum("nij,...j->n...i", M, V)
    ctx.close(W, want, "action", tol, name)
    ctx.state(n)
    # all pairs: a product acts as its factors in turn
    P = a.mul(tE, tE)
    t = P.shape[2:]
    PV = to_np(a.act(P.reshape(n * n, *t), tV)).reshape(n, n, *V.shape)
    ctx.close(PV, np.einsum("nij,mjk,...k->nm...i", M, M, V), "product acts wrongly", tol * 3, name)
    for h in range(n):
        again = a.act(tE, W[h])
        ctx.close(PV[:, h], again, "not a homomorphism", tol * 3, f"{name} element {h}")
        ctx.state(n); ctx.trace(n)
    # identity, inverse, isometry
    ctx.close(a.act(tensor(a.one, dt)[None], tV), V[None], "identity moves vectors", tol)
    I = a.inv(tE)
    for h in range(n):
        ctx.close(a.act(I[h:h + 1], W[h])[0], V, "inverse does not undo", tol * 3, f"{name} element {h}")
    w = to_np(W).reshape(n, -1, d)
    v = V.reshape(-1, d)
    ctx.close(np.einsum("nai,nbi->nab", w, w), np.broadcast_to(v @ v.T, (n, len(v), len(v))), "lengths or angles change", tol * 10, name)
    # determinant of the linear map
    basis = to_np(a.act(tE, tensor(np.eye(d).reshape(*([d] + [1] * (d - 1)), d), dt))).reshape(n, d, d)
    dets = np.linalg.det(basis)
    if a.det is not None:
        D = to_np(a.det(tE))[:, 0]
        for s, what in ((1, "proper"), (-1, "improper")):
            k = D == s
            if not k.any() or (act == "O2" and s < 0):  # O2 improper elements: case "O2:improper"
                continue
            ctx.check((np.abs(dets[k] - s) < 1e-4).all(), f"determinant of {what} elements", f"{name}: {dets[k]}")
        ctx.check(np.isin(D, (1, -1)).all() and (D == np.sign(E.reshape(n, -1)[:, 0])).all(), "reported determinant", str(D))
    else:
        ctx.check((np.abs(dets - 1) < 1e-4).all(), "not a rotation", name)
    ctx.same(tE, kE, "elements changed"); ctx.same(tV, kV, "vectors changed")
    ctx.sample({"elements": n})


def improper(ctx):
    """O2: the reported determinant of an improper element against that of its linear map."""
    from gconv.geometry import o2

    E = tensor(np.concatenate([x[x[:, 0] < 0] for x in O2.sets.values()]), "float64")
    B = to_np(o2.left_apply_to_R2(E, tensor(np.eye(2).reshape(2, 1, 2), "float64"))).reshape(len(E), 2, 2)
    d = np.linalg.det(B)
    ctx.state(len(E))
    if (np.abs(d - 1) < 1e-9).all():
        ctx.fail("improper elements act with determinant +1", f"det reports {to_np(o2.det(E))[0]}")
    else:
        ctx.check((np.abs(d + 1) < 1e-9).all(), "determinant of improper elements", str(d))


def shapes(ctx, act, dt):
    import torch

    a = ACTS[act]()
    d = a.dim
    E = a.sets["generic"]
    tol = 1e-5 if dt == "float32" else 1e-12
    rng = np.random.default_rng(84)
    M = np.stack([a.mat(e) for e in E])
    for s in grids(d, False):
        V = rng.normal(size=(*s, d))
        for n in (0, 1, 2, 5):
            e = E[:n]
            want = np.einsum("nij,...j->n...i", M[:n], V) if n else np.zeros((0, *V.shape))
            x, v = tensor(e, dt), tensor(V, dt)
            lay = [("plain", x, v),
                   ("grid permuted", x, v.permute(*reversed(range(d + 1))).contiguous().permute(*reversed(range(d + 1)))),
                   ("grid expanded", x, None),
                   ("elements sliced", torch.cat((x, x), -1)[..., :x.shape[-1]], v),
                   ("elements strided", torch.stack((x, x + 1), 1).flatten(0, 1)[::2], v)]
            for what, xx, vv in lay:
                ww = want
                if vv is None:
                    vv = v[:1].expand(*v.shape)
                    ww = np.broadcast_to(want[:, :1], want.shape)
                ctx.close(a.act(xx, vv), ww, "action on shape", tol, f"{n} elements, grid {s}, {what}")
                ctx.state()
        # one element at a time gives the same as together
        both = to_np(a.act(tensor(E[:3], dt), tensor(V, dt)))
        for i in range(3):
            ctx.close(a.act(tensor(E[i:i + 1], dt), tensor(V, dt))[0], both[i], "depends on the other elements", tol)
    if a.lead:
        V = rng.normal(size=(2, 3, 2, d))
        for s in ((), (2, 3), (2, 1, 3), (1, 1)):
            k = int(np.prod(s))
            e, m = E[:k], M[:k]
            want = np.einsum("nij,...j->n...i", m, V).reshape(*s, *V.shape)
            got = a.act(tensor(e, dt).reshape(*s, *E.shape[1:]), tensor(V, dt))
            ctx.close(got, want, "leading shape", tol, str(s))
            ctx.state()
    ctx.trace()


def large(ctx, act, dt):
    """Grids and element counts far from the small ones."""
    a = ACTS[act]()
    d = a.dim
    pool = np.concatenate(list(a.sets.values()))
    M = np.stack([a.mat(e) for e in pool])
    tol = 2e-5 if dt == "float32" else 1e-12
    rng = np.random.default_rng(86)
    G = [(33, 33), (65, 66), (1, 130), (130, 1), (257, 3), (3, 257), (11, 1)] if d == 2 else [(9, 9, 9), (17, 18, 19), (1, 1, 130), (130, 1, 1), (1, 130, 1), (3, 3, 66), (11, 1, 2)]
    for n in (1, 2, 33, 65, 130, 257, 1030):
        for s in G if n < 60 else G[-3:] if n < 500 else G[-1:]:
            i = rng.integers(0, len(pool), n)
            V = rng.normal(size=(*s, d))
            want = np.einsum("nij,...j->n...i", M[i], V)
            ctx.close(a.act(tensor(pool[i], dt), tensor(V, dt)), want, "action on shape", tol, f"{n} elements, grid {s}")
            ctx.state(n)
    ctx.trace()


def forms(ctx, dt):
    """Angle, matrix and quaternion forms of the same element act identically."""
    import torch
    from gconv.geometry import so2, o2, so3, o3

    tol = 1e-5 if dt == "float32" else 1e-12
    rng = np.random.default_rng(85)
    V = rng.normal(size=(3, 4, 2))
    ang = np.concatenate((np.arange(48) * TAU / 24 - TAU, rng.uniform(-9, 9, 9)))[:, None]
    tv, ta = tensor(V, dt), tensor(ang, dt)
    m = so2.angle_to_matrix(ta)
    ctx.close(m, np.stack([ref.rot2(x[0]) for x in ang]), "angle_to_matrix", tol)
    ctx.close(so2.left_apply_angle_to_R2(ta, tv), so2.left_apply_matrix_to_R2(m, tv), "angle and matrix forms", tol)
    ctx.close(so2.angle_to_euclid(ta), np.stack((np.cos(ang[:, 0]), np.sin(ang[:, 0])), -1), "angle_to_euclid", tol)
    e1 = to_np(so2.left_apply_matrix_to_R2(m, tensor([[[1.0, 0.0]]], dt)))[:, 0, 0]
    ctx.close(so2.angle_to_euclid(ta), e1, "euclid is the rotated x axis", tol)
    o = np.concatenate((np.ones_like(ang), ang), 1)
    ctx.close(o2.left_apply_to_R2(tensor(o, dt), tv), so2.left_apply_angle_to_R2(ta, tv), "O2 rotations act as SO2", tol)
    # additive: matrices of sums
    ctx.close(so2.angle_to_matrix(so2.left_apply_to_angle(ta, ta)), to_np(m)[:, None] @ to_np(m)[None], "matrix of a product", tol * 10)
    ctx.close(so2.angle_to_matrix(so2.inverse_angle(ta)), so2.inverse_matrix(m), "matrix of the inverse", tol)
    for s in ((), (3,), (2, 2), (2, 1, 2)):
        k = int(np.prod(s))
        x = tensor(ang[:k], dt).reshape(*s, 1)
        w = np.stack([ref.rot2(t[0]) for t in ang[:k]]).reshape(*s, 2, 2)
        ctx.close(so2.angle_to_matrix(x), w, "angle_to_matrix batches", tol, str(s))
        ctx.close(so2.angle_to_euclid(x), w[..., 0], "angle_to_euclid batches", tol, str(s))
        ctx.state()
    # space: quaternion algebra against the matrix action, O3 rotations against SO3
    q = np.concatenate((icosahedral_ref(), rng.normal(size=(9, 4))))
    q /= np.linalg.norm(q, axis=1, keepdims=True)
    V3 = rng.normal(size=(2, 2, 3, 3))
    tq = tensor(q, dt)
    R = so3.quat_to_matrix(tq)
    got = so3.left_apply_to_R3(R, tensor(V3, dt))
    pure = np.concatenate((np.zeros((*V3.shape[:-1], 1)), V3), -1)
    for i in range(len(q)):
        w = ref.quat_mul(ref.quat_mul(q[i], pure), q[i] * np.array([1, -1, -1, -1]))[..., 1:]
        ctx.close(got[i], w, "quaternion and matrix forms", tol * 3, f"q={q[i]}")
        ctx.state()
    n = 30
    QQ = so3.left_apply_quat(tq[:n, None], tq[None, :n])
    ctx.close(so3.quat_to_matrix(QQ.reshape(-1, 4)).reshape(n, n, 3, 3), so3.left_apply_to_matrix(R[:n], R[:n]), "matrix of a quaternion product", tol * 3)
    ctx.close(so3.quat_to_matrix(so3.quat_inverse(tq)), so3.matrix_inverse(R), "matrix of a quaternion inverse", tol)
    o = torch.cat((torch.ones(len(q), 1, dtype=R.dtype), R.flatten(1)), 1)
    ctx.close(o3.left_apply_to_R3(o, tensor(V3, dt)), got, "O3 rotations act as SO3", tol)
    o = torch.cat((-torch.ones(len(q), 1, dtype=R.dtype), R.flatten(1)), 1)
    ctx.close(o3.left_apply_to_R3(o, tensor(V3, dt)), -to_np(got), "O3 improper elements", tol)
    for f, want in ((so3.matrix_x, ref.rx), (so3.matrix_y, ref.ry), (so3.matrix_z, ref.rz)):
        for s in ((), (5,), (2, 3), (0,)):
            x = rng.uniform(-7, 7, s)
            w = np.stack([want(t) for t in x.ravel()]).reshape(*s, 3, 3) if x.size else np.zeros((*s, 3, 3))
            ctx.close(f(tensor(x, dt)), w, "axis rotations", tol, f"{f.__name__} {s}")
            ctx.state()
    ctx.trace(len(q))


def cases(tier):
    out = []
    for name, c in ACTS.items():
        for dt in DT:
            for s in c.sets:
                out.append(Case(f"{name}:{s}:{dt}", run, act=name, name=s, dt=dt))
            out.append(Case(f"{name}:large:{dt}", large, act=name, dt=dt))
            out.append(Case(f"{name}:shapes:{dt}", shapes, act=name, dt=dt))
    out.append(Case("O2:improper", improper))
    for dt in DT:
        out.append(Case(f"forms:{dt}", forms, dt=dt))
    return out
