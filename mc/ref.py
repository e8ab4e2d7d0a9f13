"""Reference models: plain numpy, float64 / integers, nothing shared with the repository."""
import itertools, math
import numpy as np

PI = math.pi

# ------------------------------------------------------------------ finite groups


def rot2(theta):
    c, s = math.cos(theta), math.sin(theta)
    return np.array([[c, -s], [s, c]])


ROT2_INT = [np.array(m) for m in ([[1, 0], [0, 1]], [[0, -1], [1, 0]], [[-1, 0], [0, -1]], [[0, 1], [-1, 0]])]


def signed_permutations(n):
    out = []
    for p in itertools.permutations(range(n)):
        for s in itertools.product((1, -1), repeat=n):
            m = np.zeros((n, n), dtype=int)
            for i in range(n):
                m[i, p[i]] = s[i]
            out.append(m)
    return out


def idet(m):
    return int(round(np.linalg.det(m)))


# identity first, then by rotation angle: simplest first
ROT3_INT = sorted((m for m in signed_permutations(3) if idet(m) == 1), key=lambda m: (-np.trace(m), m.tolist()))


def rot3(axis, angle):
    a = np.asarray(axis, float)
    a = a / np.linalg.norm(a)
    K = np.array([[0, -a[2], a[1]], [a[2], 0, -a[0]], [-a[1], a[0], 0]])
    return np.eye(3) + math.sin(angle) * K + (1 - math.cos(angle)) * K @ K


def rx(t):
    return rot3((1, 0, 0), t)


def ry(t):
    return rot3((0, 1, 0), t)


def rz(t):
    return rot3((0, 0, 1), t)


def quat_mul(a, b):
    w1, x1, y1, z1 = np.moveaxis(np.asarray(a, float), -1, 0)
    w2, x2, y2, z2 = np.moveaxis(np.asarray(b, float), -1, 0)
    return np.stack((
        w1 * w2 - x1 * x2 - y1 * y2 - z1 * z2,
        w1 * x2 + x1 * w2 + y1 * z2 - z1 * y2,
        w1 * y2 - x1 * z2 + y1 * w2 + z1 * x2,
        w1 * z2 + x1 * y2 - y1 * x2 + z1 * w2), -1)


def quat_mat(q):
    w, x, y, z = np.moveaxis(np.asarray(q, float), -1, 0)
    n = w * w + x * x + y * y + z * z
    return np.stack((
        np.stack((1 - 2 * (y * y + z * z) / n, 2 * (x * y - z * w) / n, 2 * (x * z + y * w) / n), -1),
        np.stack((2 * (x * y + z * w) / n, 1 - 2 * (x * x + z * z) / n, 2 * (y * z - x * w) / n), -1),
        np.stack((2 * (x * z - y * w) / n, 2 * (y * z + x * w) / n, 1 - 2 * (x * x + y * y) / n), -1)), -2)


def axis_angle_quat(axis, angle):
    a = np.asarray(axis, float)
    a = a / np.linalg.norm(a)
    return np.concatenate(([math.cos(angle / 2)], math.sin(angle / 2) * a))


def rot_angle(R):
    """Angle of rotation matrices in [0, pi], accurate everywhere."""
    R = np.asarray(R, float)
    s = np.stack((R[..., 2, 1] - R[..., 1, 2], R[..., 0, 2] - R[..., 2, 0], R[..., 1, 0] - R[..., 0, 1]), -1)
    return np.arctan2(np.linalg.norm(s, axis=-1), np.trace(R, axis1=-2, axis2=-1) - 1)


def euler_mat(e):
    """Extrinsic ZYZ: R = Rz(gamma) Ry(beta) Rz(alpha)."""
    e = np.asarray(e, float)
    sh = e.shape[:-1]
    return np.stack([rz(g) @ ry(b) @ rz(a) for a, b, g in e.reshape(-1, 3)]).reshape(*sh, 3, 3) if e.size else np.zeros((*sh, 3, 3))


def expm_so3(v):
    v = np.asarray(v, float)
    sh = v.shape[:-1]
    out = []
    for u in v.reshape(-1, 3):
        t = np.linalg.norm(u)
        out.append(np.eye(3) if t == 0 else rot3(u, t))
    return np.stack(out).reshape(*sh, 3, 3)


# ------------------------------------------------------------------ lattice action on arrays


def lattice_index(A, shape):
    """Flat index J with (g f).flat = f.flat[J], (g f)(p) = f(A^-1 p), p = (x, y[, z]) centred,
    x along the last axis.  shape = spatial array shape."""
    n = len(shape)
    A = np.asarray(A)
    Ainv = A.T
    idx = np.stack(np.meshgrid(*[np.arange(s) for s in shape], indexing="ij"), -1).reshape(-1, n)
    c = 2 * idx - (np.array(shape) - 1)  # doubled centred coordinates, axis order (z, y, x)
    q = c[:, ::-1] @ Ainv.T  # A^-1 p in (x, y, z)
    q = q[:, ::-1] + (np.array(shape) - 1)
    assert (q % 2 == 0).all()
    q //= 2
    assert (q >= 0).all() and (q < np.array(shape)).all()
    return np.ravel_multi_index(tuple(q.T), shape)


def act_array(A, f, n):
    """Acts with integer matrix A on the last n axes of f."""
    f = np.asarray(f)
    sp = f.shape[-n:]
    return f.reshape(*f.shape[:-n], -1)[..., lattice_index(A, sp)].reshape(f.shape)


# ------------------------------------------------------------------ samplers


def _corner(img, idx, padding):
    """img (..., *S); idx int (..., n) in axis order; zeros outside (for 'zeros')."""
    S = img.shape
    ok = np.ones(idx.shape[:-1], bool)
    cl = []
    for a in range(len(S)):
        ok &= (idx[..., a] >= 0) & (idx[..., a] < S[a])
        cl.append(np.clip(idx[..., a], 0, S[a] - 1))
    v = img[tuple(cl)]
    return np.where(ok, v, 0.0)


def sample_spatial(img, coords, mode="bilinear", padding="border"):
    """img (*S), coords (..., n) normalised (x, y[, z]); align_corners=False convention."""
    img = np.asarray(img, float)
    S = np.array(img.shape)
    n = len(S)
    u = ((np.asarray(coords, float)[..., ::-1] + 1) * S - 1) / 2  # axis order
    if padding == "border":
        u = np.clip(u, 0, S - 1)
    elif padding == "reflection":
        # reflect about -0.5 and S - 0.5
        m = np.abs((u + 0.5) % (2 * S))
        u = np.where(m > S, 2 * S - m, m) - 0.5
        u = np.clip(u, 0, S - 1)
    if mode == "nearest":
        return _corner(img, np.rint(u).astype(int), padding)
    lo = np.floor(u).astype(int)
    w = u - lo
    out = 0.0
    for bits in itertools.product((0, 1), repeat=n):
        b = np.array(bits)
        wt = np.prod(np.where(b, w, 1 - w), axis=-1)
        out = out + wt * _corner(img, lo + b, padding)
    return out


def nearest_tie_margin(coords, S):
    S = np.array(S)
    u = ((np.asarray(coords, float)[..., ::-1] + 1) * S - 1) / 2
    u = np.clip(u, 0, S - 1)
    return float(np.abs((u % 1) - 0.5).min())


def rbf_matrix(D, width):
    return np.exp(-(D ** 2) * math.log(2) / width ** 2)


def interp_rbf(Dqn, Dnn, signal, width):
    return rbf_matrix(Dqn, width) @ np.linalg.solve(rbf_matrix(Dnn, width), signal)


# ------------------------------------------------------------------ convolution


def pad_array(x, pad, mode):
    """x (N, C, *S), pad = [(lo, hi)] per spatial axis."""
    pw = [(0, 0), (0, 0)] + list(pad)
    m = {"zeros": "constant", "reflect": "reflect", "replicate": "edge", "circular": "wrap"}[mode]
    return np.pad(x, pw, mode=m)


def conv(x, w, stride, pad, dilation, groups, mode="zeros"):
    """Ordinary cross-correlation by its definition.  x (N, C, *S), w (O, C/groups, *K)."""
    n = x.ndim - 2
    x = pad_array(x, pad, mode)
    K = w.shape[2:]
    S = x.shape[2:]
    out = [(S[a] - dilation[a] * (K[a] - 1) - 1) // stride[a] + 1 for a in range(n)]
    O, Cg = w.shape[:2]
    y = np.zeros((x.shape[0], O, *out))
    og = O // groups
    for tap in itertools.product(*[range(k) for k in K]):
        sl = tuple(slice(t * d, t * d + (o - 1) * s + 1, s) for t, d, o, s in zip(tap, dilation, out, stride))
        patch = x[(slice(None), slice(None)) + sl]
        for g in range(groups):
            y[:, g * og:(g + 1) * og] += np.einsum(
                "oc,nc...->no...", w[(slice(g * og, (g + 1) * og), slice(None)) + tap], patch[:, g * Cg:(g + 1) * Cg])
    return y


def resolve_padding(padding, K, dilation):
    if padding == "valid":
        return [(0, 0)] * len(K)
    if padding == "same":
        out = []
        for k, d in zip(K, dilation):
            t = d * (k - 1)
            out.append((t // 2, t - t // 2))
        return out
    if isinstance(padding, int):
        padding = (padding,) * len(K)
    return [(p, p) for p in padding]
