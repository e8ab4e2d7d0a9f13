"""C10: every element, pair and generator word of every named finite group, through the real quaternion
product; oracle: the groups' order statistics, closure and inclusions."""
import itertools, math
from collections import Counter
import numpy as np
import ref
from core import Case, to_np

ORDERS = {
    "identity": {1: 1}, "klein_group": {1: 1, 2: 3}, "tetrahedral": {1: 1, 2: 3, 3: 8},
    "octahedral": {1: 1, 2: 9, 3: 8, 4: 6}, "icosahedral": {1: 1, 2: 15, 3: 20, 5: 24},
}
SUB = [("identity", "klein_group"), ("klein_group", "tetrahedral"), ("tetrahedral", "octahedral"), ("tetrahedral", "icosahedral")]
TOL = 2e-6


def dots(a, b):
    return np.abs(to_np(a) @ to_np(b).T)


def index(E, Q):
    """Index of every row of Q in E up to sign, -1 if absent."""
    d = dots(Q, E)
    i = d.argmax(1)
    return np.where(np.sqrt(np.maximum(0, 2 - 2 * np.minimum(d.max(1), 1))) < 2e-3, i, -1)


def order(q, n=130):
    p = q.copy()
    for k in range(1, n):
        if abs(abs(p[0]) - 1) < 1e-9:
            return k
        p = ref.quat_mul(p, q)
        p /= np.linalg.norm(p)
    return 0


def snap(E):
    """Exact float64 versions are not needed: renormalise the library's float32 values."""
    E = to_np(E)
    return E / np.linalg.norm(E, axis=1, keepdims=True)


def group_check(ctx, E, n, orders=None):
    """E: tensor of n quaternions forming a group."""
    from gconv.geometry import so3

    X = to_np(E)
    if not ctx.check(X.shape == (n, 4), "number of elements", f"{X.shape}, expected {n}"):
        return
    ctx.state(n)
    ctx.check((np.abs(np.linalg.norm(X, axis=1) - 1) < TOL).all(), "not unit", "")
    d = dots(X, X) - 2 * np.eye(n)
    ctx.check(n < 2 or d.max() < 1 - 1e-4, "elements repeat", str(np.argwhere(d >= 1 - 1e-4)[:2].tolist()))
    ident = index(X, np.array([[1.0, 0, 0, 0]]))[0]
    ctx.check(ident >= 0, "identity missing", "")
    P = so3.left_apply_quat(E[:, None].expand(n, n, 4), E[None].expand(n, n, 4))
    tab = index(X, to_np(P).reshape(-1, 4)).reshape(n, n)
    ctx.check((tab >= 0).all(), "not closed under product", str(np.argwhere(tab < 0)[:3].tolist()))
    inv = index(X, so3.quat_inverse(E))
    ctx.check((inv >= 0).all(), "not closed under inverse", str(np.where(inv < 0)[0][:3]))
    ctx.trans(n * n)
    # the same products through the matrices
    R = so3.quat_to_matrix(E)
    ctx.close(so3.left_apply_to_matrix(R, R), so3.quat_to_matrix(P.reshape(-1, 4)).reshape(n, n, 3, 3), "matrix products", 1e-5)
    if (tab < 0).any() or ident < 0:
        return
    # latin square, i.e. a group table
    ctx.check(all(len(set(r)) == n for r in tab) and all(len(set(c)) == n for c in tab.T), "not a group table", "")
    S = snap(E)
    got = Counter(order_tab(tab, i, ident) for i in range(n))
    if orders is not None:
        ctx.check(dict(got) == orders, "element orders", f"{dict(got)} instead of {orders}")
    geo = Counter(order_geo(q) for q in S)
    ctx.check(geo == got, "rotation angles do not match the orders", f"{dict(geo)} vs {dict(got)}")
    # every word in the group: search from every pair of generators reaches a subgroup whose size divides n
    gens = range(n) if n <= 24 else range(0, n, 7)
    for a, b in itertools.combinations(gens, 2):
        seen, front = {ident}, [ident]
        while front:
            new = []
            for x in front:
                for g in (a, b):
                    y = int(tab[g, x])
                    if y not in seen:
                        seen.add(y); new.append(y)
            front = new
        ctx.check(n % len(seen) == 0, "Lagrange", f"{a},{b}: {len(seen)}")
        ctx.state(len(seen)); ctx.trace()
    return tab


def order_tab(tab, i, ident):
    x, k = i, 1
    while x != ident and k < 200:
        x, k = int(tab[i, x]), k + 1
    return k


def order_geo(q):
    """Order of the rotation from its angle."""
    t = 2 * math.atan2(np.linalg.norm(q[1:]), abs(q[0]))
    for k in range(1, 200):
        r = t * k / (2 * math.pi)
        if abs(r - round(r)) < 1e-4:
            return k
    return 0


def named(ctx, name):
    from gconv.geometry import so3

    n = sum(ORDERS[name].values())
    E = getattr(so3, name)()
    ctx.check(E.dtype.is_floating_point, "dtype", str(E.dtype))
    group_check(ctx, E, n, ORDERS[name])
    # a returned group belongs to the caller
    keep = E.clone()
    E.mul_(0).add_(7)
    ctx.same(getattr(so3, name)(), keep, "result is shared between calls")
    for dev in ("cpu", None):
        ctx.same(getattr(so3, name)(device=dev), keep, "device argument")


def inclusion(ctx):
    from gconv.geometry import so3

    for a, b in SUB:
        i = index(getattr(so3, b)(), getattr(so3, a)())
        ctx.check((i >= 0).all() and len(set(i)) == len(i), "not a subgroup", f"{a} in {b}")
        ctx.state()
    for ax in "xyz":
        for g, n in (("klein_group", 2), ("tetrahedral", 2), ("octahedral", 4), ("octahedral", 2), ("icosahedral", 2)):
            i = index(getattr(so3, g)(), so3.cyclic(n, ax))
            ctx.check((i >= 0).all(), "not a subgroup", f"C{n} about {ax} in {g}")
            ctx.state()
    for ax in "xyz":
        for n in range(1, 25):
            for d in range(1, n + 1):
                if n % d == 0:
                    ctx.check((index(so3.cyclic(n, ax), so3.cyclic(d, ax)) >= 0).all(), "not a subgroup", f"C{d} in C{n} about {ax}")
                    ctx.state()
    # index: the tetrahedral group is normal in the octahedral one
    T_, O = so3.tetrahedral(), so3.octahedral()
    for o in O:
        c = so3.left_apply_quat(so3.left_apply_quat(o.expand(12, 4), T_), so3.quat_inverse(o).expand(12, 4))
        ctx.check((index(T_, c) >= 0).all(), "tetrahedral not normal in octahedral", "")
    ctx.trace()


def cyclic(ctx, lo, hi, axis):
    from gconv.geometry import so3

    k = "xyz".index(axis)
    rot = (ref.rx, ref.ry, ref.rz)[k]
    for n in range(lo, hi):
        E = so3.cyclic(n, axis)
        if not ctx.check(tuple(E.shape) == (n, 4), "number of elements", f"n={n}: {tuple(E.shape)}"):
            continue
        ctx.same(getattr(so3, f"cyclic_{axis}")(n), E, "named axis function", f"n={n}")
        ctx.same(so3.cyclic(n, axis.upper()), E, "axis in upper case", f"n={n}")
        want = np.stack([rot(2 * math.pi * i / n) for i in range(n)])
        ctx.close(so3.quat_to_matrix(E), want, "steps", 3e-6, f"n={n}")
        if n <= 40:
            group_check(ctx, E, n, dict(Counter(n // math.gcd(n, i) for i in range(n))))
        ctx.state(); ctx.trace()
    ctx.sample({"axis": axis, "sizes": [lo, hi - 1]})


def axes(ctx):
    from gconv.geometry import so3

    names = [chr(c) for c in range(0x20, 0x250)] + [""] + ["".join(p) for p in itertools.product("xyzXYZ ", repeat=2)] + ["xyz", "X-axis", "axis_z"]
    # every printable decoration of a name
    names += [a for c in map(chr, range(0x20, 0x7f)) for x in "xyzXYZ" for a in (c + x, x + c, c + x + c)]
    names += [s for x in "xyz" for s in (x + "\n", "\t" + x, x + "\0", 3 * x, f"axis {x}", f"{x}-axis", f"cyclic_{x}", f"({x})", f"'{x}'")]
    names = list(dict.fromkeys(names))
    for a in names:
        ctx.state()
        if a in tuple("xyzXYZ"):
            ctx.check(tuple(so3.cyclic(3, a).shape) == (3, 4), "axis rejected", a)
        else:
            ctx.raises(lambda: so3.cyclic(3, a), "unknown axis accepted", repr(a), ValueError)
    ctx.trace()


def cases(tier):
    th = tier == "thorough"
    out = [Case(n, named, name=n) for n in ORDERS]
    out += [Case("inclusions", inclusion), Case("axis names", axes)]
    for ax in "xyz":
        for lo in range(1, 1200 if th else 401, 16):
            out.append(Case(f"cyclic:{ax}:{lo}", cyclic, lo=lo, hi=lo + 16, axis=ax))
        for n in (511, 1023, 2047, 4095, 10000):
            out.append(Case(f"cyclic:{ax}:{n}", cyclic, lo=n, hi=n + 3, axis=ax))
    return out
