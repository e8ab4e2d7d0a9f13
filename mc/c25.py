"""C25: user-defined groups (mirrors, dihedral, axis permutations, octahedral with reflections, dilations, shears) x
representations of their elements x kernel and layer kinds x grids x optional operations present or absent.  Oracles:
the group's exact action on arrays (equivariance), a numpy model of the kernels (definition), recorded calls."""
import itertools, math
import numpy as np
import ref
from core import Case, to_np
from lib import T, set_weights


# ------------------------------------------------------------------ groups: lists of matrices

def generate(gens):
    G = [np.eye(len(gens[0]))]
    todo = list(G)
    while todo:
        a = todo.pop()
        for g in gens:
            b = g @ a
            if not any(np.allclose(b, c) for c in G):
                G.append(b)
                todo.append(b)
    return np.stack(G)


def M(*rows):
    return np.array(rows, float)


FLIPX, FLIPY, SWAP, R90 = M((-1, 0), (0, 1)), M((1, 0), (0, -1)), M((0, 1), (1, 0)), M((0, -1), (1, 0))
MX, MY, MZ = np.diag([-1.0, 1, 1]), np.diag([1.0, -1, 1]), np.diag([1.0, 1, -1])
CYC, SW = M((0, 0, 1), (1, 0, 0), (0, 1, 0)), M((0, 1, 0), (1, 0, 0), (0, 0, 1))
RZ = M((0, -1, 0), (1, 0, 0), (0, 0, 1))
S2 = math.sqrt(0.5)

# name: (matrices, kernel size, whether it permutes the lattice)
GROUPS = {
    "trivial": (np.eye(2)[None], (3, 3), True),
    "mirror": (generate([FLIPX]), (3, 5), True),
    "mirrors": (generate([FLIPX, FLIPY]), (4, 3), True),
    "diagonal": (generate([SWAP]), (3, 3), True),
    "C4": (generate([R90]), (3, 3), True),
    "dihedral": (generate([R90, FLIPX]), (3, 3), True),
    "even kernel": (generate([R90, FLIPX]), (2, 2), True),
    "dilations": (np.stack([np.eye(2) * s for s in (1.0, 2.0, 0.5, 1.25)]), (3, 3), False),
    "anisotropic": (np.stack([np.diag(d) for d in ((1.0, 1.0), (2.0, 0.75), (-0.5, 1.5))]), (3, 4), False),
    "shears": (np.stack([M((1, s), (0, 1)) for s in (0.0, 0.5, -0.75)]), (4, 4), False),
    "eighths": (generate([M((S2, -S2), (S2, S2)), FLIPX]), (3, 3), False),
    "trivial 3d": (np.eye(3)[None], (2, 2, 2), True),
    "mirror 3d": (generate([MZ]), (3, 1, 2), True),
    "permutations": (generate([CYC, SW]), (2, 2, 2), True),
    "about z": (generate([RZ, MX]), (2, 3, 3), True),
    "octahedral": (generate([CYC, RZ, -np.eye(3)]), (2, 2, 2), True),
    "dilations 3d": (np.stack([np.eye(3) * s for s in (1.0, 2.0, -0.5)]), (2, 2, 2), False),
}


# ------------------------------------------------------------------ a user's operations

class Elements:
    """Elements as matrices (N, d, d), as flat vectors (N, d * d), or as an index (N,)."""

    def __init__(self, mats, rep, stride=False):
        self.A, self.rep, self.d, self.odd = mats, rep, mats.shape[-1], stride

    def wrap(self, mats):
        import torch

        if self.rep == "matrix":
            return mats
        if self.rep == "flat":
            return mats.flatten(-2)
        d = (mats[..., None, :, :] - T(self.A, mats.dtype)).abs().sum((-1, -2))
        assert float(d.amin(-1).max()) < 1e-6
        return d.argmin(-1)

    def unwrap(self, H):
        if self.rep == "matrix":
            return H
        if self.rep == "flat":
            return H.reshape(*H.shape[:-1], self.d, self.d)
        return T(self.A)[H]

    def awkward(self, t):
        """The same values in a memory layout that cannot be flattened without copying."""
        import torch

        if not self.odd or t.dim() < 2:
            return t
        p = list(range(t.dim()))[::-1]
        return t.permute(p).contiguous().permute(p)

    def inverse(self, H):
        import torch

        return self.wrap(torch.linalg.inv(self.unwrap(H)))

    def product(self, H1, H2):
        return self.awkward(self.wrap(self.unwrap(H1)[:, None] @ self.unwrap(H2)[None]))

    def action(self, H, grid):
        import torch

        return self.awkward(torch.einsum("nij,...j->n...i", self.unwrap(H), grid))

    def det(self, H):
        import torch

        return torch.linalg.det(self.unwrap(H))

    def sample(self, grid, signal, signal_grid, sharp=3.0, **_):
        """Normalised Gaussian weights of the matrix distance."""
        import torch

        d = (self.unwrap(grid)[:, None] - self.unwrap(signal_grid)[None]).pow(2).sum((-1, -2))
        return self.awkward(torch.softmax(-sharp * d, -1) @ signal)

    def sample_ref(self, rel, refs, sharp=3.0):
        d = ((rel[:, None] - refs[None]) ** 2).sum((-1, -2))
        e = np.exp(-sharp * d)
        return e / e.sum(1, keepdims=True)


def space_grid(k):
    """(*k, n) coordinates (x, y[, z]) in [-1, 1]."""
    ax = [np.linspace(-1, 1, n) if n > 1 else np.zeros(1) for n in k]
    return np.stack(np.meshgrid(*ax, indexing="ij")[::-1], -1)


def the_mask(k):
    r = (space_grid(k) ** 2).sum(-1)
    return 0.25 + np.exp(-r)


RN = {"bilinear": dict(mode="bilinear", padding_mode="border", align_corners=False),
      "zeros": dict(mode="bilinear", padding_mode="zeros", align_corners=False),
      "default": {}}


def build(name, kind, rep="matrix", i=1, o=1, groups=1, refs=None, det=True, mask=True, rn="bilinear", sharp=None, odd=False, rec=None, **conv):
    """(elements, kernel, layer) exactly as a user would put them together."""
    import torch
    from torch.nn import functional as F
    from gconv import gnn
    from gconv.gnn import kernels

    mats, k, _ = GROUPS[name]
    E = Elements(mats, rep, odd)
    d = E.d
    refs = mats if refs is None else refs
    wrap = rec or (lambda n, f: f)

    def sample_Rn(signal, grid, **kw):
        return E.awkward(F.grid_sample(signal, grid, **kw))
    ops = dict(inverse_H=wrap("inverse_H", E.inverse))
    if kind != "sub":
        ops.update(left_apply_to_Rn=wrap("left_apply_to_Rn", E.action), sample_Rn=wrap("sample_Rn", sample_Rn if odd else F.grid_sample))
        if RN[rn]:
            ops["sample_Rn_kwargs"] = dict(RN[rn])
        if mask:
            ops["mask"] = T(the_mask(k))
    if kind != "lift":
        ops.update(left_apply_to_H=wrap("left_apply_to_H", E.product), sample_H=wrap("sample_H", E.sample))
        if sharp:
            ops["sample_H_kwargs"] = dict(sharp) if isinstance(sharp, dict) else {"sharp": sharp}
    if det:
        ops["det_H"] = wrap("det_H", E.det)
    gks = (len(refs),) if len(refs) < 3 else (len(refs) - 2, 2)
    ks = (1,) * d if kind == "sub" else k
    cls = {"lift": kernels.GLiftingKernel, "sep": kernels.GSeparableKernel, "conv": kernels.GKernel, "sub": kernels.GSubgroupKernel}[kind]
    grids = dict(grid_H=E.wrap(T(refs))) if kind == "sub" else dict(grid_H=E.wrap(T(refs)), grid_Rn=T(space_grid(k)))
    kern = cls(i, o, ks, gks, groups=groups, **grids, **ops)
    lay = {"lift": "GLiftingConv", "sep": "GSeparableConv", "conv": "GConv", "sub": "GConv"}[kind] + f"{d}d"
    layer = getattr(gnn, lay)(i, o, ks, gks, kern, groups=groups, **conv)
    return E, kern, layer.double()


def run(layer, kind, x, Hin, Hout):
    return layer(x, Hout) if kind == "lift" else layer(x, Hin, Hout)


def act_features(A, f, d):
    return ref.act_array(np.rint(A).astype(int), f, d)


def subsets(n):
    """Grids: the whole group, one element, repeated and unordered ones."""
    out = [tuple(range(n)), (0,), (n - 1,), tuple(range(n))[::-1][:3]]
    if n > 2:
        out += [(1, 1, 2)]
    return list(dict.fromkeys(out))


# ------------------------------------------------------------------ equivariance

CONV = {"plain": dict(), "padded": dict(padding="size", bias=True), "strided": dict(stride=2, padding=1), "same circular": dict(padding="same", padding_mode="circular", bias=True),
        "dilated": dict(dilation=2, padding=2, padding_mode="replicate"), "valid": dict(padding="valid")}
CHAN = {"one": (1, 1, 1), "mix": (2, 3, 1), "groups": (4, 2, 2), "depth-wise": (3, 3, 3)}


def spatial_size(name, conv, k):
    """Input sizes on which the layer commutes with the lattice (symmetric sampling)."""
    if "strided" == conv:
        return tuple(2 * (3 if n > 1 else 2) + n - 2 for n in k)  # (S + 2 - k) % 2 == 0
    base = {2: (5, 6), 3: (4, 4, 5)}[len(k)]
    mats = GROUPS[name][0]
    fixed = all(np.allclose(np.abs(m), np.eye(len(k))) for m in mats)
    if fixed:
        return base
    if name == "about z":
        return (3, 5, 5)
    return (5,) * len(k)


def equivariance(ctx, name, kind, rep, conv, chan):
    mats, k, _ = GROUPS[name]
    d = len(k)
    i, o, groups = CHAN[chan]
    kw = dict(CONV[conv])
    ks = (1,) * d if kind == "sub" else k
    if kw.get("padding") == "size":
        kw["padding"] = tuple(max(0, n - 1) for n in ks)
    if kw.get("padding") == "same" and any(n % 2 == 0 for n in ks):
        return ctx.outcome("asymmetric padding")
    refs = mats[::2] if len(mats) > 3 else mats
    E, kern, layer = build(name, kind, rep, i, o, groups, refs=refs, **kw)
    set_weights(layer, ctx.rng)
    S = spatial_size(name, conv, ks)
    n = len(mats)
    hin = [()] if kind == "lift" else subsets(n)
    if n > 20:
        hin = hin[1:]
    for a in hin:
        x = ctx.rng.normal(size=(2, i) + ((len(a),) if kind != "lift" else ()) + S)
        for b in subsets(n)[1:] if n > 20 else subsets(n):
            Hin, Hout = mats[list(a)] if a else mats[:1], mats[list(b)]
            y, H = run(layer, kind, T(x), E.wrap(T(Hin)), E.wrap(T(Hout)))
            ctx.same(H, E.wrap(T(Hout)), "returned grid", "")
            ctx.check(float(y.abs().max()) > 1e-6, "layer is zero", "")
            for g in mats:
                y2, _ = run(layer, kind, T(act_features(g, x, d)), E.wrap(T(g @ Hin)), E.wrap(T(g @ Hout)))
                ctx.close(y2, act_features(g, to_np(y), d), "not equivariant", 1e-7, f"in {a} out {b} g={g.astype(int).tolist()}")
                ctx.state()
            ctx.trace()
    # the whole group in and out: acting permutes the features along the group axis
    if n <= 20:
        x = ctx.rng.normal(size=(1, i) + ((n,) if kind != "lift" else ()) + S)
        H = E.wrap(T(mats))
        y = to_np(run(layer, kind, T(x), H, H)[0])
        for g in mats:
            p = [int(np.abs(mats - np.linalg.inv(g) @ m).sum((1, 2)).argmin()) for m in mats]
            gx = act_features(g, x if kind == "lift" else x[:, :, p], d)
            ctx.close(run(layer, kind, T(gx), H, H)[0], act_features(g, y[:, :, p], d), "not equivariant on the group", 1e-7, str(g.astype(int).tolist()))
            ctx.state()


# ------------------------------------------------------------------ definition

def connections(ctx, kern, kind, call, o, cg, zero):
    """stored (out, in) entry -> the (out, in) connection it drives."""
    import torch

    if kind == "lift":
        return {(a, b): (a, b) for a in range(o) for b in range(cg)}
    W = kern.weight_H if kind == "sep" else kern.weight
    conn = {}
    with torch.no_grad():
        for a, b in itertools.product(range(o), range(cg)):
            W.zero_()
            W[:, a, b] = 1
            R = call()
            R = to_np(R[0] if kind == "sep" else R)
            nz = np.abs(R).sum(axis=(1,) + tuple(range(3, R.ndim)))
            hit = np.argwhere(nz > 1e-12)
            if zero and not len(hit):
                conn[a, b] = a, b
                continue
            ctx.check(len(hit) == 1, "entry drives several connections", f"{(a, b)}: {hit.tolist()}")
            conn[a, b] = tuple(map(int, hit[0])) if len(hit) else (a, b)
    ctx.check(sorted(conn.values()) == sorted(np.ndindex(o, cg)), "connections not one to one", str(conn))
    return conn


def definition(ctx, name, kind, rep, chan, det, mask, rn, odd, roll=0):
    import torch

    mats, k, _ = GROUPS[name]
    mats = np.roll(mats, -roll, 0)  # the reference grid does not start at the identity
    d = len(k)
    i, o, groups = CHAN[chan]
    cg = i // groups
    sharp = 1.7 if rn == "zeros" else None
    E, kern, layer = build(name, kind, rep, i, o, groups, det=det, mask=mask, rn=rn, refs=mats, sharp=sharp, odd=odd, padding=1)
    pad = {"bilinear": "border"}.get(rn, "zeros")
    c = space_grid(k)
    n = len(mats)
    for a, b in itertools.product(list(dict.fromkeys([(0,)] + subsets(n))), repeat=2):
        if kind == "lift" and a != (0,):
            continue
        if n > 20 and max(len(a), len(b)) > 5:
            continue
        Hin, Hout = mats[list(a)], mats[list(b)]
        ti, to = E.wrap(T(Hin)), E.wrap(T(Hout))
        if rep == "index" and not GROUPS[name][2] and name != "eighths":
            return ctx.outcome("not closed")

        def call():
            return kern(to) if kind == "lift" else kern(ti, to)
        inv = np.linalg.inv(Hout)
        # every tap falls outside the reference kernel
        zero = kind == "conv" and not any(ref.sample_spatial(np.ones(k), c @ m.T, "bilinear", pad).any() for m in inv)
        conn = connections(ctx, kern, kind, call, o, cg, zero)
        set_weights(kern, ctx.rng)

        def spatial(img):
            out = []
            for h in range(len(Hout)):
                v = ref.sample_spatial(img, c @ inv[h].T, "bilinear", pad)
                if mask:
                    v = v * the_mask(k)
                if det:
                    v = v / abs(np.linalg.det(Hout[h]))
                out.append(v)
            return np.stack(out)
        Gm = None
        if kind != "lift":
            rel = (inv[:, None] @ Hin[None]).reshape(-1, d, d)
            Gm = E.sample_ref(rel, mats, **({"sharp": sharp} if sharp else {})).reshape(len(Hout), len(Hin), len(mats))
        w = to_np(kern.weight)
        if kind == "lift":
            want = np.stack([[spatial(w[x, y]) for y in range(cg)] for x in range(o)]).swapaxes(1, 2)  # o h c k
            ctx.close(call(), want, "kernel", 1e-8, f"{a} {b}")
        elif kind in ("sep", "sub"):
            WH = to_np(kern.weight_H) if kind == "sep" else w
            want = np.zeros((o, len(Hout), cg, len(Hin)))
            for s, (x, y) in conn.items():
                want[x, :, y] = Gm @ WH[:, s[0], s[1]]
            R = call()
            RH = R[0] if kind == "sep" else R
            ctx.close(RH.reshape(want.shape), want, "group kernel", 1e-8, f"{a} {b}")
            wantH = want
            if kind == "sep":
                want = np.stack([spatial(w[x, 0]) for x in range(o)])[:, :, None]
                ctx.close(R[1], want, "spatial kernel", 1e-8, f"{a} {b}")
        else:
            want = np.zeros((o, len(Hout), cg, len(Hin)) + k)
            for s, (x, y) in conn.items():
                per_ref = np.stack([spatial(r) for r in w[:, s[0], s[1]]])  # ref, h, k
                want[x, :, y] = np.einsum("hgr,rh...->hg...", Gm, per_ref)
            ctx.close(call(), want, "kernel", 1e-8, f"{a} {b}")
        # the layer: an ordinary convolution with it
        S = (4, 5) if d == 2 else (3, 4, 3)
        x = ctx.rng.normal(size=(2, i) + ((len(a),) if kind != "lift" else ()) + S)
        y, H = run(layer, kind, T(x), ti, to)
        ctx.same(H, to, "returned grid", "")
        one, p1 = (1,) * d, [(1, 1)] * d
        K = (1,) * d if kind == "sub" else k
        if kind == "lift":
            z = ref.conv(x, want.reshape((-1, cg) + k), one, p1, one, groups)
        else:
            fx = x.reshape((2, -1) + S)
            if kind == "conv":
                z = ref.conv(fx, want.reshape((o * len(b), cg * len(a)) + k), one, p1, one, groups)
            else:
                z = ref.conv(fx, wantH.reshape((o * len(b), cg * len(a)) + (1,) * d), one, p1 if kind == "sub" else [(0, 0)] * d, one, groups)
                if kind == "sep":
                    z = ref.conv(z, want.reshape((o * len(b), 1) + k), one, p1, one, o * len(b))
        ctx.close(y, z.reshape((2, o, len(b)) + z.shape[2:]), "layer", 1e-8, f"{a} {b}")
        ctx.state()
        ctx.trace()
        # gradients reach every weight
        for q in layer.parameters():
            q.grad = None
        run(layer, kind, T(x), ti, to)[0].pow(2).sum().backward()
        ctx.check(all(q.grad is not None and bool(torch.isfinite(q.grad).all()) for q in layer.parameters()), "no gradient", f"{a} {b}")


# ------------------------------------------------------------------ protocol

ODD = {"sharp": 0.0, "flag": False, "none": None, "count": 0, "text": "", "more": (1, 2)}


def protocol(ctx, name, kind, rep):
    """Each supplied operation is called as documented; those a kind does not need are never called."""
    import torch

    mats, k, _ = GROUPS[name]
    d = len(k)
    n = len(mats)
    if rep == "index" and not GROUPS[name][2] and name != "eighths":
        return ctx.outcome("not closed")
    for det, mask, rn, sharp, (a, b) in itertools.product((True, False), (True, False), RN, (None, 0.9, ODD), itertools.product(((0,), tuple(range(min(n, 3)))), repeat=2)):
        log = []

        def rec(opname, f):
            def g(*args, **kw):
                log.append((opname, [tuple(t.shape) for t in args], {q: v for q, v in kw.items() if not torch.is_tensor(v)}, [t.clone() for t in args]))
                return f(*args, **kw)
            return g
        given_H, given_Rn = ((sharp if sharp is ODD else {"sharp": sharp}) if sharp and kind != "lift" else {}), (dict(RN[rn]) if kind != "sub" else {})
        i, o, groups = 2, 4, 2
        E, kern, layer = build(name, kind, rep, i, o, groups, det=det, mask=mask, rn=rn, sharp=sharp, rec=rec)
        ctx.check(not log, "operations run while building", str([q[0] for q in log]))
        Hin, Hout = E.wrap(T(mats[list(a)])), E.wrap(T(mats[list(b)]))
        el = tuple(Hin.shape[1:])
        x = torch.ones((1, i) + ((len(a),) if kind != "lift" else ()) + (6,) * d, dtype=torch.float64)
        before = (Hin.clone(), Hout.clone(), kern.grid_H.clone(), kern.weight.detach().clone())
        run(layer, kind, x, Hin, Hout)
        for t, u in zip((Hin, Hout, kern.grid_H, kern.weight.detach()), before):
            ctx.same(t, u, "argument changed", "")
        used = {q[0] for q in log}
        want = {"inverse_H"} | ({"left_apply_to_Rn", "sample_Rn"} if kind != "sub" else set()) | ({"left_apply_to_H", "sample_H"} if kind != "lift" else set()) | ({"det_H"} if det and kind != "sub" else set())
        ctx.check(used - {"det_H"} == want - {"det_H"} and (not ("det_H" in want) or "det_H" in used), "operations used", f"{sorted(used)} instead of {sorted(want)}")
        na, nb, r = len(a), len(b), len(mats)
        for op, sh, kw, args in log:
            what = f"{op}{sh} {kw}; {len(a)} in, {len(b)} out"
            if op in ("inverse_H", "det_H"):
                ok = len(sh) == 1 and sh[0][1:] == el and not kw
            elif op == "left_apply_to_H":
                ok = len(sh) == 2 and sh[0][1:] == el and sh[1][1:] == el and not kw
            elif op == "left_apply_to_Rn":
                ok = len(sh) == 2 and sh[0][1:] == el and sh[1] == k + (d,) and not kw
                ok = ok and np.allclose(to_np(args[1]), space_grid(k))
            elif op == "sample_H":
                ok = kw == given_H and len(sh) == 3 and sh[0][1:] == el and len(sh[1]) == 2 and sh[1][0] == r and sh[2] == (r,) + el
                ok = ok and torch.equal(args[2], kern.grid_H)
            else:
                ok = kw == given_Rn and len(sh) == 2 and sh[0][2:] == k and sh[1][1:] == k + (d,) and sh[0][0] == sh[1][0]
            ctx.check(ok, "called with other arguments", what)
        ctx.state()
        ctx.trace()


# ------------------------------------------------------------------ independence

def isolation(ctx, names, kinds, depth):
    """All call sequences over layers of different groups: each answers as it does alone."""
    import torch

    items = []
    rng = np.random.default_rng(251)
    for name, kind in itertools.product(names, kinds):
        E, kern, layer = build(name, kind, "matrix", 2, 2, 1, rn="default", mask=name == names[0], det=name != names[0])
        set_weights(layer, rng)
        mats, k, _ = GROUPS[name]
        x = T(rng.normal(size=(1, 2) + ((len(mats),) if kind != "lift" else ()) + (5,) * len(k)))
        H = E.wrap(T(mats))
        items.append((f"{name} {kind}", layer, lambda l=layer, kind=kind, x=x, H=H: to_np(run(l, kind, x, H, H)[0])))
    alone = [f() for _, _, f in items]
    state = [{n: t.clone() for n, t in l.state_dict().items()} for _, l, _ in items]
    for seq in itertools.product(range(len(items)), repeat=depth):
        for j in seq:
            ctx.same(items[j][2](), alone[j], "layers interact", " > ".join(items[q][0] for q in seq))
        ctx.state()
    for (n, l, _), s in zip(items, state):
        ctx.check(all(torch.equal(t, s[q]) for q, t in l.state_dict().items()) and len(s) == len(l.state_dict()), "state changed", n)
    # changing one layer's options or weights leaves the others alone
    for j, (n, l, f) in enumerate(items):
        old = {q: t.clone() for q, t in l.state_dict().items()}
        l.kernel.sample_Rn_kwargs["mode"] = "nearest"
        with torch.no_grad():
            for t in l.state_dict().values():
                if t.is_floating_point():
                    t.mul_(1.5)
        for q, (m, _, g) in enumerate(items):
            if q != j:
                ctx.same(g(), alone[q], "layers share state", f"{n} changed, {m} answers differently")
        del l.kernel.sample_Rn_kwargs["mode"]
        l.load_state_dict(old)
        ctx.same(f(), alone[j], "state is not restored", n)
        ctx.state()
    ctx.trace()


def given_tensors(ctx, name, kind):
    """The tensors a user passes stay the user's."""
    import torch
    from torch.nn import functional as F
    from gconv.gnn import kernels

    mats, k, _ = GROUPS[name]
    E = Elements(mats, "matrix")
    gH, gR, m = T(mats), T(space_grid(k)), T(the_mask(k))
    opts = {"mode": "bilinear", "padding_mode": "border"}
    copies = [t.clone() for t in (gH, gR, m)]

    def make():
        common = dict(inverse_H=E.inverse, left_apply_to_Rn=E.action, sample_Rn=F.grid_sample, sample_Rn_kwargs=opts, mask=m, det_H=E.det)
        if kind == "lift":
            return kernels.GLiftingKernel(1, 2, k, (len(mats),), gH, gR, **common).double()
        cls = kernels.GSeparableKernel if kind == "sep" else kernels.GKernel
        return cls(1, 2, k, (len(mats),), gH, gR, left_apply_to_H=E.product, sample_H=E.sample, **common).double()
    a, b = make(), make()
    set_weights(a, ctx.rng)
    b.load_state_dict(a.state_dict())
    call = (lambda q: q(gH)) if kind == "lift" else (lambda q: q(gH, gH))

    def flat(r):
        return np.concatenate([to_np(t).ravel() for t in (r if isinstance(r, tuple) else (r,))])
    want = flat(call(b))
    with torch.no_grad():
        for t in a.state_dict().values():
            t.mul_(-2)
    for t, c in zip((gH, gR, m), copies):
        ctx.same(t, c, "the user's tensor changed", "")
    ctx.same(flat(call(b)), want, "kernels share state", "")
    own = (lambda: flat(b(copies[0]) if kind == "lift" else b(copies[0], copies[0])))
    gH.mul_(3), gR.mul_(0.5), m.zero_()
    ctx.same(own(), want, "kernel follows the user's tensor", "")
    ctx.check(opts == {"mode": "bilinear", "padding_mode": "border"}, "options changed", str(opts))
    ctx.trace()


# ------------------------------------------------------------------ networks

def network(ctx, name, rep, last):
    """lift > sep > conv > subgroup of one custom group, whole-group grids, all group elements."""
    mats, k, _ = GROUPS[name]
    d = len(k)
    layers = [build(name, kind, rep, i, o, g, rn=rn, padding=tuple(n - 1 for n in k) if kind != "sub" else 0, bias=True)
              for kind, i, o, g, rn in (("lift", 2, 4, 2, "bilinear"), ("sep", 4, 4, 4, "zeros"), ("conv", 4, 3, 1, "default"), ("sub", 3, 2, 1, "bilinear"))[:last]]
    for _, _, l in layers:
        set_weights(l, ctx.rng, 0.5)
    kinds = ("lift", "sep", "conv", "sub")[:last]
    S = (3, 5, 5) if name == "about z" else (5,) * d
    x = ctx.rng.normal(size=(1, 2) + S)

    def net(x, g):
        H = layers[0][0].wrap(T(g @ mats))
        y = T(x)
        for kind, (_, _, l) in zip(kinds, layers):
            y, H = run(l, kind, y, H, H)
            y = y.tanh()
        return to_np(y)
    base = net(x, np.eye(d))
    p = lambda g: [int(np.abs(mats - np.linalg.inv(g) @ m).sum((1, 2)).argmin()) for m in mats]
    for g in mats:
        gx = act_features(g, x, d)
        ctx.close(net(gx, g), act_features(g, base, d), "network is not equivariant", 1e-7, str(g.astype(int).tolist()))
        ctx.close(net(gx, np.eye(d)), act_features(g, base[:, :, p(g)], d), "network is not equivariant on the group", 1e-7, str(g.astype(int).tolist()))
        ctx.close(net(gx, np.eye(d)).mean(2).sum(tuple(range(2, 2 + d))), base.mean(2).sum(tuple(range(2, 2 + d))), "not invariant after pooling", 1e-7, "")
        ctx.state()
    ctx.trace()


def cases(tier):
    th = tier == "thorough"
    out = []
    reps = ("matrix", "flat", "index")
    for j, name in enumerate(GROUPS):
        mats, k, lattice = GROUPS[name]
        big = len(mats) > 20
        for kind in ("lift", "sep", "conv", "sub"):
            if lattice:
                for conv, chan in itertools.product(CONV, CHAN):
                    if not th and (conv != "plain" and chan not in ("groups",) or big and chan != "groups"):
                        continue
                    for rep in reps if th else (reps[(j + len(conv) + len(chan)) % 3],):
                        if big and not th and conv not in ("plain", "padded"):
                            continue
                        out.append(Case(f"equivariance:{name}:{kind}:{rep}:{conv}:{chan}", equivariance, name=name, kind=kind, rep=rep, conv=conv, chan=chan))
            for chan, det, mask, rn, odd, rep in itertools.product(CHAN, (True, False), (True, False), RN, (False, True), reps):
                nd = (chan != "groups") + (not det) + (not mask) + (rn != "bilinear") + odd + (rep != "matrix")
                if nd > (3 if th and not big else 1):
                    continue
                if kind == "sub" and rn == "default":
                    continue
                out.append(Case(f"definition:{name}:{kind}:{rep}:{chan}:det={det}:mask={mask}:{rn}:{'awkward' if odd else 'contiguous'}", definition,
                                name=name, kind=kind, rep=rep, chan=chan, det=det, mask=mask, rn=rn, odd=odd))
                if nd == 0 and len(mats) > 1:
                    for roll in {1, len(mats) // 2, len(mats) - 1}:
                        out.append(Case(f"definition:{name}:{kind}:rolled {roll}", definition, name=name, kind=kind, rep=rep, chan=chan, det=det, mask=mask,
                                        rn=rn, odd=odd, roll=roll))
            if len(mats) < 10 or th:
                for rep in reps if th else ("matrix", "index"):
                    out.append(Case(f"protocol:{name}:{kind}:{rep}", protocol, name=name, kind=kind, rep=rep))
            if kind != "sub":
                out.append(Case(f"given:{name}:{kind}", given_tensors, name=name, kind=kind))
    for names in (("mirrors", "dihedral"), ("dilations", "C4"), ("permutations", "dilations 3d"), ("mirror", "trivial")):
        out.append(Case(f"isolation:{names[0]}:{names[1]}", isolation, names=names, kinds=("lift", "sep", "conv"), depth=4 if th else 3))
    for name in ("mirror", "mirrors", "diagonal", "C4", "dihedral", "even kernel", "mirror 3d", "permutations", "about z"):
        for last in (2, 3, 4):
            for rep in reps if th else (reps[last % 3],):
                out.append(Case(f"network:{name}:{rep}:{last}", network, name=name, rep=rep, last=last))
    return out
