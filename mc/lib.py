"""The four groups of the library, as the checks see them (public names only, looked up late)."""
import math
import numpy as np
import ref

TAU = 2 * math.pi


def T(x, dtype=None):
    import torch

    return torch.as_tensor(np.array(x), dtype=dtype or torch.float64)


def turns(n):
    """Whole turns added to generic angles, which need not lie in [0, 2 pi)."""
    return (np.arange(n) + 2) % 3 - 1


class Grp:
    improper = False

    def layer(self, kind, *a, **k):
        import gconv.gnn as gnn

        cls = {"lift": "GLiftingConv", "sep": "GSeparableConv", "conv": "GConv"}[kind] + self.name
        k.setdefault("permute_output_grid", False)
        return getattr(gnn, cls)(*a, **k)

    def kernel(self, kind, *a, **k):
        from gconv.gnn import kernels

        cls = {"lift": "GLiftingKernel", "sep": "GSeparableKernel", "conv": "GKernel"}[kind] + self.name
        return getattr(kernels, cls)(*a, **k)

    def mul_all(self, A, B):
        return np.stack([self.mul(a, B) for a in A])

    def width_args(self, w=None):
        return {}

    def elem_det(self, e):
        return 1.0


class SE2(Grp):
    name, dim = "SE2", 2

    def lattice(self):
        return [(np.array([k * math.pi / 2]), ref.ROT2_INT[k]) for k in range(4)]

    def mul(self, a, B):
        return (a + B) % TAU

    def inv(self, B):
        return -B

    def act(self, e):
        return ref.rot2(e[0])

    def dist(self, A, B):
        d = np.abs(A[:, None, 0] - B[None, :, 0]) % TAU
        return np.minimum(d, TAU - d)

    def rand(self, n, rng):
        return rng.uniform(0, TAU, (n, 1)) + TAU * turns(n)[:, None]

    def uniform(self, n):
        return np.arange(n)[:, None] * TAU / n

    def closed(self):
        return self.uniform(4)

    def shape(self):
        return (1,)

    size = 4
    sizes = (1, 2, 3, 4, 8)

    def ref_grid(self, size):
        return self.uniform(size)


class E2(Grp):
    name, dim = "E2", 2
    improper = True

    def lattice(self):
        return [(np.array([c, k * math.pi / 2]), c * ref.ROT2_INT[k]) for c in (1, -1) for k in range(4)]

    def mul(self, a, B):
        return np.stack((a[0] * B[:, 0], (a[1] + B[:, 1]) % TAU), -1)

    def inv(self, B):
        return np.stack((B[:, 0], -B[:, 1]), -1)

    def act(self, e):
        return e[0] * ref.rot2(e[1])

    def dist(self, A, B):
        d = np.abs(A[:, None, 1] - B[None, :, 1]) % TAU
        d = np.minimum(d, TAU - d)
        return np.where(A[:, None, 0] == B[None, :, 0], d, np.inf)

    def rand(self, n, rng):
        return np.stack((np.where(np.arange(n) % 2, -1.0, 1.0), rng.uniform(0, TAU, n) + TAU * turns(n)), -1)

    def uniform(self, n):
        return np.stack((np.repeat([1.0, -1.0], n), np.tile(np.arange(n) * TAU / n, 2)), -1)

    def closed(self):
        return self.uniform(4)

    def shape(self):
        return (2,)

    def elem_det(self, e):
        return e[0]

    size = (4, 4)
    sizes = ((1, 1), (4, 4), (2, 3), (4, 0), 3)

    def ref_grid(self, size):
        if isinstance(size, int):
            size = (size, size)
        return np.concatenate([np.stack((np.full(n, c), np.arange(n) * TAU / max(n, 1)), -1) for n, c in zip(size, (1.0, -1.0))])


def rand_rot(n, rng):
    q = rng.normal(size=(n, 4))
    return ref.quat_mat(q)


class SE3(Grp):
    name, dim = "SE3", 3

    def lattice(self):
        return [(m.astype(float), m) for m in ref.ROT3_INT]

    def mul(self, a, B):
        return a @ B

    def inv(self, B):
        return np.swapaxes(B, -1, -2)

    def act(self, e):
        return e

    def dist(self, A, B):
        # the library's distance: half the rotation angle
        return ref.rot_angle(np.swapaxes(A, -1, -2)[:, None] @ B[None]) / 2

    def rand(self, n, rng):
        return rand_rot(n, rng)

    def closed(self):
        # Klein four-group / the whole rotation group are closed under left multiplication by themselves
        return np.stack([m.astype(float) for m in ref.ROT3_INT])

    def shape(self):
        return (3, 3)

    size = 4
    sizes = (1, 2, 4, 5, 24)


class E3(Grp):
    name, dim = "E3", 3
    improper = True

    def lattice(self):
        return [(np.concatenate(([c], m.astype(float).ravel())), c * m) for c in (1, -1) for m in ref.ROT3_INT]

    def split(self, B):
        return B[..., 0], B[..., 1:].reshape(*B.shape[:-1], 3, 3)

    def join(self, c, R):
        return np.concatenate((np.asarray(c)[..., None], R.reshape(*R.shape[:-2], 9)), -1)

    def mul(self, a, B):
        c, R = self.split(B)
        ca, Ra = self.split(a)
        return self.join(ca * c, Ra @ R)

    def inv(self, B):
        c, R = self.split(B)
        return self.join(c, np.swapaxes(R, -1, -2))

    def act(self, e):
        c, R = self.split(e)
        return c * R

    def dist(self, A, B):
        ca, Ra = self.split(A)
        cb, Rb = self.split(B)
        d = ref.rot_angle(np.swapaxes(Ra, -1, -2)[:, None] @ Rb[None]) / 2
        return np.where(ca[:, None] == cb[None], d, np.inf)

    def rand(self, n, rng):
        return self.join(np.where(np.arange(n) % 2, -1.0, 1.0), rand_rot(n, rng))

    def closed(self):
        return np.stack([e for e, _ in self.lattice()])

    def shape(self):
        return (10,)

    def elem_det(self, e):
        return e[0]

    size = (4, 4)
    sizes = ((1, 1), (4, 4), (2, 3), (4, 0), 3)


GROUPS = [SE2(), E2(), SE3(), E3()]
BY_NAME = {g.name: g for g in GROUPS}


def grid_menu(n):
    """(name, tensor): grids of n elements as modules are given them - every group, precision, arrangement of
    reflections - and other things of that length; None last."""
    import itertools
    import torch

    rng = np.random.default_rng(19)
    for g in GROUPS:
        L = [m[0] for m in g.lattice()]
        for name, H in (("generic", g.rand(n, rng)), ("lattice", np.stack([L[(3 * i) % len(L)] for i in range(n)])), ("one element", np.stack([g.rand(1, rng)[0]] * n))):
            if g.improper:
                signs = list(itertools.product((1.0, -1.0), repeat=n)) if n < 5 else [np.where(np.arange(n) < k, 1.0, -1.0) for k in range(n + 1)] + [(-1.0) ** np.arange(n)]
                for s in signs:
                    K = H.copy()
                    K[:, 0] = s
                    yield f"{g.name} {name} signs {[int(v) for v in s]}", T(K)
                    if name == "generic":
                        yield f"{g.name} {name} signs {[int(v) for v in s]} float32", T(K).float()
            else:
                yield f"{g.name} {name}", T(H)
                yield f"{g.name} {name} float32", T(H).float()
    yield "integers", torch.arange(n)
    yield "zeros", torch.zeros(n, 4)
    yield "wants gradients", T(rng.normal(size=(n, 1))).requires_grad_()
    yield "None", None


def set_weights(layer, rng, scale=1.0):
    """Fixed generic float64 values in every parameter."""
    import torch

    with torch.no_grad():
        for p in layer.parameters():
            p.copy_(torch.as_tensor(rng.normal(size=tuple(p.shape)) * scale, dtype=p.dtype))
    return layer


def one_hot_(p):
    """p viewed as (out, rest) or given matrix: fills with the identity basis."""
    import torch

    with torch.no_grad():
        p.zero_()
        n = p.shape[0]
        flat = p.view(n, -1)
        for i in range(n):
            flat[i, i % flat.shape[1]] = 1.0


def impulses(shape):
    """(prod(shape), 1, *shape) one-voxel images."""
    n = int(np.prod(shape))
    return np.eye(n).reshape(n, 1, *shape)


def act_t(A, f, n):
    """Lattice action on the last n axes of a tensor."""
    import torch

    sp = tuple(f.shape[-n:])
    J = torch.as_tensor(ref.lattice_index(A, sp))
    return f.reshape(*f.shape[:-n], -1)[..., J].reshape(f.shape)


def basis_weights(layer, kind, dim, k):
    """Single input channel per group: output channel o has exactly one (pair of) unit weight(s);
    together they span the layer's weight space.  Returns nothing; number of channels: basis_size."""
    import torch

    K = k ** dim
    with torch.no_grad():
        if kind == "lift":
            one_hot_(layer.kernel.weight)
        elif kind == "sep":
            wh, w = layer.kernel.weight_H, layer.kernel.weight
            wh.zero_(); w.zero_()
            for o in range(w.shape[0]):
                wh[(o // K) % wh.shape[0], o, 0] = 1.0
                w.view(w.shape[0], -1)[o, o % K] = 1.0
        else:
            w = layer.kernel.weight
            w.zero_()
            v = w.view(w.shape[0], w.shape[1], -1)
            for o in range(w.shape[1]):
                v[(o // K) % w.shape[0], o, o % K] = 1.0


def num_ref(gks):
    return 2 * gks if isinstance(gks, int) else sum(gks)


def nH(g, gks):
    return (2 * gks if isinstance(gks, int) else sum(gks)) if g.improper else gks
