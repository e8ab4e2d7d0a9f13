"""C23: all sizes up to a bound x all lattice symmetries x all one-pixel images x resampling conventions, and all
layers x kernel sizes (support of the response to every one-pixel input)."""
import itertools
import numpy as np
import ref
from core import Case, to_np
from lib import BY_NAME, T, act_t


def maker(dim):
    from gconv.gnn import functional as gF

    return ((gF.create_grid_R2, gF.create_spherical_mask_R2) if dim == 2 else (gF.create_grid_R3, gF.create_spherical_mask_R3))


def want_grid(n, dim):
    x = np.linspace(-1, 1, n) if n > 1 else np.zeros(1)
    return np.stack(np.meshgrid(*[x] * dim, indexing="ij")[::-1], -1)


def want_mask(n, dim):
    r = np.linalg.norm(want_grid(n, dim), axis=-1)
    return r, r <= max(1.1, r.min() + 1e-6)


def symmetries(dim):
    return ref.signed_permutations(dim)


def geometry(ctx, dim, n):
    import torch

    mk, mk_mask = maker(dim)
    for kw in ({}, {"device": None}, {"device": "cpu"}, {"device": torch.device("cpu")}):
        g = mk(n, **kw)
        ctx.check(g.dtype == torch.get_default_dtype() and not g.requires_grad, "precision", f"{n} {kw}")
        ctx.close(g, want_grid(n, dim), "coordinates", 1e-6, f"size {n} {kw}")
        m = mk_mask(n, **kw)
        r, want = want_mask(n, dim)
        if ctx.check(tuple(m.shape) == (n,) * dim, "mask shape", f"{n} {kw}: {tuple(m.shape)}"):
            far = np.abs(r - max(1.1, r.min())) > 1e-5  # not on the rim
            if r.min() > 1.1:
                far[:] = True
            ctx.check(np.array_equal(to_np(m)[far], want[far].astype(float)), "mask is not the unit ball", f"size {n} {kw}: {to_np(m).sum()} kept instead of {want.sum()}")
            ctx.check(set(np.unique(to_np(m))) <= {0.0, 1.0}, "mask is not binary", f"size {n}")
            ctx.check(m.dtype == torch.float32 or m.dtype == torch.get_default_dtype(), "mask precision", f"{m.dtype}")
    # repeated calls are independent
    a, b = mk(n), mk(n)
    a.zero_()
    ctx.same(b, mk(n), "grids share memory", f"{n}")
    a, b = mk_mask(n), mk_mask(n)
    a.zero_()
    ctx.same(b, mk_mask(n), "masks share memory", f"{n}")
    g, m = mk(n).double(), mk_mask(n)
    flat = g.reshape(-1, dim)
    ctx.close(flat.mean(0), np.zeros(dim), "not centred", 1e-6, f"{n}")
    for A in symmetries(dim):
        # the coordinate of the voxel A moves to is A times the coordinate
        ctx.close(act_t(A, g.movedim(-1, 0), dim).movedim(0, -1), g @ T(np.linalg.inv(A)).T, "not symmetric", 1e-6, f"size {n} {A.tolist()}")
        ctx.same(act_t(A, m, dim), m, "mask is not symmetric", f"size {n} {A.tolist()}")
        ctx.state()
    ctx.trace()


def resample(ctx, dim, n, double):
    """Every one-pixel image (one channel each) and every image symmetry."""
    import torch
    from torch.nn.functional import grid_sample
    from gconv.gnn import functional as gF

    mk, _ = maker(dim)
    dt = torch.float64 if double else torch.float32
    g = mk(n).to(dt)
    if n ** dim > 900:  # two generic images instead of all one-pixel ones
        img = T(ctx.rng.normal(size=(1, 2) + (n,) * dim), dt)
    else:
        img = torch.eye(n ** dim, dtype=dt).reshape(1, n ** dim, *(n,) * dim)
    tol = 1e-5 * n
    for f in (grid_sample, gF.grid_sample):
        for mode, pad, align in itertools.product(("bilinear", "nearest"), ("zeros", "border", "reflection"), (True, False)):
            def sample(c):
                return f(img, c[None], mode=mode, padding_mode=pad, align_corners=align)
            if not align and mode == "nearest" and (n % 2 or pad == "zeros"):
                continue  # coordinates fall between pixels
            base = sample(g)
            what = f"size {n} {mode} {pad} align_corners={align}"
            if align:
                ctx.close(base, img, "resampling moves the image", tol, what)
            for A in symmetries(dim):
                rot = sample(g @ T(np.linalg.inv(A), dt).T)
                ctx.close(rot, act_t(A, base, dim), "resampling does not rotate the image", tol, f"{what} {A.tolist()}")
                ctx.state()
    ctx.trace()


def support(ctx, group, kind, k, mask):
    """All weights 1: the response to a one-pixel input is the (mirrored) mask."""
    import torch

    g = BY_NAME[group]
    d = g.dim
    gks = (2, 1) if g.improper else 3
    kw = {} if mask is None else {"mask": mask}
    key = "sampling_padding_mode" if kind == "lift" else "spatial_sampling_padding_mode"
    kw[key] = "border"
    layer = g.layer(kind, 1, 1, k, group_kernel_size=gks, padding=k - 1, bias=False, **kw)
    with torch.no_grad():
        for p in layer.parameters():
            p.fill_(1.0)
    x = torch.zeros((1, 1) + ((1,) if kind != "lift" else ()) + (1,) * d)
    x.fill_(1.0)
    H0 = T(np.stack([g.lattice()[0][0]]), torch.float32)
    y, H = layer(x) if kind == "lift" else layer(x, H0)
    want = want_mask(k, d)[1].astype(float)
    if mask is False:
        want = np.ones_like(want)
    ctx.check(bool(torch.isfinite(y).all()), "not finite", "")
    got = to_np(y)[0, 0]
    for h in range(got.shape[0]):
        m = np.flip(got[h], tuple(range(d)))
        ok = np.array_equal(np.abs(m) > 1e-6, want > 0)
        ctx.check(ok, "support of the kernel is not the mask", f"{group} {kind} k={k} mask={mask} element {h}: {(np.abs(m) > 1e-6).astype(int).tolist()}")
        v = m[want > 0]
        ctx.check(v.size > 0 and np.abs(m).max() > 1e-3, "layer is masked to zero", f"{group} {kind} k={k} mask={mask}")
        if v.size:
            ctx.close(v, np.full(v.shape, v.ravel()[0]), "kernel is not the constant it is sampled from", 1e-4, f"element {h}")
        ctx.state()
    ctx.trace()


def cases(tier):
    th = tier == "thorough"
    out = []
    for n in list(range(1, 140)) + [255, 256, 257, 258, 400, 513] + (list(range(140, 255)) if th else []):
        out.append(Case(f"2d:geometry:{n}", geometry, dim=2, n=n))
    for n in list(range(1, 36)) + [64, 65, 66] + (list(range(36, 64)) if th else []):
        out.append(Case(f"3d:geometry:{n}", geometry, dim=3, n=n))
    for n in list(range(1, 15 if th else 11)) + [31, 32, 33, 64, 65, 130]:
        for dbl in (True, False):
            out.append(Case(f"2d:resample:{n}:{'double' if dbl else 'single'}", resample, dim=2, n=n, double=dbl))
    for n in list(range(1, 8 if th else 6)) + [15, 16, 17, 33]:
        for dbl in (True, False):
            out.append(Case(f"3d:resample:{n}:{'double' if dbl else 'single'}", resample, dim=3, n=n, double=dbl))
    for group in BY_NAME:
        d = BY_NAME[group].dim
        for kind in ("lift", "sep", "conv"):
            for k in range(1, (16 if d == 2 else 9) if th else (12 if d == 2 else 8)):
                for mask in (None, True, False):
                    out.append(Case(f"{group}:{kind}:k={k}:mask={mask}", support, group=group, kind=kind, k=k, mask=mask))
    return out
