"""C05: kernels are run on every one-hot weight state; each response must drive exactly one
(output, input) connection, the same for all elements, and equal the reference interpolation at
the transformed coordinates (times mask and 1/|det|)."""
import itertools
import numpy as np
import ref
from core import Case, to_np
from lib import BY_NAME, GROUPS, T, set_weights

CH = {"one": (1, 1, 1), "mix": (2, 3, 1), "g2": (4, 6, 2), "dw": (3, 3, 3)}


def coords(k, dim):
    x = np.linspace(-1, 1, k) if k > 1 else np.zeros(1)
    m = np.meshgrid(*[x] * dim, indexing="ij")  # axis order
    return np.stack(m[::-1], -1)  # (x, y[, z])


def mask_ref(k, dim):
    norm = np.linalg.norm(coords(k, dim), axis=-1)
    return (norm <= max(1.1, norm.min() + 1e-6)).astype(float)  # the innermost taps always remain


def spatial_ref(g, H, k, img, mode, pad, mask):
    """[h] -> kernel of img (k..) rotated by h."""
    c = coords(k, g.dim)
    out = []
    for h in H:
        q = c @ g.act(g.inv(h[None])[0]).T
        out.append(ref.sample_spatial(img, q, mode, pad) * (mask_ref(k, g.dim) if mask else 1.0) / abs(g.elem_det(h)))
    return np.stack(out)


def tie(g, H, k, mode, pad):
    if mode != "nearest":
        return False
    c = coords(k, g.dim)
    m = 1.0
    for h in H:
        q = c @ g.act(g.inv(h[None])[0]).T
        S = (k,) * g.dim
        if pad == "border":
            m = min(m, ref.nearest_tie_margin(q, S))
        else:
            u = ((q[..., ::-1] + 1) * np.array(S) - 1) / 2
            m = min(m, float(np.abs(u % 1 - 0.5).min()))
    return m < 1e-6


def group_ref(g, Hin, Hout, refs, mode, widths):
    """(out, in, ref) interpolation matrix: response at k^-1 h to a unit weight at reference element d."""
    rel = np.stack([g.mul(i, Hin) for i in g.inv(Hout)])  # out, in
    flat = rel.reshape(-1, *refs.shape[1:])
    D = g.dist(flat, refs)
    out = np.zeros(D.shape)
    if mode == "nearest":
        out[np.arange(len(flat)), D.argmin(1)] = np.isfinite(D.min(1))
    else:
        cls = [np.arange(len(refs))] if not g.improper else [np.where(refs[:, 0] == s)[0] for s in (1, -1)]
        for w, idx in zip(widths, cls):
            if not len(idx):
                continue
            N = g.dist(refs[idx], refs[idx])
            sel = np.isfinite(D[:, idx]).all(1)
            if not sel.any():
                continue
            out[np.ix_(sel, idx)] = ref.interp_rbf(D[np.ix_(sel, idx)], N, np.eye(len(idx)), w)
    return out.reshape(len(Hout), len(Hin), len(refs))


def exact_refs(g, sizes, rng):
    """Exact, well separated reference elements (rotations first)."""
    def spread(n, draw, dist):
        if n < 2:
            return draw(n)
        best = None
        for _ in range(30):
            c = draw(n)
            d = dist(c, c) + 10 * np.eye(n)
            if best is None or d.min() > best[0]:
                best = (d.min(), c)
        return best[1]

    if g.name in ("SE2", "E2"):  # not starting at the identity
        out = g.uniform(sizes) if g.name == "SE2" else g.ref_grid(sizes)
        out[:, -1] += 0.37
        return out
    import lib

    se3 = BY_NAME["SE3"]
    if g.name == "SE3":
        return spread(sizes, lambda n: lib.rand_rot(n, rng), se3.dist)
    sizes = (sizes, sizes) if isinstance(sizes, int) else sizes
    R = [spread(n, lambda n: lib.rand_rot(n, rng), se3.dist) for n in sizes]
    return np.concatenate([g.join(np.full(n, c), r) for n, c, r in zip(sizes, (1.0, -1.0), R)])


def auto_widths(g, refs):
    cls = [np.arange(len(refs))] if not g.improper else [np.where(refs[:, 0] == s)[0] for s in (1, -1)]
    out = []
    for idx in cls:
        if len(idx) < 2:
            out.append(np.inf)
            continue
        D = g.dist(refs[idx], refs[idx]) + np.where(np.eye(len(idx)) > 0, np.inf, 0)
        out.append(0.8 * D.min(1).mean())
    return out


def rbf_inf(w):
    return 1e9 if np.isinf(w) else w


SIZES = {"SE2": 4, "E2": (3, 2), "SE3": 4, "E3": (3, 2)}


def grids(g, refs):
    rng = np.random.default_rng(31)
    lat = np.stack([e for e, _ in g.lattice()])
    Hl = lat if len(lat) <= 8 else lat[[0, 1, 5, 11, 23] + ([24, 30, 47] if len(lat) > 24 else [])]
    return [("generic", g.rand(2, rng), g.rand(3, rng)), ("lattice", Hl[:4], Hl),
            ("equal", g.rand(2, rng), g.rand(2, rng)), ("single", g.rand(3, rng), g.rand(1, rng)),
            # related to the reference grid
            ("first", refs[:1], refs), ("reference", refs, refs[::-1][:2])]


def one_hots(p):
    """Sets every entry of p to one in turn."""
    import torch

    with torch.no_grad():
        p.zero_()
        for idx in np.ndindex(*p.shape):
            p[idx] = 1
            yield idx
            p[idx] = 0


def run(ctx, group, kind, chan, k, smode, spad, mask, gmode, width, default_grid=False, sizes=None):
    import torch

    g = BY_NAME[group]
    d = g.dim
    i, o, gr = CH[chan]
    cg = i // gr
    rng = np.random.default_rng(30)
    sizes = sizes or SIZES[group]
    refs = exact_refs(g, sizes, rng)
    kw = dict(groups=gr, mask=mask)
    tol = 3e-6
    if kind == "lift":
        kw.update(sampling_mode=smode, sampling_padding_mode=spad)
    else:
        kw.update(spatial_sampling_mode=smode, spatial_sampling_padding_mode=spad, group_sampling_mode=gmode)
        if width:
            kw.update(dict(group_rotation_sampling_width=width, group_reflection_sampling_width=1.3 * width) if g.improper
                      else dict(group_sampling_width=width))
    if not default_grid:
        kw["grid_H"] = T(refs)
    kern = g.kernel(kind, i, o, k, sizes, **kw).double()
    if default_grid:
        refs = kern.grid_H.numpy()
        tol = 1e-2 if d == 3 else 2e-6
    widths = [width, 1.3 * width] if width else auto_widths(g, refs)
    widths = [rbf_inf(w) for w in widths]
    K = k ** d
    skipped = 0
    for gname, Hin, Hout in grids(g, refs):
        if tie(g, Hout, k, smode, spad):
            skipped += 1
            continue
        if kind != "lift" and gmode == "nearest":
            rel = np.concatenate([g.mul(x, Hin) for x in g.inv(Hout)])
            D = np.sort(g.dist(rel, refs), 1)
            if D.shape[1] > 1 and np.nanmin(np.where(np.isfinite(D[:, 1]), D[:, 1], 9) - np.where(np.isfinite(D[:, 0]), D[:, 0], 0)) < 1e-4:
                skipped += 1
                continue
        spat = np.stack([spatial_ref(g, Hout, k, e.reshape((k,) * d), smode, spad, mask) for e in np.eye(K)])  # (pos, out, k..)
        ti, to = T(Hin), T(Hout)
        conn = {}

        def one_connection(R, key, what):
            """R (o, out, cg, ...) -> its only non-zero (o, c) block, consistent per stored key."""
            nz = np.abs(R).sum(axis=(1,) + tuple(range(3, R.ndim)))
            hit = np.argwhere(nz > 1e-9)
            if len(hit) > 1:
                ctx.fail("entry drives several connections", f"{gname} {what}: {hit.tolist()[:4]}")
                return None
            if len(hit) == 1:
                h = tuple(map(int, hit[0]))
                if conn.setdefault(key, h) != h:
                    ctx.fail("connection changes", f"{gname} {what}: {conn[key]} and {h}")
            return True

        if kind == "lift":
            with torch.no_grad():
                w = kern.weight
                for idx in one_hots(w):
                    R = to_np(kern(to))
                    ctx.state()
                    pos = int(np.ravel_multi_index(idx[2:], (k,) * d))
                    want = np.zeros((o, len(Hout), cg) + (k,) * d)
                    want[idx[0], :, idx[1]] = spat[pos]
                    ctx.close(R, want, "lifting kernel", tol, f"grid {gname}, weight {idx}")
        elif kind == "sep":
            G = group_ref(g, Hin, Hout, refs, gmode, widths)
            with torch.no_grad():
                for idx in one_hots(kern.weight_H):
                    RH, R = kern(ti, to)
                    RH = to_np(RH)
                    ctx.state()
                    ctx.check(RH.shape == (o, len(Hout), cg, len(Hin)) + (1,) * d, "axes", str(RH.shape))
                    if one_connection(RH, idx[1:], f"weight_H {idx}") and idx[1:] in conn:
                        a, b = conn[idx[1:]]
                        ctx.close(RH[a, :, b].reshape(len(Hout), len(Hin)), G[:, :, idx[0]], "group interpolation", tol * 10, f"grid {gname}, weight_H {idx}")
                ctx.check(sorted(conn.values()) == sorted(np.ndindex(o, cg)), "connections not one to one", str(conn))
                for idx in one_hots(kern.weight):
                    R = to_np(kern(ti, to)[1])
                    ctx.state()
                    pos = int(np.ravel_multi_index(idx[2:], (k,) * d))
                    want = np.zeros((o, len(Hout), 1) + (k,) * d)
                    want[idx[0], :, 0] = spat[pos]
                    ctx.close(R, want, "spatial kernel", tol, f"grid {gname}, weight {idx}")
        else:
            G = group_ref(g, Hin, Hout, refs, gmode, widths)
            with torch.no_grad():
                for idx in one_hots(kern.weight):
                    R = to_np(kern(ti, to))
                    ctx.state()
                    ctx.check(R.shape == (o, len(Hout), cg, len(Hin)) + (k,) * d, "axes", str(R.shape))
                    if one_connection(R, idx[1:3], f"weight {idx}") and idx[1:3] in conn:
                        a, b = conn[idx[1:3]]
                        pos = int(np.ravel_multi_index(idx[3:], (k,) * d))
                        want = G[:, :, idx[0]].reshape((len(Hout), len(Hin)) + (1,) * d) * spat[pos][:, None]
                        ctx.close(R[a, :, b], want, "kernel", tol * 10, f"grid {gname}, weight {idx}")
                if not spat.any():  # every tap falls outside the reference kernel
                    continue
                ctx.check(sorted(conn.values()) == sorted(np.ndindex(o, cg)), "connections not one to one", str(conn))
        # linear in the stored weights: generic values against the superposition of the model
        set_weights(kern, ctx.rng)
        ps = {n: to_np(p) for n, p in kern.named_parameters()}
        if kind == "lift":
            want = np.einsum("ocp,ph...->ohc...", ps["weight"].reshape(o, cg, K), spat)
            ctx.close(kern(to), want, "superposition", tol * 10, gname)
        else:
            W = ps["weight_H"] if kind == "sep" else ps["weight"]
            inv = np.zeros((o, cg, 2), int)
            for (a, b), (x, y) in conn.items():
                inv[x, y] = a, b
            if kind == "sep":
                Wc = np.stack([[W[:, inv[x, y, 0], inv[x, y, 1]] for y in range(cg)] for x in range(o)])  # o c ref
                RH, R = kern(ti, to)
                ctx.close(RH.reshape(RH.shape[:4]), np.einsum("ocd,khd->okch", Wc, G), "superposition", tol * 10, gname)
                ctx.close(R, np.einsum("op,ph...->oh...", ps["weight"].reshape(o, K), spat)[:, :, None], "superposition", tol * 10, gname)
            else:
                W = W.reshape(W.shape[:3] + (K,))
                Wc = np.stack([[W[:, inv[x, y, 0], inv[x, y, 1]] for y in range(cg)] for x in range(o)])  # o c ref pos
                ctx.close(kern(ti, to), np.einsum("ocdp,khd,pk...->okch...", Wc, G, spat), "superposition", tol * 10, gname)
        ctx.trace()
    ctx.sample({"refs": len(refs), "grids skipped (ties)": skipped})


def subgroup(ctx, chan, gmode, width, quat, mapped="SO3"):
    """GSubgroupKernelSO3 with quaternion or matrix reference grids."""
    import torch
    from gconv.gnn import kernels

    g = BY_NAME["SE3"]
    i, o, gr = CH[chan]
    cg = i // gr
    rng = np.random.default_rng(33)
    q = np.stack([ref.axis_angle_quat(a, t) for a, t in (((1, 0, 0), 0.3), ((0, 1, 1), 1.9), ((1, -1, 2), 2.8), ((0, 0, 1), -1.2))])
    refs = ref.quat_mat(q)
    kern = kernels.GSubgroupKernelSO3(i, o, 7, gr, gmode, width or 0.0, T(q if quat else refs)).double()
    widths = [width] if width else auto_widths(g, refs)
    ctx.check(kern.weight.shape[0] == 4, "provided grid overrides size", str(tuple(kern.weight.shape)))
    for gname, Hin, Hout in grids(g, refs):
        rel = np.concatenate([g.mul(x, Hin) for x in g.inv(Hout)])
        D = np.sort(g.dist(rel, refs), 1)
        if gmode == "nearest" and (D[:, 1] - D[:, 0]).min() < 1e-4:
            continue
        G = group_ref(g, Hin, Hout, refs, gmode, widths)
        conn = {}
        with torch.no_grad():
            for idx in one_hots(kern.weight):
                R = to_np(kern(T(Hin), T(Hout)))
                ctx.state()
                ctx.check(R.shape == (o, len(Hout), cg, len(Hin), 1, 1, 1), "axes", str(R.shape))
                nz = np.argwhere(np.abs(R).sum(axis=(1, 3, 4, 5, 6)) > 1e-9)
                if len(nz) != 1 or conn.setdefault(idx[1:], tuple(nz[0])) != tuple(nz[0]):
                    if len(nz) or gmode == "rbf":
                        ctx.fail("entry drives several connections", f"{gname} {idx}: {nz.tolist()[:4]}")
                    continue
                a, b = conn[idx[1:]]
                ctx.close(R[a, :, b].reshape(len(Hout), len(Hin)), G[:, :, idx[0]], "group interpolation", 3e-5, f"{gname} {idx}")
        ctx.trace()


# (out channels, in channels, groups, input elements, output elements): products cross every usual block size
WIDE = [(33, 65, 1, 3, 5), (257, 3, 1, 2, 3), (130, 2, 2, 5, 9), (3, 129, 1, 4, 2), (513, 1, 1, 1, 3), (66, 66, 66, 3, 7), (5, 4, 1, 33, 17),
        (2, 2, 1, 65, 70), (1025, 1, 1, 2, 1), (2, 3, 1, 130, 3), (3, 1, 1, 3, 259), (96, 64, 32, 2, 3), (1, 1025, 1, 1, 2), (1, 2, 1, 3, 1030)]


def wide(ctx, group, kind, which, k):
    """Generic weights of wide kernels against the model; the connections are read off coded weights."""
    import torch

    g = BY_NAME[group]
    d = g.dim
    o, i, gr, ni, no = WIDE[which]
    cg = i // gr
    rng = np.random.default_rng(35)
    refs = exact_refs(g, SIZES[group], rng)
    Hin, Hout = g.rand(ni, rng), g.rand(no, rng)
    kern = g.kernel(kind, i, o, k, SIZES[group], groups=gr, grid_H=T(refs)).double()
    K = k ** d
    spat = np.stack([spatial_ref(g, Hout, k, e.reshape((k,) * d), "bilinear", "border", True) for e in np.eye(K)])
    ti, to = T(Hin), T(Hout)
    what = f"out {o} in {i} groups {gr} elements {ni} -> {no}"
    with torch.no_grad():
        if kind == "lift":
            set_weights(kern, ctx.rng)
            w = to_np(kern.weight).reshape(o, cg, K)
            ctx.close(kern(to), np.einsum("ocp,ph...->ohc...", w, spat), "superposition", 3e-5, what)
        else:
            G = group_ref(g, Hin, Hout, refs, "rbf", [rbf_inf(w) for w in auto_widths(g, refs)])
            S = G.sum(2)  # out, in
            P = kern.weight_H if kind == "sep" else kern.weight
            code = np.arange(1, o * cg + 1, dtype=float).reshape((1, o, cg) + (1,) * (P.ndim - 3))
            P.copy_(T(np.broadcast_to(code, P.shape)))
            R = kern(ti, to)
            R = to_np(R[0] if kind == "sep" else R)
            if not ctx.check(R.shape == (o, no, cg, ni) + ((1,) if kind == "sep" else (k,)) * d, "axes", f"{R.shape} {what}"):
                return
            if kind == "conv":
                t = spat.sum(0)[None, :, None, None]
                R = R / np.where(t != 0, t, np.nan)
            R = np.nanmean(R.reshape(o, no, cg, ni, -1), -1)
            ok = np.abs(S) > 0.05
            codes = R / np.where(ok, S, np.nan)[None, :, None, :]
            first = np.nanmean(codes, axis=(1, 3))
            ctx.check(np.nanmax(np.abs(codes - first[:, None, :, None])) < 1e-2, "connection changes", what)
            m = np.rint(first).astype(int) - 1
            if not ctx.check(sorted(m.ravel().tolist()) == list(range(o * cg)), "connections not one to one", what):
                return
            set_weights(kern, ctx.rng)
            W = to_np(P).reshape(P.shape[0], o * cg, -1)[:, m.ravel()].reshape(P.shape[0], o, cg, -1)
            R = kern(ti, to)
            if kind == "sep":
                RH, R = R
                ctx.close(RH.reshape(RH.shape[:4]), np.einsum("doc,khd->okch", W[..., 0], G, optimize=True), "superposition", 3e-5, what)
                ctx.close(R, np.einsum("op,ph...->oh...", to_np(kern.weight).reshape(o, K), spat)[:, :, None], "superposition", 3e-5, what)
            else:
                ctx.close(R, np.einsum("docp,khd,pk...->okch...", W, G, spat, optimize=True), "superposition", 3e-5, what)
    ctx.state(); ctx.trace()
    ctx.sample({"wide": WIDE[which]})


def cases(tier):
    th = tier == "thorough"
    out = []
    for g, kind, n in itertools.product(GROUPS, ("lift", "sep", "conv"), range(len(WIDE))):
        out.append(Case(f"wide:{g.name}:{kind}:{n}", wide, group=g.name, kind=kind, which=n, k=3 if kind != "conv" and g.dim == 2 else 2))

    def add(**kw):
        name = ":".join(f"{v}" for v in kw.values())
        if not any(c.id == name for c in out):
            out.append(Case(name, run, **kw))

    for g in GROUPS:
        ks = (1, 2, 3, 4, 5) if g.dim == 2 else (1, 2, 3)
        modes = [("bilinear", "border"), ("bilinear", "zeros"), ("bilinear", "reflection"), ("nearest", "border"), ("nearest", "zeros"), ("nearest", "reflection")]
        for kind in ("lift", "sep", "conv"):
            for k, (sm, sp), mask in itertools.product(ks, modes, (True, False)):
                chan = "mix" if kind != "conv" or g.dim == 2 else "one"
                if g.dim == 3 and not th and kind != "lift" and (sm, sp) not in modes[:2]:
                    continue
                add(group=g.name, kind=kind, chan=chan, k=k, smode=sm, spad=sp, mask=mask, gmode="rbf", width=0)
            if kind == "lift":
                for chan in CH:
                    add(group=g.name, kind=kind, chan=chan, k=3, smode="bilinear", spad="border", mask=True, gmode="rbf", width=0)
                continue
            for chan, gm, w in itertools.product(CH, ("rbf", "nearest"), (0, 0.6)):
                if gm == "nearest" and w:
                    continue
                k = 2 if g.dim == 2 or kind == "sep" else 1
                add(group=g.name, kind=kind, chan=chan, k=k, smode="bilinear", spad="border", mask=False, gmode=gm, width=w)
            for s in g.sizes:
                add(group=g.name, kind=kind, chan="mix", k=1, smode="bilinear", spad="border", mask=True, gmode="rbf", width=0, default_grid=True, sizes=s)
                if isinstance(s, int) and g.improper:
                    continue
                add(group=g.name, kind=kind, chan="one", k=1, smode="bilinear", spad="border", mask=True, gmode="rbf", width=0, default_grid=False, sizes=s)
    for chan, gm, w, q in itertools.product(CH, ("rbf", "nearest"), (0, 0.7), (False, True)):
        out.append(Case(f"SO3sub:{chan}:{gm}:{w}:{'quat' if q else 'matrix'}", subgroup, chan=chan, gmode=gm, width=w, quat=q))
    return out
