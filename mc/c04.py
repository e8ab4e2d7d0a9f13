"""C04: the layer's output against the definition of the group convolution (loops over taps, channel
groups and group elements, float64), for the whole product of hyper-parameters, on non-square
inputs, with unequal input and output grids."""
import itertools
import numpy as np
import ref
from core import Case, to_np
from lib import BY_NAME, T, set_weights

CHAN = {"c1": (1, 2, 1), "c2": (2, 3, 1), "g2": (4, 6, 2), "dw": (3, 3, 3), "g3": (3, 6, 3), "g2b": (4, 2, 2)}
PM = ("zeros", "reflect", "replicate", "circular")


def expected(kind, layer, x, Hin, Hout, stride, pad, dil, pm, groups):
    """x numpy (N, C, [in_H,] *S)."""
    if kind == "lift":
        w = to_np(layer.kernel(T(Hout)))  # (O, K, C/g, *k)
        y = np.stack([ref.conv(x, w[:, h], stride, pad, dil, groups, pm) for h in range(len(Hout))], 2)
    elif kind == "sep":
        wH, w = layer.kernel(T(Hin), T(Hout))
        n = x.ndim - 3
        wH = to_np(wH).reshape(tuple(wH.shape[:4]))  # (O, out, C/g, in)
        w = to_np(w)  # (O, out, 1, *k)
        O, cg = wH.shape[0], wH.shape[2]
        og = O // groups
        mix = np.stack([np.einsum("kci,nci...->nk...", wH[o], x[:, (o // og) * cg:(o // og + 1) * cg]) for o in range(O)], 1)
        y = np.stack([np.concatenate([ref.conv(mix[:, o:o + 1, h], w[o:o + 1, h], stride, pad, dil, 1, pm) for o in range(O)], 1)
                      for h in range(len(Hout))], 2)
    else:
        w = to_np(layer.kernel(T(Hin), T(Hout)))  # (O, out, C/g, in, *k)
        y = np.stack([sum(ref.conv(x[:, :, i], w[:, h, :, i], stride, pad, dil, groups, pm) for i in range(len(Hin)))
                      for h in range(len(Hout))], 2)
    if layer.bias is not None:
        b = to_np(layer.bias).reshape(-1)
        y = y + b.reshape((1, -1) + (1,) * (y.ndim - 2))
    return y


def tup(v, d):
    return v if isinstance(v, tuple) else (v,) * d


def run(ctx, group, kind, k, pm, chan, geos):
    g = BY_NAME[group]
    d = g.dim
    i, o, gr = CHAN[chan]
    rng = np.random.default_rng(21)
    sizes = [(g.rand(a, rng), g.rand(b, rng)) for a, b in ((2, 3), (2, 2), (3, 1))]
    gks = {"SE2": 3, "E2": (2, 1), "SE3": 3, "E3": (2, 1)}[group]
    kw0 = {} if kind == "lift" else dict(group_sampling_mode="rbf")
    done = 0
    for S, stride, padding, dil, bias in geos:
        if padding == "same" and any(s != 1 for s in tup(stride, d)):
            continue
        pad = ref.resolve_padding(padding, (k,) * d, tup(dil, d))
        if pm == "reflect" and any(max(p) >= s for p, s in zip(pad, S)):
            continue
        if pm == "circular" and any(max(p) > s for p, s in zip(pad, S)):
            continue
        if any(s + sum(p) < dd * (k - 1) + 1 for s, p, dd in zip(S, pad, tup(dil, d))):
            continue
        Hin, Hout = sizes[done % 3]
        layer = g.layer(kind, i, o, k, groups=gr, stride=stride, padding=padding, dilation=dil, padding_mode=pm,
                        bias=bias, group_kernel_size=gks, mask=k != 2, **kw0).double()
        set_weights(layer, ctx.rng)
        x = ctx.rng.normal(size=(2, i) + ((len(Hin),) if kind != "lift" else ()) + S)
        y, Hr = layer(T(x), T(Hout)) if kind == "lift" else layer(T(x), T(Hin), T(Hout))
        want = expected(kind, layer, x, Hin, Hout, tup(stride, d), pad, tup(dil, d), pm, gr)
        ctx.state(); ctx.trace()
        what = f"input {S} stride={stride} padding={padding} dilation={dil} bias={bias}"
        ctx.close(y, want, "not the group convolution", 1e-8, what)
        ctx.same(Hr, Hout, "returned grid", what)
        done += 1
        ctx.outcome(tuple(y.shape))
    ctx.sample({"geometries": done, "chan": CHAN[chan]})


def geometries(d, full):
    if d == 2:
        S = [(5, 4), (7, 6)] if full else [(5, 6)]
        stride, dil = [1, 2, 3, (2, 1), (1, 2)], [1, 2, (1, 2), (2, 1)]
        pad = [0, 1, 2, "same", "valid", (1, 2), (3, 0)]
    else:
        S = [(4, 5, 3)] + ([(5, 5, 6)] if full else [])
        stride, dil = [1, 2, (1, 2, 1), (1, 1, 2)], [1, 2, (2, 1, 1)] + ([(1, 1, 2)] if full else [])
        pad = [0, 1, "same", "valid", (1, 0, 2)] + ([2] if full else [])
    return list(itertools.product(S, stride, pad, dil, (False, True)))


# batch, channels, groups, image, elements in, elements out, reference elements, dtype
WIDE = {2: [(130, 2, 3, 1, (5, 4), 3, 2, 3), (1025, 1, 1, 1, (3, 3), 2, 2, 2), (2, 33, 65, 1, (4, 5), 3, 2, 3), (1, 130, 4, 2, (3, 4), 2, 3, 2),
            (1, 4, 258, 2, (3, 4), 2, 2, 2), (1, 66, 66, 66, (4, 3), 2, 2, 3), (2, 64, 96, 32, (3, 5), 2, 2, 2), (1, 2, 3, 1, (33, 35), 3, 2, 3),
            (1, 1, 2, 1, (3, 130), 2, 2, 3), (1, 1, 2, 1, (130, 3), 2, 2, 3), (1, 1, 1, 1, (65, 129), 2, 1, 2), (2, 2, 4, 2, (4, 3), 17, 18, 3),
            (1, 1, 2, 1, (3, 4), 66, 3, 2), (1, 1, 2, 1, (3, 4), 3, 66, 2), (1, 2, 2, 1, (3, 4), 3, 3, 40), (1, 1, 1, 1, (3, 3), 130, 130, 2),
            (9, 9, 9, 9, (9, 9), 9, 9, 9), (16, 16, 16, 4, (8, 7), 8, 8, 8), (0, 2, 3, 1, (5, 4), 3, 2, 3)],
        3: [(66, 2, 3, 1, (3, 4, 3), 3, 2, 2), (2, 17, 33, 1, (3, 3, 4), 2, 2, 2), (1, 34, 34, 34, (3, 4, 3), 2, 3, 2), (1, 32, 48, 16, (3, 3, 4), 2, 2, 2),
            (1, 1, 2, 1, (3, 3, 66), 2, 2, 2), (1, 1, 2, 1, (3, 66, 3), 2, 2, 2), (1, 1, 2, 1, (66, 3, 3), 2, 2, 2), (1, 1, 1, 1, (17, 19, 18), 2, 2, 2),
            (2, 2, 4, 2, (3, 4, 3), 17, 18, 2), (1, 1, 1, 1, (3, 3, 3), 66, 3, 2), (1, 1, 1, 1, (3, 3, 3), 3, 66, 2), (1, 1, 1, 1, (3, 3, 3), 65, 65, 1),
            (1, 2, 2, 1, (3, 4, 3), 3, 3, 24), (8, 8, 8, 2, (5, 5, 4), 6, 6, 4), (0, 2, 3, 1, (3, 4, 3), 3, 2, 2)]}


def wide(ctx, group, kind, cfg, k, dtype, how):
    """Sizes far from the small ones: big batches, channel counts, images, grids and kernel grids."""
    import torch

    g = BY_NAME[group]
    d = g.dim
    B, i, o, gr, S, ni, no, nr = cfg
    dt = getattr(torch, dtype)
    stride, padding, dil, pm, bias = how
    rng = np.random.default_rng(22)
    Hin, Hout = g.rand(ni, rng), g.rand(no, rng)
    gks = ((nr + 1) // 2, nr // 2) if g.improper else nr
    kw = {} if kind == "lift" else dict(group_sampling_mode="nearest" if nr > 4 or (g.improper and nr > 2) else "rbf")
    layer = g.layer(kind, i, o, k, groups=gr, stride=stride, padding=padding, dilation=dil, padding_mode=pm, bias=bias,
                    group_kernel_size=gks, **kw).to(dt)
    set_weights(layer, ctx.rng)
    x = ctx.rng.normal(size=(B, i) + ((ni,) if kind != "lift" else ()) + S)
    x, Hi, Ho = T(x, dt), T(Hin, dt), T(Hout, dt)
    with torch.no_grad():
        y, Hr = layer(x, Ho) if kind == "lift" else layer(x, Hi, Ho)
        ctx.same(Hr, Ho, "returned grid")
        pad = ref.resolve_padding(padding, (k,) * d, tup(dil, d))
        if dtype == "float32":  # the same kernel values, so that only the convolution itself is compared
            want = expected32(kind, layer, x, Hi, Ho, tup(stride, d), pad, tup(dil, d), pm, gr)
        else:
            want = expected(kind, layer, to_np(x), Hin, Hout, tup(stride, d), pad, tup(dil, d), pm, gr)
    ctx.state(); ctx.trace()
    scale = max(1.0, float(np.abs(want).max())) if want.size else 1.0
    ctx.close(to_np(y).astype(float) / scale, want / scale, "not the group convolution", 1e-8 if dtype == "float64" else 2e-4, str(cfg))
    ctx.outcome(tuple(y.shape))


class _Cast:
    """A layer seen through a float32 kernel: what expected() needs."""

    def __init__(self, layer, Hi, Ho, kind):
        k = layer.kernel(Ho) if kind == "lift" else layer.kernel(Hi, Ho)
        self.kernel = lambda *a: k
        self.bias = layer.bias


def expected32(kind, layer, x, Hi, Ho, *a):
    return expected(kind, _Cast(layer, Hi, Ho, kind), to_np(x).astype(float), to_np(Hi), to_np(Ho), *a)


HOWS = [(1, 0, 1, "zeros", True), (1, 1, 1, "circular", False), (2, 1, 1, "zeros", False), (1, "same", 1, "reflect", True)]


def cases(tier):
    th = tier == "thorough"
    out = []
    for group in ("SE2", "E2", "SE3", "E3"):
        d = BY_NAME[group].dim
        for kind in ("lift", "sep", "conv"):
            chans = list(CHAN) if d == 2 or th else ["c2", "g2", "dw"]
            ks = (1, 2, 3, 4, 5) if d == 2 and th else (1, 2, 3, 4) if d == 2 else (1, 2, 3) if th or group == "SE3" else (3,)
            for k, pm, chan in itertools.product(ks, PM, chans):
                if group in ("E2", "E3") and not th and (chan not in ("c2", "g2") or k not in (2, 3)):
                    continue
                geos = geometries(d, th)
                if group in ("E2", "E3") and not th:
                    geos = geos[::3]
                if d == 3 and not th and kind == "conv":
                    geos = [x for x in geos if x[4]]
                out.append(Case(f"{group}:{kind}:k={k}:{pm}:{chan}", run, group=group, kind=kind, k=k, pm=pm, chan=chan, geos=geos))
    for group in ("SE2", "E2", "SE3", "E3"):
        for kind in ("lift", "sep", "conv"):
            for j, c in enumerate(WIDE[BY_NAME[group].dim]):
                for k, dtype, how in itertools.product((3, 1), ("float64", "float32"), HOWS if th else HOWS[:2]):
                    if k == 1 and how[1] == "same":
                        continue
                    if not th and (k == 1 or dtype == "float32") and how is not HOWS[0]:
                        continue
                    if kind == "lift" and c[5] > 60 and c[6] < 60:
                        continue
                    out.append(Case(f"wide:{group}:{kind}:{j}:k={k}:{dtype}:{HOWS.index(how)}", wide, group=group, kind=kind, cfg=c, k=k, dtype=dtype, how=how))
    return out
