"""C21: the product of the constructor arguments of every layer class, passed by keyword and by position, against
the documented meaning computed from reference samplers and loops; the product of invalid arguments with valid
ones; every import order of the package's modules in fresh processes with undeclared packages unavailable."""
import itertools, json, os, subprocess, sys
import numpy as np
import ref
from core import Case, REPO, to_np
from c05 import auto_widths, group_ref, rbf_inf, spatial_ref
from lib import BY_NAME, T, nH, set_weights

SIZES = {"SE2": 3, "E2": (2, 1), "SE3": 4, "E3": (2, 1)}
ORDER = {
    "lift": "in_channels out_channels kernel_size groups stride padding dilation group_kernel_size grid_H padding_mode "
            "permute_output_grid sampling_mode sampling_padding_mode bias mask",
    "gconv": "in_channels out_channels kernel_size group_kernel_size groups stride padding dilation padding_mode permute_output_grid "
             "group_sampling_mode {width} spatial_sampling_mode spatial_sampling_padding_mode mask bias grid_H",
}
DEFAULTS = dict(groups=1, stride=1, padding=0, dilation=1, grid_H=None, padding_mode="zeros", permute_output_grid=True, sampling_mode="bilinear",
                sampling_padding_mode="border", bias=False, mask=True, group_sampling_mode="rbf", spatial_sampling_mode="bilinear",
                spatial_sampling_padding_mode="border", group_sampling_width=0.0, group_rotation_sampling_width=0.0, group_reflection_sampling_width=0.0)


def order(g, kind):
    if kind == "lift":
        return ORDER["lift"].split()
    w = "group_rotation_sampling_width group_reflection_sampling_width" if g.improper else "group_sampling_width"
    return ORDER["gconv"].format(width=w).split()


def cls(g, kind):
    import gconv.gnn as gnn
    return getattr(gnn, {"lift": "GLiftingConv", "sep": "GSeparableConv", "conv": "GConv"}[kind] + g.name)


def positional(g, kind, kw, size):
    vals = dict(DEFAULTS, group_kernel_size=size)
    vals.update(kw)
    return cls(g, kind)(*[vals[n] for n in order(g, kind)])


def kernels(g, kind, layer, refs, Hin, Hout, c, k):
    """The group convolution's weights as the documentation describes them: (o, out, c, [in,] k..)."""
    d, K = g.dim, k ** g.dim
    ps = {n: to_np(p) for n, p in layer.kernel.named_parameters()}
    spat = np.stack([spatial_ref(g, Hout, k, e.reshape((k,) * d), c["smode"], c["spad"], c["mask"]) for e in np.eye(K)])
    if kind == "lift":
        W = ps["weight"]
        return np.einsum("ocp,ph...->ohc...", W.reshape(W.shape[:2] + (K,)), spat)
    widths = [rbf_inf(w) for w in (c["width"] or auto_widths(g, refs))]
    G = group_ref(g, Hin, Hout, refs, c["gmode"], widths)
    if kind == "sep":
        W, S = ps["weight_H"], ps["weight"].reshape(-1, K)
        return np.einsum("doc,khd,op,pk...->okch...", W, G, S, spat)
    W = ps["weight"]
    return np.einsum("docp,khd,pk...->okch...", W.reshape(W.shape[:3] + (K,)), G, spat)


def forward_ref(kind, w, x, stride, pad, dil, pm):
    if kind == "lift":
        return np.stack([ref.conv(x, w[:, h], stride, pad, dil, 1, pm) for h in range(w.shape[1])], 2)
    return np.stack([sum(ref.conv(x[:, :, i], w[:, h, :, i], stride, pad, dil, 1, pm) for i in range(w.shape[3])) for h in range(w.shape[1])], 2)


GEO = ((1, 0, 1, "zeros"), (2, 1, 1, "reflect"), (1, 2, 2, "circular"), (1, "same", 1, "replicate"), (2, "valid", 1, "zeros"), (1, "same", 2, "zeros"))


def effect(ctx, group, kind, smode, spad, mask, gmode):
    """in_channels = 1 or 2 with one output (so stored weights map to connections in one way only)."""
    g = BY_NAME[group]
    d = g.dim
    size = SIZES[group]
    k = 3
    rng = np.random.default_rng(210)
    Hin, Hout = g.rand(2, rng), g.rand(2, rng)
    n = 5 if group == "SE2" else 4
    given = g.rand(n, rng)
    if g.improper:
        given = np.stack(sorted(given, key=lambda h: -h[0]))
    S = (5, 6) if d == 2 else (3, 4, 3)
    for width, use_given, bias, geo, permute in itertools.product((None, (0.5, 0.8)), (False, True), (False, True), range(len(GEO)), (False, True)):
        if kind == "lift" and width or d == 3 and (geo % 2 != int(use_given) or permute and bias):
            continue
        stride, padding, dil, pm = GEO[geo]
        pad = ref.resolve_padding(padding, (k,) * d, (dil,) * d)
        if pm in ("reflect", "circular") and any(max(p) >= s for p, s in zip(pad, S)):
            continue
        if any(s + sum(p) < dil * (k - 1) + 1 for s, p in zip(S, pad)):
            continue
        c = dict(smode=smode, spad=spad, mask=mask, gmode=gmode, width=width)
        kw = dict(group_kernel_size=size, stride=stride, padding=padding, dilation=dil, padding_mode=pm, bias=bias, mask=mask, permute_output_grid=permute)
        if kind == "lift":
            kw.update(sampling_mode=smode, sampling_padding_mode=spad)
        else:
            kw.update(spatial_sampling_mode=smode, spatial_sampling_padding_mode=spad, group_sampling_mode=gmode)
            if width:
                kw.update(dict(group_rotation_sampling_width=width[0], group_reflection_sampling_width=width[1]) if g.improper else dict(group_sampling_width=width[0]))
        if use_given:
            kw["grid_H"] = T(given)
        i, o = (2, 1) if (geo + bias) % 2 else (1, 2)
        what = f"in={i} out={o} width={width} given={use_given} bias={bias} {GEO[geo]} permute={permute}"
        a = cls(g, kind)(i, o, k, **kw).double()
        b = positional(g, kind, dict(kw, in_channels=i, out_channels=o, kernel_size=k), size).double()
        set_weights(a, ctx.rng)
        ctx.check(sorted(a.state_dict()) == sorted(b.state_dict()), "arguments by position", what)
        b.load_state_dict(a.state_dict())
        refs = to_np(a.kernel.grid_H)
        if use_given:
            ctx.same(refs, given, "provided grid is not the reference grid", what)
        ctx.check((a.bias is not None) == bias, "bias", what)
        x = ctx.rng.normal(size=(2, i) + ((len(Hin),) if kind != "lift" else ()) + S)
        call = lambda l: l(T(x), T(Hout)) if kind == "lift" else l(T(x), T(Hin), T(Hout))
        import torch
        torch.manual_seed(211)
        y, Hy = call(a)
        torch.manual_seed(211)
        yb, Hb = call(b)
        ctx.close(yb, y, "arguments by position", 1e-12, what)
        ctx.same(Hb, to_np(Hy), "arguments by position", what)
        H = to_np(Hy)
        if permute:
            if not ctx.check(H.shape == Hout.shape and np.abs(H - Hout).max() > 1e-6, "output grid is not permuted", what):
                continue
        else:
            ctx.same(H, Hout, "output grid is permuted", what)
        if smode == "nearest" and tie(g, H, k, spad):
            ctx.outcome("tie"); continue
        if kind != "lift" and gmode == "nearest" and group_tie(g, Hin, H, refs):
            ctx.outcome("tie"); continue
        want = forward_ref(kind, kernels(g, kind, a, refs, Hin, H, c, k), x, (stride,) * d, pad, (dil,) * d, pm)
        if bias:
            ctx.check(a.bias.numel() == o, "one bias value per output channel", f"{what}: {tuple(a.bias.shape)}")
            want = want + to_np(a.bias).reshape((1, -1) + (1,) * (want.ndim - 2))
        ctx.close(y, want, "arguments do not have their documented effect", 2e-2 if d == 3 and not use_given else 1e-4, what)
        ctx.state(); ctx.trace()


def tie(g, H, k, pad):
    import c05
    return c05.tie(g, H, k, "nearest", pad)


def group_tie(g, Hin, Hout, refs):
    rel = np.concatenate([g.mul(x, Hin) for x in g.inv(Hout)])
    D = np.sort(g.dist(rel, refs), 1)
    if D.shape[1] < 2:
        return False
    a, b = D[:, 0], D[:, 1]
    return bool((np.where(np.isfinite(b), b, 9) - np.where(np.isfinite(a), a, 0)).min() < 1e-3)


def sizes(ctx, group, kind):
    """Group kernel sizes, grids overriding them, and integers standing for pairs."""
    import torch

    g = BY_NAME[group]
    rng = np.random.default_rng(212)
    d = g.dim
    S = (4,) * d
    par = lambda l: {n: tuple(p.shape) for n, p in l.named_parameters()}
    grid = lambda l: to_np(l.kernel.grid_H)
    mk = lambda sz, **kw: g.layer(kind, 1, 2, 3, group_kernel_size=sz, **kw)
    menu = (1, 2, 3, 4, 5, 8) if not g.improper else ((1, 1), (2, 2), (3, 1), (1, 3), (4, 4), (2, 0), (0, 2))
    for sz in menu:
        l = mk(sz)
        m = nH(g, sz)
        ctx.check(grid(l).shape == (m,) + g.shape(), "group kernel size", f"{sz}: grid {grid(l).shape}")
        if kind != "lift":
            wn = "kernel.weight_H" if kind == "sep" else "kernel.weight"
            ctx.check(par(l)[wn][0] == m or m in par(l)[wn], "group kernel size", f"{sz}: {par(l)}")
            ctx.check(int(np.prod(par(l)[wn])) == m * 2 * (1 if kind == "sep" else 3 ** d), "group kernel size", f"{sz}: {par(l)}")
        if g.improper:
            det = grid(l)[:, 0]
            ctx.check((det == 1).sum() == sz[0] and (det == -1).sum() == sz[1], "(rotations, reflections)", f"{sz}: {det}")
            if sz[0] == sz[1]:
                i = mk(sz[0])
                ctx.check(par(i) == par(l), "an integer size means that size for rotations and reflections", f"{sz}")
                ctx.same(grid(i), grid(l), "an integer size means that size for rotations and reflections", str(sz))
                torch.manual_seed(1); a = mk(sz[0])
                torch.manual_seed(1); b = mk(sz)
                x = T(ctx.rng.normal(size=(1, 1) + ((m,) if kind != "lift" else ()) + S)).float()
                args = (x,) if kind == "lift" else (x, T(grid(a)).float())
                ctx.close(a(*args)[0], b(*args)[0], "an integer size means that size for rotations and reflections", 1e-6, str(sz))
        ctx.state()
        # a provided grid overrides whatever size is given
        for n in (1, 2, 3, 5):
            splits = [None] if not g.improper else [(a, n - a) for a in range(n + 1)]
            for sp in splits:
                G = g.rand(2 * n, rng)
                if sp:
                    G = np.concatenate([G[G[:, 0] == 1][:sp[0]], G[G[:, 0] == -1][:sp[1]]])
                else:
                    G = G[:n]
                l = mk(sz, grid_H=T(G).float())
                ctx.close(grid(l), G, "provided grid is not the reference grid", 1e-6, f"size {sz}, grid {n} {sp}")
                if kind != "lift":
                    wn = "kernel.weight_H" if kind == "sep" else "kernel.weight"
                    ctx.check(int(np.prod(par(l)[wn])) == n * 2 * (1 if kind == "sep" else 3 ** d), "a provided grid overrides the size", f"size {sz}, grid {n} {sp}: {par(l)}")
                x = T(ctx.rng.normal(size=(1, 1) + ((n,) if kind != "lift" else ()) + S)).float()
                y, H = l(x) if kind == "lift" else l(x, T(G).float())
                ctx.check(y.shape[:3] == (1, 2, n), "a provided grid overrides the size", f"size {sz}, grid {n} {sp}: output {tuple(y.shape)}")
                ctx.check(bool(np.isfinite(to_np(y)).all()) and (float(y.detach().abs().max()) > 0 or bool(sp) and kind != "lift" and not sp[0]), "provided grid", f"size {sz}, grid {n} {sp}: no finite response")
                ctx.close(H, G, "output grid", 1e-6, f"size {sz}, grid {n} {sp}")
                ctx.state()
    ctx.trace()


def defaults(ctx, group, kind):
    """Leaving an argument out equals passing its documented default; every subset of two arguments given."""
    import torch

    g = BY_NAME[group]
    d = g.dim
    S = (4,) * d
    size = (4, 4) if g.improper else 4
    names = [n for n in order(g, kind) if n not in ("in_channels", "out_channels", "kernel_size")]
    need = {"group_kernel_size"} if g.improper and kind != "lift" else set()
    vals = dict(DEFAULTS, group_kernel_size=size)
    x = T(ctx.rng.normal(size=(1, 2) + ((2,) if kind != "lift" else ()) + S)).float()
    H = T(g.rand(2, np.random.default_rng(213))).float()

    def run(kw):
        torch.manual_seed(4)
        l = cls(g, kind)(2, 2, 3, **kw)
        y, h = l(x) if kind == "lift" else l(x, H)
        return y, h
    want = run({n: vals[n] for n in names})
    for r in (0, 1, 2):
        for sub in itertools.combinations(names, r):
            kw = {n: vals[n] for n in set(sub) | need}
            got = run(kw)
            ctx.close(got[0], want[0], "defaults are not the documented ones", 1e-6, f"given only {sub}")
            ctx.close(got[1], want[1], "defaults are not the documented ones", 1e-6, f"given only {sub}")
            ctx.state()
    # per-axis tuples mean the same as one number
    for n, v in (("stride", 2), ("padding", 1), ("dilation", 2)):
        base = {m: vals[m] for m in need}
        base["padding"] = 1
        torch.manual_seed(4); a = cls(g, kind)(2, 2, 3, **dict(base, permute_output_grid=False, **({n: v} if n != "padding" else {})))
        torch.manual_seed(4); b = cls(g, kind)(2, 2, 3, **dict(base, permute_output_grid=False, **{n: (v,) * d}))
        args = (x,) if kind == "lift" else (x, H)
        ctx.close(b(*args)[0], a(*args)[0], "a number means that number for every axis", 1e-6, n)
        ctx.state()
    ctx.trace()


def bases(ctx, group, kind):
    """The layers for one's own kernels, and the kernels themselves: leaving arguments out equals passing their defaults, by
    keyword and by position, and both equal the group's layer."""
    import torch
    import gconv.gnn as gnn
    from gconv.gnn import kernels as K
    from gconv.gnn.modules import gconv as M

    g = BY_NAME[group]
    d = g.dim
    size = SIZES[group]
    kn = {"lift": "Lifting", "sep": "Separable", "conv": ""}[kind]
    kc = getattr(K, f"G{kn}Kernel{group}")
    rng = np.random.default_rng(214)
    Hi, Ho = T(g.rand(2, rng)).float(), T(g.rand(3, rng)).float()
    x = T(rng.normal(size=(1, 2) + ((2,) if kind != "lift" else ()) + (6,) * d)).float()
    knames = ["group_kernel_size", "groups"] + (["sampling_mode", "sampling_padding_mode"] if kind == "lift" else
             ["group_sampling_mode"] + (["group_rotation_sampling_width", "group_reflection_sampling_width"] if g.improper else ["group_sampling_width"])
             + ["spatial_sampling_mode", "spatial_sampling_padding_mode"]) + ["mask", "grid_H"]
    vals = dict(DEFAULTS, group_kernel_size=size)

    def kernel(*a, **k):
        torch.manual_seed(5)
        return kc(2, 4, 3, *a, **k)

    def sample(k):
        w = k(Ho) if kind == "lift" else k(Hi, Ho)
        return np.concatenate([to_np(v).ravel() for v in (w if isinstance(w, tuple) else (w,))])
    want = sample(kernel(**{n: vals[n] for n in knames}))
    ctx.close(sample(kernel(*[vals[n] for n in knames])), want, "arguments of the kernel by position", 1e-6)
    for r in (0, 1, 2):
        for sub in itertools.combinations(knames[1:], r):
            ctx.close(sample(kernel(size, **{n: vals[n] for n in sub})), want, "defaults of the kernel are not the documented ones", 1e-6, f"given only {sub}")
            ctx.state()
    names = ["groups", "stride", "padding", "dilation", "padding_mode", "bias"]
    given = dict(groups=2, stride=2, padding=1, dilation=2, padding_mode="reflect", bias=True)
    for which in (f"{d}d", "Nd"):
        bc = getattr(gnn, f"G{kn}Conv{which}") if which != "Nd" else getattr(M, f"G{kn}ConvNd")
        order_ = names if which != "Nd" else names[:-1] + ["conv_mode", "bias"]
        ks = 3 if which != "Nd" else (3,) * d
        must = {} if which != "Nd" or d == 3 else dict(conv_mode="2d")

        def base(kw, pos=False):
            k = kernel(size, groups=kw.get("groups", 1))
            torch.manual_seed(6)
            if pos:
                l = bc(2, 4, ks, size, k, *[kw[n] for n in order_])
            else:
                l = bc(2, 4, ks, size, k, **kw)
            return l, to_np((l(x, Ho) if kind == "lift" else l(x, Hi, Ho))[0])
        full = dict({n: DEFAULTS[n] for n in names}, conv_mode=f"{d}d")
        full = {n: full[n] for n in order_}
        _, want = base(full)
        own = g.layer(kind, 2, 4, 3, group_kernel_size=size, permute_output_grid=False)
        l, _ = base(full)
        own.load_state_dict(l.state_dict())
        ctx.close((own(x, Ho) if kind == "lift" else own(x, Hi, Ho))[0], want, "the group's layer is the general one with the group's kernel", 1e-5, which)
        for r in (0, 1, 2):
            for sub in itertools.combinations(order_, r):
                ctx.close(base(dict(must, **{n: full[n] for n in sub}))[1], want, "defaults are not the documented ones", 1e-6, f"{which} given only {sub}")
                ctx.state()
        for r in (1, 2, len(names)):
            for sub in itertools.combinations(names, r):
                kw = dict(full, **{n: given[n] for n in sub})
                a, ya = base(dict(must, **{n: given[n] for n in sub}))
                ctx.close(base(kw, True)[1], ya, "arguments by position", 1e-6, f"{which} {sub}")
                o = g.layer(kind, 2, 4, 3, group_kernel_size=size, permute_output_grid=False, **{n: given[n] for n in sub})
                o.load_state_dict(a.state_dict())
                ctx.close((o(x, Ho) if kind == "lift" else o(x, Hi, Ho))[0], ya, "the group's layer is the general one with the group's kernel", 1e-5, f"{which} {sub}")
                ctx.state()
    ctx.trace()


INVALID = {
    "groups in": dict(_ch=(3, 4, 2)), "groups out": dict(_ch=(4, 3, 2)), "groups both": dict(_ch=(3, 5, 2)), "groups 0": dict(_ch=(2, 2, 0)), "groups -1": dict(_ch=(2, 2, -1)),
    "more groups": dict(_ch=(2, 2, 4)),
    "padding string": dict(padding="full"), "padding upper": dict(padding="SAME"), "padding empty": dict(padding=""),
    "same stride": dict(padding="same", stride=2), "same stride axis": dict(padding="same", _stride_axis=-1), "same stride first axis": dict(padding="same", _stride_axis=0),
    "padding mode": dict(padding_mode="mirror"), "padding mode constant": dict(padding_mode="constant"), "padding mode reflection": dict(padding_mode="reflection"),
    "size 0": dict(_size=0), "size -1": dict(_size=-1),
    "sampling mode": dict(_smode="cubic"), "sampling padding": dict(_spad="wrap"), "group mode": dict(_gmode="linear"),
    "size (0, 0)": dict(_size=(0, 0)), "size (-1, 2)": dict(_size=(-1, 2)), "size (2, -1)": dict(_size=(2, -1)),
}


def invalid(ctx, group, kind, name):
    """An invalid argument among every pair of valid deviations: the layer must refuse, at the latest when called."""
    g = BY_NAME[group]
    d = g.dim
    bad = dict(INVALID[name])
    ch = bad.pop("_ch", (2, 2, 1))
    size = bad.pop("_size", SIZES[group])
    ax = bad.pop("_stride_axis", None)
    if ax is not None:
        s = [1] * d
        s[ax] = 2
        bad["stride"] = tuple(s)
    for a, b in (("_smode", "sampling_mode"), ("_spad", "sampling_padding_mode")):
        if a in bad:
            bad[b if kind == "lift" else "spatial_" + b] = bad.pop(a)
    if "_gmode" in bad:
        bad["group_sampling_mode"] = bad.pop("_gmode")
    valid = {"padding_mode": ["reflect", "replicate", "circular"], "padding": [1, "valid", "same"], "stride": [2], "dilation": [2], "bias": [True], "mask": [False],
             "permute_output_grid": [False], "kernel_size": [1, 2, 5]}
    if kind == "lift":
        valid["sampling_mode"] = ["nearest"]
    else:
        valid["group_sampling_mode"] = ["nearest"]
        valid["spatial_sampling_mode"] = ["nearest"]
    keys = [k for k in valid if k not in bad]
    H = T(g.rand(2, ctx.rng)).float()
    # enough weights to be accepted by a layer that ignores the argument
    x = T(ctx.rng.normal(size=(1, ch[0]) + ((2,) if kind != "lift" else ()) + (9 if d == 2 else 5,) * d)).float()
    refused = 0
    for r in (0, 1, 2):
        for ks in itertools.combinations(keys, r):
            for vs in itertools.product(*[valid[k] for k in ks]):
                kw = dict(bad, **dict(zip(ks, vs)))
                k = kw.pop("kernel_size", 3)
                if kw.get("padding") == "same" and kw.get("stride", 1) != 1 and "same" not in name and "padding" not in name:
                    continue
                if kw.get("dilation", 1) * (k - 1) >= x.shape[-1] - 1:
                    continue

                def build_and_run():
                    l = g.layer(kind, ch[0], ch[1], k, groups=ch[2], group_kernel_size=size, **kw)
                    return l(x, H) if kind == "lift" else l(x, H)
                if ctx.raises(build_and_run, "invalid arguments accepted", f"{name} {ch} size={size} {kw} k={k}"):
                    refused += 1
                ctx.state()
    ctx.outcome((name, refused > 0))
    ctx.trace()


def accepted(ctx, group, kind):
    """The neighbours of the invalid arguments are accepted."""
    import torch

    g = BY_NAME[group]
    d = g.dim
    H = T(g.rand(2, ctx.rng)).float()
    for ch, pm, p, s, sz in itertools.product(((2, 2, 1), (4, 2, 2), (3, 6, 3), (2, 2, 2)), ("zeros", "reflect", "replicate", "circular"), (0, 1, "same", "valid", (1,) * d), (1, 2, (1,) * d),
                                              (1, 2) if not g.improper else (1, (1, 0), (0, 1), (2, 1))):
        if p == "same" and s == 2:
            continue
        x = T(ctx.rng.normal(size=(1, ch[0]) + ((2,) if kind != "lift" else ()) + (4,) * d)).float()
        try:
            y, _ = g.layer(kind, ch[0], ch[1], 3, groups=ch[2], padding_mode=pm, padding=p, stride=s, group_kernel_size=sz)(x, H)
            n = {0: 2, "valid": 2}.get(p if not isinstance(p, tuple) else None, 4)
            n = n if s != 2 else {2: 1, 4: 2}[n]
            m = nH(g, sz) if g.improper and kind != "lift" else 2  # the default output grid
            if p in (0, "same") and s == 1:  # a bias: one free value for every output channel
                b = g.layer(kind, ch[0], ch[1], 3, groups=ch[2], padding_mode=pm, padding=p, group_kernel_size=sz, bias=True, permute_output_grid=False)
                a = g.layer(kind, ch[0], ch[1], 3, groups=ch[2], padding_mode=pm, padding=p, group_kernel_size=sz, permute_output_grid=False)
                a.load_state_dict({k: v for k, v in b.state_dict().items() if k != "bias"})
                vals = torch.arange(1.0, ch[1] + 1) * 7
                with torch.no_grad():
                    b.bias.view(-1).copy_(vals)
                D = to_np(b(x, H)[0]) - to_np(a(x, H)[0])
                ctx.close(D, np.broadcast_to(vals.numpy().reshape((1, -1) + (1,) * (D.ndim - 2)), D.shape), "bias", 1e-4, f"{ch} {pm} {p} {sz}")
            ctx.check(tuple(y.shape) == (1, ch[1], m) + (n,) * d, "output shape", f"{ch} {pm} {p} {s} {sz}: {tuple(y.shape)}")
        except Exception as e:
            ctx.fail("valid arguments refused", f"{ch} {pm} {p} {s} {sz}: {type(e).__name__} {e}")
        ctx.state()
    ctx.trace()


DOCUMENTED = {
    "gconv.gnn": [f"G{k}Conv{g}" for k in ("Lifting", "Separable", "") for g in ("SE2", "SE3", "E2", "E3", "2d", "3d")]
    + [f"G{m}{d}d" for m in ("MaxSpatialPool", "AvgSpatialPool", "AdaptiveMaxSpatialPool", "AdaptiveAvgSpatialPool", "BatchNorm", "InstanceNorm") for d in (2, 3)]
    + ["GMaxGroupPool", "GMaxGlobalPool", "GAvgGroupPool", "GAvgGlobalPool", "GLayerNorm", "GWrap", "GReLU", "GGELU", "GLeakyReLU"],
    "gconv.gnn.kernels": ["GroupKernel", "GKernel", "GSeparableKernel", "GLiftingKernel", "GSubgroupKernel", "GSubgroupKernelSO3"]
    + [f"G{k}Kernel{g}" for k in ("Lifting", "Separable", "") for g in ("SE2", "SE3", "E2", "E3")],
    "gconv.gnn.functional": ["create_grid_R2", "create_grid_R3", "create_spherical_mask_R2", "create_spherical_mask_R3", "grid_sample"],
    "gconv.geometry": ["so2", "o2", "so3", "o3"],
    "gconv.geometry.groups": ["so2", "o2", "so3", "o3"],
    "gconv.geometry.repulsion": ["repulse"],
    "gconv.geometry.interpolation": ["interpolate_RBF", "interpolate_NN"],
    "gconv.geometry.groups.s2": [],
    "gconv": ["gnn", "geometry"],
}

CHILD = r'''
import builtins, importlib, itertools, json, os, sys, warnings
warnings.filterwarnings("ignore")
repo, jobs, documented = json.loads(sys.stdin.read())
sys.path.insert(0, repo)
sys.dont_write_bytecode = True
import torch, tqdm, torch.nn, torch.nn.functional, torch.nn.modules.utils
torch.set_num_threads(1)
assert not any(m == "gconv" or m.startswith("gconv.") for m in sys.modules)
real = builtins.__import__
allowed = set(sys.stdlib_module_names) | {"torch", "tqdm", "gconv"}

def guarded(name, globals=None, locals=None, fromlist=(), level=0):
    if globals and str(globals.get("__name__", "")).split(".")[0] == "gconv" and level == 0 and name.split(".")[0] not in allowed:
        raise ImportError(f"{globals['__name__']} imports undeclared package {name}")
    return real(name, globals, locals, fromlist, level)

builtins.__import__ = guarded

def do(job):
    kind = job[0]
    if kind == "imports":
        for m in job[1]:
            importlib.import_module(m)
    elif kind == "star":
        ns = {}
        exec(f"from {job[1]} import *", ns)
    elif kind == "names":
        m = importlib.import_module(job[1])
        missing = [n for n in job[2] if not hasattr(m, n)]
        for n in job[2]:
            if n in missing: continue
            ns = {}
            exec(f"from {job[1]} import {n}", ns)
        assert not missing, f"{job[1]} lacks {missing}"
    elif kind == "readme":
        import gconv.gnn as gnn
        x1 = torch.randn(2, 3, 7, 7, 7)
        lifting_layer = gnn.GLiftingConvSE3(in_channels=3, out_channels=4, kernel_size=3)
        gconv_layer = gnn.GSeparableConvSE3(in_channels=4, out_channels=5, kernel_size=3)
        pool = gnn.GAvgGlobalPool()
        x2, H1 = lifting_layer(x1)
        x3, H2 = gconv_layer(x2, H1)
        y = pool(x3, H2)
        assert y.shape[:2] == (2, 5) and y.numel() == 10, y.shape
        assert x2.shape == (2, 4, 4, 5, 5, 5) and x3.shape == (2, 5, 4, 3, 3, 3)
    elif kind == "use":
        # functions that import what they need when they run
        import gconv.gnn as gnn
        from gconv.geometry import so3, o3, so2, o2, repulsion
        from gconv.geometry.groups import s2
        for g in ("SE2", "E2", "SE3", "E3"):
            d = int(g[-1])
            kw = dict(group_kernel_size=2)
            l, s, c = (getattr(gnn, f"G{k}Conv{g}") for k in ("Lifting", "Separable", ""))
            x, H = l(1, 1, 3, **kw)(torch.randn(1, 1, *(7,) * d))
            x, H = s(1, 1, 3, **kw)(x, H)
            x, H = c(1, 1, 3, **kw)(x, H)
        for f in ("quat", "euler", "matrix"):
            so3.uniform_grid(26, f)
    else:
        raise KeyError(kind)

out = []
for job in jobs:
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        try:
            sys.stderr = open(os.devnull, "w")
            do(job)
            msg = ""
        except BaseException as e:
            msg = f"{type(e).__name__}: {e}"
        os.write(w, msg.encode()[:3000])
        os._exit(0)
    os.close(w)
    data = b""
    while True:
        b = os.read(r, 65536)
        if not b: break
        data += b
    os.close(r)
    os.waitpid(pid, 0)
    out.append(data.decode())
print(json.dumps(out))
'''


def module_names():
    out = []
    base = os.path.join(REPO, "gconv")
    for root, dirs, files in os.walk(base):
        dirs[:] = sorted(d for d in dirs if d not in ("tests", "__pycache__"))
        for f in sorted(files):
            if f.endswith(".py"):
                rel = os.path.relpath(os.path.join(root, f), REPO)[:-3].replace(os.sep, ".")
                out.append(rel[:-len(".__init__")] if rel.endswith(".__init__") else rel)
    return out


def imports(ctx, jobs):
    env = {k: v for k, v in os.environ.items() if k != "PYTHONPATH"}
    p = subprocess.run([sys.executable, "-c", CHILD], input=json.dumps([REPO, jobs, DOCUMENTED]), capture_output=True, text=True, env=env, cwd="/")
    if p.returncode:
        raise RuntimeError(p.stderr[-800:])
    for job, msg in zip(jobs, json.loads(p.stdout)):
        ctx.check(not msg, "import fails" if job[0] in ("imports", "star") else "documented names", f"{job[:2]}: {msg}")
        ctx.state(); ctx.trace()


def cases(tier):
    th = tier == "thorough"
    out = []
    for group, kind in itertools.product(BY_NAME, ("lift", "sep", "conv")):
        spads = ("border", "zeros", "reflection")
        for smode, spad, mask, gmode in itertools.product(("bilinear", "nearest"), spads, (True, False), ("rbf", "nearest") if kind != "lift" else ("",)):
            if (smode, spad) == ("nearest", "zeros"):
                continue
            if BY_NAME[group].dim == 3 and not th and (spad == "reflection" or group == "E3" and kind == "conv" and not mask):
                continue
            out.append(Case(f"{group}:{kind}:effect:{smode}:{spad}:{mask}:{gmode}", effect, group=group, kind=kind, smode=smode, spad=spad, mask=mask, gmode=gmode))
        for f in (sizes, defaults, bases, accepted):
            out.append(Case(f"{group}:{kind}:{f.__name__}", f, group=group, kind=kind))
        for name in INVALID:
            if isinstance(INVALID[name].get("_size"), tuple) and not BY_NAME[group].improper or name == "group mode" and kind == "lift":
                continue
            out.append(Case(f"{group}:{kind}:invalid:{name}", invalid, group=group, kind=kind, name=name))
    mods = module_names()
    pairs = [["imports", list(p)] for p in itertools.permutations(mods, 2)] if th else [["imports", [m]] for m in mods]
    # quick: pairs of entry modules that reach different halves of the package first
    if not th:
        entry = [m for m in mods if m.count(".") <= 2]
        pairs += [["imports", list(p)] for p in itertools.permutations(entry, 2)]
    for i in range(0, len(pairs), 60):
        out.append(Case(f"imports:{i // 60}", imports, jobs=pairs[i:i + 60]))
    out.append(Case("names", imports, jobs=[["names", m, ns] for m, ns in DOCUMENTED.items()] + [["star", m] for m in DOCUMENTED] + [["readme"], ["use"]]))
    return out
