"""Bounded hyper-parameter spaces of the layers, enumerated by number of deviations from the default."""
import itertools
import numpy as np
import ref

MENU = {
    "k": [3, 1, 2, 4, 5],
    "stride": [1, 2, 3],
    "padding": [0, 1, 2, "same", "valid", "tuple"],
    "dilation": [1, 2],
    "padding_mode": ["zeros", "reflect", "replicate", "circular"],
    "chan": ["basis", "c2", "g2", "dw", "g3", "one", "sum"],
    "smode": ["bilinear", "nearest"],
    "spad": ["border", "zeros", "reflection"],
    "mask": [True, False],
    "bias": [False, True],
}
CHAN = {"c2": (2, 3, 1), "g2": (4, 6, 2), "dw": (3, 3, 3), "g3": (3, 6, 3), "one": (1, 1, 1), "sum": (3, 1, 1)}
MENU3 = dict(MENU, k=[3, 1, 2], stride=[1, 2], padding=[0, 1, "same", "tuple"], chan=["basis", "g2", "dw", "one"])


def deviations(menu, bound, extra=()):
    """Every configuration with at most `bound` parameters off their default (first) value."""
    keys = list(menu)
    for nd in range(bound + 1):
        for ks in itertools.combinations(keys, nd):
            for vals in itertools.product(*[menu[k][1:] for k in ks]):
                c = {k: menu[k][0] for k in keys}
                c.update(zip(ks, vals))
                yield c


def padded(menu):
    """Every padding with every padding mode, alone and with one further deviation (a padding mode without padding, or the
    other way round, is a single deviation)."""
    for p, m in itertools.product(menu["padding"][1:], menu["padding_mode"][1:]):
        base = {k: v[0] for k, v in menu.items()} | {"padding": p, "padding_mode": m}
        yield base
        for k in ("k", "stride", "dilation", "chan"):
            for v in menu[k][1:]:
                yield base | {k: v}


def cid(c, menu):
    s = ",".join(f"{k}={c[k]}" for k in menu if c[k] != menu[k][0])
    return s or "default"


def spatial_padding(c, dim):
    p = c["padding"]
    return (1,) * dim if p == "tuple" else p


def geometry(c, dim, symmetric=True, nmin=3):
    """Smallest input size for which the configuration is valid (and lattice-symmetric), or None."""
    k, s, d, p = c["k"], c["stride"], c["dilation"], spatial_padding(c, dim)
    if p == "same" and s != 1:
        return None
    if p == "same" and symmetric and (d * (k - 1)) % 2:
        return None
    lo, hi = ref.resolve_padding(p, (k,), (d,))[0] if not isinstance(p, tuple) else (p[0], p[0])
    pm = c["padding_mode"]
    for n in range(nmin, 12):
        if pm == "reflect" and max(lo, hi) >= n:
            continue
        if pm == "circular" and max(lo, hi) > n:
            continue
        span = n + lo + hi - d * (k - 1) - 1
        if span < 0:
            continue
        if symmetric and span % s:
            continue
        if span // s < 1 and n < 7 and not (k == 1 and s == 1):
            continue
        return n
    return None


def layer_args(c, g, kind, basis, in_ch=1):
    """(in, out, kwargs) for g.layer(kind, in, out, k, **kwargs)."""
    if c["chan"] == "basis":
        i, o, gr = in_ch, basis, 1
    else:
        i, o, gr = CHAN[c["chan"]]
    kw = dict(groups=gr, stride=c["stride"], padding=spatial_padding(c, g.dim), dilation=c["dilation"],
              padding_mode=c["padding_mode"], mask=c["mask"], bias=c["bias"])
    if kind == "lift":
        kw.update(sampling_mode=c["smode"], sampling_padding_mode=c["spad"])
    else:
        kw.update(spatial_sampling_mode=c["smode"], spatial_sampling_padding_mode=c["spad"])
    return i, o, kw


def valid(c, dim, symmetric=True):
    if c["smode"] == "nearest" and c["spad"] == "zeros":
        return False  # the kernel's border coordinates are ties between a weight and the zero outside
    return geometry(c, dim, symmetric) is not None
