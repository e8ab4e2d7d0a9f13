"""C06: all orderings, restrictions and repetitions (sequences) of the output grid, all orderings of the
input grid, default grids, and grid permutation under every answer of the random generator's menu."""
import itertools
import numpy as np
import ref
from core import Case, to_np
from lib import BY_NAME, GROUPS, T, set_weights
from rng import Answers, UNIFORM, NORMAL

CONF = {
    "plain": dict(),
    "strided": dict(groups=2, stride=2, padding=1, bias=True, _io=(2, 4)),
    "nearest": dict(_nearest=True, bias=True, _io=(1, 2)),
    "circular": dict(padding="same", padding_mode="circular", _io=(3, 3), groups=3),
}
GKS = {"SE2": 4, "E2": (3, 2), "SE3": 4, "E3": (3, 2)}


def make(g, kind, conf, permute=False, **more):
    c = dict(CONF[conf])
    i, o = c.pop("_io", (2, 3))
    if c.pop("_nearest", False) and kind != "lift":
        c["group_sampling_mode"] = "nearest"
    return g.layer(kind, i, o, 3, group_kernel_size=GKS[g.name], permute_output_grid=permute, **c, **more).double(), i


def call(layer, kind, x, Hin, Hout):
    if kind == "lift":
        return layer(x) if Hout is None else layer(x, Hout)
    return layer(x, Hin) if Hout is None else layer(x, Hin, Hout)


def setup(ctx, group, kind, conf, permute=False, nin=3):
    g = BY_NAME[group]
    layer, i = make(g, kind, conf, permute)
    set_weights(layer, ctx.rng)
    rng = np.random.default_rng(61)
    Hin = g.rand(nin, rng)
    S = (5, 4) if g.dim == 2 else (3, 4, 3)
    x = ctx.rng.normal(size=(2, i) + ((nin,) if kind != "lift" else ()) + S)
    return g, layer, Hin, x


def orders(ctx, group, kind, conf, n, length):
    g, layer, Hin, x = setup(ctx, group, kind, conf)
    rng = np.random.default_rng(62)
    base = np.concatenate([g.rand(n - 1, rng), np.stack([g.lattice()[-1][0]])])
    ti, tx = T(Hin), T(x)
    y0, H0 = call(layer, kind, tx, ti, T(base))
    y0 = to_np(y0)
    ctx.same(H0, base, "returned grid", "requested grid")
    ctx.check(y0.shape[2] == n, "group axis", str(y0.shape))
    ctx.check(all(np.abs(y0[:, :, a] - y0[:, :, b]).max() > 1e-6 for a, b in itertools.combinations(range(n), 2)), "slices identical", "every output element gives the same features")
    for L in range(1, length + 1):
        for seq in itertools.product(range(n), repeat=L):
            seq = list(seq)
            y, H = call(layer, kind, tx, ti, T(base[seq]))
            ctx.state()
            ctx.same(H, base[seq], "returned grid", str(seq))
            ctx.close(y, y0[:, :, seq], "slice does not follow its element", 1e-9, f"output order {seq}")
            ctx.trace()
    if kind != "lift":
        for p in itertools.permutations(range(len(Hin))):
            p = list(p)
            y, _ = call(layer, kind, T(x[:, :, p]), T(Hin[p]), T(base))
            ctx.state()
            ctx.close(y, y0, "depends on the input order", 1e-9, f"input order {p}")
            ctx.trace()
        # a repeated input element is a sum: slices h, h with values a, b act like one slice a + b
        for a in range(len(Hin)):
            idx = list(range(len(Hin))) + [a]
            x2 = x[:, :, idx].copy()
            x2[:, :, a] *= 0.25
            x2[:, :, -1] *= 0.75
            y, _ = call(layer, kind, T(x2), T(Hin[idx]), T(base))
            ctx.state()
            ctx.close(y, y0, "repeated input element", 1e-9, f"element {a} split in two slices")
    ctx.sample({"elements": n, "sequence length": length})


def large(ctx, group, kind, nin, nout):
    """Grids far from the small ones: orders, parts and repetitions."""
    g, layer, Hin, x = setup(ctx, group, kind, "plain", nin=nin)
    rng = np.random.default_rng(64)
    H = g.rand(nout, rng)
    tx, ti = T(x), T(Hin)
    y0, H0 = call(layer, kind, tx, ti, T(H))
    y0 = to_np(y0)
    ctx.same(H0, H, "returned grid")
    scale = np.abs(y0).max()
    n = np.arange(nout)
    sub = [n[::-1], np.roll(n, 1), np.roll(n, -(nout // 2)), rng.permutation(nout), n[::2], n[1::2], n[nout // 2:], n[:nout // 2 + 1],
           np.repeat(n, 2), np.tile(n, 2), rng.integers(0, nout, nout + 7), np.zeros(nout, int), np.sort(rng.integers(0, nout, 33))] + [[int(i)] for i in n[::max(1, nout // 9)]]
    for s in sub:
        s = list(map(int, s))
        if not s:
            continue
        y, Hr = call(layer, kind, tx, ti, T(H[s]))
        ctx.state()
        ctx.same(Hr, H[s], "returned grid", f"{nout} elements, order {s[:6]}...")
        ctx.close(to_np(y) / scale, y0[:, :, s] / scale, "slice does not follow its element", 1e-9, f"{nout} elements, order {s[:6]}...")
    if kind != "lift":
        n = np.arange(nin)
        for p in (n[::-1], np.roll(n, 1), rng.permutation(nin)):
            y, _ = call(layer, kind, T(x[:, :, p]), T(Hin[p]), T(H))
            ctx.state()
            ctx.close(to_np(y) / scale, y0 / scale, "depends on the input order", 1e-9, f"{nin} elements")
    ctx.trace()


def sizes(ctx, group, kind, special):
    """Default and returned grids for every number of input and requested elements, with and without special
    elements and permutation; torch's own generator answers."""
    import torch

    for nin, conf, permute in itertools.product((3,) if kind == "lift" else (1, 2, 3, 4, 5, 6, 7, 8, 12), ("plain", "nearest"), (False, True)):
        g, layer, Hin, x = setup(ctx, group, kind, conf, permute, nin)
        plain = make(g, kind, conf, False)[0]
        plain.load_state_dict(layer.state_dict())
        own = to_np(layer.kernel.grid_H)
        L = [m[0] for m in g.lattice()]
        if special:
            Hin = np.stack([L[(5 * i) % len(L)] for i in range(nin)])
        for nout in (None, 1, 2, 4, 6, 8, len(own)):
            rng = np.random.default_rng(65)
            Hout = None if nout is None else np.stack([L[(3 * i) % len(L)] for i in range(nout)]) if special else g.rand(nout, rng)
            src = Hout if Hout is not None else own if kind == "lift" or g.improper else Hin
            tol = 2e-3 if g.dim == 3 and Hout is None and (kind == "lift" or g.improper) else 1e-5
            torch.manual_seed(nin)
            what = f"{nin} -> {nout}, permute {permute}, {conf}"
            y, H = call(layer, kind, T(x), T(Hin), None if Hout is None else T(Hout))
            ctx.state()
            Hn = to_np(H)
            if not ctx.check(Hn.shape == src.shape and np.isfinite(Hn).all(), "default grid shape", f"{what}: {Hn.shape}"):
                continue
            if permute:
                e = g.mul(Hn[0], g.inv(src[:1]))[0]
                ctx.close(np.stack([g.act(h) for h in Hn]), np.stack([g.act(h) for h in g.mul(e, src)]), "not one group element", tol, what)
            else:
                ctx.same(H, src, "default grid" if Hout is None else "returned grid", what)
            y2, _ = call(plain, kind, T(x), T(Hin), H)
            ctx.close(y, y2, "default grid features", 1e-8, what)
    ctx.trace()


def use(g, kind, i):
    """Something a program may do between two calls of a layer."""
    import torch
    from gconv.geometry import so2, o2, so3, o3

    if i % 3 == 0:
        if g.dim == 3:
            so3.uniform_grid(26, "matrix", steps=0, show_pbar=False)
            o3.random_grid((2, 1))
        else:
            so2.uniform_grid(5); o2.uniform_grid((2, 3)); so2.random_grid(3)
    elif i % 3 == 1:
        l = make(g, kind, "plain", True)[0].float()
        x = torch.ones(1, 2, *(() if kind == "lift" else (2,)), *(4,) * g.dim)
        with torch.no_grad():
            call(l, kind, x, T(g.rand(2, np.random.default_rng(66))).float(), None)
        l.state_dict()


def defaults(ctx, group, kind, conf):
    """Default grids, and grid permutation under every random answer."""
    import torch

    for permute, train in itertools.product((False, True), (True, False)):
        g, layer, Hin, x = setup(ctx, group, kind, conf, permute)
        layer.train(train)
        plain = make(g, kind, conf, False)[0]
        plain.load_state_dict(layer.state_dict())
        ti, tx = T(Hin), T(x)
        own = to_np(layer.kernel.grid_H)
        req = g.rand(2, np.random.default_rng(63))
        for Hout in (None, req):
            # the built-in SO(3) grids have 4 digits
            tol = 2e-3 if g.dim == 3 and Hout is None and (kind == "lift" or g.improper) else 1e-5
            src = Hout if Hout is not None else own if kind == "lift" or g.improper else Hin
            out = None if Hout is None else T(Hout)
            if not permute:
                y, H = call(layer, kind, tx, ti, out)
                ctx.state()
                ctx.same(H, src, "default grid" if Hout is None else "returned grid")
                y2, _ = call(layer, kind, tx, ti, T(src))
                ctx.close(y, y2, "default grid features", 1e-9)
                continue
            seen = []
            # menu answers, seeds, and calls after one seed among other uses of the package
            answers = [Answers(u, n) for u, n in itertools.product(UNIFORM, NORMAL)] if train else []
            answers += list(range(24 if train else 8)) + [f"{i}" for i in range(12 if train else 6)]
            for a in answers:
                if isinstance(a, str):
                    if a == "0":
                        torch.manual_seed(7)
                    use(g, kind, int(a))
                if isinstance(a, (int, str)):
                    if isinstance(a, int):
                        torch.manual_seed(a)
                    with torch.set_grad_enabled(train):
                        y, H = call(layer, kind, tx, ti, out)
                else:
                    with a:
                        y, H = call(layer, kind, tx, ti, out)
                what = f"{'train' if train else 'eval'} " + (f"seed {a}" if isinstance(a, int) else f"call {a}" if isinstance(a, str) else f"answers {a.u} {a.n}")
                ctx.state(); ctx.trace()
                Hn = to_np(H)
                if not ctx.check(Hn.shape == src.shape and np.isfinite(Hn).all(), "permuted grid shape", f"{what}: {Hn.shape}"):
                    continue
                # the group element: H[0] src[0]^-1, which must carry every element
                e = g.mul(Hn[0], g.inv(src[:1]))[0]
                A = g.act(e)
                ctx.close(A @ A.T, np.eye(g.dim), "not a group element", tol, what)
                if g.improper:
                    ctx.check(abs(abs(e[0]) - 1) < 1e-6, "sign not +-1", what)
                else:
                    ctx.check(abs(np.linalg.det(A) - 1) < tol, "not a rotation", what)
                want = g.mul(e, src)
                ctx.close(np.stack([g.act(h) for h in Hn]), np.stack([g.act(h) for h in want]), "not one group element", tol, what)
                if g.improper:
                    ctx.same(Hn[:, 0], want[:, 0], "signs", what)
                y2, H2 = call(plain, kind, tx, ti, H)
                ctx.same(H2, H, "returned grid", what)
                ctx.close(y, y2, "features of another grid", 1e-8, what)
                if isinstance(a, (int, str)):
                    seen.append(np.concatenate(([e[0]] if g.improper else [], A.ravel())))
            S = np.stack(seen)
            for part, how in ((S[:24 if train else 8], "seeds"), (S[24 if train else 8:], "calls in a row")):
                m = len(np.unique(np.round(part, 3), axis=0))
                ctx.check(m > len(part) // 2, "grid is not randomly permuted", f"{m} elements over {len(part)} {how}")
            if g.improper and train:
                ctx.check(len(set(np.sign(S[:, 0]))) == 2, "only one coset is drawn", str(S[:4, 0]))
    ctx.sample({"answers": len(UNIFORM) * len(NORMAL) + 24})


def cases(tier):
    th = tier == "thorough"
    out = []
    for g in GROUPS:
        for kind in ("lift", "sep", "conv"):
            for nin, nout in ((3, 33), (3, 66), (2, 130), (33, 3), (66, 3), (130, 2), (17, 18), (40, 40)):
                if kind == "lift" and nin > 3:
                    continue
                out.append(Case(f"{g.name}:{kind}:large:{nin}->{nout}", large, group=g.name, kind=kind, nin=nin, nout=nout))
            for special in (False, True):
                out.append(Case(f"{g.name}:{kind}:sizes:{'special' if special else 'generic'}", sizes, group=g.name, kind=kind, special=special))
            for conf in CONF:
                n, L = (4, 4) if th else (4, 3) if g.dim == 2 else (3, 3)
                out.append(Case(f"{g.name}:{kind}:{conf}:orders", orders, group=g.name, kind=kind, conf=conf, n=n, length=L))
                out.append(Case(f"{g.name}:{kind}:{conf}:grids", defaults, group=g.name, kind=kind, conf=conf))
    return out
