"""The environment's answers: inside `Answers(u, n)` every uniform draw of torch is taken from the
repeating list u (values in [0, 1)) and every normal draw from the repeating list n."""
import itertools

FUNCS = ("rand", "randn", "rand_like", "randn_like", "normal", "randint", "bernoulli")
METHODS = ("uniform_", "normal_", "random_", "bernoulli_")


class Answers:
    def __init__(self, u, n):
        self.u, self.n = list(u), list(n)

    def _fill(self, shape, vals, dtype, device):
        import torch

        k = 1
        for s in shape:
            k *= s
        pos = self.pos[id(vals)]
        it = itertools.islice(itertools.cycle(vals), pos % len(vals), None)
        data = list(itertools.islice(it, k))
        self.pos[id(vals)] = pos + k
        return torch.tensor(data, dtype=dtype or torch.get_default_dtype(), device=device).reshape(tuple(shape))

    def __enter__(self):
        import torch

        self.pos = {id(self.u): 0, id(self.n): 0}
        self.old = {n: getattr(torch, n) for n in FUNCS}
        self.oldm = {n: getattr(torch.Tensor, n) for n in METHODS}

        def shape_of(size, kw):
            size = size or (kw["size"],)
            return tuple(size[0]) if len(size) == 1 and not isinstance(size[0], int) else tuple(size)

        def make(vals):
            def f(*size, **kw):
                t = self._fill(shape_of(size, kw), vals, kw.get("dtype"), kw.get("device"))
                return t.requires_grad_(bool(kw.get("requires_grad", False)))
            return f

        def like(vals):
            return lambda t, **kw: self._fill(tuple(t.shape), vals, kw.get("dtype") or t.dtype, kw.get("device") or t.device)

        def normal(mean=0.0, std=1.0, size=None, **kw):
            if size is None:
                size = torch.broadcast_tensors(torch.as_tensor(mean), torch.as_tensor(std))[0].shape
            dtype = kw.get("dtype") or next((v.dtype for v in (mean, std) if torch.is_tensor(v)), None)
            return self._fill(tuple(size), self.n, dtype, kw.get("device")) * std + mean

        def randint(*a, **kw):
            a = list(a)
            size = kw["size"] if "size" in kw else a.pop()
            low, high = (0, kw["high"]) if "high" in kw and "low" not in kw and not a else (kw.get("low", a[0]), kw.get("high", a[-1])) if len(a) != 1 or "low" in kw else (0, a[0])
            v = self._fill(tuple(size), self.u, torch.float64, kw.get("device"))
            return (v * (high - low) + low).floor().to(kw.get("dtype") or torch.int64)

        def bernoulli(p, q=None, **kw):
            q = p if q is None else q
            return (self._fill(tuple(p.shape), self.u, torch.float64, p.device) < q).to(p.dtype)

        torch.rand, torch.randn = make(self.u), make(self.n)
        torch.rand_like, torch.randn_like = like(self.u), like(self.n)
        torch.normal, torch.randint, torch.bernoulli = normal, randint, bernoulli
        X = torch.Tensor

        def random_(t, a=0, b=None, **kw):
            a, b = (0, a) if b is None and a else (a, 2 ** 24 if b is None else b)
            return t.copy_((self._fill(tuple(t.shape), self.u, torch.float64, t.device) * (b - a) + a).floor())
        X.random_ = random_
        X.bernoulli_ = lambda t, p=0.5, **kw: t.copy_(self._fill(tuple(t.shape), self.u, torch.float64, t.device) < p)
        X.uniform_ = lambda t, a=0.0, b=1.0, **kw: t.copy_(self._fill(tuple(t.shape), self.u, t.dtype, t.device) * (kw.get("to", b) - kw.get("from", a)) + kw.get("from", a))
        X.normal_ = lambda t, mean=0.0, std=1.0, **kw: t.copy_(self._fill(tuple(t.shape), self.n, t.dtype, t.device) * std + mean)
        return self

    def __exit__(self, *a):
        import torch

        for n, f in self.old.items():
            setattr(torch, n, f)
        for n, f in self.oldm.items():
            setattr(torch.Tensor, n, f)


# uniform answers incl. both ends of [0, 1); normal answers incl. axis-aligned, tiny and large ones
UNIFORM = ([0.0], [0.125], [0.5], [0.75], [0.999999])
NORMAL = ([1.0, 0.0, 0.0, 0.0], [0.0, 1.0, 0.0, 0.0], [0.0, 0.0, 2.0, 0.0], [0.0, 0.0, 0.0, -1.0], [-1.0, 0.0, 0.0, 0.0],
          [0.3, -1.2, 0.7, 2.1], [1e-3, 2e-3, -1e-3, 1e-3], [4.0, 4.0, -4.0, 4.0], [-0.5, 0.1, 0.9, -0.2])
