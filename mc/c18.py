"""C18: stateless model checking of two threads running the real code.  A controlled scheduler (sys.settrace)
lets exactly one thread run and may switch at every executed source line of the package; all schedules
with at most `bound` preemptions (either thread first) are executed, each from a fresh start, and every
caller's result is compared bit for bit with the one it gets alone.  See Sched."""
import dis, itertools, os, sys, threading, time
import numpy as np
import core
from core import Case, to_np
from lib import BY_NAME, GROUPS, T, set_weights
from rng import Answers

ROOT = os.path.realpath(os.path.join(core.REPO, "gconv")) + os.sep
_inside = {}
_writes = {}


def writes(code, items=False):
    """Lines of a code object that may change something another thread can see: attributes, globals, calls of methods
    that work in place and, if asked for, items."""
    r = _writes.get((code, items))
    if r is None:
        r, line = set(), code.co_firstlineno
        for i in dis.get_instructions(code):
            if i.positions and i.positions.lineno:
                line = i.positions.lineno
            name = i.argval if isinstance(i.argval, str) else ""
            if i.opname.startswith(("STORE_ATTR", "STORE_GLOBAL", "DELETE_ATTR", "DELETE_GLOBAL") + (("STORE_SUBSCR", "STORE_SLICE", "DELETE_SUBSCR") if items else ())) \
                    or i.opname.startswith("LOAD_") and (name.endswith("_") and not name.endswith("__") or name in ("update", "append", "setdefault", "pop", "clear", "setattr", "extend", "add", "remove")) \
                    or i.opname == "KW_NAMES" and "out" in code.co_consts[i.arg] or i.opname == "LOAD_CONST" and isinstance(i.argval, tuple) and "out" in i.argval:
                r.add(line)
        _writes[code, items] = r
    return r


def traced(filename):
    r = _inside.get(filename)
    if r is None:
        r = _inside[filename] = os.path.realpath(filename).startswith(ROOT)
    return r


class Sched:
    """Runs thunks in threads, one at a time.  points: positions in the sequence of events (lines) of the
    whole run at which the running thread is preempted.  A thread that makes no progress for `stall`
    seconds (it waits for a lock held by a suspended one) is set aside until it moves again."""

    def __init__(self, thunks, first, points, grain="line", items=False, stall=2.0, limit=30.0):
        self.thunks, self.points, self.grain, self.items = thunks, set(points), grain, items
        self.stall, self.limit = stall, limit
        self.n = len(thunks)
        self.cv = threading.Condition()
        self.running = first
        self.count = 0
        self.moves = 0
        self.done = [False] * self.n
        self.waiting = [False] * self.n  # parked at a scheduling point
        self.results = [None] * self.n
        self.errors = [None] * self.n
        self.events = [0] * self.n
        self.hit = set()
        self.published = set()  # positions just after a line that may have changed something
        self.switches = []

    def other(self, me):
        for k in range(1, self.n):
            o = (me + k) % self.n
            if not self.done[o]:
                return o
        return None

    def point(self, me, wrote=False):
        with self.cv:
            self.moves += 1
            if self.running != me:  # was set aside while blocked
                self.park(me)
            i = self.count
            if wrote:
                self.published.add(i)
            self.count += 1
            self.events[me] += 1
            if i in self.points:
                self.hit.add(i)
                o = self.other(me)
                if o is not None:
                    self.switches.append((i, me, o))
                    self.running = o
                    self.cv.notify_all()
                    self.park(me)

    def park(self, me):
        self.waiting[me] = True
        while self.running != me:
            self.cv.wait()
        self.waiting[me] = False
        self.moves += 1

    def body(self, me):
        last, left = {}, [False]  # the line every active frame is in; a frame was left in a line that writes

        def local(frame, event, arg):
            if self.grain == "line" and event in ("line", "return"):
                wrote = last.get(frame) in writes(frame.f_code, self.items)
                if event == "return":
                    left[0] = left[0] or wrote
                    last.pop(frame, None)
                else:
                    last[frame] = frame.f_lineno
                    wrote, left[0] = wrote or left[0], False
                    self.point(me, wrote)
            elif event == self.grain or event == "return" and self.grain == "call":
                self.point(me)
            return local

        def glob(frame, event, arg):
            if not traced(frame.f_code.co_filename):
                return None
            if self.grain == "opcode":
                frame.f_trace_opcodes = True
            if self.grain == "call":
                frame.f_trace_lines = False
                self.point(me)
            return local

        with self.cv:
            self.park(me)
        sys.settrace(glob)
        try:
            self.results[me] = self.thunks[me]()
        except BaseException as e:  # noqa: BLE001
            self.errors[me] = e
        finally:
            sys.settrace(None)
            with self.cv:
                self.done[me] = True
                self.moves += 1
                o = self.other(me)
                if o is not None and self.running == me:
                    self.running = o
                self.cv.notify_all()

    def run(self):
        ts = [threading.Thread(target=self.body, args=(i,), daemon=True) for i in range(self.n)]
        for t in ts:
            t.start()
        t0 = last = time.time()
        moves = -1
        with self.cv:
            self.cv.notify_all()
            while not all(self.done):
                self.cv.wait(0.05 if self.n > 1 else 1)
                now = time.time()
                if self.moves != moves:
                    moves, last = self.moves, now
                    continue
                if now - t0 > self.limit:
                    raise RuntimeError(f"deadlock: no progress, finished {self.done}")
                if now - last > self.stall:  # the running thread is blocked: let a parked one go on
                    for k in range(self.n):
                        if self.waiting[k] and not self.done[k] and k != self.running:
                            self.running = k
                            self.cv.notify_all()
                            break
                    last = now
        for t in ts:
            t.join()
        return self


def compare(ctx, sched, want, what):
    for i in range(sched.n):
        if sched.errors[i] is not None:
            e = sched.errors[i]
            ctx.fail("a caller gets an error", f"{what}: thread {i}: {type(e).__name__}: {e}")
            continue
        for j, (a, b) in enumerate(zip(sched.results[i], want[i])):
            ctx.same(a, b, "a caller does not get the result it gets alone", f"{what}: thread {i}, result {j}")


def explore(ctx, scenario, bound, grain="line", part=(0, 1), reduced=False):
    """All schedules of a scenario with at most `bound` preemptions; part = (k, n): first preemptions k mod n.
    reduced: of the schedules with two preemptions only those with one of them just after a line that may change
    something the other thread can see (attributes, globals, in-place methods; "items": also items)."""
    sc = SCENARIOS[scenario](ctx)
    with sc.env():
        sc.fresh()
        want = []
        for t in sc.thunks:
            sc.fresh()
            want.append([to_np(v).copy() for v in t()])
        state = sc.state()
        for first in range(len(sc.thunks)):
            def once(points):
                sc.fresh()
                s = Sched(sc.thunks, first, points, grain, reduced == "items").run()
                what = f"{scenario}: thread {first} first, preempted at {list(points)} of {s.count}"
                sc.check(ctx, s, want, what)
                ctx.state(s.count); ctx.trace()
                now = sc.state()
                ctx.check(set(now) == set(state), "state changed", what)
                for k in state:
                    if k in now:
                        ctx.same(now[k], state[k], "a schedule leaves something changed", f"{what}: {k}")
                return s

            s = once(())
            ctx.check(s.count > 2, "vacuous", f"{scenario}: {s.count} scheduling points")
            ctx.outcome((scenario, first, s.count))
            own = s.events[first]
            for k in range(part[0], own, part[1]):
                s = once((k,))
                if k not in s.hit:
                    continue
                if bound > 1:
                    after, k2 = set(s.published), k + 1
                    reached = s.count
                    while True:
                        if reduced and k not in after and k2 not in after:
                            k2 += 1
                            if k2 >= reached:
                                break
                            continue
                        s2 = once((k, k2))
                        if k2 not in s2.hit:
                            break
                        k2 += 1
                if ctx.nfail > 50:
                    return
    ctx.sample({"scenario": scenario, "scheduling points": s.count, "switches of the last schedule": s.switches})


# ------------------------------------------------------------------ scenarios


# the arguments a module was built with
SETTINGS = ("in_channels", "out_channels", "kernel_size", "group_kernel_size", "groups", "stride", "padding", "dilation", "padding_mode", "permute_output_grid",
            "sample_H_kwargs", "sample_Rn_kwargs", "eps", "momentum", "affine", "inplace", "negative_slope", "normalized_shape")


class Scenario:
    def __init__(self, thunks, modules=(), fresh=None, env=None, check=None, tensors=()):
        self.thunks, self.modules, self.tensors = thunks, list(modules), list(tensors)
        self._fresh, self._env, self._check = fresh, env, check

    def env(self):
        return Answers([0.25], [0.6, -0.3]) if self._env is None else self._env()

    def fresh(self):
        if self._fresh:
            self._fresh()

    def state(self):
        out = {}
        for i, m in enumerate(self.modules):
            for k, v in m.state_dict().items():
                out[f"{i}.{k}"] = to_np(v).copy()
            out[f"{i}.training"] = np.array([c.training for c in m.modules()])
            for name, c in m.named_modules():
                for a in SETTINGS:
                    if a in c.__dict__:
                        out[f"{i}.{name}.{a}"] = np.frombuffer(repr(c.__dict__[a]).encode(), np.uint8)
        for i, t in enumerate(self.tensors):
            out[f"t{i}"] = to_np(t).copy()
        return out

    def check(self, ctx, s, want, what):
        (self._check or compare)(ctx, s, want, what)


GKS = {"SE2": 2, "E2": (2, 1), "SE3": 2, "E3": (1, 1)}


def data(ctx, g, kind, n, rng, i=0, alike=False):
    """Thread i's input: batch size and spatial shape differ between the threads, unless alike."""
    i = 0 if alike else i
    S = ((3, 4), (5, 4))[i] if g.dim == 2 else ((3, 3, 3), (3, 4, 3))[i]
    return T(rng.normal(size=(1 + i, 1) + ((n,) if kind != "lift" else ()) + S))


def caller(layer, kind, x, Hi, Ho):
    import torch

    def f():
        with torch.no_grad():
            if kind == "lift":
                return layer(x) if Ho is None else layer(x, Ho)
            return layer(x, Hi) if Ho is None else layer(x, Hi, Ho)
    return f


def forward_scenario(group, kind, shared, same_grids, permute=False, mode=None, alike=False):
    def build(ctx):
        g = BY_NAME[group]
        rng = np.random.default_rng(181)
        kw = dict(mode or {})
        mk = lambda: set_weights(g.layer(kind, 1, 1, 3, group_kernel_size=GKS[group], bias=True, permute_output_grid=permute, **kw).double(), rng)
        a = mk()
        b = a if shared else mk()
        Hi = [T(g.rand(2, rng)) for _ in range(2)]
        Ho = [T(g.rand(2, rng)) for _ in range(2)]
        if same_grids:
            Hi[1], Ho[1] = Hi[0], Ho[0]
        if permute:
            Ho = [None, None] if kind == "lift" or g.improper else Ho
        x = [data(ctx, g, kind, 2, rng, i, alike) for i in range(2)]
        return Scenario([caller(l, kind, x[i], Hi[i], Ho[i]) for i, l in enumerate((a, b))], [a, b], tensors=Hi + [h for h in Ho if h is not None] + x)
    return build


def one_element_scenario(group, kind):
    """Same layer, grids of different sizes."""
    def build(ctx):
        g = BY_NAME[group]
        rng = np.random.default_rng(182)
        a = set_weights(g.layer(kind, 1, 1, 3, group_kernel_size=GKS[group], padding="same", padding_mode="circular").double(), rng)
        Hi = [T(g.rand(n, rng)) for n in (1, 3)]
        Ho = [T(g.rand(n, rng)) for n in (3, 1)]
        x = [data(ctx, g, kind, n, rng, i) for i, n in enumerate((1, 3))]
        return Scenario([caller(a, kind, x[i], Hi[i], Ho[i]) for i in range(2)], [a], tensors=Hi + Ho + x)
    return build


def padded_scenario(group, kind, alike=False):
    """Same layer, with a padding mode, strides and channel groups."""
    def build(ctx):
        g = BY_NAME[group]
        rng = np.random.default_rng(187)
        a = set_weights(g.layer(kind, 2, 2, 3, group_kernel_size=GKS[group], padding=1, stride=2, groups=2, bias=True, padding_mode="replicate").double(), rng)
        Hi, Ho = [T(g.rand(1, rng)) for _ in range(2)], [T(g.rand(1, rng)) for _ in range(2)]
        S = ((3, 4), (5, 4)) if g.dim == 2 else ((3, 3, 3), (3, 4, 3))
        x = [T(rng.normal(size=(1 + i, 2) + ((1,) if kind != "lift" else ()) + S[i])) for i in ((0, 0) if alike else (0, 1))]
        return Scenario([caller(a, kind, x[i], Hi[i], Ho[i]) for i in range(2)], [a], tensors=Hi + Ho + x)
    return build


def network_scenario(group):
    def build(ctx):
        import torch
        import torch.nn as nn
        import gconv.gnn as gnn

        g = BY_NAME[group]
        rng = np.random.default_rng(183)
        d = g.dim
        mods = nn.ModuleList([
            set_weights(g.layer("lift", 1, 2, 1, group_kernel_size=GKS[group]).double(), rng),
            getattr(gnn, f"GBatchNorm{d}d")(2), gnn.GReLU(), getattr(gnn, f"GAvgSpatialPool{d}d")(2, 1),
            getattr(gnn, f"GInstanceNorm{d}d")(2), gnn.GWrap(nn.Softplus()), getattr(gnn, f"GMaxSpatialPool{d}d")(2, 1),
            gnn.GLeakyReLU(), gnn.GGELU(), gnn.GLayerNorm(2 if d == 2 else 1)]).double().eval()
        pools = [gnn.GMaxGroupPool(), gnn.GAvgGlobalPool(), gnn.GMaxGlobalPool(), gnn.GAvgGroupPool()]
        xs = [data(ctx, g, "lift", 0, rng, i) for i in range(2)]
        Hs = [T(g.rand(2, rng)), T(g.rand(2, rng))]

        def thunk(i):
            def f():
                with torch.no_grad():
                    y, H = mods[0](xs[i], Hs[i])
                    for m in mods[1:]:
                        y, H = m(y, H)
                    return [y, H] + [p(y, H) for p in pools]
            return f
        return Scenario([thunk(0), thunk(1)], [mods], tensors=xs + Hs)
    return build


def geometry_scenario(which):
    def build(ctx):
        import importlib
        g = BY_NAME[which]
        rng = np.random.default_rng(184)
        names = {"SE2": "so2", "E2": "o2", "SE3": "so3", "E3": "o3"}[which]
        m = importlib.import_module("gconv.geometry.groups." + names)
        A = [T(g.rand(3, rng)) for _ in range(2)]
        if g.improper:
            N = np.concatenate([h[None] for h in sorted(g.rand(4, rng), key=lambda h: -h[0])])
        else:
            N = g.rand(4, rng)
        N, S = T(N), [T(rng.normal(size=(4, 2))) for _ in range(2)]

        def thunk(i):
            def f():
                args = ((2, 2),) if g.improper else ()
                out = [m.grid_sample(A[i], S[i], N, *args, mode=mo) for mo in ("rbf", "nearest")]
                if which == "SE3":
                    q = m.matrix_to_quat(A[i])
                    out += [q, m.quat_to_matrix(q), m.matrix_to_euler(A[i]), m.so3_log(A[i]), m.nearest_neighbour_distance(q), m.left_apply_quat(q, q), m.octahedral(), m.icosahedral()]
                elif which == "SE2":
                    out += [m.angle_to_matrix(A[i]), m.nearest_neighbour_distance(A[i]), m.uniform_grid(3 + i)]
                else:
                    out += [m.inverse(A[i]), m.det(A[i]), m.uniform_grid((2 + i, 1))]
                return out
            return f
        return Scenario([thunk(0), thunk(1)], tensors=A + [N] + S)
    return build


def table_scenario(program):
    """Requests of the built-in table and of sizes that have to be generated (all callers draw the same)."""
    def build(ctx):
        import c12
        snap = c12.snapshot()
        from gconv.geometry import so3, o3

        def req(n, p, cache=False, steps=2):
            return so3.uniform_grid(n, p, steps=steps, show_pbar=False, cache_grid=cache)

        progs = {
            "hits": [lambda: [req(4, "matrix"), req(4, "quat"), req(5, "euler")], lambda: [req(4, "matrix"), req(5, "quat"), req(4, "euler")]],
            "generate": [lambda: [req(26, "quat")], lambda: [req(27, "matrix")]],
            "generate same": [lambda: [req(26, "quat")], lambda: [req(26, "quat")]],
            "o3": [lambda: [o3.uniform_grid((2, 3))], lambda: [o3.uniform_grid((3, 2))]],
        }
        return Scenario(progs[program], fresh=lambda: c12.restore(snap), env=lambda: Answers([0.25], [0.7]))
    return build


def caching_scenario(program):
    """Concurrent caching: callers get valid grids; whatever was stored first stays; the table ends consistent."""
    def build(ctx):
        import importlib, c12
        import torch
        from c11 import valid_rot
        snap = c12.snapshot()
        cache, so3 = c12.modules()
        gen = torch.Generator().manual_seed(3)
        A, B = (q / q.norm(dim=-1, keepdim=True) for q in (torch.randn(26, 4, generator=gen), torch.randn(26, 4, generator=gen)))
        load = lambda n=26, p="quat", t="so3": cache.load_grid(n, t, p)

        def save(G, t="so3", **k):
            cache.save_grid(G, t, "quat", **k)
        req = lambda n, p: so3.uniform_grid(n, p, steps=0, show_pbar=False, cache_grid=True)

        progs = {
            "save/save": [lambda: (save(A), load(), load())[1:], lambda: (save(B), load(), load())[1:]],
            "new type": [lambda: (save(A, "mine"), load(t="mine"), load(t="mine"))[1:], lambda: (save(B, "mine"), load(t="mine"), load(t="mine"))[1:]],
            "request/request": [lambda: (req(26, "quat"), load(), so3.uniform_grid(26, "quat")), lambda: (req(26, "quat"), load(), so3.uniform_grid(26, "quat"))],
            "request/save": [lambda: (req(26, "quat"), load(), load()), lambda: (save(B), load(), load())],
            "sizes": [lambda: (req(26, "quat"), load(), load()), lambda: (req(27, "quat"), load(27), load(27))],
            "parameterisations": [lambda: (req(26, "quat"), load(), load()), lambda: (req(26, "matrix"), load(p="matrix"), load(p="matrix"))],
        }
        separate = program in ("sizes", "parameterisations")
        key = {"new type": dict(t="mine")}.get(program, {})

        def check(ctx, s, want, what):
            for i in range(2):
                if s.errors[i] is not None:
                    ctx.fail("a caller gets an error", f"{what}: thread {i}: {type(s.errors[i]).__name__}: {s.errors[i]}")
            if any(s.errors):
                return
            r = [[to_np(v) for v in x] for x in s.results]
            n = -2 if program.startswith("re") or separate else 0
            for i in range(2):
                seen = r[i][n:]
                ctx.check(all(np.array_equal(seen[0], v) for v in seen), "the stored grid changed between two requests", f"{what}: thread {i}")
            if separate:
                ctx.check(np.array_equal(r[0][0], r[0][1]) and np.array_equal(r[1][0], r[1][1]), "the stored grid is not the requested one", what)
            else:
                end = to_np(load(**key))
                ctx.check(all(np.array_equal(x[-1], end) for x in r), "the first stored grid was overwritten", what)
                cands = {"save/save": (A, B), "new type": (A, B), "request/request": (r[0][0], r[1][0]), "request/save": (r[0][0], B)}[program]
                ctx.check(any(np.array_equal(end, to_np(c)) for c in cands), "the table ends with something nobody stored", what)
            if program.startswith("re"):
                valid_rot(ctx, s.results[0][0], (26,), "quat", what)

        class Draws:
            def __enter__(self):
                torch.manual_seed(4)

            def __exit__(self, *a):
                c12.restore(snap)
        return Scenario(progs[program], fresh=lambda: c12.restore(snap), env=Draws, check=check)
    return build


def backward_scenario(group, kind):
    """Training steps of two layers at the same time."""
    def build(ctx):
        g = BY_NAME[group]
        rng = np.random.default_rng(185)
        ls = [set_weights(g.layer(kind, 1, 1, 3, group_kernel_size=GKS[group], bias=True, permute_output_grid=False).double(), rng) for _ in range(2)]
        Hi, Ho = T(g.rand(2, rng)), T(g.rand(2, rng))
        xs = [data(ctx, g, kind, 2, rng, i) for i in range(2)]

        def thunk(i):
            def f():
                l = ls[i]
                l.zero_grad()
                y, H = l(xs[i], Ho) if kind == "lift" else l(xs[i], Hi, Ho)
                (y * y).sum().backward()
                return [y] + [p.grad.clone() for p in l.parameters()]
            return f
        return Scenario([thunk(0), thunk(1)], ls, tensors=[Hi, Ho] + xs)
    return build


def construct_scenario(group, kind):
    """A layer is built (default grid) while another one runs."""
    def build(ctx):
        g = BY_NAME[group]
        rng = np.random.default_rng(186)
        l = set_weights(g.layer(kind, 1, 1, 3, group_kernel_size=GKS[group], permute_output_grid=False).double(), rng)
        Hi, Ho = T(g.rand(2, rng)), T(g.rand(2, rng))
        x = data(ctx, g, kind, 2, rng)

        def new():
            n = g.layer(kind, 1, 2, 3, group_kernel_size=GKS[group], mask=True)
            n = n.double()
            for p in n.parameters():
                p.data.fill_(0.5)
            y, H = n(x) if kind == "lift" else n(x, Hi)
            return [n.kernel.grid_H, y.detach()]
        return Scenario([caller(l, kind, x, Hi, Ho), new], [l], tensors=[Hi, Ho, x])
    return build


SCENARIOS = {}
for _g, _k in itertools.product(("SE2", "E2", "SE3", "E3"), ("lift", "sep", "conv")):
    for _s, _sg in ((True, False), (True, True), (False, True)):
        SCENARIOS[f"{_g} {_k} {'one layer' if _s else 'two layers'}{', one grid' if _sg else ''}"] = forward_scenario(_g, _k, _s, _sg)
    SCENARIOS[f"{_g} {_k} permuted"] = forward_scenario(_g, _k, True, False, True)
    SCENARIOS[f"{_g} {_k} sizes"] = one_element_scenario(_g, _k)
    SCENARIOS[f"{_g} {_k} padded"] = padded_scenario(_g, _k)
    SCENARIOS[f"{_g} {_k} padded alike"] = padded_scenario(_g, _k, True)
    SCENARIOS[f"{_g} {_k} alike"] = forward_scenario(_g, _k, True, True, alike=True)
    SCENARIOS[f"{_g} {_k} training"] = backward_scenario(_g, _k)
    SCENARIOS[f"{_g} {_k} construct"] = construct_scenario(_g, _k)
for _g in ("SE2", "E2", "SE3", "E3"):
    SCENARIOS[f"{_g} network"] = network_scenario(_g)
    SCENARIOS[f"{_g} geometry"] = geometry_scenario(_g)
for _p in ("hits", "generate", "generate same", "o3"):
    SCENARIOS[f"table {_p}"] = table_scenario(_p)
for _p in ("save/save", "new type", "request/request", "request/save", "sizes", "parameterisations"):
    SCENARIOS[f"caching {_p}"] = caching_scenario(_p)


# explored at the granularity of single opcodes by the thorough check
OPCODES = [f"{g} {k} {s}" for g in ("SE2", "E2") for k in ("lift", "sep", "conv") for s in ("one layer", "sizes")]


# explored with two preemptions around writes
REDUCED = ("one layer", "sizes", "padded", "alike", "network")


def cases(tier):
    th = tier == "thorough"
    out = []
    for name in SCENARIOS:
        out.append(Case(f"{name}:1", explore, scenario=name, bound=1))
        if name.endswith(REDUCED) and name.startswith(("SE", "E")):
            out.append(Case(f"{name}:writes:2", explore, scenario=name, bound=2, reduced=True))
            if th and "padded" in name:
                for k in range(4):
                    out.append(Case(f"{name}:items:2:{k}", explore, scenario=name, bound=2, reduced="items", part=(k, 4)))
        if name in ("caching save/save", "caching new type"):
            out.append(Case(f"{name}:2", explore, scenario=name, bound=2))
            out.append(Case(f"{name}:opcodes", explore, scenario=name, bound=1, grain="opcode"))
        elif th:
            for k in range(4):
                out.append(Case(f"{name}:calls:2:{k}", explore, scenario=name, bound=2, grain="call", part=(k, 4)))
            if name.startswith(("caching", "table hits", "table o3")) or name in OPCODES:
                for k in range(4):
                    out.append(Case(f"{name}:opcodes:{k}", explore, scenario=name, bound=1, grain="opcode", part=(k, 4)))
    return out
