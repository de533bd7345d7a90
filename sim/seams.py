"""Seams of the simulator.

Must be imported before mocat.  Installs switchable wrappers for everything through which mocat meets
nondeterminism or a scheduling point:

* jax.jit / vmap / lax.scan / cond / while_loop / map / fori_loop / switch: with a simulation context active in
  the calling thread and ctx.step set, they execute their body step by step with concrete values
  ("stepped" mode); otherwise the real JAX transformation runs ("compiled" mode).
* jax.random.*: recorded in the context, optionally overridden by the simulated schedule of draws.
* time.*: served by the context's simulated clock if it has one.

No context active -> every wrapper is transparent.
"""
import functools
import os
import sys
import threading
import time as _time_mod

REAL_TIME = {k: getattr(_time_mod, k) for k in
             ("time", "monotonic", "perf_counter", "process_time", "time_ns", "monotonic_ns", "perf_counter_ns",
              "process_time_ns", "thread_time", "thread_time_ns")}
real_monotonic = REAL_TIME["monotonic"]

_tls = threading.local()


def current():
    return getattr(_tls, "ctx", None)


class Interrupted(BaseException):
    """An asynchronous interruption (Ctrl-C, cancellation) delivered at a step of the simulated run."""


class InjectedError(Exception):
    """Raised out of a user callback."""


class Ctx:
    """One simulated execution in one thread."""

    def __init__(self, step=True, record=True, clock=None):
        self.step = step            # execute control flow step by step
        self.record = record        # record random draws
        self.clock = clock
        self.tape = []              # draws in order
        self.events = []            # evaluations of user callbacks and markers, in order
        self.ticks = 0
        self.interrupt_at = None    # tick at which Interrupted is raised
        self.raise_at = None
        self.on_tick = None         # scheduler hook
        self.draw_hook = None       # (name, key, args, kw, out) -> out
        self.user_depth = 0         # inside a user callback
        self.user_calls = {}        # callback name -> count
        self.user_faults = {}       # (name, idx) -> action
        self.opaque_draws = 0       # draws made under a tracer (not recorded)
        self.stats = {}

    def bump(self, k, n=1):
        self.stats[k] = self.stats.get(k, 0) + n

    def tick(self, kind):
        self.ticks += 1
        if self.clock is not None:
            self.clock.advance(kind)
        if self.on_tick is not None:
            self.on_tick(kind)
        if self.interrupt_at is not None and self.ticks >= self.interrupt_at:
            self.interrupt_at = None
            self.bump("interrupt@" + kind)
            raise Interrupted(kind)

    def __enter__(self):
        self._prev = current()
        _tls.ctx = self
        return self

    def __exit__(self, *a):
        _tls.ctx = self._prev
        return False


# ---------------------------------------------------------------- clock
class SimClock:
    """Wall clock that can be stepped and slewed, a monotonic clock that cannot, and a CPU clock that stops in stalls.

    A part of every step's work may be carried out by an asynchronous device: its time passes when the program
    waits for a result (block_until_ready)."""

    def __init__(self, per_tick=1e-3, start=1.6e9, jumps=(), drift=0., device=0.):
        self.mono = 1000.0
        self.cpu = 0.
        self.debt = 0.
        self.offset = start - self.mono
        self.per_tick = per_tick
        self.drift = drift
        self.device = device
        self.n = 0
        self.reads = []
        self.jumps = sorted(jumps)      # (event number, delta of the wall clock, stall in seconds)
        self.jlog = []

    @property
    def total(self):
        return self.mono + self.debt

    def _step(self, work):
        self.n += 1
        d = self.per_tick * (1. - self.device if work else 1.)
        self.mono += d
        self.cpu += d
        self.offset += self.drift * d
        if work:
            self.debt += self.per_tick * self.device
        while self.jumps and self.jumps[0][0] <= self.n:
            _, d, stall = self.jumps.pop(0)
            self.offset += d
            self.mono += stall
            self.jlog.append((self.n, d, stall))

    def advance(self, kind):
        self._step(True)

    def sync(self):
        self.mono += self.debt
        self.offset += self.drift * self.debt
        self.debt = 0.

    def read(self, name):
        if name.startswith(("process", "thread")):
            v = self.cpu
        else:
            v = self.mono + (self.offset if name.startswith("time") else 0.0)
        self._step(False)
        self.reads.append(self.n)
        return int(v * 1e9) if name.endswith("_ns") else v


def _install_time():
    import sys

    def by_jax():
        """JAX times its own compilations, which depend on what was compiled before: those reads are not the program's."""
        return sys._getframe(2).f_globals.get("__name__", "").startswith(("jax", "logging", "importlib"))

    def mk(name):
        real = REAL_TIME[name]

        def clock_fn():
            c = current()
            if c is not None and c.clock is not None and not by_jax():
                return c.clock.read(name)
            return real()
        clock_fn.__name__ = name
        return clock_fn
    for name in REAL_TIME:
        setattr(_time_mod, name, mk(name))
    import timeit
    timeit.default_timer = _time_mod.perf_counter
    real_gettime = _time_mod.clock_gettime

    def clock_gettime(which):
        c = current()
        if c is None or c.clock is None or by_jax():
            return real_gettime(which)
        return c.clock.read({_time_mod.CLOCK_REALTIME: "time", _time_mod.CLOCK_PROCESS_CPUTIME_ID: "process_time"}.get(which, "monotonic"))
    _time_mod.clock_gettime = clock_gettime


def _install_sync():
    """Waiting for a result lets the simulated device finish."""
    import sys
    import jax
    import numpy as np
    from jax._src import array

    def sync():
        c = current()
        if c is not None and c.clock is not None:
            c.clock.sync()
    A = array.ArrayImpl
    real_block = A.block_until_ready

    def block_until_ready(self):
        sync()
        return real_block(self)
    A.block_until_ready = block_until_ready
    real_get = jax.device_get

    def device_get(x):
        sync()
        return real_get(x)
    jax.device_get = device_get

    def host(real):
        @functools.wraps(real)
        def f(x, *a, **kw):
            c = current()
            if c is not None and c.clock is not None and isinstance(x, jax.Array) \
                    and os.sep + "mocat" + os.sep in sys._getframe(1).f_code.co_filename:
                c.clock.sync()
            return real(x, *a, **kw)
        return f
    np.asarray, np.array = host(np.asarray), host(np.array)


# ---------------------------------------------------------------- jax
def install():
    import jax
    from jax import tree_util as tu
    import jax.numpy as jnp
    import jax.random as jr
    import numpy as np

    if getattr(jax, "_mocat_sim_installed", False):
        return
    jax._mocat_sim_installed = True
    _install_time()
    _install_sync()

    Tracer = jax.core.Tracer
    real_jit, real_vmap = jax.jit, jax.vmap
    lax = jax.lax
    real_scan, real_cond, real_while, real_map = lax.scan, lax.cond, lax.while_loop, lax.map
    real_fori, real_switch = lax.fori_loop, lax.switch

    def stepping():
        c = current()
        return c is not None and c.step

    def inside_jax():
        """Control flow inside JAX's own functions is traced once per process: it is no step of the program."""
        return sys._getframe(2).f_globals.get("__name__", "").startswith(("jax.", "jaxlib."))

    def tick(kind):
        c = current()
        if c is not None:
            c.tick(kind)

    def fresh(x):
        try:
            return tu.tree_map(lambda l: l, x)
        except Exception:
            return x

    def has_tracer(x):
        try:
            return any(isinstance(l, Tracer) for l in tu.tree_leaves(x))
        except Exception:
            return False

    def _norm_static(v):
        if v is None:
            return ()
        return (v,) if isinstance(v, (int, str)) else tuple(v)

    def sim_jit(fun=None, **kw):
        if fun is None:
            return functools.partial(sim_jit, **kw)
        compiled = real_jit(fun, **kw)
        nums = _norm_static(kw.get("static_argnums"))
        names = _norm_static(kw.get("static_argnames"))

        def wrapper(*a, **k):
            if stepping():
                tick("call")
                a = tuple(x if (i in nums or i - len(a) in nums) else fresh(x) for i, x in enumerate(a))
                k = {n: (x if n in names else fresh(x)) for n, x in k.items()}
                return fresh(fun(*a, **k))
            return compiled(*a, **k)
        try:
            functools.update_wrapper(wrapper, fun)
        except Exception:
            pass
        wrapper.__wrapped__ = fun
        wrapper._compiled = compiled
        for attr in ("lower", "clear_cache"):
            if hasattr(compiled, attr):
                setattr(wrapper, attr, getattr(compiled, attr))
        return wrapper

    def _stack(outs):
        # outs: list of pytrees of equal structure
        flat = [tu.tree_flatten(o) for o in outs]
        treedef = flat[0][1]
        cols = []
        for parts in zip(*[f[0] for f in flat]):
            if all(isinstance(p, (int, float, bool)) or not isinstance(p, Tracer) for p in parts):
                cols.append(jnp.stack([jnp.asarray(p) for p in parts]))
            else:
                cols.append(jnp.stack(parts))
        return tu.tree_unflatten(treedef, cols)

    def _captured(fun, depth=0):
        """cdicts captured by fun's closure: vmap traces its function once, so a mutation of captured state
        happens once, not once per lane."""
        out = []
        while fun is not None and depth < 4:
            depth += 1
            for cell in getattr(fun, "__closure__", None) or ():
                try:
                    v = cell.cell_contents
                except ValueError:
                    continue
                if hasattr(v, "tree_flatten") and hasattr(v, "__dict__"):
                    out.append(v)
                elif isinstance(v, tuple):
                    out += [w for w in v if hasattr(w, "tree_flatten") and hasattr(w, "__dict__")]
            fun = getattr(fun, "__wrapped__", None) or getattr(fun, "func", None)
        return out

    def _snap(objs):
        res = []
        todo, seen = list(objs), set()
        while todo:
            o = todo.pop()
            if id(o) in seen:
                continue
            seen.add(id(o))
            res.append((o, dict(o.__dict__)))
            todo += [v for v in o.__dict__.values() if hasattr(v, "tree_flatten") and hasattr(v, "__dict__")]
        return res

    def _restore(snap):
        for o, d in snap:
            o.__dict__.clear()
            o.__dict__.update(d)

    def sim_vmap(fun, in_axes=0, out_axes=0, **kw):
        real = real_vmap(fun, in_axes=in_axes, out_axes=out_axes, **kw)

        @functools.wraps(fun)
        def wrapper(*args, **kwargs):
            c = current()
            if c is None or not c.step or kw or out_axes != 0 or has_tracer((args, kwargs)):
                return real(*args, **kwargs)
            axes = in_axes
            if isinstance(axes, list):
                axes = tuple(axes)
            if not isinstance(axes, tuple):
                axes = (axes,) * len(args)
            if len(axes) != len(args) or not all(ax is None or isinstance(ax, int) for ax in axes):
                return real(*args, **kwargs)
            n = None
            flat_args = []
            for a, ax in zip(args, axes):
                if ax is None:
                    flat_args.append(None)
                    continue
                leaves, td = tu.tree_flatten(a)
                leaves = [jnp.asarray(l) for l in leaves]
                if ax != 0:
                    leaves = [jnp.moveaxis(l, ax, 0) for l in leaves]
                if leaves and n is None:
                    n = leaves[0].shape[0]
                flat_args.append((leaves, td))
            kleaves, ktd = tu.tree_flatten(kwargs)
            kleaves = [jnp.asarray(l) for l in kleaves]
            if kleaves and n is None:
                n = kleaves[0].shape[0]
            if n is None or n == 0 or n > c.stats.get("vmap_max", 64):
                return real(*args, **kwargs)
            # one transfer per leaf instead of one gather per element
            host = [None if f is None else ([_rows(l) for l in f[0]], f[1]) for f in flat_args]
            khost = [_rows(l) for l in kleaves]
            outs = []
            snap = _snap(_captured(fun))
            for i in range(n):
                c.tick("lane")
                _restore(snap)
                call = [fresh(a) if h is None else tu.tree_unflatten(h[1], [r[i] for r in h[0]])
                        for a, h in zip(args, host)]
                kcall = tu.tree_unflatten(ktd, [r[i] for r in khost])
                outs.append(fun(*call, **kcall))
            return _stack(outs)
        return wrapper

    def _rows(l):
        return [l[i] for i in range(l.shape[0])]

    def sim_scan(f, init, xs=None, length=None, reverse=False, unroll=1, **kw):
        if not stepping() or inside_jax() or has_tracer(xs):
            return real_scan(f, init, xs, length=length, reverse=reverse, unroll=unroll, **kw)
        leaves, td = tu.tree_flatten(xs)
        leaves = [jnp.asarray(l) for l in leaves]
        n = leaves[0].shape[0] if leaves else int(length)
        if n == 0:
            return real_scan(f, init, xs, length=length, reverse=reverse, unroll=unroll, **kw)
        rows = [_rows(l) for l in leaves]
        carry = fresh(init)
        ys = []
        order = range(n - 1, -1, -1) if reverse else range(n)
        for i in order:
            tick("scan")
            carry, y = f(fresh(carry), tu.tree_unflatten(td, [r[i] for r in rows]))
            carry = fresh(carry)
            ys.append(fresh(y))
        if reverse:
            ys.reverse()
        return carry, (_stack(ys) if tu.tree_leaves(ys[0]) else ys[0])

    def sim_cond(pred, true_fun, false_fun, *operands, **kw):
        if not stepping() or inside_jax() or isinstance(pred, Tracer) or not callable(true_fun) or not callable(false_fun):
            return real_cond(pred, true_fun, false_fun, *operands, **kw)
        tick("cond")
        if "operand" in kw and not operands:
            operands = (kw["operand"],)
        ops = tuple(fresh(o) for o in operands)
        return fresh(true_fun(*ops) if bool(pred) else false_fun(*ops))

    def sim_while(cond_fun, body_fun, init_val):
        if not stepping() or inside_jax() or has_tracer(init_val):
            return real_while(cond_fun, body_fun, init_val)
        val = fresh(init_val)
        steps = 0
        while True:
            p = cond_fun(fresh(val))
            if isinstance(p, Tracer):
                return real_while(cond_fun, body_fun, init_val)
            if not bool(p):
                return val
            tick("while")
            val = fresh(body_fun(fresh(val)))
            steps += 1
            if steps > 5000:
                raise StepLimit("while_loop exceeded 5000 steps in simulation")

    def sim_map(f, xs, *a, **kw):
        if not stepping() or inside_jax() or has_tracer(xs):
            return real_map(f, xs, *a, **kw)
        return sim_scan(lambda _, x: (None, f(x)), None, xs)[1]

    def sim_fori(lower, upper, body_fun, init_val, **kw):
        if not stepping() or inside_jax() or has_tracer((lower, upper)):
            return real_fori(lower, upper, body_fun, init_val, **kw)
        val = fresh(init_val)
        for i in range(int(lower), int(upper)):
            tick("fori")
            val = fresh(body_fun(jnp.asarray(i), fresh(val)))
        return val

    def sim_switch(index, branches, *operands, **kw):
        if not stepping() or inside_jax() or isinstance(index, Tracer):
            return real_switch(index, branches, *operands, **kw)
        tick("cond")
        i = min(max(int(index), 0), len(branches) - 1)
        return fresh(branches[i](*(fresh(o) for o in operands)))

    jax.jit = sim_jit
    jax.vmap = sim_vmap
    lax.scan, lax.cond, lax.while_loop, lax.map = sim_scan, sim_cond, sim_while, sim_map
    lax.fori_loop, lax.switch = sim_fori, sim_switch

    # ------------------------------------------------------------ randomness
    draw_names = ["uniform", "normal", "categorical", "choice", "bernoulli", "exponential", "gumbel", "poisson",
                  "permutation", "shuffle", "randint", "truncated_normal", "gamma", "beta", "multivariate_normal",
                  "laplace", "logistic", "dirichlet", "t", "cauchy", "rademacher", "maxwell", "pareto", "bits",
                  "shuffle", "loggamma", "binomial", "geometric"]

    def key_bytes(key):
        return bytes(np.asarray(key).tobytes())

    def mk_draw(name, real):
        @functools.wraps(real)
        def draw(key, *a, **kw):
            c = current()
            if c is None:
                return real(key, *a, **kw)
            if isinstance(key, Tracer):
                out = real(key, *a, **kw)
                c.opaque_draws += 1
                return out
            c.tick("draw")
            if not c.record:
                return real(key, *a, **kw)
            _tls.ctx = None     # library-internal nesting is not recorded
            try:
                out = real(key, *a, **kw)
                if c.draw_hook is not None:
                    out = c.draw_hook(name, key, a, kw, out)
            finally:
                _tls.ctx = c
            rec = {"op": name, "key": key_bytes(key), "nkeys": np.asarray(key).size // 2, "args": a, "kw": kw,
                   "out": out, "tick": c.ticks, "ev": len(c.events), "user": c.user_depth}
            c.tape.append(rec)
            return out
        return draw

    def mk_key(name, real):
        @functools.wraps(real)
        def keyop(*a, **kw):
            c = current()
            if c is None or not c.record or has_tracer((a, kw)):
                return real(*a, **kw)
            c.tick("key")
            out = real(*a, **kw)
            if name in ("split", "fold_in"):
                key = a[0] if a else kw.get("key")
                c.tape.append({"op": name, "key": key_bytes(key), "args": a[1:], "kw": kw, "out": out,
                               "tick": c.ticks, "ev": len(c.events), "user": c.user_depth})
            return out
        return keyop

    for nm in dict.fromkeys(draw_names):
        if hasattr(jr, nm):
            setattr(jr, nm, mk_draw(nm, getattr(jr, nm)))
    for nm in ("split", "fold_in"):
        setattr(jr, nm, mk_key(nm, getattr(jr, nm)))


class StepLimit(Exception):
    pass


def concrete(x):
    """Concrete NumPy value of x, or None if it is an abstract tracer."""
    import jax
    import numpy as np
    for _ in range(8):
        if not isinstance(x, jax.core.Tracer):
            return np.asarray(x)
        if hasattr(x, "primal"):
            x = x.primal
            continue
        pv = getattr(x, "pval", None)
        if pv is not None and pv.is_known():
            x = pv.get_known()
            continue
        return None
    return None
