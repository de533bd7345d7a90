"""C25: histories of operations on records, checked against a reference model of named fields."""
import copy
import pickle
import numpy as np
import jax
import jax.numpy as jnp
import mocat
from mocat import static_cdict
import disk
import shr
import zoo
import seams
from engine import fingerprint
from world import check, key_of

TIMES = ("time", "pf_time", "bsi_time")
ARR = ["value", "potential", "log_weight", "accept", "count", "alpha"]
TREED = ["value", "potential", "log_weight", "count"]


class Broken(Exception):
    pass


class Exploding(mocat.cdict):
    """A nested record whose operations fail."""

    def __getitem__(self, item):
        if isinstance(item, str):
            return self.__dict__[item]
        raise Broken("gather")

    def __add__(self, other):
        raise Broken("append")

    def __deepcopy__(self, memo):
        return self


# ------------------------------------------------------------------ generation
def gen_rec(rng, n, depth=0, pure=False):
    """Fields with a common leading length n."""
    f = {}
    for k in rng.sample(ARR if not pure else TREED, rng.randint(1, 3)):
        f[k] = ["arr", {"count": "int32", "accept": "bool"}.get(k, "float32"), n, {"value": [2], "log_weight": [], "potential": [], "accept": [], "count": [3, 1], "alpha": []}[k], rng.randrange(1 << 20)]
    if depth == 0 and rng.random() < 0.5:
        f["extra"] = ["rec", gen_rec(rng, n, 1, pure)]
        if rng.random() < 0.3:
            f["extra"][1]["deep"] = ["rec", gen_rec(rng, n, 2, pure)]
    if pure:
        return f
    if rng.random() < 0.7:
        f["time"] = ["py", rng.choice([0.5, 1.25, 3, 0.])]
    if rng.random() < 0.2:
        f["pf_time"] = ["py", 0.25]
        f["bsi_time"] = ["py", 0.125]
    if rng.random() < 0.5:
        f["summary"] = ["static", {"name": ["py", rng.choice(["run a", "run b"])], "stepsize": ["arr0", rng.random()], "sched": ["arr", "float32", rng.choice([n, 4]), [], 3]}]
    if rng.random() < 0.4:
        f["temperature"] = ["arr0", rng.choice([1., 0.5])]
    if rng.random() < 0.3:
        f["note"] = ["py", rng.choice(["abc", None, True, 7, [1, 2]])]
    if depth == 0 and rng.random() < 0.06:
        f["boom"] = ["boom", {"value": ["arr", "float32", n, [], 1]}]
    return f


def gen(prop, rng, i, tier):
    big = tier == "thorough"
    c = {"prop": prop, "recs": [], "ops": []}
    if rng.random() < 0.06:
        w = zoo.gen_work(rng, fam=rng.choice(["rw", "smc", "svgd", "filter", "ffbsi", "vanilla", "rwabc", "teki"]), faults=False)
        c["work"] = w
    for _ in range(rng.randint(1, 3)):
        pure = rng.random() < 0.25
        base = gen_rec(rng, rng.choice([0, 1, 2, 3, 5, 8]), pure=pure)
        c["recs"].append(base)
        if rng.random() < 0.75:       # a second record with (mostly) the same fields
            c["recs"].append(relength(base, rng.choice([0, 1, 2, 4]), rng, drop=rng.random() < 0.25))
    kinds = ["slice"] * 5 + ["chain"] * 5 + ["copy", "deepcopy", "set", "touch", "touch", "field", "tree", "scan", "pickle", "cut"]
    for _ in range(rng.randint(2, 8 if not big else 20)):
        k = rng.choice(kinds)
        op = {"op": k, "a": rng.randrange(40), "b": rng.randrange(40), "s": rng.randrange(1 << 20)}
        if k == "slice":
            op["item"] = rng.choice(["int", "negint", "slice", "slice", "negslice", "mask", "list", "intarray", "int2d", "emptyslice", "npint", "wrongmask"])
        if k in ("slice", "chain") and rng.random() < 0.12:
            op["fail"] = rng.randint(1, 4)
        c["ops"].append(op)
    return c


def relength(f, m, rng, drop=False):
    out = {}
    for k, s in f.items():
        if drop and rng.random() < 0.3:
            continue
        if s[0] == "arr":
            out[k] = [s[0], s[1], m, s[3], s[4] + 7]
        elif s[0] in ("rec", "boom"):
            out[k] = [s[0], relength(s[1], m, rng)]
        elif k in TIMES:
            out[k] = ["py", 2.0]
        else:
            out[k] = s
    return out


def shrinks(case):
    yield from shr.candidates(case, lists=["ops"])
    for j, r in enumerate(case["recs"]):
        for k in r:
            rs = list(case["recs"])
            rs[j] = {a: b for a, b in r.items() if a != k}
            yield dict(case, recs=rs)


# ------------------------------------------------------------------ the library's object and the model of it
def real(spec):
    k = spec[0]
    if k == "arr":
        return jnp.asarray(disk.arr(["np", spec[1], [spec[2]] + spec[3], spec[4]]))
    if k == "arr0":
        return jnp.asarray(spec[1], jnp.float32)
    if k == "py":
        return copy.deepcopy(spec[1])
    return {"rec": mocat.cdict, "static": static_cdict, "boom": Exploding}[k](**{n: real(s) for n, s in spec[1].items()})


class Opaque:
    def __init__(self, x, kind):
        self.x, self.kind = x, kind


def model(x):
    """Independent copy of what a record holds: {name: array | dict | Opaque}."""
    if isinstance(x, Exploding):
        return Opaque({k: model(v) for k, v in x.__dict__.items()}, "boom")
    if isinstance(x, static_cdict):
        return Opaque({k: model(v) for k, v in x.__dict__.items()}, "static")
    if isinstance(x, mocat.cdict):
        return {k: model(v) for k, v in x.__dict__.items()}
    if isinstance(x, jnp.ndarray):
        return np.array(x)
    return Opaque(copy.deepcopy(x) if isinstance(x, (list, dict, np.ndarray)) else x, "other")


def same(x, m):
    """None when object x holds exactly m, otherwise where they differ."""
    if isinstance(m, dict):
        if not isinstance(x, mocat.cdict):
            return f" is a {type(x).__name__}"
        if set(x.__dict__) != set(m):
            return f" has fields {sorted(x.__dict__)}, not {sorted(m)}"
        for k in m:
            r = same(x.__dict__[k], m[k])
            if r:
                return f".{k}{r}"
        return None
    if isinstance(m, np.ndarray):
        if not hasattr(x, "shape"):
            return f" is {x!r}"
        a = np.asarray(x)
        if a.shape != m.shape or a.dtype != m.dtype:
            return f" has shape {a.shape} {a.dtype}, not {m.shape} {m.dtype}"
        if a.tobytes() != m.tobytes() and not (a.dtype.kind == "f" and np.array_equal(a, m, equal_nan=True)):
            return f" holds {a.ravel()[:8]}, not {m.ravel()[:8]}"
        return None
    if m.kind in ("static", "boom"):
        r = same(x, m.x)
        return r if r else None
    if isinstance(m.x, np.ndarray):
        return same(x, m.x)
    if callable(m.x) and callable(x):
        return None
    return None if type(x) is type(m.x) and repr(x) == repr(m.x) else f" is {x!r}, not {m.x!r}"


def lengths(m):
    out = []
    for v in m.values():
        if isinstance(v, np.ndarray) and v.ndim:
            out.append(v.shape[0])
        elif isinstance(v, dict):
            out += lengths(v)
    return out


def ndims(m):
    out = []
    for v in m.values():
        if isinstance(v, np.ndarray) and v.ndim:
            out.append(v.ndim)
        elif isinstance(v, dict):
            out += ndims(v)
    return out


def nested(m, static=False, pre=()):
    """Paths of the nested records."""
    out = []
    for n, v in m.items():
        if isinstance(v, dict):
            out += [pre + (n,)] + nested(v, static, pre + (n,))
        elif static and isinstance(v, Opaque) and v.kind == "static":
            out += [pre + (n,)] + nested(v.x, static, pre + (n,))
        elif static and isinstance(v, Opaque) and isinstance(v.x, list):
            out.append(pre + (n,))
    return out


def both_nested(a, b, pre=()):
    out = []
    for n, v in a.items():
        if isinstance(v, dict) and isinstance(b.get(n), dict):
            out += [pre + (n,)] + both_nested(v, b[n], pre + (n,))
    return out


def at(x, path):
    for n in path:
        x = x.__dict__.get(n) if isinstance(x, mocat.cdict) else None
    return x


def m_at(m, path):
    for n in path:
        m = m.x if isinstance(m, Opaque) else m
        m = m[n] if isinstance(m, dict) and n in m else None
    return m


def has(m, kind):
    return any((isinstance(v, Opaque) and v.kind == kind) or (isinstance(v, dict) and has(v, kind)) for v in m.values())


def sliced(m, item):
    out = {}
    for k, v in m.items():
        if isinstance(v, np.ndarray) and v.ndim:
            out[k] = np.array(v[item])
        elif isinstance(v, dict):
            out[k] = sliced(v, item)
        else:
            out[k] = v
    return out


class Undefined(Exception):
    """The specification does not say what this operation gives."""


def chained(a, b):
    out = {}
    for k, v in a.items():
        if k not in b:
            out[k] = v
            continue
        w = b[k]
        if isinstance(v, np.ndarray) and isinstance(w, np.ndarray):
            x, y = np.atleast_1d(v), np.atleast_1d(w)
            if x.dtype != y.dtype or x.shape[1:] != y.shape[1:]:
                raise Undefined
            out[k] = np.concatenate([x, y])
        elif isinstance(v, np.ndarray) or isinstance(w, np.ndarray):
            raise Undefined
        elif isinstance(v, dict) and isinstance(w, dict):
            out[k] = chained(v, w)
        elif isinstance(v, dict) or isinstance(w, dict):
            raise Undefined
        elif k in TIMES:
            if not all(isinstance(u.x, (int, float)) for u in (v, w)):
                raise Undefined
            out[k] = Opaque(v.x + w.x, "other")
        elif isinstance(v, Opaque) and "boom" in (v.kind, getattr(w, "kind", "")):
            raise Undefined
        else:
            out[k] = v
    return out


def item_of(kind, n, s):
    """(index for the library, index for the model, or None when the length is unsuitable)."""
    r = np.random.default_rng(s)
    if kind in ("int", "negint", "npint", "list", "intarray", "int2d") and n == 0:
        return None
    if kind == "int":
        j = int(r.integers(n))
        return j, j
    if kind == "npint":
        j = np.int64(r.integers(n))
        return j, int(j)
    if kind == "negint":
        j = -1 - int(r.integers(n))
        return j, j
    if kind == "slice":
        a, b, st = int(r.integers(0, n + 2)), int(r.integers(0, n + 3)), int(r.integers(1, 4))
        it = slice(r.choice([None, a]), r.choice([None, b]), r.choice([None, st]))
        return it, it
    if kind == "negslice":
        it = [slice(None, None, -1), slice(-2, None), slice(None, -1), slice(-1, -4, -2)][int(r.integers(4))]
        return it, it
    if kind == "emptyslice":
        return slice(0, 0), slice(0, 0)
    if kind == "mask":
        m = r.random(n) < 0.5
        return jnp.asarray(m), m
    if kind == "list":
        j = [int(x) for x in r.integers(-n, n, int(r.integers(1, 5)))]
        return jnp.asarray(j), np.asarray(j)
    if kind == "intarray":
        j = r.integers(0, n, int(r.integers(0, 5))).astype(np.int32)
        return jnp.asarray(j), j
    if kind == "int2d":
        j = r.integers(0, n, (2, 2)).astype(np.int32)
        return jnp.asarray(j), j
    return jnp.asarray(np.ones(n + 3, bool)), "fails"


class Failing:
    """The k-th array operation the library asks for fails (out of memory)."""
    NAMES = ["append", "concatenate", "hstack", "vstack", "atleast_1d", "take", "stack", "reshape", "asarray", "array"]

    def __init__(self, k):
        self.k, self.n, self.fired = k, 0, False

    def __enter__(self):
        self.saved = {nm: getattr(jnp, nm) for nm in self.NAMES}
        for nm, f in self.saved.items():
            setattr(jnp, nm, self.wrap(f))
        return self

    def wrap(self, f):
        def g(*a, **k):
            self.n += 1
            if self.n == self.k:
                self.fired = True
                raise MemoryError("array operation")
            return f(*a, **k)
        return g

    def __exit__(self, *a):
        for nm, f in self.saved.items():
            setattr(jnp, nm, f)


class NoFail:
    fired = False

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


# ------------------------------------------------------------------ execution
def run(case, o):
    live, models, own = [], [], []

    def add(x, m, owned=()):
        live.append(x)
        models.append(m)
        own.append(set(owned))

    for spec in case["recs"]:
        x = real(["rec", spec])
        add(x, model(x), owned=nested(model(x), True))
    if case.get("work"):
        ob = zoo.build(case["work"])
        out = zoo.raw(case["work"], ob, key_of(3))
        out = out if isinstance(out, mocat.cdict) else None
        if out is not None:
            for x in (out, out.copy()):
                add(x, model(x))
            o.bump("probe:records of a real run")
    trail = []

    def all_same(where):
        for j, (x, m) in enumerate(zip(live, models)):
            r = same(x, m)
            check(r is None, "operand-changed", "%s: record %d%s", where, j, r)

    all_same("start")
    for j, op in enumerate(case["ops"]):
        if not live:
            break
        trail.append(step(case, o, op, j, live, models, own, add))
        all_same(f"after op {j} ({op['op']})")
    o.bump("ticks", len(case["ops"]))
    o.fp = fingerprint(trail, len(live))
    o.nontrivial = any(t and t[1] != "skip" for t in trail)


def step(case, o, op, j, live, models, own, add):
    k = op["op"]
    ia = op["a"] % len(live)
    a, ma = live[ia], models[ia]
    fail = Failing(op["fail"]) if op.get("fail") else NoFail()
    where = f"op {j} ({k} of record {ia})"
    if k == "slice":
        ls = lengths(ma)
        it = item_of(op["item"], min(ls) if ls else 3, op["s"])
        if it is None or (op["item"] in ("mask",) and len(set(ls)) > 1):
            return (k, "skip")
        item, mi = it
        want = None if has(ma, "boom") or isinstance(mi, str) else sliced(ma, mi)
        try:
            with fail:
                x = a[item]
        except Exception as e:
            check(want is None or fail.fired, "slice-fails", "%s with %r failed: %s: %s", where, item, type(e).__name__, e)
            o.bump("fault:operation failed " + type(e).__name__)
            return (k, "failed", op["item"])
        if want is None:
            return (k, "odd", op["item"])
        r = same(x, want)
        check(r is None, "slice-wrong", "%s with %r: result%s", where, item, r)
        check(x is not a, "slice-aliases", "%s returned its operand", where)
        add(x, model(x), owned=nested(ma))
        return (k, op["item"], tuple(sorted(ls)))
    if k == "chain":
        ib = op["b"] % len(live)
        if op["s"] % 3:      # mostly something that fits
            fit = [q for q in range(len(live)) if fits(ma, models[q])]
            ib = fit[op["b"] % len(fit)] if fit else ib
        b, mb = live[ib], models[ib]
        if op["s"] % 11 == 0:
            b, mb = None, {}
        try:
            want = chained(ma, mb)
        except Undefined:
            want = None
        try:
            with fail:
                x = a + b
        except Exception as e:
            check(want is None or fail.fired, "chain-fails", "%s with record %d failed: %s: %s", where, ib, type(e).__name__, e)
            o.bump("fault:operation failed " + type(e).__name__)
            return (k, "failed")
        if want is None:
            return (k, "odd")
        r = same(x, want)
        check(r is None, "chain-wrong", "%s with record %d: result%s", where, ib, r)
        check(x is not a and x is not b, "chain-aliases", "%s returned its operand", where)
        add(x, model(x), owned=both_nested(ma, mb))
        return (k, tuple(sorted(ma)), ia == ib, tuple(sorted(set(lengths(want)))))
    if k == "copy":
        x = a.copy()
        r = same(x, ma)
        check(r is None, "copy-wrong", "%s: result%s", where, r)
        add(x, model(x))
        return (k, len(ma))
    if k == "deepcopy":
        x = a.deepcopy() if op["s"] % 2 else copy.deepcopy(a)
        r = same(x, ma)
        check(r is None, "copy-wrong", "%s: result%s", where, r)
        add(x, model(x), owned=nested(ma, True))
        return (k, len(ma))
    if k == "set":
        name = (sorted(ma) + ["fresh"])[op["s"] % (len(ma) + 1)]
        a.__setattr__(name, jnp.arange(op["s"] % 4))
        own[ia] = {q for q in own[ia] if q[0] != name}
        ma[name] = np.array(jnp.arange(op["s"] % 4))
        return (k, name)
    if k == "cut":
        if len(ma) < 2:
            return (k, "skip")
        name = sorted(ma)[op["s"] % len(ma)]
        delattr(a, name)
        own[ia] = {q for q in own[ia] if q[0] != name}
        del ma[name]
        return (k, name)
    if k == "touch":
        # change inside a nested object that this record alone holds
        paths = sorted(q for q in own[ia] if m_at(ma, q) is not None)
        if not paths:
            return (k, "skip")
        path = paths[op["s"] % len(paths)]
        v, mv = at(a, path), m_at(ma, path)
        # a shallow copy or the unmatched part of a chain may hold it too: leave those alone, unless both should be fresh
        holders = [(q, p) for q, x in enumerate(live) for p in all_paths(x) if at(x, p) is v and (q, p) != (ia, path)]
        if any(p not in own[q] for q, p in holders):
            return (k, "skip")
        if isinstance(v, mocat.cdict):
            v.__dict__["touched"] = jnp.ones(2) * (op["s"] % 5)
            (mv.x if isinstance(mv, Opaque) else mv)["touched"] = np.array(v.__dict__["touched"])
        else:
            v.append(op["s"])
            mv.x.append(op["s"])
        return (k, path)
    if k == "field":
        for name in ma:
            check(a[name] is a.__dict__[name] and getattr(a, name) is a.__dict__[name], "field-access", "%s: field %s", where, name)
        check(list(a) == list(a.__dict__) and list(a.keys()) == list(a.__dict__) and set(a) == set(ma), "field-access", "%s: iteration gives %s", where, list(a))
        check(a.is_empty == (len(ma) == 0), "field-access", "%s: is_empty is %s with %d fields", where, a.is_empty, len(ma))
        return (k, len(ma))
    if k == "pickle":
        if has(ma, "boom"):
            return (k, "skip")
        try:
            d = pickle.dumps(a)
        except Exception:
            return (k, "skip")
        x = pickle.loads(d)
        r = same(x, ma)
        check(r is None, "copy-wrong", "%s: result%s", where, r)
        return (k, len(ma))
    if k in ("tree", "scan"):
        if not pure(ma):
            return (k, "skip")
        n = len(lengths(ma)) and min(lengths(ma))
        if k == "tree":
            x = jax.tree_util.tree_map(lambda v: v, a)
            r = same(x, ma)
            check(r is None, "tree-wrong", "%s: passing through a tree map: result%s", where, r)
            return (k, len(ma))
        ls = lengths(ma)
        if not ls or len(set(ls)) > 1 or n == 0 or any(isinstance(v, np.ndarray) and not v.ndim for v in ma.values()) or zero_d(ma):
            return (k, "skip")
        how = op["s"] % 3
        if how == 0:
            x = jax.lax.scan(lambda c, i: (c, a[i]), None, jnp.arange(n))[1]
        elif how == 1:
            x = jax.vmap(lambda r_: r_.copy())(a)
        else:
            x = jax.vmap(lambda i: a[i])(jnp.arange(n))
        r = same(x, ma)
        check(r is None, "tree-wrong", "%s: gathering all rows again (%s): result%s", where, ["scan", "vmap", "vmap of index"][how], r)
        return (k, how, n)
    raise KeyError(k)


def all_paths(x, pre=()):
    out = []
    for n, v in x.__dict__.items():
        if isinstance(v, (mocat.cdict, list)):
            out.append(pre + (n,))
        if isinstance(v, mocat.cdict):
            out += all_paths(v, pre + (n,))
    return out


def fits(a, b):
    try:
        chained(a, b)
    except Undefined:
        return False
    return set(a) == set(b)


def pure(m):
    return all(isinstance(v, np.ndarray) or (isinstance(v, dict) and pure(v)) for v in m.values())


def zero_d(m):
    return any((isinstance(v, np.ndarray) and v.ndim == 0) or (isinstance(v, dict) and zero_d(v)) for v in m.values())
