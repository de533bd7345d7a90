"""C01, C02: saving and loading on a simulated disk."""
import os
import shutil
import tempfile
import gc
import hashlib
from pathlib import Path

import numpy as np
import jax.numpy as jnp
import mocat
from mocat.src.core import static_cdict
import seams
import shr
from engine import fingerprint
from seams import Interrupted
from simfs import SimDisk, Killed
from world import check, Violation

PATHS = ["a.cdict", "b", "sub/dir/c.cdict", "d.pkl", "e.v1", "deep/f"]
TARGET = {"a.cdict": "a.cdict", "b": "b.cdict", "sub/dir/c.cdict": "sub/dir/c.cdict", "d.pkl": "d.cdict",
          "e.v1": "e.cdict", "deep/f": "deep/f.cdict"}
FAULTS = ["kill", "kill", "power", "power", "power", "full", "eio", "eio", "interrupt", "short", "shortfull", "memory", "eacces"]


class Unserialisable:
    def __reduce__(self):
        raise TypeError("cannot serialise this")


class RaisesInterrupt:
    def __reduce__(self):
        raise Interrupted("serialising")


# ------------------------------------------------------------------ content
def make(spec):
    """JSON description -> object."""
    k = spec[0]
    if k == "cdict":
        return mocat.cdict(**{n: make(s) for n, s in spec[1].items()})
    if k == "static":
        return static_cdict(**{n: make(s) for n, s in spec[1].items()})
    if k == "jnp":
        return jnp.asarray(arr(spec))
    if k == "np":
        return arr(spec)
    if k == "list":
        return [make(s) for s in spec[1]]
    if k == "tuple":
        return tuple(make(s) for s in spec[1])
    if k == "py":
        return spec[1]
    if k == "nan":
        return float("nan")
    if k == "bad":
        return Unserialisable()
    raise KeyError(k)


def arr(spec):
    _, dtype, shape, seed = spec
    r = np.random.default_rng(seed)
    n = int(np.prod(shape)) if shape else 1
    if dtype.startswith("float"):
        v = r.normal(size=n)
        if n:
            sp = [np.nan, np.inf, -np.inf, -0.0, 1e-40, 3.4e38]
            for _ in range(min(3, n)):
                if r.random() < 0.5:
                    v[r.integers(n)] = sp[r.integers(len(sp))]
    elif dtype == "bool":
        v = r.random(n) < 0.5
    else:
        v = r.integers(0, 2 ** 31 - 1, n)
    return np.asarray(v).astype(dtype).reshape(shape)


def gen_obj(rng, depth=0):
    out = {}
    for _ in range(rng.randint(0 if depth else 1, 4)):
        name = rng.choice(["value", "log_weight", "time", "summary", "potential", "random_key", "name", "x0", "y"])
        out[name] = gen_leaf(rng, depth)
    return ["static" if depth and rng.random() < 0.4 else "cdict", out]


def gen_leaf(rng, depth):
    r = rng.random()
    if r < 0.55:
        dt = rng.choice(["float32", "float32", "int32", "uint32", "bool", "float16"])
        shape = rng.choice([[], [3], [2, 3], [0], [1], [7, 1], [2, 0, 3], [40, 5]])
        return ["jnp", dt, shape, rng.randrange(1 << 20)]
    if r < 0.65:
        return ["np", rng.choice(["float64", "int64", "float32"]), rng.choice([[], [4], [2, 2]]), rng.randrange(1 << 20)]
    if r < 0.8 and depth < 3:
        return gen_obj(rng, depth + 1)
    if r < 0.86:
        return [rng.choice(["list", "tuple"]), [gen_leaf(rng, depth + 1) for _ in range(rng.randint(0, 3))]]
    if r < 0.9:
        return ["nan"]
    return ["py", rng.choice([None, 1, -2.5, True, "name with ünïcode", "", 10 ** 20, [1, 2], {"a": 1}])]


def freeze(x):
    """Deep immutable description of an object's contents."""
    if isinstance(x, mocat.cdict):
        return (type(x).__name__, tuple((k, freeze(v)) for k, v in x.__dict__.items()))
    if isinstance(x, jnp.ndarray):
        a = np.asarray(x)
        return ("jnp", str(a.dtype), a.shape, a.tobytes())
    if isinstance(x, np.ndarray):
        return ("np", str(x.dtype), x.shape, x.tobytes())
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, tuple(freeze(v) for v in x))
    if isinstance(x, dict):
        return ("dict", tuple((k, freeze(v)) for k, v in x.items()))
    if isinstance(x, float):
        return ("float", repr(x))
    return (type(x).__name__, repr(x))


def order_free(f):
    """Key order of containers is not part of the contents."""
    if isinstance(f, tuple) and len(f) == 2 and f[0] in ("cdict", "static_cdict", "dict") and isinstance(f[1], tuple):
        return (f[0], tuple(sorted((k, order_free(v)) for k, v in f[1])))
    if isinstance(f, tuple) and len(f) == 2 and f[0] in ("list", "tuple") and isinstance(f[1], tuple):
        return (f[0], tuple(order_free(v) for v in f[1]))
    return f


def describe(x):
    return order_free(freeze(x))


def mutate(x, how):
    ks = list(x.__dict__)
    if not ks:
        x.__dict__["added"] = jnp.ones(2)
        return
    k = ks[how % len(ks)]
    v = x.__dict__[k]
    if isinstance(v, mocat.cdict):
        return mutate(v, how // 2)
    if isinstance(v, np.ndarray) and v.size and how % 3:
        v.flat[0] = 0
        return
    if isinstance(v, list):
        v.append(99)
        return
    if how % 3 == 0:
        del x.__dict__[k]
    else:
        x.__dict__[k] = jnp.arange(how % 5)


# ------------------------------------------------------------------ generation
def gen(prop, rng, i, tier):
    big = tier == "thorough"
    c = {"prop": prop, "buf": rng.choice([32, 128, 512, 8192]), "objs": [gen_obj(rng) for _ in range(rng.randint(1, 3))], "ops": []}
    nops = rng.randint(2, 5) if prop == "C01" else rng.randint(3, 12 if not big else 20)
    paths = rng.sample(PATHS, rng.randint(1, 2 if prop == "C01" else 3))
    pf = 0.6 if prop == "C01" else 0.25
    for _ in range(nops):
        r = rng.random()
        if r < (0.85 if prop == "C01" else 0.5):
            op = {"op": "save", "obj": rng.randrange(len(c["objs"])), "path": rng.choice(paths),
                  "overwrite": rng.random() < 0.7, "via": rng.choice(["func", "method", "pathobj"])}
            if rng.random() < pf:
                if rng.random() < 0.2:
                    op["bad"] = rng.choice(["first", "last", "interrupt"])
                else:
                    op["faults"] = [[rng.randrange(1000), rng.choice(FAULTS)] for _ in range(rng.choice([1, 1, 1, 2]))]
                    op["power"] = [rng.randrange(1000), rng.randrange(1000)]
        elif r < 0.65:
            op = {"op": "load", "path": rng.choice(paths)}
        elif r < 0.78:
            op = {"op": "mutate", "obj": rng.randrange(len(c["objs"])), "how": rng.randrange(30)}
        elif r < 0.82:
            op = {"op": "restart"}
        elif r < 0.85:
            op = {"op": "plant", "path": rng.choice(paths), "what": rng.choice(["empty", "garbage", "truncated"])}
        elif r < 0.9:
            op = {"op": "mutate_loaded", "how": rng.randrange(30)}
        elif r < 0.95:
            op = {"op": "load_missing", "path": rng.choice(["nope.cdict", "sub", "no/dir.cdict", "a"])}
        else:
            op = {"op": "load_foreign", "name": rng.choice(["x.pkl", "x.txt", "y"])}
        c["ops"].append(op)
    return c


def shrinks(case):
    yield from shr.candidates(case, lists=["ops", "objs"])
    for j, op in enumerate(case["ops"]):
        if op.get("faults") and len(op["faults"]) > 1:
            for k in range(len(op["faults"])):
                ops = [dict(p) for p in case["ops"]]
                ops[j] = dict(op, faults=op["faults"][:k] + op["faults"][k + 1:])
                yield dict(case, ops=ops)
    for j, ob in enumerate(case["objs"]):
        for k in list(ob[1]):
            objs = list(case["objs"])
            objs[j] = [ob[0], {a: b for a, b in ob[1].items() if a != k}]
            yield dict(case, objs=objs)


# ------------------------------------------------------------------ execution
class W:
    pass


def do_save(root, obj, op):
    p = os.path.join(root, op["path"])
    if op["via"] == "method" and hasattr(obj, "save") and not hasattr(obj, "__no"):
        mocat.cdict.save(obj, p, overwrite=op["overwrite"])
    elif op["via"] == "pathobj":
        mocat.save_cdict(obj, Path(p), overwrite=op["overwrite"])
    else:
        mocat.save_cdict(obj, p, op["overwrite"])


def read(root, rel):
    """What a fresh process finds at the path: (present, description or error)."""
    p = os.path.join(root, rel)
    if not os.path.lexists(p):
        return False, None
    try:
        return True, describe(mocat.load_cdict(p))
    except Exception as e:
        raw = open(p, "rb").read() if os.path.isfile(p) else b""
        return True, ("unreadable", f"{type(e).__name__}: {e}", len(raw), hashlib.sha256(raw).hexdigest())


def run(case, o):
    top = tempfile.mkdtemp(prefix="mocat-sim-fs-")
    try:
        _run(case, o, top)
    finally:
        gc.collect()
        shutil.rmtree(top, ignore_errors=True)


def _run(case, o, top):
    root = os.path.join(top, "d")
    os.mkdir(root)
    objs = [make(s) for s in case["objs"]]
    if not objs:
        return
    disk = SimDisk(root, case["buf"])
    model = {}          # target -> set-list of allowed descriptions (None = nothing there)
    loaded = None
    trail = []
    for j, op in enumerate(case["ops"]):
        k = op["op"]
        if k == "save":
            trail.append(save_op(case, o, root, disk, objs, model, op, j))
        elif k == "load":
            t = TARGET[op["path"]]
            allowed = model.get(t, [None])
            present, d = read(root, t)
            judge(o, allowed, present, d, t, j, "load", "lost-or-mixed")
            model[t] = [d if present else None]
            if present and d[0] != "unreadable":
                loaded = mocat.load_cdict(os.path.join(root, t))
        elif k == "mutate":
            mutate(objs[op["obj"] % len(objs)], op["how"])
        elif k == "mutate_loaded":
            if loaded is not None:
                mutate(loaded, op["how"])
        elif k == "plant":
            # a file that something else left at the target path
            t = TARGET[op["path"]]
            p = os.path.join(root, t)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "wb") as f:
                f.write({"empty": b"", "garbage": b"not a pickle \x00\x01" * 9, "truncated": b"\x80\x04\x95"}[op["what"]])
            disk.checkpoint()
            model[t] = [read(root, t)[1]]
            o.bump("fault:foreign file at target")
        elif k == "restart":
            disk.checkpoint()
            o.bump("fault:restart")
        elif k == "load_missing":
            rel = op["path"]
            if rel in model and model[rel] != [None]:
                continue
            if os.path.isfile(os.path.join(root, rel)):
                continue
            try:
                mocat.load_cdict(os.path.join(root, rel))
            except Exception:
                pass
            else:
                raise Violation("load-missing", f"op {j}: loading missing {rel} did not raise")
        elif k == "load_foreign":
            p = os.path.join(root, op["name"])
            import pickle
            with open(p, "wb") as f:
                pickle.dump(mocat.cdict(a=1), f)
            disk.checkpoint()
            try:
                mocat.load_cdict(p)
            except Exception:
                pass
            else:
                raise Violation("load-foreign", f"op {j}: loading {op['name']} (no .cdict suffix) did not raise")
    # end of history: everything still there
    for t, allowed in model.items():
        present, d = read(root, t)
        judge(o, allowed, present, d, t, len(case["ops"]), "final load", "lost-or-mixed")
    for rel in sorted(os.listdir(root)):
        pass
    o.bump("ticks", disk.calls)
    o.fp = fingerprint(trail, case["buf"], [op.get("path") for op in case["ops"]])
    o.nontrivial = any(t[0] != "skip" for t in trail)


def judge(o, allowed, present, d, t, j, what, code):
    if not present:
        check(any(a is None for a in allowed), code, "op %d (%s): %s has vanished", j, what, t)
        return
    if any(a is not None and a == d for a in allowed):
        return
    if isinstance(d, tuple) and d and d[0] == "unreadable":
        raise Violation(code, f"op {j} ({what}): {t} is not a complete file: {d[1]} (size {d[2]})")
    raise Violation(code, f"op {j} ({what}): {t} holds {str(d)[:300]}, expected one of {str(allowed)[:600]}")


def save_op(case, o, root, disk, objs, model, op, j):
    obj = objs[op["obj"] % len(objs)]
    t = TARGET[op["path"]]
    prev = model.get(t, [None])
    # collapse an undetermined past
    present, d = read(root, t)
    judge(o, prev, present, d, t, j, "before save", "lost-or-mixed")
    prev = d if present else None
    model[t] = [prev]
    before = dict(obj.__dict__)
    bad = op.get("bad")
    if bad:
        x = RaisesInterrupt() if bad == "interrupt" else Unserialisable()
        new = {"zz": x, **obj.__dict__} if bad == "first" else {**obj.__dict__, "zz": x}
        src = mocat.cdict(**new)
    else:
        src = obj
    want = describe(obj)
    disk.checkpoint()
    disk.dead = disk.full = False
    disk.fired, disk.plan, end = [], {}, None
    if op.get("faults"):
        n = dry_run(case, root, src, op)
        if n:
            # place n is the moment after the last call, before the save has returned
            disk.plan = {disk.calls + f[0] % (n + (f[1] in ("kill", "power"))): (f[1], None) for f in op["faults"]}
            end = disk.plan.pop(disk.calls + n, None)
    outcome = "ok"
    start = disk.calls
    with disk:
        try:
            do_save(root, src, op)
        except Killed:
            outcome = "killed"
        except Interrupted:
            outcome = "interrupted"
        except RuntimeError as e:
            outcome = "error:RuntimeError"
        except Exception as e:
            outcome = "error:" + type(e).__name__
        except BaseException as e:
            outcome = "error:" + type(e).__name__
        if disk.dead:
            gc.collect()
    if outcome == "ok" and end and not disk.dead:
        disk.fired.append((end[0], "end"))
        if end[0] == "power":
            outcome = "killed"
    for kind, what in disk.fired:
        o.bump(f"fault:{kind} at {what}")
    if bad:
        o.bump("fault:unserialisable content")
    check(dict(obj.__dict__).keys() == before.keys(), "object-changed", "op %d: saving changed the object", j)
    if not bad:
        check(describe(obj) == want, "object-changed", "op %d: saving changed the object", j)
    was_power = any(k == "power" for k, _ in disk.fired)
    if outcome == "killed" and was_power:
        k, n = disk.power_loss(op["power"])
        outcome = "power"
    disk.dead = disk.full = False
    disk.plan = {}
    present, d = read(root, t)
    if not op["overwrite"] and prev is not None:
        check(outcome != "ok", "overwrite-guard", "op %d: save without overwrite onto existing %s succeeded", j, t)
        judge(o, [prev], present, d, t, j, "refused save", "overwrite-guard")
        model[t] = [prev]
    elif outcome == "ok":
        check(not bad, "save-bad-content", "op %d: saving unserialisable content succeeded", j)
        if disk.fired and all(f[0] not in ("short",) for f in disk.fired) and case["prop"] == "C02":
            o.bump("probe:save survived fault")
        judge(o, [want], present, d, t, j, "after save", "save-lost")
        model[t] = [want]
    else:
        if not disk.fired and not bad:
            raise Violation("save-fails", f"op {j}: saving to {op['path']} failed without any fault: {outcome}")
        allowed = [prev] + ([want] if not bad else [])
        judge(o, allowed, present, d, t, j, f"after save cut short ({outcome}, {disk.fired})", "not-atomic")
        model[t] = [d if present else None]
        o.bump("probe:cut short, " + ("old" if (d if present else None) == prev else "new") + " contents")
    return (outcome, tuple(disk.fired), disk.calls - start, present)


def dry_run(case, root, src, op):
    """Number of file-system calls the save makes when nothing fails (on a copy)."""
    tmp = root + "-dry"
    shutil.copytree(root, tmp)
    d2 = SimDisk(tmp, case["buf"])
    try:
        with d2:
            try:
                do_save(tmp, src, op)
            except Exception:
                pass
            except Interrupted:
                pass
        return d2.calls
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
