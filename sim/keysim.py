"""C15: no random key serves two draws, in any simulated work."""
import copy
import numpy as np
from jax import random
import seams
import shr
import zoo
from engine import fingerprint
from world import check, key_of

SAMPLING = {"prior_sample", "likelihood_sample", "initial_sample", "transition_sample", "proposal_sample"}
KEYOPS = {"split", "fold_in"}


def gen(prop, rng, i, tier):
    c = {"prop": prop, "work": zoo.gen_work(rng, fam=zoo.ALL[i % len(zoo.ALL)] if i < 3 * len(zoo.ALL) else None, draws=True, small=tier != "thorough"),
         "k1": rng.randrange(1 << 30), "how": rng.choice(["seeds", "split", "fold", "next"]), "m": rng.randint(2, 5)}
    w = c["work"]["case"]
    if "thr" in w and rng.random() < 0.5:
        w["thr"] = 1.1
    if "smc" in w and rng.random() < 0.4:
        w["smc"]["ess_threshold_resample"] = 1.
    if c["work"]["fam"] == "abcsmc" and rng.random() < 0.4:
        w["resample"] = 1.
    return c


def shrinks(case):
    yield from shr.candidates(case, ints=[("work.case.n", 2), ("work.case.nsamps", 1), ("work.case.maxrej", 0), ("work.case.lag", 1)],
                              dicts=["work.case.draws.uniform", "work.case.draws.cat", "work.case.draws.normal"],
                              sets=[("work.case.target.faults", {"mode": "none"}), ("work.case.model.faults", {"mode": "none"})])
    t = case["work"]["case"].get("times")
    if t and len(t) > 2:
        c = copy.deepcopy(case)
        c["work"]["case"]["times"].pop()
        if "ys" in c["work"]["case"]:
            c["work"]["case"]["ys"].pop()
        yield c


def caller_keys(case):
    k = key_of(case["k1"])
    if case["how"] == "seeds":
        return k, key_of(case["k1"] ^ 0x5bd1e995)
    if case["how"] == "next":
        return k, key_of(case["k1"] + 1)
    if case["how"] == "split":
        ks = random.split(k, case["m"])
        return ks[0], ks[-1]
    return random.fold_in(k, 0), random.fold_in(k, 1)


def uses(ctx):
    """[(position, key, kind, what)] of draws, sampling callbacks and splits, in order."""
    out = []
    for p, d in enumerate(ctx.tape):
        if d.get("user"):
            continue
        out.append((p + 0.5, d["key"], "split" if d["op"] in KEYOPS else "draw", d["op"]))
    for e in ctx.events:
        if e["cb"] in SAMPLING and e["key"] is not None:
            out.append((e["tape"], e["key"], "draw", "callback " + e["cb"]))
    out.sort(key=lambda u: u[0])
    return out


def hexkey(k):
    return k[:8].hex()


def once(ctx, where):
    us = uses(ctx)
    drawn, split = {}, {}
    for n, (p, key, kind, what) in enumerate(us):
        if kind == "draw":
            check(key not in drawn, "key-reused", "%s: key %s serves %s (number %d) and again %s (number %d)", where, hexkey(key),
                  *(drawn.get(key, ("", 0))), what, n)
            check(key not in split, "key-drawn-and-split", "%s: key %s was split (number %d) and drawn from by %s (number %d)", where, hexkey(key),
                  split.get(key, 0), what, n)
            drawn[key] = (what, n)
        else:
            check(key not in drawn, "key-drawn-and-split", "%s: key %s was drawn from by %s (number %d) and then split (number %d)", where, hexkey(key),
                  *(drawn.get(key, ("", 0))), n)
            split.setdefault(key, n)
    return us, drawn


def run(case, o):
    spec = case["work"]
    ks = caller_keys(case)
    seen = []
    for j, k in enumerate(ks):
        ob = zoo.build(spec)
        kb = bytes(np.asarray(k).tobytes())
        with seams.Ctx() as ctx:
            plan = zoo.set_plan(spec, ctx)
            rec = zoo.go(spec, ob, k)
        o.bump("ticks", ctx.ticks)
        if plan.fired:
            o.bump("fault:extreme draw", plan.fired)
        where = f"{spec['fam']} run {j}"
        us, drawn = once(ctx, where)
        # the key kept for continuing
        for n, u in enumerate(ctx.stats.get("updates", [])):
            k = u.get("key_out")
            if k is None:
                continue
            for p, key, kind, what in us:
                if p > u["tape1"]:
                    break
                check(key != k or p >= u["tape1"], "continuation-key-used", "%s: after update %d the key kept for continuing had already been used: %s", where, n, what)
        o.bump("draws", len(drawn))
        for what, _ in drawn.values():
            o.bump("probe:" + what)
        seen.append((drawn, rec, us))
        if not drawn:
            o.bump("no draws")
    both = set(seen[0][0]) & set(seen[1][0])
    for key in both:
        check(False, "key-shared", "%s: callers' keys %s and %s share key %s, drawn from by %s and %s", spec["fam"],
              *(hexkey(bytes(np.asarray(k).tobytes())) for k in ks), hexkey(key), seen[0][0][key][0], seen[1][0][key][0])
    o.fp = fingerprint(spec["fam"], [(kind, what) for _, _, kind, what in seen[0][2]], case["how"])
    o.nontrivial = len(seen[0][0]) > 1
