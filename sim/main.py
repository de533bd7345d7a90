"""Entry point: main.py --property C03 | --replay FILE | --worker ... | --case PROP INDEX"""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True


def main():
    import boot
    os.environ.update(boot.ENV)
    import engine
    a = sys.argv[1:]
    if a and a[0] == "--worker":
        return engine.worker_main(a[1:])
    if a and a[0] == "--replay":
        code, msg = engine.replay(a[1])
        print("REPLAY " + json.dumps({"code": code, "msg": msg}))
        return 1 if code else 0
    if a and a[0] == "--fresh":
        boot.boot()
        import isosim
        isosim.child(a[1])
        return 0
    if a and a[0] == "--case":
        boot.boot()
        import props
        prop, i = a[1], int(a[2])
        seed = int(os.environ.get("VERIF_SEED", "1"))
        mod = props.load(prop)
        case = mod.gen(engine.case_rng(prop, seed, i), i, os.environ.get("VERIF_TIER", "quick"))
        print(json.dumps(case, indent=1))
        o, err = engine.execute(mod, case)
        print(o.code, o.msg, o.stats, o.fp, err or "")
        return 0
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("--property", required=True)
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--workers", type=int)
    ap.add_argument("--cases", type=int)
    n = ap.parse_args(a)
    return engine.campaign(n.property, n.tier, n.seed, n.workers, n.cases)


if __name__ == "__main__":
    sys.exit(main())
