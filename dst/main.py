"""python -m dst.main check|replay|digest ..."""
import importlib, json, os, sys


def load(pid):
    return importlib.import_module("dst.props." + pid.lower()).PROP


def booted():
    from . import boot, world
    boot.boot()
    world.prepare()
    import gc
    sys.unraisablehook = lambda *a: None    # aborts that land in a generator being closed
    gc.collect()
    gc.freeze()


WEB = ("C28", "C29", "C30", "C31", "C32", "C33")      # decided in the simulated browser: nothing of the Python package is loaded


def ready(pid):
    if pid not in WEB:
        booted()
    prop = load(pid)
    prop.setup()
    return prop


def main(argv):
    cmd = argv[0]
    if cmd == "check":
        seed = int(os.environ.get("VERIF_SEED", "1"))
        tier = os.environ.get("VERIF_TIER", "quick")
        if len(argv) > 2:
            tier = argv[2]
        from . import engine
        prop = ready(argv[1])
        return engine.check(prop, seed, tier)
    if cmd == "replay":
        with open(argv[1]) as f:
            rec = json.load(f)
        from . import engine
        prop = ready(rec["property"])
        out = engine.run_plan(prop, rec["plan"], engine.Env(prop, "quick"))
        v = out.get("violation")
        if v and v["cls"] == rec["violation"]["cls"]:
            print("%s: %s" % (v["cls"], v["msg"]))
            print("event log %s" % out["log"])
            print("VIOLATION property=%s replay=%s" % (rec["property"], argv[1]))
            return 1
        print("no violation" if not v else "different violation %r" % (v,))
        return 0
    if cmd == "digest":    # event-log digests of many seeds, for determinism self-tests
        from . import engine
        prop_id, seed, chunks, workers = argv[1], int(argv[2]), int(argv[3]), int(argv[4])
        prop = ready(prop_id)
        tot = engine.search(prop, seed, "quick", chunks, workers, 600, stop_on_violation=False)
        for x in sorted(tot["logs"]):
            print(*x)
        for e in tot["errs"]:
            print("ERR", e)
        return 0
    raise SystemExit("usage")


if __name__ == "__main__":
    try:
        rc = main(sys.argv[1:])
    except BaseException:
        import traceback
        traceback.print_exc()
        rc = 2
    from dst import engine
    for f in engine.CLEANUP:
        f()
    sys.stdout.flush()
    os._exit(rc)
