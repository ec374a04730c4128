import json, math, os, subprocess
from .. import canon
from ..engine import HarnessError
from ..notebook import NotebookProp

JS = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "page.js")


def same(a, b):
    """JSON equality: numbers by value with rounding noise absorbed, everything else exactly."""
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if any(isinstance(x, float) and not math.isfinite(x) for x in (a, b)):     # no JSON number: NaN or null will do
        return b is not None and (a is None or repr(a) == repr(b))
    if isinstance(a, bool) or isinstance(b, bool) or a is None or b is None:
        return a is b
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return canon._close(float(a), float(b))
    return type(a) is type(b) and a == b


def number(d):
    v = d.get("\x00num") if len(d) == 1 else None
    return d if v is None else dict(NaN=math.nan, Infinity=math.inf).get(v, -math.inf)


class C11(NotebookProp):
    id = "C11"
    p_init = .08
    stubs = NotebookProp.stubs + ["browser DOM (HTML tokenizer and querySelector written for the check); scripts run in node"]
    rule = ("1-3 kernels sharing one page, each with 1-3 threads making 1-4 plots of planes and of records with hostile text, under failed, "
            "slow or falsely failed deliveries, re-seeded generators, stuck clocks, preemptions and aborts; every published document is "
            "executed in node; distinct = different (planes, operations, faults); non-trivial = at least one call was made")

    def judge(self, S, stats, fail, o, rec, exc, inj, done_before):
        if o["k"] == "init":
            return
        stats["probe:interactive plots"] += 1
        if exc is not None and not inj:
            fail("raised", "an interactive plot raised %s without any fault" % type(exc).__name__)
        if exc is None:
            if o.get("pub"):
                fail("silent", "publishing failed and the plot call returned normally")
            elif len(rec["shown"]) != 1:
                fail("count", "a plot call published %d documents" % len(rec["shown"]))
        elif len(rec["shown"]) > 1:
            fail("count", "a failed plot call published %d documents" % len(rec["shown"]))
        for m in rec["shown"]:
            if not isinstance(m.get("text/html"), str):
                fail("count", "a plot call published no HTML")

    def page_check(self, plan, R, page, stats):
        if not page:
            return None
        p = subprocess.run(["node", JS], input=json.dumps(dict(docs=[d["html"] for d in page])).encode(), capture_output=True, timeout=60)
        if p.returncode:
            raise HarnessError("node: " + p.stderr.decode()[-500:])
        seen = set()
        for d, r in zip(page, json.loads(p.stdout)):
            stats["probe:documents executed"] += 1
            o = next(o for o in plan["epochs"][d["epoch"]]["ops"] if o["id"] == d["op"])
            where = "plot of %d planes in kernel %d" % (len(o["items"]), d["epoch"])
            if r["errors"]:
                return dict(cls="script", msg="%s: the published script fails: %s" % (where, r["errors"][0]))
            if len(r["calls"]) != 1:
                return dict(cls="calls", msg="%s: the published script starts %d plots" % (where, len(r["calls"])))
            c = r["calls"][0]
            if set(r["ids"]) & seen or len(set(r["ids"])) != len(r["ids"]):
                return dict(cls="collision", msg="%s: container name already used on the page" % where)
            seen |= set(r["ids"])
            if not c["own"]:
                return dict(cls="container", msg="%s: the plot is given a container outside its own document" % where)
            want = [R[("map", json.dumps(plan["subjects"][i], sort_keys=True))]["out"] if k == "s" else json.loads(json.dumps(i))
                    for k, i in o["items"]]
            if not same(json.loads(c["data"], object_hook=number) if c["data"] is not None else None, want):
                return dict(cls="data", msg="%s: the plot does not receive the records of the planes passed" % where)
        return None


PROP = C11()
