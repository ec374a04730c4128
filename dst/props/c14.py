import json
from collections import Counter
import numpy as N
from .. import base, canon, sched, subjects, world
from ..base import Prop, Run, caused_by_injection, dig, pick_event, profile_call
from ..boot import SEAMS

BEH = ["plain", "plain", "mutate", "scale", "keep", "keepmutate", "raise", "nested", "vector", "fit", "stall"]


class Boom(Exception):
    pass


def _booms():
    from numpy.linalg import LinAlgError
    out = {b.__name__: type("Boom" + b.__name__, (Boom, b), {}) for b in (
        ValueError, LinAlgError, ZeroDivisionError, KeyError, IndexError, FloatingPointError, TypeError, AssertionError, OSError, AttributeError)}
    out["Exception"] = Boom
    return out


BOOM = _booms()


def gen_call(rng, nt, t, pool):
    kind = rng.choice(["noise", "noise", "resample", "resample"])
    d = dict(f=kind, d=rng.randrange(len(pool)), n=rng.choice([0, 1, 2, 5, 12, 40, 40, 100, 131]) if rng.random() < .5 else rng.choice([1, 2, 5, 12]), beh=rng.choice(BEH), layout=rng.choice(["C", "C", "F", "view", "strided"]))
    if kind == "noise":
        d.update(std=rng.choice([1, .5, 3.0]), sym=rng.random() < .5)
    if d["beh"] == "raise":
        d["at"] = rng.randrange(max(1, d["n"]))
        d["exc"] = rng.choice(sorted(BOOM))
    if d["beh"] == "stall":
        if nt == 1:
            d["beh"] = "plain"
        else:
            d["at"] = rng.randrange(max(1, d["n"]))
            d["to"] = rng.choice([x for x in range(nt) if x != t])
    if d["beh"] in ("nested", "fit"):
        d["n"] = min(d["n"], 5)
    return d


class C14(Prop):
    """plan: data [spec], ops [{id,t,k:call|repro|ci,...}], preempt, fault"""
    id = "C14"
    rule = ("1-5 resamplings by 1-3 threads over shared data arrays with statistics that mutate, keep, raise, nest or stall, aborts and "
            "preemptions at seeded bytecodes; each replicate inspected as the statistic receives it, data and kept replicates audited at "
            "the end; distinct = different (data, calls, behaviours, switch/abort points); non-trivial = a replicate was evaluated")
    shrinkable = ("preempt", "fault", "ops")
    per_chunk = 40
    chunks_quick = 48
    stubs = ["thread scheduling and aborts (sys.monitoring)", "entropy (os.urandom, unseeded generators)", "clocks", "the statistic (a probe)"]

    def make_pool(self, rng, tier):
        out = [subjects.gen_data(rng, n=rng.choice([4, 6, 9, 20])) for _ in range(4)]
        for d in out:
            d["cols"] = rng.choice([3, 3, 3, 3, 2, 4, 5])
        return out

    def data(self, spec, layout="C"):
        s = {k: v for k, v in spec.items() if k != "cols"}
        a = subjects.make_data(s)
        if spec["cols"] > 3:
            a = N.hstack([a, N.random.RandomState(s["seed"]).uniform(-50, 50, (len(a), spec["cols"] - 3))])
        a = N.ascontiguousarray(a[:, :spec["cols"]])
        return a if layout == "view" and spec["cols"] != 3 else subjects.layout(a, layout)

    def key(self, plan, o):
        c = {k: v for k, v in o.items() if k not in ("id", "t", "d", "at", "to", "exc")}
        if c.get("beh") in ("raise", "stall"):
            c["beh"] = "plain"
        return json.dumps([plan["data"][o["d"]], c], sort_keys=True)

    def refs(self, plan):
        return {self.key(plan, o): 0 for o in plan["ops"] if o["k"] != "call"}

    def reference(self, key):
        spec, c = json.loads(key)
        world.fresh("ref")
        X = self.data(spec, c.get("layout", "C"))
        if c["k"] == "call":
            out, ev, hot, k = profile_call(lambda: self.call(c, X, lambda s: 0.) and None)
            return dict(ev=ev, hot=hot)
        return dict(out=self.special(c, X))

    def special(self, c, X):
        N.random.seed(c["seed"])
        if c["k"] == "repro":
            from attitude.display.plot.cov_types.regressions import bootstrap_noise
            got = []
            bootstrap_noise(X, lambda s: got.append(N.array(s)) or 0., n=c["n"], std=c["std"], symmetric=c["sym"])
            return N.array(got)
        from attitude.display.error_comparison import bootstrap_ci
        return N.array(bootstrap_ci(X, N.linspace(-5, 5, 4)))

    def call(self, c, X, func):
        from attitude.display.plot.cov_types import regressions as B
        if c["f"] == "noise":
            return B.bootstrap_noise(X, func, n=c["n"], std=c["std"], symmetric=c["sym"])
        return B.bootstrap_resampled(X, func, n=c["n"])

    def gen(self, rng, env):
        nt = rng.choice([1, 1, 2, 2, 3])
        plan = dict(data=[rng.choice(env.pool) for _ in range(rng.choice([1, 2]))], ops=[], preempt=[], fault=[])
        i = 0
        for t in range(nt):
            for _ in range(base.deep(rng.randint(1, 3))):
                r = rng.random()
                if nt == 1 and r < .2:
                    o = dict(k="repro", d=rng.randrange(len(plan["data"])), n=rng.choice([1, 4]), std=rng.choice([1, .5]), sym=rng.random() < .5,
                             seed=rng.randrange(50), layout="C")
                elif nt == 1 and r < .206:
                    o = dict(k="ci", d=rng.randrange(len(plan["data"])), seed=rng.randrange(9), layout="C")
                    if plan["data"][o["d"]]["cols"] != 3:
                        continue
                else:
                    o = dict(gen_call(rng, nt, t, plan["data"]), k="call")
                o.update(id=i, t=t)
                i += 1
                plan["ops"].append(o)
        calls = [o for o in plan["ops"] if o["k"] == "call"]
        if calls and rng.random() < .3:
            o = rng.choice(calls)
            ref = env.refs.get(self.key(plan, o))
            if ref["ev"]:
                plan["fault"].append([o["t"], o["id"], pick_event(rng, ref, True), rng.choice(["KeyboardInterrupt", "MemoryError"])])
        if nt > 1 and calls:
            for _ in range(rng.choice([1, 2, 3, 5])):
                o = rng.choice(calls)
                ref = env.refs.get(self.key(plan, o))
                if ref["ev"]:
                    plan["preempt"].append([o["t"], o["id"], pick_event(rng, ref), rng.choice([x for x in range(nt) if x != o["t"]])])
        return plan

    def run(self, plan, R):
        world.fresh("run")
        stats = Counter()
        st = Run(plan, R, stats)
        datas = {}
        orig = {}

        def get(d, layout):
            k = (d, layout)
            if k not in datas:
                datas[k] = self.data(plan["data"][d], layout)
                orig[k] = N.array(datas[k])
            return datas[k], orig[k]
        kept = []          # (replicate, snapshot)
        epoch = [0]        # counts re-seedings of the shared generator
        firsts = []        # (epoch, kind, first replicate's noise or selection) of every resampling so far

        def fresh(rec):
            """The first replicate of a resampling must not repeat that of an earlier one under the same random state."""
            if rec.get("first"):
                return
            rec["first"] = True
            if rec["z"]:
                kind, v = ("noise", rec["z"][0].shape), rec["z"][0]
            elif rec["sel"] and rec["l"] >= 9:
                kind, v = ("sel", len(rec["sel"][0])), N.array(rec["sel"][0], dtype=float)
            else:
                return
            for e, k, w in firsts:
                if e == epoch[0] and k == kind and N.allclose(v, w, rtol=1e-6, atol=1e-7):
                    st.fail("fresh", "two resamplings draw the same replicates")
            firsts.append((epoch[0], kind, v))

        def probe(o, X, D, rec, t, depth=0):
            """The statistic: judge the replicate, then behave as planned."""
            def func(s):
                i = len(rec["vals"])
                stats["comparisons"] += 1
                stats["probe:replicates"] += 1
                if not isinstance(s, N.ndarray) or s.shape != D.shape:
                    st.fail("replicate", "a replicate has shape %r, the data %r" % (getattr(s, "shape", None), D.shape))
                    rec["vals"].append(0.)
                    return 0.
                if o["f"] == "resample":
                    rows = [N.flatnonzero((D == r).all(axis=1)) for r in s]
                    if any(len(r) == 0 for r in rows):
                        st.fail("replicate", "a replicate contains a point that is not a data point")
                    else:
                        rec["sel"].append(tuple(int(r[0]) for r in rows))
                else:
                    z = s - D
                    if not N.isfinite(z).all():
                        st.fail("replicate", "a replicate is not finite")
                    if not o["sym"] and not (s[:, :-1] == D[:, :-1]).all():
                        st.fail("replicate", "noise on coordinates that were not requested")
                    zz = z if o["sym"] else z[:, -1:]
                    if (zz == 0).all():
                        st.fail("replicate", "no noise was added")
                    if any(N.allclose(zz, q, rtol=1e-7, atol=1e-9) for q in rec["z"][-3:]):
                        st.fail("replicate", "two replicates have the same noise")
                    if zz.size >= 12 and any(abs(float(N.corrcoef(zz.ravel(), q.ravel() * o["std"])[0, 1])) > .9999 for q in rec["z"][-3:]):
                        st.fail("replicate", "the noise of a replicate is derived from that of an earlier one")
                    if len(zz) >= 6 and any(abs(float(N.corrcoef(zz[:, i], zz[:, j])[0, 1])) > .99999 for i in range(zz.shape[1]) for j in range(i)):
                        st.fail("replicate", "two coordinates carry the same noise")
                    rec["z"].append(zz / o["std"])
                if i == 0:
                    fresh(rec)
                if N.shares_memory(s, X):
                    st.fail("replicate", "a replicate shares memory with the data")
                b = o["beh"]
                v = float(s.sum()) if b != "vector" else s.mean(axis=0)
                if b == "fit":
                    from attitude import Orientation
                    if D.shape[1] == 3:
                        Orientation(s)
                if b in ("keep", "keepmutate"):
                    kept.append((s, N.array(s)))
                if b == "keepmutate" and i:
                    kept[-2 if kept[-2][0] is not s else -1][0][...] = -1.
                    kept[-2] = (kept[-2][0], N.array(kept[-2][0]))
                if b == "mutate":
                    s[...] = N.nan
                if b == "scale":
                    s -= s.mean(axis=0)
                if b == "nested" and depth == 0 and i < 2:
                    o2 = dict(o, n=2, beh="mutate")
                    rec2 = dict(vals=[], sel=[], z=[], l=len(N.unique(D, axis=0)))
                    out = self.call(o2, X, probe(o2, X, D, rec2, t, 1))
                    self.judge(st, o2, rec2, out, "nested ")
                if b == "raise" and i == o["at"]:
                    rec["vals"].append(v)
                    raise BOOM[o.get("exc", "Exception")]()
                if b == "stall" and i == o["at"]:
                    sim.stall(t, o["to"], "statistic")
                    stats["fault:slow statistic"] += 1
                rec["vals"].append(v)
                return v
            return func

        def body_for(tid):
            mine = [o for o in plan["ops"] if o["t"] == tid]

            def body(t):
                for o in mine:
                    stats["ops"] += 1
                    X, D = get(o["d"], o["layout"])
                    if o["k"] != "call":
                        epoch[0] += 1
                        got = self.special(o, X)
                        d = canon.diff(got, R[self.key(plan, o)]["out"])
                        stats["probe:reproducibility comparisons"] += 1
                        if d:
                            st.fail("repro", "%s is not reproducible for a given random state: %s" % (o["k"], d))
                        continue
                    rec = dict(vals=[], sel=[], z=[], l=len(N.unique(D, axis=0)))
                    exc, out, inj = None, None, False
                    f = probe(o, X, D, rec, t)
                    sim.begin(t, o["id"])
                    try:
                        out = self.call(o, X, f)
                    except BaseException as e:
                        exc = e
                        inj = caused_by_injection(e)
                    sim.end(t)
                    st.log.append((o["id"], type(exc).__name__ if exc else "ok", len(rec["vals"])))
                    if exc is None:
                        self.judge(st, o, rec, out, "")
                    elif isinstance(exc, Boom):
                        if o["beh"] != "raise" or len(rec["vals"]) != o["at"] + 1:
                            st.fail("outcome", "a statistic's error came out of another call")
                        stats["probe:failing statistics"] += 1
                    elif not inj:
                        st.fail("outcome", "resampling raised %s" % type(exc).__name__)
                    if st.violation:
                        return
            return body
        nt = max([o["t"] for o in plan["ops"]] + [0]) + 1
        sim = sched.Sim([body_for(t) for t in range(nt)], plan["preempt"], plan["fault"])
        sim.run()
        stats["fault:preemption"] += sim.switches
        for k, v in sim.fired.items():
            stats["fault:" + k] += v
        stats["events"] += sim.total_events
        if sim.deadlock:
            st.fail("deadlock", "callers block each other forever")
        for k in datas:
            if not (datas[k] == orig[k]).all():
                st.fail("data", "the data were changed by a resampling")
        for i, (s, snap) in enumerate(kept):
            if not N.array_equal(s, snap):
                st.fail("kept", "a kept replicate changed later")
        for i in range(1, len(kept)):
            if kept[i][0] is not kept[i - 1][0] and N.shares_memory(kept[i][0], kept[i - 1][0]):
                st.fail("kept", "two kept replicates share memory")
        return dict(violation=st.violation, stats=stats, key=dig(plan["data"], plan["ops"], sim.interleaving()),
                    log=dig(sim.digest(), st.log), nontrivial=stats["probe:replicates"] > 0)

    def judge(self, st, o, rec, out, what):
        n = o["n"]
        st.stats["probe:completed resamplings"] += 1
        if o["beh"] == "raise" and n > o["at"]:
            return st.fail("outcome", "the statistic raised and the resampling returned normally")
        if len(rec["vals"]) != n:
            return st.fail("count", "%sstatistic called %d times for n=%d" % (what, len(rec["vals"]), n))
        if len(out) != n:
            return st.fail("count", "%s%d values returned for n=%d" % (what, len(out), n))
        if n and not N.array_equal(N.array(out, dtype=float), N.array(rec["vals"], dtype=float), equal_nan=True):
            return st.fail("order", "%sthe returned values are not the statistic's values in call order" % what)
        if o["f"] == "resample":
            l = rec["l"]
            if n >= 5 and l >= 6 and len(set(rec["sel"])) == 1:
                return st.fail("replicate", "all replicates select the same points")
            if n >= 40 and len({i for s in rec["sel"] for i in s}) < l:
                return st.fail("replicate", "some data points are never selected")
        elif n:
            z = N.concatenate([q.ravel() for q in rec["z"]])
            if len(z) >= 200:
                rms = float(N.sqrt((z ** 2).mean()))
                if not .5 < rms < 2 or abs(z.mean()) > .6:
                    return st.fail("replicate", "the noise has %.2f times the requested size (mean %.2f)" % (rms, z.mean()))


PROP = C14()
