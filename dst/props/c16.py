import base64, json, pickle
from collections import Counter
import numpy as N
from .. import canon, engine, model, raster, sched, world
from ..base import Prop, Run, caused_by_injection, dig, pick_event, profile_call
from ..boot import SEAMS
from .c15 import injected_read, read_error


def piece_points(g, spec):
    """Points the piece must consist of; None when a cell's membership is a matter of rounding."""
    if g["g"] in ("line", "multiline"):
        rows = raster.model_line(g, spec)
        pts = g["p"] if g["g"] == "line" else [q for l in g["p"] for q in l]
        if any(not .5 < q[0] * spec["w"] < spec["w"] - .5 or not .5 < q[1] * spec["h"] < spec["h"] - .5 for q in pts):
            return None      # beyond the outermost cell centers there is nothing to interpolate between
        if any(z is None for _, z in rows):
            return None
        return N.array([[xy[0], xy[1], z] for xy, z in rows]).reshape(-1, 3)
    must, may = raster.model_area(g, spec)
    return None if len(may) else must


def usable(X, spec):
    if X is None or len(X) < 5:
        return False
    s = N.linalg.svd(X - X.mean(axis=0), compute_uv=False)
    if s[1] < .02 * s[0] or s[0] - s[1] < 1e-3 * s[0]:
        return False
    return s[2] < .5 * s[1] and (spec["noise"] == 0 or s[2] > 1e-6 * s[0])


class C16(Prop):
    """plan: raster, pieces [geom], sessions [{todo, threads, rf, stall, restore, crash, preempt}], group {lists, same}"""
    id = "C16"
    rule = ("a survey of 1-4 pieces of a planar surface (exact or noisy, any attitude, up to 60% of the cells missing) measured in 1-3 process "
            "sessions by 1-3 workers, with failing and slow reads, retries, preemptions, sessions crashing at seeded bytecodes, planes restored "
            "from stored coordinates, saved axes or pickles, then grouped and exported; records compared with an independent model; distinct = "
            "different (surface, pieces, sessions, faults); non-trivial = a record was compared")
    per_chunk = 30
    chunks_quick = 48
    shrinkable = ()
    real = ["attitude.helpers, attitude.orientation, attitude.error (from /repo's working tree)", "rasterio / GDAL", "numpy", "CPython threads"]
    stubs = ["thread scheduling and aborts (sys.monitoring)", "the dataset's read call (fault-injecting proxy)", "the survey's durable store (JSON in memory)",
             "process crash and restart (fresh fork of a pristine interpreter)"]

    def make_pool(self, rng, tier):
        out = []
        while len(out) < 4:
            r = raster.gen_raster(rng, planar=rng.choice([0, 0, .02, .3]))
            r["miss"] = rng.choice([0, .1, .3, .6])
            gs = []
            for _ in range(40):
                g = raster.gen_geom(rng, line=rng.random() < .2)
                if usable(piece_points(g, r), r):
                    gs.append(g)
                if len(gs) == 5:
                    break
            if len(gs) >= 2:
                out.append((r, gs))
        return out

    def key(self, r, g):
        return json.dumps([r, g], sort_keys=True)

    def reference(self, key):
        r, g = json.loads(key)
        world.fresh("ref")
        m, ds = raster.open_real(r)
        n = [0]

        def gate(name):
            n[0] += 1
        sd = raster.SimDataset(ds, gate)
        geom = raster.make_geom(g, r)
        out, ev, hot, k = profile_call(lambda: self.measure(sd, geom, g)[1] is None)
        return dict(ev=ev, hot=hot, reads=n[0])

    def fit(self, X, w, **kw):
        from attitude import Orientation
        if w:
            kw["weights"] = N.array(w, dtype=float)
        return Orientation(X, **kw)

    def measure(self, dem, geom, g, w=None):
        from attitude.helpers.dem import extract_shape
        kw = dict(subdivide=None) if "line" in g["g"] else {}
        X = extract_shape(geom, dem, **kw)
        o = self.fit(X, w)
        return X, o

    def gen(self, rng, env):
        r, gs = rng.choice(env.pool)
        k = rng.randint(1, min(4, len(gs)))
        pieces = rng.sample(gs, k)
        plan = dict(raster=r, pieces=pieces, sessions=[])
        if r["noise"] and rng.random() < .25:
            plan["weights"] = [rng.choice([1, 2]), rng.choice([1, 4, .5]), rng.choice([1, 3, .2])]
        ns = rng.choice([1, 1, 2, 3])
        for s in range(ns):
            nt = rng.choice([1, 2, 2, 3])
            todo = list(range(k)) if s == ns - 1 else rng.sample(range(k), rng.randint(1, k))
            rng.shuffle(todo)
            ses = dict(todo=[[p, rng.randrange(nt)] for p in todo], rf={}, stall={}, restore=rng.choice(["coords", "saved", "pickle"]), fault=[], preempt=[],
                       retries=True, use=rng.random() < .4)
            for p, t in ses["todo"]:
                ref = env.refs.get(self.key(r, pieces[p]))
                if rng.random() < .4 and ref["reads"]:
                    ses["rf"][str(p)] = [rng.choice([1, 1, 2]), rng.randint(1, ref["reads"]), rng.choice(["io", "mem", "os"])]
                if nt > 1 and rng.random() < .4:
                    ses["stall"][str(p)] = rng.choice([x for x in range(nt) if x != t])
                if s < ns - 1 and rng.random() < .35 and ref["ev"]:
                    ses["fault"].append([t, p, pick_event(rng, ref, True), "KeyboardInterrupt"])
                if nt > 1 and ref["ev"] and rng.random() < .7:
                    ses["preempt"].append([t, p, pick_event(rng, ref), rng.choice([x for x in range(nt) if x != t])])
            plan["sessions"].append(ses)
        if k > 1:
            idx = list(range(k))
            rng.shuffle(idx)
            plan["group"] = dict(idx=idx[:rng.randint(2, k)], same=rng.random() < .5)
        else:
            plan["group"] = None
        return plan

    def run(self, plan, R):
        stats = Counter()
        st = Run(plan, R, stats)
        store, logs = {}, []
        for i, ses in enumerate(plan["sessions"]):
            s, out = engine.in_child(self.session, plan, i, store)
            if s != "ok":
                raise engine.HarnessError("session %s: %s" % (s, out))
            stats.update(out["stats"])
            logs.append(out["log"])
            store = out["store"]
            if out["violation"]:
                st.violation = out["violation"]
                break
        return dict(violation=st.violation, stats=stats, key=dig(plan), log=dig(logs), nontrivial=stats["comparisons"] > 0)

    def session(self, plan, i, store):
        from attitude import create_groups
        world.fresh("session%d" % i)
        ses, spec = plan["sessions"][i], plan["raster"]
        last = i == len(plan["sessions"]) - 1
        stats, log = Counter(), []
        V = [None]

        def fail(cls, msg):
            if V[0] is None:
                V[0] = dict(cls=cls, msg=msg)
        m, real = raster.open_real(spec)
        inflight = {}

        def gate(name):
            t = sim.current_managed()
            rec = inflight.get(t.idx) if t is not None else None
            if rec is None:
                return
            rec["n"] += 1
            p = str(rec["p"])
            if p in ses["stall"] and rec["attempt"] == 0 and rec["n"] == 1:
                if sim.stall(t, ses["stall"][p], "read"):
                    stats["fault:slow read"] += 1
            rf = ses["rf"].get(p)
            if rf and rec["attempt"] < rf[0] and rec["n"] == rf[1]:
                stats["fault:read failure (%s)" % rf[2]] += 1
                raise read_error(rf[2])
        dem = raster.SimDataset(real, gate)
        planes = {}
        store = dict(store)
        for p, rec in sorted(store.items()):
            X = N.array(rec["coords"])
            if ses["restore"] == "coords":
                planes[p] = self.fit(X, plan.get("weights"))
            elif ses["restore"] == "saved":
                planes[p] = self.fit(X, plan.get("weights"), axes=N.array(rec["axes"]))
            else:
                planes[p] = pickle.loads(base64.b64decode(rec["pickle"]))
            stats["probe:planes restored after a restart"] += 1
        crashed = [False]

        def body_for(tid):
            mine = [p for p, t in ses["todo"] if t == tid]

            def body(t):
                for p in mine:
                    if p in store or crashed[0]:
                        continue
                    g = plan["pieces"][p]
                    geom = raster.make_geom(g, spec)
                    for attempt in range(4):
                        inflight[tid] = dict(p=p, n=0, attempt=attempt)
                        exc = None
                        sim.begin(t, p if attempt == 0 else 1000 + 10 * p + attempt)
                        try:
                            X, o = self.measure(dem, geom, g, plan.get("weights"))
                        except BaseException as e:
                            exc = e
                        sim.end(t)
                        inflight.pop(tid, None)
                        stats["ops"] += 1
                        log.append((p, attempt, type(exc).__name__ if exc else len(X)))
                        if exc is None:
                            break
                        if injected_read(exc):
                            stats["probe:retries"] += 1
                            continue
                        if caused_by_injection(exc):
                            crashed[0] = True          # the session dies here; only the store survives
                            stats["probe:crashed sessions"] += 1
                            return
                        fail("outcome", "measuring a piece raised %s: %s" % (type(exc).__name__, exc))
                        return
                    else:
                        fail("progress", "a piece could not be measured once reads worked again")
                        return
                    if ses["use"]:
                        o.to_mapping(), o.plane_errors(n=4), o.hash
                    planes[p] = o
                    store[p] = json.loads(json.dumps(dict(coords=X.tolist(), axes=N.asarray(o.principal_axes).tolist(),
                                                          pickle=base64.b64encode(pickle.dumps(o)).decode(), record=o.to_mapping())))
                    if not plan.get("weights"):
                        self.compare(fail, stats, store[p]["record"], p, plan, "recorded")
                    if V[0]:
                        return
            return body
        nt = max([t for _, t in ses["todo"]] + [0]) + 1
        sim = sched.Sim([body_for(t) for t in range(nt)], ses["preempt"], ses["fault"])
        sim.run()
        stats["fault:preemption"] += sim.switches
        for k, v in sim.fired.items():
            stats["fault:" + k] += v
        stats["events"] += sim.total_events
        if sim.deadlock:
            fail("deadlock", "workers block each other forever")
        if not crashed[0]:
            for p, o in planes.items():
                rec = json.loads(json.dumps(o.to_mapping()))
                if not plan.get("weights"):
                    self.compare(fail, stats, rec, p, plan, "re-exported")
                    continue
                # scaled axes: the plane must still be the one that was recorded
                stats["comparisons"] += 1
                stats["probe:weighted planes compared with their record"] += 1
                a, b = (canon.canon({k: v for k, v in r.items() if k != "uid"}) for r in (rec, store[p]["record"]))
                d = canon.diff(a, b)
                if d:
                    fail("restored", "re-exported plane differs from the one recorded: %s" % d)
        if last and not V[0]:
            if set(planes) != set(range(len(plan["pieces"]))):
                fail("progress", "pieces were never measured")
            elif plan["group"]:
                ps = [planes[p] for p in sorted(planes)]
                uids = [planes[p].hash for p in plan["group"]["idx"]]
                if len(set(o.hash for o in ps)) == len(ps):
                    out = create_groups(ps, uids, same_plane=plan["group"]["same"])
                    rec = json.loads(json.dumps(out[-1].to_mapping()))
                    self.compare(fail, stats, rec, plan["group"]["idx"], plan, "grouped", plan["group"]["same"])
        real.close()
        m.close()
        return dict(stats=stats, log=dig(sim.digest(), log), store=store, violation=V[0])

    def compare(self, fail, stats, rec, p, plan, what, same=False):
        spec = plan["raster"]
        pts = [piece_points(plan["pieces"][q], spec) for q in (p if isinstance(p, list) else [p])]
        M = model.pooled(pts, same) if isinstance(p, list) else model.plane_model(pts[0])
        stats["comparisons"] += 1
        stats["probe:records compared"] += 1
        if spec["noise"] == 0:
            # the surface itself is the oracle: its attitude is known without any fit
            if abs(rec["dip"] - spec["dip"]) > 1e-4 or model.angdiff(rec["strike"], spec["strike"]) > 1e-3:
                fail("attitude", "%s plane reports %.4f/%.4f, the surface is %.4f/%.4f" % (what, rec["strike"], rec["dip"], spec["strike"], spec["dip"]))
            for k in ("min_angular_error", "max_angular_error"):
                if not abs(rec[k]) < 1e-3:
                    fail("errors", "%s plane through an exact surface reports %s %r" % (what, k, rec[k]))
            c = rec.get("center")
            if c is None or not N.allclose(c, M["center"], rtol=1e-9, atol=1e-6 * spec["px"]):
                fail("center", "%s plane has center %r, expected %r" % (what, c, M["center"].tolist()))
        else:
            d = model.record_diff(rec, M)
            if d:
                fail("attitude", "%s plane: %s" % (what, d))
        n = sum(len(x) for x in pts)
        ca = rec.get("centered_array")
        if ca is not None and len(ca) != n:
            fail("points", "%s plane used %d points, %d were valid" % (what, len(ca), n))

    def shrink(self, plan):
        ss = plan["sessions"]
        for i in range(len(ss) - 1):
            yield dict(plan, sessions=ss[:i] + ss[i + 1:])
        if plan["group"]:
            yield dict(plan, group=None)
        for i, s in enumerate(ss):
            for f in ("fault", "preempt"):
                if s[f]:
                    yield dict(plan, sessions=ss[:i] + [dict(s, **{f: []})] + ss[i + 1:])
            for f in ("rf", "stall"):
                if s[f]:
                    yield dict(plan, sessions=ss[:i] + [dict(s, **{f: {}})] + ss[i + 1:])
        k = len(plan["pieces"])
        if k > 1:
            for q in range(k):
                keep = [j for j in range(k) if j != q]
                mp = {j: n for n, j in enumerate(keep)}
                g = plan["group"]
                g2 = None
                if g:
                    idx = [mp[j] for j in g["idx"] if j != q]
                    g2 = dict(g, idx=idx) if len(idx) > 1 else None
                yield dict(plan, pieces=[plan["pieces"][j] for j in keep], group=g2, sessions=[
                    dict(s, todo=[[mp[p], t] for p, t in s["todo"] if p != q],
                         rf={str(mp[int(p)]): v for p, v in s["rf"].items() if int(p) != q},
                         stall={str(mp[int(p)]): v for p, v in s["stall"].items() if int(p) != q},
                         fault=[[t, mp[p], e, x] for t, p, e, x in s["fault"] if p != q],
                         preempt=[[t, mp[p], e, x] for t, p, e, x in s["preempt"] if p != q]) for s in ss])


PROP = C16()
