import json
from collections import Counter
import numpy as N
from .. import base, canon, raster, sched, world
from ..base import Prop, Run, caused_by_injection, dig, pick_event, profile_call
from ..boot import SEAMS


class ReadFailed(Exception):
    pass


def read_error(how):
    from rasterio.errors import RasterioIOError

    class Io(RasterioIOError, ReadFailed):
        pass

    class Mem(MemoryError, ReadFailed):
        pass

    class Os(OSError, ReadFailed):
        pass
    return {"io": Io, "mem": Mem, "os": Os}[how]("injected read failure")


def injected_read(e):
    seen = 0
    while e is not None and seen < 10:
        if isinstance(e, ReadFailed):
            return True
        e = e.__cause__ or e.__context__
        seen += 1
    return False


class C15(Prop):
    """plan: rasters [spec], geoms [spec], ops [{id,t,r,g,fn,band,rf,stall,scrib}], preempt, fault"""
    id = "C15"
    rule = ("2-10 extractions of polygons, polygons with holes, multipolygons and lines from 1-2 rasters (types, pixel shapes, rotations, "
            "nodata kinds and loss rates vary) by 1-3 threads sharing datasets and geometries, with read failures, slow reads, preemptions and "
            "aborts at seeded bytecodes; every result compared with a geometric model; distinct = different (rasters, geometries, calls, "
            "faults); non-trivial = at least one extraction completed")
    shrinkable = ("preempt", "fault", "ops")
    per_chunk = 40
    chunks_quick = 72
    real = ["attitude.helpers (from /repo's working tree)", "rasterio / GDAL (in-memory GeoTIFF)", "shapely", "scipy.ndimage", "CPython threads"]
    stubs = ["thread scheduling and aborts (sys.monitoring)", "the dataset's read call (fault-injecting proxy)", "clocks", "entropy"]

    def make_pool(self, rng, tier):
        return dict(r=[raster.gen_raster(rng) for _ in range(4)], g=[raster.gen_geom(rng) for _ in range(6)])

    def key(self, plan, o):
        return json.dumps([plan["rasters"][o["r"]], plan["geoms"][o["g"]], o["fn"], o["band"]], sort_keys=True)

    def refs(self, plan):
        return []

    def call(self, dem, geom, g, fn, band):
        from attitude.helpers import dem as H
        kw = {}
        if g["g"] in ("line", "multiline"):
            kw["subdivide"] = None
        if band != 1:
            kw["band"] = band
        return getattr(H, "extract_" + fn)(geom, dem, **kw)

    def reference(self, key):
        r, g, fn, band = json.loads(key)
        world.fresh("ref")
        m, ds = raster.open_real(r)
        n = [0]

        def gate(name):
            n[0] += 1
        sd = raster.SimDataset(ds, gate)
        geom = raster.make_geom(g, r)
        out, ev, hot, k = profile_call(lambda: self.call(sd, geom, g, fn, band) is None)
        return dict(out=out, ev=ev, hot=hot, reads=n[0])

    def gen(self, rng, env):
        nt = rng.choice([1, 1, 2, 2, 3])
        plan = dict(rasters=[rng.choice(env.pool["r"]) for _ in range(rng.choice([1, 1, 2]))],
                    geoms=[rng.choice(env.pool["g"]) for _ in range(rng.choice([1, 2, 3]))], ops=[], preempt=[], fault=[])
        i = 0
        for t in range(nt):
            for _ in range(base.deep(rng.randint(2, 7) if nt == 1 else rng.randint(1, 4))):
                g = rng.randrange(len(plan["geoms"]))
                o = dict(id=i, t=t, r=rng.randrange(len(plan["rasters"])), g=g, band=1 if rng.random() < .9 else 2,
                         fn="area" if plan["geoms"][g]["g"] in ("poly", "multi") and rng.random() < .3 else "shape", scrib=rng.random() < .4)
                ref = env.refs.get(self.key(plan, o))
                if rng.random() < .25 and ref["reads"]:
                    o["rf"] = [rng.randint(1, ref["reads"]), rng.choice(["io", "io", "mem", "os"])]
                if nt > 1 and rng.random() < .3:
                    o["stall"] = rng.choice([x for x in range(nt) if x != t])
                plan["ops"].append(o)
                i += 1
        if rng.random() < .3:
            for o in rng.sample(plan["ops"], min(len(plan["ops"]), rng.choice([1, 2]))):
                ref = env.refs.get(self.key(plan, o))
                if ref["ev"]:
                    plan["fault"].append([o["t"], o["id"], pick_event(rng, ref, True), rng.choice(["KeyboardInterrupt", "MemoryError"])])
        if nt > 1:
            for _ in range(rng.choice([1, 2, 3, 4])):
                o = rng.choice(plan["ops"])
                ref = env.refs.get(self.key(plan, o))
                if ref["ev"]:
                    plan["preempt"].append([o["t"], o["id"], pick_event(rng, ref), rng.choice([x for x in range(nt) if x != o["t"]])])
        return plan

    def run(self, plan, R):
        world.fresh("run")
        stats = Counter()
        st = Run(plan, R, stats)
        inflight = {}

        def gate(name):
            t = sim.current_managed()
            if t is None or t.idx not in inflight:
                return
            rec = inflight[t.idx]
            o = rec["o"]
            rec["n"] += 1
            if "stall" in o and rec["n"] == 1:
                if sim.stall(t, o["stall"], "read"):
                    stats["fault:slow read"] += 1
            rf = o.get("rf")
            if rf and rec["n"] == rf[0]:
                stats["fault:read failure (%s)" % rf[1]] += 1
                rec["hit"] = True
                raise read_error(rf[1])
        real = [raster.open_real(r) for r in plan["rasters"]]
        dems = [raster.SimDataset(ds, gate) for m, ds in real]
        geoms = {(r, g): raster.make_geom(plan["geoms"][g], plan["rasters"][r]) for r in range(len(dems)) for g in range(len(plan["geoms"]))}
        wkb = {k: g.wkb for k, g in geoms.items()}
        held = []

        def body_for(tid):
            mine = [o for o in plan["ops"] if o["t"] == tid]

            def body(t):
                for o in mine:
                    g, spec = plan["geoms"][o["g"]], plan["rasters"][o["r"]]
                    rec = inflight[tid] = dict(o=o, n=0, hit=False)
                    exc, out, inj = None, None, False
                    sim.begin(t, o["id"])
                    try:
                        out = self.call(dems[o["r"]], geoms[o["r"], o["g"]], g, o["fn"], o["band"])
                    except BaseException as e:
                        exc = e
                        inj = caused_by_injection(e) or injected_read(e)
                    sim.end(t)
                    inflight.pop(tid, None)
                    stats["ops"] += 1
                    stats["comparisons"] += 1
                    st.log.append((o["id"], type(exc).__name__ if exc else len(out)))
                    if exc is None:
                        if rec["hit"]:
                            st.fail("swallowed", "a read failed and the extraction returned normally")
                        s = spec if o["band"] == 1 else dict(spec, band=2)
                        d = raster.compare(g, s, out) if not (o["fn"] == "area" and N.isnan(N.ma.filled(out, 0)).any() and spec["nodata"] is None) else None
                        stats["probe:complete extractions"] += 1
                        if d:
                            st.fail("result", "%s from a %s raster: %s" % (g["g"], spec["dtype"], d))
                        if o["scrib"] and len(out) and out.flags.writeable:
                            out[...] = -3.5
                        held.append((out, N.array(out)))
                    elif inj:
                        stats["probe:failed extractions"] += 1
                    else:
                        st.fail("outcome", "extracting a %s raised %s: %s" % (g["g"], type(exc).__name__, exc))
                    if st.violation:
                        return
            return body
        nt = max([o["t"] for o in plan["ops"]] + [0]) + 1
        sim = sched.Sim([body_for(t) for t in range(nt)], plan["preempt"], plan["fault"])
        sim.run()
        stats["fault:preemption"] += sim.switches
        for k, v in sim.fired.items():
            stats["fault:" + k] += v
        stats["events"] += sim.total_events
        if sim.deadlock:
            st.fail("deadlock", "callers block each other forever")
        for k, g in geoms.items():
            if g.wkb != wkb[k]:
                st.fail("geometry", "an extraction changed the geometry it was given")
        for (m, ds), spec in zip(real, plan["rasters"]):
            if ds.closed or ds.shape != (spec["h"], spec["w"]):
                st.fail("dataset", "an extraction closed or changed the dataset")
        for a, b in held:
            if not N.array_equal(N.ma.filled(a, 0), N.ma.filled(b, 0), equal_nan=True):
                st.fail("held", "an earlier result changed")
        return dict(violation=st.violation, stats=stats, key=dig(plan["rasters"], plan["geoms"], plan["ops"], sim.interleaving()),
                    log=dig(sim.digest(), st.log), nontrivial=stats["probe:complete extractions"] > 0)


PROP = C15()
