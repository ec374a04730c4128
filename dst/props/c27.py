import json, logging, os, random, shutil, tempfile, warnings
from collections import Counter
import numpy as N
from .. import base, boot, calls, drawing, host, ops, raster, sched, subjects, world
from ..base import Prop, Run, caused_by_injection, dig, pick_event, profile_call, sk, REAL, STUBS
from ..boot import SEAMS

# calls that are documented to draw random numbers
RANDOM = {("call", "bootstrap"), ("draw", "montecarlo")}


class C27(Prop):
    """plan: host {settings the host chose}, subjects, raster, geoms, ops [{id,t,k,n,a,s}], preempt, fault

    k = op (catalogue operation n with argument a on subject s), call (call on caller data n, data seed a), draw (drawing call n on
    an axes of thread t), dem (extraction of geometry a), init (notebook initialisation)
    """
    id = "C27"
    rule = ("a host process with settings of its own choosing (error handling, warning filters, random state, plotting defaults, logging, working "
            "directory, ...) makes 2-8 calls of any kind in 1-2 threads, some failing, aborted at seeded bytecodes or preempted; its settings are "
            "compared after every call and its open files, threads and child processes at the end; distinct = different (host, calls, "
            "switch/abort points); non-trivial = a call was made and the settings compared")
    shrinkable = ("preempt", "fault", "ops")
    per_chunk = 40
    chunks_quick = 32
    real = REAL + ["rasterio/GDAL (in-memory datasets)"]
    stubs = STUBS

    def setup(self):
        drawing.world()

    def make_pool(self, rng, tier):
        subs = [subjects.gen_subject(rng) for _ in range(5)] + [subjects.gen_subject(rng, ["linear"])]
        ra = raster.gen_raster(rng)
        return dict(subs=subs, raster=ra, geoms=[raster.gen_geom(rng) for _ in range(3)])

    def key(self, plan, o):
        if o["k"] in ("call", "init"):
            return (o["k"], o["n"], o["a"], None)
        if o["k"] == "dem":
            return ("dem", o["n"], o["a"], sk([plan["raster"], plan["geoms"]]))
        return (o["k"], o["n"], o["a"], sk(plan["subjects"][o["s"]]))

    def refs(self, plan):
        return {self.key(plan, o): 0 for o in plan["ops"]}

    def thunk(self, o, obj, R, t):
        """The call, with everything it needs prepared beforehand."""
        k, n, a = o["k"], o["n"], o["a"]
        if k == "op":
            return lambda: ops.execute(n, a, obj, world.Ctx(t))
        if k == "call":
            make, fn = calls.CALLS[n]
            args = make(N.random.RandomState(a))
            return lambda: fn(args, world.Ctx(t))
        if k == "draw":
            D = drawing.DRAW[n]
            return lambda: D["fn"](obj, D["args"][a], None if D["ax"] is None else world.AXES[t][D["ax"]])
        if k == "init":
            from attitude.display import init_notebook_mode
            return init_notebook_mode
        from attitude.helpers.dem import extract_area, extract_line, extract_shape
        ds, geoms = R
        g = geoms[a]
        if n == "shape":
            kw = dict(subdivide=None) if "Line" in g.geom_type else {}
            return lambda: extract_shape(g, ds, **kw)
        return lambda: extract_line(g, ds, subdivide=None) if "Line" in g.geom_type else extract_area(g, ds)

    def reference(self, key):
        k, n, a, s = key
        world.fresh("ref")
        obj = R = None
        if k == "dem":
            ra, gs = json.loads(s)
            m, ds = raster.open_real(ra)
            R = (ds, [raster.make_geom(g, ra) for g in gs])
        elif s:
            obj = subjects.build(json.loads(s))
        call, temps = self.thunk(dict(k=k, n=n, a=a), obj, R, 0), []
        out, ev, hot, _ = profile_call(lambda: call() and None, host.watcher, temps, True)
        return dict(out=out, ev=ev, hot=hot, temps=temps)

    def gen(self, rng, env):
        nt = rng.choice([1, 1, 2])
        h = dict(err=rng.choice([{}, dict(all="ignore"), dict(all="warn"), dict(all="raise"), dict(divide="raise", invalid="ignore"), dict(over="call", divide="print")]),
                 warn=rng.choice([0, 1, 2]), seed=rng.randrange(1 << 20), rc=rng.choice([{}, {"axes.facecolor": "red", "font.size": 7}, {"figure.dpi": 50, "lines.linewidth": 5}]),
                 prec=rng.choice([8, 3, 12]), log=rng.choice([10, 30, 50]), handler=rng.random() < .5, rec=rng.choice([1000, 3000]), ion=rng.random() < .3)
        plan = dict(host=h, subjects=[rng.choice(env.pool["subs"]) for _ in range(rng.choice([1, 2]))], raster=env.pool["raster"], geoms=env.pool["geoms"],
                    ops=[], preempt=[], fault=[])
        i = 0
        for t in range(nt):
            for _ in range(base.deep(rng.randint(2, 8) if nt == 1 else rng.randint(1, 4))):
                s = rng.randrange(len(plan["subjects"]))
                kind = plan["subjects"][s]["kind"]
                k = rng.choices(["op", "call", "draw", "dem", "init"], [5, 3, 2, 1, .3])[0]
                if k == "op":
                    c = [x for x in ops.candidates(kind) if x.arity == 1]
                    x = rng.choices(c, [max(y.weight, .3) for y in c])[0]
                    n, a = x.name, rng.randrange(len(x.args))
                elif k == "call":
                    n, a = rng.choice(sorted(calls.CALLS)), rng.randrange(6)
                elif k == "draw":
                    c = [d for d in drawing.DRAW.values() if kind in d["kinds"]]
                    if not c:
                        continue
                    d = rng.choices(c, [max(x["weight"], .3) for x in c])[0]
                    n, a = d["name"], rng.randrange(len(d["args"]))
                elif k == "init":
                    n, a = "init_notebook_mode", 0
                else:
                    n, a = rng.choice(["x", "shape", "shape"]), rng.randrange(len(plan["geoms"]))
                plan["ops"].append(dict(id=i, t=t, k=k, n=n, a=a, s=s))
                if (k == "init" or "interactive" in n) and rng.random() < .3:
                    plan["ops"][-1]["gone"] = 1        # the browser is gone: publishing fails
                i += 1
        if rng.random() < .12:      # a random call twice, from different random states
            n = rng.choice(sorted(RANDOM))
            if n[0] == "call" or n[0] == "draw" and any(plan["subjects"][0]["kind"] in d["kinds"] for d in drawing.DRAW.values() if d["name"] == n[1]):
                for _ in range(2):
                    plan["ops"].append(dict(id=i, t=0, k=n[0], n=n[1], a=0, s=0))
                    i += 1
        if plan["ops"] and rng.random() < .5:
            sus = [o for o in plan["ops"] if env.refs.get(self.key(plan, o))["temps"]]
            for o in sus + rng.sample(plan["ops"], min(len(plan["ops"]), rng.choice([1, 1, 2, 3]))):
                ref = env.refs.get(self.key(plan, o))
                if ref["ev"]:
                    plan["fault"].append([o["t"], o["id"], self.moment(rng, ref), rng.choice(["KeyboardInterrupt", "MemoryError"])])
        if nt > 1 and rng.random() < .6:
            # two calls that both change a setting for a while: the second enters while the first is inside and leaves after it
            sus = [[o for o in plan["ops"] if o["t"] == t and env.refs.get(self.key(plan, o))["temps"]] for t in range(2)]
            if sus[0] and not sus[1] or sus[1] and not sus[0]:
                o = rng.choice(sus[0] or sus[1])
                o = dict(o, id=i, t=1 - o["t"])
                plan["ops"].append(o)
                sus[o["t"]].append(o)
            if sus[0] and sus[1]:
                a, b = rng.choice(sus[0]), rng.choice(sus[1])
                if rng.random() < .5:
                    a, b = b, a
                plan["preempt"] += [[o["t"], o["id"], rng.choice(env.refs.get(self.key(plan, o))["temps"]), 1 - o["t"]] for o in (a, b)]
                if rng.random() < .5:
                    plan["fault"] = []
        if nt > 1 and plan["ops"]:
            for _ in range(rng.choice([1, 2, 3])):
                o = rng.choice(plan["ops"])
                ref = env.refs.get(self.key(plan, o))
                if ref["ev"]:
                    plan["preempt"].append([o["t"], o["id"], self.moment(rng, ref), 1 - o["t"]])
        return plan

    def moment(self, rng, ref):
        """Preferably while one of the host's settings is temporarily different."""
        if ref["temps"] and rng.random() < .7:
            return rng.choice(ref["temps"])
        return pick_event(rng, ref)

    def shrink(self, plan):
        yield from super().shrink(plan)
        if plan["host"] != {}:
            yield dict(plan, host={})

    def settle_in(self, h, d):
        """What the host does before it uses the package."""
        import matplotlib, random as _r, sys
        os.chdir(d)
        os.environ["HOST_SETTING"] = "1"
        matplotlib.rcParams.update(h.get("rc", {}))
        matplotlib.interactive(h.get("ion", False))
        N.set_printoptions(precision=h.get("prec", 8))
        warnings.resetwarnings()
        warnings.simplefilter("ignore")
        if h.get("warn") == 1:
            warnings.filterwarnings("once", "host", UserWarning)
        elif h.get("warn") == 2:
            warnings.filterwarnings("error", "strict", DeprecationWarning, append=True)
        logging.getLogger().setLevel(h.get("log", 30))
        logging.getLogger().handlers[:] = []
        if h.get("handler"):
            logging.getLogger().addHandler(logging.NullHandler())
        logging.getLogger("host.app").setLevel(15)
        sys.setrecursionlimit(h.get("rec", 1000))
        N.random.seed(h.get("seed", 0))
        _r.seed(h.get("seed", 0))

    def run(self, plan, R):
        world.fresh("run")
        stats = Counter()
        st = Run(plan, R, stats)
        if boot.IMPORT_CHANGES:
            st.fail("import", "importing the package changed the host's %s" % ", ".join(boot.IMPORT_CHANGES[:5]))
        d = tempfile.mkdtemp(prefix="dst-host-")
        try:
            return self.body(plan, st, stats, d)
        finally:
            os.chdir("/")
            shutil.rmtree(d, ignore_errors=True)

    def body(self, plan, st, stats, d):
        import gc
        import matplotlib.pyplot as plt
        objs = [subjects.build(s) for s in plan["subjects"]]
        m, ds = raster.open_real(plan["raster"])
        ras = (ds, [raster.make_geom(g, plan["raster"]) for g in plan["geoms"]])
        h = plan["host"]
        self.settle_in(h, d)
        nt = max([o["t"] for o in plan["ops"]] + [0]) + 1
        drawn = []
        # prepared before the snapshot
        todo = {o["id"]: self.thunk(o, objs[o["s"]], ras, o["t"]) for o in plan["ops"]}
        g0, c0 = host.global_state(), host.contents()
        r0 = host.random_state()
        res0 = host.resources()
        inflight = [0]
        randoms = any((o["k"], o["n"]) in RANDOM for o in plan["ops"])
        tails = {}

        def look(o, when, rnd):
            stats["comparisons"] += 1
            bad = host.changed(g0, host.global_state()) or host.changed(c0, host.contents())
            if bad:
                st.fail("settings", "%s %s changed the host's %s" % (o["n"] if o else "the calls", when, "; ".join(bad[:4])))
            if rnd and host.random_state() != r0:
                st.fail("random", "%s %s disturbed the host's random number generator" % (o["n"] if o else "the calls", when))

        now = {}

        def publish(data):
            t = sim.current_managed()
            if t is not None and now.get(t.idx):
                stats["fault:publishing fails"] += 1
                raise OSError("injected: the browser is gone")

        def body_for(tid):
            mine = [o for o in plan["ops"] if o["t"] == tid]

            def body(t):
                N.seterrcall(lambda *a: None)
                N.seterr(**h.get("err", {}))
                l0 = host.local_state()
                for o in mine:
                    isr = (o["k"], o["n"]) in RANDOM
                    if isr and nt == 1:
                        s1 = N.random.get_state(), random.getstate()
                        N.random.seed(h.get("seed", 0) + o["id"] + 1)
                    inj = False
                    inflight[0] += 1
                    now[tid] = o.get("gone")
                    sim.begin(t, o["id"])
                    try:
                        todo[o["id"]]()
                        out = ("ok", None)
                    except BaseException as e:
                        out = ("exc", type(e).__name__)
                        inj = caused_by_injection(e)
                    sim.end(t)
                    inflight[0] -= 1
                    stats["ops"] += 1
                    if inj:
                        stats["probe:aborted calls"] += 1
                    elif out[0] == "exc":
                        stats["probe:failed calls"] += 1
                    st.log.append((o["id"], out[0], out[1]))
                    when = "(aborted)" if inj else "(%s)" % (out[1] or "completed")
                    if isr and nt == 1:
                        if not inj:
                            tail = N.random.randint(1 << 30, size=4).tobytes()
                            if tail in tails:
                                st.fail("random", "%s reset the host's random number generator to a fixed state" % o["n"])
                            tails[tail] = 1
                        N.random.set_state(s1[0])
                        random.setstate(s1[1])
                    if o["k"] == "draw" and out[0] == "ok" and drawing.DRAW[o["n"]]["ax"] is None:
                        stats["probe:figures made"] += 1
                    stats["comparisons"] += 1
                    bad = host.changed(l0, host.local_state())
                    if bad:
                        st.fail("settings", "%s %s changed the host's %s" % (o["n"], when, "; ".join(bad)))
                    if nt == 1 or not inflight[0]:
                        look(o, when, not randoms or nt == 1)
                    if st.violation:
                        return
            return body
        sim = sched.Sim([body_for(t) for t in range(nt)], plan["preempt"], plan["fault"])
        SEAMS.publish_hook = publish
        sim.run(on_main=True)
        SEAMS.publish_hook = None
        stats["fault:preemption"] += sim.switches
        for k, v in sim.fired.items():
            stats["fault:" + k] += v
        stats["events"] += sim.total_events
        if sim.deadlock:
            st.fail("deadlock", "callers block each other forever")
        look(None, "together", not randoms or nt == 1)
        todo.clear()
        gc.collect()
        res = host.resources()
        for k in res:
            if res[k] != res0[k]:
                st.fail("resources", "the calls left %s behind: %r, before %r" % (k, res[k], res0[k]))
        left = os.listdir(d)
        if left:
            st.fail("resources", "the calls left files in the working directory: %r" % left[:3])
        key = dig(plan["subjects"], plan["host"], [(o["t"], o["k"], o["n"], o["a"], o["s"]) for o in plan["ops"]], sim.interleaving())
        return dict(violation=st.violation, stats=stats, key=key, log=dig(sim.digest(), st.log), nontrivial=stats["ops"] > 0)


PROP = C27()
