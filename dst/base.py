"""Common parts of the property checks."""
import copy, hashlib, json, random
from collections import Counter
from . import canon, ops, sched, subjects, world
from .boot import SEAMS

REAL = ["attitude package (from /repo's working tree)", "numpy", "scipy", "matplotlib (Agg)", "mplstereonet", "CPython threads"]
STUBS = ["thread scheduling and aborts (sys.monitoring, one event per package bytecode)", "clocks", "entropy sources",
         "locks created by the package", "notebook display publisher"]


class Prop:
    id = None
    level = "exploration"
    rule = ""
    real = REAL
    stubs = STUBS
    assumptions = ["third-party code between two package bytecodes is atomic",
                   "a clean batch of seeds is evidence, not proof"]
    per_chunk = 40
    chunks_quick = 32
    chunks_thorough = 2000

    def setup(self):
        pass

    def make_pool(self, rng, tier):
        return None

    def gen(self, rng, env):
        raise NotImplementedError

    def refs(self, plan):
        return []

    def reference(self, key):
        raise NotImplementedError

    def run(self, plan, R):
        raise NotImplementedError

    def shrink(self, plan):
        return shrink_lists(plan, self.shrinkable)

    shrinkable = ("ops",)


def shrink_lists(plan, fields):
    """Candidates with a part of one of the plan's lists removed (halves first, then single elements)."""
    for f in fields:
        xs = plan.get(f)
        if not xs:
            continue
        n = len(xs)
        size = n
        while size >= 1:
            for i in range(0, n, size):
                c = dict(plan)
                c[f] = xs[:i] + xs[i + size:]
                yield c
            size //= 2


def dig(*x):
    return hashlib.sha1(json.dumps(x, sort_keys=True, default=str).encode()).hexdigest()[:16]


def sk(spec):
    return json.dumps(spec, sort_keys=True)


class Hot(list):
    """The events right after a heap write; .shared: those after a write to an attribute or global, or at a lock;
    .guarded: those in a try body with a handler."""
    shared = guarded = ()


def profile_call(fn, watch=None, temps=None, on_main=False):
    """Run fn alone under the simulator; -> outcome, events, hot events, kernel calls.

    `watch()` makes a predicate evaluated at every event; the events at which it holds are appended to temps."""
    box = {}
    kc = [0]

    def body(t):
        if watch is not None:
            sim.watch = watch()
        sim.begin(t, 0)
        try:
            box["out"] = ("ok", fn())
        except Exception as e:
            box["out"] = ("exc", type(e).__name__)
        except sched.StepLimit:
            box["out"] = ("exc", "StepLimit")
        finally:
            box["ev"] = sim.end(t)
    sim = sched.Sim([body], profile=True)

    def hook(name):
        kc[0] += 1
    SEAMS.kernel_hook = hook
    sim.run(on_main=on_main)
    SEAMS.kernel_hook = None
    hot = sim.profile.get(0, [])
    if temps is not None:
        temps += sim.temps[:: len(sim.temps) // 400 + 1]
    if len(hot) > 400:
        hot = hot[:: len(hot) // 400 + 1]
    hot = Hot(hot)
    hot.guarded = sim.guarded[:: len(sim.guarded) // 100 + 1]
    hot.shared = sim.shared[:: len(sim.shared) // 100 + 1]
    return box["out"], box["ev"], hot, kc[0]


def caused_by_injection(e):
    seen = set()
    while e is not None and id(e) not in seen:
        if isinstance(e, (sched.InjectedInterrupt, sched.InjectedMemoryError, InjectedKernel)):
            return True
        seen.add(id(e))
        e = e.__cause__ or e.__context__
    return False


class InjectedKernel(Exception):
    pass


def kernel_exc(name):
    import numpy as N

    class KLin(N.linalg.LinAlgError, InjectedKernel):
        pass

    class KMem(MemoryError, InjectedKernel):
        pass
    return {"LinAlgError": KLin, "MemoryError": KMem}[name]


DEPTH = 1       # thorough tier: histories up to three times as long, from chunk to chunk


def set_depth(tier, c):
    global DEPTH
    DEPTH = 1 if tier == "quick" else (1, 1, 2, 3)[c % 4]


def deep(n):
    return n * DEPTH


def pick_event(rng, ref, abort=False):
    """An event inside the operation: half uniform, half right after a heap write (preferably one others may see)."""
    sh = getattr(ref["hot"], "guarded", ()) if abort else ()
    if sh and rng.random() < .3:
        return rng.choice(sh)
    sh = getattr(ref["hot"], "shared", ())
    if sh and rng.random() < .4:
        return rng.choice(sh)
    if ref["hot"] and rng.random() < .5:
        return rng.choice(ref["hot"])
    return rng.randint(1, max(1, ref["ev"]))


def parallel(p, q):
    """Planes fitted to the same shape: the angle between them is rounding noise."""
    def shape(s):
        d = s.get("data", s.get("args"))
        return json.dumps([{k: v for k, v in x.items() if k not in ("shift", "off")} if isinstance(x, dict) else x
                           for x in (d if isinstance(d, list) else [d])], sort_keys=True)
    return shape(p) == shape(q)


class HistoryProp(Prop):
    """Threads run catalogue operations on shared subjects; every answer is compared with its isolation reference.

    plan: subjects [spec], threads n, ops [{id,t,op,a,s,s2}], preempt [[t,op,event,to]], fault [[t,op,event,exc]],
          kfault [[t,op,nth,exc]], audit [[op,a,s,s2]]
    """
    kinds = None
    npool = 6
    shrinkable = ("preempt", "fault", "kfault", "ops", "audit")
    audit_n = 8
    threads = (1, 1)

    def make_pool(self, rng, tier):
        return [subjects.gen_subject(rng, self.kinds) for _ in range(self.npool)]

    # -- references
    def reference(self, key):
        name, a, s, s2 = key
        world.fresh("ref")
        try:
            obj = subjects.build(json.loads(s))
            other = subjects.build(json.loads(s2)) if s2 else None
        except Exception as e:
            return dict(out=("exc", "build:" + type(e).__name__), ev=0, hot=[], k=0)
        out, ev, hot, k = profile_call(lambda: canon.canon(ops.execute(name, a, obj, world.Ctx(0, other))))
        return dict(out=out, ev=ev, hot=hot, k=k)

    def key(self, plan, o):
        sub = plan["subjects"]
        return (o["op"], o["a"], sk(sub[o["s"]]), sk(sub[o["s2"]]) if o.get("s2") is not None else None)

    def refs(self, plan):
        return {self.key(plan, o): 0 for o in plan["ops"] + plan["audit"]}

    # -- generation
    def pick_subjects(self, rng, env):
        k = rng.choice([1, 1, 2, 2, 3])
        return [rng.choice(env.pool) for _ in range(k)]

    def usable(self, o):
        return True

    def gen_op(self, rng, plan, names, t, i):
        for _ in range(50):
            s = rng.randrange(len(plan["subjects"]))
            kind = plan["subjects"][s]["kind"]
            cs = [o for o in ops.candidates(kind) if (not names or o.name in names) and self.usable(o)]
            if not cs:
                names = None
                continue
            o = rng.choices(cs, [c.weight for c in cs])[0]
            d = dict(id=i, t=t, op=o.name, a=rng.randrange(len(o.args)), s=s)
            if o.arity == 2:
                js = [j for j, q in enumerate(plan["subjects"]) if q["kind"] in o.kinds and j != s
                      and not (o.fam == "geom" and parallel(q, plan["subjects"][s]))]
                if not js:
                    continue
                d["s2"] = rng.choice(js)
            return d
        return dict(id=i, t=t, op="attrs", a=0, s=0)

    def gen_audit(self, rng, plan):
        out = []
        for s, spec in enumerate(plan["subjects"]):
            cs = [o for o in ops.candidates(spec["kind"], False) if o.cheap and self.usable(o)]
            rng.shuffle(cs)
            for o in cs[:self.audit_n]:
                out.append(dict(op=o.name, a=rng.randrange(len(o.args)), s=s))
        return out

    def swarm(self, rng, plan):
        if rng.random() < .4:
            return None
        names = sorted({o.name for sp in plan["subjects"] for o in ops.candidates(sp["kind"])})
        return set(rng.sample(names, min(len(names), rng.randint(4, 12))))

    def nops(self, rng):
        return rng.randint(6, 24)

    def gen(self, rng, env):
        plan = dict(subjects=self.pick_subjects(rng, env), ops=[], preempt=[], fault=[], kfault=[], audit=[])
        names = self.swarm(rng, plan)
        nt = rng.randint(*self.threads)
        plan["threads"] = nt
        i = 0
        for t in range(nt):
            for _ in range(deep(self.nops(rng))):
                plan["ops"].append(self.gen_op(rng, plan, names, t, i))
                i += 1
        plan["audit"] = self.gen_audit(rng, plan)
        self.gen_schedule(rng, plan, env)
        return plan

    def gen_schedule(self, rng, plan, env):
        nt = plan["threads"]
        if nt > 1:
            for _ in range(deep(rng.choice([1, 1, 2, 2, 3, 4, 6]))):
                o = rng.choice(plan["ops"])
                ref = env.refs.get(self.key(plan, o))
                if ref["ev"] < 1:
                    continue
                to = rng.choice([x for x in range(nt) if x != o["t"]])
                plan["preempt"].append([o["t"], o["id"], pick_event(rng, ref), to])

    # -- execution
    def before(self, st):
        pass

    def after_op(self, st, o, out, raw):
        pass

    def after_audit(self, st, o, out, raw):
        pass

    def at_end(self, st):
        pass

    def build(self, plan):
        return [subjects.build(sp) for sp in plan["subjects"]]

    def run(self, plan, R):
        world.fresh("run")
        stats = Counter()
        st = Run(plan, R, stats)
        try:
            st.objs = self.build(plan)
        except Exception as e:
            # an identical object could be built alone, so this is the history's doing
            built = [R[k]["out"] for k in self.refs(plan)]
            if all(b[1] if b[0] == "exc" else "" for b in built):
                st.objs = None
            else:
                st.fail("build", "building a subject raised %s" % type(e).__name__)
        if st.objs is None:
            return st.result(self, None)
        self.before(st)
        nt = max([o["t"] for o in plan["ops"]] + [0]) + 1
        kplan = {(t, i, n): exc for t, i, n, exc in plan["kfault"]}
        kcount = {}

        def khook(name):
            t = sim.current_managed()
            if t is None or not t.counting:
                return
            k = (t.idx, t.op)
            kcount[k] = kcount.get(k, 0) + 1
            exc = kplan.get((t.idx, t.op, kcount[k]))
            if exc:
                stats["fault:kernel %s" % exc] += 1
                raise kernel_exc(exc)("injected into numpy.%s" % name)
        faulted = {(f[0], f[1]) for f in plan["fault"]} | {(f[0], f[1]) for f in plan["kfault"]}

        def body_for(tid):
            mine = [o for o in plan["ops"] if o["t"] == tid]

            def body(t):
                for o in mine:
                    ctx = world.Ctx(tid, st.objs[o["s2"]] if o.get("s2") is not None else None)
                    raw, inj = None, False
                    sim.begin(t, o["id"])
                    try:
                        raw = self.call(st, o, ctx)
                        out = ("ok", None)
                    except (sched.Deadlock, sched.StepLimit) as e:
                        out = ("exc", type(e).__name__)
                    except BaseException as e:
                        out = ("exc", type(e).__name__)
                        inj = caused_by_injection(e)
                    sim.end(t)
                    stats["ops"] += 1
                    if o["op"][0] == "#":
                        st.log.append((o["op"], o.get("name"), out[0]))
                        if out == ("exc", "CallerModified"):
                            st.fail("written", "%s modified the caller's lists" % o["name"])
                        if out[0] == "exc" and not inj and o["op"] == "#":
                            want = R[self.key(plan, o)]["out"]
                            if want[0] != "exc" or want[1] != out[1]:
                                st.fail("call", "%s raised %s, alone it gives %s" % (o["name"], out[1], canon.short(want)))
                        self.check_call(st, o, out)
                        continue
                    if o["op"][0] == "@":
                        st.log.append((o["op"], out[0]))
                        if out[0] == "exc":
                            st.fail("life", "%s of a %s plane raised %s" % (o["op"], plan["subjects"][o["s"]]["kind"], out[1]))
                        continue
                    if out[0] == "ok":
                        out = ("ok", canon.canon(raw))
                    if inj and (tid, o["id"]) in faulted:
                        stats["probe:aborted operations"] += 1
                        self.after_op(st, o, None, None)
                        continue
                    st.check(self, o, out, "answer")
                    self.after_op(st, o, out, raw)
            return body
        sim = sched.Sim([body_for(t) for t in range(nt)], plan["preempt"], plan["fault"])
        SEAMS.kernel_hook = khook
        sim.run()
        SEAMS.kernel_hook = None
        stats["fault:preemption"] += sim.switches
        for k, v in sim.fired.items():
            stats["fault:" + k] += v
        stats["events"] += sim.total_events
        if sim.deadlock:
            st.fail("deadlock", "callers block each other forever at %r" % (sim.deadlock,))
        for o in plan["audit"]:
            ctx = world.Ctx(0, st.objs[o["s2"]] if o.get("s2") is not None else None)
            raw = None
            try:
                raw = self.call(st, o, ctx)
                out = ("ok", canon.canon(raw))
            except Exception as e:
                out = ("exc", type(e).__name__)
            st.check(self, o, out, "audit")
            if st.violation is None:
                self.after_audit(st, o, out, raw)
        self.at_end(st)
        return st.result(self, sim)

    def call(self, st, o, ctx):
        return ops.execute(o["op"], o["a"], st.objs[o["s"]], ctx)


class Run:
    def __init__(self, plan, R, stats):
        self.plan, self.R, self.stats = plan, R, stats
        self.violation = None
        self.log = []
        self.x = {}

    def fail(self, cls, msg, **kw):
        if self.violation is None:
            self.violation = dict(cls=cls, msg=msg, **kw)

    def check(self, prop, o, out, cls):
        ref = self.R[prop.key(self.plan, o)]["out"]
        self.stats["comparisons"] += 1
        self.log.append((o["op"], o["a"], out[0], out[1] if out[0] == "exc" else None))
        where = "%s(%r) on %s" % (o["op"], ops.OPS[o["op"]].args[o["a"]] if o["op"] in ops.OPS else o["a"],
                                  self.plan["subjects"][o["s"]]["kind"])
        if out[0] != ref[0]:
            self.fail(cls, "%s: %s, alone it is %s" % (where, canon.short(out), canon.short(ref)))
        elif out[0] == "exc":
            if out[1] != ref[1]:
                self.fail(cls, "%s raised %s, alone %s" % (where, out[1], ref[1]))
        else:
            d = canon.diff(out[1], ref[1])
            if d:
                self.fail(cls, "%s differs from the same call alone: %s" % (where, d))

    def result(self, prop, sim):
        il = sim.interleaving() if sim else "-"
        key = dig(self.plan["subjects"], [(o["t"], o["op"], o["a"], o["s"], o.get("name"), o.get("seed")) for o in self.plan["ops"]], il)
        return dict(violation=self.violation, stats=self.stats, key=key,
                    log=dig(sim.digest() if sim else None, self.log), nontrivial=prop.nontrivial(self, sim))


def _nontrivial(self, st, sim):
    return bool(st.log)


Prop.nontrivial = _nontrivial
