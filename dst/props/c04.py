import json, random
import numpy as N
from .. import base, calls, canon, ops, subjects, world
from ..base import HistoryProp, pick_event, profile_call, sk


class C04(HistoryProp):
    id = "C04"
    npool = 4
    kinds = ["pca", "pca", "weighted", "saved", "linear", "regr", "group"]
    level = "exploration"
    rule = ("two kinds of runs: (a) 3-9 calls taking caller-owned arrays, lists and records in several memory layouts, some aborted at a "
            "seeded bytecode or failing, with a second thread scheduled inside the calls that looks at the caller's data; (b) planes "
            "made from buffers the caller overwrites between (or inside, from a second thread) later queries and groupings, compared "
            "with isolation references; distinct = different (calls, data seeds, switch/abort points); non-trivial = data was inspected "
            "after a call or buffers were overwritten")

    # -- mode (a): calls on caller data
    def reference(self, key):
        if key[0] != "#":
            return super().reference(key)
        _, name, seed = key
        world.fresh("ref")
        make, fn = calls.CALLS[name]
        args = make(N.random.RandomState(seed))
        out, ev, hot, k = profile_call(lambda: canon.canon(fn(args, world.Ctx(0))))
        return dict(out=out, ev=ev, hot=hot, k=k)

    def key(self, plan, o):
        if o["op"] == "#":
            return ("#", o["name"], o["seed"])
        if o["op"][0] in "@#":
            return None
        return super().key(plan, o)

    def refs(self, plan):
        ks = [self.key(plan, o) for o in plan["ops"] + plan["audit"]]
        return {k: 0 for k in ks if k}

    def make_pool(self, rng, tier):
        p = super().make_pool(rng, tier)
        for s in p:
            if rng.random() < .4:
                s["layout"] = rng.choice(["F", "view", "strided"])
        return p

    def gen(self, rng, env):
        if rng.random() < .45:
            self.threads = rng.choice([(1, 1), (1, 1), (2, 2)])
            return super().gen(rng, env)
        names = rng.sample(sorted(calls.CALLS), rng.randint(2, 8))
        plan = dict(subjects=[], ops=[], preempt=[], fault=[], kfault=[], audit=[], threads=2)
        nid = 0
        watch = rng.randint(0, 4)
        for k in range(base.deep(rng.randint(3, 9))):
            o = dict(id=nid, t=0, op="#", name=rng.choice(names), seed=rng.randrange(10), s=0, a=0)
            plan["ops"].append(o)
            nid += 1
            ref = env.refs.get(self.key(plan, o))
            if ref["ev"] and rng.random() < .3:
                plan["fault"].append([0, o["id"], pick_event(rng, ref, True), rng.choice(["KeyboardInterrupt", "MemoryError"])])
            if watch and ref["ev"] and rng.random() < .6:
                watch -= 1
                plan["preempt"].append([0, o["id"], pick_event(rng, ref), 1])
        n = len(plan["preempt"])
        for k in range(n):
            plan["ops"].append(dict(id=nid, t=1, op="#watch", s=0, a=0))
            if k:
                plan["preempt"].append([1, nid, 0, 0])
            nid += 1
        return plan

    # -- mode (b): overwritten buffers
    def gen_op(self, rng, plan, names, t, i):
        if rng.random() < .25:
            return dict(id=i, t=t, op="@overwrite", a=rng.randrange(3), s=rng.randrange(len(plan["subjects"])))
        return super().gen_op(rng, plan, names, t, i)

    def nops(self, rng):
        return rng.randint(3, 10)

    def usable(self, o):
        return o.name != "attrs" or True

    def gen_schedule(self, rng, plan, env):
        full = plan["ops"]
        plan["ops"] = [o for o in full if o["op"][0] != "@"]
        if plan["ops"]:
            super().gen_schedule(rng, plan, env)
        plan["ops"] = full

    def build(self, plan):
        self.bufs = []
        out = []
        for sp in plan["subjects"]:
            keep = []
            out.append(subjects.build(sp, keep))
            self.bufs.append(keep)
        return out

    def before(self, st):
        st.x["live"] = []      # (name, args, snapshot)

    def call(self, st, o, ctx):
        k = o["op"]
        if k == "@overwrite":
            for b in self.bufs[o["s"]]:
                if o["a"] == 0:
                    b[...] = 0
                elif o["a"] == 1:
                    b[...] = b[::-1] * 3 + 1 if b.dtype.kind == "f" else 5
                else:
                    b[...] = N.nan
            st.stats["probe:buffers overwritten"] += 1
            return None
        if k == "#watch":
            self.look(st, "during a call")
            return None
        if k == "#":
            make, fn = calls.CALLS[o["name"]]
            args = make(N.random.RandomState(o["seed"]))
            st.x["live"].append((o["name"], args, calls.snapshot(args)))
            return fn(args, ctx)
        return super().call(st, o, ctx)

    def look(self, st, when):
        for name, args, snap in st.x["live"]:
            st.stats["probe:caller data inspected"] += 1
            if calls.snapshot(args) != snap:
                st.fail("written", "%s: caller-owned data passed to %s was modified (seen %s)" % (name, name, when))

    def check_call(self, st, o, out):
        self.look(st, "after the call")
        if len(st.x["live"]) > 6:
            st.x["live"].pop(0)

    def at_end(self, st):
        self.look(st, "at the end")

    def nontrivial(self, st, sim):
        return any(k.startswith("probe:") for k in st.stats)


PROP = C04()
