import json
from collections import Counter
import numpy as N
from .. import base, canon, drawing, sched, subjects, world
from ..base import Prop, Run, caused_by_injection, dig, pick_event, profile_call, shrink_lists, sk, REAL, STUBS
from ..boot import SEAMS


class C12(Prop):
    """plan: subjects, cur (figure pyplot considers current), ops [{id,t,d,a,s,x}], preempt, fault"""
    id = "C12"
    rule = ("3-12 drawing calls by 1-3 threads on 9 axes of 5 figures (3 known to pyplot) holding user content, among them calls that make "
            "their own figure and calls that fail, with preemptions and aborts at seeded bytecodes; every axes, figure and pyplot's registry "
            "audited; distinct = different (planes, calls, axes, switch/abort points); non-trivial = something was drawn")
    shrinkable = ("preempt", "fault", "ops")
    per_chunk = 32
    chunks_quick = 32

    def setup(self):
        drawing.world()

    def make_pool(self, rng, tier):
        ks = ["pca", "pca", "linear", "recon", "group", "saved", "weighted"]
        return [subjects.gen_subject(rng, [ks[i % len(ks)]]) for i in range(7)]

    def key(self, plan, o):
        return (o["d"], o["a"], sk(plan["subjects"][o["s"]]))

    def refs(self, plan):
        return {self.key(plan, o): 0 for o in plan["ops"] if o["d"][0] != "@"}

    def reference(self, key):
        d, a, s = key
        world.fresh("ref")
        D = drawing.DRAW[d]
        o = subjects.build(json.loads(s))
        if D["ax"] is None:
            out, ev, hot, k = profile_call(lambda: canon.canon(D["fn"](o, D["args"][a], None)))
            return dict(out=out, ev=ev, hot=hot)
        from matplotlib.figure import Figure
        from matplotlib.backends.backend_agg import FigureCanvasAgg
        f = Figure()
        FigureCanvasAgg(f)
        ax = f.add_subplot(111, projection={"plain": None, "polar": "polar", "stereo": "stereonet"}[D["ax"]])
        before = {id(c) for c in drawing.drawn_children(ax)}
        out, ev, hot, k = profile_call(lambda: D["fn"](o, D["args"][a], ax) and None)
        arts = [canon.artist(c) for c in drawing.drawn_children(ax) if id(c) not in before]
        return dict(out=out, ev=ev, hot=hot, arts=canon.canon(arts))

    def gen(self, rng, env):
        nt = rng.choice([1, 1, 1, 2, 2, 3])
        axes = drawing.WORLD["axes"]
        plan = dict(subjects=[rng.choice(env.pool) for _ in range(rng.choice([2, 3, 3]))], cur=rng.randrange(3), ops=[], preempt=[], fault=[])
        i = 0
        own = rng.random() < .3
        for t in range(nt):
            mine = [j for j in range(len(axes)) if j % nt == t]
            for _ in range(base.deep(rng.randint(2, 8) if nt == 1 else rng.randint(1, 4))):
                if nt == 1 and rng.random() < .12:
                    plan["ops"].append(dict(id=i, t=t, d="@current", a=rng.randrange(3), s=0, x=None))
                    i += 1
                    continue
                s = rng.randrange(len(plan["subjects"]))
                kind = plan["subjects"][s]["kind"]
                cs = [d for d in drawing.DRAW.values() if kind in d["kinds"] and (d["ax"] or own)
                      and (d["ax"] is None or any(axes[j]["kind"] == d["ax"] for j in mine))]
                d = rng.choices(cs, [c["weight"] for c in cs])[0] if cs else None
                if d is None:
                    continue
                x = rng.choice([j for j in mine if axes[j]["kind"] == d["ax"]]) if d["ax"] else None
                plan["ops"].append(dict(id=i, t=t, d=d["name"], a=rng.randrange(len(d["args"])), s=s, x=x))
                i += 1
        act = [o for o in plan["ops"] if o["d"][0] != "@"]
        if act and rng.random() < .35:
            for o in rng.sample(act, min(len(act), rng.choice([1, 1, 2]))):
                ref = env.refs.get(self.key(plan, o))
                if ref["ev"]:
                    plan["fault"].append([o["t"], o["id"], pick_event(rng, ref, True), rng.choice(["KeyboardInterrupt", "MemoryError"])])
        if nt > 1 and act:
            for _ in range(rng.choice([1, 2, 2, 3, 4])):
                o = rng.choice(act)
                ref = env.refs.get(self.key(plan, o))
                if ref["ev"]:
                    plan["preempt"].append([o["t"], o["id"], pick_event(rng, ref), rng.choice([x for x in range(nt) if x != o["t"]])])
        return plan

    def run(self, plan, R):
        import matplotlib.pyplot as plt
        world.fresh("run")
        W = drawing.world()
        figs, axes = W["figs"], [d["ax"] for d in W["axes"]]
        plt.figure(figs[plan["cur"]].number)
        stats = Counter()
        st = Run(plan, R, stats)
        objs = [subjects.build(s) for s in plan["subjects"]]
        expected = [[("keep", c, canon.canon(canon.artist(c))) for c in drawing.drawn_children(a)] for a in axes]
        touched = {o["x"] for o in plan["ops"] if o["x"] is not None}
        still = {j: drawing.axes_state(a) for j, a in enumerate(axes) if j not in touched}
        figstate = [drawing.figure_state(f) for f in figs]
        S = dict(cur=plan["cur"], nums=list(plt.get_fignums()), own=0)
        curax = [f.gca() if f.axes else None for f in figs]
        nt = max([o["t"] for o in plan["ops"]] + [0]) + 1
        held = []

        def registry(when):
            nums = plt.get_fignums()
            if S["own"]:
                return
            if nums != S["nums"]:
                st.fail("registry", "%s: pyplot knows figures %r, before %r" % (when, nums, S["nums"]))
            elif plt.gcf() is not figs[S["cur"]]:
                st.fail("current", "%s: the current figure changed" % when)
            else:
                for f, a in zip(figs, curax):
                    if f.gca() is not a:
                        st.fail("current", "%s: the current axes of a figure changed" % when)

        def body_for(tid):
            mine = [o for o in plan["ops"] if o["t"] == tid]

            def body(t):
                for o in mine:
                    stats["ops"] += 1
                    if o["d"] == "@current":
                        if S["own"] == 0:
                            plt.figure(figs[o["a"]].number)
                            S["cur"] = o["a"]
                        continue
                    D = drawing.DRAW[o["d"]]
                    ref = R[self.key(plan, o)]
                    own = D["ax"] is None
                    ax = None if own else axes[o["x"]]
                    if own and o["d"] not in ("setup_figure", "error_ellipse"):
                        S["own"] += 1
                    before = {id(c) for c in drawing.drawn_children(ax)} if ax is not None else ()
                    raw, inj = None, False
                    sim.begin(t, o["id"])
                    try:
                        raw = D["fn"](objs[o["s"]], D["args"][o["a"]], ax)
                        out = ("ok", None)
                    except BaseException as e:
                        out = ("exc", type(e).__name__)
                        inj = caused_by_injection(e)
                    sim.end(t)
                    st.log.append((o["id"], out[0], out[1]))
                    stats["comparisons"] += 1
                    if ax is not None:
                        new = [c for c in drawing.drawn_children(ax) if id(c) not in before]
                        if inj:
                            stats["probe:aborted drawings"] += 1
                            expected[o["x"]] += [("any", c, None) for c in new]
                        else:
                            arts = canon.canon([canon.artist(c) for c in new])
                            stats["probe:shapes drawn"] += len(new)
                            d = canon.diff(arts, ref["arts"]) if o["d"] != "montecarlo" else (
                                None if len(arts) == len(ref["arts"]) else "another number of artists")
                            if d:
                                st.fail("shapes", "%s drew other shapes than alone: %s" % (o["d"], d))
                            expected[o["x"]] += [("keep", c, canon.canon(canon.artist(c))) for c in new]
                    if not inj and out[0] != ref["out"][0] or (out[0] == "exc" and not inj and out[1] != ref["out"][1]):
                        st.fail("outcome", "%s: %s, alone %s" % (o["d"], canon.short(out), canon.short(ref["out"])))
                    if own and out[0] == "ok":
                        d = canon.diff(canon.canon(raw), ref["out"][1])
                        if d:
                            st.fail("own", "the figure made by %s differs from the one made alone: %s" % (o["d"], d))
                        if any(raw is f for f in figs) or any(raw is f for f, _, _ in held):
                            st.fail("own", "%s returned a figure that existed before" % o["d"])
                        held.append((raw, canon.canon(raw), o["d"]))
                        stats["probe:own figures"] += 1
                    if nt == 1:
                        registry("after " + o["d"])
                    if st.violation:
                        return
            return body
        sim = sched.Sim([body_for(t) for t in range(nt)], plan["preempt"], plan["fault"])
        sim.run()
        stats["fault:preemption"] += sim.switches
        for k, v in sim.fired.items():
            stats["fault:" + k] += v
        stats["events"] += sim.total_events
        if sim.deadlock:
            st.fail("deadlock", "callers block each other forever")
        registry("at the end")
        if S["own"]:
            extra = [n for n in plt.get_fignums() if n not in S["nums"]]
            if len(extra) > S["own"] or [n for n in S["nums"] if n not in plt.get_fignums()]:
                st.fail("registry", "%d figures were opened by %d calls that make one" % (len(extra), S["own"]))
        for j, a in enumerate(axes):
            have = drawing.drawn_children(a)
            ex = expected[j]
            if sorted(map(id, have)) != sorted(id(c) for _, c, _ in ex):
                st.fail("foreign", "axes %d hold %d shapes, %d were drawn on them" % (j, len(have), len(ex)))
                break
            for k, c, v in ex:
                if k == "keep":
                    d = canon.diff(canon.canon(canon.artist(c)), v)
                    if d:
                        st.fail("foreign", "a shape on axes %d changed after it was drawn: %s" % (j, d))
                        break
        for j, v in still.items():
            d = canon.diff(canon.canon(drawing.axes_state(axes[j])), canon.canon(v))
            if d:
                st.fail("foreign", "axes %d, on which nobody drew, changed: %s" % (j, d))
        for j, (f, v) in enumerate(zip(figs, figstate)):
            d = canon.diff(canon.canon(drawing.figure_state(f)), canon.canon(v))
            if d:
                st.fail("foreign", "figure %d gained or lost something besides the drawn shapes: %s" % (j, d))
        for f, v, n in held:
            d = canon.diff(canon.canon(f), v)
            if d:
                st.fail("own", "the figure returned by %s changed later: %s" % (n, d))
        key = dig(plan["subjects"], plan["cur"], [(o["t"], o["d"], o["a"], o["s"], o["x"]) for o in plan["ops"]], sim.interleaving())
        return dict(violation=st.violation, stats=stats, key=key, log=dig(sim.digest(), st.log),
                    nontrivial=stats["probe:shapes drawn"] + stats["probe:own figures"] > 0)


PROP = C12()
