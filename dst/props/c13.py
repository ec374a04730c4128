import json
from collections import Counter
import numpy as N
from .. import base, canon, sched, world
from ..base import Prop, Run, caused_by_injection, dig, kernel_exc, pick_event, profile_call
from ..boot import SEAMS


def gen_args(rng, bad=False):
    d = dict(seed=rng.randrange(1 << 30), n=rng.choice([2, 5, 5, 9, 40]), axes=rng.choice([None, "yz", "xz", "tilt"]),
             means=rng.random() < .4, reverse=rng.random() < .3, tr=rng.random() < .5, dim=3)
    if rng.random() < .12:
        d.update(dim=2, axes="2d", tr=False)
    if bad:
        d["bad"] = rng.choice(["short", "xnone", "axes", "means"])
    return d


def make_args(d):
    rs = N.random.RandomState(d["seed"])
    h = N.sort(rs.uniform(.1, 20, d["dim"]))[::-1].copy()
    x = N.linspace(-rs.uniform(1, 30), rs.uniform(1, 30), d["n"])
    kw = {}
    if d["axes"] == "yz":
        kw["axes"] = N.array([[0., 1, 0], [0, 0, 1]])
    elif d["axes"] == "xz":
        kw["axes"] = N.array([[1., 0, 0], [0, 0, 1]])
    elif d["axes"] == "tilt":
        th = rs.uniform(0, 6)
        kw["axes"] = N.array([[N.cos(th), N.sin(th), 0], [0, 0, 1.]])
    elif d["axes"] == "2d":
        kw["axes"] = N.identity(2)
    if d["tr"]:
        kw["transformation"] = N.linalg.qr(rs.randn(3, 3))[0]
    if d["means"]:
        kw["means"] = rs.uniform(-9, 9, 2)
    if d["reverse"]:
        kw["reverse"] = True
    if d.get("nudge"):
        w, f = d["nudge"]
        if w == "h" or w not in list(kw) + ["x"]:
            h = h * N.array([1] * (d["dim"] - 1) + [1 + f])
        elif w == "x":
            x = x * (1 + f)
        elif w == "means":
            kw["means"] = kw["means"] + f
        else:
            c, s = N.cos(f), N.sin(f)
            kw[w] = kw[w] @ N.array([[c, s, 0], [-s, c, 0], [0, 0, 1]])
    b = d.get("bad")
    if b == "short":
        h = N.array([1.])
    elif b == "xnone":
        x = None
    elif b == "axes":
        kw["axes"] = N.zeros((1, 3))
    elif b == "means":
        kw["means"] = N.array([1., 2, 3])
    return [h, x], kw


def nudged(rng, d):
    """Arguments that differ from `d` in one small respect only, as in an animation."""
    w = rng.choice(["h", "h", "x", "means", "transformation", "reverse"])
    if w == "reverse":
        return dict(d, reverse=not d["reverse"])
    return dict(d, nudge=[w, rng.choice([1e-5, 1e-4, 3e-4, .01])])


def fill(bufs, name, v):
    """The caller's own buffer for this argument, refilled with the new value."""
    b = bufs.get(name)
    if isinstance(v, N.ndarray) and b is not None and b.shape == v.shape:
        b[...] = v
        return b
    bufs[name] = v
    return v


class C13(Prop):
    """plan: regions [{args|None}], ops [{id,t,k,r,args,scrib}], preempt, fault, kfault"""
    id = "C13"
    rule = ("1-4 regions on shared axes, 3-14 create/plot/update/replot steps by 1-3 threads with failing arguments, failing kernels, aborts "
            "and preemptions at seeded bytecodes, argument buffers overwritten after the call; shown vertices compared with the region of the "
            "last applied update computed in isolation; distinct = different (steps, switch/abort points); non-trivial = a region was shown")
    shrinkable = ("preempt", "fault", "kfault", "ops")
    per_chunk = 40
    chunks_quick = 96

    def reference(self, key):
        world.fresh("ref")
        from attitude.display import HyperbolicErrors
        ax = world.AXES[0]["plain"]
        if key == "null":       # drawn before anything was computed
            h = HyperbolicErrors()
            h.plot(ax)
            return dict(out=("ok", N.array(h.poly.get_xy(), dtype=float)), nom=None, ev=0, hot=[], k=0)
        a, kw = make_args(json.loads(key))
        box = {}

        def call():
            h = HyperbolicErrors()
            h.plot(ax)
            box["h"] = h
            h.update_data(*a, **kw)
        out, ev, hot, k = profile_call(call)
        if out[0] == "ok":
            # the value shown when created with the arguments and drawn, never updated
            a, kw = make_args(json.loads(key))
            h = HyperbolicErrors(*a, **kw)
            h.plot(ax)
            out = ("ok", N.array(h.poly.get_xy(), dtype=float))
            n = len(ax.lines)
            h.plot_nominal(ax)
            nom = [canon.artist(l)["xydata"] for l in ax.lines[n:]]
        else:
            nom = None
        return dict(out=out, nom=nom, ev=ev, hot=hot, k=k)

    def k(self, args):
        return json.dumps(args, sort_keys=True)

    def refs(self, plan):
        return dict({self.k(o["args"]): 0 for o in plan["ops"] if o.get("args")}, null=0)

    def gen(self, rng, env):
        nt = rng.choice([1, 1, 2, 2, 3])
        nr = rng.randint(nt, 4)
        reuse = rng.random() < .3       # callers refill the same buffers for every update
        shared = nt > 1 and rng.random() < .2
        plan = dict(nr=nr, shared=shared, reuse=reuse, ops=[], preempt=[], fault=[], kfault=[])
        if not hasattr(env, "argpool"):
            p = [gen_args(rng) for _ in range(8)]
            env.argpool = p + [nudged(rng, rng.choice(p[:3])) for _ in range(4)] + [gen_args(rng, True) for _ in range(4)]
        i = 0
        for t in range(nt):
            mine = [r for r in range(nr) if r % nt == t] or [t % nr]
            state = {}
            for _ in range(base.deep(rng.randint(3, 14) if nt == 1 else rng.randint(2, 6))):
                r = 0 if shared and state.get(0) == "plotted" and rng.random() < .7 else rng.choice(mine)
                o = dict(id=i, t=t, r=r)
                if r not in state:
                    o["k"] = "create"
                    o["args"] = rng.choice(env.argpool[:12]) if rng.random() < .6 else None
                    state[r] = "made"
                elif state[r] == "made" and rng.random() < .85:
                    o["k"] = "plot"
                    state[r] = "plotted"
                else:
                    x = rng.random()
                    if x < .8 or state[r] == "made":
                        o["k"] = "update"
                        o["args"] = rng.choice(env.argpool[:12] if rng.random() < .8 else env.argpool[12:])
                        o["scrib"] = rng.random() < .5
                    elif x < .86:
                        o["k"] = "nominal"
                    elif x < .91:
                        o["k"] = "again"       # drawn once more, the earlier drawing stays where it is
                        o["other"] = rng.random() < .4
                    elif x < .95:
                        o["k"] = "hide"        # what a user does to the drawn shape
                        o["how"] = rng.choice(["hide", "hide", "show", "alpha", "zorder", "color"])
                    else:
                        o["k"] = "replot"
                plan["ops"].append(o)
                i += 1
        if shared:
            # the shared region is created and drawn by thread 0 before the others touch it
            for t in range(1, nt):
                for _ in range(rng.randint(1, 3)):
                    plan["ops"].append(dict(id=i, t=t, r=0, k="update", args=rng.choice(env.argpool[:12]), scrib=False))
                    i += 1
        ups = [o for o in plan["ops"] if o["k"] == "update"]
        if ups and rng.random() < .5:
            for o in rng.sample(ups, min(len(ups), rng.choice([1, 1, 2]))):
                ref = env.refs.get(self.k(o["args"]))
                if ref["k"] and rng.random() < .25:
                    plan["kfault"].append([o["t"], o["id"], rng.randint(1, ref["k"]), rng.choice(["LinAlgError", "MemoryError"])])
                elif ref["ev"]:
                    plan["fault"].append([o["t"], o["id"], pick_event(rng, ref, True), rng.choice(["KeyboardInterrupt", "MemoryError"])])
        if nt > 1 and ups:
            for _ in range(rng.choice([1, 2, 3, 4])):
                o = rng.choice(ups)
                ref = env.refs.get(self.k(o["args"]))
                if ref["ev"]:
                    plan["preempt"].append([o["t"], o["id"], pick_event(rng, ref), rng.choice([x for x in range(nt) if x != o["t"]])])
        return plan

    def run(self, plan, R):
        from attitude.display import HyperbolicErrors
        world.fresh("run")
        stats = Counter()
        st = Run(plan, R, stats)
        axs = [world.AXES[0]["plain"], world.AXES[1]["plain"]]
        H = {}          # region -> object
        shown = {}      # region -> set of argument keys the shown region may equal (None = nothing computed yet)
        newest = {}     # region -> the shape its last drawing added to the axes (seen from outside, one caller at a time)
        bufs = {}       # region -> the caller's argument buffers
        clock = [0]
        done = {}       # shared region: list of (start, end, key)
        kplan = {(t, i, n): e for t, i, n, e in plan["kfault"]}
        kcount = Counter()

        def khook(name):
            t = sim.current_managed()
            if t is None or not t.counting:
                return
            kcount[(t.idx, t.op)] += 1
            e = kplan.get((t.idx, t.op, kcount[(t.idx, t.op)]))
            if e:
                stats["fault:kernel %s" % e] += 1
                raise kernel_exc(e)("injected into numpy.%s" % name)

        def matches(xy, key):
            ref = R["null" if key is None else key]["out"]
            return ref[0] == "ok" and canon.diff(N.array(xy, dtype=float), ref[1]) is None

        def audit(r, when):
            h = H.get(r)
            poly = newest.get(r) or getattr(h, "poly", None)
            if poly is None or r not in shown:
                return
            stats["comparisons"] += 1
            if not any(matches(poly.get_xy(), k) for k in shown[r]):
                st.fail("shown", "%s: region %d does not show its last applied update" % (when, r))
            if poly.axes is None or poly not in poly.axes.patches:
                st.fail("shown", "%s: region %d is no longer on its axes" % (when, r))
            stats["probe:regions audited"] += 1

        def body_for(tid):
            mine = [o for o in plan["ops"] if o["t"] == tid]

            def body(t):
                for o in mine:
                    r = o["r"]
                    h = H.get(r)
                    if o["k"] == "create":
                        if h is not None:
                            continue
                    elif h is None:
                        continue
                    if o["k"] in ("replot", "again", "hide") and getattr(h, "poly", None) is None:
                        continue
                    sharedr = plan["shared"] and r == 0
                    if sharedr and o["k"] in ("replot", "nominal", "again", "hide"):
                        continue
                    key = self.k(o["args"]) if o.get("args") else None
                    a, kw = make_args(o["args"]) if key else ((), {})
                    if plan.get("reuse") and key and not sharedr:
                        own = bufs.setdefault(r, {})
                        a = [fill(own, i, v) for i, v in enumerate(a)]
                        kw = {q: fill(own, q, v) for q, v in kw.items()}
                        stats["probe:updates with refilled buffers"] += 1
                    exc, inj = None, False
                    clock[0] += 1
                    start = clock[0]
                    lines = 0
                    before = [set(map(id, x.patches)) for x in axs]
                    sim.begin(t, o["id"])
                    try:
                        if o["k"] == "create":
                            H[r] = HyperbolicErrors(*a, **kw)
                        elif o["k"] == "plot":
                            h.plot(axs[r % 2], fc="#cccccc", alpha=.3)
                        elif o["k"] == "update":
                            h.update_data(*a, **kw)
                        elif o["k"] == "again":
                            h.plot(axs[(r + o["other"]) % 2], fc="green", alpha=.5)
                        elif o["k"] == "hide":
                            p = newest.get(r) or h.poly
                            p.set(**dict(hide=dict(visible=False), show=dict(visible=True), alpha=dict(alpha=.1), zorder=dict(zorder=7),
                                         color=dict(facecolor="red"))[o["how"]])
                            stats["probe:shapes restyled by the user"] += 1
                        elif o["k"] == "nominal":
                            lines = len(axs[r % 2].lines)
                            h.plot_nominal(axs[r % 2], color="red")
                        else:
                            (newest.get(r) or h.poly).remove()
                            h.plot(axs[(r + 1) % 2], fc="blue")
                    except BaseException as e:
                        exc = e
                        inj = caused_by_injection(e)
                    sim.end(t)
                    clock[0] += 1
                    end = clock[0]
                    if o["k"] in ("plot", "again", "replot") and nt == 1 and exc is None:
                        new = [p for x, b in zip(axs, before) for p in x.patches if id(p) not in b]
                        if len(new) == 1:
                            newest[r] = new[0]
                    stats["ops"] += 1
                    st.log.append((o["id"], type(exc).__name__ if exc else "ok"))
                    if o["k"] == "create":
                        if exc is None:
                            shown[r] = {key}
                    elif o["k"] == "update":
                        want = R[key]["out"]
                        drawn = getattr(h, "poly", None) is not None
                        if exc is None:
                            if want[0] == "exc" and drawn:
                                st.fail("outcome", "an update with unusable arguments was accepted")
                            shown[r] = {key} if not sharedr else shown[r]
                        else:
                            if want[0] == "ok" and not inj and drawn:
                                st.fail("outcome", "a valid update raised %s" % type(exc).__name__)
                            shown[r] = shown[r] | {key} if want[0] == "ok" else shown[r]
                            stats["probe:failed updates"] += 1
                        if sharedr and want[0] == "ok":
                            done.setdefault(r, []).append((start, end, key, exc is None))
                        if o.get("scrib"):
                            for b in list(a) + list(kw.values()):
                                if isinstance(b, N.ndarray):
                                    b[...] = -7.25
                    elif exc is not None and not (o["k"] == "nominal" and None in shown[r]):
                        st.fail("outcome", "%s raised %s" % (o["k"], type(exc).__name__))
                    elif o["k"] == "nominal" and exc is None:
                        ax = axs[r % 2]
                        got = [canon.artist(l)["xydata"] for l in ax.lines[lines:]] if nt == 1 else None
                        if got is not None and not any(k and R[k]["nom"] is not None and canon.diff(canon.canon(got), canon.canon(R[k]["nom"])) is None
                                                       for k in shown[r]):
                            st.fail("nominal", "the nominal line of region %d is not that of its last update" % r)
                    if sharedr:
                        continue
                    audit(r, "after %s" % o["k"])
                    if nt == 1:
                        for q in H:
                            audit(q, "after %s of region %d" % (o["k"], r))
                    if st.violation:
                        return
            return body
        nt = max([o["t"] for o in plan["ops"]] + [0]) + 1
        sim = sched.Sim([body_for(t) for t in range(nt)], plan["preempt"], plan["fault"])
        SEAMS.kernel_hook = khook
        sim.run()
        SEAMS.kernel_hook = None
        stats["fault:preemption"] += sim.switches
        for k, v in sim.fired.items():
            stats["fault:" + k] += v
        stats["events"] += sim.total_events
        if sim.deadlock:
            st.fail("deadlock", "callers block each other forever")
        for r, us in done.items():
            ok = [u for u in us if u[3]]
            if ok:
                last = max(u[0] for u in ok)
                # an update is superseded once another one began after it ended and was applied
                shown[r] = {u[2] for u in us if not any(v[0] > u[1] for v in ok)}
            else:
                shown[r] = shown.get(r, set()) | {u[2] for u in us}
        for r in H:
            audit(r, "at the end")
        key = dig(plan["nr"], plan["ops"], sim.interleaving())
        return dict(violation=st.violation, stats=stats, key=key, log=dig(sim.digest(), st.log),
                    nontrivial=stats["probe:regions audited"] > 0)


PROP = C13()
