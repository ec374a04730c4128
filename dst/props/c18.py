"""Sequences of interpreter sessions over the same stored coordinates."""
import copy, json, os, pickle, random
from collections import Counter
import numpy as N
from .. import base, canon, ops, sched, subjects, world, zygote
from ..base import Prop, REAL, STUBS, dig, pick_event, profile_call, caused_by_injection
from ..boot import SEAMS
from ..engine import HarnessError

USES = ["to_mapping", "strike_dip_rake", "rotated", "residuals", "plane_errors", "axes.noise_axes", "axes.sampling_axes", "error_coords",
        "draw.girdle_error", "draw.pole_error", "draw.hyperbola", "U", "as_conic", "hash", "copy", "error_ellipse", "cartopy", "show",
        "angular_errors", "repr", "pca_to_mapping", "aligned_covariance"]
LAYOUTS = ["C", "C", "F", "T", "view", "strided", "rev", "list"]


def stored(a, how):
    """The same coordinates as a caller may hold them in memory."""
    if how == "T":          # three coordinate columns, stacked and transposed
        return N.array([a[:, 0].copy(), a[:, 1].copy(), a[:, 2].copy()]).T
    if how == "rev":
        return N.ascontiguousarray(a[::-1])[::-1]
    if how == "list":
        return N.array(a.tolist())
    return subjects.layout(a.copy(), how)


def variants(rng, d):
    out = [d, dict(d, shift=[64, -32, 16]), dict(d, mirror=[-1, 1, 1]), dict(d, mirror=[-1, -1, 1]), dict(d, mirror=[1, 1, -1]),
           dict(d, scale=rng.choice([2, .5, 1.25])), dict(d, extra=rng.choice([1, 2, 5])), dict(d, turn=1),
           dict(d, nudge=[rng.randrange(d["n"]), rng.choice([1e-4, 1e-3, .1])]),
           dict(d, dip=(d["dip"] + 3) % 80 + 2), dict(d, strike=(d["strike"] + rng.choice([90, 180, 17])) % 360)]
    rng.shuffle(out)
    return out


def coords(d):
    a = subjects.make_data({k: v for k, v in d.items() if k not in ("scale", "nudge", "extra", "turn")})
    if "extra" in d:        # the same points and some more
        a = N.concatenate([a, a[:1] + N.arange(1, d["extra"] + 1)[:, None] * N.array([.5, -.25, 1.5])])
    if "turn" in d:         # digitised in the opposite direction
        a = a[::-1].copy()
    if "scale" in d:
        m = a.mean(axis=0)
        a = (a - m) * d["scale"] + m
    if "nudge" in d:
        i, by = d["nudge"]
        a[i % len(a)] += N.array([by, -by, 2 * by])
    return a


def scatter(item):
    if item["kind"] == "recon":
        return None
    a = coords(item["data"])
    a = a - a.mean(axis=0)
    return a.T @ a


def different(p, q):
    """The two measurements clearly differ in shape or attitude (not only in location, or by a point reflection)."""
    if (p["kind"] == "recon") != (q["kind"] == "recon"):
        return True
    if p["kind"] == "recon":
        return p["args"] != q["args"]
    s, r = scatter(p), scatter(q)
    return bool(N.abs(s - r).max() > 1e-11 * max(N.abs(s).max(), N.abs(r).max()))


def groupable(items):
    """Fitted measurements, one per shape (translated look-alikes may share a uid)."""
    out = []
    for j, it in enumerate(items):
        if it["kind"] != "recon" and all(different(items[k], it) for k in out):
            out.append(j)
    return out


def build(item, how):
    from attitude import Orientation, ReconstructedPlane
    if item["kind"] == "recon":
        return ReconstructedPlane(*item["args"])
    a = stored(item["arr"] if "arr" in item else coords(item["data"]), how)
    if item["kind"] == "weighted":
        return Orientation(a, weights=N.array(item["weights"], dtype=float))
    if item["kind"] == "saved":
        w = N.array(item["weights"], dtype=float) if item.get("weights") else None
        return Orientation(a, axes=N.array(Orientation(coords(item["data"]), weights=w).principal_axes))
    return Orientation(a)


def population(seed, n):
    """Many small measurements, no two alike."""
    rs = N.random.RandomState(seed)
    out = []
    for i in range(n):
        a = rs.randn(rs.choice([4, 5, 7]), 3) * [30, 10, 1] @ N.linalg.qr(rs.randn(3, 3))[0] + rs.uniform(-500, 500, 3)
        out.append(N.round(a, 2) if seed % 2 else a)
    return out


def plain(r):
    return json.loads(json.dumps(r))


def session(req, tell):
    """Runs in a freshly forked child of one of the interpreters."""
    from attitude import create_groups
    items, ses, store = req["items"], req["session"], req["store"]
    world.fresh("session/%s" % ses["tag"])
    SEAMS.clock = world.Clock(ses["t0"], ses["step"])
    random.seed(ses["tag"])
    N.random.seed(ses["tag"])
    if ses.get("fmt"):          # the user's own formatting and error settings
        N.set_printoptions(**ses["fmt"])
    if ses.get("err"):
        N.seterr(all=ses["err"])
    planes = {}

    def plane(i):
        if i not in planes:
            planes[i] = build(items[i], ses["layout"])
        return planes[i]

    def step(o, tid):
        k, i = o["k"], o.get("i")
        if k == "build":
            planes[i] = build(items[i], o["how"])
        elif k == "copy":
            planes[i] = copy.copy(plane(i))
        elif k == "deepcopy":
            planes[i] = copy.deepcopy(plane(i))
        elif k == "pickle":
            planes[i] = pickle.loads(pickle.dumps(plane(i)))
        elif k == "save":          # a pickled plane becomes durable
            return ("pickle", i, pickle.dumps(plane(i)))
        elif k == "load":
            b = store["pickle"].get(i)
            if b is not None:
                planes[i] = pickle.loads(b)
        elif k == "use":
            p = plane(i)
            if o["op"] in ops.OPS and items[i]["kind"] in ops.OPS[o["op"]].kinds:
                try:
                    ops.execute(o["op"], o["a"] % len(ops.OPS[o["op"]].args), p, world.Ctx(tid))
                except Exception as e:
                    if caused_by_injection(e):
                        raise
        elif k == "uid":
            return ("uid", i, plane(i).hash)
        elif k == "pop":           # a large mapping campaign
            return ("pop", o["seed"], [build(dict(kind="pca", arr=a), o["how"]).hash for a in population(o["seed"], o["n"])])
        elif k == "export":
            return ("record", i, plain(plane(i).to_mapping()))
        elif k == "group":         # first session to get here records the groups by uid; later ones re-form them
            fam = groupable(items)
            coll = [plane(j) if o["own"] else build(items[j], ses["layout"]) for j in fam]
            uids = store["groups"].get(o["g"])
            if uids is None:
                uids = [coll[fam.index(j)].hash for j in o["members"]]
                new = ("groups", o["g"], uids)
            else:
                new = None
            try:
                res = create_groups(coll, uids, same_plane=o["same"])
            except KeyError as e:
                return ("lost", o["g"], str(e))
            recs = [plain(r.to_mapping()) for r in res]
            return ("regroup", o["g"], recs, new)
        return None
    stats = Counter()

    def body_for(tid):
        def body(t):
            for o in ses["ops"]:
                if o["t"] != tid:
                    continue
                sim.begin(t, o["id"])
                m = exc = None
                try:
                    m = step(o, tid)
                except BaseException as e:
                    exc = e
                sim.end(t)
                stats["ops"] += 1
                if exc is not None:
                    if not caused_by_injection(exc):
                        tell(("raised", o, "%s: %s" % (type(exc).__name__, exc)))
                    else:
                        stats["probe:aborted operations"] += 1
                elif m is not None:
                    tell(("obs", o["id"], m))
        return body
    nt = max([o["t"] for o in ses["ops"]] + [0]) + 1
    sim = sched.Sim([body_for(t) for t in range(nt)], ses["preempt"], ses["fault"])

    def crash():
        tell(("crash", sim.digest()))
        os._exit(9)
    sim.on_crash = crash
    sim.run()
    stats["fault:preemption"] += sim.switches
    stats["events"] += sim.total_events
    for k, v in sim.fired.items():
        stats["fault:" + k] += v
    tell(("end", dict(stats), sim.digest()))


class C18(Prop):
    id = "C18"
    per_chunk = 14
    chunks_quick = 48
    chunks_thorough = 3000
    rule = ("sequences of 2-5 sessions, each in its own process of one of 4 interpreters (hash seed, -O, dev mode, allocator, locale, time zone, "
            "working directory), over the same stored coordinates of 3-8 measurements incl. look-alikes; building from several memory layouts, "
            "copying, pickling within and across sessions, use, aborted use, grouping by recorded uid, 1-2 threads with preemption, crash at any "
            "package bytecode; distinct = different (items, sessions, steps, faults); non-trivial = some measurement observed in two sessions")
    real = REAL + ["separate CPython interpreters (one process per session)", "pickle", "create_groups"]
    stubs = STUBS + ["process crash (immediate exit at a chosen bytecode; only what the session had stored survives)"]
    Z = None

    def setup(self):
        C18.Z = zygote.Zygotes("dst.props.c18", "session")

    def make_pool(self, rng, tier):
        out = []
        for _ in range(3):
            d = subjects.gen_data(rng, n=rng.choice([4, 5, 8, 16, 40]) if rng.random() > .12 else 3000, grid=rng.random() < .4)
            for v in variants(rng, d)[:6]:
                k = rng.choice(["pca"] * 6 + ["weighted", "saved"])
                it = dict(kind=k, data=v)
                if k == "weighted" or k == "saved" and rng.random() < .5:
                    it["weights"] = [1, rng.choice([2, .5]), rng.choice([1, 3])]
                out.append(it)
        a = [rng.uniform(0, 360), rng.uniform(1, 89), rng.uniform(0, 180), rng.uniform(.2, 5), rng.uniform(5, 20)]
        out.append(dict(kind="recon", args=a))
        out.append(dict(kind="recon", args=[(a[0] + 180) % 360] + a[1:]))
        out.append(dict(kind="recon", args=a[:3] + [a[3] + .5, a[4]]))
        return out

    def reference(self, key):
        world.fresh("ref")
        items, o = json.loads(key)
        objs = [build(i, "C") for i in items]
        if o["k"] == "group":
            from attitude import create_groups
            fn = lambda: create_groups(objs, [p.hash for p in objs]) and None
        elif o["k"] in ("use", "uid", "export"):
            def fn():
                if o["k"] == "uid":
                    return objs[0].hash
                if o["k"] == "export" or o["op"] not in ops.OPS or items[0]["kind"] not in ops.OPS[o["op"]].kinds:
                    objs[0].to_mapping()
                else:
                    ops.execute(o["op"], o["a"] % len(ops.OPS[o["op"]].args), objs[0], world.Ctx(0))
                return None
        else:
            fn = lambda: build(items[0], "C") and None
        out, ev, hot, k = profile_call(fn)
        return dict(ev=ev, hot=hot, k=k)

    def gen(self, rng, env):
        n = rng.randint(3, 8)
        items = rng.sample(env.pool, n)
        plan = dict(items=items, sessions=[])
        fit = groupable(items)
        groups = []
        if len(fit) >= 2:
            for g in range(rng.choice([1, 1, 2])):
                groups.append(dict(g=g, members=rng.sample(fit, rng.randint(2, min(4, len(fit)))), same=rng.random() < .4))
        for q in range(rng.choice([2, 2, 3, 3, 4, 5])):
            plan["sessions"].append(self.gen_session(rng, env, plan, groups, q))
        return plan

    def gen_session(self, rng, env, plan, groups, q):
        items = plan["items"]
        s = dict(z=rng.randrange(len(zygote.SETTINGS)), tag=rng.randrange(1 << 30), t0=rng.choice([1.7e9, 1.6e9, 0, 1.7e9 + q]),
                 step=rng.choice([1e-3, 0, 5]), layout=rng.choice(LAYOUTS), ops=[], preempt=[], fault=[])
        if rng.random() < .3:
            s["fmt"] = rng.choice([dict(precision=3), dict(precision=17, threshold=10 ** 6), dict(threshold=5, edgeitems=1), dict(suppress=True),
                                   dict(floatmode="fixed", precision=1), dict(sign="+"), dict(legacy="1.13")])
        if rng.random() < .2:
            s["err"] = rng.choice(["ignore", "warn"])
        nt = rng.choice([1, 1, 1, 2])
        k = 0
        for t in range(nt):
            for _ in range(base.deep(rng.randint(3, 10))):
                i = rng.randrange(len(items))
                r = rng.random()
                if r < .12:
                    o = dict(k="build", i=i, how=rng.choice(LAYOUTS))
                elif r < .24:
                    o = dict(k=rng.choice(["copy", "deepcopy", "pickle"]), i=i)
                elif r < .34:
                    o = dict(k=rng.choice(["save", "load", "load"]), i=i)
                elif r < .56:
                    o = dict(k="use", i=i, op=rng.choice(USES), a=rng.randrange(6))
                elif r < .57:
                    o = dict(k="pop", seed=rng.randrange(6), n=rng.choice([150, 250]), how=rng.choice(LAYOUTS))
                elif r < .72:
                    o = dict(k="uid", i=i)
                elif r < .86 or not groups:
                    o = dict(k="export", i=i)
                else:
                    o = dict(rng.choice(groups), k="group", own=nt == 1 and rng.random() < .5)
                o.update(id=k, t=t)
                k += 1
                s["ops"].append(o)
        # every session ends by looking at everything it has
        if rng.random() < .8:
            for i in range(len(items)):
                s["ops"].append(dict(k="uid", i=i, id=k, t=0))
                k += 1

        def ref(o):
            if o["k"] == "pop":
                return dict(ev=0)
            if o["k"] == "group":
                sub = [items[j] for j in o["members"]]
            else:
                sub = [items[o["i"]]]
            return env.refs.get(json.dumps([sub, {a: o.get(a) for a in ("k", "op", "a")}], sort_keys=True))
        for _ in range(rng.choice([0, 0, 1, 2])):
            o = rng.choice(s["ops"])
            r = ref(o)
            if r["ev"]:
                s["fault"].append([o["t"], o["id"], pick_event(rng, r, True), rng.choice(["Crash", "KeyboardInterrupt", "MemoryError"])])
        if nt > 1:
            for _ in range(rng.choice([1, 2, 3])):
                o = rng.choice(s["ops"])
                r = ref(o)
                if r["ev"]:
                    s["preempt"].append([o["t"], o["id"], pick_event(rng, r), 1 - o["t"]])
        return s

    def run(self, plan, R):
        items = plan["items"]
        store = dict(pickle={}, groups={})
        uid, rec, grp, pop = {}, {}, {}, {}
        stats, log, viol = Counter(), [], None
        seen = Counter()

        def fail(cls, msg):
            nonlocal viol
            viol = viol or dict(cls=cls, msg=msg)
        for q, ses in enumerate(plan["sessions"]):
            msgs = self.Z.session(ses["z"], dict(items=items, session=ses, store=store))
            tail = msgs[-1] if msgs else ("nothing",)
            if tail[0] == "crash":
                stats["fault:crash"] += 1
            elif tail[0] == "end":
                stats.update(tail[1])
            else:
                raise HarnessError("session ended with %r" % (tail,))
            log.append(tail[-1])
            stats["probe:sessions"] += 1
            touched = set()
            for m in msgs[:-1]:
                if m[0] == "raised":
                    fail("raised", "session %d: %s of a %s measurement raised %s" % (
                        q, m[1]["k"], items[m[1]["i"]]["kind"] if "i" in m[1] else "group", m[2]))
                    continue
                if m[0] != "obs":
                    raise HarnessError("unexpected %r" % (m,))
                x = m[2]
                stats["comparisons"] += 1
                if x[0] == "pop":
                    stats["probe:measurements in populations"] += len(x[2])
                    if len(set(x[2])) != len(x[2]):
                        fail("collision", "%d of %d different measurements share uids" % (len(x[2]) - len(set(x[2])), len(x[2])))
                    k = min(len(x[2]), len(pop.setdefault(x[1], x[2])))
                    if x[2][:k] != pop[x[1]][:k]:
                        fail("uid", "measurements of a campaign have other uids in session %d" % q)
                elif x[0] == "pickle":
                    store["pickle"][x[1]] = x[2]
                elif x[0] == "uid":
                    touched.add(x[1])
                    log.append(x)
                    if uid.setdefault(x[1], (x[2], q))[0] != x[2]:
                        fail("uid", "a %s measurement has uid %s in session %d and %s in session %d" % (
                            items[x[1]]["kind"], uid[x[1]][0], uid[x[1]][1], x[2], q))
                elif x[0] == "record":
                    i, r = x[1], x[2]
                    touched.add(i)
                    log.append(r["uid"])
                    if uid.setdefault(i, (r["uid"], q))[0] != r["uid"]:
                        fail("uid", "a %s measurement has uid %s in session %d and exports %s in session %d" % (
                            items[i]["kind"], uid[i][0], uid[i][1], r["uid"], q))
                    d = canon.diff(canon.canon(r), canon.canon(rec.setdefault(i, r)))
                    if d:
                        fail("record", "exported record of a %s measurement differs between sessions: %s" % (items[i]["kind"], d))
                elif x[0] == "lost":
                    fail("regroup", "a group recorded by uid in an earlier session cannot be re-formed in session %d: %s" % (q, x[2]))
                elif x[0] == "regroup":
                    g, recs, new = x[1], x[2], x[3]
                    if new is not None:
                        store["groups"].setdefault(new[1], new[2])
                    stats["probe:groups re-formed from recorded uids"] += new is None
                    d = canon.diff(canon.canon(recs), canon.canon(grp.setdefault(g, recs)))
                    if d:
                        fail("regroup", "a group re-formed from its recorded uids differs in session %d: %s" % (q, d))
            for i in touched:
                seen[i] += 1
        by = {}
        for i in sorted(uid):
            j = by.setdefault(uid[i][0], i)
            if i != j and different(items[i], items[j]):
                fail("collision", "two measurements with different shape or attitude share uid %s" % uid[i][0])
        return dict(violation=viol, stats=stats, log=dig(log), key=dig(items, plan["sessions"]), nontrivial=any(v > 1 for v in seen.values()))

    def shrink(self, plan):
        ss = plan["sessions"]
        for i in range(len(ss)):
            yield dict(plan, sessions=ss[:i] + ss[i + 1:])
        for i, s in enumerate(ss):
            for f in ("fault", "preempt", "ops"):
                n = len(s[f])
                for size in (n, n // 2, 1):
                    if size:
                        for j in range(0, n, size):
                            yield dict(plan, sessions=ss[:i] + [dict(s, **{f: s[f][:j] + s[f][j + size:]})] + ss[i + 1:])
            if s["layout"] != "C":
                yield dict(plan, sessions=ss[:i] + [dict(s, layout="C")] + ss[i + 1:])


PROP = C18()
