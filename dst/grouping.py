"""Simulated grouping histories over real planes, against a model collection (lists and sets)."""
import json, random
from collections import Counter
import numpy as N
from . import base, canon, model, ops, sched, subjects, world
from .base import Prop, dig, caused_by_injection, kernel_exc, pick_event, profile_call
from .boot import SEAMS

QUERIES = ["to_mapping", "strike_dip_rake", "plane_errors", "axes.noise_axes", "axes.sampling_axes", "rotated", "residuals", "as_conic",
           "draw.girdle_error", "draw.pole_error", "hash", "U", "error_coords", "copy", "draw.hyperbola", "cartopy", "error_ellipse", "show"]


class Item:
    def __init__(self, key, disabled=False):
        self.key, self.disabled = key, disabled     # ("m", i) or ("g", (i, ...), same)


class Coll:
    """One collection: the real list, its model items, and the set of object identities it shares (cls)."""

    def __init__(self, real, items, cls):
        self.real, self.items, self.cls, self.dead, self.stale = real, items, cls, False, False


def gen_measurements(rng, k):
    out = []
    for _ in range(k):
        d = subjects.gen_data(rng, n=rng.choice([4, 5, 6, 8, 12, 20, 20, 60, 130]) if rng.random() > .02 else 4096 + rng.randrange(3))
        if out and rng.random() < .35:
            if rng.random() < .6:       # another piece of the same outcrop: near the last one, maybe with points in common
                q = {k: v for k, v in rng.choice(out).items() if k not in ("kind", "with")}
                for k in ("strike", "dip", "off"):
                    d[k] = q[k]
                d["noise"] = max(d["noise"], .3)
                d["with"] = [q, min(d["n"] - 3, rng.choice([1, 2, 3]))]
            else:                       # the same points measured again, with some more
                q = {k: v for k, v in rng.choice(out).items() if k not in ("kind", "with")}
                d = dict(d, off=q["off"], strike=q["strike"], dip=q["dip"], noise=max(q["noise"], .3), n=max(d["n"], min(q["n"], 20) + 3))
                d["with"] = [q, d["n"] - 3]
        d["kind"] = rng.choice(["pca", "pca", "pca", "saved", "weighted"])
        out.append(d)
    return out


def unknown_kind(rng):
    return rng.choice(["?", "?", "?begin", "?end", "?longer", "?case", "?empty", "?space"])


def unknown_uid(how, known):
    """A uid no item has, in a form a careless lookup could take for a known one."""
    k = known[-1] if known else ""
    u = {"?begin": k[:4], "?end": k[4:], "?longer": k + "0", "?case": k.upper(), "?empty": "", "?space": " " + k}.get(how, "ffffffff")
    return "ffffffff" if u in known else u


def make(d):
    kind = d["kind"]
    spec = {k: v for k, v in d.items() if k != "kind"}
    s = dict(kind=kind, data=spec)
    if kind == "weighted":
        s["weights"] = [1, 2, 1]
    return subjects.build(s)


def points(d):
    return subjects.make_data({k: v for k, v in d.items() if k != "kind"})


def item_of(key):
    return Item(tuple(key[:1]) + (tuple(key[1]) if isinstance(key[1], list) else key[1],) + tuple(key[2:]))


class GroupProp(Prop):
    """plan: data [spec], base groups [[idx]] formed first, steps [{id,t,k,...}], preempt, fault, kfault"""
    shrinkable = ("preempt", "fault", "kfault", "steps", "base")
    per_chunk = 24
    chunks_quick = 128
    inplace = .35
    p_bad = .2
    faults = ("abort", "kernel", None, None)
    nthreads = (1, 1, 1, 2, 3)
    audit_model = True        # C07: compare structure with the model
    audit_input = True        # C08: snapshot the input collection
    audit_values = True       # C09: independent fit of every group

    # ---------------------------------------------------------------- generation
    def make_pool(self, rng, tier):
        return gen_measurements(rng, 10)

    def gen(self, rng, env):
        k = rng.randint(3, 7)
        data = rng.sample(env.pool, k)
        plan = dict(data=data, base=[], steps=[], preempt=[], fault=[], kfault=[])
        if rng.random() < .5:
            a = rng.sample(range(k), rng.randint(2, min(4, k)))
            plan["base"] = [[a, rng.random() < .4]]
        nt = rng.choice(self.nthreads)
        nid = 0
        for t in range(nt):
            for _ in range(base.deep(rng.randint(1, 4) if nt > 1 else rng.randint(1, 8))):
                s = self.gen_step(rng, k, t)
                s["id"], s["t"] = nid, t
                nid += 1
                plan["steps"].append(s)
        gs = [s for s in plan["steps"] if s["k"] == "group"]
        mode = rng.choice(self.faults)
        if mode and gs:
            for s in rng.sample(gs, min(len(gs), rng.choice([1, 1, 2]))):
                # events scale with collection and groups; learn the size from this tree
                ref = env.refs.get(json.dumps([data, plan["base"], s["lists"], s["same"]]))
                if mode == "abort" and s["copy"]:
                    plan["fault"].append([s["t"], s["id"], pick_event(rng, ref, True), rng.choice(["KeyboardInterrupt", "MemoryError"])])
                elif mode == "kernel" and ref["k"]:
                    plan["kfault"].append([s["t"], s["id"], rng.randint(1, ref["k"]), rng.choice(["LinAlgError", "MemoryError"])])
        if nt > 1 and gs:
            for _ in range(rng.choice([1, 2, 2, 3, 4])):
                s = rng.choice(gs)
                ref = env.refs.get(json.dumps([data, plan["base"], s["lists"], s["same"]]))
                if ref["ev"]:
                    to = rng.choice([x for x in range(nt) if x != s["t"]])
                    plan["preempt"].append([s["t"], s["id"], pick_event(rng, ref), to])
        return plan

    def gen_step(self, rng, k, t):
        r = rng.random()
        if r < .62:
            lists = []
            if rng.random() < .9:
                pool = list(range(k))
                rng.shuffle(pool)
                for _ in range(rng.choice([1, 1, 2, 3])):
                    n = rng.choice([2, 2, 3, 4])
                    lists.append([pool.pop() for _ in range(min(n, len(pool)))])
                lists = [l for l in lists if len(l) > 1]
            if lists and rng.random() < self.p_bad:
                bad = rng.choice(["?", unknown_kind(rng), "g", "dup", "again"])
                tgt = rng.choice(lists)
                if bad == "dup":
                    tgt.append(tgt[0])
                elif bad == "again":
                    lists.append([lists[0][0]])
                else:
                    tgt.insert(rng.randrange(len(tgt) + 1), bad)
            return dict(k="group", lists=lists, copy=rng.random() > self.inplace, same=rng.random() < .4)
        if r < .72:
            return dict(k="disable", who=rng.choice([rng.randrange(k), rng.randrange(k), unknown_kind(rng), "g"]))
        if r < .84:
            return dict(k="filter", seed=rng.randrange(1000), how=rng.choice(["drop", "shuffle", "drop1", "dropgroups", "dropmembers"]))
        if r < .9:
            return dict(k="back", n=rng.randrange(4))
        return dict(k="query", op=rng.choice(QUERIES), a=0, item=rng.randrange(12))

    def reference(self, key):
        data, base, lists, same = json.loads(key)
        world.fresh("ref")
        from attitude import create_groups
        coll = [make(d) for d in data]
        if base:
            coll = create_groups(coll, *[[coll[i].hash for i in b] for b, s in base], same_plane=base[0][1])
        uids = [[coll[i].hash if isinstance(i, int) else "ffffffff" for i in l] for l in lists]
        out, ev, hot, k = profile_call(lambda: create_groups(coll, *uids, same_plane=same) and None)
        return dict(ev=ev, hot=hot, k=k)

    def refs(self, plan):
        return []

    # ---------------------------------------------------------------- execution
    def run(self, plan, R):
        from attitude import create_groups
        from attitude.orientation.grouped import GroupedPlaneError, disable_orientations
        world.fresh("run")
        S = State(plan)
        base_real = [make(d) for d in plan["data"]]
        S.uid = [o.hash for o in base_real]
        if len(set(S.uid)) != len(S.uid):
            return S.result(None)
        items = [Item(("m", i)) for i in range(len(base_real))]
        if plan["base"]:
            lists = [b for b, s in plan["base"]]
            same = plan["base"][0][1]
            base_real = create_groups(base_real, *[[S.uid[i] for i in b] for b in lists], copy=False, same_plane=same)
            items += [Item(("g", tuple(b), same)) for b in lists]
        S.base = Coll(base_real, items, 0)
        S.verify(self, S.base, "base")
        nt = max([s["t"] for s in plan["steps"]] + [0]) + 1
        kplan = {(t, i, n): exc for t, i, n, exc in plan["kfault"]}
        kcount = Counter()

        def khook(name):
            t = sim.current_managed()
            if t is None or not t.counting:
                return
            kcount[(t.idx, t.op)] += 1
            exc = kplan.get((t.idx, t.op, kcount[(t.idx, t.op)]))
            if exc:
                S.stats["fault:kernel %s" % exc] += 1
                raise kernel_exc(exc)("injected into numpy.%s" % name)

        def body_for(tid):
            mine = [s for s in plan["steps"] if s["t"] == tid]

            def body(t):
                hist = [S.base]
                cur = S.base
                first = True
                for s in mine:
                    S.stats["ops"] += 1
                    if s["k"] == "group":
                        cp = s["copy"] or (nt > 1 and cur.cls == 0)
                        cur = self.step_group(S, sim, t, s, cur, cp, create_groups, GroupedPlaneError, hist)
                    elif s["k"] == "disable":
                        if nt > 1 and cur.cls == 0:
                            continue
                        self.step_disable(S, s, cur, disable_orientations)
                    elif s["k"] == "filter":
                        cur = self.step_filter(S, s, cur)
                        hist.append(cur)
                    elif s["k"] == "back":
                        live = [c for c in hist if not c.dead]
                        cur = live[s["n"] % len(live)] if live else cur
                    else:
                        self.step_query(S, s, cur, tid, (nt == 1 or cur.cls != 0))
                    if S.violation:
                        return
            return body
        sim = sched.Sim([body_for(t) for t in range(nt)], plan["preempt"], plan["fault"])
        SEAMS.kernel_hook = khook
        sim.run()
        SEAMS.kernel_hook = None
        S.stats["fault:preemption"] += sim.switches
        for k, v in sim.fired.items():
            S.stats["fault:" + k] += v
        S.stats["events"] += sim.total_events
        if sim.deadlock:
            S.fail("deadlock", "callers block each other forever")
        return S.result(sim)

    def step_group(self, S, sim, t, s, cur, cp, create_groups, GroupedPlaneError, hist):
        # what the model expects
        uids, reasons = [], set()
        used = {i for it in cur.items if it.key[0] == "g" for i in it.key[1]}
        present = {it.key[1] for it in cur.items if it.key[0] == "m"}
        ghash = next((o.hash for o in cur.real if hasattr(o, "members")), None)
        for l in s["lists"]:
            u = []
            for i in l:
                if str(i)[0] == "?" or (i == "g" and ghash is None):
                    u.append(unknown_uid(i, [o.hash for o in cur.real]))
                    reasons.add("unknown")
                elif i == "g":
                    u.append(ghash)
                    reasons.add("group")
                else:
                    u.append(S.uid[i])
                    if i not in present:
                        reasons.add("unknown")
                    elif i in used:
                        reasons.add("grouped")
                    used.add(i)
            uids.append(u)
        watched = [c for c in hist if not c.dead] if cp else []
        if cur not in watched and cp:
            watched.append(cur)
        snaps = [(c, S.snapshot(c)) for c in watched] if self.audit_input else []
        keep_uids = [list(u) for u in uids]
        before = list(cur.real)
        inj, exc, out = False, None, None
        sim.begin(t, s["id"])
        try:
            out = create_groups(cur.real, *uids, copy=cp, same_plane=s["same"])
        except BaseException as e:
            exc = e
            inj = caused_by_injection(e)
        sim.end(t)
        S.log.append((s["id"], type(exc).__name__ if exc else len(out), cp))
        S.stats["comparisons"] += 1
        S.stats["probe:grouping calls"] += 1
        if uids != keep_uids and self.audit_input:
            S.fail("input", "the caller's uid lists were modified")
        for c, sn in snaps:
            d = S.snap_diff(c, sn)
            if d:
                S.fail("input", "a %s copying call changed the caller's collection: %s" % ("failed" if exc else "successful", d))
        if exc is not None and not inj:
            if not reasons:
                S.fail("refused", "a valid grouping request raised %s: %s" % (type(exc).__name__, exc))
                return cur
            S.stats["probe:refused requests"] += 1
            ok = (isinstance(exc, KeyError) and "unknown" in reasons) or (
                isinstance(exc, GroupedPlaneError) and reasons & {"grouped", "group"})
            if not ok and self.audit_model:
                S.fail("errors", "request with %s refused with %s" % (sorted(reasons), type(exc).__name__))
        if exc is None and reasons:
            if self.audit_model:
                S.fail("accepted", "a request that must be refused (%s) was carried out" % sorted(reasons))
            return cur
        if exc is not None:
            if inj:
                S.stats["probe:grouping calls failed by a fault"] += 1
            if cp:
                return cur
            # in place: nothing lost, only complete requested groups added, memberships consistent
            n = len(before)
            if len(cur.real) < n or any(x is not y for x, y in zip(cur.real, before)):
                S.fail("debris", "a failed in-place call changed the existing measurements")
                return cur
            for o in cur.real[n:]:
                mem = getattr(o, "members", None)
                idx = None if mem is None else S.indices(mem)
                if idx is None or list(idx) not in [l for l in s["lists"]]:
                    S.fail("debris", "a failed in-place call left an unrequested item")
                    return cur
                cur.items.append(Item(("g", tuple(idx), s["same"])))
            self.kill(hist, cur)
            S.verify(self, cur, "after a failed in-place call")
            return cur
        if cp:
            S.ncls += 1
            items = [Item(it.key, it.disabled) for it in cur.items] + [Item(("g", tuple(l), s["same"])) for l in s["lists"]]
            new = Coll(out, items, S.ncls)
            if self.audit_input:
                olds = {id(o) for o in cur.real}
                if out is cur.real or any(id(o) in olds for o in out):
                    S.fail("input", "a copying call returned the caller's own objects")
        else:
            cur.items.extend(Item(("g", tuple(l), s["same"])) for l in s["lists"])
            if out is not cur.real:
                cur.real = out
            new = cur
            self.kill(hist, cur)
        hist.append(new)
        S.verify(self, new, "after grouping")
        return new

    def kill(self, hist, cur):
        for c in hist:
            if c is not cur and c.cls == cur.cls:
                c.dead = True

    def step_disable(self, S, s, cur, disable):
        w = s["who"]
        if w == "g":
            j = next((j for j, it in enumerate(cur.items) if it.key[0] == "g"), None)
            if j is None:
                return
        elif str(w)[0] == "?":
            try:
                disable(cur.real, unknown_uid(w, [o.hash for o in cur.real]))
                S.fail("errors", "disabling an unknown uid was not refused")
            except KeyError:
                pass
            except Exception as e:
                S.fail("errors", "disabling an unknown uid raised %s" % type(e).__name__)
            S.verify(self, cur, "after a refused disable", membership=False)
            return
        else:
            j = next((j for j, it in enumerate(cur.items) if it.key == ("m", w)), None)
            if j is None:
                return
        disable(cur.real, cur.real[j].hash)
        cur.items[j].disabled = True
        S.verify(self, cur, "after disabling", membership=False)

    def step_filter(self, S, s, cur):
        rng = random.Random(s["seed"])
        idx = list(range(len(cur.real)))
        if s["how"] == "drop":
            idx = [i for i in idx if rng.random() < .75]
        elif s["how"] == "drop1" and idx:
            idx.pop(rng.randrange(len(idx)))
        elif s["how"] == "shuffle":
            rng.shuffle(idx)
        elif s["how"] == "dropgroups":
            idx = [i for i in idx if cur.items[i].key[0] == "m"]
        else:
            g = {i for it in cur.items if it.key[0] == "g" for i in it.key[1]}
            idx = [i for i in idx if not (cur.items[i].key[0] == "m" and cur.items[i].key[1] in g and rng.random() < .5)]
        c = Coll([cur.real[i] for i in idx], [cur.items[i] for i in idx], cur.cls)
        c.stale = True
        S.stats["probe:collections edited by the caller"] += 1
        return c

    def step_query(self, S, s, cur, tid, own):
        if not cur.real:
            return
        o = cur.real[s["item"] % len(cur.real)]
        try:
            ops.execute(s["op"], s["a"], o, world.Ctx(tid))
        except Exception:
            pass


class State:
    def __init__(self, plan):
        self.plan, self.stats, self.log, self.violation = plan, Counter(), [], None
        self.ncls = 0
        self.pts = [points(d) for d in plan["data"]]

    def fail(self, cls, msg):
        if self.violation is None:
            self.violation = dict(cls=cls, msg=msg)

    def index(self, o):
        a = N.asarray(o.array)
        for i, p in enumerate(self.pts):
            if a.shape == p.shape and N.array_equal(a, p):
                return i
        return None

    def indices(self, objs):
        out = [self.index(o) for o in objs]
        return None if None in out else tuple(out)

    def snapshot(self, c):
        return [list(c.real), [(o.member_of, getattr(o, "members", None), o.disabled, canon.canon(
            [o.array, o.centered_array, o.axes, o.singular_values, o.mean, o.n])) for o in c.real],
            [(m, m.member_of, m.disabled) for o in c.real for m in getattr(o, "members", ())]]

    def snap_diff(self, c, sn):
        if len(c.real) != len(sn[0]) or any(x is not y for x, y in zip(c.real, sn[0])):
            return "items were added, removed or replaced"
        for o, (mo, mem, dis, vals) in zip(c.real, sn[1]):
            if o.member_of is not mo:
                return "group membership of a measurement changed"
            m2 = getattr(o, "members", None)
            if (m2 is None) != (mem is None) or (mem is not None and (len(m2) != len(mem) or any(x is not y for x, y in zip(m2, mem)))):
                return "members of a group changed"
            if o.disabled != dis:
                return "disabled flag changed"
            d = canon.diff(canon.canon([o.array, o.centered_array, o.axes, o.singular_values, o.mean, o.n]), vals)
            if d:
                return "data of a plane changed " + d
        for m, mo, dis in sn[2]:
            if m.member_of is not mo or m.disabled != dis:
                return "a group member's state changed"
        return None

    def verify(self, prop, c, when, membership=True):
        if self.violation:
            return
        self.stats["comparisons"] += 1
        if prop.audit_model:
            d = self.structure(c, membership)
            if d:
                return self.fail("structure", "%s: %s" % (when, d))
        if prop.audit_values:
            d = self.values(c)
            if d:
                return self.fail("values", "%s: %s" % (when, d))
        if prop.audit_input and not prop.audit_model:
            # a collection must stay exportable, with memberships consistent
            d = self.structure(c, membership)
            if d:
                return self.fail("debris", "%s: %s" % (when, d))

    def structure(self, c, membership):
        L = c.real
        if len(L) != len(c.items):
            return "%d items, expected %d" % (len(L), len(c.items))
        recs = [o.to_mapping() for o in L]
        for o, it, r in zip(L, c.items, recs):
            if it.key[0] == "m":
                if hasattr(o, "members") or self.index(o) != it.key[1]:
                    return "measurement %d is not where it was" % it.key[1]
                if r["uid"] != self.uid[it.key[1]]:
                    return "measurement %d changed its uid" % it.key[1]
                if r.get("members") is not None:
                    return "a measurement exports members"
            else:
                if not hasattr(o, "members") or self.indices(o.members) != it.key[1]:
                    return "a group does not list exactly the requested members, in order"
                if list(r["members"]) != [self.uid[i] for i in it.key[1]]:
                    return "a group's record lists other uids than its members'"
            if bool(o.disabled) != it.disabled or bool(r["disabled"]) != it.disabled:
                return "disabled flag of an item is %r, expected %r" % (o.disabled, it.disabled)
        if not membership or c.stale:
            return None
        for o, it, r in zip(L, c.items, recs):
            if it.key[0] != "m":
                if getattr(o, "member_of", None) is not None or r.get("member_of") is not None:
                    return "a group claims to be member of a group"
                for a in o.members:
                    if a.member_of is not o:
                        return "a listed member names another group"
                continue
            gs = [(g, q) for g, gi, q in zip(L, c.items, recs) if gi.key[0] == "g" and it.key[1] in gi.key[1]]
            if len(gs) > 1:
                return "measurement %d belongs to two groups" % it.key[1]
            if not gs:
                if o.member_of is not None or r.get("member_of") is not None:
                    return "measurement %d names a group that does not list it" % it.key[1]
            else:
                g, q = gs[0]
                if o.member_of is not g:
                    return "measurement %d does not name the group of its collection that lists it" % it.key[1]
                if r.get("member_of") != q["uid"]:
                    return "record of measurement %d names another uid than its group's" % it.key[1]
                if not any(a is o for a in g.members):
                    return "a group lists an object that is not the collection's measurement"
        return None

    def values(self, c):
        for o, it in zip(c.real, c.items):
            if it.key[0] != "g":
                continue
            m = model.pooled([self.pts[i] for i in it.key[1]], it.key[2])
            r = o.to_mapping()
            d = model.record_diff(r, m)
            if d:
                return "group of %d members: %s" % (len(it.key[1]), d)
            if o.n != m["n"]:
                return "group of %d points reports n=%r" % (m["n"], o.n)
            if r.get("center") is None or not N.allclose(o.mean, m["center"], rtol=1e-9, atol=1e-6):
                return "group's mean location is wrong"
            self.stats["probe:groups compared with the pooled fit"] += 1
        return None

    def result(self, sim):
        il = sim.interleaving() if sim else "-"
        return dict(violation=self.violation, stats=self.stats, log=dig(sim.digest() if sim else None, self.log),
                    key=dig(self.plan["data"], self.plan["base"], self.plan["steps"], il),
                    nontrivial=self.stats.get("probe:grouping calls", 0) > 0)
