import copy, json, pickle, random
from .. import canon, ops, subjects
from ..base import HistoryProp


class C17(HistoryProp):
    id = "C17"
    threads = (1, 2)
    rule = ("planes come and go during the history (created, copied, pickled, dropped; look-alikes sharing point count, uid, location or "
            "shape), are queried with many options, 1-2 caller threads; every answer compared with a process in which only that plane "
            "exists; distinct = different (subjects, operations, switches); non-trivial = at least two planes existed")

    def make_pool(self, rng, tier):
        out = []
        for big in (False, rng.random() < .3):
            d = subjects.gen_data(rng, n=rng.choice([520, 900]) if big else rng.choice([4, 8, 16, 32, None]), grid=rng.random() < .7)
            fam = [d, dict(d, shift=[64, -32, 16]), dict(d, mirror=[-1, 1, 1]), dict(d, seed=d["seed"] + 1), dict(d, mirror=[1, 1, -1]),
                   dict(d, noise=d["noise"] * 2 + .1), dict(d, n=d["n"] * 4 if big else d["n"] + 1)]
            if not big:
                fam.append(dict(d, twice=True))
            rng.shuffle(fam)
            for f in fam[:5]:
                k = rng.choice(["pca", "pca", "pca", "weighted", "saved", "linear", "regr"])
                s = dict(kind=k, data=f)
                if k == "weighted":
                    s["weights"] = [1, rng.choice([2, .5]), rng.choice([1, 3])]
                if k in ("pca", "weighted", "saved") and rng.random() < .2:
                    s["disabled"] = True
                if k in ("pca", "weighted", "saved") and rng.random() < .2:
                    s["method"] = "sampling"
                out.append(s)
            for e in rng.sample([q for q in out if q["kind"] in ("pca", "weighted", "saved")] or [out[-1]], 1):
                # a twin: same points, same uid, but hidden / shown or held in another kind of object
                if e["kind"] in ("pca", "weighted", "saved") and rng.random() < .6:
                    e = dict(e)
                    if not e.pop("disabled", False):
                        e["disabled"] = True
                    out.append(e)
                else:
                    out.append(dict(kind=rng.choice(["pca", "saved", "linear", "regr"]), data=e["data"]))
            out.append(dict(kind="group", data=fam[:2], same=rng.random() < .5))
            out.append(dict(kind="group", data=fam[1:3], same=rng.random() < .5))
        a = [rng.uniform(0, 360), rng.uniform(1, 89), rng.uniform(0, 180), rng.uniform(.2, 5), rng.uniform(5, 20)]
        out.append(dict(kind="recon", args=a))
        out.append(dict(kind="recon", args=[(a[0] + 180) % 360] + a[1:]))
        return out

    def pick_subjects(self, rng, env):
        k = rng.choice([2, 3, 4, 5])
        if rng.random() < .5:       # relatives: planes that share points
            a = rng.choice(env.pool)
            rel = [q for q in env.pool if kin(q) & kin(a)]
            rng.shuffle(rel)
            out = rel[:k]
            if len(out) > 1:
                return out
        return rng.sample(env.pool, k)

    def nops(self, rng):
        return rng.randint(4, 12)

    def swarm(self, rng, plan):
        if rng.random() < .3:
            return None
        names = sorted({o.name for sp in plan["subjects"] for o in ops.candidates(sp["kind"])})
        return set(rng.sample(names, min(len(names), rng.randint(1, 6))))

    def gen_op(self, rng, plan, names, t, i):
        if rng.random() < .3:
            return dict(id=i, t=t, op=rng.choice(["@make", "@make", "@drop", "@copy", "@deepcopy", "@pickle"]), a=0,
                        s=rng.randrange(len(plan["subjects"])))
        return super().gen_op(rng, plan, names, t, i)

    def refs(self, plan):
        return {self.key(plan, o): 0 for o in plan["ops"] + plan["audit"] if o["op"][0] != "@"}

    def gen_schedule(self, rng, plan, env):
        full = plan["ops"]
        plan["ops"] = [o for o in full if o["op"][0] != "@"] or full
        if plan["ops"][0]["op"][0] != "@":
            super().gen_schedule(rng, plan, env)
        plan["ops"] = full

    def build(self, plan):
        return Lazy(plan["subjects"])

    def call(self, st, o, ctx):
        s, objs = o["s"], st.objs
        k = o["op"]
        if k[0] != "@":
            return ops.execute(k, o["a"], objs[s], ctx)
        if k == "@drop":
            objs.d[s] = None
        elif k == "@make":
            objs.d[s] = subjects.build(objs.specs[s])
        elif k == "@copy":
            objs.d[s] = copy.copy(objs[s])
        elif k == "@deepcopy":
            objs.d[s] = copy.deepcopy(objs[s])
        else:
            objs.d[s] = pickle.loads(pickle.dumps(objs[s]))
        return None

    def run(self, plan, R):
        R = dict(R)
        return super().run(plan, R)

    def key(self, plan, o):
        if o["op"][0] == "@":
            return "@"
        return super().key(plan, o)

    def nontrivial(self, st, sim):
        return len(st.plan["subjects"]) > 1 and bool(st.log)


def kin(spec):
    d = spec.get("data", ())
    return {(x["seed"], x["n"] > 500) for x in ([d] if isinstance(d, dict) else d)}


class Lazy:
    def __init__(self, specs):
        self.specs, self.d = specs, [None] * len(specs)

    def __getitem__(self, i):
        if self.d[i] is None:
            self.d[i] = subjects.build(self.specs[i])
        return self.d[i]


PROP = C17()
