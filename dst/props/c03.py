import random
from ..base import HistoryProp, pick_event


class C03(HistoryProp):
    id = "C03"
    level = "fault_enumeration"
    threads = (1, 1)
    npool = 5
    rule = ("histories of 2-8 operations in which 1-3 are aborted (KeyboardInterrupt or MemoryError raised at a seeded bytecode of the "
            "package, or a numeric kernel failing), each aborted call repeated, all planes audited afterwards; a few runs add a second "
            "caller thread; distinct = different (subjects, operations, abort points); non-trivial = an abort fired")

    def nops(self, rng):
        return rng.randint(2, 6)

    def gen_schedule(self, rng, plan, env):
        super().gen_schedule(rng, plan, env)
        out, extra = [], len(plan["ops"])
        victims = rng.sample(plan["ops"], min(len(plan["ops"]), rng.choice([1, 1, 2, 3])))
        for o in list(plan["ops"]):
            out.append(o)
            if o in victims:
                ref = env.refs.get(self.key(plan, o))
                if ref["k"] and rng.random() < .15:
                    plan["kfault"].append([o["t"], o["id"], rng.randint(1, ref["k"]), rng.choice(["LinAlgError", "MemoryError"])])
                elif ref["ev"] > 0:
                    plan["fault"].append([o["t"], o["id"], pick_event(rng, ref, True), rng.choice(["KeyboardInterrupt", "MemoryError"])])
                out.append(dict(o, id=extra))
                extra += 1
        plan["ops"] = out

    def gen(self, rng, env):
        self_threads = (2, 2) if rng.random() < .15 else (1, 1)
        self.threads = self_threads
        return super().gen(rng, env)

    def nontrivial(self, st, sim):
        return any(k.startswith("fault:K") or k.startswith("fault:M") or k.startswith("fault:kernel") for k in st.stats)


PROP = C03()
