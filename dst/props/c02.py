from ..base import HistoryProp, parallel, sk


class C02(HistoryProp):
    id = "C02"
    threads = (2, 3)
    npool = 5
    rule = ("2-3 caller threads share 1-3 planes, 1-5 operations each, 1-6 preemptions at seeded bytecodes (half of them right after a "
            "heap write; a scouting pass finds the operations that write to attributes or globals or take locks, and half of the runs put one of them under preemption there); every answer and a closing audit compared with the call running alone on an unused plane; distinct = different "
            "(subjects, operations, actual switch sequence); non-trivial = at least one preemption happened")

    def nops(self, rng):
        return rng.choice([1, 2, 2, 3, 3, 5])

    def swarm(self, rng, plan):
        from .. import ops
        if rng.random() < .3:
            return None
        names = sorted({o.name for sp in plan["subjects"] for o in ops.candidates(sp["kind"])})
        return set(rng.sample(names, min(len(names), rng.randint(1, 4))))

    def scout(self, rng, env):
        """One call of every operation on planes of the chunk, alone: those that write to attributes or globals, or take locks."""
        from .. import ops
        found = []
        for _ in range(2):
            s, s2 = rng.choice(env.pool), rng.choice(env.pool)
            for o in ops.candidates(s["kind"]):
                if (o.fam == "draw" and rng.random() < .6) or (o.arity == 2 and (s2["kind"] not in o.kinds or s2 is s or parallel(s, s2))):
                    continue
                a = rng.randrange(len(o.args))
                key = (o.name, a, sk(s), sk(s2) if o.arity == 2 else None)
                if getattr(env.refs.get(key)["hot"], "shared", ()):
                    found.append((o, a, s, s2 if o.arity == 2 else None))
        return found

    def gen_op(self, rng, plan, names, t, i):
        d = super().gen_op(rng, plan, names, t, i)
        if t and rng.random() < .35:
            # the same operation as another caller's: other arguments, another plane, or the planes the other way round
            from .. import ops
            o = rng.choice([x for x in plan["ops"] if x["t"] < t])
            m = dict(o, id=i, t=t)
            k = rng.random()
            if "s2" in m and k < .6:
                m["s"], m["s2"] = m["s2"], m["s"]
                if plan["subjects"][m["s"]]["kind"] not in ops.OPS[m["op"]].kinds:
                    return d
            elif k < .6:
                m["a"] = rng.randrange(len(ops.OPS[m["op"]].args))
            elif "s2" not in m:
                m["s"] = rng.choice([j for j, q in enumerate(plan["subjects"]) if q["kind"] in ops.OPS[m["op"]].kinds])
            return m
        return d

    def gen(self, rng, env):
        if not hasattr(env, "writers"):
            env.writers = self.scout(rng, env)
        self.focus = None
        if env.writers and rng.random() < .5:
            name = rng.choice(sorted({w[0].name for w in env.writers}))
            self.focus = rng.choice([w for w in env.writers if w[0].name == name])
        return super().gen(rng, env)

    def pick_subjects(self, rng, env):
        if self.focus:
            o, a, s, s2 = self.focus
            return [s] + ([s2] if s2 else [rng.choice(env.pool)] if rng.random() < .3 else [])
        return super().pick_subjects(rng, env)

    def gen_schedule(self, rng, plan, env):
        if self.focus:
            o, a, s, s2 = self.focus
            f = rng.choice([x for x in plan["ops"] if x["t"] == 0])
            f.pop("s2", None)
            f.update(op=o.name, a=a, s=0, **(dict(s2=1) if s2 else {}))
            others = [x for x in plan["ops"] if x["t"] and x["op"] == o.name and s2]
            if s2 and not others:
                x = rng.choice([x for x in plan["ops"] if x["t"]])
                x.update(op=o.name, a=a, s=1, s2=0) if s["kind"] in o.kinds and s2["kind"] in o.kinds and rng.random() < .6 else None
            sh = env.refs.get(self.key(plan, f))["hot"].shared
            for _ in range(rng.choice([1, 1, 2])):
                if sh:
                    plan["preempt"].append([0, f["id"], rng.choice(sh), rng.randrange(1, plan["threads"])])
        super().gen_schedule(rng, plan, env)

    def nontrivial(self, st, sim):
        return sim is not None and sim.switches > 0


PROP = C02()
