import numpy as N
from .. import canon, ops, subjects
from ..base import HistoryProp, pick_event


def oracle(spec):
    """Independent values of the deferred quantities."""
    a = subjects.make_data(spec["data"])
    c = a - a.mean(axis=0)
    if spec["kind"] == "saved":
        w = N.array(spec.get("weights") or [1, 1, 1], dtype=float)
        u, s, v = N.linalg.svd(c / w, full_matrices=False)
        return {"U": c @ v.T / (s * w)}
    X = N.column_stack([c[:, :2], N.ones(len(c))])
    b, *_ = N.linalg.lstsq(X, c[:, 2], rcond=None)
    q, r = N.linalg.qr(X)
    ri = N.linalg.solve(r, N.eye(3))
    e = c[:, 2] - X @ b
    return {"regr.coefficients": b, "regr.predictions": [X[:, 0], X[:, 1], X @ b], "regr.residuals": e,
            "regr.covariance_matrix": (e @ e) * (ri @ ri.T)}


def close(got, want):
    if isinstance(want, list):
        return len(got) == len(want) and all(close(g, w) for g, w in zip(got, want))
    got = N.asarray(got, dtype=float)
    if got.shape != want.shape:
        return False
    s = max(1e-3, float(N.abs(want).max()))
    return bool(N.allclose(got, want, rtol=1e-4, atol=1e-5 * s))


class C06(HistoryProp):
    id = "C06"
    kinds = ["saved", "regr", "regr", "linear"]
    npool = 5
    audit_n = 20
    rule = ("planes whose deferred quantities have never been asked; 1-3 threads ask them in seeded orders with preemptions, aborts at "
            "seeded bytecodes and failing kernels, then everything is asked again; each answer compared with the isolation reference and "
            "with an independent least-squares / singular value solution; distinct = different (subject, order, switches, faults); "
            "non-trivial = a first use was preempted, aborted or preceded by another quantity")

    def swarm(self, rng, plan):
        if rng.random() < .3:
            return None
        return {"U", "U.copy", "regr.coefficients", "regr.predictions", "regr.residuals", "regr.covariance_matrix", "regr.standard_errors",
                "regr.all", "regr.copy", "linear.errors", "linear.strike_dip", "linear.error_ellipse", "to_mapping", "pickle"}

    def nops(self, rng):
        return rng.choice([1, 2, 3, 4])

    def gen(self, rng, env):
        self.threads = rng.choice([(1, 1), (2, 2), (2, 3)])
        self._mode = rng.choice(["none", "abort", "kernel", "abort"])
        return super().gen(rng, env)

    def gen_schedule(self, rng, plan, env):
        super().gen_schedule(rng, plan, env)
        if self._mode == "none":
            return
        out, extra = [], len(plan["ops"])
        victims = rng.sample(plan["ops"], min(len(plan["ops"]), rng.choice([1, 2])))
        for o in list(plan["ops"]):
            out.append(o)
            if o in victims:
                ref = env.refs.get(self.key(plan, o))
                if self._mode == "kernel" and ref["k"]:
                    plan["kfault"].append([o["t"], o["id"], rng.randint(1, ref["k"]), rng.choice(["LinAlgError", "MemoryError"])])
                elif ref["ev"] > 0:
                    plan["fault"].append([o["t"], o["id"], pick_event(rng, ref, True), rng.choice(["KeyboardInterrupt", "MemoryError"])])
                if rng.random() < .7:
                    out.append(dict(o, id=extra))
                    extra += 1
        plan["ops"] = out

    def before(self, st):
        st.x["orc"] = {}

    def after_op(self, st, o, out, raw):
        if out is None or out[0] != "ok":
            return
        spec = st.plan["subjects"][o["s"]]
        if spec["kind"] not in ("saved", "regr"):
            return
        if o["s"] not in st.x["orc"]:
            st.x["orc"][o["s"]] = oracle(spec)
        want = st.x["orc"][o["s"]].get(o["op"])
        if want is not None:
            st.stats["comparisons"] += 1
            if o["op"] == "U" and N.shape(raw) == want.shape:      # the direction of an axis is a convention
                want = want * N.sign((N.asarray(raw) * want).sum(axis=0))
            if not close(raw, want):
                st.fail("oracle", "%s of a %s plane is not the value of the independent solution" % (o["op"], spec["kind"]))

    def after_audit(self, st, o, out, raw):
        self.after_op(st, o, out, raw)

    def nontrivial(self, st, sim):
        return len(st.log) > 1


PROP = C06()
