import numpy as N
from .. import canon, ops
from ..base import HistoryProp


def scribble(v):
    """Overwrite a result in place, as a caller who owns it may."""
    n = 0
    if isinstance(v, N.ndarray):
        if v.flags.writeable and v.dtype.kind in "fi" and v.size:
            v[...] = 7.25 if v.dtype.kind == "f" else 7
            n += 1
    elif isinstance(v, dict):
        for x in v.values():
            n += scribble(x)
        v.clear()
        n += 1
    elif isinstance(v, list):
        for x in v:
            n += scribble(x)
        v[:] = ["scribbled"]
        n += 1
    elif isinstance(v, tuple):
        for x in v:
            n += scribble(x)
    return n


class C05(HistoryProp):
    id = "C05"
    threads = (1, 2)
    npool = 5
    kinds = ["pca", "pca", "weighted", "saved", "group", "recon", "linear"]
    rule = ("histories in which half of the results computed for the caller are overwritten in place as soon as they arrive and the "
            "others are kept; later answers are compared with the isolation reference and kept results with their value on arrival; "
            "distinct = different (subjects, operations, overwrites, switches); non-trivial = a result was overwritten or kept")

    def nops(self, rng):
        return rng.randint(4, 16)

    def gen_op(self, rng, plan, names, t, i):
        d = super().gen_op(rng, plan, names, t, i)
        d["w"] = rng.random() < .5
        return d

    def swarm(self, rng, plan):
        if rng.random() < .5:
            return None
        names = sorted({o.name for sp in plan["subjects"] for o in ops.candidates(sp["kind"]) if o.scrib})
        return set(rng.sample(names, min(len(names), rng.randint(2, 8))))

    def before(self, st):
        st.x["kept"] = []

    def after_op(self, st, o, out, raw):
        if raw is None or not ops.OPS[o["op"]].scrib:
            return
        if o.get("w"):
            if scribble(raw):
                st.stats["probe:results overwritten"] += 1
        else:
            st.x["kept"].append((o, raw, out[1]))
            st.stats["probe:results kept"] += 1
        for o2, r2, snap in st.x["kept"]:
            d = canon.diff(canon.canon(r2), snap)
            if d:
                st.fail("kept", "the result of an earlier %s changed after %s: %s" % (o2["op"], o["op"], d))

    def at_end(self, st):
        for o2, r2, snap in st.x["kept"]:
            d = canon.diff(canon.canon(r2), snap)
            if d:
                st.fail("kept", "the result of an earlier %s changed: %s" % (o2["op"], d))

    def nontrivial(self, st, sim):
        return any(k.startswith("probe:results") for k in st.stats)


PROP = C05()
