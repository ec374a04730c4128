"""Seeded search: worker pool, isolation references, minimisation, replay files, evidence."""
import gc, json, os, pickle, random, select, signal, struct, subprocess, sys, time, traceback
from collections import Counter

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


CLEANUP = []


class HarnessError(Exception):
    pass


class Broken(Exception):
    """The code under test failed where the harness relies on it (raised out of a plain call, hung or killed the process)."""

    def __init__(self, cls, msg):
        super().__init__(msg)
        self.violation = dict(cls=cls, msg=msg)


def blame(e):
    """The innermost frame of the package in e's traceback, if the exception came out of the package."""
    from . import boot
    where, tb = None, e.__traceback__
    while tb is not None:
        f = tb.tb_frame.f_code
        if f.co_filename.startswith(boot.PKG):
            where = "%s.%s" % (os.path.basename(f.co_filename), f.co_name)
        tb = tb.tb_next
    return where


def settle(st, out, what):
    if st == "ok":
        return out
    if st == "error" and out[1]:
        raise Broken("exception", "%s: %s out of %s" % (what, out[2], out[1]))
    if st == "timeout":
        raise Broken("hang", "%s: no progress, ended after the time limit" % what)
    raise HarnessError("%s: %s %s" % (what, st, out[0] if st == "error" else out))


# ------------------------------------------------------------------ children
def in_child(fn, *args, timeout=90):
    """Run fn in a process forked from this (pristine) one and return its result."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            gc.disable()
            try:
                out = ("ok", fn(*args))
            except BaseException as e:
                out = ("error", (traceback.format_exc(), blame(e), type(e).__name__))
            data = pickle.dumps(out, protocol=4)
            with os.fdopen(w, "wb") as f:
                f.write(data)
        except BaseException:
            code = 3
        os._exit(code)
    os.close(w)
    buf = bytearray()
    deadline = time.monotonic() + timeout
    while True:
        left = deadline - time.monotonic()
        if left <= 0 or not select.select([r], [], [], left)[0]:
            os.kill(pid, signal.SIGKILL)
            os.waitpid(pid, 0)
            os.close(r)
            return ("timeout", None)
        d = os.read(r, 1 << 20)
        if not d:
            break
        buf += d
    os.close(r)
    _, st = os.waitpid(pid, 0)
    if not buf:
        return ("died", st)
    return pickle.loads(bytes(buf))


class Refs:
    """Isolation references: every (operation, argument, subject) run once, alone, on a never-used object."""

    def __init__(self, compute):
        self.compute, self.cache, self.count = compute, {}, 0

    def get(self, key):
        v = self.cache.get(key)
        if v is None:
            st, v = in_child(self.compute, key)
            try:
                v = settle(st, v, "reference %s" % (str(key)[:300],))
            except Broken as e:
                e.ref = list(key) if isinstance(key, tuple) else key
                raise
            self.count += 1
            self.cache[key] = v
        return v


class Env:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.refs = Refs(prop.reference)
        self.pool = None


def run_plan(prop, plan, env):
    try:
        if hasattr(prop, "execute"):
            return prop.execute(plan)
        if "_ref" in plan:
            k = plan["_ref"]
            env.refs.get(tuple(k) if isinstance(k, list) else k)
            return dict(violation=None, stats={}, key="-", log="-", nontrivial=False)
        for k in prop.refs(plan):
            env.refs.get(k)
        st, out = in_child(prop.run, plan, env.refs.cache)
        return settle(st, out, "run")
    except Broken as e:
        return dict(violation=e.violation, stats={}, key="-", log="-", nontrivial=False)


# ------------------------------------------------------------------ search
def chunk_runs(prop, seed, c, tier):
    from . import base
    env = Env(prop, tier)
    base.set_depth(tier, c)
    env.pool = prop.make_pool(random.Random("%d/%s/pool/%d" % (seed, prop.id, c)), tier)
    for i in range(prop.per_chunk):
        rng = random.Random("%d/%s/%d/%d" % (seed, prop.id, c, i))
        plan = prop.gen(rng, env)
        yield env, i, plan


def work(prop, seed, tier, chunks, wfd, deadline):
    def send(x):
        d = pickle.dumps(x, protocol=4)
        os.write(wfd, struct.pack("I", len(d)))
        mv = memoryview(d)
        while mv:
            n = os.write(wfd, mv)
            mv = mv[n:]
    for c in chunks:
        if time.monotonic() > deadline:
            break
        stats, keys, logs, viol, samples, err = Counter(), set(), [], [], [], None
        try:
            env = None
            for env, i, plan in chunk_runs(prop, seed, c, tier):
                out = run_plan(prop, plan, env)
                stats.update(out.get("stats", {}))
                stats["evaluations"] += 1
                if out.get("nontrivial", True):
                    keys.add(out["key"])
                logs.append((c, i, out["log"]))
                if len(samples) < 1:
                    samples.append(dict(chunk=c, run=i, plan=plan, key=out["key"]))
                if out.get("violation"):
                    viol.append((c, i, plan, out["violation"]))
                    if len(viol) >= 3 or out["violation"]["cls"] == "hang":
                        break
                if time.monotonic() > deadline:
                    break
            stats["references"] += env.refs.count if env else 0
        except Broken as e:      # while generating: a plain call of the package fails
            viol.append((c, -1, dict(_ref=getattr(e, "ref", None)), e.violation))
        except BaseException:
            err = traceback.format_exc()
        send(dict(chunk=c, stats=stats, keys=keys, logs=logs, viol=viol, samples=samples, err=err))
        if err:
            break
    os.close(wfd)


def search(prop, seed, tier, nchunks, workers, cap, stop_on_violation=True):
    deadline = time.monotonic() + cap
    fds, pids = {}, []
    for k in range(min(workers, nchunks)):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            for f in fds:
                os.close(f)
            try:
                work(prop, seed, tier, range(k, nchunks, workers), w, deadline)
            finally:
                os._exit(0)
        os.close(w)
        fds[r] = bytearray()
        pids.append(pid)
    tot = dict(stats=Counter(), keys=set(), logs=[], viol=[], samples=[], errs=[], chunks=0)
    stop = False
    while fds and not stop:
        rd, _, _ = select.select(list(fds), [], [], 5)
        for f in rd:
            d = os.read(f, 1 << 20)
            if not d:
                os.close(f)
                del fds[f]
                continue
            b = fds[f]
            b += d
            while len(b) >= 4:
                n = struct.unpack("I", bytes(b[:4]))[0]
                if len(b) < 4 + n:
                    break
                m = pickle.loads(bytes(b[4:4 + n]))
                del b[:4 + n]
                tot["stats"].update(m["stats"])
                tot["keys"] |= m["keys"]
                tot["logs"] += m["logs"]
                tot["viol"] += m["viol"]
                if len(tot["samples"]) < 3:
                    tot["samples"] += m["samples"]
                tot["chunks"] += 1
                if m["err"]:
                    tot["errs"].append(m["err"])
                if m["viol"] and stop_on_violation:
                    stop = True
    for p in pids:
        if stop:
            try:
                os.kill(p, signal.SIGKILL)
            except OSError:
                pass
        os.waitpid(p, 0)
    for f in fds:
        os.close(f)
    return tot


# ------------------------------------------------------------------ minimisation
def minimise(prop, plan, viol, env, budget):
    """Greedy shrink while the same class of violation persists."""
    end = time.monotonic() + budget
    best, bv, tried = plan, viol, 0
    progress = True
    while progress and time.monotonic() < end:
        progress = False
        for cand in prop.shrink(best) if "_ref" not in best else ():
            if time.monotonic() > end:
                break
            tried += 1
            try:
                out = run_plan(prop, cand, env)
            except HarnessError:
                continue
            v = out.get("violation")
            if v and v["cls"] == bv["cls"]:
                best, bv, progress = cand, v, True
                break
    return best, bv, tried


def write_replay(prop, plan, viol, seed, run):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, "%s-%d-%s.json" % (prop.id, seed, "-".join(str(x) for x in run)))
    with open(p, "w") as f:
        json.dump(dict(property=prop.id, seed=seed, run=list(run), violation=viol, plan=plan), f, indent=1, sort_keys=True)
        f.write("\n")
    return p


def confirm(path, tries=3):
    """Replay in fresh interpreters; -> number that reproduced."""
    ok = 0
    for _ in range(tries):
        try:
            p = subprocess.run([sys.executable, "-m", "dst.main", "replay", path], cwd=VERIF, capture_output=True, text=True,
                               timeout=200)
        except subprocess.TimeoutExpired:
            continue
        if p.returncode == 1 and "VIOLATION" in p.stdout:
            ok += 1
        elif ok == 0 and _ == 0:
            continue
    return ok


def load_findings():
    p = os.path.join(VERIF, "KNOWN_FINDINGS.json")
    try:
        with open(p) as f:
            return json.load(f)
    except FileNotFoundError:
        return []


def write_evidence(prop, tier, seed, tot, wall, workers, extra, nviol):
    s = tot["stats"]
    ev = int(s.get("evaluations", 0))
    cov = dict(
        evaluations=ev,
        distinct_nontrivial=len(tot["keys"]),
        rule=prop.rule,
        samples=tot["samples"][:2],
        runs_per_hour=round(ev / wall * 3600) if wall else 0,
        seeds_per_hour=round(ev / wall * 3600) if wall else 0,
        simulated_events=int(s.get("events", 0)),
        simulated_time=(prop.simulated_time(s) if hasattr(prop, "simulated_time") else
                        "discrete: one event per bytecode of the package; %d events" % int(s.get("events", 0))),
        operations=int(s.get("ops", 0)),
        comparisons=int(s.get("comparisons", 0)),
        isolation_references=int(s.get("references", 0)),
        faults_injected={k[6:]: int(v) for k, v in sorted(s.items()) if k.startswith("fault:")},
        probes={k[6:]: int(v) for k, v in sorted(s.items()) if k.startswith("probe:")},
        real_components=prop.real,
        stubbed_components=prop.stubs,
        workers=workers, chunks=tot["chunks"], **extra)
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, prop.id + ".json"), "w") as f:
        json.dump(dict(property=prop.id, tier=tier, seed=seed, level=prop.level, coverage=cov,
                       assumptions=prop.assumptions, wall_s=round(wall, 2), violations=nviol), f, indent=1)
        f.write("\n")


def check(prop, seed, tier):
    t0 = time.monotonic()
    q = tier == "quick"
    workers = max(2, min(8, os.cpu_count() or 2))
    nchunks = prop.chunks_quick if q else prop.chunks_thorough
    cap = 420 if q else float(os.environ.get("DST_THOROUGH_CAP", 3000))
    tot = search(prop, seed, tier, nchunks, workers, cap)
    extra, rc = {}, 0
    findings = {f["match"]: f for f in load_findings() if f.get("property") == prop.id and f.get("status") == "known"}
    known, new = [], []
    for v in sorted(tot["viol"], key=lambda v: v[:2]):
        (known if v[3].get("finding") in findings else new).append(v)
    env = Env(prop, tier)
    msgs = []
    if not new and hasattr(prop, "known_checks"):
        for m, ok in prop.known_checks():
            if m in findings:
                if ok:
                    msgs.append("KNOWN-FINDING: property=%s %s" % (prop.id, findings[m]["what"]))
    unconfirmed = []
    for c, i, plan, viol in new[:6]:
        hung = viol["cls"] == "hang"
        best, bv, tried = (plan, viol, 0) if hung else minimise(prop, plan, viol, env, 60 if q else 200)
        path = write_replay(prop, best, bv, seed, (c, i))
        n = confirm(path, 1 if hung else 3)
        if n == 0:
            path = write_replay(prop, plan, viol, seed, (c, i))
            n = confirm(path, 1 if hung else 3)
            best, bv = plan, viol
        if n == 0:
            unconfirmed.append((c, i, viol))
            continue
        msgs.append("violation %s: %s (run %d/%d, %d shrink attempts, reproduced by %d of %d fresh replays)" % (
            bv["cls"], bv["msg"], c, i, tried, n, 1 if hung else 3))
        msgs.append("VIOLATION property=%s replay=%s" % (prop.id, path))
        rc = 1
        break
    # replay determinism, measured on this run
    if rc == 0 and not tot["errs"] and tot["logs"]:
        tot["logs"].sort()
        same = n = 0
        want = {x[:2]: x[2] for x in tot["logs"]}
        cs = sorted({x[0] for x in tot["logs"]})
        for c in cs[:: max(1, len(cs) // 2)][:2]:
            for env2, i, plan in chunk_runs(prop, seed, c, tier):
                if i >= 3 or (c, i) not in want:
                    break
                n += 1
                same += run_plan(prop, plan, env2)["log"] == want[(c, i)]
        extra["replay_determinism"] = dict(rerun=n, identical_event_logs=same)
        if same != n:
            unconfirmed.append(("nondeterministic", n, same))
    wall = time.monotonic() - t0
    write_evidence(prop, tier, seed, tot, wall, workers, extra, rc)
    for m in msgs:
        print(m)
    if rc:
        return 1
    if tot["errs"]:
        print("HARNESS ERROR in %s:\n%s" % (prop.id, tot["errs"][0]))
        return 2
    if unconfirmed:
        print("HARNESS ERROR in %s: not reproducible: %r" % (prop.id, unconfirmed))
        return 3
    if tot["stats"].get("evaluations", 0) < 10:
        print("HARNESS ERROR in %s: too few runs" % prop.id)
        return 4
    print("OK property=%s runs=%d distinct=%d events=%d wall=%.1fs %s" % (
        prop.id, tot["stats"]["evaluations"], len(tot["keys"]), tot["stats"].get("events", 0), wall,
        json.dumps({k: v for k, v in sorted(tot["stats"].items()) if k.startswith("fault:")})))
    return 0
