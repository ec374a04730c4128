from ..notebook import NotebookProp


class C10(NotebookProp):
    id = "C10"
    level = "fault_enumeration"
    p_init = .75
    check_page = False
    rule = ("1-3 kernels in a row, each with 1-3 threads making 1-4 initialisations (and a few plots) under open errors, read errors at a "
            "seeded byte, short reads, failed, slow or falsely failed deliveries, preemptions and aborts at seeded bytecodes; distinct = "
            "different (operations, faults, switch points); non-trivial = at least one call was made")

    def judge(self, S, stats, fail, o, rec, exc, inj, done_before):
        if o["k"] == "plot":
            if exc is not None and not inj:
                fail("plot", "an interactive plot raised %s" % type(exc).__name__)
            return
        stats["probe:initialisations"] += 1
        if exc is None:
            if not S["delivered"]:
                fail("undelivered", "initialisation returned normally before the library was delivered in this kernel")
            if done_before:
                stats["probe:calls after a completed initialisation"] += 1
                if rec["n"]:
                    fail("again", "a call that began after a completed initialisation delivered again")
        else:
            if not inj:
                fail("raised", "initialisation raised %s without any fault" % type(exc).__name__)
            else:
                stats["probe:initialisations that reported a failure"] += 1
                if done_before and rec["n"]:
                    fail("again", "a call that began after a completed initialisation delivered again")


PROP = C10()
