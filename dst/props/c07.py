from ..grouping import GroupProp


class C07(GroupProp):
    id = "C07"
    rule = ("histories of 1-8 grouping, regrouping, disabling, list-editing and querying steps (copying and in-place, valid and invalid "
            "requests, 1-3 threads, failing kernels, aborts of copying calls) over 3-7 measurements, checked after every call against a "
            "model collection; distinct = different (data, steps, switch/fault points); non-trivial = at least one grouping call")
    audit_input = False
    audit_values = False
    p_bad = .3


PROP = C07()
