from ..grouping import GroupProp


class C08(GroupProp):
    id = "C08"
    level = "fault_enumeration"
    rule = ("grouping histories in which calls are refused, their fit fails (numeric kernel fault at the k-th kernel call) or they are "
            "interrupted at a seeded bytecode, also with other threads inside the call; identity-level snapshot of every live collection "
            "before and after each copying call, membership consistency after each failed in-place call; distinct = different (data, "
            "steps, fault points); non-trivial = at least one grouping call")
    audit_model = False
    audit_values = False
    faults = ("abort", "abort", "kernel", "kernel", None)
    p_bad = .3
    inplace = .35


PROP = C08()
