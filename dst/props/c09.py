from ..grouping import GroupProp


class C09(GroupProp):
    id = "C09"
    rule = ("grouping histories (copying, in-place, edited lists, queries and plots of members and groups in between, failed and aborted "
            "calls, concurrent callers); after every call each group's orientation, errors, point count and mean location are compared "
            "with an independent eigen-analysis of the pooled points; distinct = different (data, steps, switch/fault points); "
            "non-trivial = at least one grouping call")
    audit_model = False
    audit_input = False
    p_bad = .1


PROP = C09()
