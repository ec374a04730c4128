from ..base import HistoryProp


class C01(HistoryProp):
    id = "C01"
    rule = ("random history of 6-24 catalogue operations (queries, exports, plots, copy-mode groupings, failing calls) over 1-3 planes "
            "in one process, every answer and a closing audit compared with the same call on a never-used identical plane in its own "
            "process; distinct = different (subjects, operation sequence)")


PROP = C01()
