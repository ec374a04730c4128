from ..web import WebProp


class C28(WebProp):
    id = "C28"
    rule = ("1-4 records, 1-3 shared option objects, 1-3 stereonets and 1-2 error-hyperbola drawers on one simulated page; 3-9 seeded calls (planes, "
            "poles, curves, conversions, hyperbolas, labels, rotations), some with failing callbacks, failing DOM insertions or callbacks that draw "
            "elsewhere; after every call each record, option object, array and earlier result is compared with its text from before; distinct = "
            "different (calls, nets, faults); non-trivial = at least one comparison")
    chunks_quick = 80


PROP = C28()
