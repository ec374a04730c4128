from ..web import WebProp


class C29(WebProp):
    id = "C29"
    rule = ("1-4 records, 1-3 shared option objects, 1-3 stereonets and 1-2 error-hyperbola drawers on one simulated page; 3-9 seeded calls (planes, "
            "poles, curves, conversions, hyperbolas, labels, rotations), some with failing callbacks, failing DOM insertions or callbacks that draw "
            "elsewhere; every result and every drawn layer, when made and at the end, is compared with the same call alone on a fresh page; distinct = "
            "different (calls, nets, faults); non-trivial = at least one comparison")


PROP = C29()
