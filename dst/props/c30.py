from ..web import WebProp


class C30(WebProp):
    id = "C30"
    rule = ("1-3 stereonets on one simulated page (some with labels, linked views, listeners that fail or draw, pointer handlers of the host page); 4-12 "
            "seeded pointer events (press, move, release, lost releases, scrolling), rotations, centerings, drawings and removals; after every event the "
            "reported rotation, every drawn path, every label, every listener call and every handler call of the host is compared with a model of one "
            "pointer; distinct = different (events, nets, listeners); non-trivial = at least one comparison")
    per_chunk = 50
    chunks_quick = 56


PROP = C30()
