from ..web import WebProp


class C31(WebProp):
    id = "C31"
    bundle = "components"
    package = "attitude notebook-ui plots"
    rule = ("1-2 React plots (stereonet, switched stereonet, clipped and rectangular stereonets) on one simulated page; 2-8 seeded events: new props (data, "
            "hovered records, planes/poles, centre, callbacks), re-renders, switches, hovers, drags, remounts, one by one or batched, with failing "
            "callbacks; after every event each plot is compared with a fresh mount of the present props on a page of its own, with the records it should "
            "show, and with its projection; distinct = different (kinds, events, changed props); non-trivial = at least one comparison")
    per_chunk = 25
    chunks_quick = 48
    more_stubs = ["React and ReactDOM: small reconciler with hooks and batched or immediate updates (web/react.js)", "Blueprint widgets, kld-intersections: stand-ins (web/stubs.js)"]


PROP = C31()
