from ..web import WebProp


class C33(WebProp):
    id = "C33"
    bundle = "notebook"
    package = "notebook-ui attitude"
    rule = ("the notebook's side panel over 2-7 records, some grouped, some groups with members not delivered; 3-12 seeded events: clicks (also several "
            "before the next render), hovering in list and plot, leaving, group, zoom and shape switches, clearing, copying, drags, re-renders and data "
            "delivered again; after every event list, marks, plot, description and clipboard are compared with a model; distinct = different (records, "
            "events); non-trivial = at least one comparison")
    per_chunk = 50
    chunks_quick = 48
    more_stubs = ["React and ReactDOM: small reconciler with hooks and batched or immediate updates (web/react.js)",
                  "Blueprint widgets, clipboard, tabs: stand-ins (web/stubs.js, web/world.js)"]


PROP = C33()
