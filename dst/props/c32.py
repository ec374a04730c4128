from ..web import WebProp


class C32(WebProp):
    id = "C32"
    bundle = "webapp"
    package = "webapp notebook-ui plots attitude"
    rule = ("1-2 browser tabs of the web app over one simulated local storage (starting empty, from saved sheets or from damaged text); 3-12 seeded events: "
            "cell edits, pastes, adding rows, resetting, switching plots, changing the clip angle, reloading, closing and reopening, full storage; after "
            "every event the sheet, its saved copy and the records plotted are compared with a grid model; distinct = different (events, tabs, starting "
            "storage); non-trivial = at least one comparison")
    per_chunk = 40
    chunks_quick = 48
    more_stubs = ["React and ReactDOM: small reconciler with hooks and batched or immediate updates (web/react.js)",
                  "Blueprint widgets, react-datasheet, immutability-helper, useStoredState, localStorage: stand-ins (web/stubs.js, web/world.js)"]


PROP = C32()
