"""Writes /verif/seeded/<id>/ from the specifications below (edits of single source texts, and a demonstration)."""
import difflib, json, os, shutil, subprocess, sys, tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HEAD = r'''
import sys, os, threading, warnings
sys.dont_write_bytecode = True
warnings.simplefilter("ignore")
os.environ["MPLBACKEND"] = "Agg"
sys.path.insert(0, os.getcwd())
import numpy as N
import attitude
from attitude import Orientation, ReconstructedPlane, create_groups
PKG = os.path.dirname(attitude.__file__) + os.sep

def plane(seed=1, n=20, strike=30., dip=40., off=(100., 50., 10.), noise=.5):
    rs = N.random.RandomState(seed)
    s, d = N.radians(strike), N.radians(dip)
    sv = N.array([N.sin(s), N.cos(s), 0]); dd = N.array([N.cos(s)*N.cos(d), -N.sin(s)*N.cos(d), -N.sin(d)])
    nm = N.cross(sv, dd)
    a = rs.randn(n, 3)*[30, 10, noise]
    return a[:, :1]*sv + a[:, 1:2]*dd + a[:, 2:]*nm + N.array(off)

def at_line(k, action, fn):
    """Run fn(); at the k-th source line executed by the package (in this thread) perform action. -> (lines, result, exception)"""
    c = [0]
    def tr(frame, event, arg):
        if not frame.f_code.co_filename.startswith(PKG):
            return None
        if event in ("line", "return"):
            c[0] += 1
            if c[0] == k:
                sys.settrace(None)
                try:
                    action()
                finally:
                    if sys.exc_info()[0] is None:
                        sys.settrace(tr)
        return tr
    res = exc = None
    sys.settrace(tr)
    try:
        res = fn()
    except BaseException as e:
        exc = e
    finally:
        sys.settrace(None)
    return c[0], res, exc

def interrupt():
    raise KeyboardInterrupt("demo")

def in_thread(fn):
    def go():
        t = threading.Thread(target=fn); t.start(); t.join()
    return go

def close(a, b):
    return N.allclose(N.array(a, dtype=float), N.array(b, dtype=float), rtol=1e-7, atol=1e-9)

def bad(msg):
    print("BROKEN:", msg); sys.exit(1)
'''
BUGS = []


def bug(id, prop, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo))


JSHEAD = r'''
const P = process.env.PAGE, { World, Store } = require(P + "/world"), { build } = require(P + "/build");
const show = (x) => JSON.stringify(x);
function bad(m) { console.log("BROKEN: " + m); process.exit(1); }
const same = (a, b, m) => { if (show(a) !== show(b)) bad(m + ": " + show(a) + " instead of " + show(b)); };
const texts = {};
async function page(name, o) { texts[name] = texts[name] || (await build(name)); const w = new World(o || {}); w.M = w.load({ name, text: texts[name] }); return w; }
const rec = (i, o) => ({ uid: "p" + i, color: ["#aa3300", "teal", "dodgerblue"][i % 3], strike: 20 + 50 * i, dip: 30, rake: 40, maxError: 12, minError: 4,
  max_angular_error: 12, min_angular_error: 4, hyperbolic_axes: [40, 20, 0.5], axes: [[0.8, 0.6, 0], [-0.48, 0.64, 0.6], [0.36, -0.48, 0.8]], ...o });
function net(w, s) { const svg = w.el("svg", "svg"); w.d3.select(svg).call(s); return svg; }
function paths(el) { return el.querySelectorAll("path").map((p) => p.getAttribute("d")); }
function mount(w, type, props, host) { host = host || w.el("div"); w.R.ReactDOM.render(w.R.React.createElement(type, props), host); w.flush(); return host; }
const ev = (w, t, type, x, y, o) => w.fire(t, type, { pageX: x, pageY: y, clientX: x, clientY: y, ...o });
const drag = (w, svg, from, ...to) => { ev(w, svg, "mousedown", ...from); for (const p of to) ev(w, w.document.body, "mousemove", ...p); ev(w, w.document.body, "mouseup", ...to[to.length - 1]); };
'''


def jsbug(id, prop, edits, needs, breaks, demo):
    bug(id, prop, edits, needs, breaks, demo)
    BUGS[-1]["js"] = True


def page_tgz(_c={}):
    """The page the demonstrations run in: a copy of the simulated DOM and React, with the third-party libraries minified."""
    if "b" not in _c:
        import io, tarfile, gzip
        d, raw = tempfile.mkdtemp(), io.BytesIO()
        with tarfile.open(fileobj=raw, mode="w") as t:
            for f in ["world.js", "dom.js", "react.js", "hyper.js", "stubs.js", "build.js"] + ["vendor/%s.js" % n for n in ("d3", "d3-selection-multi", "chroma", "math", "quaternion", "underscore")]:
                src = os.path.join(VERIF, "web", f)
                data = open(src, "rb").read()
                if f.startswith("vendor/"):
                    data = subprocess.run(["/opt/veriftools/node/node_modules/.bin/esbuild", src, "--minify-whitespace", "--minify-syntax"], capture_output=True, check=True).stdout
                i = tarfile.TarInfo(f)
                i.size = len(data)
                t.addfile(i, io.BytesIO(data))
        _c["b"] = gzip.compress(raw.getvalue(), 9, mtime=0)
        shutil.rmtree(d)
    return _c["b"]


for f in ("bugs.py", "bugs2.py", "bugs3.py", "bugs4.py", "bugs5.py", "bugs6.py", "bugs7.py", "bugs8.py"):
    exec(open(os.path.join(VERIF, "tools", f)).read())


def main(only):
    for b in BUGS:
        if only and b["id"] not in only:
            continue
        d = os.path.join(VERIF, "seeded", b["id"])
        os.makedirs(d, exist_ok=True)
        patch = ""
        files = {}
        for f, old, new in b["edits"]:
            src = files.setdefault(f, [open("/repo/" + f).read()] * 2)
            if src[1].count(old) != 1:
                print("EDIT DOES NOT MATCH", b["id"], f, src[1].count(old), repr(old[:60]))
                sys.exit(1)
            files[f] = [src[0], src[1].replace(old, new)]
        for f, (a, z) in files.items():
            patch += "".join(difflib.unified_diff(a.splitlines(True), z.splitlines(True), "a/" + f, "b/" + f))
        open(d + "/patch.diff", "w").write(patch)
        if b.get("js"):
            open(d + "/demo.js", "w").write(JSHEAD.lstrip() + "(async () => {\n" + b["demo"].strip() + '\nconsole.log("ok");\n})().catch((e) => bad(e && e.stack));\n')
            open(d + "/page.tgz", "wb").write(page_tgz())
            open(d + "/demo.sh", "w").write("#!/bin/sh\nd=$(mktemp -d) && trap 'rm -rf \"$d\"' EXIT && tar xzf \"$(dirname \"$0\")/page.tgz\" -C \"$d\" || exit 0\n"
                                            "PAGE=\"$d\" DST_REPO=\"$PWD\" node \"$(dirname \"$0\")/demo.js\"\n")
        else:
            open(d + "/demo.py", "w").write(HEAD.lstrip() + b["demo"].rstrip() + "\nprint('ok')\n")
            open(d + "/demo.sh", "w").write("#!/bin/sh\nexec /opt/venv/bin/python \"$(dirname \"$0\")/demo.py\"\n")
        os.chmod(d + "/demo.sh", 0o755)
        json.dump(dict(property=b["prop"], needs=b["needs"], what_it_breaks=b["breaks"]), open(d + "/meta.json", "w"), indent=1)
        open(d + "/meta.json", "a").write("\n")
        print("wrote", b["id"])


if __name__ == "__main__":
    main(sys.argv[1:])
