"""Writes /verif/MANIFEST.json from the property modules present (run by hand)."""
import importlib, json, os, sys
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, V)
os.chdir(V)
PURE = ("pure function of its input: no scheduling, time, I/O, randomness, crash or multi-party behaviour for a simulated "
        "schedule or fault to act on, so a simulator adds nothing to plain input testing (the history, abort and concurrency "
        "sides of the same code are decided by %s)")
NA = {"C20": PURE % "C01-C04, C09 and C16", "C21": PURE % "C01-C03, C09 and C16", "C22": PURE % "C01-C03, C09 and C17",
      "C23": PURE % "C01-C05 and C13", "C24": PURE % "C01, C04 and C12", "C25": PURE % "C01-C03 and C17",
      "C26": "numerical agreement of two implementations: a pure function of its input on both sides, with no nondeterminism to "
             "simulate (delivery of the bundle and of the records is decided by C10 and C11, the history side of the front end by C28-C31)"}
T = "Seeded search over simulated runs, not proof: a clean batch says the explored schedules and faults hold. Third-party code (numpy, matplotlib, ...) between two package bytecodes is atomic. "
D = {
"C01": ("histories of queries, exports, plots and groupings against isolation references", "Every answer is compared with the same call run alone on a never-used identical plane in its own process."),
"C02": ("bytecode-level thread schedules against isolation references", "2-3 threads, 1-6 preemptions per run at seeded bytecodes; package locks are simulated."),
"C03": ("aborts at seeded bytecodes and failing kernels, then audits", "KeyboardInterrupt/MemoryError at sampled bytecodes of every operation, biased to points right after heap writes."),
"C04": ("caller buffers snapshotted and scribbled across histories and aborts", "Byte-exact snapshots of everything handed in; later answers compared with isolation references."),
"C05": ("results overwritten or held across histories and threads", "Overwrites results as they arrive and re-reads held ones; later answers compared with isolation references."),
"C06": ("seeded orders, schedules and aborts of first accesses", "Compared with isolation references and with an independent least-squares / SVD model."),
"C07": ("grouping histories against a model collection", "Structure, uids, cross-references, flags and refusals compared after every call with a list/set model."),
"C08": ("refused, failing and interrupted grouping calls, identity snapshots", "Failures injected at kernel calls and at sampled bytecodes; identity-level snapshots of all live collections."),
"C09": ("grouping histories against an independent pooled fit", "Orientation, errors, counts and centers compared with a numpy model after every call."),
"C10": ("file, delivery and interrupt faults, concurrent callers and kernel restarts around notebook initialisation", "The real init code over simulated files and a simulated front end."),
"C11": ("published documents executed in a JavaScript engine, across threads, restarts and failed deliveries", "The real plot code; node runs the published script in a fake page."),
"C12": ("interleaved and aborted drawing on several figures, whole-registry audits", "All other axes, figures and pyplot's registry compared before and after; own shapes compared with isolation references."),
"C13": ("interleaved, failing and aborted updates against a last-update model", "Shown vertices compared with regions computed in isolation."),
"C14": ("simulated random streams, misbehaving statistics, interleaved and aborted resamplings", "Every replicate inspected as the statistic sees it."),
"C15": ("simulated raster reads with faults, aborts and interleaved extractions against a geometric model", "Real rasterio/GDAL in memory behind a fault-injecting dataset; independent point-in-polygon and bilinear model."),
"C16": ("whole extract-fit-group-export pipelines with data loss, failed reads, reordered delivery and restarts", "Exported records compared with an independent numpy model of the points that survived."),
"C17": ("histories of planes coming and going, in threads, against isolation references", "Answers of every plane compared with a process in which only that plane ever existed."),
"C18": ("sequences of interpreter sessions with different settings, crashes and uses in between", "Four real interpreters differing in hash seed, optimisation, development mode, locale, time zone and working directory; uids, records and re-formed groups compared."),
"C19": ("save/load histories with short writes, I/O errors, full disks and crashes", "The real store code over file objects that fail as planned, above a scratch directory; /repo is never written."),
"C27": ("calls of every kind, failing, aborted and interleaved, under seeded host configurations", "Process-wide settings compared after every call, open files, threads and children at the end."),
"C28": ("front-end calls over shared records and options, with failing callbacks and page elements", "Text of everything handed in or returned compared after every call; real TypeScript on a simulated page."),
"C29": ("histories of browser drawings and failures against fresh drawers", "Document trees and curves compared with the same call on a new drawer of an empty page; real TypeScript on a simulated page."),
"C30": ("seeded pointer events, lost releases and failing listeners against a model of one pointer", "Rotation, paths, labels and listener calls compared after every event; real TypeScript on a simulated page."),
"C31": ("props, switches, hovers, drags and remounts, batched or not, against fresh mounts", "Real components over a stand-in reconciler; document trees compared after every event."),
"C32": ("edits, reloads, tabs and storage failures against a grid model", "Real web app over stand-in React, widgets and local storage."),
"C33": ("clicks, hovers, switches and deliveries against a model of the panel", "Real notebook panel over stand-in React and widgets."),
}
ids = [json.loads(l)["id"] for l in open("properties.jsonl")]
checks, na = [], []
for i in ids:
    if i in NA:
        na.append(dict(property=i, reason=NA[i]))
        continue
    if not os.path.exists("dst/props/%s.py" % i.lower()):
        na.append(dict(property=i, reason="check under construction"))
        continue
    p = importlib.import_module("dst.props." + i.lower()).PROP
    checks.append(dict(property=i, quick_cmd="./check %s quick" % i, thorough_cmd="./check %s thorough" % i,
        technique="deterministic simulation with fault injection: " + D[i][0], level=p.level, level_note=T + D[i][1]))
json.dump(dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na), open("MANIFEST.json", "w"), indent=1)
print(len(checks), len(na))
