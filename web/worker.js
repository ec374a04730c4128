"use strict";
/* node worker.js BUNDLES.json : answers one JSON request per line: gen, run, shrink */
const fs = require("fs"), readline = require("readline");
const { rng, hash, Violation } = require("./lib");
const bundles = JSON.parse(fs.readFileSync(process.argv[2], "utf8"));
const props = {};
for (const m of ["./history", "./rotation", "./components", "./sheet", "./notebook"]) try { Object.assign(props, require(m)); } catch (e) { if (e.code !== "MODULE_NOT_FOUND" || !String(e.message).includes(m)) throw e; }
let seeded = rng(0);
Math.random = () => seeded.f();
Date.now = () => 1600000000000;
function handle(q) {
  const P = props[q.prop], b = { name: P.bundle, text: bundles[P.bundle] };
  seeded = rng("page");
  if (q.cmd === "gen") return { plan: P.gen(rng(q.seed), q.depth || 1) };
  if (q.cmd === "shrink") return { plans: [...P.shrink(q.plan)].slice(0, 400) };
  if (q.cmd === "run") {
    let out;
    try { out = P.run(q.plan, b); }
    catch (e) {
      if (!(e instanceof Violation)) {
        const missing = /MISSING-PACKAGE/.test(String(e && e.message));
        const own = !missing && new RegExp("at .*\\(?" + P.bundle + ":\\d+").test(String(e && e.stack));
        if (!own) return { error: String((e && e.stack) || e) };
        return { violation: { cls: "exception", msg: String(e && e.message) }, stats: {}, key: "-", log: "-" };
      }
      return { violation: { cls: e.cls, msg: e.message.slice(0, 700) }, stats: {}, key: "-", log: hash(e.message) };
    }
    return { violation: null, stats: out.stats, key: hash(out.key), log: hash(JSON.stringify(out.log)) };
  }
  return { error: "request" };
}
readline.createInterface({ input: process.stdin, crlfDelay: Infinity }).on("line", (l) => {
  let a;
  try { a = handle(JSON.parse(l)); } catch (e) { a = { error: String((e && e.stack) || e) }; }
  process.stdout.write(JSON.stringify(a) + "\n");
});
