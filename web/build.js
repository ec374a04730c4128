"use strict";
/* Bundle the front end's real sources from /repo (esbuild, in memory); every third-party package stays a require() that the world answers. */
const path = require("path"), fs = require("fs");
const esbuild = require("/opt/veriftools/node/node_modules/esbuild");
const REPO = process.env.DST_REPO || "/repo";
const PK = path.join(REPO, "frontend/packages");
const ENTRY = {
  core: 'export * from "@attitude/core"; export * as selection from "@attitude/core/src/selection"; export * as utils from "@attitude/core/src/util"',
  components: 'export * as stereonet from "@attitude/notebook-ui/src/components/stereonet"; export * as plots from "@attitude/plots"',
  webapp: 'export * as app from "@attitude/webapp/src/app"; export * as sheet from "@attitude/webapp/src/sheet"',
  notebook: 'export * from "@attitude/notebook-ui/src"',
};
const DIRS = { core: "attitude", "notebook-ui": "notebook-ui", plots: "plots", webapp: "webapp" };
function firstFile(base) {
  for (const c of [base, base + ".ts", base + ".tsx", base + ".js", base + "/index.ts", base + "/index.tsx", base + "/index.js"])
    if (fs.existsSync(c) && fs.statSync(c).isFile()) return c;
  return null;
}
const plugin = {
  name: "world",
  setup(b) {
    b.onResolve({ filter: /\.(styl|css|svg|png)$/ }, (a) => ({ path: a.path, namespace: "empty" }));
    b.onLoad({ filter: /.*/, namespace: "empty" }, () => ({ contents: "module.exports = {}", loader: "js" }));
    b.onResolve({ filter: /^@attitude\// }, (a) => {
      const m = /^@attitude\/([^/]+)(?:\/(.*))?$/.exec(a.path);
      const dir = path.join(PK, DIRS[m[1]] || m[1]);
      const f = firstFile(path.join(dir, m[2] || "src/index"));
      if (f == null) return { errors: [{ text: "no file for " + a.path }] };
      return { path: f };
    });
    b.onResolve({ filter: /^[^./]/ }, (a) => (a.kind === "entry-point" ? null : { path: a.path, external: true }));
  },
};
function build(name) {
  return esbuild.build({
    stdin: { contents: ENTRY[name], resolveDir: PK, sourcefile: name + ".entry.ts", loader: "ts" },
    bundle: true, write: false, format: "cjs", platform: "browser", target: "es2022", logLevel: "silent", sourcemap: false, plugins: [plugin],
  }).then((r) => r.outputFiles[0].text);
}
module.exports = { build, REPO };
if (require.main === module) build(process.argv[2]).then((t) => fs.writeFileSync(process.argv[3], JSON.stringify({ [process.argv[2]]: t })), (e) => { console.error(String((e && e.message) || e)); process.exit(1); });
