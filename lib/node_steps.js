// Work monitor for the TypeScript implementation: node node_steps.js JSDIR CASES.jsonl
// Sums the execution counts of all functions and blocks (V8's precise coverage) and CPU time of every call.
"use strict";
const fs = require("fs"), path = require("path"), inspector = require("inspector");
const [, , dir, casesFile] = process.argv;
const session = new inspector.Session();
session.connect();
let last = null;
const ask = (m, p) => { session.post(m, p, (e, r) => { if (e) throw new Error(JSON.stringify(e)); last = r; }); return last; };
ask("Profiler.enable");
ask("Profiler.startPreciseCoverage", { callCount: true, detailed: true });
process.argv = [process.argv[0], process.argv[1], dir, "/dev/null"];
const D = require(path.join(__dirname, "node_driver.js"));
const OWN = new Set(["data.js", "exceptions.js", "tarmi.js", "tools.js", "jvozba.js", "katna.js"]);
function taken() {
  let n = 0;
  for (const s of ask("Profiler.takePreciseCoverage").result)
    if (OWN.has(s.url)) for (const f of s.functions) for (const r of f.ranges) n += r.count;
  return n;
}
taken();
for (const line of fs.readFileSync(casesFile, "utf8").split("\n").filter(Boolean)) {
  const c = JSON.parse(line), t = process.cpuUsage();
  let r;
  try { r = D.run(c)[0]; } catch (e) { r = (e && e.name) || String(typeof e); }
  const u = process.cpuUsage(t);
  fs.writeSync(1, JSON.stringify([r, taken(), (u.user + u.system) / 1e6]) + "\n");
}
