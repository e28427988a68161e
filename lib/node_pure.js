// Purity monitor for the TypeScript implementation: node node_pure.js JSDIR CASES.jsonl SEED
"use strict";
const fs = require("fs"), path = require("path");
const [, , dir, casesFile, seed] = process.argv;
process.argv = [process.argv[0], process.argv[1], dir, "/dev/null"];
const D = require(path.join(__dirname, "node_driver.js"));
const cases = fs.readFileSync(casesFile, "utf8").split("\n").filter(Boolean).map(x => JSON.parse(x));
const faults = [], seen = { calls: 0, repeats: 0, spoiled: 0 };
let st = (parseInt(seed) * 2654435761 + 12345) >>> 0;
function rnd(n) { st = (Math.imul(st, 1664525) + 1013904223) >>> 0; return Math.floor(st / 4294967296 * n); }
function spoil(x) { if (Array.isArray(x) ) { x.forEach(spoil); x.push("spoiled"); x.reverse(); seen.spoiled++; } }
function tables() {
  return [["rafsi"], ["settings"], ["VALID"], ["MZ_VALID"], ["INITIAL"], ["BANNED_TRIPLES"], ["HYPHENS"]].map(t => {
    try { return JSON.stringify(D.run(["T", ...t])); } catch (e) { return String(e); } });
}
function call(c) {
  seen.calls++;
  let raw, r;
  try {
    if (c[0] === "ZL") {
      const a = c.slice(2), keep = JSON.stringify(a), o = D.S(c[1]), ko = JSON.stringify(o);
      try { raw = D.G.getLujvoWithAnalytics(a, o); r = JSON.parse(JSON.stringify(["ok", ...raw])); }
      finally {
        if (JSON.stringify(a) !== keep) faults.push(`the array ${keep} was changed to ${JSON.stringify(a)}`);
        if (JSON.stringify(o) !== ko) faults.push(`the settings ${ko} were changed to ${JSON.stringify(o)}`);
      }
    } else { raw = D.run(c); r = JSON.parse(JSON.stringify(raw)); }
    raw.forEach(x => { if (Array.isArray(x)) spoil(x); });
  } catch (e) { r = ["err", (e && e.name) || "?", String((e && e.message) || e)]; }
  return r;
}
const before = tables().join("\n");
const results = cases.map(() => null);
const order = cases.flatMap((_, i) => [i, i]);
for (let i = order.length - 1; i > 0; i--) { const j = rnd(i + 1); [order[i], order[j]] = [order[j], order[i]]; }
for (const i of order) {
  const r = call(cases[i]);
  if (results[i] === null) results[i] = r;
  else { seen.repeats++; if (JSON.stringify(results[i]) !== JSON.stringify(r) && faults.length < 50)
    faults.push(`case ${JSON.stringify(cases[i])}: ${JSON.stringify(results[i])}, at another time ${JSON.stringify(r)}`); }
}
if (tables().join("\n") !== before) faults.push("the tables of the library have changed");
const s = JSON.stringify({ results, faults, seen }) + "\n";
let o = 0; const b = Buffer.from(s); while (o < b.length) { try { o += fs.writeSync(1, b, o); } catch (e) { if (e.code !== "EAGAIN") throw e; } }
