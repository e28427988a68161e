// Batch driver for the TypeScript implementation.
// node node_driver.js JSDIR CASES.jsonl [each]
"use strict";
const fs = require("fs"), path = require("path"), vm = require("vm");
const [,, dir, casesFile, mode] = process.argv;
const ctx = vm.createContext({ console });
for (const n of ["data", "rafsi", "exceptions", "tarmi", "tools", "jvozba", "katna"])
  vm.runInContext(fs.readFileSync(path.join(dir, n + ".js"), "utf8"), ctx, { filename: n + ".js" });
const G = {};
for (const n of ["getLujvo", "getLujvoWithAnalytics", "analyseBrivla", "getVeljvo", "scoreLujvo", "isBrivla", "normalise",
  "getRafsiIndices", "searchSelrafsiFromRafsi", "RAFSI_LIST", "VALID", "MZ_VALID", "INITIAL", "ZIhEVLA_INITIAL",
  "BANNED_TRIPLES", "START_VOWEL_CLUSTERS", "FOLLOW_VOWEL_CLUSTERS", "HYPHENS", "SETTINGS",
  "YHyphenSetting", "ConsonantSetting", "BrivlaType", "makeSettingsIterator"])
  G[n] = vm.runInContext(`typeof ${n} === "undefined" ? undefined : ${n}`, ctx);
const TY = {};
for (const [n, v] of [["GISMU", "GISMU"], ["ZIhEVLA", "ZIhEVLA"], ["LUJVO", "LUJVO"], ["EXTENDED_LUJVO", "EXTENDED_LUJVO"], ["RAFSI", "RAFSI"], ["CMEVLA", "CMEVLA"]])
  TY[G.BrivlaType[v]] = n;
// "" omits every setting (the defaults apply); "." passes the defaults explicitly.
function S(s) {
  if (s === "") return undefined;
  if (s.includes("~")) {   // only what differs from the defaults, by the documented names
    const o = {};
    if (/[AF]/.test(s)) o.yHyphens = s.includes("A") ? "ALLOW_Y" : "FORCE_Y";
    if (/[12]/.test(s)) o.consonants = s.includes("2") ? "TWO_CONSONANTS" : "ONE_CONSONANT";
    for (const [k, n] of [["r", "expRafsiShapes"], ["g", "glides"], ["z", "allowMZ"], ["c", "generateCmevla"]])
      if (s.includes(k)) o[n] = true;
    return o;
  }
  return {
    generateCmevla: s.includes("c"),
    yHyphens: s.includes("A") ? G.YHyphenSetting.ALLOW_Y : s.includes("F") ? G.YHyphenSetting.FORCE_Y : G.YHyphenSetting.STANDARD,
    consonants: s.includes("2") ? G.ConsonantSetting.TWO_CONSONANTS : s.includes("1") ? G.ConsonantSetting.ONE_CONSONANT : G.ConsonantSetting.CLUSTER,
    expRafsiShapes: s.includes("r"), glides: s.includes("g"), allowMZ: s.includes("z")
  };
}
function SD(a) {
  return (a[0] === G.YHyphenSetting.ALLOW_Y ? "A" : a[0] === G.YHyphenSetting.FORCE_Y ? "F" : "") +
    (a[2] === G.ConsonantSetting.TWO_CONSONANTS ? "2" : a[2] === G.ConsonantSetting.ONE_CONSONANT ? "1" : "") +
    (a[1] ? "r" : "") + (a[3] ? "g" : "") + (a[4] ? "z" : "");
}
function NOC(s) { const o = S(s); if (o) delete o.generateCmevla; return o; }
// the predicates and shape functions: name -> [function, call]
const L = x => x ? x.split("|") : [], MZ = s => s.includes("z");
const SHAPES = ["CVCCV", "CVCC", "CCVCV", "CCVC", "CVC", "CVhV", "CCV", "CVV"];
function shape(t) {
  const T = vm.runInContext("Tarmi", ctx);
  return t === T.Hyphen ? "hyphen" : t === T.OtherRafsi ? "other" : SHAPES.find(n => T[n] === t) || String(t);
}
const HELP = {
  vowel: ["isVowel", (f, s, a) => f(a)], consonant: ["isConsonant", (f, s, a) => f(a)],
  glide: ["isGlide", (f, s, a) => f(a)], letters: ["isOnlyLojbanCharacters", (f, s, a) => f(a)],
  hascons: ["containsConsonant", (f, s, a) => f(a)], gismushape: ["isGismuShape", (f, s, a) => f(a)],
  gismu: ["isGismu", (f, s, a) => f(a, MZ(s))], validrafsi: ["isValidRafsi", (f, s, a) => f(a, MZ(s))],
  shape: ["rafsiTarmi", (f, s, a) => shape(f(a))], shapeh: ["tarmiIgnoringHyphen", (f, s, a) => shape(f(a))],
  strip: ["stripHyphens", (f, s, a) => f(a)], initial: ["isZihevlaInitialCluster", (f, s, a) => f(a)],
  middle: ["isZihevlaMiddleCluster", (f, s, a) => f(a)], split: ["splitVowelCluster", (f, s, a) => f(a)],
  gismulujvo: ["isGismuOrLujvo", (f, s, a) => f(a, S(s))], slinkuhi: ["isSlinkuhi", (f, s, a) => f(a, S(s))],
  zihevla: ["checkZihevlaOrRafsi", (f, s, a) => TY[f(a, { ...S(s), requireZihevla: true })]],
  zihevlaorrafsi: ["checkZihevlaOrRafsi", (f, s, a) => TY[f(a, S(s))]],
  jvokaha: ["jvokaha", (f, s, a) => f(a, NOC(s))], jvokaha2: ["jvokaha2", (f, s, a) => f(a, NOC(s))],
  compare: ["compareLujvoPieces", (f, s, a, b) => f(L(a), L(b))],
  selrafsi: ["selrafsiListFromRafsiList", (f, s, a) => f(L(a), NOC(s))],
  score: ["score", (f, s, a) => f(a)], tanru: ["processTanru", (f, s, a) => f(a)],
};
function help(name, s, ...a) {
  const [n, call] = HELP[name];
  if (G[n] === undefined)
    G[n] = vm.runInContext(`typeof ${n} === "undefined" ? null : ${n}`, ctx);
  if (G[n] === null) return ["err", "Missing", n];
  return ["ok", call(G[n], s || ".", ...a)];
}
const NEED = { N: "normalise", F: "searchSelrafsiFromRafsi", X: "getRafsiIndices" };
function run(c) {
  const [op, ...a] = c;
  const need = op === "T" ? (a[0] === "rafsi" ? "RAFSI_LIST" : a[0] === "settings" ? "makeSettingsIterator" : a[0]) : NEED[op];
  if (need && G[need] === undefined) return ["err", "Missing", need];
  switch (op) {
    case "Z": return ["ok", ...G.getLujvoWithAnalytics(a[0], S(a[1]))];
    case "z": return ["ok", G.getLujvo(a[0], S(a[1]))];
    case "ZL": return ["ok", ...G.getLujvoWithAnalytics(a.slice(1), S(a[0]))];
    case "B": { const r = G.analyseBrivla(a[0], NOC(a[1])); return ["ok", TY[r[0]], r[1]]; }
    case "K": return ["ok", G.getVeljvo(a[0], NOC(a[1]))];
    case "S": return ["ok", G.scoreLujvo(a[0], S(a[1]))];
    case "I": return ["ok", G.isBrivla(a[0], NOC(a[1]))];
    case "N": return ["ok", G.normalise(a[0])];
    case "X": return ["ok", G.getRafsiIndices(a)];
    case "F": { const r = G.searchSelrafsiFromRafsi(a[0]); return ["ok", r === undefined ? null : r]; }
    case "H": return help(...a);
    case "T":
      if (a[0] === "rafsi") return ["ok", [...G.RAFSI_LIST].map(([k, v]) => [k, v]).sort((x, y) => x[0] < y[0] ? -1 : 1)];
      if (a[0] === "settings") { const r = []; const it = G.makeSettingsIterator(G.SETTINGS);
        for (let x = it.next(); !x.done; x = it.next()) r.push(SD(x.value)); return ["ok", r]; }
      return ["ok", [...G[a[0]]].sort()];
  }
  return ["err", "BadOp", ""];
}
const cases = fs.readFileSync(casesFile, "utf8").split("\n").filter(Boolean);
let buf = [];
function flush() { if (buf.length) { fs.writeSync(1, buf.join("\n") + "\n"); buf = []; } }
for (const line of cases) {
  let r;
  try { r = run(JSON.parse(line)); }
  catch (e) { r = ["err", (e && e.name) || String(typeof e), String((e && e.message) || e)]; }
  buf.push(JSON.stringify(r));
  if (mode === "each" || buf.length >= 500) flush();
}
flush();
if (typeof module !== "undefined") module.exports = { run, G, S };
