// Runs the pages of the repository and checks what they show against the library.
// node page.js REPO SESSIONS.json
"use strict";
const fs = require("fs"), path = require("path");
const { Page } = require("./dom.js");
const [,, repo, sessionsFile] = process.argv;
const out = { cells: 0, tables: 0, seen: {}, bad: [], shapes: {} };
const seen = k => { out.seen[k] = (out.seen[k] || 0) + 1; };
const bad = (kind, what, session) => { if (out.bad.length < 60) out.bad.push([kind, what, session]); };

// The library by itself, without the page.
const lib = new Page(path.join(repo, "index.html")).load(s => s && s.startsWith("js/docs/"));
const L = n => lib.get(n);
const [getLujvo, getLujvoWithAnalytics, analyseBrivla, getVeljvo] = ["getLujvo", "getLujvoWithAnalytics", "analyseBrivla", "getVeljvo"].map(L);
const YH = L("YHyphenSetting"), CS = L("ConsonantSetting"), BT = L("BrivlaType");
const AXES = [
  ["yHyphens", { STANDARD: YH.STANDARD, ALLOW_Y: YH.ALLOW_Y, FORCE_Y: YH.FORCE_Y }],
  ["expRafsiShapes", { STD_RAF: false, EXP_RAF: true }],
  ["consonants", { CLUSTER: CS.CLUSTER, "2_CON": CS.TWO_CONSONANTS, "1_CON": CS.ONE_CONSONANT }],
  ["glides", { NO_GLIDE: false, GLIDE: true }],
  ["allowMZ", { NOMZ: false, MZ: true }]
];
const LABEL = {};
AXES.forEach(([, m], i) => { for (const k in m) LABEL[k] = i; });
const ALL = [];
(function rec(i, o) {
  if (i === AXES.length) { ALL.push(o); return; }
  for (const k in AXES[i][1]) rec(i + 1, { ...o, [i]: k });
})(0, {});
const settings = o => { const s = {}; AXES.forEach(([n, m], i) => { s[n] = m[o[i]]; }); return s; };

// What the page must show for a text under one combination of settings.
function expected(text, s, cmevla) {
  const t = text.trim(), n = t === "" ? 0 : t.split(/\s+/).length;
  if (n === 0) return ["", ""];
  try {
    if (n > 1) return [getLujvo(t, { ...s, generateCmevla: cmevla }), cmevla ? "yellow" : "green"];
    const [ty, pieces] = analyseBrivla(t, s);
    let r = `${ty}|[${pieces.join(", ")}]`;
    if ([BT.LUJVO, BT.EXTENDED_LUJVO, BT.CMEVLA].includes(ty)) r += "|" + getVeljvo(t, s).join(" ");
    return [r, ty === BT.CMEVLA ? "yellow" : "green"];
  } catch (e) { return [n > 1 ? "NO LUJVO FOUND" : "NOT BRIVLA", "red"]; }
}
const cellText = c => c.innerHTML.split(/<br[^>]*>/).map(x => x.replace(/<[^>]*>/g, "").replace(/&lt;/g, "<").replace(/&gt;/g, ">").replace(/&amp;/g, "&").trim()).join("|");

// The grid of a table, by the rules browsers use for rowspan and colspan.
function grid(table) {
  const rows = table.querySelectorAll("tr"), g = rows.map(() => []);
  rows.forEach((tr, y) => {
    let x = 0;
    for (const c of tr.children.filter(c => c.localName === "td" || c.localName === "th")) {
      while (g[y][x]) x++;
      const w = +(c.getAttribute("colspan") || 1), h = +(c.getAttribute("rowspan") || 1);
      for (let dy = 0; dy < h && y + dy < rows.length; dy++) for (let dx = 0; dx < w; dx++) g[y + dy][x + dx] = c;
      x += w;
    }
  });
  return g;
}
// For each cell with an answer: the settings its row and column are labelled with.
function answers(table) {
  const g = grid(table), res = [];
  g.forEach((row, y) => row.forEach((c, x) => {
    if (!c || c.localName !== "td" || cellText(c) in LABEL) return;
    const at = {};
    for (const d of [...row.slice(0, x), ...g.slice(0, y).map(r => r[x])])
      if (d && cellText(d) in LABEL && !(d.localName === "td" && !row.includes(d))) at[LABEL[cellText(d)]] = cellText(d);
    res.push({ at, text: cellText(c), cls: c.className.trim() });
  }));
  return res;
}

async function demo(session) {
  const p = new Page(path.join(repo, "index.html")).load();
  const el = id => p.document.getElementById(id);
  for (const id of ["source", "brivla", "cmevla", "ezmode", "hard-mode"]) if (!el(id)) return bad("page", "no element " + id, session);
  let text = "", cmevla = false, easy = false, asked = false;
  for (const [i, [what, arg]] of session.entries()) {
    if (what === "type") { text = arg; el("source").value = arg; p.fire("source", "input"); asked = true; }
    else if (what === "pass") await p.pass(arg);
    else if (what === "click") {
      p.fire(arg, "click"); asked = asked || arg === "ezmode" || cmevla !== (arg === "cmevla");
      if (arg === "ezmode") easy = !easy; else cmevla = arg === "cmevla";
    } else if (what === "look") {
      await p.pass(2000);
      if (p.errors.length) return bad("page error", p.errors.slice(0, 2).join("; "), session.slice(0, i + 1));
      for (const [id, on] of [["cmevla", cmevla], ["brivla", !cmevla], ["ezmode", easy]])
        if (el(id).classList.contains("active") !== on)
          return bad("button", `button ${id} is ${on ? "not " : ""}shown as active`, session.slice(0, i + 1));
      if (!asked) continue;
      const a = answers(el("hard-mode")), want = easy ? [ALL[0]] : ALL;
      out.tables++;
      const shape = easy ? "easy" : [...new Set(a.flatMap(c => Object.keys(c.at)))].sort().join("") || "invariant";
      out.shapes[shape] = (out.shapes[shape] || 0) + 1;
      for (const o of want) {
        const fit = a.filter(c => Object.entries(c.at).every(([k, v]) => o[k] === v));
        const [t, c] = expected(text, settings(o), cmevla);
        const show = `${JSON.stringify(text)} ${Object.values(o).join(" ")}${cmevla ? " cmevla" : ""}${easy ? " easy" : ""}`;
        if (fit.length !== 1) return bad("table", `${show}: ${fit.length} cells are labelled with it`, session.slice(0, i + 1));
        if (fit[0].text !== t) return bad("cell", `${show}: the page shows ${fit[0].text}, the library gives ${t}`, session.slice(0, i + 1));
        if (c && !fit[0].cls.split(/\s+/).includes(c)) return bad("colour", `${show}: class ${fit[0].cls}, expected ${c}`, session.slice(0, i + 1));
        out.cells++;
      }
      seen(a.length > 1 ? "answers that vary" : "answers that do not");
    }
  }
}

const TXT = { STANDARD: "standard", ALLOW_Y: "allow_y", FORCE_Y: "force_y", CLUSTER: "cluster", "2_CON": "two anywhere", "1_CON": "one anywhere" };
async function debug(session) {
  const p = new Page(path.join(repo, "debug-ts.html")).load();
  const el = id => p.document.getElementById(id);
  const pick = (id, t) => { const o = el(id).options.find(o => o.textContent.trim() === t); if (!o) throw Error("no option " + t); el(id).value = o.value; p.fire(id, "change"); };
  const st = { mode: "zbasu", text: "", cmevla: false, 0: "STANDARD", 1: "STD_RAF", 2: "CLUSTER", 3: "NO_GLIDE", 4: "NOMZ" };
  const BOX = { 1: ["exp_rafsi", "EXP_RAF", "STD_RAF"], 3: ["glides", "GLIDE", "NO_GLIDE"], 4: ["mz", "MZ", "NOMZ"] };
  for (const [i, [what, arg, val]] of session.entries()) {
    try {
      if (what === "mode") { pick("mode", arg); st.mode = arg; }
      else if (what === "text") { el("the").value = arg; p.fire("the", "input"); st.text = arg; }
      else if (what === "axis" && (arg === 0 || arg === 2)) { pick(arg === 0 ? "y_hyphens" : "consonants", TXT[val]); st[arg] = val; }
      else if (what === "axis") { el(BOX[arg][0]).checked = val === BOX[arg][1]; p.fire(BOX[arg][0], "change"); st[arg] = val; }
      else if (what === "cmevla") { if (!el("cmevla").disabled) { el("cmevla").checked = arg; p.fire("cmevla", "change"); st.cmevla = arg; } }
      else if (what === "default") { p.fire("default", "click"); Object.assign(st, { cmevla: false, 0: "STANDARD", 1: "STD_RAF", 2: "CLUSTER", 3: "NO_GLIDE", 4: "NOMZ" }); }
      else if (what === "go") {
        p.fire("ko", "click");
        await p.pass(100);
        if (p.errors.length) return bad("page error", p.errors.slice(0, 2).join("; "), session.slice(0, i + 1));
        const s = settings(st); let t, err = false;
        try {
          if (st.mode === "zbasu") { const [l, sc, ix] = getLujvoWithAnalytics(st.text, { ...s, generateCmevla: st.cmevla }); t = `${l}|${sc}|${ix.map(x => x.join("-")).join(", ")}`; }
          else if (st.mode === "katna") t = getVeljvo(st.text, s).join(" ");
          else { const [ty, pc] = analyseBrivla(st.text, s); t = `${ty.toLowerCase().replace(/_/g, " ")}|${pc.join(" ")}`; }
        } catch (e) { err = true; t = e.message; }
        const got = err ? el("out").textContent : cellText(el("out"));
        const show = `debug page, ${st.mode} ${JSON.stringify(st.text)} ${[0, 1, 2, 3, 4].map(k => st[k]).join(" ")}${st.cmevla ? " cmevla" : ""}`;
        if (got.trim() !== t.trim()) return bad("debug page", `${show}: shows ${got}, the library gives ${t}`, session.slice(0, i + 1));
        if (el("out").classList.contains("err") !== err) return bad("debug page", `${show}: ${err ? "not " : ""}marked as an error`, session.slice(0, i + 1));
        out.cells++; seen("debug page " + st.mode + (err ? " error" : ""));
      }
    } catch (e) { return bad("debug page", `${e.name}: ${e.message}`, session.slice(0, i + 1)); }
  }
}
(async () => {
  if (lib.errors.length) { bad("load", lib.errors.join("; "), []); }
  else for (const s of JSON.parse(fs.readFileSync(sessionsFile, "utf8"))) {
    if (out.bad.length >= 8) break;
    if (s.page === "demo") await demo(s.steps); else await debug(s.steps);
  }
  console.log(JSON.stringify(out));
})();
