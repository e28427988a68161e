// A small DOM, enough to run the repository's pages in Node: elements parsed from the page, events, a virtual clock.
"use strict";
const fs = require("fs"), path = require("path"), vm = require("vm");
const VOID = new Set(["br", "input", "meta", "link", "img", "hr"]);
const ENT = { "&lt;": "<", "&gt;": ">", "&quot;": "\"", "&#39;": "'", "&nbsp;": "\u00a0", "&amp;": "&" };
const unesc = s => s.replace(/&(lt|gt|quot|#39|nbsp|amp);/g, x => ENT[x]);
const esc = s => s.replace(/&/g, "&amp;").replace(/</g, "&lt;").replace(/>/g, "&gt;");

class Node_ {
  constructor() { this.childNodes = []; this.parentNode = null; }
  get children() { return this.childNodes.filter(x => x instanceof Element); }
  get firstChild() { return this.childNodes[0] || null; }
  get lastChild() { return this.childNodes[this.childNodes.length - 1] || null; }
  get firstElementChild() { return this.children[0] || null; }
  get parentElement() { return this.parentNode; }
  appendChild(n) {
    if (n instanceof Fragment) { for (const c of [...n.childNodes]) this.appendChild(c); return n; }
    if (n.parentNode) n.parentNode.removeChild(n);
    n.parentNode = this; this.childNodes.push(n); return n;
  }
  insertBefore(n, ref) {
    if (!ref) return this.appendChild(n);
    if (n.parentNode) n.parentNode.removeChild(n);
    n.parentNode = this; this.childNodes.splice(this.childNodes.indexOf(ref), 0, n); return n;
  }
  removeChild(n) { this.childNodes = this.childNodes.filter(x => x !== n); n.parentNode = null; return n; }
  append(...a) { for (const x of a) this.appendChild(x instanceof Node_ ? x : new Text(String(x))); }
  prepend(...a) { for (const x of a.reverse()) this.insertBefore(x instanceof Node_ ? x : new Text(String(x)), this.firstChild); }
  replaceChildren(...a) { for (const c of [...this.childNodes]) this.removeChild(c); this.append(...a); }
  remove() { if (this.parentNode) this.parentNode.removeChild(this); }
  get textContent() { return this.childNodes.map(x => x.textContent).join(""); }
  set textContent(v) { this.replaceChildren(...(v === "" || v == null ? [] : [new Text(String(v))])); }
  *walk() { for (const c of this.childNodes) { yield c; yield* c.walk(); } }
}
class Text extends Node_ {
  constructor(t) { super(); this.data = t; }
  get textContent() { return this.data; }
  set textContent(v) { this.data = String(v); }
  get outer() { return esc(this.data); }
}
class Fragment extends Node_ {}
class Element extends Node_ {
  constructor(doc, tag) {
    super(); this.ownerDocument = doc; this.localName = tag.toLowerCase(); this.attrs = {}; this.handlers = {};
    this.style = { setProperty() {}, removeProperty() {} }; this.dataset = {};
  }
  get tagName() { return this.localName.toUpperCase(); }
  get nodeName() { return this.tagName; }
  get id() { return this.attrs.id || ""; }
  set id(v) { this.attrs.id = String(v); }
  get className() { return this.attrs.class || ""; }
  set className(v) { this.attrs.class = String(v); }
  get classList() {
    const e = this, get = () => e.className.split(/\s+/).filter(Boolean), put = a => { e.className = [...new Set(a)].join(" "); };
    return {
      add(...c) { put([...get(), ...c]); }, remove(...c) { put(get().filter(x => !c.includes(x))); },
      contains(c) { return get().includes(c); },
      toggle(c, f) { const on = f === undefined ? !get().includes(c) : !!f; if (on) this.add(c); else this.remove(c); return on; },
      replace(a, b) { if (get().includes(a)) { this.remove(a); this.add(b); return true; } return false; }
    };
  }
  setAttribute(n, v) { this.attrs[n] = String(v); }
  getAttribute(n) { return n in this.attrs ? this.attrs[n] : null; }
  removeAttribute(n) { delete this.attrs[n]; }
  hasAttribute(n) { return n in this.attrs; }
  get options() { return [...this.walk()].filter(x => x.localName === "option"); }
  get value() {
    if (this._value !== undefined) return this._value;
    if (this.localName === "select") { const o = this.options.find(x => x.hasAttribute("selected")) || this.options[0]; return o ? o.value : ""; }
    if (this.localName === "option") return this.hasAttribute("value") ? this.attrs.value : this.textContent.trim();
    return this.attrs.value || "";
  }
  set value(v) { v = String(v); this._value = this.localName === "select" && !this.options.some(o => o.value === v) ? "" : v; }
  get selectedIndex() { return this.options.findIndex(o => o.value === this.value); }
  set selectedIndex(i) { this.value = this.options[i] ? this.options[i].value : ""; }
  get checked() { return this._checked !== undefined ? this._checked : this.hasAttribute("checked"); }
  set checked(v) { this._checked = !!v; }
  get disabled() { return this.hasAttribute("disabled"); }
  set disabled(v) { if (v) this.attrs.disabled = ""; else delete this.attrs.disabled; }
  get hidden() { return this.hasAttribute("hidden"); }
  set hidden(v) { if (v) this.attrs.hidden = ""; else delete this.attrs.hidden; }
  get colSpan() { return +(this.attrs.colspan || 1); }
  set colSpan(v) { this.attrs.colspan = String(v); }
  get rowSpan() { return +(this.attrs.rowspan || 1); }
  set rowSpan(v) { this.attrs.rowspan = String(v); }
  get innerText() { return this.textContent; }
  set innerText(v) { this.textContent = v; }
  get innerHTML() { return this.childNodes.map(x => x.outer).join(""); }
  set innerHTML(v) { this.replaceChildren(); parse(this.ownerDocument, String(v), this); }
  get outer() {
    const a = Object.entries(this.attrs).map(([k, v]) => ` ${k}="${v.replace(/"/g, "&quot;")}"`).join("");
    return `<${this.localName}${a}>` + (VOID.has(this.localName) ? "" : this.innerHTML + `</${this.localName}>`);
  }
  get outerHTML() { return this.outer; }
  insertAdjacentHTML(w, h) {
    const f = new Element(this.ownerDocument, "div"); f.innerHTML = h;
    for (const c of w === "afterbegin" ? [...f.childNodes].reverse() : [...f.childNodes])
      if (w === "afterbegin") this.insertBefore(c, this.firstChild); else this.appendChild(c);
  }
  insertRow() { const r = new Element(this.ownerDocument, "tr"); return this.appendChild(r); }
  insertCell() { const r = new Element(this.ownerDocument, "td"); return this.appendChild(r); }
  createTHead() { return this.appendChild(new Element(this.ownerDocument, "thead")); }
  createTBody() { return this.appendChild(new Element(this.ownerDocument, "tbody")); }
  matches(sel) {
    return sel.split(",").some(s => { const m = /^([\w-]*)(?:#([\w-]+))?((?:\.[\w-]+)*)$/.exec(s.trim());
      return m && (!m[1] || m[1] === this.localName) && (!m[2] || m[2] === this.id) &&
        m[3].split(".").filter(Boolean).every(c => this.classList.contains(c)); });
  }
  querySelectorAll(s) { return [...this.walk()].filter(x => x instanceof Element && x.matches(s)); }
  querySelector(s) { return this.querySelectorAll(s)[0] || null; }
  getElementsByTagName(t) { return this.querySelectorAll(t.toLowerCase()); }
  addEventListener(t, f) { (this.handlers[t] = this.handlers[t] || []).push(f); }
  removeEventListener(t, f) { this.handlers[t] = (this.handlers[t] || []).filter(x => x !== f); }
  dispatchEvent(ev) { fire(this, ev.type, ev); return true; }
  click() { fire(this, "click"); }
  focus() {} blur() {} select() {}
}
function fire(el, type, ev) {
  if (el instanceof Element && el.disabled && type === "click") return;
  const e = Object.assign({ type, target: el, currentTarget: el, bubbles: true, preventDefault() {}, stopPropagation() {} }, ev || {});
  for (let n = el; n; n = n.parentNode) {
    for (const f of [...((n.handlers || {})[type] || [])]) typeof f === "function" ? f.call(n, e) : f.handleEvent(e);
    if (typeof n["on" + type] === "function") n["on" + type](e);
  }
}
function parse(doc, html, root) {
  let cur = root, i = 0;
  const re = /<!--[\s\S]*?-->|<!doctype[^>]*>|<(\/?)([a-zA-Z][\w-]*)((?:\s+[^\s=>\/]+(?:\s*=\s*(?:"[^"]*"|'[^']*'|[^\s>]+))?)*)\s*(\/?)>/gi;
  let m;
  const text = t => { if (t) cur.appendChild(new Text(unesc(t))); };
  const up = tags => { for (let n = cur; n && n !== root; n = n.parentNode) if (tags.includes(n.localName)) { cur = n.parentNode; return true; } return false; };
  while ((m = re.exec(html))) {
    text(html.slice(i, m.index)); i = re.lastIndex;
    if (!m[2]) continue;
    const tag = m[2].toLowerCase();
    if (m[1]) { up([tag]); continue; }
    // what a browser closes by itself
    const inside = (tags, stop) => { for (let n = cur; n && n !== root; n = n.parentNode) { if (tags.includes(n.localName)) return true; if (stop.includes(n.localName)) return false; } return false; };
    if (["td", "th"].includes(tag) && inside(["td", "th"], ["tr", "table"])) up(["td", "th"]);
    if (tag === "tr" && inside(["tr"], ["table"])) up(["tr"]);
    if (["tbody", "thead", "tfoot"].includes(tag) && inside(["tbody", "thead", "tfoot"], ["table"])) up(["tbody", "thead", "tfoot"]);
    if (tag === "option" && inside(["option"], ["select"])) up(["option"]);
    const el = new Element(doc, tag);
    for (const a of (m[3] || "").matchAll(/([^\s=>\/]+)(?:\s*=\s*(?:"([^"]*)"|'([^']*)'|([^\s>]+)))?/g))
      el.attrs[a[1].toLowerCase()] = unesc(a[2] ?? a[3] ?? a[4] ?? "");
    cur.appendChild(el);
    if (tag === "script" || tag === "style") {
      const end = html.toLowerCase().indexOf(`</${tag}`, i);
      el.childNodes.push(new Text(html.slice(i, end < 0 ? html.length : end)));
      re.lastIndex = i = end < 0 ? html.length : html.indexOf(">", end) + 1;
    } else if (!VOID.has(tag) && !m[4]) cur = el;
  }
  text(html.slice(i));
}

class Page {
  constructor(file) {
    this.file = file; this.now = 0; this.timers = new Map(); this.nextId = 1; this.log = []; this.errors = [];
    const doc = this.document = new Element(null, "#document");
    doc.ownerDocument = doc;
    parse(doc, fs.readFileSync(file, "utf8"), doc);
    doc.getElementById = id => [...doc.walk()].find(x => x instanceof Element && x.attrs.id === String(id)) || null;
    doc.createElement = t => new Element(doc, t);
    doc.createTextNode = t => new Text(String(t));
    doc.createDocumentFragment = () => new Fragment();
    Object.defineProperty(doc, "body", { get: () => doc.querySelector("body") });
    Object.defineProperty(doc, "documentElement", { get: () => doc.querySelector("html") });
    Object.defineProperty(doc, "head", { get: () => doc.querySelector("head") });
    doc.readyState = "loading";
    const page = this;
    const add = (f, d, args, every) => { page.timers.set(page.nextId, { at: page.now + Math.max(every !== undefined ? 1 : 0, +d || 0), f, args, every }); return page.nextId++; };
    const g = {
      document: doc,
      console: new Proxy({}, { get: (_, k) => (...a) => { page.log.push([k, a]); } }),
      setTimeout: (f, d, ...a) => add(f, d, a), clearTimeout: id => { page.timers.delete(id); },
      setInterval: (f, d, ...a) => add(f, d, a, Math.max(1, +d || 1)), clearInterval: id => { page.timers.delete(id); },
      requestAnimationFrame: f => add(() => f(page.now), 16, []), cancelAnimationFrame: id => { page.timers.delete(id); },
      queueMicrotask, performance: { now: () => page.now },
      location: { href: "https://example.org/", search: "", hash: "", pathname: "/" },
      navigator: { language: "en", userAgent: "monitor" }, history: { pushState() {}, replaceState() {} },
      localStorage: { s: {}, getItem(k) { return k in this.s ? this.s[k] : null; }, setItem(k, v) { this.s[k] = String(v); }, removeItem(k) { delete this.s[k]; } },
      Event: class { constructor(t, o) { Object.assign(this, o); this.type = t; } },
      URLSearchParams, URL, alert() {}
    };
    g.sessionStorage = g.localStorage;
    this.ctx = vm.createContext(g);
    this.win = vm.runInContext("globalThis", this.ctx);
    this.win.handlers = {};
    this.win.window = this.win.self = this.win;
    this.win.addEventListener = (t, f) => { (this.win.handlers[t] = this.win.handlers[t] || []).push(f); };
    this.win.removeEventListener = (t, f) => { this.win.handlers[t] = (this.win.handlers[t] || []).filter(x => x !== f); };
  }
  guard(what, f) { try { f(); } catch (e) { this.errors.push(`${what}: ${e && e.name}: ${e && e.message}`); } }
  load(only) {
    for (const s of this.document.querySelectorAll("script")) {
      const src = s.getAttribute("src");
      if (only && !only(src)) continue;
      const name = src ? path.join(path.dirname(this.file), src) : this.file;
      this.guard("script " + path.basename(name), () => vm.runInContext(src ? fs.readFileSync(name, "utf8") : s.textContent, this.ctx, { filename: name }));
    }
    this.document.readyState = "complete";
    for (const t of ["DOMContentLoaded", "load"]) {
      this.guard(t, () => fire(this.document, t));
      for (const f of this.win.handlers[t] || []) this.guard(t, () => f({ type: t }));
      if (typeof this.win["on" + t] === "function") this.guard(t, () => this.win["on" + t]({ type: t }));
    }
    return this;
  }
  fire(id, type) { const e = this.document.getElementById(id); if (!e) { this.errors.push("no element " + id); return; } this.guard(type + " on " + id, () => fire(e, type)); }
  async pass(ms) {
    const end = this.now + ms;
    for (let n = 0; n < 10000; n++) {
      await new Promise(r => setImmediate(r));
      let id, t;
      for (const [i, x] of this.timers) if (x.at <= end && (!t || x.at < t.at)) { id = i; t = x; }
      if (!t) break;
      this.now = Math.max(this.now, t.at);
      if (t.every) t.at = this.now + t.every; else this.timers.delete(id);
      this.guard("timer", () => typeof t.f === "function" ? t.f(...t.args) : vm.runInContext(String(t.f), this.ctx));
    }
    this.now = end;
    await new Promise(r => setImmediate(r));
  }
  get(expr) { return vm.runInContext(expr, this.ctx); }
}
module.exports = { Page, Element };
