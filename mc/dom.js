// A small document object model: runs the page's own script on the page's own
// elements and explores sequences of received states.
"use strict";
const fs = require("fs");
const vm = require("vm");
const job = JSON.parse(fs.readFileSync(0, "utf8"));

let all = [];

class Node_ {
  constructor(spec, parent) {
    this.tagName = spec.tag;
    this.attrs = Object.assign({}, spec.attrs);
    this.text = spec.text;
    this.parentNode = this.parentElement = parent;
    this.index = all.length;
    all.push(this);
    this.children = spec.children.map((c) => new Node_(c, this));
    this.style = new Proxy({}, {
      get: (t, k) => (typeof k === "string" && this.attrs["style:" + k]) || "",
      set: (t, k, v) => { this.attrs["style:" + k] = String(v); return true; },
    });
    const self = this;
    this.classList = {
      list: () => (self.attrs.class || "").split(/\s+/).filter((x) => x),
      contains(c) { return this.list().includes(c); },
      add(...cs) { for (const c of cs) if (!this.contains(c)) self.attrs.class = this.list().concat([c]).join(" "); },
      remove(...cs) { self.attrs.class = this.list().filter((x) => !cs.includes(x)).join(" "); },
      toggle(c, on) { (on === undefined ? !this.contains(c) : on) ? this.add(c) : this.remove(c); },
    };
  }
  get id() { return this.attrs.id || ""; }
  get childNodes() { return this.children; }
  get firstElementChild() { return this.children[0] || null; }
  get innerHTML() { return this.text; }
  set innerHTML(v) { this.setText(v === null ? "" : v); }
  get textContent() { return this.text; }
  set textContent(v) { this.setText(v === null || v === undefined ? "" : v); }
  get innerText() { return this.text; }
  set innerText(v) { this.setText(v); }
  setText(v) {
    if (this.children.length) throw new Error("the script replaces the content of <" + this.tagName + "> " + this.id);
    this.text = String(v);
  }
  setAttribute(k, v) { this.attrs[k] = String(v); }
  setAttributeNS(ns, k, v) { this.attrs[k] = String(v); }
  getAttribute(k) { return k in this.attrs ? this.attrs[k] : null; }
  hasAttribute(k) { return k in this.attrs; }
  removeAttribute(k) { delete this.attrs[k]; }
  *walk() { for (const c of this.children) { yield c; yield* c.walk(); } }
  find(pred) { const r = collection(); for (const c of this.walk()) if (pred(c)) r.push(c); return r; }
  getElementsByClassName(n) {
    const cs = n.split(/\s+/).filter((x) => x);
    return this.find((e) => cs.every((c) => e.classList.contains(c)));
  }
  getElementsByTagName(n) { return this.find((e) => n === "*" || e.tagName === n); }
  getElementById(n) {
    // only documents and <svg> elements have this method
    if (this.tagName !== "svg" && this.tagName !== "#document")
      throw new TypeError("getElementById is not a function of <" + this.tagName + ">");
    for (const c of this.walk()) if (c.attrs.id === String(n)) return c;
    return null;
  }
  matches(sel) {
    return sel.split(",").some((s) => {
      const parts = s.trim().replace(/\s*>\s*/g, " > ").split(/\s+/);
      const simple = (e, p) => {
        const m = p.match(/^([\w-]*|\*)((?:[.#][\w-]+|\[[^\]]+\])*)$/);
        if (!m) throw new Error("selector " + p + " is outside this document model");
        if (m[1] && m[1] !== "*" && e.tagName !== m[1]) return false;
        for (const q of m[2].match(/[.#][\w-]+|\[[^\]]+\]/g) || []) {
          if (q[0] === ".") { if (!e.classList.contains(q.slice(1))) return false; }
          else if (q[0] === "#") { if (e.attrs.id !== q.slice(1)) return false; }
          else {
            const a = q.match(/^\[([\w-]+)(?:([\^$*]?=)["']?([^"']*)["']?)?\]$/);
            if (!a) throw new Error("selector " + q + " is outside this document model");
            const v = e.attrs[a[1]];
            if (v === undefined) return false;
            if (a[2] === "=" && v !== a[3]) return false;
            if (a[2] === "^=" && !v.startsWith(a[3])) return false;
            if (a[2] === "$=" && !v.endsWith(a[3])) return false;
            if (a[2] === "*=" && !v.includes(a[3])) return false;
          }
        }
        return true;
      };
      const go = (e, i) => {
        if (!simple(e, parts[i])) return false;
        if (i === 0) return true;
        if (parts[i - 1] === ">") return e.parentNode !== null && go(e.parentNode, i - 2);
        for (let p = e.parentNode; p; p = p.parentNode) if (p.tagName !== "#document" && go(p, i - 1)) return true;
        return false;
      };
      return go(this, parts.length - 1);
    });
  }
  querySelectorAll(sel) { return this.find((e) => e.matches(sel)); }
  querySelector(sel) { return this.querySelectorAll(sel)[0] || null; }
  closest(sel) { for (let e = this; e && e.tagName !== "#document"; e = e.parentNode) if (e.matches(sel)) return e; return null; }
}

function collection() {
  const r = [];
  Object.defineProperty(r, "item", { value: (i) => r[i] || null });
  Object.defineProperty(r, "namedItem", { value: (n) => r.find((e) => e.id === n) || null });
  return r;
}

// state of the document: attributes and text of every element
function snapshot() { return JSON.stringify(all.map((e) => [e.attrs, e.text])); }
function load(page, script) {
  all = [];
  const root = new Node_({ tag: "#document", attrs: {}, text: "", children: [page] }, null);
  const handlers = {};
  const socket = { on(n, f) { (handlers[n] = handlers[n] || []).push(f); return socket; },
    addEventListener(n, f) { return socket.on(n, f); }, emit() {}, connect() {}, connected: true };
  const document = root;
  document.addEventListener = (n, f) => { if (n === "DOMContentLoaded") later.push(f); };
  document.readyState = "loading";
  const later = [];
  const window = { addEventListener: (n, f) => { if (n === "load" || n === "DOMContentLoaded") later.push(f); } };
  const io = () => socket;
  io.connect = () => socket;
  const sandbox = { document, window, io, console: { log() {}, warn() {}, error() {}, debug() {}, info() {} },
    setTimeout: (f) => { f(); return 0; }, clearTimeout() {}, requestAnimationFrame: (f) => { f(); return 0; },
    location: { host: "localhost", hostname: "localhost", protocol: "http:", port: "" } };
  window.document = document;
  window.io = io;
  // a browser runs the script before the table's elements exist
  const ctx = vm.createContext(sandbox);
  const kids = root.children;
  root.children = [];
  vm.runInContext(script, ctx, { timeout: 20000 });
  root.children = kids;
  document.readyState = "complete";
  for (const f of later) f({});
  if (typeof window.onload === "function") window.onload({});
  return (name, data) => {
    if (!handlers[name]) throw new Error("the page does not listen to '" + name + "'");
    sandbox.__f = handlers[name];
    sandbox.__d = JSON.stringify(data);
    vm.runInContext("__f.forEach(f => f(JSON.parse(__d)))", ctx, { timeout: 20000 });
  };
}

// what a person sees: the colours of an empty text do not matter
function visible(s) {
  return JSON.parse(s).map(([a, t]) => {
    const b = Object.assign({}, a);
    if (t !== null && t.trim() === "" && all.length) { delete b._; }
    return [b, t === null ? "" : t.trim()];
  });
}

const out = { errors: [], results: [] };
try {
  let receive = null;
  let at = -1;          // state of the page being looked at (its elements; the script may remember more)
  let history = null;   // messages this page has received since it was loaded
  const loads = [];
  const fresh = () => {
    receive = load(job.page, job.script);
    history = [];
    loads.push(history);
    return snapshot();
  };
  const initial = fresh();
  // explore all sequences of messages: breadth first over document states. Pages live on:
  // every execution is a real one of a page since it was loaded, nothing is set back.
  const states = new Map([[initial, 0]]);
  const list = [initial];
  const trace = [[]];   // the messages before its first occurrence
  const short = [[]];   // fewer messages which should lead there as well
  let transitions = 0;
  let depth = 0;
  let frontier = [0];
  let closed = false;
  const edges = [];
  at = 0;
  const send = (m) => {
    const from = at;
    history.push(m);
    transitions++;
    at = -1;
    receive("config", job.messages[m]);
    const s = snapshot();
    let j = states.get(s);
    if (j === undefined) {
      j = list.length;
      states.set(s, j);
      list.push(s);
      trace.push(history.slice());
      short.push(from < 0 ? trace[j] : short[from].concat([m]));
      found.push(j);
    }
    at = j;
    return j;
  };
  let found = [];
  let repeats = 0;
  // pages after the same message which look different: a few are enough to judge
  const looks = new Map();
  let differing = 0;
  let stop = Infinity;
  const look = (m, j) => {
    const s = JSON.stringify(JSON.parse(list[j]).map(([a, t]) => {
      if (a.class === "card-text" && (t === null || t.trim() === "")) { a = Object.assign({}, a); delete a.fill; delete a.stroke; }
      return [a, t];
    }));
    if (!looks.has(m)) looks.set(m, new Set());
    const l = looks.get(m);
    if (!l.has(s) && l.size && !differing++) stop = transitions + 3000;
    l.add(s);
  };
  const go = (i) => {
    if (at === i) return;
    if (i > 0 && at >= 0) {
      for (const m of short[i]) send(m);
      if (at === i) return;
    }
    fresh();
    at = 0;
    for (const m of short[i]) send(m);
    if (at === i) return;
    // the state depends on more than this: load the page again and repeat everything
    if (repeats++ > 40) return;
    fresh();
    at = 0;
    for (const m of trace[i]) send(m);
    short[i] = trace[i];
    if (at !== i && repeats <= 40) throw new Error("the page shows another state after the same messages " + JSON.stringify(trace[i]));
  };
  const fail = (e) => {
    out.errors.push({ trace: history.slice(), error: String(e && e.stack ? e.stack.split("\n").slice(0, 2).join(" ") : e) });
    if (out.errors.length > 3) throw new Error("too many errors");
    at = -1;
  };
  const done = new Map();   // state -> number of messages tried
  while (frontier.length && depth < job.depth) {
    depth++;
    found = [];
    const open = new Set(frontier);
    while (open.size) {
      const i = open.has(at) ? at : open.values().next().value;
      const m = done.get(i) || 0;
      if (m === job.messages.length) { open.delete(i); continue; }
      done.set(i, m + 1);
      try {
        go(i);
        if (repeats > 40) break;
        const j = send(m);
        edges.push([i, m, j, loads.length - 1, history.length]);
        look(m, j);
      } catch (e) {
        fail(e);
      }
      if (list.length > job.limit || repeats > 40 || transitions > stop) break;
    }
    frontier = found.filter((j) => !done.has(j));
    if (list.length > job.limit || repeats > 40 || transitions > stop) break;
  }
  closed = frontier.length === 0 && transitions <= stop && repeats <= 40 && list.length <= job.limit;
  out.closed = closed;
  out.depth = depth;
  out.transitions = transitions;
  out.states = list.map(visible);
  out.loads = loads;
  // each (state, message) pair leads to one state: keep the pairs of distinct outcome
  const seen = new Set();
  for (const e of edges) {
    const k = e[1] + ":" + e[2] + (e[0] === 0 ? ":0" : "");
    if (!seen.has(k)) { seen.add(k); out.results.push(e); }
  }
} catch (e) {
  out.errors.push({ trace: [], error: String(e && e.stack ? e.stack.split("\n").slice(0, 2).join(" ") : e) });
}
process.stdout.write(JSON.stringify(out));
