'use strict';
// Deterministic simulation of the JavaScript client (extension/jsclient/arpc.js): the real source runs
// against a simulated WebSocket, XMLHttpRequest, clock and server; one plan is one exactly repeatable run.

// ------------------------------------------------------------------ randomness
class Rng {
  constructor(a, b) { this.s = [Math.imul(a | 0, 0x9e3779b1) ^ 0x1234567, (b | 0) ^ 0x2545f491, 0x6c078965, (a ^ b) | 0]; for (let i = 0; i < 12; i++) this.next(); }
  next() { const s = this.s; let t = s[3]; t ^= t << 11; t ^= t >>> 8; s[3] = s[2]; s[2] = s[1]; s[1] = s[0]; t ^= s[0]; t ^= s[0] >>> 19; s[0] = t; return t >>> 0; }
  n(k) { return k <= 1 ? 0 : this.next() % k; }
  in(a, b) { return a + this.n(b - a + 1); }
  p(k) { return this.n(k) === 0; }
  pick(...v) { return v[this.n(v.length)]; }
  log(a, b) { const x = Math.log(a), y = Math.log(b); return Math.round(Math.exp(x + (y - x) * (this.next() / 4294967296))); }
}

// ------------------------------------------------------------------ the wire format, independent of the client
const REQUEST = 1, RESPONSE = 2, NOTIFY = 3, PING = 4, PONG = 5;
const enc = (s) => new TextEncoder().encode(s);
const dec = (b) => new TextDecoder().decode(b);
function frame(cmd, flag, method, seq, body) {
  const m = enc(method), n = m.length + body.length, b = new Uint8Array(16 + n), v = new DataView(b.buffer);
  v.setUint32(0, n, true); b[5] = cmd; b[6] = flag; b[7] = m.length; v.setUint32(8, seq, true);
  b.set(m, 16); b.set(body, 16 + m.length);
  return b;
}
function parse(b) {
  const out = []; let o = 0;
  const v = new DataView(b.buffer, b.byteOffset, b.byteLength);
  while (o < b.length) {
    if (b.length - o < 16) return { out, bad: `${b.length - o} bytes where a header should be` };
    const n = v.getUint32(o, true), ml = b[o + 7];
    if (b.length - o - 16 < n) return { out, bad: `body length ${n}, but ${b.length - o - 16} bytes follow the header` };
    if (ml > n) return { out, bad: `method length ${ml}, body length ${n}` };
    out.push({ reserved: b[o + 4], cmd: b[o + 5], flag: b[o + 6], seq: v.getUint32(o + 8, true), hi: v.getUint32(o + 12, true), method: dec(b.slice(o + 16, o + 16 + ml)), body: b.slice(o + 16 + ml, o + 16 + n) });
    o += 16 + n;
  }
  return { out };
}
function concat(list) { let n = 0; for (const x of list) n += x.length; const b = new Uint8Array(n); n = 0; for (const x of list) { b.set(x, n); n += x.length; } return b; }
const same = (a, b) => JSON.stringify(a) === JSON.stringify(b);
const clip = (x) => { const s = typeof x === 'string' ? x : JSON.stringify(x); return s && s.length > 120 ? s.slice(0, 120) + '...' : String(s); };

const METHODS = ['echo', 'm', 'x'.repeat(127), 'größe', '方法', 'a b/c', 'q'];
const PAYLOADS = [
  () => 'hello', () => ({ id: 1, a: [1, 2, { b: null }] }), () => 42, () => 0, () => false, () => true, () => '', () => null, () => undefined,
  () => 'ünïcödé ☃ 漢字 \u{1f600}', () => [], () => ({}), () => '[1,2', () => 'x'.repeat(3000), () => ({ s: 'é'.repeat(700) }), () => -1.5, () => '\u0000\n"', () => 'y'.repeat(70000),
];
function marshal(v) { // what the peer should get
  if (v === undefined || v === null) return '';
  return typeof v === 'string' ? v : JSON.stringify(v);
}
function unmarshal(text) { try { return JSON.parse(text); } catch (e) { return text; } }

// ------------------------------------------------------------------ plans
function genPlan(base, idx) {
  const seed = (Math.imul(base | 0, 0x85ebca6b) ^ Math.imul(idx + 1, 0xc2b2ae35)) >>> 0;
  const g = new Rng(seed, idx);
  const p = { Prop: 'C35', Seed: seed, Idx: idx, Delay: [g.pick(0, 0, 1, 5), g.pick(0, 3, 50, 400)], Batch: g.pick(0, 0, 1, 20, 300), Keep: g.pick(0, 0, 0, 50, 1000), Lead: g.pick(0, 0, 0, 0, 0, 0, 0, 3, 250, 300), Ops: [], Faults: [] };
  if (g.p(1500)) p.Lead = 66000;
  const span = g.pick(10, 200, 3000, 30000);
  let id = 0;
  for (let k = g.in(1, g.pick(4, 12, 30)); k > 0; k--) {
    const t = g.p(3) ? g.n(20) : g.n(span);
    const kind = g.pick('call', 'call', 'call', 'call', 'call', 'notify', 'push', 'push', 'ping', 'http', 'httpn', 'stray', 'odd');
    const op = { K: kind, T: t, Id: id++, M: g.n(METHODS.length), P: g.n(PAYLOADS.length - (g.p(10) ? 0 : 1)) };
    if (kind === 'call' || kind === 'http') {
      op.Timeout = g.pick(0, g.log(1, 50), g.log(1, 1000), g.log(1, 60000), 5000);
      op.Cb = g.pick(0, 0, 1, 1, 2, 3); // promise, callback, callback that throws, callback that calls again
      op.R = g.pick('ok', 'ok', 'ok', 'ok', 'err', 'never', 'twice', 'empty'); // what the server does
      op.Wait = g.pick(0, 0, g.log(1, 100), op.Timeout || 5, g.log(1, 20000)); // ... and when
      op.RP = g.n(PAYLOADS.length - (g.p(10) ? 0 : 1));
      if (kind === 'http') op.R = g.pick('ok', 'ok', 'ok', 'err', 'never', 'empty', 'status', 'neterr');
    }
    if (kind === 'push') { op.Req = g.p(3) ? 1 : 0; op.Throw = g.p(5) ? 1 : 0; op.Unknown = g.p(6) ? 1 : 0; }
    p.Ops.push(op);
  }
  if (g.p(4)) p.Ops.push({ K: 'shutdown', T: g.n(2 * span), Id: id++ });
  if (g.p(2)) for (let k = g.in(1, 3); k > 0; k--) p.Faults.push({ K: g.pick('drop', 'drop', 'close', 'down', 'hold'), T: g.n(span), Dur: g.log(1, g.pick(100, 1000, 5000, g.p(10) ? 60000 : 3000)) });
  if (g.p(8)) p.CloseHook = g.pick('call', 'shutdown', 'throw');
  if (g.p(10)) p.OpenThrow = 1;
  else if (g.p(8)) p.OpenCall = 1;
  p.Ops.sort((a, b) => a.T - b.T);
  return p;
}

// ------------------------------------------------------------------ one run
class Stop extends Error {}
const MARK = 'thrown by the application';

async function run(factory, plan, verbose) {
  const g = new Rng(plan.Seed, 0x5eed);
  const log = [];
  const say = (...a) => { if (verbose) log.push(`${now} ms  ${a.join(' ')}`); };
  let now = 0, order = 0, violation = null, hash = 2166136261, events = 0;
  const counts = {}, fired = {};
  const count = (k) => { counts[k] = (counts[k] || 0) + 1; };
  const mix = (s) => { for (let i = 0; i < s.length; i++) hash = Math.imul(hash ^ s.charCodeAt(i), 16777619) >>> 0; };
  const fail = (cls, msg) => { if (!violation) { violation = { Class: cls, Msg: msg, At: now }; say('VIOLATION', cls, msg); } };

  // ---- events: time, then a seeded choice, but in order within a channel
  const q = [];
  const timers = new Map();
  let lastID = 0;
  function at(t, name, fn, chan) {
    const e = { t: Math.max(t, now), r: g.next(), o: order++, name, fn, chan };
    if (chan) { if (chan.last && (chan.last.t > e.t || (chan.last.t === e.t))) { e.t = chan.last.t; e.r = chan.last.r; } chan.last = e; }
    let i = q.length; q.push(e);
    const less = (a, b) => a.t !== b.t ? a.t < b.t : a.r !== b.r ? a.r < b.r : a.o < b.o;
    while (i > 0) { const j = (i - 1) >> 1; if (!less(q[i], q[j])) break; [q[i], q[j]] = [q[j], q[i]]; i = j; }
    return e;
  }
  function pop() {
    const less = (a, b) => a.t !== b.t ? a.t < b.t : a.r !== b.r ? a.r < b.r : a.o < b.o;
    const top = q[0], x = q.pop();
    if (q.length) { q[0] = x; let i = 0; for (;;) { let j = 2 * i + 1; if (j >= q.length) break; if (j + 1 < q.length && less(q[j + 1], q[j])) j++; if (!less(q[j], q[i])) break; [q[i], q[j]] = [q[j], q[i]]; i = j; } }
    return top;
  }
  let inCB = 0;
  // guarded runs client code that a browser would run: an exception there is nobody's.
  function guarded(what, fn) {
    try { fn(); } catch (e) {
      if (e instanceof Stop) throw e;
      if (String(e && e.message || e).indexOf(MARK) >= 0) { count('app_exception'); return; }
      fail('exception', `${what}: ${e && e.stack ? e.stack.split('\n').slice(0, 2).join(' ') : e}`);
    }
  }
  const delay = () => plan.Delay[0] + g.n(plan.Delay[1] + 1);

  // ---- the browser
  const setTimeout_ = (fn, ms, ...a) => { const id = ++lastID; ms = Math.max(0, Number(ms) || 0); timers.set(id, { kind: 'timeout' }); at(now + ms, 'timer', () => { if (timers.delete(id)) guarded('a timer', () => fn(...a)); }); return id; };
  const clear = (id) => { timers.delete(id); };
  const setInterval_ = (fn, ms, ...a) => { const id = ++lastID; ms = Math.max(1, Number(ms) || 0); timers.set(id, { kind: 'interval' }); const tick = () => at(now + ms, 'interval', () => { if (!timers.has(id)) return; guarded('an interval', () => fn(...a)); tick(); }); tick(); return id; };
  class FakeDate extends Date { constructor(...a) { if (a.length) super(...a); else super(1.7e12 + now); } static now() { return 1.7e12 + now; } }

  let downUntil = -1, holdUntil = -1, faultsOn = true, cur = null;
  const socks = [];
  let opened = null; // the socket whose open event was dispatched and whose close event was not
  class FakeWebSocket {
    constructor(url) {
      this.url = url; this.readyState = 0; this.binaryType = 'blob'; this.id = socks.length; this.chan = {}; this.up = {}; this.pend = []; this.flushing = false; this.list = {};
      for (const s of socks) if (s.readyState !== 3 && s !== this) fail('two-connections', `a second WebSocket was made while connection ${s.id} is in state ${s.readyState}`);
      if (shut) fail('dial-after-shutdown', 'a WebSocket was made after shutdown');
      socks.push(this);
      if (socks.length > 20000) throw new Stop('too many connections');
      count('dial'); say('dial', this.id);
      let t = now + delay() + (now < downUntil ? 10 : 1);
      if (now < holdUntil) t = Math.max(t, holdUntil);
      at(t, 'connect', () => {
        if (this.readyState !== 0) return;
        if (now < downUntil) { fired.refused = (fired.refused || 0) + 1; this.readyState = 3; this.event('error', {}); this.closed(1006); return; }
        this.readyState = 1; opened = this; openEvents++;
        this.event('open', {});
      }, this.chan);
    }
    addEventListener(k, f) { (this.list[k] = this.list[k] || []).push(f); }
    removeEventListener(k, f) { if (this.list[k]) this.list[k] = this.list[k].filter((x) => x !== f); }
    event(k, ev) {
      ev.type = k; ev.target = this; say('event', k, this.id);
      const h = this['on' + k];
      if (typeof h === 'function') guarded('on' + k, () => h.call(this, ev));
      for (const f of this.list[k] || []) guarded('on' + k, () => f.call(this, ev));
    }
    closed(code) { // dispatch of the close event
      this.readyState = 3;
      const was = opened === this;
      if (was) opened = null;
      inClose = true;
      closeEvents++;
      const open = calls.filter((c) => c.sock === this && !c.end && !c.http);
      this.event('close', { code, wasClean: code === 1000 });
      inClose = false;
      after.push(() => { for (const c of open) if (!c.end) fail('not-failed', `call ${c.id} is still pending after the close event of its connection`); });
      closedAt = now;
    }
    send(data) {
      if (this.readyState === 0) { const e = new Error('InvalidStateError: still connecting'); throw e; }
      if (leading) return;
      let b = data instanceof ArrayBuffer ? new Uint8Array(data.slice(0)) : ArrayBuffer.isView(data) ? new Uint8Array(data.buffer.slice(data.byteOffset, data.byteOffset + data.byteLength)) : null;
      if (!b) { fail('wire', `send of a ${typeof data}`); return; }
      sent(this, b, cur);
      if (this.readyState !== 1 || this.dead || leading) return;
      let t = now + delay(); if (now < holdUntil) t = Math.max(t, holdUntil);
      at(t, 'deliver', () => { if (!this.dead) serve(this, b); }, this.up);
    }
    close() {
      if (this.readyState >= 2) return;
      const was = this.readyState;
      this.readyState = 2;
      at(now + delay(), 'closed', () => { if (this.readyState === 3) return; if (was === 0) this.event('error', {}); this.closed(was === 0 ? 1006 : 1000); }, this.chan);
    }
    // the server's side
    out(b, when, lone) {
      at(now + when, 'out', () => {
        if (this.dead || this.readyState === 3) return;
        this.pend.push(b);
        if (this.flushing) return;
        this.flushing = true;
        at(now + (lone ? 0 : plan.Batch), 'flush', () => {
          this.flushing = false;
          const list = this.pend; this.pend = [];
          if (list.length > 1) count('batched');
          const all = concat(list);
          let t = now + delay(); if (now < holdUntil) t = Math.max(t, holdUntil);
          at(t, 'message', () => {
            if (this.readyState !== 1 && this.readyState !== 2) return;
            if (this.dead) return;
            received(this, all);
          }, this.chan);
        });
      });
    }
    kill(code) { // connection lost: what is under way does not arrive
      if (this.dead || this.readyState >= 3) return;
      this.dead = true;
      at(now + delay(), 'lost', () => { if (this.readyState === 3) return; if (code === 1006) this.event('error', {}); this.closed(code); }, this.chan);
    }
  }
  class FakeXHR {
    constructor() { this.readyState = 0; this.status = 0; this.responseType = ''; this.response = ''; this.list = {}; }
    open(method, url) { this.method = method; this.url = url; this.readyState = 1; }
    setRequestHeader() {}
    addEventListener(k, f) { (this.list[k] = this.list[k] || []).push(f); }
    abort() { this.aborted = true; }
    fire(k) { if (typeof this['on' + k] === 'function') guarded('on' + k, () => this['on' + k].call(this, { type: k, target: this })); for (const f of this.list[k] || []) guarded('on' + k, () => f.call(this, { type: k, target: this })); }
    send(data) {
      if (this.readyState !== 1) throw new Error('InvalidStateError');
      const b = data instanceof ArrayBuffer ? new Uint8Array(data.slice(0)) : new Uint8Array(data.buffer.slice(data.byteOffset, data.byteOffset + data.byteLength));
      const c = cur;
      if (this.method !== 'PUT' || this.url !== '/bridge') fail('http', `${this.method} ${this.url}, the client was made for PUT /bridge`);
      const r = parse(b);
      if (r.bad || r.out.length !== 1) { fail('wire', `posted bytes: ${r.bad || r.out.length + ' frames'}`); return; }
      const f = r.out[0];
      if (!c || !c.http) { fail('wire', 'a post that belongs to no operation'); return; }
      checkFrame(f, c);
      c.sent++;
      c.seq = f.seq;
      if (c.notify) { at(now + delay(), 'http', () => this.done(200, new Uint8Array(0))); return; }
      const op = c.op;
      const w = delay() + op.Wait;
      if (op.R === 'never') return;
      at(now + w, 'http', () => {
        if (this.aborted) return;
        let body = new Uint8Array(0), status = 200;
        if (op.R === 'ok' || op.R === 'err') body = reply(c, f, op);
        if (op.R === 'status') status = 503;
        if (op.R === 'neterr') status = 0;
        const want = op.R === 'ok' || op.R === 'err' ? expect(op) : null;
        this.done(status, body);
        after.push(() => {
          if (want && !c.end) fail('lost', `HTTP call ${c.id}: its response arrived and the call is still pending`);
          if ((status !== 200) && !c.end) fail('lost', `HTTP call ${c.id}: the request failed with status ${status} and the call is still pending`);
        });
        if (!c.end0) { c.got = want; c.gotAt = now; c.httpFailed = status !== 200; }
      });
    }
    done(status, body) {
      this.status = status;
      const rt = this.responseType;
      this.response = rt === 'arraybuffer' ? body.buffer.slice(body.byteOffset, body.byteOffset + body.byteLength) : rt === '' || rt === 'text' ? dec(body) : body;
      for (const s of [2, 3, 4]) { this.readyState = s; this.fire('readystatechange'); }
      this.fire(status === 0 ? 'error' : 'load'); this.fire('loadend');
    }
  }

  // ---- what the client sends
  let shut = false, inClose = false, closedAt = 0, openEvents = 0, closeEvents = 0, onOpenCalls = 0, onCloseCalls = 0;
  const calls = [];
  let after = [];
  const pings = []; // pongs owed: counted per received ping
  let pongsDue = 0, pingsSent = [];
  function checkFrame(f, c) {
    if (f.reserved !== 0 || f.flag !== 0 || f.hi !== 0) fail('wire', `operation ${c.id}: reserved ${f.reserved}, flag ${f.flag}, high sequence ${f.hi}`);
    const cmd = c.notify ? NOTIFY : REQUEST;
    if (f.cmd !== cmd) fail('wire', `operation ${c.id}: command ${f.cmd} instead of ${cmd}`);
    if (f.method !== METHODS[c.op.M]) fail('wire', `operation ${c.id}: method ${clip(f.method)} instead of ${clip(METHODS[c.op.M])}`);
    const want = marshal(c.payload);
    if (dec(f.body) !== want) fail('wire', `operation ${c.id}: body ${clip(dec(f.body))} instead of ${clip(want)}`);
    for (const o of calls) if (o !== c && o.sent && !o.notify && !o.end && o.seq === f.seq) fail('sequence', `operations ${o.id} and ${c.id} are both under sequence ${f.seq}`);
  }
  function sent(ws, b, c) {
    const r = parse(b);
    if (r.bad || r.out.length !== 1) { fail('wire', `bytes sent: ${r.bad || r.out.length + ' frames'}`); return; }
    const f = r.out[0];
    if (f.cmd === PING) { if (f.body.length || f.method) fail('wire', 'a ping with a body'); pingsSent.push(now); say('ping'); return; }
    if (f.cmd === PONG) { pongsDue--; if (pongsDue < 0) fail('pong', 'a pong nobody asked for'); return; }
    if (!c) { if (leading) return; fail('wire', `a message that belongs to no operation: command ${f.cmd}`); return; }
    c.sent++;
    if (c.sent > 1) fail('wire', `operation ${c.id} was sent ${c.sent} times`);
    c.seq = f.seq; c.sock = ws;
    checkFrame(f, c);
    say('sent', c.kind, c.id, 'seq', f.seq);
  }
  function expect(op) { const v = unmarshal(marshal(PAYLOADS[op.RP]())); return op.R === 'err' ? { data: null, err: v } : { data: v, err: null }; }
  function reply(c, f, op) {
    const body = op.R === 'empty' ? new Uint8Array(0) : enc(marshal(PAYLOADS[op.RP]()));
    return frame(RESPONSE, op.R === 'err' ? 1 : 0, f.method, f.seq, body);
  }
  function serve(ws, b) {
    for (const f of parse(b).out) {
      if (f.cmd === PING) ws.out(frame(PONG, 0, '', 0, new Uint8Array(0)), 0);
      if (f.cmd !== REQUEST) continue;
      const c = calls.find((x) => x.sock === ws && x.seq === f.seq && !x.notify);
      if (!c) continue;
      const op = c.op;
      if (op.R === 'never') continue;
      const n = op.R === 'twice' ? 2 : 1;
      for (let i = 0; i < n; i++) ws.out(reply(c, f, op), op.Wait + i * 3);
    }
  }
  // ---- what the client receives in one message event
  const handled = [];
  let pushN = 0;
  function received(ws, all) {
    const list = parse(all).out;
    const due = [], wantHandled = [];
    const pongs0 = pongsDue;
    for (const f of list) {
      if (f.cmd === PING) { if (opened === ws && !shut) pongsDue++; continue; }
      if (f.cmd === RESPONSE) {
        const c = calls.find((x) => x.sock === ws && x.seq === f.seq && !x.notify && !x.end && !x.http && !due.some((d) => d.c === x));
        if (c) { const op = c.op; due.push({ c, want: op.R === 'empty' ? { data: unmarshal(''), err: null } : expect(op) }); c.want = due[due.length - 1].want; c.wantAt = now; }
        continue;
      }
      if ((f.cmd === NOTIFY || f.cmd === REQUEST) && f.method.startsWith('h')) wantHandled.push({ method: f.method, data: unmarshal(dec(f.body)) });
    }
    const h0 = handled.length;
    const ab = all.buffer.slice(all.byteOffset, all.byteOffset + all.byteLength);
    if (ws.binaryType !== 'arraybuffer') { fail('binary', `messages are received as ${ws.binaryType}`); return; }
    ws.event('message', { data: ab });
    const got = handled.slice(h0);
    if (!same(got, wantHandled)) fail('handled', `a message with ${list.length} frames should give ${clip(wantHandled)} to the handlers, gave ${clip(got)}`);
    if (pongsDue > 0 && !shut) fail('pong', `a message with ${list.length} frames: ${pongsDue} pings were not answered`);
    pongsDue = 0;
    counts.handled = (counts.handled || 0) + got.length;
    after.push(() => { for (const d of due) if (!d.c.end) fail('lost', `call ${d.c.id} (sequence ${d.c.seq}): its response arrived and the call is still pending`); });
  }

  // ---- the client
  const quiet = { log() {}, info() {}, warn() {}, error() {}, debug() {} };
  const win = { setTimeout: setTimeout_, clearTimeout: clear, setInterval: setInterval_, clearInterval: clear, WebSocket: FakeWebSocket, XMLHttpRequest: FakeXHR, Date: FakeDate, console: quiet, TextEncoder, TextDecoder, location: { href: 'http://x/' } };
  win.window = win; win.self = win; win.globalThis = win;
  win.Math = Object.create(Math, { random: { value: () => g.next() / 4294967296 } });
  win.performance = { now: () => now };
  const ArpcClient = factory(win);
  let client, leading = false;
  guarded('the constructor', () => { client = new ArpcClient('ws://x/ws', undefined, '/bridge', 'PUT'); });
  if (!client) { return { V: violation, Hash: hash, Log: log, counts, fired, events, Sim: now, nontrivial: false }; }
  client.onOpen = () => { onOpenCalls++; if (plan.OpenCall && calls.length < 80) doCall({ K: 'call', Id: 3000 + calls.length, M: 0, P: 0, Timeout: 1000, Cb: 1, R: 'ok', Wait: 0, RP: 0 }); if (plan.OpenThrow) throw new Error(MARK); };
  client.onClose = () => {
    onCloseCalls++;
    if (plan.CloseHook === 'call' && calls.length < 80) doCall({ K: 'call', Id: 1000 + calls.length, M: 0, P: 0, Timeout: 0, Cb: 0, R: 'ok', Wait: 0, RP: 0 });
    if (plan.CloseHook === 'shutdown') doShutdown();
    if (plan.CloseHook === 'throw') throw new Error(MARK);
  };
  for (const m of ['h0', 'h1', 'h größe', 'hthrow']) {
    client.handle(m, (ctx) => { handled.push({ method: ctx.method, data: ctx.data }); if (m === 'hthrow') throw new Error(MARK); });
  }
  let dup = false;
  try { client.handle('h0', () => {}); } catch (e) { dup = true; }
  if (!dup) fail('handle', 'a second handler for a method was taken');

  function end(c, how, ret) {
    c.ends = (c.ends || 0) + 1;
    say('end', c.kind, c.id, how, clip(ret));
    if (c.ends > 1) { fail('twice', `${c.kind} ${c.id}: its ${how} was called ${c.ends} times, now with ${clip(ret)}`); return; }
    c.end = true; c.end0 = true; c.endAt = now; c.ret = ret; count('ended');
    if (!ret || typeof ret !== 'object') { fail('result', `${c.kind} ${c.id}: ${clip(ret)}`); return; }
    const err = ret.err;
    if (c.refused !== undefined) { if (err !== c.refused) fail('result', `${c.kind} ${c.id} made while the client is not connected: ${clip(ret)}`); if (now !== c.t0) fail('late', `${c.kind} ${c.id} was refused after ${now - c.t0} ms`); return; }
    const timeout = c.op.Timeout > 0 && now - c.t0 >= c.op.Timeout;
    const want = c.http ? c.got : c.want, wantAt = c.http ? c.gotAt : c.wantAt;
    if (want && wantAt === now && same({ data: ret.data, err: ret.err }, want)) { count('answered'); mix('a'); return; }
    if (err === 'timeout') { if (!timeout) fail('early', `${c.kind} ${c.id} timed out after ${now - c.t0} of ${c.op.Timeout} ms`); else count('timeout'); mix('t'); return; }
    if (err === '[error disconnected]') { if (!inClose && !(closedAt === now)) fail('result', `${c.kind} ${c.id} ended with ${err}, no connection was lost now`); count('disconnected'); mix('d'); return; }
    if (c.http && err) { if (!pendingHttpFail(c)) fail('result', `HTTP call ${c.id} ended with ${clip(ret)}`); count('http_failed'); return; }
    if (c.http) { fail('result', `HTTP call ${c.id} ended with ${clip(ret)}, should be ${clip(want || 'pending')}`); return; }
    fail('result', `call ${c.id} (sequence ${c.seq}) ended with ${clip(ret)}, should be ${clip(want || 'pending')}`);
  }
  const pendingHttpFail = (c) => c.op.R === 'status' || c.op.R === 'neterr';
  function doCall(op) {
    const c = { id: op.Id, kind: op.K, op, http: op.K === 'http', t0: now, sent: 0, payload: PAYLOADS[op.P](), notify: false };
    calls.push(c);
    if (shut) c.refused = '[client stopped]'; else if (!opened) c.refused = '[error reconnecting]';
    // an HTTP response is known before its callback runs
    if (c.http && (op.R === 'ok' || op.R === 'err')) { Object.defineProperty(c, 'got', { get: () => expect(op), set() {}, configurable: true }); Object.defineProperty(c, 'gotAt', { get: () => now, set() {}, configurable: true }); }
    let cb;
    if (op.Cb > 0) cb = (ret) => {
      end(c, 'callback', ret);
      if (op.Cb === 3 && calls.length < 80) { doCall({ K: 'call', Id: 2000 + calls.length, M: 0, P: 1, Timeout: 50, Cb: 1, R: 'ok', Wait: 1, RP: 1 }); }
      if (op.Cb === 2) throw new Error(MARK);
    };
    const prev = cur; cur = c;
    let p;
    guarded('call', () => { p = c.http ? client.callHttp(METHODS[op.M], c.payload, op.Timeout, cb) : client.call(METHODS[op.M], c.payload, op.Timeout, cb); });
    cur = prev;
    say(c.kind, c.id, 'timeout', op.Timeout, c.refused || '');
    if (!cb) { if (!p || typeof p.then !== 'function') fail('result', `${c.kind} ${c.id} returned no promise`); else p.then((ret) => end(c, 'promise', ret), (e) => fail('result', `${c.kind} ${c.id} was rejected: ${e}`)); }
    if (c.refused !== undefined) { if (c.sent) fail('wire', `${c.kind} ${c.id} was refused and sent`); } else if (!c.sent) fail('wire', `${c.kind} ${c.id} was not sent`);
    if (op.Timeout > 0) at(now + op.Timeout + 1, 'expect', () => { if (!c.end) fail('no-timeout', `${c.kind} ${c.id} with timeout ${op.Timeout} ms is pending after ${now - c.t0} ms`); });
    if (c.refused !== undefined) after.push(() => { if (!c.end) fail('late', `${c.kind} ${c.id}, made while the client is not connected, is pending`); });
  }
  function doNotify(op) {
    const c = { id: op.Id, kind: op.K, op, http: op.K === 'httpn', notify: true, t0: now, sent: 0, payload: PAYLOADS[op.P](), end: true };
    calls.push(c);
    const refused = shut ? '[client stopped]' : !opened ? '[error reconnecting]' : undefined;
    const prev = cur; cur = c;
    let ret;
    guarded('notify', () => { ret = c.http ? client.notifyHttp(METHODS[op.M], c.payload) : client.notify(METHODS[op.M], c.payload); });
    cur = prev;
    if (refused) { if (c.sent) fail('wire', `${c.kind} ${c.id} was sent while the client is not connected`); if (!c.http && ret !== refused) fail('result', `notify ${c.id} while not connected returned ${clip(ret)}`); } else if (c.sent !== 1) fail('wire', `${c.kind} ${c.id} was sent ${c.sent} times`);
  }
  function doShutdown() { if (shut) return; say('shutdown'); shut = true; guarded('shutdown', () => client.shutdown()); }

  if (plan.Lead) at(0, 'lead', function lead() { // sequence numbers above a byte
    if (shut) return;
    if (!opened) { at(now + 1, 'lead', lead); return; }
    leading = true;
    for (let i = 0; i < plan.Lead; i++) client.notify('q', 'x');
    leading = false;
  });
  if (plan.Keep) {
    guarded('keepalive', () => { client.keepalive(plan.Keep); client.keepalive(plan.Keep); });
    let n0 = 0;
    let since = null, sock = null;
    const watch = (d) => at(now + d, 'watch', () => { // halfway between the ticks
      if (shut) return;
      if (opened && opened === sock && openEvents === since) {
        const k = pingsSent.filter((t) => t > now - plan.Keep).length;
        if (k < 1 || k > 2) fail('keepalive', `${k} pings in ${plan.Keep} ms of a connection, the keepalive interval`);
      }
      sock = opened; since = openEvents;
      if (now < 120000 && faultsOn) watch(plan.Keep);
    });
    watch(plan.Keep * 1.5);
  }
  for (const op of plan.Ops) {
    at(op.T, 'op', () => {
      mix(op.K);
      switch (op.K) {
        case 'call': case 'http': doCall(op); break;
        case 'notify': case 'httpn': doNotify(op); break;
        case 'shutdown': doShutdown(); break;
        case 'push': if (opened && !opened.dead) opened.out(frame(op.Req ? REQUEST : NOTIFY, 0, op.Unknown ? 'nobody' : op.Throw ? 'hthrow' : ['h0', 'h1', 'h größe'][op.M % 3], op.Id + 5, enc(marshal(PAYLOADS[op.P]()))), 0); break;
        case 'ping': if (opened && !opened.dead) opened.out(frame(PING, 0, '', 0, new Uint8Array(0)), 0); break;
        case 'odd': if (opened && !opened.dead) opened.out(frame(op.P & 1 ? PONG : op.P & 2 ? NOTIFY : 77, 0, op.P & 3 ? '' : 'h0', 0, enc(op.P & 3 ? '' : 'odd')), 0); break;
        case 'stray': if (opened && !opened.dead) opened.out(frame(RESPONSE, op.P & 1, 'echo', 0x7ffffff0 - op.Id, enc('stray')), 0); break;
      }
    });
  }
  for (const f of plan.Faults) {
    at(f.T, 'fault', () => {
      mix(f.K); fired[f.K] = (fired[f.K] || 0) + 1;
      say('fault', f.K, f.Dur);
      if (f.K === 'drop' && opened) opened.kill(1006);
      if (f.K === 'close' && opened) opened.kill(1000);
      if (f.K === 'hold') holdUntil = Math.max(holdUntil, now + f.Dur);
      if (f.K === 'down') { downUntil = Math.max(downUntil, now + f.Dur); if (opened) opened.kill(1006); }
    });
  }

  // ---- the loop
  async function settle() { for (let i = 0; i < 6; i++) await null; const a = after; after = []; for (const f of a) f(); }
  async function until(t, max) {
    while (q.length && q[0].t <= t && !violation) {
      const e = pop();
      now = e.t;
      if (++events > max) { fail('livelock', `${events} events at ${now} ms`); return; }
      mix(e.name + now);
      e.fn();
      await settle();
    }
    now = Math.max(now, t);
  }
  let stopErr = null;
  try {
    await settle();
    let horizon = 200; for (const o of plan.Ops) horizon = Math.max(horizon, o.T); for (const f of plan.Faults) horizon = Math.max(horizon, f.T + f.Dur);
    const M = 400000;
    await until(horizon, M);
    faultsOn = false;
    let tail = 3000; for (const o of plan.Ops) tail = Math.max(tail, (o.Timeout || 0) + 3000, (o.Wait || 0) + 3000);
    await until(horizon + tail, M);
    if (!violation && !shut) {
      if (!opened) fail('not-connected', 'the client is not connected though the server has been reachable for seconds');
      else {
        const n = calls.length;
        doCall({ K: 'call', Id: 5000, M: 0, P: 1, Timeout: 5000, Cb: 0, R: 'ok', Wait: 0, RP: 1 });
        const c = calls[n];
        await until(now + 5001, M);
        if (!violation && !(c.end && c.ret && !c.ret.err)) fail('dead', `a call in the end returned ${clip(c.ret)}`);
        doShutdown();
      }
    }
    await until(now + 3000, M);
    if (!violation) {
      for (const c of calls) if (!c.end && !c.http) fail('pending', `call ${c.id} has not ended after shutdown`);
      for (const s of socks) if (s.readyState < 2) fail('leak', `connection ${s.id} is open after shutdown`);
      const left = [...timers.values()];
      if (left.length && !calls.some((c) => !c.end)) fail('timer', `${left.length} timers (${left[0].kind}) are left after shutdown`);
      if (onOpenCalls !== openEvents) fail('hooks', `${openEvents} connections were opened, onOpen was called ${onOpenCalls} times`);
      if (onCloseCalls !== closeEvents) fail('hooks', `${closeEvents} connections were closed, onClose was called ${onCloseCalls} times`);
    }
  } catch (e) {
    if (!(e instanceof Stop)) throw e;
    fail('livelock', e.message);
  }
  counts.calls = calls.length;
  return { V: violation, Hash: hash, Log: log, counts, fired, events, Sim: now, nontrivial: (counts.answered || 0) > 0 };
}

function load(file) {
  const src = require('fs').readFileSync(file, 'utf8');
  const names = ['window', 'self', 'setTimeout', 'clearTimeout', 'setInterval', 'clearInterval', 'WebSocket', 'XMLHttpRequest', 'Date', 'console', 'TextEncoder', 'TextDecoder', 'Math', 'performance', 'location', 'globalThis'];
  const f = new Function(...names, src + '\n;return ArpcClient;');
  return (win) => f(...names.map((n) => win[n]));
}

module.exports = { Rng, genPlan, run, load };
