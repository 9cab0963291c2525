'use strict';
// The controlled environment of the browser client: virtual time, a simulated
// WebSocket and XMLHttpRequest, and an independent implementation of the frame
// format. Nothing happens unless the explorer makes it happen.

class Timers {
  constructor(bad) { this.bad = bad; this.now = 0; this.id = 0; this.list = []; }
  set(f, d, every, args) {
    d = Math.max(Number(d) || 0, every ? 1 : 0);
    this.list.push({ id: ++this.id, at: this.now + d, f, every: every ? d : 0, args });
    return this.id;
  }
  clear(id) { this.list = this.list.filter(t => t.id !== id); }
  next() {
    let b = null;
    for (const t of this.list) if (!b || t.at < b.at || t.at === b.at && t.id < b.id) b = t;
    return b;
  }
  fire() {
    const t = this.next();
    if (!t) return false;
    this.now = Math.max(this.now, t.at);
    if (t.every) { t.at = this.now + t.every; } else this.clear(t.id);
    try { t.f(...t.args); } catch (e) { this.bad.push(e); } // reaches the event loop
    return true;
  }
}

class Target {
  constructor() { this.lis = {}; }
  addEventListener(n, f) { (this.lis[n] = this.lis[n] || []).push(f); }
  removeEventListener(n, f) { this.lis[n] = (this.lis[n] || []).filter(x => x !== f); }
  emit(n, ev) {
    ev = Object.assign({ type: n, target: this }, ev);
    const l = (this.lis[n] || []).slice();
    if (typeof this['on' + n] === 'function') l.unshift(this['on' + n]);
    let bad = null;
    for (const f of l) { try { f.call(this, ev); } catch (e) { bad = bad || e; } }
    return bad; // an exception that reaches the event loop
  }
}

function newEnv() {
  const env = { socks: [], xhrs: [], escaped: [] };
  env.timers = new Timers(env.escaped);
  const tm = env.timers;
  class WebSocket extends Target {
    constructor(url) {
      super();
      this.url = url; this.readyState = 0; this.binaryType = 'blob'; this.sent = []; this.bufferedAmount = 0;
      this.onopen = this.onclose = this.onerror = this.onmessage = null;
      env.socks.push(this);
    }
    send(d) {
      if (this.readyState === 0) throw new Error('InvalidStateError');
      if (this.readyState !== 1) return; // discarded
      this.sent.push(bytes(d));
    }
    close() { if (this.readyState < 2) { this.readyState = 2; } }
    // what the network does
    netOpen() { this.readyState = 1; this.emit2('open'); }
    netClose(err) { this.readyState = 3; if (err) this.emit2('error'); this.emit2('close', { code: 1006 }); }
    netMessage(u8) {
      if (this.readyState !== 1) return;
      this.emit2('message', { data: this.binaryType === 'arraybuffer' ? u8.buffer.slice(u8.byteOffset, u8.byteOffset + u8.byteLength) : { blob: true } });
    }
    emit2(n, ev) { const e = this.emit(n, ev); if (e) env.escaped.push(e); }
  }
  for (const [k, v] of [['CONNECTING', 0], ['OPEN', 1], ['CLOSING', 2], ['CLOSED', 3]]) { WebSocket[k] = v; WebSocket.prototype[k] = v; }
  class XMLHttpRequest extends Target {
    constructor() { super(); this.readyState = 0; this.status = 0; this.responseType = ''; this.response = ''; this.responseText = ''; this.headers = {}; this.timeout = 0; this.onreadystatechange = this.onload = this.onerror = this.onloadend = null; }
    open(m, u) { this.method = m; this.url = u; this.readyState = 1; }
    setRequestHeader(k, v) { this.headers[k] = v; }
    getResponseHeader() { return null; }
    send(d) { if (this.readyState !== 1) throw new Error('InvalidStateError'); this.body = d == null ? new Uint8Array(0) : bytes(d); this.pending = true; env.xhrs.push(this); }
    abort() { this.pending = false; }
    emit2(n, ev) { const e = this.emit(n, ev); if (e) env.escaped.push(e); }
    netDone(status, u8) {
      if (!this.pending) return;
      this.pending = false;
      this.status = status;
      if (status) {
        this.readyState = 2; this.emit2('readystatechange');
        this.readyState = 3; this.emit2('readystatechange');
      }
      u8 = u8 || new Uint8Array(0);
      if (this.responseType === 'arraybuffer') this.response = status ? u8.buffer.slice(u8.byteOffset, u8.byteOffset + u8.byteLength) : null;
      else { this.response = this.responseText = status ? new TextDecoder('utf-8').decode(u8) : ''; }
      this.readyState = 4;
      this.emit2('readystatechange');
      this.emit2(status ? 'load' : 'error');
      this.emit2('loadend');
    }
  }
  env.globals = {
    WebSocket, XMLHttpRequest,
    setTimeout: (f, d, ...a) => tm.set(f, d, false, a),
    setInterval: (f, d, ...a) => tm.set(f, d, true, a),
    clearTimeout: id => tm.clear(id),
    clearInterval: id => tm.clear(id),
    console: { log() {}, info() {}, warn() {}, error() {}, debug() {} },
    Date: Object.assign(function () { return new Date(tm.now); }, { now: () => tm.now }),
  };
  env.globals.window = Object.assign({}, env.globals);
  env.globals.self = env.globals.window;
  return env;
}

function bytes(d) {
  if (d instanceof Uint8Array) return d.slice();
  if (d instanceof ArrayBuffer) return new Uint8Array(d.slice(0));
  if (ArrayBuffer.isView(d)) return new Uint8Array(d.buffer.slice(d.byteOffset, d.byteOffset + d.byteLength));
  return new TextEncoder().encode(String(d));
}

// frame format: length(4) reserved cmd flag methodLen seq(8) method data
function encode(f) {
  const m = new TextEncoder().encode(f.method || ''), d = bytes(f.data || '');
  const b = new Uint8Array(16 + m.length + d.length), v = new DataView(b.buffer);
  v.setUint32(0, f.len === undefined ? m.length + d.length : f.len, true);
  b[5] = f.cmd; b[6] = f.flag || 0; b[7] = f.ml === undefined ? m.length : f.ml;
  v.setUint32(8, f.seq || 0, true); v.setUint32(12, f.seqHi || 0, true);
  b.set(m, 16); b.set(d, 16 + m.length);
  return b;
}
function decode(b) {
  if (b.length < 16) return null;
  const v = new DataView(b.buffer, b.byteOffset, b.byteLength), n = v.getUint32(0, true), ml = b[7];
  if (b.length !== 16 + n || ml > n) return null;
  return { cmd: b[5], flag: b[6], reserved: b[4], seq: v.getUint32(8, true), seqHi: v.getUint32(12, true), method: new TextDecoder('utf-8').decode(b.subarray(16, 16 + ml)), data: b.slice(16 + ml) };
}
function join(l) {
  const b = new Uint8Array(l.reduce((n, x) => n + x.length, 0));
  let o = 0;
  for (const x of l) { b.set(x, o); o += x.length; }
  return b;
}

module.exports = { newEnv, encode, decode, join, bytes };
