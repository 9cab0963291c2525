'use strict';
// A client in its environment, with the model that says what must happen.
const { newEnv, encode, decode, join, bytes } = require('./env');

class Violation extends Error {}
function assert(c, msg) { if (!c) throw new Violation(typeof msg === 'function' ? msg() : msg); }
const J = x => { try { const s = JSON.stringify(x); return s && s.length > 120 ? s.slice(0, 120) + '...' : String(s); } catch (e) { return String(x); } };

const CLOSED = '[client stopped]', RECONNECTING = '[error reconnecting]', DISCONNECTED = '[error disconnected]';

const names = ['window', 'self', 'WebSocket', 'XMLHttpRequest', 'setTimeout', 'setInterval', 'clearTimeout', 'clearInterval', 'console', 'Date'];
function load(src) {
  return new Function(...names, src + '\n;return { ArpcClient: ArpcClient };');
}

const flush = async () => { for (let i = 0; i < 8; i++) await null; };

class Sys {
  constructor(factory, x, opt) {
    opt = opt || {};
    this.x = x;
    this.env = newEnv();
    this.lib = factory(...names.map(n => this.env.globals[n]));
    this.calls = [];
    this.got = []; // what handlers saw
    this.want = [];
    this.hist = [];
    this.state = 'connecting';
    this.hooks = [];
    this.wantHooks = [];
    this.opens = 0;
    this.pings = 0;
    this.serial = 0;
    this.sent = []; // frames of the model's expectation: {cmd, method, data}
    this.seen = 0;
    const c = this.cli = new this.lib.ArpcClient('ws://host/ws', opt.codec, opt.httpUrl, opt.httpMethod);
    c.onOpen = () => { this.hooks.push('open'); this.run('open'); };
    c.onClose = () => { this.hooks.push('close'); this.run('close'); };
    c.onError = () => { this.hooks.push('error'); };
    for (const m of ['/n', '/o']) c.handle(m, ctx => { this.got.push([ctx.method, ctx.data]); this.run('handler'); });
    assert(this.env.socks.length === 1, 'the client opened ' + this.env.socks.length + ' sockets');
  }
  get ws() { return this.env.socks[this.env.socks.length - 1]; }
  // what a hook, handler or callback does, once
  run(where) {
    if (this.inside && this.inside.where === where) {
      const f = this.inside.f;
      this.inside = null;
      f();
    }
  }
  note(s) { this.hist.push(s); this.x.step(); }

  // user actions
  call(style, timeout, http, method, data) {
    const i = this.calls.length;
    const k = { i, http, timeout, out: [], want: [], method: method || '/m', arg: data === undefined ? 'q' + i : data, at: this.env.timers.now, waiting: false };
    this.calls.push(k);
    const before = this.nsent(), xb = this.env.xhrs.length;
    if (this.state === 'closed') k.want.push({ data: null, err: CLOSED });
    else if (this.state === 'connecting') k.want.push({ data: null, err: RECONNECTING });
    else k.waiting = true;
    const cb = r => { k.out.push(r); this.run('callback'); };
    const sock = this.ws;
    const f = http ? this.cli.callHttp : this.cli.call;
    const p = f.call(this.cli, k.method, k.arg, timeout, style === 'cb' ? cb : undefined);
    if (style !== 'cb') {
      assert(p && typeof p.then === 'function', 'a call without callback returned ' + J(p));
      p.then(cb, e => { k.out.push({ rejected: String(e) }); });
    }
    if (k.waiting) {
      let f;
      if (http) {
        assert(this.env.xhrs.length === xb + 1 && this.nsent() === before, 'a call over HTTP made ' + (this.env.xhrs.length - xb) + ' HTTP requests and sent ' + (this.nsent() - before) + ' messages');
        k.xhr = this.env.xhrs[xb];
        assert(k.xhr.method === (this.cli.httpMethod || 'POST') && k.xhr.url === (this.cli.httpUrl || '/'), 'HTTP request ' + k.xhr.method + ' ' + k.xhr.url);
        f = decode(k.xhr.body);
      } else {
        assert(this.nsent() === before + 1 && this.env.xhrs.length === xb, 'a call sent ' + (this.nsent() - before) + ' messages');
        k.sock = sock;
        f = decode(sock.sent[sock.sent.length - 1]);
      }
      this.frame(f, 1, k.method, k.arg);
      k.seq = f.seq; k.seqHi = f.seqHi;
      for (const o of this.calls) assert(o === k || !o.waiting || o.seq !== k.seq || o.seqHi !== k.seqHi, 'two waiting calls with sequence number ' + k.seq);
    } else {
      assert(this.nsent() === before && this.env.xhrs.length === xb, 'a call was sent while ' + this.state);
    }
    return k;
  }
  frame(f, cmd, method, arg) {
    assert(f, 'a malformed frame was sent');
    assert(f.cmd === cmd && f.flag === 0 && f.reserved === 0 && f.method === method, () => 'sent ' + J(f) + ', want command ' + cmd + ' method ' + method);
    const want = arg === undefined || arg === null ? '' : typeof arg === 'string' ? arg : JSON.stringify(arg);
    const g = new TextDecoder('utf-8').decode(f.data);
    assert(g === want, () => 'sent data ' + J(g) + ', want ' + J(want));
  }
  nsent() { return this.env.socks.reduce((n, s) => n + s.sent.length, 0); }
  // one frame must have been sent by f, or none
  one(f, cmd, method, arg, http) {
    const before = this.nsent(), xb = this.env.xhrs.length, sock = this.ws;
    const r = f();
    if (this.state !== 'connected') {
      assert(this.nsent() === before && this.env.xhrs.length === xb, 'a message was sent while ' + this.state);
      if (!http) assert(r === (this.state === 'closed' ? CLOSED : RECONNECTING), 'returned ' + J(r) + ' while ' + this.state);
      return;
    }
    if (http) {
      assert(this.env.xhrs.length === xb + 1 && this.nsent() === before, 'HTTP notification: ' + (this.env.xhrs.length - xb) + ' requests');
      this.frame(decode(this.env.xhrs[xb].body), cmd, method, arg);
      return;
    }
    assert(this.nsent() === before + 1, 'sent ' + (this.nsent() - before) + ' messages');
    this.frame(decode(sock.sent[sock.sent.length - 1]), cmd, method, arg);
  }
  notify(data, method, http) {
    method = method || '/x';
    this.one(() => http ? this.cli.notifyHttp(method, data) : this.cli.notify(method, data), 3, method, data, http);
  }
  ping() { this.one(() => this.cli.ping(), 4, '', null); }
  shutdown() {
    this.cli.shutdown();
    this.state = 'closed';
    assert(this.env.socks.every(s => s.readyState >= 2), 'a socket stays open after shutdown');
  }

  // what the other side does
  open() { this.state = this.state === 'closed' ? 'closed' : 'connected'; this.wantHooks.push('open'); this.ws.netOpen(); }
  close(err) {
    const ws = this.ws;
    if (err) this.wantHooks.push('error');
    this.wantHooks.push('close');
    for (const k of this.calls) if (k.waiting) { k.waiting = false; k.want.push({ data: null, err: DISCONNECTED }); }
    if (this.state !== 'closed') this.state = 'connecting';
    ws.netClose(err);
    if (this.state === 'closed') {
      assert(this.ws === ws, 'a socket was opened after shutdown');
      return;
    }
    for (let n = 0; this.ws === ws && n < 100 && this.env.timers.next(); n++) this.env.timers.fire();
    assert(this.ws !== ws, 'the client does not reconnect');
    assert(this.ws.readyState === 0 && this.ws.url === ws.url, 'reconnecting to ' + this.ws.url);
  }
  // a message and what it must lead to
  msg(kind, k, data) {
    const d = data === undefined ? { v: ++this.serial } : data;
    const raw = typeof d === 'string' ? d : JSON.stringify(d);
    switch (kind) {
      case 'resp':
        if (k.waiting) { k.waiting = false; k.want.push({ data: d, err: null }); }
        return encode({ cmd: 2, method: k.method, seq: k.seq, seqHi: k.seqHi, data: raw });
      case 'empty':
        if (k.waiting) { k.waiting = false; k.want.push({ data: '', err: null }); }
        return encode({ cmd: 2, method: k.method, seq: k.seq, seqHi: k.seqHi });
      case 'fail': {
        const e = typeof data === 'string' ? data : 'error ' + ++this.serial;
        if (k.waiting) { k.waiting = false; k.want.push({ data: null, err: e }); }
        return encode({ cmd: 2, flag: 1, method: k.method, seq: k.seq, seqHi: k.seqHi, data: e });
      }
      case 'stray': return encode({ cmd: 2, method: '/m', seq: 0xfffffe, data: raw });
      case 'notify': this.want.push(['/n', d]); return encode({ cmd: 3, method: '/n', seq: 77, data: raw });
      case 'bare': this.want.push(['/o', '']); return encode({ cmd: 3, method: '/o', seq: 78 });
      case 'request': this.want.push(['/o', d]); return encode({ cmd: 1, method: '/o', seq: 79, data: raw });
      case 'unknown': return encode({ cmd: 3, method: '/unknown', seq: 80, data: raw });
      case 'command': return encode({ cmd: 9, method: '/n', seq: 81, data: raw });
      case 'nomethod': return encode({ cmd: 3, seq: 82, data: raw });
      case 'ping': this.pongs = (this.pongs || 0) + 1; return encode({ cmd: 4 });
      case 'pong': return encode({ cmd: 5 });
    }
    throw new Error(kind);
  }
  // deliver messages, given by functions, as one WebSocket message
  deliver(fs) {
    if (this.ws.readyState !== 1) return;
    const before = this.nsent();
    this.pongs = 0;
    const l = fs.map(f => f());
    const sock = this.ws;
    sock.netMessage(join(l));
    if (!this.reent) {
      assert(this.nsent() === before + this.pongs, 'sent ' + (this.nsent() - before) + ' messages for ' + this.pongs + ' pings');
      for (let i = 0; i < this.pongs; i++) this.frame(decode(sock.sent[sock.sent.length - 1 - i]), 5, '', null);
    }
  }
  // HTTP
  http(k, status, f) {
    let b;
    if (status === 200) b = f();
    else if (k.waiting) { k.waiting = false; k.want.push('any error'); }
    k.xhr.netDone(status, b);
  }
  // time passes up to the next timer
  tick() {
    const t = this.env.timers.next();
    if (!t) return false;
    for (const k of this.calls) {
      if (k.waiting && k.timeout > 0 && k.at + k.timeout <= t.at) { k.waiting = false; k.want.push({ data: null, err: 'timeout' }); }
    }
    const at = t.at;
    do this.env.timers.fire(); while (this.env.timers.next() && this.env.timers.next().at <= at);
    return true;
  }
  // up to time t
  until(t) {
    while (this.env.timers.next() && this.env.timers.next().at <= t) this.tick();
    this.env.timers.now = Math.max(this.env.timers.now, t);
  }

  async check() {
    await flush();
    for (const k of this.calls) {
      const w = k.want.length === k.out.length && k.want.every((x, i) => x === 'any error' ? k.out[i] && k.out[i].err : k.out[i] && JSON.stringify(x.data) === JSON.stringify(k.out[i].data === undefined ? null : k.out[i].data) && x.err === k.out[i].err);
      assert(w, () => 'call ' + k.i + (k.http ? ' (HTTP)' : '') + ' settled with ' + J(k.out) + ', must be ' + J(k.want));
    }
    assert(JSON.stringify(this.got) === JSON.stringify(this.want), () => 'handlers saw ' + J(this.got) + ', must be ' + J(this.want));
    assert(JSON.stringify(this.hooks) === JSON.stringify(this.wantHooks), () => 'hooks ran: ' + J(this.hooks) + ', must be ' + J(this.wantHooks));
    if (!this.throws) assert(this.env.escaped.length === 0, () => 'an exception escaped: ' + this.env.escaped[0]);
    const open = this.env.socks.filter(s => s.readyState < 2).length;
    assert(open === (this.state === 'closed' ? 0 : 1), () => open + ' sockets in use while ' + this.state);
    const timers = this.env.timers.list.length;
    const need = this.calls.filter(k => k.waiting && k.timeout > 0).length + (this.keep ? 1 : 0);
    assert(timers === need, () => timers + ' timers, but ' + need + ' needed');
    this.x.state(this.state + '|' + this.calls.map(k => (k.http ? 'h' : 'w') + (k.timeout > 0 ? 't' : '') + (k.waiting ? '?' : J(k.out))).join() + '|' + this.hooks.length + '|' + this.got.length + '|' + timers);
  }
  // number of objects reachable from the client, apart from the sockets
  size() {
    const seen = new Set();
    const walk = o => {
      if (o === null || typeof o !== 'object' || seen.has(o) || o.sent || ArrayBuffer.isView(o)) return;
      seen.add(o);
      if (o instanceof Map) for (const [a, b] of o) { walk(a); walk(b); }
      if (o instanceof Set) for (const a of o) walk(a);
      for (const k of Object.keys(o)) walk(o[k]);
    };
    walk(this.cli);
    return seen.size;
  }
}

module.exports = { Sys, Violation, assert, load, flush, J };
