'use strict';
const { Sys, assert, flush, J } = require('./sys');
const { encode, join } = require('./env');

const kinds = ['resp', 'empty', 'fail', 'stray', 'notify', 'bare', 'request', 'unknown', 'command', 'nomethod', 'ping', 'pong'];
const scen = {};

// every sequence of events up to a depth
scen.events = {
  units: th => {
    const u = [];
    for (let first = 0; first < 15; first++) for (let second = 0; second < 15; second++) u.push({ n: th ? 7 : 6, first, second });
    return u;
  },
  async run(f, x, p) {
    const s = new Sys(f, x);
    if (p.first !== 14) { s.open(); await s.check(); }
    for (let i = 0; i < p.n; i++) {
      const w = s.calls.filter(k => k.waiting), d = s.calls.filter(k => k.seq !== undefined && !k.waiting);
      const ev = [
        s.calls.length < 3 && (() => s.call('p', 0)),
        s.calls.length < 3 && (() => s.call('cb', 10)),
        s.calls.length < 3 && (() => s.call('p', 20)),
        s.ws.readyState === 1 && w.length && (() => s.deliver([() => s.msg('resp', w[0])])),
        s.ws.readyState === 1 && w.length > 1 && (() => s.deliver([() => s.msg('resp', w[w.length - 1])])),
        s.ws.readyState === 1 && w.length && (() => s.deliver([() => s.msg('fail', w[w.length - 1])])),
        s.ws.readyState === 1 && d.length && (() => s.deliver([() => s.msg('resp', d[d.length - 1])])),
        s.ws.readyState === 1 && (() => s.deliver([() => s.msg('ping'), () => s.msg('notify')])),
        s.env.timers.list.length && (() => s.tick()),
        s.ws.readyState < 3 && (() => s.close(false)),
        s.ws.readyState < 3 && (() => s.close(true)),
        s.ws.readyState === 0 && s.state !== 'closed' && (() => s.open()),
        s.state !== 'closed' && (() => s.shutdown()),
        () => s.notify('x'),
        () => {},
      ];
      let c;
      if (i === 0) c = p.first; else if (i === 1) c = p.second;
      if (i < 2) {
        if (!ev[c]) return; // not possible here
      } else {
        const l = [];
        for (let j = 0; j < 14; j++) if (ev[j]) l.push(j);
        c = l[x.choose(l.length)];
      }
      s.note('e' + c);
      ev[c]();
      await s.check();
    }
  },
};

// several messages in one WebSocket message
scen.batch = {
  units: th => {
    const u = [];
    for (const a of kinds) for (const b of kinds) for (const n of th ? [2, 3, 4] : [2, 3]) u.push({ a, b, n });
    return u;
  },
  async run(f, x, p) {
    const s = new Sys(f, x);
    s.open();
    for (let i = 0; i < 3; i++) s.call(i % 2 ? 'cb' : 'p', i === 2 ? 50 : 0);
    await s.check();
    const list = [p.a, p.b];
    for (let i = 2; i < p.n; i++) list.push(kinds[x.choose(kinds.length)]);
    const same = x.choose(3); // which call is answered
    s.note(list.join());
    let j = 0;
    s.deliver(list.map(kind => () => {
      const k = same === 0 ? s.calls[0] : s.calls[same === 1 ? j++ % 3 : 2 - j++ % 3];
      return s.msg(kind, k);
    }));
    await s.check();
    s.deliver([() => s.msg('notify')]);
    await s.check();
    const k = s.call('p', 0);
    s.deliver([() => s.msg('resp', k)]);
    await s.check();
  },
};

// methods and payloads of all shapes, in both directions
const texts = ['a', '/m', 'x'.repeat(15), 'x'.repeat(16), 'x'.repeat(127), '\u00e9', '/m\u4e2d\u6587', '\u{1f600}', '/\u00e9\u4e2d\u{1f600}z', 'toString', 'constructor', '__proto__'];
const values = ['t', 'plain text', '', 0, 1, -5, 1.5, true, false, null, [], [1, 2, 3], {}, { a: 1 }, { a: [1, { b: 'c' }] }, 'y'.repeat(300), 'z'.repeat(70000), '\u00e9\u4e2d\u{1f600}', '{"a":1', '12x', { s: 'w'.repeat(5000) }, [null], [[]]];
scen.data = {
  units: () => texts.map((_, i) => ({ m: i })),
  async run(f, x, p) {
    const codecs = [undefined, { Marshal: o => new TextEncoder().encode('#' + JSON.stringify(o)), Unmarshal: b => b && b.byteLength ? JSON.parse(new TextDecoder().decode(b).slice(1)) : '' }];
    const own = x.choose(2), v = values[x.choose(values.length)], r = values[x.choose(values.length)], http = x.choose(2) === 1;
    const s = new Sys(f, x, { codec: codecs[own] });
    const m = texts[p.m];
    if (own) s.frame = (fr, cmd, method, arg) => {
      assert(fr && fr.cmd === cmd && fr.method === method, () => 'sent ' + J(fr));
      const g = new TextDecoder().decode(fr.data);
      if (arg !== undefined && arg !== null) assert(g === '#' + JSON.stringify(arg), () => 'sent ' + J(g) + ' for ' + J(arg));
    };
    const enc = d => own ? '#' + JSON.stringify(d) : typeof d === 'string' ? d : JSON.stringify(d);
    s.open();
    s.cli.handle(m, ctx => s.got.push([ctx.method, ctx.data]));
    const k = s.call('p', 1000, http, m, v);
    s.notify(v, m);
    s.notify(v, m, true);
    await s.check();
    const d = enc(r), seen = d === '' ? '' : r;
    const rsp = () => { k.waiting = false; k.want.push({ data: seen, err: null }); return encode({ cmd: 2, method: m, seq: k.seq, seqHi: k.seqHi, data: d }); };
    if (http) s.http(k, 200, rsp); else s.deliver([rsp]);
    await s.check();
    for (const cmd of [3, 1]) {
      s.deliver([() => { s.want.push([m, seen]); return encode({ cmd, method: m, seq: 5, data: d }); }, () => s.msg('bare')]);
      await s.check();
    }
    if (d.length && !own) {
      const k2 = s.call('cb', 0, false, m, v);
      s.deliver([() => { k2.waiting = false; k2.want.push({ data: null, err: r }); return encode({ cmd: 2, flag: 1, method: m, seq: k2.seq, seqHi: k2.seqHi, data: d }); }]);
      if (typeof r !== 'string') { k2.want = k2.out.map(o => o); } // the form of other errors is the codec's business
      await s.check();
    }
  },
};

// sequence numbers, with a call that waits all the time
scen.seq = {
  units: th => [0, 100, 127, 128, 250, 255, 256, 511, 512, 1000, 4095, 32767, 65530, 65536, 70000].concat([16777210]).map(n => ({ n })).reverse(),
  async run(f, x, p) {
    const s = new Sys(f, x);
    s.open();
    const ws = s.ws;
    const first = s.call('p', 0);
    for (let i = 0; i < p.n; i++) { s.cli.notify('/x', 'd'); ws.sent.length = 0; if (i % 10000 === 0) x.step(); }
    for (const order of [[0, 1, 2, 3, 4, 5], [5, 4, 3, 2, 1, 0], [2, 5, 0, 4, 1, 3]]) for (const how of [0, 1, 2]) {
      const k = [];
      for (let i = 0; i < 6; i++) k.push(s.call('p', 0));
      await s.check();
      s.note(order.join() + '/' + how);
      if (how === 0) {
        for (const i of order) { s.deliver([() => s.msg('resp', k[i])]); await s.check(); }
      } else {
        s.deliver(order.map(i => () => s.msg(how === 1 || i % 2 ? 'resp' : 'fail', k[i])));
        await s.check();
      }
    }
    s.deliver([() => s.msg('resp', first)]);
    await s.check();
  },
};

// many calls waiting at once
scen.many = {
  units: () => [{ n: 300 }, { n: 3000 }],
  async run(f, x, p) {
    const s = new Sys(f, x);
    s.open();
    const k = [];
    const base = s.size();
    for (let i = 0; i < p.n; i++) {
      const c = { i, out: [], want: [], timeout: 0 };
      s.cli.call('/m', 'q' + i, 0, r => c.out.push(r));
      const b = s.ws.sent[s.ws.sent.length - 1];
      c.seq = new DataView(b.buffer, b.byteOffset).getUint32(8, true);
      c.seqHi = new DataView(b.buffer, b.byteOffset).getUint32(12, true);
      c.method = '/m';
      c.waiting = true;
      k.push(c);
    }
    s.calls = k;
    const how = x.choose(3);
    const step = [1, 7, p.n - 1][x.choose(3)];
    s.note(how + ' ' + step);
    if (how === 2) {
      s.close(false);
      await s.check();
      s.open();
      s.close(false); // and once more: nothing is settled again
      await s.check();
      s.open();
    } else {
      for (let i = 0, j = 0; i < p.n;) {
        const l = [];
        for (let n = 0; n < (how ? 10 : 1) && i < p.n; n++, i++) { const c = k[(i * step) % p.n]; if (c.waiting) l.push(() => s.msg(i % 3 ? 'resp' : 'fail', c)); }
        if (l.length) s.deliver(l);
      }
      for (const c of k) if (c.waiting) s.deliver([() => s.msg('resp', c)]);
    }
    await s.check();
    assert(s.size() === base, 'the client keeps ' + s.size() + ' objects after its calls, ' + base + ' before');
  },
};

// calls over HTTP
scen.http = {
  units: th => {
    const u = [];
    for (let first = 0; first < 11; first++) for (const opt of [0, 1]) u.push({ n: th ? 7 : 6, first, opt });
    return u;
  },
  async run(f, x, p) {
    const s = new Sys(f, x, p.opt ? { httpUrl: '/rpc', httpMethod: 'PUT' } : {});
    s.open();
    for (let i = 0; i < p.n; i++) {
      const h = s.calls.filter(k => k.xhr && k.xhr.pending), w = s.calls.filter(k => k.waiting && !k.http);
      const up = s.ws.readyState === 1;
      const ev = [
        s.calls.length < 3 && (() => s.call('p', 0, true)),
        s.calls.length < 3 && (() => s.call('cb', 10, true)),
        s.calls.length < 3 && (() => s.call('p', 0, false)),
        () => s.notify('x', '/x', true),
        h.length && (() => s.http(h[0], 200, () => s.msg('resp', h[0]))),
        h.length && (() => s.http(h[h.length - 1], 200, () => s.msg('fail', h[h.length - 1]))),
        h.length && (() => s.http(h[h.length - 1], 500)),
        h.length && (() => s.http(h[0], 0)),
        up && w.length && (() => s.deliver([() => s.msg('resp', w[0])])),
        s.env.timers.list.length && (() => s.tick()),
        s.ws.readyState < 3 && s.state !== 'closed' && (() => { s.close(false); s.open(); }),
        s.state !== 'closed' && (() => s.shutdown()),
      ];
      let c = p.first;
      if (i > 0) {
        const l = [];
        for (let j = 0; j < ev.length; j++) if (ev[j]) l.push(j);
        c = l[x.choose(l.length)];
      }
      if (!ev[c]) return;
      s.note('e' + c);
      ev[c]();
      await s.check();
    }
  },
};

// hooks, handlers and callbacks that use the client, or throw
scen.inside = {
  units: () => {
    const u = [];
    for (const where of ['callback', 'handler', 'close', 'open']) for (let act = 0; act < 7; act++) u.push({ where, act });
    return u;
  },
  async run(f, x, p) {
    const s = new Sys(f, x);
    s.open();
    const style = x.choose(2) ? 'p' : 'cb';
    for (let i = 0; i < 3; i++) s.call(i === 1 ? style : 'cb', i === 2 ? 50 : 0);
    await s.check();
    s.reent = true;
    s.inside = {
      where: p.where, f: () => {
        switch (p.act) {
          case 0: s.call('cb', 0); break;
          case 1: s.call('p', 30); break;
          case 2: s.notify('again'); break;
          case 3: s.shutdown(); break;
          case 4: s.throws = true; throw new Error('thrown by the application');
          case 5: s.ping(); break;
          case 6: s.call('cb', 40); s.call('cb', 0); break;
        }
      },
    };
    const via = x.choose(3);
    s.note(p.where + p.act + '/' + via);
    if (p.where === 'callback') {
      if (via === 0) s.deliver([() => s.msg('resp', s.calls[0]), () => s.msg('notify'), () => s.msg('resp', s.calls[1])]);
      else if (via === 1) s.close(false);
      else s.tick();
    } else if (p.where === 'handler') {
      s.deliver([() => s.msg('notify'), () => s.msg('bare'), () => s.msg(via ? 'resp' : 'fail', s.calls[0])]);
    } else {
      s.close(via === 1);
      await s.check();
      if (s.state !== 'closed') s.open();
    }
    await s.check();
    if (s.state === 'closed') {
      if (s.ws.readyState < 3) s.close(false);
      await s.check();
      assert(s.calls.every(k => !k.waiting), 'a call is left waiting');
      return;
    }
    if (s.state === 'connecting') { s.open(); await s.check(); }
    // all is well afterwards
    for (const k of s.calls.slice()) if (k.waiting) s.deliver([() => s.msg('resp', k)]);
    await s.check();
    const k = s.call('p', 0);
    s.deliver([() => s.msg('notify'), () => s.msg('resp', k)]);
    await s.check();
    const k2 = s.call('p', 0);
    s.close(false);
    await s.check();
    s.open();
    await s.check();
  },
};

// keep-alive pings
scen.keepalive = {
  units: () => [{ t: 0 }, { t: 100 }],
  async run(f, x, p) {
    const s = new Sys(f, x);
    const d = p.t || 30000;
    if (x.choose(2)) s.open();
    s.keep = true;
    s.cli.keepalive(p.t || undefined);
    s.cli.keepalive(7);
    await s.check();
    let moved = false; // reconnecting may have taken time
    for (let i = 0; i < 4; i++) {
      const ev = [() => s.tick(), () => s.ws.readyState < 3 && s.close(true), () => s.ws.readyState === 0 && s.open(), () => s.deliver([() => s.msg('pong')])];
      const c = x.choose(4);
      s.note('k' + c);
      const before = s.nsent(), at = s.env.timers.now, up = s.state === 'connected', sock = s.ws;
      ev[c]();
      if (c === 1) moved = true;
      if (c === 0) {
        assert(moved ? s.env.timers.now <= at + d : s.env.timers.now === at + d, 'the next ping came after ' + (s.env.timers.now - at));
        moved = false;
        assert(s.nsent() === before + (up ? 1 : 0), 'sent ' + (s.nsent() - before) + ' messages');
        if (up) s.frame(require('./env').decode(sock.sent[sock.sent.length - 1]), 4, '', null);
      }
      await s.check();
    }
    s.shutdown();
    s.keep = false;
    await s.check();
  },
};

// messages that are not well formed
scen.malformed = {
  units: () => [...Array(12).keys()].map(what => ({ what })),
  async run(f, x, p) {
    const s = new Sys(f, x);
    s.open();
    const k = s.call('p', 0);
    const good = () => encode({ cmd: 3, method: '/unknown', data: 'x' });
    const bad = [
      () => new Uint8Array(0), () => new Uint8Array(5), () => new Uint8Array(15), () => new Uint8Array(16),
      () => encode({ cmd: 3, method: '/unknown', data: 'x', len: 1000 }),
      () => encode({ cmd: 3, method: '/unknown', data: 'x', len: 0xfffffff0 }),
      () => encode({ cmd: 3, method: '/unknown', data: 'x', len: 0x80000000 }),
      () => encode({ cmd: 3, method: '/unknown', data: 'x', ml: 200 }),
      () => encode({ cmd: 9, len: 0xffffffff }),
      () => encode({ cmd: 2, method: '/m', seq: 999, len: 0xfffffff0 }),
      () => join([good(), new Uint8Array(7)]),
      () => encode({ cmd: 5, len: 0xfffffff0 }),
    ][p.what];
    const n = 1 + x.choose(2);
    s.note('bad' + p.what);
    for (let i = 0; i < n; i++) { s.deliver([bad]); await s.check(); }
    s.deliver([() => s.msg('notify'), () => s.msg('ping'), () => s.msg('resp', k)]);
    await s.check();
  },
};

// finished calls leave nothing behind
scen.leftover = {
  units: () => [...Array(8).keys()].map(how => ({ how })),
  async run(f, x, p) {
    const s = new Sys(f, x);
    s.open();
    const round = async () => {
      const http = p.how === 4 || p.how === 5;
      const k = s.call(x1 ? 'p' : 'cb', p.how === 6 ? 0 : 10, http);
      switch (p.how) {
        case 0: s.deliver([() => s.msg('resp', k)]); break;
        case 1: s.deliver([() => s.msg('fail', k)]); break;
        case 2: s.tick(); break;
        case 3: case 6: s.close(false); s.open(); break;
        case 4: s.http(k, 200, () => s.msg('resp', k)); break;
        case 5: s.http(k, 500); break;
        case 7: s.tick(); s.deliver([() => s.msg('resp', k)]); break;
      }
      await s.check();
    };
    const x1 = x.choose(2);
    await round();
    const base = s.size();
    for (let i = 0; i < 5; i++) await round();
    assert(s.size() === base, 'the client keeps ' + s.size() + ' objects after six calls, ' + base + ' after one');
  },
};

module.exports = scen;
