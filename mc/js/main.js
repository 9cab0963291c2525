'use strict';
// main.js check PROP TIER SEED EVIDENCE KNOWN REPLAYS BUDGET SRC | replay FILE SRC
const fs = require('fs'), path = require('path');
const { Worker, isMainThread, workerData, parentPort } = require('worker_threads');
const scen = require('./scen');
const { load, Violation } = require('./sys');

class Explorer {
  constructor() { this.states = new Set(); this.steps = 0; this.execs = 0; this.decisions = 0; }
  step() { this.steps++; if (this.beat) this.beat[1]++; }
  state(s) { this.step(); if (this.states.size < 4000000) this.states.add(s); }
  choose(n) {
    const i = this.pos++;
    if (i < this.path.length) return this.path[i][0];
    this.path.push([0, n]);
    this.decisions++;
    return 0;
  }
  next() {
    while (this.path.length) {
      const l = this.path[this.path.length - 1];
      if (++l[0] < l[1]) return true;
      this.path.pop();
    }
    return false;
  }
  async one(factory, name, unit) {
    this.pos = 0;
    this.execs++;
    try { await scen[name].run(factory, this, unit); } catch (e) {
      if (e instanceof Violation) return e.message;
      return 'exception: ' + (e && e.stack || e);
    }
    return null;
  }
}

async function worker() {
  const { src, shared, units, deadline } = workerData;
  const prog = new Int32Array(shared);
  const factory = load(src);
  const hang = new Int32Array(workerData.cur);
  let i;
  while ((i = Atomics.add(prog, 0, 1)) < units.length) {
    if (Atomics.load(prog, 1)) break;
    const { name, unit } = units[i];
    const x = new Explorer();
    x.path = [];
    x.beat = hang;
    let complete = true;
    hang[0] = i;
    do {
      hang[1]++;
      hang[2] = Math.min(x.path.length, 60);
      for (let j = 0; j < hang[2]; j++) hang[3 + j] = x.path[j][0];
      const v = await x.one(factory, name, unit);
      if (v) {
        parentPort.postMessage({ i, violation: v, choices: x.path.slice(0, x.pos).map(a => a[0]), execs: x.execs, steps: x.steps, states: [...x.states], decisions: x.decisions });
        Atomics.store(prog, 1, 1);
        return;
      }
      if (x.execs % 256 === 0 && (Date.now() > deadline || Atomics.load(prog, 1))) { complete = false; break; }
    } while (x.next());
    hang[0] = -1;
    parentPort.postMessage({ i, complete, execs: x.execs, steps: x.steps, states: [...x.states], decisions: x.decisions });
  }
  hang[0] = -1;
}

async function check([prop, tier, seed, evidence, known, replays, budget, file]) {
  const t0 = Date.now();
  const src = fs.readFileSync(file, 'utf8');
  const units = [];
  for (const name of ['seq', ...Object.keys(scen).filter(n => n !== 'seq')]) for (const unit of scen[name].units(tier === 'thorough')) units.push({ name, unit });
  const shared = new SharedArrayBuffer(8);
  const N = Math.max(1, Math.min(8, require('os').cpus().length));
  const done = [], states = {}, tot = { execs: 0, steps: 0, decisions: 0 };
  let bad = null;
  const report = m => {
    tot.execs += m.execs; tot.steps += m.steps; tot.decisions += m.decisions;
    const st = states[units[m.i].name] = states[units[m.i].name] || new Set();
    for (const s of m.states) st.add(s);
    if (m.violation && (!bad || m.i < bad.i)) bad = m;
    if (m.complete) done.push({ scenario: units[m.i].name, config: JSON.stringify(units[m.i].unit), executions: m.execs, transitions: m.steps, states: m.states.length });
  };
  await Promise.all([...Array(N).keys()].map(() => new Promise(res => {
    const cur = new SharedArrayBuffer(4 * 64), c = new Int32Array(cur);
    c[0] = -1;
    const w = new Worker(__filename, { workerData: { src, shared, units, cur, deadline: t0 + budget * 1000 }, resourceLimits: { maxOldGenerationSizeMb: 3000 } });
    let last = -1, same = 0;
    const iv = setInterval(() => { // an execution that does not end
      if (c[0] >= 0 && c[1] === last) same++; else same = 0;
      last = c[1];
      if (same > 25) {
        clearInterval(iv);
        report({ i: c[0], violation: 'the client does not come back from an event: it hangs', choices: [...c.slice(3, 3 + c[2])], execs: 0, steps: 0, states: [], decisions: 0 });
        Atomics.store(new Int32Array(shared), 1, 1);
        w.terminate().then(res);
      }
    }, 1000);
    w.on('message', report);
    w.on('error', e => { clearInterval(iv); console.error(e); report({ i: Math.max(0, c[0]), violation: 'the process failed: ' + e, choices: [...c.slice(3, 3 + c[2])], execs: 0, steps: 0, states: [], decisions: 0 }); res(); });
    w.on('exit', () => { clearInterval(iv); res(); });
  })));
  const nst = Object.values(states).reduce((n, s) => n + s.size, 0);
  const kf = JSON.parse(fs.readFileSync(known, 'utf8')); // no finding is recorded for this property; repaired ones suppress nothing
  void kf;
  const exhaustive = !bad && done.length === units.length;
  const ev = {
    property: prop, tier, seed: Number(seed), level: 'model_checking', wall_s: (Date.now() - t0) / 1000, violations: bad ? 1 : 0,
    assumptions: ['the simulated WebSocket, XMLHttpRequest and timers follow their specifications', 'bounds: event sequences up to the depth given per unit; the listed payloads, methods and sequence numbers'],
    coverage: {
      states: nst, transitions: tot.steps, traces_validated_against_impl: tot.execs, decisions: tot.decisions, exhaustive,
      explanation: 'every execution runs the real client under simulated time, sockets and HTTP; states are distinct states of the oracle after an event, transitions are events, traces are complete executions on the implementation',
      samples: done.slice(0, 12).map(d => d.scenario + ' ' + d.config + ': ' + d.executions + ' executions'), units: done,
    },
  };
  fs.mkdirSync(path.dirname(evidence), { recursive: true });
  fs.writeFileSync(evidence, JSON.stringify(ev, null, 1) + '\n');
  console.log(`${prop} ${tier}: units=${done.length}/${units.length} executions=${tot.execs} states=${nst} transitions=${tot.steps} exhaustive=${exhaustive} ${ev.wall_s}s`);
  if (bad) {
    fs.mkdirSync(replays, { recursive: true });
    const rp = path.join(replays, prop + '.json'), u = units[bad.i];
    fs.writeFileSync(rp, JSON.stringify({ Property: prop, scenario: u.name, unit: u.unit, choices: bad.choices, message: bad.violation }, null, 1).replace('"Property":"', '"Property": "') + '\n');
    console.log(`scenario=${u.name} config=${JSON.stringify(u.unit)} choices=${bad.choices}\n${bad.violation}`);
    console.log(`VIOLATION property=${prop} replay=${rp}`);
    process.exit(1);
  }
  process.exit(0);
}

async function replay([rp, file]) {
  const r = JSON.parse(fs.readFileSync(rp, 'utf8'));
  const x = new Explorer();
  x.path = r.choices.map(c => [c, c + 1]);
  x.step = function () { this.steps++; };
  x.state = s => console.log('  state ' + s);
  console.log(r.scenario, JSON.stringify(r.unit), 'choices', r.choices.join());
  const v = await x.one(load(fs.readFileSync(file, 'utf8')), r.scenario, r.unit);
  console.log(v ? 'VIOLATION ' + v : 'no violation');
  process.exit(v ? 1 : 0);
}

if (!isMainThread) worker();
else if (process.argv[2] === 'check') check(process.argv.slice(3));
else replay(process.argv.slice(3));
