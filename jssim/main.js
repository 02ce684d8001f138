'use strict';
// node main.js check TIER | worker BASE START STRIDE SECS | replay FILE | selftest N
const fs = require('fs'), path = require('path'), cp = require('child_process');
const { genPlan, run, load } = require('./sim.js');
const ROOT = path.dirname(__dirname);
const SRC = path.join(process.env.REPO || '/repo', 'extension/jsclient/arpc.js');
const factoryOf = () => { try { return load(SRC); } catch (e) { console.error('check error: ' + e); process.exit(2); } };

async function worker(base, start, stride, secs, max) {
  const factory = factoryOf();
  const t0 = Date.now();
  let st;
  const fresh = () => { st = { runs: 0, nontrivial: 0, faulted: 0, events: 0, sim: 0, hashes: [], counts: {}, fired: {} }; };
  fresh();
  let idx = start, sample = null, last = Date.now();
  for (let n = 0; n < max; n++, idx += stride) {
    if ((n & 15) === 0) {
      if (Date.now() - t0 > secs * 1000) break;
      if (Date.now() - last > 1000) { last = Date.now(); process.stdout.write('W ' + JSON.stringify(st) + '\n'); fresh(); }
    }
    const p = genPlan(base, idx);
    const r = await run(factory, p, false);
    st.runs++; st.events += r.events; st.sim += r.Sim;
    if (r.nontrivial) { st.nontrivial++; st.hashes.push(r.Hash); }
    if (Object.keys(r.fired).length) st.faulted++;
    for (const k in r.counts) st.counts[k] = (st.counts[k] || 0) + r.counts[k];
    for (const k in r.fired) st.fired[k] = (st.fired[k] || 0) + r.fired[k];
    if (!sample && r.nontrivial) { sample = p; process.stdout.write('P ' + JSON.stringify(p) + '\n'); }
    if (process.env.HASHES) process.stdout.write(`H ${idx} ${r.Hash} ${r.events} ${r.V ? r.V.Class : ''}\n`);
    else if (r.V) { process.stdout.write('W ' + JSON.stringify(st) + '\nV ' + JSON.stringify({ plan: p, v: r.V }) + '\n'); return; }
  }
  process.stdout.write('W ' + JSON.stringify(st) + '\n');
}

async function minimise(factory, plan, cls) {
  const t0 = Date.now();
  const bad = async (p) => { const r = await run(factory, p, false); return r.V && r.V.Class === cls; };
  const clone = (p) => JSON.parse(JSON.stringify(p));
  for (let again = true; again && Date.now() - t0 < 20000;) {
    again = false;
    for (const list of ['Ops', 'Faults']) for (let n = Math.max(1, plan[list].length >> 1); n >= 1; n >>= 1) for (let i = 0; i < plan[list].length && Date.now() - t0 < 20000;) {
      const p = clone(plan); p[list].splice(i, n);
      if (await bad(p)) { plan = p; again = true; } else i += n;
    }
    for (const [k, v] of [['Keep', 0], ['Lead', 0], ['Lead', 300], ['Batch', 0], ['CloseHook', undefined], ['OpenThrow', undefined], ['OpenCall', undefined], ['Delay', [0, 0]]]) {
      if (JSON.stringify(plan[k]) === JSON.stringify(v) || (k === 'Lead' && plan.Lead < v)) continue;
      const p = clone(plan); p[k] = v;
      if (await bad(p)) { plan = p; again = true; }
    }
    for (let i = 0; i < plan.Ops.length; i++) for (const [k, v] of [['Cb', 0], ['M', 0], ['P', 0], ['RP', 0], ['R', 'ok'], ['Wait', 0]]) {
      if (plan.Ops[i][k] === undefined || plan.Ops[i][k] === v) continue;
      const p = clone(plan); p.Ops[i][k] = v;
      if (await bad(p)) plan = p;
    }
  }
  return plan;
}

async function check(tier) {
  const t0 = Date.now();
  const seed = parseInt(process.env.VERIF_SEED || '1', 10) || 1;
  const secs = process.env.VERIF_SECS ? +process.env.VERIF_SECS : tier === 'thorough' ? 900 - 40 : 30;
  const N = 8;
  const tot = { runs: 0, nontrivial: 0, faulted: 0, events: 0, sim: 0, counts: {}, fired: {} };
  const hashes = new Set();
  const samples = [];
  let viol = null;
  const kids = [];
  await Promise.all([...Array(N).keys()].map((k) => new Promise((res) => {
    const c = cp.spawn(process.execPath, [__filename, 'worker', String(seed), String(k), String(N), String(secs)], { stdio: ['ignore', 'pipe', 'inherit'] });
    kids.push(c);
    let buf = '', ok = false;
    c.stdout.on('data', (d) => {
      buf += d;
      for (let i; (i = buf.indexOf('\n')) >= 0; buf = buf.slice(i + 1)) {
        const l = buf.slice(0, i), body = l.slice(2);
        if (l[0] === 'W') { const s = JSON.parse(body); for (const x of ['runs', 'nontrivial', 'faulted', 'events', 'sim']) tot[x] += s[x]; for (const h of s.hashes) hashes.add(h); for (const m of ['counts', 'fired']) for (const x in s[m]) tot[m][x] = (tot[m][x] || 0) + s[m][x]; }
        if (l[0] === 'P' && samples.length < 3) samples.push(JSON.parse(body));
        if (l[0] === 'V' && !viol) { viol = JSON.parse(body); for (const x of kids) if (x !== c) x.kill(); }
      }
    });
    c.on('close', (code, sig) => { if (code !== 0 && !viol) { console.error('check error: a worker ended with', code, sig); process.exitCode = 2; } res(); });
  })));
  if (process.exitCode === 2 && !viol) process.exit(2);
  let replay = null;
  if (viol) {
    const factory = factoryOf();
    const p = await minimise(factory, viol.plan, viol.v.Class);
    const a = await run(factory, p, true), b = await run(factory, p, false);
    const stable = a.V && b.V && a.V.Class === b.V.Class && a.Hash === b.Hash;
    if (!stable) { console.error('check error: the violation does not repeat', viol.v); process.exit(2); }
    fs.mkdirSync(path.join(ROOT, 'replays'), { recursive: true });
    replay = path.join(ROOT, 'replays', `C35-${p.Seed}.json`);
    fs.writeFileSync(replay, JSON.stringify({ prop: 'C35', violation: a.V, hash: a.Hash, plan: p, log: a.Log }, null, 1) + '\n');
    console.log(`violation: ${a.V.Class}: ${a.V.Msg}`);
    console.log(`replay with: node ${path.join(__dirname, 'main.js')} replay ${replay}`);
    console.log(`VIOLATION property=C35 replay=${replay}`);
  }
  const wall = (Date.now() - t0) / 1000;
  fs.mkdirSync(path.join(ROOT, 'evidence'), { recursive: true });
  fs.writeFileSync(path.join(ROOT, 'evidence', 'C35.json'), JSON.stringify({
    property: 'C35', tier, seed, level: 'exploration', wall_s: wall,
    coverage: {
      evaluations: tot.runs, distinct_nontrivial: hashes.size, nontrivial_runs: tot.nontrivial, runs_with_faults: tot.faulted,
      rule: 'one evaluation is one seeded simulated execution; a run is non-trivial when at least one call was answered; distinct by the hash of its sequence of (event, virtual time)',
      events: tot.events, simulated_seconds: Math.round(tot.sim / 1000), runs_per_hour: Math.round(tot.runs / wall * 3600), faults_injected: tot.fired, other_counters: tot.counts, samples,
      real_components: ['/repo/extension/jsclient/arpc.js, run as it is'], stub_components: ['WebSocket, XMLHttpRequest, timers and clock of the browser', 'the server (a model of the wire format)'],
    },
    assumptions: ['one websocket message holds whole frames, as the Go server writes them', 'WebSocket events of one connection are dispatched in order (open, messages, close)'],
    violations: viol ? [viol.v] : [],
  }, null, 1) + '\n');
  console.log(`C35 ${tier}: ${tot.runs} runs, ${hashes.size} distinct, ${viol ? 'VIOLATED' : 'held'}, ${wall.toFixed(1)} s`);
  process.exit(viol ? 1 : 0);
}

async function main() {
  const [cmd, ...a] = process.argv.slice(2);
  if (cmd === 'worker') return worker(+a[0], +a[1], +a[2], +a[3], a[4] ? +a[4] : Infinity);
  if (cmd === 'check') return check(a[0] || process.env.VERIF_TIER || 'quick');
  if (cmd === 'replay') {
    const f = JSON.parse(fs.readFileSync(a[0], 'utf8'));
    const r = await run(factoryOf(), f.plan, true);
    for (const l of r.Log) console.log(l);
    const sameRun = r.V && f.violation && r.V.Class === f.violation.Class && r.Hash === f.hash;
    console.log(r.V ? `violation: ${r.V.Class}: ${r.V.Msg}` : 'no violation', sameRun ? '(exactly as recorded)' : '(not as recorded)');
    process.exit(r.V ? 1 : 0);
  }
  if (cmd === 'selftest') {
    const n = +(a[0] || 200);
    const get = (start, stride, count) => { const m = {}; for (const l of cp.execFileSync(process.execPath, [__filename, 'worker', '7', String(start), String(stride), '600', String(count)], { env: { ...process.env, HASHES: '1' }, maxBuffer: 1 << 28 }).toString().split('\n')) if (l[0] === 'H') { const f = l.split(' '); m[f[1]] = f.slice(2).join(' '); } return m; };
    const x = get(0, 1, n); let diff = 0, seen = 0;
    for (let k = 0; k < 4; k++) { const y = get(k, 4, n >> 2); for (const i in y) { seen++; if (x[i] !== y[i]) diff++; } }
    console.log(`C35: ${seen} runs compared across processes, ${diff} differ`);
    process.exit(diff ? 1 : 0);
  }
  console.error('usage: main.js check|worker|replay|selftest'); process.exit(2);
}
main();
