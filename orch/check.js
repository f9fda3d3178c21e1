'use strict';
// Seeded search over simulated orchestrator histories; see ../DESIGN.md.
const fs = require('fs');
const path = require('path');
const crypto = require('crypto');
const { fork } = require('child_process');
const { run, generate } = require('./run.js');
const { sources, HarnessError } = require('./world.js');

const VERIF = path.resolve(__dirname, '..');
const COUNT = { C15: { quick: 24000, thorough: 400000 }, C16: { quick: 28000, thorough: 400000 }, C17: { quick: 14000, thorough: 300000 }, C18: { quick: 10000, thorough: 150000 }, C24: { quick: 14000, thorough: 300000 } };
const BUDGET = { quick: 100, thorough: 900 };
const RULE = 'Each run is a history of the real orchestrator generated from the seed: 2-6 server and 1-3 client daemons with their own start times and addresses, an operator script (new, load, kill, clear, log, list, store, restart as the property needs), ' +
  'network delays from 1 ms to 40 s, and in about half of the runs lost requests and replies, crashing jobs, crashing and re-registering daemons, a failing configuration generator and failing or torn result writes. Non-trivial: at least one experiment was added and more than 30 requests or commands were handled.';
const REAL = ['experiments/orchestrator/main.js, orchestrator.js, experiment.js, worker.js, cmd.js, constants.js (as they are)'];
const STUB = ['express, body-parser, ipaddr.js, readline, fs, child_process, process, console, Date, timers, Math.random: simulator stand-ins',
  'gen_config: stand-in that records its arguments in the configuration it returns', 'daemon_client.sh, daemon_server.sh and the jobs they run: modelled'];

async function safe(scn, choices, trace) {
  try { return await run(scn, choices, trace); } catch (e) { return { error: String(e && e.stack || e) }; }
}
const own = (r, prop) => (r.violations || []).filter(v => v.cls.startsWith(prop + ':'));
const hasCls = (r, cls) => (r.violations || []).some(v => v.cls === cls);

if (process.argv[2] === '--worker') {
  process.on('message', async m => {
    if (m.quit) process.exit(0);
    const out = { runs: 0, nontrivial: 0, hashes: [], states: new Set(), counters: {}, steps: 0, vtime: 0, found: [], ends: {}, sample: null, errors: [], exps: 0, finished: 0 };
    for (let i = m.from; i < m.to; i++) {
      const scn = generate(m.prop, m.base + i);
      const r = await safe(scn);
      if (r.error) { out.errors.push({ seed: m.base + i, error: r.error }); break; }
      out.runs++;
      if (r.nontrivial) out.nontrivial++;
      out.hashes.push(r.hash);
      r.states.forEach(x => out.states.add(x));
      for (const [k, v] of Object.entries(r.counters)) out.counters[k] = (out.counters[k] || 0) + v;
      out.steps += r.steps;
      out.vtime += r.vtime;
      out.exps += r.exps;
      out.finished += r.finished;
      out.ends[r.end] = (out.ends[r.end] || 0) + 1;
      if (i % 997 === 0) out.sample = { seed: m.base + i, workers: scn.workers.map(x => x.kind + '@' + x.ip).join(' '), ops: scn.ops.map(o => o.op + (o.what ? ' ' + o.what : '')).join(', '), faults: { loss: scn.loss, jobcrash: scn.jobcrash, genfail: scn.genfail, disk: scn.disk, crashes: scn.crashes.length }, steps: r.steps, simulated_s: Math.round(r.vtime), experiments: r.exps, finished: r.finished, hash: r.hash };
      const v = own(r, m.prop);
      if (v.length) out.found.push({ seed: m.base + i, cls: v[0].cls, msg: v[0].msg });
    }
    out.states = [...out.states];
    process.send(out);
  });
} else if (process.argv[2] === '--replay') {
  (async () => {
    const d = JSON.parse(fs.readFileSync(process.argv[3], 'utf8'));
    const tr = [];
    const r = await safe(d.scenario, d.choices, tr);
    if (r.error) { console.error(r.error); process.exit(2); }
    console.log(tr.join('\n'));
    console.log(JSON.stringify(r.violations), r.hash === d.hash ? 'same execution' : 'different execution');
    if (hasCls(r, d.class)) { console.log('VIOLATION property=' + d.property + ' replay=' + process.argv[3]); process.exit(1); }
    process.exit(0);
  })();
} else main(process.argv[2], process.argv[3] === 'thorough' ? 'thorough' : 'quick', Number(process.argv[4]) || 1).then(c => process.exit(c), e => { console.error(e); process.exit(2); });

async function minimise(scn, choices, cls, until) {
  let s = scn, tried = 0;
  const fails = async (x, c) => { tried++; return hasCls(await safe(x, c), cls); };
  const clone = x => JSON.parse(JSON.stringify(x));
  // Seeded reductions of the scenario (choices drawn afresh from the same schedule seed).
  let again = true;
  while (again && Date.now() < until) {
    again = false;
    const cands = [];
    for (const k of ['loss', 'jobcrash', 'genfail', 'disk', 'emptylog', 'oddlog', 'biglog']) if (s[k]) cands.push(x => { x[k] = 0; });
    for (let i = 0; i < s.crashes.length; i++) cands.push(x => x.crashes.splice(i, 1));
    for (let i = s.ops.length - 1; i > 0; i--) cands.push(x => x.ops.splice(i, 1));
    for (let i = s.workers.length - 1; i >= 0; i--) cands.push(x => x.workers.splice(i, 1));
    if (s.delays > 1) cands.push(x => { x.delays = 1; });
    for (const o of s.ops.keys()) {
      if (s.ops[o].pause) cands.push(x => { x.ops[o].pause = 0; });
      for (const f of ['tableSize', 'batch', 'epsilon', 'queries', 'parties', 'parallelism']) if (typeof s.ops[o][f] === 'string' && s.ops[o][f].includes(',')) cands.push(x => { x.ops[o][f] = x.ops[o][f].split(',')[0]; });
    }
    for (const f of cands) {
      if (Date.now() > until) break;
      const x = clone(s);
      f(x);
      if (await fails(x)) { s = x; again = true; break; }
    }
  }
  const r = await safe(s);
  let ch = r.choices;
  if (!await fails(s, ch)) return { s, ch: null, tried };
  for (;;) { const h = ch.slice(0, ch.length >> 1); if (h.length && Date.now() < until && await fails(s, h)) ch = h; else break; }
  for (let size = Math.max(1, ch.length >> 1); size >= 1 && Date.now() < until; size >>= 1) {
    for (let i = 0; i < ch.length && Date.now() < until; i += size) {
      if (!ch.slice(i, i + size).some(x => x)) continue;
      const c = ch.map((x, j) => j >= i && j < i + size ? 0 : x);
      if (await fails(s, c)) ch = c;
    }
  }
  while (ch.length && ch[ch.length - 1] === 0) ch = ch.slice(0, -1);
  return { s, ch, tried };
}

function known(prop) {
  try { return fs.readFileSync(path.join(VERIF, 'known-findings.txt'), 'utf8').split('\n').filter(l => l.startsWith('finding: property=' + prop + ' ')); } catch (e) { return []; }
}

async function main(prop, tier, seed) {
  const t0 = Date.now();
  if (!COUNT[prop]) { console.error('no such property ' + prop); return 2; }
  const base = seed * 100000000 + (Number(prop.slice(1)) * 1000000);
  // Determinism: the same seed is the same execution.
  for (let i = 0; i < 6; i++) {
    const a = await safe(generate(prop, base + i)), b = await safe(generate(prop, base + i));
    if (a.error) { console.error('the orchestrator cannot be simulated: ' + a.error); return 2; }
    if (a.hash !== b.hash) { console.error('simulation is not deterministic for seed ' + (base + i)); return 2; }
  }
  const n = COUNT[prop][tier], until = t0 + BUDGET[tier] * 1000;
  const T = { runs: 0, nontrivial: 0, hashes: new Set(), states: new Set(), counters: {}, steps: 0, vtime: 0, found: [], ends: {}, samples: [], errors: [], exps: 0, finished: 0 };
  let next = 0;
  const size = tier === 'quick' ? 60 : 250;
  await Promise.all([...Array(8)].map(() => new Promise((res, rej) => {
    const c = fork(__filename, ['--worker'], { stdio: ['ignore', 'inherit', 'inherit', 'ipc'] });
    let busy = false;
    const give = () => {
      if (next >= n || Date.now() > until || T.found.length >= 3 || T.errors.length) { busy = false; c.send({ quit: true }); return; }
      busy = true;
      c.send({ prop, base, from: next, to: Math.min(n, next + size) });
      next += size;
    };
    c.on('message', o => {
      T.runs += o.runs; T.nontrivial += o.nontrivial; T.steps += o.steps; T.vtime += o.vtime; T.exps += o.exps; T.finished += o.finished;
      o.hashes.forEach(h => T.hashes.add(h));
      o.states.forEach(h => T.states.add(h));
      for (const [k, v] of Object.entries(o.counters)) T.counters[k] = (T.counters[k] || 0) + v;
      for (const [k, v] of Object.entries(o.ends)) T.ends[k] = (T.ends[k] || 0) + v;
      T.found.push(...o.found);
      T.errors.push(...o.errors);
      if (o.sample && T.samples.length < 4) T.samples.push(o.sample);
      give();
    });
    c.on('exit', code => { if (busy) T.errors.push({ error: 'search process ended with ' + code }); res(); });
    give();
  })));
  const wall = (Date.now() - t0) / 1000;
  const tree = crypto.createHash('sha256').update(JSON.stringify(sources())).digest('hex').slice(0, 20);
  const ev = { property: prop, tier, seed, level: 'exploration', coverage: {
    evaluations: T.runs, distinct_nontrivial: Math.min(T.nontrivial, T.hashes.size), rule: RULE, samples: T.samples,
    distinct_executions_by_event_hash: T.hashes.size, distinct_abstract_states: T.states.size,
    abstract_state_measure: 'hash of (activity of each daemon, assigned clients and servers, reports and kill mark of each experiment), sampled every 4 steps',
    runs_per_hour: Math.round(T.runs / wall * 3600), requests_and_commands: T.steps, simulated_seconds: Math.round(T.vtime), experiments_added: T.exps, experiments_finished: T.finished,
    faults_and_events: T.counters, run_endings: T.ends, components_real: REAL, components_stubbed: STUB, repo_tree: tree },
    assumptions: ['the stand-ins behave like express 4 and body-parser 1 for the calls used', 'daemons follow daemon_client.sh and daemon_server.sh', 'handlers run to completion, as in node', 'search is sampled by seed, not exhaustive'],
    wall_s: wall, violations: T.found.length ? 1 : 0 };
  fs.mkdirSync(path.join(VERIF, 'evidence'), { recursive: true });
  fs.writeFileSync(path.join(VERIF, 'evidence', prop + '.json'), JSON.stringify(ev, null, 1));
  for (const k of known(prop)) console.log('KNOWN-FINDING: ' + k.slice('finding: '.length));
  if (T.found.length) {
    T.found.sort((a, b) => a.seed - b.seed);
    for (const f of T.found.slice(0, 3)) {
      const s0 = generate(prop, f.seed);
      const a = await safe(s0), b = await safe(s0);
      if (!hasCls(a, f.cls) || a.hash !== b.hash) { console.error('not reproducible: ' + f.cls + ' seed ' + f.seed); continue; }
      let { s, ch, tried } = await minimise(s0, a.choices, f.cls, Date.now() + 40000);
      let r = await safe(s, ch);
      if (!hasCls(r, f.cls)) { s = s0; ch = a.choices; r = await safe(s, ch); }
      if (!hasCls(r, f.cls)) { console.error('replay by choices disagrees: ' + f.cls); continue; }
      const dir = path.join(VERIF, 'build', 'replays');
      fs.mkdirSync(dir, { recursive: true });
      const body = { property: prop, class: f.cls, message: r.violations.find(v => v.cls === f.cls).msg, kind: 'orch', hash: r.hash, seed: f.seed, verif_seed: seed, reductions_tried: tried, nonbenign_choices: (ch || []).filter(x => x).length, scenario: s, choices: ch };
      const file = path.join(dir, prop + '-' + crypto.createHash('sha256').update(JSON.stringify([s, ch])).digest('hex').slice(0, 10) + '.json');
      fs.writeFileSync(file, JSON.stringify(body, null, 1));
      console.log('violation class ' + f.cls + ': ' + body.message);
      console.log('minimised to ' + s.workers.length + ' workers, ' + s.ops.length + ' operator actions, ' + body.nonbenign_choices + ' non-benign choices');
      console.log('VIOLATION property=' + prop + ' replay=' + file);
      return 1;
    }
    return 2;
  }
  if (T.errors.length) { console.error('simulation error: ' + JSON.stringify(T.errors[0]).slice(0, 600)); return 2; }
  console.log(prop + ' held: ' + T.runs + ' runs, ' + Math.min(T.nontrivial, T.hashes.size) + ' distinct non-trivial, ' + T.states.size + ' abstract states, ' + wall.toFixed(1) + ' s');
  return 0;
}
