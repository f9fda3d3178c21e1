'use strict';
// Worker daemons (modelled on experiments/daemon_{client,server}.sh), operator,
// reference model and oracles.
const path = require('path');
const { World, HarnessError, rng, fnv, DIR } = require('./world.js');

let current = null;
process.on('unhandledRejection', e => {
  if (!current) throw e;
  if (e instanceof HarnessError) current.harness = e;
  else if (!(e && e.simExit)) current.died('unhandled rejection', e);
});

const OUT = path.join(DIR, 'outputs');

// ------------------------------------------------------------------ daemons
function* daemonCode(w, d) {
  let r = yield { get: '/giveip/' + d.kind };
  d.id = r.body.trim();
  for (;;) {
    d.at = 'ping';
    r = yield { get: '/ping/' + d.id };
    const resp = r.body.replace(/\n+$/, '');
    if (r.fail || resp === 'WAIT') { d.at = 'idle'; yield { sleep: 5000 }; continue; }
    const p = resp.trim().split(/\s+/);
    let job = { d, start: w.now, log: '', type: p[0], params: p };
    d.runs = (d.runs || 0) + 1;
    const tag = d.kind + d.n + '.' + d.inc + ' run ' + d.runs + ' of ' + resp.slice(0, 60).replace(/\s+/g, ' ');
    if (p[0] === 'dppir') {
      d.at = 'config';
      r = yield { get: '/config/' + d.id };
      while (r.fail || r.body.replace(/\n+$/, '') === 'WAIT') {
        yield { sleep: 2000 };
        r = yield { get: '/config/' + d.id };
      }
      job.config = r.body;
    } else if (p[0] === 'checklist') {
      if (d.kind === 'client') { d.at = 'boot'; yield { sleep: 15000 }; }
    } else if (p[0] === 'sealpir' && d.kind === 'client') {
      // runs at once
    } else {
      job.type = 'invalid';
    }
    job.log = 'log of ' + tag + '\n';
    if (w.scn.oddlog) job.log += '100% of %s, %d left\n\u0009a\\b "c"\n';
    if (w.scn.biglog && w.choose(3, w.scn.biglog)) { job.log += 'line of a long log\n'.repeat(6000 * d.runs); w.count('long_log'); }
    if (w.scn.emptylog && w.choose(8, w.scn.emptylog)) { job.log = ''; w.count('empty_log'); }
    d.job = job;
    d.at = 'job';
    startJob(w, job);
    while (!job.ended) {
      r = yield { get: '/shouldkill/' + d.id };
      const a = r.body.replace(/\n+$/, '');
      if (a === '2') yield { post: '/showlog/' + d.id, body: job.log };
      else if (a === '1') { endJob(w, job, 'killed'); job.log += 'Killed by Orchastrator!\n'; break; }
      yield { sleep: 15000 };
    }
    d.job = null;
    d.at = 'done';
    while ((yield { post: '/done/' + d.id, body: job.log }).fail) yield { sleep: 5000 };
  }
}

function startJob(w, job) {
  w.jobs.add(job);
  const sc = w.scn;
  const dur = 1000 + [0, 500, 6000, 20000, 90000][w.choose(5)];
  const end = (ms, how) => w.after(ms, () => { if (!job.ended) endJob(w, job, how); });
  if (w.faultsOn && sc.jobcrash && w.choose(2, sc.jobcrash)) {
    w.count('job_crash');
    disturb(w, job.d);
    end(dur, 'crash');
    return;
  }
  if (job.type === 'invalid') { end(5000, 'invalid'); return; }
  if (job.type === 'sealpir') { end(dur, 'ok'); return; }
  if (job.type === 'checklist') {
    if (job.d.kind === 'server') { job.addr = job.d.ip4 + ':' + job.params[3]; return; }  // until told to stop
    const up = [job.params[1], job.params[2]].every(a => [...w.jobs].some(j => j.addr === a));
    end(dur, up ? 'ok' : 'no servers');
    return;
  }
  let c = null;
  try { c = JSON.parse(job.config.replace(/^CONFIG /, '')); } catch (e) { /* not a configuration */ }
  if (!c || !c.ips) { end(300, 'bad config'); return; }
  job.gen = c.gen;
  job.pos = job.d.kind === 'client' ? 'c' + job.params[1] : 's' + job.params[1] + '.' + job.params[2];
  const mates = [...w.jobs].filter(j => j.gen === c.gen);
  const have = new Set(mates.map(j => j.pos));
  let all = have.size === c.parties * c.par + c.par;
  if (all && mates.some(j => j.pos[0] === 's' && c.ips[Number(j.params[1]) * c.par + Number(j.params[2])] !== j.d.ip4)) all = false;
  if (all) for (const j of mates) w.after(dur + [0, 10, 3000][w.choose(3)], () => { if (!j.ended) endJob(w, j, 'ok'); });
}

function endJob(w, job, how) {
  job.ended = how;
  w.jobs.delete(job);
  w.log('job of ' + job.d.kind + job.d.n + ' ended: ' + how);
  if (how !== 'ok' && job.gen) {
    // The peers notice, or hang until told to stop.
    for (const j of [...w.jobs]) {
      if (j.gen === job.gen && w.choose(3)) w.after(500 + w.delay(), () => { if (!j.ended) endJob(w, j, 'peer lost'); });
    }
  }
}

function disturb(w, d) {
  const m = w.workers.get(d.id);
  if (m && m.cur) m.cur.e.disturbed = true;
}

function startDaemon(w, d, at) {
  d.inc = (d.inc || 0) + 1;
  d.dead = false;
  d.id = null;
  d.job = null;
  d.at = 'down';
  const inc = d.inc;
  const g = daemonCode(w, d);
  const resume = v => {
    if (d.dead || d.inc !== inc || w.stop) return;
    const c = g.next(v).value;
    if (c.sleep !== undefined) { w.after(c.sleep + [0, 30, 900][w.choose(3, w.scn.slow)], () => resume()); return; }
    send(w, d, inc, c.get ? { method: 'GET', path: c.get } : { method: 'POST', path: c.post, body: c.body, type: 'text/plain' }, resume);
  };
  w.after(at, () => resume());
}

function send(w, d, inc, req, resume) {
  req.ip = d.ip;
  req.kind = d.kind;
  const boot = req.path.startsWith('/giveip');
  const lose = !boot && w.faultsOn && w.scn.loss ? w.choose(3, w.scn.loss) : 0;
  if (lose) {
    w.count(lose === 1 ? 'request_lost' : 'reply_lost');
  }
  if (lose === 1) { w.log('lost request ' + req.path); w.after(1000, () => resume({ body: '', fail: true })); return; }
  const sentTo = w.boots;
  w.after(w.delay(), async () => {
    if (w.stop) return;
    let answered = false;
    if (boot && (!w.up || w.boots !== sentTo)) { w.after(5000, () => { if (!d.dead && d.inc === inc) send(w, d, inc, req, resume); }); return; }   // started again by its operator
    if (!w.up || w.boots !== sentTo) { w.after(1000, () => resume({ body: '', fail: true })); return; }   // connection refused
    const boots = w.boots;
    serve(w, d, inc, req, rep => {
      if (answered) return;
      answered = true;
      if (lose === 2) { w.log('lost reply ' + req.path); w.after(1000, () => resume({ body: '', fail: true })); return; }
      w.after(w.delay(), () => resume(rep));
    });
    // A request that is never answered although the process lives.
    w.after(600000, () => { if (!answered && w.boots === boots && !w.crash) w.bad('C18:no-reply', req.method + ' ' + req.path + ' is never answered'); });
  });
}

function serve(w, d, inc, req, reply) {
  w.steps++;
  const before = new Map(w.files);
  w.log('req ' + req.method + ' ' + req.path);
  w.lastReq = req.path;
  const seen = w.out.length, t = w.now;
  w.request(req, rep => {
    w.log('rep ' + rep.status + ' ' + rep.body.slice(0, 120));
    observe(w, d, inc, req, rep, before, seen, t);
    reply(rep);
  });
  const m = req.path.match(/^\/\w+/)[0];
  w.count('http' + m.replace('/', '_'));
}

// ------------------------------------------------------------------ oracles on replies
function need(e, kind) { return kind === 'client' ? e.clientsNum : e.serversNum; }

function observe(w, d, inc, req, rep, before, seen, t) {
  const [, what, idS] = req.path.split('/');
  if (what === 'giveip') {
    const id = rep.body.trim();
    if (rep.status !== 200 || !/^\d+$/.test(id)) { w.bad('C15:registration', 'registration answered "' + rep.body.slice(0, 40) + '"'); return; }
    if (w.workers.has(id)) w.bad('C15:registration', 'worker id ' + id + ' given to two workers');
    w.workers.set(id, { id, kind: idS, d, inc, cur: null, marked: false, logAsked: false, ip4: d.ip4, heardFrom: t, heardTo: w.now });
    w.known[idS]++;
    return;
  }
  const m = w.workers.get(idS);
  if (!m) return;
  m.heardTo = w.now;
  if (rep.status === 200 && what !== 'showlog' && !(what === 'shouldkill' && rep.body.trim() === '2')) m.heardFrom = t;
  if (what === 'ping') onPing(w, m, rep);
  else if (what === 'config') onConfig(w, m, rep);
  else if (what === 'shouldkill') {
    const a = rep.body.trim();
    if (m.marked && !m.logAsked && a !== '1') w.bad('C16:not-told-to-stop', 'worker ' + m.id + ' works on killed experiment ' + m.cur.e.name + ' but its poll is answered "' + a + '"');
    if (!m.marked && a === '1') w.bad('C16:told-to-stop', 'worker ' + m.id + (m.cur ? ' on experiment ' + m.cur.e.name : '') + ' is told to stop, though nobody asked for that');
    if (m.logAsked && a !== '2') w.bad('C24:log-not-asked', 'the operator wants the log of worker ' + m.id + ', which is not asked for it but answered "' + a + '"');
    if (!m.logAsked && a === '2') w.bad('C24:log-unasked', 'worker ' + m.id + ' is asked for its log, which the operator does not want');
  } else if (what === 'showlog') {
    if (req.body && m.logAsked && !w.out.slice(seen).join('').includes(req.body)) w.bad('C24:log-not-shown', 'the log of worker ' + m.id + ' that the operator asked for is not shown as sent: "' + req.body.slice(0, 60) + '"');
    if (m.logAsked && req.body) w.count('logs_shown');
    m.logAsked = false;
  }
  else if (what === 'done') onDone(w, m, rep, req, before);
}

function onPing(w, m, rep) {
  if (m.cur) { m.cur.e.disturbed = true; m.cur = null; }
  m.marked = false;
  if (rep.status !== 200) { w.bad('C16:ping-error', 'a poll for work by worker ' + m.id + ' failed with status ' + rep.status); return; }
  if (rep.body === 'WAIT') return;
  const q = w.queue[m.kind];
  while (q.length && q[0].taken[m.kind].size >= need(q[0], m.kind)) q.shift();
  const p = rep.body.trim().split(/\s+/);
  const e = q[0];
  const fits = x => matches(w, x, m, p);
  if (!e || !fits(e)) {
    const k = w.exps.find(x => x.killed && !x.cleared && x.taken[m.kind].size < need(x, m.kind) && fits(x));
    if (k) { w.bad('C16:killed-staffed', 'worker ' + m.id + ' is given a place in experiment ' + k.name + ' after that was killed'); w.unsure = true; return; }
    w.bad('C15:not-in-order', e ? 'the next experiment needing a ' + m.kind + ' is ' + e.name + ' but worker ' + m.id + ' is given "' + rep.body + '"'
      : 'no experiment needs a ' + m.kind + ' but worker ' + m.id + ' is given "' + rep.body + '"');
    w.unsure = true;
    return;
  }
  const pos = position(e, m, p);
  if (pos === null) { w.bad('C15:position', 'worker ' + m.id + ' is given "' + rep.body + '", which is not a position of ' + e.name); w.unsure = true; return; }
  if (e.taken[m.kind].has(pos)) { w.bad('C15:position-twice', 'position ' + pos + ' of ' + e.name + ' is given to worker ' + m.id + ' and to ' + e.taken[m.kind].get(pos).id); w.unsure = true; return; }
  e.taken[m.kind].set(pos, m);
  if (e.taken.client.size === e.clientsNum && e.taken.server.size === e.serversNum) e.startedAt = w.now;
  if (e.taken[m.kind].size === need(e, m.kind)) q.shift();
  m.cur = { e, pos };
  if (m.d.dead || m.d.inc !== m.inc) e.disturbed = true;
  params(w, e, m, p);
  if (e.type === 'checklist' && m.kind === 'client') {
    const want = [...e.taken.server.values()].map(s => s.ip4 + ':' + s.port).sort().join(' ');
    if (e.taken.server.size < 2 || want !== [p[1], p[2]].sort().join(' ')) w.bad('C15:addresses', 'the client of ' + e.name + ' is sent to ' + p[1] + ' ' + p[2] + ', its servers are ' + want);
  }
  if (e.type === 'checklist' && m.kind === 'server') m.port = p[3];
}

// Is this reply a job of this experiment (as far as the reply tells)?
function matches(w, e, m, p) {
  if (p[0] !== e.type) return false;
  if (e.type === 'checklist' && m.kind === 'client') return p.length === 5;
  return true;
}
function position(e, m, p) {
  const int = s => /^\d+$/.test(s) ? Number(s) : NaN;
  if (e.type === 'dppir') {
    if (m.kind === 'client') { const c = int(p[1]); return c < e.clientsNum ? 'c' + c : null; }
    const a = int(p[1]), b = int(p[2]);
    return a < e.parties && b < e.parallelism ? a + '-' + b : null;
  }
  if (e.type === 'checklist' && m.kind === 'server') return 's' + e.taken.server.size;
  return m.kind === 'client' ? 'c0' : null;
}
const num = (a, b) => Number(a) === Number(b);
function params(w, e, m, p) {
  let ok = true;
  if (e.type === 'dppir') ok = m.kind === 'client' ? num(p[2], e.queries) && p[3] === e.mode : p[3] === e.mode;
  else if (e.type === 'checklist') ok = m.kind === 'client' ? num(p[3], e.queries) && p[4] === e.pirtype : num(p[2], e.tableSize) && p[4] === e.pirtype;
  else ok = num(p[1], e.tableSize) && num(p[2], e.queries);
  if (!ok) w.bad('C17:parameters', 'experiment ' + JSON.stringify(describe(e)) + ' was described, worker ' + m.id + ' is told "' + p.join(' ') + '"');
}
function describe(e) {
  const o = {};
  for (const k of ['name', 'type', 'clientsNum', 'serversNum', 'mode', 'parties', 'parallelism', 'epsilon', 'delta', 'queries', 'tableSize', 'pirtype']) if (e[k] !== undefined) o[k] = e[k];
  return o;
}

function onConfig(w, m, rep) {
  if (!m.cur) return;
  const e = m.cur.e, b = rep.body.replace(/\n+$/, '');
  if (b === 'WAIT') {
    if (m.marked) { m.waits = (m.waits || 0) + 1; if (m.waits > 200) w.bad('C16:not-told-to-stop', 'worker ' + m.id + ' waits for the configuration of killed experiment ' + e.name + ' and is never released'); }
    return;
  }
  if (rep.status !== 200 || b === '') { if (rep.status !== 200) e.disturbed = true; else e.disturbed = true; return; }
  if (!b.startsWith('CONFIG ')) {
    if (m.marked) return;          // told it will not get one
    if (w.unsure || e.disturbed) return;
    w.bad('C15:config', 'worker ' + m.id + ' of ' + e.name + ' is served "' + b.slice(0, 40) + '" as configuration');
    return;
  }
  const c = JSON.parse(b.slice(7));
  const s = e.taken.server;
  if (s.size < e.serversNum) { w.bad('C15:config-early', e.name + ' has ' + s.size + ' of ' + e.serversNum + ' servers but worker ' + m.id + ' is served a configuration'); return; }
  for (const [pos, x] of s) {
    const [a, bb] = pos.split('-').map(Number);
    const ip = c.ips[a * e.parallelism + bb];
    if (ip !== x.ip4) { w.bad('C15:config-addresses', e.name + ': position ' + pos + ' is worker ' + x.id + ' at ' + x.ip4 + ', the configuration says ' + ip); break; }
  }
  if (c.ips.length !== s.size) w.bad('C15:config-addresses', e.name + ': configuration lists ' + c.ips.length + ' servers of ' + s.size);
  if (e.config === undefined) e.config = b;
  else if (e.config !== b) w.bad('C15:config-differs', 'workers of ' + e.name + ' are served different configurations: ' + e.config.slice(0, 120) + ' / ' + b.slice(0, 120));
  if (!num(c.table, e.tableSize) || !num(c.epsilon, e.epsilon) || !num(c.delta, e.delta) || c.parties !== e.parties || c.par !== e.parallelism) w.bad('C17:config', 'experiment ' + JSON.stringify(describe(e)) + ' gets configuration ' + b);
}

function onDone(w, m, rep, req, before) {
  const ws = w.writes.filter(x => x.f.startsWith(OUT + '/'));
  const failed = w.writes.some(x => !x.ok);
  if (!m.cur) {
    for (const x of ws) if (before.has(x.f)) w.bad('C16:overwritten', 'a report without a job, by worker ' + m.id + ', overwrites ' + path.relative(OUT, x.f));
    return;
  }
  const e = m.cur.e, pos = m.cur.pos;
  if (rep.status !== 200) {
    e.disturbed = true;
    if (!failed) w.bad('C16:report-refused', 'the report of worker ' + m.id + ' at ' + pos + ' of ' + e.name + ' is answered with status ' + rep.status);
    // A worker given both server places of one checklist experiment has one file for both.
    for (const x of w.writes) { const o = w.results.get(x.f); if (!x.ok && o && o.m === m && o.e === e) w.results.delete(x.f); }
    return;                        // not reported: the job stays the worker's until it polls for the next
  }
  const fin = ws.filter(x => x.ok).pop();
  if (!fin) { w.bad('C16:not-stored', 'the report of worker ' + m.id + ' at ' + pos + ' of ' + e.name + ' is accepted but not stored'); return; }
  const rel = path.relative(OUT, fin.f);
  if (w.files.get(fin.f) !== req.body) w.bad('C16:not-stored', rel + ' does not hold the report of worker ' + m.id);
  const want = e.type === 'dppir' ? (m.kind === 'client' ? 'client-' + pos.slice(1) : 'party-' + pos) + '.log' : e.type === 'sealpir' ? 'sealpir.log' : m.kind === 'client' ? 'client.log' : null;
  if (!w.unsure) {
    if (path.dirname(rel) !== e.name) w.bad('C16:wrong-place', 'the report of worker ' + m.id + ' on ' + e.name + ' is stored under ' + rel);
    else if (want !== null && path.basename(rel) !== want) w.bad('C16:wrong-place', 'the report of worker ' + m.id + ' at ' + pos + ' of ' + e.name + ' is stored as ' + rel);
  }
  const own = w.results.get(fin.f);
  if (own && !(own.m === m && own.e === e) && !w.reload) w.bad('C16:overwritten', 'the report of worker ' + own.m.id + ' in ' + rel + ' is overwritten by that of worker ' + m.id);
  w.results.set(fin.f, { m, e, s: req.body });
  e.reported++;
  m.cur = null;
  m.marked = false;
  if (e.type === 'checklist' && m.kind === 'client') for (const s of e.taken.server.values()) if (s.cur && s.cur.e === e) s.marked = true;
}

// ------------------------------------------------------------------ operator
// Types a line; the listing is read back from what is printed.
async function type(w, line) {
  w.steps++;
  w.log('type ' + line);
  w.writes = [];
  w.lineCb(line);
  w.async = true;
  await w.drain();
}
async function listing(w) {
  if (w.crash) return [];
  w.quiet = true;
  const q = w.questionCb;
  w.questionCb = null;
  const n = w.out.length;
  w.lineCb('experiments');
  w.async = true;
  await w.drain();
  w.questionCb = q;
  w.quiet = false;
  const out = [];
  for (const s of w.out.slice(n).join('').split('\n')) {
    const m = /Experiment (\d+) \((.*)\), status: (.*)$/.exec(s);
    if (m) out.push({ id: Number(m[1]), name: m[2], status: m[3] });
  }
  w.out.length = n;
  return out;
}
// Experiments that appeared since the last listing join the model, in the order shown.
async function sync(w, expected) {
  const ls = await listing(w);
  const fresh = ls.filter(x => !w.byId.has(w.boots + '/' + x.id));
  const names = fresh.map(x => x.name);
  if (expected) {
    const a = names.slice().sort().join(' '), b = expected.map(x => x.name).sort().join(' ');
    if (a !== b) w.bad('C17:queued', 'the operator described [' + b + '], added were [' + a + ']');
  }
  for (const x of fresh) {
    const d = (expected || []).find(y => y.name === x.name);
    if (!d) { w.unsure = true; continue; }
    const e = Object.assign({}, d, { id: x.id, taken: { client: new Map(), server: new Map() }, reported: 0, killed: false, disturbed: false });
    w.byId.set(w.boots + '/' + x.id, e);
    w.exps.push(e);
    if (e.clientsNum) w.queue.client.push(e);
    if (e.serversNum) w.queue.server.push(e);
  }
  return ls;
}
function checkStatus(w, ls) {
  if (w.unsure) return;
  for (const x of ls) {
    const e = w.byId.get(w.boots + '/' + x.id);
    if (!e) continue;
    const all = e.reported === e.clientsNum + e.serversNum;
    const done = /\bdone\b/.test(x.status);
    if (done && !all) w.bad('C16:finished-early', e.name + ' is shown as "' + x.status + '" when ' + e.reported + ' of ' + (e.clientsNum + e.serversNum) + ' workers reported');
    if (!done && all) w.bad('C16:finished-not-shown', e.name + ' is shown as "' + x.status + '" although all workers reported');
  }
  const shown = new Set(ls.map(x => w.boots + '/' + x.id));
  for (const [k, e] of w.byId) if (k.startsWith(w.boots + '/') && !e.cleared && !shown.has(k)) w.bad('C17:lost', e.name + ' is no longer listed');
}

function checkInfo(w, e, id, text) {
  const bad = (what, msg) => w.bad('C24:' + what, 'info ' + id + ': ' + msg);
  const h = /Experiment (\d+) \((.*)\)/.exec(text);
  if (!h || Number(h[1]) !== id || h[2] !== e.name) { bad('other-experiment', 'the experiment is ' + e.name + ', shown is "' + text.slice(0, 80) + '"'); return; }
  for (const k of ['mode', 'parties', 'parallelism', 'epsilon', 'delta', 'queries', 'tableSize', 'pirtype']) {
    if (e[k] === undefined) continue;
    const v = new RegExp('\\b' + k + ':[ \\t]*(\\S+)').exec(text);
    if (!v || !(v[1] === String(e[k]) || num(v[1], e[k]))) { bad('parameters', k + ' of ' + e.name + ' is ' + e[k] + ', shown is ' + (v ? v[1] : 'nothing')); return; }
  }
  checkState(w, e, (/status:[ \t]*(.*)/.exec(text) || [])[1] || '', bad);
  const held = [];
  for (const k of ['client', 'server']) for (const [pos, m] of e.taken[k]) held.push([m.id, k === 'client' ? pos.slice(1) : pos]);
  if (new Set(held.map(x => x[0])).size !== held.length) return;     // one worker in two places
  w.count('info_checked');
  if (e.type === 'dppir') {
    const shown = [...text.matchAll(/worker (\d+) -> (\S+)/g)].map(x => x[1] + ' -> ' + x[2]).sort().join(', ');
    const want = held.map(x => x.join(' -> ')).sort().join(', ');
    if (shown !== want) bad('places', 'the places of ' + e.name + ' are held by [' + want + '], shown are [' + shown + ']');
    return;
  }
  for (const k of ['client', 'server']) {
    const s = new RegExp('\\b' + k + 's:[^\\]]*').exec(text);
    const shown = s ? (s[0].match(/\d+/g) || []).map(Number).sort((a, b) => a - b).join(', ') : 'nothing';
    const want = [...e.taken[k].values()].map(m => Number(m.id)).sort((a, b) => a - b).join(', ');
    if (shown !== want) bad('places', 'the ' + k + 's of ' + e.name + ' are [' + want + '], shown are [' + shown + ']');
  }
}
// The state shown of an experiment, beyond whether it is done.
function checkState(w, e, status, bad) {
  const total = e.clientsNum + e.serversNum, staffed = e.taken.client.size + e.taken.server.size === total, all = e.reported === total;
  if (/\bdone\b/.test(status) !== all) bad('state', e.name + ' is shown as "' + status + '" with ' + e.reported + ' of ' + total + ' reports');
  const t = /working for ([\d.e+-]+)/.exec(status);
  if (/working/.test(status) && !staffed) bad('state', e.name + ' is shown as "' + status + '" with ' + (e.taken.client.size + e.taken.server.size) + ' of ' + total + ' workers');
  else if (/waiting/.test(status) && staffed) bad('state', e.name + ' is shown as "' + status + '" though it has all its workers');
  else if (t && Math.abs(Number(t[1]) - (w.now - e.startedAt) / 1000) > 2) bad('state', e.name + ' is shown as "' + status + '", it has had all its workers for ' + (w.now - e.startedAt) / 1000 + ' s');
}
function checkWorkers(w, text) {
  const shown = new Map();
  for (const l of text.split('\n')) {
    const x = /Worker (\d+),/.exec(l);
    if (!x) continue;
    if (shown.has(x[1])) w.bad('C24:workers', 'worker ' + x[1] + ' is shown twice');
    shown.set(x[1], l);
    if (!w.workers.has(x[1])) w.bad('C24:workers', 'worker ' + x[1] + ' is shown, but never registered');
  }
  for (const [id, m] of w.workers) {
    const l = shown.get(id);
    if (!l) { w.bad('C24:workers', 'worker ' + id + ' is registered but not shown'); continue; }
    const f = k => { const v = new RegExp('\\b' + k + ': ([^,]*)').exec(l); return v ? v[1].trim() : null; };
    const st = m.cur ? (m.marked ? 'cleaning up' : 'working') : 'ready';
    if (f('worker type') !== m.kind || f('ip') !== m.ip4) w.bad('C24:workers', 'worker ' + id + ' is a ' + m.kind + ' at ' + m.ip4 + ', shown is "' + l + '"');
    if (f('status') !== st) w.bad('C24:worker-state', 'worker ' + id + ' is ' + st + (m.cur ? ' on ' + m.cur.e.name : '') + ', shown is "' + l + '"');
    const p = parseFloat(f('last ping')) * 1000;
    if (!(p >= w.now - m.heardTo - 100 && p <= w.now - m.heardFrom + 100)) w.bad('C24:last-ping', 'worker ' + id + ' was last heard ' + (w.now - m.heardTo) / 1000 + ' s ago, shown is "' + l + '"');
    w.count('workers_shown');
  }
}

// The operator is a coroutine of the event loop: it runs from one sleep to the next.
const sleepUntil = (w, ms) => {
  if (w.opYield) { const y = w.opYield; w.opYield = null; y(); }
  return new Promise(go => w.after(ms, () => new Promise(y => { w.opYield = y; go(); })));
};

function expansion(w, op) {
  const out = [], n = s => String(s).split(',').map(Number);
  if (op.what === 'dppir') {
    for (const t of n(op.tableSize)) for (const ps of n(op.parties)) for (const pr of n(op.parallelism)) for (const b of n(op.batch)) for (const ep of n(op.epsilon)) for (const de of n(op.delta)) {
      out.push({ type: 'dppir', name: [op.name, t, ps, pr, b, ep, de].join('-'), tableSize: t, parties: ps, parallelism: pr, clientsNum: pr, serversNum: ps * pr,
                 queries: Math.floor(b / pr), mode: op.mode, epsilon: ep, delta: de });
    }
  } else {
    for (const t of n(op.tableSize)) for (const q of n(op.queries)) {
      const e = { type: op.what, name: [op.name, t, q].join('-'), tableSize: t, queries: q };
      if (op.what === 'checklist') Object.assign(e, { pirtype: op.pirtype || 'Punc', clientsNum: 1, serversNum: 2 });
      else Object.assign(e, { clientsNum: 1, serversNum: 0 });
      out.push(e);
    }
  }
  return out;
}
function fromStored(text) {
  return JSON.parse(text).map(o => {
    const e = { type: o.experimentType, name: o.name_, clientsNum: o.clientsNum, serversNum: o.serversNum, tableSize: o.tableSize, queries: o.queries };
    for (const k of ['mode', 'parties', 'parallelism', 'epsilon', 'delta', 'pirtype']) if (o[k] !== undefined) e[k] = o[k];
    return e;
  });
}

async function operate(w, op) {
  if (w.crash) return;
  w.count('op_' + op.op);
  switch (op.op) {
    case 'new': {
      const ex = expansion(w, op);
      const answers = op.what === 'dppir' ? [op.name, op.mode, op.tableSize, op.parties, op.parallelism, op.batch, op.epsilon, op.delta]
        : op.what === 'checklist' ? [op.name, op.tableSize, op.queries, op.pirtype] : [op.name, op.tableSize, op.queries];
      await type(w, 'new ' + op.what);
      for (const a of answers) {
        if (!w.questionCb || w.crash) break;
        if (op.pause) { await sleepUntil(w, op.pause); if (w.crash) return; }
        await type(w, String(a));
      }
      // What the pool cannot staff is refused.
      const fits = e => e.type !== 'dppir' || (e.serversNum <= w.known.server && e.clientsNum <= w.known.client);
      const cut = ex.findIndex(e => !fits(e));
      if (op.mode === 'bogus' || op.pirtype === 'bogus') await sync(w, []);
      else if (cut < 0) await sync(w, ex);
      else {
        const ls = await listing(w);
        const fresh = ls.filter(x => !w.byId.has(w.boots + '/' + x.id)).map(x => x.name);
        if (ex.some(e => !fits(e) && fresh.includes(e.name))) w.bad('C17:oversized', 'an experiment needing more workers than exist was accepted: ' + fresh.join(' '));
        await sync(w, ex.filter(e => fresh.includes(e.name)));
      }
      break;
    }
    case 'kill': {
      const ls = await sync(w);
      const pool = ls.filter(x => { const e = w.byId.get(w.boots + '/' + x.id); return e; });
      if (!pool.length) return;
      const x = op.busy ? (pool.find(y => { const e = w.byId.get(w.boots + '/' + y.id); return e.taken.client.size + e.taken.server.size > 0 && e.reported < e.clientsNum + e.serversNum; }) || pool[op.k % pool.length]) : pool[op.k % pool.length];
      await kill(w, w.byId.get(w.boots + '/' + x.id), x.id);
      break;
    }
    case 'log': {
      const ids = [...w.workers.keys()];
      if (!ids.length) return;
      const id = ids[op.k % ids.length];
      const m = w.workers.get(id);
      if (op.idle || (m.cur && !m.d.dead)) {
        m.logAsked = true;
        m.logEpoch = w.now;
        await type(w, 'log ' + id);
      }
      break;
    }
    case 'list': {
      const ls = await listing(w);
      checkStatus(w, ls);
      break;
    }
    case 'info': {
      const ls = await sync(w);
      if (!ls.length) { await type(w, 'info ' + op.k); break; }
      const x = ls[op.k % ls.length];
      const n = w.out.length;
      await type(w, 'info ' + x.id);
      const e = w.byId.get(w.boots + '/' + x.id);
      if (e && !w.unsure && !w.crash) checkInfo(w, e, x.id, w.out.slice(n).join(''));
      break;
    }
    case 'workers': {
      const n = w.out.length;
      await type(w, 'workers');
      if (!w.unsure && !w.crash) checkWorkers(w, w.out.slice(n).join(''));
      break;
    }
    case 'raw': await type(w, op.line); break;
    case 'clear': {
      const ls = await sync(w);
      checkStatus(w, ls);
      await type(w, 'clear');
      for (const e of w.exps) {
        if (e.cleared) continue;
        const partial = e.taken.client.size < e.clientsNum || e.taken.server.size < e.serversNum;
        if (partial && !e.killed) markKilled(w, e);
        e.cleared = true;
      }
      w.queue.client = [];
      w.queue.server = [];
      const after = await listing(w);
      if (after.length) w.bad('C17:clear', 'experiments are listed after clear: ' + after.map(x => x.name).join(' '));
      break;
    }
    case 'store': {
      const f = path.join(DIR, 'stored', op.file + '.json');
      w.out.length = 0;
      await type(w, 'store ' + op.file);
      const now = w.files.get(f);
      const said = w.out.join('');
      const ok = /success/i.test(said) && !/could not/i.test(said);
      w.out.length = 0;
      const want = w.exps.filter(e => !e.cleared && e.boots === undefined);
      let got = null;
      try { got = fromStored(now); } catch (e) { /* unreadable */ }
      const same = got && JSON.stringify(got.map(describe)) === JSON.stringify(want.map(describe));
      if (ok && !same && !w.unsure) w.bad('C17:stored', 'store reports success but ' + op.file + '.json does not describe the listed experiments');
      if (!ok && !w.writes.some(x => !x.ok) && !w.crash) w.bad('C17:stored', 'store fails without a disk fault');
      break;
    }
    case 'load': {
      const f = path.join(DIR, 'stored', op.file + '.json');
      let want = [];
      if (op.file === '*') want = [...w.files.keys()].filter(x => path.dirname(x) === path.dirname(f) && x.endsWith('.json')).sort().flatMap(x => fromStored(w.files.get(x)));
      else try { want = fromStored(w.files.get(f)); } catch (e) { want = []; }
      if (w.exps.some(e => want.some(x => x.name === e.name))) w.reload = true;
      if (op.interactive) {
        await type(w, 'loadi ' + op.file);
        let i = 0;
        while (w.questionCb && i < want.length) {
          const no = (op.mask >> i) & 1;
          if (op.pause) await sleepUntil(w, op.pause);
          await type(w, no ? (op.mask & 64 ? 'no' : 'N') : (op.mask & 128 ? '' : 'y'));
          await sync(w, no ? [] : [want[i]]);
          i++;
        }
        if (i < want.length && !w.crash) w.bad('C17:loaded', 'loadi asks about ' + i + ' of ' + want.length + ' experiments');
        await sync(w, []);
        return;
      }
      await type(w, 'load ' + op.file);
      const ls0 = w.exps.length;
      await sync(w, want);
      const added = w.exps.slice(ls0).map(e => e.name).join(' ');
      if (added !== want.map(e => e.name).join(' ')) w.bad('C17:loaded', 'loading ' + op.file + ' adds [' + added + '] instead of [' + want.map(e => e.name).join(' ') + ']');
      break;
    }
    case 'restart': {
      // The orchestrator process ends; its files stay, its memory does not.
      w.count('orchestrator_restart');
      w.log('restart');
      w.up = false;
      w.boots++;
      w.exps.forEach(e => { e.cleared = true; e.killed = true; });
      w.queue.client = [];
      w.queue.server = [];
      w.workers = new Map();
      w.known = { client: 0, server: 0 };
      w.reload = true;
      await sleepUntil(w, op.down);
      w.boots--;
      w.boot();
      w.up = true;
      await w.drain();
      if (!op.stale) for (const d of w.daemons) { d.dead = true; if (d.job) endJob(w, d.job, 'host down'); startDaemon(w, d, 100 + w.delay()); }
      else w.unsure = true;
      if (!op.stale) await sleepUntil(w, 60000);
      break;
    }
  }
}
function markKilled(w, e) {
  e.killed = true;
  for (const k of ['client', 'server']) {
    w.queue[k] = w.queue[k].filter(x => x !== e);
    for (const m of e.taken[k].values()) if (m.cur && m.cur.e === e) { m.marked = true; m.waits = 0; }
  }
}
async function kill(w, e, id) {
  w.count('kills');
  if (e.taken.client.size + e.taken.server.size < e.clientsNum + e.serversNum) w.count('kills_before_fully_staffed');
  await type(w, 'kill ' + id);
  markKilled(w, e);
  if (e.type === 'checklist') e.disturbed = true;
}

// ------------------------------------------------------------------ run
async function run(scn, choices, trace) {
  const w = new World(scn, choices, trace);
  current = w;
  w.known = { client: 0, server: 0 };
  w.results = new Map();
  w.writes = [];
  w.up = true;
  w.boot();
  await w.drain();
  scn.workers.forEach((x, i) => {
    const d = { kind: x.kind, n: i, ip: x.ip, ip4: x.ip.replace(/^::ffff:/, '') };
    w.daemons.push(d);
    startDaemon(w, d, x.at);
  });
  for (const f of scn.crashes || []) {
    w.after(f.at, () => {
      const d = w.daemons[f.w];
      if (!d || d.dead || !w.faultsOn) return;
      w.count('daemon_crash');
      w.log('crash ' + d.kind + d.n);
      disturb(w, d);
      d.dead = true;
      if (d.job) endJob(w, d.job, 'host down');
      startDaemon(w, d, f.down);
      d.at = 'down';
    });
  }
  // Operator script, then the end phase.
  let opDone = false;
  const end = { ok: false };
  const operator = (async () => {
    for (const op of scn.ops) {
      await sleepUntil(w, op.wait);
      if (w.stop) return;
      if (w.crash) return;
      await operate(w, op);
      w.async = true;
    }
    await sleepUntil(w, 1000);
    w.faultsOn = false;
    w.log('faults off');
    // Progress once faults stop: disturbed experiments are killed by the operator.
    for (let round = 0; round < (scn.live ? 60 : 4); round++) {
      await sleepUntil(w, 120000);
      if (w.crash || w.stop) return;
      const ls = await sync(w);
      checkStatus(w, ls);
      const open = w.exps.filter(e => !e.killed && !e.cleared && e.reported < e.clientsNum + e.serversNum);
      const busy = w.daemons.filter(d => !['idle', 'ping'].includes(d.at));
      if (!open.length && !busy.length) { end.ok = true; break; }
      if (scn.endkill) {
        for (const e of open) if (e.disturbed) await kill(w, e, e.id);
        // A killed experiment may have been disturbed again since.
        for (const e of w.exps) if (e.killed && !e.cleared && busy.some(d => { const m = w.workers.get(d.id); return m && m.cur && m.cur.e === e && !m.marked; })) await kill(w, e, e.id);
      }
    }
    end.rounds = true;
  })();
  const over = () => { opDone = true; w.stop = true; if (w.opYield) { w.opYield(); w.opYield = null; } };
  operator.then(over, e => { w.harness = w.harness || e; over(); });
  let idle = 0;
  for (;;) {
    await w.drain();
    if (w.harness) throw w.harness;
    if (opDone || (w.crash && scn.check !== 'none')) break;
    if (w.steps > 60000) { break; }
    if (w.heap.size === 0) { await new Promise(r => setImmediate(r)); if (opDone) break; if (++idle > 5) throw new HarnessError('simulation has nothing to do'); continue; }
    idle = 0;
    const ev = w.heap.pop();
    if (ev.t > w.now) w.now = ev.t;
    const p = ev.f();
    if (p && typeof p.then === 'function') await p;
    if ((w.steps & 3) === 0) {
      let h = 0x811c9dc5;
      for (const d of w.daemons) h = fnv(h, d.at + (d.dead ? 'x' : ''));
      for (const e of w.exps) h = fnv(h, e.taken.client.size + '/' + e.taken.server.size + '/' + e.reported + (e.killed ? 'k' : ''));
      w.states.add(h);
    }
  }
  if (w.crash && w.crash.kind !== 'exit') w.bad('C18:orchestrator-died', w.crash.msg + ' after ' + (w.lastReq || '') );
  if (w.crash && w.crash.kind === 'exit' && !scn.mayExit) w.bad('C18:orchestrator-died', w.crash.msg);
  if (!w.crash && !w.unsure && scn.live) {
    for (const e of w.exps) {
      if (e.killed || e.cleared || e.disturbed) continue;
      if (e.reported < e.clientsNum + e.serversNum) {
        w.bad('C16:not-finished', 'undisturbed experiment ' + e.name + ' is not finished ' + Math.round((w.now - w.t0) / 1000) + ' s on: ' + e.taken.client.size + '/' + e.clientsNum + ' clients, ' + e.taken.server.size + '/' + e.serversNum + ' servers, ' + e.reported + ' reports');
        break;
      }
    }
    if (!end.ok) {
      for (const d of w.daemons) {
        if (d.dead || ['idle', 'ping'].includes(d.at)) continue;
        const m = w.workers.get(d.id);
        if (m && m.cur && m.cur.e.cleared && m.cur.e.disturbed) continue;
        if (m && m.cur && !m.cur.e.killed && !m.cur.e.disturbed) continue;   // reported above
        w.bad('C16:worker-stuck', d.kind + d.n + ' (worker ' + d.id + ') is stuck (' + d.at + ') in ' + (m && m.cur ? m.cur.e.name : 'no experiment'));
        break;
      }
    }
    if (!w.reload) for (const [f, x] of w.results) if (w.files.get(f) !== x.s) { w.bad('C16:overwritten', path.relative(OUT, f) + ' no longer holds the report of worker ' + x.m.id); break; }
  }
  current = null;
  const nontrivial = w.exps.length > 0 && w.steps > 30;
  return { violations: w.violations, choices: w.used, hash: w.hash.toString(16), counters: w.counters, steps: w.steps, vtime: (w.now - w.t0) / 1000, states: [...w.states],
           nontrivial, exps: w.exps.length, finished: w.exps.filter(e => e.reported === e.clientsNum + e.serversNum).length, end: end.ok ? 'quiescent' : w.crash ? 'crashed' : 'open', unsure: !!w.unsure };
}

// ------------------------------------------------------------------ scenarios
function generate(check, seed) {
  const r = rng(seed);
  const s = { check, seed, sched: seed * 7 + 3, delays: r.pick([1, 5, 8, 12, 12]), slow: r.pick([0.1, 0.4, 1]), workers: [], ops: [], crashes: [], files: {}, live: true, endkill: true };
  const ns = 2 + r.below(5), nc = 1 + r.below(3);
  const local = r.chance(0.3), mapped = r.chance(0.4);
  const kinds = [];
  for (let i = 0; i < ns; i++) kinds.push('server');
  for (let i = 0; i < nc; i++) kinds.push('client');
  for (let i = kinds.length - 1; i > 0; i--) { const j = r.below(i + 1); [kinds[i], kinds[j]] = [kinds[j], kinds[i]]; }
  kinds.forEach((k, i) => s.workers.push({ kind: k, at: r.below(3000), ip: (mapped ? '::ffff:' : '') + (local ? '127.0.0.1' : '10.0.' + r.below(3) + '.' + (i + 1)) }));
  let n = 0;
  const big = () => 10 + r.below(5000);
  const list = (f, m) => { const k = r.chance(0.3) ? 2 : 1; const v = []; while (v.length < k) { const x = f(); if (!v.includes(x)) v.push(x); } return v.join(','); };
  const newOp = () => {
    const what = r.pick(['dppir', 'dppir', 'checklist', 'sealpir']);
    const o = { op: 'new', what, name: 'e' + n++, wait: r.pick([100, 2000, 7000, 30000, 100000]), pause: r.pick([0, 0, 500, 6000]) };
    if (what === 'dppir') {
      const par = 1 + r.below(Math.min(nc, Math.floor(ns / 2)));
      const ps = 2 + r.below(Math.floor(ns / par) - 1);
      Object.assign(o, { mode: r.pick(['online', 'offline', 'all']), tableSize: list(big), parties: String(ps), parallelism: String(par), batch: list(big), epsilon: list(() => r.pick([0.1, 0.5, 1, 2])), delta: r.pick(['0.000001', '0.01', '1e-9']) });
    } else if (what === 'checklist') Object.assign(o, { tableSize: list(big), queries: list(big), pirtype: r.pick(['', 'Punc', 'DPF']) });
    else Object.assign(o, { tableSize: list(big), queries: list(big) });
    return o;
  };
  const stored = () => {
    const arr = [], k = 1 + r.below(4);
    for (let i = 0; i < k; i++) {
      const what = r.pick(['dppir', 'checklist', 'sealpir']);
      const o = { name_: 'l' + n++ + '-x', experimentType: what };
      if (what === 'dppir') {
        const par = 1 + r.below(Math.min(nc, Math.floor(ns / 2))), ps = 2 + r.below(Math.floor(ns / par) - 1);
        Object.assign(o, { clientsNum: par, serversNum: ps * par, mode: r.pick(['online', 'offline', 'all']), parties: ps, parallelism: par, epsilon: r.pick([0.1, 1]), delta: r.pick([0.000001, 0.1]), queries: big(), tableSize: big() });
      } else if (what === 'checklist') Object.assign(o, { clientsNum: 1, serversNum: 2, pirtype: r.pick(['Punc', 'DPF']), queries: big(), tableSize: big() });
      else Object.assign(o, { clientsNum: 1, serversNum: 0, queries: big(), tableSize: big() });
      arr.push(o);
    }
    return JSON.stringify(arr, null, 2);
  };
  const wait = () => r.pick([1, 500, 3000, 8000, 20000, 60000]);
  s.ops.push({ op: 'list', wait: 45000 });
  const faulty = r.chance(check === 'C15' || check === 'C16' ? 0.5 : 0.3);
  if (faulty) {
    if (r.chance(0.5)) s.loss = r.pick([0.01, 0.05]);
    if (r.chance(0.5)) s.jobcrash = r.pick([0.1, 0.4]);
    if (r.chance(0.3)) s.genfail = r.pick([0.2, 0.6]);
    if (r.chance(0.4)) s.disk = r.pick([0.02, 0.2]);
    if (r.chance(0.5)) for (let i = 1 + r.below(3); i > 0; i--) s.crashes.push({ at: 40000 + r.below(400000), w: r.below(s.workers.length), down: r.pick([10, 5000, 60000]) });
  }
  if (r.chance(0.3)) s.oddlog = true;
  if (check === 'C16' && r.chance(0.05)) s.biglog = r.pick([0.2, 0.6]);
  if (r.chance(0.4)) s.emptylog = r.pick([0.1, 0.5]);
  if (r.chance(0.4)) { s.files['pre.json'] = stored(); }
  const kills = check === 'C16' || check === 'C24' ? r.chance(0.7) : r.chance(0.4);
  const nops = 3 + r.below(check === 'C24' ? 20 : 10);
  for (let i = 0; i < nops; i++) {
    const k = r.below(12);
    if (check === 'C24' && i > 0 && r.chance(0.6)) {
      s.ops.push(r.pick([{ op: 'info', k: r.below(20) }, { op: 'workers' }, { op: 'log', k: r.below(20), idle: r.chance(0.2) }]));
      s.ops[s.ops.length - 1].wait = wait();
      continue;
    }
    if (k < 5 || i === 0) s.ops.push(newOp());
    else if (k < 7 && kills) s.ops.push({ op: 'kill', k: r.below(20), busy: r.chance(0.6), wait: wait() });
    else if (k === 7) s.ops.push({ op: 'log', k: r.below(20), idle: check === 'C18' && r.chance(0.2), wait: wait() });
    else if (k === 8) s.ops.push({ op: r.pick(['workers', 'info']), k: r.below(6), wait: wait() });
    else if (k === 9 && s.files['pre.json'] && !s.loaded) { s.loaded = true; s.ops.push({ op: 'load', file: 'pre', wait: wait(), interactive: r.chance(0.4), mask: r.below(256), pause: r.pick([0, 3000]) }); }
    else if (k === 10 && !faulty && r.chance(0.5)) s.ops.push({ op: 'clear', wait: wait() });
    else s.ops.push({ op: 'list', wait: wait() });
  }
  if (check === 'C17') {
    for (let i = r.below(3); i > 0; i--) {
      const o = newOp();
      if (r.chance(0.5) && o.what === 'dppir') { if (r.chance(0.5)) o.parties = o.parties + ',' + (ns + 1); else o.parallelism = o.parallelism + ',' + (nc + 1); }
      else if (o.what === 'dppir') o.mode = r.pick(['bogus', 'all']);
      else if (o.what === 'checklist') o.pirtype = r.pick(['bogus', 'DPF']);
      s.ops.splice(1 + r.below(s.ops.length), 0, o);
    }
    if (r.chance(0.8)) {
      s.disk = r.chance(0.5) ? 0.3 : 0;
      s.ops.push({ op: 'store', file: 'mine', wait: wait() });
      if (r.chance(0.3)) s.ops.push({ op: 'store', file: 'mine', wait: wait() });
      if (r.chance(0.5)) s.ops.push({ op: 'restart', down: r.pick([100, 10000]), wait: wait() });
      else s.ops.push({ op: 'clear', wait: wait() });
      s.ops.push({ op: 'load', file: 'mine', wait: wait(), interactive: r.chance(0.3), mask: r.below(256), pause: r.pick([0, 3000]) });
      s.ops.push({ op: 'list', wait: 300000 });
    }
    if (r.chance(0.15)) {
      s.files['aa.json'] = stored();
      if (r.chance(0.6)) s.files['zz.json'] = stored();
      s.files[r.pick(['notes.txt', 'aa.json.bak', 'json', 'xjson'])] = r.pick(['not an experiment', '', stored()]);
      s.ops.splice(1 + r.below(Math.min(4, s.ops.length - 1)), 0, { op: 'load', file: '*', wait: wait(), interactive: r.chance(0.3), mask: r.below(256), pause: r.pick([0, 3000]) });
    } else if (r.chance(0.3)) { const t = s.files['torn.json'] = stored().slice(0, -1 - r.below(60)); s.ops.push({ op: 'load', file: 'torn', wait: wait() }); }
  }
  if (check === 'C18') {
    const junk = () => r.pick(['kill', 'kill 99', 'kill x', 'info', 'info 77', 'info -1', 'log', 'log 99', 'log x', 'new', 'new foo', 'load', 'load nothing', 'load torn', 'load *', 'store', 'workers', 'experiments', 'help', '', '   ', 'killall', 'clearx', 'loadi nothing', 'new dppir']);
    s.files['torn.json'] = r.pick(['[{"experimentType": "dpp', '{}', '[]', '[{"experimentType":"other"}]', '', '[null]']);
    for (let i = 1 + r.below(6); i > 0; i--) s.ops.splice(1 + r.below(s.ops.length), 0, { op: 'raw', line: junk(), wait: wait() });
    if (r.chance(0.5)) s.ops.push({ op: 'restart', stale: true, down: r.pick([100, 3000, 20000]), wait: wait() }, { op: 'list', wait: 120000 }, newOp(), { op: 'list', wait: 60000 });
    s.live = false;
  }
  return s;
}

module.exports = { run, generate };
if (require.main === module) {
  const [, , check, a, b, t] = process.argv;
  (async () => {
    const seen = {};
    let steps = 0;
    const ends = {};
    const t0 = Date.now();
    for (let i = Number(a); i < Number(b); i++) {
      const tr = t ? [] : null;
      let r;
      try { r = await run(generate(check, i), null, tr); } catch (e) { console.log('seed', i, e); break; }
      steps += r.steps;
      ends[r.end] = (ends[r.end] || 0) + 1;
      if (tr) console.log(tr.join('\n'));
      for (const v of r.violations) { seen[v.cls] = seen[v.cls] || [0, i, v.msg]; seen[v.cls][0]++; }
    }
    console.log(seen, ends, steps, Date.now() - t0, 'ms');
  })();
}
