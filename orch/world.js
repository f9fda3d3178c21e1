'use strict';
// Deterministic simulation of the experiment orchestrator: the real
// experiments/orchestrator/*.js run against a simulated network, disk,
// terminal, clock and child processes, polled by modelled worker daemons.
const path = require('path');
const vm = require('vm');
const realFs = require('fs');

const REPO = process.env.REPO || '/repo';
const DIR = path.join(REPO, 'experiments', 'orchestrator');

class HarnessError extends Error {}

// ------------------------------------------------------------------ loading
const scripts = new Map();
const ARGS = ['exports', 'require', 'module', '__filename', '__dirname', 'process', 'console', 'Date',
  'setTimeout', 'setInterval', 'setImmediate', 'clearTimeout', 'clearInterval', 'clearImmediate', 'Math'];
function compile(file) {
  if (!scripts.has(file)) {
    const src = realFs.readFileSync(file, 'utf8').replace(/^#!.*/, '');
    scripts.set(file, vm.compileFunction(src, ARGS, { filename: file }));
  }
  return scripts.get(file);
}
function sources() {
  return realFs.readdirSync(DIR).filter(f => f.endsWith('.js')).sort()
    .map(f => [f, realFs.readFileSync(path.join(DIR, f), 'utf8')]);
}
const HARMLESS = new Set(['path', 'util', 'events', 'assert', 'url', 'querystring', 'string_decoder', 'os', 'buffer']);

// ------------------------------------------------------------------ random
function rng(seed) {
  let a = (seed ^ 0x9e3779b9) >>> 0, b = (Math.floor(seed / 4294967296) ^ 0x85ebca6b) >>> 0;
  const next = () => {
    a = (a + 0x6d2b79f5) >>> 0;
    let t = a ^ b;
    b = (Math.imul(b, 1664525) + 1013904223) >>> 0;
    t = Math.imul(t ^ (t >>> 15), t | 1);
    t ^= t + Math.imul(t ^ (t >>> 7), t | 61);
    return (t ^ (t >>> 14)) >>> 0;
  };
  for (let i = 0; i < 4; i++) next();
  return { u32: next, below: n => next() % n, chance: p => next() / 4294967296 < p,
           pick: arr => arr[next() % arr.length] };
}
function fnv(h, s) {
  for (let i = 0; i < s.length; i++) {
    h ^= s.charCodeAt(i);
    h = Math.imul(h, 0x01000193);
  }
  return h >>> 0;
}

// ------------------------------------------------------------------ heap
class Heap {
  constructor() { this.a = []; this.n = 0; }
  push(t, f) {
    const a = this.a, e = { t: t, s: this.n++, f: f };
    let i = a.length;
    a.push(e);
    while (i > 0) {
      const p = (i - 1) >> 1;
      if (a[p].t < e.t || (a[p].t === e.t && a[p].s < e.s)) break;
      a[i] = a[p]; i = p;
    }
    a[i] = e;
    return e;
  }
  pop() {
    const a = this.a, top = a[0], e = a.pop();
    if (a.length) {
      let i = 0;
      for (;;) {
        let c = 2 * i + 1;
        if (c >= a.length) break;
        if (c + 1 < a.length && (a[c + 1].t < a[c].t || (a[c + 1].t === a[c].t && a[c + 1].s < a[c].s))) c++;
        if (e.t < a[c].t || (e.t === a[c].t && e.s < a[c].s)) break;
        a[i] = a[c]; i = c;
      }
      a[i] = e;
    }
    return top;
  }
  get size() { return this.a.length; }
}

const DELAYS = [1, 2, 7, 40, 300, 1500, 2100, 4000, 5100, 9000, 16000, 40000];

// ------------------------------------------------------------------ world
class World {
  constructor(scn, choices, trace) {
    this.scn = scn;
    this.trace = trace;
    this.replay = choices || null;
    this.used = [];
    this.r = rng(scn.sched);
    this.now = 1600000000000;
    this.t0 = this.now;
    this.heap = new Heap();
    this.hash = 0x811c9dc5;
    this.violations = [];
    this.seenCls = new Set();
    this.counters = {};
    this.states = new Set();
    this.steps = 0;
    this.faultsOn = true;
    this.quiet = false;            // harness listing: not part of the history
    this.files = new Map();        // durable
    for (const [p, c] of Object.entries(scn.files || {})) this.files.set(path.join(DIR, 'stored', p), c);
    this.gen = 0;                  // configurations generated
    this.exps = [];                // reference model, in the order added
    this.byId = new Map();
    this.queue = { client: [], server: [] };
    this.workers = new Map();      // id -> model of the worker as the orchestrator knows it
    this.daemons = [];
    this.jobs = new Set();
    this.pendingHttp = 0;
    this.crash = null;
  }
  count(k, n = 1) { this.counters[k] = (this.counters[k] || 0) + n; }
  log(s) {
    this.hash = fnv(this.hash, s + '\n');
    if (this.trace) this.trace.push(((this.now - this.t0) / 1000).toFixed(3) + ' ' + s);
  }
  bad(cls, msg) {
    const k = cls;
    if (this.seenCls.has(k)) return;
    this.seenCls.add(k);
    this.log('VIOLATION ' + cls + ' ' + msg);
    this.violations.push({ cls: cls, msg: msg });
  }
  // A choice: 0 is the benign one.
  choose(n, p) {
    let v;
    if (this.replay) {
      v = this.used.length < this.replay.length ? this.replay[this.used.length] % n : 0;
    } else {
      v = (p === undefined || this.r.chance(p)) ? this.r.below(n) : 0;
    }
    this.used.push(v);
    return v;
  }
  delay() { return DELAYS[this.choose(this.scn.delays, this.scn.slow)]; }
  after(ms, f) { return this.heap.push(this.now + ms, f); }

  // ---------------------------------------------------------------- process
  boot() {
    const w = this;
    this.crash = null;
    this.routes = [];
    this.uses = [];
    this.lineCb = null;
    this.questionCb = null;
    this.listening = null;
    this.out = [];
    this.mods = new Map();
    this.timers = new Set();
    const boots = (this.boots = (this.boots || 0) + 1);
    const alive = () => boots === w.boots && !w.crash;
    this.alive = alive;

    const fmt = require('util').format;
    const print = (...a) => { if (alive()) { const s = fmt(...a); w.out.push(s + '\n'); if (!w.quiet) w.log('out ' + s.slice(0, 200)); } };
    const con = { log: print, error: print, warn: print, info: print, debug: print, clear: () => {}, trace: print, table: print,
                  assert: (c, ...a) => { if (!c) print(...a); } };
    class SimDate extends Date {
      constructor(...a) { if (a.length) super(...a); else super(w.now); }
      static now() { return w.now; }
    }
    const timer = (cb, ms, rep, args) => {
      const h = { dead: false, ref() { return h; }, unref() { return h; }, hasRef() { return true; } };
      const fire = () => {
        if (h.dead || !alive()) return;
        if (!rep) h.dead = true;
        w.guard(() => cb(...args));
        if (rep && !h.dead) w.after(Math.max(1, ms || 1), fire);
      };
      w.after(Math.max(1, ms || 1), fire);
      return h;
    };
    const setT = (cb, ms, ...a) => timer(cb, ms, false, a);
    const setI = (cb, ms, ...a) => timer(cb, ms, true, a);
    const setIm = (cb, ...a) => timer(cb, 1, false, a);
    const clr = h => { if (h) h.dead = true; };
    const math = Object.create(Math);
    math.random = () => (w.choose(1 << 20) + 0.5) / (1 << 20);
    const proc = {
      stdin: { on() {}, resume() {}, setEncoding() {} }, stdout: { write(s) { if (alive()) w.out.push(String(s)); return true; }, on() {}, isTTY: false },
      stderr: { write() { return true; } }, env: {}, argv: ['node', 'main.js'], platform: 'linux', pid: 1,
      exit(code) { w.exited(code); }, cwd: () => DIR, on(ev, cb) { if (ev === 'unhandledRejection' || ev === 'uncaughtException') w.handlers[ev] = cb; return proc; },
      once() { return proc; }, nextTick: (cb, ...a) => queueMicrotask(() => cb(...a)), hrtime: Object.assign(() => [Math.floor(w.now / 1000), (w.now % 1000) * 1e6], { bigint: () => BigInt(w.now) * 1000000n }),
      uptime: () => (w.now - w.t0) / 1000, memoryUsage: () => ({ rss: 1, heapUsed: 1 }), version: process.version, versions: process.versions, exitCode: undefined,
    };
    this.handlers = {};

    const express = () => {
      const app = { listen(port, ...a) { const cb = a.find(x => typeof x === 'function'); w.listening = cb || (() => {}); return { on() {}, close() {} }; },
                    set() { return app; }, disable() { return app; }, enable() { return app; } };
      app.use = (...a) => { w.uses.push(a); return app; };
      for (const m of ['get', 'post', 'put', 'all', 'delete']) {
        app[m] = (p, ...hs) => {
          if (m === 'get' && hs.length === 0) return undefined;
          w.addRoute(m, p, hs.flat());
          return app;
        };
      }
      app.route = p => { const o = {}; for (const m of ['get', 'post', 'put', 'all', 'delete']) o[m] = (...hs) => { w.addRoute(m, p, hs.flat()); return o; }; return o; };
      return app;
    };
    express.Router = () => { const a = express(); return a; };
    express.text = opts => ({ parser: 'text', opts });
    express.json = opts => ({ parser: 'json', opts });
    express.urlencoded = opts => ({ parser: 'urlencoded', opts });
    express.static = () => ({ parser: 'static' });
    const bodyParser = { text: opts => ({ parser: 'text', opts }), json: opts => ({ parser: 'json', opts }), raw: opts => ({ parser: 'raw', opts }),
                         urlencoded: opts => ({ parser: 'urlencoded', opts }) };
    const v4 = /^(25[0-5]|2[0-4]\d|1?\d?\d)(\.(25[0-5]|2[0-4]\d|1?\d?\d)){3}$/;
    const isV6 = s => require('net').isIPv6(s);
    const parse6 = s => ({ kind: () => 'ipv6', isIPv4MappedAddress: () => /^::ffff:/i.test(s) && v4.test(s.slice(7)),
                           toIPv4Address: () => ({ toString: () => s.slice(7), kind: () => 'ipv4' }), toString: () => s });
    const ipaddr = { IPv4: { isValid: s => v4.test(s), parse: s => ({ kind: () => 'ipv4', toString: () => s }) },
                     IPv6: { isValid: isV6, parse: parse6 }, isValid: s => v4.test(s) || isV6(s),
                     parse: s => v4.test(s) ? { kind: () => 'ipv4', toString: () => s } : parse6(s),
                     process: s => v4.test(s) ? { kind: () => 'ipv4', toString: () => s } : (/^::ffff:/i.test(s) ? { kind: () => 'ipv4', toString: () => s.slice(7) } : parse6(s)) };
    const readline = { createInterface: () => {
      const listeners = [];
      const rl = { on(ev, cb) { if (ev === 'line') listeners.push(cb); return rl; }, once() { return rl; }, close() {}, prompt() {}, setPrompt() {}, pause() { return rl; }, resume() { return rl; }, write() {},
        question(q, ...a) { const cb = a[a.length - 1]; if (w.questionCb) { return; } w.questionCb = cb; w.questionText = q; } };
      w.lineCb = line => {
        if (w.questionCb) { const cb = w.questionCb; w.questionCb = null; w.guard(() => cb(line)); return; }
        for (const l of listeners.slice()) w.guard(() => l(line));
      };
      return rl;
    } };
    const stubs = { express, 'body-parser': bodyParser, 'ipaddr.js': ipaddr, readline, fs: this.makeFs(), child_process: this.makeChild() };
    stubs['fs/promises'] = stubs.fs.promises;

    const load = file => {
      if (!realFs.existsSync(file)) {
        if (realFs.existsSync(file + '.js')) file += '.js';
        else if (realFs.existsSync(file + '.json')) return JSON.parse(realFs.readFileSync(file + '.json', 'utf8'));
        else throw new HarnessError('cannot find module ' + file);
      } else if (realFs.statSync(file).isDirectory()) file = path.join(file, 'index.js');
      if (w.mods.has(file)) return w.mods.get(file).exports;
      if (file.endsWith('.json')) return JSON.parse(realFs.readFileSync(file, 'utf8'));
      const m = { exports: {}, id: file, filename: file, loaded: false };
      w.mods.set(file, m);
      const req = name => {
        if (name.startsWith('node:')) name = name.slice(5);
        if (Object.prototype.hasOwnProperty.call(stubs, name)) return stubs[name];
        if (name.startsWith('.') || name.startsWith('/')) return load(path.resolve(path.dirname(file), name));
        if (HARMLESS.has(name)) return require(name);
        throw new HarnessError('module ' + name + ' has no stand-in in the simulator');
      };
      req.main = m;
      compile(file).call(m.exports, m.exports, req, m, file, path.dirname(file), proc, con, SimDate, setT, setI, setIm, clr, clr, clr, math);
      m.loaded = true;
      return m.exports;
    };
    load(path.join(DIR, 'main.js'));
    if (!this.listening) throw new HarnessError('main.js did not start listening');
    this.guard(() => this.listening());
    if (!this.lineCb) throw new HarnessError('no command line interface');
    this.log('boot ' + boots);
  }
  exited(code) {
    if (!this.crash) this.crash = { kind: 'exit', msg: 'process.exit(' + code + ')' };
    this.log('exit ' + code);
    throw { simExit: true };
  }
  // Run orchestrator code outside of a route: an exception ends the process.
  guard(f) {
    try {
      const r = f();
      if (r && typeof r.then === 'function') { this.async = true; this.track(r); }
      else this.async = true;
    } catch (e) {
      if (e && e.simExit) return;
      if (e instanceof HarnessError) throw e;
      this.died('uncaught exception', e);
    }
  }
  track(p) { p.then(() => {}, e => { if (e instanceof HarnessError) this.harness = e; else if (!(e && e.simExit)) this.died('unhandled rejection', e); }); }
  died(kind, e) {
    if (this.crash) return;
    if (this.handlers[kind === 'unhandled rejection' ? 'unhandledRejection' : 'uncaughtException']) { this.log('handled ' + kind); return; }
    this.crash = { kind, msg: kind + ': ' + String(e && e.message || e) };
    this.log('crash ' + this.crash.msg);
  }
  async drain() {
    if (!this.async) return;
    this.async = false;
    await new Promise(r => setImmediate(r));
    if (this.harness) throw this.harness;
  }

  // ---------------------------------------------------------------- disk
  makeFs() {
    const w = this;
    const norm = p => path.resolve(DIR, String(p));
    const err = (code, p) => Object.assign(new Error(code + ': simulated, ' + p), { code, errno: -1, syscall: 'x', path: p });
    const conv = (data, p) => {
      if (typeof data === 'string') return data;
      if (Buffer.isBuffer(data) || ArrayBuffer.isView(data)) return Buffer.from(data.buffer, data.byteOffset, data.byteLength).toString('latin1');
      throw Object.assign(new TypeError('The "data" argument must be of type string or an instance of Buffer, TypedArray, or DataView'), { code: 'ERR_INVALID_ARG_TYPE' });
    };
    const dirs = new Set([DIR, path.join(DIR, 'stored')]);
    const write = (p, data, append) => {
      const f = norm(p);
      let s = conv(data, p);
      if (append) s = (w.files.get(f) || '') + s;
      const k = w.faultsOn && w.scn.disk ? w.choose(4, w.scn.disk) : 0;
      if (k) {
        w.count('disk_write_fault');
        w.writes.push({ f, ok: false });
        if (k === 2) w.files.set(f, s.slice(0, s.length >> 1));
        if (k === 3) w.files.set(f, '');
        w.log('disk fault ' + k + ' ' + path.basename(f));
        throw err(k === 1 ? 'EIO' : 'ENOSPC', f);
      }
      w.files.set(f, s);
      w.writes.push({ f, ok: true, s });
    };
    const read = (p, o) => {
      const f = norm(p);
      if (!w.files.has(f)) {
        if (f.startsWith(DIR) && realFs.existsSync(f) && realFs.statSync(f).isFile()) {
          return (o ? realFs.readFileSync(f, o) : realFs.readFileSync(f));
        }
        throw err('ENOENT', f);
      }
      const enc = typeof o === 'string' ? o : o && o.encoding;
      const b = Buffer.from(w.files.get(f), 'latin1');
      return enc ? b.toString(enc) : b;
    };
    const list = p => { const d = norm(p); const s = new Set(); for (const f of w.files.keys()) if (path.dirname(f) === d) s.add(path.basename(f));
      return [...s].sort(); };
    const sync = {
      writeFileSync: (p, d, o) => write(p, d, o && (o.flag || '').startsWith('a')),
      appendFileSync: (p, d) => write(p, d, true),
      readFileSync: read,
      readdirSync: list,
      mkdirSync: p => { dirs.add(norm(p)); },
      existsSync: p => w.files.has(norm(p)) || dirs.has(norm(p)),
      unlinkSync: p => { if (!w.files.delete(norm(p))) throw err('ENOENT', p); },
      rmSync: p => { w.files.delete(norm(p)); },
      renameSync: (a, b) => { if (!w.files.has(norm(a))) throw err('ENOENT', a); w.files.set(norm(b), w.files.get(norm(a))); w.files.delete(norm(a)); w.writes.push({ f: norm(b), ok: true, s: w.files.get(norm(b)) }); },
      copyFileSync: (a, b) => write(b, read(a)),
      statSync: p => { const f = norm(p); if (!w.files.has(f) && !dirs.has(f)) throw err('ENOENT', f); return { isFile: () => w.files.has(f), isDirectory: () => dirs.has(f), size: (w.files.get(f) || '').length }; },
      accessSync: p => { if (!w.files.has(norm(p)) && !dirs.has(norm(p))) throw err('ENOENT', p); },
      fsyncSync: () => {}, closeSync: () => {},
    };
    // Open file descriptors, enough for open-write-fsync-close sequences.
    const fds = new Map();
    let nextFd = 10;
    sync.openSync = (p, fl) => { const f = norm(p); if (/w/.test(fl || 'r')) write(f, ''); else if (!w.files.has(f)) throw err('ENOENT', f); fds.set(nextFd, f); return nextFd++; };
    sync.writeSync = (fd, d) => { write(fds.get(fd), d, true); return conv(d).length; };
    sync.closeSync = fd => { fds.delete(fd); };
    const promises = {}, fs = Object.assign({}, sync, { constants: { F_OK: 0, R_OK: 4, W_OK: 2 }, promises });
    for (const k of Object.keys(sync)) {
      const base = k.replace(/Sync$/, '');
      fs[base] = (...a) => {
        const cb = a.pop();
        w.after(w.delay(), () => {
          if (!w.alive()) return;
          let e = null, v;
          try { v = sync[k](...a); } catch (x) { e = x; }
          w.guard(() => base === 'exists' ? cb(v) : cb(e, v));
        });
      };
      promises[base] = (...a) => new Promise((res, rej) => w.after(w.delay(), () => {
        if (!w.alive()) return;
        w.async = true;
        try { res(sync[k](...a)); } catch (x) { rej(x); }
      }));
    }
    return new Proxy(fs, { get(t, k) { if (k in t || typeof k === 'symbol' || k === 'then') return t[k]; throw new HarnessError('fs.' + String(k) + ' has no stand-in in the simulator'); } });
  }

  // ---------------------------------------------------------------- children
  makeChild() {
    const w = this;
    const line = (c, a) => [c].concat(Array.isArray(a) ? a : []).join(' ');
    const exec = cmd => {
      // The only child the orchestrator runs is the configuration generator.
      const m = /gen_config\S*\s+(?:--\s+)?(\S+)\s+(.*)$/.exec(cmd);
      if (!m) return { status: 127, error: undefined, stdout: '', stderr: 'sh: not found', signal: null };
      const f = m[1], a = m[2].trim().split(/\s+/);
      w.count('gen_config_runs');
      const k = w.faultsOn && w.scn.genfail ? w.choose(4, w.scn.genfail) : 0;
      const parties = Number(a[3]), par = Number(a[4]), ips = a.slice(5);
      if (k === 1) { w.count('gen_config_failed'); return { status: 1, stdout: '', stderr: 'failed', signal: null }; }
      if (k === 2) { w.count('gen_config_failed'); return { status: null, error: new Error('spawn ENOMEM'), stdout: '', stderr: '', signal: null }; }
      if (k === 3) { w.count('gen_config_failed'); w.files.set(f, 'half'); return { status: null, stdout: '', stderr: '', signal: 'SIGKILL' }; }
      if (!(parties >= 2) || ips.length !== parties * par) { w.count('gen_config_rejected'); return { status: 1, stdout: '', stderr: 'usage', signal: null }; }
      const c = { gen: ++w.gen, table: a[0], epsilon: a[1], delta: a[2], parties, par, ips };
      w.files.set(f, 'CONFIG ' + JSON.stringify(c));
      w.log('gen_config ' + JSON.stringify(c));
      return { status: 0, stdout: 'ok', stderr: '', signal: null };
    };
    const EventEmitter = require('events');
    const spawnSync = (c, a, o) => { w.now += 20 + DELAYS[w.choose(w.scn.delays, w.scn.slow)]; const r = exec(line(c, a)); return Object.assign({ pid: 2, output: [] }, r, { stdout: Buffer.from(r.stdout), stderr: Buffer.from(r.stderr) }); };
    const execSync = (c, a) => { const r = spawnSync(c, Array.isArray(a) ? a : undefined); if (r.status !== 0 || r.error) throw Object.assign(r.error || new Error('Command failed'), { status: r.status }); return r.stdout; };
    const spawn = (c, a) => {
      const p = new EventEmitter();
      p.stdout = new EventEmitter(); p.stderr = new EventEmitter(); p.kill = () => {}; p.pid = 2;
      w.after(20 + w.delay(), () => { if (!w.alive()) return; const r = exec(line(c, a)); w.guard(() => { if (r.error) p.emit('error', r.error); else { p.emit('exit', r.status, r.signal); p.emit('close', r.status, r.signal); } }); });
      return p;
    };
    const execA = (c, ...a) => {
      const cb = a.find(x => typeof x === 'function') || (() => {});
      w.after(20 + w.delay(), () => { if (!w.alive()) return; const r = exec(line(c, a[0])); w.guard(() => cb(r.error || (r.status !== 0 ? Object.assign(new Error('failed'), { code: r.status }) : null), r.stdout, r.stderr)); });
      return new EventEmitter();
    };
    execA[require('util').promisify.custom] = (c, ...a) => new Promise((res, rej) => execA(c, ...a, (e, stdout, stderr) => e ? rej(e) : res({ stdout, stderr })));
    return { spawnSync, execSync, execFileSync: execSync, spawn, exec: execA, execFile: execA, fork: () => { throw new HarnessError('fork'); } };
  }

  // ---------------------------------------------------------------- http
  addRoute(method, p, hs) {
    const keys = [];
    const re = p instanceof RegExp ? p : new RegExp('^' + p.replace(/[.+*]/g, '\\$&').replace(/\/:(\w+)(\?)?/g, (_, k, opt) => { keys.push(k); return opt ? '(?:/([^/]+))?' : '/([^/]+)'; }) + '/?$', 'i');
    this.routes.push({ method, re, keys, hs });
  }
  // Runs one request to completion; calls done({status, body}) when the reply is sent.
  request(req, done) {
    const w = this;
    this.writes = [];
    let sent = false, status = 200;
    const res = {
      headersSent: false,
      status(c) { status = c; return res; }, set() { return res; }, type() { return res; }, setHeader() {}, header() { return res; },
      write(s) { res.buf = (res.buf || '') + s; return true; },
      send(b) {
        if (sent) { const e = new Error('Cannot set headers after they are sent to the client'); e.code = 'ERR_HTTP_HEADERS_SENT'; throw e; }
        sent = true; res.headersSent = true;
        let s;
        if (b === null || b === undefined) s = '';
        else if (Buffer.isBuffer(b)) s = b.toString('latin1');
        else if (typeof b === 'object' || typeof b === 'boolean') s = JSON.stringify(b);
        else if (typeof b === 'number') { s = http(b); status = b; } else s = String(b);
        done({ status, body: s });
        return res;
      },
      end(b) { return res.send(b === undefined ? (res.buf || '') : b); },
      json(o) { return res.send(JSON.stringify(o)); },
      sendStatus(c) { status = c; return res.send(http(c)); },
    };
    const http = c => 'Status ' + c;
    const fail = e => {
      w.log('http 500 ' + String(e && e.message || e).slice(0, 80));
      w.count('http_500');
      if (!sent) { sent = true; res.headersSent = true; done({ status: 500, body: '<!DOCTYPE html>\n<html><pre>Error</pre></html>' }); }
    };
    const bare = req.path.split('?')[0];
    const matches = this.routes.filter(r => (r.method === 'all' || r.method === req.method.toLowerCase()) && r.re.test(bare));
    const parsers = this.uses.flat().filter(u => u && u.parser);
    const mids = this.uses.flat().filter(u => typeof u === 'function');
    const body = parsers.length ? this.parseBody(parsers, req) : undefined;
    if (body && body.tooLarge) { sent = true; done({ status: 413, body: 'too large' }); return; }
    const r = { method: req.method, path: bare, url: req.path, originalUrl: req.path, params: {}, query: {}, headers: { 'content-type': req.type || '' },
                connection: { remoteAddress: req.ip }, socket: { remoteAddress: req.ip }, ip: req.ip, body: body ? body.v : undefined,
                get: h => r.headers[h.toLowerCase()], on() {} };
    const chain = mids.map(h => ({ h, params: {} }));
    for (const m of matches) {
      const g = m.re.exec(bare), params = {};
      m.keys.forEach((k, i) => { if (g[i + 1] !== undefined) params[k] = decodeURIComponent(g[i + 1]); });
      for (const h of m.hs) chain.push({ h, params });
    }
    let i = 0;
    const next = e => {
      if (e) { fail(e); return; }
      if (i >= chain.length) { if (!sent) { sent = true; done({ status: 404, body: '<!DOCTYPE html>\n<html><pre>Cannot ' + req.method + '</pre></html>' }); } return; }
      const c = chain[i++];
      r.params = c.params;
      try {
        const p = c.h(r, res, next);
        if (p && typeof p.then === 'function') { w.async = true; w.track(p); }
      } catch (x) {
        if (x && x.simExit) return;
        if (x instanceof HarnessError) throw x;
        fail(x);
      }
    };
    next();
  }
  parseBody(parsers, req) {
    if (req.body === undefined || req.body.length === 0) return { v: {} };
    for (const p of parsers) {
      const type = (p.opts && p.opts.type) || { text: 'text/plain', json: 'application/json', raw: 'application/octet-stream', urlencoded: 'application/x-www-form-urlencoded' }[p.parser];
      if (typeof type === 'string' && type !== req.type && type !== '*/*') continue;
      const lim = p.opts && p.opts.limit;
      const n = typeof lim === 'number' ? lim : lim ? parseFloat(lim) * ({ kb: 1024, mb: 1048576, gb: 1073741824 }[String(lim).toLowerCase().replace(/[\d.\s]/g, '')] || 1) : 102400;
      if (req.body.length > n) return { tooLarge: true };
      if (p.parser === 'text') return { v: req.body };
      if (p.parser === 'json') { try { return { v: JSON.parse(req.body) }; } catch (e) { return { v: {} }; } }
      if (p.parser === 'raw') return { v: Buffer.from(req.body) };
      return { v: {} };
    }
    return { v: {} };
  }
}

module.exports = { World, HarnessError, rng, fnv, sources, DIR, DELAYS };
