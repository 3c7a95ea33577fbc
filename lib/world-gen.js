'use strict';
// World B: the OpenAPI generator. One simulated process runs any number of generations (the real command line program)
// over an in-memory file tree; every file operation goes through simfs, where the plan decides latency and failures.
const fs = require('fs');
const path = require('path');
const vm = require('vm');
const util = require('util');
const { createRequire } = require('module');
const { AsyncLocalStorage } = require('async_hooks');
const { Sim, activate, deactivate } = require('./sim');
const { Rng } = require('./rng');
const { Tree, makeFs, fsError } = require('./simfs');

const als = new AsyncLocalStorage();
const GEN = '@api-ts/openapi-generator';

class ExitSignal extends Error {
  constructor(code) {
    super(`process.exit(${code})`);
    this.exitCode = code;
  }
}

// Packages of node_modules that touch the file system are loaded from source with the simulated fs underneath.
const extFns = new Map();
function loadExternalTree(image, entry, fsMods) {
  const cache = new Map();
  const load = (file) => {
    if (cache.has(file)) return cache.get(file).exports;
    const module = { exports: {}, filename: file, id: file, children: [], paths: [], loaded: false };
    cache.set(file, module);
    if (file.endsWith('.json')) return (module.exports = JSON.parse(fs.readFileSync(file, 'utf8')));
    let fn = extFns.get(file);
    if (!fn) extFns.set(file, (fn = vm.runInThisContext(`(function (exports, require, module, __filename, __dirname) {${fs.readFileSync(file, 'utf8').replace(/^#!.*/, '')}\n})`, { filename: file })));
    const rq = createRequire(file);
    const req = (id) => {
      const f = fsMods(id);
      if (f) return f;
      if (id.startsWith('.')) return load(rq.resolve(id));
      return rq(id);
    };
    req.resolve = rq.resolve;
    fn.call(module.exports, module.exports, req, module, file, path.dirname(file));
    return module.exports;
  };
  return load(entry);
}

// swc numbers source positions with one counter per process: the simulated process owns that counter.
function makeSwc(realSwc, proc, sim) {
  const shift = (node, d) => {
    if (Array.isArray(node)) for (const n of node) shift(n, d);
    else if (node && typeof node === 'object') {
      for (const k of Object.keys(node)) {
        const v = node[k];
        if (k === 'span' && v && typeof v.start === 'number') {
          if (v.start !== 0 || v.end !== 0) {
            v.start += d;
            v.end += d;
          }
        } else if (v && typeof v === 'object') shift(v, d);
      }
    }
  };
  const parseSync = (src, ...a) => {
    const base = realSwc.parseSync('').span.start + 1;
    let out;
    try {
      out = realSwc.parseSync(src, ...a);
    } finally {
      const used = realSwc.parseSync('').span.start - base;
      const d = proc.span - base;
      proc.span += used;
      if (out) shift(out, d);
    }
    return out;
  };
  const later = (fn) => new Promise((ok, no) => {
    const g = als.getStore();
    const go = AsyncLocalStorage.bind(() => {
      try {
        ok(fn());
      } catch (e) {
        no(e);
      }
    });
    sim.after(g ? g.latency() : 0, go, 'swc');
  });
  return { ...realSwc, parseSync, parse: (src, ...a) => later(() => parseSync(src, ...a)), parseFileSync: undefined, parseFile: undefined, default: undefined };
}

// One simulated process: its own module instances, parser counter and module cache over the shared tree.
function makeProcess(image, world, base) {
  const proc = { span: base };
  const { sim } = world;
  const io = {
    tree: () => world.tree,
    cwd: () => (als.getStore() ? als.getStore().cwd : '/'),
    hook: (op, p) => {
      const g = als.getStore();
      return g ? g.op(op, p) : undefined;
    },
    later: (op, p, fn) => {
      const g = als.getStore();
      if (g) g.pending++;
      sim.after(g ? g.latency(op) : 0, AsyncLocalStorage.bind(() => {
        if (g) {
          g.pending--;
          world.ev({ k: 'io', g: g.id, op, p });
        }
        fn();
      }), 'fs');
    },
    fds: () => {
      const g = als.getStore() || proc;
      return g.fds || (g.fds = new Map());
    },
    stdio: (fd, text) => {
      const g = als.getStore();
      return g && !g.done ? g.put(fd === 1 ? 'stdout' : 'stderr', text) : undefined;
    },
    dirOrder: (names) => (als.getStore() ? als.getStore().rng.shuffle(names) : names),
  };
  const { fs: simFs, promises } = makeFs(io);
  const simPath = { ...path.posix };
  simPath.resolve = (...a) => path.posix.resolve(io.cwd(), ...a);
  simPath.relative = (a, b) => path.posix.relative(simPath.resolve(a), simPath.resolve(b));
  simPath.posix = simPath.default = simPath;
  const fsMods = (id) => {
    const n = id.replace(/^node:/, '');
    return n === 'fs' ? simFs : n === 'fs/promises' ? promises : n === 'path' || n === 'path/posix' ? simPath : undefined;
  };
  const genDir = image.c.packages[GEN].dir;
  const rq = createRequire(path.join(genDir, 'package.json'));
  let resolveMod;
  let cmdTs;
  let swc;
  const codecModules = new Map();
  const userModule = (file) => {
    const hit = codecModules.get(file);
    if (hit) return hit;
    const src = simFs.readFileSync(file, 'utf8');
    const module = { exports: {} };
    vm.runInThisContext(`(function (exports, require, module) {${src}\n})`, { filename: file })(module.exports, (id) => rq(id), module);
    codecModules.set(file, module.exports);
    return module.exports;
  };
  const overrides = (id) => {
    const f = fsMods(id);
    if (f) return { module: f };
    if (id === 'process' || id === 'node:process') return { module: proxyProcess };
    if (id === 'resolve') return { module: resolveMod || (resolveMod = loadExternalTree(image, rq.resolve('resolve'), fsMods)) };
    if (id === '@swc/core') return { module: swc || (swc = makeSwc(rq('@swc/core'), proc, sim)) };
    if (id === 'cmd-ts') {
      if (!cmdTs) {
        const realCmd = rq('cmd-ts');
        cmdTs = { ...realCmd, run: (app, argv) => {
          const g = als.getStore();
          const pr = realCmd.run(app, argv);
          g.watch(pr);
          return pr;
        } };
      }
      return { module: cmdTs };
    }
    if (path.isAbsolute(id) && !id.startsWith(image.c.repo + '/')) return { module: userModule(id) };
    return undefined;
  };
  const cur = () => als.getStore();
  const stream = (name) => ({
    write: (chunk, enc, cb) => {
      if (typeof enc === 'function') cb = enc;
      const g = cur();
      return g ? g.write(name, String(chunk), cb, false) : true;
    },
    end: function (chunk, enc, cb) {
      if (chunk !== undefined && typeof chunk !== 'function') this.write(chunk);
      const f = [chunk, enc, cb].find((x) => typeof x === 'function');
      if (f) sim.after(0, AsyncLocalStorage.bind(f));
    },
    on(ev, fn) {
      const g = cur();
      if (g) (g.listeners[name + '.' + ev] = g.listeners[name + '.' + ev] || []).push(fn);
      return this;
    },
    once(ev, fn) {
      return this.on(ev, fn);
    },
    off() {
      return this;
    },
    removeListener() {
      return this;
    },
    get isTTY() {
      return !!(cur() && cur().spec.tty);
    },
    get columns() {
      return cur() ? cur().spec.tty : undefined;
    },
    writable: true,
    writableLength: 0,
    fd: name === 'stdout' ? 1 : 2,
  });
  const streams = { stdout: stream('stdout'), stderr: stream('stderr') };
  const proxyProcess = new Proxy(process, {
    get(t, k) {
      const g = cur();
      switch (k) {
        case 'argv':
          return g ? g.argv : ['node', 'cli'];
        case 'exit':
          return (code) => g.exit(code === undefined ? g.exitCode || 0 : code);
        case 'exitCode':
          return g && g.exitCode;
        case 'cwd':
          return () => io.cwd();
        case 'env':
          return g ? g.env : {};
        case 'pid':
        case 'ppid':
          return g ? 1000 + (hash(g.id) % 30000) : 1;
        case 'uptime':
          return () => (sim.now + (g ? g.clock : 0)) / 1000;
        case 'stdout':
        case 'stderr':
          return streams[k];
        case 'on':
        case 'once':
        case 'addListener':
        case 'prependListener':
        case 'off':
        case 'removeListener':
          return () => proxyProcess;
        case 'abort':
        case 'kill':
        case 'reallyExit':
          return () => g.exit(1);
        default: {
          const v = t[k];
          return typeof v === 'function' ? v.bind(t) : v;
        }
      }
    },
    set(t, k, v) {
      const g = cur();
      if (k === 'exitCode' && g) g.exitCode = v;
      return true;
    },
  });
  const out = (name) => (...a) => {
    const g = cur();
    if (g) g.write(name, util.format(...a) + '\n', undefined, true);
  };
  const cons = { log: out('stdout'), info: out('stdout'), debug: out('stdout'), dir: (o) => out('stdout')(util.inspect(o)), table: out('stdout'), error: out('stderr'), warn: out('stderr'), trace: out('stderr'), assert: (c, ...a) => c || out('stderr')('Assertion failed', ...a), group() {}, groupEnd() {}, time() {}, timeEnd() {} };
  proc.inst = image.instantiate({ overrides, process: proxyProcess, console: cons });
  const bin = JSON.parse(fs.readFileSync(path.join(genDir, 'package.json'), 'utf8')).bin;
  const rel = (typeof bin === 'string' ? bin : Object.values(bin)[0]).replace(/^\.\//, '').replace(/^dist\//, '').replace(/\.js$/, '');
  proc.cli = image._find(path.join(genDir, rel));
  return proc;
}

// One run of the program.
class Generation {
  constructor(world, spec, refOps) {
    this.world = world;
    this.id = spec.id;
    this.spec = spec;
    this.cwd = spec.cwd || '/';
    this.locale = spec.locale || 'en-US';
    this.clock = spec.clock || 0;
    this.env = { PATH: '/usr/bin', HOME: '/root', LANG: this.locale.replace('-', '_') + '.UTF-8', PWD: this.cwd, ...spec.env };
    const arg = (a) => (spec.rel && a.startsWith('/w/') ? path.posix.relative(this.cwd, a) : a);
    this.argv = ['node', 'openapi-generator', ...spec.argv.map(arg)];
    this.rng = new Rng(`${world.label}/${spec.id}`);
    this.lrng = this.rng.fork('lat');
    this.ops = 0;
    this.fired = [];
    this.stdout = '';
    this.stderr = '';
    this.code = undefined;
    this.exitCode = undefined;
    this.done = false;
    this.writes = 0;
    this.listeners = {};
    this.bad = new Set();
    this.faults = (spec.faults || []).map((f) => ({ ...f, n: Math.floor(f.frac * refOps) }));
    this.pending = 0;
    this.startedAt = 0;
  }
  latency() {
    const l = this.spec.lat || {};
    let ms = (l.min || 0) + (l.jit ? this.lrng.float() * l.jit : 0);
    if (l.stall && this.lrng.chance(l.stall)) {
      ms += l.stallMs;
      this.world.count('io_stall');
    }
    return ms;
  }
  op(op, p) {
    if (this.done) return undefined;
    const n = this.ops++;
    // A recursion without end exhausts the stack at a depth that depends on the machine: end it at a fixed place.
    if ((this.deep || n % 400 === 399) && (this.deep || stackDepth() > 1200)) {
      this.deep = true;
      throw new RangeError('Maximum call stack size exceeded');
    }
    this.lastAt = this.world.sim.now;
    if (this.spec.drift) this.clock += this.spec.drift;
    let code;
    for (const f of this.faults) {
      if (f.mode === 'file') {
        if (p !== f.path) continue;
        f.seen = (f.seen || 0) + 1;
        if (f.seen <= f.skip || f.seen > f.skip + f.times) continue;
        code = f.code;
        break;
      }
      const hit = f.mode === 'once' ? n === f.n : f.mode === 'burst' ? n >= f.n && n < f.n + f.len : f.mode === 'all' ? n >= f.n : f.mode === 'path' ? n === f.n || (n > f.n && this.bad.has(p)) : false;
      if (!hit) continue;
      if (f.mode === 'path') this.bad.add(p);
      code = f.code;
      break;
    }
    if (code) {
      this.fired.push({ n, op, p, code });
      this.world.count(`${op}_${code}`);
      this.world.ev({ k: 'fault', g: this.id, n, op, p, code });
    }
    return code;
  }
  // puts text on an output; answers with the code of the failure the plan has for it
  put(name, text) {
    const w = this.spec.outFault;
    if (name === 'stdout' && w && text.length && this.writes++ >= w.nth) {
      const part = Math.floor(text.length * w.keep);
      this.stdout += text.slice(0, part);
      this.outFailed = true;
      this.fired.push({ n: -1, op: 'write', p: 'stdout', code: w.code });
      this.world.count(`write_${w.code}`);
      this.world.ev({ k: 'fault', g: this.id, op: 'write', code: w.code });
      return w.code;
    }
    this[name] += text;
    return undefined;
  }
  write(name, text, cb, fromConsole) {
    if (this.done) return true;
    const code = this.put(name, text);
    if (code) {
      // node's console ignores stream errors; a plain stream reports them to the callback and as an 'error' event
      if (fromConsole) return true;
      const err = fsError(code, 'write');
      this.world.sim.after(0, AsyncLocalStorage.bind(() => {
        if (cb) cb(err);
        const l = this.listeners['stdout.error'];
        if (l && l.length) for (const fn of l) fn(err);
        else if (!this.done) this.crash(err);
      }));
      return false;
    }
    if (cb) this.world.sim.after(0, AsyncLocalStorage.bind(() => cb()));
    return true;
  }
  exit(code) {
    if (!this.done) this.finish(Number(code) || 0, 'exit');
    throw new ExitSignal(code);
  }
  crash(err) {
    if (this.done) return;
    this.stderr += `${(err && err.stack) || err}\n`;
    this.finish(1, 'uncaught');
  }
  finish(code, how) {
    this.code = code;
    this.how = how;
    this.done = true;
    this.finishedAt = this.world.sim.now;
    this.world.active.delete(this);
    this.world.ev({ k: 'gen.end', g: this.id, code, how, out: this.stdout.length, outHash: hash(this.stdout), err: this.stderr.slice(0, 200).replace(/\n\s+at .*/g, '') });
  }
  watch(pr) {
    this.watched = true;
    pr.then(
      () => {
        // the program is over once its work and the I/O it started are
        const over = () => {
          if (this.done) return;
          if (this.pending > 0) this.world.sim.after(1, over);
          else this.finish(this.exitCode || 0, 'end');
        };
        this.world.sim.after(0.001, over);
      },
      (e) => {
        if (!(e instanceof ExitSignal) && !this.done) this.crash(e);
      },
    );
  }
  start(proc) {
    this.world.active.add(this);
    this.world.ev({ k: 'gen.start', g: this.id, argv: this.argv.slice(2), cwd: this.cwd });
    als.run(this, () => {
      try {
        proc.inst.again(proc.cli);
        if (!this.watched && !this.done) this.crash(new Error('the program did not start'));
      } catch (e) {
        if (!(e instanceof ExitSignal)) this.crash(e);
      }
    });
  }
  result() {
    return { code: this.code, stdout: this.stdout, stderr: this.stderr, how: this.how };
  }
}

function stackDepth() {
  const l = Error.stackTraceLimit;
  Error.stackTraceLimit = Infinity;
  const o = {};
  const p = Error.prepareStackTrace;
  Error.prepareStackTrace = (_, sites) => sites.length;
  Error.captureStackTrace(o);
  const n = o.stack;
  Error.prepareStackTrace = p;
  Error.stackTraceLimit = l;
  return n;
}

function hash(s) {
  let h = 2166136261;
  for (let i = 0; i < s.length; i++) h = Math.imul(h ^ s.charCodeAt(i), 16777619);
  return h >>> 0;
}

class World {
  constructor(label) {
    this.label = label;
    this.sim = new Sim(label);
    this.sim.locale = () => (als.getStore() ? als.getStore().locale : 'en-US');
    this.sim.clock = () => (als.getStore() ? als.getStore().clock : 0);
    this.active = new Set();
    this.events = [];
    this.counts = {};
    this.digest = 2166136261;
    this.order = 2166136261;
    this.overlapped = 0;
  }
  count(k, n = 1) {
    this.counts[k] = (this.counts[k] || 0) + n;
  }
  ev(e) {
    const rec = { i: this.events.length, t: this.sim.now, ...e };
    this.events.push(rec);
    this.digest = Math.imul(this.digest ^ hash(JSON.stringify(rec)), 16777619);
    this.order = Math.imul(this.order ^ hash(`${e.k}/${e.g}/${e.p || ''}/${e.op || ''}`), 16777619);
    if (e.k === 'io' && this.active.size > 1) this.overlapped++;
  }
  async until(list, max) {
    activate(this.sim);
    const ended = await this.sim.run({ maxSteps: max, until: this.sim.now + 3600e3, done: () => list.every((g) => g.done) });
    return ended;
  }
}

// The fault-free run of one generation, alone in a fresh process with immediate I/O.
async function reference(image, label, tree, spec) {
  const w = new World(label + '/ref');
  w.tree = tree;
  const proc = makeProcess(image, w, 1);
  const g = new Generation(w, { id: spec.id, argv: spec.argv, cwd: '/' }, 0);
  activate(w.sim);
  g.start(proc);
  await w.until([g], 200000);
  deactivate();
  return { ...g.result(), ops: g.ops, deep: !!g.deep, done: g.done, uncaught: w.sim.uncaught.slice(), steps: w.sim.steps };
}

async function runGen(image, plan) {
  const world = new World(plan.seed);
  world.tree = new Tree(plan.files);
  const proc = makeProcess(image, world, plan.base);
  const refs = new Map();
  let version = 0;
  const gens = [];
  const stages = [];
  for (const st of plan.stages) {
    for (const e of st.edits || []) {
      if (e.data === null) world.tree.remove(e.path);
      else world.tree.put(e.path, e.data);
      version++;
      world.ev({ k: 'edit', p: e.path });
    }
    for (const s of st.gens) {
      const key = version + '\0' + s.argv.join('\0');
      if (!refs.has(key)) refs.set(key, await reference(image, plan.seed, world.tree, s));
      s._ref = refs.get(key);
    }
    activate(world.sim);
    const list = [];
    for (const s of st.gens) {
      const g = new Generation(world, s, s._ref.ops);
      g.ref = s._ref;
      delete s._ref;
      g.stage = stages.length;
      list.push(g);
      gens.push(g);
      world.sim.after(s.at || 0, () => g.start(proc));
    }
    const before = world.sim.uncaught.length;
    const t0 = world.sim.now;
    const ended = await world.until(list, 400000);
    // let what the stage left behind run out, so that it is seen in this stage
    await world.sim.run({ maxSteps: 1000, until: world.sim.now + 1 });
    world.sim.heap = [];
    deactivate();
    for (const g of list) if (!g.done) world.active.delete(g);
    stages.push({ ended, list, escaped: world.sim.uncaught.slice(before), time: world.sim.now - t0 });
  }
  return { gens, stages, events: world.events, digest: world.digest >>> 0, order: world.order >>> 0, counts: world.counts, simTime: world.sim.now, steps: world.sim.steps, overlapped: world.overlapped };
}

module.exports = { runGen };
