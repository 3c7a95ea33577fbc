'use strict';
// The simulator core: one event queue, one simulated clock. While a run is active every timer, setImmediate, Date,
// performance.now and Math.random seen by the code under test and by its dependencies is decided here.
const { Rng } = require('./rng');

const real = {
  setTimeout: globalThis.setTimeout,
  clearTimeout: globalThis.clearTimeout,
  setInterval: globalThis.setInterval,
  clearInterval: globalThis.clearInterval,
  setImmediate: globalThis.setImmediate,
  clearImmediate: globalThis.clearImmediate,
  Date: globalThis.Date,
  random: Math.random,
  perfNow: performance.now.bind(performance),
  nextTick: process.nextTick,
};

let current = null;
const EPOCH = 1700000000000;

class SimTimer {
  constructor(sim, ms, fn, args, repeat) {
    this.sim = sim;
    this.ms = ms;
    this.fn = fn;
    this.args = args;
    this.repeat = repeat;
    this.refd = true;
    this.dead = false;
    this.ev = null;
    this.arm();
  }
  arm() {
    this.ev = this.sim.at(this.sim.now + this.ms, () => this.fire(), 'timer');
  }
  fire() {
    if (this.dead) return;
    if (this.repeat) this.arm();
    else this.dead = true;
    this.fn.apply(undefined, this.args);
  }
  cancel() {
    this.dead = true;
    if (this.ev) this.ev.dead = true;
  }
  ref() {
    this.refd = true;
    return this;
  }
  unref() {
    this.refd = false;
    return this;
  }
  hasRef() {
    return this.refd;
  }
  refresh() {
    if (this.ev) this.ev.dead = true;
    this.dead = false;
    this.arm();
    return this;
  }
  close() {
    this.cancel();
    return this;
  }
  [Symbol.toPrimitive]() {
    return this.ev ? this.ev.seq : 0;
  }
  [Symbol.dispose]() {
    this.cancel();
  }
}

function installGlobals() {
  const num = (ms) => {
    ms = +ms;
    return ms >= 1 && ms <= 2147483647 ? ms : 1;
  };
  globalThis.setTimeout = Object.assign(
    (fn, ms, ...args) => (current ? new SimTimer(current, num(ms), fn, args, false) : real.setTimeout(fn, ms, ...args)),
    { [require('util').promisify.custom]: (ms, v) => new Promise((r) => globalThis.setTimeout(r, ms, v)) },
  );
  globalThis.setInterval = (fn, ms, ...args) =>
    current ? new SimTimer(current, num(ms), fn, args, true) : real.setInterval(fn, ms, ...args);
  globalThis.setImmediate = Object.assign(
    (fn, ...args) => (current ? new SimTimer(current, 0, fn, args, false) : real.setImmediate(fn, ...args)),
    { [require('util').promisify.custom]: (v) => new Promise((r) => globalThis.setImmediate(r, v)) },
  );
  const clear = (realClear) => (t) => {
    if (t instanceof SimTimer) t.cancel();
    else if (t !== undefined && t !== null) realClear(t);
  };
  globalThis.clearTimeout = clear(real.clearTimeout);
  globalThis.clearInterval = clear(real.clearInterval);
  globalThis.clearImmediate = clear(real.clearImmediate);
  class Date extends real.Date {
    constructor(...a) {
      if (a.length === 0 && current) super(EPOCH + current.clock() + Math.floor(current.now));
      else super(...a);
    }
    static now() {
      return current ? EPOCH + current.clock() + Math.floor(current.now) : real.Date.now();
    }
  }
  globalThis.Date = Date;
  Math.random = () => (current ? current.randomRng.float() : real.random());
  performance.now = () => (current ? current.now : real.perfNow());
  const ns = () => BigInt(Math.floor(current.now * 1e6)) + 1000000000n;
  const hr = process.hrtime;
  process.hrtime = Object.assign(
    (prev) => {
      if (!current) return hr(prev);
      const t = ns();
      const out = [Number(t / 1000000000n), Number(t % 1000000000n)];
      if (!prev) return out;
      const d = (out[0] - prev[0]) * 1e9 + out[1] - prev[1];
      return [Math.floor(d / 1e9), d % 1e9];
    },
    { bigint: () => (current ? ns() : hr.bigint()) },
  );
  const up = process.uptime.bind(process);
  process.uptime = () => (current ? 1 + current.now / 1000 : up());
  // The locale a program is started in
  const locale = (l) => (l === undefined && current ? current.locale() : l);
  for (const [proto, names] of [
    [String.prototype, ['localeCompare']],
    [String.prototype, ['toLocaleLowerCase', 'toLocaleUpperCase']],
    [Number.prototype, ['toLocaleString']],
    [real.Date.prototype, ['toLocaleString', 'toLocaleDateString', 'toLocaleTimeString']],
  ])
    for (const k of names) {
      const orig = proto[k];
      proto[k] = k === 'localeCompare' ? function (b, l, o) {
        return orig.call(this, b, locale(l), o);
      } : function (l, o) {
        return orig.call(this, locale(l), o);
      };
    }
  for (const k of ['Collator', 'DateTimeFormat', 'NumberFormat', 'ListFormat', 'PluralRules', 'RelativeTimeFormat', 'Segmenter']) {
    const Orig = Intl[k];
    if (Orig) Intl[k] = new Proxy(Orig, { construct: (t, [l, o], nt) => Reflect.construct(t, [locale(l), o], nt === Intl[k] ? t : nt), apply: (t, self, [l, o]) => t(locale(l), o) });
  }
  const timers = require('timers');
  for (const k of ['setTimeout', 'setInterval', 'setImmediate', 'clearTimeout', 'clearInterval', 'clearImmediate']) timers[k] = globalThis[k];
  const tp = require('timers/promises');
  for (const k of ['setTimeout', 'setImmediate']) {
    const orig = tp[k];
    tp[k] = (...a) => (current ? new Promise((r) => (k === 'setTimeout' ? globalThis.setTimeout(r, a[0], a[1]) : globalThis.setImmediate(r, a[0]))) : orig(...a));
  }
  const crypto = require('crypto');
  const bytes = (n) => Buffer.from(Array.from({ length: n }, () => Math.floor(current.randomRng.float() * 256)));
  const rb = crypto.randomBytes;
  crypto.randomBytes = (n, cb) => {
    if (!current) return rb(n, cb);
    if (!cb) return bytes(n);
    globalThis.setImmediate(() => cb(null, bytes(n)));
  };
  const uuid = crypto.randomUUID;
  crypto.randomUUID = (o) => {
    if (!current) return uuid(o);
    const h = bytes(16).toString('hex');
    return `${h.slice(0, 8)}-${h.slice(8, 12)}-4${h.slice(13, 16)}-a${h.slice(17, 20)}-${h.slice(20)}`;
  };
  const ri = crypto.randomInt;
  crypto.randomInt = (lo, hi, cb) => {
    if (!current) return ri(lo, hi, cb);
    if (typeof hi !== 'number') [cb, hi, lo] = [hi, lo, 0];
    const v = lo + Math.floor(current.randomRng.float() * (hi - lo));
    if (!cb) return v;
    globalThis.setImmediate(() => cb(null, v));
  };
}
installGlobals();

class Sim {
  constructor(seedLabel) {
    this.now = 0;
    this.seq = 0;
    this.heap = [];
    this.randomRng = new Rng(seedLabel + '#Math.random');
    this.steps = 0;
    this.uncaught = [];
    this.uncaughtSeen = 0;
    // what the environment of the running program says: default locale, offset of the wall clock
    this.locale = () => undefined;
    this.clock = () => 0;
    this.after = this.after.bind(this);
  }
  at(time, fn, label) {
    const ev = { time, seq: this.seq++, fn, label, dead: false };
    const h = this.heap;
    let i = h.push(ev) - 1;
    while (i > 0) {
      const p = (i - 1) >> 1;
      if (h[p].time < ev.time || (h[p].time === ev.time && h[p].seq < ev.seq)) break;
      h[i] = h[p];
      i = p;
    }
    h[i] = ev;
    return ev;
  }
  after(ms, fn, label) {
    return this.at(this.now + Math.max(0, ms), fn, label);
  }
  sleep(ms) {
    return new Promise((r) => this.after(ms, r, 'sleep'));
  }
  _pop() {
    const h = this.heap;
    const top = h[0];
    const last = h.pop();
    if (h.length > 0) {
      let i = 0;
      const n = h.length;
      for (;;) {
        let c = 2 * i + 1;
        if (c >= n) break;
        if (c + 1 < n && (h[c + 1].time < h[c].time || (h[c + 1].time === h[c].time && h[c + 1].seq < h[c].seq))) c++;
        if (last.time < h[c].time || (last.time === h[c].time && last.seq < h[c].seq)) break;
        h[i] = h[c];
        i = c;
      }
      h[i] = last;
    }
    return top;
  }
  // Runs until the queue is empty (or only events later than `until` remain) or the step budget is used up.
  async run({ until = Infinity, maxSteps = 200000, done } = {}) {
    for (;;) {
      await new Promise((r) => real.setImmediate(r));
      while (this.uncaughtSeen !== this.uncaught.length) {
        // node finishes the interrupted tick queue in a later immediate
        this.uncaughtSeen = this.uncaught.length;
        await new Promise((r) => real.setImmediate(r));
        await new Promise((r) => real.setImmediate(r));
      }
      if (done && done()) return 'done';
      let ev;
      do {
        if (this.heap.length === 0) return 'idle';
        if (this.heap[0].time > until) {
          this.now = Math.max(this.now, until);
          return 'until';
        }
        ev = this._pop();
      } while (ev.dead);
      if (++this.steps > maxSteps) return 'steps';
      this.now = Math.max(this.now, ev.time);
      try {
        ev.fn();
      } catch (e) {
        this.uncaught.push({ t: this.now, kind: 'uncaughtException', err: describeError(e) });
      }
    }
  }
}

function describeError(e) {
  if (e instanceof Error) return `${e.name}: ${e.message}`.split('\n')[0];
  try {
    return 'thrown ' + JSON.stringify(e);
  } catch (_) {
    return 'thrown ' + String(e);
  }
}

// Errors that escape to the process while a run is active belong to that run.
process.on('uncaughtException', (e) => {
  if (current) current.uncaught.push({ t: current.now, kind: 'uncaughtException', err: describeError(e), stack: e && e.stack });
  else {
    console.error(e);
    process.exit(3);
  }
});
process.on('unhandledRejection', (e) => {
  if (current) current.uncaught.push({ t: current.now, kind: 'unhandledRejection', err: describeError(e), stack: e && e.stack });
  else {
    console.error('late rejection', e);
  }
});

function activate(sim) {
  current = sim;
}
function deactivate() {
  current = null;
}

module.exports = { Sim, activate, deactivate, real, describeError, EPOCH };
