'use strict';
// World A: real clients (superagent + superagent-wrapper), real servers (node http + express + express-wrapper /
// typed-express-router) and the real codecs, inside one process on a simulated network and clock.
const { AsyncLocalStorage } = require('async_hooks');
const http = require('http');
const { Sim, activate, deactivate, describeError } = require('./sim');
const { SimNet } = require('./net');
const { build } = require('./codecs');
const { canon, fp, hydrate, dehydrate, deepFreeze } = require('./value');
const { hash32 } = require('./rng');

let deps = null;
function loadDeps(image) {
  if (deps) return deps;
  process.env.NODE_ENV = 'test';
  deps = {
    image,
    express: image.external('express'),
    superagent: image.external('superagent'),
    t: image.external('io-ts'),
    tt: image.external('io-ts-types'),
    otel: image.external('@opentelemetry/api'),
  };
  return deps;
}

// node's own answers (missing Host header) would otherwise carry the real date
class UndatedResponse extends http.ServerResponse {
  constructor(...a) {
    super(...a);
    this.sendDate = false;
  }
}

class Recorder {
  constructor(sim) {
    this.sim = sim;
    this.events = [];
    this.hash = 0x811c9dc5;
    this.order = 0x811c9dc5;
  }
  ev(k, o) {
    const e = { i: this.events.length, t: this.sim.now, k, ...o };
    if (e.rq === undefined && this.als) {
      const st = this.als.getStore();
      if (st && st.rq !== undefined) e.rq = st.rq;
    }
    this.events.push(e);
    this.mix(k + '|' + JSON.stringify(o));
    this.order = hash32(k + '|' + (o.call || o.id || '') + '|' + (o.mw !== undefined ? o.mw : ''), this.order);
    return e;
  }
  mix(s) {
    this.hash = hash32(s, this.hash);
  }
}

// A recording stand-in for the tracer: every call on every span is an event.
function tracerStub(rec, als, procName, realOtel) {
  let n = 0;
  const ctx = () => {
    const s = als.getStore();
    return s ? s.call : null;
  };
  const mkSpan = (name, opts) => {
    const id = n++;
    rec.ev('span.start', { proc: procName, span: id, name, call: ctx() });
    const set = (attrs) => {
      const o = {};
      for (const k of Object.keys(attrs || {})) o[k] = attrs[k] === undefined ? null : attrs[k];
      rec.ev('span.attr', { proc: procName, span: id, attrs: o });
    };
    const span = {
      setAttribute(k, v) {
        set({ [k]: v });
        return span;
      },
      setAttributes(a) {
        set(a);
        return span;
      },
      addEvent() {
        return span;
      },
      addLink() {
        return span;
      },
      addLinks() {
        return span;
      },
      setStatus(s) {
        rec.ev('span.status', { proc: procName, span: id, code: s && s.code });
        return span;
      },
      updateName() {
        return span;
      },
      recordException(e) {
        rec.ev('span.exc', { proc: procName, span: id });
        return span;
      },
      isRecording() {
        return true;
      },
      spanContext() {
        return { traceId: '0'.repeat(31) + '1', spanId: String(id).padStart(16, '0'), traceFlags: 1 };
      },
      end() {
        rec.ev('span.end', { proc: procName, span: id });
      },
    };
    if (opts && opts.attributes) set(opts.attributes);
    return span;
  };
  const tracer = {
    startSpan: (name, opts) => mkSpan(name, opts),
    startActiveSpan(name, ...rest) {
      const fn = rest[rest.length - 1];
      const opts = rest.length > 1 ? rest[0] : undefined;
      return fn(mkSpan(name, opts));
    },
  };
  const trace = Object.create(realOtel.trace);
  trace.getTracer = () => tracer;
  trace.getTracerProvider = () => ({ getTracer: () => tracer });
  return { ...realOtel, trace };
}

class Proc {
  constructor(W, name, otelMode) {
    this.name = name;
    this.alive = true;
    const quiet = {};
    for (const m of ['log', 'warn', 'error', 'info', 'debug', 'trace']) quiet[m] = (...a) => W.rec.ev('console.' + m, { proc: name, n: a.length });
    const stub = otelMode === 'on' ? tracerStub(W.rec, W.als, name, deps.otel) : null;
    const inst = deps.image.instantiate({
      console: { ...console, ...quiet },
      overrides: (id) => {
        if (id === '@opentelemetry/api') {
          if (otelMode === 'off') throw Object.assign(new Error("Cannot find module '@opentelemetry/api'"), { code: 'MODULE_NOT_FOUND' });
          return { module: stub };
        }
        return undefined;
      },
    });
    this.h = inst.pkg('@api-ts/io-ts-http');
    this.lazy = {};
    this.routes = new Map();
    this.inst = inst;
    this.W = W;
    this.L = { t: deps.t, tt: deps.tt, h: this.h };
  }
  mod(n) {
    return this.lazy[n] || (this.lazy[n] = this.inst.pkg('@api-ts/' + n));
  }
  spec(specPlan, freeze) {
    const spec = {};
    // the property objects handed to the combinators are the caller's, too
    this.L.track = (o) => {
      if (freeze) Object.freeze(o);
      return this.W.guard('codec properties', o);
    };
    for (const a of specPlan) {
      const o = {};
      for (const r of a.routes) {
        const response = {};
        for (const st of Object.keys(r.response)) response[st] = build(r.response[st], this.L);
        if (r.key && this.routes.has(r.key)) {
          o[r.method] = this.routes.get(r.key);
          continue;
        }
        o[r.method] = this.h.httpRoute({ path: r.path, method: r.method.toUpperCase(), request: build(r.req, this.L), response });
        if (r.key) this.routes.set(r.key, o[r.method]);
        if (freeze) {
          Object.freeze(o[r.method]);
          Object.freeze(response);
        }
      }
      if (freeze) Object.freeze(o);
      spec[a.api] = o;
    }
    if (freeze) Object.freeze(spec);
    delete this.L.track;
    this.W.guard('spec', spec);
    return this.h.apiSpec(spec);
  }
}

// A handler that treats its decoded request as its own; parts that a codec froze stay as they are.
function scribble(input, touch) {
  if (touch) touch(input);
  for (const k of Object.keys(input)) {
    const v = input[k];
    if (v && typeof v === 'object' && Object.prototype.toString.call(v) !== '[object Date]' && !Object.isFrozen(v)) {
      if (Array.isArray(v)) v.push('mutated');
      else v.mutated = true;
    }
    if (!Object.isFrozen(input)) input[k] = 'mutated';
  }
}

function thrown(desc) {
  switch (desc) {
    case 'error':
      return new Error('script error');
    case 'typeerror':
      return new TypeError('script type error');
    case 'status4':
      return Object.assign(new Error('with status'), { status: 418, statusCode: 418, expose: true, headers: { 'x-err': '1' } });
    case 'route':
    case 'router':
      return desc;
    case 'string':
      return 'plain string';
    case 'object':
      return { code: 42 };
    case 'undef':
      return undefined;
    case 'null':
      return null;
    case 'zero':
      return 0;
    default:
      return new Error(String(desc));
  }
}

// Hooks whose answer depends on the request they are asked about.
function varyCode(h, call) {
  return h.vary ? h.vary[hash32(String(call || ''), 7) % h.vary.length] : h.code;
}
function varyBody(h, body, call) {
  return h.vary ? { ...body, for: String(call || '') } : body;
}

async function runHttp(image, plan, opts = {}) {
  loadDeps(image);
  const { express, superagent } = deps;
  const sim = new Sim(plan.seed);
  const rec = new Recorder(sim);
  const als = new AsyncLocalStorage();
  rec.als = als;
  const W = { sim, rec, als, plan, guards: [] };
  // remembered as it is now and compared at the end of the run
  W.guard = (what, obj) => {
    W.guards.push({ what, obj, before: fp(obj) });
    return obj;
  };
  const calls = new Map();
  for (const c of [...(plan.calls || []), ...(plan.raws || []), ...(plan.subs || [])]) calls.set(c.id, c);
  const attempts = new Map();
  const net = new SimNet(sim, plan.seed, plan.net, plan.connFaults, (k, a, b, n, buf) => {
    let s = `${sim.now.toFixed(6)}|${k}|${a}|${b}|${n}`;
    if (buf) s += '|' + hash32(buf.length > 4096 ? buf.toString('latin1', 0, 2048) + buf.toString('latin1', buf.length - 2048) : buf.toString('latin1'));
    rec.mix(s);
    rec.order = hash32(`${k}|${a}|${b}`, rec.order);
    if (opts.trace) opts.trace.push({ t: +sim.now.toFixed(3), net: k, conn: a, dir: b, n });
  });
  W.net = net;
  activate(sim);
  const sharedArgs = new Map();
  const sharedPayloads = new Map();
  const procs = new Map();
  const getProc = (name, otelMode) => {
    let p = procs.get(name);
    if (!p || !p.alive) {
      p = new Proc(W, name, otelMode);
      procs.set(name, p);
    }
    return p;
  };

  const callOf = (req) => (req && req.headers && req.headers['x-sim-id']) || null;
  const rqOf = (req) => (req && req.simStore ? req.simStore.rq : -1);
  const scriptOf = (id, attempt) => {
    const c = calls.get(id);
    if (!c || !c.script) return {};
    if (Array.isArray(c.script)) return c.script[Math.min(attempt || 0, c.script.length - 1)];
    return c.script;
  };
  // which request's handler treated which objects as its own
  const touched = new WeakMap();
  const walk = (v, f, depth = 0) => {
    if (!v || typeof v !== 'object' || depth > 6) return;
    f(v);
    for (const k of Object.keys(v)) walk(v[k], f, depth + 1);
  };
  const touch = (rq) => (input) => walk(input, (o) => Object.isFrozen(o) || touched.set(o, rq));
  const seen = (input, rq, call) => {
    let by = null;
    walk(input, (o) => {
      if (touched.has(o) && touched.get(o) !== rq) by = touched.get(o);
    });
    if (by !== null) rec.ev('foreign-object', { rq, call, by });
  };
  const payloadFor = (h) => {
    if (h.recycle !== undefined) {
      // an object that its owner fills anew for every send
      let o = sharedPayloads.get(h.recycle);
      if (!o) sharedPayloads.set(h.recycle, (o = {}));
      for (const k of Object.keys(o)) delete o[k];
      Object.assign(o, hydrate(h.payload));
      return { v: o, before: canon(o), fp: fp(o) };
    }
    if (h.payloadKey !== undefined) {
      let p = sharedPayloads.get(h.payloadKey);
      if (!p) {
        const v = hydrate(h.payload);
        if (h.freeze) deepFreeze(v);
        p = { v, before: canon(v), fp: fp(v) };
        sharedPayloads.set(h.payloadKey, p);
      }
      return p;
    }
    const v = hydrate(h.payload);
    if (h.freeze) deepFreeze(v);
    return { v, before: canon(v), fp: fp(v) };
  };

  // ---------------------------------------------------------------- servers

  function hookFns(set, level, appName, api, proc) {
    const o = {};
    if (!set) return o;
    const id = (req) => callOf(req);
    if (set.decodeFmt)
      o.decodeErrorFormatter = (errs, req) => {
        rec.ev('hook.decodeFmt', { app: appName, level, api, rq: rqOf(req), call: id(req), errs: Array.isArray(errs) ? errs.length : -1 });
        if (set.decodeFmt.throw) throw thrown(set.decodeFmt.throw);
        return varyBody(set.decodeFmt, { by: set.decodeFmt.tag, n: Array.isArray(errs) && errs.length > 0 ? 1 : 0 }, id(req));
      };
    if (set.decodeStatus)
      o.getDecodeErrorStatusCode = (errs, req) => {
        rec.ev('hook.decodeStatus', { app: appName, level, api, rq: rqOf(req), call: id(req) });
        return varyCode(set.decodeStatus, id(req));
      };
    if (set.encodeFmt)
      o.encodeErrorFormatter = (err, req) => {
        rec.ev('hook.encodeFmt', { app: appName, level, api, rq: rqOf(req), call: id(req), err: describeError(err) });
        if (set.encodeFmt.throw) throw thrown(set.encodeFmt.throw);
        return varyBody(set.encodeFmt, { by: set.encodeFmt.tag }, id(req));
      };
    if (set.encodeStatus)
      o.getEncodeErrorStatusCode = (err, req) => {
        rec.ev('hook.encodeStatus', { app: appName, level, api, rq: rqOf(req), call: id(req) });
        return varyCode(set.encodeStatus, id(req));
      };
    if (set.after)
      o.afterEncodedResponseSent = (status, payload, req, res) => {
        rec.ev('hook.after', {
          app: appName, level, api, tag: set.after.tag, rq: rqOf(req), call: id(req), status, payload: canon(payload), ended: !!(res && res.writableEnded), pair: !!res && res.req === req, rstatus: res && res.statusCode,
        });
        if (set.after.throw) throw thrown(set.after.throw);
      };
    return o;
  }

  function respShape(form, status, payload, proc) {
    // the different ways a handler may name the status of its response
    const K = KEY_OF[status];
    switch (form) {
      case 'key':
        return { type: K, payload };
      case 'respNum':
        return proc.mod('response').Response[K](payload);
      case 'respKey':
        return proc.mod('response').KeyedResponse[K](payload);
      case 'hResp':
        return proc.h.Response[K](payload);
      default:
        return { type: status, payload };
    }
  }

  function buildEwApp(appPlan, server, proc, pre) {
    const { routerForApiSpec, createServer, middlewareFn, routeHandler } = proc.mod('express-wrapper');
    const spec = getSpec(appPlan, proc);
    // One element of a middleware chain. The same one may stand in a chain more than once, or in the
    // chains of several routes: `at` finds out where it is running.
    const element = (m, index, place) => {
      const fn = makeElement(m, (req) => {
        let where = place;
        if (!where) {
          where = { app: appPlan.name, api: req.apiName === undefined ? null : String(req.apiName), method: req.httpRoute ? String(req.httpRoute.method).toLowerCase() : null };
        }
        if (!counts.has(req)) counts.set(req, new Map());
        const c = counts.get(req);
        const key = `${where.api} ${where.method}`;
        const n = (c.get(fn) || {})[key] || 0;
        c.set(fn, { ...(c.get(fn) || {}), [key]: n + 1 });
        const route = findRoute(appPlan, where.api, where.method);
        const chain = (route && route.chain) || [];
        const is = (x) => (place ? x === index || chain[x] === '=' + index : chain[x] === '@' + index);
        const all = chain.map((_, x) => x).filter(is);
        return { where, i: all.length ? all[Math.min(n, all.length - 1)] : -1 };
      });
      return fn;
    };
    const makeElement = (m, at) => {
      const body = (req, res) => {
        const store = als.getStore() || {};
        const id = store.call || null;
        const { where, i } = at(req);
        const sc = ((scriptOf(id, store.attempt).mw || [])[i]) || { act: 'ok' };
        rec.ev('mw.start', { ...where, mw: i, call: id, attempt: store.attempt });
        const finish = () => {
          rec.ev('mw.end', { ...where, mw: i, call: id, attempt: store.attempt, act: sc.act });
          if (sc.setStatus) res.status(sc.setStatus);
          if (sc.flush === 'head') res.flushHeaders();
          else if (sc.flush) res.write('part');
          return sc;
        };
        return { sc, finish, id, i };
      };
      if (m === 'mwfn')
        return middlewareFn((req, res) => {
          const { sc, finish, i } = body(req, res);
          const result = () => {
            if (sc.resultKey === undefined) return sc.result === undefined ? {} : hydrate(sc.result);
            // one object for every request, owned by the middleware
            const key = 'mw:' + sc.resultKey;
            let p = sharedPayloads.get(key);
            if (!p) {
              const v = hydrate(sc.result);
              if (sc.freeze) deepFreeze(v);
              sharedPayloads.set(key, (p = { v }));
              W.guard('middleware result', v);
            }
            return p.v;
          };
          if (sc.act === 'syncthrow') {
            finish();
            throw thrown(sc.value);
          }
          return (async () => {
            for (const d of sc.delays || []) {
              await sim.sleep(d);
              if (!proc.alive) await new Promise(() => {});
            }
            finish();
            if (sc.act === 'throw' || sc.act === 'nextErr') throw thrown(sc.value);
            if (sc.act === 'respond') {
              res.status(sc.status).json({ mw: i });
              await new Promise(() => {});
            }
            return result();
          })();
        });
      return (req, res, next) => {
        const { sc, finish, i } = body(req, res);
        const go = () => {
          finish();
          if (sc.act === 'nextErr') return next(thrown(sc.value));
          if (sc.act === 'respond') return void res.status(sc.status).json({ mw: i });
          next();
          if (sc.twice === 0) next();
          else if (sc.twice) sim.after(sc.twice, () => next());
        };
        if (sc.act === 'throw' || sc.act === 'syncthrow') {
          finish();
          throw thrown(sc.value);
        }
        const ds = (sc.delays || []).slice();
        if (ds.length === 0) return go();
        const step = () => {
          if (!proc.alive) return;
          if (ds.length === 0) return go();
          sim.after(ds.shift(), AsyncLocalStorage.bind(step));
        };
        step();
      };
    };
    const counts = new WeakMap();
    const pool = (appPlan.pool || []).map((m, i) => element(m, i, null));
    const handlers = {};
    for (const a of appPlan.spec) {
      handlers[a.api] = {};
      for (const r of a.routes) {
        const where = { app: appPlan.name, api: a.api, method: r.method };
        const service = async (input) => {
          const store = als.getStore() || {};
          const id = store.call || null;
          const sc = scriptOf(id, store.attempt).h || { act: 'none-scripted' };
          seen(input, store.rq, id);
          rec.ev('handler.start', { ...where, call: id, attempt: store.attempt, input: canon(input, true), inputFull: canon(input) });
          if (sc.mutateInput && input && typeof input === 'object') {
            scribble(input, touch(store.rq));
          }
          for (const d of sc.delays || []) {
            await sim.sleep(d);
            if (!proc.alive) return new Promise(() => {});
          }
          rec.ev('handler.end', { ...where, call: id, attempt: store.attempt, act: sc.act });
          if (sc.act === 'throw') throw thrown(sc.value);
          if (sc.act === 'return') {
            const p = payloadFor(sc);
            if (sc.recycle === undefined) sim.after(5000, () => {
              if (fp(p.v) !== p.fp) rec.ev('mutated', { what: 'payload', call: id });
            });
            return respShape(sc.form, sc.status, p.v, proc);
          }
          if (sc.act === 'raw') return hydrate(sc.result);
          if (sc.act === 'never') return new Promise(() => {});
          return { type: 500, payload: null };
        };
        // a synchronous service function, when nothing is awaited
        const syncService = (input) => {
          const store = als.getStore() || {};
          const sc = scriptOf(store.call, store.attempt).h || {};
          if (sc.sync && !(sc.delays && sc.delays.length)) {
            rec.ev('handler.start', { ...where, call: store.call || null, attempt: store.attempt, input: canon(input, true), inputFull: canon(input) });
            rec.ev('handler.end', { ...where, call: store.call || null, attempt: store.attempt, act: sc.act });
            if (sc.act === 'throw') throw thrown(sc.value);
            if (sc.act === 'raw') return hydrate(sc.result);
            return respShape(sc.form, sc.status, payloadFor(sc).v, proc);
          }
          return service(input);
        };
        const chain = [];
        for (const m of r.chain || []) {
          if (m[0] === '=') chain.push(chain[+m.slice(1)]);
          else if (m[0] === '@') chain.push(pool[+m.slice(1)]);
          else chain.push(element(m, chain.length, where));
        }
        const fn = r.syncable ? syncService : service;
        if (r.style === 'branded') handlers[a.api][r.method] = routeHandler({ middleware: chain, handler: fn });
        else if (r.style === 'plain') handlers[a.api][r.method] = { middleware: chain, handler: fn };
        else if (r.style === 'brandedNoMw') handlers[a.api][r.method] = routeHandler({ handler: fn });
        else handlers[a.api][r.method] = fn;
        W.guard('middleware chain', chain);
      }
    }
    W.guard('handlers', handlers);
    const hooks = hookFns(appPlan.hooks, 'router', appPlan.name, null, proc);
    if (appPlan.via === 'createServer') {
      return createServer(spec, (app) => {
        pre(app);
        return handlers;
      });
    }
    const app = express();
    pre(app);
    const args = { spec, routeHandlers: handlers, ...hooks };
    if (appPlan.freeze) Object.freeze(args);
    W.guard('options', args);
    app.use(appPlan.mount2 || '/', routerForApiSpec(args));
    return app;
  }

  function buildTerApp(appPlan, server, proc, pre, live) {
    const { createRouter, wrapRouter } = proc.mod('typed-express-router');
    const spec = getSpec(appPlan, proc);
    const hooks = hookFns(appPlan.hooks, 'router', appPlan.name, null, proc);
    const app = express();
    if (appPlan.appOpts) for (const k of Object.keys(appPlan.appOpts)) app.set(k, appPlan.appOpts[k]);
    pre(app);
    let router;
    let base = null;
    if (appPlan.via === 'wrapRouter') {
      base = express.Router(appPlan.routerOpts || {});
      for (const s of appPlan.pre || []) addPlain(base, s, appPlan);
      if (appPlan.freeze) Object.freeze(hooks);
      W.guard('options', hooks);
      router = wrapRouter(base, spec, appPlan.freeze ? Object.freeze(hooks) : hooks);
    } else {
      const o = { ...hooks, ...(appPlan.routerOpts || {}) };
      if (appPlan.freeze) Object.freeze(o);
      W.guard('options', o);
      router = createRouter(spec, appPlan.freeze ? Object.freeze(o) : o);
    }
    const useFns = new Map();
    const doStep = (s, idx) => {
      if (s.op === 'use') {
        const fn = useFns.get(s.id) || ((req, res, next) => {
          const id = callOf(req);
          const sc = (scriptOf(id, req.simStore && req.simStore.attempt).use || {})[s.id] || { act: 'next' };
          const d = req.decoded;
          rec.ev('use.start', {
            app: appPlan.name, rq: rqOf(req), use: s.id, mw: s.id, call: id, api: req.apiName === undefined ? null : req.apiName, method: req.httpRoute && req.httpRoute.method, path: req.httpRoute && req.httpRoute.path,
            decoded: d && d._tag, value: d && d._tag === 'Right' ? canon(d.right, true) : null,
          });
          later(sc.delays, proc, () => {
            rec.ev('use.end', { app: appPlan.name, rq: rqOf(req), use: s.id, mw: s.id, call: id, act: sc.act });
            if (sc.setStatus) res.status(sc.setStatus);
            if (sc.act === 'nextErr') return next(thrown(sc.value));
            if (sc.act === 'respond') return void res.status(sc.status).json({ use: s.id });
            if (sc.act === 'sendEncoded') return void trySend(res, sc, { app: appPlan.name, use: s.id, rq: rqOf(req) }, id, req);
            if (sc.act === 'nextRoute') return next('route');
            if (sc.act === 'nextRouter') return next('router');
            next();
          });
        });
        useFns.set(s.id, fn);
        router.use(fn);
        return;
      }
      if (s.op === 'plain') {
        addPlain(base || router, s, appPlan);
        return;
      }
      const r = findRoute(appPlan, s.api, s.method);
      const where = { app: appPlan.name, api: s.api, method: s.method, reg: idx };
      const mkHandler = (hi, last) => (req, res, next) => {
        const id = callOf(req);
        const attempt = req.simStore && req.simStore.attempt;
        const rq = rqOf(req);
        const scAll = scriptOf(id, attempt);
        const sc = (Array.isArray(scAll.hs) ? scAll.hs[hi] : last ? scAll.h : undefined) || (last ? { act: 'none-scripted' } : { act: 'next' });
        const d = req.decoded;
        const o = { ...where, rq, hi, mw: hi, call: id, attempt };
        seen(s.unchecked ? d && d.right : d, rq, id);
        if (s.unchecked) {
          o.decoded = d && d._tag;
          o.input = d && d._tag === 'Right' ? canon(d.right, true) : null;
        } else o.input = canon(d, true);
        rec.ev(last ? 'handler.start' : 'pre.start', o);
        later(sc.delays, proc, () => {
          rec.ev(last ? 'handler.end' : 'pre.end', { ...where, rq, hi, mw: hi, call: id, act: sc.act });
          // passing the request on would show the next matching route what this handler did to it
          if (sc.mutateInput && !/^next(Route|Router)?$/.test(sc.act) && !s.unchecked && d && typeof d === 'object') scribble(d, touch(rq));
          perform(sc, req, res, next, { ...where, rq }, id);
        });
      };
      const nH = s.handlers || 1;
      const hs = [];
      for (let i = 0; i < nH; i++) hs.push(mkHandler(i, i === nH - 1));
      const o = hookFns(s.hooks, 'route', appPlan.name, s.api, proc);
      if (s.aliases) o.routeAliases = s.aliases.slice();
      if (appPlan.freeze) {
        Object.freeze(hs);
        Object.freeze(o);
        if (o.routeAliases) Object.freeze(o.routeAliases);
      }
      W.guard('handlers', hs);
      W.guard('options', o);
      const m = s.unchecked ? s.method + 'Unchecked' : s.method;
      if (Object.keys(o).length === 0 && s.noOpts) router[m](s.api, hs);
      else router[m](s.api, hs, o);
    };
    (appPlan.steps || []).forEach((s, idx) => {
      const go = () => {
        try {
          doStep(s, idx);
          if (s.at) rec.ev('reg', { app: appPlan.name, step: idx });
        } catch (e) {
          rec.ev('setup.threw', { app: appPlan.name, step: idx, err: describeError(e) });
        }
      };
      if (s.at) sim.after(s.at, () => proc.alive && go());
      else go();
    });
    app.use(appPlan.mount2 || '/', router);
    return app;
  }

  function later(delays, proc, fn) {
    const ds = (delays || []).slice();
    const step = () => {
      if (!proc.alive) return;
      if (ds.length === 0) return fn();
      sim.after(ds.shift(), AsyncLocalStorage.bind(step));
    };
    step();
  }

  function trySend(res, sc, where, id, req) {
    const p = payloadFor(sc);
    rec.ev('send', { ...where, call: id, status: sc.status, payload: p.before });
    try {
      res.sendEncoded(sc.status, p.v);
      rec.ev('sent', { ...where, call: id, sc: res.statusCode, ended: res.writableEnded });
    } catch (e) {
      rec.ev('send.threw', { ...where, call: id, err: describeError(e) });
      if (!res.headersSent) res.status(500).json({ sendThrew: true });
      else if (!res.writableEnded) res.end();
    }
    if (fp(p.v) !== p.fp) rec.ev('mutated', { what: 'payload', call: id });
  }

  function perform(sc, req, res, next, where, id) {
    switch (sc.act) {
      case 'sendEncoded':
        trySend(res, sc, where, id, req);
        if (sc.again) trySend(res, sc.again, where, id, req);
        if (sc.then === 'next') next();
        return;
      case 'sendUncaught':
        // the usual way: nothing around it (a throw goes to express when synchronous)
        rec.ev('send', { ...where, call: id, status: sc.status, payload: canon(hydrate(sc.payload)) });
        return void res.sendEncoded(sc.status, hydrate(sc.payload));
      case 'plainSend':
        rec.ev('plainSend', { ...where, call: id });
        return void res.status(sc.status).json(hydrate(sc.payload));
      case 'next':
        return next();
      case 'nextRoute':
        return next('route');
      case 'nextRouter':
        return next('router');
      case 'nextErr':
        return next(thrown(sc.value));
      case 'throw':
        throw thrown(sc.value);
      case 'never':
        return;
      default:
        return void res.status(500).json({ unscripted: true });
    }
  }

  function addPlain(router, s, appPlan) {
    const fn = (req, res, next) => {
      const id = callOf(req);
      rec.ev('plain', { app: appPlan.name, rq: rqOf(req), plain: s.id, mw: s.id, call: id });
      if (s.pass) return next();
      res.status(s.status || 200).json({ plain: s.id });
    };
    if (s.method === 'use') router.use(fn);
    else router[s.method](s.path, fn);
  }

  // a spec comes from the plan's descriptors, or from sources that the caller evaluates
  const ownSpec = (ap, proc) => (opts.specs ? opts.specs(ap, proc) : proc.spec(ap.spec, ap.freeze));
  const specCache = new Map();
  function getSpec(appPlan, proc) {
    if (!appPlan.specKey) return ownSpec(appPlan, proc);
    const k = proc.name + '/' + appPlan.specKey;
    let s = specCache.get(k);
    if (!s || s.proc !== proc) specCache.set(k, (s = { proc, spec: ownSpec(appPlan, proc) }));
    return s.spec;
  }

  let reqCount = 0;
  function startServer(sp) {
    const proc = getProc(sp.proc || sp.name, sp.otel);
    const hostKey = sp.host;
    if (sp.kind === 'raw') {
      net.listen(hostKey, (socket, link) => rawServer(sp, socket, link));
      return;
    }
    const parent = express();
    if (sp.etag === false) parent.set('etag', false);
    parent.use((req, res, next) => {
      const id = callOf(req);
      const n = attempts.get(id) || 0;
      attempts.set(id, n + 1);
      const rq = reqCount++;
      rec.ev('req', { rq, call: id, attempt: n, server: sp.name, method: req.method, url: req.url });
      let ended = 0;
      const origEnd = res.end;
      res.end = function (...a) {
        ended++;
        if (ended === 1) rec.ev('res.end', { rq, call: id, attempt: n, status: res.statusCode, type: String(res.getHeader('content-type') || ''), body: a[0] === undefined || a[0] === null || typeof a[0] === 'function' ? '' : Buffer.isBuffer(a[0]) ? a[0].toString('utf8') : String(a[0]) });
        return origEnd.apply(this, a);
      };
      res.on('close', () => rec.ev('res.close', { rq, call: id, attempt: n, finished: res.writableFinished, status: res.statusCode }));
      als.run({ call: id, attempt: n, rq }, () => {
        req.simStore = als.getStore();
        next();
      });
    });
    for (const ap of sp.apps) {
      const pre = (app) => {
        if (ap.etag === false) app.set('etag', false);
        if (ap.json !== false) app.use(express.json(ap.json || {}));
        app.use((req, res, next) => {
          const snap = [fp(req.body, 0, true), fp(req.query, 0, true), fp(req.headers)];
          const id = callOf(req);
          rec.ev('parts', { rq: rqOf(req), app: ap.name, call: id, url: req.url, method: req.method, body: dehydrate(req.body), query: dehydrate(req.query), headers: dehydrate(req.headers) });
          res.on('close', () => {
            const now = [fp(req.body, 0, true), fp(req.query, 0, true), fp(req.headers)];
            ['body', 'query', 'headers'].forEach((w, i) => {
              if (now[i] !== snap[i]) rec.ev('mutated', { rq: rqOf(req), what: 'req.' + w, call: id });
            });
          });
          als.run(req.simStore || { call: id }, next);
        });
      };
      let app;
      try {
        app = ap.kind === 'ew' ? buildEwApp(ap, sp, proc, pre) : buildTerApp(ap, sp, proc, pre);
      } catch (e) {
        rec.ev('setup.threw', { app: ap.name, err: describeError(e) });
        continue;
      }
      parent.use(ap.mount || '/', app);
    }
    parent.use((req, res) => {
      rec.ev('fallthrough', { rq: rqOf(req), call: callOf(req), sent: res.headersSent });
      if (!res.headersSent) res.status(404).json({ fallthrough: true });
    });
    // express needs the four arguments
    parent.use((err, req, res, next) => {
      rec.ev('express.error', { rq: rqOf(req), call: callOf(req), err: describeError(err), sent: res.headersSent });
      if (res.headersSent) {
        if (!res.writableEnded) res.end();
        return;
      }
      res.status(err && err.status >= 400 ? err.status : 500).json({ expressError: true });
    });
    const hs = http.createServer({ ServerResponse: UndatedResponse }, parent);
    hs.on('clientError', (e, sock) => {
      rec.ev('clientError', { code: e.code || '' });
      if (sock.writable) sock.end('HTTP/1.1 400 Bad Request\r\nConnection: close\r\n\r\n');
    });
    hs.removeAllListeners('request');
    hs.on('request', (req, res) => {
      res.sendDate = false;
      if (!proc.alive) return;
      parent(req, res);
    });
    hs.keepAliveTimeout = sp.keepAlive === undefined ? 5000 : sp.keepAlive;
    hs.headersTimeout = 0;
    hs.requestTimeout = 0;
    net.listen(hostKey, (socket) => hs.emit('connection', socket));
    rec.ev('server.up', { server: sp.name });
    sp._proc = proc;
  }

  function rawServer(sp, socket, link) {
    // a peer that speaks whatever the plan says
    let buf = '';
    socket.on('data', (d) => {
      buf += d.toString('latin1');
      for (;;) {
        const he = buf.indexOf('\r\n\r\n');
        if (he < 0) return;
        const head = buf.slice(0, he);
        const cl = /content-length: *(\d+)/i.exec(head);
        const need = he + 4 + (cl ? +cl[1] : 0);
        if (buf.length < need) return;
        buf = buf.slice(need);
        const m = /x-sim-id: *([^\r\n]*)/i.exec(head);
        const id = m ? m[1].trim() : null;
        const n = attempts.get(id) || 0;
        attempts.set(id, n + 1);
        rec.ev('req', { call: id, attempt: n, server: sp.name, line: head.split('\r\n')[0] });
        const sc = scriptOf(id, n).wire || { bytes: 'HTTP/1.1 500 X\r\ncontent-length: 0\r\n\r\n' };
        sim.after(sc.delay || 0, () => {
          if (socket.destroyed) return;
          rec.ev('wire', { call: id, attempt: n, n: sc.bytes.length });
          if (sc.bytes) socket.write(Buffer.from(sc.bytes, sc.enc || 'utf8'));
          if (sc.close) socket.end();
          if (sc.rst) link.reset('script', 1);
        });
      }
    });
    socket.on('end', () => socket.end());
  }

  for (const sp of plan.servers) {
    delete sp._proc;
    startServer(sp);
  }

  // ---------------------------------------------------------------- clients

  const clients = plan.clients.map((cp) => {
    const agent = net.agent(cp.name, cp.agent || {});
    const server = plan.servers.find((s) => s.name === cp.server);
    const like = (decorate) => {
      const o = {};
      for (const m of ['get', 'post', 'put', 'delete', 'patch'])
        o[m] = (url) => {
          rec.ev('client.request', { client: cp.name, method: m, url });
          return superagent[m](decorate(url)).agent(agent);
        };
      return o;
    };
    const C = { cp, agent, apis: {}, server };
    C.api = (appName) => {
      if (C.apis[appName]) return C.apis[appName];
      const ap = server.apps.find((a) => a.name === appName);
      const proc = cp.proc === 'server' ? getProc(server.proc || server.name, server.otel) : getProc(cp.proc || cp.name, 'on');
      const sw = proc.mod('superagent-wrapper');
      const spec = cp.proc === 'server' ? getSpec(ap, proc) : ownSpec(ap, proc);
      const host = `http://${server.host}`;
      const full = ((ap.mount === '/' ? '' : ap.mount || '') + (ap.mount2 === '/' ? '' : ap.mount2 || '')) || '';
      let factory;
      if (cp.factory === 'supertest') factory = sw.supertestRequestFactory(like((u) => host + full + u));
      else factory = sw.superagentRequestFactory(like((u) => u), host + full + (cp.slash ? '/' : ''));
      const api = sw.buildApiClient(factory, spec);
      C.apis[appName] = { api, DecodeError: sw.DecodeError };
      return C.apis[appName];
    };
    return C;
  });

  const open = new Set();
  const finished = new Map();
  function recordResolved(id, op, r, DecodeError) {
    const o = { id, op, out: 'resolved', call: id };
    if (r && typeof r === 'object' && 'original' in r) {
      o.status = r.status;
      o.body = canon(r.body, true);
      o.error = r.error === undefined ? null : typeof r.error;
      o.errorEmpty = r.error === '';
      const orig = r.original;
      if (orig) {
        o.origStatus = orig.status;
        o.origText = typeof orig.text === 'string' ? orig.text : null;
        o.origBody = canon(orig.body);
        o.bodyValue = dehydrate(orig.body);
        o.origType = orig.type;
      }
      o.shape = Object.keys(r).sort().join();
    } else {
      o.plain = true;
      o.origStatus = r && r.status;
      o.bodyValue = dehydrate(r && r.body);
      o.origText = r && typeof r.text === 'string' ? r.text : null;
    }
    o.retried = !!(calls.get(id) || {}).retry;
    rec.ev('result', o);
  }
  function recordRejected(id, op, e, DecodeError) {
    const o = { id, op, out: 'rejected', call: id, err: describeError(e), code: (e && e.code) || null };
    o.isDecodeError = e instanceof DecodeError;
    if (e && e.decodedResponse) {
      const r = e.decodedResponse;
      o.dStatus = r.status;
      o.dBody = canon(r.body, true);
      o.dOrigStatus = r.original && r.original.status;
      o.dError = r.error === undefined ? null : typeof r.error;
    }
    o.httpStatus = (e && e.status) || null;
    o.msg = e && typeof e.message === 'string' ? e.message.length : -1;
    rec.ev('result', o);
  }

  function startCall(c) {
    const C = clients[c.client];
    open.add(c.id);
    let args;
    let before;
    if (c.argsKey !== undefined) {
      let s = sharedArgs.get(c.argsKey);
      if (!s) {
        const v = hydrate(c.args);
        if (c.freeze) deepFreeze(v);
        sharedArgs.set(c.argsKey, (s = { v, before: fp(v) }));
      }
      args = s.v;
      before = s.before;
    } else if (c.slot !== undefined) {
      args = sharedArgs.get(c.slot);
      if (!args) sharedArgs.set(c.slot, (args = {}));
      for (const k of Object.keys(args)) delete args[k];
      Object.assign(args, hydrate(c.args));
      before = fp(args);
    } else {
      args = hydrate(c.args);
      if (c.freeze) deepFreeze(args);
      before = fp(args);
    }
    const check = (when) => {
      if (c.slot !== undefined && when === 'done') return; // it may be another call's by now
      if (fp(args) !== before) rec.ev('mutated', { what: 'args', call: c.id, when });
    };
    rec.ev('call.start', { call: c.id, api: c.api, method: c.method });
    let req;
    let api;
    try {
      api = C.api(c.app);
      req = api.api[c.api][c.method](args);
    } catch (e) {
      rec.ev('call.threw', { call: c.id, err: describeError(e) });
      check('throw');
      open.delete(c.id);
      finished.set(c.id, sim.now);
      return;
    }
    check('build');
    try {
      req.set('x-sim-id', c.id);
      if (c.timeout) req.timeout(c.timeout);
      if (c.retry) req.retry(c.retry);
    } catch (e) {
      rec.ev('call.threw', { call: c.id, err: describeError(e) });
      open.delete(c.id);
      return;
    }
    const ops = c.ops || ['decode'];
    let pending = ops.length;
    const bodies = [];
    const doneOne = () => {
      check('done');
      if (--pending === 0) {
        // a caller that treats what it received as its own
        if (c.scribble) for (const b of bodies) if (b && typeof b === 'object' && !(b instanceof Date)) scribble(b);
        open.delete(c.id);
        finished.set(c.id, sim.now);
      }
    };
    const runOp = (op, i) => {
      let p;
      try {
        if (op === 'decode') p = req.decode();
        else if (op === 'then') p = Promise.resolve(req);
        else p = req.decodeExpecting(Number(op.split(':')[1]));
      } catch (e) {
        recordRejected(c.id, op, e, api.DecodeError);
        doneOne();
        return Promise.resolve();
      }
      return p.then(
        (r) => {
          recordResolved(c.id, op, r, api.DecodeError);
          if (op !== 'then' && r) bodies.push(r.body);
          doneOne();
        },
        (e) => {
          recordRejected(c.id, op, e, api.DecodeError);
          doneOne();
        },
      );
    };
    if (c.abortAt !== undefined)
      sim.after(c.abortAt, () => {
        if (open.has(c.id)) {
          net.count('client_abort');
          rec.ev('abort', { call: c.id });
          req.abort();
        }
      });
    if (c.seq) {
      (async () => {
        for (let i = 0; i < ops.length; i++) await runOp(ops[i], i);
      })();
    } else ops.forEach(runOp);
    check('sent');
  }

  const rawAgents = new Map();
  function startRaw(c) {
    open.add(c.id);
    const server = plan.servers.find((s) => s.name === c.server);
    const [host, port] = server.host.split(':');
    rec.ev('call.start', { call: c.id, raw: true });
    const fin = (o) => {
      if (!open.has(c.id)) return;
      open.delete(c.id);
      finished.set(c.id, sim.now);
      rec.ev('raw.result', { id: c.id, call: c.id, ...o });
    };
    if (c.bytes !== undefined) {
      // arbitrary bytes on a fresh connection; everything received is kept
      const s = net.connect(c.clientName || 'raw', server.host);
      const got = [];
      s.on('data', (d) => got.push(d));
      const end = (why) => fin({ why, bytes: Buffer.concat(got).toString('latin1') });
      s.on('error', (e) => end('error:' + e.code));
      s.on('close', () => end('close'));
      s.on('end', () => end('end'));
      s.write(Buffer.from(c.bytes, 'latin1'));
      if (c.half) s.end();
      sim.after(c.wait || 30000, () => {
        end('wait');
        s.destroy();
      });
      return;
    }
    const key = c.agentKey || 'raw';
    let agent = rawAgents.get(key);
    if (!agent) rawAgents.set(key, (agent = net.agent(key, { keepAlive: true, maxSockets: c.maxSockets || Infinity })));
    const headers = { 'x-sim-id': c.id, ...(c.headers || {}) };
    const body = c.body === undefined ? null : Buffer.from(c.body, 'utf8');
    if (body) headers['content-length'] = String(body.length);
    let r;
    try {
      r = http.request({ host, port, method: c.method, path: c.path, headers, agent, setHost: true });
    } catch (e) {
      return fin({ why: 'bad', err: describeError(e) });
    }
    r.on('error', (e) => fin({ why: 'error', err: e.code || e.message }));
    r.on('response', (res) => {
      const parts = [];
      res.on('data', (d) => parts.push(d));
      res.on('error', () => {});
      res.on('aborted', () => fin({ why: 'aborted', status: res.statusCode }));
      res.on('end', () => {
        if (res.complete) fin({ why: 'response', status: res.statusCode, type: res.headers['content-type'] || '', body: Buffer.concat(parts).toString('utf8') });
        else fin({ why: 'aborted', status: res.statusCode });
      });
    });
    if (c.disconnectAt !== undefined)
      sim.after(c.disconnectAt, () => {
        if (open.has(c.id)) {
          net.count('client_disconnect');
          rec.ev('disconnect', { call: c.id });
          r.destroy();
          fin({ why: 'disconnect' });
        }
      });
    r.end(body || undefined);
  }

  for (const c of plan.calls || []) sim.after(c.at, () => startCall(c));
  for (const c of plan.raws || []) sim.after(c.at, () => startRaw(c));
  for (const f of plan.timed || []) {
    sim.after(f.at, () => {
      if (f.kind === 'crash') {
        const sp = plan.servers.find((s) => s.name === f.server);
        if (!net.listeners.has(sp.host)) return;
        net.count('crash');
        for (const other of plan.servers)
          if ((other.proc || other.name) === (sp.proc || sp.name) && net.listeners.has(other.host)) {
            net.crash(other.host);
            rec.ev('crash', { server: other.name });
          }
        const p = procs.get(sp.proc || sp.name);
        if (p) p.alive = false;
        sim.after(f.down, () => {
          for (const other of plan.servers)
            if ((other.proc || other.name) === (sp.proc || sp.name) && !net.listeners.has(other.host)) startServer(other);
          net.count('restart');
        });
      } else if (f.kind === 'partition') {
        const sp = plan.servers.find((s) => s.name === f.server);
        net.partition(f.client, sp.host, f.dur);
      }
    });
  }

  const until = plan.until || 120000;
  const total = (plan.calls || []).length + (plan.raws || []).length;
  const lastStart = Math.max(0, ...(plan.calls || []).map((c) => c.at), ...(plan.raws || []).map((c) => c.at));
  let settleAt = -1;
  let settleEvents = -1;
  const ended = await sim.run({
    until,
    maxSteps: plan.maxSteps || 150000,
    done: () => {
      // keep going until nothing was recorded for a while after the last reply, so that late effects (hooks, second
      // responses) and requests whose client gave up long ago are seen to their end
      if (sim.now < lastStart || open.size > 0 || finished.size < total) {
        settleAt = -1;
        return false;
      }
      if (settleAt < 0 || rec.events.length !== settleEvents) {
        settleAt = sim.now + 6000;
        settleEvents = rec.events.length;
      }
      return sim.now >= settleAt;
    },
  });
  const simTime = sim.now;
  const openIds = [...open];
  for (const g of W.guards) if (fp(g.obj) !== g.before) rec.ev('mutated', { what: g.what });
  for (const a of [...clients.map((c) => c.agent), ...rawAgents.values()]) a.destroy();
  for (const l of net.links) {
    l.closing = true;
    l.c2s.kill();
    l.s2c.kill();
    l.c.destroy();
    l.s.destroy();
  }
  // let teardown callbacks run out under the simulated clock, unrecorded
  const events = rec.events.slice();
  const uncaught = sim.uncaught.slice();
  const digest = rec.hash >>> 0;
  const order = rec.order >>> 0;
  sim.heap = [];
  await sim.run({ maxSteps: 1000 });
  sim.heap = [];
  deactivate();
  als.disable();
  for (const sp of plan.servers) delete sp._proc;
  return { events, uncaught, digest, order, ended, simTime, steps: sim.steps, open: openIds, finishedAt: finished, counts: net.counts, conns: net.links.length, bytes: net.bytes };
}

// Independent table: RFC names used by api-ts for status codes.
const KEY_OF = {
  100: 'continue', 101: 'switchingProtocols', 102: 'processing', 200: 'ok', 201: 'created', 202: 'accepted', 203: 'nonAuthoritativeInformation', 204: 'noContent', 205: 'resetContent', 206: 'partialContent', 207: 'multiStatus', 208: 'alreadyReported', 226: 'imUsed', 300: 'multipleChoices', 301: 'movedPermanently', 302: 'found', 303: 'seeOther', 304: 'notModified', 307: 'temporaryRedirect', 308: 'permanentRedirect', 400: 'invalidRequest', 401: 'unauthenticated', 402: 'paymentRequired', 403: 'permissionDenied', 404: 'notFound', 405: 'methodNotAllowed', 406: 'notAcceptable', 407: 'proxyAuthenticationRequired', 408: 'requestTimeout', 409: 'conflict', 410: 'gone', 411: 'lengthRequired', 412: 'preconditionFailed', 413: 'contentTooLarge', 414: 'uriTooLong', 415: 'unsupportedMediaType', 416: 'rangeNotSatisfiable', 417: 'exceptionFailed', 418: 'imATeapot', 421: 'misdirectedRequest', 422: 'unprocessableContent', 423: 'locked', 424: 'failedDependency', 425: 'tooEarly', 426: 'upgradeRequired', 428: 'preconditionRequired', 429: 'rateLimitExceeded', 431: 'requestHeaderFieldsTooLarge', 451: 'unavailableForLegalReasons', 500: 'internalError', 501: 'notImplemented', 502: 'badGateway', 503: 'serviceUnavailable', 504: 'gatewayTimeout', 505: 'httpVersionNotSupported', 506: 'variantAlsoNegotiates', 507: 'insufficientStorage', 508: 'loopDetected', 510: 'notExtended', 511: 'networkAuthenticationRequired',
};
const STATUS_OF = {};
for (const k of Object.keys(KEY_OF)) STATUS_OF[KEY_OF[k]] = Number(k);

function findRoute(appPlan, api, method) {
  const a = appPlan.spec.find((x) => x.api === api);
  return a && a.routes.find((r) => r.method === method);
}

// what kind of middleware the element of a chain is ('=n': the element n again, '@n': one that several routes share)
function chainKind(appPlan, chain, i) {
  const m = chain[i];
  return m[0] === '=' ? chain[+m.slice(1)] : m[0] === '@' ? appPlan.pool[+m.slice(1)] : m;
}

module.exports = { runHttp, chainKind, varyCode, varyBody, loadDeps, KEY_OF, STATUS_OF, findRoute };
