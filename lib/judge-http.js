'use strict';
// Oracles over the recorded history of one HTTP-world run. A small reference interpreter replays what every request
// should have caused (from the plan, the reference router and the reference codecs) and the history is compared with it.
const { build } = require('./codecs');
const { canon, hydrate } = require('./value');
const R = require('./route-ref');
const { STATUS_OF, findRoute, chainKind, varyCode, varyBody } = require('./world-http');

const RETRY_STATUS = new Set([408, 413, 429, 500, 502, 503, 504, 521, 522, 524]);
const OP = 'api_ts.operation_id';
const ME = 'api_ts.method';
const PA = 'api_ts.path';
const ST = 'api_ts.status_code';

// the error object that reaches express, as far as its status matters
const errStatus = (v) => (v === 'status4' ? 418 : 500);
const FALSY = new Set(['undef', 'null', 'zero']);

function jsonOf(encoded) {
  // what JSON carries of an encoded value; throws when it cannot be serialised
  const s = JSON.stringify(encoded);
  return s === undefined ? undefined : JSON.parse(s);
}

// A request that is an intersection decodes to what its parts declare together with the parts of the request itself.
function declared(req, d) {
  if (req.k !== 'bodyreq') return d.c;
  const out = {};
  for (const k of ['body', ...Object.values(req.groups).flatMap((g) => Object.keys(g))]) if (d.v[k] !== undefined) out[k] = d.v[k];
  return canon(out, true);
}

class Model {
  constructor(plan, lib) {
    this.plan = plan;
    this.lib = lib;
    this.cache = new Map();
    this.apps = new Map();
    for (const sp of plan.servers) for (const a of sp.apps) this.apps.set(a.name, { sp, app: a, layers: null });
  }
  codec(d, key) {
    let c = this.cache.get(d);
    if (!c) this.cache.set(d, (c = build(d, this.lib)));
    return c;
  }
  layers(name) {
    const rec = this.apps.get(name);
    if (rec.layers) return rec.layers;
    const { app } = rec;
    const out = [];
    if (app.kind === 'ew') {
      for (const a of app.spec)
        for (const r of a.routes) out.push({ kind: 'route', app, api: a.api, route: r, match: R.compileSpecPath(r.path), method: r.method.toUpperCase() });
    } else {
      const opts = app.routerOpts || {};
      const plain = (s, idx) => {
        if (s.method === 'use') out.push({ kind: 'plain', s, idx, all: true });
        else out.push({ kind: 'plain', s, idx, match: R.compileAlias(s.path, opts), method: s.method === 'all' ? null : s.method.toUpperCase() });
      };
      for (const s of app.pre || []) plain(s, -1);
      (app.steps || []).forEach((s, idx) => {
        if (s.op === 'plain') plain(s, idx);
        if (s.op !== 'route') return;
        const route = findRoute(app, s.api, s.method);
        const base = { kind: 'route', app, api: s.api, route, step: s, idx, method: s.method.toUpperCase() };
        base.uses = app.steps.slice(0, idx).filter((u) => u.op === 'use');
        out.push({ ...base, match: R.compileSpecPath(route.path, opts) });
        for (const al of s.aliases || []) out.push({ ...base, match: R.compileAlias(al, opts), alias: al });
      });
    }
    rec.layers = out;
    return out;
  }
  script(id, attempt) {
    if (!this.scripts) {
      this.scripts = new Map();
      for (const c of [...(this.plan.calls || []), ...(this.plan.raws || []), ...(this.plan.subs || [])]) this.scripts.set(c.id, c);
    }
    const c = this.scripts.get(id);
    if (!c || !c.script) return {};
    if (Array.isArray(c.script)) return c.script[Math.min(attempt || 0, c.script.length - 1)];
    return c.script;
  }
  decode(route, nested) {
    try {
      const d = this.codec(route.req).decode(nested);
      if (d._tag === 'Right') return { tag: 'Right', v: d.right, c: canon(d.right, true) };
      // whether a codec that throws is reached at all in a request that is invalid anyway is nobody's promise
      return { tag: JSON.stringify(nested.query || null).includes('BOOM') ? 'ambiguous' : 'Left' };
    } catch (e) {
      return { tag: 'throw' };
    }
  }
  // what a typed send must do
  send(route, key, payload) {
    const d = Object.prototype.hasOwnProperty.call(route.response, String(key)) ? route.response[String(key)] : undefined;
    if (!d) return { ok: false };
    const status = typeof key === 'number' ? key : STATUS_OF[key];
    if (status === undefined) return { ok: false };
    const c = this.codec(d);
    try {
      if (!c.is(payload)) return { ok: false };
      const j = jsonOf(c.encode(payload));
      return { ok: true, status, wire: j };
    } catch (_) {
      return { ok: false };
    }
  }
  hook(app, step, name) {
    if (step && step.hooks && step.hooks[name]) return step.hooks[name];
    if (app.hooks && app.hooks[name]) return app.hooks[name];
    return null;
  }

  // Expected history of one request. ctx: {req event, partsOf(appName), registered(appName, step, idx)}
  request(req, ctx) {
    const exp = [];
    const spans = [];
    const after = [];
    const sp = this.plan.servers.find((s) => s.name === req.server);
    const script = this.script(req.call, req.attempt);
    const st = { exp, spans, after, out: null, sends: [], own: [], call: req.call };
    const pathname = R.pathnameOf(req.url);
    const done = (o) => {
      st.out = o;
      return st;
    };
    const expressError = (status) => {
      exp.push({ k: 'express.error', props: ['C11', 'C05'] });
      if (!st.out) st.out = { type: 'expressError', status, body: canon({ expressError: true }) };
      return st;
    };
    for (const app of sp.apps) {
      const um = R.underMount(app.mount, pathname);
      if (!um) continue;
      const parts = ctx.partsOf(app.name);
      if (!parts) {
        // the body never arrived or could not be parsed: nothing of this application may run
        exp.push({ k: 'express.error', optional: true, props: ['C03'] });
        return done({ type: 'bodyError' });
      }
      let p2 = R.pathnameOf(parts.url);
      const um2 = R.underMount(app.mount2, p2);
      if (!um2) continue;
      p2 = um2.rest;
      let failed = null;
      for (const L of this.layers(app.name)) {
        const here = L.idx === undefined || L.idx < 0 ? true : ctx.registered(app, L.idx);
        if (here === false) continue;
        let params = {};
        if (!L.all) {
          const m = R.matchPath(L.match, p2);
          if (!m) continue;
          if (m.error) {
            failed = failed || m.error;
            continue;
          }
          params = m.params;
        }
        if (failed) continue;
        if (L.method && L.method !== (parts.method === 'HEAD' ? 'GET' : parts.method)) continue;
        if (here === null) {
          // registered while this request was on its way: whether it still counts is nobody's promise
          st.lastDecode = { tag: 'ambiguous' };
          return done({ type: 'any' });
        }
        if (L.kind === 'plain') {
          exp.push({ k: 'plain', m: { app: app.name, plain: L.s.id }, props: ['C11'] });
          if (L.s.pass) continue;
          return done({ type: 'plain', status: L.s.status || 200, body: canon({ plain: L.s.id }) });
        }
        st.own.push({ app: app.name, api: L.api, method: L.route.method });
        const nested = { body: hydrate(parts.body), headers: hydrate(parts.headers), params: { ...params }, query: hydrate(parts.query) };
        const r = app.kind === 'ew' ? this.ewLayer(app, L, nested, script, st) : this.terLayer(app, L, nested, script, st);
        if (r === 'next') continue;
        if (r === 'router') break;
        if (r && r.err !== undefined) return expressError(r.err);
        return done(st.out || r);
      }
      if (failed) return expressError(failed);
    }
    exp.push({ k: 'fallthrough', props: ['C11', 'C05'] });
    return done(st.out || { type: 'fallthrough', status: 404, body: canon({ fallthrough: true }) });
  }

  decodeStep(app, L, nested, st) {
    const dec = this.decode(L.route, nested);
    const fmt = this.hook(app, L.step, 'decodeFmt');
    const code = this.hook(app, L.step, 'decodeStatus');
    const status = code ? varyCode(code, st.call) : 400;
    const span = { kind: 'decode', attrs: { [OP]: L.api, [ME]: L.route.method.toUpperCase(), [PA]: L.route.path }, error: dec.tag !== 'Right', status: dec.tag === 'Left' && !(fmt && fmt.throw) ? status : null };
    st.spans.push(span);
    st.lastDecode = dec;
    return { dec, fmt, status, errBody: fmt ? canon(varyBody(fmt, { by: fmt.tag, n: 1 }, st.call)) : null };
  }

  terLayer(app, L, nested, script, st) {
    const { exp } = st;
    const { dec, fmt, status, errBody } = this.decodeStep(app, L, nested, st);
    const step = L.step;
    if (dec.tag === 'ambiguous') return { type: 'any' };
    if (dec.tag === 'throw') return { err: 500 };
    if (dec.tag === 'Left' && fmt && fmt.throw) return { err: errStatus(fmt.throw) };
    const val = dec.tag === 'Right' ? dec.c : null;
    for (const u of L.uses) {
      const sc = (script.use || {})[u.id] || { act: 'next' };
      exp.push({ k: 'use.start', m: { app: app.name, use: u.id, api: L.api, method: L.route.method.toUpperCase(), path: L.route.path }, m3: { decoded: dec.tag, value: val }, props: ['C11'] });
      exp.push({ k: 'use.end', m: { app: app.name, use: u.id }, props: ['C11'] });
      if (sc.act === 'nextErr') return { err: errStatus(sc.value) };
      if (sc.act === 'respond') return { type: 'plain', status: sc.status, body: canon({ use: u.id }) };
      if (sc.act === 'sendEncoded') return this.doSend(app, L, sc, st);
      if (sc.act === 'nextRoute') return 'next';
      if (sc.act === 'nextRouter') return 'router';
    }
    if (!step.unchecked && dec.tag === 'Left') {
      return { type: 'decodeError', status, body: errBody };
    }
    const n = step.handlers || 1;
    for (let i = 0; i < n; i++) {
      const last = i === n - 1;
      const sc = (Array.isArray(script.hs) ? script.hs[i] : last ? script.h : undefined) || (last ? { act: 'none-scripted' } : { act: 'next' });
      const m = { app: app.name, api: L.api, method: L.route.method, hi: i };
      const m3 = { input: val };
      if (step.unchecked) m3.decoded = dec.tag;
      // a handler that scribbles over its decoded request is seen by the handlers after it
      exp.push({ k: last ? 'handler.start' : 'pre.start', m, m3, props: ['C11'], handler: true, inputProps: ['C03', 'C01'] });
      exp.push({ k: last ? 'handler.end' : 'pre.end', m, props: ['C11'] });
      switch (sc.act) {
        case 'sendEncoded': {
          const out = this.doSend(app, L, sc, st);
          if (sc.again) {
            exp.push({ k: 'send', m: {}, props: ['C11'] });
            exp.push({ k: 'send.threw|sent', props: ['C04'] });
            st.spans.push({ kind: 'encode', attrs: { [OP]: L.api, [ME]: L.route.method.toUpperCase(), [PA]: L.route.path }, error: null, status: null });
            // express accepts a second response without a body; any other fails once the headers are sent
            const second = this.send(L.route, sc.again.status, hydrate(sc.again.payload));
            st.again = { bodyless: second.ok && JSON.stringify(second.wire) === undefined };
          }
          st.out = st.out || out;
          return out;
        }
        case 'plainSend':
          exp.push({ k: 'plainSend', m: {}, props: ['C11'] });
          return { type: 'plain', status: sc.status, body: canon(hydrate(sc.payload)) };
        case 'next':
          break;
        case 'nextRoute':
          return 'next';
        case 'nextRouter':
          return 'router';
        case 'nextErr':
        case 'throw':
          return { err: errStatus(sc.value) };
        case 'never':
          return { type: 'none' };
        default:
          return { type: 'plain', status: 500, body: canon({ unscripted: true }) };
      }
    }
    return 'next';
  }

  doSend(app, L, sc, st) {
    const { exp } = st;
    const payload = hydrate(sc.payload);
    exp.push({ k: 'send', m: { status: sc.status }, props: ['C11'] });
    const r = this.send(L.route, sc.status, payload);
    const span = { kind: 'encode', attrs: { [OP]: L.api, [ME]: L.route.method.toUpperCase(), [PA]: L.route.path }, error: !r.ok, status: null };
    st.spans.push(span);
    if (r.ok) {
      const ah = this.hook(app, L.step, 'after');
      const afterThrows = ah && ah.throw;
      exp.push({ k: afterThrows ? 'sent|send.threw' : 'sent', props: ['C02', 'C07'] });
      if (ah) st.after.push({ tag: ah.tag, status: r.status, payload: canon(payload) });
      span.status = r.status;
      return { type: 'encoded', status: r.status, body: canon(r.wire), wire: r.wire, afterThrows: !!afterThrows, reused: sc.payloadKey !== undefined || sc.recycle !== undefined };
    }
    const fmt = this.hook(app, L.step, 'encodeFmt');
    const code = this.hook(app, L.step, 'encodeStatus');
    if (fmt && fmt.throw) {
      exp.push({ k: 'send.threw', props: ['C04'] });
      return { type: 'sendThrew', status: 500, body: canon({ sendThrew: true }), secret: sc.payload };
    }
    exp.push({ k: 'sent', props: ['C04'] });
    span.status = code ? varyCode(code, st.call) : 500;
    return { type: 'encodeError', status: span.status, body: canon(fmt ? varyBody(fmt, { by: fmt.tag }, st.call) : {}) };
  }

  ewLayer(app, L, nested, script, st) {
    const { exp } = st;
    const { dec, fmt, status, errBody } = this.decodeStep(app, L, nested, st);
    if (dec.tag === 'ambiguous') return { type: 'any' };
    if (dec.tag === 'throw') return { err: 500 };
    if (dec.tag === 'Left' && fmt && fmt.throw) return { err: errStatus(fmt.throw) };
    if (dec.tag === 'Left') return { type: 'decodeError', status, body: errBody };
    const where = { app: app.name, api: L.api, method: L.route.method };
    let setStatus = null;
    const fail = () => ({ type: 'ewError', status: setStatus >= 400 ? setStatus : 500, body: null });
    let input = dec.v;
    const branded = L.route.style === 'branded';
    const chain = L.route.chain || [];
    for (let i = 0; i < chain.length; i++) {
      const sc = (script.mw || [])[i] || { act: 'ok' };
      exp.push({ k: 'mw.start', m: { ...where, mw: i }, props: ['C06'] });
      exp.push({ k: 'mw.end', m: { ...where, mw: i }, props: ['C06'] });
      if (sc.act === 'respond') return { type: 'plain', status: sc.status, body: canon({ mw: i }) };
      if (sc.setStatus) setStatus = sc.setStatus;
      if (sc.act !== 'ok') return fail();
      if (chainKind(app, chain, i) === 'mwfn' && branded) input = { ...input, ...hydrate(sc.result || {}) };
    }
    const sc = script.h || { act: 'none-scripted' };
    exp.push({ k: 'handler.start', m: where, m3: { input: canon(input, true) }, props: ['C06', 'C11', 'C01'], handler: true, inputProps: branded && chain.length ? ['C06'] : ['C03', 'C01', 'C06'] });
    if (sc.act === 'never') {
      exp.push({ k: 'handler.end', m: where, props: ['C06'] });
      return { type: 'none' };
    }
    exp.push({ k: 'handler.end', m: where, props: ['C06'] });
    if (sc.act === 'throw') return fail();
    let type;
    let payload;
    if (sc.act === 'return') {
      type = sc.status;
      payload = hydrate(sc.payload);
    } else if (sc.act === 'raw') {
      const r = hydrate(sc.result);
      if (r === null || r === undefined) return fail();
      type = r.type;
      payload = r.payload;
    } else return { type: 'any' };
    const code = typeof type === 'number' ? type : STATUS_OF[type];
    const d = code !== undefined && Object.prototype.hasOwnProperty.call(L.route.response, String(code)) ? L.route.response[String(code)] : undefined;
    // body: null, and the payload must not be in what leaves the server
    const bad = () => ({ type: 'ewEncodeError', status: setStatus >= 400 ? [setStatus, 500] : 500, body: null, noPayload: true });
    if (!d) return bad();
    try {
      const c = this.codec(d);
      const j = jsonOf(c.encode(payload));
      // what becomes of a payload outside the type is not specified here, as long as it can be encoded
      if (sc.mustThrow || !c.is(payload)) return { type: 'any' };
      return { type: 'encoded', status: code, body: canon(j), wire: j, reused: sc.payloadKey !== undefined || sc.recycle !== undefined };
    } catch (_) {
      return bad();
    }
  }
}

// does a recorded event satisfy an expected one?
function fits(e, a) {
  if (!e.k.split('|').includes(a.k)) return false;
  for (const k of Object.keys(e.m || {})) if (a[k] !== e.m[k]) return false;
  return true;
}

const SEQ = new Set(['use.start', 'use.end', 'pre.start', 'pre.end', 'handler.start', 'handler.end', 'mw.start', 'mw.end', 'plain', 'fallthrough', 'express.error', 'send', 'sent', 'send.threw', 'plainSend']);

function judge(plan, res, lib, opts = {}) {
  const V = [];
  const vio = (props, kind, detail) => V.push({ props: Array.isArray(props) ? props : [props], kind, detail: detail || '' });
  const M = new Model(plan, lib);
  const ev = res.events;
  const byRq = new Map();
  const byCall = new Map();
  const regAt = new Map();
  const crashes = [];
  const ups = [];
  for (const e of ev) {
    if (e.rq !== undefined && e.rq !== null) {
      let l = byRq.get(e.rq);
      if (!l) byRq.set(e.rq, (l = []));
      l.push(e);
    }
    const c = e.call;
    if (c) {
      let l = byCall.get(c);
      if (!l) byCall.set(c, (l = []));
      l.push(e);
    }
    if (e.k === 'reg') {
      const key = e.app + '#' + e.step;
      if (!regAt.has(key)) regAt.set(key, []);
      regAt.get(key).push(e.i);
    }
    if (e.k === 'server.up') ups.push(e);
    if (e.k === 'crash') crashes.push(e);
    if (e.k === 'setup.threw') vio(['*'], 'setup-threw', `${e.app} step ${e.step}: ${e.err}`);
  }
  for (const u of res.uncaught) vio('C10', 'escaped-' + u.kind, u.err);
  if (res.ended === 'steps') vio('C10', 'no-progress', 'step budget exhausted');

  const rqOf = new Map(); // call -> [{req, model, end}]
  const rqs = [];
  for (const [rq, list] of byRq) {
    if (rq < 0) {
      vio('C10', 'unattributed', list[0].k);
      continue;
    }
    const req = list.find((e) => e.k === 'req');
    if (!req || req.line !== undefined) continue;
    const crashed = crashes.find((c) => c.server === req.server && c.i > req.i);
    const parts = list.filter((e) => e.k === 'parts');
    const model = M.request(req, {
      partsOf: (n) => parts.find((p) => p.app === n),
      registered: (app, idx) => {
        if (!app.steps[idx].at) return true;
        const p = parts.find((x) => x.app === app.name);
        if (!p) return false;
        // a restarted server registers its late routes again
        const up = ups.filter((u) => u.server === req.server && u.i < p.i).pop();
        const at = (regAt.get(app.name + '#' + idx) || []).filter((i) => !up || i > up.i);
        if (at.some((i) => i < p.i)) return true;
        return at.some((i) => i < list[list.length - 1].i) ? null : false;
      },
    });
    const ends = list.filter((e) => e.k === 'res.end');
    const rec = { rq, req, model, list, end: ends[0], crashed, parts };
    rqs.push(rec);
    if (req.call) {
      if (!rqOf.has(req.call)) rqOf.set(req.call, []);
      rqOf.get(req.call).push(rec);
    }
    if (model.lastDecode && model.lastDecode.tag === 'ambiguous') continue;
    judgeSequence(rec);
    judgeResponse(rec);
    judgeAfter(rec);
    if (plan.servers.find((s) => s.name === req.server).otel === 'on') judgeSpans(rec);
    else if (list.some((e) => e.k.startsWith('span.'))) vio('C08', 'spans-without-tracing');
    // isolation: everything this request caused belongs to its own call
    for (const e of list) if (e.call !== undefined && e.call !== req.call) vio(['C06', 'C10', 'C07'], 'foreign-event', `${e.k} of ${e.call} in request of ${req.call}`);
  }

  function label(rec) {
    return `${rec.req.call || '?'}#${rec.req.attempt} ${rec.req.method} ${rec.req.url.slice(0, 60)}`;
  }
  function isHandler(a) {
    return a && (a.k === 'handler.start' || a.k === 'pre.start');
  }

  function judgeSequence(rec) {
    const act = rec.list.filter((e) => SEQ.has(e.k));
    const exp = rec.model.exp;
    let i = 0;
    let j = 0;
    for (; i < exp.length || j < act.length; ) {
      const e = exp[i];
      const a = act[j];
      if (e && a && fits(e, a)) {
        if (e.m3) judgeInput(rec, e, a);
        i++;
        j++;
        continue;
      }
      if (e && e.optional) {
        i++;
        continue;
      }
      if (!a && rec.crashed) break;
      const fail = rec.model.out && (rec.model.out.type === 'ewError' || rec.model.out.type === 'ewEncodeError');
      const undecodable = rec.model.lastDecode && rec.model.lastDecode.tag !== 'Right';
      let props = [];
      if (a && !e) {
        // something ran that should not have
        if (undecodable && (isHandler(a) || a.k === 'mw.start')) props.push('C03');
        if (fail && (isHandler(a) || a.k === 'mw.start' || a.k === 'fallthrough')) props.push('C05');
        if (isHandler(a)) props.push('C11', 'C05');
        if (a.k === 'mw.start') props.push('C06');
        if (a.k === 'use.start' || a.k === 'plain' || a.k === 'fallthrough') props.push('C11');
        if (a.k === 'express.error') props.push(rec.model.out && rec.model.out.type === 'encoded' ? 'C02' : rec.model.out && rec.model.out.type === 'decodeError' ? 'C03' : fail ? 'C05' : 'C11', 'C10');
        if (props.length === 0) props = ['C11', 'C10'];
      } else if (e && !a) {
        props = e.props.slice();
        if (isHandler(e)) props.push('C01', 'C11', 'C10');
        if (undecodable && rec.model.out.type !== 'decodeError') props.push('C03');
        if (e.k === 'express.error') props.push('C10', 'C05');
        if (e.k === 'mw.end' || e.k === 'mw.start') props.push('C10');
      } else {
        props = e.props.slice();
        if (isHandler(a) && undecodable) props.push('C03');
        if ((isHandler(a) || a.k === 'mw.start') && fail) props.push('C05');
        if (a.k === 'mw.start' || e.k === 'mw.start' || e.k === 'mw.end') props.push('C06');
        if (isHandler(a) || isHandler(e)) props.push('C11');
        if (isHandler(e) && e.m.api && isHandler(a) && (a.api !== e.m.api || a.method !== e.m.method || a.app !== e.m.app)) props.push('C01');
        if (e.k === 'use.start' || a.k === 'use.start' || e.k === 'plain' || a.k === 'plain') props.push('C11');
        if (a.k === 'express.error' || a.k === 'fallthrough') {
          props.push('C10', 'C11');
          if (undecodable) props.push('C03');
        }
        if (a.k === 'send.threw' && e.k === 'sent') props = ['C02', 'C04', 'C07', 'C08'].filter((p) => (p === 'C02') === (rec.model.out && rec.model.out.type === 'encoded') || p === 'C04');
      }
      vio([...new Set(props)], 'request-history', `${label(rec)}: expected ${e ? e.k + JSON.stringify(e.m || {}) : 'nothing more'}, saw ${a ? a.k + ' ' + short(a) : 'nothing more'} (outcome ${rec.model.out && rec.model.out.type})`);
      return;
    }
  }
  function short(a) {
    return JSON.stringify({ app: a.app, api: a.api, method: a.method, mw: a.mw, use: a.use, plain: a.plain, err: a.err });
  }
  function judgeInput(rec, e, a) {
    const script = M.script(rec.req.call, rec.req.attempt);
    for (const k of Object.keys(e.m3)) {
      if (a[k] === e.m3[k]) continue;
      // after a handler that modified its own decoded request the value is that handler's business
      if (a.k !== 'use.start' && Array.isArray(script.hs) && script.hs.slice(0, a.hi).some((h) => h.mutateInput)) continue;
      vio(e.inputProps || ['C03', 'C11'], 'wrong-input', `${label(rec)} ${a.k} ${k}: expected ${String(e.m3[k]).slice(0, 300)} got ${String(a[k]).slice(0, 300)}`);
      return;
    }
  }

  function judgeResponse(rec) {
    const o = rec.model.out;
    const end = rec.end;
    if (!o) return;
    if (o.type === 'any') return;
    if (o.type === 'none') {
      if (end) vio(['C10', 'C05'], 'unexpected-response', label(rec));
      return;
    }
    if (o.type === 'bodyError') {
      if (end && end.status < 400) vio('C03', 'unparsable-accepted', `${label(rec)} ${end.status}`);
      return;
    }
    const tag = tagOf(o);
    if (!end) {
      if (rec.crashed) return;
      vio(['C10', tag], 'no-response', `${label(rec)} expected ${o.type} ${o.status}`);
      return;
    }
    const lastEv = rec.list.filter((e) => (SEQ.has(e.k) || e.k === 'parts') && e.i < end.i).pop();
    if (lastEv && end.t - lastEv.t > 200) vio('C10', 'late-response', `${label(rec)} ${end.t - lastEv.t} ms after the last step`);
    compareWire(rec, o, end.status, end.body, end.type, tag, 'sent by the server');
  }
  function tagOf(o) {
    switch (o.type) {
      case 'encoded':
        return 'C02';
      case 'encodeError':
      case 'sendThrew':
      case 'ewEncodeError':
        return 'C04';
      case 'decodeError':
        return 'C03';
      case 'ewError':
        return 'C05';
      default:
        return 'C11';
    }
  }
  function compareWire(rec, o, status, body, type, tag, where) {
    const extra = o.type === 'encoded' ? ['C04'] : o.type === 'ewEncodeError' ? ['C05'] : [];
    if (o.afterThrows) extra.push('C07');
    if (o.reused) extra.push('C12');
    const wantStatus = Array.isArray(o.status) ? o.status : [o.status];
    if (!wantStatus.includes(status)) {
      vio([tag, ...extra], 'wrong-status', `${label(rec)}: expected ${o.type} with status ${o.status}, ${where}: ${status}`);
      return false;
    }
    if (o.noPayload && body !== '' && body.trim() !== '{}') {
      vio(['C04'], 'payload-leaked', `${label(rec)}: expected nothing in the body of the error, ${where}: ${body.slice(0, 100)}`);
      return false;
    }
    if (o.body !== null) {
      let got;
      try {
        got = body === '' ? '<empty>' : canon(JSON.parse(body));
      } catch (_) {
        got = '<not json>';
      }
      const want = o.body === 'undefined' || rec.req.method === 'HEAD' ? '<empty>' : o.body;
      if (got !== want) {
        vio([tag, ...extra], 'wrong-body', `${label(rec)}: expected ${o.type} body ${want.slice(0, 200)}, ${where}: ${got.slice(0, 200)}`);
        return false;
      }
    }
    return true;
  }

  function judgeAfter(rec) {
    const act = rec.list.filter((e) => e.k === 'hook.after');
    const exp = rec.model.after;
    if (act.length < exp.length && rec.crashed) return;
    if (rec.model.again) {
      // once the client is gone, node lets a second send through without an error
      const gone = rec.list.find((e) => e.k === 'res.close' && !e.finished);
      const second = rec.list.filter((e) => e.k === 'send')[1];
      if (((gone && second && gone.i < second.i) || rec.model.again.bodyless) && act.length > exp.length) act.length = exp.length;
    }
    if (act.length !== exp.length) {
      vio('C07', act.length > exp.length ? 'after-hook-extra' : 'after-hook-missing', `${label(rec)}: expected ${exp.length} calls, saw ${act.length}`);
      return;
    }
    exp.forEach((e, i) => {
      const a = act[i];
      const bad = [];
      if (a.tag !== e.tag) bad.push(`hook ${a.tag} instead of ${e.tag}`);
      if (a.status !== e.status) bad.push(`status ${a.status} instead of ${e.status}`);
      if (a.payload !== e.payload) bad.push(`payload ${a.payload.slice(0, 120)} instead of ${e.payload.slice(0, 120)}`);
      if (!a.ended) bad.push('before the response ended');
      if (!a.pair) bad.push('request and response of different exchanges');
      if (rec.end && rec.end.i > a.i) bad.push('before the response');
      if (bad.length) vio('C07', 'after-hook-wrong', `${label(rec)}: ${bad.join(', ')}`);
    });
    // a throwing hook must not look like an encode failure
    const o = rec.model.out;
    if (o && o.type === 'encoded' && !rec.model.again && rec.list.some((e) => e.k === 'hook.encodeFmt' || e.k === 'hook.encodeStatus')) vio(['C07', 'C04'], 'encode-hooks-after-success', label(rec));
  }

  function judgeSpans(rec) {
    const spans = new Map();
    for (const e of rec.list) {
      if (!e.k.startsWith('span.')) continue;
      const key = e.proc + '/' + e.span;
      let s = spans.get(key);
      if (!s) spans.set(key, (s = { start: null, ends: [], attrs: {}, code: null, exc: 0, statusAttr: undefined }));
      if (e.k === 'span.start') s.start = e;
      else if (e.k === 'span.end') s.ends.push(e);
      else if (e.k === 'span.attr') Object.assign(s.attrs, e.attrs);
      else if (e.k === 'span.status') s.code = e.code;
      else if (e.k === 'span.exc') s.exc++;
    }
    const act = [...spans.values()];
    const exp = rec.model.spans;
    for (const s of act) {
      if (!s.start) {
        vio('C08', 'span-of-another-request', label(rec));
        return;
      }
    }
    for (let i = 0; i < Math.max(exp.length, act.length); i++) {
      const e = exp[i];
      const s = act[i];
      if (!s && rec.crashed) return;
      if (!s || !e) {
        vio('C08', s ? 'span-extra' : 'span-missing', `${label(rec)}: expected ${exp.length} spans, saw ${act.length}`);
        return;
      }
      const bad = [];
      if (s.ends.length !== 1) bad.push(`ended ${s.ends.length} times`);
      for (const k of [OP, ME, PA]) if (String(s.attrs[k]).toLowerCase() !== String(e.attrs[k]).toLowerCase() || (k !== ME && s.attrs[k] !== e.attrs[k])) bad.push(`${k}=${s.attrs[k]} instead of ${e.attrs[k]}`);
      const isErr = s.code === 2;
      if (e.error !== null) {
        if (isErr !== e.error) bad.push(e.error ? 'not marked as an error' : 'marked as an error');
        if (s.exc > 0 !== e.error) bad.push(e.error ? 'no exception recorded' : 'exception recorded');
        if ((e.error || e.kind === 'encode') && e.status !== null && s.attrs[ST] !== e.status) bad.push(`status ${s.attrs[ST]} instead of ${e.status}`);
      }
      if (s.ends.length === 1) {
        const endI = s.ends[0].i;
        const next = rec.list.find((x) => x.i > s.start.i && (e.kind === 'decode' ? ['use.start', 'pre.start', 'handler.start', 'mw.start'].includes(x.k) : ['sent', 'send.threw'].includes(x.k)));
        if (next && next.i < endI) bad.push(`still open at ${next.k}`);
      }
      if (bad.length) {
        vio('C08', 'span-wrong', `${label(rec)} ${e.kind} span: ${bad.join(', ')}`);
        return;
      }
    }
  }

  // ---------------------------------------------------------------- calls
  const results = new Map();
  for (const e of ev) {
    if (e.k === 'result') {
      if (!results.has(e.id)) results.set(e.id, []);
      results.get(e.id).push(e);
    }
  }
  for (const c of plan.calls) {
    const client = plan.clients[c.client];
    const sp = plan.servers.find((s) => s.name === client.server);
    const app = sp.apps.find((a) => a.name === c.app);
    const route = app && findRoute(app, c.api, c.method);
    if (!route) continue;
    const evs = byCall.get(c.id) || [];
    const thr = evs.find((e) => e.k === 'call.threw');
    if (thr) {
      vio(c.freeze ? ['C01', 'C12'] : ['C01'], 'call-threw', `${c.id} ${c.api}.${c.method}: ${thr.err}`);
      continue;
    }
    const strict = (plan.faultFree || c.probe) && c.abortAt === undefined && !c.timeout;
    const list = rqOf.get(c.id) || [];
    const rs = results.get(c.id) || [];
    const max = 1 + (c.retry || 0);
    if (sp.kind === 'raw') {
      judgeWireCall(c, route, rs, evs, strict);
      continue;
    }
    if (list.length > max) vio(['C01', 'C09'], 'sent-too-often', `${c.id}: ${list.length} requests for a call with ${c.retry || 0} retries`);
    // --- C01: what arrived is what was passed
    const args = hydrate(c.args);
    const want = canon(args, true);
    let firstMatch = null;
    {
      // where would the reference client and router take this call?
      const ref = M.codec(route.req);
      const nested = ref.encode(args);
      const url = route.path.replace(/\{(\w+)\}/g, (_, k) => encodeURIComponent(nested.params && nested.params[k] !== undefined ? nested.params[k] : '{' + k + '}'));
      for (const L of M.layers(app.name)) {
        if (L.kind === 'plain' && (L.all || L.s.pass)) continue;
        const m = R.matchPath(L.match, url);
        if (!m || m.error) continue;
        if (L.method && L.method !== c.method.toUpperCase()) continue;
        firstMatch = L;
        break;
      }
    }
    const own = firstMatch && firstMatch.kind === 'route' && firstMatch.api === c.api && firstMatch.route.method === c.method && !firstMatch.alias;
    const late = own && firstMatch.step && firstMatch.step.at;
    if (own) {
      for (const rec of list) {
        if (rec.parts.length === 0) {
          if (strict) vio('C01', 'request-unreadable', label(rec));
          continue;
        }
        if (rec.model.lastDecode && rec.model.lastDecode.tag === 'ambiguous') continue;
        if (rec.model.own.length === 0) {
          if (!late) vio('C01', 'wrong-operation', `${label(rec)}: the URL of ${c.api}.${c.method} matches no operation`);
          continue;
        }
        const first = rec.model.own[0];
        if (first.app !== c.app || first.api !== c.api || first.method !== c.method) {
          vio('C01', 'wrong-operation', `${label(rec)}: went to ${first.api}.${first.method} instead of ${c.api}.${c.method}`);
          continue;
        }
        const d = rec.model.lastDecode;
        if (rec.model.own.length === 1 && d) {
          if (d.tag !== 'Right') vio('C01', 'undecodable', `${label(rec)}: the request built by the client does not decode; args ${want.slice(0, 300)}`);
          else if (declared(route.req, d) !== want) vio(c.argsKey !== undefined || c.slot !== undefined ? ['C01', 'C12'] : 'C01', 'altered', `${label(rec)}: args ${want.slice(0, 300)} arrived as ${d.c.slice(0, 300)}`);
        }
      }
      if (strict && list.length === 0) vio('C01', 'not-sent', `${c.id} ${c.api}.${c.method}`);
      if (strict && !c.retry && list.length > 1) vio('C01', 'sent-twice', `${c.id}`);
    }
    // --- what came back
    const ops = c.ops || ['decode'];
    const outs = list.map((r) => r.model.out).filter(Boolean);
    const open = res.open.includes(c.id);
    if (open) {
      const none = outs.some((o) => o.type === 'none' || o.type === 'any');
      if (strict && !none) vio('C10', 'call-never-settles', `${c.id} ${c.api}.${c.method} ${outs.map((o) => o.type)}`);
      continue;
    }
    if (c.probe) {
      const t0 = evs.find((e) => e.k === 'call.start').t;
      const t1 = Math.max(...rs.map((r) => r.t));
      const extra = 60000;
      if (!(t1 - t0 < extra)) vio('C10', 'slow-recovery', `${c.id} took ${t1 - t0} ms after the faults had stopped`);
    }
    judgeResults(c, route, list, rs, strict);
  }

  function decodeExpected(route, status, wire, hasJson) {
    const key = String(status);
    const d = /^\d+$/.test(key) && Object.prototype.hasOwnProperty.call(route.response, key) ? route.response[key] : undefined;
    if (!d) return { status: 'decodeError', body: canon(wire, true) };
    let r;
    try {
      r = M.codec(d).decode(wire);
    } catch (_) {
      return { status: 'throws' };
    }
    if (r._tag === 'Left') return { status: 'decodeError', body: canon(wire, true) };
    return { status, body: canon(r.right, true) };
  }

  // candidates for "the received body" of a response that superagent handed over
  function candidates(r) {
    let v;
    let isJson = false;
    if (/[/+]json($|[^-\w])/i.test(r.origType || '') && typeof r.origText === 'string') {
      try {
        v = r.origText === '' ? undefined : JSON.parse(r.origText);
        isJson = true;
      } catch (_) {}
    }
    if (isJson && v !== undefined) return [v];
    const out = [];
    if (typeof r.origText === 'string') out.push(r.origText);
    out.push(undefined, null, {}, '');
    return out;
  }

  // C09 on what superagent delivered, whatever it was
  function judgeDecoded(c, route, rs) {
    const plainish = rs.filter((r) => r.out === 'resolved' && !r.plain);
    for (const r of rs) {
      if (r.op === 'then' || r.plain) continue;
      if (r.out === 'resolved') {
        const cands = candidates(r).map((v) => decodeExpected(route, r.origStatus, v));
        let ok = cands.some((x) => x.status === r.status && x.body === r.body);
        // when superagent retries, it may hand over the parsed body of one attempt with the text of the next
        if (!ok && c.retry && r.bodyValue !== undefined) {
          const x = decodeExpected(route, r.origStatus, hydrate(r.bodyValue));
          ok = x.status === r.status && x.body === r.body;
        }
        if (!ok) vio(['C09', 'C02'], 'decoded-outside-type', `${c.id} ${r.op}: status ${r.status} body ${String(r.body).slice(0, 200)} for HTTP ${r.origStatus} ${String(r.origText).slice(0, 200)}`);
        if (r.status === 'decodeError' && (r.error !== 'string' || r.errorEmpty)) vio('C09', 'no-error-message', `${c.id}`);
        if (r.status !== 'decodeError' && r.error !== null) vio('C09', 'error-on-success', `${c.id}`);
        if (r.op.startsWith('decodeExpecting')) {
          const n = Number(r.op.split(':')[1]);
          if (r.origStatus !== n || r.status !== n) vio('C09', 'expecting-resolved-wrong', `${c.id} ${r.op}: resolved with status ${r.status} (HTTP ${r.origStatus})`);
        }
      } else if (r.isDecodeError) {
        if (!r.op.startsWith('decodeExpecting')) vio('C09', 'decode-rejected', `${c.id} ${r.op}: rejected with a DecodeError`);
        else {
          const n = Number(r.op.split(':')[1]);
          if (r.dStatus === undefined || r.dOrigStatus === undefined) vio('C09', 'decode-error-without-response', `${c.id} ${r.op}`);
          else if (r.dOrigStatus === n && r.dStatus === n) vio('C09', 'expecting-rejected-wrong', `${c.id} ${r.op}: rejected although status ${n} decoded`);
        }
      } else {
        // rejected: it must not be merely because of the status
        if (r.httpStatus && !r.code && /^(Error: )?(Bad|Not|Unauth|Forb|Internal|Conflict|I'm)/.test(r.err)) vio('C09', 'rejected-for-status', `${c.id} ${r.op}: ${r.err}`);
      }
    }
    // consistency between several decodes of one call
    const dec = rs.filter((r) => r.op === 'decode');
    if (dec.length > 1) {
      const key = (r) => (r.out === 'resolved' ? `${r.status}|${r.body}` : 'rejected');
      if (new Set(dec.map(key)).size > 1) vio('C09', 'inconsistent-decodes', `${c.id}: ${dec.map(key).join(' / ').slice(0, 300)}`);
    }
    const anyRes = rs.some((r) => r.out === 'resolved' || r.isDecodeError);
    const anyRej = rs.some((r) => r.out === 'rejected' && !r.isDecodeError);
    if (anyRes && anyRej) vio('C09', 'inconsistent-decodes', `${c.id}: ${rs.map((r) => r.op + ':' + r.out + (r.isDecodeError ? '(DecodeError)' : '')).join(' / ')}: ${rs.filter((r) => r.err).map((r) => r.err).join()}`.slice(0, 400));
    // decodeExpecting against decode of the same exchange
    const d0 = dec.find((r) => r.out === 'resolved');
    if (d0)
      for (const r of rs) {
        if (!r.op.startsWith('decodeExpecting')) continue;
        const n = Number(r.op.split(':')[1]);
        const should = d0.status === n;
        if (should !== (r.out === 'resolved')) vio('C09', 'expecting-inconsistent', `${c.id} ${r.op}: decode gave ${d0.status}, decodeExpecting ${r.out}`);
        else if (should && r.body !== d0.body) vio('C09', 'expecting-inconsistent', `${c.id} ${r.op}: bodies differ`);
      }
  }

  function judgeResults(c, route, list, rs, strict) {
    judgeDecoded(c, route, rs);
    const answered = list.filter((r) => r.end);
    for (const r of rs) {
      if (r.out === 'rejected' && !r.isDecodeError) {
        if (!strict) continue;
        const outs = list.map((x) => x.model.out);
        if (outs.some((o) => !o || o.type === 'none' || o.type === 'any')) continue;
        const o = outs[outs.length - 1];
        vio(['C09', 'C10', ...(o ? [tagOf(o)] : ['C01'])], 'call-rejected', `${c.id} ${r.op} rejected without a fault: ${r.err}`);
        continue;
      }
      const status = r.out === 'resolved' ? r.origStatus : r.dOrigStatus;
      // which of the answers given to this very call was it?
      const cand = strict ? answered.slice(-1) : answered;
      if (cand.length === 0) {
        vio(['C02', 'C10'], 'answer-from-nowhere', `${c.id} ${r.op}`);
        continue;
      }
      const errs = [];
      let ok = false;
      for (const rec of cand) {
        const o = rec.model.out;
        if (o.type === 'any' || o.type === 'bodyError' || o.type === 'none') {
          ok = true;
          break;
        }
        const e = matchResult(r, o, status, route);
        if (!e) {
          ok = true;
          break;
        }
        errs.push({ e, o });
      }
      if (!ok) {
        const { e, o } = errs[errs.length - 1];
        vio([tagOf(o), ...(o.type === 'encoded' ? [] : []), ...(cand.length > 1 || !strict ? ['C02'] : [])], 'wrong-result', `${c.id} ${r.op}: ${e}`);
      }
    }
  }
  function matchResult(r, o, status, route) {
    const ws = Array.isArray(o.status) ? o.status : [o.status];
    if (!ws.includes(status)) return `expected ${o.type} with status ${o.status}, got ${status}`;
    if (o.body === null || o.body === 'undefined') return null;
    const wire = o.wire !== undefined ? o.wire : JSON.parse(uncanon(o.body));
    if (r.op === 'then' || r.plain) {
      let got;
      try {
        got = canon(JSON.parse(r.origText));
      } catch (_) {
        got = '<not json>';
      }
      if (got !== o.body && r.retried && r.bodyValue !== undefined) got = canon(hydrate(r.bodyValue));
      return got === o.body ? null : `body ${String(r.origText).slice(0, 200)} instead of ${o.body.slice(0, 200)}`;
    }
    const x = decodeExpected(route, status, wire);
    if (x.status === 'throws') return null;
    const rStatus = r.out === 'resolved' ? r.status : r.dStatus;
    const rBody = r.out === 'resolved' ? r.body : r.dBody;
    if (rStatus !== x.status) return `decoded as ${rStatus} instead of ${x.status} (wire ${o.body.slice(0, 200)})`;
    if (rBody !== x.body) return `body ${String(rBody).slice(0, 250)} instead of ${x.body.slice(0, 250)}`;
    return null;
  }
  // canonical form of plain JSON without numbers that differ in spelling is JSON already
  function uncanon(s) {
    return s;
  }

  function judgeWireCall(c, route, rs, evs, strict) {
    const w = (Array.isArray(c.script) ? c.script[0] : c.script).wire;
    const max = 1 + (c.retry || 0);
    const sent = evs.filter((e) => e.k === 'req').length;
    // surplus or missing bytes of one scripted answer can hit another call that shares the connection
    const poisoned = plan.clients[c.client].agent.keepAlive !== false && plan.calls.some((x) => x !== c && x.client === c.client && x.script[0].wire && !['cl', 'chunked', 'close'].includes(x.script[0].wire.mode));
    strict = strict && !poisoned;
    if (sent > max) vio('C09', 'more-than-one-exchange', `${c.id}: ${sent} requests`);
    judgeDecoded(c, route, rs);
    const noBody = w.status === 204 || w.status === 304;
    for (const r of rs) {
      if (r.out === 'resolved' || r.isDecodeError) {
        const text = r.origText;
        if (w.complete === false && !w.silent && !poisoned) {
          // a response cut short must not be taken for a whole one
          if (w.mode === 'short' || w.mode === 'rst') vio(['C09', 'C02'], 'partial-accepted', `${c.id} ${r.op}: HTTP ${r.origStatus}`);
        }
        continue;
      }
      // a whole response with a parsable body must come through, whatever its status
      if (strict && w.complete === true && !c.retry) {
        const jsonish = /[/+]json($|[^-\w])/i.test(w.ctype);
        let parsable = true;
        if (jsonish && w.text !== '') {
          try {
            JSON.parse(Buffer.from(w.text, 'utf8').toString());
          } catch (_) {
            parsable = false;
          }
        }
        if (parsable) vio('C09', 'rejected-complete-response', `${c.id} ${r.op}: HTTP ${w.status} ${w.ctype} ${w.text.slice(0, 60)}: ${r.err}`);
      }
    }
    // superagent never settles a retried call whose later attempt loses its connection: it still has the first response
    const lost = c.retry > 0 && RETRY_STATUS.has(w.status) && w.mode !== undefined && w.complete !== true;
    if (strict && rs.length === 0 && !w.silent && !lost) vio(['C09', 'C10'], 'call-never-settles', c.id);
  }

  // ---------------------------------------------------------------- raw requests
  for (const c of plan.raws) {
    const e = (byCall.get(c.id) || []).find((x) => x.k === 'raw.result');
    if (c.subs) {
      judgePipeline(c, e);
      continue;
    }
    if (c.bytes !== undefined) {
      if (e && e.bytes && plan.faultFree) {
        const rsp = parseResponses(e.bytes);
        if (!rsp.ok && !(rsp.partial && (e.why === 'wait' || e.why.startsWith('error')))) vio('C10', 'malformed-response', `${c.id}: ${e.bytes.slice(0, 120)}`);
      }
      continue;
    }
    const list = rqOf.get(c.id) || [];
    if (list.length > 1) vio('C10', 'raw-twice', c.id);
    const rec = list[0];
    const strict = plan.faultFree && c.disconnectAt === undefined;
    if (!e) {
      if (strict && !(rec && rec.model.out && (rec.model.out.type === 'none' || rec.model.out.type === 'any'))) vio('C10', 'raw-never-answered', c.id);
      continue;
    }
    if (e.why !== 'response') {
      if (strict && e.why !== 'bad') vio('C10', 'raw-failed', `${c.id}: ${e.why} ${e.err || ''}`);
      continue;
    }
    if (!rec) {
      if (e.status !== 400) vio('C10', 'raw-answer-from-nowhere', c.id);
      continue;
    }
    const o = rec.model.out;
    if (o.type === 'any' || o.type === 'none' || o.type === 'bodyError') continue;
    compareWire(rec, o, e.status, e.body, e.type, tagOf(o), 'received');
  }
  function parseResponses(bytes, heads = []) {
    const out = [];
    let s = bytes;
    while (s.length) {
      const he = s.indexOf('\r\n\r\n');
      const m = /^HTTP\/1\.1 (\d\d\d)/.exec(s);
      if (!m || he < 0) return { ok: false, out, partial: he < 0 };
      const head = s.slice(0, he);
      const cl = /content-length: *(\d+)/i.exec(head);
      if (/transfer-encoding: *chunked/i.test(head)) return { ok: true, out, opaque: true };
      const n = cl && !heads[out.length] ? +cl[1] : 0;
      const body = s.slice(he + 4, he + 4 + n);
      if (body.length < n) return { ok: false, out, partial: true };
      out.push({ status: +m[1], body: Buffer.from(body, 'latin1').toString('utf8') });
      s = s.slice(he + 4 + n);
    }
    return { ok: true, out };
  }
  function judgePipeline(c, e) {
    if (!e) return;
    const rsp = parseResponses(e.bytes, c.subs.map((sid) => ((rqOf.get(sid) || [])[0] || { req: {} }).req.method === 'HEAD'));
    if (!plan.faultFree) return;
    if (rsp.opaque) return;
    let k = 0;
    for (const sid of c.subs) {
      const rec = (rqOf.get(sid) || [])[0];
      if (!rec) break;
      const o = rec.model.out;
      if (o.type === 'none' || o.type === 'any') break;
      const r = rsp.out[k++];
      if (!r) {
        vio('C10', 'pipeline-response-missing', `${sid} of ${c.id}: ${e.why}`);
        return;
      }
      if (o.type === 'bodyError') continue;
      compareWire(rec, o, r.status, r.body, '', tagOf(o), 'received in pipeline order');
    }
  }

  // ---------------------------------------------------------------- shared values
  for (const e of ev) {
    if (e.k === 'foreign-object') vio('C12', 'foreign-object', `${e.call}: was handed an object that the handler of request ${e.by} had made its own`);
    if (e.k !== 'mutated') continue;
    if (e.what.startsWith('req.')) {
      const rec = rqs.find((r) => r.rq === e.rq);
      const s = rec && M.script(rec.req.call, rec.req.attempt);
      if (s && ((s.h && s.h.mutateInput) || (Array.isArray(s.hs) && s.hs.some((h) => h.mutateInput)))) continue;
    }
    vio('C12', 'mutated-' + e.what, `${e.call} ${e.when || ''}`);
  }
  return V;
}

module.exports = { judge, Model };
