'use strict';
// World A (clients, network and servers) as seen by the driver: generation, evaluation, reach statistics, reductions.
const { RepoImage } = require('./repo');
const { runHttp, loadDeps } = require('./world-http');
const { genHttpPlan, profile } = require('./gen-http');
const { judge } = require('./judge-http');
const { refLib } = require('./codecs');

let image = null;
let lib = null;

async function init(compiled) {
  image = new RepoImage(compiled);
  const d = loadDeps(image);
  lib = refLib(d.t, d.tt);
}

function pickProfile(cfg, index) {
  let total = 0;
  for (const [w] of cfg.profiles) total += w;
  let k = index % total;
  for (const [w, over] of cfg.profiles) {
    if (k < w) return over;
    k -= w;
  }
  return {};
}

function gen(cfg, index) {
  const plan = genHttpPlan(`${cfg.seed}/${cfg.id}/${index}`, profile(pickProfile(cfg, index)), lib);
  return JSON.parse(JSON.stringify(plan));
}

const SPAN = /^span\./;
function projection(res) {
  const out = [];
  for (const e of res.events) {
    if (SPAN.test(e.k) || e.k === 'console.warn') continue;
    const { i, ...rest } = e;
    out.push(JSON.stringify(rest));
  }
  return out;
}

async function evaluate(plan, cfg) {
  const trace = [];
  const res = await runHttp(image, plan, { trace: cfg.trace ? trace : undefined });
  const violations = judge(plan, res, lib);
  if (cfg.id === 'C08' && plan.servers.some((s) => s.otel === 'on')) {
    // the same run without the tracing package must look the same to everybody
    const twin = JSON.parse(JSON.stringify(plan));
    for (const s of twin.servers) s.otel = 'off';
    const r2 = await runHttp(image, twin);
    const a = projection(res);
    const b = projection(r2);
    for (let k = 0; k < Math.max(a.length, b.length); k++)
      if (a[k] !== b[k]) {
        violations.push({ props: ['C08'], kind: 'tracing-changes-behaviour', detail: `event ${k}: with tracing ${String(a[k]).slice(0, 200)}, without ${String(b[k]).slice(0, 200)}` });
        break;
      }
  }
  return { violations, digest: String(res.digest), stats: stats(plan, res), detail: () => history(plan, res) };
}

// What a run reached: fault kinds that actually fired, rare conditions, and how much each property was exercised.
function stats(plan, res) {
  const faults = { ...res.counts };
  const probes = {};
  const rel = {};
  const f = (k, n = 1) => (faults[k] = (faults[k] || 0) + n);
  const p = (k, n = 1) => (probes[k] = (probes[k] || 0) + n);
  const r = (k, n = 1) => (rel[k] = (rel[k] || 0) + n);
  const open = new Set();
  const live = new Map();
  let crashedReq = 0;
  const handlersOf = {};
  for (const e of res.events) {
    switch (e.k) {
      case 'req':
        open.add(e.rq);
        if (open.size > 1) p('requests_overlapping');
        if (e.attempt > 0) p('request_retried');
        r('C10');
        r('C11');
        break;
      case 'parts':
        break;
      case 'res.end':
      case 'res.close':
        open.delete(e.rq);
        if (e.k === 'res.close' && !e.finished) p('response_cut_by_client_or_network');
        if (e.k === 'res.end') r('C10');
        break;
      case 'handler.start':
        r('C01');
        r('C03');
        r('C11');
        if (e.mw === undefined) {
          const key = `${e.app}/${e.api}/${e.method}`;
          live.set(key, (live.get(key) || 0) + 1);
          if (live.get(key) > 1) p('handlers_of_one_operation_overlapping');
          handlersOf[e.call] = (handlersOf[e.call] || 0) + 1;
          if (handlersOf[e.call] > 1) p('call_handled_again_after_retry');
        }
        break;
      case 'handler.end': {
        const key = `${e.app}/${e.api}/${e.method}`;
        if (live.get(key)) live.set(key, live.get(key) - 1);
        if (e.act === 'throw') {
          f('handler_failure');
          r('C05');
        }
        if (e.act === 'never') f('handler_never_finishes');
        if (e.act === 'raw') {
          p('handler_result_not_a_response');
          r('C04');
        }
        break;
      }
      case 'mw.start':
        r('C06');
        break;
      case 'mw.end':
        if (e.act !== 'ok') {
          f('middleware_' + e.act);
          r('C05');
        }
        break;
      case 'use.end':
        if (e.act !== 'next') p('use_middleware_' + e.act);
        break;
      case 'send':
        r('C04');
        r('C08');
        break;
      case 'send.threw':
        p('typed_send_threw');
        break;
      case 'hook.after':
        r('C07');
        break;
      case 'hook.decodeFmt':
      case 'hook.decodeStatus':
        p('decode_error_hook');
        r('C03');
        break;
      case 'hook.encodeFmt':
      case 'hook.encodeStatus':
        p('encode_error_hook');
        r('C04');
        break;
      case 'span.start':
        r('C08');
        break;
      case 'span.exc':
        p('span_error');
        break;
      case 'result':
        r('C02');
        r('C09');
        if (e.out === 'resolved' && e.status === 'decodeError') p('client_decodeError');
        if (e.out === 'resolved' && e.status !== 'decodeError') p('client_decoded');
        if (e.out !== 'resolved') p('client_rejected');
        break;
      case 'crash':
        crashedReq += open.size;
        open.clear();
        live.clear();
        break;
      case 'clientError':
        p('unparsable_bytes_at_server');
        break;
      case 'express.error':
        p('express_error_handler');
        break;
      case 'fallthrough':
        p('request_matched_no_route');
        break;
      case 'reg':
        p('route_registered_while_running');
        break;
      case 'raw.result':
        p('hand_written_request');
        break;
      default:
    }
  }
  if (crashedReq) p('request_in_flight_at_crash', crashedReq);
  if (plan.net.chunk !== 'whole') f('bytes_split', 1);
  if (plan.net.jitter > 0) f('network_delay_jitter', 1);
  for (const s of plan.servers) {
    if (s.kind === 'raw')
      for (const c of plan.calls) if (plan.clients[c.client].server === s.name && c.script && c.script[0].wire) f('server_answers_' + c.script[0].wire.mode);
    for (const a of s.apps) for (const st of [a, ...(a.steps || [])]) for (const h of Object.keys(st.hooks || {})) if (st.hooks[h].throw) p('hook_that_throws');
  }
  for (const c of [...plan.calls, ...plan.raws]) {
    if (c.freeze) r('C12');
    if (c.argsKey || (c.script && c.script[0] && ((c.script[0].h && c.script[0].h.payloadKey) || (c.script[0].hs && c.script[0].hs.some((h) => h.payloadKey))))) {
      r('C12');
      p('shared_value');
    }
  }
  return {
    order: res.order >>> 0, simTime: res.simTime, steps: res.steps, faults, probes, relevant: rel,
    sample: { label: plan.seed, fault_mode: plan.faultMode, operations: plan.servers.map((s) => s.apps.map((a) => `${a.name}(${a.kind}): ${a.spec.map((x) => x.routes.map((q) => q.method + ' ' + q.path).join(', ')).join('; ')}`).join(' | ')).join(' || ').slice(0, 400), calls: plan.calls.length, raw_requests: plan.raws.length, events: res.events.length, connections: res.conns, bytes: res.bytes, faults_fired: res.counts },
  };
}

function describe(plan) {
  const out = [];
  out.push(`servers: ${plan.servers.map((s) => s.name + (s.kind === 'raw' ? ' (scripted bytes)' : '') + ' ' + s.apps.map((a) => `${a.name}(${a.kind}) at ${a.mount}${a.mount2 || ''}`).join(', ')).join('; ')}`);
  for (const s of plan.servers) for (const a of s.apps) for (const api of a.spec) for (const q of api.routes) out.push(`  ${a.name} ${api.api}: ${q.method.toUpperCase()} ${q.path}`);
  out.push(`network: latency ${plan.net.minLatency}..${plan.net.minLatency + plan.net.jitter} ms, chunks ${plan.net.chunk}`);
  const ev = [];
  for (const c of plan.calls) ev.push([c.at, `call ${c.id} ${c.app} ${c.api}.${c.method} by client ${c.client}${c.retry ? ' retry ' + c.retry : ''}${c.abortAt !== undefined ? ` abort at ${c.abortAt}` : ''}${c.timeout ? ' timeout ' + JSON.stringify(c.timeout) : ''} args ${JSON.stringify(c.args)} script ${JSON.stringify(c.script)}`]);
  for (const c of plan.raws) ev.push([c.at, `raw request ${c.id} to ${c.server}: ${c.bytes !== undefined ? JSON.stringify(c.bytes) : c.method + ' ' + c.path + ' ' + JSON.stringify(c.headers) + ' ' + (c.body || '')} script ${JSON.stringify(c.script || null)}`]);
  for (const t of plan.timed) ev.push([t.at, JSON.stringify(t)]);
  ev.sort((a, b) => a[0] - b[0]);
  for (const [t, s] of ev) out.push(`t=${Math.round(t * 100) / 100} ${s.slice(0, 500)}`);
  for (const k of Object.keys(plan.connFaults)) out.push(`connection ${k}: ${JSON.stringify(plan.connFaults[k])}`);
  return out;
}

function history(plan, res) {
  return [...describe(plan), '--- history', ...res.events.map((e) => JSON.stringify(e).slice(0, 400)), ...res.uncaught.map((u) => 'ESCAPED ' + u.err)];
}

// Reductions that keep a plan well-formed: each takes a copy and changes it in place (false: nothing to do).
function* reductions(plan) {
  const dropRange = (name, from, n) => (q) => {
    const gone = q[name].splice(from, n);
    if (!gone.length) return false;
    if (name === 'raws') {
      const subs = new Set(gone.flatMap((g) => g.subs || []));
      q.subs = q.subs.filter((s) => !subs.has(s.id));
    }
  };
  for (const name of ['calls', 'raws']) {
    const len = plan[name].length;
    for (let n = Math.ceil(len / 2); n >= 1; n = n === 1 ? 0 : Math.ceil(n / 2)) for (let i = 0; i < len; i += n) yield dropRange(name, i, n);
  }
  yield (q) => {
    if (!Object.keys(q.connFaults).length) return false;
    q.connFaults = {};
  };
  for (const k of Object.keys(plan.connFaults)) {
    yield (q) => {
      if (!q.connFaults[k]) return false;
      delete q.connFaults[k];
    };
    for (let i = plan.connFaults[k].length - 1; i >= 0; i--)
      yield (q) => {
        if (!q.connFaults[k] || q.connFaults[k].length < 2) return false;
        q.connFaults[k].splice(i, 1);
      };
  }
  for (let i = plan.timed.length - 1; i >= 0; i--)
    yield (q) => {
      if (!q.timed[i]) return false;
      q.timed.splice(i, 1);
    };
  yield (q) => {
    if (q.net.chunk === 'whole') return false;
    q.net.chunk = 'whole';
  };
  yield (q) => {
    if (!q.net.jitter && !q.net.minLatency) return false;
    q.net.jitter = 0;
    q.net.minLatency = 0;
  };
  const usedBy = (q, name) => q.calls.some((c) => c.app === name);
  for (let s = plan.servers.length - 1; s >= 0; s--) {
    const sp = plan.servers[s];
    yield (q) => {
      // a server nobody talks to (clients keep their index, so only the last clients can go with it)
      const n = sp.name;
      if (q.servers.length < 2 || q.raws.some((r) => r.server === n) || q.calls.some((c) => q.clients[c.client].server === n) || q.timed.some((t) => t.server === n)) return false;
      if (q.servers.some((x) => x.proc === n)) return false;
      const keep = q.servers.filter((x) => x.name !== n);
      if (keep.length === q.servers.length) return false;
      const map = new Map();
      const cl = [];
      q.clients.forEach((c, i) => {
        if (c.server === n) return;
        map.set(i, cl.length);
        cl.push(c);
      });
      q.clients = cl;
      for (const c of q.calls) c.client = map.get(c.client);
      q.servers = keep;
    };
    for (let a = sp.apps.length - 1; a >= 0; a--) {
      yield (q) => {
        const x = q.servers[s];
        if (!x || x.name !== sp.name || x.apps.length < 2 || !x.apps[a] || usedBy(q, x.apps[a].name)) return false;
        x.apps.splice(a, 1);
      };
      const app = sp.apps[a];
      const at = (q) => {
        const x = q.servers[s];
        return x && x.name === sp.name && x.apps[a] && x.apps[a].name === app.name ? x.apps[a] : null;
      };
      for (let k = (app.steps || []).length - 1; k >= 0; k--) {
        yield (q) => {
          const y = at(q);
          if (!y || !y.steps[k]) return false;
          const st = y.steps[k];
          if (st.op === 'route' && q.calls.some((c) => c.app === y.name && c.api === st.api && c.method === st.method)) return false;
          y.steps.splice(k, 1);
        };
        for (const h of Object.keys(app.steps[k].hooks || {}))
          yield (q) => {
            const y = at(q);
            if (!y || !y.steps[k] || !y.steps[k].hooks || !y.steps[k].hooks[h]) return false;
            delete y.steps[k].hooks[h];
          };
        yield (q) => {
          const y = at(q);
          if (!y || !y.steps[k] || !y.steps[k].aliases) return false;
          delete y.steps[k].aliases;
        };
      }
      for (const h of Object.keys(app.hooks || {}))
        yield (q) => {
          const y = at(q);
          if (!y || !y.hooks || !y.hooks[h]) return false;
          delete y.hooks[h];
        };
      if (app.pre && app.pre.length)
        yield (q) => {
          const y = at(q);
          if (!y || !y.pre || !y.pre.length) return false;
          y.pre = [];
        };
      for (let k = app.spec.length - 1; k >= 0; k--)
        yield (q) => {
          const y = at(q);
          if (!y || y.spec.length < 2 || !y.spec[k]) return false;
          const api = y.spec[k].api;
          if (q.calls.some((c) => c.app === y.name && c.api === api)) return false;
          y.spec.splice(k, 1);
          if (y.steps) y.steps = y.steps.filter((t) => t.op !== 'route' || t.api !== api);
        };
    }
  }
  for (let i = 0; i < plan.calls.length; i++) {
    for (const k of ['retry', 'abortAt', 'freeze', 'ops', 'seq', 'argsKey'])
      yield (q) => {
        const c = q.calls[i];
        if (!c || c[k] === undefined || c.id !== plan.calls[i].id) return false;
        delete c[k];
        if (k === 'retry') c.script = c.script.slice(0, 1);
      };
    yield (q) => {
      const c = q.calls[i];
      if (!c || c.id !== plan.calls[i].id || !c.timeout || JSON.stringify(c.script).includes('"never"') || JSON.stringify(c.script).includes('"wire"') || q.faultMode !== 'none') return false;
      delete c.timeout;
    };
  }
  for (const list of ['calls', 'raws', 'subs'])
    for (let i = 0; i < plan[list].length; i++) {
      const id = plan[list][i].id;
      const mod = (fn) => (q) => {
        const c = q[list][i];
        if (!c || c.id !== id || !c.script) return false;
        let did = false;
        for (const s of c.script) for (const part of [...(s.mw || []), ...(s.hs || []), ...(s.h ? [s.h] : []), ...Object.values(s.use || {})]) if (fn(part)) did = true;
        return did ? undefined : false;
      };
      yield mod((x) => {
        if (!x.delays || !x.delays.length) return false;
        x.delays = [];
        return true;
      });
      yield mod((x) => {
        if (!x.mutateInput) return false;
        delete x.mutateInput;
        return true;
      });
      yield mod((x) => {
        if (x.payloadKey === undefined) return false;
        delete x.payloadKey;
        return true;
      });
      yield mod((x) => {
        if (x.setStatus === undefined) return false;
        delete x.setStatus;
        return true;
      });
    }
}

const components = {
  real: ['packages/express-wrapper/src', 'packages/typed-express-router/src', 'packages/superagent-wrapper/src', 'packages/io-ts-http/src', 'packages/response/src (all compiled from the working tree, one fresh instance per simulated process)', 'express, body-parser, superagent, io-ts, io-ts-types, fp-ts', "node's http client and server, HTTP parser, streams, agents"],
  stub: ['TCP (net.Socket/net.Server connections): simulated byte streams with latency, splitting, resets, stalls, partitions', 'clock, timers, setImmediate, Date, performance.now, Math.random: simulated', '@opentelemetry/api tracer: recording stand-in', 'handlers, middleware, hooks: scripted by the plan', 'process crash: all connections and module instances of the process are discarded'],
};
const assumptions = [
  'the microtask order and the socket, stream and HTTP parser code of the installed node are part of the system, not varied',
  'reference codecs (io-ts and io-ts-types from node_modules) define what a codec accepts and encodes',
  'one loop turn of real setImmediate drains microtasks and nextTicks between two simulated events',
];

module.exports = { statsOf: stats, init, gen, evaluate, describe, reductions, components, assumptions };
