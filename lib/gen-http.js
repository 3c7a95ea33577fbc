'use strict';
// Seeded generation of HTTP-world plans: specs, servers, hooks, middleware, calls, scripts, network and faults.
const { Rng } = require('./rng');
const C = require('./codecs');
const { dehydrate } = require('./value');
const { KEY_OF, chainKind } = require('./world-http');

const METHODS = ['get', 'post', 'put', 'delete', 'patch'];
const API_NAMES = ['api.v1.items', 'get user', 'create', 'x', 'length', 'ok', 'items', 'api/v2', 'default', 'use', 'get', 'ключ', 'name', 'stack'];
const BODY_STATUSES = Object.keys(KEY_OF).map(Number).filter((s) => s >= 200 && s !== 204 && s !== 205 && !(s >= 300 && s < 400));
const SERVER_ONLY_STATUSES = [300, 301, 302, 303, 307, 308];
const LITS = ['a', 'b', 'items', 'v1.0', 'x-y', 'a_b', '~u', 'A', 'user@home'];

const BASE = {
  servers: [1, 2],
  apps: [1, 3],
  ew: 0.5,
  apis: [1, 4],
  overlap: 0.15,
  chain: 3,
  style: [[2, 'fn'], [3, 'branded'], [2, 'plain'], [0.5, 'brandedNoMw']],
  calls: [2, 10],
  raws: [0, 4],
  window: 300,
  delays: 0.6,
  hooks: 0.4,
  routeHooks: 0.3,
  hookThrow: 0.1,
  afterHook: 0.4,
  uses: 0.4,
  handlers: 0.4,
  unchecked: 0.2,
  aliases: 0.2,
  late: 0.1,
  wrap: 0.3,
  routerOpts: 0.3,
  mwFail: 0.12,
  hFail: 0.1,
  useAct: 0.08,
  badPayload: 0.12,
  boom: 0.15,
  shared: 0.3,
  freeze: 0.5,
  mutateInput: 0.1,
  faults: { none: 5, conn: 2, crash: 0.7, client: 1, partition: 0.5, mix: 1 },
  retry: 0.3,
  multiOps: 0.25,
  garbage: 0.05,
  pipeline: 0.1,
  mutateRaw: 0.6,
  wire: 0,
  never: 0.03,
  sync: 0.3,
  keyed: 0.25,
  rawreq: 0.1,
  bodyreq: 0.07,
  unionreq: 0.06,
  again: 0.03,
  otel: 0.7,
  probe: false,
  statusPool: 0.3,
  cross: 0.05,
  recycle: 0.05,
  slot: 0.05,
  soak: 0.015,
  bigs: 0.04,
  optParam: 0.05,
  abort: 0.3,
};

function profile(over) {
  return { ...BASE, ...over, faults: { ...BASE.faults, ...(over && over.faults) } };
}

function genDelays(rng, p) {
  if (!rng.chance(p)) return [];
  return Array.from({ length: rng.range(1, 3) }, () => rng.pick([0, 1, 5, rng.range(0, 80), rng.range(0, 300)]));
}

function genReq(rng, P, method, paramNames, opts) {
  const groups = {};
  const used = new Set();
  const addGroup = (g, names, n, mk, optP) => {
    const props = {};
    for (const name of rng.shuffle(names)) {
      if (Object.keys(props).length >= n) break;
      if (used.has(name)) continue;
      used.add(name);
      let d = mk();
      if (rng.chance(optP)) d = { k: 'opt', of: d };
      props[name] = d;
    }
    groups[g] = props;
  };
  const mkGroups = {
    params: () => {
      const props = {};
      for (const p of paramNames) {
        used.add(p);
        props[p] = C.genStringDesc(rng, 'param');
      }
      if (opts.optParam) {
        used.add(opts.optParam);
        props[opts.optParam] = { k: 'opt', of: { k: 'str' } };
      }
      groups.params = props;
    },
    query: () => addGroup('query', C.QUERY_NAMES, rng.range(1, 3), () => C.genQueryDesc(rng), 0.5),
    headers: () => addGroup('headers', C.HEADER_NAMES, rng.range(1, 2), () => C.genStringDesc(rng, 'header'), 0.5),
    body: () => addGroup('body', C.PROP_NAMES, rng.range(0, 4), () => (rng.chance(P.bigs) ? { k: 'big' } : C.genJsonDesc(rng, 2)), 0.35),
  };
  mkGroups.params();
  if (rng.chance(0.5)) mkGroups.query();
  if (rng.chance(0.35)) mkGroups.headers();
  if (Object.keys(groups.params).length === 0 && rng.chance(0.5)) delete groups.params;
  const wantsBody = method === 'get' || method === 'delete' ? rng.chance(0.08) : rng.chance(0.85);
  if (wantsBody && !groups.headers && rng.chance(P.rawreq)) {
    const g = { params: groups.params || {}, query: groups.query || {} };
    return { k: 'rawreq', groups: g, body: C.genJsonDesc(rng, 1) };
  }
  if (wantsBody && rng.chance(P.bodyreq)) {
    if (!groups.params && !groups.query && !groups.headers) mkGroups.query();
    return { k: 'bodyreq', groups, body: C.genJsonDesc(rng, 1) };
  }
  if (rng.chance(P.unionreq)) {
    // alternatives, told apart by one literal in the query or in the body
    used.add('kind');
    const at = wantsBody && rng.chance(0.5) ? 'body' : 'query';
    const withQuery = at === 'query' || rng.chance(0.3);
    const before = new Set(used);
    const of = [];
    for (let i = 0, n = rng.range(2, 3); i < n; i++) {
      used.clear();
      for (const x of before) used.add(x);
      if (withQuery) mkGroups.query();
      if (wantsBody) mkGroups.body();
      const g = {};
      for (const x of rng.shuffle(['params', 'headers', 'query', 'body'])) {
        if (x === 'query' ? !withQuery : x === 'body' ? !wantsBody : !groups[x]) continue;
        g[x] = x === at ? { kind: { k: 'lit', v: ['one', 'two', 'three'][i] }, ...groups[x] } : groups[x];
      }
      of.push({ k: 'req', groups: g });
    }
    return { k: 'unionreq', of };
  }
  if (wantsBody) mkGroups.body();
  // encode order of the groups is not the claim's business, but vary it
  const out = {};
  for (const g of rng.shuffle(Object.keys(groups))) out[g] = groups[g];
  return { k: 'req', groups: out };
}

function genResponses(rng, P, ew) {
  const out = {};
  const n = rng.range(1, 3);
  const sts = [];
  for (let i = 0; i < n; i++) {
    let s = rng.chance(0.55) && !sts.includes(200) ? 200 : rng.chance(P.statusPool) ? rng.pick(BODY_STATUSES) : rng.pick([200, 201, 400, 404, 409, 500, 403]);
    if (sts.includes(s)) continue;
    sts.push(s);
    let d = C.genJsonDesc(rng, rng.range(0, 3));
    if (rng.chance(P.boom)) d = { k: 'boom', of: { k: 'str' }, mark: 'BOOM', side: 'encode' };
    const key = !ew && rng.chance(P.keyed) ? KEY_OF[s] : String(s);
    out[key] = d;
  }
  return out;
}

function genPath(rng, idx, overlap) {
  if (overlap) {
    const p = rng.pick(['/ov/{id}', '/ov/fixed', '/ov/{name}', '/ov', '/ov/{id}/x', '/ov/{p1}/{p2}', '/ov/fixed/x', '/ov/a/{id}']);
    return p;
  }
  const names = rng.shuffle(C.PARAM_NAMES);
  const segs = ['r' + idx];
  const n = rng.int(4);
  let partial = false;
  for (let i = 0; i < n; i++) {
    const r = rng.float();
    if (r < 0.5) segs.push('{' + names[i] + '}');
    else if (r < 0.58 && !partial) {
      partial = true;
      segs.push(rng.chance(0.5) ? 'v{' + names[i] + '}' : '{' + names[i] + '}.json');
    } else segs.push(rng.pick(LITS));
  }
  if (rng.chance(0.1)) return '/' + segs.slice(0, 1).join('/') + (rng.chance(0.3) ? '/' : '');
  return '/' + segs.join('/') + (rng.chance(0.05) ? '/' : '');
}
const paramNamesOf = (path) => [...path.matchAll(/\{(\w+)\}/g)].map((m) => m[1]);

function genHooks(rng, P, tag, unchecked, allowAfter) {
  const o = {};
  const on = () => rng.chance(0.5);
  if (on()) {
    o.decodeFmt = { tag: 'df:' + tag };
    if (!unchecked && rng.chance(P.hookThrow)) o.decodeFmt.throw = rng.pick(['error', 'status4', 'string']);
  }
  if (on()) o.decodeStatus = { code: rng.pick([400, 422, 418, 499, 500, 409]) };
  const vary = rng.chance(0.4);
  if (vary && o.decodeFmt) o.decodeFmt.vary = true;
  if (vary && o.decodeStatus) o.decodeStatus.vary = rng.shuffle([400, 422, 418, 499, 500, 409]).slice(0, 3);
  if (on()) {
    o.encodeFmt = { tag: 'ef:' + tag };
    if (rng.chance(P.hookThrow)) o.encodeFmt.throw = rng.pick(['error', 'typeerror']);
  }
  if (on()) o.encodeStatus = { code: rng.pick([500, 502, 555, 400, 503]) };
  if (vary && o.encodeFmt) o.encodeFmt.vary = true;
  if (vary && o.encodeStatus) o.encodeStatus.vary = rng.shuffle([500, 502, 555, 400, 503]).slice(0, 3);
  if (allowAfter && rng.chance(P.afterHook)) {
    o.after = { tag: 'ah:' + tag };
    if (rng.chance(P.hookThrow * 1.5)) o.after.throw = rng.pick(['error', 'string', 'undef']);
  }
  return Object.keys(o).length ? o : undefined;
}

function genApp(rng, P, name, counter) {
  const ew = rng.chance(P.ew);
  const app = { name, kind: ew ? 'ew' : 'ter', mount: '/', spec: [], freeze: rng.chance(P.freeze) };
  const overlapApp = rng.chance(P.overlap);
  app.mount = rng.chance(0.5) ? '/' + name.toLowerCase() : rng.pick(['/svc-' + name.toLowerCase() + '/v1', '/' + name.toLowerCase() + '.x']);
  if (rng.chance(0.25)) app.mount2 = '/inner';
  app.json = { limit: '8mb' };
  if (ew && rng.chance(0.35)) app.pool = Array.from({ length: rng.range(1, 2) }, () => (rng.chance(0.6) ? 'mwfn' : 'express'));
  const names = rng.shuffle(API_NAMES);
  const n = rng.range(...P.apis);
  const seen = new Set();
  let needLoose = false;
  for (let i = 0; i < n; i++) {
    const api = { api: names[i], routes: [] };
    const ms = rng.shuffle(METHODS).slice(0, rng.weighted([[6, 1], [3, 2], [1, 4]]));
    const path0 = genPath(rng, counter.n++, overlapApp);
    for (const method of ms) {
      const path = rng.chance(0.7) ? path0 : genPath(rng, counter.n++, overlapApp);
      if (!overlapApp && seen.has(method + path)) continue;
      seen.add(method + path);
      const req = genReq(rng, P, method, paramNamesOf(path), { optParam: !ew && rng.chance(P.optParam) ? 'opt1' : null });
      if (req.k === 'rawreq' || req.k === 'bodyreq') needLoose = true;
      const r = { method, path, req, response: genResponses(rng, P, ew) };
      if (rng.chance(P.boomDecode || 0)) {
        if (r.req.k === 'req' && r.req.groups.query) r.req.groups.query.boom = { k: 'opt', of: { k: 'boom', of: { k: 'str' }, mark: 'BOOM', side: 'decode' } };
      }
      if (ew) {
        r.style = rng.weighted(P.style);
        r.syncable = rng.chance(P.sync);
        r.chain = [];
        if (r.style === 'branded' || r.style === 'plain') {
          const len = rng.range(0, P.chain);
          for (let c = 0; c < len; c++) {
            const own = r.chain.map((x, k) => [x, k]).filter(([x]) => x[0] !== '=' && x[0] !== '@');
            if (app.pool && rng.chance(0.3)) r.chain.push('@' + rng.int(app.pool.length));
            else if (own.length && rng.chance(0.12)) r.chain.push('=' + rng.pick(own)[1]);
            else r.chain.push(rng.chance(0.6) ? 'mwfn' : 'express');
          }
        }
      }
      api.routes.push(r);
    }
    app.spec.push(api);
  }
  if (needLoose || rng.chance(0.2)) app.json.strict = false;
  if (ew) {
    app.via = rng.chance(0.25) && !app.mount2 ? 'createServer' : 'routerForApiSpec';
    if (app.via !== 'createServer' && rng.chance(P.hooks)) app.hooks = genHooks(rng, P, name, false, false);
    return app;
  }
  app.via = rng.chance(P.wrap) ? 'wrapRouter' : 'createRouter';
  if (rng.chance(P.hooks)) app.hooks = genHooks(rng, P, name, true, true);
  if (rng.chance(P.routerOpts)) app.routerOpts = rng.pick([{ strict: true }, { caseSensitive: true }, { strict: true, caseSensitive: true }, {}, { caseSensitive: false }]);
  if (app.via === 'wrapRouter') {
    app.pre = [];
    if (rng.chance(0.5)) app.pre.push({ method: 'use', id: 'pu0', pass: true });
    if (rng.chance(0.5)) app.pre.push({ method: rng.pick(['get', 'post', 'all']), path: '/plain0', id: 'pp0', status: 207 });
    if (rng.chance(0.2)) app.pre.push({ method: 'all', path: '/r' + (counter.n - 1), id: 'ppass', pass: true });
  }
  // registration steps
  const regs = [];
  for (const a of app.spec) for (const r of a.routes) regs.push({ op: 'route', api: a.api, method: r.method });
  const steps = [];
  let useN = 0;
  let plainN = 0;
  const order = rng.chance(0.7) ? regs : rng.shuffle(regs);
  for (const s of order) {
    if (rng.chance(P.uses)) steps.push({ op: 'use', id: useN && rng.chance(0.15) ? 'u' + rng.int(useN) : 'u' + useN++ });
    if (rng.chance(0.1)) {
      const id = 'p' + plainN++;
      if (app.via === 'wrapRouter') steps.push({ op: 'plain', method: rng.pick(['get', 'post', 'all', 'use']), path: '/plain' + id, id, pass: false });
      else steps.push({ op: 'plain', method: 'all', path: '/plain' + id, id });
      const last = steps[steps.length - 1];
      if (last.method === 'use') {
        last.pass = true;
        delete last.path;
      }
    }
    if (rng.chance(0.06)) continue; // left unregistered
    s.unchecked = rng.chance(P.unchecked);
    s.handlers = rng.chance(P.handlers) ? rng.range(1, 3) : 1;
    if (rng.chance(P.routeHooks)) s.hooks = genHooks(rng, P, name + '/' + s.api + '/' + s.method, s.unchecked, true);
    s.noOpts = rng.chance(0.5);
    const route = app.spec.find((a) => a.api === s.api).routes.find((r) => r.method === s.method);
    if (rng.chance(P.aliases)) {
      s.aliases = [];
      const ps = paramNamesOf(route.path);
      const k = rng.range(1, 2);
      for (let i = 0; i < k; i++) {
        let al = '/al' + counter.n++ + ps.map((p) => '/:' + p).join('');
        if (rng.chance(0.12) && /^(\/([\w~-]+|\{\w+\}))+\/?$/.test(route.path)) al = route.path.replace(/\{\w+\}/, '*').replace(/\{(\w+)\}/g, ':$1'); // overlaps with the path itself
        else if (rng.chance(0.15)) al += '/*';
        else if (ps.length && rng.chance(0.2)) al = al.replace(/\/:(\w+)$/, (_, k) => '/:' + k + rng.pick(['(\\d{2})', '([a-z]{1,4})', '(\\w{2,5})']));
        else if (route.req.groups && route.req.groups.params && route.req.groups.params.opt1 && rng.chance(0.6)) al += '/:opt1?';
        s.aliases.push(al);
      }
    }
    steps.push(s);
  }
  if (rng.chance(0.2)) steps.push({ op: 'use', id: 'u' + useN++ }); // after everything: never runs
  if (!overlapApp && rng.chance(P.late)) {
    // the tail of the registrations happens while the server is running
    const at = rng.range(50, 400);
    const k = rng.range(1, Math.min(3, steps.length || 1));
    steps.slice(-k).forEach((s, i) => (s.at = at + i));
  }
  app.steps = steps;
  return app;
}

// ---------------------------------------------------------------- scripts

function genInvalid(rng, d, lib, nonce) {
  // a payload that may or may not belong to the type; the oracle decides by its own reading
  const r = rng.float();
  if (r < 0.3) return dehydrate(rng.pick([null, undefined, true, 0, '', 'nope', [], {}, [null], { a: undefined }, Number.NaN]));
  if (r < 0.4) return { $odd: 'function' };
  const v = C.genValue(d, rng, { nonce, depth: 2 });
  let plain;
  try {
    plain = JSON.parse(JSON.stringify(v, (k, x) => (typeof x === 'bigint' ? String(x) : x)));
  } catch (_) {
    return null;
  }
  return dehydrate(C.mutateJson(plain === undefined ? null : plain, rng));
}

function statusKeys(route) {
  return Object.keys(route.response);
}
const asStatus = (k) => (/^\d+$/.test(k) ? Number(k) : k);

// one attempt's script for an ew route
function scriptEw(rng, P, app, route, nonce, lib, share) {
  const out = scriptEw0(rng, P, app, route, nonce, lib, share);
  const trng = rng.fork('extras');
  const failAt = out.mw.findIndex((s) => s.act !== 'ok');
  const fails = failAt >= 0 ? out.mw[failAt].act !== 'respond' : out.h.act === 'throw';
  const end = failAt >= 0 ? failAt : out.mw.length - 1;
  if (fails && end >= 0 && trng.chance(0.15)) {
    // the answer is under way, as an error, when the request fails
    const i = trng.int(end + 1);
    out.mw[i].setStatus = trng.pick([401, 403, 418, 500, 503]);
    out.mw[i].flush = trng.pick(['head', 'part']);
    for (const s of out.mw.slice(i + 1)) delete s.setStatus;
  }
  for (let i = 0; i < out.mw.length; i++) if (out.mw[i].act === 'ok' && chainKind(app, route.chain, i) === 'express' && trng.chance(0.06)) out.mw[i].twice = trng.pick([0, 0, 1, 20]);
  return out;
}
function scriptEw0(rng, P, app, route, nonce, lib, share) {
  const out = { h: {}, mw: [] };
  for (let ci = 0; ci < (route.chain || []).length; ci++) {
    const m = chainKind(app, route.chain, ci);
    const s = { act: 'ok', delays: genDelays(rng, P.delays) };
    if (m === 'mwfn') {
      s.result = {};
      const n = rng.int(3);
      for (let i = 0; i < n; i++) s.result[rng.pick(['user', 'tenant', 'id', 'a', 'q', 'extra', 'body', 'dup'])] = rng.pick([nonce + '-' + i, 0, null, false, '', { deep: nonce }, [nonce]]);
      if (rng.chance(0.05)) s.result.undef = { $u: 1 };
      if (share && rng.chance(P.shared * 0.4)) {
        const key = `${app.name}/${route.method}${route.path}#${out.mw.length}`;
        if (!share.mw) share.mw = {};
        if (!share.mw[key]) share.mw[key] = { result: JSON.parse(JSON.stringify(s.result, (k, x) => (k && x && typeof x === 'object' && !x.$u ? nonce : x))), freeze: rng.chance(0.5) };
        Object.assign(s, { resultKey: key, ...share.mw[key] });
      }
    }
    if (rng.chance(P.mwFail)) {
      s.act = rng.weighted([[3, 'nextErr'], [2, 'throw'], [1, 'syncthrow'], [1, 'respond']]);
      s.value = s.act === 'nextErr' || m === 'express' ? rng.pick(['error', 'typeerror', 'string', 'object', 'status4']) : rng.pick(['error', 'string', 'object', 'undef', 'null', 'zero', 'status4', 'route', 'router']);
      if (s.act === 'syncthrow' || (m === 'express' && s.act === 'throw')) s.value = rng.pick(['error', 'string', 'undef', 'null', 'zero', 'object']);
      if (s.act === 'respond') s.status = rng.pick([401, 200, 403, 503]);
    }
    if (s.act !== 'respond' && rng.chance(0.08)) s.setStatus = rng.pick([401, 403, 418, 500, 503, 200, 202]);
    out.mw.push(s);
  }
  const h = out.h;
  h.delays = genDelays(rng, P.delays);
  h.sync = route.syncable && rng.chance(0.5);
  if (rng.chance(P.mutateInput)) h.mutateInput = true;
  if (rng.chance(P.never)) {
    h.act = 'never';
    h.sync = false;
    return out;
  }
  if (rng.chance(P.hFail)) {
    h.act = 'throw';
    h.value = rng.pick(['error', 'typeerror', 'string', 'object', 'undef', 'null', 'zero', 'status4', 'route', 'router']);
    return out;
  }
  const st = rng.pick(statusKeys(route));
  const d = route.response[st];
  if (rng.chance(P.badPayload)) {
    const kind = rng.pick(['undeclared', 'unknownKey', 'encodeThrows', 'notAResponse']);
    if (kind === 'undeclared') {
      const s = rng.pick([200, 201, 404, 500, 503, 299].filter((x) => !(x in route.response)));
      h.act = 'raw';
      h.result = { type: s, payload: nonce + '-secret' };
    } else if (kind === 'unknownKey') {
      h.act = 'raw';
      h.result = { type: rng.pick(['okay', 'success', 'x' + nonce, 'OK', st, 'constructor', 'toString', '__proto__', '']), payload: nonce + '-secret' };
    } else if (kind === 'notAResponse') {
      h.act = 'raw';
      h.result = rng.pick([null, { $u: 1 }, nonce + '-secret', {}, 7, { payload: nonce + '-secret' }]);
    } else {
      h.act = 'raw';
      // only payloads that the codec cannot encode count here
      const v = genInvalid(rng, d, lib, nonce);
      if (d.k === 'boom') h.result = { type: Number(st), payload: 'BOOM' + nonce + '-secret' };
      else h.result = { type: Number(st), payload: v };
      h.mustThrow = true;
    }
    return out;
  }
  h.act = 'return';
  h.status = Number(st);
  h.form = rng.weighted([[3, 'num'], [2, 'key'], [1, 'respNum'], [1, 'respKey'], [1, 'hResp']]);
  // an object that is filled anew must not change hands between the return and the encoding
  genPayload(rng, P, h, d, nonce, share, app.name + route.method + route.path + st, h.delays.length > 0 && !h.sync);
  return out;
}
function genPayload(rng, P, h, d, nonce, share, key, ter) {
  if (share && ter && rng.chance(P.recycle)) {
    const payload = rng.chance(0.25) && share.last ? share.last : dehydrate(C.genValue(d, rng, { nonce, depth: 2, undef: 0.2 }));
    if (payload && typeof payload === 'object' && !Array.isArray(payload) && !Object.keys(payload).some((k) => k.startsWith('$'))) {
      h.recycle = 'recycled' + rng.int(2);
      h.payload = payload;
      share.last = payload;
      return;
    }
  }
  if (share && ter && rng.chance(P.cross)) {
    // an object that is also sent elsewhere, under another status or by another operation
    const ks = Object.keys(share.payloads);
    if (ks.length) {
      const k = rng.pick(ks);
      Object.assign(h, { payloadKey: k, payload: share.payloads[k].payload, freeze: share.payloads[k].freeze });
      return;
    }
  }
  if (share && rng.chance(P.shared)) {
    const k = key;
    if (!share.payloads[k]) share.payloads[k] = { payload: dehydrate(C.genValue(d, rng, { nonce: 'shared', depth: 2, undef: 0.4 })), freeze: rng.chance(0.6) };
    h.payloadKey = k;
    h.payload = share.payloads[k].payload;
    h.freeze = share.payloads[k].freeze;
    return;
  }
  h.payload = dehydrate(C.genValue(d, rng, { nonce, depth: 2, undef: 0.3 }));
  if (rng.chance(P.freeze)) h.freeze = true;
}

function genSend(rng, P, app, route, nonce, lib, share) {
  const st = rng.pick(statusKeys(route));
  const d = route.response[st];
  const h = { act: 'sendEncoded' };
  if (rng.chance(P.badPayload)) {
    const kind = rng.pick(['undeclared', 'unknownKey', 'invalid', 'invalid', 'boom']);
    if (kind === 'undeclared') {
      h.status = rng.pick([200, 201, 404, 500, 503, 299, 'ok', 'created'].filter((x) => !(String(x) in route.response)));
      h.payload = nonce + '-secret';
    } else if (kind === 'unknownKey') {
      h.status = rng.pick(['okay', 'success', 'OK', 'x' + nonce, 'constructor', 'toString', '__proto__', '', 'statusText']);
      if (/^\d+$/.test(st) && rng.chance(0.5)) h.status = st; // a number in the form of a string is no status either
      h.payload = typeof h.status === 'string' && h.status === st && d.k !== 'boom' && rng.chance(0.6) ? dehydrate(C.genValue(d, rng, { nonce: nonce + '-secret', depth: 2 })) : nonce + '-secret';
    } else {
      h.status = asStatus(st);
      h.payload = d.k === 'boom' ? 'BOOM' + nonce + '-secret' : genInvalid(rng, d, lib, nonce);
    }
    return h;
  }
  h.status = asStatus(st);
  genPayload(rng, P, h, d, nonce, share, app.name + route.method + route.path + st, true);
  return h;
}

function scriptTer(rng, P, app, route, step, nonce, lib, share) {
  const out = { hs: [], use: {} };
  for (const s of app.steps) {
    if (s.op !== 'use') continue;
    const u = { act: 'next', delays: genDelays(rng, P.delays * 0.6) };
    if (rng.chance(P.useAct)) {
      u.act = rng.pick(['nextErr', 'respond', 'sendEncoded', 'nextRoute', 'nextRouter']);
      if (u.act === 'nextErr') u.value = rng.pick(['error', 'string', 'status4', 'object']);
      if (u.act === 'respond') u.status = rng.pick([200, 401, 503]);
      if (u.act === 'sendEncoded') {
        Object.assign(u, genSend(rng, P, app, route, nonce, lib, share));
      }
    }
    if (u.act !== 'respond' && rng.chance(0.08)) u.setStatus = rng.pick([200, 201, 401, 418, 500, 503]);
    out.use[s.id] = u;
  }
  const n = (step && step.handlers) || 1;
  for (let i = 0; i < n; i++) {
    const last = i === n - 1;
    const h = { delays: genDelays(rng, P.delays), act: 'next' };
    if (rng.chance(P.mutateInput) && last) h.mutateInput = true;
    if (last) {
      if (rng.chance(P.never)) h.act = 'never';
      else if (rng.chance(P.hFail)) {
        h.act = rng.pick(['nextErr', 'nextErr', 'throw', 'next', 'nextRoute', 'nextRouter', 'plainSend']);
        if (h.act === 'throw') h.delays = [];
        h.value = h.act === 'nextErr' ? rng.pick(['error', 'string', 'status4']) : rng.pick(['error', 'string', 'status4', 'typeerror']);
        if (h.act === 'plainSend') {
          h.status = rng.pick([200, 404]);
          h.payload = { plain: nonce };
        }
      } else {
        Object.assign(h, genSend(rng, P, app, route, nonce, lib, share));
        if (rng.chance(P.again)) h.again = genSend(rng, P, app, route, nonce, lib, null);
      }
    } else if (rng.chance(0.06)) {
      Object.assign(h, genSend(rng, P, app, route, nonce, lib, share));
    }
    out.hs.push(h);
  }
  return out;
}

// Arguments of a client call. A parameter that only an alias can carry has no place in the path the client uses.
function callArgs(route, rng, opts) {
  const v = C.genValue(route.req, rng, opts);
  if (v && typeof v === 'object' && 'opt1' in v) delete v.opt1;
  return v;
}

// ---------------------------------------------------------------- raw requests

function encodeUrl(path, nested, prefix, rng) {
  let p = path.replace(/\{(\w+)\}/g, (_, k) => encodeURIComponent(nested.params && nested.params[k] !== undefined ? String(nested.params[k]) : 'x'));
  const qs = [];
  for (const k of Object.keys(nested.query || {})) {
    const v = nested.query[k];
    if (v === undefined) continue;
    if (Array.isArray(v)) v.forEach((x, i) => qs.push(`${encodeURIComponent(k)}[${rng.chance(0.5) ? i : ''}]=${encodeURIComponent(String(x))}`));
    else qs.push(`${encodeURIComponent(k)}=${encodeURIComponent(String(v))}`);
  }
  return prefix + p + (qs.length ? '?' + qs.join('&') : '');
}

function genRaw(rng, P, app, route, step, args, lib) {
  const ref = C.build(route.req, lib);
  let nested;
  try {
    nested = ref.encode(args);
  } catch (_) {
    nested = { params: {}, query: {} };
  }
  nested = JSON.parse(JSON.stringify({ params: nested.params || {}, query: nested.query || {}, headers: nested.headers || {}, body: nested.body }, (k, x) => (typeof x === 'bigint' ? String(x) : x)));
  const prefix = (app.mount === '/' ? '' : app.mount || '') + (app.mount2 || '');
  const out = { method: route.method.toUpperCase(), headers: {} };
  let path = route.path;
  if (step && step.aliases && rng.chance(0.5)) {
    path = rng.pick(step.aliases).replace(/:(\w+)\([^()]*\)/g, (_, k) => rng.pick(['42', 'ab', 'Abc', '7', `{${k}}`])).replace(/\/:(\w+)\?/g, () => (rng.chance(0.5) ? '/optval' : '')).replace(/:(\w+)/g, '{$1}').replace('*', () => rng.pick(['t', 't/u/v', '']));
  }
  const mutate = rng.chance(P.mutateRaw);
  const muts = mutate ? rng.range(1, 2) : 0;
  let bodyText;
  let badJson = false;
  let ctype = 'application/json';
  let url0 = null;
  for (let i = 0; i < muts; i++) {
    const w = rng.float();
    if (w < 0.35 && nested.body !== undefined) nested.body = C.mutateJson(nested.body, rng);
    else if (w < 0.5) {
      const ks = Object.keys(nested.query);
      if (ks.length && rng.chance(0.7)) {
        const k = rng.pick(ks);
        const r = rng.int(4);
        if (r === 0) delete nested.query[k];
        else if (r === 1) nested.query[k] = 'junk value';
        else if (r === 2) nested.query[k] = [String(nested.query[k]), 'again'];
        else nested.query[k] = '';
      } else nested.query[rng.pick(['zz', 'q', 'boom'])] = rng.pick(['BOOM', 'x', '']);
    } else if (w < 0.6) {
      const ks = Object.keys(nested.params);
      if (ks.length) nested.params[rng.pick(ks)] = rng.pick(['junk', '..%2f', '0x10', ' ', '\u00e9', '-', '{}', 'NaN', '1e400', '']);
    } else if (w < 0.7) {
      const ks = Object.keys(nested.headers);
      if (ks.length) {
        const k = rng.pick(ks);
        if (rng.chance(0.5)) delete nested.headers[k];
        else nested.headers[k] = rng.pick(['', 'junk', '1, 2', '0']);
      }
    } else if (w < 0.76) out.method = rng.pick(['GET', 'POST', 'PUT', 'DELETE', 'PATCH', 'HEAD']);
    else if (w < 0.82) path = rng.pick([path + '/extra', path + '/', path.toUpperCase().replace(/\{(\w+)\}/g, (_, k) => { const real = Object.keys(nested.params).find((n) => n.toUpperCase() === k); return '{' + (real || k) + '}'; }), '/nowhere', '/plainp0', '/plain0', path.replace(/\/$/, '') || '/']);
    else if (w < 0.86) badJson = true;
    else if (w < 0.9) ctype = rng.pick(['text/plain', 'application/x-www-form-urlencoded', '', 'application/json; charset=utf-8']);
    else if (w < 0.93) url0 = '%';
    else if (w < 0.96) nested.body = rng.pick([undefined, null, [], {}, 'str', 5, false]);
    else path = '/' + rng.pick(['plainp0', 'plain0', 'r0', 'ov/fixed', 'ov/z/x', '']);
  }
  if (mutate && nested.body && typeof nested.body === 'object' && !Array.isArray(nested.body) && rng.chance(0.05)) {
    // very many things wrong at once
    const ks = Object.keys(nested.body);
    const junk = rng.pick([null, { a: {} }, '', 'x', -1.5]);
    if (ks.length) nested.body[rng.pick(ks)] = Array.from({ length: rng.range(25, 70) }, (_, i) => (i % 3 ? junk : [junk]));
  }
  if (!mutate && out.method === 'GET' && rng.chance(0.08)) out.method = 'HEAD';
  let url = encodeUrl(path, nested, prefix, rng);
  if (url0) url = url.replace(/\/([^/?]*)(\?|$)/, (m, a, b) => '/' + a + '%zz' + b);
  if (/[^\x21-\x7e]/.test(url)) url = encodeURI(url);
  out.path = url || '/';
  for (const k of Object.keys(nested.headers)) {
    const v = nested.headers[k];
    if (v === undefined || v === null) continue;
    out.headers[k] = String(v).replace(/[^\x20-\x7e]/g, '_').trim();
  }
  if (nested.body !== undefined) {
    bodyText = JSON.stringify(nested.body);
    if (badJson) bodyText = rng.pick([bodyText.slice(0, -1), bodyText + '}', '{"a":', 'not json', '\u0000']);
    out.body = bodyText;
    if (ctype) out.headers['content-type'] = ctype;
  }
  return out;
}

// ---------------------------------------------------------------- response bytes of a scripted peer

function genWire(rng, route, lib, nonce) {
  const declared = Object.keys(route.response).filter((k) => /^\d+$/.test(k)).map(Number);
  let status = rng.chance(0.7) && declared.length ? rng.pick(declared) : rng.pick([200, 201, 202, 400, 401, 404, 409, 418, 500, 502, 503, 299, 451, 599, 600, 777, 999]);
  const d = route.response[String(status)];
  let bodyText = '';
  let ctype = 'application/json';
  const r = rng.float();
  const validJson = () => {
    if (!d) return C.genJson(rng, 2, nonce);
    try {
      return JSON.parse(JSON.stringify(C.build(d, lib).encode(C.genValue(d, rng, { nonce, depth: 2 }))));
    } catch (_) {
      return null;
    }
  };
  if (r < 0.35) bodyText = JSON.stringify(validJson());
  else if (r < 0.65) {
    const v = validJson();
    bodyText = JSON.stringify(C.mutateJson(v === undefined ? null : v, rng));
  } else if (r < 0.75) bodyText = JSON.stringify(rng.pick([false, true, null, 0, 1, '', 'x', [], {}]));
  else if (r < 0.8) bodyText = rng.pick(['{"a":', 'nope', '{', 'undefined', "{'a':1}"]);
  else if (r < 0.88) {
    ctype = rng.pick(['text/plain', 'text/html', 'text/plain; charset=utf-8']);
    bodyText = rng.pick(['', 'plain text', '<html></html>', '0', 'false', '{"a":1}', '"quoted"', nonce]);
  } else if (r < 0.92) {
    ctype = rng.pick(['application/json; charset=utf-8', 'application/vnd.api+json', 'application/problem+json']);
    bodyText = JSON.stringify(validJson());
  } else if (r < 0.96) bodyText = '';
  else {
    ctype = '';
    bodyText = rng.pick(['', 'raw', '{"a":1}']);
  }
  if (bodyText === undefined) bodyText = 'null';
  const buf = Buffer.from(bodyText, 'utf8');
  let head = `HTTP/1.1 ${status} ${rng.pick(['OK', 'X', ''])}\r\n`;
  if (ctype) head += `${rng.chance(0.2) ? 'CONTENT-TYPE' : 'Content-Type'}: ${ctype}\r\n`;
  const w = { status, ctype, text: bodyText, complete: true };
  const mode = rng.weighted([[5, 'cl'], [2, 'chunked'], [1, 'close'], [1, 'short'], [0.5, 'long'], [0.5, 'garbage'], [0.7, 'rst'], [0.4, 'dup'], [0.4, 'silent']]);
  w.mode = mode;
  w.delay = rng.pick([0, 5, rng.range(0, 200)]);
  const body = buf.toString('latin1');
  if (mode === 'chunked') {
    let s = '';
    let i = 0;
    while (i < body.length) {
      const n = Math.min(body.length - i, rng.range(1, 40));
      s += n.toString(16) + '\r\n' + body.slice(i, i + n) + '\r\n';
      i += n;
    }
    w.bytes = head + 'Transfer-Encoding: chunked\r\n\r\n' + s + '0\r\n\r\n';
  } else if (mode === 'close') {
    w.bytes = head + 'Connection: close\r\n\r\n' + body;
    w.close = true;
  } else if (mode === 'short') {
    w.bytes = head + `Content-Length: ${buf.length + rng.range(1, 20)}\r\n\r\n` + body;
    w.close = true;
    w.complete = false;
  } else if (mode === 'long') {
    w.bytes = head + `Content-Length: ${buf.length}\r\nConnection: close\r\n\r\n` + body + 'trailing garbage';
    w.close = true;
    w.complete = 'maybe';
  } else if (mode === 'garbage') {
    w.bytes = rng.pick(['garbage\r\n\r\n', 'HTTP/1.1 abc\r\n\r\n', '\u0000\u0001', 'HTTP/1.1 200 OK\r\nContent-Length: -5\r\n\r\n']);
    w.close = true;
    w.complete = false;
  } else if (mode === 'rst') {
    const all = head + `Content-Length: ${buf.length}\r\n\r\n` + body;
    w.bytes = all.slice(0, rng.int(all.length));
    w.rst = true;
    w.complete = false;
  } else if (mode === 'dup') {
    const all = head + `Content-Length: ${buf.length}\r\n\r\n` + body;
    w.bytes = all + all;
    w.close = true;
    w.complete = 'maybe';
  } else if (mode === 'silent') {
    w.bytes = '';
    w.complete = false;
    w.silent = true;
  } else w.bytes = head + `Content-Length: ${buf.length}\r\n\r\n` + body;
  w.enc = 'latin1';
  return w;
}

// ---------------------------------------------------------------- plans

function genHttpPlan(label, P, lib) {
  const rng = new Rng(label);
  const swarm = rng.fork('swarm');
  // switch whole features off in some runs, so that runs differ in kind and not only in detail
  P = { ...P };
  for (const f of ['hooks', 'uses', 'mwFail', 'hFail', 'badPayload', 'late', 'aliases', 'unchecked', 'mutateInput', 'useAct', 'again', 'never', 'routeHooks', 'hookThrow', 'shared']) if (swarm.chance(0.2)) P[f] = 0;
  if (swarm.chance(0.15)) P.delays = 0;
  if (swarm.fork('soak').chance(P.soak)) {
    // many requests to few operations of one server: anything that fills up or leaks slowly
    Object.assign(P, { servers: [1, 1], apps: [1, 1], apis: [1, 2], calls: [60, 130], raws: [0, 12], window: swarm.fork('soakw').pick([200, 1500, 4000]), chain: Math.min(P.chain, 3), never: 0, abort: 0.6, hot: 1 });
    P.delays = Math.max(P.delays, 0.6);
  }
  const plan = { seed: label, net: {}, connFaults: {}, timed: [], servers: [], clients: [], calls: [], raws: [], subs: [] };
  plan.net = {
    minLatency: rng.pick([0, 1, 10]),
    jitter: rng.pick([0, 3, 40, 150]),
    chunk: rng.weighted([[3, 'whole'], [2, 'split'], [1, 'tiny']]),
  };
  const faultMode = swarm.weighted(Object.keys(P.faults).filter((k) => P.faults[k] > 0).map((k) => [P.faults[k], k]));
  plan.faultMode = faultMode;
  const has = (k) => faultMode === k || (faultMode === 'mix' && swarm.chance(0.6));
  const counter = { n: 0 };
  const nS = rng.range(...P.servers);
  const otelOn = swarm.chance(P.otel);
  for (let s = 0; s < nS; s++) {
    const sp = { name: 'S' + s, host: `s${s}:80`, otel: otelOn ? 'on' : 'off', apps: [], keepAlive: 60000 };
    if (s > 0 && rng.chance(0.4)) sp.proc = 'S0';
    if (rng.chance(0.15)) sp.etag = false;
    if (P.wire && swarm.fork('wire' + s).chance(P.wire)) sp.kind = 'raw';
    const nA = rng.range(...P.apps);
    for (let a = 0; a < nA; a++) {
      // different apps of one process deliberately reuse operation names, and sometimes whole specs
      const app = genApp(rng.fork(`app${s}.${a}`), P, `A${s}${a}`, rng.chance(0.5) ? counter : { n: 0 });
      if (sp.etag === false) app.etag = false;
      sp.apps.push(app);
    }
    if (nA > 1 && rng.chance(0.2)) {
      // the same spec object served twice, by two routers with their own handlers
      const a0 = sp.apps[0];
      const renamed = rng.fork('twin').chance(0.4);
      // ... or two specs that use the same route objects under different operation names
      if (renamed) for (const a of a0.spec) for (const r of a.routes) r.key = `${a0.name} ${a.api} ${r.method}`;
      const twin = JSON.parse(JSON.stringify(a0));
      twin.name = a0.name + 't';
      twin.mount = '/twin' + a0.name.toLowerCase();
      if (renamed) {
        for (const a of twin.spec) a.api += '.twin';
        for (const s of twin.steps || []) if (s.op === 'route') s.api += '.twin';
      } else a0.specKey = twin.specKey = 'k' + a0.name;
      sp.apps.push(twin);
    }
    plan.servers.push(sp);
  }
  // clients
  const nC = rng.range(1, 3);
  for (let c = 0; c < nC; c++) {
    const server = plan.servers[c < nS ? c : rng.int(nS)];
    const cp = { name: 'C' + c, server: server.name, factory: rng.chance(0.3) ? 'supertest' : 'superagent', slash: rng.chance(0.2), agent: rng.pick([{ keepAlive: true }, { keepAlive: true, maxSockets: 1 }, { keepAlive: false }, { keepAlive: true, maxSockets: 3 }]) };
    if (rng.chance(0.3) && server.kind !== 'raw') cp.proc = 'server';
    plan.clients.push(cp);
  }
  for (const sp of plan.servers) if (!plan.clients.some((c) => c.server === sp.name)) plan.clients.push({ name: 'C' + plan.clients.length, server: sp.name, factory: 'superagent', agent: { keepAlive: true } });
  if ([...plan.clients].some((c) => c.agent.maxSockets)) P.never = 0;

  const share = { payloads: {}, args: {} };
  const routesOf = (sp) => {
    const l = [];
    for (const app of sp.apps) for (const a of app.spec) for (const route of a.routes) l.push({ app, a, route, step: app.steps && app.steps.find((s) => s.op === 'route' && s.api === a.api && s.method === route.method) });
    return l;
  };
  const mkScript = (crng, app, route, step, nonce) => (app.kind === 'ew' ? scriptEw(crng, P, app, route, nonce, lib, share) : scriptTer(crng, P, app, route, step, nonce, lib, share));
  // hot routes: most calls hit few operations, so that requests of one operation overlap
  const hot = {};
  for (const sp of plan.servers) {
    const l = routesOf(sp);
    if (l.length) hot[sp.name] = rng.shuffle(l).slice(0, P.hot || rng.range(1, 3));
  }
  const pickRoute = (crng, sp) => {
    const l = routesOf(sp);
    if (!l.length) return null;
    return crng.chance(0.7) ? crng.pick(hot[sp.name]) : crng.pick(l);
  };
  const burst = rng.chance(0.3);
  const nCalls = rng.range(...P.calls);
  for (let i = 0; i < nCalls; i++) {
    const crng = rng.fork('call' + i);
    const ci = crng.int(plan.clients.length);
    const sp = plan.servers.find((s) => s.name === plan.clients[ci].server);
    const pick = pickRoute(crng, sp);
    if (!pick) continue;
    const { app, a, route, step } = pick;
    const id = 'c' + i;
    const c = { id, at: burst ? 10 + crng.float() : crng.range(0, P.window), client: ci, app: app.name, api: a.api, method: route.method };
    if (step && step.at && crng.chance(0.7)) c.at += step.at;
    const key = app.name + a.api + route.method;
    if (crng.chance(P.shared)) {
      if (!share.args[key]) share.args[key] = dehydrate(callArgs(route, crng, { nonce: 'sharg', depth: 2, undef: 0.4 }));
      c.argsKey = key;
      c.args = share.args[key];
      c.freeze = crng.fork('fz').chance(0.6);
    } else if (crng.fork('slot').chance(P.slot)) {
      // one object that its owner fills anew for every call
      c.slot = 'slot' + crng.fork('slotn').int(2);
      c.args = dehydrate(callArgs(route, crng, { nonce: id, depth: 2, undef: 0.3 }));
    } else {
      c.args = dehydrate(callArgs(route, crng, { nonce: id, depth: 2, undef: 0.3 }));
      if (crng.chance(P.freeze)) c.freeze = true;
    }
    if (sp.kind === 'raw') {
      c.script = [{ wire: genWire(crng, route, lib, id) }];
      if (c.script[0].wire.silent) c.timeout = { deadline: 3000 };
    } else c.script = [mkScript(crng, app, route, step, id)];
    if (crng.fork('use').chance(0.2)) c.scribble = true;
    if (crng.chance(P.multiOps)) {
      const sts = [...Object.keys(route.response).filter((k) => /^\d+$/.test(k)), '200', '404', '500'];
      c.ops = Array.from({ length: crng.range(1, 4) }, () => crng.pick(['decode', 'decode', 'decodeExpecting:' + crng.pick(sts), 'then']));
      c.seq = crng.chance(0.4);
    }
    plan.calls.push(c);
  }
  const nR = rng.range(...P.raws);
  for (let i = 0; i < nR; i++) {
    const crng = rng.fork('raw' + i);
    const sp = crng.pick(plan.servers);
    if (sp.kind === 'raw') continue;
    const pick = pickRoute(crng, sp);
    if (!pick) continue;
    const { app, route, step } = pick;
    const id = 'w' + i;
    const at = crng.range(0, P.window) + (step && step.at && crng.chance(0.7) ? step.at : 0);
    if (crng.chance(P.garbage)) {
      plan.raws.push({ id, at, server: sp.name, bytes: genGarbage(crng, route), half: crng.chance(0.3), wait: 2000 });
      continue;
    }
    const args = C.genValue(route.req, crng, { nonce: id, depth: 2, undef: 0.2 });
    if (crng.chance(P.pipeline)) {
      const n = crng.range(2, 4);
      let bytes = '';
      const subs = [];
      for (let j = 0; j < n; j++) {
        const q = genRaw(crng, P, app, route, step, args, lib);
        const sid = `${id}.${j}`;
        const body = q.body === undefined ? '' : Buffer.from(q.body, 'utf8').toString('latin1');
        let h = `${q.method} ${q.path} HTTP/1.1\r\nHost: ${sp.name}\r\nx-sim-id: ${sid}\r\n`;
        for (const k of Object.keys(q.headers)) h += `${k}: ${q.headers[k]}\r\n`;
        if (body) h += `Content-Length: ${body.length}\r\n`;
        bytes += h + '\r\n' + body;
        subs.push(sid);
        plan.subs.push({ id: sid, script: [mkScript(crng, app, route, step, sid)] });
      }
      plan.raws.push({ id, at, server: sp.name, bytes, subs, wait: 60000 });
      continue;
    }
    const q = genRaw(crng, P, app, route, step, args, lib);
    const c = { id, at, server: sp.name, ...q, agentKey: 'raw' + crng.int(2), script: [mkScript(crng, app, route, step, id)] };
    plan.raws.push(c);
  }
  // a connection-level server needs a deadline on calls that may never be answered
  const scripts = [...plan.calls, ...plan.raws, ...plan.subs];
  for (const c of scripts) {
    const s = c.script && c.script[0];
    if (!s) continue;
    const last = s.hs ? s.hs[s.hs.length - 1] : s.h;
    if (last && last.act === 'never' && plan.calls.includes(c)) c.timeout = { deadline: 4000 };
  }
  // ---- faults
  const frng = rng.fork('faults');
  let faultsEnd = 0;
  if (has('conn')) {
    const nF = frng.range(1, 6);
    for (let i = 0; i < nF; i++) {
      const conn = frng.int(Math.max(2, plan.calls.length));
      const f = { dir: frng.pick(['c2s', 's2c', 's2c']), at: frng.pick([0, 1, frng.range(0, 60), frng.range(0, 300), frng.range(100, 900)]), kind: frng.weighted([[3, 'reset'], [2, 'close'], [3, 'stall'], [1, 'blackhole']]) };
      if (f.kind === 'stall') f.dur = frng.range(10, 3000);
      (plan.connFaults[conn] = plan.connFaults[conn] || []).push(f);
    }
    faultsEnd = Math.max(faultsEnd, 5000);
  }
  if (has('crash')) {
    const sp = frng.pick(plan.servers);
    if (sp.kind !== 'raw') {
      const n = frng.range(1, 2);
      let at = 0;
      for (let i = 0; i < n; i++) {
        at += frng.range(5, 500);
        const down = frng.range(1, 800);
        plan.timed.push({ at, kind: 'crash', server: sp.name, down });
        at += down;
      }
      faultsEnd = Math.max(faultsEnd, at);
    }
  }
  if (has('partition')) {
    const c = frng.pick(plan.clients);
    const at = frng.range(0, 300);
    const dur = frng.range(10, 2500);
    plan.timed.push({ at, kind: 'partition', client: c.name, server: c.server, dur });
    faultsEnd = Math.max(faultsEnd, at + dur);
  }
  if (has('client')) {
    for (const c of plan.calls) {
      if (frng.chance(P.abort)) c.abortAt = frng.range(0, frng.chance(0.5) ? 500 : 120);
      else if (frng.chance(0.3)) c.timeout = frng.chance(0.5) ? { response: frng.range(5, 400) } : { deadline: frng.range(5, 600) };
    }
    for (const r of plan.raws) if (r.bytes === undefined && frng.chance(0.3)) r.disconnectAt = frng.range(0, 400);
    faultsEnd = Math.max(faultsEnd, 1500);
    if (frng.chance(0.3)) for (const sp of plan.servers) sp.keepAlive = frng.pick([20, 100]);
  }
  if (faultMode !== 'none' || frng.chance(0.15)) {
    for (const c of plan.calls) {
      if (!frng.chance(P.retry)) continue;
      c.retry = frng.range(1, 3);
      const sp = plan.servers.find((s) => s.name === plan.clients[c.client].server);
      if (sp.kind === 'raw') continue;
      const { app, route, step } = routesOf(sp).find((x) => x.app.name === c.app && x.a.api === c.api && x.route.method === c.method);
      for (let k = 0; k < c.retry; k++) if (frng.chance(0.6)) c.script.push(mkScript(frng.fork(c.id + 'retry' + k), app, route, step, c.id + 'k' + k));
    }
  }
  if (faultMode !== 'none') {
    for (const c of plan.calls) if (!c.timeout && plan.faultMode !== 'none') c.timeout = { deadline: frng.pick([3000, 8000]) };
  }
  plan.faultFree = faultMode === 'none';
  plan.net.faultsUntil = faultsEnd + 3000;
  if (P.probe && faultMode !== 'none') {
    // recovery: after the last fault, fresh clients must be served again
    const t0 = plan.net.faultsUntil + 2000;
    for (const sp of plan.servers) {
      if (sp.kind === 'raw') continue;
      const l = routesOf(sp).filter((x) => (x.app.kind === 'ew' || x.step) );
      if (!l.length) continue;
      const ci = plan.clients.length;
      plan.clients.push({ name: 'P' + ci, server: sp.name, factory: 'superagent', agent: { keepAlive: false } });
      const n = frng.range(1, 3);
      for (let i = 0; i < n; i++) {
        const crng = frng.fork('probe' + sp.name + i);
        const { app, a, route, step } = crng.pick(l);
        const id = `p${sp.name}${i}`;
        const quiet = { ...P, mwFail: 0, hFail: 0, never: 0, badPayload: 0, useAct: 0, again: 0, shared: 0 };
        plan.calls.push({
          id, at: t0 + crng.range(0, 50), client: ci, app: app.name, api: a.api, method: route.method, probe: true,
          args: dehydrate(callArgs(route, crng, { nonce: id, depth: 2 })),
          script: [app.kind === 'ew' ? scriptEw(crng, quiet, app, route, id, lib, null) : scriptTer(crng, quiet, app, route, step, id, lib, null)],
        });
      }
    }
  }
  plan.until = 240000;
  return plan;
}

function genGarbage(rng, route) {
  const parts = [];
  const n = rng.range(1, 3);
  for (let i = 0; i < n; i++)
    parts.push(
      rng.pick([
        'GET / HTTP/1.1\r\n\r\n',
        'GET / HTTP/1.1\r\nHost: x\r\n\r\n',
        `POST ${route.path.replace(/[{}]/g, '')} HTTP/1.1\r\nHost: x\r\nContent-Type: application/json\r\nContent-Length: 10\r\n\r\n{"a"`,
        `POST ${route.path.replace(/[{}]/g, '')} HTTP/1.1\r\nHost: x\r\nContent-Type: application/json\r\nTransfer-Encoding: chunked\r\n\r\nzz\r\n`,
        '\r\n\r\n\r\n',
        '\u0000\u0001\u0002garbage',
        'GET /%zz HTTP/1.1\r\nHost: x\r\n\r\n',
        'FOO /bar HTTP/1.1\r\nHost: x\r\n\r\n',
        'GET http://other/abs HTTP/1.1\r\nHost: x\r\n\r\n',
        'GET //double HTTP/1.1\r\nHost: x\r\nContent-Length: abc\r\n\r\n',
        `${route.method.toUpperCase()} ${route.path.replace(/[{}]/g, '')} HTTP/1.1\r\nHost: x\r\nContent-Length: 3\r\nContent-Type: application/json\r\n\r\n{]}`,
      ]),
    );
  return parts.join('');
}

module.exports = { genHttpPlan, profile, BASE, METHODS, BODY_STATUSES, SERVER_ONLY_STATUSES, genWire, genRaw };
