'use strict';
// World C: the document that the generator writes about an API, and the traffic of servers that run the same sources.
const { RepoImage } = require('./repo');
const { runHttp, loadDeps, KEY_OF, STATUS_OF } = require('./world-http');
const { runGen } = require('./world-gen');
const { genHttpPlan, profile } = require('./gen-http');
const { Model } = require('./judge-http');
const { hydrate } = require('./value');
const { Rng } = require('./rng');
const { Printer, OPTS } = require('./doc-src');
const docEval = require('./doc-eval');
const { PINNED } = require('./doc-pinned');
const { valid, danglers, Unresolved } = require('./doc-schema');
const http = require('./adapter-http');
const C = require('./codecs');
const R = require('./route-ref');

let image = null;
let lib = null;

async function init(compiled) {
  image = new RepoImage(compiled);
  const d = loadDeps(image);
  lib = C.refLib(d.t, d.tt);
}

const FIXED = { servers: [1, 2], apps: [1, 1], hooks: 0, routeHooks: 0, hookThrow: 0, mwFail: 0, useAct: 0, rawreq: 0, boom: 0, wire: 0, optParam: 0, bigs: 0, badPayload: 0, late: 0, unchecked: 0, calls: [2, 9], raws: [3, 10], mutateRaw: 0.75, cross: 0, recycle: 0, abort: 0.1, keyed: 0 };

function pickProfile(cfg, index) {
  let total = 0;
  for (const [w] of cfg.profiles) total += w;
  let k = index % total;
  for (const [w, over] of cfg.profiles) {
    if (k < w) return over;
    k -= w;
  }
  return {};
}

function gen(cfg, index) {
  const over = pickProfile(cfg, index);
  const label = `${cfg.seed}/${cfg.id}/${index}`;
  let plan;
  C.setDialect('doc');
  try {
    plan = genHttpPlan(label, profile({ ...FIXED, ...over.http }), lib);
  } finally {
    C.setDialect(null);
  }
  const rng = new Rng(label + '/doc');
  for (const sp of plan.servers)
    for (const app of sp.apps) app.doc = { seed: label + '/' + app.name, o: { ...OPTS, ...over.src } };
  plan.gen = {
    base: rng.pick([1, 1, rng.int(200000)]),
    lat: { min: rng.pick([0, 1, 5]), jit: rng.pick([0, 3, 30]) },
    at: rng.pick([0, 5, 60]),
  };
  if (index === 0) plan.pinned = Object.keys(PINNED);
  return JSON.parse(JSON.stringify(plan));
}

async function runPinned(plan) {
  const out = [];
  for (const name of plan.pinned || []) {
    const p = PINNED[name];
    const r = await runGen(image, { seed: plan.seed, base: 1, files: JSON.parse(JSON.stringify(p.files)), stages: [{ gens: [{ id: name, argv: [p.entry], cwd: '/w', at: 0, lat: { min: 0, jit: 0 } }] }] });
    out.push({ name, p, g: r.gens[0] });
  }
  return out;
}

function print(app) {
  const p = new Printer(new Rng(app.doc.seed), '/w/' + app.name, app.doc.o);
  const names = p.spec(app.spec);
  return { names, files: p.out(), entry: p.entry.path };
}

async function execute(plan, cfg) {
  const apps = plan.servers.flatMap((s) => s.apps);
  const src = new Map(apps.map((a) => [a.name, print(a)]));
  const files = Object.assign({}, ...[...src.values()].map((s) => s.files));
  const g = plan.gen;
  const gens = apps.map((a, i) => ({ id: a.name, argv: [src.get(a.name).entry], cwd: '/w', at: i * g.at, lat: { ...g.lat } }));
  const docs = await runGen(image, { seed: plan.seed, base: g.base, files: JSON.parse(JSON.stringify(files)), stages: [{ gens }] });
  const specs = (ap, proc) => {
    const s = src.get(ap.name);
    const d = loadDeps(image);
    const x = docEval.evaluate(image, s.files, s.entry, { 'io-ts': d.t, 'io-ts-types': d.tt, '@api-ts/io-ts-http': proc.h });
    return Object.assign({}, ...s.names.map((n) => x[n]));
  };
  const traffic = await runHttp(image, plan, { specs });
  return { docs, traffic, src, apps, pinned: await runPinned(plan) };
}

// ---------------------------------------------------------------- the oracle

// Kinds whose document can say exactly what the codec takes.
const EXACT = new Set(['str', 'num', 'bool', 'nul', 'lit', 'keyof', 'ne']);
function exact(d) {
  if (EXACT.has(d.k)) return true;
  if (['arr', 'roarr', 'rec', 'opt'].includes(d.k)) return exact(d.of);
  if (['type', 'strict', 'partial', 'optz', 'xoptz'].includes(d.k)) return Object.values(d.props).every(exact);
  if (['union', 'inter'].includes(d.k)) return d.of.every(exact);
  return false;
}
// What a request codec asks for: its parameters by group, alternatives of the query, its body.
function shape(req) {
  if (req.k === 'bodyreq') return { groups: req.groups, query: null, body: req.body };
  const body = (r) => (r.groups.body ? { k: 'optz', props: r.groups.body } : null);
  if (req.k === 'unionreq') {
    const one = req.of[0].groups;
    return {
      groups: { params: one.params || {}, headers: one.headers || {} },
      query: one.query ? req.of.map((r) => r.groups.query) : null,
      body: one.body ? { k: 'union', of: req.of.map(body) } : null,
    };
  }
  return { groups: req.groups, query: null, body: body(req) };
}
const IN = { params: 'path', query: 'query', headers: 'header' };

class Judge {
  constructor(plan, ex) {
    this.plan = plan;
    this.ex = ex;
    this.out = [];
    this.model = new Model(plan, lib);
    this.rel = 0;
    this.n = {};
    this.rng = new Rng(plan.seed + '/judge');
  }
  vio(kind, detail) {
    this.out.push({ props: ['C15'], kind, detail: detail.slice(0, 600) });
  }
  count(k) {
    this.n[k] = (this.n[k] || 0) + 1;
  }
  conforms(doc, schema, v, where, strict) {
    try {
      return valid(doc, schema, v, { loose: !strict });
    } catch (e) {
      if (!(e instanceof Unresolved)) throw e;
      this.vio('unresolved-reference', `${where}: ${e.message}`);
      return undefined;
    }
  }
  run() {
    for (const g of this.ex.docs.gens) {
      const app = this.ex.apps.find((a) => a.name === g.id);
      if (!g.done) {
        this.vio('generator-hangs', `${g.id} never ended`);
        continue;
      }
      if (g.code !== 0) {
        this.count('documents_refused');
        if (!app.doc.o.wild) this.vio('no-document', `${g.id}: ${g.stderr.split('\n').filter((l) => /ERROR|rror/.test(l)).slice(0, 2).join(' ').slice(0, 300)}`);
        continue;
      }
      let doc;
      try {
        doc = JSON.parse(g.stdout);
      } catch (e) {
        this.vio('no-document', `${g.id}: exit code 0, standard output ${JSON.stringify(g.stdout.slice(0, 100))}`);
        continue;
      }
      this.count('documents_written');
      app.document = doc;
      this.operations(app, doc);
    }
    this.traffic();
    for (const x of this.ex.pinned) this.pinned(x);
    for (const a of this.ex.apps) delete a.document;
    return this.out;
  }
  pinned({ name, p, g }) {
    const bad = (kind, at, detail) => {
      this.vio(kind, `pinned ${name}: ${detail}`);
      this.out[this.out.length - 1].sig = `pinned:${name}:${at}:${kind}`;
    };
    if (!g.done || g.code !== 0) return bad('no-document', 'all', `exit code ${g.code} ${g.stderr.slice(0, 300)}`);
    const doc = JSON.parse(g.stdout);
    for (const k of Object.keys(p.wire)) {
      const [path, method, status] = k.split(' ');
      const s = this.schemaOf(doc.paths[path][method].responses[status] || {});
      let ok = false;
      try {
        ok = valid(doc, s, p.wire[k], {});
      } catch (e) {
        if (!(e instanceof Unresolved)) throw e;
      }
      if (!ok) bad('sent-outside-document', k.replace(/\W+/g, '_').replace(/^_/, ''), `${method} ${path} sends ${JSON.stringify(p.wire[k])}, the document has ${JSON.stringify(s)} with components ${JSON.stringify((doc.components || {}).schemas)}`);
    }
  }
  // what the document lists
  operations(app, doc) {
    const ops = new Map();
    for (const a of app.spec) for (const r of a.routes) {
      const k = `${r.method} ${r.path}`;
      ops.set(k, ops.has(k) ? null : { api: a.api, route: r });
    }
    app.ops = ops;
    const listed = new Set();
    for (const p of Object.keys(doc.paths || {})) for (const m of Object.keys(doc.paths[p])) listed.add(`${m} ${p}`);
    for (const k of ops.keys()) if (!listed.has(k)) this.vio('operation-missing', `${app.name}: ${k} is not in the document`);
    for (const k of listed) if (!ops.has(k)) this.vio('operation-invented', `${app.name}: the document lists ${k}`);
    for (const ref of danglers(doc)) this.vio('unresolved-reference', `${app.name}: ${ref}`);
    for (const [k, op] of ops) {
      if (!op || !listed.has(k)) continue;
      const o = doc.paths[op.route.path][op.route.method];
      const where = `${app.name} ${k}`;
      const want = new Set();
      const sh = shape(op.route.req);
      if (sh.query) {
        want.add('query union');
        const ps = (o.parameters || []).filter((x) => x.in === 'query');
        if (ps.length !== 1 || ps[0].name !== 'union' || !ps[0].required || !ps[0].explode) this.vio('parameter-missing', `${where}: the alternatives of the query are listed as ${JSON.stringify(ps).slice(0, 200)}`);
      }
      for (const g of Object.keys(IN)) {
        const props = sh.groups[g] || {};
        for (const name of Object.keys(props)) {
          want.add(IN[g] + ' ' + name);
          const ps = (o.parameters || []).filter((x) => x.in === IN[g] && x.name === name);
          if (ps.length !== 1) this.vio('parameter-missing', `${where}: ${IN[g]} parameter ${name} is listed ${ps.length} times`);
          else if (!!ps[0].required !== (props[name].k !== 'opt')) this.vio('parameter-required', `${where}: ${IN[g]} parameter ${name} is ${props[name].k === 'opt' ? 'optional' : 'required'}, the document says required: ${ps[0].required}`);
        }
      }
      for (const p of o.parameters || []) if (!want.has(p.in + ' ' + p.name)) this.vio('parameter-invented', `${where}: the document lists the ${p.in} parameter ${p.name}`);
      if (!!sh.body !== !!o.requestBody) this.vio('body-missing', `${where}: ${o.requestBody ? 'an invented' : 'no'} request body`);
      const sts = Object.keys(op.route.response).map((s) => String(STATUS_OF[s] || s)).sort();
      const got = Object.keys(o.responses || {}).sort();
      if (sts.join() !== got.join()) this.vio('responses-differ', `${where}: responses ${sts.join(' ')}, in the document ${got.join(' ')}`);
    }
  }
  opOf(app, api, method) {
    if (!app || !app.document) return null;
    for (const [, op] of app.ops) if (op && op.api === api && op.route.method === method) {
      const o = (app.document.paths[op.route.path] || {})[method];
      return o ? { doc: app.document, o, route: op.route, where: `${app.name} ${method} ${op.route.path}` } : null;
    }
    return null;
  }
  schemaOf(x) {
    return x && x.content && x.content['application/json'] && x.content['application/json'].schema;
  }
  paramsOf(route, url) {
    const path = R.pathnameOf(url);
    const m = R.matchPath(R.compileSpecPath(route.path), path);
    return m && m.params ? m.params : null;
  }
  traffic() {
    const apps = new Map(this.ex.apps.map((a) => [a.name, a]));
    const parts = new Map();
    const started = new Map();
    const ends = new Map();
    const ended = new Map();
    const errored = new Set();
    const other = new Set();
    const reqs = new Map();
    for (const e of this.ex.traffic.events) {
      if (e.rq === undefined) continue;
      if (e.k === 'req') reqs.set(e.rq, e);
      if (e.k === 'parts') parts.set(e.rq, e);
      if (e.k === 'handler.start' || e.k === 'mw.start' || e.k === 'pre.start') started.set(e.rq, e);
      if (e.k === 'handler.end' && e.act === 'return') ends.set(e.rq, e);
      if (e.k === 'sent') ends.set(e.rq, e);
      if (e.k === 'res.end') ended.set(e.rq, e);
      if (e.k === 'express.error') errored.add(e.rq);
      if (e.k === 'plain' || e.k === 'fallthrough' || e.k === 'plainSend') other.add(e.rq);
    }
    for (const [rq, p] of parts) {
      const app = apps.get(p.app);
      if (!app || !app.document) continue;
      const st = started.get(rq);
      const res = ended.get(rq);
      if (st && st.api !== undefined) {
        const op = this.opOf(app, st.api, st.method);
        if (op) this.accepted(op, p);
        const e = ends.get(rq);
        if (op && e && e.api === st.api && res && !errored.has(rq) && p.method !== 'HEAD' && this.proper(op, e)) this.response(op, res);
      } else if (!st && res && res.status === 400 && !errored.has(rq) && !other.has(rq)) this.refused(app, p);
    }
  }
  // did the handler hand over a response that its route declares?
  proper(op, e) {
    const sc = this.model.script(e.call, e.attempt);
    const h = sc.hs ? sc.hs.find((x) => x.status !== undefined) : sc.h;
    if (!h || h.status === undefined) return false;
    const key = Number(h.status) || h.status;
    return this.model.send(op.route, key, hydrate(h.payload)).ok;
  }
  inner(app, p) {
    const um = R.underMount(app.mount2, R.pathnameOf(p.url));
    return um && um.rest;
  }
  groups(route, p, rest) {
    const m = R.matchPath(R.compileSpecPath(route.path), rest);
    if (!m || !m.params) return null;
    return { params: m.params, query: hydrate(p.query), headers: hydrate(p.headers), body: hydrate(p.body) };
  }
  accepted(op, p) {
    this.rel++;
    const app = this.ex.apps.find((a) => a.name === p.app);
    const rest = this.inner(app, p);
    const nested = rest && this.groups(op.route, p, rest);
    if (!nested) return; // under another path that the router knows it by
    const what = `${p.call || ''} ${p.method} ${p.url}`;
    const sh = shape(op.route.req);
    for (const g of Object.keys(IN)) {
      const grp = nested[g] || {};
      for (const q of op.o.parameters || []) {
        if (q.in !== IN[g]) continue;
        if (sh.query && g === 'query') {
          this.count('query_alternatives_compared');
          if (this.conforms(op.doc, q.schema, grp, `${op.where} query`) === false) this.vio('accepted-outside-document', `${op.where}: ${what} was accepted, the document has ${JSON.stringify(q.schema)} for the query`);
          for (let i = 0; i < 3; i++) {
            const w = { ...grp };
            const k = this.rng.pick([...Object.keys(w), 'kind']);
            if (this.rng.chance(0.5)) delete w[k];
            else w[k] = this.rng.pick(['one', 'two', 'three', 'junk', '']);
            const d = { k: 'union', of: sh.query.map((props) => ({ k: 'optz', props })) };
            if (this.model.codec(d).decode(w)._tag === 'Right' ? this.conforms(op.doc, q.schema, w, `${op.where} query`) === false : exact(d) && this.conforms(op.doc, q.schema, w, `${op.where} query`, true)) this.vio('query-alternatives-differ', `${op.where}: query ${JSON.stringify(w)}, the document has ${JSON.stringify(q.schema)}`);
          }
          continue;
        }
        const v = grp[q.name];
        if (v === undefined) {
          if (q.required) this.vio('accepted-without-required', `${op.where}: ${what} was accepted without the ${q.in} parameter ${q.name} that the document requires`);
          continue;
        }
        this.count('parameters_of_accepted_requests_compared');
        if (this.conforms(op.doc, q.schema, v, `${op.where} ${q.in} ${q.name}`) === false) this.vio('accepted-outside-document', `${op.where}: ${what} was accepted with ${q.in} parameter ${q.name} = ${JSON.stringify(v)}, the document has ${JSON.stringify(q.schema)}`);
      }
    }
    const s = this.schemaOf(op.o.requestBody);
    if (op.o.requestBody) {
      const v = nested.body === undefined && op.route.req.k !== 'bodyreq' ? {} : nested.body;
      if (v === undefined || !sh.body) return;
      this.count('bodies_of_accepted_requests_compared');
      if (this.conforms(op.doc, s, v, op.where + ' body') === false) this.vio('accepted-outside-document', `${op.where}: ${what} was accepted with body ${JSON.stringify(v)}, the document has ${JSON.stringify(s)}`);
      this.near(op, s, sh.body, v, 'request body', true);
    }
  }
  // neighbours of a value seen: what the codec refuses, the document must not allow (and the other way round)
  near(op, schema, d, v, what, both) {
    const codec = this.model.codec(d);
    const ok = exact(d);
    for (let i = 0; i < 4; i++) {
      const w = C.mutateJson(v, this.rng);
      if (w === undefined) continue;
      const j = JSON.parse(JSON.stringify(w));
      const right = codec.decode(j)._tag === 'Right';
      if (right && both && this.conforms(op.doc, schema, j, op.where + ' ' + what) === false) this.vio('acceptable-outside-document', `${op.where}: the codec of the ${what} takes ${JSON.stringify(j)}, the document has ${JSON.stringify(schema)}`);
      if (!right && ok) {
        this.count('values_refused_by_codec_compared');
        if (this.conforms(op.doc, schema, j, op.where + ' ' + what, true)) this.vio('document-allows-more', `${op.where}: the codec of the ${what} refuses ${JSON.stringify(j)}, the document has ${JSON.stringify(schema)}`);
      }
    }
  }
  response(op, res) {
    if (!/^application\/json/.test(res.type) || res.status === 304) return;
    const s = (op.o.responses || {})[res.status];
    if (!s) return void this.vio('status-missing', `${op.where}: answered with ${res.status}, which the document does not list`);
    let v;
    try {
      v = JSON.parse(res.body);
    } catch (_) {
      return;
    }
    this.count('responses_compared');
    const schema = this.schemaOf(s);
    if (this.conforms(op.doc, schema, v, `${op.where} response ${res.status}`) === false) this.vio('sent-outside-document', `${op.where}: answered with ${res.status} ${res.body.slice(0, 200)}, the document has ${JSON.stringify(schema)}`);
    const key = Object.keys(op.route.response).find((k) => String(STATUS_OF[k] || k) === String(res.status));
    if (key) this.near(op, schema, op.route.response[key], v, `response ${res.status}`, false);
  }
  refused(app, p) {
    const rest = this.inner(app, p);
    if (!rest) return;
    const hit = this.model.layers(app.name).filter((L) => L.kind === 'route' && !L.alias && L.method === (p.method === 'HEAD' ? 'GET' : p.method) && R.matchPath(L.match, rest));
    if (hit.length !== 1) return;
    const op = this.opOf(app, hit[0].api, hit[0].route.method);
    const nested = op && this.groups(op.route, p, rest);
    if (!nested) return;
    this.rel++;
    const what = `${p.call || ''} ${p.method} ${p.url}`;
    if (op.route.req.k === 'bodyreq' && nested.body !== undefined && this.model.codec(op.route.req.body).decode(nested.body)._tag === 'Left' && exact(op.route.req.body)) {
      this.count('refused_values_compared');
      if (this.conforms(op.doc, this.schemaOf(op.o.requestBody), nested.body, op.where + ' body', true)) this.vio('refused-inside-document', `${op.where}: ${what} was refused for body ${JSON.stringify(nested.body)}, which the document allows`);
    }
    if (op.route.req.k === 'unionreq') return; // which alternative was meant is anyone's guess
    for (const g of Object.keys(op.route.req.groups)) {
      const props = op.route.req.groups[g];
      const grp = nested[g];
      for (const name of Object.keys(props)) {
        const v = grp && typeof grp === 'object' ? grp[name] : undefined;
        if (this.model.codec(props[name]).decode(v)._tag === 'Right') continue;
        if (v !== undefined && !exact(props[name])) continue;
        this.count('refused_values_compared');
        if (g === 'body') {
          if (!grp || typeof grp !== 'object' || Array.isArray(grp)) continue;
          if (this.conforms(op.doc, this.schemaOf(op.o.requestBody), v === undefined ? {} : { ...this.sample(props), [name]: v }, op.where + ' body', v !== undefined)) {
            if (v === undefined || exact({ k: 'optz', props })) this.vio('refused-inside-document', `${op.where}: ${what} was refused for body ${JSON.stringify(grp)}, which the document allows (property ${name})`);
          }
        } else {
          const q = (op.o.parameters || []).find((x) => x.in === IN[g] && x.name === name);
          if (!q) continue;
          const allows = v === undefined ? !q.required : this.conforms(op.doc, q.schema, v, op.where + ' ' + name, true);
          if (allows) this.vio('refused-inside-document', `${op.where}: ${what} was refused for ${q.in} parameter ${name} = ${JSON.stringify(v)}, which the document allows: ${JSON.stringify(q.schema)}`);
        }
      }
    }
  }
  // a body that the codecs take, as a surrounding for one property
  sample(props) {
    const out = {};
    const d = { k: 'optz', props };
    const v = C.genValue(d, this.rng, { nonce: 's', depth: 2 });
    const w = JSON.parse(JSON.stringify(this.model.codec(d).encode(v)));
    Object.assign(out, w);
    return out;
  }
}

async function evaluate(plan, cfg) {
  const ex = await execute(plan, cfg);
  const j = new Judge(plan, ex);
  const violations = j.run();
  return { violations, digest: `${ex.docs.digest}/${ex.traffic.digest}`, stats: stats(plan, ex, j), detail: () => history(plan, ex) };
}

function stats(plan, ex, j) {
  const s = http.statsOf(plan, ex.traffic);
  for (const k of Object.keys(ex.docs.counts)) s.faults[k] = (s.faults[k] || 0) + ex.docs.counts[k];
  for (const k of Object.keys(j.n)) s.probes[k] = (s.probes[k] || 0) + j.n[k];
  s.relevant = { C15: j.rel };
  s.simTime += ex.docs.simTime;
  s.steps += ex.docs.steps;
  return s;
}

function describe(plan) {
  const out = [];
  for (const sp of plan.servers) for (const a of sp.apps) out.push(`sources of ${a.name}: printed from ${a.doc.seed} with ${JSON.stringify(a.doc.o)}`);
  out.push(`generator: file latency ${JSON.stringify(plan.gen.lat)}, starts ${plan.gen.at} ms apart, parser position counter ${plan.gen.base}`);
  return [...out, ...http.describe(plan)];
}
function history(plan, ex) {
  const out = [...describe(plan)];
  for (const [, s] of ex.src) for (const f of Object.keys(s.files)) out.push(`--- ${f}`, ...s.files[f].split('\n'));
  for (const g of ex.docs.gens) out.push(`--- document of ${g.id} (exit ${g.code})`, ...(g.stdout || g.stderr).split('\n'));
  out.push('--- traffic', ...ex.traffic.events.map((e) => JSON.stringify(e).slice(0, 500)));
  return out;
}

const PLAIN = { modules: [0, 0], pkg: 0, comments: 0, hoist: 0, propsConst: 0, group: 0, spread: 0, computed: 0, rename: 0, barrel: 0, namespace: 0, consts: 0, dflt: 0, noise: 0, fn: 0, member: 0, brand: 0, assign: 0, shorthand: 0 };
function* reductions(plan) {
  yield* http.reductions(plan);
  yield (q) => {
    if (q.gen.base === 1 && !q.gen.at && !q.gen.lat.jit && !q.gen.lat.min) return false;
    q.gen = { base: 1, at: 0, lat: { min: 0, jit: 0 } };
  };
  for (let s = 0; s < plan.servers.length; s++)
    for (let a = 0; a < plan.servers[s].apps.length; a++)
      for (const k of Object.keys(PLAIN))
        yield (q) => {
          const app = q.servers[s] && q.servers[s].apps[a];
          if (!app || JSON.stringify(app.doc.o[k]) === JSON.stringify(PLAIN[k])) return false;
          app.doc.o[k] = PLAIN[k];
        };
  for (let s = 0; s < plan.servers.length; s++)
    for (let a = 0; a < plan.servers[s].apps.length; a++)
      for (let n = 0; n < 12; n++)
        yield (q) => {
          const app = q.servers[s] && q.servers[s].apps[a];
          if (!app || app.doc.tries > 24) return false;
          app.doc.seed += '\'';
          app.doc.tries = (app.doc.tries || 0) + 1;
        };
}

const components = {
  real: ['packages/openapi-generator/src, the command line program included', 'packages/io-ts-http, superagent-wrapper, response, express-wrapper and typed-express-router (compiled from the working tree)', 'the API sources themselves: transpiled by typescript and run by the servers and clients, read by the generator', ...http.components.real.filter((x) => !/^packages/.test(x))],
  stub: ['fs, process and console of the generator: simulated', ...http.components.stub],
};
const assumptions = [
  'the document is read with the conventions of the generator: null as {nullable, enum: []}, oneOf as alternatives, formats and titles as annotations, string-carried booleans as boolean',
  'what a document says too generously is judged only for types that JSON schema can express exactly',
  'the specs use the codecs of io-ts, io-ts-types and io-ts-http that the generator knows; a project it refuses with an error is not judged unless written in the plain style of the documentation',
];

module.exports = { init, gen, evaluate, describe, reductions, components, assumptions, execute, print };
