'use strict';
// Codec descriptors: random generation, construction against a codec library, value generation, mutation.
// A descriptor is plain JSON so plans can be replayed from a file.
const { canon } = require('./value');

// ---------------------------------------------------------------- libraries

// Independent model of the api-ts combinators, on top of plain io-ts (which is a dependency, not code under test).
function referenceH(t) {
  const optional = (c) => t.union([c, t.undefined]);
  const split = (props) => {
    const req = {};
    const opt = {};
    for (const k of Object.keys(props)) (props[k].is(undefined) ? opt : req)[k] = props[k];
    return { req, opt };
  };
  const isRecord = (u) => t.type({}).is(u);
  const optionalized = (props, name) => {
    const { req, opt } = split(props);
    const optC = t.partial(opt);
    const clean = (o) => {
      if (o === undefined || o === null) return o;
      const r = { ...o };
      for (const k of Object.keys(r)) if (r[k] === undefined) delete r[k];
      return r;
    };
    const part = new t.PartialType(
      name || 'partial',
      (u) => optC.is(u),
      (u, ctx) => {
        const v = optC.validate(u, ctx);
        return v._tag === 'Left' ? v : t.success(clean(v.right));
      },
      (a) => clean(optC.encode(a)),
      opt,
    );
    return t.intersection([t.type(req), part]);
  };
  const httpRequest = (groups) => {
    const all = { query: {}, params: {}, ...groups };
    return new t.Type(
      'httpRequest',
      (u) => {
        if (!isRecord(u)) return false;
        for (const g of Object.keys(all)) if (!optionalized(all[g]).is(u)) return false;
        return true;
      },
      (u, ctx) => {
        if (!isRecord(u)) return t.failure(u, ctx);
        const out = {};
        for (const g of Object.keys(all)) {
          const grp = u[g];
          if (!isRecord(grp)) return t.failure(grp, ctx);
          for (const k of Object.keys(all[g])) {
            const codec = all[g][k];
            const d = codec.decode(grp[k]);
            if (d._tag === 'Left') {
              if (codec.is(undefined) && grp[k] === undefined) continue;
              return t.failure(grp[k], ctx);
            }
            if (d.right === undefined && codec.is(undefined)) continue;
            out[k] = d.right;
          }
        }
        return t.success(out);
      },
      (a) => {
        const nested = {};
        for (const g of Object.keys(all)) {
          nested[g] = {};
          for (const k of Object.keys(all[g]))
            if (Object.prototype.hasOwnProperty.call(a, k)) nested[g][k] = all[g][k].encode(a[k]);
        }
        return nested;
      },
    );
  };
  return { optional, optionalized, httpRequest };
}

// ---------------------------------------------------------------- building

function build(d, L) {
  const { t, tt, h } = L;
  switch (d.k) {
    case 'str':
      return t.string;
    case 'num':
      return t.number;
    case 'bool':
      return t.boolean;
    case 'nul':
      return t.null;
    case 'json':
      return tt.Json;
    case 'unk':
      return t.unknown;
    case 'ne':
      return tt.NonEmptyString;
    case 'numStr':
      return tt.NumberFromString;
    case 'intStr':
      return tt.IntFromString;
    case 'boolStr':
      return tt.BooleanFromString;
    case 'bigStr':
      return tt.BigIntFromString;
    case 'dateISO':
      return tt.DateFromISOString;
    case 'dateNum':
      return tt.DateFromNumber;
    case 'uuid':
      return tt.UUID;
    case 'int':
      return t.Int;
    case 'lit':
      return t.literal(d.v);
    case 'keyof': {
      const o = {};
      for (const v of d.vs) o[v] = 1;
      return t.keyof(o);
    }
    case 'arr':
      return t.array(build(d.of, L));
    case 'roarr':
      return t.readonlyArray(build(d.of, L));
    case 'nea':
      return tt.nonEmptyArray(build(d.of, L));
    case 'rec':
      return t.record(t.string, build(d.of, L));
    case 'reck': {
      const o = {};
      for (const v of d.vs) o[v] = 1;
      return t.record(t.keyof(o), build(d.of, L));
    }
    case 'rnea':
      return tt.readonlyNonEmptyArray(build(d.of, L));
    case 'dateUnix':
      return tt.DateFromUnixTime;
    case 'urec':
      return t.UnknownRecord;
    case 'tup':
      return t.tuple(d.of.map((x) => build(x, L)));
    case 'type':
      return t.type(buildProps(d.props, L));
    case 'strict':
      return t.strict(buildProps(d.props, L));
    case 'partial':
      return t.partial(buildProps(d.props, L));
    case 'optz':
      return h.optionalized(buildProps(d.props, L));
    case 'xoptz':
      return t.exact(h.optionalized(buildProps(d.props, L)));
    case 'inter':
      return t.intersection(d.of.map((x) => build(x, L)));
    case 'union':
      return t.union(d.of.map((x) => build(x, L)));
    case 'opt':
      return h.optional(build(d.of, L));
    case 'tree': {
      const T = t.recursion('tree', () => t.type({ v: build(d.of, L), kids: t.array(T) }));
      return T;
    }
    case 'brk': // a codec whose wire form differs from its value
      return new t.Type(
        'brk',
        (u) => typeof u === 'string',
        (u, c) => (typeof u === 'string' && /^<[^]*>$/.test(u) ? t.success(u.slice(1, -1)) : t.failure(u, c)),
        (a) => `<${a}>`,
      );
    case 'big': // integers of any size; the encoded form is the bigint itself
      return new t.Type(
        'big',
        (u) => typeof u === 'bigint',
        (u, c) => (typeof u === 'bigint' || (typeof u === 'string' && /^-?\d+$/.test(u)) || Number.isSafeInteger(u) ? t.success(BigInt(u)) : t.failure(u, c)),
        (a) => a,
      );
    case 'jsonStr': {
      // a structured value carried in one string
      const inner = build(d.of, L);
      return new t.Type(
        'jsonStr',
        inner.is,
        (u, c) => {
          if (typeof u !== 'string') return t.failure(u, c);
          let v;
          try {
            v = JSON.parse(u);
          } catch (_) {
            return t.failure(u, c);
          }
          return inner.validate(v, c);
        },
        (a) => JSON.stringify(inner.encode(a)),
      );
    }
    case 'boom': {
      // a codec that throws on marked values (decode or encode side)
      const inner = build(d.of, L);
      return new t.Type(
        'boom',
        inner.is,
        (u, c) => {
          if (d.side === 'decode' && u === d.mark) throw new Error('boom decode');
          return inner.validate(u, c);
        },
        (a) => {
          if (d.side === 'encode' && typeof a === 'string' && a.startsWith(d.mark)) throw new Error(`boom encode ${a}`);
          return inner.encode(a);
        },
      );
    }
    case 'req': {
      const groups = {};
      for (const g of Object.keys(d.groups)) groups[g] = buildProps(d.groups[g], L);
      return h.httpRequest(L.track ? L.track(groups) : groups);
    }
    case 'rawreq': {
      // a hand-written request codec whose body is the encoding of the property `payload` itself
      const body = build(d.body, L);
      const rest = h.httpRequest({ params: buildProps(d.groups.params || {}, L), query: buildProps(d.groups.query || {}, L) });
      return new t.Type(
        'rawreq',
        (u) => rest.is(u) && body.is(u.payload),
        (u, c) => {
          const r = rest.validate(u, c);
          if (r._tag === 'Left') return r;
          const b = body.validate(u.body, c);
          if (b._tag === 'Left') return b;
          return t.success({ ...r.right, payload: b.right });
        },
        (a) => ({ ...rest.encode(a), body: body.encode(a.payload) }),
      );
    }
    case 'bodyreq':
      return t.intersection([build({ k: 'req', groups: d.groups }, L), t.type({ body: build(d.body, L) })]);
    case 'unionreq':
      return t.union(d.of.map((x) => build(x, L)));
    case 'interreq':
      return t.intersection(d.of.map((x) => build(x, L)));
    default:
      throw new Error('unknown descriptor ' + d.k);
  }
}
function buildProps(props, L) {
  const o = {};
  for (const k of Object.keys(props)) o[k] = build(props[k], L);
  return L.track ? L.track(o) : o;
}

// ---------------------------------------------------------------- random strings and values

const ALPHA = 'abcdefghijklmnopqrstuvwxyzABCXYZ0123456789';
const RESERVED = ['/', '?', '#', '%', '&', '=', '+', ';', ':', '@', '$', ',', ' ', '"', "'", '<', '>', '[', ']', '{', '}', '|', '\\', '^', '`', '~', '!', '*', '(', ')', '-', '_', '.'];
const TRICKY = [
  '$&', '$1', '$$', "$'", '$`', '%2F', '%41', '%', '%zz', '%25', '..', '../..', '.', './x', '//', 'a/b', '/lead', 'trail/', '?q=1', '#frag', 'a b', ' lead', 'trail ', '\t', '\n', '\r\n', '\u0000', 'é', 'ÿ', 'ключ', '日本', '\u{1F600}', '\u2028', '\u00a0', '{id}', '{name}', ':id', '*', '(.*)', 'null', 'undefined', 'true', 'false', '0', '-1', '1e3', 'NaN', '[object Object]', '__proto__x', 'constructor', 'a=b&c=d', 'a[]=1', 'a[0]', '"quoted"', "it's", '<b>', '&amp;', '\\', '\\u0041', '',
];

function ascii(rng, n) {
  let s = '';
  for (let i = 0; i < n; i++) s += ALPHA[rng.int(ALPHA.length)];
  return s;
}
function genString(rng, { nonce = '', ctx = 'json' } = {}) {
  let s;
  const r = rng.float();
  if (r < 0.3) s = ascii(rng, rng.range(1, 8));
  else if (r < 0.6) s = rng.pick(TRICKY);
  else if (r < 0.8) {
    s = '';
    const n = rng.range(1, 6);
    for (let i = 0; i < n; i++) s += rng.chance(0.5) ? rng.pick(RESERVED) : ALPHA[rng.int(ALPHA.length)];
  } else if (r < 0.9) s = rng.pick(TRICKY) + rng.pick(TRICKY);
  else if (r < 0.93 && ctx === 'json') s = ascii(rng, 3) + rng.pick(['é', 'x', '\u{1F680}', '☃', '"\\']).repeat(rng.range(200, 3000));
  else if (r < 0.94 && ctx === 'json') s = 'lone\ud800end';
  else s = ascii(rng, rng.range(9, 60));
  if (nonce && rng.chance(0.6)) s += (ctx === 'json' || rng.chance(0.5) ? '' : '~') + nonce;
  if (ctx === 'param') {
    if (s === '' || s === '.' || s === '..') s += nonce || 'x';
    s = s.replace(/[\ud800-\udfff]/g, (c, i, str) => (/[\ud800-\udbff][\udc00-\udfff]/.test(str.slice(Math.max(0, i - 1), i + 2)) ? c : 'x'));
  } else if (ctx === 'query') {
    s = s.replace(/\ud800e/g, 'e');
  } else if (ctx === 'header') {
    s = s.replace(/[^\x20-\x7e]/g, '_').trim();
  }
  return s;
}
function genNumber(rng) {
  const r = rng.float();
  if (r < 0.2) return rng.pick([0, 1, -1, 0.5, 1e21, 1e-7, 123456789.125, 2 ** 53, -(2 ** 53), 5e-324, 1.7976931348623157e308, 42]);
  if (r < 0.6) return rng.range(-1000, 1000);
  return (rng.float() - 0.5) * 10 ** rng.range(0, 12);
}
function genJson(rng, depth, nonce) {
  const r = rng.float();
  if (depth <= 0 || r < 0.55)
    return rng.pick([null, true, false, 0, '', genNumber(rng), genString(rng, { nonce }), genString(rng, { nonce })]);
  if (r < 0.75) return Array.from({ length: rng.int(4) }, () => genJson(rng, depth - 1, nonce));
  const o = {};
  const n = rng.int(4);
  for (let i = 0; i < n; i++) o[rng.pick(PROP_NAMES)] = genJson(rng, depth - 1, nonce);
  return o;
}
function genDate(rng) {
  return new Date(rng.pick([0, 1, -1, 1700000000000, 951782400000, 253402300799999, -62135596800000]) + rng.range(0, 1) * rng.range(0, 86400000));
}

const PROP_NAMES = ['a', 'b', 'c', 'id', 'name', 'type', 'value', 'status', 'payload', 'body', 'query', 'params', 'headers', 'x-y', 'a.b', 'two words', 'ключ', '1', '0', 'length', 'error', 'decoded', 'message', 'next', 'req', 'data', '$x', 'camelCase', 'UPPER', 'dup'];
const PARAM_NAMES = ['id', 'name', 'p1', 'p2', 'key', 'ver', 'x_1', 'idd', 'i', 'path', 'method', 'length', '_id', 'Id', '2fa', 'NAME', '__x'];
const QUERY_NAMES = ['q', 'limit', 'a.b', 'x-y', 'page', 'sort', 'id2', 'from', 'to', 'tag', 'Filter', '0', 'type2', 'two words', 'ключ2'];
const HEADER_NAMES = ['x-h1', 'x-h2', 'x-trace', 'authorization', 'x-api-key', 'accept-language', 'if-match', 'x-empty', 'user-agent', 'idempotency-key', 'x-request-id', 'origin', 'x-forwarded-for', 'cookie'];

function genValue(d, rng, o) {
  // o: {nonce, ctx, depth, undef: probability of an explicit undefined}
  const ctx = o.ctx || 'json';
  switch (d.k) {
    case 'str':
      return genString(rng, { nonce: o.nonce, ctx });
    case 'ne': {
      const s = genString(rng, { nonce: o.nonce, ctx });
      return s === '' ? 'x' + o.nonce : s;
    }
    case 'num':
      return genNumber(rng);
    case 'numStr':
      return genNumber(rng);
    case 'int':
    case 'intStr':
      return rng.pick([0, 1, -1, rng.range(-100000, 100000), 2 ** 40]);
    case 'bool':
    case 'boolStr':
      return rng.chance(0.5);
    case 'nul':
      return null;
    case 'json':
      return genJson(rng, 3, o.nonce);
    case 'unk':
      return genJson(rng, 2, o.nonce);
    case 'big':
    case 'bigStr':
      return BigInt(rng.pick(['0', '-1', '12345678901234567890123', '9007199254740993', String(rng.range(-1e6, 1e6))]));
    case 'dateISO':
    case 'dateNum':
      return genDate(rng);
    case 'uuid': {
      const hx = () => '0123456789abcdef'[rng.int(16)];
      return 'xxxxxxxx-xxxx-4xxx-8xxx-xxxxxxxxxxxx'.replace(/x/g, hx);
    }
    case 'lit':
      return d.v;
    case 'keyof':
      return rng.pick(d.vs);
    case 'arr':
    case 'roarr': {
      const n = ctx === 'query' ? (rng.chance(0.05) ? rng.range(6, 20) : rng.range(2, 5)) : rng.weighted([[2, 0], [3, 1], [3, 2], [2, 5], [0.2, 40]]);
      return Array.from({ length: n }, () => genValue(d.of, rng, { ...o, depth: o.depth - 1 }));
    }
    case 'reck': {
      const r = {};
      for (const v of d.vs) r[v] = genValue(d.of, rng, { ...o, depth: o.depth - 1 });
      return r;
    }
    case 'dateUnix':
      return new Date(Math.floor(genDate(rng).getTime() / 1000) * 1000);
    case 'urec': {
      const r = {};
      for (let i = rng.int(3); i > 0; i--) r[rng.pick(PROP_NAMES)] = genJson(rng, 2, o.nonce);
      return r;
    }
    case 'rnea':
    case 'nea':
      return Array.from({ length: rng.range(ctx === 'query' ? 2 : 1, 4) }, () => genValue(d.of, rng, { ...o, depth: o.depth - 1 }));
    case 'rec': {
      const r = {};
      const n = rng.int(5);
      for (let i = 0; i < n; i++) r[rng.chance(0.5) ? rng.pick(PROP_NAMES) : genString(rng, { nonce: o.nonce }).slice(0, 40).replace(/__proto__/g, 'p')] = genValue(d.of, rng, { ...o, depth: o.depth - 1 });
      return r;
    }
    case 'tup':
      return d.of.map((x) => genValue(x, rng, o));
    case 'type':
    case 'strict':
    case 'optz':
    case 'xoptz':
    case 'partial': {
      const r = {};
      for (const k of Object.keys(d.props)) {
        const p = d.props[k];
        if (p.k === 'opt' || d.k === 'partial') {
          if (rng.chance(0.35)) {
            // io-ts: a `type` accepts a missing key when decoding but its guard wants the key to be there
            if (d.k === 'type' || d.k === 'strict') r[k] = undefined;
            continue;
          }
          if (rng.chance(o.undef || 0)) {
            r[k] = undefined;
            continue;
          }
          r[k] = genValue(p.k === 'opt' ? p.of : p, rng, o);
        } else r[k] = genValue(p, rng, o);
      }
      return r;
    }
    case 'inter':
      return Object.assign({}, ...d.of.map((x) => genValue(x, rng, o)));
    case 'union':
      return genValue(rng.pick(d.of), rng, o);
    case 'opt':
      return rng.chance(0.4) ? undefined : genValue(d.of, rng, o);
    case 'tree': {
      const mk = (dep) => ({ v: genValue(d.of, rng, o), kids: dep <= 0 ? [] : Array.from({ length: rng.int(3) }, () => mk(dep - 1)) });
      return mk(rng.int(4));
    }
    case 'brk':
      return genString(rng, { nonce: o.nonce, ctx: ctx });
    case 'jsonStr':
      return genValue(d.of, rng, { ...o, ctx: ctx === 'header' ? 'header' : ctx });
    case 'boom':
      return genValue(d.of, rng, o);
    case 'req': {
      const r = {};
      for (const g of Object.keys(d.groups)) {
        const c = g === 'params' ? 'param' : g === 'query' ? 'query' : g === 'headers' ? 'header' : 'json';
        for (const k of Object.keys(d.groups[g])) {
          if (Object.prototype.hasOwnProperty.call(r, k)) continue;
          const p = d.groups[g][k];
          if (p.k === 'opt') {
            if (rng.chance(0.35)) continue;
            if (rng.chance(o.undef || 0)) {
              r[k] = undefined;
              continue;
            }
            r[k] = genValue(p.of, rng, { ...o, ctx: c });
          } else r[k] = genValue(p, rng, { ...o, ctx: c });
        }
      }
      return r;
    }
    case 'rawreq':
      return { ...genValue({ k: 'req', groups: d.groups }, rng, o), payload: genValue(d.body, rng, o) };
    case 'bodyreq':
      return { ...genValue({ k: 'req', groups: d.groups }, rng, o), body: genValue(d.body, rng, o) };
    case 'unionreq':
      return genValue(rng.pick(d.of), rng, o);
    case 'interreq':
      return Object.assign({}, ...d.of.map((x) => genValue(x, rng, o)));
    default:
      throw new Error('gen ' + d.k);
  }
}

// ---------------------------------------------------------------- random descriptors

const STR_KINDS = ['str', 'str', 'str', 'ne', 'numStr', 'numStr', 'intStr', 'boolStr', 'bigStr', 'dateISO', 'uuid', 'brk'];

// What may be generated: everything, or only what the documentation generator is told about ('doc').
let dialect = null;
const setDialect = (d) => (dialect = d);
const DOC_STR_KINDS = STR_KINDS.filter((k) => k !== 'brk');

function genStringDesc(rng, ctx) {
  const r = rng.float();
  if (r < 0.06) return { k: 'lit', v: ascii(rng, 3) };
  if (r < 0.14) return { k: 'keyof', vs: ['asc', 'desc', 'a b', 'x/y'].slice(0, rng.range(2, ctx === 'header' ? 3 : 4)) };
  if (dialect === 'doc') return { k: rng.pick(DOC_STR_KINDS) };
  if (r < 0.19 && ctx !== 'header') return { k: 'jsonStr', of: { k: 'type', props: { a: { k: 'num' }, b: { k: 'str' } } } };
  return { k: rng.pick(STR_KINDS) };
}
function genQueryDesc(rng) {
  if (rng.chance(0.25)) return { k: rng.pick(['arr', 'arr', 'roarr', 'nea']), of: rng.pick([{ k: 'str' }, { k: 'numStr' }, { k: 'keyof', vs: ['asc', 'desc'] }, { k: 'dateISO' }]) };
  return genStringDesc(rng, 'query');
}
const LEAVES = ['str', 'str', 'num', 'num', 'bool', 'nul', 'json', 'unk', 'ne', 'numStr', 'intStr', 'boolStr', 'bigStr', 'dateISO', 'dateNum', 'uuid', 'int', 'brk'];
const DOC_LEAVES = [...LEAVES.filter((k) => !['json', 'unk', 'int', 'brk'].includes(k)), 'dateUnix', 'urec'];

function genJsonDesc(rng, depth) {
  if (depth <= 0 || rng.chance(0.4)) {
    const r = rng.float();
    if (r < 0.06) return { k: 'lit', v: rng.pick([ascii(rng, 3), 7, true, false, 0, '']) };
    if (r < 0.12) return { k: 'keyof', vs: ['on', 'off', 'a b'] };
    return { k: rng.pick(dialect === 'doc' ? DOC_LEAVES : LEAVES) };
  }
  const sub = () => genJsonDesc(rng, depth - 1);
  switch (rng.weighted([[4, 'obj'], [2, 'arr'], [1, 'rec'], [dialect === 'doc' ? 0 : 1, 'tup'], [1.5, 'union'], [0.6, 'inter'], [dialect === 'doc' ? 0 : 0.4, 'tree'], [1, 'nullable']])) {
    case 'obj':
      return genObjDesc(rng, depth - 1);
    case 'arr':
      return { k: rng.pick(dialect === 'doc' ? ['arr', 'arr', 'roarr', 'nea', 'rnea'] : ['arr', 'arr', 'roarr', 'nea']), of: sub() };
    case 'rec':
      if (dialect === 'doc' && rng.chance(0.4)) return { k: 'reck', vs: rng.shuffle(['on', 'off', 'a b', 'x']).slice(0, rng.range(2, 3)), of: sub() };
      return { k: 'rec', of: sub() };
    case 'tup':
      return { k: 'tup', of: Array.from({ length: rng.range(1, 3) }, sub) };
    case 'union':
      return genUnionDesc(rng, depth - 1);
    case 'inter': {
      const names = rng.shuffle(PROP_NAMES);
      return { k: 'inter', of: [0, 1].map((i) => genObjDesc(rng, depth - 1, names.slice(i * 6, i * 6 + 6), ['type', 'partial', 'optz'])) };
    }
    case 'tree':
      return { k: 'tree', of: { k: rng.pick(['str', 'num', 'dateISO']) } };
    default: {
      const s = sub();
      return { k: 'union', of: rng.chance(0.5) ? [s, { k: 'nul' }] : [{ k: 'nul' }, s] };
    }
  }
}
function genObjDesc(rng, depth, names = PROP_NAMES, kinds = ['type', 'type', 'strict', 'optz', 'optz', 'xoptz', 'partial']) {
  const k = rng.pick(kinds);
  const props = {};
  const n = rng.int(5);
  for (const name of rng.shuffle(names).slice(0, n)) {
    let p = genJsonDesc(rng, depth - 1);
    if (k !== 'partial' && rng.chance(k === 'type' || k === 'strict' ? 0.1 : 0.5)) p = { k: 'opt', of: p };
    props[name] = p;
  }
  return { k, props };
}
function genUnionDesc(rng, depth) {
  // members that cannot be confused on the wire, so that a round trip is defined
  if (rng.chance(0.5)) {
    const tags = ['t1', 't2', 't3'].slice(0, rng.range(2, 3));
    return {
      k: 'union',
      of: tags.map((tag) => ({
        k: rng.pick(['type', 'optz']),
        props: { tag: { k: 'lit', v: tag }, [rng.pick(['v', 'w', 'same'])]: genJsonDesc(rng, depth - 1) },
      })),
    };
  }
  const prim = rng.shuffle([{ k: 'str' }, { k: 'num' }, { k: 'bool' }, { k: 'nul' }, { k: 'arr', of: { k: 'num' } }]).slice(0, rng.range(2, 4));
  return { k: 'union', of: prim };
}

// ---------------------------------------------------------------- mutation of wire values

function mutateJson(v, rng) {
  const junk = () => rng.pick([null, true, false, 0, 1, -1.5, '', 'x', 'null', [], {}, [1], { a: 1 }, '2020-13-45', 'NaN', 1e400, '12']);
  const paths = [];
  const walk = (x, p) => {
    paths.push(p);
    if (p.length > 4) return;
    if (Array.isArray(x)) x.forEach((y, i) => walk(y, [...p, i]));
    else if (x && typeof x === 'object') for (const k of Object.keys(x)) walk(x[k], [...p, k]);
  };
  walk(v, []);
  const p = rng.pick(paths);
  const clone = v === undefined ? undefined : JSON.parse(JSON.stringify(v));
  if (p.length === 0) {
    if (clone && typeof clone === 'object' && !Array.isArray(clone) && rng.chance(0.6)) {
      clone[rng.pick(PROP_NAMES)] = junk();
      return clone;
    }
    return junk();
  }
  let o = clone;
  for (let i = 0; i < p.length - 1; i++) o = o[p[i]];
  const last = p[p.length - 1];
  const r = rng.float();
  if (r < 0.35 && !Array.isArray(o)) delete o[last];
  else if (r < 0.45 && !Array.isArray(o)) {
    o[String(last).toUpperCase()] = o[last];
    delete o[last];
  } else o[last] = junk();
  return clone;
}

// Does the declared type hold for this value? (used for handler payloads; plain io-ts semantics)
function refLib(t, tt) {
  return { t, tt, h: referenceH(t) };
}

module.exports = {
  setDialect, build, buildProps, genValue, genJsonDesc, genObjDesc, genStringDesc, genQueryDesc, genString, genJson, genNumber, mutateJson, refLib, referenceH, ascii,
  PROP_NAMES, PARAM_NAMES, QUERY_NAMES, HEADER_NAMES, canon,
};
