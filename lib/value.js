'use strict';
// Canonical form, tagged-JSON form and structural helpers for the values that flow through the simulation.

function isPlain(v) {
  return typeof v === 'object' && v !== null && !Array.isArray(v) && !(v instanceof Date);
}

// Canonical string: independent of key order, distinguishes types. `drop` drops undefined-valued keys.
function canon(v, drop = false, depth = 0) {
  if (depth > 40) return '<deep>';
  if (v === undefined) return 'undefined';
  if (v === null) return 'null';
  switch (typeof v) {
    case 'string':
      return JSON.stringify(v);
    case 'number':
      return Object.is(v, -0) ? '0' : String(v);
    case 'boolean':
      return String(v);
    case 'bigint':
      return v.toString() + 'n';
    case 'function':
      return '<function>';
    case 'symbol':
      return '<symbol>';
  }
  if (Object.prototype.toString.call(v) === '[object Date]') {
    const n = v.getTime();
    return `Date(${Number.isNaN(n) ? 'invalid' : n})`;
  }
  if (Array.isArray(v)) return '[' + v.map((x) => canon(x, drop, depth + 1)).join(',') + ']';
  const keys = Object.keys(v).sort();
  const parts = [];
  for (const k of keys) {
    if (drop && v[k] === undefined) continue;
    parts.push(JSON.stringify(k) + ':' + canon(v[k], drop, depth + 1));
  }
  return '{' + parts.join(',') + '}';
}

// Tagged JSON so plans can be written to replay files.
function dehydrate(v) {
  if (v === undefined) return { $u: 1 };
  if (v === null || typeof v === 'string' || typeof v === 'boolean') return v;
  if (typeof v === 'number') {
    if (Number.isFinite(v)) return v;
    return { $num: String(v) };
  }
  if (typeof v === 'bigint') return { $big: v.toString() };
  if (Object.prototype.toString.call(v) === '[object Date]') {
    const n = v.getTime();
    return { $date: Number.isNaN(n) ? null : n };
  }
  if (Array.isArray(v)) return v.map(dehydrate);
  if (typeof v === 'object') {
    const o = {};
    for (const k of Object.keys(v)) o[k.startsWith('$') ? '$$' + k : k] = dehydrate(v[k]);
    return o;
  }
  return { $odd: typeof v };
}
function hydrate(v) {
  if (v === null || typeof v !== 'object') return v;
  if (Array.isArray(v)) return v.map(hydrate);
  if ('$u' in v) return undefined;
  if ('$num' in v) return Number(v.$num);
  if ('$big' in v) return BigInt(v.$big);
  if ('$date' in v) return new Date(v.$date === null ? NaN : v.$date);
  if ('$odd' in v) return v.$odd === 'function' ? () => {} : Symbol('odd');
  const o = {};
  for (const k of Object.keys(v)) o[k.startsWith('$$') ? k.slice(2) : k] = hydrate(v[k]);
  return o;
}

function deepFreeze(v) {
  if (typeof v === 'object' && v !== null && !Object.isFrozen(v)) {
    if (Object.prototype.toString.call(v) === '[object Date]') return v;
    Object.freeze(v);
    for (const k of Object.keys(v)) deepFreeze(v[k]);
  }
  return v;
}

// Fingerprint for "unchanged": own keys of every kind in their order, attributes, accessors and frozenness included.
// Functions and instances of classes count as themselves. `blind` looks past frozenness: io-ts itself freezes what its
// readonlyArray decodes.
const ids = new WeakMap();
let nextId = 0;
function fp(v, depth = 0, blind = false) {
  if (v === null || (typeof v !== 'object' && typeof v !== 'function')) return typeof v === 'string' ? JSON.stringify(v) : Object.is(v, -0) ? '-0' : `${typeof v}:${String(v)}`;
  if (depth > 40) return '<deep>';
  const tag = Object.prototype.toString.call(v);
  const proto = Object.getPrototypeOf(v);
  const plain = tag === '[object Array]' || tag === '[object Date]' || proto === null || (tag === '[object Object]' && Object.getPrototypeOf(proto) === null);
  let s = '';
  if (!plain) {
    if (!ids.has(v)) ids.set(v, nextId++);
    s = `#${ids.get(v)}`;
    if (typeof v !== 'function') return s;
  } else if (tag === '[object Date]') s = `Date(${+v})`;
  else s = tag === '[object Array]' ? 'A' : 'O';
  if (!blind && !Object.isExtensible(v)) s += '!';
  s += '{';
  for (const k of Reflect.ownKeys(v)) {
    const d = Object.getOwnPropertyDescriptor(v, k);
    if (typeof v === 'function' && k === 'prototype') continue;
    s += `${typeof k === 'symbol' ? String(k) : JSON.stringify(k)}${d.writable && !blind ? 'w' : ''}${d.enumerable ? 'e' : ''}${d.configurable && !blind ? 'c' : ''}:`;
    s += 'value' in d ? fp(d.value, depth + 1, blind) : 'accessor';
    s += ',';
  }
  return s + '}';
}

module.exports = { fp, canon, dehydrate, hydrate, deepFreeze, isPlain };
