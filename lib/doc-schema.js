'use strict';
// Reading of the schema objects in a generated document: does a JSON value conform?
// Conventions of the generator: null is {nullable: true, enum: []}; oneOf lists alternatives (more than one may fit);
// formats, titles and the like are annotations; a boolean that travels as a string is documented as a boolean.

class Unresolved extends Error {}

function valid(doc, s, v, o = {}, depth = 0) {
  if (depth > 60) return true;
  if (!s || typeof s !== 'object') throw new Unresolved(`no schema (${JSON.stringify(s)})`);
  const at = (x, y) => valid(doc, x, y, o, depth + 1);
  if (s.$ref !== undefined) {
    const m = /^#\/components\/schemas\/(.*)$/.exec(s.$ref);
    const c = m && ((doc.components || {}).schemas || {});
    if (!m || !Object.prototype.hasOwnProperty.call(c, m[1])) throw new Unresolved(`no ${s.$ref}`);
    return at(c[m[1]], v);
  }
  if (v === null) {
    if (s.nullable === true) return true;
    if (s.type !== undefined) return false;
  } else if (s.nullable === true && Array.isArray(s.enum) && s.enum.length === 0) return false;
  if (s.allOf && !s.allOf.every((x) => at(x, v))) return false;
  if (s.oneOf && !s.oneOf.some((x) => at(x, v))) return false;
  if (s.anyOf && !s.anyOf.some((x) => at(x, v))) return false;
  if (Array.isArray(s.enum) && s.enum.length && !s.enum.some((e) => e === v || (o.loose && typeof e === 'boolean' && String(e) === v))) return false;
  switch (s.type) {
    case undefined:
      break;
    case 'string':
      if (typeof v !== 'string') return false;
      break;
    case 'number':
    case 'integer':
      if (typeof v !== 'number') return false;
      break;
    case 'boolean':
      if (typeof v !== 'boolean' && !(o.loose && (v === 'true' || v === 'false'))) return false;
      break;
    case 'array':
      if (!Array.isArray(v)) return false;
      break;
    case 'object':
      if (!v || typeof v !== 'object' || Array.isArray(v)) return false;
      break;
    default:
      return false;
  }
  if (typeof v === 'string') {
    if (s.minLength !== undefined && [...v].length < s.minLength) return false;
    if (s.maxLength !== undefined && [...v].length > s.maxLength) return false;
  }
  if (typeof v === 'number') {
    if (s.minimum !== undefined && (s.exclusiveMinimum ? v <= s.minimum : v < s.minimum)) return false;
    if (s.maximum !== undefined && (s.exclusiveMaximum ? v >= s.maximum : v > s.maximum)) return false;
  }
  if (Array.isArray(v)) {
    if (s.minItems !== undefined && v.length < s.minItems) return false;
    if (s.maxItems !== undefined && v.length > s.maxItems) return false;
    if (s.items) return v.every((x) => at(s.items, x));
    return true;
  }
  if (v && typeof v === 'object') {
    const has = (k) => Object.prototype.hasOwnProperty.call(v, k) && v[k] !== undefined;
    for (const k of s.required || []) if (!has(k)) return false;
    const props = s.properties || {};
    for (const k of Object.keys(props)) if (has(k) && !at(props[k], v[k])) return false;
    if (s.additionalProperties === false) return Object.keys(v).every((k) => Object.prototype.hasOwnProperty.call(props, k));
    if (s.additionalProperties && typeof s.additionalProperties === 'object')
      for (const k of Object.keys(v)) if (!Object.prototype.hasOwnProperty.call(props, k) && has(k) && !at(s.additionalProperties, v[k])) return false;
  }
  return true;
}

// every reference in the document leads to a component
function danglers(doc) {
  const out = [];
  const names = (doc.components || {}).schemas || {};
  const walk = (x) => {
    if (!x || typeof x !== 'object') return;
    if (typeof x.$ref === 'string' && !Object.prototype.hasOwnProperty.call(names, x.$ref.replace('#/components/schemas/', ''))) out.push(x.$ref);
    for (const k of Object.keys(x)) if (k !== 'example' && k !== 'enum') walk(x[k]);
  };
  walk(doc.paths);
  walk(names);
  return out;
}

module.exports = { valid, danglers, Unresolved };
