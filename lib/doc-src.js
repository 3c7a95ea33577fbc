'use strict';
// Prints API specs (codec descriptors) as TypeScript source trees: the same declarations that a reader of the
// documentation would write, with constants, modules, packages, re-exports, spreads and comments in between.
const P = require('path').posix;

const RESERVED = new Set(['null', 'undefined', 'type', 'if', 'default', 'enum', 'const', 'exports', 'require', 'module', 'Object', 'arguments', 'eval', 'length']);
const TYPE_NAMES = ['User', 'Account', 'Money', 'Status', 'Thing', 'Address', 'Filter', 'Item', 'Node', 'Page'];
const WORDS = ['The', 'user', 'account', 'naïve', 'ключ', '金額', '🎉', 'of', 'limit', 'e.g. 5 * 3', 'see /docs/', "it's", '`code`', '$&', 'a — b', '{', '}', "'", '"', '//', 'export const'];

const lit = (v) => (typeof v === 'string' ? `'${v.replace(/\\/g, '\\\\').replace(/'/g, "\\'").replace(/\n/g, '\\n')}'` : String(v));
const lit2 = (r, v) => (typeof v === 'string' && r.chance(0.2) ? JSON.stringify(v) : lit(v));
const isIdent = (k) => /^[A-Za-z_$][\w$]*$/.test(k);

class Source {
  constructor(path, all) {
    this.path = path;
    this.all = all; // names that sources declare
    this.imports = []; // statements
    this.body = [];
    this.used = new Set();
    this.bound = new Map(); // what an import was bound to
    this.n = 0;
    this.pool = [];
  }
  // a name for something imported
  fresh(base) {
    let n = base;
    while (this.used.has(n)) n = `${base}${++this.n}`;
    this.used.add(n);
    return n;
  }
  // A name for something declared. The generator knows the codecs of packages by their names alone (see
  // known-findings.txt), so these are declared once in the whole project.
  name(base) {
    let n = base;
    const taken = () => this.used.has(n) || (this.all.has(n) && (this.pkg || this.all.get(n)));
    // (a number at the end could be taken for one of its own making)
    while (taken()) n = this.pkg ? `${base}_${++this.n}_` : `${base}${++this.n}`;
    this.used.add(n);
    this.all.set(n, this.all.get(n) || !!this.pkg);
    return n;
  }
  text(nl) {
    return [...this.imports, ...this.body].join(nl) + nl;
  }
}

class Printer {
  constructor(rng, root, o) {
    this.r = rng;
    this.o = o;
    this.root = root;
    this.sources = [];
    this.all = new Map();
    this.files = {}; // package.json and the like
    this.depth = 0;
    this.visibility = rng.pick(['@private', '@public']); // the generator refuses both on one schema
    const nMod = rng.range(...o.modules);
    this.entry = this.source(P.join(root, 'index.ts'));
    for (let i = 0; i < nMod; i++) {
      const dir = rng.pick(['.', 'models', 'lib', 'models/inner']);
      const s = this.source(P.join(root, dir, rng.chance(0.2) ? `m${i}/index.ts` : `m${i}.ts`));
      s.level = i + 1;
    }
    if (rng.chance(o.pkg)) {
      const names = rng.shuffle(['@acme/types', 'acme-codecs', 'money.js']).slice(0, rng.range(1, 2));
      names.forEach((name, i) => {
        const dir = P.join(root, 'node_modules', name);
        const main = rng.pick(['src/index.ts', 'index.ts', 'types.ts']);
        const s = this.source(P.join(dir, main));
        s.pkg = name;
        s.level = 100 + i;
        this.files[P.join(dir, 'package.json')] = JSON.stringify({ name, version: '1.0.0', [rng.pick(['source', 'types', 'typings'])]: main });
      });
    }
    this.entry.level = 0;
  }
  source(path) {
    const s = new Source(path, this.all);
    this.sources.push(s);
    return s;
  }
  comment(inObj) {
    const r = this.r;
    if (!r.chance(this.o.comments)) return '';
    const words = (n) => Array.from({ length: n }, () => r.pick(WORDS)).join(' ');
    const lines = [words(r.range(1, 5))];
    if (r.chance(0.3)) lines.push(words(r.range(1, 4)));
    if (inObj && r.chance(0.3)) lines.push(r.pick(['@deprecated', '@title ' + words(1), this.visibility, '@example "x"']));
    if (!inObj && r.chance(0.5)) lines.push(r.pick(['@operationId op.' + r.int(50), '@tag Users', '@private', '@unstable', '@version 3']));
    if (r.chance(0.12)) return `// ${lines[0]}\n`;
    if (lines.length === 1 && r.chance(0.6)) return `/** ${lines[0]} */\n`;
    return `/**\n${lines.map((l) => ' * ' + l).join('\n')}\n */\n`;
  }
  // the library a combinator comes from, as this source imports it
  lib(src, from, name) {
    const r = this.r;
    const key = from + '#' + name;
    if (src.bound.has(key)) return src.bound.get(key);
    let style = src.bound.get(from);
    if (!style) {
      style = from === 'io-ts-types' ? 'named' : r.chance(0.75) ? 'star' : 'named';
      if (style === 'star') {
        const ns = src.fresh(from === 'io-ts' ? 't' : from === 'io-ts-types' ? 'tt' : 'h');
        src.imports.push(`import * as ${ns} from '${from}';`);
        style = ns + '.';
      }
      src.bound.set(from, style);
    }
    if (style !== 'named') return style + name;
    const local = src.used.has(name) || ['undefined', 'null', 'type', 'void'].includes(name) || r.chance(0.1) ? src.fresh('c_' + name.replace(/\W/g, '')) : src.fresh(name);
    src.imports.push(`import { ${local === name ? name : `${name} as ${local}`} } from '${from}';`);
    src.bound.set(key, local);
    return local;
  }
  t(src, n) {
    return this.lib(src, 'io-ts', n);
  }
  h(src, n) {
    return this.lib(src, '@api-ts/io-ts-http', n);
  }
  tt(src, n) {
    return this.lib(src, 'io-ts-types', n);
  }
  // A place for a declaration that `src` can refer to: itself or a module further down.
  place(src) {
    const r = this.r;
    const below = this.sources.filter((s) => s.level > src.level && (!src.pkg || s.pkg));
    if (!below.length || r.chance(0.4)) return src;
    return r.pick(below);
  }
  specifier(src, target) {
    if (target.pkg) return target.pkg;
    let x = P.relative(P.dirname(src.path), target.path).replace(/(^|\/)index\.ts$/, '').replace(/\.ts$/, '').replace(/\/$/, '');
    if (!x.startsWith('.')) x = x === '' ? '.' : './' + x;
    return x;
  }
  // Makes an exported (or local) constant in a source and returns an expression for it, valid in `src`.
  declare(src, base, mk, value, word = 'const') {
    const r = this.r;
    const target = this.place(src);
    const expr = mk(target);
    const name = target.name(base);
    const local = target === src && r.chance(0.4);
    const c = this.comment(true);
    const st = word === 'enum' ? `enum ${name} ${expr}` : `${word} ${r.chance(0.04) ? `${target.fresh('unused')} = 0, ` : ''}${name}${r.chance(0.05) ? ': any' : ''} = ${expr};`;
    let exported = name;
    if (!local && target !== src && !target.pkg && !target.dflt && r.chance(this.o.dflt)) {
      target.dflt = true;
      exported = 'default';
      target.body.push(`${c}${st}`, `export default ${name};`);
      if (!target.dfltBase) target.dfltBase = base;
    } else if (!local && target !== src && r.chance(this.o.rename)) {
      // exported under another name
      exported = target.name(base + 'X');
      target.body.push(`${c}${st}`, `export { ${name} as ${exported} };`);
    } else if (!local && r.chance(0.12)) {
      target.body.push(`${c}${st}`, `export { ${name} };`);
    } else target.body.push(`${c}${local ? '' : 'export '}${st}`);
    this.noise(target, name, value);
    if (target === src) return name;
    return this.refer(src, target, exported, value);
  }
  // what stands between declarations in real files
  noise(src, name, value) {
    const r = this.r;
    if (!r.chance(this.o.noise)) return;
    const n = src.fresh('Noise');
    src.body.push(
      r.pick([
        `${r.pick(['', 'export '])}type ${value ? n : name} = ${r.pick(["'a' | 'b'", 'unknown', '{ a: string }', `typeof ${name}`])};`,
        `${r.pick(['', 'export '])}interface ${n} {\n  /** in an interface */\n  a?: string;\n}`,
        `export function ${n}(x: number): number {\n  // inside\n  return x + 1;\n}`,
        `class ${n} {\n  /** a method */\n  m() {\n    return 1;\n  }\n}`,
        `if (typeof ${name} === 'string') {\n  /* nothing */\n}`,
        `export const ${n} = (a: number) => a * 2;`,
        `export const ${n} = [1, 2, 3].map((x) => x + 1);`,
        `/** unused */\nexport const ${n} = { a: 1, 'b c': [true, null], ...{} };`,
        `type ${n}<T> = T extends string ? T : never;`,
        `export let ${n}: number | undefined;`,
      ]),
    );
  }
  // `value`: not a codec; the generator does not follow constants that stand for such a constant
  refer(src, target, name, value) {
    const r = this.r;
    const again = !value || this.o.wild;
    // through another module?
    const mids = this.sources.filter((s) => !s.pkg && s.level > src.level && s.level < target.level);
    if (name === 'default') {
      if (!mids.length || !r.chance(this.o.barrel)) return this.refer1(src, target, name);
      const mid = r.pick(mids);
      const n2 = mid.name(target.dfltBase + 'D');
      mid.body.push(`export { default as ${n2} } from '${this.specifier(mid, target)}';`);
      return this.refer1(src, mid, n2);
    }
    if (!target.pkg && !src.pkg && mids.length && r.chance(this.o.barrel)) {
      const mid = r.pick(mids);
      const spec = this.specifier(mid, target);
      const how = r.weighted([[2, 'named'], [2, 'star'], [this.o.rename ? 1 : 0, 'renamed'], [1, 'imported'], [again ? 1 : 0, 'const']]);
      if (how === 'star' && !mid.used.has(name) && !(mid.starNames || new Set()).has(name) && !mid.body.includes(`export * from '${spec}';`) && ![...target.used].some((n) => mid.used.has(n) || (mid.starNames || new Set()).has(n)) && !mid.stars) {
        mid.stars = target;
        mid.starNames = new Set(target.used);
        // names that either module declares later must not clash
        mid.used = target.used = new Set([...mid.used, ...target.used]);
        for (const s of this.sources) if (s !== mid && s !== target && s.used === target.used) s.used = mid.used;
        mid.body.push(`export * from '${spec}';`);
        return this.refer1(src, mid, name);
      }
      if (how === 'renamed' || (how === 'named' && mid.used.has(name))) {
        const n2 = mid.name(name + 'Y');
        mid.body.push(`export { ${name} as ${n2} } from '${spec}';`);
        return this.refer1(src, mid, n2);
      }
      if (how === 'named') {
        mid.used.add(name);
        mid.body.push(`export { ${name} } from '${spec}';`);
        return this.refer1(src, mid, name);
      }
      if (how === 'imported') {
        const l = this.refer1(mid, target, name);
        if (!again && !isIdent(l)) return this.refer1(src, target, name);
        if (isIdent(l) && (!again || this.r.chance(0.6))) {
          mid.exportedImports = mid.exportedImports || new Set();
          if (!mid.exportedImports.has(l)) mid.body.push(`export { ${l} };`);
          mid.exportedImports.add(l);
          return this.refer1(src, mid, l);
        }
        const n2 = mid.name(name);
        mid.body.push(`export const ${n2} = ${l};`);
        return this.refer1(src, mid, n2);
      }
      if (!again) return this.refer1(src, target, name);
      const l = this.refer1(mid, target, name);
      const n2 = mid.name(name);
      mid.body.push(`export const ${n2} = ${l};`);
      return this.refer1(src, mid, n2);
    }
    return this.refer1(src, target, name);
  }
  refer1(src, target, name) {
    const r = this.r;
    const key = target.path + '#' + name;
    if (src.bound.has(key)) return src.bound.get(key);
    const spec = this.specifier(src, target);
    const nsKey = target.path + '#*';
    if (src.bound.has(nsKey) || r.chance(this.o.namespace)) {
      if (!src.bound.has(nsKey)) {
        const ns = src.fresh('NS');
        src.imports.push(`import * as ${ns} from '${spec}';`);
        src.bound.set(nsKey, ns);
      }
      const e = `${src.bound.get(nsKey)}.${name}`;
      src.bound.set(key, e);
      return e;
    }
    if (name === 'default') {
      const local = src.fresh(target.dfltBase);
      src.imports.push(r.chance(0.75) ? `import ${local} from '${spec}';` : `import { default as ${local} } from '${spec}';`);
      src.bound.set(key, local);
      return local;
    }
    const local = src.used.has(name) || r.chance(0.15) ? src.fresh(name + 'I') : src.fresh(name);
    src.imports.push(`import { ${local === name ? name : `${name} as ${local}`} } from '${spec}';`);
    src.bound.set(key, local);
    return local;
  }

  // ---------------------------------------------------------------- codecs

  codec(src, d, o = {}) {
    const r = this.r;
    // an optional property is marked where it stands, as in the documentation
    const named = d.k !== 'opt' && (!['str', 'num', 'bool', 'nul'].includes(d.k) || r.chance(0.15));
    if (named && this.depth < 6 && r.chance(o.hoist === undefined ? this.o.hoist : o.hoist)) {
      this.depth++;
      const e = this.hoisted(src, d);
      this.depth--;
      return e;
    }
    return this.inline(src, d);
  }
  hoisted(src, d) {
    const r = this.r;
    const base = r.pick(TYPE_NAMES);
    if (r.chance(this.o.fn)) {
      // a function without parameters
      const call = this.declare(src, 'make' + base, (target) => {
        const e = this.inline(target, d);
        return r.chance(0.5) ? `() => ${e}` : `() => {\n  ${r.pick(['', '// why\n', 'const unused = 1;\n'])}return ${e};\n}`;
      }, true);
      return call + '()';
    }
    if (r.chance(this.o.member)) {
      // a member of an object constant; the generator knows `object.member`, not `ns.object.member`
      const keys = r.shuffle(['one', 'two', 'User', 'list', 'Status']).slice(0, r.range(1, 3));
      const own = r.pick(keys);
      const e = this.declare(src, base + 'Codecs', (target) => `{ ${keys.map((k) => `${this.comment(true)}${k}: ${k === own ? this.inline(target, d) : this.inline(target, { k: r.pick(['str', 'num', 'bool']) })}`).join(', ')} }`, true);
      if (isIdent(e)) return `${e}.${own}`;
      return this.inline(src, d);
    }
    return this.declare(src, base, (target) => this.inline(target, d));
  }
  inline(src, d) {
    const r = this.r;
    const t = (n) => this.t(src, n);
    const list = (l) => `[${l.map((x) => this.codec(src, x)).join(', ')}]`;
    switch (d.k) {
      case 'str':
        if (r.chance(this.o.brand)) return `${t('brand')}(${t('string')}, (s): s is any => typeof s === 'string', 'Br')`;
        return t('string');
      case 'num':
        return t('number');
      case 'bool':
        return t('boolean');
      case 'nul':
        return t('null').replace(/^null$/, 'nullType');
      case 'unk':
        return t('unknown');
      case 'ne':
        return this.tt(src, 'NonEmptyString');
      case 'numStr':
        return this.tt(src, 'NumberFromString');
      case 'intStr':
        return this.tt(src, 'IntFromString');
      case 'boolStr':
        return this.tt(src, 'BooleanFromString');
      case 'bigStr':
        return this.tt(src, 'BigIntFromString');
      case 'dateISO':
        return this.tt(src, 'DateFromISOString');
      case 'dateNum':
        return this.tt(src, 'DateFromNumber');
      case 'uuid':
        return this.tt(src, 'UUID');
      case 'lit':
        if (r.chance(0.2 * this.o.consts)) return `${t('literal')}(${this.declare(src, 'LIT', () => lit(d.v) + (r.chance(0.6) ? ' as const' : ''), true)})`;
        if (typeof d.v === 'string' && d.v && r.chance(0.15 * this.o.consts)) {
          const e = this.declare(src, r.pick(TYPE_NAMES) + 'Enum', () => `{ ${r.shuffle([d.v, 'other']).map((v) => `${isIdent(v) ? v : lit(v)} = ${lit2(r, v)}`).join(', ')} }`, true, 'enum');
          if (isIdent(e) && isIdent(d.v)) return `${t('literal')}(${e}.${d.v})`;
        }
        return `${t('literal')}(${lit2(r, d.v)})`;
      case 'keyof': {
        const o = () => `{ ${d.vs.map((v) => `${this.comment(true).replace(/^\/\/.*\n/, '')}${isIdent(v) ? v : lit(v)}: ${r.pick(['1', 'null'])}`).join(', ')} }`;
        if (this.depth < 6 && r.chance(0.25 * this.o.consts)) {
          this.depth++;
          const e = r.chance(0.5) ? this.declare(src, r.pick(TYPE_NAMES) + 'Enum', () => `{ ${d.vs.map((v) => `${this.comment(true).replace(/^\/\/.*\n/, '')}${isIdent(v) ? v : lit(v)} = ${lit2(r, v)}`).join(', ')} }`, true, 'enum') : this.declare(src, r.pick(TYPE_NAMES) + 'Keys', o, true);
          this.depth--;
          return `${t('keyof')}(${e})`;
        }
        return `${t('keyof')}(${o()})`;
      }
      case 'arr':
        return `${t('array')}(${this.codec(src, d.of)})`;
      case 'roarr':
        return `${t('readonlyArray')}(${this.codec(src, d.of)})`;
      case 'nea':
        return `${this.tt(src, 'nonEmptyArray')}(${this.codec(src, d.of)})`;
      case 'rec':
        return `${t('record')}(${t('string')}, ${this.codec(src, d.of)})`;
      case 'reck':
        return `${t('record')}(${this.codec(src, { k: 'keyof', vs: d.vs }, { hoist: 0 })}, ${this.codec(src, d.of)})`;
      case 'rnea':
        return `${this.tt(src, 'readonlyNonEmptyArray')}(${this.codec(src, d.of)})`;
      case 'dateUnix':
        return this.tt(src, 'DateFromUnixTime');
      case 'urec':
        return t('UnknownRecord');
      case 'tup':
        return `${t('tuple')}(${list(d.of)})`;
      case 'type':
      case 'strict':
      case 'partial':
        if (d.k === 'strict' && r.chance(0.2)) return `${t('exact')}(${t('type')}(${this.props(src, d.props)}))`;
        return `${t(d.k)}(${this.props(src, d.props)})`;
      case 'optz':
        return `${this.h(src, 'optionalized')}(${this.props(src, d.props)})`;
      case 'xoptz':
        return `${t('exact')}(${this.h(src, 'optionalized')}(${this.props(src, d.props)}))`;
      case 'inter':
        return `${t('intersection')}(${list(d.of)})`;
      case 'union':
        return `${t('union')}(${list(d.of)})`;
      case 'opt':
        if (d.of.k === 'union' && r.chance(0.3)) return `${t('union')}([${r.shuffle([...d.of.of.map((x) => this.codec(src, x)), this.t(src, 'undefined')]).join(', ')}])`;
        if (r.chance(0.15)) return `${t('union')}([${r.shuffle([this.codec(src, d.of), this.t(src, 'undefined')]).join(', ')}])`;
        return `${this.h(src, 'optional')}(${this.codec(src, d.of)})`;
      default:
        throw new Error('cannot print ' + d.k);
    }
  }
  // an object literal of codecs; parts of it may be constants of their own
  props(src, props, o = {}) {
    const r = this.r;
    const ks = Object.keys(props);
    if (ks.length && this.depth < 6 && r.chance(o.group === undefined ? this.o.propsConst : o.group)) {
      this.depth++;
      const e = this.declare(src, r.pick(TYPE_NAMES) + 'Props', (target) => this.object(target, props, ks), true);
      this.depth--;
      return e;
    }
    return this.object(src, props, ks);
  }
  object(src, props, ks) {
    const r = this.r;
    const out = [];
    let rest = ks;
    if (ks.length > 1 && this.depth < 6 && r.chance(this.o.spread)) {
      const n = r.range(1, ks.length - 1);
      const some = r.shuffle(ks).slice(0, n);
      rest = ks.filter((k) => !some.includes(k));
      this.depth++;
      const e = this.declare(src, 'Common', (target) => this.object(target, props, some), true);
      this.depth--;
      if (r.chance(this.o.assign)) return `Object.assign({}, ${r.chance(0.5) ? `${e}, ${this.object(src, props, rest)}` : `${this.object(src, props, rest)}, ${e}`})`;
      out.push(`...${e}`);
    }
    for (const k of rest) {
      if (isIdent(k) && !RESERVED.has(k) && props[k].k !== 'opt' && this.depth < 6 && r.chance(this.o.shorthand)) {
        this.depth++;
        const e = this.declare(src, k, (target) => this.inline(target, props[k]));
        this.depth--;
        out.push(e === k ? k : `${k}: ${e}`);
        continue;
      }
      const v = this.codec(src, props[k]);
      const c = this.comment(true);
      const kk = isIdent(k) || /^(0|[1-9]\d*)$/.test(k) || /^[\p{L}]+$/u.test(k) ? (r.chance(0.9) ? k : lit(k)) : lit(k);
      const computed = r.chance(this.o.computed);
      out.push(`${c ? '\n' + c : ''}${computed ? `[${this.declare(src, 'KEY', () => lit2(r, k) + (r.chance(0.5) ? ' as const' : ''), true)}]` : kk}: ${v}`);
    }
    if (out[0] && out[0].startsWith('...') && r.chance(0.5)) out.push(out.shift());
    return out.length ? `{ ${out.join(r.chance(0.6) ? ', ' : ',\n')} }` : '{}';
  }

  // ---------------------------------------------------------------- routes

  request(src, d) {
    const r = this.r;
    const mk = (s) => {
      const gs = Object.keys(d.groups).map((g) => `${g}: ${this.props(s, d.groups[g], { group: this.o.group })}`);
      return `${this.h(s, 'httpRequest')}({ ${gs.join(', ')} })`;
    };
    if (d.k === 'unionreq') {
      const u = (s) => `${this.t(s, 'union')}([${d.of.map((x) => this.request(s, x)).join(', ')}])`;
      if (r.chance(0.25 * this.o.consts)) return this.declare(src, r.pick(TYPE_NAMES) + 'Request', u);
      return u(src);
    }
    if (d.k === 'bodyreq') {
      const u = (s) => {
        const parts = [this.request(s, { k: 'req', groups: d.groups }), `${this.t(s, 'type')}({ body: ${this.codec(s, d.body)} })`];
        if (r.chance(0.2 * this.o.consts)) parts[1] = this.declare(s, r.pick(TYPE_NAMES) + 'Body', (x) => `${this.t(x, 'type')}({ body: ${this.codec(x, d.body)} })`);
        return `${this.t(s, 'intersection')}([${parts.join(', ')}])`;
      };
      if (r.chance(0.25 * this.o.consts)) return this.declare(src, r.pick(TYPE_NAMES) + 'Request', u);
      return u(src);
    }
    if (r.chance(0.25 * this.o.consts)) return this.declare(src, r.pick(TYPE_NAMES) + 'Request', mk);
    return mk(src);
  }
  route(src, route) {
    const r = this.r;
    const mk = (s) => {
      const method = route.method.toUpperCase();
      const res = (x) => {
        const parts = Object.keys(route.response).map((k) => {
          const v = this.codec(x, route.response[k], { hoist: Math.max(0.4 * this.o.consts, this.o.hoist) });
          const c = this.comment(true);
          return `${c ? '\n' + c : ''}${k}: ${v}`;
        });
        return `{ ${parts.join(', ')} }`;
      };
      const response = r.chance(0.1 * this.o.consts) ? this.declare(s, 'Responses', res, true) : res(s);
      const pathText = () => (r.chance(0.15) ? '`' + route.path + '`' : lit(route.path));
      let path = r.chance(0.15 * this.o.consts) ? this.declare(s, 'PATH', pathText, true) : pathText();
      const seg = /^(\/[^/{}]+)(\/.*)$/.exec(route.path);
      if (seg && r.chance(0.1 * this.o.consts)) path = '`${' + this.declare(s, 'BASE', () => lit(seg[1]), true) + '}' + seg[2] + '`';
      const seg2 = /^(\/[^/{}]+)(\/[^/{}]+)(.*)$/.exec(route.path);
      if (seg2 && r.chance(0.08 * this.o.consts)) path = '`${' + this.declare(s, 'BASE', () => lit(seg2[1]), true) + '}/${' + this.declare(s, 'SEG', () => lit2(r, seg2[2].slice(1)), true) + '}' + seg2[3] + '`';
      const mt = r.chance(0.08 * this.o.consts) ? this.declare(s, 'METHOD', () => lit(method) + ' as const', true) : lit(method);
      return `${this.h(s, 'httpRoute')}({ path: ${path}, method: ${mt}, request: ${this.request(s, route.req)}, response: ${response} })`;
    };
    if (r.chance(0.6 * this.o.consts)) return this.declare(src, r.pick(['Get', 'Post', 'Do']) + r.pick(TYPE_NAMES), mk);
    return mk(src);
  }
  // declares the spec of an app in the entry file and returns the names under which it is exported
  spec(spec) {
    const r = this.r;
    const names = [];
    const split = spec.length > 1 && r.chance(0.3) ? [spec.slice(0, 1), spec.slice(1)] : [spec];
    for (const part of split) {
      const action = (s, a) => {
        const routes = (x) => `{ ${a.routes.map((rt) => `${rt.method}: ${this.route(x, rt)}`).join(', ')} }`;
        const v = r.chance(0.2 * this.o.consts) ? this.declare(s, 'Routes', routes) : routes(s);
        return `${this.comment(false)}${lit(a.api)}: ${v}`;
      };
      const entries = [];
      let rest = part;
      if (part.length > 1 && r.chance(0.35 * this.o.consts)) {
        const n = r.range(1, part.length - 1);
        const sub = part.slice(0, n);
        rest = part.slice(n);
        entries.push(`...${this.declare(this.entry, 'subSpec', (s) => (r.chance(0.6) ? `${this.h(s, 'apiSpec')}({ ${sub.map((a) => action(s, a)).join(',\n')} })` : `{ ${sub.map((a) => action(s, a)).join(',\n')} }`))}`);
      }
      for (const a of rest) entries.push(action(this.entry, a));
      if (r.chance(0.4)) entries.push(entries.shift());
      const name = this.entry.name('api');
      const callee = this.h(this.entry, 'apiSpec');
      const c = r.chance(0.2) ? '/** Server\n * @url https://x.example/v1 */\n' : this.comment(false);
      let arg = `{ ${entries.join(',\n')} }`;
      if (r.chance(0.1 * this.o.consts)) {
        const v = this.entry.name('Operations');
        this.entry.body.push(`const ${v} = ${arg};`);
        arg = v;
      }
      this.entry.body.push(`${c}export const ${name} = ${callee}(${arg});`);
      names.push(name);
    }
    return names;
  }
  out() {
    const nl = this.r.chance(0.05) ? '\r\n' : '\n';
    const files = { ...this.files };
    for (const s of this.sources) {
      let text = s.text(nl);
      if (nl !== '\n') text = text.replace(/\r?\n/g, nl);
      if (this.r.chance(0.1)) text = this.r.pick(['// header — naïve', '/* license 🎉 */', '/**\n * File doc\n */', "'use strict';"]) + nl + text;
      files[s.path] = text;
    }
    return files;
  }
}

const OPTS = { modules: [0, 4], pkg: 0.25, comments: 0.25, hoist: 0.3, propsConst: 0.15, group: 0.2, spread: 0.15, computed: 0.03, rename: 0.15, barrel: 0.3, namespace: 0.25, consts: 1, dflt: 0.1, noise: 0.12, fn: 0.06, member: 0.08, brand: 0.03, assign: 0.2, shorthand: 0.04 };

module.exports = { Printer, OPTS };
