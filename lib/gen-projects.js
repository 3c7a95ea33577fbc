'use strict';
// Random file trees (TypeScript projects with an API spec, node_modules packages, custom codecs) and random histories
// of generator runs over them. The oracle compares the generator with itself, so nothing here has to be valid.
const { Rng } = require('./rng');
const P = require('path').posix;

const PKGS = ['@acme/types', 'acme-codecs', '@acme/money', 'shared-lib', 'src', 'money.js', '@acme/common-types'];
const NAMES = ['User', 'Account', 'Money', 'Status', 'Thing', 'Id', 'Address', 'Filter', 'Node', 'default_', 'Item', 'User1', 'Money1'];
const PROPS = ['id', 'name', 'kind', 'amount', 'created', 'tags', 'naïve', 'two words', 'a-b', '0', 'owner', 'next', 'zone', 'year', 'Id'];
const WORDS = ['The', 'user', 'account', 'naïve', 'ключ', '金額', '🎉', 'of', 'limit', 'e.g. 5 * 3', 'see /docs/', "it's", '`code`', '$&', 'a — b'];
const CODES = ['EIO', 'EIO', 'EIO', 'EACCES', 'EACCES', 'EACCES', 'EMFILE', 'EMFILE', 'EMFILE', 'EPERM', 'EPERM', 'EBUSY', 'EBUSY', 'ELOOP', 'ENFILE', 'ESTALE', 'ENOMEM', 'ETIMEDOUT', 'EISDIR', 'EAGAIN', 'EINTR', 'ENXIO'];

const LOCALES = ['tr-TR', 'az-Latn-AZ', 'et-EE', 'da-DK', 'lt-LT', 'cs-CZ', 'tr-TR', 'sv-SE', 'de-DE', 'es-ES', 'haw', 'en-GB'];
const ENV = { DEBUG: '*', NODE_ENV: 'production', CI: 'true', NO_COLOR: '1', FORCE_COLOR: '3', HOME: '/nowhere', TERM: 'dumb', npm_package_name: 'other', npm_package_version: '99.0.0', VERBOSE: '1', LOG_LEVEL: 'debug' };

const BASE = {
  packages: [0, 3],
  modules: [1, 4],
  custom: 0.35, // a package declares a customCodecFile
  codecFile: 0.25,
  fakeIoTs: 0.3,
  link: 0.3,
  nested: 0.15,
  hoist: 0.3,
  aliases: 2, // weight of `export const X = Y`
  sharedSchema: 0.5, // codec functions hand out one object
  lean: 0, // how often a module imports a package in place of 0-1 of them
  broken: 0.06,
  roots: [1, 2],
  samePkg: 0.5, // projects share package names
  stages: [1, 3],
  gens: [1, 4],
  edit: 0.5,
  fault: 0.5,
  outFault: 0.06,
  stall: 0.2,
  locale: 0.4,
  spread: [0, 5, 40],
  stageFaultFree: 0.35,
};

function doc(r, inObj) {
  const lines = [];
  const words = (n) => Array.from({ length: n }, () => r.pick(WORDS)).join(' ');
  if (r.chance(0.75)) lines.push(words(r.range(1, 6)));
  if (r.chance(0.25)) lines.push('', words(r.range(1, 4)));
  if (r.chance(0.02)) lines.push(words(r.range(40, 200)));
  const tags = inObj
    ? [() => '@example ' + (r.chance(0.03) ? r.pick(['12', 'true', '{ "a": 1 }', '[1, 2]', '{ bad']) : r.pick(['"x"', 'plain text', 'ключ'])), () => '@deprecated', () => '@format ' + r.pick(['uuid', 'date', 'email']), () => '@title ' + words(2), () => `@pattern ^${r.pick(['a', '[0-9]', '\\d'])}+$`, () => '@minimum ' + r.int(10), () => '@default ' + r.int(5), () => '@minLength ' + r.int(9), () => '@' + r.pick(['maximum', 'maxLength', 'minItems', 'maxItems', 'multipleOf', 'minProperties']) + ' ' + r.int(20), () => '@' + r.pick(['internal', 'private', 'public', 'readOnly', 'writeOnly', 'uniqueItems', 'exclusiveMinimum', 'see https://x.example', 'since 1.2', 'todo', 'description ' + words(2)])]
    : [() => '@summary ' + words(2), () => '@operationId op.' + r.int(50), () => '@tag ' + r.pick(['Users', 'Money']), () => '@private', () => '@unstable', () => '@example {"a":' + r.int(9) + '}', () => '@version ' + r.int(9), () => '@param id ' + words(2), () => '@' + r.pick(['internal', 'public', 'since 1.2', 'deprecated', 'url /x', 'description ' + words(2), 'url'])];
  const n = r.weighted([[4, 0], [3, 1], [2, 2], [1, 3]]);
  for (let i = 0; i < n; i++) lines.push(r.pick(tags)());
  if (!lines.length) lines.push(words(1));
  if (lines.length === 1 && r.chance(0.5)) return r.chance(0.15) ? `// ${lines[0]}` : `/** ${lines[0]} */`;
  return `/**\n${lines.map((l) => ' * ' + l).join('\n')}\n */`;
}

const key = (k) => (/^[A-Za-z_$][\w$]*$/.test(k) || /^[^\x00-\x7f\w]*$/.test(k) ? k : JSON.stringify(k));

// ctx.names: expressions that refer to codecs in scope
function expr(r, ctx, d) {
  const t = ctx.t;
  const leaf = () =>
    r.weighted([
      [4, () => t('string')],
      [3, () => t('number')],
      [1, () => t('boolean')],
      [1, () => `${t('literal')}(${r.pick(["'a'", "'b'", '1', 'true', '`lit`'])})`],
      [1, () => `${t('keyof')}({ ${r.pick(['a: 1, b: 1', "x: null, 'y z': null"])} })`],
      [1, () => (ctx.extra.length ? r.pick(ctx.extra) : t('string'))],
      [ctx.opaque.length ? 2 : 0, () => r.pick(ctx.opaque)],
      [6, () => (ctx.names.length ? r.pick(ctx.names) : t('string'))],
    ])();
  if (d <= 0) return leaf();
  const sub = () => expr(r, ctx, d - 1);
  return r.weighted([
    [5, leaf],
    [4, () => obj(r, ctx, d, 'type')],
    [1, () => obj(r, ctx, d, 'partial')],
    [1, () => obj(r, ctx, d, 'strict')],
    [2, () => `${t('array')}(${sub()})`],
    [1, () => `${t('record')}(${t('string')}, ${sub()})`],
    [2, () => `${t('union')}([${sub()}, ${sub()}${r.chance(0.3) ? ', ' + t('undefined') : ''}])`],
    [1, () => `${t('intersection')}([${obj(r, ctx, d - 1, 'type')}, ${obj(r, ctx, d - 1, 'partial')}])`],
    [ctx.h ? 1 : 0, () => `${ctx.h('optional')}(${sub()})`],
    [ctx.h ? 1 : 0, () => `${ctx.h('optionalized')}({ ${props(r, ctx, d)} })`],
  ])();
}
function props(r, ctx, d) {
  const out = [];
  const ks = r.shuffle(PROPS).slice(0, r.range(1, 4));
  for (const k of ks) out.push(`${r.chance(0.45) ? '\n' + doc(r, true) + '\n' : ''}${key(k)}: ${expr(r, ctx, d - 1)}`);
  if (ctx.spreads.length && r.chance(0.2)) out.push(`...${r.pick(ctx.spreads)}`);
  return out.join(r.chance(0.5) ? ', ' : ',\n');
}
const obj = (r, ctx, d, kind) => `${ctx.t(kind)}({ ${props(r, ctx, d)} })`;

// A module: {text, exports: [names], spreads}
function module_(r, mod) {
  const head = [];
  const names = [];
  const spreads = [];
  const extra = [];
  const opaque = []; // names of custom codecs
  if (r.chance(0.2)) head.push(r.pick(['// header — naïve', '/* license 🎉 */', '/**\n * File doc\n */', "'use strict';", '\ufeff', '', '']));
  let t;
  if (r.chance(0.75)) {
    head.push("import * as t from 'io-ts';");
    t = (n) => `t.${n}`;
  } else {
    head.push("import { string, number as num, boolean, literal, keyof, type, partial, strict, array, record, union, intersection, undefined as undef } from 'io-ts';");
    t = (n) => (n === 'number' ? 'num' : n === 'undefined' ? 'undef' : n);
  }
  if (r.chance(0.3)) {
    head.push("import { DateFromISOString, NumberFromString as NFS } from 'io-ts-types';");
    extra.push('DateFromISOString', 'NFS');
  }
  let h;
  if (mod.spec || r.chance(0.15)) {
    head.push("import * as h from '@api-ts/io-ts-http';");
    h = (n) => `h.${n}`;
  }
  for (const im of mod.imports || []) {
    if (!im.exports.length) continue;
    const some = r.shuffle(im.exports).slice(0, r.range(1, Math.min(3, im.exports.length)));
    if (r.chance(0.3)) {
      const ns = 'NS' + head.length;
      head.push(`import * as ${ns} from '${im.from}';`);
      for (const n of some) {
        names.push(`${ns}.${n}`);
        if (im.own && im.own.includes(n)) opaque.push(`${ns}.${n}`);
      }
    } else {
      const parts = some.map((n) => {
        const local = r.chance(0.2) || names.includes(n) || mod.exports.includes(n) ? `${n}_${head.length}` : n;
        names.push(local);
        if (im.own && im.own.includes(n)) opaque.push(local);
        return local === n ? n : `${n} as ${local}`;
      });
      head.push(`import { ${parts.join(', ')} } from '${im.from}';`);
    }
  }
  for (const s of mod.stars || []) head.push(`export * from '${s}';`);
  const body = [];
  const ctx = { t, h, names, spreads, extra, opaque };
  for (const n of mod.exports) {
    if (r.chance(0.5)) body.push(doc(r, true));
    const kind = r.weighted([[14, 'codec'], [names.length ? (mod.aliases === undefined ? 2 : mod.aliases) : 0, 'same'], [2, 'enum'], [2, 'arrow'], [0.4, 'alias'], [1, 'declare']]);
    if (kind === 'enum') {
      body.push(`export enum ${n}E { A = 'a', B = 'b' }`, `export const ${n} = ${t('keyof')}(${n}E);`);
    } else if (kind === 'same') {
      body.push(`export const ${n} = ${r.pick(opaque.length && r.chance(0.6) ? opaque : names)};`);
    } else if (kind === 'arrow') {
      body.push(`export const ${n}F = () => ${expr(r, { ...ctx, names: r.chance(0.3) ? names : [] }, 1)};`, `export const ${n} = ${t('type')}({ v: ${n}F() });`);
    } else if (kind === 'alias' && names.length) {
      body.push(`const ${n}Local = ${obj(r, ctx, 1, 'type')};`, `export { ${n}Local as ${n} };`);
      names.push(`${n}Local`);
      continue;
    } else if (kind === 'declare' && r.chance(mod.pkg ? 0.2 : 0.05)) {
      body.push(`export declare const ${n}: unknown;`);
    } else {
      if (r.chance(0.15)) {
        body.push(`const ${n}Props = { ${props(r, ctx, 1)} };`);
        spreads.push(`${n}Props`);
      }
      body.push(`export const ${n} = ${r.chance(0.75) ? obj(r, ctx, 2, r.pick(['type', 'type', 'partial'])) : expr(r, ctx, 2)};`);
    }
    names.push(n);
    if (r.chance(0.1)) body.push('');
  }
  if (mod.spec) spec(r, ctx, body, mod);
  const text = [...head, ...body].join('\n') + (r.chance(0.9) ? '\n' : '');
  return r.chance(0.04) ? text.replace(/\n/g, '\r\n') : text;
}

function route(r, ctx, i) {
  const path = r.pick(['/a', '/users/{id}', '/v1/accounts/{id}/x', '/thing', '/zones', '/v1/yields', '/v1/jobs', '/chains', '/aa', '/Users']) + (r.chance(0.5) ? i : '');
  const req = [];
  if (path.includes('{id}')) req.push(`params: { id: ${ctx.t('string')} }`);
  if (r.chance(0.5)) req.push(`query: { ${props(r, ctx, 1)} }`);
  if (r.chance(0.15)) req.push(`headers: { 'x-a': ${ctx.t('string')} }`);
  const method = r.pick(['GET', 'POST', 'PUT', 'DELETE']);
  if (method !== 'GET' && r.chance(0.8)) req.push(r.chance(0.7) ? `body: { ${props(r, ctx, 2)} }` : `body: ${r.chance(0.05) ? expr(r, ctx, 1) : obj(r, ctx, 2, r.pick(['type', 'partial']))}`);
  const res = r.shuffle(['200', '201', '400', '404', '200', '401', '403', '422', '500', '503']).slice(0, r.range(1, 3)).map((s) => `${r.chance(0.3) ? '\n' + doc(r, true) + '\n' : ''}${s}: ${expr(r, ctx, 2)}`);
  const rq = r.chance(0.1) ? `${ctx.t('union')}([${ctx.h('httpRequest')}({ ${req.join(', ')} }), ${ctx.h('httpRequest')}({ query: { q: ${ctx.t('string')} } })])` : `${ctx.h('httpRequest')}({ ${req.join(', ')} })`;
  return [method, `${ctx.h('httpRoute')}({ path: '${path}', method: '${method}', request: ${rq}, response: { ${res.join(', ')} } })`];
}
function spec(r, ctx, body, mod) {
  const n = r.range(1, 3);
  const entries = [];
  for (let i = 0; i < n; i++) {
    const [m, text] = route(r, ctx, i);
    if (r.chance(0.6)) {
      if (r.chance(0.6)) body.push(doc(r, false));
      body.push(`${r.chance(0.5) ? 'export ' : ''}const route${i} = ${text};`);
      entries.push(`'api.${mod.tag}.${i}': { ${m.toLowerCase()}: route${i} }`);
    } else entries.push(`'api.${mod.tag}.${i}': { ${m.toLowerCase()}: ${text} }`);
  }
  for (const s of mod.specs || []) entries.push(`...${s}`);
  if (r.chance(0.2)) body.push(`/** Server\n * @url https://x.example/${r.int(9)} */`);
  body.push(`export const ${mod.specName} = ${ctx.h('apiSpec')}({ ${entries.join(',\n')} });`);
}

// pre: statements of the module, run once per process
function codecs(r, names, mark, pre, sharing = 0.5) {
  const schema = () => r.pick([`{ type: 'string', format: 'f${mark}' }`, `{ type: 'number', minimum: ${r.int(9)}, title: 't${mark}' }`, `{ type: 'object', properties: { v: { type: 'string' } }, required: ['v'] }`, `{ type: 'array', items: { type: 'number' } }`, `{ type: 'string', enum: ['a${mark}', 'b'] }`, `{ type: 'union', schemas: [{ type: 'string' }, { type: 'number' }] }`]);
  if (!r.chance(sharing)) return `{ ${names.map((n) => `${n}: () => E.right(${schema()})`).join(', ')} }`;
  // one schema object handed out again and again, whole or as a part
  const own = r.chance(0.5);
  const id = 'one' + pre.length;
  const whole = () => r.weighted([[6, id], [1, `{ type: 'union', schemas: [${id}, { type: 'undefined' }] }`], [1, `{ type: 'union', schemas: [${id}] }`], [1, `{ type: 'intersection', schemas: [${id}] }`], [1, `{ type: 'array', items: ${id} }`], [1, `{ type: 'object', properties: { p: ${id} }, required: ['p'] }`]]);
  const fns = names.map((n) => `${n}: () => ${own && r.chance(0.4) ? `E.right(${schema()})` : `E.right(${whole()})`}`).join(', ');
  const def = `const ${id} = ${schema()};`;
  if (r.chance(0.7)) {
    pre.push(def);
    return `{ ${fns} }`;
  }
  return `(() => { ${def} return { ${fns} }; })()`;
}
function codecFile(make) {
  const pre = [];
  const body = make(pre);
  return `${pre.map((l) => l + '\n').join('')}module.exports = (E) => (${body});\n`;
}

// Writes a project below root into files; returns {entry, argv variants}
function project(r, root, P_, files, pkgNames, mark) {
  const put = (p, s) => (files[P.join(root, p)] = s);
  const nPk = r.range(...P_.packages);
  const pkgs = r.shuffle(pkgNames).slice(0, nPk);
  const avail = [];
  const manifest = { name: r.pick(['svc', '@acme/svc', 'API ключ']), version: `1.${r.int(9)}.${mark}` };
  if (r.chance(0.4)) manifest.description = 'desc ' + mark;
  const mkPkg = (name, dir, m) => {
    const pr = r.fork(`pkg/${dir}`);
    const ex = pr.shuffle(NAMES).slice(0, pr.range(1, 4));
    const pj = { name, version: '0.0.' + m };
    const field = pr.weighted([[3, 'source'], [2, 'types'], [2, 'typings'], [1, null]]);
    const main = pr.pick(['src/index.ts', 'index.ts', './src/index.ts', 'dist/index.d.ts']);
    if (field) pj[field] = main;
    const sub = pr.chance(0.5);
    const subEx = pr.shuffle(NAMES).slice(0, 2);
    const base = P.dirname(P.join(dir, main));
    if (sub) files[P.join(base, 'more.ts')] = module_(pr.fork('more'), { exports: subEx, pkg: true });
    const custom = pr.chance(P_.custom);
    const own = custom ? pr.shuffle([...ex, 'Opaque', 'BigNum']).slice(0, pr.range(1, 3)) : [];
    if (pr.chance(P_.broken)) files[P.join(dir, main)] = pr.pick(['export const = ;', '', 'const x = {;']);
    else files[P.join(dir, main)] = module_(pr.fork('main'), { exports: ex, pkg: true, imports: sub ? [{ from: './more', exports: subEx }] : [], stars: sub && pr.chance(0.4) ? ['./more'] : [] });
    if (custom) {
      const f = pr.pick(['openapi-gen.config.js', 'codecs.js', './gen/codecs.js']);
      pj.customCodecFile = f;
      files[P.join(dir, f)] = pr.chance(P_.broken) ? 'module.exports = {}.x.y;' : codecFile((pre) => codecs(pr, own, m, pre, P_.sharedSchema));
    }
    files[P.join(dir, 'package.json')] = JSON.stringify(pj);
    return { exports: [...new Set([...(field || pr.chance(0.2) ? ex : []), ...own, ...(sub && pr.chance(0.2) ? subEx : [])])], own };
  };
  for (const name of pkgs) {
    // a package above the projects, used by all of them
    if (P_.hoisted && r.chance(P_.hoist)) {
      if (!P_.hoisted[name]) P_.hoisted[name] = mkPkg(name, P.join(P.dirname(root), 'node_modules', name), 'h' + mark);
      avail.push({ from: name, ...P_.hoisted[name] });
      continue;
    }
    let dir = P.join(root, 'node_modules', name);
    if (r.chance(P_.link)) {
      const real = P.join(root, 'packages', name.replace('/', '_'));
      files[dir] = { link: P.relative(P.dirname(dir), real) };
      dir = real;
    }
    const ex = mkPkg(name, dir, `${mark}${pkgs.indexOf(name)}`);
    avail.push({ from: name, ...ex });
  }
  if (r.chance(0.1)) avail.push({ from: 'not-installed', exports: ['Ghost'] });
  if (r.chance(P_.fakeIoTs)) {
    put('node_modules/io-ts/package.json', JSON.stringify({ name: 'io-ts', version: '2.1.3', main: 'lib/index.js', typings: 'lib/index.d.ts' }));
    put('node_modules/io-ts/lib/index.d.ts', "export declare const string: unknown;\nexport declare const number: unknown;\nexport interface Foo {}\nexport declare const type: unknown;\n");
    if (r.chance(0.5)) put('node_modules/io-ts-types/package.json', JSON.stringify({ name: 'io-ts-types', version: '0.5.19', typings: 'lib/index.d.ts' })), put('node_modules/io-ts-types/lib/index.d.ts', "export * from './DateFromISOString';\n"), put('node_modules/io-ts-types/lib/DateFromISOString.d.ts', 'export declare const DateFromISOString: unknown;\n');
  }
  // modules of the project
  const nMod = r.range(...P_.modules);
  const mods = [];
  const cyc = r.chance(0.12);
  for (let i = 0; i < nMod; i++) {
    const dir = r.pick(['src', 'src/models', 'src/models', 'src/lib']);
    const asIndex = r.chance(0.15);
    const file = asIndex ? `${dir}/m${i}/index.ts` : `${dir}/m${i}.ts`;
    const ex = [...new Set(r.shuffle(NAMES).slice(0, r.range(1, 3)))];
    mods.push({ i, file, imp: asIndex ? P.dirname(file) : file.replace(/\.ts$/, ''), exports: ex });
  }
  const rel = (from, to) => {
    let x = P.relative(P.dirname(from), to);
    if (!x.startsWith('.')) x = './' + x;
    return x;
  };
  if (r.chance(P_.nested) && pkgs.length) {
    // another copy of a package, seen from one directory only
    mkPkg(pkgs[0], P.join(root, 'src/lib/node_modules', pkgs[0]), `${mark}n`);
  }
  for (const m of mods) {
    const others = mods.filter((o) => o !== m && (cyc || o.i > m.i));
    const imports = r.shuffle(others).slice(0, r.range(0, 2)).map((o) => ({ from: rel(m.file, o.imp), exports: o.exports }));
    for (const a of r.shuffle(avail).slice(0, r.chance(P_.lean) ? 1 : r.range(0, 1))) imports.push(a);
    // star exports in a cycle exhaust the generator's stack, at a depth that depends on the machine
    const later = others.filter((o) => o.i > m.i);
    const stars = later.length && r.chance(0.25) ? [rel(m.file, r.pick(later).imp)] : [];
    put(m.file, r.chance(P_.broken * 0.5) ? 'export const broken = ;;; {' : module_(r.fork('m' + m.i), { exports: m.exports, imports, stars, aliases: P_.aliases }));
  }
  const entry = r.pick(['src/index.ts', 'src/api.ts', 'src/routes/api.ts']);
  const imports = [...r.shuffle(mods).slice(0, r.range(1, 3)).map((o) => ({ from: rel(entry, o.imp), exports: o.exports })), ...r.shuffle(avail).slice(0, r.chance(P_.lean) ? 2 : r.range(0, 2))];
  const ownEx = r.shuffle(NAMES).slice(0, r.range(0, 2));
  put(entry, module_(r.fork('entry'), { exports: ownEx, imports, aliases: P_.aliases, spec: true, specName: 'apiSpec', tag: 'v' + mark, stars: r.chance(0.1) ? [rel(entry, r.pick(mods).imp)] : [] }));
  const argv = [P.join(root, entry)];
  if (r.chance(P_.codecFile)) {
    const names = Object.fromEntries(r.shuffle([...pkgs, 'not-installed', 'io-ts-extra']).slice(0, 2).map((p) => [p, 1]));
    const text = codecFile((pre) => `{ ${Object.keys(names).map((p) => `'${p}': ${codecs(r, r.shuffle(NAMES.concat('Ghost', 'Opaque')).slice(0, 4), mark + 'c', pre, P_.sharedSchema)}`).join(', ')} }`);
    put('gen.config.js', text);
    if (r.chance(0.5)) manifest['openapi-generator'] = { 'codec-file': 'gen.config.js' };
    else argv.push('--codec-file', P.join(root, 'gen.config.js'));
  }
  if (r.chance(0.85)) put('package.json', JSON.stringify(manifest, null, 2));
  if (r.chance(0.3)) argv.push('--name', 'N' + mark);
  if (r.chance(0.2)) argv.push('-v', '9.' + r.int(9));
  if (r.chance(0.2)) argv.push('-d', r.pick(WORDS));
  return { argv, root };
}

// Small edits of a source file that move offsets or change content.
function edited(r, text) {
  const ops = [
    () => `// ${r.pick(WORDS)} ${'x'.repeat(r.int(40))}\n` + text,
    () => text.replace(/t\.string/, 't.number'),
    () => text.replace(/t\.number/, 't.string'),
    () => text.replace(/\/\*\*/, '/** edited ' + r.pick(WORDS)),
    () => text.replace(/(export const \w+ = t\.type\(\{)/, `$1 added${r.int(9)}: t.boolean, `),
    () => text.replace(/\bid: /, 'idx: '),
    () => text + `\nexport const Money = t.type({ edited: t.literal('e${r.int(99)}') });\n`,
    () => text.replace(/export const (\w+) = /, "export const $1 = /* 金 */ "),
    () => text.replace(/@example .*/, '@example 77'),
  ];
  for (let i = 0; i < 6; i++) {
    const x = r.pick(ops)();
    if (x !== text) return x;
  }
  return ops[0]();
}

// A module that needs nothing but io-ts, in the place of another one.
function standIn(r, names) {
  return `import * as t from 'io-ts';\n${names.map((n) => `export const ${n} = t.type({ ${key(r.pick(PROPS))}: t.${r.pick(['string', 'number', 'boolean'])}, moved: t.literal('m${r.int(99)}') });`).join('\n')}\n`;
}
const exportsOf = (text) => [...String(text).matchAll(/^export const (\w+)/gm)].map((m) => m[1]).filter((n) => n !== 'apiSpec');

// Edits of one stage: contents, manifests, where a module or a package lives, what is there at all.
// Codec files are never edited (a process loads their modules once), but a manifest may name another one.
function stageEdits(r, current) {
  const edits = [];
  const put = (path, data) => {
    if (data === null) delete current[path];
    else current[path] = data;
    edits.push({ path, data });
  };
  const files = Object.keys(current);
  const sources = files.filter((f) => /\.ts$/.test(f) && typeof current[f] === 'string');
  const manifests = files.filter((f) => f.includes('/package.json') && typeof current[f] === 'string');
  const modules = sources.filter((f) => /\/m\d+(\/index)?\.ts$/.test(f));
  const links = files.filter((f) => typeof current[f] !== 'string');
  const kind = r.weighted([[8, 'source'], [manifests.length ? 3 : 0, 'manifest'], [modules.length ? 3 : 0, 'move'], [links.length ? 1 : 0, 'link'], [0.6, 'delete']]);
  if (kind === 'manifest') {
    const f = r.pick(manifests);
    let m;
    try {
      m = JSON.parse(current[f]);
    } catch (_) {
      m = {};
    }
    const dir = P.dirname(f);
    const field = ['source', 'types', 'typings'].find((k) => m[k]);
    const what = r.pick(['entry', 'entry', 'field', 'codec', 'codec', 'version', 'broken']);
    if (what === 'entry' && field) {
      const main = P.join(dir, m[field]);
      const alt = P.join(P.dirname(main), `alt${r.int(3)}.ts`);
      put(alt, standIn(r, exportsOf(current[main] || 'export const Money')));
      m[field] = './' + P.relative(dir, alt);
    } else if (what === 'field' && field) {
      const v = m[field];
      delete m[field];
      if (r.chance(0.7)) m[r.pick(['source', 'types', 'typings'])] = v;
    } else if (what === 'codec') {
      const c = `codecs${r.int(1e6)}.js`;
      const names = r.shuffle(NAMES.concat('Opaque', 'BigNum')).slice(0, 5);
      if (r.chance(0.3)) delete m.customCodecFile;
      else {
        put(P.join(dir, c), codecFile((pre) => codecs(r, names, 'x' + r.int(99), pre)));
        m.customCodecFile = c;
      }
    } else if (what === 'broken' && r.chance(0.3)) return put(f, '{ broken'), edits;
    else m.version = '7.' + r.int(99);
    put(f, JSON.stringify(m));
  } else if (kind === 'move') {
    const f = r.pick(modules);
    const names = exportsOf(current[f]);
    if (f.endsWith('/index.ts')) {
      // the file takes precedence over the directory
      put(P.dirname(f) + '.ts', standIn(r, names));
      if (r.chance(0.4)) put(f, null);
    } else {
      put(f.replace(/\.ts$/, '/index.ts'), standIn(r, names));
      put(f, null);
    }
  } else if (kind === 'link') {
    const f = r.pick(links);
    const real = P.resolve(P.dirname(f), current[f].link);
    const copy = real + 'X';
    for (const g of files) if (g.startsWith(real + '/') && typeof current[g] === 'string' && !current[copy + g.slice(real.length)]) put(copy + g.slice(real.length), /\.ts$/.test(g) ? edited(r, current[g]) : current[g]);
    put(f, { link: P.relative(P.dirname(f), copy) });
  } else if (kind === 'delete') {
    put(r.pick([...sources, ...manifests]), null);
  } else {
    const f = r.pick(sources);
    put(f, edited(r, current[f]));
  }
  return edits;
}

function fault(r, files, root) {
  if (r.chance(0.35)) {
    // aim at a file rather than at a moment
    const own = Object.keys(files).filter((f) => f.startsWith(root + '/') || /^\/w\/node_modules\//.test(f));
    const cls = r.pick([/\.js$/, /package\.json$/, /node_modules/, /\.ts$/, /./]);
    const some = own.filter((f) => cls.test(f));
    if (some.length) return { mode: 'file', path: r.pick(some), skip: r.weighted([[5, 0], [2, 1], [1, 2]]), times: r.weighted([[3, 1], [2, 99]]), code: r.pick(CODES), frac: 0 };
  }
  const mode = r.weighted([[5, 'once'], [2, 'path'], [1, 'burst'], [1, 'all']]);
  return { frac: r.chance(0.15) ? 0.9 + r.float() * 0.1 : r.float(), code: r.pick(CODES), mode, len: mode === 'burst' ? r.range(2, 6) : undefined };
}

function genPlan(seed, over) {
  const Q = { ...BASE, ...over };
  const r = new Rng(seed);
  const files = {};
  const nRoots = r.range(...Q.roots);
  const projects = [];
  Q.hoisted = nRoots > 1 ? {} : undefined;
  const pkgPool = r.shuffle(PKGS).slice(0, 4);
  for (let i = 0; i < nRoots; i++) {
    const root = `/w/p${i}`;
    const pr = r.fork('project' + i);
    projects.push(project(pr, root, Q, files, r.chance(Q.samePkg) ? pkgPool : pr.shuffle(PKGS), i));
  }
  // directories a program may happen to be started from
  const cwds = ['/', '/w', ...projects.map((p) => p.root), ...projects.map((p) => p.root + '/node_modules'), '/elsewhere'];
  files['/elsewhere/keep'] = '';
  for (const n of PKGS) if (r.chance(0.3)) files[`/elsewhere/${n}/keep`] = '';
  const current = { ...files };
  const stages = [];
  const nStages = r.range(...Q.stages);
  let gid = 0;
  for (let s = 0; s < nStages; s++) {
    const edits = [];
    if (s > 0 && r.chance(Q.edit)) {
      for (let k = r.range(1, 2); k > 0; k--) edits.push(...stageEdits(r, current));
    }
    const n = r.range(...Q.gens);
    const clean = r.chance(Q.stageFaultFree);
    const gens = [];
    const spread = r.pick(Q.spread);
    for (let k = 0; k < n; k++) {
      const p = r.pick(projects);
      const g = { id: 'g' + gid++, argv: p.argv.slice(), cwd: r.pick(cwds), at: r.float() * spread, lat: { min: r.pick([0, 0, 1]), jit: r.pick([0, 2, 10, 100]) } };
      if (r.chance(0.25)) g.rel = true;
      if (r.chance(Q.locale)) g.locale = r.pick(LOCALES);
      if (r.chance(0.2)) g.clock = Math.floor((r.float() - 0.3) * 3e11);
      // the clock is set, or the disk is slow, while the program runs
      if (r.chance(0.2)) g.drift = r.pick([0.4, 30, 1500, 40000, -20, -5000]);
      if (r.chance(0.2)) g.tty = r.pick([80, 120, 204]);
      if (r.chance(0.3)) g.env = Object.fromEntries(r.shuffle(Object.entries(ENV)).slice(0, r.range(1, 4)));
      if (r.chance(Q.stall)) Object.assign(g.lat, { stall: 0.2, stallMs: r.pick([50, 2000, 60000]) });
      if (!clean && r.chance(Q.fault)) g.faults = Array.from({ length: r.weighted([[5, 1], [1, 2]]) }, () => fault(r, current, p.root));
      if (!clean && r.chance(Q.outFault)) g.outFault = { code: r.pick(['ENOSPC', 'EPIPE', 'EIO', 'EAGAIN']), nth: r.pick([0, 0, 0, 1]), keep: r.pick([0, 0.3, 0.99]) };
      gens.push(g);
    }
    stages.push({ edits, gens });
  }
  return { seed, base: r.pick([1, 1, 5, 70000, 123456789]), files, stages };
}

module.exports = { genPlan, BASE };
