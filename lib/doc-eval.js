'use strict';
// Evaluates a TypeScript source tree the way a program that imports it would: transpiled module by module, with the
// instance of the codec libraries that the simulated process uses.
const P = require('path').posix;
const vm = require('vm');

let ts = null;
const texts = new Map(); // text -> compiled function

function compile(image, text) {
  let fn = texts.get(text);
  if (!fn) {
    ts = ts || image.external('typescript');
    const js = ts.transpileModule(text, { compilerOptions: { module: ts.ModuleKind.CommonJS, target: ts.ScriptTarget.ES2020, esModuleInterop: true } }).outputText;
    fn = vm.runInThisContext(`(function (exports, require, module) {${js}\n})`);
    if (texts.size > 4000) texts.clear();
    texts.set(text, fn);
  }
  return fn;
}

function find(files, base) {
  for (const c of [base, base + '.ts', base + '/index.ts']) if (typeof files[c] === 'string') return c;
  throw new Error('no module ' + base);
}

function evaluate(image, files, entry, externals) {
  const cache = new Map();
  const load = (path) => {
    const hit = cache.get(path);
    if (hit) return hit.exports;
    const module = { exports: {} };
    cache.set(path, module);
    compile(image, files[path])(module.exports, (id) => {
      if (id in externals) return externals[id];
      if (id.startsWith('.')) return load(find(files, P.resolve(P.dirname(path), id)));
      for (let d = P.dirname(path); ; d = P.dirname(d)) {
        const dir = P.join(d, 'node_modules', id);
        const text = files[dir + '/package.json'];
        if (text) {
          const pkg = JSON.parse(text);
          return load(find(files, P.join(dir, pkg.source || pkg.types || pkg.typings || pkg.main)));
        }
        if (d === '/') throw new Error('no package ' + id);
      }
    }, module);
    return module.exports;
  };
  return load(entry);
}

module.exports = { evaluate };
