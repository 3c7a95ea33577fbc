'use strict';
// Compiles the TypeScript sources of /repo's working tree and loads them, any number of times, each time as a fresh
// set of module instances (one per simulated process). Nothing is read from /repo's dist.
const fs = require('fs');
const path = require('path');
const vm = require('vm');
const crypto = require('crypto');
const { createRequire } = require('module');

const REPO = process.env.VERIF_REPO || '/repo';

function listTs(dir, out = []) {
  for (const e of fs.readdirSync(dir, { withFileTypes: true })) {
    const f = path.join(dir, e.name);
    if (e.isDirectory()) {
      if (e.name !== 'node_modules') listTs(f, out);
    } else if (/\.(ts|js|json)$/.test(e.name) && !/\.d\.ts$/.test(e.name)) out.push(f);
  }
  return out;
}

function packages() {
  const base = path.join(REPO, 'packages');
  const out = {};
  for (const d of fs.readdirSync(base)) {
    const pj = path.join(base, d, 'package.json');
    const src = path.join(base, d, 'src');
    if (!fs.existsSync(pj) || !fs.existsSync(src)) continue;
    out[JSON.parse(fs.readFileSync(pj, 'utf8')).name] = { dir: path.join(base, d), src };
  }
  return out;
}

// Returns {packages, files: {absPath: js}, hash}
function compileRepo() {
  const ts = createRequire(path.join(REPO, 'package.json'))('typescript');
  const pk = packages();
  const files = {};
  const h = crypto.createHash('sha256');
  for (const name of Object.keys(pk).sort()) {
    for (const f of listTs(pk[name].src).sort()) {
      const src = fs.readFileSync(f, 'utf8');
      h.update(f).update('\0').update(src).update('\0');
      if (f.endsWith('.ts')) {
        files[f] = ts.transpileModule(src, {
          fileName: f,
          compilerOptions: {
            target: ts.ScriptTarget.ES2019,
            module: ts.ModuleKind.CommonJS,
            moduleResolution: ts.ModuleResolutionKind.NodeJs,
            esModuleInterop: true,
            downlevelIteration: true,
            experimentalDecorators: true,
            removeComments: true,
          },
        }).outputText;
      } else files[f] = src;
    }
  }
  return { repo: REPO, packages: pk, files, hash: h.digest('hex').slice(0, 16) };
}

class RepoImage {
  constructor(compiled) {
    this.c = compiled;
    this.fns = new Map();
    this.requires = new Map();
  }
  // Compiles a module body once per worker; instances are created by calling it again.
  _fn(file) {
    let fn = this.fns.get(file);
    if (!fn) {
      const code = this.c.files[file].replace(/^#!.*/, '');
      fn = vm.runInThisContext(
        `(function (exports, require, module, __filename, __dirname, process, console) {${code}\n})`,
        { filename: file },
      );
      this.fns.set(file, fn);
    }
    return fn;
  }
  _find(base) {
    for (const c of [base, base + '.ts', base + '.js', base + '.json', base + '/index.ts', base + '/index.js'])
      if (this.c.files[c] !== undefined) return c;
    return undefined;
  }
  _external(fromFile) {
    let r = this.requires.get(fromFile);
    if (!r) this.requires.set(fromFile, (r = createRequire(fromFile)));
    return r;
  }
  resolveLocal(fromFile, id) {
    if (id.startsWith('.')) return this._find(path.resolve(path.dirname(fromFile), id));
    const m = /^(@[^/]+\/[^/]+|[^/]+)(\/.*)?$/.exec(id);
    const pkg = m && this.c.packages[m[1]];
    if (!pkg) return undefined;
    if (!m[2]) return this._find(path.join(pkg.src, 'index'));
    const sub = m[2].replace(/^\/dist\//, '/');
    return this._find(path.join(pkg.dir, sub)) || this._find(path.join(pkg.src, sub));
  }
  // A fresh set of module instances. overrides(id, fromFile, next) may supply a module.
  instantiate({ overrides, process: proc = process, console: cons = console } = {}) {
    const cache = new Map();
    const image = this;
    const load = (file, again) => {
      const hit = cache.get(file);
      if (hit && !again) return hit.exports;
      const module = { exports: {}, filename: file, id: file, children: [], paths: [], loaded: false };
      cache.set(file, module);
      if (file.endsWith('.json')) {
        module.exports = JSON.parse(image.c.files[file]);
        return module.exports;
      }
      const req = (id) => {
        const local = image.resolveLocal(file, id);
        if (local !== undefined) return load(local);
        const real = () => image._external(file)(id);
        if (overrides) {
          const o = overrides(id, file, real);
          if (o !== undefined) return o.module;
        }
        return real();
      };
      req.resolve = (id) => image.resolveLocal(file, id) || image._external(file).resolve(id);
      req.cache = {};
      req.main = undefined;
      try {
        image._fn(file).call(module.exports, module.exports, req, module, file, path.dirname(file), proc, cons);
      } catch (e) {
        cache.delete(file);
        throw e;
      }
      module.loaded = true;
      return module.exports;
    };
    return {
      pkg: (name) => {
        const p = image.c.packages[name];
        if (!p) throw new Error('no package ' + name);
        return load(image._find(path.join(p.src, 'index')));
      },
      file: (pkgName, rel) => load(image._find(path.join(image.c.packages[pkgName].src, rel))),
      // evaluates a program file once more, as another start of the program sharing this process's other modules
      again: (file) => load(file, true),
    };
  }
  external(id) {
    return createRequire(path.join(REPO, 'package.json'))(id);
  }
}

module.exports = { REPO, compileRepo, RepoImage };
