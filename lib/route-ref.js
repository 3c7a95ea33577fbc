'use strict';
// Reference reading of the router: path patterns and first-match order, written from the documentation
// ({name} and :name are single-segment parameters, * is anything, matching ignores case and a trailing slash unless
// the router says otherwise). Not shared with the code under test.

function esc(s) {
  return s.replace(/[.*+?^${}()|[\]\\/-]/g, '\\$&');
}

// spec paths ({name}) -> {re, keys}
function compileSpecPath(p, opts = {}) {
  const keys = [];
  let src = '';
  let last = 0;
  const r = /\{(\w+)\}/g;
  let m;
  while ((m = r.exec(p))) {
    src += esc(p.slice(last, m.index)) + '([^/]+?)';
    keys.push(m[1]);
    last = m.index + m[0].length;
  }
  src += esc(p.slice(last));
  return finish(src, keys, p, opts);
}
// express aliases in the small grammar the generator uses (:name, :name(pattern), trailing /:name?, *)
function compileAlias(p, opts = {}) {
  const keys = [];
  let src = '';
  let star = 0;
  let last = 0;
  const r = /\/:(\w+)\?|:(\w+)(?:\(([^()]*)\))?|\*/g;
  let m;
  while ((m = r.exec(p))) {
    src += esc(p.slice(last, m.index));
    if (m[0] === '*') {
      src += '(.*)';
      keys.push(star++);
    } else if (m[1]) {
      src += '(?:/([^/]+?))?';
      keys.push(m[1]);
    } else {
      src += m[3] ? `(${m[3]})` : '([^/]+?)';
      keys.push(m[2]);
    }
    last = m.index + m[0].length;
  }
  src += esc(p.slice(last));
  return finish(src, keys, p, opts);
}
function finish(src, keys, p, opts) {
  if (!opts.strict) {
    if (p.endsWith('/')) src = src.replace(/(?:\\\/)$/, '');
    src += '\\/?';
  }
  return { re: new RegExp('^' + src + '$', opts.caseSensitive ? '' : 'i'), keys };
}

// -> null | {params} | {error}
function matchPath(c, pathname) {
  const m = c.re.exec(pathname);
  if (!m) return null;
  const params = {};
  for (let i = 0; i < c.keys.length; i++) {
    const v = m[i + 1];
    if (v === undefined) {
      if (!(c.keys[i] in params)) params[c.keys[i]] = undefined;
      continue;
    }
    try {
      params[c.keys[i]] = decodeURIComponent(v);
    } catch (_) {
      return { error: 400 };
    }
  }
  return { params };
}

function pathnameOf(url) {
  const q = url.indexOf('?');
  return q < 0 ? url : url.slice(0, q);
}

// does `url` (as the parent sees it) fall under a mount path made of literal or :param segments?
function underMount(mount, pathname) {
  if (!mount || mount === '/') return { rest: pathname, params: {} };
  const ms = mount.split('/').slice(1);
  const ps = pathname.split('/').slice(1);
  if (ps.length < ms.length) return null;
  const params = {};
  for (let i = 0; i < ms.length; i++) {
    if (ms[i].startsWith(':')) {
      if (ps[i] === '') return null;
      try {
        params[ms[i].slice(1)] = decodeURIComponent(ps[i]);
      } catch (_) {
        return { error: 400 };
      }
    } else if (ms[i].toLowerCase() !== ps[i].toLowerCase()) return null;
  }
  const rest = '/' + ps.slice(ms.length).join('/');
  return { rest, params };
}

module.exports = { compileSpecPath, compileAlias, matchPath, pathnameOf, underMount };
