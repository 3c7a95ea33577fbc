'use strict';
// An in-memory file tree behind node's fs, fs/promises and fs.promises interfaces. Synchronous calls answer at once,
// asynchronous ones when the simulator says so; `hook(op, path)` may make any of them fail.
const P = require('path').posix;
const { Buffer } = require('buffer');

const ERRNO = { EPERM: -1, ENOENT: -2, EIO: -5, EBADF: -9, EAGAIN: -11, ENOMEM: -12, EACCES: -13, EBUSY: -16, EEXIST: -17, ENOTDIR: -20, EISDIR: -21, EINVAL: -22, ENFILE: -23, EMFILE: -24, ENOSPC: -28, EROFS: -30, EPIPE: -32, ELOOP: -40, ETIMEDOUT: -110, ESTALE: -116 };
const TEXT = { EPERM: 'operation not permitted', ENOENT: 'no such file or directory', EIO: 'i/o error', EBADF: 'bad file descriptor', EAGAIN: 'resource temporarily unavailable', ENOMEM: 'not enough memory', EACCES: 'permission denied', EBUSY: 'resource busy or locked', EEXIST: 'file already exists', ENOTDIR: 'not a directory', EISDIR: 'illegal operation on a directory', EINVAL: 'invalid argument', ENFILE: 'file table overflow', EMFILE: 'too many open files', ENOSPC: 'no space left on device', EROFS: 'read-only file system', EPIPE: 'broken pipe', ELOOP: 'too many symbolic links encountered', ETIMEDOUT: 'connection timed out', ESTALE: 'stale file handle' };

function fsError(code, syscall, path) {
  const limit = Error.stackTraceLimit;
  Error.stackTraceLimit = 0; // nobody looks at the stack of the many expected ENOENTs
  const e = new Error(`${code}: ${TEXT[code] || 'unknown error'}, ${syscall}${path === undefined ? '' : ` '${path}'`}`);
  Error.stackTraceLimit = limit;
  e.errno = ERRNO[code] || -5;
  e.code = code;
  e.syscall = syscall;
  if (path !== undefined) e.path = path;
  return e;
}

class Tree {
  constructor(files) {
    this.nodes = new Map([['/', { t: 'd', kids: new Set() }]]);
    for (const p of Object.keys(files || {})) this.put(p, files[p]);
  }
  put(path, content) {
    const dir = P.dirname(path);
    this.mkdir(dir);
    this.nodes.get(dir).kids.add(P.basename(path));
    this.nodes.set(path, typeof content === 'string' ? { t: 'f', data: content, mt: (this.writes = (this.writes || 0) + 1) } : { t: 'l', to: content.link });
  }
  mkdir(dir) {
    if (this.nodes.has(dir)) return;
    const up = P.dirname(dir);
    this.mkdir(up);
    this.nodes.get(up).kids.add(P.basename(dir));
    this.nodes.set(dir, { t: 'd', kids: new Set() });
  }
  remove(path) {
    const n = this.nodes.get(path);
    if (!n) return;
    if (n.t === 'd') for (const k of [...n.kids]) this.remove(P.join(path, k));
    this.nodes.delete(path);
    const up = this.nodes.get(P.dirname(path));
    if (up) up.kids.delete(P.basename(path));
  }
  // -> {path, node} with links resolved; throws a code
  walk(path, follow = true, depth = 0) {
    if (depth > 30) throw 'ELOOP';
    const parts = P.normalize(path).split('/').filter(Boolean);
    let cur = '/';
    for (let i = 0; i < parts.length; i++) {
      const n = this.nodes.get(cur);
      if (n.t !== 'd') throw 'ENOTDIR';
      let next = cur === '/' ? '/' + parts[i] : `${cur}/${parts[i]}`;
      const m = this.nodes.get(next);
      if (!m) throw 'ENOENT';
      if (m.t === 'l' && (follow || i < parts.length - 1)) {
        next = this.walk(P.resolve(cur, m.to), true, depth + 1).path;
      }
      cur = next;
    }
    return { path: cur, node: this.nodes.get(cur) };
  }
}

class Stats {
  constructor(node, ino) {
    this._t = node.t;
    this.size = node.t === 'f' ? Buffer.byteLength(node.data) : 0;
    this.mode = node.t === 'd' ? 0o40755 : node.t === 'l' ? 0o120777 : 0o100644;
    this.ino = ino;
    this.dev = 1;
    this.nlink = 1;
    this.mtimeMs = this.ctimeMs = this.atimeMs = this.birthtimeMs = 1600000000000 + (node.mt || 0) * 1000;
    this.mtime = this.ctime = this.atime = this.birthtime = new Date(this.mtimeMs);
  }
  isFile() {
    return this._t === 'f';
  }
  isDirectory() {
    return this._t === 'd';
  }
  isSymbolicLink() {
    return this._t === 'l';
  }
  isFIFO() {
    return false;
  }
  isSocket() {
    return false;
  }
  isBlockDevice() {
    return false;
  }
  isCharacterDevice() {
    return false;
  }
}

// io: {fds(): Map of open files, stdio(fd, text): code|undefined, tree(): Tree, cwd(): string, hook(op, path): code|undefined, later(op, path, fn), dirOrder(names)}
function makeFs(io) {
  const str = (p) => (typeof p === 'string' ? p : p instanceof URL ? require('url').fileURLToPath(p) : Buffer.isBuffer(p) ? p.toString() : String(p));
  const abs = (p) => P.resolve(io.cwd(), str(p));
  const syscalls = { readFile: 'open', opendir: 'opendir', stat: 'stat', lstat: 'lstat', access: 'access', realpath: 'lstat', readdir: 'scandir', exists: 'access', readlink: 'readlink' };
  const enc = (o) => (typeof o === 'string' ? o : o && o.encoding);
  // the one place where an operation happens: may throw an fs error
  function run(op, path, opts) {
    if (typeof path === 'number' || (path && path._isHandle)) return runFd(op, path, opts);
    const p = abs(path);
    const code = io.hook(op, p);
    if (code) throw fsError(code, code === 'EIO' && op === 'readFile' ? 'read' : syscalls[op] || op, code === 'EIO' && op === 'readFile' ? undefined : str(path));
    try {
      const tree = io.tree();
      if (op === 'lstat') {
        const w = tree.walk(p, false);
        return new Stats(w.node, ino(w.path));
      }
      if (op === 'readlink') {
        const w = tree.walk(p, false);
        if (w.node.t !== 'l') throw 'EINVAL';
        return w.node.to;
      }
      const w = tree.walk(p);
      switch (op) {
        case 'readFile': {
          if (w.node.t === 'd') throw 'EISDIR';
          const e = enc(opts);
          return e && e !== 'buffer' ? Buffer.from(w.node.data).toString(e) : Buffer.from(w.node.data);
        }
        case 'stat':
          return new Stats(w.node, ino(w.path));
        case 'access':
          return undefined;
        case 'exists':
          return true;
        case 'realpath':
          return w.path;
        case 'readdir': {
          if (w.node.t !== 'd') throw 'ENOTDIR';
          const names = io.dirOrder([...w.node.kids].sort());
          if (opts && opts.withFileTypes)
            return names.map((name) => {
              const s = new Stats(tree.nodes.get(P.join(w.path, name)), 0);
              return Object.assign(s, { name, path: w.path, parentPath: w.path });
            });
          return names;
        }
        default:
          throw 'EINVAL';
      }
    } catch (c) {
      if (typeof c !== 'string') throw c;
      throw fsError(c, syscalls[op] || op, str(path));
    }
  }
  const fdOf = (h) => {
    const f = io.fds().get(typeof h === 'number' ? h : h.fd);
    if (!f) throw fsError('EBADF', 'read');
    return f;
  };
  function runFd(op, h, opts) {
    const f = fdOf(h);
    const code = io.hook(op === 'stat' || op === 'fstat' ? 'stat' : 'read', f.path);
    if (code) throw fsError(code, op === 'readFile' ? 'read' : op);
    if (op === 'stat') return new Stats(f.node, ino(f.path));
    if (f.node.t === 'd') throw fsError('EISDIR', 'read');
    const rest = Buffer.from(f.node.data).subarray(f.pos);
    f.pos += rest.length;
    const e = enc(opts);
    return e && e !== 'buffer' ? rest.toString(e) : rest;
  }
  function open(path, flags) {
    const p = abs(path);
    const code = io.hook('open', p);
    if (code) throw fsError(code, 'open', str(path));
    if (flags !== undefined && flags !== 0 && !/^(r|rs|sr)$/.test(String(flags))) throw fsError('EROFS', 'open', str(path));
    let w;
    try {
      w = io.tree().walk(p);
    } catch (c) {
      throw fsError(c, 'open', str(path));
    }
    const fds = io.fds();
    let fd = 20;
    while (fds.has(fd)) fd++;
    fds.set(fd, { path: w.path, node: w.node, pos: 0 });
    return fd;
  }
  function close(h) {
    const fd = typeof h === 'number' ? h : h.fd;
    fdOf(fd);
    io.fds().delete(fd);
  }
  function read(h, buf, off, len, pos) {
    if (off && typeof off === 'object') ({ offset: off, length: len, position: pos } = off);
    off = off || 0;
    if (len === undefined || len === null) len = buf.byteLength - off;
    const f = fdOf(h);
    const code = io.hook('read', f.path);
    if (code) throw fsError(code, 'read');
    if (f.node.t === 'd') throw fsError('EISDIR', 'read');
    const at = typeof pos === 'number' && pos >= 0 ? pos : f.pos;
    const n = Buffer.from(f.node.data).subarray(at, at + len).copy(Buffer.from(buf.buffer, buf.byteOffset, buf.byteLength), off);
    if (at === f.pos && !(typeof pos === 'number' && pos >= 0)) f.pos += n;
    return n;
  }
  const later = (op, p, fn, done) =>
    io.later(op, p, () => {
      let v;
      try {
        v = fn();
      } catch (e) {
        return done(e);
      }
      done(null, v);
    });
  const inos = new Map();
  function ino(p) {
    if (!inos.has(p)) inos.set(p, inos.size + 10);
    return inos.get(p);
  }
  const where = (h) => {
    const f = typeof h === 'number' || (h && h._isHandle) ? io.fds().get(typeof h === 'number' ? h : h.fd) : undefined;
    return f ? f.path : typeof h === 'number' || (h && h._isHandle) ? '' : abs(h);
  };
  const refuse = (name) => () => {
    throw fsError('EROFS', name);
  };
  const sync = {};
  const cb = {};
  const prom = {};
  for (const op of ['readFile', 'stat', 'lstat', 'access', 'realpath', 'readdir', 'readlink']) {
    sync[op + 'Sync'] = (path, opts) => {
      try {
        return run(op, path, opts);
      } catch (e) {
        if ((op === 'stat' || op === 'lstat') && opts && opts.throwIfNoEntry === false && (e.code === 'ENOENT' || e.code === 'ENOTDIR')) return undefined;
        throw e;
      }
    };
    cb[op] = (path, ...a) => {
      const done = a[a.length - 1];
      if (typeof done !== 'function') throw new TypeError('callback must be a function');
      io.later(op, where(path), () => {
        let v;
        try {
          v = run(op, path, typeof a[0] === 'function' ? undefined : a[0]);
        } catch (e) {
          return done(e);
        }
        if (op === 'access') done(null);
        else done(null, v);
      });
    };
    prom[op] = (path, opts) => new Promise((ok, no) => cb[op](path, opts, (e, v) => (e ? no(e) : ok(v))));
  }
  sync.existsSync = (path) => {
    try {
      return run('exists', path);
    } catch (_) {
      return false;
    }
  };
  cb.exists = (path, done) =>
    io.later('exists', abs(path), () => {
      let v = false;
      try {
        v = run('exists', path);
      } catch (_) {}
      done(v);
    });
  cb.exists[require('util').promisify.custom] = (path) => new Promise((r) => cb.exists(path, r));
  sync.realpathSync.native = sync.realpathSync;
  cb.realpath.native = cb.realpath;
  const constants = { F_OK: 0, R_OK: 4, W_OK: 2, X_OK: 1 };
  const last = (a) => {
    const f = a[a.length - 1];
    if (typeof f !== 'function') throw new TypeError('callback must be a function');
    return f;
  };
  sync.openSync = (path, flags) => open(path, flags);
  sync.closeSync = (fd) => close(fd);
  sync.readSync = (fd, buf, ...a) => read(fd, buf, ...a);
  sync.fstatSync = (fd) => runFd('stat', fd);
  cb.open = (path, ...a) => later('open', abs(path), () => open(path, typeof a[0] === 'function' ? undefined : a[0]), last(a));
  cb.close = (fd, done) => later('close', where(fd), () => close(fd), done || (() => {}));
  cb.fstat = (fd, ...a) => later('stat', where(fd), () => runFd('stat', fd), last(a));
  cb.read = (fd, buf, ...a) => {
    const done = last(a);
    later('read', where(fd), () => read(fd, buf, ...a.slice(0, -1)), (e, n) => (e ? done(e) : done(null, n, buf)));
  };
  cb.read[require('util').promisify.custom] = (fd, buf, ...a) => new Promise((ok, no) => cb.read(fd, buf, ...a, (e, bytesRead) => (e ? no(e) : ok({ bytesRead, buffer: buf }))));
  const call = (f, ...a) => new Promise((ok, no) => f(...a, (e, v) => (e ? no(e) : ok(v))));
  class FileHandle {
    constructor(fd) {
      this.fd = fd;
      Object.defineProperty(this, '_isHandle', { value: true });
    }
    readFile(o) {
      return prom.readFile(this, o);
    }
    stat() {
      return call(cb.fstat, this.fd);
    }
    read(buf, ...a) {
      if (!ArrayBuffer.isView(buf)) {
        a = buf ? [buf] : a;
        buf = (buf && buf.buffer) || Buffer.alloc(16384);
      }
      return cb.read[require('util').promisify.custom](this.fd, buf, ...a);
    }
    async close() {
      const fd = this.fd;
      this.fd = -1;
      if (fd >= 0) await call(cb.close, fd);
    }
    createReadStream(o) {
      return cb.createReadStream(undefined, { ...o, fd: this.fd });
    }
    [Symbol.asyncDispose || Symbol('asyncDispose')]() {
      return this.close();
    }
  }
  prom.open = async (path, flags) => new FileHandle(await call(cb.open, path, flags));
  cb.createReadStream = (path, o) => {
    const opts = typeof o === 'string' ? { encoding: o } : o || {};
    const { Readable } = require('stream');
    let fd = opts.fd && opts.fd._isHandle ? opts.fd.fd : opts.fd;
    const own = fd === undefined || fd === null;
    const s = new Readable({
      encoding: opts.encoding,
      highWaterMark: opts.highWaterMark || 65536,
      construct(done) {
        if (!own) return done();
        cb.open(path, opts.flags, (e, n) => {
          if (e) return done(e);
          s.fd = fd = n;
          done();
          s.emit('open', n);
          s.emit('ready');
        });
      },
      read(n) {
        const buf = Buffer.alloc(Math.min(n, 65536));
        cb.read(fd, buf, 0, buf.length, null, (e, k) => (e ? this.destroy(e) : this.push(k ? buf.subarray(0, k) : null)));
      },
      destroy(err, done) {
        if (!own || fd === undefined) return done(err);
        cb.close(fd, (e) => done(err || e));
      },
    });
    s.path = path;
    return s;
  };
  const dirHandle = (path) => {
    const list = run('readdir', path, { withFileTypes: true });
    const dir = {
      path: str(path),
      readSync: () => list.shift() || null,
      read: (done) => (done ? void later('readdir', abs(path), () => list.shift() || null, done) : call(dir.read)),
      closeSync() {},
      close: async () => {},
      async *[Symbol.asyncIterator]() {
        for (let e; (e = await dir.read()) !== null; ) yield e;
      },
    };
    return dir;
  };
  sync.opendirSync = dirHandle;
  cb.opendir = (path, ...a) => later('readdir', abs(path), () => dirHandle(path), last(a));
  prom.opendir = (path) => call(cb.opendir, path);
  // the standard output and error are the only files that can be written
  const stdFd = (t) => (t === 1 || t === '/dev/stdout' ? 1 : t === 2 || t === '/dev/stderr' ? 2 : 0);
  const stdWrite = (t, data, op) => {
    const fd = stdFd(t);
    if (!fd) throw fsError('EROFS', op, typeof t === 'string' ? t : undefined);
    const text = ArrayBuffer.isView(data) ? Buffer.from(data.buffer, data.byteOffset, data.byteLength).toString() : String(data);
    const code = io.stdio(fd, text);
    if (code) throw fsError(code, 'write');
    return Buffer.byteLength(text);
  };
  const slice = (data, off, len) => (ArrayBuffer.isView(data) && typeof off === 'number' ? data.subarray(off, len === undefined || len === null ? undefined : off + len) : data);
  sync.writeSync = (fd, data, off, len) => stdWrite(fd, slice(data, off, len), 'write');
  cb.write = (fd, data, ...a) => later('write', '', () => stdWrite(fd, slice(data, a[0], a[1]), 'write'), (e, n) => (e ? last(a)(e) : last(a)(null, n, data)));
  for (const w of ['writeFile', 'appendFile']) {
    sync[w + 'Sync'] = (t, data) => void stdWrite(t, data, 'open');
    cb[w] = (t, data, ...a) => later(w, '', () => void stdWrite(t, data, 'open'), last(a));
    prom[w] = (t, data) => call(cb[w], t, data);
  }
  for (const w of ['mkdir', 'rm', 'unlink', 'rename', 'rmdir', 'copyFile']) {
    sync[w + 'Sync'] = refuse(w);
    cb[w] = (...a) => io.later(w, '', () => a[a.length - 1](fsError('EROFS', w)));
    prom[w] = async () => refuse(w)();
  }
  prom.constants = constants;
  const fs = { ...cb, ...sync, constants, promises: prom, F_OK: 0, R_OK: 4, W_OK: 2, X_OK: 1, Stats };
  fs.default = fs;
  prom.default = prom;
  return { fs, promises: prom };
}

module.exports = { Tree, makeFs, fsError, ERRNO };
