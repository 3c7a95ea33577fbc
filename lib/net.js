'use strict';
// Simulated byte-stream network. Real node http clients, agents and servers run on top of these sockets.
const { Duplex } = require('stream');
const http = require('http');
const { Rng } = require('./rng');

function econn(code, msg) {
  const e = new Error(msg || `${code === 'ECONNREFUSED' ? 'connect' : 'read'} ${code}`);
  e.code = code;
  e.errno = code;
  e.syscall = code === 'ECONNREFUSED' ? 'connect' : 'read';
  return e;
}

class Channel {
  // One direction of a connection.
  constructor(link, from, to, dir) {
    this.link = link;
    this.from = from;
    this.to = to;
    this.dir = dir; // 'c2s' | 's2c'
    this.queue = [];
    this.queued = 0;
    this.delivered = 0;
    this.eof = false; // sender finished
    this.eofDelivered = false;
    this.ev = null;
    this.notBefore = 0;
    this.rng = new Rng(`${link.net.seed}#net#${link.id}#${dir}`);
    this.faults = link.faults.filter((f) => f.dir === dir).sort((a, b) => a.at - b.at);
    this.dead = false;
  }
  send(chunk) {
    if (this.dead || this.eof) return;
    this.queue.push(chunk);
    this.queued += chunk.length;
    this.pump();
  }
  end() {
    if (this.dead || this.eof) return;
    this.eof = true;
    this.pump();
  }
  kill() {
    this.dead = true;
    this.queue = [];
    this.queued = 0;
    if (this.ev) this.ev.dead = true;
    this.ev = null;
  }
  pump() {
    if (this.dead || this.ev || !this.link.open) return;
    if (this.queued === 0 && (!this.eof || this.eofDelivered)) return;
    const { sim, cfg } = this.link.net;
    const t = Math.max(sim.now + cfg.minLatency + this.rng.float() * cfg.jitter, this.notBefore);
    this.ev = sim.at(t, () => this.deliver(), 'net');
  }
  take(n) {
    const parts = [];
    let left = n;
    while (left > 0) {
      const b = this.queue[0];
      if (b.length <= left) {
        parts.push(b);
        left -= b.length;
        this.queue.shift();
      } else {
        parts.push(b.subarray(0, left));
        this.queue[0] = b.subarray(left);
        left = 0;
      }
    }
    this.queued -= n;
    return parts.length === 1 ? parts[0] : Buffer.concat(parts, n);
  }
  chunkSize() {
    const { cfg } = this.link.net;
    if (cfg.chunk === 'whole') return this.queued;
    if (cfg.chunk === 'tiny' && this.queued < 3000) return 1 + this.rng.int(Math.min(this.queued, 23));
    const cap = 1 << this.rng.range(3, 12);
    return Math.min(this.queued, 1 + this.rng.int(cap));
  }
  deliver() {
    this.ev = null;
    if (this.dead) return;
    const net = this.link.net;
    if (this.queued > 0) {
      let n = this.chunkSize();
      const f = this.faults[0];
      if (f && this.delivered + n >= f.at && !(net.sim.now > net.cfg.faultsUntil)) {
        n = Math.max(0, f.at - this.delivered);
        this.faults.shift();
        if (n > 0) this.push(this.take(n));
        this.link.applyFault(f, this);
        this.pump();
        return;
      }
      this.push(this.take(n));
    } else if (this.eof && !this.eofDelivered) {
      this.eofDelivered = true;
      net.log('eof', this.link.id, this.dir, 0);
      const s = this.to;
      if (!s.destroyed) {
        s.push(null);
        // net.Socket closes the writable side as well unless half-open connections are allowed
      }
    }
    this.pump();
  }
  push(buf) {
    const net = this.link.net;
    this.delivered += buf.length;
    net.bytes += buf.length;
    net.log('data', this.link.id, this.dir, buf.length, buf);
    if (net.onData) net.onData(this.link, this.dir, buf);
    if (this.to.destroyed) {
      // the peer has gone: a real stack answers with RST
      if (!this.link.closing) this.link.reset('peer gone', 1);
      return;
    }
    this.to.bytesRead += buf.length;
    this.to.push(buf);
  }
}

class SimSocket extends Duplex {
  constructor(link, side, allowHalfOpen) {
    super({ allowHalfOpen, autoDestroy: true, highWaterMark: 1 << 16, decodeStrings: true });
    this.link = link;
    this.side = side;
    this.out = null;
    this.connecting = side === 'client';
    this.bytesRead = 0;
    this.bytesWritten = 0;
    this.remoteAddress = '10.0.0.' + (side === 'client' ? '1' : '2');
    this.remotePort = 10000 + link.id;
    this.localAddress = '10.0.0.' + (side === 'client' ? '2' : '1');
    this.localPort = 10000 + link.id;
    this.remoteFamily = 'IPv4';
    this.timeout = 0;
    this._tmo = null;
    this.wantsTls = false;
  }
  _read() {}
  _write(chunk, enc, cb) {
    this.bytesWritten += chunk.length;
    this._active();
    this.out.send(Buffer.from(chunk));
    cb();
  }
  _final(cb) {
    this.out.end();
    cb();
  }
  push(chunk, enc) {
    if (chunk) this._active();
    return super.push(chunk, enc);
  }
  _destroy(err, cb) {
    if (this._tmo) this._tmo.dead = true;
    this.link.onDestroyed(this, err);
    cb(err);
  }
  destroySoon() {
    if (this.writable) this.end();
    if (this.writableFinished) this.destroy();
    else this.once('finish', this.destroy);
  }
  _active() {
    if (this.timeout > 0) this._arm();
  }
  _arm() {
    if (this._tmo) this._tmo.dead = true;
    this._tmo = this.link.net.sim.after(
      this.timeout,
      () => {
        if (!this.destroyed) this.emit('timeout');
      },
      'sockto',
    );
  }
  setTimeout(ms, cb) {
    this.timeout = ms;
    if (this._tmo) this._tmo.dead = true;
    this._tmo = null;
    if (cb) {
      if (ms === 0) this.removeListener('timeout', cb);
      else this.once('timeout', cb);
    }
    if (ms > 0) this._arm();
    return this;
  }
  setNoDelay() {
    return this;
  }
  setKeepAlive() {
    return this;
  }
  ref() {
    return this;
  }
  unref() {
    return this;
  }
  address() {
    return { address: this.localAddress, port: this.localPort, family: 'IPv4' };
  }
  resetAndDestroy() {
    return this.destroy();
  }
}

class Link {
  constructor(net, id, client, hostKey) {
    this.net = net;
    this.id = id;
    this.clientName = client;
    this.hostKey = hostKey;
    this.open = false;
    this.closing = false;
    this.blackholed = false;
    this.faults = (net.connFaults[id] || []).slice();
    this.c = new SimSocket(this, 'client', false);
    this.s = new SimSocket(this, 'server', true);
    this.c2s = new Channel(this, this.c, this.s, 'c2s');
    this.s2c = new Channel(this, this.s, this.c, 's2c');
    this.c.out = this.c2s;
    this.s.out = this.s2c;
    // errors on sockets nobody listens to any more are network noise, not process crashes
    this.c.on('error', () => {});
    this.s.on('error', () => {});
  }
  establish() {
    // (an earlier attempt may have got through already, when a partition healed)
    if (this.open || this.closing || this.c.destroyed) return;
    const listener = this.net.listeners.get(this.hostKey);
    const { sim } = this.net;
    if (this.net.partitioned(this.clientName, this.hostKey)) {
      this.net.count('partition_connect_dropped');
      return; // SYN lost: nothing happens until the client gives up or the partition heals
    }
    if (!listener) {
      this.net.log('refused', this.id, '', 0);
      this.c.destroy(econn('ECONNREFUSED'));
      return;
    }
    this.open = true;
    this.listener = listener;
    listener.links.add(this);
    this.net.log('open', this.id, '', 0);
    this.c.connecting = false;
    this.c.emit('connect');
    this.c.emit('ready');
    listener.accept(this.s, this);
    this.c2s.pump();
    this.s2c.pump();
  }
  applyFault(f, ch) {
    const net = this.net;
    net.count(f.kind);
    net.log('fault:' + f.kind, this.id, ch.dir, f.at);
    if (f.kind === 'reset') this.reset('fault', 0);
    else if (f.kind === 'close') {
      // a middlebox closes both directions in an orderly way, dropping what is in flight
      for (const c of [this.c2s, this.s2c]) {
        c.queue = [];
        c.queued = 0;
        c.eof = true;
        if (c.ev) c.ev.dead = true;
        c.ev = null;
      }
      this.c2s.pump();
      this.s2c.pump();
    } else if (f.kind === 'stall') {
      ch.notBefore = net.sim.now + f.dur;
    } else if (f.kind === 'blackhole') {
      this.blackholed = true;
      this.c2s.kill();
      this.s2c.kill();
    }
  }
  reset(why, minDelay) {
    if (this.closing) return;
    this.closing = true;
    const { sim } = this.net;
    this.c2s.kill();
    this.s2c.kill();
    const bye = (s) => {
      if (!s.destroyed) s.destroy(econn('ECONNRESET'));
    };
    const r = new Rng(`${this.net.seed}#rst#${this.id}`);
    sim.after(minDelay + r.float() * 2, () => bye(this.c), 'rst');
    sim.after(minDelay + r.float() * 2, () => bye(this.s), 'rst');
  }
  onDestroyed(sock, err) {
    if (this.listener) this.listener.links.delete(this);
    const mine = sock.out;
    if (!this.closing) {
      if (mine.dead) return;
      if (!this.open) {
        mine.kill();
        return;
      }
      // an orderly FIN after the bytes already written, then RST if the peer keeps talking
      mine.end();
    }
  }
}

class SimNet {
  constructor(sim, seed, cfg, connFaults, log) {
    this.sim = sim;
    this.seed = seed;
    this.cfg = cfg; // {minLatency, jitter, chunk}
    this.connFaults = connFaults || {};
    this.listeners = new Map();
    this.links = [];
    this.bytes = 0;
    this.counts = {};
    this.partitions = [];
    this.log = log || (() => {});
    this.onData = null;
  }
  count(k) {
    this.counts[k] = (this.counts[k] || 0) + 1;
  }
  listen(hostKey, accept) {
    const l = { accept, links: new Set() };
    this.listeners.set(hostKey, l);
    return l;
  }
  crash(hostKey) {
    const l = this.listeners.get(hostKey);
    if (!l) return 0;
    this.listeners.delete(hostKey);
    let n = 0;
    for (const link of [...l.links]) {
      n++;
      // the process is gone: nothing it wrote but had not been delivered survives for sure; its peer sees a reset
      link.s.removeAllListeners();
      link.s.on('error', () => {});
      link.closing = true;
      link.c2s.kill();
      link.s2c.kill();
      link.s.destroy();
      const r = new Rng(`${this.seed}#crash#${link.id}`);
      this.sim.after(r.float() * 3, () => {
        if (!link.c.destroyed) link.c.destroy(econn('ECONNRESET'));
      });
    }
    return n;
  }
  partitioned(client, host) {
    return this.partitions.some((p) => p.client === client && p.host === host);
  }
  partition(client, host, dur) {
    const p = { client, host };
    this.partitions.push(p);
    this.count('partition');
    this.log('partition', client, host, 0);
    const until = this.sim.now + dur;
    for (const l of this.links) {
      if (l.clientName === client && l.hostKey === host && l.open && !l.closing) {
        for (const c of [l.c2s, l.s2c]) {
          c.notBefore = Math.max(c.notBefore, until);
          if (c.ev) {
            c.ev.dead = true;
            c.ev = null;
            c.pump();
          }
        }
      }
    }
    this.sim.after(dur, () => {
      this.partitions.splice(this.partitions.indexOf(p), 1);
      this.log('heal', client, host, 0);
      for (const l of this.links) if (!l.open && !l.closing && l.clientName === client && l.hostKey === host) l.establish();
    });
  }
  connect(clientName, hostKey) {
    const id = this.links.length;
    const link = new Link(this, id, clientName, hostKey);
    this.links.push(link);
    const r = new Rng(`${this.seed}#conn#${id}`);
    this.sim.after(this.cfg.minLatency + r.float() * this.cfg.jitter, () => link.establish(), 'connect');
    return link.c;
  }
  agent(clientName, opts) {
    const net = this;
    class SimAgent extends http.Agent {
      createConnection(options) {
        return net.connect(clientName, `${options.host}:${options.port}`);
      }
    }
    return new SimAgent({ keepAlive: true, ...opts });
  }
}

module.exports = { SimNet, SimSocket, econn };
