'use strict';
// What each check explores: the workload profiles (weight, overrides of gen-http BASE) and how many runs.
const CLEAN = { conn: 0, crash: 0, client: 0, partition: 0, mix: 0 };
const HARSH = { none: 1 };
const runs = (quick, thorough) => ({ quick, thorough });
const cap = { quick: 300, thorough: 850 };

const PROPS = {
  C01: {
    world: 'http', runs: runs(4000, 120000), cap,
    rule: 'Relevant runs are those in which at least one handler was reached; its decoded input is compared with the arguments of the call.',
    profiles: [
      [3, {}],
      [3, { faults: CLEAN, raws: [0, 1], calls: [3, 14] }],
      [1, { faults: HARSH, retry: 0.7, calls: [4, 12], window: 80 }],
      [1, { faults: CLEAN, overlap: 0.6, calls: [4, 12], window: 30 }],
      [1, { shared: 0.7, freeze: 0.7, calls: [4, 12] }],
      [1, { slot: 0.8, shared: 0.1, hot: 1, calls: [6, 14], faults: CLEAN }],
      [1, { rawreq: 0.6, faults: CLEAN }],
    ],
  },
  C02: {
    world: 'http', runs: runs(4000, 120000), cap,
    rule: 'Relevant runs are those in which at least one client call settled; a decoded response is compared with what the handler of that call returned.',
    profiles: [
      [3, {}],
      [3, { faults: CLEAN, statusPool: 0.9, raws: [0, 1], calls: [3, 14], keyed: 0.5 }],
      [1, { faults: HARSH, retry: 0.7, calls: [4, 12], window: 80 }],
      [1, { faults: CLEAN, calls: [6, 16], window: 10, delays: 0.9 }],
      [1, { badPayload: 0.4, boom: 0.3, otel: 0.2 }],
      [1, { ew: 1, faults: CLEAN, statusPool: 0.9, calls: [6, 14] }],
      [1, { recycle: 0.5, cross: 0.2, shared: 0.5, hot: 1, calls: [6, 14], faults: CLEAN, slot: 0.3 }],
    ],
  },
  C03: {
    world: 'http', runs: runs(4000, 120000), cap,
    rule: 'Relevant runs are those in which a handler or a decode-error hook ran; every request is compared with the outcome of the reference decode.',
    profiles: [
      [3, { raws: [3, 9], calls: [1, 5] }],
      [3, { raws: [4, 10], calls: [1, 4], hooks: 0.8, routeHooks: 0.7, unchecked: 0.4, ew: 0.2, faults: CLEAN, mutateRaw: 0.85 }],
      [1, { raws: [3, 8], boomDecode: 0.4, ew: 0.3 }],
      [1, { raws: [4, 10], ew: 1, faults: CLEAN, mutateRaw: 0.85, chain: 4 }],
      [1, { raws: [4, 10], unchecked: 0.9, uses: 0.8, ew: 0, faults: CLEAN }],
    ],
  },
  C04: {
    world: 'http', runs: runs(4000, 120000), cap,
    rule: 'Relevant runs are those with a typed send, an encode-error hook or a handler result that is no response; every answer is compared with the reference encoding or the configured error.',
    profiles: [
      [2, { badPayload: 0.5, boom: 0.25 }],
      [1, { ew: 0, cross: 0.5, recycle: 0.4, shared: 0.6, calls: [6, 16], apps: [1, 1], apis: [1, 2], faults: CLEAN }],
      [3, { badPayload: 0.6, boom: 0.3, ew: 0.2, hooks: 0.8, routeHooks: 0.6, faults: CLEAN, calls: [4, 12] }],
      [1, { badPayload: 0.6, ew: 1, faults: CLEAN, boom: 0.5, calls: [4, 12] }],
      [1, { badPayload: 0.5, ew: 0, keyed: 0.6, statusPool: 0.8, faults: CLEAN, uses: 0.7, useAct: 0.3 }],
      [1, { badPayload: 0.5, ew: 0, again: 0.3, handlers: 0.8, calls: [5, 12], window: 30 }],
    ],
  },
  C05: {
    world: 'http', runs: runs(4000, 120000), cap,
    rule: 'Relevant runs are those in which a middleware or handler of an express-wrapper operation failed.',
    profiles: [
      [2, { ew: 0.9, mwFail: 0.3, hFail: 0.2, chain: 5 }],
      [3, { ew: 1, mwFail: 0.35, hFail: 0.25, chain: 7, overlap: 0.5, faults: CLEAN, calls: [4, 12] }],
      [1, { ew: 1, mwFail: 0.1, hFail: 0.5, chain: 2, badPayload: 0.3, faults: CLEAN, calls: [4, 12] }],
      [1, { ew: 1, mwFail: 0.4, chain: 4, faults: HARSH, calls: [4, 12], window: 60 }],
      [1, { ew: 1, mwFail: 0.3, chain: 5, style: [[3, 'plain'], [1, 'branded'], [1, 'fn']], overlap: 0.7, raws: [2, 6] }],
    ],
  },
  C06: {
    world: 'http', runs: runs(4000, 120000), cap,
    rule: 'Relevant runs are those in which middleware of an express-wrapper handler ran.',
    profiles: [
      [2, { ew: 0.9, chain: 5 }],
      [3, { ew: 1, chain: 7, mwFail: 0.05, hFail: 0.03, calls: [5, 14], window: 40, delays: 0.9, faults: CLEAN }],
      [1, { ew: 1, chain: 7, mwFail: 0.2, calls: [4, 10], faults: CLEAN, style: [[3, 'branded'], [2, 'plain'], [1, 'brandedNoMw']] }],
      [1, { ew: 1, chain: 4, calls: [6, 14], window: 5, delays: 1, faults: HARSH }],
      [1, { ew: 1, chain: 5, overlap: 0.4, mutateInput: 0.4, shared: 0.5 }],
    ],
  },
  C07: {
    world: 'http', runs: runs(4000, 120000), cap,
    rule: 'Relevant runs are those in which an after-response hook fired.',
    profiles: [
      [2, { ew: 0, afterHook: 0.9, hooks: 0.8, routeHooks: 0.5 }],
      [3, { ew: 0, afterHook: 0.9, hooks: 0.9, routeHooks: 0.5, hookThrow: 0.25, badPayload: 0.2, faults: CLEAN, calls: [4, 12] }],
      [1, { ew: 0, afterHook: 0.9, hooks: 0.9, faults: HARSH, calls: [4, 12], window: 80 }],
      [1, { ew: 0, afterHook: 0.9, hooks: 0.9, again: 0.4, useAct: 0.3, uses: 0.8, handlers: 0.8, aliases: 0.5 }],
    ],
  },
  C08: {
    world: 'http', runs: runs(2400, 70000), cap,
    rule: 'Relevant runs are those with at least one tracing span or typed send; every run with tracing is repeated without the tracing package and the two histories are compared.',
    profiles: [
      [2, { ew: 0, otel: 0.95 }],
      [3, { ew: 0, otel: 1, hooks: 0.7, routeHooks: 0.5, hookThrow: 0.3, badPayload: 0.35, boom: 0.3, boomDecode: 0.3, faults: CLEAN, raws: [2, 6] }],
      [1, { ew: 0, otel: 1, aliases: 0.6, unchecked: 0.6, uses: 0.6, useAct: 0.2, overlap: 0.5, raws: [2, 6] }],
      [1, { ew: 0.4, otel: 0.9, faults: HARSH, calls: [4, 12], window: 80 }],
      [1, { ew: 0, otel: 1, again: 0.3, handlers: 0.8, afterHook: 0.7, hooks: 0.8, hookThrow: 0.3, faults: CLEAN }],
    ],
  },
  C09: {
    world: 'http', runs: runs(8000, 250000), cap,
    rule: 'Relevant runs are those in which at least one client call settled; outcomes are compared with what the bytes of the peer, as the plan wrote them, can decode to.',
    profiles: [
      [5, { wire: 1, multiOps: 0.4, calls: [3, 12] }],
      [2, { wire: 1, multiOps: 0.5, faults: CLEAN, calls: [3, 12] }],
      [1, { wire: 0.5 }],
      [1, { multiOps: 0.6, faults: HARSH, retry: 0.5 }],
      [1, { multiOps: 0.6, badPayload: 0.3, statusPool: 0.8, faults: CLEAN }],
    ],
  },
  C10: {
    world: 'http', runs: runs(4000, 120000), cap,
    rule: 'Relevant runs are those in which a server received at least one complete request.',
    profiles: [
      [4, { probe: true, faults: HARSH, garbage: 0.15, pipeline: 0.2 }],
      [2, { probe: true, faults: { none: 0, conn: 1, crash: 2, client: 2, partition: 1, mix: 3 }, calls: [4, 12], window: 120, mwFail: 0.2, hFail: 0.2, hookThrow: 0.3 }],
      [1, { garbage: 0.4, pipeline: 0.4, raws: [3, 8], hookThrow: 0.3 }],
      [1, { probe: true, soak: 0.5, ew: 0.7, faults: { none: 0, conn: 1, crash: 0, client: 5, partition: 0, mix: 1 } }],
      [2, { probe: true, boomDecode: 0.2, hookThrow: 0.4, hooks: 0.8, routeHooks: 0.6, again: 0.2, mwFail: 0.3, hFail: 0.3, useAct: 0.3, faults: CLEAN }],
    ],
  },
  C11: {
    world: 'http', runs: runs(4000, 120000), cap,
    rule: 'Relevant runs are those in which a server received at least one request; the operations, middleware and handlers that ran are compared with the reference router.',
    profiles: [
      [3, { overlap: 0.8, late: 0.5, uses: 0.8, aliases: 0.6, unchecked: 0.5, raws: [3, 8] }],
      [2, { overlap: 0.6, late: 0.3, uses: 0.6, aliases: 0.5, wrap: 0.6, routerOpts: 0.6, raws: [4, 10], faults: CLEAN, ew: 0.2 }],
      [1, { overlap: 0.8, ew: 1, raws: [4, 10], faults: CLEAN, apis: [2, 6] }],
      [1, { servers: [2, 2], apps: [2, 3], apis: [2, 6], overlap: 0.5, aliases: 0.4, uses: 0.6, useAct: 0.3, handlers: 0.8, ew: 0.3 }],
    ],
  },
  C12: {
    world: 'http', runs: runs(4000, 120000), cap,
    rule: 'Relevant runs are those in which a frozen argument or an argument or payload shared between calls was used.',
    profiles: [
      [2, { shared: 0.8, freeze: 0.8 }],
      [3, { shared: 0.8, freeze: 0.5, calls: [5, 14], window: 40, faults: CLEAN, mutateInput: 0.3 }],
      [1, { shared: 0.6, freeze: 0.9, faults: HARSH, retry: 0.6, calls: [4, 12] }],
      [1, { shared: 0.9, freeze: 0.3, badPayload: 0.3, uses: 0.5, mutateInput: 0.3 }],
      [1, { slot: 0.5, recycle: 0.4, cross: 0.2, shared: 0.5, hot: 1, calls: [6, 14], mutateInput: 0.6, faults: CLEAN }],
    ],
  },
  C13: {
    world: 'gen', batch: 8, runs: runs(1500, 60000), cap,
    rule: 'Relevant runs are those in which at least one generation alone yields a document; every generation of the run is compared with itself run alone, without faults, in a fresh process.',
    profiles: [
      [3, { fault: 0, outFault: 0 }],
      [2, { fault: 0, outFault: 0, stages: [2, 4], edit: 0.9, gens: [1, 3] }],
      [2, { fault: 0, outFault: 0, roots: [2, 3], samePkg: 1, custom: 0.8, packages: [1, 3], gens: [2, 5] }],
      [2, { fault: 0, outFault: 0, roots: [2, 3], samePkg: 1, hoist: 0.9, custom: 1, packages: [1, 2], modules: [1, 2], gens: [2, 5], aliases: 10, sharedSchema: 0.9, lean: 0.9, broken: 0 }],
      [1, { fault: 0.5, stages: [2, 4] }],
      [1, { fault: 0, outFault: 0, broken: 0.4, stages: [2, 4], samePkg: 1 }],
      [1, { fault: 0, outFault: 0, modules: [3, 7], packages: [0, 1], gens: [2, 6], spread: [0, 1] }],
    ],
  },
  C14: {
    world: 'gen', batch: 8, runs: runs(3000, 90000), cap,
    rule: 'Relevant runs are those in which an injected I/O error hit at least one generation; its outcome is compared with the fault-free outcome.',
    profiles: [
      [4, { stages: [1, 2], gens: [2, 4], fault: 0.9, stageFaultFree: 0.05, outFault: 0.02 }],
      [2, { stages: [1, 3], gens: [2, 4], fault: 0.9, stageFaultFree: 0.05, packages: [1, 3], custom: 0.6, modules: [1, 2] }],
      [1, { stages: [1, 1], gens: [3, 6], fault: 1, stageFaultFree: 0, modules: [3, 6], packages: [0, 1], stall: 0 }],
      [1, { stages: [2, 4], fault: 0.6, outFault: 0.2 }],
    ],
  },
  C15: {
    world: 'doc', batch: 8, runs: runs(1500, 60000), cap,
    rule: 'Relevant runs are those in which a server that runs the documented sources accepted or refused at least one request; requests and responses are compared with the document.',
    profiles: [
      [3, { http: { faults: CLEAN }, src: {} }],
      [2, { http: { faults: CLEAN }, src: { plain: true, rename: 0, barrel: 0, namespace: 0, modules: [0, 2], computed: 0 } }],
      [1, { http: {}, src: {} }],
      [1, { http: { faults: CLEAN, statusPool: 0.8 }, src: { hoist: 0.6 } }],
      [1, { http: { faults: CLEAN, overlap: 0.6 }, src: { modules: [3, 6], barrel: 0.7, rename: 0.4, namespace: 0.4, pkg: 0.6 } }],
    ],
  },
};

module.exports = { PROPS };
