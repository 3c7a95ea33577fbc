'use strict';
// Runs one check: hands run indices to worker processes, gathers violations and coverage, minimises and writes the
// replay file and the evidence.
const fs = require('fs');
const path = require('path');
const os = require('os');
const { fork } = require('child_process');
const { compileRepo, REPO } = require('./repo');
const { PROPS } = require('./props');
const { adapterFor } = require('./adapters');

// A single run takes well under a second; one that is not over by then never returns to its event loop.
const RUN_MS = 60000;
const ROOT = path.join(__dirname, '..');

class Worker {
  constructor(compiled, cfg) {
    this.p = fork(path.join(__dirname, 'worker.js'), [], {
      serialization: 'advanced',
      stdio: ['ignore', 'ignore', 'pipe', 'ipc'],
      execArgv: ['--max-old-space-size=2048', '--stack-size=900'],
      env: { ...process.env, NODE_ENV: 'test', TZ: 'UTC' },
    });
    this.err = '';
    this.p.stderr.on('data', (d) => {
      if (this.err.length < 8000) this.err += d;
    });
    this.dead = false;
    this.wait = null;
    this.did = []; // run numbers this process has worked on, in order
    this.p.on('message', (m) => {
      if (m.type === 'at') {
        this.did.push(m.index);
        if (this.wait) this.wait.again();
        return;
      }
      const w = this.wait;
      this.wait = null;
      if (w) w.resolve(m);
    });
    this.p.on('exit', (code, sig) => {
      this.dead = true;
      const w = this.wait;
      this.wait = null;
      if (w) w.resolve({ type: 'died', code, sig, err: this.err });
    });
    this.ready = this.ask({ type: 'init', compiled, cfg }, 120000);
  }
  ask(m, ms) {
    return new Promise((resolve) => {
      if (this.dead) return resolve({ type: 'died', err: this.err });
      let t = null;
      const late = () => {
        this.wait = null;
        this.kill();
        resolve({ type: 'timeout' });
      };
      this.wait = {
        resolve: (r) => {
          clearTimeout(t);
          resolve(r);
        },
        // a run has begun: the time limit is per run
        again: () => {
          clearTimeout(t);
          t = setTimeout(late, ms);
        },
      };
      t = setTimeout(late, ms);
      this.p.send(m, (e) => {
        if (e) {
          const w = this.wait;
          this.wait = null;
          if (w) w.resolve({ type: 'died', err: String(e) });
        }
      });
    });
  }
  kill() {
    this.dead = true;
    try {
      this.p.kill('SIGKILL');
    } catch (_) {
      /* gone */
    }
  }
}

function knownFindings() {
  const f = path.join(ROOT, 'known-findings.txt');
  const out = [];
  if (!fs.existsSync(f)) return out;
  for (const line of fs.readFileSync(f, 'utf8').split('\n')) {
    const m = /^known: property=(\S+) match=(\S+) (.*)$/.exec(line);
    if (m) out.push({ property: m[1], match: m[2], text: m[3] });
  }
  return out;
}

function addCounts(a, b) {
  for (const k of Object.keys(b || {})) a[k] = (a[k] || 0) + b[k];
}

async function startWorkers(n, compiled, cfg) {
  const ws = Array.from({ length: n }, () => new Worker(compiled, cfg));
  const rs = await Promise.all(ws.map((w) => w.ready));
  const bad = rs.find((r) => r.type !== 'ready');
  if (bad) {
    ws.forEach((w) => w.kill());
    throw new Error('worker failed to start: ' + JSON.stringify(bad).slice(0, 4000));
  }
  return ws;
}

function configFor(id, opts) {
  const prop = PROPS[id];
  return { id, world: prop.world, seed: opts.seed, profiles: prop.profiles, tier: opts.tier, doubleEvery: opts.tier === 'thorough' ? 25 : 50 };
}

async function explore(id, opts) {
  const t0 = Date.now();
  const prop = PROPS[id];
  const cfg = configFor(id, opts);
  const compiled = compileRepo();
  const total = opts.runs || prop.runs[opts.tier];
  const capMs = (opts.cap || prop.cap[opts.tier]) * 1000;
  const nW = opts.workers || Math.max(2, Math.min(8, os.cpus().length));
  const known = knownFindings().filter((k) => k.property === id);
  const knownSeen = new Map();
  const isMine = (v) => v.props.includes(id) || v.props.includes('*');
  const knownOf = (v) => known.find((k) => v.sig === k.match);

  const agg = { evaluations: 0, orders: new Set(), nontrivial: new Set(), simTime: 0, steps: 0, faults: {}, probes: {}, faultRuns: 0, errors: [], nondet: [], doubled: 0, samples: [], sizes: {}, others: {} };
  const found = []; // violations of this property {index, v, digest}
  const hung = [];
  let next = 0;
  const done = new Set();
  let capped = false;
  const BATCH = prop.batch || 20;
  let workers = await startWorkers(nW, compiled, cfg);
  const tReady = Date.now();

  const absorb = (m, worker) => {
    for (const i of m.indices) done.add(i);
    for (const s of m.stats) {
      agg.evaluations++;
      agg.orders.add(s.order);
      if (s.relevant[id] > 0) agg.nontrivial.add(s.order);
      agg.simTime += s.simTime;
      agg.steps += s.steps;
      addCounts(agg.faults, s.faults);
      addCounts(agg.probes, s.probes);
      if (Object.keys(s.faults).length) agg.faultRuns++;
      if (agg.samples.length < 3 && s.relevant[id] > 0) agg.samples.push(s.sample);
    }
    agg.doubled += m.doubled;
    agg.nondet.push(...m.nondet);
    agg.errors.push(...m.errors);
    for (const e of m.violations) {
      for (const v of e.list) {
        if (!isMine(v)) {
          agg.others[v.kind] = (agg.others[v.kind] || 0) + 1;
          continue;
        }
        const k = knownOf(v);
        if (k) {
          if (!knownSeen.has(k.match)) knownSeen.set(k.match, { k, index: e.index, v });
          continue;
        }
        found.push({ index: e.index, v, digest: e.digest, did: worker.did.slice(0, worker.did.indexOf(e.index)) });
      }
    }
  };

  const loop = async (w) => {
    for (;;) {
      if (Date.now() - t0 > capMs) {
        capped = next < total;
        return;
      }
      // stop handing out work once a violation is known; what was handed out before it completes, so that the
      // violation reported is the one with the lowest index
      if (next >= total || found.length || hung.length) return;
      const indices = [];
      while (indices.length < BATCH && next < total) indices.push(next++);
      let todo = indices;
      while (todo.length) {
        const m = await w.w.ask({ type: 'batch', indices: todo }, RUN_MS);
        if (m.type === 'batch') {
          absorb(m, w.w);
          break;
        }
        // the run that hangs or kills the process is the last one begun; results of the batch so far are lost with it
        const at = w.w.did.length && todo.includes(w.w.did[w.w.did.length - 1]) ? w.w.did[w.w.did.length - 1] : todo[0];
        const before = todo.slice(0, todo.indexOf(at));
        w.w.kill();
        w.w = (await startWorkers(1, compiled, cfg))[0];
        const r = await w.w.ask({ type: 'batch', indices: [at] }, RUN_MS);
        if (r.type === 'batch') absorb(r, w.w);
        else {
          hung.push({ index: at, v: { props: ['*'], kind: r.type === 'timeout' ? 'hang' : 'process-died', detail: `the simulated process ${r.type === 'timeout' ? 'never returned to its event loop' : 'died: ' + String(r.err).slice(0, 300)}` } });
          w.w.kill();
          w.w = (await startWorkers(1, compiled, cfg))[0];
          todo = before;
          continue;
        }
        todo = [...before, ...todo.slice(todo.indexOf(at) + 1)];
        if (Date.now() - t0 > capMs) break;
      }
    }
  };
  const slots = workers.map((w) => ({ w }));
  await Promise.all(slots.map(loop));
  const tEnd = Date.now();
  found.push(...hung);
  found.sort((a, b) => a.index - b.index);

  let replay = null;
  let shrinkInfo = null;
  let f = null;
  const unconfirmed = [];
  for (const c of found.slice(0, 6)) {
    if (c.v.kind === 'hang' || c.v.kind === 'process-died') {
      f = { ...c, before: [] };
      break;
    }
    // confirm in a fresh process: alone, or after the runs that had preceded it in its process
    const before = await confirm(c, compiled, cfg, isMine);
    if (before) {
      f = { ...c, before };
      break;
    }
    unconfirmed.push(c);
  }
  if (f) {
    const fresh = (await startWorkers(1, compiled, cfg))[0];
    const g = await fresh.ask({ type: 'gen', index: f.index }, 60000);
    let plan = g.plan;
    let violation = f.v;
    let digest = f.digest;
    if (f.v.kind !== 'hang' && f.v.kind !== 'process-died' && !f.before.length) {
      const c = await fresh.ask({ type: 'plan', plan, index: f.index }, 90000);
      if (c.type === 'plan') digest = c.digest;
      const s = await fresh.ask({ type: 'shrink', plan, kind: f.v.kind, violation: f.v, digest, ms: opts.shrinkMs || 30000 }, 200000);
      if (s.type === 'shrink') {
        plan = s.plan;
        violation = s.violation;
        digest = s.digest;
        shrinkInfo = { tried: s.tried, kept: s.kept, bytes: [JSON.stringify(g.plan).length, JSON.stringify(plan).length] };
      }
    }
    fresh.kill();
    fs.mkdirSync(path.join(ROOT, 'replays'), { recursive: true });
    replay = path.join(ROOT, 'replays', `${id}-${opts.seed}-${f.index}.json`);
    fs.writeFileSync(replay, JSON.stringify({ property: id, world: prop.world, seed: opts.seed, index: f.index, label: `${opts.seed}/${id}/${f.index}`, violation, digest, source: compiled.hash, shrink: shrinkInfo, before: f.before.length ? f.before : undefined, schedule: adapterFor(prop.world).describe(plan), plan }, null, 1) + '\n');
  }
  for (const s of slots) s.w.kill();
  const wall = (Date.now() - t0) / 1000;
  const exploreS = Math.max(0.001, (tEnd - tReady) / 1000);
  const A = adapterFor(prop.world);
  const evidence = {
    property: id,
    tier: opts.tier,
    seed: opts.seed,
    level: 'exploration',
    coverage: {
      evaluations: agg.evaluations,
      distinct_nontrivial: agg.nontrivial.size,
      rule: `One evaluation is one simulated run: plan number i is generated from VERIF_SEED and i alone, executed in the simulator on the code of /repo, and its history judged. ${prop.rule} Distinct means a different order hash: the sequence of network deliveries, request steps and completions of the run.`,
      samples: agg.samples,
      runs_requested: total,
      stopped_by_time_cap: capped,
      simulated_runs: agg.evaluations,
      runs_per_hour: Math.round((agg.evaluations / exploreS) * 3600),
      seeds: `${opts.seed}/${id}/0..${Math.max(0, next - 1)}`,
      seeds_per_hour: Math.round((agg.evaluations / exploreS) * 3600),
      simulated_time_s: Math.round(agg.simTime / 1000),
      scheduler_steps: agg.steps,
      distinct_interleavings: agg.orders.size,
      distinct_measure: 'hash over the sequence of (event kind, connection or request) of the whole run',
      faults_injected: agg.faults,
      runs_with_faults: agg.faultRuns,
      reach_probes: agg.probes,
      determinism: { runs_repeated: agg.doubled, digests_differing: agg.nondet.length },
      components_real: A.components.real,
      components_stubbed: A.components.stub,
      source_hash: compiled.hash,
      workers: nW,
      harness_errors: agg.errors.length,
      violations_of_other_properties_seen: agg.others,
    },
    assumptions: A.assumptions,
    wall_s: wall,
    violations: f ? 1 : 0,
  };
  fs.mkdirSync(path.join(ROOT, 'evidence'), { recursive: true });
  fs.writeFileSync(path.join(ROOT, 'evidence', id + '.json'), JSON.stringify(evidence, null, 1) + '\n');

  for (const { k } of knownSeen.values()) console.log(`KNOWN-FINDING: property=${id} ${k.text}`);
  console.log(`${id}: seed ${opts.seed}, ${agg.evaluations} simulated runs (${agg.orders.size} distinct interleavings, ${agg.nontrivial.size} relevant), ${Math.round(agg.simTime / 1000)} s simulated, ${wall.toFixed(1)} s wall${capped ? ', stopped by the time cap' : ''}`);
  if (agg.nondet.length) console.log(`note: ${agg.nondet.length} repeated runs differed: ${agg.nondet.slice(0, 5)}`);
  if (f) {
    const rep = JSON.parse(fs.readFileSync(replay, 'utf8'));
    console.log(`${rep.violation.kind}: ${rep.violation.detail}`);
    console.log(rep.schedule.map((l) => '  ' + l).join('\n'));
    console.log(`VIOLATION property=${id} replay=${replay}`);
    return 1;
  }
  if (unconfirmed.length) {
    console.error(`${unconfirmed.length} disagreements did not reproduce, first: run ${unconfirmed[0].index}, ${unconfirmed[0].v.kind}: ${unconfirmed[0].v.detail}`);
    return 2;
  }
  if (agg.errors.length) {
    console.error(`harness errors in ${agg.errors.length} runs; first:`, agg.errors[0]);
    return 2;
  }
  if (agg.evaluations === 0) return 2;
  return 0;
}

// The runs that must precede run c in a process for its violation to show (none, usually), or null.
async function confirm(c, compiled, cfg, isMine) {
  const shows = async (before) => {
    const w = (await startWorkers(1, compiled, cfg))[0];
    try {
      if (before.length) {
        const b = await w.ask({ type: 'batch', indices: before }, RUN_MS);
        if (b.type !== 'batch') return false;
      }
      const r = await w.ask({ type: 'batch', indices: [c.index] }, RUN_MS);
      return r.type === 'batch' && r.violations.some((e) => e.list.some((v) => isMine(v) && v.kind === c.v.kind));
    } finally {
      w.kill();
    }
  };
  if (await shows([])) return [];
  let cur = [...new Set(c.did)];
  if (!cur.length || !(await shows(cur))) return null;
  const end = Date.now() + 60000;
  for (let size = Math.ceil(cur.length / 2); size >= 1; size = size === 1 ? 0 : Math.ceil(size / 2))
    for (let at = 0; at < cur.length && Date.now() < end; ) {
      const less = [...cur.slice(0, at), ...cur.slice(at + size)];
      if (await shows(less)) cur = less;
      else at += size;
    }
  return cur;
}

async function replayFile(id, file, opts) {
  const rep = JSON.parse(fs.readFileSync(file, 'utf8'));
  if (id && rep.property !== id) throw new Error(`replay file is for ${rep.property}`);
  const compiled = compileRepo();
  const cfg = configFor(rep.property, { seed: rep.seed, tier: 'quick' });
  const w = (await startWorkers(1, compiled, cfg))[0];
  if (rep.before) await w.ask({ type: 'batch', indices: rep.before }, RUN_MS);
  const r = await w.ask({ type: 'plan', plan: rep.plan, index: rep.index, detail: true }, 120000);
  w.kill();
  let list = [];
  if (r.type === 'plan') {
    for (const l of r.detail) console.log(l);
    list = r.violations;
    if (r.digest === rep.digest) console.log(`digest ${r.digest} as recorded`);
    else console.log(`digest ${r.digest}, recorded ${rep.digest} (source ${compiled.hash}, recorded ${rep.source})`);
  } else if (r.type === 'timeout' || r.type === 'died') list = [{ props: ['*'], kind: r.type === 'timeout' ? 'hang' : 'process-died', detail: r.err || '' }];
  else throw new Error(JSON.stringify(r));
  const mine = list.filter((v) => v.props.includes(rep.property) || v.props.includes('*'));
  for (const v of mine) console.log(`${v.kind}: ${v.detail}`);
  if (mine.length) {
    console.log(`VIOLATION property=${rep.property} replay=${file}`);
    return 1;
  }
  console.log('no violation');
  return 0;
}

module.exports = { explore, replayFile, Worker, startWorkers, configFor };
