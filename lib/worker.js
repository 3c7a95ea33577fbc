'use strict';
// One simulation worker process: evaluates batches of run indices on request. Everything a run does is decided by its
// label (seed + index) and by the code under test.
console.warn = () => {};
console.debug = () => {};

const { adapterFor } = require('./adapters');

let adapter = null;
let cfg = null;

async function one(index, plan) {
  const p = plan || adapter.gen(cfg, index);
  const r = await adapter.evaluate(p, cfg);
  return { plan: p, ...r };
}

async function batch(indices, again) {
  const out = { type: 'batch', indices, violations: [], errors: [], stats: [], nondet: [], doubled: 0 };
  for (const i of indices) {
    process.send({ type: 'at', index: i });
    try {
      const r = await one(i);
      out.stats.push(r.stats);
      if (r.violations.length) out.violations.push({ index: i, list: r.violations.slice(0, 5), digest: r.digest });
      if (again(i)) {
        const r2 = await one(i);
        out.doubled++;
        if (r2.digest !== r.digest) out.nondet.push(i);
      }
    } catch (e) {
      out.errors.push({ index: i, err: String((e && e.stack) || e).slice(0, 2000) });
    }
  }
  return out;
}

process.on('message', async (m) => {
  try {
    if (m.type === 'init') {
      cfg = m.cfg;
      adapter = adapterFor(cfg.world);
      await adapter.init(m.compiled);
      process.send({ type: 'ready' });
    } else if (m.type === 'batch') {
      process.send(await batch(m.indices, (i) => cfg.doubleEvery && i % cfg.doubleEvery === 0));
    } else if (m.type === 'plan') {
      // evaluate one explicit plan (shrinking, replay)
      const r = await one(m.index, m.plan);
      process.send({ type: 'plan', violations: r.violations, digest: r.digest, stats: r.stats, detail: m.detail ? r.detail() : undefined });
    } else if (m.type === 'gen') {
      process.send({ type: 'gen', plan: adapter.gen(cfg, m.index) });
    } else if (m.type === 'shrink') {
      process.send(await shrink(m));
    } else if (m.type === 'exit') process.exit(0);
  } catch (e) {
    process.send({ type: 'error', err: String((e && e.stack) || e).slice(0, 4000) });
  }
});

// Greedy minimisation: apply every behaviour-preserving reduction that keeps the same kind of violation.
async function shrink(m) {
  let plan = m.plan;
  const key = (v) => v.kind;
  const want = m.kind;
  const deadline = Date.now() + m.ms;
  let tried = 0;
  let kept = 0;
  let best = m.violation;
  let digest = m.digest;
  const test = async (cand) => {
    tried++;
    try {
      const r = await adapter.evaluate(cand, cfg);
      const hit = r.violations.find((v) => key(v) === want && (v.props.includes(cfg.id) || v.props.includes('*')));
      if (!hit) return false;
      best = hit;
      digest = r.digest;
      return true;
    } catch (_) {
      return false;
    }
  };
  let progress = true;
  while (progress && Date.now() < deadline) {
    progress = false;
    for (const red of adapter.reductions(plan)) {
      if (Date.now() > deadline) break;
      const cand = JSON.parse(JSON.stringify(plan));
      let ok = false;
      try {
        ok = red(cand);
      } catch (_) {
        ok = false;
      }
      if (ok === false) continue;
      if (await test(cand)) {
        plan = cand;
        kept++;
        progress = true;
      }
    }
  }
  return { type: 'shrink', plan, violation: best, digest, tried, kept };
}

process.on('disconnect', () => process.exit(0));
