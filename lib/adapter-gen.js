'use strict';
// World B (the OpenAPI generator) as seen by the driver.
const { RepoImage } = require('./repo');
const { runGen } = require('./world-gen');
const { genPlan } = require('./gen-projects');

let image = null;

async function init(compiled) {
  image = new RepoImage(compiled);
}

function pickProfile(cfg, index) {
  let total = 0;
  for (const [w] of cfg.profiles) total += w;
  let k = index % total;
  for (const [w, over] of cfg.profiles) {
    if (k < w) return over;
    k -= w;
  }
  return {};
}

function gen(cfg, index) {
  return JSON.parse(JSON.stringify(genPlan(`${cfg.seed}/${cfg.id}/${index}`, pickProfile(cfg, index))));
}

const firstDiff = (a, b) => {
  const x = a.split('\n');
  const y = b.split('\n');
  for (let i = 0; i < Math.max(x.length, y.length); i++) if (x[i] !== y[i]) return `line ${i + 1}: expected ${JSON.stringify(x[i])}, got ${JSON.stringify(y[i])}`;
  return 'equal';
};
const reason = (s) => (s.split('\n').find((l) => l.trim() && !/^\[(INFO|WARN)\]/.test(l)) || '').slice(0, 160);

function judge(plan, res) {
  const out = [];
  const vio = (props, kind, detail) => out.push({ props, kind, detail });
  let faultsBefore = false;
  for (const st of res.stages) {
    const faulted = st.list.filter((g) => g.fired.length);
    for (const g of st.list) {
      const ref = g.ref;
      const at = `${g.id} ${g.argv.slice(2).join(' ')}`;
      if (!ref.done) {
        vio(['C13'], 'hang', `${at}: alone and without faults the program ends neither with a document nor with an error`);
        continue;
      }
      // where a recursion without end exhausts the stack depends on the machine
      if (ref.deep || /^RangeError: Maximum call stack/m.test(ref.stderr)) continue;
      if (ref.code === 0 && !looksLikeDocument(ref.stdout)) vio(['C13'], 'not-a-document', `${at}: exit code 0, standard output ${JSON.stringify(ref.stdout.slice(0, 120))}`);
      if (ref.code !== 0 && ref.stdout !== '') vio(['C13'], 'output-on-failure', `${at}: exit code ${ref.code}, standard output ${JSON.stringify(ref.stdout.slice(0, 120))}`);
      const escaped = st.escaped.length > 0;
      if (!g.fired.length) {
        // without a fault of its own it must not notice anything of the others
        const props = faultsBefore || faulted.length ? ['C13', 'C14'] : ['C13'];
        if (!g.done) {
          if (!(escaped && faulted.length)) vio(props, 'hang', `${at} never ended`);
        } else if (g.code !== ref.code) vio(props, 'exit-code-differs', `${at}: expected ${ref.code}, got ${g.code} (${reason(g.stderr) || 'no message'})`);
        else if (g.stdout !== ref.stdout) vio(props, 'document-differs', `${at}: ${firstDiff(ref.stdout, g.stdout)}`);
        continue;
      }
      const what = g.fired.map((f) => `${f.op} ${f.p} ${f.code}`).slice(0, 4).join(', ');
      if (!g.done) {
        // an escaped error ends a real process with an error code and a message
        if (!escaped) vio(['C14'], 'hang', `${at} never ended after ${what}`);
        continue;
      }
      const same = g.code === ref.code && g.stdout === ref.stdout;
      if (g.outFailed) {
        if (g.code === 0) vio(['C14'], 'lost-document', `${at}: exit code 0 although writing the document failed (${what})`);
        continue;
      }
      if (ref.code === 0 && same && !escaped) continue;
      if (g.code === 0) {
        if (escaped && !looksLikeDocument(g.stdout)) continue;
        vio(['C14'], 'wrong-success', `${at}: exit code 0 after ${what}; ${ref.code === 0 ? firstDiff(ref.stdout, g.stdout) : 'alone it fails'}`);
      } else {
        if (g.stdout !== '') vio(['C14'], 'output-on-failure', `${at}: exit code ${g.code} after ${what}, standard output ${JSON.stringify(g.stdout.slice(0, 120))}`);
        if (!g.stderr.trim()) vio(['C14'], 'silent-failure', `${at}: exit code ${g.code} after ${what} and no message`);
      }
    }
    if (st.escaped.length && !faulted.length) vio(['C13', 'C14'], 'escaped', `an error escaped: ${st.escaped[0].err}`);
    if (faulted.length) faultsBefore = true;
  }
  return out;
}

function looksLikeDocument(s) {
  try {
    const d = JSON.parse(s);
    return !!d && typeof d === 'object' && !!d.openapi;
  } catch (_) {
    return false;
  }
}

async function evaluate(plan) {
  const res = await runGen(image, plan);
  return { violations: judge(plan, res), digest: String(res.digest), stats: stats(plan, res), detail: () => history(plan, res) };
}

function stats(plan, res) {
  const faults = { ...res.counts };
  const probes = {};
  const p = (k, n = 1) => (probes[k] = (probes[k] || 0) + n);
  let ok = 0;
  let hit = 0;
  res.stages.forEach((st, i) => {
    if (st.list.length > 1) p('stages_with_overlapping_runs');
    if (plan.stages[i].edits && plan.stages[i].edits.length) p('sources_edited_between_runs');
    for (const g of st.list) {
      if (g.ref.code === 0) ok++;
      p(g.ref.code === 0 ? 'runs_of_valid_projects' : 'runs_of_invalid_projects');
      if (g.spec.locale) p('runs_under_another_locale');
      if (g.spec.rel) p('runs_with_relative_paths');
      if (g.spec.drift) p('runs_with_a_moving_clock');
      if (g.spec.tty) p('runs_on_a_terminal');
      if (g.spec.clock) p('runs_with_the_clock_off');
      if (g.fired.length) {
        hit++;
        p(g.code === 0 ? 'faulted_runs_that_succeeded' : 'faulted_runs_that_failed');
      } else if (i > 0 || st.list.length > 1) p('fault_free_runs_in_a_used_or_shared_process');
    }
  });
  if (res.overlapped) p('file_operations_while_another_run_was_active', res.overlapped);
  return {
    order: res.order, simTime: res.simTime, steps: res.steps, faults, probes, relevant: { C13: ok, C14: hit },
    sample: { label: plan.seed, runs: res.gens.map((g) => `${g.id} ${g.argv.slice(2).join(' ')} from ${g.cwd}: exit ${g.code}, ${g.stdout.length} bytes, ${g.ops} file operations${g.fired.length ? ', faults ' + g.fired.map((f) => f.op + ' ' + f.code).slice(0, 4).join(' ') : ''}`), files: Object.keys(plan.files).length },
  };
}

function describe(plan) {
  const out = [`files: ${Object.keys(plan.files).join(' ')}`, `parser position counter at start: ${plan.base}`];
  plan.stages.forEach((s, i) => {
    for (const e of s.edits || []) out.push(`stage ${i}: edit ${e.path}`);
    for (const g of s.gens) out.push(`stage ${i} +${Math.round((g.at || 0) * 100) / 100} ms: ${g.id} openapi-generator ${g.argv.join(' ')} (cwd ${g.cwd}, ${g.locale ? 'locale ' + g.locale + ', ' : ''}${g.clock ? 'clock ' + g.clock + ' ms off, ' : ''}${g.drift ? 'clock moved ' + g.drift + ' ms by each file operation, ' : ''}${g.rel ? 'paths given relative to it, ' : ''}${g.tty ? 'on a terminal, ' : ''}${g.env ? 'environment ' + JSON.stringify(g.env) + ', ' : ''}latency ${JSON.stringify(g.lat || {})}${g.faults ? ', faults ' + JSON.stringify(g.faults) : ''}${g.outFault ? ', output fault ' + JSON.stringify(g.outFault) : ''})`);
  });
  return out;
}

function history(plan, res) {
  const out = describe(plan);
  for (const f of Object.keys(plan.files)) out.push(`--- ${f}`, ...(typeof plan.files[f] === 'string' ? plan.files[f].split('\n') : [`-> ${plan.files[f].link}`]));
  out.push('--- history', ...res.events.map((e) => JSON.stringify(e).slice(0, 400)));
  for (const g of res.gens) if (g.code !== g.ref.code || g.stdout !== g.ref.stdout) out.push(`--- ${g.id}: exit ${g.code} (alone ${g.ref.code}), ${firstDiff(g.ref.stdout, g.stdout)}`, ...g.stderr.split('\n').slice(0, 12));
  return out;
}

function* reductions(plan) {
  for (let i = plan.stages.length - 1; i >= 0; i--)
    yield (q) => {
      if (q.stages.length < 2 || !q.stages[i]) return false;
      q.stages.splice(i, 1);
    };
  for (let i = 0; i < plan.stages.length; i++) {
    for (let k = plan.stages[i].gens.length - 1; k >= 0; k--)
      yield (q) => {
        const s = q.stages[i];
        if (!s || !s.gens[k] || s.gens.length < 2) return false;
        s.gens.splice(k, 1);
      };
    for (let k = (plan.stages[i].edits || []).length - 1; k >= 0; k--)
      yield (q) => {
        const s = q.stages[i];
        if (!s || !s.edits || !s.edits[k]) return false;
        s.edits.splice(k, 1);
      };
    for (let k = 0; k < plan.stages[i].gens.length; k++) {
      const on = (fn) => (q) => {
        const g = q.stages[i] && q.stages[i].gens[k];
        return g ? fn(g) : false;
      };
      yield on((g) => (g.faults || g.outFault ? void (delete g.faults, delete g.outFault) : false));
      yield on((g) => (g.faults && g.faults.length > 1 ? void g.faults.pop() : false));
      yield on((g) => (g.faults && g.faults[0].mode !== 'once' ? void (g.faults[0].mode = 'once') : false));
      yield on((g) => (g.lat && (g.lat.jit || g.lat.stall) ? void (g.lat = { min: 1, jit: 0 }) : false));
      yield on((g) => (g.at ? void (g.at = 0) : false));
      for (const k of ['locale', 'clock', 'env', 'drift', 'tty']) yield on((g) => (g[k] ? void delete g[k] : false));
      yield on((g) => (g.rel ? void delete g.rel : false));
      yield on((g) => (g.cwd !== '/' ? void (g.cwd = '/') : false));
      for (const opt of ['--name', '-v', '-d']) yield on((g) => (g.argv.includes(opt) ? void g.argv.splice(g.argv.indexOf(opt), 2) : false));
    }
  }
  yield (q) => {
    if (q.base === 1) return false;
    q.base = 1;
  };
  for (const f of Object.keys(plan.files))
    yield (q) => {
      if (!(f in q.files) || q.stages.some((s) => s.gens.some((g) => g.argv[0] === f))) return false;
      delete q.files[f];
    };
  for (const f of Object.keys(plan.files)) {
    if (typeof plan.files[f] !== 'string' || !/\.(ts|js)$/.test(f)) continue;
    const n = plan.files[f].split('\n').length;
    for (let size = Math.ceil(n / 2); size >= 1; size = size === 1 ? 0 : Math.ceil(size / 2))
      for (let at = 0; at < n; at += size)
        yield (q) => {
          if (typeof q.files[f] !== 'string') return false;
          const lines = q.files[f].split('\n');
          if (!lines.splice(at, size).length) return false;
          q.files[f] = lines.join('\n');
        };
  }
}

const components = {
  real: ['packages/openapi-generator/src, the command line program included (compiled from the working tree, one fresh instance per simulated process)', 'resolve, cmd-ts, comment-parser, fp-ts', '@swc/core parser'],
  stub: ['fs, fs/promises: an in-memory tree with simulated latency and errors', 'process (argv, cwd, exit, stdout, stderr) and console of each run', "the parser's process-wide position counter: renumbered so that each simulated process owns it", 'import() of custom codec files: read through the simulated fs and evaluated', 'clock, timers, Math.random: simulated'],
};
const assumptions = [
  'the fault-free run of the same program alone in a fresh process is the reference: what the document should say is not judged here',
  'file operations are atomic: a read returns the whole file or fails',
  'custom codec files do not change while a process lives (node loads a module once)',
];

module.exports = { init, gen, evaluate, describe, reductions, components, assumptions };
