#!/usr/bin/env node
'use strict';
// check.js <property> [--tier quick|thorough] [--seed N] [--runs N] [--cap seconds] [--workers N]
// check.js <property> --replay FILE
const { explore, replayFile } = require('./lib/driver');
const a = process.argv.slice(2);
const id = a[0];
const arg = (n) => {
  const i = a.indexOf('--' + n);
  return i < 0 ? undefined : a[i + 1];
};
const seed = parseInt(arg('seed') || process.env.VERIF_SEED || '1', 10);
const tier = (arg('tier') || process.env.VERIF_TIER) === 'thorough' ? 'thorough' : 'quick';
const num = (n) => (arg(n) ? +arg(n) : undefined);
(arg('replay') ? replayFile(id, arg('replay')) : explore(id, { seed, tier, runs: num('runs'), cap: num('cap'), workers: num('workers'), shrinkMs: num('shrink-ms') }))
  .then((rc) => process.exit(rc))
  .catch((e) => {
    console.error(e && e.stack ? e.stack : e);
    process.exit(2);
  });
