'use strict';
// Projects written by hand: each keeps one known defect of the generator in sight (see known-findings.txt), next to
// what already works about it. `wire` is an encoded value of each response, which the document has to allow.
const PKG = JSON.stringify({ name: 'acme-codecs', version: '1.0.0', types: 'index.ts' });

const route = (name, wrapped, extra = '') => `import * as t from 'io-ts';
import * as h from '@api-ts/io-ts-http';
${extra}export const api = h.apiSpec({
  '${name}': { get: h.httpRoute({ path: '/${name}', method: 'GET', request: h.httpRequest({}), response: ${wrapped} }) },
});
`;

const PINNED = {
  // the codecs of packages are known by name alone, so one of a package is taken for another export of that name
  'package-name': {
    entry: '/w/pin/index.ts',
    files: {
      '/w/pin/index.ts': `import * as t from 'io-ts';
import * as h from '@api-ts/io-ts-http';
import { User as Account } from 'acme-codecs';
import { User } from './models';
export const api = h.apiSpec({
  'users': { get: h.httpRoute({ path: '/users', method: 'GET', request: h.httpRequest({}), response: { 200: User } }) },
  'accounts': { get: h.httpRoute({ path: '/accounts', method: 'GET', request: h.httpRequest({}), response: { 200: Account } }) },
});
`,
      '/w/pin/models.ts': `import * as t from 'io-ts';
export const User = t.type({ name: t.string });
`,
      '/w/pin/node_modules/acme-codecs/package.json': PKG,
      '/w/pin/node_modules/acme-codecs/index.ts': `import * as t from 'io-ts';
export const User = t.type({ balance: t.number });
`,
    },
    wire: { '/users get 200': { name: 'x' }, '/accounts get 200': { balance: 1 } },
  },
  // responses declared by the names of statuses
  'status-name': { entry: '/w/pin/index.ts', files: { '/w/pin/index.ts': route('named', '{ ok: t.string }') }, wire: { '/named get 200': 'x' } },
  tuple: { entry: '/w/pin/index.ts', files: { '/w/pin/index.ts': route('pair', '{ 200: t.tuple([t.string, t.number]) }') }, wire: { '/pair get 200': ['x', 1] } },
  // an optional codec with a name of its own
  'named-optional': {
    entry: '/w/pin/index.ts',
    files: { '/w/pin/index.ts': route('nick', '{ 200: h.optionalized({ nick: Nick }) }', 'const Nick = h.optional(t.string);\n') },
    wire: { '/nick get 200': {} },
  },
};

module.exports = { PINNED };
