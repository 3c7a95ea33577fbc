'use strict';
function adapterFor(world) {
  if (world === 'http') return require('./adapter-http');
  if (world === 'gen') return require('./adapter-gen');
  if (world === 'doc') return require('./adapter-doc');
  throw new Error('unknown world ' + world);
}
module.exports = { adapterFor };
