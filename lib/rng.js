'use strict';
// Seeded PRNG (sfc32) with labelled sub-streams. Every random choice in the machinery comes from here.

function hash32(str, h = 2166136261) {
  for (let i = 0; i < str.length; i++) {
    h ^= str.charCodeAt(i);
    h = Math.imul(h, 16777619);
  }
  h ^= h >>> 16;
  h = Math.imul(h, 0x85ebca6b);
  h ^= h >>> 13;
  h = Math.imul(h, 0xc2b2ae35);
  return (h ^ (h >>> 16)) >>> 0;
}

class Rng {
  constructor(label) {
    this.label = String(label);
    this.a = hash32(this.label, 0x9e3779b9);
    this.b = hash32(this.label, 0x243f6a88);
    this.c = hash32(this.label, 0xb7e15162);
    this.d = 1;
    for (let i = 0; i < 12; i++) this.u32();
  }
  u32() {
    const t = (((this.a + this.b) | 0) + this.d) | 0;
    this.d = (this.d + 1) | 0;
    this.a = this.b ^ (this.b >>> 9);
    this.b = (this.c + (this.c << 3)) | 0;
    this.c = (this.c << 21) | (this.c >>> 11);
    this.c = (this.c + t) | 0;
    return t >>> 0;
  }
  float() {
    return this.u32() / 4294967296;
  }
  int(n) {
    // 0..n-1
    return Math.floor(this.float() * n);
  }
  range(lo, hi) {
    // inclusive
    return lo + this.int(hi - lo + 1);
  }
  chance(p) {
    return this.float() < p;
  }
  pick(arr) {
    return arr[this.int(arr.length)];
  }
  weighted(pairs) {
    // [[weight, value], ...]
    let tot = 0;
    for (const [w] of pairs) tot += w;
    let x = this.float() * tot;
    for (const [w, v] of pairs) {
      x -= w;
      if (x < 0) return v;
    }
    return pairs[pairs.length - 1][1];
  }
  shuffle(arr) {
    const r = arr.slice();
    for (let i = r.length - 1; i > 0; i--) {
      const j = this.int(i + 1);
      [r[i], r[j]] = [r[j], r[i]];
    }
    return r;
  }
  fork(label) {
    return new Rng(this.label + '/' + label);
  }
}

module.exports = { Rng, hash32 };
