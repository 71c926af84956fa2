'use strict';
// splitmix64-style seeding + xoshiro128**: the only source of randomness in the simulator.
function mix(h) { h = Math.imul(h ^ (h >>> 16), 0x85ebca6b); h = Math.imul(h ^ (h >>> 13), 0xc2b2ae35); return (h ^ (h >>> 16)) >>> 0; }
class Rng {
  constructor(...seeds) {
    let h = 0x9e3779b9;
    for (const s of seeds) {
      for (const ch of String(s)) h = mix((h ^ ch.charCodeAt(0)) + 0x9e3779b9);
      h = mix(h + 0x7f4a7c15);
    }
    this.s = [0, 0, 0, 0].map((_, i) => { h = mix(h + 0x9e3779b9 * (i + 1)); return h >>> 0; });
    if (!this.s.some(x => x)) this.s[0] = 1;
    this.draws = 0;
  }
  u32() {
    const s = this.s; this.draws++;
    let r = Math.imul(s[1], 5); r = (r << 7) | (r >>> 25); r = Math.imul(r, 9) >>> 0;
    const t = s[1] << 9;
    s[2] ^= s[0]; s[3] ^= s[1]; s[1] ^= s[2]; s[0] ^= s[3]; s[2] ^= t;
    s[3] = (s[3] << 11) | (s[3] >>> 21);
    for (let i = 0; i < 4; i++) s[i] >>>= 0;
    return r;
  }
  int(n) { return n <= 1 ? 0 : this.u32() % n; }           // [0,n)
  range(a, b) { return a + this.int(b - a + 1); }            // [a,b]
  f() { return this.u32() / 4294967296; }
  chance(p) { return this.f() < p; }
  pick(a) { return a[this.int(a.length)]; }
  weighted(pairs) {                                          // [[w, v], ...]
    let tot = 0; for (const p of pairs) tot += p[0];
    let x = this.f() * tot;
    for (const p of pairs) { x -= p[0]; if (x < 0) return p[1]; }
    return pairs[pairs.length - 1][1];
  }
  shuffle(a) { for (let i = a.length - 1; i > 0; i--) { const j = this.int(i + 1); [a[i], a[j]] = [a[j], a[i]]; } return a; }
  bytes(n) { const b = Buffer.alloc(n); for (let i = 0; i < n; i++) b[i] = this.u32() & 255; return b; }
}
module.exports = { Rng, mix };
