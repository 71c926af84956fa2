'use strict';
// Worker process: executes one seeded run per message and reports its summary.
const R = require('./run');
process.on('message', m => {
  try {
    if (m.op === 'run') {
      const cfg = require('./' + m.gen + '.js').config(m.prop, m.seed, m.tier);
      const r = R.generate(cfg, { target: m.prop, known: m.known });
      delete r.world; if (!r.violation && !m.keep) { r.trace = r.trace.slice(0, 12); }
      process.send({ i: m.i, seed: m.seed, gen: m.gen, cfg, r });
    } else if (m.op === 'replay') {
      const r = R.replay(m.cfg, m.actions, { target: m.prop, known: m.known });
      delete r.world; delete r.trace;
      process.send({ i: m.i, r });
    }
  } catch (e) { process.send({ i: m.i, seed: m.seed, gen: m.gen, error: (e && e.stack) || String(e) }); }
});
