'use strict';
// Which simulated workloads decide which property, and how many seeded runs each tier makes.
const T = (q, t) => ({ gen: 'gen_token', quick: q, thorough: t });
const U = (q, t) => ({ gen: 'gen_upload', quick: q, thorough: t });
const A = (q, t) => ({ gen: 'gen_archive', quick: q, thorough: t });
const I = (q, t) => ({ gen: 'gen_index', quick: q, thorough: t });
const C = (q, t) => ({ gen: 'gen_cli', quick: q, thorough: t });
const PLAN = {};
for (const id of ['N01', 'N02', 'N03', 'N04', 'N05', 'N06', 'N09', 'N10', 'N11', 'N12', 'N13', 'N21', 'N23', 'N24', 'N25']) PLAN[id] = [T(240, 6000)];
PLAN.N07 = [T(170, 4000), A(40, 1000)];
PLAN.N08 = [A(180, 4500)];
PLAN.N19 = [I(220, 6000)];
PLAN.N20 = [I(220, 6000)];
PLAN.N13.push(U(60, 1500));
PLAN.N14 = [T(80, 2400), U(50, 1500), A(25, 700)];
for (const id of ['N15', 'N16', 'N17', 'N18', 'N22']) PLAN[id] = [U(200, 5000)];
PLAN.N26 = [U(110, 2600), A(60, 1400)];
PLAN.N27 = [C(160, 4000)]; PLAN.N28 = [C(160, 4000)];
module.exports = { PLAN };
