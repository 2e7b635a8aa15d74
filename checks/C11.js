"use strict";
// Honest nodes that stay connected end up with the same, agreed chain.
const K = require("../lib/nodecheck");
const { explore } = require("../lib/swarm");
const { genesis, wOf } = require("../lib/situ");
const { W, build } = require("../lib/blocks");
const { VerifSM, T0, add, rpc } = require("../lib/node");

exports.level = "model_checking";
exports.assumptions = ["the state machine is a JavaScript one with the semantics C09 checks for the EVM-backed one", "a node handles one message at a time here; interleavings within a node are C13's", "nobody is slow enough for a timeout", "two local states of a node are the same if everything it holds has the same contents"];
exports.bounds = {
    quick: "2 nodes (4 blocks, any order of delivery; two forks), 3 nodes (all connected or in a line; 1-3 blocks; two forks, also with one participant less; a link that breaks), 2-3 nodes that put off their queues for any time (1-3 blocks; two forks), 4 nodes (a triangle with a tail, 1 block in the second fork; a ring, 1 block), 2-3 honest nodes and one that signs two blocks: all orders of delivery and of the chain's events",
    thorough: "longer: 2 nodes 6 blocks, 3 nodes 2 blocks in any order of delivery, 4 nodes 2 blocks"
};
const two = (a, b) => [{ fork: 0, state: genesis(a), ts: T0 }, { fork: 1, state: b, ts: T0 + 3 }];
const one = (n) => [{ fork: 0, state: genesis(n), ts: T0 }];
/** what node 0 sends if it makes two first blocks */
function twoFaced(np) {
    const g = genesis(np);
    const b = [1, 2].map((n) => build({ author: W[0], fork: 0, height: 0, ts: T0 + 1, data: add(n), state: g }));
    const m = b.map((x) => rpc("onSignedBlock", { encodedBlock: x.bytes, signature: x.sig }));
    return np === 2 ? { "0>1": m } : { "0>1": [m[0]], "0>2": [m[1]] };
}
function scenarios(tier) {
    const r = [];
    const a = (name, o) => r.push({ name, ...o });
    a("2 nodes, 4 blocks, any order", { np: 2, heights: { 0: 4 }, start: one(2), bag: true });
    a("2 nodes, two forks, any order", { np: 2, heights: { 0: 2, 1: 2 }, start: two(2, genesis(2, 7n)), bag: true });
    a("3 nodes, 1 block", { np: 3, heights: { 0: 1 }, start: one(3) });
    a("3 nodes, 1 block, any order", { np: 3, heights: { 0: 1 }, start: one(3), bag: true, eager: true });
    a("3 nodes, 2 blocks", { np: 3, heights: { 0: 2 }, start: one(3), eager: true });
    a("3 nodes in a line, 3 blocks", { np: 3, heights: { 0: 3 }, start: one(3), cut: [[0, 2]] });
    a("3 nodes in a line, 2 blocks, any order", { np: 3, heights: { 0: 2 }, start: one(3), cut: [[0, 2]], bag: true, eager: true });
    for (const c of [[0, 1], [1, 2], [0, 2]]) a(`3 nodes without ${c.join("-")}, two forks`, { np: 3, heights: { 0: 1, 1: 1 }, start: two(3, genesis(3, 7n)), cut: [c] });
    a("3 nodes, one leaves", { np: 3, heights: { 0: 1, 1: 2 }, start: two(3, genesis(2, 6n)), cut: [[0, 2]], eager: true });
    for (const b of [[0, 1], [1, 2], [0, 2]]) a(`3 nodes, ${b.join("-")} breaks`, { np: 3, heights: { 0: 1 }, start: one(3), breaks: [b], eager: true });
    a("4 nodes, a triangle with a tail", { np: 4, heights: { 1: 1 }, start: two(4, genesis(4, 5n)), cut: [[0, 3], [0, 1]], eager: true });
    a("4 nodes in a ring", { np: 4, heights: { 0: 1 }, start: one(4), cut: [[0, 2], [1, 3]], eager: true });
    a("2 nodes, one signs two blocks", { np: 2, who: [1], heights: {}, start: one(2), net: twoFaced(2), bag: true, liar: 0 });
    a("3 nodes, one signs two blocks", { np: 3, who: [1, 2], heights: {}, start: one(3), net: twoFaced(3), bag: true, liar: 0 });
    a("2 nodes, 3 blocks, any order, slow", { np: 2, heights: { 0: 3 }, start: one(2), bag: true, lazy: true });
    a("2 nodes, two forks, any order, slow", { np: 2, heights: { 0: 1, 1: 1 }, start: two(2, genesis(2, 7n)), bag: true, lazy: true });
    a("3 nodes in a line, 2 blocks, slow", { np: 3, heights: { 0: 2 }, start: one(3), cut: [[0, 2]], lazy: true, eager: true });
    if (tier === "thorough") {
        a("2 nodes, two forks of 2 blocks, any order, slow", { np: 2, heights: { 0: 2, 1: 2 }, start: two(2, genesis(2, 7n)), bag: true, lazy: true });
        a("2 nodes, 6 blocks, any order", { np: 2, heights: { 0: 6 }, start: one(2), bag: true });
        a("2 nodes, two forks, 6 blocks, any order", { np: 2, heights: { 0: 3, 1: 3 }, start: two(2, genesis(2, 7n)), bag: true });
        a("3 nodes, 2 blocks, all orders", { np: 3, heights: { 0: 2 }, start: one(3) });
        a("3 nodes, 1 block, all orders of delivery", { np: 3, heights: { 0: 1 }, start: one(3), bag: true });
        a("3 nodes, 2 blocks, any order", { np: 3, heights: { 0: 2 }, start: one(3), bag: true, eager: true });
        a("3 nodes, two forks", { np: 3, heights: { 0: 1, 1: 1 }, start: two(3, genesis(3, 7n)), eager: true });
        a("3 nodes, two forks, any order", { np: 3, heights: { 0: 1, 1: 1 }, start: two(3, genesis(3, 7n)), cut: [[0, 1]], bag: true, eager: true });
        a("3 nodes, 2 blocks, 0-1 breaks", { np: 3, heights: { 0: 2 }, start: one(3), breaks: [[0, 1]], eager: true });
        a("4 nodes in a ring, a link breaks", { np: 4, heights: { 0: 1 }, start: one(4), cut: [[0, 2], [1, 3]], breaks: [[0, 1]], eager: true });
        a("4 nodes in a line", { np: 4, heights: { 0: 2 }, start: one(4), cut: [[0, 2], [1, 3], [0, 3]], eager: true });
    }
    return r;
}
async function scenario(prep, s, rec, replay) {
    const ids = s.who || [...Array(s.np).keys()];
    const last = s.start.length - 1;
    const ps = VerifSM.participants(s.start[last].state).map((p) => W.findIndex((w) => w.address === p));
    const say = (what, t) => {
        const { trace, choices } = t();
        rec.violation(`${s.name}: ${what.replace(/\b[0-9]+\b/g, "n")}`, `${s.name}: ${trace.join("; ")}: ${what}`, { s: s.name, choices });
    };
    const r = await explore(prep, s, {
        rec, replay, limit: s.limit,
        alarm: say,
        state(g, en, t) {
            rec.state([s.name, ids.map((i) => g.loc[i].id), [...g.net].map(([k, q]) => k + q.map((m) => m.key))].join());
            // nobody contradicts anybody
            if (s.liar === undefined)
                for (const i of ids)
                    for (const j of ids)
                        if (i < j)
                            for (let f = 0; f < Math.min(g.loc[i].forks, g.loc[j].forks); f++)
                                for (let h = 0; h < Math.min(g.loc[i].chains[f].length, g.loc[j].chains[f].length); h++) {
                                    const x = g.loc[i].chains[f][h], y = g.loc[j].chains[f][h];
                                    if (x.bytes !== y.bytes || x.state !== y.state) say(`${i} and ${j} hold different blocks at ${f}/${h}`, t);
                                }
            for (const i of ids) {
                const l = g.loc[i];
                if (s.liar === undefined && l.calls.length) say(`${i} goes to the chain (${l.calls})`, t);
                l.chains.forEach((c, f) => c.forEach((b, h) => {
                    if (b.final && VerifSM.participants(s.start[f].state).some((p) => !b.by.some((k) => W[k].address === p))) say(`${i} takes ${f}/${h} for agreed without everybody's signature`, t);
                }));
            }
            if (en.length) return;
            rec.add("ends");
            if (s.liar !== undefined) {
                if (!ids.some((i) => g.loc[i].calls.includes("createDispute"))) say("nobody disputes", t);
                for (const i of ids) if (g.loc[i].calls.length > 1) say(`${i} goes to the chain several times (${g.loc[i].calls})`, t);
                rec.outcome("disputed");
                return;
            }
            const want = s.heights[last] || 0;
            for (const i of ids) {
                const l = g.loc[i];
                if (l.forks !== last + 1) say(`${i} isn't in the last fork`, t);
                else if (l.chains[last].length !== want) say(`${i} holds ${l.chains[last].length} blocks of ${want} in the end`, t);
                else if (want && l.state !== l.chains[last][want - 1].state) say(`the state machine of ${i} isn't in the last state`, t);
                else
                    l.chains[last].forEach((b, h) => {
                        if (ps.includes(i) && (!b.final || ps.some((p) => !b.by.includes(p)))) say(`${i} holds only the signatures of ${b.by} on ${last}/${h} in the end`, t);
                    });
            }
            rec.outcome("agreed");
        }
    });
    if (replay) return;
    rec.add("traces", Object.values(r.members).reduce((n, m) => n + m.runs, 0));
    rec.add("executions of node events", Object.values(r.members).reduce((n, m) => n + m.steps, 0));
    rec.add("scenarios");
    rec.sample({ scenario: s.name, states: r.states, longest: r.deepest, complete: r.complete, "local states": Object.values(r.members).map((m) => m.byDigest.size) }, 40);
    if (!r.complete) throw new Error("not all of " + s.name + " was explored");
}
exports.prepare = K.prepare;
exports.run = async ({ opt, prep, rec, mine }) => {
    let i = 0;
    for (const s of scenarios(opt.tier)) if (await mine(i++)) await scenario(prep, s, rec);
};
exports.replay = async (v, rec, prep) => scenario(prep, scenarios("thorough").find((s) => s.name === v.s), rec, v.choices);
exports.expect = ({ outcomes }) => (!outcomes.agreed || !outcomes.disputed ? "nothing was agreed or nothing disputed: " + JSON.stringify(outcomes) : null);
