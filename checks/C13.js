"use strict";
// Whatever the interleaving, a node processes one thing at a time and never contradicts itself.
const K = require("../lib/nodecheck");
const N = require("../lib/node");
const R = require("../lib/races");
const Ty = require("../lib/types");
const { VerifSM, T0, add } = N;
const { build, W } = require("../lib/blocks");
const { H, dec } = Ty;

exports.level = "model_checking";
exports.assumptions = ["the state machine is a JavaScript one with the semantics C09 checks for the EVM-backed one", "calls to the chain are pending while the events race; C16 lets them complete"];
exports.bounds = {
    quick: "9 situations; every pair of 8-12 racing events (each also twice), every schedule of event arrivals, completions of the state machine's and the signer's operations and due timers; triples of events with at most 1 overtaking",
    thorough: "the same, triples with at most 2 overtakings, pairs with one failing signature"
};
const SITUATIONS = [
    { np: 2, me: 1, pre: 0, fork: 0, triples: true }, { np: 2, me: 0, pre: 0, fork: 0, triples: true }, { np: 3, me: 2, pre: 0, fork: 0, triples: true }, { np: 3, me: 1, pre: 1, fork: 0 },
    { np: 3, me: 2, pre: 1, fork: 0 }, { np: 1, me: 0, pre: 0, fork: 0 }, { np: 2, me: 0, pre: 1, fork: 1 }, { np: 3, me: 0, pre: 0, fork: 1 }, { np: 2, me: 1, pre: 2, fork: 0 }
].map((s) => ({ ...s, name: `${s.np} participants, node ${s.me}, ${s.pre} blocks, fork ${s.fork}` }));

function choose(n, k, rep) {
    const r = [];
    const go = (from, acc) => {
        if (acc.length === k) return r.push(acc);
        for (let i = from; i < n; i++) go(rep ? i : i + 1, [...acc, i]);
    };
    go(0, []);
    return r;
}
async function* cases(prep, opt) {
    for (const s of SITUATIONS) {
        const { model } = await R.setup(prep, s);
        const al = R.alphabet(s, model);
        for (const c of choose(al.length, 2, true)) yield { s, evs: c, al, bound: opt.tier === "thorough" ? Infinity : s.triples ? 3 : 2, faults: opt.tier === "thorough" ? 1 : 0 };
        if (s.triples && opt.tier !== "thorough") for (const c of choose(al.length, 2, true)) yield { s, evs: c, al, bound: 0, faults: 1 };
        if (s.triples && opt.tier !== "thorough") {
            // three handlers in the node at once
            const few = [...al.keys()].filter((i) => ["block", "bad block", "following block", "own block", "acceptable block out of turn by 1", "next fork", "block of the next fork"].includes(al[i].name));
            for (const c of choose(few.length, 3, false)) yield { s, evs: c.map((i) => few[i]), al, bound: 2, faults: 0 };
        }
        if (s.quickTriples || opt.tier === "thorough") for (const c of choose(al.length, 3, false)) yield { s, evs: c, al, bound: opt.tier === "thorough" ? 2 : 1, faults: 0 };
    }
}
async function judge(r, c, evs, model0, outs) {
    const bad = [];
    const { n, model } = r.ctx;
    const me = model.me;
    const failed = r.trail.some((t) => t.label.startsWith("fail "));
    const cmp = (m) => K.compare(n, m, { mine: !m.disputed.size, signatures: !failed });
    const all = { sent: r.log.sent, calls: r.log.calls };
    const rel = K.released(all, me);
    // 1. no two blocks of one height
    const at = new Map();
    for (const b of rel) {
        const h = dec("Block", b).transaction.header;
        const k = h.forkCnt + "/" + h.transactionCnt;
        if (at.has(k) && at.get(k) !== b) bad.push("its signatures on two blocks of one height were given away");
        at.set(k, b);
    }
    // 2. nothing left over
    for (const e of r.log.errors) bad.push(e);
    await R.settle(n);
    // 3. the outcome is one that processing in some order gives
    const disputed = new Set(r.log.calls.filter((x) => x.name === "createDispute").map((x) => Number(x.args[1])));
    if (r.trail.some((t) => t.label === "dispute")) disputed.add(c.s.fork);
    let match = null, why = [];
    // an order that gives the same blocks, and the same accusations
    for (const m of outs) {
        const d = cmp(m);
        if (d.length) why = d;
        else if (!match || ([...match.disputed].sort().join() !== [...disputed].sort().join())) match = m;
    }
    if (!match) bad.push("the result is not that of any order: " + why[0]);
    else {
        for (const f of disputed) if (!match.disputed.has(f)) bad.push("disputed without a reason");
        for (const f of match.forks.keys()) for (const b of match.forks[f].blocks) if (!failed && !match.disputed.has(f) && b.signers.has(me) && !rel.has(b.bytes) && f === match.forkCnt && !model.forks[f]?.blocks.some((x) => x.bytes === b.bytes)) bad.push("adopted a block without telling anyone its signature");
        // 4. life goes on
        const m = match;
        if (!m.disputed.has(m.forkCnt)) {
            const nx = R.wOf(VerifSM.next(m.state));
            if (nx.address === me) {
                await n.step({ t: "play", data: add(9) });
                m.play(add(9), Math.floor(n.now / 1000));
            } else {
                const b = build({ author: nx, fork: m.forkCnt, height: m.height, ts: m.latestTs + 1, data: add(9), state: m.state });
                await n.step(K.msgBlock(b));
                m.block(b.bytes, b.sig);
            }
            for (const x of cmp(m)) bad.push("afterwards: " + x);
        }
        const g = R.genesis(c.s.np, 50n);
        await n.step(K.setState(g, m.forkCnt + 1, T0 + 80));
        m.newFork(g, m.forkCnt + 1, T0 + 80);
        n.now += 80000;
        const a = R.wOf(VerifSM.next(g));
        if (a.address === me) {
            await n.step({ t: "play", data: add(9) });
            m.play(add(9), Math.floor(n.now / 1000));
        } else {
            const b = build({ author: a, fork: m.forkCnt, height: 0, ts: T0 + 81, data: add(1), state: g });
            await n.step(K.msgBlock(b));
            m.block(b.bytes, b.sig);
        }
        for (const x of cmp(m)) bad.push("in the next fork: " + x);
    }
    return bad;
}
async function one(prep, c, rec, only) {
    const evs = c.evs.map((i) => c.al[i]);
    const mk = () => R.setup(prep, c.s);
    const { model: m0 } = await mk();
    const names = evs.map((e) => e.name).join(" | ");
    const visit = async (r) => {
        rec.transition(r.trail.length);
        rec.add("traces");
        const bad = await judge(r, c, evs, m0, R.outcomes(m0, evs, r.trail.some((t) => t.label.startsWith("fail "))));
        rec.state([c.s.name, r.ctx.n.chainOf(c.s.fork).length, r.ctx.n.sm.state, r.log.sent.length, r.log.calls.length]);
        rec.outcome(r.log.calls.some((x) => x.name === "createDispute") ? "disputed" : r.log.sent.length ? "went on" : "nothing");
        if (bad.length) rec.violation(`${bad[0].replace(/\b[0-9a-f]{4}\b|\d+/g, "")}: ${names}`, `${c.s.name}: ${names}; schedule: ${r.trail.map((t) => t.label).join(", ")}: ${[...new Set(bad)].join("; ")}`, { s: c.s.name, evs: evs.map((e) => e.name), bound: c.bound === Infinity ? null : c.bound, faults: c.faults, prefix: r.trail.map((t) => t.pick) });
        else rec.sample({ situation: c.s.name, events: names, schedule: r.trail.map((t) => t.label) });
    };
    if (only) return visit(await require("../lib/interleave").runOne({ mk, events: evs, hold: ["sm", "sign"], bound: c.bound, faults: c.faults, prefix: only }));
    await R.explore({ mk, events: evs, hold: ["sm", "sign"], bound: c.bound, faults: c.faults }, visit);
}
exports.prepare = K.prepare;
exports.run = async ({ opt, prep, rec, mine }) => {
    let i = 0;
    for await (const c of cases(prep, opt)) if (await mine(i++)) await one(prep, c, rec);
};
exports.replay = async (v, rec, prep, opt) => {
    for await (const c of cases(prep, { ...opt, tier: "thorough" }))
        if (c.s.name === v.s && c.evs.map((i) => c.al[i].name).join() === v.evs.join()) return one(prep, { ...c, bound: v.bound === null ? Infinity : v.bound, faults: v.faults }, rec, v.prefix);
};
exports.expect = ({ outcomes }) => (!outcomes.disputed || !outcomes["went on"] ? "some kind of outcome never occurred: " + JSON.stringify(outcomes) : null);
