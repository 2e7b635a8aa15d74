"use strict";
// C05: removal by timeout. Enumerates every timeout claim over a small channel: who is claimed, at
// which height, by whom, on which history, at which boundary instant, with which calldata posted.
const Wd = require("../lib/world");
const { World, A, B, C, X, honestRun, conf, sb, enc, H, block, PROOF, ZERO, ethers } = Wd;
const { probe, product } = require("../lib/onchain");
const { joinAgreement } = require("../lib/agree");
const ID = ethers.id("c05");
const T0 = 1_000_000_000;
const WAIT = 18; // p2p 5 + agreement 6 + fallback 7

/** joined: the last participant joined later, the channel is in its second fork */
async function setup(art, n, joined) {
    const w = await World.create(art);
    const ps = [A, B, C].slice(0, n), first = joined ? ps.slice(0, -1) : ps;
    await w.open(ID, first.map((p) => p.address), first.map((_, i) => 100 + i), joined ? T0 - 50 : T0);
    if (joined) {
        const g = w.spec.forkState(ID, 0);
        const r = await w.step({ op: "join", id: ID, state: g, at: T0, from: A.address, cja: joinAgreement({ id: ID, joiner: ps[n - 1], amount: 40, deadline: T0 + 9, submitter: A, fork: 0, state: g, signers: first }) });
        if (!r.impl.ok) throw new Error("nobody joins: " + r.impl.err);
    }
    const fork = joined ? 1 : 0;
    const genesis = w.spec.forkState(ID, fork);
    // block k at T0 + 3(k+1)
    const run = honestRun({ id: ID, fork, genesis, moves: [w.add(1), w.add(1), w.add(1)], ts0: T0, dt: 3 });
    return { w, ps, run: { ...run, fork }, genesis };
}
/** calldata postings tried before the claim: [label, [{height, who, at, ts}]] */
function* postings(ps, len) {
    yield ["none", []];
    for (const dh of [-1, 0, 1]) {
        const h = len + dh;
        if (h < 0) continue;
        for (const who of [0, 1, 2, 3])
            for (const at of new Set([2, len * 3 + 1, len * 3 + 9])) yield [`h${dh} by${who} at${at}`, [{ h, who, at }]];
    }
    // two postings, the later at a higher / lower height than the claim
    for (const [a, b] of [[-1, 1], [0, 1], [-1, 0]])
        for (const [x, y] of [[0, 1], [1, 0], [2, 0]])
            if (len + a >= 0)
                for (const [s, t] of [[len * 3 + 2, len * 3 + 7], [1, 2]])
                    yield [`h${a}by${x}@${s}+h${b}by${y}@${t}`, [{ h: len + a, who: x, at: s }, { h: len + b, who: y, at: t }]];
}
const everyone = (ps) => [...ps, ...(ps.length < 3 ? [] : []), X];

async function explore(w, ps, run, genesis, rec, mine, tier) {
    const n = ps.length;
    const root = await w.snap();
    for (let len = 0; len <= 3; len++) {
        for (const fin of len === 0 ? [0] : [0, len]) {
            // fin 0: from genesis; otherwise the last block is finalized by everyone
            const idx = fin ? [len - 1] : [...Array(len).keys()];
            const vvb = idx.map((k) => conf(run.blocks[k], fin ? ps : [run.authors[k]]));
            for (const [pl, posts] of postings(ps, len)) {
                if (!mine()) continue;
                let last = T0 + 1;
                for (const p of posts) {
                    const who = [...ps, X, X, X][p.who];
                    const b = block({ channelId: ID, participant: who.address, fork: run.fork, cnt: p.h, ts: T0 + p.at, data: w.add(1), stateHash: ethers.ZeroHash, prev: ethers.ZeroHash });
                    const r = await w.step({ op: "post", id: ID, from: who.address, sb: sb(b, who), at: T0 + p.at });
                    rec.transition();
                    if (!r.impl.ok) throw new Error("post rejected " + r.impl.err);
                    last = T0 + p.at;
                }
                const base = await w.snap();
                const marks = new Set();
                const lastTs = len ? T0 + 3 * len : T0;
                for (const d of [-1, 0, 1]) {
                    marks.add(T0 + WAIT + d); // from genesis
                    marks.add(lastTs + WAIT + d); // from the last block
                    for (const p of posts) marks.add(T0 + p.at + WAIT + d);
                }
                marks.add(T0 + 200);
                const claims = new Map();
                const late = T0 + 200;
                const add = (at, victim, folded, from) => claims.set([at, victim, folded, from].join(), { at, victim, folded, from });
                const victims = [...ps, X].map((p) => p.address);
                for (const at of [...marks].filter((t) => t >= last).sort())
                    for (const victim of tier === "quick" ? [Wd.VerifSM.next(run.states[len])] : victims) {
                        // the right height, by a participant other than the victim and by the victim
                        for (const from of ps) if (tier !== "quick" || from !== ps[n - 1] || n === 2 || victim === from.address) add(at, victim, len, from.address);
                    }
                for (const at of tier === "quick" ? [late] : [late, T0 + WAIT, lastTs + WAIT])
                    for (const victim of victims)
                        for (const folded of [0, 1, 2, 3, 4])
                            for (const from of tier === "quick" && pl !== "none" ? [ps[(len + 1) % n], X] : [...ps, X]) if (at >= last) add(at, victim, folded, from.address);
                for (const { at, victim, folded, from } of claims.values()) {
                    const op = {
                        op: "create", id: ID, fork: run.fork, fin: fin ? run.states[len] : genesis, latest: run.states[len], vvb,
                        timedout: victim, folded, proofs: [], from, at
                    };
                    const r = await probe(w, rec, op, `n=${n}${run.fork ? " joined" : ""} len=${len} fin=${fin} post=${pl} at=${at - T0} victim=${victims.indexOf(victim)} folded=${folded} from=${victims.indexOf(from)}`, {
                        base, replay: (o) => ({ n, joined: run.fork > 0, posts, op: Wd.norm(o) })
                    });
                    rec.add("traces");
                    if (r.model.ok) rec.sample({ n, len, posts: pl, at: at - T0, victim, folded });
                }
                await w.back(base);
                await w.back(root);
                root.id = await w.chain.snapshot();
            }
        }
    }
}
/** removal without any timeout claim: the prior-block folding proof */
async function prior(w, ps, run, genesis, rec) {
    for (let len = 1; len <= 3; len++)
        for (let k = 0; k < len; k++) {
            const base = await w.snap();
            const op = {
                op: "create", id: ID, fork: run.fork, fin: genesis, latest: run.states[len],
                vvb: [...Array(len).keys()].map((i) => conf(run.blocks[i], [run.authors[i]])),
                timedout: ZERO, folded: len, proofs: [{ proofType: PROOF.FoldPriorBlock, encodedProof: enc("FoldPriorBlock", { transactionCnt: k }) }],
                from: ps[(k + 1) % ps.length].address, at: T0 + 3 * len + 1
            };
            const r = await w.step(op);
            rec.transition();
            if (r.impl.ok) {
                const o = await w.observe(ID);
                if (!w.spec.sm.participants(o.latest).includes(run.authors[k].address))
                    rec.violation(
                        "fold-prior-block: author removed with no timeout elapsed",
                        `FoldPriorBlock(${k}) in a dispute without a timeout claim removes the author of block ${k} one second after the last block`,
                        { prior: true, joined: run.fork > 0, n: ps.length, len, k }
                    );
            }
            await w.back(base);
        }
}
module.exports = {
    level: "model_checking",
    bounds: "2-3 participants (3 also in the fork in which the third one joined), 0-3 blocks, every claimed participant/height/submitter, every boundary instant +-1s, 0-2 calldata postings before or after the last block",
    prepare: () => World.prepare(),
    async run({ rec, prep, shard, shards, opt }) {
        let i = 0;
        const mine = () => i++ % shards === shard;
        for (const [n, joined] of [[2], [3], [3, true]]) {
            const { w, ps, run, genesis } = await setup(prep, n, joined);
            await explore(w, ps, run, genesis, rec, mine, opt.tier);
            if (shard === 0) await prior(w, ps, run, genesis, rec);
        }
    },
    async replay(r, rec, prep) {
        const { w, ps, run, genesis } = await setup(prep, r.n, r.joined);
        if (r.prior) return prior(w, ps, run, genesis, rec);
        for (const p of r.posts) {
            const who = [...ps, X, X, X][p.who];
            const b = block({ channelId: ID, participant: who.address, fork: run.fork, cnt: p.h, ts: T0 + p.at, data: w.add(1), stateHash: ethers.ZeroHash, prev: ethers.ZeroHash });
            await w.step({ op: "post", id: ID, from: who.address, sb: sb(b, who), at: T0 + p.at });
        }
        await probe(w, rec, { ...r.op, at: +r.op.at, fork: +r.op.fork }, "replay");
    }
};
