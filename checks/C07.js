"use strict";
// C07: the dispute window. Explores sequences of dispute creation and challenges (with every single
// and double deviation from a well-formed one) on the real contracts, against the reference model.
const Wd = require("../lib/world");
const { World, A, B, C, X, honestRun, conf, sb, enc, H, block, sign, PROOF, ZERO, ethers } = Wd;
const { explore, follow, deviations } = require("../lib/onchain");
const ID = ethers.id("c07");
const T0 = 1_000_000_000;
const Z = ethers.id("zzz");
const P = [A, B, C];

async function setup(art) {
    const w = await World.create(art);
    await w.open(ID, P.map((p) => p.address), [100, 101, 102], T0);
    return w;
}
const runs = new Map();
function runOf(w, fork) {
    const g = w.spec.forkState(ID, fork);
    if (g === "0x") return null;
    const ts0 = Number(w.spec.c(ID).forks[fork].ts);
    const k = fork + g + ts0;
    if (!runs.has(k)) {
        const ps = w.spec.sm.participants(g);
        runs.set(k, ps.length ? honestRun({ id: ID, fork, genesis: g, moves: [w.add(1), w.add(1), w.add(1)], ts0 }) : { states: [g], blocks: [], authors: [] });
    }
    return runs.get(k);
}
const ds = (who, fork) => {
    const mk = (x) => block({ channelId: ID, participant: who.address, fork, cnt: 60, ts: T0, data: "0x0" + x, stateHash: Z, prev: Z });
    return { proofType: PROOF.DoubleSign, encodedProof: enc("DoubleSign", { doubleSigns: [{ block1: sb(mk(1), who), block2: sb(mk(2), who) }] }) };
};
function hist(w, fork, h) {
    const r = runOf(w, fork);
    if (!r) return { fin: "0x", latest: "0x", vvb: [] };
    const last = r.blocks.length;
    if (h === "empty") return { fin: r.states[0], latest: r.states[0], vvb: [] };
    const m = /^(\d)(f?)(x?)$/.exec(h);
    const len = Math.min(+m[1], last);
    const all = P.filter((p) => w.spec.sm.participants(r.states[0]).includes(p.address));
    if (m[2]) {
        if (len < 2) return null;
        return { fin: r.states[len - 1], latest: r.states[len], vvb: [len - 2, len - 1].map((k) => conf(r.blocks[k], m[3] ? [r.authors[k]] : all)) };
    }
    return { fin: r.states[0], latest: r.states[m[3] ? Math.max(0, len - 1) : len], vvb: [...Array(len).keys()].map((k) => conf(r.blocks[k], [r.authors[k]])) };
}
function* ops(w, depth, path, tier) {
    const c = w.spec.c(ID);
    const d = c.dispute;
    const cur = c.forks.length - 1;
    const now = w.time;
    const dl = d ? Number(d.deadlineTimestamp) : 0;
    const times = [...new Set(d && dl >= now ? [now + 1, Math.max(dl - 1, now), dl, dl + 1, dl + 40] : [now + 1, now + 40])];
    const k = tier === "quick" ? (depth === 2 ? 2 : 1) : depth <= 2 ? 2 : 1;
    // --- creation
    const proofs = (fork) => ({
        C: () => [ds(C, fork)], B: () => [ds(B, fork)], A: () => [ds(A, fork)], none: () => [],
        CB: () => [ds(C, fork), ds(B, fork)],
        newerA: () => newer(w, fork, A), newerB: () => newer(w, fork, B),
        rech: () => rech(w, fork), rech0: () => rech(w, fork, true)
    });
    const newDispute = !d || dl < now + 41;
    for (const o of deviations({
        from: [A, B, C, X], at: d && dl >= now ? [dl + 1, ...times.filter((t) => t !== dl + 1)] : times, proof: ["C", "B", "none", "A", "CB"], hist: ["1", "empty", "2", "2f", "3f", "2fx", "1x"],
        fork: [cur, cur - 1, cur + 1], timeout: [0, 1]
    }, k)) {
        if (o.fork < 0) continue;
        const h = hist(w, o.fork, o.hist);
        if (!h) continue;
        let timedout = ZERO, folded = 0;
        if (o.timeout) {
            try { timedout = w.spec.sm.next(h.latest); } catch { continue; }
            if (timedout === ZERO) continue;
            folded = h.vvb.length ? Number(Wd.dec("Block", h.vvb[h.vvb.length - 1].encodedBlock).transaction.header.transactionCnt) + 1 : 0;
        }
        yield [`create by${nm(o.from)} at+${o.at - now} proof=${o.proof} hist=${o.hist} fork${o.fork - cur} to${o.timeout}`, () => ({
            op: "create", id: ID, fork: o.fork, ...h, timedout, folded, proofs: proofs(o.fork)[o.proof](), from: o.from.address, at: o.at
        })];
    }
    if (!d && depth > 1) return;
    // --- challenges
    const df = d ? Number(d.forkCnt) : 0;
    const cc = d ? Number(d.challengeCnt) : 0;
    for (const o of deviations({
        from: [A, B, C, X], at: times, proof: ["B", "C", "none", "A", "newerA", "newerB", "rech", "rech0"], hist: ["2", "empty", "1", "3", "2f", "3f", "2fx", "1x"],
        fork: [df, cur + (df === cur ? 1 : 0)], cnt: [cc, cc + 1, cc - 1]
    }, k)) {
        if (o.cnt < 0) continue;
        const h = hist(w, df, o.hist);
        if (!h) continue;
        yield [`challenge by${nm(o.from)} at+${o.at - now} proof=${o.proof} hist=${o.hist} fork${o.fork - df} cnt${o.cnt - cc}`, () => ({
            op: "challenge", id: ID, fork: o.fork, challengeCnt: o.cnt, ...h, proofs: proofs(df)[o.proof](), from: o.from.address, at: o.at
        })];
    }
}
function newer(w, fork, who) {
    const r = runOf(w, fork);
    const b = r.blocks.length ? r.blocks[r.blocks.length - 1] : block({ channelId: ID, participant: who.address, fork, cnt: 2, ts: T0, stateHash: Z, prev: Z });
    return [{ proofType: PROOF.NewerState, encodedProof: enc("NewerState", { encodedBlock: b, confirmationSignature: sign(who, b) }) }];
}
function rech(w, fork, first) {
    const r = runOf(w, fork);
    const d = w.spec.c(ID).dispute;
    const cnt = first || !d ? 0 : Number(d.foldedTransactionCnt);
    const b = r.blocks[cnt] || block({ channelId: ID, participant: A.address, fork, cnt, ts: T0, stateHash: Z, prev: Z });
    return [{ proofType: PROOF.FoldRechallenge, encodedProof: enc("FoldRechallenge", { encodedBlock: b, signatures: P.map((p) => sign(p, b)) }) }];
}
const nm = (s) => "ABCXJ"[Wd.W.indexOf(s)];
module.exports = {
    level: "model_checking",
    bounds: { quick: "3 operations; one deviation from a well-formed operation at the 1st and 3rd, two at the 2nd", thorough: "3 operations; two deviations at the first two, one at the third" },
    prepare: () => World.prepare(),
    async run({ rec, prep, shard, shards, opt }) {
        const w = await setup(prep);
        await explore(w, rec, { depth: 3, ids: [ID], shard, shards, ops: (w, d, p) => ops(w, d, p, opt.tier) });
    },
    async replay(r, rec, prep) {
        const w = await setup(prep);
        await follow(w, rec, { path: r.path, ids: [ID], ops: (w, d, p) => ops(w, d, p, "thorough") });
    }
};
