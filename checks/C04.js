"use strict";
// C04: which dispute submissions the chain admits. Exhaustive enumeration of submissions over a
// small channel, differential against the reference model, on the real contracts.
const Wd = require("../lib/world");
const { World, A, B, C, X, honestRun, conf, sb, enc, H, block, sign, PROOF, ZERO, ethers } = Wd;
const { probe, subsets, product } = require("../lib/onchain");

const ID = ethers.id("c04");
const ID2 = ethers.id("c04-other");
const T0 = 1_000_000_000;

async function setup(art, n) {
    const w = await World.create(art);
    const ps = [A, B, C].slice(0, n);
    const bal = ps.map((_, i) => 100 + i);
    await w.open(ID, ps.map((p) => p.address), bal, T0);
    await w.open(ID2, [X.address], [5], T0);
    return { w, ps };
}
function material(w, ps, moves = [1, 1, 1]) {
    const genesis = w.spec.forkState(ID, 0);
    const run = honestRun({
        id: ID, fork: 0, participants: ps.map((p) => p.address), genesis,
        moves: moves.map((x) => w.add(x)), ts0: T0
    });
    // the last participant equivocated at height 50: a valid proof in every case
    const bad = ps[ps.length - 1];
    const mk = (x) => block({ channelId: ID, participant: bad.address, fork: 0, cnt: 50, ts: T0, data: w.add(x), stateHash: ethers.ZeroHash, prev: ethers.ZeroHash });
    const ds = { proofType: PROOF.DoubleSign, encodedProof: enc("DoubleSign", { doubleSigns: [{ block1: sb(mk(1), bad), block2: sb(mk(2), bad) }] }) };
    return { ...run, genesis, ds };
}
const baseOp = (m, over) => ({
    op: "create", id: ID, fork: 0, fin: m.genesis, latest: m.genesis, vvb: [], timedout: ZERO, folded: 0, proofs: [m.ds], from: A.address, at: T0 + 20, ...over
});

/** 1) all contiguous histories x who signed what x claimed states */
function* histories(ps, m, label, last) {
    const states = m.states;
    for (let i = 0; i < 3; i++)
        for (let j = i; j < Math.min(3, i + last); j++) {
            const idx = [...Array(j - i + 1).keys()].map((x) => x + i);
            for (const sigs of product(...idx.map(() => [...subsets(ps)])))
                for (const fin of [0, i, i + 1])
                    for (const latest of new Set([j + 1, i, 0])) {
                        if (fin === i && i === 0) continue;
                        yield [label, () => baseOp(m, {
                            vvb: idx.map((k, x) => conf(m.blocks[k], sigs[x])),
                            fin: states[fin], latest: states[latest]
                        })];
                    }
        }
}
/** every case as [label, op]; deterministic order */
function* cases(w, ps, m, tier) {
    const n = ps.length;
    const states = m.states;
    const other = enc("VerifState", { number: 9, participants: [A.address], balances: [1] });
    yield* histories(ps, m, "history", tier === "quick" && n === 3 ? 2 : 3);
    // moves that leave the state as it is: later states equal the one at genesis
    for (const moves of [[0, 0, 1], [1, 0, 0]]) yield* histories(ps, material(w, ps, moves), "history of moves " + moves, tier === "quick" && n === 3 ? 1 : 2);
    // 2) empty history
    for (const fin of [...states, other, "0x"])
        for (const latest of [...states, other, "0x"])
            yield ["empty", () => baseOp(m, { fin, latest })];
    // 3) all single and double defects of a good submission
    const full = (k, extra = {}) => {
        const ob = Wd.dec("Block", m.blocks[k]);
        const h = ob.transaction.header;
        return block({
            channelId: extra.channelId ?? h.channelId, participant: extra.participant ?? h.participant,
            fork: extra.fork ?? h.forkCnt, cnt: extra.cnt ?? h.transactionCnt, ts: extra.ts ?? h.timestamp,
            data: ob.transaction.body.data, stateHash: extra.stateHash ?? ob.stateHash, prev: extra.prev ?? ob.previousStateHash
        });
    };
    const Z = ethers.id("zzz");
    const mutators = [
        ["none", (o) => o],
        ...[0, 1, 2].flatMap((k) => [
            ["channel" + k, (o) => { o.b[k].x.channelId = ID2; }],
            ["fork" + k, (o) => { o.b[k].x.fork = 1; }],
            ["author" + k, (o) => { o.b[k].x.participant = X.address; o.b[k].sigs.push("X"); }],
            ["authorother" + k, (o) => { o.b[k].x.participant = ps[(k + 1) % n].address; }],
            ["height+" + k, (o) => { o.b[k].x.cnt = k + 1; }],
            ["height=" + k, (o) => { o.b[k].x.cnt = Math.max(0, k - 1); }],
            ["bigheight" + k, (o) => { o.b[k].x.cnt = 1000000; }],
            ["prev" + k, (o) => { o.b[k].x.prev = Z; }],
            ["state" + k, (o) => { o.b[k].x.stateHash = Z; }],
            ["nosig" + k, (o) => { o.b[k].sigs = []; }],
            ["noauthorsig" + k, (o) => { o.b[k].sigs = o.b[k].sigs.filter((s) => s !== m.authors[k]); }],
            ["badsig" + k, (o) => { o.b[k].sigs.push("bad"); }],
            ["dupsig" + k, (o) => { if (o.b[k].sigs.length) o.b[k].sigs.push(o.b[k].sigs[0]); }],
            ["outsider" + k, (o) => { o.b[k].sigs.push("X"); }],
            ["foreignsig" + k, (o) => { o.b[k].sigs = [...o.b[k].sigs.slice(1), "foreign"]; }],
            ["drop" + k, (o) => { o.b[k].drop = true; }],
            ["dup" + k, (o) => { o.b[k].dup = true; }]
        ]),
        ["reverse", (o) => { o.rev = true; }],
        ["forkarg", (o) => { o.op.fork = 1; }],
        ["idarg", (o) => { o.op.id = ID2; }],
        ["idunknown", (o) => { o.op.id = Z; }],
        ["sender", (o) => { o.op.from = X.address; }],
        ["sender2", (o) => { o.op.from = ps[n - 1].address; }],
        ["noproof", (o) => { o.op.proofs = []; }],
        ["fin0", (o) => { o.op.fin = states[0]; }],
        ["fin1", (o) => { o.op.fin = states[1]; }],
        ["fin2", (o) => { o.op.fin = states[2]; }],
        ["fin3", (o) => { o.op.fin = states[3]; }],
        ["finx", (o) => { o.op.fin = other; }],
        ["latest0", (o) => { o.op.latest = states[0]; }],
        ["latest2", (o) => { o.op.latest = states[2]; }],
        ["latestx", (o) => { o.op.latest = other; }],
        ["latestempty", (o) => { o.op.latest = "0x"; }]
    ];
    const build = (ms, fin) => {
        const o = { b: [0, 1, 2].map((k) => ({ x: {}, sigs: [...ps] })), op: { fin: states[fin], latest: states[3] } };
        for (const f of ms) f(o);
        let vvb = [];
        o.b.forEach((q, k) => {
            if (q.drop || (fin > 0 && k < fin - 1)) return;
            const e = full(k, q.x);
            const c = conf(e, q.sigs.map((s) => s === "X" ? X : s === "bad" ? "0x1234" : s === "foreign" ? sign(ps[0], m.genesis) : s));
            vvb.push(c);
            if (q.dup) vvb.push(c);
        });
        if (o.rev) vvb.reverse();
        return baseOp(m, { vvb, ...o.op });
    };
    for (const fin of [0, 1, 2])
        for (let a = 0; a < mutators.length; a++)
            for (let b = a; b < mutators.length; b++) {
                if (tier === "quick" && fin === 2 && a > 0) continue;
                if (tier === "quick" && n === 3 && fin > 0 && a > 0) continue;
                yield [`defects fin=${fin}:${mutators[a][0]}+${mutators[b][0]}`, () => build(a === b ? [mutators[a][1]] : [mutators[a][1], mutators[b][1]], fin)];
            }
}
/** admission while an earlier dispute is open / expired, and on the following fork */
async function lifecycle(art, rec, mine) {
    const { w, ps } = await setup(art, 3);
    const m = material(w, ps);
    const snap = await w.snap();
    await probe(w, rec, baseOp(m, { at: T0 + 10 }), "first dispute", { keep: true, ids: [ID, ID2] });
    const base = await w.snap();
    const genesis1 = w.spec.forkState(ID, 1);
    const ps1 = [A, B];
    const run1 = honestRun({ id: ID, fork: 1, participants: [], genesis: genesis1, moves: [w.add(1), w.add(1)], ts0: T0 + 10 });
    const bad = B;
    const mk = (x, fork) => block({ channelId: ID, participant: bad.address, fork, cnt: 9, ts: T0, data: w.add(x), stateHash: ethers.ZeroHash, prev: ethers.ZeroHash });
    const ds = (fork) => ({ proofType: PROOF.DoubleSign, encodedProof: enc("DoubleSign", { doubleSigns: [{ block1: sb(mk(1, fork), bad), block2: sb(mk(2, fork), bad) }] }) });
    for (const at of [10, 17, 18, 19, 20])
        for (const fork of [0, 1, 2])
            for (const pf of [0, 1])
                for (const from of [A, B, C, X])
                    for (const len of [0, 1, 2])
                        for (const src of [0, 1]) {
                            if (!mine()) continue;
                            const r = src ? run1 : m;
                            const op = {
                                op: "create", id: ID, fork, fin: r.states[0], latest: r.states[len],
                                vvb: r.blocks.slice(0, len).map((b, i) => conf(b, [r.authors[i]])),
                                timedout: ZERO, folded: 0, proofs: [ds(pf)], from: from.address, at: T0 + at
                            };
                            await probe(w, rec, op, `after dispute at+${at} fork${fork} proof${pf} from${Wd.W.indexOf(from)} len${len} run${src}`, { base, ids: [ID, ID2] });
                        }
    await w.back(base);
}

module.exports = {
    level: "model_checking",
    bounds: "1-3 participants, histories of up to 3 blocks, every signature subset, also with states that recur, every pair of defects out of 67, a follow-up dispute at every boundary time",
    prepare: () => World.prepare(),
    async run({ rec, prep, shard, shards, opt }) {
        for (const n of [1, 2, 3]) {
            const { w, ps } = await setup(prep, n);
            const m = material(w, ps);
            const base = await w.snap();
            let i = 0;
            for (const [label, mk] of cases(w, ps, m, opt.tier)) {
                if (i++ % shards !== shard) continue;
                const op = mk();
                const r = await probe(w, rec, op, `n=${n} ${label}`, { base, ids: [ID, ID2], replay: (o) => ({ n, label, op: Wd.norm(o) }) });
                rec.add("traces");
                if (r.model.ok) rec.sample({ n, label, from: op.from, blocks: op.vvb.length });
            }
        }
        let j = 0;
        await lifecycle(prep, rec, () => j++ % shards === shard);
    },
    async replay(r, rec, prep) {
        const { w } = await setup(prep, r.n || 3);
        const op = denorm(r.op);
        await probe(w, rec, op, r.label, { ids: [ID, ID2] });
    }
};
function denorm(o) {
    return { ...o, at: Number(o.at), fork: Number(o.fork) };
}
