"use strict";
// C06: fraud evidence. Enumerates evidence of every kind against disputes in several situations and
// compares the verdict and its effect with the reference model; and enumerates everything two
// colluding participants can present against a third, honest one.
const Wd = require("../lib/world");
const { World, A, B, C, X, J, honestRun, conf, sb, enc, H, block, sign, PROOF, ZERO, ethers } = Wd;
const { probe, product, subsets } = require("../lib/onchain");
const ID = ethers.id("c06");
const ID2 = ethers.id("c06-other");
const T0 = 1_000_000_000;
const Z = ethers.id("zzz");
const ps = [A, B, C];

async function setup(art) {
    const w = await World.create(art);
    await w.open(ID, ps.map((p) => p.address), [100, 101, 102], T0);
    await w.open(ID2, [A, B].map((p) => p.address), [5, 6], T0);
    const genesis = w.spec.forkState(ID, 0);
    const run = honestRun({ id: ID, fork: 0, genesis, moves: [w.add(1), w.add(1), w.add(1), w.add(1)], ts0: T0, dt: 2 });
    return { w, run, genesis };
}
const proof = (t, v) => ({ proofType: PROOF[t], encodedProof: enc(t === "JoinChannel" ? "JoinProof" : t, v) });
const dsOf = (who, cnt = 60, fork = 0) => {
    const mk = (x) => block({ channelId: ID, participant: who.address, fork, cnt, ts: T0, data: "0x0" + x, stateHash: Z, prev: Z });
    return proof("DoubleSign", { doubleSigns: [{ block1: sb(mk(1), who), block2: sb(mk(2), who) }] });
};

/** the situations in which evidence is presented */
async function situations(w, run, genesis) {
    const hist = (len, all) => ({
        fin: genesis, latest: run.states[len],
        vvb: [...Array(len).keys()].map((k) => conf(run.blocks[k], all ? ps : [run.authors[k]]))
    });
    const out = [];
    const create = (h, over) => (proofs) => ({ op: "create", id: ID, fork: 0, ...h, timedout: ZERO, folded: 0, proofs, from: A.address, at: T0 + 30, ...over });
    out.push({ name: "create/empty", pre: [], mk: create(hist(0)), len: 0 });
    out.push({ name: "create/2", pre: [], mk: create(hist(2)), len: 2 });
    // A is next at 3: C claims nothing; B creates with a timeout of A at height 3
    out.push({ name: "create/timeout", pre: [], mk: create(hist(3), { from: B.address, timedout: A.address, folded: 3 }), len: 3 });
    const challenge = (h, over) => (proofs) => ({ op: "challenge", id: ID, fork: 0, challengeCnt: 0, ...h, proofs, from: A.address, at: T0 + 34, ...over });
    out.push({ name: "challenge/slashC", pre: [create(hist(2), { from: B.address })([dsOf(C)])], mk: challenge(hist(3)), len: 2 });
    // a block posted on chain extends the time that the next one has
    out.push({ name: "challenge/posted", pre: [{ op: "post", id: ID, from: A.address, sb: sb(run.blocks[0], A), at: T0 + 4 }, create(hist(2), { from: B.address })([dsOf(C)])], mk: challenge(hist(3)), len: 2 });
    out.push({ name: "challenge/timeout", pre: [create(hist(2), { from: B.address, timedout: C.address, folded: 2 })([])], mk: challenge(hist(2)), len: 2 });
    out.push({ name: "challenge/genesis-timeout", pre: [create(hist(0), { from: B.address, timedout: A.address, folded: 0 })([])], mk: challenge(hist(1)), len: 0 });
    return out;
}
function* evidence(w, run, genesis, sit, tier) {
    const now = sit.mk([]).at;
    const S = run.states;
    const mkb = (o) => block({ channelId: ID, participant: A.address, fork: 0, cnt: 0, ts: T0 + 2, data: w.add(1), stateHash: H(S[1]), prev: H(S[0]), ...o });
    // --- double signing
    const dsb = [
        ["b0", run.blocks[0]], ["b0'", mkb({ ts: T0 + 3 })], ["b0''", mkb({ data: w.add(2), stateHash: Z })],
        ["b1", run.blocks[1]], ["b1'", mkb({ participant: B.address, cnt: 1, ts: T0 + 4, data: w.add(5), stateHash: Z, prev: H(S[1]) })],
        ["b2'", mkb({ participant: C.address, cnt: 2, stateHash: Z })],
        ["fork1", mkb({ fork: 1, ts: T0 + 3 })], ["chan2", mkb({ channelId: ID2, ts: T0 + 3 })], ["junk", "0x1234"]
    ];
    const sig = (b, s) => (s === "bad" ? "0x12" : s === "short" ? sign(A, b).slice(0, -2) : sign(s, b));
    const sigs = [A, B, X, "bad"];
    for (const [[n1, e1], [n2, e2]] of product(dsb, dsb))
        for (const [s1, s2] of product(sigs, sigs)) {
            if (tier === "quick" && sit.name !== "create/2" && sit.name !== "challenge/timeout" && s1 !== s2) continue;
            yield [`ds ${n1}/${nm(s1)} ${n2}/${nm(s2)}`, () => [proof("DoubleSign", { doubleSigns: [{ block1: { encodedBlock: e1, signature: sig(e1, s1) }, block2: { encodedBlock: e2, signature: sig(e2, s2) } }] })]];
        }
    // lists of two pairs
    const pair = (who, cnt) => { const f = (x) => mkb({ participant: who.address, cnt, data: w.add(x), stateHash: Z }); return { block1: sb(f(1), who), block2: sb(f(2), who) }; };
    for (const [a, b] of product([A, B, C, X], [A, B, C, X]))
        for (const [c1, c2] of [[1, 1], [1, 9], [9, 1]])
            yield [`ds2 ${nm(a)}${c1} ${nm(b)}${c2}`, () => [proof("DoubleSign", { doubleSigns: [pair(a, c1), pair(b, c2)] })]];
    yield ["ds empty", () => [proof("DoubleSign", { doubleSigns: [] })]];
    // --- incorrect data
    const G = H(S[0]);
    const b1s = [
        ["b0", run.blocks[0], A], ["b1", run.blocks[1], B], ["b2", run.blocks[2], C],
        ["b0late", mkb({ ts: T0 + 40 }), A], ["b1state", mkb({ participant: B.address, cnt: 1, stateHash: Z, prev: H(S[1]) }), B],
        ["b1fork", mkb({ participant: B.address, cnt: 1, fork: 1, stateHash: H(S[2]) }), B], ["b1chan", mkb({ participant: B.address, cnt: 1, channelId: ID2, stateHash: H(S[2]) }), B],
        ["b0back", mkb({ ts: T0 + 4, stateHash: G }), A], // the state recurs
        ["b1unsigned", run.blocks[1], A], ["b1gap", mkb({ participant: B.address, cnt: 0, stateHash: H(S[2]) }), B]
    ];
    const on = (k, o) => mkb({ participant: ps[k % 3].address, cnt: k, ts: T0 + 2 * (k + 1), stateHash: H(S[k + 1]), prev: H(S[k]), ...o });
    const b2s = [0, 1, 2].flatMap((k) => {
        const w_ = ps[k % 3];
        return [
            [`ok${k}`, run.blocks[k], w_], [`state${k}`, on(k, { stateHash: Z }), w_], [`fail${k}`, on(k, { data: w.smi.encodeFunctionData("fail") }), w_],
            [`data${k}`, on(k, { data: w.add(2) }), w_], [`junkdata${k}`, on(k, { data: "0x12" }), w_], [`priv${k}`, on(k, { data: w.smi.encodeFunctionData("slashParticipant", [B.address]), stateHash: H(S[k]) }), w_],
            [`early${k}`, on(k, { ts: T0 + 2 * k - 1 }), w_], [`same${k}`, on(k, { ts: T0 + 2 * k }), w_], [`max${k}`, on(k, { ts: T0 + 2 * k + 5 }), w_], [`late${k}`, on(k, { ts: T0 + 2 * k + 6 }), w_],
            [`notnext${k}`, on(k, { participant: ps[(k + 1) % 3].address }), ps[(k + 1) % 3]], [`outsider${k}`, on(k, { participant: X.address, stateHash: Z }), X],
            [`fork${k}`, on(k, { fork: 1, stateHash: Z }), w_], [`chan${k}`, on(k, { channelId: ID2, stateHash: Z }), w_], [`unsigned${k}`, on(k, { stateHash: Z }), X]
        ];
    });
    for (const k of [1, 2]) for (const ts of [T0 + 8, T0 + 10]) b2s.push([`fromgenesis${k}@${ts - T0}`, on(k, { participant: A.address, prev: G, stateHash: H(S[1]), ts }), A]);
    const sts = [["g", S[0]], ["s1", S[1]], ["s2", S[2]], ["junk", "0x1234"]];
    for (const [[n1, e1, w1], [n2, e2, w2], [ns, st]] of product(b1s, b2s, sts)) {
        if (tier === "quick" && sit.name !== "create/2" && !(n1 === "b0" || n1 === "b1" || (n1 === "b0back" && n2.startsWith("fromg")))) continue;
        if (tier === "quick" && sit.name.startsWith("create/") && sit.name !== "create/2") continue;
        yield [`id ${n1} ${n2} ${ns}`, () => [proof("IncorrectData", { block1: sb(e1, w1), block2: sb(e2, w2), encodedState: st })]];
    }
    // genesis with block1 = block2, as the format prescribes
    for (const [n2, e2, w2] of b2s) yield [`id self ${n2}`, () => [proof("IncorrectData", { block1: sb(e2, w2), block2: sb(e2, w2), encodedState: S[0] })]];
    // --- newer state
    for (const k of [0, 1, 2, 3])
        for (const s of [A, B, C, X, "bad"])
            for (const o of [{}, { fork: 1 }, { channelId: ID2 }]) {
                const b = on(k, o);
                yield [`newer ${k} ${nm(s)} ${Object.keys(o)}`, () => [proof("NewerState", { encodedBlock: b, confirmationSignature: sig(b, s) })]];
            }
    // --- fold rechallenge
    for (const k of [0, 1, 2, 3])
        for (const ss of [...subsets([A, B, C]), [A, B, X], [A, A, B], [C, B, A], [A, B, C, X], [A, B, C, "bad"], [A, A, B, C], [A, B, C, C]])
            for (const o of ss.length === 3 && !ss.includes(X) ? [{}, { fork: 1 }, { channelId: ID2 }] : [{}]) {
                const b = on(k, o);
                yield [`rechallenge ${k} ${ss.map(nm).join("")} ${Object.keys(o)}`, () => [proof("FoldRechallenge", { encodedBlock: b, signatures: ss.map((s) => sig(b, s)) })]];
            }
    // --- fold prior block
    for (const k of [0, 1, 2, 3, 4]) yield [`prior ${k}`, () => [proof("FoldPriorBlock", { transactionCnt: k })]];
    // --- too far in the future
    for (const d of [-1, 0, 1, 1000])
        for (const [au, s] of [[A, A], [B, B], [B, A], [C, C], [X, X], [B, "bad"]])
            for (const o of [{}, { fork: 1 }, { channelId: ID2 }])
                yield [`future ${d} ${nm(au)} ${nm(s)} ${Object.keys(o)}`, () => { const b = mkb({ participant: au.address, cnt: 7, ts: now + d, ...o }); return [proof("BlockTooFarInFuture", { block1: { encodedBlock: b, signature: sig(b, s) } })]; }];
    // --- joining
    const jc = (o) => enc("JoinChannel", { channelId: ID, participant: J.address, amount: 50, deadlineTimestamp: now + 1, data: "0x", ...o });
    const jv = [["ok", {}, J], ["late", { deadlineTimestamp: now }, J], ["expired", { deadlineTimestamp: now - 5 }, J], ["chan", { channelId: ID2 }, J], ["inside", { participant: B.address }, B], ["forged", {}, B], ["noamount", { amount: 11 }, J], ["smrefuses", { amount: 13 }, J]];
    for (const [n, o, s] of jv)
        for (const ss of n === "ok" ? [...subsets([A, B, C]), [A, B, X], [A, B, C, "bad"], [C, A, B, X]] : [[A, B, C]]) {
            yield [`join ${n} ${ss.map(nm).join("")}`, () => { const e = jc(o); const sj = enc("SignedJoinChannel", { encodedJoinChannel: e, signature: sign(s, e) }); return [proof("JoinChannel", { encodedSignedJoinChannel: sj, signatures: ss.map((x) => sig(sj, x)) })]; }];
        }
    const joinOk = (o = {}) => { const e = jc(o); const sj = enc("SignedJoinChannel", { encodedJoinChannel: e, signature: sign(J, e) }); return proof("JoinChannel", { encodedSignedJoinChannel: sj, signatures: ps.map((x) => sign(x, sj)) }); };
    yield ["join twice", () => [joinOk(), joinOk()]];
    for (const o of [{ deadlineTimestamp: now + 2 }, { amount: 51 }, { data: "0x01" }]) yield ["join twice " + Object.keys(o), () => [joinOk(), joinOk(o)]];
    // --- kinds without content, garbage
    for (const t of [0, 1, 2, 3, 4, 5, 6, 7]) yield [`garbage ${t}`, () => [{ proofType: t, encodedProof: "0x12" }]];
    yield ["leave force", () => [{ proofType: 7, encodedProof: "0x" }]];
    yield ["none", () => []];
    // --- sequences of two kinds
    const seq = [
        ["dsB", () => dsOf(B)], ["dsC", () => dsOf(C)], ["dsA", () => dsOf(A)], ["dsX", () => dsOf(X)], ["dsC1", () => dsOf(C, 1)],
        ["inc", () => proof("IncorrectData", { block1: sb(run.blocks[0], A), block2: sb(on(1, { stateHash: Z }), B), encodedState: S[1] })],
        ["okdata", () => proof("IncorrectData", { block1: sb(run.blocks[0], A), block2: sb(run.blocks[1], B), encodedState: S[1] })],
        ["prior0", () => proof("FoldPriorBlock", { transactionCnt: 0 })],
        ["rech2", () => proof("FoldRechallenge", { encodedBlock: run.blocks[2], signatures: ps.map((p) => sign(p, run.blocks[2])) })],
        ["rech3", () => proof("FoldRechallenge", { encodedBlock: run.blocks[3], signatures: ps.map((p) => sign(p, run.blocks[3])) })],
        ["newer", () => proof("NewerState", { encodedBlock: run.blocks[3], confirmationSignature: sign(B, run.blocks[3]) })],
        ["future", () => { const b = mkb({ participant: C.address, cnt: 7, ts: now + 50 }); return proof("BlockTooFarInFuture", { block1: sb(b, C) }); }],
        ["join", () => joinOk()], ["leave", () => ({ proofType: 7, encodedProof: "0x" })]
    ];
    for (const [[n1, f1], [n2, f2]] of product(seq, seq)) yield [`seq ${n1},${n2}`, () => [f1(), f2()]];
}
const nm = (s) => (typeof s === "string" ? s : "ABCXJ"[Wd.W.indexOf(s)]);

/** Two colluding participants A and C against honest B. Returns proofs. */
function* collusion(w, run, genesis) {
    const S = run.states;
    const att = [A, C];
    // B's signature exists only on the blocks of the honest run: it wrote b1 and confirmed the others
    const honest = run.blocks.map((b, k) => ({ b, k, ss: [run.authors[k], B] }));
    const forged = [];
    for (const cnt of [0, 1, 2, 3])
        for (const who of att)
            for (const ts of [T0 - 50, T0 + 2 * (cnt + 1), T0 + 28, T0 + 500])
                for (const st of [0, 1, 2])
                    for (const prev of [0, 1]) forged.push({ n: `f${nm(who)}${cnt}@${ts - T0}s${st}p${prev}`, b: block({ channelId: ID, participant: who.address, fork: 0, cnt, ts, data: w.add(1), stateHash: H(S[st]), prev: H(S[prev]) }), by: who });
    // incorrect data about B's own block, with any predecessor the attackers can make or have
    const vict = [{ n: "b1", b: run.blocks[1], by: B }];
    const preds = [...forged, ...honest.map((h) => ({ n: "b" + h.k, b: h.b, by: run.authors[h.k] }))];
    for (const p of preds)
        for (const v of vict)
            for (const [i, st] of S.entries()) yield [`incorrect ${p.n} ${v.n} s${i}`, proof("IncorrectData", { block1: sb(p.b, p.by), block2: sb(v.b, v.by), encodedState: st })];
    // double signing with any two blocks B signed, or a mix
    const bs = honest.map((h) => [h.b, sign(B, h.b)]);
    for (const [x, i] of bs.map((x, i) => [x, i])) {
        for (const [y, j] of bs.map((y, j) => [y, j])) yield [`double b${i} b${j}`, proof("DoubleSign", { doubleSigns: [{ block1: { encodedBlock: x[0], signature: x[1] }, block2: { encodedBlock: y[0], signature: y[1] } }] })];
        for (const f of forged.filter((f) => f.n.includes("@2s") || f.n.includes("@4s"))) {
            yield [`double b${i} ${f.n}`, proof("DoubleSign", { doubleSigns: [{ block1: { encodedBlock: x[0], signature: x[1] }, block2: sb(f.b, f.by) }] })];
            // B's signature moved onto another block
            yield [`double moved b${i} ${f.n}`, proof("DoubleSign", { doubleSigns: [{ block1: { encodedBlock: x[0], signature: x[1] }, block2: { encodedBlock: f.b, signature: x[1] } }] })];
        }
        // a different encoding of the same block
        yield [`double padded b${i}`, proof("DoubleSign", { doubleSigns: [{ block1: { encodedBlock: x[0], signature: x[1] }, block2: { encodedBlock: x[0] + "00".repeat(32), signature: x[1] } }] })];
    }
    for (const [i, x] of bs.entries()) {
        yield [`newer b${i}`, proof("NewerState", { encodedBlock: x[0], confirmationSignature: x[1] })];
        yield [`future b${i}`, proof("BlockTooFarInFuture", { block1: { encodedBlock: x[0], signature: x[1] } })];
        yield [`rechallenge b${i}`, proof("FoldRechallenge", { encodedBlock: x[0], signatures: [sign(A, x[0]), x[1], sign(C, x[0])] })];
    }
}
async function soundness(w, run, genesis, rec, mine) {
    // situations: attackers open a dispute; B honestly opened one (its latest state) and is challenged
    const full = { fin: genesis, latest: run.states[4], vvb: run.blocks.map((b, k) => conf(b, [run.authors[k], B])) };
    const root = await w.snap();
    for (const sit of ["create", "challenge B"]) {
        if (sit === "challenge B") {
            const r = await w.step({ op: "create", id: ID, fork: 0, ...full, timedout: ZERO, folded: 0, proofs: [dsOf(C)], from: B.address, at: T0 + 12 });
            if (!r.impl.ok) throw new Error("setup " + r.impl.err);
        }
        const base = await w.snap();
        for (const [label, p] of collusion(w, run, genesis)) {
            if (!mine()) continue;
            const op = sit === "create"
                ? { op: "create", id: ID, fork: 0, ...full, timedout: ZERO, folded: 0, proofs: [p], from: A.address, at: T0 + 14 }
                : { op: "challenge", id: ID, fork: 0, challengeCnt: 0, ...full, proofs: [p], from: A.address, at: T0 + 14 };
            const r = await w.step(op);
            rec.transition();
            rec.add("traces");
            if (r.impl.ok) {
                const o = await w.observe(ID);
                if (o.dispute.slashedParticipants.includes(B.address)) {
                    const forgedPred = /^incorrect f[AC]0@(-50|28|500)s1p[01] b1 s1$/.test(label);
                    rec.violation(
                        forgedPred ? "honest author slashed: predecessor forged by a colluding participant" : `honest participant slashed: ${sit}: ${label}`,
                        `an honest participant is slashed by evidence of two colluding ones: ${label}`,
                        { sound: true, sit, label }
                    );
                }
                rec.outcome("collusion accepted");
                await w.back(base);
                base.id = await w.chain.snapshot();
            } else {
                rec.outcome("collusion rejected");
                w.spec = base.spec;
            }
        }
        await w.back(root);
        root.id = await w.chain.snapshot();
    }
}
module.exports = {
    level: "model_checking",
    bounds: "3 participants, 6 dispute situations, every evidence kind over a small block/signer/state alphabet, pairs of evidence, all evidence two colluders can build against one honest participant",
    prepare: () => World.prepare(),
    async run({ rec, prep, shard, shards, opt }) {
        const { w, run, genesis } = await setup(prep);
        let i = 0;
        const mine = () => i++ % shards === shard;
        const root = await w.snap();
        for (const sit of await situations(w, run, genesis)) {
            for (const op of sit.pre) await probe(w, rec, op, sit.name + " setup", { keep: true });
            const base = await w.snap();
            for (const [label, mk] of evidence(w, run, genesis, sit, opt.tier)) {
                if (!mine()) continue;
                const r = await probe(w, rec, sit.mk(mk()), `${sit.name}: ${label}`, { base, ids: [ID], replay: (o) => ({ sit: sit.name, label }) });
                rec.add("traces");
                if (r.model.ok) rec.sample({ situation: sit.name, evidence: label });
            }
            await w.back(base);
            await w.back(root);
            root.id = await w.chain.snapshot();
        }
        await soundness(w, run, genesis, rec, mine);
    },
    async replay(r, rec, prep) {
        const { w, run, genesis } = await setup(prep);
        if (r.sound) return soundness(w, run, genesis, rec, () => true);
        const sit = (await situations(w, run, genesis)).find((s) => s.name === r.sit);
        for (const op of sit.pre) await probe(w, rec, op, sit.name + " setup", { keep: true });
        for (const [label, mk] of evidence(w, run, genesis, sit, "thorough"))
            if (label === r.label) await probe(w, rec, sit.mk(mk()), label, {});
    }
};
