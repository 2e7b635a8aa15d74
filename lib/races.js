"use strict";
// Events that may hit one node at the same time, and the schedules of them.
const K = require("./nodecheck");
const N = require("./node");
const Ty = require("./types");
const { setup, genesis, wOf } = require("./situ");
const { Peer } = require("./peer");
const { explore, settle } = require("./interleave");
const { W, X, build } = require("./blocks");
const { VerifSM, T0, CH, add, nudge, signBytes, ZERO } = N;
const { ethers } = require("./ts");
const { H } = Ty;

const confSig = (w, b) => signBytes(w, ethers.getBytes(H(b.canon)));
const chainEv = (name, args) => ({ t: "chain", name, args });
const disputeOf = (fork, o = {}) => ({
    channelId: CH, forkCnt: BigInt(fork), challengeCnt: 0n, encodedLatestFinalizedState: "0x", encodedLatestCorrectState: "0x", virtualVotingBlocks: [], timedoutParticipant: ZERO, foldedTransactionCnt: 0n, timeoutDisputer: ZERO,
    postedStateDisputer: W[0].address, joinChannelParticipants: [], leaveChannelParticipants: [], slashedParticipants: [], participants: [], processExits: [], creationTimestamp: BigInt(T0 + 10), deadlineTimestamp: BigInt(T0 + 18), ...o
});
/** a model in the same situation (replays what setup did) */
const cloneModel = (m) => {
    const c = new Peer({ me: m.me, channel: m.channel, times: m.times, chainTs: m.chainTs, disputes: true });
    c.forks = m.forks.map((f) => ({ ...f, posted: [...f.posted], blocks: f.blocks.map((b) => ({ ...b, signers: new Set(b.signers) })) }));
    c.disputed = new Set(m.disputed);
    c.queue = [...m.queue];
    return c;
};
/** a block message and what it does to the model (dispute: a participant provably misbehaved) */
function blockEvent(name, b, extra = {}) {
    return {
        name, ev: K.msgBlock(b), bytes: b.canon,
        apply: (m) => m.block(b.bytes, b.sig),
        ...extra
    };
}
/** the alphabet of a situation */
function alphabet(s, model) {
    const me = W[s.me], st = model.state, fork = s.fork, h = model.height, t = model.latestTs;
    const next = wOf(VerifSM.next(st));
    const others = W.slice(0, s.np).filter((w) => w !== me);
    const ev = [];
    const sentBlock = (bytes) => (ctx) => ctx.sentBlocks.has(bytes);
    const A = (name, f) => ev.push({ name, make: f });
    const list = [];
    const put = (e) => list.push(e);
    const play = (name, data) => ({ name, ev: { t: "play", data, id: name }, apply: (m) => !!m.play(data, Math.floor((s.now || 0) + T0)), own: true });
    let B;
    if (next !== me) {
        B = build({ author: next, fork, height: h, ts: t + 1, data: add(1), state: st });
        const B2 = build({ author: next, fork, height: h, ts: t + 2, data: add(2), state: st });
        const bad = build({ author: next, fork, height: h, ts: t + 1, data: add(3), state: st, stateHash: ethers.id("wrong") });
        put(blockEvent("block", B));
        put(blockEvent("another block of its author", B2));
        put(blockEvent("bad block", bad));
        if (others.length > 1 || true)
            for (const w of others.concat(X).slice(0, 2)) put({ name: `confirmation by ${W.indexOf(w)}`, ev: K.msgConf(B, confSig(w, B)), bytes: B.canon, apply: (m) => m.confirmation(B.bytes, B.sig, confSig(w, B)) });
        put({ name: "block posted", ev: chainEv("BlockCalldataPosted", { channelId: CH, signedBlock: { encodedBlock: B.bytes, signature: B.sig }, timestamp: BigInt(t + 4) }), apply: (m) => m.posted(B.bytes, B.sig, t + 4) });
        const n2 = wOf(VerifSM.next(B.state));
        if (n2 !== me) {
            const C = build({ author: n2, fork, height: h + 1, ts: t + 2, data: add(1), state: B.state });
            put(blockEvent("following block", C));
        } else put(play("own block", add(5)));
        if (n2 !== me) put(play("own block out of turn", nudge(5)));
    } else {
        put(play("own block", add(1)));
        put(play("another own block", nudge(2)));
        const m2 = cloneModel(model);
        const bytes = m2.play(add(1), T0 + (s.now || 0));
        B = { bytes, canon: bytes, sig: signBytes(me, ethers.getBytes(H(bytes))), state: m2.state };
        for (const w of others.slice(0, 2)) {
            put({ name: `confirmation by ${W.indexOf(w)}`, ev: K.msgConf(B, confSig(w, B)), bytes, when: bytes, apply: (m) => m.confirmation(B.bytes, B.sig, confSig(w, B)) });
            const out = build({ author: w, fork, height: h, ts: t + 1, data: add(1), state: st });
            put(blockEvent(`block out of turn by ${W.indexOf(w)}`, out));
            if (w === others[0]) put(blockEvent(`acceptable block out of turn by ${W.indexOf(w)}`, build({ author: w, fork, height: h, ts: t + 1, data: nudge(1), state: st })));
        }
        const n2 = wOf(VerifSM.next(B.state));
        if (n2 !== me) {
            const C = build({ author: n2, fork, height: h + 1, ts: m2.latestTs + 1, data: add(1), state: B.state });
            put({ ...blockEvent("following block", C), when: bytes });
        }
    }
    const g = genesis(s.np, 30n + BigInt(fork));
    put({ name: "next fork", ev: K.setState(g, fork + 1, T0 + 40), apply: (m) => m.newFork(g, fork + 1, T0 + 40) });
    put({ name: "this fork again", ev: K.setState(model.fork.genesis, fork, model.fork.ts), apply: () => false });
    const a = wOf(VerifSM.next(g));
    if (a !== me) put(blockEvent("block of the next fork", build({ author: a, fork: fork + 1, height: 0, ts: T0 + 41, data: add(1), state: g })));
    put({ name: "dispute", ev: chainEv("DisputeUpdated", { channelId: CH, dispute: disputeOf(fork) }), apply: (m) => m.disputed.add(fork), dispute: true });
    return list;
}
const perms = (n) => (n === 0 ? [[]] : perms(n - 1).flatMap((p) => [...Array(n).keys()].map((i) => [...p.slice(0, i), n - 1, ...p.slice(i)])));
/** everything that sequential processing could lead to */
function outcomes(model, evs, some = false) {
    const r = new Map();
    // some: inputs whose processing failed count as not received
    const all = perms(evs.length);
    const orders = some ? all.flatMap((p) => [...Array(1 << p.length).keys()].map((m) => p.filter((_, i) => m & (1 << i)))) : all;
    for (const p of orders) {
        if (p.some((k, i) => evs[k].after !== undefined && !p.slice(0, i).includes(evs[k].after))) continue;
        const m = cloneModel(model);
        const skipped = [];
        const has = (bytes) => m.forks.some((f) => f.blocks.some((b) => b.bytes === bytes));
        for (const k of p) {
            if (evs[k].when && !has(evs[k].when)) skipped.push(k);
            else evs[k].apply(m);
        }
        // a message that can be made arrives, sooner or later
        if (!some && skipped.some((k) => has(evs[k].when))) continue;
        r.set(m.summary(false) + [...m.disputed].sort(), m);
    }
    return [...r.values()];
}
module.exports = { alphabet, outcomes, cloneModel, blockEvent, disputeOf, chainEv, confSig, perms, explore, settle, setup, genesis, wOf };
